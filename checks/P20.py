"""P20: JSON, dictionary- and element-trees.  Oracles: equality with the original literal, Python's json as JSON-reader,
xml.etree as independent reader of the element-tree."""
import json, re
import xml.etree.ElementTree as ET
from hypothesis import strategies as st
from lib.pbt import prop, check, equal
from lib import trees, gen

RULE = 'tree with more than two nodes and attributes, repeated names, anonymous nodes or unusual characters'
NAMES = ['a', 'b', 'c', 'doc', 'head', 'x1', 'long_name', 'comment__', 'ZOMBIE__', '__a', 'Pos', 'content']
def contents(): return st.one_of(trees.PLAIN, gen.weird_text(max_size=10), st.sampled_from(['null', '[]', '{}', '"', '\\', '\\u0041', 'pos__', '\x00']))
def docs(**kw): return trees.trees(content=contents(), names=NAMES, attr_values=contents(), anon_attrs=True, **kw)


def rich(l):
    return trees.size(l) > 2 and (any(n[1] for n in trees.walk(l)) or len({n[0] for n in trees.walk(l)}) < trees.size(l))


@prop(lambda: st.tuples(docs(), st.booleans(), st.booleans(), st.sampled_from([None, 0, 2, 4]), st.booleans(), st.sampled_from(['no', 'yes', 'offset'])),
      quick=450, shards=8, rule=RULE)
def jsontrees(case, ctx):
    from DHParser.nodetree import Node, RootNode, parse_json, deserialize, DHParser_JSONEncoder
    l, as_dict, include_pos, indent, ascii, pos = case
    t = trees.build(l)
    if pos != 'no': t.with_pos(7 if pos == 'offset' else 0)
    want = trees.norm(l)
    poss = [nd._pos for nd in t.walk_tree(include_root=True)]
    js = t.as_json(indent=indent, ensure_ascii=ascii, as_dict=as_dict, include_pos=include_pos)
    try: obj = json.loads(js)
    except ValueError as e: check(False, 'invalid JSON', e, js)
    if ascii: check(js.isascii(), 'not ASCII')
    equal(json.loads(json.dumps(t.to_json_obj(as_dict, include_pos))), obj, 'json-object and json-string')
    for how, back in (('parse_json', parse_json(js)), ('from_json_obj', Node.from_json_obj(obj)), ('object', Node.from_json_obj(t.to_json_obj(as_dict, include_pos)))):
        equal(trees.lit(back), want, how, js)
        check(back.equals(t), how, 'not equal', js)
        equal([nd._pos for nd in back.walk_tree(include_root=True)], poss if include_pos else [-1] * len(poss), how, 'positions', js)
    if not as_dict:
        equal(trees.lit(deserialize(js)), want, 'deserialize', js)
        equal(trees.lit(Node.from_json_obj(json.loads(json.dumps({'t': t}, cls=DHParser_JSONEncoder))['t'])), want, 'encoder')
    equal(trees.lit(t), want, 'export changed the tree')
    ctx.nontrivial(rich(l)); ctx.label('dict', as_dict); ctx.label('pos ' + pos)


def _etflow(e):
    out = [e.text] if e.text else []
    for c in e:
        out.append(_etflow(c))
        if c.tail: out.append(c.tail)
    return (e.tag, dict(e.attrib), out)


XMLBAD = re.compile('[\x00-\x08\x0b-\x1f\ufffe\uffff\x7f-\x9f\ud800-\udfff]')


@prop(lambda: st.tuples(trees.trees(content=contents(), names=['a', 'b', 'c', 'doc', 'x-y', 'u.v'], anon=[':Text', ':Text', ':RegExp', ':Series'], attr_values=contents()), st.booleans()),
      quick=350, shards=8, rule='tree with mixed content')
def etrees(case, ctx):
    from DHParser.nodetree import Node
    etflow = _etflow
    l, through_text = case
    t = trees.build(l)
    et = t.as_etree()
    equal(trees.lit(t), trees.norm(l), 'export changed the tree')
    def fl(l):  # text-nodes dissolve in the parent; other anonymous nodes become elements
        n, a, r = l
        out = []
        for x in ([r] if isinstance(r, str) else [trees.content(c) if c[0] in (':Text', ':RegExp', ':Whitespace') else fl(c) for c in r]):
            if isinstance(x, str):
                if x and out and isinstance(out[-1], str): out[-1] += x
                elif x: out.append(x)
            else: out.append(x)
        return (n, dict(a), out)
    def nm(f): return (f[0][1:] + '__' if f[0][0] == ':' else f[0], f[1], [x if isinstance(x, str) else nm(x) for x in f[2]])
    equal(etflow(et), nm(fl(l)), 'element-tree')
    def tree_of(f):
        n, a, out = f
        if all(isinstance(x, str) for x in out): return (n, tuple(a.items()), ''.join(out))
        return (n, tuple(a.items()), tuple((':Text', (), x) if isinstance(x, str) else tree_of(x) for x in out))
    if through_text and not any(XMLBAD.search(x) for n in trees.walk(l) for x in [v for _, v in n[1]] + ([n[2]] if isinstance(n[2], str) else [])):
        et = ET.fromstring(ET.tostring(et, encoding='unicode')); ctx.label('through text')
    elif through_text: ctx.skip('control characters')
    equal(trees.lit(Node.from_etree(et)), tree_of(fl(l)), 'from_etree', ET.tostring(et, encoding='unicode')[:500])
    ctx.nontrivial(any(n[0] == ':Text' for n in trees.walk(l)) and trees.size(l) > 2)
