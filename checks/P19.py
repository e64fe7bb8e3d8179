"""P19: XML.  Oracle for well-formedness and content: xml.etree (expat), an independent XML-parser."""
import re
import xml.etree.ElementTree as ET
from hypothesis import strategies as st
from lib.pbt import prop, check, equal, raises
from lib import trees, gen

RULE = 'tree with mixed content, attributes, empty elements or characters that need escaping'
ASSUMPTIONS = ['characters that XML 1.0 does not allow are not part of the domain',
               'character sequences that look like an entity reference (&name;) are passed through by as_xml() as such',
               'white space in attribute values is subject to the normalization of XML-parsers']

def no_entity(s): return s.replace(';', '') if re.search('&(.|\\n)*;', s) else s
BAD = re.compile('[\x00-\x08\x0b-\x1f\ufffe\uffff\x7f-\x9f\ud800-\udfff]')
PIECES = ['a', 'b', ' ', '  ', '\n', '\t', '<', '>', '&', '"', "'", 'ä', '€', '😀', 'word', '<b>', ']]>', '&x', ';', '&amp', '--', '=', '/', '\u2028', '\u00a0']
def contents(): return st.one_of(trees.PLAIN, st.lists(st.sampled_from(PIECES), max_size=6).map(''.join), gen.weird_text(max_size=8)).map(
    lambda s: no_entity(BAD.sub('', s)))
def values(): return contents().map(lambda s: re.sub(r'[\n\t\r]', ' ', s))
NAMES = ['a', 'b', 'c', 'doc', 'head', 'x1', 'long_name', 'x-y', 'u.v', '_p', 'Öl']
ATTRS = ['id', 'n', 'class', 'k1', 'data-x', 'a.b', '_q']


def docs(): return trees.trees(content=contents(), names=NAMES, anon=[':Text', ':Text', ':Whitespace'], attr_values=values(), attr_names=ATTRS)


def flow(l):
    """Expected XML-structure: (name, attrs, [text or element ...]) with neighbouring texts merged."""
    n, a, r = l
    out = []
    def add(x):
        if isinstance(x, str):
            if not x: return
            if out and isinstance(out[-1], str): out[-1] += x
            else: out.append(x)
        else: out.append(x)
    if isinstance(r, str): add(r)
    else:
        for c in r:
            if c[0][0] == ':' and not c[1]: add(trees.content(c))
            else: add(flow(c))
    return (n, dict(a), out)


def etflow(e):
    out = [e.text] if e.text else []
    for c in e:
        out.append(etflow(c))
        if c.tail: out.append(c.tail)
    return (e.tag, dict(e.attrib), out)


def strip_ws(f):
    n, a, out = f
    res = []
    for x in out:
        if isinstance(x, str):
            x = re.sub(r'\s+', '', x)
            if x: res.append(x)
        else: res.append(strip_ws(x))
    return (n, a, res)


def tree_of(f, droppable=True):
    """Tree literal that parse_xml() is expected to produce from an XML-structure"""
    n, a, out = f
    kids = []
    for x in out:
        if isinstance(x, str):
            if not (droppable and '\n' in x and not x.strip()): kids.append((':Text', (), x))
        else: kids.append(tree_of(x))
    if len(kids) == 1 and kids[0][0] == ':Text': return (n, tuple(a.items()), kids[0][2])
    return (n, tuple(a.items()), tuple(kids) or '')


def resolve(l):
    from xml.sax.saxutils import unescape
    u = lambda x: re.sub('&#x0d;', '\r', unescape(x, {'&quot;': '"', '&apos;': "'"}))
    return (l[0], tuple((k, u(v)) for k, v in l[1]), u(l[2]) if isinstance(l[2], str) else tuple(map(resolve, l[2])))


def unattributable(v): return '<' in v or ('"' in v and "'" in v) or '&' in v


@prop(lambda: st.tuples(docs(), st.sampled_from(['inline', 'preserve', 'format']), st.integers(0, 4), st.sampled_from(['fix', 'fail', 'ignore']),
                        st.sampled_from([None, None, ''])), quick=350, shards=8, rule=RULE)
def wellformed(case, ctx):
    from DHParser.nodetree import RootNode
    from DHParser.configuration import set_config_value
    l, mode, indent, handling, src = case
    set_config_value('xml_attribute_error_handling', handling)
    if mode == 'preserve': l = (l[0], l[1] + (('xml:space', 'preserve'),), l[2])
    t = trees.build(l)
    if src == '': t.with_pos(0)
    kw = {'indentation': indent, 'src': src}
    if mode == 'inline': kw['inline_tags'] = {l[0]}
    vals = [v for n in trees.walk(l) for _, v in n[1]]
    if handling == 'fail' and any(map(unattributable, vals)):
        check(raises(lambda: t.as_xml(**kw), ValueError), 'illegal attribute value accepted', vals)
        ctx.label('rejected'); return
    if handling == 'ignore' and any(map(unattributable, vals)): ctx.skip('ignoring errors')
    xml = t.as_xml(**kw)
    equal(trees.lit(t), trees.norm(l), 'serializing changed the tree')
    try: e = ET.fromstring(xml.replace('xml:space', 'xml_space'))
    except ET.ParseError as err: check(False, 'not well-formed', err, xml)
    got, want = etflow(e), flow(l)
    if 'xml:space' in want[1]: want[1]['xml_space'] = want[1].pop('xml:space')
    if src == '':
        def poss(f): return [int(f[1].pop('_pos'))] + [p for x in f[2] if not isinstance(x, str) for p in poss(x)]
        equal(list(poss(got)), [nd.pos for nd in t.walk_tree(include_root=True) if nd.name[0] != ':'], 'positions', xml)
    if mode == 'format': equal(strip_ws(got), strip_ws(want), 'formatted', xml)
    else: equal(got, want, mode, xml)
    ctx.label(mode); ctx.label(handling)
    s = trees.content(l)
    ctx.nontrivial(trees.size(l) > 2 and (bool(vals) or any(c in s for c in '<>&"') or any(n[0] == ':Text' for n in trees.walk(l))))


@prop(lambda: st.tuples(docs(), st.sampled_from(['inline', 'preserve']), st.integers(0, 4), st.sampled_from([None, ''])), quick=350, shards=8, rule=RULE,
      known={'entities': lambda case, e: 'entities are not resolved' in str(e)})
def roundtrip(case, ctx):
    from DHParser.nodetree import parse_xml, deserialize
    from DHParser.configuration import set_config_value
    l, mode, indent, src = case
    set_config_value('xml_attribute_error_handling', 'fix')
    if mode == 'preserve': l = (l[0], l[1] + (('xml:space', 'preserve'),), l[2])
    t = trees.build(l)
    if src == '': t.with_pos(0)
    kw = {'indentation': indent, 'src': src}
    if mode == 'inline': kw['inline_tags'] = {l[0]}
    xml = t.as_xml(**kw)
    empty = set()
    back = parse_xml(xml, out_empty_tags=empty)
    want = tree_of(flow(l))
    got = trees.lit(back)
    if got != trees.norm(want): equal(resolve(got), trees.norm(want), mode, xml)
    if src == '':
        equal([nd.pos for nd in back.walk_tree(include_root=True) if nd.name[0] != ':'],
              [nd.pos for nd in t.walk_tree(include_root=True) if nd.name[0] != ':'], 'positions', xml)
    # names that are always empty are rendered as empty tags
    names = {}
    for n in trees.walk(l): names.setdefault(n[0], []).append(not n[2])
    equal(empty, {n for n, e in names.items() if all(e) and n[0] != ':'}, 'empty tags', xml)
    check(got == trees.norm(want), 'entities are not resolved', xml)
    s = trees.content(l)
    ctx.label(mode); ctx.label('markup characters', any(c in s for c in '<>&'))
    ctx.nontrivial(trees.size(l) > 2 and (any(n[1] for n in trees.walk(l)) or any(n[0] == ':Text' for n in trees.walk(l))))


@st.composite
def xmltexts(draw):
    """XML-documents as text, written with all freedoms that XML allows"""
    l = draw(docs())
    def esc(t): return t.replace('&', '&amp;').replace('<', '&lt;').replace(']]>', ']]&gt;')
    ws = lambda: draw(st.sampled_from(['', '', '', ' ', '\n', '  ']))
    junk = draw(st.booleans())
    def element(n):
        name, at, res = n
        tag = '<' + name
        for k, v in at:
            v = esc(v)
            if '"' in v and "'" in v: v = v.replace('"', '&quot;')
            q = "'" if '"' in v else ('"' if "'" in v else draw(st.sampled_from('"\'')))
            tag += draw(st.sampled_from([' ', ' ', '\n', '  '])) + k + ws() + '=' + ws() + q + v + q
        tag += ws()
        inner = ''
        if isinstance(res, str): inner = esc(res)
        else:
            for c in res:
                inner += esc(trees.content(c)) if c[0][0] == ':' else element(c)
                if junk and draw(st.integers(0, 5)) == 0:
                    inner += draw(st.sampled_from(['<!-- c -->', '<!---->', '<?php x?>', '<!-- <b> " -->']))
        if not inner and draw(st.booleans()): return tag + '/>'
        return tag + '>' + inner + '</' + name + ws() + '>'
    head = draw(st.sampled_from(['', '', '<?xml version="1.0"?>', '<?xml version="1.0" encoding="UTF-8"?>\n', '<!DOCTYPE doc>\n', '\n ', '<?xml version="1.0"?>\n<!DOCTYPE x>\n']))
    if head == '\n ': return head + element(l), junk
    return head + element(l) + draw(st.sampled_from(['', '\n'])), junk


@prop(xmltexts, quick=350, shards=8, rule='XML-text with attributes, mixed content, comments or processing instructions')
def reading(case, ctx):
    """Any XML-text is read as what an independent parser reads."""
    from DHParser.nodetree import parse_xml
    xml, junk = case
    try: e = ET.fromstring(xml.strip())
    except ET.ParseError: ctx.skip('not XML')
    back = parse_xml(xml)
    got, want = flow(resolve(trees.lit(back))), etflow(e)
    if junk: equal(strip_ws(got), strip_ws(want), xml)
    else: equal(trees.norm(resolve(trees.lit(back))), trees.norm(tree_of(want)), xml)
    # reading is stable: writing and reading again changes nothing any more
    from DHParser.configuration import set_config_value
    set_config_value('xml_attribute_error_handling', 'fix')
    equal(strip_ws(flow(resolve(trees.lit(parse_xml(back.as_xml(inline_tags={back.name})))))), strip_ws(got), 'second pass', xml)
    ctx.nontrivial(xml.count('<') > 4 and ('=' in xml or '<!--' in xml))
    ctx.label('junk', junk); ctx.label('header', xml[:2] in ('<?', '<!'))
