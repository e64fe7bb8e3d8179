"""P18: S-expression round trip."""
import re
from hypothesis import strategies as st
from lib.pbt import prop, check, equal
from lib import trees, gen, srcdict

RULE = 'tree with at least two nodes and content or attribute values containing whitespace, quotes, brackets or special characters'
ASSUMPTIONS = ['control characters (apart from tab and line-feed) are not part of the domain: as_sxpr() replaces them by a visible code',
               'attribute err is reserved for errors, attribute pos (in SXML only) for positions']

CTRL = re.compile(r'[\x00-\x08\x0B-\x1F]')
PIECES = ['a', 'b', ' ', '  ', '\n', '\t', '(', ')', '"', "'", '\\', '`', '`(', '(a', ') ', ' )', '") ', '("', '\n\n', ';', '@', '(@', ':', 'ä',
          '\u2028', '\u00a0', '""', "''", '\x85']
def contents(): return st.one_of(trees.PLAIN, st.lists(st.sampled_from(PIECES), max_size=6).map(''.join), gen.weird_text(max_size=8).map(lambda s: CTRL.sub('', s)),
                      st.just('word ' * 30))
VALUES = st.one_of(trees.PLAIN, st.lists(st.sampled_from([p for p in PIECES]), max_size=5).map(''.join))
ATTR_NAMES = trees.ATTRS + ['pos', 'position', 'error', 'xml:id', 'data-x', 'a.b']


def forms():
    return st.fixed_dictionaries({}, optional={'indentation': st.integers(0, 4), 'compact': st.booleans(),
                                               'flatten_threshold': st.sampled_from([-1, 0, 1, 20, 92, 92, 10**6, 2**30]),
                                               'sxml': st.integers(0, 2)})


def odd(l):
    return any(re.search(r'[\s()"\'`\\]', x) for n in trees.walk(l) for x in [v for _, v in n[1]] + ([n[2]] if isinstance(n[2], str) else []))


def unquotable(s):
    """no quotation mark known to parse_sxpr() can enclose this string (known finding)"""
    return '"' in s and "'" in s and ('"""' in s or s[-1:] == '"') and ("'''" in s or s[-1:] == "'")


def has_unquotable(case, error):
    return any(unquotable(line) for n in trees.walk(case[0]) for x in [v for _, v in n[1]] + ([n[2]] if isinstance(n[2], str) else [])
               for line in [x] + x.split('\n'))


@prop(lambda: st.tuples(trees.trees(content=contents(), attr_values=VALUES, attr_names=ATTR_NAMES), forms()), quick=500, shards=8, rule=RULE,
      known={'quotes': has_unquotable})
def roundtrip(case, ctx):
    from DHParser.nodetree import parse_sxpr, RootNode
    l, form = case
    if form.get('sxml') and any(k == 'pos' for n in trees.walk(l) for k, v in n[1]): ctx.skip('attribute pos is reserved in SXML')
    t = trees.build(l)
    s = t.as_sxpr(**form)
    equal(trees.lit(t), trees.norm(l), 'serializing changed the tree')
    back = parse_sxpr(s)
    equal(trees.lit(back), trees.norm(l), 'form', form, '\n' + s)
    ctx.nontrivial(trees.size(l) > 1 and odd(l))
    ctx.label('sxml', form.get('sxml', 0)); ctx.label('flat', '\n' not in s); ctx.label('attrs', any(n[1] for n in trees.walk(l)))


@prop(lambda: st.tuples(trees.trees(content=contents(), attr_values=VALUES), st.integers(0, 3)), quick=250, shards=8,
      rule='tree with positions and at least three nodes', known={'quotes': has_unquotable})
def positions(case, ctx):
    """Positions are part of the serialization if the source-parameter is given; the text form never changes the tree."""
    from DHParser.nodetree import parse_sxpr, parse_sxml, deserialize, flatten_sxpr, RootNode
    l, how = case
    t = trees.build(l).with_pos(0)
    if how == 0: s, back = None, deserialize(t.serialize('S-expression')); s = t.serialize('S-expression')
    elif how == 1: s = t.as_sxpr(src=''); back = parse_sxpr(s)
    elif how == 2: s = t.as_sxpr(src=t.content); back = parse_sxpr(s)
    else: s = t.as_sxml(src=''); back = parse_sxml(s)
    equal(trees.lit(back), trees.norm(l), 'how', how, '\n' + s)
    if how and (t.content or how != 2):
        equal([nd.pos for nd in back.walk_tree(include_root=True)] if back._pos >= 0 else None,
              [nd.pos for nd in t.walk_tree(include_root=True)], 'positions', how, s)
    flat = flatten_sxpr(s)
    equal(trees.lit(parse_sxpr(flat)), trees.norm(l), 'flattened', flat)
    equal(flatten_sxpr(flat), flat, 'flattening is not idempotent')
    ctx.nontrivial(trees.size(l) > 2); ctx.label(how)


@prop(lambda: trees.trees(content=contents(), attr_values=VALUES, attr_names=ATTR_NAMES[:6]), quick=150, shards=4, rule='tree with more than two nodes',
      known={'quotes': lambda c, e: has_unquotable((c,), e)})
def stable(l, ctx):
    """The serialization of what has been read back is the same text, and equal() agrees with the serialization."""
    from DHParser.nodetree import parse_sxpr
    t = trees.build(l)
    for kw in ({}, {'flatten_threshold': 0}, {'flatten_threshold': -1}, {'compact': False}):
        s = t.as_sxpr(**kw)
        back = parse_sxpr(s)
        equal(back.as_sxpr(**kw), s)
        check(back.equals(t) and t.equals(back), 'not equal', s)
    if l[1] == () and not any(n[1] for n in trees.walk(l)) and '\n' not in trees.content(l):
        check('\n' not in t.as_sxpr(flatten_threshold=-1), 'flattened S-expression has more than one line')
    ctx.nontrivial(trees.size(l) > 2)
