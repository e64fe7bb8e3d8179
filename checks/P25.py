"""P25: markup of text ranges.  Oracle: intervals of characters; every character keeps its original ancestors.

Every named node of the original tree carries a unique attribute 'u', every markup-operation its own name m0, m1, ..., so
that the ancestors of each character can be compared before and after each operation."""
from hypothesis import strategies as st
from lib.pbt import prop, check, equal
from lib import trees
from lib.cmap import oracle, criteria, compare

RULE = 'at least two overlapping, non-empty ranges in a tree with at least three leaves'
NM = ['a', 'b', 'c']
TEXT = st.sampled_from(['', 'x', 'yz', 'abc', 'de', '1234', ' ', '  z', 'y ', 'a b ', '\n', '0\n'])
def docs(): return trees.trees(names=NM, anon=[':Text'], attr_names=[], content=TEXT, size=20, depth=4)
OPS = st.lists(st.tuples(st.integers(0, 60), st.integers(0, 60), st.integers(0, 5)), min_size=1, max_size=4)
DIV = st.one_of(st.none(), st.lists(st.sampled_from(NM + ['m0', 'm1', 'm2']), unique=True).map(tuple))
# (markup can split leaves into anonymous parts, so selections by the names of leaves would change with the markup)
NAMES = st.lists(st.sampled_from(NM), min_size=1, max_size=2, unique=True).map(tuple)
SELECT = st.one_of(st.none(), st.none(), st.none(), st.tuples(st.just('paths'), NAMES))
IGNORE = st.one_of(st.none(), st.none(), st.tuples(st.just('names'), NAMES))


def number(t):
    for i, n in enumerate(t.walk_tree(include_root=True)):
        if n.name[0] != ':': n.attr['u'] = str(i)


def chars(t):
    """[(character, id-list of original ancestors, set of markups)] in document order and the number of nodes per 'u'."""
    out = []

    def walk(node, us, ms):
        if node.has_attr('u'): us = us + (node.attr['u'] + node.name,)
        elif node.name[0] == 'm': ms = ms + (node.name,)
        if node.children:
            for c in node.children: walk(c, us, ms)
        else: out.extend((ch, us, ms) for ch in node.content)
    walk(t, (), ())
    return out


def count(t):
    d = {}
    for n in t.walk_tree(include_root=True):
        k = n.attr['u'] + n.name if n.has_attr('u') else n.name if n.name[0] == 'm' else ''
        if k: d[k] = d.get(k, 0) + 1
    return d


def selected(t, select, ignore):
    """Indices of the characters of the tree that belong to the selected part."""
    ids = {id(p[-1]) for p in oracle(t, select, ignore)}
    out, k = [], 0
    for n in t.walk_tree(include_root=True):
        if not n.children:
            if id(n) in ids: out.extend(range(k, k + len(n.content)))
            k += len(n.content)
    return out


@prop(lambda: st.tuples(docs(), OPS, DIV, st.booleans(), st.booleans(), st.booleans(), SELECT, IGNORE), quick=2500, shards=8, rule=RULE)
def markups(case, ctx):
    from DHParser import nodetree as N
    l, ops, div, greedy, chain, pos, select, ignore = case
    t = trees.build(l)
    number(t)
    if pos: t.with_pos(0)
    sel, ign = criteria(select, ignore)
    divisible = N.DIVISIBLES if div is None else {'*': set(div) | set(N.DIVISIBLES)}
    cm = N.ContentMapping(t, sel, ign, greedy=greedy, divisibility=divisible, chain_attr_name='chain' if chain else '')
    if not cm.content: ctx.skip('empty mapping')
    before, text, sub = chars(t), t.content, cm.content
    model = [set() for _ in before]
    attr = {'k': 'v'}
    ranges = []
    for n, (a, b, rep) in enumerate(ops):
        name = f'm{n}'
        a %= len(sub) + 1; b %= len(sub) + 1
        a, b = min(a, b), max(a, b)
        where = selected(t, select, ignore)
        cnt = count(t)
        show = trees.show(trees.lit(t))
        try: loc = cm.markup(a, b, name, attr if rep < 3 else dict(attr))
        except ValueError as e:
            # a milestone cannot be placed inside of an indivisible leaf
            check(a == b and 'not divisible' in str(e), 'refused', e, show, a, b)
            i, p, off = cm.get_location(a)
            check(0 < off < len(p[-1].content) and p[-1].name not in (div or ()) and p[-1].name[0] != ':', 'milestone refused without reason', e, show, a)
            equal(trees.show(trees.lit(t)), show, 'tree changed by refused operation')
            ctx.label('refused'); continue
        ranges.append((a, b))
        msg = (show, 'markup', name, a, b)
        equal(t.content, text, 'content changed', *msg)
        equal(attr, {'k': 'v'}, 'attribute-dictionary of the caller changed', *msg)
        for i in where[a:b]: model[i].add(name)
        after = chars(t)
        sels = set(where)
        for i, ((ch, us, _), (ch2, us2, ms2)) in enumerate(zip(before, after)):
            equal(us2, us, 'ancestors of character', i, repr(ch), *msg)
            # (text that has not been selected may be covered if it lies between selected characters, or if markup is greedy)
            if i in sels or a == b or not (greedy or where[a] < i < where[b - 1]):
                equal(name in ms2, name in model[i], 'markup of character', i, repr(ch), *msg)
            check(len(set(ms2)) == len(ms2), 'nested markup of the same name', ms2, *msg)
            check(set(ms2) >= model[i], 'earlier markup lost', i, *msg)
        parts = [p for p in t.walk_tree(include_root=True) if p.name == name]
        if a == b:
            check(len(parts) == 1 and not parts[0].content, 'milestone', *msg)
            mp = [p for p in t.select_path(name, include_root=True)]
            check(len(mp) == 1)
        else:
            check(parts, 'no markup added', *msg)
            for p in parts:
                check(p.result, 'empty markup added', trees.show(trees.lit(t)), *msg); equal(p.attr['k'], 'v', 'attributes of the markup', *msg)
            if chain:
                ids = {p.get_attr('chain', None) for p in parts}
                equal(len(ids), 1, 'parts of one markup with different chain-ids', *msg)
                if len(parts) > 1: check(None not in ids, 'chain-id missing', *msg)
        check(N.tree_sanity_check(t), 'tree is not sane', *msg)
        now = count(t)
        for k, c in cnt.items():
            nm = k.lstrip('0123456789')
            check(now.get(k, 0) >= 1, 'node lost', k, *msg)
            if nm not in (div or ()): equal(now[k], c, 'indivisible node has been split', k, *msg)
        # the mapping reflects the changed tree
        compare(cm, oracle(t, select, ignore), 'mapping after markup')
        if pos: check(all(n.pos >= 0 for n in t.walk_tree(include_root=True)), 'position missing', *msg)
        anc = loc.node
        check(any(x is anc for x in t.walk_tree(include_root=True)), 'returned node is not part of the tree', *msg)
        for p in parts: check(any(x is p for x in anc.walk_tree(include_root=False)), 'markup not within the returned node', *msg)
    ov = any(max(a, c) < min(b, d) for i, (a, b) in enumerate(ranges) for c, d in ranges[i + 1:])
    ctx.nontrivial(ov and len(trees.leaves(l)) > 2)
    ctx.label('greedy', greedy); ctx.label('ignored text', len(sub) < len(text)); ctx.label('split', any(c > 1 for c in count(t).values()))


@prop(lambda: st.tuples(st.integers(3, 5), st.integers(1, 30000)), quick=6, thorough=40, shards=2, rule='more than 1000 ids')
def chain_ids(case, ctx):
    from DHParser import nodetree as N
    length, n = case
    N.reset_chain_ID(length)
    seen = [N.gen_chain_ID() for _ in range(n)]
    N.reset_chain_ID()
    equal(len(set(seen)), n, 'ids of chains are not unique')
    check(all(len(s) >= length and s.isalpha() and s.isupper() for s in seen))
    ctx.nontrivial(n > 1000)
