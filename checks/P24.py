"""P24: content mappings.  Oracle: explicit enumeration of the selected leaves of the tree and of their characters."""
from hypothesis import strategies as st
from lib.pbt import prop, check, equal, raises
from lib import trees
from lib.cmap import oracle, criteria, compare, ids

RULE = 'mapping with at least three leaves'
NM = ['a', 'b', 'c', 'd']
def docs(**kw): return trees.trees(names=NM, anon=[':Text'], attr_names=[], content=st.sampled_from(['', 'x', 'yz', 'abc', ' ', 'b']), **{'size': 25, 'depth': 4, **kw})
NAMES = st.lists(st.sampled_from(NM + [':Text']), min_size=1, max_size=3, unique=True).map(tuple)
SELECT = st.one_of(st.none(), st.none(), st.tuples(st.just('paths'), NAMES), st.tuples(st.just('leaves'), NAMES))
IGNORE = st.one_of(st.none(), st.tuples(st.just('names'), NAMES))


@prop(lambda: st.tuples(docs(), SELECT, IGNORE, st.integers(0, 40)), quick=900, shards=8, rule=RULE)
def positions(case, ctx):
    from DHParser import nodetree as N
    l, select, ignore, k = case
    t = trees.build(l)
    sel, ign = criteria(select, ignore)
    paths = oracle(t, select, ignore)
    cm = N.ContentMapping(t, sel, ign)
    compare(cm, paths)
    equal(N.strlen_of(t, sel, ign), len(cm.content), 'strlen_of'); equal(N.strlen_of(tuple(t.children or ()), sel, ign), len(cm.content) if t.children and (select is None or select[0] == 'leaves') and not (ignore and t.name in ignore[1]) else N.strlen_of(tuple(t.children or ()), sel, ign))
    if not paths: ctx.skip('empty mapping')
    # every position, in both directions
    spans = [(cm.pos_list[i], cm.pos_list[i] + len(p[-1].content)) for i, p in enumerate(paths)]
    for pos in range(len(cm.content) + 1):
        right = max(i for i, (a, b) in enumerate(spans) if a <= pos)
        left = min(i for i, (a, b) in enumerate(spans) if pos <= b)
        for bias, want in ((False, right), (True, left)):
            equal(cm.get_path_index(pos, bias), want, 'get_path_index', pos, bias, spans)
            i, p, off = cm.get_location(pos, bias)
            check(i == want and ids(p) == ids(paths[want]) and off == pos - spans[want][0], 'get_location', pos, bias, i, off)
            p, off = cm.get_path_and_offset(pos, bias)
            check(ids(p) == ids(paths[want]) and off == pos - spans[want][0])
        if pos < len(cm.content):
            i, p, off = cm.get_location(pos)
            equal(p[-1].content[off:off + 1], cm.content[pos], 'character', pos)
    check(raises(lambda: cm.get_path_index(-1), IndexError), 'negative position accepted')
    a, b = sorted((k % (len(cm.content) + 1), (k * 7) % (len(cm.content) + 1)))
    for bias in (False, True):
        ia, ib = cm.get_path_index(a, bias), cm.get_path_index(b, bias)
        equal([ids(p) for p in cm.iterate_paths(a, b, bias)], [ids(p) for p in paths[ia:ib + 1]], 'iterate_paths')
        equal([ids(p) for p in cm.iterate_paths(b, a, bias)], [ids(p) for p in paths[ia:ib + 1][::-1]], 'iterate_paths backwards')
    for i, p in enumerate(paths):
        equal(list(cm.node_names(i)), [n.name for n in p]); check(cm.path(i) is cm.path_list[i] and cm.pos(i) == spans[i][0]); equal(cm.path_str(i), N.path_str(p))
    for n in t.walk_tree(include_root=True):
        hits = [i for i, p in enumerate(paths) if n in p]
        equal(cm.get_node_index(n), hits[0] if hits else -1, 'get_node_index', n.name); equal(cm.get_node_index(n, True), hits[-1] if hits else -1, 'get_node_index reverse')
        equal(cm.get_node_position(n), spans[hits[0]][0] if hits else -1, 'get_node_position'); equal(cm.get_node_position(n, True), spans[hits[-1]][1] if hits else -1, 'get_node_position reverse')
    check(cm.get_node_index(None) == -1 and cm.get_node_index(N.Node('a', '')) == -1)
    ctx.nontrivial(len(paths) > 2); ctx.label('ignored leaves', len(paths) < len(oracle(t, None, None))); ctx.label('empty leaves', any(a == b for a, b in spans))


@prop(lambda: st.tuples(docs(), SELECT, IGNORE, NAMES, st.integers(0, 20)), quick=500, shards=4, rule=RULE)
def nodes(case, ctx):
    """The innermost matching node of every path is found, and only once, together with the first path that contains it."""
    from DHParser import nodetree as N
    l, select, ignore, names, start = case
    t = trees.build(l)
    paths = oracle(t, select, ignore)
    cm = N.ContentMapping(t, *criteria(select, ignore))
    if not paths: ctx.skip('empty mapping')

    def expected(indices):
        last = None
        for i in indices:
            if last is not None and any(n is last for n in paths[i]): continue
            last = next((n for n in reversed(paths[i]) if n.name in names), None)
            if last is not None: yield (id(last), i)
    L = len(paths); s = start % L
    for kw, rng in (({}, range(L)), ({'reverse': True}, range(L - 1, -1, -1)), ({'start_from': s}, range(s, L)), ({'start_from': s, 'reverse': True}, range(s, -1, -1))):
        want = list(expected(rng))
        equal([(id(n), i) for n, i in cm.select(set(names), **kw)], want, 'select', names, kw)
        n, i = cm.pick(set(names), **kw)
        equal((id(n) if n is not None else None, i), want[0] if want else (None, -1), 'pick')
    ctx.nontrivial(L > 2)


EDIT = st.tuples(st.integers(0, 20), st.sampled_from(['text', 'branch', 'before', 'after', 'wrap', 'shorten']), st.sampled_from(['', 'X', 'YYYY']))


@prop(lambda: st.tuples(docs(), SELECT, IGNORE, st.integers(0, 40), st.integers(0, 40), st.lists(EDIT, min_size=1, max_size=3)), quick=700, shards=8, rule=RULE)
def rebuilding(case, ctx):
    """After changes between two positions of the tree, rebuilding that section yields the mapping of the changed tree."""
    from DHParser import nodetree as N
    l, select, ignore, x, y, edits = case
    t = trees.build(l)
    sel, ign = criteria(select, ignore)
    cm = N.ContentMapping(t, sel, ign)
    if not cm.path_list: ctx.skip('empty mapping')
    a, b = sorted((x % len(cm.path_list), y % len(cm.path_list)))
    pa, pb = cm.path_list[a], cm.path_list[b]
    ca, i = N.find_common_ancestor(pa, pb)
    before = cm.content
    for k, kind, text in edits:
        lps = [p for p in ca.select_path(N.LEAF_PATH, include_root=True)]
        p = lps[k % len(lps)]
        leaf = p[-1]
        if kind == 'text': leaf.result = text
        elif kind == 'shorten': leaf.result = leaf.content[:-1]
        elif kind == 'branch': leaf.result = (N.Node('a', leaf.content), N.Node(':Text', text))
        elif kind == 'wrap': leaf.result = (N.Node('b', leaf.content),)
        elif len(p) > 1:
            j = p[-2].index(leaf)
            p[-2].insert(j + (kind == 'after'), N.Node('c', text))
    fresh = oracle(t, select, ignore)
    inside = [p for p in fresh if any(n is ca for n in p)]
    if not inside: ctx.skip('nothing left in the changed section')
    cm.rebuild_mapping_slice(a, b)
    compare(cm, fresh, 'rebuilt')
    ctx.nontrivial(len(fresh) > 2); ctx.label('changed text', cm.content != before)
