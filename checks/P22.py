"""P22: navigation along paths.  Oracle: the list of leaf-paths in document order, obtained by explicit recursion."""
from hypothesis import strategies as st
from lib.pbt import prop, check, equal, raises
from lib import trees


RULE = 'tree with at least three leaves on different levels'
def docs(**kw): return trees.trees(names=['a', 'b', 'c', 'd'], anon=[':Text'], content=st.sampled_from(['', 'x', 'yz', 'abc', ' ']), attr_names=[], size=30, depth=5, **kw)


def order(node, path=()):
    path = path + (node,)
    yield path
    for c in node.children: yield from order(c, path)


def ids(p): return None if p is None else [id(n) for n in p]


@prop(lambda: st.tuples(docs(), st.integers(0, 40), st.sampled_from([(), ('a',), ('a', ':Text'), ('b', 'c')])), quick=600, shards=8, rule=RULE)
def leaves(case, ctx):
    from DHParser import nodetree as N
    l, k, skip = case
    t = trees.build(l)
    paths = [list(p) for p in order(t)]
    lps = [p for p in paths if not p[-1].children]
    for i, p in enumerate(lps):
        equal(ids(N.next_leaf_path(p)), ids(lps[i + 1]) if i + 1 < len(lps) else None, 'next_leaf_path', trees.show(l), i)
        equal(ids(N.prev_leaf_path(p)), ids(lps[i - 1]) if i else None, 'prev_leaf_path', trees.show(l), i)
        nxt = [q for q in lps[i + 1:] if q[-1].name not in skip]; prv = [q for q in lps[:i] if q[-1].name not in skip]
        check(N.get_next_leaf(p, None, skip=set(skip)) is (nxt[0][-1] if nxt else None), 'get_next_leaf')
        check(N.get_prev_leaf(p, None, skip=set(skip)) is (prv[-1][-1] if prv else None), 'get_prev_leaf')
    equal([ids(p) for p in N.leaf_paths(lambda path: True)(t)] if False else [ids(p) for p in lps], [ids(p) for p in t.select_path(N.LEAF_PATH, include_root=True)])
    p = paths[k % len(paths)]
    sub = [q for q in lps if q[:len(p)] == p]
    for step in (-1, 0, 1, 2, 9):
        first, last = list(p), list(p)
        n = step
        while first[-1].children and n != 0: first.append(first[-1].children[0]); n -= 1
        n = step
        while last[-1].children and n != 0: last.append(last[-1].children[-1]); n -= 1
        equal(ids(N.zoom_into_path(p, N.FIRST_CHILD, step)), ids(first), 'zoom first', step)
        equal(ids(N.zoom_into_path(p, N.LAST_CHILD, step)), ids(last), 'zoom last', step)
    equal(ids(N.leaf_path(p, N.FIRST_CHILD)), ids(sub[0])); equal(ids(N.leaf_path(p, N.LAST_CHILD)), ids(sub[-1]))
    # siblings or siblings of the nearest ancestor that has any
    nxt = prv = None
    for i in range(len(p) - 1, 0, -1):
        sibs = p[i - 1].children; j = [id(x) for x in sibs].index(id(p[i]))
        if nxt is None and j + 1 < len(sibs): nxt = p[:i] + [sibs[j + 1]]
        if prv is None and j > 0: prv = p[:i] + [sibs[j - 1]]
    equal(ids(N.next_path(p)), ids(nxt), 'next_path', trees.show(l)); equal(ids(N.prev_path(p)), ids(prv), 'prev_path', trees.show(l))
    equal(ids(p), ids(paths[k % len(paths)]), 'path changed')
    check(N.next_path(None) is None and N.prev_path(None) is None and N.next_leaf_path(None) is None)
    # text before and behind a node
    pre = ''.join(q[-1].content for q in lps if lps.index(q) < lps.index(sub[0])); post = ''.join(q[-1].content for q in lps[lps.index(sub[-1]) + 1:])
    equal(N.foregoing_str(p), pre, 'foregoing_str'); equal(N.ensuing_str(p), post, 'ensuing_str')
    for n in (0, 1, 2, 5, 100):
        equal(N.foregoing_str(p, n), pre[max(0, len(pre) - n):], 'foregoing_str', n); equal(N.ensuing_str(p, n), post[:n], 'ensuing_str', n)
    ctx.nontrivial(len(lps) >= 3 and len({len(q) for q in lps}) > 1)


@prop(lambda: st.tuples(docs(), st.integers(0, 40), st.integers(0, 40)), quick=400, shards=8, rule='two different nodes in a tree')
def ancestors(case, ctx):
    from DHParser import nodetree as N
    l, i, k = case
    t = trees.build(l).with_pos(0)
    paths = [list(p) for p in order(t)]
    a, b = paths[i % len(paths)], paths[k % len(paths)]
    n = 0
    while n < min(len(a), len(b)) and a[n] is b[n]: n += 1
    ca, ix = N.find_common_ancestor(a, b)
    check(ca is a[n - 1] and ix == n - 1, 'find_common_ancestor', ca, ix, a[n - 1].name, n - 1)
    check(N.find_common_ancestor(a, list(next(iter(order(trees.build(l))))))[0] is None, 'common ancestor in different trees')
    check(N.path_sanity_check(a)); check(len(a) < 3 or not N.path_sanity_check([a[0]] + a[2:]), 'path with a gap accepted')
    equal(ids(t.reconstruct_path(a[-1])), ids(a), 'reconstruct_path')
    equal(list(N.node_names(a)), [x.name for x in a])
    equal(N.path_str(a), '/' + '/'.join(x.name for x in a) + ('/' if a[-1].children else ''), 'path_str')
    equal(N.pp_path(a), ' <- '.join(x.name for x in a)); equal(N.pp_path(a, -1), ' <- '.join(f'{x.name} "{x.content}"' for x in a), 'pp_path')
    equal(N.pp_path(a, 1, '/'), '/'.join([x.name for x in a[:-1]] + [f'{a[-1].name} "{a[-1].content}"']), 'pp_path')
    ps = N.path_str(a)
    check(N.match_path_str(ps, ps) and N.match_path_str(ps, '*') and N.match_path_str(ps, a[-1].name + ('/' if a[-1].children else '')), 'match_path_str', ps)
    # segments from one leaf to another
    lps = [p for p in paths if not p[-1].children]
    p, q = lps[i % len(lps)], lps[k % len(lps)]
    pi, qi = i % len(lps), k % len(lps)
    if pi <= qi:
        seg = t.milestone_segment(p, q)
        equal(seg.content, ''.join(x[-1].content for x in lps[pi:qi + 1]), 'milestone_segment', trees.show(l), pi, qi)
        equal([x.content for x in seg.select_if(lambda n: not n.children, include_root=True)], [x[-1].content for x in lps[pi:qi + 1]], 'leaves of milestone_segment')
    equal(trees.lit(t), trees.norm(l), 'tree changed')
    ctx.nontrivial(a != b); ctx.label('depth', 0)


@prop(lambda: st.tuples(docs(), st.integers(0, 40)), quick=200, shards=4, rule='dropping a leaf from a tree with at least three leaves')
def dropping(case, ctx):
    from DHParser import nodetree as N
    l, k = case
    t = trees.build(l)
    paths = [list(p) for p in order(t)]
    lps = [p for p in paths if not p[-1].children]
    p = lps[k % len(lps)]
    rest = [id(q[-1]) for q in lps if q is not p]
    N.drop_leaf(p)
    now = [q for q in order(t) if not q[-1].children]
    if rest: equal([id(q[-1]) for q in now], rest, 'remaining leaves', trees.show(l), k)
    else: check(t.content == '' and not t.children)
    check(not any(id(n) == id(p[-1]) for q in order(t) for n in q) or len(lps) == 1, 'leaf still there')
    ctx.nontrivial(len(lps) > 2)


@prop(lambda: st.tuples(docs(), st.integers(0, 40), st.sampled_from([(), ('a',), ('a', ':Text'), ('b', 'c', 'd'), ('a', 'b', 'c', 'd', ':Text')])), quick=500, shards=8, rule='node with siblings on both sides')
def siblings(case, ctx):
    """Siblings before and behind a node; selections from, beginning and ending of a path.  Look-alike siblings are frequent."""
    from DHParser import nodetree as N
    l, k, crit = case
    t = trees.build(l)
    paths = [list(p) for p in order(t)]
    p = paths[k % len(paths)]
    names = set(crit)
    ok = (lambda nd: nd.name in names) if crit else (lambda nd: True)
    c = names if crit else N.ANY_NODE
    if len(p) == 1:
        raises(ValueError, lambda: list(N.pred_siblings(p))); raises(ValueError, lambda: list(N.succ_siblings(p)))
    else:
        sibs = list(p[-2].children); i = [id(x) for x in sibs].index(id(p[-1]))
        pre, post = [x for x in sibs[:i] if ok(x)], [x for x in sibs[i + 1:] if ok(x)]
        equal(ids(N.pred_siblings(p, c)), ids(pre), 'pred_siblings', trees.show(l), k, crit)
        equal(ids(N.pred_siblings(p, c, reverse=True)), ids(pre[::-1]), 'pred_siblings reverse', trees.show(l), k, crit)
        equal(ids(N.succ_siblings(p, c)), ids(post), 'succ_siblings', trees.show(l), k, crit)
        equal(ids(N.succ_siblings(p, c, reverse=True)), ids(post[::-1]), 'succ_siblings reverse', trees.show(l), k, crit)
        check(N.get_prev_sibling(p, None) is (sibs[i - 1] if i else None), 'get_prev_sibling')
        check(N.get_next_sibling(p, None) is (sibs[i + 1] if i + 1 < len(sibs) else None), 'get_next_sibling')
        pre, post = [x for x in sibs[:i] if x.name not in names], [x for x in sibs[i + 1:] if x.name not in names]
        check(N.get_prev_sibling(p, None, skip=names) is (pre[-1] if pre else None), 'get_prev_sibling skip', crit)
        check(N.get_next_sibling(p, None, skip=names) is (post[0] if post else None), 'get_next_sibling skip', crit)
        check(N.get_prev_sibling([t, t.children[0]], None) is None)
        ctx.nontrivial(0 < i < len(sibs) - 1)
        ctx.label('look-alike before', int(any(trees.lit(x) == trees.lit(p[-1]) for x in sibs[:i])))
    hits = [x for x in p if ok(x)]
    equal(ids(N.select_from_path(p, c)), ids(hits), 'select_from_path'); equal(ids(N.select_from_path_if(p, ok)), ids(hits))
    equal(ids(N.select_from_path(p, c, reverse=True)), ids(hits[::-1]), 'select_from_path reverse')
    check(N.pick_from_path(p, c) is (hits[0] if hits else None), 'pick_from_path'); check(N.pick_from_path_if(p, ok) is (hits[0] if hits else None))
    check(N.pick_from_path(p, c, reverse=True) is (hits[-1] if hits else None), 'pick_from_path reverse')
    ix = [i for i, x in enumerate(p) if ok(x)]
    equal(ids(N.path_head(p, c)), ids(p[:ix[0] + 1] if ix else []), 'path_head'); equal(ids(N.path_head(p, c, greedy=True)), ids(p[:ix[-1] + 1] if ix else []), 'path_head greedy')
    equal(ids(N.path_tail(p, c)), ids(p[ix[-1]:] if ix else []), 'path_tail'); equal(ids(N.path_tail(p, c, greedy=True)), ids(p[ix[0]:] if ix else []), 'path_tail greedy')
    equal(ids(N.path_head_if(p, ok)), ids(p[:ix[0] + 1] if ix else [])); equal(ids(N.path_tail_if(p, ok)), ids(p[ix[-1]:] if ix else []))
