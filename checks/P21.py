"""P21: selection and traversal.  Oracle: an explicit recursion over the children-tuples, nodes compared by identity."""
import re
from hypothesis import strategies as st
from lib.pbt import prop, check, equal, raises
from lib import trees

RULE = 'tree with at least four nodes and a criterion that matches some but not all nodes'
NAMES = ['a', 'b', 'c', 'd']
def docs(**kw): return trees.trees(names=NAMES, anon=[':Text'], content=st.sampled_from(['', 'x', 'y', 'xy', ' ', '1']), attr_names=['n'], attr_values=st.sampled_from('12'),
                                   size=30, depth=5, **kw)


def criteria(short=False):
    k = st.integers(0, 40)
    return st.one_of(st.tuples(st.just('name'), st.sampled_from(NAMES + [':Text', 'z'])),
                     st.tuples(st.just('names'), st.lists(st.sampled_from(NAMES + [':Text']), max_size=3).map(tuple)),
                     st.tuples(st.just('rx'), st.sampled_from([r'x*', r'[xy]+', r'\\d', r'', 'x'])),
                     st.tuples(st.sampled_from(['node', 'id', 'frozen']), k),
                     st.sampled_from([('any', 0), ('none', 0), ('leaf', 0), ('branch', 0), ('void', 0), ('fn', 'x')]))


def criterion(c, nodes):
    """returns (criterion, predicate on nodes)"""
    from DHParser.nodetree import FrozenNode, ANY_NODE, NO_NODE, LEAF_NODE, BRANCH_NODE, VOID_NODE
    kind, x = c
    if kind == 'name': return x, lambda n: n.name == x
    if kind == 'names': return (set(x) if len(x) % 2 else x), lambda n: n.name in x
    if kind == 'rx': return re.compile(x), lambda n: re.fullmatch(x, n.content) is not None
    if kind == 'node': nd = nodes[x % len(nodes)]; return nd, lambda n: n is nd
    if kind == 'id': nd = nodes[x % len(nodes)]; return id(nd), lambda n: n is nd
    if kind == 'frozen':
        nd = nodes[x % len(nodes)]
        return FrozenNode(nd.name, nd.content), lambda n: n.name == nd.name and not n.children and n.content == nd.content and not dict(n.attr if n.has_attr() else {})
    if kind == 'any': return ANY_NODE, lambda n: True
    if kind == 'none': return NO_NODE, lambda n: False
    if kind == 'leaf': return LEAF_NODE, lambda n: not n.children
    if kind == 'branch': return BRANCH_NODE, lambda n: bool(n.children)
    if kind == 'void': return VOID_NODE, lambda n: not n.result
    return (lambda n: 'x' in n.content), (lambda n: 'x' in n.content)


def order(node, reverse=False, skip=lambda n: False, path=()):
    """all (node, path) pre-order; `skip`: do not descend"""
    path = path + (node,)
    yield path
    if not skip(node):
        for c in (reversed(node.children) if reverse else node.children): yield from order(c, reverse, skip, path)


def same(got, want, *msg):
    got, want = list(got), list(want)
    equal([(n.name, n.content, id(n)) for n in got], [(n.name, n.content, id(n)) for n in want], *msg)


def same_paths(got, want, *msg):
    equal([tuple((n.name, id(n)) for n in p) for p in got], [tuple((n.name, id(n)) for n in p) for p in want], *msg)


def pcrit(c, pred):
    """path-criterion for a node-criterion"""
    return (lambda p: pred(p[-1])) if callable(c) and not isinstance(c, type) and not hasattr(c, 'name') else c


@prop(lambda: st.tuples(docs(), criteria(), st.one_of(st.just(('none', 0)), criteria()), st.booleans(), st.booleans()), quick=450, shards=8, rule=RULE)
def select(case, ctx):
    l, c, sk, root, reverse = case
    t = trees.build(l)
    nodes = [p[-1] for p in order(t)]
    crit, pred = criterion(c, nodes)
    skip, spred = criterion(sk, nodes)
    paths = [p for p in order(t, reverse, spred) if pred(p[-1]) and (root or len(p) > 1)]
    if not root and spred(t):  # the root cannot be skipped if it is not part of the selection
        paths = [p for p in order(t, reverse, lambda n: n is not t and spred(n)) if pred(p[-1]) and len(p) > 1]
    want = [p[-1] for p in paths]
    same(t.select(crit, root, reverse, skip), want, 'select', trees.show(l), c, sk)
    same(t.select_if(pred, root, reverse, spred), want, 'select_if')
    x = t.pick(crit, root, reverse, skip); check(x is (want[0] if want else None), 'pick', x, want[:1])
    x = t.pick_if(pred, root, reverse, spred); check(x is (want[0] if want else None), 'pick_if', x, want[:1])
    pc, ps = pcrit(crit, pred), pcrit(skip, spred)
    same_paths(t.select_path(pc, root, reverse, ps), paths, 'select_path', trees.show(l), c, sk)
    same_paths(t.select_path_if(lambda p: pred(p[-1]), root, reverse, lambda p: spred(p[-1])), paths, 'select_path_if')
    got = t.pick_path(pc, root, reverse, ps); same_paths([got], [paths[0] if paths else []], 'pick_path')
    got = t.pick_path_if(lambda p: pred(p[-1]), root, reverse, lambda p: spred(p[-1]))
    check((got is None) if not paths else [id(n) for n in got] == [id(n) for n in paths[0]], 'pick_path_if')
    every = [p for p in order(t, reverse) if root or len(p) > 1]
    same(t.walk_tree(root, reverse), [p[-1] for p in every], 'walk_tree')
    same_paths(t.walk_tree_paths(root, reverse), every, 'walk_tree_paths')
    ctx.label(c[0]); ctx.label('skipping', sk[0] != 'none'); ctx.nontrivial(len(nodes) >= 4 and 0 < len(want) < len(nodes))


@prop(lambda: st.tuples(docs(), criteria(), st.booleans(), st.integers(0, 40), st.integers(-1, 12), st.integers(0, 3), st.integers(0, 6)),
      quick=300, shards=8, rule='node with several children, some of which match')
def children(case, ctx):
    l, c, reverse, k, loc, a, b = case
    t = trees.build(l)
    nodes = [p[-1] for p in order(t)]
    crit, pred = criterion(c, nodes)
    paths = list(order(t))
    nd = nodes[k % len(nodes)]
    kids = list(nd.children)
    hit = [x for x in kids if pred(x)]
    same(nd.select_children(crit, reverse), hit[::-1] if reverse else hit, 'select_children')
    x = nd.pick_child(crit, reverse); check(x is (None if not hit else hit[-1] if reverse else hit[0]), 'pick_child')
    equal(nd.indices(crit), tuple(i for i, x in enumerate(kids) if pred(x)), 'indices')
    equal(crit in nd, bool(hit), '__contains__')
    if kids:
        e = raises(lambda: nd.index(crit), ValueError)
        if hit: check(e is None); equal(nd.index(crit), kids.index(hit[0]), 'index')
        else: check(e is not None, 'index() found', c)
        if a < b:
            want = [i for i in range(a, min(b, len(kids))) if pred(kids[i])]
            e = raises(lambda: nd.index(crit, a, b), ValueError)
            if want: equal(nd.index(crit, a, b), want[0], 'index with limits')
            else: check(e is not None, 'index() found', c, a, b)
    if kids or not nd.result:
        if c[0] not in ('id',):
            if not hit: check(raises(lambda: nd[crit], KeyError), 'KeyError expected')
            elif len(hit) == 1: check(nd[crit] is hit[0], 'item')
            else: same(nd[crit], hit, 'items')
            dflt = object.__new__(type(nd))
            got = nd.get(crit, nodes[0])
            check(got is (hit[0] if hit else nodes[0]), 'get')
            same(nd.get(crit, ()), hit, 'get with sequence')
    # nodes by location
    s, total = t.content, 0
    leaf = None
    for p in paths:
        if not p[-1].children:
            total += len(p[-1].content)
            if leaf is None and 0 <= loc < total: leaf = p
    if loc >= 0:
        got = t.locate(loc); check(got is (leaf[-1] if leaf else None), 'locate', loc, got, trees.show(l))
        same_paths([t.locate_path(loc)], [leaf or ()], 'locate_path', loc)
    # ancestry
    p = paths[k % len(nodes)]
    check(t.find_parent(nd) is (p[-2] if len(p) > 1 else None), 'find_parent')
    same_paths([t.reconstruct_path(nd)], [p], 'reconstruct_path')
    other = trees.build(l)
    check(t.find_parent(other) is None and raises(lambda: t.reconstruct_path(other), ValueError), 'foreign node found')
    ctx.label(c[0]); ctx.nontrivial(len(kids) > 1 and 0 < len(hit) < len(kids))


@prop(lambda: st.tuples(docs(), criteria(), st.one_of(st.just(('none', 0)), criteria()), st.integers(0, 40), st.booleans(), st.booleans()), quick=300, shards=8,
      rule='start somewhere in the middle of a tree with at least four nodes')
def from_path(case, ctx):
    """select_path(start_path): the subtree of the start (if included) and everything behind (or before) it, each parent after its
    remaining children."""
    from DHParser import nodetree as N
    l, c, sk, k, root, reverse = case
    t = trees.build(l)
    paths = list(order(t))
    nodes = [p[-1] for p in paths]
    crit, pred = criterion(c, nodes)
    skip, spred = criterion(sk, nodes)
    start = list(paths[k % len(paths)])
    def sub(p): return [q for q in order(p[-1], reverse, spred, tuple(p[:-1]))]
    seq = sub(start) if root else []
    p = list(start)
    while len(p) > 1:
        sibs = list(p[-2].children); i = [id(x) for x in sibs].index(id(p[-1]))
        for x in (sibs[:i][::-1] if reverse else sibs[i + 1:]): seq += sub(p[:-1] + [x])
        p = p[:-1]
        seq.append(tuple(p))
    want = [q for q in seq if pred(q[-1])]
    pc, ps = pcrit(crit, pred), pcrit(skip, spred)
    same_paths(N.select_path(start, pc, root, reverse, ps), want, 'select_path', trees.show(l), c, sk, [n.name for n in start], root, reverse)
    same_paths([N.pick_path(start, pc, root, reverse, ps) or ()], [want[0] if want else ()], 'pick_path')
    got = N.pick_path_if(start, lambda p: pred(p[-1]), root, reverse, lambda p: spred(p[-1]))
    same_paths([got or ()], [want[0] if want else ()], 'pick_path_if')
    same_paths([start], [paths[k % len(paths)]], 'the start-path was changed')
    # nodes of a path
    on = [n for n in start if pred(n)]
    same(N.select_from_path(start, crit, reverse), on[::-1] if reverse else on, 'select_from_path')
    same(N.select_from_path_if(start, pred, reverse), on[::-1] if reverse else on, 'select_from_path_if')
    x = N.pick_from_path(start, crit, reverse); check(x is (None if not on else on[-1] if reverse else on[0]), 'pick_from_path')
    x = N.pick_from_path_if(start, pred, reverse); check(x is (None if not on else on[-1] if reverse else on[0]), 'pick_from_path_if')
    ix = [i for i, n in enumerate(start) if pred(n)]
    for greedy in (False, True):
        same(N.path_head(start, crit, greedy), start[:(ix[-1] if greedy else ix[0]) + 1] if ix else [], 'path_head', greedy)
        same(N.path_tail(start, crit, greedy), start[ix[0] if greedy else ix[-1]:] if ix else [], 'path_tail', greedy)
    if len(start) > 1:
        sibs = list(start[-2].children); i = [id(x) for x in sibs].index(id(start[-1]))
        before, after = [x for x in sibs[:i] if pred(x)], [x for x in sibs[i + 1:] if pred(x)]
        same(N.pred_siblings(start, crit, reverse), before[::-1] if reverse else before, 'pred_siblings')
        same(N.succ_siblings(start, crit, reverse), after[::-1] if reverse else after, 'succ_siblings')
        nb, na = [x for x in sibs[:i] if not pred(x)], [x for x in sibs[i + 1:] if not pred(x)]
        check(N.get_prev_sibling(start, None, skip=crit) is (nb[-1] if nb else None), 'get_prev_sibling')
        check(N.get_next_sibling(start, None, skip=crit) is (na[0] if na else None), 'get_next_sibling')
    ctx.label(c[0]); ctx.nontrivial(len(start) > 1 and len(nodes) >= 4); ctx.label('reverse', reverse)
