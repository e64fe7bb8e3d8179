"""P26: splitting and merging.  Oracle: model of splits on tree literals; content, leaf order and attributes as invariants."""
from hypothesis import strategies as st
from lib.pbt import prop, check, equal, raises
from lib import trees

RULE = 'a split strictly inside of a node'
CONT = st.sampled_from(['', '', 'x', 'yz', 'abc', ' ', 'hello'])
def docs(**kw): return trees.trees(names=['a', 'b', 'c', 'd'], anon=[':Text', ':x'], content=CONT, attr_names=['id', 'n'], size=25, depth=5, **kw)


def order(node, path=()):
    path = path + (node,)
    yield path
    for c in node.children: yield from order(c, path)


def pos_ok(t):
    """every node of a tree without dropped content lies where its content lies"""
    p = 0
    def go(nd):
        nonlocal p
        equal(nd.pos, p, 'position of', nd.name, nd.content)
        if nd.children:
            for c in nd.children: go(c)
        else: p += len(nd.content)
    go(t)


def msplit(children, k, i, left, chain):
    """literal model: (new children, index of the split)"""
    name, at, res = children[k]
    n = len(res)
    for edge in ([0, n] if left else [n, 0]):
        if i == edge: return children, (k if i == 0 and (left or n) else k + 1)
    ch = tuple((key, 'CHAIN') for key in ([chain] if chain and name[0] != ':' else []) )
    def mk(r):
        d = dict(at); d.update(ch)
        return (name, tuple(d.items()), r)
    return children[:k] + (mk(res[:i]), mk(res[i:])) + children[k + 1:], k + 1


def unchain(l):
    return (l[0], tuple((k, 'CHAIN' if k == 'chain' else v) for k, v in l[1]), l[2] if isinstance(l[2], str) else tuple(map(unchain, l[2])))


@prop(lambda: st.tuples(docs(), st.integers(0, 60), st.integers(0, 7), st.booleans(), st.booleans(), st.booleans()), quick=600, shards=8, rule=RULE)
def one_level(case, ctx):
    from DHParser import nodetree as N
    l, k, i, left, chain, pos = case
    t = trees.build(l)
    if pos: t.with_pos(0)
    paths = [list(p) for p in order(t) if len(p) > 1]
    if not paths: ctx.skip('no children')
    parent, node = paths[k % len(paths)][-2:]
    i = i % (len(node.result) + 1)
    ix = [id(c) for c in parent.children].index(id(node))
    before = trees.lit(parent)
    want, wi = msplit(before[2], ix, i, left, 'chain' if chain else '')
    first = node.children[i] if node.children and i < len(node.children) else None
    got = N.split_node(node, parent, i, left, {'chain': 'CHAIN'} if chain else None)
    equal((trees.lit(parent), got), ((before[0], before[1], want), wi), 'split_node', before, ix, i, left)
    if len(want) > len(before[2]):
        a, b = parent.children[ix:ix + 2]
        check(a is node, 'left part is not the original node')
        if a.has_attr(): a.attr['changed'] = '1'; check(not b.has_attr('changed'), 'parts share their attributes')
        if a.has_attr(): del a.attr['changed']
        if first is not None: check(b.children[0] is first, 'children must be moved, not copied')
        ctx.nontrivial(True)
    if pos: pos_ok(t)


@prop(lambda: st.tuples(docs(), st.integers(0, 60), st.integers(0, 7), st.booleans(), st.booleans(), st.booleans()), quick=600, shards=8, rule='split through at least two levels')
def all_levels(case, ctx):
    from DHParser import nodetree as N
    l, k, i, left, greedy, chain = case
    t = trees.build(l).with_pos(0)
    paths = [list(p) for p in order(t)]
    path = paths[k % len(paths)]
    i = i % (len(path[-1].result) + 1)
    leafs = [(p[-1].name, p[-1].content) for p in paths if not p[-1].children]
    pre = ''
    for p in paths:
        if list(p) == path: break
        if not p[-1].children and p[-1] is not path[-1]: pre += p[-1].content
    pre += path[-1].content[:i] if not path[-1].children else ''.join(c.content for c in path[-1].children[:i])
    names = sorted(trees.lit(p[-1])[0] for p in paths)
    inner = 0 < i < len(path[-1].result) and not path[-1].children
    # exact model: split level by level; if greedy, the split is moved over children without content except on the top level
    lits = [trees.lit(n) for n in path]; ixs = [[id(c) for c in a.children].index(id(b)) for a, b in zip(path, path[1:])]
    cur, wi = lits[-1], i
    for d, (a, ix) in enumerate(zip(lits[-2::-1], ixs[::-1])):
        ch, wi = msplit(a[2][:ix] + (cur,) + a[2][ix + 1:], ix, wi, left, 'chain' if chain else '')
        cur = (a[0], a[1], ch)
        if greedy and d < len(ixs) - 1:
            if left and not any(trees.content(c) for c in ch[:wi]): wi = 0
            if not left and not any(trees.content(c) for c in ch[wi:]): wi = len(ch)
    got = N.deep_split(path, i, left, greedy, chain_attr_name='chain' if chain else '')
    equal(t.content, trees.content(l), 'content', trees.show(l))
    if len(path) > 1 or path[-1].children:
        equal(''.join(c.content for c in t.children[:got]), pre, 'text left of the split', trees.show(l), [n.name for n in path], i, left, greedy, t.as_sxpr())
    now = [p for p in order(t)]
    if not inner or len(path) == 1:
        equal([(p[-1].name, p[-1].content) for p in now if not p[-1].children], leafs, 'leaves', trees.show(l), i, left, greedy)
    check(not set(names) - set(p[-1].name for p in now), 'names lost')
    equal((unchain(trees.lit(t)), got), (cur, wi), 'deep_split', trees.show(l), [n.name for n in path], i, left, greedy)
    pos_ok(t)
    chains = [p[-1].attr['chain'] for p in now if p[-1].has_attr('chain')]
    check(all(chains.count(c) == 2 for c in chains), 'chain-attributes must come in pairs', chains)
    ctx.nontrivial(len(now) > len(paths) + 1); ctx.label('greedy' if greedy else 'exact')


@prop(lambda: st.tuples(docs(), st.integers(0, 60), st.integers(0, 7), st.booleans(), st.booleans(), st.sets(st.sampled_from(['a', 'b', 'c', 'd']), max_size=3)), quick=500, shards=8, rule='some but not all levels can be split')
def divisibility(case, ctx):
    """can_split(): levels that can be split or need not be split, found out by actually splitting copies; the tree itself is left alone."""
    from DHParser import nodetree as N
    l, k, i, left, greedy, div = case
    t = trees.build(l).with_pos(0)
    paths = [list(p) for p in order(t)]
    ix = k % len(paths)
    path = paths[ix]
    i = i % (len(path[-1].result) + 1)
    ids = [[id(n) for n in p] for p in order(t)]
    got = N.can_split(path, i, left, greedy, divisible=frozenset(div))
    equal(trees.lit(t), trees.norm(l), 'can_split changed the tree'); equal([[id(n) for n in p] for p in order(t)], ids, 'can_split changed the tree')
    pos_ok(t)
    k = 0
    for m in range(1, len(path)):
        c = trees.build(l).with_pos(0)
        cp = list(list(order(c))[ix])
        n = len(cp[-m - 1].children)
        N.deep_split(cp[-m - 1:], i, left, greedy)
        grown = len(cp[-m - 1].children) > n
        nd = cp[-m]
        if grown and nd.name[0] != ':' and nd.name not in div: break
        k = m
    # the top-most level is never adjusted by the greediness, but that does not matter for whether it is split
    equal(got, -k, 'can_split', trees.show(l), [n.name for n in path], i, left, greedy, sorted(div))
    ctx.nontrivial(0 < k < len(path) - 1); ctx.label(f'k={min(k, 3)}')


@prop(lambda: st.tuples(docs(), st.integers(0, 60), st.integers(0, 7), st.booleans(), st.booleans(), st.sampled_from('abcd')), quick=400, shards=8, rule='two non-empty parts / at least one milestone below the root')
def parts(case, ctx):
    from DHParser import nodetree as N
    l, k, i, left, greedy, mark = case
    t = trees.build(l).with_pos(0)
    paths = [list(p) for p in order(t)]
    path = paths[k % len(paths)]
    i = i % (len(path[-1].result) + 1)
    leafs = [trees.lit(p[-1])[:2] for p in paths if not p[-1].children]
    pre = ''
    for p in paths:
        if p == path: break
        if not p[-1].children: pre += p[-1].content
    pre += path[-1].content[:i] if not path[-1].children else ''.join(c.content for c in path[-1].children[:i])
    head, tail = N.full_split(path, i, left, greedy)
    check(head is t and tail is not t and tail.name == t.name, 'full_split: roots')
    equal((head.content, tail.content), (pre, trees.content(l)[len(pre):]), 'full_split', trees.show(l), [n.name for n in path], i, left, greedy)
    hid = {id(p[-1]) for p in order(head)}
    check(not any(id(p[-1]) in hid for p in order(tail)), 'parts share nodes')
    ctx.nontrivial(bool(head.content and tail.content))
    # splitting at milestones
    t = trees.build(l)
    segs = t.split(mark)
    stack, want = [], ['']
    def go(x, root=False):
        if x[0] == mark and not root: want.append(''); return
        if isinstance(x[2], str): want[-1] += x[2]
        else:
            for c in x[2]: go(c)
    if l[0] == mark: equal(segs, tuple(), 'split at the root')
    else:
        go(l)
        got = [s.content for s in segs]
        # the part behind the last milestone may be empty
        equal(got, want, 'split', trees.show(l), mark)
        check(all(s.name == l[0] and s.pick(mark) is None for s in segs), 'names or milestones')
        allowed = [x[:2] for x in trees.walk(l)]
        for s in segs:
            for p in list(order(s))[1:]: check(trees.lit(p[-1])[:2] in allowed, 'node with new name or attributes', trees.lit(p[-1]), trees.show(l))
    ctx.label('milestones', min(len(segs), 4))


FLAGS = st.tuples(st.sets(st.sampled_from(['a', 'b', 'c', 'd', ':Text', ':x']), min_size=1), st.sampled_from(['', '', 'a', 'z']))
FLAT = trees.trees(names=['a', 'b', 'c', 'd'], anon=[':Text', ':x'], content=CONT, attr_names=[], size=25, depth=3, width=7)


def fuse(nodes):
    """result of merging literals: joined text or children, texts as :Text nodes, neighbouring anonymous leaves joined"""
    if all(isinstance(n[2], str) for n in nodes): return ''.join(n[2] for n in nodes)
    out = []
    for n in nodes:
        if isinstance(n[2], str): out.append((':Text', (), n[2]))
        else: out.extend(n[2])
    res = []
    for n in out:
        if res and all(x[0][0] == ':' and isinstance(x[2], str) for x in (res[-1], n)): res[-1] = (res[-1][0], res[-1][1], res[-1][2] + n[2])
        else: res.append(n)
    return tuple(res)


@prop(lambda: st.tuples(FLAT, FLAGS, st.booleans(), st.sampled_from(['c', 'd', ':x'])), quick=600, shards=8, rule='at least one merge of two nodes')
def merging(case, ctx):
    from DHParser import nodetree as N, transform as T
    l, (names, pref), leaves, delim = case
    l = trees.norm(l)
    t = trees.build(l).with_pos(0)
    if isinstance(l[2], str): ctx.skip('leaf')
    yes = (lambda n: n[0][0] == ':' and isinstance(n[2], str)) if leaves else (lambda n: n[0] in names)
    if leaves: T.merge_leaves([t]); pref = ''
    else: T.merge_adjacent([t], T.is_one_of(names), pref)
    out, run, merged = [], [], 0
    def flush():
        nonlocal run, merged
        if len(run) > 1: out.append((pref or run[0][0], (), fuse(run))); merged += 1
        elif run: out.append(run[0])
        run = []
    for c in l[2]:
        if yes(c): run.append(c)
        else: flush(); out.append(c)
    flush()
    def single(n):  # a branch that is not merged with a neighbour may have its anonymous leaves joined
        return (n[0], n[1], fuse([n])) if yes(n) else n
    got = trees.lit(t)
    equal([single(c) for c in got[2]], [single(c) for c in out], 'merge_adjacent', trees.show(l), sorted(names), pref)
    equal(t.content, trees.content(l)); pos_ok(t)
    ctx.nontrivial(merged)
    # content and delimiters
    t = trees.build(l).with_pos(0)
    cnt = names - {delim}
    T.merge_connected([t], T.is_one_of(cnt or {'q'}), T.is_one_of({delim}), 'CONT', 'DEL')
    equal(t.content, trees.content(l), 'merge_connected', trees.show(l)); pos_ok(t)
    kinds = ['C' if n.name == 'CONT' else 'D' if n.name in ('DEL', delim) else 'o' for n in t.children]
    text = [n.content for n in t.children]
    # expected sequence of kinds: blocks from content to content, delimiters at the fringes merged
    src = ['C' if c[0] in cnt else 'D' if c[0] == delim else 'o' for c in l[2]]
    want, i = [], 0
    while i < len(src):
        if src[i] == 'D':
            k = i
            while k < len(src) and src[k] == 'D': k += 1
            want.append(('D', ''.join(trees.content(c) for c in l[2][i:k])))
        elif src[i] == 'C':
            k = i
            while k < len(src) and src[k] in 'CD': k += 1
            while src[k - 1] == 'D': k -= 1
            want.append(('C', ''.join(trees.content(c) for c in l[2][i:k])))
        else: k = i + 1; want.append(('o', trees.content(l[2][i])))
        i = k
    equal(list(zip(kinds, text)), want, 'merge_connected', trees.show(l), sorted(cnt), delim)
