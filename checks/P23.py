"""P23: equality, copying and editing of trees.  Oracles: equality of tree-literals; Python-lists, -dictionaries and -sets
of the same children, attributes and tokens."""
import copy
from hypothesis import strategies as st
from lib.pbt import prop, check, equal, raises, Violation
from lib import trees

RULE = 'tree with more than two nodes'
NM = ['a', 'b', 'c']
def docs(**kw): return trees.trees(names=NM, anon=[':Text'], attr_names=['k', 'l'],
                                   content=st.sampled_from(['', 'x', 'yz', 'abc', ' ']), **{'size': 15, 'depth': 4, 'attr_values': st.sampled_from(['', 'x', 'y']), **kw})


@st.composite
def pairs(draw):
    """A tree and another tree that differs in at most one respect."""
    l = draw(docs())
    n = draw(st.integers(0, trees.size(l) - 1))
    kind = draw(st.sampled_from(['same', 'same', 'name', 'attr', 'attr+', 'attr-', 'order', 'content', 'drop', 'dup', 'other', 'wrap', 'leafify']))
    count = [-1]

    def change(t):
        count[0] += 1
        nm, at, res = t
        if count[0] == n:
            if kind == 'name': nm = 'd'
            if kind == 'attr' and at: at = ((at[0][0], at[0][1] + '!'),) + at[1:]
            if kind == 'attr+' : at = at + (('new', ''),)
            if kind == 'attr-': at = at[1:]
            if kind == 'order': at = at[::-1]
            if kind == 'content' and isinstance(res, str): res += '.'
            if kind == 'drop' and not isinstance(res, str): res = res[1:]
            if kind == 'dup' and res and not isinstance(res, str): res = res + res[-1:]
            if kind == 'leafify': res = trees.content(t)
            if kind == 'wrap': return ('a', (), (t,))
        return (nm, at, res if isinstance(res, str) else tuple(change(c) for c in res))
    return l, (draw(docs()) if kind == 'other' else change(l)), kind


def unordered(l):
    n, a, r = trees.norm(l)
    return (n, tuple(sorted(a)), r if isinstance(r, str) else tuple(unordered(c) for c in r))


@prop(pairs, quick=1000, shards=8, rule='pair of trees that differ in one place or not at all')
def equality(case, ctx):
    from DHParser import nodetree as N
    l, m, kind = case
    a, b = trees.build(l), trees.build(m)
    for x, y, lx, ly in ((a, b, l, m), (b, a, m, l), (a, a, l, l)):
        equal(x.equals(y), unordered(lx) == unordered(ly), 'equals', trees.show(lx), trees.show(ly))
        equal(x.equals(y, ignore_attr_order=False), trees.norm(lx) == trees.norm(ly), 'equals in strict order', trees.show(lx), trees.show(ly))
        equal(x.has_equal_attr(y), dict(lx[1]) == dict(ly[1])); equal(x.has_equal_attr(y, False), lx[1] == ly[1])
    check(N.RootNode(a).equals(b) == a.equals(b))
    ctx.nontrivial(kind not in ('other',) and trees.size(l) > 2); ctx.label('equal' if a.equals(b) else 'different')


@prop(lambda: st.tuples(docs(attr_values=st.sampled_from(['', 'x', "it's", '"', 'a\nb'])), st.booleans(), st.integers(-1, 5), st.integers(0, 30)), quick=600, shards=4, rule=RULE)
def copies(case, ctx):
    from DHParser import nodetree as N
    l, root, pos, k = case
    t = trees.build(l)
    if root: t = N.RootNode(t)
    if pos >= 0: t.with_pos(pos)
    d = copy.deepcopy(t)
    check(type(d) is type(t)); equal(trees.lit(d), trees.norm(l), 'copy differs'); check(t.equals(d) and d.equals(t))
    orig = list(t.walk_tree(include_root=True)); dup = list(d.walk_tree(include_root=True))
    equal(len(orig), len(dup)); check(not {id(n) for n in orig} & {id(n) for n in dup}, 'copy shares nodes')
    equal([n._pos for n in dup], [n._pos for n in orig], 'positions')
    if root:
        check(d.data is d); equal((d.source, d.docname, d.stage), (t.source, t.docname, t.stage))
    # whatever is done to the copy does not show in the original
    nd = dup[k % len(dup)]
    nd.attr['k'] = 'changed'; nd.attr['zzz'] = '1'
    nd.name = 'changed'; nd.result = nd.children + (N.Node('new', 'NEW'),) if nd.children else 'CHANGED'
    equal(trees.lit(t), trees.norm(l), 'changes of the copy show in the original')
    # executable representation
    e = eval(t.repr, {'Node': N.Node})
    equal(trees.lit(e), trees.norm(l), 'repr', t.repr); equal([n._pos for n in e.walk_tree(include_root=True)], [n._pos for n in orig], 'positions in repr')
    ctx.nontrivial(trees.size(l) > 2)


IDX = st.integers(-6, 6)
SLICE = st.tuples(st.one_of(st.none(), IDX), st.one_of(st.none(), IDX), st.sampled_from([None, 1, 2, -1, -2]))
SELECTOR = st.sampled_from(['a', 'b', 'c', 'nope', ('a', 'b'), ('nope', 'c')])
OPS = st.one_of(
    st.tuples(st.just('get'), st.one_of(IDX, SLICE.map(lambda s: ('slice',) + s), SELECTOR)),
    st.tuples(st.just('surrogate'), st.one_of(IDX, SLICE.map(lambda s: ('slice',) + s), SELECTOR), st.booleans()),
    st.tuples(st.just('set'), st.one_of(IDX, SLICE.map(lambda s: ('slice',) + s), SELECTOR), st.lists(st.sampled_from(NM), max_size=3), st.booleans()),
    st.tuples(st.just('del'), st.one_of(IDX, SLICE.map(lambda s: ('slice',) + s), SELECTOR)),
    st.tuples(st.just('insert'), IDX, st.sampled_from(NM)),
    st.tuples(st.just('remove'), st.integers(0, 6)),
    st.tuples(st.just('contains'), SELECTOR), st.tuples(st.just('indices'), SELECTOR),
    st.tuples(st.just('index'), SELECTOR, st.integers(0, 3), st.integers(1, 5)),
    st.tuples(st.just('result'), st.lists(st.sampled_from(NM), max_size=3)))


def outcome(f):
    try: return f()
    except (KeyError, IndexError, ValueError) as e: return type(e).__name__


def same(x): return [id(y) for y in x] if isinstance(x, (list, tuple)) else id(x) if not isinstance(x, str) else x


@prop(lambda: st.tuples(st.lists(st.sampled_from(NM), max_size=5), st.lists(OPS, max_size=14), st.booleans()), quick=800, shards=8,
      rule='at least three operations, at least one of which changes the children')
def editing(case, ctx):
    from DHParser.nodetree import Node
    names, ops, pos = case
    serial = [0]

    def new(name):
        serial[0] += 1
        return Node(name, str(serial[0]))
    model = [new(n) for n in names]
    nd = Node('root', tuple(model))
    if pos: nd.with_pos(0)
    changes = 0

    def key(k):
        if isinstance(k, tuple) and k[:1] == ('slice',): return slice(*k[1:])
        return set(k) if isinstance(k, tuple) else k

    def match(k):
        return [i for i, c in enumerate(model) if (c.name == k if isinstance(k, str) else c.name in k)]

    for op in ops:
        kind, before = op[0], list(model)
        if kind in ('get', 'surrogate', 'del', 'set'): k = key(op[1])
        if kind in ('get', 'surrogate'):
            if isinstance(k, (int, slice)): want = outcome(lambda: model[k])
            else:
                hits = [model[i] for i in match(k)]
                want = hits if len(hits) > 1 else hits[0] if hits else 'KeyError'
            if kind == 'get': equal(same(outcome(lambda: nd[k])), same(want), 'node[k]', k, [c.name for c in model])
            elif op[2]:
                sur = [Node('sur', '')]
                got = nd.get(k, sur)
                if isinstance(want, str): check(got is sur, 'surrogate')
                else: equal(same(list(got)), same(want if isinstance(want, list) else [want]), 'get(k, [..])', k)
            else:
                sur = Node('sur', '')
                got = nd.get(k, sur)
                if isinstance(want, str) or want == []: check(got is sur, 'surrogate', got)
                else: check(got is (want[0] if isinstance(want, list) else want), 'get(k, node)', k)
        elif kind == 'set':
            if not model:
                check(outcome(lambda: nd.__setitem__(k, new('a'))) == 'ValueError', 'assignment to a leaf-node'); continue
            vals = [new(n) for n in op[2]]
            single = op[3] and len(vals) == 1
            if isinstance(k, int):
                if single: want = outcome(lambda: model.__setitem__(k, vals[0]))
                else: want = 'ValueError'
            elif isinstance(k, slice):
                want = outcome(lambda: model.__setitem__(k, vals))
            else:
                hits = match(k)
                if single:
                    if len(hits) > 1: continue      # one and the same node must not appear twice in a tree
                    want = None if hits else 'KeyError'
                    if hits: model[hits[0]] = vals[0]
                else:
                    want = None if len(hits) == len(vals) else 'ValueError'
                    if want is None:
                        for i, v in zip(hits, vals): model[i] = v
            equal(outcome(lambda: nd.__setitem__(k, vals[0] if single else vals)), want, 'node[k] = v', k, single)
        elif kind == 'del':
            if isinstance(k, (int, slice)): want = outcome(lambda: model.__delitem__(k))
            else:
                hits = match(k); want = None if hits else 'KeyError'
                model[:] = [c for i, c in enumerate(model) if i not in hits]
            equal(outcome(lambda: nd.__delitem__(k)), want, 'del node[k]', k, [c.name for c in before])
        elif kind == 'insert':
            v = new(op[2]); model.insert(op[1], v)
            equal(outcome(lambda: nd.insert(op[1], v)), None, 'insert')
        elif kind == 'remove':
            v = model[op[1]] if op[1] < len(model) else Node('a', '1')
            want = outcome(lambda: model.remove(v))
            equal(outcome(lambda: nd.remove(v)), want, 'remove')
        elif kind == 'contains': equal(key(op[1]) in nd, bool(match(key(op[1]))), 'in')
        elif kind == 'indices': equal(nd.indices(key(op[1])), tuple(match(key(op[1]))), 'indices')
        elif kind == 'index':
            a, b = op[2], op[2] + op[3]
            hits = [i for i in match(key(op[1])) if a <= i < b]
            equal(outcome(lambda: nd.index(key(op[1]), a, b)), hits[0] if hits else 'ValueError', 'index', op[1], a, b)
        elif kind == 'result':
            model = [new(n) for n in op[1]]
            nd.result = tuple(model)
        changes += before != model
        equal([id(c) for c in nd.children], [id(c) for c in model], 'children after', op, [c.name for c in before])
        equal(nd.content, ''.join(c.content for c in model), 'content'); equal(nd.strlen(), len(nd.content))
        check(nd.result == (tuple(model) or ''), 'result')
        if pos: check(all(c._pos >= 0 for c in nd.children), 'children without position')
    ctx.nontrivial(len(ops) > 2 and changes)
    for op in ops: ctx.label(op[0])


TOK = ['red', 'redder', 'thin', 'in', 'a', 'ab', 'b', 'A', 'th-in']
SEQ = st.lists(st.sampled_from(TOK), max_size=4, unique=True).map(' '.join)


@prop(lambda: st.tuples(SEQ, st.lists(st.tuples(st.sampled_from(['add', 'remove', 'remove_keep', 'has', 'any', 'eq', 'norm']), SEQ, st.sampled_from([' ', '  ', '\n ', '\t'])), max_size=8), st.booleans()),
      quick=800, shards=4, rule='at least one operation on a non-empty token sequence')
def tokens(case, ctx):
    from DHParser import nodetree as N
    start, ops, cls = case
    nd = N.Node('a', '')
    at = 'class' if cls else 'rend'
    if start: nd.attr[at] = start
    model = start.split()
    has = N.has_class if cls else (lambda n, t, **kw: N.has_token_on_attr(n, t, 'rend', **kw))
    add = N.add_class if cls else (lambda n, t: N.add_token_to_attr(n, t, 'rend'))
    rem = N.remove_class if cls else (lambda n, t, **kw: N.remove_token_from_attr(n, t, 'rend', **kw))
    seq = start
    for op, arg, gap in ops:
        toks = arg.split()
        if op == 'add':
            add(nd, arg)
            s2 = N.add_token(seq, arg)
            check(s2.startswith(seq)); seq = s2
            model += [t for t in toks if t not in model]
        elif op in ('remove', 'remove_keep'):
            rem(nd, arg, **({'remove_empty_attr': False} if op == 'remove_keep' else {}))
            seq = N.remove_token(seq, arg)
            model = [t for t in model if t not in toks]
            if not model and op == 'remove': check(not nd.has_attr(at), 'empty attribute not removed')
        elif op == 'has': equal(has(nd, gap.join(toks)), set(toks) <= set(model), 'has all', model, toks)
        elif op == 'any': equal(has(nd, gap.join(toks), all=False), not toks or bool(set(toks) & set(model)), 'has any', model, toks)
        elif op == 'eq': equal(N.eq_tokens(seq, gap + gap.join(toks)), set(toks) == set(model), 'eq_tokens', model, toks)
        elif op == 'norm':
            equal(N.normalize_token_sequence(gap + gap.join(toks) + gap), ' '.join(toks)); check(N.validate_token_sequence(' '.join(toks)))
            if len(toks) > 1: equal(N.validate_token_sequence(gap.join(toks)), gap in (' ', '\t'))
        equal(nd.get_attr(at, '').split(), model, op, arg); equal(seq.split(), model, op, arg)
        check(N.validate_token_sequence(nd.get_attr(at, '')), 'not normalized', nd.get_attr(at, ''))
    ctx.nontrivial(len(model) > 0 and len(ops) > 1)


ATTROPS = st.one_of(st.tuples(st.just('set'), st.sampled_from('klm'), st.sampled_from(['', 'x'])), st.tuples(st.just('del'), st.sampled_from('klm')),
                    st.tuples(st.just('with'), st.dictionaries(st.sampled_from('klm'), st.sampled_from('xy')), st.booleans()),
                    st.tuples(st.just('assign'), st.dictionaries(st.sampled_from('klm'), st.sampled_from('xy'))),
                    st.tuples(st.just('replace_by'), st.dictionaries(st.sampled_from('klm'), st.sampled_from('uv'), min_size=1), st.booleans()))


@prop(lambda: st.lists(ATTROPS, max_size=10), quick=500, shards=4, rule='at least three operations')
def attributes(case, ctx):
    from DHParser.nodetree import Node
    nd = Node('a', 'x'); model = {}
    for op in case:
        if op[0] == 'set': nd.attr[op[1]] = op[2]; model[op[1]] = op[2]
        elif op[0] == 'del':
            if op[1] in model: del nd.attr[op[1]]; del model[op[1]]
        elif op[0] == 'with':
            r = nd.with_attr(op[1]) if op[2] else nd.with_attr(**op[1])
            check(r is nd); model.update(op[1])
        elif op[0] == 'assign': nd.attr = dict(op[1]); model = dict(op[1])
        elif op[0] == 'replace_by':
            other = Node('b', (Node('c', 'y'), Node('d', 'z'))).with_attr(op[1])
            nd.replace_by(other, merge_attr=op[2])
            check(nd.name == 'b' and nd.content == 'yz' and len(nd.children) == 2)
            if not op[2]: model = {}
            model.update(op[1])
            equal(dict(other.attr), op[1], 'replacement changed')
        for k in 'klm':
            equal(nd.has_attr(k), k in model, 'has_attr', op); equal(nd.get_attr(k, 'none'), model.get(k, 'none'), 'get_attr', op)
        equal(nd.has_attr(), bool(model), 'has_attr()'); equal(list(nd.attr.items()), list(model.items()), 'attr after', op)
    ctx.nontrivial(len(case) > 2)


@prop(lambda: st.tuples(docs(), st.integers(0, 9), st.integers(0, 30), st.lists(st.sampled_from(['', 'x', 'yz']), min_size=1, max_size=3)), quick=400, shards=4, rule=RULE)
def late_positions(case, ctx):
    """Positions are assigned once, to all nodes; nodes that are added later receive a position; no position ever changes."""
    from DHParser.nodetree import Node
    l, pos, k, new = case
    t = trees.build(l)
    check(raises(lambda: t.pos, AssertionError), 'position not uninitialized')
    check(t.with_pos(pos) is t)

    def expected(n, p):
        yield p
        for c in n.children:
            yield from expected(c, p); p += len(c.content)
    nodes = list(t.walk_tree(include_root=True))
    equal([n.pos for n in nodes], list(expected(t, pos)), 'positions', trees.show(l))
    t.with_pos(pos)
    check(raises(lambda: t.with_pos(pos + 1), AssertionError), 'reassignment of positions not refused')
    old = {id(n): n.pos for n in nodes}
    n = nodes[k % len(nodes)]
    if n.children or not n.content:
        added = [Node('new', (Node('x', s), Node('y', s))) for s in new]
        last = n.children[-1].pos + len(n.children[-1].content) if n.children else n.pos
        n.result = n.children + tuple(added)
        for a in added:
            equal(a.pos, last, 'position of added node'); equal(list(m.pos for m in a.walk_tree(include_root=True)), list(expected(a, last)), 'positions within added node')
            last += len(a.content)
        equal([m.pos for m in nodes], [old[id(m)] for m in nodes], 'positions of other nodes changed')
    ctx.nontrivial(len(nodes) > 2)
