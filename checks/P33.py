"""P33: removing transformations and conditions.  Oracle: reference predicates on tuples and plain filters."""
import re
from hypothesis import strategies as st
from lib.pbt import prop, check, equal, raises
from lib import trees

RULE = 'a node with at least two children some, but not all of which meet the condition, or a condition on a tree with at least four nodes'
NAMES = ['a', 'b', 'c', '_d']
ANON = [':Text', ':Whitespace', ':RegExp', ':Series', ':x']
TEXTS = ['', 'x', 'y', 'xy', ' ', '  ', '\n', '1', '(', ')', '+', 'x\n', '$', 'a|b']
LEAF_NAMES = {':Text', ':Whitespace', ':RegExp'}


def kids(l): return () if isinstance(l[2], str) else l[2]


def docs(**kw):
    return trees.trees(names=NAMES, anon=ANON, content=st.sampled_from(TEXTS), attr_names=['k', 'n'], attr_values=st.sampled_from(['', '1', '2']), size=20, depth=4, mind=1, minw=1, width=5, **kw)


REGEXES = ['x', 'x|xy', r'\s*', '', 'x$', r'\$', 'a|b', 'x|1$', '(?i)X', r'[xy]+', '.', ':.*', r'[a-c]', r'\(|\)']


def conditions():
    names = st.lists(st.sampled_from(NAMES + ANON), max_size=3).map(tuple)
    some = st.lists(st.sampled_from(NAMES + ANON), min_size=1, max_size=3).map(tuple)
    toks = st.lists(st.sampled_from(TEXTS), max_size=3).map(tuple)
    base = st.one_of(
        st.sampled_from([(k,) for k in ('is_named', 'is_anonymous', 'is_anonymous_leaf', 'contains_only_whitespace', 'is_empty', 'has_children', 'is_single_child', 'always', 'never')]),
        st.tuples(st.just('is_token'), toks), st.tuples(st.sampled_from(['is_one_of', 'not_one_of', 'has_parent', 'has_child', 'has_sibling']), some),
        st.tuples(st.sampled_from(['is_a', 'not_a']), st.sampled_from(NAMES + ANON)),
        st.tuples(st.sampled_from(['name_matches', 'content_matches']), st.sampled_from(REGEXES)),
        st.tuples(st.just('has_content'), st.sampled_from(TEXTS)),
        st.tuples(st.just('has_attr'), st.sampled_from(['', 'k', 'n', 'z']), st.sampled_from([None, None, '', '1'])),
        st.tuples(st.just('has_ancestor'), some, st.sampled_from([-1, 0, 1, 2, 3]), st.one_of(st.just(()), names)),
        st.tuples(st.just('has_descendant'), some, st.sampled_from([-1, 0, 1, 2, 3])))
    return st.one_of(base, base, base, st.tuples(st.just('neg'), base), st.tuples(st.sampled_from(['any_of', 'all_of']), st.lists(base, min_size=1, max_size=3).map(tuple)))


def desc(l, gen=-1):
    for c in kids(l):
        yield c
        if gen != 1: yield from desc(c, gen - 1)


def cond_m(c, p):
    k, nd = c[0], p[-1]
    txt = trees.content(nd)
    if k == 'is_named': return nd[0][0] != ':'
    if k == 'is_anonymous': return nd[0][0] == ':'
    if k == 'is_anonymous_leaf': return nd[0][0] == ':' and not kids(nd)
    if k == 'contains_only_whitespace': return not txt or txt.isspace()
    if k == 'is_empty': return not kids(nd) and not txt
    if k == 'has_children': return bool(kids(nd))
    if k == 'is_single_child': return len(p) == 1 or len(kids(p[-2])) == 1
    if k in ('always', 'never'): return k == 'always'
    if k == 'is_token': return nd[0] == ':Text' and (not c[1] or txt in c[1])
    if k == 'is_one_of': return nd[0] in c[1]
    if k == 'not_one_of': return nd[0] not in c[1]
    if k == 'is_a': return nd[0] == c[1]
    if k == 'not_a': return nd[0] != c[1]
    if k == 'name_matches': return re.compile(c[1]).fullmatch(nd[0]) is not None
    if k == 'content_matches': return re.compile(c[1]).fullmatch(txt) is not None
    if k == 'has_content': return txt == c[1]
    if k == 'has_attr':
        d = dict(nd[1])
        return bool(d) if not c[1] else c[1] in d if c[2] is None else d.get(c[1]) == c[2]
    if k == 'has_parent': return len(p) > 1 and p[-2][0] in c[1]
    if k == 'has_child': return any(x[0] in c[1] for x in kids(nd))
    if k == 'has_sibling': return len(p) > 1 and any(x is not nd and x[0] in c[1] for x in kids(p[-2]))
    if k == 'has_ancestor':
        for i, a in enumerate(reversed(p[:-1])):
            if c[2] > 0 and i >= c[2]: return False
            if a[0] in c[1]: return True
            if a[0] in c[3]: return False
        return False
    if k == 'has_descendant': return any(x[0] in c[1] for x in desc(nd, c[2] if c[2] > 0 else -1))
    if k == 'neg': return not cond_m(c[1], p)
    if k == 'any_of': return any([cond_m(x, p) for x in c[1]])
    if k == 'all_of': return all([cond_m(x, p) for x in c[1]])
    raise KeyError(k)


def cond_r(c):
    from DHParser import transform as T
    k = c[0]
    f = getattr(T, k)
    if len(c) == 1: return f
    if k == 'is_token': return f(*c[1]) if c[1] else f
    if k in ('neg',): return f(cond_r(c[1]))
    if k in ('any_of', 'all_of'): return f({cond_r(x) for x in c[1]})
    if k == 'has_attr': return f(c[1], c[2]) if c[2] is not None else f(c[1])
    if k == 'has_ancestor': return f(set(c[1]), c[2], c[3][0] if len(c[3]) == 1 else set(c[3])) if c[3] else f(set(c[1]), c[2])
    if k == 'has_descendant': return f(set(c[1]), c[2])
    if k in ('has_parent', 'has_child', 'has_sibling'): return f(set(c[1]))
    if k in ('is_one_of', 'not_one_of'): return f(*c[1])
    if k in ('has_content', 'content_matches'):
        return f(c[1])
    return f(c[1])


def allpaths(l, p=()):
    p = p + (l,)
    yield list(p)
    for c in kids(l): yield from allpaths(c, p)


def uniqify(l): return tuple([l[0], tuple(list(l[1])), l[2] if isinstance(l[2], str) else tuple([uniqify(c) for c in l[2]])])


def node_paths(t, p=()):
    p = p + (t,)
    yield list(p)
    for c in t.children: yield from node_paths(c, p)


@prop(lambda: st.tuples(docs(), conditions()), quick=800, shards=6)
def conditions_(case, ctx):
    """every condition holds for exactly the paths it is documented for"""
    l, c = uniqify(case[0]), case[1]
    t = trees.build(l)
    f = cond_r(c)
    res = set()
    for p, q in zip(allpaths(l), node_paths(t)):
        want = cond_m(c, p)
        r = f(q)
        equal(bool(r), want, c, 'for', [n.name for n in q], repr(q[-1].content))
        check(r is not None, 'undecided')
        res.add(want)
    equal(trees.lit(t), trees.norm(l), 'conditions change nothing')
    ctx.nontrivial(len(res) == 2 and trees.size(l) > 3)
    ctx.label(c[0], len(res) == 2)


@prop(lambda: st.tuples(docs(), st.lists(st.sampled_from(NAMES + ANON), min_size=1, max_size=3).map(tuple), st.sampled_from([-1, 1, 2, 3]), st.lists(st.sampled_from(NAMES + ANON), min_size=1, max_size=2).map(tuple)), quick=200, shards=2)
def descendant_until(case, ctx):
    """`until` only ever restricts the search, and it stops the search below the stated nodes"""
    from DHParser.transform import has_descendant
    l, names, gen, until = case
    l, t = uniqify(l), trees.build(l)
    def reach(n, g, strict):
        for c in kids(n):
            if c[0] in names: return True
            if g != 1 and not (c[0] in until and strict) and reach(c, g - 1, strict): return True
        return False
    def below(n, g, d):   # a match with at least two levels below an until-node does not count
        for c in kids(n):
            if c[0] in names and d < 2: return True
            if g != 1 and below(c, g - 1, d + 1 if d else int(c[0] in until)): return True
        return False
    for p, q in zip(allpaths(l), node_paths(t)):
        if p[-1][0] in until: continue
        r = has_descendant(q, set(names), gen, set(until))
        check(r or not reach(p[-1], gen, True), 'not found although no until-node is in between')
        check(not r or reach(p[-1], gen, False), 'found, but there is none')
        check(not r or below(p[-1], gen, 0), 'found below an until-node')
        ctx.nontrivial(reach(p[-1], gen, False) and not reach(p[-1], gen, True) or r)


def removers():
    names = st.lists(st.sampled_from(NAMES + ANON), min_size=1, max_size=3).map(tuple)
    toks = st.lists(st.sampled_from(TEXTS), max_size=3).map(tuple)
    sl = st.tuples(st.one_of(st.none(), st.integers(-3, 3)), st.one_of(st.none(), st.integers(-3, 5)), st.sampled_from([None, None, 1, 2, -1]))
    plain = [('remove_whitespace',), ('remove_empty',), ('remove_anonymous_empty',), ('remove_anonymous_tokens',), ('remove_infix_operator',), ('remove_brackets',), ('remove',),
             ('lstrip', None), ('rstrip', None), ('strip', None)]
    c = conditions()
    return st.one_of(st.sampled_from(plain), st.sampled_from(plain), st.tuples(st.sampled_from(['lstrip', 'rstrip', 'strip']), c.filter(monotone)),
                     st.tuples(st.sampled_from(['keep_children_if', 'remove_children_if', 'remove_if']), c), st.tuples(st.just('keep_children'), sl),
                     st.tuples(st.sampled_from(['remove_tokens', 'keep_tokens']), toks), st.tuples(st.sampled_from(['remove_children', 'keep_nodes']), names),
                     st.tuples(st.sampled_from(['remove_content', 'keep_content']), st.sampled_from(REGEXES)))


def real_op(op):
    from DHParser import transform as T
    k = op[0]
    if len(op) == 1: return getattr(T, k)
    if k in ('lstrip', 'rstrip', 'strip'): return getattr(T, k)(cond_r(op[1])) if op[1] else getattr(T, k)
    if k.endswith('_if'): return getattr(T, k)(cond_r(op[1]))
    if k == 'keep_children': return T.keep_children(slice(*op[1]))
    if k in ('remove_content', 'keep_content'): return getattr(T, k)(op[1])
    if not op[1]: return getattr(T, k)
    return getattr(T, k)(*op[1]) if len(op[1]) != 2 else getattr(T, k)(set(op[1]))


def strip_m(p, cond, left, right):
    l = p[-1]
    def lst(p):
        l = p[-1]
        while kids(l):
            c = lst(p[:-1] + [l, kids(l)[0]])
            l = (l[0], l[1], (c,) + kids(l)[1:])
            if not cond_m(cond, p[:-1] + [l, c]): break
            l = (l[0], l[1], kids(l)[1:] or '')
        return l
    def rst(p):
        l = p[-1]
        while kids(l):
            c = rst(p[:-1] + [l, kids(l)[-1]])
            l = (l[0], l[1], kids(l)[:-1] + (c,))
            if not cond_m(cond, p[:-1] + [l, c]): break
            l = (l[0], l[1], kids(l)[:-1] or '')
        return l
    if left: l = lst(p[:-1] + [l])
    if right: l = rst(p[:-1] + [l])
    return l


def monotone(c):
    if c[0] in ('any_of', 'all_of'): return all(monotone(x) for x in c[1])
    return c[0] in ('contains_only_whitespace', 'is_empty', 'is_one_of', 'not_one_of', 'is_a', 'not_a', 'name_matches', 'is_named', 'is_anonymous', 'is_anonymous_leaf', 'always', 'never')


def model_op(op, p):
    l, k = p[-1], op[0]
    keep = None
    def flt(f): return (l[0], l[1], tuple(c for c in kids(l) if f(c)) or '') if kids(l) else l
    cm = lambda cond, c: cond_m(cond, p + [c])
    if k in ('remove', 'remove_if'):
        if len(p) == 1 or (k == 'remove_if' and not cond_m(op[1], p)): return l
        return ('parent', (p[-2][0], p[-2][1], tuple(c for c in kids(p[-2]) if c is not l) or ''))
    if k == 'remove_whitespace': return flt(lambda c: c[0] != ':Whitespace')
    if k == 'remove_empty': return flt(lambda c: kids(c) or c[2])
    if k == 'remove_anonymous_empty': return flt(lambda c: kids(c) or c[2] or c[0][0] != ':')
    if k == 'remove_anonymous_tokens': return flt(lambda c: c[0] != ':Text')
    if k == 'remove_infix_operator': return (l[0], l[1], kids(l)[::2] or '') if kids(l) else l
    if k == 'remove_brackets':
        disp = lambda c: c[0] in LEAF_NAMES or (c[0] == ':Series' and all(x[0] in LEAF_NAMES for x in kids(c)))
        ch = list(kids(l))
        while ch and disp(ch[0]): ch.pop(0)
        while ch and disp(ch[-1]): ch.pop()
        return (l[0], l[1], tuple(ch) or '') if kids(l) else l
    if k in ('lstrip', 'rstrip', 'strip'): return strip_m(p, op[1] or ('contains_only_whitespace',), k != 'rstrip', k != 'lstrip')
    if k == 'keep_children_if': return flt(lambda c: cm(op[1], c))
    if k == 'remove_children_if': return flt(lambda c: not cm(op[1], c))
    if k == 'keep_children': return (l[0], l[1], kids(l)[slice(*op[1])] or '') if kids(l) else l
    if k == 'remove_tokens': return flt(lambda c: not cm(('is_token', op[1]), c))
    if k == 'keep_tokens': return flt(lambda c: cm(('is_token', op[1]), c))
    if k == 'remove_children': return flt(lambda c: c[0] not in op[1])
    if k == 'keep_nodes': return flt(lambda c: c[0] in op[1])
    rx = re.compile(op[1])
    if k == 'remove_content': return flt(lambda c: not rx.fullmatch(trees.content(c)))
    if k == 'keep_content': return flt(lambda c: rx.fullmatch(trees.content(c)))
    raise KeyError(k)


def paths(l, p=()):
    yield p
    for i, c in enumerate(kids(l)): yield from paths(c, p + (i,))


def lits_on(l, ip):
    out = [l]
    for i in ip: out.append(kids(out[-1])[i])
    return out


def put(l, ip, new):
    if not ip: return new
    ch = list(kids(l))
    ch[ip[0]] = put(ch[ip[0]], ip[1:], new)
    return (l[0], l[1], tuple(ch))


@prop(lambda: st.tuples(docs(), st.integers(0, 40), removers()), quick=1000, shards=8)
def removal(case, ctx):
    """exactly the children that meet the condition are removed; all other nodes stay the very same objects in the same order"""
    from DHParser.nodetree import tree_sanity_check
    l, k, op = case
    l = uniqify(l)
    ips = [ip for ip in paths(l) if kids(lits_on(l, ip)[-1])] or [()]
    if op[0] in ('remove', 'remove_if'): ips = [ip for ip in paths(l) if ip] or [()]
    ip = ips[k % len(ips)]
    if op[0].endswith('strip') and op[1] and not monotone(op[1]): ctx.skip('condition that stripping may falsify')
    p = lits_on(l, ip)
    r = model_op(op, p)
    want = put(l, ip[:-1], r[1]) if r[0] == 'parent' else put(l, ip, r)
    t = trees.build(l)
    nodes = {id(n): n for n in t.select_if(lambda n: True, include_root=True)}
    path = [t]
    for i in ip: path.append(path[-1].children[i])
    equal(real_op(op)(path), None)
    equal(trees.lit(t), trees.norm(want), op, 'at', ip, 'of', trees.show(l))
    check(all(id(n) in nodes for n in t.select_if(lambda n: True, include_root=True)), 'no new nodes')
    check(tree_sanity_check(t), 'tree is sane')
    changed = trees.norm(want) != trees.norm(l)
    ctx.nontrivial(changed and len(kids(p[-1])) > 1 and (r[0] == 'parent' or bool(kids(r))))
    ctx.label(op[0], changed)


@prop(lambda: st.tuples(docs(), st.lists(st.tuples(st.sampled_from(NAMES + ANON + ['*', '<', '>']), st.lists(removers(), min_size=1, max_size=3).map(tuple)), min_size=1, max_size=4, unique_by=lambda t: t[0]).map(tuple)), quick=300, shards=4)
def tables(case, ctx):
    """in tables: what remains is a subsequence of the nodes, with unchanged names, attributes and leaf-contents"""
    from DHParser.transform import traverse
    l, table = case
    t = trees.build(l)
    order = {id(n): (i, n, n.name, dict(n.attr) if n.has_attr() else {}, None if n.children else n.content) for i, n in enumerate(t.select_if(lambda n: True, include_root=True))}
    traverse(t, {k: [real_op(o) for o in seq] for k, seq in table})
    rev = any(o[0] == 'keep_children' and o[1][2] == -1 for _, s in table for o in s)
    last = -1
    n = 0
    for nd in t.select_if(lambda n: True, include_root=True):
        check(id(nd) in order, 'new node')
        i, _, name, attr, txt = order[id(nd)]
        check(rev or i > last, 'order'); last = i; n += 1
        equal((nd.name, dict(nd.attr) if nd.has_attr() else {}), (name, attr))
        if txt is not None: equal(nd.content, txt)
        elif not nd.children: equal(nd.content, '')
    ctx.nontrivial(2 < n < len(order))
