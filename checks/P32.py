"""P32: structure-changing transformations.  Oracle: for each transformation a reference function on plain tuples,
applied at one node of a generated tree; in addition, for sequences of transformations that are meant to keep the
content: text content, sanity of the tree, attributes, positions and attached errors."""
import re
from hypothesis import strategies as st
from lib.pbt import prop, check, equal, raises
from lib import trees

RULE = 'the transformation changes a tree with at least four nodes'
NAMES = ['a', 'b', 'c', 'op', '_d']
ANON = [':Text', ':Whitespace', ':x']


@st.composite
def docs(draw, attrs=True, **kw):
    """every attribute-value occurs but once"""
    l = draw(trees.trees(names=NAMES, anon=ANON, content=st.sampled_from(['', 'x', 'y', 'x y', ' ', '  ', '1', 'x\n', '=']),
                         attr_names=['k', 'n', 'm'] if attrs else None, size=24, mind=1, minw=1, **kw))
    uniq = attrs and draw(st.booleans())
    num = [0]
    def rec(l):
        num[0] += 1
        at = tuple((k + str(num[0]) if uniq else k, str(num[0])) for k, v in l[1])
        return (l[0], at, l[2] if isinstance(l[2], str) else tuple(rec(c) for c in l[2]))
    return rec(l)


CONDS = st.one_of(st.tuples(st.just('in'), st.lists(st.sampled_from(NAMES + ANON), min_size=1, max_size=4).map(tuple)),
                  st.sampled_from([('anon', 0), ('leaf', 0), ('ws', 0), ('named', 0), ('yes', 0)]),
                  st.tuples(st.just('len'), st.integers(2, 4)), st.tuples(st.just('parent'), st.sampled_from(NAMES)))


def kids(l): return () if isinstance(l[2], str) else l[2]


def cond_m(c, p):
    k, x = c
    nd = p[-1]
    if k == 'in': return nd[0] in x
    if k == 'anon': return nd[0][:1] == ':'
    if k == 'named': return nd[0][:1] != ':'
    if k == 'leaf': return not kids(nd)
    if k == 'ws': return not trees.content(nd).strip()
    if k == 'len': return len(p) == x
    if k == 'parent': return len(p) > 1 and p[-2][0] == x
    return True


def cond_r(c):
    from DHParser import transform as T
    k, x = c
    if k == 'in': return T.is_one_of(*x)
    if k == 'anon': return T.is_anonymous
    if k == 'named': return T.is_named
    if k == 'leaf': return T.neg(T.has_children)
    if k == 'ws': return T.contains_only_whitespace
    if k == 'len': return lambda p: len(p) == x
    if k == 'parent': return T.has_parent({x})
    return T.always


class Conflict(Exception): pass


def merged(dest, *srcs, over=None):
    d = dict(dest)
    for s in srcs:
        for k, v in s:
            if k in d and d[k] != v:
                if over is None: raise Conflict()
                if over is False: continue
            d[k] = v
    return tuple(d.items())


def fuse_anon(seq):
    out = []
    for n in seq:
        if out and not kids(n) and n[0][:1] == ':' and not kids(out[-1]) and out[-1][0][:1] == ':':
            out[-1] = (out[-1][0], out[-1][1], (out[-1][2] or '') + (n[2] or ''))
        else: out.append(n)
    return tuple(out)


def fuse(seq, sw):
    """seq: literals, sw: flags"""
    if not any(sw) and not any(kids(n) for n in seq): return ''.join(n[2] or '' for n in seq)
    out = []
    for n, s in zip(seq, sw):
        out.extend([n] if s else kids(n) if kids(n) else [(':Text', (), n[2] or '')])
    return fuse_anon(out)


def merge_run(run, sw, name):
    head = run[0]
    if len(run) == 1 and not sw[0]: return (head[0], head[1], fuse(run, sw))
    at = merged(() if sw[0] else head[1], *[n[1] for n, s in zip(run[1:], sw[1:]) if not s])
    return (name or head[0], at, fuse(run, sw))


# ---- the models: path of literals -> new literal for the last node, or ('parent', new literal of the parent)

def m_replace_single(p):
    l = p[-1]
    if len(kids(l)) != 1: return l
    c = kids(l)[0]
    return (c[0] if l[0][:1] == ':' or c[0][:1] != ':' else l[0], merged(l[1], c[1], over=True), c[2])


def m_reduce(p):
    l = p[-1]
    if len(kids(l)) != 1: return l
    c = kids(l)[0]
    return (l[0], merged(l[1], c[1], over=False), c[2])


def m_replace_or_reduce(p, cond=('named', 0)):
    l = p[-1]
    if len(kids(l)) != 1: return l
    return m_replace_single(p) if cond_m(cond, p + [kids(l)[0]]) else m_reduce(p)


def m_replace_by_children(p):
    if len(p) == 1: return m_replace_single(p)
    l, par = p[-1], p[-2]
    if not kids(l): return l
    i = [id(c) for c in kids(par)].index(id(l))
    return ('parent', (par[0], par[1], kids(par)[:i] + kids(l) + kids(par)[i + 1:]))


def m_swap_nested(p):
    l = p[-1]
    if len(kids(l)) != 1: return l
    c = kids(l)[0]
    return (c[0], c[1], ((l[0], l[1], c[2]),))


def m_flatten(p, cond=('anon', 0), recursive=True):
    l = p[-1]
    at, out = l[1], []
    for c in kids(l):
        if kids(c) and cond_m(cond, p + [c]):
            if recursive: c = m_flatten(p + [c], cond, True)
            out.extend(kids(c)); at = merged(at, c[1])
        else: out.append(c)
    return (l[0], at, tuple(out) if kids(l) else l[2])


def allattrs(l):
    d = {}
    for x in trees.walk(l): d.update(dict(x[1]))
    return d


def m_collapse(p):
    l = p[-1]
    return (l[0], tuple(allattrs(l).items()), trees.content(l))


def m_collapse_children_if(p, cond, name, rule='join'):
    l = p[-1]
    if not kids(l): return l
    out, pack = [], []
    def close():
        if pack:
            d = {}
            for n in pack: d.update(dict(n[1]))
            s = [trees.content(n) for n in pack]
            t = ''.join(s) if rule == 'join' else '!' if rule == 'fix' else max(s, key=len)
            out.append((name, tuple(d.items()), t))
            pack.clear()
    for c in kids(l):
        if cond_m(cond, p + [c]): pack.append(c)
        else: close(); out.append(c)
    close()
    return (l[0], l[1], tuple(out))


def m_merge_adjacent(p, cond, name, swallow=None):
    l = p[-1]
    out, run = [], []
    def close():
        if run: out.append(merge_run(run, [bool(swallow) and cond_m(swallow, [n]) for n in run], name if len(run) > 1 else ''))
        run.clear()
    for c in kids(l):
        if cond_m(cond, p + [c]): run.append(c)
        else: close(); out.append(c)
    close()
    return (l[0], l[1], tuple(out) if kids(l) else l[2])


def m_merge_connected(p, content, delim, cname, dname):
    l = p[-1]
    ch, i, out = kids(l), 0, []
    # 1. neighbouring delimiters are merged, 2. content-delimiter-content ... sequences
    items = []
    while i < len(ch):
        if ch[i][0] in delim:
            k = i
            while i < len(ch) and ch[i][0] in delim: i += 1
            items.append(('D', merge_run(ch[k:i], [False] * (i - k), dname if i - k > 1 else '')))
        else: items.append(('C' if ch[i][0] in content else '-', ch[i])); i += 1
    i = 0
    while i < len(items):
        if items[i][0] == 'C':
            k = i
            while i < len(items) and items[i][0] != '-': i += 1
            if items[i - 1][0] == 'D': i -= 1
            run = [x[1] for x in items[k:i]]
            m = merge_run(run, [False] * len(run), cname)
            out.append((cname or m[0],) + m[1:])
        else: out.append(items[i][1]); i += 1
    return (l[0], l[1], tuple(out) if ch else l[2])


def m_move_fringes(p, cond, side, merge):
    l = p[-1]
    if len(p) == 1 or not kids(l): return l
    par, ch = p[-2], kids(l)
    a, b = 0, len(ch)
    while side != 'right' and a < b and cond_m(cond, p + [ch[a]]): a += 1
    while side != 'left' and a < b and cond_m(cond, p + [ch[b - 1]]): b -= 1
    if a == 0 and b == len(ch): return l
    i = [id(c) for c in kids(par)].index(id(l))
    before, after = list(ch[:a]), list(ch[b:])
    left, right = list(kids(par)[:i]), list(kids(par)[i + 1:])
    if merge:
        pr, nx = [], []
        while left and cond_m(cond, p[:-1] + [left[-1]]): pr.insert(0, left.pop())
        while right and cond_m(cond, p[:-1] + [right[0]]): nx.append(right.pop(0))
        def join(seq, target):
            if len(seq) < 2: return seq
            if all(kids(n) for n in seq): res = fuse_anon([c for n in seq for c in kids(n)])
            elif not any(kids(n) for n in seq): res = ''.join(n[2] or '' for n in seq)
            else: return seq
            return [(target[0], merged(target[1], *[n[1] for n in seq if n is not target]), res)]
        before = join(pr + before, (before or pr or [None])[-1] if before else (pr or [None])[0])
        after = join(after + nx, after[0] if after else (nx or [None])[-1])
    return ('parent', (par[0], par[1], tuple(left + before + [(l[0], l[1], ch[a:b] or '')] + after + right)))


def m_pull_up(p):
    if len(p) <= 2: return p[-1]
    l, par, gp = p[-1], p[-2], p[-3]
    i = [id(c) for c in kids(par)].index(id(l)); j = [id(c) for c in kids(gp)].index(id(par))
    mid = ([(par[0], par[1], kids(par)[:i])] if i > 0 else []) + [(l[0], l[1], ((par[0], par[1], l[2]),))] \
        + ([(par[0], par[1], kids(par)[i + 1:])] if i + 1 < len(kids(par)) else [])
    return ('grandparent', (gp[0], gp[1], kids(gp)[:j] + tuple(mid) + kids(gp)[j + 1:]))


def m_insert(p, positions, name, text):
    l = p[-1]
    if not positions or (not kids(l) and l[2]): return l
    ch, L = list(kids(l)), len(kids(l))
    for n in sorted((min(L, x if x >= 0 else max(0, x + L)) for x in positions), reverse=True): ch.insert(n, (name, (), text))
    return (l[0], l[1], tuple(ch))


def ops():
    nm = st.sampled_from(NAMES)
    on = st.sampled_from(['', 'a', 'z'])
    names = st.lists(st.sampled_from(NAMES + ANON), min_size=1, max_size=3).map(tuple)
    side = st.sampled_from(['both', 'both', 'left', 'right'])
    return st.one_of(
        st.sampled_from([('replace_by_single_child',), ('reduce_single_child',), ('replace_by_children',), ('replace_or_reduce', None), ('swap_nested_nodes',),
                         ('collapse',), ('pull_up',), ('normalize_whitespace',), ('flatten', None, True)]),
        st.tuples(st.just('replace_or_reduce'), CONDS), st.tuples(st.just('change_name'), nm),
        st.tuples(st.just('replace_child_names'), st.dictionaries(st.sampled_from(NAMES + ANON), nm, max_size=3).map(lambda d: tuple(d.items()))),
        st.tuples(st.just('flatten'), CONDS, st.booleans()), st.tuples(st.just('flatten'), CONDS, st.booleans()),
        st.tuples(st.just('merge_adjacent'), st.sampled_from([('leaf', 0), ('yes', 0), ('named', 0)]), on, st.one_of(st.none(), names.map(lambda x: ('in', x)))),
        st.tuples(st.just('move_fringes'), st.sampled_from([('leaf', 0), ('ws', 0), ('anon', 0), ('named', 0)]), side, st.booleans()),
        st.tuples(st.just('collapse_children_if'), CONDS, nm, st.sampled_from(['join', 'join', 'longest', 'fix'])),
        st.tuples(st.just('merge_adjacent'), CONDS, on, st.one_of(st.none(), st.none(), names.map(lambda x: ('in', x)))),
        st.tuples(st.just('merge_adjacent'), CONDS, on, st.none()),
        st.tuples(st.just('merge_connected'), names, names, on, on),
        st.tuples(st.just('move_fringes'), CONDS, side, st.booleans()), st.tuples(st.just('move_fringes'), names.map(lambda x: ('in', x)), side, st.just(True)),
        st.tuples(st.sampled_from(['insert', 'insert_fn']), st.lists(st.sampled_from([0, 1, 2, 3, -1, -2, 99, 2**32]), max_size=3).map(tuple)),
        st.tuples(st.just('delimit_children'), st.just(0)), st.tuples(st.just('insert_at'), names),
        st.tuples(st.just('replace_content_with'), st.sampled_from(['', 'new'])), st.tuples(st.just('transform_result'), st.just(0)),
        st.tuples(st.just('add_attributes'), st.dictionaries(st.sampled_from(['k', 'n', 'new']), st.sampled_from(['v', '']), max_size=2).map(lambda d: tuple(d.items()))),
        st.tuples(st.just('del_attributes'), st.lists(st.sampled_from(['k', 'n', 'zz']), max_size=2).map(tuple)))


def real_op(op):
    from DHParser import transform as T
    k, a = op[0], op[1:]
    if len(op) == 1: return getattr(T, k)
    if k == 'replace_or_reduce': return T.replace_or_reduce(cond_r(a[0])) if a[0] else T.replace_or_reduce
    if k in ('change_name', 'replace_content_with'): return getattr(T, k)(a[0])
    if k == 'replace_child_names': return T.replace_child_names(dict(a[0]))
    if k == 'flatten': return T.flatten if a[0] is None else T.flatten(cond_r(a[0]), a[1])
    if k == 'collapse_children_if':
        rule = {'join': T.join_content, 'longest': T.pick_longest_content, 'fix': T.fix_content('!')}[a[2]]
        return T.collapse_children_if(cond_r(a[0]), a[1], rule)
    if k == 'merge_adjacent': return T.merge_adjacent(cond_r(a[0]), a[1]) if a[2] is None else T.merge_adjacent(cond_r(a[0]), a[1], swallow=cond_r(a[2]))
    if k == 'merge_connected': return T.merge_connected(T.is_one_of(*a[0]), T.is_one_of(*(set(a[1]) - set(a[0]) or {'-'})), a[2], a[3])
    if k == 'move_fringes': return T.move_fringes(cond_r(a[0]), side=a[1], merge=a[2])
    if k == 'insert': return T.insert(a[0] if len(a[0]) != 1 else a[0][0], T.node_maker('ins', '|'))
    if k == 'insert_fn': return T.insert(lambda path: a[0] or None, T.node_maker('ins', '|'))
    if k == 'insert_at': return T.insert(T.positions_of(*a[0]), T.node_maker('ins', '|'))
    if k == 'delimit_children': return T.delimit_children(T.node_maker('ins', '|'))
    if k == 'transform_result': return T.transform_result(lambda r: r if not isinstance(r, str) else r.upper())
    if k == 'add_attributes': return T.add_attributes(dict(a[0]))
    if k == 'del_attributes': return T.del_attributes(set(a[0]))
    raise KeyError(k)


def model_op(op, p):
    k, a, l = op[0], op[1:], p[-1]
    if k == 'replace_by_single_child': return m_replace_single(p)
    if k == 'reduce_single_child': return m_reduce(p)
    if k == 'replace_or_reduce': return m_replace_or_reduce(p, a[0] or ('named', 0))
    if k == 'replace_by_children': return m_replace_by_children(p)
    if k == 'swap_nested_nodes': return m_swap_nested(p)
    if k == 'change_name': return (a[0],) + l[1:]
    if k == 'replace_child_names': return (l[0], l[1], l[2] if not kids(l) else tuple((dict(a[0]).get(c[0], c[0]),) + c[1:] for c in kids(l)))
    if k == 'flatten': return m_flatten(p, a[0] or ('anon', 0), a[1])
    if k == 'collapse': return m_collapse(p)
    if k == 'collapse_children_if': return m_collapse_children_if(p, *a)
    if k == 'merge_adjacent': return m_merge_adjacent(p, *a)
    if k == 'merge_connected': return m_merge_connected(p, set(a[0]), set(a[1]) - set(a[0]), a[2], a[3])
    if k == 'move_fringes': return m_move_fringes(p, *a)
    if k == 'pull_up': return m_pull_up(p)
    if k in ('insert', 'insert_fn'): return m_insert(p, a[0], 'ins', '|')
    if k == 'insert_at': return m_insert(p, [i for i, c in enumerate(kids(l)) if c[0] in a[0]], 'ins', '|')
    if k == 'delimit_children': return m_insert(p, range(1, len(kids(l))), 'ins', '|')
    if k == 'replace_content_with': return (l[0], l[1], a[0])
    if k == 'transform_result': return l if kids(l) else (l[0], l[1], (l[2] or '').upper())
    if k == 'normalize_whitespace': return (l[0], l[1], (' ' if l[2] else '') if l[0] == ':Whitespace' else re.sub(r'\s+', ' ', l[2] or ''))
    if k == 'add_attributes': return (l[0], tuple({**dict(l[1]), **dict(a[0])}.items()), l[2])
    if k == 'del_attributes': return (l[0], tuple((x, y) for x, y in l[1] if a[0] and x not in a[0]), l[2])
    raise KeyError(k)


def canon(l):
    return (l[0], tuple(sorted(l[1])), l[2] if isinstance(l[2], str) else (tuple(canon(c) for c in l[2]) or ''))


def paths(l, p=()):
    """index-paths of all nodes"""
    yield p
    for i, c in enumerate(kids(l)): yield from paths(c, p + (i,))


def lits_on(l, ip):
    out = [l]
    for i in ip: out.append(kids(out[-1])[i])
    return out


def put(l, ip, new):
    if not ip: return new
    ch = list(kids(l))
    ch[ip[0]] = put(ch[ip[0]], ip[1:], new)
    return (l[0], l[1], tuple(ch))


def uniqify(l):
    """equal tuples could be one and the same object"""
    return tuple([l[0], tuple(list(l[1])), l[2] if isinstance(l[2], str) else tuple([uniqify(c) for c in l[2]])])


def expected(l, ip, op):
    l = uniqify(l)
    p = lits_on(l, ip)
    r = model_op(op, p)
    if r[0] == 'parent': return put(l, ip[:-1], r[1])
    if r[0] == 'grandparent': return put(l, ip[:-2], r[1])
    return put(l, ip, r)


def node_path(t, ip):
    out = [t]
    for i in ip: out.append(out[-1].children[i])
    return out


def outside(op, p):
    """cases that are not specified"""
    l = p[-1]
    if op[0] == 'normalize_whitespace': return bool(kids(l))
    if op[0] == 'collapse_children_if': return any(kids(c) and cond_m(op[1], p + [c]) for c in kids(l))
    if op[0] == 'merge_adjacent' and op[3]:   # a swallowed node without neighbours
        fl = [cond_m(op[1], p + [c]) for c in kids(l)]
        return any(f and cond_m(op[3], [c]) and not (i > 0 and fl[i - 1]) and not (i + 1 < len(fl) and fl[i + 1]) for i, (f, c) in enumerate(zip(fl, kids(l))))
    if op[0] in ('insert', 'insert_fn', 'insert_at'): return bool(not kids(l) and l[2]) or (op[0] != 'insert_at' and any(x < -len(kids(l)) for x in op[1]))
    return False


@prop(lambda: st.tuples(docs(), st.integers(0, 60), ops(), st.booleans()), quick=1200, shards=8)
def single(case, ctx):
    """one transformation at one node against its reference function: that node changes as prescribed, no other does"""
    from DHParser.nodetree import RootNode, tree_sanity_check
    l, k, op, withpos = case
    ips = list(paths(l))
    if op[0] in ('move_fringes', 'pull_up', 'replace_by_children', 'merge_adjacent', 'merge_connected', 'flatten', 'collapse_children_if', 'insert', 'replace_by_single_child',
                 'reduce_single_child', 'replace_or_reduce', 'swap_nested_nodes'):
        ips = [ip for ip in ips if kids(lits_on(l, ip)[-1])] or ips
    if op[0] in ('replace_by_single_child', 'reduce_single_child', 'replace_or_reduce', 'swap_nested_nodes'):
        ips = [ip for ip in ips if len(kids(lits_on(l, ip)[-1])) == 1] or ips
    if op[0] in ('normalize_whitespace',): ips = [ip for ip in ips if not kids(lits_on(l, ip)[-1])]
    if op[0] in ('pull_up',): ips = [ip for ip in paths(l) if len(ip) > 1] or ips
    if op[0] in ('move_fringes', 'replace_by_children'): ips = [ip for ip in ips if len(ip) > 0] or ips
    ip = ips[k % len(ips)]
    p = lits_on(l, ip)
    if outside(op, p): ctx.skip(op[0])
    t = trees.build(l)
    if withpos: t = RootNode(t); t.with_pos(0)
    path = node_path(t, ip)
    before = list(path)
    try: want = canon(expected(l, ip, op))
    except Conflict: want = None
    try: ret = real_op(op)(path)
    except ValueError as e:
        if want is None and 'onflict' in str(e): ctx.label('conflict'); return
        raise
    equal(ret, None, 'transformations return nothing')
    check(want is not None, 'conflicting attributes must be reported', op)
    equal(canon(trees.lit(t)), want, op, 'at', ip)
    check(all(a is b for a, b in zip(before, path)) and len(path) == len(before), 'the path is left as it was')
    check(tree_sanity_check(t), 'no node appears twice', op)
    if withpos:
        pos = 0
        for nd in t.select_if(lambda n: True, include_root=True):
            if op[0] not in ('replace_content_with', 'collapse_children_if', 'normalize_whitespace', 'insert', 'insert_fn', 'insert_at', 'delimit_children', 'swap_nested_nodes'):
                equal(nd.pos, pos, 'position of', nd.as_sxpr(), 'after', op)
            else: nd.pos
            if not nd.children: pos += nd.strlen()
    changed = want != canon(l)
    ctx.nontrivial(changed and trees.size(l) > 3)
    ctx.label(op[0], changed)


KEEP = [('replace_by_single_child',), ('reduce_single_child',), ('replace_or_reduce', None), ('flatten', None, True), ('swap_nested_nodes',)]


@prop(lambda: st.tuples(docs(), st.lists(st.tuples(st.sampled_from(NAMES + ANON + ['*', '*']), st.lists(ops(), min_size=1, max_size=3).map(tuple)),
                                         min_size=1, max_size=4, unique_by=lambda t: t[0]).map(tuple)), quick=700, shards=6)
def sequences(case, ctx):
    """tables of content-preserving transformations applied to the whole tree keep the text, attributes, errors and positions"""
    from DHParser.nodetree import RootNode, tree_sanity_check
    from DHParser.transform import traverse
    from DHParser.error import ErrorCode
    l, table = case
    bad = {'replace_content_with', 'transform_result', 'add_attributes', 'del_attributes', 'insert', 'insert_fn', 'insert_at', 'delimit_children', 'normalize_whitespace'}
    table = [(k, tuple(o for o in seq if o[0] not in bad and not (o[0] == 'collapse_children_if' and o[3] != 'join'))) for k, seq in table]
    # "should never be followed by move_fringes"
    fixed = []
    for k, seq in table:
        out = []
        for o in seq:
            if any(x[0] in ('replace_by_children', 'pull_up') for x in out) and o[0] in ('move_fringes', 'replace_by_children', 'pull_up'): continue
            if o[0] == 'pull_up': continue
            out.append(o)
        fixed.append((k, out))
    table = fixed
    used = {o[0] for _, seq in table for o in seq}
    t = RootNode(trees.build(l))
    t.with_pos(0)
    nodes = list(t.select_if(lambda n: True, include_root=True))
    for i, nd in enumerate(nodes): t.new_error(nd, f'E{i}', ErrorCode(1100 + i))
    attrs = sorted(allattrs(l).items())
    uniq = len(attrs) == sum(len(x[1]) for x in trees.walk(l))
    try: traverse(t, {k: [real_op(o) for o in seq] for k, seq in table})
    except AssertionError as e:
        if 'onflicting attribute' in str(e): check(not uniq, e); ctx.skip('conflict')
        raise
    equal(t.content, trees.content(l), 'content', used)
    check(tree_sanity_check(t), 'tree is sane')
    after = {id(n): n for n in t.select_if(lambda n: True, include_root=True)}
    equal(sorted(e.message for e in t.errors), sorted(f'E{i}' for i in range(len(nodes))), 'errors are kept')
    if used <= {o[0] for o in KEEP} | {'flatten', 'change_name'}:
        check(set(t.error_nodes) <= set(after), 'errors are attached to nodes of the tree', [e.message for i, es in t.error_nodes.items() if i not in after for e in es])
        ctx.label('transfer')
    if used <= {o[0] for o in KEEP} | {'change_name', 'replace_child_names', 'flatten', 'merge_adjacent', 'move_fringes', 'collapse'} and uniq \
            and not any(o[0] == 'merge_adjacent' and o[3] for _, s in table for o in s):
        anon_named = any(o[0] in ('replace_by_single_child', 'replace_or_reduce', 'change_name', 'replace_child_names', 'swap_nested_nodes') for _, s in table for o in s)
        if not (used & {'merge_adjacent', 'move_fringes'}) or not (anon_named or used & {'flatten', 'reduce_single_child'}):
            equal(sorted((k, v) for n in after.values() if n.has_attr() for k, v in n.attr.items()), attrs, 'attributes', table)
            ctx.label('attributes', bool(attrs))
    if not used & {'swap_nested_nodes', 'collapse_children_if'}:
        pos = 0
        for nd in t.select_if(lambda n: True, include_root=True):
            equal(nd.pos, pos, 'position of', nd.as_sxpr(), used)
            if not nd.children: pos += nd.strlen()
    ctx.nontrivial(trees.size(l) > 3 and canon(trees.lit(t)) != canon(l))


@prop(lambda: st.tuples(st.lists(st.tuples(st.sampled_from(['plus', 'minus', 'mul']), st.sampled_from(['n', 'm', 'grp'])), max_size=6).map(tuple), st.booleans()), quick=200, shards=2)
def associativity(case, ctx):
    """left_associative() and lean_left() yield the left-leaning tree with all operands in order"""
    from DHParser.nodetree import Node
    from DHParser.transform import left_associative, lean_left, traverse
    items, flat = case
    leaf = lambda i, n: Node(n, (Node('x', str(i)), Node('y', '')) if n == 'grp' else str(i))
    operands = [('n', 0)] + [(n, i + 1) for i, (_, n) in enumerate(items)]
    want = trees.lit(leaf(0, 'n'))
    for i, (o, n) in enumerate(items): want = (o, (), (want, trees.lit(leaf(i + 1, n))))
    if flat:
        ch = [leaf(0, 'n')]
        for i, (o, n) in enumerate(items): ch += [Node(o, '+'), leaf(i + 1, n)]
        t = Node('expr', tuple(ch)).with_pos(0)
        before = trees.lit(t)
        left_associative([t])
        equal(trees.lit(t), ('expr', (), (want,)) if items else before)
        equal([n.content for n in t.select_if(lambda n: not n.children)], [c for n, i in operands for c in ([str(i), ''] if n == 'grp' else [str(i)])])
    else:
        t = leaf(len(items), operands[-1][0])
        for i in range(len(items) - 1, -1, -1):
            t = Node(items[i][0], (leaf(i, operands[i][0]), t))
            t.attr['i'] = str(i)
        if not items: return
        traverse(t, {o: lean_left({'plus', 'minus', 'mul'}) for o in ('plus', 'minus', 'mul')})
        def strip(l): return (l[0], (), l[2] if isinstance(l[2], str) else tuple(strip(c) for c in l[2]))
        equal(strip(trees.lit(t)), want)
        def marks(l):
            for k, v in l[1]: yield int(v), l[0]
            for c in kids(l): yield from marks(c)
        equal(sorted(marks(trees.lit(t))), [(i, o) for i, (o, _) in enumerate(items)], 'attributes stay with their operator')
    ctx.nontrivial(len(items) > 1)


@prop(lambda: st.tuples(docs(), docs(), st.sampled_from([None, ('in', ('a', 'b')), ('leaf', 0)])), quick=200, shards=2)
def attributes(case, ctx):
    """swap_attributes(), update_attr() and update_attr_unless() move attributes (and errors) as documented"""
    from DHParser.nodetree import RootNode, Node
    from DHParser.transform import swap_attributes, update_attr, update_attr_unless
    la, lb, ex = case
    a, b = trees.build(la), trees.build(lb)
    swap_attributes(a, b)
    A, B = canon(trees.lit(a)), canon(trees.lit(b))
    equal((A, B), (canon((la[0], lb[1], la[2])), canon((lb[0], la[1], lb[2]))), 'swapped')
    swap_attributes(a, b)
    a.attr['q'] = '1'
    equal(canon(trees.lit(b)), canon(lb), 'nothing shared')
    del a.attr['q']
    for single in (True, False):
        root = RootNode(Node('root', (trees.build(la), trees.build(lb)))).with_pos(0)
        dest, src = root.children
        root.new_error(src, 'E')
        skip = ex and cond_m(ex, [lb])
        try: want = la[1] if skip else merged(la[1], lb[1])
        except Conflict: want = None
        try: update_attr_unless(dest, src if single else (src,), root, cond_r(ex) if ex else None)
        except ValueError: check(want is None, 'no conflict'); continue
        check(want is not None, 'conflict expected')
        equal(canon(trees.lit(dest)), canon((la[0], want, la[2])))
        equal(canon(trees.lit(src)), canon(lb), 'source unchanged')
        equal([e.message for e in root.error_nodes.get(id(dest if not skip else src), [])], ['E'], 'errors transferred')
    ctx.nontrivial(bool(la[1] or lb[1]))


@prop(lambda: st.tuples(docs(), st.integers(0, 30), st.sampled_from(['add', 'on', 'content', 'require', 'forbid', 'children', 'wrong']), CONDS), quick=250, shards=2)
def reports(case, ctx):
    """error-reporting transformations add errors to exactly the nodes that violate the condition and leave the tree as it is"""
    from DHParser.nodetree import RootNode
    from DHParser import transform as T
    l, k, kind, cond = case
    t = RootNode(trees.build(l)).with_pos(0)
    names = {'a', 'b', ':Text'}
    op = {'add': T.add_error('{name}|{content}|{pos}'), 'on': T.error_on(cond_r(cond), 'msg {name}'), 'content': T.assert_content(r'x|x y'), 'require': T.require(names),
          'forbid': T.forbid(names), 'children': T.assert_has_children, 'wrong': T.add_error('{nope}')}[kind]
    T.traverse(t, {'*': op})
    want = []
    def rec(p):
        l = p[-1]
        n = {'add': 1, 'on': int(cond_m(cond, p)), 'content': int(trees.content(l) not in ('x', 'x y')), 'require': sum(c[0] not in names for c in kids(l)),
             'forbid': sum(c[0] in names for c in kids(l)), 'children': int(not kids(l)), 'wrong': 1}[kind]
        got.append(n)
        for c in kids(l): rec(p + [c])
    got = []
    rec([l])
    nodes = list(t.select_if(lambda n: True, include_root=True))
    real = [len(t.error_nodes.get(id(n), [])) for n in nodes]
    # errors with the same code at the same position are reported but once
    check(all((r > 0) <= (n > 0) for r, n in zip(real, got)), kind, real, got)
    poss = {n.pos for n, g in zip(nodes, got) if g}
    equal({e.pos for e in t.errors}, poss, 'positions of the errors', kind)
    if kind == 'add':
        for e in t.errors:
            check(any(e.message == f'{n.name}|{n.content}|{n.pos}' for n in nodes if n.pos == e.pos), e.message)
    equal(canon(trees.lit(t)), canon(l), 'tree unchanged')
    ctx.nontrivial(bool(poss) and trees.size(l) > 3)
    ctx.label(kind)
