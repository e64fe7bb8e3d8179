"""P31: tree-traversal with transformation-tables.  Oracle: a plain recursive traversal over the tree that looks up the
(uncompacted) table at every node; every transformation records the path it has been called with."""
from hypothesis import strategies as st
from lib.pbt import prop, check, equal, raises
from lib import trees

RULE = 'tree with at least three nodes and at least two calls of a transformation'
NAMES = ['a', 'b', 'c', 'd']
ANON = [':Text', ':Whitespace', ':x']
KEYS = NAMES + ANON + ['*', '<', '>', '~', 'zz', '<<<', '>>>']
FILTERS = ['CHILDREN', 'LEAVES', 'ANON']


def docs(**kw):
    return trees.trees(names=NAMES, anon=ANON, content=st.sampled_from(['', 'x', 'y', 'xy', ' ', '1']), attr_names=None, size=20, depth=4, mind=1, minw=1, **kw)


def conditions():
    base = st.one_of(st.tuples(st.just('name'), st.sampled_from(NAMES + ANON)), st.tuples(st.just('depth'), st.integers(1, 4)),
                     st.sampled_from([('leaf', 0), ('anon', 0), ('x', 0), ('yes', 0), ('no', 0)]))
    return st.recursive(base, lambda c: st.one_of(st.tuples(st.just('neg'), c), st.tuples(st.sampled_from(['any', 'all']), st.lists(c, min_size=1, max_size=3).map(tuple)),
                                                  st.tuples(st.just('tv'), c, c)), max_leaves=4)


def transformations(rich=True):
    base = st.one_of(st.tuples(st.just('rec'), st.integers(0, 3)), st.tuples(st.just('rec'), st.integers(4, 9)),
                     st.tuples(st.just('rename'), st.sampled_from(NAMES)),
                     st.sampled_from([('pop', 0), ('append', 0), ('clear', 0), ('dissolve', 0), ('rev', 0)]))
    if not rich: return base
    seq = st.lists(base, min_size=1, max_size=3).map(tuple)
    cond = conditions()
    return st.one_of(base, base, st.tuples(st.sampled_from(['if', 'unless']), seq, cond), st.tuples(st.just('ifelse'), seq, seq, cond),
                     st.tuples(st.just('local'), st.lists(st.tuples(st.sampled_from(NAMES + ['*', '<']), seq), max_size=3, unique_by=lambda t: t[0]).map(tuple)))


@st.composite
def tables(draw, special=True):
    """tuple of (keys, filters, transformations, container)"""
    keys = draw(st.lists(st.sampled_from(KEYS if special else NAMES + ANON + ['*']), unique=True, max_size=8))
    if '~' in keys and ':Whitespace' in keys: keys.remove('~')
    out = []
    while keys:
        n = 1 if keys[0][0] in '<>*' else draw(st.integers(1, min(3, len(keys))))
        grp = keys[:n]
        if any(k[0] in '<>*' for k in grp[1:]): grp = grp[:1]
        keys = keys[len(grp):]
        fl = ()
        if grp[0] not in ('>', '<<<', '>>>'):
            fl = draw(st.one_of(st.just(()), st.just(()), st.lists(st.sampled_from(FILTERS[1:] if grp[0] == '<' else FILTERS), max_size=2, unique=True).map(tuple)))
        ts = draw(st.lists(transformations(), max_size=3).map(tuple))
        cont = draw(st.sampled_from(['list', 'list', 'tuple', 'single']))
        out.append((tuple(grp), fl, ts, cont))
    return tuple(out)


def cond_model(c, path):
    k = c[0]
    if k == 'name': return path[-1].name == c[1]
    if k == 'depth': return len(path) == c[1]
    if k == 'leaf': return not path[-1].children
    if k == 'anon': return path[-1].name[0] == ':'
    if k == 'x': return 'x' in path[-1].content
    if k == 'yes': return True
    if k == 'no': return False
    if k == 'neg':
        v = cond_model(c[1], path)
        return None if v is None else not v
    if k == 'any': return any([cond_model(x, path) for x in c[1]])
    if k == 'all': return all([cond_model(x, path) for x in c[1]])
    return True if cond_model(c[1], path) else False if cond_model(c[2], path) else None


def cond_real(c):
    from DHParser import transform as T
    k = c[0]
    if k == 'name': return T.is_one_of(c[1])
    if k == 'anon': return T.is_anonymous
    if k == 'yes': return T.always
    if k == 'no': return T.never
    if k == 'neg': return T.neg(cond_real(c[1]))
    if k == 'any': return T.any_of(*[cond_real(x) for x in c[1]])
    if k == 'all': return T.all_of(*[cond_real(x) for x in c[1]])
    if k == 'tv': return T.three_valued(cond_real(c[1]), cond_real(c[2]))
    return lambda path: cond_model(c, path)


def primitive(t, path, log):
    from DHParser.nodetree import Node
    node = path[-1]
    k, x = t
    if k == 'rec': log.append((x, tuple(log.ids.get(id(n), n.name) for n in path), node.name, node.content))
    elif k == 'rename': node.name = x
    elif k == 'pop':
        if node.children: node.result = node.children[1:] or ''
    elif k == 'append':
        if node.children: log.keep.append(Node('b', 'x')); node.result = node.children + (log.keep[-1],)
    elif k == 'clear': node.result = node.content
    elif k == 'rev':
        if node.children: node.result = tuple(reversed(node.children))
    elif k == 'dissolve' and len(path) > 1 and node.children:
        ch = path[-2].children
        i = [id(n) for n in ch].index(id(node)) if any(n is node for n in ch) else -1
        if i >= 0: path[-2].result = ch[:i] + node.children + ch[i + 1:]


class Log(list):
    def start(self, tree):
        self.keep = getattr(self, 'keep', [])
        self.keep.append(tree)
        self.ids = {}
        def number(n):
            self.ids[id(n)] = len(self.ids)
            for c in n.children: number(c)
        number(tree)
        self.keep.extend(list(tree.select_if(lambda n: True, include_root=True)))


def real(t, log):
    from DHParser import transform as T
    k = t[0]
    if k in ('if', 'unless', 'ifelse'):
        s = [(real(x[0], log) if len(x) == 1 else tuple(real(y, log) for y in x)) for x in t[1:-1]]
        f = {'if': T.apply_if, 'unless': T.apply_unless, 'ifelse': T.apply_ifelse}[k]
        return f(*s, cond_real(t[-1]))
    if k == 'local': return T.traverse_locally({key: [real(x, log) for x in seq] for key, seq in t[1]})
    return lambda path: primitive(t, path, log)


def run(t, path, log):
    k = t[0]
    if k in ('if', 'unless', 'ifelse'):
        v = cond_model(t[-1], path)
        if v is None: raise AssertionError('Condition')
        seq = t[1] if bool(v) == (k != 'unless') else (t[2] if k == 'ifelse' else ())
        for x in seq: run(x, path, log)
    elif k == 'local':
        ref(path[-1], {key: ((), seq) for key, seq in t[1]}, log)
    else: primitive(t, path, log)


def filtered(children, fl):
    if 'CHILDREN' in fl: return ()
    if 'LEAVES' in fl: children = [c for c in children if c.children]
    if 'ANON' in fl: children = [c for c in children if c.children or c.name[0] != ':']
    return tuple(children)


def ref(tree, table, log):
    def rec(path):
        node = path[-1]
        key = node.name
        f1, pre = table.get('<', ((), ()))
        f2, main = table.get(key, table.get('*', ((), ())))
        post = table.get('>', ((), ()))[1]
        for c in filtered(node.children, f1 + f2): rec(path + [c])
        for t in pre + main + post: run(t, path, log)
    for t in table.get('<<<', ((), ()))[1]: run(t, [tree], log)
    rec([tree])
    for t in table.get('>>>', ((), ()))[1]: run(t, [tree], log)


def real_table(table, log, split=False):
    from DHParser import transform as T
    fs = {'CHILDREN': T.BLOCK_CHILDREN, 'LEAVES': T.BLOCK_LEAVES, 'ANON': T.BLOCK_ANONYMOUS_LEAVES}
    out = {}
    for keys, fl, ts, cont in table:
        seq = [fs[f] for f in fl] + [real(t, log) for t in ts]
        v = seq[0] if cont == 'single' and len(seq) == 1 else tuple(seq) if cont == 'tuple' else seq
        for k in (keys if split else [', '.join(keys)]): out[k] = v
    return out


def model_table(table):
    out = {}
    for keys, fl, ts, cont in table:
        for k in keys: out[':Whitespace' if k == '~' else k] = (fl, ts)
    return out


def compare(lits, table, ctx, split):
    from DHParser.transform import traverse
    rlog, mlog = Log(), Log()
    rt = real_table(table, rlog, split)
    mt = model_table(table)
    for n, l in enumerate(lits):
        a, b = trees.build(l), trees.build(l)
        rlog.start(a); mlog.start(b)
        rexc = mexc = None
        try: ref(b, mt, mlog)
        except AssertionError as e: mexc = e
        try: equal(traverse(a, rt), a, 'result of traverse')
        except AssertionError as e: rexc = e
        if (rexc is None) != (mexc is None): raise rexc or AssertionError('no error although the condition is undecided')
        equal(rlog, mlog, 'calls', f'(tree {n})' )
        equal(trees.lit(a), trees.lit(b), 'tree', n)
        ctx.label('error', mexc is not None)
        if mexc: break
    return mlog


@prop(lambda: st.tuples(st.lists(docs(), min_size=1, max_size=3).map(tuple), tables(), st.booleans()), quick=900, shards=8)
def tables_(case, ctx):
    lits, table, split = case
    log = compare(lits, table, ctx, split)
    ctx.nontrivial(trees.size(lits[0]) > 2 and len(log) > 1)
    ctx.label('filters', any(f for _, f, _, _ in table))
    ctx.label('compound', any(len(k) > 1 for k, *_ in table) and not split)


@prop(lambda: st.tuples(docs(), tables(special=False), st.sampled_from(['content', 'upper', 'leaf'])), quick=250, shards=4)
def key_func(case, ctx):
    """traverse() with another key-function addresses nodes through that key"""
    from DHParser.transform import traverse, transformer
    from DHParser.nodetree import RootNode
    l, table, kind = case
    table = tuple((k, f, tuple(t if t[0] == 'rec' else ('rec', i) for i, t in enumerate(ts)), c) for k, f, ts, c in table)
    kf = {'content': lambda n: n.content, 'upper': lambda n: {'a': 'b', 'b': 'c', 'c': 'd', 'd': 'a'}.get(n.name, n.name),
          'leaf': lambda n: 'a' if n.children else 'b'}[kind]
    rlog, mlog = Log(), Log()
    a, b = RootNode(trees.build(l)), trees.build(l)
    mt = model_table(table)
    rlog.start(a); mlog.start(b)
    def rec(path):
        fl, seq = mt.get(kf(path[-1]), mt.get('*', ((), ())))
        for c in filtered(path[-1].children, fl): rec(path + [c])
        for t in seq: run(t, path, mlog)
    rec([b])
    a.stage = 'CST'
    check(transformer(a, real_table(table, rlog), kf, 'cst', 'AST') is a, 'same root returned')
    equal(a.stage, 'AST')
    equal(rlog, mlog, 'calls', kind)
    check(raises(lambda: transformer(a, real_table(table, rlog), kf, 'cst', 'AST'), ValueError), 'wrong stage is refused')
    ctx.nontrivial(trees.size(l) > 2 and len(mlog) > 1)


@prop(lambda: docs(), quick=250, shards=2)
def treetops(case, ctx):
    """merge_treetops() merges exactly those branches all children of which are anonymous leaves"""
    from DHParser.transform import merge_treetops
    def model(l):
        n, a, r = l
        if isinstance(r, str) or not r: return l
        if all(not (c[2] and not isinstance(c[2], str)) and c[0][0] == ':' for c in r): return (n, a, ''.join(trees.content(c) for c in r))
        return (n, a, tuple(model(c) for c in r))
    t = trees.build(case)
    merge_treetops(t)
    equal(trees.lit(t), trees.norm(model(case)))
    ctx.nontrivial(model(case) != case and trees.size(case) > 2)


@prop(lambda: st.tuples(st.lists(st.tuples(st.lists(st.sampled_from(NAMES + ['e', 'f', 'g']), min_size=1, max_size=3, unique=True).map(tuple), st.integers(0, 9)), max_size=5).map(tuple),
                        st.sampled_from([', ', ',', '; ', ' ', 'tuple'])), quick=250, shards=1)
def expansion(case, ctx):
    """compact tables are expanded key by key; doubly used keys are refused"""
    from DHParser.toolkit import expand_table
    rows, sep = case
    compact = {(k if sep == 'tuple' else sep.join(k)): v for k, v in rows}
    want, dup = {}, False
    for ks, v in compact.items():
        for k in ks if sep == 'tuple' else ks.replace(';', ' ').replace(',', ' ').split():
            dup |= k in want
            want[k] = v
    if dup: check(raises(lambda: expand_table(compact), KeyError), 'duplicate key must be refused')
    else: equal(expand_table(compact), want)
    ctx.nontrivial(len(want) > 2)
    ctx.label('dup', dup)
