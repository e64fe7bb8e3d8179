"""P27: errors attached to trees.  Oracle: a list of (position, code, message) and an assignment of these to nodes."""
import copy
from hypothesis import strategies as st
from lib.pbt import prop, check, equal, raises
from lib import trees

CODES = [1, 99, 100, 110, 999, 1000, 1001, 1040, 9999, 10000, 10100]
OPS = st.one_of(
    st.tuples(st.just('new'), st.integers(0, 30), st.sampled_from(CODES)),
    st.tuples(st.just('new'), st.integers(0, 30), st.sampled_from(CODES)),
    st.tuples(st.just('limit'), st.integers(0, 30), st.sampled_from([100, 1000, 1001]), st.integers(1, 3)),
    st.tuples(st.just('add'), st.integers(0, 30), st.sampled_from(CODES), st.integers(0, 5)),
    st.tuples(st.just('pos'), st.integers(0, 40), st.sampled_from(CODES)),
    st.tuples(st.just('again'), st.integers(0, 10)),
    st.tuples(st.just('transfer'), st.integers(0, 30), st.integers(0, 30)),
    st.tuples(st.just('drop'), st.integers(0, 30)),
    st.tuples(st.just('copy'), st.integers(0, 1)))
def docs(): return trees.trees(names=['a', 'b', 'c'], anon=[':Text'], attr_names=[], content=st.sampled_from(['', 'x', 'yz', 'abc', '\n', 'l\nm']), size=15, depth=4)


@prop(lambda: st.tuples(docs(), st.lists(OPS, max_size=12), st.integers(0, 2)), quick=700, shards=8, rule='at least three errors on at least two nodes')
def histories(case, ctx):
    from DHParser import nodetree as N, error as E
    l, ops, early = case
    t = trees.build(l).with_pos(0)
    src = t.content
    own = {}            # id(node) -> list of model errors
    model = []          # (pos, code, message) in order of their occurrence
    keep = [t]          # prevents the recycling of ids
    serial = [0]

    def msg():
        serial[0] += 1
        return f'Error no {serial[0]}!'

    def put(root, node, pos, code):
        m = msg()
        err = E.Error(m, pos, E.ErrorCode(code))
        check(root.add_error(node, err) is root)
        if not any((p, c) == (pos, code) for p, c, _ in model):
            model.append((pos, code, m))
            return m
    if early:
        root = N.RootNode()
        for i in range(early):
            nd = list(t.walk_tree(include_root=True))[-i]
            m = put(root, nd, nd.pos, 1000 + i)
            if m: own.setdefault(id(nd), []).append(m)
        root.swallow(t, src)
        if id(t) in own: own[id(root)] = own.pop(id(t))
    else: root = N.RootNode(t, src)
    lines = src.split('\n')

    def verify(root, full=True):
        equal([(e.pos, e.code, e.message) for e in root.errors], model, 'errors')
        equal([(e.pos, e.code, e.message) for e in root.errors_sorted], sorted(model, key=lambda x: x[0]), 'errors_sorted')
        equal(root.error_flag, max([c for _, c, _ in model], default=0), 'error_flag')
        equal(root.did_match(), not any(c == 1040 for _, c, _ in model), 'did_match')
        for level in (1, 100, 1000, 1001, 10000):
            hit = [x for x in model if x[1] >= level]
            equal(bool(raises(lambda: root.error_safe(E.ErrorCode(level)), AssertionError)), bool(hit), 'error_safe', level)
            equal([(e.pos, e.code, e.message) for e in E.only_errors(root.errors, E.ErrorCode(level))], hit); equal(E.has_errors(root.errors, E.ErrorCode(level)), bool(hit))
        for e in root.errors:
            upto = src[:e.pos].split('\n')
            equal((e.line, e.column, e.orig_pos), (len(upto), len(upto[-1]) + 1, e.pos), 'location of error', e.pos)
            equal((E.is_warning(e), E.is_error(e), E.is_fatal(e)), (e.code < 1000, e.code >= 1000, e.code >= 10000))
            equal(e.severity, ['Notice', 'Warning', 'Error', 'Fatal'][(e.code >= 100) + (e.code >= 1000) + (e.code >= 10000)])
        nodes = list(root.walk_tree(include_root=True)); connected = {id(n) for n in nodes}
        orphans = [m for i, ms in own.items() if i not in connected for m in ms]
        where = {m: p for p, _, m in model}
        for n in nodes:
            mine = [m for m in own.get(id(n), []) if n.pos <= where[m] < n.pos + max(len(n.content), 1)]
            got = [e.message for e in root.node_errors(n)]
            check(len(set(got)) == len(got), 'error shown twice', got)
            inrange = any(n.pos <= where[m] < n.pos + max(len(n.content), 1) for m in own.get(id(n), []))
            if inrange: equal(sorted(m for m in got if m not in orphans), sorted(own[id(n)]), 'errors of node', trees.show(trees.lit(n)), own)
            else: equal([m for m in got if m not in orphans], [], 'foreign errors on node', trees.show(trees.lit(n)), own)

    def renumber(m, new):       # the limit-option amends a message
        for i, (p, c, mm) in enumerate(model):
            if mm == m: model[i] = (p, c, new)
        for ms in own.values():
            if m in ms: ms[ms.index(m)] = new

    for op in ops:
        nodes = list(root.walk_tree(include_root=True))
        kind = op[0]
        if kind == 'new':
            nd = nodes[op[1] % len(nodes)]
            m = msg()
            root.new_error(nd, m, E.ErrorCode(op[2]))
            if not any((p, c) == (nd.pos, op[2]) for p, c, _ in model):
                model.append((nd.pos, op[2], m)); own.setdefault(id(nd), []).append(m)
        elif kind == 'limit':
            nd = nodes[op[1] % len(nodes)]
            m = msg()
            have = [x for x in model if x[1] == op[2]]
            root.new_error(nd, m, E.ErrorCode(op[2]), limit=op[3])
            if len(have) < op[3]:
                if not any((p, c) == (nd.pos, op[2]) for p, c, _ in model):
                    model.append((nd.pos, op[2], m)); own.setdefault(id(nd), []).append(m)
            else:
                last = sorted(have, key=lambda x: x[0])[-1]
                new = [e for e in root.errors if (e.pos, e.code) == last[:2]][0].message
                check(new.startswith(last[2]) and 'suppressed' in new and new.count('suppressed') == 1, 'suppressed errors not mentioned', new)
                renumber(last[2], new)
        elif kind == 'add':
            nd = nodes[op[1] % len(nodes)]
            pos = min(nd.pos + op[3], max(nd.pos, nd.pos + len(nd.content) - 1))
            m = put(root, nd, pos, op[2])
            if m: own.setdefault(id(nd), []).append(m)
        elif kind == 'pos':
            pos = op[1] % (len(src) + 1)
            m = put(root, None, pos, op[2])
            if m:
                hit = [n for n in nodes if not n.children and n.pos <= pos < n.pos + len(n.content)]
                at = [i for i, es in root.error_nodes.items() if any(e.message == m for e in es)]
                equal(len(at), 1, 'error without node')
                if hit and len(nodes) > 1: equal(at[0], id(hit[0]), 'error located at the wrong leaf')
                check(at[0] in {id(n) for n in nodes}, 'error located at a foreign node')
                own.setdefault(at[0], []).append(m)
        elif kind == 'again':
            if root.errors:
                e = root.errors[op[1] % len(root.errors)]
                root.add_error(root, e)
        elif kind == 'transfer':
            a, b = nodes[op[1] % len(nodes)], nodes[op[2] % len(nodes)]
            root.transfer_errors(a, b)
            if a is not b and id(a) in own: own.setdefault(id(b), []).extend(own.pop(id(a)))
        elif kind == 'drop':
            par = [n for n in nodes if len(n.children) > 1]
            if par:
                p = par[op[1] % len(par)]
                k = op[1] % len(p.children)
                keep.append(p.children[k])
                p.result = p.children[:k] + p.children[k + 1:]
        elif kind == 'copy':
            dup = copy.deepcopy(root)
            keep.append(root)
            ids = {id(a): id(b) for a, b in zip(nodes, dup.walk_tree(include_root=True))}
            if op[1]:        # continue with the copy: the original keeps its errors
                before = [(e.pos, e.code, e.message) for e in root.errors]
                old, root = root, dup
                own = {ids.get(i, i): list(ms) for i, ms in own.items()}
                dup.new_error(dup, 'only on the copy', E.ErrorCode(1999))
                equal([(e.pos, e.code, e.message) for e in old.errors], before, 'error of the copy shows in the original')
                if not any((p, c) == (dup.pos, 1999) for p, c, _ in model):
                    model.append((dup.pos, 1999, 'only on the copy')); own.setdefault(id(dup), []).append('only on the copy')
                old.new_error(old, 'only on the original', E.ErrorCode(1998))
            else:            # continue with the original
                dup.new_error(dup, 'only on the copy', E.ErrorCode(1998))
        verify(root)
        ctx.label(kind)
    verify(root)
    ctx.nontrivial(len(model) > 2 and len(own) > 1)
