"""P29: the server-side text buffer follows every sequence of incremental edits."""
from hypothesis import strategies as st
from lib.pbt import prop, check, equal
from lib import gen, srcdict

RULE = ('random initial texts (LF or CRLF line ends), random histories of range edits, version updates, snapshots and '
        'line reads, compared with a list-of-lines reference and with plain string splicing; '
        'non-trivial: at least one edit with a non-empty range or multi-line replacement')
ASSUMPTIONS = ['edit ranges are ordered and name existing lines, as the protocol requires; columns may exceed the line']

line = st.one_of(gen.text_of('abc xy', 0, 6), gen.weird_text(0, 8).map(lambda s: s.replace('\n', '').replace('\r', '')),
                 gen.long_text(['stringview'], 'ab ', 120))
LONGN = srcdict.ints('stringview', limit=60)


def cases():
    frac = st.integers(0, 1000)
    edit = st.tuples(st.just('edit'), frac, st.integers(0, 12), frac, st.integers(0, 12),
                     st.lists(line, min_size=1, max_size=3), st.sampled_from(['\n', '\n', '\r\n']),
                     st.sampled_from(['text', 'newText']))
    return st.tuples(
        st.one_of(st.lists(line, min_size=1, max_size=6),
                  st.tuples(st.sampled_from(LONGN), line).map(lambda t: [t[1] + str(i) for i in range(t[0] or 1)])),
        st.sampled_from(['\n', '\n', '\r\n']),
        st.integers(-1, 5),
        st.lists(st.one_of(edit, edit,
                           st.tuples(st.just('batch'), st.lists(edit, min_size=1, max_size=4), st.integers(-1, 99)),
                           st.tuples(st.sampled_from(['snapshot', 'lines', 'str', 'len', 'read']))), min_size=1, max_size=7))


@prop(cases, quick=900, shards=8)
def history(case, ctx):
    from DHParser.stringview import TextBuffer, StringView
    lines, eol, version, ops = case
    text = eol.join(lines)
    tb = TextBuffer(text, version)
    model = list(lines)
    ver = max(version, 0)
    touched = False

    def norm(edit):
        _, l1, c1, l2, c2, repl, reol, key = edit
        L = len(model)
        l1, l2 = sorted((l1 * L // 1001, l2 * L // 1001))
        if l1 == l2 and min(c1, len(model[l1])) > min(c2, len(model[l1])):
            c1, c2 = c2, c1
        return l1, c1, l2, c2, repl, reol.join(repl), key

    def apply_model(l1, c1, l2, c2, repl):
        s = '\n'.join(model)
        off = lambda l, c: sum(len(x) + 1 for x in model[:l]) + min(c, len(model[l]))
        a, b = off(l1, c1), off(l2, c2)
        new = s[:a] + '\n'.join(repl) + s[b:]
        model[:] = new.split('\n')

    for op in ops:
        if op[0] == 'edit':
            l1, c1, l2, c2, repl, rtext, key = norm(op)
            ctx.nontrivial((l1, c1) != (l2, c2) or len(repl) > 1)
            tb.text_edits({'range': {'start': {'line': l1, 'character': c1}, 'end': {'line': l2, 'character': c2}}, key: rtext})
            apply_model(l1, c1, l2, c2, repl)
            ver += 1
            touched = True
        elif op[0] == 'batch':
            edits = []
            save = list(model)
            for e in op[1]:
                l1, c1, l2, c2, repl, rtext, key = norm(e)
                edits.append({'range': {'start': {'line': l1, 'character': c1}, 'end': {'line': l2, 'character': c2}}, key: rtext})
                apply_model(l1, c1, l2, c2, repl)
            tb.text_edits(edits, op[2])
            ver = op[2] if op[2] >= 0 else ver + len(edits)
            touched = True
            ctx.nontrivial(len(edits) > 1, 'batch')
        ref = '\n'.join(model)
        if op[0] == 'snapshot' or op[0] in ('edit', 'batch'):
            if touched:
                equal(str(tb.snapshot()), ref, 'snapshot after edits')
            else:
                equal(str(tb.snapshot()).replace('\r\n', '\n'), ref, 'snapshot')
        if op[0] == 'lines':
            equal(tb.lines(), len(model), 'number of lines')
        if op[0] == 'str':
            equal(str(tb).replace('\r\n', '\n'), ref, 'str')
        if op[0] == 'len':
            equal(len(tb), len(ref) if touched else len(text), 'len')
        if op[0] == 'read':
            equal([str(x) for x in tb[0:]], model, 'all lines')
            equal([str(x) for x in tb.buffer], model, 'buffer')
            equal(str(tb[len(model) - 1]), model[-1])
            equal([str(x) for x in tb[1:3]], model[1:3])
        equal(tb.version, ver, 'version')
    equal([str(x) for x in tb[0:]], model, 'final lines')
    if touched:
        tb2 = TextBuffer(text)
        equal(str(tb2).replace('\r\n', '\n'), '\n'.join(lines), 'an independent buffer is unaffected')


@prop(lambda: st.tuples(st.lists(line, min_size=1, max_size=5), st.integers(0, 1000), st.integers(0, 8), line), quick=400, shards=2)
def eol_on_export(case, ctx):
    from DHParser.stringview import TextBuffer
    lines, l, c, repl = case
    if len(lines) == 1 and not lines[0] and not repl: ctx.skip()
    tb = TextBuffer('\n'.join(lines))
    l = l * len(lines) // 1001
    tb.update(l, c, l, c, repl)
    k = min(c, len(lines[l]))
    model = lines[:l] + [lines[l][:k] + repl + lines[l][k:]] + lines[l + 1:]
    ctx.nontrivial(len(lines) > 1)
    equal(str(tb.snapshot('\r\n')), '\r\n'.join(model), 'export with CRLF')
