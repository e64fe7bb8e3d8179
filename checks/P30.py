"""P30: positions, lines, columns and ranges of errors."""
import os
import re
from hypothesis import strategies as st
from lib.pbt import prop, check, equal, raises
from lib import gen

RULE = ('random texts with many line breaks (none, leading, trailing, consecutive, at the end; CR and unicode line separators, '
        'which are no line breaks), every position of short texts and random ones of long texts, random errors of all severities and '
        'lengths, compared with counting; non-trivial: the text contains a line break')
ASSUMPTIONS = ['the line break belongs to the line it terminates; the position after the last character is a legal position',
               'length 0 of an error at the very end of the text is by design']

LINEY = st.one_of(
    gen.text_of('ab\n', 0, 14), gen.text_of('\na', 0, 10), gen.text_of('a \n\r\u2028\x0bä', 0, 16),
    gen.weird_text(0, 30), gen.text_of(['\n', 'some words', ' ', 'x', '\n\n'], 0, 40),
    gen.long_text(['toolkit', 'error'], 'ab \n\nxy', 600))


def ref_line_col(text, pos):
    line, col = 1, 1
    for ch in text[:pos]:
        if ch == '\n':
            line, col = line + 1, 1
        else:
            col += 1
    return line, col


def where(text, nums, limit=60):
    if len(text) <= limit:
        return list(range(len(text) + 1))
    ps = {0, len(text), len(text) - 1}
    for n in nums:
        p = n % (len(text) + 1)
        ps |= {p, text.find('\n', p), text.find('\n', p) + 1}
    return sorted(p for p in ps if p >= 0)


@prop(lambda: st.tuples(LINEY, st.lists(st.integers(0, 10 ** 6), min_size=1, max_size=8), st.booleans()), quick=1500, shards=4)
def conversion(case, ctx):
    from DHParser.toolkit import linebreaks, line_col, text_pos
    from DHParser.stringview import StringView
    text, nums, view = case
    src = StringView('##\n' + text + '\nxx')[3:3 + len(text)] if view else text
    lbreaks = list(linebreaks(src))
    ctx.nontrivial('\n' in text)
    ctx.label('view' if view else 'str')
    for pos in where(text, nums):
        lc = line_col(lbreaks, pos)
        equal(tuple(lc), ref_line_col(text, pos), 'line_col', pos=pos)
        equal(text_pos(src, lc[0], lc[1]), pos, 'text_pos(line_col)', lc=lc)
        equal(text_pos(src, lc[0], lc[1], lbreaks), pos, 'text_pos with lbreaks', lc=lc)
    for bad in (-1, -2, len(text) + 1, len(text) + 7):
        check(raises(lambda: line_col(lbreaks, bad), ValueError), 'line_col of a position outside the text', bad=bad)
    n = text.count('\n') + 1
    for l, c in ((n + 1, 1), (n + 2, 1), (n, len(text) + 2), (n + 7, 3)):
        for got in (text_pos(src, l, c), text_pos(src, l, c, lbreaks)):
            equal(got, -1, 'text_pos beyond the text', l=l, c=c)
    equal(list(linebreaks(src)), lbreaks, 'linebreaks, asked again')


CODES = [1, 50, 55, 99, 100, 120, 610, 720, 999, 1000, 1010, 1040, 1560, 9999, 10000, 10100, 10600]
NAMES = ['', 'doc.dsl', 'sub/doc.dsl', '../doc.dsl', '/tmp/x.dsl', 'UNKNOWN_FILE', 'CWD/doc.dsl', 'CWD/sub/a.b', 'CWDx/doc.dsl',
         'CWD', 'a:b.dsl', 'C:/x/y.dsl', 'file.dsl', 'no file name * <>', 'ä ö.txt']
MSG = st.one_of(st.sampled_from(['wrong', 'a: b', '', '12:34: Error (1): x', '%s {0} {a', 'multi\nline']), gen.weird_text(0, 12))

err = st.tuples(st.integers(0, 10 ** 6), st.sampled_from(CODES), st.one_of(st.integers(1, 5), st.integers(1, 700)), MSG)


def severity(code):
    return 'Notice' if code < 100 else 'Warning' if code < 1000 else 'Error' if code < 10000 else 'Fatal'


@prop(lambda: st.tuples(LINEY, st.lists(err, min_size=1, max_size=6), st.sampled_from(NAMES), st.integers(0, 9)), quick=1500, shards=4)
def locations(case, ctx):
    from DHParser.error import (Error, ErrorCode, add_source_locations, canonical_error_strings, is_error, is_fatal, is_warning,
                                error_category, has_errors, only_errors)
    from DHParser.preprocess import gen_neutral_srcmap_func, SourceLocation
    text, errs, name, shift = case
    cwd = os.getcwd()
    name = name.replace('CWD', cwd)
    # the text that has been parsed is the original text with a prefix, the mapping takes the prefix away again
    prefix = '\n' * (shift % 3) + 'p' * shift
    if shift:
        mapping = lambda pos: SourceLocation(name, text, pos - len(prefix))
    else:
        mapping = gen_neutral_srcmap_func(text, name)
    L = len(text)
    es = []
    for p, code, length, msg in errs:
        es.append(Error(msg, p % (L + 1) + len(prefix), ErrorCode(code), length=length))
    add_source_locations(es, mapping)
    ctx.nontrivial('\n' in text)
    strs = canonical_error_strings(es)
    equal(len(strs), len(es), 'one string for each error')
    for rnd in range(2):
        for e, (p, code, length, msg), cs in zip(es, errs, strs):
            p %= L + 1
            equal(e.orig_pos, p, 'orig_pos')
            equal(e.orig_doc, name or ('' if shift else 'UNKNOWN_FILE'), 'orig_doc')
            lc = ref_line_col(text, p)
            equal((e.line, e.column), lc, 'line and column')
            end = min(p + length, L)
            equal((e.end_line, e.end_column), ref_line_col(text, end), 'end of the range', p=p, length=length)
            equal(e.length, end - p, 'length')
            ro = e.range_obj()
            el = ref_line_col(text, end)
            equal(ro, {'start': {'line': lc[0] - 1, 'character': lc[1] - 1}, 'end': {'line': el[0] - 1, 'character': el[1] - 1}}, 'range_obj')
            d = e.diagnostic_obj()
            equal((d['range'], d['code'], d['message'], d['severity']), (ro, code, msg, {'Notice': 3, 'Warning': 2}.get(severity(code), 1)), 'diagnostic')
            equal(e.severity, severity(code), 'severity')
            tail = '%i:%i: %s (%i): %s' % (lc[0], lc[1], severity(code), code, msg)
            known = name and name != 'UNKNOWN_FILE'
            equal(str(e), (name + ':' if known else '') + tail, 'str(error)')
            check(cs.endswith(tail), 'canonical error string lacks the location', got=cs, expected_tail=tail, name=name)
            rel = cs[:len(cs) - len(tail)]
            if known:
                check(rel[-1:] == ':', 'name and location are not separated', got=cs)
                check(os.path.abspath(rel[:-1]) == os.path.abspath(name), 'the canonical string names another file',
                      got=rel[:-1], name=name)
                if name.startswith(cwd + '/'):
                    equal(rel[:-1], name[len(cwd) + 1:], 'path relative to the working directory')
            else:
                check(rel in ('', 'UNKNOWN_FILE:'), 'unexpected file name', got=rel)
            equal((is_warning(e), is_error(e), is_fatal(e)), (code < 1000, code >= 1000, code >= 10000), 'predicates')
            equal((is_warning(code), is_error(code), is_fatal(code)), (code < 1000, code >= 1000, code >= 10000), 'predicates on codes')
            equal(error_category(e), error_category(ErrorCode(code)), 'category')
            equal(error_category(e), {'Notice': 'notices', 'Warning': 'warnings', 'Error': 'errors', 'Fatal': 'fatal errors'}[severity(code)],
                  'category')
        add_source_locations(es, mapping)       # must not change anything
    for lv in (1, 100, 1000, 10000):
        codes = [c for _, c, _, _ in errs]
        equal([int(e.code) for e in only_errors(es, ErrorCode(lv))], [c for c in codes if c >= lv], 'only_errors', level=lv)
        equal(has_errors(es, ErrorCode(lv)), any(c >= lv for c in codes), 'has_errors', level=lv)
    # moving an error invalidates its location, until it is located anew
    e = es[0]
    p2 = errs[-1][0] // 2 % (L + 1)
    e.pos = p2 + len(prefix)
    add_source_locations([e], mapping)
    equal((e.line, e.column, e.orig_pos), ref_line_col(text, p2) + (p2,), 'location after the position changed')


@prop(lambda: st.tuples(LINEY, st.integers(0, 10 ** 6)), quick=800, shards=2)
def visualize(case, ctx):
    from DHParser.error import Error, ErrorCode
    text, n = case
    ctx.nontrivial('\n' in text)
    for pos in where(text, [n], 20):
        line, col = ref_line_col(text, pos)
        out = Error('msg', pos, ErrorCode(1000)).visualize(text)
        equal(out, text.split('\n')[line - 1] + '\n' + ' ' * (col - 1) + '^\n', 'visualize', pos=pos)


piece = gen.text_of(['a', '\n', 'bc ', '\n\n', 'ä'], 0, 6)


@prop(lambda: st.tuples(st.lists(piece, min_size=1, max_size=6), st.lists(err, max_size=4), st.integers(0, 5)), quick=800, shards=4)
def in_trees(case, ctx):
    """Errors that are attached to trees are located, and the serializations report position, line and column of the nodes."""
    from DHParser.error import ErrorCode
    from DHParser.nodetree import Node, RootNode
    pieces, errs, k = case
    text = ''.join(pieces)
    leaves = [Node('leaf', p) for p in pieces]
    tree = RootNode(Node('doc', tuple(leaves[:k]) + ((Node('sub', tuple(leaves[k:])),) if k < len(leaves) else ())), source=text)
    tree.with_pos(0)
    starts, p = [], 0
    for s in pieces:
        starts.append(p)
        p += len(s)
    ctx.nontrivial('\n' in text and len(pieces) > 1)
    from DHParser.preprocess import gen_neutral_srcmap_func
    tree.source_mapping = gen_neutral_srcmap_func(text)
    for q, code, length, msg in errs:
        i = q % len(leaves)
        tree.new_error(leaves[i], msg, ErrorCode(code))
    seen = {}
    for q, code, length, msg in errs:
        seen.setdefault((starts[q % len(leaves)], code), msg)
    equal(sorted((e.pos, int(e.code)) for e in tree.errors), sorted(seen), 'errors of the tree')
    for e in tree.errors:
        equal((e.line, e.column), ref_line_col(text, e.pos), 'location', pos=e.pos)
    plain = tree.as_sxpr(src=text, compact=False, flatten_threshold=0)
    nodes = [nd for nd in tree.select_if(lambda nd: True, include_root=True)]
    got = [(int(a), int(b), int(c)) for a, b, c in re.findall(r'`\(pos (\d+) (\d+)\s+(\d+)\)', plain)]
    if text and not tree.errors:
        equal(got, [ref_line_col(text, nd.pos) + (nd.pos,) for nd in nodes], 'positions in the S-expression', sxpr=plain)
        xml = tree.as_xml(src=text)
        gotx = [(int(a), int(b)) for a, b in re.findall(r'line="(\d+)" col="(\d+)"', xml)]
        equal(gotx, [ref_line_col(text, nd.pos) for nd in nodes], 'positions in the XML', xml=xml)
