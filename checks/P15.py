"""P15: source maps lead every position back to where its text came from."""
import functools
import os
import shutil
import tempfile

from hypothesis import strategies as st
from lib.pbt import prop, check, equal, raises

RULE = ('random forests of including files (nested directories, different spellings of the same path, adjacent and empty includes, byte order '
        'marks, comments that contain includes), random tokenizers and deleting/inserting preprocessors and chains of these; each character '
        'carries its origin through a reference model; non-trivial: at least two files resp. at least one token or edit')
ASSUMPTIONS = ['the end of the text maps to the end of the main document', 'positions within the syntax of a token map into the range of text '
               'that the token stands for', 'errors of preprocessors are located by positions in the text that has been passed to the preprocessor']

PATHS = ['main.txt', 'a.txt', 'sub/b.txt', 'sub/c.txt', 'sub/deep/d.txt', 'e.txt', 'other/f.txt']
word = st.text(alphabet='abcxyz \n\nä😀.', max_size=6)
seg = st.one_of(word.map(lambda t: ('text', t)), word.map(lambda t: ('text', t)),
                st.tuples(st.just('include'), st.integers(0, 6), st.sampled_from(['rel', 'rel', 'dot', 'up', 'abs'])),
                st.tuples(st.just('include'), st.integers(0, 6), st.sampled_from(['rel', 'rel', 'dot', 'up', 'abs'])),
                st.tuples(st.just('comment'), st.text(alphabet='ab ', max_size=4), st.booleans()))
forest = st.lists(st.lists(seg, max_size=5), min_size=1, max_size=7)
RX_INCL = r'#include\((?P<name>[^)\n]*)\)'
RX_COMM = r'//.*'


class Cycle(Exception):
    pass


def spell(root, frm, to, style):
    rel = os.path.relpath(to, os.path.dirname(frm) or '.')
    if style == 'dot': return './' + rel
    if style == 'up':
        d = os.path.dirname(frm)
        return ('../' + os.path.basename(d) + '/' + rel) if d else 'sub/../' + rel
    if style == 'abs': return os.path.join(root, to)
    return rel


def layout(root, files, back, comments):
    """Returns {path: text}, {path: [(kind, ...)]}; includes point to later files unless `back`."""
    texts, segs = {}, {}
    for i, segments in enumerate(files):
        parts, plan = [], []
        for s in segments:
            if s[0] == 'text':
                parts.append(s[1])
                plan.append(('text', s[1]))
            elif s[0] == 'include':
                j = s[1] % len(files)
                if j <= i and not back: j = i + 1
                if j >= len(files): continue
                stmt = '#include(%s)' % spell(root, PATHS[i], PATHS[j], s[2])
                parts.append(stmt)
                plan.append(('include', PATHS[j], stmt))
            else:
                t = '//' + s[1] + ('#include(nowhere.txt)' if s[2] and comments else '') + s[1] + '\n'
                parts.append(t)
                plan.append(('text', t))
        texts[PATHS[i]] = ''.join(parts)
        segs[PATHS[i]] = plan
    return texts, segs


def expand(path, segs, once, stack=()):
    """Returns a list of (char, path, offset)."""
    if path in stack: raise Cycle
    out, pos = [], 0
    for s in segs[path]:
        if s[0] == 'text':
            out.extend((c, path, pos + k) for k, c in enumerate(s[1]))
            pos += len(s[1])
        else:
            if once is None or s[1] not in once:
                if once is not None: once.add(s[1])
                out.extend(expand(s[1], segs, once, stack + (path,)))
            pos += len(s[2])
    return out


def mentions(path, segs, out):
    """Files that have been included at least once."""
    for s in segs[path]:
        if s[0] == 'include' and s[1] not in out:
            out.add(s[1])
            mentions(s[1], segs, out)
    return out


class Forest:
    def __init__(self, files, back, comments, boms):
        self.root = os.path.realpath(tempfile.mkdtemp(prefix='p15-'))
        self.texts, self.segs = layout(self.root, files, back, comments)
        for d in ('sub/deep', 'other'): os.makedirs(os.path.join(self.root, d))
        for k, (path, text) in enumerate(self.texts.items()):
            with open(os.path.join(self.root, path), 'w', encoding='utf-8', newline='') as f: f.write(('\ufeff' if boms >> k & 1 else '') + text)

    def __enter__(self):
        self.cwd = os.getcwd()
        os.chdir(self.root)
        return self

    def __exit__(self, *args):
        os.chdir(self.cwd)
        shutil.rmtree(self.root)

    def key(self, name): return os.path.relpath(os.path.realpath(name), self.root)


def finder(comments):
    from DHParser.preprocess import gen_find_include_func
    return gen_find_include_func(RX_INCL, RX_COMM) if comments else gen_find_include_func(RX_INCL)


def same_map(mapping, origin, fo, main):
    """`origin`: expected (path, offset) for each position, a callable condition, or None."""
    for p, o in enumerate(origin):
        loc = mapping(p)
        equal((fo.key(loc.original_name), loc.pos), o, 'origin of position', p)
        equal(str(loc.original_text), fo.texts[o[0]], 'original text of position', p)
    loc = mapping(len(origin))
    equal((fo.key(loc.original_name), loc.pos), (main, len(fo.texts[main])), 'origin of the end of the text')


@prop(lambda: st.tuples(forest, st.booleans(), st.integers(0, 127), st.sampled_from([False, False, True]), st.sampled_from(['read', 'text', 'abs'])), quick=1200, shards=4)
def includes(case, ctx):
    from DHParser.preprocess import preprocess_includes, ReadIncludeClass, ReadIncludeOnce
    files, comments, boms, once, how = case
    if once: files = [[s if s[0] != 'include' else s[:2] + ('rel',) for s in f] for f in files]
    with Forest(files, False, comments, boms) as fo:
        if once:   # keep to one spelling
            fo.segs = {p: [s if s[0] != 'include' else s for s in plan] for p, plan in fo.segs.items()}
        main = 'main.txt'
        name = os.path.join(fo.root, main) if how == 'abs' else main
        if once and any('/' in p for p in mentions(main, fo.segs, set())): ctx.skip('one spelling per file')
        expected = expand(main, fo.segs, set() if once else None)
        reader = ReadIncludeOnce if once else ReadIncludeClass
        res = preprocess_includes(None if how != 'text' else fo.texts[main], name, finder(comments), reader)
        ctx.nontrivial(len({o[1] for o in expected}) > 1)
        ctx.label('files: %i' % len({o[1] for o in expected}))
        equal(str(res.preprocessed_text), ''.join(c for c, _, _ in expected), 'text')
        equal(str(res.original_text), fo.texts[main], 'original text')
        same_map(res.back_mapping, [(f, o) for _, f, o in expected], fo, main)


@prop(lambda: st.tuples(forest, st.booleans()), quick=600, shards=2)
def circular(case, ctx):
    """Circular includes are reported however the paths are spelled, and nothing else is."""
    from DHParser.preprocess import preprocess_includes
    files, comments = case
    with Forest(files, True, comments, 0) as fo:
        try:
            expected = ''.join(c for c, _, _ in expand('main.txt', fo.segs, None))
        except Cycle:
            expected = None
        if expected is not None and len(expected) > 20000: ctx.skip('long')
        ctx.nontrivial(expected is None)
        ctx.label('circular' if expected is None else 'not circular')
        if expected is None:
            e = raises(lambda: preprocess_includes(None, 'main.txt', finder(comments)), ValueError)
            check(e is not None and not isinstance(e, UnicodeError) and 'ircular' in str(e), 'circular include is not reported', e)
        else:
            equal(preprocess_includes(None, 'main.txt', finder(comments)).preprocessed_text, expected, 'text')


# tokenizing and editing preprocessors ########################################

TOKENS = ['BEGIN', 'T', 'x_1']
plan = st.lists(st.tuples(st.sampled_from(['keep', 'keep', 'token', 'mark', 'del', 'ins', 'upper']), st.integers(0, 5), st.sampled_from(TOKENS)), max_size=8)


def tokenize(text, steps):
    """Returns the tokenized text and, for each position, the range of original positions that it may be mapped to."""
    from DHParser.preprocess import make_token
    out, ranges, i = [], [], 0
    for kind, n, name in steps:
        if kind in ('token', 'mark'):
            n = n if kind == 'token' else 0
            arg = text[i:i + n]
            tok = make_token(name, arg)
            out.append(tok)
            for k, c in enumerate(tok):
                a = k - (2 + len(name))
                ranges.append((i + a, i + a) if 0 <= a < len(arg) else (i, i + len(arg)))
            i += len(arg)
        else:
            out.append(text[i:i + n])
            ranges.extend((k, k) for k in range(i, min(i + n, len(text))))
            i = min(i + n, len(text))
    out.append(text[i:])
    ranges.extend((k, k) for k in range(i, len(text)))
    return ''.join(out), ranges


def edit(text, steps):
    """Deletes, inserts and keeps; returns the text, the SourceMap lists and the ranges."""
    out, ranges, i, o = [], [], 0, 0
    positions, offsets = [0], [0]

    def mark():
        if positions[-1] == o: offsets[-1] = i - o
        elif offsets[-1] != i - o:
            positions.append(o)
            offsets.append(i - o)
    for kind, n, name in steps:
        if kind in ('del', 'token'):
            i = min(i + n, len(text))
            mark()
        elif kind in ('ins', 'mark'):
            out.append(name)
            ranges.extend((max(i - 1, 0), i + len(name)) for _ in name)   # exact origin of inserted text is not specified
            o += len(name)
            mark()
        else:
            t = text[i:i + n]
            out.append(t.upper() if kind == 'upper' and len(t.upper()) == len(t) else t)
            ranges.extend((k, k) for k in range(i, i + len(t)))
            i, o = i + len(t), o + len(t)
    t = text[i:]
    out.append(t)
    ranges.extend((k, k) for k in range(i, len(text)))
    positions.append(o + len(t) + 1)
    offsets.append(offsets[-1])
    return ''.join(out), positions, offsets, ranges


def text_for_tokens(): return st.text(alphabet='abc \nXY', max_size=16)


@prop(lambda: st.tuples(text_for_tokens(), plan, st.sampled_from(['', 'doc.txt'])), quick=2000, shards=2)
def tokens(case, ctx):
    from DHParser.preprocess import make_preprocessor, strip_tokens, prettyprint_tokenized, tokenized_to_original_mapping, source_map, has_includes
    text, steps, name = case
    tokenized, ranges = tokenize(text, steps)
    ctx.nontrivial(tokenized != text)
    prep = make_preprocessor(lambda t: (tokenize(t, steps)[0], []))
    res = prep(text, name)
    equal(res.preprocessed_text, tokenized, 'text')
    equal(strip_tokens(tokenized), text, 'strip_tokens')
    equal(len(prettyprint_tokenized(tokenized)), len(tokenized), 'pretty-printed tokens')
    sm = tokenized_to_original_mapping(tokenized, text, name)
    equal(has_includes(sm), False, 'has_includes')
    last = -1
    for p, (a, b) in enumerate(ranges):
        for loc in (res.back_mapping(p), source_map(p, sm)):
            check(a <= loc.pos <= b, 'wrong origin of position', p, got=loc.pos, expected=(a, b), tokenized=prettyprint_tokenized(tokenized))
            equal((loc.original_name, loc.original_text), (name, text), 'origin')
        check(loc.pos >= last, 'mapping is not monotone', p)
        last = loc.pos
    equal(res.back_mapping(len(tokenized)).pos, len(text), 'end of the text')
    raises(lambda: source_map(len(tokenized) + 1, sm), ValueError)


@prop(lambda: st.tuples(forest, st.lists(st.tuples(st.sampled_from(['edit', 'tokens']), plan, st.one_of(st.none(), st.integers(0, 30))), max_size=3), st.booleans(),
                        st.one_of(st.none(), st.integers(0, 40))), quick=1000, shards=4)
def chains(case, ctx):
    """Chained preprocessors: positions, errors of the preprocessors and errors of later stages."""
    from DHParser.preprocess import preprocess_includes, chain_preprocessors, make_preprocessor, result_from_mapping, SourceMap
    from DHParser.error import Error, ErrorCode
    from DHParser.compile import compile_source
    files, stages, comments, later = case
    with Forest(files, False, comments, 0) as fo:
        main = 'main.txt'
        expected = expand(main, fo.segs, None)
        if any(k == 'tokens' for k, _, _ in stages[:-1]) : stages = [s for s in stages[:-1] if s[0] != 'tokens'] + stages[-1:]
        chain = [functools.partial(preprocess_includes, find_next_include=finder(comments))]
        wanted = []
        # ranges of the origins of each position, as list of lists of admissible (file, offset)
        origin = [[(f, o)] for _, f, o in expected] + [[(main, len(fo.texts[main]))]]
        text = ''.join(c for c, _, _ in expected)

        def stage(kind, steps, err, n):
            def errs(t):
                return [Error('E%i' % n, err, ErrorCode(1000 + n))] if err is not None and err <= len(t) else []
            if kind == 'tokens': return make_preprocessor(lambda t: (tokenize(t, steps)[0], errs(t)))

            def prep(t, name):
                out, positions, offsets, _ = edit(t, steps)
                sm = SourceMap(name, positions, offsets, [name] * len(positions), {name: t})
                return result_from_mapping(sm, t, out, errs(t))
            return prep
        for n, (kind, steps, err) in enumerate(stages):
            chain.append(stage(kind, steps, err, n))
            if err is not None and err <= len(text): wanted.append((1000 + n, origin[err]))
            if kind == 'tokens': text2, ranges = tokenize(text, steps)
            else: text2, _, _, ranges = edit(text, steps)
            L = len(text)
            deleted_end = not ranges or ranges[-1] != (L - 1, L - 1)
            new = [[x for k in range(max(a, 0), min(b, L) + 1) for x in origin[k]] for a, b in ranges]
            new.append([x for o in (origin if deleted_end else origin[-1:]) for x in o])
            origin, text = new, text2
        prep = chain_preprocessors(*chain)
        res = prep(fo.texts[main], main)
        equal(str(res.preprocessed_text), text, 'text')
        ctx.nontrivial(any(k != 'keep' for _, s, _ in stages for k, _, _ in s) and len(text) > 0)
        ctx.label('stages: %i' % len(stages))

        def located(what, loc_file, loc_pos, loc_text, allowed):
            check((fo.key(loc_file), loc_pos) in allowed, 'wrong origin of', what, got=(fo.key(loc_file), loc_pos), expected=allowed[:4])
            if loc_text is not None: equal(str(loc_text), fo.texts[fo.key(loc_file)], 'original text')
        for p in range(len(text) + 1):
            loc = res.back_mapping(p)
            located('position %i' % p, loc.original_name, loc.pos, loc.original_text, origin[p])
        # errors of the preprocessors and of a later stage
        equal([int(e.code) for e in res.errors], [c for c, _ in wanted], 'errors of the preprocessors')
        for e, (_, allowed) in zip(res.errors, wanted): located(e, e.orig_doc, e.orig_pos, None, allowed)

        def parse(t, start='', source_mapping=None):
            from DHParser.nodetree import RootNode, Node
            tree = RootNode(Node('doc', t).with_pos(0), t, source_mapping)
            if later is not None and later <= len(t):
                tree.new_error(Node('nd', '').with_pos(later), 'later', ErrorCode(1100))
            return tree
        result = compile_source(os.path.join(fo.root, main), prep, parse)
        late = [e for e in result.messages if e.code == 1100]
        equal(len(late), int(later is not None and later <= len(text)), 'error of the later stage')
        equal(sorted(int(e.code) for e in result.messages if e.code != 1100), sorted(c for c, _ in wanted), 'errors')
        for e in result.messages:
            allowed = origin[later] if e.code == 1100 else dict(wanted)[int(e.code)]
            located(e, e.orig_doc, e.orig_pos, None, allowed)
            src = fo.texts[fo.key(e.orig_doc)]
            equal((e.line, e.column), (src.count('\n', 0, e.orig_pos) + 1, e.orig_pos - src.rfind('\n', 0, e.orig_pos)), 'line and column of', e)


@prop(lambda: st.tuples(text_for_tokens(), plan, st.lists(st.integers(0, 16), max_size=4), st.lists(st.integers(0, 30), max_size=3), st.booleans()), quick=800, shards=2)
def single(case, ctx):
    """A single tokenizer without chain."""
    from DHParser.preprocess import make_preprocessor, chain_preprocessors
    from DHParser.error import Error, ErrorCode
    from DHParser.compile import compile_source
    from DHParser.nodetree import RootNode, Node
    text, steps, errs, later, fatal = case
    text = '\n' + text
    steps = [('keep', 1, 'T')] + steps
    errs = sorted({e for e in errs if e <= len(text)})
    tokenized, ranges = tokenize(text, steps)
    ranges = ranges + [(len(text), len(text))]
    later = sorted({p for p in later if p <= len(tokenized)})
    ctx.nontrivial(bool(errs or later) and tokenized != text)
    prep = make_preprocessor(lambda t: (tokenize(t, steps)[0], [Error('E', p, ErrorCode((10000 if fatal else 1000) + k)) for k, p in enumerate(errs)]))

    def parse(t, start='', source_mapping=None):
        tree = RootNode(Node('doc', t).with_pos(0), t, source_mapping)
        for k, p in enumerate(later): tree.new_error(Node('nd', '').with_pos(p), 'later', ErrorCode(1100 + k))
        return tree
    for pp in (prep, chain_preprocessors(prep)):
        res = compile_source(text, pp, parse)
        got = {int(m.code): m for m in res.messages}
        equal(sorted(got), sorted([(10000 if fatal else 1000) + k for k in range(len(errs))] + ([] if fatal and errs else [1100 + k for k in range(len(later))])), 'errors')
        for code, m in got.items():
            a, b = ranges[later[code - 1100]] if 1100 <= code < 10000 else (errs[code % 1000],) * 2
            check(a <= m.orig_pos <= b, 'wrong location of', m, got=m.orig_pos, expected=(a, b))
            equal((m.line, m.column), (text.count('\n', 0, m.orig_pos) + 1, m.orig_pos - text.rfind('\n', 0, m.orig_pos)), 'line and column')
