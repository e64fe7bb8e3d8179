"""P28: string views behave like the substrings they stand for."""
import re
from hypothesis import strategies as st
from lib.pbt import prop, check, equal
from lib import gen, srcdict

RULE = ('random texts (small alphabet, special and arbitrary unicode characters, lengths around '
        'integer literals of the implementation), chains of slices, then a sequence of read operations, compared '
        'with the same operations on a Python str; non-trivial: view is a proper, non-empty part of its text')
ASSUMPTIONS = ['Python str is the reference model']

idx = st.one_of(st.none(), st.integers(-9, 25), st.sampled_from(srcdict.ints('stringview', limit=300)))
small = st.one_of(st.none(), st.integers(-8, 14))
subs = st.one_of(gen.text_of('ab \n', 0, 3), gen.text_of('ab', 1, 2), gen.weird_text(0, 2))
REGEXES = ['a', 'b+', '', 'a*', r'\s+', r'(?=a)', r'[^a]', r'a|bb', r'\w+', r'.', r'$', r'^', r'\Z', r'a\b', r'(?<=a)b']


def ops():
    return st.lists(st.one_of(
        st.tuples(st.sampled_from(['find', 'rfind', 'count']), subs, small, small),
        st.tuples(st.sampled_from(['startswith', 'endswith']), subs, st.one_of(st.just(0), st.integers(-8, 14)),
                  small),
        st.tuples(st.sampled_from(['strip', 'lstrip', 'rstrip']), st.sampled_from(['a', ' \n', 'ab', ' \n\t', ' ', 'b\n'])),
        st.tuples(st.just('stripd')),
        st.tuples(st.just('split'), st.one_of(st.none(), gen.text_of('ab \n', 1, 2))),
        st.tuples(st.just('replace'), gen.text_of('ab ', 0, 2), gen.text_of('xy', 0, 3)),
        st.tuples(st.just('str')),
        st.tuples(st.just('item'), st.integers(-12, 14)),
        st.tuples(st.just('slice'), small, small),
        st.tuples(st.just('eq'), subs),
        st.tuples(st.just('add'), subs),
        st.tuples(st.sampled_from(['match', 'search', 'finditer']), st.sampled_from(REGEXES)),
        st.tuples(st.just('searchse'), st.sampled_from(REGEXES), st.one_of(st.none(), st.integers(0, 14)), st.one_of(st.none(), st.integers(0, 14))),
        st.tuples(st.sampled_from(['hash', 'len', 'bool', 'repr', 'iter', 'in', 'dictkey', 'eqview'])),
    ), min_size=1, max_size=8)


def cases():
    return st.tuples(
        st.one_of(gen.text_of('ab \n', 3, 16), gen.text_of('ab \n', 0, 3), gen.weird_text(0, 24), gen.long_text(['stringview'], limit=320)),
        st.one_of(st.lists(st.tuples(st.sampled_from([None, 0, 1, 2, 3, -9, -12]),
                                     st.sampled_from([None, -1, -2, 7, 9, 12, 40])), min_size=1, max_size=2),
                  st.lists(st.tuples(idx, idx), max_size=3)),
        ops())


def clamp_slice(s, a, b):
    return s[a:b]


@prop(cases, quick=1500, shards=8, rule='reads on views vs. str')
def model(case, ctx):
    from DHParser.stringview import StringView
    text, slices, operations = case
    sv, s = StringView(text), text
    for a, b in slices:
        sv, s = sv[a:b], s[a:b]
        equal(len(sv), len(s), 'length after slicing', a, b)
    ctx.nontrivial(0 < len(s) < len(text))
    for op, *args in operations:
        ctx.label(op)
        if op in ('find', 'rfind', 'count'):
            sub, a, b = args
            if sub or (a or 0) <= len(s):   # empty needle beyond the end: undefined
                equal(getattr(sv, op)(sub, a, b), getattr(s, op)(sub, a, b), op, args)
            equal(getattr(sv, op)(sub), getattr(s, op)(sub), op, sub)
        elif op in ('startswith', 'endswith'):
            sub, a, b = args
            equal(getattr(sv, op)(sub), getattr(s, op)(sub), op, args)
            equal(getattr(sv, op)(sub, a, b), getattr(s, op)(sub, a, b), op, args)
        elif op in ('strip', 'lstrip', 'rstrip'):
            equal(str(getattr(sv, op)(args[0])), getattr(s, op)(args[0]), op, args)
        elif op == 'stripd':
            equal(str(sv.strip()), s.strip(' \n\r\t'), op)
        elif op == 'split':
            equal([str(x) for x in sv.split(args[0])], s.split(args[0]), op, args)
        elif op == 'replace':
            equal(str(sv.replace(*args)), s.replace(*args), op, args)
        elif op == 'str':
            equal(str(sv), s)
        elif op == 'repr':
            equal(repr(sv), repr(s))
        elif op == 'item':
            try:
                want = s[args[0]]
            except IndexError:
                want = IndexError
            try:
                got = str(sv[args[0]])
            except IndexError:
                got = IndexError
            equal(got, want, 'item', args)
        elif op == 'slice':
            equal(str(sv[args[0]:args[1]]), s[args[0]:args[1]], 'slice', args)
        elif op == 'eq':
            equal(sv == args[0], s == args[0])
            equal(sv == StringView(args[0]), s == args[0])
            equal(args[0] == sv, s == args[0])
        elif op == 'add':
            equal(str(sv + args[0]), s + args[0])
            equal(str(args[0] + sv), args[0] + s)
            equal(str(sv + StringView(args[0])), s + args[0])
        elif op in ('match', 'search', 'finditer'):
            rx = re.compile(args[0])
            # lookbehind and word boundaries look at the underlying text by design; only
            # patterns without context to the left are compared with the cut-out string
            if '?<=' in args[0] or args[0] in ('^', r'a\b'):
                base = sv.get_text()
                off = sv.index(0)
                ref = [m.span() for m in rx.finditer(base, -off, -off + len(s))]
                want = [(x + off, y + off) for x, y in ref]
            else:
                want = [m.span() for m in rx.finditer(s)]
            if op == 'finditer':
                got = [sv.indices(m.span()) for m in sv.finditer(rx)]
                equal(got, want, op, args)
            elif op == 'search':
                m = sv.search(rx)
                equal(m and (sv.index(m.start()), sv.index(m.end())), want[0] if want else None, op, args)
            else:
                m = sv.match(rx)
                if '?<=' in args[0] or args[0] in ('^', r'a\b'): continue
                w = rx.match(s)
                equal(m and (sv.index(m.start()), sv.index(m.end())), w and w.span(), op, args)
        elif op == 'searchse':
            rx = re.compile(args[0])
            if '?<=' in args[0] or args[0] in ('^', r'a\b'): continue
            a, b = args[1], args[2]
            m = sv.search(rx, a, b)
            if m is not None:
                x, y = sv.index(m.start()), sv.index(m.end())
                lo = min(a or 0, len(s)); hi = len(s) if b is None else min(b, len(s))
                check(lo <= x <= y <= hi, 'search result outside of range', args, (x, y))
            w = rx.search(s, 0 if a is None else min(a, len(s)), len(s) if b is None else min(b, len(s)))
            equal(m and (sv.index(m.start()), sv.index(m.end())), w and w.span(), op, args)
        elif op == 'hash':
            equal(hash(sv), hash(s))
        elif op == 'dictkey':
            equal({s: 1}.get(sv), 1)
        elif op == 'len':
            equal(len(sv), len(s))
        elif op == 'bool':
            equal(bool(sv), bool(s))
        elif op == 'iter':
            equal([str(c) for c in sv], list(s))
        elif op == 'in':
            for sub in ('a', 'ab', ' ', 'q'):
                equal(sv.find(sub) >= 0, sub in s, 'containment', sub)
        elif op == 'eqview':
            check(sv == StringView('x' + s + 'y', 1, len(s) + 1) and sv == StringView(s), 'equal views differ')
            check(not (sv == StringView(s + 'z')), 'views of different length are equal')
