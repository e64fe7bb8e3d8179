"""P12: notational variants of EBNF.  One abstract grammar is written down twice, once in a plain canonical notation and once with
pseudo-random notations and delimiters; both parsers must behave in the same way."""
import random
import re
from hypothesis import strategies as st
from lib.pbt import prop, check, equal
from lib import peg
from lib.peg import INF

RULE = ('random grammars written once in canonical and once in a random notation (definition-, separator- and end-signs, brackets or suffixes, ways to '
        'write repetitions, quotation marks, characters, differences, macros, hide-modifiers, order of definitions, comments, line-breaks) for the '
        'configurable and the heuristic EBNF-parser; trees, errors and results are compared; non-trivial: at least 4 different notations and a matching text')
ASSUMPTIONS = ['with the heuristic EBNF-parser only delimiters are varied that do not lead to the documented ambiguities',
               'whether an anonymous leaf is called :Text or :RegExp is not compared, because characters can be written as literals or codes']

QUOTES = '"\'’'
CHARS = ['0x%x', '\\x%02x', '\\u%04x', '%%x%x', 'U+%04x']


class Writer:
    def __init__(self, seed, delims, heuristic=False, rate=0.5, calm=False):
        self.rnd, self.d, self.heuristic, self.rate, self.calm = random.Random(seed), delims, heuristic, rate, calm
        self.used, self.macros, self.plain = set(), [], []

    def maybe(self, what, p=1.0):
        if self.rnd.random() < self.rate * p:
            self.used.add(what)
            return True
        return False

    def pick(self, what, options):
        i = self.rnd.randrange(len(options)) if self.rnd.random() < self.rate else 0
        if i: self.used.add((what, i))
        return options[i]

    def gap(self):
        """Insignificant whitespace between two tokens."""
        if self.calm: return ' '
        opts = [' ', ' ', '  ', '\n  ', '\t']
        if not self.heuristic: opts += [' # note\n ', ' (* note "x *) ', ' /* it\'s\n */ ', '\n\n    ', ' # a = "b\n  ']
        else: opts += [' # note\n ', ' (* note *) ']
        return self.pick('gap', opts)

    def lit(self, s):
        if len(s) == 1 and s.isalnum() and self.codes and self.maybe('character', 0.3):
            self.used.add('code')
            return self.code(ord(s))
        if any(c in s for c in '`´\\\n'): return '"' + s.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n') + '"'
        return self.pick('plaintext', ['`%s`', '´%s´']) % s

    def code(self, n, inside=False):
        '''"U+61" outside of a range could also be read as "one or more U"'''
        if self.heuristic or self.rnd.random() < 0.5: return self.d['CH_LEADIN'] + '%x' % n
        return self.pick('code', CHARS[1:] if inside else CHARS[1:-1]) % n

    def regex(self, rx):
        if re.fullmatch(r'\[\^?[a-z]-[a-z]\]', rx) and self.maybe('char_range', 0.5):
            a, b = rx.strip('[]^').split('-')
            return '[' + '^' * rx.startswith('[^') + self.code(ord(a), True) + '-' + self.code(ord(b), True) + ']'
        return self.d['RE_LEADIN'] + rx + self.d['RE_LEADOUT']

    def par(self, s): return '(' + self.gap() + s + self.gap() + ')'

    def seq(self, parts):
        and_ = self.d['AND']
        return (self.gap() + and_ + ' ' if and_ else '\0').join(parts).replace('\0', self.gap() if self.calm else ' ') if and_ else ''.join(p + (self.gap() if i < len(parts) - 1 else '') for i, p in enumerate(parts))

    def rng(self, a, b):
        d = self.d
        if a == b and self.maybe('{n}'): return d['RNG_OPEN'] + str(a) + d['RNG_CLOSE']
        return d['RNG_OPEN'] + self.pick('rng', ['', ' ']) + str(a) + d['RNG_DELIM'] + self.pick('rng', ['', ' ']) + str(b) + d['RNG_CLOSE']

    def element(self, e):
        """An element without suffix or prefix."""
        t = e[0]
        s = self.atom(e)
        return self.par(s) if s is not None and self.maybe('brackets', 0.2) else s if s is not None else self.par(self.expr(e))

    def atom(self, e):
        t = e[0]
        if t == 'lit': return self.lit(e[1])
        if t == 'rx': return self.regex(e[1])
        if t == 'ref': return e[1]
        if t == 'par': return '$' + e[1]
        if t == 'syn': return e[1] if e[1] == '~' else (lambda q: q + e[1][1:-1] + q)(self.pick('quote', QUOTES))
        if t == 'call': return '$' + e[1] + '(' + self.expr(e[2]) + ')'
        return None

    def suffix(self, e, sign, what):
        if what is None or self.maybe('suffix'):
            return self.element(e) + sign
        return None

    def term(self, e, pure=False):
        """oneormore | counted | repetition | option | element; pure: part of a lookahead or difference"""
        t = e[0]
        if t == 'some':
            if self.maybe('+'): return self.element(e[1]) + '+'
            return '{' + self.gap() + self.expr(e[1]) + self.gap() + '}+'
        if not pure:
            if t == 'opt':
                if self.maybe('?'): return self.element(e[1]) + '?'
                return '[' + self.gap() + self.expr(e[1]) + self.gap() + ']'
            if t == 'many':
                if self.maybe('*'): return self.element(e[1]) + '*'
                return '{' + self.gap() + self.expr(e[1]) + self.gap() + '}'
            if t == 'count':
                c, a, b = e[1:]
                if a == b and self.maybe('n*'):
                    if self.rnd.random() < 0.5: return f"{a}{self.pick('blank', ['', ' '])}{self.d['TIMES']} " + self.countable(c)
                    return self.countable(c) + self.d['TIMES'] + f' {a}'
                return self.countable(c) + self.rng(a, b)
        return self.element(e)

    def countable(self, c):
        if c[0] in ('opt', 'some') and self.rnd.random() < 0.5: return self.term(c)
        return self.element(c)

    def item(self, e):
        """An item of a sequence"""
        t = e[0]
        if t in ('and', 'not'): return {'and': '&', 'not': '!'}[t] + self.pick('blank', ['', ' ']) + self.term(e[1], True)
        if t == 'seq' and len(e[1]) == 2 and e[1][0][0] == 'not' and e[1][1][0] not in ('seq', 'alt', 'and', 'not', 'inter', 'mand') and self.maybe('difference'):
            return '(' + self.term(e[1][1]) + ' - ' + self.term(e[1][0][1], True) + ')'
        if t == 'inter': return self.inter(e)
        return self.term(e)

    def inter(self, e):
        parts = []
        for c, a, b in e[1]:
            if (a, b) == (1, 1): parts.append(self.element(c))
            elif (a, b) == (0, 1): parts.append(self.term(('opt', c)))
            elif (a, b) == (0, INF): parts.append(self.term(('many', c)))
            elif (a, b) == (1, INF): parts.append(self.term(('some', c)))
            else: parts.append(self.term(('count', c, a, b)))
        return ' ° '.join(parts)

    def sequence(self, e):
        if e[0] != 'seq': return self.item(e)
        parts, mand = [], ''
        for c in e[1]:
            if c[0] == 'mand': mand = '§' + self.pick('blank', ['', ' '])
            else:
                parts.append(mand + self.item(c))
                mand = ''
        return self.seq(parts)

    def expr(self, e):
        if e[0] != 'alt': return self.sequence(e)
        return (self.gap() + self.d['OR'] + ' ').join(self.sequence(c) for c in e[1])

    def grammar(self, rules, directives, hidden):
        """hidden: symbols to be marked with a modifier"""
        rules = [list(r) for r in rules]
        for r in rules: self.plain.append(tuple(r))
        for i, r in enumerate(rules): r[1] = self.extract(r[1], i)
        first, rest = rules[0], rules[1:]
        if self.maybe('order'): self.rnd.shuffle(rest)
        defs = [self.definition(*first, hidden)] + [self.definition(*r, hidden) for r in rest]
        macros = ['$' + n + '($' + p + ') ' + self.d['DEF'] + ' ' + self.expr(b) + self.d['ENDL'] + '\n' for n, p, b in self.macros]
        for m in macros: defs.insert(self.rnd.randint(1, len(defs)), m)
        if self.maybe('directive order'): self.rnd.shuffle(directives)
        out = ''
        for n, values in directives:
            if n == 'disposable' and self.maybe('synonym'): n = 'hide'
            out += self.pick('@', ['@ ', '@', '@  ']) + n + ' = ' + (',' + self.gap()).join(values) + '\n'
        return out + self.pick('lines', ['', '\n', '# comment\n']) + ''.join(defs)

    def definition(self, name, e, hidden):
        pre = post = ''
        if name in hidden:
            if self.rnd.random() < 0.5: pre = self.pick('modifier', ['HIDE:', 'hide: ', 'Dispose : '])
            else: post = ' -> ' + self.pick('modifier', ['HIDE', 'hide', 'DISPOSE'])
        body = self.expr(e)
        if self.maybe('leading |', 0.4) and e[0] == 'alt': body = self.d['OR'] + ' ' + body
        return pre + name + self.pick('blank', [' ', '', '\n   ']) + self.d['DEF'] + self.gap() + body + post + (self.gap() if self.d['ENDL'] and self.rnd.random() < 0.3 else '') + self.d['ENDL'] + \
            self.pick('eol', ['\n', '\n\n', ' # end\n', '\n(* next *)\n'])

    def extract(self, e, nr):
        """Turns a part of e into a macro, and into a symbol of the canonical grammar."""
        if self.heuristic or len(self.macros) > 2 or not self.maybe('macro', 0.6): return e
        spots = []

        def find(x, path):
            t = x[0]
            if t in ('alt', 'opt', 'many', 'some') and path: spots.append(path)
            if t in ('seq', 'alt'):
                for i, c in enumerate(x[1]): find(c, path + ((1, i),))
            elif t in ('opt', 'many', 'some', 'and', 'not'): find(x[1], path + ((1,),))
        find(e, ())
        if not spots: return e
        path = self.rnd.choice(spots)
        name = 'mac' + str(len(self.macros))

        def at(x, p):
            for step in p:
                for i in step: x = x[i]
            return x

        def put(x, p, new):
            if not p: return new
            step, rest = p[0], p[1:]
            if len(step) == 1: return (x[0], put(x[1], rest, new)) + tuple(x[2:])
            kids = list(x[1])
            kids[step[1]] = put(kids[step[1]], rest, new)
            return (x[0], tuple(kids))
        target = at(e, path)
        inner = [p for p in self.paths(target) if p and at(target, p)[0] in ('lit', 'rx', 'ref', 'syn', 'opt', 'alt', 'some') and at(target, p) != ('syn', '~')]
        if not inner: return e
        ip = self.rnd.choice(inner)
        arg = at(target, ip)
        self.macros.append((name, 'p', put(target, ip, ('par', 'p'))))
        self.plain[nr] = (self.plain[nr][0], put(e, path, ('ref', name)))
        self.plain.append((name, target))
        return put(e, path, ('call', name, arg))

    def paths(self, x, path=()):
        yield path
        t = x[0]
        if t in ('seq', 'alt'):
            for i, c in enumerate(x[1]): yield from self.paths(c, path + ((1, i),))
        elif t in ('opt', 'many', 'some', 'and', 'not'): yield from self.paths(x[1], path + ((1,),))


def shape(nd):
    name = ':' if nd.name in (':Text', ':RegExp', ':SmartRE', ':CharRange', ':IgnoreCase') else nd.name
    return name, nd.pos, tuple(shape(c) for c in nd.children) if nd.children else nd.content


def behaviour(gr, text, start):
    tree = gr(text, start)
    if any(e.code in (1010, 1015, 1017) for e in tree.errors):  # the depth of the tree of an interrupted parser depends on which symbols are forward declarations
        return tree.content, sorted((e.pos, int(e.code)) for e in tree.errors)
    if tree.errors: return tuple((nd.name, nd.pos, nd.content) for nd in tree.select_if(lambda nd: not nd.anonymous and not nd.name.endswith('__'), include_root=True)), tree.content, sorted((e.pos, int(e.code)) for e in tree.errors)
    return shape(tree), '', sorted((e.pos, int(e.code)) for e in tree.errors)


STANDARD = {'DEF': '=', 'OR': '|', 'AND': '', 'ENDL': '', 'RNG_OPEN': '{', 'RNG_CLOSE': '}', 'RNG_DELIM': ',', 'TIMES': '*', 'RE_LEADIN': '/', 'RE_LEADOUT': '/', 'CH_LEADIN': '0x'}


@st.composite
def delimiters(draw):
    d = {'DEF': draw(st.sampled_from(['=', ':=', '::=', '<-', '=>', '→'])), 'OR': draw(st.sampled_from(['|', '||', '¦', '/'])),
         'AND': draw(st.sampled_from(['', '', ',', ';', '·'])), 'ENDL': draw(st.sampled_from(['', ';', ';;', '¶'])), 'RNG_OPEN': '{', 'RNG_CLOSE': '}', 'RNG_DELIM': draw(st.sampled_from([',', ':', '..'])),
         'TIMES': draw(st.sampled_from(['*', '×'])), 'CH_LEADIN': draw(st.sampled_from(['0x', '#x', '%%']))}
    if d['AND'] == ';': d['ENDL'] = ''
    d['RNG_OPEN'], d['RNG_CLOSE'] = draw(st.sampled_from([('{', '}'), ('(', ')'), ('<', '>')]))
    i, o = draw(st.sampled_from([('/', '/'), ('^/', '/'), ('«', '»'), ('<', '>')]))
    if d['OR'] == '/' and i == '/': i, o = '«', '»'
    if i == '<' and (d['DEF'] == '<-' or d['RNG_OPEN'] == '<'): i, o = '«', '»'
    d['RE_LEADIN'], d['RE_LEADOUT'] = i, o
    return d


@st.composite
def heuristics(draw):
    d = dict(STANDARD, DEF=draw(st.sampled_from(['=', ':=', '::=', '<-'])), ENDL=draw(st.sampled_from(['', ';'])), CH_LEADIN=draw(st.sampled_from(['0x', '#x'])))
    d['RNG_OPEN'], d['RNG_CLOSE'] = draw(st.sampled_from([('{', '}'), ('(', ')')]))
    return d


@st.composite
def situations(draw):
    kind = draw(st.sampled_from(['fixed', 'fixed', 'configurable', 'configurable', 'heuristic', 'heuristic']))
    rules, header, texts, (ws, lws), info = draw(peg.wscases(drops=True, hide=True, mand=True, reduction='all'))
    d = STANDARD if kind == 'fixed' else draw(delimiters()) if kind == 'configurable' else draw(heuristics())
    return kind, rules, texts, ws, lws, tuple(sorted((k, v) for k, v in info.items())), tuple(sorted(d.items())), draw(st.integers(0, 10 ** 6)), draw(st.sampled_from([0.1, 0.3, 0.6, 0.9])), draw(st.booleans())


@prop(situations, quick=300)
def notations(case, ctx):
    from DHParser.configuration import set_config_value, get_config_value
    from lib.dh import compile_grammar
    kind, rules, texts, ws, lws, info, d, seed, rate, modifiers = case
    info, d = dict(info), dict(d)
    heuristic = kind == 'heuristic'
    if heuristic and (ws[1] or re.search(r'[/]', ws[0])): ctx.skip('comment')
    regexp = lambda rx: d['RE_LEADIN'] + rx + d['RE_LEADOUT']
    directives = [('whitespace', lambda f: [f(ws[0])]), ('literalws', lambda f: [lws])]
    if ws[1]: directives.append(('comment', lambda f: [f(ws[1])]))
    if info['drop']: directives.append(('drop', lambda f: list(info['drop'])))
    if info['reduction']: directives.append(('reduction', lambda f: [info['reduction']]))
    hide = ('disposable', lambda f: list(info['hide']))
    plain = ''.join(f'@ {n} = ' + ', '.join(v(lambda rx: '/' + rx + '/')) + '\n' for n, v in directives + [hide] * bool(info['hide']))
    marked = info['hide'] if modifiers else ()
    w = Writer(seed, d, heuristic, rate)
    w.codes = not {'backticked', 'regexps'} & set(info['drop'])
    variant = w.grammar(rules, [(n, v(regexp)) for n, v in directives + ([] if modifiers or not info['hide'] else [hide])], marked)
    canonical, msgs = compile_grammar(peg.grammar_ebnf(w.plain, plain))
    if canonical is None: ctx.skip('rejected')
    for k in d:
        if d[k] != STANDARD[k]: w.used.add((k, d[k]))
    old = {k: get_config_value(k) for k in ('syntax_variant', 'delimiter_set')}
    try:
        set_config_value('syntax_variant', kind)
        if kind == 'configurable':
            close = re.escape(d['RE_LEADOUT'])
            set_config_value('delimiter_set', dict(old['delimiter_set'], **d, RE_CORE=f'(?:(?<!\\\\)\\\\(?:{close})|[^{close}])*'))
        gr, errors = compile_grammar(variant)
    finally:
        for k, v in old.items(): set_config_value(k, v)
    if any(e.code in (1560, 1570) for e in errors): ctx.skip('static analysis')  # depends on whether literals are hidden behind symbols or groups
    check(gr is not None, 'variant rejected', variant, [str(e) for e in errors if e.code >= 1000])
    ok = False
    for text in texts:
        exp = behaviour(canonical, text, rules[0][0])
        equal(behaviour(gr, text, rules[0][0]), exp, 'text', text, 'grammar', variant)
        ok = ok or not exp[-1] and text
    for u in w.used: ctx.label(u if isinstance(u, str) else u[0])
    ctx.label(kind)
    ctx.nontrivial(len(w.used) >= 4 and ok)


CODES = st.one_of(st.sampled_from([ord(c) for c in "[]^-\\'\"/`{}$.*|09azAZx \n\t#&"]), st.integers(0x20, 0x7e), st.sampled_from([0xe4, 0xd7, 0x20ac, 0x2028, 0x1f600, 0x10ffff]))
CONTEXTS = ['%s', '( %s )', '{ %s }+', '%s+', '(%s)+', '"<" %s ">"', '"<" | %s', '%s | "<"', '[ %s ] "<"', '2*%s', '%s{1,3}', '&%s %s', '!%s /./', '%s "<" | "<" %s']


@st.composite
def characters(draw):
    spans = tuple(tuple(sorted((draw(CODES), draw(CODES)))) if draw(st.booleans()) else (draw(CODES),) for _ in range(draw(st.integers(1, 3))))
    single = len(spans) == 1 and len(spans[0]) == 1 and draw(st.booleans())
    return spans, draw(st.booleans()) and not single, single, draw(st.sampled_from(CONTEXTS)), draw(st.integers(0, 10 ** 6)), draw(st.sampled_from(['fixed', 'heuristic'])), \
        draw(st.sampled_from(['', 'alternative', 'lookahead', 'all'])), tuple(draw(CODES) for _ in range(3))


def rx_class(spans, negated):
    esc = lambda n: '\\U%08x' % n
    return '[' + '^' * negated + ''.join('-'.join(esc(n) for n in s) for s in spans) + ']'


@prop(characters, quick=250, rule='character codes and ranges of codes in different notations and contexts (repetitions, groups, alternatives, counted, lookaheads) with different optimizations, compared with the equivalent regular expression; '
                                  'non-trivial: both matching and non-matching texts')
def codes(case, ctx):
    from DHParser.configuration import set_config_value, get_config_value
    from lib.dh import compile_grammar
    spans, negated, single, context, seed, kind, opt, more = case
    rnd = random.Random(seed)

    def code(n):
        opts = ['0x%x' % n, '0x%04X' % n, '\\u%04x' % n if n < 0x10000 else '\\U%08x' % n, '%%x%X' % n] + ['\\x%02x' % n] * (n < 256) + ['U+%04X' % n] * (not single)
        return rnd.choice(opts if kind != 'heuristic' else opts[:2])
    rx = rx_class(spans, negated)
    ebnf = code(spans[0][0]) if single else '[' + '^' * negated + ''.join('-'.join(code(n) for n in s) for s in spans) + ']'
    regex = '/' + rx + '/'
    old = {k: get_config_value(k) for k in ('syntax_variant', 'optimizations')}
    try:
        set_config_value('syntax_variant', kind)
        set_config_value('optimizations', frozenset(['literal', 'lookahead', 'alternative'] if opt == 'all' else [opt] if opt else []))
        a, errs = compile_grammar('@ literalws = none\nroot = ' + context.replace('%s', ebnf) + '\n')
        set_config_value('optimizations', frozenset())
        set_config_value('syntax_variant', 'fixed')
        b, errs2 = compile_grammar('@ literalws = none\nroot = ' + context.replace('%s', regex) + '\n')
    finally:
        for k, v in old.items(): set_config_value(k, v)
    if b is None: ctx.skip('rejected')
    if any(e.code in (1560, 1570) for e in errs): ctx.skip('static analysis')
    check(a is not None, 'rejected', ebnf, context, [str(e) for e in errs if e.code >= 1000])
    chars = sorted({chr(n) for s in spans for n in s} | {chr(n) for n in more} | {chr(max(0, n + d)) for s in spans for n in s for d in (-1, 1) if n + d < 0x110000 and not 0xd800 <= n + d < 0xe000} | {'a', '0', 'x', '\\'})
    seen = set()
    for c in chars:
        for text in (c, '<' + c, c + '<', '<' + c + '>', c + c):
            exp, got = b(text, 'root'), a(text, 'root')
            equal(bool(got.errors), bool(exp.errors), 'text', repr(text), 'grammar', context.replace('%s', ebnf), 'optimizations', opt)
            equal(got.content, exp.content, 'text', repr(text), 'grammar', context.replace('%s', ebnf))
            seen.add(bool(exp.errors))
    ctx.label(kind, opt or 'unoptimized')
    ctx.nontrivial(len(seen) == 2)


PIECES = ['0x', '0xab', 'U+61', 'u+6', '%x4', '1', 'a', 'f', 'x', '+', '%', '\\x41', '\\u00e4', '\\n', '\\]', '\\[', '\\\\', 'A-F', '0-9', 'é', '{', '}', "'", '"', '`', '|', '.', ' ', '$', '#']


@prop(lambda: st.tuples(st.lists(st.tuples(st.booleans(), st.lists(st.sampled_from(PIECES), min_size=1, max_size=4).map(''.join)), min_size=1, max_size=3), st.sampled_from(['', 'alternative', 'sequence', 'all']), st.sampled_from(['/%s/', '/%s/+', '"<" /%s/', '"<" | /%s/'])),
      quick=250, rule='regular expressions made of character classes (with contents resembling character codes) compared with re.fullmatch; non-trivial: both matching and non-matching characters')
def classes(case, ctx):
    from DHParser.configuration import set_config_value, get_config_value
    from lib.dh import compile_grammar
    sets, opt, context = case
    rx = '|'.join('[' + '^' * n + s + ']' for n, s in sets)
    try: pattern = re.compile(rx)
    except re.error: ctx.skip('invalid')
    old = get_config_value('optimizations')
    try:
        set_config_value('optimizations', frozenset(['literal', 'lookahead', 'alternative', 'sequence'] if opt == 'all' else [opt] if opt else []))
        gr, errs = compile_grammar('@ literalws = none\nroot = ' + context.replace('%s', rx) + '\n')
    finally: set_config_value('optimizations', old)
    if any(e.code in (1560, 1570) for e in errs): ctx.skip('static analysis')
    check(gr is not None, 'rejected', rx, [str(e) for e in errs if e.code >= 1000])
    seen = set()
    for c in sorted(set('0xabfFAUu+%16\\[]nA-9é{}\'"`|. $#Zä\n\U00000ab0') | set(rx)):
        exp = bool(pattern.fullmatch(c))
        if context.startswith('"<" |'): text, exp = c, exp or c == '<'
        else: text = '<' + c if context.startswith('"<"') else c
        equal(not gr(text, 'root').errors, exp, 'text', repr(text), 'grammar', context.replace('%s', rx), opt)
        seen.add(exp)
    ctx.nontrivial(len(seen) == 2)
