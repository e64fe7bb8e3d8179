"""P41: text utilities."""
import os
import re
import html
import xml.etree.ElementTree as ET
from hypothesis import strategies as st
from lib.pbt import prop, check, equal, raises
from lib import gen

RULE = ('random strings rich in the characters each helper treats specially (brackets, escapes, quotes, line breaks, path separators), random '
        'parameters, compared with independent reference implementations, evaluation by Python or parsing by the standard library; '
        'non-trivial: the helper has something to do (brackets, control characters, over-long strings, ...)')
ASSUMPTIONS = ['opening and closing brackets do not overlap', 'no f-strings in wrap_str_literal',
               'abbreviate_middle leaves strings of up to 40 characters alone']

PAIRS = [('(', ')'), ('[', ']'), ('{{', '}}'), ('<<', '>>'), ('BEGIN', 'END')]


@prop(lambda: st.tuples(st.sampled_from(PAIRS), st.lists(st.sampled_from(['O', 'O', 'C', 'C', 'x', 'ab', '\n', '\\', 'B', '{', '>']), max_size=24)),
      quick=2000, shards=2)
def brackets(case, ctx):
    from DHParser.toolkit import matching_brackets
    (o, c), toks = case
    text = ''.join({'O': o, 'C': c}.get(t, t) for t in toks)
    # reference: left to right scan
    opens, i = [], text.find(o)
    while i >= 0:
        opens.append(i)
        i = text.find(o, i + len(o))
    closes, i = [], text.find(c)
    while i >= 0:
        closes.append(i)
        i = text.find(c, i + len(c))
    stack, matches, un = [], [], []
    for p, kind in sorted([(p, 0) for p in opens] + [(p, 1) for p in closes]):
        if kind == 0: stack.append(p)
        elif stack: matches.append((stack.pop(), p))
        else: un.append(p)
    un += stack
    ctx.nontrivial(bool(matches))
    ctx.label('unmatched' if un else 'balanced')
    unmatched = []
    equal(matching_brackets(text, o, c, unmatched), matches, 'matches', text=text)
    equal(sorted(unmatched), sorted(un), 'unmatched brackets', text=text)
    equal(matching_brackets(text, o, c), matches, 'matches without list of unmatched brackets')


def rx_ref(rx, o, c):
    """Brackets that are control characters of the regular expression."""
    stack, matches, i = [], [], 0
    if o == '(':
        while i < len(rx):
            ch = rx[i]
            if ch == '\\':
                i += 2
                continue
            if ch == '[':
                i += 1
                if rx[i:i + 1] == '^': i += 1
                if rx[i:i + 1] == ']': i += 1
                while rx[i] != ']':
                    i += 2 if rx[i] == '\\' else 1
            elif ch == '(':
                stack.append(i)
            elif ch == ')':
                matches.append((stack.pop(), i))
            i += 1
    else:
        while i < len(rx):
            ch = rx[i]
            if ch == '\\':
                i += 2
                continue
            if ch == '[':
                a = i
                i += 1
                if rx[i:i + 1] == '^': i += 1
                if rx[i:i + 1] == ']': i += 1
                while rx[i] != ']':
                    i += 2 if rx[i] == '\\' else 1
                matches.append((a, i))
            i += 1
    return matches


setchars = st.lists(st.sampled_from(['a', '(', ')', '\\[', '\\]', '\\\\', '\\(', '\\)', '\\d', '0-9', '|', ',', '.']), min_size=1, max_size=4).map(''.join)
rx_atom = st.one_of(st.sampled_from(['a', 'bc', '.', '\\w', '\\(', '\\)', '\\[', '\\]', '\\\\', '\\.', 'x?', 'y*']),
                    st.tuples(st.sampled_from(['', '^']), setchars).map(lambda t: '[' + t[0] + t[1] + ']'))
regexes = st.recursive(rx_atom, lambda r: st.one_of(
    st.lists(r, min_size=1, max_size=3).map(''.join), st.lists(r, min_size=2, max_size=3).map('|'.join),
    st.tuples(st.sampled_from(['(', '(?:', '(?=', '(?<!', '(?P<n>', '(?P<m>']), r).map(lambda t: t[0] + t[1] + ')')), max_leaves=8)


@prop(lambda: regexes, quick=2000, shards=2)
def regex_brackets(case, ctx):
    from DHParser.toolkit import matching_brackets
    ctx.nontrivial('\\' in case or '[' in case)
    for o, c in ('()', '[]'):
        equal(sorted(matching_brackets(case, o, c, is_regex=True)), sorted(rx_ref(case, o, c)), 'control brackets of the regular expression')


docline = st.tuples(st.sampled_from(['', '  ', '    ', '\t', '      ']), st.sampled_from(['', 'text', 'a b', '- item', 'x  ', '   '])).map(''.join)


@prop(lambda: st.tuples(docline, st.lists(docline, max_size=7)), quick=1000)
def docstring(case, ctx):
    from DHParser.toolkit import normalize_docstring
    lines = [case[0]] + case[1]
    src = '\n'.join(lines)
    out = normalize_docstring(src)
    ref = [l.replace('\t', '    ') for l in lines]
    indents = [len(l) - len(l.lstrip()) for l in ref[1:] if l.strip()]
    k = min(indents) if indents else 0
    head = [ref[0]] if ref[0].strip() else ['']
    ref = head + [l[k:] for l in ref[1:]]
    while ref and not ref[0].strip(): ref.pop(0)
    while ref and not ref[-1].strip(): ref.pop()
    ctx.nontrivial(k > 0)
    got = out.split('\n') if out else []
    equal([l.rstrip() for l in got][:len(got)], [l.rstrip() for l in ref], 'normalized docstring', src=src)
    equal(normalize_docstring('\n' + out if out else ''), out, 'normalizing twice') if not (ref and ref[0][:1] == ' ') else None


lit_parts = st.lists(st.one_of(st.sampled_from(['\\', '\\\\', '"', "'", '\n', '\t', 'ä', '\u2028', '\x00', '\x1b', '\x7f', '😀', 'word ', 'N{', '}', '0', '7']),
                               gen.weird_text(0, 6)), max_size=30).map(''.join)


@prop(lambda: st.tuples(lit_parts, st.integers(4, 60), st.integers(0, 12), st.sampled_from(['plain', 'ascii', 'raw', 'bytes'])), quick=1500, shards=2)
def wrapped_literals(case, ctx):
    from DHParser.toolkit import wrap_str_literal
    s, column, offset, kind = case
    if kind == 'plain': lit = repr(s)
    elif kind == 'ascii': lit = ascii(s)
    elif kind == 'bytes': lit = repr(s.encode())
    else:
        s = s.replace('\n', '').replace('\r', '').replace('"', '').replace('\0', '').rstrip('\\')
        lit = 'r"' + s + '"'
    out = wrap_str_literal(lit, column, offset)
    lines = out.split('\n')
    ctx.nontrivial(len(lines) > 1)
    ctx.label(kind)
    try:
        value = eval('(' + out + ')', {})
    except SyntaxError as e:
        check(False, 'wrapping yields an illegal literal', e, out=out, literal=lit)
    equal(value, eval(lit, {}), 'value of the wrapped literal', out=out)
    prefix = lit[:1] if lit[0].isalpha() else ''
    for i, l in enumerate(lines):
        if i: check(l.startswith(' ' * offset + prefix + lit[len(prefix)]), 'line is not indented or lacks the prefix', l=l)
        check(len(l) <= column + 14 + (offset if i else 0), 'line too long', len(l), column=column, line=l)
    # list form: the parts of a literal are kept
    if kind == 'raw' and len(s) > 2 and '\\' not in s:
        parts = ['r"' + s[:1], s[1:2], s[2:] + '"']
        equal(eval('(' + wrap_str_literal(list(parts), column, offset) + ')', {}), s, 'list of parts')


longish = st.one_of(gen.text_of(['word', ' ', ')', ']', '>', ', ', '(', 'x' * 30, '))))', '    ', ',,,,,'], 0, 60),
                    gen.text_of(')', 0, 90), gen.long_text(['toolkit'], 'ab) ,>]', 300), gen.weird_text(0, 20))


@prop(lambda: st.tuples(longish, st.integers(2, 30), st.integers(1, 70), st.sampled_from([")]>, ", ",)]> ", " ", ")"])), quick=2000, shards=2)
def wrapped_nicely(case, ctx):
    from DHParser.toolkit import wrap_str_nicely
    s, tolerance, extra, chars = case
    column = tolerance + extra
    out = wrap_str_nicely(s, column, tolerance, chars)
    if '\n' in s or len(s) <= column:
        equal(out, s, 'nothing to wrap')
        return
    ctx.nontrivial(True)
    equal(out.replace('\n', ''), s, 'wrapping changes the text', column=column, tolerance=tolerance)
    for l in out.split('\n'):
        check(0 < len(l) <= column + 1, 'length of line', len(l), column=column, out=out)


@prop(lambda: st.tuples(st.one_of(gen.weird_text(0, 100), gen.long_text(['toolkit'], 'abcdefg h', 300)), st.integers(7, 130)), quick=1000)
def abbreviation(case, ctx):
    from DHParser.toolkit import abbreviate_middle
    s, n = case
    out = abbreviate_middle(s, n)
    if len(s) <= n:
        equal(out, s, 'short strings stay as they are')
    elif out == s:
        check(len(s) <= 40, 'string has not been shortened', n=n)
    else:
        ctx.nontrivial(True)
        check(len(out) <= n, 'longer than allowed', len(out), n=n)
        check(any(out[i:i + 5] == ' ... ' and s.startswith(out[:i]) and s.endswith(out[i + 5:]) and i > 0 for i in range(len(out))),
              'not made of head and tail of the string', out=out)
        check(len(out) >= n - 2, 'shortened more than necessary', out=out, n=n)


UNESC = re.compile(r'\\(?:x([0-9a-f]{2})|u([0-9a-f]{4})|U([0-9a-f]{8})|(.))', re.S)


@prop(lambda: st.one_of(lit_parts, gen.weird_text(0, 12), gen.text_of('{}ab"\'\\\n', 0, 9)), quick=1500)
def escaping(case, ctx):
    from DHParser.toolkit import escape_ctrl_chars, escape_formatstr, as_identifier, xml_entity, char_code
    out = escape_ctrl_chars(case)
    ctx.nontrivial(out != case)
    check(not re.search('[\x00-\x1f\x7f]', out), 'control characters are left', out=out)
    back = UNESC.sub(lambda m: chr(int(m[1] or m[2] or m[3], 16)) if not m[4] else {'n': '\n', 't': '\t', 'r': '\r'}.get(m[4], m[4]), out)
    equal(back, case, 'unescaping yields another string', out=out)
    f = re.sub(r'([{}])\1+', r'\1', case)
    equal(escape_formatstr(f).format(), f, 'escape_formatstr')
    equal(escape_formatstr(escape_formatstr(f)), escape_formatstr(f), 'braces that are already doubled stay')
    ident = as_identifier(case)
    equal(ident, ''.join(ch if re.match(r'\w', ch) else '_' for ch in case), 'as_identifier')
    equal(as_identifier(case, '<>'), ''.join(ch if re.match(r'\w', ch) else '<>' for ch in case), 'as_identifier with another replacement')
    for ch in case[:4]:
        equal(int(xml_entity(ch)[3:-1], 16), ord(ch), 'xml_entity')
        equal(int(char_code(ch)[2:], 16), ord(ch), 'char_code')
        check(xml_entity(ch)[:3] == '&#x' and xml_entity(ch)[-1] == ';', 'xml_entity')


@prop(lambda: st.one_of(gen.text_of(['a', '"', "'", '<', '>', '&', ';', '&amp', '#', ' ', 'ä', '&#'], 0, 10), gen.weird_text(0, 10)), quick=1500)
def attribute_values(case, ctx):
    from DHParser.toolkit import validate_XML_attribute_value, fix_XML_attribute_value, RX_ENTITY
    if re.search('[\x00-\x1f\ud800-\udfff\ufffe\uffff]', case):
        ctx.skip('control characters')
    has_entity = RX_ENTITY.search(case)
    bad_amp = any(not RX_ENTITY.match(case, m.start()) for m in re.finditer('&', case))
    illegal = '<' in case or ('"' in case and "'" in case) or bad_amp
    ctx.nontrivial(illegal or '"' in case)
    err = raises(lambda: validate_XML_attribute_value(case), ValueError)
    check(bool(err) == illegal, 'validation', illegal=illegal, err=err)
    if not illegal:
        quoted = validate_XML_attribute_value(case)
        equal(quoted[1:-1], case, 'validation changes the value')
        check(quoted[0] == quoted[-1] and quoted[0] in '"\'' and quoted[0] not in case, 'quotes', quoted)
    fixed = fix_XML_attribute_value(case)
    if not has_entity:
        equal(ET.fromstring('<x a=%s/>' % fixed).get('a'), case, 'value read back', fixed=fixed)


names = st.sampled_from(['a', 'ab', 'abc', 'b', 'c', 'x.y', 'dir', 'dir2', 'ä'])


@prop(lambda: st.tuples(st.lists(names, max_size=5), st.lists(names, max_size=5), st.integers(0, 5), st.booleans(), st.booleans()), quick=1500)
def paths(case, ctx):
    from DHParser.toolkit import relative_path, split_path
    p1, p2, common, absolute, trailing = case
    p2 = p1[:common] + p2
    root = '/' if absolute else ''
    a, b = root + '/'.join(p1), root + '/'.join(p2)
    ctx.nontrivial(p1[:1] == p2[:1] and p1 != p2)
    rel = relative_path(a, b)
    equal(os.path.normpath(os.path.join(os.path.abspath(a), rel)), os.path.abspath(b), 'relative path leads elsewhere', rel=rel, a=a, b=b)
    p = b + ('/' if trailing and p2 else '')
    parts = split_path(p)
    check(isinstance(parts, tuple) and all(isinstance(x, str) for x in parts), 'split_path does not return a tuple')
    equal(tuple(x for x in parts if x and x != '/'), tuple(p2), 'components of the path', parts=parts)
    equal(os.path.join(*parts) if parts else '', p, 'joining the components', parts=parts)


FLAGS = [0, re.I, re.S, re.M, re.X, re.I | re.S]
OPS = ['search', 'match', 'fullmatch', 'split', 'findall', 'finditer', 'sub', 'subn', 'pattern', 'flags', 'groups', 'groupindex', 'Pattern']


@prop(lambda: st.tuples(st.sampled_from(['a', 'A.', '^b', 'a b', r'(?P<n>a)|(b)', r'\w+', 'a*', '$']), st.sampled_from(FLAGS),
                        st.lists(st.tuples(st.sampled_from(OPS), gen.text_of('aAbB \n.', 0, 8)), min_size=1, max_size=6)), quick=1000)
def lazy_regex(case, ctx):
    from DHParser.toolkit import LazyRE, subf
    rxs, flags, ops = case
    lazy, rx = LazyRE(rxs, flags), re.compile(rxs, flags)
    ctx.nontrivial(flags != 0)
    norm = lambda m: (m.span(), m.groups()) if hasattr(m, 'span') else m
    for op, text in ops:
        if op in ('pattern', 'flags', 'groups', 'groupindex'):
            equal(getattr(lazy, op), getattr(rx, op), op)
        elif op == 'Pattern':
            check(lazy.Pattern == rx, 'Pattern', lazy.Pattern)
        elif op in ('sub', 'subn'):
            equal(getattr(lazy, op)('<>', text), getattr(rx, op)('<>', text), op)
        elif op == 'finditer':
            equal([norm(m) for m in lazy.finditer(text)], [norm(m) for m in rx.finditer(text)], op)
        elif op in ('split', 'findall'):
            equal(getattr(lazy, op)(text), getattr(rx, op)(text), op)
        else:
            equal(norm(getattr(lazy, op)(text)), norm(getattr(rx, op)(text)), op)
        f = lambda s: '<%s>' % s.upper()
        for r in (rx, lazy):
            equal(subf(r, f, text), rx.sub(lambda m: f(m.group(0)), text), 'subf')


word = st.sampled_from(['a', 'b', 'cd', 'e1', 'long_word', 'ä', 'x y'])
one = st.sampled_from(['a', 'b', 'cd', 'e1', 'long_word', 'ä'])


@prop(lambda: st.tuples(st.lists(word, min_size=1, max_size=5), st.sampled_from([';', ',', ' ']), st.booleans(),
                        st.lists(st.tuples(st.integers(0, 3), st.lists(one, min_size=1, max_size=3), st.integers(0, 9)), max_size=4),
                        st.lists(one, min_size=1, max_size=5, unique=True), st.integers(0, 9)), quick=1000)
def lists_and_tables(case, ctx):
    from DHParser.toolkit import (smart_list, expand_table, as_list, as_tuple, as_set, as_frozenset, first, last,
                                  normalize_circular_path, normalize_circular_paths)
    words, delim, blank, rows, path, k = case
    if delim == ' ':
        words = [w.replace(' ', '_') for w in words]
    equal(list(smart_list((delim + (' ' if blank and delim != ' ' else '')).join(words))) if len(words) > 1 or ' ' not in words[0] else words, words, 'smart_list')
    for obj in (tuple(words), list(words), set(words)):
        check(smart_list(obj) is obj, 'collections are returned as is')
    equal(smart_list(w for w in words), words, 'smart_list of a generator')
    equal(smart_list(k), [k], 'smart_list of something else')
    # tables
    table, seen, expected, dup = {}, set(), {}, False
    for form, ks, val in rows:
        key = {0: tuple(ks), 1: ', '.join(ks), 2: '; '.join(ks), 3: frozenset(ks)}[form]
        if key in table:
            continue
        table[key] = val
    for key, val in table.items():
        for x in (key if not isinstance(key, str) else [s.strip() for s in re.split('[,;]', key)]):
            if x in expected: dup = True
            expected[x] = val
    ctx.nontrivial(bool(table))
    if dup:
        check(raises(lambda: expand_table(table), KeyError), 'keys used more than once are not reported', table=table)
    else:
        equal(expand_table(table), expected, 'expand_table', table=table)
    for seq in (words, tuple(words)):
        equal((as_list(seq), as_tuple(seq), as_set(seq), as_frozenset(seq)), (list(seq), tuple(seq), set(seq), frozenset(seq)), 'as_xxx')
        equal((first(seq), last(seq)), (words[0], words[-1]), 'first, last')
    for item in (k, words[0], words[0].encode()):
        equal((as_list(item), as_tuple(item), as_set(item), as_frozenset(item)), ([item], (item,), {item}, {item}), 'as_xxx of an item')
        equal((first(item), last(item)), (item, item), 'first, last')
    p = tuple(path)
    rots = [p[i:] + p[:i] for i in range(len(p))]
    n = normalize_circular_path(p)
    check(n in rots and n[0] == min(p), 'normalized path is another path', n)
    equal({normalize_circular_path(r) for r in rots}, {n}, 'rotations of the same path')
    equal(normalize_circular_paths(set(rots)), {n}, 'set of paths')
