"""P36: JSON output is valid and faithful."""
import json
import re
from hypothesis import strategies as st
from lib.pbt import prop, check, equal, raises
from lib import gen

RULE = ('random JSON values (nesting, empty containers, big numbers, any strings, also as keys, any JSON-compatible key type), random '
        'places that are replaced by already serialized chunks, null-objects or objects of a custom encoder, compared with what '
        'the json module reads back; non-trivial: the value contains a container or a string that needs escaping')
ASSUMPTIONS = ['numbers are finite', 'pp_json writes a multi-line string as one literal per line (by design, expected by the tests)']

SPEC = ['"', '\\', '\n', '\r', '\t', '\x00', '\x1f', '\x7f', '\u2028', '/', "'", '\b', '\f', 'ä', '€', '😀', 'a', ' ', '{', '}', '[', ']', ':', ',']
strings = st.one_of(st.lists(st.sampled_from(SPEC), max_size=8).map(''.join), gen.weird_text(0, 10), st.sampled_from(['', 'abc', '"\n"', 'a\nb', '\\u0041']))
numbers = st.one_of(st.integers(-5, 5), st.integers(), st.floats(allow_nan=False, allow_infinity=False))
scalars = st.one_of(st.none(), st.booleans(), numbers, strings, strings)
keys = st.one_of(strings, strings, strings, st.integers(-3, 10), st.booleans(), st.none(), st.floats(-2, 2, allow_nan=False))


def values(leaf):
    return st.recursive(leaf, lambda ch: st.one_of(
        st.lists(ch, max_size=4), st.lists(ch, max_size=3).map(tuple),
        st.dictionaries(keys, ch, max_size=4)), max_leaves=12)


# markers ('$', kind, payload) stand for special objects
special = st.one_of(scalars, scalars, st.tuples(st.just('$str'), values(scalars), st.integers(0, 2)),
                    st.tuples(st.just('$null'), st.booleans()), st.tuples(st.just('$set'), st.sets(st.integers(0, 9), max_size=3)))


def is_marker(v):
    return isinstance(v, tuple) and v and isinstance(v[0], str) and v[0] in ('$str', '$null', '$set') and (
        (len(v) == 2 and v[0] == '$null' and isinstance(v[1], bool)) or (v[0] == '$set' and len(v) == 2 and isinstance(v[1], (set, frozenset)))
        or (v[0] == '$str' and len(v) == 3 and isinstance(v[2], int)))


def build(v, plain):
    """The object for the marked value; plain -> the value that is to be read back."""
    from DHParser.toolkit import JSONstr, JSONnull
    if is_marker(v):
        if v[0] == '$str':
            inner = build(v[1], True)
            return inner if plain else JSONstr(json.dumps(inner, indent=[None, 1, 2][v[2]], ensure_ascii=v[2] == 1))
        if v[0] == '$null':
            return None if plain else (JSONnull() if v[1] else JSONnull)
        return sorted(v[1]) if plain else set(v[1])
    if isinstance(v, dict):
        return {k: build(x, plain) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return type(v)(build(x, plain) for x in v)
    return v


def readback(v):
    return json.loads(json.dumps(v))


def same(a, b):
    """like ==, but 1, 1.0 and True are different and so is the order of the keys"""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def unique_keys(v):
    if isinstance(v, dict):
        ks = [json.loads(json.dumps({k: 0})).popitem()[0] for k in v]
        return len(set(ks)) == len(ks) and all(unique_keys(x) for x in v.values())
    if isinstance(v, (list, tuple)):
        return all(unique_keys(x) for x in v if not isinstance(x, (set, frozenset)))
    return True


class Encoder(json.JSONEncoder):
    def default(self, o):
        if isinstance(o, (set, frozenset)):
            return sorted(o)
        return super().default(o)


def interesting(v):
    return isinstance(v, (list, tuple, dict)) and len(v) > 0 or isinstance(v, str) and (json.dumps(v) != '"%s"' % v)


JOIN = re.compile(r'(?<=")\n *(?=")')


def read_pretty(s):
    # joins the literals of the lines of multi-line strings; a raw newline between two quotes occurs nowhere else
    return json.loads(JOIN.sub('\0', s).replace('"\0"', '\\n'))


@prop(lambda: values(scalars), quick=1500, shards=4)
def plain(case, ctx):
    from DHParser.toolkit import json_dumps, pp_json, pp_json_str, json_encode_string
    ctx.nontrivial(interesting(case))
    expected = readback(case)
    for partially in (False, True):
        if not partially or unique_keys(case):
            s = json_dumps(case, partially_serialized=partially)
            try:
                got = json.loads(s)
            except ValueError as e:
                check(False, 'invalid JSON', str(e), s=s)
            check(same(got, expected), 'json_dumps does not read back as the same value', got=got, expected=expected, s=s)
            check(len(s.split('\n')) == 1, 'compact output spans several lines', s=s)
    if unique_keys(case):
        for s in (pp_json(case), pp_json_str(json.dumps(case))):
            try:
                got = read_pretty(s)
            except ValueError as e:
                check(False, 'invalid pretty-printed JSON', str(e), s=s)
            check(same(got, expected), 'pp_json does not read back as the same value', got=got, expected=expected, s=s)
    if isinstance(case, str):
        equal(json.loads(json_encode_string(case)), case, 'json_encode_string')


@prop(lambda: values(special), quick=1500, shards=4)
def partial(case, ctx):
    from DHParser.toolkit import json_dumps, pp_json, JSONstr
    if not unique_keys(case):
        ctx.skip('keys that coincide after conversion')
    obj, value = build(case, False), build(case, True)
    ctx.nontrivial(interesting(case))
    expected = readback(value)
    chunks = []

    def collect(o):
        if isinstance(o, JSONstr):
            chunks.append(o.serialized_json)
        elif isinstance(o, dict):
            for x in o.values(): collect(x)
        elif isinstance(o, (list, tuple)):
            for x in o: collect(x)
    collect(obj)
    ctx.label('chunks' if chunks else 'no chunks')
    for name, s, rd in (('json_dumps', json_dumps(obj, cls=Encoder, partially_serialized=True), json.loads),
                        ('pp_json', pp_json(obj, cls=Encoder), json.loads if chunks and not multi(case) else read_pretty)):
        pos = 0
        for c in chunks:
            pos = s.find(c, pos)
            check(pos >= 0, name, 'does not contain a chunk verbatim', chunk=c, s=s)
            pos += len(c)
        if name == 'pp_json' and chunks and multi(case) and any('\n' in c for c in chunks):
            continue    # chunks and multi-line literals cannot be told apart any more
        try:
            got = rd(s)
        except ValueError as e:
            check(False, 'invalid JSON', str(e), name=name, s=s)
        check(same(got, expected), name, 'does not read back as the same value', got=got, expected=expected, s=s)
    if chunks:
        check(raises(lambda: json_dumps(obj, cls=Encoder), TypeError), 'serialized chunks accepted where they are not allowed')
    else:
        got = json.loads(json_dumps(obj, cls=Encoder))
        check(same(got, expected), 'custom encoder or null not respected', got=got, expected=expected)


def multi(v):
    if isinstance(v, str):
        return '\n' in v
    if is_marker(v):
        return False
    if isinstance(v, dict):
        return any(multi(x) for x in v.values())
    return isinstance(v, (list, tuple)) and any(multi(x) for x in v)


@prop(lambda: st.tuples(strings, st.one_of(st.lists(values(special), max_size=3), st.dictionaries(strings, values(special), max_size=3)),
                        st.one_of(st.none(), st.integers(-2, 10 ** 6)), st.booleans()), quick=800, shards=2)
def rpc(case, ctx):
    from DHParser.toolkit import json_rpc
    method, params, ID, partially = case
    if not unique_keys(params):
        ctx.skip('keys that coincide after conversion')
    if '$set' in repr(params) or (not partially and '$str' in repr(params)):
        ctx.skip('not serializable')
    ctx.nontrivial(len(params) > 0)
    obj = build(params, False)
    kw = {} if partially else {'partially_serialized': False}
    msg = json.loads(json_rpc(method, obj, ID, **kw) if ID is not None else json_rpc(method, obj, **kw))
    expected = {'jsonrpc': '2.0', 'method': method, 'params': readback(build(params, True))}
    if ID is not None:
        expected['id'] = ID
    check(same(dict(sorted(msg.items())), dict(sorted(expected.items()))), 'json-rpc message', got=msg, expected=expected)
