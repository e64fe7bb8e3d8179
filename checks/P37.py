"""P37: the server frames messages correctly however the byte-stream is chunked."""
import asyncio
import io
import json
import os
import threading

from hypothesis import strategies as st
from lib.pbt import prop, check, equal, raises

RULE = ('random sequences of requests (calls with positional or named or no parameters, notifications, plain-data calls with header, client '
        'responses, malformed requests of many kinds, empty bodies; integer and string ids; different headers and header orders), cut into '
        'random chunks, served by the real request handler; responses are parsed strictly and compared with direct calls; non-trivial: at '
        'least two requests and at least two chunks')
ASSUMPTIONS = ['functions that return None are not answered', 'the response to a request that re-uses the id of a running request may be its result or an error',
               'messages without Content-Length header are framed by their chunks']


def make_server(strict=False):
    from DHParser.server import Server

    def echo(value='', ID=None): return value
    def add(a=0, b=0, ID=None): return a + b
    def text(ID=None): return 'äöü "quoted" \\ 😀\n' + 'x' * 20
    def both(*args, ID=None, **kw): return {'args': list(args), 'kw': kw}
    def fail(value='', ID=None): raise ValueError('failed: "%s" \\' % value)
    def note(value='', ID=None): return None
    def raw(ID=None): return b'{"raw": "bytes \xc3\xa4"}'
    def odd(value=None, ID=None): return {'error': value}
    def unserializable(ID=None): return {'x': object()}

    async def slow(value=0, ID=None):
        for _ in range(int(value)): await asyncio.sleep(0)
        return 'slow %s' % value
    funcs = [echo, add, text, both, fail, note, raw, odd, slow, unserializable]
    server = Server(funcs, cpu_bound=set(), blocking=set(), strict_lsp=strict)
    server.stop_response = 'stopped'
    server.use_jsonrpc_header = True
    return server


class Writer:
    def __init__(self):
        self.data, self.closed = bytearray(), False

    def write(self, data):
        assert isinstance(data, (bytes, bytearray)), type(data)
        self.data += data

    async def drain(self): await asyncio.sleep(0)
    def write_eof(self): pass
    def can_write_eof(self): return True
    def close(self): self.closed = True
    async def wait_closed(self): pass


value = st.one_of(st.integers(-5, 1000), st.text(alphabet='aä€😀"\\\n {}:', max_size=8),
                  st.sampled_from(['Content-Length: 5\r\n\r\nabc', '\r\n\r\n', '"jsonrpc"', 'GET / HTTP', 'x' * 700, 'ä' * 300, 'Content-Length: 0\r\n\r\n', True, None, 1.5,
                                   [1, [2, 'x']], {'a': {'b': []}}]))
ids = st.one_of(st.integers(0, 9), st.integers(10, 10 ** 10), st.sampled_from(['a', 'ä-1', '7', '']))
call = st.tuples(st.just('call'), st.sampled_from(['echo', 'echo', 'add', 'text', 'both', 'both', 'fail', 'raw', 'slow', 'slow', 'unknown', 'note', 'odd', 'unserializable']),
                 st.sampled_from(['dict', 'dict', 'list', 'none']), value, ids)
plain = st.tuples(st.just('plain'), st.sampled_from(['echo', 'add', 'text', 'both', 'fail', 'nowhere', 'default', 'umlaut']), st.integers(-9, 99))
BAD = ['syntax', 'utf8', 'method-number', 'method-null', 'no-method', 'version', 'version-number', 'version-none', 'id-object', 'id-null', 'id-float', 'id-list', 'id-bool',
       'params-number', 'params-string', 'params-null', 'batch', 'array', 'dup', 'plain-utf8', 'empty', 'backslash', 'quote', 'result', 'result-full', 'scalar']
bad = st.tuples(st.just('bad'), st.sampled_from(BAD), ids)
headers = st.sampled_from(['len', 'len', 'len', 'len+type', 'type+len', 'nospace', 'spaces', 'lf', 'extra'])
message = st.tuples(st.one_of(call, call, call, plain, bad), headers)


def head(kind, n):
    if kind == 'len+type': return b'Content-Length: %i\r\nContent-Type: application/vscode-jsonrpc; charset=utf-8\r\n\r\n' % n
    if kind == 'type+len': return b'Content-Type: application/vscode-jsonrpc; charset=utf-8\r\nContent-Length: %i\r\n\r\n' % n
    if kind == 'nospace': return b'Content-Length:%i\r\n\r\n' % n
    if kind == 'spaces': return b'Content-Length:   %i\r\n\r\n' % n
    if kind == 'lf': return b'Content-Length: %i\n\n' % n
    if kind == 'extra': return b'Content-Length: %i\r\nX-Other: 1\r\n\r\n' % n
    return b'Content-Length: %i\r\n\r\n' % n


def params_of(method, how, v):
    if how == 'none': return None
    if method in ('echo', 'fail', 'note'): return {'value': v} if how == 'dict' else [v]
    if method == 'odd': return {'value': v} if how == 'dict' else [v]
    if method == 'slow':
        n = v % 40 if isinstance(v, int) and not isinstance(v, bool) else 3
        return {'value': n} if how == 'dict' else [n]
    if method == 'add':
        n = v if isinstance(v, int) else 1
        return {'a': n, 'b': 2} if how == 'dict' else [n, 2]
    if method == 'both': return {'k': v, 'l': 'ä'} if how == 'dict' else [v, 'x']
    return {} if how == 'dict' else []


def outcome(method, params):
    """('result', value) | ('error', code) | None, of a direct call."""
    args = params if isinstance(params, list) else []
    kw = params if isinstance(params, dict) else {}
    v = (args or [kw.get('value', '')])[0]
    if method == 'echo': return None if v is None else ('result', v)
    if method == 'add': return 'result', sum(args) if args else kw.get('a', 0) + kw.get('b', 0)
    if method == 'text': return 'result', 'äöü "quoted" \\ 😀\n' + 'x' * 20
    if method == 'both': return 'result', {'args': args, 'kw': kw}
    if method == 'fail': return 'error', -32000
    if method == 'raw': return 'result', {'raw': 'bytes ä'}
    if method == 'slow': return 'result', 'slow %s' % (args or [kw.get('value', 0)])[0]
    if method == 'unknown': return 'error', -32601
    if method == 'unserializable': return 'error', -32070
    if method == 'odd': return 'error', None
    if method == 'note': return None


def render(msg, used):
    """Returns (body, expected response) ; the response is ('json', id, ...), ('plain', text), ('maybe', ...) or None."""
    if msg[0] == 'call':
        _, method, how, v, ID = msg
        while ID in used: ID = ID + 1 if isinstance(ID, int) else ID + 'x'
        used.append(ID)
        params = params_of(method, how, v)
        obj = {'jsonrpc': '2.0', 'id': ID, 'method': method}
        if params is not None: obj['params'] = params
        if method == 'note': del obj['id']
        res = outcome(method, params)
        return json.dumps(obj, ensure_ascii=bool(len(used) % 2)).encode(), res and ('json', ID) + res
    if msg[0] == 'plain':
        _, name, n = msg
        if name == 'default': return b'\xc3\xa4 text %i' % n, ('plain', 'ä text %i' % n)
        if name == 'umlaut': return 'echo("ä%iö")'.encode() % n, ('plain', 'ä%iö' % n)
        body = ('%s(%i,4)' % (name, n) if name in ('add', 'both') else '%s()' % name if name == 'text' else '%s(%i)' % (name, n)).encode()
        if name == 'echo': return body, ('plain', str(n))
        if name == 'add': return body, ('plain', str(n + 4))
        if name == 'text': return body, ('plain', 'äöü "quoted" \\ 😀\n' + 'x' * 20)
        if name == 'both': return body, ('plain', json.dumps({'args': [n, 4], 'kw': {}}))
        return body, ('plain', None)   # some error message
    _, what, ID = msg
    while ID in used: ID = ID + 1 if isinstance(ID, int) else ID + 'x'
    obj = {'jsonrpc': '2.0', 'id': ID, 'method': 'echo', 'params': {'value': 1}}
    err = ('json', ID, 'error', None)
    if what == 'syntax': return b'{"jsonrpc": "2.0", "id": 1, "method": "echo"', ('json', None, 'error', -32700)
    if what == 'quote': return b'{"jsonrpc": "2.0", "id": "1, \'"x" "method": \n\t"echo"', ('json', None, 'error', -32700)
    if what == 'backslash': return b'{"jsonrpc": "2.0", \\x "\xc3\xa4" }', ('json', None, 'error', -32700)
    if what == 'utf8': return b'{"jsonrpc": "2.0", "id": 1, "method": "echo\xff\xfe"}', ('json', None, 'error', -32700)
    if what == 'plain-utf8': return b'echo("\xff\xfe")', ('plain', None)
    if what == 'batch': return json.dumps([obj, obj]).encode(), ('json', None, 'error', -32700)
    if what == 'array': return b'["jsonrpc", 2]', ('json', None, 'error', -32700)
    if what == 'scalar': return b'"jsonrpc"', ('json', None, 'error', -32700)
    if what == 'empty': return b'', ('any',)
    if what in ('result', 'result-full'): return b'{"jsonrpc": "2.0", "id": 1, "result": {"x": 1}}', None
    if what == 'dup':
        same = [u for u in used if u != ID]
        if not same: what = 'no-method'
        else:
            obj['id'] = same[-1]
            return json.dumps(obj).encode(), ('dup', same[-1])
    used.append(ID)
    if what == 'method-number': obj['method'] = 5
    elif what == 'method-null': obj['method'] = None
    elif what == 'no-method': del obj['method']
    elif what == 'version': obj['jsonrpc'] = '1.0'
    elif what == 'version-number': obj['jsonrpc'] = 1
    elif what == 'version-none': obj['jsonrpc'] = None
    elif what.startswith('id-'):
        obj['id'] = {'id-object': {'x': 1}, 'id-null': None, 'id-float': 1.5, 'id-list': [1], 'id-bool': True}[what]
        return json.dumps(obj).encode(), ('any',)
    elif what == 'params-number': obj['params'] = 7
    elif what == 'params-string': obj['params'] = 'x'
    elif what == 'params-null':
        obj['params'] = None
        return json.dumps(obj).encode(), ('any',)
    return json.dumps(obj).encode(), err


def parse_stream(data):
    """Strictly splits a stream of framed responses."""
    out, i = [], 0
    data = bytes(data)
    while i < len(data):
        check(data[i:].startswith(b'Content-Length: '), 'response without header', data[i:i + 80])
        k = data.index(b'\r\n\r\n', i)
        n = int(data[i + 16:k])
        body = data[k + 4:k + 4 + n]
        check(len(body) == n, 'response is shorter than announced', body)
        try: body = body.decode()
        except UnicodeDecodeError: check(False, 'response has been cut off within a character', body)
        i = k + 4 + n
        try: obj = json.loads(body)
        except ValueError: obj = None
        if body.startswith('{"jsonrpc"') or '"jsonrpc"' in body[:20]: check(obj is not None, 'response is not valid JSON', body)
        out.append(obj if isinstance(obj, dict) and 'jsonrpc' in obj else body)
    return out


def match(responses, expected):
    """Assigns the responses to the requests."""
    rest = list(responses)
    loose = 0
    for e in [e for e in expected if e is not None]:
        if e[0] == 'any':
            loose += 1
            continue
        if e[0] == 'json':
            hit = [r for r in rest if isinstance(r, dict) and r.get('id') == e[1] and type(r.get('id')) is type(e[1]) and e[2] in r
                   and (e[2] != 'result' or r['result'] == e[3]) and (e[2] != 'error' or e[3] is None or r['error']['code'] == e[3])]
        elif e[0] == 'dup':
            hit = [r for r in rest if isinstance(r, dict) and r.get('id') == e[1]]
            hit.sort(key=lambda r: r.get('result') != 1 and 'error' not in r)
        else:
            hit = [r for r in rest if isinstance(r, str) and (e[1] is None or r == e[1] or (e[1][:1] == '{' and json.loads(e[1]) == _loads(r)))]
            if e[1] is None: hit.sort(key=lambda r: not any(w in r for w in ('Error', 'error', 'No function', 'fail', 'decode')))
        check(hit, 'request has not been answered (correctly)', e, open_responses=rest)
        rest.remove(hit[0])
    check(len(rest) <= loose, 'responses without a request', rest)


def _loads(s):
    try: return json.loads(s)
    except ValueError: return None


async def wait_for_output(writer, done, rounds=400):
    for _ in range(rounds):
        if done(): return
        await asyncio.sleep(0)


def chunks_of(data, cuts):
    cuts = sorted({c % (len(data) + 1) for c in cuts})
    return [data[a:b] for a, b in zip([0] + cuts, cuts + [len(data)]) if b > a]


async def converse(server, chunks, idle, eof_at_once, reader=None, extra_rounds=80):
    """Feeds the chunks to the request handler; returns everything that has been written."""
    server.loop = asyncio.get_running_loop()
    if server.exec is None:
        from DHParser.server import ExecutionEnvironment
        server.exec = ExecutionEnvironment(server.loop)
    else: server.exec.loop = server.loop
    reader = asyncio.StreamReader()
    writer = Writer()
    task = asyncio.ensure_future(server.handle(reader, writer))
    if eof_at_once:
        for c in chunks: reader.feed_data(c)
        reader.feed_eof()
    else:
        for i, c in enumerate(chunks):
            reader.feed_data(c)
            for _ in range(idle): await asyncio.sleep(0)
            if task.done(): break
        for _ in range(extra_rounds):
            await asyncio.sleep(0)
            if task.done(): break
        check(not task.done(), 'the connection has been closed by the server', task)
        reader.feed_eof()
    await asyncio.wait_for(task, 20)
    return writer


PING = b'{"jsonrpc": "2.0", "id": 4711, "method": "echo", "params": {"value": "alive"}}'


@prop(lambda: st.tuples(st.lists(message, min_size=1, max_size=7), st.lists(st.integers(0, 10 ** 6), max_size=12), st.sampled_from([0, 1, 3, 30]), st.sampled_from([False, False, True]),
                        st.booleans()), quick=2000, shards=8)
def framing(case, ctx):
    msgs, cuts, idle, eof_at_once, bytewise = case
    used, stream, expected = [], bytearray(), []
    bodies = []
    for m, h in msgs:
        body, exp = render(m, used)
        for _ in range(105 if m[:2] == ('bad', 'result-full') else 1): stream += head(h, len(body)) + body
        expected.append(exp)
        bodies.append(body)
    stream = bytes(stream)
    chunks = chunks_of(stream, cuts) if not bytewise or len(stream) > 400 else [bytes([b]) for b in stream]
    ctx.nontrivial(len(msgs) > 1 and len(chunks) > 1)
    ctx.label('malformed' if any(m[0] == 'bad' for m, _ in msgs) else 'well-formed')
    server = make_server()
    errors = []

    async def main():
        asyncio.get_running_loop().set_exception_handler(lambda loop, c: errors.append(c))
        w1 = await converse(server, chunks, idle, eof_at_once)
        check(server.connection is None, 'connection is still registered after the client has gone', eof_at_once=eof_at_once)
        w2 = await converse(server, [b'Content-Length: %i\r\n\r\n' % len(PING) + PING], 1, False)
        return w1, w2
    w1, w2 = asyncio.run(main())
    match(parse_stream(w1.data), expected)
    equal(parse_stream(w2.data), [{'jsonrpc': '2.0', 'result': 'alive', 'id': 4711}], 'server does not work any more')
    import gc
    if errors: gc.collect()
    equal([str(c.get('exception') or c.get('message')) for c in errors], [], 'unhandled exceptions')


# without a header of its own a message must not look like it contains one
unframed = call.filter(lambda c: 'Content-Length:' not in str(c[3]))


@prop(lambda: st.tuples(st.lists(unframed, min_size=1, max_size=6), st.lists(st.sampled_from(['initialize', 'initialized', 'shutdown', 'call', 'exit']), max_size=8)), quick=500, shards=2)
def life_cycle(case, ctx):
    """Unframed messages, one at a time; calls are refused as long as the language-server-client is not initialized."""
    calls, history = case
    server = make_server(strict=True)
    ctx.nontrivial('initialize' in history)

    async def main():
        server.loop = asyncio.get_running_loop()
        from DHParser.server import ExecutionEnvironment
        server.exec = ExecutionEnvironment(server.loop)
        reader, writer = asyncio.StreamReader(), Writer()
        task = asyncio.ensure_future(server.handle(reader, writer))
        state, down, n, used = '', False, 0, []
        for what in history + ['call']:
            writer.data.clear()
            if what == 'call':
                body, exp = render(calls[n % len(calls)], used)
                n += 1
                ok = state == 'ready' and not down
                if exp is not None and not ok: exp = ('json', exp[1], 'error', -32600 if down else -32002)
                if exp is None and not ok: exp = ('any',)
            else:
                body, exp = json.dumps({'jsonrpc': '2.0', 'id': 'L%i' % n, 'method': what, 'params': {}}).encode(), None
                n += 1
                if what == 'initialize':
                    if state or down == 'shutting': exp = ('json', 'L%i' % (n - 1), 'error', -32002)
                    else: state, down = 'init', False
                elif what == 'initialized':
                    if state == 'init': state = 'ready'
                    else: exp = ('json', 'L%i' % (n - 1), 'error', -32002)
                elif what == 'shutdown': state, down = '', 'shutting'
                elif what == 'exit':
                    reader.feed_data(body)
                    await asyncio.wait_for(task, 20)
                    equal(bytes(writer.data), b'', 'response to exit')
                    check(server.connection is None, 'connection is still registered after exit')
                    return
            reader.feed_data(body)
            await wait_for_output(writer, lambda: writer.data or task.done(), 60)
            for _ in range(4): await asyncio.sleep(0)
            if task.done(): task.result()
            check(not task.done(), 'the connection has been closed', what)
            match(parse_stream(writer.data), [exp])
        reader.feed_eof()
        await asyncio.wait_for(task, 20)
    asyncio.run(main())


@prop(lambda: st.tuples(st.lists(st.one_of(value.map(str), st.just('')), min_size=1, max_size=5), headers, st.lists(st.integers(0, 10 ** 6), max_size=8), st.integers(0, 400)), quick=1000, shards=2)
def blocks(case, ctx):
    """read_full_block(), split_header(), http_response() on the side of the client."""
    from DHParser.server import read_full_block, split_header, http_response, incomplete_header
    bodies, h, cuts, extra = case
    first = bodies[0].encode()
    data = head(h, len(first)) + first
    later = b''.join(head(h, len(b.encode())) + b.encode() for b in bodies[1:])
    ctx.nontrivial(len(bodies) > 1 or len(cuts) > 1)
    i = max(data.find(b'\r\n\r\n') + 4, 0) if h != 'lf' else data.index(b'\n\n') + 2
    equal(split_header(data + later), (data[:i], first, later), 'split_header')
    for k in range(0, len(data), max(1, len(data) // 7)):
        if k < len(data): equal(split_header(data[:k])[0], b'' , 'header of an incomplete block', data[:k])

    async def main():
        reader = asyncio.StreamReader()

        async def feed():
            for c in chunks_of(data + later[:extra], cuts):
                reader.feed_data(c)
                for _ in range(3): await asyncio.sleep(0)
            reader.feed_eof()

        class Reader:   # StreamReader.read() without argument waits for the end of the stream, but proxies deliver what is there
            async def read(self, n=-1): return await reader.read(n if n > 0 else 2 ** 16)
            def at_eof(self): return reader.at_eof()
        task = asyncio.ensure_future(feed())
        size, block, backlog = await asyncio.wait_for(read_full_block(Reader()), 20)
        equal((size, bytes(block)), (i, data), 'block')
        check((data + later[:extra]).startswith(block + backlog), 'backlog', backlog)
        await task
        rest = await reader.read()
        equal(bytes(block) + bytes(backlog) + rest, data + later[:extra], 'bytes have been lost')
    asyncio.run(main())
    for text in bodies:
        for payload in (text, text.encode()):
            r = http_response(payload)
            hd, _, body = r.partition(b'\n\n')
            equal(body, text.encode(), 'body of the HTTP response')
            check(b'Content-Length: %i\n' % len(body) in hd, 'Content-Length', hd)


@prop(lambda: st.tuples(st.lists(st.tuples(st.one_of(call, plain.filter(lambda p: p[1] != 'default')), st.sampled_from(['len', 'len+type', 'lf'])), min_size=1, max_size=4), st.lists(st.integers(0, 10 ** 6), max_size=6)), quick=160, shards=4)
def pipes(case, ctx):
    """The same through pipes and the stream-proxies."""
    from DHParser.server import StreamReaderProxy, StreamWriterProxy
    msgs, cuts = case
    used, stream, expected = [], bytearray(), []
    for m, h in msgs:
        body, exp = render(m, used)
        stream += head(h, len(body)) + body
        expected.append(exp)
    ctx.nontrivial(len(msgs) > 1)
    server = make_server()
    r1, w1 = os.pipe()
    r2, w2 = os.pipe()
    out = bytearray()
    want = sum(1 for e in expected if e is not None)

    def client():
        with os.fdopen(w1, 'wb', buffering=0) as f:
            for c in chunks_of(bytes(stream), cuts): f.write(c)
            while out.count(b'Content-Length: ') < want and not finished.wait(0.002): pass

    def receive():
        with os.fdopen(r2, 'rb', buffering=0) as f:
            while True:
                c = f.read(65536)
                if not c: return
                out.extend(c)
    finished = threading.Event()
    threads = [threading.Thread(target=client, daemon=True), threading.Thread(target=receive, daemon=True)]
    for t in threads: t.start()
    timer = threading.Timer(8, finished.set)
    timer.start()
    try:
        server.run_stream_server(StreamReaderProxy(os.fdopen(r1, 'rb')), StreamWriterProxy(os.fdopen(w2, 'wb')))
    finally:
        timer.cancel()
        finished.set()
        for t in threads: t.join(5)
    match(parse_stream(out), expected)
