"""Server: every request with an id answered exactly once, by the result of its own call."""
import asyncio, json, os, re, threading
from vt import dh
from checks import p23_funcs as F


class Reader(asyncio.StreamReader):
    """a stream-reader that tells what it has handed out"""
    fed = taken = 0

    def feed_data(self, data):
        self.fed += len(data)
        super().feed_data(data)

    async def read(self, n=-1):
        d = await super().read(n)
        self.taken += len(d)
        return d

    @property
    def emptied(self):
        return self.fed == self.taken


class Writer:
    """records what is written; takes its time, if asked to"""

    def __init__(self, r):
        self.r, self.data, self.closed, self.after = r, bytearray(), False, False

    def write(self, data):
        self.after = self.after or self.closed
        self.data += data

    async def drain(self):
        for _ in range(self.r.choice([0, 0, 0, 1, 2, 5])):
            await asyncio.sleep(0)

    def can_write_eof(self):
        return True

    def write_eof(self):
        self.closed = True

    def close(self):
        self.closed = True

    async def wait_closed(self):
        pass


def frames(data):
    """-> (list of bodies, remainder that is not framed)"""
    out, raw, i = [], b'', 0
    rx = re.compile(rb'Content-Length:\s*(\d+)\r?\n(?:[^\r\n]+\r?\n)*\r?\n')
    while i < len(data):
        m = rx.match(data, i)
        if m and m.end() + int(m.group(1)) <= len(data):
            out.append(bytes(data[m.end():m.end() + int(m.group(1))]))
            i = m.end() + int(m.group(1))
        else:
            j = data.find(b'Content-Length:', i + 1)
            j = len(data) if j < 0 else j
            raw += bytes(data[i:j])
            i = j
    return out, raw


WORDS = ['x', 'ab', 'München', '{}', '"q"', "it's", 'a\nb', '€', '', '\\', 'Content-Length: 5', '日本', '[1]', '%s', '\u2028', '\x01']


def jvalue(r, d=2):
    k = r.random()
    if d and k < 0.2:
        return [jvalue(r, d - 1) for _ in range(r.randint(0, 3))]
    if d and k < 0.4:
        return {r.choice(['a', 'b', 'key', 'ä', 'result', 'id']): jvalue(r, d - 1) for _ in range(r.randint(0, 3))}
    return r.choice([r.randint(-9, 10**12), r.choice(WORDS), None, True, False, 1.5, r.choice(WORDS) * 20])


class Expect:
    """what must come back: kind 'result', 'error', 'either' or 'open'"""

    def __init__(self, kind, value=None, code=None):
        self.kind, self.value, self.code = kind, value, code

    def __repr__(self):
        return f'{self.kind}:{self.value!r}/{self.code}'

    def fits(self, obj):
        if 'error' in obj and 'result' not in obj:
            e = obj['error']
            return self.kind in ('error', 'either', 'open') and isinstance(e, dict) and isinstance(e.get('code'), int) \
                and isinstance(e.get('message'), str) and (self.code is None or self.kind == 'either' or e['code'] == self.code)
        if 'result' in obj and 'error' not in obj:
            return self.kind in ('result', 'either', 'open') and (self.kind == 'open' or obj['result'] == self.value and
                                                                type(obj['result']) is type(self.value))
        return False


def call(ctx, procs, deadly):
    """-> (method, params, fn(id) -> Expect)"""
    r = ctx.rng
    args = [jvalue(r) for _ in range(r.randint(0, 3))]
    kw = {k: jvalue(r) for k in r.sample(['a', 'p1', 'ß', 'text', 'method', 'jsonrpc2'], r.randint(0, 3))}
    positional = r.random() < 0.3
    ms = ['echo', 'echo', 'in_thread', 'in_thread', 'waits', 'waits', 'raises', 'raises_in_thread', 'raises_later', 'nothing', 'diagnostic', 'error_result',
          'odd_error', 'raw_json', 'value', 'unserializable', 'unknown', 'add', 'scalar']
    if procs:
        ms += ['in_process'] * 4 + ['raises_in_process', 'not_picklable']
    if deadly:
        ms += ['die', 'die_once']
    m = r.choice(ms)
    if m in ('echo', 'in_thread', 'in_process', 'waits'):
        if m != 'echo' and not positional:
            kw['delay'] = r.choice([0, 0, 0.001, 0.003, 0.01])
        if m == 'waits' and not positional:
            kw['steps'] = r.choice([0, 1, 2, 7])
        shown = {k: v for k, v in kw.items() if k not in ('delay', 'steps') or m == 'echo'}
        kind = 'either' if m == 'in_process' and deadly else 'result'
        if positional:
            return m, args, lambda i: Expect(kind, {'f': m, 'args': args, 'kw': {}, 'ID': '-'})
        return m, kw, lambda i: Expect(kind, {'f': m, 'args': [], 'kw': shown, 'ID': i})
    if m == 'add':
        if r.random() < 0.3:
            return m, r.choice([{'a': 1}, [1], [1, 2, 3, 4], {}, {'a': 1, 'b': 'x'}]), lambda i: Expect('error', code=-32602)
        a, b = r.randint(-99, 99), r.randint(-99, 99)
        return m, r.choice([[a, b], {'a': a, 'b': b}, {'b': b, 'a': a, 'c': 1}]), lambda i: Expect('result', a + b)
    if m.startswith('raises'):
        return m, {'kind': r.choice(['ValueError', 'TypeError', 'NameError', 'KeyError', 'OSError', 'AssertionError', 'RuntimeError']),
                   'text': r.choice(WORDS)}, lambda i: Expect('error')
    if m == 'nothing':
        return m, args if positional else kw, lambda i: Expect('result', None)
    if m == 'diagnostic':
        code = r.choice(['E501', 7, -3, 'x y', None])
        return m, {'code': code}, lambda i: Expect('result', {'code': code, 'message': 'line too long', 'range': [1, 2]})
    if m == 'error_result':
        code = r.choice([-32001, -1, 5, 0])
        return m, {'code': code, 'text': r.choice(WORDS)}, lambda i: Expect('error', code=code)
    if m == 'odd_error':
        return m, {}, lambda i: Expect('open')
    if m == 'raw_json':
        return m, kw, lambda i: Expect('result', {'raw': [1, 2, 'ä']})
    if m == 'value':
        v = r.choice([0, '', False, [], {}, 'text', [None], 1.5, {'code': 1}, {'result': 2}, {'id': 9}, None])
        return m, {'v': v}, lambda i: Expect('result', v)
    if m in ('unserializable', 'not_picklable', 'die'):
        return m, args if positional else kw, lambda i: Expect('error')
    if m == 'die_once':
        return m, {'flag': os.path.join(ctx.tmp, f'flag{r.randrange(10**9)}')}, lambda i: Expect('either', {'f': 'die_once', 'ID': i})
    if m == 'scalar':
        return 'echo', r.choice([5, 'text', True, 1.5, '']), lambda i: Expect('error')
    return r.choice(['unknown', 'Echo', 'echo ', '__init__', 'textDocument/hover', 'rpc_info']), kw, lambda i: Expect('error', code=-32601)


MALFORMED = [b'{"jsonrpc": "2.0", "method": "echo", "id": 1', b'{"jsonrpc": "2.0" "method"}', b'{"jsonrpc": "2.0", "method": "e\xff\xfe", "id": 1}',
             b'[{"jsonrpc": "2.0"}, 1]', b'"jsonrpc"', b'{"jsonrpc": }', b'{"jsonrpc": "2.0", \'id\': 3}', b'{"jsonrpc": "2.0", "x": "\\q"}',
             b'{"jsonrpc": "2.0", "a": "line\nbreak"}', b'nonsense "jsonrpc" \\ "quoted"', b'{"jsonrpc": "2.0"}}', '{"jsonrpc": "ä", "b": }'.encode()]


class Session:
    """messages = [(bytes, expectation)]; expected responses by id, by text, or anonymous errors"""

    def __init__(self, ctx, strict):
        self.ctx, self.strict = ctx, strict
        self.by_id, self.plain, self.anonymous = {}, [], 0
        self.state = ''
        self.shut = False
        self.messages = []
        self.ids = set()
        self.kinds = {}

    def new_id(self):
        r = self.ctx.rng
        while True:
            i = r.choice([r.randint(0, 9), r.randint(0, 200), r.randint(0, 200), 10**12 + r.randint(0, 9), f'id{r.randint(0, 99)}', str(r.randint(0, 20)), 'ä"\\'])
            if i not in self.ids and not (isinstance(i, str) and i.isdigit() and int(i) in self.ids) and not (isinstance(i, int) and str(i) in self.ids):
                self.ids.add(i)
                return i

    def frame(self, body):
        r = self.ctx.rng
        nl = r.choice([b'\r\n', b'\r\n', b'\r\n', b'\n'])
        extra = r.choice([b'', b'', b'', b'Content-Type: application/vscode-jsonrpc; charset=utf-8' + nl])
        return b'Content-Length: %i' % len(body) + nl + extra + nl + body

    def kind(self, k):
        self.kinds[k] = self.kinds.get(k, 0) + 1

    def lsp(self, method, is_request):
        """-> None if the call is admitted, else True (error)"""
        if not self.strict:
            pass
        if method == 'initialize':
            if self.state or self.shut == 'shutting':
                return True
            self.state, self.shut = 'initializing', ''
        elif method == 'initialized':
            if self.state != 'initializing':
                return True
            self.state = 'initialized'
        elif method == 'shutdown':
            self.state, self.shut = '', 'shutting'
        elif self.strict and (self.shut or self.state != 'initialized'):
            return True
        return None

    def json(self, method, params, expect, absent=False, notify=False):
        r = self.ctx.rng
        obj = {'jsonrpc': '2.0', 'method': method}
        if not absent:
            obj['params'] = params
        i = None
        if not notify:
            i = obj['id'] = self.new_id()
        items = list(obj.items())
        r.shuffle(items)
        body = json.dumps(dict(items), ensure_ascii=r.random() < 0.5, indent=r.choice([None, None, 2])).encode()
        refused = self.lsp(method, not notify)
        if not notify:
            e = Expect('error') if refused else expect(i)
            self.by_id[i] = (e, body)
            self.kind(('refused' if refused else e.kind) + (': ' + method if method in F.__dict__ or method in LSP else ': other'))
        else:
            self.kind('notification')
        self.messages.append(self.frame(body))

    def other(self):
        r = self.ctx.rng
        k = r.random()
        if k < 0.35:
            body = r.choice(MALFORMED)
            self.anonymous += 1
            self.kind('malformed')
            self.messages.append(self.frame(body))
        elif k < 0.6:
            i = self.new_id()
            obj = r.choice([{'jsonrpc': '2.0', 'method': 5, 'id': i}, {'jsonrpc': '2.0', 'method': ['echo'], 'id': i}, {'jsonrpc': '2.0', 'id': i},
                            {'jsonrpc': '1.0', 'method': 'value', 'id': i}, {'jsonrpc': 2.0, 'method': 'value', 'id': i},
                            {'jsonrpc': '2.0', 'method': '', 'id': i}, {'jsonrpc': None, 'method': 'value', 'id': i}])
            if isinstance(obj.get('method'), str) and obj['method']:
                self.lsp(obj['method'], True)
            self.by_id[i] = (Expect('error'), repr(obj))
            self.kind('invalid request')
            self.messages.append(self.frame(json.dumps(obj).encode()))
        else:
            tok = f't{r.randrange(10**9)}'
            extra = r.choice(['', ', 5', ', "München"', ', None', ', true', ', "a b"'])
            if k < 0.8:
                body = f'plain({tok}{extra})'
                want = 'plain:' + ','.join([repr(tok)] + {'': [], ', 5': ['5'], ', "München"': ["'München'"], ', None': ['None'], ', true': ['True'],
                                                          ', "a b"': ["'a b'"]}[extra])
            elif k < 0.95:
                body = r.choice(['some text ', 'é ', 'two\nlines ', '(', 'f(', '[1] ']) + tok
                want = 'default:' + body
            else:
                body, want = f'nofunc{tok}()', None
            self.kind('plain')
            self.plain.append((want, tok))
            self.messages.append(self.frame(body.encode()))


LSP = ('initialize', 'initialized', 'shutdown')


def session(ctx, procs, deadly):
    r = ctx.rng
    s = Session(ctx, r.random() < 0.4)
    if procs:      # worker processes are forked before there are any threads
        if s.strict:
            s.json('initialize', {}, lambda i: Expect('result', None))
            s.json('initialized', {}, None, notify=True)
        m = 'in_process'
        s.json(m, {'delay': 0}, lambda i: Expect('result', {'f': m, 'args': [], 'kw': {}, 'ID': i}))
    s.head = len(s.messages)
    if s.strict and not procs and r.random() < 0.8:
        s.json('initialize', {}, lambda i: Expect('result', None))
        s.json('initialized', {}, None, notify=True)
    for _ in range(r.choice([1, 3, 8, 15, 30])):
        k = r.random()
        if k < 0.2:
            s.other()
        elif k < (0.35 if s.strict else 0.25):
            m = r.choice(LSP)
            s.json(m, {}, lambda i: Expect('result', None), absent=r.random() < 0.3, notify=m == 'initialized')
        else:
            m, p, e = call(ctx, procs, deadly)
            s.json(m, p, e, notify=r.random() < 0.08)
    return s


def server(s):
    from DHParser.server import Server
    return Server(list(F.ALL), cpu_bound=set(F.CPU), blocking=set(F.BLOCKING), strict_lsp=s.strict)


async def conversation(ctx, s, srv, chunks, eof):
    """feeds the chunks, waits until the server has nothing left to do"""
    r = ctx.rng
    reader, writer = Reader(), Writer(r)
    me = asyncio.current_task()
    main = asyncio.create_task(srv.serve_via_streams(reader, writer))

    async def idle():
        quiet = 0
        while quiet < 25 and not main.done():
            await asyncio.sleep(0 if quiet or r.random() < 0.5 else 0.001)
            busy = [t for t in asyncio.all_tasks() if t not in (me, main)]
            quiet = 0 if busy or not reader.emptied else quiet + 1

    n = len(chunks)
    for i, c in enumerate(chunks):
        if c is None:
            await idle()
            continue
        if main.done():
            break
        reader.feed_data(c)
        if eof and i == n - 1:
            reader.feed_eof()
        for _ in range(r.choice([0, 0, 1, 1, 3])):
            await asyncio.sleep(0)
        if r.random() < 0.03:
            await asyncio.sleep(0.003)
    await idle()
    crashed = None
    before = len(writer.data)
    if main.done():
        crashed = main.exception()
    elif not eof:
        reader.feed_data(b'Content-Length: 33\r\n\r\n{"jsonrpc":"2.0","method":"exit"}')
        try:
            await asyncio.wait_for(asyncio.shield(main), 30)
        except asyncio.TimeoutError:
            crashed = 'exit does not end the session'
            main.cancel()
        except Exception as e:
            crashed = e
    else:
        await main
    return bytes(writer.data), before, crashed, main


def cut(r, s):
    """the messages in pieces; None: wait until the server is idle"""
    head = s.messages[:s.head]
    out = [c for m in head for c in (m, None)]
    msgs = s.messages[s.head:]
    mode = r.choice(['whole', 'one', 'bytes', 'random', 'random', 'sequential', 'pairs'])
    if mode == 'whole':
        out += msgs
    elif mode == 'one':
        out.append(b''.join(msgs))
    elif mode == 'sequential':
        out += [c for m in msgs for c in (m, None)]
    elif mode == 'pairs':
        out += [b''.join(msgs[i:i + 2]) for i in range(0, len(msgs), 2)]
    else:
        data = b''.join(msgs)
        top = 1 if mode == 'bytes' and len(data) < 4000 else r.choice([3, 17, 60, 300])
        i = 0
        while i < len(data):
            k = r.randint(1, top)
            out.append(data[i:i + k])
            i += k
    return mode, [c for c in out if c != b'']


def judge(ctx, s, data, crashed, mode, complete=True):
    wit = ctx.current
    if crashed:
        ctx.violation('session dies: ' + (type(crashed).__name__ if isinstance(crashed, BaseException) else 'no end'), f'{mode} {crashed!r}', wit)
        return
    bodies, raw = frames(data)
    if raw:
        ctx.violation('malformed transmission', f'{mode} {raw[:300]!r}', wit)
    got, texts, anonymous = {}, [], 0
    for b in bodies:
        if b'"jsonrpc"' in b:
            try:
                obj = json.loads(b)
                assert obj['jsonrpc'] == '2.0' and ('result' in obj or 'error' in obj)
            except Exception as e:
                ctx.violation('response is not well-formed', f'{b!r} {e!r}', wit)
                continue
            i = obj.get('id', None)
            if i in s.by_id and any(type(j) is type(i) and j == i for j in s.by_id):
                got.setdefault(i, []).append(obj)
            elif i is None and 'error' in obj:
                anonymous += 1
            elif isinstance(i, int) and i < 0:
                ctx.count('responses to notifications')
            else:
                ctx.violation('response without request', f'{b!r}', wit)
        else:
            texts.append(b.decode())
    for i, (e, body) in s.by_id.items():
        rs = got.get(i, [])
        ctx.evaluated((s.strict, mode, body, repr(e)), mode != 'sequential')
        if len(rs) != 1:
            ctx.violation('no response' if not rs else 'several responses', f'{mode} {i!r} {body} {e}: {rs}', wit)
        elif not e.fits(rs[0]):
            ctx.violation('wrong response', f'{mode} {body}: expected {e}, got {rs[0]}', wit)
    ctx.count('requests', len(s.by_id))
    for want, tok in s.plain:
        hits = [t for t in texts if tok in t]
        ctx.evaluated((mode, want, tok), True)
        if len(hits) != 1 or want is not None and hits[0] != want:
            ctx.violation('plain request', f'{mode} expected {want!r} got {hits}', wit)
    ctx.count('plain requests', len(s.plain))
    if anonymous < s.anonymous:
        ctx.violation('malformed request not answered', f'{mode} {s.anonymous} malformed, {anonymous} answers', wit)
    ctx.count('malformed messages', s.anonymous)


def streams(ctx):
    r = ctx.rng
    procs = r.random() < 0.12
    deadly = procs and r.random() < 0.5
    s = session(ctx, procs, deadly)
    mode, chunks = cut(r, s)
    eof = not deadly and r.random() < 0.2
    if eof and chunks[-1] is None:
        chunks.pop()
    ctx.current = (s.strict, mode, eof, b'|'.join(c or b'<idle>' for c in chunks))
    srv = server(s)

    async def limited():
        return await asyncio.wait_for(conversation(ctx, s, srv, chunks, eof), 100)
    exc = []

    def handler(loop, c):
        exc.append(repr(c.get('exception') or c.get('message')))

    async def go():
        asyncio.get_running_loop().set_exception_handler(handler)
        return await limited()
    data, _, crashed, _ = dh.quiet(lambda: asyncio.run(go()))
    for k, v in s.kinds.items():
        ctx.count('messages: ' + k, v)
    ctx.count('sessions: ' + mode + (', closed by the client' if eof else ''))
    ctx.count('chunks', len(chunks))
    if procs:
        ctx.count('sessions with worker processes' + (' that die' if deadly else ''))
    judge(ctx, s, data, crashed, mode + ('+eof' if eof else ''))


def pipes(ctx):
    """the server reads from and writes to file-like objects"""
    from DHParser.server import StreamReaderProxy, StreamWriterProxy
    r = ctx.rng
    s = session(ctx, False, False)
    mode = 'pipes'
    ctx.current = (s.strict, mode, b'|'.join(s.messages))
    srv = server(s)
    i1, o1 = os.pipe()
    i2, o2 = os.pipe()
    rd, wr = os.fdopen(i1, 'rb'), os.fdopen(o2, 'wb')
    died = []

    def serve():
        try:
            srv.run_stream_server(StreamReaderProxy(rd), StreamWriterProxy(wr))
        except BaseException as e:
            died.append(e)
        finally:
            try:
                wr.close()
            except Exception:
                pass
    collected = bytearray()

    def collect():
        while True:
            b = os.read(i2, 65536)
            if not b:
                return
            collected.extend(b)
    th, tc = threading.Thread(target=serve, daemon=True), threading.Thread(target=collect, daemon=True)
    th.start()
    tc.start()
    data = b''.join(s.messages)
    eof = r.random() < 0.5
    if not eof:
        data += b'Content-Length: 33\r\n\r\n{"jsonrpc":"2.0","method":"exit"}'
    i = 0
    try:
        while i < len(data):
            k = r.choice([1, 7, 50, 1000, 10**6])
            os.write(o1, data[i:i + k])
            i += k
    except BrokenPipeError:
        pass
    os.close(o1)
    th.join(60)
    if th.is_alive():
        raise TimeoutError('server thread does not end')
    tc.join(30)
    os.close(i2)
    for f in (rd, wr):
        try:
            f.close()
        except Exception:
            pass
    ctx.count('sessions: pipes' + (', closed by the client' if eof else ''))
    judge(ctx, s, bytes(collected), died[0] if died else None, mode + ('+eof' if eof else ''))


def run(ctx):
    for _ in range(ctx.n(25, 60)):
        streams(ctx)
    for _ in range(ctx.n(3, 8)):
        pipes(ctx)
