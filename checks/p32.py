"""Shared helpers (positions, paths, tables, circular paths, caches, thread-local singletons, executors, logs, completion lists)
vs. naive definitions and models of the files they keep."""
import os
import sys
import subprocess
import threading
import time

NAMES = ['a', 'ab', 'abc', 'b', 'bc', 'dir_A', 'dir_B', 'dir', 'x.y', 'ä', 'a b', '..x', 'DIR']


def run(ctx):
    r = ctx.rng
    for i in range(ctx.n(150, 1500)):
        positions(ctx, r)
        paths(ctx, r)
        tables(ctx, r)
        circular(ctx, r)
        completion(ctx, r)
    for i in range(ctx.n(12, 100)):
        caches(ctx, r, i)
        singletons(ctx, r)
        logs(ctx, r, i)
    for mode in ('singlethread', 'multithreading', 'multicore', 'not allowed'):
        executors(ctx, r, mode)


# positions ##########################################################

def positions(ctx, r):
    from DHParser.toolkit import linebreaks, line_col
    from DHParser.stringview import StringView
    text = ''.join(r.choice(['a', 'bc', '\n', '\n', '\r\n', '\u2028', 'ä', ' ', '\x0b']) for _ in range(r.randint(0, 30)))
    ctx.current = w = {'text': text}
    view = text
    if r.random() < 0.5:
        view = StringView('\n' + text + '\n')[1:len(text) + 1]
    lb = linebreaks(view)
    ctx.evaluated(('lb', text), '\n' in text)
    if lb != [-1] + [i for i, c in enumerate(text) if c == '\n'] + [len(text)]:
        ctx.violation('linebreaks', f'{lb} for {text!r}', w)
        return
    for pos in range(len(text) + 1):
        have = line_col(lb, pos)
        head = text[:pos]
        want = (head.count('\n') + 1, pos - (head.rfind('\n') + 1) + 1)
        ctx.count('positions located')
        if have != want:
            ctx.violation('line_col', f'{have} instead of {want} for {pos} in {text!r}', w)
            break
    for pos in (-1, len(text) + 1, len(text) + 7, -5):
        try:
            have = line_col(lb, pos)
        except ValueError:
            continue
        ctx.violation('line_col-outside', f'{have} for {pos} in {text!r}', w)


# paths ##############################################################

def paths(ctx, r):
    from DHParser.toolkit import relative_path, split_path, is_filename, is_html_name
    for _ in range(4):
        pool = r.sample(NAMES, 4)

        def path():
            p = '/'.join(r.choice(pool) for _ in range(r.randint(0, 4)))
            return r.choice(['/', '/', '']) + p or '.'
        a, b = path(), path()
        if r.random() < 0.3:
            b = a.rstrip('/') + '/' + r.choice(pool)
        elif r.random() < 0.3:
            b = a + r.choice(['x', '2'])
        ctx.current = w = {'from': a, 'to': b}
        ctx.evaluated(('rel', a, b), a != b)
        ctx.count('relative paths')
        have = relative_path(a, b)
        if os.path.normpath(os.path.join(os.path.abspath(a), have)) != os.path.abspath(b) or os.path.isabs(have):
            ctx.violation('relative_path', f'{have!r} does not lead from {a!r} to {b!r}', w)
        if len(have.split('/')) > len(os.path.relpath(b, a).split('/')):
            ctx.violation('relative_path', f'{have!r} from {a!r} to {b!r} makes a detour', w)
        for p in (a, b, r.choice(['/', '', './', '../', '//']) + b, a + '/'):
            ctx.current = w = {'path': p}
            ok, parts = ctx.guard(lambda: split_path(p), w)
            if not ok:
                continue
            ctx.count('paths split')
            if os.path.normpath(os.path.join(*parts)) != os.path.normpath(p) or any('/' in x.strip('/') for x in parts) \
                    or any('/' in x for x in parts[1:]):
                ctx.violation('split_path', f'{parts} for {p!r}', w)
    s = ''.join(r.choice(['a', 'b.ebnf', '/', ' ', '\n', '*', '?', '<', '|', '"', '\ufeff', 'ü', '.', '\\']) for _ in range(r.randint(0, 4)))
    ctx.current = w = {'name': s}
    want = bool(s) and s[0] not in '\ufeff\ufffe ' and s[-1] != ' ' and not set(s) & set('*?"<>|\n')
    ctx.count('names judged')
    if bool(is_filename(s)) != want:
        ctx.violation('is_filename', f'{is_filename(s)} for {s!r}', w)
    u = r.choice(['a', 'x.', '']) + r.choice(['.html', '.HTM', 'html', '.htmlx', '.htm', '.xhtm', '.h'])
    if bool(is_html_name(u)) != (os.path.splitext('q' + u)[1].lower() in ('.html', '.htm') or u.lower() in ('.html', '.htm')):
        ctx.violation('is_html_name', f'{is_html_name(u)} for {u!r}', {'name': u})


# tables #############################################################

def tables(ctx, r):
    from DHParser.toolkit import smart_list, expand_table, as_list, as_tuple, as_set, as_frozenset, first, last
    table, want, dup = {}, {}, False
    for v in range(r.randint(0, 6)):
        names = [r.choice('abcdefghijklmnopqrstuvwxyz*<>') + r.choice(['', '', '1', '__']) for _ in range(r.randint(1, 3))]
        names = list(dict.fromkeys(names))
        k = r.choice(['str', 'str', 'tuple', 'frozenset', 'blank', 'semicolon'])
        if k == 'str':
            key = r.choice([', ', ',', ' , ']).join(names)
        elif k == 'semicolon':
            key = r.choice(['; ', ';']).join(names)
        elif k == 'blank':
            key = ' '.join(names)
        elif k == 'tuple':
            key = tuple(names)
        else:
            key = frozenset(names)
        if key in table:
            continue
        table[key] = v
        for n in names:
            dup |= n in want
            want[n] = v
        have = smart_list(key)
        if not isinstance(key, str):
            if have is not key:
                ctx.violation('smart_list', f'{have!r} for {key!r}', {'key': repr(key)})
        elif list(have) != names:
            ctx.violation('smart_list', f'{have!r} for {key!r}', {'key': key})
    ctx.current = w = {'table': repr(table)}
    ctx.evaluated(('table', repr(table)), len(want) > 1)
    before = dict(table)
    try:
        have = expand_table(table)
        err = None
    except KeyError as e:
        have, err = None, e
    ctx.count('tables expanded')
    ctx.count('tables with a name used twice', dup)
    if (err is not None) != dup or not dup and have != want or table != before:
        ctx.violation('expand_table', f'{have} {err!r}\n{table}', w)
    x = r.choice(['abc', '', 5, None, ['q', 1], ('q', 1), [], {1: 2}, 0, 'a b', (3,)])
    ctx.current = w = {'value': repr(x)}
    seq = list(x) if isinstance(x, (list, tuple)) else [x]
    if isinstance(x, dict):
        return
    for fn, typ in ((as_list, list), (as_tuple, tuple), (as_set, set), (as_frozenset, frozenset)):
        have = fn(x)
        if have != typ(seq) or type(have) is not typ:
            ctx.violation(fn.__name__, f'{have!r} for {x!r}', w)
    if seq and (first(x) != seq[0] or last(x) != seq[-1]):
        ctx.violation('first-last', f'{first(x)!r} {last(x)!r} for {x!r}', w)


def circular(ctx, r):
    from DHParser.toolkit import normalize_circular_path, normalize_circular_paths
    p = tuple(r.sample(NAMES, r.randint(1, 6)))
    k = r.randrange(len(p))
    q = p[k:] + p[:k]
    ctx.current = w = {'path': p}
    ctx.evaluated(('circ', p, k), len(p) > 1)
    ctx.count('circular paths')
    n = normalize_circular_path(p)
    if n[0] != min(p) or n not in [p[i:] + p[:i] for i in range(len(p))] or normalize_circular_path(q) != n \
            or normalize_circular_paths({p, q}) != {n} or normalize_circular_paths(q) != n:
        ctx.violation('circular-path', f'{n} for {p} and {q}', w)


def completion(ctx, r):
    from DHParser.lsp import shortlist, gen_lsp_table
    words = sorted(''.join(r.choice('abä\u00ff~z\uffff\U0001F600') for _ in range(r.randint(0, 4))) for _ in range(r.randint(0, 20)))
    typed = r.choice(words or ['a'])[:r.randint(0, 3)] if r.random() < 0.8 else r.choice(['zz', 'b~', '0', 'ä'])
    ctx.current = w = {'words': words, 'typed': typed}
    a, b = shortlist(words, typed)
    ctx.count('completions')
    ctx.evaluated(('short', tuple(words), typed), bool(typed))
    if words[a:b] != ([x for x in words if x.startswith(typed)] if typed else []):
        ctx.violation('shortlist', f'{words[a:b]} for {typed!r} of {words}', w)
    if typed and len(words) > 4:  # incremental: narrowing down an earlier answer
        a1, b1 = shortlist(words, typed[:1])
        if b1 > a1 and words[slice(*shortlist(words, typed, a1, b1))] != [x for x in words if x.startswith(typed)]:
            ctx.violation('shortlist', f'narrowing {typed!r} of {words}', w)
    parts = [r.choice(['textDocument', 'initialize', 'window', 'x']) for _ in range(r.randint(1, 2))]
    pre = r.choice(['lsp_', 'rpc_'])

    class C:
        pass

    def fn(self=None):
        return 1
    name = pre + r.choice(['S_', '']) + '_'.join(parts)
    setattr(C, name, fn)
    setattr(C, 'other', fn)
    setattr(C, pre + 'data', 5)
    fn.__name__ = name
    want = {name[len(pre):].replace('_', '/').replace('S/', '$/')}
    if set(gen_lsp_table(C(), pre)) != want or set(gen_lsp_table([fn], pre)) != want:
        ctx.violation('lsp-table', f'{gen_lsp_table(C(), pre)} for {name}', {'name': name})


# caches #############################################################

CHILD = """
import sys
sys.path.insert(0, {repo!r})
sys.argv[0] = {argv!r}
from DHParser.toolkit import cached_load
calls = []
def des(s):
    calls.append(s)
    return ['v', s]
print(cached_load({fn!r}, des, cachedir={cd!r}) == ['v', open({fn!r}, encoding='utf-8').read()], len(calls))
"""


def caches(ctx, r, i):
    from DHParser.toolkit import cached_load, clear_from_cache
    d = os.path.join(ctx.tmp, f'cache{i}')
    cd = os.path.join(d, 'cd')
    os.makedirs(os.path.join(d, 'sub'))
    os.makedirs(cd)
    files = [os.path.join(d, x) for x in ('one.txt', 'two.txt', 'sub/one.txt')]
    app = os.path.join(cd, os.path.splitext(os.path.basename(sys.argv[0]))[0])
    calls = []

    def des(s):
        calls.append(s)
        return ['v', s]
    text, valid, steps = {}, {}, []
    for f in files:
        text[f] = 'start'
        with open(f, 'w', encoding='utf-8') as h:
            h.write('start')
    for _ in range(r.randint(4, 12)):
        f = r.choice(files)
        name = os.path.splitext(os.path.basename(f))[0]
        cache = os.path.join(app, name + '.pickled')
        k = r.choice(['load', 'load', 'load', 'write', 'write same', 'clear', 'truncate', 'damage', 'process'])
        steps.append((k, os.path.relpath(f, d)))
        ctx.current = w = {'steps': steps}
        if k == 'write' or k == 'write same':
            if k == 'write':
                text[f] = r.choice(['start', 'ä', 'x\ny', '', 'other'])
            with open(f, 'w', encoding='utf-8') as h:
                h.write(text[f])
        elif k == 'clear':
            if os.path.exists(cache):
                clear_from_cache(f, cd)
                if os.path.exists(cache):
                    ctx.violation('cache-clear', f'{steps}', w)
                valid.pop(name, None)
        elif k in ('truncate', 'damage'):
            if os.path.exists(cache):
                data = open(cache, 'rb').read()
                with open(cache, 'wb') as h:
                    h.write(data[:r.randrange(max(1, len(data)))] if k == 'truncate' else b'\x00garbage' + data[3:])
                valid[name] = None
                ctx.count('damaged caches')
        elif k == 'process':
            if ctx.chunk > 3 or i > 3:
                continue
            env = dict(os.environ, PYTHONHASHSEED=str(r.randrange(1, 10000)))
            argv = sys.argv[0]
            out = subprocess.run([sys.executable, '-c', CHILD.format(repo=os.environ.get('VT_REPO', '/repo'), argv=argv, fn=f, cd=cd)],
                                 capture_output=True, text=True, env=env, timeout=120)
            ctx.count('caches used by other processes')
            hit = valid.get(name) == text[f] and name in valid and valid[name] is not None
            got = out.stdout.split('\n')[-2:-1]
            if got != [f'True {0 if hit else 1}']:
                ctx.violation('cache-process', f'{steps}\n{out.stdout[-300:]}{out.stderr[-500:]}', w)
            valid[name] = text[f]
        else:
            n = len(calls)
            import contextlib
            import io
            with contextlib.redirect_stdout(io.StringIO()):
                have = cached_load(f, des, cachedir=cd)
            ctx.count('cached loads')
            ctx.evaluated(('cache', ctx.chunk, i, len(steps)), True)
            if have != ['v', text[f]]:
                ctx.violation('cache-content', f'{have} instead of {text[f]!r}\n{steps}', w)
            hit = valid.get(name) is not None and valid[name] == text[f]
            ctx.count('cache hits', hit)
            if hit and len(calls) != n:
                ctx.violation('cache-miss', f'deserialized again\n{steps}', w)
            valid[name] = text[f]


# singletons #########################################################

def singletons(ctx, r):
    from DHParser.toolkit import ThreadLocalSingletonFactory
    made = []

    class Obj:
        def __init__(self):
            made.append(self)
            time.sleep(0.0005)
    n, k = r.randint(2, 6), r.randint(1, 3)
    ctx.current = w = {'threads': n, 'factories': k}
    fs = [ThreadLocalSingletonFactory(Obj, name=r.choice(['', 'same'])) for _ in range(k)]
    got, bar, lock = {}, threading.Barrier(n), threading.Lock()

    def work(t):
        bar.wait()
        for j in range(4):
            for q, f in enumerate(fs):
                o = f()
                with lock:
                    got.setdefault((t, q), set()).add(id(o))
    ts = [threading.Thread(target=work, args=(t,)) for t in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    ctx.count('thread-local singletons', n * k)
    ctx.evaluated(('single', ctx.chunk, ctx.counts.get('thread-local singletons', 0) if hasattr(ctx, 'counts') else r.random()), True)
    ids = [x for s in got.values() for x in s]
    if any(len(s) != 1 for s in got.values()) or len(set(ids)) != n * k or len(made) != n * k:
        ctx.violation('singletons', f'{n} threads, {k} factories: {len(made)} objects made, {len(set(ids))} seen', w)


# executors ##########################################################

def square(x, y=1):
    if x == 13:
        raise LookupError('thirteen')
    return x * x * y


def place():
    return os.getpid(), threading.get_ident()


def executors(ctx, r, mode):
    import concurrent.futures as cf
    from DHParser.toolkit import instantiate_executor
    from DHParser.configuration import get_config_value, set_config_value
    save = get_config_value('debug_parallel_execution')
    if mode != 'not allowed':
        set_config_value('debug_parallel_execution', mode)
    pref = r.choice([cf.ThreadPoolExecutor, cf.ProcessPoolExecutor if ctx.chunk % 4 == 0 else cf.ThreadPoolExecutor])
    ctx.current = w = {'mode': mode, 'preferred': pref.__name__}
    try:
        with instantiate_executor(mode != 'not allowed', pref, 2) as ex:
            places = {f.result(timeout=300) for f in [ex.submit(place) for _ in range(3)]}
            same_process = {pid == os.getpid() for pid, _ in places}
            here = {t == threading.get_ident() for _, t in places}
            if mode in ('singlethread', 'not allowed'):
                good = same_process == {True} and here == {True}
            elif mode == 'multithreading' or pref is cf.ThreadPoolExecutor:
                good = same_process == {True} and here == {False}
            else:
                good = same_process == {False}
            if not good:
                ctx.violation('executor-kind', f'tasks ran in {places}, own process {os.getpid()}', w)
            xs = [r.choice([1, 2, 3, 13, 5]) for _ in range(12)]
            fs = [ex.submit(square, x, y=2) if j % 2 else ex.submit(square, x) for j, x in enumerate(xs)]
            for j, (x, f) in enumerate(zip(xs, fs)):
                e = f.exception(timeout=300)
                ctx.count('tasks executed')
                ctx.evaluated(('exec', mode, ctx.chunk, j), True)
                if (x == 13) != isinstance(e, LookupError) or e is None and f.result() != x * x * (2 if j % 2 else 1):
                    ctx.violation('executor-result', f'{x}: {e!r} {f}', w)
            ys = [x for x in xs if x != 13]
            if list(ex.map(square, ys, range(len(ys)))) != [y * y * k for k, y in enumerate(ys)]:
                ctx.violation('executor-map', f'{ys}', w)
    finally:
        set_config_value('debug_parallel_execution', save)


# logs ###############################################################

def logs(ctx, r, i):
    from DHParser import log
    from DHParser.configuration import get_config_value, set_config_value
    base = os.path.join(ctx.tmp, f'logs{i}')
    os.mkdir(base)
    dirs = [os.path.join(base, x) for x in ('A', 'B')]
    save = get_config_value('log_dir')
    set_config_value('log_dir', '')
    current, files, steps = '', {}, []

    def make(dn):
        if dn not in made:
            made.add(dn)
    made = set()
    stack = []
    try:
        for _ in range(r.randint(4, 16)):
            k = r.choice(['create', 'append', 'append', 'append path', 'switch', 'suspend', 'resume', 'clear', 'local', 'end local', 'other'])
            n = r.choice(['x.log', 'y.cst', 'z.ast', 'keep.txt'])
            steps.append((k, n))
            ctx.current = w = {'steps': steps}
            if k == 'create':
                res = log.create_log(n)
                if current:
                    made.add(current)
                    files[(current, n)] = 'LOG-FILE: ' + n + '\n\n'
                if res != (n if current else ''):
                    ctx.violation('log-create', f'{res!r}\n{steps}', w)
            elif k == 'append':
                s = [r.choice(['a', 'ä\n', '']) for _ in range(r.randint(0, 3))]
                log.append_log(n, *s)
                if current:
                    made.add(current)
                    files.setdefault((current, n), 'LOG-FILE: ' + os.path.join(current, n) + '\n\n')
                    files[(current, n)] += ''.join(s)
            elif k == 'append path':
                log.append_log(os.path.join(base, n), 'p')
                files.setdefault((base, n), 'LOG-FILE: ' + os.path.join(base, n) + '\n\n')
                files[(base, n)] += 'p'
            elif k == 'switch':
                current = r.choice(dirs)
                made.add(current)
                if log.log_dir(current) != current:
                    ctx.violation('log-dir', f'{steps}', w)
            elif k == 'suspend':
                if log.suspend_logging() != current:
                    ctx.violation('log-suspend', f'{steps}', w)
                current = ''
            elif k == 'resume':
                current = r.choice(dirs)
                log.resume_logging(current)
            elif k == 'local':
                d = r.choice(dirs)
                c = log.local_log_dir(d)
                c.__enter__()
                stack.append((c, current))
                current = d
                made.add(d)
            elif k == 'end local':
                if stack:
                    c, current = stack.pop()
                    if r.random() < 0.5:
                        c.__exit__(None, None, None)
                    else:
                        try:
                            c.__exit__(LookupError, LookupError('x'), None)
                        except LookupError:
                            pass
            elif k == 'clear':
                if current:
                    log.clear_logs()
                    for key in list(files):
                        if key[0] == current and os.path.splitext(key[1])[1] in ('.cst', '.ast', '.log'):
                            del files[key]
                    made.add(current)
                    if not any(key[0] == current for key in files):
                        made.discard(current)
            else:  # another thread neither sees nor changes the settings of this one
                seen = []

                def other():
                    set_config_value('log_dir', '')
                    log.suspend_logging()
                    seen.append(log.is_logging())
                    log.create_log(n)
                t = threading.Thread(target=other)
                t.start()
                t.join()
                if seen != [False]:
                    ctx.violation('log-thread', f'{steps}', w)
            ctx.count('steps with logs')
            ctx.evaluated(('log', ctx.chunk, i, len(steps)), bool(files))
            if log.is_logging() != bool(current) or get_config_value('log_dir') != current:
                ctx.violation('log-state', f'log-dir {get_config_value("log_dir")!r} instead of {current!r}\n{steps}', w)
                return
            have = {}
            for dn, _, fs in os.walk(base):
                for f in fs:
                    if f != 'info.txt':
                        have[(dn, f)] = open(os.path.join(dn, f), encoding='utf-8').read()
            if have != files or {d for d in dirs if os.path.isdir(d)} != made:
                ctx.violation('log-files', f'{have}\ninstead of {files}\n{made}\n{steps}', w)
                return
    finally:
        set_config_value('log_dir', save)
