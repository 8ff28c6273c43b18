"""P24: configuration values: validation, isolation of threads, inheritance of presets, configuration files, worker processes."""
import atexit, fnmatch, json, os, queue, subprocess, sys, threading
from vt import core

FIXED = {  # key: (valid values, invalid values)
    'max_parser_dropouts': ([0, 1, 2, 3, 17], []),
    'reentry_search_window': ([-1, 10, 50000], []),
    'history_tracking': ([True, False], []),
    'CST_serialization': (['XML', 'sxpr', 'json', ''], ['nonsense', 5, None, 'xml ']),
    'AST_serialization': (['XML', 'indented', ''], ['nonsense', 7.5]),
    'default_serialization': (['XML', 'sxpr', 'indented'], ['', 'nonsense', None]),
    'xml_attribute_error_handling': (['fail', 'fix', 'ignore', 'lxml'], ['FAIL', 1]),
    'log_syntax_trees': ([frozenset(), frozenset({'cst'}), frozenset({'cst', 'ast'}), 'ast'], []),
    'syntax_variant': (['dhparser', 'strict', 'classic', 'heuristic'], ['cobol', None]),
    'optimizations': ([frozenset(), frozenset({'literal'}), frozenset({'sequence', 'lookahead'})], [frozenset({'literal', 'foo'}), ['bar'], 'literals']),
    'default_literalws': (['none', 'right', 'both'], []),
    'delimiter_set': ([{'DEF': '=', 'OR': '|'}, {'DEF': ':=', 'OR': '/', 'AND': '%s %%'}], []),
    'server_default_host': (['127.0.0.1', 'localhost', 'a % b', "it's", '#x', '"ä"\n'], []),
    'server_default_port': ([8888, 1, 65535], []),
    'debug_parallel_execution': (['singlethread', 'commandline', 'multithreading'], ['threads', 0]),
    'deprecation_policy': (['warn', 'fail'], ['ignore']),
    'vt_ranged': ([1, 10, 5.5], [0, 11, -3, 10.01, 'five', None]),
    'vt_set': (['a', 'b'], ['c', '']),
}
NEW = ['vt_new1', 'vt_new2', 'vt.x', 'vt.y', 'other.x', 'other.a.b']
OLD = {'AST_serialization': 'ast_serialization', 'CST_serialization': 'cst_serialization'}    # deprecated names, still understood
PATTERNS = ['*', 'server_*', 'vt*', '*.x', 'CST_*', '*_serialization', 'nothing*', 'max_parser_dropouts', '[lx]*', 'vt.?', '*default*', 'other.*']
FREE = [1, -2, 3.25, 'text', '50 % off', '%(x)s', None, True, [1, 2], {'a': [1]}, ('t', 1), "quote'\"s", '[x]', 'a = b', '; c', '', 'ä\nö']


def same(a, b):
    return type(a) is type(b) and a == b


def among(v, values):
    return any(same(v, w) for w in values)


class Worker:
    """a thread that executes what the controller sends"""
    def __init__(self):
        self.todo, self.done = queue.Queue(), queue.Queue()
        self.thread = threading.Thread(target=self.loop, daemon=True)
        self.thread.start()

    def loop(self):
        while True:
            fn = self.todo.get()
            if fn is None:
                return
            try:
                self.done.put(('ok', fn()))
            except BaseException as e:
                self.done.put(('raised', e))

    def __call__(self, fn):
        self.todo.put(fn)
        return self.done.get(timeout=60)


class Main:
    def __call__(self, fn):
        try:
            return 'ok', fn()
        except Exception as e:
            return 'raised', e


class Model:
    def __init__(self, presets):
        self.history = {k: [v] for k, v in presets.items()}     # all values a preset has had
        self.own = {}       # thread -> {key: value}
        self.start = {}     # thread -> {key: index of the preset valid at its start}

    def new_thread(self, t):
        self.own[t] = {}
        self.start[t] = {k: len(h) - 1 for k, h in self.history.items()}

    def preset(self, t, k, v):
        self.history.setdefault(k, []).append(v)
        self.own[t][k] = v

    def allowed(self, t, k):
        """values that thread t may see; None if the key may be absent is signalled separately"""
        if k in self.own[t]:
            return [self.own[t][k]]
        return self.history.get(k, [])[self.start[t].get(k, 0):]

    def certain(self, t, k):
        return k in self.own[t] or k in self.start[t]


def history(ctx, C):
    r = ctx.rng
    C.ALLOWED_PRESET_VALUES['vt_ranged'] = (1, 10)
    C.ALLOWED_PRESET_VALUES['vt_set'] = frozenset({'a', 'b'})
    C.CONFIG_PRESET.setdefault('vt_ranged', 5)
    C.CONFIG_PRESET.setdefault('vt_set', 'a')
    C.reset_config_dict()
    model = Model(dict(C.CONFIG_PRESET))
    threads = {'main': Main()}
    model.new_thread('main')
    log = []
    ctx.current = log
    session = [None]     # thread that is accessing the presets
    def close():
        if C.is_accessing_presets():
            C.finalize_presets()
            bad('session-left-open', 'after this the presets cannot be accessed any more')

    bad = lambda key, msg: ctx.violation(key, msg + '\nhistory:\n' + '\n'.join(log[-25:]), {'history': list(log)})

    def pick():
        k = r.choice([*FIXED, *NEW]) if r.random() < 0.85 else r.choice([*FIXED])
        return k

    def value(k, invalid=False):
        return r.choice(FIXED[k][1] if invalid else FIXED[k][0]) if k in FIXED else r.choice(FREE)

    def check_get(t, k, how, res):
        ok, v = res
        allowed = model.allowed(t, k)
        if ok == 'raised':
            if isinstance(v, KeyError) and not model.certain(t, k):
                ctx.count('reads: unknown key reported')
                return
            bad('read-fails' if not isinstance(v, KeyError) else 'value-missing', f'{how} in thread {t} raised {type(v).__name__}: {v}')
        elif not among(v, allowed):
            bad('foreign-value', f'{how} in thread {t} yields {v!r}; set or inherited: {allowed!r}')
        else:
            ctx.count('reads: own value' if k in model.own[t] else 'reads: inherited value')

    for step in range(r.randint(20, 60)):
        if (r.random() < 0.12 and len(threads) < 6):
            t = f't{len(model.own)}'
            threads[t] = Worker()
            model.new_thread(t)
            log.append(f'{t} started')
            continue
        t = r.choice(list(threads))
        run = threads[t]
        op = r.random()
        k = pick()
        if op < 0.22:
            invalid = k in FIXED and FIXED[k][1] and r.random() < 0.4
            v = value(k, invalid)
            allow = k in NEW and r.random() < 0.8
            name = OLD.get(k, k) if r.random() < 0.3 else k
            ctx.count('deprecated names', name != k)
            log.append(f'{t}: set {name} = {v!r}{" (new)" if allow else ""}')
            ok, e = run(lambda: C.set_config_value(name, v, allow_new_key=True) if allow else C.set_config_value(name, v))
            known = k in FIXED or k in model.history or k in model.own[t]
            if invalid:
                ctx.count('writes: invalid')
                if ok == 'ok':
                    bad('invalid-accepted', f'set_config_value({k!r}, {v!r}) was accepted')
                elif not isinstance(e, (ValueError, TypeError)):
                    bad('wrong-error', f'set_config_value({k!r}, {v!r}) raised {type(e).__name__}: {e}')
            elif not known and not allow and (k in model.history or ok == 'raised'):
                ctx.count('writes: unknown key')
                if not isinstance(e, ValueError):
                    bad('wrong-error', f'set_config_value({k!r}, {v!r}) raised {type(e).__name__}: {e}')
            elif not known and not allow:
                bad('unknown-key-accepted', f'set_config_value({k!r}, {v!r}) was accepted without allow_new_key')
            elif ok != 'ok':
                bad('write-fails', f'set_config_value({k!r}, {v!r}) in thread {t} raised {type(e).__name__}: {e}')
            else:
                ctx.count('writes: valid')
                model.own[t][k] = v
            for u in ([t] if r.random() < 0.5 else list(threads)):
                check_get(u, k, f'get_config_value({k!r})', threads[u](lambda: C.get_config_value(k)))
        elif op < 0.45:
            log.append(f'{t}: get {k}')
            if r.random() < 0.3:
                mark = object()
                res = run(lambda: C.get_config_value(k, mark))
                if res == ('ok', mark):
                    if model.certain(t, k):
                        bad('value-missing', f'get_config_value({k!r}, default) yields the default in thread {t}')
                    continue
                check_get(t, k, f'get_config_value({k!r}, default)', res)
            else:
                check_get(t, k, f'get_config_value({k!r})', run(lambda: C.get_config_value(k)))
        elif op < 0.57:
            pats = [r.choice(PATTERNS) for _ in range(r.choice([1, 1, 2, 3]))]
            log.append(f'{t}: get {pats}')
            ok, d = run(lambda: C.get_config_values(*pats))
            if ok != 'ok':
                bad('read-fails', f'get_config_values{tuple(pats)} in thread {t} raised {type(d).__name__}: {d}')
                continue
            ctx.count('reads: several values')
            match = lambda key: any(fnmatch.fnmatchcase(key, p) for p in pats)
            keys = {key for key in [*model.history, *model.own[t]] if match(key)}
            for key in keys:
                if key not in d:
                    if model.certain(t, key):
                        bad('value-missing', f'get_config_values{tuple(pats)} in thread {t} lacks {key!r}')
                elif not among(d[key], model.allowed(t, key)):
                    bad('foreign-value', f'get_config_values{tuple(pats)} in thread {t}: {key!r} is {d[key]!r}, set or inherited: {model.allowed(t, key)!r}')
            for key in d:
                if key not in keys:
                    bad('foreign-key', f'get_config_values{tuple(pats)} in thread {t} yields {key!r}')
            k2 = r.choice(sorted(keys)) if keys else k
            check_get(t, k2, f'get_config_value({k2!r})', run(lambda: C.get_config_value(k2)))
        elif op < 0.61:
            d = {}
            for _ in range(r.randint(1, 3)):
                k = pick()
                d[k] = value(k)
            log.append(f'{t}: add {d!r}')
            ok, e = run(lambda: C.add_config_values(d))
            if ok != 'ok':
                bad('write-fails', f'add_config_values({d!r}) in thread {t} raised {type(e).__name__}: {e}')
            else:
                model.own[t].update(d)
        elif op < 0.64:
            log.append(f'{t}: reset')
            ok, e = run(lambda: C.reset_config_dict())
            model.new_thread(t)
        elif op < 0.88 and session[0] is None:
            session[0] = t
            log.append(f'{t}: access_presets')
            ok, e = run(C.access_presets)
            if ok != 'ok':
                bad('session-fails', f'access_presets() in thread {t} raised {type(e).__name__}: {e}')
            for _ in range(r.randint(0, 4)):
                k = pick()
                what = r.random()
                if what < 0.6:
                    invalid = bool(k in FIXED and FIXED[k][1] and r.random() < 0.3)
                    v = value(k, invalid)
                    name = OLD.get(k, k) if r.random() < 0.3 else k
                    ctx.count('deprecated names', name != k)
                    log.append(f'{t}: preset {name} = {v!r}')
                    ok, e = run(lambda: C.set_preset_value(name, v, allow_new_key=True) if k in NEW else C.set_preset_value(name, v))
                    if invalid:
                        ctx.count('presets: invalid')
                        if ok == 'ok' or not isinstance(e, (ValueError, TypeError)):
                            bad('invalid-accepted' if ok == 'ok' else 'wrong-error', f'set_preset_value({k!r}, {v!r}): {e!r}')
                    elif ok != 'ok':
                        bad('write-fails', f'set_preset_value({k!r}, {v!r}) in thread {t} raised {type(e).__name__}: {e}')
                    else:
                        ctx.count('presets: set')
                        model.preset(t, k, v)
                elif what < 0.8:
                    log.append(f'{t}: get preset {k}')
                    mark = object()
                    ok, v = run(lambda: C.get_preset_value(k, mark))
                    expected = model.history[k][-1] if k in model.history else mark
                    if ok != 'ok' or not same(v, expected):
                        bad('preset-value', f'get_preset_value({k!r}) is {v!r}, not {expected!r}')
                    ctx.count('presets: read')
                else:       # the others go on meanwhile, and so does this thread
                    u = r.choice(list(threads))
                    log.append(f'{u}: get {k} (while presets are accessed by {t})')
                    ctx.count('reads: while presets are being accessed')
                    check_get(u, k, f'get_config_value({k!r})', threads[u](lambda: C.get_config_value(k)))
            log.append(f'{t}: finalize_presets')
            ok, e = run(C.finalize_presets)
            if ok != 'ok':
                bad('session-fails', f'finalize_presets() in thread {t} raised {type(e).__name__}: {e}')
            session[0] = None
        elif op < 0.95:
            ini(ctx, C, model, t, run, log, bad)
        else:
            pats = [r.choice(PATTERNS) for _ in range(r.choice([1, 2]))]
            log.append(f'{t}: dump {pats} and read back')
            ok, txt = run(lambda: C.dump_config_data(*pats))
            if ok != 'ok':
                bad('dump-fails', f'dump_config_data{tuple(pats)} raised {type(txt).__name__}: {txt}')
                continue
            ctx.count('configurations dumped')
            match = lambda key: any(fnmatch.fnmatchcase(key, p) for p in pats)
            before = {key: v for key, v in run(lambda: C.get_config_values('*'))[1].items() if match(key)}
            # entries without a preset cannot be read back under the heading DHParser
            strange = [key for key in before if '.' not in key and key not in model.history]
            ok, e = run(lambda: C.read_config_string(txt))
            if C.is_accessing_presets():
                close()
            if strange:
                if ok == 'raised' and not isinstance(e, ValueError):
                    bad('dump-unreadable', f'reading {txt!r} raised {type(e).__name__}: {e}')
                break        # which presets have been changed is not determined
            if ok != 'ok':
                bad('dump-unreadable', f'reading {txt!r} raised {type(e).__name__}: {e}')
                continue
            for key, v in before.items():
                model.preset(t, key, v)
            after = {key: v for key, v in run(lambda: C.get_config_values('*'))[1].items() if match(key)}
            if {k: repr(v) for k, v in after.items()}.keys() != before.keys() or not all(same(after[k], v) for k, v in before.items()):
                bad('dump-differs', f'dumped and read back: {[(k, v, after.get(k)) for k, v in before.items() if not same(after.get(k), v)]!r}')
    else:
      for t, w in threads.items():
        for k in r.sample([*FIXED, *NEW], 4):
            check_get(t, k, f'get_config_value({k!r})', w(lambda: C.get_config_value(k)))
    for w in threads.values():
        if isinstance(w, Worker):
            w.todo.put(None)
    ctx.evaluated(log, len(log) > 10)
    ctx.count('histories')
    ctx.sample(log)
    # back to the beginning
    close()
    C.access_presets()
    for k in FIXED:
        C.set_preset_value(k, BASE[k])
    C.finalize_presets()
    for k in NEW:
        C.CONFIG_PRESET.pop(k, None)
    C.reset_config_dict()


BASE = {}


def esc(s):
    return s.replace('%', '%%')


def ini(ctx, C, model, t, run, log, bad):
    r = ctx.rng
    main = [(k, r.choice(FIXED[k][0])) for k in r.sample(list(FIXED), r.randint(0, 3))]
    sec = [(k, r.choice(FREE)) for k in r.sample([n for n in NEW if '.' in n], r.randint(0, 3))]
    faulty = None
    parts = []
    for s in sorted({k.split('.', 1)[0] for k, _ in sec}):
        parts.append(f'[{s}]\n' + ''.join(f'{k.split(".", 1)[1]} = {esc(repr(v))}\n' for k, v in sec if k.startswith(s + '.')))
    head = '[DHParser]\n' + ''.join(f'{OLD.get(k, k) if r.random() < 0.3 else k} = {esc(repr(v))}\n' for k, v in main)
    pool = r.choice([None, None, 'ProcessPool', 'InterpreterPool'])       # can be set in this way, only
    if pool:
        head += f'multicore_pool = {pool!r}\n'
    if r.random() < 0.35:
        kind = r.choice(['value', 'range', 'key', 'name', 'syntax'])
        k = r.choice([k for k in FIXED if FIXED[k][1] and k not in dict(main)])
        bad_v = r.choice(FIXED[k][1])
        line = {'value': f'{k} = {esc(repr(bad_v))}', 'range': 'vt_ranged = "five"', 'key': 'unheard_of = 1', 'name': f'{k} = undefined_name',
                'syntax': f'{k} = "unfinished'}[kind]
        if kind == 'range':
            k = 'vt_ranged'
            head = '\n'.join(l for l in head.split('\n') if not l.startswith('vt_ranged'))
            main = [x for x in main if x[0] != k]
        faulty = kind, k
        head += line + '\n'
    txt = '\n'.join(parts + [head])
    log.append(f'{t}: read {txt!r}')
    before = {k: run(lambda: C.get_config_value(k))[1] for k in [*FIXED] if faulty and k == faulty[1]}
    sync = C.CONFIG_PRESET['syncfile_path']
    ok, e = run(lambda: C.read_config_string(txt))
    if pool:
        if C.CONFIG_PRESET['syncfile_path'] != sync:
            if os.path.exists(C.CONFIG_PRESET['syncfile_path']):
                os.remove(C.CONFIG_PRESET['syncfile_path'])
            atexit.unregister(getattr(C, 'remove_cfg_tempfile', None))
            C.CONFIG_PRESET['syncfile_path'] = sync
            run(lambda: C.set_config_value('syncfile_path', sync))
        now, C.CONFIG_PRESET['multicore_pool'] = C.CONFIG_PRESET['multicore_pool'], 'ProcessPool'
        run(lambda: C.set_config_value('multicore_pool', 'ProcessPool'))
        if faulty is None and now != pool:
            bad('ini-value', f'multicore_pool is {now!r} instead of {pool!r} after reading {txt!r}')
    if faulty is None:
        ctx.count('configuration texts read')
        if ok != 'ok':
            return bad('ini-fails', f'reading {txt!r} raised {type(e).__name__}: {e}')
    else:
        ctx.count('configuration texts read: faulty')
        if ok == 'ok':
            return bad('invalid-accepted', f'faulty configuration {txt!r} was accepted')
        if C.is_accessing_presets():
            bad('session-left-open', f'after the error {e!r} in {txt!r} the presets cannot be accessed any more')
            C.finalize_presets()
    for k, v in sec + main:
        model.preset(t, k, v)
    for k, v in before.items():
        now = run(lambda: C.get_config_value(k))[1]
        if not same(now, v) and k in FIXED and k not in dict(main):
            bad('invalid-value-kept', f'the invalid value of {k} in {txt!r} has changed it from {v!r} to {now!r}')
    for k, v in sec + main:
        ok, now = run(lambda: C.get_config_value(k))
        if ok != 'ok' or not same(now, v):
            bad('ini-value', f'{k} is {now!r} instead of {v!r} after reading {txt!r}')


def child(ctx, mode, args, timeout=100):
    folder = os.path.join(ctx.tmp, f'c{ctx.progress}')
    os.makedirs(folder, exist_ok=True)
    env = dict(os.environ, PYTHONPATH=core.REPO, PYTHONDONTWRITEBYTECODE='1', HOME=os.path.join(folder, 'home'), TMPDIR=folder)
    script = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'p24_child.py')
    try:
        p = subprocess.run([sys.executable, '-W', 'ignore', script, mode, json.dumps(args), folder], capture_output=True, text=True,
                           timeout=timeout, env=env, cwd=folder)
    except subprocess.TimeoutExpired:
        ctx.count(f'child {mode}: no answer')
        return None
    for line in p.stdout.splitlines():
        if line.startswith('RESULT '):
            return json.loads(line[7:])
    return {'problems': [['child-fails', f'the interpreter ended with {p.returncode}: {p.stderr[-600:]}']], 'counts': {}}


def children(ctx, mode, args):
    res = child(ctx, mode, args)
    if res is None:
        return
    ctx.evaluated((mode, args))
    for k, n in res['counts'].items():
        ctx.count(k, n)
    for key, msg in res['problems'][:2]:
        ctx.current = [mode, args]
        ctx.violation(key, f'{mode} {args}: {msg}', {'mode': mode, 'args': args})


def run(ctx):
    from DHParser import configuration as C
    import contextlib, io
    C.ALLOWED_PRESET_VALUES['vt_ranged'] = (1, 10)
    C.ALLOWED_PRESET_VALUES['vt_set'] = frozenset({'a', 'b'})
    C.CONFIG_PRESET['vt_ranged'] = 5
    C.CONFIG_PRESET['vt_set'] = 'a'
    BASE.update({k: C.CONFIG_PRESET[k] for k in FIXED})
    with contextlib.redirect_stdout(io.StringIO()):
        for _ in range(ctx.n(60, 300)):
            history(ctx, C)
    r = ctx.rng
    for _ in range(ctx.n(2, 8)):
        children(ctx, 'stress', {'seed': r.randrange(10 ** 9), 'threads': r.choice([3, 5, 8]), 'steps': r.choice([30, 60]),
                                 'delay': r.choice([0, 0.02, 0.1])})
    for _ in range(ctx.n(1, 4)):
        children(ctx, 'files', {'seed': r.randrange(10 ** 9), 'rounds': 12})
    for _ in range(ctx.n(1, 3)):
        children(ctx, 'processes', {'seed': r.randrange(10 ** 9), 'method': ['fork', 'spawn', 'forkserver', 'spawn'][ctx.chunk % 4]})
