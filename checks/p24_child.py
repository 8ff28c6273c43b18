"""Runs in a fresh interpreter with scratch home, temporary and working directory."""
import json, os, random, sys, threading, time

PROBLEMS, COUNTS = [], {}


def problem(key, msg):
    PROBLEMS.append([key, msg])


def count(k, n=1):
    COUNTS[k] = COUNTS.get(k, 0) + n


def stress(a, folder):
    """free-running threads with delays injected into the configuration module"""
    r = random.Random(a['seed'])
    sys.setswitchinterval(1e-5)
    delay = a['delay']

    def tracer(frame, event, arg):
        if not frame.f_code.co_filename.endswith('configuration.py'):
            return None
        rnd = random.Random(a['seed'] + threading.get_ident())

        def local(frame, event, arg):
            if rnd.random() < delay:
                time.sleep(rnd.choice([0, 0, 0.0002, 0.001]))
            return local
        return local
    if delay:
        threading.settrace(tracer)
    from DHParser import configuration as C
    n = a['threads']
    barrier = threading.Barrier(n + 1)
    published = [0]      # presets vt_serial and vt_twice finalized so far
    begun = [0]
    C.CONFIG_PRESET['vt_serial'] = 0
    C.CONFIG_PRESET['vt_twice'] = 0
    reset = [0]

    def work(i, steps, wait, floor):
        rnd = random.Random(a['seed'] * 31 + i)
        own = {}
        try:
            if wait:
                barrier.wait()
            for s in range(steps):
                k = rnd.choice(['max_parser_dropouts', 'server_default_port', 'reentry_search_window'])
                op = rnd.random()
                if op < 0.35:
                    v = (i + 1) * 1000 + s
                    C.set_config_value(k, v)
                    own[k] = v
                    count('stress: writes')
                elif op < 0.4:
                    try:
                        C.set_config_value('default_serialization', f'nonsense{i}')
                        problem('invalid-accepted', 'invalid value accepted')
                    except ValueError:
                        pass
                    if C.get_config_value('default_serialization') != 'sxpr':
                        problem('foreign-value', 'invalid value is visible')
                elif op < 0.45:
                    name = f'vt_private{i}'
                    C.set_config_value(name, s, allow_new_key=True)
                    own[name] = s
                elif op < 0.6:
                    d = C.get_config_values('*', 'server_*') if rnd.random() < 0.5 else C.get_config_values('max*', 'server_*', 're*', 'vt_*')
                    for key, v in own.items():
                        if d.get(key) != v:
                            problem('foreign-value', f'get_config_values: {key} is {d.get(key)}, but thread {i} has set {v}')
                    for key in d:
                        if key.startswith('vt_private') and key != f'vt_private{i}':
                            problem('foreign-key', f'thread {i} sees {key}')
                    count('stress: reads of several values')
                elif op < 0.7:
                    hi, lo = begun, floor
                    x = C.get_config_value('vt_serial')
                    if not lo <= x <= hi[0]:
                        problem('stale-preset', f'thread {i}, started after {lo} was published, reads {x}, set so far: {hi[0]}')
                    count('stress: reads of presets')
                else:
                    v = C.get_config_value(k)
                    if v != own.get(k, {'max_parser_dropouts': 1, 'server_default_port': 8888, 'reentry_search_window': 50000}[k]):
                        problem('foreign-value', f'{k} is {v} in thread {i}, set: {own.get(k)}')
                    count('stress: reads')
        except Exception as e:
            import traceback
            problem('spurious-error', f'thread {i}: {type(e).__name__}: {e}\n' + ''.join(traceback.format_tb(e.__traceback__)[-2:]))

    threads = [threading.Thread(target=work, args=(i, a['steps'], True, 0)) for i in range(n)]
    for t in threads:
        t.start()
    barrier.wait()
    late = []
    for k in range(12):
        try:
            C.access_presets()
            begun[0] = k + 1
            C.set_preset_value('vt_serial', k + 1)
            C.set_preset_value(f'vt_grown{k}', k, allow_new_key=True)
            C.finalize_presets()
        except Exception as e:
            problem('spurious-error', f'session: {type(e).__name__}: {e}')
            break
        published[0] = k + 1
        count('stress: presets published')
        t = threading.Thread(target=work, args=(n + k, 12, False, k + 1))
        t.start()
        late.append(t)
    for t in threads + late:
        t.join(80)
        if t.is_alive():
            problem('deadlock', 'a thread is still waiting after 80 seconds')
            break
    count('stress: runs')


def files(a, folder):
    r = random.Random(a['seed'])
    from DHParser import configuration as C
    home = os.environ['HOME']
    main_dir = os.path.join(folder, 'script')
    cwd, other = os.path.join(folder, 'cwd'), os.path.join(folder, 'other')
    for d in (main_dir, cwd, other, home):
        os.makedirs(d, exist_ok=True)
    sys.modules['__main__'].__file__ = os.path.join(main_dir, 'script.py')
    os.chdir(cwd)
    KEYS = ['max_parser_dropouts', 'server_default_port', 'sect.x', 'sect.y', 'reentry_search_window']
    for n in range(a['rounds']):
        app = f'app{n}'
        base = f'{app}.ini'
        given = r.choice([base, os.path.join(other, base), os.path.join('..', 'other', base), os.path.join(main_dir, base), os.path.join('missing', base)])
        user = r.choice([os.path.join(home, '.config', app, 'config.ini'), os.path.join(home, '.config', app, base)])
        os.makedirs(os.path.dirname(user), exist_ok=True)
        order = [os.path.join(main_dir, base), os.path.abspath(given), user, os.path.join(cwd, base)]
        order = [p for p in order if os.path.isdir(os.path.dirname(p))]
        expected, present = {}, []
        written = {}
        for p in dict.fromkeys(order):
            if r.random() < 0.6:
                vals = {k: r.randrange(10 ** 6) for k in r.sample(KEYS, r.randint(1, 4))}
                main = ''.join(f'{k} = {v}\n' for k, v in vals.items() if '.' not in k)
                sect = ''.join(f'{k[5:]} = {v}\n' for k, v in vals.items() if '.' in k)
                txt = ('[DHParser]\n' + main if main else '') + ('[sect]\n' + sect if sect else '')
                with open(p, 'w', encoding='utf-8') as f:
                    f.write(txt)
                written[p] = vals
        for p in order:
            if p in written:
                expected.update(written[p])
                present.append(p)
        before = {k: C.CONFIG_PRESET.get(k) for k in KEYS}
        try:
            read = C.read_local_config(given)
        except Exception as e:
            problem('ini-fails', f'read_local_config({given!r}) raised {type(e).__name__}: {e}; files {list(written)}')
            continue
        count('configuration files: sets of files read')
        count('configuration files: files', len(written))
        if {os.path.abspath(p) for p in read} != set(written):
            problem('ini-files', f'read {read}, present {list(written)}')
        C.access_presets()
        now = {k: C.get_preset_value(k, None) for k in KEYS}
        C.finalize_presets()
        want = {k: expected.get(k, before[k]) for k in KEYS}
        if now != want:
            problem('ini-precedence', f'read_local_config({given!r}) with {written} yields {now}, expected {want}')
        for k in expected:
            if C.get_config_value(k) != expected[k]:
                problem('ini-precedence', f'{k} is {C.get_config_value(k)} in the reading thread, expected {expected[k]}')


def ask(keys):
    from DHParser import configuration as C
    return [C.get_config_value(k, None) for k in keys], sorted(C.get_config_values('vt_*').items())


def ask_presets(keys):
    from DHParser import configuration as C
    C.access_presets()
    try:
        return [C.get_preset_value(k, None) for k in keys], sorted(C.get_preset_values('vt_*').items())
    finally:
        C.finalize_presets()


def answer(q, fn, keys):
    try:
        q.put(fn(keys))
    except Exception as e:
        q.put(f'{type(e).__name__}: {e}')


def processes(a, folder):
    import multiprocessing, concurrent.futures
    multiprocessing.set_start_method(a['method'])
    r = random.Random(a['seed'])
    from DHParser import configuration as C
    from DHParser.toolkit import PickMultiCoreExecutor
    KEYS = ['max_parser_dropouts', 'server_default_port', 'vt_a', 'vt_b']
    presets = {k: C.CONFIG_PRESET.get(k) for k in KEYS}
    C.set_config_value('debug_parallel_execution', 'multicore')
    for n in range(3):
        C.access_presets()
        for k in r.sample(KEYS, r.randint(1, 3)):
            presets[k] = r.randrange(10 ** 6)
            C.set_preset_value(k, presets[k], allow_new_key=True)
        C.finalize_presets()
        local = r.choice(KEYS[:2])
        C.set_config_value(local, -5)      # only for this thread
        if r.random() < 0.5:
            C.access_presets()
            C.finalize_presets()
        expected = [presets[k] for k in KEYS], sorted((k, v) for k, v in presets.items() if k.startswith('vt_') and v is not None)
        fork = a['method'] == 'fork'
        for how in r.sample(['executor', 'pool', 'process', 'executor-map', 'nested'], 3):
            fn = r.choice([ask, ask_presets])
            try:
                if how == 'executor':
                    with PickMultiCoreExecutor() as ex:
                        res = ex.submit(fn, KEYS).result(timeout=60)
                elif how == 'executor-map':
                    with PickMultiCoreExecutor() as ex:
                        res = list(ex.map(fn, [KEYS] * 3))[-1]
                elif how == 'pool':
                    with concurrent.futures.ProcessPoolExecutor(1) as ex:
                        res = ex.submit(fn, KEYS).result(timeout=60)
                elif how == 'nested':
                    with PickMultiCoreExecutor() as ex:
                        res = ex.submit(nested, fn, KEYS).result(timeout=60)
                else:
                    q = multiprocessing.Queue()
                    p = multiprocessing.Process(target=answer, args=(q, fn, KEYS))
                    p.start()
                    res = q.get(timeout=60)
                    p.join(60)
            except Exception as e:
                problem('worker-fails', f'{how}: {type(e).__name__}: {e}')
                continue
            if isinstance(res, str):
                problem('worker-fails', f'{how}: {res}')
                continue
            count(f'processes: {a["method"]}')
            vals, several = res
            # a forked process is a copy of this thread with everything it has set
            ok = [v == w or (fork and k == local and v == -5) for k, v, w in zip(KEYS, vals, expected[0])]
            if not all(ok) or [tuple(x) for x in several] != expected[1]:
                problem('preset-not-inherited' if how != 'nested' else 'preset-not-inherited-nested',
                        f'{a["method"]}, {how}, {fn.__name__}: {vals} {several}, presets {expected}')
        C.access_presets()
        now = [C.get_preset_value(k, None) for k in KEYS]
        C.finalize_presets()
        if now != expected[0]:
            problem('preset-lost', f'presets {now} instead of {expected[0]} after the worker processes')
        if C.get_config_value(local) != -5:
            problem('foreign-value', f'{local} was set to -5 in this thread but is {C.get_config_value(local)}')
        C.reset_config_dict()
        C.set_config_value('debug_parallel_execution', 'multicore')


def nested(fn, keys):
    from DHParser.toolkit import PickMultiCoreExecutor
    fn(keys)
    with PickMultiCoreExecutor() as ex:
        return ex.submit(fn, keys).result(timeout=50)


if __name__ == '__main__':
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    mode, args, folder = sys.argv[1], json.loads(sys.argv[2]), sys.argv[3]
    {'stress': stress, 'files': files, 'processes': processes}[mode](args, folder)
    print('RESULT ' + json.dumps({'problems': PROBLEMS, 'counts': COUNTS}))
