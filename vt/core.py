"""Runner for the runtime-monitoring checks.

A check is a module checks/pNN.py with

    ID, LEVEL, RULE, TECHNIQUE, NOTE
    CHUNKS  = {'quick': n, 'thorough': m}      number of independent work packages
    MINIMA  = {counter: minimum}               below that the run is inconclusive
    def run(ctx): ...                          one work package

Every work package runs in a fresh interpreter (with a seed-derived hash seed) and
reports the counters of its monitors, samples and violations.  Exit codes:
0 held on everything observed, 1 violation, 3 inconclusive, 2 harness error.
"""
import argparse, hashlib, importlib, json, os, random, resource, shutil, signal, subprocess, sys
import tempfile, threading, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VT_REPO', '/repo')
PYTHON = '/opt/venv/bin/python'
MEMORY = 3 * 1024 ** 3     # normal use: below 200 MB
MAX_WORKERS = int(os.environ.get('VT_JOBS', '8'))


class HangSuspect(BaseException):
    """Raised from the CPU-time alarm inside the code under test."""


class StepLimit(BaseException):
    """Raised by the line counter."""


class Inconclusive(Exception):
    pass


def digest(x):
    return hashlib.md5(repr(x).encode('utf-8', 'backslashreplace')).hexdigest()[:12]


def short(x, n=1500):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n // 2] + ' ... ' + s[-n // 2:]


class Ctx:
    def __init__(self, pid, tier, seed, chunk, tmp):
        self.pid, self.tier, self.seed, self.chunk, self.tmp = pid, tier, seed, chunk, tmp
        self.rng = random.Random(f'{seed}/{pid}/{tier}/{chunk}')
        self.counters = {}
        self.violations = []
        self.known = []
        self.samples = []
        self.distinct = set()
        self.evals = 0
        self.thorough = tier == 'thorough'
        self.max_violations = 4
        self.current = None
        self.progress, self.guarded = 0, 0
        self.known_keys = {e['key'] for e in known_findings(pid)}

    def n(self, quick, thorough=None):
        return (thorough if thorough is not None else quick * 8) if self.thorough else quick

    def count(self, name, k=1):
        self.progress += 1
        self.counters[name] = self.counters.get(name, 0) + k

    def evaluated(self, case, nontrivial=True, k=1):
        """One execution judged by the oracle."""
        self.evals += k
        self.progress += 1
        if nontrivial and len(self.distinct) < 100_000:
            self.distinct.add(digest(case))
            if len(self.samples) < 2 and self.evals % 7 == 3:
                self.sample(case)

    def sample(self, x, limit=2):
        if len(self.samples) < limit:
            self.samples.append(short(x, 800))

    def violation(self, key, msg, witness=None):
        """`key` names the mechanism; listed known findings are matched against it."""
        self.violations.append({'key': key, 'msg': short(msg, 3000), 'witness': witness})
        if key in self.known_keys:
            if sum(v['key'] == key for v in self.violations) > 3:
                self.violations.pop()
            return
        if sum(v['key'] not in self.known_keys for v in self.violations) >= self.max_violations:
            raise StopRun()

    def attempt(self, fn, cpu):
        """(True, fn()) or (False, None) if fn takes more than `cpu` seconds: no verdict."""
        def alarm(signum, frame):
            raise HangSuspect()
        old = signal.signal(signal.SIGVTALRM, alarm)
        signal.setitimer(signal.ITIMER_VIRTUAL, cpu, 1.0)
        self.guarded += 1
        try:
            res = fn()
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            return True, res
        except HangSuspect:
            return False, None
        finally:
            self.guarded -= 1
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.signal(signal.SIGVTALRM, old)

    def guard(self, fn, what, cpu=25.0, lines=60_000_000):
        """Runs fn(); a run that uses `cpu` seconds of CPU time (normal: milliseconds) is
        repeated under a line counter.  Only exceeding the line bound (a logical
        measure) is a violation.  Returns (True, result) or (False, None)."""
        def alarm(signum, frame):
            raise HangSuspect()
        old = signal.signal(signal.SIGVTALRM, alarm)
        signal.setitimer(signal.ITIMER_VIRTUAL, cpu, 1.0)
        self.guarded += 1
        try:
            res = fn()
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            return True, res
        except HangSuspect:
            pass
        finally:
            self.guarded -= 1
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.signal(signal.SIGVTALRM, old)
        self.count('slow cases re-run under line counter')
        n = [0]

        def tracer(frame, event, arg):
            n[0] += 1
            if n[0] > lines:
                raise StepLimit()
            return tracer
        self.guarded += 1
        try:
            sys.settrace(tracer)
            try:
                res = fn()
            finally:
                sys.settrace(None)
                self.guarded -= 1
            return True, res
        except StepLimit:
            self.violation('non-termination', f'more than {lines} lines executed without '
                           f'reaching a result: {what}', {'what': short(what)})
            return False, None


def watchdog(ctx, stall=20, lines=30_000_000):
    """A single case that makes no progress for `stall` seconds of CPU time (normal:
    milliseconds) is continued under a line counter; only exceeding the line bound (a
    logical measure) counts as non-termination."""
    st = {'seen': (-1, 0), 'ticks': 0, 'on': False, 'n': 0}

    def tracer(frame, event, arg):
        if (ctx.progress, id(ctx.current)) != st['seen']:
            st['on'] = False
            sys.settrace(None)
            return None
        st['n'] += 1
        if st['n'] > lines:
            sys.settrace(None)
            raise StepLimit()
        return tracer

    def tick(signum, frame):
        now = (ctx.progress, id(ctx.current))
        if now != st['seen'] or ctx.guarded:
            st['seen'], st['ticks'] = now, 0
            return
        st['ticks'] += 1
        if st['ticks'] * 2 >= stall and not st['on'] and sys.gettrace() is None:
            st['on'], st['n'] = True, 0
            f = frame
            while f is not None:
                f.f_trace = tracer
                f = f.f_back
            sys.settrace(tracer)
    signal.signal(signal.SIGPROF, tick)
    signal.setitimer(signal.ITIMER_PROF, 2.0, 2.0)


class StopRun(Exception):
    pass


def setup_import():
    sys.path[:] = [REPO, VERIF] + [p for p in sys.path if p not in (REPO, VERIF, '')]
    sys.dont_write_bytecode = True


def worker_main(pid, tier, seed, chunk, out):
    setup_import()
    tmp = os.getcwd()
    ctx = Ctx(pid, tier, seed, chunk, tmp)
    res = {'status': 'ok'}
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    watchdog(ctx)
    try:
        mod = importlib.import_module('checks.' + pid.lower())
        try:
            mod.run(ctx)
        except StopRun:
            pass
    except Inconclusive as e:
        res['status'] = 'inconclusive'
        res['detail'] = str(e)
    except BaseException as e:
        tb = traceback.format_exc() + '\nlast case: ' + short(ctx.current or '')
        last = ''
        for fr in traceback.extract_tb(e.__traceback__):
            f = os.path.realpath(fr.filename)
            if f.startswith((REPO + '/', VERIF + '/')):
                last = f
        signal.setitimer(signal.ITIMER_PROF, 0)
        if isinstance(e, StepLimit):
            ctx.violations.append({'key': 'non-termination', 'msg': 'no result after more than 30 million '
                                   'executed lines\n' + tb[-2500:], 'witness': ctx.current})
        elif last.startswith(REPO + '/') and not isinstance(e, KeyboardInterrupt):
            # the code under test raised where its contract promises a result
            ctx.violations.append({'key': 'exception', 'msg': tb[-3500:], 'witness': ctx.current})
        else:
            res['status'] = 'error'
            res['detail'] = tb
    res.update(counters=ctx.counters, violations=ctx.violations, samples=ctx.samples,
               distinct=sorted(ctx.distinct), evals=ctx.evals, chunk=chunk)
    with open(out, 'w') as f:
        json.dump(res, f, default=repr)


def known_findings(pid):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [e for e in data['findings'] if e['property'] == pid and e['status'] == 'known']


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--worker', default='')
    ap.add_argument('--chunk', type=int, default=None)
    ap.add_argument('--replay', default='')
    a = ap.parse_args()
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        a.tier, a.seed, a.chunk = r['tier'], r['seed'], r['chunk']
    if a.worker:
        worker_main(a.pid, a.tier, a.seed, a.chunk, a.worker)
        return 0
    return run_check(a.pid.upper(), a.tier, a.seed, a.chunk)


def run_check(pid, tier, seed, only_chunk=None):
    t0 = time.time()
    setup_import()
    meta = importlib.import_module('checks.meta')
    spec = meta.CHECKS[pid]
    chunks = list(range(spec['chunks'][tier])) if only_chunk is None else [only_chunk]
    budget = 840 if tier == 'quick' else 3600 * 3
    base = tempfile.mkdtemp(prefix=f'vt_{pid}_')
    results, errors = [], []
    jobs = list(chunks)
    running = {}
    W = min(MAX_WORKERS, spec.get('workers', MAX_WORKERS))
    timed_out = False
    try:
        while jobs or running:
            while jobs and len(running) < W:
                c = jobs.pop(0)
                cwd = os.path.join(base, f'c{c}')
                os.makedirs(os.path.join(cwd, 'work'))
                out = os.path.join(cwd, 'out.json')
                env = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
                env.update(PYTHONHASHSEED=str((seed * 7919 + c) % 4294967295 if c else 0),
                           PYTHONDONTWRITEBYTECODE='1', HOME=os.path.join(cwd, 'work'),
                           PYTHONPATH=f'{REPO}:{VERIF}', VT_BASE=cwd, PYTHONIOENCODING='utf-8', PYTHONUTF8='1')
                env.pop('XML_CATALOG_FILES', None)
                with open(os.path.join(cwd, 'log.txt'), 'wb') as log:
                    p = subprocess.Popen(
                        [PYTHON, os.path.join(VERIF, 'check.py'), pid, '--tier', tier, '--seed',
                         str(seed), '--worker', out, '--chunk', str(c)],
                        cwd=os.path.join(cwd, 'work'), env=env, stdout=log,
                        stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                        start_new_session=True)
                running[c] = (p, cwd, out)
            time.sleep(0.03)
            for c in list(running):
                p, cwd, out = running[c]
                if p.poll() is None:
                    if time.time() - t0 > budget:
                        timed_out = True
                        os.killpg(p.pid, signal.SIGKILL)
                    continue
                del running[c]
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except (ProcessLookupError, PermissionError):
                    pass
                try:
                    with open(out) as f:
                        r = json.load(f)
                    results.append(r)
                    if r['status'] != 'ok':
                        errors.append((c, r['status'], r.get('detail', '')))
                except Exception:
                    with open(os.path.join(cwd, 'log.txt'), 'rb') as f:
                        tail = f.read()[-3000:].decode('utf-8', 'replace')
                    errors.append((c, 'error', f'worker died with code {p.returncode}\n{tail}'))
                shutil.rmtree(cwd, ignore_errors=True)
            if timed_out and not running:
                break
    finally:
        for c, (p, cwd, out) in running.items():
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except Exception:
                pass
        shutil.rmtree(base, ignore_errors=True)

    counters, distinct, samples, viols, evals = {}, set(), [], [], 0
    for r in sorted(results, key=lambda r: r['chunk']):
        for k, v in r['counters'].items():
            counters[k] = counters.get(k, 0) + v
        distinct.update(r['distinct'])
        samples.extend(r['samples'])
        evals += r['evals']
        for v in r['violations']:
            v['chunk'] = r['chunk']
            viols.append(v)
    known = {e['key']: e for e in known_findings(pid)}
    real = [v for v in viols if v['key'] not in known]
    hit = {v['key'] for v in viols if v['key'] in known}

    status, reasons = 0, []
    for e in known.values():
        if only_chunk is None:
            if e['key'] in hit:
                print(f"KNOWN-FINDING: property={pid} {e['what']}")
            else:
                print(f"note: known finding {e['key']} did not show in this run")
    if real:
        status = 1
    elif errors:
        for c, st, d in errors[:3]:
            print(f'chunk {c}: {st}\n{d}')
        status = 3 if all(s == 'inconclusive' for _, s, _ in errors) else 2
    elif timed_out:
        print('INCONCLUSIVE: time budget exhausted')
        status = 3
    elif only_chunk is None:
        for k, v in spec.get('minima', {}).items():
            if counters.get(k, 0) < v:
                reasons.append(f'{k}: {counters.get(k, 0)} < {v}')
        if reasons:
            print('INCONCLUSIVE: deciding monitor under-exercised: ' + '; '.join(reasons))
            status = 3
    for k in sorted(counters):
        print(f'  {k}: {counters[k]}')
    wall = round(time.time() - t0, 2)
    print(f'{pid} {tier} seed={seed}: {evals} executions judged, {len(distinct)} distinct '
          f'non-trivial, {len(real)} violations, {wall} s')
    evdir = os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    if only_chunk is None:
        ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': spec['level'],
              'coverage': {'evaluations': evals, 'distinct_nontrivial': len(distinct),
                           'rule': spec['rule'], 'samples': samples[:6],
                           'observed': counters, 'chunks_completed': len(results)},
              'assumptions': spec.get('assumptions', []),
              'wall_s': wall, 'violations': len(real)}
        with open(os.path.join(evdir, pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
    for i, v in enumerate(real[:5]):
        rp = os.path.join(evdir, f'replay_{pid}_{tier}_{seed}_{v["chunk"]}_{i}.json')
        with open(rp, 'w') as f:
            json.dump({'property': pid, 'tier': tier, 'seed': seed, 'chunk': v['chunk'],
                       'key': v['key'], 'msg': v['msg'], 'witness': v['witness'],
                       'how': f'{PYTHON} {VERIF}/check.py {pid} --replay {rp}'}, f, indent=1,
                      default=repr, ensure_ascii=False)
        print(f'--- {v["key"]}: {v["msg"]}')
        print(f'VIOLATION property={pid} replay={rp}')
    return status
