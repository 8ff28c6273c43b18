"""P06: results of used parser objects vs results of fresh ones; threads; processes."""
import json, os, subprocess, sys, threading
from vt import dh, corpus
from vt.core import digest
from checks import p04


class Boom(Exception):
    pass


def outcome(tree):
    return dh.tree_key(tree), dh.error_key(tree)


def run(ctx):
    r = ctx.rng
    for gi in range(ctx.n(110, 800)):
        history(ctx, gi)
    for _ in range(ctx.n(6, 40)):
        threads(ctx)
    for _ in range(ctx.n(1, 4)):
        processes(ctx)
    for _ in range(ctx.n(1, 4)):
        too_deep(ctx)


def history(ctx, gi):
    r = ctx.rng
    kind, src, names, docs = corpus.case(r, 8)
    if r.random() < 0.5:            # documents of the same length
        base = max(docs, key=len)
        for _ in range(4):
            d = list(base)
            if d:
                i, j = r.randrange(len(d)), r.randrange(len(d))
                d[i], d[j] = d[j], r.choice([d[i], r.choice(''.join(docs))])
            docs.append(''.join(d))
    ctx.current = src
    ok, g = ctx.guard(lambda: p04.create(ctx, src), src)
    if not ok or g is None:
        return
    fresh_class = type(dh.create_parser(src))
    fresh = {}

    def expected(call):
        if call not in fresh:
            ctx.count('fresh parser objects')
            fresh[call] = outcome(fresh_class()(call[0], call[1], complete_match=call[2]))
        return fresh[call]
    log, old = [], []
    tracing = False
    ctx.count('histories')
    if gi < 1:
        ctx.sample(src)
    for step in range(r.randint(6, 16)):
        op = r.choice(['parse', 'parse', 'parse', 'symbol', 'symbol', 'partial', 'parser', 'trace', 'untrace', 'trace-some', 'cancel',
                       'raise', 'edit', 'show', 'doc-as-view'])
        doc = r.choice(docs)
        name = r.choice(names)
        call = None
        w = {'grammar': src, 'log': log + [(op, doc, name)]}
        ctx.current = w
        log.append((op, doc, name))

        def do():
            nonlocal call, tracing
            from DHParser.trace import set_tracer, trace_history
            if op == 'parse':
                call = (doc, names[0], True)
            elif op == 'symbol':
                call = (doc, name, r.choice([True, True, False]))
            elif op == 'partial':
                call = (doc, names[0], False)
            elif op == 'parser':        # start parser given as object
                call = (doc, name, True)
                return outcome(g(doc, g[name], complete_match=True))
            elif op == 'trace':
                set_tracer(g, trace_history)
                tracing = True
            elif op == 'trace-some':
                set_tracer([g[n] for n in r.sample(names, r.randint(1, len(names)))], trace_history)
                tracing = True
            elif op == 'untrace':
                set_tracer(g, None)
                tracing = False
            elif op in ('cancel', 'raise'):
                k = r.randint(0, 4)
                calls = [0]

                def query():
                    calls[0] += 1
                    if calls[0] > k:
                        if op == 'raise':
                            raise Boom()
                        return True
                    return False
                if tracing:
                    set_tracer(g, None)
                    tracing = False
                g.cancel_query__ = query
                try:
                    g(doc * 20, name)
                except Boom:
                    ctx.count('runs aborted by an exception')
                finally:
                    g.cancel_query__ = None
                if op == 'cancel' and calls[0] > k:
                    ctx.count('runs canceled')
            elif op == 'edit' and old:
                # a tree belongs to its user
                t = r.choice(old)[0]
                for nd in list(t.select_if(lambda n: True, True)):
                    if nd.children:
                        nd.result = nd.children[::-1]
                    else:
                        nd.result = 'changed'
                    nd.name = 'changed'
                    nd.attr['a'] = 'b'
                old[:] = [x for x in old if x[0] is not t]
                ctx.count('trees modified')
            elif op == 'show':
                g.as_ebnf__()
            elif op == 'doc-as-view':
                call = (doc, name, True)
            if call:
                t = g(call[0], call[1], complete_match=call[2])
                if not tracing:
                    old.append((t, outcome(t), call))
                return outcome(t)
        ok, res = ctx.guard(do, w)
        if not ok:
            return
        ctx.count('operations')
        if call and not tracing:
            ctx.evaluated((src, tuple(log)), step > 0)
            ctx.count('parses with a used parser compared')
            exp = expected(call)
            if res != exp:
                ctx.violation('history', f'after {log} the parse {call} yields\n{res}\ninstead of\n{exp}\n{src}', w)
                return
    for t, key, call in old:
        ctx.count('earlier results re-examined')
        if outcome(t) != key:
            ctx.violation('earlier-result-changed', f'result of {call} has been changed by later parses {log}\n{key}\n{outcome(t)}\n{src}',
                          {'grammar': src, 'log': log})
            return


def threads(ctx):
    """Instances of one, fresh class used in several threads at the same time."""
    r = ctx.rng
    cases = [corpus.case(r, 6) for _ in range(2)]
    made = []
    for kind, src, names, docs in cases:
        ctx.current = src
        ok, g = ctx.guard(lambda: p04.create(ctx, src), src)
        if not ok or g is None:
            return
        exp = [outcome(g(d, complete_match=True)) for d in docs]
        factory = None
        if r.random() < 0.5:
            f = dh.grammar_provider(src)
            ctx.count('thread-local grammar providers shared')
        else:
            f = type(dh.create_parser(src))
        made.append((src, f, docs, exp))
    n = 4
    order, bad = [], []
    barrier = threading.Barrier(n)
    seeds = [r.randint(0, 10**9) for _ in range(n)]

    def work(t):
        import random
        rr = random.Random(seeds[t])
        try:
            barrier.wait()
            for _ in range(3):
                for src, f, docs, exp in made:
                    g = f()
                    for i in rr.sample(range(len(docs)), len(docs)):
                        got = outcome(g(docs[i], complete_match=True))
                        order.append(t)
                        if got != exp[i]:
                            bad.append((src, docs[i], got, exp[i]))
        except Exception as e:
            import traceback
            bad.append((made[0][0] + made[1][0], traceback.format_exc(), repr(e), 'no exception'))
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        ts = [threading.Thread(target=work, args=(i,)) for i in range(n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    switches = sum(a != b for a, b in zip(order, order[1:]))
    ctx.count('parses in concurrent threads', len(order))
    ctx.count('thread switches observed between parses', switches)
    ctx.evaluated(('threads', made[0][0], tuple(order)), switches > 0)
    if bad:
        src, doc, got, exp = bad[0]
        ctx.violation('threads', f'in one of {n} threads {doc!r} yields\n{got}\ninstead of\n{exp}\n{src}', {'grammar': src, 'document': doc})


def processes(ctx):
    """Different processes with different hash seeds."""
    r = ctx.rng
    jobs = []
    while len(jobs) < ctx.n(12, 30):
        kind, src, names, docs = corpus.case(r, 6)
        if p04.create(ctx, src) is not None:
            jobs.append((src, docs))
    path = os.path.join(ctx.tmp, 'jobs.json')
    with open(path, 'w') as f:
        json.dump(jobs, f)
    outs = []
    for hs in ('0', '1', str(r.randint(2, 10**6))):
        env = dict(os.environ, PYTHONHASHSEED=hs, PYTHONPATH='/repo:/verif', PYTHONDONTWRITEBYTECODE='1')
        p = subprocess.run([sys.executable, '-c', 'import sys; from checks import p06; p06.batch(sys.argv[1])', path],
                           env=env, capture_output=True, text=True, cwd=ctx.tmp)
        if p.returncode:
            ctx.violation('process', f'batch failed with PYTHONHASHSEED={hs}: {p.stderr[-1500:]}', {'jobs': jobs})
            return
        outs.append(p.stdout.split())
        ctx.count('processes with different hash seeds')
    for i, (src, docs) in enumerate(jobs):
        ctx.evaluated(('hash', src), True)
        if len({o[i] for o in outs}) > 1:
            ctx.violation('hash-seed', f'results depend on PYTHONHASHSEED\n{src}{docs}', {'grammar': src, 'documents': docs})
            return


def batch(path):
    from vt import core
    core.setup_import()
    for src, docs in json.load(open(path)):
        g = dh.create_parser(src)
        print(digest([outcome(g(d, complete_match=True)) for d in docs]))


def too_deep(ctx):
    """A document nested too deeply for the stack of the interpreter."""
    r = ctx.rng
    src = r.choice(['@literalws=none\nS = "(" S ")" | "x"\n', '@literalws=none\nE = E "+" T | T\nT = "(" E ")" | "x"\n',
                    '@literalws=none\nS = A { A }\nA = "[" { S } "]" | m S ::m | /[a-z]/\nm = /[*(]/\n'])
    g = dh.create_parser(src)
    docs = ['(x)', 'x', '((x', 'x+(x+x)', '[a[b]]', '*[a]*']
    exp = [outcome(type(g)()(d)) for d in docs]
    deep = r.choice(['(', '[', '*']) * r.choice([300, 1000, 3000]) + 'x'
    w = {'grammar': src, 'document': deep}
    ctx.current = w
    old = sys.getrecursionlimit()
    for _ in range(2):
        sys.setrecursionlimit(1000)
        try:
            ok, t = ctx.guard(lambda: g(deep), w)
        finally:
            sys.setrecursionlimit(old)
        if not ok:
            return
        ctx.count('documents exceeding the recursion limit')
        got = [outcome(g(d)) for d in docs]
        ctx.evaluated((src, deep), True)
        if got != exp:
            ctx.violation('after-recursion-error', f'after {deep[:20]}...: {got} instead of {exp}\n{src}', w)
            return
