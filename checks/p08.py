"""P08: cancellation queries that turn true at the k-th poll, for every stage of processing."""
import copy, threading
from vt import dh, corpus, trees
from checks import p04
from DHParser.compile import Compiler, compile_source
from DHParser.error import CANCELED, RECURSION_DEPTH_LIMIT_HIT
from DHParser.nodetree import Node, RootNode, parse_sxpr
from DHParser.pipeline import run_pipeline, full_pipeline, create_junction, Junction
from DHParser.trace import set_tracer, trace_history
from DHParser.parse import Grammar


class Query:
    """Returns True from the k-th poll onwards; counts polls and what `steps` had been when it turned true."""

    def __init__(self, k, log=None):
        self.k, self.n, self.late, self.log, self.at = k, 0, 0, log, None

    def __call__(self):
        self.n += 1
        if self.n > self.k:
            if self.at is None:
                self.at = len(self.log) if self.log is not None else 0
            else:
                self.late += 1
            return True
        return False

    @property
    def fired(self):
        return self.at is not None


LATE = 2        # polls after the first one that returned true


def run(ctx):
    for gi in range(ctx.n(50, 400)):
        parsing(ctx, gi)
    for _ in range(ctx.n(60, 500)):
        compiling(ctx)
    for _ in range(ctx.n(12, 100)):
        phases(ctx)
    for _ in range(ctx.n(2, 6)):
        event(ctx)


def outcome(t):
    return dh.tree_key(t), dh.error_key(t)


def marked(errors):
    return any(e.code == CANCELED for e in errors)


def parsing(ctx, gi):
    r = ctx.rng
    kind, src, names, docs = corpus.case(r, 6)
    ctx.current = src
    ok, g = ctx.guard(lambda: p04.create(ctx, src), src)
    if not ok or g is None:
        return
    if gi < 1:
        ctx.sample(src)
    cls = type(g)
    for doc in docs:
        long = doc * r.choice([1, 1, 3, 12])
        plain = cls()(long, complete_match=True)
        want = outcome(plain)
        leaves = sum(1 for n in plain.select(lambda n: not n.children and n.content))
        q = Query(10**9)
        obj = cls()
        obj.cancel_query__ = q
        w = {'grammar': src, 'document': long}
        ctx.current = w
        ok, t = ctx.guard(lambda: obj(long, complete_match=True), w)
        if not ok:
            return
        if any(e.code == RECURSION_DEPTH_LIMIT_HIT for x in (plain, t) for e in x.errors):
            ctx.count('parses skipped: recursion limit of the interpreter')     # hit a little earlier with a query
            continue
        polls = q.n
        ctx.count('parses with a query that never turns true')
        if outcome(t) != want:
            ctx.violation('idle-query', f'a query that returned false {polls} times changes the result\n{outcome(t)}\n{want}\n{src}\n{long!r}', w)
            return
        if polls * 40 + 60 < leaves:
            ctx.violation('rarely-polled', f'{polls} polls, although the tree has {leaves} leaves\n{src}\n{long!r}', w)
            return
        ks = sorted(set([0, polls - 1] + [r.randrange(polls) for _ in range(4)])) if polls else []
        used = cls()
        for k in ks:
            q = Query(k)
            traced = r.random() < 0.2
            w = {'grammar': src, 'document': long, 'k': k, 'traced': traced}
            ctx.current = w
            used.cancel_query__ = q

            def go():
                if traced:
                    set_tracer(used, trace_history)
                try:
                    return used(long, complete_match=True)
                finally:
                    if traced:
                        set_tracer(used, None)
            ok, t = ctx.guard(go, w)
            if not ok:
                return
            ctx.evaluated((src, long, k, traced), q.fired)
            if q.fired:
                ctx.count('parses canceled')
                if traced:
                    ctx.count('traced parses canceled')
                if not marked(t.errors):
                    ctx.violation('parse-not-marked', f'{[str(e) for e in t.errors]}\nk={k} {src}\n{long!r}', w)
                    return
                if any(not 0 <= e.pos <= len(long) for e in t.errors):
                    ctx.violation('cancel-position', f'{[(e.pos, str(e)) for e in t.errors]}\n{src}\n{long!r}', w)
                    return
                if q.late > LATE:
                    ctx.violation('parse-goes-on', f'{q.late} polls after the query has turned true\n{src}\n{long!r}', w)
                    return
            elif not traced:
                ctx.violation('polls-vary', f'only {q.n} polls, but {polls} before\n{src}\n{long!r}', w)
                return
            used.cancel_query__ = None
            nxt = r.choice(docs + [long])
            ok, t = ctx.guard(lambda: used(nxt, complete_match=True), w)
            if not ok:
                return
            ctx.count('documents parsed after cancellation')
            exp = outcome(cls()(nxt, complete_match=True))
            if outcome(t) != exp:
                ctx.violation('parse-after', f'after cancellation at poll {k} {nxt!r} yields\n{outcome(t)}\ninstead of\n{exp}\n{src}', w)
                return


class Logger(Compiler):
    """Counts every handler call; rebuilds the tree as text."""

    def __init__(self):
        super().__init__()
        self.log = []

    def reset(self):
        super().reset()
        self.text = []

    def prepare(self, root):
        self.text.append('prepare')
        self.finalizers.append((self.text.append, ('finalizer',)))

    def finalize(self, result):
        super().finalize(result)
        return result

    def on_a(self, node):
        self.step(node)
        return self.fallback_compiler(node)

    def on_b(self, node):
        self.step(node)
        for c in node.children:
            self.compile(c)
        return node

    def wildcard(self, node):
        self.step(node)
        return self.fallback_compiler(node)

    def attr_x(self, node, value):
        self.text.append('x=' + value)

    def step(self, node):
        self.log.append(node.name)
        self.text.append('/'.join(n.name for n in self.path) + ('=' + node.content if not node.children else ''))


class TextLogger(Logger):
    def finalize(self, result):
        super().finalize(result)
        return ' '.join(self.text)


def some_tree(r):
    def mk(d):
        name = r.choice(['a', 'b', 'c', ':d', 'e'])
        n = Node(name, tuple(mk(d - 1) for _ in range(r.randint(1, 3))) if d and r.random() < 0.7 else r.choice(['x', 'yy', '']))
        if r.random() < 0.2:
            n.attr['x'] = r.choice('12')
        return n
    return mk(r.randint(1, 4))


def compiling(ctx):
    r = ctx.rng
    tree = RootNode(some_tree(r)).with_pos(0)
    tree.source = tree.content
    fresh = TextLogger()
    want = fresh(copy.deepcopy(tree))
    steps = len(fresh.log)
    used = TextLogger()
    count = Query(10**9)
    if used(copy.deepcopy(tree), cancel_query=count) != want:
        ctx.violation('idle-query-compiler', f'{tree.as_sxpr()}', {'tree': tree.as_sxpr()})
    if count.n * 3 < steps:
        ctx.violation('compiler-rarely-polled', f'{count.n} polls, {steps} steps', {'tree': tree.as_sxpr()})
    for k in range(count.n):
        if count.n > 12 and r.random() < 0.5:
            continue
        w = {'tree': tree.as_sxpr(), 'k': k}
        ctx.current = w
        assigned = r.random() < 0.5
        t = copy.deepcopy(tree)
        used.log.clear()
        q = Query(k, used.log)
        if assigned:
            used.cancel_query = q
        ok, res = ctx.guard(lambda: used(t) if assigned else used(t, cancel_query=q), w)
        if not ok:
            return
        ctx.evaluated((tree.as_sxpr(), k, assigned), True)
        ctx.count('compilations canceled')
        if not q.fired:
            ctx.violation('query-ignored', f'query {"assigned" if assigned else "passed"} has not been polled\n{tree.as_sxpr()}', w)
            return
        if not marked(t.errors) or res is not None:
            ctx.violation('compilation-not-marked', f'{res!r} {t.errors}\n{tree.as_sxpr()} k={k}', w)
        if q.late > LATE or len(used.log) - q.at > 2:
            ctx.violation('compilation-goes-on', f'{q.late} polls and {len(used.log) - q.at} steps after the query has turned true', w)
        other = r.choice([tree, RootNode(some_tree(r)).with_pos(0)])
        got = used(copy.deepcopy(other))
        exp = TextLogger()(copy.deepcopy(other))
        ctx.count('compilations after cancellation')
        if got != exp:
            ctx.violation('compilation-after', f'after cancellation\n{got}\ninstead of\n{exp}', w)
            return


GRAMMAR = r'''@ literalws = none
doc = { item }+ [rest] /\n/
item = word { "," word } ";"
word = /[a-z]+/ | group
group = "(" §{ item } ")"
rest = /.+/
'''


def document(r, d=3):
    return ''.join(','.join(r.choice(['a', 'bc', 'x']) if d == 0 or r.random() < 0.8 else '(' + document(r, d - 1) + ')'
                            for _ in range(r.randint(1, 3))) + ';' for _ in range(r.randint(1, 3)))


class AST(Logger):
    def __call__(self, root, **kw):
        return super().__call__(root, **kw)


class Data(TextLogger):
    pass


def phases(ctx):
    r = ctx.rng
    g = dh.create_parser(GRAMMAR)
    log = []
    objs = dict(parser=g, ast=AST(), comp=Data(), third=Data())
    for key in ('ast', 'comp', 'third'):
        objs[key].log = log

    def fn(tree):           # a transformation without a query
        log.append('fn')
        for n in tree.select_if(lambda n: n.name == 'word', include_root=True):
            n.attr['x'] = '1'
        return tree

    def preprocessed(src, name=''):
        log.append('pre')
        from DHParser.preprocess import nil_preprocessor
        return nil_preprocessor(src, name)
    how = r.choice(['source', 'source', 'pipeline', 'full'])
    transformer = objs['ast'] if r.random() < 0.6 else fn
    third = objs['third']

    def process(doc, q, o, tr):
        if how == 'source':
            res = compile_source(doc, preprocessed, o['parser'], tr, o['comp'], cancel_query=q)
            return str(res.result), res.messages
        junctions = {create('CST', tr, 'AST'), create('AST', o['comp'], 'data'), create('AST', o['third'], 'more')}
        if how == 'pipeline':
            saved = o['parser'].cancel_query__
            o['parser'].cancel_query__ = None
            cst = o['parser'](doc)
            cst.docname = 'x'
            res = run_pipeline(junctions, {'CST': cst}, {'data', 'more'}, cancel_query=q)
            o['parser'].cancel_query__ = saved
        else:
            res = full_pipeline(doc, lambda: preprocessed, lambda: o['parser'], junctions, {'data', 'more'}, cancel_query=q)
        return ({k: str(v[0]) for k, v in res.items() if k in ('data', 'more')},
                [e for v in res.values() for e in v[1]])

    def create(src, obj, dst):
        return Junction(src, Factory(obj, dst), dst)

    class Factory:
        def __init__(self, obj, dst):
            self.obj, self.dst, self.__name__ = obj, dst, 'f'

        def __call__(self):
            if self.dst == 'AST' and isinstance(self.obj, Compiler):
                return self.obj
            return self.obj

    def new():
        o = dict(parser=dh.create_parser(GRAMMAR), ast=AST(), comp=Data(), third=Data())
        return o, (o['ast'] if transformer is not fn else fn)

    doc = document(r) + '\n'
    if r.random() < 0.4:
        i = r.randrange(len(doc))
        doc = doc[:i] + r.choice('?)(1') + doc[i:]

    def norm(x):
        return x[0], sorted((e.pos, int(e.code), e.message) for e in x[1])
    o, tr = new()
    w = {'doc': doc, 'how': how, 'transformer': 'object' if transformer is not fn else 'function'}
    ctx.current = w
    ok, plain = ctx.guard(lambda: norm(process(doc, None, o, tr)), w)
    if not ok:
        return
    count = Query(10**9)
    o, tr = new()
    idle = norm(process(doc, count, o, tr))
    if idle != plain:
        ctx.violation('idle-query-phases', f'{idle}\n{plain}\n{w}', w)
        return
    ks = range(count.n) if count.n <= 25 else sorted(set([0, 1, 2, count.n - 1, count.n - 2] + r.sample(range(count.n), 20)))
    for k in ks:
        w = {'doc': doc, 'how': how, 'k': k, 'of': count.n, 'transformer': 'object' if transformer is not fn else 'function'}
        ctx.current = w
        log.clear()
        q = Query(k, log)
        ok, res = ctx.guard(lambda: process(doc, q, objs, transformer), w)
        if not ok:
            return
        ctx.evaluated((doc, how, k, transformer is fn), q.fired)
        ctx.count('runs canceled: ' + how)
        if not q.fired:
            ctx.violation('polls-vary-phases', f'{q.n} polls instead of {count.n} {w}', w)
            return
        if not marked(res[1]):
            ctx.violation('run-not-marked', f'{how}, poll {k} of {count.n}: {[str(e) for e in res[1]]} {res[0]}\n{w}', w)
            return
        if q.late > LATE or len(log) - q.at > 2:
            ctx.violation('run-goes-on', f'{q.late} polls, {log[q.at:]} after the query has turned true\n{w}', w)
            return
        nxt = r.choice([doc, document(r) + '\n'])
        if r.random() < 0.3:        # the objects themselves are free again right after the canceled run
            direct = [('parser', lambda x: outcome(x['parser'](nxt)))]
            if how != 'source' or transformer is not fn:
                direct.append(('ast', lambda x: str(x['ast'](dh.create_parser(GRAMMAR)(nxt)))))
            direct += [(name, lambda x, name=name: str(x[name](x['parser'](nxt)))) for name in ('comp', 'third')]
            r.shuffle(direct)
            o, _ = new()
            for name, call in direct:
                ok, got = ctx.guard(lambda: call(objs), w)
                if not ok:
                    return
                exp = call(o)
                ctx.count('objects used directly after a canceled run')
                if got != exp:
                    ctx.violation('object-after', f'{name} after cancellation at {k} of {count.n} yields\n{got}\ninstead of\n{exp}\n{w}', w)
                    return
        ok, got = ctx.guard(lambda: norm(process(nxt, None, objs, transformer)), w)
        if not ok:
            return
        o, tr = new()
        exp = norm(process(nxt, None, o, tr))
        ctx.count('runs after cancellation')
        if got != exp:
            ctx.violation('run-after', f'after cancellation at {k} of {count.n}\n{got}\ninstead of\n{exp}\n{w}', w)
            return
        # ...also if the parser is used on its own
        got, exp = outcome(objs['parser'](nxt)), outcome(dh.create_parser(GRAMMAR)(nxt))
        if got != exp:
            ctx.violation('parser-after', f'after cancellation at {k} of {count.n} the parser yields\n{got}\ninstead of\n{exp}\n{w}', w)
            return


def event(ctx):
    """The query is an event that another thread sets at an arbitrary time."""
    r = ctx.rng
    g = dh.create_parser(GRAMMAR)
    doc = document(r) * 60 + '\n'
    ev = threading.Event()
    answers = []

    def query():
        a = ev.is_set()
        answers.append(a)
        return a
    g.cancel_query__ = query
    started = threading.Event()

    def setter():
        started.wait()
        for _ in range(r.randint(0, 3000)):
            pass
        ev.set()
    th = threading.Thread(target=setter)
    th.start()
    started.set()
    ok, t = ctx.guard(lambda: g(doc), doc)
    th.join()
    if not ok:
        return
    g.cancel_query__ = None
    ctx.evaluated(('event', doc, len(answers)), any(answers))
    ctx.count('parses canceled from another thread', any(answers))
    if any(answers) != marked(t.errors) or sum(answers) > 1 + LATE:
        ctx.violation('event', f'query returned true {sum(answers)} times, marked: {marked(t.errors)}', {'doc': doc})
    if outcome(g(doc)) != outcome(dh.create_parser(GRAMMAR)(doc)):
        ctx.violation('event-after', 'result differs after cancellation', {'doc': doc})
