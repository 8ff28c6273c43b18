"""P26: the compiler class against a reference traversal; compile_source with phases that fail."""
import copy, re
from vt import trees, dh

NAMES = ['doc', 'a', 'b', 'c', 'item', ':Text', ':Series', ':Sync2', 'x-y', '!--', 'n.s', 'p:q', 'ä', 'T1', '?xml', 'on_a']
ATTRS = ['visitor-name', 'id', 'class', 'data-x', 'xml:id', 'a.b', 'n', 'lang', 'visitors']


def doc_name(name):
    """the documented name of the handler"""
    if re.match(r'\w+$', name):
        return 'on_' + name
    if name[:1] == ':' and re.match(r'\w+$', name[1:]):
        return 'on_' + name[1:] + '__'
    return 'on_' + ''.join(ch if re.match(r'\w', ch) else hex(ord(ch))[2:] for ch in name)


def attr_name(a):
    return 'attr_' + re.sub(r'[-.:]', '_', a)


class Boom(Exception):
    pass


KINDS = ['fallback', 'fallback', 'loop', 'leaf', 'empty', 'replace', 'none', 'string-loop', 'finalizer', 'nested-finalizer', 'reverse', 'generated']


def build(r, C, N, log, spec, inst):
    """a compiler class with the handlers described in `spec`"""
    def note(self, what, node):
        log.append((what, node.name, ident(node), tuple(ident(n) for n in self.path), ident(self.tree)))

    def ident(node):
        return inst['ids'].setdefault(id(node), (len(inst['ids']), inst['keep'].append(node)))[0]

    def handler(kind, name):
        def on(self, node):
            note(self, name, node)
            inst['steps'] -= 1
            if inst['steps'] == 0:
                raise inst['boom']
            if kind == 'fallback':
                return self.fallback_compiler(node)
            if kind in ('loop', 'reverse'):
                for c in (reversed(node.children) if kind == 'reverse' else node.children):
                    self.compile(c)
                return node
            if kind == 'empty':
                return N.EMPTY_NODE
            if kind == 'replace':
                self.fallback_compiler(node)
                return N.Node('new', 'replaced').with_pos(node.pos)
            if kind == 'none':
                return None
            if kind == 'finalizer':
                k = len(inst['final'])
                inst['final'].append(k)
                self.finalizers.append((lambda *a: log.append(('final', *a)), (k, name)))
                return self.fallback_compiler(node)
            if kind == 'nested-finalizer':
                def outer(k):
                    log.append(('final', k, 'outer'))
                    self.finalizers.append((lambda: log.append(('final', k, 'inner')), ()))
                k = len(inst['final'])
                inst['final'].append(k)
                self.finalizers.append((outer, (k,)))
                return self.fallback_compiler(node)
            if kind == 'generated':
                self.compile(N.Node('made', 'content'))      # has no position
                return self.fallback_compiler(node)
            return node
        return on

    def attr(a):
        def visit(self, node, value):
            log.append((attr_name(a), ident(node), value, tuple(ident(n) for n in self.path)))
            inst['asteps'] -= 1
            if inst['asteps'] == 0:
                raise inst['boom']
        return visit

    body = {doc_name(n): handler(k, doc_name(n)) for n, k in spec['handlers'].items()}
    body.update({attr_name(a): attr(a) for a in spec['attrs']})
    if spec['wildcard']:
        body['wildcard'] = handler(spec['wildcard'], 'wildcard')

    def init(self):
        C.Compiler.__init__(self)
        self.forbid_returning_None = not spec['none']

    def reset(self):
        C.Compiler.reset(self)
        self.counter = 0

    def prepare(self, root):
        log.append(('prepare', ident(root), len(self.path), len(self.finalizers), self.counter))
        self.counter += 1

    def finalize(self, result):
        log.append(('finalize',))
        return C.Compiler.finalize(self, result)
    body.update(__init__=init, reset=reset, prepare=prepare, finalize=finalize)
    return type('VtCompiler', (C.Compiler,), body), ident


class Expect:
    """reference traversal: yields log, result and the tree after compilation without touching it"""
    def __init__(self, spec, ident, steps, asteps, root):
        self.spec, self.ident, self.steps, self.asteps = spec, ident, steps, asteps
        self.log, self.path, self.final = [], [], []
        self.root = root
        self.nfinal = 0
        self.stop = None
        self.made = 0

    def attributes(self, nd):
        if nd.has_attr():
            p = tuple(map(self.ident, self.path)) + (self.ident(nd),)
            for a, v in nd.attr.items():
                if a in self.spec['attrs']:
                    self.log.append((attr_name(a), self.ident(nd), v, p))
                    self.asteps -= 1
                    if self.asteps == 0:
                        raise Boom

    def kids(self, nd):
        return [self.compile(c) for c in nd.children]

    def fallback(self, nd):
        """result: None (dropped), or a tree (name, attributes, children or text)"""
        res = [(c, self.compile(c)) for c in nd.children]
        changed = any(x is not c for c, (x, _) in res)
        kids = [(x, k) for c, (x, k) in res if not changed or (x is not None and x != 'EMPTY' and not (x is c and c.name == ':EMPTY'))]
        return tuple(k for _, k in kids) or '' if nd.children else str(nd.result)

    def compile(self, nd):
        """(identity of the result, shape of the result)"""
        s = self.spec
        self.path.append(nd)
        kind = s['handlers'].get(nd.name)
        name = doc_name(nd.name)
        if kind is None and s['wildcard']:
            kind, name = s['wildcard'], 'wildcard'
        if kind:
            self.log.append((name, nd.name, self.ident(nd), tuple(map(self.ident, self.path)), self.ident(self.root)))
            self.steps -= 1
            if self.steps == 0:
                raise Boom
        at = tuple(nd.attr.items()) if nd.has_attr() else ()
        plain = lambda: trees.key(nd)
        out = nd
        if kind in (None, 'fallback'):
            shape = (nd.name, at, self.fallback(nd))
        elif kind in ('loop', 'reverse'):
            res = {}
            for c in (reversed(nd.children) if kind == 'reverse' else nd.children):
                res[id(c)] = self.compile(c)[1] if True else None
            shape = (nd.name, at, tuple(self.in_place(c) for c in nd.children) if nd.children else str(nd.result))
        elif kind == 'empty':
            out, shape = 'EMPTY', (':EMPTY', (), '')
        elif kind == 'replace':
            self.shapes[id(nd)] = (nd.name, at, self.fallback(nd))
            out, shape = 'new', ('new', (), 'replaced')
        elif kind == 'none':
            out, shape = None, None
        elif kind == 'finalizer':
            self.final.append([('final', self.nfinal, name)])
            self.nfinal += 1
            shape = (nd.name, at, self.fallback(nd))
        elif kind == 'nested-finalizer':
            self.final.append([('final', self.nfinal, 'outer'), ('final', self.nfinal, 'inner')])
            self.nfinal += 1
            shape = (nd.name, at, self.fallback(nd))
        else:
            shape = plain()
        if kind not in ('replace',):
            self.shapes[id(nd)] = shape if out is nd else plain()
        self.path.pop()
        self.attributes(nd)
        if out is None and not s['none']:
            raise Boom('none')
        return out, shape

    def in_place(self, nd):
        return self.shapes[id(nd)]

    shapes = None

    def run(self):
        self.shapes = {}
        self.log.append(('prepare', self.ident(self.root), 0, 0, 0))
        try:
            out, shape = self.compile(self.root)
        except Boom as e:
            return 'raised', None, None
        for f in reversed(self.final):
            self.log.extend(f)
        self.log.append(('finalize',))
        return 'ok', out, shape


def real_shape(nd):
    return trees.key(nd)


def traversal(ctx, C, N):
    r = ctx.rng
    names = r.sample(NAMES, r.randint(2, 6))
    handled = r.sample(names, r.randint(0, len(names)))
    none = r.random() < 0.4
    kinds = [k for k in KINDS[:-1] if k not in ('string-loop',) and (k != 'none' or none or r.random() < 0.2)]
    # handler names must be unambiguous
    spec = {'handlers': {n: r.choice(kinds) for n in handled}, 'attrs': r.sample(ATTRS[1:], r.choice([0, 0, 1, 3])),
            'wildcard': r.choice([None, None, 'fallback', 'loop', 'leaf']), 'none': none}

    log = []
    inst = {'ids': {}, 'keep': [], 'steps': -1, 'asteps': -1, 'final': [], 'boom': Boom()}
    cls, ident = build(r, C, N, log, spec, inst)
    comp = cls()
    history = []
    for _ in range(r.randint(1, 4)):
        log.clear()
        inst['final'].clear()
        size = r.randint(0, 4)
        root = trees.tree(r, size, names=names + (['other'] if r.random() < 0.3 else []))
        for p in trees.paths(root):
            if r.random() < 0.3:
                p[-1].attr.update({a: trees.attr_value(r) for a in r.sample(ATTRS, r.randint(1, 3))})
        root = N.RootNode(root).with_pos(0)
        boom = r.random()
        inst['steps'] = r.randint(1, 12) if boom < 0.2 else -1
        inst['asteps'] = r.randint(1, 4) if 0.2 < boom < 0.3 else -1
        inst['boom'] = r.choice([Boom(), ValueError('planted'), AttributeError('planted'), KeyError('planted')])
        shown = str(real_shape(root))
        history.append((shown, inst['steps'], inst['asteps'], repr(inst['boom'])))
        ctx.current = {'spec': spec, 'history': list(history)}
        exp = Expect(spec, ident, inst['steps'], inst['asteps'], root)
        state, out, shape = exp.run()
        show = lambda: f'handlers {spec}\nruns of the same compiler: {history}'
        try:
            result = comp(root)
            got = 'ok'
        except Exception as e:
            result, got = e, 'raised'
        ctx.evaluated((spec, shown), root.children != ())
        ctx.count('compiler runs: failing' if state == 'raised' else 'compiler runs')
        ctx.count('nodes compiled', sum(1 for e in exp.log if e[0].startswith(('on_', 'wild'))))
        ctx.count('attributes visited', sum(1 for e in exp.log if e[0].startswith('attr_')))
        ctx.count('finalizers', sum(1 for e in exp.log if e[0] == 'final'))
        if len(history) > 1:
            ctx.count('compiler runs: reused')
        if log != exp.log:
            k = next((i for i, (a, b) in enumerate(zip(log, exp.log)) if a != b), min(len(log), len(exp.log)))
            a, b = log[k:k + 1], exp.log[k:k + 1]
            kind = 'attribute-visits' if (a + b) and (a or b)[0][0].startswith('attr_') and (b or a)[0][0].startswith('attr_') or \
                [e for e in log if not e[0].startswith('attr_')] == [e for e in exp.log if not e[0].startswith('attr_')] else 'visits'
            ctx.violation(kind, f'step {k}: (handler, node, path, tree) is {a}, expected {b}\n{show()}', ctx.current)
            return
        if got != state:
            ctx.violation('exception', f'{got}: {result!r}, expected: {state}\n{show()}', ctx.current)
            return
        if state == 'raised':
            if exp.steps == 0 or exp.asteps == 0:
                if result is not inst['boom']:
                    ctx.violation('exception', f'raised {result!r} instead of {inst["boom"]!r}\n{show()}', ctx.current)
            continue
        if out is root and result is not root or out is None and result is not None or out == 'EMPTY' and result is not N.EMPTY_NODE:
            ctx.violation('result', f'result {result!r}\n{show()}', ctx.current)
        elif isinstance(result, N.Node):
            now = real_shape(result)
            if now != shape:
                ctx.violation('tree', f'tree after compilation\n{now}\nexpected\n{shape}\n{show()}', ctx.current)
        if comp.path:
            ctx.violation('path-left', f'path after compilation: {comp.path}\n{show()}', ctx.current)
    ctx.sample(ctx.current)


GRAMMAR = r'''@ whitespace = /[ \n]*/
@ literalws = right
@ drop = strings, whitespace
doc = ~ { stmt } EOF
@ stmt_resume = /;\s*/
stmt = name "=" §expr ";"
expr = term { ("+"|"-") §term }
term = number | name | "(" §expr ")"
@ term_skip = /(?=[;)])/
name = /[a-z]+/~
number = /[0-9]+/~
EOF = !/./
'''


def sources(r):
    def expr(d):
        k = r.random()
        if d <= 0 or k < 0.4:
            return r.choice(['1', '23', 'x', 'yz'])
        if k < 0.6:
            return '(' + expr(d - 1) + ')'
        return expr(d - 1) + r.choice(['+', ' - ', ' +\n']) + expr(d - 1)
    s = ''.join(f'{r.choice("abc")} = {expr(3)};{r.choice([" ", chr(10)])}' for _ in range(r.randint(1, 5)))
    for _ in range(r.choice([0, 0, 1, 1, 2])):
        i = r.randrange(len(s))
        s = s[:i] + r.choice(['', '?', '+', ')', '$', '= ']) + s[i + r.choice([0, 1]):]
    return s + '\n'


def phases(ctx, C, N, grammar, E):
    r = ctx.rng
    src = sources(r)
    calls = []
    added = []      # (message, position or None)
    spec = {}

    class Crash(Exception):
        pass

    def phase(name):
        s = spec[name] = {'add': [(r.random(), r.choice([E.NOTICE, E.WARNING, E.WARNING, E.ERROR, E.ERROR, E.FATAL]) if r.random() < 0.6 else E.WARNING)
                                  for _ in range(r.choice([0, 0, 1, 2]))],
                          'crash': r.random() if r.random() < 0.4 else None, 'kind': r.choice(['ValueError', 'Crash', 'AttributeError', 'AssertionError', 'IndexError', 'RecursionError', 'arity', 'builtin']),
                          'mutate': r.random() < 0.4}
        return s
    pre, tr, co = phase('preprocess'), phase('transform'), phase('compile')
    use_pre = r.random() < 0.5
    exc = {'ValueError': ValueError, 'Crash': Crash, 'AttributeError': AttributeError, 'AssertionError': AssertionError, 'IndexError': IndexError,
           'RecursionError': RecursionError}

    def preprocess(text, name):
        calls.append('preprocess')
        errs = []
        for x, code in pre['add']:
            p = int(x * len(text))
            errs.append(E.Error(f'planted {len(added)}', p, code))
            added.append((f'planted {len(added)}', p, code))
        from DHParser.preprocess import PreprocessorResult, gen_neutral_srcmap_func
        return PreprocessorResult(text, text, gen_neutral_srcmap_func(text, name), errs)

    def nodes(root):
        return [p[-1] for p in trees.paths(root)]

    def work(s, root):
        nds = nodes(root)
        for x, code in s['add']:
            nd = nds[int(x * len(nds))]
            root.new_error(nd, f'planted {len(added)}', code)
            added.append((f'planted {len(added)}', nd.pos, code))
        if s['mutate']:
            nd = nds[r.randrange(len(nds))]
            if nd.children and nd is not root:
                nd.result = tuple(c for c in nd.children if r.random() < 0.7)

    def transform(root):
        calls.append('transform')
        work(tr, root)
        if tr['crash'] is not None:
            if tr['kind'] == 'arity':
                return preprocess()
            if tr['kind'] == 'builtin':
                return int([])
            raise exc[tr['kind']]('planted crash')
        return root

    where = [None]

    class Comp(C.Compiler):
        def wildcard(self, node):
            if node is self.tree:
                calls.append('compile')
                work(co, self.tree)
                k = len(nodes(self.tree))
                self.crash_at = int(co['crash'] * k) if co['crash'] is not None else -1
                self.seen = 0
            self.seen += 1
            if self.seen - 1 == self.crash_at:
                where[0] = node
                if co['mutate']:
                    fresh = N.Node('fresh', 'without position')
                    self.path.append(fresh)
                if co['kind'] == 'arity':
                    return preprocess()
                if co['kind'] == 'builtin':
                    return int([])
                raise exc[co['kind']]('planted crash')
            return self.fallback_compiler(node)

        def finalize(self, result):
            super().finalize(result)
            return 'RESULT'

    compiler = Comp()
    direct = co['kind'] == 'arity' and r.random() < 0.5
    if direct:      # a callable with a wrong signature
        compiler = lambda: None
    keep = r.random() < 0.5
    ctx.current = {'source': src, 'spec': spec, 'preprocessor': use_pre, 'direct': direct}
    show = f'source {src!r}\nphases {spec}, preprocessor {use_pre}, compiler without parameters: {direct}'
    base = grammar(src, complete_match=True)
    base_err = [(e.message, e.pos, int(e.code)) for e in base.errors_sorted]
    try:
        res = C.compile_source(src, preprocess if use_pre else None, grammar, transform, compiler, preserve_AST=keep)
        raised = None
    except Exception as e:
        res, raised = None, e
    ctx.evaluated((src, spec))
    err = lambda level: any(c >= level for _, _, c in (base_err if 'transform' in calls or not fatal_pre else []) + added)
    fatal_pre = use_pre and any(c >= E.FATAL for _, _, c in [(0, 0, c) for _, c in pre['add']])
    # what must have happened
    expected_calls = ['preprocess'] if use_pre else []
    errors_now = list(base_err)
    crash = None
    done = fatal_pre
    if use_pre:
        errors_now += [(None, None, c) for _, c in pre['add']]
    if not done and any(c >= E.FATAL for *_, c in errors_now):
        done = True
    may_raise = False
    if not done:
        expected_calls.append('transform')
        before = any(c >= E.ERROR for *_, c in errors_now)
        errors_now += [(None, None, c) for _, c in tr['add']]
        if tr['crash'] is not None:
            if not before:
                may_raise, done = True, True
            else:
                crash = E.AST_TRANSFORM_CRASH
        if any(c >= E.FATAL for *_, c in errors_now) or crash:
            done = True
    if not done:
        before = any(c >= E.ERROR for *_, c in errors_now)
        if direct:
            if before:
                crash = E.TREE_PROCESSING_CRASH
            else:
                may_raise = True
        else:
            expected_calls.append('compile')
            errors_now += [(None, None, c) for _, c in co['add']]
            if co['crash'] is not None:
                # the compiler might never get to the node because the tree has been changed
                if where[0] is not None:
                    if before:
                        crash = E.TREE_PROCESSING_CRASH
                    else:
                        may_raise = True
    ctx.count('sources processed' + (': with errors' if base_err else ''))
    if crash:
        ctx.count(f'crashes after errors: {"transformation" if crash == E.AST_TRANSFORM_CRASH else "compilation"}')
    if may_raise:
        ctx.count('crashes without errors')
    if done:
        ctx.count('later phases not run')
    if calls != expected_calls:
        ctx.violation('phases-run', f'phases run: {calls}, expected {expected_calls}\n{show}', ctx.current)
        return
    if (raised is not None) != may_raise:
        if raised is not None:
            import traceback
            ctx.violation('phase-raises', f'{type(raised).__name__}: {raised}, although earlier errors exist\n'
                          f'{"".join(traceback.format_tb(raised.__traceback__)[-2:])}{show}', ctx.current)
        else:
            ctx.violation('crash-swallowed', f'an exception without earlier errors has been swallowed: {res.messages}\n{show}', ctx.current)
        return
    if raised is not None:
        return
    got = [(m.message, m.pos, int(m.code)) for m in res.messages]
    if [p for _, p, _ in got] != sorted(p for _, p, _ in got):
        ctx.violation('messages-unsorted', f'{got}\n{show}', ctx.current)
    crashes = [g for g in got if g[2] in (E.AST_TRANSFORM_CRASH, E.TREE_PROCESSING_CRASH)]
    rest = sorted(g for g in got if g not in crashes)
    want = sorted([*([] if fatal_pre else base_err), *[(m, p, int(c)) for m, p, c in added]])
    # of several messages with the same code at the same place, only one is kept
    place = lambda g: g[1:]
    if len(rest) < len(res.messages) - len(crashes) or not set(rest) <= set(want) or sorted(set(map(place, want))) != sorted(map(place, rest)):
        ctx.violation('messages', f'messages {rest}, expected {want}\n{show}', ctx.current)
    if [c[2] for c in crashes] != ([crash] if crash else []):
        ctx.violation('crash-message', f'messages about crashes: {crashes}, expected: {crash}\n{show}', ctx.current)
    elif crash == E.TREE_PROCESSING_CRASH and where[0] is not None and not direct:
        if crashes[0][1] != where[0].pos:
            ctx.violation('crash-location', f'{crashes[0]} is not located at the node that was compiled: {where[0].as_sxpr()} {where[0].pos}\n{show}', ctx.current)
    for m in res.messages:
        ctx.count('messages located')
        line, col = src.count('\n', 0, m.pos) + 1, m.pos - (src.rfind('\n', 0, m.pos) + 1) + 1
        if not 0 <= m.pos <= len(src) or ((m.line, m.column) != (line, col)):
            ctx.violation('location', f'{m!r} pos {m.pos}: line {m.line}, column {m.column}, expected {line}, {col}\n{show}', ctx.current)
            break
    ok = 'compile' in calls and not crash
    if (res.result == 'RESULT') != ok or (not ok and res.result is not None):
        ctx.violation('result', f'result {res.result!r}\n{show}', ctx.current)
    if (res.AST is not None) != (keep and (('compile' in calls) or (direct and not done))):
        ctx.violation('ast-kept', f'AST {res.AST is not None} requested {keep}\n{show}', ctx.current)


def run(ctx):
    from DHParser import compile as C, nodetree as N, error as E
    from DHParser.dsl import create_parser
    grammar = create_parser(GRAMMAR)
    for _ in range(ctx.n(800, 1500)):
        traversal(ctx, C, N)
    for _ in range(ctx.n(600, 1200)):
        phases(ctx, C, N, grammar, E)
