"""P25: pipelines of tree-transformations, files and batches against the composition of the steps."""
import copy, itertools, os, random, shutil, threading
from vt import trees


class Crash(Exception):
    pass


STAGES = ['AST', 'xml', 'html', 'LaTeX', 'json', 'x1', 'Y2', 'data', 'pretty', 'ts', 'ast2', 'z']


class Step:
    """a transformation: marks the tree, adds errors, fails"""
    def __init__(self, world, src, dst, spec):
        self.world, self.src, self.dst, self.spec = world, src, dst, spec
        if spec['cancel-attr'] == 1:
            self.cancel_query = None
        elif spec['cancel-attr'] == 2:
            self.cancel_query__ = None

    def __call__(self, root):
        w, s = self.world, self.spec
        w['calls'].append((self.src, self.dst, root.stage))
        N = w['N']
        for code in s['errors']:
            nds = [p[-1] for p in trees.paths(root)]
            nd = nds[int(s['where'] * len(nds))]
            root.new_error(nd, f'{self.src}->{self.dst} {code}', code)
        if s['crash']:
            raise Crash(f'{self.src}->{self.dst}')
        apply(N, root, self.dst, s)
        if s['set-stage']:
            root.stage = self.dst
        if s['data'] == 'root.data':
            root.data = ('data', self.dst, str(trees.key(root)))
            return root
        return ('result', self.dst, trees.key(root)) if s['data'] else root


def apply(N, root, dst, s):
    for p in trees.paths(root):
        if s['rename'] and not p[-1].children:
            p[-1].result = str(p[-1].result) + dst[0]
    if s['drop'] and root.children:
        root.result = root.children[1:] or 'dropped'
    mark = N.Node('mark', dst)
    root.result = (root.children if root.children else (N.Node('text', str(root.result)),)) + (mark,)
    root.attr[dst] = 'seen'


LONG = 'long text\n' * 1000


class Factory:
    def __init__(self, step):
        self.step = step
        self.__name__ = f'{step.src}_{step.dst}'

    def __call__(self):
        return self.step


def graph(r):
    n = r.randint(1, 8)
    names = ['CST'] + r.sample(STAGES, n)
    if r.random() < 0.5:
        names.sort(key=lambda x: x != 'CST')
    edges = []
    chainy = r.random()
    for i in range(1, n + 1):
        src = names[i - 1] if r.random() < chainy else names[r.randrange(i)]
        edges.append((src, names[i]))
    return names, edges


def stage_graphs(ctx, P, N, E):
    from DHParser.preprocess import gen_neutral_srcmap_func
    r = ctx.rng
    names, edges = graph(r)
    parent = {d: s for s, d in edges}
    leaves = {d for _, d in edges} - {s for s, _ in edges}
    world = {'calls': [], 'N': N}
    faulty = r.random()
    specs = {}
    for s, d in edges:
        specs[d] = {'errors': [r.choice([E.NOTICE, E.WARNING, E.ERROR] + ([E.FATAL] if faulty < 0.2 else [])) for _ in range(r.choice([0, 0, 1, 2]))] if faulty < 0.7 else [],
                    'where': r.random(), 'crash': 0.2 < faulty < 0.4 and r.random() < 0.25, 'rename': r.random() < 0.5, 'drop': r.random() < 0.2,
                    'set-stage': r.random() < 0.5, 'data': d in leaves and r.random() < 0.4 and r.choice([True, 'root.data']), 'cancel-attr': r.randrange(3)}
    base = N.RootNode(trees.tree(r, r.randint(0, 3), names=['a', 'b', 'c'])).with_pos(0)
    if base.name == '':
        return
    base.stage = r.choice(['CST', 'CST', ''])
    base.source = LONG
    base.source_mapping = gen_neutral_srcmap_func(LONG, '')
    if r.random() < 0.3:
        base.new_error(base, 'given', r.choice([E.WARNING, E.ERROR]))
    sources = {'CST': base}
    if r.random() < 0.3 and len(names) > 1:      # an intermediate stage is given, too, or instead
        k = r.choice(names[1:])
        t = N.RootNode(trees.tree(r, r.randint(0, 3), names=['u', 'v'])).with_pos(0)
        t.stage = r.choice([k, ''])
        t.source = LONG
        t.source_mapping = gen_neutral_srcmap_func(LONG, '')
        sources[k] = t
        if r.random() < 0.3:
            del sources['CST']
    targets = r.sample(names, r.randint(1, len(names)))

    def way(t):
        steps = []
        while t not in sources:
            if t not in parent:
                return None
            steps.append(t)
            t = parent[t]
        return t, steps[::-1]
    targets = [t for t in targets if way(t) is not None]
    if not targets:
        return
    needed = {s for t in targets for s in way(t)[1]}
    shown = f'junctions {edges}, sources {[*sources]}, targets {targets}, {({d: specs[d] for d in needed})}'
    # reference: each stage computed from scratch along its way
    ref, ref_err = {}, {}
    keep = {k: copy.deepcopy(t) for k, t in sources.items()}

    class Raises(Exception):
        pass

    def compute(t):
        s, steps = way(t)
        root = copy.deepcopy(keep[s])
        errs = [(e.message, e.pos, int(e.code)) for e in root.errors]
        result = root
        for d in steps:
            sp = specs[d]
            before = any(c >= E.ERROR for *_, c in errs)
            for code in sp['errors']:
                nds = [p[-1] for p in trees.paths(root)]
                nd = nds[int(sp['where'] * len(nds))]
                errs.append((f'{parent[d]}->{d} {code}', nd.pos, int(code)))
            if any(c >= E.FATAL for *_, c in errs):
                return 'fatal', errs
            if sp['crash']:
                if not before:
                    raise Raises(d)
                return 'fatal', errs + [('crash', 0, int(E.TREE_PROCESSING_CRASH))]
            apply(N, root, d, sp)
            if sp['data'] == 'root.data':
                result = ('data', d, str(trees.key(root)))
            elif sp['data']:
                result = ('result', d, trees.key(root))
            else:
                result = root
        return result, errs
    raises = fatal = False
    for t in targets:
        try:
            ref[t] = compute(t)
            if isinstance(ref[t][0], str) or any(c >= E.FATAL for *_, c in ref[t][1]):
                fatal = True
        except Raises:
            raises = True
    js = [P.Junction(s, Factory(Step(world, s, d, specs[d])), d) for s, d in edges]
    for _ in range(r.choice([1, 1, 2])):
        r.shuffle(js)
        r.shuffle(targets)
        world['calls'].clear()
        given = {k: copy.deepcopy(t) for k, t in keep.items()}
        ctx.current = shown
        if r.random() < 0.2:
            given = {k.lower() if k in ('CST', 'AST') else k: t for k, t in given.items()}
        ctx.evaluated((edges, targets, sorted(sources)), len(edges) > 1)
        try:
            # list and tuple show the order of the junctions to the code, a set hides it
            res = P.run_pipeline(r.choice([set, list, tuple])(js), given, r.choice([set, frozenset])(targets))
            exc = None
        except Exception as e:
            res, exc = None, e
        ctx.count('pipelines run' if not fatal and not raises else 'pipelines run: stopped' if fatal else 'pipelines run: failing')
        ctx.count('steps executed', len(world['calls']))
        twice = [c for c in set(c[:2] for c in world['calls']) if sum(x[:2] == c for x in world['calls']) > 1]
        if twice:
            ctx.violation('step-repeated', f'steps executed more than once: {twice}\n{shown}', shown)
        if exc is not None:
            if not (raises and isinstance(exc, Crash)):
                import traceback
                ctx.violation('pipeline-raises', f'{type(exc).__name__}: {exc}\n{"".join(traceback.format_tb(exc.__traceback__)[-2:])}{shown}', shown)
            continue
        if raises and not fatal:
            ctx.violation('crash-swallowed', f'a step fails without earlier errors, but no exception was raised\n{shown}', shown)
            continue
        for d in [c[1] for c in world['calls']]:
            if fatal:
                break
        if fatal:
            # nothing runs after the step with the fatal error
            bad = [d for d in specs if any(c >= E.FATAL for c in specs[d]['errors'])]
            order = [c[1] for c in world['calls']]
            hit = [i for i, d in enumerate(order) if d in bad]
            if hit and hit[0] != len(order) - 1:
                ctx.violation('after-fatal', f'steps executed: {order}, the fatal error occurred in {order[hit[0]]}\n{shown}', shown)
        for t in targets:
            if t not in res:
                if not fatal:
                    ctx.violation('target-missing', f'{t} is missing: {list(res)}\n{shown}', shown)
                continue
            got, errs = res[t]
            if t not in ref:
                continue
            want, want_errs = ref[t]
            if isinstance(want, str):
                if got is not None and isinstance(got, N.Node) and not any(c >= E.FATAL for c in specs[t]['errors']):
                    ctx.violation('after-fatal', f'{t} delivered in spite of a fatal error before\n{shown}', shown)
                if not any(int(e.code) >= E.FATAL for e in errs):
                    ctx.violation('errors-lost', f'{t}: fatal error not reported: {errs}\n{shown}', shown)
                continue
            ctx.count('targets compared')
            a = trees.key(got) if isinstance(got, N.Node) else got
            b = trees.key(want) if isinstance(want, N.Node) else want
            if a != b:
                ctx.violation('target-differs', f'{t} is\n{a}\nexpected\n{b}\n{shown}', shown)
            place = lambda l: sorted({(p, c) for _, p, c in l})
            ge = [(e.message, e.pos, int(e.code)) for e in errs]
            norm = lambda l: sorted({(p if c != E.TREE_PROCESSING_CRASH else 0, c) for _, p, c in l})
            if norm(ge) != norm(want_errs) or not {m for m, _, c in ge if c != E.TREE_PROCESSING_CRASH} <= {m for m, *_ in want_errs}:
                ctx.violation('errors-differ', f'{t}: errors {ge}, expected {want_errs}\n{shown}', shown)
            if [p for _, p, _ in ge] != sorted(p for _, p, _ in ge):
                ctx.violation('errors-unsorted', f'{t}: {ge}\n{shown}', shown)
            ctx.count('errors compared', len(ge))
        if not fatal and 'AST' not in names:
            pass
    # a target that does not exist
    if r.random() < 0.2:
        bogus = r.choice(['nowhere', 'XML!'])
        try:
            P.run_pipeline(set(js), {k: copy.deepcopy(t) for k, t in keep.items()}, {*targets, bogus})
            ctx.violation('bogus-target', f'the target {bogus} was accepted\n{shown}', shown)
        except (AssertionError, ValueError):
            ctx.count('unknown targets rejected')
        except Crash:
            pass
    ctx.sample(shown)


def plans(ctx, P):
    """what the helpers say about a set of junctions"""
    r = ctx.rng
    names, edges = graph(r)
    parent = {d: s for s, d in edges}
    js = [P.Junction(s, len, d) for s, d in edges]
    r.shuffle(js)
    w = {'junctions': edges}
    ctx.current = w

    def way(t, origin):
        steps = [t]
        while steps[0] != origin:
            if steps[0] not in parent:
                return None
            steps.insert(0, parent[steps[0]])
        return steps
    leaves = {d for _, d in edges} - {s for s, _ in edges}
    have = P.end_points(r.choice([list, set, tuple])(js))
    if set(have) != leaves:
        ctx.violation('end-points', f'{have} instead of {leaves}: {edges}', w)
    for t in names:
        for origin in r.sample(names, min(3, len(names))):
            want = way(t, origin)
            ctx.evaluated(('way', tuple(edges), origin, t), bool(want) and len(want) > 1)
            ctx.count('connections')
            try:
                got = P.connection(r.choice([list, set])(js), t, origin)
            except ValueError:
                got = None
            if (got is None) != (want is None) or got and [got[0].src] + [j.dst for j in got] != want \
                    or got and any(a.dst != b.src for a, b in zip(got, got[1:])) or got == [] and t != origin:
                ctx.violation('connection', f'{origin} -> {t}: {got} instead of {want}\n{edges}', w)
    ok, paths = ctx.guard(lambda: P.as_paths(set(js)), w)
    if ok and paths != {t: way(t, 'CST') for t in leaves}:
        ctx.violation('as-paths', f'{paths}\n{edges}', w)
    ok, g = ctx.guard(lambda: P.as_graph(js), w)
    if ok:
        def flat(x):
            return [(x.src, ch.src) for ch in x.desc] + [e for ch in x.desc for e in flat(ch)]

        def depth(x):
            return 1 + max([depth(ch) for ch in x.desc], default=0)

        def deep(x):
            return x.depth == depth(x) and all(deep(ch) for ch in x.desc)
        if sorted(flat(g)) != sorted(edges) or g.src != 'CST' or not deep(g):
            ctx.violation('as-graph', f'{g!r}\n{edges}', w)
    bad = r.choice(['cycle', 'two origins'])
    extra = [P.Junction(r.choice(names), len, 'CST')] if bad == 'cycle' else [P.Junction('apart', len, 'alone')]
    try:
        P.as_graph(js + extra)
        ctx.violation('as-graph', f'{bad} not reported: {edges} {extra}', w)
    except ValueError:
        ctx.count('broken graphs reported')


# ---------------------------------------------------------------------- documents, files and batches

GRAMMAR = r'''@ whitespace = /[ \n]*/
@ literalws = right
@ drop = strings, whitespace
doc = ~ { stmt } EOF
@ stmt_resume = /;\s*/
stmt = name "=" §expr ";"
expr = term { ("+"|"-") §term }
term = number | name | "(" §expr ")"
@ term_skip = /(?=[;)])/
name = /[a-z]+/~
number = /[0-9]+/~
EOF = !/./
'''
_local = threading.local()


def parser_factory():
    from DHParser.dsl import create_parser
    if not hasattr(_local, 'parser'):
        _local.parser = create_parser(GRAMMAR)
    return _local.parser


def preprocessor_factory():
    return None


class Upper:
    """a compiler object that is used again and again by the same thread"""
    def __init__(self):
        self.seen = 0

    def __call__(self, root):
        from DHParser import error as E
        for nd in root.select_if(lambda n: n.name == 'name'):
            if nd.content == 'bad':
                root.new_error(nd, 'bad name')
            elif nd.content == 'worse':
                root.new_error(nd, 'worse name', E.FATAL)
            elif nd.content == 'warn':
                root.new_error(nd, 'warned name', E.WARNING)
            nd.result = nd.content.upper()
        root.stage = 'AST'
        return root


def to_xml(root):
    root.attr['n'] = str(sum(1 for _ in root.select_if(lambda n: True)))
    for nd in list(root.select_if(lambda n: n.name == 'number')):
        nd.name = 'num'
    root.stage = 'xml'
    return root


def to_text(root):
    if 'CRASH' in root.content:
        raise ValueError('planted')
    return '|'.join(nd.name + ':' + nd.content for nd in root.select_if(lambda n: not n.children))


def junctions(P):
    if not hasattr(_local, 'junctions'):
        from DHParser.pipeline import create_junction, Junction
        _local.junctions = {create_junction(Upper, 'CST', 'AST'), Junction('AST', make_xml, 'xml'), Junction('AST', make_text, 'txt')}
    return _local.junctions


def make_xml():
    return to_xml


def make_text():
    return to_text


TARGETS = ['AST', 'xml', 'txt']


def process(args):
    """the function passed to batch_process(), as in generated scripts"""
    from DHParser import pipeline, dsl
    source, out_dir, cancel = args
    return dsl.process_file(source, out_dir, preprocessor_factory, parser_factory, junctions(pipeline), {'AST', 'xml', 'txt'},
                            {'*': ['sxpr'], 'xml': ['XML', 'indented']}, cancel)


process.__annotations__['args'] = 'Tuple[str, str, CancelQuery]'


def text(r):
    def expr(d):
        k = r.random()
        if d <= 0 or k < 0.5:
            return r.choice(['1', '23', 'x', 'yz', 'x', 'ok', 'bad' if r.random() < 0.3 else 'q', 'warn' if r.random() < 0.3 else 'w',
                             'worse' if r.random() < 0.15 else 'v', 'crash' if r.random() < 0.2 else 'u'])
        if k < 0.65:
            return '(' + expr(d - 1) + ')'
        return expr(d - 1) + r.choice(['+', ' - ', ' +\n']) + expr(d - 1)
    s = ''.join(f'{r.choice("abc")} = {expr(3)};{r.choice([" ", chr(10)])}' for _ in range(r.randint(1, 5)))
    for _ in range(r.choice([0, 0, 0, 1, 2])):
        i = r.randrange(len(s))
        s = s[:i] + r.choice(['', '?', '+', ')', '$', '= ']) + s[i + r.choice([0, 1]):]
    return s + '\n'


def documents(ctx, P, N, E):
    """full_pipeline() against parser and transformations called by hand"""
    r = ctx.rng
    src = text(r)
    targets = set(r.sample(TARGETS, r.randint(1, 3)))
    ctx.current = [src, sorted(targets)]
    g = parser_factory()
    cst = g(src, complete_match=True)
    want, errs = {}, {}
    fatal = any(e.code >= E.FATAL for e in cst.errors)
    raises = False
    # the failure of a step is fatal, too
    if not fatal:
        ast = Upper()(copy.deepcopy(cst))
        fatal = any(e.code >= E.FATAL for e in ast.errors)
        if not fatal:
            want = {'AST': trees.key(ast), 'xml': trees.key(to_xml(copy.deepcopy(ast)))}
            try:
                want['txt'] = to_text(copy.deepcopy(ast))
            except ValueError:
                if any(e.code >= E.ERROR for e in ast.errors):
                    fatal = fatal or 'txt' in targets
                elif 'txt' in targets:
                    raises = True
            errs = [(e.message, e.pos, int(e.code)) for e in ast.errors_sorted]
    ctx.evaluated(src)
    try:
        res = P.full_pipeline(src, preprocessor_factory, parser_factory, junctions(P), targets)
    except ValueError:
        if not raises:
            raise
        ctx.count('documents: failing')
        return
    if raises:
        ctx.violation('crash-swallowed', f'{src!r} {targets}: no exception', ctx.current)
        return
    ctx.count('documents: fatal' if fatal else 'documents')
    for t in targets:
        if t not in res or fatal:
            if not fatal:
                ctx.violation('target-missing', f'{t} is missing for {src!r}, {targets}', ctx.current)
            elif not any(e.code >= E.FATAL for _, l in res.values() for e in l):
                ctx.violation('errors-lost', f'{src!r} {targets}: {res[t]}', ctx.current)
            continue
        got = trees.key(res[t][0]) if isinstance(res[t][0], N.Node) else res[t][0]
        if got != want[t]:
            ctx.violation('target-differs', f'{t} of {src!r}, targets {targets}:\n{got}\nexpected\n{want[t]}', ctx.current)
        ge = [(e.message, e.pos, int(e.code)) for e in res[t][1] if e.code != E.TREE_PROCESSING_CRASH]
        if ge != errs:
            ctx.violation('errors-differ', f'{t} of {src!r}, targets {targets}: {res[t][1]}, expected {errs}', ctx.current)
        for e in res[t][1]:
            line, col = src.count('\n', 0, e.pos) + 1, e.pos - src.rfind('\n', 0, e.pos)
            if (e.line, e.column) != (line, col):
                ctx.violation('location', f'{src!r}: {e!r} {e.pos} at {e.line}:{e.column}, expected {line}:{col}', ctx.current)


def snapshot(folder):
    out = {}
    for d, _, fs in os.walk(folder):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, encoding='utf-8') as fh:
                out[os.path.relpath(p, folder)] = fh.read()
    return out


def batches(ctx, P, N, E, D, C):
    r = ctx.rng
    base = os.path.join(ctx.tmp, f'b{ctx.progress}')
    os.makedirs(base)
    n = r.choice([1, 2, 5, 9, 17])
    files, alone, texts, reports = [], {}, {}, {}
    k = 0
    while len(files) < n:
        k += 1
        name = os.path.join(base, r.choice(['doc', 'a.b', 'text']) + str(k) + r.choice(['.txt', '.dsl', '']) )
        t = text(r)
        with open(name, 'w', encoding='utf-8') as f:
            f.write(t)
        out = os.path.join(base, f'alone{k}')
        os.makedirs(out)
        try:
            rep = process((name, out, None))
        except ValueError:
            continue      # a step fails without earlier errors
        reports[name] = os.path.relpath(rep, out) if rep else ''
        snap = snapshot(out)
        check_files(ctx, P, N, E, name, t, snap, reports[name])
        if set(alone) & set(snap):
            continue
        alone.update(snap)
        texts[name] = t
        files.append(name)
    ctx.current = texts
    mode = r.choice(['singlethread', 'multithreading', 'multicore', 'multicore', 'submit-threads', 'submit-threads'])
    out = os.path.join(base, 'batch')
    os.makedirs(out)
    seen = []
    if mode.startswith('submit'):
        import concurrent.futures
        with concurrent.futures.ThreadPoolExecutor(r.choice([1, 3, 8])) as ex:
            res = D.batch_process(files, out, process, submit_func=lambda fn, *a: ex.submit(fn, a), log_func=seen.append)
    else:
        C.set_config_value('debug_parallel_execution', mode)
        C.set_config_value('batch_processing_max_chunk_size', r.choice([1, 4, 20]))
        res = D.batch_process(files, out, process, log_func=seen.append)
    ctx.count(f'batches: {mode}')
    ctx.count('files in batches', n)
    ctx.evaluated((mode, sorted(texts.values())), n > 1)
    batch = snapshot(out)
    if batch != alone:
        diff = {k: (alone.get(k), batch.get(k)) for k in set(alone) | set(batch) if alone.get(k) != batch.get(k)}
        ctx.violation('batch-differs', f'{mode}: file: (alone, in the batch): {dict(itertools.islice(diff.items(), 3))}', texts)
    want = [reports[f] for f in files if reports[f]]
    if [os.path.relpath(x, out) for x in res] != want:
        ctx.violation('batch-reports', f'{mode}: reports {res}, expected {want}', texts)
    if len(seen) != n or any(os.path.basename(f) not in s for f, s in zip(files, seen)):
        ctx.violation('batch-log', f'{mode}: {seen} for {files}', texts)
    shutil.rmtree(base)


def check_files(ctx, P, N, E, name, src, snap, report):
    res = P.full_pipeline(name, preprocessor_factory, parser_factory, junctions(P), set(TARGETS))
    dest = os.path.splitext(os.path.basename(name))[0]
    want = {}
    errs = {}
    for t in res:
        for e in res[t][1]:
            errs[(e.pos, int(e.code), e.message)] = e
    for t in TARGETS:
        if t not in res:
            continue
        v = res[t][0]
        if isinstance(v, N.Node):
            for s, ext in ((('XML', 'xml'), ('indented', 'tree')) if t == 'xml' else (('sxpr', 'sxpr'),)):
                want[os.path.join(t, f'{dest}.{t}.{ext}')] = v.serialize(ext if ext != 'tree' else 'indented')
        else:
            want[os.path.join(t, f'{dest}.{t}')] = str(v)
    if not all(t in res for t in TARGETS):
        errs = {k: e for k, e in errs.items()}
    if any(e.code >= E.FATAL for e in errs.values()):
        want = {k: v for k, v in want.items() if k in snap}
    got = {k: v for k, v in snap.items() if k != report}
    ctx.count('files written', len(got))
    if got != want:
        diff = {k: (got.get(k), want.get(k)) for k in set(got) | set(want) if got.get(k) != want.get(k)}
        ctx.violation('files-differ', f'{src!r}: file: (written, expected): {dict(itertools.islice(diff.items(), 3))}', src)
    kind = '_ERRORS.txt' if any(e.code >= E.ERROR for e in errs.values()) else '_WARNINGS.txt'
    expected = dest + kind if errs else ''
    if report != expected:
        ctx.violation('report-name', f'{src!r}: report {report!r}, expected {expected!r}', src)
    elif report:
        ctx.count('reports written')
        missing = [e for e in errs.values() if e.message.split('\n')[0] not in snap[report] or f'{e.line}:{e.column}' not in snap[report]]
        if missing:
            ctx.violation('report-incomplete', f'{src!r}: {missing} missing in {snap[report]!r}', src)


EXT = {'s-expression': 'sxpr', 'indented': 'tree'}


def outputs(ctx, P, N, E, D, C):
    """process_file() with all kinds of serializations"""
    r = ctx.rng
    src = text(r)
    out = os.path.join(ctx.tmp, f'o{ctx.progress}')
    kinds = ['sxpr', 'XML', 'json', 'indented', 'S-expression', 'default', 'SXML', 'ndst']
    ser = {k: r.sample(kinds, r.randint(1, 3)) for k in r.sample(['*', 'AST', 'xml'], r.randint(0, 3))}
    default = r.choice(['sxpr', 'XML', 'json', 'indented'])
    C.set_config_value('default_serialization', default)
    targets = set(r.sample(TARGETS, r.randint(1, 3)))
    ctx.current = show = f'{src!r}, targets {targets}, serializations {ser}, default {default}'
    name = src
    try:
        res = P.full_pipeline(src, preprocessor_factory, parser_factory, junctions(P), targets)
        report = D.process_file(src, out, preprocessor_factory, parser_factory, junctions(P), targets, ser)
    except ValueError as e:
        if str(e) == 'planted':
            return
        raise
    finally:
        C.set_config_value('default_serialization', 'sxpr')
    ctx.evaluated(show)
    snap = snapshot(out) if os.path.isdir(out) else {}
    C.set_config_value('default_serialization', default)
    want = {}
    for t in targets:
        if t in res and not (res[t][0] is None):
            v = res[t][0]
            if isinstance(v, N.Node):
                for k in ser.get(t, ser.get('*', [default])):
                    k = k.lower()
                    ext = default.lower() if k == 'default' else EXT.get(k, k)     # not normalized in that case
                    k = default.lower() if k == 'default' else k
                    want[f'{t}/unknown_document_name.{t}.{ext}'] = v.serialize(EXT.get(k, k))
            else:
                want[f'{t}/unknown_document_name.{t}'] = str(v)
    C.set_config_value('default_serialization', 'sxpr')
    got = {k: v for k, v in snap.items() if not k.endswith(('_ERRORS.txt', '_WARNINGS.txt'))}
    if any(e.code >= E.FATAL for _, l in res.values() for e in l):
        got = {k: v for k, v in got.items() if k in want}
        want = {k: v for k, v in want.items() if k in got}
    ctx.count('outputs of different kinds', len(got))
    if got != want:
        diff = {k: (got.get(k), want.get(k)) for k in set(got) | set(want) if got.get(k) != want.get(k)}
        ctx.violation('outputs-differ', f'{show}: file: (written, expected): {dict(itertools.islice(diff.items(), 3))}', show)
    shutil.rmtree(out, ignore_errors=True)


def run(ctx):
    from DHParser import pipeline as P, nodetree as N, error as E, dsl as D, configuration as C
    for _ in range(ctx.n(250, 1500)):
        stage_graphs(ctx, P, N, E)
        plans(ctx, P)
    for _ in range(ctx.n(80, 500)):
        documents(ctx, P, N, E)
    for _ in range(ctx.n(30, 200)):
        outputs(ctx, P, N, E, D, C)
    for _ in range(ctx.n(3, 15)):
        batches(ctx, P, N, E, D, C)
