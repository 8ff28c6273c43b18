"""P12: the generated code, run in a fresh interpreter, behaves like the parser in memory; compilation is deterministic;
optimization levels make no difference; the EBNF parsers generated from their EBNF sources behave like the built-in ones."""
import os, sys, json, subprocess, shutil
from vt import dh, corpus, peg
from checks import p11
from checks.p12_child import outcome

OPTS = ['all', 'some', 'literal', 'lookahead', 'alternative', 'rearrange_alternative', 'sequence', 'literal, lookahead',
        'sequence, alternative', 'sequence, literal', 'lookahead, alternative']
HERE = os.path.dirname(os.path.abspath(__file__))


def run(ctx):
    for b in range(ctx.n(2, 6)):
        fresh(ctx, b, 14)
    for i in range(ctx.n(50, 200)):
        optimized(ctx, i)
    for i in range(ctx.n(60, 250)):
        bootstrapped(ctx, i)
    if ctx.chunk == 0:
        known(ctx)


def source(r):
    if r.random() < 0.7:
        kind, src, syms, docs = corpus.case(r, 6)
    else:
        kind = 'w'
        g = peg.GrammarGen(r, ws=True, lits=peg.LITS + ["'", 'x"y', 'ä', 'a`b', '{x}', '%s']).grammar(r.choice([2, 3]))
        p = p11.Printer(r, literalws=r.choice(['none', 'right']))
        hide = {k for k in list(g)[1:] if r.random() < 0.2}
        src = p.grammar(g, hide)
        docs = peg.documents(r, g, 6, wsgen=lambda: r.choice(['', '', ' ']))
    if r.random() < 0.3:
        src = '@ optimizations = ' + r.choice(OPTS) + '\n' + src
        kind += '+optimized'
    return kind, src, docs


# ---- generated code in a fresh interpreter

def fresh(ctx, b, n):
    r = ctx.rng
    folder = os.path.join(ctx.tmp, f'fresh{b}')
    os.makedirs(folder)
    cases, mine = [], []
    for i in range(n):
        kind, src, docs = source(r)
        ctx.current = src
        ok, g = ctx.guard(lambda: p11.compile_(src, 'dhparser', None), src) if False else (True, None)
        try:
            g = dh.quiet(lambda: dh.create_parser(src))
        except (dh.DefinitionError, dh.CompilationError):
            ctx.count('grammars rejected by static checks')
            continue
        name = r.choice(['Gr', 'Abc', 'DSL', 'XML']) + str(i)
        code = dh.quiet(lambda: dh.compileEBNF(src, name))
        with open(os.path.join(folder, name + 'Parser.py'), 'w', encoding='utf-8') as f:
            f.write(code)
        cases.append({'name': name, 'src': src, 'docs': docs, 'how': r.choice(['module', 'class']), 'kind': kind})
        mine.append((g, code))
    if not cases:
        return
    with open(os.path.join(folder, 'cases.json'), 'w') as f:
        json.dump(cases, f)
    env = dict(os.environ, PYTHONHASHSEED=str(r.randint(1, 10000)))
    p = subprocess.run([sys.executable, '-W', 'ignore', os.path.join(HERE, 'p12_child.py'), folder], env=env, cwd=folder,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
    try:
        with open(os.path.join(folder, 'out.json')) as f:
            out = json.load(f)
    except OSError:
        raise RuntimeError('no answer from the fresh interpreter: ' + p.stderr.decode()[-800:])
    finally:
        shutil.rmtree(folder, ignore_errors=True)
    for c, (g, code), res in zip(cases, mine, out):
        w = {'grammar': c['src'], 'how': c['how']}
        ctx.count('grammars run in a fresh interpreter')
        ctx.count('kind: ' + c['kind'])
        if b == 0:
            ctx.sample(w)
        ctx.evaluated(('code', c['src']), True)
        if res['code'] != code:
            i = next((k for k, (x, y) in enumerate(zip(res['code'], code)) if x != y), min(len(code), len(res['code'])))
            ctx.violation('code differs between interpreters', f'...{code[max(0, i-80):i+80]!r}\n...{res["code"][max(0, i-80):i+80]!r}'
                          f'\n{c["src"]}', w)
        again = dh.quiet(lambda: dh.compileEBNF(c['src'], c['name']))
        if again != code:
            ctx.violation('code differs when compiled again', c['src'], w)
        if isinstance(res['module'], str):
            ctx.violation('generated code fails', res['module'] + '\n' + c['src'], w)
            continue
        for d, theirs in zip(c['docs'], res['module']):
            ctx.current = dict(w, document=d)
            ok, ours = ctx.guard(lambda: json.loads(json.dumps(outcome(g, d))), d)
            if not ok:
                continue
            ctx.evaluated(('fresh', c['src'], d), bool(d))
            ctx.count('documents: fresh interpreter against memory')
            if ours != theirs:
                ctx.violation('generated code behaves differently', f'{d!r}\n{str(ours)[:600]} in memory\n{str(theirs)[:600]} generated'
                              f'\n{c["src"]}', ctx.current)


# ---- optimization levels

# A regular expression into which parsers have been merged may backtrack, parsers do not (known finding). Therefore the
# terminals within one definition have no common first character.
TERMINALS = [('lit', x) for x in ['ab', 'cd', '(', ')', '+', '=', 'x', 'yz', '.', '"', "'", 'ef', 'gh', '*', '[', 'ijk', '{', '}', '|', '?', '^',
                                  'o', 'pq']] + [('rx', x) for x in ['[0-4]', '[5-9]', 'u', 'é', r'\$', r'\/', 'v[vw]', 'z{2}']]


def unambiguous(r, e):
    pool = list(TERMINALS)
    r.shuffle(pool)
    if r.random() < 0.3:       # characters with a special meaning in regular expressions
        pool.sort(key=lambda t: t[1] in ('.', '|', '?', '^', '*', '+', '['))

    def go(e, free):
        op = e[0]
        if op in ('lit', 'rx', 'any'):
            return pool.pop() if pool else ('lit', 'S')
        if op in ('seq', 'alt'):
            return (op, [go(x, free) for x in e[1]])
        if op == 'inter':
            return (op, [(go(x, free), lo, hi) for x, lo, hi in e[1]])
        if op == 'cnt' and any(x[0] in ('opt', 'star', 'plus', 'cnt', 'inter') for x in peg.walk(e[1])):
            return go(e[1], free)
        if op in ('opt', 'star', 'plus', 'cnt', 'and', 'not'):
            return (op, go(e[1], free)) + tuple(e[2:])
        return e
    return go(e, None)


def one_terminal(e):
    return e[0] == 'seq' and len([x for x in e[1] if x[0] != 'ws']) == 1


def optimized(ctx, i):
    r = ctx.rng
    gen = peg.GrammarGen(r, ws=True, anychar=False)
    g = {k: unambiguous(r, v) for k, v in gen.grammar(r.choice([2, 3, 3])).items()}
    if r.random() < 0.4:
        g = {k: p11.mark(r, v) for k, v in g.items()}
    lws = r.choice(['none', 'left', 'right', 'both'])
    ignorecase = r.random() < 0.2
    head = f'@ literalws = {lws}\n@ whitespace = {r.choice(["/[ ]*/", "horizontal", "vertical"])}\n' + \
        r.choice(['', '', '@ comment = /#[a-zA-Z]*;/\n']) + ('@ ignorecase = True\n' if ignorecase else '')
    hide = [k for k in list(g)[1:] if r.random() < 0.25]
    drops = [x for x in ('whitespace', 'strings', 'backticked') if r.random() < 0.2]
    if 'strings' in drops or 'backticked' in drops:     # known finding optimization-undrop
        g = {k: ('seq', [v, ('not', ('lit', 'S'))]) if one_terminal(v) else v for k, v in g.items()}
    if hide:
        head += '@ disposable = ' + ', '.join(hide) + '\n'
    if drops:
        head += '@ drop = ' + ', '.join(drops) + '\n'
    body = p11.Printer(r, canonical=True, literalws='right' if lws != 'none' else 'none').grammar(g, set())
    body = '\n'.join(l for l in body.split('\n') if not l.startswith('@'))
    src = head + body
    ctx.current = src
    base, err = p11.accepted(ctx, '@ optimizations = none\n' + src)
    if base is None:
        ctx.count('grammars rejected by static checks')
        return
    plain = {k: p11.unmark(v) for k, v in g.items()}
    docs = peg.documents(r, plain, 10, wsgen=lambda: r.choice(['', '', ' ', '#ab;', '#ab; ', '\n']))
    docs += [d.replace(c, r.choice(['-', 'q', '', ' ']), 1) for c in '.|?^*+[' for d in docs[:6] if c in d and r.random() < 0.6][:4]
    docs = [''.join(r.choice(['', '', ' ']) + ch for ch in d) if r.random() < 0.2 else d for d in docs]
    if ignorecase:
        docs = [d.upper() if r.random() < 0.3 else d.title() if r.random() < 0.3 else d for d in docs]
    for o in r.sample(OPTS, 3):
        s2 = '@ optimizations = ' + o + '\n' + src
        v, err = p11.accepted(ctx, s2)
        if v is None:
            if err and 'Error' in err:
                ctx.violation('rejected when optimized', f'{err}\n{s2}', {'grammar': s2})
            continue
        ctx.count('optimized grammars')
        if v.python_src__.count('SmartRE') > base.python_src__.count('SmartRE'):
            ctx.count('optimized grammars: changed by the optimization')
        for d in docs:
            ctx.current = {'grammar': s2, 'document': d}
            ok1, t1 = ctx.guard(lambda: base(d, complete_match=True), d)
            ok2, t2 = ctx.guard(lambda: v(d, complete_match=True), d)
            if not (ok1 and ok2):
                continue
            ctx.evaluated((s2, d), bool(d))
            e1, e2 = [[int(e.code) for e in dh.true_errors(t)] for t in (t1, t2)]
            ctx.count('documents: optimized, ' + ('with errors' if e1 else 'free of errors'))
            if bool(e1) != bool(e2):
                ctx.violation('language changed by optimization', f'{d!r}\n{[str(e) for e in t1.errors]} without\n'
                              f'{[str(e) for e in t2.errors]} with\n{s2}', ctx.current)
            elif not e1 and (dh.named_items(t1) != dh.named_items(t2) or t1.content != t2.content):
                ctx.violation('structure changed by optimization', f'{d!r}\n{t1.as_sxpr()} without\n{t2.as_sxpr()} with\n{s2}',
                              ctx.current)


def known(ctx):
    """regular expressions of optimized grammars backtrack into what were separate parsers"""
    src = '@ literalws = none\ndoc = /b+c?/ "cc"\n'
    a = dh.create_parser(src)
    b = dh.create_parser('@ optimizations = all\n' + src)
    src2 = '@ literalws = right\n@ ignorecase = True\n@ comment = /#[a-z]*/\ndoc = /a/ "x"\n'
    a2 = dh.create_parser(src2)
    b2 = dh.create_parser('@ optimizations = all\n' + src2)
    if bool(a2('ax#AB').errors) != bool(b2('ax#AB').errors):
        ctx.violation('optimization-ignorecase-comment', 'with "@ ignorecase = True" comments are matched case-insensitively by '
                      'optimized parsers only: "ax#AB" with comment = /#[a-z]*/', {'grammar': src2, 'document': 'ax#AB'})
    src3 = '@ literalws = none\n@ drop = strings\ndoc = b\nb = ~ "x"\n'
    if dh.create_parser(src3)('x').content != dh.create_parser('@ optimizations = all\n' + src3)('x').content:
        ctx.violation('optimization-undrop', 'with "@ drop = strings" the literal of a definition like  b = ~ "x"  is dropped, but '
                      'not if the sequence is optimized', {'grammar': src3, 'document': 'x'})
    if bool(a('bcc').errors) != bool(b('bcc').errors):
        ctx.violation('optimization-backtracking', 'with "@ optimizations = all" the series /b+c?/ "cc" matches "bcc" by backtracking into '
                      'the first regular expression; without, it fails', {'grammar': src, 'document': 'bcc'})


# ---- bootstrapping

BOOT = {}


# three rules have been repaired in the built-in parsers, but the published grammars are part of the test-suite
REPAIRED = [('no_range   = !multiplier | &multiplier TIMES ', 'no_range   = !multiplier | &(multiplier TIMES) '),
            ('no_range   = !multiplier | &multiplier :TIMES', 'no_range   = !multiplier | &(multiplier :TIMES)'),
            ('multiplier = /\\d+/~', 'multiplier = /(?!0x)\\d+/~'),
            ('AND        =  `,` | ``', 'AND        =  `,` | /(?![;)}\\]|]|->|$)/')]


def boot():
    if not BOOT:
        from DHParser import ebnf
        from DHParser.ebnf_flavors import heuristic
        repo = os.path.dirname(os.path.dirname(os.path.abspath(ebnf.__file__)))
        for mode, cls in (('fixed', ebnf.ConfigurableEBNFGrammar), ('heuristic', heuristic.HeuristicEBNFGrammar)):
            path = os.path.join(repo, 'examples', *{'fixed': ('FixedEBNF', 'FixedEBNF.ebnf'),
                                                    'heuristic': ('FlexibleEBNF', 'FlexibleEBNF.ebnf')}[mode])
            with open(path, encoding='utf-8') as f:
                src = f.read()
            for old, new in REPAIRED:
                src = src.replace(old, new)
            built_in = cls()
            built_in.mode__ = mode
            generated = dh.quiet(lambda: dh.create_parser(src))
            generated.mode__ = mode
            BOOT[mode] = (built_in, generated, src)
    return BOOT


def bootstrapped(ctx, i):
    r = ctx.rng
    if i < 4:
        txt = boot()[['fixed', 'heuristic'][i % 2]][2]
    else:
        k = r.random()
        if k < 0.6:
            g = peg.GrammarGen(r, ws=True).grammar(r.choice([2, 3]))
            if any(x[0] in ('rx', 'lb', 'nlb', 'inter', 'any') or x[0] == 'lit' and not x[1].isalpha() for v in g.values()
                   for x in peg.walk(v)):
                mode = 'dhparser'
            else:
                mode = r.choice(['dhparser', 'heuristic', 'heuristic'])
            p = p11.variant(r, mode, 'right', False)
            txt = p.grammar(g, set())
        else:
            txt = source(r)[1]
        if r.random() < 0.5:
            for _ in range(r.randint(1, 2)):
                txt = peg.mutate(r, txt, '"\'`/()[]{}|=@$§:~&!-+*?.,;#\\x0aZ \n')
    for mode in ('fixed', 'heuristic'):
        built_in, generated, _ = boot()[mode]
        w = {'text': txt, 'parser': mode}
        ctx.current = w
        ok1, t1 = ctx.guard(lambda: built_in(txt), txt)
        ok2, t2 = ctx.guard(lambda: generated(txt), txt)
        if not (ok1 and ok2):
            continue
        ctx.evaluated((mode, txt), True)
        bad = bool(dh.true_errors(t1))
        ctx.count(f'bootstrapping, {mode}: ' + ('with errors' if bad else 'free of errors'))
        if dh.error_key(t1) != dh.error_key(t2):
            ctx.violation(f'bootstrapped parser reports other errors: {mode}', f'{txt}\n{[str(e) for e in t1.errors]} built-in\n'
                          f'{[str(e) for e in t2.errors]} generated', w)
        elif dh.tree_key(t1) != dh.tree_key(t2):
            ctx.violation(f'bootstrapped parser yields another tree: {mode}', txt, w)
        elif not bad and mode == 'fixed' and r.random() < 0.5:
            compiled(ctx, t1, t2, txt, w)


def compiled(ctx, t1, t2, txt, w):
    from DHParser import ebnf
    res = []
    for t in (t1, t2):
        def fn():
            ebnf.get_ebnf_transformer()(t)
            c = ebnf.EBNFCompiler('Boot', txt)
            try:
                return [c(t), bool(dh.true_errors(t))]   # which messages the static analysis yields varies
            except Exception as e:      # crashes are the concern of P13
                return type(e).__name__
        ok, x = ctx.guard(fn, txt)
        if not ok:
            return
        res.append(x)
    ctx.count('grammars compiled from the tree of the bootstrapped parser')
    if res[0] != res[1]:
        diff = [ab for ab in zip(*(str(x).split('\\n') for x in res)) if ab[0] != ab[1]]
        ctx.violation('bootstrapped parser leads to other code', f'{diff[:2]}\n{txt}', w)
