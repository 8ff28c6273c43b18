"""P10: effort of parsing, measured in executed lines of the package, against bounds linear (or, with repetitions, quadratic)
in the length of the document."""
import os, re
from vt import dh, peg, meter
import DHParser
from DHParser.error import is_error, RECURSION_DEPTH_LIMIT_HIT
from DHParser.trace import set_tracer, trace_history

METER = None
K = 150          # lines per subexpression and position; largest observed value: see counters "lines per ..."


def size(e):
    return 1 + sum(size(c) for c in peg.children(e)) if isinstance(e, tuple) else 1


def run(ctx):
    global METER
    METER = METER or meter.Meter(os.path.dirname(os.path.abspath(DHParser.__file__)))
    for i in range(ctx.n(40, 400)):
        layers(ctx, i)
    for i in range(ctx.n(40, 400)):
        loops(ctx, i)
    for i in range(ctx.n(25, 250)):
        linear(ctx, i)
    for i in range(ctx.n(25, 250)):
        plain(ctx, i)
    for i in range(ctx.n(10, 80)):
        deep(ctx, i)


def make(ctx, src):
    ctx.current = src

    def compile_():
        try:
            return dh.create_parser(src)
        except (dh.DefinitionError, dh.CompilationError):
            ctx.count('grammars rejected by static checks')
            return None
    ok, g = ctx.guard(compile_, src)
    return g if ok else None


def head(r, extra=()):
    out = ['@ literalws = none', '@ whitespace = /[ ]*/', '@ reduction = ' + r.choice(['none', 'flatten', 'merge_treetops', 'merge'])]
    out += list(extra)
    return '\n'.join(out) + '\n'


def bounded(ctx, g, src, doc, bound, what):
    """Runs the parser under the line counter; reports exceeding the bound."""
    w = {'grammar': src, 'document': doc, 'bound': bound}
    ctx.current = w
    ctx.guarded += 1
    try:
        n, tree = METER.run(lambda: g(doc, complete_match=True), bound)
    finally:
        ctx.guarded -= 1
    ctx.count('parses measured')
    ctx.count('lines executed', n or bound)
    if n is None:
        ctx.violation(what, f'more than {bound} lines executed for a document of {len(doc)} characters: {doc[:200]!r}\n{src}', w)
        return None, None
    return n, tree


def top(ctx, name, n, base):
    ctx.count(f'{name}: effort below a tenth of the bound', n < base / 10)
    ctx.count(f'{name}: effort above half of the bound', n > base / 2)


# ------------------------------------------------------------------ alternatives sharing a prefix, nested

def layer(r, X, i, g):
    a, b, c = r.sample('abcde', 3)
    A, B, C = ('lit', a), ('lit', b), ('lit', c)
    k = r.choice(['alt', 'alt', 'not', 'and', 'opt', 'plus', 'star', 'inter', 'cnt', 'syn', 'ws', 'group'])
    if k == 'alt':
        return ('alt', [('seq', [X, A]), ('seq', [X, B]), X])
    if k == 'not':
        return ('alt', [('seq', [('not', ('seq', [X, A])), X]), ('seq', [X, A, C])])
    if k == 'and':
        return ('alt', [('seq', [('and', ('seq', [X, A])), X, A]), X])
    if k == 'opt':
        return ('seq', [('opt', ('seq', [X, A])), X])
    if k == 'plus':
        return ('alt', [('plus', ('seq', [X, A])), X])
    if k == 'star':
        return ('seq', [('star', ('seq', [X, A, B])), X])
    if k == 'inter':
        return ('alt', [('inter', [(('seq', [X, A]), 1, 1), (('lit', '~'), 1, 1)]), X])
    if k == 'cnt':
        return ('alt', [('cnt', ('seq', [X, A]), 2, 3), X])
    if k == 'syn':
        y = f'Y{i}'
        g[y] = X
        return ('alt', [('seq', [('sym', y), A]), ('seq', [X, B]), ('sym', y)])
    if k == 'ws':
        return ('alt', [('seq', [X, ('ws',), A]), ('seq', [X, B]), ('seq', [X, ('ws',)])])
    return ('alt', [('seq', [('alt', [('seq', [X, A]), ('seq', [X, B])]), C]), ('seq', [X, C]), X])


def layers(ctx, i):
    r = ctx.rng
    depth = r.randint(6, 14)
    g = {}
    for j in range(depth):
        g[f'E{j}'] = None
        g[f'E{j}'] = layer(r, ('sym', f'E{j + 1}'), j, g)
    g[f'E{depth}'] = r.choice([
        ('alt', [('seq', [('lit', '('), ('sym', 'E0'), ('lit', ')')]), ('rx', '[xyz]')]),
        ('alt', [('seq', [('lit', '('), ('sym', 'E0'), ('lit', ')')]), ('seq', [('lit', '('), ('sym', 'E0'), ('lit', ']')]), ('rx', '[xyz]+')]),
        ('seq', [('rx', '[xyz]'), ('opt', ('seq', [('lit', '('), ('sym', 'E0'), ('lit', ')')]))])])
    extra = []
    if r.random() < 0.4:
        extra.append('@ disposable = /' + '|'.join(r.sample(sorted(k for k in g if k != 'E0'), 3)) + '/')
        if r.random() < 0.6:
            extra.append('@ drop = ' + r.choice(['strings', 'whitespace', 'strings, whitespace']))
    src = head(r, extra) + peg.show_grammar(g, '')
    parser = make(ctx, src)
    if parser is None:
        return
    if i == 0:
        ctx.sample(src)
    tracing = r.random() < 0.15
    if tracing:
        set_tracer(parser, trace_history)
    sz = sum(size(e) for e in g.values())
    for _ in range(ctx.n(4, 8)):
        d = r.choice(['x', 'y', 'xy', '', '!', 'x('])
        for _ in range(r.randint(0, 8)):
            d = r.choice(['(', '(', 'x(']) + d + r.choice(['', '', 'a', 'b', 'ca', ' ', '~']) + r.choice([')', ')', ')', ']', ''])
        bound = (K * sz * (len(d) + 3) + 10000) * (4 if tracing else 1)
        n, tree = bounded(ctx, parser, src, d, bound, 'prefix-explosion')
        if n is None:
            return
        ctx.evaluated((src, d), True)
        ctx.count('nested prefix-sharing parses')
        ctx.count('traced parses', tracing)
        top(ctx, 'prefix-sharing', n, bound)


# ------------------------------------------------------------------ repetition of elements matching the empty string

def nullable(r, g, i):
    k = r.choice(['rx', 'opt', 'star', 'and', 'not', 'ws', 'empty', 'seq', 'alt', 'cnt', 'lits', 'ref', 'ref'])
    ch = r.choice('abc')
    if k == 'ref' and g:
        return ('sym', r.choice(list(g)))
    return {'rx': ('rx', f'{ch}*'), 'opt': ('opt', ('lit', ch)), 'star': ('star', ('lit', ch)), 'and': ('and', ('rx', f'{ch}|.?')),
            'not': ('not', ('lit', ch + ch)), 'ws': ('ws',), 'empty': ('lit', ''), 'seq': ('seq', [('rx', f'{ch}?'), ('rx', '[ab]*')]),
            'alt': ('alt', [('lit', 'b' + ch), ('rx', f'{ch}*')]), 'cnt': ('cnt', ('lit', ch), 0, 3),
            'lits': ('rx', '(?=.)|$'), 'ref': ('rx', '')}[k]


def loops(ctx, i):
    r = ctx.rng
    g = {'S': None}
    defs = {}
    for j in range(r.randint(2, 6)):
        n = f'N{j}'
        if j < 2:
            defs[n] = nullable(r, {}, j)
        else:
            x = ('sym', r.choice(list(defs)))
            y = ('sym', r.choice(list(defs)))
            z = r.choice([x, x, ('seq', [x, y]), ('seq', [x, y, nullable(r, defs, j)]), ('alt', [('seq', [('lit', 'q'), y]), x]),
                          ('seq', [('not', ('lit', 'z')), x]), ('seq', [('opt', ('lit', 'd')), y])])
            defs[n] = r.choice([('star', z), ('plus', z), ('cnt', z, r.choice([0, 1, 2]), r.choice([3, 10**6])), ('cnt', z, r.choice([2, 1000]), 10**5),
                                ('plus', z), ('inter', [(z, 1, r.choice([1, peg.INF])), (('lit', '~'), 1, 1)]), z])
    last = list(defs)[-1]
    g['S'] = ('seq', [r.choice([('star', ('sym', last)), ('plus', ('sym', last)), ('sym', last)]),
                      r.choice([('rx', '.*'), ('opt', ('lit', 'd')), ('star', ('alt', [('sym', last), ('rx', '[abc]')]))])])
    g.update({n: defs[n] for n in reversed(defs)})
    used = peg.reachable(g)
    g = {k: v for k, v in g.items() if k in used}
    src = head(r) + peg.show_grammar(g, '')
    parser = make(ctx, src)
    if parser is None:
        return
    if i == 0:
        ctx.sample(src)
    sz = sum(size(e) for e in g.values())
    mins = 1
    for m in re.finditer(r'\b(\d+)\b', src):
        mins = max(mins, min(int(m.group(1)), 1000))
    tracing = r.random() < 0.2
    if tracing:
        set_tracer(parser, trace_history)
    for _ in range(ctx.n(5, 8)):
        d = ''.join(r.choice('aaabbcd~q ') for _ in range(r.choice([0, 1, 2, 5, 20, 60])))
        bound = K * sz * (len(d) + 3) * (len(d) + 3 + mins) * (4 if tracing else 1)
        n, tree = bounded(ctx, parser, src, d, bound, 'empty-loop')
        if n is None:
            return
        ctx.evaluated((src, d), True)
        ctx.count('parses with loops over nullable elements')
        ctx.count('traced parses', tracing)
        top(ctx, 'nullable loops', n, bound)


# ------------------------------------------------------------------ scaling on realistic, linear grammars

ARITH = ('''S = ~ { stmt ";"~ }+
stmt = ident "="~ expr | "print"~ expr
expr = term { ("+" | "-")~ term }
term = factor { ("*" | "/")~ factor }
factor = NUM | call | ident | "("~ expr ")"~
call = ident "("~ [expr { ","~ expr }] ")"~
ident = /[a-z]+/~
NUM = /[0-9]+/~
''', ['a=1;', 'b = a+2*(c-1) ;', 'print f(x, y+1)*3;', 'c=g();', 'a=((((1))));', 'print 1 + 2 - 3;'])
JSON = ('''S = ~ { value }+
value = object | array | string | number | "true"~ | "null"~
object = "{"~ [pair { ","~ pair }] "}"~
pair = string ":"~ value
array = "["~ [value { ","~ value }] "]"~
string = `"` { /[^"\\\\]+/ | /\\\\./ } `"`~
number = /-?[0-9]+(\\.[0-9]+)?/~
''', ['{"a": 1}', '[1, 2 , [3, []]] ', '"x\\\\ny"', 'true ', 'null ', '{"k": {"l": [null, true]}, "m": ""}'])
INI = ('''S = { section }+
section = heading { entry | comment | EMPTY }
heading = "[" name "]" LF
entry = !"[" name ~ "=" ~ text LF
comment = "#" /[^\\n]*/ LF
EMPTY = /[ ]*\\n/
name = /\\w+/
text = { word ~ }+
word = /[^\\s]+/
LF = ~ /\\n/
''', ['[a]\n', '[b]\nx = 1\n', '[c]\nkey=a long value\n# comment\n\nother = 2 \n', '[d]\n\n\n'])
MARK = ('''S = { element | text }+
element = "<" name { attr } ">" { element | text } "</" name ">"
attr = ~ name "=" `"` /[^"]*/ `"`
name = /[a-z]+/
text = { !("<" ["/"] /[a-z]/) /./ }+
''', ['<a>x</a>', 'text ', '<b k="v"><c>y</c>z</b>', '<d></d>', '1 < 2 '])
REC = ('''S = { stmt }+
@ stmt_resume = /;/
@ stmt_error = '', "bad statement"
stmt = "let"~ §name "="~ value ";"~
@ value_skip = /(?=;)/
value = "("~ §/[0-9]+/~ ")"~ | /[0-9]+/~
name = /[a-z]+/~
''', ['let a=1;', 'let b=(2);', 'let c=(x);', 'let =1;', 'let d 1;', 'let e=(3;'])


def linear(ctx, i):
    r = ctx.rng
    name, (rules, units) = r.choice([('arith', ARITH), ('json', JSON), ('ini', INI), ('mark', MARK), ('rec', REC)])
    extra = ['@ disposable = /EMPTY|LF|NUM|word|factor|value/'] if r.random() < 0.4 and name != 'rec' else []
    if extra and r.random() < 0.5:
        extra.append('@ drop = strings, whitespace')
    src = head(r, extra).replace('/[ ]*/', '/[ ]*/') + rules
    key = src
    parser = CACHE.get(key)
    if parser is None:
        parser = CACHE[key] = make(ctx, src)
    if parser is None:
        raise AssertionError('template rejected: ' + src)
    unit = ''.join(r.choice(units) for _ in range(r.randint(3, 8)))
    bad = r.random()
    if bad < 0.25 and name != 'rec':
        j = r.randrange(len(unit))
        unit = unit[:j] + r.choice('?=;') + unit[j:]
    f = r.choice([4, 8])
    base = 3
    n1, t1 = bounded(ctx, parser, src, unit * base, 10**8, 'effort')
    n2, t2 = bounded(ctx, parser, src, unit * base * f, int(n1 * f * 1.3) + 20000, 'superlinear:' + name)
    if n2 is None:
        return
    ctx.evaluated((src, unit, f), True)
    ctx.count('scaling series ' + name)
    ctx.count('scaling series free of errors', not any(is_error(e.code) for e in t2.errors))


CACHE = {}


# ------------------------------------------------------------------ random grammars

def plain(ctx, i):
    r = ctx.rng
    gen = peg.GrammarGen(r, ws=True)
    g = gen.grammar()
    src = head(r) + peg.show_grammar(g, '')
    parser = make(ctx, src)
    if parser is None:
        return
    loops_ = any(x[0] in ('star', 'plus', 'cnt', 'inter') for e in g.values() for x in peg.walk(e))
    sz = sum(size(e) for e in g.values())
    docs = peg.documents(r, g, 5)
    docs.append(''.join(docs)[:200] or 'a')
    for d in docs:
        bound = K * sz * (len(d) + 3) * ((len(d) + 3) if loops_ else 1) + 10000
        n, tree = bounded(ctx, parser, src, d, bound, 'effort')
        if n is None:
            return
        ctx.evaluated((src, d), len(d) > 0)
        ctx.count('random grammars, with loops' if loops_ else 'random grammars, loop-free')
        top(ctx, 'random', n, bound)


# ------------------------------------------------------------------ deep nesting

def deep(ctx, i):
    r = ctx.rng
    src = head(r) + r.choice([
        'S = "(" S ")" | "x"\n', 'S = "(" S ")" | "(" S "]" | /x+/\n', 'S = A\nA = "(" { B } ")"\nB = A | "x"\n',
        'S = "(" [S] ")" | "x" S\n', 'S = &"(" "(" S ")" | !"(" /./\n', 'S = "(" §S ")" | "x"\n'])
    parser = CACHE.get(src) or make(ctx, src)
    CACHE[src] = parser
    if parser is None:
        return
    depth = r.choice([10, 50, 100, 300, 1000, 3000])
    d = '(' * depth + 'x' + r.choice([')', ')', ']', '']) * depth
    n, tree = bounded(ctx, parser, src, d, 2_000_000, 'deep')
    if n is None:
        return
    errs = [e for e in tree.errors if is_error(e.code)]
    ctx.count('deeply nested documents')
    ctx.count('recursion limit reported', any(e.code == RECURSION_DEPTH_LIMIT_HIT for e in errs))
    ctx.evaluated((src, d), True)
    if tree.content != d and not errs:
        ctx.violation('deep-loss', f'content lost without error: {d[:50]!r}... ({len(d)})\n{src}', ctx.current)
    n, tree = bounded(ctx, parser, src, '(x)', 10**6, 'deep')
    fresh = dh.create_parser(src)('(x)', complete_match=True)
    if n is None or not tree.equals(fresh) or [str(e) for e in tree.errors] != [str(e) for e in fresh.errors]:
        ctx.violation('after-deep', f'parse after deeply nested document: {tree.as_sxpr()} instead of {fresh.as_sxpr()}\n{src}', ctx.current)
