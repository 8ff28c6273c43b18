"""P11: a grammar printed in random variants of the notation compiles to a parser that behaves like that of the canonical,
fully bracketed notation."""
import re
from vt import dh, peg
from DHParser.configuration import set_config_value, get_config_value

INF = peg.INF
LEVEL = {'alt': 0, 'seq': 1, 'and': 1.5, 'not': 1.5, 'lb': 1.5, 'nlb': 1.5, 'inter': 2, 'diff': 3}
QUOTES = ['""', "''", '’’']
PLAIN = ['``', '´´']


class Printer:
    """One notation. With canonical=True: one form per construct and brackets around everything that is no leaf."""

    def __init__(self, r, mode='dhparser', canonical=False, literalws='none', **kw):
        self.r, self.mode, self.canonical, self.literalws = r, mode, canonical, literalws
        self.heur = mode == 'heuristic'
        self.d = {'DEF': '=', 'OR': '|', 'AND': '', 'ENDL': '', 'RNG_OPEN': '{', 'RNG_CLOSE': '}', 'RNG_DELIM': ',',
                  'TIMES': '*', 'RE_LEADIN': '/', 'RE_LEADOUT': '/', 'CH_LEADIN': '0x'}
        self.d.update(kw)
        self.features = set()
        self.macros = []
        self.rx_ok = self.d['OR'] != '/'
        self.use = {k: not canonical and r.random() < 0.6 for k in
                    ('quotes', 'chars', 'postfix', 'layout', 'comments', 'lead', 'redundant', 'minimal', 'flat', 'diff',
                     'order', 'rxlit', 'wide', 'anyrx')}
        if self.d['AND'] == ',' and self.heur:
            self.use['macro'] = False
        else:
            self.use['macro'] = not canonical and r.random() < 0.3
        # outside of brackets U+0041 is a symbol and a suffix
        self.lead = [self.d['CH_LEADIN']] if self.heur else [self.d['CH_LEADIN'], '%x', '\\x', '\\u', '\\U']
        self.range_lead = self.lead + ([] if self.heur else ['U+', 'u+'])

    def feat(self, name):
        self.features.add(name)

    def on(self, name, p=0.5):
        return self.use[name] and self.r.random() < p

    # ---- layout

    def sp(self, need=True):
        """blank space between two tokens"""
        r = self.r
        if not self.use['layout']:
            return ' '
        k = r.random()
        if k < 0.5:
            return ' '
        if k < 0.62:
            self.feat('layout')
            return r.choice(['  ', '\n    ', '\t', '   \n  ', ' \n\n   '])
        if k < 0.7 and self.use['comments']:
            self.feat('comments')
            return r.choice([' # comment = "x" | y\n   ', '\n    # { [ ( "\n    ', ' /* x = y | */ ', ' (* "a" {( *) '])
        if not need and k < 0.9:
            self.feat('layout')
            return ''
        return ' '

    def join(self, parts):
        return ''.join(p + (self.sp() if i < len(parts) - 1 else '') for i, p in enumerate(parts))

    # ---- leaves

    def string(self, s, plain=False):
        pairs = PLAIN if plain else QUOTES
        if self.literalws == 'none' and self.use['quotes']:
            pairs = QUOTES + PLAIN
        pairs = [p for p in pairs if p[0] not in s]
        if not self.canonical and self.use['quotes'] and pairs:
            q = self.r.choice(pairs)
        else:
            q = PLAIN[0] if plain else QUOTES[0] if '"' not in s else QUOTES[1]
        if q[0] != ('`' if plain else '"'):
            self.feat('quotation marks')
        return q[0] + s + q[1]

    def char(self, c, lead=None):
        self.feat('characters by number')
        h = '%x' % ord(c)
        h = self.r.choice([h, h.upper(), '00' + h if not self.heur else h])
        return self.r.choice(lead or self.lead) + h

    def lit(self, s):
        right = self.literalws == 'right'
        if self.canonical:
            return self.string(s)
        if len(s) == 1 and self.on('chars', 0.4):
            return self.char(s) if not right else '(' + self.char(s) + self.and_() + '~)'
        if self.on('rxlit', 0.3) and self.rx_ok and not self.heur:
            self.feat('literal as regular expression')
            x = self.d['RE_LEADIN'] + peg.esc_rx(re.escape(s)) + self.d['RE_LEADOUT']
            return x if not right else '(' + x + self.and_() + '~)'
        if right and self.on('quotes', 0.4):
            self.feat('literal with explicit whitespace')
            return '(' + self.string(s, True) + self.and_() + '~)'
        return self.string(s)

    def rx(self, p):
        m = re.fullmatch(r'\[(\^?)([a-z])-?([a-z]?)\](.*)', p)
        if m and m.group(4) == '' and not self.canonical and self.on('chars', 0.6):
            neg, a, b, plus = m.groups()
            dash = '-' in p.split(']')[0]
            lead = self.range_lead
            if b and not dash and lead != ['0x']:
                lead = [x for x in lead if x[0] not in '0' + '123456789abcdefABCDEF']
            body = self.char(a, lead or self.lead) + ('-' if dash else '') + (self.char(b, lead or self.lead) if b else '')
            self.feat('character ranges')
            return '[' + neg + body + ']' + plus
        if not self.rx_ok:
            return None
        return self.d['RE_LEADIN'] + peg.esc_rx(p) + self.d['RE_LEADOUT']

    def and_(self):
        return (self.sp(False) + self.d['AND'] + ' ') if self.d['AND'] else self.sp()

    # ---- expressions

    def show(self, e, need=0):
        e = self.alter(e)
        if not self.canonical and self.use['macro'] and self.r.random() < 0.12 and len(self.macros) < 3 \
                and e[0] not in ('lit', 'rx', 'any', 'ws', 'sym', 'arg', 'raw', 'lb', 'nlb'):
            return self.macro(e)
        s, lv = self.show0(e)
        if lv < need or (self.canonical and lv < 9 and need > 0):
            return '(' + s + ')'
        if not self.canonical and need and self.use['minimal'] is False and lv < 9:
            return '(' + self.sp(False) + s + self.sp(False) + ')'
        if self.on('redundant', 0.1):
            self.feat('redundant brackets')
            return '(' + self.sp(False) + s + self.sp(False) + ')'
        return s

    def alter(self, e):
        if self.canonical:
            return e
        if self.use['flat'] and e[0] in ('seq', 'alt') and len(e[1]) > 2 and self.r.random() < 0.5 and len(e) == 2:
            # associativity: group some neighbours
            i = self.r.randint(0, len(e[1]) - 2)
            k = self.r.randint(i + 2, len(e[1]))
            if (i, k) != (0, len(e[1])):
                self.feat('regrouped ' + {'seq': 'sequences', 'alt': 'alternatives'}[e[0]])
                return (e[0], e[1][:i] + [(e[0], e[1][i:k])] + e[1][k:])
        return e

    def macro(self, e):
        """moves the expression into a macro, with one of its parts as argument"""
        self.feat('macros')
        name = 'mac%i' % len(self.macros)
        self.macros.append(None)
        cs = peg.children(e)
        arg = self.r.choice(cs)
        body = subst(e, arg, ('arg', 'a'))
        use, self.use = self.use, dict(self.use, macro=False)
        b = self.show(body)
        a = self.show(arg)
        self.use = use
        self.macros[int(name[3:])] = f'HIDE:${name}($a) {self.d["DEF"]} {b}'
        return f'${name}({a})'

    def show0(self, e):
        op, r, d = e[0], self.r, self.d
        if op == 'arg':
            return '$' + e[1], 9
        if op == 'lit':
            return self.lit(e[1]), 9
        if op == 'rx':
            s = self.rx(e[1])
            return s, (9 if not s.endswith('+') else 4)
        if op == 'any':
            if self.on('anyrx', 0.4) and self.rx_ok and not self.heur:
                return d['RE_LEADIN'] + '(?:.|\\n)' + d['RE_LEADOUT'], 9
            return '.', 9
        if op == 'ws':
            return '~', 9
        if op == 'sym':
            return e[1], 9
        if op == 'seq':
            xs, k = e[1], (e[2] if len(e) > 2 else None)
            if self.on('diff') and k is None:
                for i in range(len(xs) - 1):
                    if xs[i][0] == 'not' and xs[i + 1][0] not in ('and', 'not', 'lb', 'nlb', 'inter', 'seq', 'alt'):
                        self.feat('difference')
                        s = self.show(xs[i + 1], 4) + self.sp() + '-' + self.sp() + self.part(xs[i][1])
                        if len(xs) == 2:
                            return s, LEVEL['diff']
                        return self.seq(xs[:i] + [('raw', s, LEVEL['diff'])] + xs[i + 2:], None), LEVEL['seq']
            return self.seq(xs, k), LEVEL['seq']
        if op == 'raw':
            return e[1], e[2]
        if op == 'alt':
            # two slashes in one line could delimit a regular expression in heuristic mode
            sep = ('\n  ' if d['OR'] == '/' else self.sp()) + d['OR'] + ' '
            return sep.join(self.show(x, 1) for x in e[1]), 0
        if op == 'opt':
            if self.on('postfix'):
                self.feat('postfix ?')
                return self.show(e[1], 9) + '?', 4
            return '[ ' + self.show(e[1]) + ' ]', 9
        if op == 'star':
            if self.on('postfix'):
                self.feat('postfix *')
                return self.show(e[1], 9) + '*', 4
            return '{' + self.sp(False) + self.show(e[1]) + self.sp() + '}', 8
        if op == 'plus':
            if self.on('postfix'):
                self.feat('postfix +')
                return self.show(e[1], 9) + '+', 4
            return '{' + self.sp(False) + self.show(e[1]) + self.sp() + '}+', 8
        if op == 'cnt':
            return self.counted(e[1], e[2], e[3])
        if op == 'inter':
            return (self.sp() + '° ').join(self.card(*x) for x in e[1]), 2
        if op in ('and', 'not', 'lb', 'nlb'):
            if op in ('lb', 'nlb'):     # regular expressions or literals only
                return {'lb': '<-&', 'nlb': '<-!'}[op] + (d['RE_LEADIN'] + peg.esc_rx(e[1][1]) + d['RE_LEADOUT']), 1.5
            return {'and': '&', 'not': '!'}[op] + self.part(e[1]), 1.5
        raise ValueError(op)

    def part(self, e):
        """argument of a lookaround or of a difference: x+ or {x}+ or an element without suffix"""
        s, lv = self.show0(e)
        if lv == 9 and not s.endswith(('+', '*', '?')) and not s.startswith('[') or e[0] == 'plus':
            return s
        return '(' + s + ')'

    def seq(self, xs, k):
        out = ''
        last = None
        for i, x in enumerate(xs):
            if i:
                out += self.and_()
            if k == i:
                out += '§' + self.sp(False)
            s = self.show(x, 1.2)
            if last is not None and re.match(r'\d', s) and last.endswith('*'):
                s = '(' + s + ')'
            out += s
            last = s
        return out

    def counted(self, e, lo, hi):
        r, d = self.r, self.d
        x = self.show(e, 9)
        if x.endswith(('*', '?', '+')) or e[0] == 'arg':
            x = '(' + x + ')'
        if self.canonical:
            return (f'{x}*{lo}', 4) if lo == hi else (f'{x}{{{lo},{hi}}}', 4)
        forms = [d['RNG_OPEN'] + self.blank() + (f'{lo}' if lo == hi and r.random() < 0.5 else
                                   f'{lo}{self.blank()}{d["RNG_DELIM"]}{self.blank()}{hi}') + self.blank() + d['RNG_CLOSE']]
        if lo == hi:
            forms += ['*n', 'n*']
        f = r.choice(forms)
        b = self.blank()
        if f == '*n':
            self.feat('counted x*n')
            return f'{x}{b}{d["TIMES"]}{b}{lo}', 4
        if f == 'n*':
            self.feat('counted n*x')
            return f'{lo}{b}{d["TIMES"]}{b}{x}', 3
        self.feat('counted x{n,m}')
        return x + b + f, 4

    def blank(self):
        return self.r.choice(['', '', ' ']) if self.use['layout'] else ''

    def card(self, e, lo, hi):
        if (lo, hi) == (1, 1):
            return self.show(e, 3)
        op = {(0, 1): 'opt', (0, INF): 'star', (1, INF): 'plus'}[lo, hi]
        return self.show0((op, e))[0]

    # ---- grammars

    def grammar(self, g, hide=()):
        r, d = self.r, self.d
        root, *rest = list(g)
        if self.on('order', 0.9):
            self.feat('order of definitions')
            r.shuffle(rest)
        lines = []
        how = r.choice(['list', 'regexp', 'prefix', 'suffix', 'single']) if not self.canonical else 'list'
        directives = ['@ literalws = ' + self.literalws, '@ whitespace = ' + ('horizontal' if not self.rx_ok else d['RE_LEADIN'] + '[ ]*' + d['RE_LEADOUT'])]
        if self.heur:
            directives.insert(0, '@ flavor = heuristic')
        if hide:
            if how == 'list':
                directives.append('@ hide = ' + ', '.join(r.sample(sorted(hide), len(hide)) if not self.canonical else sorted(hide)))
            elif how == 'regexp':
                directives.append('@ disposable = ' + (d['RE_LEADIN'] + '(?:' + '|'.join(sorted(hide)) + ')$' + d['RE_LEADOUT']
                                  if self.rx_ok else ', '.join(hide)))
            elif how == 'single':
                directives.append('@ disposable = ' + ', '.join(sorted(hide)))
            self.feat('hidden by ' + how)
        directives.append('@ reduction = flatten')
        if self.use['layout']:
            tail = directives[1:] if self.heur else directives
            r.shuffle(tail)
            directives = directives[:1] + tail if self.heur else tail
            directives = [x if x.startswith('@ flavor') else x.replace('@ ', r.choice(['@', '@ ', '@  ']), 1)
                          .replace(' = ', r.choice([' = ', '=', '   = ']), 1) for x in directives]
        for name in [root] + rest:
            e = self.show(g[name])
            if name == root and self.heur and d['AND'] == ',':
                # captured values are lost within brackets (P03, open-recursion): settle the separator outside of brackets
                e = '`` , (' + e + ')'
            lead = (' ' + d['OR'] + ' ') if self.on('lead', 0.4) else ' '
            if lead != ' ':
                self.feat('leading separator')
            pre, post = '', ''
            if name in hide and how == 'prefix':
                pre = 'HIDE:'
            if name in hide and how == 'suffix':
                post = ' -> HIDE'
            lines.append(pre + name + self.r.choice(['', ' ', '   ']) * (d['DEF'] != ': ' and d['DEF'] != ':\n') + d['DEF'] + lead + e
                         + post + (self.blank() + d['ENDL'] if d['ENDL'] else ''))
            if self.canonical or not self.use['layout']:
                sep = '\n'
            else:
                sep = r.choice(['\n', '\n\n', '\n   \n', '\n# comment\n' if self.use['comments'] else '\n'])
            lines.append(sep)
        defs = ''.join(lines)
        if self.macros:
            end = (d['ENDL'] + '\n') if d['ENDL'] else '\n'
            m = end.join(self.macros) + end
            defs = defs + m if r.random() < 0.5 or d['AND'] == ',' else m + defs
        return '\n'.join(directives) + '\n' + defs


def subst(e, a, b):
    """replaces one part of e"""
    op = e[0]
    if op in ('seq', 'alt'):
        xs = list(e[1])
        xs[[x is a for x in xs].index(True)] = b
        return (op, xs) + tuple(e[2:])
    if op == 'inter':
        return (op, [((b if x is a else x), lo, hi) for x, lo, hi in e[1]])
    return (op, b) + tuple(e[2:])


def mark(r, e):
    """sets mandatory markers in some of the sequences"""
    op = e[0]
    if op == 'seq':
        xs = [mark(r, x) for x in e[1]]
        if r.random() < 0.3 and xs[0][0] not in ('and', 'not', 'lb', 'nlb'):
            return (op, xs, r.randint(1, len(xs) - 1))
        return (op, xs)
    if op == 'alt':
        return (op, [mark(r, x) for x in e[1]])
    if op in ('opt', 'star', 'plus', 'cnt'):
        return (op, mark(r, e[1])) + tuple(e[2:])
    return e


HEUR = [{}, {'DEF': ':='}, {'DEF': '::='}, {'DEF': '<-'}, {'DEF': ': '}, {'DEF': ':\n'}, {'OR': '/'}, {'AND': ','}, {'ENDL': ';'},
        {'DEF': '::=', 'ENDL': ';', 'AND': ','}, {'DEF': '<-', 'OR': '/'}, {'DEF': ':=', 'CH_LEADIN': '#x'}, {'CH_LEADIN': '%x'},
        {'DEF': '=', 'AND': ',', 'ENDL': ';', 'RNG_OPEN': '(', 'RNG_CLOSE': ')'}, {'RNG_OPEN': '(', 'RNG_CLOSE': ')'}]
CONF = [{'DEF': ':='}, {'DEF': '::='}, {'OR': '||'}, {'OR': '¦'}, {'AND': ','}, {'ENDL': ';'}, {'DEF': '<-', 'ENDL': ';', 'AND': ','},
        {'RNG_OPEN': '<', 'RNG_CLOSE': '>'}, {'RNG_DELIM': '..'}, {'TIMES': '×'}, {'CH_LEADIN': '$x'},
        {'RE_LEADIN': '<rx>', 'RE_LEADOUT': '</rx>', 'RE_CORE': r'(?:(?!</rx>)(?:.|\n))*'},
        {'OR': '/', 'RE_LEADIN': '$/', 'RE_LEADOUT': '/$', 'RE_CORE': r'(?:(?!/\$).)*'}]


def variant(r, mode, literalws, marked):
    if mode == 'heuristic':
        kw = dict(r.choice(HEUR))
        return Printer(r, mode, literalws=literalws, **kw)
    if mode == 'configurable':
        kw = dict(r.choice(CONF))
        p = Printer(r, mode, literalws=literalws, **kw)
        p.d.update(kw)
        return p
    return Printer(r, mode, literalws=literalws)


def compile_(src, mode, d):
    if mode != 'configurable':
        return dh.create_parser(src)
    save = get_config_value('syntax_variant'), get_config_value('delimiter_set')
    ds = dict(save[1])
    ds.update({k: v for k, v in d.items() if k in ds})
    set_config_value('syntax_variant', 'configurable')
    set_config_value('delimiter_set', ds)
    try:
        return dh.create_parser(src)
    finally:
        set_config_value('syntax_variant', save[0])
        set_config_value('delimiter_set', save[1])


def accepted(ctx, src, mode='dhparser', d=None):
    """parser object or None and the errors"""
    ctx.current = src
    err = []

    def fn():
        try:
            return compile_(src, mode, d)
        except (dh.DefinitionError, dh.CompilationError) as e:
            err.append(str(e)[:600])
            return None
    ok, g = ctx.guard(fn, src)
    return (g if ok else None), (err[0] if err else None if ok else 'aborted')


def result(ctx, g, doc):
    ok, tree = ctx.guard(lambda: g(doc, complete_match=True), doc)
    if not ok:
        return None, None
    # the place where parsing stopped (1040) is that of the farthest failure and depends on the structure of the parser
    errors = dh.true_errors(tree)
    # after the end of the document has been reached in a mandatory sequence, the innermost enclosing parser - which
    # depends on the brackets - is made to match in order to obtain a tree; what is reported thereafter follows from this
    eof = next((i for i, e in enumerate(errors) if e.code in (1015, 1017)), len(errors))
    return dh.named_items(tree), sorted((e.pos if e.code != 1040 else -1, int(e.code)) for e in errors[:eof + 1])


def run(ctx):
    for i in range(ctx.n(90, 500)):
        one(ctx, i)


def swap(e, chars):
    if isinstance(e, dict):
        return {k: swap(v, chars) for k, v in e.items()}
    if isinstance(e, tuple):
        if e and e[0] == 'lit':
            return ('lit', ''.join(chars.get(c, c) for c in e[1]))
        return tuple(swap(x, chars) for x in e)
    if isinstance(e, list):
        return [swap(x, chars) for x in e]
    return e


def one(ctx, i):
    r = ctx.rng
    no_rx = r.random() < 0.15       # as needed for the separator / in heuristic mode
    gen = peg.GrammarGen(r, ws=True, rxs=[] if no_rx else peg.RXS,
                         lits=[x for x in peg.LITS if x.isalpha()] if no_rx else peg.LITS + ['"', "'", 'x"y', 'é', 'ab c'])
    g = gen.grammar(r.choice([2, 3, 3]))
    if r.random() < 0.3:            # characters with long codes
        g = swap(g, {'d': r.choice(['\U0001F600', '\U00010000', '\U0010ffff', '\u2028', '\u0100', '\u4e00'])})
    marked = r.random() < 0.3
    if marked:
        g = {k: mark(r, v) for k, v in g.items()}
    hide = {k for k in list(g)[1:] if r.random() < 0.25}
    literalws = r.choice(['none', 'none', 'right'])
    base_src = Printer(r, canonical=True, literalws=literalws).grammar(g, hide)
    base, err = accepted(ctx, base_src)
    if base is None:
        ctx.count('grammars rejected by static checks')
        return
    ctx.count('grammars')
    wsgen = lambda: r.choice(['', '', ' ', '  '])
    plain = {k: unmark(v) for k, v in g.items()}
    docs = peg.documents(r, plain, 8, wsgen=wsgen)
    if literalws == 'right':
        docs = [d if r.random() < 0.6 else re.sub(r'(?<=[a-z)])', lambda m: r.choice(['', ' ']), d) for d in docs]
    want = [result(ctx, base, d) for d in docs]
    for mode in ['dhparser', 'dhparser', r.choice(['heuristic', 'heuristic', 'configurable']), 'dhparser']:
        p = variant(r, mode, literalws, marked)
        if not p.rx_ok and any(x[0] in ('rx', 'lb', 'nlb', 'inter', 'any') or x[0] == 'lit' and not x[1].isalpha() for v in plain.values() for x in peg.walk(v)):
            p = Printer(r, mode, literalws=literalws)
            if mode == 'configurable':
                mode = p.mode = 'dhparser'
        if p.d['DEF'] == '<-' and not p.d['ENDL'] and any(x[0] in ('lb', 'nlb') for v in plain.values() for x in peg.walk(v)):
            # "x <-!y" is ambiguous: a definition or a symbol followed by a lookbehind
            p = Printer(r, 'dhparser', literalws=literalws)
            mode = p.mode
        src = p.grammar(g, hide)
        w = {'canonical': base_src, 'variant': src, 'mode': mode, 'delimiters': p.d}
        v, err = accepted(ctx, src, mode, p.d)
        ctx.count('variants: ' + mode)
        for f in p.features:
            ctx.count(f)
        if v is None and err and set(re.findall(r'Error \((\d+)\)', err)) <= {'1520', '1530', '1570'}:
            # which of these flaws are found depends on the order of the definitions
            ctx.count('variants rejected by static checks')
            continue
        if v is None:
            ctx.violation('variant rejected: ' + mode, f'{err}\n--- variant\n{src}\n--- accepted\n{base_src}', w)
            continue
        for d, (items, errors) in zip(docs, want):
            if items is None:
                continue
            ctx.current = dict(w, document=d)
            it2, er2 = result(ctx, v, d)
            if it2 is None:
                continue
            ctx.evaluated((src, d), bool(d))
            ctx.count('documents compared')
            ctx.count('documents compared: ' + ('with errors' if errors else 'free of errors'))
            if er2 != errors:
                ctx.violation('different errors: ' + mode, f'{d!r}\n{errors} canonical\n{er2} variant\n--- variant\n{src}\n'
                              f'--- canonical\n{base_src}', ctx.current)
            elif not errors and it2 != items:
                ctx.violation('different result: ' + mode, f'{d!r}\n{items}\n{it2}\n--- variant\n{src}\n--- canonical\n{base_src}',
                              ctx.current)
        if i < 2:
            ctx.sample(w)


def unmark(e):
    op = e[0]
    if op in ('seq', 'alt'):
        return (op, [unmark(x) for x in e[1]])
    if op == 'inter':
        return (op, [(unmark(x), lo, hi) for x, lo, hi in e[1]])
    if op in ('opt', 'star', 'plus', 'cnt', 'and', 'not'):
        return (op, unmark(e[1])) + tuple(e[2:])
    return e
