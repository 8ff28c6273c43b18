"""P14: the directives for whitespace, comments, literal whitespace, case and dropping, against the reference semantics in which
whitespace has been written out."""
import re, random, threading
from vt import peg, dh
from checks import p01

WS = {'horizontal': r'[ \t]*', 'linefeed': None, 'linestart': None, 'vertical': r'[ \t\r\n\f\v]*'}
COMMENTS = [(None, []), (r'#.*', ['#', '# a', '#x y ']), (r'/\*(?:.|\n)*?\*/', ['/**/', '/* a */', '/*b\n*/']), (r'\{[^}]*\}', ['{}', '{ab}', '{\n}']),
            (r';[^\n]*|<[^>]*>', [';', ';a', '<a\nb>']), (r'%[^%\n]*%', ['%%', '%a b%'])]


class WsRef(peg.Ref):
    """whitespace and dropped literals leave marks ('~', ...) and ('"', ...) in the result"""
    def __init__(self, g, doc, spec):
        super().__init__(g, doc)
        self.spec = spec
        self.flags = re.I if spec['ignorecase'] else 0
        self.ws_rx = None if spec['ws'][0] in ('linefeed', 'linestart') else re.compile(spec['ws'][1], self.flags)
        self.c_rx = re.compile(spec['comment'][0], self.flags) if spec['comment'][0] else None

    def plain_ws(self, p):
        d = self.doc
        if self.ws_rx is not None:
            return self.ws_rx.match(d, p).end()
        blank = lambda q: next((k for k in range(q, len(d)) if d[k] not in ' \t'), len(d))
        q = blank(p)
        if d[q:q + 1] == '\n':      # one linefeed, but no empty line
            e = blank(q + 1)
            if d[e:e + 1] != '\n':
                return e if self.spec['ws'][0] == 'linefeed' else q + 1
        return q

    def space(self, p):
        p = self.plain_ws(p)
        while self.c_rx is not None:
            m = self.c_rx.match(self.doc, p)
            if not m:
                break
            p = self.plain_ws(m.end())
        return p

    def m(self, e, pos):
        if e[0] == 'ws':
            end = self.space(pos)
            return end, (('~', pos, end, ()),) if end > pos else ()
        if e[0] == 'qlit':
            q = e[2]
            spaced = q in '"\'’'
            p, items = pos, ()
            if spaced and 'left' in self.spec['literalws']:
                p, items = self.m(('ws',), p)
            txt = self.doc[p:p + len(e[1])]
            if txt != e[1] and not (self.spec['ignorecase'] and txt.lower() == e[1].lower()):
                return None
            items += (('"' if spaced else '`', p, p + len(e[1]), ()),) if e[1] else ()
            p += len(e[1])
            if spaced and 'right' in self.spec['literalws']:
                p, more = self.m(('ws',), p)
                items += more
            if spaced and 'strings' in self.spec['drop']:      # literals are dropped together with the whitespace attached to them
                items = (('"', pos, p, ()),) if p > pos else ()
            return p, items
        if e[0] == 'rx' and self.spec['ignorecase']:
            m = re.compile(e[1], re.I).match(self.doc, pos)
            return (m.end(), ()) if m else None
        return super().m(e, pos)


def quoted(r, e):
    if e[0] == 'lit':
        q = r.choice('"""\'’``´')
        if q in e[1]:
            q = '"'
        return ('qlit', e[1], q)
    return tuple(quoted(r, x) if isinstance(x, tuple) else [quoted(r, y) for y in x] if isinstance(x, list) else x for x in e)


def marked(e, table):
    if e[0] == 'qlit':
        table.append(e)
        return ('lit', f'\ue000{len(table) - 1}\ue001')
    return tuple(marked(x, table) if isinstance(x, tuple) else [marked(y, table) for y in x] if isinstance(x, list) else x for x in e)


def show(r, g, spec):
    table = []
    body = peg.show_grammar({k: marked(v, table) for k, v in g.items()}, header='')

    def lit(m):
        _, s, q = table[int(m.group(1))]
        return q + s + q
    body = re.sub('[`"\'´’]\ue000(\\d+)\ue001[`"\'´’]', lit, body)
    d = []
    if spec['ws'][0] != 'vertical' or r.random() < 0.5:
        d.append(f'@ whitespace = {spec["ws"][0] if spec["ws"][0] in WS else "/" + spec["ws"][1] + "/"}')
    if spec['comment'][0]:
        d.append('@ comment = /' + spec['comment'][0].replace('/', r'\/') + '/')
    lws = spec['literalws']
    if lws != {'right'} or r.random() < 0.5 or True:
        d.append('@ literalws = ' + ('none' if not lws else r.choice(['both', 'left, right', 'right, left']) if len(lws) == 2 else min(lws)))
    if spec['ignorecase']:
        d.append('@ ignorecase = ' + r.choice(['True', 'true', 'yes', 'on']))
    elif r.random() < 0.2:
        d.append('@ ignorecase = ' + r.choice(['False', 'off', 'no']))
    if spec['drop']:
        d.append('@ drop = ' + ', '.join(r.sample(sorted(spec['drop']), len(spec['drop']))))
    r.shuffle(d)
    return r.choice(['\n', '\n', '\n\n']).join(d) + '\n' + body


def generate(r):
    gen = peg.GrammarGen(r, nsym=r.choice([(1, 3), (2, 5)]), ws=True)
    g = gen.grammar(r.choice([2, 3, 3]))
    wsk = r.choice(['horizontal', 'linefeed', 'linestart', 'vertical', 'own'])
    own = r.choice([r' *', r'[ _]*', r'(?:\s|_)*', r' ?', r'', r'[\t ]*\n?'])
    spec = {'ws': (wsk, WS[wsk]) if wsk != 'own' else ('own', own), 'comment': r.choice(COMMENTS), 'ignorecase': r.random() < 0.3,
            'literalws': r.choice([set(), {'left'}, {'right'}, {'right'}, {'left', 'right'}]),
            'drop': {x for x in ('whitespace', 'strings', 'backticked') if r.random() < 0.25}}
    g = {k: quoted(r, v) for k, v in g.items()}
    if any(v[0] == 'ws' for v in g.values()):
        spec['drop'] -= {'whitespace'}
    if any(v[0] == 'qlit' for v in g.values()):     # what is dropped then, is another matter
        spec['drop'] -= {'strings', 'backticked'}
    return g, spec


def space(r, spec):
    parts = [' ', ' ', '\n', '  ', '\t', '_', '\n\n', ' \n ', ''] + spec['comment'][1] * 2
    return ''.join(r.choice(parts) for _ in range(r.choice([0, 1, 1, 2, 3])))


def plain(e):
    """qlit as lit for the document generator, with explicit whitespace around it"""
    if e[0] == 'qlit':
        return ('seq', [('ws',), ('ilit' if e[2] == 'i' else 'lit', e[1]), ('ws',)]) if e[2] in '"\'’' else ('lit', e[1])
    return tuple(plain(x) if isinstance(x, tuple) else [plain(y) for y in x] if isinstance(x, list) else x for x in e)


def documents(r, g, spec, n):
    p = {k: plain(v) for k, v in g.items()}
    res = []
    for _ in range(n):
        d = peg.derive(r, p, ('sym', next(iter(p))), r.choice([4, 7, 10]), lambda: space(r, spec) if r.random() < 0.6 else '')
        if r.random() < 0.35:
            d = peg.mutate(r, d, 'abcd()+*=.[x  \n_' + ''.join(spec['comment'][1])[:6])
        if spec['ignorecase'] or r.random() < 0.1:
            d = ''.join(c.swapcase() if r.random() < 0.3 and c.isascii() else c for c in d)
        if r.random() < 0.3:
            i = r.randint(0, len(d))
            d = d[:i] + space(r, spec) + d[i:]
        res.append(d[:60])
    return res


def outline(items, doc, drop, whole=None):
    """[(name, content without dropped parts, children)] of the named items"""
    dropped = {'~'} * 0 if False else set()
    if 'whitespace' in drop:
        dropped.add('~')
    if 'strings' in drop:
        dropped.add('"')
    if 'backticked' in drop:
        dropped.add('`')

    def text(it):
        name, a, b, kids = it
        if name in dropped:
            return ''
        out, p = '', a
        for k in kids:
            out += doc[p:k[1]] + text(k)
            p = k[2]
        return out + doc[p:b]

    def rec(its):
        return tuple((n, text((n, a, b, k)), rec(k)) for n, a, b, k in its if n not in '~"`')
    return rec(items)


def real_outline(nd):
    def items(n):
        kids = ()
        for c in n.children:
            kids += items(c)
        return kids if n.name[:1] == ':' else ((n.name, n.content, kids),)
    return items(nd)


def judge(ctx, g, spec, src, grammar, doc, label):
    ref = WsRef(g, doc, spec)
    root = next(iter(g))
    exp = ref.sym(root, 0)
    w = {'grammar': src, 'document': doc}
    ctx.current = w

    def parse():
        t = grammar(doc, complete_match=True)
        return dh.true_errors(t), real_outline(t), grammar(doc)
    ok, res = ctx.guard(parse, w)
    if not ok:
        return
    errs, got, default = res
    accept = exp is not None and exp[0] == len(doc)
    ctx.evaluated((src, doc), exp is not None and exp[0] > 0)
    ctx.count(f'documents: {label}, ' + ('accepted' if accept else 'rejected'))
    if accept != (not errs):
        ctx.violation('acceptance', f'reference {"accepts" if accept else "rejects"}, but errors: {[str(e) for e in errs]}\n{src}\n{doc!r}', w)
        return
    if accept:
        want = outline(exp[1], doc, spec['drop'])
        if want != got:
            ctx.violation('named nodes' if not spec['drop'] else 'named nodes: drop', f'expected {want}\ngot      {got}\n{src}\n{doc!r}', w)
    # by default, trailing whitespace is admissible
    end = None if exp is None else exp[0]
    fine = end is not None and (end == len(doc) or ref.space(end) == len(doc))
    derrs = dh.true_errors(default)
    if end is not None and end < len(doc):
        ctx.count('remaining text: ' + ('only whitespace' if fine else 'more than whitespace'))
    if fine != (not derrs):
        ctx.violation('trailing whitespace', f'remainder {doc[end or 0:]!r} is {"" if fine else "not "}whitespace, but errors: {[str(e) for e in derrs]}\n{src}\n{doc!r}', w)
    elif fine and end < len(doc) and not default.errors:
        ctx.violation('trailing whitespace: no warning', f'{src}\n{doc!r}', w)


def threads(ctx, grammars):
    """compiling and parsing with different directives at the same time"""
    jobs = [(src, docs, [(dh.tree_key(grammar(d)), dh.error_key(grammar(d))) for d in docs], grammar.python_src__)
            for g, spec, src, grammar, docs in grammars]
    out = [None] * len(jobs)
    gate = threading.Barrier(len(jobs))

    def work(i):
        try:
            src, docs, want, code = jobs[i]
            gate.wait(30)
            res = []
            for _ in range(2):
                gr = dh.create_parser(src)
                res.append((gr.python_src__ == code, [(dh.tree_key(gr(d)), dh.error_key(gr(d))) for d in docs] == want))
            out[i] = res
        except BaseException as e:
            out[i] = repr(e)
    ctx.current = {'grammars': [j[0] for j in jobs]}
    ts = [threading.Thread(target=work, args=(i,)) for i in range(len(jobs))]
    dh.quiet(lambda: [t.start() for t in ts] and [t.join(120) for t in ts])
    ctx.count('grammars compiled concurrently', len(jobs))
    for i, res in enumerate(out):
        if res is None:
            ctx.count('threads: no result')
        elif isinstance(res, str) or not all(a and b for a, b in res):
            ctx.violation('concurrent compilation', f'{res}\n{jobs[i][0]}', ctx.current)


def run(ctx):
    r = ctx.rng
    kept = []
    for gi in range(ctx.n(120, 900)):
        g, spec = generate(r)
        src = show(r, g, spec)
        ctx.current = src
        ok, grammar = ctx.guard(lambda: p01.compiled(ctx, src), src)
        if not ok or grammar is None:
            continue
        ctx.count('grammars accepted')
        if gi < 1:
            ctx.sample(src)
        docs = documents(r, g, spec, ctx.n(10, 14))
        for d in docs:
            judge(ctx, g, spec, src, grammar, d, 'directly after compilation')
        if kept:
            g2, spec2, src2, grammar2, _ = r.choice(kept)
            for d in documents(r, g2, spec2, 3):
                judge(ctx, g2, spec2, src2, grammar2, d, 'after compilation of other grammars')
            again = dh.create_parser(src2)
            ctx.count('grammars compiled again')
            if again.python_src__ != grammar2.python_src__:
                ctx.violation('compilation depends on other grammars', f'{again.python_src__}\n----\n{grammar2.python_src__}\n{src2}', {'grammar': src2})
        kept.append((g, spec, src, grammar, docs[:4]))
        del kept[:-8]
        if gi % 30 == 29 and len(kept) >= 4:
            threads(ctx, kept[-4:])
