"""P05: reduction levels, hiding and dropping vs a reference that projects the full match."""
import re
from vt import peg, dh
from checks import p02, p03, p04

LEVELS = ('none', 'flatten', 'merge_treetops', 'merge')
LEAFOPS = ('lit', 'blit', 'rx', 'any', 'ws')
CLS = {'lit': 'strings', 'blit': 'backticked', 'rx': 'regexps', 'ws': 'whitespace', 'any': 'any'}
WS = r'[ \n]*'


class RefT(peg.Ref):
    """items: ('n', name, start, end, items) or ('t', start, end, class, direct) or ('d',)"""

    def __init__(self, g, doc, literalws, drop):
        super().__init__(g, doc, WS)
        self.literalws, self.drop = literalws, drop

    def sym(self, name, pos):
        key = (name, pos)
        if key not in self.memo:
            e = self.g[name]
            direct = e[0] in LEAFOPS
            if e[0] == 'seq' and 'regexps' in self.drop:   # even if the element is marked with ->DROP
                # a regular expression or plain string with whitespace around it as definition
                core = [x for x in e[1] if x[0] != 'ws']
                core = [x[1] if x[0] == 'drop' else x for x in core]
                direct = len(core) == 1 and (core[0][0] in ('rx', 'blit') or core[0][0] == 'lit' and not self.literalws)
                if direct:
                    e = 'seq', [x[1] if x[0] == 'drop' and x[1][0] != 'ws' else x for x in e[1]]
            r = self.m(e, pos)
            if r is not None and direct:
                items = tuple(x[:4] + (True,) if x[3] not in ('whitespace', 'litws') or e[0] == 'ws' else x for x in r[1])
                r = r[0], items
            self.memo[key] = None if r is None else (r[0], (('n', name, pos, r[0], r[1]),))
        return self.memo[key]

    def m(self, e, pos):
        op = e[0]
        if op == 'drop':
            r = self.m(e[1], pos)
            return None if r is None else (r[0], ())
        if op not in LEAFOPS:
            return super().m(e, pos)
        start, items = pos, ()
        if op == 'lit' and 'left' in self.literalws:
            pos, items = self.m(('ws',), pos)
        r = super().m(('lit', e[1]) if op == 'blit' else e, pos)
        if r is None:
            return None
        end = r[0]
        items += (('t', pos, end, CLS[op], False),)
        if op == 'lit' and 'right' in self.literalws:
            end, more = self.m(('ws',), end)
            items += more
        if op == 'lit' and self.literalws and 'strings' in self.drop:
            # whitespace of a literal is dropped with the literal
            items = tuple(x if x[3] == 'strings' else x[:3] + ('litws', False) for x in items)
        return end, items


def project(items, doc, cfg):
    out = []
    for x in items:
        if x[0] == 't':
            if not (x[3] in cfg['drop'] | {'litws'} and not x[4]) and x[2] > x[1]:
                out.append(('', x[1], doc[x[1]:x[2]]))
        elif x[1] in cfg['dropped']:
            pass
        elif x[1] in cfg['hide']:
            out.extend(project(x[4], doc, cfg))
        else:
            out.append((x[1], x[2], reduce_(project(x[4], doc, cfg))))
    return out


def reduce_(kids):
    if all(not k[0] for k in kids) and len(kids) <= 1:
        return kids[0][2] if kids else ''
    return tuple(kids)


def text_of(x):
    return x[2] if isinstance(x[2], str) else ''.join(text_of(k) for k in x[2])


def merged(x):
    """adjacent anonymous leaves merged"""
    if isinstance(x[2], str):
        return x
    out = []
    for k in map(merged, x[2]):
        if out and not k[0] and not out[-1][0]:
            out[-1] = ('', out[-1][1], out[-1][2] + k[2])
        else:
            out.append(k)
    return x[0], x[1], reduce_(out)


def shape(x):
    """named nodes and the text between them"""
    if isinstance(x[2], str):
        return x[:2] + ((x[2],) if x[2] else (),)
    out = []
    for k in x[2]:
        if k[0]:
            out.append(shape(k))
        elif out and isinstance(out[-1], str):
            out[-1] += k[2]
        else:
            out.append(k[2])
    return x[0], x[1], tuple(out)


def actual(nd, flat):
    name = '' if nd.name[0] == ':' else nd.name
    if not nd.children:
        return [(name, nd.pos, nd.content)]
    kids = []
    for c in nd.children:
        sub = actual(c, flat)
        if flat and c.name[0] == ':':
            kids.extend(sub)
        else:
            kids.extend(sub)
    return [(name, nd.pos, tuple(kids))] if name else kids


def unplaced(a, b):
    """same up to positions that are too early"""
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    return a[0] == b[0] and a[1] <= b[1] and len(a[2]) == len(b[2]) and all(map(unplaced, a[2], b[2]))


def tidy(x):
    """removes empty anonymous leaves, collapses a single anonymous leaf"""
    if isinstance(x[2], str):
        return x
    return x[0], x[1], reduce_([tidy(k) for k in x[2] if k[0] or k[2]])


def faults(nd, level, root=True):
    """violations of the promises of the reduction level in the tree as it is"""
    if level == 'none':
        return
    kids = nd.children
    for c in kids:
        if c.name[0] == ':':
            if c.children:
                yield f'anonymous branch {c.name} below {nd.name}'
            elif not c.content:
                yield f'empty anonymous node {c.name} below {nd.name}'
    anon = [c.name[0] == ':' and not c.children for c in kids]
    if len(kids) == 1 and anon[0]:
        yield f'{nd.name} has an anonymous leaf as single child'
    if level in ('merge_treetops', 'merge') and len(kids) > 1 and all(anon):
        yield f'{nd.name} consists of several anonymous leaves'
    if level == 'merge' and any(a and b for a, b in zip(anon, anon[1:])):
        yield f'adjacent anonymous leaves in {nd.name}'
    for c in kids:
        yield from faults(c, level, False)


def leaves(nd):
    return [(l.pos, l.content) for l in nd.select_if(lambda n: not n.children, True)
            if l.content and l.name[0] == ':']


# ------------------------------------------------------------------------------------

def blits(r, e):
    op = e[0]
    if op == 'lit' and r.random() < 0.4:
        return ('blit', e[1])
    if op == 'rx' and r.random() < 0.15:
        return ('rx', '((%s))' % e[1])
    if op in ('seq', 'alt'):
        return (op, [blits(r, x) for x in e[1]])
    if op == 'inter':
        return (op, [(blits(r, x), lo, hi) for x, lo, hi in e[1]])
    if op in ('opt', 'star', 'plus', 'cnt', 'and', 'not'):
        return (op, blits(r, e[1])) + tuple(e[2:])
    return e


def drops(r, e, top=True):
    """marks some elements of sequences with ->DROP"""
    op = e[0]
    if op in ('seq', 'alt'):
        xs = [drops(r, x, False) for x in e[1]]
        if op == 'seq':
            xs = [('drop', x) if x[0] in ('sym', 'lit', 'blit', 'rx', 'plus', 'star', 'alt') and r.random() < 0.12 else x for x in xs]
        return (op, xs)
    if op in ('opt', 'star', 'plus'):
        return (op, drops(r, e[1], False)) + tuple(e[2:])
    return e


def show(e, need=0):
    op = e[0]
    if op == 'blit':
        return '`' + e[1] + '`'
    if op == 'drop':
        return show(e[1], 4) + '->DROP'
    s = show0(e)
    return s if peg.LEVEL.get(op, 5) >= need else '(' + s + ')'


def show0(e):
    """peg.show0 with the additional operators"""
    op = e[0]
    if op == 'seq':
        return ' '.join(show(x, 1.2) for x in e[1])
    if op == 'alt':
        return ' | '.join(show(x, 1) for x in e[1])
    if op in ('opt', 'star', 'plus'):
        return '[' * (op == 'opt') + '{ ' * (op != 'opt') + show(e[1]) + (']' if op == 'opt' else ' }') + '+' * (op == 'plus')
    if op == 'cnt':
        return show(e[1], 5) + ('*%i' % e[2] if e[2] == e[3] else '{%i,%i}' % (e[2], e[3]))
    if op == 'inter':
        return ' ° '.join(card(*x) for x in e[1])
    if op in ('and', 'not', 'lb', 'nlb'):
        return {'and': '&', 'not': '!', 'lb': '<-&', 'nlb': '<-!'}[op] + show(e[1], 5)
    return peg.show0(e)


def card(e, lo, hi):
    if (lo, hi) == (1, 1):
        return show(e, 4)
    if (lo, hi) == (0, 1):
        return '[' + show(e) + ']'
    return '{ ' + show(e) + ' }' + '+' * lo


def make_config(r, g):
    names = list(g)[1:]
    hide = {k for k in names if r.random() < 0.4}
    cfg = {'hide': hide, 'dropped': {k for k in hide if r.random() < 0.25},
           'drop': {c for c in ('strings', 'backticked', 'whitespace', 'regexps') if r.random() < 0.3}}
    # a synonym of a dropped symbol is dropped as well (with a warning)
    cfg['dropped'] -= {v[1] for v in g.values() if v[0] == 'sym'}
    cfg['notation'] = r.choice(['directive', 'regexp', 'prefix', 'suffix'])
    return cfg


PLAIN = {'hide': set(), 'dropped': set(), 'drop': set(), 'notation': 'directive'}


def source(r, g, cfg, level, literalws):
    head = '@ literalws = %s\n@ whitespace = /%s/\n' % (', '.join(sorted(literalws)) or 'none', WS.replace('\\', '\\'))
    head += f'@ reduction = {level}\n'
    hide, dropped, n = cfg['hide'], cfg['dropped'], cfg['notation']
    if n in ('directive', 'regexp') and hide:
        head += '@ hide = ' + (', '.join(sorted(hide)) if n == 'directive' else '/' + '|'.join(k + '$' for k in sorted(hide)) + '/') + '\n'
    d = sorted(cfg['drop']) + (sorted(dropped) if n in ('directive', 'regexp') else [])
    if d:
        head += '@ drop = ' + ', '.join(d) + '\n'
    lines = []
    for k, e in g.items():
        pre = suf = ''
        if n == 'prefix':
            pre = 'DROP:' if k in dropped else 'HIDE:' if k in hide else ''
        elif n == 'suffix':
            if k in dropped:
                pre = 'DROP:'
            else:
                suf = '->HIDE' if k in hide else ''
        lines.append(f'{pre}{k} = {show(e)}{suf}')
    return head + '\n'.join(lines) + '\n'


def run(ctx):
    r = ctx.rng
    for gi in range(ctx.n(70, 500)):
        gen = peg.GrammarGen(r, nsym=r.choice([(2, 4), (3, 7)]), ws=True)
        g = gen.grammar(r.choice([2, 3]))
        plain_g = g
        g = {k: blits(r, v) for k, v in g.items()}
        if r.random() < 0.4:
            g = {k: drops(r, v) for k, v in g.items()}
        literalws = r.choice([set(), set(), {'right'}, {'left'}, {'left', 'right'}])
        cfg = make_config(r, g)
        wsgen = lambda: r.choice(['', '', ' ', '\n '])
        docs = peg.documents(r, plain_g, ctx.n(10, 14), alphabet='abcd()+*=.[x \n', wsgen=wsgen)
        docs = [spaced(r, d) if r.random() < 0.3 else d for d in docs]
        results = {}
        for level in LEVELS:
            src = source(r, g, cfg, level, literalws)
            ctx.current = src
            ok, grammar = ctx.guard(lambda: compiled(ctx, src), src)
            if not ok or grammar is None:
                break
            if gi < 1 and level == 'merge':
                ctx.sample(src)
            for doc in docs:
                judge(ctx, g, cfg, src, level, literalws, grammar, doc, results)
    for gi in range(ctx.n(25, 150)):
        metamorphic(ctx)


def spaced(r, d):
    d = list(d)
    for _ in range(r.randint(1, 3)):
        d.insert(r.randint(0, len(d)), r.choice([' ', '\n', '  ']))
    return ''.join(d)


def compiled(ctx, src):
    from checks.p01 import STATIC_CODES
    try:
        g = dh.create_parser(src)
        ctx.count('grammars accepted')
        return g
    except (dh.DefinitionError, dh.CompilationError) as e:
        ctx.count('grammars rejected by static checks')
        if any(x.code not in STATIC_CODES for x in e.errors):
            ctx.violation('grammar-rejected', f'valid grammar rejected: {e}\n{src}', {'grammar': src})
        return None


def judge(ctx, g, cfg, src, level, literalws, grammar, doc, results):
    r = ctx.rng
    root = next(iter(g))
    w = {'grammar': src, 'document': doc}
    ctx.current = w
    exp = RefT(g, doc, literalws, cfg['drop']).sym(root, 0)
    ok, tree = ctx.guard(lambda: grammar(doc, complete_match=True), w)
    if not ok:
        return
    errs = dh.true_errors(tree)
    accept = exp is not None and exp[0] == len(doc)
    ctx.count('documents compared')
    ctx.evaluated((src, doc), exp is not None and exp[0] > 0)
    if accept != (not errs):
        ctx.violation('acceptance', f'reference {"accepts" if accept else "rejects"}, parser reports {[str(e) for e in errs]}'
                      f'\n{src}doc={doc!r}', w)
        return
    key = tuple(sorted((e.pos, int(e.code)) for e in tree.errors))
    if results.setdefault(doc, key) != key:
        ctx.violation('errors', f'errors (position, code) {key} at level {level} but {results[doc]} at another level\n{src}doc={doc!r}', w)
        return
    if not accept:
        ctx.count('rejected documents')
        return
    ctx.count('trees compared: ' + level)
    want = project(exp[1], doc, cfg)[0]
    if text_of(want) != doc:
        ctx.count('trees with dropped content')
    got = tidy(actual(tree, level != 'none')[0])
    if level == 'merge':
        same = got == merged(want)
    elif level == 'flatten':
        same = got == want
    else:
        same = shape(got) == shape(want)
    if not same:
        if text_of(want) != doc and unplaced(shape(got), shape(want)):
            ctx.violation('position-after-dropped', f'expected {shape(want)}\ngot      {shape(got)}\n{tree.as_sxpr()}\n{src}doc={doc!r}', w)
            return
        ctx.violation('tree-' + level, f'tree differs at level {level}\nexpected {merged(want) if level == "merge" else want}\ngot      {got}\n'
                      f'{tree.as_sxpr()}\n{src}doc={doc!r}', w)
        return
    bad = list(faults(tree, level))
    if bad:
        ctx.violation('promise-' + level, f'{bad}\n{tree.as_sxpr()}\n{src}doc={doc!r}', w)
        return
    if level in ('none', 'flatten'):
        for pos, text in leaves(tree):
            if doc[pos:pos + len(text)] != text:
                ctx.violation('leaf-position', f'{text!r} does not occur at {pos}\n{tree.as_sxpr()}\n{src}doc={doc!r}', w)
                return


# ------------------------------------------------------------------ metamorphic part

LR = ['@literalws = none\n{}E = E "+" T | E "-" T | T\nT = T "*" F | F\nF = "(" E ")" | N | V\nN = /[0-9]+/\nV = "a" | "b"\n',
      '@literalws = right\n{}E = (E ("+"|"-") T) | T\nT = (F "*" T) | F\nF = "(" E ")" | N ["!"]\nN = D {{ D }}\nD = /[0-9]/\n',
      '@literalws = none\n{}S = P | "x"\nP = A "." N | A "(" ")"\nA = P | N\nN = /[ab]/ ["\'"]\n']
LRDOCS = 'ab12+-*()!.x'


def metamorphic(ctx):
    """Erroneous, stateful and left-recursive documents: the tree of each level contains the
    same named nodes, text and errors as the tree without any reduction and hiding."""
    r = ctx.rng
    k = r.random()
    if k < 0.6:
        src, g = p04.make_grammar(r, 0.1)
        src = ''.join(l + '\n' for l in src.splitlines() if not l.startswith(('@ reduction', '@ hide')))
        names = list(g)
        docs = peg.documents(r, g, 6) + [p04.faulty(r, peg.documents(r, g, 3)) for _ in range(6)]
        body = '{}' + src.replace('{', '{{').replace('}', '}}')
    elif k < 0.8:
        body = r.choice(LR)
        names = re.findall(r'^(\w) =', body, re.M)
        docs = [''.join(r.choice(LRDOCS) for _ in range(r.randint(1, 9))) for _ in range(6)] + [lrdoc(r, 4) for _ in range(12)]
    else:
        body = r.choice(CAPT)
        names = re.findall(r'^(\w+) =', body, re.M)
        docs = [''.join(r.choice(['*', '**', 'a', 'b', '`', '``', ' ', '_']) for _ in range(r.randint(1, 9))) for _ in range(14)]
    hide = {n for n in names[1:] if r.random() < 0.4}
    base = None
    for level in ('none',) + LEVELS:
        head = f'@ reduction = {level}\n' + ('@ hide = %s\n' % ', '.join(sorted(hide)) if hide and base is not None else '')
        src = body.format(head)
        ctx.current = src
        ok, grammar = ctx.guard(lambda: p04.create(ctx, src), src)
        if not ok or grammar is None:
            return
        res = []
        for doc in docs:
            ctx.current = {'grammar': src, 'document': doc}
            ok, tree = ctx.guard(lambda: grammar(doc), ctx.current)
            if not ok:
                return
            items = without(dh.named_items(tree), ())
            if dh.true_errors(tree):    # skipped text may be attributed to different nodes
                items = startings(items)
            res.append((tuple(sorted((e.pos, int(e.code)) for e in tree.errors)), tree.content,
                        items if base is None else items, tree.as_sxpr()))
            if tree.errors:
                ctx.count('erroneous documents compared between levels')
        if base is None:
            base = [(e, c, without(i, hide), s) for e, c, i, s in res]
            continue
        for doc, (e0, c0, i0, s0), (e1, c1, i1, s1) in zip(docs, base, res):
            ctx.count('documents compared between levels')
            ctx.evaluated((src, doc), bool(doc))
            if (e0, c0) != (e1, c1) or i0 != i1:
                ctx.violation('levels', f'level {level}, hide {sorted(hide)}: errors {e0} / {e1}, content {c0!r} / {c1!r}\n'
                              f'named nodes {i0}\n         vs {i1}\n{s0}\n{s1}\n{src}doc={doc!r}',
                              {'grammar': src, 'document': doc})
                return


# nodes which the error-recovery inserts; how they are nested depends on the reduction level
ARTIFACT = re.compile(r'ZOMBIE__$|\w+_(skip|resume)_\w+__$')


def startings(items):
    return tuple((n, s, None, startings(kids)) for n, s, e, kids in items)


def without(items, hide):
    out = []
    for n, s, e, kids in items:
        kids = without(kids, hide)
        out.extend(kids if n in hide or ARTIFACT.match(n) else [(n, s, e, kids)])
    return tuple(out)


def lrdoc(r, d):
    if d <= 0:
        return r.choice(['a', 'b', '1', '12'])
    return r.choice([lambda: lrdoc(r, d - 1) + r.choice('+-*') + lrdoc(r, d - 2), lambda: '(' + lrdoc(r, d - 2) + ')',
                     lambda: lrdoc(r, 0) + r.choice(['!', '.a', '()', ''])])()


CAPT = ['@literalws = none\n{}doc = {{ emph | text }}\nemph = m {{ emph | text }}+ ::m\nm = /\\*+|_/\ntext = /[ab ]+/\n',
        '@literalws = none\n{}doc = {{ code | text }}\ncode = fence body ::fence\nbody = {{ !:fence char }}\nchar = /./\nfence = /`+/\n'
        'text = /[^`]/\n']
