"""Captures: real parser vs reference that passes the variable stacks along functionally."""
import re
from vt import peg, dh

CAPS = [('t', ('rx', '[ab]+')), ('t', ('rx', '[ab]')), ('t', ('alt', [('lit', 'ab'), ('lit', 'a'), ('lit', 'b')])),
        ('q', ('rx', '[xy]')), ('q', ('rx', 'x+|y')), ('q', ('alt', [('lit', 'xx'), ('lit', 'y')])),
        ('q', ('seq', [('lit', 'x'), ('opt', ('lit', 'y'))]))]
STACK_CODES = {640, 1050, 1052}


class CapRef:
    def __init__(self, g, doc, captured):
        self.g, self.doc, self.cap = g, doc, captured
        self.memo, self.rx, self.steps = {}, {}, 0
        self.features = set()
        self.cyclic = cyclic(g)
        self.frames, self.open = [], False
        self.zpops = 0        # zero-length consumptions attempted

    def touch(self, name, n):
        """a value of `name` is accessed (or found missing) while n values are on the stack"""
        for f in self.frames:
            if n <= f.get(name, 0):
                self.open = True

    def sym(self, name, pos, st):
        key = (name, pos, st)
        if key in self.memo:
            r, z = self.memo[key]
            self.zpops += z
            return r
        z = self.zpops
        if name in self.cyclic:
            self.frames.append({k: len(v) for k, v in st})
            r = self.sym0(name, pos, st)
            self.frames.pop()
            if r is not None and r[2] != st:
                self.open = True
            return r
        r = self.sym0(name, pos, st)
        if not self.cyclic:
            self.memo[key] = r, self.zpops - z
        return r

    def sym0(self, name, pos, st):
        if self.steps > 30000:
            raise TooLong()
        e = self.g[name]
        if e[0] in ('ret', 'pop', 'optpop'):
            r = self.m(e, pos, st)
            if r:
                r = (r[0], ((name, pos, r[0], ()),), r[2])
        else:
            r = self.m(e, pos, st)
            if r:
                s2 = r[2]
                if name in self.cap:
                    s2 = push(s2, name, self.doc[pos:r[0]])
                r = (r[0], ((name, pos, r[0], r[1]),), s2)
        return r

    def m(self, e, pos, st):
        op, doc = e[0], self.doc
        self.steps += 1
        if op == 'lit':
            return (pos + len(e[1]), (), st) if doc.startswith(e[1], pos) else None
        if op == 'rx':
            mm = re.compile(e[1]).match(doc, pos)
            return (mm.end(), (), st) if mm else None
        if op == 'sym':
            return self.sym(e[1], pos, st)
        if op == 'seq':
            items, st0 = (), st
            for x in e[1]:
                r = self.m(x, pos, st)
                if r is None:
                    if st != st0:
                        self.features.add('sequence failed after a stack change')
                    return None
                pos, st = r[0], r[2]
                items += r[1]
            return pos, items, st
        if op == 'alt':
            for x in e[1]:
                r = self.m(x, pos, st)
                if r is not None:
                    return r
            return None
        if op == 'opt':
            return self.m(e[1], pos, st) or (pos, (), st)
        if op in ('star', 'plus', 'cnt'):
            lo, hi = {'star': (0, peg.INF), 'plus': (1, peg.INF)}.get(op, e[2:4])
            items, n = (), 0
            while n < hi:
                r = self.m(e[1], pos, st)
                if r is None:
                    break
                items += r[1]
                n += 1
                st = r[2]
                if r[0] == pos:
                    n = max(n, lo)
                    break
                pos = r[0]
            return (pos, items, st) if n >= lo else None
        if op in ('and', 'not'):
            z = self.zpops
            r = self.m(e[1], pos, st)
            if op == 'and' and self.zpops > z:
                if e[1][0] != 'optpop':
                    raise Unspecified()
                if r is not None:       # documented idiom: DEDENT = &:?INDENT
                    self.features.add('consumption through lookahead')
                    return pos, (), r[2]
            if r is not None and r[2] != st:
                self.features.add('stack change inside lookahead')
            return (pos, (), st) if (r is not None) == (op == 'and') else None
        name = e[1]
        stack = dict(st).get(name, ())
        self.touch(name, len(stack))
        if op == 'ret':
            if not stack:       # documented: captured on first use
                r = self.sym(name, pos, st)
                if r is None:
                    return None
                self.features.add('auto-captured')
                return r[0], ((name, pos, r[0], ()),), r[2]
            v = stack[-1]
            if doc.startswith(v, pos):
                self.features.add('retrieved')
                return pos + len(v), ((name, pos, pos + len(v), ()),), st
            return None
        if not stack:
            return None
        v = stack[-1]
        if doc.startswith(v, pos):
            self.features.add('popped')
            return pos + len(v), ((name, pos, pos + len(v), ()),), pop(st, name)
        if op == 'optpop':
            self.zpops += 1
            return pos, ((name, pos, pos, ()),), pop(st, name)
        return None


class TooLong(Exception):
    pass


class Unspecified(Exception):
    pass


def cyclic(g):
    """the symbols that occur (indirectly) in their own definition"""
    refs = {k: {x[1] for x in peg.walk(e) if x[0] in ('sym', 'ret', 'pop', 'optpop')} for k, e in g.items()}
    out = set()
    for k in g:
        seen, todo = set(), list(refs[k])
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo.extend(refs[x])
        if k in seen:
            out.add(k)
    return out


def push(st, name, v):
    d = dict(st)
    d[name] = d.get(name, ()) + (v,)
    return tuple(sorted(d.items()))


def pop(st, name):
    d = dict(st)
    d[name] = d[name][:-1]
    if not d[name]:
        del d[name]
    return tuple(sorted(d.items()))


class Gen:
    def __init__(self, r):
        self.r = r
        self.caps = dict([r.choice(CAPS[:3])] + ([r.choice(CAPS[3:])] if r.random() < 0.5 else []))
        self.zero_pop = r.random() < 0.25

    def leaf(self):
        r = self.r
        k = r.random()
        c = r.choice(list(self.caps))
        if k < 0.32:
            return ('sym', c)
        if k < 0.44:
            return ('ret', c)
        if k < 0.66:
            return ('pop', c)
        if k < 0.70 and self.zero_pop:
            return ('optpop', c)
        if k < 0.88 or not self.names:
            return ('lit', r.choice([',', '.', '<', '>', 'a', 'x', 'b', ',,']))
        return ('sym', r.choice(self.names))

    def expr(self, d):
        r = self.r
        if d <= 0:
            return self.leaf()
        k = r.random()
        if k < 0.5:
            return ('seq', [self.expr(d - 1) for _ in range(r.randint(2, 4))])
        if k < 0.66:
            return ('alt', [self.expr(d - 1) for _ in range(2 + (r.random() < 0.3))])
        if k < 0.74:
            return ('opt', self.solid(d - 1))
        if k < 0.85:
            return ('star', self.solid(d - 1))
        if k < 0.90:
            return ('plus', self.solid(d - 1))
        if k < 0.96:
            return (r.choice(['and', 'not']), self.solid(d - 1))
        return self.leaf()

    def solid(self, d):
        while True:
            e = self.expr(d)
            if e[0] not in ('opt', 'star', 'plus', 'and', 'not'):
                return e

    def grammar(self):
        r = self.r
        while True:
            names = ['S%s' % c for c in 'abcd'[:r.randint(1, 4)]]
            g = {}
            for i, n in enumerate(names):
                self.names = names[i + 1:] + (names[:i + 1] if r.random() < 0.4 else [])
                g[n] = self.expr(r.choice([2, 3, 3]))
            g.update(self.caps)
            # the balanced-tag pattern often
            if r.random() < 0.3:
                c = next(iter(self.caps))
                g['Sa'] = ('seq', [('lit', '<'), ('sym', c), ('star', ('alt', [('sym', 'Sa'), ('sym', 'Sm')])),
                                   ('lit', '>'), ('pop', c)])
                g['Sm'] = self.nonempty() if r.random() < 0.4 else \
                    ('seq', [('lit', ','), ('sym', c), ('alt', [('seq', [('sym', 'Sm'), ('lit', '.'), ('pop', c)]),
                                                                ('seq', [('opt', ('ret', c)), ('pop', c), ('lit', '.')])])])
            g = {k: peg.order_alternatives(g, v) for k, v in g.items()}
            keep = peg.reachable(g)
            g = {k: v for k, v in g.items() if k in keep}
            used = {x[1] for e in g.values() for x in peg.walk(e) if x[0] in ('ret', 'pop', 'optpop')}
            if not used or peg.is_left_recursive(treat_solid(g)):
                continue
            nul, n = peg.nullable_map(treat_solid(g))
            if any(x[0] in ('star', 'plus') and n(x[1]) for e in g.values() for x in peg.walk(e)) \
                    or any(x[0] in ('opt', 'and', 'not') and n(x[1]) for e in g.values() for x in peg.walk(e)):
                continue
            # node names of retrieved values of directly synonymous symbols are not specified
            if any(e[0] == 'sym' for e in g.values()):
                continue
            return g, used

    def nonempty(self):
        self.names = []
        return ('seq', [('lit', self.r.choice([',', '.'])), self.expr(1)])


def treat_solid(g):
    """ret/pop match non-empty text, optpop may match the empty string"""
    def f(e):
        if e[0] in ('ret', 'pop'):
            return ('alt', [('lit', '\1'), ('sym', e[1])]) if e[0] == 'ret' else ('lit', '\1')
        if e[0] == 'optpop':
            return ('opt', ('lit', '\1'))
        if e[0] in ('seq', 'alt'):
            return (e[0], [f(x) for x in e[1]])
        if peg.children(e):
            return (e[0], f(e[1])) + tuple(e[2:])
        return e
    return {k: f(v) for k, v in g.items()}


def derive(r, g, caps, e, st, d):
    op = e[0]
    if op == 'lit':
        return e[1]
    if op == 'rx':
        return peg.rx_sample(r, e[1]) if 'x' in e[1] or 'a' not in e[1] else r.choice(['a', 'b', 'ab', 'ba', 'aab'][:5 if '+' in e[1] else 2])
    if op == 'sym':
        if d <= 0 and e[1] not in caps:
            return ''
        s = derive(r, g, caps, g[e[1]], st, d - 1)
        if e[1] in caps:
            st.setdefault(e[1], []).append(s)
        return s
    if op == 'seq':
        return ''.join(derive(r, g, caps, x, st, d - 1) for x in e[1])
    if op == 'alt':
        return derive(r, g, caps, r.choice(e[1]), st, d - 1)
    if op == 'opt':
        return derive(r, g, caps, e[1], st, d - 1) if r.random() < 0.5 and d > 0 else ''
    if op in ('star', 'plus', 'cnt'):
        n = r.randint(0 if op == 'star' else 1, 3) if d > 0 else (op != 'star')
        return ''.join(derive(r, g, caps, e[1], st, d - 1) for _ in range(n))
    if op in ('and', 'not'):
        return ''
    s = st.get(e[1])
    if op == 'ret':
        if not s:
            v = derive(r, g, caps, g[e[1]], st, d - 1)
            st.setdefault(e[1], []).append(v)
            return v
        return s[-1]
    if s:
        v = s.pop()
        return v if op == 'pop' or r.random() < 0.7 else ''
    return 'a'


def run(ctx):
    r = ctx.rng
    if ctx.chunk == 0:
        probe_known(ctx)
    for gi in range(ctx.n(150, 1000)):
        gen = Gen(r)
        g, caps = gen.grammar()
        zero = any(x[0] == 'optpop' for e in g.values() for x in peg.walk(e))
        src = peg.show_grammar(g)
        ctx.current = src
        try:
            parser = dh.create_parser(src)
        except (dh.DefinitionError, dh.CompilationError) as e:
            ctx.count('grammars rejected')
            codes = {int(x.code) for x in e.errors}
            ctx.current = (src, codes)
            continue
        ctx.count('grammars')
        if gi < 2:
            ctx.sample(src)
        for _ in range(14):
            doc = derive(r, g, caps, ('sym', next(iter(g))), {}, r.choice([5, 8, 11]))[:40]
            if r.random() < 0.4:
                doc = peg.mutate(r, doc, 'abxy,.<>')
            judge(ctx, g, caps, src, parser, doc, zero)


def stack_of(parser, errs):
    for e in errs:
        if int(e.code) in STACK_CODES or 'Capture-stack not empty' in e.message:
            return tuple(sorted((n, int(k)) for n, k in re.findall(r'(\w+) (\d+) items?', e.message)))
    return ()


def judge(ctx, g, caps, src, parser, doc, zero):
    ref = CapRef(g, doc, caps)
    start = next(iter(g))
    try:
        exp = ref.sym(start, 0, ())
    except (TooLong, Unspecified):
        ctx.count('documents skipped')
        return
    w = {'grammar': src, 'document': doc}
    ctx.current = w
    accept = exp is not None and exp[0] == len(doc)
    for f in ref.features:
        ctx.count('documents with ' + f)
    ctx.evaluated((src, doc), bool(ref.features))
    ctx.count('accepted' if accept else 'rejected')

    def go():
        out = []
        for cm in (True, False):
            t = parser(doc, complete_match=cm)
            stack = [e for e in t.errors if 'Capture-stack not empty' in e.message]
            out.append(([e for e in dh.true_errors(t) if e not in stack], stack_of(parser, stack),
                        strip(dh.named_items(t))))
        return out
    ok, res = ctx.guard(go, w)
    if not ok:
        return
    (errs, stack, got), (perrs, pstack, pgot) = res
    if ref.open:        # subject to the known finding 'open-recursion'
        ctx.count('documents with open recursion')
        want = tuple(sorted((n, len(v)) for n, v in exp[2])) if exp else ()
        if accept != (not errs) or accept and (got != exp[1] or stack != want):
            ctx.violation('open-recursion', f'{src}\ndoc={doc!r} reference accepts={accept}, stacks {want}; '
                          f'parser: {[str(e) for e in errs]}, stacks {stack}', w)
        return
    if ref.cyclic:
        ctx.count('documents with closed recursion')
    if ref.zpops > (zero_items(exp[1], set(caps) | {k for k in g if g[k][0] == 'optpop'}) if exp else 0):
        # a zero-length consumption was undone: subject to the known finding
        ctx.count('documents with undone zero-length consumption')
        want = tuple(sorted((n, len(v)) for n, v in exp[2])) if exp else ()
        if accept != (not errs) or (exp is not None) != (not perrs) or \
                exp and not perrs and (pgot != exp[1] or pstack != want):
            ctx.violation('zero-length-undone', f'{src}\ndoc={doc!r} reference {exp}; parser: {[str(e) for e in errs]}, '
                          f'prefix: {pgot}, stacks {pstack}', w)
        return
    if accept != (not errs):
        ctx.violation('acceptance', f'reference accepts={accept} {exp and exp[0]}, errors {[str(e) for e in errs]}'
                      f'\n{src}\ndoc={doc!r}', w)
        return
    if (exp is not None) != (not perrs):
        ctx.violation('prefix-acceptance', f'reference prefix {exp and exp[0]}, errors {[str(e) for e in perrs]}'
                      f'\n{src}\ndoc={doc!r}', w)
        return
    if exp is None:
        return
    want = tuple(sorted((n, len(v)) for n, v in exp[2]))
    for label, (it, stk) in (('full', (got, stack)), ('prefix', (pgot, pstack))):
        if label == 'full' and not accept:
            continue
        ctx.count('final stacks compared')
        if it != exp[1]:
            ctx.violation(label + '-structure', f'expected {exp[1]}\ngot {it}\n{src}\ndoc={doc!r}', w)
            return
        if stk != want:
            ctx.violation(label + '-stack', f'values left on the stacks: expected {want}, got {stk}\n{src}\ndoc={doc!r}', w)
            return


def probe_known(ctx):
    src = '@ literalws = none\nSa = t (:?t "x" | "," ::t)\nt = /[ab]/\n'
    p = dh.create_parser(src)
    if dh.true_errors(p('a,a')):
        ctx.violation('zero-length-undone', f'rejected:\n{src}\na,a', {'grammar': src, 'document': 'a,a'})
    src = '@ literalws = none\nSa = "<" t { Sa | Sm } ">" ::t\nt = /[ab]/\nSm = "." (t t "x")\n'
    p = dh.create_parser(src)
    doc = '<a<b.bax>a>b'
    stack = stack_of(p, p(doc).errors)
    if stack != (('t', 2),):
        ctx.violation('open-recursion', f'values left on the stack: expected 2 (a, b), got {stack}\n{src}\n{doc}',
                      {'grammar': src, 'document': doc})


def zero_items(items, names):
    return sum((s == e) * (n in names) + zero_items(k, names) for n, s, e, k in items)


def strip(items):
    """without the empty marker node to which the error about unconsumed captures is attached"""
    return tuple((n, s, e, strip(k)) for n, s, e, k in items if not (n == 'ZOMBIE__' and s == e))
