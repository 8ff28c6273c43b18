"""Reference semantics for parsing expression grammars, grammar and document generators.

Expressions (tuples):
  ('lit', s) ('rx', pattern) ('any',) ('seq', [e..]) ('alt', [e..]) ('opt', e) ('star', e)
  ('plus', e) ('cnt', e, lo, hi) ('inter', [(e, lo, hi)..]) ('and', e) ('not', e)
  ('lb', e) ('nlb', e) ('sym', name) ('ws',)  explicit insignificant whitespace
  ('ret', name) ('pop', name) ('optpop', name)            (captures: set of names)
A grammar is an (insertion ordered) dict  name -> expression, root first.
"""
import re

INF = 10 ** 6


class Ref:
    """Direct transcription of the PEG semantics; no sharing with the code under test.
    Results: None or (end, items), items = tuple of (name, start, end, items)."""

    def __init__(self, grammar, doc, ws=None):
        self.g, self.doc, self.ws = grammar, doc, re.compile(ws) if ws is not None else None
        self.memo = {}
        self.rx = {}

    def sym(self, name, pos):
        key = (name, pos)
        if key not in self.memo:
            r = self.m(self.g[name], pos)
            self.memo[key] = None if r is None else (r[0], ((name, pos, r[0], r[1]),))
        return self.memo[key]

    def m(self, e, pos):
        op = e[0]
        doc = self.doc
        if op == 'lit':
            return (pos + len(e[1]), ()) if doc.startswith(e[1], pos) else None
        if op == 'ilit':
            return (pos + len(e[1]), ()) if doc[pos:pos + len(e[1])].lower() == e[1].lower() else None
        if op == 'rx':
            rx = self.rx.get(e[1])
            if rx is None:
                rx = self.rx[e[1]] = re.compile(e[1])
            mm = rx.match(doc, pos)
            return (mm.end(), ()) if mm else None
        if op == 'any':
            return (pos + 1, ()) if pos < len(doc) else None
        if op == 'ws':
            mm = self.ws.match(doc, pos)
            return (mm.end(), ()) if mm else (pos, ())
        if op == 'sym':
            return self.sym(e[1], pos)
        if op == 'seq':
            items = ()
            for x in e[1]:
                r = self.m(x, pos)
                if r is None:
                    return None
                pos = r[0]
                items += r[1]
            return pos, items
        if op == 'alt':
            for x in e[1]:
                r = self.m(x, pos)
                if r is not None:
                    return r
            return None
        if op == 'opt':
            r = self.m(e[1], pos)
            return r if r is not None else (pos, ())
        if op in ('star', 'plus', 'cnt'):
            lo, hi = {'star': (0, INF), 'plus': (1, INF)}.get(op, e[2:4])
            items, n = (), 0
            while n < hi:
                r = self.m(e[1], pos)
                if r is None:
                    break
                items += r[1]
                n += 1
                if r[0] == pos:      # an empty match can be repeated at will
                    n = max(n, lo)
                    break
                pos = r[0]
            return (pos, items) if n >= lo else None
        if op == 'inter':
            counts = [0] * len(e[1])
            items = ()
            while True:
                for i, (x, lo, hi) in enumerate(e[1]):
                    if counts[i] < hi:
                        r = self.m(x, pos)
                        if r is not None:
                            counts[i] += 1
                            pos = r[0]
                            items += r[1]
                            break
                else:
                    break
            if all(c >= lo for c, (_, lo, _) in zip(counts, e[1])):
                return pos, items
            return None
        if op == 'and':
            return (pos, ()) if self.m(e[1], pos) is not None else None
        if op == 'not':
            return (pos, ()) if self.m(e[1], pos) is None else None
        if op in ('lb', 'nlb'):      # only single-character arguments are generated
            r = self.m(e[1], pos - 1) if pos > 0 else None
            ok = r is not None and r[0] == pos
            return (pos, ()) if ok == (op == 'lb') else None
        raise ValueError(op)


# --------------------------------------------------------------------------- printing

LEVEL = {'alt': 0, 'seq': 1, 'and': 1.5, 'not': 1.5, 'lb': 1.5, 'nlb': 1.5, 'inter': 2,
         'star': 4, 'plus': 4, 'opt': 4, 'cnt': 3}


def esc_rx(p):
    return p.replace('/', r'\/')


def show(e, need=0):
    """EBNF text of an expression in DHParser's default notation."""
    op = e[0]
    s = show0(e)
    lv = LEVEL.get(op, 5)
    return s if lv >= need else '(' + s + ')'


def card(e, lo, hi):
    if (lo, hi) == (1, 1):
        return show(e, 4)
    if (lo, hi) == (0, 1):
        return '[' + show(e) + ']'
    if (lo, hi) == (0, INF):
        return '{ ' + show(e) + ' }'
    if (lo, hi) == (1, INF):
        return '{ ' + show(e) + ' }+'
    return show(e, 5) + '(%i,%i)' % (lo, hi)


def show0(e):
    op = e[0]
    if op in ('lit', 'ilit'):
        return '"' + e[1] + '"'
    if op == 'rx':
        return '/' + esc_rx(e[1]) + '/'
    if op == 'any':
        return '.'
    if op == 'ws':
        return '~'
    if op == 'sym':
        return e[1]
    if op == 'seq':
        return ' '.join(show(x, 1.2) for x in e[1])
    if op == 'alt':
        return ' | '.join(show(x, 1) for x in e[1])
    if op == 'opt':
        return '[' + show(e[1]) + ']'
    if op == 'star':
        return '{ ' + show(e[1]) + ' }'
    if op == 'plus':
        return '{ ' + show(e[1]) + ' }+'
    if op == 'cnt':
        if e[2] == e[3]:
            return show(e[1], 5) + '*%i' % e[2]
        return show(e[1], 5) + '{%i,%i}' % (e[2], e[3])
    if op == 'inter':
        return ' ° '.join(card(*x) for x in e[1])
    if op in ('and', 'not', 'lb', 'nlb'):
        return {'and': '&', 'not': '!', 'lb': '<-&', 'nlb': '<-!'}[op] + show(e[1], 5)
    if op in ('ret', 'pop', 'optpop'):
        return {'ret': ':', 'pop': '::', 'optpop': ':?'}[op] + e[1]
    raise ValueError(op)


def show_grammar(g, header='@ literalws = none\n'):
    return header + '\n'.join(f'{k} = {show(v)}' for k, v in g.items()) + '\n'


# --------------------------------------------------------------------------- analysis

def children(e):
    op = e[0]
    if op in ('seq', 'alt'):
        return list(e[1])
    if op == 'inter':
        return [x[0] for x in e[1]]
    if op in ('opt', 'star', 'plus', 'cnt', 'and', 'not', 'lb', 'nlb'):
        return [e[1]]
    return []


def walk(e):
    yield e
    for c in children(e):
        yield from walk(c)


def nullable_map(g):
    nul = {k: False for k in g}

    def n(e):
        op = e[0]
        if op in ('lit', 'ilit'):
            return e[1] == ''
        if op == 'rx':
            return re.compile(e[1]).fullmatch('') is not None
        if op == 'any':
            return False
        if op == 'sym':
            return nul[e[1]]
        if op == 'seq':
            return all(n(x) for x in e[1])
        if op == 'alt':
            return any(n(x) for x in e[1])
        if op == 'plus':
            return n(e[1])
        if op == 'cnt':
            return e[2] == 0 or n(e[1])
        if op == 'inter':
            return all(lo == 0 or n(x) for x, lo, hi in e[1])
        if op in ('ret', 'pop', 'optpop'):
            return True
        return True
    changed = True
    while changed:
        changed = False
        for k, e in g.items():
            if not nul[k] and n(e):
                nul[k] = changed = True
    return nul, n


def left_refs(g):
    """symbol -> symbols reachable without consuming anything first"""
    nul, n = nullable_map(g)

    def first(e):
        op = e[0]
        if op in ('sym', 'ret', 'pop', 'optpop'):
            return {e[1]}
        if op == 'seq':
            out = set()
            for x in e[1]:
                out |= first(x)
                if not n(x):
                    break
            return out
        if op in ('lit', 'ilit', 'rx', 'any', 'ws'):
            return set()
        out = set()
        for c in children(e):
            out |= first(c)
        return out
    return {k: first(e) for k, e in g.items()}


def is_left_recursive(g):
    lr = left_refs(g)
    for k in g:
        seen, todo = set(), list(lr[k])
        while todo:
            x = todo.pop()
            if x == k:
                return True
            if x not in seen:
                seen.add(x)
                todo.extend(lr[x])
    return False


def order_alternatives(g, e):
    """Removes what DHParser's static checks reject or (with a warning) reorder: literal
    alternatives of which an earlier one is a prefix of a later one, optional
    alternatives before the last one."""
    op = e[0]
    if op in ('seq', 'alt'):
        xs = [order_alternatives(g, x) for x in e[1]]
        if op == 'alt':
            out, seen = [], []
            nul, n = nullable_map(g)
            for i, x in enumerate(xs):
                t, hops = x, set()
                while t[0] == 'sym':
                    if t[1] not in g or t[1] in hops:
                        t = ('any',)
                    else:
                        hops.add(t[1])
                        t = g[t[1]]
                if t[0] in ('lit', 'ilit'):
                    if any(t[1].startswith(s) for s in seen):
                        continue
                    seen.append(t[1])
                if x in out:
                    continue
                if t[0] in ('opt', 'star', 'ws') or t[0] == 'cnt' and t[2] == 0 or n(x):
                    if i < len(xs) - 1:
                        continue
                out.append(x)
            if len(out) == 1:
                return out[0]
            if not out:
                return xs[-1]
            return ('alt', out)
        return (op, xs)
    if op == 'inter':
        return (op, [(order_alternatives(g, x), lo, hi) for x, lo, hi in e[1]])
    if op in ('opt', 'star', 'plus', 'cnt', 'and', 'not'):
        x = order_alternatives(g, e[1])
        while op in ('opt', 'star', 'plus', 'cnt') and x[0] in ('opt', 'star', 'plus', 'cnt'):
            x = x[1]
        return (op, x) + tuple(e[2:])
    return e


def reachable(g):
    root = next(iter(g))
    seen, todo = {root}, [root]
    while todo:
        for x in walk(g[todo.pop()]):
            if x[0] in ('sym', 'ret', 'pop', 'optpop') and x[1] not in seen:
                seen.add(x[1])
                todo.append(x[1])
    return seen


# --------------------------------------------------------------------------- generation

LITS = ['a', 'b', 'c', 'ab', 'ba', 'abc', 'bb', 'cc', 'd', 'aa', '(', ')', '+', '*', '[', '=', '.']
RXS = ['a', '[ab]', '[^c]', 'a+', '[bc]+', 'ab?', 'a*', '(?:ab|b)', 'c|ab', '[a-c]{2}', 'b+c?',
       r'\w', r'[+*]', 'd*', r'(?:a|b)*c', r'\(', '[^()]', 'a?b', r'\d+|a', 'x?', 'ä|b']


class GrammarGen:
    def __init__(self, rng, nsym=(2, 6), lookaround=True, interleave=True, counted=True,
                 nullable_loops=True, lits=LITS, rxs=RXS, anychar=True, ws=False):
        self.rng, self.nsym = rng, nsym
        self.lookaround, self.interleave, self.counted = lookaround, interleave, counted
        self.nullable_loops = nullable_loops
        self.lits, self.rxs, self.anychar, self.ws = lits, rxs, anychar, ws

    def leaf(self):
        r = self.rng
        k = r.random()
        if k < 0.45:
            return ('lit', r.choice(self.lits))
        if k < 0.68 and self.rxs:
            return ('rx', r.choice(self.rxs))
        if k < 0.70 and self.anychar:
            return ('any',)
        if k < 0.74 and self.ws:
            return ('ws',)
        if self.names:
            return ('sym', r.choice(self.names))
        return ('lit', r.choice(self.lits))

    def expr(self, d):
        r = self.rng
        if d <= 0:
            return self.leaf()
        k = r.random()
        if k < 0.30:
            return ('seq', [self.elem(d - 1) for _ in range(r.randint(2, 4))])
        if k < 0.50:
            return ('alt', [self.expr(d - 1) for _ in range(r.randint(2, 4))])
        return self.elem(d)

    def elem(self, d):
        r = self.rng
        if d <= 0:
            return self.leaf()
        k = r.random()
        if k < 0.10:
            return ('opt', self.solid(d - 1))
        if k < 0.24:
            return ('star', self.solid(d - 1))
        if k < 0.34:
            return ('plus', self.solid(d - 1))
        if k < 0.40 and self.counted:
            lo = r.randint(0, 2)
            hi = lo + r.randint(0, 2)
            if hi <= 1:
                hi = 2
            return ('cnt', self.solid(d - 1), lo, hi)
        if k < 0.46 and self.interleave:
            ls = r.sample('abcd(+', r.randint(2, 3))
            items = []
            for ch in ls:
                lo, hi = r.choice([(1, 1), (1, 1), (0, 1), (0, INF), (1, INF)])
                rest = r.choice(['', '', 'a', 'b', 'c'])
                x = ('lit', ch + rest)
                if r.random() < 0.25:
                    x = ('seq', [('lit', ch), self.elem(0)])
                items.append((x, lo, hi))
            return ('inter', items)
        if k < 0.53 and self.lookaround:
            return (r.choice(['and', 'not']), self.solid(d - 1))
        if k < 0.56 and self.lookaround:
            return (r.choice(['lb', 'nlb']), r.choice([('rx', r.choice('abc')), ('rx', r.choice(['[ab]', '[^c]', 'c']))]))
        if k < 0.72:
            return self.expr(d - 1)
        return self.leaf()

    def solid(self, d):
        """an expression that is not itself optional (DHParser rejects such nesting)"""
        for _ in range(20):
            e = self.expr(d)
            if e[0] in ('opt', 'star', 'plus', 'and', 'not', 'lb', 'nlb', 'ws'):
                continue
            if e[0] == 'cnt' and e[2] == 0 or e[0] == 'inter' and all(x[1] == 0 for x in e[1]):
                continue
            return e
        return ('lit', self.rng.choice(self.lits))

    def grammar(self, depth=3):
        """A grammar without left recursion in which every symbol is reachable."""
        r = self.rng
        for _ in range(200):
            n = r.randint(*self.nsym)
            self.names = ['S%s' % 'abcdefghij'[i] for i in range(n)]
            allnames = self.names
            g = {}
            for i, nm in enumerate(allnames):
                # mostly forward references, sometimes recursion
                self.names = allnames[i + 1:] + (allnames[:i + 1] if r.random() < 0.3 else [])
                g[nm] = self.expr(depth if r.random() < 0.8 else 1)
            if is_left_recursive(g):
                continue
            g = {k: order_alternatives(g, v) for k, v in g.items()}
            keep = reachable(g)
            g = {k: v for k, v in g.items() if k in keep}
            if is_left_recursive(g):
                continue
            if len(g) < 2 and r.random() < 0.8:
                continue
            if not self.nullable_loops:
                nul, nn = nullable_map(g)
                if any(x[0] in ('star', 'plus', 'cnt') and nn(x[1]) or
                       x[0] == 'inter' and any(nn(y[0]) for y in x[1])
                       for e in g.values() for x in walk(e)):
                    continue
            else:
                nul, nn = nullable_map(g)
                if any((x[0] == 'cnt' and nn(x[1])) or
                       x[0] == 'inter' and any(nn(y[0]) for y in x[1])
                       for e in g.values() for x in walk(e)):
                    continue
            return g
        return {'Sa': ('star', ('lit', 'a'))}


def rx_sample(rng, p):
    """A string that matches p (tries random short strings)."""
    rx = re.compile(p)
    for _ in range(30):
        s = ''.join(rng.choice('abcd()+*x1 ') for _ in range(rng.randint(0, 3)))
        if rx.fullmatch(s):
            return s
    return rng.choice('abc')


def derive(rng, g, e, depth=8, wsgen=None):
    """A random string derived from e, ignoring predicates and the order of choice."""
    op = e[0]
    if op == 'lit':
        return e[1]
    if op == 'ilit':
        return ''.join(rng.choice([c.lower(), c.upper()]) for c in e[1])
    if op == 'rx':
        return rx_sample(rng, e[1])
    if op == 'any':
        return rng.choice('abc(')
    if op == 'ws':
        return wsgen() if wsgen else ''
    if op == 'sym':
        return derive(rng, g, g[e[1]], depth - 1, wsgen) if depth > 0 else ''
    if op == 'seq':
        return ''.join(derive(rng, g, x, depth - 1, wsgen) for x in e[1])
    if op == 'alt':
        return derive(rng, g, rng.choice(e[1]), depth - 1, wsgen)
    if op == 'opt':
        return derive(rng, g, e[1], depth - 1, wsgen) if depth > 0 and rng.random() < 0.5 else ''
    if op in ('star', 'plus', 'cnt'):
        lo, hi = {'star': (0, 3), 'plus': (1, 3)}.get(op, e[2:4])
        n = rng.randint(lo, hi) if depth > 0 else lo
        return ''.join(derive(rng, g, e[1], depth - 1, wsgen) for _ in range(n))
    if op == 'inter':
        parts = []
        for x, lo, hi in e[1]:
            for _ in range(rng.randint(lo, min(hi, lo + 2))):
                parts.append(derive(rng, g, x, depth - 1, wsgen))
        rng.shuffle(parts)
        return ''.join(parts)
    return ''


def mutate(rng, s, alphabet='abcd()+*=.[x'):
    s = list(s)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        k = rng.random()
        i = rng.randint(0, len(s))
        if k < 0.35 and s:
            del s[min(i, len(s) - 1)]
        elif k < 0.7:
            s.insert(i, rng.choice(alphabet))
        elif k < 0.85 and s:
            s[min(i, len(s) - 1)] = rng.choice(alphabet)
        else:
            s = s[:i] + s[max(0, i - 3):i] + s[i:]
    return ''.join(s)


def documents(rng, g, n, maxlen=40, alphabet='abcd()+*=.[x', wsgen=None):
    root = next(iter(g))
    docs = []
    for _ in range(n):
        k = rng.random()
        s = derive(rng, g, ('sym', root), rng.choice([4, 7, 10]), wsgen)
        if k < 0.35:
            s = mutate(rng, s, alphabet)
        elif k < 0.45:
            s = ''.join(rng.choice(alphabet) for _ in range(rng.randint(0, 8)))
        docs.append(s[:maxlen])
    return docs
