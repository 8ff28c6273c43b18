"""Left recursion: operator grammars against an iterative reference evaluator."""
import math
from vt import peg, dh

OPS = list('+-*/%^&|<>') + ['==', '**', '++', '<<', '->', '<=', 'or', 'and']
POST = ['!', '?', '++', "'", '%', '~~']


class Spec:
    """levels[i] = dict(kind, name, alts); last level is the atom."""

    def __init__(self, r):
        self.r = r
        n = r.randint(1, 4)
        self.names = ['expr', 'term', 'factor', 'power'][:n]
        self.levels = []
        ops = OPS[:]
        r.shuffle(ops)
        posts = POST[:]
        r.shuffle(posts)
        forced = r.randrange(n)
        for i in range(n):
            kind = r.choice(['left', 'left', 'left', 'post', 'right', 'prefix', 'left-indirect', 'left-grouped',
                             'mixed', 'post-indirect'])
            if i == forced and kind in ('right', 'prefix'):
                kind = 'left'
            k = r.randint(1, 3)
            lv = {'kind': kind, 'ops': [], 'symops': []}
            if kind in ('left', 'left-indirect', 'left-grouped', 'right', 'prefix', 'mixed'):
                lv['ops'] = [ops.pop() for _ in range(min(k, len(ops)))]
            if kind in ('post', 'mixed', 'post-indirect'):
                lv['post'] = [r.choice(['call', 'index', 'attr', 'op', 'op']) for _ in range(k)]
                lv['post'] = [(p, posts.pop() if posts else '@') if p == 'op' else (p, '') for p in dict.fromkeys(lv['post'])]
                lv['post'] = list(dict.fromkeys(lv['post']))
            self.levels.append(lv)
        self.atoms = r.sample(['num', 'id', 'group', 'num', 'id'], 3)
        self.atoms = list(dict.fromkeys(self.atoms + ['num']))
        self.context = r.choice(['plain', 'plain', 'stmts', 'twice', 'ahead', 'neg'])
        self.base_first = False
        self.shuffle_defs = r.random() < 0.5

    def sub(self, i):
        return self.names[i + 1] if i + 1 < len(self.names) else 'atom'

    def alts(self, i):
        """[(symbol or None, kind, op)] in order, for the left-recursive kinds"""
        lv = self.levels[i]
        out = []
        if lv['kind'] in ('left', 'left-indirect', 'left-grouped', 'mixed'):
            for j, op in enumerate(lv['ops']):
                out.append((f'{self.names[i]}Op{"ABC"[j]}' if lv['kind'] == 'left-indirect' else None, 'bin', op))
        for j, (p, op) in enumerate(lv.get('post', [])):
            out.append((f'{self.names[i]}Post{"ABC"[j]}' if lv['kind'] == 'post-indirect' else None, p, op))
        return out

    def tail(self, i, kind, op):
        if kind == 'bin':
            return f'"{op}" {self.sub(i)}'
        if kind == 'call':
            return '"(" [expr { "," expr }] ")"'
        if kind == 'index':
            return '"[" expr "]"'
        if kind == 'attr':
            return '"." id'
        return f'"{op}"'

    def source(self):
        defs = []
        for i, lv in enumerate(self.levels):
            nm, sub = self.names[i], self.sub(i)
            if lv['kind'] == 'right':
                defs.append(f'{nm} = {sub} ({" | ".join(show(o) for o in lv["ops"])}) {nm} | {sub}')
            elif lv['kind'] == 'prefix':
                defs.append(f'{nm} = ({" | ".join(show(o) for o in lv["ops"])}) {nm} | {sub}')
            elif lv['kind'] == 'left-grouped':
                defs.append(f'{nm} = {nm} ({" | ".join(show(o) for o in lv["ops"])}) {sub} | {sub}')
            else:
                alts, extra = [], []
                for sym, kind, op in self.alts(i):
                    body = f'{nm} {self.tail(i, kind, op)}'
                    if sym:
                        extra.append(f'{sym} = {body}')
                        alts.append(sym)
                    else:
                        alts.append(body)
                defs.append(f'{nm} = {" | ".join(alts + [sub])}')
                defs.extend(extra)
        a = {'num': 'num', 'id': 'id', 'group': '"(" expr ")"'}
        defs.append('atom = ' + ' | '.join(a[x] for x in self.atoms))
        defs.append(r'num = /\d+/')
        if 'id' in self.atoms or self.context == 'stmts' or any(p[0] == 'attr' for l in self.levels for p in l.get('post', [])):
            defs.append('id = /[xyz]+/')
        root = {'plain': 'doc = expr', 'stmts': 'doc = { stmt }+\nstmt = id ":=" expr ";" | expr ";"',
                'twice': 'doc = expr "$" | expr "#" | expr', 'ahead': 'doc = &(expr "#") expr "#" | "#" expr',
                'neg': 'doc = !(expr "#") expr | expr "#" expr'}[self.context]
        # known finding 'definition-order': with named recursive alternatives the order matters
        if self.shuffle_defs and not any('indirect' in lv['kind'] for lv in self.levels):
            self.r.shuffle(defs)
        return '@ literalws = none\n' + root + '\n' + '\n'.join(defs) + '\n'


def show(op):
    return f'"{op}"'


class Iter:
    """Reference: precedence climbing with loops, no recursion at the left."""

    def __init__(self, spec, s):
        self.p, self.s = spec, s
        self.memo = {}

    def ordered(self, ops):
        return sorted_like_dhparser(ops)

    def level(self, i, pos):
        key = (i, pos)
        if key not in self.memo:
            self.memo[key] = self.level0(i, pos)
        return self.memo[key]

    def tok(self, t, pos):
        return pos + len(t) if self.s.startswith(t, pos) else -1

    def word(self, chars, pos):
        e = pos
        while e < len(self.s) and self.s[e] in chars:
            e += 1
        return e if e > pos else -1

    def idn(self, pos):
        e = self.word('xyz', pos)
        return None if e < 0 else (e, ('id', pos, e, ()))

    def atom(self, pos):
        for a in self.p.atoms:
            if a == 'num':
                e = self.word('0123456789', pos)
                if e >= 0:
                    return e, ('atom', pos, e, (('num', pos, e, ()),))
            elif a == 'id':
                r = self.idn(pos)
                if r:
                    return r[0], ('atom', pos, r[0], (r[1],))
            else:
                e = self.tok('(', pos)
                if e >= 0:
                    r = self.level(0, e)
                    if r:
                        f = self.tok(')', r[0])
                        if f >= 0:
                            return f, ('atom', pos, f, (r[1],))
        return None

    def level0(self, i, pos):
        if i >= len(self.p.levels):
            return self.atom(pos)
        lv, nm = self.p.levels[i], self.p.names[i]
        if lv['kind'] == 'right':
            l = self.level(i + 1, pos)
            if not l:
                return None
            for op in self.ordered(lv['ops']):
                e = self.tok(op, l[0])
                if e >= 0:
                    r = self.level(i, e)
                    if r:
                        return r[0], (nm, pos, r[0], (l[1], r[1]))
                    break
            return l[0], (nm, pos, l[0], (l[1],))
        if lv['kind'] == 'prefix':
            for op in self.ordered(lv['ops']):
                e = self.tok(op, pos)
                if e >= 0:
                    r = self.level(i, e)
                    if r:
                        return r[0], (nm, pos, r[0], (r[1],))
                    break
            l = self.level(i + 1, pos)
            return None if not l else (l[0], (nm, pos, l[0], (l[1],)))
        l = self.level(i + 1, pos)
        if not l:
            return None
        end, node = l[0], (nm, pos, l[0], (l[1],))
        while True:
            for sym, kind, op in self.p.alts(i) if lv['kind'] != 'left-grouped' \
                    else [(None, 'bin', o) for o in self.ordered(lv['ops'])]:
                r = self.suffix(i, kind, op, end)
                if r:
                    e, kids = r
                    kids = (node,) + kids
                    if sym:
                        kids = ((sym, pos, e, kids),)
                    end, node = e, (nm, pos, e, kids)
                    break
                if lv['kind'] == 'left-grouped' and self.tok(op, end) >= 0:
                    return end, node        # the group has committed to this operator
            else:
                return end, node

    def suffix(self, i, kind, op, pos):
        if kind == 'bin':
            e = self.tok(op, pos)
            r = self.level(i + 1, e) if e >= 0 else None
            return (r[0], (r[1],)) if r else None
        if kind == 'call':
            e = self.tok('(', pos)
            if e < 0:
                return None
            kids = []
            r = self.level(0, e)
            if r:
                kids.append(r[1])
                e = r[0]
                while True:
                    c = self.tok(',', e)
                    r = self.level(0, c) if c >= 0 else None
                    if not r:
                        break
                    kids.append(r[1])
                    e = r[0]
            e = self.tok(')', e)
            return (e, tuple(kids)) if e >= 0 else None
        if kind == 'index':
            e = self.tok('[', pos)
            r = self.level(0, e) if e >= 0 else None
            e = self.tok(']', r[0]) if r else -1
            return (e, (r[1],)) if e >= 0 else None
        if kind == 'attr':
            e = self.tok('.', pos)
            r = self.idn(e) if e >= 0 else None
            return (r[0], (r[1],)) if r else None
        e = self.tok(op, pos)
        return (e, ()) if e >= 0 else None

    def doc(self):
        """(end, item) of the start symbol or None"""
        s, c = self.s, self.p.context
        E = lambda p: self.level(0, p)
        if c == 'plain':
            r = E(0)
            return r and (r[0], (r[1],))
        if c == 'twice':
            r = E(0)
            if not r:
                return None
            for t in '$#':
                e = self.tok(t, r[0])
                if e >= 0:
                    return e, (r[1],)
            return r[0], (r[1],)
        if c == 'ahead':
            r = E(0)
            if r and self.tok('#', r[0]) >= 0:
                return r[0] + 1, (r[1],)
            e = self.tok('#', 0)
            r = E(e) if e >= 0 else None
            return r and (r[0], (r[1],))
        if c == 'neg':
            r = E(0)
            if not r:
                return None
            if self.tok('#', r[0]) < 0:
                return r[0], (r[1],)
            q = E(r[0] + 1)
            return q and (q[0], (r[1], q[1]))
        pos, kids = 0, []
        while True:
            i = self.idn(pos)
            done = False
            if i:
                e = self.tok(':=', i[0])
                r = E(e) if e >= 0 else None
                f = self.tok(';', r[0]) if r else -1
                if f >= 0:
                    kids.append(('stmt', pos, f, (i[1], r[1])))
                    pos, done = f, True
            if not done:
                r = E(pos)
                f = self.tok(';', r[0]) if r else -1
                if f < 0:
                    break
                kids.append(('stmt', pos, f, (r[1],)))
                pos = f
        return (pos, tuple(kids)) if kids else None


def sorted_like_dhparser(ops):
    """documented: literal alternatives are reordered so that a prefix never precedes"""
    out = []
    for o in ops:
        k = next((i for i, x in enumerate(out) if o.startswith(x)), len(out))
        out.insert(k, o)
    return out


def gen_text(r, p, i, d):
    if i >= len(p.levels):
        a = r.choice(p.atoms) if d > 0 else 'num'
        if a == 'num':
            return r.choice(['1', '2', '34', '0'])
        if a == 'id':
            return r.choice(['x', 'yy', 'z'])
        return '(' + gen_text(r, p, 0, d - 1) + ')'
    lv = p.levels[i]
    if lv['kind'] == 'right':
        return gen_text(r, p, i + 1, d) + ''.join(
            r.choice(lv['ops']) + gen_text(r, p, i + 1, d - 1) for _ in range(r.choice([0, 0, 1, 2])))
    if lv['kind'] == 'prefix':
        return ''.join(r.choice(lv['ops']) for _ in range(r.choice([0, 0, 1, 2]))) + gen_text(r, p, i + 1, d)
    s = gen_text(r, p, i + 1, d)
    # effort is exponential in (alternatives, chain length), see DESIGN.md; keep it moderate
    k = 1 if lv['kind'] == 'left-grouped' else len(p.alts(i))
    cap = 9 if k == 1 else int(math.log(60) / math.log(k))
    for _ in range(min(cap, r.choice([0, 1, 1, 2, 3, 5, 8])) if d > 0 else r.choice([0, 0, 1])):
        sym, kind, op = r.choice(p.alts(i))
        if kind == 'bin':
            s += op + gen_text(r, p, i + 1, d - 1)
        elif kind == 'call':
            s += '(' + ','.join(gen_text(r, p, 0, d - 2) for _ in range(r.choice([0, 1, 2])) if d > 0) + ')'
        elif kind == 'index':
            s += '[' + gen_text(r, p, 0, d - 2) + ']'
        elif kind == 'attr':
            s += '.' + r.choice(['x', 'zy'])
        else:
            s += op
    return s


def gen_doc(r, p):
    t = lambda: gen_text(r, p, 0, r.choice([1, 2, 3]))
    s = {'plain': t, 'twice': lambda: t() + r.choice(['$', '#', '']),
         'ahead': lambda: r.choice([t() + '#', '#' + t(), t()]),
         'neg': lambda: r.choice([t(), t() + '#' + t(), t() + '#']),
         'stmts': lambda: ''.join(r.choice(['x:=', 'y:=', '', '']) + t() + ';' for _ in range(r.randint(1, 3)))}[p.context]()
    if r.random() < 0.3:
        s = peg.mutate(r, s, '+-*/()[].x1;#$!')
    return s[:90]


def run(ctx):
    r = ctx.rng
    if ctx.chunk == 0:
        probe_known(ctx)
    for gi in range(ctx.n(28, 220)):
        p = Spec(r)
        src = p.source()
        run_spec(ctx, p, src, gi)
    for _ in range(ctx.n(10, 60)):
        mutual(ctx)
    for _ in range(ctx.n(2, 8)):
        chains(ctx)


def chains(ctx):
    """Long chains of operators of equal precedence."""
    r = ctx.rng
    # a single recursive reference: see known finding 'exponential-effort' for several of them
    src = r.choice(['E = E `+` T | T\nT = /[0-9]/', 'E = [E (`+`|`-`)] T\nT = /[0-9]/', 'E = A | T\nA = E op T\n'
                    'op = `+`|`-`\nT = /[0-9]/', 'E = E (`+`|`-`) T | T\nT = [T `!`] /[0-9]/'])
    n = r.choice([20, 50, 80, 110])
    s = r.choice('0123456789') + ''.join(r.choice('+-' if '`-`' in src else '+') + r.choice('0123456789') for _ in range(n))
    cut = r.random() < 0.2
    w = {'grammar': src, 'document': s}
    ctx.current = w
    t = dh.create_parser(src)(s + ('+' if cut else ''))
    ctx.count('operator chains of 20 to 110 links')
    ctx.evaluated((src, s, cut), True)
    if bool(dh.true_errors(t)) != cut:
        ctx.violation('acceptance', f'chain of {n} operators: errors {[str(e) for e in t.errors]}\n{src}\n{s}', w)
    elif not cut:
        nd, left = t, 0
        while nd is not None:               # every E begins at 0 and ends one operand earlier
            ends = nd.pos + len(nd.content)
            if nd.pos != 0 or ends != len(s) - 2 * left:
                ctx.violation('grouping', f'chain: E number {left} covers {nd.pos}..{ends}\n{src}\n{s}', w)
                break
            sub = [x for x in nd.select('E') if x.pos == 0]
            nd = sub[0] if sub else None
            left += 1
        if left != n + 1:
            ctx.violation('grouping', f'chain of {n} operators nested {left} deep\n{src}\n{s}', w)


def run_spec(ctx, p, src, gi):
    r = ctx.rng
    ctx.current = src
    ok, parser = ctx.guard(lambda: make(src), src)
    if not ok:
        return
    if parser is None:
        ctx.count('grammars rejected')
        ctx.violation('grammar-rejected', f'valid left-recursive grammar rejected\n{src}', src)
        return
    ctx.count('grammars')
    if gi < 2:
        ctx.sample(src)
    for _ in range(ctx.n(25, 40)):
        s = gen_doc(r, p)
        ref = Iter(p, s).doc()
        exp = None if ref is None else (ref[0], (('doc', 0, ref[0], ref[1]),))
        if compare(ctx, src, parser, s, exp) is False:
            parser = make(src)      # do not go on with an interrupted parser object


def make(src):
    try:
        return dh.create_parser(src)
    except (dh.DefinitionError, dh.CompilationError) as e:
        print(e)
        return None


def depth(items, name):
    return max([0] + [(i[0] == name) + depth(i[3], name) for i in items])


def compare(ctx, src, parser, s, exp):
    w = {'grammar': src, 'document': s}
    ctx.current = w

    def go():
        t = parser(s, complete_match=True)
        u = parser(s, complete_match=False)
        return dh.true_errors(t), dh.named_items(t), dh.true_errors(u), dh.named_items(u)
    if len(s) <= 14:
        ok, res = ctx.guard(go, w)
    else:
        ok, res = ctx.attempt(go, 1.0)
        if not ok:      # known finding 'exponential-effort', no verdict about this document
            ctx.count('longer documents skipped')
    if not ok:
        return False
    errs, got, perrs, pgot = res
    accept = exp is not None and exp[0] == len(s)
    ctx.evaluated((src, s), exp is not None and exp[0] > 1)
    ctx.count('accepted' if accept else 'rejected')
    if exp is not None:
        d = max(depth(exp[1], n) for n in ('expr', 'term', 'factor', 'power', 'A', 'B', 'C'))
        if d >= 3:
            ctx.count('parses with recursion nested 3 or deeper')
    if accept != (not errs):
        ctx.violation('acceptance', f'expected accept={accept}, errors {[str(e) for e in errs]}\n{src}\ndoc={s!r}', w)
    elif accept and got != exp[1]:
        ctx.violation('grouping', f'expected {exp[1]}\ngot {got}\n{src}\ndoc={s!r}', w)
    elif (exp is None) != bool(perrs):
        ctx.violation('prefix-acceptance', f'expected prefix {exp and exp[0]}, errors {[str(e) for e in perrs]}\n{src}\ndoc={s!r}', w)
    elif exp is not None and pgot != exp[1]:
        ctx.violation('prefix-grouping', f'expected {exp[1]}\ngot {pgot}\n{src}\ndoc={s!r}', w)


def mutual(ctx):
    """A0 = A1 x0 | b0;  A1 = A2 x1 | b1; ... cyclic.  Equivalent: base, then suffixes in turn."""
    r = ctx.rng
    n = r.randint(2, 3)
    names = ['A', 'B', 'C'][:n]
    suf = r.sample('uvwxyz', n)
    base = [r.choice('abcd') + (str(i) if r.random() < 0.8 else str(i)) for i in range(n)]
    defs = [f'{names[i]} = {names[(i + 1) % n]} "{suf[i]}" | "{base[i]}"' for i in range(n)]
    order = list(range(1, n))
    src = '@ literalws = none\ndoc = A "." | A\n' + '\n'.join(defs[i] for i in [0] + order) + '\n'
    ok, parser = ctx.guard(lambda: make(src), src)
    if not ok:
        return
    if parser is None:
        ctx.violation('grammar-rejected', f'valid left-recursive grammar rejected\n{src}', src)
        return
    ctx.count('mutually recursive grammars')
    for _ in range(15):
        j = r.randrange(n)
        s = base[j]
        for k in range(r.choice([0, 1, 2, 3, 4, 5, 6, 8, 9])):
            j = (j - 1) % n
            s += suf[j]
        if r.random() < 0.3:
            s += '.'
        if r.random() < 0.2:
            s = peg.mutate(r, s, ''.join(suf) + 'abcd.0')
        exp = mutual_ref(s, n, names, suf, base)
        compare(ctx, src, parser, s, exp)


def mutual_ref(s, n, names, suf, base):
    """left-to-right: base of symbol j, then suffixes of j-1, j-2, ...; the longest prefix
    that ends in symbol A (=0)"""
    for j in range(n):
        if s.startswith(base[j]):
            e = len(base[j])
            node = (names[j], 0, e, ())
            best = (e, node) if j == 0 else None
            k = j
            while True:
                k = (k - 1) % n
                if not s.startswith(suf[k], e):
                    break
                e += 1
                node = (names[k], 0, e, (node,))
                if k == 0:
                    best = (e, node)
            if best is None:
                return None
            e, node = best
            if s.startswith('.', e):
                e += 1
            return e, (('doc', 0, e, (node,)),)
    return None


def probe_known(ctx):
    """The two recorded findings, by their exact inputs."""
    src = '@ literalws = none\ndoc = expr ";"\nexprA = expr ">" atom\nexprB = expr "<" atom\n' \
          'expr = exprA | exprB | atom\natom = /\\w/\n'
    p = make(src)
    if dh.true_errors(p('a>b<c;')):
        ctx.violation('definition-order', f'"a>b<c;" is rejected by\n{src}', src)
    src = '@ literalws = none\ndoc = expr\nexpr = expr "+" term | expr "-" term | term\nterm = /\\d/\n'
    p = make(src)

    def calls(n):
        k = [0]
        import sys
        def prof(frame, event, arg):
            if event == 'call':
                k[0] += 1
        sys.setprofile(prof)
        try:
            p('1' + '-1' * n)
        finally:
            sys.setprofile(None)
        return k[0]
    a, b = calls(6), calls(12)
    ctx.count('calls for 6 operators', a)
    ctx.count('calls for 12 operators', b)
    if b > a * 16:
        ctx.violation('exponential-effort', f'6 operators: {a} calls, 12 operators: {b} calls\n{src}', src)
