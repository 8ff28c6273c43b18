"""P09: mandatory items, custom messages, skip- and resume-rules vs a reference interpreter with exceptions."""
import re
from vt import dh, peg
from DHParser.error import is_error, MANDATORY_CONTINUATION, PARSER_STOPPED_BEFORE_END
from DHParser.parse import reentry_point, Grammar
from DHParser.stringview import StringView
from DHParser.ebnf import DIRECTIVE_FOR_NONEXISTANT_SYMBOL


class Violation(Exception):
    def __init__(self, loc, start, items):
        self.loc, self.start, self.items = loc, start, items


class Ref:
    """Items are (name, start, end, items); results None or (end, items)."""

    def __init__(self, g, dirs, doc, comment, ws, start):
        self.g, self.dirs, self.doc, self.start = g, dirs, doc, start
        self.comments = [m.span() for m in re.finditer(comment, doc)] if comment else []
        self.comment = re.compile(comment) if comment else None
        self.ws = re.compile(ws)
        self.memo, self.errors, self.skipped = {}, {}, []
        self.msgs, self.resumed, self.straddling, self.interleaves = 0, 0, False, 0

    def run(self):
        return self.sym(self.start, 0)

    def sym(self, name, pos):
        key = name, pos
        if key not in self.memo:
            r = self.call(self.g[name], pos, name, name)
            self.memo[key] = None if r is None else (r[0], ((name, pos, r[0], r[1]),))
        return self.memo[key]

    def call(self, e, pos, sym, name=None):
        if e[0] == 'sym' and name is None:
            return self.sym(e[1], pos)
        try:
            return self.m(e, pos, sym)
        except Violation as v:
            i = self.reentry(v.loc, self.dirs['resume'].get(sym, []), 'resume')
            if i >= 0 or name == self.start:
                i = max(i, 0)
                self.resumed += 1
                return v.loc + i, v.items
            raise Violation(v.loc, pos, ((name, pos, v.loc, v.items),) if name else v.items)

    def reentry(self, pos, rules, kind):
        best = -1
        for rule in rules:
            end = -1
            if rule[0] == 'rxrule':
                p = pos
                comments = [m.span() for m in self.comment.finditer(self.doc, pos)] if self.comment else []
                while p <= len(self.doc):
                    m = re.compile(rule[1]).search(self.doc, p)
                    if not m:
                        break
                    inside = [b for a, b in comments if a < m.end() < b]
                    if not inside:
                        end = m.end()
                        self.straddling |= any(a < m.start() < b for a, b in comments)
                        break
                    p = inside[0]
            else:
                r = self.m(rule[1], pos, None)
                if r is not None:
                    end = r[0]
            if end >= 0 and (best < 0 or end - pos < best):
                best = end - pos
        if best >= 0:
            self.skipped.append((pos, pos + best, kind))
        return best

    def violated(self, pos, sym):
        code, msg = 1010, None
        for cond, text in self.dirs['error'].get(sym, []):
            if cond is None or (cond[0] == 'lit' and self.doc.startswith(cond[1], pos)) \
                    or (cond[0] == 'rx' and re.compile(cond[1]).match(self.doc, pos)):
                m = re.match(r'(\d+):(.*)', text)
                code, msg = (int(m.group(1)), m.group(2)) if m else (1010, text)
                self.msgs += 1
                break
        self.errors.setdefault((pos, code), msg if msg is not None else ('expected by', sym))

    def m(self, e, pos, sym):
        op, doc = e[0], self.doc
        if op == 'lit':
            return (pos + len(e[1]), ()) if doc.startswith(e[1], pos) else None
        if op == 'rx':
            m = re.compile(e[1]).match(doc, pos)
            return (m.end(), ()) if m else None
        if op == 'ws':
            return self.ws.match(doc, pos).end(), ()
        if op == 'sym':
            return self.sym(e[1], pos)
        if op in ('seq', 'mseq'):
            items, start = (), pos
            m = e[2] if op == 'mseq' else 10**6
            for i, x in enumerate(e[1]):
                r = self.call(x, pos, sym)
                if r is None:
                    if i < m:
                        return None
                    reloc = self.reentry(pos, self.dirs['skip'].get(sym, []), 'skip')
                    self.violated(pos, sym)
                    if reloc < 0:
                        raise Violation(pos, start, items)
                    pos += reloc
                    r = self.call(x, pos, sym)
                    if r is None:
                        continue
                pos = r[0]
                items += r[1]
            return pos, items
        if op == 'minter':
            items, start, left = (), pos, list(range(len(e[1])))
            while left:
                for i in left:
                    r = self.call(e[1][i], pos, sym)
                    if r is not None:
                        left.remove(i)
                        pos = r[0]
                        items += r[1]
                        break
                else:
                    if any(i < e[2] for i in left):
                        return None
                    self.violated(pos, sym)
                    self.interleaves += pos > start
                    raise Violation(pos, start, items)
            return pos, items
        if op == 'alt':
            for x in e[1]:
                r = self.call(x, pos, sym)
                if r is not None:
                    return r
            return None
        if op in ('and', 'not'):
            r = self.call(e[1], pos, sym)
            return (pos, ()) if (r is not None) == (op == 'and') else None
        if op == 'opt':
            return self.call(e[1], pos, sym) or (pos, ())
        if op in ('star', 'plus'):
            items, n = (), 0
            while True:
                r = self.call(e[1], pos, sym)
                if r is None:
                    break
                n += 1
                items += r[1]
                if r[0] == pos:
                    break
                pos = r[0]
            return (pos, items) if n or op == 'star' else None
        raise ValueError(op)


# ------------------------------------------------------------------------------------------ generation

CH = 'abcxy;,()[]<>.'


class Gen:
    def __init__(self, r):
        self.r = r
        self.n = r.randint(2, 5)
        self.names = ['S' + 'abcdefg'[i] for i in range(self.n)]

    def leaf(self):
        r = self.r
        return r.choice([('lit', r.choice('abcxy')), ('lit', r.choice(CH)), ('rx', r.choice(['[abc]+', '[a-z]', 'x+', '[^;)]', 'ab?'])),
                         ('lit', r.choice(['ab', '<<', 'xy']))])

    def part(self, i, depth=1):
        """an element of a sequence in the definition of the i-th symbol"""
        r = self.r
        k = r.random()
        if k < 0.4 and i + 1 < self.n:
            return ('sym', self.names[r.randint(i + 1, self.n - 1)])
        if k < 0.55 or depth <= 0:
            return self.leaf()
        if k < 0.6 and i >= 1:
            return ('sym', self.names[r.randint(1, self.n - 1)])        # recursive; definitions begin with a literal
        op = r.choice(['star', 'plus', 'opt', 'alt', 'star', 'la', 'ws'])
        if op == 'ws':
            return ('ws',)
        if op == 'la':
            return (r.choice(['and', 'not']), self.leaf())
        if op == 'alt':
            return ('alt', [self.alt_item(i, depth) for _ in range(r.randint(2, 3))])
        body = r.choice([lambda: self.alt_item(i, depth), lambda: ('seq', [self.leaf(), self.part(i, depth - 1)]),
                         lambda: ('alt', [self.alt_item(i, depth), self.leaf()])])()
        return (op, body)

    def alt_item(self, i, depth):
        r = self.r
        return ('sym', self.names[r.randint(i + 1, self.n - 1)]) if i + 1 < self.n and r.random() < 0.6 else self.leaf()

    def grammar(self):
        r = self.r
        g = {}
        mand = []
        for i, name in enumerate(self.names):
            head = ('lit', r.choice(CH)) if i or r.random() < 0.5 else None
            parts = [self.part(i) for _ in range(r.randint(1 if head else 2, 4))]
            items = ([head] if head else []) + parts
            k = r.random()
            if k < 0.12:
                elems = [self.leaf() if r.random() < 0.6 or i + 1 >= self.n else ('sym', self.names[r.randint(i + 1, self.n - 1)])
                         for _ in range(r.randint(2, 4))]
                inter = ('minter', elems, r.choice([1, 1, 2]) if len(elems) > 2 else 1)
                g[name] = ('seq', ([head] if head else []) + [inter] + ([self.leaf()] if r.random() < 0.5 else []))
                if len(g[name][1]) == 1:
                    g[name] = inter
                mand.append(name)
            elif k < 0.68 and len(items) > 1:
                # in the symbol's own sequence
                at = r.randint(1, len(items) - 1)
                if items[at][0] in ('and', 'not'):
                    items[at] = self.leaf()
                items = [x if j < at or x[0] not in ('and', 'not') else self.leaf() for j, x in enumerate(items)]
                g[name] = ('mseq', items, at)
                mand.append(name)
            elif k < 0.85:
                # in a nested sequence: a comma-separated list or the like
                inner = [('lit', r.choice(',.;')), self.part(i, 0)] + ([self.leaf()] if r.random() < 0.4 else [])
                g[name] = ('seq', items + [('star', ('mseq', inner, 1))])
                mand.append(name)
            else:
                g[name] = ('seq', items) if len(items) > 1 else items[0]
                if i == 0:
                    g[name] = ('star', ('alt', [self.alt_item(0, 0), ('seq', [self.leaf(), self.part(0, 0)])]))
        g = {k: self.fix(g, v) for k, v in g.items()}
        if peg.is_left_recursive({k: self.plain(v) for k, v in g.items()}):
            return self.__class__(r).grammar()
        used = peg.reachable({k: self.plain(v) for k, v in g.items()})
        g = {k: v for k, v in g.items() if k in used}
        mand = [n for n in mand if n in g and any(x[0] == 'mseq' for x in self.walk(g[n]))]
        dirs = {'skip': {}, 'resume': {}, 'error': {}}
        for n in g:
            if n in mand and r.random() < 0.35 and not any(x[0] == 'minter' for x in self.walk(g[n])):
                dirs['skip'][n] = [self.rule(g) for _ in range(r.choice([1, 1, 2, 3]))]
            if r.random() < 0.4:
                dirs['resume'][n] = [self.rule(g) for _ in range(r.choice([1, 1, 2, 3]))]
            if n in mand and r.random() < 0.4:
                dirs['error'][n] = [(self.cond(), r.choice(['', '', '', '2010:']) + f'{n} message {j}') for j in range(r.randint(1, 3))]
        return g, dirs

    def walk(self, e):
        yield e
        for c in (e[1] if e[0] in ('seq', 'mseq', 'minter', 'alt') else [e[1]] if e[0] in ('star', 'plus', 'opt', 'and', 'not') else []):
            yield from self.walk(c)

    def plain(self, e):
        if e[0] in ('mseq', 'minter'):
            return ('seq', [self.plain(x) for x in e[1]])
        if e[0] in ('seq', 'alt'):
            return (e[0], [self.plain(x) for x in e[1]])
        if e[0] in ('star', 'plus', 'opt', 'and', 'not'):
            return (e[0], self.plain(e[1]))
        return e

    def fix(self, g, e):
        """Alternatives without literal prefix conflicts, no directly nested repetitions."""
        if e[0] == 'mseq':
            return ('mseq', [self.fix(g, x) for x in e[1]], e[2])
        if e[0] == 'minter':
            return e
        if e[0] == 'seq':
            return ('seq', [self.fix(g, x) for x in e[1]])
        if e[0] == 'alt':
            pg = {k: self.plain(v) for k, v in g.items()}
            e = peg.order_alternatives(pg, self.plain(e)) if all(x[0] in ('sym', 'lit', 'rx') for x in e[1]) else e
            return e
        if e[0] in ('star', 'plus', 'opt'):
            x = self.fix(g, e[1])
            return (e[0], x)
        return e

    def rule(self, g):
        r = self.r
        if r.random() < 0.2:
            x = r.choice([('seq', [('star', ('rx', '[^;]')), ('lit', ';')]), ('seq', [('rx', '[^x]*'), ('and', ('lit', 'x'))]),
                          ('alt', [('lit', ';'), ('lit', ')'), ('rx', '[ab]+')]), ('star', ('alt', [('rx', '[^();]'), ('lit', '(')])),
                          ('seq', [('opt', ('lit', ';')), ('rx', '.')])])
            return ('pegrule', x)
        return ('rxrule', r.choice([';', '(?=;)', '(?=[)\\]])', r'\)', ',', '(?=,)', '$', ';|$', 'x', '(?=x)', '[abc]', '(?=[abc])', 'x*',
                                    '(?<=;)', '[^;]*;', '.', 'y', 'zz', '(?=\\()', '#', "'", '\x27', '"', 'LIT;', 'LIT)', "LIT'", 'LITx', 'LIT.']))

    def cond(self):
        r = self.r
        return r.choice([None, ('rx', '[abc]'), ('rx', '(?=;)'), ('lit', ')'), ('lit', 'x'), ('rx', '$'), ('rx', r'\W'), ('lit', "'"), ('lit', 'a')])


def quote(s):
    return f'"{s}"'


def show_rule(rule):
    if rule[0] == 'pegrule':
        return '(' + peg.show(rule[1]) + ')'
    if rule[1].startswith('LIT'):
        return quote(rule[1][3:])
    return '/' + rule[1].replace('/', r'\/') + '/'


def norm_rule(rule):
    """A literal search rule stands for the place in front of the literal (see generated code and manual)."""
    if rule[0] == 'rxrule' and rule[1].startswith('LIT'):
        return ('rxrule', '(?=' + re.escape(rule[1][3:]) + ')')
    return rule


def show_cond(c):
    return "''" if c is None else quote(c[1]) if c[0] == 'lit' else '/' + c[1] + '/'


def source(g, dirs, reduction, comment, r):
    out = ['@ literalws = none', '@ whitespace = /[ ]*/', '@ reduction = ' + reduction]
    if comment:
        out.append('@ comment = /' + comment + '/')
    lines = []
    for n, e in g.items():
        for kind in ('skip', 'resume'):
            if n in dirs[kind]:
                lines.append(f'@ {n}_{kind} = ' + ', '.join(show_rule(x) for x in dirs[kind][n]))
        for cond, text in dirs['error'].get(n, []):
            lines.append(f'@ {n}_error = {show_cond(cond)}, "{text}"')
        lines.append(f'{n} = {show(e)}')
    return '\n'.join(out + lines) + '\n'


def show(e, need=0):
    if e[0] == 'mseq':
        s = ' '.join(('§' if i == e[2] else '') + show(x, 1.2) for i, x in enumerate(e[1]))
        return s if need <= 1 else '(' + s + ')'
    if e[0] == 'minter':
        return '(' + ' ° '.join(('§' if i == e[2] else '') + show(x, 1.2) for i, x in enumerate(e[1])) + ')'
    if e[0] == 'seq':
        s = ' '.join(show(x, 1.2) for x in e[1])
        return s if need <= 1 else '(' + s + ')'
    if e[0] == 'alt':
        s = ' | '.join(show(x, 1) for x in e[1])
        return s if need <= 0 else '(' + s + ')'
    if e[0] in ('star', 'plus', 'opt'):
        a, b = {'star': ('{ ', ' }'), 'plus': ('{ ', ' }+'), 'opt': ('[', ']')}[e[0]]
        return a + show(e[1]) + b
    return peg.show(e, need)


def plain(e):
    return Gen.plain(None, e) if False else _plain(e)


def _plain(e):
    if e[0] in ('mseq', 'minter', 'seq'):
        return ('seq', [_plain(x) for x in e[1]])
    if e[0] == 'alt':
        return ('alt', [_plain(x) for x in e[1]])
    if e[0] in ('star', 'plus', 'opt', 'and', 'not'):
        return (e[0], _plain(e[1]))
    return e


# ------------------------------------------------------------------------------------------ judging

def is_artifact(name):
    return name.endswith('__') and ('_skip_' in name or '_resume_' in name or name == 'ZOMBIE__')


def items_of(root):
    """named nodes outside of skipped passages"""
    def items(nd, top=False):
        if is_artifact(nd.name) and not top:
            return ()
        kids = tuple(x for c in nd.children for x in items(c))
        if nd.name[:1] == ':' or top and is_artifact(nd.name):
            return kids
        end = nd.pos + len(nd.content)
        return ((nd.name, nd.pos, (end, end - trailing(nd)), kids),)
    return items(root, True)


def trailing(nd):
    """length of the passage skipped by resumption at the end of the node: the tree may keep it in the node that
    failed or in the one that resumed"""
    while nd.children:
        nd = nd.children[-1]
        if is_artifact(nd.name) and '_skip_' not in nd.name:
            return len(nd.content)
    return 0


def same_items(have, want):
    return len(have) == len(want) and all(h[:2] == w[:2] and w[2] in h[2] and same_items(h[3], w[3]) for h, w in zip(have, want))


def run(ctx):
    r = ctx.rng
    for gi in range(ctx.n(260, 2000)):
        grammar(ctx, gi)
    for _ in range(ctx.n(800, 8000)):
        search(ctx)
    for _ in range(ctx.n(8, 80)):
        broken_recovery(ctx)


def broken_recovery(ctx):
    """recovery rules that are violated themselves count as not found, are reported and leave the other rules in effect"""
    r = ctx.rng
    rules = r.sample([('(/[^;]*/ § ";")', ';', True), ('(/[^|]*/ § "|")', '|', True), ('(upto § "!")', '!', True),
                      ('(/[^;]*;/)', ';', False), ('(/[^|]*[|]/)', '|', False), ('/[!]/', '!', False), ('/[|]/', '|', False)], r.choice([1, 2, 2, 3]))
    src = ('@ whitespace = /[ ]*/\n@ literalws = none\n@ disposable = end\n@ stmt_resume = ' + ', '.join(x[0] for x in rules)
           + '\ndoc = { stmt }+\nstmt = key § "=" val end\nkey = /[a-c]/\nval = /[0-9]/\nend = /[;|!]/\nupto = /[^!]*/\n')
    ctx.current = src
    ok, parser = ctx.guard(lambda: dh.create_parser(src), src)
    if not ok:
        return
    if r.random() < 0.5:
        from DHParser.trace import trace_history, set_tracer
        set_tracer(parser, trace_history)
    for _ in range(12):
        doc = ''.join(r.choice(['a=1;', 'b=2|', 'c=3!', 'a=;', 'b7|', 'c=4', 'a', 'b=', 'c?!', 'a==1']) for _ in range(r.randint(1, 6)))
        w = {'grammar': src, 'document': doc}
        ctx.current = w
        found, broken, i, good = [], [], 0, 0
        while i < len(doc) and doc[i] in 'abc':
            p = i + 1
            for cl in ('=', '0123456789', ';|!'):
                if p < len(doc) and doc[p] in cl:
                    p += 1
                else:
                    break
            else:
                i, good = p, good + 1
                continue
            found.append(p)
            ends = []
            for _, c, strict in rules:
                k = doc.find(c, p)
                if k >= 0:
                    ends.append(k + 1)
                elif strict:
                    broken.append(p)
            if not ends:
                i = -1
                break
            i = min(ends)
        ok, tree = ctx.guard(lambda: parser(doc, complete_match=True), w)
        if not ok:
            continue
        have = sorted({e.pos for e in tree.errors if e.code in (1010, 1015)})
        bad = sorted({e.pos for e in tree.errors if e.code == 1301})
        ctx.evaluated((src, doc), bool(found))
        ctx.count('documents with violated recovery rules', bool(broken))
        if bad != sorted(set(broken)):
            ctx.violation('recovery-violated', f'violated recovery rules reported at {bad}, expected {sorted(set(broken))}\n{doc!r}\n{src}\n{tree.as_sxpr()}', w)
        elif not set(found) <= set(have):
            ctx.violation('recovery-violated', f'errors at {have}, expected {found}\n{doc!r}\n{src}\n{tree.as_sxpr()}', w)
        elif i >= 0 and sum(1 for n in tree.select('stmt') if n.pick('val') and n.content[-1] in ';|!' and not n.pick('ZOMBIE__')) < good:
            ctx.violation('recovery-violated', f'fewer than {good} statements found\n{doc!r}\n{src}\n{tree.as_sxpr()}', w)
        elif not doc.startswith(tree.content) or len(tree.content) != len(doc):
            ctx.violation('recovery-violated', f'content {tree.content!r} instead of {doc!r}\n{src}\n{tree.as_sxpr()}', w)


def grammar(ctx, gi):
    r = ctx.rng
    g, dirs = Gen(r).grammar()
    comment = '#[^#]*#' if r.random() < 0.3 else None
    ws = '[ ]*(?:#[^#]*#[ ]*)*' if comment else '[ ]*'
    reduction = r.choice(['none', 'none', 'flatten', 'merge_treetops', 'merge'])
    src = source(g, dirs, reduction, comment, r)
    dirs = dict(dirs, skip={k: [norm_rule(x) for x in v] for k, v in dirs['skip'].items()},
                resume={k: [norm_rule(x) for x in v] for k, v in dirs['resume'].items()})
    ctx.current = src

    def make():
        try:
            return dh.create_parser(src)
        except (dh.DefinitionError, dh.CompilationError) as e:
            ctx.count('grammars rejected by static checks')
            bad = [x for x in e.errors if is_error(x.code) and x.code not in STATIC]
            if bad:
                ctx.violation('rejected', f'{[str(x) for x in bad]}\n{src}', {'grammar': src})
            return None
    ok, parser = ctx.guard(make, src)
    if not ok or parser is None:
        return
    ctx.count('grammars')
    if gi < 2:
        ctx.sample(src)
    start = next(iter(g))
    pg = {k: plain(v) for k, v in g.items()}
    docs = []
    for _ in range(ctx.n(10, 12)):
        d = peg.derive(r, pg, ('sym', start), r.choice([5, 7, 9]))[:60].replace('\n', '')
        if r.random() < 0.3:
            d += r.choice(['', ';']) + peg.derive(r, pg, ('sym', r.choice(list(g))), 6)[:30]
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            d = peg.mutate(r, d, CH)
        if comment and d and r.random() < 0.6:
            for _ in range(r.choice([1, 2])):
                i = r.randint(0, len(d))
                d = d[:i] + '#' + r.choice(['', ';', ');', 'abc', 'x,']) + '#' + d[i:]
        docs.append(d)
    for doc in docs:
        judge(ctx, parser, g, dirs, src, start, doc, comment, ws)


from DHParser.error import BADLY_NESTED_OPTIONAL_PARSER, BAD_ORDER_OF_ALTERNATIVES
STATIC = {BADLY_NESTED_OPTIONAL_PARSER, BAD_ORDER_OF_ALTERNATIVES}


def judge(ctx, parser, g, dirs, src, start, doc, comment, ws):
    w = {'grammar': src, 'document': doc}
    ctx.current = w
    ref = Ref(g, dirs, doc, comment, ws, start)
    try:
        res = ref.run()
    except RecursionError:
        return
    if ref.straddling:              # match begins, but does not end inside a comment
        ctx.count('documents set aside')
        return
    ok, tree = ctx.guard(lambda: parser(doc, complete_match=True), w)
    if not ok:
        return
    errs = [e for e in tree.errors if is_error(e.code)]
    complete = res is not None and res[0] == len(doc)
    ctx.evaluated((src, doc), bool(ref.errors) or res is not None and res[0] > 0)
    ctx.count('documents')
    ctx.count('documents with violated mandatory items', bool(ref.errors))
    ctx.count('violations inside interleaves', ref.interleaves)
    ctx.count('documents with several violations', len(ref.errors) > 1)
    ctx.count('skips or resumptions', len(ref.skipped))
    ctx.count('custom messages', ref.msgs)
    where = f'doc={doc!r}\nerrors {[(e.pos, int(e.code), e.message) for e in errs]}\n{src}'
    if (not errs) != (complete and not ref.errors):
        ctx.violation('error-free', f'reference: complete={complete} {ref.errors}\n{where}', w)
        return
    if not errs:
        ctx.count('documents free of errors')
    got = {}
    for e in errs:
        if e.code not in (1030, 1040, 1042, 1045):
            got[(e.pos, int(e.code))] = e.message
    want = ref.errors
    if set(got) != set(want):
        ctx.violation('errors', f'expected {want}\ngot {got}\nskipped {ref.skipped}\n{where}', w)
        return
    for k, msg in want.items():
        ctx.count('violations located')
        if (isinstance(msg, tuple) and f"expected by parser '{msg[1]}'" not in got[k]) or (not isinstance(msg, tuple) and msg != got[k]):
            ctx.violation('message', f'at {k} expected {msg}\ngot {got[k]}\n{where}', w)
            return
    stopped = any(e.code in (1030, 1040, 1042, 1045) for e in errs)
    if stopped != (not complete):
        ctx.violation('stopped', f'reference: end={res and res[0]} of {len(doc)}\n{where}', w)
        return
    if res is not None:
        have = items_of(tree)
        ctx.count('trees compared')
        ctx.count('trees with recovery compared', bool(ref.skipped))
        if not same_items(have, res[1]):
            ctx.violation('nodes', f'expected {res[1]}\ngot      {have}\nskipped {ref.skipped}\n{where}\n{tree.as_sxpr()}', w)


# ------------------------------------------------------------------------------------------ search for a reentry-point

def search(ctx):
    r = ctx.rng
    doc = ''.join(r.choice(['a', 'b', ';', '#', '# c ;#', '#a#', 'xy', ')', ' ', "'"]) for _ in range(r.randint(0, 14)))
    off = r.randint(0, min(3, len(doc)))
    comment = re.compile('#[^#]*#') if r.random() < 0.8 else re.compile(r'(?!.)(?=.)')
    rules = []
    for _ in range(r.randint(0, 3)):
        k = r.choice(['rx', 'str', 'fn'])
        x = r.choice([';', 'a', 'xy', ')', 'b', '#a', 'zz', "'"])
        rules.append((k, re.escape(x) if k == 'rx' and r.random() < 0.6 else (f'(?={re.escape(x)})' if k == 'rx' else x)))
    w = {'doc': doc, 'offset': off, 'rules': rules, 'comment': comment.pattern}
    ctx.current = w

    def fn(x):
        def algorithm(rest, start=0, end=9999):
            return rest.find(x, start, end), len(x)
        return algorithm
    real = [re.compile(x) if k == 'rx' else x if k == 'str' else fn(x) for k, x in rules]
    ok, res = ctx.guard(lambda: reentry_point(StringView(doc)[off:], real, comment), w)
    if not ok:
        return
    allowed, n = {-1}, 0
    for k, x in rules:
        rx = re.compile(x if k == 'rx' else re.escape(x))
        comments = [m.span() for m in comment.finditer(doc, off)]
        results = set()
        # whether a match that only begins inside a comment counts is left open
        for strict in (False, True):
            p = off
            while True:
                m = rx.search(doc, p)
                if m is None:
                    results.add(-1)
                    break
                inside = [b for a, b in comments if a < m.end() < b or strict and a < m.start() < b]
                if not inside:
                    results.add(m.end() - off)
                    break
                n += 1
                p = inside[0]
        allowed = {a if b < 0 else b if a < 0 else min(a, b) for a in allowed for b in results}
    ctx.count('searches compared')
    ctx.count('matches inside comments passed over', n)
    ctx.evaluated((doc, off, tuple(rules)), max(allowed) >= 0)
    if res[0] not in allowed or (res[0] >= 0 and res[1].content != doc[off:off + res[0]]):
        ctx.violation('search', f'{res} instead of {allowed}\n{w}', w)
