"""P04: concrete syntax trees are lossless, positions are exact (also for erroneous documents)."""
import re
from vt import peg, dh
from DHParser.nodetree import ZOMBIE_TAG

BOMS = ('\ufeff', '\uffef', '\xef\xbb\xbf')


def run(ctx):
    r = ctx.rng
    for gi in range(ctx.n(500, 1600)):
        kind = r.random()
        src, g = make_grammar(r, kind)
        ctx.current = src
        ok, grammar = ctx.guard(lambda: create(ctx, src), src)
        if not ok or grammar is None:
            continue
        ctx.count('grammars accepted')
        if gi < 2:
            ctx.sample(src)
        if r.random() < 0.3:
            grammar.max_parser_dropouts__ = r.choice([1, 2, 5])
        docs = peg.documents(r, g, ctx.n(10, 14), alphabet='abcd()+*=.[x;\n #')
        docs += [hostile(r, d) for d in docs[:3]] + [faulty(r, docs) for _ in range(4)]
        for doc in docs:
            start = r.choice([next(iter(g))] * 3 + list(g))
            judge(ctx, src, grammar, start, doc, r.choice([True, True, True, False]))
            if r.random() < 0.06:
                bom(ctx, src, grammar, start, doc)


def create(ctx, src):
    try:
        return dh.create_parser(src)
    except (dh.DefinitionError, dh.CompilationError):
        ctx.count('grammars rejected by static checks')
        return None


def make_grammar(r, kind):
    gen = peg.GrammarGen(r, nsym=r.choice([(2, 4), (3, 7)]), ws=True,
                         lits=peg.LITS + [';', 'x', ';'])
    g = gen.grammar(r.choice([2, 3]))
    g = {k: peg.order_alternatives(g, v) for k, v in g.items()}
    head = r.choice(['@ literalws = none\n', '@ literalws = right\n', '@ literalws = both\n'])
    head += r.choice(['@ whitespace = /[ \\n]*/\n', '@ whitespace = horizontal\n', '@ whitespace = vertical\n'])
    if r.random() < 0.4:
        head += '@ comment = /#[^\\n]*/\n'
    head += '@ reduction = %s\n' % r.choice(['none', 'flatten', 'merge_treetops', 'merge'])
    hide = [k for k in list(g)[1:] if r.random() < 0.25]
    if hide:
        head += '@ hide = ' + ', '.join(hide) + '\n'
    if kind < 0.75:
        names = []
        for k, e in g.items():
            if r.random() < 0.6 or e[0] == 'seq':
                if e[0] == 'seq':
                    items = list(e[1])
                else:
                    items = [('lit', r.choice('abx')), e]
                    if r.random() < 0.5:
                        items.append(('lit', r.choice(';)c')))
                g[k] = ('mseq', items, r.randint(1, len(items) - 1))
                if r.random() < 0.2:
                    items = [('lit', x + r.choice(['', 'x'])) for x in r.sample('ab(;+', r.randint(2, 3))]
                    g[k] = ('minter', [(x,) + r.choice([(1, 1), (1, 1), (0, 1), (0, peg.INF), (1, peg.INF)]) for x in items],
                            r.randint(1, len(items) - 1))
                names.append(k)
        for k in names:
            if r.random() < 0.35:
                head += f'@ {k}_skip = ' + ', '.join(rule(r, g) for _ in range(r.choice([1, 1, 2]))) + '\n'
            if r.random() < 0.35:
                head += f'@ {k}_resume = ' + ', '.join(rule(r, g) for _ in range(r.choice([1, 1, 2]))) + '\n'
            if r.random() < 0.3:
                if r.random() < 0.5:
                    head += f'@ {k}_error = /[abc]/, "letter {{1}} but {{0}}"\n'
                head += f'@ {k}_error = "wrong: {{1}}"\n'
    return head + '\n'.join(f'{k} = {show(v)}' for k, v in g.items()) + '\n', {k: plain(v) for k, v in g.items()}


def plain(e):
    return (e[0][1:], e[1]) if e[0] in ('mseq', 'minter') else e


def show(e):
    if e[0] == 'mseq':
        return ' '.join(('§' if i == e[2] else '') + peg.show(x, 1.2) for i, x in enumerate(e[1]))
    if e[0] == 'minter':
        return ' ° '.join(('§' if i == e[2] else '') + peg.card(*x) for i, x in enumerate(e[1]))
    return peg.show(e)


def rule(r, g):
    return r.choice(['/;/', '/(?=;)/', '/\\n/', '/[abc]/', '/(?=x)/', '/;|$/', '/[^;]*;/', '";"', '/(?<=;)/', '/.*/', '/x*/',
                     '(/[^;]*/ ";")', '(/[^x]*/ &"x")', '/$/', '(";" | "x")'])


def hostile(r, doc):
    doc = list(doc)
    for _ in range(r.randint(1, 3)):
        doc.insert(r.randint(0, len(doc)), r.choice(['\x00', '\U0001F600', '\r\n', '\t', 'é', '\u2028', '\n\n', ' # c\n', '\ufeff', '\x01']))
    while doc and doc[0][0] in '\x00\ufeff\uffef':
        doc[0] = '?'
    return ''.join(doc)


def faulty(r, docs):
    d = ''.join(r.choice(docs) + r.choice(['', ';', '\n', 'x;']) for _ in range(r.randint(1, 3)))
    return peg.mutate(r, d[:60], alphabet='abcd();x\n #')


def judge(ctx, src, grammar, start, doc, complete):
    w = {'grammar': src, 'start': start, 'document': doc, 'complete_match': complete}
    ctx.current = w
    ok, root = ctx.guard(lambda: grammar(doc, start, complete_match=complete), w)
    if not ok:
        return
    errs = root.errors
    ctx.count('trees checked')
    if any(e.code >= 1000 for e in errs):
        ctx.count('erroneous documents')
    if len(dh.true_errors(root)) > 1:
        ctx.count('documents with several errors')
    if any(nd.name.endswith('__') and nd.name != ZOMBIE_TAG for nd in root.select_if(lambda n: True, True)):
        ctx.count('documents with a skip- or resume-node')
    ctx.evaluated((src, start, doc), bool(doc))
    text = root.content
    if complete:
        if text != doc:
            ctx.violation('content', f'text of the tree {text!r} is not the document {doc!r}; errors: {[str(e) for e in errs]}'
                          f'\n{root.as_sxpr()}\n{src}start={start}', w)
            return
    elif not doc.startswith(text):
        ctx.violation('prefix-content', f'text of the tree {text!r} is no prefix of the document {doc!r}\n{root.as_sxpr()}\n{src}'
                      f'start={start}', w)
        return
    check_positions(ctx, root, doc, w, src)
    for e in errs:
        if not 0 <= e.pos <= len(doc):
            ctx.violation('error-position', f'error {e!r} at {e.pos} lies outside of the document of length {len(doc)}\n{src}'
                          f'start={start} doc={doc!r}', w)
        elif (e.line, e.column) != (doc.count('\n', 0, e.pos) + 1, e.pos - doc.rfind('\n', 0, e.pos)):
            ctx.violation('error-line', f'error {e!r} at {e.pos} has line, column {e.line, e.column}\n{src}start={start} doc={doc!r}', w)


def check_positions(ctx, root, doc, w, src):
    bad = []

    def walk(nd, pos):
        try:
            at = nd.pos
        except AssertionError:
            at = 'none'
        if at != pos:
            bad.append(f'{nd.name} {nd.content[:30]!r} has position {at} but occurs at {pos}')
        if nd.children:
            for c in nd.children:
                pos = walk(c, pos)
            return pos
        ctx.count('leaves compared')
        if doc[pos:pos + len(nd.content)] != nd.content:
            bad.append(f'{nd.name} {nd.content!r} does not occur at {pos}')
        return pos + len(nd.content)
    walk(root, 0)
    if bad:
        ctx.violation('position', f'{bad[:3]}\n{root.as_sxpr()}\n{src}doc={doc!r}', w)


def bom(ctx, src, grammar, start, doc):
    """A byte order mark is no part of the document."""
    if doc[:1] in ('\ufeff', '\uffef', '\xef'):
        return
    mark = ctx.rng.choice(BOMS)
    w = {'grammar': src, 'start': start, 'document': mark + doc}
    ok, res = ctx.guard(lambda: (grammar(mark + doc, start), grammar(doc, start)), w)
    if ok:
        a, b = res
        ctx.count('byte order marks')
        if dh.tree_key(a) != dh.tree_key(b) or dh.error_key(a) != dh.error_key(b):
            ctx.violation('bom', f'document with byte order mark {mark!r} yields {a.as_sxpr()} {a.errors} instead of '
                          f'{b.as_sxpr()} {b.errors}\n{src}doc={doc!r}', w)
