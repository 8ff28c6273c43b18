from vt import peg, dh
from vt.core import digest


def run(ctx):
    r = ctx.rng
    for gi in range(ctx.n(450, 3000)):
        gen = peg.GrammarGen(r, nsym=r.choice([(1, 3), (2, 5), (3, 8)]))
        g = gen.grammar(r.choice([2, 3, 3, 4]))
        src = peg.show_grammar(g)
        ctx.current = src
        ok, grammar = ctx.guard(lambda: compiled(ctx, src), src)
        if not ok or grammar is None:
            continue
        ctx.count('grammars accepted')
        if gi < 2:
            ctx.sample(src)
        docs = peg.documents(r, g, ctx.n(9, 12))
        for doc in docs:
            judge(ctx, g, src, grammar, next(iter(g)), doc)
        for name in r.sample(list(g), min(2, len(g))):
            d = peg.derive(r, g, ('sym', name), 6)[:40]
            judge(ctx, g, src, grammar, name, d)
            judge(ctx, g, src, grammar, name, peg.mutate(r, d))


def compiled(ctx, src):
    try:
        return dh.create_parser(src)
    except (dh.DefinitionError, dh.CompilationError) as e:
        ctx.count('grammars rejected by static checks')
        codes = {x.code for x in e.errors}
        if any(c not in STATIC_CODES for c in codes):
            ctx.violation('grammar-rejected', f'valid grammar rejected: {e}\n{src}', {'grammar': src})
        return None


from DHParser.error import (BADLY_NESTED_OPTIONAL_PARSER, BAD_ORDER_OF_ALTERNATIVES,
                            LOOKAHEAD_WITH_OPTIONAL_PARSER)
STATIC_CODES = {BADLY_NESTED_OPTIONAL_PARSER, BAD_ORDER_OF_ALTERNATIVES, LOOKAHEAD_WITH_OPTIONAL_PARSER}


def judge(ctx, g, src, grammar, start, doc):
    ref = peg.Ref(g, doc)
    exp = ref.sym(start, 0)
    w = {'grammar': src, 'start': start, 'document': doc}
    ctx.current = w

    def parse():
        full = grammar(doc, start, complete_match=True)
        return full, dh.true_errors(full), dh.named_items(full)
    ok, res = ctx.guard(parse, w)
    if not ok:
        return
    full, errs, got = res
    accept = exp is not None and exp[0] == len(doc)
    ctx.count('full parses compared')
    ctx.count('accepted by reference' if accept else 'rejected by reference')
    ctx.evaluated((src, start, doc), exp is not None and exp[0] > 0)
    if accept != (not errs):
        ctx.violation('acceptance', f'reference {"accepts" if accept else "rejects"}, parser reports '
                      f'{[str(e) for e in errs]}\n{src}\nstart={start} doc={doc!r}', w)
        return
    if accept:
        want = exp[1]
        ctx.count('named nodes compared', count_nodes(want))
        if got != want:
            ctx.violation('structure', f'named structure differs\nexpected {want}\ngot      {got}\n'
                          f'{src}\nstart={start} doc={doc!r}', w)
            return
    part = grammar(doc, start, complete_match=False)
    perrs = dh.true_errors(part)
    ctx.count('prefix parses compared')
    if (exp is not None) != (not perrs):
        ctx.violation('prefix-acceptance', f'reference prefix {exp and exp[0]}, errors {[str(e) for e in perrs]}'
                      f'\n{src}\nstart={start} doc={doc!r}', w)
    elif exp is not None:
        if part.content != doc[:exp[0]] or dh.named_items(part) != exp[1]:
            ctx.violation('prefix', f'prefix differs: expected {doc[:exp[0]]!r} {exp[1]}, got '
                          f'{part.content!r} {dh.named_items(part)}\n{src}\nstart={start} doc={doc!r}', w)


def count_nodes(items):
    return sum(1 + count_nodes(i[3]) for i in items)
