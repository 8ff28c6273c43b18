"""Grammars of all kinds with documents for them: plain, with mandatory items and recovery
rules, with captured variables, and left-recursive ones."""
import re
from vt import peg

LR = ['@literalws = none\nE = E "+" T | E "-" T | T\nT = T "*" F | F\nF = "(" E ")" | N | V\nN = /[0-9]+/\nV = "a" | "b"\n',
      '@literalws = right\nE = (E ("+"|"-") T) | T\nT = (F "*" T) | F\nF = "(" §E ")" | N ["!"]\nN = D { D }\nD = /[0-9]/\n',
      '@literalws = none\nS = P | "x"\nP = A "." N | A "(" ")"\nA = P | N\nN = /[ab]/ ["\'"]\n',
      '@literalws = none\nX = Y "-" | "1"\nY = X "+" | "2"\n']
CAPT = ['@literalws = none\ndoc = { emph | text }\nemph = m { emph | text }+ ::m\nm = /\\*+|_/\ntext = /[ab ]+/\n',
        '@literalws = none\ndoc = { code | text }\ncode = fence body §::fence\nbody = { !:fence char }\nchar = /./\nfence = /`+/\n'
        'text = /[^`]/\n',
        '@literalws = none\n@drop = whitespace\ndoc = { el }+\nel = "<" tag ">" { el | txt } "</" §::tag ">"\ntag = /[ab]+/\ntxt = /[^<>]/\n']




def lookbehinds(r):
    """a grammar in which the kind of an item depends on what precedes it"""
    rx = lambda: r.choice(['=', '[a-c]', '[0-9]', '=a', 'ab', '[=a]b?', '^', '[0-9]+', 'b='])
    items = []
    for i in range(r.randint(1, 3)):
        body = r.choice(['/[0-9]/', '/[a-c]/', '"="', '/[a-c]+/', '/[0-9a]/'])
        la = r.choice(['<-& /%s/ %s', '<-! /%s/ %s', '<-& /%s/ <-! /%s/ %s'])
        items.append((f'i{i}', la % tuple([rx() for _ in range(la.count('%s') - 1)] + [body])))
    return '@literalws = none\ndoc = { ' + ' | '.join(n for n, _ in items) + ' | other }+\n' \
        + ''.join(f'{n} = {e}\n' for n, e in items) + 'other = /[a-c0-9=]/\n'


def lrdoc(r, d):
    if d <= 0:
        return r.choice(['a', 'b', '1', '12'])
    return r.choice([lambda: lrdoc(r, d - 1) + r.choice('+-*') + lrdoc(r, d - 2), lambda: '(' + lrdoc(r, d - 2) + ')',
                     lambda: lrdoc(r, 0) + r.choice(['!', '.a', '()', ''])])()


def el(r, d):
    t = r.choice(['a', 'b', 'ab'])
    return f'<{t}>' + ''.join(el(r, d - 1) if d and r.random() < 0.5 else r.choice('ab x') for _ in range(r.randint(0, 2))) + \
        f'</{t if r.random() < 0.9 else "b"}>'


def case(r, n=8, kinds='pmclb', size=(2, 5)):
    """(kind, source, symbols, documents)"""
    from checks import p03, p04
    kind = r.choice(kinds)
    if kind == 'p':
        g = peg.GrammarGen(r, nsym=size).grammar(r.choice([2, 3]))
        return kind, peg.show_grammar(g), list(g), peg.documents(r, g, n)
    if kind == 'm':
        src, g = p04.make_grammar(r, 0.1)
        docs = peg.documents(r, g, n // 2)
        docs += [p04.faulty(r, docs) for _ in range(n - len(docs))]
        return kind, src, list(g), docs
    if kind == 'c':
        if r.random() < 0.5:
            src = r.choice(CAPT)
            if '<' in src:
                docs = [''.join(el(r, 2) for _ in range(r.randint(1, 2))) for _ in range(n)]
            else:
                docs = [''.join(r.choice(['*', '**', 'a', 'b', '`', '``', ' ', '_']) for _ in range(r.randint(1, 12))) for _ in range(n)]
            return kind, src, symbols(src), docs
        g, caps = p03.Gen(r).grammar()
        docs = []
        for _ in range(n):
            d = p03.derive(r, g, caps, ('sym', next(iter(g))), {}, r.choice([5, 8, 11]))[:40]
            docs.append(peg.mutate(r, d, 'abxy,.<>') if r.random() < 0.4 else d)
        return kind, peg.show_grammar(g), list(g), docs
    if kind == 'b':
        src = lookbehinds(r)
        k = r.randint(1, 7)
        docs = [''.join(r.choice('abc012==') for _ in range(k if i % 2 else r.randint(1, 9))) for i in range(n)]
        return kind, src, symbols(src), docs
    src = r.choice(LR)
    docs = [''.join(r.choice('ab12+-*()!.x') for _ in range(r.randint(1, 9))) for _ in range(n // 3)]
    return kind, src, symbols(src), docs + [lrdoc(r, 4) for _ in range(n - len(docs))]


def symbols(src):
    return re.findall(r'^(\w+) *=', src, re.M)
