"""P13: whatever is submitted as a grammar, compilation yields a working parser or located errors; particular mistakes are
always reported."""
import os, re, glob, traceback
from vt import dh, peg, corpus
from checks import p11

CRASH = {10100, 10200, 10300, 10500}
TOKENS = ['=', '|', '(', ')', '[', ']', '{', '}', '}+', '§', '&', '!', '<-&', '<-!', '~', ':', '::', ':?', '@', '$', ',', '-', '°',
          '*', '+', '?', '.', '/', '->', 'HIDE:', 'DROP:', '{2,3}', '{3}', '{3,2}', '{0}', '2*', '*3', '"x"', "'y'", '`z`', '´z´', '’q’',
          '""', '``', '/a/', '/[/', '/(/', '/*/', '//', '/a*/', '/(?P<x>a)/', r'/\//', '/(?i)a/', '/a\n  b/', '0x41', '[0x41-0x5A]', '0xFFFFFFFF',
          '[^0x41]', '[a-z]', 'a', 'b', 'c', 'Sa', 'Sb', 'undefd', 'class', 'def', 'None', 'self', 'EOF', '_x', 'x_', 'a__', 'é', 'a-b',
          '@Error("x")', '$m(a)', '$m($x)', '$x', '# comment\n', '/* c */', '(* c *)', ';', ';\n', '"', "'", '`', '\\', '::=', ':=', '<a>', '<', '>', '\t',
          '\n', '\n', '\n', '\x00', '\ufeff', '\u2028', '😀', '%x41', 'U+0041', '\\x41', 'hide', 'drop', 'DROP']
DIRECTIVES = ['whitespace', 'comment', 'comment_keep', 'literalws', 'hide', 'disposable', 'drop', 'reduction', 'tree_reduction', 'ignorecase', 'tokens',
              'optimizations', 'flavor', 'Sa_error', 'Sa_skip', 'Sa_resume', 'Sa_filter', 'Sb_error', 'Sc_skip', 'nosuch', 'Sa_nosuch',
              'filter', 'anonymous', 'Zz_error', 'Zz_skip', '_error', 'error', 'server', 'resume', 'flavour']
VALUES = ['none', 'left', 'right', 'both', 'left, right', 'none, left', 'True', 'False', '0', '1', '2', '7', 'flatten', 'merge', 'merge_treetops', 'all', 'some', 'sequence',
          'horizontal', 'vertical', 'linefeed', 'whitespace', 'strings', 'backticked', 'regexps', 'token', 'Sa', 'Sb', 'Sa, Sb', 'Zz', '/a/', '/[/', '/(/', '/.*/', r'/\s*/',
          '/x*\n y*/', '//', '/_/', r'/\~!x/', '"text"', "'t'", '`t`', '´t´', '’t’', '"a {0} {1}"', '"{2}"', '"{"', '"{x}"', '/a/, "msg"', '"msg"', '/a/, "m", "n"', '"", ""', "''", '(Sa)', '(Sa "x")', '("x")', '(', '("x" | ',
          '$m', '$x', '', ',', '§', '&', 'dhparser', 'heuristic', 'fixed', '"nofile.ebnf"', 'NIL', 'X, Y, X', '/a/ /b/', 'None', 'class', '"x" "y"', '(/a/)', '(/a/ | /b/), "m"', '/#.*/', "/'.*/", '/a*+?/', '/(?P<a>x)(?P=a)/', 'x y']


def compile_(src):
    """(grammar or None, errors, exception)"""
    try:
        return dh.quiet(lambda: dh.create_parser(src)), [], None
    except (dh.DefinitionError, dh.CompilationError) as e:
        return None, list(e.errors), None
    except RecursionError as e:
        return None, [], e
    except Exception as e:
        return None, [], e


def where(e):
    fs = [f for f in traceback.extract_tb(e.__traceback__)]
    own = [f for f in fs if 'DHParser' in f.filename] or fs
    return f'{type(e).__name__} in {own[-1].name}' + (': ' + str(e).split('\n')[0][:40] if isinstance(e, AssertionError) else '')


def judge(ctx, src, kind, docs=('', 'x', 'a', 'xy z')):
    """returns the error codes"""
    if '\n' not in src:
        src += '\n'
    ctx.current = {'kind': kind, 'grammar': src}
    ok, res = ctx.guard(lambda: compile_(src), src)
    if not ok:
        return None
    g, errors, exc = res
    ctx.evaluated(src, bool(src.strip()))
    ctx.count('kind: ' + kind)
    w = ctx.current
    if exc is not None:
        if isinstance(exc, RecursionError) and max_nesting(src) > 60:
            ctx.count('deep nesting: RecursionError')
            return None
        ctx.violation('crash: ' + where(exc), f'{exc!r}\n{"".join(traceback.format_tb(exc.__traceback__)[-3:])}\n{src}', w)
        return None
    if g is None:
        ctx.count('grammars with errors reported')
        if not any(int(e.code) >= 1000 for e in errors):
            ctx.violation('rejected without an error', f'{[str(e) for e in errors]}\n{src}', w)
        crash = [e for e in errors if int(e.code) in CRASH]
        # errors that have been found earlier may excuse that later stages fail
        if crash and not any(1000 <= int(e.code) < 10000 for e in errors):
            m = re.findall(r'line \d+, in (\w+)', str(crash[0]))
            ctx.violation('internal failure: ' + (m[-1] if m else str(crash[0])[:60]), f'{crash[0]}\n{src}', w)
        for e in errors:
            ctx.count(f'code {int(e.code)}')
            if not 0 <= e.pos <= len(src) + 1 or e.line < 1 or e.column < 1:
                ctx.violation('error not located in the grammar', f'{e!r} {e.pos} {e.line}:{e.column}\n{src}', w)
                break
            bom = src.startswith('\ufeff')  # not counted as part of the source
            head = src[bom:e.pos + bom]
            if e.pos <= len(src) and (e.line, e.column) != (head.count('\n') + 1, e.pos - head.rfind('\n')):
                ctx.violation('wrong line or column', f'{e!r} {e.pos} {e.line}:{e.column}\n{src}', w)
                break
        return [int(e.code) for e in errors]
    ctx.count('grammars accepted')
    for d in docs:
        ctx.current = dict(w, document=d)

        def parse():
            try:
                return g(d), None
            except Exception as e:
                return None, e
        ok, res = ctx.guard(parse, (src, d))
        if ok:
            ctx.count('documents parsed with accepted grammars')
            if res[1] is not None:
                ctx.violation('accepted grammar does not work: ' + where(res[1]),
                              f'{d!r}: {"".join(traceback.format_exception(res[1])[-3:])}\n{src}', ctx.current)
    return []


def max_nesting(src):
    return max(src.count(c) for c in '([{!&|=')


def soup(r):
    n = r.randint(1, 25)
    toks = [r.choice(TOKENS) for _ in range(n)]
    if r.random() < 0.6:
        toks = ['Sa', '='] + toks
    return r.choice(['', ' ', ' ']).join(toks) + r.choice(['', '\n', '\nSb = "x"\n'])


def valid(r):
    k = r.random()
    if k < 0.4:
        return corpus.case(r, 4)[1]
    if k < 0.9:
        g = peg.GrammarGen(r, ws=True).grammar(r.choice([2, 3]))
        p = p11.Printer(r, 'dhparser', literalws=r.choice(['none', 'right']))
        return p.grammar(g, {k for k in list(g)[1:] if r.random() < 0.2})
    if not EXAMPLES:
        import DHParser
        repo = os.path.dirname(os.path.dirname(os.path.abspath(DHParser.__file__)))
        for f in sorted(glob.glob(os.path.join(repo, 'examples', '*', '*.ebnf'))):
            with open(f, encoding='utf-8') as fh:
                s = fh.read()
            if s.count('\n') < 65:
                EXAMPLES.append(s)
    return r.choice(EXAMPLES)


EXAMPLES = []
TOK_RX = re.compile(r'"[^"\n]*"|\'[^\'\n]*\'|`[^`\n]*`|/[^/\n]*/|\w+|\s+|.', re.S)


def mutated(r):
    src = valid(r)
    for _ in range(r.randint(1, 3)):
        toks = TOK_RX.findall(src) or ['']
        i = r.randrange(len(toks))
        k = r.random()
        if k < 0.25:
            del toks[i]
        elif k < 0.4:
            toks.insert(i, toks[r.randrange(len(toks))])
        elif k < 0.65:
            toks.insert(i, r.choice(TOKENS))
        elif k < 0.85:
            toks[i] = r.choice(TOKENS)
        else:
            j = r.randrange(len(toks))
            toks[i], toks[j] = toks[j], toks[i]
        src = ''.join(toks)
        if r.random() < 0.2:
            src = peg.mutate(r, src, '"\'`/()[]{}|=@$§:~&!-+*?.,;#\\x0aZ \n')
    return src


def directive(r):
    d = [f'@ {r.choice(DIRECTIVES)} = {r.choice(VALUES)}\n' for _ in range(r.randint(1, 3))]
    body = r.choice(['Sa = { Sb | Sc }+\nSb = "x" §"y" [Sc]\nSc = /a/~\n', 'Sa = "x"\n', 'Sa = Sb :Sb ::Sb\nSb = /x/\n',
                     'Sa = $m("x")\n$m($x) = $x | "y"\n', 'Sa = ({ Sb }+ ° "y") | Sc\nSb = `x` ~\nSc = "z" Sa\n'])
    if r.random() < 0.3:
        d.append(body)
        r.shuffle(d)
        return ''.join(d)
    return ''.join(d) + body


# ---- mistakes that must be reported

def mistakes(r):
    """(kind, grammar, codes of which one must be reported)"""
    g = peg.GrammarGen(r, ws=True).grammar(r.choice([2, 3]))
    syms = list(g)
    lines = peg.show_grammar(g, header='').strip().split('\n')
    head = '@ literalws = none\n@ whitespace = /[ ]*/\n'
    i = r.randrange(len(lines))
    name, body = lines[i].split(' = ', 1)
    k = r.choice(['undefined', 'undefined', 'double', 'regex', 'regex', 'directive', 'dirsymbol', 'macro', 'macroargs', 'recmacro', 'keyword', 'range', 'redirective',
                  'lookahead', 'nested', 'retrieve', 'unreachable alternative'])
    wrap = lambda x: r.choice(['%s %s', '%s | %s', '(%s) (%s)', '%s [%s]', '%s {%s}', '%s &(%s)', '%s !(%s)']) % (
        ('(' + body + ')', x) if r.random() < 0.7 else ('"q"', x))
    need = {1000}
    if k == 'undefined':
        lines[i] = f'{name} = {wrap("Undefd")}'
        need = {1140}
    elif k == 'double':
        lines.insert(r.randint(0, len(lines)), f'{name} = {r.choice(["/z/", "z", body])}'.replace('= z', '= "z"'))
        need = {1000}
    elif k == 'regex':
        bad = r.choice(['/(/', '/a)/', '/[a/', '/*a/', '/a**/', '/(?P<n/', '/a{2,1}/', '/(?<n/', '/[z-a]/', r'/\1/'])
        lines[i] = f'{name} = {r.choice(["%s", "%s ~", "{ %s }", "[%s]", "(%s)"]) % bad}' if r.random() < 0.5 else f'{name} = {wrap(bad)}'
        need = {1585, 1010} if '/*' in bad else {1585}
    elif k == 'directive':
        head += f'@ {r.choice(["nosuch", "whitspace", "Hide", "literal_ws", "droop"])} = {r.choice(["none", "/x/", "Sa"])}\n'
    elif k == 'dirsymbol':
        head += f'@ Undefd_{r.choice(["error", "skip", "resume"])} = /x/{r.choice(["", ""])}\n'.replace('_error = /x/', '_error = /x/, "m"')
        need = {1100}
    elif k == 'macro':
        lines[i] = f'{name} = {wrap("$nomacro(" + r.choice(syms) + ")")}'
        need = {1180}
    elif k == 'macroargs':
        lines.append('$mm($a, $b) = $a $b')
        lines[i] = f'{name} = {wrap("$mm(" + r.choice(syms) + ")")}'
        need = {1160}
    elif k == 'recmacro':
        lines.append('$mm($a) = $a [$mm($a)]')
        lines[i] = f'{name} = {wrap("$mm(" + r.choice(syms) + ")")}'
        need = {1190}
    elif k == 'keyword':
        lines.append(f'{r.choice(["class", "def", "for", "None", "lambda"])} = "x"')
        need = {1555, 1000}
    elif k == 'range':
        lines[i] = f'{name} = ("q"){{3,2}}'
    elif k == 'redirective':
        head += r.choice(['@ literalws = right\n', '@ whitespace = horizontal\n'])
        need = {1080}
    elif k == 'lookahead':
        lines[i] = f'{name} = {r.choice(["&", "!"])}Zq ({body})'
        lines.append('Zq = [ "q" ]')
        need = {1520}
    elif k == 'nested':
        lines[i] = f'{name} = {r.choice(["{ [ /q/ ] }", "{ { /q/ } }+", "{ [ /q/ ] }+"])} /q/'
        need = {1530, 660, 1000}
    elif k == 'retrieve':
        lines[i] = f'{name} = {r.choice([":", "::"])}Undefd'
        need = {1140}
    elif k == 'unreachable alternative':
        lines[i] = f'{name} = /q/ | "ab" | "abc" /q/'
        need = {1570, 710}
    return k, head + '\n'.join(lines) + '\n', need


def deep(r):
    n = r.choice([5, 20, 40])
    k = r.randrange(5)
    if k == 0:
        return 'Sa = ' + '(' * n + '"x"' + ')' * n + '\n'
    if k == 1:
        return 'Sa = ' + '{ "y" ' * n + '"x"' + ' }' * n + '\n'
    if k == 2:
        return ''.join(f'S{i} = S{i+1} | "{i}"\n' for i in range(n)) + f'S{n} = "x"\n'
    if k == 3:
        return 'Sa = ' + '!' * n + '"x"\n'
    return 'Sa = ' + ' | '.join(f'"{i}k"' for i in range(n * 5)) + '\n'


def circular(r):
    """synonyms that lead to each other, with or without a way out, used in every place that looks through symbols"""
    chain = r.choice(['a = b\nb = a\n', 'a = a\n', 'a = b\nb = c\nc = b\n', 'a = b\nb = c\nc = a\n', 'a = b | c\nb = a\nc = /x/\n',
                      'a = b\nb = <-& a\n', 'a = b\nb = !b "x"\n', 'a = :: b\nb = :? a\n', 'a = { b }\nb = [ a ]\n', 'a = b\nb = °a\n',
                      'a = b ° b\nb = a\n', 'a = (b)\nb = (a)\n'])
    use = r.choice(['<-& a', '<-! a', ':: a', ':? a', ': a', '& a', '! a', '{ a }', '[ a ]', '{ a }+', 'a * 3', 'a ° "y"', '"x" § a', 'a', '~ a',
                    'a:3', '2*a', '(a)', 'a-b'])
    head = ''.join(r.sample(['@drop = a\n', '@hide = a\n', '@disposable = a, b\n', '@whitespace = a\n', '@comment = a\n', '@a_skip = (b)\n',
                             '@S_skip = (a)\n', '@S_error = a, "no"\n', '@S_resume = (/y/)\n', '@a_filter = matching_bracket\n',
                             '@reduction = merge_treetops\n', '@optimizations = all\n', '@literalws = none\n', '@include = a\n', '@tokens = a\n'],
                            r.randrange(3)))
    rules = ['S = "x" ' + use + '\n', chain]
    if r.random() < 0.3:
        rules.reverse()
    return head + ''.join(rules)


def run(ctx):
    r = ctx.rng
    for i in range(ctx.n(100, 800)):
        src = soup(r)
        judge(ctx, src, 'token soup')
        if i < 1:
            ctx.sample(src)
        judge(ctx, mutated(r), 'mutated grammar')
        judge(ctx, mutated(r), 'mutated grammar')
        judge(ctx, directive(r), 'directives')
        k, src, need = mistakes(r)
        codes = judge(ctx, src, 'mistake')
        if codes is not None:
            ctx.count('mistake: ' + k)
            if not need & set(codes):
                ctx.violation('mistake not reported: ' + k, f'{codes} instead of {sorted(need)}\n{src}', {'grammar': src})
        judge(ctx, circular(r), 'circular')
        if i % 10 == 0:
            judge(ctx, deep(r), 'deep nesting')
