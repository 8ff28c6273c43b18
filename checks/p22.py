"""P22: preprocessing (includes, tokens, deletions, chains of these) maps each position back to the character it stems from."""
import os, re
from functools import partial
from vt import dh

GLUE = ['', '', '\n', ' ', '\n\n', '😀', '\t', 'é\n', '#', '"', "'", '\r\n']
WORDS = ['alpha', 'be', 'x', 'inc', 'include', 'γ', 'a(b)', '<inc', 'inc>', '12', ';']
STYLES = [  # include-instruction, regex, comment regex, comment
    (lambda n: f'include({n})', r'include\((?P<name>[\w./ ]+)\)', r'#.*', lambda t: '#' + t.replace('\n', ' ') + '\n'),
    (lambda n: f'@ include = "{n}"', r'@\s*include\s*=\s*["\'](?P<name>[^"\'\n]+)["\']', r'/\*(?:.|\n)*?\*/', lambda t: '/*' + t + '*/'),
    (lambda n: f'<inc {n}/>', r'<inc (?P<name>[\w./]+)/>', None, None),
    (lambda n: f'%{n}%', r'%(?P<name>[\w./]+)%', r'(?:--.*)|(?:\{[^}]*\})', lambda t: '{' + t + '}'),
]


def gen_files(r, style, tmp):
    """{path: [segments]} where a segment is ('t', text), ('i', instruction, path), ('c', comment text)"""
    inc, rx, crx, comment = style
    n = r.randint(1, 5)
    dirs = ['', 'd', 'd/e', 'o']
    names = [os.path.join(r.choice(dirs), f'f{i}.txt') for i in range(n)]
    if r.random() < 0.5:
        names = [f'f{i}.txt' for i in range(n)]
    paths = [os.path.join(tmp, x) for x in names]
    files = {}

    def ref(i, j):
        return os.path.relpath(paths[j], os.path.dirname(paths[i]))

    def text():
        s = ''.join(r.choice(WORDS) + r.choice(GLUE) for _ in range(r.randint(0, 4)))
        s = s.replace('\r\n', '\n') if True else s
        if crx and re.search(crx, s) or re.search(r'#|--|\{|/\*', s):
            s = re.sub(r'[#{}]|--|/\*', '', s)
        return s
    for i in reversed(range(n)):
        segs = []
        for _ in range(r.choice([0, 1, 2, 3, 5])):
            k = r.random()
            if k < 0.45 and i + 1 < n:
                j = r.randint(i + 1, n - 1)
                segs.append(('i', inc(ref(i, j)), j))
            elif k < 0.65 and crx:
                body = ' '.join(r.choice([inc(ref(i, r.randrange(n))), r.choice(WORDS), '']) for _ in range(r.randint(0, 2)))
                segs.append(('c', comment(body)))
            else:
                segs.append(('t', text()))
        files[i] = segs
    return paths, files


def content(segs):
    return ''.join(s[1] for s in segs)


def expand(i, files):
    """[(char, file-nr, offset)] of the result"""
    out, pos = [], 0
    for s in files[i]:
        if s[0] == 'i':
            out.extend(expand(s[2], files))
        else:
            out.extend((ch, i, pos + k) for k, ch in enumerate(s[1]))
        pos += len(s[1])
    return out


def linecol(text, pos):
    return text.count('\n', 0, pos) + 1, pos - text.rfind('\n', 0, pos)


def instructions_intact(segs, style):
    """False, if text and instructions have grown together to something else"""
    txt = content(segs)
    inc, rx, crx, _ = style
    spans, pos = [], 0
    cspans = []
    for s in segs:
        if s[0] == 'i':
            spans.append((pos, pos + len(s[1])))
        elif s[0] == 'c':
            m = re.compile(crx).match(txt, pos)
            cspans.append((m.start(), pos + len(s[1]) - s[1].endswith('\n')))
        pos += len(s[1])
    if crx:
        if [m.span() for m in re.finditer(crx, txt)] != cspans:
            return False
    found = [m.span() for m in re.finditer(rx, txt) if not any(a <= m.start() < b for a, b in cspans)]
    return found == spans


# ---- further preprocessing steps: function on text, with reference origin

def tokenizer_step(r):
    """wraps words into tokens"""
    from DHParser.preprocess import make_preprocessor, make_token
    rx = re.compile(r.choice([r'\w+', r'\d+', r'[a-z]', r'x|be', r'\n', r' *\n', r'(?:)b', r'\w+$']))
    name = r.choice(['T', 'LONG_NAME', 'a'])
    empty = r.random() < 0.3

    def build(text):
        out, pos = [], 0          # (char, index in input or None)
        for m in rx.finditer(text):
            if m.end() == m.start() and not empty:
                continue
            out.extend((text[k], k) for k in range(pos, m.start()))
            tok = make_token(name, m.group(0))
            body = len(m.group(0))
            out.extend((ch, None) for ch in tok[:len(tok) - body - 1])
            out.extend((text[k], k) for k in range(m.start(), m.end()))
            out.append((tok[-1], None))
            pos = m.end()
        out.extend((text[k], k) for k in range(pos, len(text)))
        return out
    prep = make_preprocessor(lambda text: (''.join(c for c, _ in build(text)), []))
    return 'tokens', prep, build


def edit_step(r, srcname=None):
    """deletes or inserts text and yields a hand-made source map"""
    from DHParser.preprocess import SourceMap, result_from_mapping
    rx = re.compile(r.choice([r'x', r'\s+', r'be|γ', r'[ab]', r'\d']))
    repl = r.choice(['', '', 'INSERTED', '~'])

    def build(text):
        out, pos = [], 0
        for m in rx.finditer(text):
            out.extend((text[k], k) for k in range(pos, m.start()))
            out.extend((ch, None) for ch in repl)
            pos = m.end()
        out.extend((text[k], k) for k in range(pos, len(text)))
        return out

    def prep(text, name):
        out = build(text)
        positions, offsets = [0], [0]
        for p, (ch, k) in enumerate(out):
            if k is not None and k - p != offsets[-1]:
                if positions[-1] == p:
                    offsets[-1] = k - p
                else:
                    positions.append(p)
                    offsets.append(k - p)
        positions.append(len(out) + 1)
        offsets.append(len(text) - len(out) - 1)    # nothing is mapped beyond the end of the text
        smap = SourceMap(name, positions, offsets, [name] * len(positions), {name: text})
        return result_from_mapping(smap, text, ''.join(c for c, _ in out), [])
    return 'edits', prep, build


def includes(ctx):
    from DHParser.preprocess import preprocess_includes, gen_find_include_func, chain_preprocessors, strip_tokens
    r = ctx.rng
    style = r.choice(STYLES)
    tmp = os.path.join(ctx.tmp, f'i{r.randrange(10**9)}')
    paths, files = gen_files(r, style, tmp)
    if not all(instructions_intact(s, style) for s in files.values()):
        return
    for i, p in enumerate(paths):
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w', encoding='utf-8', newline='') as f:
            f.write(content(files[i]))
    texts = [content(files[i]) for i in range(len(paths))]
    find = gen_find_include_func(style[1], style[2]) if r.random() < 0.5 else \
        gen_find_include_func(re.compile(style[1]), style[2] and re.compile(style[2]))
    incprep = partial(preprocess_includes, find_next_include=find)
    ref = expand(0, files)
    steps = []
    for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
        steps.append((tokenizer_step if r.random() < 0.5 and not any(s[0] == 'tokens' for s in steps) else edit_step)(r))
    if any(s[0] == 'tokens' for s in steps):
        steps.sort(key=lambda s: s[0] == 'tokens')
    w = {'files': dict(zip(paths, texts)), 'steps': [s[0] for s in steps]}
    ctx.current = w
    for kind, _, build in steps:
        before = ref
        ref = [(ch, *before[k][1:]) if k is not None else (ch, None, None) for ch, k in build(''.join(c for c, *_ in before))]
    first = r.random() < 0.7
    prep = chain_preprocessors(incprep, *[s[1] for s in steps]) if steps or r.random() < 0.5 else incprep
    passed = texts[0] if first else None

    def go():
        res = prep(passed, paths[0])
        return res, [res.back_mapping(p) for p in range(len(res.preprocessed_text) + 1)]
    ok, got = ctx.guard(go, w)
    shape = f'{"with" if any(s[0] == "i" for s in files[0]) else "without"} includes, steps: {len(steps)}'
    ctx.evaluated((tuple(texts), tuple(s[0] for s in steps)), any(s[0] == 'i' for s in files[0]))
    if not ok:
        return
    res, mapped = got
    exp_text = ''.join(c for c, *_ in ref)
    ctx.count('preprocessed: ' + shape)
    if str(res.preprocessed_text) != exp_text:
        ctx.violation('text: includes', f'{w}\nexpected {exp_text!r}\ngot      {str(res.preprocessed_text)!r}', w)
        return
    index = {os.path.normpath(p): i for i, p in enumerate(paths)}
    for p, (ch, i, k) in enumerate(ref):
        name, text, pos = mapped[p]
        if i is None:
            ctx.count('positions: inserted text')
            if os.path.normpath(name) not in index or not 0 <= pos <= len(text):
                ctx.violation('mapping: off the source', f'{p} {ch!r} -> {name} {pos}\n{w}', w)
                return
            continue
        ctx.count('positions: original text')
        if (index.get(os.path.normpath(name)), pos, str(text)) != (i, k, texts[i]):
            ctx.violation('mapping: wrong origin', f'{p} {ch!r} -> {name} {pos}, but stems from {paths[i]} {k}\n{w}\n{exp_text!r}', w)
            return
    name, text, pos = mapped[-1]
    if not any(s[0] == 'edits' for s in steps) and ((index.get(os.path.normpath(name)), pos) != (0, len(texts[0]))):
        ctx.violation('mapping: end of text', f'{len(ref)} -> {name} {pos}, instead of {paths[0]} {len(texts[0])}\n{w}\n{exp_text!r}', w)
    # errors of a parser that works on the result
    if ref and '\x1b' not in exp_text:
        g = CHARS()
        tree = g(exp_text, source_mapping=res.back_mapping) if '\n' in exp_text or True else None
        body = [n for n in tree.select('ch')]
        for p in r.sample(range(len(ref)), min(4, len(ref))):
            ch, i, k = ref[p]
            if i is None:
                continue
            nd = [n for n in body if n.pos == p]
            if not nd:
                continue
            tree.new_error(nd[0], f'here {p}')
        for e in tree.errors:
            if not e.message.startswith('here'):
                continue
            ch, i, k = ref[e.pos]
            ctx.count('errors located')
            if (index.get(os.path.normpath(e.orig_doc)), e.orig_pos, (e.line, e.column)) != (i, k, linecol(texts[i], k)):
                ctx.violation('error location', f'{e!r} {e.orig_doc} {e.orig_pos} {e.line}:{e.column}, but {paths[i]} {k} {linecol(texts[i], k)}\n{w}', w)
    # errors of preprocessors are located as well
    if steps:
        at = [p for p, x in enumerate(REFS(ref, steps, files)) if x[1] is not None]
        if at:
            p = r.choice(at)
            base = REFS(ref, steps, files)
            from DHParser.error import Error
            from DHParser.preprocess import PreprocessorResult, gen_neutral_srcmap_func

            def complaining(text, name):
                return PreprocessorResult(text, text, gen_neutral_srcmap_func(text, name), [Error('complaint', p)])
            prep2 = chain_preprocessors(incprep, *[s[1] for s in steps], complaining)
            ok, res2 = ctx.guard(lambda: prep2(texts[0] or '', paths[0]), w)
            if ok:
                e = [x for x in res2.errors if x.message == 'complaint'][0]
                ch, i, k = base[p]
                ctx.count('errors of preprocessors')
                if (index.get(os.path.normpath(e.orig_doc)), e.orig_pos, (e.line, e.column)) != (i, k, linecol(texts[i], k)):
                    ctx.violation('error location: preprocessor', f'{p} {e!r} {e.orig_doc} {e.orig_pos} {e.line}:{e.column}, but {paths[i]} {k} {linecol(texts[i], k)}\n{w}', w)
    if any(s[0] == 'tokens' for s in steps):
        ctx.count('stripped of tokens')
        plain = strip_tokens(exp_text)
        want = ''.join(c for c, i, k in ref if i is not None) if not any(s[0] == 'edits' for s in steps) else None
        if want is not None and plain != want:
            ctx.violation('strip_tokens', f'{plain!r} instead of {want!r}', w)


def REFS(ref, steps, files):
    return ref


_G = {}


def CHARS():
    if 'g' not in _G:
        _G['g'] = dh.quiet(lambda: dh.create_parser('@ whitespace = //\ndoc = { ch }\nch = /(?:.|\\n)/\n'))
    return _G['g']


def circular(ctx):
    """cycles of includes are reported"""
    from DHParser.preprocess import preprocess_includes, gen_find_include_func
    r = ctx.rng
    inc, rx, crx, _ = r.choice(STYLES)
    tmp = os.path.join(ctx.tmp, f'c{r.randrange(10**9)}')
    n = r.randint(1, 4)
    names = [os.path.join(r.choice(['', 'd', 'd/e']), f'f{i}.txt') for i in range(n)]
    back = r.randrange(n)
    texts = []
    for i in range(n):
        p = os.path.join(tmp, names[i])
        os.makedirs(os.path.dirname(p), exist_ok=True)
        j = i + 1 if i + 1 < n else back
        rel = os.path.relpath(os.path.join(tmp, names[j]), os.path.dirname(p))
        if r.random() < 0.3:
            rel = './' + rel
        texts.append(r.choice(['', 'x\n', 'alpha ']) + inc(rel) + r.choice(['', '\ny', ' z']))
        with open(p, 'w') as f:
            f.write(texts[-1])
    w = {'names': names, 'texts': texts}
    ctx.current = w
    main = os.path.join(tmp, names[0])

    def go():
        try:
            res = preprocess_includes(None, main, gen_find_include_func(rx, crx))
            return [e for e in res.errors], None
        except Exception as e:
            return [], e
    ok, got = ctx.guard(go, w)
    ctx.evaluated(('circular', tuple(names), tuple(texts)), True)
    ctx.count('circular includes')
    if ok:
        errors, exc = got
        if not errors and (not isinstance(exc, ValueError) or 'ircular' not in str(exc)):
            ctx.violation('circular include not reported', f'{exc!r:.300}\n{w}', w)


def grammars(ctx):
    """mistakes in included grammar files are reported for these files"""
    r = ctx.rng
    tmp = os.path.join(ctx.tmp, f'g{r.randrange(10**9)}')
    n = r.randint(2, 4)
    names = ['main.ebnf'] + [os.path.join(r.choice(['', 'd']), f'g{i}.ebnf') for i in range(1, n)]
    paths = [os.path.join(tmp, x) for x in names]
    bad = r.randrange(n)
    kinds = {}
    texts = {}
    children = {i: [] for i in range(n)}
    for i in range(1, n):
        children[r.randrange(i)].append(i)
    for i in range(n):
        lines = []
        if i == 0:
            lines += ['# main', 'doc = ' + ' '.join(f'S{k}' for k in range(n))]
        mistake = ['Undefd', '{ [ "q" ] }', '$nomacro(S0)'][r.randrange(3)] if i == bad else '"x"'
        decl = [f'S{i} = "s{i}" ' + (mistake if i == bad else f'[ "t{i}" ]')]
        incs = ['@ include = "%s"' % os.path.relpath(paths[j], os.path.dirname(paths[i])) for j in children[i]]
        noise = [r.choice(['', '# @ include = "nofile.ebnf"', f'# comment {i}', '  # @include = \'nofile\'']) for _ in range(r.randint(0, 3))]
        rest = decl + incs + noise
        r.shuffle(rest)
        texts[i] = '\n'.join(lines + rest) + r.choice(['\n', '\n\n', '\n  '])
        if i:
            texts[i] = texts[i].rstrip(' ')
        os.makedirs(os.path.dirname(paths[i]), exist_ok=True)
        with open(paths[i], 'w') as f:
            f.write(texts[i])
        if i == bad:
            line = [l for l in range(len(texts[i].split('\n'))) if texts[i].split('\n')[l].startswith(f'S{i} =')][0] + 1
    w = {'files': {names[i]: texts[i] for i in range(n)}, 'bad': names[bad]}
    ctx.current = w
    good = r.random() < 0.3
    if good:
        texts[bad] = texts[bad].replace('Undefd', '"x"').replace('{ [ "q" ] }', '"x"').replace('$nomacro(S0)', '"x"')
        with open(paths[bad], 'w') as f:
            f.write(texts[bad])

    def go():
        try:
            return dh.quiet(lambda: dh.create_parser(paths[0])), []
        except (dh.DefinitionError, dh.CompilationError) as e:
            return None, e.errors
    ok, got = ctx.guard(go, w)
    ctx.evaluated(('grammar', tuple(texts.values())), True)
    if not ok:
        return
    g, errors = got
    if good:
        ctx.count('grammars with includes: correct')
        if g is None:
            ctx.violation('grammar with includes rejected', f'{[str(e) for e in errors]}\n{w}', w)
            return
        doc = ''.join(f's{k}x' if k == bad else f's{k}' for k in range(n))
        tree = g(doc)
        if tree.errors or not all(tree.pick(f'S{k}') for k in range(n)):
            ctx.violation('grammar with includes does not work', f'{doc} {tree.errors}\n{w}', w)
        return
    ctx.count('grammars with includes: mistake')
    if g is not None:
        ctx.violation('mistake in included grammar not reported', f'{w}', w)
        return
    hits = [e for e in errors if int(e.code) < 10000]
    for e in hits:
        if os.path.normpath(e.orig_doc) != os.path.normpath(paths[bad]) or e.line != line or \
                (e.line, e.column) != linecol(texts[bad], e.orig_pos):
            ctx.violation('error in included grammar wrongly located', f'{e} {e.orig_doc} {e.line}:{e.column} instead of {names[bad]} line {line}\n{w}', w)
            return


def tokens(ctx):
    """parsers for tokens catch exactly their tokens; nodes and errors are at the positions of the original text"""
    from DHParser.preprocess import make_preprocessor, make_token
    r = ctx.rng
    names = r.sample(['T', 'TT', 'BEGIN', 'BEGIN_INDENT', 'END', 'EN', 'A1', 'A'], r.randint(1, 4))
    named = [n for n in names if r.random() < 0.5]
    alts = [('tk_' + n.lower() if n in named else n) for n in names] + ['ch']
    r.shuffle(alts)
    src = f'@ whitespace = //\n@ tokens = {", ".join(names)}\ndoc = {{ {" | ".join(alts)} }}\n' + \
        ''.join(f'tk_{n.lower()} = {n}\n' for n in named) + 'ch = /[^\\x1b!]/\n'
    ok, g = ctx.guard(lambda: dh.quiet(lambda: dh.create_parser(src)), src)
    if not ok:
        return
    orig, out, nodes = '', '', []
    for _ in range(r.randint(0, 10)):
        if r.random() < 0.5:
            n, a = r.choice(names), r.choice(['', 'x', 'a\nb', 'TT', ' '])
            nodes.append(('tk_' + n.lower() if n in named else ':PreprocessorToken', a, len(out)))
            out += make_token(n, a)
            orig += a
        else:
            nodes.append(('ch', r.choice('ab\n '), len(out)))
            out += nodes[-1][1]
            orig += nodes[-1][1]
    bad = r.random() < 0.4
    if bad:
        where, at = len(orig), len(out)
        orig += '!' + r.choice(['', 'ab', '\n\nx'])
        out += orig[where:]
    w = {'grammar': src, 'document': out}
    ctx.current = w
    res = make_preprocessor(lambda text: (out, []))(orig, 'orig.txt')

    def go():
        tree = g(out, source_mapping=res.back_mapping, complete_match=True)
        return tree, [(n.name, n.content, n.pos) for n in tree.select_if(lambda n: n.name != 'doc', include_root=False)], tree.errors
    ok, got = ctx.guard(go, w)
    ctx.evaluated((src, out), bool(out))
    if not ok:
        return
    tree, found, errors = got
    ctx.count('tokenized documents: ' + ('with an error' if bad else 'correct'))
    # anonymous empty leaves may be left out
    want = [x for x in nodes if x[0] != ':PreprocessorToken' or x[1]]
    found = [x for x in found if x[0] in ('ch', ':PreprocessorToken') or x[0].startswith('tk_')]
    found = [x for x in found if x[0] != ':PreprocessorToken' or x[1]]
    if not bad:
        if len(want) == 1 and want[0][0] == ':PreprocessorToken' and not found:
            found = [(':PreprocessorToken', tree.content, 0)]    # has been reduced to the root
            want = [(*want[0][:2], 0)]
        if errors or found != want:
            ctx.violation('tokens: tree', f'{found}\ninstead of {want}\n{errors}\n{w}', w)
    else:
        e = [x for x in errors if x.pos == at]
        if not e:
            ctx.violation('tokens: error missing', f'{errors}\n{w}', w)
        elif (e[0].orig_doc, e[0].orig_pos, (e[0].line, e[0].column)) != ('orig.txt', where, linecol(orig, where)):
            ctx.violation('tokens: error location', f'{e[0]!r} {e[0].orig_pos} instead of {where}\n{w}', w)


def run(ctx):
    for i in range(ctx.n(300, 1500)):
        includes(ctx)
        if i % 4 == 0:
            circular(ctx)
        if i % 3 == 0:
            tokens(ctx)
        if i % 6 == 0:
            grammars(ctx)
