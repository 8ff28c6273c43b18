"""String views and text buffers vs ordinary strings."""
import re
import sys

ALPHA = 'aab b\n\t\rxyäß€😀,;()'
SUBS = ['a', 'b', 'ab', 'aa', '', ' ', '\n', 'xy', 'b ', ',', 'ä', '😀', 'zz']
RXS = [r'a+', r'\w+', r'[ab]*', r'\s+', r'(\w)(\s)?', r'.', r'x?y', r'b|ab', r'[^\w\s]', r'$', r'(?=a)', r'\n']


def same(x, y):
    if isinstance(y, list):
        return [str(e) for e in x] == y
    if isinstance(y, str):
        return str(x) == y
    return x == y


def run(ctx):
    from DHParser.stringview import StringView, TextBuffer, real_indices
    r = ctx.rng
    rxs = [re.compile(x) for x in RXS]

    def idx(n):
        return r.choice([None, 0, 1, -1, n, n - 1, -n, n + 1, n + 3, -n - 2, r.randint(-n - 2, n + 2)])

    def ops(v, s):
        n = len(s)
        a, b = idx(n), idx(n)
        sub = r.choice(SUBS + ([s[i:i + r.randint(1, 4)] for i in [r.randrange(n)]] if n else []))
        rx = r.choice(rxs)
        chars = r.choice(['a', ' b', ',;()', '\n ', 'xyä', ''])
        i = r.randint(-n, n - 1) if n else 0
        yield 'str', lambda x: str(x)
        yield 'len', len
        yield 'bool', bool
        yield 'repr', repr
        yield f'=={sub!r}', lambda x: x == sub
        yield '==s', lambda x: (x == s, s == x, x != s, x == StringView(s), x == StringView('#' + s, 1))
        yield 'hash', hash
        yield f'[{a}:{b}]', lambda x: x[a:b]
        yield f'+{sub!r}', lambda x: (str(x + sub), str(sub + x))
        if n:
            yield f'[{i}]', lambda x: x[i]
        yield 'iter', lambda x: [c for c in x]
        yield f'in {sub!r}', lambda x: sub in x
        p, q = idx(n), idx(n)
        if not (sub == '' and isinstance(p, int) and p > n):
            yield f'find({sub!r},{p},{q})', lambda x: x.find(sub, p, q)
            yield f'rfind({sub!r},{p},{q})', lambda x: x.rfind(sub, p, q)
            yield f'count({sub!r},{p},{q})', lambda x: x.count(sub, p, q)
        yield f'find({sub!r})', lambda x: (x.find(sub), x.rfind(sub), x.count(sub))
        p, q = p or 0, q
        if not (sub == '' and p > n):       # clamped by views
            yield f'startswith({sub!r},{p},{q})', lambda x: x.startswith(sub, p, q)
            yield f'endswith({sub!r},{p},{q})', lambda x: x.endswith(sub, p, q)
        yield f'startswith({sub!r})', lambda x: (x.startswith(sub), x.endswith(sub))
        yield 'strip', lambda x: x.strip()
        yield 'lstrip', lambda x: x.lstrip()
        yield 'rstrip', lambda x: x.rstrip()
        yield f'strip({chars!r})', lambda x: [str(x.strip(chars)), str(x.lstrip(chars)), str(x.rstrip(chars))]
        yield 'split()', lambda x: x.split()
        if sub:
            yield f'split({sub!r})', lambda x: x.split(sub)
            yield f'replace({sub!r})', lambda x: x.replace(sub, '##')

        def span(x, m, base):
            return None if m is None else ([x.index(j) for j in m.span()] if base else list(m.span()), m.group(0))
        is_view = lambda x: isinstance(x, StringView)
        yield f'match {rx.pattern}', lambda x: span(x, x.match(rx), 1) if is_view(x) else span(x, rx.match(x), 0)
        yield f'search {rx.pattern}', lambda x: span(x, x.search(rx), 1) if is_view(x) else span(x, rx.search(x), 0)
        lo, hi = (r.randint(0, n + 1), r.randint(0, n + 1))
        yield f'search {rx.pattern} {lo} {hi}', lambda x: span(x, x.search(rx, lo, hi), 1) if is_view(x) \
            else span(x, rx.search(x, lo, hi), 0)
        yield f'finditer {rx.pattern}', lambda x: [span(x, m, 1) for m in x.finditer(rx)] if is_view(x) \
            else [span(x, m, 0) for m in rx.finditer(x)]
        yield 'indices', lambda x: [x.indices(m.span()) for m in x.finditer(rx)] if is_view(x) \
            else [m.span() for m in rx.finditer(x)]

    for _ in range(ctx.n(3000)):
        text = ''.join(r.choice(ALPHA) for _ in range(r.choice([0, 1, 3, 8, 20, 40])))
        a, b = idx(len(text)), idx(len(text))
        v, s = StringView(text, a, b), text[a:b]
        trail = [f'StringView({text!r},{a},{b})']
        for depth in range(4):
            for name, f in ops(v, s):
                want = f(s)
                if r.random() < 0.2:        # a view that never had its text cached
                    v = StringView(v._text, v._begin, v._end) if hasattr(v, '_begin') else v
                if r.random() < 0.1:
                    str(v)
                w = {'trail': trail, 'operation': name, 'string': s}
                ctx.current = w
                got = f(v)
                ctx.evaluated((s, text, name), True)
                ctx.count('view operations compared')
                if isinstance(want, list) and want and isinstance(want[0], tuple):
                    ok = list(map(str, got)) == list(map(str, want))
                else:
                    ok = same(got, want)
                if not ok:
                    ctx.violation('view', f'{trail} {name}: {got!r}, ordinary string: {want!r}', w)
            if len(v) != len(s):
                break
            a, b = idx(len(s)), idx(len(s))
            v, s = v[a:b], s[a:b]
            trail = trail + [f'[{a}:{b}]']
            ctx.count('views of views')
        i, j = idx(len(text)), idx(len(text))
        x = range(len(text))[slice(i, j)]
        bb, ee = real_indices(i, j, len(text))
        if text[bb:ee] != text[i:j]:
            ctx.violation('real_indices', f'real_indices({i},{j},{len(text)}) = {(bb, ee)}')

    for _ in range(ctx.n(1200)):
        eol = r.choice(['\n', '\n', '\r\n'])
        lines = [''.join(r.choice('abcä😀 ,') for _ in range(r.randint(0, 6))) for _ in range(r.randint(1, 6))]
        ref = '\n'.join(lines)
        start = eol.join(lines)
        if r.random() < 0.2:
            buf = TextBuffer(StringView('##' + start + '##', 2, 2 + len(start)))
        else:
            buf = TextBuffer(start)
        version = 0
        hist = [start]
        ctx.current = w = {'history': hist}
        if r.random() < 0.5:
            inspect(ctx, r, buf, ref, version, hist, False)
        for _ in range(r.randint(1, 12)):
            k = r.choice([1, 1, 2, 3])
            edits = []
            for _ in range(k):
                ls = ref.split('\n')
                l1 = r.randrange(len(ls))
                l2 = min(len(ls) - 1, l1 + r.choice([0, 0, 0, 1, 1, 2, 9]))
                c1 = r.randint(0, len(ls[l1]))
                c2 = r.randint(c1 if l1 == l2 else 0, len(ls[l2]))
                rep = r.choice(['', '', 'x', 'new\ntext', '\n', 'a\nb\nc', 'ö', '\n\n', 'line\n'])
                p1 = sum(len(l) + 1 for l in ls[:l1]) + c1
                p2 = sum(len(l) + 1 for l in ls[:l2]) + c2
                ref = ref[:p1] + rep + ref[p2:]
                if eol == '\r\n' and r.random() < 0.5:
                    rep = rep.replace('\n', '\r\n')
                edits.append((l1, c1, l2, c2, rep))
            hist.append(edits)
            key = r.choice(['text', 'newText'])
            dicts = [{'range': {'start': {'line': a, 'character': b}, 'end': {'line': c, 'character': d}}, key: t}
                     for a, b, c, d, t in edits]
            mode = r.random()
            if mode < 0.4:
                for e in edits:
                    buf.update(*e)
                    version += 1
            elif mode < 0.7:
                version += k + r.randint(0, 3)
                buf.text_edits(dicts, version)
            else:
                if k == 1 and r.random() < 0.5:
                    buf.text_edits(dicts[0])
                else:
                    buf.text_edits(dicts)
                version += k
            ctx.count('edits applied', k)
            inspect(ctx, r, buf, ref, version, hist, True)


def inspect(ctx, r, buf, ref, version, hist, edited):
    ls = ref.split('\n')
    order = ['lines', 'item', 'slice', 'snap', 'snaprn', 'str', 'len', 'version', 'buffer']
    r.shuffle(order)
    for what in order[:r.randint(2, 9)]:
        if what == 'lines':
            got, want = buf.lines(), len(ls)
        elif what == 'item':
            i = r.randrange(len(ls))
            got, want = str(buf[i]), ls[i]
        elif what == 'slice':
            i, j = r.randint(0, len(ls)), r.randint(0, len(ls))
            got, want = [str(x) for x in buf[i:j]], ls[i:j]
        elif what == 'snap':
            got, want = str(buf.snapshot()), ref
        elif what == 'snaprn':
            got, want = str(buf.snapshot('\r\n')), ref.replace('\n', '\r\n')
        elif what == 'str':
            got, want = str(buf).replace('\r\n', '\n'), ref
        elif what == 'len':
            n = len(buf)
            got, want = n in (len(ref), len(str(buf))), True
        elif what == 'version':
            got, want = buf.version, version
        else:
            got, want = [str(x) for x in buf.buffer], ls
        ctx.count('buffer states compared')
        ctx.evaluated((str(hist), what), edited)
        if got != want:
            ctx.violation('buffer-' + what, f'{what}: {got!r}, expected {want!r}; history {hist}', {'history': hist})
