"""JSON encoders and text utilities of the toolkit keep the meaning of the data."""
import json
import re
import string

STR = ['', 'a', 'ä€😀', '"', '\\', '\n', '\r\t\b\f', '\x00\x1f', '\x7f', '\u2028', '</x>', '{}', '%s', "it's", 'null', '\\u0041',
       '\ud83d'[:0] + 'x', '\\"', 'key: "v"', '/']


def text(r, n=6):
    return ''.join(r.choice(STR) if r.random() < 0.6 else chr(r.choice([r.randrange(32, 127), r.randrange(0, 32),
                   r.randrange(160, 0x2fff), r.randrange(0x10000, 0x10ffff)])) for _ in range(r.randint(0, n)))


def value(r, d):
    k = r.random()
    if d <= 0 or k < 0.4:
        return r.choice([None, True, False, 0, 1, -1, 2**70, -2**33, 1.5, -0.0, 1e300, 1e-7, 123456789.123, r.uniform(-9, 9) * 10.0 ** r.randint(-30, 30), text(r), text(r), ''])
    if k < 0.7:
        return [value(r, d - 1) for _ in range(r.choice([0, 1, 1, 2, 3]))]
    if k < 0.75:
        return tuple(value(r, d - 1) for _ in range(r.choice([0, 1, 2])))
    return {text(r, 3): value(r, d - 1) for _ in range(r.choice([0, 1, 1, 2, 3]))}


def plain(v):
    return json.loads(json.dumps(v))


def exact(a, b):
    return json.dumps(a, sort_keys=False) == json.dumps(b, sort_keys=False)


def with_fragments(r, v, tk):
    """(value containing serialized fragments and null objects)"""
    k = r.random()
    if k < 0.2:
        return tk.JSONstr(json.dumps(v, indent=r.choice([None, 2]), ensure_ascii=r.random() < 0.5))
    if v is None and k < 0.7:
        return r.choice([tk.JSONnull, tk.JSONnull()])
    if isinstance(v, (list, tuple)):
        return type(v)(with_fragments(r, x, tk) for x in v)
    if isinstance(v, dict):
        return {a: with_fragments(r, b, tk) for a, b in v.items()}
    return v


def has_newline(v):
    if isinstance(v, str):
        return '\n' in v
    if isinstance(v, dict):
        return any(has_newline(x) for x in v.values())
    return isinstance(v, (list, tuple)) and any(map(has_newline, v))


class Point:
    def __init__(self, v):
        self.v = v


class Enc(json.JSONEncoder):
    def default(self, o):
        if isinstance(o, Point):
            return {'point': o.v}
        return super().default(o)


def check_json(ctx, r, tk, what, produce, want, w):
    ctx.current = w
    s = produce()
    ctx.count('encodings decoded again')
    ctx.evaluated((what, s), True)
    try:
        got = json.loads(s)
    except ValueError as e:
        ctx.violation(what, f'invalid JSON ({e}): {s!r} for {w!r}', w)
        return
    if not exact(got, plain(want)):
        ctx.violation(what, f'{s!r} decodes to {got!r}, expected {want!r}', w)


def regex_brackets(rx, openb, closeb):
    """positions of control-brackets of a regular expression"""
    out, i, in_set = [], 0, -1
    while i < len(rx):
        c = rx[i]
        if c == '\\':
            i += 2
            continue
        if in_set >= 0:
            if c == ']' and i > in_set + 1 and not (rx[in_set + 1] == '^' and i == in_set + 2):
                in_set = -1
                if openb == '[':
                    out.append((i, ']'))
        elif c == '[':
            in_set = i
            if openb == '[':
                out.append((i, '['))
        elif c in (openb, closeb):
            out.append((i, c))
        i += 1
    return out


def match_up(tokens, openb):
    stack, res, un = [], [], []
    for i, c in tokens:
        if c == openb:
            stack.append(i)
        elif stack:
            res.append((stack.pop(), i))
        else:
            un.append(i)
    return res, sorted(un + stack)


def regex(r, d):
    k = r.random()
    if d <= 0 or k < 0.4:
        return r.choice(['a', 'b', r'\(', r'\)', r'\[', r'\]', r'\\', '[()]', '[^)]', r'[\])(]', '[]()]', '[^](]', r'\d', '.',
                         r'[\\]', '[[]', 'x', r'\\\(', '[a-z(]'])
    if k < 0.7:
        return r.choice(['(', '(?:', '(?=']) + regex(r, d - 1) + ')'
    return regex(r, d - 1) + r.choice(['', '|', '']) + regex(r, d - 1)


def run(ctx):
    from DHParser import toolkit as tk
    r = ctx.rng
    for i in range(ctx.n(4000)):
        v = value(r, r.choice([1, 2, 3, 4]))
        w = {'value': repr(v)}
        check_json(ctx, r, tk, 'json_dumps', lambda: tk.json_dumps(v), v, w)
        check_json(ctx, r, tk, 'json_dumps-partially', lambda: tk.json_dumps(v, partially_serialized=True), v, w)
        f = with_fragments(r, v, tk)
        check_json(ctx, r, tk, 'json_dumps-fragments', lambda: tk.json_dumps(f, partially_serialized=True), v, w)
        check_json(ctx, r, tk, 'json_dumps-encoder', lambda: tk.json_dumps([Point(v), Point(1)], cls=Enc,
                   partially_serialized=bool(i % 2)), [{'point': v}, {'point': 1}], w)
        if not has_newline(v):
            check_json(ctx, r, tk, 'pp_json', lambda: tk.pp_json(f), v, w)
            check_json(ctx, r, tk, 'pp_json_str', lambda: tk.pp_json_str(json.dumps(v)), v, w)
        ident = r.choice([None, 0, 1, 77, 'x'])
        meth = r.choice(['m', 'a/b', '$/x', 'ä"\\'])
        want = {'jsonrpc': '2.0', 'method': meth, 'params': v}
        if ident is not None:
            want['id'] = ident
        check_json(ctx, r, tk, 'json_rpc', lambda: tk.json_rpc(meth, f, ident), want, w)
        check_json(ctx, r, tk, 'json_rpc-plain', lambda: tk.json_rpc(meth, v, ident, partially_serialized=False), want, w)
        if i == 0:
            ctx.sample(want)
        s = text(r, 5)
        if json.loads(tk.json_encode_string(s)) != s:
            ctx.violation('json_encode_string', f'{s!r} -> {tk.json_encode_string(s)!r}')

    for _ in range(ctx.n(5000)):
        # brackets
        o, c = r.choice([('(', ')'), ('[', ']'), ('{', '}'), ('<<', '>>'), ('begin', 'end')])
        t = ''.join(r.choice([o, c, o, c, 'a', ' ', '\n', 'b']) for _ in range(r.randint(0, 14)))
        toks = [(m.start(), m.group(0)) for m in re.finditer(re.escape(o) + '|' + re.escape(c), t)]
        want, un = match_up(toks, o)
        ctx.current = {'text': t, 'brackets': [o, c]}
        u = []
        got = tk.matching_brackets(t, o, c, u)
        ctx.count('bracket matchings compared')
        ctx.evaluated((t, o), len(want) > 0)
        if sorted(got) != sorted(want) or sorted(u) != un or sorted(tk.matching_brackets(t, o, c)) != sorted(want):
            ctx.violation('matching_brackets', f'{t!r} {o}{c}: {got} unmatched {u}, expected {want} unmatched {un}', ctx.current)
        rx = regex(r, 4)
        if r.random() < 0.2:
            rx = r.choice([rx + '(', ')' + rx, rx.replace('(', '', 1)])
        o, c = r.choice([('(', ')'), ('(', ')'), ('[', ']')])
        want, un = match_up(regex_brackets(rx, o, c), o)
        u = []
        ctx.current = {'regex': rx, 'brackets': [o, c]}
        got = tk.matching_brackets(rx, o, c, u, is_regex=True)
        ctx.count('regex bracket matchings compared')
        ctx.evaluated((rx, o), len(want) > 0)
        if sorted(got) != sorted(want) or sorted(u) != un:
            ctx.violation('matching_brackets-regex', f'{rx!r} {o}{c}: {got} unmatched {u}, expected {want} unmatched {un}',
                          ctx.current)
        # identifiers
        s = text(r, 6) + r.choice(['', 'a-b', 'x y', '1.2'])
        rep = r.choice(['_', '_', 'X', '__'])
        ident = tk.as_identifier(s, rep)
        want = ''.join(ch if re.match(r'\w', ch) else rep for ch in s)
        ctx.count('identifiers compared')
        if ident != want:
            ctx.violation('as_identifier', f'{s!r} -> {ident!r}, expected {want!r}', {'text': s})
        # string literals
        n = r.choice([0, 3, 30, 90, 200])
        s = ''.join(r.choice(['a', 'b c', 'é', '\\', '\n', '\t', "'", '"', '\x07', '\u200b', '\U000e0001', '\\d', '123', '\x7f',
                              'Zz', ' ', '{', '}', 'xyz']) for _ in range(n))
        lit, col, off = repr(s), r.choice([10, 11, 13, 25, 40, 80]), r.choice([0, 3, 8])
        ctx.current = {'literal': lit, 'column': col}
        wrapped = tk.wrap_str_literal(lit, col, off)
        ctx.count('literals wrapped')
        ctx.evaluated((lit, col), wrapped != lit)
        check_lit(ctx, wrapped, s, lit)
        raw = re.sub(r'["\n\x00]|\\+$', '', s)
        k = len(raw)
        while k and raw[:k].endswith('\\'):
            k -= 1
        lit = 'r"' + raw[:k] + '"'
        ctx.current = {'literal': lit, 'column': col}
        check_lit(ctx, tk.wrap_str_literal(lit, col, off), raw[:k], lit)
        # nice wrapping
        s = ''.join(r.choice(['word', '(a', ')', ') ', ', ', ' ', ',', ']>', 'longerword_without_break', 'x', '<', ')))',
                              '"str"']) for _ in range(r.choice([1, 10, 30, 80])))
        col = r.choice([26, 40, 79, len(s) - 1, len(s), len(s) + 1])
        tol = r.choice([2, 8, 24])
        if col > tol and s:
            ctx.current = {'text': s, 'column': col, 'tolerance': tol}
            out = tk.wrap_str_nicely(s, col, tol)
            ctx.count('texts wrapped')
            ctx.evaluated((s, col, tol), '\n' in out)
            if out.replace('\n', '') != s:
                ctx.violation('wrap_str_nicely', f'{s!r} -> {out!r}', ctx.current)
        # format strings
        s = ''.join(r.choice(['a', '{', '}', 'b ', '"', '%', ' {x} ', '{0}']) for _ in range(r.randint(0, 8)))
        if '{{' not in s and '}}' not in s:
            e = tk.escape_formatstr(s)
            ctx.count('format strings compared')
            if e.format() != s:
                ctx.violation('escape_formatstr', f'{s!r} -> {e!r}', {'text': s})
        # control characters
        s = ''.join(r.choice(['a', '\n', '\t', '\r', '\x00', "'", '"', 'ä', ' ']) for _ in range(r.randint(0, 8)))
        e = tk.escape_ctrl_chars(s)
        ctx.count('escapes compared')
        if any(ord(ch) < 32 for ch in e) or unescape(e) != s:
            ctx.violation('escape_ctrl_chars', f'{s!r} -> {e!r}', {'text': s})
        # tables
        table, want, names = {}, {}, list(string.ascii_lowercase)
        r.shuffle(names)
        sep = r.choice([', ', ',', '; ', ' '])
        for _ in range(r.randint(0, 5)):
            ks = [names.pop() + r.choice(['', '_X', ':y']) for _ in range(r.randint(1, 4))]
            v = r.randrange(100)
            table[r.choice([sep.join(ks), tuple(ks), frozenset(ks)])] = v
            want.update((k, v) for k in ks)
        ctx.current = {'table': repr(table)}
        ctx.count('tables compared')
        ctx.evaluated(repr(table), bool(table))
        if tk.expand_table(table) != want:
            ctx.violation('expand_table', f'{table} -> {tk.expand_table(table)}', ctx.current)
        if want:
            k = r.choice(sorted(want))
            try:
                tk.expand_table({**table, (k, 'zz0'): 1})
                ctx.violation('expand_table-duplicate', f'{k} twice in {table}: no error', ctx.current)
            except KeyError:
                ctx.count('duplicate keys rejected')


def unescape(e):
    """inverse of the backslash notation for control characters and quotes"""
    m = {'n': '\n', 't': '\t', 'r': '\r'}
    return re.sub(r"\\(x[0-9a-f]{2}|[ntr'\"])", lambda k: chr(int(k[1][1:], 16)) if k[1][0] == 'x' else m.get(k[1], k[1]), e)


def check_lit(ctx, wrapped, s, lit):
    try:
        got = eval('(' + wrapped + ')')
    except (SyntaxError, ValueError) as e:
        got = e
    if got != s:
        ctx.violation('wrap_str_literal', f'{lit} wrapped as {wrapped} means {got!r}', ctx.current)
