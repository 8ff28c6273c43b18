"""Grammar-test framework: verdicts against a plain parse with a fresh parser, test files read back as written."""
import copy, json, os, re
from collections import OrderedDict as OD
from vt import dh, peg

EBNF = {
    'arith': ('''@ whitespace = /[ \\t]*/
@ literalws = right
@ disposable = _unit
expr = term { ("+" | "-") term }
term = factor { ("*" | "/") factor }
factor = number | name | "(" § expr ")"
_unit = number | name
number = /[0-9]+/~
name = /[a-z]+/~
''', ['expr', 'term', 'factor', 'number', 'name'],
              ['1', '1+2', '1 + 2 * x', '(1+2)*3', '((a))', 'a b', '(1', '1+', ' 1', '1 ', 'x1', '', '(a+(b*c)-1)/2', 'abc', '12', '1 +', 'a*/b', '124']),
    'settings': ('''@ whitespace = /[ ]*/
@ literalws = right
doc = { line } EOF
line = ~ (entry | comment | `` ) NL
entry = key "=" § value
key = /[a-z_]+/~
value = string | list | /[0-9]+/~
string = '"' /[^"\\n]*/ '"' ~ | "'" /[^'\\n]*/ "'" ~
list = "[" § [value { "," § value }] "]"
comment = /#[^\\n]*/
NL = /\\n/
EOF = !/./
''', ['line', 'entry', 'value', 'list', 'string', 'comment', 'key', 'doc'],
                 ['a = 1\n', 'a = 1', 'a = "x y"', "b = 'it'", '["a", 1, [2]]', '[1, 2', '# comment', 'a = 1\nb = [1,\n2]\n',
                  '\n', 'a\n', '"x"', "''", '[]', 'a = 1\n  # c\n\nb=2\n', 'a_b', '1', 'a =', '[1,,2]', '    a = 1\n', 'a = "\'"']),
    'markup': ('''@ disposable = _char
text = { bold | quote | word | gap }+
bold = "*" { word | gap | quote }+ §"*"
quote = `"` { word | gap } `"`
word = /[A-Za-z.,:;äöü#\\[\\]()]+/
gap = /\\s+/
para = text &(`%` | EOF)
until = { !`.` _char }+
_char = /[^\\n]/
EOF = !/./
''', ['text', 'bold', 'quote', 'word', 'gap', 'para', 'until'],
               ['a', 'one two', '*b*', '*b', '"q"', '"q *b* "', '*a "q" c*', 'one\n  two\n\nthree', ' ', '', 'a%', '[match:x]', '#c',
                'M1:', '(a b)', '<a>', 'abc.', 'ab.c', 'line\n    *bold*\n  end', '""', '*', 'ä ö', "a\n\n    b", 'a\nM1: b', ';x\n#y\n[a:b]'])
}
LOOKAHEAD = {('markup', 'para'), ('markup', 'until'), ('settings', 'doc')}

TABLES = {
    'arith': lambda D: {'expr, term': [D.replace_by_single_child], 'factor': [D.remove_children({':Text'}), D.replace_by_single_child], 'number, name': [D.reduce_single_child]},
    'settings': lambda D: {'line': [D.remove_children({'NL'}), D.strip(D.is_empty)], 'value': [D.replace_by_single_child], 'string': [D.collapse], 'key': [D.reduce_single_child]},
    'markup': lambda D: {'word, gap': [D.reduce_single_child], 'quote': [D.collapse], 'text': [D.flatten, D.replace_by_single_child], 'until': [D.collapse]},
    'random': lambda D: {'*': [D.replace_by_single_child]},
}


class Setting:
    def __init__(self, name, src, symbols, docs):
        self.name, self.symbols, self.docs = name, symbols, docs
        self.provider = dh.quiet(lambda: dh.grammar_provider(src, 'root' if name == 'random' else name.capitalize()))
        self.parser = dh.quiet(self.provider)
        import DHParser.transform as D
        import DHParser.dsl as dsl
        table = TABLES['random' if name == 'random' else name](D)
        self.table = table
        self.D = D

    def transform(self, tree):
        self.D.traverse(tree, self.table)
        tree.stage = 'AST'

    def fresh(self):
        return self.parser.__class__()


SETTINGS = {}


def setting(name):
    if name not in SETTINGS:
        SETTINGS[name] = Setting(name, *EBNF[name])
    return SETTINGS[name]


def random_setting(r):
    gen = peg.GrammarGen(r, nsym=r.choice([(2, 4), (3, 6)]), lookaround=False)
    g = gen.grammar()
    src = peg.show_grammar(g)
    try:
        s = Setting('random', src, list(g), sorted(set(peg.documents(r, g, 14))))
        s.fresh()
        return s
    except Exception as e:
        if dh.is_known_exc(e):
            return None
        raise


def key(nd):
    a = tuple(sorted((k, str(v)) for k, v in nd.attr.items())) if nd.has_attr() else ()
    return (nd.name, a, tuple(key(c) for c in nd.children) if nd.children else str(nd.result))


def outcome(ctx, st, symbol, text, fail=False):
    """(accepted, CST, AST, value) of a plain parse with a parser of its own"""
    g = st.fresh()
    kw = {'complete_match': True} if fail else {}
    cst = g(text, symbol, **kw)
    errs = dh.true_errors(cst)
    ast = copy.deepcopy(cst)
    if not errs:
        st.transform(ast)
    return not errs, cst, ast


def render(nd):
    """the value-stage of these tests"""
    return nd.name.strip(':') + '<' + (','.join(render(c) for c in nd.children) if nd.children else str(nd.result)) + '>'


def renderer():
    return render


def altered(r, Node, nd):
    """a tree that differs in one place"""
    nd = copy.deepcopy(nd)
    k0 = key(nd)
    for _ in range(20):
        t = copy.deepcopy(nd)
        x = r.choice(list(t.select_if(lambda n: True, include_root=True)))
        k = r.randrange(5)
        if k == 0:
            x.name = 'other'
        elif k == 1 and not x.children:
            x.result = str(x.result) + 'z'
        elif k == 2 and len(x.children) > 1:
            x.result = x.children[:-1]
        elif k == 3 and len(x.children) > 1:
            x.result = tuple(reversed(x.children))
        elif k == 4 and x.children:
            x.result = x.children + (Node('extra', 'e'),)
        elif k == 4:
            x.attr['id'] = '1'
        else:
            continue
        if key(t) != k0:
            return t
    nd.name = 'other'
    return nd


def plain(nd):
    """without root-node-properties"""
    from DHParser.nodetree import Node
    return Node(nd.name, tuple(plain(c) for c in nd.children) if nd.children else str(nd.result))


def expectation(ctx, st, tree, wrong):
    """An expectation of a tree-stage: (notation for dictionaries and JSON, text for a config-file)"""
    from DHParser.nodetree import Node, flatten_sxpr
    r = ctx.rng
    t = plain(tree)
    k = r.random()
    content = tree.content
    if k < 0.3 and '"""' not in content and not content.endswith('"'):
        if wrong:
            content = r.choice([content + 'x', '', content[1:], 'x', '124', content + ' '])
            if content == tree.content:
                content = tree.content + '!'
        elif not content:
            return None
        if re.match(r'\s*[(<{\["]', content):    # might be read as a tree
            return None
        if wrong and r.random() < 0.3 and not re.search(r'\s', content) and re.fullmatch(r'[a-z0-9]+', content):
            return content, content, 'flat'
        return content, ('quoted', content), 'flat'
    if wrong:
        t = altered(r, Node, t)
    if re.search(r'[\\\x00-\x1f"\']', tree.content) or k > 0.85:
        s = t.as_json()
        return (s if r.random() < 0.5 else t), s.replace('\n', '\n    '), 'json'
    s = t.as_sxpr()
    if r.random() < 0.5:
        s = flatten_sxpr(s)
    return (s if r.random() < 0.5 else t), s.replace('\n', '\n    '), 'sxpr'


def names(r, n):
    pool = ['M1', 'M2', 'M10', 'a', 'b', 'simple', 'not_simple', 'x.y', '1', '2', '001', 'Überschrift', 'case_3', 'm1', 'F1', 'T']
    r.shuffle(pool)
    return pool[:n]


def suite(ctx, st):
    """{symbol: {stage: {name: (value, config-text, kind)}}} and the expected verdicts"""
    r = ctx.rng
    unit, want = OD(), {}
    for sym in r.sample(st.symbols, r.randint(1, min(4, len(st.symbols)))):
        look = (st.name, sym) in LOOKAHEAD
        ns = names(r, r.randint(1, 8))
        stages = OD()
        kinds = ['match', 'fail', 'AST', 'CST', 'value']
        use = {k: r.random() < p for k, p in zip(kinds, (0.9, 0.6, 0.6, 0.4, 0.4))}
        for nm in ns:
            text = r.choice(st.docs)
            typ = 'fail' if use['fail'] and (not use['match'] or r.random() < 0.4) else 'match'
            ok, cst, ast = outcome(ctx, st, sym, text, typ == 'fail')
            if (ok if typ == 'fail' else not ok) and r.random() < 0.75:
                ok, cst, ast = outcome(ctx, st, sym, text, typ != 'fail')
                typ = 'fail' if typ == 'match' else 'match'
                ok = outcome(ctx, st, sym, text, typ == 'fail')[0]
            stages.setdefault(typ, OD())
            key_ = nm + ('*' if r.random() < 0.15 else '')
            stages[typ][key_] = (text, ('quoted', text), 'text')
            if typ == 'fail':
                want[sym, nm] = 'fail-test' if ok else None
                if look and not ok:
                    want[sym, nm] = '?'
                continue
            want[sym, nm] = None if ok else 'match-test'
            if look and not ok:
                want[sym, nm] = '?'
            for stage, tree in (('CST', cst), ('AST', ast)):
                if use[stage] and r.random() < 0.7:
                    wrong = r.random() < 0.4
                    e = expectation(ctx, st, tree, wrong)
                    if e is None:
                        continue
                    k2 = nm + ('*' if key_ != nm and r.random() < 0.5 else '')
                    if r.random() < 0.06:
                        k2 = nm + '*'
                    stages.setdefault(stage if r.random() < 0.8 else stage.lower(), OD())
                    low = stage.lower() if stage.lower() in stages else stage
                    if stage in stages and low in stages and stage != low:
                        low = stage
                    stages[low][k2] = e
                    if wrong and want[sym, nm] is None:
                        want[sym, nm] = stage + '-test ' + e[2]
            if use['value'] and r.random() < 0.6:
                s = render(ast)
                wrong = r.random() < 0.4
                if wrong:
                    s = s + r.choice(['x', ' ', '>'])
                if s.strip('\n') != s or '"""' in s or '\n' in s:
                    continue
                stages.setdefault('value', OD())[nm] = (s, ('quoted', s), 'value')
                if wrong and want[sym, nm] is None:
                    want[sym, nm] = 'value-test'
        for a in ('AST', 'CST'):
            if a in stages and a.lower() in stages:
                stages[a].update(stages.pop(a.lower()))
        if stages:
            items = list(stages.items())
            order = {'match': 0, 'fail': 1}
            items.sort(key=lambda kv: order.get(kv[0], 2))
            if r.random() < 0.3:
                r.shuffle(items)
            unit[sym] = OD(items)
    return unit, want


# ---------------------------------------------------------------- files

def quote(r, s):
    """s in quotation marks or None"""
    qs = [q for q in (('"', "'", '"""', "'''") if '\n' not in s else ('"""', "'''"))
          if q not in s and not s.endswith(q[0])]
    if not qs:
        return None
    q = r.choice(qs)
    ls = s.split('\n')
    return q + '\n    '.join(ls) + q


def comment(r):
    return r.choice(['', '', '\n', '# a comment\n', '; another: "comment"\n', '\n\n', '# [match:x]\n'])


def as_config(r, unit, meta=None):
    out = [comment(r)]
    if meta:
        out.append('[config]\n' + ''.join(f'{k}: {v}\n' for k, v in meta.items()) + '\n')
    for sym, stages in unit.items():
        for stage, cases in stages.items():
            out.append(f'[{stage}:{sym}]\n' + comment(r))
            for nm, (_, txt, _) in cases.items():
                if isinstance(txt, tuple):
                    txt = quote(r, txt[1])
                    if txt is None:
                        return None
                out.append(f'{nm}{r.choice([": ", ":", " = ", " : ", "=", ":   "])}{txt}\n' + comment(r))
    return ''.join(out)


def values(unit):
    return OD((sym, OD((stage, OD((nm, v[0]) for nm, v in cases.items())) for stage, cases in stages.items()))
              for sym, stages in unit.items())


def as_json(unit):
    from DHParser.nodetree import Node
    d = values(unit)
    for stages in d.values():
        for cases in stages.values():
            for nm, v in cases.items():
                if isinstance(v, Node):
                    cases[nm] = v.as_json()
        for a in ('ast', 'cst'):
            if a in stages:
                stages[a.upper()] = stages.pop(a)
    return json.dumps(d, indent=2)


# ---------------------------------------------------------------- verdicts

def failures(unit):
    return {(sym, nm.strip('*')) for sym, stages in unit.items() if sym[-2:] != '__' for nm in stages.get('__err__', {})}


def verdicts(ctx, st):
    from DHParser import testing
    from DHParser.configuration import get_config_value
    r = ctx.rng
    unit, want = suite(ctx, st)
    if not unit:
        return
    rep = r.choice(['', '', 'REPORT'])
    junctions = {('AST', renderer, 'value')}
    how = r.choice(['dictionary', 'dictionary', 'config', 'json'])
    meta = None
    os.chdir(ctx.tmp)
    if how == 'config':
        if r.random() < 0.3:
            meta = r.choice([{'test_suppress_lookahead_failures': 'True'}, {'log_syntax_trees': '["CST"]'} if False else {'max_parser_dropouts': '4'}])
        text = as_config(r, unit, meta)
        if text is None:
            return
        arg = os.path.join(ctx.tmp, f'test_{ctx.rng.randrange(10**6)}.ini')
    elif how == 'json':
        text = as_json(unit)
        arg = os.path.join(ctx.tmp, f'test_{ctx.rng.randrange(10**6)}.json')
    ctx.current = (st.name, how, repr(unit) if how == 'dictionary' else text)
    if how == 'dictionary':
        test = values(unit)
    else:
        with open(arg, 'w', encoding='utf-8') as f:
            f.write(text)
        ok, test = ctx.guard(lambda: testing.unit_from_file(arg, testing.UNIT_STAGES | {'value'}), 'reading a test file')
        if not ok:
            return
    before = {k: get_config_value(k) for k in meta or {}}
    stale = st.parser.history_tracking__
    ok, errata = ctx.guard(lambda: dh.quiet(lambda: testing.grammar_unit(test, lambda: st.parser, lambda: st.transform, report=rep,
                                                                         verbose=r.random() < 0.3, junctions=junctions)), 'grammar_unit ' + how)
    if not ok:
        return
    got = failures(test)
    ctx.count('suites: ' + how)
    for case, w in want.items():
        if w == '?':
            ctx.count('verdicts: left open (lookahead)')
            continue
        ctx.evaluated((st.name, case, w, repr(unit[case[0]])), w is not None)
        ctx.count('verdicts: ' + ('success' if w is None else 'failure of ' + w))
        if (case in got) != (w is not None):
            ctx.violation(('missed: ' if w else 'false alarm: ') + (w or how), f'{case}: expected {w}\n{errata}\n{unit[case[0]]!r}', ctx.current)
    if not any(w == '?' for w in want.values()) and bool(errata) != any(want.values()):
        ctx.violation('summary', f'{errata} but expected {want}', ctx.current)
    if any((sym, nm) not in want for sym, nm in got):
        ctx.violation('unknown test', f'{got} {want}', ctx.current)
    for k, v in before.items():
        if get_config_value(k) != v:
            ctx.violation('configuration left changed', f'{k}: {v} -> {get_config_value(k)}', ctx.current)
    if st.parser.history_tracking__ != stale:
        ctx.violation('tracing left switched on', '', ctx.current)
    if how == 'dictionary' and r.random() < 0.5:
        # reset and run again
        dh.quiet(lambda: testing.reset_unit(test))
        ok, e2 = ctx.guard(lambda: dh.quiet(lambda: testing.grammar_unit(test, lambda: st.parser, lambda: st.transform, report='',
                                                                         junctions=junctions)), 'grammar_unit again')
        ctx.count('suites: repeated')
        if ok and failures(test) != got:
            ctx.violation('repetition', f'{got} then {failures(test)}', ctx.current)
    if rep:
        p = os.path.join(ctx.tmp, 'REPORT')
        shutil_clean(p)


def shutil_clean(p):
    if os.path.isdir(p):
        for f in os.listdir(p):
            os.remove(os.path.join(p, f))


def several(ctx, st):
    """a directory of test files"""
    from DHParser import testing
    r = ctx.rng
    d = os.path.join(ctx.tmp, f'suite{r.randrange(10**6)}')
    os.mkdir(d)
    expect, unsure = {}, set()
    for i in range(r.randint(2, 4)):
        unit, want = suite(ctx, st)
        fmt = r.choice(['ini', 'json'])
        for stages in unit.values():
            stages.pop('value', None)
        if any((w or '').startswith('value') for w in want.values()):
            continue
        text = as_config(r, unit) if fmt == 'ini' else as_json(unit)
        if not unit or text is None or not all(unit.values()):
            continue
        nm = f'{i:02}_test_{i}.{fmt}'
        with open(os.path.join(d, nm), 'w', encoding='utf-8') as f:
            f.write(text)
        if '?' in want.values():
            unsure.add(nm)
        expect[nm] = [c for c, w in want.items() if w and w != '?']
        ctx.current = (ctx.current if i else ()) or ()
        ctx.current = tuple(ctx.current) + (nm, text)
    if not expect:
        return
    cwd = os.getcwd()
    dh.set_config_value('test_parallelization', False)
    ok, rep = ctx.guard(lambda: dh.quiet(lambda: testing.grammar_suite(d, lambda: st.parser, lambda: st.transform, report='', verbose=r.random() < 0.3)),
                        'grammar_suite')
    if not ok:
        return
    ctx.count('directories of tests')
    if os.getcwd() != cwd:
        ctx.violation('working directory', f'{cwd} {os.getcwd()}', ctx.current)
    for nm, failed in expect.items():
        shown = f'"{nm}"' in rep
        ctx.evaluated((st.name, nm, ctx.current), bool(failed))
        ctx.count('test files: ' + ('with failures' if failed else 'passed'))
        if shown != bool(failed) and nm not in unsure:
            ctx.violation('suite', f'{nm}: {failed} {rep}', ctx.current)


# ---------------------------------------------------------------- reading files

PIECES = ['a', 'word', ' ', '  ', '    ', '"', "'", '""', '"""', "'''", '#', ';', ':', '=', '[', ']', '(x y)', '<a>', '\\', 'ä', '€', '{', '}', '\n', '\n', '\n\n',
          '\n    ', '\n  ', '\n        ', '[match:doc]', '\nM1: "x"', '\n# no comment', ', ', '\\n', '*']


def free_text(r):
    return ''.join(r.choice(PIECES) for _ in range(r.choice([0, 1, 2, 3, 5, 8, 13])))


def read_back(ctx):
    from DHParser import testing
    r = ctx.rng
    unit = OD()
    for sym in r.sample(['doc', 'word', 'x', 'S_1', 'Größe', 'config_'], r.randint(1, 4)):
        for stage in r.sample(['match', 'fail'], r.randint(1, 2)):
            ns = names(r, r.randint(0, 6))
            taken = {n.strip('*') for st in unit.get(sym, {}).values() for n in st}
            unit.setdefault(sym, OD())[stage] = OD((n + ('*' if r.random() < 0.1 else ''), free_text(r)) for n in ns if n not in taken)
    how = r.choice(['own', 'own', 'unit_to_config', 'json'])
    if how == 'json':
        ext, text = 'json', json.dumps(unit, ensure_ascii=r.random() < 0.5, indent=r.choice([None, 1, 4]))
    elif how == 'own':
        ext = 'ini'
        text = as_config(r, OD((s, OD((st, OD((n, (v, ('quoted', v), '')) for n, v in cs.items())) for st, cs in sts.items())) for s, sts in unit.items()))
        if text is None:
            return
    else:
        ext = 'ini'
        can = all(quote(r, v) is not None for sts in unit.values() for cs in sts.values() for v in cs.values())
        try:
            text = testing.unit_to_config(unit)
        except ValueError as e:
            ctx.count('files: not expressible')
            if can:
                ctx.violation('unit_to_config refuses', f'{unit!r} {e}', unit)
            return
    ctx.current = text
    p = os.path.join(ctx.tmp, f'rb_test.{ext}')
    with open(p, 'w', encoding='utf-8') as f:
        f.write(text)
    ok, back = ctx.guard(lambda: testing.unit_from_file(p), 'reading back: ' + how)
    if not ok:
        return
    ctx.count('files read back: ' + how)
    ctx.evaluated((how, text), any(v for sts in unit.values() for cs in sts.values() for v in cs.values()))
    for sym, sts in unit.items():
        for stage, cs in sts.items():
            ctx.count('cases read back', len(cs))
            b = back.get(sym, {}).get(stage)
            if b != cs or list(b) != list(cs):
                bad = [(n, v, (b or {}).get(n)) for n, v in cs.items() if (b or {}).get(n) != v]
                ctx.violation('read back: ' + how, f'{sym}:{stage}: {bad or b}', text)
    if set(back) != set(unit):
        ctx.violation('read back: symbols', f'{list(back)}', text)


def unquoted(ctx):
    """test code without quotation marks"""
    from DHParser import testing
    r = ctx.rng
    lines = ['word', 'x = 1', 'a b  c', '    deeper', '        much deeper', 'M1: x', '[a]', '# line', 'y', '"quoted" + 1', 'ä']
    cases = OD()
    out = ['[match:doc]\n']
    for n in names(r, r.randint(1, 5)):
        ls = [r.choice(['word', 'x = 1', 'a b', 'end.', 'f(x)', '(a b)', '<a/>', '1'])]
        for _ in range(r.choice([0, 0, 1, 2, 4])):
            ls.append(r.choice(lines + ['']) if ls[-1] else r.choice(lines))
        while not ls[-1]:
            ls.pop()
        if len(ls) > 1 and all(l.startswith('    ') or not l for l in ls[1:]):
            ls.append('flush')
        cases[n] = '\n'.join(ls)
        out.append(f'{n}: ' + '\n    '.join(ls).replace('\n    \n', '\n\n') + '\n' + r.choice(['', '\n', '# c\n', '\n; c\n']))
    text = ''.join(out)
    ctx.current = text
    ok, back = ctx.guard(lambda: testing.unit_from_config(text, 'x.ini'), 'reading unquoted code')
    if not ok:
        return
    ctx.count('files read back: unquoted')
    ctx.evaluated(text, True)
    b = back['doc']['match']
    for n, v in cases.items():
        ctx.count('cases read back')
        if b.get(n) != v:
            ctx.violation('read back: unquoted', f'{n}: {v!r} -> {b.get(n)!r}', text)
    if list(b) != list(cases):
        ctx.violation('read back: unquoted names', f'{list(cases)} -> {list(b)}', text)


def malformed(ctx):
    from DHParser import testing
    r = ctx.rng
    entries = [f'{n}: "{r.choice("abc")}"\n' for n in names(r, r.randint(2, 5))]
    kind = r.choice(['stage', 'duplicate', 'garbage', 'no section', 'section', 'indent', 'quote', 'match and fail', 'symbol', 'json', 'json stage', 'json duplicate',
                     'trailing', 'duplicate in other block', 'file type', 'duplicate star', 'after quote'])
    i = r.randrange(len(entries))
    nm = entries[i].split(':')[0]
    ext, head = 'ini', '[match:doc]\n'
    if kind == 'stage':
        head = f'[{r.choice(["mach", "Match", "ASTX", "CTS", "fails", "match2"])}:doc]\n'
    elif kind == 'duplicate':
        entries.append(f'{nm}: "other"\n')
    elif kind == 'duplicate star':
        entries.append(f'{nm}*: "other"\n')
    elif kind == 'duplicate in other block':
        entries.append(f'[match:word]\n{nm}: "x"\n[match:doc]\n{nm}: "y"\n')
    elif kind == 'garbage':
        entries.insert(i, r.choice(['garbage\n', '!!! x: "y"\n', 'two words: "x"\n', ': "x"\n', '"x"\n']))
    elif kind == 'no section':
        head = ''
    elif kind == 'section':
        head = r.choice(['[match doc]\n', '[match:doc\n', 'match:doc]\n', '[:doc]\n', '[match:]\n', '[match:do c]\n'])
    elif kind == 'indent':
        entries[i] = f'{nm}: first\n{r.choice([" ", "  ", "   "])}second line\n'
    elif kind == 'quote':
        entries[i] = f'{nm}: """never closed\n'
        entries = entries[:i + 1]
        head += 'Z0: "z"\n'
        entries.append('  not closed, not indented\n')
    elif kind == 'match and fail':
        entries.append(f'[fail:doc]\n{nm}: "x"\n')
    elif kind == 'symbol':
        entries.append('[match:doc:x]\nN: "x"\n')
    elif kind == 'trailing':
        entries.append(r.choice(['rest\n', '[match:\n', 'x\n\n\n', ']\n']))
    elif kind == 'after quote':
        entries[i] = f'{nm}: "a" and more\n'
    elif kind == 'file type':
        ext = r.choice(['txt', 'yaml', 'in'])
    text = head + ''.join(entries)
    if kind.startswith('json'):
        ext = 'json'
        text = json.dumps({'doc': {'match': {'a': 'x', 'b': 'y'}}})
        text = {'json': text[:-r.randint(1, 3)], 'json stage': text.replace('match', 'mach'),
                'json duplicate': r.choice(['{"doc": {"match": {"a": "x", "a": "y"}}}', '{"doc": {"match": {"a": "x"}, "match": {"b": "y"}}}',
                                            '{"doc": {"match": {"a": "x"}}, "doc": {"fail": {"b": "y"}}}'])}[kind]
    ctx.current = (kind, text)
    p = os.path.join(ctx.tmp, f'mal_test.{ext}')
    with open(p, 'w', encoding='utf-8') as f:
        f.write(text)
    ctx.evaluated((kind, text), True)
    ctx.count('malformed files: ' + kind)
    try:
        u = testing.unit_from_file(p)
    except (ValueError, KeyError, SyntaxError, EnvironmentError):
        return
    except Exception as e:
        ctx.violation('malformed: wrong exception', f'{kind}: {e!r}', ctx.current)
        return
    ctx.violation('malformed: ' + kind, f'accepted as {u!r}', ctx.current)


def run(ctx):
    r = ctx.rng
    for _ in range(ctx.n(14, 20)):
        st = setting(r.choice(list(EBNF)))
        verdicts(ctx, st)
    for _ in range(ctx.n(2, 4)):
        st = random_setting(r)
        if st:
            ctx.count('random grammars')
            for _ in range(3):
                verdicts(ctx, st)
    for _ in range(ctx.n(1, 2)):
        several(ctx, setting(r.choice(list(EBNF))))
    for _ in range(ctx.n(40, 80)):
        read_back(ctx)
        unquoted(ctx)
        malformed(ctx)
