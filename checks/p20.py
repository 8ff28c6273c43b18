"""Errors attached to trees: identity, order, location, severity under random histories of operations."""
import copy, pickle
from vt import trees
from checks.p19 import walk, NAMES


def text(r):
    return r.choice(['', 'x', 'ab', ' ', 'one two', 'ä€', '\n', 'li\nne', '\n\n', '0', 'lorem'])


def lc(s, pos):
    return s.count('\n', 0, pos) + 1, pos - s.rfind('\n', 0, pos)


class Map:
    """a back-mapping of one's own: the text is `off` characters further on in the original, from `cut` onwards
    it stems from another file"""
    def __init__(self, pre, txt, cut, name, name2):
        self.orig, self.orig2 = pre + txt, txt[cut:] + '\nend'
        self.off, self.cut, self.name, self.name2 = len(pre), cut, name, name2

    def __call__(self, pos):
        from DHParser.preprocess import SourceLocation
        if pos < self.cut:
            return SourceLocation(self.name, self.orig, pos + self.off)
        return SourceLocation(self.name2, self.orig2, pos - self.cut)


class Model:
    def __init__(self):
        self.errs = []                   # (code, pos, message)
        self.at = {}                     # (code, pos) -> node or None

    def clone(self, m):
        c = Model()
        c.errs = list(self.errs)
        c.at = {k: (m.get(id(n), n) if n is not None else None) for k, n in self.at.items()}
        return c


def run(ctx):
    from DHParser import nodetree as nt, error as er
    r = ctx.rng
    for i in range(ctx.n(2500)):
        history(ctx, nt, er, r, i)
        if i % 4 == 0:
            parsed(ctx, nt, er, r, i)


def history(ctx, nt, er, r, i):
    t = trees.tree(r, r.choice([0, 1, 2, 3]), r.choice([1, 2, 3, 4]), NAMES, text, leaf_p=0.3)
    t.with_pos(0)
    txt = trees.content(t)
    src = txt + r.choice(['', '', ' tail\n'])
    mp = None
    if r.random() < 0.4:
        mp = Map(r.choice(['', 'x\n', 'intro ']), src, r.choice([len(src) + 1, r.randint(0, len(src))]), 'main.dsl', 'incl.dsl')
    log = []
    ctx.current = w = {'tree': t.as_sxpr(flatten_threshold=-1), 'source': src, 'mapping': vars(mp) if mp else None, 'ops': log}
    m = Model()
    late = r.random() < 0.25
    if late:
        root = nt.RootNode()
        n = r.randint(0, 3)
        for k in range(n):
            add(ctx, nt, er, r, root, m, list(walk(t)), log, txt)
        root.swallow(t, src, mp)
        m = m.clone({id(t): root})
    else:
        root = nt.RootNode(t, src, mp)
    doc = r.choice(['', 'doc'])
    root.docname = doc
    check(ctx, nt, er, root, m, src, mp, w)
    for step in range(r.randint(1, 8)):
        op = r.choice(['new', 'new', 'new', 'add', 'addnone', 'dup', 'limit', 'copy', 'pickle', 'transfer', 'serialize', 'etree'])
        nodes = list(walk(root))
        if op in ('new', 'add', 'addnone'):
            add(ctx, nt, er, r, root, m, nodes, log, txt, op)
        elif op == 'dup' and m.errs:
            code, pos, msg = r.choice(m.errs)
            n = m.at[(code, pos)]
            log.append(('dup', code, pos))
            if n is not None and n.pos <= pos:
                root.add_error(n, er.Error('another message', pos, er.ErrorCode(code)))
                ctx.count('duplicates refused')
        elif op == 'limit':
            code = er.ErrorCode(r.choice([100, 1000]))
            nd, lim = r.choice(nodes), r.randint(1, 2)
            log.append(('limit', int(code), nd.pos, lim))
            have = [e for e in m.errs if e[0] == code]
            before = [(e.code, e.pos) for e in root.errors]
            root.new_error(nd, 'limited', code, limit=lim)
            if len(have) >= lim:
                if [(e.code, e.pos) for e in root.errors] != before:
                    ctx.violation('limit', f'limit {lim} exceeded\n{w}', w)
                ctx.count('errors over the limit')
                m.errs = [(e.code, e.pos, e.message) for e in root.errors]
            elif (code, nd.pos) not in m.at:
                m.errs.append((code, nd.pos, 'limited'))
                m.at[(code, nd.pos)] = nd
        elif op in ('copy', 'pickle'):
            log.append(op)
            old, m_old = root, m
            root = copy.deepcopy(root) if op == 'copy' else pickle.loads(pickle.dumps(root)) if mp is None or True else root
            m = m.clone(dict(zip((id(n) for n in walk(old)), walk(root))))
            ctx.count('copies' if op == 'copy' else 'picklings')
            if any(a is b for a in root.errors for b in old.errors):
                ctx.violation('shared-error', f'the copy shares an error object with the original\n{w}', w)
            # the original stays as it is when the copy goes on
            add(ctx, nt, er, r, root, m, list(walk(root)), log, txt, 'new')
            check(ctx, nt, er, old, m_old, src, mp, w)
            ctx.keep = old
        elif op == 'transfer':
            a = r.choice(nodes)
            b = r.choice(nodes)
            log.append(('transfer', a.name, a.pos, b.name, b.pos))
            root.transfer_errors(a, b)
            for k, n in m.at.items():
                if n is a:
                    m.at[k] = b
            ctx.count('transfers')
        elif op in ('serialize', 'etree'):
            before = trees.key(root)
            out = r.choice([root.as_sxpr, root.as_xml, root.as_json, root.as_tree, lambda: root.as_sxpr(src), lambda: str(root)])()
            ctx.count('serializations between')
            if trees.key(root) != before:
                ctx.violation('serialization-changes', f'serialization changed the tree\n{w}', w)
        check(ctx, nt, er, root, m, src, mp, w)
    ctx.evaluated((ctx.chunk, i, tuple(map(str, log))), bool(m.errs))
    ctx.sample(str(log))


def add(ctx, nt, er, r, root, m, nodes, log, txt, op=None):
    op = op or r.choice(['new', 'add'])
    code = er.ErrorCode(r.choice([1, 55, 99, 100, 101, 720, 999, 1000, 1001, 1010, 9999, 10000, 10100]))
    msg = r.choice(['boo', 'message with "quotes"', 'two\nlines', '<x>&y']) + ' %i' % len(m.errs)
    nd = r.choice(nodes)
    if op == 'new':
        pos = nd.pos
        root.new_error(nd, msg, code)
    elif op == 'add':
        pos = nd.pos + (r.randint(0, max(len(nd.content), 1) - 1) if r.random() < 0.8 else r.randint(0, len(txt) - nd.pos))
        root.add_error(nd, er.Error(msg, pos, code, length=r.choice([1, 1, 2, 5])))
    else:
        pos = r.randint(0, len(txt))
        root.add_error(None, er.Error(msg, pos, code))
        nd = None
    log.append((op, int(code), pos, nd.name if nd is not None else ''))
    if (code, pos) in m.at:
        return
    m.errs.append((code, pos, msg))
    # nothing is claimed about errors that lie outside of their node
    m.at[(code, pos)] = nd if nd is not None and nd.pos <= pos < nd.pos + max(len(nd.content), 1) else None
    ctx.count('errors added')


def check(ctx, nt, er, root, m, src, mp, w):
    ctx.count('states checked')
    bad = lambda key, msg: ctx.violation(key, f'{msg}\n{w}', w)
    got = [(e.code, e.pos, e.message) for e in root.errors]
    if got != m.errs:
        bad('error-list', f'errors {got} instead of {m.errs}')
        return
    if [(e.code, e.pos) for e in root.errors_sorted] != [(c, p) for c, p, _ in sorted(m.errs, key=lambda x: x[1])]:
        bad('order', f'sorted errors: {root.errors_sorted}')
    flag = max([c for c, _, _ in m.errs], default=0)
    if root.error_flag != flag:
        bad('error-flag', f'error_flag {root.error_flag} instead of {flag}')
    for lvl in (er.NOTICE, er.WARNING, er.ERROR, er.FATAL):
        if er.has_errors(root.errors, lvl) != (flag >= lvl) or \
                [e.code for e in er.only_errors(root.errors, lvl)] != [c for c, _, _ in m.errs if c >= lvl]:
            bad('levels', f'has_errors/only_errors wrong for level {lvl}')
    try:
        root.error_safe(er.ERROR)
        safe = True
    except AssertionError:
        safe = False
    if safe != (flag < er.ERROR):
        bad('error-safe', f'error_safe passed: {safe}')
    if root.did_match() != (root.name != '__not_yet_ready__' and not any(c == er.PARSER_STOPPED_BEFORE_END for c, _, _ in m.errs)):
        bad('did-match', 'did_match() is wrong')
    # locations
    if root.source:
        for e in root.errors:
            if mp:
                name, s, o = mp(e.pos)
            else:
                name, s, o = None, src, e.pos
            ctx.count('locations checked')
            if o > len(s):
                continue
            if (e.line, e.column) != lc(s, o) or e.orig_pos != o or (name and e.orig_doc != name):
                bad('location', f'{e!r} located at {e.orig_doc}:{e.line}:{e.column} instead of {name}:{lc(s, o)}')
                return
            if e.orig_pos + e.length > len(s) or (e.end_line, e.end_column) != lc(s, o + e.length):
                bad('location-end', f'{e!r} of length {e.length} ends at {e.end_line}:{e.end_column}')
                return
            sev = 'Notice' if e.code < 100 else 'Warning' if e.code < 1000 else 'Error' if e.code < 10000 else 'Fatal'
            want = f'{name + ":" if name else ""}{e.line}:{e.column}: {sev} ({int(e.code)}): {e.message}'
            if str(e) != want or e.severity != sev:
                bad('error-string', f'{str(e)!r} instead of {want!r}')
                return
            d = e.diagnostic_obj()
            if d['range'] != {'start': {'line': e.line - 1, 'character': e.column - 1},
                              'end': {'line': e.end_line - 1, 'character': e.end_column - 1}} or d['code'] != e.code:
                bad('diagnostic', f'{d}')
        cs = er.canonical_error_strings(root.errors)
        if len(cs) != len(m.errs) or any(not c.endswith(e.message) for c, e in zip(cs, root.errors)):
            bad('canonical', f'{cs}')
    # errors at nodes
    live = {id(n): n for n in walk(root)}
    sub = {}

    def below(n):
        s = set()
        for c in n.children:
            s |= {id(c)} | below(c)
        sub[id(n)] = s
        return s
    below(root)
    owner = {}
    for (c, p), n in m.at.items():
        if n is not None and id(n) in live:
            owner[(c, p)] = n
    lost = set(owner)
    for n in live.values():
        ne = root.node_errors(n)
        keys = [(e.code, e.pos) for e in ne]
        if len(set(keys)) != len(keys):
            bad('node-errors-twice', f'{ne} at {n.name} {n.pos}')
            return
        if any(not any(e is x for x in root.errors) for e in ne):
            bad('identity', f'an error found at node {n.name} is not among the errors of the tree')
            return
        end = n.pos + max(len(n.content), 1)
        for k, o in owner.items():
            if o is n and n.pos <= k[1] < end:
                ctx.count('errors found at their node')
                if k not in keys:
                    bad('node-error-missing', f'error {k} not found at its node {n.name} pos {n.pos}')
                    return
            if o is not n and id(o) in sub[id(n)] and k in keys:
                bad('node-error-wrong', f'error {k} of node {o.name} is also reported at {n.name}')
                return


def parsed(ctx, nt, er, r, i):
    """line and column of parser errors"""
    from DHParser.dsl import create_parser
    g = getattr(ctx, 'grammar', None)
    if g is None:
        g = ctx.grammar = create_parser('@whitespace=horizontal\n@drop=whitespace\ndoc = { line } EOF\nline = word §{ "," word } NL\n'
                                        'word = /[a-z]+/~\nNL = /\\n/\nEOF = !/./')
    lines = [r.choice(['a,b', 'ab', 'a, b ,c', 'a,,b', 'a;', '1', '', 'abc,']) for _ in range(r.randint(0, 5))]
    src = '\n'.join(lines) + r.choice(['', '\n'])
    ctx.current = w = {'source': src}
    t = g(src)
    ctx.count('parsed documents with errors', 1 if t.errors else 0)
    for e in t.errors:
        if not 0 <= e.pos <= len(src) or (e.line, e.column) != lc(src, e.pos):
            ctx.violation('parse-location', f'{e!r} for {src!r}', w)
    if t.error_flag != max([e.code for e in t.errors], default=0):
        ctx.violation('error-flag', f'{t.errors} {t.error_flag}', w)
    c = pickle.loads(pickle.dumps(t))
    if c.as_sxpr() != t.as_sxpr() or [str(e) for e in c.errors_sorted] != [str(e) for e in t.errors_sorted]:
        ctx.violation('pickle-parsed', f'{t.as_sxpr()}\n{c.as_sxpr()}', w)
    ctx.evaluated((ctx.chunk, i, src), bool(t.errors))
