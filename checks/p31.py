"""Conditions and editing rules of the transformation module vs. naive definitions on plain values."""
import re
from vt import trees
from checks.p19 import make, val, branch, walk, cont, tidy, anon, NAMES, LEAVES

PICK = ['a', 'b', 'c', 'd', 'op', 'w', ':Text', ':Series', ':Whitespace', ':RegExp', ':x', 'zz']
RXS = ['x', 'ab?', r'\s*', '[a-z]+', '.', 'x|ab', 'one', r'one \w+', r'\+|0', 'lorem$', '', r'[^\n]*', r'.*\n?']
NRX = ['a', '[abc]', ':.*', ':T', 'o', 'op|w', '[a-z]+', ':?.', 'a$', '(?:a|b)$', ':Text|:x']


def condition(r, tf):
    """a condition of the module, the predicate path -> bool it should be, and its name"""
    S = set(r.sample(PICK, r.randint(1, 3)))
    k = r.choice(['one_of', 'not_one_of', 'is_a', 'not_a', 'token', 'any token', 'name', 'content', 'has_content', 'attr', 'attr value', 'any attr',
                  'ancestor', 'ancestor', 'ancestor until', 'parent', 'descendant', 'descendant', 'child', 'sibling', 'children', 'single', 'named',
                  'anonymous', 'anonymous leaf', 'whitespace', 'empty', 'always', 'never', 'neg', 'any', 'all'])
    A = sorted(S)
    spread = r.random() < 0.3
    if k == 'one_of':
        return (tf.is_one_of(*A) if spread else tf.is_one_of(S)), (lambda p: p[-1].name in S), f'is_one_of {A}'
    if k == 'not_one_of':
        return (tf.not_one_of(*A) if spread else tf.not_one_of(S)), (lambda p: p[-1].name not in S), f'not_one_of {A}'
    if k == 'is_a':
        return tf.is_a(A[0]), (lambda p: p[-1].name == A[0]), f'is_a {A[0]}'
    if k == 'not_a':
        return tf.not_a(A[0]), (lambda p: p[-1].name != A[0]), f'not_a {A[0]}'
    if k == 'token':
        T = set(r.sample(['x', '+', '0', ' ', 'ab'], r.randint(1, 3)))
        return (tf.is_token(*T) if spread else tf.is_token(T)), (lambda p: p[-1].name == ':Text' and p[-1].content in T), f'is_token {sorted(T)}'
    if k == 'any token':
        return tf.is_token, (lambda p: p[-1].name == ':Text'), 'is_token'
    if k == 'name':
        rx = r.choice(NRX)
        return tf.name_matches(rx), (lambda p: bool(re.fullmatch(rx, p[-1].name))), f'name_matches {rx}'
    if k == 'content':
        rx = r.choice(RXS)
        return tf.content_matches(rx), (lambda p: bool(re.fullmatch(rx, p[-1].content))), f'content_matches {rx!r}'
    if k == 'has_content':
        c = r.choice(['x', 'ab', '', ' ', 'xab'])
        return tf.has_content(c), (lambda p: p[-1].content == c), f'has_content {c!r}'
    if k == 'attr':
        a = 'k%i' % r.randint(1, 6)
        return tf.has_attr(a), (lambda p: a in [x for x, _ in attrs(p[-1])]), f'has_attr {a}'
    if k == 'attr value':
        a, v = 'k%i' % r.randint(1, 6), str(r.randint(1, 6))
        return tf.has_attr(a, v), (lambda p: (a, v) in attrs(p[-1])), f'has_attr {a}={v}'
    if k == 'any attr':
        return tf.has_attr, (lambda p: bool(attrs(p[-1]))), 'has_attr'
    if k == 'ancestor':
        g = r.choice([-1, 0, 1, 2, 3])
        f = tf.has_ancestor(S) if g == -1 else tf.has_ancestor(S, g) if r.random() < 0.5 else tf.has_ancestor(S, generations=g)
        return f, (lambda p: any(n.name in S for n in (p[:-1] if g <= 0 else p[:-1][-g:]))), f'has_ancestor {A} {g}'
    if k == 'ancestor until':
        U = set(r.sample(PICK, r.randint(1, 2)))
        g = r.choice([-1, 1, 2, 3])
        f = tf.has_ancestor(S, g, (sorted(U)[0] if len(U) == 1 and spread else U))

        def up(p):
            if p[-1].name in U:
                return None   # what "reached" means for the node itself is left open
            for d, n in enumerate(reversed(p[:-1]), 1):
                if 0 < g < d:
                    return False
                if n.name in S:
                    return True
                if n.name in U:
                    return False
            return False
        return f, up, f'has_ancestor {A} {g} until {sorted(U)}'
    if k == 'parent':
        return (tf.has_parent(*A) if spread else tf.has_parent(S)), (lambda p: len(p) > 1 and p[-2].name in S), f'has_parent {A}'
    if k == 'descendant':
        g = r.choice([-1, 1, 2, 3])

        def down(n, d):
            return any(c.name in S or ((g < 0 or d < g) and down(c, d + 1)) for c in n.children)
        return (tf.has_descendant(S) if g == -1 else tf.has_descendant(S, g)), (lambda p: down(p[-1], 1)), f'has_descendant {A} {g}'
    if k == 'child':
        return (tf.has_child(*A) if spread else tf.has_child(S)), (lambda p: any(c.name in S for c in p[-1].children)), f'has_child {A}'
    if k == 'sibling':
        return (tf.has_sibling(*A) if spread else tf.has_sibling(S)), \
            (lambda p: len(p) > 1 and any(c is not p[-1] and c.name in S for c in p[-2].children)), f'has_sibling {A}'
    if k == 'children':
        return tf.has_children, (lambda p: len(p[-1].children) > 0), k
    if k == 'single':
        return tf.is_single_child, (lambda p: len(p[-2].children) == 1 if len(p) > 1 else None), k
    if k == 'named':
        return tf.is_named, (lambda p: not anon(p[-1].name)), k
    if k == 'anonymous':
        return tf.is_anonymous, (lambda p: anon(p[-1].name)), k
    if k == 'anonymous leaf':
        return tf.is_anonymous_leaf, (lambda p: anon(p[-1].name) and not p[-1].children), k
    if k == 'whitespace':
        return tf.contains_only_whitespace, (lambda p: not p[-1].content.strip()), k
    if k == 'empty':
        return tf.is_empty, (lambda p: not p[-1].children and not p[-1].content), k
    if k == 'always':
        return tf.always, (lambda p: True), k
    if k == 'never':
        return tf.never, (lambda p: False), k
    c1, p1, n1 = condition(r, tf)
    if k == 'neg':
        return tf.neg(c1), (lambda p: (lambda x: None if x is None else not x)(p1(p))), f'neg {n1}'
    c2, p2, n2 = condition(r, tf)

    def unsure(f):
        def g(p):
            a, b = p1(p), p2(p)
            return None if a is None or b is None else f(a, b)
        return g
    if k == 'any':
        return tf.any_of({c1, c2}), unsure(lambda a, b: a or b), f'any_of {n1} / {n2}'
    return tf.all_of({c1, c2}), unsure(lambda a, b: a and b), f'all_of {n1} / {n2}'


def attrs(n):
    return list(n.attr.items()) if n.has_attr() else []


def run(ctx):
    from DHParser import nodetree as nt, transform as tf
    r = ctx.rng
    for i in range(ctx.n(1200)):
        conditions(ctx, nt, tf, r, i)
        for _ in range(4):
            edit(ctx, nt, tf, r, i)
        if i % 4 == 0:
            left(ctx, nt, tf, r, i)
            metas(ctx, nt, tf, r, i)
            errors(ctx, nt, tf, r, i)


def conditions(ctx, nt, tf, r, i):
    t = make(ctx, nt, r, errors=False)
    before = trees.key(t)
    P = trees.paths(t)
    for _ in range(8):
        c, f, name = condition(r, tf)
        for p in P:
            want = f(p)
            arg = list(p)
            ok, got = ctx.guard(lambda: bool(c(arg)), name)
            if want is None or not ok:
                continue
            ctx.count('conditions judged')
            ctx.count('conditions true', got)
            ctx.evaluated((ctx.chunk, i, name.split(' ')[0], got), got)
            if got != want:
                w = {'tree': t.as_sxpr(flatten_threshold=-1), 'path': [n.name for n in p], 'content': p[-1].content, 'condition': name}
                ctx.violation('condition-' + name.split(' ')[0], f'{name} is {got} for the path {w["path"]} ending at {p[-1].content!r}\n{w["tree"]}', w)
            if [id(n) for n in arg] != [id(n) for n in p]:
                ctx.violation('condition-path', f'{name} changed the path', {'condition': name})
    if trees.key(t) != before:
        ctx.violation('condition-tree', 'a condition changed the tree', {'tree': t.as_sxpr()})


RULES = ['keep_children', 'keep_children_if', 'keep_tokens', 'keep_nodes', 'keep_content', 'remove_children_if', 'remove_children', 'remove_content',
         'remove_tokens', 'remove_whitespace', 'remove_empty', 'remove_anonymous_empty', 'remove_anonymous_tokens', 'remove_infix_operator',
         'remove_brackets', 'remove', 'remove_if', 'lstrip', 'rstrip', 'strip', 'change_name', 'replace_child_names', 'add_attributes', 'del_attributes',
         'insert', 'insert', 'delimit_children', 'normalize_whitespace', 'replace_content_with', 'transform_result', 'pull_up']


def edit(ctx, nt, tf, r, i):
    t = make(ctx, nt, r, errors=r.random() < 0.3)
    P = trees.paths(t)
    which = r.choice(RULES)
    if which == 'normalize_whitespace':
        P = [p for p in P if not p[-1].children]
    elif which == 'pull_up':
        P = [p for p in P if len(p) >= 3] or P
    elif which in ('remove', 'remove_if'):
        P = [p for p in P if len(p) > 1] or P
    elif which not in ('change_name', 'add_attributes', 'del_attributes', 'replace_content_with', 'transform_result'):
        P = [p for p in P if p[-1].children] or P
    p = r.choice(P)
    nd = p[-1]
    sx = t.as_sxpr(flatten_threshold=-1)
    while True:
        cond, f, cname = condition(r, tf)
        if not cname.startswith(('neg', 'any_of', 'all_of', 'has_ancestor', 'has_sibling', 'single')):
            break
    kids = list(nd.children)
    v, whole = val(nd), val(t)
    errs = [(e.code, e.message, e.pos) for e in t.errors]
    w = {'tree': sx, 'path': [n.name for n in p], 'rule': which}
    ctx.current = w
    S = set(r.sample(PICK, r.randint(1, 3)))
    T = set(r.sample(['x', '+', '0', ' ', 'ab'], r.randint(1, 3)))
    rx = r.choice(RXS)
    keep = lambda sel: (v[0], v[1], tuple(val(c) for c in kids if sel(c))) if kids else v
    # the node may be met in the course of a traversal or directly
    rule, want, wparent, pos = None, None, None, None
    if which == 'keep_children':
        sl = slice(r.choice([None, 0, 1, -2]), r.choice([None, 1, 3, -1]), r.choice([None, 1, 2]))
        rule, want = tf.keep_children(sl), ((v[0], v[1], v[2][sl]) if kids else v)
    elif which in ('keep_children_if', 'remove_children_if'):
        w['condition'] = cname
        pick = [f(p + [c]) for c in kids]
        if None in pick:
            return
        pick = {id(c) for c, x in zip(kids, pick) if bool(x) == (which == 'keep_children_if')}
        rule, want = getattr(tf, which)(cond), keep(lambda c: id(c) in pick)
    elif which in ('keep_tokens', 'remove_tokens'):
        w['tokens'] = sorted(T)
        if r.random() < 0.3:
            T = set()
        rule = getattr(tf, which)(T) if r.random() < 0.6 or not T else getattr(tf, which)(*T)
        want = keep(lambda c: (c.name == ':Text' and (not T or c.content in T)) == (which == 'keep_tokens'))
    elif which in ('keep_nodes', 'remove_children'):
        w['names'] = sorted(S)
        rule = getattr(tf, which)(S) if r.random() < 0.6 else getattr(tf, which)(*S)
        want = keep(lambda c: (c.name in S) == (which == 'keep_nodes'))
    elif which in ('keep_content', 'remove_content'):
        w['regexp'] = rx
        rule, want = getattr(tf, which)(rx), keep(lambda c: bool(re.fullmatch(rx, c.content)) == (which == 'keep_content'))
    elif which == 'remove_whitespace':
        rule, want = tf.remove_whitespace, keep(lambda c: c.name != ':Whitespace')
    elif which == 'remove_empty':
        rule, want = tf.remove_empty, keep(lambda c: c.children or c.content)
    elif which == 'remove_anonymous_empty':
        rule, want = tf.remove_anonymous_empty, keep(lambda c: c.children or c.content or not anon(c.name))
    elif which == 'remove_anonymous_tokens':
        rule, want = tf.remove_anonymous_tokens, keep(lambda c: c.name != ':Text')
    elif which == 'remove_infix_operator':
        rule, want = tf.remove_infix_operator, ((v[0], v[1], v[2][::2]) if kids else v)
    elif which == 'remove_brackets':
        off = lambda c: c.name in LEAVES or (c.name == ':Series' and all(x.name in LEAVES for x in c.children))
        a, b = 0, len(kids)
        while a < b and off(kids[a]):
            a += 1
        while b > a and off(kids[b - 1]):
            b -= 1
        rule, want = tf.remove_brackets, ((v[0], v[1], v[2][a:b]) if kids else v)
    elif which in ('remove', 'remove_if'):
        go = True
        if which == 'remove_if':
            w['condition'] = cname
            go = f(p)
            if go is None:
                return
        rule = tf.remove if which == 'remove' else tf.remove_if(cond)
        if len(p) > 1:
            pv = val(p[-2])
            k = [id(c) for c in p[-2].children].index(id(nd))
            wparent = (pv[0], pv[1], pv[2][:k] + pv[2][k + 1:]) if go else pv
    elif which in ('lstrip', 'rstrip', 'strip'):
        N = r.choice([{':Whitespace'}, {':Text', ':Whitespace'}, S])
        by = r.choice(['names', 'default', 'empty'])
        vc = {'names': lambda c: c[0] in N, 'default': lambda c: not cont(c).strip(), 'empty': lambda c: not branch(c) and not cont(c)}[by]
        w['condition'] = by, sorted(N)
        fn = getattr(tf, which)
        rule = fn(tf.is_one_of(N)) if by == 'names' else fn(tf.is_empty) if by == 'empty' else fn

        def st(x, left):
            while branch(x):
                ks = list(x[2])
                j = 0 if left else -1
                ks[j] = st(ks[j], left)
                n = len(ks)
                while ks and vc(ks[j]):
                    del ks[j]
                x = (x[0], x[1], tuple(ks))
                if len(ks) == n:
                    break
            return x
        want = v
        if which != 'rstrip':
            want = st(want, True)
        if which != 'lstrip':
            want = st(want, False)
    elif which == 'change_name':
        n = r.choice(PICK)
        rule, want = tf.change_name(n), (n, v[1], v[2])
    elif which == 'replace_child_names':
        m = {a: r.choice(PICK) for a in S}
        w['names'] = m
        rule = tf.replace_child_names(m)
        want = (v[0], v[1], tuple((m.get(c[0], c[0]), c[1], c[2]) for c in v[2])) if kids else v
    elif which == 'add_attributes':
        m = {'k%i' % r.randint(1, 4): 'new', 'q': '1'}
        w['attributes'] = m
        rule, want = tf.add_attributes(dict(m)), (v[0], frozenset({**dict(v[1]), **m}.items()), v[2])
    elif which == 'del_attributes':
        m = set(r.sample(['k%i' % k for k in range(1, 9)], r.randint(0, 6)))
        w['attributes'] = sorted(m)
        rule, want = tf.del_attributes(m), (v[0], frozenset((a, x) for a, x in v[1] if m and a not in m), v[2])
    elif which in ('insert', 'delimit_children'):
        if not kids:
            return
        maker = r.choice([tf.node_maker('new', '|'), tf.node_maker('new', (tf.node_maker('c', ','), tf.node_maker('l', ' ')), {'at': '1'})])
        nv = val(maker())
        L = len(kids)
        if which == 'delimit_children':
            pos, rule = list(range(1, L)), tf.delimit_children(maker)
        else:
            how = r.choice(['int', 'tuple', 'names', 'end', 'delims', 'none'])
            if how == 'int':
                pos = [r.randint(-L, L + 1)]
                rule = tf.insert(pos[0], maker)
            elif how == 'tuple':
                pos = r.sample(range(-L, L + 1), r.randint(1, L))
                rule = tf.insert(tuple(pos), maker)
            elif how == 'names':
                pos = [k for k, c in enumerate(kids) if c.name in S]
                rule = tf.insert(tf.positions_of(S), maker)
            elif how == 'end':
                pos = [L]
                rule = tf.insert(tf.AT_THE_END, maker)
            elif how == 'delims':
                pos = list(range(1, L))
                rule = tf.insert(tf.delimiter_positions, maker)
            else:
                pos = []
                rule = tf.insert(lambda path: r.choice([None, ()]), maker)
        w['positions'] = pos
        at = [min(L, k if k >= 0 else k + L) for k in pos]
        ks = []
        for k in range(L + 1):
            ks += [nv] * at.count(k)
            if k < L:
                ks.append(v[2][k])
        want = (v[0], v[1], tuple(ks))
    elif which == 'normalize_whitespace':
        rule = tf.normalize_whitespace
        c = v[2]
        want = (v[0], v[1], (' ' if c else '') if v[0] == ':Whitespace' else re.sub(r'\s+', ' ', c))
    elif which == 'replace_content_with':
        rule, want = tf.replace_content_with('new text'), (v[0], v[1], 'new text')
    elif which == 'transform_result':
        if kids:
            rule, want = tf.transform_result(lambda res: tuple(reversed(res))), (v[0], v[1], v[2][::-1])
        else:
            rule, want = tf.transform_result(lambda res: res + '!'), (v[0], v[1], v[2] + '!')
    elif which == 'pull_up':
        if len(p) < 3:
            return
        par, gp = p[-2], p[-3]
        j = [id(c) for c in par.children].index(id(nd))
        k = [id(c) for c in gp.children].index(id(par))
        pv, gv = val(par), val(gp)
        inlay = ([(pv[0], pv[1], pv[2][:j])] if j else []) + [(v[0], v[1], ((pv[0], pv[1], v[2]),))] + \
            ([(pv[0], pv[1], pv[2][j + 1:])] if j + 1 < len(pv[2]) else [])
        wgp = (gv[0], gv[1], gv[2][:k] + tuple(inlay) + gv[2][k + 1:])
        tf.pull_up(list(p))
        ctx.count('results compared')
        ctx.evaluated((ctx.chunk, i, which, sx))
        if tidy(val(gp)) != tidy(wgp):
            ctx.violation('edit-pull_up', f'got:  {val(gp)}\nwant: {wgp}\n{w}', w)
        return
    arg = list(p)
    ok, _ = ctx.guard(lambda: rule(arg), f'{which} {w}')
    if not ok:
        return
    ctx.count('results compared')
    ctx.count(f'rule {which}')
    target, ref = (nd, want) if wparent is None else (p[-2], wparent)
    if ref is None:
        ref = v
    ctx.evaluated((ctx.chunk, i, which, sx), tidy(ref) != tidy(v))
    got = val(target)
    if tidy(got) != tidy(ref):
        ctx.violation('edit-' + which, f'got:  {got}\nwant: {ref}\n{w}', w)
    # nothing outside the node (or its parent) has been touched
    if wparent is None and replaced(whole, route(p, target), got) != val(t):
        ctx.violation('edit-elsewhere', f'{which} changed the tree outside of the node\n{w}\n{t.as_sxpr()}', w)
    if which.startswith(('keep', 'remove')) and not {id(n) for n in target.children} <= {id(n) for n in (kids if target is nd else [x for x in p[-2].children])}:
        ctx.violation('edit-identity', f'{which} does not keep the remaining nodes themselves\n{w}', w)
    if [(e.code, e.message, e.pos) for e in t.errors] != errs:
        ctx.violation('edit-errors', f'{which}: {errs} -> {[(e.code, e.message, e.pos) for e in t.errors]}\n{w}', w)
    if [id(n) for n in arg] != [id(n) for n in p]:
        ctx.violation('edit-path', f'{which} changed the path\n{w}', w)
    if pos:
        # an inserted node takes the place where the text before it ends
        cum = nd.pos
        for c in nd.children:
            if c.name == 'new':
                ctx.count('positions of inserted nodes')
                if c.pos != cum:
                    ctx.violation('edit-position', f'inserted node has position {c.pos}, the text before it ends at {cum}\n{w}', w)
            else:
                cum += len(c.content)


def route(p, target):
    """child indices leading to the target; valid as long as the ancestors are unchanged"""
    out = []
    for a, b in zip(p, p[1:]):
        if a is target:
            break
        out.append([id(c) for c in a.children].index(id(b)))
        if b is target:
            break
    return out


def replaced(v, idx, new):
    if not idx:
        return new
    k = idx[0]
    return (v[0], v[1], v[2][:k] + (replaced(v[2][k], idx[1:], new),) + v[2][k + 1:])


def left(ctx, nt, tf, r, i):
    """left_associative"""
    n = r.randint(0, 6)
    kids, want = [], None
    for k in range(n + 1):
        if k:
            op = r.choice(['add', 'sub'])
            kids.append(nt.Node(op, '+'))
        kids.append(nt.Node('n', str(k)) if r.random() < 0.7 else nt.Node('g', (nt.Node('n', str(k)), nt.Node('m', 'x'))))
        x = val(kids[-1])
        want = x if not k else (op, frozenset(), (want, x))
    t = nt.RootNode(nt.Node('expr', tuple(kids)).with_pos(0))
    w = {'tree': t.as_sxpr(flatten_threshold=-1), 'rule': 'left_associative'}
    tf.left_associative([t])
    ctx.count('results compared')
    ctx.evaluated((ctx.chunk, i, 'left', n), n > 0)
    got = val(t)
    if got != ('expr', frozenset(), (want,)):
        ctx.violation('left-associative', f'got:  {got}\nwant: {want}\n{w}', w)


def metas(ctx, nt, tf, r, i):
    """apply_if, apply_unless, apply_ifelse, three_valued, traverse_locally"""
    t = make(ctx, nt, r, errors=False)
    P = trees.paths(t)
    log = []

    def mark(tag):
        return lambda path: log.append((tag, id(path[-1]), len(path)))
    for _ in range(4):
        c, f, name = condition(r, tf)
        c2, f2, name2 = condition(r, tf)
        p = r.choice(P)
        yes, no = f(p), f2(p)
        if yes is None or no is None:
            continue
        seq = r.random() < 0.5
        A = (mark('a'), mark('b')) if seq else mark('a')
        B = (mark('x'), mark('y')) if seq else mark('x')
        ta, tb = (['a', 'b'], ['x', 'y']) if seq else (['a'], ['x'])
        for what, rule, want in (('apply_if', tf.apply_if(A, c), ta if yes else []),
                                 ('apply_unless', tf.apply_unless(A, c), [] if yes else ta),
                                 ('apply_ifelse', tf.apply_ifelse(A, B, c), ta if yes else tb)):
            del log[:]
            rule(list(p))
            ctx.count('meta rules judged')
            ctx.evaluated((ctx.chunk, i, what, yes, seq))
            if log != [(tag, id(p[-1]), len(p)) for tag in want]:
                ctx.violation(what, f'{[x[0] for x in log]} instead of {want}', {'condition': name, 'value': yes, 'path': [n.name for n in p], 'tree': t.as_sxpr()})
        got = tf.three_valued(c, c2)(list(p))
        want = True if yes else False if no else None
        ctx.count('meta rules judged')
        if got is not want:
            ctx.violation('three_valued', f'{got} instead of {want}', {'conditions': [name, name2], 'values': [yes, no]})
        n = tf.neg(tf.three_valued(c, c2))(list(p))
        if n is not (None if want is None else not want):
            ctx.violation('three_valued-neg', f'{n}', {'conditions': [name, name2], 'values': [yes, no]})
    p = r.choice(P)
    del log[:]
    tf.traverse_locally({'*': mark('*')})(list(p))
    want = [id(n) for n in post(p[-1])]
    if [x[1] for x in log] != want:
        ctx.violation('traverse_locally', f'{len(log)} calls instead of {len(want)}', {'tree': t.as_sxpr(), 'path': [n.name for n in p]})


def post(n):
    for c in n.children:
        yield from post(c)
    yield n


def errors(ctx, nt, tf, r, i):
    """add_error, error_on, assert_content, require, forbid report exactly the designated nodes"""
    t = make(ctx, nt, r, errors=False)
    P = trees.paths(t)
    from DHParser.error import ErrorCode
    which = r.choice(['add_error', 'error_on', 'assert_content', 'require', 'forbid'])
    S = set(r.sample(PICK, r.randint(1, 3)))
    code = ErrorCode(r.choice([150, 1001, 2000]))
    c, f, name = condition(r, tf)
    rx = r.choice(RXS)
    p = r.choice(P)
    nd = p[-1]
    if which == 'add_error':
        rule, want = tf.add_error('{name} at {pos}: {content}', code), [(code, f'{nd.name} at {nd.pos}: {nd.content}')]
    elif which == 'error_on':
        hit = f(p)
        if hit is None:
            return
        rule, want = tf.error_on(c, 'wrong', code), [(code, 'wrong')] * bool(hit)
    elif which == 'assert_content':
        rule, want = tf.assert_content(rx), [(1000, None)] * (not re.fullmatch(rx, nd.content))
    else:
        rule = getattr(tf, which)(S)
        n = sum((x.name in S) == (which == 'forbid') for x in nd.children)
        want = [(1000, None)] * n
    ok, _ = ctx.guard(lambda: rule(list(p)), which)
    if not ok:
        return
    ctx.count('error rules judged')
    ctx.evaluated((ctx.chunk, i, which, len(want)), bool(want))
    got = [(e.code, e.message) for e in t.errors]
    w = {'tree': t.as_sxpr(), 'path': [n.name for n in p], 'rule': which, 'condition': name, 'names': sorted(S), 'regexp': rx}
    if len(want) > 1:   # errors of the same node with the same code may share the place
        want, got = sorted(x[0] for x in want)[:1], sorted({x[0] for x in got})
    elif [x[1] for x in want] == [None]:
        want, got = [x[0] for x in want], [x[0] for x in got]
    if got != want:
        ctx.violation('error-rule-' + which, f'{got} instead of {want}', w)
    if any(e.pos != nd.pos for e in t.errors):
        ctx.violation('error-rule-place', f'{[str(e) for e in t.errors]}', w)
