"""Tree transformation: which rule runs where, in which order, with which path; rearranging rules conserve text."""
from vt import trees

NAMES = ['a', 'b', 'c', 'd', 'op', 'w', ':Text', ':Text', ':Series', ':Whitespace', ':RegExp', ':x']
LEAVES = {':RegExp', ':Text', ':Whitespace'}


def text(r):
    return r.choice(['', 'x', 'ab', ' ', ' ', 'one two', 'ä€', '\n', '+', '0', 'lorem'])


def anon(n):
    return n.startswith(':') or not n


def walk(nd):
    yield nd
    for c in nd.children:
        yield from walk(c)


def make(ctx, nt, r, attrs=True, errors=True, depth=None):
    t = trees.tree(r, depth or r.choice([1, 2, 3, 4]), r.choice([1, 2, 3, 4]), NAMES, text, leaf_p=r.choice([0.2, 0.4, 0.6]))
    k = 0
    for n in walk(t):
        k += 1
        if attrs and r.random() < 0.2:
            n.attr['k%i' % k] = str(k)
    t.with_pos(0)
    root = nt.RootNode(t)
    if errors:
        from DHParser.error import ErrorCode
        for n in walk(root):
            if r.random() < 0.15:
                k += 1
                root.new_error(n, 'message %i' % k, ErrorCode(1000 + k))
    return root


def run(ctx):
    from DHParser import nodetree as nt, transform as tf
    r = ctx.rng
    for i in range(ctx.n(2500)):
        table_case(ctx, nt, tf, r, i)
        for _ in range(3):
            rule_case(ctx, nt, tf, r, i)
        if i % 3 == 0:
            lean_case(ctx, nt, tf, r, i)
            pipeline_case(ctx, nt, tf, r, i)


# ------------------------------------------------------------------ tables

class Rule:
    def __init__(self, log, tag, action=None):
        self.log, self.tag, self.action, self.__name__ = log, tag, action, tag

    def __call__(self, path):
        self.log.append((self.tag, [id(n) for n in path], path[-1].name))
        p = path
        if any(p[j + 1] not in [c for c in p[j].children] for j in range(len(p) - 1)):
            self.log.append(('false path', self.tag, [n.name for n in path]))
        if self.action:
            self.action(path)

    def __repr__(self):
        return self.tag


def table_case(ctx, nt, tf, r, i):
    names = ['a', 'b', 'c', 'd', 'op', 'w', ':Text', ':Series', ':RegExp', ':x', ':Whitespace']
    log = []
    upper = r.random() < 0.2           # a key function of one's own
    key_func = (lambda n: n.name.upper()) if upper else tf.key_node_name
    kn = (lambda s: s.upper()) if upper else (lambda s: s)
    count = [0]
    mutating = r.random() < 0.3

    def rules(prefix, n):
        out = []
        for _ in range(n):
            count[0] += 1
            act = None
            if mutating and r.random() < 0.4:
                act = r.choice([lambda p: setattr(p[-1], 'name', p[-1].name), lambda p: p[-1].attr.update({'z': '1'}),
                                tf.reduce_single_child, tf.flatten, tf.replace_by_children])
            out.append(Rule(log, f'{prefix}{count[0]}', act))
            if act is tf.replace_by_children:
                break                   # the node is no longer part of its parent
        return out

    def removes(rr):
        return any(x.action is tf.replace_by_children for x in rr if isinstance(x, Rule))

    F = {'BL': tf.BLOCK_LEAVES, 'BA': tf.BLOCK_ANONYMOUS_LEAVES, 'BC': tf.BLOCK_CHILDREN}
    spec, table = {}, {}                # spec: key -> (filters, rules)
    pool = names[:]
    r.shuffle(pool)
    kinds = []
    while pool and len(kinds) < 5:
        k = pool[:r.randint(1, 3)]
        pool = pool[len(k):]
        if r.random() < 0.3:
            continue
        kinds.append(k)
    for k in kinds:
        fl = r.choice([[], [], [], ['BL'], ['BA'], ['BC'], ['BL', 'BA']])
        rl = rules('r', r.choice([0, 1, 1, 2, 3]))
        for x in k:
            spec[kn(x)] = (fl, rl)
        val = [F[f] for f in fl] + rl
        if len(val) == 1 and r.random() < 0.5:
            val = val[0]
        elif r.random() < 0.3:
            val = tuple(val)
        ks = [kn(x) for x in k]
        if ks == [':Whitespace'] and r.random() < 0.5:
            table['~'] = val
        elif len(ks) == 1:
            table[ks[0]] = val
        elif r.random() < 0.5:
            table[', '.join(ks)] = val
        else:
            table[tuple(ks)] = val
    for special in ('<', '*', '>', '<<<', '>>>'):
        if r.random() < 0.45:
            fl = r.choice([[], [], ['BL'], ['BA']]) if special == '<' else r.choice([[], [], ['BL'], ['BC']]) if special == '*' else []
            rl = rules(special, r.choice([1, 1, 2]))
            for x in rl:
                x.action = x.action if special == '*' else None
            spec[special] = (fl, rl)
            val = [F[f] for f in fl] + rl
            if len(val) == 1 and r.random() < 0.5:
                val = val[0]
            elif r.random() < 0.3:
                val = tuple(val)
            table[special] = val
    # a rule that takes the node from its parent must be the last one
    if '>' in spec:
        for k, (fl, rl) in spec.items():
            for x in rl:
                if x.action is tf.replace_by_children:
                    x.action = None
    desc = {str(k): str(v) for k, v in table.items()}
    for run_no in range(2):             # the table is used twice
        t = make(ctx, nt, r, attrs=False, errors=False)
        before = t.as_sxpr(flatten_threshold=-1)
        ctx.current = w = {'tree': before, 'table': desc, 'key function': upper, 'run': run_no}
        want = []
        path = []

        def ref(nd):
            path.append(nd)
            key = kn(nd.name)
            fl, main = spec.get(key, spec.get('*', ([], [])))
            pf, pre = spec.get('<', ([], []))
            kids = list(nd.children)
            for f in pf + fl:
                kids = {'BL': [c for c in kids if c.children], 'BC': [],
                        'BA': [c for c in kids if c.children or not anon(c.name)]}[f]
            for c in kids:
                ref(c)
            for x in pre + main + spec.get('>', ([], []))[1]:
                want.append((x.tag, [id(n) for n in path]))
            path.pop()
        for x in spec.get('<<<', ([], []))[1]:
            want.append((x.tag, [id(t)]))
        ref(t)
        for x in spec.get('>>>', ([], []))[1]:
            want.append((x.tag, [id(t)]))
        keep = list(walk(t))
        del log[:]
        txt = trees.content(t)
        kw = {'key_func': key_func} if upper else {}
        if r.random() < 0.5:
            res = tf.traverse(t, table, **kw)
        else:
            t.stage = 'cst'
            res = tf.transformer(t, table, src_stage='CST', dst_stage='ast', **kw)
            if res.stage != 'ast':
                ctx.violation('stage', 'stage not set', w)
        false_paths = [x for x in log if x[0] == 'false path']
        got = [x[:2] for x in log if x[0] != 'false path']
        ctx.evaluated((ctx.chunk, i, run_no), len(want) > 1)
        ctx.count('rule calls compared', len(want))
        ctx.count('traversals compared')
        if any(f for f, _ in spec.values()):
            ctx.count('tables with filters')
        if res is not t:
            ctx.violation('identity', 'another tree was returned', w)
        if got != want:
            nm = {id(n): n.name for n in keep}
            show = lambda l: [(a, [nm.get(x, '?') for x in p]) for a, p in l]
            j = next((j for j, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
            ctx.violation('rule-calls', f'call {j}: got {show(got[j:j + 3])} instead of {show(want[j:j + 3])}\n{w}', w)
        elif false_paths:
            ctx.violation('false-path', f'{false_paths[:3]}\n{w}', w)
        elif trees.content(t) != txt:
            ctx.violation('text', f'text changed from {txt!r} to {trees.content(t)!r}\n{w}', w)


# ------------------------------------------------------------------- rules

def val(n):
    """(name, attributes, children or text)"""
    return (n.name, frozenset(n.attr.items()) if n.has_attr() else frozenset(),
            tuple(val(c) for c in n.children) if n.children else n.content)


def same(a, b):
    return a == b


def branch(v):
    return isinstance(v[2], tuple) and bool(v[2])


def cont(v):
    return ''.join(cont(c) for c in v[2]) if branch(v) else (v[2] if isinstance(v[2], str) else '')


def allattr(v):
    s = v[1]
    if branch(v):
        for c in v[2]:
            s = s | allattr(c)
    return s


def ref_flatten(v, cond, rec):
    if not branch(v):
        return v
    new, at = [], v[1]
    for c in v[2]:
        if branch(c) and cond(c):
            if rec:
                c = ref_flatten(c, cond, rec)
            new.extend(c[2])
            at = at | c[1]
        else:
            new.append(c)
    return (v[0], at, tuple(new))


def ref_replace_single(v):
    if branch(v) and len(v[2]) == 1:
        c = v[2][0]
        return (c[0] if anon(v[0]) or not anon(c[0]) else v[0], v[1] | c[1], c[2])
    return v


def ref_reduce_single(v):
    if branch(v) and len(v[2]) == 1:
        c = v[2][0]
        return (v[0], v[1] | c[1], c[2])
    return v


def ref_treetops(v):
    if not branch(v):
        return v
    if all(not branch(c) and anon(c[0]) for c in v[2]):
        return (v[0], v[1], cont(v))
    return (v[0], v[1], tuple(ref_treetops(c) for c in v[2]))


def fuse_leaves(vs):
    out = []
    for c in vs:
        if out and not branch(c) and anon(c[0]) and not branch(out[-1]) and anon(out[-1][0]):
            o = out[-1]
            out[-1] = (o[0], o[1], o[2] + c[2])
        else:
            out.append(c)
    return tuple(out)


def ref_merge(v, cond, preferred):
    """merge_adjacent"""
    if not branch(v):
        return v
    new, group = [], []

    def close():
        if not group:
            return
        name = preferred if preferred and len(group) > 1 else group[0][0]
        at = frozenset().union(*[g[1] for g in group])
        if any(branch(g) for g in group):
            res = []
            for g in group:
                if branch(g):
                    res.extend(g[2])
                else:
                    res.append((':Text', frozenset(), g[2]))
            res = fuse_leaves(res)
        else:
            res = ''.join(g[2] for g in group)
        new.append((name, at, res))
        del group[:]
    for c in v[2]:
        if cond(c):
            group.append(c)
        else:
            close()
            new.append(c)
    close()
    return (v[0], v[1], tuple(new))


def ref_connected(v, content, delimiter, cname, dname):
    """merge_connected without swallow: delimiters are merged among themselves, then every run that begins and ends
    with content, delimiters in between included, becomes one content node"""
    if not branch(v):
        return v
    kids = list(ref_merge(v, delimiter, dname)[2])
    new, i = [], 0
    while i < len(kids):
        if not content(kids[i]):
            new.append(kids[i])
            i += 1
            continue
        k = i
        while k < len(kids) and (content(kids[k]) or delimiter(kids[k])):
            k += 1
        while not content(kids[k - 1]):
            k -= 1
        one = ref_merge((v[0], v[1], tuple(kids[i:k])), lambda c: True, '')[2][0]
        new.append((cname or one[0], one[1], one[2]))
        i = k
    return (v[0], v[1], tuple(new))


def ref_merge_results(group, k):
    """the group merged into the k-th of its nodes, or None if leaves and branches are mixed"""
    name = group[k][0]
    at = frozenset().union(*[g[1] for g in group])
    if all(branch(g) for g in group):
        return (name, at, fuse_leaves([c for g in group for c in g[2]]))
    if not any(branch(g) for g in group):
        return (name, at, ''.join(cont(g) for g in group))
    return None


def ref_fringes(pv, i, cond, side):
    """children of the i-th child that fulfil the condition are moved out of its fringes and merged
    with those neighbours of the child that fulfil it"""
    nd, kids = pv[2][i], list(pv[2][i][2])
    a, b = 0, len(kids)
    while a < b and cond(kids[a]):
        a += 1
    while b > a and cond(kids[b - 1]):
        b -= 1
    if side == 'left':
        b = len(kids)
    elif side == 'right':
        if a == b:
            return None   # all children fulfil the condition: either fringe may claim them
        a = 0
    if a == 0 and b == len(kids):
        return pv
    before, after = kids[:a], kids[b:]
    L, R = list(pv[2][:i]), list(pv[2][i + 1:])
    prv, nxt = [], []
    while L and cond(L[-1]):
        prv.insert(0, L.pop())
    while R and cond(R[0]):
        nxt.append(R.pop(0))
    if len(prv + before) > 1:
        m = ref_merge_results(prv + before, len(prv + before) - 1 if before else 0)
        before = [m] if m else prv + before
    else:
        before = prv + before
    if len(after + nxt) > 1:
        m = ref_merge_results(after + nxt, 0 if after else len(nxt) - 1)
        after = [m] if m else after + nxt
    else:
        after = after + nxt
    return (pv[0], pv[1], tuple(L + before + [(nd[0], nd[1], tuple(kids[a:b]))] + after + R))


def ref_parent(pv, i, fn):
    """applies fn to the i-th child, giving a list of nodes in its place"""
    return (pv[0], pv[1], pv[2][:i] + tuple(fn(pv[2][i])) + pv[2][i + 1:])


def tidy(v):
    """drops the difference between an empty branch and an empty leaf"""
    if isinstance(v[2], tuple):
        if not v[2]:
            return (v[0], v[1], '')
        return (v[0], v[1], tuple(tidy(c) for c in v[2]))
    return v


def conditions(r, tf):
    k = r.randint(0, 5)
    if k == 0:
        return 'anonymous', tf.is_anonymous, lambda c: anon(c[0])
    if k == 1:
        return 'named', tf.is_named, lambda c: not anon(c[0])
    if k == 2:
        return 'anonymous leaf', tf.is_anonymous_leaf, lambda c: not branch(c) and anon(c[0])
    if k == 3:
        return 'empty', tf.is_empty, lambda c: not c[2]
    S = set(r.sample(['a', 'b', 'c', 'd', 'op', 'w', ':Text', ':Series', ':Whitespace', ':RegExp', ':x'], r.randint(1, 5)))
    if k == 4:
        return f'one of {sorted(S)}', tf.is_one_of(S), lambda c: c[0] in S
    return f'not one of {sorted(S)}', tf.not_one_of(S), lambda c: c[0] not in S


def rule_case(ctx, nt, tf, r, i):
    t = make(ctx, nt, r)
    before = t.as_sxpr(flatten_threshold=-1)
    P = trees.paths(t)
    which = r.choice(['flatten', 'flatten1', 'replace_by_single_child', 'reduce_single_child', 'replace_by_children', 'merge_adjacent',
                      'merge_leaves', 'collapse', 'collapse_children_if', 'merge_treetops', 'move_fringes', 'move_fringes_merge',
                      'replace_or_reduce', 'swap_nested_nodes', 'merge_connected', 'merge_swallow', 'pull_up', 'change_name',
                      'remove_children_if', 'strip', 'keep_children', 'remove'])
    if which in ('replace_by_single_child', 'reduce_single_child', 'replace_or_reduce', 'swap_nested_nodes'):
        P = [p for p in P if len(p[-1].children) == 1] or P
    elif which in ('pull_up',):
        P = [p for p in P if len(p) >= 3] or P
    elif which in ('replace_by_children', 'move_fringes', 'move_fringes_merge', 'remove'):
        P = [p for p in P if len(p) > 1 and p[-1].children] or P
    else:
        P = [p for p in P if p[-1].children] or P
    p = r.choice(P)
    nd, parent = p[-1], p[-2] if len(p) > 1 else None
    idx = next((k for k, c in enumerate(parent.children) if c is nd), -1) if parent else -1
    cname, cond, vcond = conditions(r, tf)
    errs = [(e.code, e.message, e.pos) for e in t.errors]
    txt, v, pv = trees.content(t), val(nd), val(parent) if parent else None
    old = list(walk(t))
    old_vals = {id(n): val(n) for n in old}
    kid_ids = [id(c) for c in nd.children]
    ctx.current = w = {'tree': before, 'path': [n.name for n in p], 'rule': which, 'condition': cname}
    want = wantp = None
    conserve = True
    pos_true = True
    attrs_before = allattr(val(t))
    void = {n.pos for n in old if not n.content}
    solid = {n.pos for n in old if n.content} - void
    if which == 'flatten':
        tf.flatten(p, cond)
        want = ref_flatten(v, vcond, True)
    elif which == 'flatten1':
        tf.flatten(p, cond, False)
        want = ref_flatten(v, vcond, False)
    elif which == 'replace_by_single_child':
        tf.replace_by_single_child(p)
        want = ref_replace_single(v)
    elif which == 'reduce_single_child':
        tf.reduce_single_child(p)
        want = ref_reduce_single(v)
    elif which == 'replace_by_children':
        tf.replace_by_children(p)
        if parent:
            wantp = ref_parent(pv, idx, lambda c: c[2] if branch(c) else [c])
        else:
            want = ref_replace_single(v)
    elif which == 'merge_adjacent':
        pref = r.choice(['', 'm', 'a'])
        w['preferred'] = pref
        tf.merge_adjacent(p, cond, pref)
        want = ref_merge(v, vcond, pref)
    elif which == 'merge_leaves':
        tf.merge_leaves(p)
        want = ref_merge(v, lambda c: not branch(c) and anon(c[0]), '')
    elif which == 'collapse':
        tf.collapse(p)
        want = (v[0], allattr(v), cont(v))
    elif which == 'collapse_children_if':
        keep = [c for c in nd.children if not vcond(val(c))]
        tf.collapse_children_if(p, cond, 'm')
        pos_true = True
        if [id(c) for c in keep] != [id(c) for c in nd.children if any(c is k for k in keep)]:
            ctx.violation('kept-children', f'children not fulfilling the condition were changed\n{w}\n{t.as_sxpr()}', w)
        for a, b in zip(nd.children, nd.children[1:]):
            if a.name == 'm' == b.name and all(id(x) not in old_vals for x in (a, b)) and not any(branch(c) for c in (v[2] if branch(v) else ())):
                ctx.violation('not-collapsed', f'adjacent children were not merged\n{w}\n{t.as_sxpr()}', w)
    elif which == 'merge_treetops':
        tf.merge_treetops(nd)
        want = ref_treetops(v)
    elif which == 'move_fringes':
        side = r.choice(['both', 'left', 'right'])
        w['side'] = side
        kids = list(nd.children)
        pk = list(parent.children) if parent else []
        tf.move_fringes(p, cond, side=side, merge=False)
        if parent and kids:
            f = [vcond(val(c)) for c in kids]
            if not all(f) or side != 'right':
                a, b = 0, len(kids)
                while side != 'right' and a < b and f[a]:
                    a += 1
                while side != 'left' and b > a and f[b - 1]:
                    b -= 1
                wk = pk[:idx] + kids[:a] + [nd] + kids[b:] + pk[idx + 1:]
                if [id(x) for x in parent.children] != [id(x) for x in wk] or [id(x) for x in nd.children] != [id(x) for x in kids[a:b]]:
                    ctx.violation('fringes', f'wrong fringes moved\n{w}\n{t.as_sxpr()}', w)
    elif which == 'move_fringes_merge':
        side = r.choice(['both', 'left', 'right'])
        w['side'] = side
        tf.move_fringes(p, cond, side=side)
        pos_true = True
        if parent and branch(v):
            wantp = ref_fringes(pv, idx, vcond, side)
    elif which == 'replace_or_reduce':
        tf.replace_or_reduce(p, cond)
        if len(kid_ids) == 1 and val(nd) not in (ref_replace_single(v), ref_reduce_single(v)):
            ctx.violation('replace-or-reduce', f'{w}\n{t.as_sxpr()}', w)
    elif which == 'swap_nested_nodes':
        tf.swap_nested_nodes(p)
        if branch(v) and len(v[2]) == 1:
            c = v[2][0]
            want = (c[0], c[1], ((v[0], v[1], c[2]),))
    elif which == 'merge_connected':
        S = {':Whitespace', ':RegExp'}
        C = {'a', 'b', 'w', ':Text'}
        sw = r.choice([None, None, tf.is_one_of({'w'})])
        w['swallow'] = sw is not None
        kids = list(nd.children)
        cn, dn = r.choice(['', 'm']), r.choice(['', 'dl', ':RegExp'])
        tf.merge_connected(p, tf.is_one_of(C), tf.is_one_of(S), cn, dn, swallow=sw)
        if sw is None:
            want = ref_connected(v, lambda c: c[0] in C, lambda c: c[0] in S, cn, dn)
        pos_true = True
        keep = [id(c) for c in kids if c.name not in S | C]
        names_before = {id(c) for c in kids}
        if keep != [id(c) for c in nd.children if id(c) in keep]:
            ctx.violation('kept-children', f'children that are neither content nor delimiter changed\n{w}\n{t.as_sxpr()}', w)
    elif which == 'merge_swallow':
        kids = list(nd.children)
        tf.merge_adjacent(p, cond, r.choice(['', 'm']), swallow=tf.is_one_of({'w', 'b'}))
        pos_true = True
        now = {id(n) for n in walk(t)}
        for c in kids:
            if c.name in ('w', 'b') and id(c) not in now and old_vals[id(c)] not in [val(n) for n in walk(t)]:
                ctx.violation('swallowed', f'node {c.name} was not swallowed as a whole\n{w}\n{t.as_sxpr()}', w)
    elif which == 'pull_up':
        tf.pull_up(p)
        pos_true = True
        attrs_before = frozenset()
    elif which == 'change_name':
        tf.change_name(p, 'zz')
        want = ('zz', v[1], v[2])
    elif which == 'remove_children_if':
        tf.remove_children_if(p, cond)
        if branch(v):
            want = (v[0], v[1], tuple(c for c in v[2] if not vcond(c)))
        conserve = False
    elif which == 'keep_children':
        sl = slice(r.choice([None, 0, 1, -2]), r.choice([None, 1, 3, -1]), r.choice([None, 1, 2]))
        tf.keep_children(p, sl)
        if branch(v):
            want = (v[0], v[1], v[2][sl])
        conserve = False
    elif which == 'strip':
        tf.strip(p, cond)
        conserve = False

        def st(x, left):
            while branch(x):
                k = list(x[2])
                j = 0 if left else -1
                k[j] = st(k[j], left)
                n = len(k)
                while k and vcond(k[j]):
                    del k[j]
                x = (x[0], x[1], tuple(k))
                if len(k) == n:
                    break
            return x
        want = st(st(v, True), False)
    elif which == 'remove':
        tf.remove(p)
        conserve = False
        if parent:
            wantp = ref_parent(pv, idx, lambda c: [])
    ctx.evaluated((ctx.chunk, i, which, cname, before), branch(v))
    ctx.count('rules applied')
    if want is not None:
        ctx.count('results compared with reference')
        if tidy(val(nd)) != tidy(want):
            ctx.violation('result-' + which, f'{w}\ngot:  {val(nd)}\nwant: {want}', w)
    if wantp is not None:
        ctx.count('results compared with reference')
        if tidy(val(parent)) != tidy(wantp):
            ctx.violation('result-' + which, f'{w}\ngot:  {val(parent)}\nwant: {wantp}', w)
    conserved(ctx, nt, t, txt if conserve else None, errs, w, which, pos_true and conserve)
    if which in ('flatten', 'flatten1', 'replace_by_single_child', 'reduce_single_child', 'replace_or_reduce', 'merge_adjacent', 'merge_leaves') \
            and errs and t.children:
        found = {(e.code, e.pos) for n in walk(t) for e in t.node_errors(n)}
        miss = [e for e in t.errors if (e.code, e.pos) not in found and e.pos in solid]
        ctx.count('errors looked up after a rule', len(errs))
        if miss:
            ctx.violation('unreachable-error', f'{[str(e) for e in miss]} not found at any node\n{w}\n{t.as_sxpr()}', w)
    if which in ('flatten', 'flatten1', 'replace_by_single_child', 'reduce_single_child', 'replace_or_reduce', 'collapse', 'move_fringes', 'swap_nested_nodes'):
        lost = attrs_before - allattr(val(t))
        if lost:
            ctx.violation('attributes-' + which, f'attributes {sorted(lost)} were lost\n{w}\n{t.as_sxpr()}', w)


def conserved(ctx, nt, t, txt, errs, w, which, pos_true=False):
    if txt is not None and trees.content(t) != txt:
        ctx.violation('text-' + which, f'text changed: {txt!r} -> {trees.content(t)!r}\n{w}\n{t.as_sxpr()}', w)
    ns = list(walk(t))
    if len({id(n) for n in ns}) != len(ns):
        ctx.violation('duplicate-node-' + which, f'a node occurs twice in the tree\n{w}\n{t.as_sxpr()}', w)
    if [(e.code, e.message, e.pos) for e in t.errors] != errs:
        ctx.violation('errors-' + which, f'errors changed\n{w}', w)
    if errs:
        ctx.count('trees with errors')
        if t.error_flag != max(e[0] for e in errs):
            ctx.violation('error-flag', f'{w}', w)
    if pos_true:
        pos = 0
        for n in ns:
            if n._pos >= 0 and n._pos != pos and n.content:
                ctx.violation('position-' + which, f'{n.name} {n.content!r} has position {n._pos}, its text is at {pos}\n{w}\n{t.as_sxpr()}', w)
                break
            if not n.children:
                pos += len(n.content)


def lean_case(ctx, nt, tf, r, i):
    n = r.randint(2, 9)
    ops = [r.choice(['add', 'sub', 'mul']) for _ in range(n - 1)]
    at = {}

    def build(k):
        leaf = nt.Node('n', str(k) + ',')
        if k == n - 1:
            return leaf
        nd = nt.Node(ops[k], (leaf, build(k + 1)))
        nd.attr['op'] = str(k)
        return nd
    t = build(0)
    t.with_pos(0)
    t = nt.RootNode(t)
    ctx.current = w = {'tree': t.as_sxpr(flatten_threshold=-1), 'rule': 'lean_left'}
    txt = trees.content(t)
    which = r.choice(['root', 'traverse'])
    # lean_left works its way down the spine from the bottom
    tf.traverse(t, {'add, sub, mul': tf.lean_left({'add', 'sub', 'mul'})})
    ctx.evaluated((ctx.chunk, i, 'lean', n, tuple(ops)))
    ctx.count('operator chains turned')
    conserved(ctx, nt, t, txt, [], w, 'lean_left', True)
    want = ('n', '0,')
    for k in range(1, n):
        want = (ops[k - 1], str(k - 1), want, ('n', str(k) + ','))

    def shape(x):
        return (x.name, x.attr.get('op'), shape(x.children[0]), shape(x.children[1])) if x.children else (x.name, x.content)
    if shape(t) != want:
        ctx.violation('lean-left', f'{shape(t)} instead of {want}\n{w}', w)


def pipeline_case(ctx, nt, tf, r, i):
    """whole transformations out of rearranging rules"""
    t = make(ctx, nt, r, attrs=False, depth=r.choice([3, 4, 5]))
    errs = [(e.code, e.message, e.pos) for e in t.errors]
    txt = trees.content(t)
    pool = {'rbsc': tf.replace_by_single_child, 'rsc': tf.reduce_single_child, 'flatten': tf.flatten, 'ml': tf.merge_leaves,
            'ror': tf.replace_or_reduce, 'collapse': tf.collapse, 'fl2': tf.flatten(tf.is_one_of({'a', ':Series'})),
            'mf': tf.move_fringes(lambda p: not p[-1].children and p[-1].name in (':Whitespace', 'w')), 'ma': tf.merge_adjacent(tf.is_one_of({'a', 'b', ':Text'}), 'b'),
            'cc': tf.collapse_children_if(tf.is_anonymous_leaf, target_name='t'), 'swap': tf.swap_nested_nodes,
            'rbc': tf.replace_by_children, 'if': tf.apply_if(tf.replace_by_single_child, tf.is_anonymous),
            'ifelse': tf.apply_ifelse(tf.flatten, tf.merge_leaves, tf.neg(tf.is_anonymous)),
            'unless': tf.apply_unless(tf.reduce_single_child, tf.has_parent({'a', 'd'})),
            'local': tf.traverse_locally({'a': tf.merge_leaves, '*': tf.flatten})}
    table, desc = {}, {}
    for key in ['a', 'b', 'c', 'd', 'op', 'w', ':Series', ':x', '*', '<', '>']:
        if r.random() < 0.5:
            ks = [r.choice(sorted(pool)) for _ in range(r.choice([1, 1, 2, 3]))]
            if key in ('<', '>', '*'):
                ks = [k for k in ks if k not in ('rbc',)]
            if 'rbc' in ks:
                ks = [k for k in ks if k != 'rbc'] + (['rbc'] if '>' not in table else [])
            table[key] = [pool[k] for k in ks]
            desc[key] = ks
    if '>' in table:
        for k in table:
            table[k] = [x for x in table[k] if x is not tf.replace_by_children]
            desc[k] = [x for x in desc[k] if x != 'rbc']
    ctx.current = w = {'tree': t.as_sxpr(flatten_threshold=-1), 'table': desc}
    tf.traverse(t, table)
    ctx.evaluated((ctx.chunk, i, 'pipe'), bool(table))
    ctx.count('whole transformations')
    conserved(ctx, nt, t, txt, errs, w, 'table')
