"""Queries and navigation vs naive walks in document order."""
import re
from vt import trees
from vt.trees import paths, content, ids


def criterion(r, all_paths):
    """(criterion, reference predicate on nodes, kind)"""
    from DHParser import nodetree as nt
    nodes = [p[-1] for p in all_paths]
    k = r.choice(['id', 'node', 'frozen', 'name', 'names', 'tuple', 'pattern', 'func', 'any', 'leaf', 'branch', 'void', 'none'])
    nd = r.choice(nodes)
    if k == 'id':
        return id(nd), lambda n: n is nd, k
    if k == 'node':
        return nd, lambda n: n is nd, k
    if k == 'frozen':
        leaf = r.choice([n for n in nodes if not n.children])
        f = nt.FrozenNode(leaf.name, str(leaf.result))
        return f, lambda n: not n.children and n.name == leaf.name and str(n.result) == str(leaf.result) and not n.has_attr(), k
    if k == 'name':
        return nd.name, lambda n: n.name == nd.name, k
    if k in ('names', 'tuple'):
        s = [r.choice(trees.NAMES) for _ in range(r.randint(1, 3))]
        c = set(s) if k == 'names' else r.choice([tuple, list, frozenset])(s)
        return c, lambda n: n.name in s, k
    if k == 'pattern':
        rx = re.compile(r.choice(['x', 'ab?c?', r'\s*', '.*o.*', '[^a]+', 'a', '']))
        return rx, lambda n: bool(rx.fullmatch(content(n))), k
    if k == 'func':
        m = r.choice([1, 2, 3])
        f = lambda n: len(content(n)) % m == 0
        return f, f, k
    if k == 'leaf':
        return nt.LEAF_NODE, lambda n: not n.children, k
    if k == 'branch':
        return nt.BRANCH_NODE, lambda n: bool(n.children), k
    if k == 'void':
        return nt.VOID_NODE, lambda n: not n.children and not str(n.result), k
    if k == 'none':
        return nt.NO_NODE, lambda n: False, k
    return nt.ANY_NODE, lambda n: True, k


def path_crit(c, f):
    """criteria given as functions take paths in the path-versions"""
    if callable(c):
        return lambda p: f(p[-1])
    return c


def select_ref(root, match, include_root, reverse, skip):
    out = []

    def rec(p, yield_it):
        if yield_it and match(p[-1]):
            out.append(p)
        if yield_it and skip(p[-1]):
            return
        for c in (reversed(p[-1].children) if reverse else p[-1].children):
            rec(p + [c], True)
    rec([root], include_root)
    return out


def onward_ref(start, match, include_root, reverse, skip):
    out = []

    def rec(p):
        if match(p[-1]):
            out.append(p)
        for c in (reversed(p[-1].children) if reverse else p[-1].children):
            if not skip(c):
                rec(p + [c])
    if include_root:
        rec(start)
    p = start
    while len(p) > 1:
        sibs = list(p[-2].children)
        i = [x is p[-1] for x in sibs].index(True)
        for s in (reversed(sibs[:i]) if reverse else sibs[i + 1:]):
            if not skip(s):
                rec(p[:-1] + [s])
        p = p[:-1]
        if match(p[-1]):
            out.append(p)
    return out


def run(ctx):
    from DHParser import nodetree as nt
    r = ctx.rng
    for ti in range(ctx.n(150)):
        root = trees.tree(r, r.choice([1, 2, 3, 4]), r.choice([2, 3, 5]), attrs=0.2, leaf_p=r.choice([0.1, 0.3, 0.5]))
        if r.random() < 0.3:
            root = nt.RootNode(root)
        P = paths(root)
        R = paths(root, reverse=True)
        sx = root.as_sxpr(flatten_threshold=10000) if ti < 1 else ''
        if sx:
            ctx.sample(sx)
        ctx.current = w = {'tree': repr(root)}
        before = trees.key(root)

        def same(what, got, want, nontrivial=True):
            ctx.count('query results compared')
            ctx.evaluated((what.split(' ')[0], len(want) if isinstance(want, list) else want, ti, ctx.chunk), nontrivial)
            if got != want:
                ctx.violation(what.split(' ')[0], f'{what}: got {got!r}, naive walk: {want!r}\n{root.as_sxpr()}', w)

        def nodes(it):
            return [id(n) for n in it]

        for _ in range(12):
            c, f, kind = criterion(r, P)
            sc, sf, skind = criterion(r, P) if r.random() < 0.5 else (nt.NO_NODE, lambda n: False, '-')
            inc, rev = r.random() < 0.5, r.random() < 0.5
            tag = f'({kind}, include_root={inc}, reverse={rev}, skip={skind})'
            want = select_ref(root, f, inc, rev, sf)

            def opts(skipname, skip):
                """direction arguments by position, or by keyword with the defaults left out"""
                if r.random() < 0.5:
                    return (inc, rev, skip), {}
                kw = {k: v for k, v in (('include_root', inc), ('reverse', rev)) if v or r.random() < 0.3}
                if skind != '-' or r.random() < 0.2:
                    kw[skipname] = skip
                return (), kw

            def call(fn, first, skipname, skip, *lead):
                args, kw = opts(skipname, skip)
                return fn(*lead, first, *args, **kw)

            same('select ' + tag, nodes(call(root.select, c, 'skip_subtree', sc)), [id(p[-1]) for p in want], bool(want))
            same('select_if ' + tag, nodes(call(root.select_if, f, 'skip_func', sf)), [id(p[-1]) for p in want])
            same('pick ' + tag, id(call(root.pick, c, 'skip_subtree', sc)), id(want[0][-1]) if want else id(None))
            same('pick_if ' + tag, id(call(root.pick_if, f, 'skip_func', sf)), id(want[0][-1]) if want else id(None))
            pc, psc = path_crit(c, f), path_crit(sc, sf)
            pf, psf = lambda p: f(p[-1]), lambda p: sf(p[-1])
            same('select_path ' + tag, ids(list(call(root.select_path, pc, 'skip_subtree', psc))), ids(want))
            same('select_path_if ' + tag, ids(list(call(root.select_path_if, pf, 'skip_func', psf))), ids(want))
            got = call(root.pick_path, pc, 'skip_subtree', psc)
            same('pick_path ' + tag, ids([got]), ids(want[:1]) if want else [()])
            got = call(root.pick_path_if, pf, 'skip_func', psf)
            same('pick_path_if ' + tag, ids([got or []]), ids(want[:1]) if want else [()])
            kids = [n for n in root.children if f(n)]
            same('select_children ' + tag, nodes(root.select_children(c, rev)), [id(n) for n in (kids[::-1] if rev else kids)])
            got = root.pick_child(c, rev)
            same('pick_child ' + tag, id(got), id(kids[-1 if rev else 0]) if kids else id(None))
            branch = r.choice(P)[-1]
            kids = [n for n in branch.children if f(n)]
            idx = [i for i, n in enumerate(branch.children) if f(n)]
            same('indices ' + tag, list(branch.indices(c)), idx)
            same('contains ' + tag, c in branch, bool(kids))
            a, b = sorted([r.randint(0, 4), r.randint(1, 6)])
            b += a == b
            sub = [i for i in idx if a <= i < b]
            try:
                got = branch.index(c, a, b)
            except ValueError:
                got = None
            same('index ' + tag, got, sub[0] if sub else None)
            if not isinstance(c, int) and branch.children:
                try:
                    got = branch[c]
                    got = nodes(got) if isinstance(got, tuple) else [id(got)]
                except KeyError:
                    got = []
                same('getitem ' + tag, got, [id(n) for n in kids])
                sur = nt.Node('sur', '')
                same('get ' + tag, id(branch.get(c, sur)), id(kids[0] if kids else sur))
                same('get-list ' + tag, nodes(branch.get(c, [sur])), [id(n) for n in (kids or [sur])])
            # onward from a path
            start = r.choice(P)
            want = onward_ref(start, f, inc, rev, sf)
            ref_start = list(start)
            got = list(call(nt.select_path, pc, 'skip_subtree', psc, start))
            same('onward-select_path ' + tag, ids(got), ids(want), bool(want))
            same('onward-select_path_if ' + tag, ids(list(call(nt.select_path_if, pf, 'skip_func', psf, start))), ids(want))
            got = call(nt.pick_path, pc, 'skip_subtree', psc, start)
            same('onward-pick_path ' + tag, ids([got or []]), ids(want[:1]) if want else [()])
            got = call(nt.pick_path_if, pf, 'skip_func', psf, start)
            same('onward-pick_path_if ' + tag, ids([got or []]), ids(want[:1]) if want else [()])
            same('start-path-unchanged', ids([start]), ids([ref_start]))
            # within a path
            p = r.choice(P)
            hit = [n for n in p if f(n)]
            same('select_from_path ' + tag, nodes(nt.select_from_path(p, c, rev)), [id(n) for n in (hit[::-1] if rev else hit)])
            same('pick_from_path ' + tag, id(nt.pick_from_path(p, c, rev)), id(hit[-1 if rev else 0]) if hit else id(None))
            hi = [i for i, n in enumerate(p) if f(n)]
            for greedy in (False, True):
                same('path_head ' + tag, ids([nt.path_head(p, c, greedy)]), ids([p[:hi[-1 if greedy else 0] + 1] if hi else []]))
                same('path_tail ' + tag, ids([nt.path_tail(p, c, greedy)]), ids([p[hi[0 if greedy else -1]:] if hi else []]))
            # siblings
            if len(p) > 1:
                sibs = list(p[-2].children)
                i = [x is p[-1] for x in sibs].index(True)
                pre, suc = [n for n in sibs[:i] if f(n)], [n for n in sibs[i + 1:] if f(n)]
                same('pred_siblings ' + tag, nodes(nt.pred_siblings(p, c, rev)), [id(n) for n in (pre[::-1] if rev else pre)])
                same('succ_siblings ' + tag, nodes(nt.succ_siblings(p, c, rev)), [id(n) for n in (suc[::-1] if rev else suc)])
                pre, suc = [n for n in sibs[:i] if not f(n)], [n for n in sibs[i + 1:] if not f(n)]
                dflt = nt.Node('none', '')
                same('get_prev_sibling ' + tag, id(nt.get_prev_sibling(p, dflt, skip=c)), id(pre[-1] if pre else dflt))
                same('get_next_sibling ' + tag, id(nt.get_next_sibling(p, dflt, skip=c)), id(suc[0] if suc else dflt))
            # leaves before and after
            order = [q for q in P if not q[-1].children]
            inside = {id(q[-1]) for q in order if q[:len(p)] == p or ids([q[:len(p)]]) == ids([p])}
            k = [i for i, q in enumerate(order) if id(q[-1]) in inside]
            bef, aft = order[:k[0]], order[k[-1] + 1:]
            dflt = nt.Node('none', '')
            bn, an = [q for q in bef if not f(q[-1])], [q for q in aft if not f(q[-1])]
            same('get_prev_leaf ' + tag, id(nt.get_prev_leaf(p, dflt, skip=c)), id(bn[-1][-1] if bn else dflt))
            same('get_next_leaf ' + tag, id(nt.get_next_leaf(p, dflt, skip=c)), id(an[0][-1] if an else dflt))
            same('prev_leaf_path', ids([nt.prev_leaf_path(p) or []]), ids([bef[-1] if bef else []]))
            same('next_leaf_path', ids([nt.next_leaf_path(p) or []]), ids([aft[0] if aft else []]))
            s, t = ''.join(content(q[-1]) for q in bef), ''.join(content(q[-1]) for q in aft)
            n = r.choice([-1, 0, 1, 2, 3, 7, 100])
            same(f'foregoing_str length={n}', nt.foregoing_str(p, n), s if n < 0 else s[max(0, len(s) - n):])
            same(f'ensuing_str length={n}', nt.ensuing_str(p, n), t if n < 0 else t[:n])
            q = r.choice(P)
            common = 0
            while common < min(len(p), len(q)) and p[common] is q[common]:
                common += 1
            got = nt.find_common_ancestor(p, q)
            same('find_common_ancestor', (id(got[0]), got[1]), (id(p[common - 1]), common - 1))
            steps = r.randint(0, 3)
            pick = r.choice([nt.FIRST_CHILD, nt.LAST_CHILD])
            z, m = list(p), steps
            while m and z[-1].children:
                z, m = z + [pick(z[-1])], m - 1
            same('zoom_into_path', ids([nt.zoom_into_path(p, pick, steps)]), ids([z]))
            # document order neighbours that are no ancestors
            i = [ids([x]) for x in P].index(ids([p]))
            nx = [x for x in P[i + 1:] if ids([x[:len(p)]]) != ids([p])]
            same('next_path', ids([nt.next_path(p) or []]), ids(nx[:1] or [[]]))
            i = [ids([x]) for x in R].index(ids([p]))
            pv = [x for x in R[i + 1:] if ids([x[:len(p)]]) != ids([p])]
            same('prev_path', ids([nt.prev_path(p) or []]), ids(pv[:1] or [[]]))
            same('path_str', nt.path_str(p), '/' + '/'.join(n.name for n in p) + ('/' if p[-1].children else ''))
            same('reconstruct_path', ids([root.reconstruct_path(p[-1])]), ids([p]))
            same('find_parent', id(root.find_parent(p[-1])), id(p[-2]) if len(p) > 1 else id(None))
        for inc in (False, True):
            for rev in (False, True):
                want = (R if rev else P)[0 if inc else 1:]
                same('walk_tree', nodes(root.walk_tree(inc, rev)), [id(p[-1]) for p in want])
                same('walk_tree_paths', ids(list(root.walk_tree_paths(inc, rev))), ids(want))
        # locating text
        t, pos, cover = content(root), 0, []
        for p in P:
            if not p[-1].children:
                cover += [p] * len(content(p[-1]))
        same('content', root.content, t)
        same('strlen', root.strlen(), len(t))
        for k in list(range(len(t) + 2)) + [-1, -2, len(t) + 50]:
            inside = 0 <= k < len(t)
            same(f'locate {k}', id(root.locate(k)), id(cover[k][-1]) if inside else id(None))
            same(f'locate_path {k}', ids([root.locate_path(k)]), ids([cover[k] if inside else []]))
            ctx.count('text offsets located')
        same('tree-unchanged', trees.key(root), before)
        edits(ctx, r, root, same)
        drop(ctx, r, root, same)


def drop(ctx, r, root, same):
    """drop_leaf() removes the leaf and whatever becomes empty by that, nothing else"""
    from DHParser import nodetree as nt
    leaves = [p for p in paths(root) if not p[-1].children]
    if len(leaves) < 2:
        return
    gone = r.choice(leaves)
    want = [id(p[-1]) for p in leaves if p[-1] is not gone[-1]]
    doomed = {id(gone[-1])}
    for n in reversed(gone[:-1]):
        if all(id(c) in doomed for c in n.children):
            doomed.add(id(n))
    keep = [id(p[-1]) for p in paths(root) if id(p[-1]) not in doomed]
    nt.drop_leaf(gone)
    same('drop_leaf', [id(p[-1]) for p in paths(root)], keep)


def edits(ctx, r, root, same):
    """child-editing methods do to the children what the list operation does to a list"""
    from DHParser import nodetree as nt
    for _ in range(8):
        branches = [p[-1] for p in paths(root) if p[-1].children]
        if not branches:
            return
        b = r.choice(branches)
        kids = list(b.children)
        k = r.choice(['insert', 'remove', 'del', 'del-slice', 'del-name', 'set'])
        i = r.randint(-len(kids) - 1, len(kids) + 1)
        what = f'{k} {i} of {len(kids)}'
        ctx.count('child edits compared')
        new = nt.Node('new', 'N')
        try:
            if k == 'insert':
                kids.insert(i, new)
                b.insert(i, new)
            elif k == 'remove':
                nd = r.choice(kids)
                kids = [x for x in kids if x is not nd]
                b.remove(nd)
            elif k == 'del':
                ok = True
                try:
                    del kids[i]
                except IndexError:
                    ok = False
                try:
                    del b[i]
                    if not ok:
                        ctx.violation('del', f'{what}: no IndexError')
                except IndexError:
                    if ok:
                        ctx.violation('del', f'{what}: IndexError')
            elif k == 'del-slice':
                sl = slice(r.choice([None, i]), r.choice([None, r.randint(-3, 5)]), r.choice([None, 1, 2, -1]))
                what += repr(sl)
                del kids[sl]
                del b[sl]
            elif k == 'del-name':
                name = r.choice(kids).name
                kids = [x for x in kids if x.name != name]
                del b[name]
            else:
                j = r.randrange(len(kids))
                kids[j] = new
                b[j] = new
        except (ValueError, AssertionError, TypeError) as e:
            ctx.violation(k, f'{what}: {type(e).__name__}: {e}')
        same(what, [id(x) for x in b.children], [id(x) for x in kids])
        if not b.children:
            b.result = 'leaf'
