"""Content mappings: offsets <-> leaves, and mappings after edits vs freshly built mappings."""
from vt import trees, markup


def criteria(r, nt):
    """(select, ignore, reference predicates on paths): the reference is evaluated on any tree"""
    k = r.choice(['all', 'all', 'leafnames', 'under', 'pred'])
    if k == 'all':
        sel, sref = nt.LEAF_PATH, lambda p: True
    elif k == 'leafnames':
        names = set(r.sample(markup.LEAF, 3))
        sel = sref = lambda p: not p[-1].children and p[-1].name in names
    elif k == 'under':
        name = r.choice(markup.BRANCH + ['w', ':Text'])
        sel, sref = nt.leaf_paths(name), lambda p: any(n.name == name for n in p)
    else:
        m = r.choice([0, 1])
        sel = sref = lambda p: not p[-1].children and len(p) % 2 == m
    k2 = r.choice(['none', 'none', 'names', 'name', 'pred'])
    if k2 == 'none':
        ign, iref = nt.NO_PATH, lambda p: False
    elif k2 == 'names':
        names2 = set(r.sample(['p', 'b', 'note', 'w', ':RegExp', 'pb'], 2))
        ign, iref = names2, lambda p: p[-1].name in names2
    elif k2 == 'name':
        nm = r.choice(['note', 'b', ':Text'])
        ign, iref = nm, lambda p: p[-1].name == nm
    else:
        ign = iref = lambda p: len(p) == 3 and p[-1].name == 'b'
    return sel, ign, sref, iref, k, k2


def mapping_ref(root, sref, iref):
    """(content, [(position, path)])"""
    out, pos, text = [], [0], []

    def rec(p):
        if iref(p):
            return
        if p[-1].children:
            for c in p[-1].children:
                rec(p + [c])
        elif sref(p):
            out.append((pos[0], p))
            s = str(p[-1].result)
            text.append(s)
            pos[0] += len(s)
    rec([root])
    return ''.join(text), out


def run(ctx):
    from DHParser import nodetree as nt
    r = ctx.rng
    for ti in range(ctx.n(1500)):
        t = markup.tree(r, r.choice([1, 2, 3, 4]), r.choice([2, 3, 4]), r.choice([0.2, 0.4]))
        if r.random() < 0.2:
            t = nt.RootNode(t)
        sel, ign, sref, iref, k, k2 = criteria(r, nt)
        ctx.current = w = {'tree': t.as_sxpr(), 'select': k, 'ignore': k2}
        if ti == 0:
            ctx.sample(w)
        cm = nt.ContentMapping(t, sel, ign)
        text, ref = mapping_ref(t, sref, iref)

        def same(what, got, want, nontrivial=True):
            ctx.count('mapping answers compared')
            ctx.evaluated((what, got, ti, ctx.chunk), nontrivial)
            if got != want:
                ctx.violation(what.split(' ')[0], f'{what}: got {got!r}, should be {want!r}\n{w}\n{cm}', w)

        same('content', cm.content, text)
        same('positions', list(cm.pos_list), [p for p, _ in ref])
        same('paths', trees.ids(cm.path_list), trees.ids([p for _, p in ref]))
        if not ref:
            continue
        # every offset: unique leaf holding that character
        for pos in range(len(text) + 1):
            for biased in (False, True):
                path, off = cm.get_path_and_offset(pos, biased)
                loc = cm.get_location(pos, biased)
                i = cm.get_path_index(pos, biased)
                same(f'location {pos} {biased}', (ids1(path), off, loc.path_index, ids1(loc.path), loc.offset),
                     (ids1(cm.path_list[i]), pos - ref[i][0], i, ids1(ref[i][1]), pos - ref[i][0]))
                leaf = str(path[-1].result)
                same(f'bounds {pos} {biased}', 0 <= off <= len(leaf), True)
                if not biased and pos < len(text):
                    same(f'char {pos}', leaf[off:off + 1], text[pos])
                if biased and pos > 0:
                    same(f'char-left {pos}', leaf[off - 1:off], text[pos - 1])
                same(f'back {pos}', cm.get_node_position(path[-1]) + off, pos)
        try:
            got = cm.get_path_index(-r.randint(1, 5))
        except IndexError:
            got = 'IndexError'
        same('negative', got, 'IndexError')
        # nodes
        for nd in markup.nodes(t):
            idx = [i for i, (_, p) in enumerate(ref) if any(n is nd for n in p)]
            same('get_node_index first', cm.get_node_index(nd), idx[0] if idx else -1)
            same('get_node_index last', cm.get_node_index(nd, reverse=True), idx[-1] if idx else -1)
            same('get_node_position first', cm.get_node_position(nd), ref[idx[0]][0] if idx else -1)
            same('get_node_position last', cm.get_node_position(nd, reverse=True),
                 ref[idx[-1]][0] + len(str(ref[idx[-1]][1][-1].result)) if idx else -1)
        for _ in range(3):
            name = r.choice(markup.BRANCH + markup.LEAF)
            rev = r.random() < 0.5
            start = r.choice([None, r.randrange(len(ref))])
            got = list(cm.select(name, *([start] if start is not None else []), reverse=rev))
            want, prev = [], None
            rng = range(len(ref) - 1 if start is None else start, -1, -1) if rev else range(0 if start is None else start, len(ref))
            for i in rng:
                p = ref[i][1]
                if prev is not None and any(n is prev for n in p):
                    continue
                prev = next((n for n in reversed(p) if n.name == name), None)
                if prev is not None:
                    want.append((id(prev), i))
            same('select ' + name, [(id(nd), i) for nd, i in got], want)
            a, b = sorted(r.randint(0, len(text)) for _ in range(2))
            ia, ib = cm.get_path_index(a), cm.get_path_index(b)
            same('iterate_paths', trees.ids(list(cm.iterate_paths(a, b))), trees.ids([p for _, p in ref[ia:ib + 1]]))

        # edits through the mapping
        edit(ctx, nt, r, ti)


def edit(ctx, nt, r, ti):
    t = markup.tree(r, r.choice([1, 2, 3, 4]), r.choice([2, 3, 4]), r.choice([0.2, 0.4]))
    k = r.choice(['all', 'all', 'under'])
    name = r.choice(['p', 'b', 'doc', 'i'])
    sel, sref = (nt.LEAF_PATH, lambda p: True) if k == 'all' else (nt.leaf_paths(name), lambda p: any(n.name == name for n in p))
    ignset = r.choice([set(), set(), {'note'}, {'note', 'i'}])
    ign, iref = (ignset, lambda p: p[-1].name in ignset) if ignset else (nt.NO_PATH, lambda p: False)
    div = r.choice([nt.DIVISIBLES, {'p', 'b', 'i', 'w', ':Text'}, {'*': {'b', 'w'}, 'em': {'p', 'b', 'x'}, 'q': {'em', 'p'}}, set()])
    before = t.as_sxpr()
    cm = nt.ContentMapping(t, sel, ign, greedy=r.random() < 0.5, divisibility=dict(div) if isinstance(div, dict) else div,
                           chain_attr_name=r.choice(['', 'chain']))
    text = cm.content
    if not cm.path_list:
        return
    ops = []
    for i in range(len(cm.path_list)):
        if r.random() < 0.7:
            cm.path_str(i)
    ctx.current = w = {'tree': before, 'select': k, 'name': name, 'ignore': sorted(ignset), 'div': repr(div), 'greedy': cm.greedy,
                       'chain': cm.chain_attr_name, 'ops': ops}
    for _ in range(r.randint(1, 5)):
        a, b = sorted(r.randint(0, len(text)) for _ in range(2))
        if r.random() < 0.35:
            nd = nt.Node(r.choice(['ms', 'lb']), r.choice(['', '', 'NEW']))
            ops.append(('insert_node', a, nd.name, str(nd.result)))
            try:
                cm.insert_node(a, nd, r.random() < 0.5)
            except ValueError as e:
                if 'divisible' not in str(e):
                    raise
                ops.pop()
                continue
            text = text[:a] + str(nd.result) + text[a:]
        else:
            el = r.choice(['em', 'q', 'hi'])
            ops.append(('markup', a, b, el))
            try:
                cm.markup(a, b, el)
            except ValueError as e:
                if a != b or 'divisible' not in str(e):
                    raise
                ops.pop()
                continue
        ctx.count('edits applied through mappings')
        ref_text, ref = mapping_ref(t, sref, iref)
        ctx.count('mappings compared after edits')
        ctx.evaluated((ti, ctx.chunk, str(ops)), True)
        got = (cm.content, list(cm.pos_list), trees.ids(cm.path_list))
        want = (ref_text, [p for p, _ in ref], trees.ids([p for _, p in ref]))
        if got != want:
            fresh = nt.ContentMapping(t, sel, ign)
            ctx.violation('mapping-after-edit', f'{w}\nmapping after edit:\n{cm}\n{cm.content!r}\nfreshly built:\n{fresh}\n{fresh.content!r}', w)
            return
        if k == 'all' and not ignset and cm.content != text:
            ctx.violation('text-after-edit', f'{w}: {cm.content!r} instead of {text!r}', w)
            return
        names = [[n.name for n in p] for _, p in ref]
        got = [(list(cm.node_names(i)), cm.path_str(i), ids1(cm.path(i)), cm.pos(i)) for i in range(len(cm.path_list))]
        want = [(ns, '/' + '/'.join(ns), ids1(p), pos) for ns, (pos, p) in zip(names, ref)]
        ctx.count('names of paths compared after edits', len(got))
        if got != want:
            ctx.violation('path-names-after-edit', f'{w}\n{got}\ninstead of\n{want}', w)
            return
        text = cm.content


def ids1(p):
    return tuple(id(n) for n in p)
