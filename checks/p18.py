"""Markup, splitting and milestones: text and existing structure are conserved."""
import copy
from vt import trees, markup
from vt.markup import events, chars, named, uid, nodes


def ranges(ev_new, el):
    """positions (in the text) of the characters within elements named el"""
    return [i for i, e in enumerate(chars(ev_new)) if any(n == el for n, _ in e[1])]


def run(ctx):
    from DHParser import nodetree as nt
    r = ctx.rng
    for ti in range(ctx.n(6000)):
        t = markup.tree(r, r.choice([1, 2, 3, 4, 5]), r.choice([2, 3, 4]), r.choice([0.2, 0.4]))
        with_pos = r.random() < 0.5
        if with_pos:
            t.with_pos(0)
        if r.random() < 0.2:
            t = nt.RootNode(t)
        what = r.choice(['markup', 'markup', 'markup', 'milestone', 'split', 'full_split', 'leaf'])
        {'markup': do_markup, 'milestone': do_milestone, 'split': do_split, 'full_split': do_full, 'leaf': do_leaf}[what](
            ctx, nt, r, t, ti, with_pos)


def bad(ctx, key, msg, w, before, t):
    ctx.violation(key, f'{msg}\n{w}\nbefore: {before}\nafter:  {t.as_sxpr(flatten_threshold=-1)}', w)


def check_pos(ctx, key, t, w, before):
    """positions still are the offsets of the texts"""
    pos = [0]

    def rec(nd):
        if nd._pos >= 0 and nd._pos != pos[0]:
            bad(ctx, key, f'{nd.as_sxpr(flatten_threshold=-1)} has position {nd._pos}, its text is at {pos[0]}', w, before, t)
        if nd.children:
            for c in nd.children:
                rec(c)
        else:
            pos[0] += len(str(nd.result))
    rec(t)
    ctx.count('trees with positions checked')


def do_markup(ctx, nt, r, t, ti, with_pos):
    greedy = r.random() < 0.6
    ign = r.choice([nt.NO_PATH, nt.NO_PATH, {'note'}, {'pb', 'note'}])
    div = r.choice([nt.DIVISIBLES, {'p', 'b', 'i', 'w', ':Text'}, {'*': {'b', 'w'}, 'em': {'p', 'b', 'x'}, 'q': {'em', 'p', 'i'}}, set(),
                    'p, b, w', {'doc', 'p', 'b', 'i', 'note', 'div', 'w', 'pb', 'x'}])
    chain = r.choice(['', '', '_chain'])
    before = t.as_sxpr(flatten_threshold=-1)
    cm = nt.ContentMapping(t, nt.LEAF_PATH, ign, greedy=greedy, divisibility=dict(div) if isinstance(div, dict) else div,
                           chain_attr_name=chain)
    if not cm.path_list:
        return
    els = []
    w = {'tree': before, 'greedy': greedy, 'ignore': sorted(ign) if isinstance(ign, set) else '', 'div': repr(div), 'chain': chain, 'ops': els}
    ctx.current = w
    ignored = lambda p: isinstance(ign, set) and any(n.name in ign for n in p)
    known = {'em', 'q', 'hi'}
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        text = cm.content
        sel_pos = selected_positions(t, ignored)
        a, b = sorted(r.randint(0, len(text)) for _ in range(2))
        el = r.choice(['em', 'em', 'q', 'hi'])
        attrs = {'n': str(len(els) + 1)}
        els.append((a, b, el))
        ev = events(t)
        mult = multiplicity(t)
        old_ids = {id(n) for n in nodes(t)}
        olds = list(nodes(t))
        ctx.evaluated((ti, ctx.chunk, tuple(els)), b > a)
        try:
            if r.random() < 0.5:
                cm.markup(a, b, el, dict(attrs))
            else:
                cm.markup(a, b, el, **attrs)
        except ValueError as e:
            if a == b and 'divisible' in str(e):
                if events(t) != ev:
                    bad(ctx, 'refused-milestone-changes', f'refused milestone at {a} changed the tree', w, before, t)
                continue
            raise
        ctx.count('markups checked')
        n = attrs['n']
        new = lambda nd: nd.name == el and nd.has_attr() and nd.attr.get('n') == n
        # text, characters with their chains of elements, empty elements
        ev2 = events(t, drop=new)
        if ev2 != ev:
            i = next((i for i, (x, y) in enumerate(zip(ev, ev2)) if x != y), min(len(ev), len(ev2)))
            bad(ctx, 'structure-changed', f'existing elements at event {i}: {ev[i:i + 2]} became {ev2[i:i + 2]}', w, before, t)
            return
        # new elements cover exactly the range
        marks = [nd for nd in nodes(t) if new(nd)]
        if not marks:
            bad(ctx, 'markup-missing', f'no element {el} was added for {a, b}', w, before, t)
            return
        if a == b:
            ctx.count('milestones by empty markup')
            if len(marks) != 1 or marks[0].children or str(marks[0].result):
                bad(ctx, 'milestone', f'{len(marks)} milestones', w, before, t)
                return
            tb = before_selected(t, marks[0], ignored)
            if tb != text[:a]:
                bad(ctx, 'milestone-position', f'milestone stands behind {tb!r} instead of {text[:a]!r}', w, before, t)
                return
        else:
            covered = []

            def rec(nd, p, inside):
                p = p + [nd]
                inside = inside or new(nd)
                if nd.children:
                    for c in nd.children:
                        rec(c, p, inside)
                else:
                    covered.extend((inside, not ignored(p)) for _ in str(nd.result))
            rec(t, [], False)
            got = [i for i, (x, s) in enumerate(covered) if x and s]
            if got != [sel_pos[i] for i in range(a, b)]:
                bad(ctx, 'range', f'elements {el} cover the text positions {got} instead of {sel_pos[a:b]}', w, before, t)
                return
            if got and not greedy and any(x and not (got[0] <= i <= got[-1]) for i, (x, s) in enumerate(covered)):
                bad(ctx, 'range-ignored', f'elements {el} cover ignored text outside of the range {a, b}', w, before, t)
                return
            void = [nd for nd in marks if not nd.children and not str(nd.result)]
            if void:
                bad(ctx, 'void-markup', f'{len(void)} empty elements were added for the range {a, b}', w, before, t)
                return
        # only divisible elements are split
        mult2 = multiplicity(t)
        divisible = cm.divisibility.get(el, cm.divisibility.get('*', set()))
        for u, m in mult2.items():
            if m > mult.get(u, 0) and u[0] not in divisible and u[1]:
                bad(ctx, 'indivisible', f'element {u} was split although it is not divisible by {el}', w, before, t)
                return
            if m > mult.get(u, 0) and chain and u[1]:
                ctx.count('chained fragments')
                if not all(nd.has_attr(chain) for nd in nodes(t) if named(nd) and uid(nd) == u):
                    bad(ctx, 'chain', f'fragments of {u} are not chained', w, before, t)
                    return
        if any(m > mult.get(u, 0) for u, m in mult2.items() if u[1]):
            ctx.count('markups that split elements')
        if chain and len(marks) > 1:
            ctx.count('chained markups')
            if len({nd.attr.get(chain) for nd in marks}) != 1:
                bad(ctx, 'chain', f'the parts of {el} are not chained', w, before, t)
                return
        if any(nd.children and nd.name in (':Text',) for nd in nodes(t)):
            bad(ctx, 'text-with-children', 'a text node has children', w, before, t)
            return
        if with_pos:
            check_pos(ctx, 'positions', t, w, before)


def selected_positions(t, ignored):
    """full-text position of each selected character"""
    out, pos = [], [0]

    def rec(nd, p):
        p = p + [nd]
        if nd.children:
            for c in nd.children:
                rec(c, p)
        else:
            n = len(str(nd.result))
            if not ignored(p):
                out.extend(range(pos[0], pos[0] + n))
            pos[0] += n
    rec(t, [])
    return out


def before_selected(t, node, ignored):
    out, found = [], [False]

    def rec(nd, p):
        p = p + [nd]
        if nd is node:
            found[0] = True
        if found[0]:
            return
        if nd.children:
            for c in nd.children:
                rec(c, p)
        elif not ignored(p):
            out.append(str(nd.result))
    rec(t, [])
    return ''.join(out)


def multiplicity(t):
    m = {}
    for nd in nodes(t):
        if named(nd):
            m[uid(nd)] = m.get(uid(nd), 0) + 1
    return m


def do_milestone(ctx, nt, r, t, ti, with_pos):
    """nodetree.insert_node on a leaf path"""
    before = t.as_sxpr(flatten_threshold=-1)
    leaf_paths = [p for p in trees.paths(t) if not p[-1].children]
    p = r.choice(leaf_paths)
    leaf = p[-1]
    i = r.randint(0, len(str(leaf.result)))
    ms = nt.Node('ms', r.choice(['', '', '[1]']))
    ctx.current = w = {'tree': before, 'path': [n.name for n in p], 'offset': i, 'node': str(ms.result)}
    ctx.evaluated((ti, ctx.chunk, 'ms', i))
    ctx.count('milestones inserted')
    want = (markup.text_before(t, leaf) + str(leaf.result)[:i])
    ev = events(t)
    parent = nt.insert_node(p, i, ms, divisible_leaves=set(markup.LEAF))
    ev2 = events(t, drop=lambda nd: nd is ms)
    got = markup.text_before(t, ms)
    if got != want:
        bad(ctx, 'milestone-position', f'milestone stands behind {got!r} instead of {want!r}', w, before, t)
    if not any(c is ms for c in parent.children):
        bad(ctx, 'milestone-parent', 'the returned node is not the parent of the new node', w, before, t)
    if str(ms.result):
        k = len(want)
        c2 = chars(ev2)
        c2 = c2[:k] + c2[k + len(str(ms.result)):]
        if c2 != chars(ev):
            bad(ctx, 'structure-changed', 'existing elements changed', w, before, t)
    elif len(p) > 1 and ev2 != ev and not (i == 0 and not str(leaf.result)):
        bad(ctx, 'structure-changed', 'existing elements changed', w, before, t)
    if with_pos and not str(ms.result):
        check_pos(ctx, 'positions', t, w, before)


def do_split(ctx, nt, r, t, ti, with_pos):
    before = t.as_sxpr(flatten_threshold=-1)
    P = [p for p in trees.paths(t) if len(p) > 1]
    p = r.choice([q for q in P if not q[-1].children] if r.random() < 0.7 else P)
    cut = r.randint(0, len(p) - 2)
    p = p[cut:]
    nd = p[-1]
    i = r.randint(0, len(nd.children) if nd.children else len(str(nd.result)))
    lb, greedy = r.random() < 0.5, r.random() < 0.5
    chain = r.choice(['', 'chain'])
    ctx.current = w = {'tree': before, 'path': [n.name for n in p], 'index': i, 'left_biased': lb, 'greedy': greedy, 'chain': chain}
    ctx.evaluated((ti, ctx.chunk, 'split', i, lb, greedy))
    ctx.count('splits checked')
    want = markup.text_before(p[0], nd) + (''.join(trees.content(c) for c in nd.children[:i]) if nd.children else str(nd.result)[:i])
    total = trees.content(t)
    ev = chars(events(t))
    evoid = [e for e in events(t) if not e[0]]
    old = multiplicity(t)
    if len(p) == 2 and r.random() < 0.5:
        k = nt.split_node(nd, p[0], i, lb, {'chain': 'X'} if chain else None)
        what = 'split_node'
    else:
        k = nt.deep_split(p, i, lb, greedy, chain_attr_name=chain)
        what = 'deep_split'
    left = ''.join(trees.content(c) for c in p[0].children[:k])
    if left != want:
        bad(ctx, 'split-position', f'{what} returned {k}: text before is {left!r} instead of {want!r}', w, before, t)
    if chars(events(t)) != ev or trees.content(t) != total:
        bad(ctx, 'structure-changed', f'{what} changed text or elements', w, before, t)
    new = multiplicity(t)
    if chain:
        for u, m in new.items():
            if m > old[u]:
                ctx.count('chained fragments')
                if not all(n.has_attr('chain') for n in nodes(t) if named(n) and uid(n) == u):
                    bad(ctx, 'chain', f'fragments of {u} are not chained', w, before, t)
    if with_pos:
        check_pos(ctx, 'positions', t, w, before)


def do_full(ctx, nt, r, t, ti, with_pos):
    before = t.as_sxpr(flatten_threshold=-1)
    P = [p for p in trees.paths(t) if len(p) > 1 and not p[-1].children]
    p = r.choice(P)
    i = r.randint(0, len(str(p[-1].result)))
    ctx.current = w = {'tree': before, 'path': [n.name for n in p], 'index': i}
    ctx.evaluated((ti, ctx.chunk, 'full', i))
    ctx.count('full splits checked')
    want = markup.text_before(t, p[-1]) + str(p[-1].result)[:i]
    ev = chars(events(t))
    total = trees.content(t)
    left, right = nt.full_split(p, i, r.random() < 0.5, r.random() < 0.5)
    if left is not t or trees.content(left) != want or trees.content(right) != total[len(want):]:
        bad(ctx, 'split-position', f'full_split gave {trees.content(left)!r} and {trees.content(right)!r}', w, before, t)
    names = lambda evts: [(c, tuple(n for n, _ in ch)) for c, ch in evts]
    if names(chars(events(left)) + chars(events(right))) != names(ev):
        bad(ctx, 'structure-changed', 'full_split changed the elements', w, before, t)


def do_leaf(ctx, nt, r, t, ti, with_pos):
    before = t.as_sxpr(flatten_threshold=-1)
    leaf = r.choice([n for n in nodes(t) if not n.children])
    s = str(leaf.result)
    a, b = sorted(r.randint(0, len(s)) for _ in range(2))
    if a == b:
        return
    ctx.current = w = {'tree': before, 'leaf': leaf.name, 'range': (a, b)}
    ctx.evaluated((ti, ctx.chunk, 'leaf', a, b))
    ctx.count('leaf markups checked')
    start = len(markup.text_before(t, leaf))
    ev = events(t)
    nt.markup_leaf(leaf, a, b, 'em', n='1')
    if events(t, drop=lambda n: n.name == 'em') != ev:
        bad(ctx, 'structure-changed', 'markup_leaf changed the elements', w, before, t)
    if ranges(events(t), 'em') != list(range(start + a, start + b)):
        bad(ctx, 'range', 'markup_leaf covers a wrong range', w, before, t)
    if with_pos:
        check_pos(ctx, 'positions', t, w, before)
