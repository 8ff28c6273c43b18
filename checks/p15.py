"""Serialization round trips: S-expressions, SXML, JSON, XML, ElementTree, pickle, copies."""
import copy, html, json, pickle, re
import xml.etree.ElementTree as ET
from vt import trees

BRANCH_NAMES = ['a', 'b', 'c', 'doc', 'x-y', 'T1', ':Series', 'long_name', 'h1.2']
LEAF_NAMES = ['a', 'b', 'e', 'x-y', 'pb', 'T_2', ':Text', ':Whitespace', ':RegExp']
TEXTS = ['', '', 'x', 'ab', ' ', '  ', 'one two', 'ä€𝄞', 'a\nb', '\n', 'a\n\nb\n', '\n  x', 'x  y', 'x )', '(x', '((', ')(', '"', "'",
         'a"b', "it's", '"it\'s"', "''", '""', "'\"'", '`(a "b")', '; comment', '@', '\\', 'a\\', '\\n', '\\"', "\\'", '{}[]', '\t',
         'a\tb', ' lead', 'trail ', 'null', '0', ':', '"""', "a'''b", 'a="1"', 'x"y\'z', '%s', 'word ' * 12]
XML_TEXTS = ['', '', 'x', ' ', '  ', 'a b', 'ä€𝄞', '<', '>', '&', '&&', 'a<b', ']]>', '<!--', '&amp', 'a & b;', '"', "'", 'a\tb', 'x\ny',
             'a\n\n  b', 'null', '--', '<a>', '</a>', '?>', '{}', 'one two three ' * 5]
XML_PLAIN = [t for t in XML_TEXTS if not re.search('[<>&]', t)]
ATTRS = ['id', 'class', 'n', 'xml:lang', 'x-y', 'a.b', 'T']
VALUES = ['', '1', 'a b', 'ä', "it's", 'say "x"', 'x=y', 'a)b', '(', '`(', 'a>b', 'a/', '/', '"\'', 'x  y', ' ', '\\', 'a, b', ';']


def tree(r, depth, width, texts, values, names=BRANCH_NAMES, leaves=LEAF_NAMES, attrs=0.25, leaf_p=0.25, top=True):
    from DHParser.nodetree import Node
    if not top and (depth <= 0 or r.random() < leaf_p):
        nd = Node(r.choice(leaves), r.choice(texts))
    else:
        nd = Node(r.choice(names), tuple(tree(r, depth - 1, width, texts, values, names, leaves, attrs, leaf_p, False)
                                         for _ in range(r.randint(1, width))))
    if r.random() < attrs:
        nd.attr.update({k: r.choice(values) for k in r.sample(ATTRS, r.randint(1, 3))})
    return nd


def key(nd, pos=False):
    a = tuple((k, str(v)) for k, v in nd.attr.items()) if nd.has_attr() else ()
    k = (nd.name, a, tuple(key(c, pos) for c in nd.children) if nd.children else str(nd.result))
    return k + (nd._pos,) if pos else k


def norm(nd):
    """key modulo whitespace in texts"""
    a = tuple((k, ' '.join(v.split())) for k, v in nd.attr.items()) if nd.has_attr() else ()
    return (nd.name, a, tuple(norm(c) for c in nd.children) if nd.children else ' '.join(str(nd.result).split()))


# XML projection: (tag, attributes, [text | element ...])

def merge(items):
    out = []
    for i in items:
        if isinstance(i, str):
            if out and isinstance(out[-1], str):
                out[-1] += i
            elif i:
                out.append(i)
        else:
            out.append(i)
    return tuple(i for i in out if i != '')


def xml_of(nd, string_tags, tag):
    if nd.name in string_tags and not nd.has_attr():
        return trees.content(nd)
    items = [xml_of(c, string_tags, tag) for c in nd.children] if nd.children else [str(nd.result)]
    return (tag(nd.name), tuple(nd.attr.items()) if nd.has_attr() else (), merge(items))


def xml_of_etree(e):
    items = [e.text or '']
    for c in e:
        items += [xml_of_etree(c), c.tail or '']
    return (e.tag, tuple((k.replace('{http://www.w3.org/XML/1998/namespace}', 'xml:'), v) for k, v in e.attrib.items()), merge(items))


def squeeze(x):
    """modulo whitespace except where it is to be preserved"""
    if isinstance(x, str):
        return ''.join(x.split())
    if ('xml:space', 'preserve') in x[1]:
        return x
    items = [squeeze(i) for i in x[2]]
    return (x[0], x[1], tuple(i for i in items if i != ''))


def decode(x):
    if isinstance(x, str):
        return html.unescape(x)
    return (x[0], tuple((k, html.unescape(v)) for k, v in x[1]), tuple(decode(i) for i in x[2]))


def alltext(x):
    return x if isinstance(x, str) else ''.join(alltext(i) for i in x[2])


def run(ctx):
    from DHParser import nodetree as nt
    from DHParser.configuration import set_config_value
    r = ctx.rng
    set_config_value('xml_attribute_error_handling', 'fix')

    def same(what, got, want, text, w):
        ctx.count('round trips compared')
        ctx.evaluated((what, text))
        if got != want:
            ctx.violation(what.split(' ')[0], f'{what}: read back as\n{got}\ninstead of\n{want}\nserialized: {text}', w)

    # names with a colon inside and control characters
    for name, text, k in (('tei:p', 'x', 'sxpr-colon-name'), (':Text', 'x', 'sxpr'), ('a', 'x\x07', 'sxpr-control-chars'), ('a', 'x\ry', 'sxpr-control-chars')):
        t = nt.Node('r', (nt.Node(name, text),))
        got = nt.parse_sxpr(t.as_sxpr())
        if key(got) != key(t):
            ctx.violation(k, f'{t.as_sxpr()} read back as {key(got)}', {'tree': repr(key(t))})
        ctx.evaluated(('special', name, text))
    for ti in range(ctx.n(140)):
        big = r.random() < 0.2
        t = tree(r, r.choice([1, 2, 3, 5]) if not big else 4, r.choice([1, 2, 4]), r.choice([TEXTS, TEXTS, TEXTS[:8] + XML_PLAIN[:5]]), VALUES,
                 top=r.random() < 0.9)
        pos = r.random() < 0.5
        if pos:
            t.with_pos(r.choice([0, 0, 17]))
        kind = r.choice(['node', 'root', 'rootsrc'])
        if kind != 'node':
            source = (t._pos * '.' if pos else '') + trees.content(t)
            t = nt.RootNode(t, source) if kind == 'rootsrc' else nt.RootNode(t)
        ctx.current = w = {'tree': repr(key(t)), 'kind': kind}
        K, KP = key(t), key(t, True)
        if ti == 0:
            ctx.sample(t.as_sxpr())
        src = (t.pos * '.' if pos else '') + trees.content(t)

        # S-expressions in all variants denote the same tree
        for _ in range(6):
            opt = dict(compact=r.random() < 0.5, flatten_threshold=r.choice([0, -1, 20, 92, 120, 10 ** 6, nt.INFINITE]),
                       indentation=r.choice([0, 1, 2, 4]), sxml=r.choice([0, 0, 0, 1, 2]))
            s = t.as_sxpr(**opt)
            ctx.count('S-expression variants')
            same(f'sxpr {opt}', key(nt.parse_sxpr(s)), K, s, w)
            if opt['sxml']:
                same('sxml', key(nt.parse_sxml(t.as_sxml(normal_form=opt['sxml'], flatten_threshold=opt['flatten_threshold']))), K, s, w)
            if pos and not opt['sxml']:
                s2 = t.as_sxpr(src='' if r.random() < 0.5 or t.pos else src, **opt)
                same(f'sxpr-pos {opt}', key(nt.parse_sxpr(s2), True), KP, s2, w)
            if opt['flatten_threshold'] in (-1, nt.INFINITE):
                ctx.count('flat renderings')
            f = nt.flatten_sxpr(s, r.choice([-1, -1, 40]))
            same('flatten_sxpr', key(nt.parse_sxpr(f)), K, f, w)
        if not any('\n' in str(l.result) or '"' in str(l.result) or "'" in str(l.result) for l in t.select(nt.LEAF_NODE, True)):
            s = t.as_sxpr(reflow_col=r.choice([10, 30, 60, 100]), flatten_threshold=r.choice([0, 60]))
            ctx.count('reflowed S-expressions')
            same('reflow', norm(nt.parse_sxpr(s)), norm(t), s, w)

        # JSON
        for asd in (False, True):
            s = t.as_json(indent=r.choice([None, 0, 1, 2]), as_dict=asd, include_pos=True, ensure_ascii=r.random() < 0.5)
            same(f'json dict={asd}', key(nt.parse_json(s), True), KP, s, w)
            s = t.as_json(indent=2, as_dict=asd, include_pos=False)
            same(f'json-nopos dict={asd}', key(nt.parse_json(s), True), key_nopos(t), s, w)
        ctx.count('JSON variants', 4)
        for how in ('S-expression', 'sxpr', 'SXML', 'SXML1', 'SXML2', 'JSON', 'dict.json', 'default', 'AST', 'CST'):
            s = t.serialize(how)
            if s.lstrip()[:1] in '([{':
                same(f'serialize {how}', key(nt.deserialize(s)), K, s, w)

        # xast, ndst: plain JSON documents of the same tree
        for flavor in ('xast', 'ndst'):
            s = t.as_xast(src) if flavor == 'xast' else t.as_ndst(src)
            same(flavor, unist(json.loads(s), flavor), unist_of(t, flavor, src), s, w)

        # pickle, copy
        for proto in (2, pickle.HIGHEST_PROTOCOL):
            p = pickle.loads(pickle.dumps(t, proto))
            same('pickle', (type(p), key(p, True)), (type(t), KP), '', w)
        c = copy.deepcopy(t)
        same('deepcopy', (type(c), key(c, True)), (type(t), KP), '', w)
        mutate(c)
        same('deepcopy independent', key(t, True), KP, '', w)
        same('equals', t.equals(nt.parse_sxpr(t.as_sxpr())), True, '', w)
        ctx.count('copies', 3)

        annotated(ctx, nt, r, same)

        # XML
        texts, plain = (XML_PLAIN, True) if r.random() < 0.4 else (XML_TEXTS, False)
        vals = [v for v in VALUES if not plain or v != '"\'']
        t = tree(r, r.choice([1, 2, 3, 4]), r.choice([1, 2, 4]), texts, vals, top=r.random() < 0.9)
        if r.random() < 0.4:
            r.choice(list(t.select(lambda n: True, True))).attr['xml:space'] = 'preserve'
        if t.name in nt.LEAF_PTYPES:
            t.name = 'root'
        if r.random() < 0.3:
            t = nt.RootNode(t)
        K = key(t)
        ctx.current = w = {'tree': repr(K)}
        tags = r.choice([nt.LEAF_PTYPES, nt.LEAF_PTYPES, frozenset(), {':Text'}])
        ref = xml_of(t, tags, nt.xml_tag_name)
        s = t.as_xml(string_tags=tags, inline_tags={t.name})
        got = xml_of_etree(ET.fromstring(s))
        ctx.count('XML documents parsed by ElementTree', 2)
        same('xml-inline', got, ref, s, w)
        s = t.as_xml(string_tags=tags, indentation=r.choice([0, 2, 4]), empty_tags=r.choice([nt.AUTO_EMPTY_TAGS, frozenset()]))
        got = xml_of_etree(ET.fromstring(s))
        same('xml-indented', squeeze(got), squeeze(ref), s, w)
        same('xml-unchanged', key(t), K, s, w)
        if plain:
            s = t.as_xml(string_tags=tags, inline_tags={t.name})
            back = nt.parse_xml(s)
            ctx.count('XML documents parsed by parse_xml')
            same('parse_xml', squeeze(xml_of(back, nt.LEAF_PTYPES, nt.xml_tag_name)), squeeze(xml_of(t, nt.LEAF_PTYPES, nt.xml_tag_name)), s, w)
            if not any('\n' in str(l.result) for l in t.select(nt.LEAF_NODE, True)):
                same('parse_xml exact', xml_of(back, nt.LEAF_PTYPES, nt.xml_tag_name), xml_of(t, nt.LEAF_PTYPES, nt.xml_tag_name), s, w)
        else:
            s = t.as_xml(string_tags=tags, inline_tags={t.name})
            got, want = xml_of(nt.parse_xml(s), nt.LEAF_PTYPES, nt.xml_tag_name), xml_of(t, nt.LEAF_PTYPES, nt.xml_tag_name)
            ctx.count('XML documents with entities read by parse_xml')
            if squeeze(got) != squeeze(want):
                same('parse_xml entities', squeeze(decode(got)), squeeze(want), s, w)
                ctx.violation('parse_xml-entities', f'{s} read back as {got}', w)
        # ElementTree
        e = t.as_etree(string_tags=nt.LEAF_PTYPES)
        no_attr = not any(n.has_attr() for n in t.select(lambda n: n.name in nt.LEAF_PTYPES, True))
        if no_attr:
            same('as_etree', xml_of_etree(e), xml_of(t, nt.LEAF_PTYPES, lambda n: nt.xml_tag_name(n)), '', w)
            back = nt.Node.from_etree(e)
            ctx.count('ElementTrees read back')
            same('from_etree', xml_of(back, nt.LEAF_PTYPES, nt.xml_tag_name), xml_of(t, nt.LEAF_PTYPES, nt.xml_tag_name),
                 ET.tostring(e, 'unicode'), w)


def err_attrs(t):
    """removes the pseudo-attributes with the errors and returns their values"""
    out = []
    for n in t.select(lambda n: True, True):
        if n.has_attr('err'):
            out.append(n.attr['err'])
            del n.attr['err']
    return out


def annotated(ctx, nt, r, same):
    """renderings that record positions, lines, columns or errors of the nodes besides their own data"""
    from DHParser.error import ErrorCode
    t = tree(r, r.choice([1, 2, 3]), r.choice([1, 2, 4]), XML_TEXTS if r.random() < 0.5 else XML_PLAIN, VALUES, top=r.random() < 0.9)
    if t.name in nt.LEAF_PTYPES:
        t.name = 'root'
    nodes = list(t.select(lambda n: True, True))
    for n in nodes:
        if r.random() < 0.1:
            n.attr[r.choice(['line', 'col', '_pos', 'err', 'pos'])] = r.choice(['7', '12:1'])
    t.with_pos(0)
    src = trees.content(t)
    t = nt.RootNode(t, src)
    nodes = list(t.select(lambda n: True, True))
    errs = {}
    for n in nodes:
        if r.random() < 0.25:
            m = r.choice(['simple', 'with "quotes" & <tags>', "it's", 'ä(€', 'two) brackets (', 'line\nbreak', '`(x "y")'])
            t.new_error(n, m, ErrorCode(r.choice([150, 1000, 2000]) + len(errs)))
            errs.setdefault(id(n), []).append(m)
    w = {'tree': repr(key(t)), 'errors': sorted(m for l in errs.values() for m in l)}
    ctx.current = w
    K, KP = key(t), key(t, True)
    own = {a for n in nodes if n.has_attr() for a in n.attr}
    if not own & {'err', 'pos', 'line', 'col', '_pos'}:
        for _ in range(2):
            opt = dict(compact=r.random() < 0.5, flatten_threshold=r.choice([0, -1, 92, 10 ** 6]), sxml=r.choice([0, 0, 1, 2]))
            s = t.as_sxpr(**opt)
            ok, back = ctx.guard(lambda: nt.parse_sxpr(s), f'parse_sxpr({s})')
            if ok:
                said = err_attrs(back)
                same(f'sxpr-errors {opt}', key(back), K, s, w)
                want = [[m.replace('"', r'\"') for m in errs[id(n)]] for n in nodes if id(n) in errs]
                if len(said) != len(want) or any(m not in x for x, ms in zip(said, want) for m in ms):
                    ctx.violation('sxpr-errors-text', f'errors {want} read back as {said}: {s}', w)
                ctx.count('trees with errors read back', bool(want))
            if not opt['sxml']:
                s = t.as_sxpr(src=r.choice(['', src]), **opt)
                ok, back = ctx.guard(lambda: nt.parse_sxpr(s), f'parse_sxpr({s})')
                if ok:
                    err_attrs(back)
                    same(f'sxpr-errors-pos {opt}', key(back, True), KP, s, w)
    for how in (None, '', src):
        s = t.as_xml(src=how, string_tags=frozenset(), inline_tags={t.name})
        try:
            e = ET.fromstring(s)
        except ET.ParseError as pe:
            ctx.violation('xml-annotated-wellformed', f'{pe}: {s}', w)
            continue
        ctx.count('annotated XML documents')
        ctx.evaluated(('annotated', s))
        els = list(e.iter())
        if len(els) != len(nodes):
            ctx.violation('xml-annotated', f'{len(els)} elements for {len(nodes)} nodes: {s}', w)
            continue
        for el, n in zip(els, nodes):
            at = dict((k.replace('{http://www.w3.org/XML/1998/namespace}', 'xml:'), v) for k, v in el.attrib.items())
            want = {k: str(v) for k, v in n.attr.items()} if n.has_attr() else {}
            own = set(want)
            if how and not own & {'line', 'col'}:
                before = src[:n.pos]
                want.update(line=str(before.count('\n') + 1), col=str(n.pos - (before.rfind('\n') + 1) + 1))
            if how == '' and '_pos' not in own:
                want['_pos'] = str(n.pos)
            msg = at.pop('err', None) if 'err' not in own else None
            if at != want:
                ctx.violation('xml-annotated', f'attributes {at} instead of {want} (src={how!r}): {s}', w)
            if 'err' not in own and (msg is not None) != (id(n) in errs):
                ctx.violation('xml-annotated-errors', f'errors of {n.name}: {msg}, added: {errs.get(id(n))}: {s}', w)
            if msg is not None and any(' '.join(m.split()) not in ' '.join(msg.split()) for m in errs[id(n)]):
                ctx.violation('xml-annotated-errors', f'{msg!r} lacks one of {errs[id(n)]}: {s}', w)
    same('annotated unchanged', key(t, True), KP, '', w)


def key_nopos(nd):
    k = key(nd)

    def rec(k):
        return (k[0], k[1], tuple(rec(c) for c in k[2]) if isinstance(k[2], tuple) else k[2], -1)
    return rec(k)


def mutate(t):
    for nd in t.select(lambda n: True, True):
        if not nd.children:
            nd.result = 'changed'
        nd.attr['changed'] = 'yes'
        nd.name = 'changed'


def unist(o, flavor):
    name = o['name'] if flavor == 'xast' else o['type']
    kids = o.get('children')
    if flavor == 'xast' and kids and kids[0].get('type') == 'text':
        res = kids[0]['value']
    else:
        res = tuple(unist(c, flavor) for c in kids) if kids else o['value']
    pos = o.get('position')
    p = tuple((pos[k]['line'], pos[k]['column'], pos[k]['offset']) for k in ('start', 'end')) if pos else None
    return (name, tuple(o.get('attributes', {}).items()), res, p)


def unist_of(t, flavor, src):
    def rec(nd):
        p = None
        if nd._pos >= 0 and src is not None:
            p = (lc(src, nd._pos), lc(src, nd._pos + len(trees.content(nd))))
        a = tuple(nd.attr.items()) if nd.has_attr() else ()
        return (nd.name, a, tuple(rec(c) for c in nd.children) if nd.children else str(nd.result), p)

    def lc(src, pos):
        before = src[:pos]
        return (before.count('\n') + 1, pos - (before.rfind('\n') + 1) + 1, pos)
    return rec(t)
