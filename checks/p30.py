"""P30: the bundled XML parser reports the same elements, attributes, character data, comments and processing instructions as expat, and
rejects documents whose tags do not match."""
import re
from xml.parsers import expat
from vt import dh

NAMES = ['a', 'b', 'c', 'div', 'x:y', 'tei.x', '_u', 'näme', 'A', 'a-b', 'a1', '日本', 'xmlx', 'Text', 'Name', 'content', 'p·q', 'Series__', 'CharData']
CHARS = ['a', 'b', 'x y', ' ', '  ', '\n', '\t', 'ä', '😀', '>', '"', "'", ']', ']]', '-', '--', '?', '?>', '=', '/', '/>', '#', ';', '!', '%', '(', ')', '\u2028', '\u00a0', '{', '\\', '.', '&#', '1', 'lt;', '\x7f', '\x85']
WS = ' \t\r\n'
ENT = {'amp': '&', 'lt': '<', 'gt': '>', 'quot': '"', 'apos': "'"}


def run(ctx):
    for i in range(ctx.n(300, 1500)):
        document(ctx)
    for i in range(ctx.n(150, 700)):
        mismatch(ctx)
    for i in range(ctx.n(150, 700)):
        mutated(ctx)


# ---- documents

class Doc:
    def __init__(self, r, xml=True):
        self.r, self.xml = r, xml
        self.names = r.sample(NAMES, r.randint(1, 5))
        self.tags = []            # positions of tags in the text, for mutations

    def ws(self, p=0.8):
        r = self.r
        return '' if r.random() < p else r.choice([' ', '\n', '  ', '\t', ' \n '])

    def text(self, bad='<&', n=4):
        r = self.r
        t = ''.join(r.choice(CHARS) for _ in range(r.randint(0, n)))
        return ''.join(c for c in t if c not in bad)

    def ref(self):
        r = self.r
        c = ord(r.choice('aZ0é😀<&>"\'\n A1'))
        return r.choice([f'&#{c};', f'&#x{c:x};', f'&#x{c:X};', f'&#{c:05d};', f'&#x00{c:X};'] + [f'&{e};' for e in ENT])

    def attr(self, name=None):
        r = self.r
        q = r.choice('"\'')
        v = ''.join(r.choice([self.text('<&' + q), self.text('<&' + q), self.ref()]) for _ in range(r.randint(0, 3)))
        return f'{self.ws()}={self.ws()}{q}{v}{q}'

    def attrs(self):
        r = self.r
        names = r.sample(NAMES + ['id', 'xml:lang', 'class', 'xml:id', 'err', 'pos', '_pos', 'line'], r.choice([0, 0, 0, 1, 1, 2, 3]))
        t = ''.join((r.choice([' ', '\n', '  ', '\t'])) + n + self.attr() for n in names)
        if r.random() < 0.05:
            t += ' xml:space="%s"' % r.choice(['preserve', 'default'])
        return t

    def comment(self):
        t = re.sub('--+', '-', self.text('', 5))
        return '<!--' + t + (' ' if t.endswith('-') else '') + '-->'

    def pi(self):
        r = self.r
        t = r.choice(self.names + ['php', 'x-ml', 'target'])
        if t.lower().startswith('xml'):
            t = 'pi'
        d = self.text('', 5).replace('?>', '')
        if ':' in t:
            t = 'pi'
        return f'<?{t}' + (r.choice([' ', '\n', '  ']) + d.lstrip() if d.strip() else '') + '?>'

    def xmlpi(self):
        r = self.r
        n = r.choice(['xml-model', 'xml-stylesheet', 'xml-unknown'])
        at = ' '.join(f'{k}="{self.text("<&" + chr(34))}"' for k in r.sample(['href', 'type', 'title'], r.randint(0, 3)))
        return f'<?{n} {at}{self.ws()}?>'.replace(' ?>', r.choice(['?>', ' ?>']))

    def cdata(self):
        t = self.text('', 5).replace(']]>', '')
        t = re.sub(r'\]+$', '', t) if self.r.random() < 0.5 else t
        if self.r.random() < 0.3:
            t += self.r.choice(['<a>', '&amp;', '<![CDATA[', '&', '<!--', '</a>'])
        return '<![CDATA[' + t + ']]>'

    def content(self, d):
        r = self.r
        parts = []
        for _ in range(r.choice([0, 1, 1, 2, 3, 5])):
            k = r.random()
            if k < 0.35:
                parts.append(self.text('<&').replace(']]>', ''))
            elif k < 0.6 and d > 0:
                parts.append(self.element(d - 1))
            elif k < 0.75:
                parts.append(self.ref())
            elif k < 0.82:
                parts.append(self.comment())
            elif k < 0.88:
                parts.append(self.pi())
            elif k < 0.94:
                parts.append(self.cdata())
            else:
                parts.append(r.choice([' ', '\n  ']))
        return re.sub(r'\]\](?=>)', '', ''.join(parts)) if ']]>' in re.sub(r'<!\[CDATA\[.*?\]\]>', '', ''.join(parts), flags=re.S) else ''.join(parts)

    def element(self, d):
        r = self.r
        n = r.choice(self.names)
        at = self.attrs()
        if r.random() < 0.25:
            return f'<{n}{at}{self.ws()}/>'
        return f'<{n}{at}{self.ws()}>{self.content(d)}</{n}{self.ws()}>'

    def misc(self):
        r = self.r
        return ''.join(r.choice(['\n', ' ', self.comment(), self.pi()] + [self.xmlpi()] * self.xml) for _ in range(r.choice([0, 0, 1, 2, 3])))

    def document(self, d=None):
        r = self.r
        t = ''
        if self.xml and r.random() < 0.4:
            q = r.choice('"\'')
            t = f'<?xml version{self.ws()}={self.ws()}{q}1.0{q}'
            if r.random() < 0.5:
                t += f' encoding={q}{r.choice(["UTF-8", "utf-8"])}{q}'
            if r.random() < 0.4:
                t += f'{r.choice([" ", chr(10)])}standalone{self.ws()}={self.ws()}{r.choice([chr(34) + "yes" + chr(34), chr(39) + "no" + chr(39)])}'
            t += self.ws() + '?>'
        t += self.misc()
        if r.random() < 0.15:
            n = r.choice(self.names)
            t += f'<!DOCTYPE {n}' + r.choice(['', ' SYSTEM "x.dtd"', " SYSTEM 'y.dtd'", ' PUBLIC "-//W3C//DTD" "http://x"', " PUBLIC 'abc' 'u'", ' ']) + '>'
            t += self.misc()
        t += self.element(r.choice([1, 2, 3, 4]) if d is None else d)
        return t + self.misc() + r.choice(['\n', '\n', ''])


# ---- reference

class Undecided(Exception):
    pass


def reference(doc):
    """the events as reported by expat; None if the document is not well-formed"""
    ev = []
    p = expat.ParserCreate()
    p.ordered_attributes = True
    p.buffer_text = True
    p.UseForeignDTD(False)

    def other(what):
        def f(*args):
            raise Undecided(what)
        return f
    p.StartElementHandler = lambda n, a: ev.append(('start', n, tuple(zip(a[::2], a[1::2]))))
    p.EndElementHandler = lambda n: ev.append(('end', n))
    p.CharacterDataHandler = lambda t: ev.append(('text', t))
    p.CommentHandler = lambda t: ev.append(('comment', t))
    p.ProcessingInstructionHandler = lambda t, d: ev.append(('pi', t, d))
    p.XmlDeclHandler = lambda v, e, s: ev.append(('xml', v, e, s))
    p.StartDoctypeDeclHandler = lambda n, s, q, i: other('internal subset')() if i else ev.append(('doctype', n, s, q))
    p.EntityDeclHandler = other('entity')
    p.SkippedEntityHandler = other('skipped entity')
    p.UnparsedEntityDeclHandler = other('entity')
    try:
        p.Parse(doc, True)
    except expat.ExpatError:
        return None
    return merged(ev)


def merged(ev):
    out = []
    for e in ev:
        if e[0] == 'text':
            if not e[1]:
                continue
            if out and out[-1][0] == 'text':
                out[-1] = ('text', out[-1][1] + e[1])
                continue
        out.append(e)
    return out


RX_REF = re.compile(r'&(?:#x([0-9a-fA-F]+)|#([0-9]+)|(\w+));')


def unref(s):
    """references replaced in attribute values"""
    return RX_REF.sub(lambda m: chr(int(m.group(1), 16)) if m.group(1) else chr(int(m.group(2))) if m.group(2) else entity(m.group(3)), s)


def entity(name):
    if name not in ENT:
        raise Undecided('entity')
    return ENT[name]


def wsnorm(s):
    return re.sub(r'[\t\n\r]', ' ', s)


def pseudo(d):
    return tuple(sorted(re.findall(r'([\w-]+)\s*=\s*"([^"]*)"', d)))


def observed(tree):
    """the events according to the tree of DHParser"""
    ev = []

    def visit(n):
        name = n.name
        if name == ':XML':
            for c in n.children:
                visit(c)
        elif name == ':Text':
            ev.append(('text', n.content))
        elif name == 'CDSect' and not n.has_attr():
            ev.append(('text', n.content))
        elif name == ':CharRef':
            ev.append(('text', chr(int(n.content, 16))))
        elif name == ':EntityRef':
            ev.append(('text', entity(n.content)))
        elif name == '!--':
            ev.append(('comment', n.content))
        elif name == '?xml':
            a = n.attr
            ev.append(('xml', a.get('version'), a.get('encoding'), {'yes': 1, 'no': 0}.get(a.get('standalone'), -1)))
        elif name.startswith('?xml-'):
            ev.append(('pi', name[1:], tuple(sorted((k, v) for k, v in n.attr.items()))))
        elif name.startswith('?'):
            ev.append(('pi', name[1:], n.attr.get('instructions__', '') if n.has_attr() else ''))
        elif name == 'doctypedecl':
            lits = [c.content for c in n.select({'SystemLiteral', 'PubidLiteral'})]
            ev.append(('doctype', n['Name'].content, lits[-1] if lits else None, ' '.join(lits[0].split()) if len(lits) > 1 else None))
        else:
            ev.append(('start', name, tuple((k, unref(v)) for k, v in n.attr.items()) if n.has_attr() else ()))
            if n.children:
                for c in n.children:
                    visit(c)
            elif n.content:
                ev.append(('text', n.content))
            ev.append(('end', name))
    visit(tree)
    return merged(ev)


def expected(ev):
    """reference events in the notation of `observed`"""
    out = []
    for e in ev:
        if e[0] == 'pi' and e[1].startswith('xml-'):
            e = ('pi', e[1], pseudo(wsnorm(e[2])))
        out.append(e)
    return out


def attr_norm(doc):
    """white space in attribute values that is not given by references becomes blanks"""
    return doc


def parse(ctx, doc, preserve):
    from DHParser.parsers import parse_XML
    try:
        return parse_XML(doc, preserve), None
    except ValueError as e:
        if not str(e).startswith('Malformed input'):
            raise
        return None, str(e)


def kinds(doc):
    return [k for k, rx in (('references', '&'), ('CDATA', '<!\\[CDATA'), ('comments', '<!--'), ('processing instructions', '<\\?(?!xml )'),
                            ('declaration', '<\\?xml '), ('doctype', '<!DOCTYPE'), ('references in attributes', r'="[^"<]*&'),
                            ('xml:space', 'xml:space')) if re.search(rx, doc)]


def literal(ctx, doc):
    """may the string be mistaken for a file name?"""
    return doc if '\n' in doc else doc + '\n'


def compare(ctx, doc, what):
    ref = reference(doc)
    if ref is None:
        ctx.count(f'{what}: not well-formed')
        return False
    ctx.count(f'{what}: well-formed')
    for k in kinds(doc):
        ctx.count('well-formed documents with ' + k)
    ctx.current = doc
    tree, err = parse(ctx, doc, True)
    ctx.evaluated(doc, len(ref) > 2)
    if tree is None:
        ctx.violation(f'well-formed document rejected: {cause(doc, err)}', f'{doc!r}\n{err}', doc)
        return True
    want, got = expected(ref), observed(tree)
    ctx.count('events compared', len(want))
    if want != got:
        i = next((i for i, (a, b) in enumerate(zip(want, got)) if a != b), min(len(want), len(got)))
        w, g = want[i:i + 2], got[i:i + 2]
        ctx.violation(f'different {w[0][0] if w else "end"}', f'{doc!r}\nwant {w}\ngot  {g}', doc)
        return True
    squeezed(ctx, doc, ref)
    roundtrip(ctx, doc, ref, tree)
    return True


def cause(doc, err):
    m = re.search(r'(\d+):(\d+): Error \((\d+)\): (.*)', err)
    return re.sub(r'[»"\'].*?[«"\']', '…', m.group(4))[:60] if m else '?'


def pieces(doc):
    """what the text of a document consists of"""
    rx = re.compile(r'<!--.*?-->|<!\[CDATA\[.*?\]\]>|<\?.*?\?>|<!DOCTYPE(?:[^>"\']|"[^"]*"|\'[^\']*\')*>|<(?:[^>"\']|"[^"]*"|\'[^\']*\')*>|&[^;]*;|[^<&]+', re.S)
    return rx.findall(doc)


def squeezed(ctx, doc, ref):
    """whitespace between tags is dropped on demand, nothing else"""
    if 'xml:space' in doc and ctx.rng.random() < 0.5:
        tree, err = parse(ctx, doc, None)
    else:
        tree, err = parse(ctx, doc, False)
    ps = pieces(doc)
    out, stack, strict = [], [False], True
    rs = re.compile(r'\sxml:space\s*=\s*["\']preserve["\']')
    for i, p in enumerate(ps):
        if p[0] not in '<&':
            if p.strip(WS) or stack[-1]:
                out.append(p)
                continue
            nbs = [q for q in (ps[i - 1] if i else '', ps[i + 1] if i + 1 < len(ps) else '') if q]
            if len(stack) > 1 and any(q[0] == '&' or q.startswith('<![CDATA[') for q in nbs):
                out.append(p)              # whitespace next to a reference or a CDATA-section is text
            elif len(stack) > 1 and any(q[1] in '!?' for q in nbs):
                strict = False             # next to comments, processing instructions
                out.append(p)
            continue
        if p[0] == '<' and p[1] == '/':
            stack.pop()
        elif p[0] == '<' and p[1] not in '!?' and not p.endswith('/>'):
            stack.append(stack[-1] or bool(rs.search(p)))
        out.append(p)
    want = expected(reference(''.join(out)) or [])
    got = observed(tree) if tree is not None else None
    ctx.count('whitespace removed' + (': strictly comparable' if strict else ''))
    if not strict:
        # whitespace next to comments, processing instructions
        def f(ev):
            return merged([e for e in ev or [] if e[0] not in ('comment', 'pi') and not (e[0] == 'text' and not e[1].strip(WS))])
        def g(ev):
            return [('text', re.sub(r'[ \t\r\n]+', '', e[1])) if e[0] == 'text' else e for e in ev]
        want, got = g(f(want)), g(f(got))
    if want != got:
        i = next((i for i, (a, b) in enumerate(zip(want, got or [])) if a != b), min(len(want), len(got or [])))
        ctx.violation('whitespace removed', f'{doc!r}\nwant {want[i:i+2]}\ngot  {(got or [])[i:i+2]} {err}', doc)


def roundtrip(ctx, doc, ref, tree):
    """… -> tree -> XML; the serialization of CDATA-sections and document types is documented not to work"""
    from DHParser.nodetree import LEAF_PTYPES
    if '<![CDATA' in doc or '<!DOCTYPE' in doc or '<?xml-' in doc or \
            any(e[0] == 'start' and e[1][0] == ':' for e in ref):
        return
    root = next((c for c in tree.children if c.name[0] not in '?!'), tree) if tree.name == ':XML' else tree
    xml = tree.as_xml(inline_tags={root.name, ':XML'}, string_tags=LEAF_PTYPES, strict_mode=False)
    back = reference(xml if isinstance(xml, str) else str(xml))
    ctx.count('documents serialized')
    if back is None or [e for e in expected(back) if e[0] != 'xml'] != [e for e in expected(ref) if e[0] != 'xml']:
        ctx.violation('serialized', f'{doc!r}\n{xml!r}\nwant {ref}\ngot  {back}', doc)


def document(ctx):
    r = ctx.rng
    d = Doc(r)
    if r.random() < 0.02:
        d.names = d.names[:1]
        n = r.randint(10, 40)
        doc = literal(ctx, ''.join(f'<{d.names[0]}{d.attrs()}>' for _ in range(n)) + d.text() + f'</{d.names[0]}>' * n)
    else:
        doc = literal(ctx, d.document())
    try:
        compare(ctx, doc, 'documents')
    except Undecided:
        ctx.count('documents: not decided')


def mismatch(ctx):
    """one tag is changed, dropped, or added"""
    r = ctx.rng
    d = Doc(r)
    doc = literal(ctx, d.document(r.choice([2, 3])))
    try:
        if reference(doc) is None:
            return
    except Undecided:
        return
    ps = pieces(doc)
    if ''.join(ps) != doc:
        return
    tags = [i for i, p in enumerate(ps) if p[0] == '<' and p[1] not in '!?']
    ends = [i for i in tags if ps[i][1] == '/']
    starts = [i for i in tags if ps[i][1] != '/' and not ps[i].endswith('/>')]
    if not ends:
        return
    how = r.choice(['name', 'drop end', 'drop start', 'extra end', 'extra start', 'swap', 'case', 'open', 'second root'])
    if how in ('name', 'case'):
        i = r.choice(ends + starts)
        name = re.match(r'</?([^\s/>]+)', ps[i]).group(1)
        new = r.choice([name + 'x', name[:-1] or 'q', 'zz']) if how == 'name' else name.swapcase()
        ps[i] = ps[i].replace(name, new, 1)
    elif how == 'drop end':
        del ps[r.choice(ends)]
    elif how == 'drop start':
        del ps[r.choice(starts)]
    elif how == 'extra end':
        ps.insert(r.randint(starts[0], len(ps)), '</' + r.choice(d.names) + '>')
    elif how == 'extra start':
        ps.insert(r.randint(starts[0] + 1, ends[-1]), '<' + r.choice(d.names) + '>')
    elif how == 'swap':
        i, j = r.choice(ends), r.choice(ends)
        ps[i], ps[j] = ps[j], ps[i]
    elif how == 'open':
        i = r.choice(tags)
        ps[i] = ps[i][:-1]
    else:
        ps.insert(len(ps), '<' + d.names[0] + '/>')
    bad = ''.join(ps)
    try:
        if reference(bad) is not None:
            ctx.count('mismatching tags: still well-formed')
            return
    except Undecided:
        return
    ctx.current = bad
    tree, err = parse(ctx, bad, r.choice([True, False, None]))
    ctx.evaluated(bad)
    ctx.count('mismatching tags: ' + how)
    if tree is not None:
        ctx.violation(f'mismatching tags accepted: {how}', f'{bad!r}\n{tree.as_sxpr()}', bad)


def mutated(ctx):
    """single characters are changed: whatever is still well-formed must be accepted"""
    r = ctx.rng
    d = Doc(r, False)
    doc = literal(ctx, d.document(r.choice([1, 2])))
    i = r.randrange(len(doc))
    bad = r.choice([doc[:i] + doc[i + 1:], doc[:i] + r.choice('<>/&;"\'=! ?-]a1') + doc[i:], doc[:i] + r.choice('<>/&;"\' ?-]a') + doc[i + 1:]])
    bad = literal(ctx, bad)
    if re.search(r'<\?xml|<!DOCTYPE\s+\S+\s*\[', bad, re.I):
        return                            # not in the subset
    try:
        if not compare(ctx, bad, 'mutated documents'):
            ctx.current = bad
            parse(ctx, bad, True)         # must not crash
            ctx.evaluated(bad)
    except Undecided:
        ctx.count('mutated documents: not decided')
