"""Random trees with identifiable elements; flat event views of trees."""
from vt import trees

BRANCH = ['doc', 'p', 'b', 'i', 'note', 'div', ':Series']
LEAF = [':Text', ':Text', 'w', 'b', 'pb', 'x', ':RegExp']
WORDS = ['', '', 'a', 'b', 'ab', 'abc', 'x y', ' ', 'hello', 'one two', 'ä€', 'aaa']


def tree(r, depth=3, width=3, leaf_p=0.3):
    from DHParser.nodetree import Node
    n = [0]

    def rec(d, top=False):
        if not top and (d <= 0 or r.random() < leaf_p):
            nd = Node(r.choice(LEAF), r.choice(WORDS))
        else:
            nd = Node(r.choice(BRANCH), tuple(rec(d - 1) for _ in range(r.randint(1, width))))
        if not nd.name.startswith(':'):
            n[0] += 1
            nd.attr['uid'] = str(n[0])
        return nd
    t = rec(depth, True)
    if t.name.startswith(':'):
        t.name = 'doc'
        t.attr['uid'] = '0'
    return t


def named(nd):
    return not nd.name.startswith(':')


def uid(nd):
    return (nd.name, nd.attr.get('uid', '') if nd.has_attr() else '')


def events(nd, drop=lambda nd: False, chain=()):
    """text characters and empty elements in document order, each with its chain of named elements"""
    out = []

    def rec(nd, chain):
        if named(nd) and not drop(nd):
            chain = chain + (uid(nd),)
        if nd.children:
            for c in nd.children:
                rec(c, chain)
        else:
            s = str(nd.result)
            if s:
                out.extend((ch, chain) for ch in s)
            elif named(nd) and not drop(nd):
                out.append(('', chain))
    rec(nd, chain)
    return out


def chars(evts):
    return [e for e in evts if e[0]]


def nodes(nd):
    yield nd
    for c in nd.children:
        yield from nodes(c)


def text_before(root, node):
    """the text in front of `node`"""
    out, found = [], [False]

    def rec(nd):
        if nd is node:
            found[0] = True
        if found[0]:
            return
        if nd.children:
            for c in nd.children:
                rec(c)
        else:
            out.append(str(nd.result))
    rec(root)
    return ''.join(out) if found[0] else None
