"""Random node trees and naive reference walks."""

NAMES = ['a', 'b', 'c', 'd', 'e', 'doc', ':Text', ':Series', 'x-y', 'T1']


def texts(r):
    return r.choice(['', '', 'x', 'ab', 'abc', ' ', 'one two', 'ä€', '\n', 'long text ' * 3, '0'])


def tree(r, depth, width=4, names=NAMES, text=texts, attrs=0.0, Node=None, leaf_p=0.3, empty_branch=0.0):
    if Node is None:
        from DHParser.nodetree import Node
    name = r.choice(names)
    if depth <= 0 or r.random() < leaf_p:
        nd = Node(name, text(r))
    else:
        nd = Node(name, tuple(tree(r, depth - 1, width, names, text, attrs, Node, leaf_p) for _ in range(r.randint(1, width))))
    if attrs and r.random() < attrs:
        nd.attr.update({k: attr_value(r) for k in r.sample(['id', 'class', 'n', 'lang', 'x'], r.randint(1, 3))})
    return nd


def attr_value(r):
    return r.choice(['1', 'a b', '', 'ä', "it's", 'x=y', 'long value'])


def paths(root, reverse=False):
    """all paths in (mirrored) document order"""
    out = []

    def rec(p):
        out.append(p)
        kids = p[-1].children
        for c in (reversed(kids) if reverse else kids):
            rec(p + [c])
    rec([root])
    return out


def content(nd):
    return ''.join(content(c) for c in nd.children) if nd.children else str(nd.result)


def key(nd):
    """names, structure, text, attributes"""
    a = tuple(nd.attr.items()) if nd.has_attr() else ()
    return (nd.name, a, tuple(key(c) for c in nd.children) if nd.children else str(nd.result))


def ids(ps):
    return [tuple(id(n) for n in p) for p in ps]
