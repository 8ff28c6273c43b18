"""Access to DHParser through its public API, used by all checks."""
import io, contextlib
import DHParser
from DHParser import parse as _p
from DHParser.dsl import create_parser, grammar_provider, compileEBNF, DefinitionError, CompilationError
from DHParser.error import has_errors, is_error, ERROR, FATAL, WARNING, Error
from DHParser.nodetree import Node, RootNode, Path
from DHParser.configuration import set_config_value, get_config_value


def is_known_exc(e):
    return isinstance(e, (DefinitionError, CompilationError))


def quiet(fn):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
        return fn()


def named_items(node, anonymous_prefix=':'):
    """The forest of named nodes below and including `node` as nested tuples
    (name, start, end, children)."""
    def items(nd):
        kids = []
        for c in nd.children:
            kids.extend(items(c))
        if nd.name[:1] == anonymous_prefix:
            return kids
        return [(nd.name, nd.pos, nd.pos + len(nd.content), tuple(kids))]
    return tuple(items(node))


def true_errors(root):
    return [e for e in root.errors if is_error(e.code)]


def pos(node):
    try:
        return node.pos
    except AssertionError:
        return None      # position not initialized


def tree_key(node):
    """Everything observable about a tree: names, content, structure, positions, attributes."""
    attrs = tuple(sorted((str(k), str(v)) for k, v in node.attr.items())) if node.has_attr() else ()
    if node.children:
        return (node.name, pos(node), attrs, tuple(tree_key(c) for c in node.children))
    return (node.name, pos(node), attrs, node.content)


def error_key(root):
    return tuple(sorted((e.pos, int(e.code), e.message) for e in root.errors))
