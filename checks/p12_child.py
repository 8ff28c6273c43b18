"""Runs in a fresh interpreter: executes generated code and compiles the same grammars once more."""
import sys, os, json, importlib, hashlib


def tree(nd):
    attrs = sorted((str(k), str(v)) for k, v in nd.attr.items()) if nd.has_attr() else []
    try:
        pos = nd.pos
    except AssertionError:
        pos = None
    return [nd.name, pos, attrs, [tree(c) for c in nd.children] if nd.children else nd.content]


def outcome(g, doc):
    try:
        root = g(doc)
    except Exception as e:
        return ['exception', type(e).__name__]
    return [tree(root), sorted([e.pos, int(e.code), e.message] for e in root.errors)]


def main(folder):
    import io, contextlib
    real = sys.stdout
    sys.stdout = sys.stderr = io.StringIO()
    sys.path.insert(0, folder)
    cases = json.load(open(os.path.join(folder, 'cases.json')))
    out = []
    for c in cases:
        res = {}
        try:
            mod = importlib.import_module(c['name'] + 'Parser')
            make = mod.get_grammar if c['how'] == 'module' else getattr(mod, c['name'] + 'Grammar')
            g = make()
            res['module'] = [outcome(g, d) for d in c['docs']]
            if c['how'] == 'class':
                res['root'] = g.root__.pname
        except Exception as e:
            res['module'] = repr(e)
        try:
            from DHParser.dsl import compileEBNF
            res['code'] = compileEBNF(c['src'], c['name'])
        except Exception as e:
            res['code'] = repr(e)
        out.append(res)
    with open(os.path.join(folder, 'out.json'), 'w') as f:
        json.dump(out, f)
    sys.stdout = real


if __name__ == '__main__':
    main(sys.argv[1])
