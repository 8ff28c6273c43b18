"""P27: recompiling a grammar replaces the generated parser only: everything else in the script survives verbatim, failures leave it
untouched, outdated scripts are recognized, and the script always parses like the current grammar."""
import contextlib, hashlib, importlib.util, io, os, re, resource, shutil, subprocess, sys
from vt import dh, corpus

BOX = '\n\n' + '#' * 71 + '\n#\n# %s\n#\n' + '#' * 71 + '\n\n'
RX_BOX = re.compile(r'\n\n#{71}\n#\n# .*?SECTION.*?\n#\n#{71}\n\n')
INTRO, IMPORTS, PREP, PARSER, AST, COMP, OUTRO = range(7)
NAMES = ['lang', 'Abc', 'my-lang', 'x1', 'Parser', 'long_name', 'DSL']

EDITS = ['\n# a comment – über {NAME} %s {0}\n', '\ndef helper_{n}(x):\n    """doc {{x}}\n\n\n    ######\n    PARSER SECTION - Don\'t edit!\n    """\n'
         '    return x + {n}\n', '\nvalue_{n} = "source_hash__ = \\"abc\\""\n', '\n\n\n\n', '\n# trailing blanks   \n   \n',
         '\n' + '#' * 71 + '\n#\n# a box of my own {n}\n#\n' + '#' * 71 + '\n\n', '\ntext_{n} = r"""\\n {{curly}} %d \\1 \\g<0> """\n',
         '\nclass Helper_{n}:\n    source_hash__ = "0{n}"\n', '\n# END OF DHPARSER-parts\n', '\n\t\n# tab\f\n', '\nemoji_{n} = "😀\u2028é"\n',
         '\nif value_{n} if "value_{n}" in globals() else None:\n    pass\n']
BREAK = [lambda r, s: s + '\nbroken = ( "a"\n', lambda r, s: s + '\nbroken = undefined_symbol_\n', lambda r, s: s.replace('=', '', 1),
         lambda r, s: s + '\n@ unknowndirective = 5\n', lambda r, s: s + '\nbroken = /(/\n', lambda r, s: '', lambda r, s: '\n# nothing\n']


def run(ctx):
    dh.quiet(lambda: None)
    for i in range(ctx.n(14, 60)):
        history(ctx, i)
    if ctx.chunk % 4 == 0:
        for i in range(ctx.n(1, 3)):
            folder_of_grammars(ctx, i)


class Model:
    """what the user has written"""
    def __init__(self):
        self.grammar, self.valid, self.included = None, True, None
        self.compiled = None              # the grammar that the script contains
        self.sections = None              # the sections of the script
        self.clean = True                 # no invalid python in the sections
        self.docs = []


def mutter(fn):
    """calls the function; returns the exception or the result, and what has been printed"""
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
        try:
            return None, fn(), out.getvalue()
        except Exception as e:
            return e, None, out.getvalue()


def make_grammar(ctx, r):
    for _ in range(20):
        kind, src, syms, docs = corpus.case(r, 5, size=(2, 4))
        if r.random() < 0.2:
            src = '# ' + r.choice(['ä grammar', '{NAME}', 'include', '"""']) + '\n' + src
        try:
            dh.quiet(lambda: dh.create_parser(src))
        except (dh.DefinitionError, dh.CompilationError):
            continue
        return src, docs + ['', 'a']
    raise RuntimeError('no grammar')


def write(path, text):
    with open(path, 'w', encoding='utf-8') as f:
        f.write(text)


def read(path):
    with open(path, encoding='utf-8') as f:
        return f.read()


def history(ctx, i):
    from DHParser import dsl
    r = ctx.rng
    name = r.choice(NAMES)
    base = os.path.join(ctx.tmp, f'h{i}')
    folder = os.path.join(base, r.choice(['g', 'ä b', 'some.ebnf.d']))
    fresh = os.path.join(base, 'fresh')
    os.makedirs(folder)
    os.makedirs(fresh)
    m = Model()
    m.folder, m.fresh, m.name = folder, fresh, name
    m.ebnf = os.path.join(folder, name + '.ebnf')
    custom = r.random() < 0.2
    m.script = os.path.join(folder, 'own_name.py' if custom else name + 'Parser.py')
    m.pname = m.script if custom else ''
    m.custom = custom
    m.inc = os.path.join(folder, 'inc.ebnf') if r.random() < 0.3 else ''
    m.log = []
    m.docstring = r.random() < 0.15
    from DHParser.configuration import set_config_value
    home = os.getcwd()
    try:
        os.chdir(r.choice([folder, base]))
        set_config_value('add_grammar_source_to_parser_docstring', m.docstring)
        edit_grammar(ctx, r, m)
        recompile(ctx, r, m)
        for k in range(r.randint(4, 9)):
            op = r.choice([edit_grammar, edit_grammar, break_grammar, edit_section, edit_section, edit_section, recompile, recompile,
                           blank_section, delete_script, damage_script, write_fault, include_edit, odd_mode])
            op(ctx, r, m)
            if r.random() < 0.6:
                recompile(ctx, r, m)
            status(ctx, r, m)
        if not m.valid:
            edit_grammar(ctx, r, m)
        recompile(ctx, r, m)
        if m.clean and not m.custom and not os.path.islink(m.script):
            command_line(ctx, r, m)
        ctx.count('histories')
        ctx.count(f'histories: includes: {bool(m.inc)}')
    finally:
        set_config_value('add_grammar_source_to_parser_docstring', False)
        os.chdir(home)
        shutil.rmtree(base, ignore_errors=True)


def witness(m):
    return f'{m.name}, log: {m.log}\ngrammar: {m.grammar!r}'


def store(m):
    """the grammar is written to disk, possibly as two files"""
    text = m.grammar
    if m.inc and '\n' in text.strip() and m.valid:
        head, *rest = text.strip().split('\n')
        # the directives and the first definition stay, the rest is included
        k = next((k for k, l in enumerate(text.split('\n')) if re.match(r'\w+ *=', l)), None)
        lines = text.split('\n')
        if k is not None and k + 1 < len(lines) and any(l.strip() for l in lines[k + 1:]):
            write(m.ebnf, '\n'.join(lines[:k + 1]) + '\n@ include = "inc.ebnf"\n')
            write(m.inc, '\n'.join(lines[k + 1:]))
            m.included = '\n'.join(lines[k + 1:])
            return
    m.included = None
    if m.inc and os.path.exists(m.inc):
        os.remove(m.inc)
    write(m.ebnf, text)


def edit_grammar(ctx, r, m):
    m.log.append('edit grammar')
    m.grammar, m.docs = make_grammar(ctx, r)
    m.valid = True
    store(m)


def include_edit(ctx, r, m):
    """only the included file is changed"""
    if m.included is None or not m.valid:
        return
    m.log.append('edit included file')
    extra = '\nextra%i_ = "z"\n' % len(m.log)
    m.grammar += extra
    m.included += extra
    write(m.inc, m.included)
    ctx.count('included files edited')


def break_grammar(ctx, r, m):
    m.log.append('break grammar')
    m.grammar = r.choice(BREAK)(r, m.grammar)
    try:
        dh.quiet(lambda: dh.create_parser(m.grammar if '\n' in m.grammar else m.grammar + '\n'))
        m.valid = True
    except (dh.DefinitionError, dh.CompilationError, AssertionError):
        m.valid = False
    store(m)


def put(m):
    mode = os.stat(m.script).st_mode if os.path.exists(m.script) else None
    markers = m.markers
    text = m.sections[0]
    for k in range(6):
        text += BOX % markers[k] + m.sections[k + 1]
    write(m.script, text)


def take(ctx, m):
    """reads the sections of the script"""
    text = read(m.script)
    sections = RX_BOX.split(text)
    m.markers = [re.search(r'# (.*?SECTION.*)', x).group(1) for x in RX_BOX.findall(text)]
    return sections


def edit_section(ctx, r, m):
    if not m.sections:
        return
    k = r.choice([INTRO, IMPORTS, PREP, AST, COMP, OUTRO])
    t = r.choice(EDITS)
    n = len(m.log)
    t = t.replace('{n}', str(n)).replace('{{', '{').replace('}}', '}')
    m.log.append(f'edit section {k}: {t!r}')
    s = m.sections[k]
    where = r.random()
    emptied = k in (PREP, AST, COMP, OUTRO) and r.random() < 0.12
    if emptied:                           # nothing else is left
        s = '\n\n' + r.choice(['# removed on purpose', '# 1\n# 2', '"""nothing"""', 'pass', '# x\n\n\n#y\n', 'NIL = None']) + '\n\n'
        m.clean = False
        m.log[-1] += ' (replaced by %r)' % s
        ctx.count('sections emptied up to a comment or statement')
    elif where < 0.5 or k == INTRO:
        s = s.rstrip('\n') + '\n' + t if s.strip() and r.random() < 0.5 else s + t
    else:                                 # between two definitions
        parts = re.split(r'\n\n+(?=(?:def|class|#) )', s)
        j = r.randint(0, len(parts))
        s = '\n\n'.join(parts[:j] + [t.strip('\n') or '# nothing'] + parts[j:]) if k != IMPORTS else s + t
    if k == OUTRO and where >= 0.5 and not emptied:
        s = m.sections[k].replace('\nif __name__ == "__main__":', t + '\nif __name__ == "__main__":')
    if r.random() < 0.1 and k != INTRO:
        s += '\nthis is (not python\n'
        m.clean = False
        m.log[-1] += ' (not python)'
    m.sections[k] = s
    put(m)
    ctx.count('sections edited')


def blank_section(ctx, r, m):
    """sections that have been overwritten with whitespace are to be recreated"""
    if not m.sections or not m.valid or not m.clean:
        return
    k = r.choice([PREP, AST, COMP, OUTRO])
    m.log.append(f'blank section {k}')
    m.sections[k] = r.choice(['', '\n', ' \n \n'])
    put(m)
    m.sections[k] = None
    recompile(ctx, r, m, force=True)
    ctx.count('sections blanked')


def delete_script(ctx, r, m):
    m.log.append('delete script')
    if os.path.exists(m.script):
        os.remove(m.script)
    m.sections, m.compiled, m.clean = None, None, True


def damage_script(ctx, r, m):
    """a script without the proper sections must be refused and left alone"""
    from DHParser import dsl
    if not m.sections or not m.valid:
        return
    m.log.append('damage script')
    text = good = read(m.script)
    boxes = list(RX_BOX.finditer(text))
    b = r.choice(boxes)
    if r.random() < 0.5:
        text = text[:b.start()] + text[b.end():]
    else:
        text = text[:b.start()] + b.group(0) + text[b.start():]
    write(m.script, text)
    e, res, out = mutter(lambda: dsl.recompile_grammar(m.ebnf, m.pname, force=True))
    ctx.evaluated(('damaged', text))
    if read(m.script) != text:
        ctx.violation('script without proper sections overwritten', witness(m), witness(m))
    if e is None or not isinstance(e, ValueError):
        ctx.violation('script without proper sections not refused', f'{e!r} {res}\n{witness(m)}', witness(m))
    ctx.count('damaged scripts')
    write(m.script, good)
    # afterwards, nothing may have changed


def odd_mode(ctx, r, m):
    if not m.sections:
        return
    os.chmod(m.script, r.choice([0o600, 0o644, 0o755, 0o750]))
    if r.random() < 0.3 and not os.path.islink(m.script):
        real = m.script + '.real'
        os.rename(m.script, real)
        os.symlink(real, m.script)
        m.log.append('symlink')


def write_fault(ctx, r, m):
    """the disk is full"""
    from DHParser import dsl
    if not m.valid or not m.sections:
        return
    m.log.append('write fault')
    before = read(m.script)
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    limit = r.choice([0, 1, r.randint(1, len(before.encode())), len(before.encode()) - r.randint(1, 9)])
    resource.setrlimit(resource.RLIMIT_FSIZE, (limit, hard))
    try:
        e, res, out = mutter(lambda: dsl.compile_on_disk(m.ebnf, m.pname))
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
    ctx.evaluated(('fault', limit, before))
    ctx.count('write faults')
    now = read(m.script) if os.path.exists(m.script) else None
    if now != before:
        if e is None and now is not None and now.startswith(before[:len(RX_BOX.split(before)[0])]) and len(RX_BOX.split(now)) == 7 \
                and 'Could not write' not in out:
            ctx.count('write faults: script was short enough')
            finish(ctx, m, now, 'write fault')
            return
        ctx.violation('script lost when writing failed', f'limit {limit}: {len(before)} → {now and len(now)} characters\n{witness(m)}', witness(m))
        write(m.script, before)
    left = [f for f in os.listdir(m.folder) if f not in (os.path.basename(x) for x in
            (m.ebnf, m.script, m.script + '.real', m.inc)) and not f.endswith('_MESSAGES.txt') and f not in ('__pycache__', 'doc.txt')]
    if left:
        ctx.violation('files left behind', f'{left}\n{witness(m)}', witness(m))


def changed(m):
    return m.sections is None or m.grammar != m.compiled


def status(ctx, r, m):
    """is an outdated script recognized?"""
    from DHParser import dsl, ebnf
    if m.sections is None or not m.grammar.strip():
        return
    want = m.grammar != m.compiled
    for what, fn in (('dsl', dsl.grammar_changed), ('ebnf', ebnf.grammar_changed)):
        e, got, _ = mutter(lambda: fn(m.script, m.ebnf))
        ctx.evaluated((what, m.script, m.grammar, m.compiled), want)
        if e or got != want:
            ctx.violation(f'grammar_changed, {"changed" if want else "unchanged"}', f'{got} {e!r}\n{witness(m)}', witness(m))
    ctx.count('status queries: ' + ('changed' if want else 'unchanged'))
    if m.clean:
        e, got, _ = mutter(lambda: dsl.is_outdated(m.script, m.ebnf))
        if e or got != want:
            ctx.violation(f'is_outdated, {"changed" if want else "unchanged"}', f'{got} {e!r}\n{witness(m)}', witness(m))


def recompile(ctx, r, m, force=None):
    from DHParser import dsl
    how = r.choice(['recompile', 'recompile', 'recompile', 'force', 'disk', 'folder']) if force is None else 'force'
    if m.custom and how == 'folder':
        how = 'recompile'
    was = changed(m)
    m.log.append(f'recompile ({how}): {"changed" if was else "unchanged"}{"" if m.valid else ", invalid"}')
    before = read(m.script) if os.path.exists(m.script) else None
    notes = []
    if how == 'disk':
        e, res, out = mutter(lambda: dsl.compile_on_disk(m.ebnf, m.pname))
        bad = e or any(x.code >= 1000 for x in res) == m.valid
        took = True
    elif how == 'folder':
        e, res, out = mutter(lambda: dsl.recompile_grammar(m.folder if not m.included else m.ebnf))
        took = was
        bad = e or res != (m.valid or not was)
    else:
        e, res, out = mutter(lambda: dsl.recompile_grammar(m.ebnf, m.pname, how == 'force', lambda: notes.append(1)))
        took = was or how == 'force'
        bad = e or res != (m.valid or not took) or len(notes) != took
    ctx.evaluated((how, m.grammar, before), took)
    ctx.count(f'recompilations: {"taken place" if took else "not necessary"}{"" if m.valid else ", grammar with errors"}')
    if bad:
        ctx.violation(f'recompilation: {how}{"" if m.valid else ", invalid"}',
                      f'{e!r}, result {res}, notified {notes}, changed before {was}\n{out[:300]}\n{witness(m)}', witness(m))
        if e:
            return
    now = read(m.script) if os.path.exists(m.script) else None
    if not took or not m.valid:
        if now != before:
            ctx.violation('script changed although it should not', f'{how}\n{witness(m)}', witness(m))
            return
        if not m.valid and took and how != 'disk' and not os.path.exists(os.path.splitext(m.ebnf)[0] + '_ebnf_MESSAGES.txt'):
            ctx.violation('no messages written', witness(m), witness(m))
        return
    finish(ctx, m, now, how)
    if r.random() < 0.5:
        behaviour(ctx, r, m)


def finish(ctx, m, now, how):
    if now is None:
        ctx.violation('no script written', f'{how}\n{witness(m)}', witness(m))
        return
    from DHParser import dsl
    sections = take(ctx, m)
    if len(sections) != 7:
        ctx.violation('sections of the script', f'{how}: {len(sections)} sections\n{witness(m)}', witness(m))
        return
    if m.sections is not None:
        for k, want in enumerate(m.sections):
            if k == PARSER or want is None:
                continue
            got = sections[k]
            if got != want and not (k == IMPORTS and got.startswith(want) and got[len(want):].strip() == '') \
                    and not (k == INTRO and not want.strip()):
                ctx.violation(f'section {k} changed', f'{how}\nwas {want[-300:]!r}\nis  {got[-300:]!r}\n{witness(m)}', witness(m))
    # a script generated from scratch tells what the generated parts should be like
    for f in os.listdir(m.fresh):
        os.remove(os.path.join(m.fresh, f))
    fb = os.path.join(m.fresh, m.name + '.ebnf')
    shutil.copy(m.ebnf, fb)
    if m.included is not None:
        shutil.copy(m.inc, m.fresh)
    e, res, out = mutter(lambda: dsl.compile_on_disk(fb))
    ref = RX_BOX.split(read(os.path.join(m.fresh, m.name + 'Parser.py')))
    for k, got in enumerate(sections):
        if (k == PARSER or m.sections is None or m.sections[k] is None) and got != ref[k]:
            ctx.violation(f'generated section {k}', f'{how}\nwant {ref[k]!r}\ngot  {got!r}\n{witness(m)}', witness(m))
    m.sections, m.compiled = sections, m.grammar
    if not os.access(m.script, os.X_OK) or not os.stat(m.script).st_mode & 0o100:
        ctx.violation('script not executable', f'{how}\n{witness(m)}', witness(m))
    ctx.count('scripts compared section by section')
    if ctx.progress < 3:
        ctx.sample({'grammar': m.grammar, 'history': m.log})


def load(m):
    spec = importlib.util.spec_from_file_location('vt_p27_' + hashlib.md5(m.script.encode()).hexdigest()[:8], m.script)
    mod = importlib.util.module_from_spec(spec)
    path = sys.path[:]
    try:
        spec.loader.exec_module(mod)
    finally:
        sys.path[:] = path
    return mod


def behaviour(ctx, r, m):
    """the script runs and parses like the grammar"""
    if not m.clean:
        return
    from DHParser import dsl
    e, mod, out = mutter(lambda: load(m))
    if e:
        ctx.violation('script does not run', f'{e!r}\n{witness(m)}', witness(m))
        return
    ref = dh.quiet(lambda: dh.create_parser(m.grammar))
    suite(ctx, r, m, mod)
    parser = mod.parsing.factory()
    for d in m.docs:
        t1, t2 = parser(d), ref(d)
        ctx.evaluated(('doc', m.grammar, d), bool(d))
        ctx.count('documents parsed' + (': with errors' if t2.errors else ''))
        if dh.tree_key(t1) != dh.tree_key(t2) or dh.error_key(t1) != dh.error_key(t2):
            ctx.violation('script parses differently', f'{d!r}: {t1.as_sxpr()} {t1.errors}\nwant {t2.as_sxpr()} {t2.errors}\n{witness(m)}', witness(m))


def command_line(ctx, r, m):
    """the script is called as a program, possibly after the grammar has been changed"""
    if r.random() < 0.6:
        edit_grammar(ctx, r, m)
    broken = r.random() < 0.25
    if broken:
        break_grammar(ctx, r, m)
    was = changed(m)
    from DHParser.configuration import set_config_value
    set_config_value('add_grammar_source_to_parser_docstring', False)    # as in the other process
    doc = r.choice(m.docs)
    path = os.path.join(m.folder, 'doc.txt')
    write(path, doc)
    before = read(m.script)
    env = dict(os.environ, PYTHONPATH=dh_path())
    cwd = r.choice([m.folder, os.path.dirname(m.folder)])
    p = subprocess.run([sys.executable, '-W', 'ignore', m.script, path, '--serialize', 'sxpr'], cwd=cwd, env=env, stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
    out, err = p.stdout.decode(), p.stderr.decode()
    ctx.count('scripts called')
    ctx.evaluated(('called', m.grammar, doc, was))
    m.log.append(f'called, changed: {was}')
    if not m.valid and was:
        ctx.count('scripts called: grammar with errors')
        if p.returncode == 0 or 'Error' not in out or 'Traceback' in err or read(m.script) != before:
            ctx.violation('call of script, grammar with errors', f'{p.returncode} {out[-300:]} {err[-600:]}\n{witness(m)}', witness(m))
        return
    if was:
        finish(ctx, m, read(m.script), 'called')
    ref = dh.quiet(lambda: dh.create_parser(m.grammar))
    t = ref(doc)
    bad = any(x.code >= 1000 for x in t.errors)
    if (p.returncode != 0) != bad or 'Traceback' in err:
        ctx.violation('call of script', f'{doc!r}: exit code {p.returncode}, errors {t.errors}\n{out[-300:]} {err[-800:]}\n{witness(m)}', witness(m))


def suite(ctx, r, m, mod):
    """the compiler-suite in the script, used from outside and from within"""
    from DHParser import dsl
    d = '\ufeff' + r.choice(m.docs)
    e1, res1, _ = mutter(lambda: mod.compile_src(d, mod.compiling.dst))
    e2, res2, _ = mutter(lambda: dsl.run_compiler(d, m.script))
    ctx.count('compilations: ' + ('with errors' if res1 and any(x.code >= 1000 for x in res1[1]) else 'free of errors'))
    if e1:
        ctx.violation('compilation raises', f'{e1!r} {d!r}\n{witness(m)}', witness(m))
    elif any(x.code >= 1000 for x in res1[1]):
        if not isinstance(e2, dsl.CompilationError):
            ctx.violation('run_compiler: errors not reported', f'{e2!r} {d!r} {res1}\n{witness(m)}', witness(m))
    elif e2 or repr(res1[0]) != repr(res2):
        ctx.violation('run_compiler', f'{e2!r} {d!r}\n{res1[0]!r}\n{res2!r}\n{witness(m)}', witness(m))
    e, stop, _ = mutter(lambda: mod.pipeline(d, mod.compiling.dst, cancel_query=lambda: True))
    if e:
        ctx.violation('cancelled compilation raises', f'{e!r} {d!r}\n{witness(m)}', witness(m))
        return
    e3, res3, _ = mutter(lambda: mod.compile_src(d, mod.compiling.dst, cancel_query=lambda: True))
    if mod.compiling.dst not in stop:
        if not isinstance(e3, KeyError):
            ctx.violation('compile_src not cancelled', f'{e3!r} {res3} {d!r}\n{witness(m)}', witness(m))
    elif e3 or [x.code for x in stop[mod.compiling.dst][1]] != [x.code for x in res3[1]]:
        ctx.violation('compile_src not cancelled', f'{e3!r} {res3} {stop} {d!r}\n{witness(m)}', witness(m))


def dh_path():
    from vt.core import REPO
    return REPO


def folder_of_grammars(ctx, i):
    """all grammars of a folder"""
    from DHParser import dsl
    r = ctx.rng
    folder = os.path.join(ctx.tmp, f'all{i}')
    os.makedirs(folder)
    good = {}
    for k in range(r.randint(2, 4)):
        src, docs = make_grammar(ctx, r)
        good[f'g{k}'] = ok = r.random() < 0.7
        write(os.path.join(folder, f'g{k}.ebnf'), src if ok else src + '\nbroken = nothing_\n')
    show = str(good)
    e, res, out = mutter(lambda: dsl.recompile_grammar(folder))
    ctx.evaluated(show + folder)
    ctx.count('folders of grammars')
    made = {f[:-9] for f in os.listdir(folder) if f.endswith('Parser.py')}
    if e or res != all(good.values()) or made != {k for k in good if good[k]}:
        ctx.violation('grammars of a folder', f'{e!r} {res}: {show}, compiled: {made}', show)
    e, _, out = mutter(lambda: dsl.create_scripts(folder))
    have = set(os.listdir(folder))
    lost = [k for k in good if not {k + 'Server.py', k + 'App.py'} <= have]
    if e or lost:
        ctx.violation('scripts of a folder', f'{e!r}: {show}, missing: {lost}', show)
    shutil.rmtree(folder, ignore_errors=True)
