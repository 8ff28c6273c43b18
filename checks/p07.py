"""P07: parses with tracing or logging vs the same parses without; recorded history vs document."""
import os, re
from html.parser import HTMLParser
from vt import dh, corpus, peg
from checks import p04
from DHParser.trace import set_tracer, trace_history, resume_notices_on, resume_notices_off
from DHParser.error import RESUME_NOTICE, is_error
from DHParser.log import HistoryRecord, local_log_dir, log_parsing_history, is_logging, log_ST, \
    start_logging, suspend_logging, resume_logging
from DHParser.toolkit import re as dre


# which parser called last decides whether a lookahead is blamed for the premature end; only the history can tell
STOPPED = {1030: 1040, 1045: 1040}
NONE = ':None'


def outcome(tree):
    """Tree and genuine errors; messages without what the history adds to them."""
    return dh.tree_key(tree), tuple(sorted((e.pos, STOPPED.get(int(e.code), int(e.code))) for e in tree.errors if is_error(e.code)))


def run(ctx):
    r = ctx.rng
    for gi in range(ctx.n(130, 1000)):
        case(ctx, gi)
    switching(ctx)


def switching(ctx):
    d = os.path.join(ctx.tmp, 'other')
    start_logging(d)
    try:
        steps = [is_logging(), suspend_logging() == d, not is_logging()]
        resume_logging()
        steps += [is_logging(), suspend_logging() == d]
        resume_logging(d)
        steps += [is_logging()]
        suspend_logging()
        steps += [not is_logging(), is_logging(False)]
    finally:
        start_logging('')
    ctx.count('logging switched')
    if not all(steps):
        ctx.violation('switching', f'logging switched on, off and on again: {steps}', {'steps': steps})


def case(ctx, gi):
    r = ctx.rng
    kind, src, names, docs = corpus.case(r, 8)
    ctx.current = src
    ok, g = ctx.guard(lambda: p04.create(ctx, src), src)
    if not ok or g is None:
        return
    ctx.count('grammars')
    if gi < 1:
        ctx.sample(src)
    cls = type(g)
    refg = None
    for doc in docs:
        start = r.choice(names) if r.random() < 0.3 else names[0]
        cm = r.random() < 0.8
        mode = r.choice(['all', 'all', 'all', 'some', 'some', 'one', 'notices', 'log'])
        query = r.choice([None, None, None, 'before', 'after'])     # a cancellation query that remains false
        w = {'grammar': src, 'document': doc, 'start': start, 'mode': mode, 'complete': cm, 'query': query}
        ctx.current = w
        plain = untraced = outcome(cls()(doc, start, complete_match=cm))
        traced = cls()

        def go():
            if query == 'before':
                traced.cancel_query__ = lambda: False
                traced(doc, start, complete_match=cm)
            if mode == 'one':
                set_tracer(r.choice(sorted(traced.all_parsers__, key=lambda p: (p.pname, str(p)))), trace_history)
            elif mode == 'some':
                chosen = r.sample(sorted(traced.all_parsers__, key=lambda p: (p.pname, str(p))), r.randint(1, 3)) \
                    if len(traced.all_parsers__) > 3 else list(traced.all_parsers__)
                set_tracer([p for p in chosen], trace_history)
            elif mode == 'notices':
                resume_notices_on(traced)
            else:
                set_tracer(traced, trace_history)
            if query == 'after':
                traced.cancel_query__ = lambda: False
            ctx.count('traced parses with a cancellation query', bool(query))
            if mode == 'log':
                d = os.path.join(ctx.tmp, 'logs')
                with local_log_dir(d):
                    t = traced(doc, start, complete_match=cm)
                    log_files(ctx, traced, t, d, w)
                return t
            return traced(doc, start, complete_match=cm)
        ok, tree = ctx.guard(go, w)
        if not ok:
            continue
        ctx.evaluated((src, doc, start, mode, cm), len(traced.history__) > 1)
        ctx.count('traced parses compared')
        ctx.count('traced parses, ' + mode)
        got = outcome(tree)
        if any(e.code == 1045 for e in tree.errors):
            # blames the lookahead, so it is located where that matched
            ctx.count('premature ends blamed on a lookahead')
            got, plain = ((k, tuple(sorted((-1 if c == 1040 else p, c) for p, c in e))) for k, e in (got, plain))
        if got != plain:
            part = 'tree' if got[0] != plain[0] else 'errors'
            ctx.violation(part, f'with tracing ({mode})\n{got}\nwithout\n{plain}\nstart={start} doc={doc!r} complete={cm}\n{src}', w)
            continue
        if any(e.code == RESUME_NOTICE for e in tree.errors):
            ctx.count('parses with resume notices')
        if any(is_error(e.code) for e in tree.errors):
            ctx.count('traced parses with errors')
        ok, _ = ctx.guard(lambda: history(ctx, kind, cls, src, names, traced, tree, doc, start, cm, mode, w), w)
        # afterwards, without tracing
        set_tracer(traced, None)
        ok, tree = ctx.guard(lambda: traced(doc, start, complete_match=cm), w)
        if ok and outcome(tree) != untraced:
            ctx.violation('after', f'after tracing has been switched off: {outcome(tree)}\ninstead of\n{untraced}\n{src}', w)


def history(ctx, kind, cls, src, names, g, tree, doc, start, cm, mode, w):
    r = ctx.rng
    lookbehind = '<-' in src
    fresh = cls()
    checked = 0
    for i, rec in enumerate(g.history__):
        ctx.count('history records examined')
        str(rec), rec.as_html_tr(), rec.as_csv_line()
        where = f'record {i}: {rec!r}\nstart={start} doc={doc!r} mode={mode}\n{src}'
        loc = rec.call_stack[-1][1] if rec.call_stack else None
        behind = any(n in (':Lookbehind', ':NegativeLookbehind') for n, _ in rec.call_stack)
        if rec.node.name != NONE and rec.node.pos >= 0:
            pos, text = rec.node.pos, rec.node.content
            if not rec.errors and doc[pos:pos + len(text)] != text:
                ctx.violation('text', f'recorded text {text!r} does not occur at {pos}\n{where}', w)
                return
            if not rec.errors and not behind and str(rec.text) != doc[pos + len(text):]:
                ctx.violation('rest', f'recorded rest {str(rec.text)!r} is not what follows {text!r} at {pos}\n{where}', w)
                return
            if not rec.errors and loc != pos:
                ctx.violation('location', f'call stack says {loc}, node says {pos}\n{where}', w)
                return
            ctx.count('recorded matches compared')
        elif not behind and not rec.errors and loc is not None and str(rec.text) != doc[loc:]:
            ctx.violation('fail-text', f'recorded failure at {loc} shows {str(rec.text)!r}\n{where}', w)
            return
        if loc is not None and not rec.errors:
            before = doc[:loc]
            lc = before.count('\n') + 1, loc - (before.rfind('\n') + 1) + 1
            if rec.line_col != lc:
                ctx.violation('line-col', f'line and column should be {lc}\n{where}', w)
                return
        for e in rec.errors:
            if not 0 <= e.pos <= len(doc):
                ctx.violation('error-position', f'error {e!r} outside\n{where}', w)
                return
        # is it true? Ask an untraced parser
        name = rec.call_stack[-1][0].replace('RECALL: ', '').strip() if rec.call_stack else ''
        if name in names and not rec.errors and kind == 'p' and not lookbehind and checked < 12 and r.random() < 0.5 \
                and not any(isinstance(x, str) and x in ('ZOMBIE__',) for x in [rec.node.name]):
            checked += 1
            ctx.count('recorded symbol results verified')
            m = fresh(doc[loc:], name, complete_match=False)
            bad = any(is_error(e.code) for e in m.errors)
            matched = rec.node.name != NONE
            if matched == bad or (matched and m.content != rec.node.content):
                ctx.violation('untrue', f'{name} at {loc}: recorded {"match" if matched else "failure"}, but untraced '
                              f'{"fails" if bad else "matches " + repr(m.content)}\n{where}', w)
                return
    if g.history__:
        recs = [x for x in g.history__ if x.status == HistoryRecord.MATCH]
        last = HistoryRecord.last_match(g.history__)
        if last is not (recs[-1] if recs else None):
            ctx.violation('last-match', f'{last} {recs[-1:]}\n{src}', w)
        far = HistoryRecord.most_advanced_match(g.history__)
        ends = [len(doc) - len(x.text) for x in recs]
        if recs and not lookbehind and len(doc) - len(far.text) != max(ends):
            ctx.violation('most-advanced-match', f'{far} but there is one that ends at {max(ends)}, {[str(x) for x in recs]}\n{src}', w)
        fails = [x for x in g.history__ if x.status == HistoryRecord.FAIL]
        far = HistoryRecord.most_advanced_fail(g.history__)
        if fails and not lookbehind and len(far.text) != min(len(x.text) for x in fails):
            ctx.violation('most-advanced-fail', f'{far}\n{src}', w)
        ctx.count('extremes of histories compared')


VOID = {'meta', 'col', 'br'}


class Scan(HTMLParser):
    def __init__(self):
        super().__init__()
        self.open, self.bad, self.rows = [], [], 0

    def handle_starttag(self, tag, attrs):
        if tag not in VOID:
            self.open.append(tag)
        self.rows += tag == 'tr'

    def handle_startendtag(self, tag, attrs):
        pass

    def handle_endtag(self, tag):
        if not self.open or self.open.pop() != tag:
            self.bad.append((tag, self.getpos()))


def log_files(ctx, g, t, d, w):
    assert is_logging()
    log_ST(t, 'case.cst')
    ctx.count('syntax trees logged', os.path.getsize(os.path.join(d, 'case.cst')) > 0)
    for html in (True, False):
        log_parsing_history(g, 'case', html)
        path = os.path.join(d, 'case_parser.log' + ('.html' if html else ''))
        text = open(path, encoding='utf-8').read()
        n = min(len(g.history__), 10000)
        if html:
            s = Scan()
            s.feed(text)
            s.close()
            ctx.count('log files examined')
            if s.rows - text.count('<th>L</th>') != n:
                ctx.violation('log-rows', f'{s.rows} rows for {n} records\n{w}', w)
            if s.bad or s.open:
                ctx.violation('log-html', f'not well-formed {s.bad} {s.open}\n{text[-800:]}\n{w}', w)
        os.remove(path)
