"""writes DESIGN.md from tools/design_head.md, properties.jsonl, checks/meta.py, known_findings.json and seeded/*/meta.json"""
import json, os, sys, glob, textwrap
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks.meta import CHECKS

BUDGET = 'a quick run takes 5-25 s on 8 cores, a thorough run 1-6 min'

LIMITS = {
 'P01': 'Lookbehind arguments are regular expressions only (static rule of the library). Grammars the static analysis rejects are set aside and counted. Generated bounds: up to 7 symbols, expression depth 4, documents up to about 60 characters.',
 'P02': 'Covers the supported family of operator grammars; the two known findings (definition order, exponential effort of several left-recursive alternatives) are generated separately and matched by their mechanism.',
 'P03': 'Captures are never made at the left of a recursion (known finding open-recursion); optional retrieves that consume a value without matching text and then fail at the same place are the known finding zero-length-undone.',
 'P04': 'Lossless only for trees from which nothing is dropped; dropping is P05.',
 'P05': 'Node positions behind dropped items are a known finding; `@drop = strings` is documented to drop attached whitespace, too.',
 'P06': 'Threads use one parser object per thread (as get_grammar() does); a parser object shared between threads is not supported.',
 'P07': 'With tracing the codes 1045/1030 may stand in place of 1040 (documented); the position of 1040 depends on the structure of the parser and is compared only between runs of the same class.',
 'P08': 'Promptness is counted in polls and executed steps, never in seconds. Transformation tables take no cancellation query.',
 'P09': 'A mandatory marker in front of the first element of an interleave makes the whole interleave mandatory (not judged); skip rules are not combined with interleaves. A literal search rule stands for the place in front of the literal, a regular expression for the place behind the match. Recovery rules that are themselves violated are covered by `broken_recovery`.',
 'P10': 'Effort is counted in executed lines of the package (sys.monitoring), not in time. Left-recursive grammars are in P02.',
 'P11': 'Only notations documented as equivalent are exchanged; messages that follow a violation at the end of the document are not compared, because they depend on bracketing; heuristic mode leaves out "/" as alternative next to regular expressions.',
 'P12': 'The readable rendering of parsers (as_ebnf__) is not part of the property: it is documented as rendering for humans (backslashes of regular expressions doubled, AnyChar shown as :AnyChar, lookbehind as -!/-&, counted items without brackets). Tree equality between optimization levels is limited to language, named nodes and content, and leaves out the three known findings.',
 'P13': 'RecursionError is accepted for nesting over 60 levels only. The order and selection of messages of the static analysis depends on object identities and is not compared.',
 'P14': 'Literals are compared raw (backslashes are not escapes). Trailing whitespace after a complete match is documented to be tolerated with warning 720.',
 'P15': 'Not judged: the pseudo-attribute "err" keeps escaped quotation marks (pinned by the tests), messages that end in a backslash, control characters (known finding).',
 'P16': 'By object identity, so that equal nodes at other places do not count as answers.',
 'P17': 'Hand-made mappings and LocalContentMapping ("experimental") are left out.',
 'P18': 'SerializationMapping is marked as experimental and left out.',
 'P19': 'move_fringes(side="right") in which all children fulfil the condition is open (not judged); merge_connected with swallow is judged by conservation only.',
 'P20': 'Errors with the same code and position are deliberately deduplicated. Hand-made source maps do not map beyond the end of the text.',
 'P21': 'Regular expressions with anchors and lookbehind see the underlying text by design and are left out.',
 'P22': 'ReadIncludeOnce is "once" per including file (documented by its use in the library).',
 'P23': 'Not exercised: "initialized"/"exit" (never answered by design), headerless messages cut into chunks, a second TCP-connection, batch calls (unsupported). Calls hit by the dying worker of another call may end in an error, but must be answered.',
 'P24': 'add_config_values() does not validate by design, containers for scalar keys are accepted item-wise; overlapping access_presets() sessions of two threads are a documented error.',
 'P25': 'The layout of pp_paths() (pinned by a test, otherwise undocumented), the extension of an explicit serialization "default" and the place of _FATAL_ERROR.txt (working directory) are not judged.',
 'P26': 'Messages with the same code and position are deduplicated by design, so planted messages have distinct codes.',
 'P27': 'CRLF in scripts is normalized by text mode; the imports section may get trailing linefeeds; the command line through a symbolic link is not exercised.',
 'P28': 'Tabs count as four blanks, unquoted empty expectations are placeholders (documented). merge_test_units() is not judged: a test of the repository pins one of its pairings. Fail-tests skip the preprocessor by design.',
 'P29': 'Multi-line strings are deliberately rendered as several strings by pp_json; NaN and Infinity are no JSON values.',
 'P30': 'Outside of the supported subset and left out: internal DTD subsets, malformed pseudo-attributes of <?xml-…?>, names that begin with a colon; \\r\\n is not normalized. The HTML parser is not covered (its decimal references are pinned by tests).',
 'P32': 'Not judged: `text_pos` (unused, line convention undocumented), `smart_list` with doubled blanks, `abbreviate_middle` below 41 characters.',
 'P31': 'Left open by the documentation and not judged (but must not crash): `until` when the node itself bears that name, generations=0, is_single_child of the root.',
}
FIRST_MISSED = {'B06': 'grammars with lookbehinds were added to the histories', 'B10': 'interleaves with mandatory elements were added',
                'B13': 'path-strings are now asked for before and after each edit'}


def w(text, indent=''):
    return textwrap.fill(' '.join(text.split()), 110, initial_indent=indent, subsequent_indent=indent and ' ' * len(indent), break_long_words=False, break_on_hyphens=False)


def main():
    out = [open(os.path.join(HERE, 'tools', 'design_head.md')).read().rstrip() + '\n']
    props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
    kf = json.load(open(os.path.join(HERE, 'known_findings.json')))['findings']
    seeds = {}
    for f in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
        m = json.load(open(f))
        seeds.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(f)), m))
    out.append('## Properties and their monitors\n')
    out.append(w('Each section names the specification, the workload, the deciding monitor with its oracle, what must at least have been '
                 f'observed for a quick run to count, the reach beyond the tests, and the limits. Cost: {BUDGET}; all bounds are those of '
                 'the generators in `checks/pNN.py`. No property is listed as not applicable.') + '\n')
    for p in props:
        pid = p['id']
        c = CHECKS[pid]
        out.append(f'### {pid} {p["title"]}\n')
        out.append(w(p['statement']) + '\n')
        out.append(w('Workload: ' + c['rule'] + '.', '* '))
        out.append(w('Monitor: ' + c['technique'] + '. ' + c['note'][0].upper() + c['note'][1:] + '.', '* '))
        out.append(w('Must be observed (quick): ' + ', '.join(f'{v} {k}' for k, v in c['minima'].items()) + '.', '* '))
        out.append(w('Beyond the tests: ' + p['why_tests_cant'] + '.', '* '))
        if pid in LIMITS:
            out.append(w('Limits: ' + LIMITS[pid], '* '))
        known = [k for k in kf if k['property'] == pid and k['status'] == 'known']
        fixed = [k for k in kf if k['property'] == pid and k['status'] == 'fixed']
        for k in known:
            out.append(w(f'Known finding `{k["key"]}`: ' + k['what'] + '.', '* '))
        if fixed:
            out.append(w(f'Defects found and repaired: {len(fixed)} ("fixed" entries of known_findings.json).', '* '))
        if pid in seeds:
            out.append(w('Planted: ' + ', '.join(s for s, _ in seeds[pid]) + '.', '* '))
        out.append('')
    out.append('## Planted bugs\n')
    out.append(w('Each was written from the text of the property and the code, validated (tests of the repository pass, demonstration '
                 'fails) and run against the checks. All are caught by the check of their property; where the check had to be '
                 'strengthened first, this is noted.') + '\n')
    for pid in sorted(seeds):
        for s, m in seeds[pid]:
            extra = f' (missed at first: {FIRST_MISSED[s]})' if s in FIRST_MISSED else ''
            out.append(w(f'{s} ({pid}): {m["what_it_breaks"]} Needs: {m["needs"]}{extra}', '* '))
    out.append('')
    out.append(w('Besides, a mutation tool (not part of this repository) changed single operators, conditions, calls and assignments of '
                 'transform, nodetree, parse, ebnf and further modules; the mutants that passed the tests of the repository were run against the '
                 'checks. Misses that changed behaviour led to new monitors (pick_path_if defaults in P16; keep_*, remove_if, attribute rules in '
                 'P31; merge_connected in P19; circular synonyms in P13), the remaining ones concerned wording of messages, logging or '
                 'code without effect.') + '\n')
    open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out))


main()
