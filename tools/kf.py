"""kf.py PROPERTY KEY STATUS WHAT: adds an entry to known_findings.json"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
F = json.load(open(p))['findings']
prop, key, status, what = sys.argv[1:5]
F = [e for e in F if (e['property'], e['key']) != (prop, key)]
F.append({'property': prop, 'key': key, 'status': status, 'what': what})
with open(p, 'w') as f:
    f.write('{"findings": [\n' + ',\n'.join(' ' + json.dumps(e, ensure_ascii=False) for e in F) + '\n]}\n')
