"""Writes MANIFEST.json from properties.jsonl and the check modules present."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = json.load(open(os.path.join(V, 'tools', 'not_applicable.json'))) if os.path.exists(os.path.join(V, 'tools', 'not_applicable.json')) else {}
checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)
    i = p['id']
    f = os.path.join(V, 'checks', i.lower() + '.py')
    if os.path.exists(f):
        src = open(f).read()
        doc = src.split('"""')[1]
        tech = re.search(r'^TECHNIQUE = (.*)$', src, re.M)
        checks.append(dict(
            property=i, quick_cmd='./check %s --tier quick' % i, thorough_cmd='./check %s --tier thorough' % i,
            evidence_file='evidence/%s.json' % i,
            technique=eval(tech.group(1)) if tech else 'bounded exhaustive exploration of operation programs on the real code against a reference model',
            level='model_checking',
            level_note='Every case of the bounded space described in the evidence file is executed on the real code and '
                       'compared with an independent reference model; nothing is sampled. Trusted: the reference model, numpy/scipy, '
                       'the floating point tolerances stated in the check. Says nothing beyond the stated bounds.'))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check registered yet')))
m = dict(version=1, setup_cmd='./check --setup', checks=checks, not_applicable=na,
         notes='All checks share mc/engine.py (exhaustive enumeration, crash isolation, replay files in out/<ID>/) and mc/boot.py '
               '(recompiles the Cython sources of the current tree outside /repo). Known findings: known_findings.txt. No hooks in /repo.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', len(na), 'not claimed')
