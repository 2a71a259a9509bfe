"""Writes MANIFEST.json: every property with a module in props/ is claimed."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
checks, na = [], []
for line in open(os.path.join(here, 'properties.jsonl')):
    p = json.loads(line)
    i = p['id']
    if os.path.exists(os.path.join(here, 'props', i + '.py')):
        checks.append(dict(
            property=i, quick_cmd='./run.py %s' % i,
            thorough_cmd='./run.py %s --tier thorough' % i,
            evidence_file='evidence/%s.json' % i,
            technique='symbolic execution of the real functions (path '
            'exploration by re-execution), assertions decided by z3 over all '
            'reals; counterexamples replayed on the unpatched code',
            level='model_checking',
            level_note='Bounded: every value of the symbolic inputs within '
            'the shapes, sizes and step counts listed as bounds in the '
            'evidence; floats read as exact reals; numpy runs for real on '
            'object arrays, transcendental functions and the scipy names '
            'used are replaced by their documented contract.'))
    else:
        na.append(dict(property=i, reason=NA.get(
            i, 'no check built yet')))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
               notes='run.py <id> [--tier thorough] [-v] [--scenario name] '
               '[--replay file]; see DESIGN.md'),
          open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
