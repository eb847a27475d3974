"""Writes /verif/MANIFEST.json from contracts/props.py (run by hand after changing the property map)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + '/engine', V + '/contracts', V + '/replay']
import props
allp = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in allp:
    i = p['id']
    if i in props.PROPS:
        d = props.PROPS[i]
        checks.append({'property': i, 'quick_cmd': 'bin/check %s quick' % i, 'thorough_cmd': 'bin/check %s thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': d.get('technique', 'contract-based deductive verification of the real code (VCs from the clang AST of /repo, '
                                                       'exact symbolic decision + z3), counterexamples replayed on the compiled code'),
                       'level': d.get('level', 'proof'),
                       'level_note': d.get('note', props.NOTES.get(i, '')) + ' Assumes: ' + '; '.join(d.get('assumptions', []) + props.ASSUMPTIONS) +
                                     '. Trusts: ' + '; '.join(props.TRUSTED + d.get('trusted', [])) + '.'})
    else:
        na.append({'property': i, 'reason': props.NOT_APPLICABLE.get(i, 'no check built yet')})
m = {'version': 1, 'setup_cmd': 'bin/setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: contracts live in /verif/contracts and are attached to the functions of /repo by name; the verified text is the clang AST of '
              "/repo's current source on every run. known_findings.txt lists repaired defects."}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
