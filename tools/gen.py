"""Writes properties.jsonl and MANIFEST.json from one table (run after editing it)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), claimed=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
                  anchors={'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech]}, observe_at=list(observe), claimed=claimed, na=na))


exec(open(os.path.join(ROOT, 'tools', 'table.py')).read())

TECH = 'bounded symbolic execution of the compiled code (clang pass on LLVM IR) with SMT verdicts (z3) over all input values in stated bounds'
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
        d = {k: v for k, v in p.items() if k not in ('claimed', 'na')}
        d['hook_needed'] = False
        f.write(json.dumps(d) + '\n')
m = {'version': 1, 'setup_cmd': 'python3-vt vlib/build.py', 'checks': [], 'not_applicable': []}
for p in P:
    if p['claimed']:
        m['checks'].append({'property': p['id'], 'quick_cmd': 'python3-vt checks/%s.py' % p['id'], 'thorough_cmd': 'python3-vt checks/%s.py --thorough' % p['id'],
                            'evidence_file': 'evidence/%s.json' % p['id'], 'technique': TECH, 'level': 'model_checking', 'level_note': p['claimed']})
    else:
        m['not_applicable'].append({'property': p['id'], 'reason': p['na']})
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties', len(m['checks']), 'claimed')
