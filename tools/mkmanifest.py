"""write MANIFEST.json from properties.jsonl and baseline.json"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
bp = H + '/baseline.json'
base = json.load(open(bp)) if os.path.exists(bp) else {}
NA = {}
checks = []
for p in props:
    i = p['id']
    if i in NA:
        continue
    n = len(base.get(i, []))
    if n:
        tech = "contract-based deductive verification of the function bodies in /repo (pydv: WP-style symbolic execution, SMT/nlsat/sympy), with a bounded stand-in"
        note = ("%d named obligations generated from the current source are discharged for all inputs (exact reals, dimensions "
                "as stated in the contracts); what the contracts do not reach is covered by seeded bounded tests against an "
                "independent oracle, labelled as such. Trusted: pydv, its contracts of numpy/scipy, the solvers." % n)
    else:
        tech = "bounded stand-in for contracts: seeded generated inputs against an independent oracle"
        note = "bounded: seeded inputs judged by an independent oracle on the real code; nothing is proved"
    checks.append(dict(property=i, quick_cmd='bash bin/check %s quick' % i, thorough_cmd='bash bin/check %s thorough' % i,
                       technique=tech, level='proof' if n else 'exploration', level_note=note))
json.dump(dict(version=1, setup_cmd='true', checks=checks,
               not_applicable=[dict(property=k, reason=v) for k, v in NA.items()]),
          open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', sum(c['level'] == 'proof' for c in checks), 'proof')
