import json,sys
sys.path.insert(0,'/verif/tools')
from checks import CHECKS
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
checks=[]
NOTE={}
for q in props:
    i=q['id']
    c=CHECKS[i]
    gen=' TLC-generated histories of %s.tla are stepped through the real code.'%c['gen']['module'] if 'gen' in c else ''
    note=("TLC exhausts the design model(s) %s within their constants, and decides for every recorded public API call of the real code (rebuilt from /repo in the variants %s) whether it is a step of %s.tla.%s "
      "Assurance is exhaustive for the bounded models and sampled (systematic sizes, seeded data) for the code. Trusted: TLC, the compiler, the recording harness, the bounds-checked mdspan stand-in in shim/."
      %(', '.join(sorted({m[1] for m in c['models']})),', '.join(c['variants']),c['spec'],gen))
    checks.append(dict(property=i,quick_cmd="python3 tools/run_check.py %s quick"%i,thorough_cmd="python3 tools/run_check.py %s thorough"%i,
      evidence_file="evidence/%s.json"%i,technique="TLA+ specification checked with TLC; traces of the real code validated against it",level="model_checking",level_note=note))
m=dict(version=1,setup_cmd="bash tools/setup.sh",hooks=dict(guard="NEO_VERIF",enable="no hooks are needed: the public API exposes the abstract state; the guard is reserved and unused",source_commits=[]),
  checks=checks,not_applicable=[],notes="Specification language: TLA+ (spec/). Repairs of genuine defects are the fix: commits in /repo, listed in known_findings.txt.")
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
