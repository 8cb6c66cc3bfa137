import json, sys
sys.path.insert(0, ".")
from contracts import meta, registry
T = 'contract-based deductive verification of the real code (obligations from clang IR of /repo, discharged by z3), bounded differential runs for functions not under contract'
checks = []
for p in sorted(registry.PROPS):
    m = meta.META[p]
    checks.append(dict(property=p, quick_cmd='./check.py %s quick' % p, thorough_cmd='./check.py %s thorough' % p, technique=m.get('technique', T), level=m['level'], level_note=m['explanation'] + ' Assumes the library models and memory model of DESIGN.md.'))
json.dump(dict(version=1, setup_cmd="/opt/veriftools/pyvenv/bin/python3 -m compileall -q lbv contracts replay check.py",
  hooks=dict(guard='none', enable='no hooks: the checks extract and build /repo as it is', source_commits=[]),
  checks=checks, not_applicable=[], notes='see DESIGN.md'), open('MANIFEST.json', 'w'), indent=1)
