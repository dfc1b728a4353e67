#!/usr/bin/env python3-vt
"""Writes /verif/MANIFEST.json from properties.jsonl and checks/suite.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + '/checks', V + '/engine']
import suite
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks = []; na = []
for p in props:
    jobs = suite.JOBS.get(p['id'])
    if not jobs:
        na.append(dict(property=p['id'], reason=suite.NA.get(p['id'], 'no check built yet')))
        continue
    kinds = {type(j).__name__ for j in jobs}
    sym = any(k.startswith('Sym') for k in kinds); cb = 'Cbmc' in kinds
    tech = []
    if sym: tech.append('symbolic execution of the LLVM IR of the real lace.c with symbolic thread schedules, decided by a SAT solver; counterexamples replayed natively')
    if cb: tech.append('CBMC bounded model checking of the real C sources with symbolic inputs; counterexamples replayed natively')
    note = suite.NOTES.get(p['id'], '')
    base = []
    if sym: base.append('Every preemption at a visible operation within the listed rounds, threads, program shapes and loop bounds; pthread/libc calls are modelled (engine/vp_env.h); longer runs, more threads and larger programs are outside.')
    if cb: base.append('All inputs within the listed sizes and unwindings (unwinding assertions on).')
    checks.append(dict(property=p['id'], quick_cmd='python3-vt check.py %s quick' % p['id'], thorough_cmd='python3-vt check.py %s thorough' % p['id'],
        evidence_file='evidence/%s.json' % p['id'], technique='; '.join(tech), level='model_checking' if sym else 'other', level_note=(note + ' ' + ' '.join(base)).strip()))
json.dump(dict(version=1, setup_cmd='python3-vt engine/setup_core.py', checks=checks, not_applicable=na,
    notes='No hooks are needed in /repo: the checks compile /repo/src/lace.c and lace14.c as they are. Design, bounds, findings and planted bugs: DESIGN.md.'), open(V + '/MANIFEST.json', 'w'), indent=1)
import jsonschema
jsonschema.validate(json.load(open(V + '/MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(checks), 'checks', len(na), 'not claimed')
