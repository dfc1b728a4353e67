"""Evidence file and verdict lines of one check."""
import os, json, re, sys, time
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)

def known():
    out = []
    p = VERIF + '/known-findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) scenario=(\S+) text=/(.*)/ :: (.*)', l.strip())
            if m: out.append(m.groups())
    return out

ENGINE_ASSUME = [
    'semantics: lacesym executes the LLVM IR that clang 18 produces for /repo/src/lace.c (or lace14.c) plus the scenario, with sroa and instsimplify applied; memory is sequentially consistent unless a level says tso=n (x86-style store buffers of n entries); happens-before jobs (hb=n) use the C11 orders in the IR',
    'bounds: at most `rounds` rounds of contexts in which every visible operation may be preempted, each loop runs at most B iterations per context (longer stays are continued in the next context), then a fair continuation of `suffix` rounds; thread counts, program shapes and sizes as in the scenario flags',
    'environment: pthread mutex/condition/semaphore/thread calls, allocation, exit and sysconf are replaced by the models in engine/vp_env.h; allocation never fails',
    'every violation reported was re-executed natively (same IR compiled with clang and AddressSanitizer under the schedule the solver chose) and failed there too',
]
CBMC_ASSUME = [
    'cbmc 6.11 harnesses include the real C sources; inputs are arbitrary unless an ASSUME in engine/cb/<harness> restricts them; loops are unwound as stated and unwinding assertions are on; malloc does not return NULL',
    'every CBMC counterexample reported was replayed with clang, AddressSanitizer and UBSan on the same sources',
]

def finish(pid, tier, title, jobs, viol, results, wall, technique=''):
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    kn = [k for k in known() if k[0] == pid]
    real = []; knownhit = []
    for n, v in viol:
        hit = None
        for _, sc, tx, what in kn:
            if re.fullmatch(sc, n) and re.search(tx, v['text']): hit = what; break
        if hit: knownhit.append((n, v, hit))
        else: real.append((n, v))
    fn = set(); st = tr = q = confl = cfgs = insn = ctxs = 0; solver = 0.0; nodes = 0; decided = 0; wit = []; samples = []; incomplete = []; errors = []; xa = xd = 0; vac = []
    cb = dict(harness_runs=0, vccs=0, clauses=0, solver_s=0.0)
    needs = {}
    for j in jobs: needs[j.name] = getattr(j, 'need', ())
    anysym = anycb = False
    for n, r in sorted(results.items()):
        base = n.split('/')[0]
        done = [l for l in r['levels'] if l.get('done')]
        decided += len(done)
        row = dict(job=n, levels=[])
        for l in r['levels']:
            s = l.get('stats') or {}
            if 'vccs' in s:
                anycb = True; cb['harness_runs'] += 1; cb['vccs'] += s.get('vccs', 0); cb['clauses'] += s.get('clauses', 0); cb['solver_s'] += s.get('solver_s', 0)
                q += 1; solver += s.get('solver_s', 0); insn += s.get('steps', 0)
            else:
                anysym = True
                fn |= set(s.get('functions', ())); cfgs += s.get('configs', 0); ctxs += s.get('contexts', 0); insn += s.get('instructions', 0); q += s.get('queries', 0); solver += s.get('solver_s', 0); nodes += s.get('nodes', 0); confl += s.get('conflicts', 0)
            row['levels'].append(dict(bounds={k: v for k, v in l['opts'].items() if k not in ('defs',)} | ({'defs': l['opts']['defs']} if 'defs' in l['opts'] else {}), completed=bool(l.get('done')), why=(l.get('why') or '')[:300], loops_cut=bool(l.get('cut')), seconds=round(l['wall'], 1), queries=s.get('queries', 1), sat=s.get('sat'), unsat=s.get('unsat'), aig_nodes=s.get('nodes'), vccs=s.get('vccs')))
            if not l.get('done'): incomplete.append('%s %s: %s' % (n, {k: v for k, v in l['opts'].items()}, (l.get('why') or '')[:200]))
        if done:
            for lab in needs.get(base, ()):
                if not any(l.get('reach', {}).get(lab) for l in done): vac.append('%s never reaches "%s"' % (n, lab))
        wit += [dict(job=n, **w) for w in r.get('witness', ())]
        xa += r.get('xagree', 0); xd += r.get('xdis', 0)
        errors += ['%s: %s' % (n, e) for e in r['errors']]
        row['notes'] = r.get('notes', [])
        samples.append(row)
    okw = sum(1 for w in wit if w['ok'])
    cov = dict(states=cfgs, transitions=insn, traces_validated_against_impl=okw, samples=samples[:60] + [dict(witness=w) for w in wit[:3]],
        functions_encoded=sorted(fn), solver_queries=q, solver_seconds=round(solver, 2), conflicts=confl, aig_nodes=nodes, symbolic_contexts=ctxs,
        jobs=len(results), levels_completed=decided, incomplete=incomplete, errors=errors[:20], vacuous=vac,
        witness_mismatches=[w for w in wit if not w['ok']][:5], crosscheck=dict(solver='kissat', agree=xa, disagree=xd))
    if anycb: cov['cbmc'] = {k: (round(v, 2) if isinstance(v, float) else v) for k, v in cb.items()}
    cov['explanation'] = ('Bounded symbolic execution: states = merged thread configurations executed symbolically (each stands for all schedules that reach it), transitions = IR instructions (or CBMC program steps) encoded; '
        'every schedule, choice and input within the listed bounds is covered by the solver verdicts.')
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking' if anysym else 'other', coverage=cov,
              assumptions=(ENGINE_ASSUME if anysym else []) + (CBMC_ASSUME if anycb else []), wall_s=round(wall, 2), violations=len(real))
    if not anysym:
        for k in ('states', 'transitions', 'traces_validated_against_impl'): cov.pop(k, None)
        cov['program_steps'] = insn
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    json.dump(ev, open(VERIF + '/evidence/%s.json' % pid, 'w'), indent=1, default=str)
    for w in wit:
        if not w['ok']: print('note: witness replay differs in %s (%s): native exit %s' % (w['job'], w['label'], w['native_exit']))
    for x in vac: print('note: ' + x)
    for x in incomplete: print('note: not completed: ' + x[:260])
    for x in errors: print('note: error: ' + x[:400])
    for n, v, what in knownhit: print('KNOWN-FINDING: property=%s %s' % (pid, what))
    if real:
        for n, v in real:
            print('%s: %s' % (n, v['text']))
            print('VIOLATION property=%s replay=%s' % (pid, v['keep']))
        return 1
    print('%s %s: %d jobs, %d levels decided, %d queries, %.1f s solver, %.1f s' % (pid, tier, len(results), decided, q, solver, wall))
    if decided == 0 and not knownhit:
        print('nothing could be decided'); return 2
    return 0
