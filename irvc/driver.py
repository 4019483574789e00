"""One property's check: prove every contract it consists of from /repo's current source, replay counterexamples, run the bounded
stand-in search, write the evidence, and print the verdict."""
import os, sys, json, time, importlib, traceback, hashlib, re, threading
from . import build, native, spec
from .build import ROOT, BuildError
import props

CHECKER = 'python3-vt check.py %s  (irvc: LLVM bitcode of the current sources -> verification conditions -> z3 4.x python bindings, cvc5 1.1.2 as second solver)'
TRUSTED = ['clang 18 front end, -O0 plus opt passes sroa/early-cse/simplifycfg (C++ source -> the LLVM IR that is verified; the deployed binary is built by g++ -O2)',
           'irvc/llvm.py + irvc/core.py: semantics of LLVM IR, memory model (distinct objects do not overlap, typed leaves), path enumeration, loop rule',
           'z3 (and cvc5 where listed) answer unsat only when the negated obligation has no model',
           'record layouts printed by clang (-fdump-record-layouts)']

def known():
    p = os.path.join(ROOT, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else {'findings': [], 'fixed': []}

def main(prop):
    t0 = time.time(); tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if tier not in ('quick', 'thorough'): tier = 'quick'
    cfg = props.PROPS[prop]
    budget = 240 if tier == 'quick' else 600
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True); rdir = os.path.join(build.BUILD, 'replay'); os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + '-'): os.unlink(os.path.join(rdir, f))
    kf = known(); listed = [k for k in kf['findings'] if k['property'] == prop]
    out = []; violations = []; notes = []
    # the harness is built while the proofs run
    hb = {}
    def buildh():
        try: hb['bin'] = native.harness(cfg['harness'], daemon=cfg.get('daemon', False))
        except Exception as e: hb['err'] = repr(e)[-1500:]
    th = threading.Thread(target=buildh) if cfg.get('harness') else None
    if th: th.start()
    results = []; chk = None
    for modname, names in cfg['contracts']:
        try:
            mod = importlib.import_module('contracts.' + modname)
            chk = spec.Checker(mod.TUS)
            fcs = []
            for n in names:
                c = getattr(mod, n)
                fcs += c(chk) if not isinstance(c, type) else [c]
            if th: th.join()          # fork only when no thread is running
            results += chk.verify(fcs, jobs=int(os.environ.get('VERIF_JOBS', '8')), budget=budget)
        except Exception as e:
            notes.append('contracts of %s could not be generated: %s' % (modname, repr(e)[-600:]))
            if os.environ.get('VERIF_DEBUG'): traceback.print_exc()
    if th: th.join()
    # ---- failing obligations
    fails = []; undecided = []
    for r in results:
        for o in r.obs:
            if o['status'] == 'fail':
                if any(k.get('obligation') == o['name'] for k in listed): o['status'] = 'known'; continue
                fails.append((r, o))
            elif o['status'] == 'unknown': undecided.append(o['name'])
        if r.status == 'undecided': notes.append('%s: %s' % (r.name, r.why))
    hbin = hb.get('bin')
    if cfg.get('harness') and not hbin: notes.append('native harness did not build: ' + hb.get('err', '?'))
    confirmed = None; unconfirmed = []
    for k, (r, o) in enumerate(fails):
        path = os.path.join(rdir, '%s-proof%d.case' % (prop, k))
        c = o.get('model')
        with open(path, 'w') as f:
            f.write('# property %s: failed obligation\n# %s\n# kind %s, detail: %s\n' % (prop, o['name'], o['kind'], (o.get('detail') or '').replace('\n', ' ')))
            for kk, vv in sorted((c or {}).items()): f.write('%s=%s\n' % (kk, enc(vv)))
            for l in (o.get('text') or '').split('\n'): f.write('# model: %s\n' % l)
        o['replay'] = path; ok = False
        if c and hbin:
            try:
                d = native.replay(hbin, prop, path); ok = bool(d['violation'])
                with open(path, 'a') as f: f.write('# native replay: %s %s\n' % ('VIOLATION' if ok else 'not reproduced', d['msg']))
                o['native'] = d['msg'] if ok else 'not reproduced natively'
            except Exception as e: o['native'] = repr(e)[-300:]
        if ok and confirmed is None: confirmed = (o, path)
        if not ok: unconfirmed.append((o, path))
    # ---- bounded stand-in: seeded search against the real code
    nat = None
    if hbin:
        secs = cfg.get('secs', (8, 120))[0 if tier == 'quick' else 1]
        try:
            path = os.path.join(rdir, prop + '-search.case')
            nat = native.search(hbin, prop, seed, secs, path)
            if nat['violation'] and os.path.exists(path):
                again = [native.replay(hbin, prop, path) for _ in range(2)]          # a finding counts only if its replay fails as well
                if not any(r['violation'] for r in again): notes.append('search finding does not replay: ' + nat['msg']); nat['violation'] = False
            if nat['violation']: nat['replay'] = path
        except Exception as e: notes.append('native search: ' + repr(e)[-400:])
    for k in listed:
        still = any(o['status'] == 'known' and o['name'] == k.get('obligation') for r in results for o in r.obs)
        if k.get('case') and hbin:
            try: still = native.replay(hbin, prop, os.path.join(ROOT, k['case']))['violation']
            except Exception as e: notes.append('known finding replay: ' + repr(e)[-200:])
        if still: print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if confirmed: violations.append('VIOLATION property=%s replay=%s' % (prop, confirmed[1]))
    elif nat and nat['violation']: violations.append('VIOLATION property=%s replay=%s' % (prop, nat['replay']))
    elif unconfirmed:
        definite = [u for u in unconfirmed if u[0]['kind'] != 'cover']
        if definite: violations.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, definite[0][1]))
    # ---- evidence
    obs = [o for r in results for o in r.obs if o['kind'] != 'cover' and o['status'] != 'known']; kobs = [o for r in results for o in r.obs if o['status'] == 'known']
    cov = [o for r in results for o in r.obs if o['kind'] == 'cover']
    disch = [o for o in obs if o['status'] == 'ok']
    be = {}
    for o in disch: be[o['backend'] or 'z3'] = be.get(o['backend'] or 'z3', 0) + 1
    assumed = sorted({a for r in results for a in r.assumed})
    ev = dict(property=prop, tier=tier, seed=seed, level=cfg.get('level', 'proof'), wall_s=round(time.time() - t0, 2),
        coverage=dict(obligations=len(obs), discharged=len(disch), checker_cmd=CHECKER % prop, trusted_base=TRUSTED + ['assumed contract: ' + a for a in assumed],
            obligation_instances=sum(o['count'] for o in obs), discharged_by=be,
            functions_under_contract=[dict(function=r.name, obligations=len([o for o in r.obs if o['kind'] != 'cover']), discharged=len([o for o in r.obs if o['status'] == 'ok' and o['kind'] != 'cover']),
                   status=r.status, why=r.why, seconds=r.time, solver_seconds=r.solver, solver_queries=r.queries, paths=getattr(r, 'outcomes', None), bodies_inlined=r.inlined, contracts_used=r.used,
                   loops=[str(x) for x in r.loops], uninterpreted_float_ops=r.fpuf, paths_cut_by_bound=r.cut) for r in results],
            solver_seconds=round(sum(r.solver for r in results), 2), solver_queries=sum(r.queries for r in results),
            vacuity_checks=dict(made=len(cov), passed=len([o for o in cov if o['status'] == 'ok'])),
            undischarged=[o['name'] for o in obs if o['status'] not in ('ok', 'known')], known_findings=[o['name'] for o in kobs],
            undecided=notes, bounded_functions=cfg.get('bounded', []),
            bounded_search=dict(label='bounded, never counted as proved', evaluations=nat['evals'], distinct=nat['distinct'], samples=nat['samples'], oracle=cfg.get('oracle', ''), seconds=cfg.get('secs', (8, 120))[0 if tier == 'quick' else 1]) if nat else None,
            obligation_list=[dict(name=o['name'], kind=o['kind'], status=o['status'], backend=o['backend'], seconds=o['time'], paths=o['count'], native=o.get('native')) for o in obs]),
        assumptions=TRUSTED + assumed + cfg.get('assumptions', []))
    if ev['level'] != 'proof':
        ev['coverage'].update(explanation=cfg.get('explanation', ''))
    if nat: ev['coverage'].update(evaluations=nat['evals'], distinct_nontrivial=nat['distinct'], rule='seeded generator of native/%s.cpp; a case counts once, by the hash of its full text' % cfg['harness'], samples=nat['samples'])
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
    for n in notes: print('NOTE: undecided in this run (bounded search only): %s' % n.replace('\n', ' ')[:400])
    print('%s: %d functions/lemmas, %d/%d obligations discharged, %d vacuity checks, search %s cases, %.1f s' % (prop, len(results), len(disch), len(obs), len(cov), nat['evals'] if nat else 0, time.time() - t0))
    for r, o in fails[:20]: print('  failed: %s [%s]' % (o['name'], o.get('native', 'no model replay')))
    if nat and nat['violation']: print('  search: %s' % nat['msg'])
    for v in violations: print(v)
    return 1 if violations else 0

def enc(v):
    if isinstance(v, bool): return str(int(v))
    if isinstance(v, float): return v.hex() if v == v and v not in (float('inf'), float('-inf')) else repr(v)
    if isinstance(v, bytes): s = v.decode('latin-1')
    else: s = str(v)
    return ''.join(c if 32 < ord(c) < 127 and c != '%' else '%%%02x' % ord(c) for c in s)
