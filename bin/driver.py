"""check <property> [tier]: discharge the contracts of a property, run the bounded stand-in, write the evidence."""
import importlib.util
import json
import multiprocessing as mp
import os
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
VENV = "/opt/venv/bin/python"
REPO = os.environ.get("PYDV_REPO", "/repo")
TRUSTED = [
    "pydv: the symbolic interpreter, loop rules and array semantics in /verif/pydv (tested on deliberately broken bodies)",
    "contracts of numpy/scipy/numba functions in /verif/pydv/fakenp.py and arrays.py (assumed, compared with the real libraries by /verif/bin/selftest)",
    "machine floating point treated as exact real arithmetic; machine integers as mathematical integers",
    "z3, nlsat, cvc5, sympy",
    "CPython semantics of the statements outside of the rewriting listed in pydv/loader.py",
]


def load_specs(prop):
    from pydv import api
    p = os.path.join(HERE, 'sym', prop + '.py')
    if not os.path.exists(p):
        return []
    sp = importlib.util.spec_from_file_location('sym_' + prop, p)
    m = importlib.util.module_from_spec(sp)
    sys.path.insert(0, os.path.join(HERE, 'sym'))
    sp.loader.exec_module(m)
    return api.SPECS.get(prop, [])


def _one(prop, i, q):
    try:
        from pydv import api, prover
        name, f, budget, depth, tier = load_specs(prop)[i]
        r = api.E(f, name, budget=budget, depth=depth).run()
        r['stat'] = dict(prover.STAT)
        q.put((i, r))
    except BaseException:
        q.put((i, dict(name=str(i), status='error', info=traceback.format_exc()[-1500:], results=[], functions=[],
                       assumed=[], paths=0, s=0)))


def run_sym(prop, tier, limit, procs=7):
    """every contract in its own process, with a time limit"""
    try:
        specs = load_specs(prop)
        from pydv import api
        if specs:
            api.world()
    except Exception:
        return None, traceback.format_exc()[-1500:]
    ctx = mp.get_context('fork')
    todo = [i for i, s in enumerate(specs) if tier == 'thorough' or s[4] == 'quick']
    skipped = [s[0] for i, s in enumerate(specs) if i not in todo]
    running, out = {}, {}
    while todo or running:
        while todo and len(running) < procs:
            i = todo.pop(0)
            q = ctx.Queue()
            p = ctx.Process(target=_one, args=(prop, i, q))
            p.start()
            running[i] = (p, q, time.time())
        for i, (p, q, t0) in list(running.items()):
            done = None
            try:
                done = q.get(timeout=0.02)[1]
            except Exception:
                if not p.is_alive():
                    try:
                        done = q.get(timeout=0.3)[1]
                    except Exception:
                        done = dict(name=specs[i][0], status='undecided', info='the verifier process ended', results=[],
                                    functions=[], assumed=[], paths=0, s=time.time() - t0)
                elif time.time() - t0 > limit:
                    p.kill()
                    done = dict(name=specs[i][0], status='undecided', info='time limit of %d s' % limit, results=[],
                                functions=[], assumed=[], paths=0, s=time.time() - t0)
            if done is not None:
                p.join(1)
                if p.is_alive():
                    p.kill()
                out[i] = done
                del running[i]
    return [out[i] for i in sorted(out)], skipped


ORDER = {'refuted': 2, 'unknown': 1, 'proved': 0}


def merge(results):
    """one entry per obligation name (the worst status over the paths)"""
    m = {}
    for r in results:
        for x in r['results']:
            k = r['name'] + ' / ' + x['name']
            y = m.setdefault(k, dict(status='proved', n=0, s=0.0, backends={}, info='', goal=None, model=None, weak=False,
                                     contract=r['name']))
            y['n'] += 1
            y['s'] += x['s']
            if x['backend']:
                y['backends'][x['backend']] = y['backends'].get(x['backend'], 0) + 1
            if ORDER[x['status']] > ORDER[y['status']]:
                y.update(status=x['status'], info=x['info'], goal=x['goal'], model=x['model'], weak=x.get('weak', False))
    return m


def run_contracts(prop, jobs, n, seed, limit=150):
    """contracts interpreted on the real code: counterexamples of the solver first, then random inputs"""
    tmp = tempfile.mkdtemp(prefix='kv_%s_' % prop)
    try:
        jp, op = os.path.join(tmp, 'jobs.json'), os.path.join(tmp, 'out.json')
        json.dump(jobs, open(jp, 'w'))
        env = dict(os.environ, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=REPO + ':' + HERE, OMP_NUM_THREADS='1',
                   MPLCONFIGDIR=os.path.join(tmp, 'mpl'), NUMBA_CACHE_DIR=os.path.join(tmp, 'numba'))
        r = subprocess.run([VENV, '-W', 'ignore', os.path.join(HERE, 'pydv', 'conc_e.py'), prop, op, str(seed), str(n), jp],
                           env=env, cwd=tmp, capture_output=True, text=True, timeout=limit + 60,
                           preexec_fn=None) if jobs else None
        return json.load(open(op)) if r is not None else {}
    except Exception as e:
        return {'': dict(error=repr(e), fails=[])}
    finally:
        import shutil
        shutil.rmtree(tmp, ignore_errors=True)


def baseline():
    p = os.path.join(HERE, 'baseline.json')
    return json.load(open(p)) if os.path.exists(p) else {}


def known(prop):
    p = os.path.join(HERE, 'known-findings.json')
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p)) if f.get('property') == prop and f.get('status') == 'known']


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='kv_%s_' % prop)
    cpath = os.path.join(tmp, 'conc.json')
    env = dict(os.environ, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=REPO, OMP_NUM_THREADS='1',
               MPLCONFIGDIR=os.path.join(tmp, 'mpl'), NUMBA_CACHE_DIR=os.path.join(tmp, 'numba'))
    conc = None
    climit = 120 if tier == 'quick' else 600
    if os.path.exists(os.path.join(HERE, 'conc', prop + '.py')):
        conc = subprocess.Popen([VENV, os.path.join(HERE, 'conc', 'harness.py'), prop, tier, str(seed), cpath, str(climit)],
                                env=env, cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    sym, skipped = run_sym(prop, tier, 150 if tier == 'quick' else 700)
    symerr = None
    if sym is None:
        symerr, sym, skipped = skipped, [], []
    cres = dict(evaluations=0, distinct=0, fails=[], errors=[], samples=[], tests={}, skips=0)
    if conc is not None:
        try:
            o, _ = conc.communicate(timeout=max(10, 800 - (time.time() - t0)))
            cres = json.load(open(cpath))
        except Exception as e:
            conc.kill()
            cres['errors'].append('stand-in did not finish: %r' % e)
    import shutil
    shutil.rmtree(tmp, ignore_errors=True)

    obl = merge(sym)
    base = set(baseline().get(prop, []))
    total = sum(x['n'] for x in obl.values())
    discharged = sum(x['n'] for x in obl.values() if x['status'] == 'proved')
    undecided = []
    for r in sym:
        if r['status'] != 'ok':
            undecided.append('%s: %s: %s' % (r['name'], r['status'], r['info'][:400]))
    for k, x in obl.items():
        if x['status'] == 'unknown':
            undecided.append('%s: solvers gave no answer' % k)
    refuted = {k: x for k, x in obl.items() if x['status'] == 'refuted'}
    if symerr:
        undecided.append('the contracts could not be generated: ' + symerr)
    fails = list(cres['fails'])
    kn = known(prop)
    shown = []
    new_fails = []
    for f in fails:
        hit = [k for k in kn if k.get('test') == f['test'] and k.get('match', '\0') in f['why']]
        if hit:
            shown.append(hit[0])
        else:
            new_fails.append(f)
    replay = None
    line = None
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    # every contract that is not fully discharged is run on the real code: replay of the solvers' counterexamples, random inputs
    jobs = {}
    for r in sym:
        bad = [x for x in r['results'] if x['status'] != 'proved']
        if bad or r['status'] != 'ok':
            jobs[r['name']] = [x['model'] for x in bad if x.get('model') and all(v is not None for v in x['model'].values())][:8]
    rep = run_contracts(prop, jobs, 40 if tier == 'quick' else 200, seed) if jobs else {}
    for nm, r in rep.items():
        for f in r.get('fails', [])[:2]:
            fails_c = dict(test='contract', contract=nm, seed=f['seed'], k=f['k'], from_model=f['from_model'],
                           model=f.get('model'), inputs=f['inputs'])
            new_fails.insert(0, dict(test="contract " + nm, case=fails_c,
                                  why='%s (inputs %s)' % ('; '.join('%s: %s' % tuple(g[:2]) for g in f['failed'][:2])[:400],
                                                          json.dumps(f['inputs'], default=str)[:300])))
    broken = {k: x for k, x in refuted.items() if k in base and (not x['weak'] or 'contract ' + x['contract'] in
                                                                 {f['test'] for f in new_fails})}
    for k, x in refuted.items():
        if k in broken:
            continue
        undecided.append('%s: refuted with a counterexample that rests on functions known only by instances of facts, and not '
                         'confirmed on the real code' % k if k in base else '%s: not an obligation of the unchanged tree' % k)
    if new_fails:
        f = new_fails[0]
        replay = os.path.join('replays', prop + '.json')
        json.dump(dict(property=prop, test=f['test'], why=f['why'], case=f['case'], all=[(g['test'], g['why']) for g in new_fails[:20]],
                       failed_obligations=[dict(obligation=k, goal=x['goal'], counterexample=x['model'], solver=x['info'])
                                           for k, x in list(broken.items())[:10]],
                       how='bin/replay ' + replay), open(os.path.join(HERE, replay), 'w'), indent=1)
        print("property fails: %s: %s" % (f['test'], f['why']))
        for k in list(broken)[:5]:
            print("failed obligation: %s" % k)
        line = "VIOLATION property=%s replay=%s" % (prop, replay)
    elif broken:
        replay = os.path.join('replays', prop + '.json')
        json.dump(dict(property=prop, failed_obligations=[dict(obligation=k, goal=x['goal'], counterexample=x['model'],
                                                                solver=x['info']) for k, x in broken.items()]),
                  open(os.path.join(HERE, replay), 'w'), indent=1)
        for k, x in list(broken.items())[:5]:
            print("failed obligation: %s\n   goal: %s\n   counterexample: %s" % (k, x['goal'], json.dumps(x['model'])[:300]))
        line = "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay)
    for k in kn:
        print("KNOWN-FINDING: property=%s %s" % (prop, k['what']))
    backends = {}
    for x in obl.values():
        for b, n in x['backends'].items():
            backends[b] = backends.get(b, 0) + n
    stat = {}
    for r in sym:
        for b, v in (r.get('stat') or {}).items():
            if isinstance(v, (int, float)):
                stat[b] = round(stat.get(b, 0) + v, 3)
    assumed = sorted({a for r in sym for a in r.get('assumed', [])})
    funcs = sorted({f for r in sym for f in r.get('functions', [])})
    man = json.load(open(os.path.join(HERE, 'MANIFEST.json'))) if os.path.exists(os.path.join(HERE, 'MANIFEST.json')) else {}
    level = next((c['level'] for c in man.get('checks', []) if c['property'] == prop), 'proof')
    cov = dict(
        obligations=total, discharged=discharged, obligation_groups=len(obl),
        checker_cmd="bin/check %s %s" % (prop, tier), trusted_base=TRUSTED,
        functions_under_contract=funcs, backends=backends, solver_seconds=stat,
        contracts=[dict(name=r['name'], status=r['status'], paths=r['paths'], obligations=len(r['results']), s=r['s'],
                        info=r['info'][:300]) for r in sym],
        undecided=undecided, thorough_only=skipped,
        baseline_obligations=len(base), baseline_missing=sorted(base - {k for k, x in obl.items() if x['status'] == 'proved'})[:40],
        evaluations=cres['evaluations'], distinct_nontrivial=cres['distinct'],
        rule="bounded stand-in (never counted as proved): seeded generated inputs for the tests in conc/%s.py, each judged by an "
             "independent oracle on the real code; distinct by content of the generated case" % prop,
        samples=cres['samples'] or [dict(obligation=k) for k in list(obl)[:3]],
        contract_replays={k: {a: b for a, b in r.items() if a != 'fails'} for k, r in rep.items()},
        stand_in=dict(tests=cres['tests'], skipped=cres['skips'], errors=cres['errors'][:5]))
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=["assumed contract: " + a for a in assumed], wall_s=round(time.time() - t0, 2),
              violations=len(new_fails) + (len(broken) if not new_fails else 0))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1, default=str)
    print("%s %s: %d/%d obligations discharged (%d functions under contract), stand-in %d cases (%d distinct, %d skipped), %.1f s"
          % (prop, tier, discharged, total, len(funcs), cres['evaluations'], cres['distinct'], cres['skips'], time.time() - t0))
    for u in undecided[:10]:
        print("UNDECIDED " + u[:300])
    for e in cres['errors'][:3]:
        print("STAND-IN ERROR " + e[-500:])
    if os.environ.get('KV_BASELINE'):
        b = baseline()
        b[prop] = sorted(k for k, x in obl.items() if x['status'] == 'proved')
        json.dump(b, open(os.path.join(HERE, 'baseline.json'), 'w'), indent=0, sort_keys=True)
    if line:
        print(line)
        sys.exit(1)
    if total == 0 and cres['evaluations'] == 0:
        print("nothing was checked")
        sys.exit(2)
    sys.exit(0)


if __name__ == '__main__':
    main()
