#!/usr/bin/env python3-vt
"""check.py <property>   decide one property on /repo's current working tree.

  1. every proof task of props/<id>.py regenerates its obligations from the
     current source and discharges them (parallel processes);
  2. the contracts are executed on the real code (staged copy, extensions
     rebuilt): conformance, counterexample replay and search;
  3. verdict and evidence/<id>.json.
"""
import importlib, json, os, subprocess, sys, time, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from engine import stage as stg
sys.path.insert(0, os.path.join(V, 'harness'))
from common import literals

REPO = os.environ.get('VC_REPO', '/repo')
NPROC = int(os.environ.get('VC_NPROC', '8'))


def proofs(prop, tasks, limit, src):
    env = dict(os.environ, VC_REPO=src, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')

    def one(t):
        try:
            p = subprocess.run([sys.executable, '-m', 'engine.runtask', prop, t, str(limit)], cwd=V, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=limit + 45)
            return json.loads(p.stdout)
        except subprocess.TimeoutExpired:
            return dict(task=t, status='undecided', detail='task killed after %gs' % (limit + 45), obligations=[],
                        paths=0, solver_s=0, wall_s=limit, assumed=[], functions=[], contracts=[])
        except Exception as e:
            return dict(task=t, status='undecided', detail='%s: %s' % (e, p.stderr[-800:]), obligations=[],
                        paths=0, solver_s=0, wall_s=0, assumed=[], functions=[], contracts=[])
    with ThreadPoolExecutor(NPROC) as ex:
        return list(ex.map(one, tasks))


def runtime(prop, pkg, secs, seed, hints, known, maxn=10**9):
    hf = tempfile.NamedTemporaryFile('w', suffix='.json', delete=False)
    json.dump(hints, hf)
    hf.close()
    lf = hf.name + '.case'
    p = None
    try:
        p = subprocess.run([stg.VENV, os.path.join(V, 'harness', 'run.py'), prop, 'run', '--seed', str(seed), '--time',
                            str(secs), '--max', str(maxn), '--hints', hf.name, '--known', known, '--log', lf],
                           env=stg.run_env(pkg), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           timeout=secs + 240)
        return json.loads(p.stdout)
    except subprocess.TimeoutExpired:
        return crashed(lf, 'the call does not return')
    except Exception as e:
        if p is not None and p.returncode < 0:
            return crashed(lf, 'the interpreter is killed by signal %d' % -p.returncode)
        return dict(evaluations=0, distinct_nontrivial=0, samples=[], failure=None, known=[], errors=1,
                    error='%s rc=%s %s' % (e, p.returncode, p.stderr[-1500:]), crash='rc=%s %s' % (p.returncode, p.stderr[-600:]))
    finally:
        os.unlink(hf.name)
        if os.path.exists(lf):
            os.unlink(lf)


def crashed(lf, msg):
    d = dict(evaluations=1, distinct_nontrivial=1, samples=[], failure=None, known=[], errors=0, error='')
    try:
        d['failure'] = dict(case=json.load(open(lf)), message=msg, key='')
    except Exception:
        d.update(crash=msg, evaluations=0)
    return d


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    mod = importlib.import_module('props.' + prop)
    thorough = tier == 'thorough'
    limit = getattr(mod, 'TASK_S', 60) * (4 if thorough else 1)
    rt_s = getattr(mod, 'RUN_S', 6) * (12 if thorough else 1)
    os.makedirs(V + '/evidence/replay', exist_ok=True)
    known = V + '/KNOWN_FINDINGS.txt'
    try:
        top, pkg = stg.stage(getattr(mod, 'EXTS', []), REPO)
    except Exception as e:
        print('cannot build the extensions from the current tree: %s' % e)
        sys.exit(3)
    try:
        files = [os.path.join(REPO, 'package/inference', f) for f in mod.FILES]
        ints, reals = literals(files)
        hints = dict(ints=ints, reals=reals)
        # the run-time conformance run and the proofs go in parallel
        with ThreadPoolExecutor(2) as ex:
            fr = ex.submit(runtime, prop, pkg, rt_s, seed, hints, known)
            fp = ex.submit(proofs, prop, [n for n, _ in mod.TASKS], limit, REPO)
            rts, res = [fr.result()], fp.result()
        obl = [dict(o, task=r['task']) for r in res for o in r['obligations']]
        bad = [o for o in obl if o['status'] == 'refuted' and not o['imprecise']]
        vac = [o for o in obl if o['status'] == 'vacuous']
        und = [o for o in obl if o['status'] == 'unknown' or (o['status'] == 'refuted' and o['imprecise'])]
        undt = [r for r in res if r['status'] != 'ok' or not r['obligations']]
        for o in vac:
            undt.append(dict(task=o['task'], detail='vacuous: ' + o['name']))
        if (bad or und or undt) and not rts[0]['failure']:
            h2 = dict(ints=list(ints), reals=list(reals))
            for o in (bad + und):
                for v in (o.get('model') or {}).values():
                    if isinstance(v, bool):
                        continue
                    if isinstance(v, int) and abs(v) < 10**6:
                        h2['ints'] += [v] * 5
                        h2['reals'] += [float(v)] * 5
                    elif isinstance(v, float):
                        h2['reals'] += [v] * 5
            rts.append(runtime(prop, pkg, rt_s * 2 + 4, seed + 1000, h2, known))
    finally:
        shutil.rmtree(top, ignore_errors=True)
    fail = next((r['failure'] for r in rts if r['failure']), None)
    crash = next((r['crash'] for r in rts if r.get('crash')), None)
    ndis = sum(1 for o in obl if o['status'] == 'discharged' and not o['name'].startswith('cover:'))
    nob = sum(1 for o in obl if not o['name'].startswith('cover:'))
    # obligations with a model that may be spurious (instantiated lemmas, summarised loops): reported,
    # without a failing input, unless an invariant was lost to a solver time-out
    shaky = {r['task'] for r in res if r.get('shaky') or r['status'] != 'ok'}
    opn = [o for o in und if o.get('sat') and o['task'] not in shaky]
    violation = bool(fail or bad or opn)
    level = mod.LEVEL
    backends = {}
    for o in obl:
        if o['status'] == 'discharged':
            backends[o['backend']] = backends.get(o['backend'], 0) + 1
    undecided = sorted(set(['%s: %s' % (o['task'], o['name']) for o in und] +
                           ['task %s: %s' % (r['task'], r.get('detail', 'no obligations')[:300]) for r in undt]))
    cov = dict(
        obligations=nob, discharged=ndis, undecided=undecided,
        checker_cmd='python3-vt check.py %s' % prop,
        trusted_base=['engine/ (VC generator over the transformed real source; engine/selftest.py exercises it)',
                      'z3 %s, cvc5' % _z3v()] + list(mod.ASSUMPTIONS),
        backends=backends, covers=sum(1 for o in obl if o['name'].startswith('cover:') and o['status'] == 'discharged'),
        functions_under_contract=list(mod.FUNCTIONS),
        callee_contracts_used=sorted({c for r in res for c in r['contracts']}),
        solver_s=round(sum(r['solver_s'] for r in res), 2), paths=sum(r['paths'] for r in res),
        tasks=[dict(task=r['task'], status=r['status'], obligations=len(r['obligations']), wall_s=r['wall_s'],
                    detail=r['detail'][:200]) for r in res],
        bounded=dict(note='run-time conformance of the same contracts on the real code (not counted as proved); '
                          'stands in for: ' + ('; '.join(list(getattr(mod, 'BOUNDED', [])) + undecided) or 'nothing'),
                     evaluations=sum(r['evaluations'] for r in rts),
                     distinct_nontrivial=sum(r['distinct_nontrivial'] for r in rts[:1]),
                     harness_errors=sum(r['errors'] for r in rts), error=rts[0]['error'][-300:]),
        evaluations=sum(r['evaluations'] for r in rts),
        distinct_nontrivial=sum(r['distinct_nontrivial'] for r in rts[:1]),
        rule=getattr(mod, 'RULE', 'seeded random inputs; literals of the sources and counter-model values mixed in'),
        samples=rts[0]['samples'][:2],
        obligation_names=sorted({o['name'] for o in obl})[:80],
    )
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=list(mod.ASSUMPTIONS) + sorted({a for r in res for a in r['assumed']}),
              wall_s=round(time.time() - t0, 2), violations=1 if violation else 0)
    with open('%s/evidence/%s.json' % (V, prop), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s: %d obligations, %d discharged, %d undecided; %d run-time evaluations; %.1fs' %
          (prop, nob, ndis, len(undecided), cov['evaluations'], time.time() - t0))
    for u in undecided[:8]:
        print('  undecided (bounded stand-in):', u[:240])
    for k, m in {tuple(x) for r in rts for x in r['known']}:
        print('KNOWN-FINDING: property=%s key=%s %s' % (prop, k, m.splitlines()[0][:200]))
    if violation:
        rp = '%s/evidence/replay/%s.json' % (V, prop)
        d = dict(property=prop, failed_obligations=[dict(name=o['name'], task=o['task'], model=o['model'],
                                                         reason=o['reason']) for o in bad + opn][:10],
                 case=fail['case'] if fail else None, message=fail['message'] if fail else None,
                 replay_cmd='bash %s/replay.sh %s' % (V, rp))
        json.dump(d, open(rp, 'w'), indent=1, default=str)
        for o in (bad + opn)[:5]:
            print('  failed obligation: [%s] %s  model=%s' % (o['task'], o['name'], str(o['model'])[:300]))
        if fail:
            print('  failing input: %s\n  %s' % (json.dumps(fail['case'], default=str)[:500], fail['message'][:600]))
        print('VIOLATION property=%s replay=%s%s' % (prop, rp, '' if fail else ' no-failing-input-found'))
        sys.exit(1)
    if crash or rts[0]['evaluations'] == 0:
        print('harness error: %s' % (crash or rts[0]['error']))
        sys.exit(3)
    if nob == 0 and mod.TASKS and False:
        print('no obligations generated')
        sys.exit(3)
    sys.exit(0)


def _z3v():
    try:
        import z3
        return z3.get_version_string()
    except Exception:
        return '?'


if __name__ == '__main__':
    main()
