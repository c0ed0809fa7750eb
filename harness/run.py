"""run.py <prop> run --seed S --time T --max N --hints F --known F
   run.py <prop> replay <file>"""
import signal, argparse, importlib, io, contextlib, json, os, sys, time, traceback, random, tempfile, shutil, warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from common import Gen, literals, Fail, jkey
warnings.simplefilter('ignore')


def on_alarm(*a):
    raise Fail('call does not return (time limit of one case)')


def one(mod, case):
    """None or (key, message)"""
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf):
            mod.check(case)
    except Fail as e:
        return e.key, str(e)
    except AssertionError as e:
        return '', 'assertion: %s' % e
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('mode')
    ap.add_argument('file', nargs='?')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--time', type=float, default=5)
    ap.add_argument('--max', type=int, default=10**9)
    ap.add_argument('--hints')
    ap.add_argument('--known')
    ap.add_argument('--log')
    a = ap.parse_args()
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    scratch = tempfile.mkdtemp(prefix='vcrun_')
    os.chdir(scratch)
    mod = importlib.import_module(a.prop)
    res = dict(evaluations=0, distinct_nontrivial=0, samples=[], failure=None, known=[], errors=0, error='')
    try:
        if a.mode == 'replay':
            d = json.load(open(a.file))
            r = one(mod, d['case'])
            print('replay:', 'FAILS: %s' % (r[1],) if r else 'passes', file=out)
            out.flush()
            return 1 if r else 0
        hints = json.load(open(a.hints)) if a.hints else {}
        known = [l.strip() for l in open(a.known)] if a.known and os.path.exists(a.known) else []
        g = Gen(a.seed)
        g.pool_i, g.pool_r = hints.get('ints', []), hints.get('reals', [])
        t0 = time.time()
        seen = set()
        i = 0
        fixed = list(getattr(mod, 'CASES', []))
        log = os.open(a.log, os.O_CREAT | os.O_RDWR) if a.log else None
        signal.signal(signal.SIGALRM, on_alarm)
        per_case = int(getattr(mod, 'CASE_S', 20))
        while i < a.max and (i < len(fixed) or time.time() - t0 < a.time):
            try:
                case = fixed[i] if i < len(fixed) else mod.gen(g, i)
                i += 1
                if case is None:
                    continue
                if log is not None:     # survives a crash of the interpreter
                    b = json.dumps(case, default=str).encode()
                    os.ftruncate(log, 0)
                    os.pwrite(log, b, 0)
                signal.alarm(per_case)
                try:
                    r = one(mod, case)
                finally:
                    signal.alarm(0)
            except BaseException as e:
                if isinstance(e, KeyboardInterrupt):
                    raise
                i += 1
                # an exception the contract does not allow is a failing input
                allowed = getattr(mod, 'HARNESS_ERRORS', ())
                tb = traceback.format_exc()
                if 'in check' in tb and not isinstance(e, allowed):
                    r = ('', 'unexpected %s: %s' % (type(e).__name__, str(e)[:300]) + '\n' + tb[-900:])
                else:
                    res['errors'] += 1
                    res['error'] = tb[-800:]
                    continue
            res['evaluations'] += 1
            k = jkey(case)
            if k not in seen:
                seen.add(k)
                if getattr(mod, 'nontrivial', lambda c: True)(case):
                    res['distinct_nontrivial'] += 1
                    if len(res['samples']) < 3:
                        res['samples'].append(case)
            if r:
                if r[0] and any(('key=' + r[0]) in l for l in known):
                    if r[0] not in [x[0] for x in res['known']]:
                        res['known'].append((r[0], r[1]))
                    continue
                res['failure'] = dict(case=case, message=r[1], key=r[0])
                break
        res['wall_s'] = time.time() - t0
        json.dump(res, out, default=str)
        out.flush()
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
