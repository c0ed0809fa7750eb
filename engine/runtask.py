"""Run one proof task of a property in this process; JSON result on stdout."""
import json, os, sys, time, traceback, importlib, resource

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)


def main():
    prop, name, limit = sys.argv[1], sys.argv[2], float(sys.argv[3])
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    from engine import core
    from engine.core import CTX
    t0 = time.time()
    res = dict(task=name, obligations=[], status='ok', detail='')
    try:
        mod = importlib.import_module('props.' + prop)
        fn = dict(mod.TASKS)[name]
        CTX.reset_task()
        CTX.deadline = t0 + limit
        fn()
    except core.Unsupported as e:
        res['status'], res['detail'] = 'undecided', 'unsupported: %s' % e
        if os.environ.get('VC_DEBUG'):
            traceback.print_exc()
    except BaseException as e:
        res['status'], res['detail'] = 'undecided', traceback.format_exc()[-1500:]
    reached = {o.name for o in CTX.obligs if o.name.startswith('cover:') and o.status == 'discharged'}
    res['obligations'] = [o.asdict() for o in CTX.obligs if not (o.status == 'vacuous' and o.name in reached)]
    res['shaky'] = CTX.shaky
    res['paths'] = CTX.npaths
    res['solver_s'] = round(CTX.solver_s, 3)
    res['wall_s'] = round(time.time() - t0, 3)
    res['assumed'] = sorted(CTX.assumed)
    res['functions'] = sorted(CTX.functions)
    res['contracts'] = sorted(CTX.contracts)
    json.dump(res, out, default=str)
    out.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
