"""Runs harness cases on the real, unmodified code with the values of solver models (no z3, no proxies)."""
import io
import json
import os
import shutil
import sys
import tempfile
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def jsonable(v):
    if isinstance(v, bytes):
        return {'b': v.hex()}
    if isinstance(v, dict):
        return {'d': sorted([[jsonable(k), jsonable(x)] for k, x in v.items()], key=lambda p: json.dumps(p))}
    if isinstance(v, (list, tuple)):
        return [jsonable(x) for x in v]
    if v is None or isinstance(v, (str, int, bool)):
        return v
    return repr(v)


def run_one(job):
    import importlib
    from symex.api import ConT, Violation, AssumeFailed
    mod = importlib.import_module('harness.' + job['module'])
    if hasattr(mod, 'preload'):
        mod.preload()
    func = getattr(mod, job['func'])
    root = os.path.realpath(tempfile.mkdtemp(prefix='vrf_'))
    work = os.path.join(root, 'w')
    os.mkdir(work)
    t = ConT(job['values'], work)
    t.usual_order()     # files are listed as in the symbolic runs: sorted, unless the case says otherwise
    cwd = os.getcwd()
    old = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = io.StringIO()
    # the property's own outcome, never a partial write outside the scratch folder
    try:
        os.chdir(work)
        try:
            func(t, **job.get('params', {}))
            res = {'outcome': 'pass'}
        except Violation as e:
            res = {'outcome': 'violation', 'msg': str(e)}
        except AssumeFailed as e:
            res = {'outcome': 'assume', 'msg': str(e)}
        except SystemExit as e:
            res = {'outcome': 'violation', 'msg': 'SystemExit'}
        except RecursionError as e:
            res = {'outcome': 'violation', 'msg': 'RecursionError'}
        except Exception as e:
            res = {'outcome': 'violation', 'msg': 'unexpected %s: %s' % (type(e).__name__, e),
                   'trace': traceback.format_exc()[-1500:]}
    finally:
        sys.stdout, sys.stderr = old
        t.close()
        os.chdir(cwd)
        shutil.rmtree(root, ignore_errors=True)
    res['obs'] = {k: jsonable(v) for k, v in t.obs.items()}
    return res


def main():
    sys.dont_write_bytecode = True
    sys.path.insert(0, VERIF)
    sys.path.insert(0, os.environ.get('VERIF_SRC', '/repo/src'))
    import warnings
    warnings.simplefilter('ignore')
    data = json.load(open(sys.argv[1]))
    jobs = data if isinstance(data, list) else [data]
    out = []
    import resource
    import signal

    class TO(Exception):
        pass

    def onalarm(*a):
        raise TO('timeout')
    signal.signal(signal.SIGALRM, onalarm)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 31, 1 << 31))
    import importlib
    for name in sorted({j['module'] for j in jobs}):
        mod = importlib.import_module('harness.' + name)
        if hasattr(mod, 'preload'):
            mod.preload()

    def one(j):
        signal.alarm(20)
        try:
            return run_one(j)
        except TO:
            return {'outcome': 'violation', 'msg': 'timeout', 'obs': {}}
        finally:
            signal.alarm(0)
    # each job in a process of its own: what one leaves in memory must not reach the next
    for j in jobs:
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(rd)
                res = json.dumps(one(j)).encode()
                while res:
                    res = res[os.write(wr, res):]
                code = 0
            finally:
                os._exit(code)
        os.close(wr)
        with os.fdopen(rd, 'rb') as f:
            res = f.read()
        status = os.waitpid(pid, 0)[1]
        if status != 0:
            raise SystemExit('replay of %s ended with status %d' % (j.get('func'), status))
        out.append(json.loads(res))
    if len(sys.argv) > 2:
        json.dump(out, open(sys.argv[2], 'w'))
    else:
        for j, r in zip(jobs, out):
            print(json.dumps(r, ensure_ascii=False, indent=1))
        sys.exit(1 if any(r['outcome'] == 'violation' for r in out) else 0)


if __name__ == '__main__':
    main()
