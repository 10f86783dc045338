"""Driver: python3-vt -m symex.run <PROPERTY> [--tier quick|thorough]"""
import argparse
import importlib
import importlib.util
import json
import multiprocessing as mp
import os
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get('VERIF_SRC', '/repo/src')
REPLAY_PY = '/opt/venv/bin/python'


class Case:
    def __init__(self, func, params=None, name=None, max_s=None, tier='quick', max_paths=None, validate=6, bounds=None,
                 concretize_ok=False):
        self.func, self.params = func, params or {}
        self.name = name or func + ''.join('_%s=%s' % kv for kv in sorted(self.params.items()))
        self.max_s, self.tier, self.max_paths, self.validate = max_s, tier, max_paths, validate


def run_case(module, case, budget, seed, out):
    """runs in its own process"""
    sys.dont_write_bytecode = True
    sys.setrecursionlimit(20000)
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    from . import loader, ops, core, api
    import warnings
    warnings.simplefilter('ignore')
    res = {'case': case.name, 'violations': [], 'errors': [], 'witness': []}
    t0 = time.time()
    try:
        loader.install({'v8unpack': SRC, 'harness': VERIF})
        ops.FUNCS = set()
        ctx = core.Ctx(deadline=t0 + budget, seed=seed)
        core.Ctx.cur = ctx
        ctx.reset_path()
        from . import vfs
        ctx.fs = vfs.FS()
        SymT = api.make_sym()
        mod = importlib.import_module('harness.' + module)
        if hasattr(mod, 'preload'):
            mod.preload()
        func = getattr(mod, case.func)
        ops.FUNCS.clear()
        snap = loader.snapshot()
        st = ctx.stats
        msgs = {}
        next_sample = 1
        exhausted = False
        while True:
            ctx.reset_path()
            for a in ('encmap', 'b64map', 'decimals', 'symkeys', 'hashes', 'nz', 'nz2', 'uuidn', 'any_schedule', 'order_at', 'order_n',
                      'pool_calls', '_last_vals2', 'deflate_max', 'deflate_fixed', 'fault'):
                ctx.__dict__.pop(a, None)
            ctx.fs = vfs.FS()
            loader.restore(snap)
            t = None
            found = None
            done = False
            try:
                t = SymT()
                func(t, **case.params)
                done = True
            except core.Infeasible:
                st.infeasible += 1
            except core.PathAbort as e:
                st.aborted += 1
                st.abort_reasons[str(e)] = st.abort_reasons.get(str(e), 0) + 1
            except core.Found as e:
                found = (e.msg, e.model)
            except core.EngineError as e:
                if str(e) == 'deadline':
                    res['timeout'] = True
                    break
                res['errors'].append('engine: ' + str(e)[:600] + ' @ ' + ' < '.join('%s:%s' % (os.path.basename(f.filename), f.lineno) for f in reversed(traceback.extract_tb(e.__traceback__)[-7:])))
            except (KeyboardInterrupt, GeneratorExit):
                raise
            except RecursionError as e:
                try:
                    ctx.fail('RecursionError')
                except core.Found as f:
                    found = (f.msg, f.model)
                except core.Control:
                    pass
            except (Exception, SystemExit) as e:
                tb = traceback.format_exc()
                try:
                    ctx.fail('unexpected %s' % type(e).__name__)
                except core.Found as f:
                    found = (f.msg, f.model)
                    res.setdefault('traces', []).append(tb[-1800:])
                except core.Control:
                    st.infeasible += 1
            finally:
                del func
                func = getattr(mod, case.func)
            if found:
                st.paths += 1
                if msgs.get(found[0], 0) < 4 and len(res['violations']) < 24:
                    msgs[found[0]] = msgs.get(found[0], 0) + 1
                    vals = api.values_from_model(found[1], t.inputs, ctx.inputs.get('__order__'),
                                                 getattr(ctx, 'any_schedule', False))
                    res['violations'].append({'msg': found[0], 'values': vals})
                else:
                    res['more_violations'] = res.get('more_violations', 0) + 1
                    if res['more_violations'] > 200:
                        break
            elif done:
                st.paths += 1
                if st.paths >= next_sample and len(res['witness']) < case.validate:
                    next_sample = st.paths * 2 + 1
                    m = None
                    try:
                        m = ctx._ensure_model()
                    except core.Infeasible:
                        res['errors'].append('completed path is infeasible')
                    if m is not None:
                        vals = api.values_from_model(m, t.inputs, ctx.inputs.get('__order__'),
                                                     getattr(ctx, 'any_schedule', False))
                        try:
                            from .concrete import jsonable
                            obs = {k: jsonable(api.eval_obs(m, v)) for k, v in t.obs.items()}
                        except core.Control:
                            obs = {}
                        res['witness'].append({'values': vals, 'obs': obs})
            if len(res['errors']) > 3:
                break
            if case.max_paths and st.paths + st.aborted >= case.max_paths:
                res['capped'] = True
                break
            # let go of the previous path's objects before flipping
            t = None
            if not ctx.next_path():
                exhausted = True
                break
            if time.time() - t0 > budget:
                res['timeout'] = True
                break
        res['exhausted'] = exhausted
        for f in st.FIELDS:
            res[f] = getattr(st, f)
        res['solver_s'] = st.solver_s
        res['abort_reasons'] = st.abort_reasons
        res['concretize_reasons'] = st.concretize_reasons
        res['functions'] = sorted(f for f in ops.FUNCS if f.startswith('v8unpack'))
    except BaseException as e:
        res['errors'].append('driver: %s' % traceback.format_exc()[-1500:])
    res['wall_s'] = time.time() - t0
    with open(out, 'w') as f:
        json.dump(res, f)


def replay(jobs, timeout=300):
    with tempfile.TemporaryDirectory(prefix='vrfj_') as d:
        a, b = os.path.join(d, 'a.json'), os.path.join(d, 'b.json')
        json.dump(jobs, open(a, 'w'))
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', LANG='C.UTF-8', LC_ALL='C.UTF-8', VERIF_SRC=SRC)
        env.pop('PYTHONPATH', None)
        p = subprocess.run([REPLAY_PY, '-W', 'ignore', os.path.join(VERIF, 'symex', 'concrete.py'), a, b], env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=d)
        if not os.path.exists(b):
            return None, p.stdout.decode('utf8', 'replace')[-2000:]
        return json.load(open(b)), ''


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--case')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    sys.dont_write_bytecode = True
    sys.path.insert(0, VERIF)
    module = json.load(open(os.path.join(VERIF, 'harness', 'registry.json')))[a.prop]
    # the list of cases is plain data computed without importing the code under test
    spec = importlib.util.spec_from_file_location('cases_' + module, os.path.join(VERIF, 'harness', module + '.py'))
    hm = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(hm)
    ent = hm.META[a.prop]
    cases = [Case(**c) for c in hm.CASES[a.prop] if a.tier == 'thorough' or c.get('tier', 'quick') == 'quick']
    if a.case:
        cases = [c for c in cases if a.case in c.name]
    total_budget = ent.get('budget', {}).get(a.tier, 240 if a.tier == 'quick' else 780)
    hard = t0 + total_budget
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    results = {}
    with tempfile.TemporaryDirectory(prefix='vrfr_') as tmp:
        pending = list(enumerate(cases))
        running = []
        while pending or running:
            while pending and len(running) < a.jobs:
                i, c = pending.pop(0)
                left = hard - time.time()
                rounds = max(1, -(-(len(pending) + 1) // a.jobs))
                b = max(5, min(c.max_s or left, left))
                out = os.path.join(tmp, '%d.json' % i)
                p = mp.get_context('fork').Process(target=run_case, args=(module, c, b, seed, out))
                p.start()
                running.append((i, c, p, out, time.time() + b + 60))
            time.sleep(0.01)
            for r in list(running):
                i, c, p, out, dl = r
                if not p.is_alive():
                    p.join()
                    running.remove(r)
                    if os.path.exists(out):
                        results[i] = json.load(open(out))
                    else:
                        results[i] = {'case': c.name, 'errors': ['worker died (exit %s)' % p.exitcode], 'violations': [],
                                      'witness': []}
                    if a.v:
                        x = results[i]
                        print('%-60s paths=%s inf=%s ab=%s br=%s solver=%s/%.1fs wall=%.1f %s%s%s' % (
                            c.name, x.get('paths'), x.get('infeasible'), x.get('aborted'), x.get('branches'),
                            x.get('solver_checks'), x.get('solver_s', 0), x.get('wall_s', 0),
                            '' if x.get('exhausted') else 'NOT-EXHAUSTED ',
                            'VIOL ' if x['violations'] else '',
                            (str(x['errors'][:1]) + str(x.get('abort_reasons') or '')) if x['errors'] or x.get('abort_reasons') else ''),
                            flush=True)
                elif time.time() > dl:
                    p.kill()
                    p.join()
                    running.remove(r)
                    results[i] = {'case': c.name, 'errors': [], 'timeout': True, 'violations': [], 'witness': []}
    # ------------------------------------------------------------- replay counterexamples and witnesses
    known = load_known(a.prop)
    viol, knownhits, spurious, disagree = [], {}, [], []
    vjobs = []
    for i, c in enumerate(cases):
        for v in results[i]['violations']:
            vjobs.append((c, v, dict(module=module, func=c.func, params=c.params, values=v['values'], prop=a.prop,
                                     case=c.name, msg=v['msg'])))
    for n, (c, v, job) in enumerate(vjobs):
        r, err = replay([job])
        if r is None:
            spurious.append((c.name, v['msg'], 'replay failed: ' + err))
            continue
        r = r[0]
        if r['outcome'] == 'violation':
            k = match_known(known, c, v, r)
            if k is not None:
                knownhits.setdefault(k, 0)
                knownhits[k] += 1
                continue
            path = os.path.join(VERIF, 'evidence', 'replay_%s_%d.json' % (a.prop, len(viol)))
            job['observed'] = r['msg']
            json.dump(job, open(path, 'w'), ensure_ascii=False, indent=1)
            viol.append((path, c.name, v['msg'], r['msg']))
        else:
            spurious.append((c.name, v['msg'], r))
        if len(viol) >= 5:
            break
    wjobs = []
    for i, c in enumerate(cases):
        for w in results[i]['witness']:
            wjobs.append((c, w, dict(module=module, func=c.func, params=c.params, values=w['values'], prop=a.prop,
                                     case=c.name, msg='witness')))
    validated = 0
    samples = []
    if wjobs and not viol:
        r, err = replay([j for _, _, j in wjobs], timeout=600)
        if r is None:
            disagree.append('witness replay failed: ' + err)
        else:
            for (c, w, j), x in zip(wjobs, r):
                if x['outcome'] == 'pass':
                    same = all(norm(x['obs'].get(k)) == norm(w['obs'].get(k)) or (w['obs'].get(k) is None)
                               for k in w['obs'])
                    if same:
                        validated += 1
                        if len(samples) < 6:
                            samples.append({'case': c.name, 'input': clip(j['values'])})
                    else:
                        disagree.append('%s: observations differ for %s: %s vs %s' % (c.name, clip(j['values']), clip(x['obs']), clip(w['obs'])))
                elif x['outcome'] == 'violation':
                    v = {'msg': 'witness', 'values': j['values']}
                    k = match_known(known, c, v, x)
                    if k is not None:
                        knownhits[k] = knownhits.get(k, 0) + 1
                        continue
                    path = os.path.join(VERIF, 'evidence', 'replay_%s_%d.json' % (a.prop, len(viol)))
                    j['observed'] = x['msg']
                    j['trace'] = x.get('trace')
                    json.dump(j, open(path, 'w'), ensure_ascii=False, indent=1)
                    viol.append((path, c.name, 'path witness', x['msg']))
                else:
                    disagree.append('%s: assume failed in replay: %s' % (c.name, clip(j['values'])))
    # ------------------------------------------------------------- evidence
    R = [results[i] for i in range(len(cases))]

    def s(k):
        return sum(x.get(k) or 0 for x in R)
    errors = [(x['case'], e) for x in R for e in x['errors']]
    funcs = sorted({f for x in R for f in x.get('functions', [])})
    aborts = {}
    for x in R:
        for k, n in (x.get('abort_reasons') or {}).items():
            aborts[k] = aborts.get(k, 0) + n
    vac = [x['case'] for x in R if not x.get('paths') and not x['errors'] and not x.get('timeout')]
    ev = {
        'property': a.prop, 'tier': a.tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': s('paths'), 'transitions': s('branches'), 'traces_validated_against_impl': validated,
            'samples': samples or [{'case': c.name} for c in cases[:3]],
            'exhaustive': all(x.get('exhausted') for x in R) and not aborts and not errors,
            'explanation': 'states = completed symbolic paths (each stands for every input satisfying its path condition); '
                           'transitions = branch decisions; traces_validated = solver models of completed paths re-run on '
                           'the unmodified code with equal observations',
            'cases': [{'case': x['case'], 'paths': x.get('paths'), 'exhausted': bool(x.get('exhausted')),
                       'wall_s': round(x.get('wall_s', 0), 2)} for x in R],
            'functions_encoded': funcs,
            'solver_queries': s('solver_checks'), 'solver_s': round(sum(x.get('solver_s', 0) for x in R), 2),
            'obligations_checked': s('obligations'), 'obligations_unsat': s('discharged'),
            'domain_decided_branches': s('domain_decisions'),
            'solver_unknown': s('unknown'), 'infeasible_paths': s('infeasible'), 'given_up_paths': s('aborted'),
            'given_up_reasons': aborts,
            'not_exhausted_cases': [x['case'] for x in R if not x.get('exhausted')],
            'spurious_counterexamples': len(spurious), 'model_disagreements': len(disagree),
            'bounds': ent.get('bounds', ''),
        },
        'assumptions': ent.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(viol),
    }
    json.dump(ev, open(os.path.join(VERIF, 'evidence', a.prop + '.json'), 'w'), ensure_ascii=False, indent=1)
    print('%s [%s]: cases=%d paths=%d branches=%d queries=%d solver=%.1fs obligations=%d/%d functions=%d validated=%d/%d wall=%.1fs' % (
        a.prop, a.tier, len(cases), s('paths'), s('branches'), s('solver_checks'), ev['coverage']['solver_s'], s('discharged'),
        s('obligations'), len(funcs), validated, len(wjobs), ev['wall_s']))
    for k, n in sorted(knownhits.items()):
        print('KNOWN-FINDING: property=%s %s' % (a.prop, k))
    for c, m, r in spurious[:5]:
        print('SPURIOUS (does not reproduce, ignored as engine imprecision): %s: %s: %s' % (c, m, str(r)[:500]))
    if a.v and spurious:
        for x in R:
            for tb in (x.get('traces') or [])[:1]:
                print(tb)
    for d in disagree[:5]:
        print('DISAGREEMENT: %s' % d[:600])
    for c, e in errors[:5]:
        print('ERROR: %s: %s' % (c, e))
    ne = ev['coverage']['not_exhausted_cases']
    if ne:
        print('NOT EXHAUSTED (bounded by time, partial coverage): %s' % ', '.join(ne[:12]))
    if aborts:
        print('GIVEN UP PATHS: %s' % aborts)
    if viol:
        for p, c, m, r in viol:
            print('VIOLATION property=%s replay=%s' % (a.prop, p))
            print('   case %s: %s -- observed on the real code: %s' % (c, m, r[:500]))
        sys.exit(1)
    if errors or s('paths') == 0 or (spurious and not os.environ.get('VERIF_LAX')):
        sys.exit(2)
    if vac:
        print('VACUOUS CASES: %s' % vac)
        sys.exit(2)
    sys.exit(0)


def norm(o):
    return json.loads(json.dumps(o))


def clip(x):
    t = json.dumps(x, ensure_ascii=False)
    return t if len(t) < 400 else t[:400] + '...'


def load_known(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k['property'] == prop and k.get('status') == 'open']


def match_known(known, c, v, r):
    import re
    for k in known:
        if re.fullmatch(k['case'], c.name) and re.search(k['observed'], r['msg'], re.S):
            return k['what']
    return None


if __name__ == '__main__':
    main()
