"""Runs the contract of one property: verify, cross-check, replay, report."""
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback
import warnings

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')

ASSUMPTIONS = [
    'machine floats are treated as real numbers in the proofs (rounding is only exercised by the concrete cross-check)',
    'contract of numpy.linalg.svd: A = U diag(s) V, U^T U = V V^T = I, s sorted and >= 0, and it is a function of A',
    'contracts of numpy.linalg.inv/det/norm (exact linear algebra) and of elementwise numpy functions (their real counterparts)',
    'contract of numpy.linspace: used through two arbitrary members u_i < u_j of the run (pointwise code is lifted to all members)',
    'scipy.stats quantile functions are uninterpreted non-negative functions of their arguments',
    'denominators met on a path are non-zero and atan2 is not taken at the origin (degenerate inputs: concrete runs only)',
    'the numpy stand-in and the normal-form/SMT engine in /verif/engine are trusted, guarded by evaluating every proved expression against the real code on sample inputs',
]
TRUSTED = ['CPython', 'numpy', 'scipy', '/verif/engine (VC generator, normaliser, numpy stand-in)', 'z3']


STRESS = (1e-2, 1e2, 0.1, 10.0, 1e-3, 1e3, 1e-8)


class Scenario(object):
    def __init__(self, name, fn, deductive=True, samples=30, concrete=60, seconds=90, max_paths=48,
                 concrete_seconds=25, note='', require=None, **opts):
        self.name = name
        self.fn = fn
        self.deductive = deductive
        self.samples = samples
        self.concrete = concrete
        self.seconds = seconds
        self.max_paths = max_paths
        self.concrete_seconds = concrete_seconds
        self.note = note
        self.opts = opts


def run_concrete(sc, sample, choices=None):
    """-> (failures [(label, detail)], checked, values) or None when skipped"""
    from . import vc
    ctx = vc.NumCtx(sample, choices)
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        try:
            sc.fn(ctx)
        except vc.Skip:
            return None
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = ['%s:%d %s' % (os.path.relpath(f.filename, REPO) if f.filename.startswith(REPO) else f.filename,
                                   f.lineno, f.name) for f in tb][-4:]
            ctx.failures.append(vc.Failure('no exception', '%s: %s (%s)' % (type(e).__name__, e, ' < '.join(reversed(where)))))
            ctx.checked += 1
    return [(f.label, f.detail) for f in ctx.failures], ctx.checked, ctx.values


def dump_inputs(sample):
    out = {}
    for k, v in sample.cache.items():
        if isinstance(v, tuple) or k.endswith('#'):
            continue
        try:
            a = np.asarray(v)
            out[k] = a.tolist() if a.size <= 400 else {'shape': list(a.shape), 'head': a.ravel()[:30].tolist()}
        except Exception:
            out[k] = repr(v)[:300]
    return out


def work(prop, idx, tier, seed, mode, conn):
    """child process: one scenario"""
    try:
        sys.setrecursionlimit(20000)
        mod = importlib.import_module('contracts.' + prop.lower())
        sc = mod.SCENARIOS[idx]
        conn.send(scenario_result(prop, sc, tier, seed, mode))
    except BaseException as e:
        conn.send(dict(scenario='#%d' % idx, error='%s: %s' % (type(e).__name__, e),
                       trace=traceback.format_exc()))
    finally:
        conn.close()


def scenario_result(prop, sc, tier, seed, mode):
    from . import expr as X, vc, smt
    thorough = tier == 'thorough'
    out = dict(scenario=sc.name, obligations=0, discharged=0, backends={}, undischarged=[], paths=0,
               unsupported=[], failures=[], concrete=0, checked=0, mismatches=[], functions=[],
               truncated=False, infeasible=0, crosschecked=0, notes=[], refuted=[], skipped=0, sample=None,
               deductive=sc.deductive and mode != 'concrete', distinct=0)
    t0 = time.time()
    ex = None
    results = []
    suspects, early = [], []
    if sc.deductive and mode != 'concrete':
        ex = vc.Explorer(sc.fn, seed=seed, n_samples=sc.samples * (2 if thorough else 1),
                         max_paths=sc.max_paths * (4 if thorough else 1),
                         seconds=sc.seconds * (4 if thorough else 1),
                         smt_timeout=20000 if thorough else sc.opts.get('smt_timeout', 8000),
                         branch_timeout=sc.opts.get('branch_timeout', 700),
                         ob_seconds=sc.opts.get('ob_seconds', 10.0))
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            results = ex.run()
        out['truncated'] = ex.truncated
        out['functions'] = sorted(ex.functions)
        witnessed = False
        for res in results:
            if res.status == 'infeasible':
                out['infeasible'] += 1
                continue
            out['paths'] += 1
            for n in res.path.notes:
                if n not in out['notes']:
                    out['notes'].append(n)
            if res.path.samples and res.obligations:
                witnessed = True
            if res.status in ('unsupported', 'exception'):
                (out['unsupported'] if res.status == 'unsupported' else out['refuted']).append(
                    res.detail if res.status == 'unsupported' else 'exception: ' + res.detail)
                out['obligations'] += 1
                out['undischarged'].append(dict(label='path completes', status=res.status, detail=res.detail[:300]))
                for s in res.path.samples[:4]:
                    suspects.append((s, dict(res.choices)))
            for ob in res.obligations:
                out['obligations'] += 1
                if ob.status == 'proved' and res.status == 'ok':
                    out['discharged'] += 1
                    out['backends'][ob.backend] = out['backends'].get(ob.backend, 0) + 1
                else:
                    out['undischarged'].append(dict(label=ob.label, status=ob.status, detail=ob.detail[:300],
                                                    path=[str(c)[:120] for c in res.path.pc[:6]]))
                    if ob.status == 'refuted':
                        out['refuted'].append('%s: %s' % (ob.label, ob.detail[:200]))
                        if ob.sample is not None:
                            suspects.insert(0, (ob.sample, dict(res.choices)))
                    else:
                        for s in res.path.samples[:2]:
                            suspects.append((s, dict(res.choices)))
        out['witnessed'] = witnessed
        if not witnessed and not out['unsupported']:
            out['notes'].append('vacuous: no explored path has a witness input')
            out['undischarged'].append(dict(label='non-vacuity', status='failed', detail=''))
        # engine guard: proved expressions must evaluate to what the real code computes
        for res in results:
            if res.status != 'ok' or not res.path.samples:
                continue
            good = 0
            for s in res.path.samples[:8]:
                if good >= 2 or not robust(res, s):
                    continue
                r = run_concrete(sc, s.clone(), dict(res.choices))
                if r is None:
                    continue
                good += 1
                if r[0] and out['undischarged']:
                    # what one process keeps between runs may show only the first time
                    early.append((s, dict(res.choices), r))
                bad = crosscheck(res, s, r[2])
                out['crosschecked'] += 1
                if bad:
                    out['mismatches'].append(bad)
        if out['mismatches']:
            out['notes'].append('engine/real-code mismatch: proofs of this scenario are not counted')
            out['discharged'] = 0
        out['z3'] = dict(smt.STATS)
    out['deductive_wall'] = time.time() - t0
    # concrete runs ---------------------------------------------------------------
    seen = set()

    def one(sample, choices=None, origin='sample', r=None):
        r = r or run_concrete(sc, sample, choices)
        if r is None:
            out['skipped'] += 1
            return
        out['concrete'] += 1
        out['checked'] += r[1]
        if out['sample'] is None and not r[0]:
            out['sample'] = dict(seed=sample.seed, inputs=dump_inputs(sample))
        seen.add(json.dumps(dump_inputs(sample), default=str)[:2000])
        for label, detail in r[0]:
            if sample.extreme and origin != 'scaled input' and not confirmed(results, sample, choices or {}, label):
                # at the limits of a path floating point may fail where the real numbers do not
                out['rounding'] = out.get('rounding', 0) + 1
                continue
            out['failures'].append(dict(label=label, detail=detail[:1500], seed=sample.seed, origin=origin,
                                        overrides={k: np.asarray(v).tolist() for k, v in sample.overrides.items()},
                                        scale=sample.scale,
                                        choices=choices or {}, inputs=dump_inputs(sample)))

    for s, ch, r in early:
        one(s, ch, 'witness of a path', r)
    t1 = time.time()
    for s, ch in suspects[:40]:
        one(s.clone(), ch, 'counterexample of an undischarged obligation')
        if out['failures'] or time.time() - t1 > sc.concrete_seconds:
            break
    if ex is not None and not out['failures']:
        for s, ch in ex.fragile + [(s, dict(s.choices)) for s in ex.directed[:12]]:
            one(s.clone(), ch, 'solver-directed input')
            if out['failures'] or time.time() - t1 > sc.concrete_seconds:
                break
    n = sc.concrete * (8 if thorough else 1)
    undecided = bool(out['undischarged']) or not sc.deductive or mode == 'concrete'
    if undecided:
        n *= 3
    t1 = time.time()
    limit = sc.concrete_seconds * (6 if thorough else 1) * (2 if undecided else 1)
    from .vc import Sample
    i = 0
    while i < n and len(out['failures']) < 3 and time.time() - t1 < limit:
        one(Sample(seed * 100003 + i))
        i += 1
    stress = bool(out['undischarged']) and (sc.deductive or mode == 'concrete') or os.environ.get('VERIF_STRESS')
    t1 = time.time()
    for j in range(12 if stress else 0):
        # an obligation is open: inputs of other magnitudes as well
        for f in STRESS:
            if len(out['failures']) >= 3 or time.time() - t1 > limit:
                break
            one(Sample(seed * 900007 + j, scale={'*': f}), origin='scaled input')
    if ex is not None and out['undischarged'] and not out['failures'] and not out['mismatches']:
        exact_refutations(out, results)
    out['distinct'] = len(seen)
    out['wall'] = time.time() - t0
    return out


def confirmed(results, sample, choices, label):
    """does the obligation fail at this input in exact arithmetic as well?"""
    from . import exact
    base = label.split('[')[0]
    for res in results:
        if res.status == 'ok' and dict(res.choices) == dict(choices):
            obs = [ob for ob in res.obligations if ob.status != 'proved' and ob.label.split('[')[0] == base]
            cache = {}
            for ob in obs:
                if exact.refute(res.path, ob, [sample.clone()] if not cache else list(cache), cache) is not None:
                    return True
    return False


def exact_refutations(out, results, seconds=40.0):
    """open obligations that are false in the semantics of the proofs"""
    from . import exact
    t0 = time.time()
    for res in results:
        if res.status != 'ok':
            continue
        cache = {}
        for ob in res.obligations:
            if ob.status == 'proved' or time.time() - t0 > seconds:
                continue
            # in the fragile region of floating point the proof may not need the machine to agree
            r = exact.refute(res.path, ob, ([ob.sample] if ob.sample is not None else []) + res.path.samples[:90], cache)
            if r is not None:
                out['undischarged'].insert(0, dict(
                    label=ob.label, status='refuted-exactly', detail=r[1] + ' | ' + ob.detail[:300], path=[str(c)[:160] for c in res.path.pc[:8]],
                    seed=r[0].seed, choices=dict(res.choices), inputs=dump_inputs(r[0])))
                break


def robust(res, s):
    """sample away from branch boundaries, branch cuts and zero denominators, where the
    real-number semantics and floating point may legitimately take different sides"""
    from . import expr as X
    for c in res.path.pc:
        if X.eval_bool(c, s, 1e-7) is not True or near(c, s):
            return False
    seen, stack = set(), []
    for ob in res.obligations:
        stack += [e for e in (ob.a, ob.b) if isinstance(e, X.E)]
    pts = []
    while stack:
        e = stack.pop()
        if e.id in seen:
            continue
        seen.add(e.id)
        if e.op in ('atan2', 'div'):
            pts.append(e)
        stack += [a for a in e.args if isinstance(a, X.E)]
    for e in pts:
        a, b = X.evaluate(list(e.args), s)
        if e.op == 'div':
            if np.min(np.abs(b)) < 1e-11:
                return False
        else:
            r = np.hypot(a, b)
            if np.any(r < 1e-9) or np.any((np.abs(a) < 1e-9 * r) & (b < 0)):
                return False
    return True


def near(c, s):
    from . import expr as X
    if c.op in ('not', 'and', 'or'):
        return any(near(a, s) for a in c.args)
    if c.op == 'eq' and all(a.op in ('var', 'num') for a in c.args if isinstance(a, X.E)):
        return False                      # inputs themselves: compared exactly in both worlds
    if c.op not in ('lt', 'le', 'eq'):
        return False
    x, y = X.evaluate(list(c.args), s)
    return bool(np.any(np.abs(np.asarray(x) - y) <= 1e-9 * (1 + np.abs(x))))


def crosscheck(res, s, values):
    from . import expr as X
    groups = {}
    for ob in res.obligations:
        if ob.kind in ('eq', 'le', 'lt'):
            base = ob.label.split('[')[0] if ob.label.endswith(']') else ob.label
            groups.setdefault(base, []).append(ob)
    for base, obs in groups.items():
        if base not in values or values[base][0] is None:
            continue
        for side in (0, 1):
            try:
                got = [X.evaluate([ob.a if side == 0 else ob.b], s)[0] for ob in obs]
            except Exception:
                continue
            want = np.asarray(values[base][side], dtype=float)
            if all(np.ndim(g) == 0 for g in got):
                got = np.array(got, dtype=float)
                if want.size != got.size:
                    continue
                want = want.ravel()
            else:
                try:
                    got = np.stack([np.asarray(g) for g in got], axis=-1)
                except ValueError:
                    continue
                if want.ndim == 2 and want.shape == got.T.shape and want.shape != got.shape:
                    want = want.T
                if want.size != got.size:
                    continue
                if want.ndim == got.ndim == 2 and want.shape[1] and want.shape[0] != got.shape[0] and got.shape[1] % want.shape[1] == 0:
                    # stacked blocks of the same length
                    got = np.concatenate(np.split(got, got.shape[1] // want.shape[1], axis=1))
                want = want.reshape(got.shape)
            if not (np.all(np.isfinite(got)) and np.all(np.isfinite(want))):
                continue
            if np.any(np.abs(got - want) > 2e-5 * (1 + np.max(np.abs(want)))):
                return '%s: engine %s, real code %s' % (base, np.array2string(got, threshold=6),
                                                       np.array2string(want, threshold=6))
    return None


def known_findings(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p))['findings'] if f['property'] == prop and f.get('status') == 'open']


def main(argv=None):
    argv = sys.argv[1:] if argv is None else argv
    if argv[0] == '--selftest':
        return selftest()
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    verbose = '-v' in argv
    only = [a[2:] for a in argv if a.startswith('-s')]
    if '--thorough' in argv:
        tier = 'thorough'
    sys.path.insert(0, VERIF)
    sys.path.insert(0, REPO)
    t0 = time.time()
    if '--replay' in argv:
        return replay(argv[argv.index('--replay') + 1])
    mod = importlib.import_module('contracts.' + prop.lower())
    # make sure the real package imports before forking (a broken tree is an error)
    import attitude  # noqa: F401
    for m in getattr(mod, 'PRELOAD', []):
        importlib.import_module(m)
    from . import vc, smt  # noqa: F401
    idxs = [i for i, s in enumerate(mod.SCENARIOS) if not only or s.name in only]
    results = schedule(prop, mod, idxs, tier, seed)
    return report(prop, mod, results, tier, seed, t0, verbose)


def selftest():
    """the engine proves a true contract of a toy function, refutes a false one and finds the input"""
    sys.path.insert(0, VERIF)
    sys.path.insert(0, REPO)
    from . import vc

    def good(ctx):
        a, b = ctx.real('a', lambda s, r: float(r.normal())), ctx.real('b', lambda s, r: float(r.normal()))
        ctx.eq('square', (a + b) ** 2, a * a + 2 * a * b + b * b)
        ctx.le('mean', a * b * 2, a * a + b * b)

    def bad(ctx):
        a = ctx.real('a', lambda s, r: float(r.normal()))
        ctx.le('wrong', a, 0.5)
    ok = True
    for fn, want in ((good, True), (bad, False)):
        r = scenario_result('T', Scenario('toy', fn), 'quick', 1, 'full')
        got = r['obligations'] == r['discharged'] and not r['failures']
        ok = ok and got == want and r['obligations'] > 0 and (want or bool(r['failures']))
    print('selftest', 'ok' if ok else 'FAILED')
    return 0 if ok else 2


def schedule(prop, mod, idxs, tier, seed):
    ctx = mp.get_context('fork')
    todo = [(i, 'full') for i in idxs]
    running, done = {}, {}
    ncpu = 7
    while todo or running:
        while todo and len(running) < ncpu:
            i, mode = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=work, args=(prop, i, tier, seed, mode, b))
            p.start()
            b.close()
            sc = mod.SCENARIOS[i]
            k = 4 if tier == 'thorough' else 1
            hard = (sc.seconds + 40) * k + sc.concrete_seconds * (8 if tier == 'thorough' else 3) + 60
            running[i] = (p, a, time.time() + hard, mode)
        time.sleep(0.02)
        for i, (p, a, dl, mode) in list(running.items()):
            res = None
            if a.poll():
                try:
                    res = a.recv()
                except EOFError:
                    res = dict(scenario=mod.SCENARIOS[i].name, error='worker died')
            elif not p.is_alive():
                res = dict(scenario=mod.SCENARIOS[i].name, error='worker died (exit %s)' % p.exitcode)
            elif time.time() > dl:
                res = dict(scenario=mod.SCENARIOS[i].name, error='timeout')
            if res is None:
                continue
            if p.is_alive():
                p.join(0.5)
            if p.is_alive():
                p.kill()
            p.join()
            a.close()
            del running[i]
            if 'error' in res and mode == 'full':
                done.setdefault('errors', []).append('%s: %s' % (mod.SCENARIOS[i].name, res['error']))
                if os.environ.get('VERIF_DEBUG'):
                    print(res.get('trace'))
                todo.append((i, 'concrete'))
            else:
                done[i] = res
    return done


def repo_head():
    try:
        return subprocess.run(['git', '-C', REPO, 'rev-parse', 'HEAD'], capture_output=True,
                              text=True).stdout.strip()
    except Exception:
        return ''


def report(prop, mod, results, tier, seed, t0, verbose):
    errors = results.pop('errors', [])
    rs = [results[k] for k in sorted(results)]
    broken = [r for r in rs if 'error' in r]
    good = [r for r in rs if 'error' not in r]
    known = known_findings(prop)
    used_known, viol = [], []
    for r in good:
        for f in r['failures']:
            k = [x for x in known if x['scenario'] == r['scenario'] and x['label'] == f['label']]
            if k:
                if k[0] not in used_known:
                    used_known.append(k[0])
                continue
            viol.append((r, f))
    obligations = sum(r['obligations'] for r in good)
    discharged = sum(r['discharged'] for r in good)
    backends = {}
    for r in good:
        for k, v in r['backends'].items():
            backends[k] = backends.get(k, 0) + v
    fns = sorted({f for r in good for f in r['functions']})
    z3q = sum(r.get('z3', {}).get('z3_queries', 0) for r in good)
    z3t = sum(r.get('z3', {}).get('z3_time', 0.0) for r in good)
    coverage = dict(
        obligations=obligations, discharged=discharged,
        checker_cmd='cd /verif && ./check %s' % prop,
        trusted_base=TRUSTED,
        discharged_by=backends, z3_queries=z3q, z3_seconds=round(z3t, 2),
        functions_under_contract=fns,
        paths=sum(r['paths'] for r in good),
        infeasible_paths=sum(r['infeasible'] for r in good),
        undischarged=[dict(scenario=r['scenario'], **u) for r in good for u in r['undischarged']][:40],
        unsupported=[dict(scenario=r['scenario'], reason=u) for r in good for u in r['unsupported']][:20],
        crosschecked_paths=sum(r['crosschecked'] for r in good),
        engine_mismatches=[m for r in good for m in r['mismatches']][:5],
        evaluations=sum(r['concrete'] for r in good),
        distinct_nontrivial=sum(r['distinct'] for r in good),
        rule='run-time contract on the real package: inputs from the generators in engine/gens.py, '
             'distinct by input values; an evaluation outside the precondition is skipped and not counted',
        runtime_assertions=sum(r['checked'] for r in good),
        samples=[dict(scenario=r['scenario'], **r['sample']) for r in good if r['sample']][:3],
        bounded_scenarios=[dict(scenario=r['scenario'],
                                bound='%d concrete evaluations' % r['concrete']) for r in good if not r['deductive']],
        scenarios=[dict(name=r['scenario'], obligations=r['obligations'], discharged=r['discharged'],
                        paths=r['paths'], concrete=r['concrete'], wall=round(r['wall'], 1),
                        truncated=r['truncated'], notes=r['notes']) for r in good],
        scenario_errors=errors, explanation=getattr(mod, 'EXPLANATION', ''), repo_head=repo_head())
    ev = dict(property=prop, tier=tier, seed=seed, level=getattr(mod, 'LEVEL', 'proof'), coverage=coverage,
              assumptions=ASSUMPTIONS + list(getattr(mod, 'ASSUMPTIONS', [])),
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    edir = os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence')
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s: %d/%d obligations discharged (%s), %d paths, %d concrete evaluations, %.1fs' % (
        prop, discharged, obligations, ', '.join('%s %d' % i for i in sorted(backends.items())),
        coverage['paths'], coverage['evaluations'], time.time() - t0))
    if verbose:
        for r in good:
            print('  %-28s ob %d/%d paths %d(+%d inf) conc %d skip %d ded %.1fs wall %.1fs %s%s' % (
                r['scenario'], r['discharged'], r['obligations'], r['paths'], r['infeasible'], r['concrete'],
                r['skipped'], r.get('deductive_wall', 0), r['wall'],
                'TRUNC ' if r['truncated'] else '', r['notes'] or ''))
            for u in r['undischarged'][:8]:
                print('      undischarged %s [%s] %s' % (u['label'], u['status'], u['detail'][:220]))
            for m in r['mismatches'][:2]:
                print('      MISMATCH', m[:400])
        for e in errors:
            print('  error:', e)
    for k in used_known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if viol:
        rdir = os.path.join(edir, 'replay')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, prop + '.json')
        r, f = viol[0]
        with open(path, 'w') as fh:
            json.dump(dict(property=prop, scenario=r['scenario'], obligation=f['label'], detail=f['detail'],
                           seed=f['seed'], overrides=f['overrides'], scale=f['scale'], choices=f['choices'], origin=f['origin'],
                           inputs=f['inputs'], undischarged=r['undischarged'][:10],
                           how='cd /verif && ./check %s --replay %s' % (prop, path),
                           others=[dict(scenario=a['scenario'], obligation=b['label'], detail=b['detail'][:300])
                                   for a, b in viol[1:6]]), fh, indent=1, default=str)
        print('failed: %s / %s: %s' % (r['scenario'], f['label'], f['detail'][:300]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    hard = [(r, u) for r in good for u in r['undischarged'] if u.get('status') == 'refuted-exactly']
    if hard:
        rdir = os.path.join(edir, 'replay')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, prop + '.json')
        r, u = hard[0]
        with open(path, 'w') as fh:
            json.dump(dict(property=prop, scenario=r['scenario'], obligation=u['label'],
                           verifier_output=[b for _, b in hard][:10]), fh, indent=1, default=str)
        print('failed obligation: %s / %s: %s' % (r['scenario'], u['label'], u['detail'][:300]))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
        return 1
    if broken:
        # neither mode could run the scenario: the check itself is broken
        for b in broken:
            print('ERROR scenario %s: %s' % (b['scenario'], b['error']))
            if b.get('trace'):
                print(b['trace'][-1500:])
        return 2
    return 0


def replay(path):
    from . import vc
    d = json.load(open(path))
    mod = importlib.import_module('contracts.' + d['property'].lower())
    sc = [s for s in mod.SCENARIOS if s.name == d['scenario']][0]
    if 'seed' not in d:
        print('no failing input recorded')
        return 1
    s = vc.Sample(d['seed'], {k: (np.array(v) if isinstance(v, list) else v) for k, v in d['overrides'].items()},
                  d.get('scale'))
    r = run_concrete(sc, s, d['choices'])
    print('inputs:', json.dumps(dump_inputs(s))[:3000])
    for label, detail in (r[0] if r else []):
        print('FAILED %s: %s' % (label, detail))
    return 1 if r and r[0] else 0


if __name__ == '__main__':
    sys.exit(main())
