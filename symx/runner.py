"""Drive harnesses: explore paths, discharge assertions, replay, evidence."""
import importlib
import json
import math
import os
import sys
import time
import traceback
import warnings

from . import core, engine
from .core import Inconclusive, Infeasible, PathAbort, Unsupported
from .engine import ConcCtx, Evaluator, STATS, Stats, SymCtx, conc_close

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('DOLFYN_REPO', '/repo')


class Harness:
    def __init__(self, name, fn, bounds='', max_paths=400, timeout=20.0,
                 validate=6, budget=200, tier='quick', stubs=(), expected=None,
                 min_paths=1):
        self.name = name
        self.fn = fn
        self.bounds = bounds
        self.max_paths = max_paths
        self.timeout = timeout
        self.validate = validate
        self.budget = budget
        self.tier = tier
        self.stubs = stubs


class Violation:
    def __init__(self, harness, label, values, detail):
        self.harness, self.label, self.values, self.detail = harness, label, values, detail


class FnTracer:
    """records which functions of the repository were executed symbolically"""

    def __init__(self):
        self.funcs = set()

    def __enter__(self):
        self.mon = sys.monitoring
        try:
            self.mon.use_tool_id(3, 'symx')
        except ValueError:
            return self
        root = os.path.join(REPO, 'dolfyn')

        def start(code, off):
            f = code.co_filename
            if f.startswith(root):
                self.funcs.add('%s:%s' % (os.path.relpath(f, REPO), code.co_qualname))
            return self.mon.DISABLE
        self.mon.register_callback(3, self.mon.events.PY_START, start)
        self.mon.set_events(3, self.mon.events.PY_START)
        self.mon.restart_events()
        return self

    def __exit__(self, *a):
        try:
            self.mon.set_events(3, 0)
            self.mon.free_tool_id(3)
        except ValueError:
            pass
        return False


def run_concrete(h, values, seed=0):
    """the harness on the real unpatched code; -> (ctx, exception)"""
    c = ConcCtx(dict(values), seed)
    err = None
    import numpy as np
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        try:
            h.fn(c)
        except Infeasible:
            return c, 'infeasible'
        except PathAbort:
            return c, 'infeasible'
        except Exception as e:
            err = e
            c.tb = traceback.format_exc()
        finally:
            c.cleanup()
    return c, err


def root_exc(e):
    return '%s: %s' % (type(e).__name__, str(e)[:200])


def explore(h, log, deadline, known=()):
    """-> dict result of one harness; known: labels of its known findings"""
    from . import shim
    res = dict(name=h.name, bounds=h.bounds, paths=0, forks=0, asserts=0,
               violations=[], problems=[], reached={}, validated=0, concretized=[],
               funcs=set(), cut=0)
    work = [[]]
    t_end = min(deadline, time.time() + h.budget)
    engine.DEADLINE[0] = t_end
    nval = 0
    probe = Probe(h, known)
    while work:
        if res['paths'] >= h.max_paths or time.time() > t_end:
            res['problems'].append('exploration bound hit: %d paths pending after %d' % (len(work), res['paths']))
            break
        prefix = work.pop()
        core.reset_atoms()
        cx = SymCtx(prefix, timeout=h.timeout)
        cx.listed, cx.probe = known, probe
        core._ctx[0] = cx
        exc = None
        tb = ''
        a0, c0 = STATS.asserts, len(STATS.concretized)
        with shim.Patched() as patched, FnTracer() as tr, warnings.catch_warnings():
            warnings.simplefilter('ignore')
            shim_now[0] = patched
            try:
                h.fn(cx)
            except Infeasible:
                exc = 'infeasible'
            except PathAbort:
                exc = 'infeasible'
            except RecursionError:
                raise
            except Exception as e:
                exc = e
                tb = traceback.format_exc()
            finally:
                cx.cleanup()
                shim_now[0] = None
        res['funcs'] |= tr.funcs
        work.extend(reversed(cx.pending))
        if exc == 'infeasible':
            res['cut'] += 1
            continue
        res['paths'] += 1
        STATS.paths += 1
        res['asserts'] += STATS.asserts - a0
        for k, v in cx.reached.items():
            res['reached'][k] = res['reached'].get(k, 0) + v
        for k in STATS.concretized[c0:]:
            res['concretized'].append(k)
        for u in cx.unknowns:
            res['problems'].append('solver unknown: ' + u)
        over = isinstance(exc, Inconclusive)
        if over:
            # what the path has shown so far is still replayed
            res['problems'].append('inconclusive: %s' % exc)
            engine.DEADLINE[0] = time.time() + 40
        elif isinstance(exc, Exception):
            # does the real code fail the same way on this path?
            if cx.check_sat([]) == 'sat':
                for vals in cx.model_variants():
                    v = replayed(h, vals, known)
                    if v:
                        res['violations'].append(v)
                        break
                else:
                    res['problems'].append('encoding: %s\n%s' % (root_exc(exc), tb))
            else:
                res['problems'].append('encoding: %s\n%s' % (root_exc(exc), tb))
            if fresh(res, known) >= 3 or len(res['problems']) > 4:
                break
            continue
        # counterexamples: replay on the real code
        missed = None
        cands = [c for c in cx.cands if c[0] not in known][:6] + [c for c in cx.cands if c[0] in known][:2]
        for (label, variants, dec, zc) in cands:
            ok = None
            vals = variants[0]
            for v in variants:
                ok = replayed(h, v, known)
                if ok:
                    break
            if not ok and label not in known:
                v = probe()
                ok = v and replayed(h, v, known)
            if not ok:
                # other models of the same violation
                import z3
                import random
                for k in range(4):
                    blk = []
                    for name, (kind, a) in cx.inputs.items():
                        if kind in ('real', 'int') and name in vals:
                            blk.append(a.z)
                    extra = []
                    rr = random.Random(k)
                    rr.shuffle(blk)
                    for z in blk[:1 + k]:
                        v = vals[str(z)]
                        if z.sort() == z3.IntSort():
                            extra.append(z != v)
                        else:
                            extra.append(z3.Or(z > core.zq(core.toq(v)) + 1, z < core.zq(core.toq(v)) - 1))
                    if cx.check_sat([zc] + extra, timeout=5) != 'sat':
                        continue
                    for v2 in cx.model_variants():
                        ok = replayed(h, v2, known)
                        if ok:
                            break
                    if ok:
                        break
            if ok:
                res['violations'].append(ok)
                missed = None
                break
            missed = missed or ('counterexample for %r did not reproduce on the real code: %s'
                                % (label, json.dumps(vals)[:600]))
        if missed:
            res['problems'].append(missed)
        if (over or cx.unknowns) and not fresh(res, known):
            v = validate(h, cx, res)
            if v is None and probe():
                v = replayed(h, probe(), known)
            if v is not None:
                res['violations'].append(v)
        if over:
            break
        # validate the encoding on this path with a solver model
        if nval < h.validate and not cx.cands:
            nval += 1
            v = validate(h, cx, res)
            if v is not None:
                res['violations'].append(v)
        if fresh(res, known) >= 3 or len(res['violations']) >= 40 or len(res['problems']) > 4:
            break
    core._ctx[0] = None
    engine.DEADLINE[0] = None
    return res


class Probe:
    """where the solver gives no answer: does the real code fail for one of a few concrete inputs?
    (can only turn 'no answer' into a replayed violation)"""

    def __init__(self, h, known, n=16, budget=15):
        self.h, self.known, self.n, self.budget, self.done, self.vals = h, known, n, budget, False, None

    def __call__(self):
        if not self.done:
            self.done = True
            self.vals = self.apart()
        return self.vals

    def apart(self):
        """in a child process: the symbolic run this one interrupts is not disturbed"""
        import select
        import signal
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                if shim_now[0] is not None:
                    shim_now[0].__exit__(None, None, None)
                core._ctx[0] = None
                t0, out = time.time(), None
                for k in range(self.n):
                    if time.time() - t0 > self.budget:
                        break
                    c, err = run_concrete(self.h, {}, seed=k)
                    if err is None and any(f[0] not in self.known for f in c.fails):
                        out = c.values
                        break
                with os.fdopen(wr, 'w') as f:
                    json.dump(out, f)
            finally:
                os._exit(0)
        os.close(wr)
        txt = b''
        end = time.time() + self.budget + 5
        while time.time() < end and select.select([rd], [], [], max(0, end - time.time()))[0]:
            got = os.read(rd, 65536)
            if not got:
                break
            txt += got
        os.close(rd)
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(pid, 0)
        try:
            return json.loads(txt or 'null')
        except ValueError:
            return None


shim_now = [None]


def fresh(res, known):
    return sum(v.label not in known for v in res['violations'])


def worst(h, c, known):
    """the first failure that is not a known finding, else the first"""
    f = ([x for x in c.fails if x[0] not in known] or c.fails)[0]
    return Violation(h, f[0], c.values, f[1])


def replayed(h, vals, known=()):
    """the violation the real code shows with these inputs, if any"""
    c, err = run_concrete(h, vals)
    if isinstance(err, Exception):
        return Violation(h, 'exception', c.values, root_exc(err))
    if err != 'infeasible' and c.fails:
        return worst(h, c, known)


def interior(pcs):
    """path conditions with a margin: floating point decides them the same way"""
    import z3
    out = []
    for c in pcs:
        neg = False
        while z3.is_not(c):
            neg, c = not neg, c.arg(0)
        if c.num_args() != 2 or not z3.is_expr(c.arg(0)) or c.arg(0).sort() != z3.RealSort():
            continue
        le = z3.is_le(c) or z3.is_lt(c)
        ge = z3.is_ge(c) or z3.is_gt(c)
        if not (le or ge):
            continue
        d = c.arg(1) - c.arg(0)
        if ge:
            d = -d
        out.append((-d if neg else d) >= z3.Q(1, 100000))
    return out


def validate(h, cx, res):
    """run a solver model of the path on the real code; compare observations"""
    import z3
    vals = None
    # spread the model away from trivial zeros
    extra = []
    n = 0
    for name, (kind, a) in cx.inputs.items():
        n += 1
        if kind == 'real':
            lo = a.lo if a.lo is not None else -10
            hi = a.hi if a.hi is not None else 10
            f = core.Fraction((n * 37) % 97 + 1, 100)
            extra.append(z3.And(a.z > core.zq(lo + (hi - lo) * (f - core.Fraction(1, 60))), a.z < core.zq(lo + (hi - lo) * (f + core.Fraction(1, 60)))))
        elif kind == 'int' and a.hi - a.lo > 3:
            v = a.lo + (n * 53 + 11) % (a.hi - a.lo + 1)
            extra.append(a.z == v)
    # linear inputs may be pinned only as far as the path allows
    got = False
    strict = interior(cx.pc)
    inner = True
    for frac, st in ((1.0, strict), (0.5, strict), (0.0, strict), (0.0, [])):
        k = int(len(extra) * frac)
        if cx.check_sat(extra[:k] + st, timeout=3) == 'sat':
            got = True
            inner = bool(st) or not strict
            break
    if not got or cx.model is None:
        return None
    vals = cx.input_values(cx.model)
    c, err = run_concrete(h, vals)
    if err == 'infeasible':
        return None
    if isinstance(err, Exception):
        return Violation(h, 'exception', c.values, root_exc(err))
    if c.fails:
        return worst(h, c, cx.listed)
    ev = Evaluator(cx, c.values)
    bad = []
    try:
        ev.resolve_trig()
        if len(c.obs) == len(cx.obs):
            for (la, x), (lb, y) in zip(cx.obs, c.obs):
                if isinstance(x, (str, bytes)) or x is None or isinstance(y, (str, bytes)):
                    continue
                xv = ev.val(x)
                if hasattr(xv, 'dtype') and xv.dtype.kind in 'Mm':
                    xv = int(xv.astype('int64'))
                if not conc_close(xv, y, 1e-5, 1e-5):
                    bad.append('%s: encoded %r real %r' % (la, xv, y))
                    break
            res['validated'] += 1
        elif inner:
            bad.append('observation count %d vs %d' % (len(cx.obs), len(c.obs)))
    except KeyError as e:
        bad.append('evaluator: %s' % e)
    except (ZeroDivisionError, OverflowError, ValueError) as e:
        bad.append('evaluator: %r' % e)
    if bad and inner:
        res.setdefault('mismatch', []).append(bad[0])
    return None


# ---------------------------------------------------------------- one check

def known_findings():
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('property='):
                pid, rest = line.split(' ', 1)
                out.setdefault(pid[len('property='):], []).append(rest)
    return out


def load_check(pid):
    sys.path.insert(0, VERIF)
    return importlib.import_module('checks.' + pid.lower())


def setup_repo():
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
    for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS'):
        os.environ.setdefault(v, '1')
    warnings.simplefilter('ignore')
    import logging
    import dolfyn
    assert os.path.abspath(dolfyn.__file__).startswith(os.path.abspath(REPO) + os.sep), dolfyn.__file__
    # bind the accessors and lazily imported modules now
    import dolfyn.adv.api, dolfyn.adp.api, dolfyn.adv.turbulence, dolfyn.adp.turbulence  # noqa
    import dolfyn.io.api, dolfyn.io.rdi, dolfyn.io.nortek, dolfyn.io.nortek2, dolfyn.tools.misc  # noqa
    return dolfyn


def write_replay(pid, v, n):
    d = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s_%d.json' % (pid, n))
    with open(p, 'w') as f:
        json.dump(dict(property=pid, harness=v.harness.name, label=v.label,
                       detail=v.detail, inputs=v.values), f, indent=1, default=str)
    return p


def _one(args):
    """worker: run one harness"""
    pid, hname, tier, deadline = args
    engine.STATS.__init__()
    mod = load_check(pid)
    hs = {h.name: h for h in mod.harnesses(tier)}
    h = hs[hname]
    t0 = time.time()
    import contextlib
    import io
    with contextlib.redirect_stdout(sys.stderr if os.environ.get("SYMX_OUT") else io.StringIO()):
        try:
            r = explore(h, None, deadline, [k.split(' ', 1)[0].split('/', 1)[1] for k in known_findings().get(pid, []) if k.startswith(h.name + '/')])
        except Inconclusive as e:
            r = dict(name=h.name, bounds=h.bounds, paths=0, forks=0, asserts=0, violations=[], reached={},
                     problems=['inconclusive: %s' % e], validated=0, concretized=[], funcs=set(), cut=0)
        except Exception as e:
            r = dict(name=h.name, bounds=h.bounds, paths=0, forks=0, asserts=0, violations=[], reached={},
                     problems=['runner: %s\n%s' % (root_exc(e), traceback.format_exc())], validated=0,
                     concretized=[], funcs=set(), cut=0)
    S = engine.STATS
    r['stats'] = dict(queries=S.queries, unsat=S.unsat, sat=S.sat, unknown=S.unknown,
                      solver_s=round(S.solver_s, 3), forks=S.forks, normal_form=S.normal, slowest=round(S.slowest, 3))
    r['wall'] = round(time.time() - t0, 2)
    r['funcs'] = sorted(r['funcs'])
    r['violations'] = [(v.label, v.values, v.detail) for v in r['violations']]
    return r


def main(argv):
    if argv and argv[0] == '--selftest':
        import z3
        setup_repo()
        s = z3.Solver()
        s.add(z3.Int('x') * 2 == 5)
        assert s.check() == z3.unsat
        print('ready: z3', z3.get_version_string())
        return 0
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    only = [a.split('=', 1)[1] for a in argv if a.startswith('--only=')]
    serial = '--serial' in argv
    verbose = '-v' in argv
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    setup_repo()
    if '--replay' in argv:
        return replay(argv[argv.index('--replay') + 1])
    mod = load_check(pid)
    hs = mod.harnesses(tier)
    if only:
        hs = [h for h in hs if h.name in only]
    known = known_findings().get(pid, [])

    def listed(name, label):
        key = ('%s/%s' % (name, label)).replace(' ', '_')
        return [k for k in known if k.split(' ', 1)[0] == key]
    deadline = t0 + (820 if tier == 'quick' else 7000)
    jobs = [(pid, h.name, tier, deadline) for h in hs]
    results = []
    if serial or len(jobs) == 1:
        for j in jobs:
            results.append(_one(j))
            if verbose:
                r = results[-1]
                print('  %-40s paths=%d asserts=%d q=%d t=%.1f viol=%d prob=%s mism=%s conc=%s' % (
                    r['name'], r['paths'], r['asserts'], r['stats']['queries'], r['wall'],
                    len(r['violations']), r['problems'][:2], r.get('mismatch', [])[:2], sorted(set(r['concretized']))[:5]), flush=True)
    else:
        import multiprocessing as mp
        ctx = mp.get_context('fork')
        with ctx.Pool(min(8, len(jobs)), maxtasksperchild=4) as pool:
            it, stop = pool.imap_unordered(_one, jobs), None
            while True:
                try:
                    r = it.next(max(.1, stop - time.time()) if stop else None)
                except StopIteration:
                    break
                except mp.TimeoutError:      # a violation is established: the rest is not waited for
                    break
                results.append(r)
                if stop is None and any(not listed(r['name'], v[0]) for v in r['violations']):
                    stop = time.time() + 20
                if verbose:
                    print('  %-40s paths=%d asserts=%d q=%d t=%.1f viol=%d prob=%s mism=%s conc=%s' % (
                        r['name'], r['paths'], r['asserts'], r['stats']['queries'], r['wall'],
                        len(r['violations']), r['problems'][:2], r.get('mismatch', [])[:2], sorted(set(r['concretized']))[:5]), flush=True)
    hmap = {h.name: h for h in hs}
    viol, problems, kf = [], [], []
    for r in results:
        for (label, values, detail) in r['violations']:
            hit = listed(r['name'], label)
            if hit:
                kf.append(hit[0])
                continue
            viol.append(Violation(hmap[r['name']], label, values, detail))
        for p in r['problems']:
            problems.append('%s: %s' % (r['name'], p))
        if not r['violations'] and not r['problems'] and not any(r['reached'].values()):
            problems.append('%s: vacuous - no assertion was reached' % r['name'])
        for m in r.get('mismatch', []):
            problems.append('%s: encoding mismatch: %s' % (r['name'], m))
    funcs = sorted(set(f for r in results for f in r['funcs']))
    tot = {k: sum(r['stats'][k] for r in results) for k in ('queries', 'unsat', 'sat', 'unknown', 'forks', 'normal_form')}
    conc = {}
    for r in results:
        for c in r['concretized']:
            conc[c] = conc.get(c, 0) + 1
    cov = dict(
        explanation='Bounded symbolic execution of the repository\'s own functions with an SMT solver '
                    '(z3): every input named in the bounds is a symbolic variable, every feasible path '
                    'within the bounds is explored, and each assertion is discharged for all values on '
                    'its path; a model is replayed on the unpatched code before it is reported.',
        functions_encoded=funcs,
        harnesses=[dict(name=r['name'], bounds=r['bounds'], paths=r['paths'], cut=r['cut'], asserts=r['asserts'],
                        validated=r['validated'], wall_s=r['wall'], **r['stats']) for r in sorted(results, key=lambda r: r['name'])],
        paths=sum(r['paths'] for r in results),
        assertions=sum(r['asserts'] for r in results),
        assertion_labels_reached=sum(len(r['reached']) for r in results),
        solver=dict(tot, solver_s=round(sum(r['stats']['solver_s'] for r in results), 2),
                    slowest_query_s=max([r['stats']['slowest'] for r in results] or [0])),
        paths_validated_against_real_code=sum(r['validated'] for r in results),
        concretized=conc,
        inconclusive=problems[:10],
        samples=[dict(harness=r['name'], assertions=list(r['reached'])[:6]) for r in results[:5]],
    )
    ev = dict(property=pid, tier=tier, seed=seed, level='other', coverage=cov,
              assumptions=getattr(mod, 'ASSUMPTIONS', []) + COMMON_ASSUMPTIONS,
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for k in sorted(set(kf)):
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    if viol:
        for i, v in enumerate(viol[:5]):
            p = write_replay(pid, v, i)
            print('VIOLATION property=%s replay=%s' % (pid, p))
            print('  harness %s, assertion %r: %s' % (v.harness.name, v.label, v.detail))
        return 1
    if problems:
        for p in problems[:6]:
            print('INCONCLUSIVE %s: %s' % (pid, p if verbose else p[:300]), file=sys.stderr)
        return 2
    print('OK property=%s tier=%s paths=%d assertions=%d queries=%d solver_s=%.1f wall_s=%.1f' % (
        pid, tier, cov['paths'], cov['assertions'], tot['queries'], cov['solver']['solver_s'], time.time() - t0))
    return 0


COMMON_ASSUMPTIONS = [
    'floating-point numbers are modelled as exact reals (rounding is absorbed by the stated tolerances); '
    'integers and bytes are exact',
    'infinities are merged with NaN where a denominator can be zero',
    'z3 5.x and the symbolic numpy/xarray stand-ins in /verif/symx are trusted; each explored harness is '
    'cross-checked by running solver models of its paths on the unpatched code',
]


def replay(path):
    """re-run one counterexample on the real code: exit 1 if it still fails"""
    d = json.load(open(path))
    mod = load_check(d['property'])
    for tier in ('quick', 'thorough'):
        for h in mod.harnesses(tier):
            if h.name == d['harness']:
                c, err = run_concrete(h, d['inputs'])
                if isinstance(err, Exception):
                    print(c.tb)
                    return 1
                for f in c.fails:
                    print('FAIL', f)
                return 1 if c.fails else 0
    return 2
