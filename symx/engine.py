"""Path exploration, solver interface, symbolic / concrete harness contexts."""
import math
import random
import sys
import time
import traceback
from fractions import Fraction
import numpy as np
import z3
from . import core
from .core import (Atom, Infeasible, Inconclusive, PathAbort, SymBool,
                   SymComplex, SymNum, Unsupported, as_boolz, atom_of, is_sym,
                   mkbool, nanz, num, padd, pconst, poly_z, simp, zand, zbool,
                   znot, zor, zite, toq, zq)


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.paths = 0
        self.aborted = 0
        self.forks = 0
        self.asserts = 0
        self.normal = 0
        self.concretized = []
        self.functions = set()
        self.validated = 0
        self.vmismatch = []
        self.slowest = 0.0


STATS = Stats()
DEADLINE = [None]


def z3val(v):
    """z3 numeral -> python number"""
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    raise ValueError(str(v))


class Base:
    """what harnesses see; symbolic and concrete contexts share it"""
    sym = False
    tmp = None

    def tmpdir(self):
        if self.tmp is None:
            import tempfile
            self.tmp = tempfile.mkdtemp(prefix='symx')
        return self.tmp

    def file(self, data, name='data.000'):
        """a file with these bytes, symbolic ones included: the code's open()
        and getsize() see the symbolic contents, other readers the size"""
        import os
        p = os.path.join(self.tmpdir(), name)
        if self.sym:
            from . import shim
            from .symbytes import SymBytes
            if not isinstance(data, SymBytes):
                data = SymBytes(list(data))
            shim.VFS[os.path.abspath(p)] = data
            raw = bytes(x if isinstance(x, int) else 0 for x in data.b)
        else:
            raw = bytes(data)
        with open(p, 'wb') as f:
            f.write(raw)
        return p

    def cleanup(self):
        if self.tmp is not None:
            import shutil
            from . import shim
            for k in [k for k in shim.VFS if k.startswith(self.tmp)]:
                del shim.VFS[k]
            shutil.rmtree(self.tmp, ignore_errors=True)
            self.tmp = None

    def reals(self, name, shape, lo=-10, hi=10, nan=False, dtype='float64', **kw):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        out = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
            out[ix] = self.real('%s[%s]' % (name, ','.join(map(str, ix))), lo, hi, nan=nan, **kw)
        return self.array(out, dtype)

    def angles(self, name, shape, lo=0, hi=360, dtype='float64', nan=False):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        out = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
            out[ix] = self.angle('%s[%s]' % (name, ','.join(map(str, ix))), lo, hi, nan=nan)
        return self.array(out, dtype)

    def ints(self, name, shape, lo, hi, dtype='int64'):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        out = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
            out[ix] = self.int('%s[%s]' % (name, ','.join(map(str, ix))), lo, hi)
        return self.array(out, dtype)

    def bools(self, name, shape):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        out = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
            out[ix] = self.bool('%s[%s]' % (name, ','.join(map(str, ix))))
        return self.array(out, 'bool')


class SymCtx(Base):
    sym = True

    def __init__(self, prefix=(), timeout=20.0, seed=1, margin=None):
        self.prefix = list(prefix)
        self.pos = 0
        self.pending = []
        self.pc = []
        self.decisions = []
        self.solver = z3.Solver()
        self.solver.set('timeout', 4000)
        self.seen = set()
        self.inputs = {}       # name -> (kind, atom/bool, ...)
        self.memo = {}
        self.counters = {}
        self.timeout = timeout
        self.cands = []
        self.listed, self.first_cand, self.ncand, self.probe = (), 0, 0, None
        self.obs = []
        self.unknowns = []
        self.model = None
        self.reached = {}
        self.scope = []
        self.fcache = {}
        self.seed = seed
        self.kept = []
        self.facts = {}

    # -- axioms -------------------------------------------------------------
    def axioms_of(self, exprs):
        """definitional constraints of every atom reachable from exprs"""
        out = []
        stack = [e for e in exprs]
        while stack:
            e = stack.pop()
            k = e.get_id()
            if k in self.seen:
                continue
            self.seen.add(k)
            self.kept.append(e)
            a = core._zatoms.get(k)
            if a is not None and a.defn != 'skip':
                ax = list(a.axioms)
                if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    if a.lo is not None:
                        ax.append(e >= (z3.IntVal(int(a.lo)) if a.isint else zq(a.lo)))
                    if a.hi is not None:
                        ax.append(e <= (z3.IntVal(int(a.hi)) if a.isint else zq(a.hi)))
                for x in ax:
                    out.append(x)
                    stack.append(x)
                if a.trig is not None and a.deg_unit() and a.trig[0].z.get_id() in self.seen:
                    q = core.quadrant_axioms(a)
                    out.append(q)
                    stack.append(q)
            # trig atoms: link to the value when both occur
            stack.extend(e.children())
        # link angle values to their trig atoms when both are present
        for (kind, a) in self.inputs.values():
            if kind == 'angle' and a.trig is not None and ('q', a.id) not in self.seen \
                    and a.z.get_id() in self.seen and a.trig[0].z.get_id() in self.seen:
                self.seen.add(('q', a.id))
                out.append(core.quadrant_axioms(a))
        return out

    def axiom(self, key, e):
        if key not in self.seen:
            self.seen.add(key)
            self._addax(e)
            self.solver.add(e)

    def _addax(self, e):
        for x in self.axioms_of([e]):
            self.solver.add(x)

    def check_sat(self, extra=(), timeout=None, need_model=False, quick=False):
        """-> 'sat' / 'unsat' / 'unknown' of pc + extra"""
        extra = [zbool(e) for e in extra]
        for e in extra:
            self._addax(e)
        t0 = time.time()
        if DEADLINE[0] is not None and t0 > DEADLINE[0]:
            raise Inconclusive('time budget of the harness used up')
        STATS.queries += 1
        s = self.solver
        s.push()
        for e in extra:
            s.add(e)
        r = s.check()
        self.model = s.model() if r == z3.sat else None
        asserts = list(s.assertions()) if r == z3.unknown else None
        s.pop()
        if r == z3.unknown and not quick:
            tmo = int((timeout or self.timeout) * 1000)
            for mkS in (lambda: z3.Then('simplify', 'propagate-values', 'solve-eqs', 'qfnra-nlsat').solver(),
                        lambda: z3.Solver(),
                        lambda: z3.SolverFor('QF_NRA')):
                f = mkS()
                f.set('timeout', tmo)
                for a in asserts:
                    f.add(a)
                try:
                    r = f.check()
                except z3.Z3Exception:
                    r = z3.unknown
                if r != z3.unknown:
                    self.model = f.model() if r == z3.sat else None
                    break
        dt = time.time() - t0
        STATS.solver_s += dt
        STATS.slowest = max(STATS.slowest, dt)
        if r == z3.sat:
            STATS.sat += 1
            return 'sat'
        if r == z3.unsat:
            STATS.unsat += 1
            return 'unsat'
        STATS.unknown += 1
        return 'unknown'

    def feasible(self, c):
        if isinstance(c, bool):
            return c
        k = (c.get_id(), len(self.pc))
        r = self.fcache.get(k)
        if r is None:
            self.kept.append(c)
            r = self.check_sat([c], timeout=2) != 'unsat'
            self.fcache[k] = r
        return r

    def assume_z(self, c):
        if isinstance(c, bool):
            if not c:
                raise Infeasible()
            return
        self._addax(c)
        self.pc.append(c)
        self.solver.add(c)
        self._fact(c, True)

    def _fact(self, c, v):
        if z3.is_not(c):
            return self._fact(c.arg(0), not v)
        if (v and z3.is_and(c)) or (not v and z3.is_or(c)):
            for x in c.children():
                self._fact(x, v)
            return
        self.kept.append(c)
        self.facts[c.get_id()] = v
        if not v and (z3.is_le(c) or z3.is_ge(c)):
            o = (c.arg(0) >= c.arg(1)) if z3.is_le(c) else (c.arg(0) <= c.arg(1))
            self.kept.append(o)
            self.facts[o.get_id()] = True

    def known(self, c):
        """a condition already decided on this path"""
        if z3.is_not(c):
            v = self.facts.get(c.arg(0).get_id())
            return c if v is None else not v
        v = self.facts.get(c.get_id())
        return c if v is None else v

    def fork(self, c):
        if isinstance(c, bool):
            return c
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append(v)
            self.assume_z(c if v else znot(c))
            return v
        t = self.feasible(c)
        f = self.feasible(znot(c)) if t else True
        if t and f:
            STATS.forks += 1
            self.pending.append(self.decisions + [False])
            v = True
        else:
            v = t
        self.pos += 1
        self.prefix.append(v)
        self.decisions.append(v)
        self.assume_z(c if v else znot(c))
        return v

    def fork_value(self, x, limit=600):
        """enumerate the feasible values of an integer, one path each"""
        lo, hi = x.bounds()
        if lo is not None and lo == hi:
            return int(lo)
        for _ in range(limit):
            if self.pos < len(self.prefix) and isinstance(self.prefix[self.pos], tuple):
                v = self.prefix[self.pos][1]
                self.pos += 1
                self.decisions.append(('v', v))
            else:
                # (a formula that mentions x, so that its axioms are there)
                r = self.check_sat([z3.Or(x.z >= 0, x.z < 0)])
                if r == 'unsat':
                    raise Infeasible()
                if r != 'sat':
                    raise Inconclusive('no value for an index')
                v = self.model.eval(x.z, model_completion=True).as_long()
                self.pos += 1
                self.prefix.append(('v', v))
                self.decisions.append(('v', v))
            c = as_boolz(x == v)
            if self.fork(c):
                return v
        raise Inconclusive('too many index values')

    def concretize(self, x, why):
        """under-approximation: pin a value (recorded)"""
        STATS.concretized.append(why)
        if self.check_sat([]) != 'sat':
            raise Inconclusive('concretize')
        if isinstance(x, SymNum):
            if x.nan is not False:
                if z3.is_true(self.model.eval(zbool(x.nan), model_completion=True)):
                    self.assume_z(x.nan)
                    return math.nan
                self.assume_z(znot(x.nan))
                if self.check_sat([]) != 'sat':
                    raise Inconclusive('concretize')
            v = z3val(self.model.eval(x.z, model_completion=True))
            self.assume_z(as_boolz(SymNum(x.p, x.isint) == (v if x.isint else SymNum({(): v}))))
            return int(v) if x.isint else float(v)
        if isinstance(x, SymBool):
            return self.fork(x.z)
        if isinstance(x, SymComplex):
            return complex(self.concretize(num(x.re), why), self.concretize(num(x.im), why))
        return x

    def fresh(self, name):
        n = self.counters.get(name, 0)
        self.counters[name] = n + 1
        return '%s!%d' % (name, n)

    def note_axiom_deps(self, *a):
        pass

    # -- inputs ---------------------------------------------------------------
    def real(self, name, lo=-10, hi=10, nan=False):
        a = atom_of(z3.Real(name), False, None if lo is None else toq(lo),
                    None if hi is None else toq(hi), name)
        a.inp = True
        self.inputs[name] = ('real', a)
        nz = False
        if nan:
            nz = z3.Bool(name + '?nan')
            self.inputs[name + '?nan'] = ('bool', nz)
        return SymNum({((a.id, 1),): 1}, False, nz)

    def int(self, name, lo, hi):
        a = atom_of(z3.Int(name), True, lo, hi, name)
        a.inp = True
        self.inputs[name] = ('int', a)
        return SymNum({((a.id, 1),): 1}, True)

    def bool(self, name):
        b = z3.Bool(name)
        self.inputs[name] = ('bool', b)
        return SymBool(b)

    def angle(self, name, lo=0, hi=360, nan=False):
        a = atom_of(z3.Real(name), False, toq(lo), toq(hi), name)
        a.inp = True
        a.deg = True
        core.make_trig(a)
        self.inputs[name] = ('angle', a)
        nz = False
        if nan:
            nz = z3.Bool(name + '?nan')
            self.inputs[name + '?nan'] = ('bool', nz)
        return SymNum({((a.id, 1),): 1}, False, nz)

    def array(self, x, dtype='float64'):
        from .array import SymArray
        o = np.empty(np.shape(x), dtype=object)
        if isinstance(x, np.ndarray):
            o[...] = x
        else:
            for ix in np.ndindex(*o.shape):
                y = x
                for i in ix:
                    y = y[i]
                o[ix] = y
        return SymArray(o, np.dtype(dtype))

    def bytes(self, name, n):
        from .symbytes import SymBytes
        return SymBytes([self.int('%s[%d]' % (name, i), 0, 255) for i in range(n)])

    def mkbytes(self, parts):
        from .symbytes import SymBytes
        out = []
        for p in parts:
            if isinstance(p, (bytes, bytearray)):
                out.extend(p)
            elif isinstance(p, SymBytes):
                out.extend(p.b)
            elif isinstance(p, (list, tuple)):
                out.extend(p)
            else:
                out.append(p)
        return SymBytes(out)

    def ite(self, c, a, b):
        return core.ite(c, a, b)

    def instant(self, day, us):
        """datetime us microseconds after the start of the (concrete) day"""
        from . import symdt
        return symdt.DT(day.toordinal(), us)

    def cos(self, d):
        return core.cos(num(d) * (math.pi / 180))

    def sin(self, d):
        return core.sin(num(d) * (math.pi / 180))

    def log(self, x):
        return core.log(x) if isinstance(x, SymNum) else math.log(x)

    def sqrt(self, x):
        return core.sqrt(x)

    def atan2d(self, y, x):
        return core.arctan2(num(y), num(x)) * (180 / math.pi)

    def floor(self, x):
        return core.floor(x)

    def isnan(self, x):
        return mkbool(nanz(x))

    def implies(self, a, b):
        a, b = as_boolz(a), as_boolz(b)
        return mkbool(zor(znot(a), b))

    def all(self, xs):
        return mkbool(zand(*[as_boolz(x) for x in _flat(xs)]))

    def not_(self, x):
        return (not x) if isinstance(x, (bool, np.bool_)) else ~x

    def any(self, xs):
        return mkbool(zor(*[as_boolz(x) for x in _flat(xs)]))

    def nsum(self, xs):
        t = 0
        for x in _flat(xs):
            t = t + x
        return t

    # -- assumptions and assertions -------------------------------------------
    def assume(self, c):
        for x in _flat(c):
            self.assume_z(as_boolz(x))
        if self.check_sat([]) == 'unsat':
            raise Infeasible()

    def violation(self, label, zcond, strong=()):
        """zcond: z3 condition of being wrong. strong: list of stronger
        conditions to try first (for a robust counterexample)"""
        STATS.asserts += 1
        self.reached[label] = self.reached.get(label, 0) + 1
        if zcond is False:
            # already decided by the normal form; still ask the solver once
            STATS.normal += 1
            zcond = z3.BoolVal(False)
        if zcond is True:
            zcond = z3.BoolVal(True)
        new = label not in self.listed
        if new and self.first_cand and (self.ncand >= 3 or time.time() - self.first_cand > 5):
            return None      # the path is already known to be in violation
        r = self.check_sat([zcond], quick=True)
        models = []
        if r == 'unknown':
            # a counterexample among concrete inputs?
            vals = self.probe() if new and self.probe else None
            if vals:
                self.cands.append((label, [vals], list(self.decisions), zcond))
                self.first_cand, self.ncand = 1, 3
                return False
            for k in range(2):
                if self.check_sat([zcond] + self.pins(k), quick=True, timeout=5) == 'sat':
                    models.append(self.model_variants())
                    r = 'sat'
                    break
            else:
                r = self.check_sat([zcond])
        if r == 'unsat':
            return True
        if r == 'unknown':
            self.unknowns.append(label)
            return None
        for st in () if models else strong:
            if self.check_sat([zcond, st], timeout=5) == 'sat':
                models.append(self.model_variants())
                break
        if not models:
            self.check_sat([zcond])
            if self.model is not None:
                models.append(self.model_variants())
        if new:
            self.first_cand = self.first_cand or time.time()
            self.ncand += 1
        for m in models:
            self.cands.append((label, m, list(self.decisions), zcond))
        return False

    def check(self, label, cond):
        for i, c in enumerate(_flat(cond)):
            z = as_boolz(c)
            if z is None:
                z = core.truthz(c)
            self.obs.append((label, mkbool(z)))
            if not self.violation(label, znot(z)):
                break

    def close(self, label, a, b, tol=1e-6, rel=0.0, nan=True, bounds=None):
        """elementwise |a-b| <= tol, NaN in the same places"""
        fa, fb = _flat(a), _flat(b)
        sa, sb = _shape(a), _shape(b)
        if sa != sb and sa != () and sb != ():
            self.check(label + ': shape', False)
            return
        if len(fa) != len(fb):
            if len(fb) == 1:
                fb = fb * len(fa)
            elif len(fa) == 1:
                fa = fa * len(fb)
        bad, strong = [], []
        for x, y in zip(fa, fb):
            self.obs.append((label, x))
            if isinstance(x, (SymComplex, complex, np.complexfloating)) or \
                    isinstance(y, (SymComplex, complex, np.complexfloating)):
                cx_, cy = core.to_complex(x), core.to_complex(y)
                if cx_ is None or cy is None:
                    bad.append(True)
                    continue
                pairs = [(cx_.re, cy.re), (cx_.im, cy.im)]
            else:
                pairs = [(x, y)]
            for u, v in pairs:
                w, st = neq_cond(u, v, tol, rel)
                if w is not False:
                    bad.append(w)
                    strong.append(st)
        if len(bad) > 1 and any(not isinstance(b, bool) for b in bad):
            # one query for all elements first
            STATS.asserts += 0
        self.violation(label, zor(*bad) if bad else False,
                       [zor(*strong)] if strong else [])

    def equal(self, label, a, b):
        self.close(label, a, b, tol=0)

    def note(self, label, x):
        for y in _flat(x):
            self.obs.append((label, y))

    def raises(self, label, exc, fn, *a, **k):
        try:
            fn(*a, **k)
        except exc:
            self.check(label, True)
            return True
        self.check(label, False)
        return False

    # -- models ---------------------------------------------------------------
    def pins(self, k):
        """one concrete choice of the real and integer inputs"""
        import random
        rnd = random.Random(k)
        out = []
        for name, (kind, a) in self.inputs.items():
            if kind == 'real':
                lo = a.lo if a.lo is not None else -10
                hi = a.hi if a.hi is not None else 10
                out.append(a.z == core.zq(lo + (hi - lo) * core.Fraction(rnd.randrange(3, 98), 100)))
            elif kind == 'int':
                out.append(a.z == rnd.randint(int(a.lo), int(a.hi)))
            elif kind == 'angle':
                lo, hi = float(a.lo), float(a.hi)
                d = lo + (hi - lo) * rnd.randrange(3, 98) / 100
                t = core.Fraction(math.tan(math.radians(d / 2))).limit_denominator(50)
                c, s = (1 - t * t) / (1 + t * t), 2 * t / (1 + t * t)
                e = math.degrees(math.atan2(float(s), float(c)))
                e += 360 * round((d - e) / 360)
                out += [a.trig[0].z == core.zq(c), a.trig[1].z == core.zq(s),
                        a.z > core.zq(core.toq(e - 1e-7)), a.z < core.zq(core.toq(e + 1e-7))]
        return out

    def model_variants(self):
        """input values of the current model; then the same with bytes that encode the floats the
        model chose (the decoding of a float is uninterpreted in the query), then with typical floats"""
        import struct
        vals = self.input_values(self.model)
        groups = []
        for at in list(core._atoms.values()):
            d = at.defn
            if not (isinstance(d, tuple) and d and d[0] in ('f32', 'f64')):
                continue
            n = 4 if d[0] == 'f32' else 8
            by = {}
            for mono, c in d[1].items():
                if len(mono) == 1 and mono[0][1] == 1:
                    by[c] = core._atoms[mono[0][0]].name
            names = [by.get(256 ** k) for k in range(n)]
            if len(d[1]) == n and all(x in vals for x in names):
                r = float(z3val(self.model.eval(at.z, model_completion=True)))
                groups.append((n, names, r))
        out = [vals]
        if groups:
            for f in (lambda i, r: r, lambda i, r: r if r else 1.5 + i, lambda i, r: (1.25 + i) * (-1) ** i,
                      lambda i, r: 40.5 + i):
                v = dict(vals)
                for i, (n, names, r) in enumerate(groups):
                    try:
                        b = struct.pack('<f' if n == 4 else '<d', f(i, r))
                    except OverflowError:
                        continue
                    for x, y in zip(names, b):
                        v[x] = y
                out.append(v)
        return out

    def input_values(self, m):
        out = {}
        for name, (kind, a) in self.inputs.items():
            if kind != 'bool' and a.z.get_id() not in self.seen and a.trig is None and a.lo is not None \
                    and a.hi is not None:
                # unconstrained by any query: any value in range will do
                out[name] = int((a.lo + a.hi) // 2) if kind == 'int' else float((a.lo + a.hi) / 2)
                continue
            if kind == 'bool':
                out[name] = z3.is_true(m.eval(a, model_completion=True))
            elif kind == 'int':
                out[name] = int(m.eval(a.z, model_completion=True).as_long())
            elif kind == 'real':
                out[name] = float(z3val(m.eval(a.z, model_completion=True)))
            elif kind == 'angle':
                D = float(z3val(m.eval(a.z, model_completion=True)))
                c, s = a.trig
                # NB: model completion must not be used to invent c, s
                used = a.trig[0].z.get_id() in self.seen or a.trig[1].z.get_id() in self.seen
                if not used and a.z.get_id() not in self.seen:
                    D = round(float(a.lo) + 0.37 * float(a.hi - a.lo), 3)
                if used:
                    cv = float(z3val(m.eval(c.z, model_completion=True)))
                    sv = float(z3val(m.eval(s.z, model_completion=True)))
                    T = math.degrees(math.atan2(sv, cv))
                    lo, hi = float(a.lo), float(a.hi)
                    while T < lo:
                        T += 360
                    while T > hi:
                        T -= 360
                    if T < lo:
                        T = D
                    # several representatives: the one closest to D
                    best = T
                    t = T
                    while t + 360 <= hi:
                        t += 360
                        if abs(t - D) < abs(best - D):
                            best = t
                    D = best
                out[name] = D
        return out


def _shape(x):
    if hasattr(x, 'shape'):
        return tuple(x.shape)
    if isinstance(x, (list, tuple)):
        return (len(x),) + (_shape(x[0]) if len(x) else ())
    return ()


def _flat(x):
    from .array import SymArray
    if hasattr(x, 'values') and hasattr(x, 'dims'):
        x = x.data
    if isinstance(x, SymArray):
        return list(x.a.ravel())
    if isinstance(x, np.ndarray):
        return list(x.ravel())
    if isinstance(x, (list, tuple)):
        out = []
        for y in x:
            out.extend(_flat(y))
        return out
    return [x]


def clean_diff(p, q, tol=None):
    """p - q with coefficients that are only float rounding removed"""
    d = padd(p, q, -1)
    if not d:
        return d
    mx = max([abs(c) for c in p.values()] + [abs(c) for c in q.values()] + [0])
    out = {}
    for m, c in d.items():
        ref = max(abs(p.get(m, 0)), abs(q.get(m, 0)))
        if abs(c) <= Fraction(1, 10**9) * ref:
            continue
        if abs(c) <= Fraction(1, 10**12) * mx:
            lo, hi = core.pbounds({m: c}) if tol else (None, None)
            if lo is None or hi is None or max(-lo, hi) <= tol / 1000:
                continue
        out[m] = c
    return out


def clear_inverses(d):
    """d times positive powers of its inverted denominators; {} when d is zero
    wherever all denominators are nonzero"""
    for _ in range(12):
        best = None
        for m in d:
            for i, e in m:
                a = core._atoms[i]
                if a.defn is not None and a.defn != 'skip' and a.defn[0] == 'inv' and (best is None or i > best):
                    best = i
        if best is None:
            return d
        P = core._atoms[best].defn[1]
        if len(P) * len(d) > 60000:
            return None
        k = max(e for m in d for i, e in m if i == best)
        parts = [dict() for _ in range(k + 1)]
        for m, c in d.items():
            e = 0
            rest = []
            for i, x in m:
                if i == best:
                    e = x
                else:
                    rest.append((i, x))
            parts[k - e][tuple(rest)] = c
        acc = {}
        pw = {(): 1}
        mx = 0
        for j in range(k + 1):
            if parts[j]:
                t = core.pmul(parts[j], pw)
                mx = max([mx] + [abs(c) for c in t.values()])
                acc = padd(acc, t)
            if j < k:
                pw = core.pmul(pw, P)
        d = {m: c for m, c in acc.items() if abs(c) > Fraction(1, 10**11) * mx}
        if not d:
            return {}
    return None


def neq_cond(u, v, tol, rel=0.0):
    """z3/py condition that u and v differ (NaN pattern or value)"""
    for t in (u, v):
        if t is None or isinstance(t, (str, bytes)):
            return (u != v), (u != v)
    zu, zv = as_boolz(u), as_boolz(v)
    if zu is not None and zv is not None and not (isinstance(zu, bool) and isinstance(zv, bool)):
        w = zite(zu, znot(zv), zv)
        return w, w
    if hasattr(u, 'dtype') and getattr(u, 'dtype').kind in 'Mm':
        u = int(np.asarray(u).astype('int64'))
    if hasattr(v, 'dtype') and getattr(v, 'dtype').kind in 'Mm':
        v = int(np.asarray(v).astype('int64'))
    if not is_sym(u) and not is_sym(v):
        w = not conc_close(u, v, tol, rel)
        return w, w
    a, b = num(u), num(v)
    if core.isinfc(a) or core.isinfc(b):
        if core.isinfc(a) and core.isinfc(b):
            return a != b, a != b
        return True, True
    na, nb = nanz(a), nanz(b)
    nandiff = zite(na, znot(nb), nb)
    if core.isnanc(a) or core.isnanc(b):
        return nandiff, nandiff
    exact = (a.isint and b.isint) or tol == 0
    d = padd(a.p, b.p, -1) if exact and a.isint and b.isint else clean_diff(a.p, b.p, tol)
    if d and pconst(d) is None and not (a.isint and b.isint) and clear_inverses(d) == {}:
        d = {}
    c = pconst(d)
    bothval = zand(znot(na), znot(nb))
    if c is not None:
        t = 0 if (a.isint and b.isint) else toq(tol)
        ref = 0
        if rel:
            ref = rel * max(abs(float(a.const() or 0)), abs(float(b.const() or 0)))
        val = abs(c) > t + ref
        st = val
    else:
        dz = poly_z(d, a.isint and b.isint)
        if a.isint and b.isint:
            val = dz != 0
            st = val
        else:
            t = zq(toq(tol))
            if rel:
                r = zq(toq(rel)) * poly_z(b.p, False)
                val = z3.Or(z3.And(dz > t + r, dz > t - r), z3.And(-dz > t + r, -dz > t - r))
            else:
                val = z3.Or(dz > t, dz < -t)
            t2 = zq(max(toq(tol) * 1000, Fraction(1, 100)))
            st = z3.Or(dz > t2, dz < -t2)
    w = zor(nandiff, zand(bothval, val))
    s = zor(nandiff, zand(bothval, st))
    return w, s


def conc_close(u, v, tol, rel=0.0):
    try:
        if isinstance(u, (bool, np.bool_)) and isinstance(v, (bool, np.bool_)):
            return bool(u) == bool(v)
        cu, cv = complex(u), complex(v)
    except TypeError:
        return u == v
    for x, y in ((cu.real, cv.real), (cu.imag, cv.imag)):
        if x != x or y != y:
            if not (x != x and y != y):
                return False
            continue
        if math.isinf(x) or math.isinf(y):
            if x != y:
                return False
            continue
        if abs(x - y) > tol + rel * max(abs(x), abs(y)) + 1e-9 * max(abs(x), abs(y)):
            return False
    return True


class ConcCtx(Base):
    """runs the same harness on the real, unpatched code with given inputs"""
    sym = False

    def __init__(self, values, seed=0):
        self.values = values
        self.fails = []
        self.obs = []
        self.rng = random.Random(seed)
        self.assumed = True
        self.reached = {}

    def _get(self, name, default):
        if name not in self.values:
            self.values[name] = default()
        return self.values[name]

    def real(self, name, lo=-10, hi=10, nan=False):
        lo_ = -1e3 if lo is None else lo
        hi_ = 1e3 if hi is None else hi
        v = self._get(name, lambda: self.rng.uniform(float(lo_), float(hi_)))
        if nan and self._get(name + '?nan', lambda: self.rng.random() < .2):
            return math.nan
        return float(v)

    def int(self, name, lo, hi):
        return int(self._get(name, lambda: self.rng.randint(lo, hi)))

    def bool(self, name):
        return bool(self._get(name, lambda: self.rng.random() < .5))

    def angle(self, name, lo=0, hi=360, nan=False):
        v = self._get(name, lambda: self.rng.uniform(float(lo), float(hi)))
        if nan and self._get(name + '?nan', lambda: self.rng.random() < .2):
            return math.nan
        return float(v)

    def array(self, x, dtype='float64'):
        if isinstance(x, np.ndarray) and x.dtype == object:
            return np.array(x.tolist(), dtype=dtype) if x.size else np.zeros(x.shape, dtype)
        return np.array(x, dtype=dtype)

    def bytes(self, name, n):
        return bytes([self.int('%s[%d]' % (name, i), 0, 255) for i in range(n)])

    def mkbytes(self, parts):
        out = bytearray()
        for p in parts:
            if isinstance(p, int):
                out.append(p)
            else:
                out.extend(p)
        return bytes(out)

    def ite(self, c, a, b):
        return a if c else b

    def instant(self, day, us):
        import datetime
        return day + datetime.timedelta(microseconds=us)

    def cos(self, d):
        return math.cos(math.radians(d))

    def sin(self, d):
        return math.sin(math.radians(d))

    def log(self, x):
        return math.log(x)

    def sqrt(self, x):
        return math.sqrt(x) if x >= 0 else math.nan

    def atan2d(self, y, x):
        return math.degrees(math.atan2(y, x))

    def floor(self, x):
        return math.floor(x)

    def isnan(self, x):
        return bool(x != x)

    def implies(self, a, b):
        return (not a) or bool(b)

    def all(self, xs):
        return all(bool(x) for x in _flat(xs))

    def not_(self, x):
        return not x

    def any(self, xs):
        return any(bool(x) for x in _flat(xs))

    def nsum(self, xs):
        t = 0
        for x in _flat(xs):
            t = t + x
        return t

    def assume(self, c):
        for x in _flat(c):
            if not bool(x):
                self.assumed = False
                raise Infeasible()

    def check(self, label, cond):
        self.reached[label] = self.reached.get(label, 0) + 1
        fl = _flat(cond)
        if label.endswith(': shape'):
            pass
        for c in fl:
            self.obs.append((label, bool(c)))
        if not all(bool(c) for c in fl):
            self.fails.append((label, 'false'))

    def close(self, label, a, b, tol=1e-6, rel=0.0, nan=True, bounds=None):
        self.reached[label] = self.reached.get(label, 0) + 1
        fa, fb = _flat(a), _flat(b)
        sa, sb = _shape(a), _shape(b)
        if sa != sb and sa != () and sb != ():
            self.fails.append((label, 'shape %s != %s' % (sa, sb)))
            return
        if len(fa) != len(fb):
            if len(fb) == 1:
                fb = fb * len(fa)
            elif len(fa) == 1:
                fa = fa * len(fb)
        for x, y in zip(fa, fb):
            if hasattr(x, 'dtype') and x.dtype.kind in 'Mm':
                x = int(x.astype('int64'))
            if hasattr(y, 'dtype') and y.dtype.kind in 'Mm':
                y = int(y.astype('int64'))
            self.obs.append((label, x))
            if x is None or y is None or isinstance(x, (str, bytes)) or isinstance(y, (str, bytes)):
                ok = x == y
            else:
                ok = conc_close(x, y, tol * .5, rel)
            if not ok:
                self.fails.append((label, 'got %r expected %r' % (x, y)))

    def equal(self, label, a, b):
        self.close(label, a, b, tol=0)

    def note(self, label, x):
        for y in _flat(x):
            self.obs.append((label, y))

    def raises(self, label, exc, fn, *a, **k):
        try:
            fn(*a, **k)
        except exc:
            self.check(label, True)
            return True
        self.check(label, False)
        return False


# ------------------------------------------------------- numeric evaluation

class Evaluator:
    """evaluate symbolic values under concrete inputs, independent of z3"""

    def __init__(self, cx, values):
        self.cx = cx
        self.v = values
        self.memo = {}
        self.env = {}
        for name, (kind, a) in cx.inputs.items():
            if kind == 'bool':
                self.env[a.get_id()] = bool(values[name])
            else:
                x = values[name]
                self.env[a.z.get_id()] = int(x) if kind == 'int' else float(x)
                if a.trig is not None:
                    r = math.radians(x)
                    self.env[a.trig[0].z.get_id()] = math.cos(r)
                    self.env[a.trig[1].z.get_id()] = math.sin(r)

    def atom(self, a):
        k = a.z.get_id()
        if k in self.env:
            return self.env[k]
        d = a.defn
        if a.ite is not None:
            c, x, y = a.ite
            v = self.poly(x.p) if self.z(c) else self.poly(y.p)
        elif d is None:
            # trig atom of a derived angle?
            raise KeyError(a.name)
        elif d[0] == 'inv':
            q = self.poly(d[1])
            v = 1.0 / q if q else 0.0
        elif d[0] == 'sqrt':
            q = self.poly(d[1])
            v = math.sqrt(max(q, 0.0))
        elif d[0] == 'root':
            q = self.poly(d[2])
            v = abs(q) ** (1.0 / d[1]) * (1 if q >= 0 else -1)
        elif d[0] == 'floor':
            v = math.floor(self.poly(d[1]))
        elif d[0] in ('halfc', 'halfs'):
            v = self.atom(d[1])
            v = (math.radians(v) if d[2] else v) / 2
            v = math.cos(v) if d[0] == 'halfc' else math.sin(v)
        elif d[0] in ('cosk', 'sink'):
            v = (math.cos if d[0] == 'cosk' else math.sin)(self.atom(d[1]) * d[2])
        elif d[0] == 'round':
            v = self.poly(d[1])
            v = round(v, d[2]) - v
        elif d[0] == 'div':
            v = self.poly(d[1]) // d[2]
        elif d[0] == 'fn':
            q = self.poly(d[2])
            v = {'exp': math.exp, 'log': lambda x: math.log(x) if x > 0 else 0.0}[d[1]](q)
        elif d[0] in ('f32', 'f64'):
            import struct
            n = 4 if d[0] == 'f32' else 8
            v = struct.unpack('<f' if n == 4 else '<d', int(self.poly(d[1])).to_bytes(n, 'little'))[0]
        elif d[0] == 'atan2':
            v = math.atan2(self.poly(d[1]), self.poly(d[2]))
        elif d[0] == 'asin':
            v = math.asin(max(-1, min(1, self.poly(d[1]))))
        else:
            raise KeyError(str(d))
        self.env[k] = v
        if a.trig is not None:
            vr = math.radians(v) if a.deg else v
            self.env[a.trig[0].z.get_id()] = math.cos(vr)
            self.env[a.trig[1].z.get_id()] = math.sin(vr)
        return v

    def resolve_trig(self):
        for a in list(core._atoms.values()):
            if a.trig is not None and a.z.get_id() not in self.env:
                try:
                    self.atom(a)
                except KeyError:
                    pass

    def poly(self, p):
        t = 0
        for m, c in p.items():
            x = c if isinstance(c, int) else float(c)
            for i, e in m:
                x = x * self.atom(core._atoms[i]) ** e
            t = t + x
        return t

    def z(self, e):
        if isinstance(e, bool):
            return e
        k = e.get_id()
        if k in self.env:
            return self.env[k]
        if k in self.memo:
            return self.memo[k][0]
        a = core._zatoms.get(k)
        if a is not None:
            v = self.atom(a)
        else:
            v = self._z(e)
        self.memo[k] = (v, e)
        return v

    def _z(self, e):
        kd = e.decl().kind()
        if kd == z3.Z3_OP_ITE:
            return self.z(e.arg(1)) if self.z(e.arg(0)) else self.z(e.arg(2))
        if kd == z3.Z3_OP_AND:
            return all(self.z(x) for x in e.children())
        if kd == z3.Z3_OP_OR:
            return any(self.z(x) for x in e.children())
        if kd == z3.Z3_OP_NOT:
            return not self.z(e.arg(0))
        if kd == z3.Z3_OP_IMPLIES:
            return (not self.z(e.arg(0))) or self.z(e.arg(1))
        if z3.is_int_value(e) or z3.is_rational_value(e):
            v = z3val(e)
            return v if isinstance(v, int) else float(v)
        if kd == z3.Z3_OP_TRUE:
            return True
        if kd == z3.Z3_OP_FALSE:
            return False
        ch = [self.z(x) for x in e.children()]
        if kd == z3.Z3_OP_ADD:
            return sum(ch)
        if kd == z3.Z3_OP_SUB:
            r = ch[0]
            for x in ch[1:]:
                r -= x
            return r
        if kd == z3.Z3_OP_UMINUS:
            return -ch[0]
        if kd == z3.Z3_OP_MUL:
            r = ch[0]
            for x in ch[1:]:
                r = r * x
            return r
        if kd == z3.Z3_OP_DIV:
            return ch[0] / ch[1]
        if kd == z3.Z3_OP_IDIV:
            return ch[0] // ch[1]
        if kd == z3.Z3_OP_MOD:
            return ch[0] % ch[1]
        if kd == z3.Z3_OP_TO_REAL:
            return ch[0]
        if kd == z3.Z3_OP_TO_INT:
            return math.floor(ch[0])
        if kd == z3.Z3_OP_IS_INT:
            return float(ch[0]).is_integer()
        if kd == z3.Z3_OP_LE:
            return ch[0] <= ch[1]
        if kd == z3.Z3_OP_GE:
            return ch[0] >= ch[1]
        if kd == z3.Z3_OP_LT:
            return ch[0] < ch[1]
        if kd == z3.Z3_OP_GT:
            return ch[0] > ch[1]
        if kd == z3.Z3_OP_EQ:
            return ch[0] == ch[1]
        if kd == z3.Z3_OP_DISTINCT:
            return ch[0] != ch[1]
        if kd == z3.Z3_OP_XOR:
            return ch[0] != ch[1]
        raise KeyError('eval %s' % e.decl())

    def val(self, x):
        if isinstance(x, SymBool):
            return self.z(x.z)
        if isinstance(x, SymNum):
            if x.nan is not False and self.z(zbool(x.nan)):
                return math.nan
            return self.poly(x.p)
        if isinstance(x, SymComplex):
            return complex(self.val(x.re), self.val(x.im))
        return x
