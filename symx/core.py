"""Symbolic scalars.

A symbolic number is a polynomial (exact rational coefficients) over *atoms*;
an atom is a z3 variable or a z3 term that is not polynomial (an if-then-else,
an integer quotient, a square root, ...).  Polynomials are kept in normal form
modulo the rewrite rules attached to atoms (sin^2 -> 1 - cos^2, sqrt(p)^2 -> p),
so that algebraic identities become syntactic before they reach the solver.
"""
import math
import itertools
from fractions import Fraction
import numpy as np
import z3

NANF = float('nan')
PI = math.pi


class Unsupported(Exception):
    """An operation the symbolic engine has no encoding for."""


class PathAbort(BaseException):
    """The current path is infeasible / cut."""


class Infeasible(PathAbort):
    pass


class Inconclusive(Exception):
    """The solver answered unknown, or a bound of the exploration was hit."""


# ---------------------------------------------------------------- booleans

def is_zb(x):
    return isinstance(x, z3.BoolRef)


def znot(a):
    if isinstance(a, np.bool_):
        a = bool(a)
    if isinstance(a, bool):
        return not a
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def zand(*xs):
    out = []
    for a in xs:
        if isinstance(a, bool):
            if not a:
                return False
        elif not any(a.eq(o) for o in out):
            out.append(a)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def zor(*xs):
    out = []
    for a in xs:
        if isinstance(a, bool):
            if a:
                return True
        elif not any(a.eq(o) for o in out):
            out.append(a)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def zbool(a):
    return z3.BoolVal(a) if isinstance(a, bool) else a


def zite(c, a, b):
    """boolean if-then-else"""
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, bool) and isinstance(b, bool):
        if a == b:
            return a
        return c if a else znot(c)
    if isinstance(a, bool):
        return zor(c, b) if a else zand(znot(c), b)
    if isinstance(b, bool):
        return zor(znot(c), a) if b else zand(c, a)
    if a.eq(b):
        return a
    return z3.If(c, a, b)


class SymBool:
    __slots__ = ('z', 'py')
    __array_priority__ = 1000

    def __init__(self, z, py=False):
        self.z = z
        self.py = py

    def __bool__(self):
        return ctx().fork(self.z)

    def __invert__(self):
        return mkbool(znot(self.z))

    def __and__(self, o):
        o = as_boolz(o)
        if o is None:
            return NotImplemented
        return mkbool(zand(self.z, o))
    __rand__ = __and__

    def __or__(self, o):
        o = as_boolz(o)
        if o is None:
            return NotImplemented
        return mkbool(zor(self.z, o))
    __ror__ = __or__

    def __xor__(self, o):
        o = as_boolz(o)
        if o is None:
            return NotImplemented
        return mkbool(zite(self.z, znot(o), o))
    __rxor__ = __xor__

    def num(self):
        return ite(self.z, 1, 0)

    def __eq__(self, o):
        b = as_boolz(o)
        if b is None:
            return self.num() == o
        return mkbool(zite(self.z, b, znot(b)))

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __add__(self, o): return self.num() + o
    def __radd__(self, o): return o + self.num()
    def __sub__(self, o): return self.num() - o
    def __rsub__(self, o): return o - self.num()
    def __mul__(self, o): return self.num() * o
    def __rmul__(self, o): return o * self.num()
    def __truediv__(self, o): return self.num() / o
    def __neg__(self): return -self.num()
    def __lt__(self, o): return self.num() < o
    def __gt__(self, o): return self.num() > o
    def __le__(self, o): return self.num() <= o
    def __ge__(self, o): return self.num() >= o

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import array
        return array.ufunc_dispatch(ufunc, method, inputs, kw)

    def __repr__(self):
        return 'SymBool(%s)' % str(self.z)[:80]

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def mkbool(z):
    if isinstance(z, np.bool_):
        return bool(z)
    if isinstance(z, bool):
        return z
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return SymBool(z)


def as_boolz(o):
    if isinstance(o, SymBool):
        return o.z
    if isinstance(o, (bool, np.bool_)):
        return bool(o)
    return None


def truthz(o):
    """z3/py boolean of the truth value of any scalar."""
    b = as_boolz(o)
    if b is not None:
        return b
    if isinstance(o, SymNum):
        r = o != 0
        return as_boolz(r)
    if isinstance(o, SymComplex):
        return zor(truthz(o.re), truthz(o.im))
    return bool(o)


# ------------------------------------------------------------------- atoms

class Atom:
    __slots__ = ('id', 'z', 'isint', 'sq', 'name', 'lo', 'hi', 'trig', 'ite',
                 'axioms', 'inp', 'defn', 'deg', 'trigp')
    _n = itertools.count(1)

    def __init__(self, z, isint=False, name=None, lo=None, hi=None):
        self.id = next(Atom._n)
        self.z = z
        self.isint = isint
        self.name = name
        self.lo = lo
        self.hi = hi
        self.sq = None       # Poly: replacement of atom**2
        self.trig = None     # (cos atom, sin atom) of an angle atom (degrees)
        self.ite = None      # (cond, SymNum a, SymNum b)
        self.axioms = []
        self.inp = False
        self.defn = None
        self.trigp = None    # exact polynomials for (cos, sin), when known


_atoms = {}          # id -> Atom
_zatoms = {}         # z3 ast id -> Atom (keeps the ast alive)


def reset_atoms():
    _atoms.clear()
    _zatoms.clear()


def atom_of(z, isint=False, lo=None, hi=None, name=None):
    k = z.get_id()
    a = _zatoms.get(k)
    if a is None:
        a = Atom(z, isint, name, lo, hi)
        _atoms[a.id] = a
        _zatoms[k] = a
    return a


ONE = ()


def padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + k * c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def pscale(p, k):
    if k == 0:
        return {}
    return {m: c * k for m, c in p.items()}


def mono_mul(a, b):
    """product of monomials (sorted tuples of (atom id, exponent))"""
    d = dict(a)
    for i, e in b:
        d[i] = d.get(i, 0) + e
    return d


def pmul(p, q):
    r = {}
    if len(p) * len(q) > 4000000:
        raise Inconclusive('polynomial too large')
    pend = []
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            c = c1 * c2
            if not m1:
                m = m2
            elif not m2:
                m = m1
            else:
                d = mono_mul(m1, m2)
                red = None
                for i, e in d.items():
                    if e >= 2 and _atoms[i].sq is not None:
                        red = i
                        break
                m = tuple(sorted(d.items()))
                if red is not None:
                    pend.append((m, c))
                    continue
            v = r.get(m, 0) + c
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
    if pend:
        for m, c in pend:
            r = padd(r, preduce(m, c))
    return r


_redcache = {}


def preduce(m, c):
    """c * monomial m reduced modulo the square rules"""
    out = {ONE: c}
    plain = []
    for i, e in m:
        sq = _atoms[i].sq
        if sq is not None and e >= 2:
            base = {ONE: 1}
            for _ in range(e // 2):
                base = pmul(base, sq)
            out = pmul(out, base)
            if e % 2:
                plain.append((i, 1))
        else:
            plain.append((i, e))
    if plain:
        out = pmul(out, {tuple(plain): 1})
    return out


def pconst(p):
    """value if constant else None"""
    if not p:
        return 0
    if len(p) == 1 and ONE in p:
        return p[ONE]
    return None


def toq(x):
    """exact rational of a python/numpy number (floats by their shortest decimal)"""
    if isinstance(x, (bool, np.bool_)):
        return int(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, Fraction):
        return x
    if isinstance(x, np.floating) and x.dtype.itemsize < 8:
        return Fraction(float(x)) if False else Fraction(repr(float(x)))
    f = float(x)
    if f == int(f) and abs(f) < 2**62:
        return int(f)
    return Fraction(repr(f))


def zq(c):
    if isinstance(c, int):
        return z3.RealVal(c)
    return z3.Q(c.numerator, c.denominator)


_zcache = {}


def atom_z(a, real):
    return z3.ToReal(a.z) if (a.isint and real) else a.z


def poly_z(p, isint):
    terms = []
    for m, c in p.items():
        fs = []
        for i, e in m:
            a = _atoms[i]
            t = atom_z(a, not isint)
            fs.extend([t] * e)
        if isint:
            if c != 1 or not fs:
                fs.insert(0, z3.IntVal(int(c)))
        else:
            if c != 1 or not fs:
                fs.insert(0, zq(c))
        t = fs[0]
        for f in fs[1:]:
            t = t * f
        terms.append(t)
    if not terms:
        return z3.IntVal(0) if isint else z3.RealVal(0)
    return terms[0] if len(terms) == 1 else z3.Sum(terms)


def pbounds(p):
    lo = hi = 0
    for m, c in p.items():
        l, h = 1, 1
        for i, e in m:
            a = _atoms[i]
            al, ah = a.lo, a.hi
            if al is None or ah is None:
                if len(m) == 1 and e == 1:
                    l, h = al, ah
                    break
                return None, None
            if e > 1:
                pl, ph = al ** e, ah ** e
                if e % 2 == 0:
                    al, ah = (0 if al <= 0 <= ah else min(pl, ph)), max(pl, ph)
                else:
                    al, ah = pl, ph
            cs = [l * al, l * ah, h * al, h * ah]
            l, h = min(cs), max(cs)
        if c < 0:
            l, h = h, l
        lo = None if (lo is None or l is None) else lo + c * l
        hi = None if (hi is None or h is None) else hi + c * h
    return lo, hi


def _num(x):
    return isinstance(x, (int, float, np.integer, np.floating, bool, np.bool_, Fraction))


def isnanc(x):
    return isinstance(x, (float, np.floating)) and x != x


def isinfc(x):
    return isinstance(x, (float, np.floating)) and (x == math.inf or x == -math.inf)


class SymNum:
    __slots__ = ('p', 'nan', 'isint', '_z')
    __array_priority__ = 1000

    def __init__(self, p, isint=False, nan=False):
        self.p = p
        self.isint = isint
        self.nan = nan
        self._z = None

    # -- conversions
    @property
    def z(self):
        if self._z is None:
            self._z = poly_z(self.p, self.isint)
        return self._z

    @property
    def zr(self):
        return poly_z(self.p, False) if self.isint else self.z

    def bounds(self):
        return pbounds(self.p)

    def const(self):
        return pconst(self.p)

    def real_part(self):
        return SymNum(self.p, False, self.nan)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return 'Sym(%s%s)' % (pretty(self.p)[:120],
                              '' if self.nan is False else ', nan?')

    # -- arithmetic
    def _coerce(self, o):
        if isinstance(o, SymNum):
            return o
        if isinstance(o, SymBool):
            return o.num() if isinstance(o.num(), SymNum) else num(o.num())
        if _num(o):
            if isnanc(o) or isinfc(o):
                return o
            q = toq(o)
            return SymNum({ONE: q} if q != 0 else {},
                          isinstance(o, (int, np.integer, bool, np.bool_)))
        return None

    def __add__(self, o):
        if isinstance(o, (complex, np.complexfloating, SymComplex)):
            return to_complex(self) + o
        b = self._coerce(o)
        if b is None:
            return NotImplemented
        if isnanc(b):
            return NANF
        if isinfc(b):
            return ite(self.nan, NANF, float(b)) if self.nan is not False else float(b)
        return mk(padd(self.p, b.p), self.isint and b.isint, zor(self.nan, b.nan))
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, (complex, np.complexfloating, SymComplex)):
            return to_complex(self) - o
        b = self._coerce(o)
        if b is None:
            return NotImplemented
        if isnanc(b):
            return NANF
        if isinfc(b):
            return -b
        return mk(padd(self.p, b.p, -1), self.isint and b.isint, zor(self.nan, b.nan))

    def __rsub__(self, o):
        r = (-self).__add__(o)
        return r

    def __neg__(self):
        return SymNum(pscale(self.p, -1), self.isint, self.nan)

    def __pos__(self):
        return self

    def __abs__(self):
        lo, hi = self.bounds()
        if issos(self.p) or ispsd(self.p):
            return self
        if lo is not None and lo >= 0:
            return self
        if hi is not None and hi <= 0:
            return -self
        c = self >= 0
        return ite(as_boolz_nan(self, self.z >= 0), self, -self)

    def __mul__(self, o):
        if isinstance(o, (complex, np.complexfloating, SymComplex)):
            return to_complex(self) * o
        if isinstance(o, (list, tuple, str, bytes)):
            return o * self.__index__()
        b = self._coerce(o)
        if b is None:
            return NotImplemented
        if isnanc(b):
            return NANF
        if isinfc(b):
            raise Unsupported('sym * inf')
        r = iteprod(self, b)
        if r is not None:
            return r
        return mk(pmul(self.p, b.p), self.isint and b.isint, zor(self.nan, b.nan))
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, (complex, np.complexfloating, SymComplex)):
            return to_complex(self) / o
        b = self._coerce(o)
        if b is None:
            return NotImplemented
        if isnanc(b):
            return NANF
        if isinfc(b):
            return 0.0
        return divide(self, b)

    def __rtruediv__(self, o):
        if isinstance(o, (complex, np.complexfloating)):
            return SymComplex(o.real, o.imag) / self
        b = self._coerce(o)
        if b is None:
            return NotImplemented
        if isnanc(b):
            return NANF
        return divide(b, self)

    def __floordiv__(self, o):
        return floordiv(self, o)

    def __rfloordiv__(self, o):
        return floordiv(num(o), self)

    def __mod__(self, o):
        return mod(self, o)

    def __rmod__(self, o):
        if isinstance(o, str):
            return o % (repr(self),)
        return mod(num(o), self)

    def __divmod__(self, o):
        return floordiv(self, o), mod(self, o)

    def __rdivmod__(self, o):
        return floordiv(num(o), self), mod(num(o), self)

    def __pow__(self, o, m=None):
        return power(self, o)

    def __rpow__(self, o):
        if _num(o) and self.isint:
            return power(o, self.__index__())
        return power(o, self)

    # -- bit operations (ints)
    def __and__(self, o): return bitand(self, o)
    __rand__ = __and__
    def __or__(self, o): return bitor(self, o)
    __ror__ = __or__
    def __xor__(self, o): return bitxor(self, o)
    __rxor__ = __xor__
    def __invert__(self):
        return -self - 1

    def __lshift__(self, o):
        return self * (2 ** int(o))

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rshift__(self, o):
        return floordiv(self, 2 ** int(o))

    def __rrshift__(self, o):
        return o >> self.__index__()

    # -- comparison
    def _cmp(self, o, op):
        if isinstance(o, (complex, np.complexfloating, SymComplex)):
            if op == '==':
                return to_complex(self) == o
            if op == '!=':
                return to_complex(self) != o
        b = self._coerce(o)
        if b is None:
            return NotImplemented
        return compare(self, b, op)

    def __lt__(self, o): return self._cmp(o, '<')
    def __le__(self, o): return self._cmp(o, '<=')
    def __gt__(self, o): return self._cmp(o, '>')
    def __ge__(self, o): return self._cmp(o, '>=')
    def __eq__(self, o): return self._cmp(o, '==')
    def __ne__(self, o): return self._cmp(o, '!=')

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        c = self.const()
        if c is not None and self.nan is False:
            return hash(c if isinstance(c, int) else float(c))
        if self.isint:
            return hash(self.__index__())
        return hash(float(ctx().concretize(self, 'hash')))

    def __index__(self):
        if not self.isint:
            raise TypeError('symbolic float used as an index')
        c = self.const()
        if c is not None:
            return int(c)
        return ctx().fork_value(self)

    def __int__(self):
        if self.isint:
            return self.__index__()
        return trunc(self).__index__()

    def __trunc__(self):
        return trunc(self)

    def __floor__(self):
        return floor(self)

    def __ceil__(self):
        return -floor(-self)

    def __round__(self, nd=None):
        return rint(self) if not nd else rint(self * 10 ** nd) / 10 ** nd

    def __float__(self):
        c = self.const()
        if c is not None and self.nan is False:
            return float(c)
        return float(ctx().concretize(self, 'float()'))

    def __complex__(self):
        return complex(float(self))

    # -- numpy-scalar look-alike
    @property
    def real(self): return self

    @property
    def imag(self): return 0

    def conjugate(self): return self
    conj = conjugate

    def is_integer(self):
        return mkbool(zand(znot(self.nan), z3.IsInt(self.zr)))

    def item(self): return self

    def astype(self, t):
        from . import array
        return array.SymArray.scalar(self).astype(t)[()]

    @property
    def shape(self): return ()

    @property
    def ndim(self): return 0

    @property
    def size(self): return 1

    @property
    def dtype(self):
        return np.dtype(np.int64) if self.isint else np.dtype(np.float64)

    def __getitem__(self, i):
        from . import array
        return array.SymArray.scalar(self)[i]

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import array
        return array.ufunc_dispatch(ufunc, method, inputs, kw)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        from . import array
        if hasattr(array.SymArray, name):
            return getattr(array.SymArray.scalar(self), name)
        raise AttributeError(name)


def mk(p, isint, nan):
    if nan is True:
        return NANF
    return SymNum(p, isint, nan)


def num(x):
    """coerce a scalar to SymNum (or nan/inf float)"""
    if isinstance(x, SymNum):
        return x
    if isinstance(x, SymBool):
        return x.num()
    if isnanc(x) or isinfc(x):
        return float(x)
    q = toq(x)
    return SymNum({ONE: q} if q != 0 else {},
                  isinstance(x, (int, np.integer, bool, np.bool_)))


def pretty(p):
    if not p:
        return '0'
    out = []
    for m, c in list(p.items())[:12]:
        s = '*'.join((_atoms[i].name or ('a%d' % i)) + ('^%d' % e if e > 1 else '')
                     for i, e in m)
        cs = str(c) if isinstance(c, int) else '%.6g' % float(c)
        out.append(cs + ('*' + s if s else ''))
    return ' + '.join(out) + (' + ...' if len(p) > 12 else '')


def as_boolz_nan(x, z):
    return zand(znot(x.nan), z) if x.nan is not False else z


def compare(a, b, op):
    if isnanc(b) or isnanc(a):
        return op == '!='
    if isinfc(b):
        pos = b > 0
        r = {'<': pos, '<=': pos, '>': not pos, '>=': not pos,
             '==': False, '!=': True}[op]
        if a.nan is False:
            return r
        return mkbool(zor(a.nan, r)) if op == '!=' else mkbool(zand(znot(a.nan), r))
    nan = zor(a.nan, b.nan)
    d = padd(a.p, b.p, -1)
    c = pconst(d)
    if c is None:
        lo, hi = pbounds(d)
        r = None
        if op == '<':
            r = True if (hi is not None and hi < 0) else False if (lo is not None and lo >= 0) else None
        elif op == '<=':
            r = True if (hi is not None and hi <= 0) else False if (lo is not None and lo > 0) else None
        elif op == '>':
            r = True if (lo is not None and lo > 0) else False if (hi is not None and hi <= 0) else None
        elif op == '>=':
            r = True if (lo is not None and lo >= 0) else False if (hi is not None and hi < 0) else None
        elif (hi is not None and hi < 0) or (lo is not None and lo > 0):
            r = (op == '!=')
        if r is None:
            isint = a.isint and b.isint
            # canonical form: everything but the constant on the left, so that
            # the same comparison written two ways is one z3 term
            lhs = dict(d)
            c0 = lhs.pop(ONE, 0)
            if c0 == 0 and len(lhs) == 1:
                # sign of a product: positive factors do not matter
                (m1, k1), = lhs.items()
                m2 = tuple((i, e) for i, e in m1 if _atoms[i].lo is None or _atoms[i].lo <= 0)
                if m2 != m1 and m2:
                    lhs = {m2: k1}
            lead = min(lhs)
            k = lhs[lead]
            flip = k < 0
            if len(lhs) == 1 and len(lead) == 1 and lead[0][1] == 1 and not isint:
                at = _atoms[lead[0][0]]
                if at.trig is not None:
                    angle_threshold(at, -Fraction(c0) / Fraction(k))
            if isint:
                g = 0
                for v in lhs.values():
                    g = math.gcd(g, abs(int(v)))
                den = g if not flip else -g
                rhs = Fraction(-c0, den)
            else:
                den = k
                rhs = Fraction(-c0) / Fraction(den) if c0 else 0
            lhs = {m: (v // den if isint else Fraction(v) / Fraction(den)) for m, v in lhs.items()}
            o = op
            if flip:
                o = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}.get(op, op)
            if isint:
                fl = math.floor(rhs)
                exact = (rhs == fl)
                lz = poly_z(lhs, True)
                if o in ('==', '!='):
                    r = (o == '!=') if not exact else (
                        (lz == z3.IntVal(fl)) if o == '==' else z3.Not(lz == z3.IntVal(fl)))
                elif o == '<':
                    r = lz <= z3.IntVal(fl - 1 if exact else fl)
                elif o == '<=':
                    r = lz <= z3.IntVal(fl)
                elif o == '>':
                    r = z3.Not(lz <= z3.IntVal(fl))
                else:
                    r = z3.Not(lz <= z3.IntVal(fl - 1 if exact else fl))
            else:
                lz = poly_z(lhs, False)
                rz = zq(rhs if isinstance(rhs, int) else rhs)
                if o == '==':
                    r = lz == rz
                elif o == '!=':
                    r = z3.Not(lz == rz)
                elif o == '<':
                    r = z3.Not(lz >= rz)
                elif o == '<=':
                    r = lz <= rz
                elif o == '>':
                    r = z3.Not(lz <= rz)
                else:
                    r = lz >= rz
            if not isinstance(r, bool):
                r = ctx().known(r)
    else:
        r = {'<': c < 0, '<=': c <= 0, '>': c > 0, '>=': c >= 0,
             '==': c == 0, '!=': c != 0}[op]
    if nan is False:
        return mkbool(r)
    if op == '!=':
        return mkbool(zor(nan, r))
    return mkbool(zand(znot(nan), r))


def ite(c, a, b):
    """numeric if-then-else on scalars (python numbers / SymNum / SymComplex)"""
    if isinstance(c, SymBool):
        c = c.z
    if isinstance(c, (bool, np.bool_)):
        return a if c else b
    if isinstance(a, (SymComplex, complex, np.complexfloating)) or \
            isinstance(b, (SymComplex, complex, np.complexfloating)):
        ca, cb = to_complex(a), to_complex(b)
        return SymComplex(ite(c, ca.re, cb.re), ite(c, ca.im, cb.im))
    za, zb = as_boolz(a), as_boolz(b)
    if za is not None and zb is not None:
        return mkbool(zite(c, za, zb))
    if a is b:
        return a
    if isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)) or a is None or b is None:
        return a if ctx().fork(c) else b
    if isinfc(a) or isinfc(b):
        if (isinfc(a) and isinfc(b) and a == b):
            return a
        # infinities are not encoded: decide the condition on this path
        return a if ctx().fork(c) else b
    if isnanc(a) and isnanc(b):
        return a
    na, nb = num(a), num(b)
    if isnanc(na):
        return mk(nb.p, False, zor(c, nb.nan))
    if isnanc(nb):
        return mk(na.p, False, zor(znot(c), na.nan))
    nan = zite(c, na.nan, nb.nan)
    isint = na.isint and nb.isint
    if na.p == nb.p:
        return mk(na.p, isint, nan)
    # normalise if(not c, a, b)
    if z3.is_not(c):
        c = c.arg(0)
        na, nb = nb, na
    # constant-offset form: ite(c, a, b) = b + ite(c, a-b, 0)
    d = padd(na.p, nb.p, -1)
    dc = pconst(d)
    if dc is not None:
        ind = _ite_atom(c, SymNum({ONE: 1}, True), SymNum({}, True), True)
        return mk(padd(nb.p, {((ind.id, 1),): dc}), isint, nan)
    at = _ite_atom(c, na, nb, isint)
    return mk({((at.id, 1),): 1}, isint, nan)


def _ite_atom(c, na, nb, isint):
    zt = z3.If(c, na.z if isint else na.zr, nb.z if isint else nb.zr)
    new = zt.get_id() not in _zatoms
    at = atom_of(zt, isint)
    if new:
        la, ha = na.bounds()
        lb, hb = nb.bounds()
        at.lo = None if la is None or lb is None else min(la, lb)
        at.hi = None if ha is None or hb is None else max(ha, hb)
        at.ite = (c, na, nb)
        at.name = 'ite%d' % at.id
        if (na.const(), nb.const()) == (1, 0):
            at.sq = {((at.id, 1),): 1}
    return at


def iteprod(a, b):
    """0/1-indicator or two-branch products are pushed into the branches when
    the other factor is not constant"""
    return None


def fresh_real(name, lo=None, hi=None):
    n = ctx().fresh(name)
    a = atom_of(z3.Real(n), False, lo, hi, n)
    return a


def fresh_int(name, lo=None, hi=None):
    n = ctx().fresh(name)
    return atom_of(z3.Int(n), True, lo, hi, n)


def sym_of(atom):
    return SymNum({((atom.id, 1),): 1}, atom.isint)


_invcache = {}


def divide(a, b):
    c = b.const()
    nan = zor(a.nan, b.nan)
    if c is not None:
        if c == 0:
            ca = a.const()
            if ca == 0:
                return NANF
            if ca is not None and nan is False:
                return math.inf if ca > 0 else -math.inf
            return NANF          # +-inf is merged with nan (stated assumption)
        r = pscale(a.p, Fraction(1, 1) / c)
        return mk(norm(r), False, nan)
    # division by a symbolic denominator
    q, exact = pdivexact(a.p, b.p)
    zz = as_boolz(compare(SymNum(b.p, b.isint), num(0), '=='))
    if zz is not False and zz is not True and not ctx().feasible(zz):
        zz = False
    nan = zor(nan, zz)
    if exact:
        return mk(q, False, nan)
    inv = inverse_atom(b.p, zz)
    return mk(pmul(a.p, {((inv.id, 1),): 1}), False, nan)


def norm(p):
    out = {}
    for m, c in p.items():
        if isinstance(c, Fraction) and c.denominator == 1:
            c = int(c)
        out[m] = c
    return out


def pkey(p):
    return tuple(sorted(p.items()))


def inverse_atom(p, zz):
    # normalise leading coefficient so that 1/(2x) and 1/x share an atom? keep simple
    k = ('inv', pkey(p))
    at = ctx().memo.get(k)
    if at is None:
        # product form: 1/(c*m) for a single monomial
        at = fresh_real('inv')
        zp = poly_z(p, False)
        ax = at.z * zp == 1
        if zz is not False:
            ax = z3.Implies(z3.Not(zbool(zz)), ax)
        at.axioms.append(ax)
        lo, hi = pbounds(p)
        if lo is not None and lo > 0:
            at.hi = Fraction(1) / lo
            at.lo = 0 if hi is None else Fraction(1) / hi
        elif hi is not None and hi < 0:
            at.lo = Fraction(1) / hi
            at.hi = 0 if lo is None else Fraction(1) / lo
        at.defn = ('inv', p)
        ctx().memo[k] = at
    return at


def pdivexact(p, q):
    """exact polynomial division p/q by multivariate long division (lex order);
    returns (quotient, True) or (None, False)"""
    if not p:
        return {}, True
    if len(q) > 60 or len(p) > 400:
        return None, False

    def key(m):
        return (sum(e for _, e in m), m)
    lq = max(q, key=key)
    cq = q[lq]
    dq = dict(lq)
    quo = {}
    r = dict(p)
    n = 0
    while r:
        n += 1
        if n > 400:
            return None, False
        lm = max(r, key=key)
        d = dict(lm)
        for i, e in dq.items():
            if d.get(i, 0) < e:
                return None, False
            d[i] -= e
            if d[i] == 0:
                del d[i]
        m = tuple(sorted(d.items()))
        c = Fraction(r[lm]) / Fraction(cq)
        if c.denominator == 1:
            c = int(c)
        quo[m] = quo.get(m, 0) + c
        # multiply without square-reduction to keep the division sound, then
        # compare; fall back if reduction changes the leading term
        prod = pmul({m: c}, q)
        r2 = padd(r, prod, -1)
        if lm in r2:
            return None, False
        r = r2
    return quo, True


def floor(x):
    """floor of a real -> int SymNum"""
    x = num(x)
    if isnanc(x):
        raise Unsupported('int of nan')
    if x.isint:
        return x
    # split off integer-valued part
    ip, rest = {}, {}
    for m, c in x.p.items():
        if (isinstance(c, int) or c.denominator == 1) and all(_atoms[i].isint for i, _ in m):
            ip[m] = int(c)
        else:
            rest[m] = c
    c = pconst(rest)
    if c is not None:
        return SymNum(padd(ip, {ONE: math.floor(c)} if math.floor(c) else {}), True)
    # rational-integer polynomial: (sum c_i x_i)/D with integer atoms
    if all(all(_atoms[i].isint for i, _ in m) for m in rest):
        D = 1
        for c in rest.values():
            D = D * Fraction(c).denominator // math.gcd(D, Fraction(c).denominator)
        if D < 10**15:
            n = SymNum({m: int(c * D) for m, c in rest.items()}, True)
            r = floordiv(n, D)
            return r + SymNum(ip, True)
    lo, hi = pbounds(rest)
    if lo is not None and hi is not None and math.floor(lo) == math.floor(hi):
        f = math.floor(lo)
        return SymNum(padd(ip, {ONE: f} if f else {}), True)
    k = ('floor', pkey(rest))
    at = ctx().memo.get(k)
    if at is None:
        at = fresh_int('floor')
        zr = poly_z(rest, False)
        at.axioms.append(z3.And(z3.ToReal(at.z) <= zr, zr < z3.ToReal(at.z) + 1))
        at.lo = None if lo is None else math.floor(lo)
        at.hi = None if hi is None else math.floor(hi)
        at.defn = ('floor', rest)
        ctx().memo[k] = at
    return SymNum(padd(ip, {((at.id, 1),): 1}), True)


def trunc(x):
    x = num(x)
    if isnanc(x):
        raise Unsupported('int of nan')
    if x.isint:
        return x
    lo, hi = x.bounds()
    if lo is not None and lo >= 0:
        return floor(x)
    if hi is not None and hi <= 0:
        return -floor(-x)
    y = SymNum(x.p)
    return ite(as_boolz(y >= 0), floor(y), -floor(-y))


def rint(x):
    """round half to even"""
    x = num(x)
    if isnanc(x):
        return NANF
    if x.isint:
        return x
    f = floor(SymNum(padd(x.p, {ONE: Fraction(1, 2)})))
    y = SymNum(x.p)
    tie = as_boolz((f - Fraction(1, 2)) == y)
    if tie is False:
        return f
    odd = as_boolz(mod(f, 2) == 1)
    return ite(zand(tie, odd), f - 1, f)


def round_dec(x, d):
    """round to d >= 3 decimals: x plus an unknown of at most half a unit in
    the last place (an over-approximation that keeps trigonometry usable)"""
    x = num(x)
    c = x.const()
    if c is not None:
        return mk({ONE: toq(round(float(c), d))}, False, x.nan) if round(float(c), d) else num(0.0)
    k = ('round', d, pkey(x.p))
    a = ctx().memo.get(k)
    if a is None:
        h = Fraction(1, 2 * 10 ** d)
        a = fresh_real('round', -h, h)
        a.deg = True
        make_trig(a)
        a.defn = ('round', x.p, d)
        ctx().memo[k] = a
    return mk(padd(x.p, {((a.id, 1),): 1}), False, x.nan)


def floordiv(a, b):
    a, b = num(a), num(b)
    if isnanc(a) or isnanc(b):
        return NANF
    c = b.const()
    if c is None:
        if a.isint and b.isint:
            b = num(ctx().fork_value(b))
            c = b.const()
        else:
            q = a / b
            if isnanc(q):
                return NANF
            r = floor(SymNum(q.p))
            return SymNum(r.p, False, q.nan)
    if c == 0:
        if a.isint and b.isint:
            raise ZeroDivisionError
        return NANF
    if not (a.isint and b.isint):
        r = floor(SymNum(pscale(a.p, Fraction(1) / c)))
        return SymNum(r.p, False, a.nan)
    c = int(c)
    if c < 0:
        return floordiv(-a, -c)
    if c == 1:
        return a
    q, r = {}, {}
    for m, k in a.p.items():
        k = int(k)
        d, e = divmod(k, c)
        # keep small negative remainders small
        if m and e and k < 0 and -k < c:
            d, e = 0, k
        if d:
            q[m] = d
        if e:
            r[m] = e
    if not r:
        return SymNum(q, True)
    lo, hi = pbounds(r)
    if lo is not None and hi is not None and lo // c == hi // c:
        f = lo // c
        return SymNum(padd(q, {ONE: f} if f else {}), True)
    # common factor
    g = c
    for k in r.values():
        g = math.gcd(g, k)
    if g > 1:
        # floor((g*s + t)/c) with c = g*c', t=0
        r = {m: k // g for m, k in r.items()}
        c = c // g
    else:
        # (g*s + t)//c where every nonconstant coefficient is a multiple of g and 0<=t<g
        t = r.get(ONE, 0)
        g = c
        for m, k in r.items():
            if m != ONE:
                g = math.gcd(g, k)
        if g > 1 and 0 <= t:
            r = {m: k // g for m, k in r.items()}
            r = {m: k for m, k in r.items() if k}
            c = c // g
        else:
            # drop low-order parts that cannot carry: r = H + L, coefficients of H
            # multiples of g, 0 <= L < g, g | c
            best = None
            for g in sorted({math.gcd(c, k) for k in r.values() if math.gcd(c, k) > 1}, reverse=True):
                H = {m: k for m, k in r.items() if k % g == 0}
                L = {m: k for m, k in r.items() if k % g}
                if not H:
                    continue
                l0, h0 = pbounds(L)
                if l0 is not None and h0 is not None and l0 >= 0 and h0 < g:
                    best = (g, H)
                    break
            if best:
                g, H = best
                r = {m: k // g for m, k in H.items()}
                c = c // g
    if c == 1:
        return SymNum(padd(q, r), True)
    rr = SymNum(r, True)
    lo, hi = rr.bounds()
    zt = rr.z / z3.IntVal(c)       # z3 Int div, c > 0: floor
    at = atom_of(zt, True)
    if at.name is None:
        at.name = 'div%d' % at.id
        at.lo = None if lo is None else lo // c
        at.hi = None if hi is None else hi // c
        at.defn = ('div', r, c)
    return SymNum(padd(q, {((at.id, 1),): 1}), True)


def mod(a, b):
    a, b = num(a), num(b)
    if isnanc(a) or isnanc(b):
        return NANF
    nan = zor(a.nan, b.nan)
    c = b.const()
    if c is None and a.isint and b.isint:
        b = num(ctx().fork_value(b))
    f = floordiv(SymNum(a.p, a.isint), SymNum(b.p, b.isint))
    if isnanc(f):
        return NANF
    r = SymNum(a.p, a.isint) - f * SymNum(b.p, b.isint)
    r = SymNum(r.p, a.isint and b.isint, nan)
    return r


def intq(x):
    return isinstance(x, (int, np.integer)) and not isinstance(x, (bool, np.bool_))


def bitand(a, b):
    za, zb = as_boolz(a), as_boolz(b)
    if za is not None:
        a = mkbool(za)
        a = a.num() if isinstance(a, SymBool) else int(a)
    if zb is not None:
        b = mkbool(zb)
        b = b.num() if isinstance(b, SymBool) else int(b)
    a, b = num(a), num(b)
    if not (a.isint and b.isint):
        raise TypeError('bitwise and of non-integers')
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None:
        return num(int(ca) & int(cb))
    if cb is None and ca is not None:
        a, b, ca, cb = b, a, cb, ca
    if cb is not None:
        m = int(cb)
        if m == 0:
            return num(0)
        lo, hi = a.bounds()
        if m < 0:
            # a & ~k = a - (a & k)
            return a - bitand(a, ~m)
        out = num(0)
        i = 0
        while m >> i:
            if (m >> i) & 1:
                j = i
                while (m >> j) & 1:
                    j += 1
                out = out + mod(floordiv(a, 1 << i), 1 << (j - i)) * (1 << i)
                i = j
            else:
                i += 1
        return out
    (la, ha), (lb, hb) = a.bounds(), b.bounds()
    if la is None or lb is None or ha is None or hb is None or la < 0 or lb < 0:
        raise Unsupported('& of unbounded symbolic integers')
    n = min(int(ha).bit_length(), int(hb).bit_length())
    out = num(0)
    for i in range(n):
        x, y = bit(a, i), bit(b, i)
        out = out + ite(zand(x, y), 1, 0) * (1 << i)
    return out


def bit(a, i):
    """z3/py boolean of bit i"""
    r = mod(floordiv(a, 1 << i), 2) == 1
    return as_boolz(r)


def tz(p):
    g = 0
    for k in p.values():
        g = math.gcd(g, int(k))
    n = 0
    while g and g % 2 == 0:
        g //= 2
        n += 1
    return n if p else 64


def bitor(a, b):
    za, zb = as_boolz(a), as_boolz(b)
    if za is not None and zb is not None:
        return mkbool(zor(za, zb))
    a, b = num(a), num(b)
    if not (a.isint and b.isint):
        raise TypeError('bitwise or of non-integers')
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None:
        return num(int(ca) | int(cb))
    (la, ha), (lb, hb) = a.bounds(), b.bounds()
    if lb is not None and hb is not None and lb >= 0 and hb < (1 << tz(a.p)):
        return a + b
    if la is not None and ha is not None and la >= 0 and ha < (1 << tz(b.p)):
        return a + b
    return a + b - bitand(a, b)


def bitxor(a, b):
    a, b = num(a), num(b)
    if not (a.isint and b.isint):
        raise TypeError('bitwise xor of non-integers')
    return a + b - bitand(a, b) * 2


# -------------------------------------------------------- algebraic functions

def sqrt(x, nonneg=False):
    if not isinstance(x, (SymNum, SymBool)):
        with np.errstate(all='ignore'):
            return np.sqrt(x)
    x = num(x)
    c = x.const()
    if c is not None:
        if c < 0:
            return NANF
        f = math.sqrt(c)
        r = Fraction(f).limit_denominator(10**6)
        return mk({ONE: r} if r * r == c and r else ({} if c == 0 else {ONE: toq(f)}), False, x.nan)
    nan = x.nan
    neg = as_boolz(SymNum(x.p) < 0)
    lo, _ = x.bounds()
    if neg is not False:
        if nonneg or issos(x.p) or ispsd(x.p) or (neg is not True and not ctx().feasible(neg)):
            neg = False
    # perfect square of a monomial: sqrt(m^2 c) = |m| sqrt(c)
    if len(x.p) == 1 and neg is False:
        (m, cf), = x.p.items()
        if m and cf > 0 and all(e % 2 == 0 for _, e in m):
            f = math.sqrt(cf)
            q = Fraction(f).limit_denominator(10**6)
            q = q if q * q == cf else toq(f)
            r = SymNum({tuple((i, e // 2) for i, e in m): q}, False)
            b = r.bounds()
            if b[0] is not None and b[0] >= 0:
                return mk(r.p, False, x.nan)
            a = abs(r)
            return mk(a.p, False, zor(nanz(a), x.nan)) if isinstance(a, SymNum) else a
    k = ('sqrt', pkey(x.p))
    at = ctx().memo.get(k)
    if at is None:
        at = fresh_real('sqrt')
        at.lo = 0
        if lo is not None and lo > 0:
            at.lo = toq(math.sqrt(float(lo)) * (1 - 1e-12))
        hi = pbounds(x.p)[1]
        at.hi = None if hi is None or hi < 0 else toq(math.sqrt(float(hi)) * (1 + 1e-12))
        zr = poly_z(x.p, False)
        ax = z3.And(at.z >= 0, at.z * at.z == zr)
        if neg is not False:
            ax = z3.And(at.z >= 0, z3.Implies(zr >= 0, at.z * at.z == zr))
        else:
            at.sq = dict(x.p)
        at.axioms.append(ax)
        at.defn = ('sqrt', x.p)
        ctx().memo[k] = at
    return mk({((at.id, 1),): 1}, False, zor(nan, neg))


def issos(p):
    """obvious sums of squares"""
    for m, c in p.items():
        if c < 0 or any(e % 2 for _, e in m):
            return False
    return True


def ispsd(p):
    """a quadratic polynomial that is a sum of squares (up to float rounding)"""
    ids = {}
    for m in p:
        if sum(e for _, e in m) > 2:
            return False
        for i, e in m:
            if e < 0:
                return False
            ids.setdefault(i, len(ids) + 1)
    n = len(ids) + 1
    if n > 60:
        return False
    g = np.zeros((n, n))
    for m, c in p.items():
        k = [ids[i] for i, e in m for _ in range(e)]
        k = [0] * (2 - len(k)) + k
        g[k[0], k[1]] += float(c) / 2
        g[k[1], k[0]] += float(c) / 2
    w = np.linalg.eigvalsh(g)
    return bool(w[0] >= -1e-11 * max(1e-30, abs(w[-1])))


def ufun(name, x, lo=None, hi=None, axiom=None, conc=None):
    """uninterpreted function application (congruence via memo + z3 Function)"""
    F = z3.Function(name, z3.RealSort(), z3.RealSort())
    x = num(x)
    zt = F(x.zr)
    at = atom_of(zt, False, lo, hi)
    if at.name is None:
        at.name = '%s%d' % (name, at.id)
        at.defn = ('fn', name, x.p)
        if axiom:
            at.axioms.append(axiom(at.z, x.zr))
    return mk({((at.id, 1),): 1}, False, x.nan)


def power(a, b):
    if isinstance(a, SymComplex) or isinstance(b, SymComplex):
        if intq(b) and b >= 0:
            r = SymComplex(1, 0)
            for _ in range(int(b)):
                r = r * a
            return r
        raise Unsupported('complex power')
    if isinstance(b, (SymNum,)) and b.const() is not None and b.nan is False:
        c = b.const()
        b = int(c) if (isinstance(c, int) or c.denominator == 1) else float(c)
    if isinstance(b, SymNum):
        raise Unsupported('symbolic exponent')
    if isnanc(b):
        return NANF
    if not isinstance(a, (SymNum, SymBool)):
        return a ** b
    a = num(a)
    bf = float(b)
    if bf == int(bf):
        n = int(bf)
        isint = a.isint and intq(b)
        if n >= 0:
            p = {ONE: 1}
            for _ in range(n):
                p = pmul(p, a.p)
            return mk(p, isint, a.nan)
        r = power(a, -n)
        return num(1) / r
    if bf == 0.5:
        return sqrt(a)
    if bf == -0.5:
        return num(1) / sqrt(a)
    q = Fraction(bf).limit_denominator(12)
    if abs(float(q) - bf) < 1e-12:
        # x**(n/d) = root(x, d)**n for x >= 0
        if q.denominator == 2:
            r = power(sqrt(a), q.numerator)
            return mk(r.p, False, zor(a.nan, r.nan))
        neg = as_boolz(SymNum(a.p) < 0)
        if neg is not False and (issos(a.p) or ispsd(a.p) or (neg is not True and not ctx().feasible(neg))):
            neg = False
        rt = nthroot(SymNum(a.p), q.denominator, neg)
        r = power(rt, q.numerator)
        return mk(r.p, False, zor(a.nan, r.nan, neg))
    raise Unsupported('power %r' % b)


def nthroot(x, d, neg=False, odd=False):
    if d == 1:
        return x
    c = x.const()
    if c is not None and c >= 0:
        return num(float(c) ** (1.0 / d))
    if len(x.p) == 1:
        (m, cf), = x.p.items()
        if cf > 0 and all(e % d == 0 for _, e in m):
            if (d % 2 and odd) or all(_atoms[i].lo is not None and _atoms[i].lo >= 0 for i, _ in m):
                return SymNum({tuple((i, e // d) for i, e in m): toq(float(cf) ** (1.0 / d))}, False)
    k = ('root', d, odd, pkey(x.p))
    at = ctx().memo.get(k)
    if at is None:
        at = fresh_real('root%d_' % d)
        zr = poly_z(x.p, False)
        prod = at.z
        for _ in range(d - 1):
            prod = prod * at.z
        if odd:
            at.axioms.append(prod == zr)
        else:
            at.lo = 0
            at.axioms.append(z3.And(at.z >= 0, z3.Implies(zr >= 0, prod == zr)))
        at.defn = ('root', d, x.p)
        ctx().memo[k] = at
    return SymNum({((at.id, 1),): 1})


# ----------------------------------------------------------- trigonometry
# angle atoms are real variables in DEGREES with trig = (cos atom, sin atom)

DEG = PI / 180


def trig_range(lo, hi, deg):
    """outward-rounded ranges of cos and sin over an interval of degrees"""
    if not deg or lo is None or hi is None or hi - lo >= 360:
        return (-1, 1), (-1, 1)
    out = []
    for off in (0, 90):          # cos(d), sin(d) = cos(d - 90)
        l, h = float(lo) - off, float(hi) - off
        vals = [math.cos(math.radians(l)), math.cos(math.radians(h))]
        k = math.ceil(l / 180.0)
        while k * 180.0 <= h:
            vals.append(1.0 if k % 2 == 0 else -1.0)
            k += 1
        out.append((toq(max(-1.0, round(min(vals) - 1e-7, 7))), toq(min(1.0, round(max(vals) + 1e-7, 7)))))
    return tuple(out)


def make_trig(a):
    """give a degrees-atom its cos/sin atoms"""
    if a.trig is None:
        (cl, ch), (sl, sh) = trig_range(a.lo, a.hi, a.deg)
        c = atom_of(z3.Real(a.name + '!c'), False, cl, ch, a.name + '!c')
        s = atom_of(z3.Real(a.name + '!s'), False, sl, sh, a.name + '!s')
        s.sq = padd({ONE: 1}, {((c.id, 2),): 1}, -1)
        ax = c.z * c.z + s.z * s.z == 1
        c.axioms.append(ax)
        s.axioms.append(ax)
        a.trig = (c, s)
    return a.trig


def quadrant_axioms(a):
    """weak facts tying the numeric value of a degrees-atom to its cos/sin"""
    c, s = a.trig
    d = a.z
    return z3.And(
        z3.Implies(z3.And(d > 0, d < 180), s.z > 0),
        z3.Implies(z3.And(d > 180, d < 360), s.z < 0),
        z3.Implies(z3.And(d > -180, d < 0), s.z < 0),
        z3.Implies(z3.And(d > -90, d < 90), c.z > 0),
        z3.Implies(z3.And(d > 90, d < 270), c.z < 0),
        z3.Implies(z3.And(d > 270, d < 450), c.z > 0),
        z3.Implies(z3.And(d > -270, d < -90), c.z < 0),
        z3.Implies(z3.Or(d == 0, d == 360), z3.And(c.z == 1, s.z == 0)),
        z3.Implies(d == 90, z3.And(c.z == 0, s.z == 1)),
        z3.Implies(z3.Or(d == 270, d == -90), z3.And(c.z == 0, s.z == -1)),
        z3.Implies(z3.Or(d == 180, d == -180), z3.And(c.z == -1, s.z == 0)))


def angle_threshold(a, t):
    """an angle is compared with the value t: tell the solver on which side of
    the direction t its (cos, sin) lie"""
    deg = a.deg_unit()
    half = Fraction(180) if deg else toq(PI)
    td = float(t) if deg else float(t) * 180 / PI
    if abs(td / 90 - round(td / 90)) < 1e-6 or a.lo is None or a.hi is None or t <= a.lo or t >= a.hi:
        return
    c, s = a.trig
    cx = ctx()
    if a.z.get_id() not in cx.seen and c.z.get_id() not in cx.seen and a.defn is None:
        return
    C, S = (zq(toq(round(f(math.radians(td)), 12))) for f in (math.cos, math.sin))
    cr = s.z * C - c.z * S             # sin(a - t)
    d = a.z
    T = [zq(t + k * half) for k in (-2, -1, 0, 1, 2)]
    ax = z3.And(z3.Implies(z3.And(d > T[2], d < T[3]), cr > 0), z3.Implies(z3.And(d > T[1], d < T[2]), cr < 0),
                z3.Implies(z3.And(d > T[3], d < T[4]), cr < 0), z3.Implies(z3.And(d > T[0], d < T[1]), cr > 0))
    tol = zq(Fraction(1, 10 ** 9))
    near = lambda k: z3.And(c.z - k * C < tol, k * C - c.z < tol, s.z - k * S < tol, k * S - s.z < tol)
    ax = z3.And(ax, z3.Implies(d == T[2], near(1)), z3.Implies(z3.Or(d == T[1], d == T[3]), near(-1)))
    cx.axiom(('thr', a.id, t), ax)


def pneg(p):
    return {m: -c for m, c in p.items()}


def cs_mul(a, b):
    """(c,s) polys of angle sum"""
    c = padd(pmul(a[0], b[0]), pmul(a[1], b[1]), -1)
    s = padd(pmul(a[1], b[0]), pmul(a[0], b[1]))
    return c, s


def cs_const(rad):
    """cos/sin of a constant, exact at multiples of 15 degrees where rational"""
    k = rad / (PI / 2)
    if abs(k - round(k)) < 1e-9:
        i = int(round(k)) % 4
        c, s = [(1, 0), (0, 1), (-1, 0), (0, -1)][i]
        return ({ONE: c} if c else {}), ({ONE: s} if s else {})
    return {ONE: toq(math.cos(rad))}, {ONE: toq(math.sin(rad))}


def cossin(x):
    """polys (cos x, sin x) of an angle x in radians"""
    cur = ({ONE: 1}, {})
    const = 0.0
    for m, c in x.p.items():
        if m == ONE:
            const += float(c)
            continue
        if len(m) != 1 or m[0][1] != 1:
            raise Unsupported('trig of a nonlinear term')
        a = _atoms[m[0][0]]
        f = float(c)
        if a.ite is not None:
            cond, A, B = a.ite
            rest = dict(x.p)
            del rest[m]
            xa = SymNum(padd(rest, pscale(A.p, c)))
            xb = SymNum(padd(rest, pscale(B.p, c)))
            ca, sa = cossin(xa)
            cb, sb = cossin(xb)
            return (ite(cond, SymNum(ca), SymNum(cb)).p,
                    ite(cond, SymNum(sa), SymNum(sb)).p)
        if a.isint and a.trig is None:
            turns = f / (2 * PI)
            if abs(turns - round(turns)) < 1e-9:
                continue       # whole turns
            half = f / PI
            if abs(half - round(half)) < 1e-9:
                odd = as_boolz(mod(sym_of(a), 2) == 1)
                sg = ite(odd, -1, 1)
                cur = (pmul(cur[0], num(sg).p), pmul(cur[1], num(sg).p))
                continue
            # an integer number of some other step: an opaque point of the circle
            key = ('intstep', a.id, f)
            r = ctx().memo.get(key)
            if r is None:
                hc, hs = fresh_real('cosk', -1, 1), fresh_real('sink', -1, 1)
                ax = hc.z * hc.z + hs.z * hs.z == 1
                hc.axioms.append(ax)
                hs.axioms.append(ax)
                hs.sq = {ONE: 1, ((hc.id, 2),): -1}
                hc.defn, hs.defn = ('cosk', a, f), ('sink', a, f)
                r = ctx().memo[key] = (hc, hs)
            cur = cs_mul(cur, ({((r[0].id, 1),): 1}, {((r[1].id, 1),): 1}))
            continue
        if a.trig is None:
            if a.inp or a.defn:
                pass
            raise Unsupported('trig of a non-angle %s' % (a.name,))
        k = f / DEG if a.deg_unit() else f
        ca, sa = a.trig
        if abs(k - round(k)) > 1e-7:
            if abs(2 * k - round(2 * k)) > 1e-7:
                raise Unsupported('trig of a fractional multiple %g' % k)
            k = int(round(2 * k))
            ca, sa = half_trig(a)
            base = ({((ca.id, 1),): 1}, {((sa.id, 1),): 1 if k > 0 else -1})
            for _ in range(abs(k)):
                cur = cs_mul(cur, base)
            continue
        k = int(round(k))
        if a.trigp is not None:
            base = (a.trigp[0], a.trigp[1] if k > 0 else pneg(a.trigp[1]))
        else:
            base = ({((ca.id, 1),): 1}, {((sa.id, 1),): 1 if k > 0 else -1})
        for _ in range(abs(k)):
            cur = cs_mul(cur, base)
    if const:
        cur = cs_mul(cur, cs_const(const))
    return cur


def half_trig(a):
    """cos/sin atoms of half an angle"""
    key = ('half', a.id)
    r = ctx().memo.get(key)
    if r is None:
        deg = a.deg_unit()
        lim = 180 if deg else toq(PI)
        inside = a.lo is not None and a.hi is not None and a.lo >= -lim and a.hi <= lim
        hc = fresh_real('halfc', 0 if inside else -1, 1)
        hs = fresh_real('halfs', -1, 1)
        if a.trigp is not None:
            cp_, sp_ = a.trigp
        else:
            cp_, sp_ = {((a.trig[0].id, 1),): 1}, {((a.trig[1].id, 1),): 1}
        h = Fraction(1, 2)
        hc.sq = padd({ONE: h}, pscale(cp_, h))
        hs.sq = padd({ONE: h}, pscale(cp_, h), -1)
        cz, sz = poly_z(cp_, False), poly_z(sp_, False)
        ax = z3.And(2 * hc.z * hc.z == 1 + cz, 2 * hs.z * hs.z == 1 - cz, 2 * hs.z * hc.z == sz)
        hc.axioms.append(ax)
        hs.axioms.append(ax)
        if inside:
            q = z3.And(z3.Implies(hs.z > 0, a.z > 0), z3.Implies(hs.z < 0, a.z < 0))
            hs.axioms.append(q)
        hc.defn = ('halfc', a, deg)
        hs.defn = ('halfs', a, deg)
        r = ctx().memo[key] = (hc, hs)
    return r


def _deg_unit(self):
    return getattr(self, 'deg', True)


Atom.deg_unit = _deg_unit


def _trig(x, which):
    if not isinstance(x, (SymNum, SymBool)):
        return getattr(np, which)(x)
    x = num(x)
    c, s = cossin(x)
    if which == 'cos':
        return mk(c, False, x.nan)
    if which == 'sin':
        return mk(s, False, x.nan)
    return mk(s, False, x.nan) / mk(c, False, x.nan)


def cos(x): return _trig(x, 'cos')
def sin(x): return _trig(x, 'sin')
def tan(x): return _trig(x, 'tan')


def new_angle(kind, key, lo, hi):
    """a fresh angle atom whose value is in radians"""
    k = ('ang', kind) + key
    a = ctx().memo.get(k)
    new = a is None
    if new:
        a = fresh_real(kind, lo, hi)
        a.deg = False
        make_trig(a)
        ctx().memo[k] = a
    return a, new


def rad_quadrant(a):
    """quadrant facts for a radians-atom in (-pi, pi]"""
    c, s = a.trig
    d = a.z
    h = z3.Q(*_PIQ)
    return z3.And(
        z3.Implies(s.z > 0, d > 0), z3.Implies(s.z < 0, d < 0),
        z3.Implies(z3.And(s.z == 0, c.z > 0), d == 0),
        z3.Implies(z3.And(s.z == 0, c.z < 0), d == h),
        z3.Implies(z3.And(c.z > 0), z3.And(d < h / 2, d > -h / 2)),
        z3.Implies(z3.And(c.z < 0), z3.Or(d > h / 2, d < -h / 2)),
        z3.Implies(z3.And(c.z == 0, s.z > 0), d == h / 2),
        z3.Implies(z3.And(c.z == 0, s.z < 0), d == -h / 2))


_f = Fraction(repr(PI))
_PIQ = (_f.numerator, _f.denominator)


def angle_linear(cs, lo=None, hi=None):
    """If (cos, sin) polys equal those of a known angle linear form return it."""
    return None


def arctan2(y, x):
    if not isinstance(y, SymNum) and not isinstance(x, SymNum):
        return np.arctan2(y, x)
    y, x = num(y), num(x)
    if isnanc(x) or isnanc(y):
        return NANF
    nan = zor(x.nan, y.nan)
    a, new = new_angle('atan2', (pkey(y.p), pkey(x.p)), -toq(PI), toq(PI))
    if new:
        rho = sqrt(SymNum(padd(pmul(y.p, y.p), pmul(x.p, x.p))), True)
        c, s = a.trig
        zy, zx = poly_z(y.p, False), poly_z(x.p, False)
        rz = rho.zr
        ax = z3.And(rz * c.z == zx, rz * s.z == zy,
                    z3.Implies(rz == 0, z3.And(c.z == 1, s.z == 0)))
        c.axioms.append(ax)
        s.axioms.append(ax)
        a.axioms.append(ax)
        a.axioms.append(rad_quadrant(a))
        rlo = pbounds(pmul(y.p, y.p))[0], pbounds(pmul(x.p, x.p))[0]
        pos = bool(x.const()) or bool(y.const()) or (None not in rlo and max(rlo) > 0 and min(rlo) >= 0)
        zz = False if pos else as_boolz(compare(SymNum(rho.p), num(0), '=='))
        if zz is False or (zz is not True and len(rho.p) == 1 and not ctx().feasible(zz)):
            qc, e1 = pdivexact(x.p, rho.p)
            qs, e2 = pdivexact(y.p, rho.p)
            if e1 and e2:
                a.trigp = (qc, qs)
        a.defn = ('atan2', y.p, x.p)
        ctx().note_axiom_deps(a, rho)
    return mk({((a.id, 1),): 1}, False, nan)


def arcsin(x):
    if not isinstance(x, SymNum):
        return np.arcsin(x)
    a, new = new_angle('asin', (pkey(x.p),), -toq(PI / 2), toq(PI / 2))
    if new:
        c, s = a.trig
        zx = poly_z(x.p, False)
        ax = z3.And(z3.Implies(z3.And(zx >= -1, zx <= 1), s.z == zx), c.z >= 0)
        c.lo = 0
        c.axioms.append(ax)
        s.axioms.append(ax)
        a.axioms += [ax, rad_quadrant(a)]
        a.defn = ('asin', x.p)
        c2 = padd({ONE: 1}, pmul(x.p, x.p), -1)
        if len(c2) == 1:
            (m, cf), = c2.items()
            if m and cf > 0 and all(e % 2 == 0 for _, e in m):
                a.trigp = (num(sqrt(SymNum(c2))).p, x.p)
    zx = SymNum(x.p)
    oob = zor(as_boolz(zx > 1), as_boolz(zx < -1))
    if oob is not False and not ctx().feasible(oob):
        oob = False
    return mk({((a.id, 1),): 1}, False, zor(x.nan, oob))


def arccos(x):
    return num(PI / 2) - arcsin(x)


def arctan(x):
    return arctan2(x, num(1)) if isinstance(x, SymNum) else np.arctan(x)


def exp(x):
    if isinstance(x, SymComplex):
        c, s = cossin(num(x.im))
        r = SymComplex(mk(c, False, num(x.im).nan), mk(s, False, num(x.im).nan))
        m = exp(x.re)
        return r * m if not (_num(m) and m == 1) else r
    if not isinstance(x, SymNum):
        return np.exp(x)
    c = x.const()
    if c is not None:
        return mk({ONE: toq(math.exp(c))}, False, x.nan)
    return ufun('exp', x, lo=0, axiom=lambda y, x: y > 0)


def log(x):
    if not isinstance(x, SymNum):
        with np.errstate(all='ignore'):
            return np.log(x)
    c = x.const()
    if c is not None:
        return mk({ONE: toq(math.log(c))}, False, x.nan) if c > 0 else NANF
    neg = as_boolz(SymNum(x.p) <= 0)
    r = ufun('log', SymNum(x.p))
    return mk(r.p, False, zor(x.nan, neg))


# ------------------------------------------------------------------ complex

class SymComplex:
    __slots__ = ('re', 'im')
    __array_priority__ = 1000

    def __init__(self, re, im):
        self.re = re
        self.im = im

    @property
    def real(self): return self.re
    @property
    def imag(self): return self.im

    def conjugate(self): return SymComplex(self.re, -self.im)
    conj = conjugate

    def __add__(self, o):
        o = to_complex(o)
        if o is None:
            return NotImplemented
        return SymComplex(self.re + o.re, self.im + o.im)
    __radd__ = __add__

    def __sub__(self, o):
        o = to_complex(o)
        if o is None:
            return NotImplemented
        return SymComplex(self.re - o.re, self.im - o.im)

    def __rsub__(self, o):
        o = to_complex(o)
        return SymComplex(o.re - self.re, o.im - self.im)

    def __neg__(self): return SymComplex(-self.re, -self.im)

    def __mul__(self, o):
        if _num(o) or isinstance(o, (SymNum, SymBool)):
            return SymComplex(self.re * o, self.im * o)
        o = to_complex(o)
        if o is None:
            return NotImplemented
        return SymComplex(self.re * o.re - self.im * o.im,
                          self.re * o.im + self.im * o.re)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if _num(o) or isinstance(o, (SymNum, SymBool)):
            return SymComplex(num(self.re) / o, num(self.im) / o)
        o = to_complex(o)
        if o is None:
            return NotImplemented
        d = num(o.re * o.re + o.im * o.im)
        n = self * o.conjugate()
        return SymComplex(num(n.re) / d, num(n.im) / d)

    def __rtruediv__(self, o):
        return to_complex(o) / self

    def __pow__(self, n): return power(self, n)

    def __abs__(self):
        return sqrt(num(self.re) * num(self.re) + num(self.im) * num(self.im))

    def __eq__(self, o):
        o = to_complex(o)
        return mkbool(zand(as_boolz(num(self.re) == o.re), as_boolz(num(self.im) == o.im)))

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else ~r

    def __bool__(self):
        return bool(mkbool(truthz(self)))

    __hash__ = None

    def __deepcopy__(self, memo): return self
    def __copy__(self): return self

    @property
    def nan(self):
        return zor(nanz(self.re), nanz(self.im))

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import array
        return array.ufunc_dispatch(ufunc, method, inputs, kw)

    def __repr__(self):
        return 'SymC(%r, %r)' % (self.re, self.im)


def to_complex(o):
    if isinstance(o, SymComplex):
        return o
    if isinstance(o, (complex, np.complexfloating)):
        return SymComplex(float(o.real), float(o.imag))
    if _num(o) or isinstance(o, (SymNum, SymBool)):
        return SymComplex(o, 0)
    return None


def nanz(x):
    if isinstance(x, (SymNum, SymComplex)):
        return x.nan
    if isinstance(x, SymBool):
        return False
    if isinstance(x, (complex, np.complexfloating)):
        return bool(x != x)
    return isnanc(x)


def is_sym(x):
    return isinstance(x, (SymNum, SymBool, SymComplex))


def simp(x):
    """drop to a python number when constant"""
    if isinstance(x, SymNum):
        c = x.const()
        if c is not None and x.nan is False:
            return int(c) if x.isint else float(c)
        return x
    if isinstance(x, SymComplex):
        a, b = simp(x.re), simp(x.im)
        if not is_sym(a) and not is_sym(b):
            return complex(a, b)
        return SymComplex(a, b)
    return x


_ctx = [None]


def ctx():
    c = _ctx[0]
    if c is None:
        raise RuntimeError('no symbolic context')
    return c
