"""datetime / timedelta with a symbolic time of day (the calendar day is
concrete: one path per day)."""
import datetime as _d
from . import core
from .array import SymArray
from .core import SymNum, is_sym

DAY = 86400 * 10**6
Real, RealTD = _d.datetime, _d.timedelta
EPOCH = Real(1970, 1, 1).toordinal()


def _num(x):
    if isinstance(x, SymArray):
        x = x.item()
    return x


def _us(x):
    """round a number of microseconds to an integer"""
    if is_sym(x):
        return x if x.isint else core.simp(core.floor(x + .5))
    return int(round(x))


def split(us):
    """(day, microsecond of the day): the day is decided by forking"""
    if not is_sym(us):
        return divmod(us, DAY)
    d = core.simp(core.floor(us / DAY))
    d = int(d)  # forks over the days
    return d, us - d * DAY


class TD:
    def __init__(self, us):
        self.us = us

    @property
    def days(self): return split(self.us)[0]
    @property
    def seconds(self): return _q(split(self.us)[1], 10**6)
    @property
    def microseconds(self): return _m(split(self.us)[1], 10**6)
    def total_seconds(self): return self.us / 10**6
    def __neg__(self): return mktd(-self.us)
    def __add__(self, o):
        if isinstance(o, (TD, RealTD)):
            return mktd(self.us + tdus(o))
        return NotImplemented if not isinstance(o, (DT, Real)) else mkdt(dtus(o) + self.us)
    __radd__ = __add__
    def __sub__(self, o): return mktd(self.us - tdus(o))
    def __rsub__(self, o):
        return mkdt(dtus(o) - self.us) if isinstance(o, (DT, Real)) else mktd(tdus(o) - self.us)
    def __mul__(self, k): return mktd(_us(self.us * k))
    __rmul__ = __mul__
    def __truediv__(self, o):
        return self.us / tdus(o) if isinstance(o, (TD, RealTD)) else mktd(_us(self.us / o))
    def __floordiv__(self, o): return _q(self.us, tdus(o)) if isinstance(o, (TD, RealTD)) else mktd(_q(self.us, o))


def _q(x, n):
    return core.simp(core.floor(x / n)) if is_sym(x) else x // n


def _m(x, n):
    return core.simp(x - _q(x, n) * n) if is_sym(x) else x % n


def tdus(t):
    return t.us if isinstance(t, TD) else (t.days * 86400 + t.seconds) * 10**6 + t.microseconds


def mktd(us):
    return TD(us) if is_sym(us) else RealTD(microseconds=us)


def mkdt(us, tz=None):
    if is_sym(us):
        return DT(*split(us), tz)
    d, u = divmod(us, DAY)
    return Real.fromordinal(d).replace(tzinfo=tz) + RealTD(microseconds=u)


def dtus(x):
    if isinstance(x, DT):
        return x.day_ * DAY + x.us
    return x.toordinal() * DAY + ((x.hour * 60 + x.minute) * 60 + x.second) * 10**6 + x.microsecond


class DT:
    def __init__(self, day, us, tz=None):
        self.day_, self.us, self.tzinfo = day, us, tz
        self.d = _d.date.fromordinal(day)

    year = property(lambda s: s.d.year)
    month = property(lambda s: s.d.month)
    day = property(lambda s: s.d.day)
    hour = property(lambda s: _q(s.us, 3600 * 10**6))
    minute = property(lambda s: _m(_q(s.us, 60 * 10**6), 60))
    second = property(lambda s: _m(_q(s.us, 10**6), 60))
    microsecond = property(lambda s: _m(s.us, 10**6))

    def toordinal(self): return self.day_
    def weekday(self): return self.d.weekday()
    def date(self): return self.d
    def timetuple(self): return self.d.timetuple()[:3] + (self.hour, self.minute, self.second)

    def replace(self, **k):
        tz = k.pop('tzinfo', self.tzinfo)
        d = self.d.replace(**{q: k.pop(q) for q in ('year', 'month', 'day') if q in k})
        us = self.us
        for q, f in (('hour', 3600 * 10**6), ('minute', 60 * 10**6), ('second', 10**6), ('microsecond', 1)):
            if q in k:
                us = us + (k[q] - getattr(self, q)) * f
        return mkdt(d.toordinal() * DAY + core.simp(us), tz)

    def timestamp(self):
        if self.tzinfo is not _d.timezone.utc:
            raise core.Unsupported('local time')
        return (self.day_ - EPOCH) * 86400 + self.us / 10**6

    def __add__(self, o):
        return mkdt(dtus(self) + tdus(o), self.tzinfo) if isinstance(o, (TD, RealTD)) else NotImplemented
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, (TD, RealTD)):
            return mkdt(dtus(self) - tdus(o), self.tzinfo)
        return mktd(dtus(self) - dtus(o))

    def __rsub__(self, o): return mktd(dtus(o) - dtus(self))


    def strftime(self, f): raise core.Unsupported('strftime of a symbolic time')


def _compare(cls, us):
    def put(op):
        setattr(cls, op, lambda self, o: getattr(us(self) - us(o), op)(0))
    for k in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
        put('__%s__' % k)
    cls.__hash__ = None


_compare(TD, tdus)
_compare(DT, dtus)


class _M(type):
    real, sym = Real, DT

    def __instancecheck__(cls, x): return isinstance(x, (cls.real, cls.sym))
    def __getattr__(cls, n): return getattr(cls.real, n)
    def __eq__(cls, o): return o is cls or o is cls.real
    def __hash__(cls): return hash(cls.real)


class datetime(metaclass=_M):
    def __new__(cls, *a, **k):
        if any(is_sym(_num(x)) for x in list(a) + list(k.values())):
            a = [_num(x) for x in a]
            v = dict(zip(('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond', 'tzinfo'), a), **k)
            d = _d.date(*[int(v[q]) for q in ('year', 'month', 'day')])
            us = ((v.get('hour', 0) * 60 + v.get('minute', 0)) * 60 + v.get('second', 0)) * 10**6 + v.get('microsecond', 0)
            return mkdt(d.toordinal() * DAY + us, v.get('tzinfo'))
        return Real(*a, **k)

    @staticmethod
    def utcfromtimestamp(t):
        t = _num(t)
        if not is_sym(t):
            return Real.utcfromtimestamp(t)
        return mkdt(EPOCH * DAY + _us(t * 10**6))

    @staticmethod
    def fromtimestamp(t, tz=None):
        t = _num(t)
        if not is_sym(t):
            return Real.fromtimestamp(t, tz)
        if tz is not _d.timezone.utc:
            raise core.Unsupported('local time')
        return mkdt(EPOCH * DAY + _us(t * 10**6), tz)

    @staticmethod
    def fromordinal(n):
        n = _num(n)
        return Real.fromordinal(int(n))


class _MT(_M):
    real, sym = RealTD, TD


class timedelta(metaclass=_MT):
    F = dict(days=DAY, seconds=10**6, microseconds=1, milliseconds=1000, minutes=60 * 10**6, hours=3600 * 10**6, weeks=7 * DAY)

    def __new__(cls, *a, **k):
        v = dict(zip(('days', 'seconds', 'microseconds', 'milliseconds', 'minutes', 'hours', 'weeks'), a), **k)
        v = {q: _num(x) for q, x in v.items()}
        if not any(is_sym(x) for x in v.values()):
            return RealTD(**v)
        return mktd(_us(sum(x * cls.F[q] for q, x in v.items())))
