"""Symbolic datetime/date/time/timedelta."""
import collections
import datetime as _dt

import z3

from . import core
from .core import And, Not, Or, SymBool, SymFloat, SymInt, Unsupported, as_symint, ite
from .strx import SymStr, chars_of, in_range, mkstr

CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
FIELDS = ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond')


def issym(*xs):
    return any(type(x) in (SymInt, SymFloat) or isinstance(x, (SymDatetime, SymDate, SymTime, SymTimedelta)) and type(x) in (SymDatetime, SymDate, SymTime, SymTimedelta) for x in xs)


def leap(y):
    if type(y) is int:
        return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
    lo, hi = y.iv()
    d4 = (y % 4) == 0
    if lo is not None and lo > 1900 and hi < 2100:
        return d4
    return And(d4, Or((y % 100) != 0, (y % 400) == 0))


def days_in_month_ok(y, m, d):
    """Condition that day d exists in month m of year y (1 <= m <= 12, d >= 1 assumed)."""
    long_ = Or(*[m == k for k in (1, 3, 5, 7, 8, 10, 12)])
    feb = m == 2
    return And(d <= 31,
               Or(long_, d <= 30),
               Or(Not(feb), d <= 28, And(d == 29, leap(y))))


def valid_date(y, m, d):
    return And(y >= 1, y <= 9999, m >= 1, m <= 12, d >= 1, days_in_month_ok(y, m, d))


def ordinal(y, m, d):
    """Days since 0000-03-00-like origin, consistent with date.toordinal differences."""
    if not issym(y, m, d):
        return _dt.date(y, m, d).toordinal()
    y1 = y - 1
    base = 365 * y1 + y1 // 4 - y1 // 100 + y1 // 400
    if type(m) is int:
        cum = CUM[m - 1]
        adj = 0 if m <= 2 else ite(leap(y), 1, 0)
    else:
        cum = 0
        for k in range(11, 0, -1):
            pass
        cum = CUM[11]
        for k in range(10, -1, -1):
            cum = ite(m == k + 1, CUM[k], cum)
        if type(cum) is SymInt:
            cum._iv = (0, 334)
        adj = ite(And(m > 2, leap(y)), 1, 0)
    return base + cum + adj + d


TimeTuple = collections.namedtuple('TimeTuple', 'tm_year tm_mon tm_mday tm_hour tm_min tm_sec tm_wday tm_yday tm_isdst')


class SymTimedelta:
    """Duration in (possibly symbolic) whole seconds plus concrete microseconds."""
    __class__ = property(lambda self: _dt.timedelta)

    def __init__(self, secs, micros=0):
        self.secs = secs
        self.micros = micros

    @staticmethod
    def make(secs, micros=0):
        if type(secs) is int and type(micros) is int:
            return _dt.timedelta(seconds=secs, microseconds=micros)
        return SymTimedelta(secs, micros)

    @property
    def key(self):
        return self.secs * 1000000 + self.micros

    @property
    def days(self):
        return self.secs // 86400

    @property
    def seconds(self):
        return self.secs % 86400

    @property
    def microseconds(self):
        return self.micros

    def total_seconds(self):
        if type(self.secs) is int:
            return float(self.secs) + self.micros / 1e6
        return self.secs.to_real() + self.micros * 1e-6 if self.micros else self.secs.to_real()

    def __add__(self, o):
        if isinstance(o, _dt.datetime):
            return as_dt(o) + self
        p = as_td(o)
        return NotImplemented if p is None else SymTimedelta.make(self.secs + p.secs, self.micros + p.micros)
    __radd__ = __add__

    def __sub__(self, o):
        p = as_td(o)
        return NotImplemented if p is None else SymTimedelta.make(self.secs - p.secs, self.micros - p.micros)

    def __rsub__(self, o):
        if isinstance(o, _dt.datetime):
            return as_dt(o) - self
        p = as_td(o)
        return NotImplemented if p is None else SymTimedelta.make(p.secs - self.secs, p.micros - self.micros)

    def __neg__(self):
        return SymTimedelta.make(-self.secs, -self.micros)

    def __pos__(self):
        return self

    def __abs__(self):
        k = self.key
        c = k >= 0
        return SymTimedelta.make(ite(c, self.secs, -self.secs), ite(c, self.micros, -self.micros))

    def __mul__(self, k):
        if isinstance(k, (int,)):
            return SymTimedelta.make(self.secs * k, self.micros * k)
        raise Unsupported('timedelta * non-int')
    __rmul__ = __mul__

    def __truediv__(self, o):
        p = as_td(o)
        if p is not None:
            return self.key / p.key
        raise Unsupported('timedelta / number')

    def __floordiv__(self, o):
        p = as_td(o)
        if p is not None:
            return self.key // p.key
        raise Unsupported('timedelta // number')

    def __mod__(self, o):
        p = as_td(o)
        if p is None or self.micros or p.micros:
            raise Unsupported('timedelta % value')
        return SymTimedelta.make(self.secs % p.secs)

    def __rmod__(self, o):
        return as_td(o) % self

    def __rfloordiv__(self, o):
        return as_td(o).key // self.key

    def __rtruediv__(self, o):
        return as_td(o).key / self.key

    def _c(self, o, f):
        p = as_td(o)
        return NotImplemented if p is None else f(self.key, p.key)

    def __eq__(self, o):
        r = self._c(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return Not(self == o)

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b)

    def __bool__(self):
        return bool(self.key != 0)

    def __hash__(self):
        return id(self) if core.HASH_BY_ID[0] else 0x5EED

    def __deepcopy__(self, memo):
        return self

    def sx_concrete(self, model):
        return _dt.timedelta(seconds=core.concrete_value(self.secs, model), microseconds=core.concrete_value(self.micros, model))

    def sx_format(self, spec):
        return '<timedelta>'

    def __repr__(self):
        return f'SymTimedelta({self.secs})'


def as_td(o):
    if type(o) is SymTimedelta:
        return o
    if isinstance(o, _dt.timedelta):
        return SymTimedelta(o.days * 86400 + o.seconds, o.microseconds)
    return None


def strf(obj, fmt):
    if type(fmt) is SymStr:
        fmt = fmt.concretize()
    from .strx import format_value
    out, i = [], 0
    g = lambda n, dflt: getattr(obj, n, dflt)
    while i < len(fmt):
        c = fmt[i]
        if c != '%':
            out.append(c)
            i += 1
            continue
        d = fmt[i + 1]
        i += 2
        if d == 'Y':
            y = g('year', 1900)
            out += chars_of(format_value(y, 'd'))
        elif d == 'y':
            out += chars_of(format_value(g('year', 1900) % 100, '02d'))
        elif d in 'mdHMS':
            name = {'m': 'month', 'd': 'day', 'H': 'hour', 'M': 'minute', 'S': 'second'}[d]
            dflt = 1 if d in 'md' else 0
            out += chars_of(format_value(g(name, dflt), '02d'))
        elif d == 'f':
            out += chars_of(format_value(g('microsecond', 0), '06d'))
        elif d == 'j':
            y, m, dd = obj.year, obj.month, obj.day
            out += chars_of(format_value(ordinal(y, m, dd) - ordinal(y, 1, 1) + 1, '03d'))
        elif d == 'T':
            out += chars_of(strf(obj, '%H:%M:%S'))
        elif d == 'F':
            out += chars_of(strf(obj, '%Y-%m-%d'))
        elif d == '%':
            out.append('%')
        elif d in 'zZ':
            pass
        else:
            raise Unsupported(f'strftime %{d}')
    return mkstr(out)


class _Sym:
    def __hash__(self):
        return id(self) if core.HASH_BY_ID[0] else 0x5EED

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __ne__(self, o):
        return Not(self == o)

    def _lt(self, o, strict):
        a, b = self.okey(), self._coerce(o)
        if b is None:
            return NotImplemented
        b = b.okey()
        return a < b if strict else a <= b

    def __lt__(self, o):
        return self._lt(o, True)

    def __le__(self, o):
        return self._lt(o, False)

    def __gt__(self, o):
        r = self._lt(o, False)
        return r if r is NotImplemented else Not(r)

    def __ge__(self, o):
        r = self._lt(o, True)
        return r if r is NotImplemented else Not(r)

    def __bool__(self):
        return True

    def strftime(self, fmt):
        return strf(self, fmt)

    def sx_format(self, spec):
        if spec:
            return strf(self, spec)
        return self.isoformat()

    def __format__(self, spec):
        raise Unsupported('format of symbolic datetime outside f-string')

    def __str__(self):
        return '<symbolic datetime>'
    __repr__ = __str__


class SymDate(_Sym):
    __class__ = property(lambda self: _dt.date)
    __hash__ = _Sym.__hash__

    def __init__(self, year, month, day):
        self.year, self.month, self.day = year, month, day

    @staticmethod
    def make(y, m, d):
        if not issym(y, m, d):
            return _dt.date(y, m, d)
        return SymDate(y, m, d)

    @staticmethod
    def _coerce(o):
        if type(o) is SymDate:
            return o
        if isinstance(o, _dt.date) and not isinstance(o, _dt.datetime):
            return SymDate(o.year, o.month, o.day)
        return None

    def okey(self):
        return (self.year * 12 + self.month) * 31 + self.day

    def __eq__(self, o):
        p = self._coerce(o)
        if p is None:
            return False
        return And(self.year == p.year, self.month == p.month, self.day == p.day)

    def isoformat(self):
        return strf(self, '%Y-%m-%d')

    def toordinal(self):
        return ordinal(self.year, self.month, self.day)

    def weekday(self):
        return (self.toordinal() + 6) % 7

    def isoweekday(self):
        return self.weekday() + 1

    def timetuple(self):
        return TimeTuple(self.year, self.month, self.day, 0, 0, 0, self.weekday(), self.toordinal() - ordinal(self.year, 1, 1) + 1, -1)

    def replace(self, **k):
        return cls_date_new(*[k.get(f, getattr(self, f)) for f in FIELDS[:3]])

    def __sub__(self, o):
        p = self._coerce(o)
        if p is not None:
            return SymTimedelta.make((self.toordinal() - p.toordinal()) * 86400)
        t = as_td(o)
        if t is not None:
            return (SymDatetime(*self.triple()) - SymTimedelta.make((t.secs // 86400) * 86400)).date()
        return NotImplemented

    def __add__(self, o):
        t = as_td(o)
        if t is None:
            return NotImplemented
        return (SymDatetime(*self.triple()) + SymTimedelta.make((t.secs // 86400) * 86400)).date()
    __radd__ = __add__

    def triple(self):
        return (self.year, self.month, self.day)

    def sx_concrete(self, model):
        return _dt.date(*[core.concrete_value(v, model) for v in self.triple()])


class SymTime(_Sym):
    __class__ = property(lambda self: _dt.time)
    __hash__ = _Sym.__hash__
    tzinfo = None

    def __init__(self, hour=0, minute=0, second=0, microsecond=0):
        self.hour, self.minute, self.second, self.microsecond = hour, minute, second, microsecond

    @staticmethod
    def make(h, mi, s=0, us=0):
        if not issym(h, mi, s, us):
            return _dt.time(h, mi, s, us)
        return SymTime(h, mi, s, us)

    @staticmethod
    def _coerce(o):
        if type(o) is SymTime:
            return o
        if isinstance(o, _dt.time):
            return SymTime(o.hour, o.minute, o.second, o.microsecond)
        return None

    def okey(self):
        return ((self.hour * 60 + self.minute) * 60 + self.second) * 1000000 + self.microsecond

    def __eq__(self, o):
        p = self._coerce(o)
        if p is None:
            return False
        return And(self.hour == p.hour, self.minute == p.minute, self.second == p.second, self.microsecond == p.microsecond)

    def isoformat(self, *a):
        return strf(self, '%H:%M:%S')

    def replace(self, **k):
        return SymTime.make(*[k.get(f, getattr(self, f)) for f in FIELDS[3:]])

    def sx_concrete(self, model):
        return _dt.time(*[core.concrete_value(v, model) for v in (self.hour, self.minute, self.second, self.microsecond)])


class SymDatetime(_Sym):
    """Held as civil fields and/or total seconds since day 0."""
    __class__ = property(lambda self: _dt.datetime)
    __hash__ = _Sym.__hash__

    def __init__(self, year=None, month=None, day=None, hour=0, minute=0, second=0, microsecond=0,
                 tzinfo=None, total=None):
        self._f = None if year is None else (year, month, day, hour, minute, second, microsecond)
        self._us = microsecond
        self._total = total
        self.tzinfo = tzinfo

    @staticmethod
    def make(*f, tzinfo=None):
        f = tuple(f) + (0,) * (7 - len(f))
        if not issym(*f):
            return _dt.datetime(*f, tzinfo=tzinfo)
        return SymDatetime(*f, tzinfo=tzinfo)

    def fields(self):
        if self._f is None:
            e = core.ENG
            t = self._total
            key = ('civil', t.z().get_id())
            hit = e.cache.get(key)
            if hit is None:
                lo, hi = t.iv()
                ylo = 1 if lo is None else max(1, lo // (366 * 86400))
                yhi = 9999 if hi is None else min(9999, hi // (365 * 86400) + 1)
                y = SymInt.var(e.fresh_name('cy'), ylo, yhi)
                m = SymInt.var(e.fresh_name('cm'), 1, 12)
                d = SymInt.var(e.fresh_name('cd'), 1, 31)
                h = SymInt.var(e.fresh_name('ch'), 0, 23)
                mi = SymInt.var(e.fresh_name('cmi'), 0, 59)
                s = SymInt.var(e.fresh_name('cs'), 0, 59)
                e.add(core.bz(days_in_month_ok(y, m, d)))
                e.add(core.bz(((ordinal(y, m, d) * 24 + h) * 60 + mi) * 60 + s == t))
                hit = ((y, m, d, h, mi, s), t.z())
                e.cache[key] = hit
            self._f = hit[0] + (self._us,)
        return self._f

    def total(self):
        if self._total is None:
            y, m, d, h, mi, s, us = self._f
            self._total = ((ordinal(y, m, d) * 24 + h) * 60 + mi) * 60 + s
        return self._total

    year = property(lambda s: s.fields()[0])
    month = property(lambda s: s.fields()[1])
    day = property(lambda s: s.fields()[2])
    hour = property(lambda s: s.fields()[3])
    minute = property(lambda s: s.fields()[4])
    second = property(lambda s: s.fields()[5])
    microsecond = property(lambda s: s._us)

    @staticmethod
    def _coerce(o):
        if type(o) is SymDatetime:
            return o
        if isinstance(o, _dt.datetime):
            return SymDatetime(o.year, o.month, o.day, o.hour, o.minute, o.second, o.microsecond, tzinfo=o.tzinfo)
        return None

    def okey(self):
        y, m, d, h, mi, s, us = self.fields()
        k = (((y * 12 + m) * 31 + d) * 24 + h) * 60 + mi
        return (k * 60 + s) * 1000000 + us

    def _lt(self, o, strict):
        p = self._coerce(o)
        if p is None:
            return NotImplemented
        if (self.tzinfo is None) != (p.tzinfo is None):
            raise TypeError("can't compare offset-naive and offset-aware datetimes")
        if self._f is not None and p._f is not None:
            a, b = self.okey(), p.okey()
        else:
            a, b = self.total() * 1000000 + self._us, p.total() * 1000000 + p._us
        return a < b if strict else a <= b

    def __eq__(self, o):
        p = self._coerce(o)
        if p is None or (self.tzinfo is None) != (p.tzinfo is None):
            return False
        if self._f is not None and p._f is not None:
            return And(*[a == b for a, b in zip(self._f, p._f)])
        return And(self.total() == p.total(), self._us == p._us)

    def date(self):
        return SymDate.make(*self.fields()[:3])

    def time(self):
        return SymTime.make(*self.fields()[3:])

    def isoformat(self, sep='T', timespec='auto'):
        return strf(self, f'%Y-%m-%d{sep}%H:%M:%S')

    def timestamp(self):
        return (self - _dt.datetime(1970, 1, 1)).total_seconds()

    def replace(self, tzinfo='keep', **k):
        f = [k.get(n, v) for n, v in zip(FIELDS, self.fields())]
        return dt_new(*f, tzinfo=self.tzinfo if tzinfo == 'keep' else tzinfo)

    def toordinal(self):
        return ordinal(*self.fields()[:3])

    def weekday(self):
        return (self.toordinal() + 6) % 7

    def isoweekday(self):
        return self.weekday() + 1

    def timetuple(self):
        y, m, d = self.fields()[:3]
        return TimeTuple(*self.fields()[:6], self.weekday(), self.toordinal() - ordinal(y, 1, 1) + 1, -1)

    def __add__(self, o):
        t = as_td(o)
        if t is None:
            return NotImplemented
        if type(t.secs) is int and t.secs == 0 and t.micros == 0:
            return self
        us = self._us + t.micros
        if us != 0 and not (type(us) is int and 0 <= us < 1000000):
            raise Unsupported('microsecond arithmetic')
        tot = self.total() + t.secs
        # remember relation: same-day shift keeps nothing simple; use the total
        if type(tot) is int:
            d = _dt.datetime.fromordinal(tot // 86400) + _dt.timedelta(seconds=tot % 86400)
            return d.replace(tzinfo=self.tzinfo)
        return SymDatetime(total=tot, microsecond=us, tzinfo=self.tzinfo)
    __radd__ = __add__

    def __sub__(self, o):
        p = self._coerce(o)
        if p is not None:
            return SymTimedelta.make(self.total() - p.total(), self._us - p._us)
        t = as_td(o)
        if t is None:
            return NotImplemented
        return self + SymTimedelta.make(-t.secs, -t.micros)

    def __rsub__(self, o):
        p = self._coerce(o)
        if p is None:
            return NotImplemented
        return SymTimedelta.make(p.total() - self.total(), p._us - self._us)

    def sx_concrete(self, model):
        if self._f is not None:
            return _dt.datetime(*[core.concrete_value(v, model) for v in self._f], tzinfo=self.tzinfo)
        t = core.concrete_value(self._total, model)
        return _dt.datetime.fromordinal(t // 86400).replace(tzinfo=self.tzinfo) + _dt.timedelta(seconds=t % 86400)


def as_dt(o):
    return SymDatetime._coerce(o)


def dt_new(*a, tzinfo=None, **k):
    names = list(FIELDS)
    f = dict(zip(names, a))
    f.update(k)
    if len(a) > 7:
        tzinfo = a[7]
    vals = [f.get('year'), f.get('month'), f.get('day'), f.get('hour', 0), f.get('minute', 0),
            f.get('second', 0), f.get('microsecond', 0)]
    if not issym(*vals):
        return _dt.datetime(*vals, tzinfo=tzinfo)
    if any(type(v) is SymFloat or isinstance(v, float) for v in vals):
        raise TypeError('integer argument expected, got float')
    y, m, d, h, mi, s, us = vals
    if not And(y >= 1, y <= 9999):
        raise ValueError('year is out of range')
    if not And(m >= 1, m <= 12):
        raise ValueError('month must be in 1..12')
    if not And(d >= 1, days_in_month_ok(y, m, d)):
        raise ValueError('day is out of range for month')
    if not And(h >= 0, h <= 23):
        raise ValueError('hour must be in 0..23')
    if not And(mi >= 0, mi <= 59):
        raise ValueError('minute must be in 0..59')
    if not And(s >= 0, s <= 59):
        raise ValueError('second must be in 0..59')
    return SymDatetime(*vals, tzinfo=tzinfo)


def cls_date_new(y, m, d):
    if not issym(y, m, d):
        return _dt.date(y, m, d)
    if not valid_date(y, m, d):
        raise ValueError('invalid date')
    return SymDate(y, m, d)


WIDTHS = {'Y': 4, 'y': 2, 'm': 2, 'd': 2, 'H': 2, 'M': 2, 'S': 2}


def two(cs):
    """(all digits?, value) of a run of characters."""
    ok, v = [], 0
    for c in cs:
        if type(c) is str:
            if not c.isdigit():
                return False, 0
            x = int(c)
        else:
            ok.append(in_range(c, 48, 57))
            x = c - 48
        v = v * 10 + x
    return And(*ok), v


def strptime(s, fmt):
    if type(s) is not SymStr:
        if not isinstance(s, str):
            raise TypeError(f'strptime() argument 1 must be str, not {type(s).__name__}')
        return _dt.datetime.strptime(s, fmt)
    toks, i = [], 0
    while i < len(fmt):
        if fmt[i] == '%':
            toks.append(('%', fmt[i + 1]))
            i += 2
        else:
            toks.append(('c', fmt[i]))
            i += 1
    total = sum(WIDTHS.get(v, 1) if k == '%' else 1 for k, v in toks)
    cs = chars_of(s)
    if any(k == '%' and v not in WIDTHS for k, v in toks):
        raise Unsupported(f'strptime format {fmt}')
    if len(cs) != total:
        # shorter strings may still match with one-digit fields; delegate on concretised text
        if len(cs) > total:
            raise ValueError('unconverted data remains or no match')
        return _dt.datetime.strptime(s.concretize(), fmt)
    f = {'Y': None, 'y': None, 'm': 1, 'd': 1, 'H': 0, 'M': 0, 'S': 0}
    pos, conds = 0, []
    for k, v in toks:
        if k == 'c':
            conds.append(core.And(in_range(cs[pos], ord(v), ord(v))))
            pos += 1
            continue
        w = WIDTHS[v]
        ok, val = two(cs[pos:pos + w])
        conds.append(ok)
        f[v] = val
        pos += w
    if not And(*conds):
        raise ValueError('time data does not match format')
    if f['Y'] is not None:
        y = f['Y']
    elif f['y'] is not None:
        yy = f['y']
        y = ite(yy >= 69, yy + 1900, yy + 2000)
        if type(y) is SymInt and type(yy) is SymInt:
            lo, hi = yy.iv()
            if lo is not None and hi is not None:
                if lo >= 69:
                    y = yy + 1900
                elif hi < 69:
                    y = yy + 2000
                else:
                    y._iv = (1969, 2068)
    else:
        y = 1900
    ok = And(valid_date(y, f['m'], f['d']), f['H'] >= 0, f['H'] <= 23, f['M'] >= 0, f['M'] <= 59,
             f['S'] >= 0, f['S'] <= 59)
    if not ok:
        raise ValueError('time data does not match format (field out of range)')
    vals = [y, f['m'], f['d'], f['H'], f['M'], f['S']]
    rng = [(1, 9999), (1, 12), (1, 31), (0, 23), (0, 59), (0, 59)]
    for v, (a, b) in zip(vals, rng):
        if type(v) is SymInt:
            lo, hi = v.iv()
            v._iv = (a if lo is None else max(a, lo), b if hi is None else min(b, hi))
    return SymDatetime.make(*vals)


class _M(type):
    def __instancecheck__(cls, o):
        return isinstance(o, cls.real)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls.real)

    def __getattr__(cls, n):
        return getattr(cls.real, n)


class datetime(metaclass=_M):
    real = _dt.datetime

    def __new__(cls, *a, **k):
        return dt_new(*a, **k)

    @staticmethod
    def strptime(s, fmt):
        return strptime(s, fmt)

    @staticmethod
    def strftime(d, fmt):
        return d.strftime(fmt)

    @staticmethod
    def combine(d, t, tzinfo=None):
        f = (d.year, d.month, d.day, t.hour, t.minute, t.second, t.microsecond)
        return SymDatetime.make(*f, tzinfo=tzinfo)

    @staticmethod
    def fromisoformat(s):
        if type(s) is SymStr:
            return strptime(s, '%Y-%m-%dT%H:%M:%S') if len(s) == 19 else _dt.datetime.fromisoformat(s.concretize())
        return _dt.datetime.fromisoformat(s)


class date(metaclass=_M):
    real = _dt.date

    def __new__(cls, y, m, d):
        return cls_date_new(y, m, d)


class time(metaclass=_M):
    real = _dt.time

    def __new__(cls, hour=0, minute=0, second=0, microsecond=0, tzinfo=None):
        if not issym(hour, minute, second, microsecond):
            return _dt.time(hour, minute, second, microsecond)
        if not And(hour >= 0, hour <= 23, minute >= 0, minute <= 59, second >= 0, second <= 59):
            raise ValueError('time out of range')
        return SymTime(hour, minute, second, microsecond)


class timedelta(metaclass=_M):
    real = _dt.timedelta

    def __new__(cls, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        vals = (days, seconds, microseconds, milliseconds, minutes, hours, weeks)
        if not issym(*vals):
            return _dt.timedelta(*vals)
        secs = days * 86400 + seconds + minutes * 60 + hours * 3600 + weeks * 604800
        if type(secs) is SymFloat:
            if secs.origin is not None:
                secs = secs.origin
            else:
                raise Unsupported('fractional timedelta')
        return SymTimedelta.make(secs, microseconds + milliseconds * 1000)


class datetime_mod:
    datetime, date, time, timedelta = datetime, date, time, timedelta
    timezone = _dt.timezone
    tzinfo = _dt.tzinfo
    UTC = _dt.timezone.utc
    MINYEAR, MAXYEAR = 1, 9999


def sym_datetime(name, ylo=1969, yhi=2068, seconds=False, tzinfo=None):
    """Arbitrary valid datetime (year within bounds)."""
    y = SymInt.var(name + '.year', ylo, yhi)
    m = SymInt.var(name + '.month', 1, 12)
    d = SymInt.var(name + '.day', 1, 31)
    core.ENG.add(core.bz(days_in_month_ok(y, m, d)))
    h = SymInt.var(name + '.hour', 0, 23)
    mi = SymInt.var(name + '.minute', 0, 59)
    s = SymInt.var(name + '.second', 0, 59) if seconds else 0
    return SymDatetime(y, m, d, h, mi, s, 0, tzinfo=tzinfo)
