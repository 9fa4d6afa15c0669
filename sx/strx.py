"""Symbolic strings of concrete length and formatting."""
import re as _re

from . import core
from .core import And, Not, Or, SymBool, SymFloat, SymInt, Unsupported, ite


def is_symstr(x):
    return type(x) is SymStr


def mkstr(chars):
    out = []
    for c in chars:
        if type(c) is int:
            c = chr(c)
        out.append(c)
    if all(type(c) is str for c in out):
        return ''.join(out)
    return SymStr(out)


def chars_of(s):
    return s.chars if type(s) is SymStr else list(s)


def code(c):
    return ord(c) if type(c) is str else c


def ch_eq(a, b):
    if type(a) is str and type(b) is str:
        return a == b
    return code(a) == code(b)


def in_range(c, lo, hi):
    v = code(c)
    if type(v) is int:
        return lo <= v <= hi
    return And(v >= lo, v <= hi)


WS = ' \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0'


def ch_isspace(c):
    if type(c) is str:
        return c.isspace()
    lo, hi = c.iv()
    return Or(*[c == ord(w) for w in WS if (lo is None or ord(w) >= lo) and (hi is None or ord(w) <= hi)])


class SymStr:
    """String of known length whose characters may be symbolic code points."""
    __slots__ = ('chars',)
    __class__ = property(lambda self: str)

    def __init__(self, chars):
        self.chars = list(chars)

    @staticmethod
    def var(name, length, lo=32, hi=126, alphabet=None):
        cs = []
        runs = None
        if alphabet is not None:
            codes = sorted({ord(c) for c in alphabet})
            lo, hi = codes[0], codes[-1]
            runs = []
            for c in codes:
                if runs and runs[-1][1] == c - 1:
                    runs[-1][1] = c
                else:
                    runs.append([c, c])
        for i in range(length):
            v = SymInt.var(f'{name}[{i}]', lo, hi)
            cs.append(v)
            if runs and len(runs) > 1:
                core.ENG.assume(core.Or(*[core.And(v >= a, v <= b) for a, b in runs]))
        return SymStr(cs)

    def concretize(self):
        return ''.join(c if type(c) is str else chr(c.concretize()) for c in self.chars)

    def __len__(self):
        return len(self.chars)

    def __getitem__(self, i):
        if isinstance(i, slice):
            i = slice(*[None if x is None else x.__index__() for x in (i.start, i.stop, i.step)])
            return mkstr(self.chars[i])
        return mkstr([self.chars[i.__index__()]])

    def __iter__(self):
        return iter([mkstr([c]) for c in self.chars])

    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mkstr(self.chars + chars_of(o))

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mkstr(chars_of(o) + self.chars)

    def __mul__(self, n):
        return mkstr(self.chars * n.__index__())
    __rmul__ = __mul__

    def __mod__(self, args):
        return percent_format(self.concretize(), args)

    def __eq__(self, o):
        if not isinstance(o, str):
            return False
        oc = chars_of(o)
        if len(oc) != len(self.chars):
            return False
        return And(*[ch_eq(a, b) for a, b in zip(self.chars, oc)])

    def __ne__(self, o):
        return Not(self == o)

    def _lt(self, o, strict):
        a, b = self.chars, chars_of(o)
        for x, y in zip(a, b):
            if not ch_eq(x, y):
                return code(x) < code(y)
        return len(a) < len(b) if strict else len(a) <= len(b)

    def __lt__(self, o):
        return self._lt(o, True)

    def __le__(self, o):
        return self._lt(o, False)

    def __gt__(self, o):
        return Not(self._lt(o, False))

    def __ge__(self, o):
        return Not(self._lt(o, True))

    def __hash__(self):
        if core.HASH_BY_ID[0]:
            return id(self)
        sym = [c for c in self.chars if type(c) is not str]
        if len(sym) == 1:
            lo, hi = sym[0].iv()
            if lo is not None and hi is not None and hi - lo <= 64:
                return hash(self.concretize())
        return 0x5EED

    def __bool__(self):
        return len(self.chars) > 0

    def __contains__(self, sub):
        return self.find(sub) >= 0

    def find(self, sub, start=0, end=None):
        sc = chars_of(sub)
        end = len(self.chars) if end is None else min(end, len(self.chars))
        for i in range(start, end - len(sc) + 1):
            if bool(And(*[ch_eq(a, b) for a, b in zip(self.chars[i:i + len(sc)], sc)])):
                return i
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rfind(self, sub):
        sc = chars_of(sub)
        for i in range(len(self.chars) - len(sc), -1, -1):
            if bool(And(*[ch_eq(a, b) for a, b in zip(self.chars[i:i + len(sc)], sc)])):
                return i
        return -1

    def count(self, sub, *a):
        n, i, L = 0, 0, len(sub)
        while True:
            i = self.find(sub, i)
            if i < 0:
                return n
            n += 1
            i += L

    def _map(self, f):
        return mkstr([f(c) for c in self.chars])

    def upper(self):
        def up(c):
            if type(c) is str:
                return c.upper()
            lo, hi = c.iv()
            if hi is not None and hi > 127 or lo is None or lo < 0:
                if not (c < 128):
                    raise Unsupported('upper of non-ascii')
            if (lo is not None and lo > 122) or (hi is not None and hi < 97):
                return c
            key = ('upper', c.z().get_id())
            hit = core.ENG.cache.get(key)
            if hit is None:
                r = ite(And(c >= 97, c <= 122), c - 32, c)
                if type(r) is SymInt and lo is not None and hi is not None:
                    r._iv = (min(lo, 65) if hi >= 97 else lo, hi if hi > 122 else 96 if hi >= 97 else hi)
                hit = (r, c.z())
                core.ENG.cache[key] = hit
            return hit[0]
        return self._map(up)

    def lower(self):
        def dn(c):
            if type(c) is str:
                return c.lower()
            lo, hi = c.iv()
            if hi is not None and hi > 127 or lo is None or lo < 0:
                if not (c < 128):
                    raise Unsupported('lower of non-ascii')
            if (lo is not None and lo > 90) or (hi is not None and hi < 65):
                return c
            return ite(And(c >= 65, c <= 90), c + 32, c)
        return self._map(dn)
    casefold = lower

    def title(self):
        raise Unsupported('title')

    def capitalize(self):
        return mkstr(chars_of(self[:1].upper()) + chars_of(self[1:].lower()))

    def _strip(self, chars, left, right):
        def isin(c):
            if chars is None:
                return ch_isspace(c)
            return Or(*[ch_eq(c, x) for x in chars])
        i, j = 0, len(self.chars)
        if left:
            while i < j and isin(self.chars[i]):
                i += 1
        if right:
            while j > i and isin(self.chars[j - 1]):
                j -= 1
        return mkstr(self.chars[i:j])

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def split(self, sep=None, maxsplit=-1):
        out = []
        if sep is None:
            cur = []
            n = 0
            for idx, c in enumerate(self.chars):
                if ch_isspace(c):
                    if cur:
                        out.append(mkstr(cur))
                        cur = []
                else:
                    cur.append(c)
            if cur:
                out.append(mkstr(cur))
            return out
        i, L = 0, len(sep)
        while maxsplit != 0:
            j = self.find(sep, i)
            if j < 0:
                break
            out.append(mkstr(self.chars[i:j]))
            i = j + L
            maxsplit -= 1
        out.append(mkstr(self.chars[i:]))
        return out

    def partition(self, sep):
        j = self.find(sep)
        if j < 0:
            return (self, '', '')
        return (mkstr(self.chars[:j]), sep, mkstr(self.chars[j + len(sep):]))

    def rpartition(self, sep):
        j = self.rfind(sep)
        if j < 0:
            return ('', '', self)
        return (mkstr(self.chars[:j]), sep, mkstr(self.chars[j + len(sep):]))

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            raise Unsupported('rsplit at white space')
        out, s = [], self
        while maxsplit:
            a, q, b = s.rpartition(sep) if type(s) is SymStr else str.rpartition(s, sep)
            if not q:
                break
            out.append(b)
            s = a
            maxsplit -= 1
        return [s] + out[::-1]

    def translate(self, table):
        out = []
        for c in self.chars:
            for k, v in table.items():
                if bool(ch_eq(c, chr(k) if isinstance(k, int) else k)):
                    out.extend([] if v is None else chars_of(chr(v) if isinstance(v, int) else v))
                    break
            else:
                out.append(c)
        return mkstr(out)

    def replace(self, old, new, count=-1):
        return join(new, self.split(old, count))

    def splitlines(self, keepends=False):
        return self.split('\n')

    def join(self, parts):
        return join(self, parts)

    def startswith(self, p, start=0):
        if isinstance(p, tuple):
            return any(self.startswith(q, start) for q in p)
        pc = chars_of(p)
        cs = self.chars[start:]
        return len(pc) <= len(cs) and bool(And(*[ch_eq(a, b) for a, b in zip(cs, pc)]))

    def endswith(self, p):
        if isinstance(p, tuple):
            return any(self.endswith(q) for q in p)
        pc = chars_of(p)
        n = len(pc)
        return n <= len(self.chars) and bool(And(*[ch_eq(a, b) for a, b in zip(self.chars[len(self.chars) - n:], pc)]))

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:len(self) - len(p)] if p and self.endswith(p) else self

    def ljust(self, n, fill=' '):
        return mkstr(self.chars + [fill] * max(0, n - len(self.chars)))

    def rjust(self, n, fill=' '):
        return mkstr([fill] * max(0, n - len(self.chars)) + self.chars)

    def center(self, n, fill=' '):
        k = max(0, n - len(self.chars))
        left = k // 2 + (k & n & 1)
        return mkstr([fill] * left + self.chars + [fill] * (k - left))

    def zfill(self, n):
        if self.chars and bool(Or(ch_eq(self.chars[0], '-'), ch_eq(self.chars[0], '+'))):
            return mkstr([self.chars[0]] + ['0'] * max(0, n - len(self.chars)) + self.chars[1:])
        return self.rjust(n, '0')

    def isdigit(self):
        return bool(self.chars) and bool(And(*[in_range(c, 48, 57) for c in self.chars]))
    isnumeric = isdecimal = isdigit

    def isalpha(self):
        return bool(self.chars) and bool(And(*[Or(in_range(c, 65, 90), in_range(c, 97, 122)) for c in self.chars]))

    def isalnum(self):
        return bool(self.chars) and bool(And(*[Or(in_range(c, 48, 57), in_range(c, 65, 90), in_range(c, 97, 122)) for c in self.chars]))

    def isspace(self):
        return bool(self.chars) and bool(And(*[ch_isspace(c) for c in self.chars]))

    def isascii(self):
        return bool(And(*[code(c) < 128 for c in self.chars]))

    def isupper(self):
        return bool(self == self.upper()) and not bool(self == self.lower())

    def encode(self, encoding='utf-8', errors='strict'):
        from .bytesx import mkbytes
        enc = encoding.lower().replace('-', '').replace('_', '')
        out = []
        for c in self.chars:
            if type(c) is str:
                out += list(c.encode(encoding, errors))
                continue
            lim = 255 if enc in ('latin1', 'iso88591') else 127
            hi = c.iv()[1]
            if hi is None or hi > lim:
                if not (c <= lim):
                    if enc == 'ascii' and errors == 'strict':
                        raise UnicodeEncodeError('ascii', '?', 0, 1, 'ordinal not in range(128)')
                    if enc == 'utf8' and c < 0x800:
                        out.append(c // 64 + 0xC0)
                        out.append(c % 64 + 0x80)
                        continue
                    raise Unsupported('encode of non-ascii symbolic character')
            out.append(c)
        return mkbytes(out)

    def format(self, *a, **k):
        return str_format(self.concretize(), a, k)

    def sx_concrete(self, model):
        return ''.join(c if type(c) is str else chr(core.concrete_value(c, model)) for c in self.chars)

    def __repr__(self):
        return 'SymStr(' + ''.join(c if type(c) is str else '?' for c in self.chars) + ')'

    def __str__(self):
        return ''.join(c if type(c) is str else '?' for c in self.chars)

    def __format__(self, spec):
        return '<symstr>'

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def join(sep, parts):
    parts = list(parts)
    out = []
    sc = chars_of(sep)
    for i, p in enumerate(parts):
        if not isinstance(p, str):
            raise TypeError(f'sequence item {i}: expected str instance, {type(p).__name__} found')
        if i:
            out += sc
        out += chars_of(p)
    return mkstr(out)


def int_digits(n):
    """Characters of the decimal representation of a symbolic int."""
    neg = False
    if n < 0:
        neg = True
        n = -n
    k = 1
    while True:
        if n < 10 ** k:
            break
        k += 1
        if k > 25:
            raise Unsupported('digits of a very large integer')
    return neg, digits_fixed(n, k)


def digits_fixed(n, k):
    if type(n) is int:
        return list(str(n).rjust(k, '0'))
    qs = [n]
    for _ in range(k - 1):
        q = qs[-1]
        qs.append(q // 10 if type(q) is int else q.divmod_const(10)[0])
    out = []
    for i in range(k):
        d = qs[i] - (qs[i + 1] * 10 if i + 1 < k else 0)
        if type(d) is SymInt:
            lo, hi = d.iv()
            if i + 1 < k or hi is None or hi > 9:
                d._iv = (max(0, lo) if lo is not None else 0, min(9, hi) if hi is not None else 9)
        out.append(chr(48 + d) if type(d) is int else d + 48)
    return out[::-1]


SPEC = _re.compile(r'(?:(.)?([<>=^]))?([-+ ])?(z)?(#)?(0)?(\d+)?([,_])?(?:\.(\d+))?([a-zA-Z%])?$')


class FloatText(str):
    """Text of a real number to so many decimals: only good for being read as a number again."""

    def __new__(cls, v, prec):
        core.ENG.note('symbolic float formatted (placeholder unless read again)')
        s = str.__new__(cls, '<float>')
        s.number, s.prec = v, prec
        return s

    def value(self):
        return round(self.number, self.prec)

    def strip(self, chars=None):
        return self
    lstrip = rstrip = strip


def format_value(v, spec=''):
    """format(v, spec) for possibly symbolic v; returns str or SymStr."""
    if type(spec) is SymStr:
        spec = spec.concretize()
    t = type(v)
    if isinstance(v, SymBool):
        v = bool(v)
        return format(v, spec)
    if hasattr(v, 'sx_format'):
        return v.sx_format(spec)
    if t not in (SymInt, SymStr, SymFloat):
        if isinstance(v, (list, tuple, dict)) and contains_sym(v):
            return '<symbolic>'
        return format(v, spec)
    m = SPEC.match(spec)
    if not m:
        raise ValueError('Invalid format specifier')
    fill, align, sign, _z, _alt, zero, width, sep, prec, typ = m.groups()
    width = int(width) if width else 0
    if t is SymStr:
        if typ not in (None, 's'):
            raise ValueError(f"Unknown format code '{typ}' for object of type 'str'")
        cs = v.chars[:int(prec)] if prec is not None else list(v.chars)
        fill = fill or ('0' if zero else ' ')
        align = align or '<'
        return _pad(cs, fill, align, width)
    if t is SymFloat:
        if v.origin is not None and typ in ('f',) and prec == '0':
            v, typ, t = v.origin, 'd', SymInt
        elif typ == 'f' and int(prec or 6) <= 9:
            return FloatText(v, int(prec or 6))
        else:
            core.ENG.note('symbolic float formatted (placeholder)')
            return '<float>'
    if typ in ('f', 'e', 'g', 'F', 'E', 'G', '%'):
        if typ == 'f' and prec == '0':
            pass
        elif typ == 'f' and int(prec or 6) <= 9:
            return FloatText(v.to_real(), int(prec or 6))
        else:
            core.ENG.note('symbolic int formatted as float (placeholder)')
            return '<float>'
    if typ == 's':
        raise ValueError("Unknown format code 's' for object of type 'int'")
    if typ in ('x', 'X', 'o', 'b', 'c') or sep:
        return format(v.concretize(), spec)
    if zero and not align:
        fill, align = '0', '='
    fill = fill or ' '
    align = align or '>'
    if fill == '0' and align == '=' and width and not sign:
        if v >= 0 and v < 10 ** width:
            return mkstr(digits_fixed(v, width))
    neg, ds = int_digits(v)
    sg = ['-'] if neg else [sign] if sign in ('+', ' ') else []
    if align == '=':
        return mkstr(sg + [fill] * max(0, width - len(ds) - len(sg)) + ds)
    return _pad(sg + ds, fill, align, width)


def _pad(cs, fill, align, width):
    n = max(0, width - len(cs))
    if align == '<':
        return mkstr(cs + [fill] * n)
    if align == '>':
        return mkstr([fill] * n + cs)
    l = n // 2
    return mkstr([fill] * l + cs + [fill] * (n - l))


def contains_sym(v, depth=0):
    if depth > 4:
        return False
    if type(v) in (SymInt, SymFloat, SymStr) or isinstance(v, SymBool) and type(v) is SymBool or hasattr(v, 'sx_concrete') or hasattr(v, 'sx_format'):
        return True
    if isinstance(v, dict):
        return any(contains_sym(x, depth + 1) for x in v.values()) or any(contains_sym(x, depth + 1) for x in v)
    if isinstance(v, (list, tuple, set, frozenset)):
        return any(contains_sym(x, depth + 1) for x in v)
    return False


def fstring(parts):
    """Rewritten f-string: parts are str or (value, conversion, spec)."""
    out = []
    if len(parts) == 1 and type(parts[0]) is tuple and not parts[0][1]:
        text = format_value(parts[0][0], parts[0][2])
        if type(text) is FloatText:
            return text
    for p in parts:
        if type(p) is str:
            out += list(p)
            continue
        v, conv, spec = p
        if conv == 'r':
            v = v if not contains_sym(v) else '<symbolic>'
            v = repr(v)
        elif conv == 's':
            v = to_str(v)
        elif conv == 'a':
            v = ascii(v)
        out += chars_of(format_value(v, spec))
    return mkstr(out)


def to_str(v):
    if type(v) is SymStr:
        return v
    if type(v) is SymInt:
        neg, ds = int_digits(v)
        return mkstr((['-'] if neg else []) + ds)
    if type(v) is SymFloat:
        core.ENG.note('str of symbolic float (placeholder)')
        return '<float>'
    if hasattr(v, 'sx_format'):
        return v.sx_format('')
    if isinstance(v, (list, tuple, dict)) and contains_sym(v):
        return '<symbolic>'
    return str(v)


PCT = _re.compile(r'%(?:\((\w+)\))?([-+ 0#]*)(\d+|\*)?(?:\.(\d+))?([a-zA-Z%])')


def percent_format(fmt, args):
    if not contains_sym(args):
        return fmt % args
    out, i, k = [], 0, 0
    seq = args if isinstance(args, tuple) and type(args) is tuple else (args,)
    for m in PCT.finditer(fmt):
        out += list(fmt[i:m.start()])
        i = m.end()
        key, flags, width, prec, typ = m.groups()
        if typ == '%':
            out.append('%')
            continue
        if key:
            v = args[key]
        else:
            v = seq[k]
            k += 1
        if typ in 'di':
            spec = ('0' if '0' in flags and '-' not in flags else '') + (width or '') + 'd'
            if '-' in flags:
                spec = '<' + (width or '') + 'd'
            if type(v) is SymFloat:
                v = v.to_int_trunc()
            out += chars_of(format_value(v, spec))
        elif typ in 's':
            s = to_str(v)
            cs = chars_of(s)
            if prec is not None:
                cs = cs[:int(prec)]
            out += chars_of(_pad(cs, ' ', '<' if '-' in flags else '>', int(width or 0)))
        else:
            text = format_value(v, (width or '') + ('.' + prec if prec else '') + typ)
            if type(text) is FloatText and m.group(0) == fmt.strip():
                return text
            out += chars_of(text)
    out += list(fmt[i:])
    return mkstr(out)


FMT = _re.compile(r'\{\{|\}\}|\{([^{}:!]*)(?:!([rsa]))?(?::([^{}]*))?\}')


def str_format(fmt, args, kw):
    if not contains_sym(args) and not contains_sym(kw):
        return fmt.format(*args, **kw)
    out, i, k = [], 0, 0
    for m in FMT.finditer(fmt):
        out += list(fmt[i:m.start()])
        i = m.end()
        if m.group(0) in ('{{', '}}'):
            out.append(m.group(0)[0])
            continue
        name = m.group(1)
        if name == '':
            v = args[k]
            k += 1
        elif name.isdigit():
            v = args[int(name)]
        elif name.isidentifier():
            v = kw[name]
        else:
            raise Unsupported('complex str.format field')
        if m.group(2) == 's':
            v = to_str(v)
        text = format_value(v, m.group(3) or '')
        if type(text) is FloatText and m.group(0) == fmt.strip():
            return text
        out += chars_of(text)
    out += list(fmt[i:])
    return mkstr(out)


def str_to_int(s, base=10):
    """int(SymStr)."""
    if base != 10:
        return int(s.concretize(), base)
    s = s.strip()
    cs = chars_of(s)
    sign = 1
    if cs and not (type(cs[0]) is str and cs[0].isdigit()):
        if ch_eq(cs[0], '-'):
            sign, cs = -1, cs[1:]
        elif ch_eq(cs[0], '+'):
            cs = cs[1:]
    if not cs:
        raise ValueError("invalid literal for int() with base 10")
    tot = 0
    for c in cs:
        if type(c) is str:
            if not c.isdigit():
                raise ValueError("invalid literal for int() with base 10")
            d = int(c)
        else:
            if not in_range(c, 48, 57):
                raise ValueError("invalid literal for int() with base 10")
            d = c - 48
            if type(d) is SymInt:
                lo, hi = d.iv()
                d._iv = (max(lo, 0) if lo is not None else 0, min(hi, 9) if hi is not None else 9)
        tot = tot * 10 + d
    return tot * sign


def str_to_float(s):
    """float(SymStr) for plain decimal notation."""
    s = s.strip()
    cs = chars_of(s)
    dot = None
    for i, c in enumerate(cs):
        if ch_eq(c, '.'):
            dot = i
            break
    if dot is None:
        v = str_to_int(mkstr(cs))
        return v.to_real() if type(v) is SymInt else float(v)
    frac = cs[dot + 1:]
    v = str_to_int(mkstr(cs[:dot] + frac))
    from fractions import Fraction
    if type(v) is int:
        return v / 10 ** len(frac)
    return v.to_real() * Fraction(1, 10 ** len(frac))
