"""Symbolic byte strings, struct packing, in-memory files."""
import builtins
import os
import struct as _struct
import sys

import z3

from . import core
from .core import (And, BVInt, Not, Or, SymBool, SymFloat, SymInt, Unsupported, as_symfloat,
                   as_symint)

NATIVE_LITTLE = sys.byteorder == 'little'


class Tok:
    """A multi-byte scalar whose bytes are kept symbolic."""
    __slots__ = ('value', 'size', 'kind', '_bits')

    def __init__(self, value, size, kind):
        self.value, self.size, self.kind = value, size, kind
        self._bits = None

    def int_value(self):
        """Unsigned integer of the token's bit pattern."""
        if self.kind == 'int':
            return self.value.wrap(8 * self.size, False) if type(self.value) is SymInt else self.value % (1 << 8 * self.size)
        if self._bits is None:
            v = self.value
            key = ('fbits', v.r.get_id(), self.size)
            hit = core.ENG.cache.get(key)
            if hit is None:
                b = SymInt.var(core.ENG.fresh_name('fbits'), 0, (1 << 8 * self.size) - 1)
                core.ENG.cache[key] = hit = (b, v.r)
                core.ENG.cache[('bitsf', b.z().get_id(), self.size)] = (v, b.z())
            self._bits = hit[0]
        return self._bits


class BT:
    """One byte of a token; k = significance (0 is least significant)."""
    __slots__ = ('tok', 'k')

    def __init__(self, tok, k):
        self.tok, self.k = tok, k

    def value(self):
        v = self.tok.int_value()
        if type(v) is int:
            return (v >> (8 * self.k)) & 255
        if v._prefers_bv():
            b = v.bv(max(v.width(), 8 * self.tok.size))
            return SymInt.from_bv(z3.Extract(8 * self.k + 7, 8 * self.k, b), False)
        return (v // (1 << 8 * self.k)) % 256


def cell_value(c):
    return c.value() if isinstance(c, BT) else c


def mkbytes(cells):
    if all(type(c) is int for c in cells):
        return bytes(cells)
    return SymBytes(cells)


def cells_of(b):
    if type(b) is CutBytes:
        return b.sx_cells()
    if type(b) in (SymBytes, SymByteArray):
        return b.cells
    if isinstance(b, (bytes, bytearray, memoryview)):
        return list(bytes(b))
    if hasattr(b, 'sx_cells'):
        return b.sx_cells()
    if hasattr(b, 'tobytes'):
        return cells_of(b.tobytes())
    raise TypeError(f"a bytes-like object is required, not '{type(b).__name__}'")


def is_bytes(b):
    return isinstance(b, (bytes, bytearray, memoryview)) or type(b) in (SymBytes, SymByteArray, CutBytes)


class SymBytes:
    __slots__ = ('cells',)
    __class__ = property(lambda self: bytes)

    def __init__(self, cells):
        self.cells = list(cells)

    def _mk(self, cells):
        return mkbytes(cells)

    def __len__(self):
        return len(self.cells)

    def __getitem__(self, i):
        if isinstance(i, slice):
            i = slice(*[None if x is None else x.__index__() for x in (i.start, i.stop, i.step)])
            return self._mk(self.cells[i])
        return cell_value(self.cells[i.__index__()])

    def __iter__(self):
        return iter([cell_value(c) for c in self.cells])

    def __add__(self, o):
        return self._mk(self.cells + cells_of(o))

    def __radd__(self, o):
        return self._mk(cells_of(o) + self.cells)

    def __mul__(self, n):
        return self._mk(self.cells * n.__index__())

    def __eq__(self, o):
        if not is_bytes(o):
            return False
        oc = cells_of(o)
        if len(oc) != len(self.cells):
            return False
        return And(*[_cell_eq(a, b) for a, b in zip(self.cells, oc)])

    def __ne__(self, o):
        return Not(self == o)

    def __hash__(self):
        return id(self) if core.HASH_BY_ID[0] else 0x5EED

    def __bool__(self):
        return len(self.cells) > 0

    def __contains__(self, x):
        if is_bytes(x):
            return self.find(x) >= 0
        return any(bool(cell_value(c) == x) for c in self.cells)

    def find(self, sub, start=0, end=None):
        sc = cells_of(sub) if is_bytes(sub) else [sub]
        end = len(self.cells) if end is None else end
        for i in range(start, end - len(sc) + 1):
            if bool(And(*[_cell_eq(a, b) for a, b in zip(self.cells[i:i + len(sc)], sc)])):
                return i
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError('subsection not found')
        return r

    def rfind(self, sub):
        sc = cells_of(sub) if is_bytes(sub) else [sub]
        for i in range(len(self.cells) - len(sc), -1, -1):
            if bool(And(*[_cell_eq(a, b) for a, b in zip(self.cells[i:i + len(sc)], sc)])):
                return i
        return -1

    def count(self, sub):
        n, i = 0, 0
        L = len(cells_of(sub) if is_bytes(sub) else [sub])
        while True:
            i = self.find(sub, i)
            if i < 0:
                return n
            n += 1
            i += L

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            raise Unsupported('bytes.split()')
        out, i = [], 0
        L = len(cells_of(sep))
        while maxsplit != 0:
            j = self.find(sep, i)
            if j < 0:
                break
            out.append(self._mk(self.cells[i:j]))
            i = j + L
            maxsplit -= 1
        out.append(self._mk(self.cells[i:]))
        return out

    def partition(self, sep):
        j = self.find(sep)
        if j < 0:
            return (self, b'', b'')
        L = len(cells_of(sep))
        return (self._mk(self.cells[:j]), sep, self._mk(self.cells[j + L:]))

    def replace(self, old, new, count=-1):
        return self._mk(cells_of(_join(new, self.split(old, count))))

    def startswith(self, p):
        if isinstance(p, tuple):
            return any(self.startswith(q) for q in p)
        pc = cells_of(p)
        return len(pc) <= len(self.cells) and bool(And(*[_cell_eq(a, b) for a, b in zip(self.cells, pc)]))

    def endswith(self, p):
        pc = cells_of(p)
        n = len(pc)
        return n <= len(self.cells) and bool(And(*[_cell_eq(a, b) for a, b in zip(self.cells[len(self.cells) - n:], pc)]))

    def _strip_n(self, chars, left, right):
        chars = b' \t\n\r\x0b\x0c' if chars is None else bytes(chars)
        i, j = 0, len(self.cells)
        def isin(c):
            v = cell_value(c)
            if type(v) is int:
                return v in chars
            return bool(Or(*[v == ch for ch in set(chars)]))
        if left:
            while i < j and isin(self.cells[i]):
                i += 1
        if right:
            while j > i and isin(self.cells[j - 1]):
                j -= 1
        return self._mk(self.cells[i:j])

    def strip(self, chars=None):
        return self._strip_n(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip_n(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip_n(chars, False, True)

    def ljust(self, n, fill=b' '):
        return self._mk(self.cells + [fill[0]] * max(0, n - len(self.cells)))

    def rjust(self, n, fill=b' '):
        return self._mk([fill[0]] * max(0, n - len(self.cells)) + self.cells)

    def decode(self, encoding='utf-8', errors='strict'):
        from .strx import mkstr
        enc = encoding.lower().replace('-', '').replace('_', '')
        out = []
        run = []

        def flush():
            if run:
                out.extend(bytes(run).decode(encoding, errors))
                run.clear()
        for c in self.cells:
            v = cell_value(c)
            if type(v) is int:
                run.append(v)
                continue
            flush()
            hi = v.iv()[1]
            if enc not in ('latin1', 'iso88591'):
                if hi is None or hi > 127:
                    if not (v < 128):
                        if errors == 'strict':
                            raise UnicodeDecodeError(encoding, b'\xff', 0, 1, 'symbolic byte')
                        if errors == 'ignore':
                            continue
                        raise Unsupported('decode of non-ascii symbolic byte')
            out.append(v)
        flush()
        return mkstr(out)

    def hex(self):
        raise Unsupported('hex of symbolic bytes')

    def join(self, parts):
        return _join(self, parts)

    def tobytes(self):
        return self

    def tolist(self):
        return list(self)

    def cast(self, *a):
        return self

    def sx_concrete(self, model):
        return bytes(core.concrete_value(v, model) if not isinstance(v, int) or type(v) is SymInt else v
                     for v in (cell_value(c) for c in self.cells))

    def __repr__(self):
        return f'SymBytes(<{len(self.cells)}>)'

    def __deepcopy__(self, memo):
        return self


class SymByteArray(SymBytes):
    __slots__ = ()
    __class__ = property(lambda self: bytearray)
    __hash__ = None

    def _mk(self, cells):
        if all(type(c) is int for c in cells):
            return bytearray(cells)
        return SymByteArray(cells)

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            i = slice(*[None if x is None else x.__index__() for x in (i.start, i.stop, i.step)])
            self.cells[i] = cells_of(v)
        else:
            self.cells[i.__index__()] = v

    def append(self, v):
        self.cells.append(v)

    def extend(self, v):
        self.cells.extend(cells_of(v))

    def __iadd__(self, v):
        self.cells.extend(cells_of(v))
        return self

    def __deepcopy__(self, memo):
        return SymByteArray(self.cells)

    def copy(self):
        return SymByteArray(self.cells)


class CutBytes:
    """Contents of which only the first bytes are there, as many as a symbolic number tells.

    Reading decides whether the bytes asked for are there; nothing else forks.
    """
    __slots__ = ('root', 'a', 'b', '_plain')
    __class__ = property(lambda self: bytearray)
    __hash__ = None

    def __init__(self, cells, cut, root=None, a=0, b=None):
        # root: cells, number of bytes, [known to be at least, known to be below]
        self.root = (list(cells), cut, [0, len(cells) + 1]) if root is None else root
        self.a, self.b = a, len(self.root[0]) if b is None else b
        self._plain = None

    def has(self, n):
        """Whether the first n bytes of the whole are there."""
        known = self.root[2]
        if n <= known[0]:
            return True
        if n >= known[1]:
            return False
        if bool(self.root[1] >= n):
            known[0] = n
            return True
        known[1] = n
        return False

    def end(self):
        if self.has(self.b):
            return self.b
        if not self.has(self.a + 1):
            return self.a
        return self.root[1].__index__()

    def plain(self):
        if self._plain is None:
            c = self.root[0][self.a:self.end()]
            self._plain = bytearray(c) if all(type(x) is int for x in c) else SymByteArray(c)
        return self._plain

    def sx_cells(self):
        return cells_of(self.plain())

    def sx_len(self):
        if self.has(self.b):
            return self.b - self.a
        if not self.has(self.a + 1):
            return 0
        return self.root[1] - self.a

    def __len__(self):
        return self.sx_len().__index__()

    def __getitem__(self, i):
        if isinstance(i, slice):
            i0, i1, st = [None if x is None else x.__index__() for x in (i.start, i.stop, i.step)]
            if st not in (None, 1) or (i0 or 0) < 0 or (i1 or 0) < 0:
                return self.plain()[slice(i0, i1, st)]
            lo = min(self.a + (i0 or 0), self.b)
            hi = self.b if i1 is None else max(lo, min(self.a + i1, self.b))
            part = CutBytes((), None, self.root, lo, hi)
            if hi == lo or self.has(hi) or not self.has(lo + 1):
                return part.plain()
            return part
        i = i.__index__()
        if i >= 0 and self.has(self.a + i + 1):
            return cell_value(self.root[0][self.a + i])
        return self.plain()[i]

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return getattr(self.plain(), n)

    def __iter__(self):
        return iter(self.plain())

    def __add__(self, o):
        return self.plain() + o

    def __eq__(self, o):
        return self.plain() == o

    def __ne__(self, o):
        return Not(self == o)

    def __bool__(self):
        return bool(self.sx_len() > 0)

    def __contains__(self, x):
        return x in self.plain()

    def __deepcopy__(self, memo):
        return self


def _join(sep, parts):
    out = []
    for i, p in enumerate(parts):
        if i:
            out += cells_of(sep)
        out += cells_of(p)
    return mkbytes(out)


def _cell_eq(a, b):
    if isinstance(a, BT) and isinstance(b, BT) and a.tok is b.tok and a.k == b.k:
        return True
    r = cell_value(a) == cell_value(b)
    return r


# ---------------------------------------------------------------------------
# struct
# ---------------------------------------------------------------------------
INT_SIZES = {'b': (1, True), 'B': (1, False), 'h': (2, True), 'H': (2, False), 'i': (4, True),
             'I': (4, False), 'l': (4, True), 'L': (4, False), 'q': (8, True), 'Q': (8, False)}


def int_to_cells(v, size, order, signed=None):
    t = Tok(v, size, 'int')
    ks = range(size) if order == 'little' else range(size - 1, -1, -1)
    return [BT(t, k) for k in ks]


def cells_to_int(cells, order, signed):
    if order == 'big':
        cells = cells[::-1]
    n = len(cells)
    if all(type(c) is int for c in cells):
        return int.from_bytes(bytes(cells), 'little', signed=signed)
    c0 = cells[0]
    if isinstance(c0, BT) and c0.tok.size == n and all(
            isinstance(c, BT) and c.tok is c0.tok and c.k == i for i, c in enumerate(cells)):
        v = c0.tok.value if c0.tok.kind == 'int' else c0.tok.int_value()
        return v.wrap(8 * n, signed) if type(v) is SymInt else v
    vals = [cell_value(c) for c in cells]
    if any(type(v) is SymInt and v._prefers_bv() for v in vals):
        parts = []
        for v in vals[::-1]:
            if type(v) is int:
                parts.append(z3.BitVecVal(v, 8))
            else:
                b = v.bv(max(v.width(), 8))
                parts.append(z3.Extract(7, 0, b))
        return SymInt.from_bv(z3.Concat(*parts) if len(parts) > 1 else parts[0], signed)
    tot = 0
    for k, v in enumerate(vals):
        tot = tot + v * (1 << 8 * k)
    if type(tot) is int:
        return tot - (1 << 8 * n) if signed and tot >> (8 * n - 1) else tot
    return tot.wrap(8 * n, signed)


def float_to_cells(v, size, order):
    f = as_symfloat(v)
    if f is None:
        raise _struct.error('required argument is not a float')
    if size == 4:
        f = f.to_f32()
    t = Tok(f, size, 'float')
    ks = range(size) if order == 'little' else range(size - 1, -1, -1)
    return [BT(t, k) for k in ks]


def cells_to_float(cells, order):
    n = len(cells)
    if order == 'big':
        cells = cells[::-1]
    if all(type(c) is int for c in cells):
        return _struct.unpack('<f' if n == 4 else '<d', bytes(cells))[0]
    c0 = cells[0]
    if isinstance(c0, BT) and c0.tok.size == n and c0.tok.kind == 'float' and all(
            isinstance(c, BT) and c.tok is c0.tok and c.k == i for i, c in enumerate(cells)):
        return c0.tok.value
    bits = cells_to_int(cells, 'little', False)
    if type(bits) is int:
        return _struct.unpack('<f' if n == 4 else '<d', bits.to_bytes(n, 'little'))[0]
    key = ('bitsf', bits.z().get_id(), n)
    hit = core.ENG.cache.get(key)
    if hit is None:
        r = z3.Real(core.ENG.fresh_name('punned'))
        hit = (SymFloat(r, z3.Bool(core.ENG.fresh_name('punnan')), f32=(n == 4)), bits.z())
        core.ENG.cache[key] = hit
        core.ENG.note('float reinterpreted from arbitrary bits (unconstrained)')
    return hit[0]


_parsed = {}


def parse_format(fmt):
    if fmt in _parsed:
        return _parsed[fmt]
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    s = fmt
    order, native = ('little' if NATIVE_LITTLE else 'big'), True
    if s[:1] in '@=<>!' and s:
        if s[0] == '<':
            order, native = 'little', False
        elif s[0] in '>!':
            order, native = 'big', False
        elif s[0] == '=':
            native = False
        s = s[1:]
    items, i, off = [], 0, 0
    while i < len(s):
        if s[i].isspace():
            i += 1
            continue
        j = i
        while j < len(s) and s[j].isdigit():
            j += 1
        n = int(s[i:j]) if j > i else 1
        if j >= len(s):
            raise _struct.error('repeat count given without format specifier')
        c = s[j]
        i = j + 1
        if c in 'sp':
            items.append((off, 's', n))
            off += n
        elif c == 'x':
            off += n
        elif c in 'c?':
            for _ in range(n):
                items.append((off, c, 1))
                off += 1
        else:
            if c in INT_SIZES:
                sz = INT_SIZES[c][0]
                if native and c in 'lL':
                    sz = 8
            elif c in 'fd':
                sz = 4 if c == 'f' else 8
            elif c == 'e':
                raise Unsupported('half floats')
            elif c in 'nN' and native:
                sz = 8
            else:
                raise _struct.error('bad char in struct format')
            if native and off % sz:
                off += sz - off % sz
            for _ in range(n):
                items.append((off, c, sz))
                off += sz
    if _struct.calcsize(fmt) != off:
        raise Unsupported(f'struct size mismatch for {fmt}')
    _parsed[fmt] = (order, items, off)
    return _parsed[fmt]


class Struct:
    def __init__(self, format):
        from .strx import is_symstr
        if is_symstr(format):
            format = format.concretize()
        _struct.Struct(format)
        self.format = format
        self.order, self.items, self.size = parse_format(format)

    def unpack(self, buf):
        if len(buf) != self.size:
            raise _struct.error(f'unpack requires a buffer of {self.size} bytes')
        return self.unpack_from(buf, 0)

    def unpack_from(self, buffer, offset=0):
        offset = offset.__index__()
        if offset < 0:
            offset += len(buffer)
        if type(buffer) is CutBytes:
            part = buffer[offset:offset + self.size]
            if type(part) is CutBytes or len(part) < self.size:
                raise _struct.error(f'unpack_from requires a buffer of at least {self.size + offset} bytes')
            return self.unpack_from(part, 0)
        if isinstance(buffer, (bytes, bytearray, memoryview)) and type(buffer) not in (SymBytes, SymByteArray):
            return _struct.Struct(self.format).unpack_from(buffer, offset)
        if len(buffer) - offset < self.size:
            raise _struct.error(
                f'unpack_from requires a buffer of at least {self.size + offset} bytes for '
                f'unpacking {self.size} bytes at offset {offset} (actual buffer size is {len(buffer)})')
        cells = cells_of(buffer)[offset:offset + self.size]
        out = []
        for off, c, sz in self.items:
            cc = cells[off:off + sz]
            if c == 's':
                out.append(mkbytes(cc))
            elif c == 'c':
                out.append(mkbytes(cc))
            elif c == '?':
                v = cell_value(cc[0])
                out.append(v != 0)
            elif c in 'fd':
                out.append(cells_to_float(cc, self.order))
            else:
                out.append(cells_to_int(cc, self.order, c.islower()))
        return tuple(out)

    def iter_unpack(self, buffer):
        for i in range(0, len(buffer), self.size):
            yield self.unpack_from(buffer, i)

    def pack(self, *vals):
        vals = [_plain(v) for v in vals]
        if not any(_sym(v) for v in vals):
            return _struct.Struct(self.format).pack(*vals)
        if len(vals) != len(self.items):
            raise _struct.error(f'pack expected {len(self.items)} items for packing (got {len(vals)})')
        cells = [0] * self.size
        for (off, c, sz), v in zip(self.items, vals):
            if c in 'sc':
                if not is_bytes(v):
                    raise _struct.error("argument for 's' must be a bytes object")
                cc = cells_of(v)
                if c == 'c' and len(cc) != 1:
                    raise _struct.error("char format requires a bytes object of length 1")
                cc = (cc + [0] * sz)[:sz]
            elif c == '?':
                cc = [core.ite(v != 0, 1, 0)] if _sym(v) else [int(bool(v))]
            elif c in 'fd':
                if type(v) is SymInt or type(v) is SymFloat or isinstance(v, SymBool):
                    cc = float_to_cells(v, sz, self.order)
                elif isinstance(v, (int, float)) or hasattr(v, '__float__'):
                    cc = list(_struct.pack(('<' if self.order == 'little' else '>') + c, v))
                else:
                    raise _struct.error('required argument is not a float')
            else:
                signed = c.islower()
                if isinstance(v, SymBool):
                    v = v._as_int()
                if type(v) is SymInt:
                    mn, mx = (-(1 << (8 * sz - 1)), (1 << (8 * sz - 1)) - 1) if signed else (0, (1 << 8 * sz) - 1)
                    if not And(v >= mn, v <= mx):
                        raise _struct.error(f"'{c}' format requires {mn} <= number <= {mx}")
                    cc = int_to_cells(v, sz, self.order)
                elif type(v) is SymFloat or isinstance(v, float):
                    raise _struct.error('required argument is not an integer')
                else:
                    cc = list(_struct.pack(('<' if self.order == 'little' else '>') + ({'l': 'q', 'L': 'Q'}.get(c, c) if sz == 8 else c), v))
            cells[off:off + len(cc)] = cc
        return mkbytes(cells)

    def pack_into(self, buffer, offset, *vals):
        buffer[offset:offset + self.size] = self.pack(*vals)


def _plain(v):
    """0-d arrays and the like to scalars."""
    if hasattr(v, 'sx_scalar'):
        return v.sx_scalar()
    return v


def _sym(v):
    return type(v) in (SymInt, SymFloat, SymBool, SymBytes, SymByteArray)


class struct_mod:
    Struct = Struct
    error = _struct.error

    @staticmethod
    def pack(fmt, *v):
        return Struct(fmt).pack(*v)

    @staticmethod
    def unpack(fmt, b):
        return Struct(fmt).unpack(b)

    @staticmethod
    def unpack_from(fmt, b, offset=0):
        return Struct(fmt).unpack_from(b, offset)

    @staticmethod
    def iter_unpack(fmt, b):
        return Struct(fmt).iter_unpack(b)

    @staticmethod
    def calcsize(fmt):
        return Struct(fmt).size

    @staticmethod
    def pack_into(fmt, b, off, *v):
        return Struct(fmt).pack_into(b, off, *v)


# ---------------------------------------------------------------------------
# In-memory streams and files
# ---------------------------------------------------------------------------
class VBytesIO:
    """BytesIO over symbolic cells; also logs (position, cells) of every write."""

    def __init__(self, initial=b''):
        self._cells = list(cells_of(initial))
        self._pos = 0
        self.closed = False
        self.log = []
        if core.ENG is not None and core.ENG.cache.get('symbolic_positions'):
            core.ENG.cache.setdefault('streams', []).append(self)

    def writable(self):
        return True

    def readable(self):
        return True

    def seekable(self):
        return True

    def write(self, b):
        cc = cells_of(b)
        self.log.append((self._pos, cc))
        if type(self._pos) is SymInt:
            if core.ENG.cache.get('symbolic_positions'):
                self._pos = self._pos + len(cc)
                return len(cc)
            self._pos = self._pos.concretize()
        p = self._pos
        if p > len(self._cells):
            if p > 50_000_000:
                raise Unsupported('file too large')
            self._cells.extend([0] * (p - len(self._cells)))
        self._cells[p:p + len(cc)] = cc
        self._pos = p + len(cc)
        return len(cc)

    def writelines(self, ls):
        for x in ls:
            self.write(x)

    def read(self, n=-1):
        p = self._pos.__index__()
        if n is None or n < 0:
            out = self._cells[p:]
        else:
            out = self._cells[p:p + n.__index__()]
        self._pos = p + len(out)
        return mkbytes(out)

    def seek(self, pos, whence=0):
        if type(pos) is SymInt and not core.ENG.cache.get('symbolic_positions'):
            pos = pos.concretize()
        if whence == 0:
            if pos < 0:
                raise ValueError('negative seek value')
            self._pos = pos
        elif whence == 1:
            self._pos = self._pos + pos
        else:
            self._pos = len(self._cells) + pos
        return self._pos

    def tell(self):
        return self._pos

    def getvalue(self):
        return mkbytes(self._cells)

    def getbuffer(self):
        return mkbytes(self._cells)

    def truncate(self, size=None):
        size = self._pos if size is None else size
        del self._cells[size:]
        return size

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


class VFile(VBytesIO):
    def __init__(self, path, mode):
        self.path, self.mode = path, mode
        init = b''
        self.cut = None
        fs = core.ENG.cache.setdefault('fs', {})
        if 'r' in mode or 'a' in mode or '+' in mode:
            if path not in fs:
                if 'r' in mode:
                    raise FileNotFoundError(2, 'No such file or directory', path)
            else:
                init = fs[path]
        if type(init) is CutBytes:
            if mode != 'rb':
                raise Unsupported('writing a file that was cut')
            self.cut, init = init, b''
        super().__init__(init)
        if 'a' in mode:
            self._pos = len(self._cells)
        if 'w' in mode:
            fs[path] = b''

    def read(self, n=-1):
        if self.cut is None:
            return super().read(n)
        if n is not None and not n < 0 or type(self._pos) is not int or self._pos:
            raise Unsupported('part of a file that was cut')
        return self.cut

    def seek(self, pos, whence=0):
        if self.cut is not None and pos != 0:
            raise Unsupported('part of a file that was cut')
        return super().seek(pos, whence)

    def close(self):
        if not self.closed and ('w' in self.mode or 'a' in self.mode or '+' in self.mode):
            core.ENG.cache.setdefault('fs', {})[self.path] = mkbytes(self._cells)
        self.closed = True

    def flush(self):
        if 'w' in self.mode or 'a' in self.mode:
            core.ENG.cache.setdefault('fs', {})[self.path] = mkbytes(self._cells)

    def fileno(self):
        raise OSError('no file descriptor')


def v_open(file, mode='r', *a, **k):
    path = os.fspath(file)
    if isinstance(path, bytes):
        path = path.decode()
    fs = core.ENG.cache.setdefault('fs', {}) if core.ENG else {}
    if path in fs or path.startswith('/virtual/'):
        if 'b' not in mode:
            raise Unsupported('text mode virtual file')
        return VFile(path, mode)
    if 'w' in mode or 'a' in mode or 'x' in mode or '+' in mode:
        raise Unsupported(f'write to real file {path}')
    return builtins.open(file, mode, *a, **k)
