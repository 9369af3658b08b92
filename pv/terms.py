"""Hash-consed verification-condition terms.

Sorts: 0 = Bool, n>0 = bit-vector of width n, 'F' = double (interpreted either as
an exact real or as an IEEE binary64 number, depending on the translator), 'A' = byte array
indexed by 64-bit addresses.

Raw Python values stand for constants: int for bit-vectors, bool for Bool, Fraction
(real mode) or float (IEEE mode, and for inf/nan) for doubles.
"""
import math
import struct
from fractions import Fraction

_table = {}
_next = [0]


def commuted(a, b):
    """the operands of a commutative operation in a canonical order"""
    if is_t(a) and (not is_t(b) or b.id < a.id):
        return b, a
    return a, b


class Term:
    __slots__ = ('op', 'args', 'sort', 'id', 'pay', 'depth')

    def __repr__(self):
        return show(self, 4)


def show(t, d=6):
    if not isinstance(t, Term):
        if isinstance(t, int) and t > 1 << 32:
            return hex(t)
        return str(t)
    if t.op in ('var', 'fconst'):
        return str(t.pay)
    if d == 0:
        return '...'
    return '(%s%s %s)' % (t.op, ':' + str(t.pay) if t.pay is not None else '',
                          ' '.join(show(a, d - 1) for a in t.args))


def mk(op, sort, args=(), pay=None):
    key = (op, sort, pay) + tuple(
        ('t', a.id) if isinstance(a, Term) else
        (struct.pack('>d', a) if isinstance(a, float) else (type(a).__name__ == 'Fraction', a))
        for a in args)
    t = _table.get(key)
    if t is None:
        t = Term()
        t.op, t.sort, t.args, t.pay = op, sort, tuple(args), pay
        t.id = _next[0]
        d = 0
        for a in args:
            if isinstance(a, Term) and a.depth > d:
                d = a.depth
        t.depth = d + 1
        _next[0] += 1
        _table[key] = t
    return t


def var(name, sort):
    return mk('var', sort, (), name)


_fresh = [0]


def fresh(prefix, sort):
    _fresh[0] += 1
    return var('%s!%d' % (prefix, _fresh[0]), sort)


def is_t(x):
    return isinstance(x, Term)


# ---------------------------------------------------------------- booleans

def bnot(a):
    if not is_t(a):
        return not a
    if a.op == 'not':
        return a.args[0]
    return mk('not', 0, (a,))


def band(a, b):
    if not is_t(a):
        return b if a else False
    if not is_t(b):
        return a if b else False
    if a is b:
        return a
    if bnot(a) is b:
        return False
    return mk('and', 0, (a, b))


def bor(a, b):
    if not is_t(a):
        return True if a else b
    if not is_t(b):
        return True if b else a
    if a is b:
        return a
    if bnot(a) is b:
        return True
    return mk('or', 0, (a, b))


def bxor(a, b):
    if not is_t(a):
        return bnot(b) if a else b
    if not is_t(b):
        return bnot(a) if b else a
    if a is b:
        return False
    return bor(band(a, bnot(b)), band(bnot(a), b))


def same(a, b):
    if is_t(a) or is_t(b):
        return a is b
    if isinstance(a, float) and isinstance(b, float):
        return struct.pack('>d', a) == struct.pack('>d', b)
    return type(a) == type(b) and a == b


def ite(c, a, b, sort):
    if not is_t(c):
        return a if c else b
    if same(a, b):
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a, sort)
    if sort == 0:
        if not is_t(a):
            return bor(c, b) if a else band(bnot(c), b)
        if not is_t(b):
            return bor(bnot(c), a) if b else band(c, a)
    if is_t(a) and a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if is_t(b) and b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if same(a, b):
        return a
    return mk('ite', sort, (c, a, b))


# ---------------------------------------------------------------- bit-vectors

def mask(w):
    return (1 << w) - 1


def signed(x, w):
    return x - (1 << w) if x >> (w - 1) & 1 else x


def linear(t):
    """Splits a bv term as (const, nonconst or None)."""
    if t.op == 'add' and not is_t(t.args[1]):
        return t.args[1], t.args[0]
    return 0, t


def add(a, b, w):
    if not is_t(a):
        if not is_t(b):
            return (a + b) & mask(w)
        a, b = b, a
    if not is_t(b):
        if b == 0:
            return a
        c, r = linear(a)
        if c:
            return add(r, (c + b) & mask(w), w)
        if a.op == 'ite' and not is_t(a.args[1]) and not is_t(a.args[2]):
            return ite(a.args[0], (a.args[1] + b) & mask(w), (a.args[2] + b) & mask(w), w)
        return mk('add', w, (a, b))
    ca, ra = linear(a)
    cb, rb = linear(b)
    if ca or cb:
        return add(add(ra, rb, w), (ca + cb) & mask(w), w)
    # x + (y - x) = y, x + (-x) = 0
    if b.op == 'sub' and b.args[1] is a:
        return b.args[0]
    if a.op == 'sub' and a.args[1] is b:
        return a.args[0]
    if a.id > b.id:
        a, b = b, a
    return mk('add', w, (a, b))


def sub(a, b, w):
    if not is_t(b):
        return add(a, (-b) & mask(w), w)
    if is_t(a):
        if a is b:
            return 0
        ca, ra = linear(a)
        cb, rb = linear(b)
        if ca or cb:
            return add(sub(ra, rb, w), (ca - cb) & mask(w), w)
        if a.op == 'add':
            if a.args[0] is b:
                return a.args[1]
            if a.args[1] is b:
                return a.args[0]
        if b.op == 'add':
            if b.args[0] is a:
                return sub(0, b.args[1], w)
            if b.args[1] is a:
                return sub(0, b.args[0], w)
        if b.op == 'sub' and b.args[0] is a:
            return b.args[1]
        # (p+q)-(p+r)
        if a.op == 'add' and b.op == 'add':
            for i in (0, 1):
                for j in (0, 1):
                    if same(a.args[i], b.args[j]):
                        return sub(a.args[1 - i], b.args[1 - j], w)
    else:
        cb, rb = linear(b)
        if cb:
            return sub((a - cb) & mask(w), rb, w)
        if b.op == 'ite' and not is_t(b.args[1]) and not is_t(b.args[2]):
            return ite(b.args[0], (a - b.args[1]) & mask(w), (a - b.args[2]) & mask(w), w)
    return mk('sub', w, (a, b))


def mul(a, b, w):
    if not is_t(a):
        if not is_t(b):
            return (a * b) & mask(w)
        a, b = b, a
    if not is_t(b):
        if b == 0:
            return 0
        if b == 1:
            return a
        if a.op == 'mul' and not is_t(a.args[1]):
            return mul(a.args[0], (a.args[1] * b) & mask(w), w)
        if a.op == 'add' and not is_t(a.args[1]):
            return add(mul(a.args[0], b, w), (a.args[1] * b) & mask(w), w)
        return mk('mul', w, (a, b))
    if a.id > b.id:
        a, b = b, a
    return mk('mul', w, (a, b))


def udiv(a, b, w):
    if not is_t(b):
        if b == 1:
            return a
        if not is_t(a) and b:
            return a // b
        if b and b & (b - 1) == 0:
            return lshr(a, b.bit_length() - 1, w)
    return mk('udiv', w, (a, b))


def urem(a, b, w):
    if not is_t(b):
        if b == 1:
            return 0
        if not is_t(a) and b:
            return a % b
        if b and b & (b - 1) == 0:
            return and_(a, b - 1, w)
    return mk('urem', w, (a, b))


def sdiv(a, b, w):
    if not is_t(b):
        if b == 1:
            return a
        if not is_t(a) and b:
            x, y = signed(a, w), signed(b, w)
            q = abs(x) // abs(y)
            return (q if (x < 0) == (y < 0) else -q) & mask(w)
    return mk('sdiv', w, (a, b))


def srem(a, b, w):
    if not is_t(b):
        if b == 1:
            return 0
        if not is_t(a) and b:
            x, y = signed(a, w), signed(b, w)
            r = abs(x) % abs(y)
            return (-r if x < 0 else r) & mask(w)
    return mk('srem', w, (a, b))


def and_(a, b, w):
    if w == 0:
        return band(a, b)
    if not is_t(a):
        if not is_t(b):
            return a & b
        a, b = b, a
    if not is_t(b):
        if b == 0:
            return 0
        if b == mask(w):
            return a
        if a.op == 'and_' and not is_t(a.args[1]):
            return and_(a.args[0], a.args[1] & b, w)
        if a.op == 'zext' and b & mask(a.args[0].sort) == mask(a.args[0].sort):
            return a
        if a.op == 'zext' and b >> a.args[0].sort == 0:
            return zext(and_(a.args[0], b, a.args[0].sort), a.args[0].sort, w)
        if b & (b + 1) == 0 and a.op in ('and_', 'or_', 'shl'):
            pass
        return mk('and_', w, (a, b))
    if a is b:
        return a
    if a.id > b.id:
        a, b = b, a
    return mk('and_', w, (a, b))


def or_(a, b, w):
    if w == 0:
        return bor(a, b)
    if not is_t(a):
        if not is_t(b):
            return a | b
        a, b = b, a
    if not is_t(b):
        if b == 0:
            return a
        if b == mask(w):
            return b
        return mk('or_', w, (a, b))
    if a is b:
        return a
    if a.id > b.id:
        a, b = b, a
    return mk('or_', w, (a, b))


def xor(a, b, w):
    if w == 0:
        return bxor(a, b)
    if not is_t(a):
        if not is_t(b):
            return a ^ b
        a, b = b, a
    if not is_t(b):
        if b == 0:
            return a
        if a.op == 'xor' and not is_t(a.args[1]):
            return xor(a.args[0], a.args[1] ^ b, w)
        return mk('xor', w, (a, b))
    if a is b:
        return 0
    if a.id > b.id:
        a, b = b, a
    return mk('xor', w, (a, b))


def shl(a, b, w):
    if not is_t(b):
        if b == 0:
            return a
        if b >= w:
            return 0
        if not is_t(a):
            return (a << b) & mask(w)
        return mul(a, 1 << b, w) if b < 12 else mk('shl', w, (a, b))
    if not is_t(a) and a == 0:
        return 0
    return mk('shl', w, (a, b))


def lshr(a, b, w):
    if not is_t(b):
        if b == 0:
            return a
        if b >= w:
            return 0
        if not is_t(a):
            return a >> b
        if a.op == 'zext':
            n = a.args[0].sort
            if b >= n:
                return 0
            return zext(lshr(a.args[0], b, n), n, w)
    if not is_t(a) and a == 0:
        return 0
    return mk('lshr', w, (a, b))


def ashr(a, b, w):
    if not is_t(b):
        if b == 0:
            return a
        b = min(b, w - 1)
        if not is_t(a):
            return (signed(a, w) >> b) & mask(w)
        if a.op == 'zext':
            return lshr(a, b, w)
    return mk('ashr', w, (a, b))


def zext(a, w0, w):
    if not is_t(a):
        return int(a)
    if w0 == 0 or w0 == w:
        return ite(a, 1, 0, w) if w0 == 0 else a
    if a.op == 'zext':
        return mk('zext', w, a.args)
    if a.op == 'ite' and not is_t(a.args[1]) and not is_t(a.args[2]):
        return ite(a.args[0], a.args[1], a.args[2], w)
    return mk('zext', w, (a,))


def sext(a, w0, w):
    if not is_t(a):
        if w0 == 0:
            return mask(w) if a else 0
        return signed(a, w0) & mask(w)
    if w0 == w:
        return a
    if w0 == 0:
        return ite(a, mask(w), 0, w)
    if a.op == 'zext':
        return mk('zext', w, a.args)
    if a.op == 'sext':
        return mk('sext', w, a.args)
    if a.op == 'ite' and not is_t(a.args[1]) and not is_t(a.args[2]):
        return ite(a.args[0], signed(a.args[1], w0) & mask(w), signed(a.args[2], w0) & mask(w), w)
    return mk('sext', w, (a,))


def extract(a, hi, lo, w0):
    """Bits hi..lo of a w0-bit value."""
    w = hi - lo + 1
    if not is_t(a):
        return (a >> lo) & mask(w)
    if w == w0:
        return a
    if a.op == 'zext' or a.op == 'sext':
        n = a.args[0].sort
        if hi < n:
            return extract(a.args[0], hi, lo, n)
        if lo >= n and a.op == 'zext':
            return 0
        if lo == 0 and a.op == 'zext':
            return zext(a.args[0], n, w)
        if lo == 0:
            return sext(a.args[0], n, w)
    if a.op == 'extract':
        return extract(a.args[0], a.pay[0] - 0 if False else a.pay[1] + hi, a.pay[1] + lo, a.args[0].sort)
    if a.op == 'concat':
        hi_t, lo_t = a.args
        wl = a.pay
        if lo >= wl:
            return extract(hi_t, hi - wl, lo - wl, w0 - wl)
        if hi < wl:
            return extract(lo_t, hi, lo, wl)
    if a.op == 'ite' and (not is_t(a.args[1]) or not is_t(a.args[2])):
        return ite(a.args[0], extract(a.args[1], hi, lo, w0), extract(a.args[2], hi, lo, w0), w)
    if lo == 0 and a.op in ('add', 'sub', 'mul', 'and_', 'or_', 'xor'):
        f = {'add': add, 'sub': sub, 'mul': mul, 'and_': and_, 'or_': or_, 'xor': xor}[a.op]
        x = extract(a.args[0], hi, 0, w0)
        y = extract(a.args[1], hi, 0, w0)
        return f(x, y, w)
    if lo > 0 and a.op in ('and_', 'or_', 'xor'):
        f = {'and_': and_, 'or_': or_, 'xor': xor}[a.op]
        return f(extract(a.args[0], hi, lo, w0), extract(a.args[1], hi, lo, w0), w)
    if a.op == 'shl' and not is_t(a.args[1]):
        k = a.args[1]
        if hi < k:
            return 0
        if lo >= k:
            return extract(a.args[0], hi - k, lo - k, w0)
    if a.op == 'lshr' and not is_t(a.args[1]) and hi + a.args[1] < w0:
        return extract(a.args[0], hi + a.args[1], lo + a.args[1], w0)
    return mk('extract', w, (a,), (hi, lo))


def concat(hi, lo, wh, wl):
    if not is_t(hi) and not is_t(lo):
        return (hi << wl) | lo
    if not is_t(hi) and hi == 0:
        return zext(lo, wl, wh + wl)
    # Adjacent extracts.
    if is_t(hi) and is_t(lo):
        if hi.op == 'extract' and lo.op == 'extract' and hi.args[0] is lo.args[0] and hi.pay[1] == lo.pay[0] + 1:
            return extract(hi.args[0], hi.pay[0], lo.pay[1], hi.args[0].sort)
        if lo.op == 'extract' and hi.op == 'extract' and False:
            pass
    return mk('concat', wh + wl, (hi, lo), wl)


def eq(a, b, w):
    if not is_t(a):
        if not is_t(b):
            return a == b
        a, b = b, a
    if a is b:
        return True
    if w == 0:
        return bnot(bxor(a, b))
    if not is_t(b):
        if a.op == 'zext':
            n = a.args[0].sort
            if b >> n:
                return False
            return eq(a.args[0], b, n)
        if a.op == 'ite' and (not is_t(a.args[1]) or not is_t(a.args[2])):
            return ite(a.args[0], eq(a.args[1], b, w), eq(a.args[2], b, w), 0)
        if a.op == 'add' and not is_t(a.args[1]):
            return eq(a.args[0], (b - a.args[1]) & mask(w), w)
        if a.op == 'sub' and b == 0:
            return eq(a.args[0], a.args[1], w)
        if has_tab(a):
            v = fold_tab(a, w)
            if v is not None:
                if b not in v:
                    return False
                if len(v) == 1:
                    return True
        return mk('eq', 0, (a, b))
    ca, ra = linear(a)
    cb, rb = linear(b)
    if ra is rb:
        return ca == cb
    if ca and cb:
        return eq(add(ra, (ca - cb) & mask(w), w), rb, w)
    if a.op == 'zext' and b.op == 'zext' and a.args[0].sort == b.args[0].sort:
        return eq(a.args[0], b.args[0], a.args[0].sort)
    if a.id > b.id:
        a, b = b, a
    return mk('eq', 0, (a, b))


def ult(a, b, w):
    if not is_t(a) and not is_t(b):
        return a < b
    if a is b:
        return False
    if not is_t(b) and b == 0:
        return False
    if not is_t(a) and a == mask(w):
        return False
    if not is_t(b) and b == 1:
        return eq(a, 0, w)
    if is_t(a) and a.op == 'ite' and not is_t(a.args[1]) and not is_t(a.args[2]):
        return ite(a.args[0], ult(a.args[1], b, w), ult(a.args[2], b, w), 0)
    if is_t(a) and a.op == 'zext' and not is_t(b):
        n = a.args[0].sort
        if b > mask(n):
            return True
        return ult(a.args[0], b, n)
    if is_t(b) and b.op == 'zext' and not is_t(a):
        n = b.args[0].sort
        if a >= mask(n):
            return False
        return ult(a, b.args[0], n)
    if not is_t(b) and has_tab(a):
        v = fold_tab(a, w)
        if v is not None:
            r = {x < b for x in v}
            if len(r) == 1:
                return r.pop()
    return mk('ult', 0, (a, b))


def slt(a, b, w):
    if not is_t(a) and not is_t(b):
        return signed(a, w) < signed(b, w)
    if a is b:
        return False
    if is_t(a) and a.op == 'ite' and not is_t(a.args[1]) and not is_t(a.args[2]):
        return ite(a.args[0], slt(a.args[1], b, w), slt(a.args[2], b, w), 0)
    if is_t(a) and a.op == 'zext' and not is_t(b):
        if signed(b, w) <= 0:
            return False
        return ult(a, b, w)
    if is_t(b) and b.op == 'zext' and not is_t(a):
        if signed(a, w) < 0:
            return True
        return ult(a, b, w)
    return mk('slt', 0, (a, b))


def icmp(pred, a, b, w):
    if pred == 'eq':
        return eq(a, b, w)
    if pred == 'ne':
        return bnot(eq(a, b, w))
    if w == 0:
        a, b, w = zext(a, 0, 1), zext(b, 0, 1), 1
    if pred == 'ult':
        return ult(a, b, w)
    if pred == 'ugt':
        return ult(b, a, w)
    if pred == 'ule':
        return bnot(ult(b, a, w))
    if pred == 'uge':
        return bnot(ult(a, b, w))
    if pred == 'slt':
        return slt(a, b, w)
    if pred == 'sgt':
        return slt(b, a, w)
    if pred == 'sle':
        return bnot(slt(b, a, w))
    if pred == 'sge':
        return bnot(slt(a, b, w))
    raise NotImplementedError(pred)


# ---------------------------------------------------------------- doubles

INF = float('inf')
NAN = float('nan')


def f2bits(x):
    return struct.unpack('<Q', struct.pack('<d', x))[0]


def bits2f(b):
    return struct.unpack('<d', struct.pack('<Q', b))[0]


def fbits(x):
    """bit-vector view of a double"""
    if is_t(x):
        if x.op == 'frombits':
            return x.args[0]
        return mk('bits', 64, (x,))
    if isinstance(x, float):
        return f2bits(x)
    f = float(x)
    if Fraction(f) == x:
        return f2bits(f)
    return mk('bits', 64, (mk('fconst', 'F', (), x),))


SIGN = 1 << 63


def normal_parts(x):
    """(sign, biased exponent, term of 64 bits holding the mantissa) of a double whose sign and exponent are constant and
    that is a normal number; None otherwise."""
    if not is_t(x) or x.op != 'frombits':
        return None
    b = x.args[0]
    r = PARTS.get(b.id, 0)
    if r == 0:
        r = None
        p = cut(merge(slices(b, 64)), 64, 63, 52)
        v = 0
        for t, y, n in p:
            if t is not None:
                break
            v = v << n | y
        else:
            if 1 <= v & 2047 <= 2046:
                r = v >> 11, v & 2047, b
        PARTS[b.id] = r
        PARTS_KEEP.append(b)
    return r


PARTS, PARTS_KEEP = {}, []


def rebuild(s, e, b):
    return mk('frombits', 'F', (concat((s << 11 | e), extract(b, 51, 0, 64), 12, 52),))


def pow2(x):
    """(sign, k) if the constant x is +-2^k"""
    if is_t(x) or x != x or x == 0 or math.isinf(x):
        return None
    m, e = math.frexp(x)
    return (int(m < 0), e - 1) if abs(m) == 0.5 else None


class Mode:
    """Arithmetic on doubles: R (exact reals) or F (IEEE binary64)."""

    def __init__(self, real):
        self.real = real

    def const(self, d):
        if self.real and not (math.isinf(d) or math.isnan(d)):
            return Fraction(d)
        return d

    def frombits(self, b):
        if not is_t(b):
            return self.const(bits2f(b))
        if b.op == 'bits':
            a = b.args[0]
            return a.pay if a.op == 'fconst' else a
        if b.op == 'ite':
            return ite(b.args[0], self.frombits(b.args[1]), self.frombits(b.args[2]), 'F')
        if b.op == 'and_' and not is_t(b.args[1]) and b.args[1] == SIGN - 1:
            return self.abs(self.frombits(b.args[0]))
        if b.op == 'xor' and not is_t(b.args[1]) and b.args[1] == SIGN:
            return self.neg(self.frombits(b.args[0]))
        return mk('frombits', 'F', (b,))

    def neg(self, a):
        if not is_t(a):
            return -a
        if a.op == 'fneg':
            return a.args[0]
        p = None if self.real else normal_parts(a)
        if p:
            return rebuild(1 - p[0], p[1], p[2])
        return mk('fneg', 'F', (a,))

    def abs(self, a):
        if not is_t(a):
            return abs(a)
        if a.op == 'fabs':
            return a
        if a.op == 'fneg':
            return self.abs(a.args[0])
        p = None if self.real else normal_parts(a)
        if p:
            return rebuild(0, p[1], p[2])
        return mk('fabs', 'F', (a,))

    def _special(self, a):
        return isinstance(a, float)

    def add(self, a, b):
        if not is_t(a) and not is_t(b):
            return a + b if not self.real or (not isinstance(a, float) and not isinstance(b, float)) \
                else float(a) + float(b)
        if self.real:
            if not is_t(a):
                if isinstance(a, float):
                    return mk('fadd', 'F', (a, b))
                if a == 0:
                    return b
            if not is_t(b) and not isinstance(b, float) and b == 0:
                return a
        else:  # exact identities, up to the sign of a NaN
            for x, y in ((a, b), (b, a)):
                if is_t(y) and y.op == 'fneg':
                    return self.sub(x, y.args[0])
            a, b = commuted(a, b)
        return mk('fadd', 'F', (a, b))

    def sub(self, a, b):
        if not is_t(a) and not is_t(b):
            return a - b if not self.real or (not isinstance(a, float) and not isinstance(b, float)) \
                else float(a) - float(b)
        if self.real:
            if a is b:
                return Fraction(0)
            if not is_t(b) and not isinstance(b, float) and b == 0:
                return a
            if not is_t(a) and not isinstance(a, float) and a == 0:
                return self.neg(b)
        elif is_t(b) and b.op == 'fneg':
            return self.add(a, b.args[0])
        return mk('fsub', 'F', (a, b))

    def mul(self, a, b):
        if not is_t(a) and not is_t(b):
            return a * b if not self.real or (not isinstance(a, float) and not isinstance(b, float)) \
                else float(a) * float(b)
        if self.real:
            for x, y in ((a, b), (b, a)):
                if not is_t(x) and not isinstance(x, float):
                    if x == 0:
                        return Fraction(0)
                    if x == 1:
                        return y
                    if x == -1:
                        return self.neg(y)
        else:
            for x, y in ((a, b), (b, a)):
                if not is_t(x) and x in (1, -1):  # exact (one NaN)
                    return y if x == 1 else self.neg(y)
                k = pow2(x)
                r = k and self.scale(y, k[0], k[1])
                if r is not None:
                    return r
            for x, y in ((a, b), (b, a)):
                if is_t(x) and x.op == 'fneg':
                    return self.neg(self.mul(x.args[0], y))
            a, b = commuted(a, b)
        return mk('fmul', 'F', (a, b))

    def div(self, a, b):
        if not is_t(a) and not is_t(b):
            if self.real and not isinstance(a, float) and not isinstance(b, float):
                if b != 0:
                    return a / b
            a, b = float(a), float(b)
            if b == 0:
                if a == 0 or a != a:
                    return NAN
                return math.copysign(INF, a) * math.copysign(1, b)
            return a / b
        if self.real:
            if not is_t(b) and b == 1:
                return a
            if not is_t(a) and not isinstance(a, float) and a == 0:
                return Fraction(0)
        elif not is_t(b) and b == 1:
            return a
        if not self.real:
            k = pow2(b)
            r = k and self.scale(a, k[0], -k[1])
            if r is not None:
                return r
        return mk('fdiv', 'F', (a, b))

    def scale(self, y, sign, k):
        """y * +-2^k when it is exact or overflows."""
        p = normal_parts(y)
        if p is None or p[1] + k < 1:
            return None
        if p[1] + k > 2046:
            return -INF if p[0] ^ sign else INF
        return rebuild(p[0] ^ sign, p[1] + k, p[2])

    def by_exponent(self, pred, a, b):
        """Comparisons decided by constant exponents."""
        def rng(x):
            if not is_t(x):
                return (x, x) if x == x else None
            p = normal_parts(x)
            if p is None:
                return None
            lo, hi = bits2f(p[1] << 52), bits2f(p[1] << 52 | mask(52))
            return (-hi, -lo) if p[0] else (lo, hi)
        x, y = rng(a), rng(b)
        if x is None and (pred != 'uno' or is_t(a)) or y is None and (pred != 'uno' or is_t(b)):
            return None
        if pred == 'uno':
            return x is None or y is None
        if pred == 'oeq':
            return False if x[1] < y[0] or y[1] < x[0] else None
        if pred == 'olt':
            return True if x[1] < y[0] else False if x[0] >= y[1] else None
        return True if x[1] <= y[0] else False if x[0] > y[1] else None

    def sqrt(self, a):
        if not is_t(a):
            if isinstance(a, float):
                return math.sqrt(a) if a >= 0 else (a if a == 0 else NAN)
            if a >= 0:
                n, d = math.isqrt(a.numerator), math.isqrt(a.denominator)
                if n * n == a.numerator and d * d == a.denominator:
                    return Fraction(n, d)
            return mk('sqrt', 'F', (a,))
        return mk('sqrt', 'F', (a,))

    def fma(self, a, b, c):
        if self.real:
            return self.add(self.mul(a, b), c)
        if not (is_t(a) or is_t(b) or is_t(c)):
            try:
                return float(Fraction(a) * Fraction(b) + Fraction(c)) or a * b + c
            except (ValueError, OverflowError):
                return a * b + c
        neg = 0
        xs = []
        for x in (a, b):
            if is_t(x) and x.op == 'fneg':
                neg ^= 1
                x = x.args[0]
            elif not is_t(x) and math.copysign(1, x) < 0:
                neg ^= 1
                x = -x
            xs.append(x)
        a, b = xs  # The sign of the product is exact, its factors commute.
        if is_t(a) and is_t(b) and b.id < a.id or not is_t(a) and is_t(b):
            a, b = b, a
        return mk('fma', 'F', (self.neg(a) if neg else a, b, c))

    def copysign(self, a, b):
        if not is_t(b):
            s = math.copysign(1.0, float(b)) < 0
            r = self.abs(a)
            return self.neg(r) if s else r
        if self.real:
            r = self.abs(a)
            return ite(self.cmp('olt', b, Fraction(0)), self.neg(r), r, 'F')
        return mk('copysign', 'F', (a, b))

    def uf(self, name, args):
        # Identities between circular functions and their inverses (real arithmetic).
        if self.real and name in ('sin', 'cos', 'tan') and len(args) == 1 and is_t(args[0]) and args[0].op == 'uf':
            g = args[0]
            x = g.args
            one = Fraction(1)
            if name == 'tan' and g.pay == 'atan':
                return x[0]
            if g.pay in ('asin', 'acos') and name != 'tan':
                if (name == 'sin') == (g.pay == 'asin'):
                    return x[0]
                return self.sqrt(self.sub(one, self.mul(x[0], x[0])))
            if g.pay == 'atan' and name != 'tan':
                r = self.sqrt(self.add(one, self.mul(x[0], x[0])))
                return self.div(x[0] if name == 'sin' else one, r)
            if g.pay == 'atan2' and name != 'tan':
                n2 = self.add(self.mul(x[0], x[0]), self.mul(x[1], x[1]))
                v = self.div(x[0] if name == 'sin' else x[1], self.sqrt(n2))
                return ite(self.cmp('oeq', n2, Fraction(0)), Fraction(0) if name == 'sin' else mk('uf', 'F', tuple(args), name), v, 'F')
        if self.real and len(args) == 1 and is_t(args[0]) and args[0].op == 'uf':
            if (name, args[0].pay) in (('exp', 'log'), ('sinh', 'asinh'), ('cosh', 'acosh'), ('tanh', 'atanh'), ('log', 'exp'),
                                       ('asinh', 'sinh'), ('atanh', 'tanh')):
                return args[0].args[0]
        return mk('uf', 'F', tuple(args), name)

    def cmp(self, pred, a, b):
        """Returns a Bool."""
        if pred == 'true':
            return True
        if pred == 'false':
            return False
        if pred == 'ogt':
            return self.cmp('olt', b, a)
        if pred == 'oge':
            return self.cmp('ole', b, a)
        if pred in ('ugt', 'uge', 'ult', 'ule', 'une', 'ueq', 'ord'):
            inv = {'ugt': 'ole', 'uge': 'olt', 'ult': 'oge', 'ule': 'ogt', 'une': 'oeq',
                   'ueq': 'one', 'ord': 'uno'}[pred]
            return bnot(self.cmp(inv, a, b))
        if pred == 'one':
            if self.real:
                return bnot(self.cmp('oeq', a, b))
            return bor(self.cmp('olt', a, b), self.cmp('olt', b, a))
        if not is_t(a) and not is_t(b):
            if pred == 'oeq':
                return a == b
            if pred == 'olt':
                return a < b
            if pred == 'ole':
                return a <= b
            if pred == 'uno':
                return a != a or b != b
        if self.real:
            if pred == 'uno':
                return any(not is_t(x) and isinstance(x, float) and x != x for x in (a, b))
            for x, y, flip in ((a, b, False), (b, a, True)):
                if not is_t(x) and isinstance(x, float):
                    if x != x:
                        return False
                    if pred == 'oeq':
                        return False
                    # y is finite: x=+inf: x<y False, y<x True
                    return (x < 0) if not flip else (x > 0)
            if a is b:
                return pred != 'olt'
        elif a is b and pred == 'olt':
            return False
        else:
            r = self.by_exponent(pred, a, b) if pred in ('oeq', 'olt', 'ole', 'uno') else None
            if r is not None:
                return r
        if pred == 'oeq':
            if is_t(a) and is_t(b) and a.id > b.id or not is_t(a):
                a, b = b, a
            return mk('feq', 0, (a, b))
        if pred == 'olt':
            return mk('flt', 0, (a, b))
        if pred == 'ole':
            if self.real:
                return bnot(mk('flt', 0, (b, a)))
            return mk('fle', 0, (a, b))
        if pred == 'uno':
            if not is_t(b) and b == b or a is b:
                return mk('fnan', 0, (a,))
            if not is_t(a) and a == a:
                return mk('fnan', 0, (b,))
            return bor(mk('fnan', 0, (a,)), mk('fnan', 0, (b,)))
        raise NotImplementedError(pred)

    def sitofp(self, a, w, sgn):
        if not is_t(a):
            v = signed(a, w) if sgn else a
            return Fraction(v) if self.real else float(v)
        if w == 0:
            return ite(a, self.const(-1.0 if sgn else 1.0), self.const(0.0), 'F')
        if a.op == 'ite':
            return ite(a.args[0], self.sitofp(a.args[1], w, sgn), self.sitofp(a.args[2], w, sgn), 'F')
        if a.op == 'fptosi' and sgn:
            return self.uf('trunc', (a.args[0],))
        return mk('sitofp' if sgn else 'uitofp', 'F', (a,), w)

    def fptosi(self, a, w, sgn):
        if self.real and is_t(a):
            v = closed_value(a)
            # The value of an irrational constant, when it is far from the next integer.
            if v is not None and abs(v) < 1e15 and abs(v - round(v)) > 1e-20:
                return int(v) & mask(w)
        if not is_t(a):
            if isinstance(a, float) and (math.isinf(a) or math.isnan(a)):
                return 1 << (w - 1)
            return int(a) & mask(w)
        if a.op == 'ite':
            return ite(a.args[0], self.fptosi(a.args[1], w, sgn), self.fptosi(a.args[2], w, sgn), w)
        if a.op == 'sitofp' and sgn and a.pay <= w:
            return sext(a.args[0], a.pay, w)
        return mk('fptosi' if sgn else 'fptoui', w, (a,))

    def min(self, a, b):
        return ite(self.cmp('olt', b, a), b, a, 'F')

    def max(self, a, b):
        return ite(self.cmp('olt', a, b), b, a, 'F')


def closed_value(t, memo=None):
    """The value, to 50 digits, of a real term without free symbols made of + - * / sqrt and roundings, or None."""
    import decimal
    with decimal.localcontext() as c:
        c.prec = 60
        try:
            return _closed(t, 0)
        except (KeyError, decimal.DecimalException, ZeroDivisionError):
            return None


def _closed(t, depth):
    import decimal
    D = decimal.Decimal
    if not is_t(t):
        if isinstance(t, float) and (t != t or t in (math.inf, -math.inf)):
            raise KeyError
        f = Fraction(t)
        return D(f.numerator) / D(f.denominator)
    if depth > 12 or t.op == 'uf' and depth > 0 or t.op not in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'sqrt', 'uf'):
        raise KeyError
    a = [_closed(x, depth + 1) for x in t.args]
    if t.op == 'uf':
        r = {'round': decimal.ROUND_HALF_UP, 'floor': decimal.ROUND_FLOOR, 'ceil': decimal.ROUND_CEILING,
             'trunc': decimal.ROUND_DOWN, 'rint': decimal.ROUND_HALF_EVEN}[t.pay]
        v = a[0]
        # Too close to a discontinuity of the rounding.
        if abs(2 * v - (2 * v).to_integral_value()) < D('1e-30'):
            raise KeyError
        # Exact: the caller needs a value away from the integers.
        n = v.to_integral_value(rounding=r)
        return n + (D('1e-10') if n >= 0 else -D('1e-10'))
    return {'fadd': lambda: a[0] + a[1], 'fsub': lambda: a[0] - a[1], 'fmul': lambda: a[0] * a[1],
            'fdiv': lambda: a[0] / a[1], 'fneg': lambda: -a[0], 'sqrt': lambda: a[0].sqrt()}[t.op]()


def subterms(roots):
    """All distinct subterms, children first."""
    seen = set()
    out = []
    stack = [(r, False) for r in roots if is_t(r)]
    while stack:
        t, done = stack.pop()
        if done:
            out.append(t)
            continue
        if t.id in seen:
            continue
        seen.add(t.id)
        stack.append((t, True))
        for a in t.args:
            if is_t(a) and a.id not in seen:
                stack.append((a, False))
    return out


# ---------------------------------------------------------------- bit slices and tables

def slices(t, w, depth=0):
    """Bits of a w-bit value, most significant first, as pieces (term, lo, n) or (None, const, n)."""
    if not is_t(t):
        return [(None, t & mask(w), w)]
    if depth > 40:
        return [(t, 0, w)]
    op = t.op
    d = depth + 1
    if op == 'tab':
        v = t.pay
        if v.m is None:
            a, o = mask(w), 0
            for x in v.v:
                a &= x
                o |= x
            v.m = a, o
        a, o = v.m
        fixed = a | (mask(w) & ~o)
        if not fixed:
            return [(t, 0, w)]
        out, i = [], w
        while i > 0:
            j = i
            b = fixed >> (i - 1) & 1
            while j > 0 and (fixed >> (j - 1) & 1) == b:
                j -= 1
            out.append((None, a >> j & mask(i - j), i - j) if b else (t, j, i - j))
            i = j
        return out
    if op == 'zext':
        n = t.args[0].sort or 1
        if t.args[0].sort == 0:
            return [(t, 0, w)]
        return [(None, 0, w - n)] + slices(t.args[0], n, d)
    if op == 'sext':
        n = t.args[0].sort
        p = slices(t.args[0], n, d)
        if p and p[0][0] is None and not p[0][1] >> (p[0][2] - 1):
            return [(None, 0, w - n)] + p
        return [(t, 0, w)]
    if op == 'concat':
        wl = t.pay
        return slices(t.args[0], w - wl, d) + slices(t.args[1], wl, d)
    if op == 'extract':
        n = t.args[0].sort
        return cut(slices(t.args[0], n, d), n, t.pay[0], t.pay[1])
    if op in ('shl', 'lshr') and not is_t(t.args[1]) or op == 'mul' and not is_t(t.args[1]) and \
            t.args[1] & (t.args[1] - 1) == 0 and t.args[1]:
        k = t.args[1] if op != 'mul' else t.args[1].bit_length() - 1
        p = slices(t.args[0], w, d)
        if k >= w:
            return [(None, 0, w)]
        if op == 'lshr':
            return [(None, 0, k)] + cut(p, w, w - 1, k)
        return cut(p, w, w - 1 - k, 0) + [(None, 0, k)]
    if op == 'and_' and not is_t(t.args[1]):
        p = slices(t.args[0], w, d)
        out = []
        m = t.args[1]
        i = w
        while i > 0:
            j = i
            b = m >> (i - 1) & 1
            while j > 0 and (m >> (j - 1) & 1) == b:
                j -= 1
            out += cut(p, w, i - 1, j) if b else [(None, 0, i - j)]
            i = j
        return out
    if op in ('or_', 'add', 'xor'):
        p, q = slices(t.args[0], w, d), slices(t.args[1], w, d)
        pts = set()
        for x in (p, q):
            c = w
            for y in x:
                pts.add(c)
                c -= y[2]
        pts.add(0)
        pts = sorted(pts, reverse=True)
        out = []
        for hi, lo in zip(pts, pts[1:]):
            a, b = cut(p, w, hi - 1, lo), cut(q, w, hi - 1, lo)
            if a[0][0] is None and a[0][1] == 0:
                out += b
            elif b[0][0] is None and b[0][1] == 0:
                out += a
            elif op == 'or_' and a[0][0] is None and a[0][1] == mask(hi - lo):
                out += a
            elif op == 'or_' and b[0][0] is None and b[0][1] == mask(hi - lo):
                out += b
            else:
                return [(t, 0, w)]
        return out
    return [(t, 0, w)]


def cut(p, w, hi, lo):
    out = []
    c = w
    for t, x, n in p:
        # this piece holds bits c-1 .. c-n
        a, b = min(hi, c - 1), max(lo, c - n)
        if a >= b:
            m = a - b + 1
            s = b - (c - n)
            out.append((None, x >> s & mask(m), m) if t is None else (t, x + s, m))
        c -= n
    return merge(out)


def merge(p):
    out = []
    for t, x, n in p:
        if n == 0:
            continue
        if out:
            u, y, m = out[-1]
            if t is None and u is None:
                out[-1] = (None, y << n | x, m + n)
                continue
            if t is not None and t is u and y == x + n:
                out[-1] = (t, x, m + n)
                continue
        out.append((t, x, n))
    return out


def unslice(p):
    p = merge(p)
    r, w = None, 0
    for t, x, n in p:
        v = x if t is None else extract(t, x + n - 1, x, t.sort)
        r = v if r is None else concat(r, v, w, n)
        w += n
    return r


def resliced(t, w):
    """An equivalent term made of slices."""
    return unslice(slices(t, w)) if is_t(t) else t


def table(core, n, values, w):
    """The w-bit value values[core], for an n-bit core."""
    if not is_t(core):
        return values[core]
    if core.op == 'tab':
        return table(core.args[0], core.args[0].sort, tuple(values[v] for v in core.pay[0]), w)
    if all(v == i for i, v in enumerate(values)):
        return zext(core, n, w)
    if all(v == values[0] for v in values):
        return values[0]
    return mk('tab', w, (core,), Values.of(values))


class Values:
    """Interned tuple that prints briefly; pay[0] gives the tuple."""
    pool = {}

    @staticmethod
    def of(v):
        r = Values.pool.get(v)
        if r is None:
            r = Values()
            r.v = v
            r.m = None
            r.n = len(Values.pool)
            Values.pool[v] = r
        return r

    def __getitem__(self, i):
        return self.v

    def __repr__(self):
        return 'table%d' % self.n


def tab(t, w, f, wr, cache=None):
    """f applied to the w-bit term t, as a table over its varying span of at most 16 bits, or None."""
    c0, t = linear(t)
    p = merge(slices(t, w))
    k = [i for i, x in enumerate(p) if x[0] is not None]
    if not k:
        return None
    us = {p[i][0] for i in k}
    u = us.pop()
    if not us and u.op == 'tab':
        vals = []
        for v in u.pay[0]:
            x = 0
            for t1, lo, n in p:
                x = x << n | (lo if t1 is None else v >> lo & mask(n))
            y = f((c0 + x) & mask(w))
            if y is None:
                return None
            vals.append(y)
        return table(u.args[0], u.args[0].sort, tuple(vals), wr)
    span = p[k[0]:k[-1] + 1]
    n = sum(x[2] for x in span)
    if n > 16:
        return None
    below = sum(x[2] for x in p[k[-1] + 1:])
    base, c = 0, w
    for i, x in enumerate(p):
        c -= x[2]
        if x[0] is None and not k[0] <= i <= k[-1]:
            base |= x[1] << c
    core = unslice(span)
    key = (c0, base, below, n)
    vals = cache.get(key) if cache is not None else None
    if vals is None:
        vals = tuple(f((c0 + (base | v << below)) & mask(w)) for v in range(1 << n))
        if any(v is None for v in vals):
            return None
        if cache is not None:
            cache[key] = vals
    return table(core, n, vals, wr)


_fold = {}


def urange(t, w):
    """Bounds of the unsigned value."""
    c, t = linear(t) if is_t(t) else (0, t)
    lo = hi = 0
    for u, x, n in slices(t, w):
        lo = lo << n | (x if u is None else 0)
        hi = hi << n | (x if u is None else mask(n))
    if c and c >> (w - 1):
        c -= 1 << w
    lo, hi = lo + c, hi + c
    return (lo, hi) if lo >= 0 and hi <= mask(w) else (0, mask(w))


def fold_tab(a, w):
    """All the values of a, if it is a function of a single table lookup."""
    r = _fold.get((a.id, w), 0)
    if r != 0:
        return r
    r = None
    p = merge(slices(a, w))
    us = {x[0] for x in p if x[0] is not None}
    if len(us) == 1:
        u = us.pop()
        if u.op == 'tab':
            vals = u.pay[0]
            out = set()
            for v in set(vals):
                x = 0
                for t, lo, n in p:
                    x = x << n | (lo if t is None else v >> lo & mask(n))
                out.add(x)
            r = out
    _fold[(a.id, w)] = r
    return r


def has_tab(a, d=6):
    while is_t(a) and d:
        if a.op == 'tab':
            return True
        if a.op in ('zext', 'extract', 'and_', 'concat', 'mul', 'shl', 'lshr', 'or_', 'add'):
            a = a.args[0]
            d -= 1
            continue
        return False
    return False
