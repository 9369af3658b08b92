"""Models of external functions: verification intrinsics, LLVM intrinsics, libc, C++ runtime."""
import ctypes
import math
import re
import struct
from fractions import Fraction
from . import terms as T
from .terms import is_t, mk
from .exec import UNDEF, Unsupported, PathEnd, Fork, ENTERED, SH

_dm = {}
_cxx = None


def demangle(n):
    global _cxx
    r = _dm.get(n)
    if r is not None:
        return r
    r = n
    if n.startswith('_Z'):
        if _cxx is None:
            _cxx = ctypes.CDLL('libstdc++.so.6')
            _cxx.__cxa_demangle.restype = ctypes.c_void_p
            _cxx.__cxa_demangle.argtypes = [ctypes.c_char_p, ctypes.c_void_p, ctypes.c_void_p,
                                            ctypes.POINTER(ctypes.c_int)]
            _cxx.free = ctypes.CDLL(None).free
            _cxx.free.argtypes = [ctypes.c_void_p]
        st = ctypes.c_int()
        p = _cxx.__cxa_demangle(n.encode(), None, None, ctypes.byref(st))
        if p and st.value == 0:
            r = ctypes.string_at(p).decode('utf-8', 'replace')
            _cxx.free(p)
    _dm[n] = r
    return r


def cstr(ex, s, p):
    out = b''
    i, off = ex.resolve(s, p)
    o = s.mem[i]
    while True:
        b = ex.read_int(s, o, off, 1)
        if is_t(b):
            raise Unsupported('symbolic string')
        if b == 0 or b is UNDEF:
            return out.decode('utf-8', 'replace')
        out += bytes([b])
        off += 1


# ---------------------------------------------------------------- verification intrinsics

def new_input(ex, s, name, sort, kind):
    base = name
    n = 0
    while name in s.inputs:
        n += 1
        name = '%s#%d' % (base, n)
    v = T.var(name, sort)
    s.inputs[name] = (v, kind)
    ex.solver.declare(v, kind)
    return v


def vc_input(kind, sort):
    def h(ex, s, f, i, args):
        name = cstr(ex, s, args[0])
        return new_input(ex, s, name, sort, kind)
    return h


def vc_bool(ex, s, f, i, args):
    v = new_input(ex, s, cstr(ex, s, args[0]), 8, 'bool')
    ex.assume(s, T.ult(v, 2, 8))
    r = T.eq(v, 1, 8)
    return r


def vc_assume(ex, s, f, i, args):
    c = args[0]
    if c is UNDEF:
        raise Unsupported('assume on undef')
    assume_split(ex, s, c)


def assume_split(ex, s, c):
    if not is_t(c):
        if not c:
            raise PathEnd('assume-false')
        return
    if c.op == 'and':
        for a in c.args:
            assume_split(ex, s, a)
        return
    d = ex.decide(s, c)
    if d is True:
        return
    if d is False:
        raise PathEnd('assume-false')
    s.samples = ex.solver.filter(s.samples, c)
    ex.assume(s, c)


def vc_assert(ex, s, f, i, args):
    c = args[0]
    label = cstr(ex, s, args[1])
    if c is UNDEF:
        raise Unsupported('assert on undef: ' + label)
    ex.oblige(s, 'assert', label, c)
    if c is False:
        raise PathEnd('check failed ' + label)
    ex.assume(s, c)


def vc_eq(ex, s, f, i, args):
    a, b = args[0], args[1]
    label = cstr(ex, s, args[2])
    if a is UNDEF or b is UNDEF:
        raise Unsupported('comparison of an undefined value: ' + label)
    ex.oblige(s, 'eq', label, None, a, b, 0)


def vc_eq_tol(ex, s, f, i, args):
    a, b, t = args[0], args[1], args[2]
    label = cstr(ex, s, args[3])
    if a is UNDEF or b is UNDEF:
        raise Unsupported('comparison of an undefined value: ' + label)
    ex.oblige(s, 'eq', label, None, a, b, float(t))


def vc_same_bits(ex, s, f, i, args):
    label = cstr(ex, s, args[2])
    ex.oblige(s, 'assert', label, T.eq(T.fbits(args[0]), T.fbits(args[1]), 64))


def vc_may_abort(ex, s, f, i, args):
    s.may_abort = args[0]


def vc_flag(ex, s, f, i, args):
    s.flags[cstr(ex, s, args[0])] = args[1]


def vc_check_failed(ex, s, f, i, args):
    if s.may_abort:
        raise PathEnd('abort')
    ex.oblige(s, 'safety', 'check: no CHECK failure or fatal error' +
              (' at ' + cstr(ex, s, args[0]) if args and not is_t(args[0]) and args[0] else ''), False)
    raise PathEnd('check')


def vc_cover(ex, s, f, i, args):
    label = cstr(ex, s, args[0])
    ex.covers.setdefault(label, []).append((s.path, s.samples))


def vc_reach(ex, s, f, i, args):
    """The specification says this point is never reached."""
    ex.oblige(s, 'assert', cstr(ex, s, args[0]), False)
    raise PathEnd('check')


def vc_uf(ex, s, f, i, args):
    name = cstr(ex, s, args[0])
    n = args[1]
    p = args[2]
    ty = None
    a = []
    for k in range(n):
        a.append(ex.load(s, T.add(p, 8 * k, 64), DOUBLE(ex)))
    return ex.mode.uf('user:' + name, a)


class _D:
    pass


def DOUBLE(ex):
    t = getattr(ex, '_double', None)
    if t is None:
        from .ir import Type
        t = Type()
        t.kind, t.width, t.size, t.store, t.elem, t.n, t.fields, t.offs, t.text = 'f', 64, 8, 8, None, 0, None, None, 'double'
        ex._double = t
    return t


def vc_fuf(name, n):
    def h(ex, s, f, i, args):
        return ex.mode.uf(name, args[:n])
    return h


def vc_array(ex, s, f, i, args):
    """Buffer of args[1] bytes (possibly symbolic) with unknown contents."""
    name = cstr(ex, s, args[0])
    a = ex.alloc(s, args[1], name)
    arr = T.var('mem:' + name, 'A')
    s.mem[a >> SH].arr = arr
    s.inputs['mem:' + name] = (arr, 'array')
    ex.solver.declare(arr, 'array')
    return a


def vc_fork(ex, s, f, i, args):
    """Case split on a condition; returns its truth value, concretely."""
    c = args[0]
    if c is UNDEF:
        raise Unsupported('fork on undef')
    d = ex.decide(s, c)
    if d is None:
        raise Fork(c)
    return d


def vc_concretize(ex, s, f, i, args):
    return ex.concretize(s, args[0])


def vc_is_symbolic(ex, s, f, i, args):
    return True


# ---------------------------------------------------------------- LLVM intrinsics

def nop(ex, s, f, i, args):
    return None


def lift(fn, n):
    def h(ex, s, f, i, args):
        if any(isinstance(a, list) for a in args[:n]):
            return [UNDEF if any(x is UNDEF for x in z) else fn(ex, s, i[2].elem, *z) for z in zip(*args[:n])]
        if any(a is UNDEF for a in args[:n]):
            return UNDEF
        return fn(ex, s, i[2], *args[:n])
    return h


def uf1(name):
    def g(ex, s, ty, a):
        if not is_t(a):
            r = ufconst(ex, name, (a,))
            if r is None and ex.real and s.flags.get('fold') and not isinstance(a, float):
                r = folded(name, a, s.flags.get('fold'))
            if r is not None:
                return r
        return ex.mode.uf(name, (a,))
    return lift(g, 1)


def folded(name, a, snap=1):
    """With vc_flag("fold", 1): an elementary function of a constant, to 45 digits; with 2, the sines and cosines of the
    doubles nearest to the multiples of π / 2 are those of the multiples."""
    import mpmath
    with mpmath.workdps(60):
        v = getattr(mpmath, name)(mpmath.mpf(a.numerator) / mpmath.mpf(a.denominator))
        if snap == 2 and name in ('sin', 'cos') and abs(v - mpmath.nint(v)) < mpmath.mpf(10) ** -15:
            return Fraction(int(mpmath.nint(v)))
        return Fraction(int(mpmath.nint(v * mpmath.mpf(2) ** 150)), 2 ** 150)


def uf2(name):
    def g(ex, s, ty, a, b):
        if not is_t(a) and not is_t(b):
            r = ufconst(ex, name, (a, b))
            if r is not None:
                return r
        return ex.mode.uf(name, (a, b))
    return lift(g, 2)


def ufconst(ex, name, args):
    """Evaluates on constants (exact only when trivially exact in real mode)."""
    if ex.real:
        if any(isinstance(a, float) for a in args):
            try:
                return float(getattr(math, name)(*[float(a) for a in args]))
            except Exception:
                return None
        if name in ('sin', 'tan', 'asin', 'atan', 'sinh', 'tanh', 'cbrt') and args[0] == 0:
            return Fraction(0)
        if name in ('cos', 'exp', 'cosh') and args[0] == 0:
            return Fraction(1)
        if name == 'log' and args[0] == 1:
            return Fraction(0)
        if name == 'pow' and args[1].denominator == 1 and abs(args[1]) < 64 and args[0] != 0:
            return args[0] ** int(args[1])
        if name in ('floor', 'ceil', 'trunc', 'rint', 'round'):
            a = args[0]
            if name == 'floor':
                return Fraction(math.floor(a))
            if name == 'ceil':
                return Fraction(math.ceil(a))
            if name == 'trunc':
                return Fraction(math.trunc(a))
            if name == 'rint':
                return Fraction(round(a))
            return Fraction(math.floor(abs(a) + Fraction(1, 2)) * (1 if a >= 0 else -1))
        return None
    try:
        if name in ('floor', 'ceil', 'trunc'):
            a = args[0]
            if math.isinf(a) or math.isnan(a):
                return a
            r = float(getattr(math, name)(a))
            return math.copysign(r, a) if r == 0 else r
        if name == 'rint':
            return math.copysign(float(round(args[0])), args[0])
        return float(getattr(math, name)(*args))
    except Exception:
        return None


def i_fabs(ex, s, ty, a):
    return ex.mode.abs(a)


def i_sqrt(ex, s, ty, a):
    r = ex.mode.sqrt(a)
    return r


def minmaxnum(which):
    def g(ex, s, ty, a, b):
        if ex.real:
            return ex.mode.min(a, b) if which == 'min' else ex.mode.max(a, b)
        c = ex.mode.cmp('olt', b, a) if which == 'min' else ex.mode.cmp('olt', a, b)
        r = T.ite(c, b, a, 'F')
        return T.ite(ex.mode.cmp('uno', a, a), b, r, 'F')
    return g


def ctpop(ex, s, ty, a):
    w = ty.width
    if not is_t(a):
        return bin(a).count('1')
    r = 0
    for k in range(w):
        r = T.add(r, T.zext(T.extract(a, k, k, w), 1, w), w)
    return r


def ctlz(ex, s, ty, a):
    w = ty.width
    if not is_t(a):
        return w - a.bit_length()
    r = w
    for k in range(w):
        r = T.ite(T.eq(T.extract(a, k, k, w), 1, 1), w - 1 - k, r, w)
    return r


def cttz(ex, s, ty, a):
    w = ty.width
    if not is_t(a):
        return w if a == 0 else (a & -a).bit_length() - 1
    r = w
    for k in range(w - 1, -1, -1):
        r = T.ite(T.eq(T.extract(a, k, k, w), 1, 1), k, r, w)
    return r


def bswap(ex, s, ty, a):
    w = ty.width
    if not is_t(a):
        return int.from_bytes(a.to_bytes(w // 8, 'little'), 'big')
    r = None
    n = w // 8
    for k in range(n):
        b = T.extract(a, 8 * k + 7, 8 * k, w)
        r = b if r is None else T.concat(r, b, 8 * k, 8)
    return r


def iminmax(pred):
    def g(ex, s, ty, a, b):
        return T.ite(T.icmp(pred, a, b, ty.width), a, b, ty.width)
    return g


def iabs(ex, s, ty, a):
    w = ty.width
    return T.ite(T.slt(a, 0, w), T.sub(0, a, w), a, w)


def fsh(left):
    def g(ex, s, ty, a, b, c):
        w = ty.width
        if is_t(c):
            c = T.urem(c, w, w)
            x = T.concat(a, b, w, w)
            c2 = T.zext(c, w, 2 * w)
            if left:
                return T.extract(T.shl(x, c2, 2 * w), 2 * w - 1, w, 2 * w)
            return T.extract(T.lshr(x, c2, 2 * w), w - 1, 0, 2 * w)
        c %= w
        x = T.concat(a, b, w, w)
        if left:
            return T.extract(x, 2 * w - 1 - c, w - c, 2 * w)
        return T.extract(x, w - 1 + c, c, 2 * w)
    return g


def with_overflow(op, sgn):
    def h(ex, s, f, i, args):
        a, b = args
        w = i[2].fields[0].width
        fn = {'add': T.add, 'sub': T.sub, 'mul': T.mul}[op]
        r = fn(a, b, w)
        if op == 'mul' or sgn:
            W = 2 * w
            e = T.sext if sgn else T.zext
            big = fn(e(a, w, W), e(b, w, W), W)
            return [r, T.bnot(T.eq(e(r, w, W), big, W))]
        if op == 'add':
            return [r, T.ult(r, a, w)]
        return [r, T.ult(a, b, w)]
    return h


def sat(op, sgn):
    def g(ex, s, ty, a, b):
        w = ty.width
        if sgn:
            raise Unsupported('signed saturating arithmetic')
        if op == 'add':
            r = T.add(a, b, w)
            return T.ite(T.ult(r, a, w), T.mask(w), r, w)
        return T.ite(T.ult(a, b, w), 0, T.sub(a, b, w), w)
    return g


def lifetime(ex, s, f, i, args):
    return None


def llvm_assume(ex, s, f, i, args):
    return None


def memcpy(ex, s, f, i, args):
    ex.memcpy(s, args[0], args[1], args[2])
    return args[0]


def memset(ex, s, f, i, args):
    v = args[1]
    if is_t(v) and v.sort != 8:
        v = T.extract(v, 7, 0, v.sort)
    elif not is_t(v) and v is not UNDEF:
        v &= 255
    ex.memset(s, args[0], v, args[2])
    return args[0]


def round_sd(ex, s, f, i, args):
    a, b, imm = args
    v = b[0]
    mode = imm & 7
    name = {0: 'rint', 1: 'floor', 2: 'ceil', 3: 'trunc', 4: 'rint'}[mode]
    r = None
    if not is_t(v):
        r = ufconst(ex, name, (v,))
    if r is None:
        r = ex.mode.uf(name, (v,))
    return [r, a[1]]


def round_pd(ex, s, f, i, args):
    a, imm = args
    name = {0: 'rint', 1: 'floor', 2: 'ceil', 3: 'trunc', 4: 'rint'}[imm & 7]
    return [ufconst(ex, name, (v,)) if not is_t(v) else ex.mode.uf(name, (v,)) for v in a]


def cvtsd2si(w):
    def h(ex, s, f, i, args):
        v = args[0][0]
        if not is_t(v):
            return int(round(v)) & T.mask(w)
        return ex.mode.fptosi(ex.mode.uf('rint', (v,)), w, True)
    return h


def llround(ex, s, ty, a):
    if not is_t(a):
        return int(ufconst(ex, 'round', (a,))) & T.mask(ty.width)
    return ex.mode.fptosi(ex.mode.uf('round', (a,)), ty.width, True)


def lrint(ex, s, ty, a):
    if not is_t(a):
        return int(round(a)) & T.mask(ty.width)
    return ex.mode.fptosi(ex.mode.uf('rint', (a,)), ty.width, True)


def vreduce(op):
    def h(ex, s, f, i, args):
        v = args[-1]
        w = i[2].width
        r = v[0]
        for x in v[1:]:
            if op == 'add':
                r = T.add(r, x, w)
            elif op == 'mul':
                r = T.mul(r, x, w)
            elif op == 'or':
                r = T.or_(r, x, w if w > 1 else 0)
            elif op == 'and':
                r = T.and_(r, x, w if w > 1 else 0)
            elif op == 'xor':
                r = T.xor(r, x, w if w > 1 else 0)
        return r
    return h


def vreduce_f(op):
    def h(ex, s, f, i, args):
        r, v = args
        for x in v:
            r = ex.mode.add(r, x) if op == 'fadd' else ex.mode.mul(r, x)
        return r
    return h


def expect(ex, s, f, i, args):
    return args[0]


def is_constant(ex, s, f, i, args):
    return False


def objectsize(ex, s, f, i, args):
    return T.mask(64)


def trap(ex, s, f, i, args):
    return vc_check_failed(ex, s, f, i, [])


def i_fma(ex, s, ty, a, b, c):
    return ex.mode.fma(a, b, c)


def i_copysign(ex, s, ty, a, b):
    return ex.mode.copysign(a, b)


def is_fpclass(ex, s, f, i, args):
    v, m = args
    m &= 1023
    if ex.real:
        # finite reals only
        if not is_t(v):
            x = float(v) if isinstance(v, float) else None
            if x is not None and x != x:
                return bool(m & 3)
            if x is not None and math.isinf(x):
                return bool(m & (0x200 if x > 0 else 4))
            if v == 0:
                return bool(m & 0x60)
            return bool(m & (0x180 if v > 0 else 0x18))
        neg, zero, pos = bool(m & 0x18), bool(m & 0x60), bool(m & 0x180)
        r = False
        if zero:
            r = T.bor(r, ex.mode.cmp('oeq', v, Fraction(0)))
        if pos:
            r = T.bor(r, ex.mode.cmp('ogt', v, Fraction(0)))
        if neg:
            r = T.bor(r, ex.mode.cmp('olt', v, Fraction(0)))
        if neg and zero and pos:
            return True
        return r
    b = T.fbits(v)
    mag = T.and_(b, (1 << 63) - 1, 64)
    sgn = T.ult((1 << 63) - 1, b, 64)
    inf = 0x7ff << 52
    nan = T.ult(inf, mag, 64)
    isinf = T.eq(mag, inf, 64)
    zero = T.eq(mag, 0, 64)
    sub = T.band(T.bnot(zero), T.ult(mag, 1 << 52, 64))
    nor = T.band(T.bnot(T.ult(mag, 1 << 52, 64)), T.ult(mag, inf, 64))
    r = False
    if m & 3 == 3:
        r = T.bor(r, nan)
    elif m & 3:
        quiet = T.bnot(T.eq(T.and_(b, 1 << 51, 64), 0, 64))
        r = T.bor(r, T.band(nan, quiet if m & 2 else T.bnot(quiet)))
    for bit, c, sg in ((2, isinf, True), (3, nor, True), (4, sub, True), (5, zero, True), (6, zero, False),
                       (7, sub, False), (8, nor, False), (9, isinf, False)):
        if m >> bit & 1:
            r = T.bor(r, T.band(c, sgn if sg else T.bnot(sgn)))
    return r


def sincos(ex, s, f, i, args):
    a = args[0]
    out = []
    for n in ('sin', 'cos'):
        r = None if is_t(a) else ufconst(ex, n, (a,))
        if r is None and ex.real and s.flags.get('fold') and not is_t(a) and not isinstance(a, float):
            r = folded(n, a, s.flags.get('fold'))
        out.append(ex.mode.uf(n, (a,)) if r is None else r)
    return out


INTR = [
    (r'llvm\.(lifetime|invariant|dbg|experimental\.noalias|donothing|prefetch|stacksave|stackrestore|var\.annotation|pseudoprobe|va_)', nop),
    (r'llvm\.assume', llvm_assume),
    (r'llvm\.(memcpy|memmove)', memcpy),
    (r'llvm\.memset', memset),
    (r'llvm\.fabs', lift(i_fabs, 1)),
    (r'llvm\.sqrt', lift(i_sqrt, 1)),
    (r'llvm\.(fma|fmuladd)', lift(i_fma, 3)),
    (r'llvm\.copysign', lift(i_copysign, 2)),
    (r'llvm\.(minnum|minimum)', lift(minmaxnum('min'), 2)),
    (r'llvm\.(maxnum|maximum)', lift(minmaxnum('max'), 2)),
    (r'llvm\.floor', uf1('floor')), (r'llvm\.ceil', uf1('ceil')), (r'llvm\.trunc', uf1('trunc')),
    (r'llvm\.(rint|nearbyint|roundeven)', uf1('rint')), (r'llvm\.round\.', uf1('round')),
    (r'llvm\.sin\.', uf1('sin')), (r'llvm\.cos\.', uf1('cos')), (r'llvm\.tan\.', uf1('tan')),
    (r'llvm\.asin\.', uf1('asin')), (r'llvm\.acos\.', uf1('acos')), (r'llvm\.atan\.', uf1('atan')),
    (r'llvm\.sinh\.', uf1('sinh')), (r'llvm\.cosh\.', uf1('cosh')), (r'llvm\.tanh\.', uf1('tanh')),
    (r'llvm\.exp\.', uf1('exp')), (r'llvm\.log\.', uf1('log')), (r'llvm\.pow\.', uf2('pow')),
    (r'llvm\.atan2', uf2('atan2')),
    (r'llvm\.ctpop', lift(ctpop, 1)), (r'llvm\.ctlz', lift(ctlz, 1)), (r'llvm\.cttz', lift(cttz, 1)),
    (r'llvm\.bswap', lift(bswap, 1)),
    (r'llvm\.umin', lift(iminmax('ult'), 2)), (r'llvm\.umax', lift(iminmax('ugt'), 2)),
    (r'llvm\.smin', lift(iminmax('slt'), 2)), (r'llvm\.smax', lift(iminmax('sgt'), 2)),
    (r'llvm\.abs', lift(iabs, 1)),
    (r'llvm\.fshl', lift(fsh(True), 3)), (r'llvm\.fshr', lift(fsh(False), 3)),
    (r'llvm\.usub\.sat', lift(sat('sub', False), 2)), (r'llvm\.uadd\.sat', lift(sat('add', False), 2)),
    (r'llvm\.expect', expect), (r'llvm\.is\.constant', is_constant), (r'llvm\.objectsize', objectsize),
    (r'llvm\.(trap|ubsantrap)', trap),
    (r'llvm\.is\.fpclass', is_fpclass),
    (r'llvm\.vector\.reduce\.fadd', vreduce_f('fadd')), (r'llvm\.vector\.reduce\.fmul', vreduce_f('fmul')),
    (r'llvm\.vector\.reduce\.add', vreduce('add')), (r'llvm\.vector\.reduce\.mul', vreduce('mul')),
    (r'llvm\.vector\.reduce\.or', vreduce('or')), (r'llvm\.vector\.reduce\.and', vreduce('and')),
    (r'llvm\.x86\.sse41\.round\.sd', round_sd), (r'llvm\.x86\.sse41\.round\.pd', round_pd),
    (r'llvm\.x86\.sse2\.cvtsd2si64', cvtsd2si(64)), (r'llvm\.x86\.sse2\.cvtsd2si', cvtsd2si(32)),
    (r'llvm\.(llround|lround)', lift(llround, 1)), (r'llvm\.(llrint|lrint)', lift(lrint, 1)),
    (r'llvm\.load\.relative', None),
    (r'llvm\.threadlocal\.address', expect),
    (r'llvm\.launder|llvm\.strip', expect),
    (r'llvm\.experimental\.constrained', None),
]
for o_ in ('add', 'sub', 'mul'):
    INTR.append((r'llvm\.s%s\.with\.overflow' % o_, with_overflow(o_, True)))
    INTR.append((r'llvm\.u%s\.with\.overflow' % o_, with_overflow(o_, False)))


# ---------------------------------------------------------------- libc / libstdc++ / abi

def malloc(ex, s, f, i, args):
    n = args[0]
    if is_t(n):
        # symbolic size: byte array object
        n = ex.resolve_ite(s, n)
        if is_t(n):
            if n.op == 'ite':
                raise Fork(n.args[0])
            a = ex.alloc(s, n, 'heap')
            s.mem[a >> SH].arr = T.fresh('heap', 'A')
            return a
    if n > (1 << 31):
        raise Unsupported('huge allocation')
    return ex.alloc(s, n, 'heap block of %d bytes' % n)


def calloc(ex, s, f, i, args):
    n = args[0] * args[1]
    return ex.alloc(s, n, 'heap', bytes(n))


def aligned_new(ex, s, f, i, args):
    return malloc(ex, s, f, i, args)


def free(ex, s, f, i, args):
    p = args[0]
    if is_t(p):
        p = ex.resolve_ite(s, p)
        if is_t(p) and p.op == 'ite':
            raise Fork(p.args[0])
    if p == 0:
        return None
    k, off = ex.resolve(s, p)
    o = s.mem.get(k)
    if o is None or o.freed or off != 0:
        ex.bad(s, 'memory: invalid or double free')
    o = ex.wobj(s, k)
    o.freed = True
    o.cells = {}
    o.bg = None
    return None


def memcmp(ex, s, f, i, args):
    p, q, n = args
    n = ex.concretize(s, n)
    r = 0
    for k in range(n - 1, -1, -1):
        a = ex.load(s, T.add(p, k, 64), ex.i8)
        b = ex.load(s, T.add(q, k, 64), ex.i8)
        if a is UNDEF or b is UNDEF:
            raise Unsupported('memcmp of undef')
        r = T.ite(T.eq(a, b, 8), r, T.ite(T.ult(a, b, 8), 0xffffffff, 1, 32), 32)
    return r


def strlen(ex, s, f, i, args):
    p = args[0]
    n = 0
    while True:
        b = ex.load(s, T.add(p, n, 64), ex.i8)
        c = T.eq(b, 0, 8)
        d = ex.decide(s, c)
        if d is None:
            raise Fork(c)
        if d:
            return n
        n += 1


def strto(regex, conv, size):
    import re
    r = re.compile(regex)

    def g(ex, s, f, i, args):
        p, n, text = args[0], 0, ''
        while True:
            b = ex.load(s, T.add(p, n, 64), ex.i8)
            b = b if not is_t(b) else ex.concretize(s, b)
            if b == 0:
                break
            text += chr(b)
            n += 1
        m = r.match(text)
        if not is_t(args[1]) and args[1] == 0:
            pass
        else:
            ex.store(s, args[1], T.add(p, m.end() if m else 0, 64), ex.i64)
        return conv(ex, m.group(1)) if m else conv(ex, '0')
    return g


def conv_int(ex, t):
    return max(min(int(t), (1 << 63) - 1), -(1 << 63)) & ((1 << 64) - 1)


def conv_double(ex, t):
    x = float(t)
    return Fraction(x) if ex.real and not math.isinf(x) else x


def memchr(ex, s, f, i, args):
    p, c, n = args
    n = ex.concretize(s, n)
    c = c & 255 if not is_t(c) else T.extract(c, 7, 0, 32)
    for k in range(n):
        b = ex.load(s, T.add(p, k, 64), ex.i8)
        e = T.eq(b, c, 8)
        d = ex.decide(s, e)
        if d is None:
            raise Fork(e)
        if d:
            return T.add(p, k, 64)
    return 0


def strcmp(ex, s, f, i, args):
    p, q = args[:2]
    k = 0
    while True:
        a = ex.load(s, T.add(p, k, 64), ex.i8)
        b = ex.load(s, T.add(q, k, 64), ex.i8)
        if is_t(a) or is_t(b):
            raise Unsupported('symbolic strcmp')
        if a != b:
            return 1 if a > b else 0xffffffff
        if a == 0:
            return 0
        k += 1


def dynamic_cast(ex, s, f, i, args):
    p, dst = args[0], args[2]
    if is_t(p):
        p = ex.resolve_ite(s, p)
        if is_t(p) and p.op == 'ite':
            raise Fork(p.args[0])
    if p == 0:
        return 0

    def word(a):
        v = ex.load(s, a, ex.i64)
        if is_t(v) or v is UNDEF:
            raise Unsupported('dynamic_cast of an unknown type')
        return v
    vt = word(p)
    most = p + T.signed(word(vt - 16), 64)
    ti = word(vt - 8)

    def find(ti, a):
        if ti == dst:
            return {a & T.mask(64)}
        k, _ = ex.resolve(s, word(ti))
        name = s.mem[k].name
        if '__si_class_type_info' in name:
            return find(word(ti + 16), a)
        if '__vmi_class_type_info' in name:
            n = word(ti + 16) >> 32
            out = set()
            for j in range(n):
                base, fl = word(ti + 24 + 16 * j), T.signed(word(ti + 32 + 16 * j), 64)
                off = fl >> 8
                if fl & 1:
                    off = T.signed(word(word(a) + off), 64)
                if fl & 2:
                    out |= find(base, a + off)
            return out
        return set()
    r = find(ti, most)
    return r.pop() if len(r) == 1 else 0


def guard_acquire(ex, s, f, i, args):
    b = ex.load(s, args[0], ex.i8)
    return 1 if b is UNDEF or b == 0 else 0


def guard_release(ex, s, f, i, args):
    ex.store(s, args[0], 1, ex.i8)


def ret0(ex, s, f, i, args):
    return 0


def abort(ex, s, f, i, args):
    return vc_check_failed(ex, s, f, i, [])


def exit0(ex, s, f, i, args):
    raise PathEnd('abort')


def nan(ex, s, f, i, args):
    return float('nan')


def ldexp(ex, s, f, i, args):
    x, n = args
    if is_t(n):
        return mk('ldexp', 'F', (x, n))
    n = T.signed(n, 32)
    if not is_t(x):
        if isinstance(x, Fraction):
            return x * Fraction(2) ** n
        return math.ldexp(x, n)
    if ex.real:
        return ex.mode.mul(x, Fraction(2) ** n)
    return mk('ldexp', 'F', (x, n))


EXT = {
    'malloc': malloc, '_Znwm': malloc, '_Znam': malloc, 'calloc': calloc,
    '_ZnwmSt11align_val_t': aligned_new, '_ZnamSt11align_val_t': aligned_new,
    '_ZnwmRKSt9nothrow_t': malloc,
    'aligned_alloc': lambda ex, s, f, i, a: malloc(ex, s, f, i, a[1:]),
    'free': free, '_ZdlPv': free, '_ZdaPv': free, '_ZdlPvm': free, '_ZdaPvm': free,
    '_ZdlPvSt11align_val_t': free, '_ZdlPvmSt11align_val_t': free, '_ZdaPvSt11align_val_t': free,
    'memcpy': memcpy, 'memmove': memcpy, 'memset': memset, 'memcmp': memcmp, 'bcmp': memcmp,
    'strtol': strto(r'[ \t\n\v\f\r]*([+-]?[0-9]+)', conv_int, 64), '__isoc23_strtol': strto(r'[ \t\n\v\f\r]*([+-]?[0-9]+)', conv_int, 64),
    'strtod': strto(r'[ \t\n\v\f\r]*([+-]?(?:[0-9]+\.?[0-9]*|\.[0-9]+)(?:[eE][+-]?[0-9]+)?)', conv_double, 64),
    'strlen': strlen, 'memchr': memchr, 'strcmp': strcmp,
    '__cxa_guard_acquire': guard_acquire, '__cxa_guard_release': guard_release,
    '__cxa_guard_abort': nop, '__cxa_atexit': ret0, 'atexit': ret0, '__cxa_pure_virtual': abort,
    'abort': abort, '_ZSt9terminatev': abort, '__assert_fail': abort, 'exit': exit0,
    '_ZSt20__throw_length_errorPKc': abort, '_ZSt17__throw_bad_allocv': abort,
    '_ZSt28__throw_bad_array_new_lengthv': abort, '_ZSt20__throw_out_of_rangePKc': abort,
    '_ZSt24__throw_out_of_range_fmtPKcz': abort, '_ZSt19__throw_logic_errorPKc': abort,
    '_ZSt25__throw_bad_function_callv': abort, '_ZSt24__throw_invalid_argumentPKc': abort,
    '_ZSt27__throw_bad_optional_accessv': abort, '_ZSt26__throw_bad_variant_accessPKc': abort,
    '_ZSt21__glibcxx_assert_failPKciS0_S0_': abort,
    '_ZSt21__throw_runtime_errorPKc': abort, '_ZSt20__throw_system_errori': abort,
    '_ZNSt8ios_base4InitC1Ev': nop, '_ZNSt8ios_base4InitD1Ev': nop,
    'sin': uf1('sin'), 'cos': uf1('cos'), 'tan': uf1('tan'), 'asin': uf1('asin'), 'acos': uf1('acos'),
    'atan': uf1('atan'), 'atan2': uf2('atan2'), 'sinh': uf1('sinh'), 'cosh': uf1('cosh'), 'tanh': uf1('tanh'),
    'asinh': uf1('asinh'), 'acosh': uf1('acosh'), 'atanh': uf1('atanh'),
    'exp': uf1('exp'), 'exp2': uf1('exp2'), 'log': uf1('log'), 'log2': uf1('log2'), 'log10': uf1('log10'),
    'log1p': uf1('log1p'), 'expm1': uf1('expm1'),
    'pow': uf2('pow'), 'cbrt': uf1('cbrt'), 'hypot': uf2('hypot'),
    'floor': uf1('floor'), 'ceil': uf1('ceil'), 'trunc': uf1('trunc'), 'rint': uf1('rint'), 'round': uf1('round'),
    'nearbyint': uf1('rint'),
    'fmod': uf2('fmod'),
    'sqrt': lift(i_sqrt, 1), 'fabs': lift(i_fabs, 1), 'fma': lift(i_fma, 3), 'copysign': lift(i_copysign, 2),
    'fmin': lift(minmaxnum('min'), 2), 'fmax': lift(minmaxnum('max'), 2),
    'lround': lift(llround, 1), 'llround': lift(llround, 1), 'lrint': lift(lrint, 1), 'llrint': lift(lrint, 1),
    'nan': nan, 'ldexp': ldexp, 'scalbn': ldexp,
    'pthread_mutex_lock': ret0, 'pthread_mutex_unlock': ret0, '__errno_location': None,
    'pthread_self': ret0, '__dynamic_cast': dynamic_cast, '__cxa_thread_atexit': ret0,
}
VC = {
    'vc_real': vc_input('real', 'F'), 'vc_f64': vc_input('f64', 'F'),
    'vc_i64': vc_input('i64', 64), 'vc_u64': vc_input('u64', 64),
    'vc_i32': vc_input('i32', 32), 'vc_u32': vc_input('u32', 32),
    'vc_u16': vc_input('u16', 16), 'vc_u8': vc_input('u8', 8), 'vc_bool': vc_bool,
    'vc_assume': vc_assume, 'vc_assert': vc_assert, 'vc_eq': vc_eq, 'vc_eq_tol': vc_eq_tol,
    'vc_same_bits': vc_same_bits,
    'vc_may_abort': vc_may_abort, 'vc_flag': vc_flag, 'vc_check_failed': vc_check_failed,
    'vc_cover': vc_cover, 'vc_unreachable': vc_reach, 'vc_uf': vc_uf, 'vc_array': vc_array,
    'vc_fork': vc_fork, 'vc_concretize': vc_concretize, 'vc_log': nop,
}
DEM = [
    (r'^absl::(debian\d+::|lts_\w+::)?Mutex::', nop),
    (r'^absl::(debian\d+::|lts_\w+::)?CondVar::', nop),
    (r'principia::numerics::_sin_cos::internal::Sin<', uf1('sin')),
    (r'principia::numerics::_sin_cos::internal::Cos<', uf1('cos')),
    (r'principia::numerics::_sin_cos::internal::SinCos<', sincos),
    (r'principia::numerics::_cbrt::internal::Cbrt\(double\)', uf1('cbrt')),
]
_cache = {}


def lookup(ex, name):
    h = _cache.get(name)
    if h is not None:
        return note(ex, name, h)
    h = VC.get(name) or EXT.get(name)
    if h is None and name.startswith('llvm.'):
        for r, g in INTR:
            if re.match(r, name):
                h = g
                break
    if h is None:
        d = demangle(name)
        for r, g in DEM:
            if re.search(r, d):
                h = g
                break
    if h is not None:
        _cache[name] = h
        return note(ex, name, h)
    return None


UFNAMES = {'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'atan2', 'sinh', 'cosh', 'tanh', 'asinh', 'acosh',
           'atanh', 'exp', 'exp2', 'log', 'log2', 'log10', 'log1p', 'expm1', 'pow', 'cbrt', 'hypot', 'fmod'}


def note(ex, name, h):
    if name in UFNAMES:
        ex.assumed.add('libm %s is a function of its arguments%s' % (
            name, ' satisfying sin^2+cos^2=1 and parity' if name in ('sin', 'cos') else ''))
    elif name.startswith('_Z') and name not in EXT:
        ex.assumed.add('external function modelled by contract: ' + demangle(name))
    return h
