"""Feasibility checks, sample evaluation and discharge of obligations."""
import hashlib
import math
import os
import random
import struct
import subprocess
import tempfile
import time
from fractions import Fraction
import z3
from . import terms as T
from . import poly as P
from .terms import is_t

CVC5 = 'cvc5'


class Sample:
    """A (lazily completed) assignment of values to input variables."""

    def __init__(self, idx, seed, real):
        self.idx, self.seed, self.real = idx, seed, real
        self.fixed = {}
        self.kinds = {}
        self.memo = {}

    def rng(self, name):
        h = hashlib.sha256(('%s/%s/%s' % (self.seed, self.idx, name)).encode()).digest()
        return random.Random(h)

    def value(self, t):
        name = t.pay
        v = self.fixed.get(name)
        if v is None:
            v = self.gen(name, t.sort)
            self.fixed[name] = v
        return v

    def gen(self, name, sort):
        r = self.rng(name)
        i = self.idx
        if sort == 'F':
            if not self.real and i % 4 == 3:
                return T.bits2f(r.getrandbits(64))
            m = i % 6
            if m == 0:
                return r.uniform(0.1, 2)
            if m == 1:
                return r.uniform(-2, 2)
            if m == 2:
                return float(r.randint(-4, 4))
            if m == 3:
                return r.uniform(-10, 10)
            if m == 4:
                return r.gauss(0, 1) * 10 ** r.uniform(-2, 2)
            return r.uniform(0, 1)
        if sort == 'A':
            return ArrVal(r.getrandbits(32))
        w = sort if isinstance(sort, int) and sort else 1
        m = i % 5
        if m == 0:
            return r.getrandbits(w)
        if m == 1:
            return r.randint(0, min(T.mask(w), 10))
        if m == 2:
            return (-r.randint(0, 10)) & T.mask(w)
        if m == 3:
            return r.getrandbits(r.randint(1, w))
        return (r.getrandbits(r.randint(1, w)) * r.choice((1, -1))) & T.mask(w)


class ArrVal:
    def __init__(self, seed):
        self.seed = seed
        self.w = {}

    def get(self, i):
        v = self.w.get(i)
        if v is None:
            v = (i * 2654435761 + self.seed) * 2246822519 >> 13 & 255
        return v

    def set(self, i, v):
        r = ArrVal(self.seed)
        r.w = dict(self.w)
        r.w[i] = v
        return r


class EvalError(Exception):
    pass


def uhash(name):
    h = 0
    for c in name.encode():
        h = (h * 131 + c) & 0xffff
    return h % 97 / 97.0


def user_fn(name, a):
    h = uhash(name)
    r = h
    for i, x in enumerate(a):
        r += math.sin((i + 1 + h) * x + i) * (1 + 0.25 * i)
    return r


def ev(t, sm):
    """Numeric value of a term under a sample (floats stand for reals)."""
    if not is_t(t):
        if isinstance(t, Fraction):
            try:
                return float(t)
            except OverflowError:
                raise EvalError()
        return t
    memo = sm.memo
    if t.id in memo:
        v = memo[t.id]
        if v is EvalError:
            raise EvalError()
        return v
    stack = [t]
    while stack:
        x = stack[-1]
        if x.id in memo:
            stack.pop()
            continue
        pend = [a for a in x.args if is_t(a) and a.id not in memo]
        if x.op == 'ite':
            # lazily
            c = x.args[0]
            if is_t(c) and c.id not in memo:
                stack.append(c)
                continue
            cv = memo[c.id] if is_t(c) else c
            if cv is EvalError:
                memo[x.id] = EvalError
                stack.pop()
                continue
            a = x.args[1] if cv else x.args[2]
            if is_t(a) and a.id not in memo:
                stack.append(a)
                continue
            memo[x.id] = (memo[a.id] if is_t(a) else ev(a, sm))
            stack.pop()
            continue
        if pend:
            stack.extend(pend)
            continue
        try:
            args = []
            for a in x.args:
                v = memo[a.id] if is_t(a) else ev(a, sm)
                if v is EvalError:
                    raise EvalError()
                args.append(v)
            memo[x.id] = ev1(x, args, sm)
        except (EvalError, ZeroDivisionError, OverflowError, ValueError, TypeError):
            memo[x.id] = EvalError
        stack.pop()
    v = memo[t.id]
    if v is EvalError:
        raise EvalError()
    return v


def rint(x):
    return float(round(x)) if math.isfinite(x) else x


UFS = {'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'asin': math.asin, 'acos': math.acos,
       'atan': math.atan, 'atan2': math.atan2, 'sinh': math.sinh, 'cosh': math.cosh, 'tanh': math.tanh,
       'asinh': math.asinh, 'acosh': math.acosh, 'atanh': math.atanh, 'exp': math.exp, 'log': math.log,
       'log2': math.log2, 'log10': math.log10, 'log1p': math.log1p, 'expm1': math.expm1, 'pow': math.pow,
       'cbrt': lambda x: math.copysign(abs(x) ** (1 / 3), x), 'hypot': math.hypot, 'fmod': math.fmod,
       'floor': lambda x: float(math.floor(x)), 'ceil': lambda x: float(math.ceil(x)),
       'trunc': lambda x: float(math.trunc(x)), 'rint': rint,
       'round': lambda x: math.copysign(math.floor(abs(x) + 0.5), x)}


def ev1(t, a, sm):
    op = t.op
    s = t.sort
    if op == 'var':
        return sm.value(t)
    if op == 'fconst':
        return float(t.pay)
    if op == 'fadd':
        return a[0] + a[1]
    if op == 'fsub':
        return a[0] - a[1]
    if op == 'fmul':
        return a[0] * a[1]
    if op == 'fdiv':
        if a[1] == 0:
            if not sm.real:
                if a[0] == 0 or a[0] != a[0]:
                    return math.nan
                return math.copysign(math.inf, a[0]) * math.copysign(1, a[1])
            raise EvalError()
        return a[0] / a[1]
    if op == 'fneg':
        return -a[0]
    if op == 'fabs':
        return abs(a[0])
    if op == 'sqrt':
        return math.sqrt(a[0])
    if op == 'fma':
        if not all(map(math.isfinite, a)):
            return a[0] * a[1] + a[2]
        r = Fraction(a[0]) * Fraction(a[1]) + Fraction(a[2])
        return float(r) if r else a[0] * a[1] + a[2]
    if op == 'copysign':
        return math.copysign(a[0], a[1])
    if op == 'uf':
        if t.pay.startswith('user:'):
            return user_fn(t.pay[5:], a)
        f = UFS.get(t.pay)
        if f is None:
            raise EvalError()
        return f(*a)
    if op == 'feq':
        return a[0] == a[1]
    if op == 'flt':
        return a[0] < a[1]
    if op == 'fle':
        return a[0] <= a[1]
    if op == 'fnan':
        return a[0] != a[0]
    if op == 'not':
        return not a[0]
    if op == 'and':
        return bool(a[0] and a[1])
    if op == 'or':
        return bool(a[0] or a[1])
    if op == 'bits':
        return T.f2bits(a[0])
    if op == 'frombits':
        return T.bits2f(a[0])
    if op == 'ldexp':
        return math.ldexp(a[0], T.signed(a[1], 32))
    if op == 'sitofp':
        return float(T.signed(a[0], t.pay))
    if op == 'uitofp':
        return float(a[0])
    if op in ('fptosi', 'fptoui'):
        if not math.isfinite(a[0]):
            return 1 << (s - 1)
        v = int(a[0])
        if op == 'fptosi' and not -(1 << (s - 1)) <= v < 1 << (s - 1):
            return 1 << (s - 1)
        return v & T.mask(s)
    if op == 'tab':
        return t.pay[0][a[0]]
    if op == 'select':
        return a[0].get(a[1])
    if op == 'store':
        return a[0].set(a[1], a[2])
    if op.startswith('nov_'):
        w = t.pay
        x, y = T.signed(a[0], w), T.signed(a[1], w)
        r = {'add': x + y, 'sub': x - y, 'mul': x * y}[op[4:]]
        return -(1 << (w - 1)) <= r < 1 << (w - 1)
    w = t.args[0].sort if is_t(t.args[0]) else (t.args[1].sort if len(t.args) > 1 and is_t(t.args[1]) else s)
    if op == 'concat':
        return (a[0] << t.pay) | a[1]
    if op == 'extract':
        return T.extract(a[0], t.pay[0], t.pay[1], w)
    if op == 'zext':
        return T.zext(a[0], w, s)
    if op == 'sext':
        return T.sext(a[0], w, s)
    if op == 'eq':
        return a[0] == a[1]
    if op == 'ult':
        return a[0] < a[1]
    if op == 'slt':
        return T.signed(a[0], w) < T.signed(a[1], w)
    if op in ('udiv', 'urem', 'sdiv', 'srem') and a[1] == 0:
        raise EvalError()
    return getattr(T, op)(a[0], a[1], s)


# ---------------------------------------------------------------- z3 translation

class Z3:
    fresh = False  # integer parts are named by variables
    rounds = False

    def __init__(self, real, mode_int=False):
        self.real = real
        self.memo = {}
        self.side = []
        self.funcs = {}
        self.sincos = {}
        self.fsort = z3.RealSort() if real else z3.Float64()
        self.rm = z3.RNE()
        self.keep = []
        self.opaque = set()

    def fconst(self, v):
        if self.real:
            if isinstance(v, float):
                if math.isinf(v) or math.isnan(v):
                    return z3.Real('special_' + repr(v).replace('-', 'm'))
                v = Fraction(v)
            return z3.Q(v.numerator, v.denominator)
        if isinstance(v, Fraction):
            v = float(v)
        return z3.fpBVToFP(z3.BitVecVal(T.f2bits(v), 64), z3.Float64())

    def tr(self, t, sort=None):
        if not is_t(t):
            if isinstance(t, bool):
                return z3.BoolVal(t)
            if sort == 0:
                return z3.BoolVal(bool(t))
            if sort == 'F' or isinstance(t, (float, Fraction)):
                return self.fconst(t)
            return z3.BitVecVal(t, sort)
        r = self.memo.get(t.id)
        if r is not None:
            return r
        stack = [t]
        while stack:
            x = stack[-1]
            if x.id in self.memo:
                stack.pop()
                continue
            pend = [a for a in x.args if is_t(a) and a.id not in self.memo]
            if pend:
                stack.extend(pend)
                continue
            self.memo[x.id] = self.tr1(x)
            stack.pop()
        return self.memo[t.id]

    def uf(self, name, *sorts):
        k = (name,) + tuple(str(s) for s in sorts)
        f = self.funcs.get(k)
        if f is None:
            f = z3.Function(name, *sorts)
            self.funcs[k] = f
        return f

    def asort(self, t):
        for a in t.args:
            if is_t(a):
                return a.sort
        return t.sort

    def tr1(self, t):
        op, s = t.op, t.sort
        R = self.real
        if op == 'var':
            if s == 0:
                return z3.Bool(t.pay)
            if s == 'F':
                return z3.Const(t.pay, self.fsort)
            if s == 'A':
                return z3.Array(t.pay, z3.BitVecSort(64), z3.BitVecSort(8))
            return z3.BitVec(t.pay, s)
        if op == 'fconst':
            return self.fconst(t.pay)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            a, b = self.tr(t.args[0], 'F'), self.tr(t.args[1], 'F')
            if R:
                return {'fadd': lambda: a + b, 'fsub': lambda: a - b, 'fmul': lambda: a * b,
                        'fdiv': lambda: a / b}[op]()
            return {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op](self.rm, a, b)
        if op == 'fneg':
            a = self.tr(t.args[0], 'F')
            return -a if R else z3.fpNeg(a)
        if op == 'fabs':
            a = self.tr(t.args[0], 'F')
            return z3.If(a < 0, -a, a) if R else z3.fpAbs(a)
        if op == 'sqrt':
            a = self.tr(t.args[0], 'F')
            if not R:
                return z3.fpSqrt(self.rm, a)
            v = z3.Real('sqrt!%d' % t.id)
            self.side.append(z3.Implies(a >= 0, z3.And(v * v == a, v >= 0)))
            return v
        if op == 'fma':
            a = [self.tr(x, 'F') for x in t.args]
            return a[0] * a[1] + a[2] if R else z3.fpFMA(self.rm, *a)
        if op == 'uf':
            a = [self.tr(x, 'F') for x in t.args]
            if not R:
                rms = {'floor': z3.RTN(), 'ceil': z3.RTP(), 'trunc': z3.RTZ(), 'rint': z3.RNE(), 'round': z3.RNA()}
                if t.pay in rms:
                    return z3.fpRoundToIntegral(rms[t.pay], a[0])
            else:
                if t.pay in ('floor', 'ceil', 'trunc') and not self.fresh:
                    self.rounds = True
                    fl = lambda x: z3.ToReal(z3.ToInt(x))
                    return fl(a[0]) if t.pay == 'floor' else -fl(-a[0]) if t.pay == 'ceil' else \
                        z3.If(a[0] >= 0, fl(a[0]), -fl(-a[0]))
                if t.pay in ('floor', 'ceil', 'trunc'):
                    v = z3.ToReal(z3.Int('%s!%d' % (t.pay, t.id)))
                    down, up = z3.And(v <= a[0], a[0] < v + 1), z3.And(v >= a[0], a[0] > v - 1)
                    self.side.append(down if t.pay == 'floor' else up if t.pay == 'ceil' else
                                     z3.And(z3.Implies(a[0] >= 0, down), z3.Implies(a[0] < 0, up)))
                    return v
                if t.pay == 'round':
                    h = z3.Q(1, 2)
                    return z3.If(a[0] >= 0, z3.ToReal(z3.ToInt(a[0] + h)), -z3.ToReal(z3.ToInt(h - a[0])))
                if t.pay == 'rint':
                    v = z3.Int('rint!%d' % t.id)
                    d = z3.ToReal(v) - a[0]
                    self.side.append(z3.And(d <= z3.Q(1, 2), d >= z3.Q(-1, 2),
                                            z3.Implies(z3.Or(d == z3.Q(1, 2), d == z3.Q(-1, 2)), v % 2 == 0)))
                    return z3.ToReal(v)
            f = self.uf('uf_' + t.pay, *([self.fsort] * (len(a) + 1)))
            r = f(*a)
            if R and t.pay in ('sin', 'cos'):
                o = self.uf('uf_' + ('cos' if t.pay == 'sin' else 'sin'), self.fsort, self.fsort)(*a)
                self.side.append(r * r + o * o == 1)
                self.side += [r <= 1, r >= -1]
            if R and t.pay in ('exp', 'cosh'):
                self.side.append(r > 0)
            if R and t.pay == 'cbrt':
                self.side.append(r * r * r == a[0])
            return r
        if op == 'feq':
            a, b = self.tr(t.args[0], 'F'), self.tr(t.args[1], 'F')
            return a == b if R else z3.fpEQ(a, b)
        if op == 'flt':
            a, b = self.tr(t.args[0], 'F'), self.tr(t.args[1], 'F')
            return a < b if R else z3.fpLT(a, b)
        if op == 'fle':
            a, b = self.tr(t.args[0], 'F'), self.tr(t.args[1], 'F')
            return a <= b if R else z3.fpLEQ(a, b)
        if op == 'fnan':
            return z3.BoolVal(False) if R else z3.fpIsNaN(self.tr(t.args[0], 'F'))
        if op == 'not':
            return z3.Not(self.tr(t.args[0], 0))
        if op == 'and':
            return z3.And(self.tr(t.args[0], 0), self.tr(t.args[1], 0))
        if op == 'or':
            return z3.Or(self.tr(t.args[0], 0), self.tr(t.args[1], 0))
        if op == 'ite':
            return z3.If(self.tr(t.args[0], 0), self.tr(t.args[1], s), self.tr(t.args[2], s))
        if op == 'bits':
            a = self.tr(t.args[0], 'F')
            if R:
                return self.uf('bits', z3.RealSort(), z3.BitVecSort(64))(a)
            return z3.fpToIEEEBV(a)
        if op == 'frombits':
            a = self.tr(t.args[0], 64)
            if R:
                return self.uf('frombits', z3.BitVecSort(64), z3.RealSort())(a)
            return z3.fpBVToFP(a, z3.Float64())
        if op == 'copysign':
            a, b = self.tr(t.args[0], 'F'), self.tr(t.args[1], 'F')
            m = z3.fpAbs(a)
            return z3.If(z3.fpIsNegative(b), z3.fpNeg(m), m)
        if op in ('sitofp', 'uitofp'):
            a = self.tr(t.args[0], t.pay)
            if R:
                return z3.ToReal(z3.BV2Int(a, is_signed=(op == 'sitofp')))
            return (z3.fpSignedToFP if op == 'sitofp' else z3.fpUnsignedToFP)(self.rm, a, z3.Float64())
        if op in ('fptosi', 'fptoui'):
            a = self.tr(t.args[0], 'F')
            if R:
                return z3.Int2BV(z3.If(a >= 0, z3.ToInt(a), -z3.ToInt(-a)), s)
            return (z3.fpToSBV if op == 'fptosi' else z3.fpToUBV)(z3.RTZ(), a, z3.BitVecSort(s))
        if op == 'tab':
            f = z3.Function('tab%d_%d' % (t.pay.n, s), z3.BitVecSort(t.args[0].sort), z3.BitVecSort(s))
            return f(self.tr(t.args[0], t.args[0].sort))
        if op == 'select':
            return z3.Select(self.tr(t.args[0], 'A'), self.tr(t.args[1], 64))
        if op == 'store':
            return z3.Store(self.tr(t.args[0], 'A'), self.tr(t.args[1], 64), self.tr(t.args[2], 8))
        if op == 'constarr':
            return z3.K(z3.BitVecSort(64), self.tr(t.args[0], 8))
        if op == 'ldexp':
            a, b = self.tr(t.args[0], 'F'), self.tr(t.args[1], 32)
            return self.uf('ldexp', self.fsort, z3.BitVecSort(32), self.fsort)(a, b)
        if op.startswith('nov_'):
            w = t.pay
            a, b = self.tr(t.args[0], w), self.tr(t.args[1], w)
            if op == 'nov_add':
                return z3.And(z3.BVAddNoOverflow(a, b, True), z3.BVAddNoUnderflow(a, b))
            if op == 'nov_sub':
                return z3.And(z3.BVSubNoOverflow(a, b), z3.BVSubNoUnderflow(a, b, True))
            return z3.And(z3.BVMulNoOverflow(a, b, True), z3.BVMulNoUnderflow(a, b))
        if op == 'bits32' or op == 'frombits32':
            raise NotImplementedError(op)
        w = self.asort(t)
        if op == 'concat':
            return z3.Concat(self.tr(t.args[0], s - t.pay), self.tr(t.args[1], t.pay))
        a = self.tr(t.args[0], w)
        if op == 'extract':
            return z3.Extract(t.pay[0], t.pay[1], a)
        if op == 'zext':
            return z3.ZeroExt(s - w, a)
        if op == 'sext':
            return z3.SignExt(s - w, a)
        b = self.tr(t.args[1], w)
        if op == 'eq':
            return a == b
        if op == 'ult':
            return z3.ULT(a, b)
        if op == 'slt':
            return a < b
        return {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b,
                'udiv': lambda: z3.UDiv(a, b), 'urem': lambda: z3.URem(a, b),
                'sdiv': lambda: a / b, 'srem': lambda: z3.SRem(a, b),
                'and_': lambda: a & b, 'or_': lambda: a | b, 'xor': lambda: a ^ b,
                'shl': lambda: a << b, 'lshr': lambda: z3.LShR(a, b), 'ashr': lambda: a >> b}[op]()


class Interval:
    """Translation of bit-vector terms to integers, exact when ranges exclude wrap-around."""

    def __init__(self, ranges):
        self.memo = {}
        self.rmemo = {}
        self.side = []
        self.ranges = ranges   # var name -> (lo, hi) signed range
        self.z = None


def uses_tab(t):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'tab':
            return True
        st.extend(a for a in x.args if is_t(a))
    return False


class NoLift(Exception):
    pass


class Lift(Z3):
    """Bit vectors as mathematical integers (signed values), with explicit wrapping where the interval of a result
    does not fit; used for divisions by constants and conversions, on which bit blasting is slow."""
    OPS = {'sdiv', 'srem', 'udiv', 'urem', 'mul', 'sitofp', 'uitofp', 'fptosi', 'fptoui'}

    def __init__(self, real):
        super().__init__(real)
        self.rng = {}
        self.bounds = {}
        self.rats = {}
        self.nk = 0

    def wants(roots, real):
        seen, stack = set(), [r for r in roots if is_t(r)]
        while stack:
            x = stack.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.op in Lift.OPS and (x.op not in ('sitofp', 'uitofp', 'fptosi', 'fptoui') or real):
                return True
            stack.extend(a for a in x.args if is_t(a))
        return False

    def scan(self, conds):
        """Bounds of variables from conditions of the form var < constant."""
        for c in conds:
            if not is_t(c):
                continue
            g, neg = (c.args[0], True) if c.op == 'not' else (c, False)
            if g.op == 'and' and not neg:
                self.scan(g.args)
                continue
            if g.op == 'or' and neg:
                self.scan([T.bnot(a) for a in g.args])
                continue
            if g.op == 'ult' and not neg:
                a, b = g.args
                # x + k <u b, as a range check
                if not is_t(b) and is_t(a):
                    w = a.sort
                    k, r = T.linear(a)
                    if r is not None and r.op == 'var' and b <= 1 << (w - 1):
                        lo, hi = self.bounds.get(r.id, (-(1 << w - 1), (1 << w - 1) - 1))
                        k = T.signed(k, w)
                        if -k >= -(1 << w - 1) and b - 1 - k < 1 << (w - 1):
                            self.bounds[r.id] = max(lo, -k), min(hi, b - 1 - k)
                continue
            if g.op != 'slt':
                continue
            a, b = g.args
            if is_t(a) and a.op == 'var' and not is_t(b):
                w = a.sort
                v = T.signed(b, w)
                lo, hi = self.bounds.get(a.id, (-(1 << w - 1), (1 << w - 1) - 1))
                self.bounds[a.id] = (max(lo, v), hi) if neg else (lo, min(hi, v - 1))
            elif is_t(b) and b.op == 'var' and not is_t(a):
                w = b.sort
                v = T.signed(a, w)
                lo, hi = self.bounds.get(b.id, (-(1 << w - 1), (1 << w - 1) - 1))
                self.bounds[b.id] = (lo, min(hi, v)) if neg else (max(lo, v + 1), hi)

    def iv(self, t, w):
        """(integer expression, lo, hi) of a bit vector."""
        if not is_t(t):
            v = T.signed(t, w)
            return z3.IntVal(v), v, v
        e = self.tr(t, w)
        return (e,) + self.rng[t.id]

    def uv(self, t, w):
        if not is_t(t):
            return z3.IntVal(t), t, t
        e, lo, hi = self.iv(t, w)
        if lo >= 0:
            return e, lo, hi
        if hi < 0:
            return e + (1 << w), lo + (1 << w), hi + (1 << w)
        return z3.If(e < 0, e + (1 << w), e), 0, (1 << w) - 1

    def wrap(self, t, e, lo, hi, w):
        m = 1 << (w - 1)
        if lo < -m or hi >= m:
            k = z3.Int('wrap!%d' % self.nk)
            self.nk += 1
            v = z3.Int('wrapped!%d' % self.nk)
            self.side += [v == e - k * (2 * m), v >= -m, v < m, k >= (lo + m) // (2 * m), k <= (hi + m) // (2 * m)]
            e, lo, hi = v, -m, m - 1
        self.rng[t.id] = lo, hi
        return e

    def tz(self, t, w):
        """Known trailing zeros."""
        if not is_t(t):
            return (t & -t).bit_length() - 1 if t else w
        if t.op in ('add', 'sub', 'or_', 'xor'):
            return min(self.tz(a, w) for a in t.args)
        if t.op == 'mul':
            return min(w, sum(self.tz(a, w) for a in t.args))
        if t.op == 'and_':
            return max(self.tz(a, w) for a in t.args)
        if t.op == 'shl' and not is_t(t.args[1]):
            return min(w, t.args[1] + self.tz(t.args[0], w))
        if t.op in ('zext', 'sext') and t.args[0].sort:
            return min(w, self.tz(t.args[0], t.args[0].sort))
        if t.op == 'ite':
            return min(self.tz(t.args[1], w), self.tz(t.args[2], w))
        return 0

    def rat(self, t):
        """A real term as (e, k, b, d, lo, hi), denoting (k e + b) / d in [lo, hi] for an integer expression e, if it
        is an affine function of integers."""
        if not is_t(t) or t.op == 'fconst':
            v = t.pay if is_t(t) else t
            if isinstance(v, float):
                if math.isinf(v) or math.isnan(v):
                    return None
                v = Fraction(v)
            v = Fraction(v)
            return z3.IntVal(0), 0, v.numerator, v.denominator, v, v
        if t.sort != 'F':
            return None
        if t.id in self.rats:
            return self.rats[t.id]
        r = self.rats[t.id] = self.rat1(t)
        return r

    def affine(self, k1, e1, k2, e2):
        if not k1:
            return k2, e2
        if not k2:
            return k1, e1
        g = math.gcd(k1, k2)
        x = e1 * (k1 // g) if k1 != g else e1
        y = e2 * (k2 // g) if k2 != g else e2
        return g, x + y

    def rat1(self, t):
        op = t.op
        if op in ('sitofp', 'uitofp'):
            if t.args[0].sort == 0:
                return None
            e, lo, hi = (self.iv if op == 'sitofp' else self.uv)(t.args[0], t.pay)
            return e, 1, 0, 1, Fraction(lo), Fraction(hi)
        if op == 'fneg':
            a = self.rat(t.args[0])
            return a and (a[0], -a[1], -a[2], a[3], -a[5], -a[4])
        if op in ('fadd', 'fsub'):
            a, b = self.rat(t.args[0]), self.rat(t.args[1])
            if not a or not b:
                return None
            d = a[3] * b[3] // math.gcd(a[3], b[3])
            p, q = d // a[3], d // b[3]
            if op == 'fsub':
                q = -q
            k, e = self.affine(a[1] * p, a[0], b[1] * q, b[0])
            lo, hi = (a[4] + b[4], a[5] + b[5]) if op == 'fadd' else (a[4] - b[5], a[5] - b[4])
            return e, k, a[2] * p + b[2] * q, d, lo, hi
        if op in ('fmul', 'fdiv'):
            a, b = self.rat(t.args[0]), self.rat(t.args[1])
            if not a or not b:
                return None
            if op == 'fmul' and b[4] != b[5]:
                a, b = b, a
            if b[4] != b[5] or b[4] == 0:
                return None
            k = b[4] if op == 'fmul' else 1 / b[4]
            g = math.gcd(k.numerator, a[3])
            n = k.numerator // g
            lo, hi = sorted((a[4] * k, a[5] * k))
            return a[0], a[1] * n, a[2] * n, a[3] // g * k.denominator, lo, hi
        if op == 'uf' and t.pay in ('trunc', 'floor', 'ceil'):
            a = self.rat(t.args[0])
            if not a:
                return a
            f = {'trunc': math.trunc, 'floor': math.floor, 'ceil': math.ceil}[t.pay]
            e = self.floor(a) if t.pay == 'floor' else self.ceil(a) if t.pay == 'ceil' else self.trunc(a)
            return e, 1, 0, 1, Fraction(f(a[4])), Fraction(f(a[5]))
        if op == 'ite':
            a, b = self.rat(t.args[1]), self.rat(t.args[2])
            if not a or not b:
                return None
            d = a[3] * b[3] // math.gcd(a[3], b[3])
            x = a[0] * (a[1] * (d // a[3])) + a[2] * (d // a[3])
            y = b[0] * (b[1] * (d // b[3])) + b[2] * (d // b[3])
            return z3.If(self.tr(t.args[0], 0), x, y), 1, 0, d, min(a[4], b[4]), max(a[5], b[5])
        return None

    def floor(self, r):
        e, k, b, d, lo, hi = r
        if k == 0:
            return z3.IntVal(b // d)
        g = math.gcd(k, d)
        # floor((g k' e + b) / (g d')) = floor((k' e + floor(b / g)) / d')
        k, b, d = k // g, b // g, d // g
        q, b = divmod(b, d)
        if b == 0 and k > 0 and lo >= q:
            # e in [0, n]: the multiplier may be replaced by the largest fraction below it with a denominator at most n
            n = math.floor((hi - q) * d / k)
            if n < d:
                f = Lift.below(Fraction(k, d), max(n, 1))
                k, d = f.numerator, f.denominator
        x = e * k if k != 1 else e
        if b:
            x = x + b
        if d != 1:
            x = x / d
        return x + q if q else x

    @staticmethod
    def below(x, n):
        """The largest fraction at most x with a denominator at most n."""
        if x.denominator <= n:
            return x
        f = x.limit_denominator(n)
        if f <= x:
            return f
        # the lower neighbour of f in the Farey sequence of order n
        p, q = f.numerator, f.denominator
        # p s - q r = 1 with s the largest denominator <= n
        s = pow(p, -1, q) if q > 1 else 1
        s += (n - s) // q * q
        if s == 0:
            s = q
        r = (p * s - 1) // q
        return Fraction(r, s)

    def ceil(self, r):
        e, k, b, d, lo, hi = r
        return -self.floor((e, -k, -b, d, -hi, -lo))

    def trunc(self, r):
        e, k, b, d, lo, hi = r
        if lo >= 0:
            return self.floor(r)
        if hi <= 0:
            return self.ceil(r)
        return z3.If(e * k + b >= 0, self.floor(r[:4] + (Fraction(-1), hi)), self.ceil(r[:4] + (lo, Fraction(1))))

    def tr1(self, t):
        op, s = t.op, t.sort
        if op in ('feq', 'flt', 'fle') and self.real:
            a, b = self.rat(t.args[0]), self.rat(t.args[1])
            if a and b:
                # k e + c <> 0
                k, e = self.affine(a[1] * b[3], a[0], -b[1] * a[3], b[0])
                c = a[2] * b[3] - b[2] * a[3]
                if k == 0:
                    return z3.BoolVal(c == 0 if op == 'feq' else c < 0 if op == 'flt' else c <= 0)
                if op == 'feq':
                    return e == -c // k if c % k == 0 else z3.BoolVal(False)
                if k < 0:
                    # e >= -c / k
                    q = Fraction(-c, k)
                    return e > math.floor(q) if op == 'flt' else e >= math.ceil(q)
                q = Fraction(-c, k)
                return e < math.ceil(q) if op == 'flt' else e <= math.floor(q)
        if op in ('eq', 'ult', 'slt'):
            w = self.asort(t)
            if w == 0:
                return super().tr1(t)
            if op == 'ult':
                a, b = self.uv(t.args[0], w), self.uv(t.args[1], w)
            else:
                a, b = self.iv(t.args[0], w), self.iv(t.args[1], w)
            return a[0] == b[0] if op == 'eq' else a[0] < b[0]
        if op in ('sitofp', 'uitofp'):
            if not self.real:
                raise NoLift
            return z3.ToReal((self.iv if op == 'sitofp' else self.uv)(t.args[0], t.pay)[0])
        if not isinstance(s, int) or s == 0:
            if op.startswith('nov_'):
                w = t.pay
                a, b = self.iv(t.args[0], w), self.iv(t.args[1], w)
                e = a[0] + b[0] if op == 'nov_add' else a[0] - b[0] if op == 'nov_sub' else a[0] * b[0]
                return z3.And(e >= -(1 << w - 1), e < 1 << (w - 1))
            if any(is_t(a) and isinstance(a.sort, int) and a.sort > 0 for a in t.args) or op == 'select':
                raise NoLift
            return super().tr1(t)
        m = 1 << (s - 1)
        if op == 'var' or op == 'select' and t.args[0].op == 'var' and not is_t(t.args[1]):
            lo, hi = self.bounds.get(t.id, (-m, m - 1))
            v = z3.Int(t.pay if op == 'var' else 'sel!%d' % t.id)
            self.side += [v >= lo, v <= hi]
            self.rng[t.id] = lo, hi
            return v
        if op == 'ite':
            a, b = self.iv(t.args[1], s), self.iv(t.args[2], s)
            self.rng[t.id] = min(a[1], b[1]), max(a[2], b[2])
            return z3.If(self.tr(t.args[0], 0), a[0], b[0])
        if op in ('add', 'sub', 'mul'):
            a, b = self.iv(t.args[0], s), self.iv(t.args[1], s)
            if op == 'add':
                return self.wrap(t, a[0] + b[0], a[1] + b[1], a[2] + b[2], s)
            if op == 'sub':
                return self.wrap(t, a[0] - b[0], a[1] - b[2], a[2] - b[1], s)
            c = [x * y for x in a[1:] for y in b[1:]]
            return self.wrap(t, a[0] * b[0], min(c), max(c), s)
        if op in ('sdiv', 'srem', 'udiv', 'urem'):
            b = t.args[1]
            if is_t(b):
                raise NoLift
            c = T.signed(b, s) if op[0] == 's' else b
            if c == 0:
                raise NoLift
            e, lo, hi = (self.iv if op[0] == 's' else self.uv)(t.args[0], s)
            d = abs(c)
            # truncating division by d
            if lo >= 0:
                q = e / d
            elif hi <= 0:
                q = -((-e) / d)
            else:
                q = z3.If(e >= 0, e / d, -((-e) / d))
            td = lambda x: x // d if x >= 0 else -(-x // d)
            if op[1:] == 'rem':
                r = e - q * d
                self.rng[t.id] = max(lo, 1 - d) if lo < 0 else 0, min(hi, d - 1) if hi > 0 else 0
                if lo >= 0:
                    r = e % d
                if self.rng[t.id][1] >= m:
                    return self.wrap(t, r, *self.rng[t.id], s)
                return r
            ql, qh = td(lo), td(hi)
            if c < 0:
                q, ql, qh = -q, -qh, -ql
            return self.wrap(t, q, ql, qh, s)
        if op == 'zext':
            e, lo, hi = self.uv(t.args[0], t.args[0].sort)
            self.rng[t.id] = lo, hi
            return e
        if op == 'sext':
            if t.args[0].sort == 0:
                raise NoLift
            e, lo, hi = self.iv(t.args[0], t.args[0].sort)
            self.rng[t.id] = lo, hi
            return e
        if op == 'extract':
            h, l = t.pay
            w = t.args[0].sort
            e, lo, hi = self.iv(t.args[0], w)
            if l:
                e, lo, hi = e / (1 << l), lo >> l, hi >> l
            return self.wrap(t, e, lo, hi, s)
        if op == 'concat':
            n = t.pay
            a, b = self.iv(t.args[0], s - n), self.uv(t.args[1], n)
            self.rng[t.id] = a[1] * (1 << n) + b[1], a[2] * (1 << n) + b[2]
            return a[0] * (1 << n) + b[0]
        if op in ('shl', 'lshr', 'ashr'):
            k = t.args[1]
            if is_t(k) or k >= s:
                raise NoLift
            if op == 'shl':
                e, lo, hi = self.iv(t.args[0], s)
                return self.wrap(t, e * (1 << k), lo << k, hi << k, s)
            e, lo, hi = (self.uv if op == 'lshr' else self.iv)(t.args[0], s)
            return self.wrap(t, e / (1 << k), lo >> k, hi >> k, s)
        if op in ('or_', 'xor'):
            a, b = t.args
            for a, b in ((a, b), (b, a)):
                e, lo, hi = self.iv(b, s)
                if 0 <= lo and hi < 1 << self.tz(a, s):
                    x = self.iv(a, s)
                    return self.wrap(t, x[0] + e, x[1] + lo, x[2] + hi, s)
        if op == 'and_' and not is_t(t.args[1]):
            k = t.args[1]
            if k & (k + 1) == 0:
                e, lo, hi = self.iv(t.args[0], s)
                if 0 <= lo and hi <= k:
                    self.rng[t.id] = lo, hi
                    return e
                self.rng[t.id] = 0, k
                return e % (k + 1)
        if op in ('fptosi', 'fptoui') and self.real:
            a = self.rat(t.args[0])
            if a:
                ql, qh = math.trunc(a[4]), math.trunc(a[5])
                if ql >= (-m if op == 'fptosi' else 0) and qh < (m if op == 'fptosi' else 2 * m):
                    return self.wrap(t, self.trunc(a), ql, qh, s)
            a = self.tr(t.args[0], 'F')
            v = z3.Int('fpto!%d' % t.id)
            if op == 'fptosi':
                self.rng[t.id] = -m, m - 1
                r = z3.ToReal(v)
                self.side += [v >= -m, v < m, z3.Implies(z3.And(a >= 0, a < m), z3.And(r <= a, a < r + 1)),
                              z3.Implies(z3.And(a <= 0, a > -m - 1), z3.And(r >= a, r < a + 1))]
                return v
            r = z3.ToReal(v)
            self.side += [v >= 0, v < 2 * m, z3.Implies(z3.And(a >= 0, a < 2 * m), z3.And(r <= a, a < r + 1)),
                          z3.Implies(z3.And(a > -1, a < 0), v == 0)]
            return self.wrap(t, v, 0, 2 * m - 1, s)
        if op == 'tab' and len(t.pay[0]) <= 64:
            e, lo, hi = self.uv(t.args[0], t.args[0].sort)
            vals = [T.signed(x, s) for x in t.pay[0]]
            r = z3.IntVal(vals[-1])
            for i in range(len(vals) - 2, -1, -1):
                r = z3.If(e == i, z3.IntVal(vals[i]), r)
            self.rng[t.id] = min(vals), max(vals)
            return r
        raise NoLift(op, s, repr(t.args)[:600])


class Solver:
    """Feasibility and obligations for one specification function."""

    def __init__(self, real, seed=1, nsamples=24, timeout=10000, qtimeout=1500):
        self.real, self.seed, self.nsamples = real, seed, nsamples
        self.timeout, self.qtimeout = timeout, qtimeout
        self.vars = {}
        self.stats = {'ring': 0, 'z3': 0, 'cvc5': 0, 'trivial': 0, 'groebner': 0, 'ring-tol': 0, 'int': 0}
        self.time = 0.0
        self.mode = T.Mode(real)
        self.feas = 0
        self.extra = []
        self.zt = Z3(real)
        self.fcache = {}
        self.lcache = {}
        self.valid = {}

        self.tcache = {}

    def declare(self, v, kind):
        self.vars[v.pay] = (v, kind)

    def initial_samples(self):
        return [Sample(i, self.seed, self.real) for i in range(self.nsamples)]

    def filter(self, samples, c):
        out = []
        for s in samples or ():
            try:
                if ev(c, s):
                    out.append(s)
            except EvalError:
                pass
        return out

    def query(self, conds, timeout, fresh=False):
        """'sat'/'unsat'/'unknown' and a model."""
        t0 = time.time()
        if not fresh and Lift.wants(conds, self.real):
            r = self.lifted(conds, timeout)
            if r is not None and r[0] == 'unknown' and r[3]:
                r = self.lifted(conds, timeout, True)
            if r is not None:
                r = r[:3]
                self.time += time.time() - t0
                return r
        sol = z3.Solver()
        sol.set('timeout', timeout)
        z = Z3(self.real)
        z.fresh = fresh
        es = []
        try:
            for c in conds:
                es.append(z.tr(c, 0))
        except NotImplementedError:
            return 'unknown', None, None
        for e in es + z.side:
            sol.add(e)
        try:
            r = sol.check()
        except z3.Z3Exception:
            r = z3.unknown
        self.time += time.time() - t0
        if r == z3.sat:
            return 'sat', sol.model(), sol
        if r == z3.unknown and z.rounds and not fresh:
            return self.query(conds, timeout, True)
        return ('unsat' if r == z3.unsat else 'unknown'), None, sol

    def lifted(self, conds, timeout, fresh=False):
        z = Lift(self.real)
        z.fresh = fresh
        z.scan(conds)
        sol = z3.Solver()
        sol.set('timeout', timeout)
        try:
            es = [z.tr(c, 0) for c in conds]
        except (NoLift, NotImplementedError):
            return None
        for e in es + z.side:
            sol.add(e)
        try:
            r = sol.check()
        except z3.Z3Exception:
            return None
        if r == z3.unsat:
            return 'unsat', None, sol, False
        if r == z3.sat:
            return 'sat', sol.model(), sol, False
        if self.real:
            # bit blasting conversions to the reals is hopeless
            return 'unknown', None, sol, z.rounds
        return None

    def model_sample(self, m):
        s = Sample(1000 + len(self.extra), self.seed, self.real)
        for d in m.decls():
            n = d.name()
            if n in self.vars:
                v = m[d]
                val = self.z3val(v, self.vars[n][0].sort)
                if val is not None:
                    s.fixed[n] = val
        for n, (v, k) in self.vars.items():
            if n not in s.fixed:
                s.fixed[n] = {'F': 0.0}.get(v.sort, 0) if v.sort != 'A' else ArrVal(0)
        return s

    def z3val(self, v, sort):
        if sort == 'F':
            if self.real:
                try:
                    if z3.is_algebraic_value(v):
                        v = v.approx(20)
                    return float(v.as_fraction())
                except Exception:
                    return None
            try:
                b = z3.simplify(z3.fpToIEEEBV(v))
                return T.bits2f(b.as_long())
            except Exception:
                return None
        if sort == 'A':
            a = ArrVal(0)
            try:
                while z3.is_app(v) and v.decl().kind() == z3.Z3_OP_STORE:
                    k, x = v.arg(1).as_long(), v.arg(2).as_long()
                    a.w.setdefault(k, x)
                    v = v.arg(0)
                if z3.is_K(v):
                    d = v.arg(0).as_long()
                    a.get = lambda i, w=a.w: w.get(i, d)
            except Exception:
                pass
            return a
        try:
            return v.as_long() & T.mask(sort) if sort and z3.is_int(v) else v.as_long()
        except Exception:
            return None

    def pathconds(self, path):
        out = []
        while path is not None:
            out.append(path[0])
            path = path[1]
        out.reverse()
        return out

    def tab_cond(self, c):
        """A condition on a single table lookup, as (core slice, list of truth values by core value)."""
        r = self.tcache.get(c.id, 0)
        if r != 0:
            return r
        r = None
        g, neg = (c.args[0], True) if c.op == 'not' else (c, False)
        if is_t(g) and g.op in ('eq', 'ult') and any(is_t(a) for a in g.args):
            w = next(a.sort for a in g.args if is_t(a))
            if isinstance(w, int) and w > 0:
                ps, core = [], None
                for a in g.args:
                    p = T.merge(T.slices(a, w)) if is_t(a) else [(None, a, w)]
                    for t, x, n in p:
                        if t is not None:
                            k = None
                            if t.op == 'tab':
                                cs = T.merge(T.slices(t.args[0], t.args[0].sort))
                                k = cs[0] if len(cs) == 1 else None
                            if k is None or core not in (None, k):
                                core = False
                                break
                            core = k
                    ps.append(p)
                    if core is False:
                        break
                if core and core[0] is not None and core[2] <= 16:
                    vals = []
                    for v in range(1 << core[2]):
                        e = []
                        for p in ps:
                            x = 0
                            for t, lo, n in p:
                                x = x << n | (lo if t is None else t.pay[0][v] >> lo & T.mask(n))
                            e.append(x)
                        b = e[0] == e[1] if g.op == 'eq' else e[0] < e[1]
                        vals.append(b != neg)
                    r = core, vals
        self.tcache[c.id] = r
        return r

    def feasible(self, path, c, samples):
        tc = self.tab_cond(c) if is_t(c) and not self.real else None
        if tc is not None:
            ok = [True] * len(tc[1])
            for d in self.pathconds(path):
                dc = self.tab_cond(d) if is_t(d) else None
                if dc is not None and dc[0] == tc[0]:
                    ok = [a and b for a, b in zip(ok, dc[1])]
            t = any(a and b for a, b in zip(ok, tc[1]))
            f = any(a and not b for a, b in zip(ok, tc[1]))
            if t != f:
                return t, f, samples, samples
        st, sf = [], []
        for s in samples or ():
            try:
                (st if ev(c, s) else sf).append(s)
            except EvalError:
                pass
        t, f = bool(st), bool(sf)
        if t and f:
            return t, f, st, sf
        self.feas += 1
        conds = self.pathconds(path)
        if not t:
            r, m, _ = self.query(conds + [c], self.qtimeout)
            t = r != 'unsat'
            if r == 'sat':
                sm = self.model_sample(m)
                st = [sm]
                try:
                    if not ev(c, sm):
                        st = []
                except EvalError:
                    st = []
        if not f:
            r, m, _ = self.query(conds + [T.bnot(c)], self.qtimeout)
            f = r != 'unsat'
            if r == 'sat':
                sm = self.model_sample(m)
                sf = [sm]
                try:
                    if ev(c, sm):
                        sf = []
                except EvalError:
                    sf = []
        return t, f, st, sf

    def value(self, path, t):
        v = T.fresh('val', t.sort)
        r, m, _ = self.query(self.pathconds(path) + [T.eq(t, v, t.sort)], self.qtimeout * 4)
        if r != 'sat':
            return None
        try:
            for d in m.decls():
                if d.name() == v.pay:
                    return self.z3val(m[d], t.sort)
        except Exception:
            pass
        return None

    # ------------------------------------------------------------ obligations
    def discharge(self, o, deadline=None):
        """Returns (verdict, backend, info): verdict in proved / refuted / unknown."""
        t0 = time.time()
        conds = self.pathconds(o.path)
        if o.kind == 'eq':
            r = self.discharge_eq(o, conds)
        else:
            r = self.discharge_bool(o, conds, o.goal)
        self.time += time.time() - t0
        if r[0] == 'proved':
            self.stats[r[1]] = self.stats.get(r[1], 0) + 1
        return r

    def refute_bool(self, o, goal):
        for s in o.state_samples or ():
            try:
                if not ev(goal, s) and not self.near(goal, s):
                    return s
            except EvalError:
                pass
        return None

    def near(self, goal, s):
        """True if the falsity of goal may be due to rounding in the evaluation."""
        if not is_t(goal):
            return False
        if goal.op == 'not':
            g = goal.args[0]
            if is_t(g) and g.op in ('flt', 'feq', 'fle'):
                a, b = ev(g.args[0], s), ev(g.args[1], s)
                return abs(a - b) <= 1e-7 * max(abs(a), abs(b), 1e-3)
            return self.near(g, s) if is_t(g) and g.op in ('and', 'or', 'not') else False
        if goal.op in ('flt', 'feq', 'fle'):
            a, b = ev(goal.args[0], s), ev(goal.args[1], s)
            return abs(a - b) <= 1e-7 * max(abs(a), abs(b), 1e-3)
        if goal.op in ('and', 'or'):
            return any(self.near(g, s) for g in goal.args)
        return False

    def discharge_bool(self, o, conds, goal):
        if not is_t(goal):
            if goal:
                return 'proved', 'trivial', None
            # reachable?
            if o.state_samples:
                return 'refuted', 'sample', o.state_samples[0]
            r, m, _ = self.query(conds, self.timeout)
            if r == 'unsat':
                return 'proved', 'z3', None
            if r == 'sat':
                return 'refuted', 'z3', self.model_sample(m)
            r2 = self.cvc5(conds)
            if r2 == 'unsat':
                return 'proved', 'cvc5', None
            return 'unknown', 'z3', 'path feasibility unknown'
        if goal.op == 'and':
            last = None
            for g in goal.args:
                r = self.discharge_bool(o, conds, g)
                if r[0] != 'proved':
                    return r
                last = r
            return last
        if self.real and Lift.wants(conds + [goal], True):
            r = self.lifted(conds + [T.bnot(goal)], 1000)
            if r is not None and r[0] == 'unsat':
                return 'proved', 'z3', None
        if self.real and goal.op == 'feq':
            o2 = _Eq(o, goal.args[0], goal.args[1])
            r = self.discharge_eq(o2, conds, quick=True)
            if r[0] == 'proved':
                return r
        s = self.refute_bool(o, goal)
        if s is not None:
            return 'refuted', 'sample', s
        if not self.real:
            b = self.generic(conds, goal)
            if b:
                return 'proved', b, None
        if self.real:
            try:
                if self.sign_goal(conds, goal):
                    return 'proved', 'sign', None
            except (P.Blowup, P.Refine, P.Unresolved, ZeroDivisionError):
                pass
        r, m, sol = self.query(conds + [T.bnot(goal)], self.timeout if not self.real else min(3000, self.timeout))
        if r == 'unsat':
            return 'proved', 'z3', None
        if r == 'sat':
            sm = self.model_sample(m)
            if not self.real and uses_tab(goal):
                # tables are uninterpreted in the query: the model counts only if it falsifies the goal
                try:
                    if ev(goal, sm):
                        return 'unknown', 'z3', 'model not confirmed'
                except EvalError:
                    pass
            return 'refuted', 'z3', sm
        if self.real:
            if self.contradiction(o, conds + [T.bnot(goal)]):
                return 'proved', 'groebner', None
            r, m, sol = self.query(conds + [T.bnot(goal)], self.timeout)
            if r == 'unsat':
                return 'proved', 'z3', None
            if r == 'sat':
                return 'refuted', 'z3', self.model_sample(m)
        if self.real and self.abstract(conds + [T.bnot(goal)]):
            return 'proved', 'z3', None
        r2 = self.cvc5(conds + [T.bnot(goal)])
        if r2 == 'unsat':
            return 'proved', 'cvc5', None
        return 'unknown', 'z3', 'solver returned unknown'

    # ---- the same query with large subterms replaced by unconstrained inputs
    def abstract(self, conds):
        flat = []
        for c in conds:
            self.flatten(c, flat)
        flat = [c for c in flat if is_t(c)]
        if sum(1 for c in flat) > 200:
            return False
        for depth in (2, 3, 4):
            cut = {}
            for c in flat:
                level = [c]
                for d in range(depth + (c.op == 'not')):
                    level = [a for x in level for a in x.args if is_t(a)]
                for x in level:
                    if x.sort == 'F' and x.op not in ('var', 'select', 'const') and len(x.args):
                        cut[x.id] = x
            z = Z3(True)
            for i, x in cut.items():
                v = z3.Real('cut%d' % i)
                z.memo[i] = v
                z.keep.append(x)
                if x.op in ('sqrt', 'fabs'):
                    z.side.append(v >= 0)
            sol = z3.Solver()
            sol.set('timeout', 1500)
            t0 = time.time()
            try:
                es = [z.tr(c, 0) for c in flat]
            except NotImplementedError:
                return False
            for e in es + z.side:
                sol.add(e)
            try:
                r = sol.check()
            except z3.Z3Exception:
                r = z3.unknown
            self.time += time.time() - t0
            if r == z3.unsat:
                return True
        return False

    # ---- machine arithmetic: validity of the goal from the conditions that share inputs with it
    def leaves(self, t):
        r = self.lcache.get(t.id)
        if r is None:
            r = set()
            seen = set()
            stack = [t]
            while stack:
                x = stack.pop()
                if x.id in seen:
                    continue
                seen.add(x.id)
                if x.op == 'var' or (x.op == 'select' and x.args[0].op == 'var' and not is_t(x.args[1])):
                    r.add(x)
                else:
                    stack.extend(a for a in x.args if is_t(a))
            self.lcache[t.id] = r
        return r

    def generic(self, conds, goal):
        if goal.op == 'eq' and (is_t(goal.args[0]) or is_t(goal.args[1])):
            w = goal.args[0].sort if is_t(goal.args[0]) else goal.args[1].sort
            if w != 0 and self.piecewise(goal, w):
                return 'enum'
        g, neg = (goal.args[0], True) if goal.op == 'not' else (goal, False)
        if is_t(g) and g.op == 'ult':
            w = next(x.sort for x in g.args if is_t(x))
            (a0, a1), (b0, b1) = T.urange(g.args[0], w), T.urange(g.args[1], w)
            if a0 >= b1 if neg else a1 < b0:
                return 'trivial'
        ls = self.leaves(goal)
        bits = sum(1 if l.sort == 0 else l.sort if isinstance(l.sort, int) else 99 for l in ls)
        k = self.shape([goal])
        if k in self.valid:
            return self.valid[k]
        if (bits <= 10 or bits <= 16 and goal.depth < 8) and self.enumerate(ls, goal):
            self.valid[k] = 'enum'
            return 'enum'
        # conditions connected to the goal through shared inputs
        rel, seen, todo = [], set(ls), [c for c in conds if is_t(c)]
        for _ in range(6):
            rest = []
            for c in todo:
                lc = self.leaves(c)
                if lc & seen:
                    seen |= lc
                    rel.append(c)
                else:
                    rest.append(c)
            if len(rest) == len(todo):
                break
            todo = rest
        if len(rel) > 60:
            rel = [c for c in rel if self.leaves(c) <= ls]
        k2 = self.shape(rel + [goal])
        if k2 in self.valid:
            return self.valid[k2]
        r, m, sol = self.query(rel + [T.bnot(goal)], self.timeout)
        if r == 'unsat':
            self.valid[k2] = 'z3'
            return 'z3'
        return None

    def piecewise(self, goal, w):
        """Equality of bit slices and of tables over bit slices."""
        p, q = T.merge(T.slices(goal.args[0], w)), T.merge(T.slices(goal.args[1], w))
        if p == q:
            return True
        pts = {0}
        for x in (p, q):
            c = w
            for y in x:
                pts.add(c)
                c -= y[2]
        pts = sorted(pts, reverse=True)
        for hi, lo in zip(pts, pts[1:]):
            a, b = T.cut(p, w, hi - 1, lo), T.cut(q, w, hi - 1, lo)
            if a == b:
                continue
            if len(a) != 1 or len(b) != 1:
                return False
            # core slices on which the two pieces depend
            core = None
            for t, x, n in a + b:
                if t is not None and t.op == 'tab':
                    cs = T.merge(T.slices(t.args[0], t.args[0].sort))
                    if len(cs) != 1 or core not in (None, cs[0]):
                        return False
                    core = cs[0]
            if core is None or core[2] > 16:
                return False
            for v in range(1 << core[2]):
                r = []
                for t, x, n in a + b:
                    if t is None:
                        r.append(x)
                    elif t.op == 'tab':
                        r.append(t.pay[0][v] >> x & T.mask(n))
                    elif t is core[0] and core[1] <= x and x + n <= core[1] + core[2]:
                        r.append(v >> (x - core[1]) & T.mask(n))
                    else:
                        return False
                if r[0] != r[1]:
                    return False
        return True

    def enumerate(self, ls, goal):
        import itertools
        ls = list(ls)
        class E:
            real = False
        for vs in itertools.product(*[range(1 << (l.sort or 1)) for l in ls]):
            e = E()
            e.memo = {l.id: (bool(v) if l.sort == 0 else v) for l, v in zip(ls, vs)}
            try:
                if not ev(goal, e):
                    return False
            except (EvalError, AttributeError):
                return False
        return True

    def shape(self, ts):
        """The formulas up to a renaming of the inputs (distinct concrete array elements count as inputs)."""
        num, out, nv = {}, [], 0
        for root in ts:
            if not is_t(root):
                continue
            stack = [root]
            while stack:
                x = stack[-1]
                if x.id in num:
                    stack.pop()
                    continue
                if x.op == 'var' or (x.op == 'select' and x.args[0].op == 'var' and not is_t(x.args[1])):
                    num[x.id] = len(num)
                    out.append(('v', x.sort))
                    stack.pop()
                    continue
                pend = [a for a in x.args if is_t(a) and a.id not in num]
                if pend:
                    stack.extend(reversed(pend))
                    continue
                num[x.id] = len(num)
                out.append((x.op, x.sort, repr(x.pay), tuple(num[a.id] if is_t(a) else ('c', repr(a)) for a in x.args)))
                stack.pop()
            out.append(('root', num[root.id]))
        return hash(tuple(out)), len(out), tuple(out[-3:])

    # ---- real arithmetic: contradictory equalities and disequalities
    def contradiction(self, o, conds):
        flat = []
        for c in conds:
            self.flatten(c, flat)
        if not any(is_t(c) and c.op == 'feq' for c in flat):
            return False
        for c in flat:
            if is_t(c) and c.op == 'not' and is_t(c.args[0]) and c.args[0].op == 'feq':
                p, q = c.args[0].args
                others = [x for x in flat if x is not c]
                try:
                    r = self.ring(_Eq(o, p, q), others, p, q, maxcases=64)
                except (P.Blowup, P.Refine, ZeroDivisionError):
                    continue
                if r[0] == 'proved':
                    return True
        return False

    def flatten(self, c, out):
        if is_t(c) and c.op == 'and':
            for x in c.args:
                self.flatten(x, out)
        elif is_t(c) and c.op == 'not' and is_t(c.args[0]) and c.args[0].op == 'or':
            for x in c.args[0].args:
                self.flatten(T.bnot(x), out)
        else:
            out.append(c)

    # ---- real arithmetic: signs of polynomials whose terms have known signs
    def sign_goal(self, conds, goal):
        if goal.op == 'flt':
            a, b, strict = goal.args[0], goal.args[1], True
        elif goal.op == 'not' and is_t(goal.args[0]) and goal.args[0].op == 'flt':
            b, a, strict = goal.args[0].args[0], goal.args[0].args[1], False
        else:
            return False
        n = P.Normaliser(self.mode)
        for c in conds:
            self.add_assign(n.assign, c, True)
        d = n.radd(n.norm(b), n.norm(a), -1)
        if not d.num:
            return not strict
        flat = []
        for c in conds:
            self.flatten(c, flat)
        known = {}   # monic polynomial key -> '+', '0+', '-', '0-', '!=0'

        def learn(x, y, kind):
            try:
                h = n.radd(n.norm(y), n.norm(x), -1)
            except (P.Blowup, P.Refine, P.Unresolved, ZeroDivisionError):
                return
            if h.den or not h.num or P.is_const(h.num):
                return
            u, m = P.monic(h.num)
            if kind != '!=0' and u < 0:
                kind = {'+': '-', '0+': '0-'}[kind]
            k = P.pkey(m)
            old = known.get(k)
            if {old, kind} == {'0+', '!=0'}:
                kind = '+'
            elif {old, kind} == {'0-', '!=0'}:
                kind = '-'
            elif old in ('+', '-'):
                kind = old
            known[k] = kind
        for c in flat:
            if not is_t(c):
                continue
            if c.op == 'flt':
                learn(c.args[0], c.args[1], '+')
            elif c.op == 'not' and is_t(c.args[0]) and c.args[0].op == 'flt':
                learn(c.args[0].args[1], c.args[0].args[0], '0+')
            elif c.op == 'not' and is_t(c.args[0]) and c.args[0].op == 'feq':
                learn(c.args[0].args[0], c.args[0].args[1], '!=0')
        for k in list(known):
            if known[k] == '!=0':
                m = dict(k)
                v = self.poly_sign(n, m, known)
                if v == '0+':
                    known[k] = '+'
                elif v == '0-':
                    known[k] = '-'
        v = self.poly_sign(n, d.num, known)
        if v is None or v[-1] not in '+-':
            return False
        pos = v[-1] == '+'
        for q, e in d.den.values():
            if e % 2 == 0:
                continue
            w = self.poly_sign(n, q, known)
            if w is None or w[-1] not in '+-':
                return False
            if w[-1] == '-':
                pos = not pos
        return pos and (not strict or len(v) == 1)

    def poly_sign(self, n, p, known):
        if not p:
            return None
        if P.is_const(p):
            return '+' if p[0] > 0 else '-'
        u, m = P.monic(p)
        k = known.get(P.pkey(m))
        if k in ('+', '-', '0+', '0-'):
            if u < 0:
                k = k[:-1] + ('-' if k[-1] == '+' else '+')
            return k
        res = set()
        for m, c in p.items():
            s, strict = (1 if c > 0 else -1), True
            i = 0
            while m:
                e = m & P.MASK
                if e:
                    a = known.get(P.pkey({1 << (P.SH * i): 1}))
                    info = n.atom_info[i]
                    if e % 2:
                        if info[0] == 'sqrt':
                            strict = strict and a in ('+', '!=0')
                        elif info[0] == 'uf' and is_t(info[1]) and info[1].op == 'uf' and info[1].pay in ('exp', 'cosh'):
                            pass
                        elif a in ('+', '0+'):
                            strict = strict and a == '+'
                        elif a in ('-', '0-'):
                            s = -s
                            strict = strict and a == '-'
                        else:
                            return None
                    else:
                        strict = strict and a in ('+', '-', '!=0')
                m >>= P.SH
                i += 1
            res.add((s, strict))
        signs = {s for s, _ in res}
        if len(signs) != 1:
            return None
        return ('' if any(st for _, st in res) else '0') + ('+' if signs == {1} else '-')

    def cvc5(self, conds, timeout=None):
        z = Z3(self.real)
        sol = z3.Solver()
        try:
            for c in conds:
                sol.add(z.tr(c, 0))
        except NotImplementedError:
            return 'unknown'
        for e in z.side:
            sol.add(e)
        txt = sol.to_smt2()
        txt = '(set-logic ALL)\n' + txt
        try:
            with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
                f.write(txt)
            r = subprocess.run([CVC5, '--tlimit=%d' % (timeout or self.timeout), '--nl-ext-tplanes', f.name],
                               capture_output=True, text=True, timeout=(timeout or self.timeout) / 1000 + 10)
            out = r.stdout.strip().split('\n')[0]
            return out if out in ('sat', 'unsat') else 'unknown'
        except Exception:
            return 'unknown'
        finally:
            os.unlink(f.name)

    # ---- equalities of doubles
    def discharge_eq(self, o, conds, quick=False):
        a, b = o.a, o.b
        if T.same(a, b):
            return 'proved', 'trivial', None
        if not self.real:
            # IEEE equality
            goal = self.mode.cmp('oeq', a, b)
            return self.discharge_bool(o, conds, goal)
        if not is_t(a) and not is_t(b):
            fa, fb = float(a), float(b)
            if a == b or abs(fa - fb) <= max(o.tol, 1e-13) * max(abs(fa), abs(fb)):
                return 'proved', 'trivial' if a == b else 'ring-tol', None
            if fa != fa or math.isinf(fa) or math.isinf(fb):
                pass
            return self.refuted_path(o, conds)
        try:
            r = self.ring(o, conds, a, b)
        except (P.Blowup, P.Refine, ZeroDivisionError) as e:
            r = ('unknown', 'ring', repr(e))
        if r[0] == 'proved' or quick:
            return r
        # numeric refutation on a sample of this path
        for s in o.state_samples or ():
            try:
                x, y = ev(a, s), ev(b, s)
                if not (math.isfinite(x) and math.isfinite(y)):
                    continue
                if abs(x - y) > max(1e-6, 10 * o.tol) * max(abs(x), abs(y), 1e-6):
                    return 'refuted', 'sample', s
            except EvalError:
                pass
        goal = self.mode.cmp('oeq', a, b)
        q, m, sol = self.query(conds + [T.bnot(goal)], self.timeout)
        if q == 'unsat':
            return 'proved', 'z3', None
        if q == 'sat':
            sm = self.model_sample(m)
            return 'refuted', 'z3', sm
        r2 = self.cvc5(conds + [T.bnot(goal)])
        if r2 == 'unsat':
            return 'proved', 'cvc5', None
        return 'unknown', 'ring+z3+cvc5', r[2]

    def refuted_path(self, o, conds):
        if o.state_samples:
            return 'refuted', 'sample', o.state_samples[0]
        q, m, _ = self.query(conds, self.timeout)
        if q == 'unsat':
            return 'proved', 'z3', None
        if q == 'sat':
            return 'refuted', 'z3', self.model_sample(m)
        return 'unknown', 'z3', None

    def ring(self, o, conds, a, b, maxcases=4096):
        """Case-splitting rational-function normalisation."""
        base = {}
        for c in conds:
            self.add_assign(base, c, True)
        stack = [dict(base)]
        cases = 0
        units = {}
        refines = 0
        tolused = False
        gro = False
        while stack:
            asg = stack.pop()
            cases += 1
            if cases > maxcases:
                return 'unknown', 'ring', 'too many cases'
            n = P.Normaliser(self.mode)
            n.assign = asg
            n.units = units
            self.square_rules(n, conds, asg)
            try:
                na = n.norm(a)
                nb = n.norm(b)
                d = n.radd(na, nb, -1)
            except P.Refine:
                refines += 1
                if refines > 60:
                    return 'unknown', 'ring', 'too many angle units'
                stack.append(asg)
                continue
            except P.Unresolved as e:
                c = e.c
                for v in (True, False):
                    x = dict(asg)
                    self.add_assign(x, c, v)
                    stack.append(x)
                if len(asg) - len(base) > 60:
                    return 'unknown', 'ring', 'too deep'
                continue
            if not d.num:
                continue
            # an infeasible case needs no proof
            if self.small(n, na, nb, d, max(o.tol, 1e-11)):
                tolused = True
                continue
            # equalities on the path
            z = self.ideal(n, conds, asg, d)
            if z:
                gro = True
                continue
            if cases > 1 or stack:
                cc = list(conds)
                ids = {}
                for t in T.subterms([a, b] + conds):
                    ids[t.id] = t
                for k, v in asg.items():
                    if k in ids and k not in base:
                        cc.append(ids[k] if v else T.bnot(ids[k]))
                q, m, _ = self.query(cc, self.qtimeout)
                if q == 'unsat':
                    continue
            return 'nonzero', 'ring', 'difference: (' + n.show(d.num) + ')' + (' / ...' if d.den else '')
        return 'proved', ('groebner' if gro else 'ring-tol' if tolused else 'ring'), None

    def add_assign(self, asg, c, v):
        if not is_t(c):
            return
        if c.op == 'not':
            return self.add_assign(asg, c.args[0], not v)
        asg[c.id] = v
        if c.op == 'and' and v:
            for x in c.args:
                self.add_assign(asg, x, True)
        if c.op == 'or' and not v:
            for x in c.args:
                self.add_assign(asg, x, False)
        if c.op == 'flt' and v:
            # a < b excludes b < a and a == b
            r = self.mode.cmp('olt', c.args[1], c.args[0])
            if is_t(r):
                asg.setdefault(r.id, False)
            r = self.mode.cmp('oeq', c.args[1], c.args[0])
            if is_t(r):
                asg.setdefault(r.id, False)

    def small(self, n, na, nb, d, tol):
        """Difference attributable to rounding of constants: every coefficient is tiny compared with
        the coefficients of the operands over the same denominator."""
        if tol <= 0:
            return False
        # bring a over the denominator of d
        try:
            big = max([abs(float(c)) for c in na.num.values()] + [abs(float(c)) for c in nb.num.values()] + [0.0])
            if set(na.den) == set(d.den) == set(nb.den) or (not na.den and not nb.den and not d.den):
                scale = big
            else:
                # common denominator differs: scale with the largest coefficient of the cross products
                s1 = na.num
                s2 = nb.num
                scale = 0.0
                for x, y in ((na, nb), (nb, na)):
                    p = x.num
                    for k, (q, e) in d.den.items():
                        have = x.den[k][1] if k in x.den else 0
                        for _ in range(e - have):
                            p = P.pmul(p, q)
                    scale = max([scale] + [abs(float(c)) for c in p.values()])
            return max(abs(float(c)) for c in d.num.values()) <= tol * scale
        except (P.Blowup, OverflowError, ValueError):
            return False

    def square_rules(self, n, conds, asg):
        """Path equalities that determine the square of a variable (the norm of a unit quaternion, cos² + sin² = 1)
        become rewriting rules of the normaliser."""
        for t in conds:
            if not (is_t(t) and t.op == 'feq'):
                continue
            try:
                x = n.radd(n.norm(t.args[0]), n.norm(t.args[1]), -1)
            except (P.Unresolved, P.Blowup, P.Refine, ZeroDivisionError):
                continue
            if not x.num or x.den or len(x.num) > 20:
                continue
            occ = {}
            for m in x.num:
                i = 0
                while m:
                    if m & P.MASK:
                        occ.setdefault(i, []).append(m & P.MASK)
                    m >>= P.SH
                    i += 1
            for i in sorted(occ, reverse=True):
                if i in n.rules:
                    break
                c = x.num.get(2 << (P.SH * i))
                if occ[i] == [2] and c and n.atom_info[i][0] == 'var':
                    n.rules[i] = (P.pmul({0: Fraction(-1) / Fraction(c)}, {m: v for m, v in x.num.items() if m != 2 << (P.SH * i)}), {})
                    n.memo.clear()
                    break

    def ideal(self, n, conds, asg, d):
        """d.num in the ideal of the path equalities?"""
        eqs = []
        ids = {}
        for t in T.subterms(conds):
            if t.op == 'feq' and asg.get(t.id) is True:
                ids[t.id] = t
        for t in ids.values():
            try:
                x = n.radd(n.norm(t.args[0]), n.norm(t.args[1]), -1)
            except (P.Unresolved, P.Blowup, P.Refine, ZeroDivisionError):
                continue
            if x.num:
                eqs.append(x.num)
        if not eqs or len(eqs) > 12:
            return False
        import sympy
        used = set()

        def atoms(p):
            for m in p:
                i = 0
                while m:
                    if m & P.MASK:
                        used.add(i)
                    m >>= P.SH
                    i += 1
        for p in eqs + [d.num]:
            atoms(p)
        rules = []
        dens = {}
        for i in list(used):
            if i in n.rules:
                D = {0: 1}
                for k, (q, e) in n.rules[i][1].items():
                    for _ in range(e):
                        D = P.pmul(D, q)
                    dens[k] = q
                r = P.psub(P.pmul(D, {2 << (P.SH * i): 1}), n.rules[i][0])
                atoms(r)
                rules.append(r)
        if len(used) > 14 or len(d.num) > 4000:
            return False
        # denominators do not vanish: y_k * den_k == 1
        inv = 1 + max(list(used) + [len(n.atom_info)])
        for q in list(dens.values()):
            rules.append(P.psub(P.pmul(q, {1 << (P.SH * inv): 1}), {0: 1}))
            used.add(inv)
            inv += 1
        us = sorted(used)
        pos = {u: k for k, u in enumerate(us)}
        syms = [sympy.Symbol('x%d' % u) for u in us]

        def conv(p):
            dd = {}
            for m, c in p.items():
                e = [0] * len(us)
                i = 0
                while m:
                    if m & P.MASK:
                        e[pos[i]] = m & P.MASK
                    m >>= P.SH
                    i += 1
                c = Fraction(c)
                dd[tuple(e)] = sympy.Rational(c.numerator, c.denominator)
            return sympy.Poly(dd, *syms, domain='QQ')
        import signal

        def h(*a):
            raise TimeoutError()
        old = signal.signal(signal.SIGALRM, h)
        signal.alarm(20)
        try:
            G = sympy.groebner([conv(p) for p in eqs + rules], *syms, order='grevlex', domain='QQ')
            return G.contains(conv(d.num).as_expr())
        except TimeoutError:
            return False
        except Exception:
            return False
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)


class _Eq:
    def __init__(self, o, a, b):
        self.a, self.b, self.tol, self.state_samples = a, b, o.tol, o.state_samples
        self.kind = 'eq'
        self.goal = None
