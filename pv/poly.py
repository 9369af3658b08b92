"""Exact multivariate polynomials over Q and the normaliser of real-mode terms to
rational functions num / prod(den_i^k_i) over named atoms, modulo the defining relations of
square roots (s*s = N/D) and of sine/cosine pairs (sin^2 = 1 - cos^2)."""
import math
from fractions import Fraction
from . import terms as T

SH = 12
MASK = (1 << SH) - 1


class Refine(Exception):
    pass


class Blowup(Exception):
    pass


def fr(x):
    if isinstance(x, Fraction) and x.denominator == 1:
        return x.numerator
    return x


LIMIT = 400000


def padd(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m)
        if v is None:
            r[m] = c
        else:
            v = v + c
            if v:
                r[m] = v
            else:
                del r[m]
    return r


def pneg(a):
    return {m: -c for m, c in a.items()}


def psub(a, b):
    return padd(a, pneg(b))


def pmul(a, b):
    if len(a) > len(b):
        a, b = b, a
    if len(a) * len(b) > 8 * LIMIT:
        raise Blowup()
    r = {}
    get = r.get
    for m, c in a.items():
        for n, d in b.items():
            k = m + n
            r[k] = get(k, 0) + c * d
    r = {m: c for m, c in r.items() if c}
    if len(r) > LIMIT:
        raise Blowup()
    return r


def pscale(a, s):
    s = fr(s)
    return {m: fr(c * s) if isinstance(c * s, Fraction) else c * s for m, c in a.items()} if s else {}


def pconst(c):
    c = fr(c)
    return {0: c} if c else {}


def pkey(a):
    return frozenset(a.items())


def is_const(a):
    return not a or (len(a) == 1 and 0 in a)


def monic(a):
    """(unit, canonical poly)"""
    m = max(a)
    c = a[m]
    if c == 1:
        return 1, a
    inv = Fraction(1) / Fraction(c)
    return c, {k: fr(v * inv) for k, v in a.items()}


class Rat:
    """num / prod(den)   den: dict pkey -> (poly, exponent)"""
    __slots__ = ('num', 'den', '_key')

    def __init__(self, num, den):
        self.num, self.den, self._key = num, den, None

    def key(self):
        if self._key is None:
            self._key = (pkey(self.num), frozenset((k, e) for k, (p, e) in self.den.items()))
        return self._key


class Normaliser:
    def __init__(self, mode, deadline=None):
        self.atoms = {}      # key -> index
        self.atom_info = []  # index -> (kind, ...)
        self.memo = {}
        self.rules = {}      # atom index -> (N poly, D den)  s^2 = N/D
        self.trig = {}       # arg key -> (sin idx, cos idx)
        self.mode = mode
        self.assign = {}     # condition term id -> bool (case split)
        self.need = []       # unresolved conditions
        self.units = {}      # angle monomial -> unit angle
        self.subst = {}      # term id -> replacement constant

    def atom(self, key, info):
        i = self.atoms.get(key)
        if i is None:
            i = len(self.atom_info)
            self.atoms[key] = i
            self.atom_info.append(info)
        return i

    def var(self, i):
        return {1 << (SH * i): 1}

    # ---- reduction by s^2 = N/D
    def reduce(self, p, den):
        for i in sorted(self.rules, reverse=True):
            sh = SH * i
            mx = 0
            for m in p:
                e = (m >> sh) & MASK
                if e > mx:
                    mx = e
            if mx < 2:
                continue
            N, D = self.rules[i]
            kmax = mx // 2
            npow = [{0: 1}]
            for _ in range(kmax):
                npow.append(pmul(npow[-1], N))
            dp = [{0: 1}]
            Dp = {0: 1}
            for (q, e) in D.values():
                for _ in range(e):
                    Dp = pmul(Dp, q)
            for _ in range(kmax):
                dp.append(pmul(dp[-1], Dp))
            groups = {}
            for m, c in p.items():
                e = (m >> sh) & MASK
                base = m - ((e - (e & 1)) << sh)
                groups.setdefault(e // 2, {})
                groups[e // 2][base] = c
            acc = {}
            for k, g in groups.items():
                acc = padd(acc, pmul(pmul(g, npow[k]), dp[kmax - k]))
            p = acc
            if D:
                den = dict(den)
                for key, (q, e) in D.items():
                    oq = den.get(key)
                    den[key] = (q, e * kmax + (oq[1] if oq else 0))
            return self.reduce(p, den)
        return p, den

    def mkrat(self, num, den):
        num, den = self.reduce(num, den)
        if not num:
            return Rat({}, {})
        for key in list(den):
            q, e = den[key]
            if e >= 2 and len(q) == 1:
                m = next(iter(q))
                i = (m.bit_length() - 1) // SH
                if m == 1 << (SH * i) and i in self.rules and self.atom_info[i][0] == 'sqrt':
                    # 1/s^2 = D/N
                    N, D = self.rules[i]
                    den = dict(den)
                    if e & 1:
                        den[key] = (q, 1)
                    else:
                        del den[key]
                    k = e // 2
                    for (dq, de) in D.values():
                        for _ in range(de * k):
                            num = pmul(num, dq)
                    u, inv = self.factors(N)
                    num = pscale(num, Fraction(1) / Fraction(u) ** k)
                    for kk, (dq, de) in inv.items():
                        o = den.get(kk)
                        den[kk] = (dq, de * k + (o[1] if o else 0))
                    return self.mkrat(num, den)
        if den:
            # cancel monomial and exact factors cheaply
            nd = dict(den)
            changed = False
            for key, (q, e) in den.items():
                if len(q) == 1:
                    m = next(iter(q))
                    while nd.get(key) and all(self._divm(n, m) for n in num):
                        num = {n - m: c for n, c in num.items()}
                        qq, ee = nd[key]
                        if ee == 1:
                            del nd[key]
                        else:
                            nd[key] = (qq, ee - 1)
                        changed = True
                else:
                    while nd.get(key):
                        q_ = self.divide(num, q)
                        if q_ is None:
                            break
                        num = q_
                        qq, ee = nd[key]
                        if ee == 1:
                            del nd[key]
                        else:
                            nd[key] = (qq, ee - 1)
                        changed = True
            den = nd
        return Rat(num, den)

    def _divm(self, n, m):
        while m:
            if (n & MASK) < (m & MASK):
                return False
            n >>= SH
            m >>= SH
        return True

    def divide(self, num, q):
        """Exact polynomial division num / q, or None."""
        if len(num) < len(q):
            return None
        if len(num) > 3000 or len(q) > 300:
            return None
        lead = max(q)
        lc = q[lead]
        r = dict(num)
        out = {}
        steps = 0
        while r:
            m = max(r)
            if not self._divm(m, lead):
                return None
            c = r[m]
            k = c / lc if isinstance(c, Fraction) or isinstance(lc, Fraction) else (
                c // lc if c % lc == 0 else Fraction(c, lc))
            t = m - lead
            out[t] = fr(k)
            for mm, cc in q.items():
                x = mm + t
                v = r.get(x, 0) - k * cc
                if v:
                    r[x] = v
                else:
                    r.pop(x, None)
            steps += 1
            if steps > 3000:
                return None
        return out

    # ---- rational operations
    def radd(self, a, b, sgn=1):
        if not a.num:
            return b if sgn == 1 else Rat(pneg(b.num), b.den)
        if not b.num:
            return a
        den = dict(a.den)
        fa = {0: 1}
        fb = {0: 1}
        for key, (q, e) in b.den.items():
            oe = den[key][1] if key in den else 0
            if e > oe:
                den[key] = (q, e)
                for _ in range(e - oe):
                    fa = pmul(fa, q)
        for key, (q, e) in den.items():
            be = b.den[key][1] if key in b.den else 0
            for _ in range(e - be):
                fb = pmul(fb, q)
        n1 = pmul(a.num, fa) if fa != {0: 1} else a.num
        n2 = pmul(b.num, fb) if fb != {0: 1} else b.num
        return self.mkrat(padd(n1, n2 if sgn == 1 else pneg(n2)), den)

    def rmul(self, a, b):
        if not a.num or not b.num:
            return Rat({}, {})
        den = dict(a.den)
        for key, (q, e) in b.den.items():
            o = den.get(key)
            den[key] = (q, e + (o[1] if o else 0))
        return self.mkrat(pmul(a.num, b.num), den)

    def rinv(self, a):
        if not a.num:
            raise ZeroDivisionError()
        num = {0: 1}
        for q, e in a.den.values():
            for _ in range(e):
                num = pmul(num, q)
        if is_const(a.num):
            return self.mkrat(pscale(num, Fraction(1) / Fraction(a.num[0])), {})
        u, den = self.factors(a.num)
        return self.mkrat(pscale(num, Fraction(1) / Fraction(u)), den)

    def factors(self, num):
        if is_const(num):
            return num[0], {}
        # split monomial content
        u, p = monic(num)
        den = {}
        # factor out common monomial
        i = 0
        content = {}
        ms = list(p)
        mm = 0
        sh = 0
        while any(m >> sh for m in ms):
            e = min((m >> sh) & MASK for m in ms)
            if e:
                mm += e << sh
                k = {1 << sh: 1}
                den[pkey(k)] = (k, e)
            sh += SH
        if mm:
            p = {m - mm: c for m, c in p.items()}
        if not is_const(p):
            den[pkey(p)] = (p, 1)
        return u, den

    def const(self, c):
        return Rat(pconst(c), {})

    def cond(self, c):
        """Boolean condition under the current case split; None if unresolved."""
        if not T.is_t(c):
            return c
        if c.op == 'not':
            v = self.cond(c.args[0])
            return None if v is None else not v
        v = self.assign.get(c.id)
        if v is not None:
            return v
        if c.op == 'and':
            a = self.cond(c.args[0])
            b = self.cond(c.args[1])
            if a is False or b is False:
                return False
            if a is True and b is True:
                return True
            return None
        if c.op == 'or':
            a = self.cond(c.args[0])
            b = self.cond(c.args[1])
            if a is True or b is True:
                return True
            if a is False and b is False:
                return False
            return None
        if c.op == 'ite':
            a = self.cond(c.args[0])
            if a is not None:
                return self.cond(c.args[1] if a else c.args[2])
            return None
        if c.op == 'feq':
            try:
                d = self.radd(self.norm(c.args[0]), self.norm(c.args[1]), -1)
                if not d.num:
                    return True
                if is_const(d.num):
                    return False
            except (Unresolved, Blowup, Refine):
                pass
        if c.op == 'flt':
            try:
                d = self.radd(self.norm(c.args[0]), self.norm(c.args[1]), -1)
                if not d.num:
                    return False
                if is_const(d.num) and not d.den:
                    return d.num[0] < 0
            except (Unresolved, Blowup, Refine):
                pass
        return None

    def norm(self, t):
        if not T.is_t(t):
            if isinstance(t, float):
                return Rat(self.var(self.atom(('special', repr(t)), ('special', t))), {})
            return self.const(t)
        r = self.memo.get(t.id)
        if r is not None:
            return r
        # iterative for depth
        stack = [t]
        while stack:
            x = stack[-1]
            if x.id in self.memo:
                stack.pop()
                continue
            pend = []
            args = x.args
            if x.id in self.subst:
                self.memo[x.id] = self.norm(self.subst[x.id])
                stack.pop()
                continue
            if x.op == 'ite':
                v = self.cond(x.args[0])
                if v is None:
                    raise Unresolved(x.args[0])
                args = (x.args[1] if v else x.args[2],)
            for a in args:
                if T.is_t(a) and a.sort == 'F' and a.id not in self.memo:
                    pend.append(a)
            if pend:
                stack.extend(pend)
                continue
            self.memo[x.id] = self._norm(x, args)
            stack.pop()
        return self.memo[t.id]

    def _norm(self, t, args):
        op = t.op
        if op == 'fconst':
            return self.const(t.pay)
        if op in ('var',):
            return Rat(self.var(self.atom(('var', t.pay), ('var', t))), {})
        if op == 'ite':
            return self.norm(args[0])
        if op == 'fadd':
            return self.radd(self.norm(args[0]), self.norm(args[1]))
        if op == 'fsub':
            return self.radd(self.norm(args[0]), self.norm(args[1]), -1)
        if op == 'fneg':
            a = self.norm(args[0])
            return Rat(pneg(a.num), a.den)
        if op == 'fmul':
            return self.rmul(self.norm(args[0]), self.norm(args[1]))
        if op == 'fma':
            return self.radd(self.rmul(self.norm(args[0]), self.norm(args[1])), self.norm(args[2]))
        if op == 'fdiv':
            return self.rmul(self.norm(args[0]), self.rinv(self.norm(args[1])))
        if op == 'sqrt':
            a = self.norm(args[0])
            if not a.num:
                return a
            if is_const(a.num) and not a.den:
                v = Fraction(a.num[0])
                s = self.mode.sqrt(v) if v >= 0 else None
                if s is not None and not T.is_t(s):
                    return self.const(s)
            key = ('sqrt', a.key())
            new = key not in self.atoms
            i = self.atom(key, ('sqrt', t))
            if new:
                self.rules[i] = (a.num, a.den)
            return Rat(self.var(i), {})
        if op == 'uf':
            ks = tuple(self.norm(a).key() for a in args)
            if t.pay in ('sin', 'cos') and len(args) == 1:
                r = self.sincos(self.norm(args[0]), t)
                return r[0 if t.pay == 'sin' else 1]
            if t.pay == 'tan' and len(args) == 1:
                r = self.sincos(self.norm(args[0]), t)
                return self.rmul(r[0], self.rinv(r[1]))
            if t.pay == 'cbrt':
                pass
            return Rat(self.var(self.atom(('uf', t.pay, ks), ('uf', t))), {})
        if op == 'fabs':
            c = self.mode.cmp('olt', args[0], Fraction(0))
            v = self.cond(c)
            if v is None:
                raise Unresolved(c)
            a = self.norm(args[0])
            return Rat(pneg(a.num), a.den) if v else a
        # opaque atom
        return Rat(self.var(self.atom(('op', t.id), ('op', t))), {})

    # sine and cosine of a sum of (rational multiple) * (monomial): addition formulas
    def sincos(self, a, t):
        if not a.num:
            return self.const(0), self.const(1)
        dk = frozenset((k, e) for k, (p, e) in a.den.items())
        if len(a.num) > 8:
            u, m = monic(a.num)
            sgn = -1 if u < 0 else 1
            key = (pkey(m), dk)
            s, c = self.sc_power(key, Rat(m, a.den), Fraction(u) if isinstance(u, (int, Fraction)) else u, t)
            return s, c
        S, Cc = self.const(0), self.const(1)
        for m in sorted(a.num):
            c = a.num[m]
            if m == 0 and not dk:
                f = float(c)
                sv, cv = math.sin(f), math.cos(f)
                sv = 0 if abs(sv) < 4e-15 else (1 if sv > 1 - 1e-15 else -1 if sv < -1 + 1e-15 else Fraction(sv))
                cv = 0 if abs(cv) < 4e-15 else (1 if cv > 1 - 1e-15 else -1 if cv < -1 + 1e-15 else Fraction(cv))
                s1, c1 = self.const(sv), self.const(cv)
            else:
                s1, c1 = self.sc_power((m, dk), Rat({m: 1}, a.den), Fraction(c), t)
            S, Cc = (self.radd(self.rmul(S, c1), self.rmul(Cc, s1)), self.radd(self.rmul(Cc, c1), self.rmul(S, s1), -1))
        return S, Cc

    def sc_power(self, key, base, c, t):
        """(sin, cos) of c * base."""
        u = self.units.get(key)
        if u is None:
            u = self.units[key] = abs(c)
        n = c / u
        if n.denominator != 1:
            g = Fraction(math.gcd(c.numerator * u.denominator, u.numerator * c.denominator), c.denominator * u.denominator)
            self.units[key] = g
            if abs(c) / g <= 16 and u / g <= 16:
                raise Refine()
            self.units[key] = u
            key = (key, abs(c))
            n = Fraction(1 if c > 0 else -1)
            u = abs(c)
        n = int(n)
        if abs(n) > 16:
            key = (key, abs(c))
            n = 1 if n > 0 else -1
            u = abs(c)
        k = (key, u)
        if k not in self.trig:
            inv = None
            if u == 1 and isinstance(key, tuple) and not key[1] and isinstance(key[0], int):
                inv = self.inverse_atom(key[0])
            if inv is not None:
                self.trig[k] = inv
            else:
                ci = self.atom(('cos', k), ('uf', t))
                si = self.atom(('sin', k), ('uf', t))
                self.rules[si] = (psub({0: 1}, {2 << (SH * ci): 1}), {})
                self.trig[k] = (Rat(self.var(si), {}), Rat(self.var(ci), {}))
        s1, c1 = self.trig[k]
        S, Cc = self.const(0), self.const(1)
        for _ in range(abs(n)):
            S, Cc = (self.radd(self.rmul(S, c1), self.rmul(Cc, s1)), self.radd(self.rmul(Cc, c1), self.rmul(S, s1), -1))
        if n < 0:
            S = Rat(pneg(S.num), S.den)
        return S, Cc

    def inverse_atom(self, m):
        i = 0
        x = m
        while x and not x & MASK:
            x >>= SH
            i += 1
        if x != 1:
            return None
        info = self.atom_info[i]
        if info[0] != 'uf' or not T.is_t(info[1]) or info[1].pay not in ('asin', 'acos', 'atan', 'atan2'):
            return None
        g = info[1]
        s, c = self.mode.uf('sin', (g,)), self.mode.uf('cos', (g,))
        if any(T.is_t(y) and y.op == 'uf' and y.pay in ('sin', 'cos') and y.args[0] is g for y in (s, c)):
            return None
        return self.norm(s), self.norm(c)

    def show(self, p, n=8):
        out = []
        for m, c in sorted(p.items(), reverse=True)[:n]:
            s = []
            i = 0
            while m:
                e = m & MASK
                if e:
                    info = self.atom_info[i]
                    nm = T.show(info[1], 2) if T.is_t(info[1]) else str(info[1])
                    s.append(nm + ('^%d' % e if e > 1 else ''))
                m >>= SH
                i += 1
            out.append('%s*%s' % (c, '*'.join(s) or '1'))
        return ' + '.join(out) + (' + ...(%d terms)' % len(p) if len(p) > n else '')


class Unresolved(Exception):
    def __init__(self, c):
        self.c = c
