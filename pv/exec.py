"""Symbolic executor for LLVM IR: generates verification conditions for every path of a
specification function over symbolic inputs.

Memory is a set of objects at concrete base addresses 2^32 apart; pointers are 64-bit values.
"""
import re
import struct
import time
import sys
from fractions import Fraction
from . import terms as T
from .terms import is_t, mk
from .ir import Const

sys.setrecursionlimit(100000)


class Undef:
    __slots__ = ()

    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class Unsupported(Exception):
    pass


class Fork(Exception):
    """Raised inside an instruction: fork the state on cond, then retry the instruction."""

    def __init__(self, cond):
        self.cond = cond


class PathEnd(Exception):
    def __init__(self, why):
        self.why = why


FNBASE = 0x7000000000000000
SH = 32


class Obj:
    __slots__ = ('size', 'cells', 'bg', 'owner', 'name', 'const', 'freed', 'arr')

    def __init__(self, size, owner, name, bg=None):
        self.size, self.owner, self.name, self.bg = size, owner, name, bg
        self.cells = {}
        self.const = False
        self.freed = False
        self.arr = None   # symbolic byte array ('A' term)

    def clone(self, owner):
        o = Obj(self.size, owner, self.name, self.bg)
        o.cells = dict(self.cells)
        o.const, o.freed, o.arr = self.const, self.freed, self.arr
        return o


class Frame:
    __slots__ = ('fn', 'regs', 'bb', 'prev', 'pc', 'allocas', 'dst', 'nxt', 'visits')

    def __init__(self, fn):
        self.fn = fn
        self.regs = [None] * fn.nregs
        self.bb = 0
        self.prev = None
        self.pc = 0
        self.allocas = []
        self.dst = None
        self.nxt = None
        self.visits = None

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.regs, f.bb, f.prev, f.pc = self.fn, list(self.regs), self.bb, self.prev, self.pc
        f.allocas, f.dst, f.nxt = list(self.allocas), self.dst, self.nxt
        f.visits = dict(self.visits) if self.visits is not None else None
        return f


class Token:
    pass


class State:
    __slots__ = ('frames', 'mem', 'next', 'path', 'token', 'samples', 'gaddr', 'may_abort', 'flags', 'nsteps',
                 'known', 'trace', 'inputs')

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.next = self.next
        s.path = self.path
        # both states lose ownership of the objects
        s.token = Token()
        self.token = Token()
        s.samples = self.samples
        s.gaddr = dict(self.gaddr)
        s.may_abort = self.may_abort
        s.flags = dict(self.flags)
        s.nsteps = self.nsteps
        s.known = dict(self.known)
        s.trace = self.trace
        s.inputs = dict(self.inputs)
        return s


class Obligation:
    __slots__ = ('kind', 'label', 'path', 'goal', 'a', 'b', 'tol', 'fn', 'state_samples', 'inputs')

    def __init__(self, kind, label, path, goal, fn, samples, inputs, a=None, b=None, tol=0):
        self.kind, self.label, self.path, self.goal, self.fn = kind, label, path, goal, fn
        self.state_samples, self.inputs = samples, inputs
        self.a, self.b, self.tol = a, b, tol


def pathlist(p):
    out = []
    while p is not None:
        out.append(p[0])
        p = p[1]
    out.reverse()
    return out


class Executor:
    def __init__(self, module, real, solver, opts=None):
        self.m = module
        self.real = real
        self.mode = T.Mode(real)
        self.solver = solver         # object with feasible(path, cond, samples) -> (bool, samples)
        self.obls = []
        self.opts = opts or {}
        self.executed = set()
        self.assumed = set()
        self.fnaddr = {}
        self.addrfn = {}
        self.blocks_executed = 0
        self.paths = 0
        self.max_steps = self.opts.get('max_steps', 6000000)
        self.deadline = self.opts.get('deadline')
        self.max_paths = self.opts.get('max_paths', 20000)
        self.covers = {}
        self.tabs = {}
        self.contracts = self.opts.get('contracts', {})
        self.check_overflow = False
        self.cur = None
        self.loop_specs = {}
        self.bounded = []
        self.disp = {n[2:]: getattr(self, n) for n in dir(self) if n.startswith('i_')}
        self.ctor_failures = []
        self.returned = []

    # ------------------------------------------------------------ states
    def new_state(self):
        s = State()
        s.frames = []
        s.mem = {}
        s.next = 1
        s.path = None
        s.token = Token()
        s.samples = None
        s.gaddr = {}
        s.may_abort = 0
        s.flags = {}
        s.nsteps = 0
        s.known = {}
        s.trace = None
        s.inputs = {}
        return s

    def alloc(self, s, size, name, bg=None):
        i = s.next
        s.next += 1
        s.mem[i] = Obj(size, s.token, name, bg)
        return i << SH

    def fn_addr(self, f):
        a = self.fnaddr.get(f.name)
        if a is None:
            a = FNBASE + 16 * len(self.fnaddr)
            self.fnaddr[f.name] = a
            self.addrfn[a] = f
        return a

    def global_addr(self, s, name):
        a = s.gaddr.get(name)
        if a is not None:
            return a
        g = self.m.globals[name]
        from .ir import lib
        ty = self.m.type(lib().LLVMGlobalGetValueType(g))
        a = self.alloc(s, max(ty.size, 1), '@' + name)
        s.gaddr[name] = a
        o = s.mem[a >> SH]
        init = self.m.initializer(g)
        if init is not None:
            self.write_const(s, o, 0, init)
            if lib().LLVMIsGlobalConstant(g):
                o.const = True
        elif name == '__libc_single_threaded':
            o.cells[0] = (1, 1)
        elif name == '__dso_handle':
            pass
        else:
            # external data: unknown
            if name.startswith('_ZTV') or name.startswith('_ZTI'):
                o.size = 4096
        return a

    def write_const(self, s, o, off, c):
        ty = c.ty
        k = c.k
        if k == 'undef':
            return
        if k == 'zero' or (k == 'null' and ty.kind != 'p'):
            if off == 0 and ty.size >= o.size:
                o.bg = bytes(o.size)
                return
            if ty.size <= 8 and ty.kind not in ('struct', 'array', 'vec'):
                o.cells[off] = (0 if ty.kind != 'f' else self.mode.const(0.0), ty.store)
                return
            if ty.size > 96:
                if o.bg is None:
                    o.bg = bytearray(o.size)
                return
            i = 0
            while i < ty.size:
                n = 8 if ty.size - i >= 8 else 1
                o.cells[off + i] = (0, n)
                i += n
            return
        if k == 'str':
            if off == 0 and ty.size >= o.size:
                o.bg = c.v
                return
            v = c.v[:ty.n * ty.elem.size] if ty.elem else c.v
            if len(v) > 96:
                if o.bg is None:
                    o.bg = bytearray(o.size)
                o.bg[off:off + len(v)] = v
                return
            for i, b in enumerate(v):
                o.cells[off + i] = (b, 1)
            return
        if k == 'agg':
            if ty.kind == 'struct':
                for i, e in enumerate(c.ops):
                    self.write_const(s, o, off + ty.offs[i], e)
            else:
                es = ty.elem.size
                if ty.kind == 'array' and ty.n > 16 and ty.elem.kind == 'i' and es <= 8:
                    # big integer table
                    if o.bg is None:
                        o.bg = bytearray(o.size)
                    o.bg[off:off + es * ty.n] = b''.join((e.v if e.k == 'i' else 0).to_bytes(es, 'little') for e in c.ops)
                    return
                for i, e in enumerate(c.ops):
                    self.write_const(s, o, off + i * es, e)
            return
        v = self.cval(s, c)
        if v is UNDEF:
            return
        if ty.kind == 'i' and ty.width == 1:
            v = T.zext(v, 0, 8)
        if ty.kind == 'i' and ty.store > 8:
            o.cells[off] = (v & T.mask(64), 8)
            o.cells[off + 8] = (v >> 64, ty.store - 8)
            return
        o.cells[off] = (v, ty.store)

    # ------------------------------------------------------------ constants
    def cval(self, s, c):
        k = c.k
        ty = c.ty
        if k == 'i':
            if ty.width == 1:
                return bool(c.v)
            return c.v
        if k == 'f':
            return self.mode.const(c.v)
        if k == 'null':
            return 0
        if k == 'undef':
            if ty is not None and ty.kind in ('struct', 'array', 'vec'):
                return self.undef_of(ty)
            return UNDEF
        if k == 'zero':
            return self.zero_of(ty)
        if k == 'fn':
            return self.fn_addr(c.v)
        if k == 'gv':
            return self.global_addr(s, c.v)
        if k == 'agg':
            return [self.cval(s, e) for e in c.ops]
        if k == 'str':
            n = ty.elem.size
            return [int.from_bytes(c.v[i * n:i * n + n], 'little') for i in range(ty.n)]
        if k == 'expr':
            op = c.v
            if op == 'gep':
                return self.gep(s, c.extra, [self.cval(s, o) for o in c.ops], [o.ty for o in c.ops], c.ops)
            if op in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
                v = self.cval(s, c.ops[0])
                if op == 'ptrtoint' and ty.width < 64:
                    return v & T.mask(ty.width)
                return v
            a = [self.cval(s, o) for o in c.ops]
            w = ty.width
            if op == 'add':
                return T.add(a[0], a[1], w)
            if op == 'sub':
                return T.sub(a[0], a[1], w)
            if op == 'xor':
                return T.xor(a[0], a[1], w)
            if op == 'trunc':
                return a[0] & T.mask(w)
            raise Unsupported('constant expression ' + op)
        raise Unsupported('constant ' + k)

    def undef_of(self, ty):
        if ty.kind == 'struct':
            return [self.undef_of(f) for f in ty.fields]
        if ty.kind in ('array', 'vec'):
            return [self.undef_of(ty.elem)] * ty.n
        return UNDEF

    def zero_of(self, ty):
        if ty.kind == 'struct':
            return [self.zero_of(f) for f in ty.fields]
        if ty.kind in ('array', 'vec'):
            return [self.zero_of(ty.elem)] * ty.n
        if ty.kind == 'f':
            return self.mode.const(0.0)
        if ty.kind == 'i' and ty.width == 1:
            return False
        return 0

    def val(self, s, f, o):
        if type(o) is int:
            v = f.regs[o]
            return v
        return self.cval(s, o)

    # ------------------------------------------------------------ memory
    def wobj(self, s, i):
        o = s.mem[i]
        if o.owner is not s.token:
            o = o.clone(s.token)
            s.mem[i] = o
        return o

    def resolve(self, s, p):
        """(object id, offset)   offset may be a Term"""
        if p is UNDEF:
            raise PathEnd('undef-pointer')
        if is_t(p):
            p = self.resolve_ite(s, p)
        if not is_t(p):
            i = (p + (1 << 31)) >> SH
            off = p - (i << SH)
            return i, off
        if p.op == 'ite':
            raise Fork(p.args[0])
        c, r = T.linear(p)
        i = (c + (1 << 31)) >> SH
        if i == 0 or i >= (1 << 31):
            # maybe base hidden in an ite below
            for t in T.subterms([p]):
                if t.op == 'ite' and t.sort == 64:
                    raise Fork(t.args[0])
            raise Unsupported('symbolic pointer ' + T.show(p))
        off = T.add(r, (c - (i << SH)) & T.mask(64), 64)
        if not is_t(off):
            off = T.signed(off, 64)
        return i, off

    def bad(self, s, what):
        self.oblige(s, 'safety', what, False)
        raise PathEnd(what)

    def getobj(self, s, p, n, what):
        i, off = self.resolve(s, p)
        o = s.mem.get(i)
        if o is None:
            self.bad(s, 'memory: %s through invalid pointer' % what)
        if o.freed:
            self.bad(s, 'memory: %s after free' % what)
        if not is_t(off):
            if not is_t(o.size):
                if off < 0 or off + n > o.size:
                    self.bad(s, 'memory: %s out of bounds of %s' % (what, self.objname(o)))
            else:
                if off < 0:
                    self.bad(s, 'memory: %s out of bounds of %s' % (what, self.objname(o)))
                c = T.bnot(T.ult(o.size, off + n, 64))
                self.require(s, c, 'memory: %s in bounds of %s' % (what, self.objname(o)))
        else:
            if not is_t(o.size):
                if o.size < n:
                    self.bad(s, 'memory: %s out of bounds of %s' % (what, self.objname(o)))
                c = T.bnot(T.ult(o.size - n, off, 64))
            else:
                c = T.band(T.bnot(T.ult(o.size, n, 64)),
                           T.bnot(T.ult(T.sub(o.size, n, 64), off, 64)))
            self.require(s, c, 'memory: %s in bounds of %s' % (what, self.objname(o)))
        return i, o, off

    def objname(self, o):
        return o.name

    def require(self, s, c, label):
        """Emit a safety obligation and then assume it."""
        if not is_t(c):
            if not c:
                self.bad(s, label)
            return
        v = s.known.get(c.id)
        if v is True:
            return
        self.oblige(s, 'safety', label, c)
        self.assume(s, c)

    def oblige(self, s, kind, label, goal, a=None, b=None, tol=0):
        self.obls.append(Obligation(kind, label, s.path, goal, self.entry, s.samples, s.inputs, a, b, tol))

    def assume(self, s, c):
        if not is_t(c):
            if not c:
                raise PathEnd('assume-false')
            return
        if s.known.get(c.id) is True:
            return
        s.path = (c, s.path)
        self.learn(s, c, True)

    def learn(self, s, c, v):
        if not is_t(c):
            return
        if c.op == 'not':
            self.learn(s, c.args[0], not v)
            return
        s.known[c.id] = v
        n = T.bnot(c)
        s.known[n.id] = not v
        if c.op == 'and' and v:
            for a in c.args:
                self.learn(s, a, True)
        if c.op == 'or' and not v:
            for a in c.args:
                self.learn(s, a, False)

    def decide(self, s, c):
        """Concrete truth value of c on this path or None."""
        if not is_t(c):
            return c
        v = s.known.get(c.id)
        if v is not None:
            return v
        if c.op == 'not':
            v = self.decide(s, c.args[0])
            return None if v is None else not v
        if c.op == 'and':
            a, b = self.decide(s, c.args[0]), self.decide(s, c.args[1])
            if a is False or b is False:
                return False
            return True if a and b else None
        if c.op == 'or':
            a, b = self.decide(s, c.args[0]), self.decide(s, c.args[1])
            if a or b:
                return True
            return False if a is False and b is False else None
        return None

    # byte-level reading of a cell value
    def cell_bits(self, v, n):
        if isinstance(v, (Fraction, float)) or (is_t(v) and v.sort == 'F'):
            return T.fbits(v) if n == 8 else self.f32bits(v)
        if isinstance(v, bool):
            return int(v)
        return v

    def f32bits(self, v):
        if not is_t(v):
            return struct.unpack('<I', struct.pack('<f', float(v)))[0]
        return mk('bits32', 32, (v,))

    def read_int(self, s, o, off, n):
        """n-byte little-endian integer at concrete offset off."""
        c = o.cells.get(off)
        if c is not None and c[1] == n:
            v = c[0]
            if v is UNDEF:
                return UNDEF
            return self.cell_bits(v, n)
        if c is None and o.bg is not None and not self.overlaps(o, off, n):
            return int.from_bytes(o.bg[off:off + n], 'little')
        if c is None and o.arr is not None and not self.overlaps(o, off, n):
            return self.arr_read(o.arr, off, n)
        res = None
        w = 0
        i = 0
        while i < n:
            b, k = self.read_piece(s, o, off + i, n - i)
            if b is UNDEF:
                return UNDEF
            if res is None:
                res, w = b, 8 * k
            else:
                res = T.concat(b, res, 8 * k, w)
                w += 8 * k
            i += k
        return res

    def arr_read(self, arr, off, n):
        res = None
        for i in range(n):
            a = T.add(off, i, 64) if is_t(off) else off + i
            b = self.select(arr, a)
            res = b if res is None else T.concat(b, res, 8, 8 * i)
        return res

    def select(self, arr, idx):
        while is_t(arr) and arr.op == 'store':
            e = T.eq(arr.args[1], idx, 64)
            if e is True:
                return arr.args[2]
            if e is False:
                arr = arr.args[0]
                continue
            break
        if arr.op == 'constarr':
            return arr.args[0]
        return mk('select', 8, (arr, idx))

    def overlaps(self, o, off, n):
        cells = o.cells
        if len(cells) < n + 8:
            for k, (v, m) in cells.items():
                if k < off + n and off < k + m:
                    return True
            return False
        for k in range(off - 7, off + n):
            c = cells.get(k)
            if c is not None and k + c[1] > off:
                return True
        return False

    def read_piece(self, s, o, off, n):
        """(value, nbytes) of the largest piece starting at off of at most n bytes."""
        for k in range(off, off - 8, -1):
            c = o.cells.get(k)
            if c is not None:
                if k + c[1] <= off:
                    continue
                v, m = c
                if v is UNDEF:
                    return UNDEF, 1
                b = self.cell_bits(v, m)
                lo = off - k
                take = min(n, m - lo)
                if lo == 0 and take == m:
                    return b, m
                return T.extract(b, 8 * (lo + take) - 1, 8 * lo, 8 * m), take
        if o.bg is not None:
            return o.bg[off], 1
        if o.arr is not None:
            return self.select(o.arr, off), 1
        return UNDEF, 1

    def load_at(self, s, o, off, ty):
        k = ty.kind
        if k == 'i':
            n = ty.store
            if n > 8:
                lo = self.read_int(s, o, off, 8)
                hi = self.read_int(s, o, off + 8, n - 8)
                if lo is UNDEF or hi is UNDEF:
                    return UNDEF
                v = T.concat(hi, lo, 8 * (n - 8), 64)
                return T.extract(v, ty.width - 1, 0, 8 * n) if ty.width != 8 * n else v
            c = o.cells.get(off)
            if c is not None and c[1] == n and type(c[0]) is int:
                v = c[0]
            else:
                v = self.read_int(s, o, off, n)
            if v is UNDEF:
                return v
            w = ty.width
            if w == 1:
                if not is_t(v):
                    return bool(v & 1)
                return T.bnot(T.eq(v, 0, 8))
            if w != 8 * n:
                return T.extract(v, w - 1, 0, 8 * n)
            return v
        if k == 'p':
            v = self.read_int(s, o, off, 8)
            return v
        if k == 'f':
            n = ty.store
            c = o.cells.get(off)
            if c is not None and c[1] == n:
                v = c[0]
                if isinstance(v, (Fraction, float)) or (is_t(v) and v.sort == 'F'):
                    return v
            v = self.read_int(s, o, off, n)
            if v is UNDEF:
                return v
            if n == 8:
                return self.mode.frombits(v)
            if not is_t(v):
                return self.mode.const(struct.unpack('<f', struct.pack('<I', v))[0])
            if v.op == 'bits32':
                return v.args[0]
            return mk('frombits32', 'F', (v,))
        if k in ('array', 'vec'):
            es = ty.elem.size
            return [self.load_at(s, o, off + i * es, ty.elem) for i in range(ty.n)]
        if k == 'struct':
            return [self.load_at(s, o, off + ty.offs[i], ty.fields[i]) for i in range(ty.n)]
        raise Unsupported('load of ' + k)

    def stride(self, off):
        """gcd of multipliers, so that off = const mod gcd."""
        from math import gcd
        g = 0
        base = 0
        stack = [off]
        while stack:
            t = stack.pop()
            if not is_t(t):
                base += t
                continue
            if t.op == 'add':
                stack += t.args
            elif t.op == 'mul' and not is_t(t.args[1]):
                m = t.args[1]
                if m >> 63:
                    m = (1 << 64) - m
                g = gcd(g, m)
            elif t.op == 'shl' and not is_t(t.args[1]):
                g = gcd(g, 1 << t.args[1])
            elif t.op == 'ite' and not is_t(t.args[1]) and not is_t(t.args[2]):
                g = gcd(g, t.args[1])
                g = gcd(g, t.args[2])
            elif t.op == 'ite':
                g1, b1 = self.stride(t.args[1])
                g2, b2 = self.stride(t.args[2])
                g = gcd(g, gcd(gcd(g1, g2), gcd(b1, b2)))
            elif t.op in ('zext', 'sext') and t.args[0].op == 'mul' and not is_t(t.args[0].args[1]):
                g = gcd(g, t.args[0].args[1])
            elif t.op == 'and_' and not is_t(t.args[1]):
                m = t.args[1]
                g = gcd(g, m & -m if m else 0)
            elif t.op in ('zext', 'sext'):
                g1, b1 = self.stride(t.args[0])
                g = gcd(g, gcd(g1, b1))
            else:
                g = gcd(g, 1)
        # gcd must be a power of two to survive wrap-around
        if g:
            g = g if g & (g - 1) == 0 else g
        return (g or 1 << 31), base

    def offrange(self, t, w=64):
        """cheap upper bound (unsigned) of a bv term"""
        if not is_t(t):
            return t
        if t.op == 'zext':
            return self.offrange(t.args[0], t.args[0].sort)
        if t.op == 'and_' and not is_t(t.args[1]):
            return t.args[1]
        if t.op == 'ite':
            return max(self.offrange(t.args[1], w), self.offrange(t.args[2], w))
        if t.op == 'mul' and not is_t(t.args[1]):
            a = self.offrange(t.args[0], w)
            return min(a * t.args[1], T.mask(w))
        if t.op == 'add':
            return min(self.offrange(t.args[0], w) + self.offrange(t.args[1], w), T.mask(w))
        if t.op == 'lshr' and not is_t(t.args[1]):
            return self.offrange(t.args[0], w) >> t.args[1]
        if t.op == 'urem' and not is_t(t.args[1]) and t.args[1]:
            return t.args[1] - 1
        if t.op == 'concat':
            wl = t.pay
            return (self.offrange(t.args[0], w - wl) << wl) | T.mask(wl)
        return T.mask(w if isinstance(w, int) and w else 64)

    def candidates(self, s, o, off, n):
        g, b = self.stride(off)
        if is_t(o.size):
            raise Unsupported('symbolic offset in symbolic-size object')
        lo = b % g if g else b
        hi = min(o.size - n, self.offrange(off))
        return [k for k in range(lo, hi + 1, g)], g

    def load(self, s, p, ty):
        i, o, off = self.getobj(s, p, ty.store, 'read')
        if not is_t(off):
            return self.load_at(s, o, off, ty)
        if o.arr is not None:
            return self.load_arr(s, o, off, ty)
        if ty.kind in ('vec', 'array', 'struct'):
            out = []
            for j in range(ty.n):
                e = ty.fields[j] if ty.kind == 'struct' else ty.elem
                eo = ty.offs[j] if ty.kind == 'struct' else j * ty.elem.size
                out.append(self.load(s, T.add(p, eo, 64), e))
            return out
        if ty.kind == 'i' and o.bg is not None and not is_t(o.size) and o.size > 96 and ty.width == 8 * ty.store and \
                len(o.cells) < 64 and o.const:
            n = ty.store

            def at(k):
                if k + n > o.size:
                    return 0
                v = self.read_int(s, o, k, n)
                return v if isinstance(v, int) else None
            r = T.tab(off, 64, at, ty.width, self.tabs.setdefault((i, n), {}))
            if r is not None:
                return r
        cands, g = self.candidates(s, o, off, ty.store)
        if not cands:
            raise PathEnd('no candidate')
        if len(cands) > 70000:
            raise Unsupported('symbolic load from large object %s' % o.name)
        vals = [self.load_at(s, o, k, ty) for k in cands]
        sort = 'F' if ty.kind == 'f' else (0 if ty.kind == 'i' and ty.width == 1 else ty.width)
        sel = [(k, v) for k, v in zip(cands, vals) if v is not UNDEF]
        if not sel:
            return UNDEF
        # feasible candidates only, when the address is an explicit case analysis
        return self.tree(off, sel, sort)

    def tree(self, off, sel, sort):
        # merge runs of equal values
        runs = []
        for k, v in sel:
            if runs and T.same(runs[-1][1], v):
                continue
            runs.append((k, v))

        def build(lo, hi):
            if hi - lo == 1:
                return runs[lo][1]
            mid = (lo + hi) // 2
            return T.ite(T.ult(off, runs[mid][0], 64), build(lo, mid), build(mid, hi), sort)
        return build(0, len(runs))

    def load_arr(self, s, o, off, ty):
        if o.cells:
            self.flush(s, o)
        if ty.kind in ('i', 'p'):
            v = self.arr_read(o.arr, off, ty.store)
            if ty.kind == 'i' and ty.width == 1:
                return T.bnot(T.eq(v, 0, 8))
            return v if ty.width == 8 * ty.store else T.extract(v, ty.width - 1, 0, 8 * ty.store)
        if ty.kind == 'f' and ty.store == 8:
            return self.mode.frombits(self.arr_read(o.arr, off, 8))
        raise Unsupported('load of %s from a symbolic array' % ty)

    def flush(self, s, o):
        if o.owner is not s.token:
            # in-place on a shared object would be wrong only if contents changed meaning; it does not
            pass
        arr = o.arr
        for k in sorted(o.cells):
            v, n = o.cells[k]
            if v is UNDEF:
                continue
            b = self.cell_bits(v, n)
            for j in range(n):
                arr = mk('store', 'A', (arr, k + j, T.extract(b, 8 * j + 7, 8 * j, 8 * n)))
        o.arr = arr
        o.cells = {}

    def store_at(self, s, o, off, v, ty):
        k = ty.kind
        if k == 'i':
            n = ty.store
            w = ty.width
            if v is UNDEF:
                pass
            elif w == 1:
                v = T.zext(v, 0, 8)
            elif w != 8 * n:
                v = T.zext(v, w, 8 * n)
            if n > 8:
                if v is UNDEF:
                    self.put(o, off, v, 8)
                    self.put(o, off + 8, v, n - 8)
                else:
                    self.put(o, off, T.extract(v, 63, 0, 8 * n), 8)
                    self.put(o, off + 8, T.extract(v, 8 * n - 1, 64, 8 * n), n - 8)
                return
            self.put(o, off, v, n)
            return
        if k == 'p' or k == 'f':
            self.put(o, off, v, ty.store)
            return
        if k in ('array', 'vec'):
            es = ty.elem.size
            for i in range(ty.n):
                self.store_at(s, o, off + i * es, v[i] if v is not UNDEF else UNDEF, ty.elem)
            return
        if k == 'struct':
            for i in range(ty.n):
                self.store_at(s, o, off + ty.offs[i], v[i] if v is not UNDEF else UNDEF, ty.fields[i])
            return
        raise Unsupported('store of ' + k)

    def put(self, o, off, v, n):
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[1] == n:
            cells[off] = (v, n)
            return
        self.clear(o, off, n)
        cells[off] = (v, n)

    def clear(self, o, off, n):
        """Remove cells overlapping [off, off+n), splitting partial overlaps."""
        cells = o.cells
        if not cells:
            return
        if n > 4 * len(cells) + 8:
            ks = [k for k in cells if k < off + n and k + cells[k][1] > off]
        else:
            ks = [k for k in range(off - 7, off + n) if k in cells and k + cells[k][1] > off]
        for k in ks:
            v, m = cells.pop(k)
            if k < off:
                self.split(cells, k, v, m, 0, off - k)
            if k + m > off + n:
                self.split(cells, k, v, m, off + n - k, m)

    def split(self, cells, k, v, m, a, b):
        if v is UNDEF:
            for j in range(a, b):
                cells[k + j] = (UNDEF, 1)
            return
        bits = self.cell_bits(v, m)
        for j in range(a, b):
            cells[k + j] = (T.extract(bits, 8 * j + 7, 8 * j, 8 * m), 1)

    def store(self, s, p, v, ty):
        i, o, off = self.getobj(s, p, ty.store, 'write')
        if o.const:
            self.bad(s, 'memory: write to constant %s' % o.name)
        o = self.wobj(s, i)
        if not is_t(off):
            self.store_at(s, o, off, v, ty)
            return
        if o.arr is not None:
            if o.cells:
                self.flush(s, o)
            if ty.kind == 'vec' or ty.kind == 'struct' or ty.kind == 'array':
                raise Unsupported('aggregate store at symbolic offset')
            n = ty.store
            b = self.cell_bits(v, n)
            if ty.kind == 'i' and ty.width == 1:
                b = T.zext(v, 0, 8)
            arr = o.arr
            for j in range(n):
                arr = mk('store', 'A', (arr, T.add(off, j, 64), T.extract(b, 8 * j + 7, 8 * j, 8 * n)))
            o.arr = arr
            return
        if ty.kind in ('vec', 'array', 'struct'):
            for j in range(ty.n):
                e = ty.fields[j] if ty.kind == 'struct' else ty.elem
                eo = ty.offs[j] if ty.kind == 'struct' else j * ty.elem.size
                self.store(s, T.add(p, eo, 64), v[j], e)
            return
        cands, g = self.candidates(s, o, off, ty.store)
        if len(cands) > 600:
            raise Unsupported('symbolic store to large object %s' % o.name)
        if g < ty.store:
            raise Unsupported('overlapping symbolic store')
        sort = 'F' if ty.kind == 'f' else (0 if ty.kind == 'i' and ty.width == 1 else ty.width)
        for k in cands:
            old = self.load_at(s, o, k, ty)
            if old is UNDEF:
                # unknown previous contents
                old = T.fresh('uninit', sort)
            self.store_at(s, o, k, T.ite(T.eq(off, k, 64), v, old, sort), ty)

    def memcpy(self, s, d, p, n):
        if is_t(n):
            v = self.concretize(s, n)
            n = v
        if n == 0:
            return
        i, o, off = self.getobj(s, p, n, 'read (memcpy)')
        j, q, doff = self.getobj(s, d, n, 'write (memcpy)')
        if q.const:
            self.bad(s, 'memory: write to constant %s' % q.name)
        if is_t(off) or is_t(doff):
            if n <= 16:
                # small copy at a symbolic address
                class _I:
                    pass
                for b in range(n):
                    v = self.load(s, T.add(p, b, 64), self.i8)
                    self.store(s, T.add(d, b, 64), v, self.i8)
                return
            raise Unsupported('memcpy at symbolic offset')
        # collect pieces
        pieces = []
        if off == 0 and n > 64 and o.bg is not None and not o.cells and doff == 0 and q.size == n:
            q = self.wobj(s, j)
            q.cells = {}
            q.bg = o.bg[:n]
            return
        if n > 64 and len(o.cells) < n // 8 and o.bg is None and o.arr is None and q.bg is None and q.arr is None:
            ks = sorted(k for k in o.cells if k < off + n and k + o.cells[k][1] > off)
            for k in ks:
                v, m = o.cells[k]
                if k >= off and k + m <= off + n:
                    pieces.append((k - off, v, m))
                else:
                    a = max(k, off)
                    b = min(k + m, off + n)
                    for x in range(a, b):
                        pv, pm = self.read_piece(s, o, x, 1)
                        pieces.append((x - off, pv, 1))
        else:
            x = off
            end = off + n
            while x < end:
                c = o.cells.get(x)
                if c is not None and x + c[1] <= end:
                    pieces.append((x - off, c[0], c[1]))
                    x += c[1]
                else:
                    if c is None and o.bg is not None and x + 8 <= end and not self.overlaps(o, x, 8):
                        pieces.append((x - off, int.from_bytes(o.bg[x:x + 8], 'little'), 8))
                        x += 8
                        continue
                    v, m = self.read_piece(s, o, x, end - x)
                    pieces.append((x - off, v, m))
                    x += m
        q = self.wobj(s, j)
        self.clear(q, doff, n)
        for k, v, m in pieces:
            q.cells[doff + k] = (v, m)

    def memset(self, s, d, v, n):
        n = self.concretize(s, n)
        if n == 0:
            return
        j, q, doff = self.getobj(s, d, n, 'write (memset)')
        if is_t(doff):
            raise Unsupported('memset at symbolic offset')
        q = self.wobj(s, j)
        if not is_t(v) and v is not UNDEF:
            if doff == 0 and n == q.size:
                q.cells = {}
                q.bg = bytes([v]) * n
                return
            self.clear(q, doff, n)
            if q.bg is not None and n > 64:
                q.bg = q.bg[:doff] + bytes([v]) * n + q.bg[doff + n:]
                return
            w = int.from_bytes(bytes([v]) * 8, 'little')
            x = 0
            while x < n:
                m = 8 if (n - x >= 8 and (doff + x) % 8 == 0) else 1
                q.cells[doff + x] = (w if m == 8 else v, m)
                x += m
            return
        self.clear(q, doff, n)
        for x in range(n):
            q.cells[doff + x] = (v, 1)

    def concretize(self, s, n):
        """Concrete value of n, forking over its feasible values when there are few."""
        if n is UNDEF:
            raise Unsupported('undef size')
        n = self.resolve_ite(s, n) if is_t(n) else n
        if not is_t(n):
            return n
        k = s.flags.get(('conc', n.id))
        if k is not None:
            return k
        v = self.solver.value(s.path, n)
        if v is None:
            raise Unsupported('symbolic size ' + T.show(n))
        e = T.eq(n, v, n.sort)
        d = self.decide(s, e)
        if d is True:
            s.flags[('conc', n.id)] = v
            return v
        if d is False:
            raise PathEnd('infeasible')
        raise Fork(e)

    # ------------------------------------------------------------ gep
    def gep(self, s, srcty, ops, optys, raw=None):
        p = ops[0]
        if isinstance(p, list):
            return [self.gep(s, srcty, [p[i]] + [o[i] if isinstance(o, list) else o for o in ops[1:]],
                             [optys[0].elem] + optys[1:]) for i in range(len(p))]
        if p is UNDEF:
            return UNDEF
        ty = srcty
        for n, idx in enumerate(ops[1:]):
            w = optys[n + 1].width
            if idx is UNDEF:
                return UNDEF
            if n == 0:
                sz = ty.size
            elif ty.kind == 'struct':
                p = T.add(p, ty.offs[idx], 64)
                ty = ty.fields[idx]
                continue
            else:
                ty = ty.elem
                sz = ty.size
            x = T.sext(idx, w, 64) if w != 64 else idx
            p = T.add(p, T.mul(x, sz, 64), 64)
        return p

    # ------------------------------------------------------------ instructions
    def run(self, entry):
        """Executes the entry function on all paths."""
        self.entry = entry
        fn = self.m.funcs[entry]
        from .ir import Type
        self.i8 = self.i64 = None
        t = Type()
        t.kind, t.width, t.size, t.store, t.elem, t.n, t.fields, t.offs, t.text = 'i', 8, 1, 1, None, 0, None, None, 'i8'
        self.i8 = t
        t = Type()
        t.kind, t.width, t.size, t.store, t.elem, t.n, t.fields, t.offs, t.text = 'i', 64, 8, 8, None, 0, None, None, 'i64'
        self.i64 = t
        s = self.new_state()
        self.run_ctors(s)
        s.samples = self.solver.initial_samples()
        fr = self.enter(s, fn, [])
        work = [s]
        while work:
            s = work.pop()
            try:
                self.run_state(s, work)
            except PathEnd as e:
                self.paths += 1
                if e.why == 'return':
                    self.returned.append((s.path, s.samples))
                if e.why not in ('return', 'abort', 'assume-false', 'infeasible') and not e.why.startswith('memory') \
                        and not e.why.startswith('check') and not e.why.startswith('safety'):
                    raise Unsupported('path ended: ' + e.why + ' in ' + self.where(s))
            if self.paths > self.max_paths:
                raise Unsupported('too many paths')

    def nonvacuous(self):
        for p, sm in self.returned:
            if sm:
                return True
        for p, sm in self.returned[:5]:
            r, m, _ = self.solver.query(self.solver.pathconds(p), 10000)
            if r == 'sat':
                return True
            if r == 'unknown':
                self.unknown_vacuity = True
        return getattr(self, 'unknown_vacuity', False)

    def where(self, s):
        return ' < '.join(f.fn.name for f in reversed(s.frames[-4:]))

    def run_ctors(self, s):
        g = self.m.globals.get('llvm.global_ctors')
        if g is None:
            return
        init = self.m.initializer(g)
        if init.k != 'agg':
            return
        es = sorted(init.ops, key=lambda e: e.ops[0].v)
        self.in_ctor = True
        self.entry = '<static initialisation>'
        for e in es:
            fn = e.ops[1].v
            if fn.k if hasattr(fn, 'k') else False:
                fn = fn.v
            # one sub-call at a time so that a failure is contained
            try:
                self.run_ctor(s, fn)
            except (Unsupported, PathEnd, Fork) as ex:
                self.ctor_failures.append('%s: %s' % (fn.name, ex if not isinstance(ex, PathEnd) else ex.why))
                s.frames = []
        self.obls = []
        self.in_ctor = False
        # constants written by constructors are ordinary memory.

    def run_ctor(self, s, fn):
        blocks = fn.decode()
        calls = [i for b in blocks for i in b if i[0] == 'call']
        if len(blocks) == 1 and all(i[0] in ('call', 'ret') for i in blocks[0]) and all(
                isinstance(i[3], Const) and i[3].k == 'fn' and not i[4] for i in calls):
            for c in calls:
                try:
                    self.run_ctor(s, c[3].v)
                except (Unsupported, PathEnd, Fork) as ex:
                    self.ctor_failures.append('%s: %s' % (c[3].v.name, getattr(ex, 'why', ex)))
                    s.frames = []
            return
        if fn.decl:
            return
        self.enter(s, fn, [])
        try:
            self.run_state(s, [])
        except PathEnd as e:
            if e.why != 'return':
                raise

    def enter(self, s, fn, args):
        fn.decode()
        fr = Frame(fn)
        for i, a in enumerate(args[:len(fn.params)]):
            fr.regs[i] = a
        s.frames.append(fr)
        self.executed.add(fn.name)
        return fr

    def run_state(self, s, work):
        disp = self.disp
        while True:
            f = s.frames[-1]
            block = f.fn.blocks[f.bb]
            inst = block[f.pc]
            s.nsteps += 1
            if s.nsteps & 1023 == 0:
                if self.deadline and time.time() > self.deadline:
                    raise Unsupported('time limit in symbolic execution')
                if s.nsteps > self.max_steps:
                    raise Unsupported('step limit in ' + self.where(s))
            try:
                disp[inst[0]](s, f, inst)
            except Fork as e:
                self.fork(s, e.cond, work)
            except KeyError as e:
                if e.args and e.args[0] == inst[0]:
                    raise Unsupported('instruction ' + inst[0])
                raise

    def fork(self, s, c, work):
        """Assume c in s, and push a copy assuming not c, if feasible.  Re-executes the instruction."""
        d = self.decide(s, c)
        if d is not None:
            # the condition is already known: substitute is the caller's job; record it
            raise Unsupported('fork on a known condition ' + T.show(c))
        t, f, st, sf = self.solver.feasible(s.path, c, s.samples)
        if t and f:
            if getattr(self, 'in_ctor', False):
                raise Unsupported('fork in static initialisation')
            o = s.copy()
            o.samples = sf
            o.path = (T.bnot(c), o.path)
            self.learn(o, c, False)
            work.append(o)
        elif not t and not f:
            raise PathEnd('infeasible')
        if t:
            s.samples = st
            if f:
                s.path = (c, s.path)
            self.learn(s, c, True)
        else:
            s.samples = sf
            self.learn(s, c, False)
        self.simplify_state(s, c)

    def simplify_state(self, s, c):
        """Resolves ite terms on a newly known condition in the top frame's registers."""
        f = s.frames[-1]
        v = self.decide(s, c)
        regs = f.regs
        for i, r in enumerate(regs):
            if is_t(r) and r.op == 'ite' and r.sort != 'A':
                regs[i] = self.resolve_ite(s, r)
        # memory cells are resolved on load

    def resolve_ite(self, s, r):
        while is_t(r) and r.op == 'ite':
            d = self.decide(s, r.args[0])
            if d is None:
                break
            r = r.args[1] if d else r.args[2]
        if is_t(r) and r.sort == 64 and r.op in ('add', 'mul'):
            a = self.resolve_ite(s, r.args[0])
            b = self.resolve_ite(s, r.args[1])
            if a is not r.args[0] or b is not r.args[1]:
                return (T.add if r.op == 'add' else T.mul)(a, b, 64)
        return r

    def goto(self, s, f, bb):
        prev = f.bb
        block = f.fn.blocks[bb]
        f.prev = prev
        f.bb = bb
        if block[0][0] == 'phi':
            vals = []
            for inst in block:
                if inst[0] != 'phi':
                    break
                o = inst[3][prev]
                vals.append((inst[1], f.regs[o] if type(o) is int else self.cval(s, o)))
            for d, v in vals:
                f.regs[d] = v
            f.pc = len(vals)
        else:
            f.pc = 0
        if f.visits is None:
            f.visits = {}
        n = f.visits.get(bb, 0) + 1
        f.visits[bb] = n

    def i_phi(self, s, f, i):
        raise Unsupported('phi in entry')

    def i_jmp(self, s, f, i):
        self.goto(s, f, i[3])

    def i_br(self, s, f, i):
        c = self.val(s, f, i[3])
        if c is UNDEF:
            raise Unsupported('branch on undefined value in ' + f.fn.name)
        if is_t(c):
            d = self.decide(s, c)
            if d is None:
                raise Fork(c)
            c = d
        self.goto(s, f, i[4] if c else i[5])

    def i_switch(self, s, f, i):
        c = self.val(s, f, i[3])
        if c is UNDEF:
            raise Unsupported('switch on undefined value in ' + f.fn.name)
        w = i[4].width
        if w == 1 and isinstance(c, bool):
            c = int(c)
        if not is_t(c):
            for v, bb in i[5]:
                if v == c:
                    return self.goto(s, f, bb)
            return self.goto(s, f, i[6])
        groups = {}
        for v, bb in i[5]:
            groups.setdefault(bb, []).append(v)
        for bb, vs in groups.items():
            # edges from one block carry the same values
            vs.sort()
            if w == 1:
                e = True if len(vs) == 2 else c if vs[0] else T.bnot(c)
            elif len(vs) > 2 and vs[-1] - vs[0] == len(vs) - 1:
                e = T.ult(T.sub(c, vs[0], w), len(vs), w)
            else:
                e = T.eq(c, vs[0], w)
                for v in vs[1:]:
                    e = T.bor(e, T.eq(c, v, w))
            d = self.decide(s, e)
            if d is None:
                raise Fork(e)
            if d:
                return self.goto(s, f, bb)
        self.goto(s, f, i[6])

    def i_ret(self, s, f, i):
        v = self.val(s, f, i[3][0]) if i[3] else None
        for a in f.allocas:
            del s.mem[a]
        s.frames.pop()
        if not s.frames:
            raise PathEnd('return')
        g = s.frames[-1]
        if f.dst is not None:
            g.regs[f.dst] = v
        if f.nxt is not None:
            self.goto(s, g, f.nxt)
        else:
            g.pc += 1

    def i_unreachable(self, s, f, i):
        self.bad(s, 'safety: unreachable code reached')

    def i_alloca(self, s, f, i):
        n = self.val(s, f, i[4])
        if is_t(n):
            raise Unsupported('variable-size alloca')
        a = self.alloc(s, i[3].size * n, 'local of ' + f.fn.name)
        f.allocas.append(a >> SH)
        f.regs[i[1]] = a
        f.pc += 1

    def i_load(self, s, f, i):
        p = self.val(s, f, i[3][0])
        v = self.load(s, p, i[2])
        if is_t(v) and v.op == 'ite':
            v = self.resolve_ite(s, v)
        f.regs[i[1]] = v
        f.pc += 1

    def i_store(self, s, f, i):
        v = self.val(s, f, i[3][0])
        p = self.val(s, f, i[3][1])
        self.store(s, p, v, i[4][0])
        f.pc += 1

    def i_gep(self, s, f, i):
        f.regs[i[1]] = self.gep(s, i[3], [self.val(s, f, o) for o in i[4]], i[5])
        f.pc += 1

    def bin(self, s, f, i, fn):
        a = self.val(s, f, i[3][0])
        b = self.val(s, f, i[3][1])
        ty = i[2]
        if ty.kind == 'vec':
            w = ty.elem.width
            r = [UNDEF if x is UNDEF or y is UNDEF else fn(x, y, w) for x, y in zip(a, b)]
        elif a is UNDEF or b is UNDEF:
            r = UNDEF
        else:
            r = fn(a, b, ty.width)
        f.regs[i[1]] = r
        f.pc += 1

    def w0(self, w):
        return 0 if w == 1 else w

    def i_add(self, s, f, i):
        if i[5] & 1:
            self.overflow(s, f, i, 'add')
        self.bin(s, f, i, lambda a, b, w: T.add(a, b, w) if w > 1 else T.bxor(a, b))

    def i_sub(self, s, f, i):
        if i[5] & 1:
            self.overflow(s, f, i, 'sub')
        self.bin(s, f, i, lambda a, b, w: T.sub(a, b, w) if w > 1 else T.bxor(a, b))

    def i_mul(self, s, f, i):
        if i[5] & 1:
            self.overflow(s, f, i, 'mul')
        self.bin(s, f, i, lambda a, b, w: T.mul(a, b, w) if w > 1 else T.band(a, b))

    def overflow(self, s, f, i, op):
        if not s.flags.get('overflow'):
            return
        a = self.val(s, f, i[3][0])
        b = self.val(s, f, i[3][1])
        if i[2].kind != 'i' or a is UNDEF or b is UNDEF:
            return
        w = i[2].width
        if not is_t(a) and not is_t(b):
            x, y = T.signed(a, w), T.signed(b, w)
            r = x + y if op == 'add' else x - y if op == 'sub' else x * y
            if not -(1 << (w - 1)) <= r < 1 << (w - 1):
                self.bad(s, 'safety: signed overflow in %s' % op)
            return
        self.require(s, mk('nov_' + op, 0, (a, b), w), 'safety: no signed overflow in ' + op)

    def i_udiv(self, s, f, i):
        self.divcheck(s, f, i)
        self.bin(s, f, i, T.udiv)

    def i_sdiv(self, s, f, i):
        self.divcheck(s, f, i)
        self.bin(s, f, i, T.sdiv)

    def i_urem(self, s, f, i):
        self.divcheck(s, f, i)
        self.bin(s, f, i, T.urem)

    def i_srem(self, s, f, i):
        self.divcheck(s, f, i)
        self.bin(s, f, i, T.srem)

    def divcheck(self, s, f, i):
        b = self.val(s, f, i[3][1])
        if i[2].kind != 'i':
            return
        w = i[2].width
        if not is_t(b):
            if b == 0:
                self.bad(s, 'safety: division by zero')
            return
        self.require(s, T.bnot(T.eq(b, 0, w)), 'safety: divisor is nonzero')

    def i_and(self, s, f, i):
        self.bin(s, f, i, lambda a, b, w: T.and_(a, b, w if w > 1 else 0))

    def i_or(self, s, f, i):
        self.bin(s, f, i, lambda a, b, w: T.or_(a, b, w if w > 1 else 0))

    def i_xor(self, s, f, i):
        self.bin(s, f, i, lambda a, b, w: T.xor(a, b, w if w > 1 else 0))

    def i_shl(self, s, f, i):
        self.bin(s, f, i, T.shl)

    def i_lshr(self, s, f, i):
        self.bin(s, f, i, T.lshr)

    def i_ashr(self, s, f, i):
        self.bin(s, f, i, T.ashr)

    def fbin(self, s, f, i, fn):
        a = self.val(s, f, i[3][0])
        b = self.val(s, f, i[3][1])
        if i[2].kind == 'vec':
            r = [UNDEF if x is UNDEF or y is UNDEF else fn(x, y) for x, y in zip(a, b)]
        elif a is UNDEF or b is UNDEF:
            r = UNDEF
        else:
            r = fn(a, b)
            if i[2].width == 32 and not self.real:
                if is_t(r):
                    raise Unsupported('single-precision arithmetic')
                r = struct.unpack('<f', struct.pack('<f', r))[0]
        f.regs[i[1]] = r
        f.pc += 1

    def i_fadd(self, s, f, i):
        self.fbin(s, f, i, self.mode.add)

    def i_fsub(self, s, f, i):
        self.fbin(s, f, i, self.mode.sub)

    def i_fmul(self, s, f, i):
        self.fbin(s, f, i, self.mode.mul)

    def i_fdiv(self, s, f, i):
        self.fbin(s, f, i, lambda a, b: self.fdiv(s, a, b))

    def fdiv(self, s, a, b):
        if self.real and is_t(b) and not s.flags.get('nodiv'):
            # a division by zero is outside real arithmetic: path assumption b != 0
            z = self.mode.cmp('oeq', b, Fraction(0))
            if is_t(z):
                d = self.decide(s, z)
                if d is None:
                    self.assumed.add('divisors are nonzero (real-arithmetic mode)')
                    self.assume(s, T.bnot(z))
        return self.mode.div(a, b)

    def i_frem(self, s, f, i):
        def fm(a, b):
            if not is_t(a) and not is_t(b):
                import math
                r = math.fmod(float(a), float(b))
                return self.mode.const(r)
            return self.mode.uf('fmod', (a, b))
        self.fbin(s, f, i, fm)

    def i_fneg(self, s, f, i):
        a = self.val(s, f, i[3][0])
        if isinstance(a, list):
            r = [x if x is UNDEF else self.mode.neg(x) for x in a]
        else:
            r = a if a is UNDEF else self.mode.neg(a)
        f.regs[i[1]] = r
        f.pc += 1

    def conv(self, s, f, i, fn):
        a = self.val(s, f, i[3][0])
        t0, t1 = i[4][0], i[2]
        if t1.kind == 'vec':
            r = [x if x is UNDEF else fn(x, t0.elem, t1.elem) for x in a]
        else:
            r = a if a is UNDEF else fn(a, t0, t1)
        f.regs[i[1]] = r
        f.pc += 1

    def i_trunc(self, s, f, i):
        def tr(a, t0, t1):
            if t1.width == 1:
                if not is_t(a):
                    return bool(a & 1)
                return T.eq(T.extract(a, 0, 0, t0.width), 1, 1)
            return T.extract(a, t1.width - 1, 0, t0.width)
        self.conv(s, f, i, tr)

    def i_zext(self, s, f, i):
        self.conv(s, f, i, lambda a, t0, t1: T.zext(a, self.w0(t0.width), t1.width))

    def i_sext(self, s, f, i):
        self.conv(s, f, i, lambda a, t0, t1: T.sext(a, self.w0(t0.width), t1.width))

    def i_ptrtoint(self, s, f, i):
        self.conv(s, f, i, lambda a, t0, t1: a if t1.width == 64 else T.extract(a, t1.width - 1, 0, 64))

    def i_inttoptr(self, s, f, i):
        self.conv(s, f, i, lambda a, t0, t1: a)

    def i_bitcast(self, s, f, i):
        a = self.val(s, f, i[3][0])
        t0, t1 = i[4][0], i[2]
        f.regs[i[1]] = self.bitcast(a, t0, t1)
        f.pc += 1

    def i_addrspacecast(self, s, f, i):
        f.regs[i[1]] = self.val(s, f, i[3][0])
        f.pc += 1

    def bitcast(self, a, t0, t1):
        def flat(a, t):
            if t.kind == 'vec':
                es = [flat(x, t.elem) for x in a]
                if any(e is UNDEF for e in es):
                    return UNDEF
                w = t.elem.width
                r = es[0]
                for k, e in enumerate(es[1:]):
                    r = T.concat(e, r, w, w * (k + 1))
                return r
            if a is UNDEF:
                return a
            if t.kind == 'f':
                return T.fbits(a) if t.width == 64 else self.f32bits(a)
            if t.width == 1:
                return T.zext(a, 0, 1) if is_t(a) else int(a)
            return a

        def unflat(b, t):
            if t.kind == 'vec':
                w = t.elem.width
                if b is UNDEF:
                    return [UNDEF] * t.n
                return [unflat(T.extract(b, w * k + w - 1, w * k, w * t.n), t.elem) for k in range(t.n)]
            if b is UNDEF:
                return b
            if t.kind == 'f':
                if t.width == 64:
                    return self.mode.frombits(b)
                if not is_t(b):
                    return self.mode.const(struct.unpack('<f', struct.pack('<I', b))[0])
                raise Unsupported('bitcast to float')
            if t.width == 1:
                return T.eq(b, 1, 1) if is_t(b) else bool(b)
            return b
        if t0.kind == 'vec' and t1.kind == 'vec' and t0.n == t1.n:
            return [unflat(flat(x, t0.elem), t1.elem) for x in a]
        if t0.kind == 'vec' and t1.kind == 'vec' and t0.elem.width > t1.elem.width:
            r = []
            k = t0.elem.width // t1.elem.width
            for x in a:
                b = flat(x, t0.elem)
                for j in range(k):
                    w = t1.elem.width
                    r.append(UNDEF if b is UNDEF else unflat(T.extract(b, w * j + w - 1, w * j, t0.elem.width), t1.elem))
            return r
        return unflat(flat(a, t0), t1)

    def i_sitofp(self, s, f, i):
        self.conv(s, f, i, lambda a, t0, t1: self.mode.sitofp(a, self.w0(t0.width), True))

    def i_uitofp(self, s, f, i):
        self.conv(s, f, i, lambda a, t0, t1: self.mode.sitofp(a, self.w0(t0.width), False))

    def i_fptosi(self, s, f, i):
        self.conv(s, f, i, lambda a, t0, t1: self.mode.fptosi(a, t1.width, True))

    def i_fptoui(self, s, f, i):
        self.conv(s, f, i, lambda a, t0, t1: self.mode.fptosi(a, t1.width, False))

    def i_fpext(self, s, f, i):
        self.conv(s, f, i, lambda a, t0, t1: a)

    def i_fptrunc(self, s, f, i):
        def tr(a, t0, t1):
            if not is_t(a):
                r = struct.unpack('<f', struct.pack('<f', float(a)))[0]
                return self.mode.const(r)
            if self.real:
                return a
            raise Unsupported('fptrunc')
        self.conv(s, f, i, tr)

    def i_icmp(self, s, f, i):
        a = self.val(s, f, i[4])
        b = self.val(s, f, i[5])
        ty = i[6]
        if ty.kind == 'vec':
            w = self.w0(ty.elem.width)
            r = [UNDEF if x is UNDEF or y is UNDEF else T.icmp(i[3], x, y, w) for x, y in zip(a, b)]
        elif a is UNDEF or b is UNDEF:
            r = UNDEF
        else:
            w = 64 if ty.kind == 'p' else self.w0(ty.width)
            if (self.real and i[3] in ('eq', 'ne') and not is_t(b) and b == 0 and is_t(a) and a.op == 'and_'
                    and a.args[1] == 0x7fffffffffffffff and is_t(a.args[0]) and a.args[0].op == 'bits'):
                r = self.mode.cmp('oeq', a.args[0].args[0], Fraction(0))  # The compiler tests for a zero of either sign.
                r = r if i[3] == 'eq' else T.bnot(r)
            else:
                r = T.icmp(i[3], a, b, w)
        f.regs[i[1]] = r
        f.pc += 1

    def i_fcmp(self, s, f, i):
        a = self.val(s, f, i[4])
        b = self.val(s, f, i[5])
        if i[6].kind == 'vec':
            r = [UNDEF if x is UNDEF or y is UNDEF else self.mode.cmp(i[3], x, y) for x, y in zip(a, b)]
        elif a is UNDEF or b is UNDEF:
            r = UNDEF
        else:
            r = self.mode.cmp(i[3], a, b)
        f.regs[i[1]] = r
        f.pc += 1

    def sortof(self, ty):
        if ty.kind == 'f':
            return 'F'
        if ty.kind == 'p':
            return 64
        if ty.kind == 'i':
            return self.w0(ty.width)
        return None

    def select_val(self, c, a, b, ty):
        if ty.kind in ('vec', 'array'):
            if isinstance(c, list):
                return [self.select_val(x, y, z, ty.elem) for x, y, z in zip(c, a, b)]
            return [self.select_val(c, y, z, ty.elem) for y, z in zip(a, b)]
        if ty.kind == 'struct':
            return [self.select_val(c, y, z, t) for y, z, t in zip(a, b, ty.fields)]
        if c is UNDEF:
            return UNDEF
        if not is_t(c):
            return a if c else b
        if a is UNDEF or b is UNDEF:
            return b if a is UNDEF else a
        return T.ite(c, a, b, self.sortof(ty))

    def i_select(self, s, f, i):
        c = self.val(s, f, i[3][0])
        if is_t(c):
            d = self.decide(s, c)
            if d is not None:
                c = d
        a = self.val(s, f, i[3][1])
        b = self.val(s, f, i[3][2])
        f.regs[i[1]] = self.select_val(c, a, b, i[2])
        f.pc += 1

    def i_freeze(self, s, f, i):
        v = self.val(s, f, i[3][0])
        if v is UNDEF:
            v = self.zero_of(i[2]) if not self.sortof(i[2]) is None else v
        elif isinstance(v, list):
            z = self.zero_of(i[2])
            v = [z[k] if x is UNDEF else x for k, x in enumerate(v)]
        f.regs[i[1]] = v
        f.pc += 1

    def i_extractelement(self, s, f, i):
        v = self.val(s, f, i[3][0])
        k = self.val(s, f, i[3][1])
        if is_t(k):
            r = v[0]
            for j in range(1, len(v)):
                r = T.ite(T.eq(k, j, i[4][1].width), v[j], r, self.sortof(i[2]))
        else:
            r = v[k]
        f.regs[i[1]] = r
        f.pc += 1

    def i_insertelement(self, s, f, i):
        v = list(self.val(s, f, i[3][0]))
        e = self.val(s, f, i[3][1])
        k = self.val(s, f, i[3][2])
        if is_t(k):
            raise Unsupported('insertelement at symbolic index')
        v[k] = e
        f.regs[i[1]] = v
        f.pc += 1

    def i_shufflevector(self, s, f, i):
        a = self.val(s, f, i[3][0])
        b = self.val(s, f, i[3][1])
        ab = a + (b if isinstance(b, list) else [UNDEF] * len(a))
        f.regs[i[1]] = [UNDEF if k < 0 else ab[k] for k in i[4]]
        f.pc += 1

    def i_extractvalue(self, s, f, i):
        v = self.val(s, f, i[3][0])
        for k in i[4]:
            v = v[k]
        f.regs[i[1]] = v
        f.pc += 1

    def i_insertvalue(self, s, f, i):
        v = self.val(s, f, i[3][0])
        e = self.val(s, f, i[3][1])

        def ins(v, idx):
            v = list(v)
            if len(idx) == 1:
                v[idx[0]] = e
            else:
                v[idx[0]] = ins(v[idx[0]], idx[1:])
            return v
        f.regs[i[1]] = ins(v, i[4])
        f.pc += 1

    def i_atomicrmw(self, s, f, i):
        p = self.val(s, f, i[4])
        v = self.val(s, f, i[5])
        ty = i[6]
        old = self.load(s, p, ty)
        w = ty.width
        op = i[3]
        if op == 'add':
            n = T.add(old, v, w)
        elif op == 'sub':
            n = T.sub(old, v, w)
        elif op == 'xchg':
            n = v
        elif op == 'or':
            n = T.or_(old, v, w)
        elif op == 'and':
            n = T.and_(old, v, w)
        else:
            raise Unsupported('atomicrmw ' + op)
        self.store(s, p, n, ty)
        f.regs[i[1]] = old
        f.pc += 1

    def i_cmpxchg(self, s, f, i):
        p, e, n = [self.val(s, f, o) for o in i[3]]
        ty = i[4][1]
        old = self.load(s, p, ty)
        c = T.eq(old, e, ty.width)
        d = self.decide(s, c)
        if d is None:
            raise Fork(c)
        if d:
            self.store(s, p, n, ty)
        f.regs[i[1]] = [old, d]
        f.pc += 1

    def i_fence(self, s, f, i):
        f.pc += 1

    def i_landingpad(self, s, f, i):
        raise Unsupported('exception handling')

    i_resume = i_landingpad

    # ------------------------------------------------------------ calls
    def i_call(self, s, f, i):
        cv = i[3]
        if type(cv) is int or cv.k != 'fn':
            if type(cv) is not int and cv.k == 'asm':
                # inline assembly: only empty barriers are accepted
                r = None
                args = [self.val(s, f, a) for a in i[4]]
                raise Unsupported('inline assembly in ' + f.fn.name)
            p = self.val(s, f, cv)
            if is_t(p):
                if p.op == 'ite':
                    raise Fork(p.args[0])
                raise Unsupported('symbolic callee')
            if p is UNDEF:
                raise Unsupported('undefined callee')
            fn = self.addrfn.get(p)
            if fn is None:
                if p == 0:
                    self.bad(s, 'safety: call through a null function pointer')
                raise Unsupported('call to non-function address %x' % p)
        else:
            fn = cv.v
        args = [self.val(s, f, a) for a in i[4]]
        name = fn.name
        h = self.contract_for(name)
        if h is None and fn.decl:
            h = self.external(name)
        if h is not None:
            r = h(self, s, f, i, args)
            if r is ENTERED:
                return
            f.regs[i[1]] = r
            if i[6] is not None:
                self.goto(s, f, i[6])
            else:
                f.pc += 1
            return
        if len(s.frames) > 400:
            raise Unsupported('recursion too deep in ' + name)
        # by-value aggregates ("byval" pointers) are private copies made by the caller's code at -O1.
        g = self.enter(s, fn, args)
        g.dst = i[1]
        g.nxt = i[6]

    def call_fn(self, s, f, i, fn, args):
        g = self.enter(s, fn, args)
        g.dst = i[1]
        g.nxt = i[6]
        return ENTERED

    def contract_for(self, name):
        return self.contracts.get(name)

    def external(self, name):
        from . import externs
        h = externs.lookup(self, name)
        if h is None:
            raise Unsupported('external function ' + name)
        return h


ENTERED = object()
