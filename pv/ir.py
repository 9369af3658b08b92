"""LLVM IR front end: loads a bitcode/IR file through libLLVM-20's C API (ctypes)
and pre-decodes functions into Python tuples for the symbolic executor."""
import ctypes as C

_L = None


def lib():
    global _L
    if _L is None:
        _L = C.CDLL('/usr/lib/x86_64-linux-gnu/libLLVM-20.so')
        P = C.c_void_p
        sig = {
            'LLVMContextCreate': (P, []),
            'LLVMCreateMemoryBufferWithContentsOfFile':
                (C.c_int, [C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p)]),
            'LLVMParseIRInContext':
                (C.c_int, [P, P, C.POINTER(P), C.POINTER(C.c_char_p)]),
            'LLVMGetFirstFunction': (P, [P]), 'LLVMGetNextFunction': (P, [P]),
            'LLVMGetFirstGlobal': (P, [P]), 'LLVMGetNextGlobal': (P, [P]),
            'LLVMGetFirstGlobalAlias': (P, [P]), 'LLVMGetNextGlobalAlias': (P, [P]),
            'LLVMAliasGetAliasee': (P, [P]),
            'LLVMGetFirstBasicBlock': (P, [P]), 'LLVMGetNextBasicBlock': (P, [P]),
            'LLVMGetFirstInstruction': (P, [P]), 'LLVMGetNextInstruction': (P, [P]),
            'LLVMGetInstructionOpcode': (C.c_int, [P]),
            'LLVMGetNumOperands': (C.c_int, [P]), 'LLVMGetOperand': (P, [P, C.c_uint]),
            'LLVMTypeOf': (P, [P]), 'LLVMGetTypeKind': (C.c_int, [P]),
            'LLVMGetIntTypeWidth': (C.c_uint, [P]),
            'LLVMGetVectorSize': (C.c_uint, [P]), 'LLVMGetArrayLength2': (C.c_uint64, [P]),
            'LLVMGetElementType': (P, [P]),
            'LLVMCountStructElementTypes': (C.c_uint, [P]),
            'LLVMStructGetTypeAtIndex': (P, [P, C.c_uint]),
            'LLVMGetModuleDataLayout': (P, [P]),
            'LLVMOffsetOfElement': (C.c_uint64, [P, P, C.c_uint]),
            'LLVMABISizeOfType': (C.c_uint64, [P, P]),
            'LLVMStoreSizeOfType': (C.c_uint64, [P, P]),
            'LLVMGetValueKind': (C.c_int, [P]),
            'LLVMConstIntGetZExtValue': (C.c_uint64, [P]),
            'LLVMPrintValueToString': (C.c_void_p, [P]),
            'LLVMPrintTypeToString': (C.c_void_p, [P]),
            'LLVMDisposeMessage': (None, [P]),
            'LLVMConstRealGetDouble': (C.c_double, [P, C.POINTER(C.c_int)]),
            'LLVMGetConstOpcode': (C.c_int, [P]),
            'LLVMGetICmpPredicate': (C.c_int, [P]), 'LLVMGetFCmpPredicate': (C.c_int, [P]),
            'LLVMGetNSW': (C.c_int, [P]), 'LLVMGetNNeg': (C.c_int, [P]), 'LLVMGetNUW': (C.c_int, [P]),
            'LLVMGetGEPSourceElementType': (P, [P]),
            'LLVMGetNumIndices': (C.c_uint, [P]), 'LLVMGetIndices': (C.POINTER(C.c_uint), [P]),
            'LLVMGetNumMaskElements': (C.c_uint, [P]), 'LLVMGetMaskValue': (C.c_int, [P, C.c_uint]),
            'LLVMCountIncoming': (C.c_uint, [P]),
            'LLVMGetIncomingValue': (P, [P, C.c_uint]), 'LLVMGetIncomingBlock': (P, [P, C.c_uint]),
            'LLVMGetCalledValue': (P, [P]), 'LLVMGetNumArgOperands': (C.c_uint, [P]),
            'LLVMGetAllocatedType': (P, [P]),
            'LLVMGetInitializer': (P, [P]), 'LLVMIsGlobalConstant': (C.c_int, [P]),
            'LLVMGlobalGetValueType': (P, [P]),
            'LLVMGetValueName2': (C.c_void_p, [P, C.POINTER(C.c_size_t)]),
            'LLVMCountParams': (C.c_uint, [P]), 'LLVMGetParam': (P, [P, C.c_uint]),
            'LLVMIsDeclaration': (C.c_int, [P]),
            'LLVMGetAsString': (C.c_void_p, [P, C.POINTER(C.c_size_t)]),
            'LLVMIsConstantString': (C.c_int, [P]),
            'LLVMGetNumSuccessors': (C.c_uint, [P]), 'LLVMGetSuccessor': (P, [P, C.c_uint]),
            'LLVMGetAggregateElement': (P, [P, C.c_uint]),
            'LLVMGetReturnType': (P, [P]),
            'LLVMGetNormalDest': (P, [P]),
            'LLVMGetAtomicRMWBinOp': (C.c_int, [P]),
            'LLVMIsConstant': (C.c_int, [P]),
        }
        for n, (r, a) in sig.items():
            f = getattr(_L, n)
            f.restype = r
            f.argtypes = a
    return _L


# LLVMOpcode (C API numbering).
OP = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke', 7: 'unreachable', 66: 'fneg',
      8: 'add', 9: 'fadd', 10: 'sub', 11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv',
      16: 'fdiv', 17: 'urem', 18: 'srem', 19: 'frem', 20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and',
      24: 'or', 25: 'xor', 26: 'alloca', 27: 'load', 28: 'store', 29: 'gep', 30: 'trunc',
      31: 'zext', 32: 'sext', 33: 'fptoui', 34: 'fptosi', 35: 'uitofp', 36: 'sitofp',
      37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint', 40: 'inttoptr', 41: 'bitcast', 60: 'addrspacecast',
      42: 'icmp', 43: 'fcmp', 44: 'phi', 45: 'call', 46: 'select', 49: 'vaarg',
      50: 'extractelement', 51: 'insertelement', 52: 'shufflevector', 53: 'extractvalue',
      54: 'insertvalue', 68: 'freeze', 55: 'fence', 56: 'cmpxchg', 57: 'atomicrmw',
      58: 'resume', 59: 'landingpad'}
ICMP = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge',
        40: 'slt', 41: 'sle'}
FCMP = {0: 'false', 1: 'oeq', 2: 'ogt', 3: 'oge', 4: 'olt', 5: 'ole', 6: 'one', 7: 'ord',
        8: 'uno', 9: 'ueq', 10: 'ugt', 11: 'uge', 12: 'ult', 13: 'ule', 14: 'une', 15: 'true'}
RMW = {0: 'xchg', 1: 'add', 2: 'sub', 3: 'and', 4: 'nand', 5: 'or', 6: 'xor', 7: 'max', 8: 'min',
       9: 'umax', 10: 'umin'}


class Type:
    __slots__ = ('kind', 'width', 'elem', 'n', 'fields', 'offs', 'size', 'store', 'text')

    def __repr__(self):
        return self.text


# kind: 'void','f','i','p','struct','array','vec','x'
class Const:
    """Constant operand; k in {'i','f','null','zero','undef','agg','fn','gv','expr'}"""
    __slots__ = ('k', 'ty', 'v', 'ops', 'extra')

    def __init__(self, k, ty, v=None, ops=None, extra=None):
        self.k, self.ty, self.v, self.ops, self.extra = k, ty, v, ops, extra


class Func:
    def __init__(self, mod, ref, name):
        self.mod, self.ref, self.name = mod, ref, name
        self.decl = bool(lib().LLVMIsDeclaration(ref))
        self.blocks = None

    def __repr__(self):
        return 'Func(%s)' % self.name

    def decode(self):
        if self.blocks is None:
            self.mod._decode(self)
        return self.blocks


class Module:
    def __init__(self, path):
        L = lib()
        self.ctx = L.LLVMContextCreate()
        buf = C.c_void_p()
        msg = C.c_char_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(msg)):
            raise RuntimeError(msg.value)
        m = C.c_void_p()
        if L.LLVMParseIRInContext(self.ctx, buf, C.byref(m), C.byref(msg)):
            raise RuntimeError(msg.value)
        self.m = m
        self.td = L.LLVMGetModuleDataLayout(m)
        self.types = {}
        self.consts = {}
        self.funcs = {}
        self.byref = {}
        self.globals = {}
        f = L.LLVMGetFirstFunction(m)
        while f:
            n = self._name(f)
            fn = Func(self, f, n)
            self.funcs[n] = fn
            self.byref[f] = fn
            f = L.LLVMGetNextFunction(f)
        g = L.LLVMGetFirstGlobal(m)
        while g:
            self.globals[self._name(g)] = g
            g = L.LLVMGetNextGlobal(g)
        self.aliases = {}
        a = L.LLVMGetFirstGlobalAlias(m)
        while a:
            self.aliases[self._name(a)] = L.LLVMAliasGetAliasee(a)
            a = L.LLVMGetNextGlobalAlias(a)

    def _name(self, v):
        n = C.c_size_t()
        p = lib().LLVMGetValueName2(v, C.byref(n))
        return C.string_at(p, n.value).decode('utf-8', 'replace')

    def _str(self, p):
        s = C.string_at(p).decode('utf-8', 'replace')
        lib().LLVMDisposeMessage(p)
        return s

    def type(self, t):
        r = self.types.get(t)
        if r is not None:
            return r
        L = lib()
        k = L.LLVMGetTypeKind(t)
        r = Type()
        r.width = r.n = 0
        r.elem = r.fields = r.offs = None
        r.size = r.store = 0
        self.types[t] = r
        r.text = ''
        if k == 0:
            r.kind = 'void'
        elif k in (2, 3):
            r.kind, r.width = 'f', {2: 32, 3: 64}[k]
        elif k == 8:
            r.kind, r.width = 'i', L.LLVMGetIntTypeWidth(t)
        elif k == 12:
            r.kind, r.width = 'p', 64
        elif k == 10:
            r.kind = 'struct'
            n = L.LLVMCountStructElementTypes(t)
            r.fields = [self.type(L.LLVMStructGetTypeAtIndex(t, i)) for i in range(n)]
            try:
                r.offs = [L.LLVMOffsetOfElement(self.td, t, i) for i in range(n)]
            except Exception:
                r.offs = None
            r.n = n
        elif k == 11:
            r.kind = 'array'
            r.n = L.LLVMGetArrayLength2(t)
            r.elem = self.type(L.LLVMGetElementType(t))
        elif k == 13:
            r.kind = 'vec'
            r.n = L.LLVMGetVectorSize(t)
            r.elem = self.type(L.LLVMGetElementType(t))
        else:
            r.kind = 'x'
        if r.kind not in ('void', 'x'):
            r.size = L.LLVMABISizeOfType(self.td, t)
            r.store = L.LLVMStoreSizeOfType(self.td, t)
        r.text = r.kind + str(r.width or r.n or '')
        return r

    def const(self, v):
        c = self.consts.get(v)
        if c is None:
            c = self._const(v)
            self.consts[v] = c
        return c

    def _const(self, v):
        L = lib()
        k = L.LLVMGetValueKind(v)
        ty = self.type(L.LLVMTypeOf(v))
        # LLVMValueKind enumeration.
        if k == 5:
            return Const('fn', ty, self.byref[v])
        if k == 8:
            return Const('gv', ty, self._name(v))
        if k == 6:  # alias
            return self.const(self.aliases[self._name(v)])
        if k == 18:  # ConstantInt
            if ty.kind == 'vec':
                return Const('agg', ty, ops=[self.const(L.LLVMGetAggregateElement(v, i)) for i in range(ty.n)])
            if ty.width <= 64:
                return Const('i', ty, L.LLVMConstIntGetZExtValue(v) & ((1 << ty.width) - 1))
            s = self._str(L.LLVMPrintValueToString(v)).split()[-1]
            return Const('i', ty, int(s) & ((1 << ty.width) - 1))
        if k == 19:  # ConstantFP
            if ty.kind == 'vec':
                return Const('agg', ty, ops=[self.const(L.LLVMGetAggregateElement(v, i)) for i in range(ty.n)])
            li = C.c_int()
            return Const('f', ty, L.LLVMConstRealGetDouble(v, C.byref(li)))
        if k == 20:
            return Const('null', ty)
        if k == 15:
            return Const('zero', ty)
        if k in (14, 25, 21):
            return Const('undef', ty)
        txt = None
        if ty.kind in ('struct', 'array', 'vec'):
            if ty.kind == 'array' and L.LLVMIsConstantString(v):
                n = C.c_size_t()
                p = L.LLVMGetAsString(v, C.byref(n))
                return Const('str', ty, C.string_at(p, n.value))
            return Const('agg', ty, ops=[self.const(L.LLVMGetAggregateElement(v, i)) for i in range(ty.n)])
        try:
            op = L.LLVMGetConstOpcode(v)
        except Exception:
            op = 0
        if op and OP.get(op):
            name = OP[op]
            ops = [self.const(L.LLVMGetOperand(v, i)) for i in range(L.LLVMGetNumOperands(v))]
            extra = None
            if name == 'gep':
                extra = self.type(L.LLVMGetGEPSourceElementType(v))
            return Const('expr', ty, name, ops, extra)
        txt = self._str(L.LLVMPrintValueToString(v))
        if 'undef' in txt or 'poison' in txt:
            return Const('undef', ty)
        raise NotImplementedError('constant kind %d: %s' % (k, txt[:200]))

    def _decode(self, fn):
        L = lib()
        regs = {}
        nparams = L.LLVMCountParams(fn.ref)
        fn.params = []
        for i in range(nparams):
            p = L.LLVMGetParam(fn.ref, i)
            regs[p] = len(regs)
            fn.params.append(self.type(L.LLVMTypeOf(p)))
        bbs = {}
        order = []
        b = L.LLVMGetFirstBasicBlock(fn.ref)
        while b:
            bbs[b] = len(order)
            order.append(b)
            b = L.LLVMGetNextBasicBlock(b)
        insts = []
        for b in order:
            i = L.LLVMGetFirstInstruction(b)
            lst = []
            while i:
                regs[i] = len(regs)
                lst.append(i)
                i = L.LLVMGetNextInstruction(i)
            insts.append(lst)
        fn.nregs = len(regs)
        bbval = bbs

        def operand(v):
            r = regs.get(v)
            if r is not None:
                return r
            k = L.LLVMGetValueKind(v)
            if k == 22 or k == 23:  # metadata as value / inline asm
                return Const('undef', None)
            if not L.LLVMIsConstant(v):
                return Const('asm', None)
            return self.const(v)

        blocks = []
        for lst in insts:
            out = []
            for i in lst:
                op = OP.get(L.LLVMGetInstructionOpcode(i), 'op%d' % L.LLVMGetInstructionOpcode(i))
                ty = self.type(L.LLVMTypeOf(i))
                d = regs[i]
                n = L.LLVMGetNumOperands(i)
                if op == 'phi':
                    inc = {}
                    for j in range(L.LLVMCountIncoming(i)):
                        inc[bbval[L.LLVMGetIncomingBlock(i, j)]] = operand(L.LLVMGetIncomingValue(i, j))
                    out.append((op, d, ty, inc))
                elif op == 'br':
                    if n == 1:
                        out.append(('jmp', d, ty, bbval[L.LLVMGetSuccessor(i, 0)]))
                    else:
                        out.append((op, d, ty, operand(L.LLVMGetOperand(i, 0)),
                                    bbval[L.LLVMGetSuccessor(i, 0)], bbval[L.LLVMGetSuccessor(i, 1)]))
                elif op == 'switch':
                    cond = operand(L.LLVMGetOperand(i, 0))
                    cases = []
                    for j in range(2, n, 2):
                        cv = self.const(L.LLVMGetOperand(i, j))
                        cases.append((cv.v, bbval[L.LLVMGetSuccessor(i, j // 2)]))
                    cty = self.type(L.LLVMTypeOf(L.LLVMGetOperand(i, 0)))
                    out.append((op, d, ty, cond, cty, cases, bbval[L.LLVMGetSuccessor(i, 0)]))
                elif op in ('call', 'invoke'):
                    callee = L.LLVMGetCalledValue(i)
                    na = L.LLVMGetNumArgOperands(i)
                    args = []
                    atys = []
                    for j in range(na):
                        o = L.LLVMGetOperand(i, j)
                        args.append(operand(o))
                        atys.append(self.type(L.LLVMTypeOf(o)))
                    cv = operand(callee)
                    nxt = bbval[L.LLVMGetNormalDest(i)] if op == 'invoke' else None
                    out.append(('call', d, ty, cv, args, atys, nxt))
                elif op == 'alloca':
                    out.append((op, d, ty, self.type(L.LLVMGetAllocatedType(i)),
                                operand(L.LLVMGetOperand(i, 0))))
                elif op == 'gep':
                    out.append((op, d, ty, self.type(L.LLVMGetGEPSourceElementType(i)),
                                [operand(L.LLVMGetOperand(i, j)) for j in range(n)],
                                [self.type(L.LLVMTypeOf(L.LLVMGetOperand(i, j))) for j in range(n)]))
                elif op == 'icmp':
                    out.append((op, d, ty, ICMP[L.LLVMGetICmpPredicate(i)],
                                operand(L.LLVMGetOperand(i, 0)), operand(L.LLVMGetOperand(i, 1)),
                                self.type(L.LLVMTypeOf(L.LLVMGetOperand(i, 0)))))
                elif op == 'fcmp':
                    out.append((op, d, ty, FCMP[L.LLVMGetFCmpPredicate(i)],
                                operand(L.LLVMGetOperand(i, 0)), operand(L.LLVMGetOperand(i, 1)),
                                self.type(L.LLVMTypeOf(L.LLVMGetOperand(i, 0)))))
                elif op in ('extractvalue', 'insertvalue'):
                    ni = L.LLVMGetNumIndices(i)
                    p = L.LLVMGetIndices(i)
                    out.append((op, d, ty, [operand(L.LLVMGetOperand(i, j)) for j in range(n)],
                                [p[j] for j in range(ni)],
                                self.type(L.LLVMTypeOf(L.LLVMGetOperand(i, 0)))))
                elif op == 'shufflevector':
                    nm = L.LLVMGetNumMaskElements(i)
                    out.append((op, d, ty, [operand(L.LLVMGetOperand(i, j)) for j in range(2)],
                                [L.LLVMGetMaskValue(i, j) for j in range(nm)],
                                self.type(L.LLVMTypeOf(L.LLVMGetOperand(i, 0)))))
                elif op == 'atomicrmw':
                    out.append((op, d, ty, RMW[L.LLVMGetAtomicRMWBinOp(i)],
                                operand(L.LLVMGetOperand(i, 0)), operand(L.LLVMGetOperand(i, 1)),
                                self.type(L.LLVMTypeOf(L.LLVMGetOperand(i, 1)))))
                elif op == 'landingpad' or op == 'resume':
                    out.append((op, d, ty))
                else:
                    flags = 0
                    if op == 'uitofp' and L.LLVMGetNNeg(i):
                        op = 'sitofp'
                    if op in ('add', 'sub', 'mul', 'shl'):
                        flags = (1 if L.LLVMGetNSW(i) else 0) | (2 if L.LLVMGetNUW(i) else 0)
                    out.append((op, d, ty, [operand(L.LLVMGetOperand(i, j)) for j in range(n)],
                                [self.type(L.LLVMTypeOf(L.LLVMGetOperand(i, j))) for j in range(n)], flags))
            blocks.append(out)
        fn.blocks = blocks

    def initializer(self, gref):
        i = lib().LLVMGetInitializer(gref)
        return self.const(i) if i else None
