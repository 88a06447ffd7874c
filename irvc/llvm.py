"""Thin ctypes reader for LLVM 18 modules (bitcode/IR text), producing plain
Python structures the verifier executes.  Nothing is interpreted here."""
import ctypes as C
import os, struct

_L = None


def lib():
    global _L
    if _L is None:
        for p in ("/usr/lib/llvm-18/lib/libLLVM-18.so", "libLLVM-18.so", "libLLVM-18.so.1"):
            try:
                _L = C.CDLL(p)
                break
            except OSError:
                continue
        P = C.c_void_p
        V = C.c_void_p
        U = C.c_uint
        S = C.c_char_p
        U64 = C.c_uint64

        def f(name, res, *args):
            fn = getattr(_L, name)
            fn.restype = res
            fn.argtypes = list(args)

        f("LLVMContextCreate", P)
        f("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, S, C.POINTER(P), C.POINTER(P))
        f("LLVMParseIRInContext", C.c_int, P, P, C.POINTER(P), C.POINTER(P))
        for n in ("LLVMGetFirstFunction", "LLVMGetNextFunction", "LLVMGetFirstBasicBlock",
                  "LLVMGetNextBasicBlock", "LLVMGetFirstInstruction", "LLVMGetNextInstruction",
                  "LLVMGetFirstGlobal", "LLVMGetNextGlobal", "LLVMGetFirstGlobalAlias",
                  "LLVMGetNextGlobalAlias", "LLVMAliasGetAliasee",
                  "LLVMTypeOf", "LLVMGetElementType", "LLVMGetCalledValue", "LLVMGetNormalDest",
                  "LLVMGetUnwindDest", "LLVMGetGEPSourceElementType", "LLVMGetInitializer",
                  "LLVMGlobalGetValueType", "LLVMGetAllocatedType", "LLVMGetReturnType",
                  "LLVMGetModuleDataLayout", "LLVMGetCalledFunctionType", "LLVMInstructionGetDebugLoc",
                  "LLVMDILocationGetScope", "LLVMDILocationGetInlinedAt", "LLVMDIScopeGetFile",
                  "LLVMValueAsBasicBlock", "LLVMGetCondition", "LLVMGetSwitchDefaultDest", "LLVMGetSubprogram"):
            f(n, P, P)
        for n in ("LLVMGetTypeKind", "LLVMGetInstructionOpcode", "LLVMGetConstOpcode",
                  "LLVMGetNumOperands", "LLVMGetICmpPredicate", "LLVMGetFCmpPredicate",
                  "LLVMIsConditional", "LLVMGetNumSuccessors", "LLVMCountIncoming",
                  "LLVMIsDeclaration", "LLVMGetIntTypeWidth", "LLVMCountStructElementTypes",
                  "LLVMGetArrayLength", "LLVMGetNumArgOperands", "LLVMCountParams", "LLVMGetNSW",
                  "LLVMGetNUW", "LLVMGetExact", "LLVMIsInBounds", "LLVMIsUndef", "LLVMIsPoison",
                  "LLVMIsNull", "LLVMIsConstant", "LLVMGetNumClauses", "LLVMIsCleanup",
                  "LLVMGetNumIndices", "LLVMGetValueKind", "LLVMIsGlobalConstant", "LLVMIsPackedStruct",
                  "LLVMDILocationGetLine", "LLVMGetAtomicRMWBinOp", "LLVMIsConstantString",
                  "LLVMGetAlignment", "LLVMIsThreadLocal", "LLVMGetVectorSize", "LLVMGetLinkage"):
            f(n, U, P)
        f("LLVMGetBasicBlockTerminator", P, P)
        f("LLVMGetIndices", C.POINTER(U), P)
        f("LLVMGetOperand", P, P, U)
        f("LLVMGetSuccessor", P, P, U)
        f("LLVMGetIncomingValue", P, P, U)
        f("LLVMGetIncomingBlock", P, P, U)
        f("LLVMGetParam", P, P, U)
        f("LLVMGetClause", P, P, U)
        f("LLVMStructGetTypeAtIndex", P, P, U)
        f("LLVMGetAggregateElement", P, P, U)
        f("LLVMConstIntGetZExtValue", U64, P)
        f("LLVMConstRealGetDouble", C.c_double, P, C.POINTER(C.c_int))
        f("LLVMGetValueName2", S, P, C.POINTER(C.c_size_t))
        f("LLVMPrintValueToString", P, P)
        f("LLVMPrintTypeToString", P, P)
        f("LLVMDisposeMessage", None, P)
        f("LLVMABISizeOfType", U64, P, P)
        f("LLVMStoreSizeOfType", U64, P, P)
        f("LLVMSizeOfTypeInBits", U64, P, P)
        f("LLVMOffsetOfElement", U64, P, P, U)
        f("LLVMABIAlignmentOfType", U, P, P)
        f("LLVMGetAsString", P, P, C.POINTER(C.c_size_t))
        f("LLVMDIFileGetFilename", P, P, C.POINTER(U))
        f("LLVMGetEnumAttributeKindForName", U, S, C.c_size_t)
        f("LLVMGetEnumAttributeAtIndex", P, P, U, U)
        f("LLVMGetCallSiteEnumAttribute", P, P, U, U)
        f("LLVMGetTypeAttributeValue", P, P)
        f("LLVMBasicBlockAsValue", P, P)
        f("LLVMGetMetadataStringX", P, P) if False else None
    return _L


# opcodes (llvm-c Core.h)
OPC = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke', 7: 'unreachable',
       67: 'callbr', 66: 'fneg', 8: 'add', 9: 'fadd', 10: 'sub', 11: 'fsub', 12: 'mul', 13: 'fmul',
       14: 'udiv', 15: 'sdiv', 16: 'fdiv', 17: 'urem', 18: 'srem', 19: 'frem', 20: 'shl', 21: 'lshr',
       22: 'ashr', 23: 'and', 24: 'or', 25: 'xor', 26: 'alloca', 27: 'load', 28: 'store',
       29: 'getelementptr', 30: 'trunc', 31: 'zext', 32: 'sext', 33: 'fptoui', 34: 'fptosi',
       35: 'uitofp', 36: 'sitofp', 37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint', 40: 'inttoptr',
       41: 'bitcast', 60: 'addrspacecast', 42: 'icmp', 43: 'fcmp', 44: 'phi', 45: 'call',
       46: 'select', 47: 'userop1', 48: 'userop2', 49: 'va_arg', 50: 'extractelement',
       51: 'insertelement', 52: 'shufflevector', 53: 'extractvalue', 54: 'insertvalue',
       68: 'freeze', 55: 'fence', 56: 'cmpxchg', 57: 'atomicrmw', 58: 'resume', 59: 'landingpad',
       61: 'cleanupret', 62: 'catchret', 63: 'catchpad', 64: 'cleanuppad', 65: 'catchswitch'}
ICMP = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
FCMP = ['false', 'oeq', 'ogt', 'oge', 'olt', 'ole', 'one', 'ord', 'uno', 'ueq', 'ugt', 'uge', 'ult', 'ule', 'une', 'true']
# type kinds
TK = {0: 'void', 1: 'half', 2: 'float', 3: 'double', 4: 'x86_fp80', 5: 'fp128', 6: 'ppc', 7: 'label',
      8: 'int', 9: 'function', 10: 'struct', 11: 'array', 12: 'ptr', 13: 'vector', 14: 'metadata',
      15: 'x86_mmx', 16: 'token', 17: 'svector', 18: 'bfloat', 19: 'x86_amx', 20: 'targetext'}


class Ty:
    __slots__ = ('k', 'w', 'size', 'bits', 'elems', 'offs', 'n', 'el', 'align', 'store')

    def __repr__(self):
        if self.k == 'int':
            return 'i%d' % self.w
        if self.k == 'struct':
            return '{%s}' % ','.join(map(repr, self.elems))
        if self.k == 'array':
            return '[%d x %r]' % (self.n, self.el)
        return self.k


class Const:
    """constant operand: kind in int,fp,null,undef,zero,agg,global,expr,blockaddr"""
    __slots__ = ('kind', 'ty', 'v')

    def __init__(self, kind, ty, v=None):
        self.kind = kind
        self.ty = ty
        self.v = v

    def __repr__(self):
        return 'C(%s %r %r)' % (self.kind, self.ty, self.v)


class Instr:
    __slots__ = ('op', 'key', 'ty', 'ops', 'x', 'loc', 'blk')

    def __repr__(self):
        return '%s %s' % (self.op, self.ops)


class Block:
    __slots__ = ('key', 'idx', 'instrs', 'succs', 'phis', 'term')


class Func:
    __slots__ = ('key', 'name', 'ref', 'params', 'blocks', 'entry', 'ptys', 'rty', 'loaded', 'decl', 'vararg', 'rpo', 'byval', 'nparams')

    def __repr__(self):
        return '@' + self.name


class Global:
    __slots__ = ('key', 'name', 'ref', 'const', 'ty', 'init', 'size', 'align', 'ext')

    def __repr__(self):
        return '@' + self.name


class Module:
    def __init__(self, path):
        L = lib()
        self.ctx = L.LLVMContextCreate()
        buf = C.c_void_p()
        err = C.c_void_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(err)):
            raise RuntimeError("cannot read " + path)
        m = C.c_void_p()
        if L.LLVMParseIRInContext(self.ctx, buf, C.byref(m), C.byref(err)):
            raise RuntimeError("cannot parse: " + C.string_at(err.value).decode())
        self.m = m.value
        self.td = L.LLVMGetModuleDataLayout(self.m)
        self.tys = {}
        self.consts = {}
        self.funcs = {}
        self.byname = {}
        self.globals = {}
        self.gbyname = {}
        self.aliases = {}
        self.locs = {}
        self.k_byval = L.LLVMGetEnumAttributeKindForName(b"byval", 5)
        v = L.LLVMGetFirstFunction(self.m)
        while v:
            fn = Func()
            fn.key = v
            fn.ref = v
            fn.name = self.name(v)
            fn.loaded = False
            fn.decl = bool(L.LLVMIsDeclaration(v))
            self.funcs[v] = fn
            self.byname[fn.name] = fn
            v = L.LLVMGetNextFunction(v)
        v = L.LLVMGetFirstGlobal(self.m)
        while v:
            g = Global()
            g.key = v
            g.ref = v
            g.name = self.name(v)
            g.const = bool(L.LLVMIsGlobalConstant(v))
            g.ty = self.ty(L.LLVMGlobalGetValueType(v))
            g.ext = bool(L.LLVMIsDeclaration(v))
            g.init = None
            g.size = g.ty.size
            g.align = L.LLVMGetAlignment(v)
            self.globals[v] = g
            self.gbyname[g.name] = g
            v = L.LLVMGetNextGlobal(v)
        v = L.LLVMGetFirstGlobalAlias(self.m, ) if False else L.LLVMGetFirstGlobalAlias(self.m)
        while v:
            self.aliases[v] = L.LLVMAliasGetAliasee(v)
            v = L.LLVMGetNextGlobalAlias(v)

    def name(self, v):
        n = C.c_size_t()
        s = lib().LLVMGetValueName2(v, C.byref(n))
        return (s or b'').decode()

    def ty(self, t):
        r = self.tys.get(t)
        if r is not None:
            return r
        L = lib()
        r = Ty()
        r.k = TK[L.LLVMGetTypeKind(t)]
        r.w = r.size = r.bits = r.n = r.store = 0
        r.elems = r.offs = r.el = None
        r.align = 1
        if r.k == 'int':
            r.w = L.LLVMGetIntTypeWidth(t)
        elif r.k == 'float':
            r.w = 32
        elif r.k == 'double':
            r.w = 64
        elif r.k == 'ptr':
            r.w = 64
        elif r.k == 'x86_fp80':
            r.w = 80
        if r.k in ('int', 'float', 'double', 'ptr', 'struct', 'array', 'x86_fp80', 'fp128', 'half', 'vector', 'bfloat'):
            try:
                r.size = L.LLVMABISizeOfType(self.td, t)
                r.store = L.LLVMStoreSizeOfType(self.td, t)
                r.align = L.LLVMABIAlignmentOfType(self.td, t)
            except Exception:
                pass
        if r.k == 'struct':
            n = L.LLVMCountStructElementTypes(t)
            r.elems = [self.ty(L.LLVMStructGetTypeAtIndex(t, i)) for i in range(n)]
            r.offs = [L.LLVMOffsetOfElement(self.td, t, i) for i in range(n)]
        elif r.k == 'array':
            r.n = L.LLVMGetArrayLength(t)
            r.el = self.ty(L.LLVMGetElementType(t))
        elif r.k == 'vector':
            r.n = L.LLVMGetVectorSize(t)
            r.el = self.ty(L.LLVMGetElementType(t))
        self.tys[t] = r
        return r

    def global_init(self, g):
        if g.init is None and not g.ext:
            g.init = self.operand(lib().LLVMGetInitializer(g.ref))
        return g.init

    def operand(self, v):
        """-> int key for SSA value, or Const"""
        r = self.consts.get(v)
        if r is not None:
            return r
        L = lib()
        if not L.LLVMIsConstant(v):
            return v
        if v in self.aliases:
            r = self.operand(self.aliases[v])
            self.consts[v] = r
            return r
        if v in self.funcs:
            r = Const('func', None, self.funcs[v])
        elif v in self.globals:
            r = Const('global', None, self.globals[v])
        else:
            ty = self.ty(L.LLVMTypeOf(v))
            vk = L.LLVMGetValueKind(v)
            if L.LLVMIsPoison(v) or L.LLVMIsUndef(v):
                r = Const('undef', ty)
            elif ty.k == 'int':
                opc = None
                if vk == 18 or self._isconstint(v, vk):
                    if ty.w <= 64:
                        r = Const('int', ty, L.LLVMConstIntGetZExtValue(v) & ((1 << ty.w) - 1))
                    else:
                        p = L.LLVMPrintValueToString(v)
                        s = C.string_at(p).decode()
                        L.LLVMDisposeMessage(p)
                        r = Const('int', ty, int(s.split()[1]) & ((1 << ty.w) - 1))
                else:
                    r = self._expr(v, ty)
            elif ty.k in ('float', 'double') and self._is_fp(v):
                lossy = C.c_int()
                p = L.LLVMPrintValueToString(v)
                s = C.string_at(p).decode().split()[1]
                L.LLVMDisposeMessage(p)
                if s.startswith('0x'):
                    bits = int(s, 16)
                    d = struct.unpack('<d', struct.pack('<Q', bits))[0]
                else:
                    d = float(s)
                    bits = struct.unpack('<Q', struct.pack('<d', d))[0]
                if ty.k == 'float':
                    if d != d:
                        b32 = (bits >> 32 & 0x80000000) | 0x7f800000 | ((bits >> 29) & 0x7fffff)
                    else:
                        b32 = struct.unpack('<I', struct.pack('<f', d))[0]
                    r = Const('fp', ty, b32)
                else:
                    r = Const('fp', ty, bits)
            elif L.LLVMIsNull(v):
                r = Const('null' if ty.k == 'ptr' else 'zero', ty)
            elif ty.k in ('struct', 'array', 'vector') :
                n = len(ty.elems) if ty.k == 'struct' else ty.n
                if ty.k == 'array' and ty.el.k == 'int' and ty.el.w == 8 and L.LLVMIsConstantString(v):
                    ln = C.c_size_t()
                    p = L.LLVMGetAsString(v, C.byref(ln))
                    r = Const('str', ty, C.string_at(p, ln.value))
                else:
                    els = []
                    for i in range(n):
                        e = L.LLVMGetAggregateElement(v, i)
                        els.append(self.operand(e))
                    r = Const('agg', ty, els)
            elif ty.k == 'ptr':
                r = self._expr(v, ty)
            elif ty.k == 'x86_fp80':
                r = Const('fp80', ty, None)
            elif ty.k in ('metadata', 'token'):
                r = Const('meta', ty)
            else:
                r = Const('unknown', ty)
        self.consts[v] = r
        return r

    def _isconstint(self, v, vk):
        p = lib().LLVMPrintValueToString(v)
        s = C.string_at(p).decode()
        lib().LLVMDisposeMessage(p)
        t = s.split()
        if len(t) == 2:
            x = t[1]
            return x.lstrip('-').isdigit() or x in ('true', 'false')
        return False

    def _is_fp(self, v):
        p = lib().LLVMPrintValueToString(v)
        s = C.string_at(p).decode().split()
        lib().LLVMDisposeMessage(p)
        if len(s) != 2:
            return False
        try:
            if s[1].startswith('0x'):
                int(s[1], 16)
            else:
                float(s[1])
            return True
        except ValueError:
            return False

    def _expr(self, v, ty):
        L = lib()
        opc = OPC.get(L.LLVMGetConstOpcode(v), '?')
        ops = [self.operand(L.LLVMGetOperand(v, i)) for i in range(L.LLVMGetNumOperands(v))]
        x = None
        if opc == 'getelementptr':
            x = self.ty(L.LLVMGetGEPSourceElementType(v))
        return Const('expr', ty, (opc, ops, x))

    def loc(self, v):
        """location chain string 'file:line' innermost first"""
        L = lib()
        d = L.LLVMInstructionGetDebugLoc(v)
        if not d:
            return None
        r = self.locs.get(d)
        if r is None:
            out = []
            cur = d
            while cur and len(out) < 12:
                line = L.LLVMDILocationGetLine(cur)
                sc = L.LLVMDILocationGetScope(cur)
                fl = L.LLVMDIScopeGetFile(sc) if sc else None
                fn = '?'
                if fl:
                    n = C.c_uint()
                    p = L.LLVMDIFileGetFilename(fl, C.byref(n))
                    fn = C.string_at(p, n.value).decode() if p and n.value else '?'
                out.append((fn, line))
                cur = L.LLVMDILocationGetInlinedAt(cur)
            r = tuple(out)
            self.locs[d] = r
        return r

    def load(self, fn):
        if fn.loaded:
            return fn
        L = lib()
        fn.loaded = True
        n = L.LLVMCountParams(fn.ref)
        fn.params = [L.LLVMGetParam(fn.ref, i) for i in range(n)]
        fn.nparams = n
        fn.ptys = [self.ty(L.LLVMTypeOf(p)) for p in fn.params]
        fn.byval = {}
        for i in range(n):
            a = L.LLVMGetEnumAttributeAtIndex(fn.ref, i + 1, self.k_byval)
            if a:
                fn.byval[i] = self.ty(L.LLVMGetTypeAttributeValue(a))
        fn.rty = self.ty(L.LLVMGetReturnType(L.LLVMGlobalGetValueType(fn.ref)))
        fn.blocks = {}
        b = L.LLVMGetFirstBasicBlock(fn.ref)
        fn.entry = b
        idx = 0
        while b:
            blk = Block()
            blk.key = b
            blk.idx = idx
            idx += 1
            blk.instrs = []
            blk.phis = []
            i = L.LLVMGetFirstInstruction(b)
            while i:
                ins = self.instr(i, b)
                if ins is not None:
                    if ins.op == 'phi':
                        blk.phis.append(ins)
                    else:
                        blk.instrs.append(ins)
                i = L.LLVMGetNextInstruction(i)
            t = L.LLVMGetBasicBlockTerminator(b)
            blk.term = blk.instrs[-1]
            blk.succs = [L.LLVMGetSuccessor(t, k) for k in range(L.LLVMGetNumSuccessors(t))]
            fn.blocks[b] = blk
            b = L.LLVMGetNextBasicBlock(b)
        return fn

    def instr(self, i, b):
        L = lib()
        ins = Instr()
        op = OPC[L.LLVMGetInstructionOpcode(i)]
        ins.op = op
        ins.key = i
        ins.blk = b
        ins.ty = self.ty(L.LLVMTypeOf(i))
        ins.x = None
        ins.loc = None
        if op == 'phi':
            n = L.LLVMCountIncoming(i)
            ins.ops = [(self.operand(L.LLVMGetIncomingValue(i, k)), L.LLVMGetIncomingBlock(i, k)) for k in range(n)]
            return ins
        if op in ('call', 'invoke'):
            callee = L.LLVMGetCalledValue(i)
            co = self.operand(callee)
            if isinstance(co, Const) and co.kind == 'func':
                nm = co.v.name
                if nm.startswith('llvm.dbg.') or nm.startswith('llvm.experimental.noalias'):
                    return None
            na = L.LLVMGetNumArgOperands(i)
            ins.ops = [self.operand(L.LLVMGetOperand(i, k)) for k in range(na)]
            bv = {}
            for k in range(na):
                a = L.LLVMGetCallSiteEnumAttribute(i, k + 1, self.k_byval)
                if a:
                    bv[k] = self.ty(L.LLVMGetTypeAttributeValue(a))
            nd = ud = None
            if op == 'invoke':
                nd = L.LLVMGetNormalDest(i)
                ud = L.LLVMGetUnwindDest(i)
            ptys = [self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, k))) for k in range(na)]
            ins.x = (co, nd, ud, bv, ptys)
        elif op == 'br':
            if L.LLVMIsConditional(i):
                ins.ops = [self.operand(L.LLVMGetCondition(i))]
                ins.x = (L.LLVMGetSuccessor(i, 0), L.LLVMGetSuccessor(i, 1))
            else:
                ins.ops = []
                ins.x = (L.LLVMGetSuccessor(i, 0),)
        elif op == 'switch':
            n = L.LLVMGetNumOperands(i)
            ins.ops = [self.operand(L.LLVMGetOperand(i, 0))]
            cases = []
            k = 2
            s = 1
            while k < n:
                cases.append((self.operand(L.LLVMGetOperand(i, k)).v, L.LLVMGetSuccessor(i, s)))
                k += 2
                s += 1
            ins.x = (L.LLVMGetSwitchDefaultDest(i), cases, self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, 0))))
        else:
            n = L.LLVMGetNumOperands(i)
            ins.ops = [self.operand(L.LLVMGetOperand(i, k)) for k in range(n)] if op != 'landingpad' else []
            if op == 'icmp':
                ins.x = (ICMP[L.LLVMGetICmpPredicate(i)], self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, 0))))
            elif op == 'fcmp':
                ins.x = (FCMP[L.LLVMGetFCmpPredicate(i)], self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, 0))))
            elif op == 'getelementptr':
                ins.x = (self.ty(L.LLVMGetGEPSourceElementType(i)), bool(L.LLVMIsInBounds(i)),
                         [self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, k))) for k in range(n)])
            elif op == 'alloca':
                ins.x = self.ty(L.LLVMGetAllocatedType(i))
            elif op in ('add', 'sub', 'mul', 'shl'):
                ins.x = (bool(L.LLVMGetNSW(i)), bool(L.LLVMGetNUW(i)))
            elif op in ('sdiv', 'udiv', 'ashr', 'lshr'):
                ins.x = bool(L.LLVMGetExact(i))
            elif op in ('extractvalue', 'insertvalue'):
                ni = L.LLVMGetNumIndices(i)
                p = L.LLVMGetIndices(i)
                ins.x = [p[k] for k in range(ni)]
            elif op == 'landingpad':
                nc = L.LLVMGetNumClauses(i)
                ins.x = ([self.operand(L.LLVMGetClause(i, k)) for k in range(nc)], bool(L.LLVMIsCleanup(i)))
            elif op in ('trunc', 'zext', 'sext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'fptrunc', 'fpext',
                        'ptrtoint', 'inttoptr', 'bitcast', 'freeze'):
                ins.x = self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, 0)))
            elif op == 'store':
                ins.x = self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, 0)))
            elif op == 'atomicrmw':
                ins.x = (L.LLVMGetAtomicRMWBinOp(i), self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, 1))))
            elif op == 'cmpxchg':
                ins.x = self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, 1)))
            elif op == 'ret':
                pass
        ins.loc = self.loc(i)
        return ins
