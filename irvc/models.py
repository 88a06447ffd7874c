"""Models of LLVM intrinsics, the C/C++ run time and the contract API (vc_*).
Everything modelled here instead of being executed is reported as trusted."""
import re
import z3
from .sym import *
from .mem import *
from .llvm import Const

RNE = z3.RNE()


def ok(st, v=None):
    return st, v, []


# ------------------------------------------------------------------ intrinsics
INTR = {}


def intr(*names):
    def d(f):
        for n in names:
            INTR[n] = f
        return f
    return d


_ic = {}


def intrinsic(nm):
    if nm in _ic:
        return _ic[nm]
    parts = nm.split('.')
    f = None
    for k in range(len(parts), 1, -1):
        f = INTR.get('.'.join(parts[1:k]))
        if f:
            break
    _ic[nm] = f
    return f


def A(ex, act, ins, i):
    return ex.val(act, ins.ops[i])


def AI(ex, act, ins, i):
    return ex.toint(ex.val(act, ins.ops[i]))


@intr('lifetime.start')
def _(ex, act, ins, st):
    p = A(ex, act, ins, 1)
    for c, o, f in p.alts:
        if o is not None and o.kind == 'stack':
            st.mem[o] = (True, CellC())
    return ok(st)


@intr('lifetime.end')
def _(ex, act, ins, st):
    p = A(ex, act, ins, 1)
    for c, o, f in p.alts:
        if o is not None and o.kind == 'stack' and o in st.mem:
            if len(p.alts) == 1:
                st.mem[o] = (False, st.mem[o][1])
    return ok(st)


@intr('assume')
def _(ex, act, ins, st):
    c = A(ex, act, ins, 0)
    if c is True:
        return ok(st)
    # DAW_ATTRIB / __builtin_assume: must be true, otherwise undefined behaviour
    ex.oblige(st, 'assume', 'compiler assumption holds', c, ins)
    st.assume(c)
    return ok(st)


@intr('expect', 'expect.with.probability', 'launder.invariant.group', 'strip.invariant.group', 'ssa.copy',
      'ptr.annotation', 'annotation')
def _(ex, act, ins, st):
    return ok(st, A(ex, act, ins, 0))


@intr('donothing', 'experimental.noalias.scope.decl', 'invariant.end', 'sideeffect', 'prefetch', 'stackrestore',
      'var.annotation', 'pseudoprobe')
def _(ex, act, ins, st):
    return ok(st)


@intr('invariant.start')
def _(ex, act, ins, st):
    return ok(st, NULL)


@intr('stacksave')
def _(ex, act, ins, st):
    return ok(st, NULL)


@intr('trap', 'ubsantrap')
def _(ex, act, ins, st):
    ex.oblige(st, 'trap', 'trap reached', False, ins)
    return None, None, []


@intr('is.constant')
def _(ex, act, ins, st):
    return ok(st, False)


@intr('objectsize')
def _(ex, act, ins, st):
    mn = A(ex, act, ins, 1)
    return ok(st, 0 if mn else mask(64))


@intr('memcpy', 'memmove', 'memcpy.inline')
def _(ex, act, ins, st):
    ex.memcpy(st, A(ex, act, ins, 0), A(ex, act, ins, 1), A(ex, act, ins, 2), ins)
    return ok(st)


@intr('memset', 'memset.inline')
def _(ex, act, ins, st):
    ex.memset(st, A(ex, act, ins, 0), AI(ex, act, ins, 1), alloc_size(st, A(ex, act, ins, 2), ex), ins)
    return ok(st)


@intr('eh.typeid.for')
def _(ex, act, ins, st):
    o = ins.ops[0]
    n = o.v.name if isinstance(o, Const) and o.kind == 'global' else 'null'
    return ok(st, ex.tid(n))


def popcount(x, w):
    if isinstance(x, int):
        return bin(x).count('1')
    # parallel count
    v = bv(0, w)
    for i in range(w):
        b = z3.Extract(i, i, x)
        v = v + (z3.ZeroExt(w - 1, b) if w > 1 else b)
    return v


@intr('ctpop')
def _(ex, act, ins, st):
    return ok(st, popcount(AI(ex, act, ins, 0), ins.ty.w))


@intr('ctlz')
def _(ex, act, ins, st):
    x = AI(ex, act, ins, 0)
    w = ins.ty.w
    if A(ex, act, ins, 1) is True:
        ex.oblige(st, 'arith', 'ctlz of zero', cmp('ne', x, 0, w), ins)
    if isinstance(x, int):
        return ok(st, w - x.bit_length())
    r = bv(w, w)
    for i in range(w):
        r = z3.If(z3.Extract(i, i, x) == 1, bv(w - 1 - i, w), r)
    return ok(st, r)


@intr('cttz')
def _(ex, act, ins, st):
    x = AI(ex, act, ins, 0)
    w = ins.ty.w
    if A(ex, act, ins, 1) is True:
        ex.oblige(st, 'arith', 'cttz of zero', cmp('ne', x, 0, w), ins)
    if isinstance(x, int):
        return ok(st, (x & -x).bit_length() - 1 if x else w)
    r = bv(w, w)
    for i in range(w - 1, -1, -1):
        r = z3.If(z3.Extract(i, i, x) == 1, bv(i, w), r)
    return ok(st, r)


@intr('bswap')
def _(ex, act, ins, st):
    x = AI(ex, act, ins, 0)
    w = ins.ty.w
    n = w // 8
    return ok(st, concat([(extract(x, i * 8 + 7, i * 8, w), 8) for i in range(n)]))


@intr('bitreverse')
def _(ex, act, ins, st):
    x = AI(ex, act, ins, 0)
    w = ins.ty.w
    if isinstance(x, int):
        return ok(st, int(format(x, '0%db' % w)[::-1], 2))
    return ok(st, z3.Concat(*[z3.Extract(i, i, x) for i in range(w)]))


@intr('fshl', 'fshr')
def _(ex, act, ins, st):
    a, b, s = (AI(ex, act, ins, i) for i in range(3))
    w = ins.ty.w
    left = 'fshl' in ins.x[0].v.name
    if isinstance(s, int):
        s %= w
        if s == 0:
            return ok(st, a if left else b)
        k = s if left else w - s
        return ok(st, concat([(extract(a, w - 1 - k, 0, w), w - k), (extract(b, w - 1, w - k, w), k)]))
    s2 = z3.URem(s, bv(w, w))
    cc = z3.Concat(bv(a, w), bv(b, w))
    if left:
        r = z3.Extract(2 * w - 1, w, cc << z3.ZeroExt(w, s2))
    else:
        r = z3.Extract(w - 1, 0, z3.LShR(cc, z3.ZeroExt(w, s2)))
    return ok(st, r)


def _mm(pred):
    def f(ex, act, ins, st):
        a, b = AI(ex, act, ins, 0), AI(ex, act, ins, 1)
        w = ins.ty.w
        return ok(st, ite(cmp(pred, a, b, w), a, b, w))
    return f


INTR['umin'] = _mm('ult')
INTR['umax'] = _mm('ugt')
INTR['smin'] = _mm('slt')
INTR['smax'] = _mm('sgt')


@intr('abs')
def _(ex, act, ins, st):
    a = AI(ex, act, ins, 0)
    w = ins.ty.w
    if A(ex, act, ins, 1) is True:
        ex.oblige(st, 'arith', 'abs of the minimum value', cmp('ne', a, 1 << (w - 1), w), ins)
    return ok(st, ite(cmp('slt', a, 0, w), sub(0, a, w), a, w))


def _wo(op, signed):
    def f(ex, act, ins, st):
        a, b = AI(ex, act, ins, 0), AI(ex, act, ins, 1)
        w = ins.ty.elems[0].w
        r = {'add': add, 'sub': sub, 'mul': mul}[op](a, b, w)
        if isinstance(a, int) and isinstance(b, int):
            x, y = (sgn(a, w), sgn(b, w)) if signed else (a, b)
            t = {'add': x + y, 'sub': x - y, 'mul': x * y}[op]
            o = not (-(1 << (w - 1)) <= t < (1 << (w - 1))) if signed else not (0 <= t <= mask(w))
            return ok(st, Agg((r, o)))
        X, Y = bv(a, w), bv(b, w)
        if signed:
            n = {'add': lambda: z3.And(z3.BVAddNoOverflow(X, Y, True), z3.BVAddNoUnderflow(X, Y)),
                 'sub': lambda: z3.And(z3.BVSubNoOverflow(X, Y), z3.BVSubNoUnderflow(X, Y, True)),
                 'mul': lambda: z3.And(z3.BVMulNoOverflow(X, Y, True), z3.BVMulNoUnderflow(X, Y))}[op]()
        else:
            n = {'add': lambda: z3.BVAddNoOverflow(X, Y, False), 'sub': lambda: z3.BVSubNoUnderflow(X, Y, False),
                 'mul': lambda: z3.BVMulNoOverflow(X, Y, False)}[op]()
        return ok(st, Agg((r, z3.Not(n))))
    return f


for _o in ('add', 'sub', 'mul'):
    INTR['s%s.with.overflow' % _o] = _wo(_o, True)
    INTR['u%s.with.overflow' % _o] = _wo(_o, False)


@intr('uadd.sat')
def _(ex, act, ins, st):
    a, b = AI(ex, act, ins, 0), AI(ex, act, ins, 1)
    w = ins.ty.w
    r = add(a, b, w)
    return ok(st, ite(cmp('ult', r, a, w), mask(w), r, w))


@intr('usub.sat')
def _(ex, act, ins, st):
    a, b = AI(ex, act, ins, 0), AI(ex, act, ins, 1)
    w = ins.ty.w
    return ok(st, ite(cmp('ult', a, b, w), 0, sub(a, b, w), w))


@intr('fabs')
def _(ex, act, ins, st):
    w = ins.ty.w
    return ok(st, ex.binop('and', AI(ex, act, ins, 0), mask(w - 1), w, None, None, None))


@intr('copysign')
def _(ex, act, ins, st):
    w = ins.ty.w
    a, b = AI(ex, act, ins, 0), AI(ex, act, ins, 1)
    return ok(st, concat([(extract(b, w - 1, w - 1, w), 1), (extract(a, w - 2, 0, w), w - 1)]))


def _round(mode):
    def f(ex, act, ins, st):
        w = ins.ty.w
        a = AI(ex, act, ins, 0)
        m = {'floor': z3.RTN, 'ceil': z3.RTP, 'trunc': z3.RTZ, 'rint': z3.RNE, 'round': z3.RNA}[mode]()
        return ok(st, ex.unfp(z3.fpRoundToIntegral(m, ex.fp(a, w)), w))
    return f


for _n, _m in (('floor', 'floor'), ('ceil', 'ceil'), ('trunc', 'trunc'), ('rint', 'rint'), ('nearbyint', 'rint'),
               ('round', 'round'), ('roundeven', 'rint')):
    INTR[_n] = _round(_m)


@intr('sqrt')
def _(ex, act, ins, st):
    w = ins.ty.w
    return ok(st, ex.unfp(z3.fpSqrt(RNE, ex.fp(AI(ex, act, ins, 0), w)), w))


@intr('fma', 'fmuladd')
def _(ex, act, ins, st):
    w = ins.ty.w
    a, b, c = (AI(ex, act, ins, i) for i in range(3))
    if 'fmuladd' in ins.x[0].v.name:
        return ok(st, ex.fbin('fadd', ex.fbin('fmul', a, b, w), c, w))
    return ok(st, ex.unfp(z3.fpFMA(RNE, ex.fp(a, w), ex.fp(b, w), ex.fp(c, w)), w))


@intr('is.fpclass')
def _(ex, act, ins, st):
    a = AI(ex, act, ins, 0)
    t = AI(ex, act, ins, 1)
    w = ins.x[4][0].w
    F = ex.fp(a, w)
    eb = 11 if w == 64 else 8
    mb = w - 1 - eb
    neg = cmp('eq', extract(a, w - 1, w - 1, w), 1, 1) if False else i2b(extract(a, w - 1, w - 1, w))
    q = i2b(extract(a, mb - 1, mb - 1, w))
    nan, inf, zero, sub_, nrm = z3.fpIsNaN(F), z3.fpIsInf(F), z3.fpIsZero(F), z3.fpIsSubnormal(F), z3.fpIsNormal(F)
    tests = [(1, And(nan, Not(q))), (2, And(nan, q)), (4, And(inf, neg)), (8, And(nrm, neg)), (16, And(sub_, neg)),
             (32, And(zero, neg)), (64, And(zero, Not(neg))), (128, And(sub_, Not(neg))), (256, And(nrm, Not(neg))),
             (512, And(inf, Not(neg)))]
    return ok(st, Or(*[c for b, c in tests if t & b]))


@intr('minnum', 'maxnum')
def _(ex, act, ins, st):
    w = ins.ty.w
    a, b = AI(ex, act, ins, 0), AI(ex, act, ins, 1)
    mn = 'minnum' in ins.x[0].v.name
    na = ex.fcmp('uno', a, a, w)
    nb = ex.fcmp('uno', b, b, w)
    c = ex.fcmp('olt' if mn else 'ogt', b, a, w)
    return ok(st, ite(nb, a, ite(na, b, ite(c, b, a, w), w), w))


# ------------------------------------------------------------------ run time
RT = {}


def rt(*names):
    def d(f):
        for n in names:
            RT[n] = f
        return f
    return d


def lookup(ex, fn):
    f = RT.get(fn.name)
    if f is not None:
        return f
    n = fn.name
    if n.startswith('_ZSt') and '__throw_' in n:
        return std_throw
    if re.match(r'_ZNSt(9exception|13runtime_error|11logic_error|12out_of_range|12length_error|16invalid_argument|'
                r'12domain_error|14overflow_error|15underflow_error|11range_error|9bad_alloc|20bad_array_new_length)[CD]\d', n):
        return exc_ctor
    if fn.decl and re.match(r'_ZNKSt\d+\w+4whatEv', n):
        return None
    return None


def exc_ctor(ex, act, ins, st, args):
    ex.assumptions.add('standard exception constructors/destructors have no effect beyond the exception object')
    return ok(st)


_THROWT = {'out_of_range': '_ZTISt12out_of_range', 'out_of_range_fmt': '_ZTISt12out_of_range',
           'length_error': '_ZTISt12length_error', 'logic_error': '_ZTISt11logic_error',
           'bad_alloc': '_ZTISt9bad_alloc', 'bad_array_new_length': '_ZTISt20bad_array_new_length',
           'bad_function_call': '_ZTISt17bad_function_call', 'invalid_argument': '_ZTISt16invalid_argument',
           'runtime_error': '_ZTISt13runtime_error', 'domain_error': '_ZTISt12domain_error',
           'bad_optional_access': '_ZTISt19bad_optional_access', 'bad_variant_access': '_ZTISt18bad_variant_access',
           'overflow_error': '_ZTISt14overflow_error', 'system_error': '_ZTISt12system_error'}


def std_throw(ex, act, ins, st, args):
    fn = ins.x[0].v.name
    m = re.search(r'__throw_([a-z_]+?)(PKc|v|i|PKcz|b|jPKc|RK|$)', fn)
    nm = m.group(1) if m else 'logic_error'
    for k in sorted(_THROWT, key=len, reverse=True):
        if '__throw_' + k in fn:
            nm = k
            break
    t = _THROWT.get(nm)
    if t is None:
        raise Unsupported('throw function ' + fn)
    ex.throw(st, t)
    return None, None, [st]


def alloc_size(st, n, ex=None):
    """new T[k]: the size is -1 when it overflows; such an allocation does not succeed"""
    if not isinstance(n, int) and z3.is_app_of(n, z3.Z3_OP_ITE) and z3.is_bv_value(n.arg(1)) and n.arg(1).as_long() == mask(64):
        if ex is None:
            st.assume(Not(n.arg(0)))
        elif ex.feasible(st, n.arg(0)):
            return n
        return n.arg(2)
    return n


def scale_of(fn, ins, i):
    """the constant C of an allocation of x * C bytes, 0 when it has another form"""
    k = ins.ops[i] if i < len(ins.ops) else None
    if not isinstance(k, int):
        return 0
    for b in fn.blocks.values():
        for d in b.instrs:
            if d.key == k:
                if d.op in ('mul', 'shl') and not isinstance(d.ops[1], int) and d.ops[1].kind == 'int':
                    return d.ops[1].v if d.op == 'mul' else 1 << d.ops[1].v
                return 0
    return 0


@rt('_Znwm', '_Znam', '_ZnwmSt11align_val_t', '_ZnamSt11align_val_t', 'malloc', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t', 'aligned_alloc')
def op_new(ex, act, ins, st, args):
    nm = ins.x[0].v.name
    n = ex.toint(args[0] if nm != 'aligned_alloc' else args[1])
    ex.assumptions.add('memory allocation succeeds')
    n = alloc_size(st, n)
    if st.dead:
        return None, None, []
    if isinstance(n, int):
        if n > 1 << 20:
            ex.throw(st, '_ZTISt9bad_alloc')
            return None, None, [st]
        o = ex.new_obj(st, 'heap%d' % (len(ex.heap) + 1), 'heap', n)
    else:
        st.assume(cmp('ult', n, 1 << 46, 64))
        if st.dead:
            return None, None, []
        o = ex.new_obj(st, 'heap%d' % (len(ex.heap) + 1), 'heap', n)
        # a byte count that fixes no element size (e.g. an opaque variable): byte array
        ex.fix_es(o, scale_of(act.fn, ins, 0 if nm != 'aligned_alloc' else 1))
    o.owner = 'malloc' if nm in ('malloc', 'aligned_alloc') else ('new[]' if nm.startswith('_Zna') else 'new')
    ex.heap.append(o)
    return ok(st, Ptr([(True, o, 0)]))


@rt('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t', '_ZdaPvSt11align_val_t',
    '_ZdaPvmSt11align_val_t', 'free')
def op_delete(ex, act, ins, st, args):
    nm = ins.x[0].v.name
    kind = 'malloc' if nm == 'free' else 'new[]' if nm.startswith('_Zda') else 'new'
    p = args[0]
    single = len(p.alts) == 1
    for c, o, f in p.alts:
        s2 = State_(st)
        s2.assume(c)
        if s2.dead:
            continue
        if o is None:
            ex.oblige(s2, 'memory', 'delete of an invalid pointer', cmp('eq', f, 0, 64), ins)
            continue
        if o.kind != 'heap':
            ex.oblige(s2, 'memory', 'delete of a pointer not obtained from new (%s)' % o.name, False, ins)
            continue
        ex.oblige(s2, 'memory', 'double delete', ex.alive(st, o), ins)
        ex.oblige(s2, 'memory', 'delete of an interior pointer', cmp('eq', f, 0, 64), ins)
        if o.owner != kind:
            ex.oblige(s2, 'memory', 'mismatched new/delete', False, ins)
        if len(args) > 1 and nm in ('_ZdlPvm', '_ZdaPvm', '_ZdlPvmSt11align_val_t', '_ZdaPvmSt11align_val_t'):
            n = ex.toint(args[1])
            if not same(n, o.size):
                ex.oblige(s2, 'memory', 'sized delete with the allocated size', cmp('eq', n, o.size, 64), ins)
        e = st.mem.get(o)
        al = And(ex.alive(st, o), Not(c)) if not single else False
        st.mem[o] = (al, e[1])
    return ok(st)


def State_(st):
    from .exec import State
    return State(st.pc, st.mem, None, st.caught, st.unc)


@rt('__cxa_allocate_exception')
def _(ex, act, ins, st, args):
    n = args[0]
    o = ex.new_obj(st, 'exception', 'exc', n)
    o.mergeable = False
    return ok(st, Ptr([(True, o, 0)]))


@rt('__cxa_free_exception')
def _(ex, act, ins, st, args):
    return ok(st)


@rt('__cxa_throw')
def _(ex, act, ins, st, args):
    t = None
    for c, o, f in args[1].alts:
        t = o.name
    o = args[0].alts[0][1]
    ex.throw(st, t, o)
    return None, None, [st]


@rt('__cxa_begin_catch')
def _(ex, act, ins, st, args):
    st.caught = st.caught + (args[0],)
    st.unc = sub(st.unc, 1, 32)
    return ok(st, args[0])


@rt('_ZSt19uncaught_exceptionsv')
def _(ex, act, ins, st, args):
    return ok(st, st.unc)


@rt('__cxa_get_exception_ptr')
def _(ex, act, ins, st, args):
    return ok(st, args[0])


# std::exception_ptr: exception objects are never reclaimed, the reference
# count is left out
_PTRT = None


def _ptrt():
    global _PTRT
    if _PTRT is None:
        from .llvm import Ty
        _PTRT = Ty()
        _PTRT.k, _PTRT.w, _PTRT.size, _PTRT.bits, _PTRT.align, _PTRT.store = 'ptr', 64, 8, 64, 8, 8
    return _PTRT


@rt('_ZSt17current_exceptionv')
def _(ex, act, ins, st, args):
    ex.store(st, args[0], st.caught[-1] if st.caught else NULL, _ptrt(), ins)
    return ok(st)


@rt('_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv', '_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv')
def _(ex, act, ins, st, args):
    ex.assumptions.add('exception objects held by std::exception_ptr are never reclaimed')
    return ok(st)


@rt('_ZNSt15__exception_ptr13exception_ptrC1EPv', '_ZNSt15__exception_ptr13exception_ptrC2EPv')
def _(ex, act, ins, st, args):
    ex.store(st, args[0], args[1], _ptrt(), ins)
    return ok(st)


@rt('__cxa_init_primary_exception')
def _(ex, act, ins, st, args):
    for c, o, f in args[0].alts:
        for c2, t, f2 in args[1].alts:
            o.owner = t.name
    return ok(st, args[0])


@rt('_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE')
def _(ex, act, ins, st, args):
    p = ex.load(st, args[0], _ptrt(), ins)
    for c, o, f in p.alts:
        if o is None:
            ex.oblige(st, 'terminate', 'rethrow of a null exception_ptr', Not(c), ins)
            st.assume(Not(c))
    st.exc = Ptr([a for a in p.alts if a[1] is not None])
    if not st.exc.alts:
        return None, None, []
    return None, None, [st]


@rt('__cxa_end_catch')
def _(ex, act, ins, st, args):
    st.caught = st.caught[:-1]
    return ok(st)


@rt('__cxa_rethrow')
def _(ex, act, ins, st, args):
    if not st.caught:
        ex.oblige(st, 'terminate', 'rethrow without an exception', False, ins)
        return None, None, []
    st.exc = st.caught[-1]
    st.unc = add(st.unc, 1, 32)
    return None, None, [st]


@rt('_ZSt9terminatev', 'abort', '__clang_call_terminate', 'exit', '_exit', '__cxa_pure_virtual', '__assert_fail',
    '__cxa_call_unexpected', '_ZSt21__glibcxx_assert_failPKciS0_S0_', '__stack_chk_fail', 'quick_exit', '_ZSt10unexpectedv')
def _(ex, act, ins, st, args):
    if ex.opts.get('terminate') and ins.x[0].v.name in ('_ZSt9terminatev', '__clang_call_terminate'):
        return None, None, []   # the contract expects std::terminate here: the path ends
    if ex.opts.get('abort') and ins.x[0].v.name == 'abort':
        return None, None, []   # likewise std::abort
    ex.oblige(st, 'terminate', 'program terminates (%s)' % ins.x[0].v.name, False, ins)
    return None, None, []


@rt('__cxa_atexit', '__cxa_thread_atexit')
def _(ex, act, ins, st, args):
    return ok(st, 0)


@rt('__cxa_guard_acquire')
def _(ex, act, ins, st, args):
    v = ex.load(st, args[0], _U8, ins)
    if isinstance(v, int):
        return ok(st, 0 if v else 1)
    return ok(st, ite(cmp('eq', v, 0, 8), 1, 0, 32))


class _T:
    pass


def _mkint(w):
    t = _T()
    t.k = 'int'
    t.w = w
    t.size = t.store = max(1, w // 8)
    t.el = None
    t.elems = t.offs = None
    t.n = 0
    t.align = t.size
    return t


_U8 = _mkint(8)
_U32 = _mkint(32)
_U64 = _mkint(64)


@rt('__cxa_guard_release')
def _(ex, act, ins, st, args):
    ex.store(st, args[0], 1, _U8, ins)
    return ok(st)


@rt('__cxa_guard_abort')
def _(ex, act, ins, st, args):
    return ok(st)


@rt('__errno_location')
def _(ex, act, ins, st, args):
    o = ex.globs.get('errno')
    if o is None:
        o = ex.globs['errno'] = Obj('errno', 'global', 4, align=4)
        o.init = CellC({0: (4, 0)})
    return ok(st, Ptr([(True, o, 0)]))


# ---- string.h: contracts of the C library, used at every call
def at(ex, st, content, o, f, i, es=1):
    return ex.read_raw(content, o, add(f, mul(i, es, 64), 64), es)


def lane_lemma(ex, st, o, f, lem, content=None):
    """register `lem(ex, idx)` (idx = element index in o) on every base lane under the content of o"""
    content = content if content is not None else ex.content(st, o)
    add_lane_lemma(ex, content, o, lem)


def base_lanes(l, out):
    while True:
        if isinstance(l, BaseLane):
            out.add(l)
            return
        if isinstance(l, UpdLane):
            l = l.prev
        elif isinstance(l, RngLane):
            l = l.prev
        elif isinstance(l, IteLane):
            base_lanes(l.a, out)
            l = l.b
        else:
            return


def add_lane_lemma(ex, content, o, lem):
    if isinstance(content, ArrC):
        key = (0, o.es)
        l = content.lane(key)
        bl = set()
        base_lanes(l, bl)
        for b in bl:
            b.add_lemma(ex, lem)
        ex.any_lemmas = True
        ex.watch(lem)
    else:
        for i in range(o.size // (o.es or 1)):
            lem(ex, i)


def mem_lemma(ex, st, p, n, what, ins, pred, es=1):
    """pred(value_at_index, index) for every index in [0,n): a quantified fact, instantiated at every read of
    the underlying array and at the ghost indices"""


def libc_key(ex, name, *xs):
    """the C library functions are functions: same contents and arguments, same result"""
    key = [name]
    for x in xs:
        if isinstance(x, int):
            key.append(x)
        else:
            ex.keep.append(x)
            key.append(('z', z3.simplify(x).get_id()) if isinstance(x, z3.ExprRef) else ('o', id(x)))
            if isinstance(x, z3.ExprRef):
                ex.keep.append(z3.simplify(x))
    return tuple(key)


def libc_fn(ex, name, objs, args, w):
    """result of the library function as an uninterpreted function of its arguments (per array contents)"""
    for x in objs:
        ex.keep.append(x)
    key = (name, w) + tuple(id(x) for x in objs)
    f = ex.libc_cache.get(key)
    if f is None:
        f = ex.libc_cache[key] = z3.Function(fresh_name(name), *[z3.BitVecSort(aw) for _, aw in args], z3.BitVecSort(w) if w > 1 else z3.BoolSort())
    return f(*[bv(a, aw) for a, aw in args])


@rt('memchr', 'wmemchr')
def c_memchr(ex, act, ins, st, args):
    p, ch, n = args[0], ex.toint(args[1]), ex.toint(args[2])
    es = 4 if ins.x[0].v.name == 'wmemchr' else 1
    ch = trunc(ch, 32, 8 * es)
    if isinstance(n, int) and n == 0:
        return ok(st, NULL)
    nb = mul(n, es, 64)
    alts = ex.mem_range(st, p, nb, 'read', ins)
    if not alts:
        return ok(st, NULL)
    if len(alts) > 1:
        raise Unsupported('memchr over several objects')
    c, o, f = alts[0]
    content = ex.content(st, o)
    key = libc_key(ex, 'memchr%d' % es, content, o, f, ch, n)
    if key in ex.libc_cache:
        return ok(st, ex.libc_cache[key])
    r = libc_fn(ex, 'memchr', (content, o), [(f, 64), (ch, 8 * es), (n, 64)], 64)
    found = cmp('ult', r, n, 64)
    ex.fact(cmp('ule', r, n, 64))
    ex.fact(Implies(found, cmp('eq', at(ex, st, content, o, f, r, es), ch, 8 * es)))

    def lem(e, j):
        e.fact(Implies(cmp('ult', j, r, 64), cmp('ne', at(e, st, content, o, f, j, es), ch, 8 * es)))
    ex.rel_lemma(content, o, f, es, lem)
    ex.assumptions.add('C library contract: memchr')
    res = ex.libc_cache[key] = Ptr([(found, o, add(f, mul(r, es, 64), 64)), (Not(found), None, 0)])
    return ok(st, res)


@rt('memcmp', 'bcmp', 'wmemcmp')
def c_memcmp(ex, act, ins, st, args):
    p, q, n = args[0], args[1], ex.toint(args[2])
    es = 4 if ins.x[0].v.name == 'wmemcmp' else 1
    if isinstance(n, int) and n == 0:
        return ok(st, 0)
    nb = mul(n, es, 64)
    pa = ex.mem_range(st, p, nb, 'read', ins)
    qa = ex.mem_range(st, q, nb, 'read', ins)
    if not pa or not qa:
        return ok(st, 0)
    if len(pa) > 1 or len(qa) > 1:
        if isinstance(n, int) and n <= 16:
            r = 0
            for i in reversed(range(n)):
                x = ex.load(st, ex.padd(p, i), _U8, None, False)
                y = ex.load(st, ex.padd(q, i), _U8, None, False)
                r = ite(cmp('eq', x, y, 8), r, ite(cmp('ult', x, y, 8), mask(32), 1, 32), 32)
            return ok(st, r)
        raise Unsupported('memcmp over several objects')
    (_, o1, f1), (_, o2, f2) = pa[0], qa[0]
    c1, c2 = ex.content(st, o1), ex.content(st, o2)
    if isinstance(n, int) and n <= 64 and es == 1:
        r = 0
        for i in reversed(range(n)):
            x = at(ex, st, c1, o1, f1, i)
            y = at(ex, st, c2, o2, f2, i)
            r = ite(cmp('eq', x, y, 8), r, ite(cmp('ult', x, y, 8), mask(32), 1, 32), 32)
        return ok(st, r)
    key = libc_key(ex, ins.x[0].v.name, c1, o1, f1, c2, o2, f2, n)
    if key in ex.libc_cache:
        return ok(st, ex.libc_cache[key])
    whole = False
    if es == 1 and o1.es == o2.es > 1:
        # arrays of larger elements: compared element by element when the range is made of whole elements;
        # only whether the result is zero is specified then
        an = affine(n)
        if aff_divisible(an, o1.es) and ex.split_off(o1, f1)[1] == 0 and ex.split_off(o2, f2)[1] == 0:
            whole = True
            es = o1.es
            n = unaffine(aff_div(an, es))
            ex.oblige(st, 'memory', 'length of a comparison', cmp('ule', n, 1 << 60, 64), ins)
    d = libc_fn(ex, 'mismatch%d' % es, (c1, o1, c2, o2), [(f1, 64), (f2, 64), (n, 64)], 64)     # first index that differs, or n
    ex.fact(cmp('ule', d, n, 64))
    w = 8 * es
    x = at(ex, st, c1, o1, f1, d, es)
    y = at(ex, st, c2, o2, f2, d, es)
    r = libc_fn(ex, ins.x[0].v.name + ('%d' % es if whole else ''), (c1, o1, c2, o2), [(f1, 64), (f2, 64), (n, 64)], 32)
    differ = cmp('ult', d, n, 64)
    lt = cmp('ult' if es == 1 else 'slt', x, y, w)
    ex.fact(Implies(differ, cmp('ne', x, y, w)))
    if whole or ins.x[0].v.name == 'bcmp':
        ex.fact(cmp('eq', r, 0, 32) == zb(Not(differ)))
    else:
        ex.fact(Implies(Not(differ), cmp('eq', r, 0, 32)))
        ex.fact(Implies(And(differ, lt), cmp('slt', r, 0, 32)))
        ex.fact(Implies(And(differ, Not(lt)), cmp('sgt', r, 0, 32)))

    def lem(e, j):
        e.fact(Implies(cmp('ult', j, d, 64), cmp('eq', at(e, st, c1, o1, f1, j, es), at(e, st, c2, o2, f2, j, es), w)))
    ex.rel_lemma(c1, o1, f1, es, lem)
    ex.rel_lemma(c2, o2, f2, es, lem)
    ex.assumptions.add('C library contract: memcmp')
    ex.libc_cache[key] = r
    return ok(st, r)


@rt('strlen', 'wcslen')
def c_strlen(ex, act, ins, st, args):
    p = args[0]
    if len(p.alts) > 1:
        raise Unsupported('strlen over several objects')
    es = 4 if ins.x[0].v.name == 'wcslen' else 1
    c, o, f = p.alts[0]
    if not ex.check_access(st, True, o, f, es, 'read', ins):
        return ok(st, 0)
    content = ex.content(st, o)
    if isinstance(content, CellC) and isinstance(f, int):
        # concrete object: scan
        r = None
        vals = []
        i = 0
        while f + (i + 1) * es <= o.size:
            v = content.read(f + i * es, es)
            vals.append(v)
            if isinstance(v, int) and v == 0:
                break
            i += 1
        else:
            ex.oblige(st, 'memory', 'strlen of an unterminated string', Or(*[cmp('eq', v, 0, 8 * es) for v in vals]), ins)
        r = len(vals) - 1
        for k in reversed(range(len(vals) - 1)):
            r = ite(cmp('eq', vals[k], 0, 8 * es), k, r, 64)
        return ok(st, r)
    key = libc_key(ex, 'strlen%d' % es, content, o, f)
    n = ex.libc_cache.get(key)
    if n is not None:
        return ok(st, n)
    n = libc_fn(ex, 'strlen%d' % es, (content, o), [(f, 64)], 64)
    if not isinstance(f, int) or f:
        idx, s = ex.split_off(o, f)
    else:
        idx = 0
    # the contract of strlen needs a terminator somewhere: recorded by vc_any_cstr
    z = getattr(o, 'any', None)
    if not z or z.get('zero') is None:
        raise Unsupported('strlen of an array without a known terminator')
    zi = z['zero']
    ex.oblige(st, 'memory', 'strlen past the terminator', cmp('ule', idx, zi, 64), ins)
    ex.fact(cmp('ule', add(idx, n, 64), zi, 64))
    ex.fact(cmp('eq', at(ex, st, content, o, f, n, es), 0, 8 * es))

    def lem(e, j):
        e.fact(Implies(cmp('ult', j, n, 64), cmp('ne', at(e, st, content, o, f, j, es), 0, 8 * es)))
    ex.rel_lemma(content, o, f, es, lem)
    ex.assumptions.add('C library contract: strlen')
    ex.libc_cache[key] = n
    return ok(st, n)


@rt('memmem')
def c_memmem(ex, act, ins, st, args):
    p, n, q, m = args[0], ex.toint(args[1]), args[2], ex.toint(args[3])
    pa = ex.mem_range(st, p, n, 'read', ins)
    qa = ex.mem_range(st, q, m, 'read', ins)
    if isinstance(m, int) and m == 0:
        return ok(st, p)
    if not pa:
        return ok(st, NULL if isinstance(n, int) and n == 0 else NULL)
    if len(pa) > 1 or len(qa) > 1:
        raise Unsupported('memmem over several objects')
    (_, o1, f1) = pa[0]
    c1 = ex.content(st, o1)
    if qa:
        (_, o2, f2) = qa[0]
        c2 = ex.content(st, o2)
        key = libc_key(ex, 'memmem', c1, o1, f1, n, c2, o2, f2, m)
        if key in ex.libc_cache:
            return ok(st, ex.libc_cache[key])
        r = libc_fn(ex, 'memmem', (c1, o1, c2, o2), [(f1, 64), (n, 64), (f2, 64), (m, 64)], 64)
        found = libc_fn(ex, 'memmem', (c1, o1, c2, o2), [(f1, 64), (n, 64), (f2, 64), (m, 64)], 1)
    else:
        r = fresh('memmem', 64)
        found = fresh('found', 1)
        ex.fact(Implies(cmp('eq', m, 0, 64), And(found, cmp('eq', r, 0, 64))))
        return ok(st, Ptr([(found, o1, add(f1, r, 64)), (Not(found), None, 0)]))
    ex.fact(Implies(found, And(cmp('ule', m, n, 64), cmp('ule', r, sub(n, m, 64), 64))))

    # occurrence at r
    def lem1(e, j):   # j: index in the needle
        e.fact(Implies(And(found, cmp('ult', j, m, 64)),
                       cmp('eq', at(e, st, c1, o1, f1, add(r, j, 64)), at(e, st, c2, o2, f2, j), 8)))
    ex.rel_lemma(c2, o2, f2, 1, lem1)

    def lem1b(e, i):  # i: index in the haystack
        e.fact(Implies(And(found, cmp('ule', r, i, 64), cmp('ult', sub(i, r, 64), m, 64)),
                       cmp('eq', at(e, st, c1, o1, f1, i), at(e, st, c2, o2, f2, sub(i, r, 64)), 8)))
    ex.rel_lemma(c1, o1, f1, 1, lem1b)

    # no earlier occurrence: at every candidate position s there is a differing index
    mf = z3.Function(fresh_name('memmem_diff'), z3.BitVecSort(64), z3.BitVecSort(64))

    def lem2(e, s):
        d = mf(bv(s, 64))
        earlier = And(Implies(found, cmp('ult', s, r, 64)), cmp('ule', m, n, 64), cmp('ule', s, sub(n, m, 64), 64))
        e.fact(Implies(earlier, And(cmp('ult', d, m, 64),
                                    cmp('ne', at(e, st, c1, o1, f1, add(s, d, 64)), at(e, st, c2, o2, f2, d), 8))))
    def lem2r(e, g):
        lem2(e, g)
        if not (isinstance(f1, int) and f1 == 0):
            lem2(e, sub(g, f1, 64))
    ex.ghost_lemma(lem2r)
    ex.assumptions.add('C library contract: memmem')
    res = ex.libc_cache[key] = Ptr([(found, o1, add(f1, r, 64)), (Not(found), None, 0)])
    return ok(st, res)


# ------------------------------------------------------------------ contract API
def cstr(ex, st, p):
    c, o, f = p.alts[0]
    content = ex.content(st, o)
    out = []
    i = f
    while True:
        b = content.read(i, 1)
        if not isinstance(b, int) or b == 0:
            break
        out.append(chr(b))
        i += 1
    return ''.join(out)


@rt('vc_any_bytes')
def vc_any_bytes(ex, act, ins, st, args):
    p, n, nm = args[0], args[1], cstr(ex, st, args[2])
    c, o, f = p.alts[0]
    v = fresh('in_' + nm, 8 * n)
    ex.write_raw(st, o, f, n, v)
    ex.inputs.append((nm, 'scalar', v, 8 * n))
    return ok(st)


@rt('vc_any_range')
def vc_any_range(ex, act, ins, st, args):
    """u64 in [lo,hi] (signed flag)"""
    nm = cstr(ex, st, args[0])
    lo, hi, sg = ex.toint(args[1]), ex.toint(args[2]), args[3]
    v = fresh('in_' + nm, 64)
    ex.inputs.append((nm, 'scalar', v, 64))
    s = 's' if sg else 'u'
    st.assume(cmp(s + 'le', lo, v, 64))
    st.assume(cmp(s + 'le', v, hi, 64))
    if st.dead:
        return None, None, []
    ex.add_ghost(v)
    return ok(st, v)


@rt('vc_any_obj')
def vc_any_obj(ex, act, ins, st, args):
    """(count, es, zero_terminated, name)"""
    n, es, zt, nm = ex.toint(args[0]), args[1], args[2], cstr(ex, st, args[3])
    if isinstance(n, int) and (n <= 48 or es not in (1, 2, 4, 8)):
        tot = n + (1 if zt else 0)
        o = Obj(nm, 'input', tot * es, es=es, count=tot)
        c = CellC()
        for i in range(n):
            c.cells[i * es] = (es, fresh('in_%s_%d' % (nm, i), 8 * es))
        if zt:
            c.cells[n * es] = (es, 0)
        st.mem[o] = (True, c)
        ex.inputs.append((nm, 'cells', (c, n, es), None))
        o.any = {'zero': n if zt else None}
        return ok(st, Ptr([(True, o, 0)]))
    st.assume(cmp('ult', n, (1 << 40) // es, 64))
    cnt = add(n, 1, 64) if zt else n
    o = Obj(nm, 'input', mul(cnt, es, 64), es=es, count=cnt)
    o.scalar = es in (1, 2, 4, 8)
    lane = BaseLane('in_' + nm, 8 * es)
    content = ArrC(nm, {(0, es): lane}) if o.scalar else ArrC(nm)
    st.mem[o] = (True, content)
    ex.inputs.append((nm, 'array', (lane if o.scalar else content, n, es), None))
    o.any = {'zero': n if zt else None}
    if zt and o.scalar:
        ex.fact(lane.sel(n) == bv(0, 8 * es))
    ex.sizes.append(n)
    ex.assumptions.add('input arrays are smaller than 2^40 bytes')
    return ok(st, Ptr([(True, o, 0)]))


@rt('vc_assume')
def vc_assume(ex, act, ins, st, args):
    c = args[0]
    st.assume(c)
    if st.dead:
        return None, None, []
    return ok(st)


@rt('vc_assert')
def vc_assert(ex, act, ins, st, args):
    lab = cstr(ex, st, args[1])
    ex.oblige(st, 'post', lab, args[0], ins)
    ex.posts.add(lab)
    return ok(st)


@rt('vc_cover')
def vc_cover(ex, act, ins, st, args):
    if not ex.quiet:
        ex.covers.append((cstr(ex, st, args[0]), st.pc))
    return ok(st)


@rt('vc_ghost')
def vc_ghost(ex, act, ins, st, args):
    v = ex.toint(args[0])
    ex.add_ghost(v)
    return ok(st)


@rt('vc_pred')
def vc_pred(ex, act, ins, st, args):
    ex.preds.append(args[0])
    return ok(st)


@rt('vc_hint0', 'vc_hint1', 'vc_hint2')
def vc_hint(ex, act, ins, st, args):
    fn = args[0].alts[0][1].fn
    n = int(ins.x[0].v.name[-1])
    ex.hints.append((n, fn, args[1]))
    return ok(st)


@rt('vc_hint_obj0', 'vc_hint_obj1')
def vc_hint_obj(ex, act, ins, st, args):
    """(fn(ctx, object[, slot]), ctx, size): candidate about every local object of that size a loop modifies"""
    fn = args[0].alts[0][1].fn
    n = int(ins.x[0].v.name[-1])
    ex.hints.append((('obj', n, args[2]), fn, args[1]))
    return ok(st)


@rt('vc_hint_clear')
def vc_hint_clear(ex, act, ins, st, args):
    ex.hints = []
    ex.preds = []
    return ok(st)


@rt('vc_forall')
def vc_forall(ex, act, ins, st, args):
    """(fn, ctx, array): assume fn(ctx, j) for every index j: instantiated at every read of the array"""
    fn = args[0].alts[0][1].fn
    ctx = args[1]
    c, o, f = args[2].alts[0]
    content = ex.content(st, o)
    snap = st.fork()
    guard = fresh('forall', 1)
    st.assume(guard)

    def lem(e, j):
        v = e.eval_pred(fn, [ctx, j], snap)
        e.fact(Implies(guard, v))
    ex.rel_lemma(content, o, f, o.es or 1, lem)
    for g in list(ex.ghosts):
        pass
    return ok(st)


@rt('vc_unroll')
def vc_unroll(ex, act, ins, st, args):
    ex.unroll_n = args[0]
    return ok(st)


@rt('vc_opt')
def vc_opt(ex, act, ins, st, args):
    name = cstr(ex, st, args[0])
    ex.opts[name] = args[1]
    if name == 'opaque_mul':
        OPAQUE_MUL[0] = bool(args[1])
    return ok(st)


@rt('vc_freed')
def vc_freed(ex, act, ins, st, args):
    """is the object this pointer points to no longer allocated?"""
    r = False
    for c, o, f in args[0].alts:
        if o is not None:
            r = Or(r, And(c, Not(ex.alive(st, o))))
    return ok(st, r)


@rt('vc_live_allocs')
def vc_live_allocs(ex, act, ins, st, args):
    r = 0
    for o in ex.heap:
        if o in st.mem:
            r = add(r, ite(st.mem[o][0], 1, 0, 64), 64)
    return ok(st, r)


@rt('vc_throws')
def vc_throws(ex, act, ins, st, args):
    return ok(st)


# ------------------------------------------------------------------ recursive specification functions
def spec_call(ex, act, ins, st, fn, args):
    ex.mod.load(fn)
    key = [fn.name]
    zargs = []
    for a, t in zip(args, fn.ptys):
        if t.k == 'ptr':
            if len(a.alts) != 1:
                raise Unsupported('specification function on a pointer with several targets')
            c, o, f = a.alts[0]
            cont = ex.content(st, o) if o is not None else None
            key.append(id(cont))
            ex.keep.append(cont)
            zargs.append((f, 64))
        else:
            zargs.append((ex.toint(a), t.w))
    key = tuple(key)
    uf = ex.spec_ufs.get(key)
    if uf is None:
        sorts = [z3.BitVecSort(w) if w > 1 else z3.BoolSort() for _, w in zargs]
        r = z3.BitVecSort(fn.rty.w) if fn.rty.w > 1 else z3.BoolSort()
        uf = ex.spec_ufs[key] = z3.Function(fresh_name(fn.name), *sorts, r)
    zz = [bv(v, w) if w > 1 else zb(v) for v, w in zargs]
    app = uf(*zz)
    if all(isinstance(v, int) for v, w in zargs) and False:
        pass
    k = app.get_id()
    # an opaque specification function stands for any function
    if 'opaque' not in fn.name and ex.spec_depth < ex.spec_fuel and ex.spec_done.get(k, 99) > ex.spec_depth:
        ex.spec_done[k] = ex.spec_depth
        ex.keep.append(app)
        ex.spec_depth += 1
        ex.quiet += 1
        try:
            s = st.fork()
            s.pc = ()
            s2, v, excs = ex.call_function(fn, args, s, act.depth + 1, ins)
        finally:
            ex.spec_depth -= 1
            ex.quiet -= 1
        if s2 is not None:
            v = ex.toint(v)
            if isinstance(v, int):
                ex.fact(app == (zb(v) if fn.rty.w == 1 else bv(v, fn.rty.w)))
                return ok(st, v)
            ft = app == (zb(v) if fn.rty.w == 1 else bv(v, fn.rty.w))
            ex.fact(ft)
            ex.spec_facts[ft.get_id()] = (app, ft)
    return ok(st, app)
