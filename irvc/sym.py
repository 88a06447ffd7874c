"""Symbolic values.

integers iN (N>1): python int (unsigned) or z3 BitVecRef of width N
i1               : python bool or z3 BoolRef
float/double     : IEEE bits as an integer of width 32/64
ptr              : Ptr - a guarded list of (cond, obj, off); obj None = null/integer address
off              : python int or z3 BitVec(64) byte offset
"""
import math
import z3
from z3 import BitVecVal, BitVecRef, BoolRef, ExprRef

TRUE = True
FALSE = False


def is_c(x):
    return isinstance(x, (int, bool))


def zb(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    return x


_bvc = {}


def bv(x, w):
    if isinstance(x, int):
        k = (x, w)
        r = _bvc.get(k)
        if r is None:
            r = _bvc[k] = BitVecVal(x, w)
        return r
    return x


def mask(w):
    return (1 << w) - 1


def sgn(x, w):
    return x - (1 << w) if x >> (w - 1) & 1 else x


# ---------------------------------------------------------------- booleans
def Not(a):
    if a is True:
        return False
    if a is False:
        return True
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def And(*xs):
    out = []
    seen = set()
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        i = x.get_id()
        if i not in seen:
            seen.add(i)
            out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    if len(out) == 2:
        n = Not(out[0])
        if n.eq(out[1]):
            return False
    return z3.And(*out)


def Or(*xs):
    out = []
    seen = set()
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        i = x.get_id()
        if i not in seen:
            seen.add(i)
            out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    if len(out) == 2:
        n = Not(out[0])
        if n.eq(out[1]):
            return True
    return z3.Or(*out)


def Implies(a, b):
    if a is True:
        return b
    if a is False or b is True:
        return True
    if b is False:
        return Not(a)
    return z3.Implies(a, b)


def same(a, b):
    if a is b:
        return True
    if isinstance(a, int) and isinstance(b, int):
        return type(a) is type(b) and a == b if not isinstance(a, bool) else a is b
    if isinstance(a, ExprRef) and isinstance(b, ExprRef):
        return a.eq(b)
    return False


def ite(c, a, b, w):
    """w: width of int; w==1: boolean"""
    if c is True:
        return a
    if c is False:
        return b
    if same(a, b):
        return a
    if w == 1:
        if a is True and b is False:
            return c
        if a is False and b is True:
            return Not(c)
        if a is True:
            return Or(c, b)
        if a is False:
            return And(Not(c), b)
        if b is True:
            return Or(Not(c), a)
        if b is False:
            return And(c, a)
        return z3.If(c, a, b)
    return z3.If(c, bv(a, w), bv(b, w))


def xor1(a, b):
    if is_c(a) and is_c(b):
        return a != b
    if a is True:
        return Not(b)
    if b is True:
        return Not(a)
    if a is False:
        return b
    if b is False:
        return a
    return z3.Xor(a, b)


# ---------------------------------------------------------------- integers
def b2i(b, w):
    if b is True:
        return 1
    if b is False:
        return 0
    return z3.If(b, bv(1, w), bv(0, w))


def i2b(x, w=1):
    """width-1 bitvector to bool"""
    if isinstance(x, bool):
        return x
    if isinstance(x, int):
        return x & 1 == 1
    if isinstance(x, BoolRef):
        return x
    return x == bv(1, 1)


# affine decomposition of 64-bit terms: const + sum coef*term (mod 2^w)
_aff_cache = {}
_keep = []


def affine(x, w=64):
    if isinstance(x, int):
        return (x & mask(w), {})
    k = x.get_id()
    r = _aff_cache.get(k)
    if r is not None:
        return r
    kind = x.decl().kind()
    M = mask(w)
    if kind == z3.Z3_OP_BNUM:
        r = (x.as_long(), {})
    elif kind == z3.Z3_OP_BADD:
        c = 0
        t = {}
        for ch in x.children():
            c1, t1 = affine(ch, w)
            c = (c + c1) & M
            for i, (co, tm) in t1.items():
                if i in t:
                    co2 = (t[i][0] + co) & M
                    if co2:
                        t[i] = (co2, tm)
                    else:
                        del t[i]
                else:
                    t[i] = (co, tm)
        r = (c, t)
    elif kind == z3.Z3_OP_BSUB:
        a, b = x.children()
        c1, t1 = affine(a, w)
        c2, t2 = affine(b, w)
        t = dict(t1)
        for i, (co, tm) in t2.items():
            o = t.get(i)
            co2 = ((o[0] if o else 0) - co) & M
            if co2:
                t[i] = (co2, tm)
            elif o:
                del t[i]
        r = ((c1 - c2) & M, t)
    elif kind == z3.Z3_OP_BNEG:
        c1, t1 = affine(x.arg(0), w)
        r = (-c1 & M, {i: (-co & M, tm) for i, (co, tm) in t1.items()})
    elif kind == z3.Z3_OP_BMUL and x.num_args() == 2 and (z3.is_bv_value(x.arg(0)) or z3.is_bv_value(x.arg(1))):
        a, b = x.children()
        if z3.is_bv_value(b):
            a, b = b, a
        m = a.as_long()
        c1, t1 = affine(b, w)
        r = ((c1 * m) & M, {i: (co * m & M, tm) for i, (co, tm) in t1.items() if co * m & M})
    elif kind == z3.Z3_OP_BSHL and z3.is_bv_value(x.arg(1)):
        s = x.arg(1).as_long()
        c1, t1 = affine(x.arg(0), w)
        r = ((c1 << s) & M, {i: ((co << s) & M, tm) for i, (co, tm) in t1.items() if (co << s) & M}) if s < w else (0, {})
    elif kind == z3.Z3_OP_ITE and w == 64:
        # a common factor of both branches comes out
        a, b = affine(x.arg(1), w), affine(x.arg(2), w)
        g = 0
        for c, t in (a, b):
            g = math.gcd(g, abs(sgn(c, w)))
            for co, tm in t.values():
                g = math.gcd(g, abs(sgn(co, w)))
        r = (0, {k: (1, x)})
        if g > 1 and (a[1] or b[1]):
            y = ite(x.arg(0), unaffine(aff_div(a, g, w), w), unaffine(aff_div(b, g, w), w), w)
            if not isinstance(y, int):
                _keep.append(y)
                r = (0, {y.get_id(): (g, y)})
    else:
        r = (0, {k: (1, x)})
    _aff_cache[k] = r
    _keep.append(x)
    return r


def unaffine(a, w=64):
    c, t = a
    if not t:
        return c
    M = mask(w)
    acc = None
    half = 1 << (w - 1)
    for i in sorted(t):
        co, tm = t[i]
        if co == 1:
            acc = tm if acc is None else acc + tm
        elif co == M:
            acc = -tm if acc is None else acc - tm
        elif co >= half:
            x = bv((-co) & M, w) * tm
            acc = -x if acc is None else acc - x
        else:
            x = bv(co, w) * tm
            acc = x if acc is None else acc + x
    if c:
        acc = acc + bv(c, w) if c < half else acc - bv((-c) & M, w)
    return acc


def aff_add(a, b, w=64):
    M = mask(w)
    c = (a[0] + b[0]) & M
    t = dict(a[1])
    for i, (co, tm) in b[1].items():
        o = t.get(i)
        co2 = ((o[0] if o else 0) + co) & M
        if co2:
            t[i] = (co2, tm)
        elif o:
            del t[i]
    return (c, t)


def aff_scale(a, m, w=64):
    M = mask(w)
    return ((a[0] * m) & M, {i: (co * m & M, tm) for i, (co, tm) in a[1].items() if co * m & M})


def aff_divisible(a, d, w=64):
    if d == 1:
        return True
    if sgn(a[0], w) % d:
        return False
    return all(sgn(co, w) % d == 0 for co, tm in a[1].values())


def aff_div(a, d, w=64):
    M = mask(w)
    return ((sgn(a[0], w) // d) & M, {i: ((sgn(co, w) // d) & M, tm) for i, (co, tm) in a[1].items()})


def add(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return (a + b) & mask(w)
    if isinstance(a, int) and a == 0:
        return b
    if isinstance(b, int) and b == 0:
        return a
    if w == 64:
        return unaffine(aff_add(affine(a), affine(b)))
    return bv(a, w) + bv(b, w)


def sub(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return (a - b) & mask(w)
    if isinstance(b, int) and b == 0:
        return a
    if same(a, b):
        return 0
    if w == 64:
        return unaffine(aff_add(affine(a), aff_scale(affine(b), mask(64))))
    return bv(a, w) - bv(b, w)


OPAQUE_MUL = [False]


def mul(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return (a * b) & mask(w)
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        if b == 0:
            return 0
        if b == 1:
            return a
        if OPAQUE_MUL[0] and w == 64 and (1 << 20) <= b < (1 << 64) - (1 << 20) and b & (b - 1):
            # an arbitrary function of the other operand (contracts that ask for it)
            return z3.Function('times_%d' % b, z3.BitVecSort(64), z3.BitVecSort(64))(bv(a, 64))
        if w == 64:
            return unaffine(aff_scale(affine(a), b))
    return bv(a, w) * bv(b, w)


def cmp(pred, a, b, w):
    """integer comparison -> bool"""
    if w == 1:
        if z3.is_bv(a):
            a = i2b(a)
        if z3.is_bv(b):
            b = i2b(b)
        if isinstance(a, int):
            a = bool(a)
        if isinstance(b, int):
            b = bool(b)
        if pred == 'eq':
            return Not(xor1(a, b))
        if pred == 'ne':
            return xor1(a, b)
        a = b2i(a, 1)
        b = b2i(b, 1)
    if isinstance(a, int) and isinstance(b, int):
        if pred[0] == 's':
            a = sgn(a, w)
            b = sgn(b, w)
            pred = pred[1:]
        elif pred[0] == 'u':
            pred = pred[1:]
        return {'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[pred]
    if same(a, b):
        return pred in ('eq', 'uge', 'ule', 'sge', 'sle')
    if pred in ('eq', 'ne'):
        # ite(c,1,0) ==/!= const folding (very common at -O0)
        for p, q in ((a, b), (b, a)):
            if isinstance(q, int) and isinstance(p, ExprRef) and p.decl().kind() == z3.Z3_OP_ITE:
                x, y = p.arg(1), p.arg(2)
                if z3.is_bv_value(x) and z3.is_bv_value(y):
                    ex = x.as_long() == q
                    ey = y.as_long() == q
                    c = p.arg(0)
                    r = True if ex and ey else False if not ex and not ey else c if ex else Not(c)
                    return r if pred == 'eq' else Not(r)
            if isinstance(q, int) and isinstance(p, ExprRef) and p.decl().kind() in (z3.Z3_OP_ZERO_EXT, z3.Z3_OP_CONCAT, z3.Z3_OP_SIGN_EXT):
                if p.decl().kind() == z3.Z3_OP_ZERO_EXT:
                    inner = p.arg(0)
                    iw = inner.size()
                    if q >> iw:
                        return pred == 'ne'
                    return cmp(pred, inner, q, iw)
                if p.decl().kind() == z3.Z3_OP_SIGN_EXT:
                    inner = p.arg(0)
                    iw = inner.size()
                    lo = q & mask(iw)
                    if (sgn(lo, iw) & mask(w)) != q:
                        return pred == 'ne'
                    return cmp(pred, inner, lo, iw)
        if w == 64:
            d = aff_add(affine(a), aff_scale(affine(b), mask(64)))
            if not d[1]:
                return (d[0] == 0) == (pred == 'eq')
        e = bv(a, w) == bv(b, w)
        return e if pred == 'eq' else z3.Not(e)
    if isinstance(b, int):
        if pred == 'uge' and b == 0 or pred == 'ule' and b == mask(w):
            return True
        if pred == 'ult' and b == 0 or pred == 'ugt' and b == mask(w):
            return False
    if isinstance(a, int):
        if pred == 'ule' and a == 0 or pred == 'uge' and a == mask(w):
            return True
        if pred == 'ugt' and a == 0 or pred == 'ult' and a == mask(w):
            return False
    a = bv(a, w)
    b = bv(b, w)
    if pred == 'ult':
        return z3.ULT(a, b)
    if pred == 'ule':
        return z3.ULE(a, b)
    if pred == 'ugt':
        return z3.ULT(b, a)
    if pred == 'uge':
        return z3.ULE(b, a)
    if pred == 'slt':
        return a < b
    if pred == 'sle':
        return a <= b
    if pred == 'sgt':
        return b < a
    if pred == 'sge':
        return b <= a
    raise KeyError(pred)


def zext(x, w0, w1):
    if w0 == w1:
        return x
    if w0 == 1:
        if z3.is_bv(x):
            x = i2b(x)
        return b2i(x, w1)
    if isinstance(x, int):
        return x
    return z3.ZeroExt(w1 - w0, x)


def sext(x, w0, w1):
    if w0 == w1:
        return x
    if w0 == 1:
        if is_c(x):
            return mask(w1) if x else 0
        return z3.If(x, bv(mask(w1), w1), bv(0, w1))
    if isinstance(x, int):
        return sgn(x, w0) & mask(w1)
    return z3.SignExt(w1 - w0, x)


def trunc(x, w0, w1):
    if w0 == w1:
        return x
    if isinstance(x, int):
        x &= mask(w1)
        return bool(x) if w1 == 1 else x
    k = x.decl().kind()
    if k in (z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT) and x.arg(0).size() >= w1:
        if x.arg(0).size() == 1:
            return i2b(x.arg(0))
        return trunc(x.arg(0), x.arg(0).size(), w1)
    if k in (z3.Z3_OP_ZERO_EXT,) :
        return zext(x.arg(0), x.arg(0).size(), w1)
    if k == z3.Z3_OP_ITE and z3.is_bv_value(x.arg(1)) and z3.is_bv_value(x.arg(2)):
        return ite(x.arg(0), trunc(x.arg(1).as_long(), w0, w1), trunc(x.arg(2).as_long(), w0, w1), w1)
    r = z3.Extract(w1 - 1, 0, x)
    return i2b(r) if w1 == 1 else r


def extract(x, hi, lo, w):
    if lo == 0 and hi == w - 1:
        return x
    if isinstance(x, int):
        return (x >> lo) & mask(hi - lo + 1)
    if lo == 0 and hi > 0:
        return trunc(x, w, hi + 1)
    return z3.Extract(hi, lo, x)


def segments(x, w):
    """[(lowest bit, width, term)] of the bits of x that may be set, or None when unknown"""
    if isinstance(x, int):
        return None
    k = x.decl().kind()
    if k == z3.Z3_OP_ZERO_EXT:
        y = x.arg(0)
        r = segments(y, y.size()) if y.decl().kind() == z3.Z3_OP_CONCAT else None
        return r if r is not None else [(0, y.size(), y)]
    if k == z3.Z3_OP_CONCAT:
        out, lo = [], w
        for y in x.children():
            lo -= y.size()
            if z3.is_bv_value(y):
                if y.as_long() == 0:
                    continue
            if y.decl().kind() in (z3.Z3_OP_CONCAT, z3.Z3_OP_ZERO_EXT):
                r = segments(y, y.size())
                if r is not None:
                    out += [(lo + a, n, z) for a, n, z in r]
                    continue
            out.append((lo, y.size(), y))
        return out
    if k in (z3.Z3_OP_BMUL, z3.Z3_OP_BADD) and w == 64:
        c, t = affine(x)
        if not t:
            return None
        b = 64
        for co in [c] + [co for co, _ in t.values()]:
            if co:
                b = min(b, (co & -co).bit_length() - 1)
        if b == 0 or b >= w:
            return None
        if c == 0 and len(t) == 1:
            (co, y), = t.values()
            if co == 1 << b:
                r = segments(y, w)
                if r is not None:
                    out = []
                    for lo, n, z in r:
                        lo += b
                        if lo >= w:
                            continue
                        if lo + n > w:
                            z, n = z3.Extract(w - lo - 1, 0, z), w - lo
                        out.append((lo, n, z))
                    return out
        y = unaffine(aff_div((c, t), 1 << b))
        return [(b, w - b, z3.Extract(w - 1 - b, 0, y))]
    return None


def disjoint_or(a, b, w):
    """a | b as a concatenation when no bit can be set in both"""
    p, q = segments(a, w), segments(b, w)
    if p is None or q is None:
        return None
    parts, hi = [], w
    for lo, n, t in sorted(p + q, key=lambda s: -s[0]):
        if lo + n > hi:
            return None
        if lo + n < hi:
            parts.append((0, hi - lo - n))
        if parts and z3.is_expr(parts[-1][0]) and parts[-1][0].decl().kind() == z3.Z3_OP_EXTRACT and t.decl().kind() == z3.Z3_OP_EXTRACT \
                and parts[-1][0].arg(0).eq(t.arg(0)) and parts[-1][0].params()[1] == t.params()[0] + 1:
            u = parts.pop()[0]
            t, n = z3.Extract(u.params()[0], t.params()[1], t.arg(0)), u.size() + n
        parts.append((t, n))
        hi = lo
    if hi:
        parts.append((0, hi))
    return concat(parts)


def concat(parts):
    """[(val,width)] most significant first -> value"""
    if all(isinstance(v, int) for v, w in parts):
        r = 0
        for v, w in parts:
            r = (r << w) | v
        return r
    # recognise re-assembly of consecutive extracts of one term
    return z3.Concat(*[bv(v, w) for v, w in parts]) if len(parts) > 1 else parts[0][0]


# ---------------------------------------------------------------- pointers
class Ptr:
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return 'Ptr(%s)' % ', '.join('%s+%s if %s' % (o, f, str(c)[:40]) for c, o, f in self.alts)


NULL = Ptr([(True, None, 0)])


def ptr_merge(c, a, b):
    """ite(c,a,b)"""
    if a is b or c is True:
        return a
    if c is False:
        return b
    nc = Not(c)
    out = []
    for ca, oa, fa in a.alts:
        out.append([And(c, ca), oa, fa])
    for cb, ob, fb in b.alts:
        cc = And(nc, cb)
        hit = False
        for e in out:
            if e[1] is ob and same(e[2], fb):
                # (c&ca)|(!c&cb)
                if e[2] is not None:
                    e[0] = Or(e[0], cc)
                hit = True
                break
        if not hit:
            out.append([cc, ob, fb])
    if len(out) == 1:
        out[0][0] = True
    # merge same-object alternatives into one with ite offset when many
    byobj = {}
    res = []
    for cc, o, f in out:
        if cc is False:
            continue
        k = id(o) if o is not None else None
        if o is not None and k in byobj and getattr(o, 'mergeable', True):
            e = res[byobj[k]]
            e[2] = ite(cc, f, e[2], 64)
            e[0] = Or(e[0], cc)
        else:
            byobj[k if o is not None else ('n', len(res))] = len(res)
            res.append([cc, o, f])
    if len(res) == 1:
        res[0][0] = True
    return Ptr([tuple(e) for e in res])


class Agg(tuple):
    """struct/array SSA value"""
    pass


def merge_val(c, a, b, ty):
    if a is b or c is True:
        return a
    if c is False:
        return b
    k = ty.k
    if k == 'ptr':
        if not isinstance(a, Ptr) or not isinstance(b, Ptr):
            raise Unsupported('merge pointer with integer')
        return ptr_merge(c, a, b)
    if k == 'struct':
        return Agg(merge_val(c, x, y, t) for x, y, t in zip(a, b, ty.elems))
    if k == 'array' or k == 'vector':
        return Agg(merge_val(c, x, y, ty.el) for x, y in zip(a, b))
    if isinstance(a, PtrInt) or isinstance(b, PtrInt):
        if isinstance(a, PtrInt) and isinstance(b, PtrInt):
            return PtrInt(ptr_merge(c, a.p, b.p))
        raise Unsupported('merge ptrint')
    return ite(c, a, b, ty.w)


class PtrInt:
    """result of ptrtoint, kept symbolic until forced"""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass
