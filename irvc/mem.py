"""Object based memory model.

Object       identity + extent (immutable)
CellC        contents of an object of concrete size: offset -> (size, value)
ArrC         contents of an object of symbolic size: functional array per lane
"""
import z3
from .sym import *

_ctr = [0]


def fresh_name(p):
    _ctr[0] += 1
    return '%s!%d' % (p, _ctr[0])


def fresh_mark():
    return _ctr[0]


def fresh_number(name):
    k = name.rfind('!')
    return int(name[k + 1:]) if k >= 0 and name[k + 1:].isdigit() else 0


def fresh(p, w):
    if w == 1:
        return z3.Bool(fresh_name(p))
    return z3.BitVec(fresh_name(p), w)


class Obj:
    __slots__ = ('id', 'name', 'kind', 'size', 'es', 'count', 'const', 'align', '_base', 'init', 'mergeable', 'any', 'scalar', 'owner', 'birth')
    n = 0

    def __init__(self, name, kind, size, es=None, count=None, const=False, align=16):
        Obj.n += 1
        self.id = Obj.n
        self.name = name
        self.kind = kind
        self.size = size
        self.es = es
        self.count = count
        self.const = const
        self.align = align or 1
        self._base = None
        self.init = None
        self.mergeable = True
        self.any = None
        self.scalar = None
        self.owner = None
        self.birth = None

    def __repr__(self):
        return '<%s#%d>' % (self.name, self.id)

    @property
    def symbolic(self):
        return not isinstance(self.size, int)


class FuncObj(Obj):
    __slots__ = ('fn',)

    def __init__(self, fn):
        Obj.__init__(self, fn.name, 'func', 1, const=True)
        self.fn = fn


UNDEF_OBJ = Obj('undefined pointer', 'undef', 0)


class CellC:
    """cells: off -> (size, val); val int/BV (8*size bits) or Ptr/PtrInt"""
    __slots__ = ('cells', 'zero')

    def __init__(self, cells=None):
        self.cells = cells if cells is not None else {}

    def copy(self):
        return CellC(dict(self.cells))

    def covering(self, off, size):
        out = []
        cells = self.cells
        c = cells.get(off)
        if c is not None and c[0] == size:
            return [(off, c)]
        if len(cells) <= 64:
            for o, c in cells.items():
                if o < off + size and off < o + c[0]:
                    out.append((o, c))
        else:
            for o in range(off - 63, off + size):
                c = cells.get(o)
                if c is not None and o < off + size and off < o + c[0]:
                    out.append((o, c))
        out.sort(key=lambda e: e[0])
        return out

    def read(self, off, size):
        """-> value of `size` bytes (int bits, Ptr or PtrInt)"""
        c = self.cells.get(off)
        if c is not None and c[0] == size:
            return c[1]
        cov = self.covering(off, size)
        if len(cov) == 1 and cov[0][0] <= off and cov[0][0] + cov[0][1][0] >= off + size:
            o, (s, v) = cov[0]
            v = as_bits(v)
            lo = (off - o) * 8
            return extract(v, lo + size * 8 - 1, lo, s * 8)
        parts = []
        pos = off
        for o, (s, v) in cov:
            v = as_bits(v)
            if o > pos:
                parts.append((fresh('undef', (o - pos) * 8), (o - pos) * 8))
                pos = o
            a = max(o, pos)
            b = min(o + s, off + size)
            parts.append((extract(v, (b - o) * 8 - 1, (a - o) * 8, s * 8), (b - a) * 8))
            pos = b
        if pos < off + size:
            n = off + size - pos
            parts.append((fresh('undef', n * 8), n * 8))
        parts.reverse()
        return concat(parts)

    def has(self, off, size):
        cov = self.covering(off, size)
        return sum(min(o + c[0], off + size) - max(o, off) for o, c in cov) == size

    def write(self, off, size, val):
        """in place (caller copied)"""
        cov = self.covering(off, size)
        for o, (s, v) in cov:
            del self.cells[o]
            if o < off or o + s > off + size:
                v = as_bits(v)
                if o < off:
                    self.cells[o] = (off - o, extract(v, (off - o) * 8 - 1, 0, s * 8))
                if o + s > off + size:
                    e = off + size
                    self.cells[e] = (o + s - e, extract(v, s * 8 - 1, (e - o) * 8, s * 8))
        self.cells[off] = (size, val)


# ------------------------------------------------------------------ lanes
class Lane:
    __slots__ = ('w', 'cache')

    def read(self, ex, idx):
        k = idx if isinstance(idx, int) else ('s', idx.get_id())
        r = self.cache.get(k)
        if r is None:
            v = self._read(ex, idx)
            self.cache[k] = (v, idx)
            return v
        return r[0]


class BaseLane(Lane):
    __slots__ = ('arr', 'reads', 'lemmas', 'name', 'ints')

    def __init__(self, name, w):
        self.w = w
        self.cache = {}
        self.name = name
        self.arr = z3.Function(fresh_name(name), z3.BitVecSort(64), z3.BitVecSort(w))
        self.reads = []
        self.lemmas = []

    def _read(self, ex, idx):
        v = self.arr(bv(idx, 64))
        self.reads.append(idx)
        if ex.lemma_depth < 2 or self.lemmas:
            for lem in list(self.lemmas):
                # descriptions of a loop's result in terms of older contents always apply
                if ex.lemma_depth >= 2 and not (getattr(lem, 'free', False) and ex.lemma_depth < 12):
                    continue
                ex.lemma_depth += 1
                try:
                    lem(ex, idx)
                finally:
                    ex.lemma_depth -= 1
        return v

    def sel(self, j):
        return self.arr(bv(j, 64))

    def add_lemma(self, ex, lem):
        self.lemmas.append(lem)
        ex.lemma_depth += 1
        try:
            if ex.dead_hv:
                self.reads = [i for i in self.reads if not ex.is_dead(i)]
            for idx in list(self.reads):
                lem(ex, idx)
        finally:
            ex.lemma_depth -= 1


class ConstLane(Lane):
    __slots__ = ('val',)

    def __init__(self, val, w):
        self.val = val
        self.w = w
        self.cache = {}

    def _read(self, ex, idx):
        return self.val


def idx_eq(a, b):
    return cmp('eq', a, b, 64)


class UpdLane(Lane):
    __slots__ = ('prev', 'idx', 'val')

    def __init__(self, prev, idx, val):
        self.prev = prev
        self.idx = idx
        self.val = val
        self.w = prev.w
        self.cache = {}

    def _read(self, ex, idx):
        # iterative walk to avoid deep recursion
        chain = []
        cur = self
        while isinstance(cur, UpdLane):
            e = idx_eq(idx, cur.idx)
            if e is True:
                v = cur.val
                break
            if e is not False:
                chain.append((e, cur.val))
            cur = cur.prev
        else:
            v = cur.read(ex, idx)
        for e, val in reversed(chain):
            v = ite(e, val, v, self.w)
        return v


class RngLane(Lane):
    __slots__ = ('prev', 'lo', 'n', 'fn')

    def __init__(self, prev, lo, n, fn):
        """elements lo..lo+n-1 come from fn(idx-lo)"""
        self.prev = prev
        self.lo = lo
        self.n = n
        self.fn = fn
        self.w = prev.w
        self.cache = {}

    def _read(self, ex, idx):
        d = sub(idx, self.lo, 64)
        c = cmp('ult', d, self.n, 64)
        a = self.fn(ex, d) if c is not False else None
        b = self.prev.read(ex, idx) if c is not True else None
        return ite(c, a, b, self.w)


class IteLane(Lane):
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c = c
        self.a = a
        self.b = b
        self.w = a.w
        self.cache = {}

    def _read(self, ex, idx):
        return ite(self.c, self.a.read(ex, idx), self.b.read(ex, idx), self.w)


class ArrC:
    """lanes keyed (sub,size). derive: how a missing lane is obtained"""
    __slots__ = ('lanes', 'derive', 'name')

    def __init__(self, name, lanes=None, derive=None):
        self.name = name
        self.lanes = lanes if lanes is not None else {}
        self.derive = derive

    def lane(self, key):
        l = self.lanes.get(key)
        if l is None:
            for (s, n) in self.lanes:
                if s < key[0] + key[1] and key[0] < s + n:
                    raise Unsupported('overlapping field access in symbolic array %s' % self.name)
            if self.derive is not None:
                l = self.derive(key)
            else:
                l = BaseLane('%s_%d' % (self.name, key[0]), key[1] * 8)
            self.lanes[key] = l
        return l

    def updated(self, key, idx, val):
        self.lane(key)
        lanes = dict(self.lanes)
        lanes[key] = UpdLane(lanes[key], idx, val)
        return ArrC(self.name, lanes, lambda k, s=self: s.lane(k))


def merge_content(ex, c, a, b, obj):
    if a is b:
        return a
    if isinstance(a, ArrC) or isinstance(b, ArrC):
        if not (isinstance(a, ArrC) and isinstance(b, ArrC)):
            raise Unsupported('content kind mismatch')
        lanes = {}
        for k in set(a.lanes) | set(b.lanes):
            la, lb = a.lane(k), b.lane(k)
            lanes[k] = la if la is lb else IteLane(c, la, lb)
        return ArrC(a.name, lanes, lambda k: (lambda x, y: x if x is y else IteLane(c, x, y))(a.lane(k), b.lane(k)))
    out = {}
    ca, cb = a.cells, b.cells
    for off, (s, v) in ca.items():
        e = cb.get(off)
        if e is not None and e[0] == s:
            v2 = e[1]
            if v is v2 or same_val(v, v2):
                out[off] = (s, v)
            else:
                out[off] = (s, merge_cell(c, v, v2, s))
    todo = {}
    for off, (s, v) in ca.items():
        if off not in out:
            todo[off] = s
    for off, (s, v) in cb.items():
        if off not in out:
            todo[off] = max(s, todo.get(off, 0))
    if todo:
        # coalesce overlapping regions
        regs = []
        for off in sorted(todo):
            e = off + todo[off]
            if regs and off < regs[-1][1]:
                regs[-1][1] = max(regs[-1][1], e)
            else:
                regs.append([off, e])
        # grow regions to cover cells they intersect
        for r in regs:
            ch = True
            while ch:
                ch = False
                for cells in (ca, cb):
                    for off, (s, v) in cells.items():
                        if off < r[1] and r[0] < off + s and (off < r[0] or off + s > r[1]):
                            r[0] = min(r[0], off)
                            r[1] = max(r[1], off + s)
                            ch = True
        for lo, hi in regs:
            for off in list(out):
                if off < hi and lo < off + out[off][0]:
                    del out[off]
            # common cut points
            cuts = {lo, hi}
            for cells in (ca, cb):
                for off, (s, v) in cells.items():
                    if off < hi and lo < off + s:
                        pass
            onlya = [o for o in ca if lo <= o < hi]
            onlyb = [o for o in cb if lo <= o < hi]
            if not onlyb or not onlya:
                src = ca if onlya else cb
                cc = c if onlya else Not(c)
                for o in (onlya or onlyb):
                    s, v = src[o]
                    if isinstance(v, Ptr):
                        out[o] = (s, ptr_merge(cc, v, Ptr([(True, UNDEF_OBJ, 0)])))
                    elif isinstance(v, PtrInt):
                        out[o] = (s, v)
                    else:
                        out[o] = (s, ite(cc, v, fresh('undef', 8 * s), 8 * s))
                continue
            bounds = set()
            for cells in (ca, cb):
                for o in cells:
                    if lo <= o < hi:
                        bounds.add(o)
                        bounds.add(o + cells[o][0])
            # use maximal pieces that are unions in both
            pts = sorted(x for x in bounds if lo <= x <= hi)
            if any(isinstance(cells[o][1], (Ptr, PtrInt)) for cells in (ca, cb) for o in cells if lo <= o < hi):
                pieces = [(lo, hi)] if hi - lo == 8 else list(zip(pts, pts[1:]))
            else:
                pieces = list(zip(pts, pts[1:]))
            for p, q in pieces:
                va = a.read(p, q - p)
                vb = b.read(p, q - p)
                out[p] = (q - p, merge_cell(c, va, vb, q - p))
    return CellC(out)


def as_bits(v):
    """the bytes of a pointer: those of an object's address are arbitrary"""
    if not isinstance(v, (Ptr, PtrInt)):
        return v
    out = None
    for c, o, f in reversed((v.p if isinstance(v, PtrInt) else v).alts):
        if o is None:
            x = f
        elif o is UNDEF_OBJ:
            x = fresh('undef', 64)
        else:
            x = add(fresh('address', 64), f, 64)
        out = x if out is None else ite(c, x, out, 64)
    return out


def same_val(a, b):
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if len(a.alts) == 1 and len(b.alts) == 1:
            x, y = a.alts[0], b.alts[0]
            return x[1] is y[1] and same(x[2], y[2])
        return False
    if isinstance(a, (Ptr, PtrInt)) or isinstance(b, (Ptr, PtrInt)):
        return False
    return same(a, b)


def merge_cell(c, a, b, size):
    pa, pb = isinstance(a, Ptr), isinstance(b, Ptr)
    if pa and pb:
        return ptr_merge(c, a, b)
    if isinstance(a, PtrInt) and isinstance(b, PtrInt):
        return PtrInt(ptr_merge(c, a.p, b.p))
    if pa or pb:
        # one side is a plain integer: treat as integer address / undefined
        x = b if pa else a
        if isinstance(x, PtrInt):
            q = x.p
        else:
            q = int_to_ptr(x)
        return ptr_merge(c, a, q) if pa else ptr_merge(c, q, b)
    if isinstance(a, PtrInt) or isinstance(b, PtrInt):
        p = a if isinstance(a, PtrInt) else b
        x = b if p is a else a
        q = int_to_ptr(x)
        return PtrInt(ptr_merge(c, p.p, q) if p is a else ptr_merge(c, q, p.p))
    return ite(c, a, b, size * 8)


def int_to_ptr(x):
    if isinstance(x, int):
        return Ptr([(True, None, x)])
    if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith('undef!'):
        return Ptr([(True, UNDEF_OBJ, 0)])
    return Ptr([(True, None, x)])
