"""Verification-condition generator: executes LLVM IR symbolically, merging
states at joins; loops are cut by inductive invariants (loops.py).  Every
proof obligation is recorded, nothing is decided here."""
import math, struct
import z3
from .sym import *
from .mem import *
from .llvm import Const, Func, Module
from . import models
from .loops import LoopMixin

RNE = z3.RNE()
RTZ = z3.RTZ()
F32 = z3.Float32()
F64 = z3.Float64()


class State:
    __slots__ = ('pc', 'mem', 'exc', 'caught', 'unc')

    def __init__(self, pc, mem, exc=None, caught=(), unc=0):
        self.unc = unc      # exceptions thrown and not yet caught
        self.pc = pc
        self.mem = mem
        self.exc = exc
        self.caught = caught

    def fork(self):
        return State(self.pc, dict(self.mem), self.exc, self.caught, self.unc)

    def assume(self, lit):
        if lit is True:
            return True
        if lit is False:
            self.pc = (False,)
            return False
        if self.pc and self.pc[-1] is False:
            return False
        n = Not(lit)
        for p in self.pc:
            if p is False or p.eq(n):
                self.pc = (False,)
                return False
            if p.eq(lit):
                return True
        self.pc = self.pc + (lit,)
        return True

    def known(self, lit):
        """True/False if lit is syntactically decided by pc else None"""
        if isinstance(lit, bool):
            return lit
        n = Not(lit)
        for p in self.pc:
            if p is False:
                return None
            if p.eq(lit):
                return True
            if p.eq(n):
                return False
        return None

    @property
    def dead(self):
        return bool(self.pc) and self.pc[-1] is False

    def path(self):
        return And(*self.pc)


class Oblig:
    __slots__ = ('kind', 'label', 'pc', 'cond', 'loc', 'nfacts', 'status', 'time', 'backend', 'model')

    def __init__(self, kind, label, pc, cond, loc, nfacts):
        self.kind = kind
        self.label = label
        self.pc = pc
        self.cond = cond
        self.loc = loc
        self.nfacts = nfacts
        self.status = None
        self.time = 0
        self.backend = None
        self.model = None


class Act:
    """one function activation"""
    __slots__ = ('fn', 'regs', 'rets', 'excs', 'depth', 'allocas')

    def __init__(self, fn, depth):
        self.fn = fn
        self.regs = {}
        self.rets = []
        self.excs = []
        self.depth = depth
        self.allocas = []


class Engine(LoopMixin):
    def __init__(self, mod, opts=None):
        self.mod = mod
        self.facts = []
        self.fact_ids = set()
        self.spec_facts = {}
        self.base_defs = {}
        self.fact_hv = []     # per fact: the havoc'd symbols it mentions
        self.hv_cache = {}
        self.havocs = []      # fresh-number ranges created by loop havocs
        self.dead_hv = set()  # those of discarded rounds: facts about them are irrelevant
        self.dead_ver = 0
        self.hv_syms = set()
        self.obligs = []
        self.trivial = 0
        self.covers = []
        self.quiet = 0  # >0: obligations are not recorded
        self.globs = {}
        self.fobjs = {}
        self.tids = {}
        self.lemma_depth = 0
        self.inputs = []      # (name, kind, data)
        self.ghosts = []
        self.preds = []
        self.hints = []
        self.foralls = []
        self.unroll_n = 0
        self.opts = dict(nogep=False, noleak=False, bmc=0, noinv=False)
        self.opts.update(opts or {})
        self.heap = []
        self.unroll_all = 0
        self.assumptions = set()
        self.funcs_entered = set()
        self.spec_cache = {}
        self.spec_fuel = 2
        self.cur_loc = None
        self.max_depth = 90
        self.active = {}
        self.steps = 0
        self.step_limit = self.opts.get('steps', 3000000)
        self.init_loops()
        self.top_state = None
        self.ubclass = True

    # ------------------------------------------------------------ facts
    def fact(self, f):
        if f is True:
            return
        if f is False:
            f = z3.BoolVal(False)
        i = f.get_id()
        if i in self.fact_ids:
            return
        self.fact_ids.add(i)
        self.facts.append(f)

    def hv_of(self, e):
        """the havoc'd symbols mentioned by a term"""
        if isinstance(e, (int, bool)):
            return ()
        key = e.get_id()
        r = self.hv_cache.get(key)
        if r is not None:
            return r[0]
        out = set()
        seen = set()
        todo = [e]
        while todo:
            x = todo.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            c = self.hv_cache.get(i)
            if c is not None:
                out.update(c[0])
                continue
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                n = fresh_number(d.name())
                if n in self.hv_syms:
                    out.add(n)
            todo.extend(x.children())
        r = tuple(out)
        self.hv_cache[key] = (r, e)
        return r

    def is_dead(self, e):
        if not self.dead_hv:
            return False
        return any(n in self.dead_hv for n in self.hv_of(e))

    def live_facts(self):
        if not self.dead_hv:
            return self.facts
        return [f for f in self.facts if not self.is_dead(f)]

    def discard_havocs(self, k):
        """the loop states created since mark k are not used any more"""
        for lo, hi in self.havocs[k:]:
            self.dead_hv.update(range(lo, hi + 1))
        if len(self.havocs) > k:
            del self.havocs[k:]
            self.dead_ver += 1

    def oblige(self, st, kind, label, cond, ins=None):
        if self.quiet or st.dead:
            return
        if cond is True:
            self.trivial += 1
            return
        if cond is not False and st.known(cond) is True:
            self.trivial += 1
            return
        loc = ins.loc if ins is not None and not isinstance(ins, tuple) else ins
        self.obligs.append(Oblig(kind, label, st.pc, cond, loc or self.cur_loc, len(self.facts)))

    # ------------------------------------------------------------ operands
    def val(self, act, o):
        if isinstance(o, int):
            return act.regs[o]
        return self.cval(o)

    def cval(self, o):
        k = o.kind
        if k == 'int':
            return bool(o.v) if o.ty.w == 1 else o.v
        if k == 'null':
            return NULL
        if k == 'func':
            return Ptr([(True, self.fobj(o.v), 0)])
        if k == 'global':
            return Ptr([(True, self.glob(o.v), 0)])
        if k == 'fp':
            return o.v
        if k == 'zero':
            return self.zero(o.ty)
        if k == 'undef':
            return self.undef(o.ty)
        if k == 'agg':
            return Agg(self.cval(e) for e in o.v)
        if k == 'str':
            return Agg(o.v)
        if k == 'expr':
            return self.cexpr(o)
        if k == 'meta':
            return None
        raise Unsupported('constant %s' % k)

    def zero(self, ty):
        if ty.k == 'ptr':
            return NULL
        if ty.k == 'struct':
            return Agg(self.zero(t) for t in ty.elems)
        if ty.k in ('array', 'vector'):
            return Agg(self.zero(ty.el) for _ in range(ty.n))
        if ty.k == 'int' and ty.w == 1:
            return False
        return 0

    def undef(self, ty):
        if ty.k == 'ptr':
            return Ptr([(True, UNDEF_OBJ, 0)])
        if ty.k == 'struct':
            return Agg(self.undef(t) for t in ty.elems)
        if ty.k in ('array', 'vector'):
            return Agg(self.undef(ty.el) for _ in range(ty.n))
        return fresh('undef', ty.w)

    def cexpr(self, o):
        op, ops, x = o.v
        if op == 'getelementptr':
            base = self.cval(ops[0])
            off = 0
            ty = x
            first = True
            for i in ops[1:]:
                v = self.cval(i)
                v = sgn(v, i.ty.w)
                if first:
                    off += v * ty.size
                    first = False
                elif ty.k == 'struct':
                    off += ty.offs[v]
                    ty = ty.elems[v]
                else:
                    ty = ty.el
                    off += v * ty.size
            return Ptr([(c, ob, add(f, off & mask(64), 64)) for c, ob, f in base.alts])
        if op == 'ptrtoint':
            return PtrInt(self.cval(ops[0]))
        if op == 'inttoptr':
            return self.inttoptr(self.cval(ops[0]))
        if op in ('bitcast', 'addrspacecast'):
            return self.cval(ops[0])
        if op in ('sub', 'add', 'mul', 'xor', 'and', 'or', 'shl', 'lshr', 'ashr'):
            return self.binop(op, self.cval(ops[0]), self.cval(ops[1]), o.ty.w, None, None, None)
        if op == 'trunc':
            return trunc(self.toint(self.cval(ops[0])), ops[0].ty.w, o.ty.w)
        if op == 'icmp':
            raise Unsupported('constant icmp')
        raise Unsupported('constant expression ' + op)

    def fobj(self, fn):
        r = self.fobjs.get(fn.name)
        if r is None:
            r = self.fobjs[fn.name] = FuncObj(fn)
            r.init = CellC()
        return r

    def glob(self, g):
        r = self.globs.get(g.name)
        if r is None:
            size = g.ty.size
            ext = g.ext
            r = Obj(g.name, 'global', size if not ext else max(size, 4096), const=g.const, align=g.align)
            self.globs[g.name] = r
            c = CellC()
            if not ext:
                self.init_cells(c.cells, 0, self.mod.global_init(g), g.ty)
            r.init = c
        return r

    def init_cells(self, cells, off, o, ty):
        if ty.k == 'struct':
            if o.kind == 'agg':
                for e, t, f in zip(o.v, ty.elems, ty.offs):
                    self.init_cells(cells, off + f, e, t)
            elif o.kind == 'zero':
                for t, f in zip(ty.elems, ty.offs):
                    self.init_cells(cells, off + f, Const('null' if t.k == 'ptr' else 'zero', t), t)
            return
        if ty.k == 'array':
            if o.kind == 'str':
                for i, b in enumerate(o.v):
                    cells[off + i] = (1, b)
            elif o.kind == 'agg':
                for i, e in enumerate(o.v):
                    self.init_cells(cells, off + i * ty.el.size, e, ty.el)
            elif o.kind == 'zero':
                if ty.el.k == 'int' and ty.el.size == 1 and ty.n >= 64:
                    for i in range(ty.n):
                        cells[off + i] = (1, 0)
                else:
                    for i in range(ty.n):
                        self.init_cells(cells, off + i * ty.el.size, Const('null' if ty.el.k == 'ptr' else 'zero', ty.el), ty.el)
            return
        if o.kind == 'undef':
            return
        v = self.cval(o)
        if isinstance(v, bool):
            v = int(v)
        cells[off] = (ty.store or ty.size, v)

    # ------------------------------------------------------------ pointers <-> ints
    def base_of(self, obj):
        if obj is UNDEF_OBJ:
            return fresh('undefaddr', 64)
        if obj._base is None:
            b = z3.BitVec(fresh_name('addr'), 64)
            obj._base = b
            self.fact(z3.ULT(b, bv(1 << 46, 64)))
            self.fact(z3.ULE(bv(4096, 64), b))
            al = obj.align
            if al and al > 1 and al & (al - 1) == 0:
                k = al.bit_length() - 1
                self.fact(z3.Extract(k - 1, 0, b) == bv(0, k))
            for o2 in self.globs.values():
                pass
            self._bases = getattr(self, '_bases', [])
            for o2 in self._bases[-40:]:
                s1 = max(obj.size, 1) if isinstance(obj.size, int) else obj.size
                s2 = max(o2.size, 1) if isinstance(o2.size, int) else o2.size
                self.fact(z3.Or(z3.ULE(b + bv(s1, 64), o2._base), z3.ULE(o2._base + bv(s2, 64), b)))
                if not isinstance(obj.size, int) or not isinstance(o2.size, int):
                    self.fact(b != o2._base)
            self._bases.append(obj)
            self._base_map = getattr(self, '_base_map', {})
            self._base_map[b.get_id()] = obj
        return obj._base

    def toint(self, v):
        if isinstance(v, PtrInt):
            out = None
            for c, o, f in reversed(v.p.alts):
                x = f if o is None else add(self.base_of(o), f, 64)
                out = x if out is None else ite(c, x, out, 64)
            return out
        return v

    def inttoptr(self, v):
        if isinstance(v, PtrInt):
            return v.p
        if isinstance(v, int):
            return Ptr([(True, None, v)])
        a = affine(v)
        bm = getattr(self, '_base_map', {})
        for i, (co, t) in a[1].items():
            if co == 1 and i in bm:
                rest = (a[0], {k: x for k, x in a[1].items() if k != i})
                return Ptr([(True, bm[i], unaffine(rest))])
        if v.decl().kind() == z3.Z3_OP_ITE:
            return ptr_merge(v.arg(0), self.inttoptr(self._num(v.arg(1))), self.inttoptr(self._num(v.arg(2))))
        return Ptr([(True, None, v)])

    def _num(self, x):
        return x.as_long() if z3.is_bv_value(x) else x

    def scaled(self, a, b):
        """common power/elem scale of two byte offsets for cheaper comparison"""
        fa, fb = affine(a), affine(b)
        g = 0
        for f in (fa, fb):
            for co, _ in f[1].values():
                g = math.gcd(g, abs(sgn(co, 64)))
        if g > 1:
            d = (sgn(fa[0], 64) - sgn(fb[0], 64))
            if d % g == 0:
                r = sgn(fa[0], 64) % g
                a2 = unaffine(aff_div(aff_add(fa, (-r & mask(64), {})), g))
                b2 = unaffine(aff_div(aff_add(fb, (-r & mask(64), {})), g))
                return a2, b2, g
        return a, b, 1

    def ptr_cmp(self, pred, p, q, st=None):
        out = []
        strip = pred.lstrip('us') if pred not in ('eq', 'ne') else pred
        res = None
        for c1, o1, f1 in p.alts:
            for c2, o2, f2 in q.alts:
                cc = And(c1, c2)
                if cc is False:
                    continue
                if o1 is o2 and o1 is not UNDEF_OBJ:
                    if pred in ('eq', 'ne'):
                        a, b, g = self.scaled(f1, f2)
                        r = cmp(pred, a, b, 64)
                    else:
                        a, b, g = self.scaled(f1, f2)
                        r = cmp('u' + pred[1:] if o1 is None else 'u' + pred[1:], a, b, 64)
                elif pred in ('eq', 'ne') and (o1 is not UNDEF_OBJ and o2 is not UNDEF_OBJ) and \
                        ((o1 is not None and o2 is not None)
                         or (o1 is None and isinstance(f1, int) and f1 == 0) or (o2 is None and isinstance(f2, int) and f2 == 0)):
                    r = (pred == 'ne')
                else:
                    a = f1 if o1 is None else add(self.base_of(o1), f1, 64)
                    b = f2 if o2 is None else add(self.base_of(o2), f2, 64)
                    r = cmp(pred if pred in ('eq', 'ne') else 'u' + pred[1:], a, b, 64)
                out.append((cc, r))
        res = out[-1][1]
        for cc, r in reversed(out[:-1]):
            res = ite(cc, r, res, 1)
        return res

    def ptr_diff(self, p, q):
        out = []
        for c1, o1, f1 in p.alts:
            for c2, o2, f2 in q.alts:
                cc = And(c1, c2)
                if cc is False:
                    continue
                if o1 is o2 and o1 is not UNDEF_OBJ:
                    r = sub(f1, f2, 64)
                else:
                    a = f1 if o1 is None else add(self.base_of(o1), f1, 64)
                    b = f2 if o2 is None else add(self.base_of(o2), f2, 64)
                    r = sub(a, b, 64)
                out.append((cc, r))
        res = out[-1][1]
        for cc, r in reversed(out[:-1]):
            res = ite(cc, r, res, 64)
        return res

    # ------------------------------------------------------------ bounds
    def split_off(self, obj, off):
        """-> (idx, sub) for array-mode objects"""
        es = obj.es
        a = affine(off)
        if es == 1:
            return off, 0
        sub_ = sgn(a[0], 64) % es
        b = ((a[0] - sub_) & mask(64), a[1])
        if not aff_divisible(b, es):
            # a plain multiple hidden under ite: distribute
            if not isinstance(off, int) and off.decl().kind() == z3.Z3_OP_ITE:
                i1, s1 = self.split_off(obj, self._num(off.arg(1)))
                i2, s2 = self.split_off(obj, self._num(off.arg(2)))
                if s1 == s2:
                    return ite(off.arg(0), i1, i2, 64), s1
            # distribute over one ite term inside the sum
            for k, (co, t) in b[1].items():
                if t.decl().kind() == z3.Z3_OP_ITE and sgn(co, 64) % es:
                    rest = (b[0], {j: x for j, x in b[1].items() if j != k})
                    x1 = unaffine(aff_add((a[0], rest[1]), aff_scale(affine(self._num(t.arg(1))), co)))
                    x2 = unaffine(aff_add((a[0], rest[1]), aff_scale(affine(self._num(t.arg(2))), co)))
                    i1, s1 = self.split_off(obj, x1)
                    i2, s2 = self.split_off(obj, x2)
                    if s1 == s2:
                        return ite(t.arg(0), i1, i2, 64), s1
            raise Unsupported('misaligned offset into %s (element size %d): %s' % (obj, es, str(off)[:200]))
        return unaffine(aff_div(b, es)), sub_

    def inrange(self, obj, off, n):
        """n bytes at off lie inside obj (n may be 0: one-past allowed)"""
        if isinstance(obj.size, int):
            if isinstance(n, int) and n > obj.size:
                return False
            if isinstance(off, int):
                if not isinstance(n, int):
                    return False if off > obj.size else cmp('ule', n, obj.size - off, 64)
                return off + n <= obj.size
            if isinstance(n, int):
                a = affine(off)
                g = 0
                for co, _ in a[1].values():
                    g = math.gcd(g, abs(sgn(co, 64)))
                if g > 1:
                    r = sgn(a[0], 64) % g
                    mx = obj.size - n - r
                    if mx < 0:
                        return False
                    idx = unaffine(aff_div(((a[0] - r) & mask(64), a[1]), g))
                    return cmp('ule', idx, mx // g, 64)
                return cmp('ule', off, obj.size - n, 64)
            return And(cmp('ule', off, obj.size, 64), cmp('ule', n, sub(obj.size, off, 64), 64))
        es = obj.es
        if es is None:
            self.fix_es(obj, off)
            es = obj.es
        idx, s = self.split_off(obj, off)
        if isinstance(n, int):
            if n == 0:
                return cmp('ule', idx, obj.count, 64) if s == 0 else cmp('ult', idx, obj.count, 64)
            k = -(-(s + n) // es)
            if k == 1:
                return cmp('ult', idx, obj.count, 64)
            return And(cmp('ule', k, obj.count, 64), cmp('ule', idx, sub(obj.count, k, 64), 64))
        a = affine(n)
        if es > 1 and aff_divisible(a, es):
            m = unaffine(aff_div(a, es))
        elif es == 1:
            m = n
        else:
            raise Unsupported('symbolic length not a multiple of the element size')
        return And(cmp('ule', idx, obj.count, 64), cmp('ule', m, sub(obj.count, idx, 64), 64))

    def fix_es(self, obj, off=0):
        a = affine(obj.size)
        g = 0
        for co, _ in a[1].values():
            g = math.gcd(g, abs(sgn(co, 64)))
        g = math.gcd(g, abs(sgn(a[0], 64)))
        b = affine(off)
        for co, _ in b[1].values():
            g = math.gcd(g, abs(sgn(co, 64)))
        g = math.gcd(g, abs(sgn(b[0], 64)))
        obj.es = g or 1
        obj.count = unaffine(aff_div(a, obj.es))

    def check_access(self, st, c, obj, off, n, what, ins):
        s2 = st
        if c is not True:
            s2 = State(st.pc, st.mem, None, st.caught, st.unc)
            s2.assume(c)
            if s2.dead:
                return False
        if obj is None:
            if n == 0 or (not isinstance(n, int)):
                # null with symbolic length: allowed only when the length is 0
                if not isinstance(n, int):
                    self.oblige(s2, 'memory', '%s through null pointer' % what, cmp('eq', n, 0, 64), ins)
                return False
            self.oblige(s2, 'memory', '%s through null pointer' % what, False, ins)
            return False
        if obj is UNDEF_OBJ:
            if self.undef_infeasible(s2):
                return False
            self.oblige(s2, 'memory', '%s through uninitialised pointer' % what, False, ins)
            return False
        if obj.kind == 'func':
            self.oblige(s2, 'memory', '%s of a function' % what, False, ins)
            return False
        alive = self.alive(st, obj)
        if alive is not True:
            self.oblige(s2, 'memory', '%s of an object whose lifetime has ended (%s)' % (what, obj.name), alive, ins)
            if alive is False:
                return False
        ok = self.inrange(obj, off, n)
        self.oblige(s2, 'memory', '%s out of bounds of %s' % (what, obj.name), ok, ins)
        if ok is False:
            return False
        if what == 'write' and obj.const:
            self.oblige(s2, 'memory', 'write to constant %s' % obj.name, False, ins)
            return False
        return True

    def undef_infeasible(self, st):
        return False

    # ------------------------------------------------------------ memory
    def alive(self, st, obj):
        e = st.mem.get(obj)
        if e is None:
            return obj.init is not None
        return e[0]

    def content(self, st, obj):
        e = st.mem.get(obj)
        if e is None:
            if obj.init is None:
                raise Unsupported('object %s not in scope' % obj)
            return obj.init
        return e[1]

    def set_content(self, st, obj, c):
        e = st.mem.get(obj)
        st.mem[obj] = (e[0] if e else True, c)

    def new_obj(self, st, name, kind, size, es=None, count=None, align=16, content=None):
        o = Obj(name, kind, size, es, count, align=align)
        if content is None:
            content = CellC() if isinstance(size, int) else ArrC(name)
        st.mem[o] = (True, content)
        return o

    def cell_candidates(self, obj, off, n):
        a = affine(off)
        g = 0
        for co, _ in a[1].values():
            co = abs(sgn(co, 64))
            g = math.gcd(g, co)
        g = g & -g if g else 1
        full = 0
        for co, _ in a[1].values():
            full = math.gcd(full, abs(sgn(co, 64)))
        g = full or 1
        r = sgn(a[0], 64) % g
        cands = list(range(r, obj.size - n + 1, g))
        if len(cands) > 4096:
            raise Unsupported('symbolic index into large object %s' % obj)
        b = ((a[0] - r) & mask(64), a[1])
        idx = unaffine(aff_div(b, g))
        return cands, idx, g

    def leaf_values(self, off, limit=64):
        """the constants an offset made of conditionals can evaluate to, or None"""
        memo = {}

        def values(x):
            k = x.get_id()
            if k in memo:
                return memo[k]
            if len(memo) > 400:
                return None
            memo[k] = None
            r = None
            if z3.is_bv_value(x):
                r = {x.as_long()}
            elif x.decl().kind() == z3.Z3_OP_ITE:
                p, q = values(x.arg(1)), values(x.arg(2))
                if p is not None and q is not None:
                    r = p | q
            else:
                c, t = affine(x)
                if not any(tm.get_id() == k for _, tm in t.values()):
                    r = {c}
                    for co, tm in t.values():
                        vs = values(tm)
                        if vs is None:
                            r = None
                            break
                        r = {(v + co * y) & mask(64) for v in r for y in vs}
                        if len(r) > limit:
                            r = None
                            break
            if r is not None and len(r) > limit:
                r = None
            memo[k] = r
            return r
        vals = values(off)
        return None if vals is None else sorted(vals)

    def residue(self, x, n, memo=None):
        """x mod n (n a power of two) when every leaf of its conditionals agrees on it"""
        memo = {} if memo is None else memo
        if isinstance(x, int):
            return x % n
        k = x.get_id()
        if k in memo:
            return memo[k]
        memo[k] = None
        if x.decl().kind() == z3.Z3_OP_ITE:
            r = self.residue(x.arg(1), n, memo)
            if r is not None and self.residue(x.arg(2), n, memo) != r:
                r = None
        else:
            c, t = affine(x)
            r = c % n
            for co, tm in t.values():
                if co % n == 0:
                    continue
                rt = None
                if tm.get_id() != k:
                    rt = self.residue(tm, n, memo)
                if rt is None:
                    r = None
                    break
                r = (r + co * rt) % n
        memo[k] = r
        return r

    def aligned_conds(self, off, obj, n):
        if n & (n - 1) or obj.size > 1024:
            return None
        r = self.residue(off, n)
        if r is None:
            return None
        return [(k, cmp('eq', off, k, 64)) for k in range(r, obj.size - n + 1, n)]

    def read_cells(self, c, obj, off, n):
        if isinstance(off, int):
            return c.read(off, n)
        if off.decl().kind() == z3.Z3_OP_ITE and all(z3.is_bv_value(off.arg(i)) or off.arg(i).decl().kind() == z3.Z3_OP_ITE for i in (1, 2)):
            x, y = self._num(off.arg(1)), self._num(off.arg(2))
            vx = self.read_cells(c, obj, x, n) if not isinstance(x, int) or x + n <= obj.size else None
            vy = self.read_cells(c, obj, y, n) if not isinstance(y, int) or y + n <= obj.size else None
            if vx is not None and vy is not None:
                return merge_cell(off.arg(0), vx, vy, n)
            return vx if vx is not None else vy
        lv = self.leaf_values(off)
        if lv is not None:
            lv = [k for k in lv if k + n <= obj.size]
            out = None
            for k in reversed(lv):
                v = c.read(k, n)
                out = v if out is None else merge_cell(cmp('eq', off, k, 64), v, out, n)
            return out if out is not None else fresh('oob', 8 * n)
        cands, idx, g = self.cell_candidates(obj, off, n)
        if not cands:
            return fresh('oob', 8 * n)
        if g < n:
            conds = self.aligned_conds(off, obj, n)
            if conds:
                out = None
                for k, e in reversed(conds):
                    v = c.read(k, n)
                    out = v if out is None else merge_cell(e, v, out, n)
                return out
        vals = []
        for k in cands:
            vals.append(c.read(k, n))
        if any(isinstance(v, (Ptr, PtrInt)) for v in vals):
            out = vals[-1]
            for i in range(len(vals) - 2, -1, -1):
                out = merge_cell(cmp('eq', idx, i, 64), vals[i], out, n)
            return out
        return self.sel_tree(idx, vals, 8 * n)

    def sel_tree(self, idx, vals, w):
        if len(vals) <= 12:
            out = vals[-1]
            for i in range(len(vals) - 2, -1, -1):
                out = ite(cmp('eq', idx, i, 64), vals[i], out, w)
            return out
        nb = (len(vals) - 1).bit_length()

        def rec(lo, bit):
            if lo >= len(vals):
                return vals[-1]
            if bit < 0:
                return vals[lo]
            a = rec(lo, bit - 1)
            b = rec(lo + (1 << bit), bit - 1)
            if same(a, b):
                return a
            return ite(i2b(z3.Extract(bit, bit, idx)), b, a, w)
        return rec(0, nb - 1)

    def read_raw(self, content, obj, off, n):
        """n-byte value"""
        if isinstance(content, CellC):
            return self.read_cells(content, obj, off, n)
        idx, s = self.split_off(obj, off)
        es = obj.es
        if obj.scalar is None:
            obj.scalar = (s == 0 and n == es) or es == 1 or (n > es) or (s == 0 and n < es and es in (2, 4, 8) and False)
        if obj.scalar:
            if n == es and s == 0:
                return content.lane((0, es)).read(self, idx)
            if s + n <= es:
                v = content.lane((0, es)).read(self, idx)
                return extract(v, (s + n) * 8 - 1, s * 8, es * 8)
            if s == 0 and n % es == 0:
                parts = []
                for k in range(n // es):
                    parts.append((content.lane((0, es)).read(self, add(idx, k, 64)), es * 8))
                parts.reverse()
                return concat(parts)
            raise Unsupported('unaligned access in symbolic array')
        if (s, n) in content.lanes or s + n <= es:
            for (ls, ln) in content.lanes:
                if ls <= s and s + n <= ls + ln and (ls, ln) != (s, n):
                    v = content.lane((ls, ln)).read(self, idx)
                    return extract(v, (s - ls + n) * 8 - 1, (s - ls) * 8, ln * 8)
            return content.lane((s, n)).read(self, idx)
        raise Unsupported('access spanning several elements of a struct array')

    def write_raw(self, st, obj, off, n, val, cond=True):
        content = self.content(st, obj)
        if isinstance(content, CellC):
            if isinstance(off, int):
                if cond is not True:
                    old = content.read(off, n) if content.has(off, n) else None
                    if old is None:
                        if isinstance(val, Ptr):
                            val = ptr_merge(cond, val, Ptr([(True, UNDEF_OBJ, 0)]))
                        elif not isinstance(val, PtrInt):
                            val = ite(cond, val, content.read(off, n), 8 * n)
                    else:
                        val = merge_cell(cond, val, old, n)
                c = content.copy()
                c.write(off, n, val)
                self.set_content(st, obj, c)
                return
            c = content.copy()
            lv = self.leaf_values(off)
            if lv is not None:
                conds = [(k, cmp('eq', off, k, 64)) for k in lv if k + n <= obj.size]
            else:
                cands, idx, g = self.cell_candidates(obj, off, n)
                if g < n:
                    conds = self.aligned_conds(off, obj, n)
                    if conds is None:
                        raise Unsupported('overlapping symbolic store')
                else:
                    conds = [(k, cmp('eq', idx, i, 64)) for i, k in enumerate(cands)]
            for k, e in conds:
                e = And(cond, e)
                if e is False:
                    continue
                if isinstance(val, Ptr) and not c.has(k, n):
                    old = Ptr([(True, UNDEF_OBJ, 0)])
                else:
                    old = c.read(k, n)
                c.write(k, n, merge_cell(e, val, old, n))
            self.set_content(st, obj, c)
            return
        idx, s = self.split_off(obj, off)
        es = obj.es
        if isinstance(val, (Ptr, PtrInt)):
            raise Unsupported('pointer stored in symbolic array')
        if obj.scalar is None:
            obj.scalar = (s == 0 and n == es) or es == 1 or (n > es)
        if obj.scalar:
            key = (0, es)
            if n == es and s == 0:
                if cond is not True:
                    val = ite(cond, val, content.lane(key).read(self, idx), es * 8)
                self.set_content(st, obj, content.updated(key, idx, val))
                return
            if s + n <= es:
                old = content.lane(key).read(self, idx)
                parts = []
                if s + n < es:
                    parts.append((extract(old, es * 8 - 1, (s + n) * 8, es * 8), (es - s - n) * 8))
                parts.append((val, n * 8))
                if s:
                    parts.append((extract(old, s * 8 - 1, 0, es * 8), s * 8))
                v = concat(parts)
                if cond is not True:
                    v = ite(cond, v, old, es * 8)
                self.set_content(st, obj, content.updated(key, idx, v))
                return
            if s == 0 and n % es == 0:
                for k in range(n // es):
                    v = extract(val, (k + 1) * es * 8 - 1, k * es * 8, n * 8)
                    i = add(idx, k, 64)
                    if cond is not True:
                        v = ite(cond, v, content.lane(key).read(self, i), es * 8)
                    content = content.updated(key, i, v)
                self.set_content(st, obj, content)
                return
            raise Unsupported('unaligned store in symbolic array')
        if s + n > es:
            raise Unsupported('store spanning several elements')
        if cond is not True:
            val = ite(cond, val, content.lane((s, n)).read(self, idx), n * 8)
        self.set_content(st, obj, content.updated((s, n), idx, val))

    def raw_to_ty(self, v, ty):
        if ty.k == 'ptr':
            if isinstance(v, Ptr):
                return v
            if isinstance(v, PtrInt):
                return v.p
            return self.inttoptr(v) if not (not isinstance(v, int) and v.decl().kind() == z3.Z3_OP_UNINTERPRETED and v.decl().name().startswith('undef!')) else Ptr([(True, UNDEF_OBJ, 0)])
        if isinstance(v, Ptr):
            return PtrInt(v)
        if isinstance(v, PtrInt):
            return v
        if ty.k == 'int':
            st = (ty.store or ty.size) * 8
            if ty.w != st:
                return trunc(v, st, ty.w)
        return v

    def ty_to_raw(self, v, ty):
        if ty.k == 'int' and ty.w != ty.store * 8:
            return zext(v, ty.w, ty.store * 8) if not isinstance(v, bool) else int(v)
        return v

    def load(self, st, p, ty, ins=None, check=True):
        if ty.k in ('struct', 'array', 'vector'):
            if ty.k == 'struct':
                return Agg(self.load(st, self.padd(p, o), t, ins, check) for t, o in zip(ty.elems, ty.offs))
            return Agg(self.load(st, self.padd(p, i * ty.el.size), ty.el, ins, check) for i in range(ty.n))
        n = ty.store
        res = None
        if ty.k in ('x86_fp80', 'fp128'):
            raise Unsupported('long double')
        for c, o, f in reversed(p.alts):
            if check and not self.check_access(st, c, o, f, n, 'read', ins):
                continue
            v = self.raw_to_ty(self.read_raw(self.content(st, o), o, f, n), ty)
            res = v if res is None else merge_val(c, v, res, ty)
        if res is None:
            return self.undef(ty)
        return res

    def padd(self, p, d):
        if d == 0:
            return p
        return Ptr([(c, o, add(f, d & mask(64), 64)) for c, o, f in p.alts])

    def store(self, st, p, v, ty, ins=None):
        if ty.k in ('struct', 'array', 'vector'):
            if ty.k == 'struct':
                for t, o, x in zip(ty.elems, ty.offs, v):
                    self.store(st, self.padd(p, o), x, t, ins)
            else:
                for i, x in enumerate(v):
                    self.store(st, self.padd(p, i * ty.el.size), x, ty.el, ins)
            return
        if ty.k in ('x86_fp80', 'fp128'):
            raise Unsupported('long double')
        n = ty.store
        raw = self.ty_to_raw(v, ty)
        single = len(p.alts) == 1
        for c, o, f in p.alts:
            if not self.check_access(st, c, o, f, n, 'write', ins):
                continue
            self.write_raw(st, o, f, n, raw, True if single else c)

    # ------------------------------------------------------------ bulk ops
    def mem_range(self, st, p, n, what, ins):
        """check and return usable alternatives"""
        out = []
        for c, o, f in p.alts:
            if isinstance(n, int) and n == 0:
                continue
            if self.check_access(st, c, o, f, n, what, ins):
                out.append((c, o, f))
        return out

    def memcpy(self, st, d, s, n, ins=None):
        if isinstance(n, PtrInt):
            n = self.toint(n)
        lens = None if isinstance(n, int) else self.leaf_values(n, 16)
        if lens is not None:
            # a length made of conditionals: one copy for each value it can have
            todo = []
            for k in lens:
                e = cmp('eq', n, k, 64)
                if e is False or k == 0:
                    continue
                s2 = State(st.pc, st.mem, None, st.caught, st.unc)
                s2.assume(e)
                if not self.feasible(s2):
                    continue
                todo.append((k, e, self.mem_range(s2, s, k, 'read', ins), self.mem_range(s2, d, k, 'write', ins)))
            snap = {o: self.content(st, o) for _, _, sa, _ in todo for c, o, f in sa or ()}
            for k, e, sa, da in todo:
                for cd, od, fd in da or ():
                    for cs, os_, fs in sa or ():
                        cc = And(e, True if len(da) == 1 else cd, True if len(sa) == 1 else cs)
                        if cc is not False:
                            self.copy_into(st, od, fd, snap[os_], os_, fs, k, cc)
            return
        sa = self.mem_range(st, s, n, 'read', ins)
        da = self.mem_range(st, d, n, 'write', ins)
        if not sa or not da:
            return
        snap = {o: self.content(st, o) for c, o, f in sa}
        for cd, od, fd in da:
            for cs, os_, fs in sa:
                cc = And(True if len(da) == 1 else cd, True if len(sa) == 1 else cs)
                if cc is False:
                    continue
                self.copy_into(st, od, fd, snap[os_], os_, fs, n, cc)

    def copy_into(self, st, od, fd, sc, os_, fs, n, cond):
        if od is os_ and same(fd, fs):
            return
        if isinstance(n, int):
            dc = self.content(st, od)
            if isinstance(dc, CellC) and isinstance(sc, CellC) and isinstance(fd, int) and isinstance(fs, int):
                new = dc.copy()
                if cond is True:
                    for o, (sz, v) in dc.covering(fd, n):
                        if o >= fd and o + sz <= fd + n:
                            del new.cells[o]
                for o, (sz, v) in sc.covering(fs, n):
                    lo = max(o, fs)
                    hi = min(o + sz, fs + n)
                    if lo == o and hi == o + sz:
                        x = v
                    else:
                        x = extract(v, (hi - o) * 8 - 1, (lo - o) * 8, sz * 8)
                    t = fd + lo - fs
                    if cond is not True:
                        if new.has(t, hi - lo):
                            x = merge_cell(cond, x, new.read(t, hi - lo), hi - lo)
                        elif isinstance(x, Ptr):
                            x = ptr_merge(cond, x, Ptr([(True, UNDEF_OBJ, 0)]))
                    new.write(t, hi - lo, x)
                self.set_content(st, od, new)
                return
            # element-wise
            es = 1
            for ob in (od, os_):
                if ob.es:
                    es = max(es, ob.es)
            if n % es:
                es = 1
            if od.es is None and os_.es is None:
                for k in (8, 4, 2, 1):
                    if n % k == 0:
                        es = k
                        break
            if n // es > 4096:
                raise Unsupported('large element-wise copy')
            struct_mode = any(ob.es and ob.scalar is False for ob in (od, os_))
            if struct_mode:
                keys = set()
                for ob, cont in ((od, self.content(st, od)), (os_, sc)):
                    if isinstance(cont, ArrC):
                        keys |= set(cont.lanes)
                for i in range(n // es):
                    for (ks, kn) in sorted(keys):
                        x = self.read_raw(sc, os_, add(fs, i * es + ks, 64), kn)
                        self.write_raw(st, od, add(fd, i * es + ks, 64), kn, x, cond)
                return
            vals = [self.read_raw(sc, os_, add(fs, i * es, 64), es) for i in range(n // es)]
            for i, x in enumerate(vals):
                self.write_raw(st, od, add(fd, i * es, 64), es, x, cond)
            return
        dc = self.content(st, od)
        if isinstance(dc, CellC):
            es = os_.es or 1
            if od.size > 512:
                raise Unsupported('symbolic-length copy into large fixed object')
            if not isinstance(fd, int) :
                raise Unsupported('symbolic-length copy to symbolic offset of fixed object')
            m = unaffine(aff_div(affine(n), es))
            srcsz = os_.size if isinstance(os_.size, int) else None
            for i in range((od.size - fd) // es):
                so = add(fs, i * es, 64)
                if srcsz is not None and isinstance(so, int) and so + es > srcsz:
                    break
                x = self.read_raw(sc, os_, so, es)
                self.write_raw(st, od, fd + i * es, es, x, And(cond, cmp('ult', i, m, 64)))
            return
        es = od.es
        di, ds = self.split_off(od, fd)
        m = unaffine(aff_div(affine(n), es))
        if isinstance(sc, CellC):
            if od.scalar is None:
                od.scalar = True
            key = (0, es)

            def fn(ex, k, sc=sc, os_=os_, fs=fs, es=es):
                return ex.read_raw(sc, os_, add(fs, mul(k, es, 64), 64), es)
            l = dc.lane(key)
            nl = RngLane(l, di, m, fn)
            if cond is not True:
                nl = IteLane(cond, nl, l)
            lanes = dict(dc.lanes)
            lanes[key] = nl
            self.set_content(st, od, ArrC(dc.name, lanes))
            return
        if os_.es != es:
            raise Unsupported('copy between arrays of different element size')
        si, ss = self.split_off(os_, fs)
        if od.scalar is None:
            od.scalar = os_.scalar
        if os_.scalar is None:
            os_.scalar = od.scalar
        if od.scalar is None:
            # raw copy before any typed access: assume scalar elements when power of two <= 8
            od.scalar = os_.scalar = es in (1, 2, 4, 8)

        def mk(k, dc=dc, sc=sc):
            src = sc.lane(k)
            old = dc.lane(k)
            nl = RngLane(old, di, m, lambda ex, j: src.read(ex, add(si, j, 64)))
            return nl if cond is True else IteLane(cond, nl, old)
        lanes = {k: mk(k) for k in set(dc.lanes) | set(sc.lanes)}
        self.set_content(st, od, ArrC(dc.name, lanes, mk))

    def memset(self, st, d, v, n, ins=None):
        if isinstance(n, PtrInt):
            n = self.toint(n)
        da = self.mem_range(st, d, n, 'write', ins)
        for c, o, f in da:
            cond = True if len(da) == 1 else c
            dc = self.content(st, o)
            if isinstance(n, int) and isinstance(dc, CellC):
                i = 0
                while i < n:
                    k = 1
                    if isinstance(f, int):
                        for kk in (8, 4, 2):
                            if (f + i) % kk == 0 and i + kk <= n:
                                k = kk
                                break
                    x = concat([(v, 8)] * k) if k > 1 else v
                    self.write_raw(st, o, add(f, i, 64), k, x, cond)
                    i += k
                continue
            if isinstance(dc, CellC):
                if not isinstance(f, int) or o.size > 512:
                    raise Unsupported('symbolic memset on fixed object')
                for i in range(o.size - f):
                    self.write_raw(st, o, f + i, 1, v, And(cond, cmp('ult', i, n, 64)))
                continue
            es = o.es
            di, ds = self.split_off(o, f)
            m = unaffine(aff_div(affine(n), es)) if not isinstance(n, int) else n // es
            if isinstance(n, int) and n % es:
                raise Unsupported('partial element memset')

            def mk(k, dc=dc, v=v):
                x = concat([(v, 8)] * k[1]) if k[1] > 1 else v
                old = dc.lane(k)
                nl = RngLane(old, di, m, lambda ex, j: x)
                return nl if cond is True else IteLane(cond, nl, old)
            if es in (1, 2, 4, 8) and o.scalar is None:
                o.scalar = True
            lanes = {k: mk(k) for k in dc.lanes}
            self.set_content(st, o, ArrC(dc.name, lanes, mk))

    # ------------------------------------------------------------ merging
    def merge(self, edges, phis):
        """edges: [(State, phivals)] -> (State, phivals)"""
        edges = [e for e in edges if not e[0].dead]
        if not edges:
            return None, None
        if len(edges) == 1:
            return edges[0]
        pcs = [e[0].pc for e in edges]
        k = 0
        mn = min(len(p) for p in pcs)
        while k < mn:
            x = pcs[0][k]
            if all(p[k] is x or p[k].eq(x) for p in pcs[1:]):
                k += 1
            else:
                break
        common = pcs[0][:k]
        rests = [p[k:] for p in pcs]
        conds = [And(*r) for r in rests]
        # simplify disjunction of rests
        work = [list(r) for r in rests]
        changed = True
        while changed and len(work) > 1:
            changed = False
            for i in range(len(work)):
                for j in range(i + 1, len(work)):
                    a, b = work[i], work[j]
                    if len(a) == len(b) and len(a) > 0:
                        diff = [t for t in range(len(a)) if not a[t].eq(b[t])]
                        if len(diff) == 1 and Not(a[diff[0]]).eq(b[diff[0]]):
                            t = diff[0]
                            work[i] = a[:t] + a[t + 1:]
                            del work[j]
                            changed = True
                            break
                        if len(diff) == 0:
                            del work[j]
                            changed = True
                            break
                if changed:
                    break
        if any(len(r) == 0 for r in work):
            pc = common
        else:
            pc = common + (Or(*[And(*r) for r in work]),)
        # memory
        mems = [e[0].mem for e in edges]
        base = mems[-1]
        out = dict(base)
        keys = set()
        for m in mems:
            keys.update(m.keys())
        for o in keys:
            es = [m.get(o) for m in mems]
            e0 = es[0]
            if all(e is e0 for e in es):
                out[o] = e0
                continue
            init = (True, o.init) if o.init is not None else None
            alive = None
            cont = None
            for e, c in reversed(list(zip(es, conds))):
                if e is None:
                    e = init
                a = e[0] if e is not None else False
                alive = a if alive is None else ite(c, a, alive, 1)
                if e is not None and e[1] is not None:
                    if cont is None or a is False and False:
                        cont = e[1]
                    elif cont is not e[1]:
                        cont = merge_content(self, c, e[1], cont, o)
            out[o] = (alive, cont)
        exc = None
        for (s, _), c in reversed(list(zip(edges, conds))):
            if s.exc is not None:
                exc = s.exc if exc is None else ptr_merge(c, s.exc, exc)
        caught = edges[0][0].caught
        if any(e[0].caught != caught for e in edges):
            n = {len(e[0].caught) for e in edges}
            if len(n) != 1:
                raise Unsupported('merge of different catch depths')
            cl = list(edges[-1][0].caught)
            for (s, _), c in reversed(list(zip(edges, conds))[:-1]):
                cl = [a if a is b else ptr_merge(c, a, b) for a, b in zip(s.caught, cl)]
            caught = tuple(cl)
        pv = None
        if phis:
            pv = {}
            for ph in phis:
                v = edges[-1][1][ph.key]
                for (s, e), c in reversed(list(zip(edges, conds))[:-1]):
                    v = merge_val(c, e[ph.key], v, ph.ty)
                pv[ph.key] = v
        unc = edges[-1][0].unc
        for (s, _), c in reversed(list(zip(edges, conds))[:-1]):
            unc = s.unc if same(s.unc, unc) else ite(c, s.unc, unc, 32)
        return State(pc, out, exc, caught, unc), pv

    # ------------------------------------------------------------ functions
    def call_function(self, fn, args, st, depth, ins=None):
        """-> (State|None, retval); exceptional states appended to the returned list"""
        if depth > self.max_depth:
            raise Unsupported('recursion too deep in ' + fn.name)
        self.mod.load(fn)
        self.funcs_entered.add(fn.name)
        if self.active.get(fn.name) and not self.feasible(st):
            return None, None, []
        act = Act(fn, depth)
        for i, (p, a) in enumerate(zip(fn.params, args)):
            act.regs[p] = a
        pending = {fn.entry: [(st, {})]}
        self.active[fn.name] = self.active.get(fn.name, 0) + 1
        try:
            self.run_comps(act, self.comps_of(fn), pending)
        finally:
            self.active[fn.name] -= 1
        if not act.rets:
            return None, None, act.excs
        if len(act.rets) == 1:
            s, v = act.rets[0]
        else:
            class Ph:
                key = 'r'
                ty = fn.rty
            ph = [] if fn.rty.k == 'void' else [Ph]
            s, pv = self.merge([(s, {'r': v}) for s, v in act.rets], ph)
            v = pv['r'] if pv else None
            if s is None:
                return None, None, act.excs
        for o in act.allocas:
            if o in s.mem:
                del s.mem[o]
        return s, v, act.excs

    def run_comps(self, act, comps, pending):
        blocks = act.fn.blocks
        for comp in comps:
            if isinstance(comp, tuple):
                self.run_loop(act, comp, pending)
            else:
                edges = pending.pop(comp, None)
                if not edges:
                    continue
                blk = blocks[comp]
                st, pv = self.merge(edges, blk.phis)
                if st is None:
                    continue
                if pv:
                    act.regs.update(pv)
                self.exec_block(act, blk, st, pending)

    def edge(self, act, frm, to, st, pending):
        if st.dead:
            return
        blk = act.fn.blocks[to]
        pv = {}
        for ph in blk.phis:
            for v, b in ph.ops:
                if b == frm:
                    pv[ph.key] = self.val(act, v)
                    break
        pending.setdefault(to, []).append((st, pv))

    def exec_block(self, act, blk, st, pending):
        regs = act.regs
        for ins in blk.instrs:
            self.steps += 1
            if self.steps > self.step_limit:
                raise Budget('step limit')
            self.cur_loc = ins.loc
            op = ins.op
            h = self.DISPATCH.get(op)
            if h is not None:
                regs[ins.key] = h(self, act, ins, st)
                continue
            if op == 'call':
                r = self.do_call(act, ins, st)
                st, v, excs = r
                for es in excs:
                    if not es.dead:
                        act.excs.append(es)
                if st is None or st.dead:
                    return
                regs[ins.key] = v
            elif op == 'br':
                if len(ins.x) == 1:
                    self.edge(act, blk.key, ins.x[0], st, pending)
                else:
                    c = self.val(act, ins.ops[0])
                    self.note_branch(act, blk.key, c)
                    k = st.known(c)
                    if k is not None:
                        self.edge(act, blk.key, ins.x[0 if k else 1], st, pending)
                    else:
                        prune = self.prune or self.opts.get('prune')
                        if prune and not self.feasible(st, c):
                            st.assume(Not(c))
                            self.edge(act, blk.key, ins.x[1], st, pending)
                            return
                        if prune and not self.feasible(st, Not(c)):
                            st.assume(c)
                            self.edge(act, blk.key, ins.x[0], st, pending)
                            return
                        s2 = st.fork()
                        st.assume(c)
                        s2.assume(Not(c))
                        self.edge(act, blk.key, ins.x[0], st, pending)
                        self.edge(act, blk.key, ins.x[1], s2, pending)
                return
            elif op == 'switch':
                v = self.toint(self.val(act, ins.ops[0]))
                dflt, cases, ty = ins.x
                self.note_branch(act, blk.key, True if isinstance(v, int) else None)
                if isinstance(v, int):
                    v = int(v)
                    for cv, tgt in cases:
                        if int(cv) == v:
                            self.edge(act, blk.key, tgt, st, pending)
                            return
                    self.edge(act, blk.key, dflt, st, pending)
                    return
                rest = []
                bytgt = {}
                for cv, tgt in cases:
                    e = cmp('eq', v, cv, ty.w)
                    rest.append(Not(e))
                    bytgt.setdefault(tgt, []).append(e)
                for tgt, es in bytgt.items():
                    s2 = st.fork()
                    s2.assume(Or(*es))
                    self.edge(act, blk.key, tgt, s2, pending)
                st.assume(And(*rest))
                self.edge(act, blk.key, dflt, st, pending)
                return
            elif op == 'ret':
                v = self.val(act, ins.ops[0]) if ins.ops else None
                act.rets.append((st, v))
                return
            elif op == 'unreachable':
                self.oblige(st, 'unreachable', 'unreachable point reached', False, ins)
                return
            elif op == 'invoke':
                co, nd, ud, bvl, ptys = ins.x
                s, v, excs = self.do_call(act, ins, st)
                lp = act.fn.blocks[ud].instrs[0]
                for es in excs:
                    if es.dead:
                        continue
                    enter, skip = self.split_exc(es, lp)
                    if skip is not None:
                        act.excs.append(skip)
                    if enter is not None:
                        self.edge(act, blk.key, ud, enter, pending)
                if s is not None and not s.dead:
                    regs[ins.key] = v
                    self.edge(act, blk.key, nd, s, pending)
                return
            elif op == 'resume':
                v = self.val(act, ins.ops[0])
                st.exc = v[0]
                act.excs.append(st)
                return
            elif op == 'landingpad':
                regs[ins.key] = self.landing(st, ins)
            else:
                raise Unsupported('instruction ' + op)
        raise Unsupported('block without terminator')

    # ------------------------------------------------------------ exceptions
    def tid(self, name):
        if name not in self.tids:
            self.tids[name] = len(self.tids) + 1
        return self.tids[name]

    STDH = {'_ZTISt12out_of_range': '_ZTISt11logic_error', '_ZTISt12length_error': '_ZTISt11logic_error',
            '_ZTISt16invalid_argument': '_ZTISt11logic_error', '_ZTISt12domain_error': '_ZTISt11logic_error',
            '_ZTISt11logic_error': '_ZTISt9exception', '_ZTISt13runtime_error': '_ZTISt9exception',
            '_ZTISt11range_error': '_ZTISt13runtime_error', '_ZTISt14overflow_error': '_ZTISt13runtime_error',
            '_ZTISt15underflow_error': '_ZTISt13runtime_error', '_ZTISt12system_error': '_ZTISt13runtime_error',
            '_ZTISt9bad_alloc': '_ZTISt9exception', '_ZTISt20bad_array_new_length': '_ZTISt9bad_alloc',
            '_ZTISt17bad_function_call': '_ZTISt9exception', '_ZTISt18bad_variant_access': '_ZTISt9exception',
            '_ZTISt19bad_optional_access': '_ZTISt9exception', '_ZTISt8bad_cast': '_ZTISt9exception',
            '_ZTISt12bad_any_cast': '_ZTISt8bad_cast', '_ZTISt10bad_typeid': '_ZTISt9exception',
            '_ZTISt12bad_weak_ptr': '_ZTISt9exception', '_ZTINSt8ios_base7failureB5cxx11E': '_ZTISt12system_error'}

    def bases(self, name):
        if name in self.STDH:
            return [self.STDH[name]]
        g = self.mod.gbyname.get(name)
        if g is None or g.ext:
            return []
        init = self.mod.global_init(g)
        if init is None or init.kind != 'agg':
            return []
        out = []
        for e in init.v[2:]:
            if isinstance(e, Const) and e.kind == 'global' and e.v.name.startswith('_ZTI'):
                out.append(e.v.name)
        return out

    def derived(self, t, b):
        if t == b:
            return True
        return any(self.derived(x, b) for x in self.bases(t))

    def clause_name(self, c):
        if c.kind == 'global':
            return c.v.name
        return None

    def match(self, tname, lp):
        """selector for exception of type tname or None"""
        clauses, cleanup = lp.x
        for c in clauses:
            if c.kind in ('agg', 'zero') :
                # filter: not used by modern C++; treat as match-all failure
                return -1
            n = self.clause_name(c)
            if n is None or self.derived(tname, n):
                return self.tid(n if n is not None else 'null')
        return 0 if cleanup else None

    def split_exc(self, st, lp):
        ent, skp = [], []
        for c, o, f in st.exc.alts:
            m = self.match(o.owner, lp)
            (skp if m is None else ent).append((c, o, f))
        if not skp:
            return st, None
        if not ent:
            return None, st
        s2 = st.fork()
        ce = Or(*[c for c, _, _ in ent])
        st.assume(ce)
        st.exc = Ptr(ent)
        s2.assume(Not(ce))
        s2.exc = Ptr(skp)
        return st, s2

    def landing(self, st, ins):
        p = st.exc
        sel = None
        for c, o, f in reversed(p.alts):
            m = self.match(o.owner, ins)
            m = (m or 0) & mask(32)
            sel = m if sel is None else ite(c, m, sel, 32)
        st.exc = None
        return Agg((p, sel))

    def throw(self, st, tname, obj=None):
        if obj is None:
            obj = Obj('exception ' + tname, 'exc', 64)
            obj.mergeable = False
            st.mem[obj] = (True, CellC())
        obj.owner = tname
        obj.mergeable = False
        st.exc = Ptr([(True, obj, 0)])
        st.unc = add(st.unc, 1, 32)
        return st

    # ------------------------------------------------------------ calls
    def do_call(self, act, ins, st):
        co, nd, ud, bvl, ptys = ins.x
        if isinstance(co, Const) and co.kind == 'func':
            nm = co.v.name
            if nm.startswith('llvm.'):
                m = models.intrinsic(nm)
                if m is None:
                    raise Unsupported('intrinsic ' + nm)
                return m(self, act, ins, st)
            args = [self.val(act, a) for a in ins.ops]
            args = self.byval_copies(st, args, bvl, ins)
            return self.call_named(act, co.v, args, st, ins)
        # inline asm or indirect
        if isinstance(co, Const):
            p = self.cval(co)
        else:
            p = act.regs[co]
        args = [self.val(act, a) for a in ins.ops]
        args = self.byval_copies(st, args, bvl, ins)
        outs = []
        excs = []
        alts = p.alts
        for c, o, f in alts:
            s2 = st if len(alts) == 1 else st.fork()
            s2.assume(c)
            if s2.dead:
                continue
            if o is None or o.kind != 'func':
                self.oblige(s2, 'call', 'indirect call through invalid function pointer', False, ins)
                continue
            s, v, e = self.call_named(act, o.fn, args, s2, ins)
            excs += e
            if s is not None and not s.dead:
                outs.append((s, {'r': v}))
        if not outs:
            return None, None, excs
        if len(outs) == 1:
            return outs[0][0], outs[0][1]['r'], excs

        class Ph:
            key = 'r'
            ty = ins.ty
        s, pv = self.merge(outs, [] if ins.ty.k == 'void' else [Ph])
        return s, (pv or {}).get('r'), excs

    def byval_copies(self, st, args, bvl, ins):
        for k, ty in bvl.items():
            o = self.new_obj(st, 'byval', 'stack', ty.size, align=16)
            p = Ptr([(True, o, 0)])
            self.memcpy(st, p, args[k], ty.size, ins)
            args[k] = p
        return args

    def call_named(self, act, fn, args, st, ins):
        m = models.lookup(self, fn)
        if m is not None:
            return m(self, act, ins, st, args)
        if fn.decl:
            raise Unsupported('external function ' + fn.name)
        if 'vcspec' in fn.name:
            return models.spec_call(self, act, ins, st, fn, args)
        return self.call_function(fn, args, st, act.depth + 1, ins)

    # ------------------------------------------------------------ instructions
    def i_alloca(self, act, ins, st):
        n = self.val(act, ins.ops[0]) if ins.ops else 1
        if not isinstance(n, int):
            raise Unsupported('variable alloca')
        name = 'local'
        o = self.new_obj(st, 'local@%s' % (ins.loc[0][1] if ins.loc else '?'), 'stack', ins.x.size * n, align=max(16, ins.x.align))
        act.allocas.append(o)
        return Ptr([(True, o, 0)])

    def i_load(self, act, ins, st):
        return self.load(st, self.val(act, ins.ops[0]), ins.ty, ins)

    def i_store(self, act, ins, st):
        self.store(st, self.val(act, ins.ops[1]), self.val(act, ins.ops[0]), ins.x, ins)

    def i_gep(self, act, ins, st):
        p = self.val(act, ins.ops[0])
        if not isinstance(p, Ptr):
            raise Unsupported('vector gep')
        ty, inb, tys = ins.x
        a = (0, {})
        first = True
        const_only = True
        for o, t in zip(ins.ops[1:], tys[1:]):
            v = self.toint(self.val(act, o))
            w = t.w
            if first:
                sc = ty.size
                first = False
                cur = ty
            elif cur.k == 'struct':
                a = aff_add(a, (cur.offs[v], {}))
                cur = cur.elems[v]
                continue
            else:
                cur = cur.el
                sc = cur.size
            if isinstance(v, int):
                a = aff_add(a, (sgn(v, w) * sc & mask(64), {}))
            else:
                const_only = False
                x = affine(sext(v, w, 64))
                a = aff_add(a, aff_scale(x, sc))
        if not a[1] and a[0] == 0:
            return p
        out = []
        for c, ob, f in p.alts:
            nf = unaffine(aff_add(affine(f), a))
            out.append((c, ob, nf))
            if inb and not self.opts['nogep'] and not self.quiet:
                if ob is None:
                    if isinstance(nf, int) and nf == 0:
                        continue
                    s2 = State(st.pc, st.mem, None, st.caught, st.unc)
                    s2.assume(c)
                    self.oblige(s2, 'pointer', 'arithmetic on a null pointer', cmp('eq', nf, f, 64), ins)
                elif ob is UNDEF_OBJ or ob.kind == 'func':
                    continue
                else:
                    ok = self.inrange(ob, nf, 0)
                    if ok is not True:
                        s2 = State(st.pc, st.mem, None, st.caught, st.unc)
                        s2.assume(c)
                        self.oblige(s2, 'pointer', 'pointer arithmetic leaves the bounds of %s' % ob.name, ok, ins)
                    else:
                        self.trivial += 1
        return Ptr(out)

    @staticmethod
    def const_tree(t, depth):
        if not isinstance(t, ExprRef):
            return False
        if z3.is_bv_value(t):
            return bool(t.as_long() >> 32)
        return depth > 0 and t.decl().kind() == z3.Z3_OP_ITE and Engine.const_tree(t.arg(1), depth - 1) and Engine.const_tree(t.arg(2), depth - 1)

    def map_tree(self, t, f):
        if z3.is_bv_value(t):
            return f(t.as_long())
        return ite(t.arg(0), self.map_tree(t.arg(1), f), self.map_tree(t.arg(2), f), 64)

    def binop(self, op, a, b, w, x, st, ins):
        if isinstance(a, PtrInt) or isinstance(b, PtrInt):
            if op == 'sub' and isinstance(a, PtrInt) and isinstance(b, PtrInt):
                return self.ptr_diff(a.p, b.p)
            if op == 'add' and isinstance(a, PtrInt) and isinstance(b, int):
                return PtrInt(self.padd(a.p, b))
            if op == 'sub' and isinstance(a, PtrInt) and isinstance(b, int):
                return PtrInt(self.padd(a.p, -b))
            if op == 'and' and isinstance(b, int) and b < 64 and (b + 1) & b == 0:
                # alignment test: decide from object alignment when possible
                vals = []
                for c, o, f in (a.p.alts if isinstance(a, PtrInt) else []):
                    if o is None:
                        vals.append((c, f & b if isinstance(f, int) else None))
                    elif o.align % (b + 1) == 0 and isinstance(f, int):
                        vals.append((c, f & b))
                    else:
                        vals.append((c, None))
                if vals and all(v is not None for c, v in vals) and len({v for c, v in vals}) == 1:
                    return vals[0][1]
            a = self.toint(a)
            b = self.toint(b)
        M = mask(w)
        conc = isinstance(a, int) and isinstance(b, int)
        ub = st is not None and not self.quiet
        if w == 1:
            if op in ('and', 'mul'):
                return And(a, b)
            if op == 'or':
                return Or(a, b)
            if op in ('xor', 'add', 'sub'):
                return xor1(a, b)
            a = b2i(a, 1)
            b = b2i(b, 1)
            r = self.binop(op, a, b, 1.0, x, None, None) if False else None
            raise Unsupported('i1 ' + op)
        if w == 64 and op in ('add', 'mul', 'urem') and not conc and not (x and (x[0] or x[1])):
            # a choice between few large constants: compute on each of them
            t, k = (a, b) if isinstance(b, int) else (b, a) if op != 'urem' else (None, None)
            if isinstance(k, int) and k and (k >> 32 or op == 'urem') and self.const_tree(t, 3):
                return self.map_tree(t, lambda v: {'add': v + k, 'mul': v * k, 'urem': v % k}[op] & M)
        if op == 'add' or op == 'sub' or op == 'mul':
            if ub and x and (x[0] or x[1]):
                self.ovf(op, a, b, w, x, st, ins)
            return {'add': add, 'sub': sub, 'mul': mul}[op](a, b, w)
        if op == 'and':
            if conc:
                return a & b
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int):
                if b == 0:
                    return 0
                if b == M:
                    return a
                if (b + 1) & b == 0:
                    k = b.bit_length()
                    # mask of low bits
                    return zext(trunc(a, w, k), k, w)
            if same(a, b):
                return a
            return bv(a, w) & bv(b, w)
        if op == 'or':
            if conc:
                return a | b
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int) and b == 0:
                return a
            if isinstance(b, int) and b == M:
                return M
            if same(a, b):
                return a
            r = disjoint_or(a, b, w)
            if r is not None:
                return r
            return bv(a, w) | bv(b, w)
        if op == 'xor':
            if conc:
                return a ^ b
            if isinstance(a, int):
                a, b = b, a
            if isinstance(b, int) and b == 0:
                return a
            if isinstance(b, int) and b == M:
                if w == 64:
                    return sub(sub(0, a, w), 1, w)
                return ~bv(a, w)
            if same(a, b):
                return 0
            return bv(a, w) ^ bv(b, w)
        if op in ('shl', 'lshr', 'ashr'):
            if ub:
                self.oblige(st, 'arith', 'shift amount out of range', cmp('ult', b, w, w) if w > 1 else True, ins)
                if op == 'shl' and x and (x[0] or x[1]):
                    self.ovf('shl', a, b, w, x, st, ins)
            if isinstance(b, int):
                if b == 0:
                    return a
                if b >= w:
                    if op == 'ashr':
                        b = w - 1
                    else:
                        return 0
                if isinstance(a, int):
                    if op == 'shl':
                        return (a << b) & M
                    if op == 'lshr':
                        return a >> b
                    return (sgn(a, w) >> b) & M
                if op == 'shl':
                    if w == 64:
                        return mul(a, 1 << b, w)
                    return concat([(extract(a, w - 1 - b, 0, w), w - b), (0, b)])
                if op == 'lshr':
                    if w == 64:
                        fa = affine(a)
                        if False:
                            return a
                    return z3.ZeroExt(b, z3.Extract(w - 1, b, a))
                if x is True and w == 64:
                    fa = affine(a)
                    if aff_divisible(fa, 1 << b):
                        return unaffine(aff_div(fa, 1 << b))
                return a >> bv(b, w)
            a = bv(a, w)
            b = bv(b, w)
            if op == 'shl':
                return a << b
            if op == 'lshr':
                return z3.LShR(a, b)
            return a >> b
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            if ub:
                self.oblige(st, 'arith', 'division by zero', cmp('ne', b, 0, w), ins)
                if op in ('sdiv', 'srem'):
                    self.oblige(st, 'arith', 'signed division overflow',
                                Not(And(cmp('eq', a, 1 << (w - 1), w), cmp('eq', b, M, w))), ins)
            if conc:
                if b == 0:
                    return 0
                if op == 'udiv':
                    return a // b
                if op == 'urem':
                    return a % b
                sa, sb = sgn(a, w), sgn(b, w)
                q = abs(sa) // abs(sb)
                if (sa < 0) != (sb < 0):
                    q = -q
                return (q if op == 'sdiv' else sa - q * sb) & M
            if isinstance(b, int) and b:
                if b == 1:
                    return a if op in ('udiv', 'sdiv') else 0
                if op == 'sdiv' and x is True and w == 64:
                    fa = affine(a)
                    if aff_divisible(fa, b):
                        return unaffine(aff_div(fa, b))
                    d = self.exact_div(a, b)
                    if d is not None:
                        return d
                if b & (b - 1) == 0 and op == 'udiv':
                    k = b.bit_length() - 1
                    return z3.ZeroExt(k, z3.Extract(w - 1, k, a))
                if b & (b - 1) == 0 and op == 'urem':
                    k = b.bit_length() - 1
                    return zext(extract(a, k - 1, 0, w), k, w) if k > 1 else zext(z3.Extract(0, 0, a), 2, w) if False else z3.ZeroExt(w - k, z3.Extract(k - 1, 0, a))
            a = bv(a, w)
            b = bv(b, w)
            return {'udiv': z3.UDiv, 'sdiv': lambda p, q: p / q, 'urem': z3.URem, 'srem': z3.SRem}[op](a, b)
        raise Unsupported(op)

    def exact_div(self, a, d):
        """exact signed division of a sum containing ite terms"""
        if isinstance(a, int):
            return (sgn(a, 64) // d) & mask(64) if sgn(a, 64) % d == 0 else None
        fa = affine(a)
        if aff_divisible(fa, d):
            return unaffine(aff_div(fa, d))
        for k, (co, t) in fa[1].items():
            if t.decl().kind() == z3.Z3_OP_ITE and sgn(co, 64) % d:
                rest = (fa[0], {j: x for j, x in fa[1].items() if j != k})
                x1 = self.exact_div(unaffine(aff_add(rest, aff_scale(affine(self._num(t.arg(1))), co))), d)
                x2 = self.exact_div(unaffine(aff_add(rest, aff_scale(affine(self._num(t.arg(2))), co))), d)
                if x1 is None or x2 is None:
                    return None
                return ite(t.arg(0), x1, x2, 64)
        return None

    def ovf(self, op, a, b, w, x, st, ins):
        if isinstance(a, int) and isinstance(b, int):
            if x[0]:
                sa, sb = sgn(a, w), sgn(b, w)
                r = {'add': sa + sb, 'sub': sa - sb, 'mul': sa * sb, 'shl': sa << min(b, 256)}[op]
                self.oblige(st, 'arith', 'signed overflow in %s' % op, -(1 << (w - 1)) <= r < (1 << (w - 1)), ins)
            if x[1]:
                r = {'add': a + b, 'sub': a - b, 'mul': a * b, 'shl': a << min(b, 256)}[op]
                self.oblige(st, 'arith', 'unsigned overflow in %s' % op, 0 <= r < (1 << w), ins)
            return
        A, B = bv(a, w), bv(b, w)
        if x[0]:
            if op == 'add':
                c = z3.And(z3.BVAddNoOverflow(A, B, True), z3.BVAddNoUnderflow(A, B))
            elif op == 'sub':
                c = z3.And(z3.BVSubNoOverflow(A, B), z3.BVSubNoUnderflow(A, B, True))
            elif op == 'mul':
                c = z3.And(z3.BVMulNoOverflow(A, B, True), z3.BVMulNoUnderflow(A, B))
            else:
                c = ((A << B) >> B) == A
            self.oblige(st, 'arith', 'signed overflow in %s' % op, c, ins)
        if x[1]:
            if op == 'add':
                c = z3.BVAddNoOverflow(A, B, False)
            elif op == 'sub':
                c = z3.BVSubNoUnderflow(A, B, False)
            elif op == 'mul':
                c = z3.BVMulNoOverflow(A, B, False)
            else:
                c = z3.LShR(A << B, B) == A
            self.oblige(st, 'arith', 'unsigned overflow in %s' % op, c, ins)

    def i_bin(self, act, ins, st):
        return self.binop(ins.op, self.val(act, ins.ops[0]), self.val(act, ins.ops[1]), ins.ty.w, ins.x, st, ins)

    def i_icmp(self, act, ins, st):
        pred, ty = ins.x
        a = self.val(act, ins.ops[0])
        b = self.val(act, ins.ops[1])
        for lg in self.cmplogs:
            if len(lg) < 400:
                lg.append((a, b, ty.w if ty.k != 'ptr' else 0))
        if ty.k == 'ptr':
            return self.ptr_cmp(pred, a, b, st)
        if isinstance(a, PtrInt) and isinstance(b, PtrInt):
            return self.ptr_cmp(pred, a.p, b.p, st)
        if isinstance(a, PtrInt) and isinstance(b, int) and b == 0 and pred in ('eq', 'ne'):
            return self.ptr_cmp(pred, a.p, NULL, st)
        return cmp(pred, self.toint(a), self.toint(b), ty.w)

    def i_select(self, act, ins, st):
        c = self.val(act, ins.ops[0])
        a = self.val(act, ins.ops[1])
        b = self.val(act, ins.ops[2])
        k = st.known(c)
        if k is not None:
            return a if k else b
        return merge_val(c, a, b, ins.ty)

    def i_zext(self, act, ins, st):
        return zext(self.toint(self.val(act, ins.ops[0])), ins.x.w, ins.ty.w)

    def i_sext(self, act, ins, st):
        return sext(self.toint(self.val(act, ins.ops[0])), ins.x.w, ins.ty.w)

    def i_trunc(self, act, ins, st):
        return trunc(self.toint(self.val(act, ins.ops[0])), ins.x.w, ins.ty.w)

    def i_ptrtoint(self, act, ins, st):
        p = self.val(act, ins.ops[0])
        if len(p.alts) == 1 and p.alts[0][1] is None:
            return trunc(p.alts[0][2], 64, ins.ty.w)
        if ins.ty.w != 64:
            return trunc(self.toint(PtrInt(p)), 64, ins.ty.w)
        return PtrInt(p)

    def i_inttoptr(self, act, ins, st):
        return self.inttoptr(self.val(act, ins.ops[0]))

    def i_bitcast(self, act, ins, st):
        v = self.val(act, ins.ops[0])
        if ins.x.k in ('vector',) or ins.ty.k in ('vector',):
            raise Unsupported('vector bitcast')
        return v

    def i_freeze(self, act, ins, st):
        return self.val(act, ins.ops[0])

    def i_extractvalue(self, act, ins, st):
        v = self.val(act, ins.ops[0])
        for k in ins.x:
            v = v[k]
        return v

    def i_insertvalue(self, act, ins, st):
        def ins_at(agg, idx, v):
            l = list(agg)
            l[idx[0]] = v if len(idx) == 1 else ins_at(agg[idx[0]], idx[1:], v)
            return Agg(l)
        return ins_at(self.val(act, ins.ops[0]), ins.x, self.val(act, ins.ops[1]))

    # floats ---------------------------------------------------------------
    def fp(self, x, w):
        return z3.fpBVToFP(bv(x, w), F64 if w == 64 else F32)

    def unfp(self, f, w):
        return z3.fpToIEEEBV(f)

    @staticmethod
    def f2py(x, w):
        return struct.unpack('<d', struct.pack('<Q', x))[0] if w == 64 else struct.unpack('<f', struct.pack('<I', x))[0]

    @staticmethod
    def py2f(d, w):
        if w == 64:
            return struct.unpack('<Q', struct.pack('<d', d))[0]
        try:
            return struct.unpack('<I', struct.pack('<f', d))[0]
        except OverflowError:
            return 0x7f800000 if d > 0 else 0xff800000

    def i_fbin(self, act, ins, st):
        w = ins.ty.w
        if ins.ty.k not in ('float', 'double'):
            raise Unsupported('fp type ' + ins.ty.k)
        a = self.toint(self.val(act, ins.ops[0]))
        b = self.toint(self.val(act, ins.ops[1]))
        return self.fbin(ins.op, a, b, w)

    def fbin(self, op, a, b, w):
        if isinstance(a, int) and isinstance(b, int):
            x, y = self.f2py(a, w), self.f2py(b, w)
            try:
                r = {'fadd': lambda: x + y, 'fsub': lambda: x - y, 'fmul': lambda: x * y, 'fdiv': lambda: x / y,
                     'frem': lambda: math.fmod(x, y)}[op]()
                if r == r:
                    return self.py2f(r, w)
            except (ZeroDivisionError, ValueError, OverflowError):
                pass
        A, B = self.fp(a, w), self.fp(b, w)
        if op == 'frem':
            raise Unsupported('frem')
        r = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op](RNE, A, B)
        return self.unfp(r, w)

    def i_fneg(self, act, ins, st):
        w = ins.ty.w
        a = self.toint(self.val(act, ins.ops[0]))
        return self.binop('xor', a, 1 << (w - 1), w, None, None, None)

    def i_fcmp(self, act, ins, st):
        pred, ty = ins.x
        w = ty.w
        a = self.toint(self.val(act, ins.ops[0]))
        b = self.toint(self.val(act, ins.ops[1]))
        return self.fcmp(pred, a, b, w)

    def fcmp(self, pred, a, b, w):
        if pred == 'true':
            return True
        if pred == 'false':
            return False
        if isinstance(a, int) and isinstance(b, int):
            x, y = self.f2py(a, w), self.f2py(b, w)
            un = x != x or y != y
            if pred == 'ord':
                return not un
            if pred == 'uno':
                return un
            r = {'eq': x == y, 'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y, 'ne': x != y}[pred[1:]]
            return (r and not un) if pred[0] == 'o' else (r or un)
        A, B = self.fp(a, w), self.fp(b, w)
        un = z3.Or(z3.fpIsNaN(A), z3.fpIsNaN(B))
        if pred == 'ord':
            return z3.Not(un)
        if pred == 'uno':
            return un
        k = pred[1:]
        r = {'eq': z3.fpEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ,
             'ne': lambda p, q: z3.Not(z3.fpEQ(p, q))}[k](A, B)
        if pred[0] == 'o':
            return z3.And(r, z3.Not(un)) if k == 'ne' else r
        return z3.Or(r, un)

    def i_fconv(self, act, ins, st):
        op = ins.op
        v = self.toint(self.val(act, ins.ops[0]))
        w0, w1 = ins.x.w, ins.ty.w
        if ins.x.k in ('x86_fp80', 'fp128', 'half') or ins.ty.k in ('x86_fp80', 'fp128', 'half'):
            raise Unsupported('long double')
        if op in ('uitofp', 'sitofp'):
            if isinstance(v, int):
                d = sgn(v, w0) if op == 'sitofp' else int(v)
                if w1 == 64 or abs(d) < 1 << 53:
                    return self.py2f(float(d), w1)
            if w0 == 1:
                v = b2i(v, 8)
                if op == 'sitofp':
                    v = sext(v, 8, 8)
                w0 = 8
            f = (z3.fpToFP if False else None)
            X = bv(v, w0)
            r = z3.fpSignedToFP(RNE, X, F64 if w1 == 64 else F32) if op == 'sitofp' else z3.fpUnsignedToFP(RNE, X, F64 if w1 == 64 else F32)
            return self.unfp(r, w1)
        if op == 'fpext' or op == 'fptrunc':
            if isinstance(v, int):
                d = self.f2py(v, w0)
                if d == d:
                    return self.py2f(d, w1)
            return self.unfp(z3.fpToFP(RNE, self.fp(v, w0), F64 if w1 == 64 else F32), w1)
        # float -> int
        if isinstance(v, int):
            d = self.f2py(v, w0)
            if d == d and abs(d) != math.inf:
                i = int(d)
                lo, hi = (-(1 << (w1 - 1)), (1 << (w1 - 1)) - 1) if op == 'fptosi' else (0, mask(w1))
                self.oblige(st, 'arith', 'float to integer conversion out of range', lo <= i <= hi, ins)
                return i & mask(w1)
        F = self.fp(v, w0)
        so = F64 if w0 == 64 else F32
        if op == 'fptosi':
            lo = z3.fpRealToFP if False else None
            hi = z3.FPVal(float(1 << (w1 - 1)), so)
            lob = z3.FPVal(-float(1 << (w1 - 1)), so)
            if w0 == 64 and w1 < 53:
                inr = z3.And(z3.fpLT(F, hi), z3.fpGT(F, z3.FPVal(-float(1 << (w1 - 1)) - 1.0, so)))
            else:
                inr = z3.And(z3.fpLT(F, hi), z3.fpGEQ(F, lob))
            self.oblige(st, 'arith', 'float to integer conversion out of range', inr, ins)
            return z3.fpToSBV(RTZ, F, z3.BitVecSort(w1))
        hi = z3.FPVal(float(1 << w1), so)
        inr = z3.And(z3.fpLT(F, hi), z3.fpGT(F, z3.FPVal(-1.0, so)))
        self.oblige(st, 'arith', 'float to integer conversion out of range', inr, ins)
        return z3.fpToUBV(RTZ, F, z3.BitVecSort(w1))

    # atomics: sequential semantics (assumption recorded)
    def i_fence(self, act, ins, st):
        self.assumptions.add('atomic operations executed by a single thread')

    def i_atomicrmw(self, act, ins, st):
        self.assumptions.add('atomic operations executed by a single thread')
        op, ty = ins.x
        p = self.val(act, ins.ops[0])
        v = self.val(act, ins.ops[1])
        old = self.load(st, p, ty, ins)
        w = ty.w
        ops = {0: lambda: v, 1: lambda: self.binop('add', old, v, w, None, None, None),
               2: lambda: self.binop('sub', old, v, w, None, None, None),
               3: lambda: self.binop('and', old, v, w, None, None, None),
               4: lambda: Not(self.binop('and', old, v, w, None, None, None)) if w == 1 else self.binop('xor', self.binop('and', old, v, w, None, None, None), mask(w), w, None, None, None),
               5: lambda: self.binop('or', old, v, w, None, None, None),
               6: lambda: self.binop('xor', old, v, w, None, None, None),
               7: lambda: ite(cmp('sgt', old, v, w), old, v, w), 8: lambda: ite(cmp('slt', old, v, w), old, v, w),
               9: lambda: ite(cmp('ugt', old, v, w), old, v, w), 10: lambda: ite(cmp('ult', old, v, w), old, v, w)}
        self.store(st, p, ops[op](), ty, ins)
        return old

    def i_cmpxchg(self, act, ins, st):
        self.assumptions.add('atomic operations executed by a single thread')
        ty = ins.x
        p = self.val(act, ins.ops[0])
        e = self.val(act, ins.ops[1])
        n = self.val(act, ins.ops[2])
        old = self.load(st, p, ty, ins)
        ok = self.ptr_cmp('eq', old, e) if ty.k == 'ptr' else cmp('eq', self.toint(old), self.toint(e), ty.w)
        self.store(st, p, merge_val(ok, n, old, ty), ty, ins)
        return Agg((old, ok))

    DISPATCH = {}


for _o in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
    Engine.DISPATCH[_o] = Engine.i_bin
for _o in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
    Engine.DISPATCH[_o] = Engine.i_fbin
for _o in ('fptoui', 'fptosi', 'uitofp', 'sitofp', 'fptrunc', 'fpext'):
    Engine.DISPATCH[_o] = Engine.i_fconv
Engine.DISPATCH.update(alloca=Engine.i_alloca, load=Engine.i_load, store=Engine.i_store, getelementptr=Engine.i_gep,
                       icmp=Engine.i_icmp, fcmp=Engine.i_fcmp, select=Engine.i_select, zext=Engine.i_zext,
                       sext=Engine.i_sext, trunc=Engine.i_trunc, ptrtoint=Engine.i_ptrtoint,
                       inttoptr=Engine.i_inttoptr, bitcast=Engine.i_bitcast, freeze=Engine.i_freeze,
                       extractvalue=Engine.i_extractvalue, insertvalue=Engine.i_insertvalue, fneg=Engine.i_fneg,
                       fence=Engine.i_fence, atomicrmw=Engine.i_atomicrmw, cmpxchg=Engine.i_cmpxchg)
