"""Loops: concrete iteration when an exit condition is concrete, otherwise
inductive invariants inferred (Houdini) over templates + harness hints and
re-checked as obligations."""
import os, random
import math, time, itertools
import z3
from .sym import *
from .mem import *
from . import cvc, sweep
from .llvm import Const


class Frame:
    __slots__ = ('act', 'blocks', 'conc', 'header')


class LoopFail(Exception):
    pass


DEBUG = os.environ.get('IRVC_DEBUG')


class Slot:
    """integer or boolean component of the loop state"""
    __slots__ = ('name', 'w', 'get', 'ptr', 'guard', 'obj', 'geom')

    def __init__(self, name, w, get, ptr=False, guard=None, obj=None):
        self.name = name
        self.w = w
        self.get = get
        self.ptr = ptr
        self.guard = guard
        self.obj = obj


def u64(x, w):
    return zext(x, w, 64)


def once(lem):
    """instantiate a lemma at most once per index"""
    if getattr(lem, 'is_once', False):
        return lem
    done = {}

    def l(ex, j):
        k = j if isinstance(j, int) else ('z', j.get_id())
        if k in done:
            return
        done[k] = j
        lem(ex, j)
    l.is_once = True
    return l


class LoopMixin:
    def init_loops(self):
        self.comp_cache = {}
        self.dry = 0
        self.prune = False
        self.frames = []
        self.cmplogs = []
        self.bounds = []
        self.cur_bounds = []
        self.inv_count = 0
        self.active_inds = []
        self.sizes = []
        self.posts = set()
        self.keep = []
        self.spec_ufs = {}
        self.libc_cache = {}
        self.outer_stack = []
        self.loop_seq = 0
        self.dead_names = {}
        self.loop_path = ()
        self.spec_done = {}
        self.spec_depth = 0
        self.ghost_lems = []
        self.loop_report = []
        self.nonterm = []
        self.conc_limit = self.opts.get('conc', 600)
        self.solver_time = 0.0
        self.fsolver = None
        self.fsolver_n = 0
        self.bounded = set()

    # ------------------------------------------------------------ structure
    def comps_of(self, fn):
        c = self.comp_cache.get(fn.name)
        if c is None:
            succ = {k: list(b.succs) for k, b in fn.blocks.items()}
            c = self.comp_cache[fn.name] = self._comps(set(self._reach(fn.entry, succ)), succ, fn.entry)
        return c

    def _reach(self, entry, succ):
        seen = {entry}
        work = [entry]
        while work:
            x = work.pop()
            for s in succ[x]:
                if s not in seen:
                    seen.add(s)
                    work.append(s)
        return seen

    def _comps(self, nodes, succ, entry):
        # iterative Tarjan
        index = {}
        low = {}
        onst = set()
        stack = []
        out = []
        cnt = [0]
        for root in [entry] + [n for n in nodes if n != entry]:
            if root in index:
                continue
            work = [(root, iter([s for s in succ[root] if s in nodes]))]
            index[root] = low[root] = cnt[0]
            cnt[0] += 1
            stack.append(root)
            onst.add(root)
            while work:
                v, it = work[-1]
                adv = False
                for w in it:
                    if w not in index:
                        index[w] = low[w] = cnt[0]
                        cnt[0] += 1
                        stack.append(w)
                        onst.add(w)
                        work.append((w, iter([s for s in succ[w] if s in nodes])))
                        adv = True
                        break
                    elif w in onst:
                        low[v] = min(low[v], index[w])
                if adv:
                    continue
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == index[v]:
                    scc = set()
                    while True:
                        w = stack.pop()
                        onst.discard(w)
                        scc.add(w)
                        if w == v:
                            break
                    out.append(scc)
        out.reverse()
        res = []
        for scc in out:
            if len(scc) == 1:
                x = next(iter(scc))
                if x not in succ[x]:
                    res.append(x)
                    continue
            heads = set()
            if entry in scc:
                heads.add(entry)
            for n in nodes - scc:
                for s in succ[n]:
                    if s in scc:
                        heads.add(s)
            if len(heads) != 1:
                res.append(('L', None, frozenset(scc), None))
                continue
            h = heads.pop()
            sub = {k: [s for s in succ[k] if s in scc and s != h] for k in scc}
            inner = self._comps(set(scc), sub, h)
            res.append(('L', h, frozenset(scc), inner))
        return res

    # ------------------------------------------------------------ helpers
    def note_branch(self, act, key, c):
        if not isinstance(c, bool):
            return
        for f in self.frames:
            if f.act is act and key in f.blocks and not f.conc:
                if any(s not in f.blocks for s in act.fn.blocks[key].succs) and self.varying(act.fn, f, key):
                    f.conc = True

    def varying(self, fn, f, key):
        """may the condition that ends this block change from one iteration to the next"""
        ck = (key, f.header)
        c = self.__dict__.setdefault('_varying', {})
        if ck in c:
            return c[ck]
        defs = self.__dict__.setdefault('_defs', {})
        if fn.key not in defs:
            defs[fn.key] = {i.key: i for b in fn.blocks.values() for i in list(b.phis) + list(b.instrs)}
        defs = defs[fn.key]
        seen = set()

        def var(v):
            if not isinstance(v, int) or v in seen:
                return False
            seen.add(v)
            i = defs.get(v)
            if i is None or i.blk not in f.blocks:
                return False
            if i.op == 'phi':
                if i.blk == f.header:
                    return True
                if any([var(o) for o, b in i.ops]):
                    return True
                # which constant it is depends on the branches before it
                for o, b in i.ops:
                    if b in f.blocks:
                        t = fn.blocks[b].instrs[-1]
                        if len(fn.blocks[b].succs) > 1 and any([var(x) for x in t.ops]):
                            return True
                return False
            if i.op == 'load':
                return True
            if i.op in ('call', 'invoke'):
                co = i.x[0]
                if not (isinstance(co, Const) and co.kind == 'func' and co.v.name.startswith('llvm.expect')):
                    return True
            return any([var(o) for o in i.ops])
        r = any([var(o) for o in fn.blocks[key].instrs[-1].ops])
        c[ck] = r
        return r

    def feasible(self, st, cond=True, to=1500):
        if st.dead:
            return False
        s = self.get_fsolver()
        lits = [x for x in list(st.pc) + [cond] if x is not True]
        if any(x is False for x in lits):
            return False
        s.push()
        for x in lits:
            s.add(x)
        s.set('timeout', to)
        t = time.time()
        r = s.check()
        self.solver_time += time.time() - t
        s.pop()
        return r != z3.unsat

    def get_fsolver(self):
        if self.fsolver is None or self.fsolver_ver != self.dead_ver:
            self.fsolver = z3.Solver()
            self.fsolver_n = 0
            self.fsolver_ver = self.dead_ver
        if self.fsolver_n < len(self.facts):
            for f in self.facts[self.fsolver_n:]:
                if not self.is_dead(f) and not (f.get_id() in self.spec_facts and self.opts.get('bv')):
                    self.fsolver.add(f)
            self.fsolver_n = len(self.facts)
        return self.fsolver

    def watch(self, lem):
        pass

    def rel_lemma(self, content, o, f, es, lem):
        """lem(ex, k) for every k read at element offset (f/es)+k of o, and for every ghost index"""
        from .models import base_lanes
        lem = once(lem)
        if isinstance(content, ArrC):
            base, s = self.split_off(o, f)
            if s:
                raise Unsupported('lemma on a sub-element offset')
            key = (0, o.es)
            bl = set()
            base_lanes(content.lane(key), bl)

            def l2(ex, idx):
                lem(ex, sub(idx, base, 64))
            for b in bl:
                b.add_lemma(self, l2)
        else:
            if isinstance(f, int):
                n = (o.size - f) // es
                if n <= 64:
                    for k in range(n):
                        lem(self, k)
        self.ghost_lemma(lem)

    def ghost_lemma(self, lem):
        lem = once(lem)
        self.ghost_lems.append(lem)
        self.lemma_depth += 1
        try:
            for g in list(self.ghosts):
                if not isinstance(g, int):
                    lem(self, g)
        finally:
            self.lemma_depth -= 1

    def add_ghost(self, v):
        if any(same(v, g) for g in self.ghosts):
            return
        self.ghosts.append(v)
        self.lemma_depth += 1
        try:
            for l in list(self.ghost_lems):
                l(self, v)
        finally:
            self.lemma_depth -= 1

    def eval_pred(self, fn, args, state, pc=()):
        self.quiet += 1
        fr, self.frames = self.frames, []
        try:
            s = state.fork()
            s.pc = pc
            s2, v, excs = self.call_function(fn, args, s, 1)
        finally:
            self.quiet -= 1
            self.frames = fr
        if s2 is None:
            return False
        if fn.rty.k == 'int' and fn.rty.w != 1:
            return cmp('ne', self.toint(v), 0, fn.rty.w)
        return v

    # ------------------------------------------------------------ running loops
    def run_loop(self, act, comp, pending):
        _, header, blocks, comps = comp
        if header is None:
            if any(b in pending for b in blocks):
                raise Unsupported('irreducible loop in ' + act.fn.name)
            return
        edges = pending.pop(header, None)
        if not edges:
            return
        blk = act.fn.blocks[header]
        st, pv = self.merge(edges, blk.phis)
        if st is None:
            return
        if self.try_concrete(act, comp, st, pv, pending):
            return
        k = self.opts['bmc']
        if k:
            self.unroll(act, comp, st, pv, pending, k, False)
            return
        if self.unroll_n:
            self.unroll(act, comp, st, pv, pending, self.unroll_n, True)
            return
        self.inv_loop(act, comp, st, pv, pending)

    def one_iter(self, act, comp, st, pv):
        """-> (back edges, pending of exits)"""
        _, header, blocks, comps = comp
        lp = {header: [(st, dict(pv) if pv else {})]}
        self.run_comps(act, comps, lp)
        back = lp.pop(header, None)
        return back or [], lp

    def try_concrete(self, act, comp, st, pv, pending):
        _, header, blocks, comps = comp
        blk = act.fn.blocks[header]
        ck = (len(self.obligs), self.trivial, len(act.excs), len(self.covers), len(self.inputs), self.inv_count,
              len(self.loop_report), len(self.nonterm))
        fr = Frame()
        fr.act = act
        fr.blocks = blocks
        fr.header = header
        self.frames.append(fr)
        exits = {}
        n = 0
        okk = False
        s, p = st.fork(), pv
        try:
            while True:
                fr.conc = False
                dry = self.dry
                back, ex = self.one_iter(act, comp, s, p)
                for k, v in ex.items():
                    exits.setdefault(k, []).extend(v)
                s, p = self.merge(back, blk.phis)
                if s is None:
                    okk = True
                    break
                if not fr.conc:
                    # loops the contract expects to end soon: the solver shows that no iteration is left
                    if n >= self.opts.get('short', 0):
                        break
                    if not self.feasible(s):
                        okk = True
                        break
                n += 1
                if n > self.conc_limit:
                    break
                if n > 40 and len(exits) and False:
                    break
        finally:
            self.frames.pop()
        if okk:
            for k, v in exits.items():
                pending.setdefault(k, []).extend(v)
            return True
        del self.obligs[ck[0]:]
        self.trivial = ck[1]
        del act.excs[ck[2]:]
        del self.covers[ck[3]:]
        del self.inputs[ck[4]:]
        self.inv_count = ck[5]
        del self.loop_report[ck[6]:]
        del self.nonterm[ck[7]:]
        return False

    def unroll(self, act, comp, st, pv, pending, n, complete):
        _, header, blocks, comps = comp
        blk = act.fn.blocks[header]
        s, p = st, pv
        for i in range(n):
            back, ex = self.one_iter(act, comp, s, p)
            for k, v in ex.items():
                pending.setdefault(k, []).extend(v)
            s, p = self.merge(back, blk.phis)
            if s is None:
                return
            if (complete or i % 4 == 3) and not self.dry and not self.feasible(s, True, 3000):
                return
        if complete:
            self.oblige(s, 'unwind', 'loop finishes within %d iterations' % n, False, blk.instrs[0])
            self.bounded.add('loop unrolled %d times with an unwinding obligation' % n)

    # ------------------------------------------------------------ invariant mode
    def stride_of(self, obj, content):
        if obj.es:
            return obj.es
        if obj.symbolic:
            self.fix_es(obj)
            return obj.es
        g = obj.size
        if isinstance(content, CellC) and content.cells:
            for off, (s, v) in content.cells.items():
                g = math.gcd(g, s)
                g = math.gcd(g, off)
        return max(g, 1)

    def havoc_ptr(self, alts, name, st):
        """alts: list of [obj, rem, stride] -> Ptr"""
        out = []
        rest = True
        n = len(alts)
        for i, (o, rem, stride) in enumerate(alts):
            if i == n - 1:
                c = rest
            else:
                b = fresh('sel_' + name, 1)
                c = And(rest, b)
                rest = And(rest, Not(b))
            if o is None:
                out.append((c, None, 0))
            elif stride == 0:
                out.append((c, o, rem))
            else:
                out.append((c, o, add(rem, mul(fresh('h_' + name, 64), stride, 64), 64)))
        return Ptr(out)

    def ptr_alts(self, info, p, st):
        """extend list of alternatives by those of p; -> changed"""
        ch = False
        for c, o, f in p.alts:
            if c is False:
                continue
            if o is UNDEF_OBJ:
                if not any(a[0] is UNDEF_OBJ for a in info):
                    info.append([UNDEF_OBJ, 0, 0])
                    ch = True
                continue
            if o is None:
                if not (isinstance(f, int) and f == 0):
                    raise Unsupported('integer valued pointer in a loop')
                if not any(a[0] is None for a in info):
                    info.append([None, 0, 0])
                    ch = True
                continue
            if o.kind == 'func' or (isinstance(o.size, int) and o.size == 0):
                if not any(a[0] is o for a in info):
                    info.append([o, 0, 0])
                    ch = True
                continue
            stride = self.stride_of(o, self.content(st, o))
            a = affine(f)
            rem = sgn(a[0], 64) % stride
            if not aff_divisible((0, a[1]), stride):
                try:
                    _, rem = self.split_off(o, f) if o.es else (0, rem)
                except Unsupported:
                    if o.es:
                        raise
                    g = stride
                    for co, _t in a[1].values():
                        g = math.gcd(g, abs(sgn(co, 64)))
                    stride = max(g, 1)
                    rem = sgn(a[0], 64) % stride
            for e in info:
                if e[0] is o:
                    if e[2] == 0:
                        e[1], e[2] = rem, stride
                        ch = True
                    if (e[1] - rem) % e[2] or stride % e[2]:
                        g = math.gcd(e[2], math.gcd(stride, abs(e[1] - rem)))
                        if o.es and g % o.es:
                            raise Unsupported('pointer with several sub-element offsets in a loop')
                        if g != e[2]:
                            e[2] = g
                            e[1] = rem % g
                            ch = True
                    break
            else:
                info.append([o, rem, stride])
                ch = True
        return ch

    def havoc(self, st, pv, mods):
        """-> new state, new phi values"""
        m0 = fresh_mark() + 1
        try:
            return self.havoc_(st, pv, mods)
        finally:
            m1 = fresh_mark()
            if m1 >= m0:
                self.havocs.append((m0, m1))
                self.hv_syms.update(range(m0, m1 + 1))

    def havoc_(self, st, pv, mods):
        h = st.fork()
        hp = dict(pv)
        for m, info in mods.items():
            if m[0] == 'phi':
                k, ty = m[1], info['ty']
                if ty.k == 'ptr':
                    hp[k] = self.havoc_ptr(info['alts'], 'p', h)
                elif ty.k in ('struct', 'array', 'vector'):
                    raise Unsupported('aggregate phi in a loop')
                elif info.get('ptrint'):
                    hp[k] = PtrInt(self.havoc_ptr(info['alts'], 'p', h))
                else:
                    hp[k] = fresh('phi', ty.w)
        bycell = {}
        for m, info in mods.items():
            if m[0] == 'cell':
                bycell.setdefault(m[1], []).append((m[2], info))
            elif m[0] == 'arr':
                o = m[1]
                c = self.content(h, o)
                nc = ArrC(o.name)
                lanes = {}
                for key, l in c.lanes.items():
                    if info['lanes'] is None or key in info['lanes']:
                        lanes[key] = BaseLane('hv_%s' % o.name, key[1] * 8)
                    else:
                        lanes[key] = l
                al = h.mem[o][0] if o in h.mem else True
                dirty = info['lanes']

                def derive(key, c=c, o=o, info=info):
                    return BaseLane('hv_%s' % o.name, key[1] * 8) if key in c.lanes else c.lane(key)

                def mk(key, o=o):
                    l = BaseLane('hv_%s' % o.name, key[1] * 8)
                    n = fresh_mark()
                    self.hv_syms.add(n)
                    self.havocs.append((n, n))
                    return l
                h.mem[o] = (al, ArrC(o.name, lanes, mk))
        for o, cells in bycell.items():
            c = self.content(h, o).copy()
            for off, info in cells:
                if info.get('alts') is not None:
                    p = self.havoc_ptr(info['alts'], 'm', h)
                    c.write(off, info['size'], PtrInt(p) if info.get('ptrint') else p)
                else:
                    c.write(off, info['size'], fresh('m_%s_%d' % (o.name, off), info['size'] * 8))
            al = h.mem[o][0] if o in h.mem else True
            h.mem[o] = (al, c)
        for m, info in mods.items():
            if m[0] == 'alive':
                e = h.mem[m[1]]
                h.mem[m[1]] = (fresh('alive', 1), e[1])
        return h, hp

    def discover(self, act, comp, st, pv):
        """which parts of the state does the loop modify?  -> mods or None when the back edge is never taken"""
        _, header, blocks, comps = comp
        blk = act.fn.blocks[header]
        mods = {}
        # optimistic: assume nothing is modified, grow
        rounds = 0
        while True:
            rounds += 1
            if rounds > 30:
                raise Unsupported('loop modification analysis does not converge')
            mark = fresh_mark()
            hv0 = len(self.havocs)
            h, hp = self.havoc(st, pv, mods)
            self.cmplogs.append([])
            self.quiet += 1
            self.dry += 1
            nex = len(act.excs)
            fr, self.frames = self.frames, []
            try:
                back, ex = self.one_iter(act, comp, h.fork(), hp)
                bst, bpv = self.merge(back, blk.phis)
            finally:
                self.quiet -= 1
                self.dry -= 1
                self.frames = fr
                del act.excs[nex:]
                cmplog = self.cmplogs.pop()
                self.discard_havocs(hv0)
            if bst is None:
                return None if rounds == 1 else mods
            ch = False
            for ph in blk.phis:
                k = ph.key
                a, b = hp[k], (bpv or {}).get(k)
                m = ('phi', k)
                if ph.ty.k == 'ptr' or isinstance(a, PtrInt) or isinstance(b, PtrInt):
                    if same_val(a, b) if not isinstance(a, PtrInt) else a is b:
                        continue
                    if m not in mods:
                        mods[m] = {'ty': ph.ty, 'alts': [], 'ptrint': ph.ty.k != 'ptr'}
                        ch = True
                    for v in (pv[k], b):
                        if isinstance(v, int):
                            v = Ptr([(True, None, v)])
                        elif isinstance(v, PtrInt):
                            v = v.p
                        ch |= self.ptr_alts(mods[m]['alts'], v, st if v is pv[k] else bst)
                elif ph.ty.k in ('struct', 'array', 'vector'):
                    if a is not b:
                        raise Unsupported('aggregate phi in a loop')
                else:
                    if same(a, b):
                        continue
                    if m not in mods:
                        mods[m] = {'ty': ph.ty}
                        ch = True
            for o in list(bst.mem):
                eb = bst.mem[o]
                if o not in h.mem:
                    if o.init is not None:
                        eh = (True, o.init)
                    else:
                        if o.kind == 'heap' and eb[0] is not False:
                            raise Unsupported('allocation inside a loop survives the iteration')
                        continue
                else:
                    eh = h.mem[o]
                if eh is eb:
                    continue
                if not same(eh[0], eb[0]):
                    m = ('alive', o)
                    if m not in mods:
                        mods[m] = {}
                        ch = True
                    if o.kind == 'stack' and eb[0] is False:
                        continue
                a, b = eh[1], eb[1]
                if a is b:
                    continue
                if isinstance(a, ArrC):
                    dirty = set()
                    for key in set(a.lanes) | set(b.lanes):
                        if a.lane(key) is not b.lane(key):
                            dirty.add(key)
                    if dirty:
                        m = ('arr', o)
                        if m not in mods:
                            mods[m] = {'lanes': set()}
                            ch = True
                        if not dirty <= mods[m]['lanes']:
                            mods[m]['lanes'] |= dirty
                            ch = True
                    continue
                for off in set(a.cells) | set(b.cells):
                    x, y = a.cells.get(off), b.cells.get(off)
                    if x is not None and y is not None and x[0] == y[0]:
                        if x[1] is y[1] or same_val(x[1], y[1]):
                            continue
                        size = x[0]
                        isptr = isinstance(x[1], (Ptr, PtrInt)) or isinstance(y[1], (Ptr, PtrInt))
                    elif y is None and x is not None:
                        # cell absorbed by a different layout or went out of existence
                        cov = b.covering(off, x[0])
                        if not cov:
                            continue
                        if len(cov) == 1 and cov[0][0] <= off and cov[0][0] + cov[0][1][0] >= off + x[0]:
                            continue
                        size = x[0]
                        isptr = False
                    elif x is None:
                        cov = a.covering(off, y[0])
                        size = y[0]
                        isptr = isinstance(y[1], (Ptr, PtrInt))
                        if len(cov) == 1 and cov[0][0] <= off and cov[0][0] + cov[0][1][0] >= off + size and not isptr:
                            # sub-field of a wider cell: havoc the wider one
                            off, (size, _v) = cov[0]
                    else:
                        size = max(x[0], y[0])
                        isptr = False
                    m = ('cell', o, off)
                    if m not in mods:
                        mods[m] = {'size': size}
                        ch = True
                    elif mods[m]['size'] < size:
                        mods[m]['size'] = size
                        ch = True
                    if isptr:
                        info = mods[m]
                        if 'alts' not in info:
                            info['alts'] = []
                            ch = True
                        e = self.content(st, o).cells.get(off) if (o in st.mem or o.init is not None) else None
                        for src, v in ((st, e[1] if e else None), (bst, y[1] if y else None)):
                            if v is None:
                                continue
                            if isinstance(v, PtrInt):
                                info['ptrint'] = True
                                v = v.p
                            elif not isinstance(v, Ptr):
                                v = int_to_ptr(v)
                            ch |= self.ptr_alts(info['alts'], v, src)
            if not ch:
                self.bounds = self.invariant_bounds(cmplog, mark)
                self.probe = (h, hp, bst, bpv, mark)
                return mods

    def summaries(self, mods, names):
        """arrays of which every iteration writes the next element: candidate
        descriptions of their content after any number of iterations"""
        h, hp, bst, bpv, mark = self.probe
        if bst is None:
            return []
        out = []
        slots = var = lanes = None
        for m in mods:
            if m[0] != 'arr':
                continue
            o = m[1]
            hc, bc = self.content(h, o), self.content(bst, o)
            if not isinstance(hc, ArrC) or not isinstance(bc, ArrC):
                continue
            for key in list(bc.lanes):
                cl, hl = bc.lanes[key], hc.lane(key)
                if cl is hl or not isinstance(cl, UpdLane) or cl.prev is not hl:
                    continue
                if slots is None:
                    slots, _ = self.make_slots(h, hp, mods, names)
                    var = {}
                    for x in slots:
                        if x.guard is not None or x.w == 1:
                            continue
                        a = x.get(h, hp)
                        if isinstance(a, int) or isinstance(a, bool) or not z3.is_const(a) or a.decl().kind() != z3.Z3_OP_UNINTERPRETED:
                            continue
                        d = sub(x.get(bst, bpv), a, x.w)
                        if x.w == 64 and not isinstance(d, int):
                            d = unaffine(affine(d))
                        if not isinstance(d, int) and z3.is_bv(d):
                            d = z3.simplify(d)
                            d = d.as_long() if z3.is_bv_value(d) else None
                        var[a.get_id()] = (x, sgn(d, x.w) if isinstance(d, int) else None, a)
                    lanes = {}
                    for ob, e in h.mem.items():
                        if isinstance(e[1], ArrC):
                            for k2, l in e[1].lanes.items():
                                while l is not None:
                                    if isinstance(l, BaseLane):
                                        lanes[l.arr.get_id()] = (ob, k2, l)
                                    l = getattr(l, 'prev', None)
                r = self.summary(cl, var, lanes, mods, mark)
                if r is not None:
                    out.append((o, key, r))
        return out

    def summary(self, cl, var, lanes, mods, mark):
        i, v, w = cl.idx, cl.val, cl.w
        if isinstance(i, int):
            return None
        step = 0
        for co, t in affine(i)[1].values():
            if t.get_id() in var:
                if var[t.get_id()][1] is None:
                    return None
                step += sgn(co, 64) * var[t.get_id()][1]
            elif not self.loop_const(t, mark):
                return None
        if step not in (1, -1):
            return None
        if not isinstance(v, (int, bool)):
            if isinstance(v, (Ptr, PtrInt)):
                return None
            if not self.summable(v, var, lanes, mods, mark):
                return None

        def subst(ex, e, val, entry):
            """e with the loop variables replaced by their values val(slot, step); arrays the loop writes as on entry"""
            memo = {}

            def go(e):
                if isinstance(e, (int, bool)):
                    return e
                r = memo.get(e.get_id())
                if r is None:
                    r = memo[e.get_id()] = go_(e)
                return r

            def go_(e):
                if e.get_id() in var:
                    x, d, _ = var[e.get_id()]
                    return val(x, d)
                n = e.num_args()
                if n == 0:
                    return e
                ln = lanes.get(e.decl().get_id()) if n == 1 else None
                if ln is not None:
                    k = go(e.arg(0))
                    if not isinstance(k, int):
                        k = unaffine(affine(k))
                    ob, key, l = ln
                    if ('arr', ob) in mods:
                        return bv(entry(ob, key).read(ex, k), l.w)
                    return bv(l.read(ex, k), l.w)
                kd = e.decl().kind()
                ch = [go(c) for c in e.children()]
                if all(c is d or (not isinstance(c, (int, bool)) and c.eq(d)) for c, d in zip(ch, e.children())):
                    return e
                ch = [(z3.BoolVal(c) if z3.is_bool(d) else bv(c, d.size())) if isinstance(c, (int, bool)) else c for c, d in zip(ch, e.children())]
                if kd in (z3.Z3_OP_BADD, z3.Z3_OP_BMUL, z3.Z3_OP_BSUB, z3.Z3_OP_BNEG) and e.size() == 64:
                    r = ch[0]
                    for c in ch[1:]:
                        r = r + c if kd == z3.Z3_OP_BADD else r * c if kd == z3.Z3_OP_BMUL else r - c
                    if kd == z3.Z3_OP_BNEG:
                        r = -r
                    return bv(unaffine(affine(r)), 64)
                if kd in (z3.Z3_OP_BADD, z3.Z3_OP_BMUL, z3.Z3_OP_BAND, z3.Z3_OP_BOR, z3.Z3_OP_BXOR, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_CONCAT) and len(ch) != 2:
                    r = ch[0]
                    for c in ch[1:]:
                        r = {z3.Z3_OP_BADD: lambda a, b: a + b, z3.Z3_OP_BMUL: lambda a, b: a * b, z3.Z3_OP_BAND: lambda a, b: a & b,
                             z3.Z3_OP_BOR: lambda a, b: a | b, z3.Z3_OP_BXOR: lambda a, b: a ^ b, z3.Z3_OP_AND: z3.And, z3.Z3_OP_OR: z3.Or,
                             z3.Z3_OP_CONCAT: z3.Concat}[kd](r, c)
                    return r
                return e.decl()(*ch)
            r = go(e)
            return r

        def mk(est, epv):
            def entry(ob, key):
                return self.content(est, ob).lane(key)

            def at_entry(x, d):
                return bv(x.get(est, epv), x.w)
            o, key = None, None
            for (ob, k2, l) in lanes.values():
                if l is cl.prev:
                    o, key = ob, k2
            el = entry(o, key)

            def F(st, pv):
                ic = unaffine(affine(subst(self, i, lambda x, d: bv(x.get(st, pv), x.w), entry)))
                ie = unaffine(affine(subst(self, i, at_entry, entry)))
                n = sub(ic, ie, 64) if step == 1 else sub(ie, ic, 64)
                cache = {}

                def f(ex, j):
                    k = j if isinstance(j, int) else ('z', j.get_id())
                    if k in cache:
                        return cache[k][0]
                    t = sub(j, ie, 64) if step == 1 else sub(ie, j, 64)
                    c = cmp('ult', t, n, 64)
                    old = el.read(ex, j) if c is not True else None
                    if c is False:
                        r = old
                    else:
                        if isinstance(v, (int, bool)):
                            new = v
                        else:
                            def then(x, d):
                                a = x.get(est, epv)
                                if not d:
                                    return bv(a, x.w)
                                return bv(add(a, mul(trunc(t, 64, x.w), d & mask(x.w), x.w), x.w), x.w)
                            new = subst(ex, v, then, entry)
                        r = ite(c, new, old, w)
                    cache[k] = (r, j)
                    return r
                return f
            return F
        return mk

    def loop_const(self, t, mark):
        if t.num_args() == 0:
            return t.decl().kind() != z3.Z3_OP_UNINTERPRETED or fresh_number(t.decl().name()) <= mark
        return all(self.loop_const(c, mark) for c in t.children()) and \
            (t.decl().kind() != z3.Z3_OP_UNINTERPRETED or fresh_number(t.decl().name()) <= mark)

    def summable(self, v, var, lanes, mods, mark):
        seen = set()
        todo = [v]
        while todo:
            e = todo.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if len(seen) > 300:
                return False
            if e.get_id() in var:
                if var[e.get_id()][1] is None:
                    return False
                continue
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                ln = lanes.get(e.decl().get_id()) if e.num_args() == 1 else None
                if ln is None and fresh_number(e.decl().name()) > mark:
                    return False
            todo.extend(e.children())
        return True

    def invariant_bounds(self, log, mark):
        """operands of comparisons executed in the loop that do not depend on the loop state"""
        out = []

        def old(e):
            if isinstance(e, (int, bool)):
                return True
            todo = [e]
            cache = set()
            n = 0
            while todo:
                x = todo.pop()
                i = x.get_id()
                if i in cache:
                    continue
                n += 1
                if n > 3000:
                    return False
                cache.add(i)
                d = x.decl()
                if d.kind() == z3.Z3_OP_UNINTERPRETED:
                    if fresh_number(d.name()) > mark:
                        return False
                todo.extend(x.children())
            return True

        def add_(v, w):
            for v2, w2 in out:
                if w2 == w and (same_val(v, v2) if w == 0 else same(v, v2)):
                    return
            out.append((v, w))
        for a, b, w in log:
            for x, y in ((a, b), (b, a)):
                if w == 0 or isinstance(x, PtrInt):
                    p = x.p if isinstance(x, PtrInt) else x
                    if not isinstance(p, Ptr) or len(p.alts) != 1 or p.alts[0][1] is None:
                        continue
                    if old(p.alts[0][2]):
                        add_(p, 0)
                elif w > 1 and not isinstance(x, PtrInt) and not isinstance(x, Agg):
                    if not isinstance(x, int) and old(x):
                        add_(x, w)
                    elif isinstance(x, int) and x > 1 and not isinstance(y, int):
                        add_(x, w)
            if len(out) > 6:
                break
        return out

    def idx_of(self, p, obj, rem, stride):
        """element index of pointer p within obj, and the condition that it points there"""
        val = None
        cond = False
        for c, o, f in p.alts:
            if o is obj:
                a = affine(sub(f, rem, 64))
                if aff_divisible(a, stride):
                    i = unaffine(aff_div(a, stride))
                else:
                    i = self.exact_div(sub(f, rem, 64), stride)
                    if i is None:
                        i = self.exact_slow(f, rem, stride)
                val = i if val is None else ite(c, i, val, 64)
                cond = Or(cond, c)
        if val is None:
            return 0, False
        return val, cond

    def exact_slow(self, f, rem, stride):
        return bv(sub(f, rem, 64), 64) / bv(stride, 64)

    def make_slots(self, st, pv, mods, names):
        slots = []

        def ptr_slots(name, get, alts, ptrint):
            multi = len(alts) > 1
            for (o, rem, stride) in alts:
                if multi:
                    def g2(s, p, get=get, o=o):
                        x = get(s, p)
                        if isinstance(x, PtrInt):
                            x = x.p
                        if not isinstance(x, Ptr):
                            x = int_to_ptr(x)
                        return Or(*[c for c, ob, f in x.alts if ob is o])
                    slots.append(Slot(name + ' points to ' + (o.name if o else 'null'), 1, g2))
                if o is None or stride == 0:
                    continue

                def g(s, p, get=get, o=o, rem=rem, stride=stride):
                    x = get(s, p)
                    if isinstance(x, PtrInt):
                        x = x.p
                    if not isinstance(x, Ptr):
                        x = int_to_ptr(x)
                    return self.idx_of(x, o, rem, stride)[0]

                def gd(s, p, get=get, o=o, rem=rem, stride=stride):
                    x = get(s, p)
                    if isinstance(x, PtrInt):
                        x = x.p
                    if not isinstance(x, Ptr):
                        x = int_to_ptr(x)
                    return self.idx_of(x, o, rem, stride)[1]
                slots.append(Slot('%s@%s' % (name, o.name), 64, g, True, gd if multi else None, o))
                slots[-1].geom = (rem, stride)
        ncell = sum(1 for m in mods if m[0] == 'cell')
        bulk = {}
        for m, info in mods.items():
            if m[0] == 'cell' and 'alts' not in info:
                bulk.setdefault(m[1], []).append(m)
        bulkobjs = {o for o, l in bulk.items() if len(l) > 6}
        for m, info in mods.items():
            if m[0] == 'phi':
                k, ty = m[1], info['ty']
                nm = names.get(k, 'phi')
                get = (lambda s, p, k=k: p[k])
                if ty.k == 'ptr' or info.get('ptrint'):
                    ptr_slots(nm, get, info['alts'], info.get('ptrint'))
                else:
                    slots.append(Slot(nm, ty.w, get))
            elif m[0] == 'cell':
                o, off = m[1], m[2]
                if o in bulkobjs:
                    continue
                size = info['size']

                def getc(s, p, o=o, off=off, size=size):
                    return self.content(s, o).read(off, size)
                if 'alts' in info:
                    ptr_slots('%s+%d' % (o.name, off), getc, info['alts'], info.get('ptrint'))
                elif size <= 8:
                    slots.append(Slot('%s+%d' % (o.name, off), size * 8, getc))
            elif m[0] == 'alive':
                o = m[1]
                slots.append(Slot('alive(%s)' % o.name, 1, lambda s, p, o=o: s.mem[o][0] if o in s.mem else True))
        return slots, bulkobjs

    def outer_vals(self):
        """values of the variables of the enclosing loops (fixed during the inner loop)"""
        return [x for lv in self.outer_stack for x in lv][-6:]

    def candidates(self, slots, est, epv, mods, hst, hpv, bulkobjs):
        """list of (name, fn(state, phivals) -> bool)   fn is evaluated at the header (entry, havocked, back)"""
        C = []
        ent = {}
        for s in slots:
            ent[id(s)] = s.get(est, epv)
        MAXINT = 14
        ints = [s for s in slots if s.w > 1]
        bools = [s for s in slots if s.w == 1]

        def G(s, f):
            if s.guard is None:
                return f
            return lambda st, pv: Implies(s.guard(st, pv), f(st, pv))

        def isundef(v):
            return not is_c(v) and v.decl().kind() == z3.Z3_OP_UNINTERPRETED and v.decl().name().startswith('undef!')
        for s in bools:
            e = ent[id(s)]
            C.append((s.name, lambda st, pv, s=s: s.get(st, pv)))
            C.append(('!' + s.name, lambda st, pv, s=s: Not(s.get(st, pv))))
            if not is_c(e):
                C.append((s.name + '==entry', lambda st, pv, s=s, e=e: Not(xor1(s.get(st, pv), e))))
        pool = [('0', 0, 64), ('1', 1, 64)]
        for i, n in enumerate(self.sizes):
            if not isinstance(n, int):
                pool.append(('size%d' % i, n, 64))
        seenobj = set()
        for s in ints:
            if s.ptr and s.obj is not None and s.obj not in seenobj:
                seenobj.add(s.obj)
                if s.obj.count is not None:
                    pool.append(('count(%s)' % s.obj.name, s.obj.count, 64))
                elif isinstance(s.obj.size, int):
                    pool.append(('size(%s)' % s.obj.name, s.obj.size // max(1, self.stride_of(s.obj, None)), 64))
        for i, g in enumerate(self.ghosts):
            if not isinstance(g, int):
                pool.append(('ghost%d' % i, g, 64))
        for s in ints:
            e = ent[id(s)]
            if not isundef(e):
                pool.append(('entry(%s)' % s.name, e, s.w))
        for i, (v, w) in enumerate(self.cur_bounds):
            if w:
                pool.append(('bound%d' % i, v, w))
        # dedupe pool
        P = []
        for n, v, w in pool:
            if not any(w2 == w and same(v, v2) for _, v2, w2 in P):
                P.append((n, v, w))
        pool = P
        preds = ('eq', 'ule', 'uge', 'ne')
        for s in ints[:MAXINT]:
            if s.obj is not None:
                for i, (v, w) in enumerate(self.cur_bounds):
                    if w == 0 and v.alts[0][1] is s.obj:
                        vv = self.idx_of(v, s.obj, *s.geom)[0]
                        for p in ('ule', 'uge'):
                            C.append(('%s %s bound%d' % (s.name, p, i), G(s, lambda st, pv, s=s, p=p, vv=vv: cmp(p, s.get(st, pv), vv, s.w))))
            for n, v, w in pool:
                if w == s.w or (w == 64 and isinstance(v, int)):
                    vv = v
                    for p in preds:
                        if p == 'ne' and not (isinstance(v, int) or not n.startswith('entry')):
                            continue
                        C.append(('%s %s %s' % (s.name, p, n), G(s, lambda st, pv, s=s, p=p, vv=vv: cmp(p, s.get(st, pv), vv, s.w))))
                    if not s.ptr and s.w >= 16:
                        for p in ('sle', 'sge'):
                            C.append(('%s %s %s' % (s.name, p, n), G(s, lambda st, pv, s=s, p=p, vv=vv: cmp(p, s.get(st, pv), vv, s.w))))
        for i, s in enumerate(ints[:MAXINT]):
            for j, t in enumerate(ints[:MAXINT]):
                if i == j:
                    continue
                es, et = ent[id(s)], ent[id(t)]

                def GG(f, s=s, t=t):
                    return G(s, G(t, f))
                if s.w == t.w:
                    if i < j:
                        C.append(('%s == %s' % (s.name, t.name), GG(lambda st, pv, s=s, t=t: cmp('eq', s.get(st, pv), t.get(st, pv), s.w))))
                    C.append(('%s <= %s' % (s.name, t.name), GG(lambda st, pv, s=s, t=t: cmp('ule', s.get(st, pv), t.get(st, pv), s.w))))
                    if i < j and not isundef(es) and not isundef(et):
                        d = sub(es, et, s.w)
                        C.append(('%s - %s == entry' % (s.name, t.name),
                                  GG(lambda st, pv, s=s, t=t, d=d: cmp('eq', sub(s.get(st, pv), t.get(st, pv), s.w), d, s.w))))
                        d2 = add(es, et, s.w)
                        C.append(('%s + %s == entry' % (s.name, t.name),
                                  GG(lambda st, pv, s=s, t=t, d2=d2: cmp('eq', add(s.get(st, pv), t.get(st, pv), s.w), d2, s.w))))
                        if s.ptr == t.ptr or True:
                            # advance of s at most the advance of t and vice versa
                            C.append(('%s advanced <= %s advanced' % (s.name, t.name),
                                      GG(lambda st, pv, s=s, t=t, es=es, et=et: cmp('ule', sub(s.get(st, pv), es, s.w), sub(t.get(st, pv), et, s.w), s.w))))
                            C.append(('%s advanced >= %s advanced' % (s.name, t.name),
                                      GG(lambda st, pv, s=s, t=t, es=es, et=et: cmp('uge', sub(s.get(st, pv), es, s.w), sub(t.get(st, pv), et, s.w), s.w))))
                elif s.w == 64 and t.w == 32 and not isundef(es) and not isundef(et):
                    for ext, en in ((sext, 'sext'), (zext, 'zext')):
                        d = sub(es, ext(et, 32, 64), 64)
                        C.append(('%s - %s(%s) == entry' % (s.name, en, t.name),
                                  GG(lambda st, pv, s=s, t=t, d=d, ext=ext: cmp('eq', sub(s.get(st, pv), ext(t.get(st, pv), 32, 64), 64), d, 64))))
        # ghost predicates
        idx = [s for s in ints if s.w in (32, 64)][:MAXINT]
        gh = [g for g in self.ghosts if not isinstance(g, int)][:6]
        for pi, P_ in enumerate(self.preds[-8:]):
            C.append(('P%d' % pi, lambda st, pv, P_=P_: P_))
            for s in idx:
                e = ent[id(s)]
                for gi, g in enumerate(gh):
                    for nm, pr in (('<', 'ult'), ('<=', 'ule'), ('>=', 'uge'), ('>', 'ugt')):
                        C.append(('ghost%d %s %s => P%d' % (gi, nm, s.name, pi),
                                  G(s, lambda st, pv, s=s, g=g, pr=pr, P_=P_: Implies(cmp(pr, g, u64(s.get(st, pv), s.w), 64), P_))))
                    if not (isinstance(e, int) and e == 0) and not isundef(e):
                        C.append(('ghost%d < advance(%s) => P%d' % (gi, s.name, pi),
                                  G(s, lambda st, pv, s=s, g=g, P_=P_, e=e: Implies(cmp('ult', g, u64(sub(s.get(st, pv), e, s.w), s.w), 64), P_))))
        if self.opts.get('manual'):
            del C[:]
        # hints
        for hi, (n, fn, ctx) in enumerate(self.hints[-12:]):
            if isinstance(n, tuple):
                _, k, size = n
                objs = []
                for m in mods:
                    if m[0] in ('cell', 'arr') and m[1] not in objs and m[1].size == size:
                        objs.append(m[1])
                for o in objs[:4]:
                    op = Ptr([(True, o, 0)])
                    if k == 0:
                        C.append(('hint%d(%s)' % (hi, o.name), lambda st, pv, fn=fn, ctx=ctx, op=op: self.eval_pred(fn, [ctx, op], st)))
                        continue
                    for s in idx:
                        C.append(('hint%d(%s,%s)' % (hi, o.name, s.name), G(s, lambda st, pv, s=s, fn=fn, ctx=ctx, op=op: self.eval_pred(fn, [ctx, op, u64(s.get(st, pv), s.w)], st))))
                        e = ent[id(s)]
                        if not (isinstance(e, int) and e == 0) and not isundef(e):
                            C.append(('hint%d(%s,adv %s)' % (hi, o.name, s.name), G(s, lambda st, pv, s=s, fn=fn, ctx=ctx, e=e, op=op: self.eval_pred(fn, [ctx, op, u64(sub(s.get(st, pv), e, s.w), s.w)], st))))
            elif n == 0:
                C.append(('hint%d' % hi, lambda st, pv, fn=fn, ctx=ctx: self.eval_pred(fn, [ctx], st)))
            elif n == 1:
                for s in idx:
                    C.append(('hint%d(%s)' % (hi, s.name), G(s, lambda st, pv, s=s, fn=fn, ctx=ctx: self.eval_pred(fn, [ctx, u64(s.get(st, pv), s.w)], st))))
                    if s.w == 32:
                        C.append(('hint%d(sext %s)' % (hi, s.name), G(s, lambda st, pv, s=s, fn=fn, ctx=ctx: self.eval_pred(fn, [ctx, sext(s.get(st, pv), s.w, 64)], st))))
                    e = ent[id(s)]
                    if not (isinstance(e, int) and e == 0) and not isundef(e):
                        C.append(('hint%d(adv %s)' % (hi, s.name), G(s, lambda st, pv, s=s, fn=fn, ctx=ctx, e=e: self.eval_pred(fn, [ctx, u64(sub(s.get(st, pv), e, s.w), s.w)], st))))
                        C.append(('hint%d(dec %s)' % (hi, s.name), G(s, lambda st, pv, s=s, fn=fn, ctx=ctx, e=e: self.eval_pred(fn, [ctx, u64(sub(e, s.get(st, pv), s.w), s.w)], st))))
            else:
                ai = [s for s in ints if s.w in (8, 16, 32, 64)][:8]
                for nm, ov in self.outer_vals():
                    for s in ai[:6]:
                        if s.w == 64:
                            C.append(('hint%d(%s,%s)' % (hi, nm, s.name),
                                      G(s, lambda st, pv, s=s, fn=fn, ctx=ctx, ov=ov: self.eval_pred(fn, [ctx, ov, u64(s.get(st, pv), s.w)], st))))
                for s in ai:
                    for t in ai:
                        if s is t:
                            continue
                        C.append(('hint%d(%s,%s)' % (hi, s.name, t.name),
                                  G(s, G(t, lambda st, pv, s=s, t=t, fn=fn, ctx=ctx: self.eval_pred(fn, [ctx, u64(s.get(st, pv), s.w), u64(t.get(st, pv), t.w)], st)))))
        # unmodified parts of modified arrays: handled separately (need lemmas)
        A = []
        for m, info in mods.items():
            if m[0] == 'arr':
                o = m[1]
                ec = self.content(est, o)
                hc = self.content(hst, o)
                vs = [(n, (lambda st, pv, v=v: v), None) for n, v, w in pool if w == 64 and not (isinstance(v, int))][:8]
                vs += [(s.name, (lambda st, pv, s=s: u64(s.get(st, pv), s.w)), s.guard) for s in idx if s.w == 64]
                for key in list(hc.lanes):
                    el, hl = ec.lane(key), hc.lanes[key]
                    if el is hl:
                        continue
                    A.append(('%s unchanged' % o.name, o, key, el, hl, None, None, None))
                    sums = [mk for so, sk, mk in self.cur_sums if so is o and sk == key]
                    for mk in sums:
                        A.append(('%s: the elements visited so far have their final value, the others are unchanged' % o.name, o, key, el, hl, 'sum', mk(est, epv), None))
                    if sums:
                        continue
                    for n, g, gd in vs:
                        A.append(('%s[j] unchanged for j < %s' % (o.name, n), o, key, el, hl, 'ult', g, gd))
                        A.append(('%s[j] unchanged for j >= %s' % (o.name, n), o, key, el, hl, 'uge', g, gd))
                        A.append(('%s[j] unchanged for j > %s' % (o.name, n), o, key, el, hl, 'ugt', g, gd))
            elif m[0] == 'cell' and m[1] in bulkobjs:
                o, off, size = m[1], m[2], info['size']
                e0 = self.content(est, o).cells.get(off)
                if e0 is None or e0[0] != size or isinstance(e0[1], (Ptr, PtrInt)):
                    continue
                st_ = self.stride_of(o, self.content(est, o))
                ci = off // max(1, st_)
                ev = e0[1]

                def eqv(st, pv, o=o, off=off, size=size, ev=ev):
                    return cmp('eq', self.content(st, o).read(off, size), ev, size * 8)
                for s in idx:
                    if s.w == 64:
                        C.append(('%s+%d kept if %d<%s' % (o.name, off, ci, s.name), G(s, lambda st, pv, s=s, ci=ci, eqv=eqv: Implies(cmp('ult', ci, s.get(st, pv), 64), eqv(st, pv)))))
                        C.append(('%s+%d kept if %d>=%s' % (o.name, off, ci, s.name), G(s, lambda st, pv, s=s, ci=ci, eqv=eqv: Implies(cmp('uge', ci, s.get(st, pv), 64), eqv(st, pv)))))
        return C, A

    def inv_loop(self, act, comp, st, pv, pending):
        _, header, blocks, comps = comp
        blk = act.fn.blocks[header]
        mods = self.discover(act, comp, st, pv)
        bounds = self.bounds
        if mods is None:
            back, ex = self.one_iter(act, comp, st, pv)
            for k, v in ex.items():
                pending.setdefault(k, []).extend(v)
            return
        names = {ph.key: 'phi%d' % i for i, ph in enumerate(blk.phis)}
        summaries = [] if self.dry or self.opts.get('nosum') else self.summaries(mods, names)
        if self.dry:
            h, hp = self.havoc(st, pv, mods)
            back, ex = self.one_iter(act, comp, h, hp)
            for k, v in ex.items():
                pending.setdefault(k, []).extend(v)
            return
        alive = None
        loc = blk.instrs[0].loc or self.cur_loc
        rounds = 0
        self.loop_seq += 1
        mykey = self.loop_path + ((self.loop_seq, header, act.fn.name),)
        ck = (len(self.obligs), self.trivial, len(act.excs), len(self.covers), len(self.inputs), len(self.loop_report), len(self.nonterm))
        self.inv_count += 1
        while True:
            rounds += 1
            ic = self.inv_count
            hv0 = len(self.havocs)
            h, hp = self.havoc(st, pv, mods)
            slots, bulkobjs = self.make_slots(h, hp, mods, names)
            self.cur_bounds = bounds
            self.cur_sums = summaries
            C, A = self.candidates(slots, st, pv, mods, h, hp, bulkobjs)
            cnames = self.cnames = {i: (C[i][0] if i < len(C) else A[i - len(C)][0]) for i in range(len(C) + len(A))}
            if alive is None:
                # what did not survive under the stronger assumptions of an earlier round of the
                # enclosing loop does not survive now either
                dead = self.dead_names.get(mykey)
                alive = self.entry_filter(C, A, st, pv, [i for i in cnames if dead is None or cnames[i] not in dead])
            inv = fresh('inv', 1)
            inds = {}
            # candidate facts at the header
            for i in alive:
                b = fresh('c', 1)
                inds[i] = b
                if i < len(C):
                    f = C[i][1](h, hp)
                    if f is True:
                        continue
                    if f is False:
                        f = z3.BoolVal(False)
                    self.fact(Implies(And(inv, b), f))
                else:
                    nm, o, key, el, hl, pr, g, gd = A[i - len(C)]
                    if pr == 'sum':
                        def lem(ex, j, hl=hl, b=b, inv=inv, F=g(h, hp)):
                            ex.fact(Implies(And(inv, b), cmp('eq', hl.sel(j), F(ex, j), hl.w)))
                        lem.free = True
                        hl.add_lemma(self, lem)
                        continue
                    gv = g(h, hp) if g else None
                    gdv = gd(h, hp) if gd else True

                    def lem(ex, j, el=el, hl=hl, pr=pr, gv=gv, gdv=gdv, b=b, inv=inv):
                        r = cmp(pr, j, gv, 64) if pr else True
                        r = And(r, gdv)
                        if r is False:
                            return
                        ex.fact(Implies(And(inv, b, r), cmp('eq', hl.sel(j), el.read(ex, j), hl.w)))
                    hl.add_lemma(self, lem)
            h.pc = h.pc + (inv,)
            self.active_inds.append(list(inds.values()))
            self.outer_stack.append([(x.name, u64(x.get(h, hp), x.w)) for x in slots if x.w == 64 and x.guard is None][:4])
            sseq, spath = self.loop_seq, self.loop_path
            self.loop_seq, self.loop_path = 0, mykey
            try:
                back, ex = self.one_iter(act, comp, h.fork(), hp)
            finally:
                self.active_inds.pop()
                self.outer_stack.pop()
                self.loop_seq, self.loop_path = sseq, spath
            bst, bpv = self.merge(back, blk.phis)
            nested = self.inv_count != ic
            if bst is None:
                # back edge infeasible: no induction needed
                surv = set(alive)
                bconds = {}
            else:
                self.cnames = cnames
                surv, bconds = self.eliminate(C, A, alive, inds, bst, bpv)
            lost = {(A[i - len(C)][1], A[i - len(C)][2]) for i in cnames if i >= len(C) and A[i - len(C)][5] == 'sum' and i not in surv}
            if lost or nested and surv != set(alive):
                alive = [i for i in alive if i in surv] if not lost else None
                summaries = [x for x in summaries if (x[0], x[1]) not in lost]
                self.discard_havocs(hv0)
                del self.obligs[ck[0]:]
                self.trivial = ck[1]
                del act.excs[ck[2]:]
                del self.covers[ck[3]:]
                del self.inputs[ck[4]:]
                del self.loop_report[ck[5]:]
                del self.nonterm[ck[6]:]
                if rounds > 25:
                    raise Budget('nested loop invariant inference does not converge')
                continue
            break
        keep = [i for i in alive if i in surv]
        kn = {cnames[i] for i in keep}
        self.dead_names[mykey] = {x for x in cnames.values() if x not in kn}
        for i in keep:
            self.fact(inds[i])
        # obligations: established and preserved.  The last round of the inference
        # proved exactly these (each under the surviving candidates), so they are
        # recorded as discharged by that query.
        for i in keep:
            e = self.cand_at(C, A, i, st, pv)
            n0 = len(self.obligs)
            self.oblige(st, 'invariant', 'holds on entry: ' + cnames[i], e, blk.instrs[0])
            if len(self.obligs) > n0:   # proved by entry_filter in this very state
                self.obligs[-1].status = 'proved'
                self.obligs[-1].backend = 'z3 (inference)'
        if bst is not None:
            for i in keep:
                n0 = len(self.obligs)
                self.oblige(bst, 'invariant', 'preserved: ' + cnames[i], bconds.get(i, True), blk.instrs[0])
                if len(self.obligs) > n0:
                    self.obligs[-1].status = 'proved'
                    self.obligs[-1].backend = 'z3 (inference)'
            v = self.find_variant(slots, h, hp, bst, bpv)
            if v is None:
                self.nonterm.append(loc)
            else:
                self.oblige(bst, 'termination', 'loop variant decreases: ' + v[0], v[1], blk.instrs[0])
        self.loop_report.append((loc, [(C[i][0] if i < len(C) else A[i - len(C)][0]) for i in keep], len(C) + len(A)))
        for k, v in ex.items():
            pending.setdefault(k, []).extend(v)

    def cand_at(self, C, A, i, s, pv):
        if i < len(C):
            return C[i][1](s, pv)
        nm, o, key, el, hl, pr, g, gd = A[i - len(C)]
        cl = self.content(s, o).lane(key)
        if cl is el and pr != 'sum':
            return True
        j = fresh('skj', 64)
        if pr == 'sum':
            return cmp('eq', cl.read(self, j), g(s, pv)(self, j), hl.w)
        r = cmp(pr, j, g(s, pv), 64) if pr else True
        if gd:
            r = And(r, gd(s, pv))
        if r is False:
            return True
        return Implies(r, cmp('eq', cl.read(self, j), el.read(self, j), hl.w))

    def mk_solver(self, inds_ok=()):
        s = z3.Solver()
        s.set('timeout', self.opts.get('hto', 4000))
        for f in self.live_facts():
            s.add(f)
        for l in self.active_inds:
            for b in l:
                s.add(b)
        return s

    def entry_filter(self, C, A, st, pv, which):
        vals = {}
        for i in which:
            vals[i] = self.cand_at(C, A, i, st, pv)
        alive = [i for i in vals if vals[i] is True]
        todo = [i for i in vals if vals[i] is not True and vals[i] is not False]
        if todo:
            s = self.mk_solver()
            for x in st.pc:
                s.add(zb(x))
            good = self.model_filter(s, [], {i: vals[i] for i in todo}, {})
            alive += [i for i in todo if i in good]
        alive.sort()
        return alive

    def model_filter(self, s, base, vals, inds):
        """largest subset S of vals such that  s & base & {inds of S}  implies every vals in S"""
        alive = set(vals)
        deadline = time.time() + self.opts.get('houdini_s', 60)
        byname = {b.decl().name(): i for i, b in inds.items()}
        proven = {i: frozenset() for i in alive if vals[i] is True}
        gone = set()
        hard = {}       # candidate -> attempts so far
        joint = True
        hto = self.opts.get('hto', 4000)

        def check(goals, to, how='z3'):
            """-> (result, set of goals false in the model or None, core)"""
            t = time.time()
            asm = base + [b for i, b in inds.items() if i not in gone]
            g = zb(Not(vals[goals[0]])) if len(goals) == 1 else z3.Or(*[zb(Not(vals[i])) for i in goals])
            false = core = None
            if os.environ.get('IRVC_DUMP') and len(goals) == 1:
                ss = z3.Solver()
                ss.add(s.assertions())
                ss.add(*asm)
                ss.add(g)
                open('%s/%s.smt2' % (os.environ['IRVC_DUMP'], self.cnames[goals[0]].replace(' ', '_').replace('/', '')), 'w').write(ss.to_smt2())
            if how == 'z3':
                s.push()
                s.add(g)
                s.set('timeout', to)
                r = s.check(*asm)
                if r == z3.sat:
                    m = s.model()
                    false = {i for i in alive if vals[i] is not True and z3.is_false(m.eval(zb(vals[i]), model_completion=True))}
                elif r == z3.unsat:
                    core = frozenset(byname[c.decl().name()] for c in s.unsat_core() if c.decl().name() in byname)
                s.pop()
            elif how == 'sweep':
                fs, defs = [], []
                for f in s.assertions():
                    d = self.spec_facts.get(f.get_id())
                    if d is None:
                        fs.append(f)
                    else:
                        defs.append((d[0], f.arg(1)))
                pos = [vals[i] for i in goals]
                act = [z3.substitute(f, *[(b, z3.BoolVal(True)) for b in asm]) if asm else f for f in fs] + base
                r = z3.unsat if sweep.prove(act, z3.And([zb(v) for v in pos]), to / 1000, DEBUG, defs) else z3.unknown
                if r == z3.unsat:
                    core = frozenset(i for i in inds if i not in gone)
            elif how == 'eqs':
                # substitute the assumed equations first
                ss = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'simplify', 'solve-eqs', 'smt').solver()
                ss.set('timeout', to)
                ss.add(s.assertions())
                ss.add(*asm)
                ss.add(g)
                r = ss.check()
                if r == z3.sat:
                    m = ss.model()
                    false = {i for i in alive if vals[i] is not True and z3.is_false(m.eval(zb(vals[i]), model_completion=True))}
                elif r == z3.unsat:
                    core = frozenset(i for i in inds if i not in gone)
            else:
                al = [i for i in alive if vals[i] is not True]
                r, mv = cvc.check(list(s.assertions()) + asm + [g], to, how, [zb(vals[i]) for i in al])
                if r == z3.sat:
                    false = {al[k] for k, v in mv.items() if not v}
                elif r == z3.unsat:
                    core = frozenset(i for i in inds if i not in gone)
            self.solver_time += time.time() - t
            if DEBUG:
                print('  houdini', len(goals), self.cnames.get(goals[0]) if len(goals) == 1 else '', how, r,
                      '%.2f' % (time.time() - t), self.cur_loc[:1] if self.cur_loc else None, flush=True)
            return r, false, core

        def drop(ds):
            alive.difference_update(ds)
            gone.update(ds)
            for i in [i for i in proven if i in gone or proven[i] & gone]:
                del proven[i]

        def sample(seed):
            """candidates false in a random state that satisfies all of them"""
            rnd = random.Random(seed)
            todo = [i for i in alive if vals[i] is not True]
            terms = [zb(vals[i]) for i in todo]
            apps, seen, stack = [], set(), terms + list(s.assertions())
            while stack:
                x = stack.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_bv(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    n = x.decl().name()
                    if n.startswith('phi!') and not x.num_args() or n.startswith('in_'):
                        apps.append(x)
                stack.extend(x.children())
            if not apps or len(apps) > 400:
                return set()
            ss = z3.SolverFor('QF_UFBV')
            ss.set('timeout', 6000)
            ss.add(s.assertions())
            soft = {}
            for k, x in enumerate(apps):
                n = x.decl().name()
                b = z3.Bool('rnd!%d' % k)
                soft[b.decl().name()] = b
                w = x.size()
                if x.num_args():
                    # the same function of the index everywhere
                    fr = random.Random(x.decl().name() + str(seed))
                    i = x.arg(x.num_args() - 1)
                    i = z3.Extract(w - 1, 0, i) if i.size() > w else z3.ZeroExt(w - i.size(), i) if i.size() < w else i
                    v = i * z3.BitVecVal(fr.getrandbits(w) | 1, w) + z3.BitVecVal(fr.getrandbits(w), w)
                else:
                    v = z3.BitVecVal(rnd.getrandbits(w if n.startswith('phi') else min(w, 3)), w)
                ss.add(z3.Implies(b, x == v))
            asm = base + [b for i, b in inds.items() if i not in gone]
            out = set()
            for _ in range(24):
                t0 = time.time()
                r = ss.check(*(asm + list(soft.values())))
                if DEBUG:
                    print('  sample', r, len(soft), '%.2f' % (time.time() - t0), ss.reason_unknown() if r == z3.unknown else '', flush=True)
                if r == z3.sat:
                    m = ss.model()
                    out = {i for i, g in zip(todo, terms) if z3.is_false(m.eval(g, model_completion=True))}
                    break
                if r == z3.unsat:
                    bad = [c.decl().name() for c in ss.unsat_core() if c.decl().name() in soft]
                    if not bad:
                        break
                    for c in bad:
                        del soft[c]
                else:
                    break
            if DEBUG:
                print('  sampled', r, len(out), flush=True)
            return out

        if self.opts.get('bv') and inds and not self.opts.get('nosample'):
            idle = 0
            for k in range(8):
                ds = sample(k)
                idle = 0 if ds else idle + 1
                if idle == 3:
                    break
                drop(ds)
        while True:
            todo = [i for i in alive if i not in proven]
            if not todo:
                return alive
            if time.time() > deadline:
                raise Budget('invariant inference timeout')
            if joint:
                slow = self.opts.get('z3slow', 0)
                r, false, core = check(todo, 300 if slow > 2 else 1200)
                if r == z3.unknown:
                    self.opts['z3slow'] = slow + 1
                    if self.opts.get('bv'):
                        if inds:
                            r, false, core = check(todo, 2 * hto, 'sweep')
                        if r == z3.unknown:
                            r, false, core = check(todo, hto, 'bv')
                        if r == z3.unknown:
                            r, false, core = check(todo, hto, 'eqs')
                    else:
                        r, false, core = check(todo, 2 * hto, 'int')
                if r == z3.unsat:
                    return alive
                if r == z3.sat:
                    drop(false or {todo[0]})
                    continue
                joint = False
                if self.opts.get('bv') and not inds and self.spec_facts:
                    drop(self.light_refutations(s, {i: vals[i] for i in todo}))
                    continue
            i = min(todo, key=lambda i: (hard.get(i, 0), i))
            k = hard.get(i, 0)
            if k >= 4:
                # not decided by any solver
                self.opts['imprecise'] = True
                drop({i})
                continue
            order = ((300, 'z3'), (2 * hto, 'sweep'), (2 * hto, 'eqs'), (2 * hto, 'bv')) if self.opts.get('bv') else ((1000, 'z3'), (hto, 'int'), (2 * hto, 'z3'), (2 * hto, 'bv'))
            r, false, core = check([i], *order[k])
            if r == z3.unsat:
                proven[i] = core
            elif r == z3.sat:
                drop({i} | (false or set()))
            else:
                hard[i] = k + 1

    def base_def(self, d):
        r = self.base_defs.get(d.get_id())
        if r is None:
            app = self.spec_facts[d.get_id()][0]
            names = {f.name() for f in self.spec_ufs.values()}
            todo = [x for x in d.children() if not x.eq(app)]
            seen = set()
            r = True
            while todo and r:
                x = todo.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                r = not (x.num_args() and x.decl().name() in names)
                todo.extend(x.children())
            self.base_defs[d.get_id()] = r
        return r

    def light_refutations(self, s, vals):
        """candidates that are false already without the definitions of specification values they do not mention"""
        rest, defs = [], {}
        for f in s.assertions():
            d = self.spec_facts.get(f.get_id())
            if d is None:
                rest.append(f)
            else:
                defs[d[0].get_id()] = d[1]

        def apps(f, seen, out):
            todo = [f]
            while todo:
                x = todo.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if x.get_id() in defs:
                    out.append(defs[x.get_id()])
                todo.extend(x.children())
        seen0, need0 = set(), []
        for f in rest:
            apps(f, seen0, need0)
        s0 = z3.Solver()
        s0.add(rest)
        bad = set()
        for i, v in vals.items():
            g = zb(Not(v))
            need = list(need0)
            apps(g, set(seen0), need)
            # definitions by further specification values say little
            need = [d for d in need if self.base_def(d)]
            s0.push()
            s0.add(g)
            s0.add(need)
            s0.set('timeout', 300)
            t = time.time()
            if s0.check() == z3.sat:
                bad.add(i)
            self.solver_time += time.time() - t
            s0.pop()
        if DEBUG:
            print('  light', len(vals), len(bad), flush=True)
        return bad

    def eliminate(self, C, A, alive, inds, bst, bpv):
        vals = {}
        for i in alive:
            vals[i] = self.cand_at(C, A, i, bst, bpv)
        s = self.mk_solver()
        for x in bst.pc:
            s.add(zb(x))
        false = {i for i in vals if vals[i] is False}
        good = self.model_filter(s, [], {i: (vals[i] if vals[i] is not False else z3.BoolVal(False)) for i in vals}, inds)
        return good, vals

    def find_variant(self, slots, h, hp, bst, bpv):
        s = self.mk_solver()
        s.set('timeout', 1500)
        for x in bst.pc:
            s.add(zb(x))
        cands = []
        ints = [x for x in slots if x.w > 1][:10]
        for x in ints:
            a, b = x.get(h, hp), x.get(bst, bpv)
            if x.guard is not None:
                continue
            cands.append((x.name + ' increases', cmp('ugt', b, a, x.w)))
            cands.append((x.name + ' decreases', cmp('ult', b, a, x.w)))
            if not x.ptr:
                cands.append((x.name + ' increases (signed)', cmp('sgt', b, a, x.w)))
                cands.append((x.name + ' decreases (signed)', cmp('slt', b, a, x.w)))
        for x in ints:
            for y in ints:
                if x is not y and x.w == y.w and x.guard is None and y.guard is None:
                    cands.append(('%s - %s decreases' % (x.name, y.name),
                                  cmp('ult', sub(x.get(bst, bpv), y.get(bst, bpv), x.w), sub(x.get(h, hp), y.get(h, hp), x.w), x.w)))
        for x in [z for z in slots if z.w == 1]:
            a, b = x.get(h, hp), x.get(bst, bpv)
            cands.append((x.name + ' switches', And(Not(b), a)))
            cands.append((x.name + ' switches on', And(b, Not(a))))
        for n, c in cands:
            if c is False:
                continue
            if c is True:
                return n, c
            s.push()
            s.add(zb(Not(c)))
            t = time.time()
            r = s.check()
            self.solver_time += time.time() - t
            s.pop()
            if r == z3.unsat:
                return n, c
        return None
