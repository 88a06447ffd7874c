"""Equality of large bit-vector terms by merging equal subterms bottom-up (SAT sweeping).

Equations of the path condition (variable = term) are substituted, every subterm of the goal is evaluated in a few random
states (uninterpreted functions: a random function), and subterms with equal values are merged once a solver has proved them equal.
Deeper subterms are replaced by unconstrained variables in these small proofs, so a merge holds for all values of them:
everything concluded here follows from the assumptions.  Only "proved" answers are given."""
import os
import random
import time

import z3

K = z3


def flatten(fs):
    out, todo = [], list(fs)[::-1]
    while todo:
        f = todo.pop()
        if z3.is_and(f):
            todo.extend(f.children()[::-1])
        elif z3.is_not(f) and z3.is_or(f.arg(0)):
            todo.extend([z3.Not(x) for x in f.arg(0).children()[::-1]])
        elif z3.is_implies(f) and z3.is_true(f.arg(0)):
            todo.append(f.arg(1))
        elif z3.is_or(f) and any(z3.is_not(x) and z3.is_true(x.arg(0)) for x in f.children()):
            todo.append(z3.Or([x for x in f.children() if not (z3.is_not(x) and z3.is_true(x.arg(0)))]) if f.num_args() > 2 else [x for x in f.children() if not (z3.is_not(x) and z3.is_true(x.arg(0)))][0])
        elif z3.is_true(f):
            pass
        elif z3.is_not(f) and z3.is_not(f.arg(0)):
            todo.append(f.arg(0).arg(0))
        else:
            out.append(f)
    return out


def bfold(f, units):
    """the boolean structure of f with the known literals replaced, or f"""
    k = f.decl().kind()
    if k == z3.Z3_OP_UNINTERPRETED and f.num_args() == 0:
        v = units.get(f.get_id())
        return f if v is None else z3.BoolVal(v)
    if k == z3.Z3_OP_NOT:
        a = bfold(f.arg(0), units)
        return z3.BoolVal(False) if z3.is_true(a) else z3.BoolVal(True) if z3.is_false(a) else f if a is f.arg(0) else z3.Not(a)
    if k == z3.Z3_OP_IMPLIES:
        a, b = bfold(f.arg(0), units), bfold(f.arg(1), units)
        return b if z3.is_true(a) else z3.BoolVal(True) if z3.is_false(a) or z3.is_true(b) else z3.Implies(a, b)
    if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
        isand = k == z3.Z3_OP_AND
        out = []
        for c in f.children():
            a = bfold(c, units)
            if z3.is_true(a) if isand else z3.is_false(a):
                continue
            if z3.is_false(a) if isand else z3.is_true(a):
                return z3.BoolVal(not isand)
            out.append(a)
        return z3.BoolVal(isand) if not out else out[0] if len(out) == 1 else z3.And(*out) if isand else z3.Or(*out)
    return f


def normalise(fs):
    """conjuncts of fs, with the boolean literals among them used to resolve guards"""
    units = {}
    fs = flatten(fs)
    for _ in range(6):
        n = len(units)
        for f in fs:
            a, v = (f.arg(0), False) if z3.is_not(f) else (f, True)
            if z3.is_bool(a) and is_var(a):
                units[a.get_id()] = v
        if len(units) == n:
            break
        lits = [f for f in fs if is_var(f) or z3.is_not(f) and is_var(f.arg(0))]
        fs = flatten([bfold(f, units) for f in fs]) + lits
    return fs


def is_var(x):
    return z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED


def occurs(v, t, seen=None):
    todo, seen = [t], set()
    vi = v.get_id()
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i == vi:
            return True
        if i in seen:
            continue
        seen.add(i)
        todo.extend(x.children())
    return False


def equations(fs):
    """substitution [(var, term)] from the equations among fs, triangular"""
    sub = []
    vs = set()
    for f in fs:
        if f.decl().kind() == z3.Z3_OP_EQ and z3.is_bv(f.arg(0)):
            for a, b in ((f.arg(0), f.arg(1)), (f.arg(1), f.arg(0))):
                if is_var(a) and a.get_id() not in vs:
                    b2 = z3.substitute(b, *sub) if sub else b
                    if occurs(a, b2):
                        continue
                    sub = [(v, z3.substitute(t, (a, b2))) for v, t in sub] + [(a, b2)]
                    vs.add(a.get_id())
                    break
    return sub


def order(roots):
    out, seen = [], set()
    todo = [(r, False) for r in roots][::-1]
    while todo:
        x, done = todo.pop()
        i = x.get_id()
        if done:
            out.append(x)
            continue
        if i in seen:
            continue
        seen.add(i)
        todo.append((x, True))
        for c in x.children():
            if c.get_id() not in seen:
                todo.append((c, False))
    # a node may be pushed before its children are finished on another path: order again by depth
    pos = {}
    res = []

    def depth(x):
        return pos[x.get_id()]
    for x in out:
        pos.setdefault(x.get_id(), 0)
    ok = set()
    for x in out:
        if all(c.get_id() in ok for c in x.children()):
            res.append(x)
            ok.add(x.get_id())
        else:
            return None
    return res


class Eval:
    def __init__(self, seed):
        self.rnd = random.Random(seed)
        self.v = {}
        self.uf = {}
        self.fixed = {}

    def leaf(self, w):
        return self.rnd.getrandbits(w) if w > 1 else self.rnd.getrandbits(1)

    def run(self, x):
        i = x.get_id()
        a = [self.v[c.get_id()] for c in x.children()]
        self.v[i] = self.op(x, a)

    def op(self, x, a):
        d = x.decl()
        k = d.kind()
        isb = z3.is_bool(x)
        w = 1 if isb else x.size()
        M = (1 << w) - 1
        if k == z3.Z3_OP_BNUM:
            return x.as_long()
        if k == z3.Z3_OP_TRUE:
            return 1
        if k == z3.Z3_OP_FALSE:
            return 0
        if k == z3.Z3_OP_UNINTERPRETED:
            if not a and x.get_id() in self.fixed:
                return self.fixed[x.get_id()]
            key = (d.get_id(),) + tuple(a)
            if key not in self.uf:
                self.uf[key] = self.leaf(w)
            return self.uf[key]
        if k == z3.Z3_OP_BADD:
            return sum(a) & M
        if k == z3.Z3_OP_BMUL:
            r = 1
            for y in a:
                r = r * y & M
            return r
        if k == z3.Z3_OP_BSUB:
            return (a[0] - a[1]) & M
        if k == z3.Z3_OP_BNEG:
            return -a[0] & M
        if k == z3.Z3_OP_BNOT:
            return ~a[0] & M
        if k == z3.Z3_OP_BAND:
            r = M
            for y in a:
                r &= y
            return r
        if k == z3.Z3_OP_BOR:
            r = 0
            for y in a:
                r |= y
            return r
        if k == z3.Z3_OP_BXOR:
            r = 0
            for y in a:
                r ^= y
            return r
        if k == z3.Z3_OP_CONCAT:
            r = 0
            for y, c in zip(a, x.children()):
                r = r << c.size() | y
            return r
        if k == z3.Z3_OP_EXTRACT:
            h, l = d.params()
            return a[0] >> l & ((1 << (h - l + 1)) - 1)
        if k == z3.Z3_OP_ZERO_EXT:
            return a[0]
        if k == z3.Z3_OP_SIGN_EXT:
            n = x.arg(0).size()
            return (a[0] - ((a[0] >> (n - 1)) << n)) & M
        if k == z3.Z3_OP_BSHL:
            return (a[0] << a[1]) & M if a[1] < w else 0
        if k == z3.Z3_OP_BLSHR:
            return a[0] >> a[1] if a[1] < w else 0
        if k == z3.Z3_OP_ROTATE_LEFT:
            s = d.params()[0] % w
            return (a[0] << s | a[0] >> (w - s)) & M
        if k == z3.Z3_OP_ROTATE_RIGHT:
            s = d.params()[0] % w
            return (a[0] >> s | a[0] << (w - s)) & M
        if k == z3.Z3_OP_ITE:
            return a[1] if a[0] else a[2]
        if k == z3.Z3_OP_EQ:
            return int(a[0] == a[1])
        if k == z3.Z3_OP_DISTINCT:
            return int(len(set(a)) == len(a))
        if k == z3.Z3_OP_ULEQ:
            return int(a[0] <= a[1])
        if k == z3.Z3_OP_ULT:
            return int(a[0] < a[1])
        if k == z3.Z3_OP_UGEQ:
            return int(a[0] >= a[1])
        if k == z3.Z3_OP_UGT:
            return int(a[0] > a[1])
        if k in (z3.Z3_OP_SLEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGEQ, z3.Z3_OP_SGT):
            n = x.arg(0).size()
            p, q = [y - ((y >> (n - 1)) << n) for y in a]
            return int({z3.Z3_OP_SLEQ: p <= q, z3.Z3_OP_SLT: p < q, z3.Z3_OP_SGEQ: p >= q, z3.Z3_OP_SGT: p > q}[k])
        if k == z3.Z3_OP_AND:
            return int(all(a))
        if k == z3.Z3_OP_OR:
            return int(any(a))
        if k == z3.Z3_OP_NOT:
            return 1 - a[0]
        if k == z3.Z3_OP_IMPLIES:
            return int(not a[0] or a[1])
        # anything else: an unknown function of its arguments
        key = (d.name(), tuple(d.params()) if d.params() else (), w) + tuple(a)
        if key not in self.uf:
            self.uf[key] = self.leaf(w)
        return self.uf[key]


def states(e, lean):
    """values for the variables of the path condition that satisfy it, random as far as possible"""
    vs = {}
    for f in lean:
        for x in order([f]) or []:
            if is_var(x):
                vs[x.get_id()] = x
    s = z3.Solver()
    s.set('timeout', 100)
    s.add(lean)
    if s.check() != z3.sat:
        return
    for x in list(vs.values())[:24]:
        if z3.is_bool(x):
            cs = [x if e.rnd.getrandbits(1) else z3.Not(x)]
        else:
            w = x.size()
            cs = [x == z3.BitVecVal(e.rnd.getrandbits(k), w) for k in {w, w * 5 // 8, w // 2, w // 4} if k]
        for c in cs:
            s.push()
            s.add(c)
            if s.check() == z3.sat:
                break
            s.pop()
    s.set('timeout', 500)
    if s.check() == z3.sat:
        m = s.model()
        for x in vs.values():
            v = m.eval(x, model_completion=True)
            e.fixed[x.get_id()] = int(z3.is_true(v)) if z3.is_bool(x) else v.as_long()


def cut(roots, depth):
    """the roots with every subterm more than depth levels below all of them replaced by an unconstrained variable"""
    inner = {}
    level = list(roots)
    for _ in range(depth):
        nxt = []
        for x in level:
            if x.get_id() not in inner:
                inner[x.get_id()] = x
                nxt.extend(x.children())
        level = nxt
    done = {}

    def go(t):
        stack = [t]
        while stack:
            x = stack[-1]
            i = x.get_id()
            if i in done:
                stack.pop()
                continue
            if z3.is_bv_value(x) or z3.is_const(x):
                done[i] = x
            elif i not in inner:
                done[i] = z3.FreshConst(x.sort(), 'cut')
            else:
                todo = [c for c in x.children() if c.get_id() not in done]
                if todo:
                    stack.extend(todo)
                    continue
                ch = [done[c.get_id()] for c in x.children()]
                done[i] = x if all(a.eq(b) for a, b in zip(ch, x.children())) else rebuild(x, ch)
            stack.pop()
        return done[t.get_id()]
    return [go(r) for r in roots]


def rebuild(t, ch):
    return z3.substitute(t, *[(a, b) for a, b in zip(t.children(), ch) if not a.eq(b)]) if False else t.decl()(*ch) if t.decl().kind() not in NARY else nary(t, ch)


NARY = {z3.Z3_OP_BADD, z3.Z3_OP_BMUL, z3.Z3_OP_BAND, z3.Z3_OP_BOR, z3.Z3_OP_BXOR, z3.Z3_OP_CONCAT, z3.Z3_OP_AND, z3.Z3_OP_OR}


def nary(t, ch):
    k = t.decl().kind()
    if k == z3.Z3_OP_AND:
        return z3.And(*ch)
    if k == z3.Z3_OP_OR:
        return z3.Or(*ch)
    if k == z3.Z3_OP_CONCAT:
        return z3.Concat(*ch)
    r = ch[0]
    for c in ch[1:]:
        r = r + c if k == z3.Z3_OP_BADD else r * c if k == z3.Z3_OP_BMUL else r & c if k == z3.Z3_OP_BAND else r | c if k == z3.Z3_OP_BOR else r ^ c
    return r


def prove(assumptions, goal, seconds, debug=False, defs=(), unfold=(True,), depth=2):
    """True when the goal (a boolean term) has been proved from the assumptions;
    defs: (application, value) of specification functions"""
    t0 = time.time()
    pc = normalise(assumptions)
    if any(z3.is_false(f) for f in pc):
        return True
    guard = None
    if depth:
        lits = {f.get_id() for f in pc if is_var(f)} | {f.arg(0).get_id() for f in pc if z3.is_not(f) and is_var(f.arg(0))}
        for f in pc:
            for x in (order([f]) or []) if z3.is_or(f) or z3.is_implies(f) else []:
                if is_var(x) and z3.is_bool(x) and x.get_id() not in lits and x.decl().name().startswith('inv!'):
                    guard = x
                    break
            if guard is not None:
                break
    if guard is not None:
        # a path through the loop or past it
        return all(prove(pc + [l], goal, (seconds - time.time() + t0) / (2 - k), debug, defs, unfold, depth - 1) for k, l in enumerate((guard, z3.Not(guard))))
    for k, u in enumerate(unfold):
        left = seconds - time.time() + t0
        if left > 0 and attempt(pc, goal, left / (len(unfold) - k), debug, defs if u else ()):
            return True
    return False


def attempt(pc, goal, seconds, debug, defs):
    t0 = time.time()
    if defs:
        # definitions (application, value) of the specification values the goal mentions
        ids = {x.get_id() for x in order([goal]) or []}
        goal = z3.substitute(goal, *[(a, b) for a, b in defs if a.get_id() in ids])
    sub = equations(pc)
    small = []
    for f in pc:
        f = z3.simplify(z3.substitute(f, *sub)) if sub else f
        if z3.is_true(f):
            continue
        small.append(f)
    if sub:
        goal = z3.substitute(goal, *sub)
    nodes = order([goal])
    if nodes is None or len(nodes) > 60000:
        return False
    # path facts about few variables: the only ones used in the small proofs
    if any(z3.is_false(f) for f in small):
        return True
    lean = [f for f in small if len(order([f]) or [0] * 999) < 60]
    evs = [Eval(s) for s in range(4)]
    for e in evs:
        states(e, lean)
    for x in nodes:
        for e in evs:
            e.run(x)
    rep = {}      # id of an original node -> merged node
    cls = {}      # signature -> merged node
    sig = {}
    keep = []
    merged = asked = 0
    s = z3.Solver()
    s.add(lean)
    for x in nodes:
        if time.time() - t0 > seconds:
            return False
        ch = [rep[c.get_id()] for c in x.children()]
        y = x if all(a.eq(b) for a, b in zip(ch, x.children())) else rebuild(x, ch)
        y = z3.simplify(y) if not z3.is_const(y) and all(z3.is_bv_value(c) or z3.is_true(c) or z3.is_false(c) for c in y.children()) else y
        keep.append(y)
        sg = (1 if z3.is_bool(x) else x.size(),) + tuple(e.v[x.get_id()] for e in evs)
        if sg[0] == 1:
            if len(set(sg[1:])) == 1 and not z3.is_const(y):
                v = bool(sg[1])
                for d, to in ((3, 200), (12, 500)):
                    c, = cut([y], d)
                    s.push()
                    s.add(z3.Not(c) if v else c)
                    s.set('timeout', to)
                    r = s.check()
                    s.pop()
                    if r == z3.unsat:
                        y = z3.BoolVal(v)
                        keep.append(y)
                        break
            rep[x.get_id()] = y
            continue
        if z3.is_app_of(y, z3.Z3_OP_ITE) and (z3.is_true(y.arg(0)) or z3.is_false(y.arg(0))):
            y = y.arg(1) if z3.is_true(y.arg(0)) else y.arg(2)
            keep.append(y)
        z = cls.get(sg)
        if z is None:
            cls[sg] = y
        elif not z.eq(y):
            asked += 1
            for d, to in ((2, 200), (4, 400), (8, 1500), (14, 3000)):
                a, b = cut([z, y], d)
                s.push()
                s.add(a != b)
                s.set('timeout', to)
                r = s.check()
                s.pop()
                if r == z3.unsat:
                    merged += 1
                    y = z
                    break
                if debug and os.environ.get('IRVC_SWEEP'):
                    print('   ', d, r, '|', str(a)[:6000].replace('\n', ' '), '|', str(b)[:6000].replace('\n', ' '))
                if r == z3.unknown and d >= 8 or time.time() - t0 > seconds:
                    break
        else:
            y = z
        rep[x.get_id()] = y
    g = rep[goal.get_id()]
    if debug:
        print('  sweep: %d nodes, %d queries, %d merged, %.2f s' % (len(nodes), asked, merged, time.time() - t0), flush=True)
    if debug and os.environ.get('IRVC_SWEEP'):
        print(str(z3.simplify(g))[:1500])
        print([v for v, t in sub], [str(f)[:80] for f in lean])
    s = z3.Solver()
    s.add(small)
    s.add(z3.Not(g))
    s.set('timeout', max(200, min(5000, int((seconds - time.time() + t0) * 1000))))
    return s.check() == z3.unsat
