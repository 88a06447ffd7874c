"""Proves one contract function of a module:  worker.py MODULE.bc NAME OUT.json [key=value..]"""
import json, os, resource, signal, sys, time, subprocess, tempfile
sys.setrecursionlimit(200000)
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3
from irvc.llvm import Module
from irvc.exec import Engine, State, Oblig
from irvc.sym import *
from irvc.mem import *
from irvc import cvc, sweep


def fmtloc(loc):
    if not loc:
        return None
    out = []
    for f, l in loc:
        out.append('%s:%d' % (f, l))
    return out


def hexle(v, nbytes):
    return v.to_bytes(nbytes, 'little').hex()


def model_inputs(e, m):
    """concrete inputs of a model, in the replay format of the native run time"""
    out = []

    def ev(x, w):
        if isinstance(x, int):
            return int(x)
        v = m.eval(x, model_completion=True)
        try:
            return v.as_long()
        except Exception:
            return 0
    for nm, kind, data, w in e.inputs:
        if kind == 'scalar':
            out.append((nm, hexle(ev(data, w) & mask(w), w // 8)))
        elif kind == 'cells':
            c, n, es = data
            out.append((nm, ''.join(hexle(ev(c.cells[i * es][1], es * 8), es) for i in range(n))))
        else:
            lane, n, es = data
            k = ev(n, 64)
            if k > 100000:
                return None
            if isinstance(lane, BaseLane):
                out.append((nm, ''.join(hexle(ev(lane.sel(i), es * 8), es) for i in range(k))))
            else:
                bs = bytearray(k * es)
                for (s, sz), l in lane.lanes.items():
                    if isinstance(l, BaseLane):
                        for i in range(k):
                            bs[i * es + s:i * es + s + sz] = ev(l.sel(i), sz * 8).to_bytes(sz, 'little')
                out.append((nm, bytes(bs).hex()))
    return out


class Discharger:
    def __init__(self, e, to_ms, deadline):
        self.e = e
        self.to = to_ms
        self.deadline = deadline
        self.inc = None
        self.lean = None
        self.backends = {}
        self.slow = 0
        self.time = 0.0

    def incremental(self, o, to):
        if self.inc is None:
            self.inc = z3.Solver()
            for f in self.e.live_facts():
                self.inc.add(f)
        s = self.inc
        s.push()
        for x in o.pc:
            s.add(zb(x))
        s.add(zb(Not(o.cond)))
        s.set('timeout', to)
        r = s.check()
        m = s.model() if r == z3.sat else None
        s.pop()
        return r, m

    def fresh(self, o, to, logic=None):
        s = z3.SolverFor(logic) if logic else z3.Solver()
        s.set('timeout', to)
        for f in self.e.live_facts():
            s.add(f)
        for x in o.pc:
            s.add(zb(x))
        s.add(zb(Not(o.cond)))
        r = s.check()
        return r, (s.model() if r == z3.sat else None), s

    def tactic(self, o, to):
        t = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'ackermannize_bv', 'simplify', 'bit-blast', 'sat')
        s = t.solver()
        s.set('timeout', to)
        for f in self.asserts(o):
            s.add(f)
        try:
            r = s.check()
        except z3.Z3Exception:
            return z3.unknown
        return r

    def constants(self, o):
        """equations for the variables of the path that can have one value only"""
        pc = [zb(x) for x in o.pc]
        s = z3.Solver()
        s.set('timeout', 1000)
        spec = self.e.spec_facts
        for f in self.e.live_facts():
            if f.get_id() not in spec:
                s.add(f)
        for x in pc:
            s.add(x)
        if s.check() != z3.sat:
            return []
        m = s.model()
        s.set('timeout', 300)
        eqs = []
        for c in cvc.consts_of(pc + [zb(Not(o.cond))]):
            if len(eqs) >= 40 or not z3.is_bv(c):
                continue
            v = m.eval(c, model_completion=True)
            s.push()
            s.add(c != v)
            if s.check() == z3.unsat:
                eqs.append(c == v)
            s.pop()
        return eqs

    def substituted(self, o, to):
        """the equations of the path substituted; first without the definitions of the specification functions"""
        eqs = self.constants(o)
        fs = self.asserts(o)
        less = [f for f in fs if f.get_id() not in self.e.spec_facts]
        r = z3.unknown
        for g in ([less] if len(less) < len(fs) else []) + [fs]:
            s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'simplify', 'solve-eqs', 'smt').solver()
            s.set('timeout', to)
            s.add(eqs)
            s.add(g)
            try:
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            if r == z3.unsat:
                return r
        return r

    def asserts(self, o):
        return list(self.e.live_facts()) + [zb(x) for x in o.pc] + [zb(Not(o.cond))]

    def run(self, o):
        t0 = time.time()

        def left(ms):
            return max(500, min(ms, int((self.deadline - time.time()) * 1000)))
        m = None
        r = z3.unknown
        if self.e.opts.get('bv') and self.e.spec_facts:
            # most obligations do not need the definitions of the specification functions
            if self.lean is None:
                self.lean = z3.Solver()
                self.lean.add([f for f in self.e.live_facts() if f.get_id() not in self.e.spec_facts])
            self.lean.push()
            self.lean.add([zb(x) for x in o.pc] + [zb(Not(o.cond))])
            self.lean.set('timeout', left(min(self.to, 2000)))
            r = self.lean.check()
            self.lean.pop()
            be = 'z3'
            if r == z3.sat:
                r = z3.unknown
        if r == z3.unknown:
            r, m = self.incremental(o, left(min(self.to, 600 if self.slow > 3 else 2000)))
        be = 'z3'
        if r == z3.unknown:
            self.slow += 1
        if r == z3.unknown and self.e.opts.get('bv') and time.time() < self.deadline:
            be = 'z3 (equal subterms merged)'
            lean = [zb(x) for x in o.pc] + [f for f in self.e.live_facts() if f.get_id() not in self.e.spec_facts]
            if sweep.prove(self.constants(o) + lean, zb(o.cond), left(4 * self.to) / 1000, bool(os.environ.get('IRVC_DEBUG')),
                           [(a, f.arg(1)) for a, f in self.e.spec_facts.values()], (False, True)):
                r = z3.unsat
        if r == z3.unknown and self.e.opts.get('bv') and time.time() < self.deadline:
            be = 'z3 (equations substituted)'
            r2 = self.substituted(o, left(2 * self.to))
            if r2 == z3.unsat:
                r = r2
        if r == z3.unknown and time.time() < self.deadline:
            be = 'cvc5 (integers)'
            r, _ = cvc.check(self.asserts(o), left(self.to), 'int')
            if r == z3.sat:
                # complete the model in z3
                cs = cvc.consts_of([zb(x) for x in o.pc] + [zb(Not(o.cond))] + [d for n, k, d, w in self.e.inputs if k == 'scalar' and not isinstance(d, int)])
                eqs = cvc.model_values(self.asserts(o), cs, left(self.to))
                if eqs:
                    s = z3.Solver()
                    s.set('timeout', left(self.to))
                    for f in self.asserts(o) + eqs:
                        s.add(f)
                    if s.check() == z3.sat:
                        m = s.model()
        if r == z3.unknown and time.time() < self.deadline:
            be = 'z3 (fresh)'
            r, m, s = self.fresh(o, left(2 * self.to))
        if r == z3.unknown and time.time() < self.deadline:
            be = 'z3 (bit-blast)'
            r2 = self.tactic(o, left(2 * self.to))
            if r2 == z3.unsat:
                r = r2
        if r == z3.unknown and time.time() < self.deadline:
            be = 'cvc5'
            r, _ = cvc.check(self.asserts(o), left(2 * self.to), 'bv')
        o.time = time.time() - t0
        self.time += o.time
        o.backend = be
        o.model = m
        o.status = 'proved' if r == z3.unsat else 'failed' if r == z3.sat else 'unknown'
        return o.status


def main():
    bc, name, outp = sys.argv[1:4]
    kv = dict(a.split('=') for a in sys.argv[4:])
    budget = float(kv.get('budget', 60))
    to = int(kv.get('to', 6000))
    bmc = int(kv.get('bmc', 0))
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    t0 = time.time()
    res = {'contract': name, 'status': 'undecided', 'why': None, 'obligations': [], 'inputs': None}

    def finish():
        res['wall'] = round(time.time() - t0, 2)
        with open(outp, 'w') as f:
            json.dump(res, f)

    def onalarm(*a):
        raise Budget('time budget exhausted')
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(int(budget))
    e = None
    try:
        m = Module(bc)
        e = Engine(m, {'bmc': bmc})
        f = m.byname['contract_' + name]
        st = State((), {})
        s, v, excs = e.call_function(f, [], st, 0)
        for x in excs:
            e.oblige(x, 'exception', 'no exception escapes', False, None)
        ends = ([s] if s is not None else [])
        if not e.opts.get('noleak'):
            for x in ends:
                for o in e.heap:
                    if o in x.mem:
                        al = x.mem[o][0]
                        if al is not False:
                            e.oblige(x, 'leak', 'allocated memory is released (%s)' % o.name, Not(al), None)
        texec = time.time() - t0
        deadline = t0 + budget
        d = Discharger(e, to, deadline - 1)
        bad = 0
        unk = 0
        for o in e.obligs:
            if o.status == 'proved':
                continue
            if time.time() > deadline - 1:
                o.status = 'unknown'
                o.backend = 'none'
            else:
                d.run(o)
            if o.status == 'failed':
                bad += 1
                if bmc or True:
                    if res['inputs'] is None and o.model is not None:
                        try:
                            res['inputs'] = model_inputs(e, o.model)
                        except Exception as ex:
                            res['inputs_error'] = repr(ex)
                if bad > 12:
                    break
            elif o.status == 'unknown':
                unk += 1
        # vacuity: the contract's end must be reachable
        covers = []
        cs = list(e.covers)
        if s is not None:
            cs.append(('end of contract', s.pc))
        for lab, pc in cs[:8]:
            sv = z3.Solver()
            sv.set('timeout', 3000)
            for fct in e.live_facts():
                sv.add(fct)
            for x in pc:
                sv.add(zb(x))
            r = sv.check() if time.time() < deadline - 1 else z3.unknown
            covers.append((lab, str(r)))
        res.update(exec_s=round(texec, 2), solver_s=round(d.time + e.solver_time, 2), trivial=e.trivial,
                   covers=covers, facts=len(e.facts), assumptions=sorted(e.assumptions),
                   loops=[(fmtloc(l), inv, n) for l, inv, n in e.loop_report],
                   nonterm=[fmtloc(l) for l in e.nonterm], posts=sorted(e.posts), unrolled=sorted(e.bounded),
                   entered=sorted(e.funcs_entered), imprecise=e.opts.get('imprecise', False))
        res['obligations'] = [dict(kind=o.kind, label=o.label, loc=fmtloc(o.loc), status=o.status or 'unknown', backend=o.backend,
                                   time=round(o.time, 3)) for o in e.obligs]
        vac = [lab for lab, r in covers if r == 'unsat']
        if vac and bad == 0:
            res['status'] = 'vacuous'
            res['why'] = 'unreachable: ' + ', '.join(vac)
        elif bad:
            res['status'] = 'failed'
            if e.opts.get('imprecise'):
                res['status'] = 'undecided'
                res['why'] = 'a loop invariant query timed out; obligations after it are undecided'
        elif unk:
            res['status'] = 'undecided'
            res['why'] = '%d obligations undecided by the solvers' % unk
        elif not e.obligs and not e.trivial:
            res['status'] = 'vacuous'
            res['why'] = 'no obligations'
        elif s is None:
            res['status'] = 'vacuous'
            res['why'] = 'the contract never returns'
        else:
            res['status'] = 'proved'
    except Unsupported as u:
        res['why'] = 'outside the supported subset: %s (at %s)' % (u, fmtloc(e.cur_loc)[:2] if e and e.cur_loc else None)
    except Budget as u:
        res['why'] = 'budget: %s' % u
    except MemoryError:
        res['why'] = 'budget: memory'
    except z3.Z3Exception as u:
        res['why'] = 'solver error: %s' % str(u)[:200]
        import traceback
        res['trace'] = traceback.format_exc()[-1500:]
    except RecursionError:
        res['why'] = 'budget: recursion'
    except Exception as u:
        import traceback
        res['why'] = 'internal error: %r' % u
        res['trace'] = traceback.format_exc()[-3000:]
    signal.alarm(0)
    finish()
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
