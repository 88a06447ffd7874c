"""cvc5 back end (integer translation of bit-vectors, then native bit-vectors)"""
import os, re, subprocess, tempfile, time
import z3

MODES = {'int': ['--solve-bv-as-int=sum'], 'bv': []}


def check(assertions, ms, mode='int', values=()):
    """-> (z3.unsat|z3.sat|z3.unknown, {index: bool}) ; values: boolean terms to evaluate in a model"""
    s = z3.Solver()
    for a in assertions:
        s.add(a)
    names = []
    for i, v in enumerate(values):
        b = z3.Bool('val!%d' % i)
        names.append('val!%d' % i)
        s.add(b == v)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    if names:
        txt = txt.replace('(check-sat)', '(check-sat)\n(get-value (%s))' % ' '.join(names))
    fd, p = tempfile.mkstemp(suffix='.smt2')
    os.write(fd, txt.encode())
    os.close(fd)
    cmd = ['cvc5', '--tlimit=%d' % ms] + MODES[mode] + (['--produce-models'] if names else []) + [p]
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=ms / 1000 + 5)
        out = r.stdout
    except Exception:
        out = 'unknown'
    finally:
        os.unlink(p)
    first = out.strip().split('\n')[0] if out.strip() else 'unknown'
    res = {'unsat': z3.unsat, 'sat': z3.sat}.get(first, z3.unknown)
    vals = {}
    if res == z3.sat and names:
        for m in re.finditer(r'\(val!(\d+) (true|false)\)', out):
            vals[int(m.group(1))] = m.group(2) == 'true'
    return res, vals


def consts_of(terms, limit=400):
    """free bit-vector and boolean constants"""
    seen = set()
    out = []
    todo = list(terms)
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
            if len(out) > limit:
                break
        todo.extend(x.children())
    return out


def model_values(assertions, consts, ms, mode='int'):
    """values of constants in a cvc5 model: list of z3 equalities (or None)"""
    s = z3.Solver()
    for a in assertions:
        s.add(a)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    nm = [c.sexpr() for c in consts]
    txt = txt.replace('(check-sat)', '(check-sat)\n(get-value (%s))' % ' '.join(nm))
    fd, p = tempfile.mkstemp(suffix='.smt2')
    os.write(fd, txt.encode())
    os.close(fd)
    try:
        r = subprocess.run(['cvc5', '--tlimit=%d' % ms, '--produce-models'] + MODES[mode] + [p], capture_output=True, text=True, timeout=ms / 1000 + 5)
        out = r.stdout
    except Exception:
        return None
    finally:
        os.unlink(p)
    if not out.startswith('sat'):
        return None
    vals = {}
    for m in re.finditer(r'\((\|[^|]*\||[^\s()|]+) (#b[01]+|#x[0-9a-fA-F]+|true|false)\)', out):
        vals[m.group(1)] = m.group(2)
    eqs = []
    for c, n in zip(consts, nm):
        v = vals.get(n)
        if v is None:
            continue
        if v in ('true', 'false'):
            eqs.append(c == z3.BoolVal(v == 'true'))
        elif z3.is_bv(c):
            k = int(v[2:], 2 if v[1] == 'b' else 16)
            eqs.append(c == z3.BitVecVal(k, c.size()))
    return eqs
