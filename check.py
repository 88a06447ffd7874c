#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]  - decide one property on /repo's current tree.

Compiles contracts/PROPERTY*.cpp against /repo/include, proves every contract
function with irvc, executes every contract natively (sanitizers) as a
counterexample search, writes evidence/PROPERTY.json.
exit 0: held; exit 1 + VIOLATION line otherwise; exit 2: error of the check."""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VC_REPO', '/repo')
CXX = '/usr/bin/clang++'
PY = shutil.which('python3-vt') or 'python3-vt'
INC = ['-I' + REPO + '/include', '-I' + V + '/contracts']
STD = ['-std=c++23']
NCPU = os.cpu_count() or 8


def sh(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, **k)


def compile_ir(src, out):
    t = time.time()
    r = sh([CXX] + STD + INC + ['-O1', '-Xclang', '-disable-llvm-passes', '-gline-tables-only', '-D_GLIBCXX_EXTERN_TEMPLATE=0',
            '-fno-discard-value-names', '-c', '-emit-llvm', src, '-o', out + '.pre.bc'])
    if r.returncode:
        return (src, None, r.stderr[-4000:])
    r = sh(['opt-18', '-passes=function(sroa),cgscc(inline),function(sroa,early-cse,adce,loop-simplify,lcssa),globaldce',
            '-inline-threshold=1000000', out + '.pre.bc', '-o', out + '.bc'])
    if r.returncode:
        return (src, None, r.stderr[-4000:])
    return (src, out, time.time() - t)


def compile_native(src, out):
    r = sh([CXX] + STD + INC + ['-O1', '-g1', '-DVC_NATIVE', '-fsanitize=address,undefined', '-fno-sanitize-recover=all',
            '-fno-sanitize=nonnull-attribute,object-size', '-fno-omit-frame-pointer', src, V + '/contracts/native.cpp', '-o', out])
    if r.returncode:
        return (src, None, r.stderr[-4000:])
    return (src, out, None)


ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_abort=1:detect_stack_use_after_return=0',
           UBSAN_OPTIONS='print_stacktrace=1')


def native_run(exe, name, seed, count, ms, one=False, timeout=None):
    cmd = [exe, name, str(seed), str(count), str(ms)] + (['1'] if one else [])
    try:
        r = sh(cmd, env=ENV, timeout=timeout or ms / 1000 * 3 + 40, errors='replace')
    except subprocess.TimeoutExpired:
        return None, 'timeout', ''
    return r.returncode, r.stdout, r.stderr


def native_replay(exe, name, path):
    try:
        r = sh([exe, name, '--replay', path], env=ENV, timeout=60, errors='replace')
    except subprocess.TimeoutExpired:
        return None, 'timeout', ''
    return r.returncode, r.stdout, r.stderr


def prove(bc, name, out, **kv):
    b = kv.get('budget', 60)
    try:
        subprocess.run([PY, V + '/irvc/worker.py', bc, name, out] + ['%s=%s' % x for x in kv.items()],
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=b * 1.5 + 20)
        with open(out) as f:
            return json.load(f)
    except Exception as e:
        return {'contract': name, 'status': 'undecided', 'why': 'prover stopped: %s' % type(e).__name__, 'obligations': []}


def callgraph(pre):
    """direct call graph of the module before inlining"""
    txt = sh(['llvm-dis-18', pre, '-o', '-']).stdout
    g = {}
    cur = None
    for l in txt.split('\n'):
        if l.startswith('define '):
            m = re.search(r'@("[^"]+"|[\w.$]+)\(', l)
            cur = m.group(1).strip('"') if m else None
            g[cur] = set()
        elif l.startswith('}'):
            cur = None
        elif cur is not None and '@' in l:
            for m in re.finditer(r'@("[^"]+"|[\w.$]+)', l):
                g[cur].add(m.group(1).strip('"'))
    return g


def reach(g, root):
    seen = set()
    w = [root]
    while w:
        x = w.pop()
        if x in seen or x not in g:
            continue
        seen.add(x)
        w.extend(g[x])
    return seen


def setup():
    for t in ('opt-18', 'llvm-dis-18', 'llvm-nm-18', 'cvc5', PY):
        if not shutil.which(t):
            print('missing tool:', t)
            return 2
    r = sh([PY, '-c', 'import sys; sys.path.insert(0, %r); import z3, llvm; print(z3.get_version_string())' % (V + '/irvc')])
    print('z3', r.stdout.strip(), r.stderr.strip())
    return 0 if r.returncode == 0 else 2


def main():
    if sys.argv[1] == '--setup':
        return setup()
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    only = None
    if '--only' in sys.argv:
        only = sys.argv[sys.argv.index('--only') + 1].split(',')
    verbose = '-v' in sys.argv
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    thorough = tier == 'thorough'
    budget = 240 if thorough else 75
    to = 20000 if thorough else 8000
    nat_ms = 15000 if thorough else 700
    nat_long = 60000 if thorough else 6000
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='vc_%s_' % pid, dir=os.environ.get('TMPDIR', '/tmp'))
    evd = V + '/evidence'
    os.makedirs(evd + '/replay', exist_ok=True)
    try:
        return run(pid, tier, only, verbose, seed, budget, to, nat_ms, nat_long, t0, tmp, evd, thorough)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(pid, tier, only, verbose, seed, budget, to, nat_ms, nat_long, t0, tmp, evd, thorough):
    srcs = sorted(glob.glob(V + '/contracts/%s.cpp' % pid) + glob.glob(V + '/contracts/%s_*.cpp' % pid))
    if not srcs:
        print('no contracts for', pid)
        return 2
    ex = cf.ThreadPoolExecutor(NCPU)
    irs = [ex.submit(compile_ir, s, tmp + '/' + os.path.basename(s)[:-4]) for s in srcs]
    nats = {s: ex.submit(compile_native, s, tmp + '/' + os.path.basename(s)[:-4] + '.native') for s in srcs}
    names = []      # (name, src, irbase)
    for f in irs:
        src, out, err = f.result()
        if out is None:
            print('contract file does not compile:', src, err)
            return 2
        for m in re.finditer(r'^CONTRACT\(\s*(\w+)\s*\)', open(src).read(), re.M):
            if only and m.group(1) not in only:
                continue
            names.append((m.group(1), src, out))
        # contracts generated by macros
        for l in sh(['llvm-nm-18', '--defined-only', out + '.bc']).stdout.split('\n'):
            m = re.search(r' T contract_(\w+)$', l)
            if m and not any(n == m.group(1) for n, _, _ in names) and (not only or m.group(1) in only):
                names.append((m.group(1), src, out))
    known = json.load(open(V + '/known_findings.json')) if os.path.exists(V + '/known_findings.json') else []
    knownset = {k['contract']: k for k in known if k['property'] == pid and k.get('status') == 'open'}
    # contracts known to be out of the solvers' reach get less time (in the quick tier)
    short = {} if thorough else json.load(open(V + '/contracts/budget.json')).get(pid, {})
    proofs = {n: ex.submit(prove, ir + '.bc', n, tmp + '/' + n + '.json', budget=short.get(n, budget), to=to) for n, s, ir in names if n not in knownset}
    # natives are built meanwhile
    exes = {}
    for s in srcs:
        _, out, err = nats[s].result()
        if out is None:
            print('native build of the contracts failed:', s, err)
            return 2
        exes[s] = out
    natf = {n: ex.submit(native_run, exes[s], n, seed * 1000003, 10 ** 9, nat_ms) for n, s, ir in names}
    results = {}
    viol = []
    finds = []

    def log(*a):
        if verbose:
            print(*a, flush=True)
    long_jobs = {}
    for n, s, ir in names:
        if n in knownset:
            rc, out, err = natf[n].result()
            if rc != 0:
                finds.append((knownset[n], out.strip().split('\n')[-1]))
            continue
        r = results[n] = proofs[n].result()
        rc, out, err = natf[n].result()
        r['native'] = out.strip().split('\n')[-1] if out else ''
        log('%-34s %-10s %5.1fs obl=%d trivial=%s native=%s %s' % (n, r['status'], r.get('wall', 0), len(r['obligations']), r.get('trivial'),
                                                                  r['native'][:80], r.get('why') or ''))
        if r['status'] == 'failed':
            for o in r['obligations']:
                if o['status'] == 'failed':
                    log('      FAILED %s: %s at %s' % (o['kind'], o['label'], (o['loc'] or [])[:3]))
        if r.get('trace'):
            log(r['trace'])
        if verbose and r.get('nonterm'):
            log('      termination not proved:', r['nonterm'])
        if rc == 1:
            viol.append((n, s, r, 'native', out, err))
        elif r['status'] in ('failed', 'undecided', 'vacuous') or r.get('nonterm'):
            long_jobs[n] = ex.submit(native_run, exes[s], n, seed * 7000003, 10 ** 9, nat_long)
    for n, s, ir in names:
        if n not in long_jobs:
            continue
        r = results[n]
        # the verifier's own counterexample first
        done = False
        if r['status'] == 'failed' and r.get('inputs'):
            p = tmp + '/' + n + '.replay'
            write_replay(p, pid, n, r, r['inputs'])
            rc, out, err = native_replay(exes[s], n, p)
            if rc == 1:
                viol.append((n, s, r, 'model', out, err))
                done = True
        rc, out, err = long_jobs[n].result()
        r['native_long'] = out.strip().split('\n')[-1] if out else ''
        if done:
            continue
        if rc == 1:
            viol.append((n, s, r, 'native', out, err))
            continue
        if r['status'] == 'failed':
            # bounded unrolling of the loops gives models without invented loop states
            if r.get('loops'):
                hit = False
                for k in (3, 6):
                    b = prove(ir + '.bc', n, tmp + '/' + n + '.bmc.json', budget=30, to=to, bmc=k)
                    if b.get('inputs'):
                        p = tmp + '/' + n + '.replay'
                        write_replay(p, pid, n, b, b['inputs'])
                        rc, out, err = native_replay(exes[s], n, p)
                        if rc == 1:
                            b['native'] = r.get('native')
                            r['bmc'] = k
                            r['inputs'] = b['inputs']
                            viol.append((n, s, r, 'model', out, err))
                            hit = True
                            break
                if hit:
                    continue
            viol.append((n, s, r, 'none', '', ''))
        elif r['status'] == 'vacuous':
            print('contract %s is vacuous: %s' % (n, r['why']))
            write_evidence(pid, tier, seed, t0, names, results, viol, finds, evd)
            return 2
    lines = []
    for n, s, r, how, out, err in viol:
        path = '%s/replay/%s-%s.txt' % (evd, pid, n)
        failed = [o for o in r['obligations'] if o['status'] == 'failed']
        if how == 'native':
            m = re.search(r'FAIL seed=(\d+)', out)
            sd = m.group(1) if m else '1'
            rc, o2, e2 = native_run(exes[s], n, int(sd), 1, 5000, True)
            ins = re.findall(r'^input (\S+) ?(\S*)$', o2, re.M)
            write_replay(path, pid, n, r, ins, failed, out + err, src=s)
            lines.append('VIOLATION property=%s replay=%s' % (pid, path))
        elif how == 'model':
            write_replay(path, pid, n, r, r['inputs'], failed, out + err, src=s)
            lines.append('VIOLATION property=%s replay=%s' % (pid, path))
        else:
            write_replay(path, pid, n, r, r.get('inputs') or [], failed, 'the concrete inputs above (if any) did not fail on the real code', src=s)
            lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
        what = '; '.join('%s: %s (%s)' % (o['kind'], o['label'], (o['loc'] or ['?'])[0]) for o in failed[:3])
        m = re.search(r'(FAIL .*)', out)
        print('contract %s: %s%s' % (n, what, (' | ' + m.group(1)) if m else ''))
    for k, what in finds:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    write_evidence(pid, tier, seed, t0, names, results, viol, finds, evd)
    und = [n for n, r in results.items() if r['status'] == 'undecided']
    pr = sum(1 for r in results.values() if r['status'] == 'proved')
    print('%s: %d contracts proved, %d bounded stand-ins %s, %.0f s' % (pid, pr, len(und), und if und else '', time.time() - t0))
    # replayable violations first
    for l in sorted(lines, key=lambda l: l.endswith('found')):
        print(l)
    return 1 if lines else 0


def write_replay(path, pid, n, r, inputs, failed=(), text='', src=None):
    with open(path, 'w') as f:
        f.write('property %s contract %s\n' % (pid, n))
        if src:
            f.write('# execute: %s %s -DVC_NATIVE -fsanitize=address,undefined %s %s/contracts/native.cpp -o r && ./r %s --replay %s\n'
                    % (CXX, ' '.join(STD + INC), src, V, n, path))
        for o in failed:
            f.write('failed obligation: %s: %s\n' % (o['kind'], o['label']))
            for l in (o['loc'] or []):
                f.write('    at %s\n' % l)
        for nm, h in inputs or []:
            f.write('input %s %s\n' % (nm, h))
        if text:
            f.write('---- output\n' + text[:6000] + '\n')


def write_evidence(pid, tier, seed, t0, names, results, viol, finds, evd):
    proved = [n for n, r in results.items() if r['status'] == 'proved']
    bounded = [n for n, r in results.items() if r['status'] != 'proved']
    nob = ndis = ntriv = 0
    be = {}
    st = 0.0
    ass = set()
    nonterm = []
    kinds = {}
    for n in proved:
        r = results[n]
        ntriv += r.get('trivial', 0)
        for o in r['obligations']:
            nob += 1
            kinds[o['kind']] = kinds.get(o['kind'], 0) + 1
            if o['status'] == 'proved':
                ndis += 1
                be[o['backend']] = be.get(o['backend'], 0) + 1
        st += r.get('solver_s', 0)
        ass |= set(r.get('assumptions', []))
        for l in r.get('nonterm', []):
            nonterm.append('%s: termination of the loop at %s' % (n, (l or ['?'])[0]))
    # functions under contract
    funcs = {}
    try:
        bybase = {}
        for n, s, ir in names:
            bybase.setdefault(ir, []).append(n)
        for ir, ns in bybase.items():
            g = callgraph(ir + '.pre.bc')
            for n in ns:
                if n in proved:
                    for x in reach(g, 'contract_' + n):
                        funcs.setdefault(x, set()).add(n)
        keys = [k for k in funcs if '3daw' in k]
        dem = sh(['llvm-cxxfilt-18'], input='\n'.join(keys)).stdout.split('\n')
        fl = []
        for k, d in zip(keys, dem):
            if 'daw::' in d:
                d = re.sub(r'<.*', '', d.split('(')[0]) if len(d) > 160 else d
                fl.append(d)
        fl = sorted(set(fl))
    except Exception:
        fl = []
    v = [{'contract': n, 'how': how} for n, s, r, how, o, e in viol]
    tot = nob + ntriv
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof', 'wall_s': round(time.time() - t0, 1),
        'violations': len(v),
        'assumptions': sorted(ass) + [
            'clang 18 front end and the LLVM passes sroa, inline, early-cse, adce, loop-simplify, lcssa preserve the meaning of the source',
            'irvc memory model: distinct objects do not overlap, pointers are compared by object and offset',
            'template instantiations: only those named in the contracts are proved'] + nonterm,
        'coverage': {
            'obligations': tot, 'discharged': ndis + ntriv,
            'solver_obligations': nob, 'by_simplification': ntriv, 'by_backend': be, 'by_kind': kinds,
            'solver_time_s': round(st, 1),
            'checker_cmd': 'python3 /verif/check.py %s --tier %s' % (pid, tier),
            'trusted_base': ['clang 18.1.3 front end', 'LLVM opt passes sroa/inline/early-cse/adce/loop-simplify/lcssa', 'irvc VC generator (/verif/irvc)',
                             'z3 (python3-vt)', 'cvc5 1.1.2', 'models of C library and C++ run time functions in irvc/models.py'],
            'contracts_proved': sorted(proved),
            'contracts_bounded_not_proved': [{'contract': n, 'why': results[n].get('why'), 'bounded_execution': results[n].get('native_long') or results[n].get('native')} for n in sorted(bounded)],
            'native_execution': {n: r.get('native') for n, r in results.items()},
            'functions_under_contract': fl, 'functions_under_contract_count': len(fl),
            'termination_not_proved': nonterm,
            'loops_with_inferred_invariants': sum(len(results[n].get('loops', [])) for n in proved),
            'vacuity': {n: results[n].get('covers') for n in proved},
            'known_findings': [k['what'] for k, _ in finds],
            'failed': v,
        },
    }
    with open('%s/%s.json' % (evd, pid), 'w') as f:
        json.dump(ev, f, indent=1)


if __name__ == '__main__':
    sys.exit(main())
