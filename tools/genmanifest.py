#!/usr/bin/env python3
"""MANIFEST.json from properties.jsonl and the contract files that exist."""
import glob, json, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 'P29': 'waiting on std::atomic, condition variables and futex-style notification is a property of thread interleavings; sequential contracts cannot express it (C++ headers, no permission logic for C++ is installed)',
 'P30': 'the guarantee is about the operating system mapping (open, fstat, mmap, munmap); a contract could only restate assumptions on those external functions',
}
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
notes = json.load(open(V + '/tools/levelnotes.json')) if os.path.exists(V + '/tools/levelnotes.json') else {}
have = {}
for f in glob.glob(V + '/contracts/P*.cpp'):
    m = re.match(r'(P\d\d)(_\w+)?\.cpp', os.path.basename(f))
    have.setdefault(m.group(1), []).append(f)
skip = json.load(open(V + '/tools/skip.json')) if os.path.exists(V + '/tools/skip.json') else {}
checks = []
na = []
for p in props:
    i = p['id']
    if i in have and i not in skip:
        checks.append({
            'property': i,
            'quick_cmd': 'python3 check.py %s --tier quick' % i,
            'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
            'technique': 'contract-based deductive verification of the real headers (contracts on the C++ functions, VCs from LLVM IR, z3/cvc5)',
            'level': 'proof',
            'level_note': notes.get(i, '') + ('' if not notes.get(i) else ' ') +
            'Each contract in contracts/%s*.cpp is proved for all inputs over the LLVM IR clang makes of the current headers (callees in line, loop invariants inferred then checked); contracts the verifier cannot finish are listed in the evidence as bounded execution only. Trusts clang, six LLVM passes, the VC generator irvc, z3 and cvc5.' % i,
        })
    else:
        na.append({'property': i, 'reason': NA.get(i) or skip.get(i) or 'no contract for this property is within reach yet'})
m = {
    'version': 1,
    'setup_cmd': 'python3 check.py --setup',
    'checks': checks,
    'hooks': {'guard': 'VC_NATIVE', 'enable': 'no hook is compiled into /repo; VC_NATIVE only selects the native execution of the contract files in /verif', 'source_commits': []},
    'not_applicable': na,
    'notes': 'Contracts: contracts/*.cpp; verifier: irvc/; defects repaired or recorded: known_findings.json',
}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks;', [x['property'] for x in na])
