#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and plan.py."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
NOTE = {
 'P01': 'termination is judged by an instruction limit of 30 million per path', 'P03': 'freed objects are never reused by the model, so every use after free is seen; reading of the result is done by the comparison with the reference tree',
 'P04': 'a leak is memory of the call that no global object reaches when the result is gone', 'P06': 'decimal to double conversion is an uninterpreted function of the digits: text handed to strtod unchanged is what is decided', 'P09': 'all operator sequences within the windows',
 'P20': 'operations parse fixed texts, error positions and the order of destruction are symbolic; into an object in use only ownership is judged', 'P21': 'no thread schedules are explored: that no shared memory is written is decided, which makes them irrelevant',
 'P24': 'lists of up to 6 parts', 'P25': 'exact text against a reference printer; numbers appear in an encoding, since their formatting belongs to libstdc++', 'P28': 'effects are seen as calls of the library functions that have them and as writes through the text; what the scanner says on standard error about an unknown token is allowed', 'P26': 'concrete long inputs with symbolic parts near their ends'}
B = ('Bounded: every feasible path of the real code (LLVM bitcode compiled from the working tree, generated scanner and parser included) within the windows listed under bounds in the evidence is executed with symbolic bytes, tokens or values, '
     'and every assertion on it is decided for all their values; nothing is claimed outside the windows. Trusts the executor, the models of the C library and of libstdc++ streams in models/, and the reference in harness/ref*.h; counterexamples are replayed against a native build before they are reported.')
checks = []
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)['id']
    checks.append({'property': p, 'quick_cmd': 'python3 run.py %s quick' % p, 'thorough_cmd': 'python3 run.py %s thorough' % p, 'evidence_file': 'evidence/%s.json' % p,
                   'technique': 'symbolic execution of the compiled code (LLVM IR) with value domains and Z3 against a reference model', 'level': 'model_checking', 'level_note': B + (' Here: ' + NOTE[p] + '.' if p in NOTE else '')})
M = {'version': 1, 'setup_cmd': 'python3 -m py_compile run.py plan.py build.py && clang++ --version && bison --version && flex --version && z3 --version', 'checks': checks, 'not_applicable': [],
     'notes': 'Every check builds the real code, the executor and the replay programs from /repo and /verif into a scratch directory under /tmp and removes it. Findings: known-findings.txt. Design: DESIGN.md.'}
json.dump(M, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
