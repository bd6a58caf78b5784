#!/usr/bin/env python3
# writes MANIFEST.json: every property with a harness is claimed, the others are listed with their reason
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
TODO = 'no check yet'
NA = {
 'C35': 'The TCP worlds are asio sockets, boost.serialization archives and std::stringstream parsing: kernel I/O and iostream/locale code compiled into shared libraries, of which no IR is available, so neither the transport nor encode/decode can be executed symbolically here (and the headers are not built by the repository itself).',
 'C36': 'Boost.Geometry overlay is floating-point computation over doubles (symbolic doubles are out of reach of the encoding, and equality of point sets has no bit-vector oracle); the geometry tests do not build in this sandbox either.',
}
NOTE = {}
checks = []; na = []
for p in props:
    i = p['id']
    if glob.glob(f'{V}/harness/{i}.cpp') + glob.glob(f'{V}/harness/{i}_*.cpp'):
        n = open(V + '/harness/notes.json').read() if os.path.exists(V + '/harness/notes.json') else '{}'
        conc = json.loads(n).get(i, {})
        checks.append({'property': i, 'quick_cmd': f'python3 check.py {i} --tier quick', 'thorough_cmd': f'python3 check.py {i} --tier thorough', 'evidence_file': f'evidence/{i}.json',
            'technique': conc.get('technique', 'symbolic execution of the library\'s LLVM IR with Z3 (bit-vector path conditions) and counterexample replay'),
            'level': 'model_checking', 'level_note': conc.get('note', 'Bounded: holds for every value of the symbolic inputs, within the lengths, cutoffs and departures from FIFO chunk order listed per entry in the evidence; nothing is claimed beyond them. Trusted: the engine (engine/), clang\'s front end, Z3, the models of pthread/new/delete in engine/rt.cpp; sequentially consistent atomics, allocation succeeds.')})
    else: na.append({'property': i, 'reason': NA.get(i, TODO)})
json.dump({'version': 1, 'setup_cmd': 'python3 check.py --build', 'checks': checks, 'not_applicable': na,
  'notes': 'No hooks in /repo. The engine is built from engine/ on first use; every run compiles the harnesses with the library\'s current headers to LLVM IR and explores them symbolically.'}, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', [x['property'] for x in na])
