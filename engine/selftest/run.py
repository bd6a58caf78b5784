#!/usr/bin/env python3
"""Compares the outcomes found under partial-order reduction with those of full enumeration (same preemption bound)."""
import os, subprocess, json, sys, tempfile, shutil
D = os.path.dirname(os.path.abspath(__file__)); E = os.path.dirname(D); O = E + '/out'
subprocess.run([sys.executable, os.path.dirname(E) + '/check.py', '--build'], check=True)
W = tempfile.mkdtemp()
IRF = '-O1 -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -fwrapv -fno-strict-aliasing -fno-delete-null-pointer-checks -D_GLIBCXX_EXTERN_TEMPLATE=0 -std=c++20 -w -gline-tables-only -Xclang -disable-llvm-passes'.split()
b = W + '/s'
subprocess.run(['clang++', *IRF, '-I' + E, '-c', '-emit-llvm', D + '/sched.cpp', '-o', b + '.r.bc'], check=True)
subprocess.run(['opt-18', '-passes=function(sroa,early-cse,simplifycfg)', b + '.r.bc', '-o', b + '.bc'], check=True)
subprocess.run(['llvm-link-18', b + '.bc', O + '/rt.bc', '-o', b + '.l.bc'], check=True)
def run(e, *o):
    subprocess.run([O + '/asym', b + '.l.bc', '--entry=' + e, '--out=' + W + '/o.json', '--samples=10000000', '--max-time=25', '--replaydir=' + W, *o])
    d = json.load(open(W + '/o.json'))
    return {tuple(map(tuple, s['out'])) for s in d['samples']}, d['paths'], [v['msg'] for v in d['violations']], d['exhaustive']
bad = 0
for e in sys.argv[1:] or ['s1', 's2', 's3', 's4', 's5', 's6', 's7']:
    for p in (0, 1, 2, 3, 50):
        for rc in ([], ['--rc']):
            if (e == 's5') != bool(rc): continue
            f = run(e, f'--preempt={p}', '--full', *rc)
            for o in ([], ['--nosleep']):
                r = run(e, f'--preempt={p}', *o, *rc)
                ok = r[0] == f[0] or (not f[3] and r[0] >= f[0]); bad += not ok
                print(e, p, ' '.join(o + rc), 'outcomes', len(r[0]), 'of', len(f[0]), 'paths', r[1], 'of', f[1], 'exh', r[3], f[3], r[2], 'ok' if ok else 'DIFFER missing %s' % sorted(f[0] - r[0])[:3])
shutil.rmtree(W); sys.exit(1 if bad else 0)
