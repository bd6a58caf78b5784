#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--only entry] [-v]
Decides one property: compiles the harnesses of harness/<property>*.cpp together with the library's
current sources to LLVM IR, explores every entry with the symbolic executor (engine/), replays what
it finds, validates sample paths natively and writes evidence/<property>.json."""
import sys, os, re, subprocess, json, time, glob, fcntl, shutil, concurrent.futures as cf
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('ASYM_REPO', '/repo'); OUT = V + '/engine/out'
IRF = ('-O1 -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -fwrapv -fno-strict-aliasing -fno-delete-null-pointer-checks '
       '-D_GLIBCXX_EXTERN_TEMPLATE=0 -std=c++20 -ftemplate-depth=300 -w -gline-tables-only').split()
def sh(c, **k): return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **k)
def build():
    os.makedirs(OUT, exist_ok=True)
    with open(OUT + '/lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = sh([V + '/engine/build.sh', OUT])
        if r.returncode: sys.exit('engine build failed:\n' + r.stderr)
        src = V + '/engine/rt.cpp'; bc = OUT + '/rt.bc'
        if not os.path.exists(bc) or os.path.getmtime(bc) < max(os.path.getmtime(src), os.path.getmtime(V + '/engine/asym.h')):
            r = sh(['clang++', *IRF, '-fno-builtin', '-I' + V + '/engine', '-c', '-emit-llvm', src, '-o', bc + '.tmp'])
            if r.returncode: sys.exit('rt build failed:\n' + r.stderr)
            os.rename(bc + '.tmp', bc)
def entries(f):
    es = []; fl = ''
    for l in open(f):
        m = re.match(r'//@@\s*(.*)', l)
        if m: fl += ' ' + m.group(1); continue
        m = re.match(r'//@\s+(\S+)\s*([^|]*)\|?([^|]*)\|?(.*)', l)
        if m: es.append(dict(name=m.group(1), opts=m.group(2).split(), desc=m.group(3).strip(), bounds=m.group(4).strip(), file=f))
    return es, fl
def opt(e, k, d, tier):
    v = d
    for o in e['opts']:
        if o.startswith(k + '='): v = o[len(k)+1:]
    for o in e['opts']:
        if o.startswith(tier[0] + '.' + k + '='): v = o[len(k)+3:]
    return v
def main():
    a = sys.argv[1:]
    if a and a[0] == '--build': build(); return
    prop = a[0]; tier = os.environ.get('VERIF_TIER', 'quick'); only = None; verbose = '-v' in a; keep = '--keep' in a
    if '--tier' in a: tier = a[a.index('--tier')+1]
    if '--only' in a: only = a[a.index('--only')+1].split(',')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1); t0 = time.time()
    budget = 780 if tier == 'quick' else 3300
    build()
    W = f'{V}/work/{prop}.{os.getpid()}'; shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
    RP = f'{V}/work/replays/{prop}'; shutil.rmtree(RP, ignore_errors=True); os.makedirs(RP, exist_ok=True)
    files = sorted(glob.glob(f'{V}/harness/{prop}.cpp') + glob.glob(f'{V}/harness/{prop}_*.cpp')); assert files, 'no harness for ' + prop
    ents = []; flags = {}; notes = []; errors = []
    for f in files:
        es, fl = entries(f); flags[f] = fl.split()
        ents += [e for e in es if (not only or e['name'] in only) and opt(e, 'tier', 'quick', tier) in ('quick', tier)]
    files = [f for f in files if any(e['file'] == f for e in ents)]
    ex = cf.ThreadPoolExecutor(int(os.environ.get('ASYM_JOBS', '8'))); ctime = {}
    base = ['-I' + V + '/engine', '-I' + V + '/harness', '-I' + REPO, f'-DTIER={1 if tier == "thorough" else 0}']
    def comp(f):
        b = W + '/' + os.path.basename(f)[:-4]; t = time.time()
        r = sh(['clang++', *IRF, '-Xclang', '-disable-llvm-passes', *base, *flags[f], '-c', '-emit-llvm', f, '-o', b + '.r.bc'])
        if r.returncode: return f, None, r.stderr
        r = sh(['opt-18', '-passes=function(sroa,early-cse,simplifycfg)', b + '.r.bc', '-o', b + '.bc'])
        if r.returncode: return f, None, r.stderr
        r = sh(['llvm-link-18', b + '.bc', OUT + '/rt.bc', '-o', b + '.l.bc']); ctime[f] = time.time() - t
        return f, (b if not r.returncode else None), r.stderr
    def explore(e, b):
        t = opt(e, 'time', 240 if tier == 'quick' else 1500, tier); left = budget - (time.time() - t0); t = max(5, min(float(t), left))
        o = f'{W}/{e["name"]}.json'
        c = [OUT + '/asym', b + '.l.bc', '--entry=' + e['name'], '--out=' + o, '--replaydir=' + RP, f'--max-time={t}', '--preempt=' + str(opt(e, 'preempt', 2, tier)), '--samples=' + str(opt(e, 'samples', 2, tier))]
        for k in ('idle', 'max-steps'):
            v = opt(e, k, None, tier)
            if v: c.append(f'--{k}={v}')
        for k in ('races', 'rc', 'nosleep', 'timeouts'):
            if k in e['opts']: c.append('--' + k)
        try: r = sh(c, timeout=t + 60)
        except subprocess.TimeoutExpired: return e, None, 'engine did not stop in time', b
        try: d = json.load(open(o))
        except Exception: d = None
        return e, d, r.stderr[-2000:] if d is None else '', b
    def native(f, b):
        r = sh(['clang++', '-x', 'ir', b + '.bc', '-x', 'none', OUT + '/rt_native.o', '-O0', '-w', '-g1', '-o', b + '.native', '-rdynamic', '-ldl', '-pthread', '-lboost_thread', '-lboost_system', '-lboost_chrono', *[x for x in flags[f] if x.startswith('-l')]])
        return f, (b + '.native' if not r.returncode else None), r.stderr[-1500:]
    def rtn():
        with open(OUT + '/lock', 'w') as lk:
            fcntl.flock(lk, fcntl.LOCK_EX); o = OUT + '/rt_native.o'; s = V + '/engine/rt_native.cpp'
            if not os.path.exists(o) or os.path.getmtime(o) < os.path.getmtime(s): sh(['g++', '-std=c++20', '-O1', '-w', '-c', s, '-I' + V + '/engine', '-o', o])
    rtn()
    comps = {ex.submit(comp, f): f for f in files}; runs = []; nats = []; bases = {}
    for c in cf.as_completed(comps):
        f, b, err = c.result()
        if b is None: errors.append(f'{os.path.basename(f)} does not compile:\n' + '\n'.join(l for l in err.splitlines() if 'error' in l)[:3000]); continue
        bases[f] = b
        runs += [ex.submit(explore, e, b) for e in ents if e['file'] == f]
        if any('nonative' not in e['opts'] for e in ents if e['file'] == f) and '--nonative' not in a: nats.append(ex.submit(native, f, b))
    res = []
    for r in cf.as_completed(runs):
        e, d, err, b = r.result(); res.append((e, d, err, b))
        if verbose:
            print(f"  {e['name']:28s}", 'ERROR ' + err if d is None else f"paths={d['paths']} compl={d['completed']} killed={d['assume_killed']} sched={d['sched_points']}/{d['sched_branches']} skips={d['bound_skips']} q={d['queries']} st={d['solver_time']:.2f} wall={d['wall']:.1f} exh={d['exhaustive']} {d['incomplete']} {d['reach']} rss={d['maxrss_mb']}", [(v['kind'], v['msg']) for v in (d or {}).get('violations', [])], flush=True)
    nat = {}
    for n in nats:
        f, p, err = n.result()
        if p: nat[f] = p
        else: notes.append(f'no native build of {os.path.basename(f)}: {err[-300:]}')
    kf = []
    if os.path.exists(V + '/known_findings.json'): kf = [k for k in json.load(open(V + '/known_findings.json'))['findings'] if k['property'] == prop]
    viol = []; known = []; validated = 0; mism = []; samples = []
    tot = dict(paths=0, completed=0, forks=0, sched_points=0, sched_branches=0, instructions=0, queries=0, sat=0, unsat=0, unknown=0, cached=0, asserts=0, assert_queries=0, solver_time=0.0)
    funcs = set(); per = []; exh = True; vac = []
    def natrun(e, replayfile):
        try: r = sh([nat[e['file']], e['name'], replayfile], timeout=30)
        except subprocess.TimeoutExpired: return 'TIMEOUT', []
        ls = r.stdout.splitlines(); return (r.returncode, ls)
    for e, d, err, b in sorted(res, key=lambda x: x[0]['name']):
        if d is None: errors.append(f"{e['name']}: {err}"); exh = False; continue
        for k in tot: tot[k] += d.get(k, 0)
        funcs |= set(d['functions']); exh &= d['exhaustive'] or bool(d['violations'])
        per.append(dict(entry=e['name'], what=e['desc'], bounds=e['bounds'], preemption_bound=d['preempt'] if d['sched_points'] else None, **{k: d[k] for k in ('paths', 'completed', 'assume_killed', 'forks', 'sched_points', 'sched_branches', 'bound_skips', 'sleep_cuts', 'threads', 'instructions', 'asserts', 'queries', 'unsat', 'sat', 'unknown', 'solver_time', 'wall', 'exhaustive', 'incomplete', 'reach')}))
        want = [x[6:] for x in e['opts'] if x.startswith('reach=')]; want = want[0].split(',') if want else ['end']
        vs = [v for v in d['violations'] if v['kind'] != 'engine']
        for v in d['violations']:
            if v['kind'] == 'engine': notes.append(f"{e['name']}: engine limitation: {v['msg']}"); exh = False
        if not vs:
            for m in want:
                if m and not d['reach'].get(m) and 'finding' not in e['opts']: vac.append(f"{e['name']}: witness '{m}' not reached")
        for v in vs:
            # replay: the concrete assignment and schedule are executed again
            rr = sh([OUT + '/asym', b + '.l.bc', '--replay=' + v['replay'], '--out=' + W + '/rp.json', '--max-time=120', *['--' + k for k in ('races', 'rc', 'timeouts') if k in e['opts']], *[f'--{k}={opt(e, k, None, tier)}' for k in ('idle', 'max-steps') if opt(e, k, None, tier)]]); rep = None
            try: rep = json.load(open(W + '/rp.json'))
            except Exception: pass
            same = bool(rep and any(x['kind'] == v['kind'] for x in rep['violations']))
            nstat = 'not run'
            if e['file'] in nat and 'nonative' not in e['opts'] and not v['threads']:
                x = natrun(e, v['replay']); nstat = 'reproduced' if x[0] in (1, 'TIMEOUT') or (isinstance(x[0], int) and x[0] < 0) else f'rc={x[0]} {x[1][-1:]}'
            with open(v['replay'], 'a') as f: f.write(f'\nengine replay: {"reproduced" if same else "NOT reproduced"}; native replay: {nstat}\nreplay with: {OUT}/asym <linked bitcode of {os.path.relpath(e["file"], V)}> --replay=<this file> -v   (or check.py {prop} --only {e["name"]} -v)\n')
            v['same'] = same; v['native'] = nstat; v['entry'] = e['name']
            hit = [k for k in kf if k['entry'] == e['name'] and (k.get('msg', '') in v['msg']) and k.get('kind', v['kind']) == v['kind']]
            if not same: errors.append(f"{e['name']}: counterexample did not replay ({v['msg']})"); continue
            (known if hit else viol).append((v, hit))
        if e['file'] in nat and 'nonative' not in e['opts']:
            for i, s in enumerate(d['samples'][:2]):
                if s['sched']: continue
                rf = f"{W}/{e['name']}.s{i}"; open(rf, 'w').write(''.join(f'var {n} {x}\n' for n, x in s['vars']))
                x = natrun(e, rf); exp = [f'OUT {n} {y}' for n, y in s['out']] + [f'REACH {n}' for n in s['reach']]; got = [l for l in x[1] if l.startswith(('OUT', 'REACH'))]
                if x[0] == 0 and sorted(exp) == sorted(got): validated += 1
                else: mism.append(f"{e['name']} sample {i}: native {x[0]} {x[1][-3:]} expected {exp[-3:]}")
        if d['samples']: samples.append(dict(entry=e['name'], vars=d['samples'][-1]['vars'][:40], schedule=d['samples'][-1]['sched'][:80], out=d['samples'][-1]['out'][:20]))
    lvl = 'model_checking'
    ev = dict(property=prop, tier=tier, seed=seed, level=lvl, wall_s=round(time.time() - t0, 2), violations=len(viol),
        coverage=dict(states=tot['forks'] + tot['sched_branches'] + len(per), transitions=tot['instructions'], traces_validated_against_impl=validated, samples=samples[:12], exhaustive=bool(exh and not errors),
            entries=per, totals={**tot, 'solver_time': round(tot['solver_time'], 3)}, library_functions_encoded=len(funcs), functions=sorted(funcs)[:400],
            explanation='states = symbolic states queued (data forks + schedule branches + entries); transitions = IR instructions executed symbolically over those states; every branch, address and assertion on symbolic data is decided by Z3 (or by the simplifier when it is constant); traces_validated_against_impl = sample paths whose assignment was run natively against the compiled library with identical observable output.',
            native_mismatches=mism, notes=notes, known_findings=[k[0]['entry'] + ': ' + k[0]['msg'] for k in known]),
        assumptions=['atomics are sequentially consistent', 'reference-count updates and the internals of the C++/Boost.Thread runtime are not scheduling points', 'allocation does not fail', 'bounds per entry as listed'])
    os.makedirs(V + '/evidence', exist_ok=True); json.dump(ev, open(f'{V}/evidence/{prop}.json', 'w'), indent=1)
    if not keep: shutil.rmtree(W, ignore_errors=True)
    for v, h in known: print(f"KNOWN-FINDING: property={prop} {h[0]['what']}")
    for n in notes + mism: print('note:', n)
    for v, h in viol: print(f"VIOLATION property={prop} replay={os.path.relpath(v['replay'], V)}"); print(f"  entry {v['entry']}: {v['kind']}: {v['msg']} (engine replay reproduced, native replay {v['native']})")
    if viol: sys.exit(1)
    for n in errors + vac: print('ERROR:', n)
    if errors or vac: sys.exit(2)
    print(f"OK property={prop} entries={len(per)} paths={tot['paths']} schedules={tot['sched_branches']} queries={tot['queries']} validated={validated} exhaustive={exh} wall={time.time()-t0:.1f}s")
main()
