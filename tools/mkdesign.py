#!/usr/bin/env python3
# DESIGN.md = tools/design.md with its {{...}} parts filled from properties.jsonl, the harnesses' metadata,
# known_findings.json and seeded/
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
notes = {}
cur = None
for l in open(V + '/tools/design_notes.md'):
    m = re.match(r'## (C\d\d)', l)
    if m: cur = m.group(1); notes[cur] = ''
    elif cur: notes[cur] += l
man = json.load(open(V + '/MANIFEST.json')); na = {x['property']: x['reason'] for x in man['not_applicable']}
out = []
for p in props:
    i = p['id']; out.append(f"### {i} {p['title']}\n\n{p['statement']}\n")
    fs = sorted(glob.glob(f'{V}/harness/{i}.cpp') + glob.glob(f'{V}/harness/{i}_*.cpp'))
    if i in na: out.append(f"**Not applicable.** {na[i]}\n"); continue
    if notes.get(i, '').strip(): out.append(notes[i].strip() + '\n')
    out.append('| entry | what is explored | bounds |\n|---|---|---|')
    for f in fs:
        for l in open(f):
            m = re.match(r'//@ (\S+)(.*?)\|(.*)\|(.*)', l)
            if not m: continue
            o = m.group(2); b = m.group(4).strip()
            q = re.search(r'(?:^|\s)(?:q\.)?preempt=(-?\d+)', o); t = re.search(r't\.preempt=(-?\d+)', o)
            if q and 'preempt' not in b: b += f"; {q.group(1)} preemptions" + (f" (thorough {t.group(1)})" if t else '')
            if ' races' in o: b += '; race detection'
            if 'finding' in o.split(): b += '; known finding'
            out.append(f"| {m.group(1)} | {m.group(3).strip()} | {b} |".replace('||', '\\|\\|'))
    out.append('')
kf = json.load(open(V + '/known_findings.json'))
fixed = '\n'.join('* ' + re.sub(r'^fixed: property=', '', x if isinstance(x, str) else str(x)) for x in kf['fixed'])
find = '\n'.join(f"* {x['property']} `{x['entry']}`: {x['what']}" for x in kf['findings'])
catch = json.load(open(V + '/tools/catch.json')) if os.path.exists(V + '/tools/catch.json') else {}
seeds = ['| planted bug | what it breaks | needs | caught by |', '|---|---|---|---|']
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d)); n = os.path.basename(os.path.dirname(d))
    seeds.append(f"| {n} | {m['what_it_breaks']} | {m['needs']} | {catch.get(n, m['property'])} |")
s = open(V + '/tools/design.md').read()
for k, v in (('PROPERTIES', '\n'.join(out)), ('FIXED', fixed), ('FINDINGS', find), ('SEEDS', '\n'.join(seeds))): s = s.replace('{{' + k + '}}', v)
open(V + '/DESIGN.md', 'w').write(s)
