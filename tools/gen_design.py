#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.md.in and the registers."""
import json,glob,os
R='/verif/'
props=[json.loads(l) for l in open(R+'properties.jsonl')]
hs=json.load(open(R+'harness/harnesses.json')); na=json.load(open(R+'tools/not_applicable.json'))
kf=json.load(open(R+'known_findings.json'))
cost=json.load(open(R+'tools/costs.json')) if os.path.exists(R+'tools/costs.json') else {}
by={}
for h in hs: by.setdefault(h['prop'],[]).append(h)
def kv(d): return ' '.join(f'{k}={v}' for k,v in (d or {}).items()) or '–'
t=[]
for p in props:
    i=p['id']
    if i in na or i not in by: continue
    t.append(f"\n**{i} {p['title']}**"+(f" (quick ≈ {cost[i]} s)" if i in cost else '')+"\n")
    for h in by[i]:
        x=''
        if h.get('race') or h.get('sched') or h.get('preempt'):
            x=f"; p={h.get('preempt','free')}/{h.get('tpreempt',h.get('preempt','free'))}"+(', race' if h.get('race') else '')
        if h.get('hash_sym'): x+='; arbitrary hash'
        if h.get('map_nondet'): x+='; any map order'
        t.append(f"- `{h['pkg']}.{h['func']}`: {h['desc']} (q: {kv(h.get('params'))}; t: {kv(h.get('thorough'))}{x})"+(' — thorough only' if h.get('only')=='thorough' else ''))
fixed='\n'.join('- '+k['what'] for k in kf if k['status']=='fixed')
known='\n'.join(f"- **{k['id']}** ({k['property']}): {k['what']}" for k in kf if k['status']=='known')
res=json.load(open(R+'tools/caught.json')) if os.path.exists(R+'tools/caught.json') else {}
s=['| bug | property | needs | caught |','|---|---|---|---|']
for d in sorted(glob.glob(R+'seeded*/*/meta.json')):
    m=json.load(open(d)); n=d.split('/')[-2]
    s.append(f"| {n} | {m['property']} | {m['needs'].replace('|','/')} | {res.get(n,'yes')} |")
nas='\n'.join(f"- **{i}**: {r}" for i,r in na.items()) or '- none'
x=open(R+'tools/design.md.in').read()
for k,v in (('TABLE','\n'.join(t)),('FIXED',fixed),('KNOWN',known),('SEEDS','\n'.join(s)),('NA',nas),('EXTRA',''),('LIMITS','')):
    x=x.replace(f'@{k}@',v)
open(R+'DESIGN.md','w').write(x)
