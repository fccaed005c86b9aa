#!/usr/bin/env python3
"""Rewrites the generated sections of DESIGN.md (per-property table, planted bugs) from the registry, the contract files and seeded/*/meta.json."""
import sys, os, re, json, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, R)
from contracts.registry import REG
props = {}
for l in open(R + '/properties.jsonl'):
    j = json.loads(l); props[j['id']] = j
out = []
for p in sorted(REG):
    e = REG[p]; out.append(f'### {p} — {props[p]["title"]}  [{e["level"]}]\n')
    out.append(e.get('note', '') + '\n')
    for c in e['contracts']:
        d = c if isinstance(c, dict) else {'file': c, 'prefix': f'h_{p}_'}
        txt = open(f'{R}/contracts/{d["file"]}').read()
        pre = d.get('prefix', f'h_{p}_')
        hs = sorted(set(re.findall(r'\b(' + re.escape(pre) + r'\w+)', txt)))
        t = d.get('templates') or (d.get('opts') or {}).get('templates')
        cs = (d.get('opts') or {}).get('contracts')
        s = f'- deductive: `contracts/{d["file"]}`, harnesses `{pre}*`' + (f' ({len(hs)} named in the text' + (': ' + ', '.join(h[len(pre):] for h in hs[:40]) if len(hs) <= 40 else '') + ')' if hs else ' (instantiated by macro)')
        if t: s += f'; loop-invariant template `{t}`'
        if cs: s += '; callees replaced by their contracts: ' + ', '.join(f'`{re.sub(chr(92)*2, "", a)}`' for a, _ in cs)
        out.append(s)
    for b in e.get('bounded', []):
        out.append(f'- **bounded** (not counted as proved): `native/{b["file"]}`' + (f' {" ".join(b["args"])}' if b.get('args') else '') + f' — {b["bound"]}')
    out.append('')
sd = ['| seed | property | needs | caught by |', '|---|---|---|---|']
rec = json.load(open(R + '/tools/seed_results.json')) if os.path.exists(R + '/tools/seed_results.json') else {}
for m in sorted(glob.glob(R + '/seeded/*/meta.json')):
    sid = os.path.basename(os.path.dirname(m)); j = json.load(open(m))
    sd.append(f'| {sid} | {j["property"]} | {j["needs"]} | {rec.get(sid, "not run")} |')
def put(t, name, body):
    a, b = f'<!-- gen:{name} -->', f'<!-- end:{name} -->'
    i, j = t.index(a) + len(a), t.index(b); return t[:i] + '\n' + body + '\n' + t[j:]
t = open(R + '/DESIGN.md').read()
t = put(t, 'props', '\n'.join(out)); t = put(t, 'seeds', '\n'.join(sd))
open(R + '/DESIGN.md', 'w').write(t)
