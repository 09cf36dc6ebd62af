#!/usr/bin/env python3
"""Fills the generated parts of DESIGN.md: python3 tools/design.py (run the checks first: the cost comes from evidence/)"""
import json, os, re, runpy, subprocess, io, contextlib
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
with contextlib.redirect_stdout(io.StringIO()):
    ORACLE = runpy.run_path(os.path.join(here, 'manifest.py'))['ORACLE']
manifest = {c['property']: c for c in json.load(open(root + '/MANIFEST.json'))['checks']}
out = []
for l in open(root + '/properties.jsonl'):
    p = json.loads(l); i = p['id']
    ev = json.load(open(f'{root}/evidence/{i}.json')); c = ev['coverage']
    src = open(f'{root}/checks/{i}.mjs').read()
    runs = re.findall(r"\{ quick: (\d+), thorough: (\d+) \}", src)
    out.append(f"### {i}. {p['title']}\n")
    out.append(f"- Quantifier: {p['quantifier']['text']}")
    for r in re.findall(r"\[([^\]]+)\] (.*?)(?= \[[^\]]+\] [a-z]|$)", c['rule'], re.S):
        n = c['sections'].get(r[0], {})
        out.append(f"- Generated, section `{r[0]}` ({n.get('evaluations')} cases, {n.get('nontrivial')} non-trivial, in a quick run): {r[1]}")
    out.append(f"- Oracle: {ORACLE[i]}.")
    if ev.get('assumptions'): out.append('- Bounds and assumptions: ' + '; '.join(ev['assumptions']) + '.')
    out.append(f"- Cost: {ev['wall_s']:.0f} s quick; thorough explores " + ' / '.join(f'{int(t):,}' for q, t in runs) + ' cases.')
    out.append(f"- Beyond the tests: {p['why_tests_cant']}\n")
props = '\n'.join(out)
first = {}
for l in open(here + '/seeded.tsv'):
    if l.strip(): k, v = l.rstrip('\n').split('\t'); first[k] = v
rows = ['| bug | property | what it breaks; needs | caught by |', '|---|---|---|---|']
for b in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(f'{root}/seeded/{b}/meta.json'))
    rows.append(f"| {b} | {m['property']} | {m['what_it_breaks']}; needs: {m['needs']} | {first.get(b, m['property'])} |".replace('\n', ' '))
seeds = '\n'.join(rows)
f = root + '/DESIGN.md'; s = open(f).read()
for name, text in (('PROPERTIES', props), ('SEEDED', seeds)):
    s = re.sub(f'(<!-- {name} -->\n).*?(\n<!-- /{name} -->)', lambda m: m.group(1) + text + m.group(2), s, flags=re.S)
open(f, 'w').write(s)
