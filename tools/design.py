#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, props.py, the harnesses' rules and seeded/*/meta.json"""
import json, os, re, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rules = {}
for f in sorted(glob.glob(R + '/h_*/src/*.rs')):
    t = open(f).read()
    for m in re.finditer(r'id: "(C\d+)",\s*rule: "((?:[^"\\]|\\.)*)",\s*assumptions: &\[(.*?)\],\s*subs: vec!\[(.*?)\]\s*,?\s*\}', t, re.S):
        subs = re.findall(r'Sub \{ name: "(\w+)", f: [^,]+, quick: ([\d_]+), thorough: ([\d_]+) \}', m.group(4))
        rules[m.group(1)] = (m.group(2).replace('\\"', '"'), re.findall(r'"((?:[^"\\]|\\.)*)"', m.group(3)), subs)
man = {c['property']: c for c in json.load(open(R + '/MANIFEST.json'))['checks']}
out = open(R + '/tools/design_head.md').read()
rows = []
for d in sorted(glob.glob(R + '/seeded/*/meta.json')):
    m = json.load(open(d))
    c = m.get('caught_by') or m.get('caught') or ''
    rows.append(f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {c} |")
out += '| name | property | breaks | needs | caught by |\n|---|---|---|---|---|\n' + '\n'.join(rows) + '\n\n'
if os.path.exists(R + '/tools/design_tail.md'):
    out += open(R + '/tools/design_tail.md').read() + '\n'
out += '## Properties\n\n'
for l in open(R + '/properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    r, a, s = rules[i]
    out += f"### {i} {p['title']}\n\n{p['statement']}\n\n"
    out += f"*Decided by:* {man[i]['technique']}. Command `{man[i]['quick_cmd']}`.\n\n{r}\n\n"
    if a: out += "*Taken as given:* " + '; '.join(a) + '.\n\n'
    out += "*Cases:* " + ', '.join(f"{n} {q.replace('_',' ')} quick / {t.replace('_',' ')} thorough" for n, q, t in s) + '. ' + man[i]['level_note'] + '\n\n'
    out += f"*Why tests cannot settle it:* {p['why_tests_cant']}\n\n"
open(R + '/DESIGN.md', 'w').write(out)
print(len(rules), 'rules')
