"""Writes DESIGN.md from tools/design_head.md, dst/about.py, the last evidence, known_findings.json, seeded/ and tools/design_tail.md."""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from dst.about import P
out = open(f'{V}/tools/design_head.md').read()
known = json.load(open(f'{V}/known_findings.json'))
bugs = {}
for b in sorted(glob.glob(f'{V}/seeded/*/meta.json')):
    m = json.load(open(b))
    bugs[os.path.basename(os.path.dirname(b))] = m
costs = json.load(open(f'{V}/tools/design_costs.json'))
for p in sorted(P):
    d = P[p]
    out += f'### {p} {d["title"]}\n\n{d["statement"]}\n\n'
    out += f'- **Anchored in**: ' + ', '.join(f'{n} (`{f}`)' for n, f in d['mech']) + '\n'
    out += f'- **Why tests cannot settle it**: {d["why"]}\n'
    if d.get('na'):
        out += f'- **Not applicable**: {d["na"]}\n\n'
        continue
    out += f'- **Decided by**: {d["how"]}. Quantified over {d["qtext"]}.\n'
    out += f'- **Observed**: ' + '; '.join(d['observe']) + '\n'
    out += f'- **A run**: {d["rule"]}\n'
    out += f'- **Assumes**: ' + '; '.join(d['assume']) + '\n'
    out += f'- **Real**: ' + '; '.join(d['real']) + '. **Simulated**: ' + '; '.join(d['stub']) + '\n'
    c = costs.get(p)
    if c:
        out += f'- **Quick check**: {c["runs"]} runs in {c["seconds"]} s ({c["distinct"]} distinct non-trivial histories)'
        if c['faults']:
            out += '; faults and disturbances injected: ' + ', '.join(f'{k} ({n})' for k, n in sorted(c['faults'].items(), key=lambda x: -x[1])[:14])
        out += '\n'
    s = [b for b, m in bugs.items() if m['property'] == p]
    if s:
        out += f'- **Planted bugs**: {", ".join(s)}\n'
    out += '\n'
tail = open(f'{V}/tools/design_tail.md').read()
fixes = '| property | commit | what failed |\n| --- | --- | --- |\n'
for f in known['fixed']:
    a = f.split(' ', 3)
    fixes += f'| {a[1][9:]} | {a[2]} | {a[3]} |\n'
catch = json.load(open(f'{V}/tools/catch.json'))
tab = '| bug | property | what it breaks | needs | caught as |\n| --- | --- | --- | --- | --- |\n'
for b, m in bugs.items():
    tab += f'| {b} | {m["property"]} | {m["what_it_breaks"]} | {m["needs"]} | {catch.get(b, "?")} |\n'
out += tail.replace('@@FIXES@@', fixes.strip()).replace('@@NBUGS@@', str(len(bugs))).replace('@@BUGS@@', tab.strip()).lstrip('\n')
open(f'{V}/DESIGN.md', 'w').write(out)
print(len(out))
