#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from DESIGN.in.md: fills in the scenario tables
(from the harness sources) and the table of planted bugs (from seeded/*)."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(V + '/tools/DESIGN.in.md').read()
def scen(m):
    id = m.group(1)
    r = []
    for l in open(V + '/tools/scenarios.txt'):
        x = re.match(r'(C\d+)/(\S+)\s+race=(\w+)\s+bounds=(-?\d+)/(-?\d+) (.*)', l)
        if x and x.group(1) == id:
            q = 'thorough only' if x.group(4) == '-1' else x.group(4)
            r.append(f"| {x.group(2)} | {x.group(6).replace('|', chr(92) + '|')} | {q} / {x.group(5)} | {'yes' if x.group(3) == 'true' else ''} |")
    return '| scenario | what is enumerated | bound quick / thorough | race detector |\n|---|---|---|---|\n' + '\n'.join(r)
t = re.sub(r'<<scenarios (C\d+)>>', scen, t)
def seeds(m):
    r = []
    missed = json.load(open(V + '/tools/seed_notes.json'))
    for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
        id = d.split('/')[-2]; j = json.load(open(d))
        r.append(f"| {id} | {j['property']} | {j['what_it_breaks']} | {j['needs']} | {missed.get(id, 'caught')} |")
    return '| id | check | what it breaks | needs | result |\n|---|---|---|---|---|\n' + '\n'.join(r)
t = re.sub(r'<<seeds>>', seeds, t)
t = t.replace('<<reverts>>', '\n'.join('| ' + l.strip().replace('|', chr(92) + '|') + ' |' for l in open(V + '/tools/revert.txt')))
open(V + '/DESIGN.md', 'w').write(t)
