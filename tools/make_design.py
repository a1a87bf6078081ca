#!/usr/bin/env python3
"""Write the generated parts of DESIGN.md (per property, per planted bug).

DESIGN.md = tools/design_head.md + one section per property (statement from
properties.jsonl, workload and assumptions from the check module, oracle and
reach from REACH below) + table of planted bugs (from seeded/*/meta.json and
tools/caught.json) + tools/design_tail.md.
"""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
REACH = {}


def read(name):
    with open(os.path.join(ROOT, name)) as f:
        return f.read()


def reach():
    res, pid = {}, None
    for line in read('tools/design_reach.md').splitlines():
        if line.startswith('## '):
            pid = line[3:].strip()
            res[pid] = []
        elif pid:
            res[pid].append(line)
    return {k: '\n'.join(v).strip() for k, v in res.items()}


def constants(pid):
    import ast
    tree = ast.parse(read('harness/props/%s.py' % pid.lower()))
    res = {}
    for node in tree.body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0],
                                                       ast.Name):
            try:
                res[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    return res


def main():
    out = [read('tools/design_head.md').strip(), '']
    texts = reach()
    props = [json.loads(line) for line
             in read('properties.jsonl').splitlines() if line.strip()]
    out += ['## The properties and how each is decided', '']
    for p in props:
        pid = p['id']
        c = constants(pid)
        out += ['### %s: %s' % (pid, p['title']), '', p['statement'], '']
        out += ['*Workload and oracle.* ' + c['RULE'], '']
        out += [texts[pid], '']
        if c.get('ASSUMPTIONS'):
            out += ['*Bounds and assumptions.* ' + ' '.join(c['ASSUMPTIONS']),
                    '']
        out += ['*Reach.* Quick: %d cases; thorough: up to %d cases or its '
                'time budget. A run is only conclusive if the monitors saw at '
                'least: %s.' % (
                    c['QUICK_N'], c['THOROUGH_N'],
                    ', '.join('%s %s' % (v, k)
                              for k, v in c.get('NEED', {}).items())), '']
    out += ['## Planted bugs', '', read('tools/design_plants.md').strip(), '',
            '| Bug | What it breaks | Caught by | At first |',
            '|---|---|---|---|']
    caught = json.loads(read('tools/caught.json'))
    base = os.path.join(ROOT, 'seeded')
    for name in sorted(os.listdir(base)):
        meta = json.loads(read('seeded/%s/meta.json' % name))
        info = caught.get(name, {})
        out.append('| %s | %s | %s | %s |' % (
            name, meta['what_it_breaks'].replace('|', '/').replace('\n', ' '),
            ', '.join(info.get('by', [])) or '**not caught**',
            info.get('first', 'caught')))
    out += ['', read('tools/design_tail.md').strip(), '']
    with open(os.path.join(ROOT, 'DESIGN.md'), 'w') as f:
        f.write('\n'.join(out))


if __name__ == '__main__':
    main()
