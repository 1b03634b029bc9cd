#!/usr/bin/env python3
"""properties.jsonl and MANIFEST.json from mc/meta.py (run in /verif)."""
import ast
import json
import os
import sys

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, root)
from mc import meta   # noqa

checks, na = [], []
with open(root + '/properties.jsonl', 'w') as f:
    for k, p in sorted(meta.PROPS.items()):
        assert len(p['title']) <= 80, k
        f.write(json.dumps(dict(
            id=k, title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['text']),
            why_tests_cant=p['why'],
            anchors=dict(files=p['files'],
                         mechanism=[dict(name=n, where=w)
                                    for n, w in p['mech']],
                         observe_at=p['observe'], hook_needed=None))) + '\n')
        if k in meta.NA:
            na.append(dict(property=k, reason=meta.NA[k]))
            continue
        src = open(f'{root}/mc/props/{k.lower()}.py').read()
        level = next(n.value.value for n in ast.parse(src).body
                     if isinstance(n, ast.Assign)
                     and n.targets[0].id == 'LEVEL')
        checks.append(dict(
            property=k, quick_cmd=f'./check {k} quick',
            thorough_cmd=f'./check {k} thorough', technique=p['technique'],
            level=level, level_note=p['level_note']))
json.dump(dict(version=1, setup_cmd='./setup', checks=checks,
               not_applicable=na,
               notes='Every check: ./check ID quick|thorough, counterexample '
                     'replay: ./replay FILE. See DESIGN.md.'),
          open(root + '/MANIFEST.json', 'w'), indent=1)
open(root + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks', len(na), 'not applicable')

# ---- the table of DESIGN.md
def const(src, name):
    for n in ast.parse(src).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') \
                == name:
            return ast.literal_eval(n.value)


def wrap(t, ind='  '):
    import textwrap
    return textwrap.fill(' '.join(t.split()), 79, initial_indent=ind,
                         subsequent_indent=ind)


out = []
for k, p in sorted(meta.PROPS.items()):
    out.append(f"### {k} {p['title']}\n")
    if k in meta.NA:
        out.append(wrap('Not applicable: ' + meta.NA[k], '') + '\n')
        continue
    src = open(f'{root}/mc/props/{k.lower()}.py').read()
    b = const(src, 'BOUNDS') or {}
    out.append(wrap(p['statement'], '') + '\n')
    out.append(wrap(f"* Method: {p['technique']}.", ''))
    out.append(wrap(f"* Explored: {p['text']}.", ''))
    out.append(wrap(f"* Bounds, quick: {b.get('quick', '')}; thorough: "
                    f"{b.get('thorough', '')}.", ''))
    a = const(src, 'ASSUMPTIONS')
    if a:
        out.append(wrap('* Not decided / assumed: ' + '; '.join(a) + '.', ''))
    out.append(wrap(f"* Beyond tests: {p['why']}", '') + '\n')
d = open(root + '/DESIGN.md').read()
h, _, r = d.partition('<!-- table -->')
_, _, t = r.partition('<!-- end -->')
open(root + '/DESIGN.md', 'w').write(
    h + '<!-- table -->\n\n' + '\n'.join(out) + '\n<!-- end -->' + t)

# ---- the table of seeded changes
FIRST = {'b18': 'a tree over the argument forms', 'b23': 'two-point bands',
         'b33': 'radii below one cell', 'b39': 'fractions of a '
         'milliarcsecond', 'b45': 'histories of several systems, exact '
         'tolerances', 'b46': 'radii down to 1e-5'}
rows = ['| change | breaks | needs | caught by |', '|---|---|---|---|']
for b in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(f'{root}/seeded/{b}/meta.json'))
    more = f' (missed at first; added {FIRST[b]})' if b in FIRST else ''
    rows.append(f"| {b} | {m['what_it_breaks']} | {m['needs']} | "
                f"{m['property']}{more} |")
d = open(root + '/DESIGN.md').read()
h = d.partition('<!-- seeded -->')[0]
open(root + '/DESIGN.md', 'w').write(
    h + '<!-- seeded -->\n\n' + 'Each was written from a property and the '
    'code, confirmed in a scratch copy\n(the tests pass, the demonstration '
    'fails) and then run against the check of its\nproperty; all are caught '
    'by the quick tier.\n\n' + '\n'.join(rows) + '\n\n'
    'Besides these, single-token mutants of every source file (operators, '
    'constants,\nargument defaults, dropped keywords, swapped arguments, '
    'deleted statements) were\nrun against the checks in bulk while building; '
    'each survivor was read and either\nis equivalent or led to a new '
    'enumeration (mostly: arguments left at their default\nand keywords '
    'passed on).  They are not kept.\n')
