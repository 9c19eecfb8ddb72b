"""Assembles DESIGN.md."""
import glob
import importlib
import json
import os
import sys
import textwrap

H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
import meta
from design_notes import ORACLE


def wrap(s, ind=''):
    return '\n'.join(textwrap.wrap(s, 150, initial_indent=ind, subsequent_indent=ind))


out = [open(os.path.join(H, 'design_head.md')).read().rstrip(), '', '## 2. The properties', '']
res = {}
for d in sorted(glob.glob(os.path.join(H, 'seeded', '*', 'meta.json'))):
    m = json.load(open(d))
    res.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(d)), m))
kf = json.load(open(os.path.join(H, 'known_findings.json')))
for p in meta.PROPS:
    out += [f'### {p["id"]} – {p["title"]}', '', wrap(p['statement']), '']
    if p['na']:
        out += [f'**Not applicable**: {p["na"]}', '']
        continue
    mod = importlib.import_module('props.' + p['id'].lower())
    out.append('* **Ranges over**: ' + p['text'])
    out.append('* **Oracle and method**: ' + ORACLE[p['id']])
    out.append('* **Bounds**: ' + '; '.join(f'{k}: {v}' for k, v in mod.BOUNDS.items()))
    out.append('* **Outside**: ' + mod.OUTSIDE)
    out.append('* **Assumes**: ' + '; '.join(mod.ASSUMPTIONS))
    nq = len(list(mod.obligations('quick')))
    nt = len(list(mod.obligations('thorough')))
    out.append(f'* **Obligations**: {nq} quick, {nt} thorough. ' + p['note'])
    if p['id'] in res:
        out.append('* **Planted bugs**: ' + '; '.join(f'`{n}` ({m["what_it_breaks"]})' for n, m in res[p['id']]))
    out.append('')
out += ['## 3. Defects found in the original tree and repaired', '',
        'Each was found as a counterexample (or while writing the oracle), confirmed on the real package, repaired by its own `fix:` commit and stays guarded by the check named.', '']
for f in kf['fixed']:
    f = f.replace('fixed: property=', '')
    p, sha, what = f.split(' ', 2)
    out.append(f'* {p} `{sha}` {what}')
out += ['', '## 4. Known findings', '']
if kf['findings']:
    for f in kf['findings']:
        out.append(f'* {json.dumps(f)}')
else:
    out.append('None: every confirmed violation of a claimed property was repaired.')
out.append('')
out.append(open(os.path.join(H, 'design_tail.md')).read())
open(os.path.join(H, 'DESIGN.md'), 'w').write('\n'.join(out))
