"""meta.py: the one source of properties.jsonl and MANIFEST.json (python3 meta.py rewrites both)."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python -W ignore run.py'
TESTS = ("The 13 reliable tests look at a handful of fixed shapes of the broadcast helper, Pow and Where and nothing else")


def P(id, title, statement, text, why, files, mech, note, over=('inputs',), na=None, tech=None):
    return dict(id=id, title=title, statement=statement, text=text, why=why, files=files, mech=mech, note=note, over=list(over), na=na, tech=tech)


N = 'onnx_tool/node.py'
PROPS = []


def add(*a, **k):
    PROPS.append(P(*a, **k))


exec(open(os.path.join(HERE, 'meta_props.py')).read())

TECH = ('symbolic execution of the imported source of /repo (shadow numpy, path exploration by forking on solver-feasible branches) with z3 '
        'deciding every assertion over all values within the bounds; every counterexample is replayed on the real package')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, (p['id'], len(p['title']))
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}) + '\n')
    checks, na = [], []
    for p in PROPS:
        if p['na']:
            na.append({'property': p['id'], 'reason': p['na']})
            continue
        checks.append({'property': p['id'], 'quick_cmd': f'{PY} {p["id"]} --tier quick', 'thorough_cmd': f'{PY} {p["id"]} --tier thorough',
                       'technique': p['tech'] or TECH, 'level': 'model_checking', 'level_note': p['note']})
    m = {'version': 1, 'setup_cmd': f'{PY} --selftest', 'checks': checks, 'not_applicable': na,
         'notes': 'No hooks: the checks load the source of /repo/onnx_tool at run time (symex/shadow.py) and replay on the real package. '
                  'See DESIGN.md.'}
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)


if __name__ == '__main__':
    main()
