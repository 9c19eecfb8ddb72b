"""Plant a bug: tools_seed.plant(id, prop, file, [(old,new)..], needs, breaks, demo) writes /verif/seeded/<id>/ and verifies it
in a scratch copy of /repo (tests pass, demo 0 -> nonzero, only original lines touched), then runs the property's check on it.
`python3 tools_seed.py` re-verifies every planted bug against the checks (scratch copies only)."""
import json, os, shutil, subprocess, sys, tempfile
BASE = '89df6a5'
PY = '/opt/venv/bin/python'
SEEDED = '/verif/seeded'


def sh(cmd, cwd=None, env=None, timeout=900):
    r = subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)
    return r.returncode, r.stdout + r.stderr


def scratch():
    d = tempfile.mkdtemp(prefix='seed_', dir='/tmp')
    sh(f'cp -a /repo {d}/repo')
    return d


def tests_pass(d):
    rc, out = sh(f'{PY} -m pytest -q -x -p no:cacheprovider --ignore=tests/test_model_profile.py tests 2>&1 | tail -3', cwd=d + '/repo')
    return out


def demo(d, sid):
    dd = d + '/demo'
    shutil.rmtree(dd, ignore_errors=True)
    shutil.copytree(f'{SEEDED}/{sid}', dd, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
    return sh(f'bash {dd}/demo.sh', cwd=d + '/repo', timeout=300)


def run_check(d, prop, tier='quick'):
    env = dict(os.environ, VERIF_REPO=d + '/repo', VERIF_SEED='1', VERIF_TIER=tier)
    return sh(f'{PY} -W ignore run.py {prop} --tier {tier}', cwd='/verif', env=env)


def verify(sid, check=True):
    meta = json.load(open(f'{SEEDED}/{sid}/meta.json'))
    d = scratch()
    try:
        a, o = demo(d, sid)
        if a != 0:
            return f'{sid}: DEMO FAILS ON CLEAN TREE {o[-600:]}'
        rc, o = sh(f'git apply {SEEDED}/{sid}/patch.diff', cwd=d + '/repo')
        if rc:
            return f'{sid}: PATCH DOES NOT APPLY {o}'
        t0 = sh('bash /opt/vp/test.sh /tmp/seedtest.json') if False else None
        o = tests_pass(d)
        if 'failed' in o or 'error' in o.lower() or 'passed' not in o:
            return f'{sid}: TESTS: {o}'
        b, o = demo(d, sid)
        if b == 0:
            return f'{sid}: DEMO PASSES WITH THE BUG'
        r = f'{sid}: valid'
        if check:
            rc, o = run_check(d, meta['property'])
            hit = f"VIOLATION property={meta['property']}" in o
            r += f" {'CAUGHT' if rc == 1 and hit else 'MISSED rc=%d' % rc}"
            if not (rc == 1 and hit):
                r += ' ' + o[-700:]
            else:
                r += ' ' + [l for l in o.splitlines() if 'VIOLATION' in l][0][:200]
        return r
    finally:
        shutil.rmtree(d)


def plant(sid, prop, file, reps, needs, breaks, democode, check=True):
    d = scratch()
    try:
        p = f'{d}/repo/{file}'
        s = open(p).read()
        for a, b in reps:
            assert s.count(a) == 1, (s.count(a), a)
            s = s.replace(a, b)
        open(p, 'w').write(s)
        _, diff = sh('git diff', cwd=d + '/repo')
        # every removed line must be an original one
        rc, o = sh('git diff -U0', cwd=d + '/repo')
        removed = [l[1:] for l in o.splitlines() if l.startswith('-') and not l.startswith('---')]
        _, base = sh(f'git show {BASE}:{file}', cwd=d + '/repo')
        bl = set(base.splitlines())
        bad = [l for l in removed if l not in bl]
        if bad:
            print(f'{sid}: WARNING touches added lines {bad}')
        if not removed:
            print(f'{sid}: WARNING only adds lines')
    finally:
        shutil.rmtree(d)
    sd = f'{SEEDED}/{sid}'
    os.makedirs(sd, exist_ok=True)
    open(f'{sd}/patch.diff', 'w').write(diff)
    open(f'{sd}/demo.py', 'w').write(democode)
    open(f'{sd}/demo.sh', 'w').write('#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(f'{sd}/meta.json', 'w'), indent=1)
    r = verify(sid, check)
    print(r, flush=True)
    return r


if __name__ == '__main__':
    from concurrent.futures import ThreadPoolExecutor
    ids = sys.argv[1:] or sorted(os.listdir(SEEDED))
    with ThreadPoolExecutor(1) as ex:
        for r in ex.map(verify, ids):
            print(r[:300], flush=True)
