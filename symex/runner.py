"""Runs the obligations of one property: symbolic exploration in worker processes,
concrete replay of every path and every counterexample on the real package."""
import importlib
import io
import json
import multiprocessing as mp
import os
import random
import re
import zlib
import resource
import signal
import sys
import time
import traceback
import warnings
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


class Ob:
    """One obligation: a harness with a configuration and its bounds."""

    def __init__(self, name, fn, cfg=None, max_paths=100000, poly=False, weight=1.0, replay=True, hang=None, obs=True,
                 shadow=None, check_ms=20000, branch_ms=4000, known=(), floor=0):
        self.name, self.fn, self.cfg = name, fn, cfg or {}
        self.max_paths, self.poly, self.weight = max_paths, poly, weight
        self.replay, self.hang, self.obs = replay, hang, obs
        self.shadow = shadow
        self.check_ms, self.branch_ms = check_ms, branch_ms
        self.known = known


class Hang(BaseException):
    pass


def _alarm(sig, frm):
    raise Hang()


_SH = {}


def get_shadow(factory=None):
    from . import shadow
    key = factory
    if key not in _SH:
        s = factory() if factory else shadow.Shadow()
        s.load('onnx_tool')
        _SH[key] = s
    return _SH[key]


def run_concrete(ob, inputs, known_ids, limit=60):
    """-> (failures, observed, env)"""
    from . import env, core
    E = env.ConcEnv(inputs)
    E.known_ids = known_ids
    old = sys.stdout
    sys.stdout = io.StringIO()
    prev = core.ENGINE
    core.ENGINE = None
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        ob.fn(E, **ob.cfg)
    except core.PathAbort:
        pass
    except Hang:
        E.failures.append(f'did not finish within {limit} s')
    except core.Unmodelled:
        E.failures = []             # the stand-in for a missing library has no such operation
    except MemoryError:
        E.failures = []             # too big to run here: says nothing about the code
    except RecursionError as e:
        E.failures.append('unexpected RecursionError')
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        E.failures.append(f'unexpected {type(e).__name__}: {str(e)[:200]} at {tb[-1].filename.rsplit("/", 1)[-1]}:{tb[-1].name}')
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        sys.stdout = old
        core.ENGINE = prev
    return E.failures, E.observed, E


def run_ob(ob, deadline, known_ids):
    from . import core, env, shadow
    t0 = time.time()
    en = core.Engine(max_paths=ob.max_paths, deadline=deadline, poly=ob.poly, check_ms=ob.check_ms, branch_ms=ob.branch_ms)
    sh = get_shadow(ob.shadow)
    rec = shadow.Recorder()
    rec.start()
    res = {'confirmed': [], 'inconclusive': [], 'samples': [], 'incomplete': [], 'exc_paths': 0}
    seen_fail = {}

    def note(s):
        if s not in res['incomplete'] and len(res['incomplete']) < 12:
            res['incomplete'].append(s)

    state = {}
    diverse = [0]
    rng = random.Random(zlib.crc32(ob.name.encode()))

    def harness():
        state['unmod'] = None
        E = env.SymEnv(en, sh)
        E.known_ids = known_ids
        signal.setitimer(signal.ITIMER_REAL, 90)
        try:
            ob.fn(E, **ob.cfg)
        except core.Unmodelled as e:
            en.stats.exhausted = False
            state['unmod'] = str(e)
            note(f'unmodelled: {e}')
        except Hang:
            en.stats.exhausted = False
            note('a symbolic path ran for more than 90 s')
            raise core.PathAbort()
        except Exception as e:
            if os.environ.get('SYMEX_DEBUG'):
                traceback.print_exc()
            tb = traceback.extract_tb(e.__traceback__)
            lab = f'unexpected {type(e).__name__}: {str(e)[:160]} at {tb[-1].filename.rsplit("/", 1)[-1]}:{tb[-1].name}'
            res['exc_paths'] += 1
            m = en.get_model()
            en.path_viol.append((lab, en.extract(m)))
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)

    def confirm(label, inputs):
        fails, obs, E = run_concrete(ob, inputs, known_ids)
        if fails:
            if len(seen_fail) < 6 and label not in seen_fail:
                seen_fail[label] = 1
                res['confirmed'].append({'label': label, 'concrete': fails, 'inputs': env.jsonable(E.used or inputs)})
            return True
        if label not in [i['label'] for i in res['inconclusive']]:
            res['inconclusive'].append({'label': label, 'inputs': env.jsonable(inputs)})
        en.stats.exhausted = False
        return False

    def path_end(en_, ended):
        for lab, inp in en.path_viol:
            confirm(lab, inp)
        if not ended and not en.path_viol:
            return
        if not ended or not ob.replay:
            return
        models = [en.get_model()]
        extra = 1 if diverse[0] < 6 else 0
        if state['unmod'] or en.pinned_here:
            extra = 3 if diverse[0] < 40 else 0
        for _ in range(extra):
            diverse[0] += 1
            m = en.other_model(rng)
            if m is not None:
                models.append(m)
        for m in models:
            if not compare(m):
                return

    def compare(m):
        inputs = en.extract(m)
        so = core.eval_sym([list(o) for o in en.observed], m)
        fails, obs, E = run_concrete(ob, inputs, known_ids)
        if fails:
            lab = fails[0]
            if len(seen_fail) < 6 and lab not in seen_fail:
                seen_fail[lab] = 1
                res['confirmed'].append({'label': lab + ' (found by replaying a solver model)', 'concrete': fails,
                                         'inputs': env.jsonable(inputs)})
            return False
        co = env.norm([list(o) for o in obs])
        so = env.norm(so)
        if ob.obs and not state['unmod']:
            if env.obs_equal(so, co):
                en.stats.validated += 1
            else:
                en.stats.mismatch += 1
                en.stats.exhausted = False
                note(f'encoding/real disagreement at {env.jsonable(inputs)}: {env.jsonable(so)} vs {env.jsonable(co)}'[:600])
                if len(res['samples']) >= 2:
                    return False
        if len(res['samples']) < 2:
            res['samples'].append({'obligation': ob.name, 'inputs': env.jsonable(inputs), 'observed': env.jsonable(co)[:6]})
        return True

    try:
        en.explore(harness, path_end)
    except MemoryError:
        en.stats.exhausted = False
        note('out of memory')
    finally:
        if rec.on:
            sys.monitoring.set_events(rec.TOOL, 0)
            sys.monitoring.free_tool_id(rec.TOOL)
    s = en.stats
    res.update(name=ob.name, paths=s.paths, queries=s.queries, checks=s.checks, discharged=s.discharged,
               solver_s=s.solver_s, unknown=s.unknown, aborted=s.aborted, validated=s.validated, mismatch=s.mismatch,
               pinned=s.pinned, decisions=s.decisions, exhausted=s.exhausted, notes=s.notes, reach=en.reach,
               functions=sorted(rec.seen), wall=time.time() - t0)
    return res


def _worker(ob, deadline, known_ids, conn):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        signal.signal(signal.SIGALRM, _alarm)
        sys.stdout = open(os.devnull, 'w') if not os.environ.get('SYMEX_DEBUG') else sys.stderr
        sys.setrecursionlimit(3000)
        warnings.simplefilter('ignore')
        r = run_ob(ob, deadline, known_ids)
    except BaseException as e:
        r = {'name': ob.name, 'error': f'{type(e).__name__}: {e}', 'trace': traceback.format_exc()[-1500:]}
    try:
        conn.send(r)
        conn.close()
    finally:
        os._exit(0)


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p))['findings']


def setup_real():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)


def load_prop(pid):
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    return importlib.import_module(f'props.{pid.lower()}')


def run_property(pid, tier, only=None, jobs=None, budget=None, verbose=False):
    t0 = time.time()
    setup_real()
    warnings.simplefilter('ignore')
    mod = load_prop(pid)
    known = [k for k in load_known() if k['property'] == pid and k['status'] == 'known']
    known_ids = frozenset(k['id'] for k in known)
    signal.signal(signal.SIGALRM, _alarm)
    obs = mod.obligations(tier)
    if only:
        obs = [o for o in obs if only in o.name]
    if os.environ.get('VERIF_ONLY_LIST'):       # development: tools_mut.py
        names = set(json.load(open(os.environ['VERIF_ONLY_LIST'])))
        obs = [o for o in obs if o.name in names]
        only = 'list'
    first = os.environ.get('VERIF_FIRST')
    # importing the code under test once, before forking
    old = sys.stdout
    sys.stdout = io.StringIO()
    try:
        importlib.import_module('onnx_tool')
        for f in {o.shadow for o in obs}:
            get_shadow(f)
    finally:
        sys.stdout = old
    cap = budget or getattr(mod, 'BUDGET', {}).get(tier, 600 if tier == 'quick' else 780)
    deadline = t0 + cap
    hard = deadline + 45
    jobs = jobs or int(os.environ.get('VERIF_JOBS', '8'))
    pending = sorted(obs, key=lambda o: -o.weight)
    running = []
    results = []
    ctx = mp.get_context('fork')
    while pending or running:
        while pending and len(running) < jobs:
            ob = pending.pop(0)
            now = time.time()
            left = max(1.0, deadline - now)
            # an obligation may not starve the ones behind it
            waves = (len(pending) + len(running) + 1 + jobs - 1) // jobs
            dl = min(deadline, now + max(left * 0.55 if waves > 1 else left, 8.0))
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_worker, args=(ob, dl, known_ids, b), daemon=True)
            p.start()
            b.close()
            running.append((ob, p, a))
        conns = [r[2] for r in running]
        ready = mp.connection.wait(conns, timeout=1.0)
        nxt = []
        for ob, p, a in running:
            if a in ready:
                try:
                    results.append(a.recv())
                except EOFError:
                    results.append({'name': ob.name, 'error': 'worker ended (memory?)'})
                a.close()
                p.join(5)
                if p.is_alive():
                    p.kill()
            elif time.time() > hard:
                p.kill()
                p.join()
                a.close()
                results.append({'name': ob.name, 'error': 'hard time limit'})
            else:
                nxt.append((ob, p, a))
        running = nxt
        if first and any(r.get('confirmed') for r in results):
            for ob, p, a in running:
                p.kill()
            break
    by = {o.name: o for o in obs}
    good = [r for r in results if 'error' not in r]
    conf = [(r['name'], c) for r in good for c in r['confirmed']]
    rdir = os.path.join(VERIF, 'replays')
    os.makedirs(rdir, exist_ok=True)
    lines = []
    for i, (obn, c) in enumerate(conf[:20]):
        path = os.path.join(rdir, f'{pid}-{i}.json')
        json.dump({'property': pid, 'tier': tier, 'obligation': obn, 'label': c['label'], 'inputs': c['inputs'],
                   'observed_failure': c['concrete'],
                   'replay_cmd': f'/opt/venv/bin/python -W ignore {VERIF}/run.py {pid} --replay {path}'},
                  open(path, 'w'), indent=1)
        lines.append(f'VIOLATION property={pid} replay={path}')
        lines.append(f'  [{obn}] {c["label"]} inputs={json.dumps(c["inputs"])[:400]} -> {"; ".join(c["concrete"])[:300]}')
    # known findings: the recorded concrete witness still fails on the real package
    for k in known:
        w = getattr(mod, 'WITNESS', {}).get(k['id'])
        if w is None:
            continue
        name, fn, cfg, inputs = w
        fails, _, _ = run_concrete(Ob(name, fn, cfg), inputs, frozenset())
        if fails:
            print(f'KNOWN-FINDING: property={pid} {k["id"]}: {k["what"]}')
    for ln in lines:
        print(ln)
    S = lambda k: sum(r[k] for r in good)
    errors = [{'obligation': r['name'], 'error': r['error']} for r in results if 'error' in r]
    fns = sorted({f for r in good for f in r['functions']})
    samples = [s for r in good for s in r['samples']][:12] or [{'note': 'no path completed'}]
    inconcl = [dict(obligation=r['name'], **i) for r in good for i in r['inconclusive']]
    vac = [r['name'] for r in good if r['reach'] == 0]
    cov = {
        'states': S('paths') if good else 0,
        'transitions': S('decisions') if good else 0,
        'traces_validated_against_impl': S('validated') if good else 0,
        'samples': samples,
        'exhaustive': all(r['exhausted'] for r in good) and not errors,
        'obligations_total': len(obs),
        'obligations_exhausted_within_bounds': sum(1 for r in good if r['exhausted']),
        'assertions': S('checks') if good else 0,
        'assertions_discharged': S('discharged') if good else 0,
        'solver_queries': S('queries') if good else 0,
        'solver_seconds': round(S('solver_s'), 2) if good else 0,
        'solver_unknown': S('unknown') if good else 0,
        'encoding_mismatches': S('mismatch') if good else 0,
        'pinned_values': S('pinned') if good else 0,
        'functions_encoded': fns,
        'bounds': getattr(mod, 'BOUNDS', {}),
        'outside_the_claim': getattr(mod, 'OUTSIDE', ''),
        'counterexamples_confirmed': len(conf),
        'counterexamples_not_reproduced': inconcl[:10],
        'vacuous_obligations': vac,
        'incomplete': [{'obligation': r['name'], 'why': (r['notes'] + r['incomplete'])[:4]} for r in good if not r['exhausted']][:30],
        'errors': errors,
        'per_obligation': [{'name': r['name'], 'paths': r['paths'], 'checks': r['checks'], 'queries': r['queries'],
                            'validated': r['validated'], 'exhausted': r['exhausted'], 'wall_s': round(r['wall'], 2)} for r in good],
    }
    if os.environ.get('VERIF_FNMAP'):
        json.dump({r['name']: [r['functions'], r['wall']] for r in good}, open(os.path.join(os.environ['VERIF_FNMAP'], pid + '.json'), 'w'))
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'model_checking',
          'coverage': cov, 'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'wall_s': round(time.time() - t0, 2),
          'violations': len(conf)}
    if not only:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', f'{pid}.json'), 'w'), indent=1)
    print(f'{pid} {tier}: obligations={len(obs)} exhausted={cov["obligations_exhausted_within_bounds"]} paths={cov["states"]} '
          f'checks={cov["assertions"]} discharged={cov["assertions_discharged"]} queries={cov["solver_queries"]} '
          f'solver={cov["solver_seconds"]}s validated={cov["traces_validated_against_impl"]} mismatch={cov["encoding_mismatches"]} '
          f'unknown={cov["solver_unknown"]} unreproduced={len(inconcl)} errors={len(errors)} vacuous={len(vac)} '
          f'violations={len(conf)} wall={ev["wall_s"]}s')
    if verbose:
        from collections import Counter
        agg, ex = Counter(), {}
        for obn, c in conf:
            k = (re.split(r'[\d\[]', obn)[0], c['label'][:110])
            agg[k] += 1
            ex.setdefault(k, (obn, c['inputs']))
        for k, v in sorted(agg.items()):
            print(f'   FAIL x{v} {k[0]}: {k[1]}  e.g. {ex[k][0]} {json.dumps(ex[k][1])[:300]}')
        for r in sorted(good, key=lambda r: -r['wall']):
            print(f"   {r['name']:60s} paths={r['paths']:6d} chk={r['checks']:5d} q={r['queries']:6d} val={r['validated']:5d} "
                  f"{'ok' if r['exhausted'] else 'INCOMPLETE'} {r['wall']:.1f}s {(r['notes'] + r['incomplete'])[:3] if not r['exhausted'] else ''}")
        for i in inconcl:
            print('   UNREPRODUCED', i)
        for e in errors:
            print('   ERROR', e)
        for r in results:
            if 'trace' in r:
                print(r['trace'])
        if vac:
            print('   VACUOUS', vac)
    return 1 if conf else 0


def replay(pid, path):
    setup_real()
    signal.signal(signal.SIGALRM, _alarm)
    mod = load_prop(pid)
    d = json.load(open(path))
    for tier in (d['tier'], 'quick', 'thorough'):
        for o in mod.obligations(tier):
            if o.name == d['obligation']:
                inp = {k: (Fraction(v) if isinstance(v, str) and '/' in v else v) for k, v in d['inputs'].items()}
                fails, obs, E = run_concrete(o, inp, frozenset())
                print('inputs:', d['inputs'])
                print('failures:', fails or 'none')
                return 1 if fails else 0
    print('obligation not found')
    return 2


def selftest():
    """the toolchain is there: the real package imports and the solver answers"""
    setup_real()
    import onnx_tool  # noqa: F401
    from . import core
    z = core.z3
    x = z.Int('x')
    s = z.Solver()
    s.add(x > 2, x < 4)
    assert s.check() == z.sat and s.model()[x].as_long() == 3
    print('selftest ok: z3', z.get_version_string())
    return 0
