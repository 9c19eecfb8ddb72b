"""C11 - compress_memory: an activation memory plan in which live tensors never overlap."""
import itertools
import numpy as np
from symex.runner import Ob
from .lib import *
from .glib import *

f32, f16, i8, f64 = np.float32, np.float16, np.int8, np.float64

# name: (graph inputs, nodes (inputs -> outputs), graph outputs)
TOPO = {
    'single': (['x'], [('x', 'y')], ['y']),
    'chain3': (['x'], [('x', 'a'), ('a', 'b'), ('b', 'y')], ['y']),
    'chain5': (['x'], [('x', 'a'), ('a', 'b'), ('b', 'c'), ('c', 'd'), ('d', 'y')], ['y']),
    'diamond': (['x'], [('x', 'a'), ('a', 'b'), ('a', 'c'), ('b c', 'y')], ['y']),
    'residual': (['x'], [('x', 'a'), ('a', 'b'), ('b x', 'c'), ('c', 'd'), ('d c', 'y')], ['y']),
    'longskip': (['x'], [('x', 'a'), ('a', 'b'), ('b', 'c'), ('c', 'd'), ('d a', 'y')], ['y']),
    'split': (['x'], [('x', 'a b'), ('a', 'c'), ('b', 'd'), ('c d', 'y')], ['y']),
    'split3': (['x'], [('x', 'a b c'), ('b', 'd'), ('a d', 'e'), ('c e', 'y')], ['y']),
    'merge': (['x'], [('x', 'a'), ('a', 'b'), ('b', 'c'), ('b', 'd'), ('c d', 'e'), ('e', 'f'), ('f', 'y')], ['y']),
    'twoinputs': (['x', 'z'], [('x', 'a'), ('a', 'b'), ('b z', 'y')], ['y']),
    'square': (['x'], [('x', 'a'), ('a a', 'b'), ('b', 'c'), ('c', 'y')], ['y']),
    'inner-output': (['x'], [('x', 'a'), ('a', 'b'), ('b', 'c'), ('c', 'd')], ['a', 'd']),
    'inner-output2': (['x'], [('x', 'a'), ('a', 'b'), ('a b', 'c'), ('c', 'd'), ('d', 'e')], ['b', 'e']),
    'twoheads': (['x'], [('x', 'a'), ('a', 'y'), ('a', 'b'), ('b', 'z')], ['y', 'z']),
    'unused': (['x'], [('x', 'a u'), ('a', 'b'), ('b', 'y')], ['y']),
    'optional': (['x'], [('x', ' a'), ('a', 'b'), ('b', 'y')], ['y']),
    'weights': (['x'], [('x w', 'a'), ('a w', 'b'), ('b', 'y')], ['y']),
}


def names(s):
    return s.split(' ')


def plan(E, topo, size_of, dts, pad, label):
    """size_of(name) -> number of elements"""
    ins, nodes, outs = topo
    tens = {}
    for i in ins:
        tens[i] = None
    for _, o in nodes:
        for n in names(o):
            if n:
                tens[n] = None
    dt = {}
    for j, n in enumerate(tens):
        tens[n] = size_of(n)
        dt[n] = dts[j % len(dts)]
    ns = [out('Custom', f'n{k}', names(i), names(o)) for k, (i, o) in enumerate(nodes)]
    g = mkgraph(E, ns, [(i, [tens[i]], dt[i]) for i in ins], [(o, [tens[o]], dt[o]) for o in outs],
                [('w', E.array(np.zeros(4, f32), f32))] if any('w' in names(i) for i, _ in nodes) else [],
                [(t, [tens[t]], dt[t]) for t in tens if t not in ins and t not in outs])
    r = E.call(g.compress_memory, *([] if pad is None else [pad]))
    if not r.ok:
        E.fail(f'{label}: compress_memory raises {type(r.exc).__name__}: {str(r.exc)[:60]}')
    mem, total = r.val
    P = 64 if pad is None else pad
    # life time: from the producing node to the last consumer; graph inputs from the start, graph outputs to the end
    birth, death = {i: 0 for i in ins}, {}
    for k, (i, o) in enumerate(nodes):
        for t in names(o):
            birth[t] = k
            death.setdefault(t, k)
        for t in names(i):
            death[t] = k
    for o in outs:
        death[o] = len(nodes)
    need, padsum = {}, 0
    for t, n in tens.items():
        b = n * np.dtype(dt[t]).itemsize
        need[t] = b
        padsum = padsum + (b + P - 1) // P * P
    E.check(set(mem) - {''} == set(tens), f'{label}: every activation has a block (weights have none)')
    for t in tens:
        if t in mem:
            E.observe(t, list(mem[t]))
    E.observe('total', total)
    for t in tens:
        if t not in mem:
            continue
        off, size = mem[t]
        E.check(off >= 0, f'{label}: offset of {t}')
        E.check(off % P == 0, f'{label}: alignment of {t}')
        E.check(size >= need[t], f'{label}: block of {t} holds the tensor')
        E.check(off + size <= total, f'{label}: block of {t} lies in the pool')
    for a, b in itertools.combinations([t for t in tens if t in mem], 2):
        if birth[a] <= death.get(b, -1) and birth[b] <= death.get(a, -1):
            (oa, sa), (ob, sb) = mem[a], mem[b]
            E.check(E.any(oa + sa <= ob, ob + sb <= oa), f'{label}: {a} and {b} are live together and do not overlap')
    E.check(total <= padsum, f'{label}: the pool is no larger than the tensors without reuse')


def h_topo(E, topo, dts, pad, hi, fixed=''):
    plan(E, TOPO[topo], lambda n: 16 if n in fixed else E.int('s_' + n, 1, hi), [DT_[d] for d in dts], pad, topo)


DT_ = {'f32': f32, 'f16': f16, 'i8': i8, 'f64': f64}


def h_any(E, n, two, hi):
    """every wiring of n nodes (each reads one or two earlier tensors), every choice of one extra graph output"""
    have, nodes = ['x'], []
    for k in range(n):
        i = [E.choice(f'i{k}', have)]
        if two:
            j = E.choice(f'j{k}', [None] + have)
            if j:
                i.append(j)
        o = f't{k}'
        nodes.append((' '.join(i), o))
        have.append(o)
    used = {t for i, _ in nodes for t in names(i)}
    outs = [t for t in have[1:] if t not in used]
    x = E.choice('extra', [None] + have[1:-1])
    if x and x not in outs:
        outs.append(x)
    if 'x' not in used:
        return
    plan(E, (['x'], nodes, outs), lambda t: E.int('s_' + t, 1, hi), [f32], None, 'any wiring')


def obligations(tier):
    th = tier == 'thorough'
    obs = []
    big = 1 << 20
    for t in TOPO:
        w = len(TOPO[t][1]) ** 2
        for tag, dts, pad in (('f32', ['f32'], None), ('mixed', ['f32', 'i8', 'f16'], None), ('pad1', ['f32'], 1), ('pad4096', ['f32'], 4096)):
            if t == 'split3':
                obs.append(Ob(f'{t}-{tag}-part', h_topo, dict(topo=t, dts=dts, pad=pad, hi=big, fixed='xcy'), weight=w))
            if t == 'merge':
                obs.append(Ob(f'{t}-{tag}-part', h_topo, dict(topo=t, dts=dts, pad=pad, hi=big, fixed='xbdy'), weight=w))
            if th or t not in ('split3', 'merge'):
                obs.append(Ob(f'{t}-{tag}', h_topo, dict(topo=t, dts=dts, pad=pad, hi=big), weight=w))
    obs.append(Ob('any-2', h_any, dict(n=2, two=True, hi=big), weight=5))
    obs.append(Ob('any-3', h_any, dict(n=3, two=True, hi=big), weight=60))
    if th:
        obs.append(Ob('any-4', h_any, dict(n=4, two=False, hi=big), weight=90))
        obs.append(Ob('any-4-two', h_any, dict(n=4, two=True, hi=4096), weight=200))
    return obs


BOUNDS = {'all': 'graphs of 1-7 nodes: 17 named wirings (chains, skips, splits, fan-out, outputs consumed inside the graph, unused and optional outputs, '
                 'weights), every wiring of 2 and 3 nodes with one or two operands (4 thorough) and one extra output; every tensor size 1..2^20 elements '
                 '(in the two largest wirings four sizes are free in the quick tier, all in the thorough one); padding 1, 64, 4096; f32/f16/i8'}
OUTSIDE = 'larger graphs; rank-0 tensors (no block is planned for them)'
ASSUMPTIONS = ['one-dimensional tensors stand for tensors of that many elements']
