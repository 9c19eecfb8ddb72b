"""C03 - data-layout operators: output shape is the ONNX one for every shape / index argument."""
import numpy as np
from symex.runner import Ob
from .lib import *

I64 = np.int64
BIG = 2 ** 63 - 1


def ten(E, name, vals, dt=I64):
    return E.t(name, value=E.array(list(vals), dt), dtype=None)


def run(E, op, attrs, ins, nout=1):
    outs = [E.t(f'o{i}', []) for i in range(nout)]
    n = E.mknode(op, attrs, len(ins), nout)
    n.shape_infer(ins, outs)
    return outs


def finish(E, op, outs, wants, dt):
    check_shapes(E, outs, wants, op)
    for o in outs:
        E.check(dtype_is(o, dt), f'{op}: element type')


# ------------------------------------------------------------------ Reshape
def h_reshape(E, pattern, r, hi):
    x = dims(E, 'x', r, 1, hi)
    tgt, want = pattern(E, x)
    outs = run(E, 'Reshape', {}, [E.t('x', x, np.float16), ten(E, 's', tgt)])
    finish(E, 'Reshape', outs, [want], np.float16)


def h_reshape_bad(E, r, q, hi):
    """a target with another number of elements is refused"""
    x = dims(E, 'x', r, 1, hi)
    t = dims(E, 't', q, 1, hi)
    X = E.t('x', x, np.float32)
    out = E.t('o0', [])
    res = E.call(E.mknode('Reshape', {}, 2, 1).shape_infer, [X, ten(E, 's', t)], [out])
    same = prod(x) == prod(t)
    E.observe('ok', res.ok)
    if res.ok:
        E.check(same, 'Reshape: accepts a target with a different element count')
        check_shapes(E, [out], [t], 'Reshape')
    else:
        E.check(E.no(same), 'Reshape: refuses a valid target')


def h_reshape_any(E, r, q, hi, dt):
    """any target over any input, empty ones and scalars included: the specified shape, or refused"""
    x = dims(E, 'x', r, 0, hi)
    t = E.ints('t', q, -2, 2 * hi)
    allow = E.choice('allowzero', [None, 0, 1])
    out = E.t('o0', [])
    res = E.call(E.mknode('Reshape', {} if allow is None else {'allowzero': allow}, 2, 1).shape_infer, [E.t('x', x, dt), E.t('s', value=E.array(t, I64) if t else E.array(np.zeros(0, I64), I64))], [out])
    raw, ok, want, known, free = prod(x), True, [], 1, []
    for i, d in enumerate(t):
        if d == -1:
            free.append(i)
            want.append(None)
            continue
        if d < 0:
            ok = False
        if d == 0 and not allow:
            if i >= r:
                ok = False
            else:
                d = x[i]
        want.append(d)
        known = known * d
    if not ok or len(free) > 1:
        E.check(not res.ok, 'Reshape: accepts an impossible target')
        return
    if free:
        if known == 0 or not raw % known == 0:
            E.check(not res.ok, 'Reshape: accepts a target it cannot infer')
            return
        want[free[0]] = raw // known
    elif not raw == known:
        E.check(not res.ok, 'Reshape: accepts a target with a different element count')
        return
    E.check(res.ok, 'Reshape: refuses a valid target')
    if res.ok:
        finish(E, 'Reshape', [out], [want], dt)


RESHAPES = {
    'keep': (2, lambda E, x: ([0, 0], x)),
    'keep3': (3, lambda E, x: ([0, 0, 0], x)),
    'flat': (3, lambda E, x: ([-1], [prod(x)])),
    'flat2': (3, lambda E, x: ([0, -1], [x[0], x[1] * x[2]])),
    'tail': (3, lambda E, x: ([-1, x[2]], [x[0] * x[1], x[2]])),
    'head': (3, lambda E, x: ([x[0], -1], [x[0], x[1] * x[2]])),
    'mid': (4, lambda E, x: ([0, -1, x[3]], [x[0], x[1] * x[2], x[3]])),
    'merge': (3, lambda E, x: ([x[0] * x[1], x[2]], [x[0] * x[1], x[2]])),
    'swap': (2, lambda E, x: ([x[1], x[0]], [x[1], x[0]])),
    'ones': (2, lambda E, x: ([1, x[0], 1, x[1]], [1, x[0], 1, x[1]])),
    'infer1': (2, lambda E, x: ([x[0], x[1], -1], [x[0], x[1], 1])),
    'zero-infer': (3, lambda E, x: ([-1, 0], [x[0] * x[2], x[1]])),
    'split2': (2, lambda E, x: ([x[0], 2, -1], [x[0], 2, x[1] // 2])),
}


def h_reshape_named(E, which, hi):
    r, f = RESHAPES[which]
    x = dims(E, 'x', r, 1, hi)
    if which == 'split2':
        E.assume(x[1] % 2 == 0)
    if which == 'split2':
        E.assume(x[1] >= 2)
    tgt, want = f(E, x)
    outs = run(E, 'Reshape', {}, [E.t('x', x, np.float16), ten(E, 's', tgt)])
    finish(E, 'Reshape', outs, [want], np.float16)


# ------------------------------------------------------------------ Transpose / Flatten / Squeeze / Unsqueeze
def h_transpose(E, r, default):
    x = dims(E, 'x', r, 0, MAXD)
    if default:
        outs = run(E, 'Transpose', {}, [E.t('x', x, np.float16)])
        want = x[::-1]
    else:
        perm = [E.int(f'p{i}', 0, r - 1) for i in range(r)]
        for i in range(r):
            for j in range(i):
                E.assume(perm[i] != perm[j])
        outs = run(E, 'Transpose', {'perm': perm}, [E.t('x', x, np.float16)])
        want = []
        for p in perm:
            w = x[0]
            for k in range(1, r):
                w = E.ite(p == k, x[k], w)
            want.append(w)
    finish(E, 'Transpose', outs, [want], np.float16)


def h_flatten(E, r, axis):
    x = dims(E, 'x', r, 0, 8)
    attrs = {} if axis is None else {'axis': axis}
    outs = run(E, 'Flatten', attrs, [E.t('x', x, np.float16)])
    a = 1 if axis is None else (axis + r if axis < 0 else axis)
    finish(E, 'Flatten', outs, [[prod(x[:a]), prod(x[a:])]], np.float16)


def pick_axes(E, name, n, r, neg=True):
    """n distinct axes of a rank-r tensor, in any order, possibly negative; returns (raw, concrete positives)"""
    raw, pos = [], []
    for i in range(n):
        a = E.choice(f'{name}{i}', range(-r if neg else 0, r))
        p = a + r if a < 0 else a
        E.assume(p not in pos)
        raw.append(a)
        pos.append(p)
    return raw, pos


def h_squeeze(E, r, n, how):
    x = dims(E, 'x', r, 0, 50)
    ins = [E.t('x', None, np.float16)] if False else []
    attrs = {}
    if n is None:                      # every axis of extent 1 disappears
        X = E.t('x', x, np.float16)
        outs = run(E, 'Squeeze', {}, [X])
        want = [d for d in x if not (d == 1)]
    else:
        raw, pos = pick_axes(E, 'a', n, r)
        x = [1 if i in pos else d for i, d in enumerate(x)]
        ins = [E.t('x', x, np.float16)]
        if how == 'attr':
            attrs['axes'] = tuple(raw)
        else:
            ins.append(ten(E, 'ax', raw))
        outs = run(E, 'Squeeze', attrs, ins)
        want = [d for i, d in enumerate(x) if i not in pos]
    finish(E, 'Squeeze', outs, [want], np.float16)


def h_unsqueeze(E, r, n, how):
    x = dims(E, 'x', r, 0, MAXD)
    raw, pos = pick_axes(E, 'a', n, r + n)
    ins = [E.t('x', x, np.float16)]
    attrs = {}
    if how == 'attr':
        attrs['axes'] = tuple(raw)
    else:
        ins.append(ten(E, 'ax', raw))
    outs = run(E, 'Unsqueeze', attrs, ins)
    it = iter(x)
    want = [1 if i in pos else next(it) for i in range(r + n)]
    finish(E, 'Unsqueeze', outs, [want], np.float16)


# ------------------------------------------------------------------ Concat / Split
def h_concat(E, r, n):
    x = dims(E, 'x', r, 0, MAXD)
    axis = E.choice('axis', range(-r, r))
    a = axis + r if axis < 0 else axis
    ins, tot = [], 0
    for i in range(n):
        d = E.int(f'c{i}', 0, MAXD)
        s = list(x)
        s[a] = d
        tot = tot + d
        ins.append(E.t(f'i{i}', s, np.int8))
    outs = run(E, 'Concat', {'axis': axis}, ins)
    want = list(x)
    want[a] = tot
    finish(E, 'Concat', outs, [want], np.int8)
    for i, t in enumerate(ins):
        w = list(x)
        w[a] = t.get_shape()[a]
        E.check(E.same(t.get_shape(), w), 'Concat: an input tensor changed shape')


def h_split(E, r, n, how):
    x = dims(E, 'x', r, 1, 1000)
    axis = E.choice('axis', ([None] if how != 'input' else []) + list(range(-r, r)))
    a = 0 if axis is None else (axis + r if axis < 0 else axis)
    attrs = {} if axis is None else {'axis': axis}
    ins = [E.t('x', x, np.float16)]
    if how == 'even':
        sz = E.int('sz', 1, 100)
        E.assume(x[a] == sz * n)
        sizes = [sz] * n
    elif how == 'uneven':
        c = (x[a] + n - 1) // n
        E.assume(c * (n - 1) <= x[a])
        sizes = [c] * (n - 1) + [x[a] - c * (n - 1)]
    else:
        sizes = E.ints('sz', n, 1, 1000)
        E.assume(prod([1]) and sum_(sizes) == x[a])
        if how == 'attr':
            attrs['split'] = list(sizes)
        else:
            ins.append(ten(E, 'sp', sizes))
    outs = run(E, 'Split', attrs, ins, n)
    wants = []
    for s in sizes:
        w = list(x)
        w[a] = s
        wants.append(w)
    finish(E, 'Split', outs, wants, np.float16)


def sum_(xs):
    r = 0
    for x in xs:
        r = r + x
    return r


# ------------------------------------------------------------------ Slice
def slice_extent(E, d, s, e, st):
    """number of elements selected (ONNX Slice); st is a non-zero concrete step"""
    s = E.ite(s < 0, s + d, s)
    e = E.ite(e < 0, e + d, e)
    if st > 0:
        s = E.min(E.max(s, 0), d)
        e = E.min(E.max(e, 0), d)
        span = e - s
    else:
        s = E.min(E.max(s, 0), d - 1)
        e = E.min(E.max(e, -1), d - 1)
        span = s - e
    k = abs(st)
    return E.ite(span > 0, (span + k - 1) // k, 0)


def h_slice(E, r, naxes, how, hi, steps):
    x = dims(E, 'x', r, 0, hi)
    if how in ('1noaxes', '3'):
        axes, pos = list(range(naxes)), list(range(naxes))
    else:
        axes, pos = pick_axes(E, 'a', naxes, r)
    st = [E.choice(f'st{i}', steps) if how == '5' else 1 for i in range(naxes)]
    S, En = [], []
    want = list(x)
    for i, p in enumerate(pos):
        s = E.int(f's{i}', -hi - 2, hi + 2)
        e = E.int(f'e{i}', -hi - 2, hi + 2)
        inf = E.choice(f'inf{i}', [0, 1] if r * naxes < 4 or how in ('1', '4') and r < 3 else [0])
        if inf:
            e = BIG if st[i] > 0 else -BIG
        if st[i] < 0:
            E.assume(s >= -x[p])
        S.append(s)
        En.append(e)
        want[p] = slice_extent(E, x[p], s, e, st[i])
    X = E.t('x', x, np.float16)
    attrs = {}
    if how.startswith('1'):
        attrs = {'starts': S, 'ends': En}
        if how == '1':
            attrs['axes'] = tuple(axes)
        ins = [X]
    else:
        ins = [X, ten(E, 's', S), ten(E, 'e', En)]
        if how in ('4', '5'):
            ins.append(ten(E, 'a', axes))
        if how == '5':
            ins.append(ten(E, 'st', st))
    outs = run(E, 'Slice', attrs, ins)
    finish(E, 'Slice', outs, [want], np.float16)


# ------------------------------------------------------------------ Gather family
def h_gather(E, r, q, axis):
    x = dims(E, 'x', r, 0, MAXD)
    idx = dims(E, 'i', q, 0, MAXD)
    attrs = {} if axis is None else {'axis': axis}
    a = 0 if axis is None else axis % r
    outs = run(E, 'Gather', attrs, [E.t('x', x, np.float16), E.t('i', idx, I64)])
    finish(E, 'Gather', outs, [x[:a] + idx + x[a + 1:]], np.float16)


def h_gathernd(E, r, q, k, b):
    x = dims(E, 'x', r, 0, MAXD)
    idx = dims(E, 'i', q - 1, 0, MAXD)
    for j in range(b):
        idx[j] = x[j]
    attrs = {'batch_dims': b} if b or E.choice('given', [0, 1]) else {}
    outs = run(E, 'GatherND', attrs, [E.t('x', x, np.float16), E.t('i', idx + [k], I64)])
    finish(E, 'GatherND', outs, [idx + x[b + k:]], np.float16)


def h_like(E, op, r, which, nin):
    """operators whose output has the shape of input number `which`"""
    shapes = [dims(E, 'abc'[i], r, 0, MAXD) for i in range(nin)]
    dts = [np.float16, I64, np.float16]
    ins = [E.t(f'i{i}', s, dts[i]) for i, s in enumerate(shapes)]
    outs = run(E, op, {'axis': 0}, ins)
    finish(E, op, outs, [shapes[which]], np.float16)


def h_features(E, r, q):
    x = dims(E, 'x', r, 0, MAXD)
    idx = dims(E, 'i', q, 1, 50)
    n = 1
    for d in idx:
        n = n * d
    outs = run(E, 'ArrayFeatureExtractor', {}, [E.t('x', x, np.float16), E.t('i', idx, I64)])
    finish(E, 'ArrayFeatureExtractor', outs, [(x[:-1] or [1]) + [n]], np.float16)


# ------------------------------------------------------------------ Expand / Tile / Pad / ConstantOfShape / Cast
def h_expand(E, r, q):
    x = dims(E, 'x', r, 0, MAXD)
    t = dims(E, 't', q, 0, MAXD)
    out = E.t('o0', [])
    res = E.call(E.mknode('Expand', {}, 2, 1).shape_infer, [E.t('x', x, np.float16), ten(E, 's', t)], [out])
    ok, want = broadcast_spec(E, [x, t])
    E.observe('ok', res.ok)
    if res.ok:
        E.check(ok, 'Expand: accepts a shape the input does not broadcast with')
        finish(E, 'Expand', [out], [want], np.float16)
    else:
        E.check(E.no(ok), 'Expand: refuses a valid target shape')


def h_tile(E, r):
    x = dims(E, 'x', r, 0, 30)
    t = dims(E, 't', r, 0, 8)
    outs = run(E, 'Tile', {}, [E.t('x', x, np.float16), ten(E, 'r', t)])
    finish(E, 'Tile', outs, [[a * b for a, b in zip(x, t)]], np.float16)


def h_pad(E, r, how):
    x = dims(E, 'x', r, 0, MAXD)
    p = E.ints('p', 2 * r, -3, 500)
    want = [x[i] + p[i] + p[i + r] for i in range(r)]
    for w in want:
        E.assume(w >= 0)
    ins = [E.t('x', x, np.float16)]
    attrs = {'mode': b'constant'}
    if how == 'attr':
        attrs['pads'] = p
    else:
        ins.append(ten(E, 'p', p))
        if how == 'input+value':
            ins.append(ten(E, 'v', [0.0], np.float16))
    outs = run(E, 'Pad', attrs, ins)
    finish(E, 'Pad', outs, [want], np.float16)


def h_cos(E, r, dt):
    x = dims(E, 'x', r, 0, MAXD)
    attrs = {} if dt is None else {'value': E.array([3], dt)}
    outs = run(E, 'ConstantOfShape', attrs, [ten(E, 's', x)])
    finish(E, 'ConstantOfShape', outs, [x], np.float32 if dt is None else dt)


def h_shape(E, r):
    x = dims(E, 'x', r, 0, MAXD)
    out = E.t('o0', [])
    E.mknode('Shape').shape_infer([E.t('x', x, np.float16)], [out])
    check_shapes(E, [out], [[r]], 'Shape')
    E.check(E.same(E.elems(out.get_numpy()), x), 'Shape: contents are the extents of the input')
    E.check(dtype_is(out, I64), 'Shape: element type')


CASTS = [(1, np.float32), (11, np.float64), (10, np.float16), (6, np.int32), (7, np.int64), (3, np.int8), (2, np.uint8), (9, np.bool_),
         (5, np.int16), (4, np.uint16)]


def h_cast(E, r):
    x = dims(E, 'x', r, 0, MAXD)
    to, dt = E.choice('to', CASTS)
    outs = run(E, 'Cast', {'to': to}, [E.t('x', x, np.float16)])
    finish(E, 'Cast', outs, [x], dt)


def obligations(tier):
    th = tier == 'thorough'
    obs = []
    hi = 30 if th else 12
    for k in RESHAPES:
        obs.append(Ob(f'Reshape-{k}', h_reshape_named, dict(which=k, hi=min(hi, 12)), poly=True, weight=3))
    for r, q in [(1, 1), (2, 1), (1, 2), (2, 2)] + ([(3, 2), (2, 3)] if th else []):
        obs.append(Ob(f'Reshape-check{r}{q}', h_reshape_bad, dict(r=r, q=q, hi=12 if r + q < 5 else 6), poly=True, weight=4))
    for r, q in [(0, 0), (0, 1), (0, 2), (1, 0), (1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3)] + ([(3, 3)] if th else []):
        obs.append(Ob(f'Reshape-any{r}{q}', h_reshape_any, dict(r=r, q=q, hi=8 if r + q < 4 else 4 if r + q < 5 else 3, dt=np.float16), poly=True, weight=5))
    for r in range(1, 6 if th else 5):
        obs.append(Ob(f'Transpose{r}-default', h_transpose, dict(r=r, default=True)))
        if r <= 4:
            obs.append(Ob(f'Transpose{r}', h_transpose, dict(r=r, default=False), weight=r * 2))
    for r in (1, 2, 3, 4):
        for ax in [None] + list(range(-r, r + 1)):
            obs.append(Ob(f'Flatten{r}[{ax}]', h_flatten, dict(r=r, axis=ax), poly=True))
    for r in (1, 2, 3, 4):
        obs.append(Ob(f'Squeeze{r}-all', h_squeeze, dict(r=r, n=None, how='attr')))
        for n in (1, 2):
            for how in ('attr', 'input'):
                if n <= r:
                    obs.append(Ob(f'Squeeze{r}-{n}-{how}', h_squeeze, dict(r=r, n=n, how=how), weight=2))
    for r in (0, 1, 2, 3):
        for n in (1, 2) + ((3,) if th else ()):
            for how in ('attr', 'input'):
                obs.append(Ob(f'Unsqueeze{r}-{n}-{how}', h_unsqueeze, dict(r=r, n=n, how=how), weight=2 + n))
    for r in (1, 2, 3, 4):
        for n in (1, 2, 3) + ((4, 5) if th else ()):
            obs.append(Ob(f'Concat{r}x{n}', h_concat, dict(r=r, n=n)))
    for r in (1, 2, 3):
        for n in (1, 2, 3) + ((4,) if th else ()):
            for how in ('even', 'uneven', 'attr', 'input'):
                obs.append(Ob(f'Split{r}-{n}-{how}', h_split, dict(r=r, n=n, how=how)))
    steps = [1, 2, 3, -1, -2] + ([5, -3] if th else [])
    for how in ('1', '1noaxes', '3', '4', '5'):
        for r, n in [(1, 1), (2, 1), (2, 2), (3, 2)] + ([(4, 3), (3, 3)] if th else []):
            if r >= 3 and how == '5' and not th:
                n = 1
            obs.append(Ob(f'Slice{how}-{r}-{n}', h_slice, dict(r=r, naxes=n, how=how, hi=MAXD if r < 3 or th else 1000,
                                                               steps=steps if r * n < 4 else [1, 2, -1] if th else [2, -1]), weight=4 * r * n))
    for r in (1, 2, 3, 4):
        for q in (0, 1, 2, 3):
            for ax in [None] + list(range(-r, r)):
                obs.append(Ob(f'Gather{r}-{q}[{ax}]', h_gather, dict(r=r, q=q, axis=ax), weight=0.5))
    for r, q, k, b in [(1, 1, 1, 0), (2, 2, 2, 0), (2, 2, 1, 0), (3, 2, 2, 0), (3, 3, 1, 0), (2, 2, 1, 1), (3, 3, 1, 2), (3, 3, 2, 1), (3, 2, 1, 1)]:
        obs.append(Ob(f'GatherND{r}{q}{k}{b}', h_gathernd, dict(r=r, q=q, k=k, b=b)))
    for r, q in ((1, 1), (2, 1), (3, 1), (2, 2)):
        obs.append(Ob(f'ArrayFeatureExtractor{r}{q}', h_features, dict(r=r, q=q), poly=True))
    for r in (1, 2, 4):
        obs.append(Ob(f'GatherElements{r}', h_like, dict(op='GatherElements', r=r, which=1, nin=2)))
        obs.append(Ob(f'ScatterElements{r}', h_like, dict(op='ScatterElements', r=r, which=0, nin=3)))
        obs.append(Ob(f'ScatterND{r}', h_like, dict(op='ScatterND', r=r, which=0, nin=3)))
        obs.append(Ob(f'Trilu{r}', h_like, dict(op='Trilu', r=r, which=0, nin=1)))
    for r, q in [(0, 1), (1, 0), (1, 1), (2, 1), (1, 2), (2, 2), (1, 3), (3, 3)] + ([(4, 2), (2, 4), (4, 4)] if th else []):
        obs.append(Ob(f'Expand{r}{q}', h_expand, dict(r=r, q=q), weight=r + q))
    for r in (1, 2, 3):
        obs.append(Ob(f'Tile{r}', h_tile, dict(r=r), poly=True))
        obs.append(Ob(f'ConstantOfShape{r}', h_cos, dict(r=r, dt=None)))
        obs.append(Ob(f'ConstantOfShape{r}i', h_cos, dict(r=r, dt=np.int64)))
    for r in (1, 2, 4):
        for how in ('attr', 'input', 'input+value'):
            obs.append(Ob(f'Pad{r}-{how}', h_pad, dict(r=r, how=how)))
    for r in (0, 1, 4):
        obs.append(Ob(f'Shape{r}', h_shape, dict(r=r)))
        obs.append(Ob(f'Cast{r}', h_cast, dict(r=r)))
    return obs


BOUNDS = {'all': 'ranks 0-4; extents 0..100000 (GatherND data as well; 0..8 where the claim multiplies extents: Flatten; 0..30 for Tile; Reshape 1..12 by pattern and any target -2..16 over any input of ranks 0-3 with extents 0..8, allowzero too); slice bounds any '
                 'integers in [-extent-2, extent+2] plus the +-2^63 sentinels, steps in {1,2,3,-1,-2}; axes any order and sign; up to 3 (thorough 5) '
                 'concatenated inputs, 3 (thorough 4) split outputs; pads -3..500'}
OUTSIDE = ('negative-step slices whose start lies before the first element; the last chunk of an uneven '
           'split being negative; the axes input of Pad')
ASSUMPTIONS = ['shadow numpy reshape/transpose/tile/concatenate of shape-only arrays follow numpy (every path is replayed on the real package)']
