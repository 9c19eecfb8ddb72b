"""C05 - matrix products, einsum: output shape is the ONNX one, incompatible operands are refused."""
import itertools
import numpy as np
from symex.runner import Ob
from .lib import *
from .c03 import run, finish, ten, I64


def h_matmul(E, op, ra, rb):
    a, b = dims(E, 'a', ra, 1, MAXD), dims(E, 'b', rb, 1, MAXD)
    dt = np.uint8 if op != 'MatMul' else np.float16
    if op == 'QLinearMatMul':
        z = lambda n: E.t(n, [1], np.uint8)
        s = lambda n: E.t(n, [1], np.float32)
        ins = [E.t('A', a, np.uint8), s('as'), z('az'), E.t('B', b, np.int8), s('bs'), z('bz'), s('ys'), E.t('yz', [1], np.int8)]
    else:
        ins = [E.t('A', a, dt), E.t('B', b, dt)]
    out = E.t('o0', [])
    res = E.call(E.mknode(op, {}, len(ins), 1).shape_infer, ins, [out])
    A = a if ra > 1 else [1] + a
    B = b if rb > 1 else b + [1]
    okb, batch = broadcast_spec(E, [A[:-2], B[:-2]]) if ra > 2 or rb > 2 else (True, [])
    ok = E.all(okb, A[-1] == B[-2])
    want = batch + ([A[-2]] if ra > 1 else []) + ([B[-1]] if rb > 1 else [])
    E.observe('ok', res.ok)
    if res.ok:
        E.check(ok, f'{op}: accepts operands that cannot be multiplied')
        finish(E, op, [out], [want], {'MatMul': np.float16, 'MatMulInteger': np.int32, 'QLinearMatMul': np.int8}[op])
    else:
        E.check(E.no(ok), f'{op}: refuses operands that can be multiplied')


def h_gemm(E, ta, tb, bias):
    a, b = dims(E, 'a', 2, 1, MAXD), dims(E, 'b', 2, 1, MAXD)
    attrs = {}
    if ta is not None:
        attrs['transA'] = ta
    if tb is not None:
        attrs['transB'] = tb
    m, k = a[::-1] if ta else a
    k2, n = b[::-1] if tb else b
    ins = [E.t('A', a, np.float16), E.t('B', b, np.float16)]
    if bias:
        ins.append(E.t('C', [n], np.float16))
    out = E.t('o0', [])
    res = E.call(E.mknode('Gemm', attrs, len(ins), 1).shape_infer, ins, [out])
    E.observe('ok', res.ok)
    if res.ok:
        E.check(k == k2, 'Gemm: accepts operands that cannot be multiplied')
        finish(E, 'Gemm', [out], [[m, n]], np.float16)
    else:
        E.check(E.no(k == k2), 'Gemm: refuses operands that can be multiplied')


EQS = ['ij,jk->ik', 'bij,bjk->bik', 'bhid,bhjd->bhij', 'bhij,bhjd->bhid', 'i,j->ij', 'ij->ji', 'ij->', 'ij->j', 'ij,jk', 'kj,ji', 'bhwc,hkc->bhwk',
       'bhwc,wkc->bhwk', 'bn,anm->bam', 'ij,j->i', 'bij,bjk,bkl->bil', 'bic,bjc->bij', 'ij , jk -> ik', 'aK,KB', 'Zb,ba', 'zYxW', 'ij,jk,kl', 'ab,cd', 'ab,ba', 'ii->i', 'iij->j', 'iji,jk->ki', 'ij,ij',
       'iA,Aj->jiA', 'abcdef->fedcba', 'a,b,c,d->dcba', 'i,i->', 'ba , ac']
ELL = ['...ij,...jk->...ik', 'b...d,dk->b...k', '...ij->...ji', '...ij->...', 'ij...->...j', '...d,kd->...k', 'i...j->j...i', 'a...,a...->...', '...i,...i->...',
       '...,...', 'b...a', 'a...,...b', '...k,k...->...', '...a,...b,...c->cb...a', 'zA...,...Az->...']


def h_einsum(E, eq, nell, as_bytes):
    """nell: per input, the number of extents behind the ellipsis"""
    e = eq.replace(' ', '')
    lhs, rhs = e.split('->') if '->' in e else (e, None)
    terms = lhs.split(',')
    size = {c: E.int(f'n_{c}', 1, MAXD) for c in sorted({c for c in lhs if c.isalpha()})}
    if rhs is None:
        rhs = ''.join(sorted(c for c in size if lhs.count(c) == 1))
        if '...' in lhs:
            rhs = '...' + rhs
    m = max(nell) if nell else 0
    ell = [E.int(f'e{i}', 1, MAXD) for i in range(m)]
    cover = [[] for _ in ell]
    ins = []
    for ti, t in enumerate(terms):
        shp = []
        i = 0
        while i < len(t):
            if t[i] == '.':
                k = nell[ti]
                for j in range(m - k, m):   # each operand may broadcast each of its ellipsis extents
                    one = E.bool(f'one{ti}_{j}')
                    cover[j].append(one)
                    shp.append(E.ite(one, 1, ell[j]))
                i += 3
            else:
                shp.append(size[t[i]])
                i += 1
        ins.append(E.t(f'i{ti}', shp, np.float16))
    ell = [E.ite(E.all(*c), 1, x) for c, x in zip(cover, ell)]
    outs = run(E, 'Einsum', {'equation': eq.encode() if as_bytes else eq}, ins)
    want, i = [], 0
    while i < len(rhs):
        if rhs[i] == '.':
            want += ell
            i += 3
        else:
            want.append(size[rhs[i]])
            i += 1
    finish(E, 'Einsum', outs, [want], np.float16)


def h_einsum_free(E, eq, nell):
    """every occurrence of a label has its own extent (0 included): accepted exactly when they are equal or 1, per label and ellipsis position"""
    lhs, rhs = eq.split('->')
    terms = lhs.split(',')
    m = max(nell) if nell else 0
    seen, ins = {}, []
    for ti, t in enumerate(terms):
        shp, i = [], 0
        while i < len(t):
            ks = [t[i]] if t[i] != '.' else list(range(m - nell[ti], m))
            i += 1 if t[i] != '.' else 3
            for k in ks:
                v = E.int(f'd{ti}_{len(shp)}', 0, MAXD)
                shp.append(v)
                seen.setdefault(k, []).append(v)
        ins.append(E.t(f'i{ti}', shp, np.float16))
    ok, size = True, {}
    for k, vs in seen.items():
        n = 1
        for v in vs:
            n = E.ite(v == 1, n, v)
        size[k] = n
        ok = E.all(ok, *[E.any(v == 1, v == n) for v in vs])
    out = E.t('o0', [])
    res = E.call(E.mknode('Einsum', {'equation': eq}, len(ins), 1).shape_infer, ins, [out])
    E.observe('ok', res.ok)
    E.check(E.eq(ok, res.ok), 'Einsum: accepts exactly the operands whose extents match')
    if res.ok:
        want = []
        for c in rhs.replace('...', '.'):
            want += [size[j] for j in range(m)] if c == '.' else [size[c]]
        finish(E, 'Einsum', [out], [want], np.float16)


def h_einsum_rank(E, eq, ranks):
    """operands with more or fewer dimensions than their term are refused"""
    ins = [E.t(f'i{i}', [E.int(f'd{i}_{j}', 1, MAXD) for j in range(r)], np.float16) for i, r in enumerate(ranks)]
    res = E.call(E.mknode('Einsum', {'equation': eq}, len(ins), 1).shape_infer, ins, [E.t('o0', [])])
    E.check(not res.ok, 'Einsum: refuses operands of another rank')


FREE = [('ij,jk->ik', None), ('ij,j->i', None), ('bi,b,b->i', None), ('ii->i', None), ('i,i->', None), ('a,ab,b->ab', None), ('...ij,...jk->...ik', (1, 1)), ('...ij,...jk->...ik', (0, 2)),
        ('...a,...b,...c->cb...a', (1, 1, 1)), ('a...,a...->...', (2, 1)), ('...i,...i->...', (2, 2))]
RANKS = [('ij,jk->ik', (3, 2)), ('ij,jk->ik', (2, 3)), ('ij,jk->ik', (2, 1)), ('ij->ji', (3,)), ('ij->', (1,)), ('i...j->j...i', (1,))]


def obligations(tier):
    th = tier == 'thorough'
    obs = []
    R = [(1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (2, 3), (3, 3), (4, 4), (1, 3), (3, 1), (4, 2)] + ([(4, 3), (3, 4), (2, 4), (5, 5)] if th else [])
    for op in ('MatMul', 'MatMulInteger', 'QLinearMatMul'):
        for ra, rb in R:
            obs.append(Ob(f'{op}({ra},{rb})', h_matmul, dict(op=op, ra=ra, rb=rb), weight=ra + rb))
    for ta in (None, 0, 1):
        for tb in (None, 0, 1):
            for bias in (False, True):
                obs.append(Ob(f'Gemm-{ta}-{tb}-{bias}', h_gemm, dict(ta=ta, tb=tb, bias=bias)))
    for i, eq in enumerate(EQS):
        obs.append(Ob(f'Einsum {eq}', h_einsum, dict(eq=eq, nell=[], as_bytes=i % 2 == 0)))
    for eq, nell in FREE:
        obs.append(Ob(f'Einsum free {eq} {nell or ""}', h_einsum_free, dict(eq=eq, nell=list(nell or ())), weight=3))
    for eq, ranks in RANKS:
        obs.append(Ob(f'Einsum rank {eq} {ranks}', h_einsum_rank, dict(eq=eq, ranks=list(ranks))))
    for i, eq in enumerate(ELL):
        terms = eq.split('->')[0].split(',')
        top = 3 if sum('...' in t for t in terms) < 3 else 1
        for nell in itertools.product(*[range(top + 1 + th) if '...' in t else [0] for t in terms]):
            obs.append(Ob(f'Einsum {eq} {list(nell)}', h_einsum, dict(eq=eq, nell=list(nell), as_bytes=i % 2 == 0)))
    return obs


BOUNDS = {'all': 'MatMul-family operand ranks 1-4 (thorough 5), Gemm rank 2, extents 1..100000; 50 einsum equations (mixed case, implicit, repeated labels, up to four operands), ellipses of 0-3 extents in each '
                 'operand, each extent broadcast or not; 11 einsum equations with every extent of every operand free (0..100000), six with operands of a wrong rank'}
OUTSIDE = 'einsum equations outside the listed family; batched Gemm (not an ONNX operator form)'
ASSUMPTIONS = []
