"""C23 - the costs of the fused operators of language models."""
import math
import numpy as np
from symex.runner import Ob
from .lib import *
from .glib import *

f32, f16, i64 = np.float32, np.float16, np.int64
MUL = ADD = CMP = 1
DIV, EXP, SIN, COS, SQRT = 4, 32, 39, 39, 24
RMS = 2 * MUL + 2 * ADD + SQRT + DIV


def run(E, op, attrs, ins, dt=f32, static=()):
    n = E.mknode(op, attrs, len(ins), 1, static=static)
    o = E.t('o', [])
    r = E.call(n.shape_infer, ins, [o])
    if not r.ok:
        E.fail(f'{op}: shape inference raises {type(r.exc).__name__}')
    E.check(np.dtype(o.dtype) == np.dtype(ins[0].dtype), f'{op}: element type')
    r = E.call(n.profile, ins, [o])
    return n, o, r


def cost(E, op, r, macs, io, w):
    if not r.ok:
        E.fail(f'{op}: profile raises {type(r.exc).__name__}: {str(r.exc)[:50]}')
    E.observe('cost', list(r.val))
    E.check(E.eq(r.val[0], macs), f'{op}: MACs')
    E.check(E.eq(r.val[1], io), f'{op}: activation elements')
    E.check(E.eq(r.val[2], w), f'{op}: weight elements')


def h_sdpa(E, op, rank, kv, dt=f32):
    B, S, nh, nkv, hd = E.int('B', 1, 8), E.int('S', 1, 64), E.int('nh', 1, 16), E.int('nkv', 1, 16), E.int('hd', 1, 64)
    q = [B, S, nh * hd] if rank == 3 else [B, nh, S, hd]
    k = [B, S, nkv * hd] if rank == 3 else [B, nkv, S, hd]
    ins = [E.t('q', q, dt), E.t('k', k, dt), E.t('v', k, dt)]
    past = 0
    if kv:
        NC = E.int('NC', 1, 256)
        ps = [E.int(f'p{i}', 0, 128) for i in range({'one': 1, 'two': 2}.get(kv, 5))]
        for p in ps:
            past = E.max(past, p)
        ins += [E.t('np', [] if kv == 'one' else [len(ps)], i64, value=E.array(ps[0] if kv == 'one' else ps, i64)), E.t('cache', [B, 2, NC, nkv * hd], dt)]
    n, o, r = run(E, op, dict(head_num=nh, head_size=hd, kv_head_num=nkv), ins)
    E.check(E.same(o.get_shape(), [B, S, nh * hd]), f'{op}: one row of all heads per token')
    if kv:
        fits = past + S <= NC
        E.check(E.implies(fits, r.ok) if r.ok else E.no(fits), f'{op}: refused exactly when the cache is too small')
        if not r.ok:
            return
        E.check(fits, f'{op}: refused when the cache is too small')
    A = past + S
    cost(E, op, r, B * nh * S * A * (hd + EXP + DIV + hd), B * S * nh * hd, 0)
    E.check(E.eq(n.kv_size, 2 * B * nkv * A * hd), f'{op}: keys and values')


def h_rope(E, tabs):
    B, S, D, P, h = E.int('B', 1, 8), E.int('S', 1, 64), E.int('D', 1, 64), E.int('P', 1, 64), E.int('h', 1, 32)
    x = E.t('x', [B, S, D], f16)
    ins = [x, E.t('cos', [1, 1, P, h], f32), E.t('sin', [1, 1, P, h], f32), E.t('pos', [B, S], i64)]
    n, o, r = run(E, 'Rope', {}, ins, static=[1, 2] if tabs else [])
    E.check(E.same(o.get_shape(), [B, S, D]), 'Rope: shape of the input')
    cost(E, 'Rope', r, B * S * D * (COS + SIN + 2 * MUL), B * S * D, 2 * E.min(S, P) * h if tabs else 0)


def h_gegelu(E, rank):
    s = E.ints('s', rank - 1, 1, 64) + [2 * E.int('I', 1, 64)]
    n, o, r = run(E, 'GeGelu', {}, [E.t('x', s, f16)])
    w = s[:-1] + [E.int('J', 1, 64)]
    E.assume(2 * w[-1] == s[-1])
    E.check(E.same(o.get_shape(), w), 'GeGelu: half of the last axis')
    cost(E, 'GeGelu', r, prod(w) * (EXP + 2 * MUL), prod(w), 0)


def h_gdn(E, default=()):
    B, S = E.int('B', 1, 8), E.int('S', 1, 64)
    at = {}
    for k, d, hi in (('hidden_size', 2560, 64), ('num_q_heads', 16, 16), ('num_v_heads', 32, 16), ('qk_head_dim', 128, 32), ('v_head_dim', 128, 32), ('conv_kernel', 4, 8)):
        at[k] = d if k in default else E.int(k, 1, hi)
    H, Nq, Nv, Dk, Dv, K = at.values()
    q = E.t('q', [B, S, Nq * Dk], f16)
    n, o, r = run(E, 'GDN', {k: v for k, v in at.items() if k not in default}, [q, E.t('k', [B, S, Nq * Dk], f16), E.t('v', [B, S, Nv * Dv], f16)])
    E.check(E.same(o.get_shape(), [B, S, H]), 'GDN: hidden states')
    T = B * S
    macs = (T * H * Nq * Dk * 2 + T * H * Nv * Dv          # projections
            + 2 * T * Nq * Dk                               # norms
            + 2 * T * Nq * Dk * K                           # convolutions
            + T * S * Nq * Dk + T * S * Nv * Dv             # attention
            + T * H * (EXP + MUL) + T * Nv * Dv * H)        # gate, output projection
    cost(E, 'GDN', r, macs, 2 * T * H, 0)


def h_moe(E, shared, default=()):
    B, S = E.int('B', 1, 8), E.int('S', 1, 64)
    at = {}
    for k, d, hi in (('hidden_size', 2048, 64), ('moe_intermediate_size', 512, 64), ('shared_expert_intermediate_size', 512, 64), ('num_experts', 256, 64), ('num_experts_per_tok', 8, 16)):
        at[k] = d if k in default else E.int(k, 1, hi)
    H, I, SI, NE, k = at.values()
    send = {a: v for a, v in at.items() if a not in default}
    if shared == 'none':
        send['no_shared_expert'] = True
        send['no_shared_gate'] = E.choice('ng', [False, True])
    elif shared == 'plain':
        send['no_shared_gate'] = True
    x = E.t('x', [B, S, H], f16)
    W = [[H, NE], [NE, I, H], [NE, I, H], [NE, H, I]]
    if shared != 'none':
        W += [[SI, H], [SI, H], [H, SI]] + ([[H]] if shared == 'gated' else [])
    n, o, r = run(E, 'MoE', send, [x] + [E.t(f'w{i}', s, f32) for i, s in enumerate(W)], static=range(1, 1 + len(W)))
    E.check(E.same(o.get_shape(), [B, S, H]), 'MoE: shape of the input')
    T = B * S

    def ffn(t, I):
        return 3 * t * H * I + t * I * (EXP + MUL) + t * I * MUL
    macs = T * H * NE + ffn(T * k, I) + T * H * ADD
    w = H * NE + E.min(T * k, NE) * 3 * H * I        # at most one expert per choice is read
    if shared != 'none':
        macs = macs + ffn(T, SI)
        w = w + 3 * H * SI
    if shared == 'gated':
        macs = macs + T * H * (EXP + MUL)
        w = w + H
    cost(E, 'MoE', r, macs, 2 * T * H, w)


def h_mla(E, cr, comp=0):
    """cr: compress_ratio (0: absent); comp: concrete number of compressed tokens where a logarithm is taken"""
    B = E.int('B', 1, 8)
    if cr == 4:
        S = comp * 4 + E.int('rest', 0, 3)
    else:
        S = E.int('S', 1, 64)
    at = {}
    for k, hi in (('dim', 64), ('n_heads', 16), ('head_dim', 32), ('q_lora_rank', 32), ('o_lora_rank', 32), ('rope_head_dim', 16), ('window_size', 64)):
        at[k] = E.int(k, 1, hi)
    D, N, H, Qr, Or, Rd, WS = at.values()
    G = E.choice('G', [1, 2, 4])
    at['o_groups'] = G
    if cr:
        at['compress_ratio'] = cr
    if cr == 4:
        for k, hi in (('index_n_heads', 8), ('index_head_dim', 32)):
            at[k] = E.int(k, 1, hi)
        IN, ID = at['index_n_heads'], at['index_head_dim']
    if cr:
        at['index_topk'] = E.int('topk', 1, 32)
    q = N * H
    E.assume(q % G == 0)
    per = E.int('per', 1, 1024)
    E.assume(per * G == q)
    W = [[Qr, D], [Qr], [N * H, Qr], [H, D], [H], [G * Or, per], [D, G * Or]]
    n, o, r = run(E, 'MLA', at, [E.t('x', [B, S, D], f16)] + [E.t(f'w{i}', s, f32) for i, s in enumerate(W)], static=range(1, 8))
    E.check(E.same(o.get_shape(), [B, S, D]), 'MLA: shape of the input')
    T = B * S
    ROPE = COS + SIN + 2 * MUL
    macs = (T * D * Qr + T * Qr * RMS + T * Qr * N * H + T * N * H * (2 * MUL + ADD + SQRT + DIV)     # queries
            + T * D * H + T * H * RMS                                                                  # keys and values
            + T * N * Rd * ROPE + T * Rd * ROPE)
    L = S
    if cr:
        C = S // cr
        macs = macs + T * D * H + B * C * cr * H * (EXP + DIV + MUL + ADD) + B * C * H * RMS + B * C * Rd * ROPE
        L = E.min(WS, S) + C + E.min(at['index_topk'], C)
    if cr == 4:
        macs = (macs + 2 * T * D * ID + B * C * cr * ID * (EXP + DIV + MUL + ADD) + B * C * ID * RMS + B * C * Rd * ROPE
                + T * Qr * IN * ID + B * IN * S * Rd * ROPE + T * IN * ID * C + T * IN * C * (CMP + MUL) + T * D * IN + (T * C * int(math.log2(comp)) * CMP if comp > 1 else 0))
    macs = macs + T * N * L * (2 * H + EXP + DIV) + T * G * per * Or + T * G * Or * D
    w = 0
    for s in W:
        w = w + prod(s)
    cost(E, 'MLA', r, macs, 2 * T * D, w)


def h_defaults(E, op):
    """attributes left out take the documented values"""
    want = {'GDN': dict(hidden_size=2560, num_q_heads=16, num_v_heads=32, qk_head_dim=128, v_head_dim=128, conv_kernel=4),
            'MoE': dict(hidden_size=2048, moe_intermediate_size=512, shared_expert_intermediate_size=512, num_experts=256, num_experts_per_tok=8),
            'MLA': dict(dim=4096, n_heads=64, head_dim=512, q_lora_rank=1024, o_lora_rank=1024, o_groups=8, rope_head_dim=64, window_size=128, compress_ratio=0)}[op]
    B, S = E.int('B', 1, 8), E.int('S', 1, 4096)
    H = want.get('hidden_size', want.get('dim'))
    x = [E.t('x', [B, S, H if op != 'GDN' else 16 * 128], f16)]
    _, o1, a = run(E, op, {}, x)
    _, o2, b = run(E, op, want, x)
    E.check(a.ok and b.ok and E.same(o1.get_shape(), o2.get_shape()), f'{op}: shape by default')
    for i in range(3):
        E.check(E.eq(a.val[i], b.val[i]), f'{op}: cost by default')


def obligations(tier):
    th = tier == 'thorough'
    obs = []
    for op in ('SDPA', 'GQA', 'MQA'):
        for rank in (3, 4):
            for kv in ('', 'one', 'each'):
                obs.append(Ob(f'{op.lower()}-{rank}{"-" + kv if kv else ""}', h_sdpa, dict(op=op, rank=rank, kv=kv)))
    obs += [Ob(f'rope-{t}', h_rope, dict(tabs=t)) for t in (True, False)] + [Ob(f'gegelu-{r}', h_gegelu, dict(rank=r)) for r in (2, 3)]
    obs += [Ob('gdn', h_gdn)] + [Ob(f'moe-{s}', h_moe, dict(shared=s)) for s in ('gated', 'plain', 'none')]
    obs += [Ob(f'mla-{c}', h_mla, dict(cr=c)) for c in (0, 1, 2, 3, 8)] + [Ob(f'mla-4-{k}', h_mla, dict(cr=4, comp=k)) for k in ((0, 1, 2, 5, 8) if not th else range(0, 34))]
    obs += [Ob(f'default-{o}', h_defaults, dict(op=o)) for o in ('GDN', 'MoE', 'MLA')]
    return obs


BOUNDS = {'sdpa': 'batch 1..8, tokens 1..64, heads and kv heads 1..16, head size 1..64; Q as [B,S,N*D] and [B,N,S,D]; without past, with one past for all and one per sequence 0..128, cache 1..256',
          'gqa': 'as sdpa', 'mqa': 'as sdpa', 'rope': 'batch 1..8, tokens, width, table rows 1..64, table width 1..32', 'gegelu': 'rank 2 and 3, sizes 1..64', 'gdn': 'all attributes symbolic (1..64)',
          'moe': 'all attributes symbolic; with gated, plain and no shared expert', 'mla': 'all attributes symbolic, 1, 2, 4 output groups, compression absent, 1, 2, 3, 8 (tokens 1..64) and 4 with 0, 1, 2, 5, 8 compressed '
          'tokens (0..33 thorough) since the cost of sorting has a logarithm', 'default-': 'attributes left out, tokens 1..4096'}
OUTSIDE = 'compression by 4 of more than 33 compressed tokens; a cached token list given as an array of more than two sequences'
ASSUMPTIONS = ['the constants of MUL, ADD, DIV, EXP, SIN, COS and SQRT are the documented cost model of node.py (C03)']
