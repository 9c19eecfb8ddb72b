"""C24 - memory, latency and bottleneck estimates of a language model on a device."""
import itertools
import os
import numpy as np
from symex.runner import Ob
from .lib import *
from .glib import *
from .c15 import scratch
from .c10 import table

f32, i64 = np.float32, np.int64
BASE = {'name': 'm', 'hidden_size': 8, 'num_attention_heads': 2, 'num_key_value_heads': 1, 'head_dim': 4, 'hidden_act': 'silu', 'rms_norm_eps': 1e-6, 'intermediate_size': 6, 'vocab_size': 10,
        'max_position_embeddings': 4}
MODELS = {'llama': dict(architectures=['LlamaForCausalLM'], num_hidden_layers=1),
          'hybrid': dict(architectures=['Qwen3_5MoeForCausalLM'], num_hidden_layers=2, layer_types=['linear_attention', 'full_attention'], linear_num_key_heads=1, linear_num_value_heads=2,
                         linear_key_head_dim=2, linear_value_head_dim=4, linear_conv_kernel_dim=2, num_experts=4, num_experts_per_tok=2, moe_intermediate_size=4),
          'mla': dict(architectures=['DeepSeekV4ForCausalLM'], num_hidden_layers=1, num_experts=4, num_experts_per_tok=2, moe_intermediate_size=4, q_lora_rank=2, o_lora_rank=2, o_groups=1,
                      rope_head_dim=2, window_size=4)}


def build(E, model, B, S, kv):
    b = E.m('llm').Builder(**dict(BASE, **MODELS[model]))
    b.build_graph([B, S])
    if kv:
        b.add_kv_cache(64, kv)
    b.graph.valid_shape = True
    return b


def estimate(E, b, cfg, dev, label):
    """what the figures of every node must be, from its MACs and element counts"""
    bits = cfg['Bits']
    tot = [0, 0, 0]
    ctx = [0, 0, 0]
    link = 0
    rows = {}
    if dev is not None:
        link = dev.get('LinkBandwidth', 0)
        many = dev.get('Number', 1) if link != 0 else 1
        speed = {k: dev.get(cfg['Compute'][k], dev['FP32']) for k in ('MM', 'MHA', 'Others')}
    for k, n in b.graph.nodemap.items():
        kind = {'MatMul': 'MM', 'MoE': 'MM', 'MLA': 'MM', 'GDN': 'MM', 'SDPA': 'MHA'}.get(n.op_type, 'Others')
        fl = 2 * n.macs
        io = n.io_params * bits['Others'] / 8
        if kind == 'MHA':
            w = n.kv_size * bits['MHA'] / 8
            ctx[1] = ctx[1] + w
        elif kind == 'MM' or n.op_type == 'Gather':
            w = n.static_params * bits['MM'] / 8
            ctx[0] = ctx[0] + w
        else:
            w = n.static_params * bits['Others'] / 8
            ctx[2] = ctx[2] + w
        rows[k] = [fl, io + w, None]
        tot[0], tot[1] = tot[0] + fl, tot[1] + io + w
        if dev is not None:
            d = many if kind != 'Others' else 1
            c = fl / (speed[kind] * 1000000000) / d
            l = (io + w) / (dev['Bandwidth'] * 1000000000) / d
            s = E.ite(many > 1, io / (link * 1000000000), 0) if link != 0 and kind != 'Others' else 0
            rows[k][2] = (c, l, E.max(c, l) + s, s)
            tot[2] = tot[2] + E.max(c, l) + s
    return rows, tot, ctx


def verdict(E, b, rows, tot, ctx, dev, label):
    cl = (lambda a, c: E.close(a, c, 0)) if E.sym else (lambda a, c: abs(float(a) - float(c)) <= 1e-9 * max(abs(float(a)), abs(float(c))))
    for k, n in b.graph.nodemap.items():
        p = n.llm_profile
        fl, mem, lat = rows[k]
        E.check(cl(p['FLOPs'], fl), f'{label}: FLOPs of a {n.op_type}')
        E.check(cl(p['Memory'], mem), f'{label}: bytes of a {n.op_type}')
        if dev is None:
            E.check(p['Device'] is None, f'{label}: no device')
            continue
        got = p['Device']['latency']
        for i, what in enumerate(('compute', 'memory', 'total', 'exchange')):
            E.check(cl(got[i], lat[i]), f'{label}: {what} time of a {n.op_type}')
        tie = False if E.sym else abs(float(lat[0]) - float(lat[1])) <= 1e-9 * abs(float(lat[0]))
        E.check(E.any(tie, E.eq(lat[0] > lat[1], p['Device']['Bottleneck'] == 'Compute')), f'{label}: bottleneck of a {n.op_type}')
        E.check(p['Device']['Bottleneck'] in ('Compute', 'Memory'), f'{label}: bottleneck')
    E.observe('totals', list(b.llm_profile))
    for i, what in enumerate(('FLOPs', 'bytes', 'latency')):
        E.check(cl(b.llm_profile[i], tot[i]), f'{label}: total {what}')
    for i, what in enumerate(('weights', 'keys and values', 'other weights')):
        E.check(cl(b.context_mem[i], ctx[i]), f'{label}: bytes of {what}')
    E.check(cl(b.context_mem[3], ctx[0] + ctx[1] + ctx[2]), f'{label}: bytes of the whole context')


def bits(E, kind):
    if kind == 'default':
        return {'MM': 4.5, 'MHA': 16, 'Others': 32}
    return {k: E.int('bits' + k, 1, 64) for k in ('MM', 'MHA', 'Others')}


def h_profile(E, model, kv, how, bitk):
    """how: none | single | types | many"""
    if how == 'none':
        B, S = E.int('B', 1, 4), E.int('S', 1, 16)
    else:
        B, S = 1, 3
    b = build(E, model, B, S, kv)
    comp = {'MM': 'FP32', 'MHA': 'FP32', 'Others': 'FP32'}
    dev = None
    if how != 'none':
        dev = {'FP32': E.int('fp32', 1, 100000), 'Bandwidth': E.int('bw', 1, 10000)}
    if how == 'types':
        dev.update(FP16=E.int('fp16', 1, 100000))
        comp = E.choice('comp', [dict(zip(comp, v)) for v in itertools.product(('FP16', 'INT8'), repeat=3)])       # no INT8: falls back to FP32
    if how in ('many', 'one'):
        dev.update(LinkBandwidth=E.int('link', 1, 1000), Number=E.choice('num', [1, 2, 8]) if how == 'many' else 1)
        if how == 'one':
            del dev['Number']
    if how == 'nolink':
        dev.update(Number=4)
    cfg = None if bitk == 'default' and how == 'none' else {'Compute': comp, 'Bits': bits(E, bitk)}
    r = E.call(b.profile, cfg, dev)
    if not r.ok:
        E.fail(f'profile raises {type(r.exc).__name__}: {str(r.exc)[:60]}')
    cfg = cfg or {'Compute': comp, 'Bits': bits(E, 'default')}
    verdict(E, b, *estimate(E, b, cfg, dev, ''), dev, how)


def h_twice(E, model):
    """figures of an earlier estimate leave no trace"""
    b = build(E, model, 1, 3, 2)
    dev = {'FP32': E.int('fp32', 1, 100000), 'Bandwidth': 7}
    cfg = {'Compute': {'MM': 'FP32', 'MHA': 'FP32', 'Others': 'FP32'}, 'Bits': {'MM': 8, 'MHA': 8, 'Others': 16}}
    b.profile(None, {'FP32': 3, 'Bandwidth': 2})
    b.profile(cfg, dev)
    verdict(E, b, *estimate(E, b, cfg, dev, ''), dev, 'second')
    b.profile(cfg, None)
    verdict(E, b, *estimate(E, b, cfg, None, ''), None, 'third')


def h_print(E, model, csv, device):
    B, S = (E.int('B', 1, 4), E.int('S', 1, 16)) if not device else (1, 3)
    b = build(E, model, B, S, 0)
    cfg = {'Compute': {'MM': 'FP32', 'MHA': 'FP32', 'Others': 'FP32'}, 'Bits': {'MM': 8, 'MHA': 16, 'Others': 16}}
    dev = {'FP32': 3, 'Bandwidth': 2} if device else None
    b.profile(cfg, dev)
    with scratch(E) as d:
        p = os.path.join(d, 'p.csv' if csv else 'p.txt')
        r = E.call(b.print_profile, p)
        if not r.ok:
            E.fail(f'print_profile raises {type(r.exc).__name__}: {str(r.exc)[:60]}')
        rows = table(E, p, csv)
    head, body = rows[0], {x[0]: x for x in rows[1:]}
    E.check(head == ['Name', 'Type', 'FLOPs', 'Memory(bytes)'] + (['Projected Latency(ms)', 'Bottleneck'] if device else []) + ['InShape', 'OutShape'], 'header')
    E.check([x[0] for x in rows[1:]] == list(b.graph.nodemap) + ['Total'], 'one row per node and the total')
    want, tot, ctx = estimate(E, b, cfg, dev, '')
    for k, n in b.graph.nodemap.items():
        x = body[k]
        E.check(x[1] == n.op_type, 'operator')
        E.check(E.eq(E.num(x[2]), want[k][0]), 'FLOPs of a node')
        m = E.num(x[3])
        E.check(E.all(m <= want[k][1], want[k][1] < m + 1), 'bytes of a node')
        if device:
            E.check(abs(float(E.num(x[4])) - float(want[k][2][2]) * 1e3) <= 6e-6 and x[5] == ('Compute' if want[k][2][0] > want[k][2][1] else 'Memory'), 'milliseconds of a node')
        for cell, nm in ((x[-2], n.input[0]), (x[-1], n.output[0])):
            dims = [E.num(c) for c in cell.split('x')]
            E.check(E.same(dims, b.graph.tensormap[nm].get_shape()), 'shape cell')
    t = body['Total']
    E.check(E.eq(E.num(t[2]), tot[0]), 'total FLOPs')
    E.check(E.close(E.num(t[3]), tot[1], 0 if E.sym else 1e-6), 'total bytes')
    if device:
        E.check(abs(float(E.num(t[4])) - float(tot[2]) * 1e3) <= 1e-6 * float(tot[2]) * 1e3, 'total milliseconds')


def obligations(tier):
    th = tier == 'thorough'
    obs = []
    for m in MODELS:
        for kv in (0, 5):
            for h in ('none', 'single', 'types', 'many', 'one', 'nolink'):
                obs.append(Ob(f'{m}-kv{kv}-{h}', h_profile, dict(model=m, kv=kv, how=h, bitk='default' if h != 'none' or kv else 'bits'), weight=2))
            obs.append(Ob(f'{m}-kv{kv}-bits', h_profile, dict(model=m, kv=kv, how='none', bitk='bits')))
        obs.append(Ob(f'{m}-twice', h_twice, dict(model=m)))
        for csv in (False, True):
            for d in (False, True):
                obs.append(Ob(f'{m}-print-{"csv" if csv else "txt"}{"-dev" if d else ""}', h_print, dict(model=m, csv=csv, device=d)))
    return obs


BOUNDS = {'all': 'one-layer llama, two-layer hybrid (MoE and linear attention), one-layer MLA models, with and without cache; bits 1..64, FP32 and FP16 speed 1..100000, bandwidth 1..10000, link 1..1000, '
          '1, 2, 8 devices, missing element types, missing link or number; batch 1..4 and tokens 1..16 without a device, 1 x 3 with one', 'twice': 'estimate repeated with another device and then none'}
OUTSIDE = 'the figures of the Devices table; rounding of the float arithmetic (exact rationals; replays compare with 1e-9 relative tolerance)'
ASSUMPTIONS = ['real arithmetic for floats', 'num2str of a float prints it exactly']
