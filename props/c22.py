"""C22 - a language model built from its configuration is the described architecture."""
import math
import numpy as np
from symex.runner import Ob
from .lib import *
from .glib import *
from .c15 import scratch
import os

f32, i64 = np.float32, np.int64
OFF = dict(gate=True, normb=False, fuse=False, qkvb=False, ob=False, mlpb=False, headb=False, qknorm=False, gated=False, moe=None, mla=False, pos=False, rope=True)
ARCH = {'LlamaForCausalLM': {}, 'Qwen2ForCausalLM': dict(qkvb=True), 'Qwen3ForCausalLM': dict(qkvb=True, qknorm=True),
        'Qwen3_5ForConditionalGeneration': dict(qknorm=True, gated=True), 'Qwen3_5MoeForCausalLM': dict(qknorm=True, gated=True, moe='gated'),
        'DeepSeekV4ForCausalLM': dict(moe='plain', mla=True), 'MiniMaxM2ForCausalLM': dict(qknorm=True, moe='none'),
        'Phi3ForCausalLM': dict(gate=False, fuse=True), 'Phi3SmallForCausalLM': dict(gate=False, fuse=True), 'PhiForCausalLM': dict(gate=False, normb=True, qkvb=True, ob=True, headb=True),
        'GPTJForCausalLM': dict(gate=False, normb=True), 'GPT2LMHeadModel': dict(gate=False, normb=True, fuse=True, qkvb=True, ob=True, mlpb=True, pos=True, rope=False),
        'SomethingElse': {}}
WM = {'embed': 'model.embed_tokens', 'prefix': 'model.layers.', 'in': 'input_layernorm', 'qkv': 'self_attn.qkv_proj', 'q': 'self_attn.q_proj', 'k': 'self_attn.k_proj', 'v': 'self_attn.v_proj',
      'o': 'self_attn.o_proj', 'post': 'post_attention_layernorm', 'gate': 'mlp.gate_proj', 'up': 'mlp.up_proj', 'down': 'mlp.down_proj', 'gu': 'mlp.gate_up_proj', 'norm': 'model.norm', 'lm': 'lm_head'}
GWM = {'embed': 'wte', 'pos': 'wpe', 'prefix': 'h.', 'in': 'ln_1', 'qkv': 'attn.c_attn', 'q': 'attn.q', 'k': 'attn.k', 'v': 'attn.v', 'o': 'attn.c_proj', 'post': 'ln_2', 'gate': 'mlp.g', 'up': 'mlp.c_fc',
       'down': 'mlp.c_proj', 'gu': 'mlp.gu', 'norm': 'ln_f', 'lm': 'head'}
COMM = ('Add', 'Mul')


def user_map(w):
    """the weight_map argument"""
    m = {'embedding': {'embed': w['embed']}, 'layer_prefix': w['prefix'],
         'attention': {'input_norm': w['in'], 'qkv': w['qkv'], 'q': w['q'], 'k': w['k'], 'v': w['v'], 'o': w['o'], 'output_norm': 'x1'},
         'mlp': {'input_norm': w['post'], 'gate': w['gate'], 'up': w['up'], 'down': w['down'], 'gate_up': w['gu'], 'output_norm': 'x2'},
         'lm_head': {'input_norm': w['norm'], 'lm': w['lm']}}
    if 'pos' in w:
        m['embedding']['pos'] = w['pos']
    return m


class R:
    """a value of the reference: weight, graph input, constant or operator result"""
    def __init__(self, kind, **k):
        self.kind = kind
        self.__dict__.update(k)


class Ref:
    """the architecture, written down once more"""
    def __init__(self, E, B, S):
        self.E, self.B, self.S = E, B, S
        self.ops, self.weights = 0, {}

    def w(self, name, shape):
        r = R('weight', name=name, shape=shape)
        self.weights[name] = shape
        return r

    def inp(self, name, shape, dt=f32):
        return R('input', name=name, shape=shape, dt=dt)

    def op(self, op, ins, shape, **attrs):
        self.ops += 1
        return R('op', op=op, ins=ins, shape=shape, attrs=attrs)

    def mm(self, x, fi, fo, bias, name):
        ins = [x, self.w(name + '.weight', [fi, fo])] + ([self.w(name + '.bias', [fo])] if bias else [])
        return self.op('MatMul', ins, x.shape[:-1] + [fo])

    def add(self, a, b, op='Add'):
        return self.op(op, [a, b], a.shape)

    def act(self, x, a):
        return self.op({'silu': 'Silu', 'gelu_new': 'Gelu', 'sigmoid': 'Sigmoid'}[a], [x], x.shape)

    def cut(self, x, off, n):
        return self.op('Slice', [x, R('const', v=[off]), R('const', v=[off + n]), R('const', v=[2]), R('const', v=[1])], x.shape[:-1] + [n])


def reference(E, c, f, B, S, w, layers):
    r = Ref(E, B, S)
    H, V = c['hidden_size'], c['vocab_size']
    nh, nkv, hd = c['_nh'], c['_nkv'], c['_hd']
    I = c.get('intermediate_size')
    eps = c.get('rms_norm_eps', c.get('layer_norm_eps', c.get('layer_norm_epsilon')))
    rms = 'rms_norm_eps' in c

    def norm(x, name):
        ins = [x, r.w(name + '.weight', [H])] + ([r.w(name + '.bias', [H])] if f['normb'] else [])
        return r.op('LayerNormalization', ins, x.shape, epsilon=eps, type='rms' if rms else None)

    def headnorm(x, name, d):
        return r.op('LayerNormalization', [x, r.w(name + '.weight', [d])], x.shape, epsilon=eps, type='rms')

    tabs = {}

    def rope(x):
        if not tabs:
            half = c.get('rotary_dim', hd) // 2
            for n, fn in (('cos', np.cos), ('sin', np.sin)):
                tabs[n] = r.w(f'rope.{n}', [1, 1, c['max_position_embeddings'], half])
            tabs['pos'] = r.inp('position', [B, S], i64)
        return r.op('Rope', [x, tabs['cos'], tabs['sin'], tabs['pos']], x.shape)

    def mlp(x, p):
        if f['moe']:
            NE, MI = c['_ne'], c.get('moe_intermediate_size', I)
            SI = c.get('shared_expert_intermediate_size', MI)
            ins = [x, r.w(p + 'moe.router.weight', [H, NE]), r.w(p + 'moe.experts.gate.weight', [NE, MI, H]), r.w(p + 'moe.experts.up.weight', [NE, MI, H]),
                   r.w(p + 'moe.experts.down.weight', [NE, H, MI])]
            if f['moe'] != 'none':
                ins += [r.w(p + 'moe.shared.gate.weight', [SI, H]), r.w(p + 'moe.shared.up.weight', [SI, H]), r.w(p + 'moe.shared.down.weight', [H, SI])]
            if f['moe'] == 'gated':
                ins += [r.w(p + 'moe.shared_gate.weight', [H])]
            return r.op('MoE', ins, x.shape, hidden_size=H, moe_intermediate_size=MI, shared_expert_intermediate_size=SI, num_experts=NE, num_experts_per_tok=c.get('num_experts_per_tok', 8))
        b = f['mlpb']
        if c.get('model_type') in ('phi3', 'phi3small'):
            g = r.op('GeGelu', [r.mm(x, H, 2 * I, b, p + w['gu'])], x.shape[:-1] + [I])
        elif f['gate']:
            g = r.add(r.mm(x, H, I, b, p + w['up']), r.act(r.mm(x, H, I, b, p + w['gate']), c['hidden_act']), 'Mul')
        else:
            g = r.act(r.mm(x, H, I, b, p + w['up']), c['_act'])
        return r.mm(g, I, H, b, p + w['down'])

    def attention(x, p, i):
        if (c.get('layer_types', []) + [''] * 99)[i] == 'linear_attention':
            nk, nv = c.get('linear_num_key_heads', nkv), c.get('linear_num_value_heads', nkv * 2)
            dk, dv = c.get('linear_key_head_dim', hd), c.get('linear_value_head_dim', hd)
            q = headnorm(r.mm(x, H, nk * dk, f['qkvb'], p + w['q']), p + 'self_attn.q_norm', dk)
            k = headnorm(r.mm(x, H, nk * dk, f['qkvb'], p + w['k']), p + 'self_attn.k_norm', dk)
            v = r.mm(x, H, nv * dv, f['qkvb'], p + w['v'])
            return r.op('GDN', [q, k, v], [B, S, H], hidden_size=H, num_q_heads=nk, num_v_heads=nv, qk_head_dim=dk, v_head_dim=dv, conv_kernel=c.get('linear_conv_kernel_dim', 4))
        if f['mla']:
            qr, orr, g = c.get('q_lora_rank', 1024), c.get('o_lora_rank', 1024), c.get('o_groups', 8)
            ins = [x, r.w(p + 'wq_a.weight', [qr, H]), r.w(p + 'q_norm.weight', [qr]), r.w(p + 'wq_b.weight', [nh * hd, qr]), r.w(p + 'wkv.weight', [hd, H]), r.w(p + 'kv_norm.weight', [hd]),
                   r.w(p + 'wo_a.weight', [g * orr, nh * hd // g]), r.w(p + 'wo_b.weight', [H, g * orr])]
            return r.op('MLA', ins, x.shape, dim=H, n_heads=nh, head_dim=hd, q_lora_rank=qr, o_lora_rank=orr, o_groups=g, rope_head_dim=c.get('rope_head_dim', 64), window_size=c.get('window_size', 128),
                        compress_ratio=c.get('compress_ratio', 0), index_n_heads=c.get('index_n_heads', 64), index_head_dim=c.get('index_head_dim', 128), index_topk=c.get('index_topk', 512))
        Q, K = nh * hd, nkv * hd
        gate = None
        if f['fuse']:
            t = r.mm(x, H, Q + K + K, f['qkvb'], p + w['qkv'])
            q, k, v = r.cut(t, 0, Q), r.cut(t, Q, K), r.cut(t, Q + K, K)
        else:
            q = r.mm(x, H, Q * 2 if f['gated'] else Q, f['qkvb'], p + w['q'])
            k, v = r.mm(x, H, K, f['qkvb'], p + w['k']), r.mm(x, H, K, f['qkvb'], p + w['v'])
            if f['gated']:
                q, gate = r.cut(q, 0, Q), r.cut(q, Q, Q)
        if f['qknorm']:
            q, k = headnorm(q, p + 'self_attn.q_norm', hd), headnorm(k, p + 'self_attn.k_norm', hd)
        if f['rope']:
            q, k = rope(q), rope(k)
        a = r.op('SDPA', [q, k, v], [B, S, Q], head_num=nh, head_size=hd, kv_head_num=nkv, layer_i=i, attn_logit_softcapping=c.get('attn_logit_softcapping'))
        r.sdpa.append(a)
        if gate is not None:
            a = r.add(a, r.act(gate, 'sigmoid'), 'Mul')
        return r.mm(a, Q, H, f['ob'], p + w['o'])

    r.sdpa = []
    cur = r.op('Gather', [r.w(w['embed'] + '.weight', [V, H]), r.inp('ids', [B, S], i64)], [B, S, H])
    if f['pos']:
        cur = r.add(r.op('Gather', [r.w(w['pos'] + '.weight', [c.get('n_positions', 1024), H]), r.inp('position', [B, S], i64)], [B, S, H]), cur)
    for i in range(layers):
        p = f"{w['prefix']}{i}."
        cur = r.add(cur, attention(norm(cur, p + w['in']), p, i))
        cur = r.add(cur, mlp(norm(cur, p + w['post']), p))
    cur = r.mm(norm(cur, w['norm']), H, V, f['headb'], w['lm'])
    if c.get('final_logit_softcapping') is not None:
        cur = r.op('LogitSoftCapping', [cur, R('const', v=[c['final_logit_softcapping']])], cur.shape)
    r.out = cur
    return r


class Match:
    """pairs the reference with the nodes of a graph by following the data flow from the outputs"""
    def __init__(self, E, g, saved=False):
        self.E, self.g, self.saved = E, g, saved
        self.prod = {o: n for n in g.nodemap.values() for o in n.output}
        self.pairs, self.memo = [], {}

    def same(self, r, name):
        k = (id(r), name)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = False
        self.memo[k] = self.same_(r, name)
        return self.memo[k]

    def same_(self, r, name):
        if r.kind == 'weight' and self.saved:       # a weight without values is an input of the saved model
            return name == r.name and (name in self.g.initials or name in self.g.input)
        if r.kind in ('weight', 'input'):
            return name == r.name and name in self.g.tensormap and (name in self.g.initials) == (r.kind == 'weight') and (name in self.g.input) == (r.kind == 'input')
        if r.kind == 'const':
            return name in self.g.initials and self.g.tensormap[name].numpy is not None
        n = self.prod.get(name)
        if n is None or n.op_type != r.op or len(n.output) != 1 or len(n.input) != len(r.ins):
            return False
        if all(self.same(a, b) for a, b in zip(r.ins, n.input)):
            return True
        return r.op in COMM and self.same(r.ins[1], n.input[0]) and self.same(r.ins[0], n.input[1])

    def collect(self, r, name, seen):
        """(reference, tensor, node) for everything below a matched value"""
        if (id(r), name) in seen:
            return
        seen[id(r), name] = (r, name, self.prod.get(name))
        if r.kind != 'op':
            return
        ins = list(self.prod[name].input)
        if not all(self.same(a, b) for a, b in zip(r.ins, ins)):
            ins = ins[::-1]
        for a, b in zip(r.ins, ins):
            self.collect(a, b, seen)


def matched(E, g, r, label, saved=False):
    E.check(len(g.output) == 1, f'{label}: one output')
    m = Match(E, g, saved)
    if len(g.output) != 1 or not m.same(r.out, g.output[0]):
        E.fail(f'{label}: the data flow is not that of the architecture')
        return None
    seen = {}
    m.collect(r.out, g.output[0], seen)
    ts = list(seen.values())
    E.check(len({id(t[2]) for t in ts if t[2] is not None}) == len(g.nodemap), f'{label}: no other nodes')
    consts = [t[1] for t in ts if t[0].kind == 'const']
    E.check(saved or sorted(g.initials) == sorted(list(r.weights) + consts), f'{label}: exactly the weights of the architecture')
    return ts


def shapes(E, g, ts, label):
    for r, name, n in ts:
        t = g.tensormap[name]
        if r.kind == 'const':
            E.check(E.all(len(E.elems(t.numpy)) == 1, E.close(E.elems(t.numpy)[0], r.v[0], 0 if E.sym else 1e-3)), f'{label}: value of a constant')
            continue
        E.check(E.same(t.get_shape(), r.shape), f'{label}: shape of {name}')
        if r.kind == 'input' or (r.kind == 'op' and label != 'built'):
            E.check(np.dtype(t.dtype) == np.dtype(getattr(r, 'dt', f32)), f'{label}: element type of {name}')


def attributes(E, ts):
    for r, name, n in ts:
        if r.kind == 'op':
            for k, v in r.attrs.items():
                got = n.attr.get(k)
                E.check((got is None) if v is None else (got is not None and E.eq(got, v)), f'attribute {k} of the {r.op} node')


def total(E, r):
    t = 0
    for s in r.weights.values():
        t = t + prod(s)
    return t


def config(E, arch, how, layers, sym=True):
    I_ = (lambda n, lo, hi: E.int(n, lo, hi))
    f = dict(OFF, **ARCH[arch])
    c = {'architectures': [arch], 'vocab_size': I_('V', 1, 64), 'name': 'org/model', 'max_position_embeddings': 4}
    hd = 4 if f['rope'] and not f['mla'] else I_('hd', 1, 16)
    if how == 'table':
        hd = E.choice('hd', [6, 8, 10])
    if arch != 'GPT2LMHeadModel':
        nh, nkv = 3 if how == 'nohead' else I_('nh', 1, 8), I_('nkv', 1, 8)
    if arch == 'GPT2LMHeadModel':
        nh = 2
        c.update(n_embd=2 * hd, n_head=nh, n_layer=layers, n_positions=I_('np', 1, 64), layer_norm_epsilon=1e-5, activation_function='gelu_new')
        H, nkv = 2 * hd, nh
        if how == 'inner':
            c['n_inner'] = I_('I', 1, 64)
        elif how == 'noinner':
            c['n_inner'] = None
        elif how == 'nopos':
            del c['n_positions']
        c['_I'] = c.get('n_inner') or 4 * H
        c['_act'] = 'gelu_new'
    elif how == 'nohead':           # head size from the hidden size
        H = 3 * hd
        c.update(hidden_size=H, num_attention_heads=nh, num_key_value_heads=nkv, num_hidden_layers=layers, hidden_act='silu', rms_norm_eps=1e-6, intermediate_size=I_('I', 1, 64))
    else:
        H = I_('H', 1, 64)
        c.update(hidden_size=H, num_attention_heads=nh, num_key_value_heads=nkv, head_dim=hd, num_hidden_layers=layers, hidden_act='gelu_new' if not f['gate'] else 'silu')
        c['ff_intermediate_size' if arch == 'Phi3SmallForCausalLM' else 'intermediate_size'] = I_('I', 1, 64)
        c['layer_norm_eps' if f['normb'] else 'rms_norm_eps'] = 1e-5
    if arch.startswith('Phi3'):
        c['model_type'] = 'phi3small' if 'Small' in arch else 'phi3'
    if how == 'abias':
        c['attention_bias'] = True
        f['qkvb'] = f['ob'] = True
    if how == 'noabias':
        c['attention_bias'] = False
        f['qkvb'] = f['ob'] = False
    if how == 'mbias':
        c['mlp_bias'] = True
        f['mlpb'] = True
    if how == 'softcap':
        c['attn_logit_softcapping'], c['final_logit_softcapping'] = 50.0, 30.0
    if how == 'rotary':
        c['rotary_dim'] = 2
        c['rope_theta'] = 100.0
    if how == 'table':
        c['max_position_embeddings'] = 7
        c['rope_theta'] = 1000000
        if hd == 10:
            c['rotary_dim'] = 8
    if f['moe']:
        c['num_local_experts' if how == 'local' else 'num_experts'] = I_('NE', 1, 8)
        if how == 'bare':
            del c['num_experts']
        else:
            c.update(num_experts_per_tok=I_('NK', 1, 4), moe_intermediate_size=I_('MI', 1, 32))
        if how not in ('local', 'bare'):
            c['shared_expert_intermediate_size'] = I_('SI', 1, 32)
        c['_ne'] = c.get('num_experts', c.get('num_local_experts', 256))
    if f['mla']:
        G = 2
        if how != 'bare':
            c.update(q_lora_rank=I_('QR', 1, 16), o_lora_rank=I_('OR', 1, 16), o_groups=G, rope_head_dim=I_('RD', 1, 8), window_size=I_('WS', 1, 64))
        if how == 'compress':
            c['compress_ratio'] = I_('CR', 0, 8)
        if how == 'index':
            c.update(compress_ratio=4, index_n_heads=I_('XN', 1, 100), index_head_dim=I_('XD', 1, 200), index_topk=I_('XK', 1, 1000))
    if how == 'bare' and f['gated']:        # linear attention of default sizes, the kinds of the last layers left out
        c['layer_types'] = ['linear_attention'] * (layers - 1)
    if how == 'hybrid':
        mask = 0b10 if layers == 2 else E.choice('mask', [0b00001, 0b00010, 0b00100, 0b01000, 0b10000, 0b10110, 0b01111, 0b10001, 0b00000])
        c['layer_types'] = [('full_attention', 'linear_attention')[layers == 2] if mask >> i & 1 else ('linear_attention', 'full_attention')[layers == 2] for i in range(layers)]
        c.update(linear_num_key_heads=I_('lnk', 1, 4), linear_num_value_heads=I_('lnv', 1, 4), linear_key_head_dim=I_('ldk', 1, 8), linear_value_head_dim=I_('ldv', 1, 8), linear_conv_kernel_dim=I_('lck', 1, 4))
    user = {k: v for k, v in c.items() if not k.startswith('_')}
    c.update(hidden_size=H, _nh=nh, _nkv=nkv, _hd=hd, _act=c.get('_act', c.get('hidden_act')))
    c['intermediate_size'] = c.get('_I', c.get('intermediate_size', c.get('ff_intermediate_size')))
    return user, c, f


def h_build(E, arch, how='', layers=2, kv=False, wm=None, dec=False):
    user, c, f = config(E, arch, how, layers)
    B, S = E.int('B', 1, 4), E.int('S', 1, 32)
    w = GWM if wm else WM
    LB = E.m('llm').Builder
    if how in ('after', 'noabias'):     # another model built before has no influence
        r0 = E.call(lambda: LB(**dict(user, attention_bias=True, mlp_bias=True)))
        if not r0.ok:
            E.fail(f'Builder raises {type(r0.exc).__name__}: {str(r0.exc)[:60]}')

    def run():
        b = LB(**user)
        b.build_graph([B, S], *([user_map(w)] if wm else []))
        return b
    R_ = E.call(run)
    if not R_.ok:
        E.fail(f'build_graph raises {type(R_.exc).__name__}: {str(R_.exc)[:80]}')
    b, g = R_.val, R_.val.graph
    r = reference(E, c, f, B, S, w, layers)
    ts = matched(E, g, r, 'built')
    if ts is None:
        return
    E.check(b.get_filename() == 'org_model', 'the file name is the name of the model')
    want_in = ['ids'] + (['position'] if f['pos'] or r.weights.get('rope.cos') is not None else [])
    E.check(sorted(g.input) == sorted(want_in), 'the inputs of the graph')
    shapes(E, g, ts, 'built')
    attributes(E, ts)
    if 'rope.cos' in r.weights:
        d, th = c.get('rotary_dim', c['_hd']), c.get('rope_theta', 10000.0)
        want = [[math.cos(p / th ** (2 * i / d)) for i in range(d // 2)] for p in range(c['max_position_embeddings'])]
        E.check(len(E.elems(g.tensormap['rope.cos'].numpy)) == c['max_position_embeddings'] * (d // 2) and all(E.close(x, y, 1e-6) for x, y in zip(E.elems(g.tensormap['rope.cos'].numpy), sum(want, []))), 'the cosine table')
        want = [[math.sin(p / th ** (2 * i / d)) for i in range(d // 2)] for p in range(c['max_position_embeddings'])]
        E.check(len(E.elems(g.tensormap['rope.sin'].numpy)) == c['max_position_embeddings'] * (d // 2) and all(E.close(x, y, 1e-6) for x, y in zip(E.elems(g.tensormap['rope.sin'].numpy), sum(want, []))), 'the sine table')
    kvw = c['_hd'] if f['mla'] else c['_nkv'] * c['_hd']
    E.check(b.kv_params == B * S * kvw * 2 * layers, 'size of keys and values')
    if kv:
        NC, NP = E.int('NC', 1, 1 << 20), E.int('NP', 0, 1 << 20)
        q = E.call(b.add_kv_cache, NC, NP)
        if not q.ok:
            E.fail(f'add_kv_cache raises {type(q.exc).__name__}: {str(q.exc)[:60]}')
        E.check(b.kv_params == B * (S + NP) * kvw * 2 * layers, 'size of keys and values with the past')
        E.check(sorted(g.input) == sorted(want_in + ['n_past', 'kv_cache']), 'the past and the cache are inputs')
        E.check(E.same(g.tensormap['kv_cache'].get_shape(), [B, layers * 2, NC, kvw]), 'shape of the cache')
        E.check(E.eq(E.elems(g.tensormap['n_past'].numpy)[0], NP), 'the past')
        for a in r.sdpa:
            a.ins = a.ins + [r.inp('n_past', None), r.inp('kv_cache', None)]
        ts = matched(E, g, r, 'cached')
        if ts is None:
            return
        ts = [t for t in ts if t[1] not in ('n_past', 'kv_cache')]
    # inference reports the shapes the builder declared
    g.valid_shape = True
    q = E.call(g.shape_infer, {'ids': E.opaque([B, S], i64)})
    if not q.ok:
        E.fail(f'shape_infer raises {type(q.exc).__name__}: {str(q.exc)[:60]}')
    shapes(E, g, ts, 'inferred')
    if dec:     # the next token
        NP2 = E.int('NP2', 0, 1 << 20)
        if kv:
            b.set_past_kv_length(NP2)
            E.check(E.eq(E.elems(g.tensormap['n_past'].numpy)[0], NP2), 'the past is updated')
        ins = {'ids': E.opaque([B, 1], i64)}
        if 'position' in want_in:
            ins['position'] = E.opaque([B, 1], i64)
        q = E.call(g.shape_infer, ins)
        if not q.ok:
            E.fail(f'shape_infer raises {type(q.exc).__name__}: {str(q.exc)[:60]}')
        r1 = reference(E, c, f, B, 1, w, layers)
        if kv:
            for a in r1.sdpa:
                a.ins = a.ins + [r1.inp('n_past', None), r1.inp('kv_cache', None)]
        ts = matched(E, g, r1, 'decoding')
        if ts:
            shapes(E, g, [t for t in ts if t[1] not in ('n_past', 'kv_cache')], 'decoding')


def h_save(E, arch, how='', kv=False):
    """the saved model is the same graph with the same shapes and element types"""
    user, c, f = config(E, arch, how, 2)
    B, S = E.int('B', 1, 4), E.int('S', 1, 32)
    wm = arch.startswith('GPT2')
    w = GWM if wm else WM
    with scratch(E) as d:
        p = os.path.join(d, 'm.onnx')

        def run():
            b = E.m('llm').Builder(**user)
            b.build_graph([B, S], *([user_map(w)] if wm else []))
            if kv:
                b.add_kv_cache(64, 3)
            b.save_graph(p)
            return E.m('model').Model(p, {}).graph
        R_ = E.call(run)
        if not R_.ok:
            E.fail(f'building, saving and loading raises {type(R_.exc).__name__}: {str(R_.exc)[:80]}')
        g = R_.val
        r = reference(E, c, f, B, S, w, 2)
        if kv:
            for a in r.sdpa:
                a.ins = a.ins + [r.inp('n_past', None), r.inp('kv_cache', None)]
        ts = matched(E, g, r, 'saved', saved=True)
        if ts is None:
            return
        ts = [t for t in ts if t[1] not in ('n_past', 'kv_cache')]
        shapes(E, g, [t for t in ts if t[0].kind != 'op' or t[0] is r.out], 'saved')
        for t in ts:
            for k, v in t[0].attrs.items() if t[0].kind == 'op' else ():
                if v is not None:
                    got = t[2].attr.get(k)
                    got = got.decode() if isinstance(got, bytes) else got
                    E.check(got is not None and (E.eq(got, v) if not isinstance(v, float) else E.close(got, v, 1e-6)), f'attribute {k} of the saved {t[0].op} node')


def h_params(E, arch, how=''):
    """the number of weights is that of the architecture"""
    user, c, f = config(E, arch, how, 2)
    b = E.m('llm').Builder(**user)
    B, S = E.int('B', 1, 4), E.int('S', 1, 32)
    b.build_graph([B, S])
    r = reference(E, c, f, B, S, WM, 2)
    ts = matched(E, b.graph, r, 'built')
    if ts is None:
        return
    got = 0
    for n in b.graph.initials:
        if n in r.weights:
            got = got + prod(b.graph.tensormap[n].get_shape())
    E.check(got == total(E, r), 'number of weights')
    g = b.graph
    g.valid_shape = True
    q = E.call(g.profile)
    if not q.ok:
        E.fail(f'profile raises {type(q.exc).__name__}: {str(q.exc)[:60]}')


def vision_ref(E, c, img):
    ch, h, w_ = img
    r = Ref(E, 1, None)
    VH, L, nh, I, p, hd, PH = c['vision_hidden_size'], c['vision_num_layers'], c['vision_num_heads'], c['vision_intermediate_size'], c['vision_patch_size'], c['vision_head_dim'], c['projector_hidden_dim']
    hp, wp = h // p, w_ // p
    n = hp * wp
    x = r.op('Conv', [r.inp('pixel_values', [1, ch, h, w_]), r.w('vision.patch_embed.weight', [VH, ch, p, p])], [1, VH, hp, wp], kernel_shape=[p, p], strides=[p, p], pads=[0, 0, 0, 0], group=1)
    x = r.op('Reshape', [x, R('const', v=None)], [1, n, VH])
    r.target = [1, n, VH]
    x = r.add(x, r.w('vision.pos_embed', [1, n, VH]))

    def norm(x, nm):
        return r.op('LayerNormalization', [x, r.w(nm + '.weight', [VH]), r.w(nm + '.bias', [VH])], x.shape, type=None)
    for i in range(L):
        b = f'vision.blocks.{i}'
        A = nh * hd
        t = r.mm(norm(x, b + '.ln1'), VH, 3 * A, True, b + '.attn.qkv')
        a = r.op('SDPA', [r.cut(t, 0, A), r.cut(t, A, A), r.cut(t, 2 * A, A)], [1, n, A], head_num=nh, head_size=hd, kv_head_num=nh)
        x = r.add(x, r.mm(a, A, VH, True, b + '.attn.o'))
        t = r.act(r.mm(norm(x, b + '.ln2'), VH, I, True, b + '.mlp.fc1'), 'gelu_new')
        x = r.add(x, r.mm(t, I, VH, True, b + '.mlp.fc2'))
    x = norm(x, 'vision.post_ln')
    if c.get('projector_type', 'mlp') == 'mlp':
        x = r.mm(r.act(r.mm(x, VH, PH, True, 'vision.projector.fc1'), 'gelu_new'), PH, c['hidden_size'], True, 'vision.projector.fc2')
    else:
        x = r.mm(x, VH, c['hidden_size'], True, 'vision.projector')
    r.out = x
    return r


def h_vision(E, how='', layers=2, patch=3):
    how0, how = how, 'linear' if how.endswith('linear') else how
    c = {'architectures': ['LlamaForCausalLM'], 'hidden_size': E.int('H', 1, 64), 'num_attention_heads': 2, 'num_key_value_heads': 2, 'head_dim': 4, 'rms_norm_eps': 1e-6, 'name': 'v',
         'vision_num_layers': 0 if how0.startswith('flat') else 1 if how == 'defaults' else layers, 'vision_num_heads': 2 if how == 'defaults' else E.int('nh', 1, 8),
         'vision_patch_size': patch, 'projector_type': 'linear' if how == 'linear' else 'mlp'}
    d = E.int('hd', 1, 16)
    c['vision_hidden_size'] = 2 * d if how == 'defaults' else E.int('VH', 1, 64)
    extra = {'vision_intermediate_size': 4 * c['vision_hidden_size'], 'vision_head_dim': d, 'projector_hidden_dim': c['hidden_size']}
    if how != 'defaults':
        extra = {'vision_intermediate_size': E.int('I', 1, 64), 'vision_head_dim': d, 'projector_hidden_dim': E.int('PH', 1, 64)}
        c.update(extra)
    img = [E.int('ch', 1, 4), E.int('h', patch, 4 * patch), 2 * patch + 1]
    def run():
        b = E.m('llm').Builder(**c)
        b.build_vision_graph(img)
        return b
    R_ = E.call(run)
    if not R_.ok:
        E.fail(f'build_vision_graph raises {type(R_.exc).__name__}: {str(R_.exc)[:80]}')
    g = R_.val.graph
    r = vision_ref(E, dict(c, **extra), img)
    ts = matched(E, g, r, 'built')
    if ts is None:
        return
    E.check(g.input == ['pixel_values'], 'the image is the input')
    tgt = [t for t in ts if t[0].kind == 'const' and t[0].v is None]
    E.check(len(tgt) == 1 and E.same(E.elems(g.tensormap[tgt[0][1]].numpy), r.target), 'patches by hidden size')
    ts = [t for t in ts if t not in tgt]
    shapes(E, g, ts, 'built')
    attributes(E, ts)
    g.valid_shape = True
    q = E.call(g.shape_infer, {'pixel_values': E.opaque([1] + img, f32)})
    if not q.ok:
        E.fail(f'shape_infer raises {type(q.exc).__name__}: {str(q.exc)[:60]}')
    shapes(E, g, ts, 'inferred')


def obligations(tier):
    th = tier == 'thorough'
    obs = []
    for a in ARCH:
        hows = ['inner', 'noinner', 'nopos', ''] if a.startswith('GPT2') else ['']
        for h in hows:
            obs.append(Ob(f'build-{a}{"-" + h if h else ""}', h_build, dict(arch=a, how=h, wm=a.startswith('GPT2')), weight=2))
        if not a.startswith('GPT2'):
            obs.append(Ob(f'map-{a}', h_build, dict(arch=a, layers=1, wm=True)))
        obs.append(Ob(f'kv-{a}', h_build, dict(arch=a, how=hows[0], layers=1 if not th else 2, kv=True, dec=True, wm=a.startswith('GPT2')), weight=2))
        if not a.startswith('GPT2'):
            obs.append(Ob(f'params-{a}', h_params, dict(arch=a)))
    for a, h in (('LlamaForCausalLM', 'abias'), ('Qwen2ForCausalLM', 'noabias'), ('Qwen3ForCausalLM', 'after'), ('LlamaForCausalLM', 'after'), ('LlamaForCausalLM', 'mbias'), ('LlamaForCausalLM', 'nohead'),
                 ('LlamaForCausalLM', 'softcap'), ('LlamaForCausalLM', 'rotary'), ('MiniMaxM2ForCausalLM', 'local'), ('MiniMaxM2ForCausalLM', 'rotary'), ('DeepSeekV4ForCausalLM', 'compress'), ('DeepSeekV4ForCausalLM', 'local'),
                 ('Qwen3_5ForConditionalGeneration', 'hybrid'), ('Qwen3_5MoeForCausalLM', 'hybrid'), ('SomethingElse', 'after'), ('DeepSeekV4ForCausalLM', 'index'), ('DeepSeekV4ForCausalLM', 'bare'), ('MiniMaxM2ForCausalLM', 'bare'), ('Qwen3_5ForConditionalGeneration', 'bare'), ('Qwen3_5MoeForCausalLM', 'bare')):
        for kv in (False, True):
            obs.append(Ob(f'{h}-{a}{"-kv" if kv else ""}', h_build, dict(arch=a, how=h, kv=kv, dec=kv, layers=2), weight=2))
    obs += [Ob(f'save-{a}{"-kv" if k else ""}', h_save, dict(arch=a, how='inner' if a.startswith('GPT2') else 'hybrid' if a.startswith('Qwen3_5') else '', kv=k)) for a in ARCH for k in (False, True)]
    obs += [Ob(f'deep-{n}', h_build, dict(arch='LlamaForCausalLM', layers=n)) for n in (1, 4, 7)]
    obs += [Ob(f'deep-{a}-{n}', h_build, dict(arch=a, layers=n, wm=a.startswith('GPT2'), kv=k, dec=k)) for a, n, k in (('Qwen3ForCausalLM', 3, True), ('Phi3ForCausalLM', 5, True), ('GPT2LMHeadModel', 4, True),
            ('DeepSeekV4ForCausalLM', 3, False), ('MiniMaxM2ForCausalLM', 4, True), ('GPTJForCausalLM', 3, False))]
    obs += [Ob(f'layers-{a}{"-kv" if k else ""}', h_build, dict(arch=a, how='hybrid', layers=5, kv=k, dec=k), weight=6) for a in ('Qwen3_5ForConditionalGeneration', 'Qwen3_5MoeForCausalLM') for k in (False, True)]
    obs += [Ob(f'table-{a}', h_build, dict(arch=a, how='table'), weight=3) for a in ('LlamaForCausalLM', 'PhiForCausalLM', 'Qwen3_5MoeForCausalLM')]
    obs += [Ob(f'vision-{h}-{n}', h_vision, dict(how=h, layers=n, patch=p), weight=2) for h, n, p in (('', 4, 2), ('linear', 3, 5), ('flat-linear', 0, 1), ('', 1, 14))]
    obs += [Ob(f'vision-{h}', h_vision, dict(how=h), weight=2) for h in ('', 'linear', 'defaults', 'flat')]
    return obs


BOUNDS = {'build-': 'each of the 13 architectures (12 in ArchMap and an unknown one), 2 layers; hidden size, vocabulary, intermediate size 1..64, heads 1..8, batch 1..4, tokens 1..32, expert and rank '
          'sizes 1..32 symbolic; head size 4 where a rope table exists, 1..16 otherwise', 'map-': 'a weight map of the caller, 1 layer', 'kv-': 'cache size and past up to 2^20, decoding step of one token after it',
          'save-': 'saved and loaded again, with and without cache', 'params-': 'number of weights; the graph can be profiled', 'deep-': '1, 3, 4, 5 and 7 layers', 'layers-': 'five layers in nine mixtures of linear and full attention', 'table-': 'head sizes 6, 8 and 10 (rotary 8), seven positions', 'vision-': 'image of 1..4 channels, height 1..4 patches, width two patches and one pixel, patch 1, 2, 3, 5, 14, 0 to 4 layers; both projectors',
          'all': 'attention and MLP bias given or refused, soft capping, partial rotary size and base, expert count under either name, hybrid layers, sizes of experts, latent and linear attention left to their defaults, kinds of some layers only, compression and index sizes, another model built before'}
OUTSIDE = 'the multi-modal combination of both graphs; rope tables of other head sizes than 4, 6, 8, 10 or other positions than 4, 7; more than 7 layers; the trained values of weights'
ASSUMPTIONS = ['the reference of each architecture in props/c22.py is the described one', 'the onnx package is represented by symex/fonnx.py in symbolic runs and is the real one in replays']
