"""C30 - text generation: whole language models through engine, caches and the decoding loop."""
import contextlib
import os
from fractions import Fraction
import numpy as np
from symex import ftorch as T
from symex.runner import Ob
from .lib import *
from .glib import *
from .c15 import scratch
from .c28 import same_vals

f32, i64 = np.float32, np.int64


QWEN3, QWEN2, LLAMA = ('Qwen3ForCausalLM', False), ('Qwen2ForCausalLM', None), ('LlamaForCausalLM', False)


def tiny(layers, tied=True, heads=1, kvh=1, hd=2, ctx=8, arch=QWEN3):
    bias = {} if arch[1] is None else dict(attention_bias=arch[1])
    return dict(name='tiny', architectures=[arch[0]], **bias, head_dim=hd, hidden_act='silu', hidden_size=2, intermediate_size=4, max_position_embeddings=ctx,
                model_type='qwen3', num_attention_heads=heads, num_key_value_heads=kvh, num_hidden_layers=layers, rms_norm_eps=0.5, rope_theta=10000.0, tie_word_embeddings=tied, vocab_size=3)


class Opaque:
    """every operator is a function of which nothing is known: same operands, same result; numbers stand for its terms"""

    def __init__(self, E, V, temp=None):
        self.E, self.V, self.memo, self.n, self.temp = E, V, {}, 100, temp

    def num(self):
        self.n += 1
        return Fraction(self.n)

    def __call__(self, op, n, *key):
        k = (op, n, key)
        if k not in self.memo:
            self.memo[k] = [self.num() for _ in range(n)]
        return self.memo[k]

    def logits(self, *key):
        """what the model thinks of a text: symbolic, no two alike"""
        k = ('logits', key)
        if k not in self.memo:
            E, j = self.E, sum(1 for m in self.memo if m[0] == 'logits')
            v = [E.real(f'l{j}_{i}', -4, 4) for i in range(self.V)]
            for a in range(self.V):
                for b in range(a):
                    E.assume(E.no(v[a] == v[b]))
            if self.temp:
                e = self.exps(v)
                for a in range(self.V):
                    for b in range(a):
                        E.assume(E.all(E.no(E.eq(e[a], e[b])), E.eq(v[a] > v[b], e[a] > e[b])))
            self.memo[k] = v
        return self.memo[k]

    def exps(self, l):
        return [T.uf('exp', v / self.temp) for v in l]


def rows(t):
    n = int(t.shape[-1])
    f = t.flat()
    return [tuple(f[i:i + n]) for i in range(0, len(f), n)]


def known(*ts):
    return not any(T.isg(v) for t in ts for v in t)


def weights(O, cfg):
    """the checkpoint: every element a number of its own, linear layers stored [out, in]"""
    H, I, V, D = cfg['hidden_size'], cfg['intermediate_size'], cfg['vocab_size'], cfg['head_dim']
    nh, nk = cfg['num_attention_heads'], cfg['num_key_value_heads']
    mk = lambda s: T.make([O.num() for _ in range(int(np.prod(s)))], s, T.float32)
    w = {'model.embed_tokens.weight': mk([V, H]), 'model.norm.weight': mk([H])}
    if not cfg['tie_word_embeddings']:
        w['lm_head.weight'] = mk([V, H])
    for i in range(cfg['num_hidden_layers']):
        for n, s in (('input_layernorm', [H]), ('self_attn.q_proj', [nh * D, H]), ('self_attn.k_proj', [nk * D, H]), ('self_attn.v_proj', [nk * D, H]), ('self_attn.o_proj', [H, nh * D]),
                     ('self_attn.q_norm', [D]), ('self_attn.k_norm', [D]), ('post_attention_layernorm', [H]), ('mlp.gate_proj', [I, H]), ('mlp.up_proj', [I, H]), ('mlp.down_proj', [H, I])):
            if n[-6:] in ('q_norm', 'k_norm') and cfg['architectures'] != ['Qwen3ForCausalLM']:
                continue
            w[f'model.layers.{i}.{n}.weight'] = mk(s)
            if cfg['architectures'] == ['Qwen2ForCausalLM'] and n[-6:] in ('q_proj', 'k_proj', 'v_proj'):
                w[f'model.layers.{i}.{n}.bias'] = mk(s[:1])
    return w


def text(v):
    return v.decode() if isinstance(v, bytes) else str(v)


@contextlib.contextmanager
def kernels(E, O, cfg):
    """every computing kernel replaced by its opaque function"""
    KN = E.m('inference.kernels')
    R = KN.KernelRegistry

    def per_row(op, fn):
        class K(KN.Kernel):
            op_type = op

            @staticmethod
            def run(inputs, outputs, attrs):
                fn(inputs, outputs[0], attrs)
        return K

    def put(o, rs, what):
        E.check(all(known(r) for r in rs), f'{what}: operands are what was written before')
        E.check(int(o.numel()) == sum(len(r) for r in rs), f'{what}: size of the result')
        o.put([v for r in rs for v in r])

    def mm(i, o, a):
        n, w = int(o.shape[-1]), tuple(tuple(r) for r in rows(i[1]))
        b = (tuple(i[2].flat()),) if len(i) > 2 else ()
        E.check(known(*w) and known(*b), 'weights are loaded')
        put(o, [O.logits(r, w) if n == cfg['vocab_size'] else O('MatMul', n, r, w, *b) for r in rows(i[0])], 'MatMul')

    def ln(i, o, a):
        put(o, [O('LN', len(r), r, tuple(i[1].flat()), text(a.get('type')), round(float(a.get('epsilon', 0)), 6)) for r in rows(i[0])], 'norm')

    def el(op):
        def fn(i, o, a):
            E.check(len({tuple(int(v) for v in t.shape) for t in i} | {tuple(int(v) for v in o.shape)}) == 1, f'{op}: shapes')
            put(o, [O(op, len(r[0]), *r) for r in zip(*[rows(t) for t in i])], op)
        return fn

    def rope(i, o, a):
        pos = [int(v) for v in i[3].flat()]
        tab = tuple(round(float(v), 5) for t in i[1:3] for v in t.flat())
        E.check(len(pos) == len(rows(i[0])), 'a position for every token')
        put(o, [O('Rope', len(r), r, p, tab) for r, p in zip(rows(i[0]), pos)], 'Rope')

    def sdpa(i, o, a):
        q, k, v = [rows(t) for t in i[:3]]
        l, past, ks, vs = int(a.get('layer_i', 0)), 0, k, v
        if len(i) > 3:
            past, kv = int(i[3].flat()[0]), i[4]
            C = int(kv.shape[2])
            E.check(past + len(q) <= C and 2 * l + 1 < int(kv.shape[1]), 'the cache has room')
            at = lambda j, p: kv[0, j, p]
            ks = [tuple(at(2 * l, p).flat()) for p in range(past)] + k
            vs = [tuple(at(2 * l + 1, p).flat()) for p in range(past)] + v
            for s in range(len(q)):
                at(2 * l, past + s).put(list(k[s]))
                at(2 * l + 1, past + s).put(list(v[s]))
        E.check(all(known(r) for r in ks + vs), 'attention reads tokens that were written before')
        put(o, [O('SDPA', len(q[s]), q[s], tuple(ks[:past + s + 1]), tuple(vs[:past + s + 1]), int(a['head_num']), int(a['kv_head_num'])) for s in range(len(q))], 'SDPA')

    new = {'MatMul': mm, 'LayerNormalization': ln, 'Rope': rope, 'SDPA': sdpa, 'Silu': el('Silu'), 'Add': el('Add'), 'Mul': el('Mul')}
    old = {n: R.get(n) for n in new}
    try:
        for n, f in new.items():
            R.register(n)(per_row(n, f))
        yield
    finally:
        for n, k in old.items():
            R.register(n)(k)


def reference(O, cfg, W, ids):
    """the logits of every position of the text `ids`, written down from the architecture"""
    w = lambda n: rows(W[n + '.weight'])
    lin = lambda n: tuple(zip(*w(n)))
    mm = lambda r, n: O('MatMul', len(w(n)), tuple(r), lin(n), *((tuple(W[n + '.bias'].flat()),) if n + '.bias' in W else ()))
    norm = lambda r, n: O('LN', len(r), tuple(r), tuple(W[n + '.weight'].flat()), 'rms', 0.5)
    D, L = cfg['head_dim'], cfg['max_position_embeddings']
    ang = [[p / cfg['rope_theta'] ** (2 * i / D) for i in range(D // 2)] for p in range(L)]
    tab = tuple(round(float(np.float32(f(v))), 5) for f in (np.cos, np.sin) for r in ang for v in r)
    x = [w('model.embed_tokens')[i] for i in ids]
    for l in range(cfg['num_hidden_layers']):
        p = f'model.layers.{l}.'
        h = [norm(r, p + 'input_layernorm') for r in x]
        rope = lambda r, j: O('Rope', len(r), tuple(r), j, tab)
        arch = cfg['architectures'][0]

        def proj(r, n, qk):
            r = mm(r, p + f'self_attn.{n}_proj')
            if arch == 'Qwen3ForCausalLM' and qk:
                r = norm(r, p + f'self_attn.{n}_norm')
            return tuple(r)
        q = [rope(proj(r, 'q', True), j) for j, r in enumerate(h)]
        k = [tuple(rope(proj(r, 'k', True), j)) for j, r in enumerate(h)]
        v = [proj(r, 'v', False) for r in h]
        a = [O('SDPA', len(q[s]), tuple(q[s]), tuple(k[:s + 1]), tuple(v[:s + 1]), cfg['num_attention_heads'], cfg['num_key_value_heads']) for s in range(len(x))]
        x = [tuple(O('Add', len(r), tuple(r), tuple(mm(b, p + 'self_attn.o_proj')))) for r, b in zip(x, a)]
        h = [norm(r, p + 'post_attention_layernorm') for r in x]
        g = [O('Mul', cfg['intermediate_size'], tuple(mm(r, p + 'mlp.up_proj')), tuple(O('Silu', cfg['intermediate_size'], tuple(mm(r, p + 'mlp.gate_proj'))))) for r in h]
        x = [tuple(O('Add', len(r), tuple(r), tuple(mm(b, p + 'mlp.down_proj')))) for r, b in zip(x, g)]
    lm = 'model.embed_tokens' if cfg['tie_word_embeddings'] else 'lm_head'
    return [O.logits(tuple(norm(r, 'model.norm')), lin(lm)) for r in x]


class Tok:
    eos_token_id = 2
    pad_token_id = None

    def encode(self, s, **k):
        return [int(c) for c in s]

    def decode(self, ids, skip_special_tokens=False):
        return ' '.join(str(int(i)) for i in ids)


@contextlib.contextmanager
def model(E, cfg, W, kv, seq, ctx=None):
    """the engine of a freshly built and saved model"""
    T.FILES.clear()
    T.TOKENIZERS.clear()
    T.FILES['w.safetensors'], T.TOKENIZERS['tok'] = W, Tok()
    with scratch(E) as d:
        p = os.path.join(d, 'm.onnx')

        def run():
            b = E.m('llm').Builder(**cfg)
            b.build_graph([1, seq])
            if kv:
                b.add_kv_cache(ctx, 0)
            b.save_graph(p)
            LI = E.m('inference.llm_infer')
            return LI.LLMInfer(p, 'tok', 'w.safetensors', LI.get_qwen3_weight_map(cfg))
        r = E.call(run)
        if not r.ok:
            E.fail(f'creating the engine raises {type(r.exc).__name__}: {str(r.exc)[:90]}')
        yield r.val


def h_generate(E, layers, tied, kv, heads=(1, 1), lens=(1, 2, 3), more=(0, 1, 2), arch=QWEN3, twice=False, prof=(False,), free=True):
    """generate gives the greedy continuation of the prompt, up to its length or the end of text"""
    cfg = tiny(layers, tied, *heads, arch=arch)
    O = Opaque(E, cfg['vocab_size'])
    W = weights(O, cfg)
    with model(E, cfg, W, kv, 6, 6) as m, kernels(E, O, cfg):
        for k in range(2 if twice else 1):
            prompt = [E.choice(f'p{k}_{i}', [0, 1] if free else [k]) for i in range(E.choice(f'n{k}', list(lens)))]
            top = len(prompt) + E.choice(f'more{k}', list(more))
            r = E.call(m.generate, ''.join(map(str, prompt)), max_length=top, **({'profile': True, 'verbose': True} if E.choice(f'prof{k}', list(prof)) else {}))
            if not r.ok:
                E.fail(f'generate raises {type(r.exc).__name__}: {str(r.exc)[:90]}')
            got = [int(v) for v in r.val.split()]
            E.check(got[:len(prompt)] == prompt, 'the text begins with the prompt')
            E.check(len(got) <= top, 'the text is no longer than asked for')
            want = list(prompt)
            while len(want) < top:
                l = reference(O, cfg, W, want)[-1]
                if len(got) <= len(want):
                    E.fail('the text ends early')
                t = got[len(want)]
                E.check(E.all(*[l[t] >= v for v in l]), 'every token is the most likely one after the text before it')
                want.append(t)
                if t == Tok.eos_token_id:
                    break
            E.check(len(got) == len(want), 'the text ends at the end-of-text token or its length')


def h_split(E, layers, tied, heads=(1, 1)):
    """a text fed in pieces through the caches gives the logits of the whole text"""
    cfg = tiny(layers, tied, *heads)
    O = Opaque(E, cfg['vocab_size'])
    W = weights(O, cfg)
    with model(E, cfg, W, True, 6, 6) as m, kernels(E, O, cfg):
        ids = [E.choice(f'i{j}', [0, 1]) for j in range(4)]
        cuts = E.choice('cuts', [[4], [1, 3], [3, 1], [2, 2], [1, 1, 2], [2, 1, 1], [1, 1, 1, 1]])
        want = [v for r in reference(O, cfg, W, ids) for v in r]
        past, got = 0, []
        for j, n in enumerate(cuts):
            feed = {'ids': T.tensor([ids[past:past + n]]), 'position': T.tensor([list(range(past, past + n))]), 'n_past': T.tensor(past)}
            if j == 0:
                feed['kv_cache'] = T.zeros(1, 2 * layers, 6, cfg['num_key_value_heads'] * cfg['head_dim'])
            r = E.call(m.engine.forward, feed)
            if not r.ok:
                E.fail(f'piece {j} raises {type(r.exc).__name__}: {str(r.exc)[:90]}')
            o = r.val[m.logits_name]
            E.check([int(v) for v in o.shape] == [1, n, 3], f'piece {j}: shape of the logits')
            got += o.flat()
            past += n
        same_vals(E, got, want, 'logits')


def h_sample(E, kv, top_k, n=1, lens=(2,)):
    """with a temperature every token is drawn from the (top k) softmax of the logits"""
    cfg = tiny(1, True)
    temp = E.choice('temp', [0.5, 2.0])
    O = Opaque(E, cfg['vocab_size'], Fraction(temp))
    W = weights(O, cfg)
    drawn = []

    def draw(ws):
        i = E.choice(f'd{len(drawn)}', [0, 1, 2])
        E.assume(i < len(ws) and ws[i] > 0)
        drawn.append((ws, i))
        return i
    with model(E, cfg, W, kv, 6, 6) as m, kernels(E, O, cfg):
        prompt = [E.choice(f'p{i}', [0, 1]) for i in range(E.choice('n', list(lens)))]
        top = len(prompt) + n
        T.DRAW.append(draw)
        try:
            r = E.call(m.generate, ''.join(map(str, prompt)), max_length=top, temperature=temp, top_k=top_k)
        finally:
            T.DRAW.pop()
        if not r.ok:
            E.fail(f'generate raises {type(r.exc).__name__}: {str(r.exc)[:90]}')
        got = [int(v) for v in r.val.split()]
        want = list(prompt)
        while len(want) < top and (len(want) == len(prompt) or want[-1] != Tok.eos_token_id):
            if len(drawn) <= len(want) - len(prompt):
                E.fail('a token is not drawn')
            l = reference(O, cfg, W, want)[-1]
            ws, t = drawn[len(want) - len(prompt)]
            e = O.exps(l)
            E.check(len(ws) == 3, 'a weight for every token')
            for i in range(3):
                # among the top k: fewer than k tokens are more likely
                over = sum([E.ite(v > e[i], 1, 0) for v in e])
                inside = over < top_k if top_k else True
                E.check(E.eq(inside, ws[i] > 0), 'exactly the most likely tokens can be drawn')
                for j in range(i):
                    E.check(E.any(E.eq(ws[i], 0), E.eq(ws[j], 0), E.close(ws[i] * e[j], ws[j] * e[i])), 'tokens are drawn in the proportions of the softmax')
            E.check(E.close(ws[0] + ws[1] + ws[2], 1), 'the weights add up to one')
            want.append(t)
        E.check(got == want, 'the text is what was drawn')


def h_map(E):
    """every weight of a built model has its checkpoint name"""
    L, tied = E.choice('L', [1, 2, 12]), E.choice('tied', [False, True])
    LI = E.m('inference.llm_infer')
    cfg = tiny(L, tied)
    mp = LI.get_qwen3_weight_map(cfg)
    b = E.m('llm').Builder(**cfg)
    b.build_graph([1, 2])
    want = set(weights(Opaque(E, 3), cfg))
    for n in b.graph.tensormap:
        if n.endswith('.weight'):
            E.check(n in mp and mp[n] in want, f'{n} has a checkpoint name')
            if n in mp:
                E.check(mp[n] == (n if n != 'lm_head.weight' or not tied else 'model.embed_tokens.weight'), f'checkpoint name of {n}')


def obligations(tier):
    th = tier == 'thorough'
    obs = []
    for kv in (False, True):
        n = 'kv' if kv else 'whole'
        obs.append(Ob(f'generate-{n}', h_generate, dict(layers=1, tied=True, kv=kv, more=(0, 1, 2, 3) if th else (0, 1, 2)), weight=3))
        obs.append(Ob(f'generate-{n}-two', h_generate, dict(layers=2, tied=False, kv=kv, heads=(2, 1), lens=(2,) if not th else (1, 2, 3), more=(2,)), weight=3))
        obs.append(Ob(f'generate-{n}-again', h_generate, dict(layers=1, tied=True, kv=kv, heads=(2, 2), lens=(1,) if not th else (1, 2), more=(1,) if not th else (1, 2), twice=True, free=th), weight=3))
        obs.append(Ob(f'generate-{n}-long', h_generate, dict(layers=1, tied=True, kv=kv, lens=(5,), more=(1,), free=th), weight=2))
        obs.append(Ob(f'generate-{n}-profiled', h_generate, dict(layers=1, tied=True, kv=kv, lens=(1, 2), more=(1, 2), free=th, prof=(True,)), weight=2))
        for nm, ar in (('qwen2', QWEN2), ('llama', LLAMA)):
            obs.append(Ob(f'generate-{n}-{nm}', h_generate, dict(layers=1, tied=True, kv=kv, heads=(2, 1), lens=(2,), more=(2,), arch=ar, free=th), weight=2))
        for k in (0, 1, 2, 3):
            obs.append(Ob(f'sample-{n}-{k}', h_sample, dict(kv=kv, top_k=k, n=2 if k == 0 or th and k == 1 else 1, lens=(1, 2) if th else (2,)), weight=3))
    obs.append(Ob('split-1', h_split, dict(layers=1, tied=True)))
    obs.append(Ob('split-2', h_split, dict(layers=2, tied=False, heads=(2, 1))))
    obs.append(Ob('split-heads', h_split, dict(layers=1, tied=True, heads=(2, 2))))
    obs.append(Ob('weight-map', h_map))
    return obs


BOUNDS = {'models': 'language models of 1 and 2 layers shaped as qwen3, qwen2 (projection biases) and llama, hidden size 2, vocabulary 3, 1 or 2 heads (1 or 2 of them key-value heads), tied and untied heads, built, saved and loaded again by the code itself',
          'texts': 'prompts of 1 to 5 tokens, 0 to 2 generated (thorough 3), every text of tokens 0/1 (the third ends the text); with and without the caches; a second call on the same engine; profiled and verbose runs',
          'pieces': 'texts of 4 tokens, 7 ways of cutting them',
          'sampling': 'temperature 0.5 and 2, top 1, 2, 3 and no limit of the 3 tokens; 1 or 2 tokens drawn, any of those with a positive weight',
          'logits': 'symbolic reals in [-4, 4], any order, no two of a token equal'}
OUTSIDE = 'The arithmetic inside the kernels (C28): here each is an opaque function of its operands. Rotary tables are compared as rounded floats. Token and checkpoint files are stand-ins in memory. Ties between logits.'
ASSUMPTIONS = ['every kernel is replaced, through the registry of the code, by a function of which only congruence is known: MatMul (with its bias) and norms by row, Rope by row, position and table, SDPA by query, the keys and values up to it and the head counts',
               'exp is positive and strictly increasing on the logits at hand',
               'the tokenizer maps a digit to its token and back; checkpoint linear layers are stored [out, in]']
