"""Larger graphs with several-result, many-operand and optional-operand nodes; some operands are free (every tensor made before), element values are symbolic."""
import numpy as np
from .glib import *

i64 = np.int64
LO, HI = -20, 20
#       op,     operands ('?' free, '?d' free activation), results
SPEC = [('Split', ['x'], ['p', 'p/q', 'p1']),
        ('Add', ['?d', 'w'], ['t']),
        ('Sum', ['t', '?', 'p/q'], ['t1']),
        ('Mul', ['p1', 'w1'], ['t10']),
        ('Split', ['t1'], ['a', 'b', 'a1']),
        ('Sub', ['b', '?'], ['u']),
        ('Max', ['a1', '?', 't10', 'u'], ['z']),
        ('Clip', ['t', '', 'hi'], ['c'])]
BASE = {'x': 3, 'x1': 1, 'w': 3, 'w1': 1, 'hi': 0}
INPUTS, WEIGHTS = ['x', 'x1'], ['w', 'w1', 'hi']
OUTS = [['z', 'c'], ['z', 'c', 'a', 't1'], ['p', 'z', 'c', 'u', 't']]
FREE = [(1, 0), (2, 1), (5, 1), (6, 1)]


class Net:
    def __init__(self, E, free=(), outs=0, order='same', fix=0, cfg=None):
        """free: which of the four free operands really are; the others take the fix-th possible tensor; order: how the nodes are listed"""
        self.E = E
        size = dict(BASE)
        avail = list(BASE)
        self.nodes = []
        for i, (op, ins, res) in enumerate(SPEC):
            row = []
            for j, t in enumerate(ins):
                if t[:1] == '?':
                    opts = [v for v in avail if v not in WEIGHTS] if t == '?d' else [v for v in avail if v != 'hi']
                    k = FREE.index((i, j))
                    t = E.choice(f'operand{k}', opts) if k in free else opts[(fix * 5 + k * 3) % len(opts)]
                row.append(t)
            self.nodes.append((f'n{i}', op, row, list(res)))
            for o in res:
                avail.append(o)
                size[o] = 1 if op == 'Split' else max(size[t] for t in row if t)
        self.size, self.tensors = size, avail
        self.outs = list(OUTS[outs] if isinstance(outs, int) else outs)
        self.made = {o: i for i, n in enumerate(self.nodes) for o in n[3]}
        self.n = len(self.nodes)
        self.val = {k: [E.int(f'{k}_{i}', LO, HI) for i in range(max(BASE[k], 1))] for k in BASE}
        for nm, op, ins, res in self.nodes:
            self.val.update(self.run(op, ins, res, self.val))
        nodes = [out(op, nm, list(ins), list(res), **({'axis': 0} if op == 'Split' else {})) for nm, op, ins, res in self.nodes]
        nodes = [nodes[i] for i in order] if isinstance(order, list) else {'same': nodes, 'rev': nodes[::-1], 'odd': nodes[1::2] + nodes[::2]}[order]
        arr = lambda k: E.array(self.val[k] if BASE[k] else self.val[k][0], i64)
        self.g = mkgraph(E, nodes, [(k, [BASE[k]], i64) for k in INPUTS if self.used(k)], [(o, [size[o]], i64) for o in self.outs],
                         [(k, arr(k)) for k in WEIGHTS if self.used(k)], **(cfg or {}))
        if order != 'same':
            self.shuffled = True

    def used(self, t):
        return any(t in n[2] for n in self.nodes)

    def run(self, op, ins, res, val):
        """values of the results of a node"""
        E = self.E
        v = [val[t] if t else None for t in ins]
        if op == 'Split':
            k = len(v[0]) // len(res)
            return {o: v[0][i * k:(i + 1) * k] for i, o in enumerate(res)}
        if op == 'Clip':
            return {res[0]: [E.min(a, v[2][0]) for a in v[0]]}
        n = max(len(a) for a in v)
        b = [a * n if len(a) == 1 else a for a in v]
        r = b[0]
        for a in b[1:]:
            r = [{'Add': lambda p, q: p + q, 'Sum': lambda p, q: p + q, 'Sub': lambda p, q: p - q, 'Mul': lambda p, q: p * q, 'Max': lambda p, q: E.max(p, q)}[op](x, y) for x, y in zip(r, a)]
        return {res[0]: r}

    def without(self, i, new):
        """values when node i hands on tensor new in the place of its result"""
        val = {k: self.val[k] for k in BASE}
        for k, (nm, op, ins, res) in enumerate(self.nodes):
            val.update({res[0]: val[new]} if k == i else self.run(op, ins, res, val))
        return val

    # ---- plain graph theory
    def needs(self, i):
        return {self.made[t] for t in self.nodes[i][2] if t in self.made}

    def readers(self, t):
        return {i for i, n in enumerate(self.nodes) if t in n[2]}

    def behind(self, tensors):
        r = set()
        for i, n in enumerate(self.nodes):
            if any(t in tensors for t in n[2]) or self.needs(i) & r:
                r.add(i)
        return r

    def ahead(self, tensors):
        """nodes that some tensor depends on"""
        r = set()
        for i in reversed(range(self.n)):
            if any(o in tensors or self.readers(o) & r for o in self.nodes[i][3]):
                r.add(i)
        return r

    def borders(self, sub, weights=False):
        ins, outs = [], []
        for i in sub:
            for t in self.nodes[i][2]:
                if t and t not in ins and not (t in self.made and self.made[t] in sub) and (weights or t not in WEIGHTS):
                    ins.append(t)
            for o in self.nodes[i][3]:
                r = self.readers(o)
                if o in self.outs or not r or r - set(sub):
                    outs.append(o)
        return ins, outs

    def uses(self, sub):
        return sorted({t for i in sub for t in self.nodes[i][2] if t in WEIGHTS})

    # ---- checks shared by the properties
    def check_tables(self, g, left, label, ins=None):
        E = self.E
        ins = ins or [n[2] for n in self.nodes]
        for t in self.tensors:
            E.check(sorted(g.producedby.get(t, [])) == sorted(f'n{i}' for i in left if t in self.nodes[i][3]), f'{label}: producers of {t}')
            E.check(sorted(set(g.consumedby.get(t, []))) == sorted(f'n{i}' for i in left if t in ins[i]), f'{label}: readers of {t}')

    def check_nodes(self, g, left, label, ins=None):
        E = self.E
        E.check(sorted(g.nodemap) == sorted(f'n{i}' for i in left), f'{label}: exactly the expected nodes')
        for i in left:
            nd = g.nodemap.get(f'n{i}')
            if nd is not None:
                E.check(nd.op_type == self.nodes[i][1] and list(nd.input) == (ins or [n[2] for n in self.nodes])[i] and list(nd.output) == self.nodes[i][3], f'{label}: n{i} is unchanged')

    def check_order(self, g, sub, label):
        pos = {k: j for j, k in enumerate(g.nodemap)}
        for i in sub:
            for p in self.needs(i):
                if p in sub and f'n{i}' in pos and f'n{p}' in pos:
                    self.E.check(pos[f'n{p}'] < pos[f'n{i}'], f'{label}: n{i} follows n{p}')

    def arr(self, v, t):
        return self.E.array(v if self.size[t] else v[0], i64)

    def feed(self, names, known=None):
        return {t: self.arr((known or self.val)[t], t) for t in names}

    def check_values(self, g, want, label, feed=None):
        E = self.E
        r = E.call(g.value_infer, feed if feed is not None else self.feed([t for t in INPUTS if t in g.tensormap]))
        if not r.ok:
            E.fail(f'{label}: evaluating raises {type(r.exc).__name__}: {str(r.exc)[:80]}')
        for o, got in zip(list(g.output), r.val):
            E.check(o in want and got is not None and E.same(E.elems(got), want[o]), f'{label}: value of {o}')
        return dict(zip(list(g.output), r.val))


def subset(E, n, name='sub', convex=None):
    """a symbolic set of nodes"""
    opts = [[i for i in range(n) if m >> i & 1] for m in range(1, 1 << n)]
    return E.choice(name, [s for s in opts if convex is None or convex(s)])
