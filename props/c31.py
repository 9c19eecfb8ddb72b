"""C31 - operator classes and kernels registered by the user decide what their nodes do; operators without one are refused."""
import warnings
import numpy as np
from symex import ftorch as T
from symex.runner import Ob
from .glib import *
from .c28 import ten, same_vals, engine

f32 = np.float32


class registered:
    """the registries are global: give them back as they were"""

    def __init__(self, E):
        self.E = E

    def __enter__(self):
        self.maps = [self.E.m('utils').NODE_REGISTRY._obj_map]
        self.old = [dict(m) for m in self.maps]
        return self.maps[0]

    def __exit__(self, *a):
        for m, o in zip(self.maps, self.old):
            m.clear()
            m.update(o)


def declare(E, name, how, body):
    reg = E.m('utils').NODE_REGISTRY
    cls = type(name, (body,), {})
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        if how == 'decorator':
            r = reg.register()(cls)
            E.check(r is cls, 'the decorator hands the class back')
        else:
            reg.register(cls)
    return cls, len(w)


def foo(E, tag=1):
    """[.., n] -> [.., n * k, tag]; k multiply-accumulates for each result"""
    Node = E.node.Node

    class Foo(Node):
        def __init__(self, n):
            super().__init__(n)
            self.add_default_value('k', 2)
            self.add_default_value('z', 7)

        def shape_infer(self, intensors, outtensors):
            s = list(intensors[0].get_shape())
            outtensors[0].update_shape(s[:-1] + [s[-1] * self.k, tag])
            outtensors[0].update_dtype(intensors[0].dtype)

        def _profile_core(self, intensors, outtensors):
            return prod(outtensors[0].get_shape()) * self.k
    return Foo


def h_shapes(E, op, how):
    """two nodes of the registered type between built-in ones: class, attributes, shapes and costs are the user's"""
    a, b = E.int('a', 1, 64), E.int('b', 1, 64)
    k = E.int('k', 1, 32)
    c, d = E.choice('w', [(2, 3), (1, 5)])
    extra = E.choice('attr', ['k', 'none', 'members'])
    at = {'k': {'k': k, 'z': 0}, 'none': {}, 'members': {'k': k, 'output': 5, 'prevnodes': 'other', 'input': [7], 'note': 'hello'}}[extra]
    kk = 2 if extra == 'none' else k
    nodes = [out('Relu', 'r', ['x'], ['y0']), out(op, 'f1', ['y0', 'w'], ['y1'], **at), out('Neg', 'n', ['y1'], ['y2']), out(op, 'f2', ['y2'], ['y3'], k=3), out('Abs', 'l', ['y3'], ['z'])]
    with registered(E) as reg:
        before = dict(reg)
        cls, warned = declare(E, op + 'Node', how, foo(E))
        E.check((warned > 0) == (op + 'Node' in before), 'a class is replaced with a warning and added without')
        E.check(all(reg[n] is before[n] for n in before if n != op + 'Node'), 'other operators keep their classes')
        g = mkgraph(E, nodes, [('x', [a, b], f32)], [('z', None, f32)], [weight(E, 'w', [c, d])])
        for n in ('r', 'n', 'l'):
            E.check(type(g.nodemap[n]) is before[g.nodemap[n].op_type + 'Node'], 'built-in operators stay built-in')
        f1, f2 = g.nodemap['f1'], g.nodemap['f2']
        E.check(isinstance(f1, cls) and isinstance(f2, cls), f'nodes of type {op} are of the registered class')
        E.check(E.all(E.eq(f1.k, kk), E.eq(f2.k, 3), E.eq(f1.z, 0 if extra == 'k' else 7), E.eq(f2.z, 7)), 'attributes and defaults are members of the node')
        E.check(f1.name == 'f1' and list(f1.output) == ['y1'] and list(f1.input) == ['y0', 'w'], 'an attribute does not hide what a node is made of')
        E.check(set(f1.attr) == set(at) and E.all(*[E.eq(f1.attr[n], v) for n, v in at.items() if n == 'k']), 'attr holds the attributes')
        if extra == 'members':
            E.check(f1.attr['output'] == 5 and list(f1.attr['input']) == [7] and f1.note in (b'hello', 'hello') and f1.prevnodes != 'other', 'every attribute is kept')
        r = E.call(g.shape_infer)
        if not r.ok:
            E.fail(f'shape_infer raises {type(r.exc).__name__}: {str(r.exc)[:80]}')
        s1 = [a, b * kk, 1]
        s3 = [a, b * kk, 3, 1]
        check_tensors(E, g, {'y0': [a, b], 'y1': s1, 'y2': s1, 'y3': s3, 'z': s3}, 'shapes')
        g.profile()
        m1, m2 = prod(s1) * kk, prod(s3) * 3
        E.check(E.all(E.eq(f1.macs, m1), E.eq(f2.macs, m2)), 'MACs of the registered class')
        E.check(E.eq(g.macs[0], m1 + m2 + g.nodemap['r'].macs + g.nodemap['n'].macs + g.nodemap['l'].macs), 'and they are part of the total')
        E.check(E.all(E.eq(f1.params, c * d), E.eq(f2.params, 0), E.eq(g.params, c * d)), 'weights count as parameters')
        E.check(E.all(E.eq(f1.io_params, prod(s1)), E.eq(f1.static_params, c * d), E.eq(f1.memory, 4 * (prod(s1) + c * d))), 'elements and bytes')
        E.check(E.all(E.same(f1.inshape, [a, b]), E.same(f1.outshape, s1)), 'shapes of the profile')
        g.profile(exclude_ops=[op])
        E.check(E.eq(g.macs[0], g.nodemap['r'].macs + g.nodemap['n'].macs + g.nodemap['l'].macs), 'excluded like any other operator')


def h_again(E, how):
    """the class registered last makes the nodes of graphs loaded after it; nodes that exist keep theirs"""
    a, b, k = E.int('a', 1, 64), E.int('b', 1, 64), E.int('k', 1, 32)
    mk = lambda: mkgraph(E, [out('Foo', 'f', ['x'], ['y'], k=k)], [('x', [a, b], f32)], [('y', None, f32)])
    with registered(E) as reg:
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            g0 = mk()
        E.check(any('Foo' in str(x.message) for x in w), 'an operator without a class is warned about')
        E.check(type(g0.nodemap['f']) is E.node.Node, 'and is a plain node')
        c1, _ = declare(E, 'FooNode', how, foo(E, 1))
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            g1 = mk()
        E.check(not w, 'a registered operator is not')
        c2, n = declare(E, 'FooNode', how, foo(E, 7))
        E.check(n > 0, 'registering a name again warns')
        g2 = mk()
        E.check(isinstance(g1.nodemap['f'], c1) and isinstance(g2.nodemap['f'], c2), 'classes')
        for g, tag in ((g1, 1), (g2, 7)):
            r = E.call(g.shape_infer)
            if not r.ok:
                E.fail(f'shape_infer raises {type(r.exc).__name__}: {str(r.exc)[:80]}')
            check_tensors(E, g, {'y': [a, b * k, tag]}, 'shapes')
        r = E.call(g0.shape_infer)
        E.check(not r.ok and isinstance(r.exc, ValueError) and 'f' in str(r.exc), 'a node without a class is refused')


def h_unknown(E, pos):
    """no shape is made up for an operator nobody registered"""
    a, b = E.int('a', 1, 64), E.int('b', 1, 64)
    seq = ['Relu', 'Neg', 'Abs']
    seq.insert(pos, 'Mystery')
    nodes = [out(o, f'node_{o}', [f't{i}'], [f't{i + 1}']) for i, o in enumerate(seq)]
    infos = E.choice('infos', [0, 1])
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        g = mkgraph(E, nodes, [('t0', [a, b], f32)], [('t4', [a, b] if infos else None, f32)], infos=[(f't{i}', [a, b], f32) for i in range(1, 4)] if infos else [])
    E.check(sum('Mystery' in str(x.message) for x in w) == 1 and len(w) == 1, 'one warning, for the unknown operator')
    E.check(type(g.nodemap['node_Mystery']) is E.node.Node and g.nodemap['node_Mystery'].op_type == 'Mystery', 'the node is there')
    r = E.call(g.shape_infer)
    E.check(not r.ok and isinstance(r.exc, ValueError) and 'node_Mystery' in str(r.exc), 'shape inference refuses and names the node')
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        g.profile()
    E.check(len(w) > 0 and not g.valid_profile, 'nothing is profiled without shapes')


def h_value(E, op):
    """value_infer of the class folds constants and computes run-time shapes"""
    v = E.int_array('v', [3], -50, 50, np.int64)
    k = E.choice('k', [1, 2, 5])
    Node = E.node.Node

    class Foo(Node):
        def __init__(self, n):
            super().__init__(n)
            self.add_default_value('k', 1)

        def shape_infer(self, i, o):
            self.value_infer(i, o)

        def value_infer(self, i, o):
            o[0].update_tensor(i[0].get_numpy()[::-1] * self.k)
    with registered(E):
        declare(E, op + 'Node', E.choice('how', ['decorator', 'call']), Foo)
        nodes = [out(op, 'f', ['c'], ['d'], **({} if k == 1 else {'k': k})), out('Add', 'a', ['x', 'd'], ['y'])]
        g = mkgraph(E, nodes, [('x', [3], np.int64)], [('y', None, np.int64)], [init(E, 'c', v)], constant_folding=True)
        E.check('f' not in g.nodemap and 'a' in g.nodemap, 'a node on constants is folded')
        E.check('d' in g.initials, 'into an initialiser')
        e = E.elems(v)
        got = g.tensormap['d'].get_numpy()
        E.check(list(got.shape) == [3] and E.all(*[E.eq(p, q * k) for p, q in zip(E.elems(got), e[::-1])]), 'with the values of the class')
        g = mkgraph(E, nodes, [('x', [3], np.int64)], [('y', None, np.int64)], [init(E, 'c', v)])
        E.check(list(g.nodemap) == ['f', 'a'], 'unasked, nothing is folded')


def h_runtime_shape(E, op):
    """a registered operator between Shape and Reshape"""
    a, b, c = E.int('a', 1, 40), E.int('b', 1, 40), E.int('c', 1, 40)
    Node = E.node.Node

    class Foo(Node):
        def shape_infer(self, i, o):
            o[0].update_shape(i[0].get_shape())
            o[0].update_dtype(i[0].dtype)

        def value_infer(self, i, o):
            o[0].update_tensor(i[0].get_numpy()[::-1])
    with registered(E):
        declare(E, op + 'Node', 'call', Foo)
        g = mkgraph(E, [out('Shape', 's', ['x'], ['s0']), out(op, 'f', ['s0'], ['s1']), out('Reshape', 'r', ['x', 's1'], ['y']), out('Relu', 'q', ['y'], ['z'])],
                    [('x', [a, b, c], f32)], [('z', None, f32)])
        r = E.call(g.shape_infer)
        if not r.ok:
            E.fail(f'shape_infer raises {type(r.exc).__name__}: {str(r.exc)[:80]}')
        check_tensors(E, g, {'s1': [3], 'y': [c, b, a], 'z': [c, b, a]}, 'shapes')


def h_fused(E, via):
    """the node a fusion leaves behind is of the class registered for its new type"""
    a, b = E.int('a', 1, 64), E.int('b', 1, 64)
    nodes = [out('Relu', 'r', ['x'], ['t']), out('Neg', 'm0', ['t'], ['u']), out('Abs', 'k0', ['u'], ['v']), out('Sigmoid', 's', ['v'], ['z'])]
    with registered(E):
        cls, _ = declare(E, 'FooNode', 'decorator', foo(E, 4))
        g = mkgraph(E, nodes, [('x', [a, b], f32)], [('z', None, f32)])
        if via == 'names':
            r = E.call(g.fuse_subgraph_node_names, ['m0', 'k0'], 'Foo', 'foo0')
        else:
            r = E.call(g.fuse_subgraph_iotensors, ['t'], ['v'], 'Foo', 'foo')
        if not r.ok:
            E.fail(f'fusing raises {type(r.exc).__name__}: {str(r.exc)[:80]}')
        f = [n for n in g.nodemap.values() if n.op_type == 'Foo']
        E.check(len(f) == 1 and isinstance(f[0], cls), 'one node of the registered class')
        g.graph_reorder_nodes()
        r = E.call(g.shape_infer)
        if not r.ok:
            E.fail(f'shape_infer raises {type(r.exc).__name__}: {str(r.exc)[:80]}')
        check_tensors(E, g, {'t': [a, b], 'v': [a, b * 2, 4], 'z': [a, b * 2, 4]}, 'shapes')
        g.profile()
        E.check(E.eq(f[0].macs, a * b * 16), 'MACs of the registered class')


def h_registry(E, n):
    """a registry is a mapping from names to what was registered last"""
    R = E.m('utils').Registry('R')
    want = {}
    for i in range(n):
        nm = E.choice(f'n{i}', ['A', 'a', 'ABNode'])
        obj = type(nm, (), {}) if E.choice(f'c{i}', [0, 1]) else eval(f'lambda: {i}')
        obj.__name__ = nm
        how = E.choice(f'h{i}', ['decorator', 'call', 'item'])
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            if how == 'decorator':
                E.check(R.register()(obj) is obj, 'the decorator hands the object back')
            elif how == 'call':
                R.register(obj)
            else:
                R[nm] = obj
        E.check(len(w) == (nm in want), 'a name taken again is warned about, another is not')
        want[nm] = obj
        for k in ('A', 'a', 'ABNode', 'Node', 'abnode', 'AB'):
            E.check((k in R) == (k in want) and R.get(k) is want.get(k), 'membership and get')
            r = E.call(R.__getitem__, k)
            E.check(r.val is want[k] if k in want else not r.ok and isinstance(r.exc, KeyError), 'lookup')
        E.check(dict(iter(R)) == want and set(R.keys()) == set(want), 'iteration')


def h_kernel(E, how):
    """a kernel registered for an operator runs its nodes in the engine, after preparing their weights"""
    n, k = E.choice('n', [1, 2, 3]), E.choice('k', [2, 3])
    Node, KN = E.node.Node, E.m('inference.kernels')
    KR = KN.KernelRegistry
    op = 'Relu' if how == 'replace' else 'Foo'
    seen = []

    class Foo(Node):
        def shape_infer(self, i, o):
            o[0].update_shape(i[0].get_shape())
            o[0].update_dtype(i[0].dtype)

    class FooKernel(KN.Kernel):
        op_type = op

        @staticmethod
        def run(inputs, outputs, attrs):
            seen.append(dict(attrs))
            outputs[0].copy_(inputs[0] * inputs[1] + float(attrs['k']))

        if how == 'prepare':
            @staticmethod
            def preprocess_weight(name, tensor, attrs):
                return tensor * 2 if name == 'w' else tensor
    old = dict(KR._kernels)
    ops = set(KR.registered_ops())
    try:
        with registered(E):
            if op == 'Foo':
                E.check(KR.get('Foo') is None and not KR.has('Foo'), 'not known before')
            declare(E, op + 'Node', 'decorator', Foo)
            E.check(KR.register(op)(FooKernel) is FooKernel, 'the decorator hands the kernel back')
            E.check(KR.get(op) is FooKernel and KR.has(op) and set(KR.registered_ops()) == ops | {op} and len(KR.registered_ops()) == len(ops | {op}), 'registered')
            E.check(all(KR.get(o) is c for o, c in old.items() if o != op), 'other kernels stay')
            W = [E.real(f'w{i}', -4, 4) for i in range(2)]
            g = mkgraph(E, [out('Neg', 'a', ['x'], ['t']), out(op, 'f', ['t', 'w'], ['u'], k=k), out('Neg', 'b', ['u'], ['y'])], [('x', ['n', 2], f32)], [('y', None, f32)],
                        [init(E, 'w', E.array(W, f32))])
            with engine(E, g) as IN:
                r = E.call(IN.GraphInfer, 'm.onnx', {'x': ('n', 2)}, {'n': (1, 3)})
            if not r.ok:
                E.fail(f'creating the engine raises {type(r.exc).__name__}: {str(r.exc)[:90]}')
            x = ten(E, 'x', [n, 2])
            r = E.call(r.val.forward, {'x': x})
            if not r.ok:
                E.fail(f'forward raises {type(r.exc).__name__}: {str(r.exc)[:90]}')
            y = r.val['y']
            f = 2 if how == 'prepare' else 1
            E.check([int(s) for s in y.shape] == [n, 2], 'shape of the result')
            same_vals(E, y.flat(), [v * W[i % 2] * f - k for i, v in enumerate(x.flat())], 'result')
            E.check(len(seen) == 1 and seen[0]['k'] == k, 'the kernel ran once, with the attributes of its node')
    finally:
        KR._kernels.clear()
        KR._kernels.update(old)


def obligations(tier):
    th = tier == 'thorough'
    obs = [Ob(f'shapes-{o}-{h}', h_shapes, dict(op=o, how=h), poly=True, weight=2) for o in ('Foo', 'Softplus') for h in ('decorator', 'call')]
    obs += [Ob(f'again-{h}', h_again, dict(how=h), poly=True) for h in ('decorator', 'call')] + [Ob(f'unknown-{p}', h_unknown, dict(pos=p)) for p in range(4)]
    obs += [Ob(f'value-{o}', h_value, dict(op=o)) for o in ('Foo', 'Not')] + [Ob(f'runtime-{o}', h_runtime_shape, dict(op=o), poly=True) for o in ('Foo', 'Sin')]
    obs += [Ob(f'fused-{v}', h_fused, dict(via=v), poly=True) for v in ('names', 'tensors')] + [Ob('registry', h_registry, dict(n=3 if th else 2))]
    obs += [Ob(f'kernel-{h}', h_kernel, dict(how=h), poly=True) for h in ('new', 'prepare', 'replace')]
    return obs


BOUNDS = {
    'sizes': 'extents 1..64 and the attribute 1..32 symbolic; values -50..50 and reals -4..4 symbolic',
    'structures': 'a new operator type and a built-in one replaced, by decorator and by call, twice under one name; five-node chains with two nodes of the type, with defaults and '
                  'with attributes named like members of a node; unknown operators at each of four places; sequences of 2 (thorough: 3) registrations by decorator, call and item',
}
OUTSIDE = 'classes whose own methods raise; two registries at once; registered classes used by the language-model builder'
ASSUMPTIONS = ['the registered classes are those of the harness: shapes, values and costs are functions of the node alone']
