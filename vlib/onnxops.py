"""Random ONNX graphs of the operations the converter knows, each operation with a float64 TensorFlow reference."""
import numpy as np

from vlib.tfx import tf

F = tf.float64
I64MAX = 2 ** 63 - 1


class Graph:
    def __init__(self, rng, batch):
        import onnx
        self.h = onnx.helper
        self.TP = onnx.TensorProto
        self.numpy_helper = onnx.numpy_helper
        self.rng, self.batch = rng, batch
        self.nodes, self.inits, self.inputs = [], [], []
        self.live = []  # (name, shape)
        self.steps = []  # (f, input names, output names, constant names)
        self.consts = {}  # trainable constants, in the order of their nodes
        self.n = 0
        self.ops = []
        self.strict = True  # everything in it is an operation the converter must do
        self.named = bool(rng.integers(0, 4))
        self.raw = bool(rng.integers(0, 3))
        self.has_sig = False
        self.backward_ok = True

    def name(self, p="t"):
        self.n += 1
        return "%s%d" % (p, self.n)

    def input(self, shape):
        nm = self.name("x")
        self.inputs.append((nm, tuple(shape)))
        self.live.append((nm, tuple(shape)))
        return nm

    def const(self, v, p="c", weight=False):
        nm = self.name(p)
        v = np.asarray(v)
        if self.raw or v.dtype == np.int64 and self.rng.integers(0, 2):
            t = self.numpy_helper.from_array(v, nm)
        else:
            ty = self.TP.INT64 if v.dtype == np.int64 else self.TP.FLOAT
            t = self.h.make_tensor(nm, ty, v.shape, v.ravel().tolist())
        self.inits.append(t)
        if weight:
            self.consts[nm] = v.astype(np.float64)
        return nm

    def weight(self, shape, lim=1.0):
        v = (self.rng.integers(-32, 33, shape) / 32.0 * lim).astype(np.float32)
        return self.const(v, "w", True)

    def pick(self, ok=lambda s: True):
        c = [t for t in self.live if ok(t[1])]
        if not c:
            return None
        return c[int(self.rng.integers(0, len(c)))] if self.rng.integers(0, 3) == 0 else c[-1]

    def node(self, op, ins, shapes, f, sig=(), **attrs):
        outs = [self.name("y") for _ in shapes]
        nd = self.h.make_node(op, ins, outs, name=self.name("n") if self.named else "")
        ats = [self.h.make_attribute(k, v) for k, v in attrs.items() if v is not None]
        nd.attribute.extend([ats[int(i)] for i in self.rng.permutation(len(ats))])
        self.nodes.append(nd)
        self.steps.append((f, list(ins), outs))
        self.ops.append((op,) + tuple(sig))
        for o, s in zip(outs, shapes):
            self.live.append((o, tuple(int(d) for d in s)))
        return outs

    def model(self, outputs):
        import onnx
        used = {i for _, ins, _ in self.steps for i in ins}
        self.inputs = [t for t in self.inputs if t[0] in used]
        h, FL = self.h, self.TP.FLOAT
        sh = dict(self.live)
        g = h.make_graph(self.nodes, "g", [h.make_tensor_value_info(n, FL, list(s)) for n, s in self.inputs],
                         [h.make_tensor_value_info(n, FL, list(sh[n])) for n in outputs], initializer=self.inits)
        m = h.make_model(g, opset_imports=[h.make_opsetid("", 15)])
        m.ir_version = 8
        onnx.checker.check_model(m)
        return m

    def run(self, xs, consts, outputs, box=None):
        """float64 values of the outputs; xs, consts: dicts of tensors"""
        v = dict(xs)
        v.update(consts)
        for f, ins, outs in self.steps:
            r = f(*[v[i] for i in ins if i in v])
            for o, t in zip(outs, r if isinstance(r, (list, tuple)) else [r]):
                v[o] = t
        if box is not None:
            box.update(v)
        return [v[o] for o in outputs]


def same(k, s):
    return [(k[0] - 1) // 2, (k[1] - 1) // 2]


def nchw_pool(f, x, k, s, pads, fill):
    x = tf.pad(x, [[0, 0], [0, 0], [pads[0], pads[2]], [pads[1], pads[3]]], constant_values=tf.constant(fill, F))
    x = tf.transpose(x, [0, 2, 3, 1])
    return tf.transpose(f(x, k, s, "VALID"), [0, 3, 1, 2])


def window(g, h, w):
    r = g.rng
    k = [int(r.integers(1, min(4, h + 1))), int(r.integers(1, min(4, w + 1)))]
    s = [int(r.integers(1, 4)), int(r.integers(1, 4))]
    return k, s


def pads_for(g, k):
    r = g.rng
    how = int(r.integers(0, 3))
    if how == 0:
        return None
    if how == 1:
        return [0, 0, 0, 0]
    return [int(r.integers(0, k[0])), int(r.integers(0, k[1])), int(r.integers(0, k[0])), int(r.integers(0, k[1]))]


def outsz(n, k, s, a, b):
    return (n + a + b - k) // s + 1


R4 = lambda s: len(s) == 4 and s[2] >= 1 and s[3] >= 1


def op_add(g):
    nm, s = g.pick()
    if g.rng.integers(0, 2):  # a constant
        if g.rng.integers(0, 3) == 0 and len(s) == 4:
            c = g.weight((1, s[1], 1, 1))
        else:
            c = g.weight(s[len(s) - 1 - int(g.rng.integers(0, len(s) - 1)):])
        ins = [nm, c] if g.rng.integers(0, 3) else [c, nm]
        return g.node("Add", ins, [s], lambda a, b: a + b, (s, "const", ins[0] == c))
    m, _ = g.pick(lambda t: t == s)
    return g.node("Add", [nm, m], [s], lambda a, b: a + b, (s, nm == m))


def op_sub(g):
    nm, s = g.pick()
    m, _ = g.pick(lambda t: t == s)
    return g.node("Sub", [nm, m], [s], lambda a, b: a - b, (s, nm == m))


def op_mul(g):
    nm, s = g.pick()
    m, _ = g.pick(lambda t: t == s)
    return g.node("Mul", [nm, m], [s], lambda a, b: a * b, (s, nm == m))


def op_neg(g):
    nm, s = g.pick()
    return g.node("Neg", [nm], [s], lambda a: -a, (s,))


def op_matmul(g):
    t = g.pick(lambda s: len(s) == 2)
    if not t:
        return
    nm, s = t
    o = int(g.rng.integers(1, 6))
    w = g.weight((s[1], o))
    return g.node("MatMul", [nm, w], [(s[0], o)], lambda a, b: tf.matmul(a, b), (s, o))


def op_gemm(g):
    t = g.pick(lambda s: len(s) == 2)
    if not t:
        return
    nm, s = t
    o = int(g.rng.integers(1, 6)) if g.rng.integers(0, 2) else s[1]
    tb = [None, 0, 1][int(g.rng.integers(0, 3))]
    ta = [None, 0][int(g.rng.integers(0, 2))]
    al = [None, 1.0][int(g.rng.integers(0, 2))]
    be = [None, 1.0][int(g.rng.integers(0, 2))]
    w = g.weight((o, s[1]) if tb else (s[1], o))
    ins = [nm, w]
    if g.rng.integers(0, 4):
        ins.append(g.weight((o,)))

    def f(a, b, c=0.0):
        return tf.matmul(a, b, transpose_b=bool(tb)) + c
    return g.node("Gemm", ins, [(s[0], o)], f, (s, o, ta, tb, al, be, len(ins)), alpha=al, beta=be, transA=ta, transB=tb)


def op_conv(g):
    t = g.pick(R4)
    if not t:
        return
    nm, s = t
    k, st = window(g, s[2], s[3])
    pads = pads_for(g, k)
    p = pads or [0, 0, 0, 0]
    oh, ow = outsz(s[2], k[0], st[0], p[0], p[2]), outsz(s[3], k[1], st[1], p[1], p[3])
    dw = bool(g.rng.integers(0, 2))
    if dw:
        k = [k[0], k[0]] if k[0] <= min(s[2:]) else k
        st = [st[0], st[0]]
        if pads:
            p = pads = [min(v, k[0] - 1) for v in pads]
        oh, ow = outsz(s[2], k[0], st[0], p[0], p[2]), outsz(s[3], k[1], st[1], p[1], p[3])
        mult = int(g.rng.integers(1, 3))
        o = s[1] * mult
        w = g.weight((o, 1, k[0], k[1]))
        group = s[1]
    else:
        o = int(g.rng.integers(1, 4))
        w = g.weight((o, s[1], k[0], k[1]))
        group = 1
    ins = [nm, w]
    if g.rng.integers(0, 2):
        ins.append(g.weight((o,)))

    def f(x, w, b=None):
        x = tf.pad(x, [[0, 0], [0, 0], [p[0], p[2]], [p[1], p[3]]])
        x = tf.transpose(x, [0, 2, 3, 1])
        w = tf.transpose(w, [2, 3, 1, 0])
        if group == 1:
            y = tf.nn.conv2d(x, w, st, "VALID")
        else:
            m = o // group
            y = tf.concat([tf.nn.conv2d(x[..., i:i + 1], w[..., i * m:(i + 1) * m], st, "VALID") for i in range(group)], -1)
        y = tf.transpose(y, [0, 3, 1, 2])
        return y if b is None else y + tf.reshape(b, [1, -1, 1, 1])
    if dw and group > 1:
        g.backward_ok = False
    at = dict(kernel_shape=k, strides=st if (st != [1, 1] or g.rng.integers(0, 2)) else None, pads=pads,
              group=group if (group > 1 or g.rng.integers(0, 2)) else None,
              dilations=[1, 1] if g.rng.integers(0, 2) else None)
    return g.node("Conv", ins, [(s[0], o, oh, ow)], f, (s, k, st, pads, group, o, len(ins), sorted(a for a in at if at[a] is not None)), **at)


def op_bn(g):
    t = g.pick(lambda s: len(s) in (2, 4))
    if not t:
        return
    nm, s = t
    c = s[1]
    r = g.rng
    w = [g.const((r.integers(-32, 33, c) / 32.0).astype(np.float32)) for _ in range(3)]
    w.append(g.const((r.integers(16, 65, c) / 32.0).astype(np.float32)))
    vals = [g.numpy_helper.to_array(t).astype(np.float64) for t in g.inits[-4:]]
    eps = [None, 1e-3, 0.01][int(r.integers(0, 3))]
    e = 1e-5 if eps is None else eps
    b = [1, c] + [1] * (len(s) - 2)

    def f(x):
        ga, be, me, va = [v.reshape(b) for v in vals]
        return (x - me) / np.sqrt(va + e) * ga + be
    g.backward_ok = False
    return g.node("BatchNormalization", [nm] + w, [s], f, (s, eps), epsilon=eps, momentum=[None, 0.9][int(r.integers(0, 2))])


def op_pool(g, which):
    t = g.pick(R4)
    if not t:
        return
    nm, s = t
    k, st = window(g, s[2], s[3])
    pads = pads_for(g, k)
    p = pads or [0, 0, 0, 0]
    oh, ow = outsz(s[2], k[0], st[0], p[0], p[2]), outsz(s[3], k[1], st[1], p[1], p[3])
    cip = [None, 0, 1][int(g.rng.integers(0, 3))] if which == "AveragePool" else None
    if which == "MaxPool":
        def f(x):
            return nchw_pool(tf.nn.max_pool2d, x, k, st, p, -1e9)
    else:
        def f(x):
            y = nchw_pool(tf.nn.avg_pool2d, x, k, st, p, 0.0)
            if not cip:
                y = y / nchw_pool(tf.nn.avg_pool2d, tf.ones_like(x), k, st, p, 0.0)
            return y
    stv = st if (st != [1, 1] or g.rng.integers(0, 2)) else None
    cm = [None, 0][int(g.rng.integers(0, 2))]
    return g.node(which, [nm], [(s[0], s[1], oh, ow)], f, (s, k, st, pads, cip, stv is None, cm), kernel_shape=k, strides=stv, pads=pads,
                  count_include_pad=cip, ceil_mode=cm)


def op_avgpool(g):
    return op_pool(g, "AveragePool")


def op_maxpool(g):
    return op_pool(g, "MaxPool")


def op_global(g):
    t = g.pick(R4)
    if not t:
        return
    nm, s = t
    mx = bool(g.rng.integers(0, 2))
    red = tf.reduce_max if mx else tf.reduce_mean
    if g.rng.integers(0, 2):
        return g.node("GlobalMaxPool" if mx else "GlobalAveragePool", [nm], [(s[0], s[1], 1, 1)],
                      lambda x: red(x, axis=[2, 3], keepdims=True), (s,))
    ax = [[2, 3], [1, 2], [-2, -1], [3, 2], [-1, -2]][int(g.rng.integers(0, 5))]
    kd = [None, 0, 1][int(g.rng.integers(0, 3))]
    keep = kd is None or bool(kd)
    a = sorted(v % 4 for v in ax)
    out = [d for i, d in enumerate(s) if i not in a] if not keep else [1 if i in a else d for i, d in enumerate(s)]
    return g.node("ReduceMax" if mx else "ReduceMean", [nm], [out], lambda x: red(x, axis=ax, keepdims=keep), (s, ax, kd),
                  axes=ax, keepdims=kd)


def op_relu(g):
    nm, s = g.pick()
    return g.node("Relu", [nm], [s], tf.nn.relu, (s,))


def op_sigmoid(g):
    nm, s = g.pick()
    g.has_sig = True
    return g.node("Sigmoid", [nm], [s], tf.sigmoid, (s,))


def op_softmax(g):
    nm, s = g.pick()
    g.has_sig = True
    g.backward_ok = False
    ax = [None, -1, len(s) - 1][int(g.rng.integers(0, 3))]
    return g.node("Softmax", [nm], [s], lambda x: tf.nn.softmax(x, axis=-1), (s, ax), axis=ax)


def op_slice(g):
    nm, s = g.pick(lambda s: len(s) > 1)
    r = g.rng
    axes = sorted(int(v) for v in r.permutation(np.arange(1, len(s)))[:int(r.integers(1, len(s)))])
    if r.integers(0, 3) == 0:
        axes = [0] + axes
    st, en, sp = [], [], []
    sl = [slice(None)] * len(s)
    for a in axes:
        n = s[a]
        b = int(r.integers(0, n)) if a else 0
        e = int(r.integers(b + 1, n + 1)) if a else n
        p = int(r.integers(1, 4)) if a and r.integers(0, 3) == 0 else 1
        sl[a] = slice(b, e, p) if a else slice(None)
        bb = b - n if b and r.integers(0, 3) == 0 else b
        ee = e
        if e == n:
            ee = [n, I64MAX, n + 3, 2 ** 31 - 1][int(r.integers(0, 4))] if a else [I64MAX, 2 ** 31 - 1][int(r.integers(0, 2))]
        elif r.integers(0, 3) == 0:
            ee = e - n
        st.append(bb)
        en.append(ee)
        sp.append(p)
    out = [len(range(d)[x]) for d, x in zip(s, sl)]
    i = lambda v: g.const(np.array(v, dtype=np.int64))
    ins = [nm, i(st), i(en)]
    ax = [a - len(s) if r.integers(0, 3) == 0 else a for a in axes]
    if any(v != 1 for v in sp):
        ins += [i(ax), i(sp)]
    elif axes != list(range(len(axes))) or r.integers(0, 2):
        ins += [i(ax)] + ([i(sp)] if r.integers(0, 2) else [])
    g.backward_ok = False
    return g.node("Slice", ins, [out], lambda x: x[tuple(sl)], (s, st, en, ax, sp, len(ins)))


def op_gather(g):
    nm, s = g.pick(lambda s: len(s) > 1)
    r = g.rng
    a = int(r.integers(1, len(s)))
    k = int(r.integers(1, 4))
    ix = [int(v) for v in r.integers(0, s[a], k)]
    out = list(s)
    out[a] = k
    at = a - len(s) if r.integers(0, 3) == 0 else a
    g.backward_ok = False
    if r.integers(0, 4) == 0:
        ix, out = ix[0], out[:a] + out[a + 1:]
    return g.node("Gather", [nm, g.const(np.array(ix, dtype=np.int64))], [out], lambda x: tf.gather(x, ix, axis=a), (s, at, ix), axis=at)


def op_split(g):
    nm, s = g.pick(lambda s: len(s) > 1 and max(s[1:]) > 1)or (None, None)
    if nm is None:
        return
    r = g.rng
    a = 1 + int(np.argmax(s[1:])) if r.integers(0, 2) else int(r.choice([i for i in range(1, len(s)) if s[i] > 1]))
    n = s[a]
    at = a - len(s) if r.integers(0, 3) == 0 else a
    divs = [d for d in range(2, n + 1) if n % d == 0]
    if r.integers(0, 2):
        d = int(r.choice(divs))
        outs = []
        for _ in range(d):
            o = list(s)
            o[a] = n // d
            outs.append(o)
        y = g.node("Split", [nm], outs, lambda x: tf.split(x, d, axis=a), (s, at, d), axis=at)
    else:
        cut = int(r.integers(1, n))
        sz = [cut, n - cut]
        outs = []
        for d in sz:
            o = list(s)
            o[a] = d
            outs.append(o)
        y = g.node("Split", [nm, g.const(np.array(sz, dtype=np.int64))], outs, lambda x: tf.split(x, sz, axis=a), (s, at, sz), axis=at)
    return y


def op_concat(g):
    nm, s = g.pick(lambda s: len(s) > 1)
    r = g.rng
    a = int(r.integers(1, len(s)))
    ok = lambda t: len(t) == len(s) and all(i == a or t[i] == s[i] for i in range(len(s)))
    parts = [(nm, s)] + [g.pick(ok) for _ in range(int(r.integers(0, 3)))]
    parts = [parts[int(i)] for i in r.permutation(len(parts))]
    out = list(s)
    out[a] = sum(p[1][a] for p in parts)
    at = a - len(s) if r.integers(0, 3) == 0 else a
    return g.node("Concat", [p[0] for p in parts], [out], lambda *x: tf.concat([*x], axis=a), (s, at, len(parts)), axis=at)


def op_reshape(g):
    nm, s = g.pick(lambda s: len(s) > 1)
    r = g.rng
    n = int(np.prod(s[1:]))
    divs = [d for d in range(1, n + 1) if n % d == 0]
    a = int(r.choice(divs))
    rest = n // a
    dims = [[n], [a, rest], [rest, a], [a, 1, rest], [1, a, rest]][int(r.integers(0, 5))]
    how = int(r.integers(0, 3))
    if how == 0:
        tgt = [-1] + dims
    elif how == 1:
        tgt = [0] + dims
    else:
        tgt = [0] + dims
        tgt[1 + int(r.integers(0, len(dims)))] = -1
    return g.node("Reshape", [nm, g.const(np.array(tgt, dtype=np.int64))], [[s[0]] + dims],
                  lambda x: tf.reshape(x, [x.shape[0]] + dims), (s, tgt))


def op_flatten(g):
    nm, s = g.pick(lambda s: len(s) > 1)
    ax = [None, 1][int(g.rng.integers(0, 2))]
    return g.node("Flatten", [nm], [(s[0], int(np.prod(s[1:])))], lambda x: tf.reshape(x, [x.shape[0], -1]), (s, ax), axis=ax)


def op_transpose(g):
    nm, s = g.pick(lambda s: len(s) > 2) or (None, None)
    if nm is None:
        return
    pm = [0] + [int(v) for v in 1 + g.rng.permutation(len(s) - 1)]
    return g.node("Transpose", [nm], [[s[i] for i in pm]], lambda x: tf.transpose(x, pm), (s, pm), perm=pm)


def op_unsqueeze(g):
    nm, s = g.pick(lambda s: len(s) < 5)
    r = g.rng
    a = int(r.integers(1, len(s) + 1))
    at = a - len(s) - 1 if r.integers(0, 3) == 0 else a
    return g.node("Unsqueeze", [nm, g.const(np.array([at], dtype=np.int64))], [list(s[:a]) + [1] + list(s[a:])],
                  lambda x: tf.expand_dims(x, a), (s, at))


def op_squeeze(g):
    t = g.pick(lambda s: 1 in s[1:] and len(s) > 2)
    if not t:
        return
    nm, s = t
    r = g.rng
    ones = [i for i in range(1, len(s)) if s[i] == 1]
    ax = sorted(int(v) for v in r.permutation(ones)[:int(r.integers(1, len(ones) + 1))])
    at = [a - len(s) if r.integers(0, 3) == 0 else a for a in ax]
    return g.node("Squeeze", [nm, g.const(np.array(at, dtype=np.int64))], [[d for i, d in enumerate(s) if i not in ax]],
                  lambda x: tf.squeeze(x, ax), (s, at))


def op_pad(g):
    nm, s = g.pick()
    r = g.rng
    p = [[0, 0]] + [[int(r.integers(0, 3)), int(r.integers(0, 3))] for _ in s[1:]]
    v = [q[0] for q in p] + [q[1] for q in p]
    ins = [nm, g.const(np.array(v, dtype=np.int64))]
    if r.integers(0, 2):
        ins.append(g.const(np.array(0.0, dtype=np.float32)))
    md = [None, "constant"][int(r.integers(0, 2))]
    return g.node("Pad", ins, [[d + a + b for d, (a, b) in zip(s, p)]], lambda x: tf.pad(x, p), (s, v, md, len(ins)), mode=md)


OPS = dict(add=op_add, sub=op_sub, mul=op_mul, neg=op_neg, matmul=op_matmul, gemm=op_gemm, conv=op_conv, bn=op_bn, avgpool=op_avgpool,
           maxpool=op_maxpool, globalpool=op_global, relu=op_relu, sigmoid=op_sigmoid, softmax=op_softmax, slice=op_slice,
           gather=op_gather, split=op_split, concat=op_concat, reshape=op_reshape, flatten=op_flatten, transpose=op_transpose,
           unsqueeze=op_unsqueeze, squeeze=op_squeeze, pad=op_pad)


def start(g, kind):
    r = g.rng
    if kind in ("matmul", "gemm"):
        rank = 2
    elif kind in ("conv", "avgpool", "maxpool", "globalpool"):
        rank = 4
    elif kind == "squeeze":
        s = [1 if r.integers(0, 2) else int(r.integers(1, 4)) for _ in range(int(r.integers(2, 4)))]
        s[int(r.integers(0, len(s)))] = 1
        return g.input([g.batch] + s)
    else:
        rank = int(r.integers(2, 5))
    s = [g.batch] + [int(v) for v in r.integers(2 if rank == 4 else 1, 6, rank - 1)]
    if rank == 4:
        s[1] = int(r.integers(1, 4))
    x = g.input(s)
    if kind in ("add", "sub", "mul", "concat") and r.integers(0, 2):
        g.input(s)
    return x


# ---------------------------------------------------------------- whole graphs

SMOOTH = ("add", "sub", "mul", "neg", "matmul", "gemm", "conv", "avgpool", "relu", "sigmoid", "concat", "reshape", "flatten", "transpose",
          "unsqueeze", "squeeze", "pad", "split")
FIRST = ("maxpool", "globalpool")


def may_refuse(g):
    """restrictions of the layers that stand behind the nodes, announced by an exception"""
    for op in g.ops:
        if op[0] == "Conv" and op[2][0] != op[2][1]:
            return True
        if op[0] in ("MaxPool", "AveragePool") and op[4] and any(op[4]):
            return True
    return False


def outputs(g, rng):
    """values nothing else uses, and sometimes one more"""
    used = {i for _, ins, _ in g.steps for i in ins}
    made = [o for _, _, outs in g.steps for o in outs]
    out = [o for o in made if o not in used]
    if rng.integers(0, 4) == 0:
        more = [o for o in made if o not in out]
        if more:
            out.append(more[int(rng.integers(0, len(more)))])
    return out


def chain(rng, batch, n, back):
    """a graph of n operations, values used more than once included"""
    for _ in range(200):
        g = Graph(rng, batch)
        names = list(SMOOTH) if back else list(OPS)
        first = names + list(FIRST) if back else names
        kinds = [first[int(rng.integers(0, len(first)))]] + [names[int(rng.integers(0, len(names)))] for _ in range(n - 1)]
        start(g, kinds[0])
        for k in kinds:
            if g.live[-1][1][1:] == () or min(g.live[-1][1]) < 1:
                break
            OPS[k](g)
        if not g.steps or max(len(s) for _, s in g.live) > 4 or min(min(s) for _, s in g.live) < 1:
            continue
        big = [int(np.prod(s)) for _, s in g.live]
        if max(big) > 400 or sum(op[0] in ("Mul",) for op in g.ops) > 2:
            continue
        if back and not g.backward_ok:
            continue
        xs = values(g, rng)
        box = {}
        out = outputs(g, rng)
        g.run({k: tf.constant(v, F) for k, v in xs.items()}, {k: tf.constant(v, F) for k, v in g.consts.items()}, out, box)
        if max(float(tf.reduce_max(tf.abs(v))) for v in box.values()) > 30:
            continue
        if any(op[0] == "Sigmoid" for op in g.ops) and max(float(tf.reduce_max(tf.abs(v))) for v in box.values()) > 4:
            continue
        return g, out
    return None, None


def values(g, rng, batch=None):
    out = {}
    for n, s in g.inputs:
        s = (batch or s[0],) + tuple(s[1:])
        k = int(np.prod(s))
        v = rng.permutation((2 * np.arange(k) + 1 - k) | 1) / 128.0
        lim = max(1.0, float(np.abs(v).max()))
        out[n] = (v / 2 ** np.ceil(np.log2(lim)) if lim > 1 else v).reshape(s)
    return out


def amount(op, ulp, ins):
    """size of the error an operation may add"""
    m = max([1.0] + [float(tf.reduce_max(tf.abs(v))) for v in ins])
    if op[0] == "Sigmoid":
        return 0.045
    if op[0] == "Softmax":
        return 0.03
    if op[0] in ("AveragePool", "ReduceMean", "GlobalAveragePool"):
        return ulp * (3 + 36 * m)
    if op[0] == "BatchNormalization":
        return (ulp + 1e-7) * (10 + 30 * m)
    return 3 * ulp


def noisy(g, xs, consts, outs, ulp, rng):
    """the outputs when every operation errs, forwards and backwards"""
    v = dict(xs)
    v.update(consts)
    for (f, ins, os), op in zip(g.steps, g.ops):
        a = [v[i] for i in ins if i in v]
        r = f(*a)
        e = amount(op, ulp, a)
        if op[0] == "Sigmoid":  # its slope is taken from the approximation
            sgn = tf.constant(rng.choice([-1.0, 1.0], a[0].shape), F)

            @tf.custom_gradient
            def sig(x, sgn=sgn):
                y = tf.sigmoid(x)
                return y, lambda dy: dy * (y * (1 - y) + 0.045 * sgn)
            r = sig(a[0])
        for o, t in zip(os, r if isinstance(r, (list, tuple)) else [r]):
            d = e * tf.constant(rng.choice([-1.0, 1.0], t.shape), F)
            b = max(3 * ulp, e if op[0] in ("AveragePool", "ReduceMean", "GlobalAveragePool") else 0)
            back = b * tf.constant(rng.choice([-1.0, 1.0], t.shape), F)

            @tf.custom_gradient
            def add(t, d=d, back=back):
                return t + d, lambda dy: dy + back
            v[o] = add(t)
    return [v[o] for o in outs]
