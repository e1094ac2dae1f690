"""Layers of tf_encrypted.keras with float64 references (forward and, through automatic differentiation, backward)."""
import math

import numpy as np

from vlib import tfx
from vlib.tfx import tf, tfe

F64 = tf.float64
ACT = {None: lambda z: z, "linear": lambda z: z, "relu": tf.nn.relu, "sigmoid": tf.sigmoid, "tanh": tf.tanh,
       "softmax": lambda z: tf.nn.softmax(z, axis=-1)}
LINEAR = ("dense", "conv", "depthwise", "avgpool", "gavg", "bn", "flatten", "reshape", "activation")
COMPARING = ("maxpool", "gmax", "relu")
SKIP = [False]  # leave out activations


def A(act, z):
    return z if SKIP[0] else ACT[act](z)


class P:
    """a protocol with its unit of the last place and what it supports"""

    def __init__(self, name, training=False):
        self.name = name
        self.training = training
        if name.startswith("aby3"):
            self.prot = tfx.aby3(name[5:])
            self.ulp = 2.0 ** -self.prot.fixedpoint_config.precision_fractional
        else:
            cls, kind = name.split("-")
            self.prot = tfx.pond(kind, tfx.SecureNN if cls == "snn" else tfx.Pond)
            fx = self.prot.fixedpoint_config
            self.ulp = 1.0 / fx.scaling_factor
        self.aby3 = name.startswith("aby3")
        self.snn = name.startswith("snn")

    def private(self, v):
        return self.prot.define_private_variable(np.asarray(v, dtype=np.float64))

    def acts(self):
        if self.aby3:
            return [None, "linear", "relu", "sigmoid"]
        if self.snn and not self.training:  # the slope of relu needs a comparison operator only ABY3 has
            return [None, "linear", "relu", "sigmoid"]
        return [None, "linear", "sigmoid"]


PROTS = ("aby3-l", "aby3-h", "pond-100", "pond-64", "pond-64ni", "snn-100", "snn-64")


def kinds(p):
    return LINEAR + (COMPARING if p.aby3 else ("gmax", "relu") if p.snn else ())


def act_tol(act, p, t):
    """error of the activation given the error t of its argument"""
    if act == "sigmoid":
        return t + (0.09 if not p.aby3 else 0.045)
    return t + 2 * p.ulp


class Layer:
    def __init__(self, kind, cls, kw, in_shape, wshapes, ref, fan, act=None, back=True, lo=-2.0, hi=2.0):
        self.kind, self.cls, self.kw, self.in_shape, self.wshapes = kind, cls, kw, in_shape, wshapes
        self.ref, self.fan, self.act, self.back, self.lo, self.hi = ref, fan, act, back, lo, hi

    def sig(self):
        return (self.kind, sorted(self.kw.items(), key=str), self.in_shape)

    def make(self, **more):
        return getattr(tfe.keras.layers, self.cls)(**self.kw, **more)

    def weights(self, rng):
        k = 1.0
        if self.act == "sigmoid":  # its polynomial approximation only holds around zero
            k = 2.0 ** min(0, math.floor(math.log2(2.0 / self.fan)))
        return [rng.integers(-32, 33, s) / 16.0 * k for s in self.wshapes]

    def x(self, rng, batch=None, distinct=True):
        s = ((batch,) if batch else (self.in_shape[0],)) + tuple(self.in_shape[1:])
        n = int(np.prod(s))
        v = rng.permutation(np.linspace(self.lo, self.hi, n)) if distinct else rng.uniform(self.lo, self.hi, n)
        return (np.round(v * 64) / 64).reshape(s) if n < 200 else v.reshape(s)

    def forward(self, x, ws):
        return self.ref(tf.constant(x, F64), [tf.constant(w, F64) for w in ws]).numpy()

    def gradients(self, x, ws, dy, y):
        """of sum(dy * layer); y is the output the layer gave, from which it takes the slope of its activation"""
        if self.act == "sigmoid":
            dy = dy * y * (1 - y)
        elif self.act == "relu":
            dy = np.where(y > 0, dy, 0)
        SKIP[0] = True
        try:
            return self._gradients(x, ws, dy)
        finally:
            SKIP[0] = False

    def _gradients(self, x, ws, dy):
        x = tf.constant(x, F64)
        ws = [tf.constant(w, F64) for w in ws]
        with tf.GradientTape(persistent=True) as t:
            t.watch(x)
            for w in ws:
                t.watch(w)
            y = self.ref(x, ws)
            s = tf.reduce_sum(y * tf.constant(dy, F64))
        return [t.gradient(s, w).numpy() for w in ws], t.gradient(s, x).numpy()


def before_activation(la, x, ws):
    SKIP[0] = True
    try:
        return la.forward(x, ws)
    finally:
        SKIP[0] = False


def nhwc(x, df):
    return x if df != "channels_first" else tf.transpose(x, [0, 2, 3, 1])


def back(x, df):
    return x if df != "channels_first" else tf.transpose(x, [0, 3, 1, 2])


def image(rng, df, big=6):
    n, h, w, c = [int(rng.integers(1, 4)), int(rng.integers(3, big + 1)), int(rng.integers(3, big + 1)), int(rng.integers(1, 4))]
    return ((n, c, h, w) if df == "channels_first" else (n, h, w, c)), h, w, c


def form(rng):
    return [None, "channels_last", "channels_first"][int(rng.integers(0, 3))]


def strides(rng, square=False):
    a, b = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    if square or rng.integers(0, 2):
        return [a, (a, a)][int(rng.integers(0, 2))]
    return (a, b)


def pair(s):
    return (s, s) if isinstance(s, int) else tuple(s)


def draw(rng, p, kind, square=False, remainder=True):
    if kind == "dense":
        n, i, o = [int(v) for v in rng.integers(1, 7, 3)]
        act = p.acts()[int(rng.integers(0, len(p.acts())))]
        bias = bool(rng.integers(0, 3))
        kw = dict(units=o)
        if act or rng.integers(0, 2):
            kw["activation"] = act
        if not bias or rng.integers(0, 2):
            kw["use_bias"] = bias

        def ref(x, ws):
            z = tf.matmul(x, ws[0])
            return A(act, z + ws[1] if bias else z)
        lim = 1.0 if act == "sigmoid" else 2.0
        return Layer(kind, "Dense", kw, (n, i), [(i, o)] + ([(o,)] if bias else []), ref, i, act, True, -lim, lim)
    if kind in ("conv", "depthwise"):
        df = form(rng)
        shp, h, w, c = image(rng, df)
        k = int(rng.integers(1, 4))
        s = strides(rng, square)
        pad = ["valid", "same"][int(rng.integers(0, 2))]
        if not remainder and pad == "valid":
            a, b = pair(s)
            h, w = h - (h - k) % a, w - (w - k) % b
            shp = (shp[0], c, h, w) if df == "channels_first" else (shp[0], h, w, c)
        act = p.acts()[int(rng.integers(0, len(p.acts())))]
        bias = bool(rng.integers(0, 3))
        o = int(rng.integers(1, 4))
        kw = dict(kernel_size=[k, (k, k)][int(rng.integers(0, 2))], strides=s, padding=pad, use_bias=bias)
        if df or rng.integers(0, 2):
            kw["data_format"] = df
        if act:
            kw["activation"] = act
        if kind == "conv":
            kw["filters"] = o
        else:
            kw["depth_multiplier"] = o

        def ref(x, ws):
            x = nhwc(x, df)
            if kind == "conv":
                z = tf.nn.conv2d(x, ws[0], pair(s), pad.upper())
            else:
                z = dconv(x, ws[0], pair(s), pad.upper())
            z = z + ws[1] if bias else z
            return back(A(act, z), df)
        n_out = o if kind == "conv" else o * c
        lim = 1.0
        return Layer(kind, "Conv2D" if kind == "conv" else "DepthwiseConv2D", kw, shp, [(k, k, c, o)] + ([(n_out,)] if bias else []),
                     ref, k * k * c, act, kind == "conv", -lim, lim)
    if kind in ("maxpool", "avgpool"):
        df = form(rng)
        shp, h, w, c = image(rng, df)
        ps = strides(rng)
        ph, pw = pair(ps)
        s = None if rng.integers(0, 2) else strides(rng)
        sh, sw = pair(ps) if s is None else pair(s)
        pad = ["valid", "same"][int(rng.integers(0, 2))]
        kw = dict(pool_size=ps, padding=pad)
        if s is not None:
            kw["strides"] = s
        if df:
            kw["data_format"] = df

        def ref(x, ws):
            x = nhwc(x, df)
            if kind == "maxpool":
                z = tf.nn.max_pool2d(x, (ph, pw), (sh, sw), pad.upper())
            else:
                z = tf.nn.avg_pool2d(x, (ph, pw), (sh, sw), pad.upper())
            return back(z, df)
        return Layer(kind, "MaxPooling2D" if kind == "maxpool" else "AveragePooling2D", kw, shp, [], ref, ph * pw)
    if kind in ("gmax", "gavg"):
        df = form(rng)
        shp, h, w, c = image(rng, df, 5)
        keep = bool(rng.integers(0, 3) == 0)
        kw = {}
        if keep:
            kw["keepdims"] = True
        if df:
            kw["data_format"] = df

        def ref(x, ws):
            ax = [2, 3] if df == "channels_first" else [1, 2]
            f = tf.reduce_max if kind == "gmax" else tf.reduce_mean
            return f(x, axis=ax, keepdims=keep)
        return Layer(kind, "GlobalMaxPooling2D" if kind == "gmax" else "GlobalAveragePooling2D", kw, shp, [], ref, h * w)
    if kind == "bn":
        rank2 = bool(rng.integers(0, 3) == 0)
        if rank2:
            shp, axis = (int(rng.integers(1, 5)), int(rng.integers(1, 6))), 1
        else:
            axis = int(rng.choice([1, 3]))
            shp = tuple(int(v) for v in rng.integers(1, 5, 4))
        center, scale = bool(rng.integers(0, 3)), bool(rng.integers(0, 3))
        eps = float(rng.choice([1e-3, 1e-2, 0.1]))
        kw = dict(axis=[axis] if rng.integers(0, 4) == 0 else axis, center=center, scale=scale, epsilon=eps)
        b = [1] * len(shp)
        b[axis] = shp[axis]

        def ref(x, ws):
            ws = [tf.reshape(w, b) for w in ws]
            y = (x - ws[-2]) / tf.sqrt(ws[-1] + eps)
            if scale:
                y = y * ws[0]
            return y + ws[int(scale)] if center else y
        c = (shp[axis],)
        la = Layer(kind, "BatchNormalization", kw, shp, [c] * (2 + int(center) + int(scale)), ref, 1, None, False)
        base = la.weights

        def weights(r):
            ws = base(r)
            ws[-1] = r.integers(8, 65, c) / 16.0  # variance
            return ws
        la.weights = weights
        return la
    if kind == "activation":
        acts = [a for a in p.acts() if a]
        act = acts[int(rng.integers(0, len(acts)))]
        shp = tuple(int(v) for v in rng.integers(1, 5, int(rng.integers(1, 5))))
        return Layer(kind, "Activation", dict(activation=act), shp, [], lambda x, ws: A(act, x), 1, act)
    if kind == "relu":
        shp = tuple(int(v) for v in rng.integers(1, 5, int(rng.integers(1, 5))))
        return Layer(kind, "ReLU", {}, shp, [], lambda x, ws: tf.nn.relu(x), 1)
    if kind == "flatten":
        shp = tuple(int(v) for v in rng.integers(1, 5, int(rng.integers(1, 6))))
        df = form(rng)
        kw = {"data_format": df} if df else {}

        def ref(x, ws):
            r = len(shp)
            if df == "channels_first" and r > 1:
                x = tf.transpose(x, [0] + list(range(2, r)) + [1])
            return tf.reshape(x, [x.shape[0], -1])
        return Layer(kind, "Flatten", kw, shp, [], ref, 1)
    if kind == "reshape":
        shp = tuple(int(v) for v in rng.integers(1, 5, int(rng.integers(2, 5))))
        d = [v for v in rng.permutation(list(shp[1:]) + [1])]
        if rng.integers(0, 2):
            k = int(rng.integers(0, len(d)))
            d = d[:k] + [int(np.prod(d[k:]))]
        d = [int(v) for v in d]
        if rng.integers(0, 2):
            d[int(rng.integers(0, len(d)))] = -1
        kw = dict(target_shape=tuple(d) if rng.integers(0, 2) else list(d))
        return Layer(kind, "Reshape", kw, shp, [], lambda x, ws: tf.reshape(x, [x.shape[0]] + d), 1)
    raise ValueError(kind)


def dconv(x, k, s, pad):
    """depthwise convolution with any pair of strides: one convolution per channel"""
    out = []
    for i in range(k.shape[2]):
        out.append(tf.nn.conv2d(x[..., i:i + 1], k[:, :, i:i + 1, :], s, pad))
    return tf.concat(out, axis=-1)


def tolerance(la, p, x, ws):
    m = max([1.0] + [float(np.max(np.abs(w))) for w in ws])
    t = p.ulp * (3 + la.fan * (float(np.max(np.abs(x))) + m) * 0.6)
    if la.kind == "bn":
        t = p.ulp * 30 * m * m
    return act_tol(la.act, p, t)
