"""Generators for the native kernels (128-bit and bit operations) with integer references.

Each generator returns K(name, inputs, call, ref, exact): inputs are Python-int object arrays
with their tensor type ("i128", "int8".."int64", "float64"), call maps tensors to a tensor,
ref maps the object arrays to the expected object array."""
import numpy as np

from vlib import tfx
from vlib.aby3ops import ints, pick, shape, bcast

tf = tfx.tf


class K:
    def __init__(self, name, ins, call, ref, out="i128", params=(), tol=None):
        self.name, self.ins, self.call, self.ref, self.out, self.params, self.tol = name, ins, call, ref, out, params, tol

    def sig(self):
        return (self.name, str(self.params)) + tuple((t, np.shape(v)) for t, v in self.ins)


def lib():
    from tf_encrypted.operations import tf_i128 as m
    from tf_encrypted.operations.tf_i128 import tf_i128 as mm
    return mm


def tensor(t, v):
    v = np.asarray(v, dtype=object)
    if t == "i128":
        return tf.constant(tfx.limbs(v), tf.int64)
    if t == "float64":
        return tf.constant(np.asarray(v, dtype=np.float64))
    return tf.constant(np.asarray(v, dtype=object).astype(getattr(np, t)), getattr(tf, t))


def value(t, x):
    v = x.numpy()
    if t == "i128":
        return np.asarray(tfx.big(v), dtype=object)
    if t == "bool":
        return v
    return np.asarray(v.astype(object), dtype=object)


def S(v, nb=128):
    return tfx.signed(v, nb)


def u(v, nb):
    return np.asarray(np.frompyfunc(lambda a: int(a) % (1 << nb), 1, 1)(np.asarray(v, dtype=object)), dtype=object)


def fmap(f, v):
    return np.asarray(np.frompyfunc(f, 1, 1)(np.asarray(v, dtype=object)), dtype=object)


def fmap2(f, a, b):
    return np.asarray(np.frompyfunc(f, 2, 1)(np.asarray(a, dtype=object), np.asarray(b, dtype=object)), dtype=object)


def shp(rng, lo=0, hi=6):
    s = shape(rng, int(rng.integers(lo, hi)), 1, 5)
    if rng.integers(0, 8) == 0 and 1 <= len(s) <= 2:
        s = (int(rng.integers(20, 300)),) + s[1:]
    return s


def val(rng, s, nb=128):
    return np.asarray(ints(rng, s, nb), dtype=object)


def k_bin(rng):
    s = shp(rng)
    b = bcast(rng, s)
    a, b = (s, b) if rng.integers(0, 2) else (b, s)
    if rng.integers(0, 6) == 0 and len(s) >= 2:  # both sides broadcast
        i = int(rng.integers(0, len(s) - 1))
        a = tuple(1 if k == i else d for k, d in enumerate(s))
        b = tuple(1 if k == len(s) - 1 else d for k, d in enumerate(s))
    op = pick(rng, ["add", "sub", "mul"])
    f = {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y}[op]
    return K("i128_" + op, [("i128", val(rng, a)), ("i128", val(rng, b))], lambda x, y: getattr(lib(), op)(x, y),
             lambda x, y: S(f(x, y)))


def k_neg(rng):
    return K("i128_negate", [("i128", val(rng, shp(rng)))], lambda x: lib().negate(x), lambda x: S(-x))


def k_abs(rng):
    return K("i128_abs", [("i128", val(rng, shp(rng)))], lambda x: lib().i128_abs(x), lambda x: S(abs(x)))


def k_rev(rng):
    return K("i128_bit_reverse", [("i128", val(rng, shp(rng)))], lambda x: lib().i128_bit_reverse(x),
             lambda x: S(fmap(lambda v: int(format(v, "0128b")[::-1], 2), u(x, 128))))


def _xi(v):
    r = 0
    d = 0
    while v:
        if v & 1:
            r ^= d
        v >>= 1
        d += 1
    return r


def k_xori(rng):
    x = val(rng, shp(rng))
    if rng.integers(0, 2):
        x = fmap(lambda v: 1 << (int(v) % 128), x)
    return K("i128_xor_indices", [("i128", S(x))], lambda x: lib().i128_xor_indices(x), lambda x: fmap(_xi, u(x, 128)))


def k_shift(rng):
    op = pick(rng, ["left_shift", "right_shift", "logic_right_shift"])
    x = val(rng, shp(rng))

    def one(v, n):
        n = int(n)
        v = int(v)
        if op == "left_shift":
            return v << n
        if op == "right_shift":
            return v >> n
        return (v % (1 << 128)) >> n
    form = int(rng.integers(0, 3))
    if form < 2:
        n = int(pick(rng, [0, 1, 31, 32, 63, 64, 65, 100, 126, 127, int(rng.integers(0, 128))]))
        return K("i128_" + op, [("i128", x)], lambda x: getattr(lib(), op)(x, n), lambda x: S(fmap(lambda v: one(v, n), x)), params=n)
    b = bcast(rng, np.shape(x))
    n = np.asarray(rng.integers(0, 128, size=b)).astype(object)
    return K("i128_" + op + ":tensor", [("i128", x), ("int64", n)], lambda x, n: getattr(lib(), op)(x, n),
             lambda x, n: S(fmap2(one, x, n)))


def k_equal(rng):
    s = shp(rng)
    x = val(rng, s)
    form = int(rng.integers(0, 3))
    if form == 0:
        y = x.copy()
        m = np.asarray(rng.integers(0, 2, size=s)).astype(bool)
        y = np.asarray(np.where(m, y, val(rng, s)), dtype=object)
        # differ in one limb only
        y = S(np.asarray(np.where(rng.integers(0, 3, size=s) == 0, x + (1 << int(rng.integers(0, 128))), y), dtype=object))
    else:
        y = np.asarray(x.ravel()[0] if x.size else 0, dtype=object)
        if form == 2 and len(s):
            y = y.reshape((1,) * int(rng.integers(0, len(s))))
        if rng.integers(0, 2):
            x, y = y, x
    return K("i128_equal", [("i128", x), ("i128", y)], lambda x, y: lib().equal(x, y),
             lambda x, y: np.asarray(x == y, dtype=bool), out="bool")


def k_matmul(rng):
    hi = int(pick(rng, [4, 4, 9, 30]))
    m, k, n = (int(rng.integers(1, hi + 1)) for _ in range(3))
    return K("i128_matmul", [("i128", val(rng, (m, k))), ("i128", val(rng, (k, n)))], lambda x, y: lib().matmul(x, y),
             lambda x, y: S(np.asarray(x.dot(y), dtype=object)))


def k_rsum(rng):
    s = shp(rng, 1, 7)
    axes = sorted(set(int(a) for a in rng.integers(0, len(s), size=int(rng.integers(1, len(s) + 1)))))
    kd = bool(rng.integers(0, 2))
    ax = pick(rng, [axes, axes[0], None])
    axn = tuple(ax) if isinstance(ax, list) else ax
    return K("i128_reduce_sum", [("i128", val(rng, s))], lambda x: lib().reduce_sum(x, axis=ax, keepdims=kd),
             lambda x: S(np.asarray(np.sum(x, axis=axn, keepdims=kd), dtype=object)), params=(ax, kd))


def k_to(rng):
    s = shp(rng)
    form = int(rng.integers(0, 3))
    if form == 0:  # integers of every width
        t = pick(rng, ["int8", "int16", "int32", "int64"])
        return K("to_i128:" + t, [(t, val(rng, s, int(t[3:])))], lambda x: lib().to_i128(x), lambda x: x)
    sc = int(pick(rng, [1, 2, 1 << 16, 1 << 32]))
    # exactly representable halves etc.: truncation towards zero of x*scale
    num = val(rng, s, int(pick(rng, [20, 53])))
    e = int(pick(rng, [0, 0, 3, 30]))
    x = fmap(lambda v: float(v) / (1 << e), num)

    def ref(x):
        from fractions import Fraction
        return fmap(lambda v: int(Fraction(v) * sc) if v >= 0 else -int(-Fraction(v) * sc), x)
    return K("to_i128:float", [("float64", x)], lambda x: lib().to_i128(x, sc), ref, params=(sc, e))


def k_from(rng):
    sc = int(pick(rng, [1, 2, 1 << 16, 1 << 32]))
    x = val(rng, shp(rng), int(pick(rng, [53, 90, 128])))
    return K("from_i128", [("i128", x)], lambda x: lib().from_i128(x, sc), lambda x: fmap(lambda v: float(int(v) / sc), x),
             out="float64", params=sc, tol=2.0 ** -51)


def _gather(nb, start, stride):
    def f(v):
        r = 0
        for i, d in enumerate(range(start, nb, stride)):
            if (v >> d) & 1:
                r |= 1 << i
        return r
    return f


def k_gather(rng):
    t = pick(rng, ["i128", "i128", "int8", "int16", "int32", "int64"])
    nb = 128 if t == "i128" else int(t[3:])
    stride = int(pick(rng, [1, 2, 2, 3, 4, 8, nb // 2]))
    start = int(pick(rng, [0, 1, 0, 1, int(rng.integers(0, nb)), nb - 1]))
    f = _gather(nb, start, stride)

    def call(x):
        if t == "i128":
            return lib().i128_bit_gather(x, start, stride)
        from tf_encrypted.operations import aux
        return aux.bit_gather(x, start, stride)
    return K("bit_gather:" + t, [(t, val(rng, shp(rng), nb))], call, lambda x: S(fmap(f, u(x, nb)), nb), out=t, params=(start, stride))


def k_split(rng):
    t = pick(rng, ["i128", "i128", "int8", "int16", "int32", "int64"])
    nb = 128 if t == "i128" else int(t[3:])
    stride = int(pick(rng, [1, 2, 2, 4, 8]))

    def call(x):
        if t == "i128":
            return lib().i128_bit_split_and_gather(x, stride)
        from tf_encrypted.operations import aux
        return aux.bit_split_and_gather(x, stride)

    def ref(x):
        return np.stack([S(fmap(_gather(nb, k, stride), u(x, nb)), nb) for k in range(stride)])
    s = shp(rng, 0, 5)
    if rng.integers(0, 6) == 0:
        s = (int(rng.integers(500, 3000)),)
    return K("bit_split_and_gather:" + t, [(t, val(rng, s, nb))], call, ref, out=t, params=stride)


def k_aux(rng):
    from tf_encrypted.operations import aux
    x = val(rng, shp(rng), 64)
    if rng.integers(0, 2):
        return K("bit_reverse", [("int64", x)], lambda x: aux.bit_reverse(x),
                 lambda x: S(fmap(lambda v: int(format(v, "064b")[::-1], 2), u(x, 64)), 64), out="int64")
    return K("xor_indices", [("int64", x)], lambda x: aux.xor_indices(x), lambda x: fmap(_xi, u(x, 64)), out="int64")


ALL = [k_bin, k_bin, k_neg, k_abs, k_rev, k_xori, k_shift, k_equal, k_matmul, k_rsum, k_to, k_from, k_gather, k_split, k_aux]


def run(ctx, k, graph):
    xs = [tensor(t, v) for t, v in k.ins]
    ctx.seen(*k.sig(), graph)
    ctx.event("kernel:" + k.name)
    if graph:
        g = tf.function(k.call, autograph=False)
        cf = g.get_concrete_function(*[tf.TensorSpec(x.shape, x.dtype) for x in xs])
        out = cf(*xs)
        ctx.event("static_shapes_checked")
        st = cf.outputs[0].shape
        ctx.expect(st.is_compatible_with(out.shape), "static-shape:" + k.name,
                   lambda: "inferred %s, produced %s for %s" % (st, out.shape, k.sig()))
    else:
        out = k.call(*xs)
    want = np.asarray(k.ref(*[np.asarray(v, dtype=object) for _, v in k.ins]))
    got = value(k.out, out)
    if k.tol is not None:
        w = want.astype(np.float64)
        ctx.close(got.astype(np.float64), w, np.abs(w) * k.tol, "value:" + k.name, str(k.sig()))
    else:
        ctx.equal(got, want, "value:" + k.name, str(k.sig()))
    for x, (t, v) in zip(xs, k.ins):
        if t != "float64" and not np.array_equal(np.asarray(value(t, x)), np.asarray(v, dtype=object)):
            ctx.violate("input-changed:" + k.name, str(k.sig()))
