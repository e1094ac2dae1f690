"""Tensor factories with an exact integer reference: every operation of a ring tensor is
compared with the same operation on Python integers modulo the factory's modulus."""
import numpy as np

from vlib import tfx
from vlib.aby3ops import bcast, ints, pick, shape
from vlib.tfx import T, tf

KINDS = ["int8", "int16", "int32", "int64", "int100", "int128", "bool", "prime32", "prime64"]


def prime():
    from tf_encrypted.tensor.native import native_factory
    return native_factory


_f = {}


def factory(kind):
    if kind not in _f:
        if kind == "prime32":
            _f[kind] = prime()(tf.int32, 37)
        elif kind == "prime64":
            _f[kind] = prime()(tf.int64, 1000003)
        else:
            _f[kind] = {"int8": T.int8factory, "int16": T.int16factory, "int32": T.int32factory, "int64": T.int64factory,
                        "int100": T.int100factory, "int128": T.int128factory, "bool": T.int1factory}[kind]
    return _f[kind]


M100 = 1
for _m in tfx.MODULI100:
    M100 *= _m
MOD = {"int8": 2 ** 8, "int16": 2 ** 16, "int32": 2 ** 32, "int64": 2 ** 64, "int100": M100, "int128": 2 ** 128,
       "bool": 2, "prime32": 37, "prime64": 1000003}
DT = {"int8": "int8", "int16": "int16", "int32": "int32", "int64": "int64", "prime32": "int32", "prime64": "int64"}


def obj(v):
    return np.asarray(v, dtype=object)


def mod(kind, v):
    m = MOD[kind]
    return obj(np.frompyfunc(lambda a: int(a) % m, 1, 1)(obj(v)))


def signed(kind, v):
    m = MOD[kind]
    return obj(np.frompyfunc(lambda a: (int(a) % m) if (int(a) % m) < (m + 1) // 2 else (int(a) % m) - m, 1, 1)(obj(v)))


def draw(rng, kind, s):
    nb = {"bool": 1, "prime32": 6, "prime64": 31, "int100": 101}.get(kind) or int(kind[3:])
    if kind == "bool":
        return obj(np.asarray(rng.integers(0, 2, size=s)).astype(object))
    return mod(kind, ints(rng, s, nb + 1))


def make(kind, v):
    """a tensor of the factory holding the ring elements v (built without the factory's encoder where it has none)"""
    f = factory(kind)
    v = obj(v)
    if kind == "int100":
        return f.tensor([tf.constant(obj(v % m).astype(np.int32), tf.int32) for m in tfx.MODULI100], encode=False)
    if kind == "int128":
        return f.tensor(tf.constant(tfx.limbs(v), tf.int64), encode=False)
    if kind == "bool":
        return f.tensor(tf.constant(np.asarray(v).astype(bool)))
    if kind.startswith("prime"):
        return f.tensor(tf.constant(np.asarray(v).astype(DT[kind])))
    return f.tensor(tf.constant(np.asarray(signed(kind, v)).astype(DT[kind])))


def read(kind, t):
    if kind == "int100":
        return tfx.crt(t)
    v = tfx.native(t)
    if kind == "int128":
        return mod(kind, tfx.big(v))
    if kind == "bool":
        return obj(v.astype(int).astype(object))
    return mod(kind, v.astype(object))


class Case:
    def __init__(self, name, ins, f, ref, params=(), out=None, raw=None):
        self.name, self.ins, self.f, self.ref, self.params, self.out, self.raw = name, ins, f, ref, params, out, raw


NUM = ["int8", "int16", "int32", "int64", "int100", "int128", "prime32", "prime64"]
NAT = ["int8", "int16", "int32", "int64"]
WORD = NAT + ["int128"]


def _axis(rng, r):
    return int(rng.integers(0, r))


def g_bin(rng, k):
    s = shape(rng, int(rng.integers(0, 5)))
    a, b = draw(rng, k, s), draw(rng, k, bcast(rng, s))
    if rng.integers(0, 2):
        a, b = b, a
    op = pick(rng, ["add", "sub", "mul"])
    f = {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y}[op]
    form = int(rng.integers(0, 2))
    return Case(op, [a, b], (lambda x, y: f(x, y)) if form else (lambda x, y: getattr(x, op)(y)), f, params=(form,))


def g_binint(rng, k):
    s = shape(rng, int(rng.integers(1, 4)))
    a = draw(rng, k, s)
    hi = {"int8": 100, "prime32": 36}.get(k, 1000)
    n = int(rng.integers(-hi if k not in ("prime32", "prime64") else 0, hi))
    op = pick(rng, ["x+n", "n+x", "x-n", "n-x", "x*n", "n*x"])
    f = {"x+n": lambda x: x + n, "n+x": lambda x: n + x, "x-n": lambda x: x - n, "n-x": lambda x: n - x,
         "x*n": lambda x: x * n, "n*x": lambda x: n * x}[op]
    return Case("int:" + op, [a], f, f, params=(n,))


def g_neg(rng, k):
    a = draw(rng, k, shape(rng))
    return Case("negative", [a], lambda x: x.negative(), lambda x: -x)


def g_matmul(rng, k):
    n, m, p = (int(v) for v in rng.integers(1, 6, size=3))
    if k == "int100" and rng.integers(0, 6) == 0:
        m = int(pick(rng, [1023, 1024, 1025, 2049, 3000]))
        n = p = 1
    return Case("matmul", [draw(rng, k, (n, m)), draw(rng, k, (m, p))], lambda x, y: x.matmul(y),
                lambda x, y: obj(x.dot(y)), params=(m > 1000,))


def g_sum(rng, k):
    s = shape(rng, int(rng.integers(1, 5)))
    ax = pick(rng, [_axis(rng, len(s)), -1, None if k != "int128" else 0])
    kd = pick(rng, [True, False])
    return Case("reduce_sum", [draw(rng, k, s)], lambda x: x.reduce_sum(ax, kd),
                lambda x: obj(np.sum(x, axis=ax, keepdims=kd)), params=(ax, kd))


def g_cumsum(rng, k):
    s = shape(rng, int(rng.integers(1, 4)))
    ax, ex, rv = _axis(rng, len(s)), bool(rng.integers(0, 2)), bool(rng.integers(0, 2))

    def ref(x):
        if rv:
            x = np.flip(x, ax)
        c = np.cumsum(x, axis=ax)
        if ex:
            c = c - x
        return obj(np.flip(c, ax) if rv else c)
    return Case("cumsum", [draw(rng, k, s)], lambda x: x.cumsum(ax, ex, rv), ref, params=(ax, ex, rv))


def g_equal(rng, k):
    s = shape(rng, int(rng.integers(0, 4)))
    a = draw(rng, k, s)
    b = obj(np.where(np.asarray(rng.integers(0, 2, size=s)).astype(bool), a, draw(rng, k, s)))
    ref = lambda x, y: obj(np.asarray(x == y).astype(int).astype(object))
    if k == "int128":
        return Case("equal", [a, b], lambda x, y: x.equal(y), ref, raw=True)
    return Case("equal", [a, b], lambda x, y: x.equal(y), ref)


def g_zero(rng, k):
    a = obj(draw(rng, k, shape(rng)) * np.asarray(rng.integers(0, 2, size=1)).astype(object)[0])
    a = obj(np.where(np.asarray(rng.integers(0, 2, size=a.shape)).astype(bool), a, 0))
    return Case("equal_zero", [a], lambda x: x.equal_zero(), lambda x: obj(np.asarray(x == 0).astype(int).astype(object)))


def g_shape(rng, k):
    s = shape(rng, int(rng.integers(1, 5)))
    a = draw(rng, k, s)
    r = len(s)
    ops = ["reshape", "transpose", "expand_dims", "squeeze", "slice", "gather", "split", "stack", "concat", "identity", "neg1"]
    op = pick(rng, ops)
    if op == "reshape":
        return Case(op, [a], lambda x: x.reshape([-1]), lambda x: x.reshape(-1))
    if op == "neg1":
        t = list(s)
        t[_axis(rng, r)] = -1
        return Case("reshape-1", [a], lambda x: x.reshape(t), lambda x: x.reshape(s))
    if op == "transpose":
        p = [int(v) for v in rng.permutation(r)]
        return Case(op, [a], lambda x: x.transpose(p), lambda x: x.transpose(p), params=tuple(p))
    if op == "expand_dims":
        ax = int(rng.integers(0, r + 1)) if rng.integers(0, 3) else -1
        return Case(op, [a], lambda x: x.expand_dims(ax), lambda x: np.expand_dims(x, ax), params=(ax,))
    if op == "squeeze":
        i = _axis(rng, r)
        t = list(s)
        t[i] = 1
        a = draw(rng, k, tuple(t))
        return Case(op, [a], lambda x: x.squeeze([i]), lambda x: np.squeeze(x, i), params=(i,))
    if op == "slice":
        sl = []
        for d in s:
            form = int(rng.integers(0, 4))
            sl.append([slice(None), slice(0, max(1, d - 1)), slice(None, None, 2), slice(d - 1, d)][form])
        sl = tuple(sl[:int(rng.integers(1, r + 1))])
        return Case(op, [a], lambda x: x[sl], lambda x: x[sl], params=str(sl))
    if op == "gather":
        ax = _axis(rng, r)
        ix = [int(v) for v in rng.integers(0, s[ax], size=int(rng.integers(1, 5)))]
        return Case(op, [a], lambda x: x.gather(ix, axis=ax), lambda x: np.take(x, ix, axis=ax), params=(ax,))
    if op == "split":
        ax = _axis(rng, r)
        a = obj(np.concatenate([a, draw(rng, k, s)], axis=ax))
        j = int(rng.integers(0, 2))
        return Case(op, [a], lambda x: x.split(2, axis=ax)[j], lambda x: np.split(x, 2, axis=ax)[j], params=(ax, j))
    if op == "stack":
        ax = int(rng.integers(0, r + 1))
        return Case(op, [a, draw(rng, k, s)], lambda x, y: factory(k).stack([x, y], axis=ax), lambda x, y: np.stack([x, y], ax), params=(ax,))
    if op == "concat":
        ax = _axis(rng, r)
        return Case(op, [a, draw(rng, k, s)], lambda x, y: factory(k).concat([x, y], axis=ax), lambda x, y: np.concatenate([x, y], ax), params=(ax,))
    return Case(op, [a], lambda x: x.identity(), lambda x: x)


def g_bitwise(rng, k):
    s = shape(rng, int(rng.integers(0, 4)))
    a, b = draw(rng, k, s), draw(rng, k, bcast(rng, s))
    op = pick(rng, ["xor", "and", "or", "not"])
    if op == "not":
        return Case(op, [a], lambda x: ~x, lambda x: -1 - x)
    f = {"xor": lambda x, y: x ^ y, "and": lambda x, y: x & y, "or": lambda x, y: x | y}[op]
    return Case(op, [a, b], f, f)


def g_shift(rng, k):
    s = shape(rng, int(rng.integers(0, 4)))
    a = draw(rng, k, s)
    nb = int(k[3:])
    n = int(pick(rng, [0, 1, nb - 1, nb // 2, int(rng.integers(0, nb))]))
    op = pick(rng, ["<<", ">>", "logical", "truncate"])
    sg = lambda x: signed(k, x)
    if op == "<<":
        return Case(op, [a], lambda x: x << n, lambda x: x << n, params=(n,))
    if op == "logical":
        return Case(op, [a], lambda x: x.logical_rshift(n), lambda x: mod(k, x) >> n, params=(n,))
    if op == "truncate" and k != "int128":
        return Case(op, [a], lambda x: x.truncate(n), lambda x: sg(x) >> n, params=(n,))
    return Case(">>", [a], lambda x: x >> n, lambda x: sg(x) >> n, params=(n,))


def g_trunc100(rng, k):
    """int100: reduction and truncation of the signed representative (away from the wrap-around point)"""
    s = shape(rng, int(rng.integers(0, 4)))
    a = mod(k, ints(rng, s, 98))
    n = int(rng.integers(1, 17))
    op = pick(rng, ["mod", "truncate", "right_shift", "to_native"])
    sg = lambda x: signed(k, x)
    if op == "mod":
        q = int(pick(rng, [2, 3, 10, 1 << n, 65537]))
        return Case(op, [a], lambda x: x % q, lambda x: sg(x) % q, params=(q,))
    if op == "to_native":
        a = mod(k, ints(rng, s, 32))
        return Case(op, [a], lambda x: x.to_native(), lambda x: sg(x), raw=True)
    return Case(op, [a], (lambda x: x.truncate(n)) if op == "truncate" else (lambda x: x.right_shift(n)), lambda x: sg(x) >> n, params=(n,))


def g_bits(rng, k):
    s = shape(rng, int(rng.integers(0, 3)))
    a = draw(rng, k, s)
    if k == "int100":
        pos = bool(rng.integers(0, 2))
        nb = 103
        nb = (M100 - 1).bit_length()
        if not pos:
            a = mod(k, ints(rng, s, 98))
        v = (lambda x: x) if pos else (lambda x: signed(k, x))
        return Case("bits", [a], lambda x: x.bits(ensure_positive_interpretation=pos) if pos else x.bits(),
                    lambda x: obj(np.stack([(v(x) >> i) & 1 for i in range(nb)], -1)), params=(pos,))
    if k.startswith("prime"):
        nb = (MOD[k] - 1).bit_length()
        return Case("bits", [a], lambda x: x.bits(), lambda x: obj(np.stack([(x >> i) & 1 for i in range(nb)], -1)))
    nb = int(k[3:])
    n = pick(rng, [None, int(rng.integers(1, nb + 1))])
    return Case("bits", [a], lambda x: x.bits(bitsize=n) if n else x.bits(),
                lambda x: obj(np.stack([(signed(k, x) >> i) & 1 for i in range(n or nb)], -1)), params=(n,))


def g_conv(rng, k):
    n, c, o = (int(v) for v in rng.integers(1, 3, size=3))
    h, w = (int(v) for v in rng.integers(3, 7, size=2))
    fh, fw = (int(v) for v in rng.integers(1, 4, size=2))
    st = [int(v) for v in rng.integers(1, 4, size=2)]
    pad = pick(rng, ["SAME", "VALID"])
    return Case("conv2d", [draw(rng, k, (n, c, h, w)), draw(rng, k, (fh, fw, c, o))],
                lambda x, y: x.conv2d(y, st, pad), lambda x, y: conv_ref(x, y, st, pad), params=(tuple(st), pad, fh, fw))


def conv_ref(x, y, st, pad, fmt="NCHW"):
    """plain convolution on object or float arrays; x NCHW, y HWIO"""
    n, c, h, w = x.shape
    fh, fw, ci, o = y.shape
    if pad == "SAME":
        oh, ow = -(-h // st[0]), -(-w // st[1])
        ph, pw = max((oh - 1) * st[0] + fh - h, 0), max((ow - 1) * st[1] + fw - w, 0)
        z = np.zeros((n, c, h + ph, w + pw), dtype=x.dtype)
        z[:, :, ph // 2:ph // 2 + h, pw // 2:pw // 2 + w] = x
        x = z
    else:
        oh, ow = (h - fh) // st[0] + 1, (w - fw) // st[1] + 1
    out = np.zeros((n, o, oh, ow), dtype=x.dtype)
    for i in range(oh):
        for j in range(ow):
            p = x[:, :, i * st[0]:i * st[0] + fh, j * st[1]:j * st[1] + fw]
            for q in range(o):
                out[:, q, i, j] = (p * y[:, :, :, q].transpose(2, 0, 1)[None]).sum(axis=(1, 2, 3))
    return out


def g_var(rng, k):
    """a history of assignments and reads"""
    s = shape(rng, int(rng.integers(0, 3)))
    vals = [draw(rng, k, s) for _ in range(3)]
    n = int(rng.integers(1, 3))

    def f(a, b, c):
        v = factory(k).variable(a)
        for t in (b, c)[:n]:
            v.assign(t)
        return v.read_value()
    return Case("variable", vals, f, lambda a, b, c: (a, b, c)[n], params=(n,))


def g_where(rng, k):
    s = shape(rng, int(rng.integers(1, 4)))
    c = np.asarray(rng.integers(0, 2, size=s)).astype(bool)
    return Case("where", [draw(rng, k, s), draw(rng, k, s)], lambda x, y: factory(k).where(tf.constant(c), x, y),
                lambda x, y: obj(np.where(c, x, y)))


def g_fill(rng, k):
    s = shape(rng, int(rng.integers(1, 4)))
    a = draw(rng, k, s)
    op = pick(rng, ["ones_like", "zeros_like", "tile", "pad", "reverse"])
    if op == "ones_like":
        return Case(op, [a], lambda x: factory(k).ones_like(x), lambda x: obj(np.ones(s, dtype=object)))
    if op == "zeros_like":
        return Case(op, [a], lambda x: factory(k).zeros_like(x), lambda x: obj(np.zeros(s, dtype=object)))
    if op == "tile":
        m = [int(v) for v in rng.integers(1, 4, size=len(s))]
        return Case(op, [a], lambda x: factory(k).tile(x, m), lambda x: np.tile(x, m), params=tuple(m))
    if op == "pad":
        p = [[int(v) for v in rng.integers(0, 3, size=2)] for _ in s]
        return Case(op, [a], lambda x: factory(k).pad(x, p), lambda x: np.pad(x, p, constant_values=0), params=str(p))
    ax = _axis(rng, len(s))
    return Case(op, [a], lambda x: x.reverse([ax]), lambda x: np.flip(x, ax), params=(ax,))


def g_patches(rng, k):
    """im2patches and its adjoint patches2im (sum of overlapping patches)"""
    n, c = (int(v) for v in rng.integers(1, 3, size=2))
    h, w = (int(v) for v in rng.integers(3, 7, size=2))
    ps = tuple(int(v) for v in rng.integers(1, 4, size=2))
    st = [int(v) for v in rng.integers(1, 4, size=2)]
    pad = pick(rng, ["SAME", "VALID"])
    fmt = pick(rng, ["NCHW", "NHWC"])
    a = draw(rng, k, (n, c, h, w) if fmt == "NCHW" else (n, h, w, c))

    def ext(x):
        y = x if fmt == "NHWC" else x.transpose(0, 2, 3, 1)
        if pad == "SAME":
            oh, ow = -(-h // st[0]), -(-w // st[1])
            ph, pw = max((oh - 1) * st[0] + ps[0] - h, 0), max((ow - 1) * st[1] + ps[1] - w, 0)
            z = np.zeros((n, h + ph, w + pw, c), dtype=object)
            z[:, ph // 2:ph // 2 + h, pw // 2:pw // 2 + w] = y
        else:
            oh, ow = (h - ps[0]) // st[0] + 1, (w - ps[1]) // st[1] + 1
            z = y
        out = np.zeros((n, oh, ow, ps[0] * ps[1] * c), dtype=object)
        for i in range(oh):
            for j in range(ow):
                out[:, i, j] = z[:, i * st[0]:i * st[0] + ps[0], j * st[1]:j * st[1] + ps[1]].reshape(n, -1)
        return out if fmt == "NHWC" else out.transpose(0, 3, 1, 2)
    return Case("im2patches", [a], lambda x: x.im2patches(ps, st, pad, data_format=fmt), ext, params=(ps, tuple(st), pad, fmt))


def run(ctx, k, g):
    c = globals()[g](ctx.rng, k)
    ins = [make(k, v) for v in c.ins]
    ctx.seen(k, c.name, tuple(np.shape(v) for v in c.ins), str(c.params))
    ctx.event("ring:" + k)
    out = c.f(*ins)
    want = obj(c.ref(*[obj(v) for v in c.ins]))
    if c.raw:
        v = out.value if hasattr(out, "value") else out
        got = np.asarray(v.numpy()).astype(int).astype(object)
        ctx.equal(obj(got), want, "%s:%s" % (c.name, k), str(c.params))
    else:
        ctx.equal(read(k, out), mod(k, want), "%s:%s" % (c.name, k), "shapes %s params %s" % ([np.shape(v) for v in c.ins], c.params))
        ctx.expect(tuple(out.shape) == np.shape(want), "shape:%s:%s" % (c.name, k), lambda: "%s vs %s" % (out.shape, np.shape(want)))
    for t, v in zip(ins, c.ins):
        if not np.array_equal(read(k, t), mod(k, v)):
            ctx.violate("operand-changed:%s:%s" % (c.name, k), str(c.params))


# ---------------------------------------------------------------- samplers
def samples(ctx, k):
    """range, spread over the ring, determinism by seed, freshness without"""
    from tf_encrypted.operations import secure_random as sr
    f = factory(k)
    rng = ctx.rng
    for s in ([], [3], [2, 3], [1, 4, 2]):
        for fn, det in ((lambda: f.sample_uniform(s), False), (lambda: f.sample_seeded_uniform(s, seed), True)):
            if fn is None:
                continue
            seed = sr.secure_seed()
            t = fn()
            ctx.seen("sample", k, len(s), det)
            ctx.event("samples_checked", max(1, int(np.prod(s))))
            v = read(k, t)
            ctx.expect(v.shape == tuple(s), "sample-shape:" + k, str(v.shape))
            if k.startswith("prime"):
                raw = tfx.native(t)
                ctx.expect((raw >= 0).all() and (raw < MOD[k]).all(), "sample-range:" + k, lambda: str(raw))
            if k == "int100":
                for b, m in zip(t.backing, tfx.MODULI100):
                    r = b.numpy()
                    ctx.expect((r >= 0).all() and (r < m).all(), "sample-range:" + k, lambda: "%s not below %d" % (r, m))
            if det:
                ctx.equal(read(k, f.sample_seeded_uniform(s, seed)), v, "sample-seeded-differs:" + k)
    n = 6000
    for det in (False, True):
        t = f.sample_seeded_uniform([n], sr.secure_seed()) if det else f.sample_uniform([n])
        v = read(k, t).ravel()
        ctx.event("samples_checked", n)
        if k == "int100":
            for b, m in zip(t.backing, tfx.MODULI100):
                r = b.numpy()
                ctx.expect((r >= 0).all() and (r < m).all(), "sample-range:" + k, "component not below its modulus %d" % m)
                h = np.bincount(r.ravel() * 16 // m, minlength=16)
                chk(ctx, h, n, "sample-uniform:%s" % k, "component modulo %d: %s" % (m, h))
        else:
            q = min(16, MOD[k])
            h = np.bincount(np.asarray(v * q // MOD[k]).astype(int), minlength=q)
            p = np.asarray([len(range(-(-i * MOD[k] // q), -(-(i + 1) * MOD[k] // q))) / MOD[k] if MOD[k] < 10 ** 6 else 1 / q for i in range(q)])
            chk(ctx, h, n, "sample-uniform:%s" % k, str(h), p)
            h = np.bincount(np.asarray(v % 2).astype(int), minlength=2)
            if MOD[k] > 100:
                chk(ctx, h, n, "sample-parity:%s" % k, str(h))
    if k != "bool":
        for bl in (1, 5, 30, 60, 90):
            if 2 ** bl > MOD[k] // 2:
                continue
            v = read(k, f.sample_bounded([800], bl)).ravel()
            ctx.event("samples_checked", 800)
            ctx.expect(max(v) < 2 ** bl, "sample-bounded-range:" + k, "2**%d: %s" % (bl, max(v)))
            h = np.bincount(np.asarray(v * 2 // 2 ** bl).astype(int), minlength=2)
            chk(ctx, h, 800, "sample-bounded-uniform:" + k, "%d bits %s" % (bl, h))
    # two unseeded draws never repeat a word (wide rings)
    if MOD[k] > 2 ** 60:
        a, b = read(k, f.sample_uniform([500])), read(k, f.sample_uniform([500]))
        ctx.expect(not set(a.ravel()) & set(b.ravel()), "sample-repeats:" + k, "two draws share words")


def chk(ctx, h, n, mech, detail, p=None):
    p = np.full(len(h), 1 / len(h)) if p is None else p
    z = np.abs(h - n * p) / np.sqrt(n * p * (1 - p) + 1e-9)
    ctx.expect(z.max() < 9, mech, "%s (%.1f standard deviations)" % (detail, z.max()))
