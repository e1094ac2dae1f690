"""Operation generators for SecureNN: comparisons, selections, bits, extrema."""
import numpy as np

from vlib import tfx
from vlib.aby3ops import _patches, bcast, pick, shape
from vlib.pondops import ALL, MASK, PRIV, PUB, In, Op, ring
from vlib.tfx import tf


def BitOp(*a, **k):
    op = Op(*a, **k)
    op.scaled = False
    return op


def bits(e, shp, kind):
    return In(e, np.asarray(e.rng.integers(0, 2, size=shp), dtype=object), kind, False)


def cmpval(e, shp, kind, scaled=None):
    """values whose differences of two stay well inside the ring; many coincidences"""
    sc = bool(e.rng.integers(0, 2)) if scaled is None else scaled
    lim = e.bound if sc else (1 << 31 if e.nb == 100 else 1 << 60)
    a = e.ints(shp, lim)
    if e.rng.integers(0, 2):
        small = np.asarray(e.rng.integers(-2, 3, size=shp), dtype=object)
        a = np.asarray(np.where(e.rng.integers(0, 2, size=shp) == 1, small, a), dtype=object)
    return In(e, a, kind, sc)


def near(e, a, shp, kind):
    """operand equal to, or one unit beside, the other operand in many places"""
    lim = e.bound if a.scaled else (1 << 31 if e.nb == 100 else 1 << 60)
    base = np.broadcast_to(a.raw, np.broadcast_shapes(a.raw.shape, shp))
    try:
        base = base[tuple(0 if d == 1 else slice(None) for d in ())] if base.shape == tuple(shp) else e.ints(shp, lim)
    except Exception:
        base = e.ints(shp, lim)
    off = np.asarray(e.rng.integers(-1, 2, size=shp), dtype=object)
    other = e.ints(shp, lim)
    raw = np.where(e.rng.integers(0, 3, size=shp) > 0, base + off, other)
    raw = np.asarray(np.clip(raw, -lim + 1, lim - 1), dtype=object)
    return In(e, raw, kind, a.scaled)


def op_compare(e):
    rng = e.rng
    ka, kb = pick(rng, ALL), pick(rng, ALL)
    if ka in PUB and kb in PUB and rng.integers(0, 3):
        ka = pick(rng, PRIV)
    shp = shape(rng)
    sa, sb = shp, shp
    if ka in PUB and kb in PUB or rng.integers(0, 3) == 0:
        if ka in PUB and kb not in PUB:
            sa = bcast(rng, shp)
        elif kb in PUB and ka not in PUB:
            sb = bcast(rng, shp)
        elif rng.integers(0, 2):
            sa = bcast(rng, shp)
        else:
            sb = bcast(rng, shp)
    a = cmpval(e, sa, ka)
    b = near(e, a, sb, kb)
    nm = pick(rng, ["less", "less_equal", "greater", "greater_equal"])
    f = {"less": lambda x, y: x < y, "less_equal": lambda x, y: x <= y, "greater": lambda x, y: x > y, "greater_equal": lambda x, y: x >= y}[nm]
    return BitOp(nm + ":%s:%s" % (ka, kb), [a, b], lambda p, x, y: getattr(p, nm)(x, y),
              lambda x, y: [np.asarray(f(x, y), dtype=bool).astype(int)])


def op_sign(e):
    nm = pick(e.rng, ["is_negative", "non_negative", "msb"])
    x = cmpval(e, shape(e.rng), pick(e.rng, ALL))
    if nm == "msb" and e.nb == 64:
        # the conversion to the odd ring behind msb is exact up to one unit
        x.raw = np.asarray(np.where((x.raw < 0) & (x.raw > -2), -2, x.raw), dtype=object)
    f = (lambda x: x >= 0) if nm == "non_negative" else (lambda x: x < 0)
    return BitOp(nm + ":" + x.kind, [x], lambda p, x: getattr(p, nm)(x), lambda x: [np.asarray(f(x), dtype=bool).astype(int)])


def op_bitwise(e):
    rng = e.rng
    ka, kb = pick(rng, ALL), pick(rng, ALL)
    shp = shape(rng)
    a, b = bits(e, shp, ka), bits(e, shp, kb)
    nm = pick(rng, ["and", "or", "xor", "not"])
    if nm == "not":
        return Op("bitwise_not:" + ka, [a], lambda p, x: p.bitwise_not(x), lambda x: [1 - x])
    f = {"and": lambda x, y: x & y, "or": lambda x, y: x | y, "xor": lambda x, y: x ^ y}[nm]
    return Op("bitwise_%s:%s:%s" % (nm, ka, kb), [a, b], lambda p, x, y: getattr(p, "bitwise_" + nm)(x, y), lambda x, y: [f(x, y)])


def op_bits(e):
    """bits and lowest bit of public numbers, zero test"""
    rng = e.rng
    nm = pick(rng, ["bits", "lsb", "equal_zero"])
    x = e.full(shape(rng), pick(rng, ("pub", "const", "pubvar")))
    if nm == "equal_zero":
        x.raw = np.asarray(np.where(rng.integers(0, 2, size=x.raw.shape) == 1, 0, x.raw), dtype=object)
        return BitOp("equal_zero", [x], lambda p, x: p.equal_zero(x), lambda x: [np.asarray(x == 0, dtype=bool).astype(int)])
    if nm == "lsb":
        return BitOp("lsb:public", [x], lambda p, x: p.lsb(x), lambda x: [np.asarray(x % 2, dtype=object)])

    def ref(x):
        nb = 64 if e.nb == 64 else None
        n = nb or (e.M - 1).bit_length()
        u = x % (1 << n)  # two's complement
        return [np.stack([np.asarray((u >> k) & 1, dtype=object) for k in range(n)], axis=-1)]
    return BitOp("bits", [x], lambda p, x: p.bits(x), ref)


def op_lsb_private(e):
    if e.nb != 100:
        return op_sign(e)  # in an even ring only the sign is defined on shares
    x = e.full(shape(e.rng), pick(e.rng, PRIV))
    return BitOp("lsb:private", [x], lambda p, x: p.lsb(x), lambda x: [np.asarray((x % e.M) % 2, dtype=object)])


def op_select(e):
    rng = e.rng
    shp = shape(rng)
    sc = bool(rng.integers(0, 2))
    c = bits(e, shp if rng.integers(0, 2) else bcast(rng, shp), pick(rng, PRIV + MASK + PUB))
    ks = PRIV if rng.integers(0, 2) else ALL
    a, b = cmpval(e, shp, pick(rng, PRIV), sc), cmpval(e, shp, pick(rng, ks), sc)
    if rng.integers(0, 2):
        a, b = b, a
    return Op("select:%s:%s:%s" % (c.kind, a.kind, b.kind), [c, a, b], lambda p, c, x, y: p.select(c, x, y),
              lambda c, x, y: [np.asarray(np.where(c == 1, y, x), dtype=object)])


def op_maximum(e):
    rng = e.rng
    shp = shape(rng)
    a = cmpval(e, shp, pick(rng, PRIV))
    b = near(e, a, shp, pick(rng, PRIV + PUB))
    return Op("maximum:" + b.kind, [a, b], lambda p, x, y: p.maximum(x, y), lambda x, y: [np.maximum(x, y)])


def op_relu(e):
    rng = e.rng
    shp = shape(rng, int(rng.integers(1, 4)))
    x = cmpval(e, shp, pick(rng, PRIV + MASK + PUB))
    ms = pick(rng, [None, None, 1, 2, 5, 1000])
    kw = {} if ms is None else dict(max_size=ms)
    if rng.integers(0, 2):
        return Op("relu:" + x.kind, [x], lambda p, x: p.relu(x, **kw), lambda x: [np.maximum(x, 0)], params=ms)
    op = Op("relu_with_cmp:" + x.kind, [x], lambda p, x: p.relu_with_cmp(x, **kw), None, params=ms)

    def judge(ctx, prot, outs, raws):
        ctx.expect(len(outs) == 2, "value:relu_with_cmp", "outputs")
        ctx.equal(ring(e, outs[0]), np.maximum(raws[0], 0), "value:relu_with_cmp", "max_size %s" % ms)
        ctx.equal(ring(e, outs[1]), np.asarray(raws[0] >= 0, dtype=bool).astype(int), "value:relu_with_cmp:derivative", "max_size %s" % ms)
    op.judge = judge
    return op


def _axis(rng, shp):
    return int(rng.integers(-len(shp), len(shp)))


def ties(e, x):
    if e.rng.integers(0, 2):
        x.raw = np.asarray(e.rng.integers(-2, 2, size=x.raw.shape), dtype=object)
    return x


def op_reduce_max(e):
    rng = e.rng
    shp = shape(rng, int(rng.integers(1, 4)))
    ax = _axis(rng, shp)
    x = ties(e, cmpval(e, shp, pick(rng, PRIV)))
    return Op("reduce_max", [x], lambda p, x: p.reduce_max(x, axis=ax), lambda x: [np.asarray(x.max(axis=ax), dtype=object)], params=ax)


def op_argmax(e):
    rng = e.rng
    shp = shape(rng, int(rng.integers(1, 4)))
    ax = _axis(rng, shp)
    x = ties(e, cmpval(e, shp, pick(rng, PRIV)))
    both = bool(rng.integers(0, 2))

    def f(p, x):
        return list(p.reduce_max_with_argmax(x, axis=ax)) if both else [p.argmax(x, axis=ax)]

    def judge(ctx, prot, outs, raws):
        m = np.asarray(raws[0].max(axis=ax), dtype=object)
        if both:
            ctx.equal(ring(e, outs[0]), m, "value:reduce_max_with_argmax", "axis %s shape %s" % (ax, shp))
        got = np.asarray(tfx.npv(outs[-1].reveal() if hasattr(outs[-1], "reveal") else outs[-1]))
        if not ctx.expect(got.shape == m.shape, "value:argmax:shape", "shape %s want %s, axis %s of %s" % (got.shape, m.shape, ax, shp)):
            return
        idx = np.rint(got).astype(int)
        ok = np.all(np.abs(got - idx) < 1e-6) and np.all(idx >= 0) and np.all(idx < shp[ax])
        ctx.expect(ok, "value:argmax", "indices %s" % got.ravel()[:6])
        if ok:
            at = np.take_along_axis(raws[0], np.expand_dims(idx, ax), ax)
            ctx.equal(np.squeeze(at, ax) if at.ndim else at, m, "value:argmax", "axis %s shape %s" % (ax, shp))
    return Op("argmax", [x], f, None, judge=judge, params=(ax, both))


def op_maxpool(e):
    rng = e.rng
    n, c = int(rng.integers(1, 3)), int(rng.integers(1, 3))
    ph, pw = int(rng.integers(1, 3)), int(rng.integers(1, 4))
    h, w = int(rng.integers(ph, 6)), int(rng.integers(pw, 6))
    st = [int(rng.integers(1, 3)), int(rng.integers(1, 3))]
    pad = "VALID" if rng.integers(0, 3) else "SAME"
    x = cmpval(e, (n, c, h, w), pick(rng, PRIV + MASK + PUB))

    def pat(x):
        y = _patches(x.transpose(0, 2, 3, 1), ph, pw, st[0], st[1], pad, -(1 << 200))
        oh, ow = y.shape[1:3]
        return y.reshape(n, oh, ow, ph * pw, c).transpose(0, 4, 1, 2, 3)
    sq = pick(rng, [list, tuple])
    return Op("maxpool2d:" + x.kind, [x], lambda p, x: p.maxpool2d(x, sq([ph, pw]), sq(st), pad),
              lambda x: [pat(x).max(axis=-1)], params=(ph, pw, str(st), pad))


def op_private_compare(e):
    """the sub-protocol under comparison: (x > r) xor beta from bits of x in the prime field"""
    rng = e.rng
    shp = shape(rng)
    M = e.M
    n = 64 if e.nb == 64 else (M - 1).bit_length()
    lim = 1 << (64 if e.nb == 64 else 98)

    def draw():
        v = np.empty(int(np.prod(shp)) if shp else 1, dtype=object)
        v[:] = [int.from_bytes(rng.bytes(16), "little") % lim - lim // 2 for _ in range(v.size)]
        ext = [0, 1, -1, -2, lim // 2 - 1, -lim // 2]
        for i in range(v.size):
            if rng.integers(0, 3) == 0:
                v[i] = pick(rng, ext)
        return v.reshape(shp)
    x = draw()
    r = np.asarray(np.where(rng.integers(0, 2, size=shp) == 1, x, draw()), dtype=object)
    d = np.asarray(rng.integers(-1, 2, size=shp), dtype=object)
    r = np.asarray(np.clip(r + d, -lim // 2, lim // 2 - 1), dtype=object)
    beta = np.asarray(rng.integers(0, 2, size=shp), dtype=object)

    def f(p):
        from tf_encrypted.protocol.pond import PondPrivateTensor, PondPublicTensor
        from tf_encrypted.protocol.securenn.securenn import _private_compare
        xb = np.stack([np.asarray(((x % (1 << n)) >> k) & 1, dtype=object) for k in range(n)], axis=-1)
        bt = p.prime_factory
        nat = tf.constant(xb.astype(np.int64), dtype=bt.native_type)
        xs = p._share(bt.tensor(nat))
        if e.nb == 64:
            rr = p.tensor_factory.tensor(tf.constant(r.astype(np.int64)))
        else:
            ms = tfx.MODULI100
            back = [tf.constant(np.asarray(r % m).astype(np.int32), dtype=p.tensor_factory.native_type) for m in ms]
            z = p.tensor_factory.tensor(np.zeros(shp, dtype=np.int64))
            z._backing = back
            rr = z
        b = bt.tensor(tf.constant(beta.astype(np.int64), dtype=bt.native_type))
        return _private_compare(p, x_bits=PondPrivateTensor(p, *xs, False), r=PondPublicTensor(p, rr, rr, False),
                                beta=PondPublicTensor(p, b, b, False))

    def judge(ctx, prot, outs, raws):
        u = [np.asarray(v % (1 << n), dtype=object) for v in (x, r)]
        want = np.asarray(np.asarray(u[0] > u[1], dtype=bool).astype(int) ^ beta.astype(int), dtype=object)
        ctx.equal(ring(e, outs[0]) % prot.tensor_factory.modulus, want, "value:private_compare")
    return Op("private_compare", [], lambda p: f(p), None, judge=judge, params=shp)


def op_odd(e):
    """the odd ring behind sign extraction"""
    rng = e.rng
    from tf_encrypted.protocol.securenn import odd_tensor as OD
    nb = pick(rng, [32, 64])
    fac = OD.oddint32_factory if nb == 32 else OD.oddint64_factory
    m = (1 << nb) - 1
    dt = np.int32 if nb == 32 else np.int64
    shp = shape(rng)

    def draw():
        v = np.empty(int(np.prod(shp)) if shp else 1, dtype=object)
        v[:] = [int.from_bytes(rng.bytes(8), "little") % (1 << nb) for _ in range(v.size)]
        ext = [0, 1, m, m - 1, 1 << (nb - 1), (1 << (nb - 1)) - 1, 2]
        for i in range(v.size):
            if rng.integers(0, 2):
                v[i] = pick(rng, ext)
        return v.reshape(shp)

    def mk(v):
        s = np.asarray(np.frompyfunc(lambda a: a - (1 << nb) if a >= 1 << (nb - 1) else a, 1, 1)(v)).astype(dt)
        return fac.tensor(tf.constant(s))

    def rd(t):
        return np.asarray(np.frompyfunc(lambda a: int(a) % (1 << nb), 1, 1)(np.asarray(t.value.numpy()).astype(object)), dtype=object)
    a, b = draw(), draw()
    nm = pick(rng, ["add", "sub", "bits", "uniform"])

    def f(p):
        if nm == "add":
            return [mk(a) + mk(b)]
        if nm == "sub":
            return [mk(a) - mk(b)]
        if nm == "bits":
            return [mk(a).bits()]
        u = fac.sample_uniform(shp)
        return [u + mk(a), u, u.identity()]

    def judge(ctx, prot, outs, raws):
        for o in outs:
            v = rd(o)
            ctx.expect(v.shape == (shp + (nb,) if nm == "bits" else shp) and all(int(t) != m for t in v.ravel()), "odd:canonical", nm)
        if nm in ("add", "sub"):
            w = (a % m + b % m) if nm == "add" else (a % m - b % m)
            ctx.equal(rd(outs[0]), np.asarray(w % m, dtype=object), "odd:" + nm, "%d bits" % nb)
        elif nm == "bits":
            u = a % m
            ctx.equal(rd(outs[0]), np.stack([np.asarray((u >> k) & 1, dtype=object) for k in range(nb)], axis=-1), "odd:bits", "%d bits" % nb)
        else:
            ctx.equal(rd(outs[0]), np.asarray((rd(outs[1]) + a % m) % m, dtype=object), "odd:uniform")
            ctx.equal(rd(outs[2]), rd(outs[1]), "odd:uniform:seed")
    return Op("odd:" + nm, [], f, None, judge=judge, params=(nb, shp))


COMPARE = [op_compare, op_compare, op_sign, op_bitwise, op_bits, op_lsb_private, op_select, op_maximum, op_relu, op_reduce_max,
           op_argmax, op_maxpool, op_private_compare, op_odd]
