"""Operation generators for the two-party protocols (Pond, SecureNN) with an
independent integer reference on ring elements.

Kinds of operands: priv, pub, const, input (private input), pubinput, masked,
local (masked private input), privvar/pubvar (variable read back), py (a Python number)."""
from fractions import Fraction
from math import ceil

import numpy as np

from vlib import tfx
from vlib.aby3ops import _patches, bcast, pick, shape
from vlib.aby3ops import ints as _ints
from vlib.rings import conv_ref
from vlib.tfx import tf

M100 = 1
for _m in tfx.MODULI100:
    M100 *= _m
KINDS = ("100", "64", "100ni", "64ni")


class Env:
    def __init__(self, kind, rng, prot=None):
        self.kind, self.rng = kind, rng
        self.base, self.f, self.i = {"100": (2, 16, 14), "100ni": (2, 16, 14), "64": (3, 8, 7), "64ni": (2, 13, 10)}[kind]
        self.nb = 100 if kind.startswith("100") else 64
        self.M = M100 if self.nb == 100 else 1 << 64
        self.s = self.base ** self.f
        self.bound = self.base ** (self.f + self.i)
        self.dbound = self.base ** (2 * self.f + self.i)
        self.ni = kind.endswith("ni")

    def sgn(self, v):
        M = self.M
        return np.asarray(np.frompyfunc(lambda a: ((int(a) + M // 2) % M) - M // 2, 1, 1)(np.asarray(v, dtype=object)), dtype=object)

    def ints(self, shp, lim):
        """hostile signed integers of magnitude < lim"""
        b = lim.bit_length()
        a = np.empty(int(np.prod(shp)) if shp else 1, dtype=object)
        v = _ints(self.rng, (a.size,), b + 1).ravel()
        a[:] = [max(-lim + 1, min(lim - 1, int(x))) for x in v]
        return a.reshape(shp)

    def val(self, shp, kind="priv", lim=None):
        return In(self, self.ints(shp, lim or self.bound), kind, True)

    def full(self, shp, kind="priv"):
        if kind in ("input", "local", "pubinput") and self.nb == 100:
            return In(self, self.ints(shp, 1 << 31), kind, False)
        return In(self, self.ints(shp, 1 << 62), kind, False)

    def any(self, shp, kind="priv"):
        return self.full(shp, kind) if self.rng.integers(0, 2) else self.val(shp, kind)


class In:
    def __init__(self, env, raw, kind, scaled):
        self.env, self.raw, self.kind, self.scaled = env, np.asarray(raw, dtype=object), kind, scaled

    def sig(self):
        return (self.kind, self.raw.shape, self.scaled)

    def real(self):
        """a float that encodes to raw, whether encoding truncates or rounds"""
        s = self.env.s
        f = np.frompyfunc(lambda r: (abs(int(r)) + 0.25) / s * (1 if r >= 0 else -1), 1, 1)
        return np.asarray(f(self.raw), dtype=np.float64)

    def make(self, prot):
        v = self.real() if self.scaled else np.asarray(self.raw, dtype=np.int64)
        k, sc = self.kind, self.scaled
        if k == "priv":
            return prot.define_private_variable(v, apply_scaling=sc)
        if k == "pub":
            return prot.define_public_variable(v, apply_scaling=sc)
        if k == "const":
            return prot.define_constant(v, apply_scaling=sc)
        if k == "privvar":
            return prot.define_private_variable(tf.constant(v) if self.env.nb == 64 or sc else v, apply_scaling=sc).read_value()
        if k == "pubvar":
            return prot.define_public_variable(tf.constant(v) if self.env.nb == 64 or sc else v, apply_scaling=sc).read_value()
        if k == "input":
            return prot.define_private_input("inputter", lambda: tf.constant(v), apply_scaling=sc)
        if k == "local":
            return prot.define_private_input("inputter", lambda: tf.constant(v), apply_scaling=sc, masked=True)
        if k == "pubinput":
            return prot.define_public_input("inputter", lambda: tf.constant(v), apply_scaling=sc)
        if k == "masked":
            return prot.mask(prot.define_private_variable(v, apply_scaling=sc))
        if k == "py":
            return v.item()
        raise ValueError(k)


PUB = ("pub", "const", "pubinput", "pubvar")
PRIV = ("priv", "input", "privvar")
MASK = ("masked", "local")
ALL = PUB + PRIV + MASK


class Op:
    scaled = None  # scaling of the result: None = that of the operands

    def __init__(self, name, ins, f, ref, tol=None, params=(), judge=None):
        self.name, self.ins, self.f, self.ref, self.tol, self.params, self.judge = name, ins, f, ref, tol, params, judge

    def sig(self):
        return (self.name, str(self.params)) + tuple(i.sig() for i in self.ins)


def is_public(x):
    from tf_encrypted.protocol.pond import pond as P
    return isinstance(x, P.PondPublicTensor)


def is_private(x):
    from tf_encrypted.protocol.pond import pond as P
    return isinstance(x, P.PondPrivateTensor)


def ring(e, x):
    """value of a tensor as signed ring integers; checks nothing"""
    if hasattr(x, "unmasked"):
        x = x.unmasked
    u = x.unwrapped
    if is_private(x):
        return e.sgn(tfx.ring(u[0]) + tfx.ring(u[1]))
    return e.sgn(tfx.ring(u[0]))


def mixed(rng, need_secret=True):
    while True:
        a, b = pick(rng, ALL), pick(rng, ALL)
        if not need_secret or a not in PUB or b not in PUB:
            return a, b


# --------------------------------------------------------------------- linear
def op_addsub(e):
    rng = e.rng
    ka, kb = mixed(rng, False)
    shp = shape(rng)
    if rng.integers(0, 4) == 0:
        a, b = e.val(shp, pick(rng, ALL)), e.val((), "py")
        if rng.integers(0, 2):
            a, b = b, a
    else:
        sa, sb = (bcast(rng, shp), shp) if rng.integers(0, 2) else (shp, bcast(rng, shp))
        mk = e.val if rng.integers(0, 2) else e.full
        if ka in MASK + PRIV and kb in MASK + PRIV or True:
            # the private operand carries the result's second share: as large as the result
            if ka in PUB and kb not in PUB:
                sb = shp
                sa = bcast(rng, shp)
            elif kb in PUB and ka not in PUB:
                sa, sb = shp, bcast(rng, shp)
        a, b = mk(sa, ka), mk(sb, kb)
    nm = pick(rng, ["add", "sub", "+", "-"])
    f = {"add": lambda p, x, y: p.add(x, y), "sub": lambda p, x, y: p.sub(x, y), "+": lambda p, x, y: x + y,
         "-": lambda p, x, y: x - y}[nm]
    add = nm in ("add", "+")
    return Op("addsub:%s:%s:%s" % (nm, a.kind, b.kind), [a, b], f, lambda x, y: [e.sgn(x + y if add else x - y)])


def op_negative(e):
    return Op("negative", [e.any(shape(e.rng), pick(e.rng, ALL))], pick(e.rng, [lambda p, x: p.negative(x), lambda p, x: x.negative()]),
              lambda x: [e.sgn(-x)])


def op_addn(e):
    n = int(e.rng.integers(1, 5))
    shp = shape(e.rng)
    return Op("add_n", [e.val(shp, pick(e.rng, PRIV)) for _ in range(n)], lambda p, *xs: p.add_n(list(xs)),
              lambda *xs: [e.sgn(sum(xs[1:], xs[0]))], params=n)


def op_reduce_sum(e):
    rng = e.rng
    shp = shape(rng, int(rng.integers(1, 5)))
    ax = pick(rng, [None] + list(range(-len(shp), len(shp))))
    kd = pick(rng, [None, False, True])
    x = e.any(shp, pick(rng, ALL))
    return Op("reduce_sum", [x], pick(rng, [lambda p, x: p.reduce_sum(x, axis=ax, keepdims=kd), lambda p, x: x.reduce_sum(ax, kd),
                                            lambda p, x: x.sum(axis=ax, keepdims=kd)]),
              lambda x: [e.sgn(np.asarray(x.sum(axis=ax, keepdims=bool(kd)), dtype=object))], params=(ax, kd))


def op_cumsum(e):
    rng = e.rng
    shp = shape(rng, int(rng.integers(1, 4)))
    ax = int(rng.integers(-len(shp), len(shp)))
    exc, rev = bool(rng.integers(0, 2)), bool(rng.integers(0, 2))

    def ref(x):
        y = np.flip(x, ax) if rev else x
        c = np.cumsum(y, axis=ax)
        c = c - y if exc else c
        return [e.sgn(np.flip(c, ax) if rev else c)]
    return Op("cumsum", [e.any(shp, pick(rng, ALL))], lambda p, x: p.cumsum(x, axis=ax, exclusive=exc, reverse=rev), ref, params=(ax, exc, rev))


def op_mul_unscaled(e):
    """products with an unscaled operand are exact ring products"""
    rng = e.rng
    ka, kb = mixed(rng)
    shp = shape(rng)
    sa, sb = (bcast(rng, shp), shp) if rng.integers(0, 2) else (shp, bcast(rng, shp))
    a = e.full(sa, ka)
    b = e.any(sb, kb)
    if rng.integers(0, 2):
        a, b = b, a
    return Op("mul_unscaled:%s:%s" % (a.kind, b.kind), [a, b], pick(rng, [lambda p, x, y: p.mul(x, y), lambda p, x, y: x * y]),
              lambda x, y: [e.sgn(x * y)])


def op_square_unscaled(e):
    return Op("square_unscaled", [e.full(shape(e.rng), pick(e.rng, ALL))], pick(e.rng, [lambda p, x: p.square(x), lambda p, x: x.square()]),
              lambda x: [e.sgn(x * x)])


def op_matmul_unscaled(e):
    rng = e.rng
    m, k, n = (int(v) for v in rng.integers(1, 6, size=3))
    ka, kb = mixed(rng)
    a, b = e.full((m, k), ka), e.any((k, n), kb)
    return Op("matmul_unscaled:%s:%s" % (ka, kb), [a, b], pick(rng, [lambda p, x, y: p.matmul(x, y), lambda p, x, y: x.matmul(y),
                                                                     lambda p, x, y: x.dot(y)]),
              lambda x, y: [e.sgn(x.dot(y))])


def _convkinds(rng):
    if rng.integers(0, 5) == 0:
        return pick(rng, PUB), pick(rng, PUB)
    return pick(rng, PRIV + MASK), pick(rng, PRIV + MASK)


def _convshapes(rng):
    n, c, o = (int(v) for v in rng.integers(1, 3, size=3))
    h, w = (int(v) for v in rng.integers(3, 7, size=2))
    fh, fw = (int(v) for v in rng.integers(1, 4, size=2))
    st = [int(v) for v in rng.integers(1, 4, size=2)]
    st = tuple(st) if rng.integers(0, 2) else st
    return (n, c, h, w), (fh, fw, c, o), st, pick(rng, ["SAME", "VALID"])


def op_conv_unscaled(e):
    xs, ys, st, pad = _convshapes(e.rng)
    ka, kb = _convkinds(e.rng)
    return Op("conv2d_unscaled:%s:%s" % (ka, kb), [e.full(xs, ka), e.full(ys, kb)], lambda p, x, y: p.conv2d(x, y, st, pad),
              lambda x, y: [e.sgn(conv_ref(x, y, list(st), pad))], params=(st, pad))


def op_equal(e):
    rng = e.rng
    shp = shape(rng)
    a = e.val(shp, pick(rng, PUB))
    b = In(e, np.where(rng.integers(0, 2, size=shp) == 1, a.raw, e.ints(shp, e.bound)), pick(rng, PUB), True)
    return Op("equal", [a, b], lambda p, x, y: p.equal(x, y), lambda x, y: [np.asarray((x == y).astype(int), dtype=object)])


LINEAR = [op_addsub, op_addsub, op_negative, op_addn, op_reduce_sum, op_cumsum, op_mul_unscaled, op_mul_unscaled, op_square_unscaled,
          op_matmul_unscaled, op_conv_unscaled, op_equal]


# ----------------------------------------------------------------- structural
def op_reshape(e):
    rng = e.rng
    shp = shape(rng, int(rng.integers(1, 5)))
    n = int(np.prod(shp))
    d = pick(rng, [d for d in range(1, n + 1) if n % d == 0])
    tgt = pick(rng, [[n], [-1], [d, n // d], (n // d, d), [d, -1], [1, n, 1], (-1, d)])
    return Op("reshape", [e.any(shp, pick(rng, ALL))], pick(rng, [lambda p, x: p.reshape(x, tgt), lambda p, x: x.reshape(tgt)]),
              lambda x: [x.reshape(tgt)], params=tgt)


def op_transpose(e):
    """several permutations of one tensor, as programs do"""
    rng = e.rng
    shp = shape(rng, int(rng.integers(1, 5)))
    perms = [None if rng.integers(0, 4) == 0 else pick(rng, [list, tuple])(int(a) for a in rng.permutation(len(shp))) for _ in range(2)]
    return Op("transpose", [e.any(shp, pick(rng, ALL))],
              lambda p, x: [p.transpose(x, q) if q is None or rng.integers(0, 2) else x.transpose(q) for q in perms],
              lambda x: [x.transpose(q) for q in perms], params=perms)


def op_expand_dims(e):
    shp = shape(e.rng)
    ax = int(e.rng.integers(-len(shp) - 1, len(shp) + 1))
    return Op("expand_dims", [e.any(shp, pick(e.rng, ALL))], lambda p, x: p.expand_dims(x, axis=ax), lambda x: [np.expand_dims(x, ax)], params=ax)


def op_squeeze(e):
    rng = e.rng
    shp = list(shape(rng, int(rng.integers(1, 5)), 1, 3))
    ones = [i for i, d in enumerate(shp) if d == 1]
    ax = None
    if ones and rng.integers(0, 2):
        ax = [int(pick(rng, ones))]
        if rng.integers(0, 2):
            ax = [ax[0] - len(shp)]
    return Op("squeeze", [e.any(tuple(shp), pick(rng, ALL))], lambda p, x: p.squeeze(x, axis=ax) if ax else p.squeeze(x),
              lambda x: [np.squeeze(x, axis=tuple(ax) if ax else None)], params=ax)


def op_strided_slice(e):
    rng = e.rng
    shp = shape(rng, int(rng.integers(1, 4)), 1, 6)
    outs = []
    for _ in range(2):
        b, en, st = [], [], []
        for d in shp:
            lo = int(rng.integers(0, d))
            b.append(lo)
            en.append(int(rng.integers(lo + 1, d + 1)))
            st.append(int(rng.integers(1, 3)))
        outs.append((b, en, st))
    kw = bool(rng.integers(0, 2))
    return Op("strided_slice", [e.any(shp, pick(rng, ALL))],
              lambda p, x: [p.strided_slice(x, b, en, strides=st) if kw else p.strided_slice(x, b, en, st) for b, en, st in outs],
              lambda x: [x[tuple(slice(*t) for t in zip(b, en, st))] for b, en, st in outs], params=outs)


def op_index(e):
    rng = e.rng
    shp = shape(rng, int(rng.integers(1, 4)), 1, 6)

    def one():
        ix = []
        for d in shp[:int(rng.integers(1, len(shp) + 1))]:
            k = int(rng.integers(0, 4))
            lo = int(rng.integers(0, d))
            ix.append([int(rng.integers(-d, d)), slice(None), slice(lo, None), slice(lo, int(rng.integers(lo + 1, d + 1)))][k])
        return tuple(ix) if len(ix) > 1 else ix[0]
    ixs = [one() for _ in range(2)]
    return Op("index", [e.any(shp, pick(rng, ALL))], lambda p, x: [x[i] for i in ixs],
              lambda x: [np.asarray(x[i], dtype=object) for i in ixs], params=ixs)


def op_gather(e):
    rng = e.rng
    shp = shape(rng, int(rng.integers(1, 4)))
    ax = int(rng.integers(0, len(shp)))
    ixs = [[int(v) for v in rng.integers(0, shp[ax], size=int(rng.integers(1, 5)))] for _ in range(2)]
    return Op("gather", [e.any(shp, pick(rng, ALL))], lambda p, x: [p.gather(x, i, axis=ax) for i in ixs],
              lambda x: [np.take(x, i, axis=ax) for i in ixs], params=(ixs, ax))


def op_split(e):
    rng = e.rng
    shp = list(shape(rng, int(rng.integers(1, 4))))
    ax = int(rng.integers(0, len(shp)))
    if rng.integers(0, 2):
        n = int(rng.integers(1, 4))
        shp[ax] = n * int(rng.integers(1, 3))
        num, at = n, [shp[ax] // n * i for i in range(1, n)]
    else:
        num = [int(v) for v in rng.integers(1, 4, size=int(rng.integers(1, 4)))]
        shp[ax] = sum(num)
        at = list(np.cumsum(num)[:-1])
    return Op("split", [e.any(tuple(shp), pick(rng, ALL))], lambda p, x: p.split(x, num, axis=ax),
              lambda x: np.split(x, at, axis=ax), params=(num, ax))


def op_stack(e):
    rng = e.rng
    shp = shape(rng, int(rng.integers(0, 4)))
    n = int(rng.integers(1, 4))
    axs = [int(v) for v in rng.integers(-len(shp) - 1, len(shp) + 1, size=2)]
    ks = pick(rng, [PUB, PRIV, MASK])
    mk = e.val if rng.integers(0, 2) else e.full
    return Op("stack", [mk(shp, pick(rng, ks)) for _ in range(n)], lambda p, *xs: [p.stack(list(xs), axis=a) for a in axs],
              lambda *xs: [np.stack(xs, axis=a) for a in axs], params=axs)


def op_concat(e):
    rng = e.rng
    shp = list(shape(rng, int(rng.integers(1, 4))))
    ax = int(rng.integers(-len(shp), len(shp)))
    ks = pick(rng, [PUB, PRIV, MASK])
    mk = e.val if rng.integers(0, 2) else e.full
    ins = []
    for _ in range(int(rng.integers(1, 4))):
        s = list(shp)
        s[ax] = int(rng.integers(1, 4))
        ins.append(mk(tuple(s), pick(rng, ks)))
    return Op("concat", ins, lambda p, *xs: p.concat(list(xs), axis=ax), lambda *xs: [np.concatenate(xs, axis=ax)], params=ax)


def op_pad(e):
    rng = e.rng
    shp = shape(rng, int(rng.integers(1, 5)))
    pd = [[int(v) for v in rng.integers(0, 3, size=2)] for _ in shp]
    return Op("pad", [e.any(shp, pick(rng, PUB + PRIV))], lambda p, x: p.pad(x, pd),
              lambda x: [np.pad(x, pd, constant_values=0)], params=pd)


def op_identity(e):
    return Op("identity", [e.any(shape(e.rng), pick(e.rng, PUB + PRIV))], lambda p, x: p.identity(x), lambda x: [x])


def op_reveal(e):
    def judge(ctx, prot, outs, raws):
        ctx.expect(is_public(outs[0]), "reveal:type", type(outs[0]).__name__)
        ctx.equal(ring(e, outs[0]), raws[0], "value:reveal")
    return Op("reveal", [e.any(shape(e.rng), pick(e.rng, PRIV + MASK))], pick(e.rng, [lambda p, x: p.reveal(x), lambda p, x: x.reveal()]), None, judge=judge)


def _batchspace(e):
    rng = e.rng
    bh, bw = (int(v) for v in rng.integers(1, 3, size=2))
    n, h, w, c = (int(v) for v in rng.integers(1, 4, size=4))
    return bh, bw, n, h, w, c


def op_space_to_batch(e):
    bh, bw, n, h, w, c = _batchspace(e)
    rng = e.rng
    pt, pl = (int(v) for v in rng.integers(0, 2, size=2))
    pb, pr = (-(h + pt)) % bh, (-(w + pl)) % bw
    pads = [[pt, pb], [pl, pr]]

    def ref(x):
        y = np.pad(x, [(0, 0), (pt, pb), (pl, pr), (0, 0)], constant_values=0)
        H, W = y.shape[1:3]
        y = y.reshape(n, H // bh, bh, W // bw, bw, c).transpose(2, 4, 0, 1, 3, 5)
        return [y.reshape(n * bh * bw, H // bh, W // bw, c)]
    return Op("space_to_batch", [e.any((n, h, w, c), pick(rng, ALL))], lambda p, x: p.space_to_batch(x, [bh, bw], pads), ref,
              params=(bh, bw, pads))


def op_batch_to_space(e):
    bh, bw, n, h, w, c = _batchspace(e)
    rng = e.rng
    cr = [[int(rng.integers(0, 2)), 0], [0, int(rng.integers(0, 2))]]

    def ref(x):
        y = x.reshape(bh, bw, n, h, w, c).transpose(2, 3, 0, 4, 1, 5).reshape(n, h * bh, w * bw, c)
        return [y[:, cr[0][0]:y.shape[1] - cr[0][1], cr[1][0]:y.shape[2] - cr[1][1]]]
    if h * bh - sum(cr[0]) < 1 or w * bw - sum(cr[1]) < 1:
        return None
    return Op("batch_to_space", [e.any((n * bh * bw, h, w, c), pick(rng, ALL))], lambda p, x: p.batch_to_space(x, [bh, bw], cr), ref,
              params=(bh, bw, cr))


STRUCT = [op_reshape, op_transpose, op_expand_dims, op_squeeze, op_strided_slice, op_index, op_gather, op_split, op_stack, op_concat,
          op_pad, op_identity, op_reveal, op_space_to_batch, op_batch_to_space]


# ------------------------------------------------------------ multiplicative
def isq(n):
    return int(np.floor(np.sqrt(float(n)))) - 1


def plim(e, terms=1):
    """magnitude of operands so that a sum of `terms` products is in range"""
    d = e.dbound // terms
    if e.ni:
        # each local truncation fails with probability |product| / modulus
        d = min(d, 1 << 33)
    return isq(d)


def wide(e, a, b, terms=1):
    """skew magnitudes: one operand up to its own bound, the other small"""
    d = e.dbound // terms
    if e.ni and e.nb == 64:
        d = min(d, 1 << 33)
    if e.rng.integers(0, 2):
        la = isq(d)
        lb = la
    else:
        la = min(e.bound, d // 2)
        lb = max(2, d // la)
        if e.rng.integers(0, 2):
            la, lb = lb, la
    a.raw = e.ints(a.raw.shape, min(la, e.bound))
    b.raw = e.ints(b.raw.shape, min(lb, e.bound))


def op_mul(e):
    rng = e.rng
    ka, kb = mixed(rng, False)
    shp = shape(rng)
    sa, sb = (bcast(rng, shp), shp) if rng.integers(0, 2) else (shp, bcast(rng, shp))
    if rng.integers(0, 5) == 0:
        kb, sb, sa = "py", (), shp
    a, b = e.val(sa, ka), e.val(sb, kb)
    wide(e, a, b)
    sw = bool(rng.integers(0, 2)) and kb == "py"
    return Op("mul:%s:%s" % (a.kind, b.kind), [a, b], (lambda p, x, y: y * x) if sw else pick(rng, [lambda p, x, y: p.mul(x, y), lambda p, x, y: x * y]),
              lambda x, y: [fr(x * y, e.s)], tol=1.0)


def fr(x, d):
    return np.asarray(np.frompyfunc(lambda v: Fraction(int(v), d), 1, 1)(np.asarray(x, dtype=object)), dtype=object)


def op_square(e):
    x = e.val(shape(e.rng), pick(e.rng, ALL), plim(e))
    return Op("square", [x], pick(e.rng, [lambda p, x: p.square(x), lambda p, x: x.square()]), lambda x: [fr(x * x, e.s)], tol=1.0)


def op_matmul(e):
    rng = e.rng
    m, k, n = (int(v) for v in rng.integers(1, 6, size=3))
    if rng.integers(0, 8) == 0:
        k = int(rng.integers(20, 60))
    ka, kb = mixed(rng, False)
    a, b = e.val((m, k), ka), e.val((k, n), kb)
    wide(e, a, b, k)
    return Op("matmul:%s:%s" % (ka, kb), [a, b], pick(rng, [lambda p, x, y: p.matmul(x, y), lambda p, x, y: x.dot(y)]),
              lambda x, y: [fr(x.dot(y), e.s)], tol=1.0)


def op_conv(e):
    xs, ys, st, pad = _convshapes(e.rng)
    ka, kb = _convkinds(e.rng)
    a, b = e.val(xs, ka), e.val(ys, kb)
    wide(e, a, b, ys[0] * ys[1] * ys[2])
    return Op("conv2d:%s:%s" % (ka, kb), [a, b], lambda p, x, y: p.conv2d(x, y, st, pad),
              lambda x, y: [fr(conv_ref(x, y, list(st), pad), e.s)], tol=1.0, params=(st, pad))


def op_truncate(e):
    rng = e.rng
    lim = e.dbound if not (e.ni and e.nb == 64) else 1 << 33
    k = pick(rng, PUB[:2] + PRIV + MASK)
    x = e.val(shape(rng), k if k != "const" else "pub", min(e.bound, lim))
    mult = int(rng.integers(1, max(2, min(e.s, lim // e.bound))))

    # a double-precision value: a single-precision one times an unscaled integer
    def f(p, t):
        y = p.mul(t, p.define_constant(np.array(mult), apply_scaling=False))
        return p.truncate(y)
    return Op("truncate:" + k, [x], f, lambda x: [fr(x * mult, e.s)], tol=1.0, params=mult.bit_length())


def op_div(e):
    rng = e.rng
    shp = shape(rng)
    ka = pick(rng, ALL)
    form = pick(rng, ["int", "float", "pub"])
    x = e.val(shp, ka)
    if form == "pub":
        y = e.val(bcast(rng, shp), pick(rng, PUB))
        lo = max(2, e.s // 16)
        f = np.frompyfunc(lambda v: int(v) if abs(int(v)) >= lo else (lo + abs(int(v)) if v >= 0 else -lo - abs(int(v))), 1, 1)
        y.raw = np.asarray(f(y.raw), dtype=object)
        yr = y.raw
        wide_lim = plim(e)
        x.raw = e.ints(x.raw.shape, min(e.bound, wide_lim, e.dbound // (16 * e.s) // 2))

        def judge(ctx, prot, outs, raws):
            a, b = raws
            inv = np.asarray(np.frompyfunc(lambda v: Fraction(e.s * e.s, int(v)), 1, 1)(b), dtype=object)
            want = np.asarray(a * inv / e.s, dtype=object)
            tol = np.asarray(np.broadcast_to(np.abs(a), want.shape), dtype=np.float64) / e.s * 1.001 + 1.01
            ctx.close(diff(ring(e, outs[0]), want), np.zeros(want.shape), tol, "value:div:pub:" + ka)
        return Op("div:pub:" + ka, [x, y], pick(rng, [lambda p, x, y: p.div(x, y), lambda p, x, y: x / y]), None, judge=judge)
    d = int(rng.integers(1, 40)) * (1 if rng.integers(0, 2) else -1)
    if form == "float":
        d = float(rng.uniform(0.3, 30)) * (1 if rng.integers(0, 2) else -1)
    x.raw = e.ints(shp, min(e.bound, plim(e), int(e.bound * abs(d)) // 2 + 2))

    def judge(ctx, prot, outs, raws):
        want = np.asarray(np.frompyfunc(lambda v: Fraction(int(v)) / Fraction(d), 1, 1)(raws[0]), dtype=object)
        tol = np.asarray(np.abs(raws[0]), dtype=np.float64) / e.s * 1.001 + 1.01
        ctx.close(diff(ring(e, outs[0]), want), np.zeros(want.shape), tol, "value:div:" + form)
    return Op("div:%s:%s" % (form, ka), [x], pick(rng, [lambda p, x: p.div(x, d), lambda p, x: x / d]), None, judge=judge, params=form)


def op_recip(e):
    """reciprocal and square root of public numbers"""
    rng = e.rng
    x = e.val(shape(rng), pick(rng, PUB))
    f = np.frompyfunc(lambda v: max(abs(int(v)), e.s // 64 + 2), 1, 1)
    x.raw = np.asarray(f(x.raw), dtype=object)
    if rng.integers(0, 2):
        return Op("reciprocal", [x], lambda p, x: p.reciprocal(x),
                  lambda x: [np.asarray(np.frompyfunc(lambda v: Fraction(e.s * e.s, int(v)), 1, 1)(x), dtype=object)], tol=1.01)
    return Op("sqrt", [x], lambda p, x: p.sqrt(x),
              lambda x: [np.asarray(np.frompyfunc(lambda v: float(np.sqrt(float(v) * e.s)), 1, 1)(x), dtype=object)], tol=1.01)


def op_avgpool(e):
    rng = e.rng
    ph, pw = (int(v) for v in rng.integers(1, 4, size=2))
    if rng.integers(0, 2):
        pw = ph
    st = (ph, pw) if rng.integers(0, 2) else tuple(int(v) for v in rng.integers(1, 4, size=2))
    n, c = (int(v) for v in rng.integers(1, 3, size=2))
    if rng.integers(0, 2):
        h, w = ph * int(rng.integers(1, 4)), pw * int(rng.integers(1, 4))
    else:
        h, w = int(rng.integers(ph, 8)), int(rng.integers(pw, 8))
    pad = pick(rng, ["VALID", "SAME"])
    x = e.val((n, c, h, w), pick(rng, ALL), min(e.bound // 16, plim(e, 10)))
    psz = (ph, pw) if rng.integers(0, 2) else [ph, pw]
    sst = list(st) if isinstance(psz, list) else st

    def judge(ctx, prot, outs, raws):
        def pool(r):
            y = _patches(r.transpose(0, 2, 3, 1), ph, pw, st[0], st[1], pad)
            return y.reshape(n, *y.shape[1:3], ph * pw, c).sum(axis=3).transpose(0, 3, 1, 2)
        # the mean over the window, padding counted as zeros
        s = pool(raws[0])
        got = ring(e, outs[0])
        if not ctx.equal(np.array(got.shape), np.array(s.shape), "value:avgpool2d", "shape %s" % ((psz, sst, pad),)):
            return
        tol = np.asarray(np.abs(s), dtype=np.float64) / e.s * 1.001 + 1.01
        d = np.array([float(Fraction(int(g)) - Fraction(int(a), ph * pw)) for g, a in zip(got.ravel(), s.ravel())])
        ctx.close(d.reshape(s.shape), np.zeros(s.shape), tol, "value:avgpool2d", "params %s" % ((psz, sst, pad),))
    return Op("avgpool2d:" + x.kind, [x], lambda p, x: p.avgpool2d(x, psz, sst, pad), None, judge=judge, params=(psz, sst, pad, h, w))


class Iv:
    """real value with an error bound, in units of one: mirrors fixed-point evaluation"""

    def __init__(self, v, err, ulp):
        self.v, self.e, self.u = v, err, ulp

    def mul(self, o):
        return Iv(self.v * o.v, abs(self.v) * o.e + abs(o.v) * self.e + self.e * o.e + self.u * 1.01, self.u)

    def cmul(self, c):
        return Iv(self.v * c, abs(self.v) * self.u + abs(c) * self.e + self.e * self.u + self.u * 1.01, self.u)

    def add(self, o):
        return Iv(self.v + o.v, self.e + o.e, self.u)

    def cadd(self, c):
        return Iv(self.v + c, self.e + self.u, self.u)


def _poly(name, x):
    """the documented Chebyshev polynomials"""
    sq = x.mul(x)
    if name == "sigmoid":
        x3 = sq.mul(x)
        x5, = [sq.mul(x3)]
        x7 = sq.mul(x5)
        x9 = sq.mul(x7)
        ts = [(x, 0.2159198015), (x3, -0.0082176259), (x5, 0.0001825597), (x7, -0.0000018848), (x9, 0.0000000072)]
        c = 0.5
    elif name == "relu":
        x4 = sq.mul(sq)
        x6 = sq.mul(x4)
        x8 = sq.mul(x6)
        ts = [(x, 0.5), (sq, 0.11217537671414643), (x4, -0.0013660836712429923), (x6, 9.009136367360004e-06), (x8, -2.1097433984e-08)]
        c = 0.44015372000819103
    elif name == "tanh":
        x3 = sq.mul(x)
        x5 = sq.mul(x3)
        x7 = sq.mul(x5)
        ts = [(x, 0.852721056), (x3, -0.12494112), (x5, 0.010654528), (x7, -0.000423424)]
        c = 0.0
    else:
        x3 = sq.mul(x)
        x4 = x3.mul(x)
        x5 = sq.mul(x3)
        ts = [(x, 12.79333646), (sq, -26.18955259), (x3, 30.24596692), (x4, -17.30367641), (x5, 3.82474222)]
        c = -3.35674972
    r = None
    for t, w in ts:
        y = t.cmul(w)
        r = y if r is None else r.add(y)
    return r.cadd(c)


POLY = {"sigmoid": (-2.2, 2.2), "relu": (-2.2, 2.2), "tanh": (-2.2, 2.2), "log": (0.1, 1.5)}


def op_poly(e):
    rng = e.rng
    name = pick(rng, sorted(POLY))
    lo, hi = POLY[name]
    shp = shape(rng)
    n = int(np.prod(shp)) if shp else 1
    raw = np.empty(n, dtype=object)
    raw[:] = [int(v * e.s) for v in rng.uniform(lo, hi, size=n)]
    x = In(e, raw.reshape(shp), pick(rng, PRIV + PUB), True)

    def judge(ctx, prot, outs, raws):
        u = 1.0 / e.s
        q = [_poly(name, Iv(int(v) / e.s, 0.0, u)) for v in raws[0].ravel()]
        want = np.array([t.v for t in q]).reshape(shp)
        tol = np.array([t.e for t in q]).reshape(shp)
        got = np.asarray(ring(e, outs[0]), dtype=np.float64) / e.s
        ctx.close(got, want, tol, "value:" + name)
    return Op(name + ":" + x.kind, [x], lambda p, x: getattr(p, name)(x), None, judge=judge)


def op_reuse(e):
    """one secret used in several products, squares and transformed masks: the
    cached mask must stay matched to its value"""
    rng = e.rng
    n = int(rng.integers(2, 5))
    x, y = e.val((n, n), pick(rng, PRIV + MASK)), e.val((n, n), pick(rng, PRIV + MASK))
    lim = plim(e, n)
    x.raw, y.raw = e.ints((n, n), min(lim, e.bound)), e.ints((n, n), min(lim, e.bound))
    acts = [pick(rng, ["xy", "yx", "xx", "sq", "xtx", "x0y", "mm", "mmt", "neg", "slice", "rs"]) for _ in range(4)]

    def do(p, x, y, mul, mm):
        out = []
        for a in acts:
            if a == "xy":
                out.append(mul(x, y))
            elif a == "yx":
                out.append(mul(y, x))
            elif a == "xx":
                out.append(mul(x, x))
            elif a == "sq":
                out.append(p.square(x) if p else x * x)
            elif a == "xtx":
                out.append(mm(p.transpose(x) if p else x.T, x))
            elif a == "x0y":
                out.append(mul(x[0], y))
            elif a == "mm":
                out.append(mm(x, y))
            elif a == "mmt":
                out.append(mm(x, p.transpose(y, [1, 0]) if p else y.T))
            elif a == "neg":
                out.append(mul(p.negative(x) if p else -x, y))
            elif a == "slice":
                out.append(mul(x[:, 1:], y[:, 1:]))
            elif a == "rs":
                out.append(mul(p.reshape(x, [n * n]) if p else x.reshape(n * n), p.reshape(y, [n * n]) if p else y.reshape(n * n)))
        return out
    return Op("reuse", [x, y], lambda p, x, y: do(p, x, y, p.mul, p.matmul),
              lambda x, y: [fr(v, e.s) for v in do(None, x, y, lambda a, b: a * b, lambda a, b: a.dot(b))], tol=1.0, params=acts)


MULT = [op_mul, op_mul, op_square, op_matmul, op_conv, op_truncate, op_div, op_recip, op_avgpool, op_poly, op_reuse]


def diff(got, want):
    got = np.asarray(got, dtype=object)
    want = np.asarray(want, dtype=object)
    if got.shape != want.shape:
        return np.full(got.shape, np.inf)
    return np.asarray(np.frompyfunc(lambda a, b: float(a - (Fraction(b) if isinstance(b, float) else b)), 2, 1)(got, want), dtype=np.float64)


# --------------------------------------------------------------------- monitor
class Monitor:
    """Watches every tensor the two-party protocols construct: both copies of a
    public value agree, and a masked tensor's parts fit together
    (a0 + a1 = a, alpha = x - a, the same at both servers)."""

    def __enter__(self):
        from tf_encrypted.protocol.pond import pond as P
        self.P, mon = P, self
        self.bad, self.n, self.graph = [], {"public": 0, "private": 0, "masked": 0}, 0
        self.saved = {}
        for cls, fn in ((P.PondPublicTensor, self.public), (P.PondPrivateTensor, self.private), (P.PondMaskedTensor, self.masked)):
            self.saved[cls] = cls.__init__

            def init(s, *a, _o=cls.__init__, _f=fn, **k):
                _o(s, *a, **k)
                try:
                    _f(s)
                except (AttributeError, NotImplementedError, TypeError):
                    mon.graph += 1
            cls.__init__ = init
        return self

    def __exit__(self, *e):
        for c, i in self.saved.items():
            c.__init__ = i

    @staticmethod
    def mod(t):
        return int(t.factory.modulus)

    def public(self, t):
        a, b = (tfx.ring(v) for v in t.unwrapped)
        self.n["public"] += 1
        if a.shape != b.shape or not np.array_equal(a, b):
            self.bad.append(("public", str(a.shape), tfx.ShareMonitor._where()))

    def private(self, t):
        a, b = (tfx.ring(v) for v in t.unwrapped)
        self.n["private"] += 1
        if a.shape != b.shape:
            self.bad.append(("private-shape", "%s %s" % (a.shape, b.shape), tfx.ShareMonitor._where()))

    def masked(self, t):
        m = self.mod(t.a)
        r = lambda v: np.asarray(tfx.ring(v) % m, dtype=object)
        a, a0, a1, l0, l1 = (r(v) for v in t.unwrapped)
        x = np.asarray((tfx.ring(t.unmasked.unwrapped[0]) + tfx.ring(t.unmasked.unwrapped[1])) % m, dtype=object)
        self.n["masked"] += 1
        if len({v.shape for v in (a, a0, a1, l0, l1, x)}) != 1:
            self.bad.append(("masked-shape", str([v.shape for v in (a, a0, a1, l0, l1, x)]), tfx.ShareMonitor._where()))
        elif not np.array_equal((a0 + a1) % m, a):
            self.bad.append(("mask-shares", "a0 + a1 != a", tfx.ShareMonitor._where()))
        elif not np.array_equal(l0, l1) or not np.array_equal(l0, (x - a) % m):
            self.bad.append(("masked-value", "alpha != x - a", tfx.ShareMonitor._where()))

    def report(self, ctx):
        for k, v in self.n.items():
            ctx.event(k + "_tensors_monitored", v)
        ctx.event("oracle_checks", sum(self.n.values()))
        for b in self.bad[:3]:
            ctx.violate("consistency:" + b[0], str(b))


def draw(gen, e):
    for _ in range(30):
        op = gen(e)
        if op is not None:
            return op
    return None


def run_op(ctx, prot, op, e):
    xs = [i.make(prot) for i in op.ins]
    raws = [i.raw for i in op.ins]
    ctx.seen(e.kind, *op.sig())
    ctx.event("op:" + op.name.split(":")[0])
    out = op.f(prot, *xs)
    outs = list(out) if isinstance(out, (list, tuple)) else [out]
    return judge(ctx, prot, op, e, outs, raws)


def judge(ctx, prot, op, e, outs, raws):
    if op.judge:
        op.judge(ctx, prot, outs, raws)
        return outs
    want = op.ref(*raws)
    mech = "value:" + op.name
    if not ctx.expect(len(want) == len(outs), mech, "%d outputs, want %d" % (len(outs), len(want))):
        return outs
    for o, w in zip(outs, want):
        got = ring(e, o)
        w = np.asarray(w, dtype=object)
        if op.tol is None:
            ctx.equal(got, w, mech, "params %s" % (op.params,))
        else:
            if not ctx.expect(got.shape == w.shape, mech, "shape %s want %s %s" % (got.shape, w.shape, op.params)):
                continue
            ctx.close(diff(got, w), np.zeros(w.shape), op.tol, mech, "params %s" % (op.params,))
        want_scaled = any(i.scaled for i in op.ins) and op.name != "equal" if op.scaled is None else op.scaled
        ctx.expect(bool(o.is_scaled) == want_scaled, "scaling:" + op.name.split(":")[0], "is_scaled %s" % o.is_scaled)
        if not is_public(o):
            ctx.equal(ring(e, prot.reveal(o)), got, "reveal:" + op.name.split(":")[0])
        # the decoded number a user sees
        r = prot.reveal(o) if not is_public(o) else o
        if np.all(np.abs(got) < e.bound) and not (not want_scaled and e.nb == 100):
            ctx.close(tfx.npv(r), np.asarray(got, dtype=np.float64) / (e.s if want_scaled else 1),
                      1e-9 * np.maximum(1, np.abs(np.asarray(got, dtype=np.float64))), "decode:" + op.name.split(":")[0])
    return outs


def op_cases(gens, tier, quick_n, thorough_n, chunk=20, kinds=KINDS):
    n = quick_n if tier == "quick" else thorough_n
    out, seen = [], {}
    for g in gens:
        k = seen.get(g.__name__, 0)
        seen[g.__name__] = k + 1
        for kind in kinds:
            done = j = 0
            while done < n:
                m = min(chunk, n - done)
                out.append(("%s/%s/%d.%d" % (g.__name__, kind, k, j), (g.__name__, kind, m)))
                done += m
                j += 1
    return out


def run_ops(ctx, payload, cls=None, mod=None):
    import sys
    gname, kind, n = payload
    gen = getattr(mod or sys.modules[__name__], gname)
    from tf_encrypted.protocol import Pond
    prot = tfx.pond(kind, cls or Pond)
    e = Env(kind, ctx.rng)
    with Monitor() as mon:
        for k in range(n):
            op = draw(gen, e)
            if op is None:
                continue
            try:
                run_op(ctx, prot, op, e)
            except Exception as ex:
                import traceback
                tb = traceback.format_exc().splitlines()
                ctx.violate("raised:" + op.name, "%s %s | %s" % (op.sig(), type(ex).__name__ + ": " + str(ex)[:300],
                                                                 " / ".join(t.strip() for t in tb[-5:-1])))
            if k % 10 == 9:
                tfx.clear_cache()
    mon.report(ctx)
