"""Operation generators for the ABY3 protocol with an independent integer / real
reference.  Each generator draws one operation instance and returns a Op.

Exact operations are compared on ring elements (python ints, no rounding);
approximate ones on reals with a tolerance in units of the last place."""
import math
from fractions import Fraction

import numpy as np

from vlib import tfx
from vlib.tfx import ARITH, BOOL, T, limbs, tf


class In:
    """One input: raw ring integers + how it enters the protocol."""

    def __init__(self, raw, kind="priv", scaled=True, share=ARITH, fac=None):
        self.raw = np.asarray(raw, dtype=object)
        self.kind, self.scaled, self.share, self.fac = kind, scaled, share, fac

    def sig(self):
        return (self.kind, self.raw.shape, self.scaled, self.share, self.fac)

    def make(self, prot):
        f = prot.fixedpoint_config.precision_fractional
        nb = prot.fixedpoint_config.nbits
        fac = T.factories[self.fac] if self.fac is not None else None
        if self.scaled:
            val = np.asarray(self.raw / (1 << f), dtype=np.float64)
        elif self.fac == tf.bool:
            val = np.asarray(self.raw, dtype=bool)
        elif nb == 128 and self.fac in (None, 128):
            val = np.asarray(self.raw, dtype=object)
        else:
            dt = {None: np.int64, 8: np.int8, 16: np.int16, 32: np.int32, 64: np.int64}[self.fac]
            val = np.asarray(self.raw, dtype=dt)
        val = np.asarray(val)
        if self.kind == "priv":
            return prot.define_private_variable(val, apply_scaling=self.scaled,
                                                share_type=self.share, factory=fac)
        if self.kind == "pub":
            return prot.define_public_variable(val, apply_scaling=self.scaled, factory=fac)
        if self.kind == "const":
            return prot.define_constant(val, apply_scaling=self.scaled, factory=fac)
        if self.kind == "input":
            return prot.define_private_input("inputter", lambda: tf.constant(val),
                                             apply_scaling=self.scaled, share_type=self.share,
                                             factory=fac)
        if self.kind == "np":
            return val
        if self.kind == "py":
            return val.item()
        raise ValueError(self.kind)


class Op:
    """ref: raw object arrays -> list of expected raw arrays (exact), or, with
    tol given, list of expected float arrays in ring units (ulps)."""

    def __init__(self, name, ins, f, ref, tol=None, bits=None, params=()):
        self.name, self.ins, self.f, self.ref, self.tol = name, ins, f, ref, tol
        self.bits, self.params = bits, params

    def sig(self):
        return (self.name, self.params) + tuple(i.sig() for i in self.ins)


def shape(rng, rank=None, lo=1, hi=5):
    rank = int(rng.integers(0, 5)) if rank is None else rank
    return tuple(int(rng.integers(lo, hi)) for _ in range(rank))


def ints(rng, shp, bits):
    """hostile signed ints of at most `bits` bits: mix of magnitudes and corners."""
    n = int(np.prod(shp)) if shp else 1
    out = []
    lim = (1 << (bits - 1)) - 1
    for _ in range(n):
        k = rng.integers(0, 10)
        if k == 0:
            v = [0, 1, -1, lim, -lim - 1, lim - 1, 1 << (bits // 2), -(1 << (bits // 2))][rng.integers(0, 8)]
        elif k < 4:
            b = int(rng.integers(1, bits))
            v = int.from_bytes(rng.bytes(17), "little") % (1 << b)
            v = -v if rng.integers(0, 2) else v
        else:
            v = int.from_bytes(rng.bytes(17), "little") % (1 << bits) - (1 << (bits - 1))
        out.append(max(-lim - 1, min(lim, v)))
    a = np.empty(n, dtype=object)
    a[:] = out
    return a.reshape(shp)


class Env:
    def __init__(self, cfg, rng):
        self.cfg, self.rng = cfg, rng
        self.nb = 64 if cfg == "l" else 128
        self.f = 16 if cfg == "l" else 32
        # scaled values enter through float64: keep raw exactly representable
        self.vb = 11 + 16 if cfg == "l" else 20 + 32

    def full(self, shp, kind="priv", share=ARITH):
        if kind == "input" and self.nb == 128:
            kind = "priv"  # an input function returns a tf tensor: no raw 128-bit form
        return In(ints(self.rng, shp, self.nb), kind, False, share)

    def val(self, shp, kind="priv", share=ARITH, bits=None):
        return In(ints(self.rng, shp, bits or self.vb), kind, True, share)

    def any(self, shp, kind="priv", share=ARITH):
        return self.full(shp, kind, share) if self.rng.integers(0, 2) else self.val(shp, kind, share)

    def sgn(self, v):
        return tfx.signed(v, self.nb)


def bcast(rng, shp):
    """a shape broadcastable to shp"""
    k = rng.integers(0, 4)
    if k == 0 or not shp:
        return shp
    s = [d if rng.integers(0, 2) else 1 for d in shp]
    if k == 1:
        s = s[int(rng.integers(0, len(s))):]
    return tuple(s)


PP = [("priv", "priv"), ("priv", "pub"), ("pub", "priv"), ("priv", "const"), ("const", "priv"),
      ("pub", "pub"), ("input", "priv")]
LIFT = [("priv", "np"), ("np", "priv"), ("priv", "py"), ("py", "priv"), ("pub", "np"), ("py", "pub")]


def pick(rng, xs):
    return xs[int(rng.integers(0, len(xs)))]


# ------------------------------------------------------------------ linear ops
def op_addsub(e):
    rng = e.rng
    ka, kb = pick(rng, PP + LIFT)
    scaled = bool(rng.integers(0, 2))
    shp = shape(rng)
    sa, sb = (bcast(rng, shp), shp) if rng.integers(0, 2) else (shp, bcast(rng, shp))
    mk = e.val if (scaled or "py" in (ka, kb) or "np" in (ka, kb)) else e.full
    if "py" in (ka, kb):
        sa, sb = (() if ka == "py" else shp), (() if kb == "py" else shp)
    if ka in ("np", "py") or kb in ("np", "py"):
        # lifted operands take the other's scaling: stay in exactly encodable range
        a, b = In(ints(rng, sa, e.vb), ka, True), In(ints(rng, sb, e.vb), kb, True)
    else:
        a, b = mk(sa, ka), mk(sb, kb)
    name = pick(rng, ["add", "sub", "+", "-"])
    f = {"add": lambda p, x, y: p.add(x, y), "sub": lambda p, x, y: p.sub(x, y),
         "+": lambda p, x, y: x + y, "-": lambda p, x, y: x - y}[name]
    if ka in ("np", "py") and kb == "np":
        return None
    if ka == "np" and name in "+-":
        name, f = "add", (lambda p, x, y: p.add(x, y))  # numpy's own operators would intercept
    add = name in ("add", "+")
    return Op("addsub:" + name + ":" + ka + ":" + kb, [a, b], f,
              lambda x, y: [e.sgn(x + y if add else x - y)])


def op_negate(e):
    k = pick(e.rng, ["priv", "pub", "const", "input"])
    return Op("negative:" + k, [e.any(shape(e.rng), k)],
              pick(e.rng, [lambda p, x: p.negative(x), lambda p, x: -x]), lambda x: [e.sgn(-x)])


def op_addn(e):
    n = int(e.rng.integers(1, 6))
    shp = shape(e.rng)
    return Op("add_n", [e.val(shp) for _ in range(n)], lambda p, *xs: p.add_n(list(xs)),
              lambda *xs: [e.sgn(sum(xs[1:], xs[0]))], params=n)


def op_reduce_sum(e):
    rng = e.rng
    k = pick(rng, ["priv", "pub"])
    shp = shape(rng, int(rng.integers(1, 5)))
    ax = pick(rng, [None] + list(range(len(shp))) + [-a - 1 for a in range(len(shp))])
    if len(shp) >= 2 and rng.integers(0, 4) == 0:
        ax = [0, len(shp) - 1]
    kd = bool(rng.integers(0, 2))
    nax = tuple(ax) if isinstance(ax, list) else ax
    x = e.any(shp, k)
    return Op("reduce_sum:" + k, [x], lambda p, x: p.reduce_sum(x, axis=ax, keepdims=kd),
              lambda x: [e.sgn(np.asarray(x.sum(axis=nax, keepdims=kd), dtype=object))], params=(str(ax), kd))


def op_mul_int(e):
    """multiplication by an unscaled public integer, exact in the ring"""
    rng = e.rng
    shp = shape(rng)
    a, b = e.full(shp, "priv"), e.full(bcast(rng, shp), pick(rng, ["pub", "const", "priv"]))
    sw = bool(rng.integers(0, 2))
    f = (lambda p, x, y: p.mul(y, x)) if sw else (lambda p, x, y: p.mul(x, y))
    return Op("mul_int:" + b.kind, [a, b], f, lambda x, y: [e.sgn(x * y)], params=sw)


def op_matmul_int(e):
    rng = e.rng
    m, k, n = (int(rng.integers(1, 6)) for _ in range(3))
    ka, kb = pick(rng, [("priv", "priv"), ("priv", "pub"), ("pub", "priv")])
    return Op("matmul_int:%s:%s" % (ka, kb), [e.full((m, k), ka), e.full((k, n), kb)],
              lambda p, x, y: p.matmul(x, y), lambda x, y: [e.sgn(x.dot(y))])


def op_lshift(e):
    s = int(e.rng.integers(0, e.nb))
    return Op("lshift", [e.any(shape(e.rng), share=pick(e.rng, [ARITH, BOOL]))],
              pick(e.rng, [lambda p, x: p.lshift(x, s), lambda p, x: x << s]),
              lambda x: [e.sgn(x * (1 << s))], params=s)


# -------------------------------------------------------------- structural ops
def _struct_in(e, shp, kinds=("priv", "pub")):
    rng = e.rng
    k = pick(rng, list(kinds))
    sh = pick(rng, [ARITH, BOOL]) if k == "priv" else ARITH
    if k == "priv" and sh == BOOL and rng.integers(0, 3) == 0:
        return In(rng.integers(0, 2, size=shp).astype(object), k, False, BOOL, tf.bool)
    return e.any(shp, k, sh)


def op_reshape(e):
    rng = e.rng
    shp = shape(rng, int(rng.integers(1, 5)))
    n = int(np.prod(shp))
    divs = [d for d in range(1, n + 1) if n % d == 0]
    d = pick(rng, divs)
    tgt = pick(rng, [[n], [-1], [d, n // d], (n // d, d), [d, -1], [1, n, 1], (-1, d)])
    return Op("reshape", [_struct_in(e, shp)],
              pick(rng, [lambda p, x: p.reshape(x, tgt), lambda p, x: x.reshape(tgt)]),
              lambda x: [x.reshape(tgt)], params=str(tgt))


def op_transpose(e):
    rng = e.rng
    shp = shape(rng, int(rng.integers(1, 5)))
    perm = None if rng.integers(0, 4) == 0 else [int(a) for a in rng.permutation(len(shp))]
    return Op("transpose", [_struct_in(e, shp)],
              pick(rng, [lambda p, x: p.transpose(x, perm), lambda p, x: x.transpose(perm)]),
              lambda x: [x.transpose(perm)], params=str(perm))


def op_concat(e):
    rng = e.rng
    r = int(rng.integers(1, 4))
    shp = list(shape(rng, r))
    ax = int(rng.integers(-r, r))
    n = int(rng.integers(2, 4))
    first = None
    ins = []
    for _ in range(n):
        s = list(shp)
        s[ax] = int(rng.integers(1, 4))
        if first is None:
            first = _struct_in(e, tuple(s))
            ins.append(first)
        elif first.fac == tf.bool:
            ins.append(In(rng.integers(0, 2, size=s).astype(object), "priv", False, BOOL, tf.bool))
        else:
            ins.append(In(ints(rng, tuple(s), e.vb), first.kind, first.scaled, first.share))
    return Op("concat", ins, lambda p, *xs: p.concat(list(xs), axis=ax),
              lambda *xs: [np.concatenate(xs, axis=ax)], params=ax)


def op_stack(e):
    rng = e.rng
    r = int(rng.integers(0, 4))
    shp = shape(rng, r)
    ax = int(rng.integers(-r - 1, r + 1))
    first = _struct_in(e, shp)
    ins = [first]
    for _ in range(int(rng.integers(1, 3))):
        if first.fac == tf.bool:
            ins.append(In(rng.integers(0, 2, size=shp).astype(object), "priv", False, BOOL, tf.bool))
        else:
            ins.append(In(ints(rng, shp, e.vb), first.kind, first.scaled, first.share))
    return Op("stack", ins, lambda p, *xs: p.stack(list(xs), axis=ax),
              lambda *xs: [np.stack(xs, axis=ax)], params=ax)


def op_expand_dims(e):
    rng = e.rng
    r = int(rng.integers(0, 4))
    ax = int(rng.integers(-r - 1, r + 1))
    return Op("expand_dims", [_struct_in(e, shape(rng, r))], lambda p, x: p.expand_dims(x, axis=ax),
              lambda x: [np.expand_dims(x, ax)], params=ax)


def op_squeeze(e):
    rng = e.rng
    shp = list(shape(rng, int(rng.integers(2, 5)), 2, 4))
    i = int(rng.integers(0, len(shp)))
    shp[i] = 1
    ax = pick(rng, [None, i, i - len(shp), [i]])
    nax = tuple(ax) if isinstance(ax, list) else ax
    return Op("squeeze", [_struct_in(e, tuple(shp))], lambda p, x: p.squeeze(x, axis=ax),
              lambda x: [x.squeeze(axis=nax)], params=str(ax))


def op_strided_slice(e):
    rng = e.rng
    shp = shape(rng, int(rng.integers(1, 4)), 2, 7)
    b, en, st = [], [], []
    for d in shp:
        lo = int(rng.integers(0, d))
        hi = int(rng.integers(lo + 1, d + 1))
        b.append(lo), en.append(hi), st.append(int(rng.integers(1, 3)))
    kw = bool(rng.integers(0, 2))
    f = (lambda p, x: p.strided_slice(x, b, en, strides=st)) if kw else (lambda p, x: p.strided_slice(x, b, en, st))
    sl = tuple(slice(*t) for t in zip(b, en, st))
    return Op("strided_slice", [_struct_in(e, shp)], f, lambda x: [x[sl]], params=str((b, en, st)))


def op_index(e):
    rng = e.rng
    shp = shape(rng, int(rng.integers(1, 4)), 2, 6)
    form = int(rng.integers(0, 5))
    if form == 0:
        sl = int(rng.integers(0, shp[0]))
    elif form == 1:
        sl = slice(int(rng.integers(0, shp[0] - 1)), shp[0])
    elif form == 2:
        sl = tuple(slice(0, max(1, d - 1)) for d in shp)
    elif form == 3:
        sl = (int(rng.integers(0, shp[0])),) + tuple(slice(None) for _ in shp[1:])
    else:
        sl = (Ellipsis, slice(0, 1))
    return Op("index", [_struct_in(e, shp)], lambda p, x: x[sl], lambda x: [np.asarray(x[sl], dtype=object)],
              params=str(sl))


def op_gather(e):
    rng = e.rng
    shp = shape(rng, int(rng.integers(1, 4)), 2, 6)
    ax = int(rng.integers(-1, len(shp)))
    idx = [int(i) for i in rng.integers(0, shp[ax], size=int(rng.integers(1, 6)))]
    return Op("gather", [_struct_in(e, shp)], lambda p, x: p.gather(x, idx, axis=ax),
              lambda x: [np.take(x, idx, axis=ax)], params=(ax, tuple(idx)))


def op_split(e):
    rng = e.rng
    shp = list(shape(rng, int(rng.integers(1, 4)), 1, 4))
    ax = int(rng.integers(-1, len(shp)))
    if rng.integers(0, 2):
        k = int(rng.integers(1, 4))
        shp[ax] = k * int(rng.integers(1, 3))
        arg, cuts = k, k
    else:
        parts = [int(v) for v in rng.integers(1, 4, size=int(rng.integers(1, 4)))]
        shp[ax] = sum(parts)
        arg, cuts = parts, list(np.cumsum(parts)[:-1])
    return Op("split", [_struct_in(e, tuple(shp))], lambda p, x: p.split(x, arg, axis=ax),
              lambda x: np.split(x, cuts, axis=ax), params=(str(arg), ax))


def op_tile(e):
    rng = e.rng
    shp = shape(rng, int(rng.integers(1, 4)))
    m = [int(v) for v in rng.integers(1, 4, size=len(shp))]
    return Op("tile", [e.any(shp, pick(rng, ["priv", "pub"]), ARITH)], lambda p, x: p.tile(x, m), lambda x: [np.tile(x, m)], params=tuple(m))


def op_pad(e):
    rng = e.rng
    shp = shape(rng, int(rng.integers(1, 4)))
    pd = [[int(a) for a in rng.integers(0, 3, size=2)] for _ in shp]
    x = e.any(shp, pick(rng, ["priv"]))
    return Op("pad", [x], lambda p, x: p.pad(x, pd), lambda x: [np.pad(x, pd)], params=str(pd))


def op_reverse(e):
    rng = e.rng
    shp = shape(rng, int(rng.integers(1, 4)))
    ax = [int(rng.integers(-1, len(shp)))]
    return Op("reverse", [e.any(shp, "priv", pick(rng, [ARITH, BOOL]))], lambda p, x: p.reverse(x, ax),
              lambda x: [np.flip(x, ax[0])], params=str(ax))


def _patches(x, ph, pw, sh, sw, padding, fill=0):
    """NHWC patches of an object array, tf.image.extract_patches layout"""
    n, h, w, c = x.shape
    if padding == "SAME":
        oh, ow = -(-h // sh), -(-w // sw)
        pt, pl = max((oh - 1) * sh + ph - h, 0), max((ow - 1) * sw + pw - w, 0)
        x = np.pad(x, [[0, 0], [pt // 2, pt - pt // 2], [pl // 2, pl - pl // 2], [0, 0]], constant_values=fill)
        x = np.asarray(np.frompyfunc(int, 1, 1)(x), dtype=object)  # np.pad puts numpy integers
    else:
        oh, ow = (h - ph) // sh + 1, (w - pw) // sw + 1
    out = np.empty((n, oh, ow, ph * pw * c), dtype=object)
    for i in range(oh):
        for j in range(ow):
            out[:, i, j, :] = x[:, i * sh:i * sh + ph, j * sw:j * sw + pw, :].reshape(n, -1)
    return out


def op_im2patches(e):
    rng = e.rng
    n, c = int(rng.integers(1, 3)), int(rng.integers(1, 3))
    ph, pw = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    h, w = int(rng.integers(ph, 7)), int(rng.integers(pw, 7))
    st = [int(rng.integers(1, 3)), int(rng.integers(1, 3))]
    pad = pick(rng, ["SAME", "VALID"])
    fmt = pick(rng, ["NCHW", "NHWC"])
    shp = (n, c, h, w) if fmt == "NCHW" else (n, h, w, c)

    def ref(x):
        y = x.transpose(0, 2, 3, 1) if fmt == "NCHW" else x
        y = _patches(y, ph, pw, st[0], st[1], pad)
        return [y.transpose(0, 3, 1, 2) if fmt == "NCHW" else y]
    return Op("im2patches", [e.any(shp)], lambda p, x: p.im2patches(x, [ph, pw], strides=st, padding=pad, data_format=fmt),
              ref, params=(ph, pw, str(st), pad, fmt))


def op_im2col(e):
    rng = e.rng
    n, c = int(rng.integers(1, 3)), int(rng.integers(1, 3))
    ph, pw = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    h, w = int(rng.integers(ph, 7)), int(rng.integers(pw, 7))
    st = [int(rng.integers(1, 3)), int(rng.integers(1, 3))]
    pad = pick(rng, ["SAME", "VALID"])

    def ref(x):
        y = _patches(x.transpose(0, 2, 3, 1), ph, pw, st[0], st[1], pad)
        _, oh, ow, _ = y.shape
        y = y.reshape(n, oh, ow, ph, pw, c).transpose(5, 3, 4, 1, 2, 0)
        return [y.reshape(c * ph * pw, -1)]
    return Op("im2col", [e.any((n, c, h, w), pick(rng, ["priv", "pub"]))],
              lambda p, x: p.im2col(x, ph, pw, st, pad), ref, params=(ph, pw, str(st), pad))


def op_patches2im(e):
    """adjoint of im2patches: overlapping contributions are summed"""
    rng = e.rng
    n, c = int(rng.integers(1, 3)), int(rng.integers(1, 3))
    ph, pw = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    h, w = int(rng.integers(ph, 7)), int(rng.integers(pw, 7))
    st = [int(rng.integers(1, 3)), int(rng.integers(1, 3))]
    pad = pick(rng, ["SAME", "VALID"])
    fmt = pick(rng, ["NCHW", "NHWC"])
    oh, ow = (-(-h // st[0]), -(-w // st[1])) if pad == "SAME" else ((h - ph) // st[0] + 1, (w - pw) // st[1] + 1)
    shp = (n, oh, ow, ph * pw * c)
    if fmt == "NCHW":
        shp = (n, ph * pw * c, oh, ow)

    def ref(x):
        y = x.transpose(0, 2, 3, 1) if fmt == "NCHW" else x
        H, W = max(h, (oh - 1) * st[0] + ph), max(w, (ow - 1) * st[1] + pw)
        out = np.zeros((n, H, W, c), dtype=object)
        for i in range(oh):
            for j in range(ow):
                out[:, i * st[0]:i * st[0] + ph, j * st[1]:j * st[1] + pw, :] += y[:, i, j, :].reshape(n, ph, pw, c)
        if pad == "SAME":
            pt, pl = (oh - 1) * st[0] + ph - h, (ow - 1) * st[1] + pw - w
            pt, pl = max(pt, 0) // 2, max(pl, 0) // 2
            out = out[:, pt:pt + h, pl:pl + w]
        out = e.sgn(out[:, :h, :w])
        return [out.transpose(0, 3, 1, 2) if fmt == "NCHW" else out]
    return Op("patches2im", [e.any(shp)],
              lambda p, x: p.patches2im(x, [ph, pw], strides=st, padding=pad, img_size=(h, w), data_format=fmt),
              ref, params=(ph, pw, str(st), pad, fmt, h, w))


def op_expand(e):
    rng = e.rng
    shp = shape(rng, int(rng.integers(2, 5)), 1, 4)
    s = int(rng.integers(1, 4))

    def ref(x):
        out = np.zeros(((shp[0] - 1) * s + 1, (shp[1] - 1) * s + 1) + shp[2:], dtype=object)
        out[::s, ::s] = x
        return [out]
    return Op("expand", [e.any(shp)], lambda p, x: p.expand(x, s), ref, params=s)


def op_conv2d_int(e):
    rng = e.rng
    return _conv(e, True)


def _conv(e, exact):
    rng = e.rng
    n, c, o = (int(rng.integers(1, 3)) for _ in range(3))
    ph, pw = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    h, w = int(rng.integers(ph, 7)), int(rng.integers(pw, 7))
    st = [int(rng.integers(1, 3)), int(rng.integers(1, 3))]
    pad = pick(rng, ["SAME", "VALID"])
    ka, kb = pick(rng, [("priv", "priv"), ("priv", "pub"), ("pub", "priv")])

    def conv(x, k):
        y = _patches(x.transpose(0, 2, 3, 1), ph, pw, st[0], st[1], pad)
        z = np.tensordot(y, k.reshape(ph * pw * c, o), axes=(3, 0))
        return z.transpose(0, 3, 1, 2)
    f = lambda p, x, k: p.conv2d(x, k, st, pad)
    prm = (ph, pw, str(st), pad)
    if exact:
        return Op("conv2d_int:%s:%s" % (ka, kb), [e.full((n, c, h, w), ka), e.full((ph, pw, c, o), kb)], f,
                  lambda x, k: [e.sgn(conv(x, k))], params=prm)
    b = mulbits(e, ph * pw * c)
    return Op("conv2d:%s:%s" % (ka, kb), [e.val((n, c, h, w), ka, bits=b), e.val((ph, pw, c, o), kb, bits=b)], f,
              lambda x, k: [fdiv(conv(x, k), e.f)], tol=ULP, params=prm)


# --------------------------------------------------------- multiplicative ops
ULP = 1.0  # probabilistic truncation returns floor or floor+1: within 1 ulp


def fdiv(x, f):
    """exact product -> exact quotient in ulps"""
    return np.asarray(np.frompyfunc(lambda v: Fraction(int(v), 1 << f), 1, 1)(np.asarray(x, dtype=object)), dtype=object)


def mulbits(e, terms=1):
    """operand width such that |sum of products| < 2^(nb-2)"""
    hi = (e.nb - 1 - max(0, math.ceil(math.log2(max(terms, 1))))) // 2
    return min(hi, 52)


def wide(e, *ins):
    """scale 128-bit operands up (exactly representable), so that products get near the end of the ring"""
    if e.nb == 128 and e.rng.integers(0, 2):
        for x in ins:
            x.raw = np.asarray(x.raw * (1 << int(e.rng.integers(0, 11))), dtype=object)
    elif e.nb == 64 and e.rng.integers(0, 3) == 0 and len(ins) == 2:
        x = ins[int(e.rng.integers(0, 2))]
        x.raw = np.asarray(x.raw * 2, dtype=object)
    return list(ins)


def op_mul(e):
    rng = e.rng
    shp = shape(rng)
    ka, kb = pick(rng, [("priv", "priv")] * 3 + [("priv", "pub"), ("pub", "priv"), ("priv", "const"),
                        ("priv", "np"), ("np", "priv"), ("input", "priv"), ("pub", "pub")])
    b = mulbits(e)
    sb = bcast(rng, shp)
    sa, sb = (shp, sb) if rng.integers(0, 2) else (sb, shp)
    f = pick(rng, [lambda p, x, y: p.mul(x, y), lambda p, x, y: x * y]) if ka != "np" else (lambda p, x, y: p.mul(x, y))
    return Op("mul:%s:%s" % (ka, kb), wide(e, e.val(sa, ka, bits=b), e.val(sb, kb, bits=b)), f,
              lambda x, y: [fdiv(x * y, e.f)], tol=ULP)


def op_mul_py(e):
    rng = e.rng
    shp = shape(rng)
    v = pick(rng, [0.5, 2, 4.0, 0.25, 8, -1, -2.0, 3, 1, 0.375, 1.5, -0.75, 0, 1024, 2.0 ** -10])
    c = int(v * (1 << e.f))
    k = pick(rng, ["priv", "priv", "pub"])
    if k == "pub" and isinstance(v, (int, float)) and v > 0 and math.log2(v) == int(math.log2(v)):
        k = "priv"  # shifting a public tensor by a power of two is not offered
    x = e.val(shp, k, bits=min(e.vb, e.nb - 14 - e.f))
    f = pick(rng, [lambda p, x: p.mul(x, v), lambda p, x: x * v, lambda p, x: v * x])
    return Op("mul_scalar:" + k, [x], f, lambda x: [fdiv(x * c, e.f)], tol=ULP, params=v)


def op_square(e):
    b = mulbits(e)
    return Op("square", wide(e, e.val(shape(e.rng), "priv", bits=b)), pick(e.rng, [lambda p, x: p.square(x), lambda p, x: x.square()]),
              lambda x: [fdiv(x * x, e.f)], tol=ULP)


def op_matmul(e):
    rng = e.rng
    m, k, n = (int(rng.integers(1, 7)) for _ in range(3))
    ka, kb = pick(rng, [("priv", "priv"), ("priv", "pub"), ("pub", "priv"), ("priv", "const")])
    b = mulbits(e, k)
    bat = shape(rng, 1) if (e.cfg == "l" and rng.integers(0, 4) == 0) else ()
    return Op("matmul:%s:%s" % (ka, kb), [e.val(bat + (m, k), ka, bits=b), e.val(bat + (k, n), kb, bits=b)],
              pick(rng, [lambda p, x, y: p.matmul(x, y), lambda p, x, y: x.matmul(y)]),
              lambda x, y: [fdiv(_bmm(x, y), e.f)], tol=ULP)


def _bmm(x, y):
    if x.ndim == 2:
        return x.dot(y)
    return np.stack([a.dot(b) for a, b in zip(x, y)])


def op_conv2d(e):
    return _conv(e, False)


def op_truncate(e):
    rng = e.rng
    amt = int(rng.integers(1, e.nb - 4))
    meth = pick(rng, ["default", "heuristic", "heuristic_default"])
    scaled = bool(rng.integers(0, 2))
    if scaled:
        amt = int(rng.integers(1, e.nb - 3 - e.f))
        x = e.val(shape(rng), bits=min(e.nb - 3, 52))
    else:
        x = In(ints(rng, shape(rng), e.nb - 2), "priv", False)
    if meth == "heuristic_default":
        if e.nb - 2 - (e.f + e.f) < 0:
            return None
        amt = e.f
        f = lambda p, x: p.truncate(x)
    elif meth == "default":
        f = lambda p, x: p.truncate(x, amount=amt)
    else:
        f = lambda p, x: p.truncate(x, method="heuristic", amount=amt)
    return Op("truncate:" + meth, [x], f, lambda x: [fdiv(x, amt)], tol=ULP, params=(amt, scaled))


def op_truncate_msb0(e):
    rng = e.rng
    amt = int(rng.integers(1, e.nb - 2))
    meth = pick(rng, ["secureq8", "cheetah"])
    raw = abs(ints(rng, shape(rng, int(rng.integers(1, 4))), e.nb - 1))
    raw = np.minimum(raw, (1 << (e.nb - 1)) - 1)
    # non-negative values strictly below half the ring
    raw = np.frompyfunc(lambda v: int(v) % (1 << (e.nb - 2)), 1, 1)(raw)
    return Op("truncate_msb0:" + meth, [In(raw, "priv", False)],
              lambda p, x: p.truncate_msb0(x, method=meth, amount=amt), lambda x: [fdiv(x, amt)],
              tol=ULP if meth == "secureq8" else 1.9999, params=amt)


def op_truncate_local(e):
    """local truncation: fails with probability |x|/2^(nb-1) only"""
    rng = e.rng
    b = 20
    amt = int(rng.integers(1, 16))
    return Op("truncate_local", [e.val(shape(rng), bits=b)], lambda p, x: p.truncate(x, method="local", amount=amt),
              lambda x: [fdiv(x, amt)], tol=1.9999, params=amt)


def op_div(e):
    rng = e.rng
    shp = shape(rng)
    form = int(rng.integers(0, 4))
    x = e.val(shp, "priv", bits=min(e.vb, 27))
    if form == 0:
        d = pick(rng, [2, 4, 0.5, 0.25, 16])
        return Op("div:pow2", [x], lambda p, x: x / d, lambda x: [np.asarray(np.frompyfunc(lambda v: Fraction(int(v)) / Fraction(d), 1, 1)(x), dtype=object)], tol=ULP, params=d)
    if form == 1:
        d = pick(rng, [3, -5, 0.3, 7.25, 100])
        inv = int((1.0 / d) * (1 << e.f))
        return Op("div:scalar", [x], lambda p, x: p.div(x, d), lambda x: [fdiv(x * inv, e.f)], tol=ULP, params=d)
    d = np.asarray(rng.choice([2.0, 4.0, 0.5, -1.0, 8.0], size=shp))
    inv = np.asarray(np.frompyfunc(lambda v: int((1.0 / v) * (1 << e.f)), 1, 1)(d), dtype=object)
    if form == 2:
        return Op("div:np", [x], lambda p, x: p.div(x, np.array(d)), lambda x: [fdiv(x * inv, e.f)], tol=ULP)
    return Op("div:pub", [x], lambda p, x: p.div(x, p.define_constant(np.array(d))),
              lambda x: [fdiv(x * inv, e.f)], tol=ULP)


def op_pow(e):
    rng = e.rng
    n = int(rng.integers(1, 7))
    x = e.val(shape(rng), "priv", bits=e.f + 2)  # |x| < 2

    def ref(x):
        v = np.asarray(x, dtype=np.float64) / (1 << e.f)
        return [v ** n * (1 << e.f)]
    return Op("pow", [x], pick(rng, [lambda p, x: p.pow(x, n), lambda p, x: x ** n]), ref,
              tol=n * 2.0 ** n + (0 if e.cfg == "l" else 2 ** 4), params=n)


def op_prod(e):
    rng = e.rng
    shp = list(shape(rng, int(rng.integers(1, 4)), 1, 5))
    ax = int(rng.integers(0, len(shp)))
    if rng.integers(0, 2):
        shp[ax] = int(rng.integers(1, 14))
    shp = tuple(shp)
    kd = bool(rng.integers(0, 2))
    x = e.val(shp, "priv", bits=e.f + 1)  # |x| <= 1

    def ref(x):
        v = np.asarray(x, dtype=np.float64) / (1 << e.f)
        return [np.prod(v, axis=ax, keepdims=kd) * (1 << e.f)]
    return Op("prod", [x], lambda p, x: p.prod(x, axis=ax, keepdims=kd), ref, tol=3.0 * shp[ax] + 1, params=(ax, kd))


def op_avgpool(e):
    rng = e.rng
    n, c = int(rng.integers(1, 3)), int(rng.integers(1, 3))
    ph, pw = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    h, w = int(rng.integers(ph, 7)), int(rng.integers(pw, 7))
    st = [int(rng.integers(1, 3)), int(rng.integers(1, 3))]
    pad = pick(rng, ["SAME", "VALID"])
    x = e.val((n, c, h, w), "priv", bits=min(e.vb, 30))

    def pool(x):
        y = _patches(x.transpose(0, 2, 3, 1), ph, pw, st[0], st[1], pad)
        oh, ow = y.shape[1:3]
        return y.reshape(n, oh, ow, ph * pw, c).sum(axis=3).transpose(0, 3, 1, 2)

    def judge(ctx, prot, outs, raws):
        # the mean over the window, padding counted as zeros
        s = pool(raws[0])
        got = tfx.aby3_ring(outs[0])
        if not ctx.equal(np.array(got.shape), np.array(s.shape), "value:avgpool2d", "shape %s" % (op.params,)):
            return
        d = np.array([float(Fraction(int(g)) - Fraction(int(a), ph * pw)) for g, a in zip(got.ravel(), s.ravel())])
        # 1/k is rounded to f bits, then one truncation
        tol = np.abs(s.astype(np.float64)).ravel() / (1 << e.f) * 1.001 + ULP + 1.001
        ctx.close(d, np.zeros(d.shape), tol, "value:avgpool2d", "params %s" % (op.params,))
    op = Op("avgpool2d", [x], lambda p, x: p.avgpool2d(x, [ph, pw], st, pad), None, params=(ph, pw, str(st), pad))
    op.judge = judge
    return op


def op_mul_trunc2(e):
    """Trunc2 multiplication; the shift of a wrapped masked value may carry, so it
    is only promised up to |xy| << 2^nb: error 1 ulp w.h.p."""
    b = 20
    shp = shape(e.rng)
    return Op("mul_trunc2", [e.val(shp, bits=b), e.val(shp, bits=b)], lambda p, x, y: p.mul_trunc2(x, y),
              lambda x, y: [fdiv(x * y, e.f)], tol=1.9999)


def op_mul_ab(e):
    rng = e.rng
    shp = shape(rng, int(rng.integers(1, 4)))
    bit = In(rng.integers(0, 2, size=bcast(rng, shp)).astype(object), "priv", False, BOOL, tf.bool)
    x = e.any(shp, pick(rng, ["priv", "priv", "pub"]))
    f = pick(rng, [lambda p, x, b: p.mul_ab(x, b), lambda p, x, b: x * b])
    return Op("mul_ab:" + x.kind, [x, bit], f, lambda x, b: [e.sgn(x * b)])


def op_polynomial(e):
    rng = e.rng
    deg = int(rng.integers(1, 5))
    co = [pick(rng, [0, 1, -2, 0.5, 3, -0.25, 1.75, 0.0]) for _ in range(deg + 1)]
    x = e.val(shape(rng, int(rng.integers(1, 5))), "priv", bits=e.f + 2)

    def ref(x):
        v = np.asarray(x, dtype=np.float64) / (1 << e.f)
        return [sum(c * v ** i for i, c in enumerate(co)) * (1 << e.f)]
    return Op("polynomial", [x], lambda p, x: p.polynomial(x, co), ref,
              tol=64.0 * deg + (0 if e.cfg == "l" else 64), params=str(co))


# ------------------------------------------------------------- boolean circuits
def bshape(rng):
    return shape(rng, int(rng.integers(1, 4)))


def _u(v, nb):
    return np.frompyfunc(lambda a: int(a) % (1 << nb), 1, 1)(v)


def op_bitwise(e):
    rng = e.rng
    nm = pick(rng, ["xor", "and", "or", "not"])
    fac = pick(rng, [None, None, tf.bool, 8, 16, 32])
    nb = {None: e.nb, tf.bool: 1, 8: 8, 16: 16, 32: 32}[fac]
    shp = bshape(rng)
    kb = pick(rng, ["priv", "priv", "pub", "const"]) if nm in ("xor", "and") else "priv"

    def mk(s, k):
        raw = rng.integers(0, 2, size=s).astype(object) if fac == tf.bool else ints(rng, s, nb)
        return In(raw, k, False, BOOL, fac)
    a = mk(shp, "priv")
    sg = (lambda v: _u(v, 1)) if nb == 1 else (lambda v: tfx.signed(v, nb))
    if nm == "not":
        return Op("not:%s" % fac, [a], pick(rng, [lambda p, x: p.not_(x), lambda p, x: ~x]), lambda x: [sg(~x if nb > 1 else x ^ 1)])
    sb = bcast(rng, shp)
    b = mk(sb, kb)
    sw = bool(rng.integers(0, 2))
    g = {"xor": lambda p, x, y: p.xor(x, y), "and": lambda p, x, y: p.and_(x, y), "or": lambda p, x, y: p.or_(x, y)}[nm]
    f = (lambda p, x, y: g(p, y, x)) if sw else g
    r = {"xor": lambda x, y: x ^ y, "and": lambda x, y: x & y, "or": lambda x, y: x | y}[nm]
    return Op("%s:%s:%s:%s" % (nm, fac, kb, sw), [a, b], f, lambda x, y: [sg(r(x, y))])


def op_ppa(e):
    rng = e.rng
    shp = bshape(rng)
    top = pick(rng, ["kogge_stone", "sklansky"])
    nbits = pick(rng, [None, None, int(rng.integers(1, e.nb + 1))])
    a, b = In(ints(rng, shp, e.nb), "priv", False, BOOL), In(ints(rng, shp, e.nb), "priv", False, BOOL)
    k = nbits or e.nb
    # only the nbits low bits of the sum are promised
    return Op("ppa:" + top, [a, b], lambda p, x, y: p.ppa(x, y, nbits, top),
              lambda x, y: [_u(x + y, k)], bits=k, params=nbits)


def op_carry(e):
    rng = e.rng
    shp = bshape(rng)
    pos = pick(rng, [None, int(rng.integers(0, e.nb))])
    k = (e.nb - 1 if pos is None else pos) + 1
    kb = pick(rng, ["priv", "pub"])
    a, b = In(ints(rng, shp, e.nb), "priv", False, BOOL), In(ints(rng, shp, e.nb), "priv", False, BOOL)
    return Op("carry", [a, b], lambda p, x, y: p.carry(x, y, pos),
              lambda x, y: [_u((_u(x, k) + _u(y, k)) // (1 << k), 1)], bits=1, params=pos)


def op_a2b(e):
    rng = e.rng
    nbits = pick(rng, [None, None, int(rng.integers(1, e.nb + 1))])
    x = e.any(bshape(rng))
    k = nbits or e.nb
    return Op("a2b", [x], lambda p, x: p.a2b(x, nbits), lambda x: [_u(x, k)], bits=k, params=nbits)


def op_b2a(e):
    rng = e.rng
    meth = "ppa"
    x = In(ints(rng, bshape(rng), e.nb), "priv", False, BOOL)
    return Op("b2a:" + meth, [x], lambda p, x: p.b2a(x, method=meth), lambda x: [e.sgn(x)])


def op_b2a_single(e):
    x = In(e.rng.integers(0, 2, size=bshape(e.rng)).astype(object), "priv", False, BOOL, tf.bool)
    return Op("b2a_single", [x], lambda p, x: p.b2a_single(x), lambda x: [x])


def op_bit_extract(e):
    rng = e.rng
    i = pick(rng, [0, 1, e.nb - 1, 63, e.nb // 2] + [int(rng.integers(0, e.nb)) for _ in range(5)])
    x = e.full(bshape(rng), share=pick(rng, [ARITH, BOOL]))
    return Op("bit_extract:" + x.share, [x], lambda p, x: p.bit_extract(x, i),
              lambda x: [_u(np.frompyfunc(lambda a: int(a) >> i, 1, 1)(x), 1)], bits=1, params=i)


def op_msb(e):
    x = e.any(bshape(e.rng))
    return Op("msb", [x], lambda p, x: p.msb(x), lambda x: [np.frompyfunc(lambda a: int(a < 0), 1, 1)(x)], bits=1)


def op_bshift(e):
    rng = e.rng
    s = int(rng.integers(0, e.nb))
    nm = pick(rng, ["rshift", "logical_rshift", "lshift"])
    x = In(ints(rng, bshape(rng), e.nb), "priv", False, BOOL)
    g = {"rshift": lambda v: int(v) >> s, "logical_rshift": lambda v: (int(v) % (1 << e.nb)) >> s,
         "lshift": lambda v: int(v) << s}[nm]
    return Op("b" + nm, [x], lambda p, x: getattr(p, nm)(x, s), lambda x: [e.sgn(np.frompyfunc(g, 1, 1)(x))], params=s)


def op_bits(e):
    rng = e.rng
    k = pick(rng, [None, int(rng.integers(1, min(64, e.nb) + 1))])
    if e.cfg == "h":
        k = int(rng.integers(1, 65))
    x = In(ints(rng, bshape(rng), e.nb), "priv", False, BOOL)
    n = k or e.nb

    def ref(x):
        return [np.stack([_u(np.frompyfunc(lambda a: int(a) >> i, 1, 1)(x), 1) for i in range(n)], axis=-1)]
    return Op("bits", [x], lambda p, x: p.bits(x, bitsize=k), ref, bits=1, params=k)


def op_bit_reverse(e):
    x = In(ints(e.rng, bshape(e.rng), e.nb), "priv", False, BOOL)

    def r(v):
        return int(bin(int(v) % (1 << e.nb))[2:].zfill(e.nb)[::-1], 2)
    return Op("bit_reverse", [x], lambda p, x: p.bit_reverse(x), lambda x: [e.sgn(np.frompyfunc(r, 1, 1)(x))])


def op_bit_gather(e):
    rng = e.rng
    start, stride = int(rng.integers(0, 8)), int(rng.choice([1, 2, 4, 8]))
    start = int(rng.integers(0, stride))
    x = In(ints(rng, bshape(rng), e.nb), "priv", False, BOOL)

    def g(v):
        v = int(v) % (1 << e.nb)
        return sum(((v >> i) & 1) << n for n, i in enumerate(range(start, e.nb, stride)))
    return Op("bit_gather", [x], lambda p, x: p.bit_gather(x, start, stride),
              lambda x: [e.sgn(np.frompyfunc(g, 1, 1)(x))], params=(start, stride))


def op_bit_split_gather(e):
    rng = e.rng
    stride = int(rng.choice([2, 4, 8]))
    x = In(ints(rng, bshape(rng), e.nb), "priv", False, BOOL)

    def g(v, s):
        v = int(v) % (1 << e.nb)
        return sum(((v >> i) & 1) << n for n, i in enumerate(range(s, e.nb, stride)))
    return Op("bit_split_and_gather", [x], lambda p, x: p.bit_split_and_gather(x, stride),
              lambda x: [e.sgn(np.stack([np.frompyfunc(lambda v: g(v, s), 1, 1)(x) for s in range(stride)]))],
              params=stride)


def op_xor_indices(e):
    x = In(ints(e.rng, bshape(e.rng), e.nb), "priv", False, BOOL)

    def g(v):
        v, r, i = int(v) % (1 << e.nb), 0, 0
        while v:
            if v & 1:
                r ^= i
            v >>= 1
            i += 1
        return r
    return Op("xor_indices", [x], lambda p, x: p.xor_indices(x), lambda x: [np.frompyfunc(g, 1, 1)(x)])


# ----------------------------------------------------------------- comparisons
def cmp_in(e, shp, kind="priv", scaled=None):
    """values whose differences stay below half the ring, with many ties"""
    rng = e.rng
    scaled = bool(rng.integers(0, 2)) if scaled is None else scaled
    b = min(e.vb, 52) if scaled else e.nb - 1
    raw = ints(rng, shp, b)
    m = rng.integers(0, 4, size=shp)
    small = rng.integers(-2, 3, size=shp)
    raw = np.where(m == 0, small.astype(object), raw)
    raw = np.maximum(raw, -(1 << (b - 1)) + 1)
    return In(raw, kind, scaled)


def op_compare(e):
    rng = e.rng
    shp = bshape(rng)
    nm = pick(rng, ["less_than", "less_equal", "greater_than", "greater_equal", "equal", "<", "<=", ">", ">="])
    ka, kb = pick(rng, [("priv", "priv")] * 2 + [("priv", "pub"), ("pub", "priv"), ("priv", "const"), ("priv", "py0")])
    sc = bool(rng.integers(0, 2))
    a = cmp_in(e, shp, ka, sc)
    if kb == "py0":
        a = cmp_in(e, shp, ka, True)
        v = pick(rng, [0, 1.5, -2])
        b = In(np.array(int(v * (1 << e.f)), dtype=object), "py", True)
    else:
        b = cmp_in(e, bcast(rng, shp), kb, sc)
        tie = rng.integers(0, 3, size=b.raw.shape) == 0
        if b.raw.shape == a.raw.shape:
            b.raw = np.where(tie, a.raw + rng.integers(-1, 2, size=shp).astype(object), b.raw)
            lim = (1 << (e.nb - 2)) - 1 if not sc else (1 << 51)
            b.raw = np.maximum(np.minimum(b.raw, lim), -lim)
    import operator as o
    R = {"less_than": o.lt, "less_equal": o.le, "greater_than": o.gt, "greater_equal": o.ge, "equal": o.eq,
         "<": o.lt, "<=": o.le, ">": o.gt, ">=": o.ge}
    r = R[nm]
    f = (lambda p, x, y: r(x, y)) if nm in ("<", "<=", ">", ">=") else (lambda p, x, y: getattr(p, nm)(x, y))
    return Op("cmp:%s:%s:%s" % (nm, ka, kb), [a, b], f,
              lambda x, y: [np.frompyfunc(lambda u, v: int(r(u, v)), 2, 1)(x, y)], bits=1, params=sc)


def op_equal_zero(e):
    x = cmp_in(e, bshape(e.rng))
    return Op("equal_zero", [x], lambda p, x: p.equal_zero(x),
              lambda x: [np.frompyfunc(lambda u: int(u == 0), 1, 1)(x)], bits=1)


def op_select(e):
    rng = e.rng
    shp = bshape(rng)
    bit = In(rng.integers(0, 2, size=shp).astype(object), "priv", False, BOOL, tf.bool)
    form = pick(rng, ["pp", "p_pub", "bool", "np"])
    if form == "bool":
        mk = lambda: In(rng.integers(0, 2, size=shp).astype(object), "priv", False, BOOL, tf.bool)
        a, b = mk(), mk()
    elif form == "np":
        a, b = In(ints(rng, shp, e.vb), "np", True), e.val(shp)
    else:
        sc = bool(rng.integers(0, 2))
        mk = e.val if sc else e.full
        a, b = mk(shp, "priv"), mk(shp, "priv" if form == "pp" else "pub")
    return Op("select:" + form, [bit, a, b], lambda p, c, x, y: p.select(c, x, y),
              lambda c, x, y: [np.where(c == 1, y, x)])


def op_maximum(e):
    rng = e.rng
    shp = bshape(rng)
    sc = bool(rng.integers(0, 2))
    a, b = cmp_in(e, shp, "priv", sc), cmp_in(e, shp, pick(rng, ["priv", "pub"]), sc)
    if rng.integers(0, 2):
        return Op("maximum:" + b.kind, [a, b], lambda p, x, y: p.maximum(x, y), lambda x, y: [np.maximum(x, y)])
    return Op("cmp_swap:" + b.kind, [a, b], lambda p, x, y: list(p.cmp_swap(x, y)),
              lambda x, y: [np.minimum(x, y), np.maximum(x, y)])


def op_relu(e):
    x = cmp_in(e, bshape(e.rng), "priv", None)
    if e.rng.integers(0, 2):
        return Op("relu", [x], lambda p, x: p.relu(x), lambda x: [np.maximum(x, 0)])
    return Op("relu_with_cmp", [x], lambda p, x: list(p.relu_with_cmp(x)),
              lambda x: [np.maximum(x, 0), np.frompyfunc(lambda u: int(u > 0), 1, 1)(x)])


def op_reduce_max(e):
    rng = e.rng
    shp = shape(rng, int(rng.integers(1, 4)), 1, 6)
    meth = pick(rng, ["tree", "network"])
    ax = pick(rng, [None] + list(range(len(shp))) + [-1])
    kd = bool(rng.integers(0, 2))
    x = cmp_in(e, shp)
    f = lambda p, x: p.reduce_max(x, axis=ax, keepdims=kd, method=meth)
    return Op("reduce_max:" + meth, [x], f,
              lambda x: [np.asarray(np.max(x, axis=ax, keepdims=kd), dtype=object)], params=(ax, kd))


def _firstmax(x, ax):
    """argmax with the protocol's tie rule left open: returned as the set"""
    return x == np.max(x, axis=ax, keepdims=True)


def op_argmax(e):
    """max exact; argmax a position holding the maximum, one-hot exactly one"""
    rng = e.rng
    shp = shape(rng, int(rng.integers(1, 4)), 1, 6)
    ax = int(rng.integers(-1, len(shp)))
    x = cmp_in(e, shp)
    style = pick(rng, ["onehot", "normal"])
    kd = bool(rng.integers(0, 2))
    op = Op("reduce_max_with_argmax:" + style, [x],
            lambda p, x: list(p.reduce_max_with_argmax(x, axis=ax, keepdims=kd, output_style=style)), None,
            params=(ax, kd, shp))

    def judge(ctx, prot, outs, raws):
        xr = raws[0]
        mx = tfx.aby3_ring(outs[0])
        want = np.asarray(np.max(xr, axis=ax, keepdims=kd), dtype=object)
        if not ctx.equal(mx, want, "value:" + op.name, "max, params %s" % (op.params,)):
            return
        am = tfx.rev(outs[1])
        if style == "onehot":
            am = np.asarray(am).astype(int)
            if not ctx.equal(np.array(am.shape), np.array(shp), "value:" + op.name, "onehot shape %s" % (op.params,)):
                return
            ctx.equal(am.sum(axis=ax), np.ones(np.delete(shp, ax), dtype=int), "value:" + op.name,
                      "onehot must mark exactly one position %s" % (op.params,))
            ctx.expect(np.all(_firstmax(xr, ax)[am == 1]), "value:" + op.name,
                       lambda: "onehot marks a non-maximal position %s x=%s am=%s" % (op.params, xr, am))
        else:
            am = np.asarray(am)
            if not kd or am.ndim == xr.ndim - 1:
                idx = np.expand_dims(am, ax)
            else:
                idx = am
            ok = idx.shape == want.shape or idx.shape == np.expand_dims(np.max(xr, axis=ax), ax).shape
            if not ctx.expect(ok, "value:" + op.name, "argmax shape %s for %s" % (am.shape, op.params)):
                return
            inr = np.all((idx >= 0) & (idx < xr.shape[ax]) & (idx == np.round(idx)))
            if ctx.expect(inr, "value:" + op.name, lambda: "argmax out of range %s" % am):
                sel = np.take_along_axis(_firstmax(xr, ax), np.asarray(idx, dtype=np.int64), axis=ax)
                ctx.expect(np.all(sel), "value:" + op.name,
                           lambda: "argmax not at a maximum %s x=%s am=%s" % (op.params, xr, am))
    op.judge = judge
    return op


def op_sort(e):
    rng = e.rng
    shp = list(shape(rng, int(rng.integers(1, 3)), 1, 5))
    ax = int(rng.integers(0, len(shp)))
    shp[ax] = int(rng.choice([1, 2, 3, 4, 5, 6, 8]))
    acc = bool(rng.integers(0, 2))
    x = cmp_in(e, tuple(shp))

    def ref(x):
        y = np.sort(x, axis=ax)
        return [y if acc else np.flip(y, ax)]
    return Op("sort", [x], lambda p, x: p.sort(x, axis=ax, acc=acc), ref, params=(ax, acc))


def op_maxpool(e):
    rng = e.rng
    n, c = int(rng.integers(1, 3)), int(rng.integers(1, 3))
    ph, pw = int(rng.integers(1, 3)), int(rng.integers(1, 4))
    h, w = int(rng.integers(ph, 6)), int(rng.integers(pw, 6))
    st = [int(rng.integers(1, 3)), int(rng.integers(1, 3))]
    pad = "VALID" if rng.integers(0, 3) else "SAME"
    x = cmp_in(e, (n, c, h, w), "priv", True)

    def pat(x):
        y = _patches(x.transpose(0, 2, 3, 1), ph, pw, st[0], st[1], pad, -(1 << 200))
        oh, ow = y.shape[1:3]
        return y.reshape(n, oh, ow, ph * pw, c).transpose(0, 4, 1, 2, 3)
    if rng.integers(0, 3):
        return Op("maxpool2d", [x], lambda p, x: p.maxpool2d(x, [ph, pw], st, pad),
                  lambda x: [pat(x).max(axis=-1)], params=(ph, pw, str(st), pad))
    op = Op("maxpool2d_with_argmax", [x], lambda p, x: list(p.maxpool2d_with_argmax(x, [ph, pw], st, pad)), None,
            params=(ph, pw, str(st), pad))

    def judge(ctx, prot, outs, raws):
        y = pat(raws[0])
        if not ctx.equal(tfx.aby3_ring(outs[0]), y.max(axis=-1), "value:" + op.name, "params %s" % (op.params,)):
            return
        am = np.asarray(tfx.rev(outs[1])).astype(int)
        if not ctx.equal(np.array(am.shape), np.array(y.shape), "value:" + op.name, "argmax shape %s" % (op.params,)):
            return
        ctx.equal(am.sum(-1), np.ones(am.shape[:-1], dtype=int), "value:" + op.name, "onehot %s" % (op.params,))
        ctx.expect(np.all(_firstmax(y, -1)[am == 1]), "value:" + op.name, "non-maximal position %s" % (op.params,))
    op.judge = judge
    return op


LINEAR = [op_addsub, op_addsub, op_negate, op_addn, op_reduce_sum, op_reduce_sum, op_mul_int, op_matmul_int, op_lshift,
          op_reshape, op_transpose, op_concat, op_stack, op_expand_dims, op_squeeze, op_strided_slice, op_index,
          op_gather, op_split, op_tile, op_pad, op_reverse, op_im2patches, op_im2col, op_patches2im, op_expand,
          op_conv2d_int]
MULT = [op_mul, op_mul, op_mul_py, op_square, op_matmul, op_conv2d, op_truncate, op_truncate_msb0, op_truncate_local,
        op_div, op_pow, op_prod, op_avgpool, op_mul_trunc2, op_mul_ab, op_polynomial]
BOOLEAN = [op_bitwise, op_bitwise, op_ppa, op_ppa, op_carry, op_a2b, op_b2a, op_b2a_single, op_bit_extract, op_msb,
           op_bshift, op_bits, op_bit_reverse, op_bit_gather, op_bit_split_gather, op_xor_indices]
COMPARE = [op_compare, op_compare, op_equal_zero, op_select, op_maximum, op_relu, op_reduce_max, op_argmax, op_sort,
           op_maxpool]


def draw(gen, e):
    for _ in range(20):
        op = gen(e)
        if op is not None:
            return op
    return None


def run_op(ctx, prot, op, e):
    """build, run, compare; returns outputs"""
    xs = [i.make(prot) for i in op.ins]
    raws = [i.raw for i in op.ins]
    out = op.f(prot, *xs)
    outs = list(out) if isinstance(out, (list, tuple)) else [out]
    ctx.seen(*op.sig())
    ctx.event("op:" + op.name.split(":")[0])
    judge(ctx, prot, op, outs, raws)
    return xs, outs


def judge(ctx, prot, op, outs, raws):
    if getattr(op, "judge", None):
        op.judge(ctx, prot, outs, raws)
        return
    want = op.ref(*raws)
    mech = "value:" + op.name
    if not ctx.expect(len(want) == len(outs), mech, "%d outputs, want %d" % (len(outs), len(want))):
        return
    for o, w in zip(outs, want):
        got = tfx.aby3_ring(o)
        if op.bits is not None:
            got = _u(got, op.bits)
            w = _u(w, op.bits)
        w = np.asarray(w, dtype=object)
        if op.tol is None:
            ctx.equal(got, w, mech, "params %s" % (op.params,))
        else:
            ctx.close(_exactdiff(got, w), np.zeros(w.shape), op.tol, mech, "params %s" % (op.params,))
        # what the user sees agrees with the shares
        if hasattr(o, "reveal"):
            r = tfx.aby3_ring(o.reveal())
            if op.bits is not None:
                r = _u(r, op.bits)
            ctx.equal(r, got, "reveal:" + op.name.split(":")[0])


def _exactdiff(got, want):
    got = np.asarray(got, dtype=object)
    if got.shape != want.shape:
        return np.full(got.shape, np.inf)
    return np.asarray(np.frompyfunc(
        lambda a, b: float(a - (Fraction(b) if isinstance(b, float) else b)), 2, 1)(got, want), dtype=np.float64)
