"""ABY3: random programs of exact operations; every tensor built is a consistent replicated sharing."""
import numpy as np

from vlib import aby3ops as O
from vlib import tfx
from vlib.tfx import ARITH, BOOL

SPEC = dict(
    rule="one evaluation = one program of 10-40 steps over a pool of private and public tensors (arithmetic, boolean, "
         "single bits), each step's result compared on every ring element with an interpreter over integers while the "
         "replicated-sharing invariant is checked on every tensor the protocol builds; distinct = distinct sequence of "
         "operations with operand kinds and shapes",
    assumptions=["scaled operands stay in the documented range"],
    min_events={"private_tensors_monitored": 20000, "public_tensors_monitored": 1000, "steps": 1500, "op_kinds": 1},
)


def cases(tier, seed):
    n = 130 if tier == "quick" else 2500
    m = 8 if tier == "quick" else 150
    out = []
    names = []
    for g in O.COMPARE + O.BOOLEAN + O.MULT + O.LINEAR:
        if g.__name__ not in names:
            names.append(g.__name__)
    for c in "lh":
        for g in names:
            out += [("op:%s/%s/%d" % (g, c, k), (c, g)) for k in range(0, m, 8)]
        out += [("fun:%s/%s/%d" % (f, c, k), (c, "fun:" + f)) for f in FUN for k in range(1 if tier == "quick" else 20)]
    return out + [("program/%s/%d" % (c, k), (c, None)) for k in range(n) for c in "lh"]


FUN = {"sigmoid": (-9, 9), "reciprocal": (0.1, 90), "inv_sqrt": (0.1, 90), "exp2": (-9, 6), "exp": (-9, 5), "log": (.1, 1.2),
       "softmax": (-3, 3)}


def run_table(ctx, cfg, g):
    """every operation of every family, watching only the invariant"""
    rng = ctx.rng
    prot = tfx.aby3(cfg)
    e = O.Env(cfg, rng)
    with tfx.ShareMonitor() as mon:
        for _ in range(8 if not g.startswith("fun:") else 1):
            if g.startswith("fun:"):
                lo, hi = FUN[g[4:]]
                x = prot.define_private_variable(rng.uniform(lo, hi, size=(3, 5)))
                outs = [getattr(prot, g[4:])(x)]
                ctx.seen(g, cfg)
            else:
                op = O.draw(getattr(O, g), e)
                if op is None:
                    continue
                ctx.seen(*op.sig())
                out = op.f(prot, *[i.make(prot) for i in op.ins])
                outs = out if isinstance(out, (list, tuple)) else [out]
            ctx.event("steps")
            for o in outs:
                if hasattr(o, "reveal"):
                    o.reveal()
    mon.report(ctx)


class V:
    """pool entry: tensor, exact ring ints, scaled, share ('A','B','b' single bit, 'P' public)"""

    def __init__(self, t, raw, scaled, kind, bits):
        self.t, self.raw, self.scaled, self.kind, self.bits = t, np.asarray(raw, dtype=object), scaled, kind, bits


def step(rng, e, prot, pool, nb):
    """returns (name, V) or None when the drawn step does not apply"""
    sg = lambda v: tfx.signed(v, nb)
    x = pool[int(rng.integers(0, len(pool)))]
    k = x.kind
    un = ["neg", "reshape", "transpose", "slice", "expand", "reverse", "concat_self", "sum", "split", "roundtrip"]
    if k == "A":
        ops = un + ["add", "sub", "addpub", "mul", "a2b", "msb", "lshift", "mulpub", "addp", "select", "cmp", "assign", "gather"]
    elif k == "B":
        ops = ["reshape", "transpose", "slice", "expand", "concat_self", "xor", "and", "or", "not", "b2a", "shl", "shr", "lshr",
               "rev", "extract", "bits", "roundtrip", "split", "assign"]
    elif k == "b":
        ops = ["reshape", "transpose", "slice", "expand", "concat_self", "xor", "and", "or", "not", "b2a1", "roundtrip", "mulab"]
    else:
        ops = ["reshape", "transpose", "slice", "expand", "toA", "toB", "pubadd"]
    o = ops[int(rng.integers(0, len(ops)))]
    r, t = x.raw, x.t
    new = lambda t2, raw, kind=None, scaled=None, bits=None: (o, V(t2, raw, x.scaled if scaled is None else scaled,
                                                                  kind or k, bits or x.bits))
    if o in ("add", "sub", "mul", "xor", "and", "or"):
        c = [y for y in pool if y.kind == k and (o in ("mul",) or y.scaled == x.scaled) and bc(y.raw.shape, r.shape)]
        y = c[int(rng.integers(0, len(c)))] if c else x
        if o == "mul":
            if x.scaled or y.scaled:
                return None
            return new(prot.mul(t, y.t), sg(r * y.raw))
        if o == "add":
            return new(t + y.t, sg(r + y.raw))
        if o == "sub":
            return new(t - y.t, sg(r - y.raw))
        f = {"xor": lambda a, b: a ^ b, "and": lambda a, b: a & b, "or": lambda a, b: a | b}[o]
        g = np.frompyfunc(lambda a, b: f(int(a), int(b)), 2, 1)
        return new(f(t, y.t), g(r, y.raw))
    if o == "addp" or o == "pubadd" or o == "addpub":
        c = [y for y in pool if y.kind == "P" and y.scaled == x.scaled and bc(y.raw.shape, r.shape)]
        if not c:
            return None
        y = c[int(rng.integers(0, len(c)))]
        if o == "addp":
            return new(prot.sub(y.t, t), sg(y.raw - r))
        return new(t + y.t, sg(r + y.raw))
    if o == "mulpub":
        if x.scaled:
            return None
        c = int(rng.integers(-1000, 1000))
        return new(prot.mul(t, prot.define_constant(np.array([c]), apply_scaling=False)), sg(r * np.array([c], dtype=object)))
    if o == "neg":
        return new(-t, sg(-r))
    if o == "reshape":
        return new(prot.reshape(t, [-1]) if rng.integers(0, 2) else t.reshape([-1, 1]),
                   None) if False else _reshape(rng, prot, new, t, r)
    if o == "transpose":
        if r.ndim < 1:
            return None
        pm = [int(a) for a in rng.permutation(r.ndim)]
        return new(prot.transpose(t, pm), r.transpose(pm))
    if o == "slice":
        if r.ndim < 1 or r.shape[0] < 2:
            return None
        a = int(rng.integers(0, r.shape[0] - 1))
        return new(t[a:], r[a:])
    if o == "expand":
        if r.ndim > 3:
            return None
        a = int(rng.integers(0, r.ndim + 1))
        return new(prot.expand_dims(t, axis=a), np.expand_dims(r, a))
    if o == "reverse":
        if r.ndim < 1:
            return None
        return new(prot.reverse(t, [0]), np.flip(r, 0))
    if o == "concat_self":
        if r.ndim < 1 or r.size > 24:
            return None
        return new(prot.concat([t, t], axis=0), np.concatenate([r, r], axis=0))
    if o == "split":
        if r.ndim < 1 or r.shape[0] % 2 or r.shape[0] == 0:
            return None
        i = int(rng.integers(0, 2))
        return new(prot.split(t, 2, axis=0)[i], np.split(r, 2, axis=0)[i])
    if o == "gather":
        if r.ndim < 1:
            return None
        idx = [int(v) for v in rng.integers(0, r.shape[0], size=2)]
        return new(prot.gather(t, idx, axis=0), np.take(r, idx, axis=0))
    if o == "sum":
        if r.ndim < 1:
            return None
        a = int(rng.integers(0, r.ndim))
        return new(prot.reduce_sum(t, axis=a), sg(np.asarray(r.sum(axis=a), dtype=object)))
    if o == "lshift":
        s = int(rng.integers(0, nb))
        return new(t << s, sg(r * (1 << s)))
    if o == "a2b":
        return new(prot.a2b(t), r, "B")
    if o == "b2a":
        return new(prot.b2a(t), r, "A")
    if o == "b2a1":
        return new(prot.b2a_single(t), r, "A", False)
    if o == "not":
        if k == "b":
            return new(~t, 1 - r)
        return new(~t, sg(-r - 1))
    if o in ("shl", "shr", "lshr"):
        s = int(rng.integers(0, nb))
        if o == "shl":
            return new(t << s, sg(r * (1 << s)))
        if o == "shr":
            return new(t >> s, np.frompyfunc(lambda v: int(v) >> s, 1, 1)(r))
        return new(prot.logical_rshift(t, s), sg(np.frompyfunc(lambda v: (int(v) % (1 << nb)) >> s, 1, 1)(r)))
    if o == "rev":
        return new(prot.bit_reverse(t), sg(np.frompyfunc(
            lambda v: int(bin(int(v) % (1 << nb))[2:].zfill(nb)[::-1], 2), 1, 1)(r)))
    if o == "extract":
        i = int(rng.integers(0, nb))
        return new(prot.bit_extract(t, i), np.frompyfunc(lambda v: (int(v) >> i) & 1, 1, 1)(r), "b", False)
    if o == "bits":
        if r.size > 4 or r.ndim > 2:
            return None
        n = int(rng.integers(1, 9))
        return new(prot.bits(t, n), np.stack([np.frompyfunc(lambda v: (int(v) >> i) & 1, 1, 1)(r) for i in range(n)], -1), "b", False)
    if o == "msb":
        return new(prot.msb(t), np.frompyfunc(lambda v: int(v < 0), 1, 1)(r), "b", False)
    if o == "cmp":
        lim = 1 << (nb - 2)
        if any(abs(int(v)) >= lim for v in r.ravel()):
            return None
        return new(t > 0, np.frompyfunc(lambda v: int(v > 0), 1, 1)(r), "b", False)
    if o == "mulab" or o == "select":
        other = "A" if o == "mulab" else "b"
        c = [y for y in pool if y.kind == other and bc(y.raw.shape, r.shape) and (o == "mulab" or y.raw.shape == r.shape)]
        if not c:
            return None
        y = c[int(rng.integers(0, len(c)))]
        if o == "mulab":
            return new(prot.mul_ab(y.t, t), sg(y.raw * r), "A", y.scaled)
        z = -t
        return new(prot.select(y.t, t, z), np.where(y.raw == 1, sg(-r), r))
    if o == "assign":
        if not r.shape:
            return None
        sh = ARITH if k == "A" else BOOL
        if x.scaled and nb == 64:
            v = prot.define_private_variable(np.zeros(r.shape), share_type=sh)
        else:
            v = prot.define_private_variable(np.zeros(r.shape, dtype=np.int64 if not x.scaled else np.float64),
                                             apply_scaling=x.scaled, share_type=sh)
        prot.assign(v, t)
        return new(v.read_value(), r)
    if o == "roundtrip":
        if k == "b":
            return new(prot.from_bone(t.bone), r)
        return new(prot.from_bone(t.bone), r)
    if o == "toA":
        return new(t.to_private(ARITH), r, "A")
    if o == "toB":
        return new(t.to_private(BOOL), r, "B")
    raise ValueError(o)


def _reshape(rng, prot, new, t, r):
    n = r.size
    d = [a for a in range(1, n + 1) if n % a == 0]
    a = d[int(rng.integers(0, len(d)))]
    tgt = [[n], [a, n // a], [-1], [a, -1]][int(rng.integers(0, 4))]
    return new(prot.reshape(t, tgt), r.reshape(tgt))


def bc(a, b):
    """broadcastable, result no larger than the larger operand"""
    try:
        s = np.broadcast_shapes(a, b)
    except ValueError:
        return False
    return s in (a, b)


def run_case(ctx, case_id, payload):
    cfg, g = payload
    if g is not None:
        return run_table(ctx, cfg, g)
    rng = ctx.rng
    prot = tfx.aby3(cfg)
    e = O.Env(cfg, rng)
    nb = e.nb
    with tfx.ShareMonitor() as mon:
        pool = []
        for i in range(7):
            shp = O.shape(rng, int(rng.integers(1, 4)), 1, 4)
            kind = "AAABBbP"[i]
            if kind == "b":
                x = O.In(rng.integers(0, 2, size=shp).astype(object), "priv", False, BOOL, tfx.tf.bool)
            elif kind == "P":
                x = e.any(shp, "pub")
            else:
                x = e.any(shp, "priv" if rng.integers(0, 2) else "input", ARITH if kind == "A" else BOOL)
            pool.append(V(x.make(prot), x.raw, x.scaled, kind, 0))
        hist = []
        for _ in range(int(rng.integers(10, 41))):
            nbad = len(mon.bad)
            try:
                res = step(rng, e, prot, pool, nb)
            except Exception as ex:
                ctx.violate("raised:" + type(ex).__name__, "after %s: %s" % (hist[-6:], str(ex)[:300]))
                break
            if res is None:
                continue
            name, v = res
            hist.append((name, v.kind, v.raw.shape))
            ctx.event("steps")
            ctx.event("op_kinds", 0 if name in ctx.__dict__.setdefault("_k", set()) else 1)
            ctx._k.add(name)
            got = tfx.aby3_ring(v.t)
            want = v.raw if v.kind == "b" else tfx.signed(v.raw, nb)
            if v.kind == "b":
                got = np.asarray(np.frompyfunc(lambda a: int(a) & 1, 1, 1)(got), dtype=object)
            if not ctx.equal(got, np.asarray(want, dtype=object), "program-value:" + name, "history %s" % (hist[-5:],)):
                break
            want_st = {"A": ARITH, "B": BOOL, "b": BOOL}.get(v.kind)
            if want_st is not None:
                ctx.expect(v.t.share_type == want_st, "share-type:" + name)
            ctx.expect(v.t.is_scaled == v.scaled, "scaling-flag:" + name, "%s %s" % (v.t.is_scaled, v.scaled))
            if len(mon.bad) > nbad:
                break
            if v.raw.size <= 48:
                if len(pool) > 12:
                    pool.pop(int(rng.integers(0, len(pool))))
                pool.append(v)
        # opened value agrees with the words monitored
        for v in pool:
            o = tfx.aby3_ring(v.t.reveal()) if hasattr(v.t, "reveal") else tfx.aby3_ring(v.t)
            w = v.raw if v.kind == "b" else tfx.signed(v.raw, nb)
            if v.kind == "b":
                o = np.asarray(np.frompyfunc(lambda a: int(a) & 1, 1, 1)(o), dtype=object)
            ctx.equal(o, np.asarray(w, dtype=object), "program-opened")
        ctx.seen(cfg, tuple(hist))
    mon.report(ctx)
