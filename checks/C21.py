"""Compiled functions: tfe.function gives what the eager call gives, for every operation, on every call."""
import numpy as np

from vlib import aby3ops as O
from vlib import pondops as B
from vlib import snnops as S
from vlib import tfx
from vlib.tfx import tf, tfe

SPEC = dict(
    rule="one evaluation = one call of one compiled operation instance: traced once, called with new operands of the same "
         "kinds and shapes, retraced by other operands, and (compiled programs) chained through several functions; every result is "
         "compared with the integer / rational reference of the operation and its decoded value with the ring value; distinct = distinct (protocol, "
         "operation, kinds, shapes, parameters)",
    assumptions=["Pond's 100-bit tensors cannot be passed to compiled functions (they raise)"],
    min_events={"oracle_checks": 800, "values_compared": 1500, "compiled_calls": 250, "functions_compiled": 120},
    workers=8,
)
SLOW = ("op_sort", "op_reduce_max", "op_argmax", "op_maxpool", "op_carry", "op_msb", "op_ppa", "op_mul_trunc2", "op_compare", "op_relu",
        "op_private_compare", "op_truncate_msb0", "op_a2b", "op_b2a", "op_maximum")
FUN = {"sigmoid": (-9, 9), "reciprocal": (0.1, 90), "inv_sqrt": (0.1, 90), "exp2": (-9, 6), "exp": (-9, 5), "log": (.1, 1.2),
       "softmax": (-3, 3)}


def names(gens):
    out = []
    for g in gens:
        if g.__name__ not in out:
            out.append(g.__name__)
    return out


def cases(tier, seed):
    n = 1 if tier == "quick" else 15
    out = []
    for g in names(O.LINEAR + O.MULT + O.BOOLEAN + O.COMPARE):
        for c in "lh":
            if tier == "quick" and g in SLOW and c != "lh"[(seed + len(g)) % 2]:
                continue
            k = 1 if g in SLOW else 2
            out += [("aby3:%s/%s/%d" % (c, g, i), ("aby3", c, g)) for i in range(n * k)]
    for f in FUN:
        for c in "lh":
            if tier == "quick" and c != "lh"[(seed + len(f)) % 2]:
                continue
            out += [("fun:%s/%s/%d" % (c, f, i), ("fun", c, f)) for i in range(n)]
    for g in names(B.LINEAR + B.STRUCT + B.MULT):
        if g in ("op_identity", "op_reuse"):
            continue
        for c in ("64", "64ni"):
            out += [("pond:%s/%s/%d" % (c, g, i), ("pond", c, g)) for i in range(2 * n)]
    for g in names(S.COMPARE):
        if g in ("op_odd", "op_private_compare"):
            continue  # work on tensors of internal rings, which are no arguments of compiled functions
        out += [("snn:64/%s/%d" % (g, i), ("snn", "64", g)) for i in range(n)]
    for c in ("aby3:l", "aby3:h", "pond:64", "snn:64"):
        out += [("structure/%s/%d" % (c, i), ("structure", c, "")) for i in range(2 * n)]
    for c in "lh":
        out += [("loop/%s/%d" % (c, i), ("loop", c, "")) for i in range(2 * n)]
    return sorted(out, key=lambda c: c[1][2] not in SLOW)


def permuted(rng, a):
    f = a.ravel().copy()
    if f.size > 1:
        f = np.roll(f, int(rng.integers(1, f.size)))
    out = np.empty(f.size, dtype=object)
    out[:] = f
    return out.reshape(a.shape)


def run_case(ctx, case_id, payload):
    fam, cfg, g = payload
    rng = ctx.rng
    if fam == "structure":
        return structure(ctx, cfg)
    if fam == "loop":
        return loop(ctx, cfg)
    if fam == "fun":
        return fun(ctx, cfg, g)
    if fam == "aby3":
        prot, e, mod = tfx.aby3(cfg), O.Env(cfg, rng), O
    else:
        prot = tfx.pond(cfg, tfx.SecureNN if fam == "snn" else tfx.Pond)
        e, mod = B.Env(cfg, rng), (S if fam == "snn" else B)
    gen = getattr(mod, g)
    op = O.draw(gen, e) if fam == "aby3" else B.draw(gen, e)
    if op is None:
        return
    # numbers and arrays are part of the program, tensors are arguments
    if any(i.kind in ("input", "local", "pubinput") for i in op.ins):
        for i in op.ins:
            i.kind = {"input": "priv", "local": "masked", "pubinput": "pub"}.get(i.kind, i.kind)
    made = [i.make(prot) for i in op.ins]
    fixed = {k: m for k, (i, m) in enumerate(zip(op.ins, made)) if i.kind in ("np", "py")}
    order = rng.integers(0, 2)

    @tfe.function
    def compiled(*ts):
        it = iter(ts)
        xs = [fixed[k] if k in fixed else next(it) for k in range(len(made))]
        out = op.f(prot, *xs)
        return list(out) if isinstance(out, (list, tuple)) else [out]

    ctx.event("functions_compiled")
    raws0 = [i.raw for i in op.ins]
    for call in range(3):
        if call == 1 and op.params is not None and g not in ("op_odd",):
            # same kinds and shapes, other values
            for k, i in enumerate(op.ins):
                if k not in fixed:
                    i.raw = permuted(rng, raws0[k])
        elif call == 2:
            for k, i in enumerate(op.ins):
                i.raw = raws0[k]
        if call == 0 and order:
            tensors = made
        else:
            tensors = [m if k in fixed else i.make(prot) for k, (i, m) in enumerate(zip(op.ins, made))]
        args = [t for k, t in enumerate(tensors) if k not in fixed]
        ctx.seen(fam, cfg, *op.sig())
        ctx.event("compiled_calls")
        try:
            outs = compiled(*args)
        except Exception as ex:
            ctx.violate("raised:" + fam + ":" + op.name.split(":")[0],
                        "%s %s: %s" % (op.sig(), type(ex).__name__, str(ex)[-700:]))
            return
        raws = [i.raw for i in op.ins]
        if fam == "aby3":
            O.judge(ctx, prot, op, outs, raws)
        else:
            B.judge(ctx, prot, op, e, outs, raws)


def fun(ctx, cfg, g):
    prot = tfx.aby3(cfg)
    rng = ctx.rng
    lo, hi = FUN[g]

    @tfe.function
    def compiled(x):
        return getattr(prot, g)(x)
    ctx.event("functions_compiled")
    for shp in ((3, 5), (3, 5), (2, 4)):
        v = rng.uniform(lo, hi, size=shp)
        x = prot.define_private_variable(v)
        got, want = compiled(x), getattr(prot, g)(x)
        ctx.event("compiled_calls")
        ctx.seen("fun", cfg, g, shp)
        # the same circuit on the same shares, up to the last-place noise of truncation
        w = tfx.rev(want)
        ctx.close(tfx.rev(got), w, 64 * 2.0 ** -(16 if cfg == "l" else 32) * np.maximum(1, np.abs(w)), "fun:" + g, cfg)
        ctx.expect(got.is_scaled == want.is_scaled, "fun:scaling", g)


def structure(ctx, kind):
    """how arguments and results travel: lists, keywords, numbers, public and masked tensors, inputs that change between calls"""
    rng = ctx.rng
    fam, cfg = kind.split(":")
    aby = fam == "aby3"
    prot = tfx.aby3(cfg) if aby else tfx.pond(cfg, tfx.SecureNN if fam == "snn" else tfx.Pond)
    ulp = 2.0 ** -(16 if cfg == "l" else 32) if aby else 3.0 ** -8
    shp = tuple(int(v) for v in rng.integers(1, 4, size=int(rng.integers(0, 3))))

    def near(got, want, mech, tol=60):
        if hasattr(got, "unmasked"):
            got = got.unmasked
        ctx.close(tfx.rev(got) if hasattr(got, "unwrapped") else tfx.npv(got), want, tol * ulp, "structure:" + mech, kind)
        ctx.event("compiled_calls")
        ctx.seen("structure", kind, mech, shp)
    draw = lambda: np.asarray(np.round(rng.uniform(-5, 5, size=shp), 2))
    priv = lambda v: prot.define_private_variable(v)
    pub = lambda v: prot.define_public_variable(v)

    @tfe.function
    def f(xs, y=None, k=1, flag=False):
        a, (b, c) = xs
        z = a + b
        if flag:
            z = z - c
        if y is not None:
            z = z * y
        return z, [c, a], z + k
    for _ in range(3):
        a, b, c, y = draw(), draw(), draw(), draw()
        k, flag = int(rng.integers(0, 4)), bool(rng.integers(0, 2))
        wy = bool(rng.integers(0, 2))
        args = [priv(a), (priv(b), pub(c))]
        kw = dict(k=k, flag=flag)
        if wy:
            kw["y"] = priv(y) if rng.integers(0, 2) else pub(y)
        r = f(args, **kw)
        z = (a + b - (c if flag else 0)) * (y if wy else 1)
        near(r[0], z, "result")
        near(r[1][0], c, "passed-through public")
        near(r[1][1], a, "passed-through private")
        near(r[2], z + k, "number")
        ctx.expect(r[1][0].dispatch_id == "public" and r[1][1].dispatch_id == "private", "structure:kind", kind)
    ctx.event("functions_compiled")

    # an input or variable that changes between calls of one compiled function
    src = tf.Variable(draw())
    var = priv(draw())

    @tf.function
    def g():
        i = prot.define_private_input("inputter", lambda: src.read_value())
        s = i + var.read_value()
        return s.reveal().to_native()
    ctx.event("functions_compiled")
    for _ in range(4):
        a, b = draw(), draw()
        src.assign(a)
        prot.assign(var, priv(b))
        near(g(), a + b, "input")

    @tf.function
    def out(x):
        i = prot.define_private_input("inputter", lambda: x * 1.0)
        j = prot.define_public_input("inputter", lambda: x * 2.0)
        k = prot.define_private_tensor(x) if hasattr(prot, "define_private_tensor") else i
        return [prot.mul(i, j).reveal().to_native(), (i + k).reveal().to_native(), (i * k).reveal().to_native()]
    ctx.event("functions_compiled")
    for _ in range(3):
        a = draw()
        r = out(tf.constant(a))
        near(r[0], 2 * a * a, "graph inputs", 200)
        near(r[1], 2 * a, "graph inputs")
        near(r[2], a * a, "graph inputs", 200)

    # chains of compiled functions, results of one being arguments of the next
    @tfe.function
    def s1(x, y):
        return [prot.mul(x, y), prot.sub(x, y)]

    @tfe.function
    def s2(u, v):
        return prot.add(prot.reveal(u), v)
    ctx.event("functions_compiled", 2)
    x, y = draw(), draw()
    tx, ty = priv(x), priv(y)
    for _ in range(3):
        u, v = s1(tx, ty)
        w = s2(u, v)
        near(w, x * y + x - y, "chain", 20 + 20 * np.abs(x).max() + 20 * np.abs(y).max())
        tx, ty, x, y = ty, (w if hasattr(w, "reveal") else priv(x)), y, x * y + x - y
        if np.abs(y).max() > 40:
            break
    if not aby:
        # masked tensors as arguments and results
        @tfe.function
        def m(a, b):
            return [prot.mul(a, b), prot.mask(b) if not hasattr(b, "unmasked") else b]
        ctx.event("functions_compiled")
        for _ in range(3):
            a, b = draw(), draw()
            p, q = m(prot.mask(priv(a)), priv(b))
            near(p, a * b, "masked", 80)
            near(q, b, "masked")
            near(prot.mul(q, priv(a)), a * b, "masked", 80)


def loop(ctx, cfg):
    """compiled loops over private, public and native state"""
    rng = ctx.rng
    prot = tfx.aby3(cfg)
    ulp = 2.0 ** -(16 if cfg == "l" else 32)
    shp = tuple(int(v) for v in rng.integers(1, 4, size=int(rng.integers(1, 3))))
    n = int(rng.integers(0, 5))
    c = np.round(rng.uniform(-2, 2, size=shp), 2)
    tc = prot.define_private_variable(c)

    def run(x, q, b):
        def body(i, a, p, bit):
            return (i + 1, a * 0.5 + tc, p + 1, bit ^ prot.not_(bit))
        _, a, p, bit = prot.while_loop(lambda i, a, p, bit: i < n, body, [tf.constant(0), x, q, b])
        return [a, p, bit]
    compiled = tfe.function(run)
    ctx.event("functions_compiled")
    for _ in range(3):
        v, w = np.round(rng.uniform(-5, 5, size=shp), 2), np.round(rng.uniform(-5, 5, size=shp), 2)
        bits = rng.integers(0, 2, size=shp).astype(bool)
        want, p = v, w + n
        for _ in range(n):
            want = want * 0.5 + c
        mk = lambda: (prot.define_private_variable(v), prot.define_public_variable(w),
                      prot.define_private_variable(bits, apply_scaling=False, share_type=tfx.BOOL, factory=tfx.T.factories[tf.bool]))
        for f, nm in ((compiled, "compiled"), (run, "eager")):
            a, q, bit = f(*mk())
            ctx.close(tfx.rev(a), want, (2 + 3 * n) * ulp, "loop:private", "%s %s n=%d" % (cfg, nm, n))
            ctx.close(tfx.rev(q), p, (2 + 2 * n) * ulp, "loop:public", "%s %s n=%d" % (cfg, nm, n))
            ctx.equal(tfx.rev(bit).astype(int), (np.ones(shp) if n else bits).astype(int), "loop:bit", "%s %s n=%d" % (cfg, nm, n))
            ctx.event("compiled_calls")
            ctx.seen("loop", cfg, nm, n, shp)
