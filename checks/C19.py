"""The node cache is transparent: repeating, interleaving, changing operands in place, switching
protocol or compiling functions never changes a result."""
import gc

import numpy as np

from vlib import tfx
from vlib.tfx import T, tf, tfe

SPEC = dict(
    rule="one evaluation = one call through the cache inside a history of 25-60 calls that repeat and interleave operations with "
         "varying parameters over a few shared operands (kept, changed in place, or replaced by new objects at the same address), in "
         "eager code and in traced functions, with one or several protocol instances; every result compared with numpy; distinct = "
         "distinct (scenario, protocol, operation, parameters, position)",
    assumptions=["operands in the documented range"],
    min_events={"oracle_checks": 1500, "repeat_calls": 300, "changed_operands": 150, "traces": 20, "instance_switches": 60},
)
KINDS = ("aby3:l", "aby3:h", "pond:64", "pond:100", "snn:64", "snn:100")


def make(kind, fresh=True):
    name, cfg = kind.split(":")
    if name == "aby3":
        return tfx.aby3(cfg) if fresh else tfx.ABY3(fixedpoint_config=cfg)
    cls = tfx.SecureNN if name == "snn" else tfx.Pond
    return tfx.pond(cfg, cls) if fresh else tfx.make_pond(cfg, cls)


def cases(tier, seed):
    k = 1 if tier == "quick" else 12
    out = []
    for kind in KINDS:
        for i in range((2 if kind.startswith("aby3") else 1) * k):
            out.append(("interleave/%s/%d" % (kind, i), ("interleave", kind)))
            out.append(("operands/%s/%d" % (kind, i), ("operands", kind)))
            out.append(("graph/%s/%d" % (kind, i), ("graph", kind)))
        out.append(("lists/%s/0" % kind, ("lists", kind)))
    for i in range(3 * k):
        out.append(("instances/%d" % i, ("instances", None)))
    return out


# ------------------------------------------------------------------ operations
def table(prot, kind):
    """name -> draw(rng) -> (params, f(prot, x, y), ref(x, y), tolerance); x, y have shape (4, 6)"""
    fam, cfg = kind.split(":")
    aby = fam == "aby3"
    ulp = 2.0 ** -16 if not aby and cfg == "100" else (3.0 ** -8 if not aby else (2.0 ** -16 if cfg == "l" else 2.0 ** -32))
    t = {}

    def reg(name, d):
        t[name] = d
    def simple(name, f, ref, tol=0):
        reg(name, lambda r: ((), f, ref, tol))
    simple("add", lambda p, x, y: p.add(x, y), lambda x, y: x + y, 4)
    simple("sub", lambda p, x, y: p.sub(x, y), lambda x, y: x - y, 4)
    simple("rsub", lambda p, x, y: p.sub(y, x), lambda x, y: y - x, 4)
    simple("+", lambda p, x, y: x + y, lambda x, y: x + y, 4)
    simple("mul", lambda p, x, y: p.mul(x, y), lambda x, y: x * y, 60)
    simple("*", lambda p, x, y: x * y, lambda x, y: x * y, 60)
    simple("neg", lambda p, x, y: p.negative(x), lambda x, y: -x, 2)
    simple("square", lambda p, x, y: p.square(x), lambda x, y: x * x, 60)
    simple("matmul", lambda p, x, y: p.matmul(x, p.transpose(y, [1, 0])), lambda x, y: x @ y.T, 400)
    simple("add_n", lambda p, x, y: p.add_n([x, y, x]), lambda x, y: x + y + x, 6)

    def scalar(r):
        v = [2, 2.0, True, 1, 1.0, 3, 0.5, -1, -1.0, 4][int(r.integers(0, 10))]
        k = int(r.integers(0, 2))
        if k:
            return (("add", v, str(type(v))), lambda p, x, y: p.add(x, v), lambda x, y: x + v, 4)
        return (("mul", v, str(type(v))), lambda p, x, y: p.mul(x, v), lambda x, y: x * v, 80)
    reg("scalar", scalar)

    def transpose(r):
        pm = [[1, 0], [0, 1], (1, 0), None][int(r.integers(0, 4))]
        return ((str(pm),), lambda p, x, y: p.transpose(x, pm), lambda x, y: x.transpose(pm), 2)
    reg("transpose", transpose)

    def rsum(r):
        ax = [None, 0, 1, -1, -2][int(r.integers(0, 5))]
        kd = bool(r.integers(0, 2))
        return ((ax, kd), lambda p, x, y: p.reduce_sum(x, axis=ax, keepdims=kd), lambda x, y: np.asarray(x.sum(axis=ax, keepdims=kd)), 60)
    reg("reduce_sum", rsum)

    def reshape(r):
        s = [[24], [6, 4], [2, 12], [-1, 3], [1, 24], [4, 6]][int(r.integers(0, 6))]
        return ((str(s),), lambda p, x, y: p.reshape(x, s), lambda x, y: x.reshape(s), 2)
    reg("reshape", reshape)

    def index(r):
        i = int(r.integers(0, 4))
        s = [i, slice(i, 4), slice(0, i + 1), (i, slice(None)), (slice(None), slice(i, 6)), slice(None, None, i + 1)][int(r.integers(0, 6))]
        return ((str(s),), lambda p, x, y: x[s], lambda x, y: x[s], 2)
    reg("index", index)

    def concat(r):
        ax = int(r.integers(0, 2))
        sw = bool(r.integers(0, 2))
        return ((ax, sw), lambda p, x, y: p.concat([y, x] if sw else [x, y], axis=ax),
                lambda x, y: np.concatenate([y, x] if sw else [x, y], axis=ax), 2)
    reg("concat", concat)

    def stack(r):
        ax = int(r.integers(0, 3))
        sw = bool(r.integers(0, 2))
        return ((ax, sw), lambda p, x, y: p.stack([y, x] if sw else [x, y], axis=ax),
                lambda x, y: np.stack([y, x] if sw else [x, y], axis=ax), 2)
    reg("stack", stack)

    def expand(r):
        ax = int(r.integers(0, 3))
        return ((ax,), lambda p, x, y: p.expand_dims(x, axis=ax), lambda x, y: np.expand_dims(x, ax), 2)
    reg("expand_dims", expand)

    def split(r):
        n, ax = [(2, 0), (4, 0), (2, 1), (3, 1), (6, 1), (1, 0)][int(r.integers(0, 6))]
        return ((n, ax), lambda p, x, y: p.split(x, n, axis=ax), lambda x, y: np.split(x, n, axis=ax), 2)
    reg("split", split)

    def slic(r):
        b = [int(v) for v in r.integers(0, 2, size=2)]
        e = [int(v) for v in r.integers(3, 5, size=2)]
        st = [int(v) for v in r.integers(1, 3, size=2)]
        return ((str((b, e, st)),), lambda p, x, y: p.strided_slice(x, b, e, st),
                lambda x, y: x[b[0]:e[0]:st[0], b[1]:e[1]:st[1]], 2)
    reg("strided_slice", slic)

    def gather(r):
        ix = [int(v) for v in r.integers(0, 4, size=int(r.integers(1, 5)))]
        ax = int(r.integers(0, 2))
        return ((str(ix), ax), lambda p, x, y: p.gather(x, ix, axis=ax), lambda x, y: np.take(x, ix, axis=ax), 2)
    reg("gather", gather)

    def poly(r):
        n = int(r.integers(2, 4))
        c = [float(v) for v in r.integers(-2, 3, size=n)]
        c[-1] = c[-1] or 1.0
        if aby:
            return ((str(c),), lambda p, x, y: p.polynomial(x, c), lambda x, y: sum(k * x ** i for i, k in enumerate(c)), 500)
        return ((), lambda p, x, y: p.square(x), lambda x, y: x * x, 60)
    reg("polynomial", poly)
    simple("reveal", lambda p, x, y: p.reveal(x), lambda x, y: x, 2)
    simple("reveal_add", lambda p, x, y: p.add(p.reveal(x), y), lambda x, y: x + y, 4)
    if aby:
        simple("less_than", lambda p, x, y: p.less_than(x, y), lambda x, y: (x < y).astype(float), -1)
        simple("greater_than", lambda p, x, y: p.greater_than(x, y), lambda x, y: (x > y).astype(float), -1)
        simple("relu", lambda p, x, y: p.relu(x), lambda x, y: np.maximum(x, 0), 4)
        simple("msb", lambda p, x, y: p.msb(x), lambda x, y: (x < 0).astype(float), -1)
        simple("a2b_b2a", lambda p, x, y: p.b2a(p.a2b(x)), lambda x, y: x, 2)

        def lsh(r):
            n = int(r.integers(0, 3))
            return ((n,), lambda p, x, y: p.lshift(x, n), lambda x, y: x * 2 ** n, 20)
        reg("lshift", lsh)

        def trunc(r):
            n = int(r.integers(0, 4))
            return ((n,), lambda p, x, y: p.truncate(x, amount=n), lambda x, y: x / 2 ** n, 4)
        reg("truncate", trunc)

        def mp2(r):
            n = int(r.integers(-2, 3))
            return ((n,), lambda p, x, y: p.mul_pow2(x, n), lambda x, y: x * 2.0 ** n, 20)
        reg("mul_pow2", mp2)

        def pad(r):
            a = [[int(v) for v in r.integers(0, 2, size=2)] for _ in range(2)]
            return ((str(a),), lambda p, x, y: p.pad(x, a), lambda x, y: np.pad(x, a), 2)
        reg("pad", pad)

        def tile(r):
            m = [int(v) for v in r.integers(1, 3, size=2)]
            return ((str(m),), lambda p, x, y: p.tile(x, m), lambda x, y: np.tile(x, m), 2)
        reg("tile", tile)

        def rev(r):
            a = [[0], [1], [0, 1]][int(r.integers(0, 3))]
            return ((str(a),), lambda p, x, y: p.reverse(x, a), lambda x, y: np.flip(x, a), 2)
        reg("reverse", rev)

        def rmax(r):
            ax, kd = int(r.integers(0, 2)), bool(r.integers(0, 2))
            return ((ax, kd), lambda p, x, y: p.reduce_max(x, axis=ax, keepdims=kd), lambda x, y: x.max(axis=ax, keepdims=kd), 4)
        reg("reduce_max", rmax)
    else:
        def cumsum(r):
            ax, ex, rv = int(r.integers(0, 2)), bool(r.integers(0, 2)), bool(r.integers(0, 2))

            def ref(x, y):
                v = np.flip(x, ax) if rv else x
                c = np.cumsum(v, axis=ax) - (v if ex else 0)
                return np.flip(c, ax) if rv else c
            return ((ax, ex, rv), lambda p, x, y: p.cumsum(x, axis=ax, exclusive=ex, reverse=rv), ref, 20)
        reg("cumsum", cumsum)

        def div(r):
            v = [2, 2.0, 4, 0.5][int(r.integers(0, 4))]
            return ((v,), lambda p, x, y: p.div(x, v), lambda x, y: x / v, 80)
        reg("div", div)
        simple("mask_mul", lambda p, x, y: p.mul(p.mask(x) if hasattr(x, "share0") else x, y), lambda x, y: x * y, 60)
        simple("mask_matmul", lambda p, x, y: p.matmul(p.transpose(p.mask(x) if hasattr(x, "share0") else x, [1, 0]), y), lambda x, y: x.T @ y, 400)
        if fam == "snn":
            simple("less", lambda p, x, y: p.less(x, y), lambda x, y: (x < y).astype(float), -1)
            simple("relu", lambda p, x, y: p.relu(x), lambda x, y: np.maximum(x, 0), 4)
            simple("maximum", lambda p, x, y: p.maximum(x, y), lambda x, y: np.maximum(x, y), 4)
            simple("is_negative", lambda p, x, y: p.is_negative(x), lambda x, y: (x < 0).astype(float), -1)
    return t, ulp


def num(v):
    if isinstance(v, (list, tuple)):
        return [num(a) for a in v]
    if hasattr(v, "unmasked"):
        v = v.unmasked
    a = tfx.rev(v) if hasattr(v, "unwrapped") else tfx.npv(v)
    return np.asarray(a).astype(np.float64)


def check(ctx, got, want, ulp, tol, mech, det):
    got = got if isinstance(got, list) else [got]
    want = want if isinstance(want, list) else [want]
    if not ctx.expect(len(got) == len(want), mech, "%d results for %d %s" % (len(got), len(want), det)):
        return
    for g, w in zip(got, want):
        if tol < 0:
            ctx.equal(np.asarray(g), np.asarray(w, dtype=np.float64), mech, det)
        else:
            ctx.close(g, np.asarray(w, dtype=np.float64), (tol + 2) * ulp, mech, det)


def operand(prot, rng, kind, lo=-4, hi=4):
    """an operand with pairwise distinct entries, well apart"""
    base = rng.permutation(24).reshape(4, 6) * (hi - lo) / 24.0 + lo + 0.0417
    k = ["priv", "priv", "pub"][int(rng.integers(0, 3))] if kind is None else kind
    if k == "priv":
        return k, prot.define_private_variable(base), base
    return k, prot.define_public_variable(base), base


def usable(name, kx, ky):
    """operand kinds an operation is defined on"""
    if kx == ky == "pub" and name == "matmul":
        return False
    if kx == ky == "pub" and name in ("less_than", "greater_than", "msb", "a2b_b2a", "reduce_max", "relu", "less", "maximum",
                                      "is_negative", "mask_mul", "mask_matmul", "tile", "lshift", "reverse", "polynomial", "split", "truncate"):
        return False
    if kx == "pub" and name in ("msb", "a2b_b2a", "reduce_max", "relu", "lshift", "tile", "truncate", "mul_pow2", "mask_mul", "mask_matmul",
                                "polynomial", "split", "reverse", "reveal", "reveal_add", "scalar", "pad", "is_negative", "div"):
        return False
    if kx != ky and name in ("concat", "stack", "less_than", "greater_than", "maximum"):
        return False
    return True


def history(ctx, prot, kind, ops, n, scen):
    rng = ctx.rng
    tab, ulp = table(prot, kind)
    xs = [operand(prot, rng, k) for k in ("priv", "priv", "pub")]
    names = [str(v) for v in rng.choice(list(tab), size=ops, replace=False)]
    drawn, done = [], {}
    for i in range(n):
        if drawn and rng.integers(0, 2):
            name, d, ix, iy = drawn[int(rng.integers(0, len(drawn)))]
        else:
            name = names[int(rng.integers(0, len(names)))]
            ix, iy = int(rng.integers(0, 3)), int(rng.integers(0, 3))
            if not usable(name, xs[ix][0], xs[iy][0]):
                ix, iy = 0, 1
            d = tab[name](rng)
            drawn.append((name, d, ix, iy))
        params, f, ref, tol = d
        key = (name, params, ix, iy)
        if key in done:
            ctx.event("repeat_calls")
        done[key] = done.get(key, 0) + 1
        try:
            got = num(f(prot, xs[ix][1], xs[iy][1]))
        except Exception as ex:
            ctx.violate("raised:" + name, "%s %s %s %s" % (key, kind, type(ex).__name__, str(ex)[:400]))
            continue
        check(ctx, got, ref(xs[ix][2], xs[iy][2]), ulp, tol, scen + ":" + name, "%s %s call %d of this kind, step %d" % (kind, key, done[key], i))
        ctx.seen(scen, kind, key, min(done[key], 3))


# --------------------------------------------------- operands that are not TFE tensors
def operands(ctx, prot, kind):
    rng = ctx.rng
    aby = kind.startswith("aby3")
    tab, ulp = table(prot, kind)
    x = operand(prot, rng, "priv")
    binops = {"add": (np.add, 4), "sub": (np.subtract, 4), "mul": (np.multiply, 80)}
    if not aby:
        # Python numbers are lifted; a value equal to another of a different type
        for v in [1, 1.0, True, 0, 0.0, False, 2, 2.0, 1, 1.0]:
            for nm in ("add", "mul"):
                un = prot.define_private_variable(np.array([5, -7, 9]), apply_scaling=False)
                got = num(getattr(prot, nm)(x[1], v))
                check(ctx, got, binops[nm][0](x[2], v), ulp, 80, "scalar:" + nm, "%s %r" % (kind, v))
                ctx.event("changed_operands")
                ctx.seen("scalar", kind, nm, v, str(type(v)))
                del un
        ids(ctx, prot, kind, ulp)
        return
    buf = rng.integers(-3, 4, size=(4, 6)).astype(np.float64)
    big = np.zeros((40, 60))
    X = prot.define_private_variable(np.linspace(-3, 3, 2400).reshape(40, 60))
    Xv = np.linspace(-3, 3, 2400).reshape(40, 60)
    for i in range(8):
        nm = ["add", "sub", "mul"][int(rng.integers(0, 3))]
        f, tol = binops[nm]
        # the caller's buffer, refilled between calls
        buf[int(rng.integers(0, 4)), int(rng.integers(0, 6))] += 1.0
        check(ctx, num(getattr(prot, nm)(x[1], buf)), f(x[2], buf), ulp, tol, "buffer:" + nm, "%s call %d" % (kind, i))
        # a large one, whose printed form leaves entries out
        big[20, 30 + i] += 2.0
        check(ctx, num(getattr(prot, nm)(X, big)), f(Xv, big), ulp, tol, "bigbuffer:" + nm, "%s call %d" % (kind, i))
        # temporaries that take over each other's address
        for j in range(4):
            v = int(rng.integers(-3, 4))
            tmp = np.full((40, 60), 0.25)
            tmp[17, 23] = v
            want = f(Xv, tmp)
            got = num(getattr(prot, nm)(X, tmp))
            del tmp
            check(ctx, got, want, ulp, tol, "temporary:" + nm, "%s %d" % (kind, j))
            a = np.full((40, 60), 0.5)
            a[11, 31] = v
            tt = tf.constant(a)
            got = num(getattr(prot, nm)(X, tt))
            del tt
            check(ctx, got, f(Xv, a), ulp, tol, "tftemporary:" + nm, "%s %d" % (kind, j))
            ctx.event("changed_operands", 2)
            ctx.seen("temp", kind, nm, v)
        ctx.event("changed_operands", 2)
        ctx.seen("buffer", kind, nm, i)
    # int, float and bool operands that compare equal, on scaled and unscaled tensors; dtype of arrays
    u = prot.define_private_variable(np.arange(24).reshape(4, 6), apply_scaling=False)
    uv = np.arange(24).reshape(4, 6)
    for v in [3, 3.0, 1, 1.0, 1, 3, 5, 5.0]:
        check(ctx, num(prot.mul(x[1], v)), x[2] * v, ulp, 80, "scalar:mul", "%s %r" % (kind, v))
        check(ctx, num(prot.add(x[1], v)), x[2] + v, ulp, 4, "scalar:add", "%s %r" % (kind, v))
        if isinstance(v, int):
            check(ctx, num(prot.mul(u, v)), uv * v, ulp, 0, "scalar:umul", "%s %r" % (kind, v))
        ctx.event("changed_operands")
        ctx.seen("scalar", kind, v, str(type(v)))
    # public operands built by the protocol from equal arrays of different type: scaling differs
    for dt in (np.int64, np.float64, np.int64, np.float64):
        a, b = prot.mul(np.array([2, 3], dtype=dt), np.array([4, 5], dtype=dt)), np.array([8., 15.])
        check(ctx, num(a), b, ulp, 80, "dtype:mul", "%s %s" % (kind, dt))
        ctx.event("changed_operands")
    ids(ctx, prot, kind, ulp)


def ids(ctx, prot, kind, ulp):
    """tensors that are dropped, so that later ones may live at the same address"""
    rng = ctx.rng
    for i in range(6):
        v = rng.integers(-9, 10, size=3).astype(float)
        a = prot.define_private_variable(v)
        check(ctx, num(prot.negative(a)), -v, ulp, 2, "dropped", kind)
        check(ctx, num(prot.add(a, 1)), v + 1, ulp, 4, "dropped", kind)
        del a
        if i % 2:
            gc.collect()
        ctx.event("changed_operands")
        ctx.seen("dropped", kind, i)


# --------------------------------------------------------------- several instances
def instances(ctx):
    rng = ctx.rng
    tfx.aby3("l")
    fam = [["aby3:l", "aby3:h", "aby3:l"], ["pond:64", "pond:100", "snn:64", "snn:100", "pond:64"]][int(rng.integers(0, 2))]
    ps = [make(k, fresh=False) for k in fam]
    data = []
    for k, p in zip(fam, ps):
        tfe.set_protocol(p)
        data.append((operand(p, rng, "priv"), operand(p, rng, "priv"), table(p, k)))
    names = sorted(set.intersection(*[set(d[2][0]) for d in data]))
    for step in range(40):
        i = int(rng.integers(0, len(ps)))
        p, k = ps[i], fam[i]
        tfe.set_protocol(p)
        x, y, (tab, ulp) = data[i]
        ctx.event("instance_switches")
        if k.startswith("aby3") and rng.integers(0, 3) == 0:
            z = p.zeros([2, 3])
            v = rng.integers(-5, 6, size=(2, 3)).astype(float)
            ctx.expect(z.prot is p, "instances:zeros", "zeros of another protocol instance, %s" % k)
            w = p.define_private_variable(v) + z
            check(ctx, num(w), v, ulp, 4, "instances:zeros", k)
            ctx.expect(all(s.factory is p.factories[p.fixedpoint_config.nbits] if hasattr(p, "factories") else True
                           for s in z.unwrapped[0]), "instances:zeros", "factory")
            ctx.seen("zeros", k)
            continue
        name = names[int(rng.integers(0, len(names)))]
        params, f, ref, tol = tab[name](rng)
        got = num(f(p, x[1], y[1]))
        check(ctx, got, ref(x[2], y[2]), ulp, tol, "instances:" + name, "%s %s" % (k, params))
        ctx.seen("instances", k, name, params)
    if fam[0].startswith("aby3"):
        return
    # the same tensor handed to two protocols that share its ring and encoding but not their algorithms
    pond, snn = tfx.make_pond("64"), tfx.make_pond("64", tfx.SecureNN)
    for first, second in ((pond, snn), (snn, pond)):
        tfe.set_protocol(first)
        v = np.array([-1.5, 0.75, 2.25, -0.5])
        t = first.define_private_variable(v)
        for p in (first, second, first, second):
            tfe.set_protocol(p)
            ctx.event("instance_switches")
            r = num(p.relu(t))
            if p is snn:
                check(ctx, r, np.maximum(v, 0), 3.0 ** -8, 4, "instances:relu", "SecureNN")
            else:
                tfx.clear_cache()
                tfe.set_protocol(p)
                check(ctx, r, num(p.relu(t)), 3.0 ** -8, 40, "instances:relu", "Pond")
            ctx.seen("relu", p is snn)


# ------------------------------------------------------------------ traced functions
def graph(ctx, prot, kind):
    """functions that use tensors of the enclosing scope, traced, retraced and mixed with eager calls"""
    rng = ctx.rng
    tab, ulp = table(prot, kind)
    xs = [operand(prot, rng, "priv") for _ in range(3)]
    names = [n for n in tab if n not in ("reveal", "reveal_add", "split", "scalar")]
    if kind == "pond:100" or kind == "snn:100":
        # compiled functions take 64-bit tensors only through their native form
        return
    heavy = ("less_than", "greater_than", "relu", "msb", "a2b_b2a", "reduce_max", "less", "maximum", "is_negative")
    for rnd in range(3):
        name = names[int(rng.integers(0, len(names)))]
        if name in heavy and rnd:
            continue
        params, f, ref, tol = tab[name](rng)
        n2 = names[int(rng.integers(0, len(names)))]
        while n2 in heavy:
            n2 = names[int(rng.integers(0, len(names)))]
        p2, f2, ref2, tol2 = tab[n2](rng)
        w, b = xs[int(rng.integers(0, 3))], xs[int(rng.integers(0, 3))]

        @tfe.function
        def inner(a):
            # w and b come from the enclosing scope
            return [f(prot, w[1], b[1]), f2(prot, w[1], b[1]), prot.add(a, w[1]) if a.shape.as_list() == [4, 6] else prot.negative(a)]

        @tf.function
        def outer(_):
            return f(prot, w[1], b[1]).reveal().to_native()

        want = [ref(w[2], b[2]), ref2(w[2], b[2])]
        seq = []
        for _ in range(5):
            seq.append(int(rng.integers(0, 5)))
        for s in seq:
            det = "%s %s%s then %s%s in history %s" % (kind, name, params, n2, p2, seq)
            if s in (0, 1):
                a = xs[int(rng.integers(0, 3))]
                got = inner(a[1])
                last = a[2] + w[2]
            elif s == 2:
                v = rng.integers(-4, 5, size=(int(rng.integers(1, 4)), 2)).astype(float)
                got = inner(prot.define_private_variable(v))
                last = -v
            elif s == 3:
                got = [f(prot, w[1], b[1]), f2(prot, w[1], b[1])]
                last = None
            else:
                if name in ("less_than", "greater_than", "less", "is_negative", "msb"):
                    continue
                got = outer(tf.zeros(int(rng.integers(1, 4))))
                check(ctx, np.asarray(got).astype(float), want[0], ulp, tol, "graph:" + name, det)
                ctx.event("traces")
                ctx.seen("graph-outer", kind, name, params)
                continue
            ctx.event("traces")
            check(ctx, num(got[0]), want[0], ulp, tol, "graph:" + name, det)
            check(ctx, num(got[1]), want[1], ulp, tol2, "graph:" + n2, det)
            if last is not None:
                check(ctx, num(got[2]), last, ulp, 4, "graph:argument", det)
            ctx.seen("graph", kind, name, params, n2, p2, s)


# ------------------------------------------------------------------------- lists
def lists(ctx, prot, kind):
    """results are the caller's: changing a returned list changes no later result"""
    rng = ctx.rng
    _, ulp = table(prot, kind)
    k, x, v = operand(prot, rng, "priv")
    y = operand(prot, rng, "priv")
    for n, ax in ((2, 0), (3, 1), (2, 0), (3, 1)):
        out = prot.split(x, n, axis=ax)
        check(ctx, num(list(out)), np.split(v, n, axis=ax), ulp, 2, "lists:split", kind)
        ctx.event("changed_operands")
        ctx.seen("lists", kind, n, ax)
        if isinstance(out, list):
            out.reverse()
            out.append(y[1])
            out[0] = y[1]
    args = [x, y[1]]
    for i in range(3):
        check(ctx, num(prot.concat(args, axis=0)), np.concatenate([num(a) for a in args], 0), ulp, 2, "lists:concat", kind)
        check(ctx, num(prot.stack(args, axis=0)), np.stack([num(a) for a in args], 0), ulp, 2, "lists:stack", kind)
        check(ctx, num(prot.add_n(args)), sum(num(a) for a in args), ulp, 8, "lists:add_n", kind)
        args.append(args.pop(0) if i == 0 else x)
        ctx.event("changed_operands", 3)
    ix = [0, 2]
    sh = [24]
    for i in range(4):
        check(ctx, num(prot.gather(x, ix, axis=0)), v[ix], ulp, 2, "lists:gather", kind)
        check(ctx, num(prot.reshape(x, sh)), v.reshape(sh), ulp, 2, "lists:reshape", kind)
        ix[i % 2] = (ix[i % 2] + 1) % 4
        sh[:] = [[6, 4], [2, 12], [24], [3, 8]][i]
        arr = np.array(ix)
        check(ctx, num(prot.gather(x, arr, axis=0)), v[arr], ulp, 2, "lists:gather-array", kind)
        arr[:] = arr[::-1].copy()
        check(ctx, num(prot.gather(x, arr, axis=0)), v[arr], ulp, 2, "lists:gather-array", kind)
        ctx.event("changed_operands", 4)
        ctx.seen("lists", kind, str(ix), str(sh))


def run_case(ctx, case_id, payload):
    scen, kind = payload
    if scen == "instances":
        return instances(ctx)
    prot = make(kind)
    if scen == "interleave":
        history(ctx, prot, kind, 14, 80, scen)
    elif scen == "operands":
        operands(ctx, prot, kind)
    elif scen == "graph":
        graph(ctx, prot, kind)
    else:
        lists(ctx, prot, kind)
