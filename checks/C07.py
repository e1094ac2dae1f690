"""ABY3: approximated functions stay inside their error envelope over their domain."""
import numpy as np

from vlib import aby3ops as O
from vlib import tfx

SPEC = dict(
    rule="one evaluation = one function on one private (or public) tensor of 40-400 domain points: random, "
         "log-uniform, powers of two and their neighbours, break points, the ends of the domain; distinct = "
         "distinct (function, options, precision, shape); every element is compared with float64 math within "
         "A ulp + R relative",
    assumptions=["arguments lie in the documented domain of each approximation"],
    min_events={"oracle_checks": 100, "values_compared": 5000, "functions": 60},
)
FUNCS = ["sigmoid5", "sigmoid3", "recip", "recip_ns", "recip_p2", "invsqrt", "exp2", "exp2_as", "exp", "exp_as",
         "exp_inf", "exp_pos", "exp_neg", "log", "softmax", "softmax_tree", "softmax_as", "softmax_inf", "piecewise",
         "multipoly", "pub_sqrt", "pub_recip", "pow2_bits"]


def cases(tier, seed):
    n = 4 if tier == "quick" else 60
    return [("%s/%s/%d" % (f, c, i), (f, c)) for f in FUNCS for c in "lh" for i in range(n)]


def specials(lo, hi, ulp):
    out = [lo, hi]
    for k in range(-10, 12):
        for s in (1, -1):
            for d in (0, ulp, -ulp):
                out.append(s * 2.0 ** k + d)
    for k in range(-20, 15):
        for d in (0, ulp, -ulp, .5):
            out.append(k + d)
    return np.array([v for v in out if lo <= v <= hi])


def points(rng, lo, hi, ulp, shp, log=False, signed=False):
    n = int(np.prod(shp))
    sp = specials(-hi if signed else lo, hi, ulp)
    if signed:
        sp = sp[np.abs(sp) >= lo]
    x = np.exp(rng.uniform(np.log(lo), np.log(hi), n)) if log else rng.uniform(lo, hi, n)
    if signed:
        x = x * rng.choice([-1, 1], n)
    k = min(n // 2, len(sp))
    x[:k] = rng.choice(sp, k, replace=False)
    x = np.round(x / ulp) * ulp
    return rng.permutation(x).reshape(shp)


def run_case(ctx, case_id, payload):
    fn, cfg = payload
    rng = ctx.rng
    prot = tfx.aby3(cfg)
    l = cfg == "l"
    ulp = 2.0 ** -(16 if l else 32)
    hi = 1000.0 if l else 30000.0
    shp = O.pick(rng, [(40,), (8, 9), (1, 100), (5, 4, 7), (3, 3, 3, 3), (200,)])
    A, R = 4.0, 0.0
    extra = 0.0
    opts = ""

    def priv(x):
        if rng.integers(0, 2):
            return prot.define_private_variable(x)
        return prot.define_private_input("in", lambda: tfx.tf.constant(x))

    with tfx.ShareMonitor() as mon:
        if fn.startswith("sigmoid"):
            lim = 8.0 if rng.integers(0, 2) else 100.0
            x = points(rng, -lim, lim, ulp, shp)
            y = prot.sigmoid(priv(x)) if fn == "sigmoid5" and rng.integers(0, 2) else prot.sigmoid(
                priv(x), approx_type="%s_piecewise_linear" % fn[-1])
            w = 1 / (1 + np.exp(-x))
            extra = 0.0415 if fn == "sigmoid5" else 0.0775
            # saturated on both sides
            extra = np.where(np.abs(x) > 9, 4e-4, extra)
        elif fn.startswith("recip"):
            x = points(rng, 2e-2, hi, ulp, shp, log=True, signed=fn != "recip_ns")
            kw = {"recip": {}, "recip_ns": dict(nonsigned=True), "recip_p2": dict(precision=2)}[fn]
            y = prot.reciprocal(priv(x), **kw)
            w, R = 1 / x, 6e-5 if l else (4e-6 if fn != "recip_p2" else 2e-9)
        elif fn == "invsqrt":
            x = points(rng, 2e-3, hi, ulp, shp, log=True)
            y = prot.inv_sqrt(priv(x))
            w, R = 1 / np.sqrt(x), 1.3e-4 if l else 6e-5
        elif fn in ("exp2", "exp2_as"):
            x = points(rng, -20 if fn == "exp2" else -8, (10 if l else 14) if fn == "exp2" else 8, ulp, shp)
            y = prot.exp2(priv(x)) if fn == "exp2" else prot.exp2(priv(x), approx_type="as2019")
            w, R = 2.0 ** x, 1.2e-4 if l else 1.2e-5
        elif fn in ("exp", "exp_as", "exp_pos", "exp_neg"):
            lo_, hi_ = {"exp": (-20, 6.5 if l else 9.5), "exp_as": (-6, 5.5), "exp_pos": (0, 6.5),
                        "exp_neg": (-20, -0.01)}[fn]
            x = points(rng, lo_, hi_, ulp, shp)
            kw = {"exp": {}, "exp_as": dict(approx_type="as2019"), "exp_pos": dict(sign=1), "exp_neg": dict(sign=-1)}[fn]
            y = prot.exp(priv(x), **kw)
            w, R = np.exp(x), 1.5e-4 if l else 1.2e-5
        elif fn == "exp_inf":
            x = points(rng, -8, 3, ulp, shp)
            y = prot.exp(priv(x), approx_type="infinity")
            w = np.exp(x)
            R = 1.35 * x ** 2 / 256 + 300 * ulp
            A = 12.0
        elif fn == "log":
            x = points(rng, 0.05, 1.3, ulp, shp)
            y = prot.log(priv(x))
            w = np.log(x)
            extra = np.where(x < 0.3, 0.25, 0.023)
        elif fn.startswith("softmax"):
            n = int(rng.integers(1, 11))
            sh = O.pick(rng, [(7, n), (n,), (2, 3, n)])
            x = rng.normal(size=sh) * 3
            kw = {"softmax": {}, "softmax_tree": dict(max_method="tree"), "softmax_as": dict(approx_type="as2019"),
                  "softmax_inf": dict(approx_type="infinity")}[fn]
            if fn == "softmax_as":
                x = np.clip(x, -2, 2)
            if fn == "softmax_inf":
                x = np.clip(x, -3.5, 3.5)
            x = np.round(x / ulp) * ulp
            if rng.integers(0, 3) == 0 and fn in ("softmax", "softmax_tree"):
                x[..., 0] += 40  # one class dominates
            y = prot.softmax(priv(x), **kw)
            w = np.exp(x - x.max(-1, keepdims=True))
            w = w / w.sum(-1, keepdims=True)
            extra = 0.03 if fn == "softmax_inf" else (2e-4 if l else 1.2e-5)
            opts, shp = str(sh), sh
        elif fn == "piecewise":
            m = int(rng.integers(1, 5))
            c = sorted(set(float(v) for v in np.round(rng.uniform(-4, 4, m), 3)))
            coeffs = [[float(v) for v in np.round(rng.uniform(-2, 2, int(rng.integers(1, 4))), 3)]
                      for _ in range(len(c) + 1)]
            x = points(rng, -4, 4, ulp, shp)
            near = np.min([np.abs(x - b) for b in c], axis=0) < 3 * ulp
            x = np.where(near, np.round((x + 0.01) / ulp) * ulp, x)
            near = np.min([np.abs(x - b) for b in c], axis=0) < 3 * ulp
            x = np.where(near, np.round((x + 0.017) / ulp) * ulp, x)
            if max(map(len, coeffs)) < 2:
                coeffs[0] = coeffs[0] + [0.5]
            y = prot.polynomial_piecewise(priv(x), tuple(c), tuple(tuple(k) for k in coeffs))
            idx = np.sum([x > b for b in c], axis=0)
            w = np.zeros_like(x)
            for j, k in enumerate(coeffs):
                w = np.where(idx == j, sum(v * x ** i for i, v in enumerate(k)), w)
            A, opts = 30.0, str((len(c), [len(k) for k in coeffs]))
            extra = 2e-6 if not l else 0  # coefficients enter in single precision
        elif fn == "multipoly":
            coeffs = [[float(v) for v in np.round(rng.uniform(-2, 2, int(rng.integers(2, 4))), 3)]
                      for _ in range(int(rng.integers(1, 4)))]
            x = points(rng, -3, 3, ulp, shp)
            y = prot.multi_polynomial(priv(x), tuple(tuple(k) for k in coeffs))
            w = np.stack([sum(v * x ** i for i, v in enumerate(k)) for k in coeffs])
            A, opts = 30.0, str([len(k) for k in coeffs])
            extra = 4e-6 if not l else 0
        elif fn == "pub_sqrt":
            x = points(rng, 2e-3, hi, ulp, shp, log=True)
            y = prot.sqrt(prot.define_constant(x))
            w, A = np.sqrt(x), 1.01
        elif fn == "pub_recip":
            x = points(rng, 2e-2, hi, ulp, shp, log=True, signed=True)
            y = prot.reciprocal(prot.define_constant(x))
            w, A = 1 / x, 1.01
        elif fn == "pow2_bits":
            v = rng.integers(0, 32, size=shp)
            bits = np.stack([(v >> i) & 1 for i in range(5)], -1).astype(bool)
            b = prot.define_private_variable(bits, apply_scaling=False, share_type=tfx.BOOL,
                                             factory=tfx.T.factories[tfx.tf.bool])
            y = prot.pow2_from_bits(b)
            w, A = 2.0 ** v, 0.0
        ctx.seen(fn, cfg, opts, shp)
        ctx.event("functions")
        got = tfx.rev(y)
        w = np.asarray(w, dtype=np.float64)
        ctx.close(got, w, A * ulp + R * np.abs(w) + extra, "accuracy:" + fn, opts)
    mon.report(ctx)
