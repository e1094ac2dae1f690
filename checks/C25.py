"""Keras layers and models: forward results, shapes, weights, configurations, prediction by batches."""
import numpy as np

from vlib import kerasops as K
from vlib import tfx
from vlib.tfx import tf, tfe

SPEC = dict(
    rule="one evaluation = one layer (random arguments, weights and input) or one sequential model called on private data and compared with "
         "a float64 reference; distinct = distinct (protocol, layer kinds, arguments, shapes)",
    assumptions=["sigmoid is compared within the error of its polynomial approximation"],
    min_events={"oracle_checks": 800, "values_compared": 5000, "layers": 150, "models": 20},
)


def cases(tier, seed):
    k = 1 if tier == "quick" else 12
    out = []
    for j in range(k):
        for p in K.PROTS:
            for i in range(2):
                out.append(("layers/%s/%d" % (p, 2 * j + i), ("layers", p, 12)))
            out.append(("model/%s/%d" % (p, j), ("model", p, 3)))
    return out


def run_case(ctx, case_id, payload):
    what, pname, n = payload
    p = K.P(pname)
    if what == "layers":
        ks = list(K.kinds(p))
        order = [ks[int(i)] for i in ctx.rng.permutation(len(ks))]
        for kind in (order * 3)[:n]:
            guarded(ctx, one_layer, p, kind)
            tfx.clear_cache()
    else:
        for _ in range(n):
            guarded(ctx, one_model, p)
            tfx.clear_cache()


def guarded(ctx, f, p, *a):
    box = {}
    try:
        f(ctx, p, box, *a)
    except Exception as ex:
        import traceback
        tb = [t.strip() for t in traceback.format_exc().splitlines() if "/repo/" in t or "tf_encrypted" in t]
        ctx.violate("raised:keras:%s" % box.get("kind", a and a[0]), "%s %s | %s: %s | %s" % (
            p.name, box.get("sig"), type(ex).__name__, str(ex)[:300], " / ".join(tb[-3:])))


def as_weights(rng, p, ws, cls):
    """weights as numbers, variables or plain tensors"""
    how = int(rng.integers(0, 3))
    if how == 0:
        return [np.array(w) for w in ws], "numpy"
    if cls == "BatchNormalization":
        vs = [p.prot.define_public_variable(w) for w in ws]
    else:
        vs = [p.prot.define_private_variable(w) for w in ws]
    if how == 1:
        return vs, "variables"
    return [v.read_value() for v in vs], "tensors"


def one_layer(ctx, p, box, kind):
    rng = ctx.rng
    la = K.draw(rng, p, kind)
    box["kind"], box["sig"] = kind, la.sig()
    ctx.seen(p.name, *la.sig())
    ctx.event("layers")
    ctx.event("layer:" + kind)
    layer = la.make()
    why = "%s %s" % (p.name, la.sig())
    x = la.x(rng)
    px = p.private(x)
    if rng.integers(0, 2):
        y = layer(px)
        first = tfx.rev(y)
        got = [np.asarray(tfx.rev(w.read_value())) for w in layer.weights]
        if kind == "depthwise":
            k = got[0]
            c, o = la.wshapes[0][2], la.wshapes[0][3]
            got[0] = np.stack([k[:, :, i, i * o:(i + 1) * o] for i in range(c)], axis=2)
            off = k.copy()
            for i in range(c):
                off[:, :, i, i * o:(i + 1) * o] = 0
            ctx.equal(off, np.zeros_like(off), "keras:depthwise-mask", why)
        ctx.expect(len(got) == len(la.wshapes), "keras:weights", why)
        got = [g.reshape(s) for g, s in zip(got, la.wshapes)]
        want = la.forward(x, got)  # initial values are 32-bit floats
        ctx.close(first, want, K.tolerance(la, p, x, got) + 1e-6 * (1 + np.abs(want)), "keras:initial:" + kind, why)
    else:
        layer.build(tf.TensorShape(list(la.in_shape)))
    ws = la.weights(rng)
    if ws:
        given, how = as_weights(rng, p, ws, la.cls)
        copy = list(given)
        layer.set_weights(given)
        ctx.expect(len(copy) == len(given) and all(a is b for a, b in zip(copy, given)), "keras:set_weights-changed-list", why + " " + how)
        why += " weights as " + how
    y = layer(px)
    got = tfx.rev(y)
    want = la.forward(x, ws)
    ctx.close(got, want, K.tolerance(la, p, x, ws), "keras:forward:" + kind, why)
    shp = layer.compute_output_shape(list(la.in_shape))
    if shp is not None:
        ctx.equal(np.array([int(v) for v in shp]), np.array(want.shape), "keras:output-shape:" + kind, why)
    # another batch, then the first again
    b = int(rng.integers(1, 5))
    if kind != "reshape" or len(la.in_shape) > 1:
        x2 = la.x(rng, b)
        got = tfx.rev(layer(p.private(x2)))
        ctx.close(got, la.forward(x2, ws), K.tolerance(la, p, x2, ws), "keras:forward-batch:" + kind, why)


def conf(la, name, rng):
    """configuration as tf.keras models give it"""
    c = dict(la.kw)
    c["name"] = name
    c["trainable"] = True
    c["dtype"] = "float32"
    return dict(class_name=la.cls, config=c)


def stack(rng, p, train=False):
    """a list of layers that fit together"""
    las = []
    if rng.integers(0, 2):
        n = 1
        la = K.draw(rng, p, "conv", square=train, remainder=not train)
        las.append(la)
        shp = la.forward(la.x(rng), la.weights(rng)).shape
        ks = [k for k in K.kinds(p) if k in ("relu", "maxpool", "avgpool", "activation")]
        if rng.integers(0, 2):
            nxt = fit_to(rng, p, ks[int(rng.integers(0, len(ks)))], shp)
            if nxt is not None:
                las.append(nxt)
                shp = nxt.forward(nxt.x(rng), []).shape
        kinds = ["flatten"] + ["gavg"] * (1 if not train else 1)
        nxt = fit_to(rng, p, kinds[int(rng.integers(0, len(kinds)))], shp)
        las.append(nxt)
        shp = nxt.forward(nxt.x(rng), []).shape
    else:
        shp = (int(rng.integers(1, 5)), int(rng.integers(1, 6)))
    for _ in range(int(rng.integers(1, 3))):
        la = fit_to(rng, p, "dense", shp)
        las.append(la)
        shp = (shp[0], la.kw["units"])
    return las


def fit_to(rng, p, kind, shp):
    """draw a layer of this kind for inputs of this shape"""
    for _ in range(400):
        la = K.draw(rng, p, kind)
        if kind == "dense":
            d = la.wshapes
            la.in_shape = tuple(shp)
            la.wshapes = [(shp[1], d[0][1])] + d[1:]
            la.fan = shp[1]
            return la
        if kind in ("relu", "activation", "flatten"):
            if kind == "flatten" and len(la.in_shape) != len(shp):
                continue
            la.in_shape = tuple(shp)
            return la
        la.in_shape = tuple(shp)
        try:
            y = la.forward(la.x(rng), [])
        except Exception:
            continue
        if all(y.shape) and y.size:
            if "keepdims" in la.kw:
                continue
            return la
    return None


def small(ws, la):
    k = max(1.0, la.fan ** 0.5)
    return [np.round(w / k * 64) / 64 if la.kind != "bn" else w for w in ws]


def one_model(ctx, p, box):
    rng = ctx.rng
    las = stack(rng, p)
    sig = tuple(la.sig() for la in las)
    box["kind"], box["sig"] = "model", sig
    ctx.seen(p.name, "model", *sig)
    ctx.event("models")
    why = "%s %s" % (p.name, sig)
    shp = las[0].in_shape
    how = int(rng.integers(0, 3))
    names = ["layer_%d_%d" % (i, int(rng.integers(0, 1000))) for i in range(len(las))]
    if how == 0:
        cfg = dict(name="m", layers=[conf(la, nm, rng) for la, nm in zip(las, names)])
        cfg["layers"][0]["config"]["batch_input_shape"] = shp
        cfg["layers"].insert(0, dict(class_name="InputLayer", config=dict(batch_input_shape=shp, dtype="float32", name="in")))
        m = tfe.keras.models.model_from_config(cfg) if rng.integers(0, 2) else tfe.keras.Sequential.from_config(cfg)
    else:
        ls = [la.make(**({"batch_input_shape": list(shp)} if i == 0 else {}), name=names[i]) for i, la in enumerate(las)]
        if how == 1:
            m = tfe.keras.Sequential(ls)
        else:
            m = tfe.keras.Sequential()
            for la in ls:
                m.add(la)
    ctx.expect([la.name for la in m.layers] == names, "keras:names", why)
    ws = [small(la.weights(rng), la) for la in las]
    nested = bool(rng.integers(0, 2))
    arg = [np.array(w) for lw in ws for w in lw]
    vs = int(rng.integers(0, 2))
    if vs:
        arg = [p.private(w) for w in arg]
    if nested:
        it = iter(arg)
        arg = [[next(it) for _ in lw] for lw in ws]
    if any(ws):
        m.set_weights(arg)
    # as many samples as batches and a remainder
    n = int(rng.integers(1, 8))
    x = las[0].x(rng, n)
    want, tol = x, 0.0
    for la, lw in zip(las, ws):
        if la.act == "sigmoid" and np.abs(K.before_activation(la, want, lw)).max() > 3:
            return  # outside the domain of the polynomial
        t = K.tolerance(la, p, want, lw)
        gain = gains(la, lw)
        tol = tol * gain + t
        want = la.forward(want, lw)
    if n <= 6:
        y = m(p.private(x))
        ctx.close(tfx.rev(y), want, tol, "keras:model", why)
    bs = int(rng.integers(1, n + 3))
    px = p.private(x)
    if p.prot.__class__.__name__ != "ABY3" and "100" in p.name:
        px = None  # residue tensors cannot be passed to compiled functions
    if px is not None:
        seq = [(bs, True), (bs, False), (int(rng.integers(1, n + 3)), True)]
        for i in rng.permutation(3):
            b, r = seq[int(i)]
            got = m.predict(px, batch_size=b, reveal=r)
            ctx.expect(hasattr(got, "reveal") == (not r), "keras:predict-reveal", "%s reveal=%s gave %s" % (why, r, type(got).__name__))
            got = tfx.rev(got) if hasattr(got, "reveal") else np.asarray(got)
            ctx.close(got, want, tol, "keras:predict", "%s n=%d batch=%d" % (why, n, b))
            ctx.event("predictions")


def gains(la, ws):
    """how much an error in the input may grow"""
    if la.kind in ("dense", "conv", "depthwise") and ws:
        return float(np.max(np.sum(np.abs(ws[0]).reshape(-1, ws[0].shape[-1]), axis=0))) + 0.01
    return 1.0
