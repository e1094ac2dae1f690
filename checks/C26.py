"""Keras training: gradients of layers and losses, steps of optimizers, whole fits, evaluation."""
import numpy as np

from checks.C25 import conf, fit_to, gains, guarded, small  # noqa: F401
from vlib import kerasops as K
from vlib import tfx
from vlib.tfx import tf, tfe

SPEC = dict(
    rule="one evaluation = one backward pass of a layer against automatic differentiation, one value and gradient of a loss, one history of "
         "steps of an optimizer, or one fit of a model whose weights are followed by a float64 simulation; distinct = distinct (protocol, "
         "kind, arguments, shapes)",
    assumptions=["gradients of cross-entropy losses are taken as documented, (prediction - target) / batch", "training runs under ABY3",
                 "slopes of activations are computed from the output the layer gave"],
    min_events={"oracle_checks": 300, "values_compared": 3000, "backward_passes": 60, "optimizer_steps": 60, "fits": 6},
)
BACK = ["dense", "conv", "conv", "avgpool", "maxpool", "gavg", "gmax", "flatten", "reshape", "activation", "relu"]


def cases(tier, seed):
    k = 1 if tier == "quick" else 12
    out = []
    for j in range(k):
        for p in ("aby3-l", "aby3-h"):
            for i in range(2):
                out.append(("fit/%s/%d" % (p, 2 * j + i), ("fit", p, 2)))
            for i in range(3):
                out.append(("layers/%s/%d" % (p, 3 * j + i), ("layers", p, 2 * len(BACK) if tier == "quick" else 3 * len(BACK))))
            out.append(("losses/%s/%d" % (p, j), ("losses", p, 8)))
            out.append(("optim/%s/%d" % (p, j), ("optim", p, 5)))
        for p in ("pond-100", "pond-64ni", "snn-64"):
            out.append(("layers/%s/%d" % (p, j), ("layers", p, 10)))
    return out


def run_case(ctx, case_id, payload):
    what, pname, n = payload
    p = K.P(pname, True)
    if what == "layers":
        ks = BACK if p.aby3 else ["dense", "flatten", "reshape"]
        for kind in ([ks[int(i)] for i in ctx.rng.permutation(len(ks))] * n)[:n]:
            guarded(ctx, backward, p, kind)
            tfx.clear_cache()
        return
    f = {"losses": loss, "optim": optim, "fit": fit}[what]
    for _ in range(n):
        guarded(ctx, f, p)
        tfx.clear_cache()


def backward(ctx, p, box, kind):
    rng = ctx.rng
    la = K.draw(rng, p, kind)
    box["kind"], box["sig"] = kind, la.sig()
    lazy = bool(rng.integers(0, 3) == 0) and kind in ("dense", "conv")
    ctx.seen(p.name, "backward", lazy, *la.sig())
    ctx.event("backward_passes")
    ctx.event("backward:" + kind)
    why = "%s %s lazy=%s" % (p.name, la.sig(), lazy)
    layer = la.make(**(dict(lazy_normalization=True) if lazy else {}))
    x, ws = la.x(rng), la.weights(rng)
    layer.build(tf.TensorShape(list(la.in_shape)))
    if ws:
        layer.set_weights([np.array(w) for w in ws])
    if rng.integers(0, 2):  # an earlier call with another batch
        layer(p.private(la.x(rng, int(rng.integers(1, 4)))))
    y = layer(p.private(x))
    got_y = np.asarray(tfx.rev(y))
    dy = rng.integers(-16, 17, got_y.shape) / 16.0
    grads, dx = layer.backward(p.private(dy))
    want_g, want_x = la.gradients(x, ws, dy, got_y)
    m = max([1.0] + [float(np.max(np.abs(w))) for w in ws])
    n_out = int(np.prod(got_y.shape)) + 1
    t = p.ulp * 4 + (2 * p.ulp if la.act else 0)
    fan = la.fan if kind not in ("conv",) else 9 * la.kw["filters"]
    if kind == "dense":
        fan = la.kw["units"]
    ctx.close(tfx.rev(dx), want_x, p.ulp * 4 + t * fan * (m + 1), "keras:dx:" + kind, why)
    ctx.expect(len(grads) == len(want_g), "keras:grads:" + kind, why)
    for g, w, v in zip(grads, want_g, layer.weights):
        if lazy:
            w = w / x.shape[0]
        ctx.equal(np.array([int(d) for d in g.shape]), np.array([int(d) for d in v.shape]), "keras:grad-shape:" + kind, why)
        g = np.asarray(tfx.rev(g)).reshape(w.shape)
        ctx.close(g, w, p.ulp * 4 + t * n_out * 2.2 / (x.shape[0] if lazy else 1), "keras:dw:" + kind, why)


def sigm(v):
    return 1 / (1 + np.exp(-v))


def softm(v):
    e = np.exp(v - v.max(axis=-1, keepdims=True))
    return e / e.sum(axis=-1, keepdims=True)


def loss(ctx, p, box):
    rng = ctx.rng
    name = ["mse", "bce", "bce_logits", "cce", "cce_logits"][int(rng.integers(0, 5))]
    n, k = int(rng.integers(1, 7)), int(rng.integers(1, 4))
    lazy = bool(rng.integers(0, 2))
    if name.startswith("cce"):
        k = max(k, 2)
        y = np.eye(k)[rng.integers(0, k, n)]
    elif name == "mse":
        y = rng.integers(-64, 65, (n, k)) / 32.0
    else:
        y = rng.integers(0, 2, (n, k)).astype(float)
    box["kind"], box["sig"] = name, (name, n, k, lazy)
    ctx.seen(p.name, "loss", name, n, k, lazy)
    why = "%s %s n=%d k=%d lazy=%s" % (p.name, name, n, k, lazy)
    if name in ("bce", "cce"):
        q = rng.uniform(0.1, 0.9, (n, k))
        if name == "cce":
            q = q / q.sum(axis=-1, keepdims=True)
    else:
        q = rng.uniform(-2, 2, (n, k))
    L = tfe.keras.losses
    if name == "mse":
        lo, pr, lazy = L.MeanSquaredError(), q, False
        val = ((y - q) ** 2).sum(axis=0) / n
        gr = 2 * (q - y) / n
        tv = tg = p.ulp * 30
    else:
        pr = q if not name.endswith("logits") else sigm(q) if name[0] == "b" else softm(q)
        cls = L.BinaryCrossentropy if name[0] == "b" else L.CategoricalCrossentropy
        lo = cls(from_logits=name.endswith("logits"), lazy_normalization=lazy)
        gr = (pr - y) / (1 if lazy else n)
        if name[0] == "b":
            val = -(y * np.log(pr) + (1 - y) * np.log(1 - pr)).sum(axis=0) / n
        else:
            val = np.asarray(-(y * np.log(pr)).sum() / n)
        e = {"bce": 0.001, "cce": 0.001, "bce_logits": 0.045, "cce_logits": 0.01}[name]
        tg = p.ulp * 30 + (e if name.endswith("logits") else 0)
        tv = 0.1 + (e / 0.1) * 1.5 if name.endswith("logits") else 0.1
    py, pq = p.private(y), p.private(q)
    order = rng.integers(0, 2)
    if order:
        g = lo.grad(py, pq)
    v = lo(py, pq)
    if not order:
        g = lo.grad(py, pq)
    ctx.event("losses")
    ctx.close(np.asarray(tfx.rev(v)), val, tv, "keras:loss:" + name, why)
    ctx.close(np.asarray(tfx.rev(g)), gr, tg, "keras:loss-grad:" + name, why)


class Ref:
    """optimizers in float64"""

    def __init__(self, name, kw, eps):
        self.name, self.kw, self.eps, self.s = name, kw, eps, {}

    def step(self, key, w, g):
        kw = self.kw
        s = self.s.setdefault(key, dict(m=0.0 * w, v=0.0 * w, h=0.0 * w, t=0))
        s["t"] += 1
        lr = kw["learning_rate"]
        if self.name == "SGD":
            s["v"] = kw.get("momentum", 0.0) * s["v"] + lr * g
            return w - s["v"]
        b1, b2 = kw["beta1"], kw["beta2"]
        s["m"] = b1 * s["m"] + (1 - b1) * g
        s["v"] = b2 * s["v"] + (1 - b2) * g * g
        if self.name == "AMSgrad":
            s["h"] = np.maximum(s["h"], s["v"])
            return w - lr * s["m"] / np.sqrt(s["h"] + self.eps)
        mh, vh = s["m"] / (1 - b1 ** s["t"]), s["v"] / (1 - b2 ** s["t"])
        return w - lr * mh / np.sqrt(vh + self.eps)


def draw_optim(rng, only=None):
    name = only or ["SGD", "SGD", "AMSgrad", "Adam"][int(rng.integers(0, 4))]
    kw = dict(learning_rate=float(rng.choice([0.5, 0.25, 0.1])))
    if name == "SGD":
        if rng.integers(0, 2):
            kw["momentum"] = float(rng.choice([0.0, 0.5, 0.75, 0.9]))
    else:
        kw["beta1"] = float(rng.choice([0.5, 0.75, 0.9]))
        kw["beta2"] = float(rng.choice([0.5, 0.75, 0.9]))
    return name, kw


def optim(ctx, p, box):
    rng = ctx.rng
    name, kw = draw_optim(rng)
    steps = int(rng.integers(3, 7))
    shapes = [[tuple(int(v) for v in rng.integers(1, 4, int(rng.integers(1, 3)))) for _ in range(int(rng.integers(1, 3)))] for _ in range(2)]
    box["kind"], box["sig"] = "optim", (name, kw, shapes, steps)
    why = "%s %s" % (p.name, box["sig"])
    ctx.seen(p.name, "optim", name, sorted(kw.items()), shapes)
    opt = getattr(tfe.keras.optimizers, name)(**kw)
    ref = Ref(name, kw, p.ulp)
    ws = [[rng.integers(-32, 33, s) / 16.0 for s in ss] for ss in shapes]
    vs = [[p.private(w) for w in l] for l in ws]
    if rng.integers(0, 2):
        vs.insert(1, [])
        ws.insert(1, [])
    opt.compile(vs)
    tol = 0.0
    for t in range(steps):
        for i in range(len(vs)):
            if not vs[i] or (rng.integers(0, 4) == 0 and name == "SGD"):
                continue
            gs = [np.where(rng.integers(0, 2, w.shape), 1, -1) * rng.uniform(0.3, 1.0, w.shape) for w in ws[i]]
            opt.apply_gradients(vs[i], [p.private(g).read_value() for g in gs])
            ws[i] = [ref.step((i, j), w, g) for j, (w, g) in enumerate(zip(ws[i], gs))]
            ctx.event("optimizer_steps")
        tol += p.ulp * 12 if name == "SGD" else kw["learning_rate"] * (0.02 + 400 * p.ulp)
        for i in range(len(vs)):
            for v, w in zip(vs[i], ws[i]):
                ctx.close(tfx.rev(v.read_value()), w, tol, "keras:step:" + name, "%s step %d" % (why, t))


class Batches:
    """the samples a fit should use, in order"""

    def __init__(self, x, y, bs, epochs, steps, gen):
        self.out = []
        n = x.shape[0]
        b = [(x[i:i + bs], y[i:i + bs]) for i in range(0, n, bs)]
        if gen:  # one pass over a generator
            it = iter(b * gen)
            for _ in range(epochs):
                for k, e in enumerate(it):
                    self.out.append(e)
                    if steps is not None and k + 1 >= steps:
                        break
        else:
            for _ in range(epochs):
                self.out += b if steps is None else b[:steps]


def fit(ctx, p, box):
    rng = ctx.rng
    n, i, o = int(rng.integers(2, 9)), int(rng.integers(1, 4)), int(rng.integers(1, 4))
    while i == n:
        i = int(rng.integers(1, 4))
    hidden = bool(rng.integers(0, 2))
    las = []
    las.append(fit_to(rng, p, "dense", (n, i)))
    las[-1].kw["activation"] = None
    if hidden:
        while las[-1].act not in (None, "linear", "relu"):
            las[-1] = fit_to(rng, p, "dense", (n, i))
        if las[-1].act:
            las[-1].kw["activation"] = las[-1].act
    last = None
    shp = (n, i)
    if hidden:
        shp = (n, las[0].kw["units"])
    else:
        las = []
    while last is None or last.act not in (None, "linear"):
        last = fit_to(rng, p, "dense", shp)
    last.kw["units"] = o
    b = len(last.wshapes) > 1
    last.wshapes = [(shp[1], o)] + ([(o,)] if b else [])
    las.append(last)
    frozen = [bool(rng.integers(0, 5) == 0) for _ in las]
    if all(frozen):
        frozen[-1] = False
    lname = ["mse", "bce", "cce"][int(rng.integers(0, 3))]
    lazy = bool(rng.integers(0, 2)) and lname != "mse"
    oname, okw = draw_optim(rng, "SGD" if rng.integers(0, 3) else None)
    okw["learning_rate"] = float(rng.choice([0.25, 0.125]))
    okw.pop("momentum", None)
    if oname == "SGD" and rng.integers(0, 2):
        okw["momentum"] = 0.5
    epochs = int(rng.integers(1, 4))
    bs = int(rng.integers(1, n + 1))
    while n / bs > 4:
        bs += 1
    steps = int(rng.integers(1, -(-n // bs) + 1)) if rng.integers(0, 3) == 0 else None
    gen = int(rng.integers(1, 3)) if rng.integers(0, 3) == 0 else 0
    sig = (tuple(la.sig() for la in las), tuple(frozen), lname, lazy, oname, tuple(sorted(okw.items())), n, bs, epochs, steps, gen)
    box["kind"], box["sig"] = "fit", sig
    ctx.seen(p.name, "fit", *sig)
    why = "%s %s" % (p.name, sig)
    ls = [la.make(**({"batch_input_shape": list(la.in_shape)} if k == 0 else {}), trainable=not f, lazy_normalization=lazy)
          for k, (la, f) in enumerate(zip(las, frozen))]
    model = tfe.keras.Sequential(ls)
    ws = [[np.round(w * 16) / 32 for w in la.weights(rng)] for la in las]
    model.set_weights([[np.array(w) for w in lw] for lw in ws])
    L = tfe.keras.losses
    lo = {"mse": lambda: L.MeanSquaredError(), "bce": lambda: L.BinaryCrossentropy(from_logits=True, lazy_normalization=lazy),
          "cce": lambda: L.CategoricalCrossentropy(from_logits=True, lazy_normalization=lazy)}[lname]()
    opt = getattr(tfe.keras.optimizers, oname)(**okw)
    model.compile(opt, lo)
    x = rng.integers(-16, 17, (n, i)) / 16.0
    y = rng.integers(-16, 17, (n, o)) / 16.0 if lname == "mse" else rng.integers(0, 2, (n, o)) * 1.0
    if lname == "cce":
        y = np.eye(o)[rng.integers(0, o, n)]
    px, py = p.private(x), p.private(y)
    plan = Batches(x, y, bs, epochs, steps, gen).out
    if gen:
        def g():
            for _ in range(gen):
                for k in range(0, n, bs):
                    yield p.private(x[k:k + bs]), p.private(y[k:k + bs])
        model.fit(g(), epochs=epochs, steps_per_epoch=steps, verbose=0)
    else:
        model.fit(px, py, batch_size=bs, epochs=epochs, steps_per_epoch=steps, verbose=0)
    ctx.event("fits")
    ctx.event("batches_trained", len(plan))
    ref = Ref(oname, okw, p.ulp)
    tol = 0.0
    e = {"mse": 0.0, "bce": 0.042, "cce": 0.01}[lname]
    for bx, by in plan:
        hs, h = [bx], bx
        for la, lw in zip(las, ws):
            h = la.forward(h, lw)
            hs.append(h)
        m = bx.shape[0]
        d = {"mse": lambda: 2 * (h - by) / m, "bce": lambda: (sigm(h) - by) / (1 if lazy else m),
             "cce": lambda: (softm(h) - by) / (1 if lazy else m)}[lname]()
        for k in reversed(range(len(las))):
            g, d2 = las[k].gradients(hs[k], ws[k], d, hs[k + 1])
            if lazy:
                g = [v / m for v in g]
            if not frozen[k]:
                ws[k] = [ref.step((k, j), w, v) for j, (w, v) in enumerate(zip(ws[k], g))]
            d = d2
        big = max([1.0] + [float(np.max(np.abs(w))) for lw in ws for w in lw] + [float(np.max(np.abs(v))) for v in hs])
        step = okw["learning_rate"] * (e + 60 * p.ulp) * big * big * o if oname == "SGD" else okw["learning_rate"] * (0.05 + e + 400 * p.ulp) * 3
        tol = tol * (1 + (okw["learning_rate"] * big * big * 2 if oname == "SGD" else 0.7)) + step
    if tol > 0.6:
        ctx.event("fits_unstable")
        return
    for k, layer in enumerate(model.layers):
        for v, w in zip(layer.weights, ws[k]):
            got = np.asarray(tfx.rev(v.read_value())).reshape(w.shape)
            ctx.close(got, w, p.ulp if frozen[k] else tol, "keras:fit" + ("-frozen" if frozen[k] else ""), why + " layer %d" % k)
    if o > 1 and lname == "cce" or lname == "bce":
        evaluate(ctx, p, model, las, ws, x, y, lname, tol, bs, why)


def evaluate(ctx, p, model, las, ws, x, y, lname, tol, bs, why):
    rng = ctx.rng
    h = x
    for la, lw in zip(las, ws):
        h = la.forward(h, lw)
    name = "categorical_accuracy" if lname == "cce" else "binary_accuracy"
    margin = np.abs(h - 0.5).min() if lname == "bce" else np.min(np.sort(h, axis=-1)[:, -1] - np.sort(h, axis=-1)[:, -2])
    kw = {}
    how = int(rng.integers(0, 3))
    n = x.shape[0]
    use = n
    if how:
        kw["batch_size"] = bs
    if how == 2:
        kw["steps"] = int(rng.integers(1, -(-n // bs) + 1))
        use = min(n, kw["steps"] * bs)
    got = model.evaluate(p.private(x), p.private(y), metrics=[name], **kw)
    ctx.event("evaluations")
    ctx.expect(list(got) == [name], "keras:evaluate-metrics", why)
    if margin < 4 * tol + 0.01:
        return
    if lname == "bce":
        want = np.mean((h[:use] > 0.5) == (y[:use] > 0.5))
    else:
        want = np.mean(h[:use].argmax(-1) == y[:use].argmax(-1))
    ctx.close(float(got[name]), want, 1e-6, "keras:evaluate", "%s %s" % (why, kw))
    ctx.event("evaluations_compared")
