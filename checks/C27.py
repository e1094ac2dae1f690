"""Conversion of ONNX models: the converted model computes, and trains as, the plain one."""
import os

import numpy as np

from vlib import kerasops as K
from vlib import onnxops as O
from vlib import tfx
from vlib.tfx import tf, tfe

SPEC = dict(
    rule="one evaluation = one random ONNX graph converted and called on private data (two batch sizes), some also given a gradient and one step of "
         "training; distinct = distinct graphs (operations, attributes, shapes)",
    assumptions=["opset 13 to 17, where axes are inputs of Squeeze, Unsqueeze and Split, attributes of ReduceMean and ReduceMax",
                 "the float64 reference of each graph is itself compared with the ONNX reference evaluator",
                 "NotImplementedError is accepted for windows that are not square in Conv and for padding of pooling nodes other than SAME_UPPER"],
    min_events={"oracle_checks": 800, "values_compared": 8000, "graphs": 250, "gradients": 60, "onnx_evaluations": 200},
    workers=8,
)
PROTS = ("aby3-l", "aby3-h")


def cases(tier, seed):
    k = 1 if tier == "quick" else 10
    out = []
    for j in range(k):
        for p in PROTS:
            for i in range(4):
                out.append(("ops/%s/%d" % (p, 4 * j + i), ("ops", p, 18)))
                out.append(("chain/%s/%d" % (p, 4 * j + i), ("chain", p, 6)))
                out.append(("train/%s/%d" % (p, 4 * j + i), ("train", p, 10)))
        for p in ("pond-100", "pond-64"):
            out.append(("pond/%s/%d" % (p, j), ("pond", p, 12)))
    return out


def run_case(ctx, case_id, payload):
    what, pname, n = payload
    p = K.P(pname, True)
    rng = ctx.rng
    kinds = list(O.OPS)
    if what == "pond":
        kinds = ["add", "sub", "mul", "neg", "matmul", "conv", "avgpool", "concat", "reshape", "flatten", "transpose", "unsqueeze", "squeeze"]
    order = [kinds[int(i)] for i in rng.permutation(len(kinds))]
    for i in range(n):
        kind = order[i % len(order)]
        b = int(rng.integers(1, 4))
        if what in ("ops", "pond"):
            g = O.Graph(rng, b)
            O.start(g, kind)
            out = O.OPS[kind](g)
            if not out:
                continue
        else:
            g, out = O.chain(rng, b, int(rng.integers(1, 6)) if what == "train" else int(rng.integers(2, 7)), what == "train")
            if g is None:
                continue
        try:
            one(ctx, p, g, out, what == "train")
        except Exception as ex:
            import traceback
            tb = [t.strip() for t in traceback.format_exc().splitlines() if "/repo/" in t or "tf_encrypted" in t]
            ctx.violate("raised:convert:%s" % "+".join(sorted({o[0] for o in g.ops})), "%s %s | %s: %s | %s" % (
                p.name, g.ops, type(ex).__name__, str(ex)[:300], " / ".join(tb[-4:])))
        tfx.clear_cache()


def one(ctx, p, g, out, train):
    from onnx.reference import ReferenceEvaluator
    from tf_encrypted.convert import Converter
    rng = ctx.rng
    model = g.model(out)
    ctx.seen(p.name, out, *g.ops)
    ctx.event("graphs")
    for o in g.ops:
        ctx.event("op:" + o[0])
    why = "%s %s outputs=%d names=%s raw=%s" % (p.name, g.ops, len(out), g.named, g.raw)
    c64 = lambda d: {k: tf.constant(v, O.F) for k, v in d.items()}
    xs = O.values(g, rng)
    want = [w.numpy() for w in g.run(c64(xs), c64(g.consts), out)]
    if any(o[0] in ("MaxPool", "AveragePool") and o[4] and any(o[4]) for o in g.ops):
        ref = []  # the evaluator gets some padded windows wrong
    else:
        ref = ReferenceEvaluator(model).run(None, {k: v.astype(np.float32) for k, v in xs.items()})
        ctx.event("onnx_evaluations")
    for a, b in zip(want, ref):
        if a.shape != b.shape or (a.size and np.abs(a - b).max() > 1e-3 * (1 + np.abs(a).max())):
            raise AssertionError("reference of the harness disagrees with the ONNX evaluator")

    shapes = [list(s) for _, s in g.inputs]
    if rng.integers(0, 4) == 0:  # older models list their initializers among the inputs
        for t in g.inits:
            model.graph.input.append(g.h.make_tensor_value_info(t.name, t.data_type, list(t.dims)))
    given = [list(s) for s in shapes]
    if len(given) == 1 and rng.integers(0, 2):
        given = given[0]
    keep = [list(s) if isinstance(s, list) else s for s in given]
    src = model
    if rng.integers(0, 4) == 0:
        import onnx
        src = os.path.join(os.environ["VERIF_TMP"], "m%d.onnx" % int(rng.integers(0, 1 << 30)))
        onnx.save(model, src)
    prov = [None, "weights-provider", tfe.get_config().get_player("weights-provider")][int(rng.integers(0, 3))]
    conv = Converter(config=tfe.get_config()) if rng.integers(0, 2) else Converter(tfe.get_config(), p.prot)
    try:
        cm = conv.convert(src, given, model_provider=prov)
    except NotImplementedError as ex:
        ctx.event("refused")
        ctx.expect(O.may_refuse(g), "convert:refused", "%s | %s" % (why, ex))
        return
    ctx.expect(given == keep, "convert:shapes-changed", why)
    forward(ctx, p, g, cm, out, xs, g.consts, "convert:forward", why)
    if rng.integers(0, 2):
        b = int(rng.integers(1, 5))
        forward(ctx, p, g, cm, out, O.values(g, rng, b), g.consts, "convert:forward-batch", why + " batch %d" % b)
    if train:
        xs = O.values(g, rng)
        step(ctx, p, g, cm, out, xs, why)


def spread(g, f, rng, base):
    """largest deviation of f under the errors of each operation, three fold"""
    dev = [np.zeros(np.shape(b)) for b in base]
    for _ in range(4):
        for d, a, b in zip(dev, f(), base):
            np.maximum(d, np.abs(a - b).max() if np.size(b) else 0, out=d)
    return [3 * d for d in dev]


def forward(ctx, p, g, cm, out, xs, consts, mech, why):
    c64 = lambda d: {k: tf.constant(v, O.F) for k, v in d.items()}
    X, C = c64(xs), c64(consts)
    want = [w.numpy() for w in g.run(X, C, out)]
    tol = spread(g, lambda: [t.numpy() for t in O.noisy(g, X, C, out, p.ulp, ctx.rng)], ctx.rng, want)
    px = [p.private(xs[n]) for n, _ in g.inputs]
    y = cm.call(px[0] if len(px) == 1 and ctx.rng.integers(0, 2) else px)
    ys = list(y) if isinstance(y, (list, tuple)) else [y]
    if not ctx.equal(len(ys), len(want), mech + ":outputs", why):
        return
    for n, a, b, t in zip(out, ys, want, tol):
        a = np.asarray(tfx.rev(a))
        if not ctx.equal(np.array(a.shape), np.array(b.shape), mech + ":shape", "%s of %s" % (n, why)):
            continue
        ctx.close(a, b, t + 4 * p.ulp, mech, "%s of %s" % (n, why))


def step(ctx, p, g, cm, out, xs, why):
    rng = ctx.rng
    ctx.event("gradients")
    c64 = lambda d: {k: tf.constant(v, O.F) for k, v in d.items()}
    X, C = c64(xs), c64(g.consts)
    base = [w.numpy() for w in g.run(X, C, out)]
    dys = [rng.integers(-16, 17, b.shape) / 16.0 for b in base]
    names, cn = [n for n, _ in g.inputs], list(g.consts)

    def grads(f):
        with tf.GradientTape() as t:
            for v in list(X.values()) + list(C.values()):
                t.watch(v)
            s = tf.add_n([tf.reduce_sum(y * d) for y, d in zip(f(), dys)])
        gs = t.gradient(s, [X[n] for n in names] + [C[n] for n in cn], unconnected_gradients="zero")
        return [v.numpy() for v in gs]
    want = grads(lambda: g.run(X, C, out))
    tol = spread(g, lambda: grads(lambda: O.noisy(g, X, C, out, p.ulp, rng)), rng, want)
    lr = float(rng.choice([0.125, 0.25]))
    cm.compile(tfe.keras.optimizers.SGD(learning_rate=lr), tfe.keras.losses.MeanSquaredError())
    px = [p.private(xs[n]) for n in names]
    cm.call(px)
    dx = cm.backward([p.private(d) for d in dys])
    if not ctx.equal(len(dx), len(names), "convert:dx:count", why):
        return
    for n, a, b, t in zip(names, dx, want, tol):
        a = np.asarray(tfx.rev(a))
        if ctx.equal(np.array(a.shape), np.array(b.shape), "convert:dx:shape", "%s of %s" % (n, why)):
            ctx.close(a, b, t + 6 * p.ulp * (1 + np.abs(b).max()), "convert:dx", "%s of %s" % (n, why))
    if not cn:
        return
    ctx.event("training_steps")
    new = {n: g.consts[n] - lr * b for n, b in zip(cn, want[len(names):])}
    w = [np.asarray(t) for t in tol[len(names):]]
    # new values of the weights are uncertain by lr times the error of their gradients
    X2 = O.values(g, rng)
    Y = c64(X2)
    ref = [v.numpy() for v in g.run(Y, c64(new), out)]

    def off():
        shifted = {n: v + lr * rng.choice([-1.0, 1.0], v.shape) * (t + 6 * p.ulp) for (n, v), t in zip(new.items(), w)}
        return [v.numpy() for v in O.noisy(g, Y, c64(shifted), out, p.ulp, rng)]
    tl = spread(g, off, rng, ref)
    y = cm.call([p.private(X2[n]) for n in names])
    ys = list(y) if isinstance(y, (list, tuple)) else [y]
    for n, a, b, t in zip(out, ys, ref, tl):
        ctx.close(tfx.rev(a), b, t + 4 * p.ulp, "convert:trained", "%s of %s" % (n, why))
