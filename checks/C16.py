"""Pond and SecureNN: no single player learns anything about the secrets; masks are fresh."""
import random

import numpy as np

from vlib import pondops as B
from vlib import secrecy as S
from vlib import snnops as N
from vlib import tfx
from vlib import trace as TR

SPEC = dict(
    rule="one evaluation = one operation instance run many times on two different secrets with every player on its own device, or one "
         "interactive operation on constant inputs whose result shares must be fresh uniform words; distinct = distinct (operation, operand "
         "kinds, shapes, parameters); the recorded view of both servers and of the triple producer must have the same structure and bit "
         "distributions for both secrets, and no combination of up to three of its values may be a secret, a result or a difference of secrets",
    assumptions=["passive adversary controlling one player; statistics resolve a bias of a bit of about 0.3 in one value of at least four "
                 "elements; the interactive truncation hides its operand statistically (2^-20 or better), which is below that resolution"],
    env={"VERIF_DEVICES": "1"},
    min_events={"oracle_checks": 50000, "view_tensors": 1000, "attack_values": 500, "traced_runs": 500, "fresh_words": 5000},
)
NAMES = ["server0", "server1", "server2", "inputter", "bob"]
PARTIES = (1, 2, 3)
WHO = {1: "server0", 2: "server1", 3: "the triple producer"}
SKIP = ("op_reveal", "op_equal", "op_recip", "op_bits", "op_private_compare", "op_odd")
KINDS = ("64", "100")
WAYS = ["input", "input_unscaled", "local", "output", "var_assign", "mask", "seal"]


def cases(tier, seed):
    out = []
    n = 1 if tier == "quick" else 8
    for k in range(n):
        for kind in ("64", "100", "64ni"):
            for proto, gens in (("pond", B.LINEAR + B.STRUCT + B.MULT), ("snn", N.COMPARE)):
                if kind == "64ni" and (proto == "snn" or tier == "quick" and True):
                    gens = [g for g in B.MULT] if proto == "pond" else []
                names = []
                for g in gens:
                    if g.__name__ in SKIP or g.__name__ in names:
                        continue
                    names.append(g.__name__)
                    out.append(("%s:%s/%s/%d" % (proto, g.__name__, kind, k), ("op", proto, g.__name__, kind)))
        for kind in KINDS:
            for w in WAYS:
                out.append(("way:%s/%s/%d" % (w, kind, k), ("way", w, kind)))
            for f in sorted(FRESH):
                out.append(("fresh:%s/%s/%d" % (f, kind, k), ("fresh", f, kind)))
    for kind in ("64",):
        out.append(("function/" + kind, ("function", "", kind)))
    return sorted(out, key=lambda c: not (c[0].startswith("snn") and "/100" in c[0]))


def proto(kind, cls=None):
    return TR.device_protocol(lambda: tfx.make_pond(kind, cls or tfx.Pond), NAMES)[0]


def run_case(ctx, case_id, payload):
    if payload[0] == "op":
        _, p, g, kind = payload
        cls, mod = (tfx.Pond, B) if p == "pond" else (tfx.SecureNN, N)
        return run_op_case(ctx, getattr(mod, g), kind, cls)
    if payload[0] == "way":
        return run_way(ctx, payload[1], payload[2])
    if payload[0] == "fresh":
        return run_fresh(ctx, payload[1], payload[2])
    return run_function(ctx, payload[2])


SECRET = B.PRIV + B.MASK


def as_input(i):
    """secrets come from a player of their own"""
    if i.kind in SECRET and not (i.env.nb == 100 and not i.scaled and any(abs(int(v)) >= 1 << 31 for v in i.raw.ravel())):
        return B.In(i.env, i.raw, "local" if i.kind in B.MASK else "input", i.scaled)
    return i


def flat(op, which, small):
    """operands with every secret element the same: two far apart values, or (small) a large and a small one"""
    out, differ = [], False
    for k, i in enumerate(op.ins):
        if i.kind in SECRET:
            vs = sorted(int(v) for v in i.raw.ravel())
            if vs[0] == vs[-1]:
                vs = [vs[0] - 1 if vs[0] > 0 else vs[0], vs[-1] if vs[0] > 0 else vs[0] + 1]
            raw = np.empty(i.raw.shape, dtype=object)
            if small:
                big = vs[0] if abs(vs[0]) > abs(vs[-1]) else vs[-1]
                raw.fill(int(big) if which == 0 else (k + 1) * (1 if big >= 0 else -1))
            else:
                raw.fill(vs[0] if which == k % 2 else vs[-1])
            out.append(B.In(i.env, raw, i.kind, i.scaled))
            differ = differ or vs[0] != vs[-1]
        else:
            out.append(i)
    return out, differ


def views(tr, p):
    return [(e.op + ".in", x) for e in tr.events if e.device == p for x in (e.ins or ()) if x is not None] + S.incoming(tr, p)


def run_attack(ctx, tr, secrets, what, e):
    for p in PARTIES:
        v = views(tr, p)
        for s in secrets:
            if e.nb == 64:
                S.attack(ctx, v, s, what, False, WHO[p], kinds=("add",))
            else:
                S.attack_mod(ctx, v, s, what, 1201, WHO[p])


def ringvals(e, o):
    try:
        return [B.ring(e, o)]
    except Exception:
        return []


def run_op_case(ctx, gen, kind, cls):
    prot = proto(kind, cls)
    e = B.Env(kind, ctx.rng)
    quick = ctx.tier == "quick"
    done = 0
    for _ in range(10 if quick else 30):
        op = B.draw(gen, e)
        if op is None:
            continue
        secrets = [i.raw for i in op.ins if i.kind in SECRET]
        if not secrets:
            continue
        for a in range(len(op.ins)):
            for b in range(a):
                if op.ins[a].kind in SECRET and op.ins[b].kind in SECRET and op.ins[a].raw.shape == op.ins[b].raw.shape:
                    secrets.append(np.asarray(op.ins[a].raw - op.ins[b].raw, dtype=object))
        if not any(s.size >= 3 and S.entropy_bits(s) >= 90 for s in secrets):
            continue
        tfx.clear_cache()
        random.seed(int(ctx.rng.integers(0, 1 << 30)))
        xs = [as_input(i).make(prot) for i in op.ins]
        with TR.Trace() as tr:
            out = op.f(prot, *xs)
        outs = out if isinstance(out, (list, tuple)) else [out]
        for o in outs[:4]:
            if B.is_private(o):
                secrets += ringvals(e, o)
        known = [np.asarray(i.raw) for i in op.ins if i.kind not in SECRET]
        secrets = [s for s in secrets if not any(s.size == k.size and (
            np.array_equal(s.ravel(), k.ravel()) or np.array_equal(s.ravel(), -k.ravel())) for k in known)]
        ctx.event("attacked_runs")
        run_attack(ctx, tr, secrets, op.name.split(":")[0], e)
        done += 1
        if done >= (2 if quick else 8):
            break
    heavy = gen.__name__ in ("op_reduce_max", "op_argmax", "op_maxpool", "op_poly", "op_maximum", "op_relu", "op_compare", "op_reuse")
    slow = cls is tfx.SecureNN and kind == "100"
    want = (1 if slow else 2) if quick else 6
    names = set()
    for t in range(80):
        if len(names) >= want:
            break
        op = B.draw(gen, e)
        if op is None or op.name in names and t < 40:
            continue
        small = (len(names) % 2 == 1 or slow and ctx.rng.integers(0, 2) == 1) and not gen.__name__ == "op_poly" and all(i.scaled or i.raw.max() > 1 for i in op.ins)
        (a, d), (b, _) = flat(op, 0, small), flat(op, 1, small)
        if not d or max(i.raw.size for i in op.ins) < 4 or heavy and max(i.raw.size for i in op.ins) > (8 if kind == "100" else 12) and t < 70:
            continue
        names.add(op.name if op.name not in names else op.name + str(t))
        ctx.seen(kind, *op.sig())
        coin = int(ctx.rng.integers(0, 1 << 30))
        S.ab(ctx, runner(prot, op, a, coin), runner(prot, op, b, coin), PARTIES, op.name.split(":")[0], *((5 if heavy and kind == "100" else 6, 40) if quick else (12, 48)))


def runner(prot, op, ins, coin):
    ins = [as_input(i) for i in ins]

    def run():
        tfx.clear_cache()
        random.seed(coin)  # the public choice of who holds which seed
        xs = [i.make(prot) for i in ins]
        with TR.Trace() as tr:
            op.f(prot, *xs)
        return tr
    return run


def run_way(ctx, way, kind):
    tf = tfx.tf
    prot = proto(kind, tfx.SecureNN if ctx.rng.integers(0, 2) else tfx.Pond)
    e = B.Env(kind, ctx.rng)
    sc = way != "input_unscaled"
    shp = (4, 4)
    coin = int(ctx.rng.integers(0, 1 << 30))

    def go(raw):
        i = B.In(e, raw, "input", sc)
        v = i.real() if sc else np.asarray(raw, dtype=np.int64)
        mk = lambda **k: prot.define_private_input("inputter", lambda: tf.constant(v), apply_scaling=sc, **k)
        tfx.clear_cache()
        random.seed(coin)
        if way.startswith("input"):
            with TR.Trace() as tr:
                mk()
        elif way == "local":
            with TR.Trace() as tr:
                mk(masked=True)
        elif way == "output":
            x = mk()
            with TR.Trace() as tr:
                prot.define_output("bob", x, lambda t: None)
        elif way == "mask":
            x = mk()
            with TR.Trace() as tr:
                y = prot.mask(x)
                prot.mul(y, y)
        elif way == "seal":
            with TR.Trace() as tr:
                x = prot.define_private_input("inputter", lambda: tf.constant(v), apply_scaling=sc)
                y = prot.define_private_input("bob", lambda: tf.constant(v), apply_scaling=sc)
                (x + y) - x
        else:
            x = mk()
            y = prot.define_private_variable(np.zeros(shp))
            with TR.Trace() as tr:
                prot.assign(y, x)
                z = y.read_value()
                prot.define_private_variable(z)
        return tr
    ctx.seen(way, kind)
    lim = e.bound if sc else (1 << 31 if e.nb == 100 else 1 << 62)
    raw = e.ints(shp, lim)
    for i in np.ndindex(*shp):
        raw[i] = int(ctx.rng.integers(-min(lim, 1 << 62) + 1, min(lim, 1 << 62)))
    run_attack(ctx, go(raw), [raw], "way:" + way, e)
    A, C = np.empty(shp, dtype=object), np.empty(shp, dtype=object)
    A.fill(-lim + 12345)
    C.fill(lim - 1)
    S.ab(ctx, lambda: go(A), lambda: go(C), PARTIES, "way:" + way)


# ------------------------------------------------------------------- freshness
M = 256


def given(p, shp, v=0.0, sc=True):
    return p.define_private_input("inputter", lambda: tfx.tf.constant(np.full(shp, v) if sc else np.full(shp, int(v), dtype=np.int64)), apply_scaling=sc)


FRESH = {
    "input": lambda p: given(p, (M,)),
    "input_unscaled": lambda p: given(p, (M,), 3, False),
    "variable": lambda p: p.define_private_variable(np.zeros((M,))),
    "variable_tf": lambda p: p.define_private_variable(tfx.tf.zeros((M,), tfx.tf.float64)),
    "mul": lambda p: p.mul(zero(p, (M,)), zero(p, (M,))),
    "mul_bcast": lambda p: p.mul(zero(p, (1,)), zero(p, (M,))),
    "mul_bcast2": lambda p: p.mul(zero(p, (4, M // 4)), zero(p, (M // 4,))),
    "square": lambda p: p.square(zero(p, (M,))),
    "matmul": lambda p: p.matmul(zero(p, (16, 3)), zero(p, (3, 16))),
    "conv2d": lambda p: p.conv2d(zero(p, (2, 1, 8, 8)), zero(p, (3, 3, 1, 2)), [1, 1], "SAME"),
    "mask": lambda p: p.mask(zero(p, (M,))),
    "mask_bcast": lambda p: p.mask(zero(p, (4, M // 4))),
    "masked_input": lambda p: p.define_private_input("inputter", lambda: tfx.tf.zeros((M,), tfx.tf.float64), masked=True),
    "snn_and": lambda p: p.bitwise_and(zero(p, (M,)), zero(p, (M,))),
    "snn_less": lambda p: p.less(zero(p, (M,)), zero(p, (M,))),
    "snn_relu": lambda p: p.relu(zero(p, (M,))),
    "snn_select": lambda p: p.select(zero(p, (M,)), zero(p, (M,)), zero(p, (M,))),
}


def zero(p, shp):
    """a sharing of zero all of whose shares are zero"""
    from tf_encrypted.protocol.pond import PondPrivateTensor
    f = p.tensor_factory
    z = tfx.tf.zeros(shp, dtype=tfx.tf.int32 if not f.native_type == tfx.tf.int64 else tfx.tf.int64)
    out = []
    for srv in (p.server_0, p.server_1):
        with tfx.tf.device(srv.device_name):
            out.append(f.tensor(tfx.tf.identity(z)))
    return PondPrivateTensor(p, *out, False)


def shares(x):
    if hasattr(x, "unmasked"):
        a, a0, a1, l0, l1 = x.unwrapped
        return [("a", a), ("a0", a0), ("a1", a1), ("alpha", l0)]
    return [("share%d" % i, s) for i, s in enumerate(x.unwrapped)]


def run_fresh(ctx, name, kind):
    prot = proto(kind, tfx.SecureNN)
    f = FRESH[name]
    random.seed(int(ctx.rng.integers(0, 1 << 30)))
    ctx.seen(name, kind)
    ctx.event("rerandomised_results")
    mod = tfx.M64 if kind == "64" else B.M100
    old = {}
    for rep in range(3):
        tfx.clear_cache()
        out = f(prot)
        for lab, sh in shares(out):
            v = [int(t) % mod for t in tfx.ring(sh).ravel()]
            ctx.event("fresh_words", len(v))
            ctx.event("oracle_checks", len(v))
            ctx.expect(len(v) == M, "mask-size:" + name, "%s has %d words" % (lab, len(v)))
            ctx.expect(len(set(v)) == len(v), "mask-not-elementwise:" + name, lambda: "%s: %d distinct words for %d elements" % (
                lab, len(set(v)), len(v)))
            hits = sum(t in old.get(lab, ()) for t in v)
            ctx.expect(hits == 0, "mask-repeated:" + name, "%s: %d words seen in an earlier run" % (lab, hits))
            old.setdefault(lab, set()).update(v)
            # uniform over the ring: eighths of the range and low bits
            h = np.bincount([t * 8 // mod for t in v], minlength=8)
            ctx.expect(h.max() < 90 and h.min() >= 1, "mask-not-uniform:" + name, lambda: "%s: counts per eighth of the ring %s" % (lab, h))
            lo = np.array([[(t >> k) & 1 for k in range(8)] for t in v]).sum(axis=0)
            ctx.expect(np.all(np.abs(lo - M // 2) <= 60), "mask-not-uniform:" + name, lambda: "%s: low bits set %s of %d" % (lab, lo, M))


def run_function(ctx, kind):
    """a compiled function called again must not use its masks again"""
    tfe = tfx.tfe
    for cls in (tfx.Pond, tfx.SecureNN):
        prot = tfx.pond(kind, cls)

        @tfe.function
        def f(x, y):
            return x * y
        zs = []
        for k in range(3):
            z = f(zero(prot, (8,)), zero(prot, (8,)))
            zs.append([tfx.native(s) for s in z.unwrapped])
            ctx.event("compiled_calls")
        ctx.seen("function", kind, cls.__name__)
        same = sum(np.array_equal(a, b) for i in range(3) for j in range(i) for a, b in zip(zs[i], zs[j]))
        ctx.expect(same == 0, "compiled-function-repeats-masks",
                   "two calls of one compiled function masked their products with the same words (%d share tensors equal)" % same)
