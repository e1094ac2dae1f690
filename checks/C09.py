"""ABY3: what a server sees does not depend on the secrets."""
import numpy as np

from vlib import aby3ops as O
from vlib import secrecy as S
from vlib import tfx
from vlib import trace as TR

SPEC = dict(
    rule="one evaluation = one operation instance run many times on two different secrets with every player on its "
         "own device; distinct = distinct (operation, operand kinds, shapes, parameters); the recorded view of "
         "each server (every value computed on or sent to its device) must have the same structure and the same "
         "bit distributions for both secrets, and no combination of up to three of its values may be the secret",
    assumptions=["passive adversary controlling one server; statistics resolve a bias of a bit of about 0.3 in one "
                 "value of at least four elements"],
    env={"VERIF_DEVICES": "1"},
    min_events={"oracle_checks": 100000, "view_tensors": 1000, "attack_values": 500, "traced_runs": 500},
)
NAMES = ["server0", "server1", "server2", "inputter", "bob"]
SERVERS = (1, 2, 3)
FUN = ["sigmoid", "recip", "invsqrt", "exp2", "exp", "log", "softmax"]
WAYS = ["input", "input_bool", "input_bits", "local", "local_bool", "output", "var_assign", "input_unscaled"]


def cases(tier, seed):
    out = []
    names = []
    for g in O.COMPARE + O.BOOLEAN + O.MULT + O.LINEAR:
        if g.__name__ not in names:
            names.append(g.__name__)
    n = 1 if tier == "quick" else 8
    for k in range(n):
        for cfg in "lh":
            for f in FUN:
                out.append(("fun:%s/%s/%d" % (f, cfg, k), ("fun", f, cfg)))
            for g in names:
                out.append(("%s/%s/%d" % (g, cfg, k), ("op", g, cfg)))
            for w in WAYS:
                out.append(("way:%s/%s/%d" % (w, cfg, k), ("way", w, cfg)))
    slow = ("op_sort", "fun:softmax", "op_reduce_max", "op_argmax", "op_maxpool", "fun:exp", "op_mul_trunc2")
    return sorted(out, key=lambda c: not c[0].startswith(slow))


def proto(cfg):
    return TR.device_protocol(lambda: tfx.ABY3(fixedpoint_config=cfg), NAMES)[0]


def flat_secret(op, which):
    """operands with every private element the same: the least / greatest of the draw"""
    out = []
    for k, i in enumerate(op.ins):
        if i.kind in ("priv", "input"):
            vs = sorted(int(v) for v in i.raw.ravel())
            v = vs[0] if which == k % 2 else vs[-1]
            raw = np.empty(i.raw.shape, dtype=object)
            raw.fill(v)
            out.append(O.In(raw, i.kind, i.scaled, i.share, i.fac))
        else:
            out.append(i)
    return out


def as_input(i, cfg):
    if i.kind == "priv" and not (cfg == "h" and not i.scaled and i.fac is None):
        return O.In(i.raw, "input", i.scaled, i.share, i.fac)
    return i


def run_case(ctx, case_id, payload):
    kind, name, cfg = payload
    if kind == "op":
        return run_op_case(ctx, getattr(O, name), cfg)
    if kind == "fun":
        return run_fun(ctx, name, cfg)
    return run_way(ctx, name, cfg)


def views(ctx, tr, secrets, what, cfg):
    for p in SERVERS:
        v = [(e.op + ".in", x) for e in tr.events if e.device == p for x in (e.ins or ()) if x is not None]
        v += S.incoming(tr, p)
        for s in secrets:
            S.attack(ctx, v, s, what, cfg == "h", "server%d" % (p - 1))


def run_op_case(ctx, gen, cfg):
    tf = tfx.tf
    prot = proto(cfg)
    e = O.Env(cfg, ctx.rng)
    quick = ctx.tier == "quick"
    # 1. linear attack on several random instances
    done = 0
    for _ in range(12 if quick else 30):
        op = O.draw(gen, e)
        if op is None:
            continue
        secrets = [i.raw for i in op.ins if i.kind in ("priv", "input") and i.fac is None]
        secrets = [s for s in secrets if s.size >= 3 and S.entropy_bits(s) >= 90]
        if not secrets:
            continue
        tfx.clear_cache()
        xs = [as_input(i, cfg).make(prot) for i in op.ins]
        with TR.Trace() as tr:
            op.f(prot, *xs)
        ctx.event("attacked_runs")
        ctx.event("attack:" + op.name.split(":")[0])
        views(ctx, tr, secrets, op.name.split(":")[0], cfg)
        done += 1
        if done >= (2 if quick else 8):
            break
    # 2. two secrets, same view
    heavy = gen.__name__ in ("op_sort", "op_reduce_max", "op_argmax", "op_maxpool", "op_mul_trunc2", "op_ppa", "op_carry")
    names = set()
    want = 1 if heavy else (3 if quick else 4)
    for _ in range(60):
        if len(names) >= want:
            break
        op = O.draw(gen, e)
        if op is None or (op.name in names and _ < 40):
            continue
        a, b = flat_secret(op, 0), flat_secret(op, 1)
        if not (any(i.kind in ("priv", "input") for i in op.ins) and any(
                not np.array_equal(u.raw, v.raw) for u, v in zip(a, b)) and max(i.raw.size for i in op.ins) >= 4):
            continue
        if heavy and max(i.raw.size for i in op.ins) > 12 and _ < 59:
            continue
        names.add(op.name if op.name not in names else op.name + str(_))
        ctx.seen(*op.sig())
        S.ab(ctx, runner(prot, op, a, cfg), runner(prot, op, b, cfg), SERVERS, op.name.split(":")[0],
             *((6, 48) if heavy and quick else (10, 48)))


def runner(prot, op, ins, cfg):
    ins = [as_input(i, cfg) for i in ins]

    def run():
        tfx.clear_cache()
        xs = [i.make(prot) for i in ins]
        with TR.Trace() as tr:
            op.f(prot, *xs)
        return tr
    return run


def run_fun(ctx, fn, cfg):
    prot = proto(cfg)
    call = {"sigmoid": lambda x: prot.sigmoid(x), "recip": lambda x: prot.reciprocal(x),
            "invsqrt": lambda x: prot.inv_sqrt(x), "exp2": lambda x: prot.exp2(x), "exp": lambda x: prot.exp(x),
            "log": lambda x: prot.log(x), "softmax": lambda x: prot.softmax(x)}[fn]
    lo, hi = {"sigmoid": (-7.3, 6.9), "recip": (0.07, 97.0), "invsqrt": (0.07, 97.0), "exp2": (-7.7, 5.3),
              "exp": (-7.7, 4.3), "log": (0.1, 1.2), "softmax": (-3.3, 4.1)}[fn]
    ctx.seen(fn, cfg)

    def runner(v):
        x0 = np.full((2, 2), v)
        if fn == "softmax":
            x0[:, 0] = -x0[:, 0]

        def run():
            tfx.clear_cache()
            x = prot.define_private_input("inputter", lambda: tfx.tf.constant(x0))
            with TR.Trace() as tr:
                call(x)
            return tr
        return run
    n = (6, 40) if ctx.tier == "quick" else (14, 60)
    S.ab(ctx, runner(lo), runner(hi), SERVERS, fn, *n)


def run_way(ctx, way, cfg):
    tf = tfx.tf
    prot = proto(cfg)
    rng = ctx.rng
    e = O.Env(cfg, rng)
    share = tfx.BOOL if "bool" in way or "bits" in way else tfx.ARITH
    fac = tfx.T.factories[tf.bool] if way == "input_bits" else None
    sc = way not in ("input_bits", "input_unscaled")
    shp = (2, 4) if way != "input_bits" else (8, 8)

    def given(raw):
        if way == "input_bits":
            return np.asarray(raw, dtype=bool)
        if not sc:
            return np.asarray(raw, dtype=np.int64)
        return np.asarray(raw / (1 << e.f), dtype=np.float64)

    def go(raw):
        v = given(raw)
        tfx.clear_cache()
        if way.startswith("input"):
            with TR.Trace() as tr:
                prot.define_private_input("inputter", lambda: tf.constant(v), apply_scaling=sc, share_type=share, factory=fac)
        elif way.startswith("local"):
            x = prot.define_private_input("inputter", lambda: tf.constant(v), share_type=share)
            with TR.Trace() as tr:
                prot.define_local_computation("bob", lambda t: t * 2.0 - 1.0, arguments=[x], share_type=share)
        elif way == "output":
            x = prot.define_private_input("inputter", lambda: tf.constant(v), share_type=share)
            with TR.Trace() as tr:
                prot.define_output("bob", [x], lambda t: None)
        else:
            x = prot.define_private_input("inputter", lambda: tf.constant(v))
            y = prot.define_private_variable(np.zeros(shp))
            with TR.Trace() as tr:
                prot.assign(y, x)
                z = y.read_value()
                prot.define_private_variable(z)
        return tr
    ctx.seen(way, cfg)
    if way == "input_bits":
        A, B = np.zeros(shp, dtype=object), np.ones(shp, dtype=object)
    else:
        bits = 63 if not sc else e.vb
        raw = O.ints(rng, shp, bits)
        tr = go(raw)
        sec = [raw]
        if way.startswith("local"):
            sec.append(2 * raw - (1 << e.f))
        views(ctx, tr, sec, way, cfg)
        A, B = np.empty(shp, dtype=object), np.empty(shp, dtype=object)
        A.fill(-(1 << (bits - 1)) + 12345), B.fill((1 << (bits - 1)) - 1)
    S.ab(ctx, lambda: go(A), lambda: go(B), SERVERS, "way:" + way)
