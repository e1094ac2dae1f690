"""ABY3: every mask is used once, covers every element, and is drawn over the whole ring."""
import numpy as np

from vlib import aby3ops as O
from vlib import tfx
from vlib import trace as TR

SPEC = dict(
    rule="one evaluation = one protocol step of a random history on one protocol instance (inputs, operations of "
         "every family, reveals, resets) whose pseudo-random draws are all recorded per player, or one interactive "
         "operation on an all-zero sharing whose result shares must be fresh uniform words; distinct = distinct "
         "(operation, operand kinds, shapes, parameters)",
    assumptions=["the stream cipher behind the seeded generator is a pseudo-random function of the seed"],
    env={"VERIF_DEVICES": "1"},
    min_events={"streams_monitored": 3000, "common_randomness_checked": 1500, "rerandomised_results": 40},
)
NAMES = ["server0", "server1", "server2", "inputter", "bob"]

# interactive operations: result on zero sharings is nothing but masks
N = 256


def zero(prot, shp, share, fac=None, scaled=True):
    """a sharing all of whose shares are zero"""
    if fac is not None:
        v = np.zeros(shp, dtype=bool)
        return prot.define_constant(v, apply_scaling=False, factory=tfx.T.factories[fac]).to_private(share)
    v = np.zeros(shp) if scaled else np.zeros(shp, dtype=np.int64)
    return prot.define_constant(v, apply_scaling=scaled).to_private(share)


A, B = tfx.ARITH, tfx.BOOL
RERAND = {
    "mul": lambda p: zero(p, (N,), A) * zero(p, (N,), A),
    "mul_int": lambda p: p.mul(zero(p, (N,), A, scaled=False), zero(p, (N,), A, scaled=False)),
    "mul_bcast_left": lambda p: p.mul(zero(p, (1,), A, scaled=False), zero(p, (N,), A, scaled=False)),
    "mul_bcast_right": lambda p: p.mul(zero(p, (N,), A, scaled=False), zero(p, (1,), A, scaled=False)),
    "mul_bcast_rank": lambda p: p.mul(zero(p, (N // 4,), A, scaled=False), zero(p, (4, N // 4), A, scaled=False)),
    "mul_bcast_scaled": lambda p: zero(p, (1,), A) * zero(p, (N,), A),
    "square": lambda p: p.square(zero(p, (N,), A, scaled=False)),
    "matmul": lambda p: p.matmul(zero(p, (16, 3), A, scaled=False), zero(p, (3, N // 16), A, scaled=False)),
    "matmul_scaled": lambda p: p.matmul(zero(p, (16, 3), A), zero(p, (3, N // 16), A)),
    "conv2d": lambda p: p.conv2d(zero(p, (2, 1, 8, 8), A, scaled=False), zero(p, (3, 3, 1, 2), A, scaled=False), [1, 1], "SAME"),
    "truncate": lambda p: p.truncate(zero(p, (N,), A)),
    "truncate_secureq8": lambda p: p.truncate_msb0(zero(p, (N,), A), method="secureq8", amount=8),
    "truncate_cheetah": lambda p: p.truncate_msb0(zero(p, (N,), A), method="cheetah", amount=8),
    "mul_trunc2": lambda p: p.mul_trunc2(zero(p, (N,), A), zero(p, (N,), A)),
    "mul_trunc2_bcast": lambda p: p.mul_trunc2(zero(p, (1,), A), zero(p, (N,), A)),
    "and": lambda p: (zero(p, (N,), B, scaled=False) & zero(p, (N,), B, scaled=False)),
    "and_bcast_left": lambda p: (zero(p, (1,), B, scaled=False) & zero(p, (N,), B, scaled=False)),
    "and_bcast_right": lambda p: (zero(p, (N,), B, scaled=False) & zero(p, (1,), B, scaled=False)),
    "or": lambda p: (zero(p, (N,), B, scaled=False) | zero(p, (N,), B, scaled=False)),
    "and_bits": lambda p: (zero(p, (N,), B, tfx.tf.bool) & zero(p, (N,), B, tfx.tf.bool)),
    "a2b": lambda p: p.a2b(zero(p, (N,), A, scaled=False)),
    "b2a": lambda p: p.b2a(zero(p, (N,), B, scaled=False)),
    "b2a_single": lambda p: p.b2a_single(zero(p, (N,), B, tfx.tf.bool)),
    "mul_ab": lambda p: p.mul_ab(zero(p, (N,), A), zero(p, (N,), B, tfx.tf.bool)),
    "mul_ab_bcast": lambda p: p.mul_ab(zero(p, (1,), A), zero(p, (N,), B, tfx.tf.bool)),
    "msb": lambda p: p.msb(zero(p, (N,), A)),
    "select": lambda p: p.select(zero(p, (N,), B, tfx.tf.bool), zero(p, (N,), A), zero(p, (N,), A)),
    "less": lambda p: p.less_than(zero(p, (N,), A), zero(p, (N,), A)),
    "equal_zero": lambda p: p.equal_zero(zero(p, (N,), A)),
    "relu": lambda p: p.relu(zero(p, (N,), A)),
    "maximum": lambda p: p.maximum(zero(p, (N,), A), zero(p, (N,), A)),
    "pow": lambda p: p.pow(zero(p, (N,), A), 3),
    "local": lambda p: p.define_local_computation("bob", lambda: tfx.tf.zeros((N,), tfx.tf.float64)),
    "local_bool": lambda p: p.define_local_computation("bob", lambda: tfx.tf.zeros((N,), tfx.tf.float64), share_type=B),
    "input": lambda p: p.define_private_input("inputter", lambda: tfx.tf.zeros((N,), tfx.tf.float64)),
    "input_bool": lambda p: p.define_private_input("inputter", lambda: tfx.tf.zeros((N,), tfx.tf.float64), share_type=B),
    "variable": lambda p: p.define_private_variable(np.zeros((N,))),
    "input_bits": lambda p: p.define_private_input("inputter", lambda: tfx.tf.zeros((N,), tfx.tf.bool), apply_scaling=False,
                                                   share_type=B, factory=tfx.T.factories[tfx.tf.bool]),
}


def gens():
    return [g.__name__ for g in O.LINEAR + O.MULT + O.BOOLEAN + O.COMPARE]


def cases(tier, seed):
    out = [("function/%s" % c, ("function", c, 0)) for c in "lh"]
    for k in range(8 if tier == "quick" else 80):
        for c in "lh":
            out.append(("history/%s/%d" % (c, k), ("history", c, 40 if tier == "quick" else 120)))
    for g in sorted(set(gens())):
        for c in "lh":
            out.append(("each:%s/%s" % (g, c), ("each", c, (g, 5 if tier == "quick" else 60))))
    for k in range(1 if tier == "quick" else 6):
        for r in RERAND:
            for c in "lh":
                out.append(("rerand:%s/%s/%d" % (r, c, k), ("rerand", c, r)))
    for k in range(2 if tier == "quick" else 10):
        for c in "lh":
            out.append(("instances/%s/%d" % (c, k), ("instances", c, 0)))
    return out


def proto(cfg):
    return TR.device_protocol(lambda: tfx.ABY3(fixedpoint_config=cfg), NAMES)[0]


def run_case(ctx, case_id, payload):
    kind, cfg, arg = payload
    globals()["run_" + kind](ctx, cfg, arg)


def run_history(ctx, cfg, steps):
    """one protocol instance, a long mixed history"""
    rng = ctx.rng
    prot = proto(cfg)
    e = O.Env(cfg, rng)
    mon = TR.DrawMonitor(ctx)
    names = gens()
    heavy = ("op_sort", "op_reduce_max", "op_argmax", "op_maxpool")
    for k in range(steps):
        if rng.integers(0, 12) == 0:
            with TR.Trace(False) as tr:
                prot.reset()
            mon.add(tr, "reset")
            ctx.event("resets")
            continue
        g = O.pick(rng, names)
        if g in heavy and rng.integers(0, 4):
            g = O.pick(rng, ["op_mul", "op_compare", "op_truncate_msb0", "op_mul_ab", "op_b2a_single", "op_a2b"])
        op = O.draw(getattr(O, g), e)
        if op is None:
            continue
        tfx.clear_cache()
        ctx.seen(*op.sig())
        with TR.Trace(False) as tr:
            xs = [i.make(prot) for i in op.ins]
        mon.add(tr, "inputs of step %d" % k)
        for rep in range(int(rng.integers(1, 3))):
            tfx.clear_cache()
            with TR.Trace(False) as tr:
                out = op.f(prot, *xs)
            mon.add(tr, "step %d (%s)" % (k, op.name))
        outs = out if isinstance(out, (list, tuple)) else [out]
        if rng.integers(0, 3) == 0:
            with TR.Trace(False) as tr:
                for o in outs:
                    if hasattr(o, "reveal"):
                        o.reveal()
            mon.add(tr, "reveal at step %d" % k)


def run_each(ctx, cfg, arg):
    """every operation repeated on one protocol instance, followed by a product"""
    gname, n = arg
    rng = ctx.rng
    prot = proto(cfg)
    e = O.Env(cfg, rng)
    mon = TR.DrawMonitor(ctx)
    if gname in ("op_sort", "op_reduce_max", "op_argmax", "op_maxpool", "op_carry", "op_ppa"):
        n = max(2, n // 3)
    for k in range(n):
        op = O.draw(getattr(O, gname), e)
        if op is None:
            continue
        tfx.clear_cache()
        ctx.seen(*op.sig())
        with TR.Trace(False) as tr:
            xs = [i.make(prot) for i in op.ins]
        mon.add(tr, "inputs of %s" % op.name)
        for rep in range(2):
            tfx.clear_cache()
            with TR.Trace(False) as tr:
                op.f(prot, *xs)
            mon.add(tr, "%s (repetition %d)" % (op.name, rep))
        if k % 2 == 0:
            for nxt in ("mul", "and", "truncate", "mul_ab", "input"):
                tfx.clear_cache()
                with TR.Trace(False) as tr:
                    RERAND[nxt](prot)
                mon.add(tr, "%s after %s" % (nxt, op.name))


def shares_of(x):
    return [tfx.native(x.unwrapped[i][0]) for i in range(3)]


def bits_of(v):
    from vlib.secrecy import words
    return words(v)


def run_rerand(ctx, cfg, name):
    prot = proto(cfg)
    tfx.clear_cache()
    mon = TR.DrawMonitor(ctx)
    f = RERAND[name]
    with TR.Trace(False) as tr:
        x = f(prot)
    mon.add(tr, name)
    tfx.clear_cache()
    with TR.Trace(False) as tr:
        y = f(prot)
    mon.add(tr, name + " again")
    ctx.seen(name, cfg)
    ctx.event("rerandomised_results")
    r = tfx.aby3_ring(x)
    if r.size == N:
        ctx.event("elements", N)
    for i, (a, b) in enumerate(zip(shares_of(x), shares_of(y))):
        la, lb = a.reshape(N, -1), b.reshape(N, -1)
        if a.dtype == bool or name in ("and_bits", "msb", "less", "equal_zero", "input_bits"):
            wa = bits_of(a)[:, 0]
        else:
            if cfg == "h" and name not in ():
                la = la if la.shape[1] == 2 else la
            rows = {r.tobytes() for r in la}
            ctx.expect(len(rows) == N, "mask-not-elementwise:" + name,
                       "share %d: %d distinct words for %d elements" % (i, len(rows), N))
            same = sum(u.tobytes() == v.tobytes() for u, v in zip(la, lb))
            ctx.expect(same == 0, "mask-repeated:" + name, "share %d: %d of %d words equal in two runs" % (i, same, N))
        w = bits_of(a.reshape(N, -1) if a.dtype != bool else a)
        w = w.reshape(N, -1) if a.dtype != bool else w
        cnt = w.sum(axis=0)
        # 256 fair coins: mean 128, sd 8
        bad = np.abs(cnt.astype(int) - N // 2) > 60
        if a.dtype == np.int8 or (a.dtype == bool):
            bad = bad[:1]
            cnt = cnt[:1]
        ctx.expect(not bad.any(), "mask-not-uniform:" + name,
                   lambda: "share %d: bit %s set %s times in %d" % (i, np.nonzero(bad)[0][:4], cnt[bad][:4], N))


def run_instances(ctx, cfg, arg):
    """separate protocol instances never share streams; keys are secret per pair"""
    mon = TR.DrawMonitor(ctx)
    keys = {}
    for k in range(4):
        tfx.clear_cache()
        with TR.Trace(False) as tr:
            prot = proto(cfg) if k % 2 == 0 else prot
            if k % 2:
                prot.reset()
        seeds = [e for e in tr.events if e.op == "SecureSeed"]
        ctx.expect(len(seeds) >= 9, "keys-not-drawn", "instance %d drew %d keys" % (k, len(seeds)))
        for e in seeds:
            key = e.outs[0].tobytes()
            ctx.event("keys_monitored")
            ctx.expect(key not in keys, "key-repeated", "instance %d repeats a key of instance %s" % (k, keys.get(key)))
            keys[key] = k
        used = {}
        for name in ("mul", "and", "a2b", "b2a", "truncate", "mul_ab"):
            tfx.clear_cache()
            with TR.Trace(False) as tr:
                RERAND[name](prot)
            mon.add(tr, "%s on instance %d" % (name, k))
            ctx.seen("instance", cfg, name, k)
            for e in tr.draws():
                used.setdefault(TR.seed_key(e), set()).add(e.device)
        # masks of a multiplication are known to at most two of the servers
        with TR.Trace(False) as tr:
            tfx.clear_cache()
            RERAND["mul_int"](prot)
        who = {}
        for e in tr.draws():
            who.setdefault(TR.seed_key(e), set()).add(e.device)
        for s, ds in who.items():
            ctx.expect(len(ds) <= 2, "mask-known-to-all", "stream expanded by players %s" % sorted(ds))


def run_function(ctx, cfg, arg):
    """a compiled function called again must not use its masks again"""
    tfe, tf = tfx.tfe, tfx.tf
    prot = tfx.aby3(cfg)
    box = []

    @tfe.function
    def f(x, y):
        return x * y
    zs = []
    for k in range(3):
        x = zero(prot, (8,), A)
        y = zero(prot, (8,), A)
        zs.append(shares_of(f(x, y)))
        ctx.event("compiled_calls")
    ctx.seen("function", cfg)
    same = sum(np.array_equal(a, b) for i in range(3) for j in range(i) for a, b in zip(zs[i], zs[j]))
    ctx.expect(same == 0, "compiled-function-repeats-masks",
               "two calls of one compiled function masked their products with the same words (%d share tensors equal)" % same)
