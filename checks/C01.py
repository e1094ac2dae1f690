"""ABY3: what goes in comes out, at every party and for every way in."""
import numpy as np

from vlib import aby3ops as O
from vlib import tfx

SPEC = dict(
    rule="one evaluation = one value entered through one constructor (constant, public/private variable, "
         "private/public input, local computation, conversion of a public value to shares) and read back by "
         "opening and by reconstruction at each server and an outside player; distinct = distinct (way in, "
         "precision, share type, backing integer size, dtype, shape, magnitude class)",
    assumptions=["scaled values are finite and within the documented range of the fixed-point configuration"],
    min_events={"oracle_checks": 1000, "reconstructed_at_player": 500, "ways_in": 100},
)
WAYS = ["const", "pubvar", "privvar", "privinput", "pubinput", "local", "to_private", "var_of_tensor", "multi_input",
        "local_args", "bone"]


def cases(tier, seed):
    n = 10 if tier == "quick" else 150
    return [("%s/%s/%d" % (w, c, i), (w, c)) for w in WAYS for c in ("l", "h") for i in range(n)]


def draw(ctx, cfg, way):
    """(value as given to the API, raw ring ints or None, scaled, factory key, mag)"""
    tf, T = tfx.tf, tfx.T
    rng = ctx.rng
    e = O.Env(cfg, rng)
    shp = O.shape(rng, int(rng.integers(0, 5)))
    share = O.pick(rng, [tfx.ARITH, tfx.ARITH, tfx.BOOL])
    k = int(rng.integers(0, 7))
    fac = None
    if k == 0:  # exactly encodable reals
        raw = O.ints(rng, shp, e.vb)
        val, sc, mag = np.asarray(raw / (1 << e.f), dtype=np.float64), True, "exact"
    elif k == 1:  # arbitrary reals
        s = 10.0 ** rng.integers(-4, 4)
        val = np.asarray(rng.normal(size=shp) * s)
        if rng.integers(0, 2):
            val = val.astype(np.float32)
        raw, sc, mag = None, True, "real"
    elif k == 2:  # integers of the whole 64 bit range, not scaled
        raw = O.ints(rng, shp, 64)
        val, sc, mag = np.asarray(raw, dtype=np.int64), False, "int64"
    elif k == 3:  # bits
        raw = np.asarray(rng.integers(0, 2, size=shp)).astype(object)
        val, sc, mag, fac, share = np.asarray(raw, dtype=bool), False, "bit", tf.bool, tfx.BOOL
    elif k == 4:  # small backing types
        fac = O.pick(rng, [8, 16, 32])
        raw = O.ints(rng, shp, fac)
        val, sc, mag = np.asarray(raw, dtype={8: np.int8, 16: np.int16, 32: np.int32}[fac]), False, "i%d" % fac
    elif k == 5:  # integers, scaled
        raw0 = rng.integers(-1000, 1000, size=shp)
        dt = O.pick(rng, [np.int64, np.int32])
        val = np.asarray(raw0, dtype=dt)
        raw, sc, mag = np.asarray(raw0).astype(object) * (1 << e.f), True, "scaledint"
    else:
        raw = np.zeros(shp, dtype=object)
        val, sc, mag = np.zeros(shp), True, "zero"
    raw = None if raw is None else np.asarray(raw, dtype=object)
    return e, np.asarray(val), raw, sc, fac, share, mag


def enter(prot, way, val, sc, fac, share, rng):
    tf, T = tfx.tf, tfx.T
    F = T.factories[fac] if fac is not None else None
    asT = lambda: tf.constant(val)
    give = asT() if rng.integers(0, 2) else val
    if way == "const":
        return prot.define_constant(give, apply_scaling=sc, factory=F)
    if way == "pubvar":
        return prot.define_public_variable(give, apply_scaling=sc, factory=F)
    if way == "privvar":
        return prot.define_private_variable(give, apply_scaling=sc, share_type=share, factory=F)
    if way == "privinput":
        return prot.define_private_input("alice", asT, apply_scaling=sc, share_type=share, factory=F)
    if way == "pubinput":
        return prot.define_public_input("alice", asT, apply_scaling=sc, factory=F)
    if way == "local":
        return prot.define_local_computation("bob", asT, apply_scaling=sc, share_type=share, factory=F)
    if way == "to_private":
        return prot.define_constant(val, apply_scaling=sc, factory=F).to_private(share)
    if way == "var_of_tensor":
        t = prot.define_private_input("alice", asT, apply_scaling=sc, share_type=share, factory=F)
        return prot.define_private_variable(t, apply_scaling=sc, share_type=share, factory=F)
    if way == "bone":
        if rng.integers(0, 3):
            t = prot.define_private_input("alice", asT, apply_scaling=sc, share_type=share, factory=F)
        else:
            t = prot.define_constant(val, apply_scaling=sc, factory=F)
        return prot.from_bone(t.bone)
    raise ValueError(way)


def ring_nb(prot, fac):
    tf = tfx.tf
    return {None: prot.fixedpoint_config.nbits, tf.bool: 1}.get(fac, fac)


def verify(ctx, prot, way, cfg, x, val, raw, sc, share, mag, e, fac):
    ctx.seen(way, cfg, share if hasattr(x, "reveal") else "public", str(fac), str(val.dtype), val.shape, mag)
    ctx.event("ways_in")
    tag = "%s:%s" % (way, mag)
    ctx.equal(np.array([int(d) for d in x.shape]), np.array(val.shape), "shape:" + tag)
    ctx.expect(x.is_scaled == sc, "scaling-flag:" + tag)
    priv = hasattr(x, "shares")
    if priv:
        ctx.expect(x.share_type == share, "share-type:" + tag)
    got = tfx.aby3_ring(x)
    ulp = 1.0 / (1 << e.f)
    fval = np.asarray(val, dtype=np.float64)
    if raw is not None:
        ctx.equal(got, raw, "ring:" + tag)
    # opening
    for name, opened in (("reveal", tfx.rev(x)),):
        check_plain(ctx, name + ":" + tag, opened, val, raw, sc, ulp, fval, cfg, fac)
    # reconstruction at a player, on the value that player's code receives
    players = list(prot.servers) + ["carol"]
    for p in players:
        box = []

        def recv(v):
            box.append(v.numpy() if hasattr(v, "numpy") else np.asarray(v))
            return None
        prot.define_output(p, [x], recv)
        ctx.event("reconstructed_at_player")
        if ctx.expect(len(box) == 1, "output-called-once:" + tag, "%d calls" % len(box)):
            check_plain(ctx, "output:" + tag, box[0], val, raw, sc, ulp, fval, cfg, fac)


def check_plain(ctx, mech, got, val, raw, sc, ulp, fval, cfg, fac):
    got = np.asarray(got)
    if sc:
        if raw is not None:
            ctx.equal(got.astype(np.float64), np.asarray(raw * 1.0, dtype=np.float64) * ulp, mech)
        else:
            ctx.close(got, fval, ulp * (1 + 1e-9) + np.abs(fval) * 2.0 ** -52, mech)
    elif cfg == "h" and fac is None:
        # 128 bit ring elements are decoded to float64
        ctx.equal(got.astype(np.float64), np.asarray(val, dtype=np.float64), mech)
    else:
        ctx.equal(got.astype(object), np.asarray(raw, dtype=object) if got.dtype != bool else np.asarray(raw, dtype=bool).astype(object), mech)


def run_case(ctx, case_id, payload):
    way, cfg = payload
    tf = tfx.tf
    prot = tfx.aby3(cfg)
    rng = ctx.rng
    with tfx.ShareMonitor() as mon:
        for _ in range(12):
            e, val, raw, sc, fac, share, mag = draw(ctx, cfg, way)
            if way == "multi_input":
                n = int(rng.integers(1, 4))
                vals = [val] + [np.asarray(rng.permutation(val.ravel()).reshape(val.shape)) for _ in range(n - 1)]
                F = tfx.T.factories[fac] if fac is not None else None
                pub = bool(rng.integers(0, 2))
                if pub:
                    xs = prot.define_public_input("alice", lambda: [tf.constant(v) for v in vals], apply_scaling=sc, factory=F)
                else:
                    xs = prot.define_private_input("alice", lambda: [tf.constant(v) for v in vals], apply_scaling=sc,
                                                   share_type=share, factory=F)
                if not ctx.expect(len(xs) == n, "multi_input:count"):
                    continue
                for v, x in zip(vals, xs):
                    r = None
                    if raw is not None:
                        m = (1 << e.f) if sc else 1
                        r = np.asarray(np.frompyfunc(lambda a: int(round(float(a) * m)) if sc else int(a), 1, 1)(v), dtype=object)
                    verify(ctx, prot, way, cfg, x, np.asarray(v), r, sc, share, mag, e, fac)
            elif way == "local_args":
                # a player's code on public and private arguments, arithmetic and boolean
                shp = O.shape(rng, int(rng.integers(0, 4)))
                raws = [O.ints(rng, shp, min(e.vb, 26)) for _ in range(3)]
                kinds = [O.pick(rng, ["priv", "privb", "pub", "const"]) for _ in raws]
                xs = []
                for r, k in zip(raws, kinds):
                    v = np.asarray(r / (1 << e.f), dtype=np.float64)
                    if k.startswith("priv"):
                        xs.append(prot.define_private_variable(v, share_type=tfx.BOOL if k == "privb" else tfx.ARITH))
                    elif k == "pub":
                        xs.append(prot.define_public_variable(v))
                    else:
                        xs.append(prot.define_constant(v))
                who = O.pick(rng, [prot.servers[0], prot.servers[1], prot.servers[2], "dave"])
                sh = O.pick(rng, [tfx.ARITH, tfx.BOOL])
                y = prot.define_local_computation(who, lambda a, b, c: a - 2 * b + c, arguments=xs, share_type=sh)
                want = np.asarray(raws[0] - 2 * raws[1] + raws[2], dtype=object)
                v = np.asarray(want / (1 << e.f), dtype=np.float64)
                verify(ctx, prot, way + ":" + "-".join(sorted(set(kinds))), cfg, y, v, want, True, sh, "exact", e, None)
            else:
                x = enter(prot, way, val, sc, fac, share, rng)
                verify(ctx, prot, way, cfg, x, val, raw, sc, share, mag, e, fac)
    mon.report(ctx)
