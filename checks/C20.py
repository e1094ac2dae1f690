"""Variables: every read gives the value of the last assignment, earlier reads stay as they were."""
import numpy as np

from vlib import pondops as B
from vlib import tfx
from vlib.aby3ops import ints
from vlib.tfx import ARITH, BOOL, T, tf, tfe

SPEC = dict(
    rule="one evaluation = one step (read, assign, update, swap, copy, compiled update, rejected assignment) of a history of 30 steps over "
         "4-6 variables; after each step the touched variables, and at the end all variables and all earlier reads, are compared with a "
         "model holding one ring integer per element; distinct = distinct (protocol, step kind, variable kinds, shape, position)",
    assumptions=["variables are read through read_value, as documented"],
    min_events={"oracle_checks": 3000, "assignments": 500, "snapshots_rechecked": 300, "compiled_steps": 60, "rejected": 40},
)
KINDS = ("aby3:l", "aby3:h", "pond:64", "pond:100", "snn:64", "snn:100")


def cases(tier, seed):
    k = 5 if tier == "quick" else 60
    return [("%s/%d" % (kind, i), kind) for i in range(k) for kind in KINDS]


class W:
    """one protocol and how to look at its tensors"""

    def __init__(self, kind, rng):
        fam, cfg = kind.split(":")
        self.aby = fam == "aby3"
        self.rng = rng
        if self.aby:
            self.p = tfx.aby3(cfg)
            self.nb = 64 if cfg == "l" else 128
            self.sgn = lambda v: tfx.signed(v, self.nb)
        else:
            self.p = tfx.pond(cfg, tfx.SecureNN if fam == "snn" else tfx.Pond)
            self.e = B.Env(cfg, rng)
            self.sgn = self.e.sgn
        self.kind = kind

    def ring(self, t):
        return tfx.aby3_ring(t) if self.aby else B.ring(self.e, t)

    def kinds(self):
        ks = [("priv", ARITH, True), ("priv", ARITH, False), ("pub", ARITH, True), ("pub", ARITH, False)]
        return ks + ([("priv", BOOL, False), ("bit", BOOL, False)] if self.aby else [])

    def draw(self, k, shp):
        rng = self.rng
        if k[0] == "bit":
            raw = rng.integers(0, 2, size=shp).astype(object)
        elif k[2]:
            raw = ints(rng, shp, 20) if self.aby else self.e.ints(shp, 3 ** 14)
        else:
            raw = ints(rng, shp, 62)
        return np.asarray(raw, dtype=object)

    def build(self, k, raw, var=False, tensor=False):
        """(tensor or variable) of this kind holding raw"""
        p = self.p
        if k[2]:
            s = p.fixedpoint_config.scaling_factor
            f = np.frompyfunc(lambda r: float((abs(int(r)) + (0 if self.aby else 0.25)) / s * (1 if r >= 0 else -1)), 1, 1)
            v = np.asarray(f(raw), dtype=np.float64)
        elif k[0] == "bit":
            v = np.asarray(raw, dtype=bool)
        elif self.aby and self.nb == 128:
            v = np.asarray(raw, dtype=object)
        else:
            v = np.asarray(raw, dtype=np.int64)
        if tensor and (k[2] or not self.aby or self.nb == 64) and not (not self.aby and not k[2] and self.e.nb == 100):
            v = tf.constant(v)
        if k[0] == "pub":
            if var:
                return p.define_public_variable(v, apply_scaling=k[2])
            return p.define_public_variable(v, apply_scaling=k[2]).read_value()
        kw = {}
        if self.aby:
            kw["share_type"] = k[1]
            if k[0] == "bit":
                kw["factory"] = T.factories[tf.bool]
        x = p.define_private_variable(v, apply_scaling=k[2], **kw)
        return x if var else x.read_value()

    def copy(self, k, t):
        """a variable initialised with a tensor of the protocol"""
        if self.rng.integers(0, 2):
            return (self.p.define_public_variable if k[0] == "pub" else self.p.define_private_variable)(t)
        if k[0] == "pub":
            return self.p.define_public_variable(t, apply_scaling=k[2], factory=t.backing_dtype)
        if self.aby:
            return self.p.define_private_variable(t, apply_scaling=k[2], share_type=k[1])
        return self.p.define_private_variable(t, apply_scaling=k[2], factory=t.backing_dtype)

    def combine(self, k, a, b, ra, rb):
        """some function of two values of one kind"""
        if k[0] == "bit" or k[1] == BOOL:
            f = np.frompyfunc(lambda x, y: int(x) ^ int(y), 2, 1)
            return a ^ b, np.asarray(f(ra, rb), dtype=object)
        if self.rng.integers(0, 2):
            return a + b, self.sgn(ra + rb)
        return a - b, self.sgn(ra - rb)


def run_case(ctx, case_id, kind):
    rng = ctx.rng
    w = W(kind, rng)
    p = w.p
    mon = tfx.ShareMonitor() if w.aby else B.Monitor()
    with mon:
        history(ctx, w, p, rng, kind)
    mon.report(ctx)


def history(ctx, w, p, rng, kind):
    shp = tuple(int(v) for v in rng.integers(1, 4, size=int(rng.integers(0, 3))))
    ks = w.kinds()
    vs = []  # [variable, kind, model]
    for i in range(int(rng.integers(4, 7))):
        k = ks[int(rng.integers(0, len(ks)))] if i % 2 == 0 else vs[-1][1]
        raw = w.draw(k, shp)
        vs.append([w.build(k, raw, var=True, tensor=bool(rng.integers(0, 2))), k, raw])
    snaps = []

    def look(i, why):
        t = vs[i][0].read_value()
        d = "%s %s %s" % (kind, vs[i][1], why)
        ctx.equal(w.ring(t), vs[i][2], "read:" + why.split()[0], d)
        ctx.expect(t.is_scaled == vs[i][1][2], "read:scaling", d)
        if w.aby and vs[i][1][0] != "pub":
            ctx.expect(t.share_type == vs[i][1][1], "read:share_type", d)
        return t

    def same(i):
        c = [j for j in range(len(vs)) if vs[j][1] == vs[i][1]]
        return c[int(rng.integers(0, len(c)))]

    for step in range(30):
        i = int(rng.integers(0, len(vs)))
        v, k, raw = vs[i]
        op = ["read", "assign", "assign", "update", "update", "swap", "copy", "share", "compiled", "compiled", "reject", "repeat", "cross"][int(rng.integers(0, 13))]
        ctx.seen(kind, op, k, shp, step // 6)
        if op == "read":
            snaps.append((look(i, "read"), vs[i][2], k))
        elif op == "assign":
            new = w.draw(k, shp)
            p.assign(v, w.build(k, new, tensor=bool(rng.integers(0, 2))))
            vs[i][2] = new
            ctx.event("assignments")
            look(i, "assign")
        elif op == "repeat":
            # the very same assignment again after another one
            a, b = w.draw(k, shp), w.draw(k, shp)
            ta, tb = w.build(k, a), w.build(k, b)
            for t, m in ((ta, a), (tb, b), (ta, a), (tb, b)):
                p.assign(v, t)
                vs[i][2] = m
                ctx.event("assignments")
                look(i, "repeat")
        elif op == "update":
            j = same(i)
            x, y = v.read_value(), vs[j][0].read_value()
            snaps.append((x, raw, k))
            z, m = w.combine(k, x, y, raw, vs[j][2])
            p.assign(v, z)
            vs[i][2] = m
            ctx.event("assignments")
            look(i, "update")
            look(j, "update-other")
        elif op == "swap":
            j = same(i)
            x, y = v.read_value(), vs[j][0].read_value()
            p.assign(v, y)
            p.assign(vs[j][0], x)
            vs[i][2], vs[j][2] = vs[j][2], vs[i][2]
            ctx.event("assignments", 2)
            look(i, "swap")
            look(j, "swap")
        elif op == "copy":
            # two variables with one origin are two variables
            t = v.read_value()
            vs.append([w.copy(k, t), k, vs[i][2]])
            look(len(vs) - 1, "copy")
            new = w.draw(k, shp)
            p.assign(v, w.build(k, new))
            vs[i][2] = new
            ctx.event("assignments")
            look(len(vs) - 1, "copy-after")
            look(i, "copy-origin")
            if len(vs) > 8:
                vs.pop(0)
        elif op == "share":
            # two variables built from one array, and from the other's first value
            new = w.draw(k, shp)
            t = w.build(k, new)
            j = same(i)
            p.assign(v, t)
            p.assign(vs[j][0], t)
            vs[i][2] = vs[j][2] = new
            other = w.draw(k, shp)
            p.assign(v, w.build(k, other))
            vs[i][2] = other
            ctx.event("assignments", 3)
            look(j, "share" if i != j else "assign")
            look(i, "share")
            snaps.append((t, new, k))
        elif op == "compiled":
            compiled(ctx, w, p, rng, vs, i, same(i), look, kind)
        elif op == "cross":
            # private <- shares of another variable through an operation on a different type of value
            if k[0] != "pub":
                q = v.read_value().reveal()
                m = w.ring(q) if not w.aby else tfx.aby3_ring(q)
                ctx.equal(np.asarray(m), vs[i][2], "reveal", "%s %s" % (kind, k))
            else:
                snaps.append((v.read_value(), vs[i][2], k))
        elif op == "reject":
            reject(ctx, w, p, rng, vs, i, look, kind, shp)
    for i in range(len(vs)):
        look(i, "end")
    for t, m, k in snaps:
        ctx.equal(w.ring(t), m, "snapshot", "%s %s" % (kind, k))
        ctx.event("snapshots_rechecked")


def compiled(ctx, w, p, rng, vs, i, j, look, kind):
    k = vs[i][1]
    a, b = vs[i][0], vs[j][0]
    form = int(rng.integers(0, 3))
    if not w.aby and w.e.nb == 100 and form == 2:
        form = 0
    const = w.draw(k, vs[i][2].shape)
    ct = w.build(k, const)
    bit = k[0] == "bit" or k[1] == BOOL
    xor = np.frompyfunc(lambda x, y: int(x) ^ int(y), 2, 1)
    plus = (lambda x, y: np.asarray(xor(x, y), dtype=object)) if bit else (lambda x, y: w.sgn(x + y))
    n = int(rng.integers(1, 4))

    if form == 0:
        @tf.function
        def step():
            x = a.read_value()
            p.assign(a, (x ^ ct) if bit else x + ct)
            p.assign(b, a.read_value())
            return tf.constant(0)

        def model():
            vs[i][2] = plus(vs[i][2], const)
            vs[j][2] = vs[i][2]
    elif form == 1:
        @tf.function
        def step():
            x, y = a.read_value(), b.read_value()
            p.assign(a, y)
            p.assign(b, (x ^ y) if bit else x + y)
            return tf.constant(0)

        def model():
            x, y = vs[i][2], vs[j][2]
            vs[i][2] = y
            vs[j][2] = plus(x, y)
    else:
        @tfe.function
        def step(t):
            p.assign(a, t)
            return (b.read_value() ^ t) if bit else b.read_value() + t

        def model():
            vs[i][2] = const
    for _ in range(n):
        if form == 2:
            out = step(ct)
            model()
            ctx.equal(w.ring(out), plus(vs[j][2], const), "compiled:result", "%s %s" % (kind, k))
        else:
            step()
            model()
        ctx.event("compiled_steps")
        ctx.event("assignments")
        look(i, "compiled form %d same=%s" % (form, i == j))
        look(j, "compiled-other form %d same=%s" % (form, i == j))


def reject(ctx, w, p, rng, vs, i, look, kind, shp):
    """an assignment that does not fit is refused and changes nothing"""
    v, k, raw = vs[i]
    bad = [("scaling", (k[0], k[1], not k[2]))] if k[0] != "bit" and k[1] != BOOL else []
    bad.append(("visibility", ("priv" if k[0] == "pub" else "pub", ARITH, k[2])))
    bad.append(("shape", k))
    if w.aby and k[0] != "pub":
        if k[0] == "bit":
            bad += [("width", ("priv", BOOL, False))]
        elif not k[2]:
            bad += [("width", ("bit", BOOL, False))] + [("share", ("priv", ARITH if k[1] == BOOL else BOOL, False))] * 2
    why, k2 = bad[int(rng.integers(0, len(bad)))]
    s2 = tuple(shp) + (2,) if why == "shape" else shp
    t = w.build(k2, w.draw(k2, s2))
    try:
        p.assign(v, t)
        ok = False
    except Exception:
        ok = True
    ctx.event("rejected")
    ctx.expect(ok, "reject:" + why, "assign of %s to %s accepted, %s" % (k2, k, kind))
    if ok:
        look(i, "reject " + why)  # nothing has changed
    else:
        vs[i][2] = w.ring(v.read_value())
