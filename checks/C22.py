"""Which protocol and which players are in force: scopes, dispatch of tfe.<operation>, configurations."""
import inspect
import json
import os
import tempfile
from collections import OrderedDict

import numpy as np

from vlib import pondops as B
from vlib import tfx
from vlib.tfx import tf, tfe

SPEC = dict(
    rule="one evaluation = one step (set_protocol, entering or leaving a scope, leaving it by an exception, set_config, computing through tfe.<op>, "
         "calling a compiled function, a memoised call) of a random history, after which the protocol in force and the binding of every public operation "
         "are compared with a stack model; or one look-up, save or load of a configuration; distinct = distinct (step, protocol, depth)",
    assumptions=["scopes are left in the reverse order of entering them"],
    min_events={"oracle_checks": 20000, "scope_steps": 800, "compiled_calls": 60, "computations": 90, "configs": 100, "lookups": 1000, "exceptions_through_scopes": 20},
)


def cases(tier, seed):
    k = 1 if tier == "quick" else 12
    return [("scope/%d" % i, "scope") for i in range(24 * k)] + [("config/%d" % i, "config") for i in range(16 * k)]


def run_case(ctx, case_id, kind):
    (scope if kind == "scope" else config)(ctx)


NAMES = None


def all_names():
    global NAMES
    if NAMES is None:
        NAMES = set()
        for c in (tfx.ABY3, tfx.Pond, tfx.SecureNN):
            NAMES |= {n for n, _ in inspect.getmembers(c, predicate=inspect.isfunction) if not n.startswith("_")}
    return NAMES


class Mine(tfx.Pond):
    def verif_only_mine(self):
        return "mine"

    def add_n_twice(self, x):
        return self.add(x, x)


EXTRA = {"verif_only_mine", "add_n_twice"}


class Leave(Exception):
    pass


def check_binding(ctx, prot, why, full):
    ctx.expect(tfe.get_protocol() is prot, "scope:protocol", "%s instead of %s after %s" % (tfe.get_protocol(), prot, why))
    names = sorted(all_names() | EXTRA)
    if not full:
        names = [names[int(i)] for i in ctx.rng.integers(0, len(names), size=12)] + sorted(EXTRA)
    for n in names:
        f = getattr(tfe, n, None)
        if prot is not None and hasattr(prot, n):
            ok = f.__self__ is prot if inspect.ismethod(f) else callable(f)
            ctx.expect(ok, "scope:binding", "tfe.%s is %r after %s" % (n, f, why))
        elif f is not None:
            try:
                r = f()
                ctx.violate("scope:leftover", "tfe.%s gave %r although %r does not have it, after %s" % (n, r, prot, why))
            except Exception as ex:
                ctx.expect(not isinstance(ex, TypeError), "scope:leftover", "tfe.%s raised %r for %r after %s" % (n, ex, prot, why))


def scope(ctx):
    rng = ctx.rng
    tfx.pond("64")
    tfx.clear_cache()
    cfg0 = tfe.get_config()
    mk = [("aby3l", lambda: tfx.ABY3(fixedpoint_config="l")), ("aby3h", lambda: tfx.ABY3(fixedpoint_config="h")),
          ("pond64", lambda: tfx.make_pond("64")), ("pond64ni", lambda: tfx.make_pond("64ni")), ("pond100", lambda: tfx.make_pond("100")),
          ("snn64", lambda: tfx.make_pond("64", tfx.SecureNN)), ("snn100", lambda: tfx.make_pond("100", tfx.SecureNN)), ("mine", lambda: tfx.make_pond("64", Mine))]
    prots = []
    for i in rng.integers(0, len(mk), size=4):
        prots.append((mk[int(i)][0], mk[int(i)][1]()))
    tfe.set_protocol(prots[0][1])
    model = [(prots[0])]  # protocol in force
    stack = []

    @tfe.function
    def cube(x, y):
        return (tfe.matmul(x, y) + x) * 0.5

    @tfe.function
    def prepared(x):
        return x * x, [x + 1.0, tfe.negative(x)]

    for step in range(40):
        op = ["set", "enter", "enter", "enter", "exit", "exit", "raise", "none", "config", "compute", "compute", "compiled", "compiled"][int(rng.integers(0, 13))]
        ctx.event("scope_steps")
        name, cur = model[0]
        ctx.seen(op, name, len(stack))
        why = "%s in %s at depth %d" % (op, name, len(stack))
        if op == "set":
            model[0] = prots[int(rng.integers(0, 4))]
            tfe.set_protocol(model[0][1])
        elif op == "none" and rng.integers(0, 2):
            tfe.set_protocol(None)
            model[0] = ("none", None)
        elif op == "config" and rng.integers(0, 2):
            tfe.set_config(tfx.LocalConfig(debug_mode=bool(rng.integers(0, 2))) if rng.integers(0, 2) else cfg0)
            ctx.expect(tfe.get_protocol() is None, "config:protocol", "set_config left a protocol built for another configuration")
            model[0] = ("none", None)
        elif op == "enter" and len(stack) < 7:
            # often an instance that was entered already
            new = prots[int(rng.integers(0, 2 + 2 * int(rng.integers(0, 2))))]
            r = new[1].__enter__()
            ctx.expect(r is new[1], "scope:enter", why)
            stack.append((new[1], model[0]))
            model[0] = new
        elif op == "exit" and stack:
            p, outer = stack.pop()
            ctx.expect(not p.__exit__(None, None, None), "scope:exit", why)
            model[0] = outer
        elif op == "raise":
            outer = model[0]
            depth = int(rng.integers(1, 4))
            ps = [prots[int(i)] for i in rng.integers(0, 4, size=depth)]
            try:
                nest(ctx, ps, why)
                ctx.violate("scope:swallowed", why)
            except Leave:
                pass
            ctx.event("exceptions_through_scopes")
            check_binding(ctx, outer[1], why + " after " + "/".join(n for n, _ in ps), False)
        elif op == "compute" and cur is not None:
            compute(ctx, cur, name, why)
        elif op == "compiled" and cur is not None and not name.endswith("100"):
            compiled(ctx, cur, cube, prepared, why)
        check_binding(ctx, model[0][1], why, step % 10 == 9)
    while stack:
        p, outer = stack.pop()
        p.__exit__(None, None, None)
        model[0] = outer
        check_binding(ctx, outer[1], "unwinding to depth %d" % len(stack), False)


def nest(ctx, ps, why):
    if not ps:
        raise Leave()
    with ps[0][1] as p:
        ctx.expect(p is ps[0][1], "scope:enter", why)
        check_binding(ctx, ps[0][1], why, False)
        try:
            nest(ctx, ps[1:], why)
        finally:
            check_binding(ctx, ps[0][1], why + " back", False)


def tol(name):
    return {"pond64ni": 0.2, "snn64": 0.05, "pond64": 0.05, "mine": 0.05}.get(name, 0.01)


def draw(rng, shp):
    return np.round(rng.normal(size=shp) * 8) / 4


def owner(t):
    return getattr(t, "prot", None)


def compute(ctx, cur, name, why):
    """operations called as tfe.<op> are those of the protocol in force"""
    rng = ctx.rng
    a, b = draw(rng, (2, 3)), draw(rng, (3, 2))
    x = tfe.define_private_variable(a).read_value()
    y = tfe.define_private_variable(b).read_value()
    c = tfe.define_constant(b.T)
    ctx.event("computations")
    for t, want in ((tfe.matmul(x, y), a.dot(b)), (tfe.add(x, c), a + b.T), (tfe.mul(x, x), a * a), (tfe.transpose(x), a.T)):
        ctx.expect(owner(t) in (cur, None), "compute:owner", "%r %s" % (owner(t), why))
        ctx.close(tfx.rev(t), want, tol(name), "compute:result", why)


def compiled(ctx, cur, cube, prepared, why):
    """compiled functions follow the protocol in force when they are called"""
    rng = ctx.rng
    name = why.split()[2]
    n = int(rng.integers(1, 3))
    a = draw(rng, (n, n))
    b = draw(rng, (n, n))
    x, y = [cur.define_private_variable(v).read_value() for v in (a, b)]
    ctx.event("compiled_calls")
    t = cube(x, y)
    ctx.expect(owner(t) in (cur, None), "compiled:owner", why)
    ctx.close(tfx.rev(t), (a.dot(b) + a) * 0.5, tol(name), "compiled:result", why)
    s, (u, v) = prepared(x)
    for t, want in ((s, a * a), (u, a + 1), (v, -a)):
        ctx.expect(owner(t) in (cur, None), "compiled:owner", why)
        ctx.close(tfx.rev(t), want, tol(name), "compiled:result", why)


# ------------------------------------------------------------------ configurations
ALPHABET = ["server0", "server1", "server2", "crypto-producer", "alice", "bob", "Ünï", "a b", "x" * 40, "0", "S", "s", "master"]


def config(ctx):
    rng = ctx.rng
    d = tempfile.mkdtemp(prefix="cfg", dir=os.environ["VERIF_TMP"])
    for _ in range(12):
        names = [ALPHABET[int(i)] for i in rng.permutation(len(ALPHABET))[: int(rng.integers(1, 9))]]
        ctx.event("configs")
        job = ["tfe", "job", "localhost"][int(rng.integers(0, 3))]
        if rng.integers(0, 2):
            remote(ctx, rng, names, job, d)
        else:
            local(ctx, rng, names, job)


def lookups(ctx, rng, cfg, names, why):
    ps = list(cfg.players)
    ctx.equal(np.array([p.name for p in ps], dtype=object), np.array(names, dtype=object), "config:order", why)
    ctx.equal(np.array([p.index for p in ps]), np.arange(len(names)), "config:index", why)
    devs = [p.device_name for p in ps]
    for n, p in zip(names, ps):
        ctx.event("lookups")
        ctx.expect(cfg.get_player(n) is p, "config:lookup", "%s %s" % (n, why))
        ctx.expect(cfg.get_player(p) is p, "config:lookup-player", "%s %s" % (n, why))
    for _ in range(4):
        want = [names[int(i)] for i in rng.permutation(len(names))[: int(rng.integers(1, len(names) + 1))]]
        if rng.integers(0, 2) and all("," not in n and n.strip() == n for n in want):
            got = cfg.get_players([", ", ",", " ,  "][int(rng.integers(0, 3))].join(want))
        else:
            got = cfg.get_players(list(want))
        ctx.event("lookups")
        ctx.equal(np.array([p.name for p in got], dtype=object), np.array(want, dtype=object), "config:get_players", why)
        ctx.expect(all(g is ps[names.index(g.name)] for g in got), "config:get_players", why)
    other = tfx.LocalConfig(["stranger"]).get_player("stranger")
    try:
        cfg.get_player(other)
        ok = False
    except Exception:
        ok = True
    ctx.expect(ok, "config:stranger", "a player of another configuration was accepted, " + why)
    return devs


def local(ctx, rng, names, job):
    auto = bool(rng.integers(0, 2))
    cfg = tfx.LocalConfig(list(names), job_name=job, auto_add_unknown_players=auto)
    why = "local %s auto=%s" % (names, auto)
    lookups(ctx, rng, cfg, names, why)
    known = list(names)
    for n in [ALPHABET[int(i)] for i in rng.integers(0, len(ALPHABET), size=6)]:
        p = cfg.get_player(n)
        ctx.event("lookups")
        if n not in known and not auto:
            ctx.expect(p is None, "config:unknown", why)
            continue
        if n not in known:
            known.append(n)
        ctx.expect(p is not None and p.name == n and p.index == known.index(n), "config:auto-add", "%s %s" % (n, why))
    devs = lookups(ctx, rng, cfg, known, why)
    ctx.expect(all(v.startswith("/job:%s/" % job) for v in devs), "config:device", "%s %s" % (devs, why))


def remote(ctx, rng, names, job, d):
    hosts = OrderedDict((n, "10.0.%d.%d:%d" % (rng.integers(0, 255), rng.integers(0, 255), rng.integers(1, 65535))) for n in names)
    cfg = tfe.RemoteConfig(hosts, job_name=job)
    why = "remote %s" % list(hosts.items())
    fn = os.path.join(d, "c%d.json" % int(rng.integers(0, 1 << 30)))
    for gen, c in enumerate((cfg, None, None)):
        if c is None:
            cfg.save(fn)
            c = cfg = tfe.RemoteConfig.load(fn)
            with open(fn) as f:
                ctx.expect(list(json.load(f, object_pairs_hook=OrderedDict).items()) == list(hosts.items()), "config:saved", why)
        devs = lookups(ctx, rng, c, names, why + " generation %d" % gen)
        ctx.expect(list(c.hostmap.items()) == list(hosts.items()) and list(c.hosts) == list(hosts.values()), "config:hosts", why)
        j = job if gen == 0 else "tfe"
        want = ["/job:%s/replica:0/task:%d/device:CPU:0" % (j, i) for i in range(len(names))]
        ctx.expect(devs == want, "config:device", "%s %s" % (devs, why))
        ctx.expect([p.host for p in c.players] == list(hosts.values()), "config:host", why)
        for n in ALPHABET:
            if n not in names:
                ctx.expect(c.get_player(n) is None, "config:unknown", why)
                ctx.expect(c.get_players([n]) == [], "config:unknown", why)
    # protocols find their servers by name
    for need in (["server0", "server1", "server2"],):
        if all(n in names for n in need):
            tfe.set_config(cfg)
            for p in (tfx.Pond(), tfx.SecureNN()):
                for n in need:
                    s = getattr(p, n.replace("server", "server_"), None)
                    if s is not None:
                        ctx.expect(s is cfg.get_player(n), "config:server", "%s %s" % (n, why))
            tfe.set_config(tfx.LocalConfig())
