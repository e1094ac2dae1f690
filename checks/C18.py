"""Players on remote hosts: one process per player on the loopback network, computing over gRPC."""
import json
import os
import tempfile

from vlib import remote

SPEC = dict(
    rule="one evaluation = one case of the local checks (operations, programs, variables, compiled functions) run by a client over a cluster of "
         "player processes started with python -m tf_encrypted.player, judged by the same oracles; distinct = distinct (case kind, operation, shape) "
         "signatures; every share constructed is also looked up on the server that holds it",
    assumptions=["loopback network, no lost connections; owners of inputs and receivers of outputs live on the client's host",
                 "client processes do not share state: TensorFlow isolates the eager sessions of different clients"],
    min_events={"oracle_checks": 400, "shares_placed": 5000, "remote_cases": 60, "clusters": 2},
    workers=2,
    budget={"quick": 700, "thorough": 3300},
)
PLAN = ["C03", "C04", "C05", "C06", "C14", "C15", "C17", "C01", "C20", "C21", "C07", "C19"]


def cases(tier, seed):
    k = 2 if tier == "quick" else 8
    return [("cluster/%d" % i, i) for i in range(k)]


def run_case(ctx, case_id, index):
    rng = ctx.rng
    tmp = tempfile.mkdtemp(prefix="cluster", dir=os.environ["VERIF_TMP"])
    names = ["server0", "server1", "server2", "master"]
    names = [names[int(i)] for i in rng.permutation(4)]
    why = "players %s" % names
    for attempt in range(3):
        cluster = remote.Cluster(names, tmp)
        up = cluster.start()
        if up:
            break
        logs = cluster.logs()
        cluster.stop()
    if not up:
        ctx.violate("remote:start", "players do not start, %s %s" % (why, logs))
        return
    journal = os.path.join(tmp, "journal")
    try:
        plan = ",".join(PLAN[int(i)] for i in rng.permutation(len(PLAN)))
        seconds = 60 if ctx.tier == "quick" else 700
        rc = remote.run_client(cluster, journal, int(rng.integers(0, 1 << 30)), ctx.tier, seconds, names[int(rng.integers(0, 4))], plan, 240)
        dead, logs = cluster.dead(), cluster.logs()
    finally:
        cluster.stop()
    lines = []
    if os.path.exists(journal):
        with open(journal) as f:
            lines = f.read().split("\n")
    ctx.expect(not dead, "remote:player-died", "%s %s %s" % (dead, why, logs))
    with open(journal + ".log", "rb") as f:
        log = f.read()[-700:].decode("utf8", "replace")
    ctx.expect("connected" in lines, "remote:connect", "%s rc=%s %s" % (why, rc, log))
    ctx.expect(rc == 0 and "done" in lines, "remote:client", "rc=%s after %d cases, %s %s" % (rc, len(lines), why, log))
    ctx.event("clusters")
    for line in lines:
        if not line.startswith("{"):
            continue
        r = json.loads(line)
        ctx.event("remote_cases")
        for k, v in r["events"].items():
            ctx.event(k, v)
        ctx.event("shares_placed", r["placed"])
        for s in r["sigs"]:
            ctx.seen(r["prop"], s)
        for mech, detail in r["violations"]:
            ctx.violate("remote:" + mech, "%s %s: %s, %s" % (r["prop"], r["case"], detail, why))
        for b in r["misplaced"]:
            ctx.violate("remote:placement", "%s %s: %s, %s" % (r["prop"], r["case"], b, why))
