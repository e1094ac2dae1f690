"""Queues of secret-shared tensors: FIFO, exactly once, no mixing, under histories and concurrency; serving."""
import gc
import threading
import time

import numpy as np

from vlib import pondops as B
from vlib import tfx
from vlib.tfx import tf, tfe

SPEC = dict(
    rule="one evaluation = one queue operation (eager or compiled) of a random history checked against a list model, one element of a concurrent "
         "run followed from its enqueue to its dequeue, or one served request; distinct = distinct (case family, protocol, operation, shape, "
         "occupancy) and, for concurrent runs, distinct global orders of begin/end events",
    assumptions=["queues hold scaled private tensors of 64 bit protocols; int100 and unscaled tensors are refused by the queue",
                 "threads of one process stand for the clients; separate processes on remote servers are not run"],
    min_events={"oracle_checks": 2000, "history_steps": 800, "concurrent_elements": 1000, "served": 60, "overlaps": 300, "blocked_enqueues": 10},
    env={"VERIF_DEVICES": "1"},
    workers=4,
    budget={"quick": 500, "thorough": 3000},
)


def cases(tier, seed):
    k = 1 if tier == "quick" else 12
    out = [("hist/%d" % i, "hist") for i in range(40 * k)]
    out += [("conc/%d" % i, "conc") for i in range(28 * k)]
    out += [("serve/%d" % i, "serve") for i in range(10 * k)]
    return out


def protocol(rng):
    cfg = tfx.DeviceConfig(["server0", "server1", "server2", "alice"])
    tfe.set_config(cfg)
    tfx.clear_cache()
    cls = [tfx.Pond, tfx.SecureNN][int(rng.integers(0, 2))]
    p = tfx.make_pond("64", cls)
    tfe.set_protocol(p)
    return p, cls.__name__


def run_case(ctx, case_id, kind):
    p, cname = protocol(ctx.rng)
    {"hist": history, "conc": concurrent, "serve": serve}[kind](ctx, p, cname)


def dev(s):
    return s.split("/")[-1]


def on_own_server(ctx, p, q, t=None):
    """each share is held by its own server"""
    for queue, server in ((getattr(q, "queue0", None), p.server_0), (getattr(q, "queue1", None), p.server_1)):
        if queue is None:
            continue
        ctx.expect(dev(queue.queue_ref.device) == dev(server.device_name), "placement:queue",
                   "%s for %s" % (queue.queue_ref.device, server.device_name))
    if t is not None:
        for share, server in zip(t.unwrapped, (p.server_0, p.server_1)):
            ctx.expect(dev(share.value.device) == dev(server.device_name), "placement:share",
                       "%s for %s" % (share.value.device, server.device_name))


# ------------------------------------------------------------------ histories
def history(ctx, p, cname):
    rng = ctx.rng
    e = B.Env("64", rng)
    tag = "%s-%d" % (ctx.case_id, int(rng.integers(0, 1 << 30)))
    groups = []  # [handles, model list of ring arrays, capacity, shape, shared name]
    for i in range(int(rng.integers(2, 5))):
        shp = tuple(int(v) for v in rng.integers(1, 4, size=int(rng.integers(0, 3))))
        if i and rng.integers(0, 2):
            shp = groups[0][3]
        cap = int(rng.integers(1, 6))
        name = "%s-%d" % (tag, i) if rng.integers(0, 3) else None
        groups.append([[tfe.queue.FIFOQueue(cap, shp, shared_name=name)], [], cap, shp, name])
    for g in groups:
        on_own_server(ctx, p, g[0][0])
    s = p.fixedpoint_config.scaling_factor

    def fresh(shp):
        raw = np.asarray(rng.integers(-2 ** 40, 2 ** 40, size=shp), dtype=object)
        form = int(rng.integers(0, 4))
        vals = np.asarray(np.asarray(raw, dtype=np.float64) / s)
        if form == 0:
            t = p.define_private_input("alice", lambda: tf.constant(vals))
        elif form == 1:
            t = p.define_private_variable(vals)
        elif form == 2:
            t = p.define_private_variable(vals).read_value()
            t = t + t - t
        else:
            t = p.define_private_variable(vals).read_value().negative().negative()
        return t, np.asarray(B.ring(e, t.read_value() if hasattr(t, "read_value") else t), dtype=object)

    def compare(t, want, why):
        ctx.expect(type(t).__name__ == "PondPrivateTensor" and t.is_scaled and t.backing_dtype == p.tensor_factory, "dequeue:type", why)
        ctx.equal(B.ring(e, t), want, "dequeue:value", why)

    for step in range(45):
        g = groups[int(rng.integers(0, len(groups)))]
        hs, model, cap, shp, name = g
        h = hs[int(rng.integers(0, len(hs)))]
        op = ["enq", "enq", "enq", "deq", "deq", "size", "handle", "drop", "graph", "move", "reject"][int(rng.integers(0, 11))]
        ctx.event("history_steps")
        ctx.seen("hist", cname, op, shp, len(model), cap, len(hs))
        why = "%s cap=%d shape=%s n=%d handles=%d named=%s step=%s" % (cname, cap, shp, len(model), len(hs), bool(name), op)
        if op == "enq" and len(model) < cap:
            t, raw = fresh(shp)
            h.enqueue(t)
            model.append(raw)
        elif op == "deq" and model:
            t = h.dequeue()
            compare(t, model.pop(0), why)
            on_own_server(ctx, p, h, t)
        elif op == "handle" and name:
            hs.append(tfe.queue.FIFOQueue(cap, shp, shared_name=name))
        elif op == "drop" and len(hs) > 1:
            # the other handles, and what is stored, are not affected
            hs.pop(int(rng.integers(0, len(hs))))
            h = hs[0]
            gc.collect()
        elif op == "graph":
            # a compiled step taking one element and putting two others
            n = int(rng.integers(1, 3))
            if model and len(model) - 1 + n <= cap:
                t, raw = fresh(shp)
                q2 = hs[int(rng.integers(0, len(hs)))]

                @tf.function
                def move():
                    x = h.dequeue()
                    for _ in range(n):
                        q2.enqueue(x + t)
                    return x.unwrapped[0].value, x.unwrapped[1].value
                a, b = move()
                head = model.pop(0)
                got = tfx.signed(a.numpy().astype(object) + b.numpy().astype(object), 64)
                ctx.equal(got, head, "dequeue:value", why)
                model.extend([np.asarray(tfx.signed(head + raw, 64), dtype=object)] * n)
        elif op == "move":
            o = groups[int(rng.integers(0, len(groups)))]
            if model and o[3] == shp and o is not g and len(o[1]) < o[2]:
                o[0][0].enqueue(h.dequeue())
                o[1].append(model.pop(0))
        elif op == "reject":
            k = int(rng.integers(0, 3))
            bad = [lambda: fresh(shp + (2,))[0], lambda: p.define_public_variable(np.ones(shp)).read_value(),
                   lambda: p.define_private_variable(np.ones(shp), apply_scaling=False).read_value()][k]
            t = bad()
            if len(model) < cap:  # would block otherwise if accepted
                try:
                    h.enqueue(t)
                    ok = False
                except Exception:
                    ok = True
                ctx.event("rejected")
                ctx.expect(ok, "enqueue:accepted", "%s bad=%d" % (why, k))
        for g in groups:
            for h in g[0]:
                ctx.expect(int(h.size()) == len(g[1]), "size", "%d for %d elements, %s" % (int(h.size()), len(g[1]), why))
    for g in groups:
        h = g[0][-1]
        while g[1]:
            compare(h.dequeue(), g[1].pop(0), "drain " + cname)
        ctx.expect(int(h.size()) == 0, "size", "after draining")


# ------------------------------------------------------------------ concurrency
class Delays:
    """random delays around the queue operations, to vary the interleaving"""

    def __init__(self, rng, level):
        self.level = level
        self.seed = int(rng.integers(0, 1 << 30))
        self.local = threading.local()
        self.n = 0
        self.count = 0

    def _rng(self):
        if not hasattr(self.local, "r"):
            self.n += 1
            self.local.r = np.random.default_rng([self.seed, self.n])
        return self.local.r

    def pause(self):
        r = self._rng()
        if self.level and r.random() < 0.5:
            self.count += 1
            time.sleep(float(r.random()) * self.level)

    def __enter__(self):
        base, d = tf.queue.QueueBase, self
        self.saved = (base.enqueue, base.dequeue)

        def enqueue(s, *a, **k):
            d.pause()
            r = d.saved[0](s, *a, **k)
            d.pause()
            return r

        def dequeue(s, *a, **k):
            d.pause()
            r = d.saved[1](s, *a, **k)
            d.pause()
            return r
        base.enqueue, base.dequeue = enqueue, dequeue
        return self

    def __exit__(self, *a):
        tf.queue.QueueBase.enqueue, tf.queue.QueueBase.dequeue = self.saved


def concurrent(ctx, p, cname):
    rng = ctx.rng
    NP, NC = int(rng.integers(1, 5)), int(rng.integers(1, 4))
    per = int(rng.integers(12, 40))
    cap = int(rng.integers(1, 6))
    total = NP * per
    shape = (2,)
    name = "conc-%s-%d" % (ctx.case_id, int(rng.integers(0, 1 << 30))) if rng.integers(0, 2) else None
    main = tfe.queue.FIFOQueue(cap, shape, shared_name=name)

    def handle():
        return tfe.queue.FIFOQueue(cap, shape, shared_name=name) if name else main
    level = [0.0, 0.0005, 0.002][int(rng.integers(0, 3))]
    compiled_p = [bool(rng.integers(0, 2)) for _ in range(NP)]
    compiled_c = [bool(rng.integers(0, 2)) for _ in range(NC)]
    log, lock = [], threading.Lock()
    failed = []

    def note(*ev):
        with lock:
            log.append(ev)

    def producer(i, h, vals):
        try:
            step = None
            if compiled_p[i]:
                @tf.function
                def step(x):
                    t = p.define_private_input("alice", lambda: x)
                    h.enqueue(t)
                    return tf.constant(0)
            for k in range(per):
                v = np.array([float(i * 1000 + k), 7.0])
                t = None if step else p.define_private_variable(v)
                note("enq", i, k, 0)
                if step:
                    step(tf.constant(v))
                else:
                    h.enqueue(t)
                note("enq", i, k, 1)
        except Exception as ex:
            failed.append("producer %s" % str(ex)[:300])

    def consumer(i, h, n):
        try:
            step = None
            if compiled_c[i]:
                @tf.function
                def step():
                    return h.dequeue().reveal().to_native()
            for k in range(n):
                note("deq", i, k, 0, None)
                r = step() if step else h.dequeue()
                note("deq", i, k, 1, r)
        except Exception as ex:
            failed.append("consumer %s" % str(ex)[:300])

    share = [total // NC + (1 if i < total % NC else 0) for i in range(NC)]
    with Delays(rng, level) as d:
        hp = [handle() for _ in range(NP)]
        hc = [handle() for _ in range(NC)]
        ts = [threading.Thread(target=producer, args=(i, hp[i], None), daemon=True) for i in range(NP)]
        ts += [threading.Thread(target=consumer, args=(i, hc[i], share[i]), daemon=True) for i in range(NC)]
        for t in ts:
            t.start()
        end = time.time() + 90
        for t in ts:
            t.join(max(0.1, end - time.time()))
        hung = sum(t.is_alive() for t in ts)
    why = "%s producers=%d%s consumers=%d%s capacity=%d per=%d delay=%g named=%s" % (
        cname, NP, compiled_p, NC, compiled_c, cap, per, level, bool(name))
    ctx.expect(not failed, "concurrent:raised", "%s %s" % (failed[:2], why))
    ctx.expect(not hung, "concurrent:stuck", "%d threads still waiting, %s" % (hung, why))
    if failed or hung:
        return
    ctx.event("concurrent_elements", total)
    ctx.event("delays_injected", d.count)
    ctx.seen("conc", cname, hash(tuple(ev[:4] for ev in log)))
    # offline checks over the recorded events
    enq, deq, seq = {}, {}, {}
    running = 0
    outstanding = 0
    for n, ev in enumerate(log):
        if ev[3] == 0:
            if running:
                ctx.event("overlaps")
            running += 1
        else:
            running -= 1
        if ev[0] == "enq":
            enq.setdefault((ev[1], ev[2]), [None, None])[ev[3]] = n
            outstanding += ev[3]
            if ev[3] == 1 and n - enq[ev[1], ev[2]][0] > 2 * (NP + NC):
                ctx.event("blocked_enqueues")
        else:
            if ev[3] == 0:
                # a dequeue may have taken its element from here on
                outstanding -= 1
                seq[ev[1], ev[2]] = n
            else:
                r = ev[4]
                v = tfx.npv(r) if isinstance(r, tf.Tensor) else tfx.rev(r)
                code = int(round(float(v[0])))
                ok = abs(v[0] - code) < 1e-2 and abs(v[1] - 7) < 1e-2 and 0 <= code // 1000 < NP and 0 <= code % 1000 < per
                ctx.expect(ok, "concurrent:mixed", "dequeued %s which nobody enqueued, %s" % (v, why))
                if ok:
                    key = (code // 1000, code % 1000)
                    ctx.expect(key not in deq, "concurrent:twice", "%s, %s" % (key, why))
                    deq[key] = [seq[ev[1], ev[2]], n, ev[1]]
        ctx.expect(outstanding <= cap, "concurrent:capacity", "%d elements, %s" % (outstanding, why))
    ctx.expect(len(deq) == total, "concurrent:lost", "%d of %d elements dequeued, %s" % (len(deq), total, why))
    # first in first out: a put before b, then a is not taken after b was
    items = [(enq[k][0], enq[k][1], deq[k][0], deq[k][1], k) for k in deq]
    by = sorted(items, key=lambda t: t[1])
    bad = 0
    for i, a in enumerate(by):
        ctx.expect(a[3] > a[0], "concurrent:before", "%s dequeued before it was enqueued, %s" % (a[4], why))
        for b in by[i + 1:]:
            if a[1] < b[0] and b[3] < a[2]:
                bad += 1
                if bad < 3:
                    ctx.violate("concurrent:order", "%s enqueued before %s and dequeued after it, %s" % (a[4], b[4], why))
    for c in range(NC):
        last = {}
        for k, v in sorted(deq.items(), key=lambda t: t[1][1]):
            if v[2] == c:
                ctx.expect(last.get(k[0], -1) < k[1], "concurrent:producer-order", "%s after %s, %s" % (k, last.get(k[0]), why))
                last[k[0]] = k[1]
    ctx.expect(int(main.size()) == 0, "concurrent:size", why)


# ------------------------------------------------------------------ serving
def serve(ctx, p, cname):
    rng = ctx.rng
    n = int(rng.integers(8, 16))
    m, k = int(rng.integers(1, 4)), int(rng.integers(1, 5))
    tag = "%s-%d" % (ctx.case_id, int(rng.integers(0, 1 << 30)))
    w = rng.normal(size=(k, 3))
    b = rng.normal(size=(3,))
    wt = p.define_private_variable(w).read_value()
    bt = p.define_private_variable(b).read_value()
    form = int(rng.integers(0, 3))
    if form == 0:
        f, g, oshape = (lambda x: x.matmul(wt) + bt), (lambda x: x.dot(w) + b), (m, 3)
    elif form == 1:
        f, g, oshape = (lambda x: x * x - x), (lambda x: x * x - x), (m, k)
    else:
        f, g, oshape = (lambda x: x.reduce_sum(axis=0) * 0.5), (lambda x: x.sum(0) * 0.5), (k,)
    kw = dict(input_queue_capacity=int(rng.integers(1, 5)), output_queue_capacity=int(rng.integers(1, 5)),
              input_queue_name="in-" + tag, output_queue_name="out-" + tag)
    server = tfe.serving.QueueServer((m, k), oshape, f, **kw)
    on_own_server(ctx, p, server.input_queue)
    on_own_server(ctx, p, server.output_queue)
    xs = [rng.normal(size=(m, k)) * 2 for _ in range(n)]
    got, steps, failed = [], [], []

    def run_server():
        try:
            split = int(rng.integers(0, n + 1))
            server.run(num_steps=split, step_fn=lambda: steps.append(1))
            server.run(num_steps=n - split, step_fn=lambda: steps.append(1))
        except Exception as ex:
            failed.append("server %s" % str(ex)[:400])

    mode = int(rng.integers(0, 3))
    split2 = int(rng.integers(1, n))

    def run_client():
        try:
            client = tfe.serving.QueueClient((m, k), oshape, **kw)
            if mode == 0:
                for i, x in enumerate(xs):
                    if i == split2:
                        client = tfe.serving.QueueClient((m, k), oshape, **kw)
                        gc.collect()
                    got.append(client.run(x))
            else:
                sent = 0
                room = min(kw["input_queue_capacity"], kw["output_queue_capacity"]) if mode == 1 else 1 + kw["input_queue_capacity"]
                while len(got) < n:
                    while sent < n and sent - len(got) < room:
                        client.send_input(xs[sent])
                        sent += 1
                    got.append(client.receive_output())
        except Exception as ex:
            failed.append("client %s" % str(ex)[:400])

    ts = [threading.Thread(target=run_server, daemon=True), threading.Thread(target=run_client, daemon=True)]
    with Delays(rng, [0, 0.002][int(rng.integers(0, 2))]):
        for t in ts:
            t.start()
        end = time.time() + 90
        for t in ts:
            t.join(max(0.1, end - time.time()))
    why = "%s form=%d mode=%d n=%d %s" % (cname, form, mode, n, kw)
    ctx.expect(not failed, "serving:raised", "%s %s" % (failed[:2], why))
    ctx.expect(not any(t.is_alive() for t in ts), "serving:stuck", why)
    if failed or any(t.is_alive() for t in ts):
        return
    ctx.expect(len(steps) == n, "serving:steps", "%d steps, %s" % (len(steps), why))
    for i, y in enumerate(got):
        ctx.event("served")
        ctx.seen("serve", cname, form, mode, i)
        ctx.close(tfx.npv(y), g(xs[i]), 0.05, "serving:result", "request %d %s" % (i, why))
    for q in (server.input_queue, server.output_queue):
        ctx.expect(int(q.size()) == 0, "serving:left", why)
    bad = rng.normal(size=(m + 1, k))
    try:
        tfe.serving.QueueClient((m, k), oshape, **kw).send_input(bad)
        ok = False
    except Exception:
        ok = True
    ctx.expect(ok and int(server.input_queue.size()) == 0, "serving:accepted", why)
