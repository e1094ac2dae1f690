"""Common body of the per-operation ABY3 checks."""
from vlib import aby3ops as O
from vlib import tfx


def op_cases(prop, gens, tier, seed, quick_n, thorough_n, chunk=10):
    n = quick_n if tier == "quick" else thorough_n
    out = []
    seen = {}
    for g in gens:
        k = seen.get(g.__name__, 0)
        seen[g.__name__] = k + 1
        for cfg in ("l", "h"):
            done = j = 0
            while done < n:
                m = min(chunk, n - done)
                out.append(("%s/%s/%d.%d" % (g.__name__, cfg, k, j), (g.__name__, cfg, m)))
                done += m
                j += 1
    # long-running generators first
    slow = ("op_sort", "op_reduce_max", "op_argmax", "op_maxpool", "op_carry", "op_msb", "op_ppa", "op_mul_trunc2")
    return sorted(out, key=lambda c: c[1][0] not in slow)


def run_ops(ctx, payload, monitor=True):
    gname, cfg, n = payload
    gen = getattr(O, gname)
    prot = tfx.aby3(cfg)
    e = O.Env(cfg, ctx.rng)
    with tfx.ShareMonitor() as mon:
        for k in range(n):
            op = O.draw(gen, e)
            if op is None:
                continue
            try:
                O.run_op(ctx, prot, op, e)
            except Exception as ex:
                import traceback
                tb = traceback.format_exc().splitlines()
                ctx.seen(*op.sig())
                ctx.violate("raised:" + op.name.split(":")[0], "%s %s | %s" % (op.sig(), type(ex).__name__ + ": " + str(ex)[:300], " / ".join(t.strip() for t in tb[-5:-1])))
            if k % 20 == 19:
                tfx.clear_cache()
    mon.report(ctx)
    return mon
