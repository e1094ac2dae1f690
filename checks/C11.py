"""Native 128-bit and bit-manipulation kernels are exact."""
from vlib import kernels as KN

SPEC = dict(
    rule="one evaluation = one call of one native kernel on generated tensors (rank 0-6, broadcasting, ends of the ring, "
         "all parameters), eager or compiled, every element compared with Python integers and every input re-read; "
         "distinct = distinct (kernel, shapes, parameters, mode)",
    assumptions=["ranks above the five (six for sums) the kernels support are not offered"],
    min_events={"oracle_checks": 2000, "values_compared": 20000, "static_shapes_checked": 100},
)


def cases(tier, seed):
    out = []
    seen = {}
    for g in KN.ALL:
        k = seen.get(g.__name__, 0)
        seen[g.__name__] = k + 1
        for j in range(6 if tier == "quick" else 60):
            out.append(("%s/%d.%d" % (g.__name__, k, j), (g.__name__, 40)))
    return out


def setup():
    from vlib import tfx
    assert KN.lib().tf_i128 is not None, "int128 module did not load"


def run_case(ctx, case_id, payload):
    g, n = payload
    for i in range(n):
        k = getattr(KN, g)(ctx.rng)
        KN.run(ctx, k, graph=(i % 5 == 4))
