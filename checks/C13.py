"""Tensor factories implement the arithmetic of their ring exactly."""
from vlib import ringnames

SPEC = dict(
    rule="one evaluation = one operation of one tensor type on generated ring elements (ends of the ring, broadcasting, all "
         "parameters), every element compared with Python integers modulo the type's modulus; or one statistic over samples; "
         "distinct = distinct (type, operation, shapes, parameters)",
    assumptions=["remainders, truncation and plain bits of 100-bit tensors are offered numbers at least a factor of ten away "
                 "from the wrap-around point (the float recombination is only meant for those)"],
    min_events={"oracle_checks": 3000, "values_compared": 20000, "samples_checked": 1000},
)


def cases(tier, seed):
    out = []
    for g, ks in ringnames.GENS.items():
        for k in ks:
            for j in range(1 if tier == "quick" else 12):
                out.append(("%s/%s/%d" % (g, k, j), ("op", g, k, 25)))
    for k in ringnames.SAMPLE:
        for j in range(1 if tier == "quick" else 6):
            out.append(("sample/%s/%d" % (k, j), ("sample", "", k, 0)))
    return out


def run_case(ctx, case_id, payload):
    from vlib import rings
    kind, g, k, n = payload
    if kind == "op":
        for _ in range(n):
            rings.run(ctx, k, g)
    else:
        rings.samples(ctx, k)
