from vlib import pondops as B

SPEC = dict(
    rule="operation instances drawn per generator (kinds of operands incl. masked and variables, shapes, broadcasts, parameters, hostile "
         "ring values) for the four fixed-point configurations; distinct = distinct (configuration, operation, kinds, shapes, parameters); "
         "every element compared with the exact product rounded within one unit (or the propagated bound for polynomials)",
    assumptions=["results lie in the range of the configuration; local (non-interactive) truncation is used on magnitudes where it fails with probability below 2^-30"],
    min_events={"oracle_checks": 1000, "values_compared": 5000, "private_tensors_monitored": 500, "masked_tensors_monitored": 100},
)


def cases(tier, seed):
    return B.op_cases(B.MULT, tier, 30, 400)


def run_case(ctx, case_id, payload):
    B.run_ops(ctx, payload)
