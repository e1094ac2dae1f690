from vlib import pondops as B

SPEC = dict(
    rule="operation instances drawn per generator (kinds of operands incl. masked and variables, shapes, broadcasts, parameters, hostile "
         "ring values) for the four fixed-point configurations; distinct = distinct (configuration, operation, kinds, shapes, parameters); "
         "every element compared with an integer reference modulo the ring",
    assumptions=["a public operand is not larger than the private operand it is added to"],
    min_events={"oracle_checks": 1000, "values_compared": 5000, "private_tensors_monitored": 500, "masked_tensors_monitored": 100},
)


def cases(tier, seed):
    return B.op_cases(B.LINEAR + B.STRUCT, tier, 30, 400)


def run_case(ctx, case_id, payload):
    B.run_ops(ctx, payload)
