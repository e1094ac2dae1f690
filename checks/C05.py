from vlib import aby3check as B

SPEC = dict(
    rule="operation instances drawn per generator (kinds of operands, shapes, broadcasting, parameters, "
         "hostile ring values) for both precisions; distinct = distinct (operation, operand kinds, shapes, "
         "parameters); each is compared with an integer reference on every element",
    assumptions=["operand ranges respect the documented bounds of the fixed-point configuration"],
    min_events={"oracle_checks": 100, "values_compared": 500, "private_tensors_monitored": 100},
)


def cases(tier, seed):
    from vlib import aby3ops as O
    return B.op_cases("C05", O.BOOLEAN, tier, seed, 120, 1500)


def run_case(ctx, case_id, payload):
    B.run_ops(ctx, payload)
