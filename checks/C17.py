from vlib import pondops as B
from vlib import snnops as S
from vlib import tfx

SPEC = dict(
    rule="operation instances drawn per generator (operand kinds, shapes, broadcasts, near-equal operands, extreme ring values) for the "
         "64-bit and 100-bit configurations; distinct = distinct (configuration, operation, kinds, shapes, parameters); every element "
         "compared with the integer reference",
    assumptions=["differences of compared values stay inside the ring's signed range"],
    min_events={"oracle_checks": 1000, "values_compared": 3000, "private_tensors_monitored": 2000, "masked_tensors_monitored": 200},
)


def cases(tier, seed):
    return B.op_cases(S.COMPARE, tier, 12, 150, chunk=6, kinds=("100", "64"))


def run_case(ctx, case_id, payload):
    B.run_ops(ctx, payload, tfx.SecureNN, S)
