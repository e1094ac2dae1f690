"""One ill-formed call of a native kernel, in a process of its own (see checks/C12.py)."""
import sys

import numpy as np

from vlib import tfx, kernels as KN

tf = tfx.tf
L = KN.lib()
raw = L.tf_i128
from tf_encrypted.operations import aux as AX  # noqa: E402
from tf_encrypted.operations import secure_random as sr  # noqa: E402


def I(*s):
    return tf.constant(np.arange(int(np.prod(s)) * 2).reshape(s + (2,)), tf.int64)


def c(v):
    return tf.constant(v, tf.int64)


def b(v):
    return tf.constant(tfx.limbs(np.asarray(v, dtype=object)), tf.int64)


CALLS = {
    "matmul_mismatch": lambda: L.matmul(I(2, 3), I(4, 2)),
    "matmul_rank1": lambda: L.matmul(I(3), I(3, 2)),
    "matmul_rank3": lambda: L.matmul(I(2, 3, 3), I(3, 2)),
    "matmul_empty": lambda: L.matmul(I(2, 0), I(0, 2)),
    "equal_mismatch": lambda: L.equal(I(2, 3), I(4)),
    "equal_bcast": lambda: L.equal(I(2, 3), I(3)),
    "add_mismatch": lambda: L.add(I(2, 3), I(3, 2)),
    "add_two_sided": lambda: L.add(I(4), I(3)),
    "neg_notlimb": lambda: raw.i128_negate(c([1, 2, 3])),
    "shift_128": lambda: L.left_shift(I(3), 128),
    "shift_huge": lambda: L.right_shift(I(3), 1 << 40),
    "shift_neg": lambda: L.left_shift(I(3), -1),
    "shift_mismatch": lambda: L.left_shift(I(3), c([1, 2])),
    "rsum_neg": lambda: raw.i128_reduce_sum(I(3, 2), c([-1]), False),
    "rsum_dup": lambda: raw.i128_reduce_sum(I(3, 2), c([0, 0]), True),
    "rsum_far": lambda: raw.i128_reduce_sum(I(3, 2), c([7]), True),
    "rsum_empty": lambda: L.reduce_sum(I(3, 0), axis=1),
    "i128_gather_start": lambda: raw.i128_bit_gather(I(3), start=130, stride=2),
    "i128_gather_neg": lambda: raw.i128_bit_gather(I(3), start=-1, stride=2),
    "split_3": lambda: raw.i128_bit_split_and_gather(I(3), stride=3),
    "to_nan": lambda: L.to_i128(tf.constant([np.nan, np.inf, 1e300], tf.float64)),
    "sr_minmax": lambda: sr.random_uniform([3], minval=c(6), maxval=c(5), dtype=tf.int64),
    "sr_negshape": lambda: sr.random_uniform([-1], minval=c(0), maxval=c(5), dtype=tf.int64),
    "sr_seedshape": lambda: sr.seeded_random_uniform([3], minval=c(0), maxval=c(5), dtype=tf.int64, seed=tf.constant([1, 2], tf.int32)),
    "sr_i128minmax": lambda: sr.i128_random_uniform([3], b(5), b(5)),
    "sr_i128seedshape": lambda: sr.i128_seeded_random_uniform([3], tf.constant([1, 2], tf.int32), b(1), b(5)),
    "aux_split3": lambda: AX.bit_split_and_gather(tf.zeros([2], tf.int64), 3),
    "aux_gather_start": lambda: AX.bit_gather(tf.zeros([2], tf.int64), 70, 2),
}

if __name__ == "__main__":
    f = CALLS[sys.argv[1]]
    print("reached the call", flush=True)
    try:
        r = f()
        print("returned", r.shape, flush=True)
    except Exception as e:
        print("raised", type(e).__name__, str(e)[:200], flush=True)
