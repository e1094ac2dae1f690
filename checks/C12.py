"""Native modules under AddressSanitizer and UndefinedBehaviorSanitizer."""
import os
import subprocess
import sys

import numpy as np

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = dict(
    rule="one evaluation = one call of one native kernel of a build with AddressSanitizer and UndefinedBehaviorSanitizer, fresh "
         "memory filled with a pattern, with its values compared to the integer reference; or one ill-formed call in a process "
         "of its own; distinct = distinct (kernel, shapes, parameters, mode)",
    assumptions=["signed overflow and left shifts of negative numbers are excluded: the ring arithmetic wraps by design",
                 "an ill-formed call may raise an error or stop the process through a CHECK; it may not touch foreign memory",
                 "ThreadSanitizer is not usable: TensorFlow itself is not instrumented"],
    min_events={"oracle_checks": 500, "sanitized_calls": 1000, "ill_formed_calls": 5},
    workers=7,
)
ILL = ["matmul_mismatch", "matmul_rank1", "matmul_rank3", "equal_mismatch", "equal_bcast", "add_mismatch", "add_two_sided",
       "neg_notlimb", "shift_128", "shift_huge", "shift_neg", "shift_mismatch", "rsum_neg", "rsum_dup", "rsum_far",
       "i128_gather_start", "i128_gather_neg", "split_3", "to_nan", "sr_minmax", "sr_negshape", "sr_seedshape",
       "sr_i128minmax", "sr_i128seedshape", "aux_split3", "aux_gather_start", "matmul_empty", "rsum_empty"]


def prepare(tmp, env):
    d = os.path.join(tmp, "ops")
    with open(os.path.join(tmp, "build.log"), "w") as f:
        rc = subprocess.call([os.path.join(HERE, "tools", "build_sanitized.sh"), d], stdout=f, stderr=subprocess.STDOUT)
    so = [x for x in os.listdir(d) if x.endswith(".so")] if os.path.isdir(d) else []
    if rc or len(so) != 4:
        with open(os.path.join(tmp, "build.log")) as f:
            return "sanitized build failed: " + f.read()[-1500:]
    env["VERIF_OPDIR"] = d
    libs = [subprocess.check_output(["gcc", "-print-file-name=" + n], text=True).strip()
            for n in ("libasan.so", "libubsan.so", "libstdc++.so")]
    env["LD_PRELOAD"] = " ".join(libs)
    env["ASAN_OPTIONS"] = "detect_leaks=0:max_malloc_fill_size=100000000:malloc_fill_byte=190:exitcode=86"
    env["UBSAN_OPTIONS"] = "print_stacktrace=0:exitcode=86"
    env["TF_NUM_INTRAOP_THREADS"] = "4"
    return None


def cases(tier, seed):
    from vlib import knames
    out = []
    q = tier == "quick"
    for g in knames.NAMES:
        for j in range(3 if q else 25):
            out.append(("kernel/%s/%d" % (g, j), ("kernel", g, 25)))
    for d in ["int8", "int16", "int32", "int64", "int128"]:
        for j in range(2 if q else 12):
            out.append(("draw/%s/%d" % (d, j), ("draw", d, 25)))
    for j in range(2 if q else 10):
        out.append(("record/%d" % j, ("record", "", 8)))
    for j in range(3 if q else 16):
        out.append(("protocol/%d" % j, ("protocol", "", 12)))
    for n in ILL:
        out.append(("ill/" + n, ("ill", n, 0)))
    return out


def setup():
    from vlib import tfx
    assert len(tfx.OPLIBS) >= 3, "sanitized modules were not loaded: %s" % tfx.OPLIBS


def run_case(ctx, case_id, payload):
    kind, name, n = payload
    globals()["do_" + kind](ctx, name, n)


def do_kernel(ctx, name, n):
    from vlib import kernels as KN
    for i in range(n):
        KN.run(ctx, getattr(KN, name)(ctx.rng), graph=(i % 7 == 6))
        ctx.event("sanitized_calls")


def do_draw(ctx, d, n):
    from checks import C10
    from vlib import tfx
    tf = tfx.tf
    for i in range(n):
        lo, hi = C10.bounds(ctx.rng, d)[:2]
        shape = [int(v) for v in ctx.rng.integers(1, 6, size=int(ctx.rng.integers(0, 4)))]
        if i % 5 == 0:
            shape = [int(ctx.rng.integers(1, 70000))]
        s = None
        if i % 2:
            s = tf.constant(ctx.rng.integers(-2**31, 2**31, size=8).astype(np.int32))
        v = C10.draw(d, shape, lo, hi, s)
        ctx.event("sanitized_calls")
        ctx.seen("draw", d, len(shape), s is None, lo < 0)
        ctx.expect(v.shape == tuple(shape) and (v.size == 0 or (min(v.ravel()) >= lo and max(v.ravel()) < hi)),
                   "draw-range", lambda: "%s [%s,%s) shape %s" % (d, lo, hi, shape))


def do_record(ctx, name, n):
    from vlib import tfx
    tf = tfx.tf
    from tf_encrypted.operations.dataset import write_record
    for i in range(n):
        f = os.path.join(os.environ["VERIF_TMP"], "rec_%s_%d" % (ctx.case_id.replace("/", "_"), i))
        recs = [bytes(ctx.rng.integers(0, 256, size=int(ctx.rng.integers(0, 600))).astype(np.uint8))
                for _ in range(int(ctx.rng.integers(1, 12)))]
        for j, r in enumerate(recs):
            write_record(f, tf.constant(r), j > 0)
            ctx.event("sanitized_calls")
        got = [r.numpy() for r in tf.data.TFRecordDataset(f)]
        ctx.seen("record", len(recs))
        ctx.expect(got == recs, "record-bytes", "%d records written, %d read back" % (len(recs), len(got)))


def do_protocol(ctx, name, n):
    """the kernels as the protocol drives them (aliasing, reshapes, compiled functions)"""
    from vlib import aby3ops as A
    from vlib import tfx
    for cfg in ("l", "h"):
        p = tfx.aby3(cfg)
        for i in range(n // 2):
            x = ctx.rng.normal(size=(int(ctx.rng.integers(1, 4)), int(ctx.rng.integers(1, 5)))) * 10
            y = ctx.rng.normal(size=x.shape) * 10
            a = p.define_private_variable(x)
            b = p.define_private_variable(y)
            tol = 2e-2
            ctx.close(tfx.rev(a * b), x * y, tol, "protocol-mul")
            ctx.close(tfx.rev(p.matmul(a, p.transpose(b))), x @ y.T, tol * 4, "protocol-matmul")
            ctx.equal(tfx.rev(a > b).astype(int), (np.abs(x - y) > 1e-3) & (x > y), "protocol-greater")
            ctx.close(tfx.rev(p.reduce_max(a, axis=1)), x.max(1), tol, "protocol-max")
            ctx.event("sanitized_calls", 4)
            ctx.seen("protocol", cfg, x.shape)


def do_ill(ctx, name, n):
    r = subprocess.run([sys.executable, "-m", "vlib.illformed", name], cwd=HERE, capture_output=True, text=True, timeout=300)
    out = r.stdout + r.stderr
    ctx.event("ill_formed_calls")
    ctx.event("oracle_checks")
    ctx.seen("ill", name, r.returncode)
    bad = [l for l in out.splitlines() if "AddressSanitizer:" in l]
    if "reached the call" not in out:
        ctx.event("inconclusive")
        return
    if bad:
        ctx.violate("sanitizer:ill-formed", "%s: %s" % (name, bad[0]))
