"""Secure randomness kernels: range, uniformity, determinism by seed, freshness without."""
import subprocess
import sys

import numpy as np

SPEC = dict(
    rule="one evaluation = one draw (data type, bounds, shape, seeded or not, eager or compiled) whose every number is "
         "checked for range, or one statistic over a set of draws (bucket counts, repeated words, seed avalanche); "
         "distinct = distinct (kind, data type, bounds class, shape class)",
    assumptions=["statistics alarm at about 10 standard deviations"],
    min_events={"numbers_in_range_checked": 100000, "uniformity_tests": 40, "fresh_draws_compared": 50,
                "seed_bits_flipped": 100},
)
DT = ["int8", "int16", "int32", "int64", "int128"]
NB = {"int8": 8, "int16": 16, "int32": 32, "int64": 64, "int128": 128}


def cases(tier, seed):
    out = []
    n = 3 if tier == "quick" else 25
    for k in range(n):
        for d in DT:
            out.append(("range/%s/%d" % (d, k), ("range", d, 25)))
            out.append(("uniform/%s/%d" % (d, k), ("uniform", d, 6)))
    for d in DT:
        for k in range(1 if tier == "quick" else 6):
            out.append(("avalanche/%s/%d" % (d, k), ("avalanche", d, 0)))
            out.append(("stream/%s/%d" % (d, k), ("stream", d, 40000 if tier == "quick" else 400000)))
            out.append(("fresh/%s/%d" % (d, k), ("fresh", d, 0)))
    out.append(("processes/0", ("processes", "int64", 0)))
    out.append(("seeds/0", ("seeds", "int32", 0)))
    return out


def _lib():
    from vlib import tfx
    tfx.require_kernels()
    from tf_encrypted.operations import secure_random as sr
    return tfx, tfx.tf, sr


def bound(tf, d, v):
    from vlib import tfx
    if d == "int128":
        return tf.constant(tfx.limbs(np.asarray(v, dtype=object)), tf.int64)
    return tf.constant(v, getattr(tf, d))


def draw(d, shape, lo, hi, seed=None):
    """one draw -> object array of Python ints"""
    tfx, tf, sr = _lib()
    t = draw_t(d, shape, lo, hi, seed)
    return vals(d, t)


def draw_t(d, shape, lo, hi, seed=None):
    tfx, tf, sr = _lib()
    l, h = bound(tf, d, lo), bound(tf, d, hi)
    if d == "int128":
        if seed is None:
            return sr.i128_random_uniform(shape, l, h)
        return sr.i128_seeded_random_uniform(shape, seed, l, h)
    if seed is None:
        return sr.random_uniform(shape, minval=l, maxval=h, dtype=getattr(tf, d))
    return sr.seeded_random_uniform(shape, minval=l, maxval=h, dtype=getattr(tf, d), seed=seed)


def vals(d, t):
    from vlib import tfx
    v = t.numpy()
    if d == "int128":
        return np.asarray(tfx.big(v), dtype=object)
    return np.asarray(v.astype(object), dtype=object)


def bounds(rng, d):
    nb = NB[d]
    mn, mx = -(1 << (nb - 1)), (1 << (nb - 1)) - 1
    k = int(rng.integers(0, 9))
    big = int.from_bytes(rng.bytes(16), "little")
    if k == 0:
        return mn, mx, "full"
    if k == 1:
        lo = mn + big % (mx - mn)
        return lo, lo + 1, "single"
    if k == 2:
        return 0, 1 + big % 100, "small"
    if k == 3:
        return 0, mx, "half"
    if k == 4:
        s = int(rng.integers(1, nb - 1))
        return -(1 << s), (1 << s) if (1 << s) <= mx else mx, "pow2"
    if k == 5:  # about three quarters of the ring: one in four rejected, bias one to two without
        r = (3 << (nb - 2)) - int(rng.integers(0, 5))
        return mn + 1, mn + 1 + r, "threequarters"
    if k == 6:  # just above half: nearly half rejected
        r = (1 << (nb - 1)) + 1 + int(rng.integers(0, 5))
        return mn, mn + r, "justoverhalf"
    if k == 7:
        return -1 - big % min(1000, -mn - 1), min(1000, mx), "around0"
    a, b = sorted([mn + big % (mx - mn), mn + int.from_bytes(rng.bytes(16), "little") % (mx - mn)])
    return a, max(b, a + 1), "random"


def newseed(rng, tf):
    return tf.constant(rng.integers(-2**31, 2**31, size=8).astype(np.int32))


def run_case(ctx, case_id, payload):
    kind, d, n = payload
    globals()["run_" + kind](ctx, d, n)


def run_range(ctx, d, n):
    tfx, tf, sr = _lib()
    rng = ctx.rng
    for k in range(n):
        lo, hi, cls = bounds(rng, d)
        shape = [int(x) for x in rng.integers(1, 12, size=int(rng.integers(0, 4)))]
        if rng.integers(0, 6) == 0:
            shape = [int(rng.integers(500, 3000))]
        seeded = bool(rng.integers(0, 2))
        s = newseed(rng, tf) if seeded else None
        t = draw_t(d, tf.constant(shape, tf.int32) if shape else tf.zeros([0], tf.int32), lo, hi, s)
        v = vals(d, t)
        ctx.seen("range", d, cls, len(shape), seeded)
        ctx.expect(tuple(v.shape) == tuple(shape), "shape", "%s: %s want %s" % (d, v.shape, shape))
        ctx.event("numbers_in_range_checked", v.size)
        bad = [x for x in np.asarray(v).ravel() if not lo <= x < hi]
        ctx.expect(not bad, "out-of-range:" + d, lambda: "%s [%d, %d): drew %s" % (d, lo, hi, bad[:3]))
        if seeded:
            ctx.event("seeded_repeats")
            again = draw(d, shape or tf.zeros([0], tf.int32), lo, hi, s)
            ctx.expect(np.array_equal(again, v), "seed-not-deterministic:" + d, "%s bounds %d %d shape %s" % (d, lo, hi, shape))
            f = tf.function(lambda s: draw_t(d, shape or tf.zeros([0], tf.int32), lo, hi, s))
            g = vals(d, f(s))
            ctx.expect(np.array_equal(g, v), "seed-differs-in-graph:" + d, "%s bounds %d %d shape %s" % (d, lo, hi, shape))
            with_other = draw(d, shape or tf.zeros([0], tf.int32), lo, hi, newseed(rng, tf))
            if v.size >= 16 and hi - lo > 1000:
                ctx.expect(not np.array_equal(with_other, v), "seed-ignored:" + d, "two seeds, same numbers")


def run_uniform(ctx, d, n):
    tfx, tf, sr = _lib()
    rng = ctx.rng
    nb = NB[d]
    for k in range(n):
        mn, mx = -(1 << (nb - 1)), (1 << (nb - 1)) - 1
        c = k % 6
        if c == 0:
            lo, hi, cls = mn, mx, "full"
        elif c == 1:
            lo, hi, cls = mn + 1, mn + 1 + (3 << (nb - 2)), "threequarters"
        elif c == 2:
            lo, hi, cls = mn, mn + (1 << (nb - 1)) + (1 << (nb - 3)), "fiveeighths"
        elif c == 3:
            lo, hi, cls = -3, 4, "seven"
        elif c == 4:
            lo, hi, cls = 0, 2, "coin"
        else:
            lo, hi, cls = bounds(rng, d)
            if hi - lo < 2:
                continue
        r = hi - lo
        seeded = bool(rng.integers(0, 2))
        N = 6000
        if seeded:
            v = draw(d, [N], lo, hi, newseed(rng, tf))
        else:
            v = draw(d, [N], lo, hi)
        ctx.seen("uniform", d, cls, seeded)
        ctx.event("numbers_in_range_checked", N)
        B = int(min(r, 16))
        off = [int(x) - lo for x in v]
        if any(not 0 <= o < r for o in off):
            ctx.violate("out-of-range:" + d, "bounds %d %d" % (lo, hi))
            continue
        cnt = np.bincount([o * B // r for o in off], minlength=B)
        size = np.array([-(-(b + 1) * r // B) - -(-b * r // B) for b in range(B)], dtype=object)
        exp = np.array([float(x) for x in size * N]) / float(r)
        chi(ctx, cnt, exp, "not-uniform:" + d, "%s [%d,%d) seeded=%s buckets" % (d, lo, hi, seeded))
        if r > 64:
            # low bits as well: the generator must not be coarse
            q = 8
            full = r // q * q
            low = np.bincount([o % q for o in off if o < full], minlength=q)
            chi(ctx, low, np.full(q, low.sum() / q), "not-uniform-low:" + d, "%s [%d,%d) seeded=%s low bits" % (d, lo, hi, seeded))
        if r <= 16:
            ctx.expect((cnt > 0).all(), "value-unreachable:" + d, "%s of [%d,%d)" % (cnt, lo, hi))
        # successive numbers are independent: upper/lower half pairs
        h = np.array([1 if 2 * o >= r else 0 for o in off])
        if r % 2 == 0:
            pair = np.bincount(h[:-1:2] * 2 + h[1::2], minlength=4)
            chi(ctx, pair, np.full(4, pair.sum() / 4), "not-independent:" + d, "%s [%d,%d) pairs" % (d, lo, hi))


def chi(ctx, cnt, exp, mech, detail):
    ctx.event("uniformity_tests")
    k = len(cnt) - 1
    if k < 1:
        return
    stat = float(((cnt - exp) ** 2 / exp).sum())
    ctx.expect(stat < k + 10 * (2 * k) ** .5 + 30, mech, "%s: chi2 %.1f with %d degrees, counts %s" % (detail, stat, k, list(cnt)))


def run_avalanche(ctx, d, n):
    """every bit of the 256-bit seed matters, and changes the whole stream"""
    tfx, tf, sr = _lib()
    rng = ctx.rng
    nb = NB[d]
    lo, hi = -(1 << (nb - 1)), (1 << (nb - 1)) - 1
    base = rng.integers(-2**31, 2**31, size=8).astype(np.int32)
    v0 = draw(d, [64], lo, hi, tf.constant(base))
    for b in range(0, 256, 3 if ctx.tier == "quick" else 1):
        s = base.copy().view(np.uint32)
        s[b // 32] ^= np.uint32(1 << (b % 32))
        v = draw(d, [64], lo, hi, tf.constant(s.view(np.int32)))
        same = int((v == v0).sum())
        ctx.event("seed_bits_flipped")
        ctx.expect(same <= (16 if nb == 8 else 3), "seed-bit-ignored:" + d, "bit %d: %d of 64 numbers unchanged" % (b, same))
    ctx.seen("avalanche", d)


def run_stream(ctx, d, n):
    """no block of the stream is used twice: also not for rejected numbers"""
    tfx, tf, sr = _lib()
    rng = ctx.rng
    nb = NB[d]
    if nb < 32:
        # short words: look for repeated windows of 16 bytes
        w = 128 // nb
    else:
        w = {32: 3, 64: 1, 128: 1}[nb]
    mn, mx = -(1 << (nb - 1)), (1 << (nb - 1)) - 1
    for lo, hi, cls in ((mn, mx, "full"), (mn, mn + (1 << (nb - 1)) + 3, "half-rejected"),
                        (mn, mn + (3 << (nb - 2)), "quarter-rejected")):
        for seeded in (True, False):
            N = n if nb != 128 else n // 4
            t = draw_t(d, [N], lo, hi, newseed(rng, tf) if seeded else None).numpy()
            b = t.reshape(N, -1)
            if nb < 64:
                win = np.lib.stride_tricks.sliding_window_view(b[:, 0], w)
                keys = {x.tobytes() for x in win}
                tot = len(win)
            else:
                keys = {x.tobytes() for x in b}
                tot = N
            ctx.event("words_checked_for_repetition", tot)
            ctx.seen("stream", d, cls, seeded)
            # expected accidental repetitions are far below one, except for 96-bit windows with reduced entropy
            ctx.expect(tot - len(keys) <= 2, "stream-repeats:" + d, "%s seeded=%s: %d of %d windows of %d numbers repeated" % (
                cls, seeded, tot - len(keys), tot, w))
    # large unseeded draws are produced in parallel pieces
    N = 300000
    t = draw_t(d, [N], mn, mx).numpy().reshape(N, -1)
    win = t if nb >= 64 else np.lib.stride_tricks.sliding_window_view(t[:, 0], w)[::7]
    keys = {x.tobytes() for x in win}
    ctx.event("words_checked_for_repetition", len(win))
    ctx.expect(len(win) - len(keys) <= 2, "pieces-repeat:" + d, "%d repeated windows in a draw of %d" % (len(win) - len(keys), N))


def run_fresh(ctx, d, n):
    tfx, tf, sr = _lib()
    nb = NB[d]
    mn, mx = -(1 << (nb - 1)), (1 << (nb - 1)) - 1
    seen = {}

    def put(t, what):
        k = t.numpy().tobytes()
        ctx.event("fresh_draws_compared")
        ctx.expect(k not in seen, "draw-repeated:" + d, "%s equals %s" % (what, seen.get(k)))
        seen[k] = what
    for k in range(8):
        put(draw_t(d, [32], mn, mx), "eager draw %d" % k)

    @tf.function
    def f():
        return draw_t(d, [32], mn, mx), draw_t(d, [32], mn, mx), draw_t(d, [32], mn, mx)

    for k in range(4):
        for i, t in enumerate(f()):
            put(t, "compiled draw %d of call %d" % (i, k))

    @tf.function
    def g(k):
        acc = tf.TensorArray(tf.int64 if d == "int128" else getattr(tf, d), size=4)
        for i in tf.range(4):
            acc = acc.write(i, draw_t(d, [32], mn, mx))
        return acc.stack()
    for k in range(2):
        for i, t in enumerate(tf.unstack(g(tf.constant(k)))):
            put(t, "draw %d of compiled loop %d" % (i, k))
    ctx.seen("fresh", d)


CHILD = """
import tfe_tf_compat
import tf_encrypted as tfe, tensorflow as tf
from tf_encrypted.operations import secure_random as sr
print("OUT", sr.secure_seed().numpy().tolist(), sr.random_uniform([8], minval=-2**40, maxval=2**40, dtype=tf.int64).numpy().tolist())
"""


def run_processes(ctx, d, n):
    ps = [subprocess.Popen([sys.executable, "-c", CHILD], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True) for _ in range(2)]
    outs = []
    for p in ps:
        o, e = p.communicate(timeout=120)
        line = [x for x in o.splitlines() if x.startswith("OUT")]
        ctx.expect(line, "child-failed", e[-300:])
        outs += line
    ctx.event("processes_compared", len(outs))
    ctx.expect(len(set(outs)) == len(outs), "processes-repeat", "%s" % outs)
    ctx.seen("processes")


def run_seeds(ctx, d, n):
    tfx, tf, sr = _lib()
    N = 600
    s = np.stack([sr.secure_seed().numpy() for _ in range(N // 2)])

    @tf.function
    def f():
        return sr.secure_seed(), sr.secure_seed()
    g = np.stack([x.numpy() for _ in range(N // 4) for x in f()])
    s = np.concatenate([s, g])
    ctx.event("fresh_draws_compared", N)
    ctx.expect(s.shape == (N, 8), "seed-shape", str(s.shape))
    for w in range(8):
        ctx.expect(len(set(s[:, w].tolist())) >= N - 1, "seed-word-repeats", "word %d: %d distinct of %d" % (w, len(set(s[:, w].tolist())), N))
    bits = np.unpackbits(np.ascontiguousarray(s).view(np.uint8), axis=1)
    cnt = bits.sum(axis=0).astype(int)
    # sd of 600 coins is 12
    bad = np.abs(cnt - N // 2) > 100
    ctx.expect(not bad.any(), "seed-bit-biased", "%s" % np.nonzero(bad)[0][:5])
    ctx.event("uniformity_tests", 256)
    ctx.seen("seeds")
