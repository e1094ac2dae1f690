"""Oracles over the players' recorded views.

ab():     the view of a player who must not learn a secret has the same shape and
          the same distribution (bit by bit) whatever the secret is.
attack(): no sum, difference or exclusive or of up to three values in a player's
          view equals the secret.
"""
import numpy as np


def words(v):
    """(n, nbits) bit matrix of an integer / bool / float array"""
    v = np.ascontiguousarray(v)
    if v.dtype == bool:
        return v.reshape(-1, 1)
    if v.size == 0:
        return np.zeros((0, 8), dtype=np.uint8)
    b = v.reshape(-1).view(np.uint8).reshape(v.size, v.dtype.itemsize)
    return np.unpackbits(b, axis=1, bitorder="little")


def incoming(trace, device):
    """what a player computed or received: [(label, array)]"""
    out = []
    for e in trace.events:
        if e.device != device:
            continue
        for k, v in enumerate(e.ins or ()):
            if v is not None and e.in_dev[k] != device:
                out.append(("%s.received%d" % (e.op, k), v))
        for k, v in enumerate(e.outs or ()):
            if v is not None:
                out.append(("%s.out%d" % (e.op, k), v))
    return out


def means(view):
    """mean of each bit over the elements, and how often each place of the last axis is zero"""
    out = []
    for _, v in view:
        m = words(v).mean(axis=0) if v.size else np.zeros(1)
        if v.ndim > 1 and 4 <= v.shape[-1] <= 160 and v.size:
            m = np.concatenate([m, (v.reshape(-1, v.shape[-1]) == 0).mean(axis=0)])
        out.append(m)
    return out


class Acc:
    def __init__(self):
        self.n, self.s, self.q = 0, None, None

    def add(self, ms):
        if self.s is None:
            self.s = [m.copy() for m in ms]
            self.q = [m * m for m in ms]
        else:
            for s, q, m in zip(self.s, self.q, ms):
                s += m
                q += m * m
        self.n += 1

    def merge(self, o):
        self.n += o.n
        self.s = [x + y for x, y in zip(self.s, o.s)]
        self.q = [x + y for x, y in zip(self.q, o.q)]

    def pick(self, idx):
        self.s = [self.s[i] for i in idx]
        self.q = [self.q[i] for i in idx]

    def stat(self, i):
        m = self.s[i] / self.n
        return m, np.maximum(self.q[i] / self.n - m * m, 0) * self.n / max(1, self.n - 1)


def tstat(a, b, i):
    ma, va = a.stat(i)
    mb, vb = b.stat(i)
    d = np.abs(ma - mb)
    se = np.sqrt(va / a.n + vb / b.n)
    with np.errstate(divide="ignore", invalid="ignore"):
        t = np.where(d > 1e-12, d / np.where(se > 1e-12, se, 1e-30), 0.0)
    return t


def ab(ctx, run_a, run_b, parties, what, n1=12, n2=48):
    """run_x() -> Trace.  Reports at most one violation per party."""
    def sig(view):
        return [(l, v.shape, str(v.dtype)) for l, v in view]

    def collect(n, only=None):
        accs = {p: (Acc(), Acc()) for p in parties}
        # random order: a value that depends on the position in the history (a
        # nonce) must not look as if it depended on the secret
        for side in ctx.rng.permutation([0, 1] * n):
            for run in ((run_a, run_b)[side],):
                tr = run()
                ctx.event("traced_runs")
                ctx.event("traced_operations", len(tr.events))
                for p in parties:
                    view = incoming(tr, p)
                    s = sig(view)
                    if p not in sigs:
                        sigs[p] = s
                    elif sigs[p] != s and p not in bad:
                        bad.add(p)
                        k = next((i for i, (x, y) in enumerate(zip(sigs[p], s)) if x != y), min(len(s), len(sigs[p])))
                        ctx.violate("trace-depends-on-secret:" + what, "player device %d: step %d differs: %s / %s" % (
                            p, k, sigs[p][k:k + 1], s[k:k + 1]))
                    if p in bad:
                        continue
                    if only is not None:
                        view = [view[i] for i in only[p]]
                    accs[p][side].add(means(view))
        return accs
    sigs, bad = {}, set()
    run_a()
    acc = collect(n1)
    suspects = {}
    for p in parties:
        if p in bad:
            continue
        a, b = acc[p]
        ctx.event("view_tensors", len(a.s))
        ctx.event("oracle_checks", sum(len(s) for s in a.s))
        ts = [(-float(tstat(a, b, i).max()), i) for i in range(len(a.s))]
        suspects[p] = [i for t, i in sorted(ts) if t < -5.0][:60]
    if not any(suspects.values()):
        return
    # fresh runs for the suspects only; most were chance and drop out at once
    tot = None
    done = 0
    while done < n2 and any(suspects.values()):
        k = min(8, n2 - done)
        acc = collect(k, suspects)
        done += k
        if tot is None:
            tot = acc
        else:
            for p in parties:
                if p not in bad and suspects.get(p):
                    for side in (0, 1):
                        tot[p][side].merge(acc[p][side])
        for p in parties:
            if p in bad or not suspects.get(p):
                continue
            a, b = tot[p]
            keep = [j for j in range(len(suspects[p])) if (tstat(a, b, j) > (4.0 if done < n2 else 9.0)).any()]
            ctx.event("suspects_rechecked", len(suspects[p]))
            suspects[p] = [suspects[p][j] for j in keep]
            for side in (0, 1):
                tot[p][side].pick(keep)
    for p in parties:
        if p in bad or not suspects.get(p):
            continue
        a, b = tot[p]
        i, t = suspects[p][0], tstat(a, b, 0)
        k = int(np.argmax(t))
        ctx.violate("view-depends-on-secret:" + what,
                    "player device %d, value %s shape %s: statistic %d has mean %.3f / %.3f (t=%.3g, n=%d)" % (
                        p, sigs[p][i][0], sigs[p][i][1], k, a.stat(0)[0][k], b.stat(0)[0][k], t[k], a.n))


# ------------------------------------------------------------- linear attack
def _u64(v):
    """array -> uint64 vector modulo 2^64 (low limb of 128-bit), or None"""
    v = np.asarray(v)
    if v.dtype == np.int64:
        return v.reshape(-1).view(np.uint64)
    return None


def entropy_bits(sec):
    return sum(max(1, int(abs(int(a))).bit_length()) for a in set(int(a) for a in np.ravel(sec)))


def attack(ctx, view, secret, what, limbs, who, kinds=("add", "xor"), known=()):
    """secret: object array of ring ints.  limbs: the view's tensors are [...,2] int64."""
    sec = [int(a) for a in np.ravel(secret)]
    n = len(sec)
    if n < 3 or entropy_bits(sec) < 90:
        return False
    s = np.array([a % (1 << 64) for a in sec], dtype=np.uint64)
    vecs, labels = [], []
    seen = set()
    for l, v in view:
        v = np.asarray(v)
        if limbs and v.ndim and v.shape[-1] == 2 and v.size == 2 * n:
            v = v[..., 0]
        if v.dtype != np.int64 or v.size != n:
            continue
        u = np.ascontiguousarray(v).reshape(-1).view(np.uint64)
        key = u.tobytes()
        if key in seen:
            continue
        seen.add(key)
        vecs.append(u.copy())
        labels.append(l)
    ctx.event("attack_values", len(vecs))
    if not vecs:
        return False
    V = np.stack(vecs)
    hit = None
    if "add" in kinds:
        rng = np.random.default_rng(7)
        r = rng.integers(0, 1 << 63, size=n, dtype=np.uint64) * np.uint64(2) + np.uint64(1)
        with np.errstate(over="ignore"):
            h = (V * r).sum(axis=1, dtype=np.uint64)
            hs = (s * r).sum(dtype=np.uint64)
            hit = _search(h, hs, np.add, True)
            ctx.event("oracle_checks", len(h))
        if hit is not None:
            with np.errstate(over="ignore"):
                tot = np.zeros(n, dtype=np.uint64)
                for i, sg in hit:
                    tot = tot + V[i] if sg > 0 else tot - V[i]
            if np.array_equal(tot, s):
                ctx.violate("secret-in-view:" + what, "%s can compute the secret as a sum of %s" % (
                    who, [(labels[i], sg) for i, sg in hit]))
                return True
    if "xor" in kinds:
        def fold(U):
            out = np.zeros(U.shape[0], dtype=np.uint64)
            for i in range(n):
                k = np.uint64((i * 17) % 64)
                c = U[:, i]
                rot = (c << k) | (c >> np.uint64((64 - int(k)) % 64)) if int(k) else c
                out ^= rot
            return out
        h = fold(V)
        hs = fold(s.reshape(1, -1))[0]
        hit = _search(h, hs, np.bitwise_xor, False)
        if hit is not None:
            tot = np.zeros(n, dtype=np.uint64)
            for i, _ in hit:
                tot = tot ^ V[i]
            if np.array_equal(tot, s):
                ctx.violate("secret-in-view:" + what, "%s can compute the secret as an exclusive or of %s" % (
                    who, [labels[i] for i, _ in hit]))
                return True
    return False


def _search(h, hs, op, signed):
    """indices (with signs) of up to three entries combining to hs"""
    m = len(h)
    if m > 1500:
        h = h[:1500]
        m = 1500
    if signed:
        H = np.concatenate([h, np.uint64(0) - h])
    else:
        H = h
    dec = lambda i: (int(i) % m, 1 if i < m else -1)
    w = np.nonzero(H == hs)[0]
    if len(w):
        return [dec(w[0])]
    order = np.argsort(H, kind="stable")
    S = H[order]
    inv = (lambda a: hs - a) if signed else (lambda a: hs ^ a)

    def find(vals):
        p = np.minimum(np.searchsorted(S, vals), len(S) - 1)
        k = np.nonzero(S[p] == vals)[0]
        return (k, order[p[k]]) if len(k) else (k, k)
    k, j = find(inv(H))
    for a, b in zip(k, j):
        if dec(a)[0] != dec(b)[0]:
            return [dec(a), dec(b)]
    for a in range(len(H)):
        pair = op(H[a], H)
        k, j = find(inv(pair))
        for b, c in zip(k, j):
            if len({dec(a)[0], dec(b)[0], dec(c)[0]}) == 3:
                return [dec(a), dec(b), dec(c)]
    return None


def attack_mod(ctx, view, secret, what, m, who):
    """no sum or difference of up to three values of the view is the secret modulo m"""
    sec = [int(a) % m for a in np.ravel(secret)]
    n = len(sec)
    if n < 12 or len(set(sec)) < 6:
        return False
    s = np.array(sec, dtype=np.int64)
    vecs, labels, seen = [], [], set()
    for l, v in view:
        v = np.asarray(v)
        if v.size != n or v.dtype.kind not in "iu":
            continue
        u = v.reshape(-1).astype(np.int64) % m
        k = u.tobytes()
        if k in seen or not u.any():
            continue
        seen.add(k)
        vecs.append(u)
        labels.append(l)
    vecs, labels = vecs[:500], labels[:500]
    ctx.event("attack_values", len(vecs))
    if not vecs:
        return False
    V = np.stack(vecs)
    R = np.random.default_rng(11).integers(1, m, size=(n, 6))
    h, hs = (V @ R) % m, (s @ R) % m
    k = len(h)
    H = np.concatenate([h, (-h) % m])
    w = np.array([m ** i for i in range(6)], dtype=object)
    base = 2048
    pw = np.array([base ** i for i in range(5)], dtype=np.int64)
    pack = lambda a: a[..., :5] @ pw
    P = pack(H)
    order = np.argsort(P)
    S = P[order]
    ctx.event("oracle_checks", k)

    def find(t):
        q = pack(t % m)
        p = np.minimum(np.searchsorted(S, q), len(S) - 1)
        return [(i, order[p[i]]) for i in np.nonzero(S[p] == q)[0]]
    del w

    def check(ids):
        tot = sum((V[i % k] if i < k else -V[i % k]) for i in ids) % m
        if np.array_equal(tot, s) and len({i % k for i in ids}) == len(ids):
            ctx.violate("secret-in-view:" + what, "%s can compute the secret (modulo %d) as a sum of %s" % (
                who, m, [(labels[i % k], 1 if i < k else -1) for i in ids]))
            return True
        return False
    for i, j in find(hs[None, :]):
        if check([j]):
            return True
    for i, j in find(hs[None, :] - H):
        if check([i, j]):
            return True
    for a in range(len(H)):
        for i, j in find(hs[None, :] - H[a][None, :] - H):
            if check([a, i, j]):
                return True
    return False
