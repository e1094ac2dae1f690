"""Verdict discipline shared by all checks.

A check module defines
    SPEC   = dict(technique=..., rule=..., assumptions=[...], min_events={...})
    def cases(tier, seed) -> list[(case_id, payload)]
    def run_case(ctx, case_id, payload)
The parent process (vlib.main) shards the cases over worker processes; a worker
records, for every case, the monitor events it observed and the violations its
oracles raised, in a JSON-lines journal that survives a crash of the worker.
"""
import hashlib
import json
import os
import time
import traceback

import numpy as np


class Ctx:
    """Passed to run_case: counters, oracles' verdicts, deterministic randomness."""

    def __init__(self, prop, tier, seed, case_id):
        self.prop, self.tier, self.seed, self.case_id = prop, tier, seed, case_id
        h = hashlib.sha256(("%s|%s|%s" % (prop, seed, case_id)).encode()).digest()
        self.rng = np.random.default_rng(int.from_bytes(h[:8], "little"))
        self.violations = []  # (mechanism, detail)
        self.events = {}
        self.evals = 0
        self.sigs = set()
        self.sample = None

    # -- counting -------------------------------------------------------
    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + int(n)

    def seen(self, *sig, n=1):
        """One evaluation, with a signature making it distinct."""
        self.evals += n
        self.sigs.add(hashlib.sha1(repr(sig).encode()).hexdigest()[:16])
        if self.sample is None:
            self.sample = " ".join(str(s) for s in sig)[:400]

    # -- verdicts -------------------------------------------------------
    def violate(self, mech, detail):
        self.violations.append((str(mech), str(detail)[:2000]))

    def expect(self, cond, mech, detail=""):
        self.event("oracle_checks")
        if not bool(cond):
            self.violate(mech, detail() if callable(detail) else detail)
            return False
        return True

    def equal(self, got, want, mech, detail=""):
        """Exact array equality (shape and values)."""
        got, want = np.asarray(got), np.asarray(want)
        self.event("oracle_checks")
        self.event("values_compared", max(1, want.size))
        if got.shape != want.shape:
            self.violate(mech, "shape %s != %s %s" % (got.shape, want.shape, detail))
            return False
        bad = got != want
        bad = np.asarray(bad)
        if bad.any():
            i = tuple(np.argwhere(bad)[0]) if bad.ndim else ()
            self.violate(
                mech,
                "%d of %d values differ; first at %s: got %r want %r %s"
                % (bad.sum(), bad.size, i, got[i], want[i], detail),
            )
            return False
        return True

    def close(self, got, want, tol, mech, detail=""):
        """|got-want| <= tol elementwise (tol may be an array)."""
        got = np.asarray(got, dtype=np.float64)
        want = np.asarray(want, dtype=np.float64)
        self.event("oracle_checks")
        self.event("values_compared", max(1, want.size))
        if got.shape != want.shape:
            self.violate(mech, "shape %s != %s %s" % (got.shape, want.shape, detail))
            return False
        err = np.abs(got - want)
        tol = np.broadcast_to(np.asarray(tol, dtype=np.float64), err.shape)
        bad = ~(err <= tol)
        if bad.any():
            i = tuple(np.argwhere(bad)[0]) if bad.ndim else ()
            self.violate(
                mech,
                "%d of %d values out of tolerance; first at %s: got %r want %r tol %r; max err %r %s"
                % (bad.sum(), bad.size, i, got[i], want[i], tol[i], err.max(), detail),
            )
            return False
        return True

    def result(self):
        return dict(
            case=self.case_id,
            violations=self.violations,
            events=self.events,
            evals=self.evals,
            sigs=sorted(self.sigs),
            sample=self.sample,
        )


def run_one(mod, prop, tier, seed, case_id, payload, journal=None):
    ctx = Ctx(prop, tier, seed, case_id)
    t = time.time()
    try:
        mod.run_case(ctx, case_id, payload)
    except Inconclusive as e:
        ctx.event("inconclusive")
        ctx.inconclusive = str(e)
    except Exception as e:  # the code under test must not raise on supported input
        tb = traceback.format_exc().splitlines()
        where = ""
        for line in tb:
            if '/repo/' in line:
                where = line.strip()
        ctx.violate(
            "raised:" + type(e).__name__,
            "%s | %s | %s" % (str(e)[:600], where, " / ".join(x.strip() for x in tb[-7:])[:900]),
        )
    r = ctx.result()
    r["wall"] = round(time.time() - t, 3)
    if journal is not None:
        journal.write(json.dumps(r) + "\n")
        journal.flush()
    return r


class Inconclusive(Exception):
    pass
