"""Event log of everything that is executed (eagerly), and where.

With every player on its own logical device, the log shows for each executed
TensorFlow operation which player executed it, what it was given (including what
had to be fetched from another player) and what it produced: each player's view.
"""
import numpy as np

from vlib import tfx
from tensorflow.python.framework import op_callbacks

DRAWS = ("SecureSeededRandomUniform", "I128SecureSeededRandomUniform")


def dev(t):
    d = getattr(t, "device", "") or ""
    i = d.rfind("CPU:")
    return int(d[i + 4:]) if i >= 0 else -1


class Event:
    __slots__ = ("op", "device", "ins", "outs", "in_dev", "i")

    def __init__(self, op, device, ins, outs, in_dev, i):
        self.op, self.device, self.ins, self.outs, self.in_dev, self.i = op, device, ins, outs, in_dev, i


def value(t):
    try:
        if t.dtype == tfx.tf.resource or t.dtype == tfx.tf.string:
            return None
        return t.numpy()
    except Exception:
        return None


class Trace:
    def __init__(self, values=True):
        self.events, self.values = [], values
        self.graph_ops = 0

    def _cb(self, op_type, inputs, attrs, outputs, op_name=None, graph=None):
        if graph is not None:
            self.graph_ops += 1
            return None
        op = op_type.decode() if isinstance(op_type, bytes) else str(op_type)
        d = dev(outputs[0]) if outputs else (dev(inputs[0]) if inputs else -1)
        keep = self.values or op in DRAWS or op == "SecureSeed"
        self.events.append(Event(
            op, d,
            [value(t) for t in inputs] if keep else None,
            [value(t) for t in outputs] if keep else None,
            [dev(t) for t in inputs], len(self.events)))
        return None

    def __enter__(self):
        op_callbacks.add_op_callback(self._cb)
        return self

    def __exit__(self, *e):
        op_callbacks.remove_op_callback(self._cb)

    def draws(self):
        return [e for e in self.events if e.op in DRAWS]

    def transfers(self):
        """(event, index of input, sending device, receiving device)"""
        for e in self.events:
            for k, d in enumerate(e.in_dev):
                if d != e.device:
                    yield e, k, d, e.device

    def view(self, device):
        """every value the player on `device` was given or computed, in order"""
        out = []
        for e in self.events:
            if e.device == device:
                for k, v in enumerate(e.ins or ()):
                    if v is not None:
                        out.append((e.op, "in%d" % k, v))
                for k, v in enumerate(e.outs or ()):
                    if v is not None:
                        out.append((e.op, "out%d" % k, v))
        return out


def device_protocol(make, names):
    """Protocol whose players each own a logical device; device 0 is the driver."""
    cfg = tfx.DeviceConfig(["driver"] + list(names))
    tfx.tfe.set_config(cfg)
    tfx.clear_cache()
    p = make()
    tfx.tfe.set_protocol(p)
    return p, {pl.name: pl.index for pl in cfg.players}


def seed_key(e):
    """the seed input of a draw: the non-scalar integer vector after the shape"""
    return np.asarray(e.ins[1]).tobytes()


class DrawMonitor:
    """One-time use of pseudo-random streams.

    add(trace) is called once per protocol step; a seed may be expanded at most
    once per player, always to the same numbers at every player, and never again
    in a later step."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.old = {}
        self.n = 0

    def add(self, trace, what):
        per = {}
        for e in trace.draws():
            per.setdefault(seed_key(e), []).append(e)
        for s, es in per.items():
            self.n += 1
            self.ctx.event("streams_monitored")
            if s in self.old:
                self.ctx.violate("mask-stream-reused", "%s expands a stream already used by %s (players %s)" % (
                    what, self.old[s], sorted({e.device for e in es})))
            devs = [e.device for e in es]
            if len(set(devs)) != len(devs):
                self.ctx.violate("mask-stream-reused-in-step", "%s: player device %s expands one stream %d times (shapes %s)" % (
                    what, devs, len(devs), [e.outs[0].shape for e in es]))
            elif len(es) > 1:
                self.ctx.event("common_randomness_checked")
                a = es[0].outs[0]
                for b in es[1:]:
                    if a.shape != b.outs[0].shape or not np.array_equal(a, b.outs[0]):
                        self.ctx.violate("common-randomness-differs", "%s: shapes %s %s" % (what, a.shape, b.outs[0].shape))
            self.old[s] = what
