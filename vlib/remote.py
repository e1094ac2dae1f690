"""Real player processes on the loopback network, and the client computing over them.

    python -m vlib.remote CONFIG JOURNAL SEED TIER SECONDS MASTER PLAN
"""
import ctypes
import json
import os
import signal
import socket
import subprocess
import sys
import time
from collections import OrderedDict

PLAYER = "import tfe_tf_compat, runpy, sys; sys.argv = ['player'] + sys.argv[1:]; runpy.run_module('tf_encrypted.player', run_name='__main__')"


def _die_with_parent():
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)


def free_ports(n):
    socks = []
    for _ in range(n):
        s = socket.socket()
        s.bind(("127.0.0.1", 0))
        socks.append(s)
    ports = [s.getsockname()[1] for s in socks]
    for s in socks:
        s.close()
    return ports


class Cluster:
    """one process per player, started by the documented entry point"""

    def __init__(self, names, tmp):
        self.names, self.tmp, self.procs = list(names), tmp, {}

    def start(self, seconds=150):
        from vlib.tfx import tfe
        self.hosts = OrderedDict((n, "127.0.0.1:%d" % p) for n, p in zip(self.names, free_ports(len(self.names))))
        self.config = os.path.join(self.tmp, "config.json")
        tfe.RemoteConfig(self.hosts).save(self.config)
        env = dict(os.environ)
        env.pop("VERIF_DEVICES", None)
        for n in self.names:
            log = open(os.path.join(self.tmp, "player-%s.log" % n), "wb")
            self.procs[n] = subprocess.Popen([sys.executable, "-c", PLAYER, n, "--config", self.config], env=env, stdout=log,
                                             stderr=subprocess.STDOUT, preexec_fn=_die_with_parent)
        end = time.time() + seconds
        waiting = set(self.names)
        while waiting and time.time() < end:
            for n in list(waiting):
                if self.procs[n].poll() is not None:
                    return False
                host, port = self.hosts[n].split(":")
                try:
                    socket.create_connection((host, int(port)), 1).close()
                    waiting.discard(n)
                except OSError:
                    pass
            time.sleep(0.2)
        return not waiting

    def logs(self):
        out = []
        for n in self.names:
            with open(os.path.join(self.tmp, "player-%s.log" % n), "rb") as f:
                out.append("%s: %s" % (n, f.read()[-400:].decode("utf8", "replace")))
        return " | ".join(out)

    def dead(self):
        return [(n, p.returncode) for n, p in self.procs.items() if p.poll() is not None]

    def stop(self):
        for p in self.procs.values():
            p.kill()
        for p in self.procs.values():
            p.wait()


def run_client(cluster, journal, seed, tier, seconds, master, plan, quiet):
    """exit code, or None when nothing was reported for `quiet` seconds"""
    env = dict(os.environ)
    env.pop("VERIF_DEVICES", None)
    log = open(journal + ".log", "wb")
    p = subprocess.Popen([sys.executable, "-m", "vlib.remote", cluster.config, journal, str(seed), tier, str(seconds), master, plan],
                         env=env, stdout=log, stderr=subprocess.STDOUT, preexec_fn=_die_with_parent,
                         cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    size, last = -1, time.time()
    while p.poll() is None:
        time.sleep(0.2)
        s = os.path.getsize(journal) if os.path.exists(journal) else -1
        if s != size:
            size, last = s, time.time()
        if time.time() - last > quiet or cluster.dead():
            p.kill()
            p.wait()
            return None
    return p.returncode


# ------------------------------------------------------------------ client
def device(s):
    return s.replace("/device:CPU:0", "").split("/job:")[-1]


class Placement:
    """each share of every private tensor constructed eagerly is on its own server"""

    def __init__(self):
        from tf_encrypted.protocol.aby3 import aby3_tensors as at
        from tf_encrypted.protocol.pond import pond as pp
        self.classes = {at.ABY3PrivateTensor: self.aby3, pp.PondPrivateTensor: self.pond}
        self.n, self.bad, self.graph = 0, [], 0

    def install(self):
        for cls, f in self.classes.items():
            def init(s, *a, _o=cls.__init__, _f=f, **k):
                _o(s, *a, **k)
                try:
                    _f(s)
                except (AttributeError, NotImplementedError, TypeError, ValueError):
                    self.graph += 1
            cls.__init__ = init
        return self

    def look(self, share, server, t):
        parts = share.backing if isinstance(getattr(share, "backing", None), (list, tuple)) else [share.value]
        for v in parts:
            d = v.device
            if not d or not hasattr(v, "numpy"):
                self.graph += 1
                continue
            self.n += 1
            if device(d) != device(server.device_name):
                from vlib import tfx
                self.bad.append("%s of %s instead of %s in %s" % (d, type(t).__name__, server.device_name, tfx.ShareMonitor._where()))

    def aby3(self, t):
        for pair, s in zip(t.unwrapped, t.prot.servers):
            for share in pair:
                self.look(share, s, t)

    def pond(self, t):
        for share, s in zip(t.unwrapped, (t.prot.server_0, t.prot.server_1)):
            self.look(share, s, t)


class NoMonitor:
    def __init__(self, *a):
        self.bad = []

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def report(self, ctx, *a):
        pass


def client(config, journal, seed, tier, seconds, master, plan):
    import importlib

    import numpy as np

    from vlib import pondops as B
    from vlib import tfx
    from vlib.core import run_one
    tfe = tfx.tfe

    class Remote(tfe.RemoteConfig):
        """unknown players - owners of inputs, receivers - live with the client's own host"""

        def get_player(self, x):
            p = super().get_player(x)
            return p if p is not None else super().get_player(master)

    base = tfe.RemoteConfig.load(config)
    cfg = Remote(base.hostmap)
    cfg.connect_servers()

    def same(*a, debug_mode=False, **k):
        cfg.set_debug_mode(debug_mode)
        return cfg
    tfx.LocalConfig = same
    tfx.ShareMonitor.__enter__ = lambda s: s
    tfx.ShareMonitor.__exit__ = lambda s, *a: None
    tfx.ShareMonitor.report = lambda s, ctx, *a: None
    B.Monitor = NoMonitor
    place = Placement().install()

    rng = np.random.default_rng(int(seed))
    todo = []
    for prop in plan.split(","):
        mod = importlib.import_module("checks." + prop)
        cs = mod.cases("quick", int(seed))
        seen, pick = {}, []
        for i in rng.permutation(len(cs)):  # a case of every kind before a second one of any
            cid, payload = cs[int(i)]
            kind = cid.split("/")[0]
            if kind == "op_private_compare":
                continue  # its inputs are built by hand, on one device
            seen[kind] = seen.get(kind, 0) + 1
            if prop in ("C03", "C04", "C05", "C06", "C14", "C15", "C17"):
                payload = payload[:2] + (2,)
            pick.append((seen[kind], float(rng.random()), prop, cid, payload, mod))
        todo.append(sorted(pick, key=lambda t: t[:2]))
    order = [c for group in zip(*[t * (1 + max(map(len, todo)) // len(t)) for t in todo]) for c in group]
    end = time.time() + float(seconds)
    with open(journal, "a") as j:
        j.write("connected\n")
        j.flush()
        for n, (_, _, prop, cid, payload, mod) in enumerate(order):
            if time.time() > end:
                break
            place.n, place.bad = 0, []
            r = run_one(mod, prop, tier, int(seed) * 1000 + n, cid, payload)
            r.update(prop=prop, sigs=[str(s) for s in r["sigs"]], placed=place.n, misplaced=place.bad[:3])
            j.write(json.dumps(r) + "\n")
            j.flush()
        j.write("done\n")
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    client(*sys.argv[1:])
