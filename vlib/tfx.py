"""Access to the code under test: import, protocol set-up, ring decoding, monitors."""
import os

import numpy as np

import tfe_tf_compat  # noqa: F401  (must precede tf_encrypted)
import tensorflow as tf

N_DEV = 6


def _logical_devices():
    try:
        cpu = tf.config.list_physical_devices("CPU")[0]
        tf.config.set_logical_device_configuration(
            cpu, [tf.config.LogicalDeviceConfiguration() for _ in range(N_DEV)]
        )
    except RuntimeError:
        pass


if os.environ.get("VERIF_DEVICES"):
    _logical_devices()
tf.config.threading.set_intra_op_parallelism_threads(2)
tf.config.threading.set_inter_op_parallelism_threads(2)

OPLIBS = []
if os.environ.get("VERIF_OPDIR"):  # sanitized builds of the native modules
    _load = tf.load_op_library

    def _redirect(path):
        alt = os.path.join(os.environ["VERIF_OPDIR"], os.path.basename(path))
        OPLIBS.append(alt)
        return _load(alt)
    tf.load_op_library = _redirect

import tf_encrypted as tfe  # noqa: E402
from tf_encrypted.config import Config, LocalConfig  # noqa: E402
from tf_encrypted.player import Player  # noqa: E402
from tf_encrypted.protocol import ABY3, Pond, SecureNN  # noqa: E402
from tf_encrypted.protocol import protocol as _protmod  # noqa: E402
from tf_encrypted import tensor as T  # noqa: E402

try:
    from tf_encrypted.protocol.aby3 import ShareType
except ImportError:
    from tf_encrypted.protocol.aby3.aby3_tensors import ShareType

ARITH, BOOL = ShareType.ARITHMETIC, ShareType.BOOLEAN


class DeviceConfig(Config):
    """Every player lives on its own logical CPU device, so that which party
    computes (and therefore sees) a value is observable on the value itself."""

    def __init__(self, names, debug_mode=False):
        super().__init__(debug_mode)
        self._p = []
        for n in names:
            self._add(n)

    def _add(self, n):
        i = len(self._p)
        assert i < N_DEV, "too many players: %s" % n
        p = Player(name=n, index=i,
                   device_name="/job:localhost/replica:0/task:0/device:CPU:%d" % i)
        self._p.append(p)
        return p

    @property
    def players(self):
        return self._p

    def get_player(self, x):
        if isinstance(x, Player):
            assert x in self._p
            return x
        for p in self._p:
            if p.name == x:
                return p
        return self._add(x)

    def get_players(self, names):
        if isinstance(names, str):
            names = [n.strip() for n in names.split(",")]
        return [p for p in self._p if p.name in names]


def clear_cache():
    nodes = getattr(_protmod, "nodes", None)
    if isinstance(nodes, dict):
        nodes.clear()


_cached = {}


def aby3(cfg="l", fresh=True, debug=False):
    tfe.set_config(LocalConfig(debug_mode=debug))
    clear_cache()
    p = ABY3(fixedpoint_config=cfg)
    tfe.set_protocol(p)
    return p


def pond(kind="100", cls=Pond, debug=False, **kw):
    tfe.set_config(LocalConfig(debug_mode=debug))
    clear_cache()
    p = make_pond(kind, cls, **kw)
    tfe.set_protocol(p)
    return p


def make_pond(kind="100", cls=Pond, **kw):
    from tf_encrypted.tensor import fixed as F
    fx = {"100": F.fixed100, "100ni": F.fixed100_ni,
          "64": F.fixed64, "64ni": F.fixed64_ni}[kind]
    return cls(fixedpoint_config=fx, **kw)


def require_kernels():
    from tf_encrypted.operations import secure_random as sr
    assert sr.supports_seeded_randomness(), "secure randomness module did not load"


# ---------------------------------------------------------------- ring values
M64, M128 = 1 << 64, 1 << 128


def signed(v, nbits):
    """object array of python ints -> signed representatives mod 2^nbits."""
    m = 1 << nbits
    f = np.frompyfunc(lambda a: ((int(a) + (m >> 1)) % m) - (m >> 1), 1, 1)
    r = f(np.asarray(v, dtype=object))
    return np.asarray(r, dtype=object)


def big(limbs):
    """int64 limb array [...,2] (low, high) -> object array of signed ints."""
    a = np.asarray(limbs)
    lo = a[..., 0].astype(np.uint64).astype(object)
    hi = a[..., 1].astype(object)
    r = np.asarray(lo, dtype=object) + np.asarray(hi, dtype=object) * M64
    return np.asarray(r, dtype=object)


def limbs(v):
    """object array of ints -> int64 [...,2]."""
    v = np.asarray(v, dtype=object)
    flat = [int(a) % M128 for a in v.ravel()]
    lo = np.array([a & (M64 - 1) for a in flat], dtype=np.uint64).view(np.int64)
    hi = np.array([a >> 64 for a in flat], dtype=np.uint64).view(np.int64)
    return np.stack([lo, hi], -1).reshape(v.shape + (2,))


def native(t):
    v = getattr(t, "value", t)
    if isinstance(v, (tf.Variable,)):
        v = v.read_value()
    return v.numpy() if hasattr(v, "numpy") else np.asarray(v)


def is128(t):
    return t.factory == T.int128factory


def ring(t):
    """backing tensor (one share or public value) -> object array of ints."""
    if hasattr(t, "backing") and isinstance(getattr(t, "backing"), (list, tuple)):
        return crt(t)
    v = native(t)
    if is128(t):
        return big(v)
    return np.asarray(v.astype(object) if v.dtype != bool else v.astype(int).astype(object), dtype=object)


MODULI100 = [1201, 1433, 1217, 1237, 1321, 1103, 1129, 1367, 1093, 1039]


def crt(t):
    """int100 tensor -> object array of representatives in [0, M)."""
    ms = MODULI100
    M = 1
    for m in ms:
        M *= m
    tot = 0
    for b, m in zip(t.backing, ms):
        v = (b.numpy() if hasattr(b, "numpy") else np.asarray(b)).astype(object) % m
        n = M // m
        tot = tot + v * (n * pow(n, -1, m))
    return np.asarray(tot % M, dtype=object)


def nbits_of(t):
    if t.factory == T.int1factory:
        return 1
    return int(t.factory.nbits)


def aby3_ring(x):
    """ABY3 private/public tensor -> (object array of signed ring ints)."""
    sh = x.unwrapped
    if isinstance(sh[0], (list, tuple)):
        nb = nbits_of(sh[0][0])
        a, b, c = ring(sh[0][0]), ring(sh[0][1]), ring(sh[1][1])
        if x.share_type == ARITH:
            r = a + b + c
        else:
            r = a ^ b ^ c
        if nb == 1:
            return np.asarray(np.frompyfunc(lambda v: int(v) & 1, 1, 1)(r), dtype=object)
        return signed(r, nb)
    nb = nbits_of(sh[0])
    v = ring(sh[0])
    return v if nb == 1 else signed(v, nb)


def npv(x):
    """TFE public / tf / numpy -> numpy"""
    if hasattr(x, "to_native") and not isinstance(x, tf.Tensor):
        x = x.to_native()
    return x.numpy() if hasattr(x, "numpy") else np.asarray(x)


def rev(x):
    return npv(x.reveal()) if hasattr(x, "reveal") else npv(x)


# ---------------------------------------------------------------- ABY3 monitor
class ShareMonitor:
    """Watches every ABY3 tensor the protocol constructs (eager execution) and
    checks the replicated-sharing / replicated-public invariant on it."""

    def __init__(self):
        from tf_encrypted.protocol.aby3 import aby3_tensors as at
        self.at = at
        self.private = self.public = self.graph = 0
        self.bad = []
        self.types = {}
        self.log = []
        self.keep = False

    def __enter__(self):
        at, mon = self.at, self
        self._pi = at.ABY3PrivateTensor.__init__
        self._qi = at.ABY3PublicTensor.__init__

        def pinit(s, *a, **k):
            mon._pi(s, *a, **k)
            mon.on_private(s)

        def qinit(s, *a, **k):
            mon._qi(s, *a, **k)
            mon.on_public(s)

        at.ABY3PrivateTensor.__init__ = pinit
        at.ABY3PublicTensor.__init__ = qinit
        return self

    def __exit__(self, *e):
        self.at.ABY3PrivateTensor.__init__ = self._pi
        self.at.ABY3PublicTensor.__init__ = self._qi

    @staticmethod
    def _where():
        import sys
        f = sys._getframe(3)
        names = []
        while f and len(names) < 5:
            if "/tf_encrypted/" in f.f_code.co_filename:
                names.append(f.f_code.co_name)
            f = f.f_back
        return "<".join(names)

    def on_private(self, t):
        try:
            vs = [[native(b) for b in pair] for pair in t.unwrapped]
        except Exception:
            self.graph += 1
            return
        self.private += 1
        key = (t.share_type, str(vs[0][0].dtype), vs[0][0].ndim)
        self.types[key] = self.types.get(key, 0) + 1
        for i in range(3):
            a, b = vs[i][1], vs[(i + 1) % 3][0]
            if a.shape != b.shape or not np.array_equal(a, b):
                self.bad.append(("private", i, str(a.shape), str(b.shape), self._where()))
                return
        shp = {v.shape for p in vs for v in p}
        if len(shp) != 1:
            self.bad.append(("private-shape", 0, str(shp), "", self._where()))

    def on_public(self, t):
        try:
            vs = [native(b) for b in t.unwrapped]
        except Exception:
            self.graph += 1
            return
        self.public += 1
        if len(vs) != 3:
            self.bad.append(("public-count", len(vs), "", "", self._where()))
            return
        for i in (1, 2):
            if vs[i].shape != vs[0].shape or not np.array_equal(vs[i], vs[0]):
                self.bad.append(("public", i, str(vs[i].shape), str(vs[0].shape), self._where()))
                return

    def report(self, ctx, mech="share-consistency"):
        ctx.event("private_tensors_monitored", self.private)
        ctx.event("public_tensors_monitored", self.public)
        ctx.event("oracle_checks", self.private + self.public)
        for b in self.bad[:3]:
            ctx.violate(mech + ":" + b[0], "%s" % (b,))
