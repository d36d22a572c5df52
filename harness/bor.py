"""Projection of Borealis data onto the values of spec/BorealisFormat.tla, and raw file access."""
import contextlib
import hashlib
import io
import json
import os
import signal

import h5py
import numpy as np


def ftok(x, bits):
    if x != x:
        return "nan"
    if x == 0:
        return "zero"
    return np.asarray(x, dtype=bits).tobytes().hex()


def tok(x):
    """The exact value of one element."""
    if isinstance(x, (bool, np.bool_)):
        return str(bool(x))
    if isinstance(x, (int, np.integer)):
        return str(int(x))
    if isinstance(x, np.float32):
        return ftok(x, ">f4")
    if isinstance(x, (float, np.floating)):
        return ftok(x, ">f8")
    if isinstance(x, (complex, np.complexfloating)):
        t = ">f4" if isinstance(x, np.complex64) else ">f8"
        return "nan" if x.real != x.real else ftok(x.real, t) + "/" + ftok(x.imag, t)
    if isinstance(x, bytes):
        return x.decode("latin-1")
    if isinstance(x, str):
        return str(x)
    return "?" + type(x).__name__


def value(x):
    if isinstance(x, np.ndarray) and x.dtype.kind == "U":
        flat = np.ascontiguousarray(x).reshape(-1)
        try:
            v = [tok(e) for e in flat]
        except (SystemError, ValueError):       # not characters at all
            v = ["?" + flat[i:i + 1].tobytes().hex() for i in range(flat.size)]
        return {"k": "arr", "t": x.dtype.type.__name__, "sh": [int(n) for n in x.shape], "v": v}
    if isinstance(x, np.ndarray):
        return {"k": "arr", "t": x.dtype.type.__name__, "sh": [int(n) for n in x.shape],
                "v": [tok(e) for e in np.ascontiguousarray(x).reshape(-1)]}
    if isinstance(x, np.generic) and not isinstance(x, (np.str_, np.bytes_)):
        return {"k": "num", "t": type(x).__name__, "sh": [], "v": [tok(x)]}
    if type(x) is str:
        return {"k": "text", "t": "str", "sh": [], "v": [x]}
    return {"k": "other", "t": type(x).__name__, "sh": [], "v": []}


def fields(d):
    if not hasattr(d, "items"):         # not a record at all
        return {"not a record": {"k": "none"}}
    return {str(k): value(v) for k, v in d.items()}


def records(rs):
    if not hasattr(rs, "keys") or not hasattr(rs, "values"):
        return ["not records"], []
    return [str(k) for k in rs.keys()], [fields(r) for r in rs.values()]


def names_of(xs):
    try:
        return [str(x) for x in xs]
    except TypeError:
        return ["not names"]


# ------------------------------------------------------------------ raw files

SKIP = ("CLASS", "TITLE", "VERSION", "DEEPDISH_IO_VERSION", "PYTABLES_FORMAT_VERSION")


def raw_node(node):
    d = {}
    for k, x in node.items():
        if isinstance(x, h5py.Group):
            d[k] = {"group": True}
            continue
        v = x[()]
        if "strtype" in x.attrs:
            v = v.reshape(-1).view(np.dtype("U%d" % int(x.attrs["itemsize"])))
        d[k] = v
    for k, v in node.attrs.items():
        if k in SKIP:
            continue
        if isinstance(v, h5py.Empty):
            v = "" if v.dtype.kind in "SO" else v
        elif isinstance(v, bytes):
            v = bytes(v).decode("utf-8", "surrogateescape")
        d[k] = v
    return d


def raw_site(path):
    """Records of a site file in name order, read without the library."""
    with h5py.File(path, "r") as f:
        return {k: raw_node(f[k]) for k in sorted(f.keys())}


def raw_arrays(path):
    with h5py.File(path, "r") as f:
        return raw_node(f)


# ------------------------------------------------------------------ calls

def sha(path):
    if not os.path.exists(path):
        return ""
    with open(path, "rb") as f:
        return hashlib.sha1(f.read()).hexdigest()


@contextlib.contextmanager
def mute():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


TIMEOUTS = [0]


class CallTimeout(BaseException):
    pass


def _alarm(*_):
    raise CallTimeout()


def attempt(fn):
    """(class name of the outcome, result or exception)."""
    if TIMEOUTS[0] >= 2:        # recorded, and enough: the calls do not return
        raise SystemExit(0)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(40)
    try:
        with mute():
            return "ok", fn()
    except CallTimeout as e:
        TIMEOUTS[0] += 1
        return "CallTimeout", e
    except Exception as e:      # noqa: BLE001 - the outcome is recorded
        return type(e).__name__, e
    finally:
        signal.alarm(0)


def digest(d):
    """Identity of in-memory data (to see whether a call changed it)."""
    return hashlib.sha1(json.dumps(d, sort_keys=True).encode()).hexdigest()


def dumps(e):
    return json.dumps(e, separators=(",", ":"))
