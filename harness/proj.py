"""Projection of Python/NumPy values to the byte-level model of spec/DmapFormat.tla.

Independent of the code under test: numbers are turned into bytes one element at a
time, with int.to_bytes and IEEE packing, never through the library's own paths.
"""
import os
import signal
import struct
import sys
import warnings

import numpy as np

warnings.filterwarnings("ignore")

CODE = {"c": 1, "h": 2, "i": 3, "f": 4, "d": 8, "s": 9, "q": 10, "B": 16, "H": 17, "I": 18, "Q": 19}
SIZE = {1: 1, 2: 2, 3: 4, 4: 4, 8: 8, 10: 8, 16: 1, 17: 2, 18: 4, 19: 8}
SIGNED = {1, 2, 3, 10}
NPTYPE = {1: np.int8, 2: np.int16, 3: np.int32, 4: np.float32, 8: np.float64, 10: np.int64,
          16: np.uint8, 17: np.uint16, 18: np.uint32, 19: np.uint64}
DTYPE_CODE = {"int8": 1, "int16": 2, "int32": 3, "float32": 4, "float64": 8, "int64": 10,
              "uint8": 16, "uint16": 17, "uint32": 18, "uint64": 19}
BAD = [0, 0, 0, 0, 0]      # stands for bytes that cannot be computed; matches no type's size


def num_bytes(code, v):
    """Little-endian bytes of number v as DMAP type code."""
    try:
        if code == 4:
            with np.errstate(all="ignore"):
                return list(struct.pack("<f", float(np.float32(v))))
        if code == 8:
            return list(struct.pack("<d", float(v)))
        n = int(v)
        if n != v:
            return BAD
        size = SIZE[code]
        if code == 1:
            n = n & 0xFF if -128 <= n <= 255 else None
            return [n] if n is not None else BAD
        return list(n.to_bytes(size, "little", signed=code in SIGNED))
    except (OverflowError, ValueError, TypeError, KeyError):
        return BAD


def text_bytes(s):
    try:
        return list(s.encode("utf-8", "surrogatepass")) if isinstance(s, str) else BAD
    except Exception:
        return BAD


def array_bytes(code, a):
    """Bytes of array a, elements in index order (last index fastest)."""
    out = []
    a = np.asarray(a)
    if code == 4:
        # bit-exact for float32 input
        for idx in np.ndindex(a.shape):
            x = a[idx]
            if a.dtype.type is np.float32:
                out.extend(bytes(np.array(x, dtype="<f4").tobytes()))
            else:
                out.extend(num_bytes(code, x))
        return out
    for idx in np.ndindex(a.shape):
        out.extend(num_bytes(code, a[idx].item() if hasattr(a[idx], "item") else a[idx]))
    return out


def ints(seq):
    r = []
    for x in seq:
        try:
            v = int(x)
        except Exception:
            v = -99
        r.append(v if -2**31 < v < 2**31 else -98)
    return r


def struct_field(key, d, plain_key=None):
    """Projection of a DmapScalar / DmapArray as handed out by a reader or by dict2dmap."""
    name = text_bytes(getattr(d, "name", None))
    code = getattr(d, "data_type", 0)
    try:
        code = int(code)
    except Exception:
        code = -1
    fmt = getattr(d, "data_type_fmt", None)
    if CODE.get(fmt) != code:
        code = -2
    if hasattr(d, "dimension"):
        v = d.value
        shape = ints(d.shape) if isinstance(d.shape, (list, tuple)) else [-97]
        vshape = ints(np.shape(v)) if isinstance(v, np.ndarray) else [-96]
        data = array_bytes(code, v) if isinstance(v, np.ndarray) and code in SIZE else BAD
        dim = ints([d.dimension])[0]
    else:
        shape, vshape, dim = [], [], 0
        if code == 9:
            data = text_bytes(d.value)
        elif code in SIZE:
            data = num_bytes(code, d.value)
        else:
            data = BAD
    return {"key": text_bytes(key), "name": name, "type": code, "shape": shape, "vshape": vshape,
            "dim": dim, "data": data}


KIND_CODE = {"int8": 1, "int16": 2, "int": 3, "int32": 3, "float": 4, "float32": 4, "float64": 8,
             "str": 9, "int64": 10, "uint8": 16, "uint16": 17, "uint32": 18, "uint64": 19}


def plain_field(key, v):
    """Projection of one entry of a plain dictionary."""
    if isinstance(v, np.ndarray):
        kind = v.dtype.name
        code = DTYPE_CODE.get(kind, 0)
        return {"name": text_bytes(key), "kind": kind, "shape": ints(v.shape),
                "data": array_bytes(code, v) if code else BAD}
    kind = type(v).__name__
    code = KIND_CODE.get(kind, 0)
    data = text_bytes(v) if code == 9 else num_bytes(code, v) if code else BAD
    return {"name": text_bytes(key), "kind": kind, "shape": [], "data": data}


def struct_recs(recs):
    return [[struct_field(k, d) for k, d in r.items()] for r in recs]


def plain_recs(recs):
    return [[plain_field(k, d) for k, d in r.items()] for r in recs]


class CallTimeout(BaseException):
    pass


def _alarm(*_):
    raise CallTimeout()


TIMEOUTS = [0]


def outcome(f, *args, seconds=20, **kw):
    """Runs one call of the library; returns (outcome name, value or exception).

    ValueError and its subclasses that are not the library's own are reported as
    E:ValueError, other foreign exceptions as X:<class>."""
    if TIMEOUTS[0] >= 2:        # recorded, and enough: the calls do not return
        raise SystemExit(0)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(seconds)
    try:
        v = f(*args, **kw)
        return "ok", v
    except CallTimeout:
        TIMEOUTS[0] += 1
        return "X:Timeout", None
    except (MemoryError, RecursionError) as e:
        return "X:" + type(e).__name__, e
    except Exception as e:
        mod = type(e).__module__ or ""
        if mod.startswith("pydarnio"):
            return type(e).__name__, e
        if isinstance(e, ValueError):
            return "E:ValueError", e
        return "X:" + type(e).__name__, e
    finally:
        signal.alarm(0)


def quiet():
    """The library's exceptions log to stderr through the root logger."""
    import logging
    logging.disable(logging.CRITICAL)
    logging.raiseExceptions = False


def _walk(h, v):
    """Feeds a canonical description of a value (types, layout, bytes) to hash h."""
    t = type(v).__name__
    if isinstance(v, np.ndarray):
        h.update(("A%s%s%s" % (v.dtype.str, v.shape, v.strides)).encode())
        h.update(v.tobytes() if v.dtype != object else repr(v.tolist()).encode())
    elif isinstance(v, dict):
        h.update(("D%s%d" % (t, len(v))).encode())
        for k, x in v.items():
            _walk(h, k)
            _walk(h, x)
    elif isinstance(v, (list, tuple)) and not hasattr(v, "data_type_fmt"):
        h.update(("L%s%d" % (t, len(v))).encode())
        for x in v:
            _walk(h, x)
    elif hasattr(v, "data_type_fmt"):
        h.update(t.encode())
        for k in ("name", "value", "data_type", "data_type_fmt", "dimension", "shape"):
            _walk(h, getattr(v, k, None))
    elif isinstance(v, np.generic):
        h.update(("G" + t).encode() + v.tobytes())
    else:
        h.update((t + repr(v)).encode())


def digest_of(v):
    """Digest of caller-owned data, sensitive to values, types, shapes, dtypes and order."""
    import hashlib
    h = hashlib.sha1()
    _walk(h, v)
    return h.hexdigest()[:16]
