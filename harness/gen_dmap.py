"""Random DMAP records: model, plain dictionary and DMAP structures of the same content."""
from collections import OrderedDict

import numpy as np

from proj import NPTYPE, SIZE, array_bytes, num_bytes, text_bytes

FMT = {1: "c", 2: "h", 3: "i", 4: "f", 8: "d", 9: "s", 10: "q", 16: "B", 17: "H", 18: "I", 19: "Q"}
NUM = [1, 2, 3, 4, 8, 10, 16, 17, 18, 19]
NAMES = ["a", "nave", "stid", "origin.time", "x", "IMF.Kp", "é", "gate数", "b.c", "slist2", "A", "_", "pwr0", "N+2",
         "name with space", " lead", "q" * 40, "r" * 300, "e\u0301", "\U0001f4e1"]
TEXTS = ["", "x", "SuperDARN", "Ωmega", "naïve café", "日本", "a b\tc\n", "\U0001f4e1radar", "z" * 100, "0", " ", " padded ", "line\r\n", "e\u0301", "k" * 3000]


def edge_values(code):
    if code == 4:
        return [0.0, -0.0, 1.5, -2.25, float("inf"), float("-inf"), float("nan"), 3.4028234663852886e38, 1e-45, 0.1]
    if code == 8:
        return [0.0, -0.0, 0.1, 1e308, -1e-308, float("inf"), float("-inf"), float("nan"), 5e-324, 2.0 ** 53 + 2]
    size = SIZE[code]
    if code in (1, 2, 3, 10):
        m = 1 << (8 * size - 1)
        return [0, 1, -1, m - 1, -m, 42, -2, 100, m // 2]
    m = 1 << (8 * size)
    return [0, 1, m - 1, m // 2, m // 2 - 1, m - 2, 200, 9, 10]


def rand_value(rng, code):
    if rng.random() < 0.6:
        ev = edge_values(code)
        return NPTYPE[code](ev[rng.integers(len(ev))])
    raw = rng.bytes(SIZE[code])
    v = np.frombuffer(raw, NPTYPE[code])[0]
    if code in (4, 8) and np.isnan(v):
        v = NPTYPE[code](1.25)
    return v


def rand_name(rng, used):
    while True:
        if rng.random() < 0.5:
            n = NAMES[rng.integers(len(NAMES))]
        else:
            n = "".join(chr(rng.integers(33, 127)) for _ in range(rng.integers(1, 12)))
        if n not in used:
            used.add(n)
            return n


def rand_shape(rng, big=False):
    r = rng.random()
    if big and r < 0.1:
        return (int(rng.integers(10, 40)), int(rng.integers(10, 60)), 2)
    nd = int(rng.choice([1, 1, 1, 2, 2, 3, 3, 4, 5]))
    if rng.random() < 0.02:
        nd = int(rng.integers(6, 33))
        return tuple(int(rng.choice([1, 1, 1, 1, 1, 1, 2])) if i < 8 else 1 for i in range(nd))
    return tuple(int(rng.integers(1, 6)) for _ in range(nd))


def layout(rng, a):
    """The same values, stored differently in memory."""
    k = int(rng.integers(0, 8))
    if k == 0:
        return np.asfortranarray(a)
    if k == 1:
        return a.astype(a.dtype.newbyteorder(">"))
    if k == 2 and a.ndim <= 5:
        b = np.empty(tuple(2 * s for s in a.shape), a.dtype)
        b[...] = 1
        v = b[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if k == 3:
        return np.ascontiguousarray(a[::-1])[::-1]
    if k == 4:
        b = a.copy()
        b.flags.writeable = False
        return b
    if k == 5 and a.ndim > 1:
        return np.ascontiguousarray(a.T).T
    if k == 6:
        return np.ma.asarray(a).data.view(np.ndarray)
    return a


HUGE = [(70000,), (257, 260), (33000,), (2, 131, 130), (40, 41, 42), (256, 256), (65536,), (66000,)]


def rand_array(rng, code, big=False):
    shape = rand_shape(rng, big) if big != 2 else HUGE[int(rng.integers(len(HUGE)))]
    n = int(np.prod(shape))
    a = np.frombuffer(rng.bytes(n * SIZE[code]), NPTYPE[code]).copy()
    ev = edge_values(code)
    for j in range(min(n, 4)):
        a[int(rng.integers(n))] = ev[int(rng.integers(len(ev)))]
    return layout(rng, a.reshape(shape))


def huge_record(rng, structs):
    """A record with one array or text of more than 65535 elements or bytes."""
    import pydarnio
    rec = rand_record(rng, max_fields=2, structs=structs)
    if rng.random() < 0.3:
        t = ["x", "\u00e9"][int(rng.integers(2))] * int(rng.integers(65530, 70000))
        rec["huge"] = pydarnio.DmapScalar("huge", t, 9, "s") if structs else t
    else:
        code = int(rng.choice([1, 2, 16, 17]))
        v = rand_array(rng, code, 2)
        rec["huge"] = pydarnio.DmapArray("huge", v, code, FMT[code], v.ndim, list(v.shape)) if structs else v
    return rec


def rand_record(rng, big=False, max_fields=7, structs=None, wide=False):
    """Returns (dictionary of plain values or structures, kind) with a random field order."""
    import pydarnio
    used = set()
    items = []
    ns, na = int(rng.integers(1, max_fields)), int(rng.integers(1, max_fields))
    if wide:        # more fields than fit in a byte
        for k in range(int(rng.integers(250, 300))):
            code = NUM[rng.integers(len(NUM))]
            if rng.random() < 0.5:
                items.append(("w%d" % k, code, rand_value(rng, code)))
            else:
                items.append(("w%d" % k, code, np.array([rand_value(rng, code)])))
        used = {x[0] for x in items}
    for _ in range(ns):
        name = rand_name(rng, used)
        if rng.random() < 0.25:
            items.append((name, 9, TEXTS[rng.integers(len(TEXTS))]))
        else:
            code = NUM[rng.integers(len(NUM))]
            items.append((name, code, rand_value(rng, code)))
    for _ in range(na):
        if rng.random() < 0.15 and "slist" not in used:
            used.add("slist")
            code = int(rng.choice([2, 2, 3, 17, 8]))
            n = int(rng.integers(0, 4))
            items.append(("slist", code, np.arange(n).astype(NPTYPE[code])))
            continue
        name = rand_name(rng, used)
        code = NUM[rng.integers(len(NUM))]
        items.append((name, code, rand_array(rng, code, big)))
    order = rng.permutation(len(items)) if rng.random() < 0.6 else range(len(items))
    items = [items[i] for i in order]
    if structs is None:
        structs = rng.random() < 0.4
    rec = OrderedDict() if rng.random() < 0.7 else {}
    for name, code, v in items:
        if structs:
            if isinstance(v, np.ndarray):
                rec[name] = pydarnio.DmapArray(name, v, code, FMT[code], v.ndim, list(v.shape))
            else:
                if code != 9 and rng.random() < 0.5:
                    v = v.item()
                rec[name] = pydarnio.DmapScalar(name, v, code, FMT[code])
        else:
            if code == 3 and not isinstance(v, np.ndarray) and rng.random() < 0.5:
                v = int(v)
            if code == 4 and not isinstance(v, np.ndarray) and rng.random() < 0.5:
                v = float(v)
            if code in (10, 8) and isinstance(v, np.ndarray) and rng.random() < 0.2 and not np.isnan(v).any():
                v = v.astype(v.dtype.newbyteorder("=")).tolist()
            rec[name] = v
    return rec


def model(rec):
    """The model record (scalars, arrays) of a plain dictionary or of DMAP structures."""
    from proj import DTYPE_CODE, KIND_CODE
    sc, ar = [], []
    for name, v in rec.items():
        if hasattr(v, "dimension"):
            ar.append({"name": text_bytes(v.name), "type": int(v.data_type), "shape": [int(x) for x in v.value.shape],
                       "data": array_bytes(int(v.data_type), v.value)})
        elif hasattr(v, "data_type_fmt"):
            c = int(v.data_type)
            sc.append({"name": text_bytes(v.name), "type": c, "shape": [],
                       "data": text_bytes(v.value) if c == 9 else num_bytes(c, v.value)})
        else:
            if isinstance(v, list):
                v = np.array(v)
            if isinstance(v, np.ndarray):
                c = DTYPE_CODE[v.dtype.newbyteorder("=").name]
                ar.append({"name": text_bytes(name), "type": c, "shape": [int(x) for x in v.shape],
                           "data": array_bytes(c, v)})
            else:
                c = KIND_CODE[type(v).__name__]
                sc.append({"name": text_bytes(name), "type": c, "shape": [],
                           "data": text_bytes(v) if c == 9 else num_bytes(c, v)})
    return {"scalars": sc, "arrays": ar}
