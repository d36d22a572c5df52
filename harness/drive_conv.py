"""Drives dict2dmap / dmap2dict (events of spec/TraceConversion.tla)."""
import argparse
import json

import numpy as np

import pydarnio
from gen_dmap import NPTYPE, NUM, TEXTS, edge_values, layout, rand_name, rand_shape, rand_value, rand_array
from proj import outcome, quiet, ints

quiet()
ap = argparse.ArgumentParser()
ap.add_argument("--out", required=True)
ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--n", type=int, default=100)
ap.add_argument("--part", type=int, default=0)
ap.add_argument("--parts", type=int, default=1)
a = ap.parse_args()
out = open(a.out, "w")
rng = np.random.default_rng(a.seed * 104729 + a.part)


def token(v):
    """The exact value, independent of its representation."""
    try:
        if isinstance(v, np.ndarray):
            return "[" + ",".join(token(v[i]) for i in np.ndindex(v.shape)) + "]"
        if isinstance(v, str):
            return "s:" + v.encode("unicode_escape").decode()
        if isinstance(v, (float, np.floating)):
            f = float(v)
            return "f:nan" if f != f else "f:" + f.hex()
        return "i:%d" % int(v)
    except Exception as e:
        return "?" + type(e).__name__


def plain(recs, raw=False):
    r = []
    for d in recs:
        one = []
        for k, v in d.items():
            w = v
            if isinstance(v, list) and not raw:
                w = np.array(v)
            if isinstance(w, list):
                one.append({"name": str(k), "kind": "list", "shape": ints(np.shape(w)), "val": repr(w)})
            elif isinstance(w, np.ndarray):
                one.append({"name": str(k), "kind": w.dtype.name, "shape": ints(w.shape), "val": token(w)})
            else:
                one.append({"name": str(k), "kind": type(w).__name__, "shape": [], "val": token(w)})
        r.append(one)
    return r


def structs(recs):
    r, vs = [], []
    for d in recs:
        one, v1 = [], []
        for k, s in d.items():
            isa = hasattr(s, "dimension")
            one.append({"name": str(s.name), "key": str(k), "isarray": isa, "code": int(s.data_type),
                        "fmt": str(s.data_type_fmt), "shape": ints(s.shape) if isa else [],
                        "dim": ints([s.dimension])[0] if isa else 0, "val": token(s.value)})
            v1.append(ints(np.shape(s.value)) if isa else [])
        r.append(one)
        vs.append(v1)
    return r, vs


def gen_record():
    used, d = set(), {}
    for _ in range(int(rng.integers(0, 9))):
        n = rand_name(rng, used)
        code = NUM[rng.integers(len(NUM))]
        k = int(rng.integers(10))
        if k < 2:
            d[n] = TEXTS[rng.integers(len(TEXTS))]
        elif k < 5:
            v = rand_value(rng, code)
            if rng.random() < 0.4 and code in (3, 8):
                v = v.item()            # int or float of Python
            d[n] = v
        elif k == 5:
            sh = rand_shape(rng)[:3]
            v = rng.integers(-1000, 1000, size=sh)
            d[n] = v.tolist() if rng.random() < 0.5 else (v / 7).tolist()
        elif k == 6:
            d[n] = np.zeros((0,), NPTYPE[code])
        else:
            d[n] = rand_array(rng, code)
    return d


for _ in range(a.n):
    recs = [gen_record() for _ in range(int(rng.choice([0, 1, 1, 2, 3])))]
    raw = plain(recs, raw=True)
    inp = plain(recs)
    e = {"input": inp, "raw": raw, "structs": [], "vshapes": [], "back": [], "again": [], "inputafter": [], "structsafter": []}

    def go():
        s = pydarnio.dict2dmap(recs)
        sp, vs = structs(s)
        b = pydarnio.dmap2dict(s)
        bp = plain(b)
        s2 = pydarnio.dict2dmap(b)
        return sp, vs, bp, structs(s2)[0], structs(s)[0]
    o, v = outcome(go)
    e["outcome"] = o
    if o == "ok":
        e["structs"], e["vshapes"], e["back"], e["again"], e["structsafter"] = v
        e["inputafter"] = plain(recs, raw=True)
    out.write(json.dumps(e) + "\n")
out.close()
