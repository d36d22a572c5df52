"""Replays sessions made by TLC from spec/MCSession.tla in the real library
(events of spec/TraceSession.tla)."""
import argparse
import copy
import json
import os
import shutil

import numpy as np

import pydarnio
from enc import encode, encode_all
from gen_dmap import model, rand_record
from gen_sdarn import FORMATS, TABLES, build, types_of
from proj import digest_of, outcome, quiet, struct_recs

quiet()
ap = argparse.ArgumentParser()
ap.add_argument("--out", required=True)
ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--sessions", required=True)
ap.add_argument("--part", type=int, default=0)
ap.add_argument("--parts", type=int, default=1)
a = ap.parse_args()
out = open(a.out, "w")
scratch = os.environ["VERIF_SCRATCH"]
rng = np.random.default_rng(a.seed * 104729 + a.part)
NONE = "none"


def emit(e):
    out.write(json.dumps(e, separators=(",", ":")) + "\n")


def break_record(rec):
    """Adds a field that cannot be encoded (structures only)."""
    k = int(rng.integers(4))
    if k == 0:
        rec["zz"] = pydarnio.DmapScalar("zz", 70000, 2, "h")
    elif k == 1:
        rec["zz"] = pydarnio.DmapScalar("zz", "x", 1, "c")
    elif k == 2:
        rec["zz"] = pydarnio.DmapArray("zz", np.array(["a", "b"]), 9, "s", 1, [2])
    else:
        rec["zz"] = 7
    return rec


def break_value(rec):
    """Makes one value impossible to encode without changing field names or types."""
    names = [f for f, d in rec.items() if isinstance(d, pydarnio.DmapScalar) and d.data_type_fmt == "h"]
    f = names[int(rng.integers(len(names)))]
    rec[f] = pydarnio.DmapScalar(f, 70000, 2, "h")
    return rec


def allgroups(fmt):
    return types_of(fmt, [i for i in range(len(TABLES[fmt])) if i == 0 or rng.random() < 0.6])


def generic(n, structs):
    r = [rand_record(rng, max_fields=3, structs=structs) for _ in range(n)]
    for x in r:      # a field no file type has
        x["zq0"] = pydarnio.DmapScalar("zq0", 1, 3, "i") if structs else 1
    return r


def twin(recs, field):
    """The same records with other values in one field: as many bytes."""
    r = copy.deepcopy(recs)
    for x in r:
        d = x[field]
        if isinstance(d, pydarnio.DmapScalar):
            x[field] = pydarnio.DmapScalar(field, type(d.value)(d.value ^ 1), d.data_type, d.data_type_fmt)
        elif isinstance(d, pydarnio.DmapArray):
            x[field] = pydarnio.DmapArray(field, d.value ^ 1, d.data_type, d.data_type_fmt, d.dimension, d.shape)
        else:
            x[field] = d ^ type(d)(1) if not isinstance(d, np.ndarray) else d ^ 1
    return r


def change(lst, recs):
    """The caller turns the list into `recs`, in one of the ways Python offers."""
    recs = copy.deepcopy(recs)
    if len(lst) == len(recs) and rng.random() < 0.7:
        for old, new in zip(lst, recs):
            if rng.random() < 0.5 and list(old) == list(new):
                for f in new:
                    o, n = (getattr(x[f], "value", x[f]) for x in (old, new))
                    if isinstance(o, np.ndarray) and isinstance(n, np.ndarray) and o.dtype == n.dtype \
                            and o.shape == n.shape and o.flags.writeable and type(old[f]) is type(new[f]):
                        o[...] = n
                    else:
                        old[f] = new[f]
            else:
                old.clear()
                old.update(new)
    else:
        lst[:] = recs


def scribble_over(recs):
    for r in recs:
        for f in list(r):
            v = getattr(r[f], "value", r[f])
            if isinstance(v, np.ndarray) and v.flags.writeable and v.dtype.kind in "iuf":
                v[...] = 0
            elif rng.random() < 0.5:
                r[f] = 0
            else:
                del r[f]
    del recs[1:]


def make_lists(fa, fb):
    lists = {}
    lists["good"] = generic(2, rng.random() < 0.5)
    lists["twin"] = twin(lists["good"], "zq0")
    lists["good1"] = generic(1, rng.random() < 0.5)
    lists["bad1"] = [break_record(generic(1, True)[0])]
    g = generic(2, True)
    break_record(g[1])
    lists["bad2"] = g
    nb = generic(1, False)
    nb[0]["zz"] = [None, 1 + 2j, b"x", {"a": 1}, np.array(["a"])][int(rng.integers(5))]
    lists["nobuild"] = nb
    lists["void"] = []
    st = rng.random() < 0.5
    lists["fit"] = [build(rng, fa, allgroups(fa), structs=st) for _ in range(2)]
    lists["fit2"] = twin(lists["fit"], [x for x, t in TABLES[fa][0]["fields"].items() if t == "h"][0])
    m = [build(rng, fa, allgroups(fa), structs=st) for _ in range(2)]
    k = int(rng.integers(3))
    if k == 0:
        m[1]["zz"] = pydarnio.DmapScalar("zz", 1, 2, "h") if st else np.int16(1)
    elif k == 1:
        must = list(TABLES[fa][0]["fields"])
        m[1].pop(must[int(rng.integers(len(must)))])
    else:
        f = [x for x, t in TABLES[fa][0]["fields"].items() if t == "h"][0]
        if st:
            d = m[1][f]
            if isinstance(d, pydarnio.DmapArray):
                m[1][f] = pydarnio.DmapArray(f, d.value.astype(np.int32), 3, "i", d.dimension, d.shape)
            else:
                m[1][f] = pydarnio.DmapScalar(f, int(d.value), 3, "i")
        else:
            m[1][f] = m[1][f].astype(np.int32)
    lists["misfit"] = m
    fb_ = [build(rng, fa, allgroups(fa), structs=True) for _ in range(2)]
    break_value(fb_[1])
    lists["fitbad"] = fb_
    return lists


CAT = {"good": (2, True, 0, 1, 1), "twin": (2, True, 0, 1, 1), "fit2": (2, True, 0, 0, 1), "good1": (1, True, 0, 1, 1), "bad1": (1, True, 1, 1, 1),
       "bad2": (2, True, 2, 1, 1), "nobuild": (1, False, 0, 1, 1), "void": (0, True, 0, 0, 0),
       "fit": (2, True, 0, 0, 1), "misfit": (2, True, 0, 2, 1), "fitbad": (2, True, 2, 0, 1)}
cat = {i: {"n": n, "build": b, "bad": bad, "misfit": {"A": x, "B": y}} for i, (n, b, bad, x, y) in CAT.items()}


def run_session(k, ops, pre):
    d = os.path.join(scratch, "s%d" % k)
    os.mkdir(d)
    fa, fb = (FORMATS[i] for i in rng.choice(len(FORMATS), 2, replace=False))
    real = {"A": fa, "B": fb}
    lists = make_lists(fa, fb)
    contents = copy.deepcopy(lists)
    enc, dig = {}, {}
    for i in lists:
        if cat[i]["build"] and not cat[i]["bad"] and cat[i]["n"]:
            ms = [model(r) for r in lists[i]]
            b = encode_all(ms)
            dig[b] = i
            enc[i] = {"bytes": list(b), "recs": ms}

    paths = {"f1": os.path.join(d, "f1"), "f2": os.path.join(d, "f2"), "nodir": os.path.join(d, "no", "f")}
    size = len(enc[["good", "fit"][int(rng.integers(2))]]["bytes"])    # junk as long as an output
    junk = [bytes(rng.bytes(size)), b"junk", b"\x01\x00\x01\x00", bytes(rng.bytes(40)), b"J" * 40000][int(rng.integers(5))]

    def fill(f):
        with open(paths[f], "wb") as h:
            h.write(junk)

    def disk():
        r = {}
        for f, p in paths.items():
            if not os.path.exists(p):
                r[f] = "absent"
                continue
            b = open(p, "rb").read()
            r[f] = "junk" if b == junk else dig.get(b, "other")
        return r
    prefilled = []
    for f in pre:
        fill(f)
        prefilled.append(f)
    writers, readers, held, given = {}, {}, [], []

    def label_bytes(b):
        return dig.get(bytes(b), "other")
    emit({"ev": "begin", "cut": 1, "cat": cat, "enc": enc, "prefilled": prefilled,
          "heap": digest_of(lists), "fmts": real})
    for o in ops:
        f = paths.get(o["f"], "")
        got = NONE

        def call():
            if o["op"] == "newwriter":
                cls = pydarnio.DmapWrite if o["kind"] == "dmap" else pydarnio.SDarnWrite
                kw = {}
                if o["id"] != NONE:
                    kw["dmap_records"] = lists[o["id"]]
                if f:
                    kw["filename"] = f
                writers[o["w"]] = cls(**kw)
            elif o["op"] == "writefile":
                w = writers[o["w"]]
                m = w.write_dmap if o["fmt"] == NONE else getattr(w, "write_" + real[o["fmt"]])
                m(f) if f else m()
            elif o["op"] == "writestream":
                w = writers[o["w"]]
                r = w.write_dmap_stream() if o["id"] == NONE else w.write_dmap_stream(lists[o["id"]])
                held.append((r, label_bytes(r)))
                return label_bytes(r)
            elif o["op"] == "newreader":
                cls = pydarnio.DmapRead if o["kind"] == "dmap" else pydarnio.SDarnRead
                readers[o["r"]] = cls(f)
            elif o["op"] == "read":
                r = readers[o["r"]]
                if o["fmt"] == NONE:
                    given.append(r.read_records())
                else:
                    given.append(getattr(r, "read_" + real[o["fmt"]])())
                ms = []
                for rec in struct_recs(r.get_dmap_records):
                    fs = [{"name": x["name"], "type": x["type"], "shape": x["shape"], "data": x["data"],
                           "dim": x["dim"]} for x in rec]
                    ms.append({"scalars": [x for x in fs if not x["dim"]], "arrays": [x for x in fs if x["dim"]]})
                given.append(r.get_dmap_records)
                return label_bytes(encode_all(ms))
            elif o["op"] == "change":
                change(lists[o["id"]], contents[o["f"]])
            elif o["op"] == "scribble":
                for x in given:
                    if isinstance(x, list):
                        scribble_over(x)
                for b, _ in held:
                    if isinstance(b, bytearray):
                        b[:] = b"scribble"
                given.clear()
                held.clear()
            elif o["op"] == "prefill":
                fill(o["f"])
            elif o["op"] == "remove":
                if os.path.exists(f):
                    os.unlink(f)
            return NONE
        res, v = outcome(call)
        emit({"ev": "call", "op": o, "res": res, "out": v if res == "ok" and v else NONE, "disk": disk(),
              "heap": digest_of(lists), "held": [label_bytes(r) == lab for r, lab in held]})
    shutil.rmtree(d)


with open(a.sessions) as f:
    sessions = [json.loads(x) for x in f]
for k, s in enumerate(sessions[a.part::a.parts]):
    run_session(k, s["ops"], s["pre"])
out.close()
