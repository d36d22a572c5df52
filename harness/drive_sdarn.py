"""Drives the SuperDARN writers and readers with records of every field combination
(events of spec/TraceSchema.tla)."""
import argparse
import copy
import hashlib
import json
import os

import numpy as np

import pydarnio
from enc import encode_all
from gen_dmap import model
from gen_sdarn import FORMATS, TABLES, build, full_types, types_of
from proj import outcome, plain_recs, quiet, struct_recs

quiet()
ap = argparse.ArgumentParser()
ap.add_argument("--out", required=True)
ap.add_argument("--side", required=True)           # write | read
ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--n", type=int, default=0)        # random cases on top of the given ones
ap.add_argument("--cases")                         # JSON lines made by TLC
ap.add_argument("--part", type=int, default=0)
ap.add_argument("--parts", type=int, default=1)
a = ap.parse_args()
out = open(a.out, "w")
scratch = os.environ["VERIF_SCRATCH"]
rng = np.random.default_rng(a.seed * 7919 + a.part)
OTHER = {"c": "B", "h": "i", "i": "h", "f": "d", "d": "f", "s": "c"}
LETTERS = "chifdsqBHIQ"


def apply_edits(types, edits):
    t = dict(types)
    for e in edits:
        if e["kind"] == "drop":
            t.pop(e["f"], None)
        else:
            t[e["f"]] = e["t"]
    return t


def describe(o, e):
    """What the refusal says: record number and the fields with what is required of them."""
    rec = getattr(e, "record_number", -1)
    rec = rec if isinstance(rec, int) else -1
    f = getattr(e, "fields", None)
    req = {}
    if f is None:
        p = getattr(e, "incorrect_params", None)
        if isinstance(p, dict):
            req = {str(k): str(v) for k, v in p.items()}
            f = list(req)
        else:
            f = []
    return rec, sorted(str(x) for x in f), req


def write_case(fmt, recs):
    path = os.path.join(scratch, "o.%s" % fmt)
    if os.path.exists(path):
        os.unlink(path)
    before = None
    if rng.random() < 0.7:
        before = bytes(rng.bytes(int(rng.integers(1, 60))))
        with open(path, "wb") as f:
            f.write(before)

    def go():
        k = int(rng.integers(3))
        if k == 0:
            w = pydarnio.SDarnWrite(recs, path)
            getattr(w, "write_" + fmt)()
        elif k == 1:
            w = pydarnio.SDarnWrite(recs)
            getattr(w, "write_" + fmt)(path)
        else:
            w = pydarnio.SDarnWrite(recs, "elsewhere")
            getattr(w, "write_" + fmt)(filename=path)
    o, e = outcome(go)
    same = False
    if o == "ok":
        ms = [model(r) for r in recs]
        same = os.path.exists(path) and open(path, "rb").read() == encode_all(ms)
    now = open(path, "rb").read() if os.path.exists(path) else None
    return o, e, same, now == before


def event(fmt, typelist, structs, order):
    if not all(typelist):
        return      # a record without any field is not a record
    recs = [build(rng, fmt, t, structs=structs, order=order) for t in typelist]
    ev = {"fmt": fmt, "types": [dict(t) for t in typelist]}
    if a.side == "write":
        o, e, same, left = write_case(fmt, recs)
        ev.update(ev="swrite", outcome=o, written=same, left=left)
    else:
        ms = [model(r) for r in recs]
        if any(not m["scalars"] or not m["arrays"] for m in ms):
            return
        b = encode_all(ms)

        def go():
            if rng.random() < 0.7:
                r = pydarnio.SDarnRead(b, True)
            else:
                p = os.path.join(scratch, "i.%s" % fmt)
                open(p, "wb").write(b)
                r = pydarnio.SDarnRead(p)
            recs = getattr(r, "read_" + fmt)()
            return struct_recs(r.get_dmap_records), plain_recs(recs), plain_recs(r.get_records)
        o, e = outcome(go)
        ev.update(ev="sread", outcome=o, got=[], plain=[], recs=[], full=0)
        if o == "ok":
            got, plain, plain2 = e
            # the values are judged in a part of the cases, the fields and types in all
            ev["seen"] = [{bytes(f["name"]).decode(): f["type"] for f in r} for r in got]
            if rng.random() < 0.04:
                ev.update(full=1, got=got, plain=plain + (plain2 if plain2 != plain else []), recs=ms)
        else:
            ev["seen"] = []
    ev["recno"], ev["fields"], ev["req"] = describe(o, e) if o != "ok" else (-1, [], {})
    out.write(json.dumps(ev, separators=(",", ":")) + "\n")


def good(fmt):
    n = len(TABLES[fmt])
    groups = [i for i in range(n) if i == 0 or rng.random() < 0.6]
    return types_of(fmt, groups)


if a.cases:
    with open(a.cases) as f:
        cases = [json.loads(x) for x in f]
    for c in cases[a.part::a.parts]:
        t = types_of(c["fmt"], [g - 1 for g in c["groups"]])
        t = apply_edits(t, c["edits"])
        k = int(rng.choice([0, 0, 0, 0, 1, 2]))
        lst = [good(c["fmt"]) for _ in range(k)] + [t]
        if rng.random() < 0.15:
            lst.append(good(c["fmt"]))
        # TLC's edits name types by letter, so dictionaries and structures are equivalent
        event(c["fmt"], lst, structs=rng.random() < 0.7, order="random" if rng.random() < 0.3 else None)

for _ in range(a.n // 25 + 1):
    # many records, mostly with the same fields; a late one may differ, in a type only or in its fields
    fmt = FORMATS[rng.integers(len(FORMATS))]
    t = good(fmt)
    lst = [dict(t) if rng.random() < 0.8 else good(fmt) for _ in range(int(rng.integers(11, 60)))]
    i = int(rng.integers(10, len(lst)))
    k = int(rng.integers(4))
    f = list(lst[i])[rng.integers(len(lst[i]))]
    if k < 2:
        twin = lst[i][f].swapcase()
        lst[i][f] = twin if twin in LETTERS and rng.random() < 0.5 else LETTERS[rng.integers(len(LETTERS))]
    elif k == 2:
        lst[i].pop(f)
    event(fmt, lst, structs=True if k < 2 else rng.random() < 0.5, order="random" if rng.random() < 0.3 else None)

for _ in range(a.n):
    fmt = FORMATS[rng.integers(len(FORMATS))]
    lst = []
    for _ in range(int(rng.integers(1, 4))):
        t = good(fmt) if rng.random() < 0.8 else types_of(fmt, [i for i in range(len(TABLES[fmt])) if rng.random() < 0.5])
        if rng.random() < 0.5:
            for _ in range(int(rng.integers(1, 5))):
                k = int(rng.integers(4))
                allf = list(full_types(fmt))
                if k == 0 and t:
                    t.pop(list(t)[rng.integers(len(t))])
                elif k == 1 and t:
                    f = list(t)[rng.integers(len(t))]
                    twin = t[f].swapcase()      # signed, unsigned
                    t[f] = twin if twin in LETTERS and rng.random() < 0.5 else LETTERS[rng.integers(len(LETTERS))]
                elif k == 2:
                    other = FORMATS[rng.integers(len(FORMATS))]
                    fs = list(full_types(other).items())
                    f, l = fs[rng.integers(len(fs))]
                    t[f] = l
                else:
                    t["x%d" % rng.integers(5)] = LETTERS[rng.integers(len(LETTERS))]
        lst.append(t)
    event(fmt, lst, structs=rng.random() < 0.7, order="random" if rng.random() < 0.3 else None)
out.close()
