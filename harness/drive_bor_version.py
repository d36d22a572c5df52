"""Borealis data marked with the git hashes of spec/MCBorealisVersion.tla, read, written,
restructured and converted (events of spec/TraceBorealisVersion.tla)."""
import argparse
import copy
import json
import os

import numpy as np

import gen_bor
import pydarnio
from bor import attempt, digest, dumps, fields, raw_arrays, raw_site, records, sha
from gen_bor import Shape, put_arrays, put_site, site_records, table, to_arrays
from gen_convert import convertible
from proj import quiet

quiet()
ap = argparse.ArgumentParser()
ap.add_argument("--out", required=True)
ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--hashes", required=True)
ap.add_argument("--part", type=int, default=0)
ap.add_argument("--parts", type=int, default=1)
a = ap.parse_args()
out = open(a.out, "w")
D = os.environ["VERIF_SCRATCH"]
rng = np.random.default_rng([a.seed, a.part, 1406])
LAYOUTS = ["v0.4", "v0.5", "v0.6", "v0.7"]


def one(xs):
    return xs[int(rng.integers(len(xs)))]


def ident(structure, data):
    return digest(records(data)[1] if structure == "site" else fields(data))


def case(h, op, layout):
    structure = one(["site", "array"])
    kind = one(["rawacf", "bfiq"] if op == "convert" else [k for k in gen_bor.TYPES if k != "rawrf" or (
        structure == "site" and op != "restructure")])
    text = "-".join(".".join(p) for p in h)
    s = Shape(rng, layout, kind, nrec=int(rng.integers(1, 3)), small=True)
    if s.phase in ("sequence", "empty"):
        s.phase = "zeros"
    if kind in ("rawacf", "bfiq"):
        s.lags = max(2, s.lags)
        recs, abstract, _ = convertible(rng, s)
        for n in recs:
            recs[n]["blanked_samples"] = np.array(abstract[0]["blanked"], np.uint32)
        for i, r in enumerate(recs.values()):
            s.blanks[i] = len(r["blanked_samples"])
    else:
        recs = site_records(rng, s)
    for r in recs.values():
        r["borealis_git_hash"] = text
    data = recs if structure == "site" else to_arrays(s, recs)
    other = "array" if structure == "site" else "site"
    told = one(["right", "none", "none", "wrong"])
    say = {"right": structure, "wrong": other, "none": None}[told]
    src, dst = os.path.join(D, "src.h5"), os.path.join(D, "dst")
    e = {"ev": "version", "h": h, "op": op, "structure": structure, "told": told, "layout": layout, "kind": kind,
         "version": "none", "same": True}
    extra = [say] if say is not None else []
    if op != "write":
        (put_site if structure == "site" else put_arrays)(src, data)
        before = sha(src)
    else:
        mine = copy.deepcopy(data)
        before = ident(structure, mine)
    if op == "read":
        oc, r = attempt(lambda: pydarnio.BorealisRead(src, kind, *extra))
        if oc == "ok":
            e["version"] = r.software_version
            e["same"] = r.borealis_file_structure == structure and \
                ident(structure, r.records if structure == "site" else r.arrays) == ident(structure, data)
    elif op == "write":
        oc, r = attempt(lambda: pydarnio.BorealisWrite(dst, mine, kind, *extra))
        if oc == "ok":
            e["version"] = r.software_version
            e["same"] = ident(structure, (raw_site if structure == "site" else raw_arrays)(dst)) == ident(structure, data)
    elif op == "restructure":
        oc, r = attempt(lambda: pydarnio.BorealisRestructure(src, dst, kind, other))
        if oc == "ok":
            e["version"] = r.software_version
    else:
        oc, r = attempt(lambda: pydarnio.BorealisConvert(src, kind, dst, 3, *extra))
        if oc == "ok":
            e["version"] = r.software_version
    e["outcome"] = oc
    e["kept"] = (ident(structure, mine) if op == "write" else sha(src)) == before
    e["left"] = os.path.exists(dst)
    out.write(dumps(e) + "\n")
    for p in (src, dst):
        if os.path.exists(p):
            os.unlink(p)


for i, x in enumerate(x for x in open(a.hashes) if x.strip()):
    if i % a.parts != a.part:
        continue
    h = json.loads(x)["h"]
    minor = h[0][1] if len(h[0]) > 1 else ""
    # the layouts whose versions the hash could be taken for, first of all
    near = [v for v in LAYOUTS if minor.strip() and v[3] in minor] or ["v0.4"]
    for op in ("read", "read", "write", "restructure", "convert"):
        case(h, op, one(near) if rng.random() < 0.8 else one(LAYOUTS))
out.close()
