"""Borealis to SuperDARN conversion (events of spec/TraceBorealisConvert.tla)."""
import argparse
import hashlib
import json
import os

import numpy as np

import gen_bor
from bor import attempt, dumps, sha
from enc import encode_all
from gen_bor import Shape, VERSIONS, put_arrays, put_site, to_arrays
from gen_convert import convertible, out_records
from gen_dmap import model
from proj import quiet

import pydarnio

quiet()
ap = argparse.ArgumentParser()
ap.add_argument("--out", required=True)
ap.add_argument("--shapes")
ap.add_argument("--per-shape", type=int, default=1)
ap.add_argument("--n", type=int, default=1)
ap.add_argument("--faults", type=float, default=0.15)
ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--part", type=int, default=0)
ap.add_argument("--parts", type=int, default=1)
a = ap.parse_args()
rng = np.random.default_rng([a.seed, a.part, 1516])
out = open(a.out, "w")
D = os.environ["VERIF_SCRATCH"]
TYPE = {"rawacf": "rawacf", "bfiq": "iqdat"}


def digest(b):
    return hashlib.sha1(b).hexdigest()[:16]


def convert(what, src, kind, told, slice_id, scale, dens):
    dst = os.path.join(D, what + ".dmap")
    if rng.random() < 0.3:
        with open(dst, "wb") as h:
            h.write(b"previous content")
    before, target = sha(src), sha(dst)
    kw = {}
    if slice_id is not None:
        kw["borealis_slice_id"] = slice_id
    if told:
        kw["borealis_file_structure"] = told
    if scale != 1 or rng.random() < 0.5:
        kw["scaling_factor"] = scale
    oc, c = attempt(lambda: pydarnio.BorealisConvert(src, kind, dst, **kw))
    o = {"what": what, "type": TYPE[kind], "outcome": oc, "kept": sha(src) == before, "recs": [],
         "target": "same" if sha(dst) == target else "changed", "memory": "", "dict": ""}
    if oc == "ok":
        recs = c.sdarn_dmap_records if isinstance(c.sdarn_dmap_records, list) else []
        o["recs"] = out_records(recs, dens)
        o["target"] = sha(dst)
        if os.path.exists(dst):
            with open(dst, "rb") as h:
                o["target"] = digest(h.read())
        try:
            o["memory"] = digest(encode_all([model(r) for r in recs]))
            o["dict"] = digest(encode_all([model(r) for r in c.sdarn_dict]))
        except Exception as e:      # noqa: BLE001 - recorded as a memory content that cannot be encoded
            o["memory"] = "not encodable: " + type(e).__name__
    if os.path.exists(dst):
        os.unlink(dst)
    return o


def case(s):
    if s.kind == "rawacf":      # the last lag is left out, at least one must remain
        s.lags = max(2, s.lags)
    s.ants = min(s.ants, 3)
    fault = None
    if rng.random() < a.faults:
        fault = ["blanked", "blanked", "station", "phase"][int(rng.integers(4 if s.kind == "bfiq" else 3))]
    if s.phase in ("sequence", "empty"):
        s.phase = "zeros"
    recs, abstract, scale = convertible(rng, s, fault)
    for i, r in enumerate(abstract):
        s.blanks[i] = len(r["blanked"])
    arrays_ok = True
    if "blanked_samples" in gen_bor.table(s.version, s.kind).get("shared", []):
        arrays_ok = all(r["blanked"] == abstract[0]["blanked"] for r in abstract)
    if fault == "station" or (fault == "phase" and "pulse_phase_offset" in gen_bor.table(s.version, s.kind)["shared"]):
        arrays_ok = s.nrec == 1
    if "blanked_samples" in gen_bor.table(s.version, s.kind)["shared"] and not arrays_ok and fault is None:
        for n, r in zip(recs, abstract):
            r["blanked"] = abstract[0]["blanked"]
            recs[n]["blanked_samples"] = np.array(r["blanked"], np.uint32)
        arrays_ok = True
    slice_id = None
    if "slice_id" not in next(iter(recs.values())) or rng.random() < 0.3:
        slice_id = abstract[0]["slice"]
        if "slice_id" in next(iter(recs.values())):
            slice_id = 77       # the records know better
    e = {"ev": "convert", "version": s.version, "kind": s.kind, "fault": fault or "", "recs": abstract, "outs": []}
    dens = [r["den"] for r in abstract for _ in r["beams"]]
    site = os.path.join(D, "s.h5")
    put_site(site, recs)
    told = "site" if rng.random() < 0.5 else None
    e["outs"].append(convert("site", site, s.kind, told, slice_id, scale, dens))
    os.unlink(site)
    if arrays_ok:
        arr = os.path.join(D, "a.h5")
        put_arrays(arr, to_arrays(s, recs))
        e["outs"].append(convert("array", arr, s.kind, "array" if told else None, slice_id, scale, dens))
        os.unlink(arr)
    out.write(dumps(e) + "\n")


PAIRS = [(v, k) for v in VERSIONS for k in ("rawacf", "bfiq")]
if a.shapes:
    for i, x in enumerate(x for x in open(a.shapes) if x.strip()):
        if i % a.parts != a.part:
            continue
        m = json.loads(x)
        for j in rng.choice(len(PAIRS), a.per_shape, replace=False):
            s = Shape(rng, *PAIRS[j], nrec=len(m["seqs"]), seqs=m["seqs"], beams=m["beams"], small=True)
            s.ants, s.samps, s.ranges, s.lags = m["arrays"], m["samps"], m["range"], m["lag"]
            case(s)
i = 0
for rep in range(a.n):
    for v, k in PAIRS:
        i += 1
        if i % a.parts == a.part:
            case(Shape(rng, v, k))
            if rep == 0 and i % 24 < 8:       # many records
                n = int(rng.integers(11, 40))
                case(Shape(rng, v, k, nrec=n, seqs=[1] * (n - 2) + [2, 1], beams=[int(x) for x in rng.integers(1, 3, n)], small=True))
out.close()
