"""Borealis files: reading, writing and restructuring (events of spec/TraceBorealis.tla)."""
import argparse
import copy
import json
import os

import numpy as np

import gen_bor
from bor import attempt, digest, dumps, fields, mute, names_of, raw_arrays, raw_site, records, sha
from gen_bor import Shape, VERSIONS, put_arrays, put_site, site_records, table, to_arrays
from proj import quiet

import pydarnio
from pydarnio import BorealisRead, BorealisRestructure, BorealisWrite

quiet()
ap = argparse.ArgumentParser()
ap.add_argument("--out", required=True)
ap.add_argument("--mode", required=True)            # site | array | memory | file | untold
ap.add_argument("--shapes")                         # shapes emitted by the model
ap.add_argument("--n", type=int, default=1)         # random cases per version and type
ap.add_argument("--per-shape", type=int, default=1)  # version/type pairs per shape
ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--part", type=int, default=0)
ap.add_argument("--parts", type=int, default=1)
ap.add_argument("--one")
a = ap.parse_args()
rng = np.random.default_rng([a.seed, a.part, len(a.mode)])
out = open(a.out, "w")
D = os.environ["VERIF_SCRATCH"]
COUNT = [0]


def fresh(name):
    COUNT[0] += 1
    return os.path.join(D, "%d-%s" % (COUNT[0], name))


def reader_obs(what, prop, path, kind, told, ask, version, source=None):
    """Reads path and asks for records or arrays."""
    before = sha(path)
    source = source or told
    box = {}

    def go():
        r = BorealisRead(path, kind, told) if told else BorealisRead(path, kind)
        box["r"] = r
        return getattr(r, ask)
    oc, got = attempt(go)
    o = {"what": what, "prop": prop, "outcome": oc, "as": ask, "kept": sha(path) == before,
         "source": source}
    if oc == "ok":
        fill(o, ask, got)
        o["structure"] = box["r"].borealis_file_structure
        o["version"] = box["r"].software_version
        o["record_names"] = names_of(box["r"].record_names) if table(version, kind)["restructurable"] \
            or o["structure"] == "site" else o.get("names", [])
    return o


def fill(o, ask, got):
    if ask == "records":
        o["names"], o["recs"] = records(got)
    else:
        o["arrs"] = fields(got)


def laid_out(v):
    """The same array, otherwise laid out in memory."""
    how = int(rng.integers(6))
    if not isinstance(v, np.ndarray) or v.ndim == 0 or how > 3:
        return v
    if how == 0:
        return np.asfortranarray(v)
    if how == 1 and v.dtype.itemsize > 1:
        return v.astype(v.dtype.newbyteorder(">"))
    w = np.zeros(v.shape[:-1] + (2 * v.shape[-1],), v.dtype)
    y = w[..., ::2] if how == 2 else w[..., v.shape[-1]:][..., ::-1]
    y[...] = v
    return y


def writer_obs(what, prop, data, kind, told, form, ask, version, comp):
    """Writes data, then looks at the file without the library and at the writer's own view."""
    path = fresh("w.h5")
    mine = copy.deepcopy(data)
    if rng.random() < 0.5:
        for r in (mine.values() if form == "site" else [mine]):
            for k in r:
                r[k] = laid_out(r[k])
    ident = digest(records(mine)[1] if form == "site" else fields(mine))
    kw = {} if comp == "default" else {"hdf5_compression": comp}
    box = {}

    def go():
        box["w"] = BorealisWrite(path, mine, kind, told, **kw) if told else BorealisWrite(path, mine, kind, **kw)
        return getattr(box["w"], ask) if ask != "file" else raw_site(path) if form == "site" else raw_arrays(path)
    oc, got = attempt(go)
    kept = digest(records(mine)[1] if form == "site" else fields(mine)) == ident
    o = {"what": what, "prop": prop, "outcome": oc, "as": {"file": "records" if form == "site" else "arrays"}.get(ask, ask),
         "kept": kept, "source": form}
    if oc == "ok":
        fill(o, o["as"], got)
        o["structure"] = box["w"].borealis_file_structure
        o["version"] = box["w"].software_version
        o["record_names"] = names_of(box["w"].record_names)
    return o, path


def restructure_obs(what, src, kind, to, comp):
    dst = fresh("r.h5")
    before = sha(src)
    oc, got = attempt(lambda: (BorealisRestructure(src, dst, kind, to, hdf5_compression=comp),
                               raw_site(dst) if to == "site" else raw_arrays(dst))[1])
    o = {"what": what, "prop": "P12", "outcome": oc, "as": "records" if to == "site" else "arrays", "kept": sha(src) == before}
    if oc == "ok":
        fill(o, o["as"], got)
    return o, dst


def case(s):
    v, k = s.version, s.kind
    recs = site_records(rng, s)
    names, proj = records(recs)
    f = table(v, k)
    e = {"ev": "case", "version": v, "table": gen_bor.ALIAS.get(v, v), "kind": k, "shape": s.model(), "times": s.times,
         "names": names, "recs": proj, "obs": []}
    arrays = to_arrays(s, recs) if f["restructurable"] else None
    site = fresh("s.h5")
    broken = s.phase == "empty" and s.pulses > 1 and rng.random() < 0.5
    put_site(site, recs, broken)
    arr = None
    if arrays is not None:
        arr = fresh("a.h5")
        put_arrays(arr, arrays, broken)
    comp = [None, "gzip", "lzf"][int(rng.integers(3))]
    obs = e["obs"]
    if a.mode == "site":
        obs.append(reader_obs("read", "P09", site, k, "site", "records", v))
        given = recs
        if rng.random() < 0.5:      # in any order
            given = type(recs)((n, recs[n]) for n in (list(recs)[i] for i in rng.permutation(len(recs))))
        o, p = writer_obs("write", "P09", given, k, "site", "site", "file", v, comp)
        obs.append(o)
        if o["outcome"] == "ok":
            obs.append(reader_obs("write-read", "P09", p, k, "site", "records", v))
        o, p = writer_obs("write-untold", "P09", recs, k, None, "site", "file", v, comp)
        obs.append(o)
    elif a.mode == "untold":
        obs.append(reader_obs("read-untold-site", "P14", site, k, None, "records", v, "site"))
        if arr:
            obs.append(reader_obs("read-untold-array", "P14", arr, k, None, "arrays", v, "array"))
            obs.append(reader_obs("ask-records-untold", "P14", arr, k, None, "records", v, "array"))
            obs.append(reader_obs("ask-arrays-untold", "P14", site, k, None, "arrays", v, "site"))
    elif a.mode == "array" and arr:
        obs.append(reader_obs("read", "P10", arr, k, "array", "arrays", v))
        o, p = writer_obs("write", "P10", arrays, k, "array", "array", "file", v, [comp, "default"][int(rng.integers(2))])
        obs.append(o)
        if o["outcome"] == "ok":
            obs.append(reader_obs("write-read", "P10", p, k, "array", "arrays", v))
        o, p = writer_obs("write-untold", "P10", arrays, k, None, "array", "file", v, "default")
        obs.append(o)
    elif a.mode == "memory" and arr:
        obs.append(reader_obs("site-reader", "P11", site, k, "site", "arrays", v))
        obs.append(reader_obs("array-reader", "P11", arr, k, "array", "records", v))
        o, p = writer_obs("site-writer", "P11", recs, k, "site", "site", "arrays", v, None)
        obs.append(o)
        o, p = writer_obs("array-writer", "P11", arrays, k, "array", "array", "records", v, None)
        obs.append(o)
        # there and back, each step by the library
        def there():
            return BorealisRead(site, k, "site").arrays
        oc, arrs = attempt(there)
        if oc == "ok":
            o, p = writer_obs("there-and-back", "P11", arrs, k, "array", "array", "records", v, None)
            obs.append(o)
    elif a.mode == "file" and arr:
        o, p = restructure_obs("to-arrays", site, k, "array", comp)
        obs.append(o)
        if o["outcome"] == "ok":
            obs.append(reader_obs("to-arrays-read", "P12", p, k, "array", "arrays", v))
            o, p = restructure_obs("there-and-back", p, k, "site", comp)
            obs.append(o)
        o, p = restructure_obs("to-site", arr, k, "site", comp)
        obs.append(o)
        if o["outcome"] == "ok":
            obs.append(reader_obs("to-site-read", "P12", p, k, "site", "records", v))
            o, p = restructure_obs("back-and-there", p, k, "array", comp)
            obs.append(o)
    for x in os.listdir(D):
        os.unlink(os.path.join(D, x))
    if obs:
        out.write(dumps(e) + "\n")


def pairs():
    ks = ["rawacf", "bfiq", "antennas_iq"] + (["rawrf"] if a.mode in ("site", "untold") else [])
    return [(v, k) for v in VERSIONS for k in ks]


with mute():
    pass
if a.shapes:
    lines = [x for x in open(a.shapes) if x.strip()]
    every = pairs()
    for i, x in enumerate(lines):
        if i % a.parts != a.part:
            continue
        m = json.loads(x)
        for j in rng.choice(len(every), a.per_shape, replace=False):
            case(Shape.of_model(rng, every[j][0], every[j][1], m))
i = 0
for rep in range(a.n):
    for v, k in pairs():
        i += 1
        if i % a.parts == a.part:
            case(Shape(rng, v, k, small=True))
            if rep == 0 and i % 12 < 8:       # many records, a late one the largest
                n = int(rng.integers(11, 50))
                big = [int(x) for x in rng.integers(1, 3, n)]
                big[int(rng.integers(10, n))] = 3
                case(Shape(rng, v, k, nrec=n, seqs=big, beams=big[::-1] if rng.random() < .5 else big, small=True))
out.close()
