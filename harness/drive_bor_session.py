"""Replays sessions made by TLC from spec/MCBorealisSession.tla in the real library
(events of spec/TraceBorealisSession.tla)."""
import argparse
import copy
import hashlib
import json
import os
import shutil

import numpy as np

import pydarnio
from bor import attempt, digest, dumps, fields, raw_arrays, raw_site, records, sha
from enc import encode_all
from gen_bor import Shape, put_arrays, put_site, site_records, to_arrays
from gen_convert import convertible
from gen_dmap import model
from proj import quiet

quiet()
ap = argparse.ArgumentParser()
ap.add_argument("--out", required=True)
ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--sessions", required=True)
ap.add_argument("--part", type=int, default=0)
ap.add_argument("--parts", type=int, default=1)
a = ap.parse_args()
out = open(a.out, "w")
scratch = os.environ["VERIF_SCRATCH"]
rng = np.random.default_rng([a.seed, a.part, 1417])
NONE = "none"
NEW = ["v0.5", "v0.6", "v0.7"]
OLD = ["v0.2", "v0.3", "v0.4"]


def one(xs):
    return xs[int(rng.integers(len(xs)))]


def canon(rec):
    """A record's values; phase offsets that say nothing are the same in all their forms."""
    f = fields(rec)
    p = f.get("pulse_phase_offset")
    if p is not None and p["t"] in ("float32", "int64") and (p["t"] == "int64" or all(x in ("zero", "nan") for x in p["v"])):
        f["pulse_phase_offset"] = {"k": "none"}
    return f


def print_of(form, data):
    if not hasattr(data, "items"):
        return "not data"
    if form == "site":
        return digest({str(k): canon(r) for k, r in data.items()})
    return digest(canon(data))


def break_site(recs):
    names = list(recs)
    r = recs[one(names)]
    f = one([k for k in r if k not in ("borealis_git_hash",)])
    w = int(rng.integers(3))
    if w == 0:
        del r[f]
    elif w == 1:
        r["zz_unknown"] = np.float32(1)
    else:
        f = one([k for k, v in r.items() if isinstance(v, np.ndarray) and v.dtype.kind in "fc"])
        r[f] = r[f].astype(np.int16)
    return w, f


def break_arrays(arrays, w, f):
    if w == 0 and f in arrays:
        del arrays[f]
    elif w == 2 and f in arrays:
        arrays[f] = arrays[f].astype(np.int16)
    else:
        arrays["zz_unknown"] = np.zeros(len(arrays["num_sequences"]), np.float32)


def scribble(x):
    """The caller overwrites what a reader or a writer gave it."""
    if not isinstance(x, dict):
        return
    for k, v in list(x.items()):
        if isinstance(v, dict):
            scribble(v)
        elif isinstance(v, np.ndarray) and v.flags.writeable and v.dtype.kind in "iufc":
            v[...] = 0
        elif rng.random() < 0.5:
            x[k] = None
    if x and rng.random() < 0.5:
        del x[one(list(x))]


def reuse(pool, form, data):
    """The caller's own dictionary for data of this form, which it fills anew for every write."""
    new = copy.deepcopy(data)
    if rng.random() < 0.5:
        return new
    mine = pool.setdefault(form, type(new)())
    if form == "site" and len(mine) == len(new) and rng.random() < 0.5:
        recs = list(mine.values())
        for r, n in zip(recs, new.values()):
            r.clear()
            r.update(n)
        new = type(new)(zip(new, recs))
    mine.clear()
    mine.update(new)
    return mine


class Data:
    """The content of one abstract data set, in its forms."""

    def __init__(self, d, kinds=(), raw=None):
        kind = {"raw": "rawacf", "blank": "rawacf", "bad": "rawacf", "huge": "rawacf", "twin": "rawacf", "copy": "rawacf", "ant": "antennas_iq", "rf": "rawrf"}.get(d, "bfiq")
        v = one(OLD if d == "oldiq" else NEW if d in ("raw", "iq", "blank", "phase", "bad", "late", "huge") else OLD + NEW)
        if d == "newer":
            v = one(NEW)
        if d == "twin":
            v = one([x for x in NEW if x != raw.version])     # versions whose records name their slice
        if v == "v0.7" and kind in ("bfiq", "antennas_iq") and {"bfiq", "antennas_iq"} <= set(kinds) | {kind}:
            v = "v0.6"      # in v0.7 these two kinds have the same fields
        s = Shape(rng, v, kind, small=True, seqs=raw.shape.seqs if d == "twin" else None,
                  nrec=1 if d in ("blank", "phase") else int(rng.integers(2, 5)) if d == "late" else raw.shape.nrec if d == "twin" else None)
        self.shape = s
        self.scale, self.slice, self.kind, self.version = 1, None, kind, v
        if s.phase in ("sequence", "empty"):
            s.phase = "zeros"
        if d == "copy":
            self.shape, self.version, self.scale, self.slice = raw.shape, raw.version, raw.scale, raw.slice
            recs = copy.deepcopy(raw.forms["site"])
            for r in recs.values():
                r["int_time"] = r["int_time"] + np.float32(1)
            s = raw.shape
        elif kind in ("rawacf", "bfiq"):
            s.lags = max(2, s.lags)
            recs, abstract, self.scale = convertible(rng, s, {"blank": "blanked", "phase": "phase"}.get(d))
            if d != "blank":
                same = list(abstract[0]["blanked"])
                for n in recs:
                    recs[n]["blanked_samples"] = np.array(same, np.uint32)
            for i, r in enumerate(recs.values()):
                s.blanks[i] = len(r["blanked_samples"])
            self.slice = abstract[0]["slice"]
            if d == "twin":
                for r, name in zip(list(recs.values()), list(raw.forms["site"])):
                    r["sqn_timestamps"] = raw.forms["site"][name]["sqn_timestamps"].copy()
                recs = type(recs)(zip(raw.forms["site"], recs.values()))
        else:
            recs = site_records(rng, s)
        arrays = to_arrays(s, recs) if kind != "rawrf" else None
        if d == "bad":
            w, f = break_site(recs)
            break_arrays(arrays, w, f)
        if d == "newer":
            h = one(["v0.8", "v1.0", "v9.1-3-gabc1234", "notaversion", "v0.1", "v0.65.1", "v0.70", "v0.10"])
            for r in recs.values():
                r["borealis_git_hash"] = h
            arrays["borealis_git_hash"] = h
        if d == "huge":     # an attribute or text HDF5 cannot hold
            x = one(["h" * 70000, "\u00e9" * 40000, "bad\ud800"])
            f = one(["experiment_comment", "experiment_name", "station", "data_normalization_factor"][:2])
            list(recs.values())[int(rng.integers(len(recs)))][f] = x
            arrays[f] = x
        if d == "late":     # a record, any but the first, has no time or one that is taken
            i = int(rng.integers(1, len(recs)))
            arrays["sqn_timestamps"] = arrays["sqn_timestamps"].copy()
            arrays["sqn_timestamps"][i] = one([np.nan, 1e20, -1e20, arrays["sqn_timestamps"][int(rng.integers(i))]])
        self.forms = {"site": recs} if d != "late" else {}
        if arrays is not None:
            self.forms["array"] = arrays
        self.prints = {k: print_of(k, x) for k, x in self.forms.items()}


# a data set in the forms it has is told by what a file contains
def look(path, datas, sdarn):
    if not os.path.exists(path):
        return {"st": "absent", "d": NONE}
    b = open(path, "rb").read()
    if b == JUNK[0]:
        return {"st": "junk", "d": NONE}
    if not b.startswith(b"\x89HDF"):
        h = sdarn_print(b)
        return {"st": "sdarn", "d": sdarn.get(h, "other")}
    for form, raw in (("site", raw_site), ("array", raw_arrays)):
        try:
            h = print_of(form, raw(path))
        except Exception:       # noqa: BLE001 - not a file of this form
            continue
        for d, x in datas.items():
            if x.prints.get(form) == h:
                return {"st": form, "d": d}
    return {"st": "other", "d": "other"}


JUNK = [b""]


def sdarn_print(b):
    """Identity of the records of a SuperDARN file, the note of its making left out."""
    try:
        recs = pydarnio.DmapRead(b, True).read_records()
        ms = []
        for r in recs:
            ms.append(model({f: x for f, x in r.items() if f != "combf"}))
        return hashlib.sha1(encode_all(ms)).hexdigest()
    except Exception as e:      # noqa: BLE001 - part of what the file is
        return "not readable: " + type(e).__name__


def run_session(k, ops, pre):
    home = os.path.join(scratch, "b%d" % k)
    os.mkdir(home)
    d = os.path.join(home, "d")
    os.mkdir(d)
    os.symlink(d, os.path.join(home, "link"))
    names = ["f1", "f2", "f3"]
    paths = {f: os.path.join(d, f) for f in names}
    paths["nodir"] = os.path.join(d, "no", "f")
    JUNK[0] = one([b"junk", bytes(rng.bytes(40)), b"J" * 40000, b"\x89HD"])
    datas, sdarn, made, pool = {}, {}, {}, {}

    def need(x):
        if x in ("twin", "copy"):
            need("raw")
        if x != NONE and x not in datas:
            datas[x] = Data(x, [o["kind"] for o in ops], datas.get("raw"))
    for o in ops:
        need(o["d"])

    def reference(x):
        """What a conversion of the data set gives, from a site file of its own."""
        if x in made or x not in datas or x in ("blank", "late", "huge") or datas[x].kind not in ("rawacf", "bfiq"):
            return
        made[x] = True
        src, dst = os.path.join(home, "ref_%s.h5" % x), os.path.join(home, "ref_%s.dmap" % x)
        put_site(src, datas[x].forms["site"])
        oc, _ = attempt(lambda: pydarnio.BorealisConvert(src, datas[x].kind, dst, datas[x].slice, "site",
                                                         scaling_factor=datas[x].scale))
        if oc == "ok":
            sdarn[sdarn_print(open(dst, "rb").read())] = x
        for p in (src, dst):
            if os.path.exists(p):
                os.unlink(p)

    def alias(p):
        return one([os.path.join(home, "link", os.path.relpath(p, d)), os.path.join(d, ".", os.path.relpath(p, d)),
                    os.path.join(d, "..", "d", os.path.relpath(p, d)), os.path.relpath(p)])

    def disk():
        return {f: look(p, datas, sdarn) for f, p in paths.items()}

    def stray():
        return sorted(x for x in os.listdir(d) if x not in names) + \
            sorted(x for x in os.listdir(home) if x not in ("d", "link"))
    for f in pre:
        with open(paths[f], "wb") as h:
            h.write(JUNK[0])
    out.write(dumps({"ev": "begin", "cut": 1, "pre": list(pre), "versions": {x: v.version for x, v in datas.items()}}) + "\n")
    os.chdir(home)
    for o in ops:
        f, g = paths.get(o["f"]), paths.get(o["g"])
        kind = one(["dmap", "Rawacf", "", "iqdat"]) if o["kind"] == "bogus" else o["kind"]
        told = {"bogus": one(["Site", "arrays", ""]), NONE: None}.get(o["told"], o["told"])
        seen = {"structure": NONE, "version": NONE, "records": NONE, "arrays": NONE}
        shas = {x: sha(p) for x, p in paths.items()}
        mine = ident = None
        given = []
        now = look(f, datas, sdarn) if f else None
        if o["op"] == "write":
            mine = reuse(pool, o["form"], datas[o["d"]].forms[o["form"]])
            ident = digest(records(mine)[1] if o["form"] == "site" else fields(mine))
        if o["op"] == "convert" and now["d"] in datas:
            reference(now["d"])

        def ask(r):
            """Asks a reader or a writer for both forms of its data."""
            for x in [["records", "arrays"], ["arrays", "records"]][int(rng.integers(2))]:
                oc, got = attempt(lambda: getattr(r, x))
                if oc == "ok":
                    given.append(got)
                    form = "site" if x == "records" else "array"
                    h = print_of(form, got)
                    oc = ([n for n, y in datas.items() if y.prints.get(form) == h] + ["other"])[0]
                seen[x] = oc

        def call():
            kw = {}
            if o["op"] == "read":
                r = pydarnio.BorealisRead(f, kind, told) if told is not None else pydarnio.BorealisRead(f, kind)
                seen["structure"], seen["version"] = r.borealis_file_structure, r.software_version
                ask(r)
            elif o["op"] == "write":
                c = int(rng.integers(3))
                if c:
                    kw["hdf5_compression"] = [None, "gzip"][c - 1]
                w = pydarnio.BorealisWrite(f, mine, kind, *([told] if told is not None else []), **kw)
                seen["structure"], seen["version"] = w.borealis_file_structure, w.software_version
                ask(w)
            elif o["op"] == "restructure":
                to = one(["dmap", "Array", ""]) if o["to"] == "bogus" else o["to"]
                pydarnio.BorealisRestructure(alias(f) if o["alias"] and rng.random() < 0.5 else f,
                                             alias(g) if o["alias"] else g, kind, to)
            elif o["op"] == "convert":
                if o["slice"]:
                    kw["borealis_slice_id"] = datas[now["d"]].slice if now["d"] in datas and datas[now["d"]].slice is not None else 3
                if told is not None:
                    kw["borealis_file_structure"] = told
                if now["d"] in datas:
                    kw["scaling_factor"] = datas[now["d"]].scale
                pydarnio.BorealisConvert(alias(f) if o["alias"] and rng.random() < 0.5 else f, kind,
                                         alias(g) if o["alias"] else g, **kw)
            elif o["op"] == "put":
                (put_site if o["form"] == "site" else put_arrays)(f, datas[o["d"]].forms[o["form"]])
            elif o["op"] == "junk":
                with open(f, "wb") as h:
                    h.write(JUNK[0])
            elif o["op"] == "remove":
                os.unlink(f)
        res, why = attempt(call)
        e = {"ev": "call", "op": o, "res": res, "seen": seen, "disk": disk(),
             "changed": [x for x, p in paths.items() if sha(p) != shas[x]], "stray": stray(), "data": True}
        if mine is not None:
            e["data"] = digest(records(mine)[1] if o["form"] == "site" else fields(mine)) == ident
        if rng.random() < 0.5:
            for x in given:
                scribble(x)
            if mine is not None:        # it was given to the library, which may have handed it out again
                pool.clear()
        if res != "ok":
            e["why"] = str(why)[:120]
        out.write(dumps(e) + "\n")
    os.chdir(scratch)
    shutil.rmtree(home)


with open(a.sessions) as f:
    todo = [json.loads(x) for x in f]
for k, s in enumerate(todo[a.part::a.parts]):
    run_session(k, s["ops"], s["pre"])
out.close()
