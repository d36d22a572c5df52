"""Borealis field checks: damaged and undamaged data read and written
(events of spec/TraceBorealisChecks.tla)."""
import argparse
import copy
import json
import os

import numpy as np

import gen_bor
from bor import attempt, digest, dumps, fields, records, sha
from gen_bor import Shape, VERSIONS, put_arrays, put_site, site_records, table, to_arrays
from proj import quiet

from pydarnio import BorealisRead, BorealisRestructure, BorealisWrite

quiet()
ap = argparse.ArgumentParser()
ap.add_argument("--out", required=True)
ap.add_argument("--cases", required=True)
ap.add_argument("--per-case", type=int, default=1)
ap.add_argument("--sweep", type=int, default=0, help="so many damages of one field, of all there are")
ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--part", type=int, default=0)
ap.add_argument("--parts", type=int, default=1)
a = ap.parse_args()
rng = np.random.default_rng([a.seed, a.part, 77])
out = open(a.out, "w")
D = os.environ["VERIF_SCRATCH"]
COUNT = [0]


def one(xs):
    return xs[int(rng.integers(len(xs)))]


def fresh(name):
    COUNT[0] += 1
    return os.path.join(D, "%d-%s" % (COUNT[0], name))


def kind_of(x, stored):
    """How a field is seen; stored: through a file, where an array without dimensions is a single value."""
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            return ["num" if stored else "arr", x.dtype.type.__name__, 0]
        return ["arr", x.dtype.type.__name__, int(x.shape[0])]
    if isinstance(x, np.generic) and not isinstance(x, (np.str_, np.bytes_)):
        return ["num", type(x).__name__, 0]
    if type(x) is str:
        return ["text", "str", 0]
    return ["other", type(x).__name__, 0]


def kinds(rec, stored):
    return [[k] + kind_of(v, stored) for k, v in rec.items()]


OTHER = {"int64": [np.int32, np.float64], "int16": [np.int32, np.uint16], "uint32": [np.int32, np.uint64, np.float32],
         "uint8": [np.int8, np.bool_], "bool_": [np.uint8, np.int64], "float32": [np.float64, np.int32],
         "float64": [np.float32, np.int64], "complex64": [np.complex128, np.float32], "str_": [np.int64, np.float32],
         "bytes_": [np.int64], "str": [np.int64, np.float32]}
ANY = [np.bool_, np.int8, np.int16, np.int32, np.int64, np.uint8, np.uint16, np.uint32, np.uint64, np.float16, np.float32,
       np.float64, np.complex64, np.complex128]


def other(t):
    """Another element type, often one that is easily taken for t."""
    if t in ("str_", "bytes_", "str") or rng.random() < 0.5:
        return one(OTHER[t])
    return one([x for x in ANY if x.__name__ != t])


def retype(x, stored, field):
    if isinstance(x, str):
        c = [np.int64(3), np.float32(1.5)]
        if not stored:
            c += [b"bytes", np.bytes_(b"v0"), np.str_(x), 3, None, ["v"]]
        return one(c)
    t = x.dtype.type.__name__
    if isinstance(x, np.ndarray):
        if t in ("str_", "bytes_"):
            return np.zeros(x.shape, other(t)) if not stored or rng.random() < 0.5 else \
                (np.array([w.encode() for w in x]) if t == "str_" else np.array([w.decode() for w in x]))
        with np.errstate(all="ignore"):
            if field == "pulse_phase_offset" and x.shape != (2,) and rng.random() < 0.5:
                return x.astype(np.int64)       # as in broken files, which are accepted
            return x.astype(other(t))
    if not stored and rng.random() < 0.4:
        return one([x.item(), "7", None])
    with np.errstate(all="ignore"):
        return one([np.dtype(other(t)).type(1)] * 3 + ["text"])


def pick_field(f, form, role, phase_ok):
    """A field of the real format for a field of the model's format."""
    attrs, arrays = (f["site_attrs"], f["site_arrays"]) if form == "site" else (f["array_attrs"], f["array_arrays"])
    if role == "borealis_git_hash":
        return role
    if role == "attr":
        return one([k for k in sorted(attrs) if k != "borealis_git_hash"])
    # phase offsets of a size that stands for none are replaced on reading
    skip = () if phase_ok else ("pulse_phase_offset",)
    per = sorted(k for k in arrays if k in f.get("unshared", {}) and k not in skip)
    counts = sorted(k for k in arrays if k in f.get("counts", {}))
    if role == "count":
        return one(counts)
    if role == "per" and per:
        return one(per)
    rest = sorted(k for k in arrays if k not in per and k not in counts and k not in skip)
    return one(rest or per)


def damage(data, f, form, steps, stored, phase_ok):
    """Applies the model's damages; data: list of records (one for array data)."""
    chosen = {}
    for s in steps:
        role = s["field"]
        rec = data[s["rec"] - 1]
        if s["what"] == "extra":
            for _ in range(int(rng.integers(1, 3))):
                rec[one(["zz", "num_beam", "extra field", "Station", "n"])] = \
                    one([np.int64(1), "text", np.zeros(2, np.float32), np.float64(2.5)])
            continue
        if s["what"] == "empty":
            pub = (f["site_attrs"], f["site_arrays"]) if form == "site" else (f["array_attrs"], f["array_arrays"])
            for k in list(rec):
                if k in pub[0] or k in pub[1]:
                    del rec[k]
            continue
        key = (s["rec"], role)
        if role.startswith("="):        # a field by name
            chosen[key] = role[1:]
        elif key not in chosen:
            taken = [v for (r, _), v in chosen.items() if r == s["rec"]]
            name = pick_field(f, form, role, phase_ok)
            for _ in range(20):
                if name not in taken:
                    break
                name = pick_field(f, form, role, phase_ok)
            chosen[key] = name
        name = chosen[key]
        if name not in rec:
            continue
        x = rec[name]
        if s["what"] == "drop":
            del rec[name]
            if role != "borealis_git_hash" and rng.random() < 0.1:      # the only ones that are optional elsewhere
                rec.pop("pulse_phase_offset", None)
        elif s["what"] == "retype":
            rec[name] = retype(x, stored, name)
        elif s["what"] == "single":
            rec[name] = one([np.float64(1.5), "text", np.dtype(x.dtype.type).type(1) if x.dtype.kind not in "SU" else np.int16(1)])
        elif s["what"] == "array":
            rec[name] = np.array([1, 2]) if isinstance(x, str) else np.array([x, x])
        elif s["what"] == "longer":
            rec[name] = np.concatenate([x, x[:1]])


def told_errors(e, oc, err, names):
    site = e["form"] == "site"
    pos = {str(n): i + 1 for i, n in enumerate(sorted(names))}

    def listed(d):
        return [[pos.get(str(r), 0), sorted(str(x) for x in d[r])] for r in d]
    e["missing"], e["extra"], e["wrong"] = [], [], []
    if oc == "BorealisBadRecordsError" and site:
        e["missing"], e["extra"], e["wrong"] = listed(err.missing_fields), listed(err.extra_fields), listed(err.incorrect_fields)
    elif oc == "BorealisFieldMissingError" and not site:
        e["missing"] = sorted(str(x) for x in err.fields)
    elif oc == "BorealisExtraFieldError" and not site:
        e["extra"] = sorted(str(x) for x in err.fields)
    elif oc == "BorealisDataFormatTypeError" and not site:
        e["wrong"] = sorted(str(x) for x in err.incorrect_types)


def case(m, v, k):
    f = table(v, k)
    form = m["form"]
    more = 0
    if form == "site" and m["steps"] and rng.random() < 0.015:       # the damage is in a late record of many
        more = int(rng.integers(10, 70))
        m = dict(m, n=m["n"] + more, steps=[dict(x, rec=x["rec"] + more) for x in m["steps"]])
    s = Shape(rng, v, k, nrec=m["n"] if form == "site" else None, small=True)
    if form == "array" and s.nrec < 2:
        s = Shape(rng, v, k, nrec=2, small=True)
    if s.phase == "empty" and any(x["field"] == "=pulse_phase_offset" for x in m["steps"]):
        s.phase = "zeros"
    recs = site_records(rng, s)
    stored = bool(rng.integers(2))
    told = bool(rng.integers(3))
    if form == "site":
        names = list(recs)
        data = [recs[n] for n in names]
        damage(data, f, form, m["steps"], stored, s.phase != "empty")
    else:
        names = ["all"]
        data = [to_arrays(s, recs)]
        damage(data, f, form, m["steps"], stored, s.phase != "empty")
    e = {"ev": "check", "form": form, "version": v, "table": gen_bor.ALIAS.get(v, v), "kind": k, "told": told,
         "steps": m["steps"], "recs": [kinds(d, stored) for d in data]}
    whole = {n: d for n, d in zip(names, data)} if form == "site" else data[0]
    if stored and f["restructurable"] and rng.random() < 0.35:
        p, q = fresh("in.h5"), fresh("out.h5")
        (put_site if form == "site" else put_arrays)(p, whole, odd=True)
        before = sha(p)
        e["dir"] = "restructure"
        oc, err = attempt(lambda: BorealisRestructure(p, q, k, "array" if form == "site" else "site"))
        e["kept"] = sha(p) == before
        e["file"] = "same" if not os.path.exists(q) else "new"
    elif stored:
        p = fresh("in.h5")
        (put_site if form == "site" else put_arrays)(p, whole, odd=True)
        before = sha(p)
        e["dir"] = "read"
        oc, err = attempt(lambda: BorealisRead(p, k, form) if told else BorealisRead(p, k))
        e["kept"] = sha(p) == before
        e["file"] = "same"
    else:
        p = fresh("out.h5")
        if m["steps"] and rng.random() < 0.5:
            if rng.random() < 0.5:
                with open(p, "wb") as h:
                    h.write(b"something else" * int(rng.integers(1, 400)))
            else:
                put_site(p, site_records(rng, Shape(rng, v, k, small=True)))
        before = sha(p)
        mine = copy.deepcopy(whole)

        def ident():
            return digest(records(mine)[1] if form == "site" else fields(mine))
        h = ident()
        e["dir"] = "write"
        oc, err = attempt(lambda: BorealisWrite(p, mine, k, form) if told else BorealisWrite(p, mine, k))
        e["kept"] = ident() == h
        e["file"] = "same" if sha(p) == before else "new"
    e["outcome"] = oc
    told_errors(e, oc, err, names)
    out.write(dumps(e) + "\n")
    for x in os.listdir(D):
        os.unlink(os.path.join(D, x))


every = [(v, k) for v in VERSIONS for k in gen_bor.TYPES]
for i, x in enumerate(x for x in open(a.cases) if x.strip()):
    if i % a.parts != a.part:
        continue
    m = json.loads(x)
    for _ in range(a.per_case):
        v, k = one([p for p in every if m["form"] == "site" or table(*p)["restructurable"]])
        case(m, v, k)
if a.sweep:
    todo = []
    for v, k in every:
        f = table(v, k)
        for form in ["site", "array"] if f["restructurable"] else ["site"]:
            for name in sorted(list(f[form + "_attrs"]) + list(f[form + "_arrays"])):
                whats = ["drop", "retype", "retype"]
                if form == "array" and (name in f["unshared"] or name in f["counts"]):
                    whats.append("longer")
                todo += [(v, k, form, name, w) for w in whats]
    todo = [todo[i] for i in sorted(np.random.default_rng(a.seed).permutation(len(todo))[:a.sweep])]
    for v, k, form, name, w in todo[a.part::a.parts]:
        n = int(rng.integers(1, 4)) if form == "site" else 1
        case({"form": form, "n": n, "steps": [{"what": w, "rec": int(rng.integers(1, n + 1)), "field": "=" + name}]}, v, k)
out.close()
