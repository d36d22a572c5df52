"""Synthetic Borealis data: site records, array data and the HDF5 files that hold them.

Built from the published field tables (spec/borealis_tables.json) without the library's
own formats, writers or restructuring code, so that both sides of a check are independent.
"""
import json
import os
import warnings
from collections import OrderedDict

import h5py
import numpy as np

TABLES = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                                     "spec", "borealis_tables.json")))
ALIAS = {"v0.2": "v0.4", "v0.3": "v0.4"}
VERSIONS = ["v0.2", "v0.3", "v0.4", "v0.5", "v0.6", "v0.7"]
TYPES = ["rawacf", "bfiq", "antennas_iq", "rawrf"]
NP = {"str": str, "bool_": np.bool_, "int16": np.int16, "int64": np.int64, "uint8": np.uint8, "uint32": np.uint32,
      "float32": np.float32, "float64": np.float64, "complex64": np.complex64}
TEXTS = ["", "a", "normalscan", "Test experiment, 3 slices: (a) & b", "x" * 300, "trailing space ", "line\nbreak", "Troms\u00f8 \u2013 \u65e5\u672c"]


def table(version, kind):
    return TABLES[ALIAS.get(version, version)][kind]


def git_hash(rng, version):
    return version + ["", ".1", "-12-gabc1234", ".2-3-gdeadbee"][int(rng.integers(4))]


class Shape:
    """The sizes of one synthetic file."""

    def __init__(self, rng, version, kind, nrec=None, seqs=None, beams=None, blanks=None, small=False):
        hi = 3 if small else 4
        self.version, self.kind = version, kind
        self.nrec = nrec or int(rng.integers(1, hi + 1))
        n = self.nrec
        self.seqs = list(seqs) if seqs else [int(x) for x in rng.integers(1, hi + 1, n)]
        self.beams = list(beams) if beams else [int(x) for x in rng.integers(1, hi, n)]
        self.blanks = list(blanks) if blanks is not None else [int(x) for x in rng.integers(0, hi + 1, n)]
        self.ranges = int(rng.integers(1, 4))
        self.lags = int(rng.integers(1, 5))
        self.pulses = int(rng.integers(1, 5))
        self.ants = int(rng.integers(1, 4))
        self.samps = int(rng.integers(1, 5))
        self.tx = int(rng.integers(1, 5))
        # how phase offsets are present: one per pulse, one per sequence and pulse, or none
        self.phase = ["zeros", "pulse", "sequence", "empty"][int(rng.integers(4))]
        if table(version, kind)["unshared"].get("pulse_phase_offset") is None and self.phase == "sequence":
            self.phase = "pulse"

    def model(self):
        """The shape as the specification has it."""
        return {"seqs": self.seqs, "beams": self.beams, "blanks": self.blanks, "range": self.ranges, "lag": self.lags,
                "ant": self.ants, "samp": self.samps, "tx": self.tx, "pulses": self.pulses,
                "phase": "sequence" if self.phase == "sequence" else "pulse"}

    @classmethod
    def of_model(cls, rng, version, kind, m):
        s = cls(rng, version, kind, nrec=len(m["seqs"]), seqs=m["seqs"], beams=m["beams"], blanks=m["blanks"])
        s.ranges, s.lags, s.ants, s.samps, s.tx, s.pulses = (m[k] for k in ("range", "lag", "ant", "samp", "tx", "pulses"))
        if m["phase"] == "sequence" and table(version, kind)["unshared"].get("pulse_phase_offset") is not None:
            s.phase = "sequence"
        elif s.phase == "sequence":
            s.phase = "pulse"
        return s

    def dim(self, name, i):
        return {"seq": self.seqs[i], "beam": self.beams[i], "blank": self.blanks[i], "range": self.ranges,
                "lag": self.lags, "ant": self.ants, "samp": self.samps, "tx": self.tx}[name]


def number(rng, t, shape=()):
    d = NP[t]
    if t == "bool_":
        v = rng.integers(0, 2, shape).astype(bool)
    elif t in ("float32", "float64"):
        v = rng.normal(size=shape) * 10.0 ** rng.integers(-3, 6, shape)
        if rng.random() < 0.2:
            v = np.where(rng.random(shape) < 0.2, np.nan, v)
    elif t == "complex64":
        v = rng.normal(size=shape) * 100 + 1j * rng.normal(size=shape) * 100
    else:
        info = np.iinfo(d)
        v = rng.integers(max(info.min, -2**40), min(info.max, 2**40), shape)
    v = np.asarray(v).astype(d)
    return v if shape != () else d(v)


def text(rng):
    return TEXTS[int(rng.integers(len(TEXTS)))]


def words(rng, n, t):
    w = [["main", "intf", "antenna_%d" % i, "q", ""][int(rng.integers(5))] for i in range(n)]
    if not any(w):
        w[0] = "main"
    return np.array(w, dtype=np.str_) if t == "str_" else np.array([x.encode() for x in w], dtype=np.bytes_)


def names(ws, t):
    return np.array(ws, dtype=np.str_) if t == "str_" else np.array([w.encode() for w in ws], dtype=np.bytes_)


def some_time(rng):
    """A first sequence time <seconds, microseconds>, clear of the millisecond edges."""
    return [1500000000 + int(rng.integers(0, 10**8)), int(rng.integers(0, 1000)) * 1000 + int(rng.integers(200, 800))]


def some_time_after(rng, tm):
    return [tm[0] + int(rng.integers(1, 70)), some_time(rng)[1]]


def key_of(tm):
    """Record name of a first sequence time: whole milliseconds since the epoch."""
    return str(tm[0] * 1000 + tm[1] // 1000)


def phase(rng, s, i):
    if s.phase == "zeros":
        return np.zeros(s.pulses, np.float32)
    if s.phase == "empty":
        return np.zeros(0, np.float32)
    if s.phase == "pulse":
        return np.asarray(rng.integers(-180, 180, s.pulses), np.float32)
    return np.asarray(rng.integers(-180, 180, (s.seqs[i], s.pulses)), np.float32)


def site_records(rng, s):
    """Valid site records of shape s, in time order."""
    f = table(s.version, s.kind)
    out = OrderedDict()
    shared = {}
    tm = some_time(rng)
    s.times = []
    ph = phase(rng, s, 0)
    for i in range(s.nrec):
        rec, t0 = {}, tm[0] + tm[1] / 1e6
        for k, t in f["site_attrs"].items():
            if f["restructurable"] and k in f["shared"]:
                if k not in shared:
                    shared[k] = text(rng) if t == "str" else number(rng, t)
                rec[k] = shared[k]
            else:
                rec[k] = text(rng) if t == "str" else number(rng, t)
        if "borealis_git_hash" not in shared:
            shared["borealis_git_hash"] = ""
        if not out:
            shared["borealis_git_hash"] = git_hash(rng, s.version)
        rec["borealis_git_hash"] = shared["borealis_git_hash"]
        if "num_sequences" in rec:
            rec["num_sequences"] = np.int64(s.seqs[i])
        for k, t in f["site_arrays"].items():
            if k in f["unshared"] and k != "pulse_phase_offset":
                sh = tuple(s.dim(d, i) for d in f["unshared"][k])
                v = number(rng, t, sh)
                if k in f["flat"]:
                    v = v.reshape(-1)
                if k == "beam_nums" and rng.random() < 0.4:     # as an experiment gives them, sometimes one twice
                    v = rng.integers(0, 16 if rng.random() < 0.5 else 2, sh).astype(v.dtype)
            elif k == "pulse_phase_offset":
                v = phase(rng, s, i) if k in f["unshared"] else ph
            elif k == f.get("descriptors"):
                v = names(f["site_descriptors"], t)
            elif k == f.get("dimensions"):
                v = np.array([s.dim(d, i) for d in f["dims"]], np.uint32)
            elif f["restructurable"] and k in f["shared"] and k in shared:
                v = shared[k]
            else:
                n = {"pulses": s.pulses, "blanked_samples": s.blanks[0], "sqn_timestamps": s.seqs[i]}.get(k)
                if t in ("str_", "bytes_"):
                    v = words(rng, s.ants, t)
                elif k == "lags":
                    v = number(rng, t, (s.lags, 2))
                elif k == "data_dimensions":
                    v = np.array([s.ants, s.seqs[i], s.samps], np.uint32)
                elif k == "data":
                    v = number(rng, t, (s.ants * s.seqs[i] * s.samps,))
                elif k == "tx_antenna_phases":
                    v = number(rng, t, (s.tx,))
                else:
                    v = number(rng, t, (n if n is not None else 2,))
                shared[k] = v
            rec[k] = v
        rec["sqn_timestamps"] = np.array([t0 + j * 0.1 for j in range(s.seqs[i])], np.float64)
        if rng.random() < 0.3:      # fields in any order
            ks = list(rec)
            rec = {ks[j]: rec[ks[j]] for j in rng.permutation(len(ks))}
        out[key_of(tm)] = rec
        s.times.append(tm)
        tm = [tm[0] + int(rng.integers(1, 4)), tm[1]] if rng.random() < 0.5 else some_time_after(rng, tm)
    return out


FILL = {"int64": -1, "uint32": 0, "uint8": 0, "float32": np.nan, "float64": np.nan, "complex64": np.nan}


def to_arrays(s, recs):
    """Array data of site records (independent of the library)."""
    f = table(s.version, s.kind)
    rl = list(recs.values())
    out = {}
    for k in f["shared"]:
        out[k] = rl[0][k]
    for k, dims in f["unshared"].items():
        t = f["site_attrs"].get(k) or f["site_arrays"][k]
        if k in f["site_attrs"]:
            out[k] = np.array([r[k] for r in rl], dtype=np.str_ if t == "str" else NP[t])
            continue
        vals = [r[k].reshape([s.dim(d, i) for d in dims]) if k in f["flat"] else r[k] for i, r in enumerate(rl)]
        sh = tuple(max(v.shape[j] for v in vals) for j in range(vals[0].ndim))
        a = np.full((len(rl),) + sh, FILL[t], dtype=NP[t])
        for i, v in enumerate(vals):
            a[(i,) + tuple(slice(0, n) for n in v.shape)] = v
        out[k] = a
    for k, d in f["counts"].items():
        out[k] = np.array([s.dim(d, i) for i in range(s.nrec)], np.uint32)
    out[f["descriptors"]] = names(f["array_descriptors"], f["array_arrays"][f["descriptors"]])
    return out


def put(node, k, v):
    """Stores one field in an HDF5 node the way Borealis files do."""
    if isinstance(v, str):
        node.attrs[k] = np.bytes_(v.encode("utf-8"))
    elif isinstance(v, np.ndarray):
        if v.dtype.kind == "U":
            d = node.create_dataset(k, data=np.ascontiguousarray(v).view(np.uint8))
            d.attrs["strtype"] = b"unicode"
            d.attrs["itemsize"] = v.dtype.itemsize // 4
        else:
            node.create_dataset(k, data=v)
    else:
        node.attrs[k] = v


def dress(node, top=True):
    """The bookkeeping that PyTables and deepdish, which wrote the older Borealis files, leave in a file."""
    if top:
        node.attrs["DEEPDISH_IO_VERSION"] = np.int64(10)
        node.attrs["PYTABLES_FORMAT_VERSION"] = np.bytes_(b"2.1")
    group = isinstance(node, h5py.Group)
    node.attrs["CLASS"] = np.bytes_(b"GROUP" if group else b"CARRAY")
    node.attrs["TITLE"] = h5py.Empty("S1")
    node.attrs["VERSION"] = np.bytes_(b"1.0" if group else b"1.1")
    if group:
        for x in node.values():
            dress(x, False)


def foreign(node):
    """Numbers stored the way a big-endian host does, and in chunks."""
    for k, x in list(node.items()):
        if isinstance(x, h5py.Group):
            foreign(x)
        elif x.dtype.kind in "iuf" and x.size > 0 and "strtype" not in x.attrs and len(k) % 2:
            v, old = x[()], dict(x.attrs)
            del node[k]
            d = node.create_dataset(k, data=v.astype(v.dtype.newbyteorder(">")), chunks=True)
            for n, y in old.items():
                d.attrs[n] = y


def put_pytables(path, root, groups):
    """The file as PyTables itself writes it: flags are bit fields, texts have the length they have."""
    import tables
    with warnings.catch_warnings(), tables.open_file(path, "w") as f:
        warnings.simplefilter("ignore")
        f.root._v_attrs.DEEPDISH_IO_VERSION = 10
        for name, fields in ([("", root)] if root else list(groups.items())):
            g = f.create_group("/", name) if name else f.root
            for k, v in fields.items():
                if not isinstance(v, np.ndarray):
                    setattr(g._v_attrs, k, np.bool_(v) if k in FLAGS else v)
                elif v.dtype.kind == "U":
                    c = f.create_carray(g, k, obj=np.ascontiguousarray(v).view(np.uint8))
                    c._v_attrs.strtype, c._v_attrs.itemsize = "unicode", v.dtype.itemsize // 4
                else:
                    f.create_carray(g, k, obj=v)


FLAGS = ("scan_start_marker", "gps_locked")


def storable(fields):
    """Whether PyTables stores these fields as they are."""
    return all(v.size > 0 and v.dtype.kind != "b" if isinstance(v, np.ndarray)
               else not isinstance(v, (bool, np.bool_)) and (not isinstance(v, str) or "\0" not in v)
               for v in fields.values()) and all(fields.get(k, 0) in (0, 1) for k in FLAGS if not isinstance(fields.get(k), np.ndarray))


STYLE = [0]     # how the next file is written: in turn plainly, with bookkeeping, by PyTables


def put_file(path, root, groups, plain_only):
    STYLE[0] += 1
    style = STYLE[0] % 3
    if style == 1 and not plain_only and all(storable(x) for x in ([root] if root else groups.values())):
        return put_pytables(path, root, groups)
    with h5py.File(path, "w") as f:
        if root is not None:
            for k, v in root.items():
                put(f, k, v)
        else:
            for name, rec in groups.items():
                g = f.create_group(name)
                for k, v in rec.items():
                    put(g, k, v)
        if style == 2:
            dress(f)
        if STYLE[0] % 4 == 0:
            foreign(f)


def put_site(path, recs, broken=False, odd=False):
    """broken: empty phase offsets the way deepdish stored an empty array, as its dimensions.
    odd: the fields may be of types that only h5py stores as they are."""
    if broken:
        recs = {n: {k: np.array([0], np.int64) if k == "pulse_phase_offset" else v for k, v in r.items()}
                for n, r in recs.items()}
    put_file(path, None, recs, odd)


def put_arrays(path, arrays, broken=False, odd=False):
    if broken:
        arrays = {k: np.array([len(arrays["num_sequences"]), 0], np.int64) if k == "pulse_phase_offset" else v
                  for k, v in arrays.items()}
    put_file(path, arrays, None, odd)
