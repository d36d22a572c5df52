"""Drives DmapWrite / DmapRead and records what they do (events of spec/TraceDmap.tla)."""
import argparse
import copy
import json
import os
import sys
import tempfile

import numpy as np

import pydarnio
from gen_dmap import huge_record, model, rand_record
from proj import CODE, NPTYPE, SIZE, outcome, plain_recs, quiet, struct_recs

quiet()
ap = argparse.ArgumentParser()
ap.add_argument("--out", required=True)
ap.add_argument("--mode", required=True)
ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--n", type=int, default=100)
ap.add_argument("--inputs")
ap.add_argument("--part", type=int, default=0)
ap.add_argument("--parts", type=int, default=1)
ap.add_argument("--big", type=int, default=0)
a = ap.parse_args()
out = open(a.out, "w")
scratch = os.environ["VERIF_SCRATCH"]


def emit(e):
    out.write(json.dumps(e, separators=(",", ":")) + "\n")


def read_bytes(b, how):
    """Reads bytes through one of the two interfaces."""
    if how == "stream":
        r = pydarnio.DmapRead(b, True)
    elif how == "bytearray":
        r = pydarnio.DmapRead(bytearray(b), data_stream=True)
    else:
        p = os.path.join(scratch, "r.dmap")
        with open(p, "wb") as f:
            f.write(b)
        r = pydarnio.DmapRead(p)
    recs = r.read_records()
    return r, recs


def do_read(b, how):
    def f():
        r, recs = read_bytes(b, how)
        return struct_recs(r.get_dmap_records), plain_recs(recs), plain_recs(r.get_records)
    o, v = outcome(f)
    if o == "ok":
        got, plain, plain2 = v
        if plain2 != plain:
            plain = plain + plain2       # the two accessors disagree: cannot match anything
        return o, got, plain
    return o, [], []


def write_both(recs, style, rng):
    """Stream and file output of one record list, from the same or different writers."""
    p = os.path.join(scratch, "w%d.dmap" % rng.integers(3))
    if style == 0:
        s = bytes(pydarnio.DmapWrite(recs).write_dmap_stream())
        pydarnio.DmapWrite(recs, p).write_dmap()
    elif style == 1:
        s = bytes(pydarnio.DmapWrite().write_dmap_stream(recs))
        pydarnio.DmapWrite(recs).write_dmap(p)
    else:
        w = pydarnio.DmapWrite(recs, filename=p)
        w.write_dmap()
        s = bytes(w.write_dmap_stream())
    with open(p, "rb") as f:
        return s, f.read()


rng = np.random.default_rng(a.seed * 1000 + a.part)
if a.mode in ("write", "roundtrip"):
    for k in range(a.n):
        if k == 0:
            # one field of every type, both as scalar and as array, in both dictionary and structure form
            nrec = 2
        else:
            nrec = int(rng.choice([1, 1, 2, 3, 5]))
        recs = [rand_record(rng, big=bool(a.big)) for _ in range(nrec)]
        if len(recs) > 1:       # a list holds either plain dictionaries or structures
            st = rng.random() < 0.4
            recs = [rand_record(rng, big=bool(a.big), structs=st) for _ in range(nrec)]
        if a.big == 2:
            st = rng.random() < 0.4
            recs = [huge_record(rng, st)] + [rand_record(rng, max_fields=2, structs=st) for _ in range(int(rng.integers(2)))]
        if not a.big and k % 20 == 7:
            recs = [rand_record(rng, wide=True)] + recs[:0]
        elif not a.big and k % 20 == 11:        # many records
            st = rng.random() < 0.4
            recs = [rand_record(rng, max_fields=2, structs=st) for _ in range(int(rng.integers(20, 140)))]
        m = [model(r) for r in recs]
        o, v = outcome(write_both, recs, int(rng.integers(3)), rng)
        if a.mode == "write":
            e = {"ev": "write", "recs": m, "outcome": o, "out": [], "file": []}
            if o == "ok":
                e["out"], e["file"] = list(v[0]), list(v[1])
            emit(e)
        else:
            e = {"ev": "roundtrip", "recs": m, "outcome": o, "got": [], "plain": []}
            if o == "ok":
                which = int(rng.integers(2))
                e["outcome"], e["got"], e["plain"] = do_read(v[which], ["stream", "file", "bytearray"][int(rng.integers(3))])
            emit(e)
elif a.mode == "replay":
    # inputs produced by TLC from the specification
    with open(a.inputs) as f:
        data = [json.loads(x) for x in f]
    for k, d in enumerate(data[a.part::a.parts]):
        b = bytes(d["b"])
        o, got, plain = do_read(b, "file" if k % 5 == 0 else "stream")
        emit({"ev": "read", "b": list(b), "outcome": o, "got": got, "plain": plain})
elif a.mode == "structures":
    # structures whose description may differ from their value, from spec/MCStructure.tla
    letter = {v: k for k, v in CODE.items()}
    with open(a.inputs) as f:
        data = [json.loads(x) for x in f]
    for k, d in enumerate(data):
        if k % a.parts != a.part:
            continue
        name, key = (bytes(d[x]).decode() for x in ("name", "key"))
        raw = bytes(d["data"])
        if d["what"] == "scalar":
            v = raw.decode() if d["letter"] == 9 else np.frombuffer(raw, np.dtype(NPTYPE[d["letter"]]))[0]
            v = v if d["letter"] == 9 or k % 2 else v.item()
            x = pydarnio.DmapScalar(name, v, d["code"], letter[d["letter"]])
        else:
            dt = np.dtype(NPTYPE.get(d["kind"], [np.bool_, np.int8][0]))
            v = np.frombuffer(raw, dt) if d["kind"] else np.frombuffer(raw, np.int8) > 60
            v = v.reshape(d["vshape"]).copy()
            if d["kind"] == 0 and k % 3 == 1:
                v = v.astype(object)
            elif d["kind"] == 0 and k % 3 == 2:
                v = v.astype(complex)
            elif k % 5 == 1:
                v = v.astype(v.dtype.newbyteorder(">"))
            elif k % 5 == 2:
                v = np.asfortranarray(v)
            x = pydarnio.DmapArray(name, v, d["code"], letter[d["letter"]], d["dim"], list(d["shape"]))
        rest = [("n", pydarnio.DmapScalar("n", 7, 2, "h")),
                ("x", pydarnio.DmapArray("x", np.array([1, 2], np.int16), 2, "h", 1, [2]))]
        rest.insert(1 if d["what"] == "scalar" else 2, (key, x))
        rec = dict(rest)
        target = os.path.join(scratch, "s.dmap")
        if os.path.exists(target):
            os.remove(target)
        old = None
        if k % 2:
            old = b"previous content"
            with open(target, "wb") as f:
                f.write(old)
        recs = [rec]
        if k % 3 == 0:
            o, v = outcome(lambda: bytes(pydarnio.DmapWrite().write_dmap_stream(recs)))
            o2, v2 = outcome(lambda: pydarnio.DmapWrite(recs).write_dmap(target))
        else:
            o, v = outcome(lambda: bytes(pydarnio.DmapWrite(recs).write_dmap_stream()))
            o2, v2 = outcome(lambda: pydarnio.DmapWrite(recs, target).write_dmap())
        now = None
        if os.path.exists(target):
            with open(target, "rb") as f:
                now = f.read()
        e = {"ev": "structure", "d": d, "outcome": o if o == o2 else o + "/" + o2, "untouched": now == old,
             "out": [], "file": [], "got": [], "plain": []}
        if o == "ok" and o2 == "ok":
            e["out"], e["file"] = list(v), list(now)
            e["outcome"], e["got"], e["plain"] = do_read(now, "stream" if k % 2 else "file")
            if e["outcome"] != "ok":
                e["outcome"] = "ok"     # accepted, but not readable: the judge sees no records
        elif "ok" in (o, o2):
            e["outcome"] = "ok"         # the two ways of writing disagree
        emit(e)
elif a.mode == "damage":
    pool = []
    for k in range(a.n):
        recs = [rand_record(rng, max_fields=4) for _ in range(int(rng.choice([1, 1, 2])))]
        st = rng.random() < 0.4
        recs = [rand_record(rng, max_fields=4, structs=st) for _ in recs]
        o, v = outcome(lambda: bytes(pydarnio.DmapWrite(recs).write_dmap_stream()))
        if o != "ok" or len(v) > 900:
            continue
        b = bytearray(v)
        kind = int(rng.integers(9))
        n = len(b)
        if kind == 0:
            b = b[:int(rng.integers(n))]
        elif kind == 1:
            b = b + bytes(rng.bytes(int(rng.integers(1, 20))))
        elif kind == 2:
            i = int(rng.integers(n)); del b[i:i + int(rng.integers(1, 9))]
        elif kind == 3:
            i = int(rng.integers(n)); b[i:i] = rng.bytes(int(rng.integers(1, 9)))
        elif kind == 4:
            b[int(rng.integers(n))] = int(rng.integers(256))
        elif kind == 5:
            i = int(rng.integers(0, max(1, n - 4)))
            v4 = int(rng.choice([0, 1, 2, 255, 256, 65536, n, n - 1, n + 1])).to_bytes(4, "little") if rng.random() < .6 \
                else (int(rng.choice([-1, -2, -n, -2**31, 2**31 - 1])) & 0xFFFFFFFF).to_bytes(4, "little")
            b[i:i + 4] = v4
        elif kind == 6:
            # header word, consistently or inconsistently changed
            w = int(rng.choice([0, 4, 8, 12]))
            cur = int.from_bytes(b[w:w + 4], "little", signed=True)
            b[w:w + 4] = ((cur + int(rng.choice([-2, -1, 1, 2, 8]))) & 0xFFFFFFFF).to_bytes(4, "little")
        elif kind == 7:
            for _ in range(int(rng.integers(1, 5))):
                b[int(rng.integers(n))] ^= 1 << int(rng.integers(8))
        # kind 8: untouched
        o, got, plain = do_read(bytes(b), "stream" if rng.random() < 0.7 else "file")
        emit({"ev": "read", "b": list(b), "outcome": o, "got": got, "plain": plain})
out.close()
