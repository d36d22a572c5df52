"""Borealis records that can be converted, built from the whole numbers of
spec/BorealisConvert.tla, and the projection of SuperDARN records onto its values."""
from collections import OrderedDict

import numpy as np

import gen_bor
from gen_bor import key_of, number, some_time_after, table

STATIONS = ["tst", "gbr", "sch", "kap", "hal", "sas", "pgr", "kod", "sto", "pyk", "han", "san", "sys", "sye", "tig",
            "ker", "ksr", "unw", "zho", "mcm", "fir", "sps", "bpk", "wal", "bks", "hok", "hkw", "inv", "rkn", "cly",
            "dce", "svb", "fhw", "fhe", "cvw", "cve", "adw", "ade", "ekb"]
RATES = [(10000, 3), (10000, 1), (5000, 1), (1000000, 300), (20000, 3), (4000, 1), (2500, 1)]
EDGES = [951782399, 951782400, 1583020799, 1583020800, 1609459199, 1609459200, 1577836799, 0 + 86399, 1709164800,
         1735689599, 978307200, 1456704000, 1677628799]


def smsep(n, d):
    return 1000000 * d // n


RATES = [(n, d) for n, d in RATES if int(1e6 / (n / d)) == smsep(n, d)]


def one(rng, xs):
    return xs[int(rng.integers(len(xs)))]


def pulses_of(rng, n):
    p = [0]
    while len(p) < n:
        p.append(p[-1] + int(rng.integers(1, 6)))
    return p


def samples(rng, n, hi):
    k = int(rng.integers(4))
    if k == 0:
        return [int(x) for x in rng.integers(-hi, hi + 1, n)]
    lo = int(rng.integers(1, max(2, hi // 2)))      # told apart by their values
    step = max(1, min(7, (hi - lo) // max(n, 1)))
    return [int((lo + j * step) * (1 if k == 1 or j % 2 else -1)) for j in range(n)]


def doubled(p):
    return sorted(list(p) + [x + 1 for x in p])


def convertible(rng, s, fault=None, odd=True):
    """(records, abstract records, scaling factor) for shape s (kind bfiq or rawacf).

    fault: None, "blanked", "phase", "station" - what makes one record, any of them, inconvertible."""
    recs = gen_bor.site_records(rng, s)
    out, abstract = OrderedDict(), []
    minor = int(s.version.split(".")[1])
    rate = one(rng, RATES)
    txpl, mul = one(rng, [(300, 8), (300, 5), (100, 15), (240, 10), (300, 1)] if rng.random() < 0.8 else [(300, 7)])
    tau = txpl * mul + (int(rng.integers(0, txpl)) if rng.random() < 0.3 else 0)
    pulses = pulses_of(rng, s.pulses)
    lags = [[int(x), int(y)] for x, y in rng.integers(0, 40, (s.lags, 2))]
    arrays = ["main", "intf"][:s.ants] if s.ants <= 2 else ["main", "intf", "third"]
    if s.ants == 1 and rng.random() < 0.3:
        arrays = ["intf"]
    tx = [bool(x) for x in rng.random(s.tx) < 0.6]
    station = one(rng, STATIONS)
    scale = int(one(rng, [1, 1, 1, 2, 3]))
    rs4 = int(rng.integers(1, 60)) * 4 + int(one(rng, [0, 0, 1, -1]))
    common = {"station": station, "hash": next(iter(recs.values()))["borealis_git_hash"], "rate": list(rate), "txpl": txpl,
              "tau": tau, "pulses": pulses, "lags": lags, "expid": int(rng.integers(-30000, 30000)),
              "name": one(rng, ["normalscan", "Troms\u00f8 scan", "x y"]), "rtt": int(rng.integers(0, 4000)),
              "fr4": max(0, int(rng.integers(0, 300)) * 4 + int(one(rng, [0, 0, 1, -1]))), "rs4": rs4,
              "freq": int(rng.integers(8000, 20000)), "slice": int(rng.integers(0, 40)), "ranges": s.ranges,
              "norm": int(one(rng, [1, 2, 7, 50, 200])), "scale": scale}
    k, j = int(rng.integers(0, 5)), int(rng.integers(0, 5))        # norm = 32767 * 2^j / 2^k
    if s.kind == "rawacf":
        k, j = (min(k, j + 1), j) if k > j else (k, min(j, k + 2))
    num, den = 4 ** max(0, k - j), 4 ** max(0, j - k)
    comments = [one(rng, ["", "a comment", "second; with : signs"]) for _ in range(2)]
    tm = None
    at = int(rng.integers(s.nrec)) if rng.random() < 0.5 else s.nrec - 1
    for i, (name, rec) in enumerate(recs.items()):
        bad = fault if i == at else None
        if tm is None:
            tm = [int(one(rng, EDGES)) if rng.random() < 0.3 else 1300000000 + int(rng.integers(0, 4 * 10**8)), s.times[0][1]]
        else:
            tm = some_time_after(rng, tm)
        times = [tm]
        while len(times) < s.seqs[i]:
            us = times[-1][1] + int(rng.integers(1, 900000))
            times.append([times[-1][0] + us // 1000000, us % 1000000])
        nb = s.beams[i]
        r = {"minor": minor, "major": 0, "hash": common["hash"], "name": common["name"], "expid": common["expid"],
             "station": station, "times": times, "rate": common["rate"], "txpl": txpl, "tau": tau, "pulses": pulses,
             "lags": lags, "lagsdim": s.lags, "rtt": common["rtt"], "fr4": common["fr4"], "rs4": rs4,
             "freq": common["freq"], "slice": common["slice"], "nrange": s.ranges, "samps": s.samps,
             "arrays": len(arrays), "intf": "intf" in arrays, "agc": 0, "lp": 0, "tx": [], "phases": False,
             "scan": int(rng.integers(0, 2)), "int1024": int(rng.integers(0, 80 * 1024)) if rng.random() < 0.6 else int(rng.integers(0, 80)) * 128, "scale": scale,
             "beams": [int(b) for b in rng.choice(16, nb, replace=bool(rng.random() < 0.2))],
             "azm8": [int(x) for x in rng.integers(-400, 400, nb)],
             "noise8": [int(x) for x in rng.integers(0, 4000, s.seqs[i])], "norm": common["norm"],
             "num": num * scale, "den": den}
        sp = tau // txpl
        p = [x * sp for x in pulses]
        r["blanked"] = doubled(p) if minor > 5 and rng.random() < 0.5 else p
        if bad == "blanked":
            b = list(r["blanked"])
            w = int(rng.integers(5))
            if w == 0:
                b[int(rng.integers(len(b)))] += 2
            elif w == 1:
                b.append(b[-1] + 3)
            elif w == 2:
                b = b[:-1]
            else:
                b = doubled(p) if minor <= 5 else p + p
            if sorted(b) in (sorted(p), sorted(doubled(p))):     # not a fault after all
                b = p + [max(p) + 7]
            r["blanked"] = b
        if bad == "station":
            station_now = r["station"] = "xyz"
        else:
            station_now = station
        rec["station"] = station_now
        rec["experiment_name"], rec["experiment_comment"], rec["slice_comment"] = common["name"], comments[0], comments[1]
        rec["experiment_id"] = type(rec["experiment_id"])(r["expid"])
        rec["rx_sample_rate"] = np.float64(rate[0] / rate[1])
        rec["tx_pulse_len"], rec["tau_spacing"] = np.uint32(txpl), np.uint32(tau)
        rec["first_range"], rec["range_sep"] = np.float32(r["fr4"] / 4), np.float32(rs4 / 4)
        rec["first_range_rtt"] = np.float32(r["rtt"])
        rec["freq"] = np.uint32(r["freq"])
        rec["int_time"] = np.float32(r["int1024"] / 1024)
        rec["scan_start_marker"] = type(rec["scan_start_marker"])(r["scan"])
        rec["pulses"] = np.array(pulses, np.uint32)
        rec["lags"] = np.array(lags, np.uint32)
        rec["blanked_samples"] = np.array(r["blanked"], np.uint32)
        rec["beam_nums"] = np.array(r["beams"], np.uint32)
        rec["beam_azms"] = np.array(r["azm8"], np.float64) / 8
        rec["noise_at_freq"] = np.array(r["noise8"], np.float64) / 8
        rec["sqn_timestamps"] = np.array([a + b / 1e6 for a, b in times], np.float64)
        if "slice_id" in rec:
            rec["slice_id"] = np.uint32(r["slice"])
        if "agc_status_word" in rec:
            r["agc"], r["lp"] = (int(x) for x in rng.integers(0, 30000, 2))
            rec["agc_status_word"], rec["lp_status_word"] = np.uint32(r["agc"]), np.uint32(r["lp"])
        if "tx_antenna_phases" in rec:
            r["tx"] = tx
            rec["tx_antenna_phases"] = np.array([(1 if x % 2 else 0.5j) if on else 0 for x, on in enumerate(tx)], np.complex64)
        if s.kind == "bfiq":
            m = len(arrays) * s.seqs[i] * nb * s.samps
            hi = 30000 // scale
            if rng.random() < 0.7:
                hi = min(hi, int(128 * r["norm"] / scale * one(rng, [0.4, 1.0, 1.3])) + 1)
            r["re"], r["im"] = samples(rng, m, hi), samples(rng, m, hi)
            rec["data"] = (np.array(r["re"]) / 128 + 1j * np.array(r["im"]) / 128).astype(np.complex64)
            rec["data_normalization_factor"] = np.float64(r["norm"])
            t = table(s.version, s.kind)["site_arrays"]["antenna_arrays_order"]
            rec["antenna_arrays_order"] = gen_bor.names(arrays, t)
            rec["data_dimensions"] = np.array([len(arrays), s.seqs[i], nb, s.samps], np.uint32)
            rec["num_samps"], rec["num_ranges"] = np.uint32(s.samps), np.uint32(s.ranges)
            rec["pulse_phase_offset"] = np.zeros(s.pulses, np.float32)
            if bad == "phase":
                r["phases"] = True
                rec["pulse_phase_offset"][int(rng.integers(s.pulses))] = 90
        else:
            m = nb * s.ranges * s.lags
            hi = max(1, 900 // r["num"])
            for f, key in (("main_acfs", "main"), ("xcfs", "cross"), ("intf_acfs", None)):
                v = {"re": samples(rng, m, hi), "im": samples(rng, m, hi)}
                if key:
                    r[key] = v
                x = (np.array(v["re"]) + 1j * np.array(v["im"])).astype(np.complex64)
                rec[f] = x.reshape(rec[f].shape)
            rec["data_normalization_factor"] = np.float64(32767 * 2.0 ** (j - k))
        out[key_of(tm)] = rec
        abstract.append(r)
    s.times = [r["times"][0] for r in abstract]
    return out, abstract, scale


# ------------------------------------------------------------------ SuperDARN records

BAD = -2147483647
UNITS = {"noise.search": 8, "noise.mean": 8, "bmazm": 8, "thr": 8, "tnoise": 8}


def whole(x, unit, near):
    try:
        y = float(x) * unit
        if y != y or abs(y) > 2**31 - 2:
            return BAD
        return int(round(y)) if near or y == int(y) else BAD
    except (TypeError, ValueError, OverflowError):
        return BAD


def out_field(name, d, den):
    if hasattr(d, "dimension"):
        sh = [int(n) for n in d.shape]
        vals = np.ravel(d.value)
        if list(np.shape(d.value)) != sh or int(d.dimension) != len(sh):
            sh = [-1]
    else:
        sh, vals = [], [d.value]
    if d.data_type_fmt == "s":
        v = [str(x) for x in vals]
    elif d.data_type_fmt in "fd":
        unit = UNITS.get(name, den * (16 if name == "pwr0" else 1))
        v = [whole(x, unit, name == "pwr0") for x in vals]
    else:
        v = [int(x) if abs(int(x)) < 2**31 else BAD for x in vals]
    return {"t": d.data_type_fmt, "sh": sh, "v": v, "own": d.name == name}


def out_records(recs, dens):
    """dens: denominator of the units of each record."""
    return [{k: out_field(k, d, dens[i] if i < len(dens) else 1) for k, d in r.items()} for i, r in enumerate(recs)]
