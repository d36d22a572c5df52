"""SuperDARN records by field-type map: {field: DMAP type letter} -> DMAP structures or dictionary."""
import json
import os
from collections import OrderedDict

import numpy as np

from gen_dmap import TEXTS, rand_array, rand_value
from proj import CODE, NPTYPE

HERE = os.path.dirname(os.path.abspath(__file__))
TABLES = json.load(open(os.path.join(HERE, "..", "spec", "sdarn_tables.json")))
FORMATS = list(TABLES)
# fields that files carry as arrays
ARRAYS = set("""ptab ltab slist pwr0 acfd xcfd nlag qflg gflg p_l p_l_e p_s p_s_e v v_e w_l w_l_e w_s w_s_e sd_l sd_s
sd_phi phi0 phi0_e elv x_sd_phi elv_fitted elv_error x_qflg x_gflg x_p_l x_p_l_e x_p_s x_p_s_e x_v x_v_e x_w_l x_w_l_e
x_w_s x_w_s_e elv_low elv_high x_sd_l x_sd_s tsc tus tatten tnoise toff tsze data stid channel nvec freq major.revision
minor.revision program.id noise.mean noise.sd gsct v.min v.max p.min p.max w.min w.max ve.min ve.max vector.mlat
vector.vel.median vector.channel vector.stid vector.vel.sd vector.index vector.kvect vector.mlon vector.pwr.median
vector.pwr.sd vector.wdt.median vector.wdt.sd N N+1 N+2 N+3 model.mlat model.mlon model.kvect model.vel.median
boundary.mlat boundary.mlon""".split())
GRIDLIKE = {"stid", "channel", "noise.mean"}      # arrays in grid and map, scalars elsewhere


def is_array(fmt, f):
    if f in GRIDLIKE:
        return fmt in ("grid", "map")
    return f in ARRAYS


def types_of(fmt, groups):
    """{field: letter} of the union of the groups with these (0-based) indices."""
    t = OrderedDict()
    for i in groups:
        t.update(TABLES[fmt][i]["fields"])
    return t


def full_types(fmt):
    t = OrderedDict()
    for g in TABLES[fmt]:
        t.update(g["fields"])
    return t


def build(rng, fmt, types, structs=True, order=None, small=True):
    """A record with these field types."""
    import pydarnio
    rec = OrderedDict()
    names = list(types)
    if order == "random":
        names = [names[i] for i in rng.permutation(len(names))]
    for f in names:
        letter = types[f]
        code = CODE[letter]
        if letter == "s":
            v = TEXTS[rng.integers(len(TEXTS))]
        elif is_array(fmt, f):
            v = np.frombuffer(rng.bytes(3 * NPTYPE[code]().itemsize), NPTYPE[code]).copy() if small \
                else rand_array(rng, code)
            if code in (4, 8):
                v = np.nan_to_num(v, nan=1.0)
            if f == "slist" and rng.random() < 0.1 and code != 1:
                v = v[:0]
        else:
            v = rand_value(rng, code)
        if structs:
            if isinstance(v, np.ndarray):
                rec[f] = pydarnio.DmapArray(f, v, code, letter, v.ndim, list(v.shape))
            else:
                rec[f] = pydarnio.DmapScalar(f, v, code, letter)
        else:
            rec[f] = v
    return rec
