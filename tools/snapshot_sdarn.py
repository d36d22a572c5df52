"""One-off: wrote spec/sdarn_tables.json from superdarn_formats.py at the pinned commit.
The tables were then compared by eye with the RST field lists; the file is the reference
from here on and is not regenerated by any check."""
import json, sys
from pydarnio import superdarn_formats as F
G = {"iqdat": (F.Iqdat, ["types"]),
     "rawacf": (F.Rawacf, ["types", "correlation_field", "cross_correlation_field", "digitizing_field", "fittex_field"]),
     "fitacf": (F.Fitacf, ["types", "optional_fields", "fitted_fields", "xcf_fields", "xcf_fields_fitacf3", "xcf_fields_fitacf2"]),
     "snd": (F.Snd, ["types", "fitted_fields", "xcf_fields"]),
     "grid": (F.Grid, ["types", "fitted_fields", "extra_fields"]),
     "map": (F.Map, ["types", "partial_fields", "extra_fields", "fit_fields", "hmb_fields", "model_fields"])}
t = {k: [{"name": g, "optional": g == "optional_fields", "fields": getattr(c, g)} for g in gs] for k, (c, gs) in G.items()}
json.dump(t, open(sys.argv[1], "w"), indent=1)
