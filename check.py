#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N]

Checks the specification with TLC, generates behaviours from it, runs them in the code of
/repo and has TLC judge what was recorded.  Exit 0: held; 1: VIOLATION line printed;
2: the machinery itself failed."""
import argparse
import collections
import json
import os
import random
import re
import shutil
import sys
import tempfile
import time
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))
import common  # noqa: E402
from common import CORES, DriverCrash, MachineryError, model_check, run_drivers_parallel, run_tlc  # noqa: E402
import checks  # noqa: E402


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.tmp = tempfile.mkdtemp(prefix="chk" + prop)
        self.states = self.transitions = self.traces = 0
        self.parts = CORES
        self.models, self.viols, self.samples, self.notes = [], [], [], {}
        self.rng = random.Random(seed)
        self.files = 0

    def path(self, name):
        return os.path.join(self.tmp, name)

    def model(self, module, cfg=None, keep=None, **kw):
        r = model_check(module, cfg or module + ".cfg", **kw)
        self.states += r["states"]
        self.transitions += r["transitions"]
        out = r.pop("output")
        self.models.append(r)
        return self._lines(out, keep) if keep else []

    @staticmethod
    def _lines(out, tag):
        got = set()
        pre = '"' + tag + " "
        for x in out.splitlines():
            if x.startswith(pre) and x.endswith('"'):
                got.add(json.loads('"' + x[len(pre):-1] + '"'))
        return sorted(got)

    def simulate(self, module, cfg, tag, num, depth, **kw):
        rc, out = run_tlc(module, cfg, workers=1, extra=["-simulate", "num=%d" % num, "-depth", str(depth),
                                                         "-seed", str(self.seed)], **kw)
        got = self._lines(out, tag)
        if rc != 0 or not got:
            raise MachineryError("simulation of %s failed (rc %d)\n%s" % (module, rc, out[-3000:]))
        return got

    def write_lines(self, name, lines):
        p = self.path(name)
        with open(p, "w") as f:
            f.write("\n".join(lines) + "\n")
        return p

    def drive(self, script, args, parts=None, timeout=850):
        """One driver process per part; every one gets --seed, --part and --parts."""
        parts = parts or self.parts
        lists = [list(args) + ["--seed", self.seed, "--part", k, "--parts", parts] for k in range(parts)]
        d = tempfile.mkdtemp(dir=self.tmp)
        ev, _ = run_drivers_parallel(script, lists, d, timeout=timeout)
        return ev

    def judge(self, module, events, cut=False, timeout=850):
        v, n, s = common.judge(module, events, group=(lambda x: '"cut":1' in x) if cut else None, timeout=timeout)
        self.traces += n
        self.states += s
        self.viols += v
        with open(events) as f:
            lines = f.readlines()
        short = [x for x in lines if len(x) < 3000] or lines[:1]
        for x in self.rng.sample(short, min(2, len(short))):
            self.samples.append(json.loads(x))
        kinds = collections.Counter()
        for x in lines:
            m = re.search(r'"outcome":"([^"]*)"', x) or re.search(r'"res":"([^"]*)"', x)
            kinds[m.group(1) if m else "-"] += 1
        self.notes.setdefault("outcomes", collections.Counter()).update(kinds)
        return n


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--keep", action="store_true", help="keep the event files")
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    t0 = time.time()
    c = Ctx(a.prop, tier, a.seed)
    crash = None
    try:
        try:
            checks.CHECKS[a.prop](c)
        except DriverCrash as e:
            crash = str(e)
    except MachineryError as e:
        print("check of %s could not be completed: %s" % (a.prop, e), file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        if a.keep:
            print("kept", c.tmp)
        else:
            shutil.rmtree(c.tmp, ignore_errors=True)
    findings = common.known_findings()
    mine, known = [], collections.OrderedDict()
    for line, prop, clause, ev, note in c.viols:
        if prop not in (a.prop, "*"):
            continue
        f = common.finding_for(findings, a.prop, clause, ev)
        if f:
            known[f["id"]] = f
        else:
            mine.append((line, clause, ev, note))
    if crash:
        mine.append((0, "library-crashed-outside-a-checked-call", "{}", crash))
    cov = {"states": c.states, "transitions": c.transitions, "traces_validated_against_impl": c.traces,
           "samples": c.samples[:6], "models": c.models}
    cov.update({k: dict(v) if isinstance(v, collections.Counter) else v for k, v in c.notes.items()})
    common.write_evidence(a.prop, tier, a.seed, cov, time.time() - t0, len(mine),
                          assumptions=checks.ASSUMPTIONS.get(a.prop, []))
    for f in known.values():
        print("KNOWN-FINDING: property=%s %s" % (a.prop, f["what"]))
    if mine:
        seen = {}
        for line, clause, ev, note in mine:
            if clause in seen:
                continue
            try:
                e = json.loads(ev)
            except ValueError:
                e = ev
            seen[clause] = common.save_replay(a.prop, len(seen), {
                "property": a.prop, "clause": clause, "event_number": line, "event": e, "note": note,
                "tier": tier, "seed": a.seed})
        counts = collections.Counter(x[1] for x in mine)
        for clause, path in seen.items():
            print("%s broken in %d of %d events" % (clause, counts[clause], c.traces))
            print("VIOLATION property=%s replay=%s" % (a.prop, path))
        return 1
    print("%s held: %d model states, %d events of the code judged, %.1f s"
          % (a.prop, c.states, c.traces, time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
