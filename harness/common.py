"""Machinery shared by all checks: running TLC, running drivers, evidence, findings.

Runs under the system python3 with the standard library only.  The drivers, which
import the code under test, run under the project's interpreter.
"""
import concurrent.futures
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")
JAVA_CP = None
CORES = os.cpu_count() or 4


class MachineryError(Exception):
    pass


class DriverCrash(Exception):
    """The code under test failed outside a call whose outcome is recorded."""


def find_java_cp():
    """Class path for TLC with the community modules (as the tlc wrapper uses)."""
    global JAVA_CP
    if JAVA_CP is None:
        base = "/opt/veriftools/tla"
        jars = [os.path.join(base, j) for j in sorted(os.listdir(base)) if j.endswith(".jar")]
        # tla2tools first
        jars.sort(key=lambda j: (not j.endswith("tla2tools.jar"), j))
        JAVA_CP = ":".join(jars)
    return JAVA_CP


def run_tlc(module, cfg, env=None, workers=1, timeout=800, xmx="3g", extra=()):
    """Runs TLC on a module of spec/ and returns (returncode, output)."""
    meta = tempfile.mkdtemp(prefix="tlcmeta")
    tmpd = os.path.join(meta, "tmp")
    os.mkdir(tmpd)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + xmx, "-Xss512m", "-Dtlc2.tool.impl.Tool.cdot=true",  "-Djava.io.tmpdir=" + tmpd,
           "-cp", find_java_cp(), "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
           "-noGenerateSpecTE", "-nowarning", "-config", cfg] + list(extra) + [module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as ex:
        out = ex.stdout or b""
        return -9, out.decode("utf-8", "replace") if isinstance(out, bytes) else out
    finally:
        shutil.rmtree(meta, ignore_errors=True)


STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def model_check(module, cfg, workers=None, timeout=800, env=None, extra=(), xmx="8g"):
    """Exhaustive run that must succeed.  Returns dict(transitions, states, output)."""
    t = time.time()
    rc, out = run_tlc(module, cfg, env=env, workers=workers or CORES, timeout=timeout, extra=extra, xmx=xmx)
    m = STATES.findall(out)
    if rc != 0 or not m:
        raise MachineryError("model checking of %s with %s failed (rc %s):\n%s" % (module, cfg, rc, out[-4000:]))
    return {"module": module, "cfg": cfg, "transitions": int(m[-1][0]), "states": int(m[-1][1]),
            "wall_s": round(time.time() - t, 2), "output": out}


VIOL = re.compile(r'"?VIOL (\d+) (\S+) ([^"\n]+)"?')


def _judge_chunk(args):
    module, cfg, path, n, timeout = args
    rc, out = run_tlc(module, cfg, env={"TRACE": path}, workers=1, timeout=timeout)
    viols = [(int(a), b, c.strip()) for a, b, c in VIOL.findall(out)]
    m = STATES.findall(out)
    states = int(m[-1][1]) if m else 0
    if rc == 0 and states == n + 1:
        return viols, states, None
    # A value of an unexpected kind makes an expression of the specification undefined: that
    # event is not a behaviour of the specification either.
    if "Attempted to" in out or "evaluating" in out or "non-enumerable" in out or "In applying the function" in out:
        lm = re.findall(r"^l = (\d+)", out, re.M) or re.findall(r"/\\ l = (\d+)", out)
        line = int(lm[-1]) if lm else 0
        return viols + [(line, "*", "event-not-interpretable")], states, out[-3000:]
    raise MachineryError("trace validation of %s failed (rc %s):\n%s" % (path, rc, out[-4000:]))


def judge(module, events_path, chunk_events=None, jobs=None, timeout=800, cfg=None, group=None):
    """Validates a recorded trace (JSON lines) against trace specification `module`.

    Events are independent of each other unless they carry a session; the file is cut at the
    lines where `"cut": 1` is set (or anywhere when no event has that key).  Returns
    (violations [(global line, property, clause, event)], number of events, states)."""
    lines = [x for x in open(events_path) if x.strip()]
    if not lines:
        raise MachineryError("driver recorded no events")
    jobs = jobs or CORES
    total = sum(len(x) for x in lines)
    target = max(total // (jobs * 2) + 1, 60000)
    target = min(target, 6000000)
    chunks, cur, size, start = [], [], 0, 0
    for i, x in enumerate(lines):
        cuttable = group is None or group(x)
        if cur and size > target and cuttable:
            chunks.append((start, cur))
            cur, size, start = [], 0, i
        cur.append(x)
        size += len(x)
    chunks.append((start, cur))
    tmp = tempfile.mkdtemp(prefix="judge")
    try:
        tasks = []
        for k, (start, c) in enumerate(chunks):
            p = os.path.join(tmp, "t%d.ndjson" % k)
            with open(p, "w") as f:
                f.writelines(c)
            tasks.append((module, cfg or module + ".cfg", p, len(c), timeout))
        viols, states = [], 0
        with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
            for (start, c), (v, s, note) in zip(chunks, ex.map(_judge_chunk, tasks)):
                states += s
                for line, prop, clause in v:
                    ev = c[line - 1] if 1 <= line <= len(c) else "{}"
                    viols.append((start + line, prop, clause, ev, note))
        return viols, len(lines), states
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run_driver(script, args, out_path, timeout=800, stdin=None):
    """Runs a driver under the project's interpreter on the code in /repo."""
    env = dict(os.environ)
    env["PYTHONPATH"] = REPO + os.pathsep + os.path.join(VERIF, "harness")
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONWARNINGS"] = "ignore"
    env["PYTHONHASHSEED"] = "0"
    env["HDF5_USE_FILE_LOCKING"] = "FALSE"
    scratch = tempfile.mkdtemp(prefix="drv")
    env["VERIF_SCRATCH"] = scratch
    cmd = [PY, os.path.join(VERIF, "harness", script), "--out", out_path] + [str(a) for a in args]
    try:
        p = subprocess.run(cmd, cwd=scratch, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, errors="replace", timeout=timeout, input=stdin)
    except subprocess.TimeoutExpired:
        raise MachineryError("driver %s timed out" % script)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if p.returncode != 0:
        frames = re.findall(r'File "([^"]+)", line', p.stderr)
        if frames and any(x.startswith(os.path.join(REPO, "pydarnio")) for x in frames[-3:]):
            raise DriverCrash(p.stderr[-3000:])
        raise MachineryError("driver %s failed (rc %d):\n%s\n%s" % (script, p.returncode, p.stdout[-2000:], p.stderr[-4000:]))
    return p.stdout


def run_drivers_parallel(script, arglists, tmp, timeout=800):
    """Runs several driver processes and concatenates their event files in order."""
    def one(k):
        path = os.path.join(tmp, "ev%d.ndjson" % k)
        out = run_driver(script, arglists[k], path, timeout=timeout)
        return path, out
    outs = []
    with concurrent.futures.ThreadPoolExecutor(CORES) as ex:
        res = list(ex.map(one, range(len(arglists))))
    dest = os.path.join(tmp, "events.ndjson")
    with open(dest, "w") as f:
        for path, out in res:
            with open(path) as g:
                shutil.copyfileobj(g, f)
            os.unlink(path)
            outs.append(out)
    return dest, outs


# --------------------------------------------------------------------------- findings

def known_findings():
    """Entries of known_findings.json: list of dict(property, clause, match, what)."""
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [e for e in json.load(open(p)) if e.get("status") == "open"]


def finding_for(entry_list, prop, clause, event_line):
    try:
        ev = json.loads(event_line)
    except ValueError:
        ev = {}
    for e in entry_list:
        if e["property"] == prop and clause in e["clauses"] and ev.get("finding") == e["id"]:
            return e
    return None


# --------------------------------------------------------------------------- evidence

def write_evidence(prop, tier, seed, coverage, wall, violations, level="model_checking", assumptions=()):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": coverage,
          "assumptions": list(assumptions), "wall_s": round(wall, 2), "violations": violations}
    tmp = os.path.join(VERIF, "evidence", "." + prop + ".tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", prop + ".json"))


def save_replay(prop, k, data):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%d.json" % (prop, k))
    with open(p, "w") as f:
        json.dump(data, f, indent=1)
    return p


def digest(b):
    return hashlib.sha1(b).hexdigest()[:16]
