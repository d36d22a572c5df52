"""What each check explores: model checking, generation of behaviours, drivers, judges."""
import collections
import json

CHECKS, ASSUMPTIONS = {}, {}


def check(prop, *assumptions):
    def deco(f):
        CHECKS[prop] = f
        ASSUMPTIONS[prop] = list(assumptions)
        return f
    return deco


LITTLE_ENDIAN = "the host is little-endian"


def pick(c, lines, n):
    lines = list(lines)
    return lines if len(lines) <= n else c.rng.sample(lines, n)


def structures(c):
    """Structures whose description is, or is not, what their value is."""
    made = c.model("MCStructure", "MCStructure.cfg" if c.quick else "MCStructure2.cfg", keep="STRUCT")
    p = c.write_lines("structures.ndjson", made)
    c.judge("TraceDmap", c.drive("drive_dmap.py", ["--mode", "structures", "--inputs", p]))


@check("P01", LITTLE_ENDIAN, "records have at least one scalar and one non-empty array, the least the reader takes")
def p01(c):
    structures(c)
    c.model("MCDmap", "MCDmap.cfg" if c.quick else "MCDmap2.cfg")
    ev = c.drive("drive_dmap.py", ["--mode", "roundtrip", "--n", 150 if c.quick else 3000])
    c.judge("TraceDmap", ev)
    ev = c.drive("drive_dmap.py", ["--mode", "roundtrip", "--n", 6 if c.quick else 60, "--big", 1])
    c.judge("TraceDmap", ev)
    ev = c.drive("drive_dmap.py", ["--mode", "roundtrip", "--n", 2 if c.quick else 25, "--big", 2])
    c.judge("TraceDmap", ev)


@check("P02", LITTLE_ENDIAN)
def p02(c):
    structures(c)
    c.model("MCDmap", "MCDmap.cfg" if c.quick else "MCDmap2.cfg")
    ev = c.drive("drive_dmap.py", ["--mode", "write", "--n", 150 if c.quick else 3000])
    c.judge("TraceDmap", ev)
    ev = c.drive("drive_dmap.py", ["--mode", "write", "--n", 6 if c.quick else 60, "--big", 1])
    c.judge("TraceDmap", ev)
    ev = c.drive("drive_dmap.py", ["--mode", "write", "--n", 2 if c.quick else 25, "--big", 2])
    c.judge("TraceDmap", ev)


@check("P03", LITTLE_ENDIAN)
def p03(c):
    inputs = c.model("MCDmap", "MCDmapEmit.cfg" if c.quick else "MCDmap2Emit.cfg", keep="INPUT")
    c.notes["files_from_the_model"] = len(inputs)
    p = c.write_lines("inputs.ndjson", pick(c, inputs, 5000 if c.quick else 200000))
    c.judge("TraceDmap", c.drive("drive_dmap.py", ["--mode", "replay", "--inputs", p]))
    c.judge("TraceDmap", c.drive("drive_dmap.py", ["--mode", "damage", "--n", 350 if c.quick else 8000]))


def sessions(c):
    c.model("MCSession", "MCSession.cfg")
    c.model("MCSession", "MCSession2.cfg")
    if not c.quick:
        c.model("MCSession", "MCSessionBig.cfg", timeout=850, xmx="12g")
    made = c.simulate("MCSession", "MCSessionSim.cfg", "SESSION", 250 if c.quick else 4000, 90, xmx="6g")
    byp = collections.defaultdict(list)
    for x in made:      # the simulator prints every variant of the last call
        byp[json.dumps(json.loads(x)["ops"][:-1])].append(x)
    chosen = []
    for k in sorted(byp):
        chosen += pick(c, byp[k], 3)
    chosen = pick(c, chosen, 600 if c.quick else 8000)
    c.notes["sessions"] = len(chosen)
    c.notes["session_prefixes"] = len(byp)
    p = c.write_lines("sessions.ndjson", chosen)
    c.judge("TraceSession", c.drive("drive_session.py", ["--sessions", p]), cut=True)


@check("P04", "files are only changed through the library and the session's own environment steps")
def p04(c):
    sessions(c)


@check("P05", "the operating system carries out a write of an opened file")
def p05(c):
    sessions(c)
    structures(c)
    c.judge("TraceSchema", c.drive("drive_sdarn.py", ["--side", "write", "--n", 60 if c.quick else 800]))


@check("P06")
def p06(c):
    c.model("MCConversion")
    c.judge("TraceConversion", c.drive("drive_conv.py", ["--n", 300 if c.quick else 6000]))


def schema(c, side):
    if not c.quick:
        c.model("MCSchema", "MCSchema2.cfg")
    cases = c.model("MCSchema", "MCSchemaEmit.cfg", keep="CASE")
    c.notes["cases_from_the_model"] = len(cases)
    if c.quick:     # every edit of every format in some record, and some more
        by = collections.defaultdict(list)
        for x in cases:
            m = json.loads(x)
            by[m["fmt"], json.dumps(m["edits"])].append(x)
        cases = [x for k in sorted(by) for x in pick(c, by[k], 2)] + pick(c, cases, 600)
        c.notes["edits"] = len(by)
    p = c.write_lines("cases.ndjson", cases)
    c.judge("TraceSchema", c.drive("drive_sdarn.py", ["--side", side, "--cases", p, "--n", 60 if c.quick else 1500]))


@check("P07")
def p07(c):
    schema(c, "write")


@check("P08")
def p08(c):
    schema(c, "read")


# ------------------------------------------------------------------ Borealis

PROJECTION = "values are compared element by element through their exact bits; NaN is NaN"
H5 = "h5py stores and returns the bytes it is given"


def shapes(c):
    """Checks the two structures for small shapes and gives the shapes for replay."""
    got = c.model("MCBorealis", keep="SHAPE")
    if not c.quick:
        got += c.model("MCBorealis", "MCBorealis2.cfg", keep="SHAPE")
    c.notes["shapes_from_the_model"] = len(got)
    return c.write_lines("shapes.ndjson", pick(c, got, 320 if c.quick else 2500))


def borealis(c, mode, extra=()):
    p = shapes(c)
    ev = c.drive("drive_bor.py", ["--mode", mode, "--shapes", p, "--n", 5 if c.quick else 40,
                                  "--per-shape", 1 if c.quick else 4])
    c.judge("TraceBorealis", ev)


@check("P09", PROJECTION, H5)
def p09(c):
    borealis(c, "site")


@check("P10", PROJECTION, H5)
def p10(c):
    borealis(c, "array")


@check("P11", PROJECTION, H5)
def p11(c):
    borealis(c, "memory")


@check("P12", PROJECTION, H5)
def p12(c):
    borealis(c, "file")
    bor_replaced(c, "restructure")


@check("P13", H5)
def p13(c):
    cases = c.model("MCBorealisChecks", keep="CASE")
    if not c.quick:
        cases += pick(c, c.model("MCBorealisChecks", "MCBorealisChecks2.cfg", keep="CASE"), 40000)
    c.notes["cases_from_the_model"] = len(cases)
    p = c.write_lines("cases.ndjson", cases)
    c.judge("TraceBorealisChecks", c.drive("drive_bor_checks.py", ["--cases", p, "--per-case", 3 if c.quick else 2, "--sweep", 100000]))


def bor_sessions(c):
    c.model("MCBorealisSession")
    if not c.quick:
        c.model("MCBorealisSession", "MCBorealisSession2.cfg", timeout=850, xmx="8g")
    made = c.simulate("MCBorealisSession", "MCBorealisSessionSim.cfg", "SESSION", 260 if c.quick else 2500, 9, xmx="6g")
    byp = collections.defaultdict(list)
    for x in made:      # the simulator prints every variant of the last call
        byp[json.dumps(json.loads(x)["ops"][:-1])].append(x)
    chosen = []
    for k in sorted(byp):
        chosen += pick(c, byp[k], 3)
    chosen = pick(c, chosen, 650 if c.quick else 6000)
    c.notes["sessions"] = len(chosen)
    c.notes["session_prefixes"] = len(byp)
    p = c.write_lines("bor_sessions.ndjson", chosen)
    c.judge("TraceBorealisSession", c.drive("drive_bor_session.py", ["--sessions", p]), cut=True)


def bor_steps(c, n, only=None):
    """Single calls in every situation of the model."""
    made = c.model("MCBorealisStep", keep="SESSION")
    c.notes["single_call_sessions"] = len(made)
    if only:
        made = [x for x in made if json.loads(x)["ops"][-1]["op"] == only]
    p = c.write_lines("bor_steps.ndjson", pick(c, made, n))
    c.judge("TraceBorealisSession", c.drive("drive_bor_session.py", ["--sessions", p]), cut=True)


def bor_replaced(c, only=None):
    """Files that take the place of others with the same name, type and times."""
    made = c.model("MCBorealisReplace", keep="SESSION")
    c.notes["replaced_file_sessions"] = len(made)
    if only:
        made = [x for x in made if json.loads(x)["ops"][-1]["op"] == only]
    p = c.write_lines("bor_replaced.ndjson", pick(c, made, 400 if c.quick else 100000))
    c.judge("TraceBorealisSession", c.drive("drive_bor_session.py", ["--sessions", p]), cut=True)


def conversions(c, faults, per_shape, n):
    got = c.model("MCBorealisConvert", keep="SHAPE")
    if not c.quick:
        got += c.model("MCBorealisConvert", "MCBorealisConvert2.cfg", keep="SHAPE")
    c.notes["shapes_from_the_model"] = len(got)
    p = c.write_lines("cshapes.ndjson", pick(c, got, 160 if c.quick else 2500))
    c.judge("TraceBorealisConvert", c.drive("drive_bor_convert.py", ["--shapes", p, "--per-shape", per_shape, "--n", n,
                                                                     "--faults", faults]))


def versions(c):
    """Marks data with versions that are known, unknown, or look like known ones."""
    got = c.model("MCBorealisVersion", keep="HASH")
    if not c.quick:
        got += c.model("MCBorealisVersion", "MCBorealisVersion2.cfg", keep="HASH")
    c.notes["hashes_from_the_model"] = len(got)
    named = [x for x in got if json.loads(x)["h"][0][0] == "v0"]       # the others are all alike
    p = c.write_lines("hashes.ndjson", pick(c, named, 260 if c.quick else 4000) + pick(c, got, 60 if c.quick else 1000))
    c.judge("TraceBorealisVersion", c.drive("drive_bor_version.py", ["--hashes", p]))


@check("P14", PROJECTION, H5)
def p14(c):
    versions(c)
    bor_steps(c, 400, "read")
    bor_replaced(c, "read")
    bor_sessions(c)
    borealis(c, "untold")


@check("P15", H5, "times are told apart to a microsecond, sample values to a unit")
def p15(c):
    conversions(c, 0.08, 3 if c.quick else 6, 12 if c.quick else 60)


@check("P16", H5, "sample values are told apart to a unit of the 16-bit scale")
def p16(c):
    conversions(c, 0, 3 if c.quick else 6, 12 if c.quick else 60)


@check("P17", H5, "files are only changed through the library and the session's own environment steps")
def p17(c):
    bor_steps(c, 1600 if c.quick else 10000)
    bor_replaced(c)
    # conversions of data of every version, most of which cannot be converted
    c.judge("TraceBorealisConvert", c.drive("drive_bor_convert.py", ["--n", 40 if c.quick else 600, "--faults", 0.9]))
    bor_sessions(c)
    conversions(c, 0.7, 1, 4 if c.quick else 40)
    p13(c)
