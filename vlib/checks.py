"""One function per property: which models, scenarios, replays and trace
specifications decide it."""
import json
import os

from .run import CORES

CHECKS = {}


def check(prop, assumptions=()):
    def deco(fn):
        fn.assumptions = assumptions
        CHECKS[prop] = fn
        return fn
    return deco


FIELD = ["double precision tolerance of Newton!TolG / TolT (calibrated margin > 20)",
         "the module override java/Flt.java computes double-doubles correctly"]
ALL_ST = "out,out,in,plane,line,face,edge,nearface,nearedge,axis,far,mid,above,foot,hair"
OFF_ST = "out,out,in,plane,line,nearface,nearedge,axis,far,mid,above,foot,hair"


def field(c, n, stations, clauses, offset):
    jobs = [(c.seed * 1000 + offset + k, n, stations) for k in range(CORES)]
    c.validate("FieldTrace", c.replay("field_replay", jobs), clauses)


def small(c, what, module, clauses, side, sizes, stations, keep, offset):
    """every set of points of a small lattice (one in keep), from TLC"""
    g = dump(c, dict(side=side, min=sizes[0], max=sizes[1], stations=stations), "small.json")
    scns = c.scenarios("SmallGen", "SmallGen.cfg", env={"GEN": g})
    path = dump(c, scns[(c.seed + offset) % keep::keep], "scn-%s-%d.json" % (what, side))
    jobs = [(what, path, c.seed * 1000 + offset, k, CORES) for k in range(CORES)]
    c.validate(module, c.replay("small_replay", jobs), clauses)


NEWTON = """SPECIFICATION Spec
CONSTANTS
  N = %d
  Half = %d
INVARIANTS %s
CHECK_DEADLOCK FALSE
"""


def newton_model(c, laws):
    """the reference field against the laws that characterise it"""
    c.model("NewtonMC", NEWTON % (2 if c.thorough else 1, 2 if c.thorough else 3, laws), name="NewtonMC")


@check("C01", FIELD)
def c01(c):
    newton_model(c, "Laws FarLaw Continuous Volumes")
    field(c, 20000 if c.thorough else 2600, ALL_ST, {"raised", "G", "G-not-finite"}, 100)
    small(c, "field", "FieldTrace", {"raised", "G", "G-not-finite"}, 2, (4, 8), True, 1 if c.thorough else 4, 0)


@check("C02", FIELD)
def c02(c):
    newton_model(c, "Laws FarLaw Continuous Volumes")
    field(c, 20000 if c.thorough else 2600, OFF_ST, {"raised", "T", "T-symmetric"}, 200)
    small(c, "field", "FieldTrace", {"raised", "T", "T-symmetric"}, 2, (4, 8), True, 1 if c.thorough else 4, 1)


def shapes(c, what, module, clauses, n, offset):
    jobs = [(what, c.seed * 1000 + offset + k, n) for k in range(CORES)]
    c.validate(module, c.replay("shapes_replay", jobs), clauses)


@check("C03", FIELD)
def c03(c):
    newton_model(c, "Laws FarLaw Continuous Volumes")
    field(c, 8000 if c.thorough else 1200, OFF_ST, {"raised", "T-trace"}, 300)
    small(c, "field", "FieldTrace", {"raised", "T-trace"}, 2, (4, 8), True, 1 if c.thorough else 8, 2)
    shapes(c, "flux", "FluxTrace", {"raised", "flux"}, 60 if c.thorough else 12, 300)


@check("C06")
def c06(c):
    shapes(c, "faces", "FacesTrace", None, 6000 if c.thorough else 1100, 600)
    small(c, "faces", "FacesTrace", None, 2, (4, 8), False, 1, 0)
    small(c, "faces", "FacesTrace", None, 3, (4, 5) if c.thorough else (4, 4), False, 3 if c.thorough else 11, 0)


@check("C07", FIELD)
def c07(c):
    shapes(c, "pairs", "PairTrace", {"raised", "G-image", "T-image"},
           8000 if c.thorough else 1100, 700)


# -- histories of calls ---------------------------------------------------------
ENGINE = """SPECIFICATION Spec
CONSTANTS
  Station = {s1, s2}
  Body = {b1, b2}
  Flags = {TRUE, FALSE}
  Nil = Nil
  MaxCalls = 2
  ResetAtStart = %s
  ResetAtEnd = %s
  ResetEdges = %s
  SumApart = %s
  NegateTwin = %s
INVARIANT ResultsRight
PROPERTY Refines
CHECK_DEADLOCK FALSE
"""
T, F = "TRUE", "FALSE"


def engine_model(c):
    c.model("Engine", ENGINE % (T, T, T, T, T), name="Engine")
    c.model("Engine", ENGINE % (T, F, T, T, T), name="Engine, no reset at the end")
    for name, v in [("no reset at the start", (F, T, T, T, T)),
                    ("no reset", (F, F, T, T, T)),
                    ("edges not reset", (F, T, F, T, T)),
                    ("station updated body by body", (T, T, T, F, T)),
                    ("twin edge not negated", (T, T, T, T, F))]:
        c.model("Engine", ENGINE % v, expect="violated", name="Engine broken: " + name)


def calls(c, kinds, faults, clauses, num, depth, offset, long=0):
    """long: that many histories in addition, ten times as long"""
    if long:
        calls(c, kinds, faults, clauses, long, depth * 10, offset + 50)
    gen = dict(bodies=4, stations=4, depth=depth, kinds=kinds, faults=faults)
    gpath = os.path.join(c.scratch, "gen.json")
    with open(gpath, "w") as f:
        json.dump(gen, f)
    scn = c.scenarios("CallsGen", "CallsGen.cfg", env={"GEN": gpath},
                      args=["-simulate", "num=%d" % num, "-depth", str(depth + 3),
                            "-seed", str(c.seed * 1000 + offset)])
    path = os.path.join(c.scratch, "scn.json")
    with open(path, "w") as f:
        json.dump(dict(gen, histories=scn), f)
    jobs = [(path, c.seed * 1000 + offset, k, CORES) for k in range(CORES)]
    c.validate("StationsTrace", c.replay("calls_replay", jobs), clauses)


NOFAULT = ["none"]
FAULTS = ["none"] * 6 + ["interrupt", "interrupt", "interrupt", "error", "density", "gc", "type"]


@check("C04", FIELD)
def c04(c):
    calls(c, ["compute", "compute", "order", "order", "cut", "cut"], NOFAULT,
          {"raised", "sum-G", "sum-T", "order", "cut", "other-station"},
          1600 if c.thorough else 480, 24, 400, 80 if c.thorough else 8)


@check("C05", FIELD)
def c05(c):
    engine_model(c)
    calls(c, ["compute", "compute", "compute", "field", "field", "field", "order", "rebuild", "restation"], FAULTS,
          {"raised", "sum-G", "sum-T", "field-G", "field-T", "failed-changed",
           "other-station", "order"},
          2400 if c.thorough else 480, 24, 500, 80 if c.thorough else 8)


@check("C15", FIELD)
def c15(c):
    calls(c, ["compute", "field", "field", "flag", "flag", "mutate", "rebuild"], NOFAULT * 5 + FAULTS,
          {"raised", "input-changed", "nograd-T", "flag-G", "sum-G", "field-G"},
          1600 if c.thorough else 560, 20, 1500)


# -- reference systems ------------------------------------------------------------
CRS = """SPECIFICATION Spec
CONSTANTS
  Ell = {wgs84, airy}
  WGS84 = wgs84
  Origin = {o1, o2}
  Geoid = {g1, g2}
  NDs = 2
  MaxOps = %d
  EnuViaWGS84 = %s
  UseOwnOrigin = %s
  ClearDatum = %s
  GeoOnly = %s
  OwnLabel = %s
INVARIANTS LabelTrue HeightOnce CartStays
CHECK_DEADLOCK FALSE
"""


def crs_model(c):
    n = 6 if c.thorough else 4
    c.model("Crs", CRS % (n, T, T, T, T, T), name="Crs")
    for name, v in [("to ENU from any ellipsoid as if WGS84", (F, T, T, T, T)),
                    ("ENU origin not its own", (T, F, T, T, T)),
                    ("geoid applied again", (T, T, F, T, T)),
                    ("geoid added to ENU heights", (T, T, T, F, T)),
                    ("label shared by datasets", (T, T, T, T, F))]:
        c.model("Crs", CRS % ((3,) + v), expect="violated", name="Crs broken: " + name)


GEODESYMC = """SPECIFICATION Spec
CONSTANTS
  DLon = %d
  DLat = %d
INVARIANTS OnEllipsoid Normal HeightAlong Anchors Turn Rigid Directions %s
CHECK_DEADLOCK FALSE
"""


def geodesy_model(c):
    """the reference positions against what defines the coordinates"""
    c.model("GeodesyMC", GEODESYMC % ((15, 5, "") if c.thorough else (45, 15, "")), name="GeodesyMC")


def meridian_model(c):
    c.model("GeodesyMC", GEODESYMC % (540, 90, "Meridians"), name="GeodesyMC, meridians")


def dump(c, obj, name):
    path = os.path.join(c.scratch, name)
    with open(path, "w") as f:
        json.dump(obj, f)
    return path


def conversions(c, ops, clauses, num, depth, alld, offset):
    scns = []
    if alld:
        g = dump(c, dict(depth=alld, datasets=1, ops=ops), "g.json")
        scns += c.scenarios("CrsGen", "CrsGenAll.cfg", env={"GEN": g})
    g = dump(c, dict(depth=depth, datasets=3, ops=ops), "g.json")
    scns += c.scenarios("CrsGen", "CrsGenRand.cfg", env={"GEN": g},
                        args=["-simulate", "num=%d" % num, "-depth", str(depth + 4),
                              "-seed", str(c.seed * 1000 + offset)])
    path = dump(c, scns, "scn.json")
    jobs = [(path, c.seed * 1000 + offset, k, CORES) for k in range(CORES)]
    c.validate("CrsTrace", c.replay("crs_replay", jobs), clauses)


GEODESY = ["points within about 10 km of the ellipsoid (or of an ENU origin) at the start",
           "undulations of EGM96 and EGM2008 from synthetic grids (the real ones are not in "
           "this copy); EGM84 against the values of its grid around the point"]
CONV = ["ecef", "wgs84", "enu"]


@check("C08", GEODESY)
def c08(c):
    crs_model(c)
    geodesy_model(c)
    conversions(c, CONV + CONV + ["lon180", "height"],
                {"raised", "moved", "drifted", "label", "label-incomplete", "datum",
                 "points-lost", "columns", "cart-changed", "other-dataset"},
                3000 if c.thorough else 900, 10, 4 if c.thorough else 3, 800)


@check("C09", GEODESY)
def c09(c):
    crs_model(c)
    conversions(c, ["height", "height", "lon180"] + CONV,
                {"raised", "height", "height-not-geographic", "datum", "label", "points-lost",
                 "other-dataset"},
                4000 if c.thorough else 1200, 8, 3, 900)


@check("C10", GEODESY)
def c10(c):
    meridian_model(c)
    conversions(c, ["lon180", "lon180", "lon180"] + CONV,
                {"raised", "wrap", "wrap-not-geographic", "points-lost", "cart-changed",
                 "label", "datum", "other-dataset"},
                4000 if c.thorough else 1600, 8, 3, 1000)


# -- configuration ----------------------------------------------------------------
def loads(c, clauses, offset, crs=None, sources=None, num=0, depth=4):
    """crs, sources: keep one scenario in ... of the exhaustive sets (None: none of them)"""
    scns = []
    g = dump(c, dict(depth=depth), "g.json")
    for spec, keep in (("C", crs), ("S", sources)):
        if keep:
            got = c.scenarios("ConfigGen", "ConfigGen%s.cfg" % spec, env={"GEN": g})
            scns += got[c.seed % keep::keep]
    if num:
        scns += c.scenarios("ConfigGen", "ConfigGenR.cfg", env={"GEN": g},
                            args=["-simulate", "num=%d" % num, "-depth", str(depth + 4),
                                  "-seed", str(c.seed * 1000 + offset)])
    path = dump(c, scns, "scn.json")
    jobs = [(path, c.seed * 1000 + offset, k, CORES) for k in range(CORES)]
    c.validate("ConfigTrace", c.replay("config_replay", jobs), clauses)
    if not c.fails:
        c.need(accept=500, refuse=100)


LAYERS = """SPECIFICATION Spec
CONSTANTS
  Param = %s
  Section <- SectionOf
  Values = {1, 2}
  MaxSteps = %d
  FreshStack = %s
  ArgOnTop = %s
  PerParam = %s
INVARIANTS Right OracleAgrees
CHECK_DEADLOCK FALSE
"""


def layers_model(c):
    two = "{1, 2}"
    c.model("LayersMC", LAYERS % ("{1, 2, 3}", 8 if c.thorough else 6, T, T, T), name="Layers")
    if not c.thorough:
        c.model("LayersMC", LAYERS % (two, 11, T, T, T), name="Layers, two loads")
    else:
        c.model("LayersMC", LAYERS % (two, 16, T, T, T), name="Layers, three loads")
    for name, v in [("sources of the former load kept", (F, T, T)),
                    ("user's file above the argument", (T, F, T)),
                    ("sections replaced as a whole", (T, T, F))]:
        c.model("LayersMC", LAYERS % ((two, 11) + v), expect="violated", name="Layers broken: " + name)


@check("C11")
def c11(c):
    layers_model(c)
    loads(c, {"raised", "value", "count", "density", "constant", "coords", "crs", "refused",
              "accepted-number", "accepted-source", "accepted-crs"}, 1100,
          num=2000 if c.thorough else 600, depth=4)


@check("C12")
def c12(c):
    loads(c, {"raised", "coords", "accepted-source", "refused", "names"}, 1200,
          sources=1, num=2000 if c.thorough else 160)


@check("C14")
def c14(c):
    loads(c, {"raised", "crs", "accepted-crs", "refused", "not-a-configuration-error", "names"}, 1400,
          crs=1 if c.thorough else 2, num=2000 if c.thorough else 60)


# -- the program as a whole ---------------------------------------------------------
def sessions(c, gen, clauses, num, offset, extra=()):
    g = dump(c, gen, "g.json")
    scns = c.scenarios("RunGen", "RunGen.cfg", env={"GEN": g},
                       args=["-simulate", "num=%d" % num, "-depth", str(gen["depth"] + 4),
                             "-seed", str(c.seed * 1000 + offset)])
    path = dump(c, list(extra) + scns, "scn.json")
    jobs = [(path, c.seed * 1000 + offset, k, CORES) for k in range(CORES)]
    res = c.validate("RunTrace", c.replay("run_replay", jobs), clauses)
    tally = {}
    for r in (r for x in res for r in x[1]):
        k = "%s%s, %s%s: exit %s" % (r["op"], " (own process)" if r["shell"] else "", r["fault"], " (fired)" if r["fired"] else "",
                                   "0" if r["exit"] == 0 else "not 0")
        tally[k] = tally.get(k, 0) + 1
    if not c.fails:
        c.need(succeed=80)
    c.notes["outcomes"] = dict(sorted(tally.items()))


RUN = """SPECIFICATION Spec
CONSTANTS
  MaxMasses = %d
  MaxObs = %d
  HeightsFirst = %s
  OneFrame = %s
  ReportFirst = %s
  OwnFactor = %s
  AddUp = %s
INVARIANT Right
PROPERTY Ends
CHECK_DEADLOCK FALSE
"""


def run_model(c):
    c.model("Run", RUN % (((4, 3) if c.thorough else (3, 2)) + (T, T, T, T, T)), name="Run")
    for name, v in [("heights after ECEF", (F, T, T, T, T)),
                    ("stations not in the frame of the bodies", (T, F, T, T, T)),
                    ("positions reported in ECEF", (T, T, F, T, T)),
                    ("density of the first body", (T, T, T, F, T)),
                    ("field of the last body only", (T, T, T, T, F))]:
        c.model("Run", RUN % ((2, 1) + v), expect="violated", name="Run broken: " + name)


@check("C13", FIELD + GEODESY)
def c13(c):
    run_model(c)
    sessions(c, dict(depth=4, faults=["none"], wfaults=["none"], tfaults=["none"], ops=["run"]),
             {"refused", "format", "header", "rows", "position", "G", "T", "T-not-asked"},
             1200 if c.thorough else 240, 1300)


OUTPUT = """SPECIFICATION Spec
CONSTANTS
  Path = {1, 2}
  Part <- PartOf
  NBlocks = %d
  MaxRuns = %d
  Aside = %s
  Late = %s
  CleanUp = %s
  Honest = %s
INVARIANTS Whole Intact Truthful
CHECK_DEADLOCK FALSE
"""


def output_model(c):
    n = (6, 5) if c.thorough else (3, 3)
    c.model("OutputMC", OUTPUT % (n + (T, T, T, T)), name="Output")
    for name, v in [("results written in place", (F, T, T, T)),
                    ("file emptied before computing", (F, F, T, T)),
                    ("unfinished file left", (T, T, F, T)),
                    ("results announced before they are there", (T, T, T, F))]:
        c.model("OutputMC", OUTPUT % ((2, 2) + v), expect="violated", name="Output broken: " + name)


BADRUNS = ["badref", "badell", "badvd", "noorigin", "nofile", "nosource", "density", "few", "flat",
           "vertex", "noconfig", "badyaml", "parentfile", "isdir"]


@check("C16", FIELD + GEODESY)
def c16(c):
    output_model(c)
    sessions(c, dict(depth=8, faults=["none"] * 6 + BADRUNS + ["space", "interrupt", "kill"] * 3,
                     wfaults=["none"] * 3 + ["space", "space", "interrupt", "kill", "kill", "parentfile", "isdir"],
                     tfaults=["none"], ops=["run", "run", "run", "write", "write"]),
             {"refused", "accepted", "files", "failed-changed", "damaged", "read-back", "format", "rows",
              "G", "T"},
             1000 if c.thorough else 240, 1600)


TEMPLATE = dict(op="run", scene="template", masses=[], obs={}, grad=True, layer="arg",
                out=dict(base="cwd", dirs="", stem="t", suf=""), fault="none", at=1)


@check("C17", FIELD)
def c17(c):
    output_model(c)
    sessions(c, dict(depth=8, faults=["none"], wfaults=["none"],
                     tfaults=["none"] * 6 + ["isdir", "parentfile", "space", "space", "interrupt", "kill"],
                     ops=["config", "config", "config", "run"]),
             {"refused", "accepted", "files", "failed-changed", "damaged", "template", "template-refused",
              "template-incomplete"},
             400 if c.thorough else 120, 1700, extra=[[TEMPLATE]])


@check("C20", FIELD + GEODESY)
def c20(c):
    output_model(c)
    sessions(c, dict(depth=8, faults=["none"] * 8 + BADRUNS + ["interrupt"] * 3, wfaults=["none"],
                     tfaults=["none"] * 6 + ["isdir", "parentfile", "interrupt"],
                     ops=["run", "run", "config", "ask", "ask", "ask"]),
             {"not-announced", "announced", "announced-other", "log", "not-answered", "asked-changed",
              "accepted", "refused", "failed-changed"},
             800 if c.thorough else 120, 2000)
    if not c.fails:
        c.need(tell=80, answer=60, refuse=60)


@check("C19", FIELD + GEODESY)
def c19(c):
    sessions(c, dict(depth=8, faults=["none"], wfaults=["none"], tfaults=["none"],
                     ops=["run", "run", "again", "again", "again", "again", "config"]),
             {"differs", "refused", "header", "position"}, 700 if c.thorough else 70, 1900)
    if not c.fails:
        c.need(agree=100)


# -- what is refused ----------------------------------------------------------------
@check("C18")
def c18(c):
    path = dump(c, c.scenarios("InputsGen", "InputsGen.cfg"), "scn.json")
    jobs = [(path, c.seed * 1000 + 1800, k, CORES, 30 if c.thorough else 8) for k in range(CORES)]
    c.validate("InputsTrace", c.replay("inputs_replay", jobs), None)
    small(c, "inputs", "InputsTrace", None, 2, (1, 8), False, 1, 0)
    small(c, "inputs", "InputsTrace", None, 3, (4, 5) if c.thorough else (4, 4), False, 8, 0)
    if not c.fails:
        c.need(accept=300, refuse=1000)


@check("C21")
def c21(c):
    jobs = [(c.seed * 1000 + 2100 + k, 700 if c.thorough else 90) for k in range(CORES)]
    c.validate("ShowTrace", c.replay("show_replay", jobs), None)
