"""What each property runs.  quick/thorough differ only in amounts."""
import re
import random

import common
from common import SEED, TIER, NPROC, model_check, validate, record, Outcome

THOROUGH = TIER == "thorough"


def amount(q, t):
    return t if THOROUGH else q


def seeds(n, base):
    return [SEED * 1000003 + base * 1009 + i for i in range(n)]


def sample(xs, n, salt):
    if len(xs) <= n:
        return xs
    return random.Random(SEED * 7919 + salt).sample(xs, n)


def split(xs, n):
    return [xs[i::n] for i in range(n) if xs[i::n]]


def crash_violations(out, crashed):
    for c in crashed:
        out.violations.append({
            "clause": "the process running the library died (%s)" % c["signal"],
            "at": 0, "trace": {"ev": [], "crash": c}})


def run_module(out, mod, spec, salt, njobs, job, extra=()):
    traces, crashed = record(mod, "random_traces", [(s, *job) for s in seeds(njobs, salt)])
    crash_violations(out, crashed)
    validate(out, spec, spec + ".cfg", traces)


def library(out, pid):
    focus = {"C01": "bind", "C02": "refs"}[pid]
    model_check(out, "MCLibrary", amount("MCLibrary.cfg", "MCLibraryBig.cfg"))
    evs = model_check(out, "MCLibrary", "MCLibraryEmit.cfg")
    out.notes["behaviours_generated_by_TLC"] = len(evs)
    evs = sample(evs, amount(6000, 40000), 1)
    jobs = split([(1, False, e) for e in evs], NPROC)
    traces, crashed = record("m_library", "replay", jobs)
    crash_violations(out, crashed)
    validate(out, "TraceLibrary", "TraceLibrary.cfg", traces)
    run_module(out, "m_library", "TraceLibrary", 2, amount(16, 64), (amount(60, 400), amount(30, 45), focus))


def hier(out, pid):
    if pid == "C12":
        model_check(out, "MCSvg", amount("MCSvg.cfg", "MCSvgBig.cfg"))
    else:
        model_check(out, "MCHier", amount("MCHier.cfg", "MCHierBig.cfg"))
    evs = model_check(out, "MCHier", amount("MCHierEmit.cfg", "MCHierEmitBig.cfg"))
    out.notes["behaviours_generated_by_TLC"] = len(evs)
    evs = sample(evs, amount(1200, 12000), 2)
    traces, crashed = record("m_hier", "replay", [(pid, SEED * 31 + i, e) for i, e in enumerate(split(evs, 2 * NPROC))])
    crash_violations(out, crashed)
    validate(out, "TraceHier", "TraceHier.cfg", traces)
    if pid in ("C03", "C04", "C05", "C06", "C10", "C12"):
        traces, crashed = record("m_hier", "scenarios", [pid])
        crash_violations(out, crashed)
        validate(out, "TraceHier", "TraceHier.cfg", traces)
    run_module(out, "m_hier", "TraceHier", int(pid[1:]) + 10, amount(16, 64), (amount(10, 60), amount(45, 60), pid))


def gdsii(out, pid):
    if pid in ("G01", "G03", "G06"):
        evs = model_check(out, "MCGdsii", "MCGdsii.cfg")
        if THOROUGH:
            model_check(out, "MCGdsii", "MCGdsiiBig.cfg", timeout=800)
    if pid == "G03":
        out.notes["streams_generated_by_TLC"] = len(evs)
        evs = sample(evs, amount(1600, 9264), 3)
        traces, crashed = record("m_gdsii", "replay", [(SEED * 37 + i, e) for i, e in enumerate(split(evs, 2 * NPROC))])
        crash_violations(out, crashed)
        validate(out, "TraceGdsii", "TraceGdsii.cfg", traces)
    if pid in ("G01", "G02", "G05", "G06"):
        jobs = [(s, amount(15 if pid == "G06" else 30, 150), pid) for s in seeds(amount(16, 48), 40 + int(pid[1:]))]
        fn = "written"
    elif pid == "G03":
        jobs = [(s, amount(40, 200)) for s in seeds(amount(16, 48), 43)]
        fn = "foreign"
    else:
        jobs = [(s, amount(60, 400)) for s in seeds(amount(16, 48), 44)]
        fn = "reals"
    traces, crashed = record("m_gdsii", fn, jobs)
    crash_violations(out, crashed)
    validate(out, "TraceGdsii", "TraceGdsii.cfg", traces)


def geom(out, pid):
    op = {"B01": "bool", "B02": "slice", "B03": "inside", "B04": "fracture", "B05": "offset"}[pid]
    evs = model_check(out, "MCGeom", "MCGeom.cfg", timeout=800, env={"GEOM_OP": op, "GEOM_FULL": amount("0", "1")})
    out.notes["cases_enumerated_by_TLC"] = len(evs)
    evs = sample(evs, amount(1600, 40000), 4)
    traces, crashed = record("m_geom", "replay", [(SEED * 41 + i, e) for i, e in enumerate(split(evs, 2 * NPROC))])
    crash_violations(out, crashed)
    validate(out, "TraceGeom", "TraceGeom.cfg", traces)
    if pid == "B01":
        traces, crashed = record("m_geom", "scenarios", [pid])
        crash_violations(out, crashed)
        validate(out, "TraceGeom", "TraceGeom.cfg", traces)
    run_module(out, "m_geom", "TraceGeom", 60 + int(pid[1:]), amount(16, 64), (amount(15, 60), pid))


def shapes(out, pid):
    if pid != "B07":
        model_check(out, "MCShapes", amount("MCShapes.cfg", "MCShapesBig.cfg"))
        evs = model_check(out, "MCShapes", "MCShapesEmit.cfg")
        out.notes["behaviours_generated_by_TLC"] = len(evs)
        evs = [e for e in evs if any(v["t"] == "seg" for v in e) == (pid == "P01")]
        evs = sample(evs, amount(1200, 8000), 5)
        traces, crashed = record("m_shapes", "replay", [(pid, SEED * 43 + i, e) for i, e in enumerate(split(evs, 2 * NPROC))])
        crash_violations(out, crashed)
        validate(out, "TraceShapes", "TraceShapes.cfg", traces)
    n = {"B06": 30, "B07": 40, "P01": 30, "P05": 30}[pid]
    run_module(out, "m_shapes", "TraceShapes", 70 + sum(map(ord, pid)), amount(16, 40 if pid == "P01" else 64), (amount(n, 2 * n if pid == "P01" else 3 * n), amount(14, 20 if pid == "P01" else 25), pid))


def curve(out, pid):
    model_check(out, "MCCurve", amount("MCCurve.cfg", "MCCurveBig.cfg"), timeout=800)
    evs = model_check(out, "MCCurve", "MCCurveEmit.cfg")
    out.notes["behaviours_generated_by_TLC"] = len(evs)
    evs = sample(evs, amount(1200, 8000), 6)
    traces, crashed = record("m_curve", "replay", [(SEED * 47 + i, e) for i, e in enumerate(split(evs, 2 * NPROC))])
    crash_violations(out, crashed)
    validate(out, "TraceCurve", "TraceCurve.cfg", traces)
    run_module(out, "m_curve", "TraceCurve", 90, amount(16, 64), (amount(60, 150), amount(8, 12), pid))


def flex(out, pid):
    model_check(out, "MCFlexPath", amount("MCFlexPath.cfg", "MCFlexPathBig.cfg"), timeout=800)
    evs = model_check(out, "MCFlexPath", "MCFlexPathEmit.cfg")
    out.notes["behaviours_generated_by_TLC"] = len(evs)
    evs = sample(evs, amount(400, 5000), 6)
    traces, crashed = record("m_flex", "replay", [(SEED * 53 + i, e) for i, e in enumerate(split(evs, 2 * NPROC))])
    crash_violations(out, crashed)
    validate(out, "TraceFlexPath", "TraceFlexPath.cfg", traces)
    run_module(out, "m_flex", "TraceFlexPath", 110, amount(16, 48), (amount(10, 45), amount(8, 10), pid))


def robust(out, pid):
    model_check(out, "MCRobustPath", amount("MCRobustPath.cfg", "MCRobustPathBig.cfg"), timeout=800)
    evs = model_check(out, "MCRobustPath", "MCRobustPathEmit.cfg")
    out.notes["behaviours_generated_by_TLC"] = len(evs)
    evs = sample(evs, amount(240, 900), 7)
    traces, crashed = record("m_robust", "replay", [(SEED * 59 + i, e) for i, e in enumerate(split(evs, 2 * NPROC))])
    crash_violations(out, crashed)
    validate(out, "TraceRobustPath", "TraceRobustPath.cfg", traces)
    run_module(out, "m_robust", "TraceRobustPath", 130, amount(16, 40), (amount(6, 10), amount(7, 8), pid))


def viewer(out, pid):
    model_check(out, "MCViewer", amount("MCViewer.cfg", "MCViewerBig.cfg"), timeout=800)
    evs = model_check(out, "MCViewer", "MCViewerEmit.cfg")
    out.notes["behaviours_generated_by_TLC"] = len(evs)
    evs = sample(evs, amount(1600, 12000), 8)
    traces, crashed = record("m_viewer", "replay", [(SEED * 61 + i, e) for i, e in enumerate(split(evs, 2 * NPROC))])
    crash_violations(out, crashed)
    validate(out, "TraceViewer", "TraceViewer.cfg", traces)
    run_module(out, "m_viewer", "TraceViewer", 150, amount(16, 64), (amount(40, 120), amount(16, 24), pid))


SMOOTH = ("chord beyond the tolerance", "vertex off the curve", "does not reach its end", "vertices out of order", "a vertex off its side",
          "vertex off its corner", "arc of a corner", "points of the interpolation", "corner in the interpolation", "angle of the interpolation",
          "arc: angle", "arc: end point", "arc: direction", "arc: sides of a section", "vertex off the boundary", "does not follow its sections",
          "circular bend", "Round: region", "Round: number of points", "fillet: region")


def smooth(out, pid):
    """every builder of curves; only what concerns the approximation counts here"""
    model_check(out, "MCCurve", amount("MCCurve.cfg", "MCCurveBig.cfg"), timeout=800)
    run_module(out, "m_curve", "TraceCurve", 170, amount(16, 48), (amount(25, 120), amount(8, 12), "P04"))
    run_module(out, "m_shapes", "TraceShapes", 171, amount(16, 48), (amount(8, 40), 14, "P01"))
    run_module(out, "m_shapes", "TraceShapes", 172, amount(16, 48), (amount(8, 40), 8, "B07"))
    run_module(out, "m_flex", "TraceFlexPath", 173, amount(16, 32), (amount(3, 15), 8, "P02"))
    run_module(out, "m_robust", "TraceRobustPath", 174, amount(8, 32), (amount(2, 6), 7, "P03"))
    out.violations = [v for v in out.violations if any(v["clause"].endswith(c) for c in SMOOTH) or re.search(r"outline \(.*(round|smooth)", v["clause"])]


CHECKS = {
    "B01": geom,
    "B02": geom,
    "B03": geom,
    "B04": geom,
    "B05": geom,
    "B06": shapes,
    "B07": shapes,
    "P01": shapes,
    "P02": flex,
    "P03": robust,
    "P04": curve,
    "P05": shapes,
    "G01": gdsii,
    "G02": gdsii,
    "G03": gdsii,
    "G04": gdsii,
    "G05": gdsii,
    "G06": gdsii,
    "C01": library,
    "C02": library,
    "C03": hier,
    "C04": hier,
    "C05": hier,
    "C06": hier,
    "C07": hier,
    "C08": hier,
    "C09": hier,
    "C10": hier,
    "C11": hier,
    "C12": hier,
    "V01": viewer,
    "N01": smooth,
}
