"""Shared machinery of the checks: scratch build of the code under test, parallel
recording of traces from it, TLC runs, verdict collection, evidence.

Nothing here decides a property.  Every verdict is computed by TLC evaluating a
specification in /verif/spec; this file only moves data.
"""
import faulthandler
import importlib
import json
import multiprocessing as mp
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
NPROC = max(1, min(8, os.cpu_count() or 1))
TLAJAR = "/opt/veriftools/tla/tla2tools.jar"
_t0 = time.time()

SCRATCH = None


class MachineryError(Exception):
    """The check itself failed: never reported as a violation."""


def scratch():
    global SCRATCH
    if SCRATCH is None:
        SCRATCH = tempfile.mkdtemp(prefix="gdspy-verif-")
    return SCRATCH


def cleanup():
    global SCRATCH
    if SCRATCH is not None:
        shutil.rmtree(SCRATCH, ignore_errors=True)
        SCRATCH = None


class BuildBroken(Exception):
    pass


def build():
    """Copy the package from the working tree, compile the extension, import it from there."""
    root = os.path.join(scratch(), "src")
    os.makedirs(root)
    shutil.copytree(
        os.path.join(REPO, "gdspy"),
        os.path.join(root, "gdspy"),
        ignore=shutil.ignore_patterns("*.so", "__pycache__"),
    )
    for f in ("setup.py", "setup.cfg", "README.md", "MANIFEST.in", "requirements.txt"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            shutil.copy(p, root)
    env = dict(os.environ)
    r = subprocess.run(
        [sys.executable, "-W", "ignore", "setup.py", "-q", "build_ext", "--inplace", "--force"],
        cwd=root, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
    )
    if r.returncode != 0:
        raise MachineryError("build failed:\n" + r.stdout[-3000:])
    sys.path.insert(0, root)
    for m in [m for m in sys.modules if m == "gdspy" or m.startswith("gdspy.")]:
        del sys.modules[m]
    import warnings
    warnings.simplefilter("ignore")
    import gdspy
    assert gdspy.__file__.startswith(root), gdspy.__file__
    import gdspy.clipper
    assert gdspy.clipper.__file__.startswith(root), gdspy.clipper.__file__
    gdspy.library.use_current_library = False
    return gdspy


# --------------------------------------------------------------------------- recording


class StepTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise StepTimeout()


def guarded(fn, seconds=20.0):
    """Call fn(); return (exception name or "", value)."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        try:
            v = fn()
            return "", v
        except StepTimeout:
            return "TIMEOUT", None
        except Exception as e:  # noqa
            return type(e).__name__, e
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _worker(modname, fname, job, idx, path):
    sys.setrecursionlimit(3000)
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    devnull = open(os.devnull, "w")
    os.dup2(devnull.fileno(), 2)
    try:
        mod = importlib.import_module(modname)
        fn = getattr(mod, fname)
        with open(path, "w") as f:
            for tr in fn(job, path + ".cur"):
                f.write(json.dumps(tr, separators=(",", ":")) + "\n")
        os._exit(0)
    except BaseException:
        with open(path + ".err", "w") as f:
            f.write(traceback.format_exc())
        os._exit(3)


def record(modname, fname, jobs, timeout=600):
    """Run fn(job) in forked children, at most NPROC at a time; collect traces.

    A child that dies by a signal or hangs (the code under test crashed the
    interpreter or does not return) is reported in `crashed`.
    """
    outdir = tempfile.mkdtemp(dir=scratch())
    files, crashed = [], []
    ctx = mp.get_context("fork")
    pending = list(enumerate(jobs))
    running = {}
    while pending or running:
        while pending and len(running) < NPROC:
            i, job = pending.pop(0)
            path = os.path.join(outdir, "%05d.ndjson" % i)
            p = ctx.Process(target=_worker, args=(modname, fname, job, i, path))
            p.start()
            running[i] = (p, path, job, time.time())
        for i in list(running):
            p, path, job, st = running[i]
            p.join(0.01)
            if p.exitcode is not None:
                del running[i]
                if p.exitcode == 0:
                    files.append((i, path))
                elif p.exitcode < 0:
                    cur = _read(path + ".cur")
                    crashed.append({"job": repr(job)[:500], "signal": -p.exitcode, "last": cur})
                else:
                    raise MachineryError("driver failed: " + str(_read(path + ".err")))
            elif time.time() - st > timeout:
                p.kill()
                p.join()
                del running[i]
                crashed.append({"job": repr(job)[:500], "signal": "hang", "last": _read(path + ".cur")})
    files.sort()
    traces = []
    for _, path in files:
        with open(path) as f:
            for line in f:
                traces.append(line)
        os.unlink(path)
    return traces, crashed


def _read(p):
    try:
        with open(p) as f:
            return f.read()[-20000:]
    except OSError:
        return None


# --------------------------------------------------------------------------- TLC

_num = r"([\d,]+)"


def _tlc(args, env=None, timeout=800, xmx="3g", workers=1, cwd=SPEC, extra_java=()):
    e = dict(os.environ)
    e.update(env or {})
    meta = tempfile.mkdtemp(dir=scratch())
    cp = TLAJAR + ":" + _community()
    cmd = ["java", "-Xmx" + xmx, "-Xss16m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2",
           *extra_java, "-cp", cp, "tlc2.TLC", "-metadir", meta, "-workers", str(workers),
           "-noGenerateSpecTE", *args]
    return cmd, e, meta


_comm = None


def _community():
    global _comm
    if _comm is None:
        d = os.path.dirname(TLAJAR)
        jars = [os.path.join(d, f) for f in os.listdir(d) if f.endswith(".jar") and "ommunity" in f]
        _comm = ":".join(jars)
    return _comm


def run_tlc(module, cfg, env=None, timeout=800, xmx="3g", workers=1, args=(), coverage=False):
    a = ["-config", cfg, *args]
    if coverage:
        a += ["-coverage", "1"]
    a.append(module)
    cmd, e, meta = _tlc(a, env, timeout, xmx, workers)
    out = open(os.path.join(meta, "out.txt"), "w+")
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=out, stderr=subprocess.STDOUT, timeout=timeout)
        rc = r.returncode
    except subprocess.TimeoutExpired:
        rc = "timeout"
    out.flush()
    out.seek(0)
    text = out.read()
    out.close()
    shutil.rmtree(meta, ignore_errors=True)
    return rc, text


def tlc_counts(text):
    m = re.findall(_num + r" states generated, " + _num + r" distinct states found", text)
    if not m:
        m2 = re.findall(r"The number of states generated: " + _num, text)
        if m2:
            n = int(m2[-1].replace(",", ""))
            return n, n
        return 0, 0
    g, d = m[-1]
    return int(g.replace(",", "")), int(d.replace(",", ""))


class Outcome:
    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.violations = []   # list of dicts
        self.notes = {}
        self.assumptions = []
        self.opcount = {}


def model_check(out, module, cfg, timeout=600, xmx="6g", workers=NPROC, env=None, emit=None, args=()):
    """Exhaustive TLC run of the design.  Returns printed EMIT payloads."""
    t = time.time()
    rc, text = run_tlc(module, cfg, env=env, timeout=timeout, xmx=xmx, workers=workers, args=args)
    gen, dist = tlc_counts(text)
    if rc != 0:
        raise MachineryError("model checking %s/%s: rc=%s\n%s" % (module, cfg, rc, text[-6000:]))
    out.states += dist
    out.transitions += gen
    out.notes.setdefault("model_checking", []).append(
        {"module": module, "cfg": cfg, "states": dist, "transitions": gen, "wall_s": round(time.time() - t, 1)}
    )
    res = []
    for line in text.splitlines():
        if line.startswith('"EMIT '):
            res.append(json.loads(json.loads(line)[5:]))
        elif line.startswith('<<"EMIT", "'):
            res.append(json.loads(json.loads(line[len('<<"EMIT", '):-2])))
    return res


_verdict = re.compile(r'^<<"VERDICT", (\d+), (\d+), "(.*)">>$')


def validate(out, module, cfg, traces, known=(), timeout=800, chunk=None, xmx="3g", env=None):
    """Validate recorded traces (json lines, each {"ev": [...], ...}) against a trace spec."""
    if not traces:
        return
    n = len(traces)
    nchunks = min(NPROC, max(1, n))
    if chunk:
        nchunks = max(nchunks, (n + chunk - 1) // chunk)
    # interleave so that heavy traces spread
    chunks = [list(range(i, n, nchunks)) for i in range(nchunks)]
    t = time.time()
    procs = []
    results = {}
    pend = list(enumerate(chunks))
    running = []

    def start(ci, idxs):
        d = tempfile.mkdtemp(dir=scratch())
        p = os.path.join(d, "t.ndjson")
        with open(p, "w") as f:
            for i in idxs:
                f.write(traces[i].rstrip("\n") + "\n")
        ev = dict(env or {})
        ev["TRACE"] = p
        cmd, e, meta = _tlc(["-config", cfg, "-deadlock", module], ev, timeout, xmx, 1)
        fo = open(os.path.join(d, "out.txt"), "w+")
        pr = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=fo, stderr=subprocess.STDOUT)
        running.append((pr, ci, idxs, d, fo, meta, time.time()))

    while pend or running:
        while pend and len(running) < NPROC:
            start(*pend.pop(0))
        time.sleep(0.02)
        for item in list(running):
            pr, ci, idxs, d, fo, meta, st = item
            if pr.poll() is None:
                if time.time() - st > timeout:
                    pr.kill()
                    pr.wait()
                    raise MachineryError("trace validation timed out: " + module)
                continue
            running.remove(item)
            fo.flush()
            fo.seek(0)
            text = fo.read()
            fo.close()
            gen, dist = tlc_counts(text)
            out.notes["trace_states"] = out.notes.get("trace_states", 0) + dist
            got = {}
            for line in text.splitlines():
                m = _verdict.match(line)
                if m:
                    got[int(m.group(1))] = (int(m.group(2)), m.group(3))
            if os.environ.get("VERIF_DEBUG"):
                for line in text.splitlines():
                    if line.startswith('<<"DEBUG"') or line.startswith('<< "DEBUG"'):
                        print(line[:4000])
            if len(got) != len(idxs):
                bad = re.search(r"Error: (.*(?:\n(?!\d+ states).*){0,25})", text)
                msg = bad.group(1) if bad else text[-3000:]
                if pr.returncode in (0,) or "OutOfMemory" in text or "StackOverflow" in text \
                        or "Parsing or semantic analysis failed" in text \
                        or not re.search(r"Attempted to|evaluat|[Nn]o arms|not in the domain|nonexistent field|CHOOSE|compare", text):
                    raise MachineryError("trace validation failed (%s, rc=%s): %s" % (module, pr.returncode, text[-4000:]))
                # The specification cannot even interpret what the code returned.
                if len(idxs) == 1:
                    out.violations.append({"clause": "observation outside the specification's domain: " + msg[:600],
                                           "at": 0, "trace": json.loads(traces[idxs[0]])})
                    got = {1: (0, "!")}
                else:
                    half = len(idxs) // 2
                    pend.append((ci, idxs[:half]))
                    pend.append((ci, idxs[half:]))
                    shutil.rmtree(d, ignore_errors=True)
                    shutil.rmtree(meta, ignore_errors=True)
                    continue
            for k, (pos, clause) in got.items():
                i = idxs[k - 1]
                if clause == "!":
                    continue
                if clause != "":
                    tr = json.loads(traces[i])
                    out.violations.append({"clause": clause, "at": pos, "trace": tr})
            out.traces += len(idxs)
            shutil.rmtree(d, ignore_errors=True)
            shutil.rmtree(meta, ignore_errors=True)
    for tr in traces[:1] + traces[n // 2: n // 2 + 1]:
        s = json.loads(tr)
        txt = json.dumps(s)
        if len(out.samples) < 4:
            out.samples.append(s if len(txt) < 6000 else {"truncated": txt[:6000]})
    nev = 0
    for tr in traces:
        for m in re.findall(r'"op":"([A-Za-z0-9_]+)"', tr):
            out.opcount[m] = out.opcount.get(m, 0) + 1
            nev += 1
    out.events += nev
    out.notes.setdefault("trace_validation", []).append(
        {"module": module, "traces": n, "events": nev, "wall_s": round(time.time() - t, 1)})


# --------------------------------------------------------------------------- reporting


def known_findings(pid):
    res = []
    p = os.path.join(VERIF, "known-findings.json")
    if os.path.exists(p):
        with open(p) as f:
            for k in json.load(f).get("findings", []):
                if k["property"] == pid:
                    res.append(k)
    return res


def match_known(k, v):
    """A finding names the clause and a fragment of the failing event."""
    m = k["match"]
    if m.get("clause") and m["clause"] != v["clause"]:
        return False
    ev = v["trace"].get("ev", [])
    at = v["at"]
    e = ev[at - 1] if 0 < at <= len(ev) else {}
    for key, val in m.get("event", {}).items():
        if e.get(key) != val:
            return False
    return True


def finish(pid, out, level="model_checking"):
    known = known_findings(pid)
    hit = set()
    fresh = []
    for v in out.violations:
        for i, k in enumerate(known):
            if match_known(k, v):
                hit.add(i)
                break
        else:
            fresh.append(v)
    for i, k in enumerate(known):
        if i in hit:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    shown = 0
    seen = set()
    for n, v in enumerate(fresh):
        key = v["clause"]
        if key in seen:
            continue
        seen.add(key)
        p = os.path.join(d, "%s-%d.json" % (pid, shown))
        with open(p, "w") as f:
            json.dump({"property": pid, "seed": SEED, "tier": TIER, **v}, f, indent=1, default=repr)
        ev = v["trace"].get("ev", [])
        e = ev[v["at"] - 1] if 0 < v["at"] <= len(ev) else None
        print("rejected by the specification: clause=%s at=%s event=%s" % (
            v["clause"], v["at"], json.dumps(e, default=repr)[:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, p))
        shown += 1
        if shown >= 5:
            break
    cov = {
        "states": out.states,
        "transitions": out.transitions,
        "traces_validated_against_impl": out.traces,
        "events_validated": out.events,
        "events_by_operation": out.opcount,
        "samples": out.samples,
        **out.notes,
    }
    evd = {
        "property": pid, "tier": TIER, "seed": SEED, "level": level,
        "coverage": cov, "assumptions": out.assumptions,
        "wall_s": round(time.time() - _t0, 2), "violations": len(fresh),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(evd, f, indent=1, default=repr)
    print("%s: %s tier=%s states=%d traces=%d events=%d wall=%.1fs" % (
        pid, "VIOLATED" if fresh else "ok", TIER, out.states, out.traces, out.events, time.time() - _t0))
    return 1 if fresh else 0
