"""Shared machinery of the checks: scratch build of the working tree, crash-safe
execution of scenarios in the real code, TLC runs, verdicts and evidence.

Nothing in here decides a property: the decision is the TLA+ specification's
(design run + trace validation). Python builds, drives and reports.
"""
import atexit
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = os.path.join(VERIF, "specs")
EVIDENCE = os.path.join(VERIF, "evidence")
REPO = os.environ.get("VERIF_REPO", "/repo")
PYTHON = "/opt/venv/bin/python"
TLA_JARS = ("/opt/veriftools/tla/tla2tools.jar:"
            "/opt/veriftools/tla/CommunityModules-deps.jar")


class MachineryError(Exception):
    """ The check itself could not run. """


# ----------------------------------------------------------------------------
# scratch directory and build

_SCRATCH = None


def scratch():
    global _SCRATCH
    if _SCRATCH is None:
        _SCRATCH = tempfile.mkdtemp(prefix="verif-")
        atexit.register(shutil.rmtree, _SCRATCH, ignore_errors=True)
        for sig in (signal.SIGTERM, signal.SIGHUP):
            signal.signal(sig, lambda *_: sys.exit(2))
    return _SCRATCH


def base_env():
    env = {
        "HOME": "/root", "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "TZ": "UTC",
        "PATH": "/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:"
                "/usr/bin:/sbin:/bin",
        "MPLBACKEND": "Agg", "PYTHONHASHSEED": "0",
        "PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1",
        "OPENBLAS_NUM_THREADS": "1", "TMPDIR": scratch(),
    }
    for key in ("VERIF_SEED", "VERIF_TIER", "JAVA_HOME"):
        if key in os.environ:
            env[key] = os.environ[key]
    return env


def build_env(root):
    env = base_env()
    env.update({
        "CPATH": root, "LIBRARY_PATH": root + "/qdipole",
        "LD_LIBRARY_PATH": root + "/qdipole",
        "LDFLAGS": "-Wl,-rpath," + root + "/qdipole",
        "PYTHONPATH": root + "/eoxmagmod:" + os.path.join(VERIF, "harness"),
        "SPACEPY": scratch(), "VERIF_TREE": root,
    })
    return env


def start_build():
    """ Copy the sources of the working tree and start building them. """
    root = os.path.join(scratch(), "tree")
    os.makedirs(root)
    ignore = shutil.ignore_patterns(
        "*.so", "*.o", "*.mod", "__pycache__", "*.pyc", "build", "*.egg-info",
        "config.status", "config.log", "Makefile", "qdipole_conf.h",
    )

    def keep_makefile(dirname, names):
        skip = set(ignore(dirname, names))
        if not dirname.endswith("/qdipole"):
            skip.discard("Makefile")
        return skip

    for part in ("qdipole", "eoxmagmod"):
        shutil.copytree(os.path.join(REPO, part), os.path.join(root, part),
                        ignore=keep_makefile)
    script = (
        "set -e\n"
        "(cd qdipole && bash ./configure >configure.out 2>&1 && "
        "make -k build >make.out 2>&1)\n"
        "cd eoxmagmod && exec %s - <<'P'\n"
        "import setuptools\n"
        "from distutils.core import run_setup\n"
        "run_setup('setup.py', ['build_ext','--inplace','--force','-j4'],"
        " stop_after='run')\n"
        "P\n" % PYTHON
    )
    log = open(os.path.join(scratch(), "build.log"), "w+b")
    proc = subprocess.Popen(
        ["bash", "-c", script], cwd=root, env=build_env(root),
        stdin=subprocess.DEVNULL, stdout=log, stderr=subprocess.STDOUT)
    return root, proc, log


def finish_build(build):
    root, proc, log = build
    if proc.wait(600) != 0:
        log.seek(0)
        raise MachineryError(
            "build of the working tree failed:\n"
            + log.read().decode(errors="replace")[-4000:])
    return root


# ----------------------------------------------------------------------------
# driving the real code

def run_worker(root, module, scenarios, name="run", timeout=420, per_item=60, guarded=True):
    """ Execute scenarios by `module.execute(scenario)` of the harness in
    processes importing the freshly built tree.  A crashed, exited or hung
    process yields the observation {"crash": "..."} of its scenario.
    Returns list of observations, one per scenario.
    """
    path_in = os.path.join(scratch(), name + ".scen.json")
    path_out = os.path.join(scratch(), name + ".obs.ndjson")
    with open(path_in, "w") as file_:
        json.dump(scenarios, file_)
    if os.path.exists(path_out):
        os.unlink(path_out)
    log = os.path.join(scratch(), name + ".log")
    environ = build_env(root)
    # private configuration directory - the imports write there
    environ["SPACEPY"] = os.path.join(scratch(), name + ".spacepy")
    os.makedirs(environ["SPACEPY"], exist_ok=True)
    # fresh memory is filled by a pattern, writes behind the end of allocated
    # blocks abort the process when the block is released
    environ["MALLOC_PERTURB_"] = "165"
    heap = "/lib/x86_64-linux-gnu/libc_malloc_debug.so.0"
    if guarded and os.path.exists(heap):
        environ.update(LD_PRELOAD=heap, MALLOC_CHECK_="3")
    with open(log, "wb") as file_:
        proc = subprocess.run(
            [PYTHON, "-W", "ignore", os.path.join(VERIF, "harness", "worker.py"),
             module, path_in, path_out, str(per_item)],
            cwd=scratch(), env=environ, stdin=subprocess.DEVNULL,
            stdout=file_, stderr=subprocess.STDOUT, timeout=timeout)
    if proc.returncode != 0:
        with open(log, "rb") as file_:
            raise MachineryError(
                "worker failed:\n" + file_.read().decode(errors="replace")[-4000:])
    with open(path_out) as file_:
        observations = [json.loads(line) for line in file_]
    if len(observations) != len(scenarios):
        raise MachineryError("worker: %d observations of %d scenarios" % (
            len(observations), len(scenarios)))
    return observations


def run_workers(root, module, scenarios, jobs=6, name="run", **kwargs):
    """ As run_worker, scenarios split to parallel workers. """
    from concurrent.futures import ThreadPoolExecutor
    jobs = max(1, min(jobs, len(scenarios)))
    chunks = [list(range(i, len(scenarios), jobs)) for i in range(jobs)]
    with ThreadPoolExecutor(jobs) as pool:
        parts = list(pool.map(
            lambda arg: run_worker(
                root, module, [scenarios[i] for i in arg[1]],
                name="%s%d" % (name, arg[0]), **kwargs),
            enumerate(chunks)))
    result = [None] * len(scenarios)
    for idx, part in zip(chunks, parts):
        for i, obs in zip(idx, part):
            result[i] = obs
    return result


# ----------------------------------------------------------------------------
# TLC

_TLC_STATES = re.compile(
    r"^(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found", re.M)


class TlcResult:
    def __init__(self, output, code):
        self.output = output
        self.code = code
        found = _TLC_STATES.findall(output)
        self.generated, self.distinct = map(int, found[-1]) if found else (0, 0)
        self.ok = "Model checking completed. No error has been found." in output


def start_tlc(spec, cfg=None, env=None, workers=1, heap="2g", stack="64m",
              extra=(), cwd=None):
    """ Start TLC on specs/<spec>.tla; returns a handle for finish_tlc. """
    tag = (cfg or spec).replace(".cfg", "")
    metadir = tempfile.mkdtemp(prefix="tlc-%s-" % tag, dir=scratch())
    environ = base_env()
    environ.update(env or {})
    cmd = [
        "java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2",
        "-Xmx" + heap, "-Xss" + stack,
        "-cp", TLA_JARS, "tlc2.TLC", "-noGenerateSpecTE",
        "-metadir", metadir, "-workers", str(workers), "-deadlock",
        "-config", (cfg or spec) + ".cfg", *extra, spec + ".tla",
    ]
    log = open(os.path.join(metadir, "out.log"), "w+b")
    proc = subprocess.Popen(
        cmd, cwd=cwd or SPECS, env=environ, stdin=subprocess.DEVNULL,
        stdout=log, stderr=subprocess.STDOUT)
    return proc, log, tag


def finish_tlc(handle, timeout=800, must_pass=True):
    proc, log, tag = handle
    try:
        code = proc.wait(timeout)
    except subprocess.TimeoutExpired:
        proc.kill()
        raise MachineryError("TLC timed out: " + tag) from None
    log.seek(0)
    result = TlcResult(log.read().decode(errors="replace"), code)
    if must_pass and not result.ok:
        raise MachineryError("TLC failed on %s:\n%s" % (tag, result.output[-6000:]))
    return result


def tlc(spec, cfg=None, timeout=800, must_pass=True, **kwargs):
    return finish_tlc(start_tlc(spec, cfg, **kwargs), timeout, must_pass)


def read_ndjson(path):
    with open(path) as file_:
        return [json.loads(line) for line in file_ if line.strip()]


def write_ndjson(path, items):
    with open(path, "w") as file_:
        for item in items:
            file_.write(json.dumps(item, separators=(",", ":")))
            file_.write("\n")


def validate(spec, lines, name="trace", shards=1, env=None, **kwargs):
    """ Validate observation lines by the trace specification `spec`.

    Returns (bad, known, counts, TlcResult-list), where bad and known are lists
    of (global line index, [clauses]) and counts sums the per-clause counters
    of the spec. The lines are sharded to parallel TLC runs; with more than one
    shard the line order is kept inside a shard (history-free specs or traces
    where `shards` is a list of lists of line indices).
    """
    if isinstance(shards, int):
        shards = max(1, min(shards, len(lines)))
        size = -(-len(lines) // shards) if lines else 1
        groups = [list(range(i, min(i + size, len(lines))))
                  for i in range(0, len(lines), size)]
    else:
        groups = [g for g in shards if g]
    handles = []
    for idx, group in enumerate(groups):
        path = os.path.join(scratch(), "%s%d.ndjson" % (name, idx))
        verdict = os.path.join(scratch(), "%s%d.verdict.json" % (name, idx))
        if os.path.exists(verdict):
            os.unlink(verdict)
        write_ndjson(path, [lines[i] for i in group])
        environ = dict(env or {})
        environ.update({"TRACE": path, "VERDICT": verdict})
        handles.append((start_tlc(spec, env=environ, **kwargs), verdict, group))
    bad, known, counts, runs = [], [], {}, []
    for handle, verdict, group in handles:
        run = finish_tlc(handle, must_pass=False)
        runs.append(run)
        if not run.ok:
            # an observation for which the judgement of the specification is
            # not defined (e.g. value of an impossible magnitude or structure)
            at_line = re.findall(r"^(?:/\\ )?l = (\d+)$", run.output, re.M)
            if not at_line or "evaluating" not in run.output:
                raise MachineryError("TLC failed on %s:\n%s" % (spec, run.output[-6000:]))
            print(run.output[:1500], file=sys.stderr)
            bad.append((group[min(int(at_line[-1]), len(group)) - 1], ["undefined"]))
            continue
        with open(verdict) as file_:
            data = json.load(file_)
        if data["lines"] != len(group):
            raise MachineryError("trace not consumed: %s" % data["lines"])
        bad.extend((group[item["line"] - 1], item["clauses"]) for item in data["bad"])
        known.extend((group[item["line"] - 1], item["clauses"]) for item in data["known"])
        for key, value in data["counts"].items():
            counts[key] = counts.get(key, 0) + value
    return sorted(bad), sorted(known), counts, runs


# ----------------------------------------------------------------------------
# check life-cycle

class Check:
    """ One property check: collects the coverage and reports the verdict. """

    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.thorough = self.tier == "thorough"
        self.start = time.time()
        self.coverage = {
            "states": 0, "transitions": 0, "traces_validated_against_impl": 0,
            "samples": [],
        }
        self.assumptions = []
        self.violations = []
        self.known_seen = {}
        self.phases = {}

    def phase(self, name):
        self.phases[name] = round(time.time() - self.start, 2)

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def add_design(self, run):
        self.coverage["states"] += run.distinct
        self.coverage["transitions"] += run.generated
        self.coverage.setdefault("design_runs", []).append(
            {"distinct": run.distinct, "generated": run.generated})

    def add_trace(self, lines, runs, counts, traces=None):
        self.coverage["traces_validated_against_impl"] += (
            len(lines) if traces is None else traces)
        self.coverage["trace_lines"] = (
            self.coverage.get("trace_lines", 0) + len(lines))
        self.coverage["trace_states"] = (
            self.coverage.get("trace_states", 0) + sum(r.distinct for r in runs))
        clauses = self.coverage.setdefault("clause_evaluations", {})
        for key, value in counts.items():
            clauses[key] = clauses.get(key, 0) + value
        for line in lines[:: max(1, len(lines) // 3)][:3]:
            text = json.dumps(line)
            self.coverage["samples"].append(
                line if len(text) < 1500 else text[:1500] + "...")

    def violate(self, clauses, detail):
        self.violations.append({"clauses": sorted(clauses), "detail": detail})

    def known(self, key, text):
        self.known_seen.setdefault(key, [0, text])[0] += 1

    def finish(self):
        for key, value in self.coverage.get("clause_evaluations", {}).items():
            if value == 0 and not self.violations:
                raise MachineryError(
                    "vacuous run: clause %s was never exercised" % key)
        for key, (count, text) in sorted(self.known_seen.items()):
            print("KNOWN-FINDING: property=%s %s (%s, %d observations)" % (
                self.prop, text, key, count))
        os.makedirs(EVIDENCE, exist_ok=True)
        report = {
            "property": self.prop, "tier": self.tier, "seed": self.seed,
            "level": self.level, "coverage": self.coverage,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.start, 2),
            "violations": len(self.violations),
        }
        self.coverage["phases_s"] = self.phases
        path = os.path.join(EVIDENCE, self.prop + ".json")
        with open(path + ".tmp", "w") as file_:
            json.dump(report, file_, indent=1)
        os.replace(path + ".tmp", path)
        if not self.violations:
            print("OK property=%s %s tier=%s wall=%.1fs lines=%s" % (
                self.prop, self.phases, self.tier, time.time() - self.start,
                self.coverage.get("trace_lines")))
            return 0
        replay = os.path.join(EVIDENCE, "%s.replay.json" % self.prop)
        with open(replay, "w") as file_:
            json.dump(self.violations[:50], file_, indent=1, default=str)
        for item in self.violations[:5]:
            print("  failed clauses: %s  %s" % (
                ", ".join(item["clauses"]),
                json.dumps(item["detail"], default=str)[:600]))
        print("VIOLATION property=%s replay=%s" % (self.prop, replay))
        return 1


def main(prop, run, level="model_checking"):
    check = Check(prop, level)
    try:
        run(check)
        code = check.finish()
    except MachineryError as error:
        print("ERROR property=%s %s" % (prop, error), file=sys.stderr)
        code = 2
    sys.stdout.flush()
    sys.exit(code)
