"""What all checks share: running TLC, building the harness, evidence."""
import concurrent.futures as cf
import fcntl
import glob
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
BUILD = os.path.join(ROOT, "build")
TARGET = os.path.join(BUILD, "target")
HARNESS = os.path.join(ROOT, "harness")
REPO = os.environ.get("VERIF_REPO", "/repo")
TLAJARS = ":".join(["/opt/veriftools/tla/tla2tools.jar"] + glob.glob("/opt/veriftools/tla/*ommunity*.jar"))
CORES = os.cpu_count() or 4


reported = 0  # VIOLATION lines printed


class ToolError(Exception):
    """The machinery failed: nothing is known about the property."""


def log(*a):
    print(*a, flush=True)


def cargo_env(**extra):
    env = dict(os.environ)
    env.update(CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable", CARGO_TERM_COLOR="never",
               CARGO_INCREMENTAL="0")
    env.pop("RUSTFLAGS", None)
    env.update(extra)
    return env


def limits(gb):
    def set_limits():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
    return set_limits


# ----------------------------------------------------------------------- TLC
class Tlc:
    """The outcome of a run: ok, or violated (with depth), or broken."""
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        self.transitions, self.states = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
        m = re.findall(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m[-1]) if m else None
        self.ok = "Model checking completed. No error has been found" in out
        self.last_l = None
        m = re.findall(r"^/\\ l = (\d+)", out, re.M)
        if m:
            self.last_l = int(m[-1])


def tlc(module, cfg, workers=1, mem="3g", timeout=600, env=None, meta=None, args=()):
    meta = meta or os.path.join(BUILD, "meta-%d-%s" % (os.getpid(), cfg))
    shutil.rmtree(meta, ignore_errors=True)
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss64m",
           "-Dfile.encoding=UTF-8", "-cp", TLAJARS, "tlc2.TLC", "-workers", str(workers), "-noGenerateSpecTE",
           "-metadir", meta, "-config", os.path.join(SPEC, cfg + ".cfg")] + list(args) + \
          [os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    t = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e,
                           timeout=timeout, cwd=SPEC, errors="replace")
    except subprocess.TimeoutExpired:
        raise ToolError("TLC did not finish %s in %d s" % (cfg, timeout))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return Tlc(p.stdout, p.returncode, time.time() - t)


def tlc_models(names, run, timeout=600, workers=4):
    """Models that do not depend on the code: each must pass."""
    total = {"states": 0, "transitions": 0, "models": {}}
    with cf.ThreadPoolExecutor(max(1, CORES // workers)) as ex:
        futs = {n: ex.submit(tlc, module_of(n), n, workers=workers, timeout=timeout,
                             meta=os.path.join(run, "meta-" + n)) for n in names}
        for n, f in futs.items():
            r = f.result()
            if not r.ok:
                raise ToolError("the specification itself fails %s:\n%s" % (n, r.out[-3000:]))
            total["states"] += r.states
            total["transitions"] += r.transitions
            total["models"][n] = {"states": r.states, "transitions": r.transitions, "wall_s": round(r.wall, 1)}
    return total


def module_of(cfg):
    while not os.path.exists(os.path.join(SPEC, cfg + ".tla")):
        if "_" not in cfg:
            raise ToolError("no module for " + cfg)
        cfg = cfg.rsplit("_", 1)[0]
    return cfg


# ------------------------------------------------------------- traces of calls
def validate(trace, run, timeout=800):
    """Is the log a behaviour?  (True, states..) or (False, line number)."""
    with open(trace) as f:
        n = sum(1 for _ in f)
    if n <= 1:
        return dict(ok=True, lines=n, states=0, transitions=0, wall=0)
    r = tlc("Trace", "Trace", env={"TRACE": trace}, timeout=timeout,
            meta=os.path.join(run, "meta-" + os.path.basename(trace)))
    res = dict(lines=n, states=r.states, transitions=r.transitions, wall=r.wall)
    if r.ok and r.depth == n:
        return dict(ok=True, **res)
    if r.depth is not None and r.depth < n and "Accepted" in r.out:
        return dict(ok=False, line=r.depth + 1, why="no step of the specification", **res)
    if r.last_l is not None and re.search(r"Error: (The following|Evaluating|TLC threw|.*evaluat|The behavior)", r.out) \
            and "OutOfMemory" not in r.out and "StackOverflow" not in r.out:
        why = re.search(r"Error: (.*(?:\n.*){0,4})", r.out).group(1)
        return dict(ok=False, line=r.last_l, why="not evaluable: " + why, **res)
    raise ToolError("TLC failed on %s:\n%s" % (trace, r.out[-3000:]))


def segment(trace, line):
    """meta + the declaration in force at the line + what follows up to it."""
    with open(trace) as f:
        lines = f.read().split("\n")
    start = max(i for i in range(line) if '"op":"decl"' in lines[i].replace(" ", ""))
    return [lines[0]] + lines[start:line]


# ---------------------------------------------------------------- compilation
def run_group(cmd, cwd, env, timeout, gb):
    """Runs a command in a group of its own, with limited memory per process:
    (exit status or "timeout", stdout, stderr)."""
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                         errors="replace", start_new_session=True, preexec_fn=limits(gb))
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out, err
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
        return "timeout", out, err


def cargo_json(args, env, cwd, timeout=600, gb=10):
    """(exit status or "timeout", errors with their targets, stderr, targets built)"""
    rc, out, err = run_group(["cargo"] + args + ["--offline", "--message-format", "json"], cwd, env, timeout, gb)
    errs, built = [], set()
    for line in out.split("\n"):
        if not line.startswith("{"):
            continue
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") == "compiler-message" and m["message"]["level"].startswith("error"):
            errs.append((m["target"]["name"], m["message"]))
        if m.get("reason") == "compiler-artifact":
            built.add(m["target"]["name"])
    return rc, errs, err, built


def spans_of(msg):
    """All (file, line) a diagnostic points at, macro expansions included."""
    out = []

    def walk(s):
        out.append((os.path.basename(s["file_name"]), s["line_start"]))
        if s.get("expansion"):
            walk(s["expansion"]["span"])

    for s in msg["spans"]:
        walk(s)
    for c in msg["children"]:
        for s in c["spans"]:
            walk(s)
    return out


class Lock:
    def __init__(self, path):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        self.f = open(path, "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)


FULL = "conv,ser,alloc"
# Without overflow checks and debug assertions, but compiled as fast as usual.
UNCHECKED = [x for p in ("enumset", "enumset_derive", "conform") for o in ("debug-assertions", "overflow-checks")
             for x in ("--config", "profile.dev.package.%s.%s=false" % (p, o))]


def build_harness(shapes, run, prefix="c", sub="bin", features=FULL, args=()):
    """Builds the eight programs of the prefix; shapes the derive refuses are left
    out.  Returns (directory with the programs, shapes in them, refused ones with reasons)."""
    import shapes as sh
    gen = os.path.join(HARNESS, "gen")
    os.makedirs(gen, exist_ok=True)
    refused = []
    with Lock(os.path.join(BUILD, "lock")):
        for p in "cp":
            for i in range(sh.BINS):
                if not os.path.exists("%s/%s%d.rs" % (gen, p, i)):
                    open("%s/%s%d.rs" % (gen, p, i), "w").close()
        for attempt in range(6):
            sh.write(gen, shapes, prefix)
            env = cargo_env(CARGO_TARGET_DIR=TARGET)
            cmd = ["build", "-q", "--features", features] + list(args)
            for i in range(sh.BINS):
                cmd += ["--bin", "%s%d" % (prefix, i)]
            rc, errs, err, _ = cargo_json(cmd, env, HARNESS)
            if rc == 0:
                break
            ranges = {}
            for i in range(sh.BINS):
                cur = None
                with open("%s/%s%d.rs" % (gen, prefix, i)) as f:
                    for n, line in enumerate(f, 1):
                        if line.startswith("#[derive(") and "EnumSetType" in line:
                            start = n
                        m = re.match(r"pub enum (S\d+) ", line)
                        if m:
                            cur = m.group(1)
                            ranges[cur] = ["%s%d.rs" % (prefix, i), start, n]
                        if line.startswith("fn machines"):
                            cur = None
                        if cur:
                            ranges[cur][2] = n
            bad = {}
            for tgt, m in errs:
                for f, n in spans_of(m):
                    for sid, (g, a, b) in ranges.items():
                        if f == g and a <= n <= b:
                            bad.setdefault(sid, m["message"])
            if not bad:
                raise ToolError("the harness does not compile against this tree:\n" +
                                "\n".join((m.get("rendered") or m["message"])[:1500] for _, m in errs[:4]) + err[-2000:])
            refused += [(s, bad[s.id]) for s in shapes if s.id in bad]
            shapes = [s for s in shapes if s.id not in bad]
        else:
            raise ToolError("too many rounds of refused declarations")
        bins = os.path.join(run, sub)
        os.makedirs(bins, exist_ok=True)
        for i in range(sh.BINS):
            shutil.copy(os.path.join(TARGET, "release" if "--release" in args else "debug", "%s%d" % (prefix, i)), bins)
    return bins, shapes, refused


# ------------------------------------------------------------------- evidence
def write_evidence(pid, tier, seed, level, coverage, assumptions, wall, violations):
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    path = os.path.join(ROOT, "evidence", pid + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump({"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": coverage,
                   "assumptions": assumptions, "wall_s": round(wall, 1), "violations": violations},
                  f, indent=1)
        f.write("\n")
    os.replace(path + ".tmp", path)
