"""Properties of calls: P01..P11, P14..P17.

1. The TLA+ models: the implementation-shaped words and iterators refine the
   abstract specification; the laws the property states hold of it.
2. Behaviours generated by TLC from the specification are performed on the
   real enums and compared.
3. Systematic and random histories are performed on the real enums, recorded,
   and validated by TLC as behaviours of the specification.
"""
import concurrent.futures as cf
import json
import os
import random
import shutil
import subprocess
import time

import lib
import shapes as sh
from lib import ToolError, log

MODELS = {
    "P01": ["MC_Words_set", "MC_Laws_static"],
    "P02": ["MC_Words_set"],
    "P03": ["MC_Words_set", "MC_Words_conv", "MC_Words_iter"],
    "P04": ["MC_Words_iter", "MC_Laws_iter"],
    "P05": ["MC_Words_conv", "MC_Words_prim", "MC_Laws_static"],
    "P06": ["MC_Words_conv", "MC_Words_prim", "MC_Laws_static"],
    "P07": ["MC_Words_conv", "MC_Words_prim", "MC_Laws_static"],
    "P08": ["MC_Words_prim", "MC_Laws_static"],
    "P09": ["MC_Laws_static"],
    "P10": ["MC_Laws_static"],
    "P11": [],
    "P14": ["MC_Laws_order"],
    "P15": ["MC_Laws_static"],
    "P16": ["MC_Words_conv", "MC_Words_prim", "MC_Words_iter"],
    "P17": ["MC_Words_set", "MC_Laws_static"],
    "P18": ["MC_Words_set"],
}
FAMILY = {"P01": "core", "P02": "core", "P03": "core", "P04": "iter", "P05": "int", "P06": "int", "P07": "array",
          "P08": "repr", "P09": "serde", "P10": "serde", "P14": "core", "P17": "core"}
SCALE = {"P15": 6}
AGREE, VALID = ("P16", "P18"), ("P03",)


def gen_conf(pid, shapes, seed, tier):
    """What TLC is to generate calls for."""
    fam = FAMILY[pid]
    if fam in ("core", "iter"):
        out = []
        if fam == "core":
            out.append(dict(D=[1, 2, 3], abs=True, kind="none", deny=False, w=0, nreg=2, extra=[]))
        else:
            out.append(dict(D=[1, 2, 3, 4, 5], abs=True, kind="none", deny=False, w=0, nreg=1, extra=[]))
        out.append(dict(out[0], D=[1, 2]))
        out.append(dict(out[0], D=[1]))
        return out
    rng = random.Random(seed * 13 + 7)
    seen, out = set(), []
    cap = 8 if tier == "quick" else 10
    for s in shapes:
        D = s.D
        if len(D) > 5 or (D and D[-1] > 450):
            continue
        kind, deny, w = "none", False, 0
        if fam == "repr":
            if not s.width:
                continue
            w = s.width
        if fam == "serde":
            kind, deny = s.kind, s.deny
            w = s.width
        key = (tuple(D), kind, deny, w if fam == "repr" else 0)
        if key in seen:
            continue
        seen.add(key)
        near = [x for d in D for x in (d - 1, d + 1)] + [(D[-1] // 64 + 1) * 64 - 1 if D else 0]
        edge = [0, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128]
        if fam == "repr":
            near = [x for x in near + [w - 1] if x < w]
            edge = [x for x in edge if x < w]
        cand = [x for x in dict.fromkeys(near) if x >= 0 and x not in D]
        more = [x for x in edge if x not in D and x not in cand]
        rng.shuffle(cand)
        rng.shuffle(more)
        n = max(0, cap - len(D) - (1 if fam == "array" or kind == "array" else 0))
        extra = (cand[:(n + 1) // 2] + more)[:n]
        out.append(dict(D=D, abs=False, kind=kind, deny=deny, w=w if fam == "repr" else 0,
                        nreg=2 if fam == "serde" else 1, extra=sorted(extra)))
    return out


def generate(pid, conf, run):
    """TLC writes the behaviours; in parallel over the declarations."""
    fam = FAMILY[pid]
    n = min(lib.CORES, len(conf))
    parts = [conf[i::n] for i in range(n)]

    def one(i):
        g, o = os.path.join(run, "gen%d.nd" % i), os.path.join(run, "cases%d.nd" % i)
        with open(g, "w") as f:
            for c in parts[i]:
                f.write(json.dumps(c) + "\n")
        if os.path.exists(o):
            os.unlink(o)
        r = lib.tlc("Gen", "Gen_" + fam, env={"GEN": g, "OUT": o}, timeout=600,
                    meta=os.path.join(run, "meta-gen%d" % i))
        if not r.ok:
            raise ToolError("generation failed:\n" + r.out[-3000:])
        return o, r.states, r.transitions

    with cf.ThreadPoolExecutor(n) as ex:
        res = list(ex.map(one, range(n)))
    path = os.path.join(run, "cases.nd")
    count = 0
    with open(path, "wb") as out:
        for o, _, _ in res:
            if os.path.exists(o):
                with open(o, "rb") as f:
                    for line in f:
                        out.write(line)
                        count += 1
                os.unlink(o)
    return path, count, sum(r[1] for r in res), sum(r[2] for r in res)


def run_prog(cmd, timeout, gb=6):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True,
                           preexec_fn=lib.limits(gb), errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return "timeout", (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else ""


def crumb_of(path):
    try:
        with open(path) as f:
            name, op = f.read().strip().split(" ", 1)
        return name, json.loads(op)
    except (OSError, ValueError):
        return None, None


# Properties whose thorough check includes the proofs without bounds.
PROVED = ("P01", "P02", "P03", "P04", "P06", "P14", "P16")


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.run = os.path.join(lib.BUILD, "run", pid)
        shutil.rmtree(self.run, ignore_errors=True)
        os.makedirs(self.run)
        self.violations = []        # replay paths
        self.config = "checked"
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.cov.update(models={}, generated_cases=0, replayed_cases=0, replayed_calls=0, replayed_skipped=0,
                        recorded_histories=0, recorded_calls=0, calls_judged={}, outcomes={}, shapes=0,
                        refused_declarations=[], rounds=0)

    # ------------------------------------------------------------- reporting
    def violation(self, why, head, lines):
        d = os.path.join(lib.BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d-%s-%d.nd" % (self.pid, self.seed, self.tier, len(self.violations)))
        head = dict(head, config=self.config, property=self.pid, seed=self.cur_seed, tier=self.tier, why=why)
        with open(path, "w") as f:
            f.write(json.dumps(head) + "\n")
            for x in lines:
                f.write(x.rstrip("\n") + "\n")
        log("  " + why)
        for x in lines[-3:]:
            log("    " + x[:600].rstrip())
        log("VIOLATION property=%s replay=%s" % (self.pid, path))
        lib.reported += 1
        self.violations.append(path)

    # ----------------------------------------------------------- replay cases
    def replay(self, bins, shapes):
        if self.pid not in FAMILY:
            return
        conf = gen_conf(self.pid, shapes, self.cur_seed, self.tier)
        t = time.time()
        cases, n, st, tr = generate(self.pid, conf, self.run)
        if n == 0:
            raise ToolError("nothing was generated")
        self.cov["states"] += st
        self.cov["transitions"] += tr
        self.cov["generated_cases"] += n
        log("  generated %d behaviours for %d declarations (%.0f s)" % (n, len(conf), time.time() - t))
        with open(cases) as f:
            for k, line in enumerate(f):
                if k in (n // 3, 2 * n // 3):
                    self.cov["samples"].append({"generated": json.loads(json.loads(line))})
        t = time.time()

        def one(i):
            out = os.path.join(self.run, "replay%d.nd" % i)
            return i, out, run_prog([os.path.join(bins, "c%d" % i), "--cmd", "replay", "--prop", self.pid, "--cases", cases,
                                     "--out", out, "--seed", str(self.cur_seed)], 300)

        with cf.ThreadPoolExecutor(sh.BINS) as ex:
            res = list(ex.map(one, range(sh.BINS)))
        meta = self.meta()
        done = 0
        for i, out, (rc, text) in res:
            if rc != 0:
                self.crashed(i, out + ".log.crumb", rc, text, "replay")
                continue
            suspects = []
            with open(out) as f:
                for line in f:
                    v = json.loads(line)
                    if "calls" in v:
                        self.cov["replayed_calls"] += v["calls"]
                        self.cov["replayed_cases"] += v["cases"]
                        self.cov["replayed_skipped"] += v["skipped"]
                        done += v["cases"]
                        self.cov["traces_validated_against_impl"] += v["cases"] - v["bad"] - v["skipped"]
                    else:
                        suspects.append(v)
            for v in suspects[:4]:
                # The specification judges what was really done.
                lines = [meta] + [json.dumps(x) for x in v["log"]]
                if self.judge(lines, "replayed behaviour: " + v["bad"]):
                    break
        log("  replayed %d cases on the real enums (%.0f s)" % (done, time.time() - t))
        if done == 0 and not self.violations:
            raise ToolError("no generated behaviour was replayed")
        os.unlink(cases)

    def judge(self, lines, why):
        path = os.path.join(self.run, "suspect.nd")
        with open(path, "w") as f:
            f.write("\n".join(lines) + "\n")
        r = lib.validate(path, self.run)
        if r["ok"]:
            return False
        self.violation("%s (%s)" % (why, r["why"]), {"kind": "trace"}, lines[:r["line"]])
        return True

    def meta(self):
        with open(os.path.join(self.run, "meta.nd")) as f:
            return f.readline().strip()

    def crashed(self, i, crumb, rc, text, what):
        name, op = crumb_of(crumb)
        if op is None:
            raise ToolError("%s of c%d ended with %s: %s" % (what, i, rc, text[-500:]))
        if rc not in ("timeout",) and isinstance(rc, int) and rc > 0 and rc not in (134, 139):
            raise ToolError("%s of c%d failed (%s): %s" % (what, i, rc, text[-800:]))
        own = op["op"] in self.own or self.pid in AGREE + VALID
        why = "%s of c%d %s in %s on %s" % (what, i, "did not end" if rc == "timeout" else "crashed (%s)" % rc,
                                            json.dumps(op), name)
        if not own:
            log("  note: " + why + " (not a call this property is about)")
            return name
        self.violation(why, {"kind": "crash", "what": what, "bin": i, "shape": name}, [json.dumps(op)])
        return name

    # --------------------------------------------------------------- recording
    def record(self, bins, scale, prefix="c"):
        t = time.time()
        before = self.cov["recorded_calls"], self.cov["recorded_histories"]

        def one(i):
            out = os.path.join(self.run, "rec-%s%d.nd" % (prefix, i))
            skip = []
            while True:
                rc, text = run_prog([os.path.join(bins, "%s%d" % (prefix, i)), "--cmd", "record", "--prop", self.pid, "--out", out,
                                     "--seed", str(self.cur_seed * 64 + i), "--scale", str(scale), "--skip", " ".join(skip)],
                                    120 if self.tier == "quick" else 900)
                if rc == 0:
                    return out
                name = self.crashed(i, out + ".crumb", rc, text, "recording")
                skip.append(name)
                if len(skip) > 4 or rc == "timeout" and len(skip) > 1:
                    if self.violations:
                        return None
                    raise ToolError("recording keeps failing: %s" % skip)

        with cf.ThreadPoolExecutor(sh.BINS) as ex:
            outs = list(ex.map(one, range(sh.BINS)))
            outs = [o for o in outs if o]
            log("  recorded (%.0f s)" % (time.time() - t))
            t = time.time()
            res = list(ex.map(lambda o: lib.validate(o, self.run), outs))
        for out, r in zip(outs, res):
            self.cov["states"] += r["states"]
            self.cov["transitions"] += r["transitions"]
            self.count(out, r["lines"] if r["ok"] else r["line"] - 1)
            if not r["ok"]:
                seg = lib.segment(out, r["line"])
                self.violation("recorded history: " + r["why"], {"kind": "trace"}, seg)
        log("  validated %d calls in %d histories (%.0f s)" % (
            self.cov["recorded_calls"] - before[0], self.cov["recorded_histories"] - before[1], time.time() - t))
        return outs

    def count(self, path, upto):
        judged, outcomes = self.cov["calls_judged"], self.cov["outcomes"]
        with open(path) as f:
            for n, line in enumerate(f):
                if n >= upto:
                    break
                v = json.loads(line)
                if v["op"] == "meta":
                    continue
                if v["op"] == "decl":
                    self.cov["recorded_histories"] += 1
                    self.cov["traces_validated_against_impl"] += 1
                    continue
                self.cov["recorded_calls"] += 1
                if not self.own or v["op"] in self.own:
                    judged[v["op"]] = judged.get(v["op"], 0) + 1
                    k = "%s:%s" % (v["op"], v["obs"][0]["k"])
                    outcomes[k] = outcomes.get(k, 0) + 1
                    if judged[v["op"]] == 7 and len(line) < 500 and len(self.cov["samples"]) < 12:
                        self.cov["samples"].append({"recorded": v})

    # -------------------------------------------------------- is it binding?
    def self_test(self, outs):
        """A falsified line of a real log must be refused, at that line."""
        rng = random.Random(self.seed)
        tried = 0
        for out in outs:
            with open(out) as f:
                lines = [next(f, None) for _ in range(3000)]
            lines = [x for x in lines if x]
            cand = [n for n in range(2, len(lines))
                    if (v := json.loads(lines[n]))["op"] != "decl" and v["op"] != "load"
                    and (not self.own or v["op"] in self.own) and v["op"] not in ("cmp", "hash", "extremes", "de_any", "ser")]
            if not cand:
                continue
            n = rng.choice(cand[-200:])
            v = json.loads(lines[n])
            o = v["obs"][-1]
            if self.pid in VALID:
                o["post"] = [[1, [9999]]]
            elif o["k"] == "ok":
                o["k"] = "panic"
            else:
                o["k"] = "ok"
            path = os.path.join(self.run, "false%d.nd" % tried)
            with open(path, "w") as f:
                f.write("".join(lines[:n]) + json.dumps(v) + "\n")
            r = lib.validate(path, self.run)
            if r["ok"] or r["line"] != n + 1:
                raise ToolError("a falsified log was accepted: %s line %d: %s" % (path, n + 1, r))
            tried += 1
            if tried == 2:
                break
        if not tried:
            raise ToolError("nothing to falsify")
        self.cov["falsified_logs_refused"] = tried

    # ---------------------------------------------------------------- the check
    def execute(self):
        rounds = 1 if self.tier == "quick" else 6
        m = lib.tlc_models(MODELS[self.pid] + (THOROUGH_MODELS.get(self.pid, []) if self.tier != "quick" else []),
                           self.run, timeout=600 if self.tier == "quick" else 3000)
        self.cov["states"] += m["states"]
        self.cov["transitions"] += m["transitions"]
        self.cov["models"] = m["models"]
        log("  models: %d states" % m["states"])
        if self.tier != "quick" and self.pid in PROVED:
            import prove
            self.cov["proof_obligations"] = prove.prove(self.run)
            log("  proofs: %s" % self.cov["proof_obligations"])
        self.own = None
        for k in range(rounds):
            self.cur_seed = self.seed + 1000 * k
            self.round(k)
            if self.violations:
                break
        miss = [x for x in self.own if not self.cov["calls_judged"].get(x)]
        if miss and not self.violations:
            raise ToolError("calls never made: %s" % miss)

    def round(self, k):
        t = time.time()
        bins, shapes, refused = build("checked", self.cur_seed, self.tier, self.run)
        self.cov["rounds"] += 1
        self.cov["shapes"] = len(shapes)
        self.cov["refused_declarations"] += ["%s: %s" % (s.label, why) for s, why in refused]
        for s, why in refused:
            log("  note: %s does not compile: %s" % (s.label, why))
        log("  harness built: %d enums (%.0f s)" % (len(shapes), time.time() - t))
        meta = os.path.join(self.run, "meta.nd")
        rc, text = run_prog([os.path.join(bins, "c0"), "--cmd", "meta", "--prop", self.pid, "--out", meta], 60)
        if rc != 0:
            raise ToolError("no meta: " + text)
        self.own = json.loads(self.meta())["own"]
        scale = SCALE.get(self.pid, 10) * (1 if self.tier == "quick" else 3)
        outs = self.record(bins, scale)
        if not self.violations:
            self.replay(bins, shapes)
        if not self.violations and k == 0:
            self.self_test(outs)
        if not self.violations:
            self.unchecked(scale)

    def unchecked(self, scale):
        """The same without overflow checks and debug assertions, on a cross-section."""
        t = time.time()
        self.config = "unchecked"
        before = self.cov["recorded_calls"]
        bins, shapes, _ = build(self.config, self.cur_seed, self.tier, self.run)
        log("  unchecked harness built: %d enums (%.0f s)" % (len(shapes), time.time() - t))
        self.record(bins, scale if self.tier != "quick" else (scale + 2) // 3, "p")
        self.cov["unchecked_shapes"] = len(shapes)
        self.cov["unchecked_calls"] = self.cov.get("unchecked_calls", 0) + self.cov["recorded_calls"] - before
        self.config = "checked"


def build(config, seed, tier, run):
    shapes = sh.all_shapes(seed, tier)
    if config == "checked":
        return lib.build_harness(shapes, run)
    return lib.build_harness(sh.lite_shapes(shapes), run, "p", "bin-u", args=lib.UNCHECKED)


DEEPER = {"MC_Words_set": ["MC_Words_set_deep", "MC_Words_set_three"],
          "MC_Words_iter": ["MC_Words_iter_deep", "MC_Words_iter_four"],
          "MC_Words_conv": ["MC_Words_conv_deep", "MC_Words_conv_three"],
          "MC_Words_prim": ["MC_Words_prim_deep", "MC_Words_prim_one"],
          "MC_Laws_static": ["MC_Laws_static_deep"],
          "MC_Laws_iter": ["MC_Laws_iter_deep"]}
THOROUGH_MODELS = {pid: [d for m in models for d in DEEPER.get(m, [])] for pid, models in MODELS.items()}


def replay_file(path):
    """Performs what a replay file says and judges it again."""
    with open(path) as f:
        head = json.loads(f.readline())
        lines = f.read().split("\n")
    pid = head["property"]
    c = Check(pid, head["tier"], head["seed"])
    c.cur_seed = head["seed"]
    c.config = head.get("config", "checked")
    prefix = "c" if c.config == "checked" else "p"
    bins, shapes, _ = build(c.config, head["seed"], head["tier"], c.run)
    if head["kind"] == "trace":
        src, out = os.path.join(c.run, "in.nd"), os.path.join(c.run, "again.nd")
        with open(src, "w") as f:
            f.write("\n".join(x for x in lines if x) + "\n")
        for i in range(sh.BINS):
            rc, text = run_prog([os.path.join(bins, "%s%d" % (prefix, i)), "--cmd", "exec", "--in", src, "--out", out], 120)
            if rc == 0:
                break
            if rc != 3:
                log("performing it again ended with %s" % rc)
                return True
        else:
            raise ToolError("the enum is not among the shapes")
        r = lib.validate(out, c.run)
        if not r["ok"]:
            with open(out) as f:
                log(f.read().split("\n")[r["line"] - 1][:2000])
        return not r["ok"]
    if head["kind"] == "crash":
        out = os.path.join(c.run, "again.nd")
        if head["what"] == "recording":
            scale = SCALE.get(pid, 10) * (1 if head["tier"] == "quick" else 3)
            if c.config == "unchecked" and head["tier"] == "quick":
                scale = (scale + 2) // 3
            cmd = ["record", "--scale", str(scale),
                   "--seed", str(head["seed"] * 64 + head["bin"])]
        else:
            cases, _, _, _ = generate(pid, gen_conf(pid, shapes, head["seed"], head["tier"]), c.run)
            cmd = ["replay", "--cases", cases, "--seed", str(head["seed"])]
        rc, _ = run_prog([os.path.join(bins, "%s%d" % (prefix, head["bin"])), "--cmd", cmd[0], "--prop", pid, "--out", out] + cmd[1:],
                         120 if head["tier"] == "quick" else 900)
        return rc != 0
    raise ToolError("unknown replay file")


def check(pid, tier, seed):
    t = time.time()
    c = Check(pid, tier, seed)
    c.execute()
    return c.cov, len(c.violations), time.time() - t, ASSUME


ASSUME = [
    "The enums the harness is compiled with (see coverage.shapes) and the generated and random histories stand for all.",
    "The projection of a set is what contains() says of each declared variant, with equality and len() as a check on stray bits.",
    "TLC, rustc, the harness and the test formats (serde_json, bincode, own token format) are trusted.",
    "The target is x86-64 (usize has 64 bits).",
]
