"""Properties of programs: declarations (P11, P12), constant expressions (P13)
and declared representations in programs (P08).

TLC enumerates declarations with verdicts, or constant expressions; they are
rendered as Rust text, compiled against the real crate and run; what the
programs say is validated by TLC as behaviours of the specification.
"""
import concurrent.futures as cf
import json
import os
import random
import re
import resource
import shutil
import subprocess
import time

import lib
import render
import shapes as sh
from lib import ToolError, log

MODELS = {"P08": [], "P09": [], "P10": [], "P11": ["MC_Decl"], "P12": ["MC_Decl"], "P13": ["MC_Const"]}
DEEP = {"P11": ["MC_Decl_deep"], "P12": ["MC_Decl_deep"], "P13": ["MC_Const_deep"]}
OWN = {"P08": ["as_repr", "has_repr"], "P09": ["ser", "roundtrip"], "P10": ["de"], "P11": ["disc", "single", "all", "vcount", "bwidth", "len", "into_slice", "rest", "rest_back", "iter"],
       "P12": ["has_repr", "has_ops"], "P13": ["const", "empty", "all", "vcount", "bwidth"]}
# Discriminants beyond 8, 12 and 16 bits; None continues from the last.
WIDE = [[65535], [0, 65536], [70000, 1, 65537, None], [4096, 32767, None, 0], [131071, None, 2, 65535], [255, None, 511, None, 1023, None]]
BINS = lib.CORES
GB = 8
HUGE = "rustc ran out of memory, or did not end"
DIED = "SIGABRT|SIGKILL|SIGSEGV|memory allocation|out of memory"
TARGET = os.path.join(lib.BUILD, "target-prog")
PRELUDE = "#![allow(warnings)]\n"


def limits_as(gb):
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if gb:
            resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
    return f


class Crate:
    """Programs compiled against /repo's crate: files of blocks of lines; a
    block is what a diagnostic is attributed to."""
    def __init__(self, name, features=("serde", "alloc"), rename=None, probe=True):
        self.name, self.features, self.rename, self.probe = name, features, rename, probe
        self.dir = os.path.join(lib.BUILD, "prog", name)

    def write(self, files):
        """files: {bin: (head lines, [(key, lines)], tail lines)}; returns where blocks are."""
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        feats = ", ".join('"%s"' % f for f in self.features)
        dep = '%s = { %spath = "%s/enumset", features = [%s] }' % (
            self.rename or "enumset", 'package = "enumset", ' if self.rename else "", lib.REPO, feats)
        toml = ['[package]', 'name = "%s"' % self.name, 'version = "0.1.0"', 'edition = "2021"', '[workspace]',
                '[dependencies]', dep]
        if self.probe:
            toml.append('probe = { path = "%s/probe", features = [%s] }' % (lib.ROOT, feats))
        if "serde" in self.features:
            toml += ['serde = { version = "1", features = ["derive"] }']
        toml += ['[profile.dev]', 'debug = 0', 'incremental = false']
        where = {}
        self.files = files
        for b, (head, blocks, tail) in files.items():
            toml += ['[[bin]]', 'name = "%s"' % b, 'path = "%s.rs"' % b]
            out = list(head)
            for key, lines in blocks:
                n = sum(x.count("\n") + 1 for x in lines)
                where[key] = (b + ".rs", len(out) + 1, len(out) + n)
                out += "\n".join(lines).split("\n")
            out += tail
            with open(os.path.join(self.dir, b + ".rs"), "w") as f:
                f.write("\n".join(out) + "\n")
        with open(os.path.join(self.dir, "Cargo.toml"), "w") as f:
            f.write("\n".join(toml) + "\n")
        shutil.copy(os.path.join(lib.ROOT, "probe", "lock.toml"), os.path.join(self.dir, "Cargo.lock"))
        return where

    def build(self, where, timeout=300):
        """(True, {}) or (False, {block: first error})."""
        env = lib.cargo_env(CARGO_TARGET_DIR=TARGET)
        for attempt in range(2):
            rc, errs, err, built = lib.cargo_json(["build", "-q", "--keep-going"], env, self.dir, timeout=timeout, gb=GB)
            if rc == 0:
                return True, {}
            byfile = {}
            for key, (f, a, b) in where.items():
                byfile.setdefault(f, []).append((a, b, key))
            bad = {}
            for tgt, m in errs:
                for f, n in lib.spans_of(m):
                    for a, b, key in byfile.get(f, ()):
                        if a <= n <= b:
                            bad.setdefault(key, m["message"])
            if bad:
                return False, bad
            if rc == "timeout" or not errs or re.search(DIED, err):
                bad = self.isolate(set(self.files) - built)
                if bad:
                    return False, bad
                continue
            break
        raise ToolError("the programs do not compile against this tree:\n" + "\n".join(
            (m.get("rendered") or m["message"])[:1500] for _, m in errs[:4]) + err[-2000:])

    def isolate(self, dead):
        """rustc died of these files, or did not end: which of their blocks is it?"""
        log("  rustc died or did not end: looking for the reason")
        num = lambda key: key[0] if isinstance(key, tuple) else key
        groups = []                                     # lists of modules; a module is a list of blocks
        for b in sorted(dead):
            mods = {}
            for key, lines in self.files[b][1]:
                mods.setdefault(num(key), []).append((key, lines))
            if mods:
                groups.append(list(mods.values()))
        runs = any("run();" in x for b in dead for x in self.files[b][2])
        t = time.time()
        sub = Crate(self.name + "_iso", self.features, self.rename, self.probe)
        env = lib.cargo_env(CARGO_TARGET_DIR=TARGET)
        groups = groups[:2]
        while groups and time.time() - t < 300:
            parts = [g[i::BINS] for g in groups for i in range(min(BINS, len(g)))]
            sub.write({"q%d" % i: ([PRELUDE.strip()], [x for m in g for x in m],
                                   ["fn main() {"] + ["d%d::run();" % num(m[0][0]) for m in g if runs] + ["}"])
                       for i, g in enumerate(parts)})
            rc, errs, err, built = lib.cargo_json(["build", "-q", "--keep-going"], env, sub.dir, timeout=100, gb=GB)
            ended = built | {x for x, _ in errs}
            groups = [g for i, g in enumerate(parts) if "q%d" % i not in ended][:2]
            if all(len(g) == 1 for g in groups):
                return {g[0][-1][0]: HUGE for g in groups}
        return {}

    def exe(self, b):
        return os.path.join(TARGET, "debug", b)


def spread(items, n, cost=lambda x: 1):
    out, load = [[] for _ in range(n)], [0] * n
    for x in sorted(items, key=lambda x: -cost(x)):
        i = load.index(min(load))
        out[i].append(x)
        load[i] += cost(x)
    return out


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.run = os.path.join(lib.BUILD, "run", pid + "-prog")
        shutil.rmtree(self.run, ignore_errors=True)
        os.makedirs(self.run)
        self.violations = []
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], models={},
                        programs={}, calls_judged={})
        self.cur_seed = seed
        self.meta = json.dumps({"op": "meta", "mode": "exact", "own": OWN[pid], "strict": True, "prop": pid})

    def violation(self, why, head, lines):
        d = os.path.join(lib.BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-prog-%d-%s-%d.nd" % (self.pid, self.seed, self.tier, len(self.violations)))
        head = dict(head, kind="program", property=self.pid, seed=self.cur_seed, tier=self.tier, why=why)
        with open(path, "w") as f:
            f.write(json.dumps(head) + "\n")
            for x in lines:
                f.write(x.rstrip("\n") + "\n")
        log("  " + why)
        for x in lines[:12]:
            log("    " + x[:300])
        log("VIOLATION property=%s replay=%s" % (self.pid, path))
        lib.reported += 1
        self.violations.append(path)

    def bump(self, key, n=1):
        self.cov["programs"][key] = self.cov["programs"].get(key, 0) + n

    # ------------------------------------------------------------ what TLC says
    def decide(self, confs):
        """Verdicts on declarations, by TLC; one run per conf."""
        t = time.time()

        def one(i):
            g, o = os.path.join(self.run, "gen%d.nd" % i), os.path.join(self.run, "decls%d.nd" % i)
            with open(g, "w") as f:
                f.write(json.dumps(confs[i]) + "\n")
            if os.path.exists(o):
                os.unlink(o)
            r = lib.tlc("GenDecl", "GenDecl", env={"GEN": g, "OUT": o}, timeout=800, meta=os.path.join(self.run, "meta-gen%d" % i))
            if not r.ok:
                raise ToolError("deciding declarations failed:\n" + r.out[-3000:])
            with open(o) as f:
                return sorted(set(f.read().split("\n")) - {""}), r

        seen, out = set(), []
        with cf.ThreadPoolExecutor(lib.CORES) as ex:
            for lines, r in ex.map(one, range(len(confs))):
                self.cov["states"] += r.states
                self.cov["transitions"] += r.transitions
                for x in lines:
                    if x not in seen:
                        seen.add(x)
                        out.append(json.loads(json.loads(x)))
        log("  TLC decided %d declarations, accepting %d (%.0f s)" % (len(out), sum(d["accept"] for d in out), time.time() - t))
        return out

    # --------------------------------------------------------- valid programs
    def compile_and_run(self, crate, progs, refused_is_violation, tag):
        """progs: render.Program of accepted declarations. Their output is validated."""
        t = time.time()
        progs = list(progs)
        n0 = len(progs)
        for attempt in range(8):
            files, where = {}, {}
            byid = {p.i: p for p in progs}
            for b, ps in enumerate(spread(progs, BINS, lambda p: len(p.d["vs"]) + 3)):
                files["p%d" % b] = ([PRELUDE.strip()], [(p.i, p.lines) for p in sorted(ps, key=lambda p: p.i)],
                                    ["fn main() {"] + ["d%d::run();" % p.i for p in sorted(ps, key=lambda p: p.i)] + ["}"])
            where = crate.write(files)
            ok, bad = crate.build(where)
            if ok:
                break
            for i, msg in sorted(bad.items()):
                p = byid[i]
                self.bump("refused " + tag)
                why = "a declaration that should be accepted does not compile (%s): %s" % (tag, msg)
                if refused_is_violation:
                    if len(self.violations) < 5:
                        self.violation(why, self.head("accept", p, crate), p.lines)
                else:
                    log("  note: " + why)
            progs = [p for p in progs if p.i not in bad]
            if self.violations and HUGE in bad.values():
                return
        else:
            if not self.violations:
                raise ToolError("too many rounds of refused declarations")
            return
        self.bump("accepted and run " + tag, len(progs))
        log("  compiled %d of %d declarations (%s, %.0f s)" % (len(progs), n0, tag, time.time() - t))
        self.run_and_validate(crate, list(files), {p.i: p for p in progs})

    def head(self, expect, p, crate):
        return {"expect": expect, "id": p.i, "features": list(crate.features), "rename": crate.rename, "probe": crate.probe}

    def run_and_validate(self, crate, bins, byid):
        t = time.time()

        def one(b):
            try:
                p = subprocess.run([crate.exe(b)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200,
                                   preexec_fn=lib.limits(6), text=True, errors="replace")
                rc, out, err = p.returncode, p.stdout, p.stderr
            except subprocess.TimeoutExpired as e:
                rc, out, err = "timeout", (e.stdout or b"").decode(errors="replace"), ""
            path = os.path.join(self.run, "%s-%s.nd" % (crate.name, b))
            lines = [x for x in out.split("\n") if x.endswith("}")]
            with open(path, "w") as f:
                f.write("\n".join([self.meta] + lines) + "\n")
            return b, rc, err, path, lines, lib.validate(path, self.run)

        with cf.ThreadPoolExecutor(lib.CORES) as ex:
            res = list(ex.map(one, bins))
        for b, rc, err, path, lines, r in res:
            self.cov["states"] += r["states"]
            self.cov["transitions"] += r["transitions"]
            upto = r["lines"] if r["ok"] else r["line"] - 1
            for n, x in enumerate(lines[:max(0, upto - 1)]):
                op = re.search(r'"op":"(\w+)"', x).group(1)
                if op == "decl":
                    self.cov["traces_validated_against_impl"] += 1
                elif op in OWN[self.pid]:
                    c = self.cov["calls_judged"]
                    c[op] = c.get(op, 0) + 1
                    if c[op] in (7, 70) and len(self.cov["samples"]) < 16 and len(x) < 500:
                        self.cov["samples"].append({"printed": json.loads(x)})
            if not r["ok"]:
                seg = lib.segment(path, r["line"])
                i = json.loads(seg[-1])["id"]
                p = byid.get(i)
                self.violation("what a program says is not a behaviour: %s: %s" % (r["why"], seg[-1][:300]),
                               self.head("trace", p, crate), p.lines)
            elif rc != 0:
                i = json.loads(lines[-1])["id"] if lines else None
                p = byid.get(i)
                if p is None:
                    raise ToolError("program %s ended with %s: %s" % (b, rc, err[-500:]))
                if self.pid in ("P12",):
                    log("  note: a program ended with %s (%s)" % (rc, err[-200:]))
                else:
                    self.violation("a program ended with %s: %s" % (rc, err[-300:]), self.head("trace", p, crate), p.lines)
        log("  validated what the programs said (%.0f s)" % (time.time() - t))
        if not self.violations and not self.cov.get("falsified_logs_refused"):
            self.self_test([r[3] for r in res])

    def self_test(self, outs):
        """A falsified line of what a program said must be refused, at that line."""
        rng = random.Random(self.cur_seed)
        tried = 0
        for out in outs:
            with open(out) as f:
                lines = f.read().split("\n")[:3000]
            mine = [(n, v) for n, v in ((n, json.loads(x)) for n, x in enumerate(lines) if x) if v["op"] in OWN[self.pid]]
            data = [(n, v) for n, v in mine if v["obs"][0]["k"] == "ok" and (
                v["obs"][0]["post"] or v["op"] in ("has_repr", "has_ops", "disc", "vcount", "bwidth", "len", "as_repr"))]
            for cand, how in ((mine, "outcome"), (data, "data")):
                if not cand:
                    continue
                n, v = rng.choice(cand[-200:])
                v = json.loads(json.dumps(v))
                o = v["obs"][0]
                if how == "outcome":
                    o["k"] = "panic" if o["k"] == "ok" else "ok"
                elif o["post"]:
                    d, vs = o["post"][0]
                    o["post"][0][1] = vs[:-1] if vs else [9999]
                else:
                    o["r"] = o["r"] + 1 if isinstance(o["r"], int) else o["r"] + [9999]
                path = os.path.join(self.run, "false%d.nd" % tried)
                with open(path, "w") as f:
                    f.write("\n".join(lines[:n] + [json.dumps(v)]) + "\n")
                r = lib.validate(path, self.run)
                if r["ok"] or r["line"] != n + 1:
                    raise ToolError("a falsified log was accepted: %s line %d: %s" % (path, n + 1, r))
                tried += 1
            if tried >= 4:
                break
        if not tried:
            raise ToolError("nothing to falsify")
        self.cov["falsified_logs_refused"] = tried

    # ------------------------------------------------------- invalid programs
    def must_fail(self, crate, progs):
        """Every one of them has to be rejected by the compiler."""
        t = time.time()
        left = {p.i: p for p in progs}
        n0 = len(left)
        rounds = 0
        while left:
            rounds += 1
            if rounds > 12:
                if self.violations:
                    return
                raise ToolError("too many rounds")
            files = {}
            for b, ps in enumerate(spread(left.values(), BINS, lambda p: len(p.d["vs"]) + 3)):
                if ps:
                    files["x%d" % b] = ([PRELUDE.strip()], [(p.i, p.lines) for p in ps], ["fn main() {}"])
            ok, bad = crate.build(crate.write(files))
            if ok:
                break
            for i, msg in bad.items():
                p = left.pop(i, None)
                if msg == HUGE:
                    n0 -= 1
                    self.violation("a declaration that should be rejected is not (%s)" % msg, self.head("reject", p, crate), p.lines)
            if len(self.violations) >= 3:
                return
        log("  %d of %d invalid declarations were rejected, in %d rounds (%.0f s)" % (n0 - len(left), n0, rounds, time.time() - t))
        self.bump("rejected", n0 - len(left))
        for p in sorted(left.values(), key=lambda p: p.i)[:5]:
            self.violation("a declaration that should be rejected compiles", self.head("reject", p, crate), p.lines)

    # --------------------------------------------------------- single programs
    def rustc(self, crate, text, gb=3, timeout=120):
        """Compiles one program on its own: 'ok', 'died', or the first error."""
        with open(os.path.join(crate.dir, "single.rs"), "w") as f:
            f.write(text)
        deps = os.path.join(TARGET, "debug", "deps")
        libs = sorted((os.path.getmtime(os.path.join(deps, x)), x) for x in os.listdir(deps)
                      if re.match(r"libenumset-\w+\.rlib$", x))
        cmd = ["rustc", "--edition", "2021", "--crate-type", "lib", "--emit", "metadata", "--error-format", "json", "-L", deps,
               "--extern", "enumset=" + os.path.join(deps, libs[-1][1]), "-o", os.path.join(self.run, "single.rmeta"),
               os.path.join(crate.dir, "single.rs")]
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout,
                               env=lib.cargo_env(), preexec_fn=limits_as(gb), errors="replace")
        except subprocess.TimeoutExpired:
            return "died"
        if p.returncode == 0:
            return "ok"
        for x in p.stderr.split("\n"):
            try:
                m = json.loads(x)
            except ValueError:
                continue
            if m.get("level") == "error" and "aborting" not in m["message"]:
                return m["message"]
        return "died"

    # ------------------------------------------------------------- the checks
    def confs(self):
        rng = random.Random(self.cur_seed * 65537 + 3)
        deep = self.tier != "quick"
        edges = [0, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128]
        out = []
        if self.pid == "P11":
            nums = [0, 1, 63, 64, 127] + rng.sample([2, 5, 7, 8, 15, 16, 31, 32, 62, 65, 126, 128, 129, 191, 192, 200, 255], 2)
            out.append({"families": ["num"], "nums": nums, "numlen": 3})
            if deep:
                out.append({"families": ["num"], "nums": nums[:4], "numlen": 5})
                out.append({"families": ["num"], "nums": [0, 31, 32, 62, 63, 64, 65, 126, 127, 128, 191, 192, 255, 256], "numlen": 3})
        elif self.pid in ("P09", "P10"):
            few = rng.sample([0, 15, 31, 63, 64, 128], 3) if not deep else edges
            out.append({"families": ["opt"], "edges": few + [rng.choice([7, 8, 16, 32, 127]), rng.choice([129, 200, 255, 256, 300, 511])]})
            out.append({"families": ["flags"]})
        else:
            out.append({"families": ["odd"], "nums": [], "numlen": 0})
            out.append({"families": ["opt"], "edges": edges + [rng.choice([129, 255, 256, 300, 511])]})
            out.append({"families": ["bad"], "badnames": ["u7", "i8", "usize", "", "U8", "u256", "Array", "u8 ", "u", "bool", "i128", "none"]})
            out.append({"families": ["flags"]})
            if deep:
                out.append({"families": ["num"], "nums": [0, 1, 7, 8, 63, 64, 127, 128, 200], "numlen": 3})
                out.append({"families": ["opt"], "edges": [1, 6, 9, 14, 17, 30, 33, 62, 65, 126, 129, 191, 192, 255, 256, 1000]})
        given = [self.of_shape(s) for s in sh.all_shapes(self.cur_seed, self.tier)] if self.pid == "P12" else []
        given += [self.random_decl(rng) for _ in range(800 if deep else 100 if self.pid in ("P09", "P10") else 150)]
        if self.pid == "P11":
            for nums in WIDE + ([[rng.randrange(65536, 1 << 20), 5, None]] if deep else []):
                vs = [{"lit": {"k": "impl"} if n is None else {"k": "int", "n": n}, "data": False} for n in nums]
                out.append({"families": ["given"], "decls": [
                    {"vs": vs, "repr": rng.choice(["none", "array"]), "ser": "none", "generic": False, "item": "enum",
                     "flags": [], "supers": False}]})
        for i in range(0, len(given), 120):
            out.append({"families": ["given"], "decls": given[i:i + 120]})
        for c in out:
            for k in ("nums", "edges", "badnames", "decls"):
                c.setdefault(k, [])
            c.setdefault("numlen", 0)
        return out

    @staticmethod
    def of_shape(s):
        flags = [f for f, on in (("no_ops", s.no_ops), ("no_super_impls", s.no_super), ("serialize_deny_unknown", s.deny)) if on]
        ser = s.ser or "none"
        if s.legacy:
            flags.append("serialize_as_" + s.ser)
            ser = "none"
        vs = [{"lit": {"k": "impl"} if lit is None else {"k": "int", "n": d}, "data": False} for lit, d in s.variants]
        return {"vs": vs, "repr": s.repr or "none", "ser": ser, "generic": False, "item": "enum", "flags": flags, "supers": s.no_super}

    @staticmethod
    def random_decl(rng):
        top = rng.choice([4, 8, 16, 32, 64, 66, 128, 130, 192, 200, 256, 400])
        k = rng.choice([1, 2, 3, 4, 5, 8, 13, 25, 60])
        vs, prev = [], -1
        pool = rng.sample(range(top), min(k, top))
        if rng.random() < 0.5:
            pool.sort()
        if rng.random() < 0.3:
            pool.append(top - 1)
        i = 0
        while i < len(pool):
            d = pool[i]
            if rng.random() < 0.35 and i:
                vs.append({"lit": {"k": "impl"}, "data": False})
                prev += 1
            else:
                vs.append({"lit": {"k": "int", "n": d}, "data": False})
                prev = d
            i += 1
        # Mostly repair clashes, so that most are accepted.
        seen, nums = set(), render.numbers(vs)
        if rng.random() < 0.9:
            keep = []
            cur = 0
            for v in vs:
                n = v["lit"].get("n", cur) if v["lit"]["k"] == "int" else cur
                if n in seen:
                    continue
                keep.append(v)
                seen.add(n)
                cur = n + 1
            vs = keep
        hi = max(render.numbers(vs), default=0)
        fits = [r for r, w in sh.PRIM.items() if hi < w]
        flags = rng.sample(["no_ops", "no_super_impls", "serialize_deny_unknown"], rng.choice([0, 0, 0, 1, 2]))
        return {"vs": vs, "repr": rng.choice(["none", "none", "array"] + fits + list(sh.PRIM)[:1]),
                "ser": rng.choice(["none", "none", "array", "list", "map"] + fits), "generic": False, "item": "enum",
                "flags": flags, "supers": "no_super_impls" in flags}

    def execute(self):
        names = MODELS[self.pid] + (DEEP.get(self.pid, []) if self.tier != "quick" else [])
        if names:
            m = lib.tlc_models(names, self.run, timeout=600 if self.tier == "quick" else 3000)
            self.cov["states"] += m["states"]
            self.cov["transitions"] += m["transitions"]
            self.cov["models"] = m["models"]
            log("  models: %d states" % m["states"])
        with lib.Lock(os.path.join(lib.BUILD, "lock-prog")):
            for k in range(1 if self.tier == "quick" else 4):
                self.cur_seed = self.seed + 1000 * k
                getattr(self, "do_" + self.pid)(k)
                if self.violations:
                    break
        if not self.violations:
            miss = [x for x in OWN[self.pid] if not self.cov["calls_judged"].get(x)]
            if miss:
                raise ToolError("never observed: %s" % miss)

    def do_P11(self, k):
        decs = [d for d in self.decide(self.confs()) if d["accept"]]
        progs = [render.Program(i, d, self.cur_seed) for i, d in enumerate(decs)]
        self.compile_and_run(Crate("prog_p11"), progs, False, "numbering")

    def do_P09(self, k):
        decs = [d for d in self.decide(self.confs()) if d["accept"] and d["kind"] != "?"]
        progs = [render.Program(i, d, self.cur_seed, docs=True) for i, d in enumerate(decs)]
        self.compile_and_run(Crate("prog_" + self.pid.lower()), progs, False, "serialization")
    do_P10 = do_P09

    def do_P12(self, k):
        decs = self.decide(self.confs())
        crate = Crate("prog_p12")
        good = [d for d in decs if d["accept"]]
        self.compile_and_run(crate, [render.Program(i, d, self.cur_seed) for i, d in enumerate(good)], True, "all features")
        if len(self.violations) >= 5:
            return
        self.must_fail(Crate("prog_x12"), [render.Program(i, d, self.cur_seed, look=False)
                                          for i, d in enumerate(x for x in decs if not x["accept"])])
        self.names()
        self.features(good)
        self.large(crate)

    def names(self):
        """Every odd name, over a few declarations with the most generated code."""
        def dec(nums, **kw):
            d = dict(vs=[{"lit": {"k": "int", "n": n}, "data": False} for n in nums], repr="none", ser="none", generic=False,
                     item="enum", flags=[], supers=False)
            d.update(kw)
            return d
        ds = [dec([0, 3]), dec([0, 70], flags=["serialize_deny_unknown"]), dec([1, 200], flags=["serialize_deny_unknown"]),
              dec([2], ser="list"), dec([2, 5], ser="map"), dec([3, 6], repr="u8"), dec([], repr="u8"),
              dec([1, 2], repr="array", flags=["serialize_deny_unknown"])]
        decs = self.decide([{"families": ["given"], "nums": [], "numlen": 0, "edges": [], "badnames": [], "decls": ds}])
        progs = []
        for n, name in enumerate(render.ODD):
            for j, d in enumerate(decs):
                if j % 3 == n % 3 or self.tier != "quick":
                    progs.append(render.Program(len(progs), d, self.cur_seed, name=name))
        self.compile_and_run(Crate("prog_n12"), progs, True, "names")

    def features(self, good):
        """A sample of declarations under other cargo features and another name of the crate."""
        rng = random.Random(self.cur_seed * 7 + 1)
        confs = [((), None), (("proc-macro-crate", "serde"), "bits")]
        if self.tier != "quick":
            confs += [(("alloc",), None), (("serde",), None), (("serde",), "enumset2"), (("proc-macro-crate",), None)]
        for n, (feats, rename) in enumerate(confs):
            some = rng.sample(good, min(len(good), 40 if self.tier == "quick" else 200))
            crate = Crate("prog_f12_%d" % n, features=feats, rename=rename)
            opt = rename if rename and "proc-macro-crate" not in feats else None
            progs = []
            for i, d in enumerate(some):
                p = render.Program(i, d, self.cur_seed + n, serde="serde" in feats, crate=opt)
                if rename and not opt:
                    p.lines = [x.replace("::enumset::EnumSetType", "::%s::EnumSetType" % rename) for x in p.lines]
                progs.append(p)
            self.compile_and_run(crate, progs, True, "features %s%s" % ("+".join(feats) or "none", rename and " as " + rename or ""))

    def large(self, crate):
        """Large discriminants, one program each."""
        t = time.time()
        head = "#![allow(warnings)]\n#[derive(enumset::EnumSetType)]\n"
        must = [(head + "pub enum E { A, B = %d, C }" % n, n) for n in (65535, 1000000, 16777214)]
        may = [(head + "pub enum E { A = 0xFFFFFFBF }", "0xFFFFFFBF"), (head + "pub enum E { A, B = 0xFFFFFFBE, C }", "implicit 0xFFFFFFBF")]
        no = [(head + "pub enum E { A = 0xFFFFFFC0 }", "0xFFFFFFC0"), (head + "pub enum E { A, B = 0xFFFFFFBF, C }", "implicit 0xFFFFFFC0"),
              (head + "#[enumset(repr = \"array\")] pub enum E { A = 4294967295, B }", "implicit 2^32"),
              (head + "pub enum E { A = 4294967296 }", "2^32")]
        # An enumset without serde does for these.
        for text, n in must:
            r = self.rustc(crate, text, gb=6)
            if r != "ok":
                self.violation("a declaration that should be accepted does not compile (discriminant %s): %s" % (n, r),
                               {"expect": "single-ok"}, text.split("\n"))
        for text, n in may:
            r = self.rustc(crate, text)
            if r not in ("ok", "died") and not re.search("memory|too big|overflow.*size|capacity", r):
                self.violation("discriminant %s is rejected: %s" % (n, r), {"expect": "single-not-rejected"}, text.split("\n"))
        for text, n in no:
            r = self.rustc(crate, text)
            if r in ("ok", "died"):
                self.violation("discriminant %s is not rejected (%s)" % (n, r), {"expect": "single-rejected"}, text.split("\n"))
        self.bump("single programs", len(must) + len(may) + len(no))
        log("  large discriminants (%.0f s)" % (time.time() - t))

    # ------------------------------------------------------------------ P13
    CONTEXTS = 8

    def const_item(self, n, ctx, ty, expr):
        """(lines of the item, expression for its value)"""
        k = "K%d" % n
        return [
            ("pub const %s: ::enumset::EnumSet<%s> = %s;" % (k, ty, expr), k),
            ("pub static %s: ::enumset::EnumSet<%s> = %s;" % (k, ty, expr), k),
            ("pub const fn %s() -> ::enumset::EnumSet<%s> { %s }" % (k.lower(), ty, expr), k.lower() + "()"),
            ("pub struct T%s; impl T%s { pub const C: ::enumset::EnumSet<%s> = %s; }" % (k, k, ty, expr), "T%s::C" % k),
            ("pub const %s: [::enumset::EnumSet<%s>; 1] = [%s];" % (k, ty, expr), k + "[0]"),
            ("pub fn %s() -> ::enumset::EnumSet<%s> { const L: ::enumset::EnumSet<%s> = %s; L }" % (k.lower(), ty, ty, expr), k.lower() + "()"),
            ("pub fn %s() -> ::enumset::EnumSet<%s> { let x: ::enumset::EnumSet<%s> = %s; x }" % (k.lower(), ty, ty, expr), k.lower() + "()"),
            ("pub fn %s() -> ::enumset::EnumSet<%s> { const { %s } }" % (k.lower(), ty, expr), k.lower() + "()"),
        ][ctx]

    def do_P13(self, k):
        t = time.time()
        rng = random.Random(self.cur_seed * 31 + 5)
        deep = self.tier != "quick"
        conf = [dict(D=[1, 2, 3], abs=True, kind="none", deny=False, w=0, nreg=3, extra=[2 if not deep else 3])]
        import runtime_check
        sets = [[]] + [[1], [2], [1, 2], [3], [1, 3], [2, 3], [1, 2, 3]]
        g, o = os.path.join(self.run, "gen.nd"), os.path.join(self.run, "cases.nd")
        with open(g, "w") as f:
            f.write(json.dumps(conf[0]) + "\n")
        if os.path.exists(o):
            os.unlink(o)
        r = lib.tlc("Gen", "Gen_const", env={"GEN": g, "OUT": o}, timeout=800, meta=os.path.join(self.run, "meta-gen"))
        if not r.ok:
            raise ToolError("generation failed:\n" + r.out[-3000:])
        self.cov["states"] += r.states
        self.cov["transitions"] += r.transitions
        # Calls that differ only in which constant holds an operand are one.
        cases = {}
        with open(o) as f:
            for line in f:
                c = json.loads(json.loads(line))
                args = tuple(("v", x[1]) if x[0] == "v" else ("s", sets.index(c["pre"][x[1] - 1])) for x in c["e"]["args"])
                cases.setdefault((c["e"]["m"], args), c["post"][2])
        log("  generated %d constant expressions (%.0f s)" % (len(cases), time.time() - t))
        shapes = sh.tlc_shapes(3)
        extra = sh.number(sh.all_shapes(self.cur_seed, self.tier))
        shapes += [s for s in extra if len(s.variants) in (4, 5, 7, 8, 24) or s.no_ops][::3 if not deep else 1]
        # Many words, many variants.
        top = rng.randint(1400, 4095)
        shapes += [sh.explicit(D) for D in ([0, 640, 1216, 1279, 1280, 1343, top], [3, 16450, 16383], [5, 65535, 65536, 65541],
                                            list(range(130)), sorted(rng.sample(range(2048), 90)))]
        for i, s in enumerate(shapes):
            s.id = "S%d" % i
        jobs = []
        keys = list(cases)
        for i, s in enumerate(shapes):
            if len(s.variants) == 3:
                some = keys if not deep else rng.sample(keys, min(len(keys), 1500))
                if not deep and i % 4 != self.cur_seed % 4:
                    some = rng.sample(keys, 200)
                jobs.append((s, [(m, list(a)) for m, a in some]))
            else:
                jobs.append((s, []))
            # Longer chains, and other enums: judged from what is printed.
            n = len(s.variants)
            for _ in range(60 if not deep else 200):
                m = rng.choice(["union", "intersection", "difference", "symmetric_difference", "literal"])
                a = [rng.choice([("v", rng.randint(1, n)), ("s", rng.randrange(8))]) for _ in range(rng.randint(1, 9))]
                jobs[-1][1].append((m, a))
            for m in ["union", "intersection", "difference", "symmetric_difference", "literal"]:
                a = [rng.choice([("v", rng.randint(1, n)), ("s", rng.randrange(8))]) for _ in range(rng.choice([20, 33, 70]))]
                jobs[-1][1].append((m, a))
            jobs[-1][1].append(("literal", []))
            for j in range(8):
                jobs[-1][1].append(("complement", [("s", j)]))
        blocks = []
        for s, cs in jobs:
            blocks.append(ConstProgram(len(blocks), s, cs, rng, self))
        self.const_programs(blocks)

    def const_programs(self, blocks):
        t = time.time()
        crate = Crate("prog_p13")
        total = sum(len(b.cases) for b in blocks)
        for attempt in range(8):
            files = {}
            for n, bs in enumerate(spread(blocks, BINS, lambda b: len(b.cases) + 5)):
                if bs:
                    files["k%d" % n] = ([PRELUDE.strip()], [x for b in bs for x in b.blocks()],
                                        ["fn main() {"] + ["d%d::run();" % b.i for b in bs] + ["}"])
            ok, bad = crate.build(crate.write(files))
            if ok:
                break
            for key, msg in sorted(bad.items(), key=lambda kv: (kv[0][0], str(kv[0][1])))[:3]:
                b = blocks[key[0]]
                self.violation("a constant expression does not compile: %s" % msg,
                               dict(self.head("const", b, crate), key=list(key)), b.only(key))
            done = True
            for b in blocks:
                done &= not b.drop({k[1] for k in bad if k[0] == b.i})
            if len(self.violations) >= 5 or done:
                return
        else:
            if not self.violations:
                raise ToolError("too many rounds")
            return
        self.bump("constant expressions", total)
        log("  compiled %d constant expressions over %d enums (%.0f s)" % (total, len(blocks), time.time() - t))
        self.run_and_validate(crate, list(files), {b.i: b for b in blocks})

    # ------------------------------------------------------------------ P08
    def do_P08(self, k):
        """Declared representations in constant contexts and in foreign signatures."""
        rng = random.Random(self.cur_seed * 17 + 3)
        shapes = [s for s in sh.all_shapes(self.cur_seed, self.tier) if s.width and len(s.variants) <= 24]
        for i, s in enumerate(shapes):
            s.id = "S%d" % i
        blocks = []
        for s in shapes:
            n = len(s.variants)
            cases = [("literal", [])] + [("literal", [("v", v)]) for v in range(1, n + 1)]
            for _ in range(4):
                cases.append(("literal", [("v", v) for v in rng.sample(range(1, n + 1), rng.randint(1, n))] if n else []))
            cases.append(("literal", [("v", v) for v in range(1, n + 1)]))
            blocks.append(ConstProgram(len(blocks), s, cases, rng, self, repr=True))
        t = time.time()
        crate = Crate("prog_p08")
        for attempt in range(8):
            files = {}
            for n, bs in enumerate(spread(blocks, BINS, lambda b: len(b.cases) + 5)):
                if bs:
                    files["k%d" % n] = ([PRELUDE.strip()], [x for b in bs for x in b.blocks()],
                                        ["fn main() {"] + ["d%d::run();" % b.i for b in bs] + ["}"])
            ok, bad = crate.build(crate.write(files))
            if ok:
                break
            # What does not compile is about as_repr only if the constant alone does.
            for key, msg in sorted(bad.items(), key=lambda kv: str(kv[0]))[:3]:
                b = blocks[key[0]]
                if key[1] == "item":
                    raise ToolError("the enums of the harness do not compile: " + msg)
                self.violation("as_repr in a constant context does not compile: %s" % msg,
                               dict(self.head("const", b, crate), key=list(key)), b.only(key))
            for b in blocks:
                b.drop({k[1] for k in bad if k[0] == b.i})
            if len(self.violations) >= 3:
                return
        self.bump("as_repr in constants", sum(len(b.cases) for b in blocks))
        log("  compiled %d constants over %d enums (%.0f s)" % (sum(len(b.cases) for b in blocks), len(blocks), time.time() - t))
        if not self.violations:
            self.run_and_validate(crate, list(files), {b.i: b for b in blocks})
        self.ffi(crate, shapes)

    def ffi(self, crate, shapes):
        """The compiler's own judgement of FFI-safety, for EnumSet<E> against R."""
        t = time.time()
        lines, of = ["#![warn(improper_ctypes, improper_ctypes_definitions)]", "use enumset::*;"], {}
        for r in sh.PRIM:
            some = [s for s in shapes if s.repr == r][:4]
            for i, s in enumerate(some):
                lines += s.source().split("shape!(")[0].split("\n")
                lines.append("extern \"C\" { fn f_%s_%d(x: EnumSet<%s>) -> *const EnumSet<%s>; }" % (r, i, s.id, s.id))
                of[len(lines)] = (r, s.label)
                lines.append("pub extern \"C\" fn g_%s_%d(x: EnumSet<%s>) -> EnumSet<%s> { x }" % (r, i, s.id, s.id))
                of[len(lines)] = (r, s.label)
            lines.append("extern \"C\" { fn base_%s(x: %s) -> *const %s; }" % (r, r, r))
            of[len(lines)] = (r, None)
            lines.append("pub extern \"C\" fn basedef_%s(x: %s) -> %s { x }" % (r, r, r))
            of[len(lines)] = (r, None)
        files = {"f0": (lines, [], ["fn main() {}"])}
        c = Crate("prog_f08")
        c.write(files)
        env = lib.cargo_env(CARGO_TARGET_DIR=TARGET)
        rc, out, err = lib.run_group(["cargo", "build", "-q", "--offline", "--message-format", "json"], c.dir, env, 300, GB)
        warned = set()
        for x in out.split("\n"):
            if not x.startswith("{"):
                continue
            m = json.loads(x)
            if m.get("reason") != "compiler-message":
                continue
            m = m["message"]
            if m["level"] == "error":
                raise ToolError("the FFI program does not compile: " + (m.get("rendered") or m["message"])[:1500])
            if m.get("code") and m["code"]["code"] in ("improper_ctypes", "improper_ctypes_definitions", "improper_c_fn_definitions", "improper_c_callbacks", "uses_power_alignment"):
                warned |= {n for f, n in lib.spans_of(m) if f == "f0.rs"}
        if rc != 0:
            raise ToolError("the FFI program does not compile: " + err[-1500:])
        unsafe_base = {of[n][0] for n in warned if n in of and of[n][1] is None}
        for n in sorted(warned):
            if n in of and of[n][1] is not None and of[n][0] not in unsafe_base:
                self.violation("EnumSet of %s is not FFI-safe, but %s is" % (of[n][1], of[n][0]), {"expect": "ffi"}, [lines[n - 1]])
                break
        self.bump("foreign signatures", len(of))
        log("  FFI-safety as the compiler sees it (%.0f s)" % (time.time() - t))


class ConstProgram:
    """Constants over one enum, in a module of its own without any import."""
    SUBSETS = 8

    def __init__(self, i, shape, cases, rng, check, repr=False):
        self.i, self.s, self.repr = i, shape, repr
        n = len(shape.variants)
        self.names = ["%s::%s" % (shape.id, x) for x in shape.names]
        self.discs = [d for _, d in shape.variants]
        subs = [[v for v in range(3) if m >> v & 1] for m in range(8)] if n == 3 else \
            [[]] + [sorted(rng.sample(range(n), rng.randint(0, n))) for _ in range(6)] + [list(range(n))]
        if n != 3:
            pass
        # variants in the order of discriminants for the ranks of TLC's cases
        self.rank = sorted(range(n), key=lambda x: self.discs[x])
        self.subs = [[self.rank[v] for v in x] for x in subs]
        order = list(range(len(cases)))
        rng.shuffle(order)
        self.cases = {}
        if not repr:
            for m in range(8):
                e = "::enumset::enum_set!(%s)" % " | ".join(self.names[v] for v in self.subs[m])
                self.cases["C%d" % m] = (
                    "pub const C%d: ::enumset::EnumSet<%s> = %s;" % (m, shape.id, e), "C%d" % m,
                    '"op":"const","d":%d,"m":"literal","args":[%s]' % (m + 1, ",".join('["v",%d]' % self.discs[v] for v in self.subs[m])), m + 1)
        for k in order:
            m, args = cases[k]
            ops = [self.names[self.rank[x - 1]] if t == "v" else "C%d" % x for t, x in args]
            if m == "literal":
                e = "::enumset::enum_set!(%s%s)" % (" | ".join(ops), rng.choice(["", "", " |"]) if ops else rng.choice(["", "", "|"]))
            else:
                e = "::enumset::enum_set_%s!(%s%s)" % (m, ", ".join(ops), rng.choice(["", "", ","]))
            spec = [["v", self.discs[self.rank[x - 1]]] if t == "v" else ["r", x + 1] for t, x in args]
            if repr:
                R = shape.repr
                item = "pub const K%d: ::enumset::EnumSet<%s> = %s; pub const R%d: %s = K%d.as_repr();" % (k, shape.id, e, k, R, k)
                self.cases[k] = (item, "K%d" % k, json.dumps(spec), "R%d" % k)
                continue
            item, val = check.const_item(k, rng.randrange(check.CONTEXTS), shape.id, e)
            self.cases[k] = (item, val, '"op":"const","d":9,"m":"%s","args":%s' % (m, json.dumps(spec)), 9)
        self.nums = {}
        if not repr:
            # The constant functions and constants.
            E = "::enumset::EnumSet::<%s>" % shape.id
            for k, (op, e) in enumerate([("empty", "new()"), ("empty", "empty()"), ("all", "all()"), ("empty", "EMPTY"), ("all", "ALL")], len(cases)):
                item, val = check.const_item(k, rng.randrange(check.CONTEXTS), shape.id, "%s::%s" % (E, e))
                self.cases[k] = (item, val, '"op":"%s","d":9' % op, 9)
            for k, op, e in [("vc", "vcount", "variant_count()"), ("bw", "bwidth", "bit_width()")]:
                self.nums[k] = ("pub const N%s: u32 = %s::%s; pub static A%s: [u8; N%s as usize] = [0; %s::%s as usize];" % (
                    k, E, e, k, k, E, e), k, op)

    @property
    def lines(self):
        return [x for _, ls in self.blocks() for x in ls]

    def drop(self, keys):
        for k in keys:
            self.cases.pop(k, None)
            self.nums.pop(k, None)
        return bool(keys)

    def only(self, key):
        return [c[key[1]][0] for c in (self.cases, self.nums) if key[1] in c]

    def blocks(self):
        """One block per constant, so that errors are attributed."""
        s = self.s
        head = ["mod d%d {" % self.i] + s.source().split("shape!(")[0].rstrip().split("\n")
        out = [((self.i, "item"), head)]
        out += [((self.i, k), [c[0]]) for c in (self.cases, self.nums) for k, c in c.items()]
        table = "&[%s]" % ", ".join("(%s, %d)" % x for x in zip(self.names, self.discs))
        decl = '"name":"%s","D":%s,"w":%d,"kind":"%s","deny":%s,"nreg":9' % (
            s.label.replace('"', ""), sorted(self.discs), s.width, s.kind, "true" if s.deny else "false")
        run = ["pub fn run() {", "const TABLE: &[(%s, i64)] = %s;" % (s.id, table),
               "::probe::begin(%d, %s);" % (self.i, render.raw(decl))]
        if self.repr:
            run.append("::probe::line(%d, %s, &(::probe::has_repr!(%s)).to_string(), \"[]\");" % (self.i, render.raw('"op":"has_repr"'), s.id))
            rows = ["(%s, R%s, %s)" % (c[1], c[3][1:], render.raw(c[2])) for k, c in self.cases.items()]
            run.append("for (x, r, _) in [%s] as [(::enumset::EnumSet<%s>, %s, &str); %d] {" % (", ".join(rows), s.id, s.repr, len(rows)))
            run += ["let p = ::probe::ints(&::probe::project(x, TABLE));",
                    "::probe::line(%d, &format!(\"\\\"op\\\":\\\"load\\\",\\\"d\\\":1,\\\"vs\\\":{p}\"), \"0\", &format!(\"[[1,{p}]]\"));" % self.i,
                    "let bits: Vec<i64> = (0..%d).filter(|b| r >> b & 1 == 1).map(|b| b as i64).collect();" % s.width,
                    "::probe::line(%d, \"\\\"op\\\":\\\"as_repr\\\",\\\"a\\\":1\", &::probe::ints(&bits), \"[]\");" % self.i, "}"]
        else:
            for k, c in self.nums.items():
                run.append("assert_eq!(A%s.len(), N%s as usize);" % (k, k))
                run.append("::probe::line(%d, %s, &N%s.to_string(), \"[]\");" % (self.i, render.raw('"op":"%s"' % c[2]), k))
            rows = ["(%s, %s, %d)" % (c[1], render.raw(c[2]), c[3]) for c in self.cases.values()]
            run.append("for (x, op, reg) in [%s] as [(::enumset::EnumSet<%s>, &str, i64); %d] {" % (",\n".join(rows), s.id, len(rows)))
            run += ["let p = ::probe::ints(&::probe::project(x, TABLE));",
                    "::probe::line(%d, op, \"0\", &format!(\"[[{reg},{p}]]\"));" % self.i, "}"]
        out.append(((self.i, "run"), run + ["}", "}"]))
        return out


def replay_file(path):
    """Compiles and judges the program of a replay file again."""
    with open(path) as f:
        head = json.loads(f.readline())
        text = [x for x in f.read().split("\n") if x]
    c = Check(head["property"], head["tier"], head["seed"])
    c.cur_seed = head["seed"]
    kind = head["expect"]
    crate = Crate("prog_replay", tuple(head.get("features", ("serde", "alloc"))), head.get("rename"), head.get("probe", True))
    with lib.Lock(os.path.join(lib.BUILD, "lock-prog")):
        if kind in ("accept", "reject", "trace"):
            i = head["id"]
            run = ["fn main() {", "d%d::run();" % i, "}"] if kind == "trace" else ["fn main() {}"]
            ok, bad = crate.build(crate.write({"r0": ([PRELUDE.strip()], [(i, text)], run)}))
            log("compiles" if ok else "does not compile: %s" % bad)
            if kind != "trace":
                return ok == (kind == "reject")
            if not ok:
                return False
            class P:
                lines = text
            P.i = i
            c.run_and_validate(crate, ["r0"], {i: P})
            return bool(c.violations)
        if kind.startswith("single"):
            crate.build(crate.write({"r0": ([], [], ["fn main() {}"])}))
            r = c.rustc(crate, "\n".join(text))
            log("the compiler says: " + r)
            return {"single-ok": r != "ok", "single-rejected": r in ("ok", "died"),
                    "single-not-rejected": r not in ("ok", "died")}[kind]
        # Constants and foreign signatures: the whole programs again.
        getattr(c, "do_" + c.pid)(0)
        return bool(c.violations)


def check(pid, tier, seed):
    t = time.time()
    c = Check(pid, tier, seed)
    c.execute()
    return c.cov, len(c.violations), time.time() - t, ASSUME


ASSUME = [
    "The enumerated and random declarations and expressions (coverage.programs) stand for all.",
    "The rendering of declarations as Rust text and rustc are trusted; whatever error rustc reports counts as a rejection.",
    "0xFFFFFFBF itself cannot be compiled within memory (the set would have 512 MB); only that it is not rejected is checked.",
]
