"""P18: the same program behaves the same however it is built.

A cross-section of the enums is built in several configurations (with and
without optimization, overflow checks and debug assertions; with different
cargo features).  The same calls are made in each, and the histories, merged
call by call, are validated by TLC in the mode in which members must agree.
"""
import concurrent.futures as cf
import itertools
import json
import os
import time

import lib
import runtime_check as rt
import shapes as sh
from lib import ToolError, log

# name, features of the harness (and by them, of enumset), arguments, serializes
CONFIGS = [
    ("debug", lib.FULL, [], True),
    ("optimized, no features", "conv", ["--release"], False),
    ("unchecked, all features", lib.FULL + ",pmc", lib.UNCHECKED, True),
]
QUICK_SCALE = 2
OBS = ',"obs":['


def shapes_of(seed, tier):
    return sh.lite_shapes(sh.all_shapes(seed, tier), tier == "quick")


class Check(rt.Check):
    def build(self):
        """One directory of programs for each configuration."""
        S = shapes_of(self.cur_seed, self.tier)
        dirs, refused = [], []
        for n, (name, features, args, ser) in enumerate(CONFIGS):
            t = time.time()
            d, _, ref = lib.build_harness(S, self.run, "p", "bin-%d" % n, features, args)
            dirs.append(d)
            refused.append({s.label: why for s, why in ref})
            log("  built: %s (%.0f s)" % (name, time.time() - t))
        self.cov["shapes"] = len(S)
        for label in sorted(set().union(*refused)):
            by = [label in r for r in refused]
            if not all(by):
                why = next(r[label] for r in refused if label in r)
                self.violation("%s compiles only in some configurations: %s" % (label, why),
                               {"kind": "config", "refused": label}, [])
                return None
            self.cov["refused_declarations"].append(label)
        return dirs

    def one(self, i, dirs, which, prop, scale, skip=()):
        """The program i in the given configurations: (log files, crashes)."""
        outs, bad = [], []
        for n in which:
            out = os.path.join(self.run, "%s-%d-%d.nd" % (prop, i, n))
            rc, text = rt.run_prog([os.path.join(dirs[n], "p%d" % i), "--cmd", "record", "--prop", prop, "--out", out,
                                    "--seed", str(self.cur_seed * 64 + i), "--scale", str(scale), "--skip", " ".join(skip)],
                                   240 if self.tier == "quick" else 1800)
            outs.append(out)
            bad.append(None if rc == 0 else (rc, rt.crumb_of(out + ".crumb"), text))
        return outs, bad

    def merge(self, outs, names, path):
        """Call by call; stops where the calls themselves are no longer the same."""
        n = 0
        files = [open(o) for o in outs]
        with open(path, "w") as w:
            def lines(f):
                for x in f:
                    if not x.endswith("\n"):
                        return
                    if not x.startswith('{"op":"to_vec"'):
                        yield x.rstrip("\n")
            some_bare = any(not CONFIGS[k][3] for k in names)
            its = [lines(f) if some_bare else (x.rstrip("\n") for x in f if x.endswith("\n")) for f in files]
            ended = None
            for row in itertools.zip_longest(*its):
                if None in row or len({x.split(OBS)[0] for x in row}) != 1:
                    ended = row
                    break
                if OBS in row[0]:
                    head = row[0].split(OBS)[0]
                    w.write(head + OBS + ",".join(x.split(OBS, 1)[1][:-2] for x in row) + "]}\n")
                else:
                    w.write(row[0] + "\n")
                n += 1
        for f in files:
            f.close()
        return n, ended

    def compare(self, dirs, which, prop, scale):
        t = time.time()

        def one(i):
            skip = []
            while True:
                outs, bad = self.one(i, dirs, which, prop, scale, skip)
                if not any(bad):
                    break
                ops = {json.dumps(b[1]) if b else None for b in bad}
                if len(ops) == 1 and len(skip) < 4:     # in every configuration alike
                    log("  note: p%d ends in %s in every configuration" % (i, ops))
                    skip.append(bad[0][1][0])
                    if not skip[-1]:
                        raise ToolError("recording fails: %s" % bad[0][2][-500:])
                    continue
                break
            path = os.path.join(self.run, "merged-%s-%d.nd" % (prop, i))
            n, ended = self.merge(outs, which, path)
            return i, path, n, ended, bad, lib.validate(path, self.run)

        with cf.ThreadPoolExecutor(sh.BINS) as ex:
            res = list(ex.map(one, range(sh.BINS)))
        paths = []
        for i, path, n, ended, bad, r in res:
            self.cov["states"] += r["states"]
            self.cov["transitions"] += r["transitions"]
            self.count(path, r["lines"] if r["ok"] else r["line"] - 1)
            paths.append(path)
            if not r["ok"]:
                seg = lib.segment(path, r["line"])
                self.violation("configurations (%s) differ: %s" % ("; ".join(CONFIGS[k][0] for k in which), r["why"]),
                               {"kind": "config", "which": which}, seg)
            elif any(bad):
                k = next(k for k, b in enumerate(bad) if b)
                name, op = bad[k][1]
                if name is None or (bad[k][0] not in ("timeout", 134, 139) and bad[k][0] > 0):
                    raise ToolError("recording p%d fails: %s" % (i, bad[k][2][-800:]))
                self.violation("%s of %s in configuration %s only" % (
                    "no end" if bad[k][0] == "timeout" else "crash (%s)" % bad[k][0], json.dumps(op), CONFIGS[which[k]][0]),
                    {"kind": "config", "which": which, "crash": name}, lib.segment(path, n) + [json.dumps(op)])
            elif ended:
                raise ToolError("the configurations were not asked the same: %s" % (ended,))
        log("  compared %s of %d configurations (%.0f s)" % (prop, len(which), time.time() - t))
        return paths

    def round(self, k):
        meta = os.path.join(self.run, "meta.nd")
        with lib.Lock(os.path.join(lib.BUILD, "lock-conf")):
            dirs = self.build()
        if dirs is None:
            return
        self.cov["rounds"] += 1
        rc, text = rt.run_prog([os.path.join(dirs[0], "p0"), "--cmd", "meta", "--prop", "P18", "--out", meta], 60)
        if rc != 0:
            raise ToolError("no meta: " + text)
        self.own = []
        scale = QUICK_SCALE if self.tier == "quick" else 10
        every = list(range(len(CONFIGS)))
        outs = self.compare(dirs, every, "P18", scale)
        if not self.violations:
            outs += self.compare(dirs, [n for n in every if CONFIGS[n][3]], "P18s", scale)
        if not self.violations and k == 0:
            self.self_test(outs)


def replay_file(path):
    with open(path) as f:
        head = json.loads(f.readline())
        lines = [x for x in f.read().split("\n") if x]
    c = Check("P18", head["tier"], head["seed"])
    c.cur_seed = head["seed"]
    dirs = c.build()
    if dirs is None or "refused" in head:
        return dirs is None
    src = os.path.join(c.run, "in.nd")
    with open(src, "w") as f:
        f.write("\n".join(lines) + "\n")
    outs, ended = [], []
    for n in head["which"]:
        out = os.path.join(c.run, "again-%d.nd" % n)
        for i in range(sh.BINS):
            rc, text = rt.run_prog([os.path.join(dirs[n], "p%d" % i), "--cmd", "exec", "--in", src, "--out", out], 120)
            if rc != 3:
                break
        else:
            raise ToolError("the enum is not among the shapes")
        outs.append(out)
        ended.append(rc)
    if len(set(ended)) > 1:
        log("performing it again ended with %s" % ended)
        return True
    merged = os.path.join(c.run, "again.nd")
    c.merge(outs, head["which"], merged)
    r = lib.validate(merged, c.run)
    if not r["ok"]:
        with open(merged) as f:
            log(f.read().split("\n")[r["line"] - 1][:2000])
    return not r["ok"]


def check(pid, tier, seed):
    t = time.time()
    c = Check(pid, tier, seed)
    c.execute()
    return c.cov, len(c.violations), time.time() - t, rt.ASSUME + [
        "The configurations built (%s) stand for all." % "; ".join(x[0] for x in CONFIGS)]
