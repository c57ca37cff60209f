#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROGRAM = {"P08", "P09", "P10", "P11", "P12", "P13"}
CALLS = ("TLC checks that the word-level model of the crate refines the TLA+ specification and that the specification has "
         "the property; calls generated by TLC are replayed on the real crate, and recorded real histories are validated "
         "by TLC as behaviours of the specification. Bounded: the compiled enums (about 330, and a cross-section of 85 without overflow checks and debug assertions), the generated cases and the "
         "recorded histories. Trusted: TLC, rustc, the harness's projection of a set (contains, ==, len), the target (x86-64).")
PROGS = ("The TLA+ model of the derive / the constant macros is checked by TLC and enumerates declarations or expressions "
         "with verdicts and values; each is compiled against the real crate, run, and what it prints is validated by TLC. "
         "Bounded: the enumerated families. Trusted: TLC, rustc, the rendering of a declaration as Rust text.")
BUILDS = ("The same calls are made in three build configurations (debug; optimized without cargo features; without checks, all "
          "features), and TLC validates the merged histories: each must be a behaviour of the specification in which all members "
          "agree. Bounded: 48 enums (thorough: 85 or more), the recorded histories, the three configurations.")
TECH = "TLA+ specification checked with TLC; TLC-generated behaviours replayed on the crate; recorded histories validated against it"
TECHP = "TLA+ specification of declarations and constant expressions; TLC-enumerated programs compiled and run; output validated by TLC"


def main():
    with open(os.path.join(ROOT, "properties.jsonl")) as f:
        ids = [json.loads(x)["id"] for x in f]
    checks = []
    skip = json.loads(os.environ.get("SKIP", "{}"))
    for p in ids:
        if p in skip:
            continue
        checks.append({
            "property": p,
            "quick_cmd": "python3 check.py %s" % p,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": TECHP if p in PROGRAM else TECH,
            "level": "model_checking",
            "level_note": BUILDS if p == "P18" else PROGS if p in ("P12", "P13") else CALLS if p not in PROGRAM else CALLS + " " + PROGS,
        })
    m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks,
         "not_applicable": [{"property": k, "reason": v} for k, v in skip.items()],
         "notes": "No hooks: everything is observed through the public API and the compiler. "
                  "Defects found and repaired are listed in KNOWN_FINDINGS.txt."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
