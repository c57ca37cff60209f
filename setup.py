#!/usr/bin/env python3
"""Checks that the tools are there and that every module of the specification parses."""
import concurrent.futures as cf
import glob
import os
import subprocess
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import lib  # noqa: E402


def parse(path):
    p = subprocess.run(["java", "-cp", lib.TLAJARS, "tla2sany.SANY", path], cwd=lib.SPEC, text=True,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return path, p.returncode == 0 and "*** Errors" not in p.stdout and "Fatal" not in p.stdout, p.stdout


def main():
    subprocess.run(["cargo", "--version"], check=True, env=lib.cargo_env())
    # The proofs are for tlapm, which has modules of its own (tools/prove.py).
    modules = [x for x in sorted(glob.glob(lib.SPEC + "/*.tla")) if not os.path.basename(x).startswith("Proof")]
    with cf.ThreadPoolExecutor(lib.CORES) as ex:
        bad = [(p, o) for p, ok, o in ex.map(parse, modules) if not ok]
    for p, o in bad:
        print(p, o[-2000:])
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
