#!/usr/bin/env python3
"""check.py <property> [--replay <file>]    decides one property on /repo's tree.
Exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check failed
(before it found a violation)."""
import json
import os
import subprocess
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import lib  # noqa: E402


def main():
    pid = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    try:
        import runtime_check
        if len(sys.argv) > 3 and sys.argv[2] == "--replay":
            path = os.path.abspath(sys.argv[3])
            with open(path) as f:
                kind = json.loads(f.readline())["kind"]
            if kind in ("trace", "crash"):
                bad = runtime_check.replay_file(path)
            elif kind == "config":
                import config_check
                bad = config_check.replay_file(path)
            else:
                import program_check
                bad = program_check.replay_file(path)
            if bad:
                print("VIOLATION property=%s replay=%s" % (pid, path))
            else:
                print("the file no longer shows a violation")
            return 1 if bad else 0
        cov, bad, wall, assume = None, 0, 0, []
        parts = []
        if pid == "P18":
            import config_check
            parts.append(config_check.check)
        elif pid in runtime_check.MODELS:
            parts.append(runtime_check.check)
        import program_check
        if pid in program_check.MODELS:
            parts.append(program_check.check)
        if not parts:
            raise lib.ToolError("unknown property " + pid)
        for part in parts:
            c, b, w, a = part(pid, tier, seed)
            bad += b
            wall += w
            assume += [x for x in a if x not in assume]
            if cov is None:
                cov = c
            else:
                for k, v in c.items():
                    if k in cov and isinstance(v, (int, list)) and not isinstance(v, bool):
                        cov[k] += v
                    elif k in cov and isinstance(v, dict):
                        cov[k].update(v)
                    else:
                        cov[k] = v
        lib.write_evidence(pid, tier, seed, "model_checking", cov, assume, wall, bad)
        if bad:
            return 1
        print("%s held: %d states, %d traces validated against the implementation (%.0f s)" % (
            pid, cov["states"], cov["traces_validated_against_impl"], wall))
        return 0
    except lib.ToolError as e:
        print("CHECK FAILED: %s" % e)
        return 1 if lib.reported else 2
    except subprocess.TimeoutExpired as e:
        print("CHECK FAILED: timeout %s" % e)
        return 1 if lib.reported else 2
    except Exception:
        traceback.print_exc()
        return 1 if lib.reported else 2


if __name__ == "__main__":
    sys.exit(main())
