"""Checks the proofs in spec/Proof*.tla with tlapm: what TLC shows within bounds, for
every enum, every number of words and every width of words."""
import os
import re
import shutil
import subprocess
import sys
import zipfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib  # noqa: E402

JAR = "/opt/veriftools/tla/CommunityModules-deps.jar"
MODULES = ["ProofSpec", "ProofWords"]


def prove(run):
    """module -> number of obligations proved; ToolError if one is not."""
    d = os.path.join(run, "proofs")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "inc"))
    with zipfile.ZipFile(JAR) as z:
        for m in ("FiniteSetsExt", "SequencesExt", "Functions", "Folds"):
            for n in z.namelist():
                if os.path.basename(n) == m + ".tla":
                    with open(os.path.join(d, "inc", m + ".tla"), "wb") as f:
                        f.write(z.read(n))
    spec = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
    for n in os.listdir(spec):
        if n.endswith(".tla"):
            shutil.copy(os.path.join(spec, n), d)
    out = {}
    for m in MODULES:
        for stretch in ("1", "6"):
            p = subprocess.run(["tlapm", "-I", "inc", "--threads", "4", "--stretch", stretch, m + ".tla"], cwd=d,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=1500)
            got = re.search(r"All (\d+) obligations proved", p.stdout)
            if got:
                out[m] = int(got.group(1))
                break
        else:
            raise lib.ToolError("%s is not proved:\n%s" % (m, p.stdout[-2000:]))
    return out


if __name__ == "__main__":
    print(prove(os.path.join(lib.BUILD, "prove")))
