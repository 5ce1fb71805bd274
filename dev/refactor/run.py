"""python3 dev/refactor/run.py [name ...]: apply each behaviour-preserving edit to a copy and run all checks on it."""
import importlib.util, os, pathlib, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = pathlib.Path(__file__).resolve().parent.parent.parent
sys.path.insert(0, str(V)); sys.path.insert(0, str(pathlib.Path(__file__).parent))
R = {}
for f in sorted(pathlib.Path(__file__).parent.glob("specs*.py")):
    ns = {}; exec(f.read_text(), ns); R.update(ns["R"])
import json
ids = [c["property"] for c in json.load(open(V / "MANIFEST.json"))["checks"]]
def run(root, i):
    r = subprocess.run([sys.executable, "-m", "sa.check", i, "--root", str(root), "-j", "2", "-v"], cwd=V, env=dict(os.environ, EVID_DIR="/tmp/plant/ev", PYTHONDONTWRITEBYTECODE="1"), capture_output=True, text=True)
    return i, r.returncode, r.stdout, r.stderr
only = os.environ.get("ONLY", "").split() or ids
for name in sys.argv[1:] or list(R):
    w = pathlib.Path("/tmp/plant") / ("rf_" + name)
    if w.exists(): shutil.rmtree(w)
    w.mkdir(parents=True)
    shutil.copytree(os.environ.get("BASE","/repo")+"/portfolyo", w / "portfolyo", ignore=shutil.ignore_patterns("__pycache__"))
    for f, old, new in R[name]:
        p = w / f; t = p.read_text()
        assert t.count(old) == 1, (name, f, old[:80], t.count(old))
        t = t.replace(old, new); compile(t, f, "exec"); p.write_text(t)
    print("==", name, flush=True)
    with ThreadPoolExecutor(int(os.environ.get("WORK", "4"))) as ex:
        for i, rc, out, err in ex.map(lambda i: run(w, i), only):
            head = out.splitlines()[0] if out else ""
            m = re.search(r"(\d+) without verdict", out)
            und = int(m.group(1)) if m else -1
            if rc or und or "FAILED" in out:
                print(f"  {i}: rc={rc} undecided={und} {head[:150]}")
                lines = out.splitlines()[1:]
                for l in lines[:14] if rc else lines[:4]: print("      ", l[:260])
                if rc not in (0, 1): print(err[-600:])
