"""Which seeded changes break stable tests.  python3 dev/stable.py [id ...]
First all together; then, each on its own, only the test files that failed."""
import json, os, pathlib, shutil, subprocess, sys
V = pathlib.Path(__file__).resolve().parent.parent
B = json.load(open("/opt/vp/BASELINE.json"))
W = pathlib.Path("/tmp/stable"); W.mkdir(exist_ok=True)
N = os.environ.get("N", "8")
def clone(n):
    d = W / n
    if d.exists(): shutil.rmtree(d)
    subprocess.run(["git", "clone", "-q", "/repo", str(d)], check=True)
    return d
def apply(d, i):
    return subprocess.run(["git", "-C", str(d), "apply", "--3way" if False else "-v", str(V / "seeded" / i / "patch.diff")], capture_output=True).returncode == 0
def run(d, files=("tests",)):
    env = dict(os.environ, MPLBACKEND="Agg", PYTHONPATH=str(d), PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", TZ="UTC", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    rep = d / ".rep"; rep.mkdir(exist_ok=True)
    subprocess.run(["nice", "/opt/venv/bin/python", "-m", "pytest", "-q", "--tb=no", "-p", "no:cacheprovider", "--timeout=300", "-n", N, "--dist", "worksteal", "--continue-on-collection-errors", "-m", "not only_on_pr", "-o", "junit_family=xunit2", f"--junitxml={rep}/junit.xml", *files], cwd=d, env=env, stdout=open(rep / "log", "w"), stderr=subprocess.STDOUT)
    subprocess.run(["python3", "/opt/vp/results.py", str(rep / "out.json"), f"junit:{rep}/junit.xml"], capture_output=True)
    return set(json.load(open(rep / "out.json"))["passed"])
def mod(t): return t.split("::")[0]
def path(d, m):
    p = m.replace(".", "/")
    while p and not (d / (p + ".py")).exists(): p = p.rpartition("/")[0]
    return p + ".py"
ids = sys.argv[1:] or sorted(p.name for p in (V / "seeded").iterdir())
left = list(ids)
while left:
    d = clone("all"); done = []
    for i in left:
        if apply(d, i): done.append(i)
    left = [i for i in left if i not in done]
    bad = set(B["stable"]) - run(d)
    if not bad:
        print("all fine:", *done, flush=True); continue
    mods = sorted({mod(t) for t in bad})
    print("together:", len(bad), "fail in", len(mods), "modules", flush=True)
    files = sorted({path(d, m) for m in mods})
    want = {t for t in B["stable"] if mod(t) in mods}
    for i in done:
        e = clone("one"); assert apply(e, i)
        b = want - run(e, files)
        print(i, "OK" if not b else f"BREAKS {len(b)}: " + " ".join(sorted({t.split('[')[0] for t in b})[:4]), flush=True)
shutil.rmtree(W)
