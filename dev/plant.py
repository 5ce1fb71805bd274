"""Create seeded changes from dev/bugs/*.py specs: python3 dev/plant.py [id ...]
Each spec (dict BUGS in dev/bugs/*.py): id -> dict(property, edits=[(file, old, new)], demo=python source, needs, breaks)."""
import importlib.util, json, pathlib, shutil, subprocess, sys, os
V = pathlib.Path(__file__).resolve().parent.parent
ENV = dict(os.environ, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1")
def specs():
    out = {}
    for f in sorted((V / "dev/bugs").glob("*.py")):
        sp = importlib.util.spec_from_file_location(f.stem, f); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
        out.update(m.BUGS)
    return out
DEMO = '#!/bin/bash\n# run with cwd /repo\nexport MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'
def edit(root, edits):
    for f, old, new in edits:
        p = pathlib.Path(root) / f
        t = p.read_text()
        assert t.count(old) == 1, (f, old, t.count(old))
        p.write_text(t.replace(old, new))
def main():
    S = specs(); ids = sys.argv[1:] or list(S)
    base = pathlib.Path("/tmp/plant"); base.mkdir(exist_ok=True)
    for i in ids:
        s = S[i]; d = V / "seeded" / i; w = base / i
        if w.exists(): shutil.rmtree(w)
        subprocess.run(["git", "-C", "/repo", "worktree", "prune"]); 
        subprocess.run(["git", "clone", "-q", "--no-hardlinks", "/repo", str(w)], check=True)
        d.mkdir(parents=True, exist_ok=True)
        (d / "demo.py").write_text(s["demo"].lstrip()); (d / "demo.sh").write_text(DEMO); os.chmod(d / "demo.sh", 0o755)
        r0 = subprocess.run(["bash", str(d / "demo.sh")], cwd=w, env=ENV, capture_output=True, text=True)
        edit(w, s["edits"])
        r1 = subprocess.run(["bash", str(d / "demo.sh")], cwd=w, env=ENV, capture_output=True, text=True)
        diff = subprocess.run(["git", "-C", str(w), "diff"], capture_output=True, text=True).stdout
        (d / "patch.diff").write_text(diff)
        (d / "meta.json").write_text(json.dumps(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), indent=1) + "\n")
        c = subprocess.run([sys.executable, "-m", "sa.check", s["property"], "--root", str(w)], cwd=V, env=dict(ENV, PYTHONPATH=str(V)), capture_output=True, text=True)
        vio = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
        ok = r0.returncode == 0 and r1.returncode != 0
        print(f"{i}: {s['property']} demo {'OK' if ok else 'BAD'} ({r0.returncode},{r1.returncode}) check rc={c.returncode} viol={len(vio)}")
        if not ok: print("   ", (r0.stderr if r0.returncode else r1.stdout)[-1000:])
        elif "-d" in os.environ.get("PL", ""): print("   ", (r1.stderr)[-300:])
        shutil.rmtree(w)
main()
