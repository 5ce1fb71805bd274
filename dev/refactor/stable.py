"""python3 dev/refactor/stable.py [group ...]: do the edits keep the stable tests passing? (all groups on one clone)"""
import json, pathlib, sys
sys.path.insert(0, str(pathlib.Path(__file__).parent)); sys.path.insert(0, str(pathlib.Path(__file__).parent.parent))
sys.argv, names = [sys.argv[0], "none"], sys.argv[1:]
import importlib.util
src = (pathlib.Path(__file__).parent.parent / "stable.py").read_text().split("ids = sys.argv")[0].replace("__file__", repr(str(pathlib.Path(__file__).parent.parent / "stable.py")))
exec(src)
import glob
R = {}
for f in sorted(glob.glob(str(pathlib.Path(__file__).parent / "specs*.py"))):
    ns = {}; exec(open(f).read(), ns); R.update(ns["R"])
d = clone("refactor")
for n in names or R:
    for f, old, new in R[n]:
        p = d / f; t = p.read_text()
        if t.count(old) != 1: print("does not apply together:", n, f, old[:50].strip()); continue
        p.write_text(t.replace(old, new))
bad = set(B["stable"]) - run(d)
print(len(bad), "stable tests fail"); print(*sorted(bad)[:20], sep="\n")
