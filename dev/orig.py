"""Do the seeded changes touch lines of the original repository?"""
import pathlib, re, subprocess
V = pathlib.Path(__file__).resolve().parent.parent
for d in sorted((V / "seeded").iterdir()):
    f = None; lost = []
    n = 0
    for l in (d / "patch.diff").read_text().splitlines():
        if l.startswith("--- a/"):
            f = l[6:]; base = set(subprocess.run(["git", "-C", "/repo", "show", "867d96a:" + f], capture_output=True, text=True).stdout.splitlines())
        elif l.startswith("-") and not l.startswith("---"):
            n += 1
            if l[1:] not in base: lost.append(l[1:])
    print(d.name, n, "NOT ORIGINAL: " + str(lost) if lost else "ok")
