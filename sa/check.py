"""Command line: python3 -m sa.check <property> [--root DIR]"""

from __future__ import annotations

import argparse
import os
import pickle
import sys
import threading
import warnings


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--root", default="/repo")
    ap.add_argument("--jobs", "-j", type=int, default=0)
    ap.add_argument("--debug", action="store_true")
    ap.add_argument("--verbose", "-v", action="store_true")
    a = ap.parse_args()
    tier = os.environ.get("VERIF_TIER", "quick")
    from .props import PROPS
    from .report import Report, finish

    rep = Report(a.pid, tier if tier in ("quick", "thorough") else "quick")
    fn = PROPS[a.pid]
    root = os.path.join(a.root, "portfolyo")
    workers = 1 if not getattr(fn, "parallel", False) else a.jobs or min(8, os.cpu_count() or 1)
    if workers == 1:
        explanation, extra = fn(rep, root, rep.tier)
    else:
        explanation, extra = parallel(fn, rep, root, workers)
    if a.debug:
        for n in rep.failed:
            print("FAILED GROUP", n)
    if a.verbose:
        from collections import Counter

        for (r, why), n in Counter((r, why) for r, w, why in rep.undecided).most_common(40):
            print("  undecided", n, r, why)
        for r, w, why in rep.undecided[:60]:
            print("     ", r, "|", w, "|", why)
    return finish(rep, explanation, extra)


def parallel(fn, rep, root, n):
    """The same analysis in n processes, each deciding its share of the obligations."""
    from .contexts import load

    load(root)  # before forking
    kids = []
    for k in range(n):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                rep.shard = (k, n)
                out = fn(rep, root, rep.tier)
                with os.fdopen(w, "wb") as f:
                    pickle.dump((rep.dump(), out), f)
                code = 0
            except BaseException:
                import traceback

                traceback.print_exc()
            os._exit(code)
        os.close(w)
        kids.append((pid, r))
    out = ("", {})
    for pid, r in kids:
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        if data:
            d, out = pickle.loads(data)
            rep.merge(d)
        else:
            rep.failed.append("worker")
            rep.undecided.append(("worker", "analysis", "worker process failed"))
    return out


if __name__ == "__main__":
    warnings.simplefilter("ignore", DeprecationWarning)
    sys.setrecursionlimit(20000)
    threading.stack_size(512 * 1024 * 1024)
    rc = []
    t = threading.Thread(target=lambda: rc.append(main()))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0] if rc else 3)
