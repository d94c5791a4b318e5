#!/usr/bin/env python3
"""mut.py FILE.py [name-regex]: self-test of the checks against source edits.

FILE.py defines M = [(name, property ids, file, old, new, "bug"|"same"), ...] ("file/old/new" may be
parallel lists for edits at several places).  Every edit is made in a scratch copy of /repo; "bug"
edits must be reported by one of the listed properties, "same" edits (behaviour kept) by none."""
import os, re, runpy, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NW = int(os.environ.get("NW", "4"))
M = runpy.run_path(sys.argv[1])["M"]
# also accepted: (name, file, old, new, property id, kind)
ispid = lambda x: bool(re.fullmatch(r"P\d\d( P\d\d)*", " ".join(x) if isinstance(x, list) else str(x)))
M = [(m[0], m[4] if isinstance(m[4], list) else m[4].split(), m[1], m[2], m[3], m[5]) if ispid(m[4]) else m for m in M]
if len(sys.argv) > 2:
    M = [m for m in M if re.search(sys.argv[2], m[0])]


def slot(i):
    d = os.environ.get("SLOTS", "/tmp/mutslots") + "/%d" % i
    if not os.path.exists(d + "/build"):
        os.makedirs(d, exist_ok=True)
        subprocess.run(["cp", "-a", V + "/build", d + "/build"], check=True)
    os.makedirs(d + "/ev", exist_ok=True)
    return d


import queue
Q = queue.Queue()
for i in range(NW):
    Q.put(i)


def one(m):
    name, pids, files, olds, news, kind = m
    if isinstance(olds, str):
        olds, news = [olds], [news]
    if isinstance(files, str):
        files = [files] * len(olds)
    i = Q.get()
    try:
        d = slot(i)
        r = d + "/repo"
        subprocess.run(["rsync", "-a", "--delete", "--exclude", "/target", "--exclude", "/.git", os.environ.get("SRC", "/repo") + "/", r + "/"], check=True) if shutil.which("rsync") else (
            shutil.rmtree(r, ignore_errors=True), subprocess.run("mkdir -p %s && (cd %s && tar cf - --exclude=./target --exclude=./.git .) | tar xf - -C %s" % (r, os.environ.get("SRC", "/repo"), r), shell=True, check=True))
        for f, o, n in zip(files, olds, news):
            s = open(r + "/" + f).read()
            if s.count(o) < 1:
                return (name, kind, "BADEDIT", "%s: pattern not found" % f)
            open(r + "/" + f, "w").write(s.replace(o, n, 1))
        env = dict(os.environ, SA_REPO=r, SA_BUILD=d + "/build", SA_EVIDENCE=d + "/ev")
        p = subprocess.run([V + "/facts.sh"], env=env, capture_output=True, text=True)
        if p.returncode:
            return (name, kind, "NOBUILD", p.stderr[-1500:])
        res = []
        for pid in pids:
            p = subprocess.run([V + "/check.sh", pid], env=env, capture_output=True, text=True)
            res.append((pid, p.returncode, p.stdout))
        hit = [x for x in res if x[1] == 1]
        odd = [x for x in res if x[1] not in (0, 1)]
        if odd:
            return (name, kind, "ERROR", str(odd))
        good = kind == "any" or bool(hit) == (kind == "bug")
        detail = ""
        if hit:
            detail = "\n".join("      %s: %s" % (h[0], "\n        ".join(h[2].strip().split("\n")[:4 if good else 12])) for h in hit)
        return (name, kind, "ok" if good else ("MISSED" if kind == "bug" else "FALSE-ALARM"), detail)
    finally:
        Q.put(i)


with ThreadPoolExecutor(NW) as ex:
    bad = 0
    verbose = os.environ.get("VERB")
    for name, kind, r, detail in ex.map(one, M):
        print("%-11s %-5s %s" % (r, kind, name))
        if r != "ok" or verbose:
            print(detail)
        bad += r != "ok"
    print("%d edits, %d unexpected" % (len(M), bad))
