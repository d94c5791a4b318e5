#!/usr/bin/env python3
"""mkseed.py [regex]: writes seeded/<id>/ (patch.diff, demo.sh, demo.rs, meta.json) from tools/seeds/*.py"""
import glob, json, os, re, runpy, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = open(V + "/tools/demo_template.sh").read()
rx = sys.argv[1] if len(sys.argv) > 1 else "."
for f in sorted(glob.glob(V + "/tools/seeds/*.py")):
    for s in runpy.run_path(f)["S"]:
        if not re.search(rx, s["id"]):
            continue
        d = V + "/seeded/" + s["id"]
        os.makedirs(d, exist_ok=True)
        w = "/tmp/mkseed"
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w)
        diff = ""
        files = []
        for fn, o, n in s["edits"]:
            a, b = w + "/a/" + fn, w + "/b/" + fn
            if fn not in files:
                files.append(fn)
                for x in (a, b):
                    os.makedirs(os.path.dirname(x), exist_ok=True)
                    shutil.copy("/repo/" + fn, x)
            t = open(b).read()
            if t.count(o) != 1:
                sys.exit("%s: pattern occurs %d times in %s: %s" % (s["id"], t.count(o), fn, o[:80]))
            open(b, "w").write(t.replace(o, n))
        for fn in files:
            diff += subprocess.run(["git", "diff", "--no-index", "--no-color", "a/" + fn, "b/" + fn], cwd=w, capture_output=True, text=True).stdout.replace("a/a/", "a/").replace("b/b/", "b/")
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.rs", "w").write(s["demo"].lstrip("\n"))
        open(d + "/demo.sh", "w").write(T.replace("@FILE@", s["demo_file"]))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        print(s["id"], len(diff.splitlines()))
