#!/usr/bin/env python3
"""Writes DESIGN.md: design_head.md, then what props_data.py, the rules (their evidence files), mutants and seeds say.
Run the checks first (evidence/<id>.json holds the rules' descriptions)."""
import collections, glob, json, os, re, runpy, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props_data import PROPS, NA, TECH

head = open(os.path.join(V, "tools", "design_head.md")).read()
fixes, known = [], []
for l in open(os.path.join(V, "known-findings.txt")):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if m:
        fixes.append("* %s, `%s`: %s" % m.groups())
    m = re.match(r"known: property=(\S+) key=(.*?) :: (.*)", l)
    if m:
        known.append("* %s, `%s`: %s" % m.groups())
out = [head.replace("@@FIXES@@", "\n".join(fixes)).replace("@@KNOWN@@", "\n".join(known)).rstrip(), ""]

bugs, same = collections.Counter(), collections.Counter()
for f in sorted(glob.glob(os.path.join(V, "tools", "mutants", "*.py"))):
    for m in runpy.run_path(f)["M"]:
        pids = next((x for x in m[2:] if isinstance(x, str) and re.fullmatch(r"(P\d\d ?)+", x) or isinstance(x, list) and x and all(re.fullmatch(r"P\d\d", str(y)) for y in x)), "")
        pids = pids.split() if isinstance(pids, str) else pids
        for p in pids:
            (bugs if m[-1] == "bug" else same)[p] += m[-1] in ("bug", "same")

seeds = []
for d in sorted(glob.glob(os.path.join(V, "seeded", "*"))):
    seeds.append((os.path.basename(d), json.load(open(os.path.join(d, "meta.json")))))

out += ["## The properties", ""]
for p in sorted(PROPS, key=lambda p: p["id"]):
    out.append("### %s %s" % (p["id"], p["title"]))
    out += ["", p["statement"], ""]
    if p["id"] in NA:
        out += ["**Not applicable:** " + NA[p["id"]], ""]
        continue
    out.append("*Decided by* %s. *Ranges over* %s." % (p.get("tech", TECH), p["q"]))
    if p.get("note"):
        out.append("*Trusts and bounds:* %s" % p["note"])
    try:
        c = json.load(open(os.path.join(V, "evidence", p["id"] + ".json")))["coverage"]
        out.append("")
        for k, t in c["rules"].items():
            out.append("* `%s`: %s (%d obligations)" % (k, t, c["by_rule"].get(k, {}).get("obligations", 0)))
        out.append("")
    except (OSError, KeyError):
        sys.exit("no evidence for " + p["id"])
    out.append("*Anchored in* " + "; ".join("%s (%s)" % (n, w) for n, w in p["mech"]) + ".")
    t = "*Tested with* %d bug edits, all caught, and %d edits that keep the behaviour, all quiet" % (bugs[p["id"]], same[p["id"]])
    s = [i for i, m in seeds if m["property"] == p["id"]]
    out += [t + ("; planted bugs: " + ", ".join("`%s`" % i for i in s) if s else "") + ".", ""]

out += ["## Planted bugs, and what catches them", "", "Each was confirmed to build, to pass the stable tests and to fail its own demonstration. The check of the bug's own property catches every one.", "",
        "| id | property | what it breaks | needs |", "|---|---|---|---|"]
for i, m in seeds:
    cell = lambda s: str(s).replace("|", "\\|").replace("\n", " ")
    out.append("| %s | %s | %s | %s |" % (i, m["property"], cell(m["what_it_breaks"]), cell(m["needs"])))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out).rstrip() + "\n")
print("DESIGN.md:", len(PROPS), "properties,", len(fixes), "fixes,", len(known), "known,", len(seeds), "seeds,", sum(bugs.values()), "bugs,", sum(same.values()), "same")
