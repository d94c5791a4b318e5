"""main.py ID: decide property ID on the current fact base; writes evidence/ID.json"""
import importlib, json, os, sys, time, traceback
if os.environ.get("PYTHONHASHSEED") != "0":
    # every run of a check must visit sets in the same order
    os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED="0"))
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VERIF = os.path.dirname(HERE)
import rulelib
from rulelib import Ctx, Stop, CheckError

KNOWN = os.path.join(VERIF, "known-findings.txt")


def known(pid):
    out = []
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            ln = ln.strip()
            pre = "known: property=%s key=" % pid
            if ln.startswith(pre):
                key, _, what = ln[len(pre):].partition(" :: ")
                out.append((key, what))
    return out


def registry():
    reg = {}
    for m in sorted(os.listdir(os.path.join(HERE, "rules"))):
        if m.endswith(".py") and not m.startswith("_"):
            mod = importlib.import_module("rules." + m[:-3])
            for k, v in mod.RULES.items():
                reg.setdefault(k, []).extend(v)
    return reg


def run(pid, groups):
    ctx = Ctx(pid)
    for g in groups:
        try:
            g(ctx)
        except Stop:
            pass
        except CheckError as e:
            ctx.fail("analysis", g.__name__, str(e))
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            loc = [x for x in tb if "/rules/" in x.filename] or list(tb)
            ctx.fail("analysis", g.__name__, "the code no longer has the shape this rule decides (%s: %s at %s:%d)" % (
                type(e).__name__, e, os.path.basename(loc[-1].filename), loc[-1].lineno))
            if os.environ.get("SA_DEBUG"):
                traceback.print_exc()
    return ctx


def main():
    pid = sys.argv[1]
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    reg = registry()
    groups = reg[pid]
    ctx = run(pid, groups)
    kn = known(pid)
    seen = {}
    for key, msg in ctx.violations:
        seen.setdefault(key, msg)
    new = {k: m for k, m in seen.items() if not any(k == kk for kk, _ in kn)}
    for kk, what in kn:
        if kk in seen:
            print("KNOWN-FINDING: property=%s %s" % (pid, what or kk))
    os.makedirs(rulelib.EVID, exist_ok=True)
    oblig = len(ctx.obs)
    bad = len([o for o in ctx.obs if not o[2]])
    byrule = {}
    for r, c, okk in ctx.obs:
        d = byrule.setdefault(r, {"obligations": 0, "violated": 0, "constructs": []})
        d["obligations"] += 1
        if not okk:
            d["violated"] += 1
        if len(d["constructs"]) < 12 and c not in d["constructs"]:
            d["constructs"].append(c)
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": {
            "explanation": "static analysis of /repo's current sources (borrowck-phase MIR with resolved callees, plus the "
                           "sources rustc does not see on this target); no code of the project was run. Each obligation is "
                           "one instance of a rule at one construct.",
            "rules": ctx.rules,
            "obligations": oblig, "obligations_violated": bad, "by_rule": byrule,
            "functions_analysed": sorted(ctx.fns), "functions_analysed_count": len(ctx.fns),
            "abstract_blocks_explored": ctx.blocks, "paths_examined": ctx.npaths, "call_events_seen": ctx.nevents,
            **ctx.extra,
        },
        "assumptions": ctx.assumptions or ["documented behaviour of std and third-party crates that are not part of /repo"],
        "wall_s": round(time.time() - t0, 3),
        "violations": len(new),
        "violation_list": [{"construct": k, "message": m} for k, m in new.items()],
    }
    out = os.path.join(rulelib.EVID, pid + ".json")
    if oblig == 0:
        new["scope"] = "no obligation was generated"
    with open(out, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if new:
        rp = os.path.join(rulelib.EVID, pid + ".violations.txt")
        with open(rp, "w") as f:
            for k, m in new.items():
                f.write("%s\n    %s\n" % (k, m))
        for k, m in list(new.items())[:20]:
            print("  %s\n      %s" % (k, m))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("OK property=%s obligations=%d functions=%d paths=%d wall=%.2fs" % (pid, oblig, len(ctx.fns), ctx.npaths, time.time() - t0))
    return 0


sys.exit(main())
