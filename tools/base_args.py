"""writes sa/base_args.txt: how each function's parameters (and a closure's captures) are called on the tree the rules
were written for, and the types it has, so that what is only renamed is still known"""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "..", "sa"))
from rulelib import *
import engine, facts
p = Ctx("X").p
d = {"types": p.types}
out = sorted("%s\t%s\t%s" % (f.path, ",".join(engine.arg_names(f)), facts.signature(d, f.raw) if facts.nameable(f.raw) and not is_test(f) else "") for f in p.fns.values() if f.kind in ("Fn", "AssocFn", "Closure"))
with open(os.path.join(HERE, "..", "sa", "base_args.txt"), "w") as f:
    f.write("\n".join(out) + "\n")
