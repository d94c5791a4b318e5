"""Markers: what a comparison in an environment marker means."""
import terms
from rulelib import *
from rules.formats import isarg, argfield
from rules.envs import last, okof, fld, unref
from rules.builds import show_facts
from rules.specs import op_is, OPS, boolfact

PURE = r"marker::Value|EnvMarkerExpr::eval|Extra|str::parse|from_str|to_ranges|contains|get_marker_var"


def part(t, *names):
    """the payload of self's variant: part(t, "Operator", "lhs"), part(t, "And", "0")"""
    t = unref(t)
    if t.tag == "P" and t.a[1] == names[0] and t.a[2] == names[1]:
        return isarg(unref(t.a[0]), "self")
    if t.tag == "F" and t.a[1] == names[1]:
        x = unref(t.a[0])
        return x.tag in ("V", "P") and x.a[1] == names[0] and isarg(unref(x.a[0]), "self")
    return False


def variant_of(p):
    for t, v in p.facts.items():
        if isarg(unref(t), "self") and isinstance(v, tuple) and v[0] == "v":
            return v[1]
    return None


def evals(t, variant, field, name):
    """the result of evaluating that part of self in the environment given"""
    c = okof(unref(t), name)
    return c is not None and len(c.a[1]) == 2 and part(c.a[1][0], variant, field) and isarg(unref(c.a[1][1]), "env")


def joined(ctx, rule, fn, kind):
    """and / or: the value is the conjunction or disjunction of the values of both sides"""
    n = 0
    for p in ctx.paths(fn, pure=PURE):
        if variant_of(p) != kind:
            continue
        if p.end != "ret":
            ctx.fail(rule, [fn.path, kind, "panic"], "it panics at %s" % p.site)
            continue
        n += 1
        side = [lambda t, i=i: evals(t, kind, i, "eval") for i in "01"]
        if p.err():
            e = bare(p.v)
            e = unref(e.a[3][0]) if e.tag == "A" else mk("P", e, "Err", "0")
            okk = e.tag == "P" and e.a[1] == "Err" and any(evals(mk("P", e.a[0], "Ok", "0"), kind, i, "eval") for i in "01")
            # an error is a side's own
            ctx.ob(rule, [fn.path, kind, "error"], okk or any(isinstance(v, tuple) and v == ("v", "Err") and any(evals(mk("P", bare(t), "Ok", "0"), kind, i, "eval") for i in "01") for t, v in p.facts.items()), "an error of its own: %s" % show(p.v)[:200])
            continue
        v = p.val() if p.ok() else None
        if v is None:
            # the last side's result handed on
            c = unref(p.v)
            v = mk("P", c, "Ok", "0")
        okk = True
        for a in (False, True):
            for b in (False, True):
                val = (a, b)
                if any(boolfact(p, side[i]) not in (None, val[i]) for i in (0, 1)):
                    continue
                r = value(p, v, side, val)
                okk = okk and r is ((a and b) if kind == "And" else (a or b))
        ctx.ob(rule, [fn.path, kind], okk, "%s gives %s when %s" % (kind, show(v)[:200], show_facts(p)[:400]))
    ctx.floor("ways %s is evaluated" % kind, n, 2)


def value(p, t, side, val):
    t = bare(t)
    if t.tag == "K":
        return t.a[1]
    if t.tag == "Un" and t.a[0] == "Not":
        x = value(p, t.a[1], side, val)
        return None if x is None else not x
    for i in (0, 1):
        if side[i](t):
            return val[i]
    if t.tag == "Bin" and t.a[0] in ("BitAnd", "BitOr", "Eq", "Ne", "BitXor"):
        a, b = value(p, t.a[1], side, val), value(p, t.a[2], side, val)
        if a is None or b is None:
            return None
        return {"BitAnd": a and b, "BitOr": a or b, "Eq": a is b, "Ne": a is not b, "BitXor": a is not b}[t.a[0]]
    return None


def extra_try(t, side):
    """Extra::try_from of the side's value"""
    c = bare(t)
    return c.tag == "C" and last(c) in ("try_from", "try_into", "parse", "from_str") and ("Extra::" in c.a[0] or len(c.a) > 2 and "Extra" in c.a[2]) and evals(c.a[1][0], "Operator", side, "eval")


def text(p, t, side):
    """t is the text compared on that side: the value, or the normalised extra if the other side is `extra`"""
    t = unref(t)
    while t.tag == "C" and last(t) in ("as_str", "to_string", "to_owned", "as_ref", "borrow", "deref", "as_bytes", "into", "from") and len(t.a[1]) == 1:
        t = unref(t.a[1][0])
    other = "rhs" if side == "lhs" else "lhs"
    ex = boolfact(p, lambda x: isC(x, "is_extra") and part(x.a[1][0], "Operator", other))
    tr = next((v for x, v in p.facts.items() if extra_try(x, side)), None)
    if evals(t, "Operator", side, "eval"):
        return ex is False or ex is True and tr == ("v", "Err")
    if isC(t, "normalized"):
        x = unref(t.a[1][0])
        return ex is True and x.tag == "P" and x.a[1] == "Ok" and extra_try(x.a[0], side)
    return False


def parsed(p, t, side):
    """Version parsed from that side's text"""
    c = bare(t)
    return c.tag == "C" and last(c) in ("from_str", "parse", "try_from", "try_into") and ("Version::" in c.a[0] or len(c.a) > 2 and "Version" in c.a[2]) and text(p, c.a[1][0], side)


def ranged(p, t):
    c = bare(t)
    return isC(c, "to_ranges") and len(c.a[1]) == 2 and the_op(c.a[1][0]) and text(p, c.a[1][1], "rhs")


def the_op(t):
    t = unref(t)
    return t.tag in ("P", "F") and "Compare" in t.a[1:3] and part(t.a[0], "Operator", "op") or t.tag == "F" and t.a[0].tag == "V" and part(t.a[0].a[0], "Operator", "op")


def inside(p, t):
    """a range of the right side contains the left side's version"""
    t = bare(t)
    if not isC(t, "contains") or len(t.a[1]) != 2:
        return False
    r = unref(t.a[1][0])
    c = okof(unref(t.a[1][1]), "from_str", "parse", "try_from", "try_into")
    if r.tag != "Elem" or c is None or not parsed(p, c, "lhs"):
        return False
    s = unref(r.a[0])
    while s.tag == "Iter" and s.a[0] in ("src", "rev"):
        s = unref(s.a[1])
    return s.tag == "P" and s.a[1] == "Ok" and ranged(p, s.a[0])


TRUE = {"LessThanEqual": (1, 1, 0), "StrictlyLessThan": (1, 0, 0), "NotEqual": (1, 0, 1), "Equal": (0, 1, 0), "GreaterThanEqual": (0, 1, 1), "StrictlyGreaterThan": (0, 0, 1)}


def order_value(p, t, c):
    """the truth of a comparison of the texts when the left one is less (0), equal (1), greater (2)"""
    t = bare(t)
    if t.tag == "K":
        return t.a[1]
    if t.tag == "Un" and t.a[0] == "Not":
        x = order_value(p, t.a[1], c)
        return None if x is None else not x
    f = None
    if t.tag == "Bin" and len(t.a) == 3:
        f, x, y = t.a[0].lower(), t.a[1], t.a[2]
    elif t.tag == "C" and len(t.a[1]) == 2:
        f, x, y = last(t), t.a[1][0], t.a[1][1]
    if f in ("lt", "le", "gt", "ge", "eq", "ne"):
        if text(p, x, "lhs") and text(p, y, "rhs"):
            d = c - 1
        elif text(p, x, "rhs") and text(p, y, "lhs"):
            d = 1 - c
        else:
            return None
        return {"lt": d < 0, "le": d <= 0, "gt": d > 0, "ge": d >= 0, "eq": d == 0, "ne": d != 0}[f]
    if f is not None and f.startswith("is_") or t.tag == "C" and last(t).startswith("is_") and len(t.a[1]) == 1:
        k = last(t)[3:]
        o = unref(t.a[1][0])
        if isC(o, "cmp") and k in ("lt", "le", "gt", "ge", "eq", "ne"):
            return order_value(p, mk("C", k, o.a[1]), c)
    return None


def p35(ctx):
    ctx.rule("joined", "`and` and `or` are the conjunction and disjunction of what they join")
    ctx.rule("values", "a variable has the value the environment gives it, a literal its text")
    ctx.rule("contained", "`in` and `not in` tell whether the right text contains the left")
    ctx.rule("version", "two versions are compared as versions")
    ctx.rule("text", "anything else is compared as text")
    fn = ctx.fn(r"EnvMarkerExpr::eval$")
    joined(ctx, "joined", fn, "And")
    joined(ctx, "joined", fn, "Or")
    # literals and variables
    ev = ctx.fn(r"marker::Value::eval$")
    n = 0
    for p in ctx.paths(ev, pure=PURE):
        if p.end != "ret":
            ctx.fail("values", [ev.path, "panic"], "it panics at %s" % p.site)
            continue
        kind = variant_of(p)
        got = lambda t: isC(bare(t), "get_marker_var") and len(bare(t).a[1]) == 2 and isarg(unref(bare(t).a[1][0]), "env") and part(bare(t).a[1][1], "Variable", "0")
        known = next((v for t, v in p.facts.items() if got(t)), None)
        n += 1
        if p.ok():
            v = unref(p.val())
            okk = part(v, "Literal", "0") if kind == "Literal" else v.tag == "P" and v.a[1] == "Some" and got(v.a[0])
        else:
            okk = kind == "Variable" and (p.err() and known == ("v", "None") or not p.err() and isC(unref(p.v), "ok_or_else", "ok_or") and got(unref(p.v).a[1][0]))
        ctx.ob("values", [ev.path, kind or "?"], okk, "the value is %s when %s" % (show(p.v)[:200], show_facts(p)[:300]))
    ctx.floor("values", n, 2)
    ie = ctx.fn(r"marker::Value::is_extra$")
    var = lambda t: part(t, "Variable", "0")
    for p in ctx.paths(ie):
        kind = variant_of(p)
        if p.end != "ret":
            ctx.fail("values", [ie.path, "panic"], "it panics at %s" % p.site)
            continue
        known = next((v for t, v in p.facts.items() if var(t) and isinstance(v, tuple)), None)
        b = bval(p, p.v)
        t = bare(p.v)
        if b is None and t.tag == "Bin" and t.a[0] in ("Eq", "Ne"):
            okk = t.a[0] == "Eq" and (var(t.a[1]) and is_k(t.a[2], None, "extra") or var(t.a[2]) and is_k(t.a[1], None, "extra")) and kind == "Variable"
        else:
            okk = b is (kind == "Variable" and known == ("i", "extra")) and (kind == "Literal" or known is not None)
        ctx.ob("values", [ie.path, kind or "?"], okk, "a value is taken for the extra when %s: %s" % (show_facts(p)[:200], show(p.v)[:100]))
    # comparisons
    seen, after = set(), []
    loops = ctx.iterations(fn, lambda t: any(isC(x, "to_ranges") for x in subset(t)), after=after, pure=PURE, across=lambda t: True)
    for q in loops + after:
        whole = not drops(ctx, q.over) and all(ranged(q, x) for x in subset(q.over) if isC(x, "to_ranges"))
        lv = next((v for t, v in q.facts.items() if parsed(q, t, "lhs")), None)
        inn = boolfact(q, lambda t: inside(q, t))
        b = bval(q, q.val()) if q.ok() else None
        if q in loops:
            okk = q.end == "next" and inn is False or b is True and inn is True
        else:
            okk = b is False
        ctx.ob("version", [fn.path, "loop"], okk and whole and lv == ("v", "Ok"), "versions are compared as %s when %s" % (q.show()[:100], show_facts(q)[-500:]))
    for p in ctx.paths(fn, pure=PURE):
        if variant_of(p) != "Operator":
            continue
        if p.end != "ret":
            ctx.fail("text", [fn.path, "panic"], "it panics at %s" % p.site)
            continue
        lf = next((v for t, v in p.facts.items() if evals(mk("P", bare(t), "Ok", "0"), "Operator", "lhs", "eval")), None)
        rf = next((v for t, v in p.facts.items() if evals(mk("P", bare(t), "Ok", "0"), "Operator", "rhs", "eval")), None)
        if ("v", "Err") in (lf, rf):
            ctx.ob("values", [fn.path, "error"], p.err(), "an unknown variable gives %s" % show(p.v)[:200])
            continue
        kind = next((v[1] for t, v in p.facts.items() if part(t, "Operator", "op") and isinstance(v, tuple) and v[0] == "v"), None)
        if kind in ("In", "NotIn"):
            v = p.val() if p.ok() else None
            has = lambda x: isC(x, "contains") and text(p, x.a[1][0], "rhs") and text(p, x.a[1][1], "lhs")
            b = boolfact(p, has)
            okk = v is not None and all(value(p, v, [has, lambda x: False], (c, None)) is (c is (kind == "In")) for c in (True, False) if b is None or b is c)
            seen.add(kind)
            ctx.ob("contained", [fn.path, kind], okk, "%s gives %s when %s" % (kind, show(p.v)[:200], show_facts(p)[-400:]))
            continue
        lv = next((v for t, v in p.facts.items() if parsed(p, t, "lhs")), None)
        rv = next((v for t, v in p.facts.items() if ranged(p, t)), None)
        if lv == ("v", "Ok") and rv == ("v", "Ok"):
            seen.add("version")
            if loops:
                continue
            b = bval(p, p.val()) if p.ok() else None
            it = lambda t: any(ranged(p, x) for x in subset(bare(t.a[0])))
            ex = any(t.tag == "Exists" and it(t) for t in p.facts)
            no = any(t.tag == "NoElem" and it(t) for t in p.facts)
            inn = boolfact(p, lambda t: inside(p, t))
            whole = not any(x.tag == "Thin" and x.a[0] != "rev" or x.tag == "Iter" and x.a[0] not in ("src", "rev") for t in p.facts for x in subset(t))
            okk = whole and (b is True and ex and inn is True or b is False and (no or inn is False and not ex))
            ctx.ob("version", [fn.path, str(b)], okk, "versions are compared as %s when %s" % (show(p.v)[:200], show_facts(p)[-500:]))
            continue
        op = next((o for o in OPS if any(the_op(t) and v == ("v", o) for t, v in p.facts.items())), None)
        seen.add(op)
        notver = lv == ("v", "Err") or rv == ("v", "Err")
        if op in TRUE:
            v = p.val() if p.ok() else None
            okk = notver and v is not None and all(settled(p, v, c) in (bool(TRUE[op][c]), "never") for c in (0, 1, 2))
        else:
            okk = notver and op == "Compatible" and p.err()
        ctx.ob("text", [fn.path, op or "?"], okk, "%s gives %s when %s" % (op, show(p.v)[:200], show_facts(p)[-500:]))
    want = set(OPS) | {"In", "NotIn", "version"}
    ctx.ob("text", [fn.path, "all"], seen >= want, "never compared: %s" % sorted(str(x) for x in want - seen))


def settled(p, v, c):
    """the value of v if the texts compare as c, unless what the path knows says they do not"""
    for t, x in p.facts.items():
        if isinstance(x, bool):
            k = order_value(p, t, c)
            if k is not None and k is not x:
                return "never"
    return order_value(p, v, c)


RULES = {"P35": [p35]}
