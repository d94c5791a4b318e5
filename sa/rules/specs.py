"""Version specifiers, markers, requirements: what the text a user or package writes means."""
import itertools, re
import terms
from rulelib import *
from rules.formats import isarg, argfield, fmt_is, eqtrue
from rules.envs import last, okof, fld, unref
from rules.builds import variant, field, show_facts

FIELDS = ("epoch", "release", "pre", "post", "dev", "local")
OPS = ("LessThanEqual", "StrictlyLessThan", "NotEqual", "Equal", "GreaterThanEqual", "StrictlyGreaterThan", "Compatible")
SYM = {"LessThanEqual": "<=", "StrictlyLessThan": "<", "NotEqual": "!=", "Equal": "==", "GreaterThanEqual": ">=", "StrictlyGreaterThan": ">", "Compatible": "~="}
MAX = 4294967295


class V:
    """the abstract domain of version bounds: what each field of a version is, relative to the version given.  A case
    says which fields the given version has (pre: None/A/B/RC, post, dev: None/Some, local: is there one, rlen)."""

    def __init__(self, isv, case):
        self.isv, self.case = isv, case

    def has(self, f):
        return {"pre": self.case["pre"], "post": self.case["post"], "dev": self.case["dev"]}[f]

    def own(self, t, f):
        """t is the field f of the given version"""
        t = self.clean(t)
        return t.tag == "F" and t.a[1] == f and t.a[0].tag == "F" and t.a[0].a[1] == "0" and self.isv(t.a[0].a[0])

    def clean(self, t):
        while isC(t, "clone", "Clone::clone", "to_owned", "to_vec", "deref", "Deref::deref", "as_ref", "as_deref", "borrow", "into", "from") and len(t.a[1]) == 1 or t.tag in ("Ref", "Deref"):
            t = t.a[1][0] if t.tag == "C" else t.a[0]
        return t

    def inner(self, t):
        """the fields of a Version or pep440::Version term -> {field: abstract value}"""
        t = self.clean(t)
        if t.tag == "Static" or t.tag == "F" and t.a[0].tag == "Static":
            s = t if t.tag == "Static" else t.a[0]
            return s.a[0].rsplit("::", 1)[-1]
        if t.tag == "A" and t.a[0].rsplit("::", 1)[-1] == "Version" and t.a[2] == ("0",):
            return self.fields(t.a[3][0])
        if t.tag == "Upd" and t.a[1] == "0":
            return self.fields(t.a[2])
        if self.isv(t):
            return {f: self.mine(f) for f in FIELDS}
        return None

    def mine(self, f):
        if f in ("pre", "post", "dev"):
            return "same" if self.has(f) else None
        if f == "local":
            return "same" if self.case["local"] else ()
        return "same"

    def fields(self, t):
        t = self.clean(t)
        if t.tag == "Upd":
            b = self.fields(t.a[0])
            if not isinstance(b, dict):
                return None
            b = dict(b)
            b[t.a[1]] = self.value(t.a[1], t.a[2])
            return b
        if t.tag == "Acc":
            return None
        if t.tag == "A" and set(FIELDS) <= set(t.a[2]):
            return {f: self.value(f, t.a[3][t.a[2].index(f)]) for f in FIELDS}
        if t.tag == "F" and t.a[1] == "0" and self.isv(t.a[0]):
            return {f: self.mine(f) for f in FIELDS}
        if t.tag == "F" and t.a[1] == "0":
            r = self.inner(t.a[0])
            return r if isinstance(r, dict) else None
        return None

    def number(self, f, t):
        t = strip(self.clean(t))
        if t.tag == "K" and isinstance(t.a[1], int):
            return t.a[1]
        l = lin(t)
        ks = [k for k in l if k is not None]
        if len(ks) == 1 and l[ks[0]] == 1 and self.payload(ks[0], f):
            c = l.get(None, 0)
            return "same" if c == 0 else "%+d" % c
        return "?"

    def payload(self, t, f):
        t = self.clean(t)
        if t.tag != "P":
            return False
        if f == "pre":
            x = self.clean(t.a[0])
            return t.a[1] == self.case["pre"] and x.tag == "P" and x.a[1] == "Some" and self.own(x.a[0], "pre")
        return t.a[1] == "Some" and self.own(t.a[0], f)

    def value(self, f, t):
        t = self.clean(t)
        if f in ("epoch",):
            return "same" if self.own(t, f) else "?"
        if f == "release":
            return self.release(t)
        if f == "local":
            return self.local(t)
        if self.own(t, f):
            return self.mine(f)
        if t.tag == "A" and t.a[1] == "None":
            return None
        if t.tag == "A" and t.a[1] == "Some":
            x = t.a[3][0]
            return self.pre(x) if f == "pre" else self.number(f, x)
        if t.tag == "Upd":
            b = strip(t.a[0])
            # the payload of the Some the field is known to hold, changed in place
            src = b.a[0] if b.tag in ("V", "P") and isinstance(b.a[0], T) else b
            if self.own(src, f) and self.has(f):
                return self.pre(t.a[2]) if f == "pre" else self.number(f, t.a[2])
        return "?"

    def pre(self, x):
        x = self.clean(x)
        if x.tag == "P" and x.a[1] == "Some" and self.own(x.a[0], "pre"):
            return self.mine("pre")
        if x.tag == "A" and x.a[1] in ("A", "B", "RC") and len(x.a[3]) == 1:
            n = self.number("pre", x.a[3][0])
            return n if x.a[1] == self.case["pre"] else (x.a[1], n)
        return "?"

    def local(self, t):
        hs = history(t)
        b = self.clean(strip(t))
        if b.tag == "Arr":
            base = () if not b.a else "?"
        elif isC(b, "Vec::new", "default", "Default::default", "Vec::with_capacity"):
            base = ()
        elif self.own(b, "local"):
            base = self.mine("local")
        else:
            return "?"
        for m, a in hs:
            x = bare(a[-1]) if a else None
            ln = m.rsplit("::", 1)[-1]
            if ln == "push" and x is not None and x.tag == "A" and x.a[1] == "StringComponent" and empty_str(x.a[3][0]):
                base = "same+''" if base == "same" else "?"
            elif ln == "clear":
                return () if len(hs) == 1 else "?"
            else:
                return "?"
        return base

    def release(self, t):
        b = self.clean(strip(t))
        hs = sorted(m.rsplit("::", 1)[-1] for m, a in history(t))
        if not self.own(b, "release"):
            return "?"
        n = {"store": 0}
        out = "same"
        if "pop" in hs or "truncate" in hs:
            out = "pop"
        if "last_mut" in hs:
            out += ",bump"
        if set(hs) - {"pop", "last_mut"}:
            return "?"
        return out


def empty_str(t):
    t = bare(t)
    while isC(t, "from", "into", "to_string", "to_owned") and len(t.a[1]) == 1:
        t = bare(t.a[1][0])
    return is_k(t, "str", "") or isC(t, "String::new", "default", "Default::default")


def cases():
    for pre, post, dev, local, rlen in itertools.product((None, "A", "B", "RC"), (None, "Some"), (None, "Some"), (False, True), (1, 2, 3)):
        yield dict(pre=pre, post=post, dev=dev, local=local, rlen=rlen)


def bumped(p):
    """the last release segment changed in place on this path: the stores through last_mut(release)"""
    out = []
    for e in p.evs:
        if e.kind == "store":
            t = strip(e.args[0])
            if t.tag == "P" and t.a[1] == "Some" and isC(t.a[0], "last_mut"):
                d = lsub(lin(e.args[1]), lin(t))
                out.append(lconst(d))
    return out


def holds(p, dom, case):
    """can the path be taken for a version of this case?  (facts about anything else are ignored)"""
    isv = dom.isv
    for t, v in p.facts.items():
        w = truth(dom, t, case)
        if w is None:
            continue
        if isinstance(v, tuple):
            if v[0] == "v" and w != v[1] or v[0] == "nv" and w in v[1]:
                return False
            if v[0] == "i" and w != v[1] or v[0] == "ni" and w in v[1]:
                return False
        elif isinstance(v, bool) and isinstance(w, bool) and w != v:
            return False
    return True


def truth(dom, t, case):
    t = dom.clean(t)
    for f in ("pre", "post", "dev"):
        if dom.own(t, f):
            return "Some" if case[f] else "None"
    if t.tag == "P" and t.a[1] == "Some" and dom.own(t.a[0], "pre"):
        return case["pre"]
    if t.tag == "C" and len(t.a[1]) == 1:
        x = t.a[1][0]
        ln = last(t)
        for f in ("pre", "post", "dev"):
            if dom.own(x, f) and ln in ("is_some", "is_none"):
                return (ln == "is_some") == bool(case[f])
        if dom.own(strip(x), "local"):
            if ln == "is_empty":
                return not case["local"]
        if dom.own(strip(x), "release") and ln in ("pop", "last_mut", "last", "first"):
            n = case["rlen"] - sum(1 for m, a in history(x) if m.rsplit("::", 1)[-1] == "pop")
            return "Some" if n > 0 else "None"
        if dom.own(strip(x), "release") and ln == "len" and not history(x):
            return case["rlen"]
        if dom.own(strip(x), "local") and ln == "len":
            return 1 if case["local"] else 0
    if t.tag == "Bin":
        o = t.a[0]
        a, b = t.a[1], t.a[2]
        if o in ("Eq", "Ne"):
            r = same(dom, a, b, case)
            return None if r is None else r == (o == "Eq")
        x, y = num(dom, a, case), num(dom, b, case)
        if x is not None and y is not None:
            return {"Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}.get(o)
    return None


def num(dom, t, case):
    t = strip(dom.clean(t))
    if t.tag == "K" and isinstance(t.a[1], int):
        return t.a[1]
    r = truth(dom, t, case)
    return r if isinstance(r, int) and not isinstance(r, bool) else None


def same(dom, a, b, case):
    a, b = dom.clean(a), dom.clean(b)
    if a.tag == "Tup" and b.tag == "Tup" and len(a.a) == len(b.a):
        rs = [same(dom, x, y, case) for x, y in zip(a.a, b.a)]
        return False if False in rs else None if None in rs else True
    for x, y in ((a, b), (b, a)):
        if x.tag == "A" and x.a[1] == "None":
            for f in ("pre", "post", "dev"):
                if dom.own(y, f):
                    return not case[f]
    x, y = num(dom, a, case), num(dom, b, case)
    return None if x is None or y is None else x == y


def given(case):
    d = {"epoch": "same", "release": "same", "pre": "same" if case["pre"] else None, "post": "same" if case["post"] else None,
         "dev": "same" if case["dev"] else None, "local": "same" if case["local"] else ()}
    return d


def successor(case):
    """the smallest version above the given one and all its local variants (or, given a local version, above that)"""
    d = given(case)
    if case["local"]:
        d["local"] = "same+''"
    elif case["dev"]:
        d["dev"] = "+1"
    elif case["post"]:
        d.update(post="+1", dev=0)
    else:
        d.update(post=0, dev=0)
    return d


def expected(op, wild, case):
    """PEP 440: the ranges of versions an operator admits; None: the specifier is invalid"""
    me, zero, inf = given(case), "VERSION_ZERO", "VERSION_INFINITY"
    if wild:
        if case["dev"] or case["local"] or op not in ("Equal", "NotEqual"):
            return None
        low = dict(me, dev=0)
        if case["post"]:
            high = dict(me, post="+1", dev=0)
        elif case["pre"]:
            high = dict(me, pre="+1", dev=0)
        else:
            high = dict(me, release="same,bump", dev=0)
        return [(low, high)] if op == "Equal" else [(zero, low), (high, inf)]
    if case["local"] and op not in ("Equal", "NotEqual"):
        return None
    nxt = successor(case)
    if op == "Equal":
        return [(me, nxt)]
    if op == "NotEqual":
        return [(zero, me), (nxt, inf)]
    if op == "LessThanEqual":
        return [(zero, nxt)]
    if op == "GreaterThanEqual":
        return [(me, inf)]
    if op == "StrictlyLessThan":
        return [(zero, me if case["pre"] or case["dev"] else dict(me, dev=0))]
    if op == "StrictlyGreaterThan":
        # no post-release of the given version unless it is one itself
        return [(nxt if case["post"] or case["dev"] else dict(me, post=MAX), inf)]
    if case["rlen"] < 2:
        return None
    return [(me, dict(epoch="same", release="pop,bump", pre=None, post=None, dev=0, local=()))]


def vshow(b):
    if not isinstance(b, dict):
        return str(b)
    return "{%s}" % ", ".join("%s:%s" % (f, b[f]) for f in FIELDS if b.get(f, "?") != "same")


def rshow(rs):
    return " or ".join("[%s, %s)" % (vshow(a), vshow(b)) for a, b in rs)


def rkey(r):
    return tuple(sorted((k, str(x)) for k, x in b.items()) if isinstance(b, dict) else str(b) for b in r).__repr__()


def desc(case):
    return "%d release segment%s%s%s%s%s" % (case["rlen"], "s" if case["rlen"] > 1 else "", ", pre %s" % case["pre"] if case["pre"] else "", ", post" if case["post"] else "", ", dev" if case["dev"] else "", ", local" if case["local"] else "")


def op_is(p, op):
    for t, v in p.facts.items():
        if isarg(bare(t), "self") and isinstance(v, tuple) and v[0] in ("v", "nv"):
            if v[0] == "v" and v[1] != op or v[0] == "nv" and op in v[1]:
                return False
    return True


def ranges(dom, p, t):
    """the list of half-open ranges a value is -> [(low, high)]"""
    items = []
    b = strip(t)
    while isC(b, "into_vec", "to_vec", "into", "from", "collect") and b.a[1]:
        b = strip(b.a[1][0])
    if b.tag == "Arr":
        items += list(b.a)
    elif not isC(b, "Vec::new", "Vec::with_capacity"):
        return None
    for m, a in history(t):
        if m.rsplit("::", 1)[-1] != "push":
            return None
        items.append(a[-1])
    out = []
    for x in items:
        x = strip(x)
        if x.tag != "A" or set(x.a[2]) != {"start", "end"}:
            return None
        r = []
        for f in ("start", "end"):
            d = dom.inner(x.a[3][x.a[2].index(f)])
            if d is None:
                return None
            if isinstance(d, dict) and "bump" in str(d["release"]) and bumped(p) != [1]:
                d = dict(d, release="?")
            r.append(d)
        out.append(tuple(r))
    return out


def quant(ctx, rule, label, fn, over, val, kind, inline=(), result=None, keep=None):
    """fn tells whether any (all) of what it iterates over satisfies a predicate: val(p) is what the path knows of the
    predicate's value for the element at hand"""
    result = result or (lambda p: p.val() if p.ok() else None)
    hit = kind == "any"
    after = []
    its = ctx.iterations(fn, over, inline=inline, after=after, keep=keep)
    if its:
        for q in its + after:
            lost = drops(ctx, q.over)
            ctx.ob(rule, [label, "whole"], not lost, "not everything is looked at: %s" % [x[0] for x in lost])
        for q in its:
            if q.end == "panic":
                ctx.fail(rule, [label, "panic"], "it panics at %s" % q.site)
            elif q.end == "next":
                ctx.ob(rule, [label, "each"], val(q) is (not hit), "an element is passed over: %s" % q.show()[:300])
            elif q.err():
                ctx.ob(rule, [label, "error"], val(q) is None, "an error although the element was looked at: %s" % q.show()[:300])
            else:
                r = result(q)
                ctx.ob(rule, [label, "settled"], r is not None and bval(q, r) is hit and val(q) is hit, "the answer %s is given after %s" % (r and show(r), q.show()[:300]))
        for q in after:
            r = result(q)
            ctx.ob(rule, [label, "end"], r is not None and bval(q, r) is (not hit), "when there is no more: %s" % q.show()[:300])
        return len(its)
    n = 0
    for p in ctx.paths(fn, inline=inline, keep=keep):
        r = result(p)
        if r is None:
            if p.end == "panic":
                ctx.fail(rule, [label, "panic"], "it panics at %s" % p.site)
            continue
        n += 1
        b = bval(p, r)
        ctx.ob(rule, [label, "whole"], not any(x.tag == "Thin" and x.a[0] != "rev" for t in p.facts for x in subset(t)), "not everything is looked at: %s" % p.show()[:300])
        ex = any(t.tag == "Exists" and over(t.a[0]) for t in p.facts)
        no = any(t.tag == "NoElem" and over(t.a[0]) for t in p.facts)
        if b is hit:
            ctx.ob(rule, [label, "found"], val(p) is hit and ex, "the answer %s without such an element: %s" % (b, p.show()[:300]))
        elif b is (not hit):
            ctx.ob(rule, [label, "none"], no or val(p) is (not hit) and not ex, "the answer %s is not about all elements: %s" % (b, p.show()[:300]))
        else:
            ctx.fail(rule, [label, "answer"], "the answer is %s" % show(r)[:200])
    return n


def boolfact(p, pred):
    """the truth value the path knows for a term satisfying pred"""
    for t, v in p.facts.items():
        if isinstance(v, bool) and pred(bare(t)):
            return v
        b = bare(t)
        if isinstance(v, bool) and b.tag == "Un" and b.a[0] == "Not" and pred(bare(b.a[1])):
            return not v
    return None


def op_table(ctx, rule):
    """operators are read from and written as their PEP 440 text"""
    fn = ctx.fn(r"<posy::vocab::specifier::CompareOp as std::convert::TryFrom<&str>>::try_from$")
    seen = set()
    for p in ctx.paths(fn):
        txt = [v[1] for t, v in p.facts.items() if isarg(unref(t), "value") and isinstance(v, tuple) and v[0] == "i"]
        if p.ok():
            v = bare(p.val())
            okk = len(txt) == 1 and v.tag == "A" and SYM.get(v.a[1]) == txt[0]
            seen.add(v.a[1] if v.tag == "A" else None)
            ctx.ob(rule, [fn.path, show(v)[:60]], okk, "%s is read as %s" % (txt, show(v)[:100]))
        elif p.err():
            ctx.ob(rule, [fn.path, "refused"], not any(x in SYM.values() for x in txt), "%s is refused" % txt)
    ctx.ob(rule, [fn.path, "all"], seen == set(OPS), "operators never read: %s" % sorted(set(OPS) - seen))
    fn = ctx.fn(r"<posy::vocab::specifier::CompareOp as std::fmt::Display>::fmt$")
    for op in OPS:
        n = 0
        for p in ctx.paths(fn):
            if not op_is(p, op) or p.end != "ret":
                continue
            for e in p.calls("write_fmt", "write_str", "write_char", "pad", "fmt"):
                n += 1
                txt = "".join(x if isinstance(x, str) else str(x.a[1]) if x.tag == "K" else "?" for x in fmt_pieces(unref(e.args[-1]))) if not isarg(e.args[-1], "f") else "".join(str(x.a[1]) for x in [unref(e.args[0])] if x.tag == "K")
                ctx.ob(rule, [fn.path, op], txt == SYM[op], "%s is written as %r" % (op, txt))
        ctx.ob(rule, [fn.path, op, "written"], n == 1, "%s is written %d times" % (op, n))


def p31(ctx):
    ctx.rule("operators", "every operator, with and without .*, admits the range of versions PEP 440 gives it, for every shape of version")
    ctx.rule("invalid", "specifiers PEP 440 forbids are refused, all others accepted")
    ctx.rule("next", "the bound after a version excludes everything above it (and its local variants)")
    ctx.rule("any", "a version satisfies a specifier when one of its ranges holds it, and a set of them when it satisfies each")
    ctx.rule("text", "the operator and version are those written; a trailing .* is the wildcard")
    fn = ctx.fn(r"CompareOp::to_ranges$")
    ps = ctx.paths(fn, inline=[r"Version::next$", r"Version::is_prerelease$"], interesting=lambda e: e.kind == "store" or e.is_("parse_version_wildcard"))

    def isv(t):
        t = strip(t)
        return fld(t, "0") is not None and okof(fld(t, "0"), "parse_version_wildcard") is not None

    def wildcard(t):
        t = bare(t)
        return fld(t, "1") is not None and okof(fld(t, "1"), "parse_version_wildcard") is not None
    n = 0
    for op in OPS:
        for wild in (False, True):
            for case in cases():
                dom = V(isv, case)
                want = expected(op, wild, case)
                found = 0
                for p in ps:
                    if any(wildcard(t) and v is not wild for t, v in p.facts.items()):
                        continue
                    if not any(okof(t, "parse_version_wildcard") is not None and v == ("v", "Ok") or isC(bare(t), "parse_version_wildcard") and v == ("v", "Ok") for t, v in p.facts.items()):
                        continue
                    if not op_is(p, op) or not holds(p, dom, case):
                        continue
                    found += 1
                    n += 1
                    tag = "%s%s" % (SYM[op], " .*" if wild else "")
                    if want is None:
                        ctx.ob("invalid", [fn.path, tag, "refused"], p.err(), "accepted for a version with %s" % desc(case))
                        continue
                    if not p.ok():
                        ctx.fail("invalid", [fn.path, tag, "accepted"], "%s for a version with %s" % ("refused" if p.err() else "panics at %s" % p.site, desc(case)))
                        continue
                    got = ranges(dom, p, p.val())
                    okk = got is not None and sorted(map(rkey, got)) == sorted(map(rkey, want))
                    ctx.ob("operators", [fn.path, tag], okk, "for a version with %s the range is %s, not %s" % (desc(case), rshow(got) if got else show(p.val())[:300], rshow(want)))
                ctx.ob("operators", [fn.path, SYM[op], "decided"], found >= 1, "no path is taken for a version with %s" % desc(case))
    ctx.floor("pairs of operator, version shape and path", n, 600)
    # the bound after a version
    fn = ctx.fn(r"vocab::version::Version::next$")
    n = 0
    for p in ctx.paths(fn):
        for case in cases():
            dom = V(lambda t: isarg(strip(t), "self"), case)
            if not holds(p, dom, case):
                continue
            n += 1
            got = dom.inner(p.v) if p.end == "ret" else None
            ctx.ob("next", [fn.path], got == successor(case), "after a version with %s comes %s, not %s" % (desc(case), vshow(got), vshow(successor(case))))
    ctx.floor("shapes of version with a successor", n, 96)
    bump = ctx.method("pubgrub::version::Version", r"version::Version", "bump")
    low = ctx.method("pubgrub::version::Version", r"version::Version", "lowest")
    for p in ctx.paths(bump):
        ctx.ob("next", [bump.path], p.end == "ret" and isC(unref(p.v), "Version::next") and isarg(unref(unref(p.v).a[1][0]), "self"), "bump is %s" % (p.v if p.end == "panic" else show(p.v)))
    for p in ctx.paths(low):
        v = unref(p.v)
        while isC(v, "to_owned", "clone"):
            v = unref(v.a[1][0])
        ctx.ob("next", [low.path], p.end == "ret" and any(x.tag == "Static" and x.a[0].endswith("VERSION_ZERO") for x in subset(v)), "the lowest version is %s" % show(p.v))
    # the ends of the line
    k = {"VERSION_ZERO": 0, "VERSION_INFINITY": 0}
    for f in ctx.p.fns.values():
        m = re.search(r"::(VERSION_(?:ZERO|INFINITY))::\{closure", f.path)
        if f.kind != "Closure" or not m:
            continue
        for p in ctx.paths(f):
            if p.end != "ret":
                continue
            k[m.group(1)] += 1
            if m.group(1) == "VERSION_ZERO":
                txt = {x.a[1] for x in subset(p.v) if is_k(x, "str")}
                ctx.ob("next", [m.group(1)], len(txt) == 1 and all(re.fullmatch(r"v?(0!)?0(\.0)*[-_.]?dev0?", x) for x in txt), "the lowest version is %s" % txt)
            else:
                st = [x for x in subset(p.v) if x.tag == "A" and set(FIELDS) <= set(x.a[2])]
                okk = len(st) == 1
                if okk:
                    g = dict(zip(st[0].a[2], st[0].a[3]))
                    rel = bare(g["release"])
                    okk = is_k(g["epoch"]) and g["epoch"].a[1] == MAX and rel.tag == "Arr" and len(rel.a) >= 1 and all(is_k(x) and x.a[1] == MAX for x in rel.a) and \
                        bare(g["pre"]).a[1] == "None" and bare(g["dev"]).a[1] == "None" and bare(g["post"]).a[1] == "Some" and bare(g["post"]).a[3][0].a[1] == MAX
                ctx.ob("next", [m.group(1)], okk, "the highest version is %s" % show(p.v)[:200])
    for x, c in k.items():
        ctx.floor(x, c, 1)
    # what is written
    fn = ctx.fn(r"parse_version_wildcard$")
    n = 0

    def suffix(t):
        t = bare(t)
        return isC(t, "strip_suffix", "ends_with", "split_at", "rsplit_once") and isarg(unref(t.a[1][0]), "input") and is_k(unref(t.a[1][1]), "str", ".*")

    def parsed(t, text):
        c = okof(t, "try_from", "try_into", "parse", "from_str", "Version::parse")
        return c is not None and text(c.a[1][0])
    for p in ctx.paths(fn):
        if not p.ok():
            continue
        n += 1
        v = bare(p.val())
        star = any(suffix(t) and x in (("v", "Some"), True) for t, x in p.facts.items())
        plain = any(suffix(t) and x in (("v", "None"), False) for t, x in p.facts.items())
        okk = v.tag == "Tup" and len(v.a) == 2 and (star or plain)
        if okk and star:
            okk = is_k(v.a[1], "bool", True) and parsed(v.a[0], lambda t: unref(t).tag == "P" and suffix(unref(t).a[0]))
        elif okk:
            okk = is_k(v.a[1], "bool", False) and parsed(v.a[0], lambda t: isarg(unref(t), "input"))
        ctx.ob("text", [fn.path], okk, "version and wildcard are %s when %s" % (show(p.val()), show_facts(p)))
    ctx.floor("ways to read a version", n, 2)
    fn = ctx.fn(r"specifier::Specifier::to_ranges$")
    for p in ctx.paths(fn):
        v = p.v if p.end == "ret" else None
        c = None
        if v is not None and not p.err():
            c = okof(mk("P", v, "Ok", "0"), "CompareOp::to_ranges") if v.tag == "C" else okof(p.val(), "CompareOp::to_ranges")
            ctx.ob("text", [fn.path], c is not None and argfield(unref(c.a[1][0]), "self", "op") and argfield(unref(c.a[1][1]), "self", "value"), "the ranges are %s" % show(p.v))
    op_table(ctx, "text")
    # any range / all specifiers
    fn = ctx.fn(r"specifier::Specifier::satisfied_by$")

    def rng(t):
        return any(isC(x, "to_ranges") and (isarg(unref(x.a[1][0]), "self") or argfield(unref(x.a[1][0]), "self", "op") and argfield(unref(x.a[1][1]), "self", "value")) for x in subset(bare(t)))
    quant(ctx, "any", fn.path, fn, rng, lambda p: boolfact(p, lambda b: isC(b, "contains") and bare(b.a[1][0]).tag == "Elem" and rng(b.a[1][0]) and isarg(unref(b.a[1][1]), "version")), "any")
    fn = ctx.fn(r"specifier::Specifiers::satisfied_by$")

    def spec(t):
        return any(argfield(x, "self", "0") for x in subset(bare(t)))
    quant(ctx, "any", fn.path, fn, spec, lambda p: boolfact(p, lambda b: okof(b, "Specifier::satisfied_by") is not None and bare(unref(okof(b, "Specifier::satisfied_by").a[1][0])).tag == "Elem" and
          spec(okof(b, "Specifier::satisfied_by").a[1][0]) and isarg(unref(okof(b, "Specifier::satisfied_by").a[1][1]), "version")), "all")


RULES = {"P31": [p31]}
