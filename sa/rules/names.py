"""Names and versions: when two are the same, and how they are read and written."""
import re
import terms, rx
from rulelib import *
from rules.formats import isarg, argfield
from rules.envs import last, okof, fld, unref
from rules.builds import show_facts

NAME = r"(?i-u)^([A-Z0-9]|[A-Z0-9][A-Z0-9._-]*[A-Z0-9])$"
ORD = ("Less", "Equal", "Greater")


def ordering(t, pair, c):
    """the Ordering a term stands for when the things compared are in the order c (-1, 0, 1); None: not known"""
    t = unref(t)
    if t.tag == "A" and t.a[1] in ORD:
        return ORD.index(t.a[1]) - 1
    if t.tag == "A" and t.a[1] == "Some":
        x = ordering(t.a[3][0], pair, c)
        return None if x is None else ("Some", x)
    if t.tag == "P" and t.a[1] == "Some":
        x = ordering(t.a[0], pair, c)
        return x[1] if isinstance(x, tuple) else None
    if t.tag == "C" and last(t) in ("cmp", "partial_cmp") and len(t.a[1]) == 2:
        s = pair(t.a[1][0], t.a[1][1])
        return None if s is None else s * c if last(t) == "cmp" else ("Some", s * c)
    if t.tag == "C" and last(t) == "reverse":
        x = ordering(t.a[1][0], pair, c)
        return None if x is None else -x
    return None


def truth(t, pair, c):
    t = bare(t)
    if t.tag == "K" and isinstance(t.a[1], bool):
        return t.a[1]
    if t.tag == "Un" and t.a[0] == "Not":
        x = truth(t.a[1], pair, c)
        return None if x is None else not x
    f = None
    if t.tag == "Bin":
        f, x, y = t.a[0].lower(), t.a[1], t.a[2]
    elif t.tag == "C" and len(t.a[1]) == 2:
        f, x, y = last(t), t.a[1][0], t.a[1][1]
    if f in ("eq", "ne", "lt", "le", "gt", "ge"):
        s = pair(x, y)
        if s is None:
            return None
        d = s * c
        return {"lt": d < 0, "le": d <= 0, "gt": d > 0, "ge": d >= 0, "eq": d == 0, "ne": d != 0}[f]
    return None


def possible(p, pair, c):
    for t, v in p.facts.items():
        if isinstance(v, bool):
            k = truth(t, pair, c)
            if k is not None and k is not v:
                return False
        elif isinstance(v, tuple) and v[0] in ("v", "nv"):
            k = ordering(t, pair, c)
            n = "Some" if isinstance(k, tuple) else ORD[k + 1] if k is not None else None
            if n is not None and ((n != v[1]) if v[0] == "v" else n in v[1]):
                return False
    return True


def identity(ctx, rule, ty, key):
    """equality, order and hash of a type are those of the key of its values"""
    def pair(x, y):
        return 1 if key(x, "self") and key(y, "other") else -1 if key(x, "other") and key(y, "self") else None
    short = ty.rsplit("::", 1)[-1]
    for trait, m, cases in (("PartialEq", "eq", (-1, 0, 1)), ("PartialEq", "ne", (-1, 0, 1)), ("PartialOrd", "partial_cmp", (-1, 0, 1)), ("Ord", "cmp", (-1, 0, 1)),
                            ("PartialOrd", "lt", (-1, 0, 1)), ("PartialOrd", "le", (-1, 0, 1)), ("PartialOrd", "gt", (-1, 0, 1)), ("PartialOrd", "ge", (-1, 0, 1))):
        fs = ctx.p.find(r"<%s as std::cmp::%s>::%s$" % (ty, trait, m), derived=True)
        for fn in fs:
            for p in ctx.paths(fn, inline=[r"%s as std::cmp::.*>::(cmp|partial_cmp|eq)$" % ty], pure=r"cmp|eq"):
                if p.end != "ret":
                    ctx.fail(rule, [short, m], "it panics at %s" % p.site)
                    continue
                for c in cases:
                    if not possible(p, pair, c):
                        continue
                    if m in ("cmp", "partial_cmp"):
                        got, want = ordering(p.v, pair, c), c if m == "cmp" else ("Some", c)
                    else:
                        got, want = truth(p.v, pair, c), {"eq": c == 0, "ne": c != 0, "lt": c < 0, "le": c <= 0, "gt": c > 0, "ge": c >= 0}[m]
                    ctx.ob(rule, [short, m], got is not None and got == want, "%s gives %s where it should be %s" % (m, show(p.v)[:200], want))
        if m == "eq":
            ctx.floor("%s's equality" % short, len(fs), 1)
    fs = ctx.p.find(r"<%s as std::hash::Hash>::hash$" % ty, derived=True)
    ctx.floor("%s's hash" % short, len(fs), 1)
    for fn in fs:
        for p in ctx.paths(fn):
            hs = [e for e in p.evs if e.kind == "call" and any(isarg(unref(a), "state") or isarg(unref(a), "__state") for a in e.args)]
            okk = len(hs) >= 1 and all(any(key(x, "self") for x in e.args) or e.is_("write", "write_u8", "write_str") and any(key(unref(x), "self") for a in e.args for x in subset(a)) for e in hs)
            ctx.ob(rule, [short, "hash"], okk, "what is hashed is %s" % [str(e)[:100] for e in hs])


def conversions(ctx, rule, ty, wraps=None, stored=True):
    """every way to make one from text is the one parser's"""
    short = ty.rsplit("::", 1)[-1]
    parse = lambda t, *names: isC(t, "try_from", "from_str", "try_into", "parse") and isarg(unref(t.a[1][0]), *names)
    n = 0
    for r in (r"<%s as std::str::FromStr>::from_str$", r"<%s as std::convert::TryFrom<std::string::String>>::try_from$"):
        for fn in ctx.p.find(r % ty, derived=True):
            n += 1
            for p in ctx.paths(fn):
                t = unref(p.v) if p.end == "ret" else None
                arg = fn.params[0] if hasattr(fn, "params") else "s"
                is_ = lambda t: t is not None and isC(t, "try_from", "from_str") and short in t.a[0] and unref(t.a[1][0]).tag == "Arg"
                okk = is_(t) or p.end == "ret" and (p.ok() and okof(unref(p.val()), "try_from", "from_str") is not None and is_(okof(unref(p.val()), "try_from", "from_str")) or p.err() and any(v == ("v", "Err") and is_(bare(x)) for x, v in p.facts.items()))
                ctx.ob(rule, [fn.path], okk, "text is read as %s" % (show(p.v)[:200] if p.end == "ret" else p.end))
    ctx.floor("ways to read a %s" % short, n, 1)
    # deserialisation
    def read(v):
        c = okof(v, "from_str", "try_from", "try_into", "parse")
        if c is None:
            return False
        x = unref(c.a[1][0])
        return x.tag == "Arg" or okof(x, "deserialize") is not None
    n = 0
    for fn in ctx.p.find(r"(%s as serde::Deserialize<'de>>|impl serde::Deserialize<'de> for %s>)::deserialize(::.*::visit_\w+)?$" % (ty, ty), derived=True):
        for p in ctx.paths(fn):
            t = unref(p.v) if p.end == "ret" else None
            if not p.ok():
                okk = t is not None and (p.err() or isC(t, "visit_str", "visit_string", "visit_borrowed_str", "from_str", "deserialize_str", "deserialize_string", "deserialize_newtype_struct"))
                ctx.ob(rule, [fn.path, "refused"], okk, "reading gives %s" % (show(p.v)[:200] if t is not None else p.end))
                continue
            v = unref(p.val())
            if okof(v, "visit_str", "visit_string", "visit_borrowed_str") is not None:
                continue
            n += 1
            okk = read(v)
            if wraps and v.tag == "A" and v.a[0].endswith(short):
                x = unref(v.a[3][0])
                okk = okof(x, "deserialize") is not None or read(x) or x.tag == "P" and x.a[1] == "Some" and any(okof(unref(x.a[0]), m) is not None for m in ("next_element",))
            ctx.ob(rule, [fn.path], okk, "what is read is %s" % show(v)[:200])
    ctx.floor("ways to deserialize a %s" % short, n, 1 if stored else 0)


def p32(ctx):
    ctx.rule("accepted", "exactly the names the specification allows are accepted")
    ctx.rule("normal", "the normal form has every run of separators replaced by one dash and is lower case")
    ctx.rule("same", "names are equal, ordered and hashed by their normal forms alone")
    ctx.rule("kept", "a name is written as it was given")
    PN, EX = "posy::vocab::package_name::PackageName", "posy::vocab::extra::Extra"
    fn = ctx.fn(r"<%s as std::convert::TryFrom<&str>>::try_from$" % PN)
    n = 0
    for p in ctx.paths(fn, pure=r"is_match|replace"):
        if p.end != "ret":
            ctx.fail("accepted", [fn.path, "panic"], "it panics at %s" % p.site)
            continue
        given = lambda t: unref(t).tag == "Arg"
        tests = [(bare(t), v) for t, v in p.facts.items() if isC(bare(t), "is_match") and given(bare(t).a[1][1])]
        okk = len(tests) == 1
        if okk:
            st = unref(tests[0][0].a[1][0])
            pat = ctx.static_regex(st.a[0]) if st.tag == "Static" else None
            try:
                r = rx.same(NAME, pat) if pat is not None else (False, None)
            except rx.Unsupported as e:
                r = (False, str(e))
            ctx.ob("accepted", [fn.path, "pattern"], r[0], "the names accepted are those of %r; it is wrong about %r" % (pat, r[1]))
        others = [t for t, v in p.facts.items() if not isC(bare(t), "is_match") and any(x.tag == "Arg" for x in subset(t))]
        ctx.ob("accepted", [fn.path], okk and tests[0][1] is p.ok() and (p.ok() or p.err()) and (p.ok() or not others), "a name is %s when %s" % ("accepted" if p.ok() else "refused", show_facts(p)[:300]))
        if p.ok():
            n += 1
            v = strip(p.val())
            f = dict(zip(v.a[2], v.a[3])) if v.tag == "A" and v.a[0].endswith("PackageName") else {}
            ctx.ob("kept", [fn.path], "as_given" in f and given(f["as_given"]) and not history(f["as_given"]), "the name kept is %s" % show(f.get("as_given", v))[:200])
            ctx.ob("normal", [fn.path], "normalized" in f and normal(ctx, f["normalized"], given), "the normal form is %s" % show(f.get("normalized", v))[:300])
    ctx.floor("names accepted", n, 1)
    made = {f.path for f, _ in constructions(ctx, "PackageName")}
    ctx.ob("same", ["PackageName", "made"], all(re.search(r"PackageName as std::convert::TryFrom<&str>>::try_from$", root_fn(ctx.p, f).path) or f.path not in base_fns() for f, _ in constructions(ctx, "PackageName")), "names are made in %s" % sorted(made))
    for m in ("as_given", "normalized"):
        g = ctx.fn(r"%s::%s$" % (PN, m))
        for p in ctx.paths(g):
            ctx.ob("kept" if m == "as_given" else "normal", [g.path], p.end == "ret" and argfield(unref(p.v), "self", m), "it gives %s" % (show(p.v)[:100] if p.end == "ret" else p.end))
        g = ctx.fn(r"%s::%s$" % (EX, m))
        for p in ctx.paths(g):
            t = unref(p.v) if p.end == "ret" else None
            ctx.ob("kept" if m == "as_given" else "normal", [g.path], t is not None and isC(t, "PackageName::" + m) and argfield(unref(t.a[1][0]), "self", "0"), "it gives %s" % (show(t)[:100] if t is not None else p.end))
    def key(t, a):
        t = unref(t)
        return argfield(t, a, "normalized") or isC(t, "PackageName::normalized") and isarg(unref(t.a[1][0]), a)

    def xkey(t, a):
        t = unref(t)
        return argfield(t, a, "0") or isC(t, "Extra::normalized") and isarg(unref(t.a[1][0]), a) or isC(t, "PackageName::normalized") and argfield(unref(t.a[1][0]), a, "0")
    identity(ctx, "same", PN, key)
    identity(ctx, "same", EX, xkey)
    conversions(ctx, "accepted", PN)
    conversions(ctx, "accepted", EX, wraps=True)
    fn = ctx.fn(r"<%s as std::convert::TryFrom<&str>>::try_from$" % EX)
    for p in ctx.paths(fn):
        inner = lambda t: isC(t, "try_from", "from_str", "parse", "try_into") and unref(t.a[1][0]).tag == "Arg"
        v = strip(p.val()) if p.ok() else None
        okk = v is not None and v.tag == "A" and v.a[0].endswith("Extra") and okof(unref(v.a[3][0]), "try_from", "from_str") is not None and inner(okof(unref(v.a[3][0]), "try_from", "from_str")) or p.err() and any(x == ("v", "Err") and inner(bare(t)) for t, x in p.facts.items())
        ctx.ob("accepted", [fn.path], okk, "an extra is %s" % (show(p.v)[:200] if p.end == "ret" else p.end))
    for ty, ok_ in ((PN, lambda t: isC(t, "as_given") and isarg(unref(t.a[1][0]), "self") or argfield(t, "self", "as_given")), (EX, lambda t: argfield(t, "self", "0") or isC(t, "as_given"))):
        fs = ctx.p.find(r"<%s as serde::Serialize>::serialize$|impl serde::Serialize for %s>::serialize$" % (ty, ty), derived=True)
        ctx.floor("ways to serialize a %s" % ty.rsplit("::", 1)[-1], len(fs), 1)
        for fn in fs:
            for p in ctx.paths(fn):
                ev = [e for e in p.evs if e.kind == "call" and e.is_("serialize_str", "collect_str", "serialize_newtype_struct", "serialize")]
                ctx.ob("kept", [fn.path], len(ev) == 1 and ok_(unref(ev[0].args[-1])) or len(ev) == 1 and ok_(unref(ev[0].args[0])), "what is written is %s" % [str(e)[:200] for e in ev])


def normal(ctx, t, given):
    """the term is the name with runs of separators made one dash, in lower case"""
    seps = lower = 0
    while True:
        h = history(t)
        for m, ar in h:
            if last_seg(m) in ("make_ascii_lowercase",):
                lower += 1
            else:
                return False
        t = unref(t)
        if t.tag == "Arg":
            return given(t) and seps == 1 and lower >= 1
        if isC(t, "to_lowercase", "to_ascii_lowercase"):
            lower += 1
            t = t.a[1][0]
        elif isC(t, "replace_all", "Regex::replace_all") and len(t.a[1]) == 3:
            st = unref(t.a[1][0])
            pat = ctx.static_regex(st.a[0]) if st.tag == "Static" else None
            try:
                cs = rx.only_class(pat) if pat is not None else None
            except rx.Unsupported:
                cs = None
            if cs != frozenset("-_.") or not is_k(unref(t.a[1][2]), None, "-"):
                return False
            seps += 1
            t = t.a[1][1]
        elif isC(t, "to_string", "to_owned", "into_owned", "into", "from", "as_str", "as_ref", "borrow", "deref", "clone", "String::from") and len(t.a[1]) == 1:
            t = t.a[1][0]
        else:
            return False


def last_seg(m):
    return str(m).rsplit("::", 1)[-1]


def p33(ctx):
    ctx.rule("read", "a version is read by the PEP 440 parser from its whole text, or refused")
    ctx.rule("same", "versions are equal, ordered and hashed as PEP 440 has it")
    ctx.rule("written", "a version is written in PEP 440's normal form")
    VE = "posy::vocab::version::Version"
    fn = ctx.fn(r"<%s as std::convert::TryFrom<&str>>::try_from$" % VE)
    n = 0
    for p in ctx.paths(fn, pure=r"parse"):
        pa = lambda t: isC(bare(t), "parse", "from_str") and "pep440" in bare(t).a[0] and unref(bare(t).a[1][0]).tag == "Arg"
        t = unref(p.v) if p.end == "ret" else None
        if t is not None and isC(t, "ok_or_else", "ok_or"):
            t2 = unref(t.a[1][0])
            ctx.ob("read", [fn.path], t2.tag == "A" or False, "a version is %s" % show(t)[:200])
            continue
        v = strip(p.val()) if p.ok() else None
        if v is not None:
            n += 1
            x = unref(v.a[3][0]) if v.tag == "A" and v.a[0].endswith("Version") and len(v.a[3]) == 1 else None
            ctx.ob("read", [fn.path], x is not None and not any(y.tag in ("Acc", "Upd") for y in subset(p.val())) and x.tag == "P" and x.a[1] in ("Some", "Ok") and pa(x.a[0]), "a version is %s" % show(v)[:200])
        else:
            k = [x for t, x in p.facts.items() if pa(t)]
            ctx.ob("read", [fn.path, "refused"], p.err() and k in ([("v", "None")], [("v", "Err")]), "a version is refused when %s" % show_facts(p)[:200])
    ctx.floor("versions read", n, 1)
    conversions(ctx, "read", VE)
    identity(ctx, "same", VE, lambda t, a: argfield(unref(t), a, "0"))
    fn = ctx.fn(r"<%s as std::fmt::Display>::fmt$" % VE, derived=True)
    n = 0
    for p in ctx.paths(fn):
        for e in p.evs:
            if e.kind != "call" or not any(isarg(unref(a), "f") for a in e.args):
                continue
            n += 1
            a = [unref(x) for x in e.args if not isarg(unref(x), "f")]
            okk = len(a) == 1
            if okk:
                ps = fmt_pieces(a[0])
                okk = len(ps) == 1 and not isinstance(ps[0], str) and zero(ps[0])
            ctx.ob("written", [fn.path], okk and p.end == "ret", "a version is written as %s" % [show(x)[:100] for x in a])
        ctx.ob("written", [fn.path, "once"], len([e for e in p.evs if e.kind == "call" and any(isarg(unref(a), "f") for a in e.args)]) == 1, "a version is written in pieces: %s" % p.show()[:200])
    ctx.floor("versions written", n, 1)
    fs = ctx.p.find(r"<%s as serde::Serialize>::serialize$|impl serde::Serialize for %s>::serialize$" % (VE, VE), derived=True)
    ctx.floor("ways to serialize a Version", len(fs), 1)
    for fn in fs:
        for p in ctx.paths(fn):
            ev = [e for e in p.evs if e.kind == "call" and e.is_("serialize_str", "collect_str")]
            okk = len(ev) == 1
            if okk:
                x = unref(ev[0].args[-1])
                ps = fmt_pieces(x)
                okk = isarg(x, "self") or zero(x) or len(ps) == 1 and not isinstance(ps[0], str) and (zero(ps[0]) or isarg(unref(ps[0].a[0]) if ps[0].tag in ("Disp",) else unref(ps[0]), "self"))
            ctx.ob("written", [fn.path], okk, "what is written is %s" % [str(e)[:200] for e in ev])


def zero(t):
    """the version within self, displayed"""
    t = unref(t)
    while t.tag == "Disp" or t.tag == "C" and last(t) in ("to_string", "normalize", "as_str") and len(t.a[1]) == 1:
        t = unref(t.a[0] if t.tag == "Disp" else t.a[1][0])
    return argfield(t, "self", "0")


RULES = {"P32": [p32], "P33": [p33]}
