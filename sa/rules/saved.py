"""What is saved (blueprints, briefs, build-system tables) reads back as it was."""
import re
from rulelib import *
from rules.formats import isarg, argfield
from rules.envs import last, okof, fld, unref
from rules.builds import show_facts, last_name
from rules import names, filenames, grammar

KEEPS = ("Vec", "HashMap", "HashSet", "Option", "BTreeMap", "BTreeSet", "IndexMap", "Box", "Cow", "VecDeque")
SELF = lambda t: isarg(unref(t), "self")


def serde_fn(ctx, ty, which):
    """<T as Serialize>::serialize or <T as Deserialize>::deserialize"""
    tr = {"serialize": "Serialize", "deserialize": "Deserialize(<'de>)?"}[which]
    t = re.escape(ty) + r"(<'\w+>)?"
    fs = ctx.p.find(r"(<%s as serde::%s>|impl serde::%s for %s>)::%s$" % (t, tr, tr, t, which), derived=True)
    return fs[0] if len(fs) == 1 else None


def inner_fn(ctx, ty, visitor, name):
    t = re.escape(ty) + r"(<'\w+>)?"
    fs = ctx.p.find(r"(%s as serde::Deserialize(<'de>)?>|impl serde::Deserialize(<'de>)? for %s>)::deserialize::%s.* as serde::de::Visitor.*>::%s$" % (t, t, visitor, name), derived=True)
    return fs[0] if len(fs) == 1 else None


def written(ctx, ty, fn):
    """the ways one is written: (fields {key: term}, flattened [term], skipped {key}, path)"""
    out = []
    for p in ctx.paths(fn, inline=[r"_is_empty$|skip_serializing|resolve::\w*is_(none|default|all)\w*$"], pure=r"is_empty|is_none|is_some|eq|ne|len"):
        if p.end != "ret":
            ctx.fail("written", [ty], "writing one panics at %s" % p.site)
            continue
        v = strip(p.v)
        if v.tag == "A" and v.a[1] == "Err":
            continue
        fs, flat, skip = {}, [], set()
        bad = None
        for e in p.evs:
            if e.kind != "call" or last_name(e) in ("serialize_struct", "serialize_map", "end"):
                continue
            n = last_name(e)
            a = [unref(x) for x in e.args]
            if n in ("serialize_field", "serialize_entry") and len(a) == 3 and is_k(a[1], "str"):
                if a[1].a[1] in fs:
                    bad = "the key %r is written twice" % a[1].a[1]
                fs[a[1].a[1]] = a[2]
            elif n == "skip_field":
                skip.add(a[1].a[1])
            elif n == "serialize" and len(a) == 2 and a[1].tag == "A" and a[1].a[0].endswith("FlatMapSerializer"):
                flat.append(a[0])
        if not (v.tag == "C" and last(v) == "end") and not p.ok():
            bad = "what is given back is %s" % show(v)[:160]
        out.append((fs, flat, skip, p, bad))
    return out


def keys_read(ctx, ty):
    """{key: field marker}, and whether other keys are kept"""
    fn = inner_fn(ctx, ty, "__FieldVisitor", "visit_str")
    if fn is None:
        return None, None
    m, rest = {}, None
    for p in ctx.paths(fn):
        if not p.ok():
            continue
        v = strip(p.val())
        ks = [x for t, x in p.facts.items() if unref(t).tag == "Arg" and isinstance(x, tuple)]
        if v.tag == "A" and v.a[1].startswith("__field") and len(ks) == 1 and ks[0][0] == "i":
            m[ks[0][1]] = v.a[1]
        elif v.tag == "A" and v.a[1] in ("__ignore", "__other"):
            rest = v.a[1]
    return m, rest


def next_value(t):
    t = unref(t)
    c = okof(t, "next_value")
    return c is not None and unref(c.a[1][0]).tag == "Arg"


def missing(ctx, t, key, ty):
    """what a missing key gives: 'err', or the term"""
    t = unref(t)
    c = okof(t, "missing_field")
    if c is not None:
        return "none" if ty.startswith("std::option::Option<") else "err"
    return t


def read_back(ctx, ty, fields):
    """for each field: the markers that set it, and what it is when its key is missing; flattened fields"""
    fn = inner_fn(ctx, ty, "__Visitor", "visit_map")
    if fn is None:
        return None
    set_, miss, flat, err = {}, {}, set(), []
    for p in ctx.paths(fn):
        if p.end != "ret" or not p.ok():
            continue
        turns = [x[1] for t, x in p.facts.items() if isinstance(x, tuple) and x[0] == "v" and (str(x[1]).startswith("__field") or x[1] in ("__ignore", "__other"))]
        v = strip(p.val())
        if len(turns) > 1:
            continue
        m = turns[0] if turns else None
        if v.tag != "A" or v.a[0] != ty and not v.a[0].endswith(ty):
            err.append("reading gives %s" % show(v)[:160])
            continue
        for f, x in zip(v.a[2], v.a[3]):
            if history(x):
                err.append("%s is changed after it was read: %s" % (f, show(x)[:160]))
            y = strip(x)
            c = strip(y.a[0]) if y.tag == "P" and y.a[1] == "Ok" else None
            x = unref(x)
            if c is not None and isC(c, "deserialize") and strip(c.a[1][0]).tag == "A" and strip(c.a[1][0]).a[0].endswith("FlatMapDeserializer"):
                flat.add(f)
                src = strip(c.a[1][0]).a[3][0]
                kept = [a for mth, a in history(src) if mth.rsplit("::", 1)[-1] == "push"]
                if m == "__other":
                    ok_ = len(kept) == 1 and any(y.tag == "P" and y.a[1] == "__other" for y in subset(kept[0][0])) and any(next_value(y) for y in subset(kept[0][0]))
                    if not ok_:
                        err.append("other keys are given on as %s" % show(src)[:160])
                elif kept:
                    err.append("other keys are given on as %s" % show(src)[:160])
            elif next_value(x):
                set_.setdefault(m, set()).add(f)
            else:
                miss.setdefault(f, set()).add(x)
    # a marker that leaves the field as it is when missing does not set it
    return set_, miss, flat, err


def default_of(ctx, ty):
    """the value Default gives for a type of this crate"""
    fs = ctx.p.find(r"<%s as std::default::Default>::default$" % re.escape(ty), derived=True)
    vs = []
    for fn in fs:
        for p in ctx.paths(fn):
            if p.end == "ret":
                vs.append(strip(p.v))
    return vs[0] if len(vs) == 1 else None


def is_empty_value(t):
    t = unref(t)
    return t.tag == "C" and last(t) in ("new", "default") and not t.a[1] or t.tag == "Arr" and not t.a or is_k(t, "str", "")


def same_as(p, base, d, field=None):
    """the facts of a path say that base equals the default d"""
    d = unref(d)
    if is_empty_value(d):
        def isbase(x):
            return unref(x) == unref(base)
        for t, v in p.facts.items():
            t = unref(t)
            if v is True and t.tag == "C" and last(t) == "is_empty" and isbase(t.a[1][0]):
                return True
            if t.tag == "Bin" and t.a[0] in ("Eq",) and v is True and unref(t.a[1]).tag == "C" and last(unref(t.a[1])) == "len" and isbase(unref(t.a[1]).a[1][0]) and is_k(unref(t.a[2]), "int", 0):
                return True
            if isbase(t) and v == ("i", ""):
                return True
        return False
    if d.tag == "A":
        ok_ = any(unref(t) == unref(base) and v == ("v", d.a[1]) for t, v in p.facts.items()) or any(v is True and unref(t).tag == "C" and last(unref(t)) == "is_" + d.a[1].lower() and unref(unref(t).a[1][0]) == unref(base) for t, v in p.facts.items())
        return ok_ and all(same_as(p, mk("P", base, d.a[1], str(i)), x) for i, x in enumerate(d.a[3]))
    if d.tag == "K":
        return any(unref(t) == unref(base) and (v == d.a[1] or v == ("i", d.a[1])) for t, v in p.facts.items())
    return False


def struct(ctx, ty):
    short = ty.rsplit("::", 1)[-1]
    adt = ctx.p.adts[ty]
    fields = [(f["name"], ctx.p.ty(f["ty"])) for f in adt["variants"][0]["fields"]]
    fn = serde_fn(ctx, ty, "serialize")
    km, rest = keys_read(ctx, ty)
    rd = read_back(ctx, ty, fields)
    ctx.ob("written", [short, "form"], fn is not None and km is not None and rd is not None, "there is no field-wise writer and reader of one to be compared")
    if fn is None or km is None or rd is None:
        return
    set_, miss, flat, err = rd
    ctx.ob("read", [short], not err, "; ".join(sorted(set(err)))[:300])
    n = 0
    for fs, fl, skip, p, bad in written(ctx, ty, fn):
        n += 1
        ctx.ob("written", [short, "shape"], bad is None, bad or "")
        for f, fty in fields:
            ks = [k for k, x in fs.items() if value_of(ctx, x, f)]
            if f in flat:
                o = ctx.p.adts.get(fty)
                inside = keys_read(ctx, fty)[0] if o is not None else None
                ctx.ob("read", [short, f, "keys"], inside is not None and not set(inside) & set(km), "the keys of %s and its own are not told apart: %s" % (f, sorted(set(inside or ()) & set(km)) or "they are not known"))
                ctx.ob("written", [short, f], not ks and len([x for x in fl if argfield(x, "self", f)]) == 1, "%s is read from among the other keys, but written as %s" % (f, [show(x)[:60] for x in list(fs.values()) + fl]))
                ctx.ob("read", [short, f, "other keys"], rest == "__other", "the other keys are dropped")
                continue
            if any(argfield(x, "self", f) for x in fl):
                ctx.fail("read", [short, f], "%s is written among the other keys, but not read so" % f)
                continue
            if not ks:
                ms = miss.get(f, set())
                d = [missing(ctx, x, None, fty) for x in ms]
                okk = len(d) == 1 and d[0] != "err"
                if okk and d[0] == "none":
                    okk = any(argfield(unref(t), "self", f) and v == ("v", "None") for t, v in p.facts.items()) or any(v is True and isC(unref(t), "is_none") and argfield(unref(unref(t).a[1][0]), "self", f) for t, v in p.facts.items())
                elif okk:
                    x = d[0]
                    if isC(x, "default") and not x.a[1] and fty in ctx.p.adts:
                        x = default_of(ctx, fty)
                    elif x.tag == "F" and isC(unref(x.a[0]), "default"):
                        y = default_of(ctx, ty)
                        x = dict(zip(y.a[2], y.a[3])).get(f) if y is not None and y.tag == "A" else None
                    okk = x is not None and same_as(p, mk("F", mk("Arg", 1, "self"), f) if not base_of(fn, p, f) else base_of(fn, p, f), x)
                ctx.ob("written", [short, f, "left out"], okk, "%s is left out when %s, and then reads back as %s" % (f, show_facts(p)[:160], [show(x)[:80] if not isinstance(x, str) else x for x in d] or "nothing"))
                continue
            ctx.ob("written", [short, f], len(ks) == 1, "%s is written under %s" % (f, ks))
            for k in ks:
                mkr = km.get(k)
                got = set_.get(mkr, set())
                ctx.ob("read", [short, f, k], mkr is not None and got == {f}, "what is written of %s under %r is read %s" % (f, k, "as %s" % sorted(got) if got else "nowhere"))
        extra = set(fs) - {k for k, x in fs.items() if any(value_of(ctx, x, f) for f, _ in fields)}
        # (a constant under a key of its own is read back to nothing)
        ctx.ob("written", [short, "only fields"], not {k for k in extra if k in km}, "what is written under %s is not the field's own value: %s" % (sorted(k for k in extra if k in km), [show(fs[k])[:100] for k in sorted(extra) if k in km]))
    ctx.floor("ways to write a %s" % short, n, 1)


def base_of(fn, p, f):
    for t in p.facts:
        for x in subset(t):
            if argfield(unref(x), "self", f):
                return unref(x)
    return None


def value_of(ctx, x, f):
    """x is the field as it is, or what a function writes of all of it"""
    x = unref(x)
    if argfield(x, "self", f):
        return True
    if x.tag == "A" and x.a[0].rsplit("::", 1)[-1].startswith("__SerializeWith") and any(unref(y).tag == "Tup" and len(unref(y).a) == 1 and argfield(unref(y).a[0], "self", f) for y in x.a[3]):
        return whole_map(ctx, x)
    return False


def whole_map(ctx, x):
    """the function of serialize_with writes every entry of the map, its key displayed, its value as it is"""
    fs = ctx.p.find(re.escape(x.a[0]) + r"(<.*>)? as serde::Serialize>::serialize$", derived=True)
    if len(fs) != 1:
        return False
    fn = fs[0]
    good = 0
    for p in ctx.paths(fn):
        c = strip(p.v) if p.end == "ret" else None
        if c is None or c.tag != "C" or len(c.a[1]) != 2:
            return False
        inner = ctx.p.find(r"%s$" % re.escape(c.a[0] if "::" in c.a[0] else c.a[0]))
        inner = [g for g in ctx.p.find(r"(^|::)%s$" % re.escape(last(c)), derived=True)]
        if len(inner) != 1:
            return False
        g = inner[0]
        for q in ctx.paths(g):
            v = strip(q.v) if q.end == "ret" else None
            if v is None or v.tag == "A" and v.a[1] == "Err":
                if v is None:
                    return False
                continue
            if not entire(ctx, g, q, v):
                return False
            good += 1
    return good > 0


def pair_ok(ctx, t):
    """(the key displayed, the value) of one entry of the map"""
    t = unref(t)
    if t.tag != "Tup" or len(t.a) != 2:
        return False
    k, v = unref(t.a[0]), unref(t.a[1])
    while k.tag == "C" and last(k) in ("to_string", "to_owned", "into", "as_str", "from") and len(k.a[1]) == 1:
        k = unref(k.a[1][0])
    ps = fmt_pieces(k)
    if not (len(ps) == 1 and not isinstance(ps[0], str)):
        return False
    x = unref(ps[0].a[0]) if ps[0].tag == "Disp" else unref(ps[0])
    e = entry_side(x, 0)
    return e is not None and e == entry_side(v, 1)


def entry_side(t, i):
    """the iterator whose i-th side t is"""
    t = unref(t)
    while t.tag == "C" and last(t) in ("clone", "deref", "to_owned", "copied") and len(t.a[1]) == 1:
        t = unref(t.a[1][0])
    if t.tag == "F" and str(t.a[1]) == str(i) and unref(t.a[0]).tag in ("Elem", "C", "Arg", "Idx"):
        return unref(t.a[0])
    return None


def entire(ctx, g, q, v):
    """v: the serializer's collect_map (or entries one by one) over every entry of the function's argument"""
    if v.tag == "C" and last(v) == "collect_map":
        it = v.a[1][1]
        return whole_iter(ctx, it, g)
    if v.tag == "C" and last(v) == "end":
        return every_turn(ctx, g)
    return False


def whole_iter(ctx, it, g, mapped=False, depth=0):
    """an iterator gives every entry of the argument map once, as (displayed key, value)"""
    if depth > 8:
        return False
    for m, a in history(it):
        m = m.rsplit("::", 1)[-1]
        if m in ("push",):
            if not pair_ok(ctx, a[0]):
                return False
        elif m not in ("sort", "sort_unstable", "sort_by", "sort_unstable_by", "sort_by_key", "sort_unstable_by_key", "sort_by_cached_key", "reserve", "insert", "extend"):
            return False
        elif m == "insert" and not pair_ok(ctx, mk("Tup", *a)):
            return False
    t = strip(it)
    if t.tag == "Iter":
        k = t.a[0]
        if k == "map":
            fs = clofn(ctx, t.a[2])
            if len(fs) != 1:
                return False
            for p in ctx.paths(fs[0]):
                if p.end != "ret" or not closure_pair(ctx, fs[0], strip(p.v)):
                    return False
            return whole_iter(ctx, t.a[1], g, True, depth + 1)
        if k in ("src", "copied", "cloned", "rev", "by_ref", "into_iter", "iter"):
            return whole_iter(ctx, t.a[1], g, mapped, depth + 1)
        return False
    if t.tag == "C" and last(t) in ("collect", "iter", "into_iter", "to_vec", "from_iter", "sorted") and len(t.a[1]) >= 1:
        return whole_iter(ctx, t.a[1][0], g, mapped, depth + 1)
    if t.tag == "C" and last(t) in ("new",) and not t.a[1]:
        return every_turn(ctx, g)
    return t.tag == "Arg" and mapped


def every_turn(ctx, g):
    """each turn of the loop over the argument adds its entry"""
    def over(it):
        t = strip(it)
        while t.tag == "Iter" and t.a[0] in ("src", "copied", "cloned") or t.tag == "C" and last(t) in ("iter", "into_iter") and t.a[1]:
            t = strip(t.a[1] if t.tag == "Iter" else t.a[1][0])
        return t.tag == "Arg"
    its = ctx.iterations(g, over)
    return len(its) >= 1 and all(p.end not in ("panic",) and any(e.kind == "call" and last_name(e) in ("push", "insert", "serialize_entry") and pair_ok(ctx, e.args[1] if len(e.args) == 2 else mk("Tup", e.args[1], e.args[2])) for e in p.evs) for p in its)


def closure_pair(ctx, f, v):
    """the closure's (fmt(Disp(k)), v) of its own argument (k, v)"""
    t = unref(v)
    if t.tag != "Tup" or len(t.a) != 2:
        return False
    k, x = unref(t.a[0]), unref(t.a[1])
    while k.tag == "C" and last(k) in ("to_string", "to_owned", "into", "as_str", "from") and len(k.a[1]) == 1:
        k = unref(k.a[1][0])
    ps = fmt_pieces(k)
    if k.tag in ("Fmt",) or ps:
        if not (len(ps) == 1 and not isinstance(ps[0], str)):
            return False
        k = unref(ps[0].a[0]) if ps[0].tag == "Disp" else unref(ps[0])
    side = lambda y, i: y.tag == "F" and str(y.a[1]) == str(i) and unref(y.a[0]).tag == "Arg"
    while x.tag == "C" and last(x) in ("clone", "deref") and len(x.a[1]) == 1:
        x = unref(x.a[1][0])
    return side(k, 0) and side(x, 1)


def converted(ctx, ty):
    """an enum that is written as, and read from, a helper"""
    short = ty.rsplit("::", 1)[-1]
    fn, rf = serde_fn(ctx, ty, "serialize"), serde_fn(ctx, ty, "deserialize")
    ctx.ob("converted", [short, "form"], fn is not None and rf is not None, "there is no writer and reader of one")
    if fn is None or rf is None:
        return

    def calls_of(f, name):
        return [(t["f"]["k"]["f"]) for b in f.blocks if not b["c"] for t in [b["t"]] if t["t"] == "call" and t["f"].get("k") and t["f"]["k"].get("c") == "fn" and t["f"]["k"]["f"]["path"].rsplit("::", 1)[-1] == name]
    helper = None
    for c in calls_of(fn, "serialize"):
        helper = ctx.p.tyo(c["targs"][0]).get("p") if c.get("targs") else None
    rhelper = None
    for c in calls_of(rf, "deserialize"):
        rhelper = ctx.p.tyo(c["targs"][0]).get("p") if c.get("targs") else None
    okk = helper is not None and helper == rhelper and helper in ctx.p.adts
    for p in ctx.paths(fn):
        v = strip(p.v) if p.end == "ret" else None
        x = v.a[1][0] if v is not None and isC(v, "serialize") else None
        while x is not None and unref(x).tag == "C" and last(unref(x)) in ("into", "clone", "from", "to_owned") and len(unref(x).a[1]) == 1:
            x = unref(x).a[1][0]
        okk = okk and x is not None and (SELF(x) and not history(x))
    ctx.ob("converted", [short, "written"], okk, "one is written as %s, which is read as %s" % (helper, rhelper))
    if not okk:
        return
    into = ctx.p.find(r"<%s(<.*>)? as std::convert::From<%s>>::from$|<%s as std::convert::Into<%s(<.*>)?>>::into$" % (re.escape(helper), re.escape(ty), re.escape(ty), re.escape(helper)))
    back = ctx.p.find(r"<%s as std::convert::(Try)?From<%s(<.*>)?>>::(try_)?from$" % (re.escape(ty), re.escape(helper)))
    ctx.floor("ways to and from what a %s is written as" % short, min(len(into), len(back)), 1)
    if len(into) != 1 or len(back) != 1:
        return
    # what is read is exactly what the conversion gives
    nr = 0
    for p in ctx.paths(rf):
        if p.end == "ret" and not p.ok():
            continue
        nr += 1
        v = unref(p.val()) if p.ok() else None
        c = okof(v, "try_from", "try_into") if v is not None else None
        c = c if c is not None else v if v is not None and isC(v, "from", "into") else None
        ctx.ob("converted", [short, "read"], c is not None and okof(unref(c.a[1][0]), "deserialize") is not None and not history(p.val()), "what is read is %s" % (show(v)[:160] if v is not None else p.end))
    ctx.floor("ways to read a %s" % short, nr, 1)
    # the helper: each variant's payload as it is, and each form told apart
    hs, hd = serde_fn(ctx, helper, "serialize"), serde_fn(ctx, helper, "deserialize")
    variants = {v["name"]: [f["ty"] for f in v["fields"]] for v in ctx.p.adts[helper]["variants"]}
    forms = {}
    for n, fs in variants.items():
        forms[n] = form(ctx, fs[0]) if len(fs) == 1 else None
        for f in fs:
            ctx.ob("converted", [short, n, "owned"], ctx.p.tyo(f)["k"] != "ref", "the text of %s is borrowed from what is read, which a file or an escaped string cannot give" % n)
    ctx.ob("converted", [short, "forms"], None not in forms.values() and len(set(forms.values())) == len(forms), "the forms %s cannot be told apart" % forms)
    okk = hs is not None
    for p in ctx.paths(hs) if hs is not None else ():
        v = strip(p.v) if p.end == "ret" else None
        n = next((x[1] for t, x in p.facts.items() if SELF(t) and isinstance(x, tuple) and x[0] == "v"), None)
        a = unref(v.a[1][0]) if v is not None and isC(v, "serialize") else None
        okk = okk and a is not None and a.tag == "P" and SELF(a.a[0]) and a.a[1] == n
    ctx.ob("converted", [short, "payloads"], okk, "what is written of a %s is not its payload" % helper)
    tried = [ctx.p.ty(c["targs"][0]) for c in calls_of(hd, "deserialize")][1:] if hd is not None else []
    want = [ctx.p.ty(fs[0]) for fs in variants.values() if len(fs) == 1]
    ctx.ob("converted", [short, "tried"], sorted(tried) == sorted(want), "a %s is read as one of %s" % (helper, tried))
    # there and back
    seen = set()
    for p in ctx.paths(into[0]):
        if p.end != "ret":
            ctx.fail("converted", [short, "there"], "it panics")
            continue
        n = next((x[1] for t, x in p.facts.items() if unref(t).tag == "Arg" and isinstance(x, tuple) and x[0] == "v"), None)
        seen.add(n)
        h = p.v
        got = []
        for q in ctx.paths(back[0], args=[h]):
            if q.end == "ret":
                r = q.val() if q.ok() else q.v
                if contradicts(q):
                    continue
                got.append(strip(r))
            else:
                got.append(None)
        payload = [f for v in ctx.p.adts[ty]["variants"] if v["name"] == n for f in v["fields"]]
        okk = len(got) >= 1 and all(g is not None and g.tag == "A" and g.a[1] == n and len(g.a[3]) == len(payload) and all(unref(x).tag == "P" and unref(unref(x).a[0]).tag == "Arg" and unref(x).a[1] == n and unref(x).a[2] == str(i) and not history(x) for i, x in enumerate(g.a[3])) for g in got)
        ctx.ob("converted", [short, n, "there and back"], okk, "%s::%s is written as %s and reads back as %s" % (short, n, show(h)[:120], [show(g)[:120] if g is not None else "a panic" for g in got]))
    ctx.ob("converted", [short, "all variants"], seen == {v["name"] for v in ctx.p.adts[ty]["variants"]}, "only %s are written" % sorted(map(str, seen)))


def contradicts(q):
    """a fact about a constant that is not so"""
    for t, v in q.facts.items():
        t = unref(t)
        while t.tag == "C" and last(t) in ("into", "from", "as_ref", "as_str", "deref", "borrow") and len(t.a[1]) == 1:
            t = unref(t.a[1][0])
        if t.tag == "A" and t.a[1] in ("Borrowed", "Owned") and len(t.a[3]) == 1:
            t = unref(t.a[3][0])
        if is_k(t, "str") and isinstance(v, tuple):
            if v[0] == "i" and v[1] != t.a[1] or v[0] == "ni" and t.a[1] in v[1]:
                return True
    return False


def form(ctx, i):
    """the form of JSON a type is written in"""
    o = ctx.p.tyo(i)
    p = o.get("p", "")
    n = p.rsplit("::", 1)[-1]
    if n in ("Vec", "HashSet", "BTreeSet") or o["k"] in ("slice", "array", "tuple"):
        return "list"
    if n in ("HashMap", "BTreeMap", "IndexMap"):
        return "map"
    if o["s"] in ("bool",):
        return "bool"
    if n == "Option":
        return None
    if n == "Cow" or o["k"] == "ref":
        return form(ctx, o["a"][0]) if o.get("a") else "text" if "str" in o["s"] else None
    if o["s"] in ("str", "std::string::String"):
        return "text"
    if p in ctx.p.adts and text_form(ctx, p):
        return "text"
    return None


def text_form(ctx, ty):
    fn = serde_fn(ctx, ty, "serialize")
    if fn is None:
        return False
    ps = [p for p in ctx.paths(fn) if p.end == "ret"]
    return bool(ps) and all(isC(strip(p.v), "collect_str", "serialize_str") for p in ps)


TEXTS = {"PackageName", "Version", "Specifiers", "ArtifactHash", "PackageRequirement", "PythonRequirement", "UserRequirement", "StandaloneMarkerExpr"}


def as_text(ctx, ty):
    """a type that is written as the text it displays (or was given as), and read by its parser"""
    short = ty.rsplit("::", 1)[-1]
    fn = serde_fn(ctx, ty, "serialize")
    ctx.ob("texts", [short, "form"], fn is not None and short in TEXTS, "a %s is no text known to read back as it was" % short)
    if fn is None:
        return
    for p in ctx.paths(fn):
        v = strip(p.v) if p.end == "ret" else None
        a = unref(v.a[1][-1]) if v is not None and isC(v, "collect_str", "serialize_str") and len(v.a[1]) == 2 else None
        okk = a is not None and isC(v, "collect_str") and isarg(a, "self")
        if a is not None and not okk:
            ps = fmt_pieces(a)
            x = ps[0] if len(ps) == 1 and not isinstance(ps[0], str) else a
            x = unref(x.a[0]) if x.tag == "Disp" else unref(x)
            okk = isarg(x, "self") and not is_k(a, "str") or isC(x, "to_string") and isarg(unref(x.a[1][0]), "self") or short == "PackageName" and (isC(x, "as_given") and isarg(unref(x.a[1][0]), "self") or argfield(x, "self", "as_given"))
        ctx.ob("texts", [short, "written"], okk, "what is written is %s" % (show(v)[:160] if v is not None else p.end))
    names.conversions(ctx, "texts", ty)


def walk_type(ctx, i, done, what):
    o = ctx.p.tyo(i)
    p = o.get("p", "")
    n = p.rsplit("::", 1)[-1]
    if o["s"] in ("std::string::String", "bool", "str", "()") or re.match(r"[ui](8|16|32|64|128|size)$", o["s"]):
        return
    if o["k"] in ("tuple", "slice", "array"):
        for a in o.get("a", ()):
            walk_type(ctx, a, done, what)
        return
    if p in ctx.p.adts and ctx.p.adts[p].get("local"):
        if p in done:
            return
        done.add(p)
        reads_back(ctx, p, done)
        return
    if n in KEEPS:
        a = o.get("a", [])
        if n in ("HashMap", "BTreeMap", "IndexMap") and a:
            ctx.ob("texts", [what, "keys"], form(ctx, a[0]) == "text", "the keys of a map (%s) are no text" % ctx.p.ty(a[0]))
        for x in a:
            if ctx.p.tyo(x).get("p", "").rsplit("::", 1)[-1] not in ("RandomState", "Global"):
                walk_type(ctx, x, done, what)
        return
    ctx.fail("texts", [what, o["s"][:80]], "it is not known whether a %s reads back as it was" % o["s"][:120])


def reads_back(ctx, ty, done):
    adt = ctx.p.adts[ty]
    short = ty.rsplit("::", 1)[-1]
    if adt["kind"] == "enum":
        converted(ctx, ty)
        for v in adt["variants"]:
            for f in v["fields"]:
                walk_type(ctx, f["ty"], done, short)
        return
    if text_form(ctx, ty):
        as_text(ctx, ty)
        return
    fn = serde_fn(ctx, ty, "serialize")
    ps = [strip(p.v) for p in ctx.paths(fn) if p.end == "ret"] if fn is not None else []
    if len(ps) == 1 and isC(ps[0], "serialize_newtype_struct"):
        ctx.ob("written", [short], argfield(unref(ps[0].a[1][2]), "self", "0") and not history(ps[0].a[1][2]), "what is written is %s" % show(ps[0])[:160])
        g = inner_fn(ctx, ty, "__Visitor", "visit_newtype_struct")
        n = 0
        for p in ctx.paths(g) if g is not None else ():
            if p.ok():
                n += 1
                v = unref(p.val())
                ctx.ob("read", [short], v.tag == "A" and okof(unref(v.a[3][0]), "deserialize") is not None and not history(v.a[3][0]), "what is read is %s" % show(v)[:160])
        ctx.floor("ways to read a %s" % short, n, 1)
    elif fn is not None and len(ps) == 1 and isC(ps[0], "serialize"):
        # #[serde(transparent)]
        ctx.ob("written", [short], argfield(unref(ps[0].a[1][0]), "self", "0"), "what is written is %s" % show(ps[0])[:160])
        names.conversions(ctx, "read", ty, wraps=True)
    else:
        struct(ctx, ty)
    for f in adt["variants"][0]["fields"]:
        walk_type(ctx, f["ty"], done, short)


def p39(ctx):
    ctx.rule("written", "every field is written as it is under a key of its own, or left out only when a missing key reads back as its very value")
    ctx.rule("read", "each key that is written is read back into the field it was written from, as it is")
    ctx.rule("converted", "a value written by way of a helper type comes back as the same variant with the same payload, and the helper's forms can be told apart and owned")
    ctx.rule("texts", "what is written as text is its own display (or the text given), and read by its own parser")
    done = set()
    for root in ("resolve::Blueprint", "resolve::Brief"):
        ty = ctx.p.adt_named(root)
        ctx.ob("written", [root], ty is not None, "there is no %s" % root)
        if ty is not None and ty not in done:
            done.add(ty)
            reads_back(ctx, ty, done)
    ctx.floor("types that are saved", len(done), 14)


def p39_texts(ctx):
    filenames.hashes(ctx)
    grammar.pep508(ctx)
    grammar.writers(ctx)
    grammar.readers(ctx)


def p39_names(ctx):
    names.p32(ctx)


def p39_versions(ctx):
    names.p33(ctx)


RULES = {"P39": [p39, p39_names, p39_versions, p39_texts]}
