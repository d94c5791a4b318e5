"""Resolution: which versions are candidates and in which order, how requirements become constraints, what is pinned."""
import functools, re
import terms
from rulelib import *
from rules.formats import isarg, argfield
from rules.envs import last, okof, fld, unref
from rules.specs import boolfact
from rules.builds import show_facts

MUTATORS = set("""push push_back push_front push_str insert insert_full insert_mut extend append remove remove_entry clear retain drain pop pop_front
 pop_back truncate swap_remove shift_remove swap split_off dedup dedup_by dedup_by_key entry or_insert or_insert_with or_default
 get_or_insert get_or_insert_with take replace resize fill set get_mut iter_mut values_mut""".split())
HIST = ("At", "Done", "NoElem", "Exists")


def isrc(t, keys=True):
    """what an iterator goes over"""
    t = bare(t)
    while t.tag in ("Iter", "Thin") and isinstance(t.a[1], T) or keys and isC(t, "keys", "into_keys") and len(t.a[1]) == 1:
        t = bare(t.a[1] if t.tag in ("Iter", "Thin") else t.a[1][0])
    return t


def lossy(ctx, t):
    """elements get lost on the way into t"""
    return [x for y in subset(t) if y.tag == "Iter" for x in drops(ctx, y)] + [y for y in subset(t) if y.tag == "Thin" and y.a[0] != "rev"]


def some(t, *names):
    """the payload x of x?Some / x?Ok (or of named variants)"""
    t = bare(t)
    return bare(t.a[0]) if t.tag == "P" and t.a[1] in (names or ("Some", "Ok")) else None


# ---------------------------------------------------------------------------- candidate versions
def listing(t):
    c = okof(t, "available_artifacts")
    return c is not None and isarg(c.a[1][0], "db") and isarg(unref(c.a[1][1]), "package")


def ver(t):
    t = bare(t)
    return t.tag == "Elem" and listing(isrc(t.a[0]))


def version(t):
    t = unref(t)
    if t.tag == "Elem" and any(isC(x, "keys", "into_keys") for x in subset(t.a[0])):
        return listing(isrc(t.a[0]))
    x = fld(t, "0")
    return x is not None and ver(x)


def file_(t):
    t = bare(t)
    if t.tag != "Elem":
        return False
    x = fld(isrc(t.a[0]), "1")
    return x is not None and ver(x)


def of_file(t, *names):
    """a field of the file at hand"""
    t = unref(t)
    for n in reversed(names):
        t = fld(t, n)
        if t is None:
            return False
        t = unref(t)
    return file_(t)


def hint_get(t):
    t = bare(t)
    return isC(t, "get") and argfield(t.a[1][0], "hints", "0") and isarg(unref(t.a[1][1]), "package")


def hinted(t, i):
    """the hint's version (0) or hashes (1)"""
    x = fld(unref(t), str(i))
    return x is not None and some(unref(x), "Some") is not None and hint_get(some(unref(x), "Some"))


def fact_of(q, pred):
    for t, v in q.facts.items():
        if t.tag not in HIST and pred(bare(t)):
            return v
    return None


def opt(q, pred):
    """Some/None as the path knows it of a term"""
    v = fact_of(q, pred)
    if v in (("v", "Some"), ("v", "None")):
        return v[1]
    if isinstance(v, tuple) and v[0] == "nv":
        return "None" if "Some" in v[1] else "Some"
    if v is None:
        for t, x in q.facts.items():
            b = bare(t)
            if isinstance(x, bool) and isC(b, "is_some", "is_none") and pred(unref(b.a[1][0])):
                return "Some" if x == (last(b) == "is_some") else "None"
    return None


def tri_or(*xs):
    return True if any(x is True for x in xs) else False if all(x is False for x in xs) else None


def yank_ok(q):
    y = fact_of(q, lambda t: of_file(t, "yanked", "yanked"))
    if y is False:
        return True
    if y is None:
        return None
    c = fact_of(q, lambda t: isC(t, "contains") and hinted(t.a[1][0], 1) and some(unref(t.a[1][1]), "Some") is not None and of_file(some(unref(t.a[1][1]), "Some"), "hash"))
    if isinstance(c, bool):
        return c
    if opt(q, hint_get) == "None" or opt(q, lambda t: of_file(t, "hash")) == "None":
        return False
    return None


def py_ok(q):
    if opt(q, lambda t: isarg(t, "python_version")) == "None" or opt(q, lambda t: of_file(t, "requires_python")) == "None":
        return True

    def sat(t):
        c = okof(t, "Specifiers::satisfied_by")
        if c is None or some(unref(c.a[1][1]), "Some") is None or not isarg(some(unref(c.a[1][1]), "Some"), "python_version"):
            return False
        s = okof(unref(c.a[1][0]), "from_str", "parse", "try_from", "try_into")
        return s is not None and some(unref(s.a[1][0]), "Some") is not None and of_file(some(unref(s.a[1][0]), "Some"), "requires_python")
    v = fact_of(q, sat)
    return v if isinstance(v, bool) else None


def is_pre(t):
    t = bare(t)
    return isC(t, "Version::is_prerelease") and version(t.a[1][0])


def here(q, t):
    """t is about the element the loop is at, not one of a loop before"""
    o = bare(q.over)
    return all(isrc(x.a[0], False) is isrc(o, False) or x in subset(o) for x in subset(t) if x.tag == "Elem")


def clash(q, p):
    """p, about another element, cannot happen where q does"""
    f = {bare(t): v for t, v in p.facts.items() if isinstance(v, bool) and not any(x.tag == "Elem" for x in subset(t))}
    return any(isinstance(v, bool) and f.get(bare(t), v) != v for t, v in q.facts.items())


def past_pre(t):
    t = bare(t)
    return isC(t, "Version::is_prerelease") and any(x.tag == "Past" for x in subset(t))


def all_pre(q):
    """the path has found all (True) or not all (False) of the package's versions to be prereleases"""
    if any(t.tag == "NoElem" and listing(isrc(t.a[0])) for t in q.facts):
        return True
    done, no, yes = set(), set(), set()
    for t, v in q.facts.items():
        if t.tag == "Done" and listing(isrc(t.a[0])) and not any(x.tag == "Thin" for x in subset(t.a[0])):
            done.add(t.a[1])
        elif past_pre(t):
            site = [x.a[1] for x in subset(t) if x.tag == "Past" and listing(isrc(x.a[0]))]
            for s in site:
                (yes if v is True else no).add(s)
    if no:
        return False
    return True if done else None


def allowed(q):
    v = boolfact(q, lambda t: isC(t, "allow_pre_for") and argfield(t.a[1][0], "brief", "allow_pre") and isarg(unref(t.a[1][1]), "package"))
    return v


def pre_ok(q):
    v = boolfact(q, lambda t: is_pre(t) and here(q, t))
    return tri_or(None if v is None else not v, allowed(q), all_pre(q))


def cand(ctx, pid):
    fn = ctx.fn(r"resolve::fetch_and_sort_versions$")
    after, between = [], []
    over = lambda t: any(listing(x) for x in subset(t))
    keep = lambda t: is_pre(t) or hint_get(bare(t)) or isC(bare(t), "allow_pre_for") or of_file(bare(t), "yanked", "yanked")
    its = ctx.iterations(fn, over, past=lambda t: isC(bare(t), "is_prerelease"), after=after, between=between, old=True, pure=r"is_prerelease|allow_pre_for|HashMap::get|available_artifacts",
                         across=lambda t: t.tag == "Arg" or is_pre(t) or isC(bare(t), "allow_pre_for") or hint_get(bare(t)),
                         interesting=lambda e: e.kind == "call" and (name_is(e.name, "push") or last_mut(e)), keep=lambda t: not isC(bare(t), "max_level"))
    rules = {"P23": [("yanked", "yanked", yank_ok)], "P24": [("prerelease", "a prerelease", pre_ok)], "P25": [("requires-python", "for another Python", py_ok)]}[pid]

    def pushes(q):
        return [e for e in q.evs if e.kind == "call" and e.is_("push", "push_back", "insert") and any(version(x) for x in e.args[1:])]

    def considered(q):
        """what the path looked at before it passed something over"""
        s = set()
        if fact_of(q, lambda t: of_file(t, "yanked", "yanked")) is True:
            s.add("P23")
        if boolfact(q, is_pre) is True:
            s.add("P24")
        if opt(q, lambda t: of_file(t, "requires_python")) == "Some" and opt(q, lambda t: isarg(t, "python_version")) == "Some":
            s.add("P25")
        return s
    sites = {v for q in its + between if pushes(q) for t, v in q.facts.items() if t.tag == "At" and listing(isrc(t.a[0]))}
    n = nb = 0
    for q in its + between:
        inner = fld(isrc(q.over), "1") is not None
        if not (any(v in sites for t, v in q.facts.items() if t.tag == "At" and listing(isrc(t.a[0]))) if inner else q.site0 in sites):
            continue
        if q.end == "panic":
            continue
        ended = q in between
        lost = [x for x in drops(ctx, q.over) if not (x[1] and clash(q, x[1])) and not (x[1] and boolfact(x[1], is_pre) is True and tri_or(allowed(q), allowed(x[1]), all_pre(q)) is not True and False in (all_pre(q), allowed(q)))]
        ctx.ob(rules[0][0], [fn.path, "whole"], not lost, "not everything is looked at: %s" % [x[0] for x in lost])
        into_inner = q.into is not None and fld(isrc(q.into), "1") is not None
        ps = pushes(q)
        nofile = any(t.tag == "NoElem" and fld(isrc(t.a[0]), "1") is not None for t in q.facts)
        if ps:
            n += 1
            for r, what, okf in rules:
                okk = okf(q) is True and (not ended or pid == "P24") and not nofile
                ctx.ob(r, [fn.path, "candidate"], okk, "a version is made a candidate %s: %s" % ("without any file looked at" if ended or nofile else "although it may be %s" % what, show_facts(q)))
        elif q.end == "next" and not ended and not (not inner and into_inner):
            # a file or a version is passed over
            nb += 1
            bad = [okf(q) is False for okf in ((pre_ok,) if inner and q.left_early() else (yank_ok, py_ok, pre_ok))]
            if not any(bad) and not nofile:
                s = considered(q)
                if pid in s or not s:
                    ctx.fail(rules[0][0], [fn.path, "passed over"], "a usable %s is passed over: %s" % ("file" if inner else "version", show_facts(q)))
            else:
                ctx.ob(rules[0][0], [fn.path, "passed over"], True)
    ctx.floor("ways a version becomes a candidate", n, 2)
    ctx.floor("ways a file is passed over", nb, 2)
    for q in after:
        if q.end == "ret" and not q.err():
            ctx.ob(rules[0][0], [fn.path, "nothing added"], not pushes(q), "a version is added after all were looked at: %s" % q.show()[:200])
    return after


def last_mut(e):
    return e.name.rsplit("::", 1)[-1] in MUTATORS or e.name.rsplit("::", 1)[-1].startswith("sort")


def p23(ctx):
    ctx.rule("yanked", "a version whose files are all yanked is a candidate only for a hint that has the hash of one of them")
    cand(ctx, "P23")
    hints(ctx, "yanked")


def hints(ctx, rule):
    """the hints are the blueprint's pins: their versions and hashes under their names"""
    fn = ctx.fn(r"VersionHints.*::add_pinned$")
    n = 0
    for p in ctx.paths(fn):
        if p.end != "ret":
            continue
        for e in p.calls("insert"):
            n += 1
            v = bare(e.args[2])
            okk = argfield(e.args[0], "self", "0") and argfield(unref(e.args[1]), "pin", "name") and v.tag == "Tup" and len(v.a) == 2 and argfield(unref(v.a[0]), "pin", "version") and not lossy(ctx, strip(e.args[2]))
            if okk:
                src = [x for x in subset(v.a[1]) if argfield(x, "pin", "hashes")]
                okk = bool(src) and not any(x.tag == "Thin" for x in subset(v.a[1]))
                el = [y for x in subset(e.args[2]) if x.tag == "Acc" for m, ar in x.a[1] for y in ar]
                okk = okk and all(bare(unref(y)).tag == "Elem" and argfield(isrc(unref(y).a[0]), "pin", "hashes") for y in el)
            ctx.ob(rule, [fn.path], okk, "the hint recorded is %s" % e)
        ctx.ob(rule, [fn.path, "recorded"], len(p.calls("insert")) == 1, "a pin is not recorded: %s" % p.show()[:200])
    ctx.floor("hints recorded", n, 1)
    fn = ctx.fn(r"VersionHints.*::from$")
    over = lambda t: argfield(isrc(t), "blueprint", "wheels")

    def adds(e, pred):
        return e.kind == "call" and e.is_("add_pinned") and pred(unref(e.args[1]))
    wheel = lambda t: fld(t, "0") is not None and bare(fld(t, "0")).tag == "Elem" and argfield(isrc(fld(t, "0").a[0]), "blueprint", "wheels")
    its = ctx.iterations(fn, over)
    for q in its:
        ctx.ob(rule, [fn.path, "wheels"], q.end == "next" and any(adds(e, wheel) for e in q.evs) and not drops(ctx, q.over), "a wheel's pin is no hint: %s" % q.show()[:300])
    ctx.floor("wheels' pins", len(its), 1)
    for p in ctx.paths(fn):
        if p.end == "ret":
            ctx.ob(rule, [fn.path, "pybi"], any(adds(e, lambda t: argfield(t, "blueprint", "pybi")) for e in p.evs), "the pybi's pin is no hint: %s" % p.show()[:300])
    fn = ctx.fn(r"resolve::Brief::resolve$")
    n = 0
    for e, p in like_calls(ctx, fn):
        if len(e.args) < 4:
            continue
        n += 1
        v = strip(e.args[3])
        like = opt(p, lambda t: isarg(t, "like"))
        if isC(v, "VersionHints::from"):
            okk = some(unref(v.a[1][0]), "Some") is not None and isarg(some(unref(v.a[1][0]), "Some"), "like")
        else:
            okk = like == "None" and isC(v, "VersionHints::new")
        ctx.ob(rule, [fn.path, e.name], okk, "%s is given the hints %s" % (e.name, show(v)))
    ctx.floor("uses of the hints", n, 2)


def like_calls(ctx, fn):
    out, seen = [], set()
    for p in ctx.paths(fn, keep=lambda t: isarg(bare(t), "like"), interesting=lambda e: e.kind == "call" and e.is_("resolve_pybi", "resolve_wheels", "VersionHints::from", "VersionHints::new"), pure=r"VersionHints"):
        for e in p.calls("resolve_pybi", "resolve_wheels"):
            k = (e.key(), opt(p, lambda t: isarg(t, "like")))
            if k not in seen:
                seen.add(k)
                out.append((e, p))
    return out


def p24(ctx):
    ctx.rule("prerelease", "a prerelease is a candidate only if prereleases of the package are allowed or it has nothing else")
    cand(ctx, "P24")
    fn = ctx.fn(r"resolve::AllowPre::allow_pre_for$")
    seen = set()
    for p in ctx.paths(fn):
        k = fact_of(p, lambda t: isarg(t, "self"))
        k = k[1] if isinstance(k, tuple) and k[0] == "v" else None
        seen.add(k)
        v = bare(p.v) if p.end == "ret" else None
        c = [t for t in ([v] if v is not None else []) + [bare(x) for x in p.facts] if isC(t, "contains") and some(t.a[1][0], "Some") is not None and isarg(some(t.a[1][0], "Some"), "self") and isarg(unref(t.a[1][1]), "package")]
        if k == "All":
            okk = v is not None and is_k(v, "bool", True)
        elif k == "Some":
            okk = v is not None and bool(c) and (v is c[0] or bval(p, v) is not None and bval(p, v) == boolfact(p, lambda t: t is c[0]))
        else:
            okk = False
        ctx.ob("prerelease", [fn.path, k], okk, "prereleases are allowed: %s when %s" % (show(v) if v is not None else "panic", show_facts(p)))
    ctx.ob("prerelease", [fn.path, "all"], seen == {"All", "Some"}, "not told apart: %s" % seen)
    fn = ctx.fn(r"version::Version::is_prerelease$")
    for p in ctx.paths(fn):
        if p.end != "ret":
            continue
        k = {}
        for f in ("pre", "dev"):
            k[f] = opt(p, lambda t: argfield(t, "self", "0", f))
        v = bval(p, p.v)
        b = bare(p.v)
        if v is None and isC(b, "is_some") and len(b.a[1]) == 1:
            f = [x for x in ("pre", "dev") if argfield(unref(b.a[1][0]), "self", "0", x)]
            other = {"pre": "dev", "dev": "pre"}[f[0]] if f else None
            okk = bool(f) and k[other] == "None"
        else:
            want = tri_or(*[None if x is None else x == "Some" for x in k.values()])
            okk = v is not None and want is v
        ctx.ob("prerelease", [fn.path], okk, "a version is a prerelease: %s when %s" % (show(p.v), show_facts(p)))
    serde_allow(ctx)


def serde_allow(ctx):
    """what a brief says of prereleases is read as it was written"""
    fn = ctx.fn(r"resolve::AllowPre as std::convert::TryFrom<.*AllowPreSerdeHelper.*>>::try_from$")
    seen = set()
    for p in ctx.paths(fn):
        k = fact_of(p, lambda t: isarg(t, "value"))
        k = k[1] if isinstance(k, tuple) and k[0] == "v" else None
        allv = [v == ("i", ":all:") or v is True and t.tag == "Bin" and t.a[0] == "Eq" and any(is_k(strip(x), "str", ":all:") for x in t.a[1:]) for t, v in p.facts.items() if any(some(x, "Other") is not None and isarg(some(x, "Other"), "value") for x in subset(bare(t))) and not (isinstance(v, tuple) and v[0] == "v")]
        if p.ok():
            v = bare(p.val())
            seen.add(v.a[1] if v.tag == "A" else None)
            okk = v.tag == "A" and (v.a[1] == "Some" and k == "Some" and some(unref(v.a[3][0]), "Some") is not None and isarg(some(unref(v.a[3][0]), "Some"), "value") or v.a[1] == "All" and k == "Other" and allv == [True])
            ctx.ob("prerelease", [fn.path], okk, "read as %s when %s" % (show(v), show_facts(p)))
        elif p.err():
            ctx.ob("prerelease", [fn.path, "refused"], k == "Other" and allv != [True], "refused when %s" % show_facts(p))
    ctx.ob("prerelease", [fn.path, "all"], seen == {"Some", "All"}, "read: %s" % seen)


def p25(ctx):
    ctx.rule("requires-python", "a version is used only if the resolved Python satisfies its file's and its metadata's requires-python")
    cand(ctx, "P25")
    # for which Python
    fn = ctx.fn(r"resolve::PubgrubState.*::versions$")
    n = 0
    for p in ctx.paths(fn):
        for e in p.calls("fetch_and_sort_versions"):
            n += 1
            v = some_of(e.args[3])
            ctx.ob("requires-python", [fn.path], v is not None and argfield(unref(v), "self", "python_full_version"), "candidates are listed for the Python %s" % show(e.args[3]))
    ctx.floor("listings of candidates", n, 1)
    fn = ctx.fn(r"resolve::resolve_wheels$")
    n = 0
    for e in {x.key(): x for p in ctx.paths(fn, interesting=lambda e: e.kind == "call" and e.is_("solver::resolve"), keep=lambda t: False) for x in p.calls("solver::resolve")}.values():
        n += 1
        st = unref(e.args[0])
        ok_ = st.tag == "A" and "python_full_version" in st.a[2]
        if ok_:
            v = st.a[3][st.a[2].index("python_full_version")]
            c = okof(unref(v), "from_str", "parse", "try_from", "try_into")
            ok_ = c is not None and from_env(c.a[1][0])
        ctx.ob("requires-python", [fn.path], ok_, "the Python resolved for is %s" % show(st)[:300])
    ctx.floor("resolutions", n, 1)
    # the metadata's own
    n = 0
    for q in picks(ctx):
        v = picked(q)
        n += 1
        s = boolfact(q, lambda t: okof(t, "Specifiers::satisfied_by") is not None and argfield(unref(okof(t, "Specifiers::satisfied_by").a[1][1]), "self", "python_full_version") and meta_field(okof(t, "Specifiers::satisfied_by").a[1][0], "requires_python", v))
        ctx.ob("requires-python", ["choose_package_version", "metadata"], s is True, "a version is chosen without its own requires-python being satisfied: %s" % show_facts(q))
    ctx.floor("versions chosen", n, 1)


def from_env(t):
    c = okof(unref(t), "get", "ok_or", "ok_or_else")
    while c is not None and isC(c, "ok_or", "ok_or_else"):
        c = bare(c.a[1][0])
    return c is not None and isC(c, "get") and isarg(unref(c.a[1][0]), "env") and is_k(unref(c.a[1][1]), "str", "python_full_version")


def some_of(t):
    t = bare(t)
    return t.a[3][0] if t.tag == "A" and t.a[1] == "Some" else None


def cpv(ctx):
    return ctx.method("DependencyProvider", r"PubgrubState", "choose_package_version")


def vlist(t):
    """self.versions(name of the package considered)?Ok"""
    c = okof(t, "PubgrubState::versions")
    return c is not None and isarg(unref(c.a[1][0]), "self") and pkgname(c.a[1][1])


def offered(t):
    """the package (0) offered first, or its range (1)"""
    t = unref(t)
    for i in ("0", "1"):
        x = fld(t, i)
        if x is not None:
            x = unref(x)
            if x.tag == "Elem" and isarg(isrc(x.a[0]), "potential_packages") or some(x, "Some") is not None and isC(some(x, "Some"), "next") and isarg(unref(some(x, "Some").a[1][0]), "potential_packages"):
                return i
    return None


def pkgname(t):
    t = unref(t)
    while t.tag == "F" and t.a[1] == "0":
        t = unref(t.a[0])
    x = some(t, "Package")
    if x is None and t.tag == "P" and t.a[1] == "Package":
        x = t.a[0]
    return x is not None and offered(x) == "0"


def vcand(t):
    t = unref(t)
    return t.tag == "Elem" and vlist(isrc(t.a[0]))


def chosen(ctx, after=None, all_=False, **kw):
    fn = cpv(ctx)
    return ctx.iterations(fn, lambda t: all_ or vlist(isrc(t)), after=after, pure=r"PubgrubState|Range::contains", across=lambda t: t.tag == "Arg" or t.tag == "V",
                          interesting=lambda e: e.kind == "call" and e.is_("versions", "metadata", "contains", "satisfied_by"), keep=lambda t: not isC(bare(t), "max_level"), **kw)


def picks(ctx):
    """the ways to end with a candidate, in a loop over them or found among them"""
    after = []
    its = chosen(ctx, after)
    return [q for q in its + after if picked(q) is not None]


def picked(q):
    """the version an iteration of choose_package_version ends with"""
    if not q.ok():
        return None
    v = bare(q.val())
    if v.tag != "Tup" or len(v.a) != 2:
        return None
    return some_of(v.a[1])


def meta_of(t, v):
    """metadata of the package considered at version v"""
    c = okof(t, "PubgrubState::metadata")
    if c is None or not isarg(unref(c.a[1][0]), "self"):
        return False
    r = unref(c.a[1][1])
    return r.tag == "Tup" and len(r.a) == 2 and pkgname(r.a[0]) and unref(r.a[1]) is unref(v)


def meta_field(t, name, v):
    x = fld(unref(t), name)
    return x is not None and meta_of(unref(x), v)


# ---------------------------------------------------------------------------- requirements become constraints
def parts(t, op, unit):
    """the operands of nested op(a, b) calls, through loops, without their unit; None for one that is something else"""
    t = bare(t)
    if isC(t, op) and len(t.a[1]) == 2:
        return parts(t.a[1][0], op, unit) + parts(t.a[1][1], op, unit)
    if isC(t, unit) and not t.a[1] or t.tag in ("Rec", "Loop"):
        return []
    if t.tag == "Fix" and all(isC(bare(x), op) for x in t.a[1]):
        return [x for y in [t.a[0]] + list(t.a[1]) for x in parts(y, op, unit)]
    return [t]


def reqs_elem(t):
    t = unref(t)
    return t.tag == "Elem" and isarg(isrc(t.a[0]), "reqs")


def req_field(t, *names):
    t = unref(t)
    for n in reversed(names):
        t = fld(t, n)
        if t is None:
            return False
        t = unref(t)
    return reqs_elem(t)


def infinite(q, end):
    """whether the path found the end to be infinity"""
    for t, v in q.facts.items():
        b = bare(t)
        if b.tag == "Bin" and isinstance(v, bool) and any(unref(x) is end for x in b.a[1:]) and any(x.tag == "Static" and "VERSION_INFINITY" in show(x) or "VERSION_INFINITY" in show(x) for x in b.a[1:]):
            first = unref(b.a[1]) is end
            op = b.a[0] if first else {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(b.a[0], b.a[0])
            if op in ("Lt", "Ne"):
                return not v
            if op in ("Ge", "Eq"):
                return v
    return None


def p26_ranges(ctx, rule):
    fn = ctx.fn(r"resolve::specifiers_to_pubgrub$")
    after = []
    its = ctx.iterations(fn, lambda t: argfield(isrc(t), "specs", "0"), havoc=True, after=after, interesting=lambda e: False, keep=lambda t: t.tag == "Bin", across=lambda t: False)
    spec = lambda t: unref(t).tag == "Elem" and argfield(isrc(unref(t).a[0]), "specs", "0")
    names = set()
    for q in after:
        if q.end != "ret" or not q.ok():
            ctx.fail(rule, [fn.path, "result"], "the specifiers give %s" % q.show()[:200])
            continue
        names |= {x.a[0] for x in subset(bare(q.val())) if x.tag == "Loop"}
        ctx.ob(rule, [fn.path, "result"], bare(q.val()).tag in ("Loop", "Fix") or parts(q.val(), "intersection", "any") is not None, "the specifiers give %s" % show(q.val()))
    var = {n.rsplit("_", 1)[1] for n in names}
    ctx.ob(rule, [fn.path, "variable"], len(var) == 1, "the result is %s" % sorted(names))
    n = 0
    for q in its:
        if q.end == "panic":
            continue
        if q.end == "ret":
            ctx.ob(rule, [fn.path, "left"], q.err(), "specifiers are left out: %s" % q.show()[:200])
            continue
        ctx.ob(rule, [fn.path, "whole"], not drops(ctx, q.over), "specifiers are left out: %s" % q.show()[:200])
        for l in var:
            out, was = q.env1.get(int(l)), q.env0.get(int(l))
            if out is None:
                ctx.fail(rule, [fn.path, "kept"], "the result is not kept")
                continue
            ps = [x for x in parts(out, "intersection", "any") if not (was is not None and x in parts(was, "intersection", "any"))]
            was_loop = was is None or was.tag != "Loop" or was in subset(out)
            mine = [x for x in ps]
            okk = was_loop and len(mine) <= 1
            if not mine:
                # nothing new: only if it is the same as another one already there
                okk = okk and any(isC(bare(x), "none", "union") for x in subset(out))
            if mine:
                n += 1
                u = parts(mine[0], "union", "none")
                for x in u:
                    e = [unref(y) for y in x.a[1]] if x.tag == "C" else []
                    r = fld(e[0], "start") if e else None
                    c = None
                    if r is not None and unref(r).tag == "Elem":
                        c = okof(unref(r).a[0], "Specifier::to_ranges") or okof(isrc(unref(r).a[0]), "Specifier::to_ranges")
                    okk = okk and c is not None and spec(c.a[1][0]) and not lossy(ctx, e[0])
                    if not okk:
                        break
                    inf = infinite(q, mk("F", unref(r), "end")) if not any(y.tag == "Fix" for y in subset(mine[0])) else "?"
                    if isC(x, "between") and len(e) == 2:
                        okk = fld(e[1], "end") is not None and unref(fld(e[1], "end")) is unref(r)
                    else:
                        okk = isC(x, "higher_than") and inf in (True, "?")
                okk = okk and (any(isC(y, "none") for y in subset(mine[0])))
                if not u:
                    okk = okk and not any("end" in show(t) or "start" in show(t) for t in q.facts)
            ctx.ob(rule, [fn.path, "ranges"], okk, "a specifier narrows the range to %s when %s" % (show(out), show_facts(q)))
    ctx.floor("ways a specifier narrows the range", n, 3)


def inserts(q):
    return [e for e in q.evs if e.kind == "call" and e.is_("HashMap::insert") and isarg(unref(e.args[0]), "dc")]


def dc_other(q):
    """what else happens to the constraints"""
    return [e for e in q.evs if e.kind == "call" and e.args and isarg(unref(e.args[0]), "dc") and not e.is_("HashMap::insert", "HashMap::get", "HashMap::contains_key") and last_name_(e) in MUTATORS]


def last_name_(e):
    return e.name.rsplit("::", 1)[-1]


def no_extra(t):
    t = bare(t)
    return t.tag == "A" and t.a[1] == "None"


def an_extra(ctx, t):
    x = some_of(t)
    if x is None:
        return False
    x = unref(x)
    return x.tag == "Elem" and req_field(isrc(x.a[0]), "extras") and not lossy(ctx, x)


def listed(t):
    """the Acc or collected list whose elements t is"""
    t = bare(t)
    return t.tag == "Elem"


def reqs(ctx):
    fn = ctx.fn(r"PubgrubState.*::requirements_to_pubgrub$")
    after, between = [], []
    over = lambda t: isarg(isrc(t), "reqs") or any(req_field(x, "extras") for x in subset(t))
    its = ctx.iterations(fn, over, havoc=True, forget=True, after=after, between=between, keep=lambda t: any(isarg(x, n) for x in subset(t) for n in ("reqs", "extra", "dc")),
                         pure=r"specifiers_to_pubgrub|simplify_out_extra|Simplified::eval")
    return fn, its, between, after


def outer(q):
    return isarg(isrc(q.over), "reqs")


def into_outer(q):
    return q.into is None or isarg(isrc(q.into), "reqs")


def marker_false(q):
    return applies(q)[0] is False


def none_extras(q):
    """the requirement at hand names no extras"""
    for t, v in q.facts.items():
        b = bare(t)
        if isC(b, "is_empty") and v is True and any(req_field(x, "extras") for x in subset(b)):
            return True
        if t.tag == "NoElem" and any(req_field(x, "extras") for x in subset(b)):
            return True
    return False


def p26(ctx):
    ctx.rule("constraint", "what a requirement constrains its packages to is exactly what all of its specifiers admit")
    ctx.rule("all", "every requirement that applies constrains its packages, on top of those before it")
    p26_ranges(ctx, "constraint")
    fn, its, between, after = reqs(ctx)
    n = 0
    for q in its + between + after:
        if q.end == "panic":
            continue
        ctx.ob("constraint", [fn.path, "else"], not dc_other(q), "the constraints are changed otherwise: %s" % dc_other(q))
        for e in inserts(q):
            n += 1
            k, r = bare(e.args[1]), unref(e.args[2])
            okk = k.tag == "A" and k.a[1] == "Package" and req_field(k.a[3][0], "name")
            ctx.ob("all", [fn.path, "name"], okk, "a requirement constrains %s" % show(k))
            get = lambda t: isC(t, "get") and isarg(unref(t.a[1][0]), "dc") and unref(t.a[1][1]) is k
            S = lambda t: okof(t, "specifiers_to_pubgrub") is not None and req_field(okof(t, "specifiers_to_pubgrub").a[1][0], "specifiers")
            had = opt(q, get)
            if S(r):
                okk = had == "None"
            else:
                okk = isC(r, "intersection") and any(S(unref(x)) and some(unref(y), "Some") is not None and get(some(unref(y), "Some")) for x, y in (r.a[1], r.a[1][::-1]))
            ctx.ob("constraint", [fn.path, "range"], okk, "a requirement constrains its package to %s when %s" % (show(r), show_facts(q)))
        if q in after:
            continue
        if q.end == "ret":
            ctx.ob("all", [fn.path, "left"], q.err(), "requirements are left out: %s" % show_facts(q))
        elif q in its and outer(q) and into_outer(q):
            ctx.ob("all", [fn.path, "requirement"], bool(inserts(q)) or marker_false(q), "a requirement is left out when %s" % show_facts(q))
        elif q in its and not outer(q):
            okk = len(inserts(q)) == 1 and any(x.tag == "Elem" and isrc(x.a[0]) is isrc(q.over) for x in subset(bare(inserts(q)[0].args[1])))
            ctx.ob("all", [fn.path, "extra"], okk and not q.left_early(), "a package of a requirement is left out: %s" % q.show()[:300])
        ctx.ob("all", [fn.path, "whole"], not drops(ctx, q.over), "requirements or their packages are left out: %s" % show(q.over))
    ctx.floor("constraints made", n, 2)
    for q in after:
        ctx.ob("all", [fn.path, "end"], q.end == "ret" and (q.ok() or q.err()), "it ends with %s" % q.show()[:100])
    depends(ctx, "all", "reqs")
    metadata_of(ctx, "all")
    pybi_spec(ctx, "constraint")


def depends(ctx, rule, what):
    fn = ctx.method("DependencyProvider", r"PubgrubState", "get_dependencies")
    seen = set()
    for p in ctx.paths(fn, interesting=lambda e: e.kind == "store" or e.is_("insert", "requirements_to_pubgrub", "metadata", "contains") or last_name_(e) in MUTATORS, keep=lambda t: not isC(bare(t), "max_level")):
        if p.end != "ret":
            continue
        if not p.ok():
            continue
        k = fact_of(p, lambda t: isarg(t, "pkg"))
        k = k[1] if isinstance(k, tuple) and k[0] == "v" else None
        seen.add(k)
        v = bare(p.val())
        okk = v.tag == "A" and v.a[1] == "Known"
        cs = p.calls("requirements_to_pubgrub")
        okk = okk and len(cs) == 1
        if not okk:
            ctx.fail(rule, [fn.path, k], "the dependencies are %s" % p.show()[:300])
            continue
        e, dc = cs[0], strip(p.val()).a[3][0]
        same = any(name_is(m, "requirements_to_pubgrub") for m, ar in history(dc))
        extra = opt(p, lambda t: pkg_part(t, "1")) if k == "Package" else None
        r = bare(e.args[1])
        if what == "reqs":
            fresh = not any(x.tag in ("Elem", "Arg") for x in subset(bare(e.args[2])))
            if k == "Root":
                okk = argfield(isrc(r), "self", "brief", "requirements")
            else:
                okk = meta_now(fld(isrc(r), "requires_dist"))
            okk = okk and not lossy(ctx, e.args[1])
            ctx.ob(rule, [fn.path, k, "requirements"], okk, "the requirements of %s are %s" % (k, show(r)))
            ctx.ob(rule, [fn.path, k, "result"], same and fresh and isarg(unref(e.args[0]), "self"), "the dependencies of %s are %s" % (k, show(dc)))
            bad = [x for x in p.evs if x.kind == "call" and last_name_(x) in MUTATORS and not x.is_("requirements_to_pubgrub") and not (x.is_("insert") and self_dep(x))]
            ctx.ob(rule, [fn.path, k, "else"], not bad, "the dependencies of %s are changed: %s" % (k, bad))
            late = [x for x in p.calls("insert") if self_dep(x) and p.evs.index(x) > p.evs.index(e)]
            ctx.ob(rule, [fn.path, k, "not replaced"], not late, "what an extra's own requirements say about its package is replaced by the package's exact version")
        else:
            x = unref(e.args[3])
            if k == "Root":
                okk = no_extra(x)
            else:
                okk = pkg_part(x, "1") or no_extra(x) and extra == "None" or some_of(x) is not None and some(unref(some_of(x)), "Some") is not None and pkg_part(some(unref(some_of(x)), "Some"), "1")
            ctx.ob(rule, [fn.path, k, "extra"], okk, "the requirements of %s are read with the extra %s" % (k, show(x)))
            sd = [x for x in p.calls("insert") if self_dep(x)]
            if k == "Package":
                has = boolfact(p, lambda t: isC(t, "contains") and meta_now(fld(unref(t.a[1][0]), "extras")) and some(unref(t.a[1][1]), "Some") is not None and pkg_part(some(unref(t.a[1][1]), "Some"), "1"))
                okk = extra == "None" and not sd or extra == "Some" and len(sd) == 1 and has is True
                ctx.ob(rule, [fn.path, "itself"], okk, "%s with the extra %s goes without the package itself: %s" % (k, extra, show_facts(p)))
    ctx.ob(rule, [fn.path, "all"], seen == {"Root", "Package"}, "not told apart: %s" % seen)


def pkg_part(t, i):
    t = unref(t)
    while t.tag == "F" and t.a[1] == "0" and i == "0":
        t = unref(t.a[0])
    return t.tag == "P" and t.a[1] == "Package" and t.a[2] == i and isarg(unref(t.a[0]), "pkg")


def meta_now(t):
    """t is the metadata of the package and version asked about"""
    if t is None:
        return False
    c = okof(unref(t), "PubgrubState::metadata")
    if c is None or not isarg(unref(c.a[1][0]), "self"):
        return False
    r = unref(c.a[1][1])
    return r.tag == "Tup" and len(r.a) == 2 and pkg_part(r.a[0], "0") and isarg(unref(r.a[1]), "version")


def self_dep(e):
    """the exact version of the package itself is required"""
    k, r = bare(e.args[1]), unref(e.args[2])
    return k.tag == "A" and k.a[1] == "Package" and pkg_part(k.a[3][0], "0") and no_extra(k.a[3][1]) and isC(r, "Range::exact") and isarg(unref(r.a[1][0]), "version")


def pybi_spec(ctx, rule):
    n = 0
    for q, fn in pybis(ctx):
        if q.ok():
            n += 1
            s = boolfact(q, lambda t: okof(t, "Specifiers::satisfied_by") is not None and argfield(unref(okof(t, "Specifiers::satisfied_by").a[1][0]), "brief", "python", "specifiers") and pybi_version(okof(t, "Specifiers::satisfied_by").a[1][1]))
            ctx.ob(rule, [fn.path, "pybi"], s is True, "a Python is chosen without the brief's specifiers being satisfied: %s" % show_facts(q))
            v = bare(q.val())
            c = [x for x in subset(v) if isC(x, "artifacts_for_version")]
            ctx.ob(rule, [fn.path, "which"], bool(c) and all(isarg(unref(x.a[1][0]), "db") and argfield(unref(x.a[1][1]), "brief", "python", "name") and pybi_version(x.a[1][2]) for x in c), "the Python chosen is %s" % show(v))
    ctx.floor("Pythons chosen", n, 1)


def pybi_list(t):
    c = okof(t, "fetch_and_sort_versions")
    return c is not None and isarg(unref(c.a[1][0]), "db") and isarg(unref(c.a[1][1]), "brief") and argfield(unref(c.a[1][2]), "brief", "python", "name") and no_extra(c.a[1][3]) and isarg(unref(c.a[1][4]), "hints")


def pybi_version(t):
    t = unref(t)
    return t.tag == "Elem" and pybi_list(isrc(t.a[0]))


def pybis(ctx, after=None):
    fn = ctx.fn(r"resolve::resolve_pybi$")
    return [(q, fn) for q in ctx.iterations(fn, lambda t: pybi_list(isrc(t)), after=after, pure=r"satisfied_by|artifacts_for_version|pick_best_pybi")]


def metadata_of(ctx, rule):
    """metadata(release) is what was read of one of the release's files, once, and kept under it"""
    fn = ctx.fn(r"PubgrubState.*::metadata$")
    n = 0
    for p in ctx.paths(fn, inline=[r"resolve::get_or_fill$"], interesting=lambda e: e.kind == "store" or e.is_("get", "insert", "get_metadata", "WheelResolveMetadata::from", "artifacts_for_version")):
        if p.end != "ret":
            continue
        if not p.ok():
            continue
        n += 1
        kept = lambda t: argfield(unref(t), "self", "expected_metadata")
        get = lambda t: isC(t, "get") and kept(t.a[1][0]) and isarg(unref(t.a[1][1]), "release")
        v = unref(p.val())
        v = unref(fld(v, "inner")) if fld(v, "inner") is not None else v
        ins = [e for e in p.calls("insert") if kept(e.args[0])]
        if some(v, "Some") is not None:
            okk = get(some(v, "Some")) and not ins
        else:
            okk = len(ins) == 1 and isarg(unref(ins[0].args[1]), "release") and opt(p, get) == "None" and fresh_metadata(ins[0].args[2])
            okk = okk and (fresh_metadata(v) or isC(v, "insert") and kept(v.a[1][0]))
        ctx.ob(rule, [fn.path], okk, "the metadata of a release is %s, %s" % (show(v), show_facts(p)))
    ctx.floor("ways metadata is found", n, 2)
    fn = ctx.fn(r"resolve::WheelResolveMetadata::from$")
    for p in ctx.paths(fn):
        v = bare(p.v) if p.end == "ret" else None
        okk = v is not None and v.tag == "A" and "inner" in (v.a[2] or ())
        if okk:
            i = bare(v.a[3][v.a[2].index("inner")])
            okk = i.tag == "A" and all(argfield(unref(x), "m", f) for f, x in zip(i.a[2], i.a[3])) and set(i.a[2]) >= {"requires_dist", "requires_python", "extras"}
        ctx.ob(rule, [fn.path], okk, "what is kept of the metadata is %s" % (show(v) if v is not None else "panic"))


def fresh_metadata(t):
    t = unref(t)
    while isC(t, "Box::new") and len(t.a[1]) == 1:
        t = unref(t.a[1][0])
    if not isC(t, "WheelResolveMetadata::from"):
        return False
    ai, m = [fld(unref(x), i) for x, i in zip(t.a[1], "01")]
    if ai is None or m is None or unref(ai) is not unref(m):
        return False
    c = okof(unref(ai), "get_metadata")
    if c is None or not argfield(unref(c.a[1][0]), "self", "db"):
        return False
    l = okof(unref(c.a[1][1]), "artifacts_for_version")
    return l is not None and argfield(unref(l.a[1][0]), "self", "db") and argfield(unref(l.a[1][1]), "release", "0") and argfield(unref(l.a[1][2]), "release", "1") and some_of(c.a[1][2]) is not None and argfield(unref(some_of(c.a[1][2])), "self", "wheel_builder")


def p27(ctx):
    ctx.rule("extras", "a requirement with extras wants the package with each of them, and one without the package itself")
    ctx.rule("exact", "a package with an extra has its own requirements read with that extra, and wants itself at the same version")
    fn, its, between, after = reqs(ctx)
    n = 0
    for q in its + between + after:
        for e in inserts(q):
            k = bare(e.args[1])
            if k.tag != "A" or k.a[1] != "Package":
                continue
            x = bare(k.a[3][1])
            if x.tag == "Elem":
                if not any(y.tag == "Acc" for y in subset(strip(e.args[1]))) and isC(isrc(x.a[0]), "collect"):
                    continue        # nothing was collected: there is no such element
                n += 1
                acc = [y for y in subset(strip(e.args[1])) if y.tag == "Acc"]
                okk = not lossy(ctx, isrc(x.a[0]))
                ps = [y for a in acc for m, ar in a.a[1] for y in ar] or [None]
                okk = okk and all(y is not None and (no_extra(y) or an_extra(ctx, y)) for y in ps)
            else:
                n += 1
                okk = an_extra(ctx, x) or no_extra(x) and none_extras(q)
            ctx.ob("extras", [fn.path, "wanted"], okk, "a requirement wants %s when %s" % (show(k), show_facts(q)))
        if q in its and outer(q) and q.end == "next" and not marker_false(q):
            ps = [e for e in q.evs if e.kind == "call" and e.is_("push", "insert", "push_back", "extend") and no_extra(e.args[1])]
            e = emptiness(q)
            if not into_outer(q):
                okk = bool(ps) == (e is True) if direct_list(q) else e is not True
                ctx.ob("extras", [fn.path, "without"], okk, "a requirement %s extras wants its package %s" % ("without" if e is True else "with" if e is False else "with or without", "itself too" if ps else "only with extras"))
    ctx.floor("packages wanted", n, 1)
    depends(ctx, "exact", "extra")
    depends(ctx, "exact", "reqs")
    metadata_of(ctx, "exact")


def direct_list(q):
    """the inner loop is over a list made from the extras"""
    return q.into is not None and not req_field(isrc(q.into), "extras")


def emptiness(q):
    for t, v in q.facts.items():
        b = bare(t)
        if isinstance(v, bool) and isC(b, "is_empty") and any(req_field(x, "extras") for x in subset(b)):
            return v
        if t.tag in ("NoElem", "Exists") and any(req_field(x, "extras") for x in subset(b)):
            return t.tag == "NoElem"
    return None



# ---------------------------------------------------------------------------- markers
def simp(q, side):
    """what the path knows of simplify_out_extra(<that side of the expression>): its term and its value"""
    for t, v in q.facts.items():
        c = okof(t, "simplify_out_extra")
        if c is not None and side(bare(c.a[1][0])) and isarg(unref(c.a[1][1]), "extra"):
            return bare(t), v
    return None, None


def simplification(ctx, rule):
    fn = ctx.fn(r"resolve::simplify_out_extra$")
    seen = set()
    for p in ctx.paths(fn, pure=r"EnvMarkerExpr::eval|simplify_out_extra|is_extra", keep=lambda t: True):
        if p.end != "ret":
            continue
        k = fact_of(p, lambda t: isarg(t, "expr"))
        k = k[1] if isinstance(k, tuple) and k[0] == "v" else None
        v = bare(p.v)
        if k == "Operator":
            ev = lambda t: isC(t, "EnvMarkerExpr::eval") and isarg(unref(t.a[1][0]), "expr") and extra_env(unref(t.a[1][1]))
            b = boolfact(p, lambda t: some(t) is not None and ev(some(t)))
            known = fact_of(p, ev)
            r = simplified(v)
            if known == ("v", "Ok") and b is not None:
                okk = r == ("K", b)
            elif known == ("v", "Err"):
                okk = p.err() or r is not None and r[0] == "E" and isarg(unref(r[1]), "expr")
            else:
                okk = False
            seen.add((k, b if known == ("v", "Ok") else None))
            ctx.ob(rule, [fn.path, k], okk, "a comparison becomes %s when %s" % (show(v), show_facts(p)))
            continue
        if k not in ("And", "Or"):
            ctx.fail(rule, [fn.path, "kinds"], "a marker becomes %s when %s" % (show(v), show_facts(p)))
            continue
        side = lambda i: lambda t: t.tag == "P" and t.a[1] == k and t.a[2] == i and isarg(unref(t.a[0]), "expr")
        if p.err():
            okk = any(f == ("v", "Err") and isC(bare(t), "simplify_out_extra") and any(side(i)(bare(bare(t).a[1][0])) for i in "01") for t, f in p.facts.items())
            ctx.ob(rule, [fn.path, k, "error"], okk, "a marker is an error when %s" % show_facts(p))
            continue
        (lt, lv), (rt, rv) = simp(p, side("0")), simp(p, side("1"))
        r = simplified(v)
        bad = r is None
        for a in possible(lv):
            for b in possible(rv):
                seen.add((k, a, b))
                for x in ((True,) if a == "True" else (False,) if a == "False" else (True, False)):
                    for y in ((True,) if b == "True" else (False,) if b == "False" else (True, False)):
                        want = (x and y) if k == "And" else (x or y)
                        got = None if r is None else meaning(r, k, side, lt, rt, a, b, x, y)
                        bad = bad or got is not want
        ctx.ob(rule, [fn.path, k], not bad, "%s becomes %s when %s" % (k, show(v), show_facts(p)))
    S = ("True", "False", "Expr")
    want = {("Operator", x) for x in (True, False, None)}
    ctx.ob(rule, [fn.path, "all"], want <= seen and all(any(s[0] == k and len(s) == 3 and s[1] in (a, None) and s[2] in (b, None) for s in seen) for k in ("And", "Or") for a in S for b in S),
           "not every marker is simplified: %s" % sorted(map(str, seen)))


def possible(v):
    S = ("True", "False", "Expr")
    if isinstance(v, tuple) and v[0] == "v":
        return (v[1],)
    if isinstance(v, tuple) and v[0] == "nv":
        return tuple(x for x in S if x not in v[1])
    return S


def simplified(v):
    """("K", bool), ("E", expression) or ("T", term) for Ok(a Simplified)"""
    if v.tag != "A" or v.a[1] != "Ok":
        return None
    v = bare(v.a[3][0])
    if v.tag == "A" and v.a[1] in ("True", "False"):
        return ("K", v.a[1] == "True")
    if v.tag == "A" and v.a[1] == "Expr":
        return ("E", v.a[3][0])
    return ("T", v)


def meaning(r, k, side, lt, rt, a, b, x, y):
    """what the simplified marker evaluates to when the sides evaluate to x and y"""
    if r[0] == "K":
        return r[1]
    if r[0] == "T":
        return x if r[1] is lt else y if r[1] is rt else None
    return expr_meaning(r[1], lt, rt, a, b, x, y)


def expr_meaning(e, lt, rt, a, b, x, y):
    e = boxed(e)
    t = some(e, "Expr")
    if t is not None:
        return x if t is lt and a == "Expr" else y if t is rt and b == "Expr" else None
    if e.tag == "A" and e.a[1] in ("And", "Or"):
        m = [expr_meaning(z, lt, rt, a, b, x, y) for z in e.a[3]]
        return None if None in m else all(m) if e.a[1] == "And" else any(m)
    return None


def boxed(t):
    t = unref(t)
    while isC(t, "Box::new") and len(t.a[1]) == 1:
        t = unref(t.a[1][0])
    return t


def extra_env(t):
    return t.tag == "A" and t.a[0].endswith("ExtraEnv") and len(t.a[3]) == 1 and isarg(unref(t.a[3][0]), "extra")


def applies(q):
    """whether the path takes the requirement at hand to apply: its marker's value with the extra and the environment;
    (value, the term standing for it, the marker that is left if any)"""
    marker = opt(q, lambda t: req_field(t, "env_marker_expr"))
    if marker == "None":
        return True, None, None
    m = lambda t: some(unref(t), "Some") is not None and req_field(some(unref(t), "Some"), "env_marker_expr")
    S = lambda t: okof(t, "simplify_out_extra") is not None and m(okof(t, "simplify_out_extra").a[1][0]) and the_extra(q, okof(t, "simplify_out_extra").a[1][1])
    left = None
    for t, v in q.facts.items():
        b = bare(t)
        if S(b):
            if v in (("v", "True"), ("v", "False")):
                return v[1] == "True", K("bool", v[1] == "True"), None
            if v == ("v", "Expr"):
                left = b
    ev = lambda t: isC(t, "Simplified::eval") and S(unref(t.a[1][0])) and argfield(unref(t.a[1][1]), "self", "env") or isC(t, "EnvMarkerExpr::eval") and left is not None and some(unref(t.a[1][0]), "Expr") is left and argfield(unref(t.a[1][1]), "self", "env")
    for t, v in q.facts.items():
        b = bare(t)
        if isinstance(v, bool) and some(b) is not None and ev(some(b)):
            return v, b, left
    return None, None, left


def K(ty, v):
    return mk("K", ty, v)


def the_extra(q, t):
    """the normalised name of the extra at hand"""
    t = unref(t)
    if no_extra(t):
        return opt(q, lambda x: isarg(x, "extra")) == "None"
    x = some_of(t)
    x = unref(x) if x is not None else None
    return x is not None and isC(x, "Extra::normalized", "normalized") and some(unref(x.a[1][0]), "Some") is not None and isarg(some(unref(x.a[1][0]), "Some"), "extra")


def p28(ctx):
    ctx.rule("simplify", "a marker with what is known of the extra taken out means the same")
    ctx.rule("applies", "a requirement applies if and only if its marker holds for the extra at hand and the target Python's environment")
    ctx.rule("environment", "the environment is what the Python resolved for reports, with the machine of a universal one's platform")
    ctx.rule("recorded", "every marker that was evaluated is recorded with its value, and gets into the blueprint")
    simplification(ctx, "simplify")
    for ty, want in (("ExtraEnv", True), ("HashMap", False)):
        fn = ctx.method("Env", ty, "get_marker_var")
        for p in ctx.paths(fn, pure=r"get$"):
            ctx.ob("simplify" if want else "environment", [fn.path], p.end == "ret" and (extra_var(p) if want else env_var(p)), "a variable is %s when %s" % (show(p.v), show_facts(p)))
    fn = ctx.fn(r"resolve::Simplified::eval$")
    for p in ctx.paths(fn):
        k = fact_of(p, lambda t: isarg(t, "self"))
        k = k[1] if isinstance(k, tuple) and k[0] == "v" else None
        v = bare(p.v) if p.end == "ret" else None
        if k in ("True", "False"):
            okk = p.ok() and is_k(bare(p.val()), "bool", k == "True")
        else:
            ev = lambda t: isC(t, "EnvMarkerExpr::eval") and some(unref(t.a[1][0]), "Expr") is not None and isarg(some(unref(t.a[1][0]), "Expr"), "self") and isarg(unref(t.a[1][1]), "env")
            okk = k == "Expr" and v is not None and (ev(v) or p.ok() and some(p.val()) is not None and ev(some(p.val())) or p.err() and fact_of(p, ev) == ("v", "Err"))
        ctx.ob("applies", [fn.path, k], okk, "a marker's value is %s" % p.show()[:200])
    fn, its, between, after = reqs(ctx)
    n = 0
    for q in its + between + after:
        ins = [e for e in q.evs if e.kind == "call" and e.is_("insert") and argfield(unref(e.args[0]), "self", "marker_exprs")]
        other = [e for e in q.evs if e.kind == "call" and e.args and argfield(unref(e.args[0]), "self", "marker_exprs") and last_name_(e) in MUTATORS and e not in ins]
        ctx.ob("recorded", [fn.path, "else"], not other, "the recorded markers are changed otherwise: %s" % other)
        if not (q in its and outer(q)):
            ctx.ob("recorded", [fn.path, "where"], not ins, "a marker is recorded of no requirement: %s" % ins)
            continue
        if q.end != "next":
            continue
        v, t, left = applies(q)
        n += 1
        goes = bool(inserts(q)) or not into_outer(q)
        ctx.ob("applies", [fn.path], v is not None and goes == v, "a requirement %s when %s" % ("applies" if goes else "does not apply", show_facts(q)))
        if left is not None:
            k = bare(ins[0].args[1]) if len(ins) == 1 else None
            okk = k is not None and (k.tag == "A" and k.a[0].endswith("StandaloneMarkerExpr") and some(unref(k.a[3][0]), "Expr") is left)
            w = bare(ins[0].args[2]) if okk else None
            ctx.ob("recorded", [fn.path], okk and (w is t or is_k(w, "bool", v)), "a marker that was evaluated is recorded as %s when %s" % ([[show(x) for x in e.args[1:]] for e in ins], show_facts(q)))
        elif opt(q, lambda t: req_field(t, "env_marker_expr")) != "None":
            gone = any(okof(t, "simplify_out_extra") is not None and (x in (("v", "True"), ("v", "False")) or isinstance(x, tuple) and x[0] == "nv" and "Expr" in x[1]) for t, x in q.facts.items())
            ctx.ob("recorded", [fn.path, "nothing"], gone and not ins, "a marker is recorded as %s when %s" % ([[show(x) for x in e.args[1:]] for e in ins], show_facts(q)))
    ctx.floor("requirements looked at", n, 3)
    target_env(ctx, "environment")
    marker_record(ctx, "recorded")


def extra_var(p):
    is_ = atom_is(p, "var", "extra")
    v = bare(p.v)
    if is_ is None:
        return False
    if not is_:
        return no_extra(v)
    x = some_of(v)
    x = unref(x) if x is not None else None
    had = opt(p, lambda t: argfield(t, "self", "extra"))
    if had == "None":
        return x is not None and is_k(x, "str", "")
    if had == "Some":
        return argfield(v, "self", "extra") or x is not None and some(x, "Some") is not None and argfield(some(x, "Some"), "self", "extra")
    return x is not None and isC(x, "unwrap_or", "unwrap_or_default") and argfield(unref(x.a[1][0]), "self", "extra") and (len(x.a[1]) == 1 or is_k(unref(x.a[1][1]), "str", ""))


def atom_is(p, arg, s):
    """whether the path takes an argument to be this string"""
    for t, v in p.facts.items():
        if isarg(unref(t), arg) and isinstance(v, tuple):
            if v == ("i", s):
                return True
            if v[0] == "i":
                return False
            if v[0] == "ni" and s in v[1]:
                return False
    b = eqfact(p, arg, s)
    return b


def eqfact(p, arg, s):
    for t, v in p.facts.items():
        b = bare(t)
        if isinstance(v, bool) and b.tag in ("C", "Eq", "Op"):
            xs = [unref(x) for x in (b.a[1] if b.tag == "C" else b.a[-2:]) if isinstance(x, T)]
            if len(xs) == 2 and any(isarg(x, arg) for x in xs) and any(is_k(x, "str", s) for x in xs):
                return v
    return None


def env_var(p):
    get = lambda t: isC(t, "get") and isarg(unref(t.a[1][0]), "self") and isarg(unref(t.a[1][1]), "var")
    v = bare(p.v)
    had = opt(p, get)
    if get(unref(v)):
        return True
    if had == "None":
        return no_extra(v)
    x = some_of(v)
    return had == "Some" and x is not None and some(unref(x), "Some") is not None and get(some(unref(x), "Some"))


ARM, X86 = "macosx_10_0_arm64", "macosx_10_0_x86_64"


def pybi_now(t, i):
    """part i of the Python that resolve_pybi chose"""
    t = unref(t)
    x = fld(t, i)
    c = okof(unref(x), "resolve_pybi") if x is not None else None
    return c is not None and isarg(unref(c.a[1][0]), "db") and isarg(unref(c.a[1][1]), "self") and isarg(unref(c.a[1][2]), "platforms")


def target_env(ctx, rule):
    fn = ctx.fn(r"resolve::Brief::resolve$")
    rs = {}
    for p in ctx.paths(fn, interesting=lambda e: e.kind == "call" and e.is_("resolve_wheels"), keep=lambda t: has_env(t) or isC(bare(t), "compatibility"), pure=r"compatibility|contains_key|resolve_pybi|get_metadata"):
        for e in p.calls("resolve_wheels"):
            rs.setdefault((e.key(), tuple(sorted((show(t), str(v)) for t, v in p.facts.items()))), (e, p))
    n = 0
    for e, p in rs.values():
        n += 1
        m = env_of(e.args[2])
        ctx.ob(rule, [fn.path, "which"], m and isarg(unref(e.args[0]), "db") and isarg(unref(e.args[1]), "self"), "the packages are resolved with the environment %s" % show(e.args[2])[:300])
        h = history(e.args[2])
        had = None
        for t, v in p.facts.items():
            b = bare(t)
            if isC(b, "contains_key") and env_of(b.a[1][0]) and is_k(unref(b.a[1][1]), "str", "platform_machine"):
                had = v
            if isC(b, "get") and env_of(b.a[1][0]) and is_k(unref(b.a[1][1]), "str", "platform_machine"):
                had = {("v", "Some"): True, ("v", "None"): False}.get(v, had)
        plat = lambda tag: {"Some": True, "None": False}.get(opt(p, lambda t: isC(t, "compatibility") and pybi_now(t.a[1][0], "1") and is_k(unref(t.a[1][1]), "str", tag)))
        a, x = plat(ARM), plat(X86)
        want = "arm64" if a is True and x is False else "x86_64" if x is True and a is False else None
        set_ = [(last_m(m_), [unref(z) for z in ar]) for m_, ar in h]
        if had is False and want:
            okk = len(set_) == 1 and set_[0][0] == "insert" and is_k(set_[0][1][0], "str", "platform_machine") and is_k(set_[0][1][1], "str", want)
        elif had is False and not (a is x is not None or a is False or x is False or a is True and x is True):
            okk = False
        else:
            okk = not set_ and (had is True or had is False and (a is x or a is None and x is None) and a is not None)
        ctx.ob(rule, [fn.path, "machine"], okk, "the environment is changed by %s when %s" % ([(m_, [show(z) for z in ar]) for m_, ar in set_], show_facts(p)))
    ctx.floor("resolutions of packages", n, 3)
    fn = ctx.fn(r"resolve::resolve_wheels$")
    for st in states(ctx, fn):
        f = dict(zip(st.a[2], st.a[3])) if st.tag == "A" else {}
        ctx.ob(rule, [fn.path, "state"], "env" in f and isarg(unref(f["env"]), "env") and "brief" in f and isarg(unref(f["brief"]), "brief"), "the environment resolved with is %s" % show(st)[:200])


def states(ctx, fn):
    return [unref(e.args[0]) for e in {x.key(): x for p in ctx.paths(fn, interesting=lambda e: e.kind == "call" and e.is_("solver::resolve"), keep=lambda t: False) for x in p.calls("solver::resolve")}.values()]


def last_m(m):
    return m.rsplit("::", 1)[-1]


def has_env(t):
    return any(env_of(x) for x in subset(bare(t)))


def env_of(t):
    """the marker variables of the chosen Python"""
    t = unref(t)
    x = fld(t, "environment_marker_variables")
    x = unref(x) if x is not None else None
    c = fld(x, "1") if x is not None else None
    c = okof(unref(c), "get_metadata") if c is not None else None
    if c is None or not isarg(unref(c.a[1][0]), "db"):
        return False
    l = unref(c.a[1][1])
    return l.tag == "Arr" and len(l.a) == 1 and pybi_now(l.a[0], "0")


def marker_record(ctx, rule):
    fn = ctx.fn(r"resolve::resolve_wheels$")
    n = 0
    for p in ctx.paths(fn, interesting=lambda e: False, keep=lambda t: False):
        if p.end == "ret" and p.ok():
            n += 1
            v = bare(p.val())
            okk = v.tag == "Tup" and len(v.a) == 2
            x = unref(v.a[1]) if okk else None
            okk = okk and isC(x, "RefCell::into_inner", "into_inner", "RefCell::take", "take") and state_field(ctx, fn, x.a[1][0], "marker_exprs")
            ctx.ob(rule, [fn.path, "result"], okk, "the markers recorded are %s" % (show(v)[-300:]))
    ctx.floor("results", n, 1)
    fn = ctx.fn(r"resolve::Brief::resolve$")
    blueprint(ctx, rule, fn, "marker_expressions", "1")
    fn = ctx.fn(r"resolve::serialize_marker_exprs$")
    n = 0
    for p in ctx.paths(fn, interesting=lambda e: e.is_("collect_map", "serialize_entry") or last_name_(e) in MUTATORS):
        for e in p.calls("collect_map"):
            n += 1
            src = [x for x in subset(e.args[1]) if isarg(x, "marker_exprs")]
            ps = [y for x in subset(e.args[1]) if x.tag == "Acc" for m, ar in x.a[1] if not last_m(m).startswith("sort") for y in ar]
            okk = isarg(unref(e.args[0]), "s") and bool(src) and not lossy(ctx, e.args[1])
            for y in ps:
                y = bare(y)
                okk = okk and y.tag == "Tup" and len(y.a) == 2 and pair(y.a[1], "1") and any(pair(x, "0") for x in subset(y.a[0])) and not any(pair(x, "1") for x in subset(y.a[0]))
            ctx.ob(rule, [fn.path], okk, "the markers written are %s" % show(e.args[1])[:300])
        ctx.ob(rule, [fn.path, "written"], p.end == "ret" and (len(p.calls("collect_map")) == 1 or p.err()), "the markers are not written: %s" % p.show()[:200])
    ctx.floor("ways markers are written", n, 1)


def pair(t, i):
    x = fld(unref(t), i)
    return x is not None and unref(x).tag == "Elem" and isarg(isrc(unref(x).a[0]), "marker_exprs")


def state_field(ctx, fn, t, f):
    """t is that field of the state the resolution ran with"""
    t = unref(t)
    sts = states(ctx, fn)
    for st in sts:
        if fld(t, f) is not None and unref(fld(t, f)) is st:
            return True
        if st.tag == "A" and f in st.a[2] and unref(st.a[3][st.a[2].index(f)]) is t:
            return True
    return False


def blueprint(ctx, rule, fn, field, i):
    n = 0
    for p in ctx.paths(fn, interesting=lambda e: False, keep=lambda t: False):
        if p.ok():
            n += 1
            v = bare(p.val())
            okk = v.tag == "A" and field in (v.a[2] or ())
            raw = strip(p.val())
            x = raw.a[3][raw.a[2].index(field)] if okk else None
            y = fld(unref(x), i) if x is not None else None
            okk = y is not None and okof(unref(y), "resolve_wheels") is not None and not history(x)
            ctx.ob(rule, [fn.path, field], okk, "the blueprint's %s are %s" % (field, show(x)[:200] if x is not None else show(v)[:200]))
    ctx.floor("blueprints", n, 1)


# ---------------------------------------------------------------------------- pins
def p29(ctx):
    ctx.rule("wheels", "the blueprint pins exactly the packages and versions that were resolved, with the metadata resolved with")
    ctx.rule("hashes", "a pin has the hashes of exactly the version's files")
    ctx.rule("python", "the blueprint pins the Python resolved for")
    fn = ctx.fn(r"resolve::resolve_wheels$")
    sol = lambda t: okof(isrc(t), "solver::resolve") is not None
    el = lambda t, i: fld(unref(t), i) is not None and unref(fld(unref(t), i)).tag == "Elem" and sol(unref(fld(unref(t), i)).a[0])
    pkg = lambda t, i: unref(t).tag == "P" and unref(t).a[1] == "Package" and unref(t).a[2] == i and el(unref(t).a[0], "0")
    pin = lambda t: okof(unref(t), "resolve::pinned", "pinned") is not None and (lambda c: isarg(unref(c.a[1][0]), "db") and pkg(c.a[1][1], "0") and el(c.a[1][2], "1"))(okof(unref(t), "resolve::pinned", "pinned"))

    def metadata(t):
        t = unref(t)
        c = okof(t, "get", "ok_or_else", "ok_or", "context", "wrap_err")
        while c is not None and not isC(c, "get"):
            c = unref(c.a[1][0])
        if c is None or not isC(c, "get") or not state_field(ctx, fn, c.a[1][0], "expected_metadata"):
            return False
        k = unref(c.a[1][1])
        return k.tag == "Tup" and pkg(k.a[0], "0") and el(k.a[1], "1")
    n = 0
    after = []
    its = ctx.iterations(fn, sol, pure=r"FrozenMap|pinned", after=after)
    for q in its:
        if q.end == "panic":
            none = any(v == ("v", "None") and isC(bare(t), "get") for t, v in q.facts.items())
            ctx.ob("wheels", [fn.path, "panic"], none, "it panics: %s" % q.show()[:200])
            continue
        k = fact_of(q, lambda t: el(t, "0"))
        k = k[1] if isinstance(k, tuple) and k[0] == "v" else None
        x = opt(q, lambda t: pkg(t, "1"))
        ps = [e for e in q.evs if e.kind == "call" and last_name_(e) in MUTATORS and e.is_("push", "insert", "extend", "push_back")]
        if q.end == "ret":
            ctx.ob("wheels", [fn.path, "left"], q.err(), "pins are left out: %s" % show_facts(q))
            continue
        n += 1
        if k == "Package" and x == "None":
            v = bare(ps[0].args[-1]) if len(ps) == 1 else None
            okk = v is not None and v.tag == "Tup" and len(v.a) == 2 and pin(v.a[0]) and metadata(v.a[1])
            ctx.ob("wheels", [fn.path, "pin"], okk, "a package that was resolved is pinned as %s" % [str(e)[-300:] for e in ps])
        else:
            ctx.ob("wheels", [fn.path, "else"], not ps and (k == "Root" or x == "Some"), "something is pinned when %s: %s" % (show_facts(q)[:300], [str(e)[-200:] for e in ps]))
        ctx.ob("wheels", [fn.path, "whole"], not drops_but_packages(ctx, q.over, fn, el, pkg), "pins are left out: %s" % show(q.over)[:300])
    ctx.floor("packages resolved", n, 2)
    for p in after:
        if p.end == "ret" and p.ok():
            v = bare(p.val())
            ctx.ob("wheels", [fn.path, "result"], v.tag == "Tup" and not [x for x in subset(v.a[0]) if x.tag == "Thin" and x.a[0] not in ("rev", "filter", "filter_map")], "the pins are %s" % show(v)[:300])
    for e in solver_calls(ctx, fn):
        r, v = unref(e.args[1]), unref(e.args[2])
        ctx.ob("wheels", [fn.path, "start"], r.tag == "A" and r.a[1] == "Root" and "ROOT_VERSION" in show(v), "the resolution is of %s %s" % (show(r), show(v)))
    blueprint(ctx, "wheels", ctx.fn(r"resolve::Brief::resolve$"), "wheels", "0")
    metadata_of(ctx, "wheels")
    pins(ctx, "hashes")
    fn = ctx.fn(r"resolve::Brief::resolve$")
    n = 0
    for p in ctx.paths(fn, interesting=lambda e: False, keep=lambda t: False, pure=r"resolve_pybi|inner_as"):
        if p.ok():
            n += 1
            v = bare(p.val())
            x = v.a[3][v.a[2].index("pybi")] if v.tag == "A" and "pybi" in v.a[2] else None
            c = okof(unref(x), "resolve::pinned", "pinned") if x is not None else None
            ctx.ob("python", [fn.path], c is not None and isarg(unref(c.a[1][0]), "db") and pybi_name(c.a[1][1], "distribution") and pybi_name(c.a[1][2], "version"), "the blueprint's pybi is %s" % (show(x) if x is not None else show(v)))
    ctx.floor("blueprints", n, 1)


def solver_calls(ctx, fn):
    return list({x.key(): x for p in ctx.paths(fn, interesting=lambda e: e.kind == "call" and e.is_("solver::resolve"), keep=lambda t: False) for x in p.calls("solver::resolve")}.values())


def drops_but_packages(ctx, it, fn, el, pkg):
    """losses other than of what is no package by itself"""
    out = []
    for m, p in drops(ctx, it):
        if p is not None:
            k = fact_of(p, lambda t: el(t, "0"))
            x = opt(p, lambda t: pkg(t, "1"))
            if k == ("v", "Root") or x == "Some":
                continue
        out.append((m, p))
    return out


def pybi_name(t, f):
    t = unref(t)
    if isC(t, f) and len(t.a[1]) == 1:
        n = unref(t.a[1][0])
        x = fld(n, "name")
        return x is not None and pybi_now(x, "0")
    x = fld(t, f)
    x = unref(x) if x is not None else None
    x = some(x, "Some") if x is not None else None
    if x is None or not isC(x, "inner_as"):
        return False
    x = fld(unref(x.a[1][0]), "name")
    return x is not None and pybi_now(x, "0")


def pins(ctx, rule):
    fn = ctx.fn(r"resolve::pinned$")
    files = lambda t: (lambda c: c is not None and isarg(unref(c.a[1][0]), "db") and isarg(unref(c.a[1][1]), "name") and isarg(unref(c.a[1][2]), "version"))(okof(isrc(t), "artifacts_for_version"))
    got_hash = lambda t: hash_(some(unref(t), "Some")) if some(unref(t), "Some") is not None else unref(t).tag == "Elem" and hash_(isrc(unref(t).a[0]))
    hash_ = lambda t: fld(unref(t), "hash") is not None and unref(fld(unref(t), "hash")).tag == "Elem" and files(unref(fld(unref(t), "hash")).a[0])
    n = had = 0
    for q in ctx.iterations(fn, files):
        ctx.ob(rule, [fn.path, "left"], not q.left_early() or q.end == "ret" and q.err(), "hashes are left out: %s" % q.show()[:200])
    for p in ctx.paths(fn):
        if p.end != "ret":
            continue
        if not p.ok():
            continue
        n += 1
        raw = strip(p.val())
        if raw.tag != "A" or "hashes" not in raw.a[2]:
            ctx.fail(rule, [fn.path], "a pin is %s" % show(raw))
            continue
        f = dict(zip(raw.a[2], raw.a[3]))
        ctx.ob(rule, [fn.path, "name"], isarg(unref(f["name"]), "name") and isarg(unref(f["version"]), "version"), "a pin is of %s %s" % (show(f["name"]), show(f["version"])))
        h = f["hashes"]
        got = [y for x in subset(h) if x.tag == "Acc" for m, ar in x.a[1] if last_m(m) not in ("sort", "sort_unstable", "dedup") for y in ar]
        had += any(got_hash(y) for y in got)
        okk = all(got_hash(y) for y in got)
        ctx.ob(rule, [fn.path, "hashes"], okk, "a pin's hashes are %s" % show(h))
        lost = [(m, d) for x in subset(h) if x.tag == "Iter" for m, d in drops(ctx, x) if d is None or opt(d, hash_) != "None"]
        lost += [y for y in subset(h) if y.tag == "Thin" and y.a[0] not in ("rev", "filter_map", "filter", "flat_map")]
        has = opt(p, hash_)
        ctx.ob(rule, [fn.path, "all"], not lost and (bool(got) or has != "Some"), "a file's hash is left out: %s" % (lost or show_facts(p)))
    ctx.floor("pins made", n, 1)
    ctx.floor("hashes pinned", had, 1)


# ---------------------------------------------------------------------------- preference
class Unknown(Exception):
    pass


class Rev:
    def __init__(self, x):
        self.x = x

    def __lt__(self, o):
        return o.x < self.x

    def __eq__(self, o):
        return o.x == self.x


def conc(t, env):
    """the value of a term over concrete versions: env maps terms to numbers and tells the hint"""
    t = unref(t)
    for k, v in env.items():
        if k != "hint" and t is k:
            return v
    if env.get("hint") is not None and hinted(t, 0):
        return env["hint"]
    if t.tag == "K" and isinstance(t.a[1], (bool, int)):
        return t.a[1]
    if t.tag == "Tup":
        return tuple(conc(x, env) for x in t.a)
    if t.tag == "A":
        if t.a[1] == "None":
            return (0,)
        if t.a[1] == "Some":
            return (1, conc(t.a[3][0], env))
        if t.a[0].endswith("Reverse"):
            return Rev(conc(t.a[3][0], env))
        if t.a[1] in ("Less", "Equal", "Greater"):
            return {"Less": -1, "Equal": 0, "Greater": 1}[t.a[1]]
        if len(t.a[3]) == 0:
            raise Unknown
    if t.tag == "P" and t.a[1] == "Some":
        v = conc(t.a[0], env)
        if isinstance(v, tuple) and len(v) == 2:
            return v[1]
    if t.tag == "Un" and t.a[0] == "Not":
        return not conc(t.a[1], env)
    if t.tag == "Bin":
        a, b = conc(t.a[1], env), conc(t.a[2], env)
        f = CMP.get(t.a[0].lower())
        if f:
            return f(a, b)
    if t.tag == "C":
        ln = last(t)
        xs = t.a[1]
        if ln in CMP and len(xs) == 2:
            return CMP[ln](conc(xs[0], env), conc(xs[1], env))
        if ln in ("cmp", "partial_cmp", "total_cmp") and len(xs) == 2:
            a, b = conc(xs[0], env), conc(xs[1], env)
            r = -1 if a < b else 1 if b < a else 0
            return r if ln != "partial_cmp" else (1, r)
        if ln == "reverse" and len(xs) == 1:
            return -conc(xs[0], env)
        if ln == "then" and len(xs) == 2:
            return conc(xs[0], env) or conc(xs[1], env)
        if ln in ("is_lt", "is_le", "is_gt", "is_ge", "is_eq", "is_ne") and len(xs) == 1:
            return CMP[ln[3:]](conc(xs[0], env), 0)
        if ln in ("max", "min") and len(xs) == 2:
            return (max if ln == "max" else min)(conc(xs[0], env), conc(xs[1], env))
    raise Unknown


CMP = {"lt": lambda a, b: a < b, "le": lambda a, b: not b < a, "gt": lambda a, b: b < a, "ge": lambda a, b: not a < b, "eq": lambda a, b: a == b, "ne": lambda a, b: a != b}


def agrees(p, env, els):
    """the path's facts on the elements at hand are true of these numbers"""
    for t, v in p.facts.items():
        if t.tag in HIST or not any(x is e for x in subset(bare(t)) for e in els):
            continue
        try:
            c = conc(t, env)
        except Unknown:
            continue
        if isinstance(v, bool):
            if c != v:
                return False
        elif isinstance(v, tuple) and v[0] in ("v", "nv") and isinstance(c, int):
            name = {-1: "Less", 0: "Equal", 1: "Greater"}.get(c)
            if (name == v[1]) if v[0] == "v" else name not in v[1]:
                continue
            return False
    return True


SHUFFLES = ("reverse", "rotate_left", "rotate_right", "swap", "swap_remove", "dedup", "dedup_by", "dedup_by_key", "truncate", "retain", "drain", "remove", "pop", "clear",
            "select_nth_unstable", "split_off", "partition_point", "shuffle", "extend", "append")


def arrange(ps, start, hint):
    """the list that the paths leave of the start: their sorts and reversals played on concrete versions"""
    shapes = {tuple(last_name_(e) for e in p.evs if moves(e)) for p in ps}
    if len(shapes) != 1:
        raise Unknown
    out = list(start)
    for i, m in enumerate(list(shapes)[0]):
        evs = [([e for e in p.evs if moves(e)][i], p) for p in ps]
        if m == "reverse":
            out.reverse()
        elif m in ("sort", "sort_unstable"):
            out.sort()
        elif "key" in m:
            def key(v):
                ks = []
                for e, p in evs:
                    el = bare(e.args[2])
                    env = {el: v, "hint": hint}
                    if agrees(p, env, [el]):
                        k = conc(e.args[1], env)
                        if k not in ks:
                            ks.append(k)
                if len(ks) != 1:
                    raise Unknown
                return ks[0]
            out.sort(key=key)
        elif m.startswith("sort"):
            def cmp(a, b):
                ks = []
                for e, p in evs:
                    el = bare(e.args[2])
                    el2 = mk("Elem2", *el.a)
                    env = {el: a, el2: b, "hint": hint}
                    if agrees(p, env, [el, el2]):
                        k = conc(e.args[1], env)
                        if k not in ks:
                            ks.append(k)
                if len(ks) != 1:
                    raise Unknown
                return ks[0]
            out.sort(key=functools.cmp_to_key(cmp))
        else:
            raise Unknown
    return out


def moves(e):
    ln = last_name_(e)
    return e.kind == "call" and (ln.startswith("sort") or ln in SHUFFLES)


def order(ctx, rule):
    fn = ctx.fn(r"resolve::fetch_and_sort_versions$")
    over = lambda t: any(listing(x) for x in subset(t))
    after, n = [], 0
    its = ctx.iterations(fn, over, after=after, old=True, pure=r"is_prerelease|allow_pre_for|HashMap::get|available_artifacts|PartialOrd|Ord::",
                         interesting=lambda e: e.kind == "call" and (name_is(e.name, "push") or moves(e)),
                         across=lambda t: hint_get(bare(t)), keep=lambda t: hint_get(bare(t)) or any(x.tag in ("Elem", "Elem2") and isinstance(x.a[0], T) and not listing(isrc(x.a[0])) for x in subset(t)))
    back = any(x.tag in ("Iter", "Thin") and x.a[0] == "rev" or isC(x, "rev") for q in its for x in subset(q.over))
    push = {last_name_(e) for q in its for e in q.evs if any(version(x) for x in e.args[1:])}
    good = [p for p in after if p.ok()]
    for hint, want in ((None, [7, 6, 5, 4, 3]), (5, [5, 6, 7, 4, 3]), (2, [3, 4, 5, 6, 7]), (9, [7, 6, 5, 4, 3])):
        ps = [p for p in good if (opt(p, hint_get) == ("None" if hint is None else "Some"))]
        n += len(ps)
        for start in ([7, 6, 5, 4, 3], [4, 7, 3, 5, 6]):
            if start[0] == 4 and not any(moves(e) for p in ps for e in p.evs):
                continue        # left as listed: newest first
            try:
                got = arrange(ps, start[::-1] if back and start[0] == 7 else start, hint)
                got = got[::-1] if {turned(p) for p in ps} == {True} else got if {turned(p) for p in ps} == {False} else None
            except Unknown:
                got = None
            ctx.ob(rule, [fn.path, "hint" if hint else "no hint"], got == want and push <= {"push", "push_back"}, "the versions 3 to 7 are ordered %s %s" % (got or "in a way that is not understood", "with the hint %s" % hint if hint else "without a hint"))
    ctx.floor("ways versions are ordered", n, 2)
    # the list that is kept is the list that was made
    fn = ctx.fn(r"resolve::PubgrubState.*::versions$")
    n = 0
    for p in ctx.paths(fn, inline=[r"resolve::get_or_fill$"], interesting=lambda e: e.kind == "store" or e.is_("get", "insert", "fetch_and_sort_versions") or moves(e)):
        if not p.ok():
            continue
        n += 1
        kept = lambda t: argfield(unref(t), "self", "versions")
        get = lambda t: isC(t, "get") and kept(t.a[1][0]) and isarg(unref(t.a[1][1]), "package")
        fresh = lambda t: okof(unref(t), "fetch_and_sort_versions") is not None and fetch_args(okof(unref(t), "fetch_and_sort_versions"))
        v = unref(p.val())
        ins = [e for e in p.calls("insert") if kept(e.args[0])]
        if some(v, "Some") is not None:
            okk = get(some(v, "Some")) and not ins
        else:
            okk = len(ins) == 1 and isarg(unref(ins[0].args[1]), "package") and opt(p, get) == "None" and fresh(ins[0].args[2]) and (fresh(v) or isC(v, "insert") and kept(v.a[1][0]))
        ctx.ob(rule, [fn.path], okk and not any(moves(e) for e in p.evs), "the versions of a package are %s, %s" % (show(v), show_facts(p)))
    ctx.floor("ways versions are listed", n, 2)


def fetch_args(c):
    a = [unref(x) for x in c.a[1]]
    return argfield(a[0], "self", "db") and argfield(a[1], "self", "brief") and isarg(a[2], "package") and argfield(a[4], "self", "version_hints")


def turned(p):
    """the list handed out is the one made, reversed (True) or as it is (False)"""
    t, r = bare(p.val()), False
    while True:
        if isC(t, "collect", "to_vec", "from_iter") and len(t.a[1]) == 1:
            t = bare(t.a[1][0])
        elif t.tag in ("Iter", "Thin"):
            if t.a[0] == "rev":
                r = not r
            elif t.a[0] not in ("src", "cloned", "copied"):
                raise Unknown
            t = bare(t.a[1])
        elif isC(t, "Vec::new", "Vec::with_capacity", "Default::default", "new", "with_capacity", "default") or t.tag == "Arr" and not t.a:
            return r
        else:
            raise Unknown


def p30(ctx):
    ctx.rule("order", "versions are preferred closest to the one used before, upwards first, or else newest first")
    ctx.rule("first", "the first version in that order that is in range is chosen, and none only if there is none")
    ctx.rule("python", "the Python is the first version that satisfies the brief and has a pybi, the best one for the first platform that has any")
    order(ctx, "order")
    hints(ctx, "order")
    after = []
    its = chosen(ctx, after)
    got = [q for q in its + after if picked(q) is not None]
    sites = {q.site0 for q in its if picked(q) is not None}
    inr = lambda q: boolfact(q, lambda t: isC(t, "contains") and offered(t.a[1][0]) == "1" and vcand(t.a[1][1]))
    back = lambda it: [x for x in subset(it) if x.tag in ("Iter", "Thin") and x.a[0] == "rev"]
    name = "choose_package_version"
    for q in got:
        v = bare(q.val())
        ctx.ob("first", [name, "version"], vcand(picked(q)) and offered(v.a[0]) == "0" and inr(q) is True and not back(picked(q)), "the version chosen is %s when %s" % (show(v), show_facts(q)))
    for q in its:
        if q.site0 not in sites or q.end == "panic":
            continue
        if q.end == "next":
            ctx.ob("first", [name, "passed over"], inr(q) is False, "a version is passed over when %s" % show_facts(q))
        elif not q.ok():
            ctx.ob("first", [name, "left"], q.err() and inr(q) is True, "choosing ends with %s" % q.show()[:200])
        lost = [x for x in drops(ctx, q.over) if x[1] is None or inr(x[1]) is not False]
        ctx.ob("first", [name, "order"], not back(q.over) and not lost, "the versions are gone through otherwise than in order of preference: %s" % show(q.over))
    n = len(got)
    ctx.floor("ways a version is chosen", n, 1)
    n = 0
    after = []
    rest = chosen(ctx, after, all_=True, past=lambda t: False)
    gone = {t for q in rest + after if picked(q) is not None for t in q.facts if t.tag == "Done"}      # loops that are over before one is picked
    for q in after + [q for q in rest if q.ok() and picked(q) is None]:
        if q.end != "ret" or q.err():
            continue
        n += 1
        v = bare(q.val()) if q.ok() else None
        okk = v is not None and v.tag == "Tup" and len(v.a) == 2 and offered(v.a[0]) == "0"
        if okk and no_extra(v.a[1]):
            okk = any((t.tag == "NoElem" or t.tag == "Done" and t not in gone) and vlist(isrc(t.a[0])) for t in q.facts)
        elif okk:
            okk = some_of(v.a[1]) is not None and (vcand(some_of(v.a[1])) or "ROOT_VERSION" in show(v.a[1]))
        ctx.ob("first", [name, "end"], okk, "choosing ends with %s" % q.show()[:300])
    ctx.floor("ways choosing ends", n, 1)
    rootv = [p for p in ctx.paths(cpv(ctx), interesting=lambda e: False, keep=lambda t: not isC(bare(t), "max_level")) if p.ok() and root(p)]
    for p in rootv:
        v = bare(p.val())
        okk = v.tag == "Tup" and len(v.a) == 2 and offered(v.a[0]) == "0" and some_of(v.a[1]) is not None and "ROOT_VERSION" in show(v.a[1])
        ctx.ob("first", [name, "root"], okk, "the root's version is %s" % show(v)[:200])
    ctx.floor("the root's version", len(rootv), 1)
    # the Python
    after, n = [], 0
    for q, fn in pybis(ctx, after):
        s = boolfact(q, lambda t: okof(t, "Specifiers::satisfied_by") is not None and argfield(unref(okof(t, "Specifiers::satisfied_by").a[1][0]), "brief", "python", "specifiers") and pybi_version(okof(t, "Specifiers::satisfied_by").a[1][1]))
        pk = opt(q, best_pybi)
        if q.ok():
            n += 1
            v = bare(q.val())
            okk = best_of(v) or v.tag == "Tup" and len(v.a) == 2 and all(fld(unref(x), i) is not None and best_of(fld(unref(x), i)) for x, i in zip(v.a, "01"))
            ctx.ob("python", [fn.path], s is True and okk, "the Python chosen is %s when %s" % (show(v), show_facts(q)))
        elif q.end == "next":
            ctx.ob("python", [fn.path, "passed over"], s is False or pk == "None", "a Python is passed over when %s" % show_facts(q))
        elif q.end == "ret":
            ctx.ob("python", [fn.path, "left"], q.err() and not (s is True and pk == "None"), "choosing a Python ends when %s" % show_facts(q))
        ctx.ob("python", [fn.path, "order"], not [x for x in subset(q.over) if x.tag in ("Iter", "Thin") and x.a[0] == "rev"] and not drops(ctx, q.over), "Pythons are gone through otherwise than in order of preference: %s" % show(q.over)[:200])
    ctx.floor("Pythons chosen", n, 1)
    for q in after:
        ctx.ob("python", ["resolve_pybi", "end"], q.end != "ret" or q.err(), "no Python is %s" % q.show()[:200])
    platforms(ctx, "python")


def root(p):
    return fact_of(p, lambda t: offered(t) == "0") == ("v", "Root")


def best_pybi(t):
    """the best pybi of the version at hand"""
    t = bare(t)
    if not isC(t, "pick_best_pybi") or len(t.a[1]) != 2:
        return False
    c = okof(isrc(t.a[1][0]), "artifacts_for_version")
    return c is not None and isarg(unref(c.a[1][0]), "db") and argfield(unref(c.a[1][1]), "brief", "python", "name") and pybi_version(c.a[1][2]) and isarg(unref(t.a[1][1]), "platforms")


def best_of(t):
    return some(unref(t), "Some") is not None and best_pybi(some(unref(t), "Some"))


def platforms(ctx, rule):
    fn = ctx.fn(r"resolve::pick_best_pybi$")
    plat = lambda t: unref(t).tag == "Elem" and isarg(isrc(unref(t).a[0]), "platforms")
    file = lambda t: unref(t).tag == "Elem" and isarg(isrc(unref(t).a[0]), "artifact_infos")
    pybi = lambda t: t.tag == "P" and t.a[1] == "Pybi" and fld(t.a[0], "name") is not None and file(fld(t.a[0], "name"))

    def tags(t):
        x = fld(isrc(t), "arch_tags")
        x = bare(x) if x is not None else None
        return x is not None and (pybi(x) or x.tag == "P" and isC(bare(x.a[0]), "inner_as") and fld(unref(bare(x.a[0]).a[1][0]), "name") is not None and file(fld(unref(bare(x.a[0]).a[1][0]), "name")))
    fits = lambda t: isC(t, "max_compatibility") and plat(t.a[1][0]) and tags(t.a[1][1]) and not drops(ctx, t.a[1][1]) and not any(x.tag == "Thin" for x in subset(t.a[1][1]))
    score = lambda t: some(unref(t), "Some") is not None and fits(some(unref(t), "Some"))
    key = lambda t: score(t) or unref(t).tag == "F" and unref(t).a[1] == "1" and score_pair(unref(t).a[0], file, score)
    after, n, kinds = [], 0, set()
    its = ctx.iterations(fn, lambda t: isarg(isrc(t), "platforms"), after=after, pure=r"max_compatibility|inner_as")
    for q in its:
        ctx.ob(rule, [fn.path, "platforms"], not drops(ctx, q.over) and not [x for x in subset(q.over) if x.tag in ("Iter", "Thin") and x.a[0] == "rev"], "platforms are gone through otherwise than in order: %s" % show(q.over))
        if q.end == "ret":
            n += 1
            v = bare(q.v)
            x = some_of(v)
            x = bare(x) if x is not None else None
            okk = x is not None and x.tag == "Tup" and len(x.a) == 2 and plat(x.a[1])
            if okk:
                mx = [y for y in subset(x.a[0]) if isC(y, "max_by_key", "min_by_key")]
                okk = len(mx) >= 1 and len({y for y in mx}) == 1 and isC(mx[0], "max_by_key") and len(mx[0].a[1]) >= 3 and key(mx[0].a[1][2])
                if okk:
                    e = bare(mx[0].a[1][1])
                    got = unref(x.a[0])
                    okk = isarg(isrc(mx[0].a[1][0]), "artifact_infos")
                    okk = okk and (e.tag == "Tup" and file(e.a[0]) and got.tag == "F" and got.a[1] == "0" or file(e) and got.tag != "F")
                    for m, d in drops(ctx, mx[0].a[1][0]):
                        k = fact_of(d, lambda t: fld(t, "name") is not None and file(fld(t, "name"))) if d is not None else None
                        isnt = isinstance(k, tuple) and (k[0] == "nv" and "Pybi" in k[1] or k[0] == "v" and k[1] != "Pybi") or d is not None and any(v == ("v", "None") and isC(bare(t), "inner_as") for t, v in d.facts.items())
                        okd = d is not None and (isnt or no_score(d, plat, file))
                        ctx.ob(rule, [fn.path, "all"], okd, "a pybi is left out by %s when %s" % (m, show_facts(d) if d is not None else "its place says so"))
            ctx.ob(rule, [fn.path, "best"], okk, "the pybi picked is %s" % show(v)[:500])
        elif q.end == "next":
            bad = any(t.tag == "Exists" for t in q.facts) or [e for e in q.evs if e.kind == "store"] or any(isC(bare(t), "max_by_key", "min_by_key") and v == ("v", "Some") for t, v in q.facts.items())
            ctx.ob(rule, [fn.path, "passed over"], not bad, "a platform is passed over when %s" % show_facts(q))
    ctx.floor("ways a pybi is picked", n, 1)
    for p in after:
        if p.end == "ret":
            ctx.ob(rule, [fn.path, "none"], no_extra(p.v), "no pybi is %s" % show(p.v)[:200])


def score_pair(t, file, score):
    t = unref(t)
    return t.tag == "Tup" and len(t.a) == 2 and file(t.a[0]) and score(t.a[1])


def no_score(d, plat, file):
    return any(isC(bare(t), "max_compatibility") and v == ("v", "None") for t, v in d.facts.items())


RULES = {"P23": [p23], "P24": [p24], "P25": [p25], "P26": [p26], "P27": [p27], "P28": [p28], "P29": [p29], "P30": [p30]}
