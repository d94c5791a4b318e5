"""Building wheels from source: loops, the exchange with the PEP 517 frontend, what may go wrong halfway, what is built with."""
import re
import pyflow
import terms
from rulelib import *
from rules.formats import isarg, argfield, fmt_is
from rules.envs import last, okof, fld, unref, joined, const_bytes

FRONT = "src/package_db/data-files/build-frontend.py"


def show_facts(p, n=110):
    return "; ".join("%s=%s" % (show(a)[:n], b[1] if isinstance(b, tuple) else b) for a, b in p.facts.items())


# ---- P40: no build is started while it is being waited for ---------------------------------
def names_sdist(t):
    """the distribution's name of the sdist argument"""
    t = unref(t)
    return isC(t, "distribution", "ArtifactName::distribution") and argfield(unref(t.a[1][0]), "sdist_ai", "name")


def extended(t):
    c = okof(t, "new_build_stack", "WheelBuilder::new_build_stack")
    return c is not None and isarg(c.a[1][0], "self") and names_sdist(c.a[1][1])


def is_extended(v, stack):
    """a list of everything on the stack, and the package"""
    v = strip(v) if strip(v).tag == "P" and strip(v).a[1] == "Ok" else v
    src = bare(v)
    if isC(src, "collect", "to_vec", "concat"):
        src = bare(src.a[1][0])
    parts = list(src.a[1:]) if src.tag == "Iter" and src.a[0] == "chain" else src.a[1] if isC(src, "chain") else list(src.a) if src.tag == "Arr" else None
    if src.tag == "Arr" and len(parts) == 1 and isarg(unref(parts[0]), "package") and not history(v):
        return "if empty"
    if parts is not None:
        def single(x):
            x = plain(x)
            return isC(x, "iter::once", "once", "slice::from_ref", "from_ref") and isarg(unref(x.a[1][0]), "package") or x.tag == "Arr" and len(x.a) == 1 and isarg(unref(x.a[0]), "package") or isarg(unref(x), "package")
        return len(parts) == 2 and stack(parts[0]) and single(parts[1])
    base, one, rest = stack(src), 0, 0
    for m, a in history(v):
        x = unref(a[-1])
        if m.rsplit("::", 1)[-1] in ("push", "extend", "extend_from_slice") and (x.tag == "Elem" and stack(x.a[0]) or stack(x)):
            rest += 1
        elif m.rsplit("::", 1)[-1] in ("push", "extend") and isarg(x, "package"):
            one += 1
        else:
            return False
    if not (one == 1 and (base and not rest or empty_list(src))):
        return False
    return True if base or rest else "if empty"


def p40(ctx):
    ctx.rule("stack", "the stack of packages being built is extended by exactly the package about to be built, and only if it is not on it already")
    ctx.rule("first", "a build checks for a loop, under the name of its own sdist, before anything else")
    ctx.rule("passed", "every resolution and environment a build needs is given the extended stack, and hands it to the builds it needs")
    fn = ctx.fn(r"WheelBuilder.*::new_build_stack$")
    n = 0

    def stack(t):
        t = bare(t)
        while t.tag in ("Iter", "C") and (t.tag == "Iter" and t.a[0] in ("src", "cloned", "copied") or t.tag == "C" and last(t) in ("to_vec", "clone", "to_owned", "deref", "as_slice", "into")):
            t = bare(t.a[1] if t.tag == "Iter" else t.a[1][0])
        return argfield(t, "self", "build_stack")

    def eqs(t):
        b = bare(t)
        if b.tag == "Bin" and b.a[0] == "Eq":
            xs = [unref(b.a[1]), unref(b.a[2])]
            return any(isarg(x, "package") for x in xs) and any(bare(x).tag == "Elem" and stack(bare(x).a[0]) for x in xs)
        return isC(b, "contains") and stack(b.a[1][0]) and isarg(unref(b.a[1][1]), "package")
    its = ctx.iterations(fn, stack)
    compared = False
    grown = set()
    for p in ctx.paths(fn):
        if not p.ok():
            continue
        n += 1
        v = p.val()
        hit = [t for t, x in p.facts.items() if eqs(t) and x is True]
        ctx.ob("stack", [fn.path, "loop"], not hit, "a package already being built is accepted")
        seen = any(eqs(t) and x is False for t, x in p.facts.items())
        compared = compared or seen
        empty = all(t.tag == "NoElem" and stack(t.a[0]) or last(bare(t)) == "is_empty" and x is True for t, x in p.facts.items())
        ctx.ob("stack", [fn.path, "looked"], seen or empty, "the packages being built are not looked through: %s" % show_facts(p))
        okk = is_extended(v, stack)
        grown.add(okk)
        ctx.ob("stack", [fn.path, "extended"], okk, "the stack becomes %s" % show(v)[:200])
    ctx.ob("stack", [fn.path, "whole"], True in grown, "the packages on the stack are not part of the extended one")
    ctx.floor("ways to extend the stack", n, 1)
    # the whole stack is looked through
    k = 0
    for q in its:
        k += 1
        hit = any(eqs(t) and x is True for t, x in q.facts.items())
        if q.end == "next":
            ctx.ob("stack", [fn.path, "each"], any(eqs(t) and x is False for t, x in q.facts.items()), "an entry is passed over without comparing it")
        elif q.end == "ret" and not q.err():
            ctx.fail("stack", [fn.path, "each"], "the search ends early: %s" % q.show()[:200])
        elif q.end == "ret":
            ctx.ob("stack", [fn.path, "error"], hit, "an entry other than the package is taken for a loop")
    ctx.ob("stack", [fn.path, "compared"], compared, "the package is compared with nothing on the stack")
    # the entry points
    entries = {}
    for name in ("locally_built_wheel", "locally_built_metadata"):
        fn = ctx.fn(r"WheelBuilder.*::%s$" % name)
        entries[fn.path] = fn
        c = 0
        for p in ctx.paths(fn, interesting=lambda e: e.kind == "call" and e.is_("new_build_stack", "pep517", "KVDirStore::lock", "lock", "get_artifact", "resolve", "get_env", "read_dir", "fs::read")):
            order = [last_name(e) for e in p.evs]
            if "new_build_stack" in order:
                ctx.ob("first", [fn.path, "first"], order[0] == "new_build_stack", "%s comes before the check for a loop" % order[0])
            for e in p.evs:
                if last_name(e) == "pep517":
                    c += 1
                    ctx.ob("first", [fn.path, "extended"], extended(e.args[-1]) and isarg(e.args[0], "self") and isarg(e.args[1], "sdist_ai"), "the build is started with %s" % [show(a)[:100] for a in e.args])
        ctx.floor("builds started in " + name, c, 1)
    # who starts builds, steps, environments
    want = {"pep517": set(entries), "pep517_step": None, "get_env_for_build": None}
    for f, ok in want.items():
        k = 0
        for g, bi, t, fr in ctx.callers("WheelBuilder::" + f, "WheelBuilder::<'a>::" + f, f):
            r = root_fn(ctx.p, g)
            k += 1
            if ok is not None:
                ctx.ob("first", [r.path, f], r.path in ok, "a build is started without checking for a loop")
                continue
            for p in ctx.paths(r, interesting=lambda e: e.kind == "call" and last_name(e) == f, keep=lambda t: False, pure=r"."):
                for e in p.evs:
                    ctx.ob("passed", [r.path, f], isarg(unref(e.args[-1]), "new_build_stack"), "the stack given is %s" % show(e.args[-1])[:150])
        ctx.floor("callers of " + f, k, 1)
    fn = ctx.fn(r"WheelBuilder.*::get_env_for_build$")
    k = 0
    for p in ctx.paths(fn, interesting=lambda e: e.kind == "call" and last_name(e) in ("resolve", "get_env"), keep=lambda t: False, pure=r"resolve$|get_env$"):
        for e in p.evs:
            k += 1
            ctx.ob("passed", [fn.path, last_name(e)], isarg(unref(e.args[-1]), "new_build_stack"), "the stack given is %s" % show(e.args[-1])[:150])
    ctx.floor("resolutions and environments for builds", k, 4)
    k = 0
    seen = set()
    for g, bi, t, fr in ctx.callers("WheelBuilder::new", "WheelBuilder::<'a>::new"):
        r = root_fn(ctx.p, g)
        if r.path in seen:
            continue
        seen.add(r.path)
        for p in ctx.paths(r, interesting=lambda e: e.kind == "call" and e.is_("WheelBuilder::new"), keep=lambda t: False, pure=r".", limit=400000):
            for e in p.evs:
                k += 1
                ctx.ob("passed", [r.path, "WheelBuilder::new"], isarg(unref(e.args[-1]), "build_stack"), "the stack given is %s" % show(e.args[-1])[:150])
    ctx.floor("wheel builders made", k, 2)
    fn = ctx.fn(r"WheelBuilder.*::new$")
    for p in ctx.paths(fn, keep=lambda t: False):
        if p.ok():
            v = strip(p.val())
            st = strip(v.a[3][v.a[2].index("build_stack")]) if v.tag == "A" and "build_stack" in v.a[2] else None
            ctx.ob("passed", [fn.path, "kept"], st is not None and isarg(unref(st), "build_stack") and not history(st), "the stack kept is %s" % (show(st)[:150] if st is not None else "none"))
    cons = [f.path for f, *_ in constructions(ctx.p, "WheelBuilder")] if False else []
    muts = set()
    for f in ctx.p.fns.values():
        if "build_wheel" in f.path and not is_test(f) and f.kind in ("Fn", "AssocFn"):
            for p in ctx.paths(f, interesting=lambda e: e.kind == "store", keep=lambda t: False, limit=300000):
                for e in p.evs:
                    if any(x.tag == "F" and x.a[1] == "build_stack" for x in subset(e.args[0])):
                        muts.add(f.path)
    ctx.ob("passed", ["WheelBuilder", "build_stack"], not muts, "the stack is changed by %s" % sorted(muts))


def last_name(e):
    return e.name.rsplit("::", 1)[-1] if e.kind == "call" else ""


# ---- the roles of the files exchanged ------------------------------------------------------
WRITES = {"fs::write": 0, "fs::copy": 1, "File::create": 0, "File::create_new": 0, "File::options": None, "WriteTreeFS::new": 0, "fs::create_dir": 0, "unix::fs::symlink": 1}


def in_place(ctx, rule, key, what, isdir):
    """nothing is written bit by bit below a directory others look at: it is prepared elsewhere and renamed there"""
    r = roles(ctx)
    n = 0
    for p in r["ps"]:
        for e in p.evs:
            if e.kind != "call":
                continue
            at = next((i for k, i in WRITES.items() if e.is_(k)), None)
            if at is None or at >= len(e.args):
                continue
            n += 1
            b, parts = joined(e.args[at])
            ctx.ob(rule, [r["fn"].path, key, last_name(e)], not isdir(b), "%s is written in place, with %s: an interruption leaves a part of it that counts as the whole" % (what, e.name))
    ctx.floor("files written while preparing a build", n, 1)


def last_name(e):
    return e.name.rsplit("::", 1)[-1]


def cache_dir(t):
    lk = okof(t, "KVDirStore::lock", "lock")
    if lk is not None:
        return argfield(lk.a[1][0], "self", "db", "wheel_cache")
    x = bare(t)
    return x.tag == "P" and x.a[1] == "Some" and isarg(unref(x.a[0]), "wheel_cache_handle")


def build_dir(t):
    """the build directory of the sdist: the locked entry of the build store, under the sdist's hash"""
    c = okof(unref(t), "KVDirStore::lock", "lock")
    if c is None or not argfield(c.a[1][0], "self", "db", "build_store"):
        return False
    h = okof(unref(c.a[1][1]), "require_hash", "ArtifactInfo::require_hash")
    return h is not None and isarg(unref(h.a[1][0]), "sdist_ai")


def in_build(t):
    """components of a path below the build directory, or below where all of it was moved"""
    b, parts = joined(t)
    return parts if build_dir(b) else None


def text_of(t):
    """the path whose content, as text, this is: components below the build directory"""
    c = okof(unref(t), "String::from_utf8", "from_utf8", "read_to_string", "fs::read_to_string")
    if c is None:
        return None
    if last(c) == "read_to_string":
        return in_build(c.a[1][0])
    r = okof(unref(c.a[1][0]), "fs::read", "read")
    return in_build(r.a[1][0]) if r is not None else None


def pep517_paths(ctx):
    fn = ctx.fn(r"WheelBuilder.*::pep517$")
    old = terms.MAXDEPTH
    terms.MAXDEPTH = 70
    ps = ctx.paths(fn, pure=r"Path::join|require_hash|KVDirStore::lock|Path::exists|fs::read|TempDir|from_utf8|WheelName|tempdir", limit=400000)
    terms.MAXDEPTH = old
    return fn, ps


def variant(t):
    t = strip(t)
    return t.a[1] if t.tag == "A" else None


def field(t, name):
    t = strip(t)
    return t.a[3][t.a[2].index(name)] if t.tag == "A" and name in t.a[2] else None


def exists_true(p):
    out = []
    for t, v in p.facts.items():
        b = bare(t)
        if isC(b, "Path::exists", "exists", "try_exists", "is_file") and v is True:
            x = in_build(b.a[1][0])
            if x is not None:
                out.append("/".join(map(str, x)))
    return out


def roles(ctx):
    """from the Rust side: the files that decide what is done, and the files that are read"""
    if hasattr(ctx, "_roles"):
        return ctx._roles
    fn, ps = pep517_paths(ctx)
    r = dict(fn=fn, ps=ps, wheel=[], meta=[])
    for p in ps:
        if not p.ok():
            continue
        v = strip(p.val())
        if variant(v) == "Wheel":
            r["wheel"].append((p, v))
        elif variant(v) == "WheelMetadata":
            r["meta"].append((p, v))
        else:
            ctx.fail("anchor", [fn.path, "result"], "pep517 returns %s" % show(v)[:200])
    r["M"], r["PM"] = set(), set()
    for p, v in r["wheel"]:
        r["M"] |= set(exists_true(p))
    for p, v in r["meta"]:
        r["PM"] |= set(exists_true(p))
    r["M"].discard("")
    r["PM"].discard("")
    ctx._roles = r
    return r


def updated(t):
    """a struct some of whose fields were replaced: what it was, and the fields replaced"""
    f = {}
    while t.tag in ("Upd", "Acc", "Ref", "Cp", "Deref"):
        if t.tag == "Upd":
            f.setdefault(t.a[1], t.a[2])
        t = t.a[0]
    return t, f


def wheel_name_src(t):
    """the parsed name of the wheel: (components of the file its text is in)"""
    t = bare(t)
    c = okof(t, "WheelName::from_str", "from_str", "parse", "try_from")
    return text_of(c.a[1][-1]) if c is not None else None


def moved(p, t):
    """components below the build directory, also if it was renamed away as a whole on this path"""
    x = in_build(t)
    if x is not None:
        return x
    b, parts = joined(t)
    for e in p.evs:
        if e.kind == "call" and e.is_("fs::rename") and in_build(e.args[0]) == []:
            b2, parts2 = joined(e.args[1])
            if b2 is b and parts[:len(parts2)] == parts2:
                return parts[len(parts2):]
    return None


def p42_rust(ctx):
    ctx.rule("built-name", "the wheel used is the one the backend's build_wheel returned the name of")
    ctx.rule("built-cache", "the wheel goes to the wheel cache, under its sdist's hash and its own (retagged) name, and it is that file which is used")
    ctx.rule("built-tags", "a wheel built for one architecture is tagged with the architecture it was built on; one for any is left alone")
    ctx.rule("built-goal", "a build asked for a wheel gives a wheel")
    r = roles(ctx)
    fn = r["fn"]
    n = 0
    for p, v in r["wheel"]:
        n += 1
        w = okof(field(v, "wheel") if field(v, "wheel") is not None else v.a[3][0], "Artifact::new", "Wheel::new", "new")
        if w is None:
            ctx.fail("built-name", [fn.path, "wheel"], "the wheel is %s" % show(v)[:300])
            continue
        raw = strip(field(v, "wheel") if field(v, "wheel") is not None else v.a[3][0])
        raw = strip(raw.a[0])
        (name, newf), opened = updated(raw.a[1][0]), okof(w.a[1][1], "File::open", "open")
        nf = wheel_name_src(name)
        ctx.ob("built-name", [fn.path, "name"], nf is not None and len(nf) == 1, "its name is %s" % show(name)[:300])
        if opened is None or nf is None:
            ctx.fail("built-cache", [fn.path, "opened"], "the file opened is %s" % show(w.a[1][1])[:200])
            continue
        r.setdefault("N", set()).add(nf[0])
        cb, cparts = joined(opened.a[1][0])
        lk = okof(cb, "KVDirStore::lock", "lock")
        if lk is not None:
            h = okof(unref(lk.a[1][1]), "require_hash", "ArtifactInfo::require_hash")
            okk = argfield(lk.a[1][0], "self", "db", "wheel_cache") and h is not None and isarg(unref(h.a[1][0]), "sdist_ai")
        else:
            x = bare(cb)
            okk = x.tag == "P" and x.a[1] == "Some" and isarg(unref(x.a[0]), "wheel_cache_handle")
        ctx.ob("built-cache", [fn.path, "cache"], okk and len(cparts) == 1, "it is kept at %s" % show(opened.a[1][0])[:200])
        shown = [x for y in subset(raw.a[1][1]) if y.tag == "Fmt" for x in subset(y) if x is raw.a[1][0] or x is strip(raw.a[1][0]) and not newf] if cparts and isinstance(cparts[0], T) else []
        ctx.ob("built-cache", [fn.path, "own name"], bool(shown), "it is kept as %s" % show(opened.a[1][0])[:200])
        # how it got there
        mv = [e for e in p.evs if e.kind == "call" and e.is_("fs::rename", "fs::copy", "fs::hard_link") and joined(e.args[1])[0] is cb and joined(e.args[1])[1] == cparts and okfact(p, e)]
        okk = False
        src = None
        if mv:
            src = moved(p, mv[-1].args[0])
            if src is None:
                cp = [e for e in p.evs if e.kind == "call" and e.is_("fs::copy") and bare(e.args[1]) is bare(mv[-1].args[0])]
                src = moved(p, cp[-1].args[0]) if cp else None
            okk = src is not None and len(src) >= 2 and all(isinstance(x, str) for x in src[:-1]) and isinstance(src[-1], T) and text_of(src[-1]) == nf
        ctx.ob("built-cache", [fn.path, "moved"], okk, "what is put there is %s" % (show(mv[-1].args[0])[:300] if mv else "nothing"))
        if okk:
            r.setdefault("D", set()).add("/".join(src[:-1]))
        # tags
        def is_any(t, v):
            """whether one of the wheel's architectures is "any", if this says"""
            b = bare(t)
            if of_arch(b):
                return v == ("i", "any") if isinstance(v, tuple) and (v[0] == "i" or "any" in v[1]) else None
            if b.tag == "Bin" and b.a[0] in ("Eq", "Ne") and any(is_k(unref(x), "str", "any") for x in b.a[1:]) and any(of_arch(unref(x)) for x in b.a[1:]):
                return v is (b.a[0] == "Eq")

        def of_arch(b):
            return b.tag == "Elem" and any(y.tag == "F" and y.a[1] == "arch_tags" for y in subset(b))
        some = any(is_any(t, v) is False for t, v in p.facts.items())
        ctx.ob("built-tags", [fn.path, "others"], set(newf) <= {"arch_tags"}, "%s of the wheel's name are changed" % sorted(newf))
        if "arch_tags" in newf:
            okk = some
            val = strip(newf["arch_tags"])
            tg = bare(val.a[0]) if val.tag == "Arr" and len(val.a) == 1 else None
            fl = fld(unref(tg), "1") if tg is not None else None
            c = None
            if fl is not None and fl.tag == "P" and fl.a[1] == "Some" and isC(bare(fl.a[0]), "rsplit_once", "str::rsplit_once"):
                c = bare(fl.a[0])
            elif tg is not None and unref(tg).tag == "P" and isC(bare(unref(tg).a[0]), "next", "next_back", "last"):
                c = None
            tf = text_of(c.a[1][0]) if c is not None else None
            okk = okk and tf is not None and len(tf) == 1 and is_k(bare(c.a[1][1])) and bare(c.a[1][1]).a[1] in ("-", ord("-"))
            if tf:
                r.setdefault("T", set()).add(tf[0])
            ctx.ob("built-tags", [fn.path, "retagged"], okk, "the wheel is tagged %s knowing %s" % (show(val)[:200], show_facts(p)[:0]))
        else:
            ctx.ob("built-tags", [fn.path, "kept"], not some, "a wheel for a particular architecture keeps the tag the backend gave it")
    ctx.floor("ways to finish with a wheel", n, 2)
    in_place(ctx, "built-cache", "whole", "a wheel in the cache", cache_dir)
    ctx.ob("built-tags", [fn.path, "retags"], bool(r.get("T")), "no wheel is retagged")
    for p, v in r["meta"]:
        g = [x for t, x in p.facts.items() if isarg(unref(t), "goal")] + [x for t, x in p.facts.items() if goal_eq(t)]
        okk = ("v", "WheelMetadata") in g or any(goal_eq(t) and x is (goal_eq(t) == "WheelMetadata") for t, x in p.facts.items())
        ctx.ob("built-goal", [fn.path, "metadata"], okk, "metadata is returned whatever is asked for: %s" % show_facts(p)[-300:])
        d = field(v, "dist_info")
        x = in_build(d) if d is not None else None
        okk = x is not None and len(x) >= 2 and all(isinstance(y, str) for y in x[:-1]) and isinstance(x[-1], T) and text_of(x[-1]) is not None and len(text_of(x[-1])) == 1
        ctx.ob("built-name", [fn.path, "dist-info"], okk, "the metadata directory is %s" % (show(d)[:200] if d is not None else None))
        h = field(v, "handle")
        ctx.ob("built-name", [fn.path, "lock"], h is not None and build_dir(h), "the lock on the build directory is given up while its metadata is in use")
        if okk:
            r.setdefault("PD", set()).add("/".join(x[:-1]))
            r.setdefault("PN", set()).add(text_of(x[-1])[0])
    ctx.floor("ways to finish with metadata", len(r["meta"]), 1)


def okfact(p, e):
    for t, v in p.facts.items():
        b = bare(t)
        if b.tag == "C" and name_is(b.a[0], e.name) and tuple(map(bare, b.a[1])) == tuple(map(bare, e.args)):
            return v in (("v", "Ok"), True) or isinstance(v, tuple) and v[1] == "Ok"
    return True


def goal_eq(t):
    b = bare(t)
    if b.tag == "Bin" and b.a[0] == "Eq" or isC(b, "eq"):
        xs = [unref(x) for x in (b.a[1:] if b.tag == "Bin" else b.a[1])]
        if any(isarg(x, "goal") for x in xs):
            for x in xs:
                if strip(x).tag == "A":
                    return strip(x).a[1]
    return None


def p42_used(ctx):
    ctx.rule("built-used", "a locally built wheel is used only if it works on the wanted platform: the best one in the sdist's own cache entry, else one built now")
    fn = ctx.fn(r"WheelBuilder.*::locally_built_wheel$")

    def cache(t):
        c = okof(unref(t), "KVDirStore::lock", "lock")
        if c is None or not argfield(c.a[1][0], "self", "db", "wheel_cache"):
            return False
        h = okof(unref(c.a[1][1]), "require_hash", "ArtifactInfo::require_hash")
        return h is not None and isarg(unref(h.a[1][0]), "sdist_ai")

    def entries(it):
        return any(isC(x, "fs::read_dir", "std::fs::read_dir") and cache(x.a[1][0]) for x in subset(bare(it)))

    def entry_name(t):
        """the file name of an element (or earlier element) of the directory"""
        t = unref(t)
        while t.tag == "P" and t.a[1] in ("Some", "Ok") and isC(bare(t.a[0]), "to_str", "OsStr::to_str", "into_string") or t.tag == "C" and last(t) in ("to_string_lossy", "into_owned", "to_os_string"):
            t = unref(bare(t.a[0]).a[1][0]) if t.tag == "P" else unref(t.a[1][0])
        if not isC(t, "file_name", "DirEntry::file_name"):
            return None
        e = unref(t.a[1][0])
        if e.tag == "P" and e.a[1] == "Ok":
            e = bare(e.a[0])
        return e if e.tag in ("Elem", "Old") else None

    def score(t):
        c = okof(t, "max_compatibility", "Platform::max_compatibility")
        if c is None or not isarg(unref(c.a[1][0]), "wheel_platform") or not isC(bare(c.a[1][1]), "all_tags", "BinaryName::all_tags"):
            return None
        nm = okof(unref(bare(c.a[1][1]).a[1][0]), "WheelName::from_str", "from_str", "parse", "try_from")
        return entry_name(nm.a[1][-1]) if nm is not None else None
    n = k = 0
    for p in ctx.paths(fn, pure=r"DirEntry|OsStr::to_str|WheelName::from_str|max_compatibility|all_tags|new_build_stack"):
        if p.end != "ret" or p.err():
            continue
        v = strip(p.val() if p.ok() else p.v)
        c = okof(field_of(v, "Wheel", "wheel"), "pep517", "WheelBuilder::pep517") if field_of(v, "Wheel", "wheel") is not None else None
        if c is not None:
            n += 1
            a = c.a[1]
            hd = strip(a[3]) if len(a) > 3 else None
            okk = isarg(a[0], "self") and isarg(unref(a[1]), "sdist_ai") and variant(a[2]) == "Wheel" and hd is not None and hd.tag == "A" and hd.a[1] == "Some" and cache(hd.a[3][0])
            ctx.ob("built-used", [fn.path, "built"], okk, "the build is %s" % show(c)[:300])
            good = [t for t, x in p.facts.items() if isC(bare(t), "max_compatibility", "Platform::max_compatibility") and isarg(unref(bare(t).a[1][0]), "wheel_platform") and x == ("v", "Some") and any(y is v or y is bare(v) for y in subset(bare(t)))]
            ctx.ob("built-used", [fn.path, "compatible"], bool(good), "a wheel is used without checking that it works on the platform: %s" % show_facts(p)[-400:])
            continue
        w = okof(v, "Artifact::new", "Wheel::new")
        w = w if w is not None else (bare(v) if isC(bare(v), "Artifact::new", "Wheel::new") else None)
        if w is None:
            ctx.fail("built-used", [fn.path, "result"], "the wheel used is %s" % show(v)[:300])
            continue
        k += 1
        op = okof(w.a[1][1], "File::open", "open")
        b, parts = joined(op.a[1][0]) if op is not None else (v, [])
        nm = okof(unref(w.a[1][0]), "WheelName::from_str", "from_str", "parse", "try_from")
        okk = cache(b) and len(parts) == 1 and isinstance(parts[0], T) and entry_name(parts[0]) is not None and nm is not None and entry_name(nm.a[1][-1]) is entry_name(parts[0])
        if not okk:
            # taken from a collected list
            okk = cache(b) and len(parts) == 1 and isinstance(parts[0], T) and any(last(x) in ("max_by_key", "max_by", "max", "last", "pop") for x in subset(bare(parts[0])))
        ctx.ob("built-used", [fn.path, "cached"], okk, "the wheel used is %s" % show(w)[:300])
        if any(e.kind == "call" and last_name(e) == "pep517" for e in p.evs):
            ctx.fail("built-used", [fn.path, "cached"], "a wheel is built although one is cached")
    ctx.floor("ways to build a wheel", n, 1)
    ctx.floor("ways to use a cached wheel", k, 1)
    its = ctx.iterations(fn, entries, old=True)
    m = 0
    for q in its:
        if q.end == "panic":
            continue
        if q.end == "ret":
            ctx.ob("built-used", [fn.path, "left"], q.err() or not q.left_early(), "the search ends early: %s" % q.show()[:200])
            continue
        # a running maximum?
        cand = [l for l in q.env1 if strip(q.env1[l]).tag == "A" and strip(q.env1[l]).a[1] in ("Some", "None") and l in q.env0]
        sc = [t for t in q.facts if score(mk("P", t, "Some", "0")) is not None and score(mk("P", t, "Some", "0")).tag == "Elem"]
        whl = [x for t, x in q.facts.items() if isC(bare(t), "ends_with", "str::ends_with") and entry_name(bare(t).a[1][0]) is not None and is_k(bare(bare(t).a[1][1]), "str", ".whl")]
        upd = [l for l in cand if q.env1[l] is not q.env0[l]]
        if not sc:
            okk = whl == [False] or any(v == ("v", "None") and "extension" in show(t) for t, v in q.facts.items()) or any(v is False and any(is_k(x, "str", "whl") for x in subset(t)) for t, v in q.facts.items())
            ctx.ob("built-used", [fn.path, "skipped"], okk and not upd, "a cached wheel is passed over: %s" % show_facts(q)[-300:])
            continue
        m += 1
        if q.facts[sc[0]] == ("v", "None"):
            ctx.ob("built-used", [fn.path, "incompatible"], not upd, "a cached wheel that does not work is taken")
            continue
        pushes = [e for e in q.evs if e.kind == "call" and last_name(e) == "push"]
        if pushes:
            continue
        new = strip(q.env1[upd[0]]) if upd else None
        if new is not None:
            tup = strip(new.a[3][0]) if new.a[1] == "Some" else None
            xs = [unref(x) for x in tup.a] if tup is not None and tup.tag == "Tup" else []
            okk = any(score(x) is not None and score(x).tag == "Elem" for x in xs) and all(not any(y.tag == "Old" for y in subset(x)) for x in xs)
            ctx.ob("built-used", [fn.path, "taken"], okk, "the best wheel becomes %s" % show(new)[:200])
        prev = [l for l in cand if strip(q.env0[l]).a[1] == "Some" and any(y.tag == "Old" for y in subset(q.env0[l]))]
        if not prev and strip(q.env0[cand[0]]).tag == "A" and strip(q.env0[cand[0]]).a[1] == "None" if cand else False:
            ctx.ob("built-used", [fn.path, "first"], bool(upd), "a cached wheel that works is passed over")
            continue
        lt = None
        for t, x in q.facts.items():
            b = bare(t)
            if b.tag == "Bin" and b.a[0] in ("Lt", "Le", "Gt", "Ge"):
                a, c = score(b.a[1]), score(b.a[2])
                if a is not None and c is not None and {a.tag, c.tag} == {"Elem", "Old"}:
                    op = b.a[0] if a.tag == "Old" else {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}[b.a[0]]
                    lt = op in ("Lt", "Le") if x else op in ("Gt", "Ge")
        ctx.ob("built-used", [fn.path, "best"], lt is not None and lt == bool(upd), "the best wheel is %s knowing %s" % ("replaced" if upd else "kept", show_facts(q)[-300:]))
    mx = [1 for p in ctx.paths(fn, keep=lambda t: False, interesting=lambda e: e.kind == "call" and last_name(e) in ("max_by_key",)) for e in p.evs]
    ctx.floor("cached wheels looked at", m + len(mx), 2)


def field_of(v, var, name):
    """v = F(P(x, var), name): x"""
    v = bare(v)
    if v.tag == "P" and v.a[1] == var:
        return v.a[0]
    if v.tag == "F" and v.a[1] == name:
        x = bare(v.a[0])
        return x.a[0] if x.tag == "P" and x.a[1] == var else None
    return None


def p42_meta(ctx):
    ctx.rule("built-metadata", "the metadata of an sdist is the METADATA file the backend prepared, or that of the wheel it built")
    fn = ctx.fn(r"WheelBuilder.*::locally_built_metadata$")
    k = n = 0
    for p in ctx.paths(fn, pure=r"new_build_stack"):
        if not p.ok():
            continue
        v = strip(p.val())

        def build(t):
            return t is not None and isC(bare(t), "pep517", "WheelBuilder::pep517") and variant(bare(t).a[1][2]) == "WheelMetadata" and isarg(unref(bare(t).a[1][1]), "sdist_ai")
        c = okof(v, "metadata", "BinaryArtifact::metadata")
        if c is not None or isC(bare(v), "metadata", "BinaryArtifact::metadata"):
            c = c if c is not None else bare(v)
            n += 1
            w = field_of(unref(c.a[1][0]), "Wheel", "wheel")
            o = okof(w, "pep517", "WheelBuilder::pep517") if w is not None else None
            ctx.ob("built-metadata", [fn.path, "wheel"], build(o), "the metadata is that of %s" % show(c)[:200])
            continue
        k += 1
        okk = False
        if v.tag == "Tup" and len(v.a) == 2:
            buf = okof(unref(v.a[0]), "fs::read", "read")
            par = okof(unref(v.a[1]), "try_into", "try_from", "parse", "TryInto::try_into", "TryFrom::try_from")
            if buf is not None and par is not None:
                b, parts = joined(buf.a[1][0])
                d = field_of(b, "WheelMetadata", "dist_info")
                o = okof(d, "pep517", "WheelBuilder::pep517") if d is not None else None
                okk = parts == ["METADATA"] and build(o) and bare(v.a[0]) in subset(bare(par.a[1][-1]))
        ctx.ob("built-metadata", [fn.path, "prepared"], okk, "the metadata is %s" % show(v)[:300])
    ctx.floor("metadata from the prepare hook", k, 1)
    ctx.floor("metadata from a built wheel", n, 1)


# ---- P41: the frontend --------------------------------------------------------------------
WD = ("argv", 1)


def wd_file(v):
    v = pyflow.unstr(v)
    if v[0] == "join" and v[1] == WD and v[2][0] == "const":
        return v[2][1]
    return None


def py_effects(p):
    """the path's effects in order: ("write", file, value) ("move", from, to) ("mkdir", dir) ("rmtree", dir) ("hook", name, event) ..."""
    out = []
    opened = {}
    for i, e in enumerate(p.evs):
        if e[0] != "call":
            continue
        f, args, kw, res = e[1], e[2], dict(e[3]), e[4]
        nm = f[2] if f[0] == "attr" else f[1].rsplit(".", 1)[-1] if f[0] == "g" else ""
        recv = pyflow.unstr(f[1]) if f[0] == "attr" else None
        mode = None
        if f == ("g", "open") or nm == "open" and recv is not None:
            a = list(args)
            path = pyflow.unstr(a.pop(0)) if f == ("g", "open") else recv
            mode = a[0][1] if a and a[0][0] == "const" else kw.get("mode", ("const", "r"))[1]
            opened[res] = (path, mode)
            if any(c in str(mode) for c in "wxa+"):
                out.append(("create", path, i))
            continue
        if nm in ("write_text", "write_bytes") and recv is not None:
            v = args[0] if args else kw.get("data", ("const", None))
            out.append(("write", recv, v, i))
        elif nm == "write" and recv is not None and f[1] in opened:
            out.append(("write", opened[f[1]][0], args[0], i))
        elif nm == "dump" and f[0] == "g" and len(args) >= 2 and args[1] in opened:
            out.append(("write", opened[args[1]][0], ("call", ("g", "json.dumps"), (args[0],), (), 0), i))
        elif nm in ("replace", "rename") and recv is not None and len(args) == 1:
            out.append(("move", recv, pyflow.unstr(args[0]), i))
        elif f in (("g", "os.replace"), ("g", "os.rename"), ("g", "shutil.move")):
            out.append(("move", pyflow.unstr(args[0]), pyflow.unstr(args[1]), i))
        elif nm in ("mkdir", "makedirs"):
            d = recv if recv is not None else pyflow.unstr(args[0])
            ok = kw.get("exist_ok", ("const", False))
            out.append(("mkdir", d, ok != ("const", False), i))
        elif nm == "rmtree":
            out.append(("rmtree", pyflow.unstr(args[0]), i))
        elif nm in ("unlink", "remove", "rmdir"):
            out.append(("unlink", recv if recv is not None and recv[0] != "list" else pyflow.unstr(args[0]) if args else recv, i))
        elif recv is not None and is_backend(recv) and nm in HOOKS:
            out.append(("hook", nm, args, kw, res, i))
        elif f[0] == "attr" and nm in ("exists", "is_file", "is_dir"):
            continue
    return out


HOOKS = ("get_requires_for_build_wheel", "prepare_metadata_for_build_wheel", "build_wheel")


def is_backend(v):
    return any(x == ("g", "importlib.import_module") or x == ("g", "__import__") for x in walkv(v))


def walkv(v):
    if isinstance(v, tuple):
        yield v
        for x in v:
            yield from walkv(x)


def exists_fact(p, name, upto=None):
    """was wd/name known to exist (last look)?"""
    got = None
    for v, t in p.facts:
        if v[0] == "call" and v[1][0] == "attr" and v[1][2] in ("exists", "is_file", "is_dir") and wd_file(v[1][1]) == name:
            got = t
    return got


def front(ctx):
    src = ctx.read(FRONT)
    try:
        ps = pyflow.paths(src)
    except (SyntaxError, pyflow.Unsupported) as e:
        ctx.fail("anchor", FRONT, "cannot follow the program: %s" % e)
        raise Stop()
    ctx.npaths += len(ps)
    return ps


def success(p):
    if p.end == ("end",):
        return True
    if p.end[0] == "exit":
        return p.end[1] in (("const", 0), ("const", None), ("const", False))
    return False


def p41(ctx):
    ctx.rule("protocol", "the frontend and posy agree on the arguments and on every file they exchange")
    ctx.rule("complete", "a file that says a hook is done appears in one step, after everything else that hook produces")
    ctx.rule("retry", "a hook is given an empty directory even after an attempt that failed or was interrupted")
    ctx.rule("progress", "a step that succeeds has done a hook that was not done before, so a build ends")
    ctx.rule("hooks", "the hooks are called as PEP 517 says: extra requirements are installed before building, metadata is prepared if asked for and possible, and the wheel is told about it")
    ctx.rule("hook-errors", "an error in a hook is an error of the step")
    p42_quiet = ctx
    r = roles(ctx)
    if "N" not in r:
        # fill in the remaining roles without judging them here
        sub = Quiet(ctx)
        p42_rust(sub)
    M, PM, N, T, D, PD, PN = [r.get(k, set()) for k in ("M", "PM", "N", "T", "D", "PD", "PN")]
    PM = PM - M
    fn = r["fn"]
    in_place(ctx, "complete", "build directory", "what the build directory starts with", build_dir)
    ctx.ob("protocol", [fn.path, "roles"], bool(M) and bool(PM) and len(N) == len(T) == len(D) == len(PD) == len(PN) == 1, "the files exchanged are %s" % [sorted(map(str, x)) for x in (M, PM, N, T, D, PD, PN)])
    if not (M and PM and N and T and D and PD and PN):
        return
    N, T, D, PD, PN = [next(iter(x)) for x in (N, T, D, PD, PN)]
    # the step: arguments, files
    st = ctx.fn(r"WheelBuilder.*::pep517_step$")
    SP = step_paths(ctx, st)
    A = step_args(ctx, st, SP)
    reqs = set()
    for p in SP:
        for e in p.evs:
            if e.kind == "call" and e.is_("File::open", "fs::read") and hjoin(e.args[0]) and len(hjoin(e.args[0])) == 1 and isinstance(hjoin(e.args[0])[0], str):
                reqs.add(hjoin(e.args[0])[0])
    if A is None:
        ctx.fail("protocol", [st.path, "args"], "the frontend is not started with one known list of arguments")
        return
    ctx.ob("protocol", [st.path, "args"], A == ["frontend", "dir", "goal", "tag"], "the frontend gets %s" % A)
    script = "build-frontend.py"
    wr = set()
    for p, v in r["wheel"] + r["meta"]:
        for e in p.evs:
            if e.kind == "call" and e.is_("fs::write"):
                b = const_bytes(e.args[1])
                _, parts = joined(e.args[0])
                if parts[-1:] == [script]:
                    wr.add(b)
    src = ctx.read(FRONT).encode("utf-8", "surrogateescape")
    ctx.ob("protocol", [fn.path, "frontend"], wr == {src}, "the program written as %s is not %s" % (script, FRONT))
    goals = sorted(v for v in debug_names(ctx))
    ctx.ob("protocol", ["Pep517Goal", "Debug"], goals == ["Wheel", "WheelMetadata"], "the goals are passed as %s" % goals)
    ps = front(ctx)
    n = {"ok": 0, "wheel": 0, "meta": 0, "req": 0}
    G = None
    for p in ps:
        for v in [x[0] for x in p.facts] + [e[4] for e in p.evs if e[0] == "call"]:
            for x in walkv(v):
                if x[:1] == ("argv",) and x[1] not in (1, 2, 3):
                    ctx.fail("protocol", [FRONT, "argv"], "argument %s is used" % (x[1],))
                if x[:1] == ("cmp",) and ("argv", 2) in x[2:]:
                    k = [y[1] for y in x[2:] if y[0] == "const"]
                    ctx.ob("protocol", [FRONT, "goal"], k and set(k) <= set(goals), "the goal is compared with %s" % k)
    # the file with the extra requirements: the one that the step reads as a list
    for p in ps:
        eff = py_effects(p)
        ok = success(p)
        n["ok"] += ok
        final, complete = {}, []
        hooks = [x for x in eff if x[0] == "hook"]
        hookres = {x[4]: x for x in hooks}
        fresh = {}
        alias = {}
        for x in eff:
            if x[0] == "write":
                alias[x[1]] = x[2]
                nm = wd_file(x[1])
                if nm is not None:
                    final[nm] = (x[2], False, x[-1])
            elif x[0] == "create":
                nm = wd_file(x[1])
                if nm is not None and nm not in final:
                    final[nm] = (None, False, x[-1])
            elif x[0] == "move":
                nm = wd_file(x[2])
                if nm is not None:
                    final[nm] = (alias.get(x[1]), True, x[-1])
                s = wd_file(x[1])
                if s is not None:
                    final.pop(s, None)
            elif x[0] == "mkdir":
                nm = wd_file(x[1])
                gone = any(y[0] == "rmtree" and y[1] == x[1] and y[-1] < x[-1] for y in eff)
                absent = exists_fact(p, nm) is False if nm else False
                fresh[nm] = (gone or absent) and not (x[2] and not (gone or absent))
            elif x[0] in ("rmtree", "unlink"):
                nm = wd_file(x[1])
                if nm is not None:
                    final.pop(nm, None)
                if nm in (M | PM | {N, T, PN} | reqs) and nm not in ():
                    ctx.fail("progress", [FRONT, str(nm)], "the frontend removes %s" % nm)
        new = set(final)
        done = lambda ms: all(m in new for m in ms)
        # markers: atomic, last
        for m in sorted((M | PM | reqs) & new, key=str):
            v, atomic, at = final[m]
            if m in ("build-system.json", "saved-blueprint.json"):
                ctx.fail("protocol", [FRONT, m], "the frontend writes %s" % m)
                continue
            ctx.ob("complete", [FRONT, m, "at once"], atomic, "%s is written in place, so an interruption leaves an incomplete one that counts" % m)
        mlast = max([final[m][2] for m in M & new] or [-1])
        if M <= new:
            n["wheel"] += 1
            hs = [x for x in hooks if x[1] == "build_wheel"]
            first = min(final[m][2] for m in M)
            okk = len(hs) == 1 and hs[0][-1] < first
            ctx.ob("complete", [FRONT, "wheel"], okk, "the wheel counts as built before the backend built it")
            ctx.ob("complete", [FRONT, "wheel files"], N in new and T in new and all(final[f][2] <= mlast for f in (N, T)) and all(final[f][2] < min(final[m][2] for m in M) or f in M for f in (N, T)), "%s or %s appears after what says the wheel is built" % (N, T))
            if okk:
                h = hs[0]
                a0 = pyflow.unstr(h[2][0]) if h[2] else pyflow.unstr(h[3].get("wheel_directory", ("const", None)))
                ctx.ob("protocol", [FRONT, "wheel directory"], wd_file(a0) == D, "the wheel is built in %s, but taken from %s" % (pyflow.show(a0), D))
                ctx.ob("retry", [FRONT, "wheel directory"], fresh.get(D, False), "the wheel directory is not known to be new and empty")
                ctx.ob("protocol", [FRONT, "wheel name"], N in final and final[N][0] == h[4], "%s holds %s" % (N, pyflow.show(final.get(N, (None,))[0] or ("op", "nothing"))))
                ctx.ob("protocol", [FRONT, "wheel tag"], T in final and final[T][0] == ("argv", 3), "%s holds %s" % (T, pyflow.show(final.get(T, (None,))[0] or ("op", "nothing"))))
                md = h[2][2] if len(h[2]) > 2 else h[3].get("metadata_directory", ("const", None))
                hasmeta = [exists_fact(p, m) for m in PM]
                if all(x is True for x in hasmeta) and hasmeta:
                    md = pyflow.unstr(md)
                    okm = md[0] == "join" and wd_file(md[1]) == PD and any(wd_file(y) == PN for y in walkv(md[2])) and "read" in pyflow.show(md[2])
                    ctx.ob("hooks", [FRONT, "metadata_directory"], okm, "the wheel hook is told the metadata is in %s" % pyflow.show(md))
                else:
                    ctx.ob("hooks", [FRONT, "no metadata_directory"], md == ("const", None), "the wheel hook is told of metadata that may be incomplete: %s" % pyflow.show(md))
                    ctx.ob("hooks", [FRONT, "metadata looked for"], any(x is False for x in hasmeta), "the wheel hook is not told of metadata prepared before")
        if PM <= new:
            n["meta"] += 1
            hs = [x for x in hooks if x[1] == "prepare_metadata_for_build_wheel"]
            okk = len(hs) == 1 and hs[0][-1] < min(final[m][2] for m in PM)
            ctx.ob("complete", [FRONT, "metadata"], okk and PN in new and (PN in PM or final[PN][2] < min(final[m][2] for m in PM)), "the metadata counts as prepared before the backend prepared it")
            if okk:
                h = hs[0]
                a0 = pyflow.unstr(h[2][0]) if h[2] else pyflow.unstr(h[3].get("metadata_directory", ("const", None)))
                ctx.ob("protocol", [FRONT, "metadata directory"], wd_file(a0) == PD, "metadata is prepared in %s, but taken from %s" % (pyflow.show(a0), PD))
                ctx.ob("retry", [FRONT, "metadata directory"], fresh.get(PD, False), "the metadata directory is not known to be new and empty")
                ctx.ob("protocol", [FRONT, "metadata name"], PN in final and final[PN][0] == h[4], "%s holds %s" % (PN, pyflow.show(final.get(PN, (None,))[0] or ("op", "nothing"))))
            ctx.ob("hooks", [FRONT, "metadata goal"], goal_fact(p, "WheelMetadata") is True, "metadata is prepared whatever is asked for")
        rq = sorted((new & reqs) - M - PM)
        for f in rq:
            n["req"] += 1
            ctx.ob("progress", [FRONT, f], exists_fact(p, f) is False, "%s is written again" % f)
            v = final[f][0]
            inner = v[2][0] if v and v[0] == "call" and v[1] == ("g", "json.dumps") and v[2] else None
            hs = [x for x in hooks if x[1] == "get_requires_for_build_wheel"]
            missing = any(x[0] == "raised" and x[2] == "AttributeError" and "get_requires_for_build_wheel" in x[1] and x[1].count("(") == x[1].count("getattr(") for x, t in p.facts) or has_fact(p, "get_requires_for_build_wheel") is False
            okk = inner is not None and (len(hs) == 1 and inner == hs[0][4] or not hs and missing and inner[0] == "list" and inner[2] == ())
            if not okk and inner is not None and len(hs) == 1:
                okk = hs[0][4] in list(walkv(inner)) and pyflow.show(inner) in ("list(%s)" % pyflow.show(hs[0][4]),)
            ctx.ob("protocol", [FRONT, "extra requirements"], okk, "%s holds %s" % (f, pyflow.show(v or ("op", "nothing"))))
        if hooks and [x for x in hooks if x[1] != "get_requires_for_build_wheel"]:
            # the extra requirements are known, and there are none that are not installed
            hs = [x for x in hooks if x[1] == "get_requires_for_build_wheel"]
            if hs:
                f = [t for v, t in p.facts if v == hs[0][4]]
                ctx.ob("hooks", [FRONT, "requirements first"], f and f[-1] is False, "a hook is called although its requirements may not be installed")
            else:
                known = any(exists_fact(p, f) is True for f in reqs - M - PM) or any(f in new for f in rq)
                ctx.ob("hooks", [FRONT, "requirements asked"], known, "a hook is called without asking the backend for its requirements")
        if ok:
            req_new = bool(rq) and not (M <= new or PM <= new)
            prog = M <= new or (PM <= new and goal_fact(p, "WheelMetadata") is True) or req_new
            ctx.ob("progress", [FRONT, "done"], prog, "the step succeeds without having finished a hook: wrote %s" % sorted(map(str, new)))
            if M <= new:
                # metadata was asked for and possible?
                if goal_fact(p, "WheelMetadata") is True:
                    ctx.ob("hooks", [FRONT, "metadata if possible"], has_fact(p, "prepare_metadata_for_build_wheel") is False, "a wheel is built although metadata is asked for and the backend can prepare it")
            bad = [x for x, t in p.facts if x[0] == "raised" and any(h in x[1] for h in HOOKS) and x[1].replace("getattr(", "").count("(") > 0]
            ctx.ob("hook-errors", [FRONT, "swallowed"], not bad, "an error of %s is swallowed" % [x[1] for x in bad])
            sysx = [x for x, t in p.facts if x[0] == "raised" and "import_module" in x[1]]
            ctx.ob("hook-errors", [FRONT, "import"], not sysx, "the backend cannot be imported, and that is ignored")
    ctx.floor("ways the frontend succeeds", n["ok"], 4)
    ctx.floor("ways to build a wheel", n["wheel"], 2)
    ctx.floor("ways to prepare metadata", n["meta"], 2)
    ctx.floor("ways to record extra requirements", n["req"], 2)
    ctx.ob("protocol", [st.path, "requirements read"], any(f in reqs for f in ["get_requires_for_build_wheel"]) or bool(reqs), "the step reads no extra requirements")
    # Rust: a failed step fails the build; a done hook is looked for before stepping
    k = 0
    for p in r["ps"]:
        for e in p.evs:
            if e.kind == "call" and last_name(e) == "pep517_step":
                k += 1
                a = e.args
                ctx.ob("protocol", [fn.path, "step"], isarg(a[0], "self") and build_dir(a[1]) and isarg(unref(a[2]), "goal"), "the step is %s" % [show(x)[:80] for x in a])
        bad = [t for t, v in p.facts.items() if isC(bare(t), "pep517_step", "WheelBuilder::pep517_step") and v == ("v", "Err")]
        ctx.ob("hook-errors", [fn.path, "step"], not bad or p.err() or p.end == "panic", "the build goes on although a step failed")
    ctx.floor("steps", k, 1)
    retire(ctx, r, M, D)


def retire(ctx, r, M, D):
    ctx.rule("again", "once the wheel is taken out of the build directory the build does not count as done any more")
    fn = r["fn"]
    for p, v in r["wheel"]:
        okk = False
        for e in p.evs:
            if e.kind != "call":
                continue
            if e.is_("fs::rename") and in_build(e.args[0]) == [] and okfact(p, e):
                okk = True
            elif e.is_("fs::remove_dir_all") and in_build(e.args[0]) == []:
                okk = True
            elif e.is_("fs::remove_file") and in_build(e.args[0]) in [[m] for m in M]:
                okk = True
        # it stays if it is only copied
        taken = [e for e in p.evs if e.kind == "call" and e.is_("fs::rename") and in_build(e.args[0]) and "/".join(map(str, in_build(e.args[0])[:-1])) == D]
        ctx.ob("again", [fn.path, "retired"], okk or not taken, "the wheel is moved out of a build that still counts as done")
    ctx.floor("ways a wheel is taken", len(r["wheel"]), 1)


class Quiet:
    """a context whose verdicts count for nothing"""
    def __init__(self, ctx):
        self.__dict__["c"] = ctx

    def __getattr__(self, k):
        if k in ("rule", "ob", "fail", "floor"):
            return lambda *a, **kw: None
        return getattr(self.c, k)


def goal_fact(p, name):
    got = None
    for v, t in p.facts:
        if v[0] == "cmp" and v[1] == "Eq" and ("argv", 2) in v[2:]:
            k = [y[1] for y in v[2:] if y[0] == "const"]
            if k == [name]:
                got = t
            elif k and t:
                got = False
            elif k and not t and set(k) | {name} == {"Wheel", "WheelMetadata"}:
                got = True
    return got


def has_fact(p, name):
    got = None
    for v, t in p.facts:
        if v[0] == "call" and v[1] == ("g", "hasattr") and len(v[2]) == 2 and v[2][1] == ("const", name):
            got = t
        elif v[0] == "call" and v[1] == ("g", "getattr") and len(v[2]) == 3 and v[2][1] == ("const", name):
            got = t
        elif v[0] == "cmp" and v[1] == "Is" and v[3] == ("const", None) and any(x == ("const", name) for x in walkv(v[2])):
            got = not t
        elif v[0] == "raised" and v[2] == "AttributeError" and name in v[1]:
            got = False
    return got


def debug_names(ctx):
    """what {:?} makes of the goals"""
    fn = ctx.fn(r"Pep517Goal as std::fmt::Debug>::fmt$", derived=True)
    out = set()
    for p in ctx.paths(fn):
        var = [v[1] for t, v in p.facts.items() if isinstance(v, tuple) and v[0] == "v"]
        for e in p.evs:
            if e.kind == "call" and last_name(e) == "write_str":
                s = bare(e.args[-1])
                out.add(s.a[1] if is_k(s, "str") else None)
    return {x for x in out if x is not None}


# ---- the step -----------------------------------------------------------------------------
def hjoin(t):
    """components of a path below the handle argument"""
    b, parts = joined(t)
    return parts if isarg(b, "handle") else None


def step_paths(ctx, st):
    if not hasattr(ctx, "_sp"):
        old = terms.MAXDEPTH
        terms.MAXDEPTH = 70
        ctx._sp = ctx.paths(st, pure=r"Path::join|DirEntry|from_utf8|tags$", limit=400000)
        terms.MAXDEPTH = old
    return ctx._sp


def command(p):
    """the process started on this path: (the Command term, [(method, args)] in order)"""
    ev = [e for e in p.evs if e.kind == "call" and e.is_("Command::spawn", "Command::status", "Command::output", "spawn", "status", "output") and any(isC(x, "Command::new", "process::Command::new") for x in subset(e.args[0]))]
    if not ev:
        return None, []
    cmds = [x for x in subset(bare(ev[-1].args[0])) if isC(x, "Command::new", "process::Command::new")]
    calls = []
    for e in p.evs:
        if e.kind == "call" and e.args and e.name.rsplit("::", 2)[-2:-1] == ["Command"] and any(isC(x, "Command::new", "process::Command::new") for x in [bare(e.args[0])] + list(subset(bare(e.args[0])))):
            calls.append((last_name(e), e.args))
    return ev[-1], calls


def step_args(ctx, st, ps):
    out = None
    for p in ps:
        ev, calls = command(p)
        if ev is None:
            continue
        a = []
        for m, args in calls:
            if m == "arg":
                a.append(args[1])
            elif m == "args":
                x = strip(args[1])
                if x.tag in ("Arr", "Tup"):
                    a.extend(x.a)
                elif x.tag == "Iter" and bare(x.a[1]).tag == "Arr":
                    a.extend(bare(x.a[1]).a)
                else:
                    a.append(x)
        r = [arg_role(x) for x in a]
        if out is None:
            out = r
        elif out != r:
            return None
    return out


def arg_role(t):
    h = hjoin(t)
    if h == ["build-frontend.py"]:
        return "frontend"
    if h == []:
        return "dir"
    t = unref(t)
    if t.tag == "Fmt":
        ps = [x for x in subset(t) if isarg(x, "goal")]
        return "goal" if ps and "Dbg" in show(t) else show(t)[:100]
    x = t
    if x.tag == "P" and x.a[1] in ("Some", "Ok"):
        x = bare(x.a[0])
    if x.tag == "Elem" or isC(x, "next", "Iterator::next", "first"):
        src = x.a[0] if x.tag == "Elem" else x.a[1][0]
        for y in subset(bare(src)):
            if isC(y, "tags", "Platform::tags") and fld(unref(y.a[1][0]), "wheel_platform") is not None and is_env(fld(unref(y.a[1][0]), "wheel_platform")):
                return "tag" if not any(z.tag == "Thin" for z in subset(bare(src))) else "some tag"
    return show(t)[:150]


def is_env(t):
    f = fld(t, "1")
    return f is not None and okof(f, "get_env_for_build", "WheelBuilder::get_env_for_build") is not None


def p43_step(ctx):
    ctx.rule("root", "the backend runs in the sdist's one top-level directory")
    ctx.rule("backend", "the backend and its path are those pyproject.toml declares, setuptools' if it declares none")
    ctx.rule("requires", "the build environment holds the declared requirements and those the backend asked for, no others")
    ctx.rule("status", "a step counts as done only if the frontend exited successfully")
    st = ctx.fn(r"WheelBuilder.*::pep517_step$")
    n = parsed = 0
    filled = {}

    def rootdir(t):
        t = unref(t)
        if not isC(t, "path", "DirEntry::path"):
            return False
        x = unref(t.a[1][0])
        return any(isC(y, "fs::read_dir", "std::fs::read_dir") and hjoin(y.a[1][0]) == ["sdist"] for y in subset(x))
    for p in step_paths(ctx, st):
        if not p.ok():
            continue
        n += 1
        # one directory
        one = [x for t, x in p.facts.items() if last(bare(t)) == "len" and any(isC(y, "fs::read_dir", "std::fs::read_dir") for y in subset(bare(t)))]
        lens = [x for x in one if x == 1 or x == ("n", 1) or isinstance(x, tuple) and 1 in x]
        okk = bool(lens) or any(bare(t).tag == "Bin" and bare(t).a[0] == "Eq" and v is True and any(is_k(bare(y)) and bare(y).a[1] == 1 for y in bare(t).a[1:]) for t, v in p.facts.items())
        second = [t for t, v in p.facts.items() if v == ("v", "None") and last(bare(t)) == "next"]
        ctx.ob("root", [st.path, "one"], okk or bool(second), "the sdist may hold several top-level directories: %s" % show_facts(p)[:300])
        ev, calls = command(p)
        if ev is None:
            ctx.fail("status", [st.path, "started"], "a step succeeds without running the frontend")
            continue
        cd = [a[1] for m, a in calls if m == "current_dir"]
        ctx.ob("root", [st.path, "directory"], len(cd) == 1 and rootdir(cd[0]), "the frontend runs in %s" % [show(x)[:150] for x in cd])
        okk = any(isC(bare(t), "success", "ExitStatus::success") and v is True and any(isC(y, "Command::new", "process::Command::new") for y in subset(bare(t))) for t, v in p.facts.items()) or \
            any(isC(bare(t), "exit_ok") and v == ("v", "Ok") for t, v in p.facts.items()) or any(isC(bare(t), "code", "ExitStatus::code") for t in p.facts) and any(bare(t).tag == "Bin" and v is True and "code" in show(t) for t, v in p.facts.items())
        ctx.ob("status", [st.path, "status"], okk, "a step succeeds whatever the frontend's exit status: %s" % show_facts(p)[-300:])
        # build system
        wr = [e for e in p.evs if e.kind == "call" and last_name(e) in ("to_writer", "to_writer_pretty", "write") and any(hjoin(y) == ["build-system.json"] for y in subset(bare(e.args[0])))]
        ctx.ob("backend", [st.path, "written"], len(wr) == 1 and [e for e in p.evs].index(wr[0]) < p.evs.index(ev), "the backend is not told what to use")
        bs = unref(wr[0].args[1]) if wr else None
        okk = False
        if bs is not None:
            c = okof(bs, "parse_from", "PyprojectBuildSystemStanza::parse_from")
            rd = [t for t in p.facts if isC(bare(t), "fs::read", "fs::read_to_string") and joined(bare(t).a[1][0])[1] == ["pyproject.toml"] and rootdir(joined(bare(t).a[1][0])[0])]
            if c is not None:
                okk = any(isC(y, "fs::read", "fs::read_to_string") and joined(y.a[1][0])[1] == ["pyproject.toml"] and rootdir(joined(y.a[1][0])[0]) for y in subset(c)) and any(p.facts[t] == ("v", "Ok") for t in rd)
            else:
                nf = any(v == ("v", "NotFound") and "kind" in show(t)[:20] for t, v in p.facts.items())
                okk = isC(bs, "default", "Default::default") and any(p.facts[t] == ("v", "Err") for t in rd) and nf
        ctx.ob("backend", [st.path, "what"], okk, "the build system is %s knowing %s" % (show(bs)[:150] if bs is not None else None, show_facts(p)[:300]))
        # requirements
        g = [e for e in p.evs if e.kind == "call" and last_name(e) == "get_env_for_build"]
        okk = len(g) == 1
        if okk:
            its = elems_of(g[0].args[1])
            base = [x for x in its if bs is not None and (fld(x, "requires") is not None and unref(fld(x, "requires")) is bs)]
            rq = [x for x in p.facts if isC(bare(x), "from_reader", "serde_json::from_reader", "from_slice", "from_str") and "blueprint" not in show(x)]
            have = [x for x in rq if p.facts[x] == ("v", "Ok")]
            dyn = [x for x in its if any(z.tag == "P" and z.a[1] == "Ok" and isC(bare(z.a[0]), "from_reader", "serde_json::from_reader", "from_slice", "from_str") for z in [unref(x)])]
            absent = any(v == ("v", "NotFound") and "get_requires" in show(t) for t, v in p.facts.items())
            other = [x for x in its if x not in base and x not in dyn and not empty_list(x)]
            if empty_list(bare(g[0].args[1])):
                # filled by loops, which need not get to an element on every path
                u = filled.setdefault(absent, [set(), set()])
                u[0] |= set(base)
                u[1] |= set(dyn)
            else:
                ctx.ob("requires", [st.path, "declared"], len(base) == 1, "the requirements are %s" % [show(x)[:150] for x in its])
                ctx.ob("requires", [st.path, "asked for"], len(dyn) == 1 if not absent else not dyn, "the backend's own requirements are %s" % [show(x)[:150] for x in dyn])
            ctx.ob("requires", [st.path, "no others"], not other, "the requirements include %s" % [show(x)[:150] for x in other])
            for m, a in history(g[0].args[1]):
                c = okof(a[-1], "UserRequirement::from_str", "from_str", "parse", "try_from") if m.rsplit("::", 1)[-1] == "push" else None
                ctx.ob("requires", [st.path, "parsed"], c is not None and unref(c.a[1][-1]).tag == "Elem" and not any(y.tag == "Thin" for y in subset(a[-1])), "a requirement is %s" % show(a[-1])[:300])
                parsed += c is not None
            ctx.ob("requires", [st.path, "every one"], not dropping(g[0].args[1]), "requirements are left out of %s" % show(g[0].args[1])[:300])
        else:
            ctx.fail("requires", [st.path, "environment"], "a step has %d build environments" % len(g))
        lk = [e for e in g if len(e.args) > 2]
        for e in lk:
            x = unref(e.args[2])
            same_python(ctx, st, p, x)
    ctx.floor("ways a step succeeds", n, 4)
    ctx.floor("requirements parsed", parsed, 1)
    for absent, (base, dyn) in filled.items():
        ctx.ob("requires", [st.path, "declared"], bool(base), "the declared requirements are not among those used")
        ctx.ob("requires", [st.path, "asked for"], bool(dyn) or absent, "the backend's own requirements are not among those used")
    if filled:
        def over(it):
            return any(y.tag == "F" and y.a[1] == "requires" or isC(y, "from_reader", "serde_json::from_reader", "from_slice") for x in elems_of(it) + [it] for y in subset(bare(x))) and not any(isC(y, "fs::read_dir") for y in subset(bare(it)))
        for q in ctx.iterations(st, over):
            if q.end == "next":
                ctx.ob("requires", [st.path, "every one"], any(e.kind == "call" and last_name(e) == "push" for e in q.evs), "a requirement is passed over")


def dropping(t):
    return [x for x in subset(bare(t)) if x.tag == "Iter" and x.a[0] in ("filter", "filter_map", "take", "skip", "take_while", "skip_while", "step_by")]


def empty_list(t):
    t = unref(t)
    return isC(t, "Vec::new", "new", "default", "Default::default", "with_capacity") or t.tag == "Arr" and not t.a


def elems_of(t):
    """the lists whose elements a collected list is made of"""
    out = []
    work = [t]
    seen = set()
    while work:
        x = work.pop()
        while x.tag in ("Ref", "Cp", "Deref"):
            x = x.a[0]
        if x in seen:
            continue
        seen.add(x)
        for m, a in history(x):
            if m.rsplit("::", 1)[-1] in ("push", "extend", "append", "insert", "extend_from_slice", "extend_from_within"):
                v = bare(a[-1])
                c = okof(v, "UserRequirement::from_str", "from_str", "parse", "try_from")
                if c is not None and unref(c.a[1][-1]).tag == "Elem":
                    v = unref(c.a[1][-1])
                    if isC(strip(x), "collect") or strip(x).tag == "P":
                        continue
                if v.tag == "Elem":
                    # with whatever was done to the list it comes from
                    full = [y for y in subset(a[-1]) if y.tag == "Elem" and bare(y) == v]
                    work.append(full[0].a[0] if full else v.a[0])
                elif not isC(strip(x), "collect") and not (strip(x).tag == "P" and isC(strip(strip(x).a[0]), "collect")):
                    work.append(a[-1])
        b = unref(x)
        if b.tag == "P" and b.a[1] == "Ok" and isC(bare(b.a[0]), "collect"):
            b = bare(b.a[0])
        if isC(b, "collect"):
            y = strip(x)
            while y.tag == "P":
                y = strip(y.a[0])
            work.append(y.a[1][0] if isC(y, "collect") else b.a[1][0])
        elif b.tag == "Iter":
            work.extend(y for y in strip(x).a[1:] if isinstance(y, T) and y.tag in ("Iter", "Acc", "C", "F", "P", "Arr"))
        else:
            out.append(b)
    return out


def same_python(ctx, st, p, t):
    """a saved blueprint is a hint only for the Python it was made for: the file name says which"""
    t = bare(t)
    for x in subset(t):
        if isC(x, "File::open", "fs::read", "read_to_string"):
            h = hjoin(x.a[1][0])
            if h is None:
                continue
            nm = h[0] if h else None
            okk = isinstance(nm, T) and any(argfield(y, "self", "target_python_version") for y in subset(nm))
            ctx.ob("build-python", [st.path, "saved"], okk, "the blueprint saved in %s is used whatever Python it was made for" % (show(nm)[:100] if isinstance(nm, T) else nm))


def p43_system(ctx):
    ctx.rule("stanza", "of pyproject.toml the build-system table counts; what it leaves out is as PEP 517 prescribes")
    fn = ctx.fn(r"PyprojectBuildSystemStanza::parse_from$")
    n = 0

    def doc(t):
        c = okof(unref(t), "Document::from_str", "from_str", "parse")
        return c is not None and isarg(unref(c.a[1][-1]), "s")
    for p in ctx.paths(fn):
        if not p.ok():
            continue
        n += 1
        v = unref(p.val())
        tb = [(t, x) for t, x in p.facts.items() if isC(bare(t), "remove", "get", "Table::remove", "Table::get") and doc(bare(t).a[1][0])]
        c = okof(v, "from_item", "de::from_item")
        c = c if c is not None else (v if isC(v, "from_item", "de::from_item") else None)
        okk = len(tb) == 1 and is_k(bare(bare(tb[0][0]).a[1][1]), "str", "build-system")
        if okk and tb[0][1] == ("v", "Some"):
            okk = c is not None and bare(c.a[1][0]) is bare(mk("P", tb[0][0], "Some", "0"))
        elif okk:
            okk = tb[0][1] == ("v", "None") and isC(v, "default", "Default::default")
        ctx.ob("stanza", [fn.path, "table"], okk, "the build system is %s knowing %s" % (show(v)[:150], show_facts(p)))
    ctx.floor("ways to read pyproject.toml", n, 2)
    fn = ctx.fn(r"PyprojectBuildSystemStanza as .*Default>::default$")
    for p in ctx.paths(fn):
        v = strip(p.v)
        f = {k: strip(x) for k, x in zip(v.a[2], v.a[3])} if v.tag == "A" else {}
        rq = [bare(x).a[1] if is_k(unref(x), "str") else None for x in (f["requires"].a if f.get("requires") is not None and f["requires"].tag == "Arr" else ())]
        rq = [unref(x).a[1] if is_k(unref(x), "str") else None for x in (f["requires"].a if f.get("requires") is not None and f["requires"].tag == "Arr" else ())]
        ctx.ob("stanza", [fn.path, "requires"], sorted(map(str, rq)) in (["setuptools", "wheel"], ["setuptools"]), "the default requirements are %s" % rq)
        bk = unref(f["build_backend"]) if "build_backend" in f else None
        ctx.ob("stanza", [fn.path, "backend"], bk is not None and is_k(bk, "str", "setuptools.build_meta:__legacy__"), "the default backend is %s" % (show(bk) if bk is not None else None))
        ctx.ob("stanza", [fn.path, "path"], "backend_path" in f and empty_list(f["backend_path"]), "the default backend path is %s" % (show(f["backend_path"]) if "backend_path" in f else None))
    # names in JSON and TOML
    fn = ctx.fn(r"impl serde::Serialize for .*PyprojectBuildSystemStanza>::serialize$", derived=True)
    names = {}
    for p in ctx.paths(fn):
        for e in p.evs:
            if e.kind == "call" and last_name(e) == "serialize_field":
                k = bare(e.args[1])
                x = unref(e.args[2])
                names[k.a[1] if is_k(k, "str") else None] = x.a[1] if x.tag == "F" and isarg(unref(x.a[0]), "self") else show(x)
    ctx.ob("stanza", ["PyprojectBuildSystemStanza", "to json"], names.get("build-backend") == "build_backend" and names.get("backend-path") == "backend_path", "the frontend is told %s" % names)
    fn = ctx.fn(r"PyprojectBuildSystemStanza>::deserialize::__FieldVisitor as serde::de::Visitor<'de>>::visit_str$", derived=True)
    got = set()
    for p in ctx.paths(fn):
        if p.ok() and "ignore" not in show(p.v):
            got |= {x[1] for t, x in p.facts.items() if isinstance(x, tuple) and x[0] == "i"}
    ctx.ob("stanza", ["PyprojectBuildSystemStanza", "from toml"], {"requires", "build-backend", "backend-path"} <= got, "the keys read are %s" % sorted(map(str, got)))
    from rules import saved
    ty = ctx.p.adt_named("PyprojectBuildSystemStanza")
    km, _ = saved.keys_read(ctx, ty)
    rd = saved.read_back(ctx, ty, [])
    ctx.ob("stanza", ["PyprojectBuildSystemStanza", "read field by field"], km is not None and rd is not None, "the table is not read field by field")
    if km is not None and rd is not None:
        for key in ("requires", "build-backend", "backend-path"):
            f = key.replace("-", "_")
            ctx.ob("stanza", ["PyprojectBuildSystemStanza", key, "read"], rd[0].get(km.get(key)) == {f}, "what is said of %s is read as %s" % (key, sorted(rd[0].get(km.get(key), ())) or "nothing"))
            ms = [unref(x) for x in rd[1].get(f, ())]
            okk = len(ms) >= 1 and all(x.tag == "F" and x.a[1] == f and isC(unref(x.a[0]), "default", "Default::default") or f == "backend_path" and saved.is_empty_value(x) for x in ms)
            ctx.ob("stanza", ["PyprojectBuildSystemStanza", key, "missing"], okk, "when nothing is said of %s it is %s" % (key, [show(x)[:100] for x in ms]))
        ctx.ob("stanza", ["PyprojectBuildSystemStanza", "as read"], not rd[3], "; ".join(rd[3])[:200])
    reads = set()
    for p in front(ctx):
        for v in [x[0] for x in p.facts] + [y for e in p.evs for y in e[1:] if isinstance(y, tuple)]:
            for x in walkv(v):
                if x[:1] == ("item",) and isinstance(x[2], tuple) and x[2][0] == "const" and isinstance(x[2][1], str) and "build-system.json" in pyflow.show(x[1]):
                    reads.add(x[2][1])
                if x[:1] == ("call",) and isinstance(x[1], tuple) and x[1][0] == "attr" and x[1][2] == "get" and "build-system.json" in pyflow.show(x[1][1]) and x[2] and x[2][0][0] == "const":
                    reads.add(x[2][0][1])
    ctx.ob("stanza", [FRONT, "keys"], reads and reads <= set(names), "the frontend reads %s of %s" % (sorted(reads), sorted(map(str, names))))
    ctx.ob("stanza", [FRONT, "all"], {"build-backend", "backend-path"} <= reads, "the frontend reads only %s" % sorted(reads))


def p43_front(ctx):
    ctx.rule("backend-path", "directories outside the source tree are never put on the backend's import path; those declared come first on it")
    ctx.rule("backend-object", "the backend is the object named by build-backend")
    ps = front(ctx)
    n = k = loops = 0
    for p in ps:
        imp = [i for i, e in enumerate(p.evs) if e[0] == "call" and e[1] in (("g", "importlib.import_module"), ("g", "__import__"))]
        sets = [(i, e) for i, e in enumerate(p.evs) if (e[0] == "set" and e[1] == ("g", "sys.path")) or e[0] == "set" and e[1] == ("g", "sys") and e[2] == ("const", "path") or
                e[0] == "call" and e[1][0] == "g" and e[1][1].startswith("sys.path.") and e[1][1].rsplit(".", 1)[-1] in ("insert", "append", "extend", "remove", "pop", "clear")]
        lists = {}
        for i, e in enumerate(p.evs):
            if e[0] == "call" and e[1][0] == "attr" and e[1][1][0] == "list" and e[1][2] in ("append", "insert", "extend"):
                lists.setdefault(e[1][1], []).append((i, e[1][2], e[2][-1]))

        def decl(v):
            return v[0] == "elem" and any(x[:1] in (("item",), ("call",)) and "'backend-path'" in pyflow.show(x) and "build-system.json" in pyflow.show(x) for x in walkv(v[1]))

        def good(v):
            """a declared directory, resolved and known to be below the source tree"""
            v = pyflow.unstr(v)
            if not (v[0] == "call" and v[1][0] == "attr" and v[1][2] == "resolve") and not (v[0] == "call" and v[1] == ("g", "os.path.realpath")):
                return False
            s = pyflow.unstr(v[1][1]) if v[1][0] == "attr" else pyflow.unstr(v[2][0])
            while s[0] == "join" and cwd(s[1]):
                s = s[2]
            if not decl(s):
                return False
            for f, t in p.facts:
                if f[0] == "call" and f[1][0] == "attr" and f[1][2] == "is_relative_to" and pyflow.unstr(f[1][1]) == v and cwd(f[2][0]) and t is True:
                    return True
                if f[0] == "cmp" and f[1] == "In" and cwd(f[2]) and f[3] == ("attr", v, "parents") and t is True:
                    return True
            return False
        added = []
        for i, e in sets:
            if e[0] == "set":
                vals = e[3]
                key = e[2]
                front_ = key[0] == "slice" and key[1:] in ((0, 0, None), (None, 0, None))
                src = vals
                if key == ("const", "path"):
                    ops = list(vals[1]) if vals[0] == "fmt" else list(vals[2:]) if vals[:2] == ("op", "Add") else []
                    front_ = len(ops) == 2 and ops[1] == ("g", "sys.path")
                    src = ops[0] if ops else vals
                    if vals[0] == "list" and vals[2][-1:] == (("star", ("g", "sys.path")),):
                        front_, src = True, ("list", vals[1], vals[2][:-1])
                ctx.ob("backend-path", [FRONT, "first"], front_ and src[0] == "list", "sys.path is changed by %s" % pyflow.show(vals)[:100])
                added += list(src[2]) + [v for _, m, v in lists.get(src, ())] if src[0] == "list" else [src]
            else:
                m = e[1][1].rsplit(".", 1)[-1]
                ctx.ob("backend-path", [FRONT, "first"], m == "insert" and e[2][0] == ("const", 0), "sys.path is changed by %s" % m)
                added.append(e[2][-1])
            if imp:
                ctx.ob("backend-path", [FRONT, "in time"], i < imp[0], "sys.path is changed after the backend was imported")
        for v in added:
            k += 1
            ctx.ob("backend-path", [FRONT, "inside"], good(v), "%s is put on the import path" % pyflow.show(v)[:200])
        if imp:
            n += 1
            # every declared directory is on it
            nonempty = [f for f, t in p.facts if f[0] == "empty" and t is False and "'backend-path'" in pyflow.show(f)]
            left = any(e[0] == "left" for e in p.evs[:imp[0]])
            ctx.ob("backend-path", [FRONT, "all"], (not nonempty or bool(added)) and not left, "a declared directory is left out")
            seen = any("'backend-path'" in pyflow.show(f) for f, t in p.facts)
            ctx.ob("backend-path", [FRONT, "looked at"], seen, "the declared directories are not looked at")
            # the object
            e = p.evs[imp[0]]
            a = e[2][0]

            def spec(v):
                return any(x[:1] in (("item",), ("call",)) and "'build-backend'" in pyflow.show(x) and "build-system.json" in pyflow.show(x) for x in walkv(v))
            part = a[1] if a[0] == "item" and a[2] == ("const", 0) else None
            okk = part is not None and part[0] == "call" and part[1][0] == "attr" and part[1][2] in ("partition", "split") and part[2][0] == ("const", ":") and spec(part[1][1])
            ctx.ob("backend-object", [FRONT, "module"], okk and len(imp) == 1, "the module imported is %s" % pyflow.show(a)[:150])
            # the attribute path
            if okk:
                names = ("item", part, ("const", 2)) if part[1][2] == "partition" else ("item", part, ("const", 1))
                sep = ("item", part, ("const", 1)) if part[1][2] == "partition" else None
                walked = [x for x in p.evs if x[0] == "loop" and x[1][0] == "call" and x[1][1] == ("attr", names, "split") and x[1][2] == (("const", "."),)]
                empt = [f for f, t in p.facts if f[0] == "empty" and t is True and f[1][0] == "call" and f[1][1] == ("attr", names, "split")]
                nosep = any(f in (sep, names) and t is False for f, t in p.facts) or any(f[0] == "cmp" and f[1] == "Eq" and t is True and f[3] == ("const", "") and f[2] in (sep, names) for f, t in p.facts)
                loops += bool(walked)
                used = {pyflow.unstr(x[1][1]) if False else x[1][1] for x in p.evs if x[0] == "call" and x[1][0] == "attr" and x[1][2] in HOOKS}
                for b in used:
                    base = b == e[4]
                    got = b[0] == "call" and b[1] == ("g", "getattr") and b[2][0] == e[4] and b[2][1][0] == "elem" and b[2][1][1][0] == "call" and b[2][1][1][1] == ("attr", names, "split")
                    ctx.ob("backend-object", [FRONT, "object"], got if walked else base, "the backend is %s" % pyflow.show(b)[:200])
                ctx.ob("backend-object", [FRONT, "attributes"], bool(walked) or bool(empt) or nosep, "the object's name within the module is ignored")
    ctx.floor("ways to import the backend", n, 3)
    ctx.floor("directories put on the import path", k, 1)
    ctx.floor("object names followed", loops, 1)
    bad = [p for p in ps if success(p) and any(f[0] == "call" and f[1][0] == "attr" and f[1][2] == "is_relative_to" and t is False for f, t in p.facts)]
    ctx.ob("backend-path", [FRONT, "error"], not bad, "a directory outside the source tree is no error")


def cwd(v):
    v = pyflow.unstr(v)
    while v[0] == "call" and v[1][0] == "attr" and v[1][2] in ("absolute", "resolve"):
        v = pyflow.unstr(v[1][1])
    return v[0] == "call" and v[1] in (("g", "pathlib.Path.cwd"), ("g", "os.getcwd")) or v == ("const", ".")


def p43_python(ctx):
    ctx.rule("build-python", "a build runs on the target's very Python version if there is one, else one of its minor version, else any; prereleases only if the target is one; on platforms this machine can run")
    fn = ctx.fn(r"WheelBuilder.*::get_env_for_build$")
    old = terms.MAXDEPTH
    terms.MAXDEPTH = 70
    ps = ctx.paths(fn, pure=r"resolve$|get_env$|is_prerelease|to_string|try_from|len$|downcast_ref", limit=400000, interesting=lambda e: e.kind == "call" and last_name(e) in ("resolve", "get_env"))
    terms.MAXDEPTH = old
    n = 0
    orders = set()
    for p in ps:
        seq = []
        for e in p.evs:
            if last_name(e) != "resolve":
                continue
            b = strip(e.args[0])
            f = {k: x for k, x in zip(b.a[2], b.a[3])} if b.tag == "A" else {}
            py = f.get("python")
            role = py_role(py) if py is not None else None
            like = strip(e.args[3])
            seq.append((role, e, like))
            n += 1
            ctx.ob("build-python", [fn.path, "request"], role is not None, "the Python asked for is %s" % (show(py)[:300] if py is not None else None))
            ap = strip(f["allow_pre"]) if "allow_pre" in f else None
            pre = [v for t, v in p.facts.items() if isC(bare(t), "is_prerelease", "Version::is_prerelease") and argfield(unref(bare(t).a[1][0]), "self", "target_python_version")]
            if True in pre:
                okk = ap is not None and ap.tag == "A" and ap.a[1] == "Some" and any(argfield(x, "self", "target_python") for x in subset(ap))
                ctx.ob("build-python", [fn.path, "prerelease"], okk, "for a prerelease, prereleases allowed are %s" % (show(ap)[:150] if ap is not None else None))
            else:
                okk = ap is not None and (isC(bare(ap), "default", "Default::default") or ap.tag == "A" and ap.a[1] == "Some" and not any(argfield(x, "self", "target_python") for x in subset(ap)))
                ctx.ob("build-python", [fn.path, "no prerelease"], okk and False in pre, "prereleases allowed are %s" % (show(ap)[:150] if ap is not None else None))
            pl = unref(e.args[2])
            ctx.ob("build-python", [fn.path, "platforms"], argfield(pl, "self", "build_platforms"), "the platforms are %s" % show(pl)[:100])
        orders.add(tuple(x[0] for x in seq))
        # only the absence of a Python moves on
        for i in range(len(seq) - 1):
            a = seq[i][1]
            for t, v in p.facts.items():
                pass
        errs = [t for t, v in p.facts.items() if isC(bare(t), "resolve", "Brief::resolve") and v == ("v", "Err")]
        if errs and p.ok():
            nf = [1 for t, v in p.facts.items() if v == ("v", "NoPybiFound")] or [1 for t, v in p.facts.items() if "NoPybiFound" in show(t) and v is True]
            ctx.ob("build-python", [fn.path, "absent"], len(nf) >= 1, "another Python is tried after an error other than its absence: %s" % show_facts(p)[:300])
    ctx.floor("resolutions for builds", n, 4)
    ranks = {"exact": 0, "minor": 1, "any": 2}
    for o in orders:
        tries = [x for x in o if x is not None]
        if len(tries) > 1:
            t = tries[:-1]
            ctx.ob("build-python", [fn.path, "order"], t == sorted(t, key=ranks.get) and t[:1] == ["exact"], "Pythons are tried in the order %s" % t)
    ctx.ob("build-python", [fn.path, "all tried"], any({"exact", "minor", "any"} <= set(o) for o in orders), "the Pythons tried are %s" % sorted(map(str, orders)))
    # WheelBuilder::new: platforms
    fn = ctx.fn(r"WheelBuilder.*::new$")
    its = ctx.iterations(fn, lambda it: isarg(plain(it), "target_platforms"))
    k = 0
    for q in its:
        if q.end != "next":
            continue
        k += 1
        nat = [v for t, v in q.facts.items() if bare(t).tag == "P" and isC(bare(bare(t).a[0]), "is_native", "PybiPlatform::is_native")]
        push = [e for e in q.evs if e.kind == "call" and last_name(e) == "push"]
        okk = nat and (bool(push) == (nat[-1] is True)) and all(bare(unref(e.args[1])).tag == "Elem" for e in push)
        ctx.ob("build-python", [fn.path, "native"], bool(okk), "a platform is %s though native=%s" % ("kept" if push else "dropped", nat))
    for p in ctx.paths(fn):
        if not p.ok():
            continue
        v = strip(p.val())
        bp = field(v, "build_platforms")
        src = set()
        thin = False
        for m, a in history(bp):
            x = bare(a[-1])
            src.add(show(bare(x.a[0]) if x.tag == "Elem" else x))
        bad = [s for s in src if "target_platforms" not in s and "native_platforms" not in s]
        ctx.ob("build-python", [fn.path, "kept"], bp is not None and not bad and not any(x.tag == "Thin" for x in subset(bp)), "the platforms built on are %s" % (show(bp)[:200] if bp is not None else None))
        emp = [x for t, x in p.facts.items() if last(bare(t)) == "is_empty"]
        nat = any("native_platforms" in s for s in src)
        anyp = any("target_platforms" in s for s in src)
        if not nat:
            ctx.ob("build-python", [fn.path, "none left"], anyp and emp[-1:] != [True], "there may be no platform left to build on")
        if nat:
            ctx.ob("build-python", [fn.path, "fallback"], emp[-1:] == [True] or not emp and not anyp, "this machine's platforms are added although the target's can be built on")
    ctx.floor("platforms considered", k, 2)


def plain(it):
    it = bare(it)
    while it.tag == "Iter" and it.a[0] in ("src", "cloned", "copied"):
        it = bare(it.a[1])
    return it


def py_role(t):
    """which Python a PythonRequirement term asks for: exact / minor / any"""
    t = bare(t)
    rq = None
    for x in subset(t):
        if x.tag == "A" and x.a[2] and "specifiers" in x.a[2] and "name" in x.a[2]:
            rq = x
            break
    if rq is None:
        return None
    f = dict(zip(rq.a[2], rq.a[3]))
    if not argfield(unref(f["name"]), "self", "target_python"):
        return None
    sp = strip(f["specifiers"])
    if isC(bare(sp), "default", "Default::default"):
        return "any"
    specs = [x for x in subset(sp) if x.tag == "A" and x.a[2] and "op" in x.a[2] and "value" in x.a[2]]
    if len(specs) != 1:
        return None
    s = dict(zip(specs[0].a[2], specs[0].a[3]))
    op = strip(s["op"])
    if not (op.tag == "A" and op.a[1] == "Equal"):
        return None
    v = unref(s["value"])
    if isC(v, "to_string") and argfield(unref(v.a[1][0]), "self", "target_python_version") or v.tag == "Fmt" and fmt_is(v, lambda t: argfield(unref(t), "self", "target_python_version")):
        return "exact"
    if v.tag == "Fmt" or isC(v, "format"):
        sh = show(v)
        same = [x for x in subset(v) if x.tag == "A" and x.a[2] and "release" in x.a[2] and "epoch" in x.a[2]]
        if sh.rstrip(")").endswith("'.*'") and len(same) == 1:
            m = dict(zip(same[0].a[2], same[0].a[3]))
            ok = all(strip(m[k]).tag == "A" and strip(m[k]).a[1] == "None" for k in ("pre", "post", "dev") if k in m) and empty_list(m["local"]) if "local" in m else False
            rel = m["release"]
            two = [x for x in subset(rel) if is_k(x) and x.a[1] == 2]
            ver = any(argfield(x, "self", "target_python_version", "0", "release") for x in subset(rel)) and any(argfield(x, "self", "target_python_version", "0", "epoch") for x in subset(m["epoch"]))
            return "minor" if ok and two and ver else None
    return None


RULES = {"P40": [p40], "P41": [p41], "P42": [p42_rust, p42_used, p42_meta], "P43": [p43_step, p43_system, p43_front, p43_python]}
