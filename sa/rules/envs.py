"""Environments: which artifacts are installed, what is checked about them, and what a process started in them sees."""
import ast, re
import terms
from rulelib import *
from rules.formats import isarg, argfield, fmt_is

PURE = r"(Path::join|KVDirStore|NicePathBuf|WheelBuilder::|TrampolineMaker|PackageDB::|Wheel::unpack|fs::|KVDirLock)"


def last(t):
    return t.a[0].rsplit("::", 1)[-1] if t.tag == "C" else ""


def okof(t, *names):
    """t is the Ok/Some value of a call to one of names: that call, or None"""
    t = bare(t)
    if t.tag == "P" and t.a[1] in ("Ok", "Some") and isC(bare(t.a[0]), *names):
        return bare(t.a[0])
    return None


def fld(t, name):
    t = bare(t)
    return bare(t.a[0]) if t.tag == "F" and t.a[1] == name else None


def unref(t):
    t = bare(t)
    while t.tag == "C" and last(t) in ("deref", "as_ref", "as_path", "borrow", "as_slice", "as_str", "to_path_buf", "to_owned", "clone", "into", "from", "as_os_str") and len(t.a[1]) == 1:
        t = bare(t.a[1][0])
    return t


def joined(t):
    """a path as (base term, [component strings or terms])"""
    parts = []
    t = unref(t)
    while t.tag == "C" and last(t) == "join" and len(t.a[1]) == 2:
        x = bare(t.a[1][1])
        parts[:0] = x.a[1].split("/") if is_k(x, "str") else [x]
        t = unref(t.a[1][0])
    return t, parts


def typed(t, want):
    return len(t.a) > 2 and want in t.a[2]


def pybi_pick(t):
    t = okof(t, "pick_pinned_binary")
    return t is not None and typed(t, "Pybi") and isarg(t.a[1][0], "db") and isarg(unref(t.a[1][1]), "pybi_platforms") and argfield(t.a[1][2], "blueprint", "pybi")


def hash_of(t):
    """t = require_hash(ai)?Ok, or ai.hash?Some: the ai"""
    c = okof(t, "require_hash", "ArtifactInfo::require_hash")
    if c is not None:
        return bare(c.a[1][0])
    b = bare(t)
    if b.tag == "P" and b.a[1] in ("Some", "Ok"):
        x = bare(b.a[0])
        while x.tag == "C" and last(x) in ("as_ref", "cloned", "clone", "ok_or_else", "ok_or"):
            x = bare(x.a[1][0])
        return fld(x, "hash")
    return None


def pybi_root(t):
    c = okof(unref(t), "get_or_set", "KVDirStore::get_or_set")
    if c is None or not argfield(c.a[1][0], "self", "store"):
        return False
    ai = hash_of(c.a[1][1])
    return ai is not None and fld(ai, "0") is not None and pybi_pick(fld(ai, "0"))


def pybi_meta(t):
    """the PybiCoreMetadata read from the unpacked pybi"""
    t = bare(t)
    if t.tag != "P" or t.a[1] != "Ok" or last(bare(t.a[0])) not in ("try_from", "parse", "from_str", "try_into"):
        return False
    c = okof(unref(bare(t.a[0]).a[1][0]), "fs::read", "std::fs::read")
    if c is None:
        return False
    b, parts = joined(c.a[1][0])
    return pybi_root(b) and parts == ["pybi-info", "METADATA"]


def wheel_plat(t):
    c = okof(t, "wheel_platform", "PybiPlatform::wheel_platform")
    return c is not None and fld(c.a[1][0], "1") is not None and pybi_pick(fld(c.a[1][0], "1")) and pybi_meta(c.a[1][1])


def elem_wheels(t):
    t = bare(t)
    if t.tag != "Elem":
        return False
    it = bare(t.a[0])
    if it.tag == "Iter" and it.a[0] == "src":
        it = bare(it.a[1])
    return argfield(it, "blueprint", "wheels")


def the_pin(t):
    return fld(t, "0") is not None and elem_wheels(fld(t, "0"))


def over_wheels(it):
    b = bare(it)
    while b.tag == "Iter":
        if argfield(b, "blueprint", "wheels"):
            return True
        b = bare(b.a[1]) if isinstance(b.a[1], T) else b.a[1]
        if not isinstance(b, T):
            return False
    return argfield(b, "blueprint", "wheels")


def wheel_pick(t):
    """the pinned binary wheel chosen for the pin of this iteration"""
    f = fld(t, "0")
    c = okof(f, "pick_pinned_binary") if f is not None else None
    if c is None or not typed(c, "Wheel") or not isarg(c.a[1][0], "db") or not the_pin(c.a[1][2]):
        return False
    a = bare(c.a[1][1])
    return a.tag == "Arr" and len(a.a) == 1 and wheel_plat(a.a[0])


def of_pin(c):
    return the_pin(fld(c.a[1][1], "name") or mk("K", "x", None)) and the_pin(fld(c.a[1][2], "version") or mk("K", "x", None))


def sdist(t):
    """an artifact of the pinned version of this iteration"""
    t = bare(t)
    if t.tag != "Elem":
        return False
    it = bare(t.a[0])
    if it.tag == "Iter" and it.a[0] == "src":
        it = bare(it.a[1])
    c = okof(unref(it), "artifacts_for_version", "PackageDB::artifacts_for_version")
    return c is not None and isarg(c.a[1][0], "db") and of_pin(c)


def sdist_lock(t):
    """the lock on the store's directory for the sdist: the sdist"""
    c = okof(unref(t), "KVDirStore::lock")
    if c is None or not argfield(c.a[1][0], "self", "store"):
        return None
    ai = hash_of(c.a[1][1])
    return ai if ai is not None and sdist(ai) else None


def kind_known(p, ai, want):
    """the path knows that the artifact ai is a `want`"""
    for t, v in p.facts.items():
        b = bare(t)
        if b.tag == "C" and last(b) == "is" and v is True and bare(b.a[1][0]) is ai and typed(b, want):
            return True
        if b.tag == "C" and last(b) in ("inner_as", "try_unwrap_from") and v == ("v", "Some") and fld(b.a[1][0], "name") is ai and typed(b, want + "Name"):
            return True
        if v == ("v", want) and fld(b, "name") is ai:
            return True
    return False


def pinned(p, ai, pin):
    """the path knows that the artifact's hash is among those of the pin"""
    for t, v in p.facts.items():
        b = bare(t)
        if v is True and last(b) == "contains" and len(b.a[1]) == 2 and fld(unref(b.a[1][0]), "hashes") is not None and pin(fld(unref(b.a[1][0]), "hashes")) and hash_of(b.a[1][1]) is ai:
            return True
        if isinstance(v, bool) and b.tag == "Bin" and b.a[0] in ("Eq", "Ne") and v == (b.a[0] == "Eq"):
            for x, y in ((b.a[1], b.a[2]), (b.a[2], b.a[1])):
                if bare(x).tag == "Elem" and hash_of(y) is ai and any(fld(z, "hashes") is not None and pin(fld(z, "hashes")) for z in subset(bare(x))):
                    return True
    return False


def built(t, ai):
    """the wheel built locally from the sdist ai, for the platform of this environment"""
    t = bare(t)
    while t.tag == "P" and t.a[1] in ("Ok", "Some"):
        t = bare(t.a[0])
    if last(t) == "unwrap" and len(t.a[1]) == 1:
        t = bare(t.a[1][0])
    return isC(t, "get_locally_built_binary", "PackageDB::get_locally_built_binary") and typed(t, "Wheel") and isarg(t.a[1][0], "db") and bare(t.a[1][1]) is ai and \
        wheel_plat(t.a[1][3]) and builder(t.a[1][2])


def builder(t):
    c = okof(t, "WheelBuilder::new", "new")
    if c is None or not isarg(c.a[1][0], "db"):
        return False
    pl = bare(c.a[1][3])
    return fld(c.a[1][1], "name") is not None and pybi_meta(fld(c.a[1][1], "name")) and fld(c.a[1][2], "version") is not None and pybi_meta(fld(c.a[1][2], "version")) and \
        pl.tag == "Arr" and len(pl.a) == 1 and fld(pl.a[0], "1") is not None and pybi_pick(fld(pl.a[0], "1")) and isarg(unref(c.a[1][4]), "build_stack")


def names_of(t, ai):
    t = bare(t)
    if t.tag == "Fmt":
        return fmt_is(t, lambda x: names_of(x, ai))
    if last(t) in ("to_string", "as_str", "clone"):
        return names_of(t.a[1][0], ai)
    return last(t) == "name" and built(t.a[1][0], ai)


def pushed(p, e):
    """the elements a value was collected from"""
    return bare(e.args[1]) if e.is_("Vec::push") and len(e.args) == 2 else None


def root_of(t):
    """("binary", get_or_set term) | ("have"/"built", sdist, name) | None"""
    b = unref(t)
    c = okof(b, "get_or_set", "KVDirStore::get_or_set")
    if c is not None and argfield(c.a[1][0], "self", "store") and hash_of(c.a[1][1]) is not None and wheel_pick(hash_of(c.a[1][1])):
        return ("binary", c)
    base, parts = joined(t)
    ai = sdist_lock(base)
    if ai is not None and len(parts) == 1 and not isinstance(parts[0], str):
        return ("built" if names_of(parts[0], ai) else "have", ai, parts[0])
    return None


def rootish(t):
    """a term that could be the place a wheel is installed at"""
    return any(isC(x, "get_or_set", "KVDirStore::get_or_set", "KVDirStore::lock") for x in subset(t)) and not bare(t).tag == "Tup" and \
        okof(t, "into_string") is None


_its = {}


def env_iterations(ctx):
    """the abstract iterations of get_env over the pinned wheels"""
    if "its" not in _its:
        old = terms.MAXDEPTH
        terms.MAXDEPTH = 70
        fn = ctx.fn(r"EnvForest::get_env$")
        calls = ("Extend::extend", "Vec::insert", "Vec::append", "Vec::extend_from_slice", "get_or_set", "KVDirStore::get_or_set", "Vec::push", "fs::rename", "std::fs::rename", "unpack", "Wheel::unpack", "KVDirStore::lock")
        facts = ("contains", "is", "inner_as", "try_unwrap_from", "get_or_set", "find_special_wheel_dir", "downcast_ref", "rename", "any")

        def keep(t):
            b = bare(t)
            return last(b) in facts or b.tag == "P" and last(bare(b.a[0])) == "downcast_ref" or b.tag == "Bin" and b.a[0] in ("Eq", "Ne") or fld(b, "name") is not None or last(b) == "pick_pinned_binary" \
                or last(b) == "unpack" and not any(x.tag == "CArg" for x in subset(b))
        after = []
        cs = set()
        its = ctx.iterations(fn, over_wheels, limit=3000000, interesting=lambda e: e.kind == "call" and e.is_(*calls) and not e.is_("Vec::push") or e.kind == "call" and e.is_("Vec::push") and (rootish(e.args[1]) or bare(e.args[1]).tag == "Tup"),
                             keep=keep, pure=PURE, after=after,
                             on_event=lambda E, st, e: cs.add(bare(e.ret)) if e.is_("get_or_set", "KVDirStore::get_or_set") else None)
        _its["its"] = (fn, its, after, cs)
    return _its["its"]


def p07_pick(ctx):
    ctx.rule("pinned-pick", "a binary artifact is chosen only if its hash is among the hashes recorded in the pin, and it belongs to the pinned version")
    fn = ctx.fn(r"env::pick_pinned_binary$")
    n = 0
    for p in ctx.paths(fn):
        if not p.ok():
            continue
        n += 1
        r = bare(p.val())
        ai = bare(r.a[0]) if r.tag == "Tup" else None
        real = strip(p.val()).a[0] if r.tag == "Tup" else None
        if ai is None:
            ctx.fail("pinned-pick", [fn.path, "result"], "the result is %s" % show(r)[:200])
            continue
        ctx.ob("pinned-pick", [fn.path, "hash"], pinned(p, ai, lambda t: isarg(t, "pin")), "%s is chosen without its hash being found in the pin" % show(ai)[:200])
        srcs = [x for x in subset(real) if isC(x, "artifacts_for_version", "PackageDB::artifacts_for_version")]
        ok = srcs and all(isarg(x.a[1][0], "db") and argfield(x.a[1][1], "pin", "name") and argfield(x.a[1][2], "pin", "version") for x in srcs)
        ctx.ob("pinned-pick", [fn.path, "version"], ok, "%s is not an artifact of the pinned version" % show(real)[:200])
    ctx.floor("ways to choose a binary", n, 1)


def p07_wheels(ctx):
    ctx.rule("layout", "scripts are installed in bin, libraries in lib, data in the root, and launchers find Python through the environment, for both platforms")
    ctx.rule("one-each", "every pinned wheel contributes exactly one installation, in order, and none is skipped")
    ctx.rule("wheel-source", "what is installed for a pin is the chosen pinned wheel itself, or a wheel built from an sdist of the pinned version whose hash is among the pin's")
    fn, its, after, cs = env_iterations(ctx)
    n, kinds = 0, set()
    clos = {}
    for p in its:
        if p.left_early():
            ctx.fail("one-each", [fn.path, "all"], "the loop over the pinned wheels can be left early")
            continue
        if p.end != "next":
            continue
        n += 1
        b = bare(p.over)
        ctx.ob("one-each", [fn.path, "in order"], argfield(b, "blueprint", "wheels") or b.tag == "Iter" and b.a[0] == "src" and argfield(b.a[1], "blueprint", "wheels"), "the wheels are taken from %s" % show(b)[:200])
        es = [e for e in p.evs if e.is_("Vec::push") and rootish(e.args[1])]
        ctx.ob("one-each", [fn.path, "once"], len(es) == 1, "a pinned wheel is installed %d times" % len(es))
        for e in es:
            r = root_of(e.args[1])
            if r is None:
                ctx.fail("wheel-source", [fn.path, "place"], "the wheel installed is %s" % show(bare(e.args[1]))[:400])
                continue
            kinds.add(r[0])
            if r[0] == "binary":
                clos.setdefault(okof(unref(e.args[1]), "get_or_set", "KVDirStore::get_or_set"), okof_raw(e.args[1]))
                continue
            ai = r[1]
            ctx.ob("wheel-source", [fn.path, r[0], "pinned"], pinned(p, ai, the_pin), "an sdist whose hash is not known to be in the pin is used")
            ctx.ob("wheel-source", [fn.path, r[0], "sdist"], kind_known(p, ai, "Sdist"), "an artifact is built without being known to be an sdist")
            nc = [v for t, v in p.facts.items() if bare(t).tag == "P" and last(bare(bare(t).a[0])) == "downcast_ref"] + \
                [v for t, v in p.facts.items() if last(bare(t)) == "pick_pinned_binary" and typed(bare(t), "Wheel")]
            ctx.ob("wheel-source", [fn.path, r[0], "fallback"], ("v", "NoCompatibleBinaries") in nc, "an sdist is used although the search for wheels failed for another reason")
            if r[0] == "built":
                un = [x for x in p.calls("Wheel::unpack", "unpack") if built(x.args[0], ai) or last(bare(x.args[0])) == "get_artifact"]
                ctx.ob("wheel-source", [fn.path, "unpacked"], len(un) == 1 and built(un[0].args[0], ai) and p.facts.get(un[0].ret) == ("v", "Ok"), "the wheel built from the sdist is not what is unpacked: %s" % [str(x)[:300] for x in un])
                rn = p.calls("fs::rename", "std::fs::rename")
                ok = len(rn) == 1 and p.facts.get(rn[0].ret) == ("v", "Ok") and unref(rn[0].args[1]) is unref(e.args[1])
                if ok and un:
                    tmp = [x for x in subset(bare(un[0].args[3])) if okof(x, "tempdir") is not None]
                    src = [x for x in subset(bare(rn[0].args[0])) if okof(x, "tempdir") is not None]
                    ok = len(set(tmp)) == 1 and set(tmp) == set(src) and sdist_lock(okof(tmp[0], "tempdir").a[1][0]) is ai and tree_at(un[0].args[3], lambda t: unref(t) is tmp[0] or last(unref(t)) in ("path", "into_path", "keep"))
                ctx.ob("wheel-source", [fn.path, "moved"], ok, "the unpacked wheel is not moved to its place: %s" % [str(x)[:300] for x in rn])
                if len(un) == 1:
                    ctx.ob("layout", [fn.path, "built"], layout(un[0].args[1]) and maker(un[0].args[2]), "the wheel is unpacked as %s" % str(un[0])[:400])
            else:
                # an element of a list of names found in the sdist's own directory
                sel = r[2]
                ents = [x for x in subset(r[2]) if okof(x, "into_string", "OsString::into_string") is not None]
                tu = [x for x in p.calls("Vec::push") if bare(x.args[1]).tag == "Tup"]
                src = [x for x in subset(strip(e.args[1])) if okof(x, "into_string", "OsString::into_string") is not None]
                srcd = {ai2 for x in src for y in subset(bare(x)) if isC(y, "KVDirStore::lock") for ai2 in [sdist_lock(mk("P", y, "Ok", "0"))]}
                # what was put into the list
                ok = bool(ents or any(last(y) in ("max_by_key", "max_by", "max", "last", "next_back", "pop", "first", "next", "min_by_key") for y in subset(sel)))
                ctx.ob("wheel-source", [fn.path, "existing"], ok and srcd <= {ai}, "an installed wheel is looked for in %s" % [show(x)[:100] for x in src])
    ctx.floor("iterations over the pinned wheels", n, 3)
    ctx.ob("wheel-source", [fn.path, "kinds"], kinds == {"binary", "built", "have"}, "wheels are installed as %s" % sorted(kinds))
    ctx.ob("anchor", [fn.path, "closure"], len(clos) >= 1, "no wheel is unpacked")
    for c in clos:
        unpacker(ctx, fn, c, hash_of(c.a[1][1]), "Wheel")


def okof_raw(t):
    return t


def layout(t):
    """scripts go to bin, purelib and platlib to lib, data to the root"""
    m = bare(t)
    for x in subset(m):
        if x.tag == "Arr" and x.a and all(bare(y).tag == "Tup" for y in x.a):
            m = x
    if m.tag != "Arr":
        m = strip(t)
        prs = {}
        for f, a in history(m) if m.tag == "Acc" else ():
            if f.rsplit("::", 1)[-1] == "insert" and len(a) == 2:
                prs[litstr(a[0])] = litstr(a[1])
        return prs == {"scripts": "bin", "purelib": "lib", "platlib": "lib", "data": "."}
    prs = {litstr(bare(x).a[0]): litstr(bare(x).a[1]) for x in m.a}
    return len(m.a) == 4 and prs == {"scripts": "bin", "purelib": "lib", "platlib": "lib", "data": "."}


def litstr(t):
    ks = [x.a[1] for x in subset(bare(t)) if is_k(x, "str")]
    return ks[0] if len(ks) == 1 else None


def maker(t):
    t = unref(t)
    return isC(t, "TrampolineMaker::new", "new") and [x.a[1] for x in t.a[1] if x.tag == "A"] == ["FromEnv", "Both"]


def tree_at(t, where):
    t = bare(t)
    return isC(t, "WriteTreeFS::new") and where(t.a[1][0])


def unpacker(ctx, fn, c, ai, kind):
    """the closure that fills the store's directory for the artifact ai"""
    clo = bare(c.a[1][2])
    fs = clofn(ctx, clo) if clo.tag in ("Clo", "FnV") else []
    if len(fs) != 1:
        ctx.fail("anchor", [fn.path, "unpacker", kind], "the directory is filled by %s" % show(clo)[:200])
        return
    g = fs[0]
    place = mk("Arg", 1, "path")
    n = 0
    for p in ctx.paths(g, args=[clo, place], pure=PURE + r"|metadata$"):
        if p.end != "ret" or p.err():
            continue

        def went_well(e):
            return p.facts.get(e.ret) == ("v", "Ok") or strip(p.v) is strip(e.ret)
        n += 1

        def art(t):
            x = okof(t, "get_artifact", "PackageDB::get_artifact")
            return x is not None and typed(x, kind) and isarg(x.a[1][0], "db") and bare(x.a[1][1]) is ai
        un = p.calls("unpack", kind + "::unpack")
        ok = len(un) == 1 and went_well(un[0]) and art(un[0].args[0])
        ctx.ob("wheel-source", [kind, "content"], ok, "what is unpacked for the chosen artifact is %s" % [str(x)[:300] for x in un])
        ok = ok and tree_at(un[0].args[-1], lambda t: unref(t) is place)
        ctx.ob("wheel-source", [kind, "into"], ok, "it is unpacked into %s" % [show(x.args[-1])[:300] for x in un])
        if kind == "Wheel" and len(un) == 1:
            ctx.ob("layout", [fn.path, "binary"], layout(un[0].args[1]) and maker(un[0].args[2]), "the wheel is unpacked as %s" % str(un[0])[:400])
        if kind == "Pybi":
            mu = p.calls("munge_unpacked_pybi", "EnvForest::munge_unpacked_pybi")
            ok = len(mu) == 1 and went_well(mu[0]) and unref(mu[0].args[0]) is place and \
                p.evs.index(mu[0]) > p.evs.index(un[0]) if un and mu else False
            m = okof(fld(mu[0].args[1], "1"), "metadata", "BinaryArtifact::metadata") if ok and fld(mu[0].args[1], "1") is not None else None
            ctx.ob("munged", [kind, "after unpacking"], ok and m is not None and art(m.a[1][0]), "an unpacked pybi is prepared by %s" % [str(x)[:300] for x in mu])
    ctx.floor("ways to unpack a " + kind, n, 1)


def p07_pybi(ctx):
    ctx.rule("munged", "a pybi is prepared for use by posy after it is unpacked and before it is used")
    ctx.rule("pybi-source", "the interpreter is the chosen pinned pybi, kept under its own hash")
    fn, its, after, cs = env_iterations(ctx)
    n = 0
    for c in cs:
        ai = hash_of(c.a[1][1])
        if ai is not None and wheel_pick(ai):
            continue
        n += 1
        ctx.ob("pybi-source", [fn.path, "key"], pybi_root(mk("P", c, "Ok", "0")), "something is kept in the store as %s" % show(c)[:300])
        if ai is not None:
            unpacker(ctx, fn, c, ai, "Pybi")
    ctx.floor("unpacked pybis", n, 1)



# ---- P08 ----------------------------------------------------------------------------------
def score_of(t):
    """t is the compatibility of something with a platform: the max_compatibility call"""
    return okof(t, "max_compatibility", "Platform::max_compatibility")


def plat_elem(t):
    t = unref(t)
    if t.tag != "Elem":
        return False
    it = bare(t.a[0])
    return isarg(it, "platforms") or it.tag == "Iter" and it.a[0] == "src" and isarg(unref(it.a[1]), "platforms")


def rejected(p, ai):
    """the path knows that the artifact has no hash or an unpinned one"""
    for t, v in p.facts.items():
        b = bare(t)
        if v == ("v", "None") and fld(b, "hash") is ai or last(b) == "is_none" and v is True and fld(unref(b.a[1][0]), "hash") is ai or last(b) == "is_some" and v is False and fld(unref(b.a[1][0]), "hash") is ai:
            return True
        if b.tag == "NoElem" and v is True and argfield(plain_iter(b.a[0]), "pin", "hashes"):
            return True
        if isinstance(v, bool) and b.tag == "Bin" and b.a[0] in ("Eq", "Ne") and v != (b.a[0] == "Eq"):
            for x, y in ((b.a[1], b.a[2]), (b.a[2], b.a[1])):
                if bare(x).tag == "Elem" and hash_of(y) is ai and argfield(plain_iter(bare(x).a[0]), "pin", "hashes"):
                    return True
        if v is False and last(b) == "contains" and any(fld(x, "hashes") is not None and isarg(fld(x, "hashes"), "pin") for x in subset(b.a[1][0])) and hash_of(b.a[1][1]) is ai:
            return True
    return False


def p08_pick(ctx):
    ctx.rule("best-first", "platforms are tried in the order given, and on each the candidates in order of decreasing compatibility; one is passed over only if its hash is not pinned")
    ctx.rule("candidates", "a candidate is exactly an artifact of the pinned version and the wanted kind that is compatible with the platform")
    fn = ctx.fn(r"env::pick_pinned_binary$")
    n = 0
    colls = set()
    for p in ctx.paths(fn):
        if not p.ok():
            continue
        n += 1
        r = strip(p.val())
        if r.tag != "Tup" or len(r.a) != 2:
            ctx.fail("best-first", [fn.path, "result"], show(r)[:200])
            continue
        ctx.ob("best-first", [fn.path, "platform"], plat_elem(r.a[1]) and not any(x.tag == "Thin" for x in subset(r.a[1])), "the platform returned is %s" % show(r.a[1])[:200])
        f = strip(r.a[0])
        src = f.a[0] if f.tag == "F" else f
        # (ai, score) pairs, sorted by score
        order = sort_order(ctx, src, lambda x: bare(x).tag == "F" and bare(x).a[1] == "1" and bare(bare(x).a[0]).tag in ("Elem", "Elem2") or
                           score_of(x) is not None)
        ctx.ob("best-first", [fn.path, "order"], order == "desc" and strip(src).tag == "Elem" and not any(x.tag == "Thin" and x.a[0] != "rev" for x in subset(src)), "the candidates are not taken from the best to the worst: %s" % show(src)[:300])
        colls.add(strip(src))
        if not isinstance(strip(src).a[0], T):
            continue
        for x in subset(strip(src).a[0]):
            if x.tag == "Acc":
                for m, ar in x.a[1]:
                    if m.rsplit("::", 1)[-1] == "push":
                        v = bare(ar[-1])
                        sc = score_of(v.a[1]) if v.tag == "Tup" and len(v.a) == 2 else None
                        ok = sc is not None and bare(v.a[0]).tag == "Elem" and plat_elem(sc.a[1][0]) and tags_of(sc.a[1][1], bare(v.a[0]))
                        ctx.ob("candidates", [fn.path, "score"], ok, "a candidate is %s" % show(v)[:300])
    ctx.floor("ways to choose a binary", n, 1)
    lost(ctx, fn, colls)

    def inner(it):
        return any(isC(x, "artifacts_for_version", "PackageDB::artifacts_for_version") for x in subset(it)) and any("sort" in m for x in subset(it) if x.tag == "Acc" for m, _ in x.a[1])

    def outer(it):
        return plat_elem(mk("Elem", it))
    k = 0
    for p in ctx.iterations(fn, lambda it: inner(it) or outer(it)):
        if outer(p.over):
            continue
        if p.end == "panic":
            continue
        k += 1
        if p.ok():
            continue
        if p.left_early():
            ctx.fail("best-first", [fn.path, "all"], "the remaining candidates of a platform are given up after one is refused")
            continue
        if p.end == "next":
            e = mk("F", mk("Elem", p.over.a[1] if p.over.tag == "Iter" and p.over.a[0] == "src" else p.over), "0")
            ai = [fld(t, "hash") for t in {y for t in p.facts for y in subset(bare(t))} if fld(t, "hash") is not None]
            ctx.ob("best-first", [fn.path, "passed over"], any(rejected(p, a) for a in ai), "a candidate is passed over: %s" % p.show()[:300])
    ctx.floor("iterations over candidates", k, 2)
    # nothing is found only after every platform was tried
    for p in ctx.iterations(fn, outer):
        if p.end == "ret" and not p.ok():
            ok = any(v == ("v", "Err") and isC(bare(t), "artifacts_for_version", "PackageDB::artifacts_for_version") for t, v in p.facts.items())
            ctx.ob("best-first", [fn.path, "every platform"], ok, "the search ends with an error before every platform was tried")


def tags_of(t, ai):
    """t: the tags of the artifact's own name"""
    return any(last(x) == "all_tags" and any(fld(y, "name") is ai for y in subset(x)) for x in subset(bare(t)))


def lost(ctx, fn, colls):
    """what the candidate list leaves out"""
    n = 0
    for c in colls:
        its = [x for x in subset(c.a[0]) if x.tag == "C" and last(x) == "collect"]
        for x in its:
            n += 1
            for m, p in drops(ctx, x.a[1][0]):
                ok = p is not None and any(v == ("v", "None") and last(bare(t)) in ("inner_as", "try_unwrap_from", "max_compatibility") for t, v in p.facts.items())
                ctx.ob("candidates", [fn.path, "left out"], ok, "candidates are left out by %s" % m)
    if not n:
        def over(it):
            return any(isC(x, "artifacts_for_version", "PackageDB::artifacts_for_version") for x in subset(it)) and not any(x.tag == "Acc" for x in subset(it))
        for p in ctx.iterations(fn, over):
            n += 1
            if p.left_early():
                ctx.fail("candidates", [fn.path, "all"], "the loop over the artifacts can be left early")
            if p.end == "next" and not p.has("Vec::push"):
                ok = any(v == ("v", "None") and last(bare(t)) in ("inner_as", "try_unwrap_from", "max_compatibility") for t, v in p.facts.items())
                ctx.ob("candidates", [fn.path, "left out"], ok, "a candidate is left out: %s" % p.show()[:300])
    ctx.floor("candidate lists", n, 1)


def p08_score(ctx):
    ctx.rule("score", "a tag earlier in the platform's list scores higher, an unlisted one is incompatible, and a name scores as its best tag")
    fn = ctx.fn(r"platform::compatibility$")
    seen = set()

    def pos(t):
        t = bare(t)
        while t.tag == "Cast":
            t = bare([x for x in t.a if isinstance(x, T)][0])
        c = okof(t, "get_index_of", "get_full", "position")
        return c is not None and isarg(unref(c.a[1][0]), "tags") and isarg(unref(c.a[1][1]), "tag")
    for p in ctx.paths(fn):
        if p.end != "ret":
            continue
        r = strip(p.v)
        got = [v for t, v in p.facts.items() if pos(mk("P", bare(t), "Some", "0"))]
        if r.tag == "A" and r.a[1] == "None":
            seen.add("none")
            ctx.ob("score", [fn.path, "none"], got == [("v", "None")], "a listed tag is incompatible")
        elif r.tag == "A":
            seen.add("some")
            l = lin(bare(r.a[3][0]))
            ks = [k for k in l if k is not None]
            ctx.ob("score", [fn.path, "some"], len(ks) == 1 and l[ks[0]] < 0 and pos(ks[0]), "the score of a tag is %s" % show(r))
    ctx.ob("score", [fn.path, "both"], seen == {"none", "some"}, "only %s" % seen)
    for im in ctx.p.find(r"(PybiPlatform|WheelPlatform) as .*Platform>::compatibility$"):
        for p in ctx.paths(im):
            r = bare(p.v) if p.end == "ret" else None
            ok = r is not None and isC(r, "platform::compatibility", "compatibility") and argfield(r.a[1][0], "self", "tags") and isarg(r.a[1][1], "tag")
            ctx.ob("score", im.path, ok, "a platform's own compatibility is %s" % show(r)[:200])
    fn = ctx.fn(r"Platform::max_compatibility$")
    k = 0
    for p in ctx.paths(fn):
        if p.end != "ret":
            continue
        r = strip(p.v)
        if r.tag == "A" and r.a[1] == "Some":
            k += 1
            c = bare(r.a[3][0])
            ok = c.tag == "C" and last(c) in ("max",) and all(x.a[0] not in THIN for x in subset(c) if x.tag == "Iter") and isC(bare(c.a[1][-1].a[0]) if c.a[1][-1].tag == "P" else c, "compatibility", "Platform::compatibility")
            ctx.ob("score", [fn.path, "best"], ok, "the best score is %s" % show(c)[:200])
            for x in subset(c):
                if x.tag == "Iter" and x.a[0] in ("filter", "filter_map"):
                    for m, q in drops(ctx, x):
                        ok = q is not None and any(v == ("v", "None") and last(bare(t)) == "compatibility" for t, v in q.facts.items())
                        ctx.ob("score", [fn.path, "every tag"], ok, "a tag is left out by %s" % m)
    ctx.floor("results of max_compatibility", k, 1)


def p08_existing(ctx):
    ctx.rule("existing", "among wheels already built from an sdist the most compatible is used; a new one is built only if none is compatible")
    fn, its, after, cs = env_iterations(ctx)
    n = 0
    for p in its:
        if p.end != "next":
            continue
        es = [e for e in p.evs if e.is_("Vec::push") and rootish(e.args[1])]
        for e in es:
            r = root_of(e.args[1])
            if r is None or r[0] == "binary":
                continue
            if r[0] == "have":
                n += 1
                sel = strip(peel_join(e.args[1]))
                mx = [x for x in subset(sel) if last(x) in ("max_by_key", "max_by", "min_by_key", "max", "min")]
                f = fld(sel, "1")
                ok = f is not None and len({bare(x) for x in mx}) == 1 and last(mx[0]) == "max_by_key" and fld(mx[0].a[1][-1], "0") is not None and bare(mx[0]) in subset(f)
                if not mx:
                    ok = sort_order(ctx, sel, lambda x: fld(x, "0") is not None) == "asc" and any(last(x) in ("last", "pop", "next_back") for x in subset(sel)) or \
                        sort_order(ctx, sel, lambda x: fld(x, "0") is not None) == "desc" and any(last(x) in ("first", "next") for x in subset(sel))
                ctx.ob("existing", [fn.path, "best"], ok, "the installed wheel chosen is %s" % show(sel)[:300])
                for x in subset(sel):
                    if x.tag == "Acc":
                        for m, ar in x.a[1]:
                            if m.rsplit("::", 1)[-1] == "push":
                                v = bare(ar[-1])
                                sc = score_of(v.a[0]) if v.tag == "Tup" and len(v.a) == 2 else None
                                ok = sc is not None and wheel_plat(sc.a[1][0]) and v.a[1] in subset(bare(sc.a[1][1])) and any(last(y) == "all_tags" for y in subset(bare(sc.a[1][1])))
                                ctx.ob("existing", [fn.path, "score"], ok, "an installed wheel is listed as %s" % show(v)[:400])
            else:
                # built although the list was not empty?
                some = [t for t, v in p.facts.items() if last(bare(t)) in ("max_by_key", "pop", "last", "first") and v == ("v", "Some")]
                ctx.ob("existing", [fn.path, "needed"], not some, "a wheel is built although a compatible one is installed")
    ctx.floor("uses of installed wheels", n, 2)


def peel_join(t):
    t = strip(t)
    while t.tag == "C" and last(t) in ("deref", "as_ref", "to_path_buf"):
        t = strip(t.a[1][0])
    return t.a[1][1] if t.tag == "C" and last(t) == "join" else t


# ---- P09 ----------------------------------------------------------------------------------
def p09(ctx):
    ctx.rule("metadata-agrees", "an installed wheel's own metadata is compared with the metadata the blueprint was resolved with, and a difference is an error")
    fn, its, after, cs = env_iterations(ctx)
    n = 0
    for p in its:
        if p.end != "next":
            continue
        es = [e for e in p.evs if e.is_("Vec::push") and rootish(e.args[1])]
        for e in es[:1]:
            n += 1
            root = unref(e.args[1])
            ai = None
            r = root_of(e.args[1])
            if r:
                ai = r[1] if r[0] != "binary" else hash_of(r[1].a[1][1])

            def want(t):
                f = fld(t, "inner")
                return f is not None and fld(f, "1") is not None and elem_wheels(fld(f, "1"))

            def have(t):
                f = fld(t, "inner")
                if f is None or not isC(f, "WheelResolveMetadata::from", "from") or bare(f.a[1][0]) is not ai:
                    return False
                m = bare(f.a[1][1])
                if m.tag != "P" or last(bare(m.a[0])) not in ("try_from", "parse", "from_str", "try_into"):
                    return False
                c = okof(unref(bare(m.a[0]).a[1][0]), "fs::read")
                if c is None:
                    return False
                b, parts = joined(c.a[1][0])
                b0, parts0 = joined(root)
                k = len(parts0)
                return b is b0 and parts[:k] == parts0 and len(parts) == k + 3 and parts[k] == "lib" and parts[k + 2] == "METADATA" and distinfo(parts[k + 1])

            def distinfo(t):
                if isinstance(t, str):
                    return False
                cc = [x for x in subset(bare(t)) if isC(x, "find_special_wheel_dir", "Wheel::find_special_wheel_dir")]
                return len(cc) == 1 and of_pin2(cc[0]) and is_k(cc[0].a[1][3], "str", ".dist-info")

            ok = False
            for t, v in p.facts.items():
                if t.tag == "Bin" and t.a[0] in ("Eq", "Ne") and isinstance(v, bool) and v == (t.a[0] == "Eq"):
                    a, b = t.a[1], t.a[2]
                    ok = ok or want(a) and have(b) or want(b) and have(a)
            ctx.ob("metadata-agrees", [fn.path, r[0] if r else "?"], ok, "a wheel is installed without its metadata being compared: %s" % p.show()[:600])
    ctx.floor("installed wheels", n, 3)
    # what the comparison looks at
    frm = ctx.fn(r"WheelResolveMetadata::from$")
    k = 0
    for p in ctx.paths(frm):
        if p.end != "ret":
            continue
        k += 1
        r = strip(p.v)
        inner = None
        if r.tag == "A" and "inner" in r.a[2]:
            inner = strip(r.a[3][r.a[2].index("inner")])
        got = {}
        if inner is not None and inner.tag == "A":
            for nm, v in zip(inner.a[2], inner.a[3]):
                f = fld(unref(v), nm)
                got[nm] = f is not None and f.tag == "Arg" and f.a[0] == 1
        ctx.ob("metadata-agrees", [frm.path, "fields"], {"requires_dist", "requires_python", "extras"} <= set(got) and all(got.values()), "the metadata remembered is %s" % show(r)[:300])
    ctx.floor("constructions of WheelResolveMetadata", k, 1)
    eq = ctx.p.impl_fns("std::cmp::PartialEq", r"WheelResolveMetadataInner", "eq")
    ctx.ob("metadata-agrees", "PartialEq for WheelResolveMetadataInner", len(eq) == 1 and eq[0].derived, "the comparison is not the derived one, over all fields")


def of_pin2(c):
    a = c.a[1]
    return fld(a[1], "name") is not None and the_pin(fld(a[1], "name")) and fld(a[2], "version") is not None and the_pin(fld(a[2], "version"))



# ---- P45 ----------------------------------------------------------------------------------
def meta_path(t, key):
    """t: the native form of the path the metadata gives for `key`"""
    t = unref(t)
    while t.tag == "C" and last(t) in ("to_native",):
        t = unref(t.a[1][0])
    c = okof(t, "PybiCoreMetadata::path", "path")
    return c is not None and is_k(bare(c.a[1][1]), "str", key) and c.a[1][0]


def text_of(t):
    """a literal file's text"""
    t = bare(t)
    if t.tag == "K" and isinstance(t.a[1], (str, bytes)):
        return t.a[1] if isinstance(t.a[1], str) else t.a[1].decode("utf-8", "replace")
    if t.tag == "Idx":
        return text_of(t.a[0])
    if t.tag == "C" and len(t.a[1]) == 1 and last(t) in ("as_bytes", "as_ref", "deref", "borrow", "as_slice", "to_vec", "into", "from", "as_str"):
        return text_of(t.a[1][0])
    return None


def p45(ctx):
    ctx.rule("munged", "an unpacked pybi is marked as externally managed, gets posy's sitecustomize, and has user site-packages switched off, or it is not used")
    fn = ctx.fn(r"EnvForest::munge_unpacked_pybi$")
    n = 0
    for p in ctx.paths(fn):
        if not p.ok():
            continue
        n += 1
        files = {}
        for e in p.evs:
            if e.is_("fs::write") or e.is_("std::fs::write"):
                b, parts = joined(e.args[0])
                where = None
                if isarg(b, "path") and len(parts) == 2 and not isinstance(parts[0], str):
                    where = next((k for k in ("stdlib", "purelib", "platlib", "scripts", "data", "include") if meta_path(parts[0], k)), None)
                    where = where if where and isarg(meta_path(parts[0], where), "metadata") else None
                files.setdefault((where, parts[-1] if parts and isinstance(parts[-1], str) else None), []).append(e)
        ok = all(p.facts.get(e.ret) == ("v", "Ok") or p.v is e.ret for es in files.values() for e in es)
        ctx.ob("munged", [fn.path, "written"], ok, "a failure to write is ignored")
        ctx.ob("munged", [fn.path, "files"], set(files) == {("stdlib", "EXTERNALLY-MANAGED"), ("purelib", "sitecustomize.py"), ("stdlib", "site.py")}, "the files written are %s" % sorted(map(str, files)))
        for (w, nm), es in files.items():
            e = es[-1]
            if nm == "EXTERNALLY-MANAGED":
                tx = text_of(e.args[1])
                ctx.ob("munged", [fn.path, "EXTERNALLY-MANAGED"], tx is not None and pep668(tx), "the text of EXTERNALLY-MANAGED is %r" % tx)
            if nm == "sitecustomize.py":
                tx = text_of(e.args[1])
                ctx.ob("munged", [fn.path, "sitecustomize"], tx is not None and "POSY_PYTHON_PACKAGES" in tx and parses(tx), "the text of sitecustomize.py is %r" % tx)
            if nm == "site.py":
                c = bare(e.args[1])
                v = c
                while v.tag == "C" and last(v) in ("deref", "as_ref", "into_owned", "to_vec", "as_slice") or v.tag == "P" and v.a[1] in ("Owned", "Borrowed"):
                    v = bare(v.a[1][0] if v.tag == "C" else v.a[0])
                ok = v.tag == "C" and last(v) in ("replace", "replace_all", "replacen") and "Regex" in v.a[0] and bare(v.a[1][0]).tag != "K"
                rx = static_of(ctx, v.a[1][0]) if ok else None
                new = text_of(v.a[1][2]) if ok else None
                src = unref(v.a[1][1]) if ok else None
                rd = okof(src, "fs::read", "fs::read_to_string") if ok else None
                ok = ok and rd is not None and joined(rd.a[1][0])[1][-1:] == ["site.py"] and unref(rd.a[1][0]) is unref(e.args[0])
                ctx.ob("munged", [fn.path, "site.py", "source"], ok, "site.py is rewritten as %s" % show(c)[:300])
                if ok:
                    good = rx in (r"(?m)^ENABLE_USER_SITE = None", r"(?m)^ENABLE_USER_SITE = None$", r"(?m)^ENABLE_USER_SITE *= *None", r"(?m)^ENABLE_USER_SITE\s*=\s*None") and new == "ENABLE_USER_SITE = False"
                    ctx.ob("munged", [fn.path, "site.py", "change"], good, "in site.py %r becomes %r" % (rx, new))
                    changed = any(bare(t) is v and x == ("v", "Owned") for t, x in p.facts.items()) or any(bare(t).tag == "Bin" and bare(t).a[0] in ("Eq", "Ne") and isinstance(x, bool) and x == (bare(t).a[0] == "Ne") and v in subset(bare(t)) for t, x in p.facts.items()) or \
                        any(last(bare(t)) == "is_match" and x is True and bare(bare(t).a[1][0]) is bare(v.a[1][0]) and unref(bare(t).a[1][1]) is src for t, x in p.facts.items())
                    ctx.ob("munged", [fn.path, "site.py", "changed"], changed, "a pybi whose site.py could not be changed is accepted")
    ctx.floor("ways to prepare a pybi", n, 1)


def static_of(ctx, t):
    for x in subset(bare(t)):
        if x.tag == "Static":
            return ctx.static_regex(x.a[0])
    return None


def pep668(tx):
    import configparser
    c = configparser.ConfigParser(interpolation=None)
    try:
        c.read_string(tx)
    except configparser.Error:
        return False
    return c.has_option("externally-managed", "Error") and "osy" in c.get("externally-managed", "Error")


def parses(tx):
    try:
        ast.parse(tx)
        return True
    except SyntaxError:
        return False


def p45_used(ctx):
    fn, its, after, cs = env_iterations(ctx)
    ctx.rule("munged-first", "the pybi's directory is filled by unpacking and then preparing it")
    n = 0
    for c in cs:
        ai = hash_of(c.a[1][1])
        if ai is not None and fld(ai, "0") is not None and pybi_pick(fld(ai, "0")):
            n += 1
            unpacker(ctx, fn, c, ai, "Pybi")
    ctx.floor("places pybis are unpacked", n, 1)


# ---- P46 ----------------------------------------------------------------------------------
def pybi_scripts(t):
    b, parts = joined(t)
    if not (pybi_root(b) and parts and not isinstance(parts[0], str)):
        return None
    m = meta_path(parts[0], "scripts")
    return parts[1:] if m and pybi_meta(m) else None


def each_root(t, sub):
    """t: the subdirectory `sub` of the generic installed wheel"""
    b, parts = joined(t)
    if b.tag != "Elem" or parts != [sub]:
        return False
    it = bare(b.a[0])
    while it.tag == "Iter" and it.a[0] in ("src", "cloned", "copied"):
        it = bare(it.a[1])
    return isC(it, "Vec::new", "new", "Vec::with_capacity", "with_capacity")


def unshuffled(ctx, t):
    """no adaptor on the way drops or reorders elements"""
    return not any(x.tag == "Thin" or x.tag == "Iter" and x.a[0] not in ("src", "map", "cloned", "copied", "chain", "once") for x in subset(t))


def p46_env(ctx):
    ctx.rule("env", "an environment consists of the pybi's scripts directory and interpreter, and the bin and lib directory of every installed wheel, in order")
    fn, its, after, cs = env_iterations(ctx)
    n, full = 0, 0
    for p in after:
        if not p.ok():
            continue
        r = strip(p.val())
        if r.tag != "A" or not r.a[0].endswith("Env"):
            ctx.fail("env", [fn.path, "result"], show(r)[:200])
            continue
        n += 1
        f = dict(zip(r.a[2], r.a[3]))
        for k in ("python", "pythonw"):
            ctx.ob("env", [fn.path, k], pybi_scripts(f[k]) == ["python"], "%s is %s" % (k, show(bare(f[k]))[:300]))
        ctx.ob("env", [fn.path, "wheel_platform"], wheel_plat(f["wheel_platform"]), "wheel_platform is %s" % show(f["wheel_platform"])[:200])
        core = unref(f["platform_core_tag"])
        ctx.ob("env", [fn.path, "platform_core_tag"], isC(core, "core_tag", "PybiPlatform::core_tag") and fld(core.a[1][0], "1") is not None and pybi_pick(fld(core.a[1][0], "1")), "platform_core_tag is %s" % show(core)[:200])
        for k, sub in (("bin_dirs", "bin"), ("lib_dirs", "lib")):
            v = f[k]
            hs = [(m.rsplit("::", 1)[-1], a) for m, a in history(v)]
            base = strip(v)
            start = list(base.a) if base.tag == "Arr" else []
            hs += [("push", (x,)) for x in start]
            roots = [a for m, a in hs if m == "push" and each_root(a[-1], sub)]
            bins = [a for m, a in hs if m == "push" and pybi_scripts(a[-1]) == []]
            ok = len(roots) + len(bins) == len(hs) and (len(bins) == 1) == (k == "bin_dirs") and unshuffled(ctx, v)
            ctx.ob("env", [fn.path, k], ok, "%s is %s" % (k, show(v)[:300]))
            full += bool(roots)
        first = p.index("Vec::push")
        ext = p.index("Extend::extend", "Vec::extend", "Vec::append")
        if any(pybi_scripts(x) == [] for x in (strip(f["bin_dirs"]).a if strip(f["bin_dirs"]).tag == "Arr" else ())):
            continue
        if ext is not None:
            ctx.ob("env", [fn.path, "interpreter first"], first is not None and first < ext, "the pybi's own scripts come after those of the wheels")
    ctx.floor("environments", n, 2)
    ctx.floor("environments with wheels", full, 2)


def p46_vars(ctx):
    ctx.rule("vars", "the variables are PATH (the environment's bin directories before what was there), POSY_PYTHON, POSY_PYTHONW and POSY_PYTHON_PACKAGES")
    fn = ctx.fn(r"Env::env_vars$")
    n = 0
    for p in ctx.paths(fn):
        if not p.ok():
            continue
        n += 1
        v = strip(p.val())
        full = p.val()
        tups = {}
        for x in subset(full):
            if x.tag == "Tup" and len(x.a) == 2 and is_k(strip(x.a[0]), "str"):
                tups.setdefault(strip(x.a[0]).a[1], set()).add(x.a[1])
        ctx.ob("vars", [fn.path, "names"], set(tups) == {"PATH", "POSY_PYTHON", "POSY_PYTHONW", "POSY_PYTHON_PACKAGES"} and all(len(x) == 1 for x in tups.values()), "the variables are %s" % sorted(tups))
        for k, vs in tups.items():
            v = list(vs)[0]
            if k in ("POSY_PYTHON", "POSY_PYTHONW"):
                t = unref(v)
                while t.tag == "C" and last(t) in ("into_os_string", "as_os_str"):
                    t = unref(t.a[1][0])
                ctx.ob("vars", [fn.path, k], argfield(t, "self", "python" if k == "POSY_PYTHON" else "pythonw"), "%s is %s" % (k, show(v)[:200]))
            elif k == "POSY_PYTHON_PACKAGES":
                c = okof(v, "join_paths", "env::join_paths")
                ctx.ob("vars", [fn.path, k], c is not None and argfield(plain_iter(c.a[1][0]), "self", "lib_dirs"), "%s is %s" % (k, show(v)[:200]))
            elif k == "PATH":
                vv = strip(v)
                c = strip(vv.a[0]) if vv.tag == "P" and vv.a[1] == "Ok" else vv
                ok = isC(c, "join_paths", "env::join_paths")
                if ok:
                    x = c.a[1][0]
                    hs = history(x)
                    b = bare(x)
                    if b.tag == "Iter" and b.a[0] == "chain":
                        ok = argfield(plain_iter(b.a[1]), "self", "bin_dirs") and old_path(plain_iter(b.a[2]))
                    else:
                        ok = argfield(plain_iter(x), "self", "bin_dirs") and len(hs) == 1 and all(m.rsplit("::", 1)[-1] == "push" and bare(a[-1]).tag == "Elem" and old_path(plain_iter(bare(a[-1]).a[0])) for m, a in hs)
                ctx.ob("vars", [fn.path, k], ok, "%s is %s" % (k, show(v)[:300]))
    ctx.floor("ways to get the variables", n, 1)


def plain_iter(t):
    t = unref(t)
    while t.tag == "Iter" and t.a[0] in ("src", "cloned", "copied"):
        t = unref(t.a[1])
    return t


def old_path(t):
    t = plain_iter(t)
    if not isC(t, "split_paths", "env::split_paths"):
        return False
    c = okof(unref(t.a[1][0]), "var_os", "env::var_os")
    return c is not None and is_k(bare(c.a[1][0]), "str", "PATH")


def p46_site(ctx):
    ctx.rule("sitecustomize", "inside the environment every directory in POSY_PYTHON_PACKAGES, and no other, becomes a site directory")
    src = ctx.read("src/data-files/sitecustomize.py")
    try:
        tree = ast.parse(src)
    except SyntaxError as e:
        ctx.fail("sitecustomize", "src/data-files/sitecustomize.py", str(e))
        return
    par = {c: n for n in ast.walk(tree) for c in ast.iter_child_nodes(n)}
    adds = [c for c in ast.walk(tree) if isinstance(c, ast.Call) and ast.unparse(c.func).split(".")[-1] == "addsitedir"]
    ctx.ob("sitecustomize", "addsitedir", len(adds) == 1 and len(adds[0].args) == 1 and not adds[0].keywords and ast.unparse(adds[0].func) in ("site.addsitedir", "addsitedir"), "site directories are added by %s" % [ast.unparse(x) for x in adds])
    other = [ast.unparse(c) for c in ast.walk(tree) if isinstance(c, ast.Attribute) and ast.unparse(c) == "sys.path"]
    ctx.ob("sitecustomize", "sys.path", not other, "sys.path is touched directly")
    if len(adds) != 1 or not adds[0].args:
        return
    a = adds[0]
    # the loop it is in
    loop, guards = None, []
    n = a
    while n in par:
        if isinstance(par[n], ast.If) and n is not par[n].test:
            guards.append((par[n].test, n in par[n].body))
        n = par[n]
        if isinstance(n, (ast.For,)) and loop is None:
            loop = n
            inner = list(guards)
    if loop is None:
        ctx.fail("sitecustomize", "loop", "addsitedir is not called for every directory")
        return
    defs = {}
    for x in ast.walk(tree):
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
            defs.setdefault(x.targets[0].id, []).append(x.value)

    def expand(e):
        while isinstance(e, ast.Name) and len(defs.get(e.id, ())) == 1:
            e = defs[e.id][0]
        return e
    it = expand(loop.iter)
    filt = []
    var = ast.unparse(loop.target)
    if isinstance(it, (ast.ListComp, ast.GeneratorExp)) and len(it.generators) == 1 and ast.unparse(it.elt) == ast.unparse(it.generators[0].target):
        filt = [ast.unparse(x) for x in it.generators[0].ifs]
        v2 = ast.unparse(it.generators[0].target)
        filt = [x for x in filt if x in (v2, "%s != ''" % v2, "len(%s) > 0" % v2)]
        ctx.ob("sitecustomize", "comprehension", len(it.generators[0].ifs) == len(filt), "directories are left out")
        it = expand(it.generators[0].iter)
    ok = isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == "split" and [ast.unparse(x) for x in it.args] == ["os.pathsep"] and not it.keywords
    val = expand(it.func.value) if ok else None
    name = None
    if isinstance(val, ast.Subscript) and ast.unparse(val.value) == "os.environ" and isinstance(val.slice, ast.Constant):
        name = val.slice.value
    elif isinstance(val, ast.Call) and ast.unparse(val.func) in ("os.environ.get", "os.getenv") and val.args and isinstance(val.args[0], ast.Constant):
        name = val.args[0].value
    ctx.ob("sitecustomize", "variable", ok and name == "POSY_PYTHON_PACKAGES", "the directories are taken from %s" % ast.unparse(loop.iter))
    ctx.ob("sitecustomize", "each", ast.unparse(a.args[0]) == var and isinstance(loop.target, ast.Name), "addsitedir is called with %s" % ast.unparse(a.args[0]))
    nonempty = {var, "%s != ''" % var, "len(%s) > 0" % var, "bool(%s)" % var}
    bad = [ast.unparse(t) for t, pos in inner if not (pos and ast.unparse(t) in nonempty)]
    ctx.ob("sitecustomize", "guards", not bad, "a directory is added only if %s" % bad)
    skip = [x for x in ast.walk(loop) if isinstance(x, (ast.Break, ast.Return, ast.Continue))]
    skipok = [x for x in skip if isinstance(x, ast.Continue) and isinstance(par[x], ast.If) and ast.unparse(par[x].test) in ("not %s" % var, "%s == ''" % var, "len(%s) == 0" % var)]
    ctx.ob("sitecustomize", "skips", len(skip) == len(skipok), "directories are left out")
    ctx.ob("sitecustomize", "empty", bool(filt or skipok or any(pos for t, pos in inner)), "an empty entry (an environment without packages) adds the current directory")
    outer = [t for t, pos in guards[len(inner):] if pos]
    okk = all(ast.unparse(t) in ("'POSY_PYTHON_PACKAGES' in os.environ", "os.environ.get('POSY_PYTHON_PACKAGES')", "os.environ.get('POSY_PYTHON_PACKAGES') is not None") or
              isinstance(expand(t.left if isinstance(t, ast.Compare) else t), ast.Call) and "POSY_PYTHON_PACKAGES" in ast.unparse(expand(t.left if isinstance(t, ast.Compare) else t)) for t in outer)
    ctx.ob("sitecustomize", "condition", okk, "the directories are added only if %s" % [ast.unparse(t) for t in outer])


# ---- P47 ----------------------------------------------------------------------------------
def shstub(tx, var):
    """problems of the sh/Python header of a launcher"""
    out = []
    lines = tx.split("\n")
    if lines[0] != "#!/bin/sh":
        out.append("it starts with %r" % lines[0])
    try:
        # the #! line of a script is removed, so a statement may follow at once
        t = ast.parse("\n".join(lines[1:]) + "pass\n")
        if not (len(t.body) == 2 and isinstance(t.body[0], ast.Expr) and isinstance(t.body[0].value, ast.Constant) and isinstance(t.body[0].value.value, str) and isinstance(t.body[1], ast.Pass)):
            out.append("Python does not see a single string")
    except SyntaxError as e:
        out.append("Python sees a syntax error")
    body = [l.strip() for l in lines[1:] if l.strip()]
    ex = [i for i, l in enumerate(body) if l.startswith("exec ")]
    if len(ex) != 1 or body[ex[0]] not in ('exec "${%s}" "$0" "$@"' % var, 'exec "$%s" "$0" "$@"' % var):
        out.append("the interpreter is started by %r" % [body[i] for i in ex])
    elif ex[0] + 2 != len(body):
        out.append("something follows the exec")
    # what sh runs before the exec: a no-op and the check that the variable is set
    if body and body[0] not in ("''':'", "''':"):
        out.append("sh first runs %r" % body[0])
    cond = [l for l in body[1:ex[0]]] if ex else []
    tests = ('if [ -z "${%s+x}" ]; then' % var, 'if [ -z "${%s-}" ]; then' % var, 'if [ -z "${%s:-}" ]; then' % var, 'if [ -z "$%s" ]; then' % var)
    if not (cond and cond[0] in tests and cond[-1] == "fi" and "exit 1" in cond and all(l == "exit 1" or l.startswith("echo ") for l in cond[1:-1])):
        out.append("a missing variable is handled by %r" % cond)
    return out


def const_str(t):
    """the text of a constant string expression, replacements applied"""
    t = bare(t)
    if t.tag == "K" and isinstance(t.a[1], str):
        return t.a[1]
    if t.tag == "C" and last(t) == "replace" and len(t.a[1]) == 3:
        xs = [const_str(x) for x in t.a[1]]
        return xs[0].replace(xs[1], xs[2]) if None not in xs else None
    if t.tag == "C" and len(t.a[1]) == 1 and last(t) in ("into_bytes", "as_bytes", "to_owned", "into", "from", "to_string", "to_vec", "deref"):
        return const_str(t.a[1][0])
    if t.tag == "Fmt":
        ps = [x if isinstance(x, str) else const_str(strip(x).a[0] if strip(x).tag in ("Disp",) else x) for x in fmt_pieces(t)]
        return "".join(ps) if None not in ps else None
    return None


def const_bytes(t):
    t = bare(t)
    if t.tag in ("Arr", "Tup") and all(x.tag == "K" and isinstance(x.a[1], int) for x in t.a):
        return bytes(x.a[1] for x in t.a)
    if t.tag == "K":
        v = t.a[1]
        if isinstance(v, (bytes, bytearray)):
            return bytes(v)
        if isinstance(v, str):
            return v.encode("latin-1", "replace")
        if isinstance(v, (tuple, list)) and all(isinstance(x, int) for x in v):
            return bytes(v)
    if t.tag == "C" and len(t.a[1]) == 1:
        return const_bytes(t.a[1][0])
    if t.tag not in ("K", "C") and len(t.a) >= 1:
        for x in t.a:
            if isinstance(x, (tuple, list)) and len(x) > 100 and all(isinstance(y, int) for y in x):
                return bytes(x)
    return None


KIND = {"Console": ("POSY_PYTHON", 3), "GUI": ("POSY_PYTHONW", 2)}


def ends_with_script(ctx, fn, p, v, names):
    """the bytes appended, in order, to the constant start of the result"""
    return [(m.rsplit("::", 1)[-1], a) for m, a in history(v)]


def p47(ctx):
    ctx.rule("unix-launcher", "a Unix launcher replaces itself by the environment's Python running the same file with the same arguments, and is followed by the script")
    ctx.rule("windows-launcher", "a Windows launcher is the executable of its kind followed by a zip file whose __main__.py is the script")
    ctx.rule("launchers", "for each requested platform, and only those, a launcher is written at its own path, executable")
    fn = ctx.fn(r"TrampolineMaker::unix_trampoline$")
    seen = set()
    for p in ctx.paths(fn):
        if p.end != "ret":
            ctx.fail("unix-launcher", [fn.path, "panic"], "it can panic")
            continue
        ks = [v[1] for t, v in p.facts.items() if isarg(t, "script_type") and isinstance(v, tuple) and v[0] == "v"]
        k = ks[0] if len(ks) == 1 else None
        tx = const_str(p.v)
        if k not in KIND or tx is None:
            ctx.fail("unix-launcher", [fn.path, "text", str(k)], "the launcher of kind %s starts with %s" % (k, show(bare(p.v))[:200]))
            continue
        seen.add(k)
        for pr in shstub(tx, KIND[k][0]) or [None]:
            ctx.ob("unix-launcher", [fn.path, k, "header"], pr is None, "in the %s launcher %s" % (k, pr))
        h = ends_with_script(ctx, fn, p, p.v, ())
        ok = len(h) == 1 and h[0][0] in ("extend_from_slice", "extend", "append", "write_all", "push") and isarg(elem_src(h[0][1][-1]), "script")
        ctx.ob("unix-launcher", [fn.path, k, "script"], ok, "after the header comes %s" % show(p.v)[-200:])
    ctx.ob("unix-launcher", [fn.path, "kinds"], seen == set(KIND), "launchers exist for %s" % sorted(seen))
    fn = ctx.fn(r"TrampolineMaker::windows_trampoline$")
    seen = set()
    for p in ctx.paths(fn):
        if p.end != "ret":
            continue
        ks = [v[1] for t, v in p.facts.items() if isarg(t, "script_type") and isinstance(v, tuple) and v[0] == "v"]
        k = ks[0] if len(ks) == 1 else None
        b = const_bytes(p.v)
        if k not in KIND or not b:
            ctx.fail("windows-launcher", [fn.path, "executable", str(k)], "the launcher of kind %s starts with %s" % (k, show(bare(p.v))[:100]))
            continue
        seen.add(k)
        ctx.ob("windows-launcher", [fn.path, k, "kind"], pe_kind(b) == KIND[k][1], "the %s launcher is an executable for subsystem %s" % (k, pe_kind(b)))
        ctx.ob("windows-launcher", [fn.path, k, "variable"], re.findall(rb"POSY_PYTHON[A-Z_]*", b) == [KIND[k][0].encode()], "the %s launcher looks at %s" % (k, re.findall(rb"POSY_PYTHON[A-Z_]*", b)))
        st, wr, fi = p.calls("start_file"), p.calls("write_all", "Write::write_all"), p.calls("finish")
        ok = len(st) == len(wr) == len(fi) == 1 and all(p.facts.get(e[0].ret) == ("v", "Ok") for e in (st, wr, fi)) and is_k(bare(st[0].args[1]), "str", "__main__.py") and isarg(bare(wr[0].args[1]), "script") \
            and p.evs.index(st[0]) < p.evs.index(wr[0]) < p.evs.index(fi[0])
        ctx.ob("windows-launcher", [fn.path, k, "zip"], ok, "the zip file is made by %s" % [str(e)[:150] for e in st + wr + fi])
        if ok:
            opt = bare(st[0].args[2])
            ctx.ob("windows-launcher", [fn.path, k, "stored"], any(x.tag == "A" and x.a[1] == "Stored" for x in subset(opt)), "__main__.py is stored with %s" % show(opt))
            buf = bare(fi[0].args[0]).a[1][0] if bare(fi[0].args[0]).tag == "C" else None
            h = ends_with_script(ctx, fn, p, p.v, ())
            src = elem_src(h[0][1][-1]) if len(h) == 1 else None
            while src is not None and src.tag == "C" and last(src) in ("into_inner", "get_ref", "into_iter"):
                src = elem_src(src.a[1][0])
            ctx.ob("windows-launcher", [fn.path, k, "appended"], src is not None and buf is not None and src is bare(buf), "after the executable comes %s" % [show(a[-1])[:200] for m, a in h])
    ctx.ob("windows-launcher", [fn.path, "kinds"], seen == set(KIND), "launchers exist for %s" % sorted(seen))
    fn = ctx.fn(r"TrampolineMaker::make_trampoline$")
    seen = set()
    for p in ctx.paths(fn):
        if not p.ok():
            continue
        ks = [v[1] for t, v in p.facts.items() if argfield(t, "self", "platform") and isinstance(v, tuple) and v[0] == "v"]
        k = ks[0] if len(ks) == 1 else None
        seen.add(k)
        got = []
        for e in p.calls("WriteTree::write_file", "write_file"):
            d = e.args[2]
            made = [x for x in subset(bare(d)) if isC(x, "unix_trampoline", "windows_trampoline", "TrampolineMaker::unix_trampoline", "TrampolineMaker::windows_trampoline")]
            kind = last(made[0]).split("_")[0] if len(set(made)) == 1 else "?"
            ok = kind != "?" and isarg(made[0].a[1][0], "self") and isarg(made[0].a[1][1], "script") and isarg(made[0].a[1][2], "script_type") and isarg(e.args[0], "tree") and is_k(strip(e.args[3]), "bool", True) \
                and p.facts.get(e.ret) == ("v", "Ok")
            ctx.ob("launchers", [fn.path, kind, "written"], ok, "a launcher is written by %s" % str(e)[:300])
            if kind == "unix":
                ctx.ob("launchers", [fn.path, kind, "path"], isarg(bare(e.args[1]), "path"), "it is written at %s" % show(e.args[1])[:200])
            else:
                ctx.ob("launchers", [fn.path, kind, "path"], exe_path(e.args[1]), "it is written at %s" % show(e.args[1])[:200])
            got.append(kind)
        want = {"Unix": ["unix"], "Windows": ["windows"], "Both": ["unix", "windows"]}.get(k)
        ctx.ob("launchers", [fn.path, str(k)], sorted(got) == want, "for %s the launchers written are %s" % (k, got))
    ctx.ob("launchers", [fn.path, "platforms"], seen == {"Unix", "Windows", "Both"}, "the platforms handled are %s" % sorted(map(str, seen)))


def elem_src(t):
    t = bare(t)
    if t.tag == "Elem":
        t = bare(t.a[0])
    while t.tag == "Iter" and t.a[0] in ("src", "copied", "cloned"):
        t = bare(t.a[1])
    return t


def pe_kind(b):
    import struct
    try:
        o = struct.unpack_from("<I", b, 0x3c)[0]
        return struct.unpack_from("<H", b, o + 24 + 68)[0] if b[o:o + 4] == b"PE\0\0" else None
    except struct.error:
        return None


def exe_path(t):
    t = strip(t)
    while t.tag == "P" and t.a[1] in ("Ok", "Some"):
        t = strip(t.a[0])
    if t.tag == "C" and last(t) in ("try_from", "try_into", "unwrap", "parse"):
        x = t.a[1][0]
        if any(m.rsplit("::", 1)[-1] in ("push_str",) for m, a in history(x)):
            h = history(x)
            return len(h) == 1 and all(is_k(bare(a[-1]), "str", ".exe") for m, a in h) and (fmt_is(strip(x), lambda y: isarg(y, "path")) or isarg(unref(x), "path"))
        return fmt_is(strip(x), lambda y: isarg(y, "path"), ".exe")
    return False


ENVVARS = ("PATH", "POSY_PYTHON", "POSY_PYTHONW", "POSY_PYTHON_PACKAGES")


# ---- P48 ----------------------------------------------------------------------------------
def p48(ctx):
    ctx.rule("child-env", "every Python process posy starts is found on, and gets the variables of, the environment made from the blueprint resolved for it")
    n = 0
    fs = {}
    makers = set()
    for fn, bi, t, fr in ctx.callers("std::process::Command::new"):
        r = root_fn(ctx.p, fn)
        fs[r.path] = r
    for path, fn in sorted(fs.items()):
        if "platform_tags" in path:
            continue
        old = terms.MAXDEPTH
        terms.MAXDEPTH = 60
        ps = ctx.paths(fn, pure=r"(KVDirStore|PackageDB::new|EnvForest|TempDir|native_platforms|Url::parse|fs::|Path::)", limit=2000000, keep=lambda t: any(x.tag == "C" and last(x) in ("exec", "spawn", "status", "output") for x in [bare(t)]),
                       interesting=lambda e: e.kind == "call" and e.is_("CommandExt::exec", "Command::spawn", "Command::status", "Command::output", "exec", "spawn", "status", "output"))
        terms.MAXDEPTH = old
        k = 0
        for p in ps:
            for e in p.evs:
                if not any(isC(x, "process::Command::new", "Command::new") for x in subset(e.args[0])):
                    continue
                k += 1
                c = [x for x in subset(bare(e.args[0])) if isC(x, "process::Command::new", "Command::new")]
                ctx.ob("child-env", [fn.path, "program"], len(c) == 1 and is_k(bare(c[0].a[1][0]), "str", "python"), "the program started is %s" % show(c[0])[:200])
                hs = {(m.rsplit("::", 1)[-1], a) for x in subset(e.args[0]) if x.tag == "Acc" and isC(bare(x), "Command::new") for m, a in x.a[1]}
                chain = bare(e.args[0])
                while chain.tag == "C" and not isC(chain, "Command::new"):
                    hs.add((last(chain), tuple(chain.a[1][1:])))
                    chain = bare(chain.a[1][0])
                envs = [a for m, a in hs if m == "envs"]
                bad = sorted(m for m, a in hs if m in ("env_clear", "env_remove") or m == "env" and not (is_k(bare(a[-2]), "str") and bare(a[-2]).a[1] not in ENVVARS and "PYTHON" not in bare(a[-2]).a[1]))
                ctx.ob("child-env", [fn.path, "kept"], not bad, "the environment is changed by %s" % bad)
                ok = len(envs) == 1
                if ok:
                    v = okof(envs[0][-1], "Env::env_vars", "env_vars")
                    g = okof(v.a[1][0], "EnvForest::get_env", "get_env") if v is not None else None
                    w = okof(fld(v.a[1][0], "1"), "get_env_for_build", "WheelBuilder::get_env_for_build") if v is not None and fld(v.a[1][0], "1") is not None else None
                    ok = g is not None or w is not None
                    makers |= {w} if w is not None else set()
                    if g is not None:
                        ctx.ob("child-env", [fn.path, "same platforms"], blueprint_ok(g), "the environment is %s" % show(g)[:400])
                ctx.ob("child-env", [fn.path, "envs"], ok, "the process gets %s" % [show(a[-1])[:300] for a in envs])
        ctx.floor("processes started in " + fn.path, k, 1)
        n += 1
    ctx.floor("functions that start Python", n, 2)
    if not makers:
        return
    fn = ctx.fn(r"WheelBuilder::<'_>::get_env_for_build$|WheelBuilder.*::get_env_for_build$")
    k = 0
    for p in ctx.paths(fn, keep=lambda t: False, pure=r"resolve$|get_env$"):
        if not p.ok():
            continue
        k += 1
        v = bare(p.val())
        g = okof(v.a[1], "EnvForest::get_env", "get_env") if v.tag == "Tup" else None
        r = okof(v.a[0], "Brief::resolve", "resolve") if v.tag == "Tup" else None
        ok = g is not None and r is not None and okof(unref(g.a[1][2]), "Brief::resolve", "resolve") is r and blueprint_ok(g)
        ctx.ob("child-env", [fn.path, "same platforms"], ok, "the build environment is %s" % show(v)[:400])
        if r is not None:
            b = strip(r.a[1][0])
            rq = strip(b.a[3][b.a[2].index("requirements")]) if b.tag == "A" and "requirements" in b.a[2] else None
            ctx.ob("child-env", [fn.path, "requirements"], rq is not None and isarg(unref(bare(rq)), "reqs"), "the build environment is resolved for %s" % show(b)[:300])
    ctx.floor("ways to make a build environment", k, 2)


def blueprint_ok(g):
    """get_env(forest, db, brief.resolve(db, platforms, ..)?Ok, platforms, stack)"""
    r = okof(unref(g.a[1][2]), "Brief::resolve", "resolve")
    return r is not None and bare(r.a[1][1]) is bare(g.a[1][1]) and bare(r.a[1][2]) is bare(g.a[1][3]) and bare(r.a[1][-1]) is bare(g.a[1][-1])


RULES = {"P07": [p07_pick, p07_wheels, p07_pybi], "P08": [p08_pick, p08_score, p08_existing], "P09": [p09], "P45": [p45, p45_used],
         "P46": [p46_env, p46_vars, p46_site], "P47": [p47], "P48": [p48]}
