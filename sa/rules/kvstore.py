"""The on-disk stores: atomic publication, locking, key layout."""
from rulelib import *

INL = [r"^posy::kvstore::", r"<posy::kvstore::", r"^posy::util::retry_interrupted"]
LOCKS = ("fs2::FileExt::lock_exclusive", "std::fs::File::lock")
BADLOCK = ("fs2::FileExt::lock_shared", "fs2::FileExt::try_lock_shared", "fs2::FileExt::try_lock_exclusive",
           "std::fs::File::lock_shared", "std::fs::File::try_lock", "fs2::FileExt::unlock", "std::fs::File::unlock")
STAGE = ("tempfile::NamedTempFile::new_in", "tempfile::tempdir_in", "tempfile::TempDir::new_in")
PUBLISH = ("tempfile::NamedTempFile::persist", "tempfile::NamedTempFile::persist_noclobber", "std::fs::rename")


def is_entry(t):
    """base.join(key.key()) : the published location of an entry"""
    t = peel(t)
    return (isC(t, "std::path::Path::join") and t.a[1][0].tag == "F" and t.a[1][0].a[1] == "base"
            and isC(t.a[1][1], "posy::kvstore::PathKey::key", "key"))


def is_tmp(t):
    t = peel(t)
    return t.tag == "F" and t.a[1] == "tmp"


def from_stage(t):
    """derived from a staging file/directory of the same store"""
    return any(x.tag == "C" and any(name_is(x.a[0], s) for s in STAGE) and is_tmp(x.a[1][0]) for x in subset(peel(t)))


def names_entry(t):
    """a path made from the entry's location"""
    return any(is_entry(x) for x in subset(peel(t)))


def lock_path_ok(t):
    """<entry>.lock : the entry's path with its own last component extended"""
    t = peel(t)
    return any(is_entry(x) for x in subset(t)) and ".lock" in strs(t)


ROOTS = (r"^posy::kvstore::KVFileStore::get_or_set$", r"^posy::kvstore::KVFileStore::get$",
         r"^posy::kvstore::KVDirStore::get_or_set$")


def _paths(ctx, rx):
    fn = ctx.fn(rx)
    return fn, ctx.paths(fn, inline=INL)


def fill_fact(p):
    """facts `the fill callback returned v`"""
    return [(t, v) for t, v in p.facts.items() if t.tag == "C" and name_is(t.a[0], "call_once")]


def p11_atomic(ctx):
    ctx.rule("publish-staged", "an entry's final path only ever receives a staging file/directory of the same store, by rename/persist")
    ctx.rule("publish-complete", "before publication the fill callback returned Ok; file contents were synced")
    ctx.rule("no-inplace", "no other operation creates, opens for writing or copies to an entry's final path")
    ctx.rule("staging-inside", "the staging directory is a subdirectory of the store (same filesystem)")
    npub = 0
    for rx in ROOTS:
        fn, ps = _paths(ctx, rx)
        for p in ps:
            for i, e in enumerate(p.evs):
                if e.kind != "call":
                    continue
                if e.is_(*PUBLISH):
                    npub += 1
                    ctx.ob("publish-staged", [fn.path, e.name], from_stage(e.args[0]) and is_entry(e.args[1]),
                           "%s at %s publishes %s to %s" % (e.name, e.site, show(e.args[0]), show(e.args[1])))
                    ff = [v for t, v in fill_fact(p)]
                    pre = [x for x in p.evs[:i] if x.kind == "call" and x.is_("call_once")]
                    ctx.ob("publish-complete", [fn.path, e.name, "filled"], bool(pre) and all(v == ("v", "Ok") for v in ff) and ff,
                           "%s at %s publishes although the fill callback has not returned successfully" % (e.name, e.site))
                    if not e.is_("std::fs::rename"):
                        sy = [x for x in p.evs[:i] if x.is_("std::fs::File::sync_data", "std::fs::File::sync_all")]
                        j = max([p.evs.index(x) for x in sy], default=-1)
                        w = [x for x in p.evs[j + 1:i] if x.is_("call_once", "write_all", "write", "flush")] if sy else [1]
                        ctx.ob("publish-complete", [fn.path, e.name, "synced"],
                               any(p.facts.get(x.ret) == ("v", "Ok") for x in sy) and not w,
                               "%s at %s publishes data that was not synced to disk" % (e.name, e.site))
                elif e.is_(*MUTATORS):
                    tgt = e.args[-1] if e.is_("std::fs::copy", "std::fs::OpenOptions::open", "std::fs::hard_link", "std::os::unix::fs::symlink") else e.args[0]
                    bad = names_entry(tgt) and not lock_path_ok(tgt)
                    ctx.ob("no-inplace", [fn.path, e.name], not bad,
                           "%s at %s touches the entry's published path directly: %s" % (e.name, e.site, show(tgt)))
    ctx.floor("publication points reached", npub, 2)
    # staging handles produced for other users of the stores
    for rx in (r"^posy::kvstore::KVFileLock::begin$", r"^posy::kvstore::KVDirLock::tempdir$"):
        fn = ctx.fn(rx)
        n = 0
        for p in ctx.paths(fn, inline=INL):
            for e in p.calls(*MUTATORS):
                n += 1
                ctx.ob("publish-staged", [fn.path, e.name], e.is_(*STAGE) and is_tmp(e.args[0]),
                       "%s at %s does not stage inside the store: %s" % (e.name, e.site, show(e.args)))
        ctx.floor("staging points in " + fn.path, n, 1)
    fn = ctx.fn(r"^posy::kvstore::LockedWrite::<'a>::commit$")
    n = 0
    for p in ctx.paths(fn, inline=INL):
        for i, e in enumerate(p.evs):
            if e.kind == "call" and e.is_(*MUTATORS):
                n += 1
                okk = e.is_("tempfile::NamedTempFile::persist") and show(peel(e.args[0])) == "$self.f" and show(peel(e.args[1])) == "$self.path"
                ctx.ob("publish-staged", [fn.path, e.name], okk, "%s at %s: %s" % (e.name, e.site, show(e.args)))
                sy = [x for x in p.evs[:i] if x.is_("std::fs::File::sync_data", "std::fs::File::sync_all") and p.facts.get(x.ret) == ("v", "Ok")]
                ctx.ob("publish-complete", [fn.path, "synced"], sy, "%s at %s publishes data that was not synced to disk" % (e.name, e.site))
        if p.ok():
            ctx.ob("publish-complete", [fn.path, "returned Ok"], any(p.facts.get(e.ret) == ("v", "Ok") for e in p.calls(*PUBLISH)),
                   "commit() can report success without having published")
    ctx.floor("publication in commit", n, 1)
    for rx in (r"^posy::kvstore::KVFileStore::new$", r"^posy::kvstore::KVDirStore::new$"):
        fn = ctx.fn(rx)
        n = 0
        for p in ctx.paths(fn, inline=INL):
            if not p.ok():
                continue
            n += 1
            s = p.val()
            base, tmp = peel(mk("F", s, "base")), peel(mk("F", s, "tmp"))
            okk = isC(tmp, "std::path::Path::join") and strip(tmp.a[1][0]) is strip(base) and is_k(tmp.a[1][1], "str") \
                and not tmp.a[1][1].a[1].startswith("/") and ".." not in tmp.a[1][1].a[1] and len(tmp.a[1][1].a[1]) != 1
            ctx.ob("staging-inside", fn.path, okk, "staging directory %s is not inside the store %s" % (show(tmp), show(base)))
            ctx.ob("staging-inside", [fn.path, "created"], okfact(p, "std::fs::create_dir_all", arg=lambda a: strip(peel(a[0])) is strip(tmp)),
                   "the staging directory is not created")
        ctx.floor("successful paths of " + fn.path, n, 1)
    _drop_behaviour(ctx)


def _drop_behaviour(ctx):
    """nothing in the staging types may publish or leak on drop"""
    ctx.rule("no-leak", "a staging directory is detached from its cleanup only as the source of the publishing rename")
    for fn in ctx.p.user_fns():
        if is_test(fn) or not fn.path.startswith("posy::kvstore"):
            continue
        for f, bi, t, fr in ctx.p.call_sites(fn):
            nm = [norm_name(x) for x in callee_names(fr)]
            if any(name_is(n, m) for n in nm for m in ("std::mem::forget", "tempfile::NamedTempFile::keep", "tempfile::TempPath::keep")):
                ctx.fail("no-leak", [fn.path, nm[0]], "%s leaves partial data behind at %s" % (nm[0], t["sp"]))
    fn, ps = _paths(ctx, ROOTS[2])
    for p in ps:
        for i, e in enumerate(p.evs):
            if e.kind == "call" and e.is_("tempfile::TempDir::into_path", "tempfile::TempDir::keep"):
                after = [x for x in p.evs[i + 1:] if x.is_("std::fs::rename") and e.ret in subset(x.args[0])]
                filled = [x for x in p.evs[:i] if x.is_("call_once") and p.facts.get(x.ret) == ("v", "Ok")]
                ctx.ob("no-leak", [fn.path, e.name], after and filled,
                       "the staging directory is detached at %s without being published" % e.site)


def p12_locking(ctx):
    ctx.rule("lock-held", "every look-up and every mutation of an entry happens after an exclusive lock on that entry's lock file was obtained and before it is released")
    ctx.rule("lock-file", "the lock file is the entry's own path with `.lock` appended to its last component")
    ctx.rule("lock-exclusive", "only blocking exclusive locks are used, and a failure to lock is an error")
    ctx.rule("lock-carried", "the guard handed to callers owns the locked file")
    n = 0
    for rx in ROOTS:
        fn = ctx.fn(rx)
        bad = []
        seen = [0]
        locked_paths = set()

        def locked(st):
            """lock files whose exclusive lock was obtained on this path"""
            out = []
            for te in st.trace:
                ev = te.ev
                if ev.is_(*LOCKS):
                    v = st.facts.get(ev.ret)
                    # directly, or through retry_interrupted
                    okk = v == ("v", "Ok")
                    if okk:
                        out.append(ev.args[0])
            return out

        def on_event(E, st, ev):
            if ev.kind != "call":
                return
            if ev.is_(*BADLOCK):
                bad.append(("lock-exclusive", "%s at %s" % (ev.name, ev.site)))
                return
            if ev.is_("std::fs::File::open", "std::path::Path::exists", "std::path::Path::try_exists", "std::path::Path::is_dir", "std::path::Path::is_file", "call_once", *PUBLISH):
                if not ev.is_("call_once") and not any(names_entry(a) for a in ev.args):
                    return
                seen[0] += 1
                ls = locked(st)
                if not ls:
                    bad.append(("lock-held", "%s at %s runs without the entry's lock" % (ev.name, ev.site)))
                    return
                dropped = [x[1] for x in (st.aux or ()) if x[0] == "dropped"]
                live = [l for l in ls if not any(d is l or strip(d) is strip(l) for d in dropped)]
                if not live:
                    bad.append(("lock-held", "%s at %s runs after the entry's lock was released" % (ev.name, ev.site)))
                for l in live:
                    if not any(lock_path_ok(x) for x in subset(l)):
                        bad.append(("lock-file", "%s at %s is protected by %s" % (ev.name, ev.site, show(l))))

        def on_drop(E, st, v, ty, sp):
            if any(x.tag == "C" and name_is(x.a[0], "open") for x in subset(v)):
                if "&" in ty.split("<")[0]:
                    return
                w = E.resolve(st, v)
                owns = [x for x in owned_parts(w)]
                for x in owns:
                    st.aux = (st.aux or frozenset()) | {("dropped", x)}
        ctx.explore(fn, inline=INL, interesting=lambda ev: ev.is_(*LOCKS), on_event=on_event, on_drop=on_drop, drops=True)
        ctx.floor("guarded operations in " + fn.path, seen[0], 2 if "get_or_set" in fn.path else 1)
        n += seen[0]
        for rule, m in sorted(set(bad)):
            ctx.fail(rule, fn.path, m)
        ctx.ob("lock-held", [fn.path, "all paths"], not bad, "")
    # the lock file name
    fn = ctx.fn(r"^posy::kvstore::lock$")
    m = 0
    for p in ctx.paths(fn, inline=INL):
        for e in p.calls("std::fs::OpenOptions::open", "std::fs::File::open", "std::fs::File::create"):
            m += 1
            a = e.args[-1]
            ctx.ob("lock-file", [fn.path, e.name], lock_name_ok(a), "the lock file opened at %s is %s" % (e.site, show(a)))
        if p.ok():
            ls = [e for e in p.calls(*LOCKS)]
            ctx.ob("lock-exclusive", [fn.path, "Ok implies locked"], ls and p.val() in subset(ls[0].args[0]) or (ls and strip(p.val()) is strip(ls[0].args[0])),
                   "lock() can return without holding the exclusive lock")
            for e in ls:
                ctx.ob("lock-exclusive", [fn.path, "lock result checked"], lock_ok_fact(p, e),
                       "the result of %s at %s is ignored" % (e.name, e.site))
            cm = [e for e in p.calls("std::fs::create_dir_all", "std::fs::OpenOptions::create")]
            mode = [v for t, v in p.facts.items() if t.tag == "Arg" and isinstance(v, tuple) and v[0] == "v"]
            if mode and mode[0][1] == "IfExists":
                ctx.ob("lock-exclusive", [fn.path, "probe creates nothing"], not cm, "probing for an entry creates files")
    ctx.floor("lock files opened in lock()", m, 2)
    # the guards own the lock
    for rx in (r"^posy::kvstore::KVFileStore::lock$", r"^posy::kvstore::KVFileStore::lock_if_exists$", r"^posy::kvstore::KVDirStore::lock$"):
        fn = ctx.fn(rx)
        k = 0
        for p in ctx.paths(fn, inline=INL):
            v = p.v
            if p.end == "ret" and v.tag == "A" and v.a[1] in ("Ok", "Some"):
                k += 1
                g = v.a[3][0]
                own = [x for x in owned_parts(g) if any(lock_path_ok(y) for y in subset(x))]
                ctx.ob("lock-carried", fn.path, own, "the guard %s does not own the lock" % show(g))
                pth = [x for x in g.a[3] if is_entry(x)] if g.tag == "A" else []
                ctx.ob("lock-carried", [fn.path, "path"], pth, "the guard %s does not name the locked entry" % show(g))
                ls = [e for e in p.calls(*LOCKS)]
                ctx.ob("lock-held", fn.path, ls, "a guard is returned without locking")
        ctx.floor("guards returned by " + fn.path, k, 1)


def lock_ok_fact(p, e):
    if p.facts.get(e.ret) == ("v", "Ok"):
        return True
    return any(v == ("v", "Ok") and t is not e.ret and e.ret in subset(t) for t, v in p.facts.items())


def owned_parts(t):
    """values owned (transitively, by struct nesting) by a value"""
    out = []
    st = [peel(t)]
    while st:
        x = st.pop()
        out.append(x)
        if x.tag in ("A",):
            st.extend(x.a[3])
        elif x.tag == "Tup":
            st.extend(x.a)
        elif x.tag in ("Acc", "Upd"):
            st.append(x.a[0])
    return [x for x in out if x.tag in ("C", "P", "Acc")]


def lock_name_ok(a):
    """arg<<{set_file_name(file_name(arg) ++ ".lock")} or with_file_name(format!("{}.lock", ..))"""
    a = peel(a)
    names = [x for x in subset(a) if x.tag == "C" and name_is(x.a[0], "file_name")]
    if ".lock" not in "".join(s if isinstance(s, str) else s.decode("latin1") for s in strs(a) if s):
        return False
    if not names:
        # pushing `.lock` onto the whole path is the same thing
        return a.tag == "Acc" and any(n.endswith("OsString::push") for n, _ in a.a[1])
    if any(n.endswith("set_extension") or n.endswith("with_extension") for x in subset(a) if x.tag == "Acc" for n, _ in x.a[1]):
        return False
    return all(strip(x.a[1][0]).tag == "Arg" for x in names)


# ---------------------------------------------------------------------------------- P14
INJECTIVE = ("BASE64URL_NOPAD", "BASE64URL", "HEXLOWER", "HEXUPPER", "BASE32_NOPAD", "BASE32", "BASE32HEX", "BASE32HEX_NOPAD",
             "BASE32_NOPAD_NOCASE", "BASE32_DNSSEC", "BASE32_DNSCURVE")


def p14_keys(ctx):
    ctx.rule("key-whole", "the relative path of an entry spells out the whole key, in a path-safe injective encoding")
    ctx.rule("key-digest", "byte-string keys are digested in full with SHA-256; hash keys are their algorithm name and their whole digest")
    ctx.rule("key-safe", "no part of a key comes from untrusted text except a hash's algorithm name, which is non-empty and alphanumeric, and the digest is long enough to be split")
    impls = ctx.p.impl_fns("posy::kvstore::PathKey", "", "key")
    n = 0
    for f in impls:
        if is_test(f):
            continue
        parts = {}
        for p in ctx.paths(f, inline=[r"kvstore::bytes_to_path_suffix"]):
            if p.end != "ret":
                continue
            n += 1
            v = peel(p.v)
            if isC(v, "PathKey::key", "key"):
                ctx.ob("key-whole", f.path, strip(v.a[1][0]).tag == "Arg", "the key delegates to %s" % show(v))
                continue
            pushes = flat_pushes(p.v)
            if pushes is None:
                ctx.fail("key-whole", [f.path, "shape"], "cannot tell what the key consists of: %s" % show(v)[:300])
                continue
            mode = [x for x in pushes if self_field(x, "mode")]
            rest = [x for x in pushes if not self_field(x, "mode")]
            src = covered(rest, p, parts)
            if isinstance(src, str):
                ctx.fail("key-whole", [f.path, "parts"], src)
                continue
            d = strip(peel(src))
            if isC(d, "ring::digest::digest"):
                okk = d.a[1][0].tag in ("Static", "Const") and d.a[1][0].a[0].rsplit("::", 1)[-1] in ("SHA256", "SHA512", "SHA384", "SHA512_256") \
                    and strip(d.a[1][1]).tag == "Arg" and not mode
                ctx.ob("key-digest", f.path, okk, "the key is derived from %s" % show(d))
            else:
                okk = self_field(d, "raw_data") and mode
                ctx.ob("key-digest", f.path, okk, "the key is derived from %s%s" % (show(d), "" if mode else " without the algorithm's name"))
        for tail, head in parts.items():
            ctx.ob("key-whole", [f.path, "start"], set(range(tail)) <= head, "characters %s of the key are not part of the path" % sorted(set(range(tail)) - head))
    ctx.floor("key functions", n, 3)
    for fn, sp in constructions(ctx, "ArtifactHash"):
        ctx.ob("key-safe", [fn.path, "literal"], fn.path.endswith("ArtifactHash::from_hex"), "a hash is built without checks at %s" % sp)
    fh = ctx.fn(r"ArtifactHash::from_hex$")
    n = 0
    gate = free = False
    for p in ctx.paths(fh):
        if p.ok():
            n += 1
            free = free or not any(alnum(t) for t in p.facts)
            v = p.val()
            m = strip(peel(mk("F", v, "mode")))
            ctx.ob("key-safe", [fh.path, "mode kept"], m.tag == "Arg" and m.a[1] == "mode", "the algorithm name stored is %s" % show(m))
            ne = any(isC(t, "is_empty") and strip(t.a[1][0]) is m and x is False for t, x in p.facts.items()) or \
                entails(ineqs(p.facts), ladd({t: 1 for t in alllens(p, m)}, {None: -1}))
            ctx.ob("key-safe", [fh.path, "non-empty"], ne, "an empty algorithm name is accepted")
            raw = peel(mk("F", v, "raw_data"))
            ln = [t for t in alllens(p, raw)]
            ctx.ob("key-safe", [fh.path, "length"], any(entails(ineqs(p.facts), {t: 1, None: -4}) for t in ln), "digests too short to be split into a path are accepted")
            for t, x in p.facts.items():
                if alnum(t) and from_elem_of(t, m):
                    ctx.ob("key-safe", [fh.path, "alphanumeric"], x is True, "algorithm names with other characters than letters and digits are accepted")
                    gate = True
    ctx.ob("key-safe", [fh.path, "alphanumeric gate"], gate and free, "the characters of the algorithm name are not checked")
    ctx.floor("hashes accepted", n, 1)


def alllens(p, x):
    return [y for t in p.facts for y in subset(t) if y.tag == "C" and y.a[0].endswith("::len") and strip(peel(y.a[1][0])) is strip(peel(x))]


def alnum(t):
    return isC(t, "is_ascii_alphanumeric", "is_ascii_alphabetic", "is_ascii_lowercase")


def from_elem_of(t, m):
    return any(x.tag == "Elem" and any(isC(y, "bytes", "chars", "as_bytes") and strip(y.a[1][0]) is m or y is m for y in subset(x)) for x in subset(t))


def self_field(t, n):
    t = strip(peel(t))
    return t.tag == "F" and t.a[1] == n and strip(t.a[0]).tag == "Arg" and strip(t.a[0]).a[1] == "self"


def flat_pushes(t):
    """everything pushed/joined onto an initially empty path"""
    t = peel(t)
    if isC(t, "join"):
        b = flat_pushes(t.a[1][0])
        c = flat_pushes(t.a[1][1]) if isC(strip(t.a[1][1]), "new", "join") else [t.a[1][1]]
        return None if b is None or c is None else b + c
    base = strip(t)
    if not (isC(base, "PathBuf::new", "Path::new", "PathBuf::default", "default", "PathBuf::with_capacity", "with_capacity") or base.tag == "A"):
        if isC(base, "PathBuf::from", "from", "collect"):
            return [base]
        if self_field(base, "mode"):
            out = [base]
        else:
            return None
    else:
        out = []
    if t.tag == "Acc":
        for nm, args in t.a[1]:
            if not nm.rsplit("::", 1)[-1] in ("push", "extend"):
                return None
            for a in args:
                if strip(peel(a)).tag == "C" and name_is(strip(peel(a)).a[0], "PathBuf::new"):
                    sub = flat_pushes(a)
                    if sub is None:
                        return None
                    out += sub
                else:
                    out.append(a)
    return out


def counter(t):
    """initial value of a loop counter that goes up by one"""
    if t.tag == "Bin" and t.a[0] in ("Add*", "Add") and is_k(t.a[2], "int", 1):
        return lconst(lin(t.a[1])) if lconst(lin(t.a[1])) is not None else counter(t.a[1])
    if t.tag == "Fix" and all(x.tag == "Bin" and x.a[0] == "Add" and is_k(x.a[2], "int", 1) for x in t.a[1]):
        return lconst(lin(t.a[0]))
    return None


def covered(parts, p, seen):
    """the encoded value whose text the parts spell out completely, or a complaint"""
    encs = {x for t in parts for x in subset(peel(t)) if isC(x, "Encoding::encode", "encode")}
    if len(encs) != 1:
        return "the path is made of %s" % "; ".join(show(t) for t in parts)[:300]
    enc = encs.pop()
    if enc.a[1][0].tag not in ("Const", "Static") or enc.a[1][0].a[0].rsplit("::", 1)[-1] not in INJECTIVE:
        return "keys are encoded with %s" % show(enc.a[1][0])
    tail = None
    head = set()
    for t in parts:
        t = strip(peel(t))
        if t is enc:
            tail = 0
            continue
        if t.tag == "Idx" and strip(t.a[0]) is enc and t.a[1].tag == "A":
            r = t.a[1]
            d = dict(zip(r.a[2], r.a[3]))
            if r.a[1] == "RangeFrom" and is_k(d["start"], "int"):
                tail = d["start"].a[1]
                continue
            fx = [x for x in subset(d["start"]) if x.tag == "Fix"] if "start" in d else []
            if fx and r.a[1] == "Range" and counter(fx[0]) is not None:
                bs = [y.a[2].a[1] for y in p.facts if y.tag == "Bin" and y.a[0] == "Lt" and is_k(y.a[2], "int")]
                head |= set(range(counter(fx[0]), max(bs, default=0)))
                continue
            if r.a[1] == "Range" and lsub(lin(d["end"]), lin(d["start"])) == {None: 1}:
                s0 = strip(d["start"])
                c = lconst(lin(s0))
                if c is not None:
                    head.add(c)
                elif s0.tag in ("Bin", "Fix") and counter(s0) is not None:
                    bs = [t.a[2].a[1] for t in p.facts if t.tag == "Bin" and t.a[0] == "Lt" and is_k(t.a[2], "int")]
                    head |= set(range(counter(s0), max(bs, default=0)))
                elif s0.tag == "K":
                    head.add(s0.a[1])
                elif s0.tag == "Elem" and strip(s0.a[0]).tag == "A" and strip(s0.a[0]).a[1] in ("Range", "RangeInclusive"):
                    q = strip(s0.a[0])
                    dd = dict(zip(q.a[2], q.a[3]))
                    if is_k(dd["start"], "int") and is_k(dd["end"], "int"):
                        head |= set(range(dd["start"].a[1], dd["end"].a[1] + (q.a[1] == "RangeInclusive")))
                else:
                    return "cannot tell which part of the key %s is" % show(t)
                continue
            if r.a[1] == "RangeTo" and is_k(d["end"], "int"):
                head |= set(range(d["end"].a[1]))
                continue
            if r.a[1] == "Range" and is_k(d["start"], "int") and is_k(d["end"], "int"):
                head |= set(range(d["start"].a[1], d["end"].a[1]))
                continue
        if t.tag == "P" and isC(t.a[0], "split_at_checked") or t.tag == "F" and isC(t.a[0], "split_at") and strip(t.a[0].a[1][0]) is enc and is_k(t.a[0].a[1][1], "int"):
            k = t.a[0].a[1][1].a[1]
            if t.a[1] == "1":
                tail = k
            else:
                head |= set(range(k))
            continue
        ks = [x.a[1] for x in subset(t) if is_k(x, "int")]
        if any(x.tag == "Elem" for x in subset(t)) and any(isC(x, "chars", "bytes") for x in subset(t)) and ks:
            head |= set(range(max(ks)))
            continue
        return "cannot tell which part of the key %s is" % show(t)
    if tail is None:
        return "the end of the key is not part of the path"
    seen.setdefault(tail, set()).update(head)
    return enc.a[1][1]


RULES = {"P11": [p11_atomic], "P12": [p12_locking], "P14": [p14_keys]}
