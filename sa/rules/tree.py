"""Archive unpacking: path confinement, portable names, symlinks, entry kinds."""
from rulelib import *
from engine import empty_vec
from facts import callee_names

NPB = "posy::tree::NicePathBuf"
MUT_STR = ("to_string", "to_owned", "into", "from", "String::from", "to_str")


def undisp(t):
    t = strip(t)
    while t.tag in ("Disp",):
        t = strip(t.a[0])
    return t


def elem_of(p):
    """the component a loop iteration is about, and its variant"""
    for t, v in p.facts.items():
        if t.tag == "Elem" and isinstance(v, tuple) and v[0] == "v" and v[1] in ("RootDir", "CurDir", "ParentDir", "Normal"):
            return t, v[1]
    return None, None


def checked(E):
    return lambda t: t.tag == "P" and t.a[1] == "Ok" and t.a[0].tag == "C" and name_is(t.a[0].a[0], "check_path_piece") \
        and strip(t.a[0].a[1][0]) is mk("P", E, "Normal", "0")


def unwrapk(t, pred):
    t = strip(t)
    while t.tag == "C" and len(t.a[1]) == 1 and t.a[0].rsplit("::", 1)[-1] in ("to_string", "to_owned", "into", "from", "clone"):
        t = strip(t.a[1][0])
    if t.tag == "Fmt" and len(t.a) == 1 and isinstance(t.a[0], T):
        t = undisp(t.a[0])
    return pred(t)


def over_components(it):
    return any(x.tag == "C" and x.a[0].rsplit("::", 1)[-1] == "components" for x in subset(it))


def vec_ops(p):
    return [e for e in p.evs if e.kind == "call" and e.name.startswith("std::vec::Vec") and e.name.rsplit("::", 1)[-1] in
            ("push", "pop", "insert", "remove", "clear", "truncate", "extend", "append", "swap_remove", "drain", "extend_from_slice", "retain", "split_off")]


def known_nonempty(p, v):
    v = bare(v)
    for t, x in p.facts.items():
        if t.tag == "C" and t.a[1] and bare(t.a[1][0]) is v:
            ln = t.a[0].rsplit("::", 1)[-1]
            if ln == "is_empty" and x is False or ln in ("last", "pop", "split_last", "last_mut", "first") and x == ("v", "Some"):
                return True
    for f in ineqs(p.facts):
        # len - 1 >= 0
        if f.get(None) == -1 and len(f) == 2 and all(k is None or k.tag == "C" and k.a[0].endswith("::len") and bare(k.a[1][0]) is v and c == 1 for k, c in f.items()):
            return True
    for t, x in p.facts.items():
        if t.tag == "C" and t.a[0].endswith("::len") and bare(t.a[1][0]) is v and (x[0:1] == ("ni",) and 0 in x[1] if isinstance(x, tuple) else False):
            return True
    return False


def nice_ctor(ctx):
    return ctx.fn(r"NicePathBuf as std::convert::TryFrom<&typed_path.*>::try_from$")


def pieces_writers(ctx, allowed):
    """functions of the crate that can change the pieces of an existing path"""
    for fn in ctx.p.fns.values():
        if is_test(fn) or fn.derived or fn.path in allowed:
            continue
        if "tree.rs" not in fn.span:
            continue
        for q in field_muts(fn, "pieces"):
            ctx.fail("path-made", [fn.path, "mutates"], "the pieces of a path are changed outside its constructor (%s)" % q)


def field_muts(fn, name):
    out = []

    def hit(pl):
        return isinstance(pl, list) and any(isinstance(x, list) and x and x[0] in ("f", ".") and name in x for x in pl[1:])
    for b in fn.blocks:
        if b["c"]:
            continue
        for s in b["s"]:
            if s[0] == "=":
                if hit(s[1]):
                    out.append("store at %s" % s[3])
                r = s[2]
                if r.get("r") == "ref" and r.get("m") and hit(r.get("p")):
                    out.append("&mut at %s" % s[3])
    return out


def p01(ctx):
    ctx.rule("path-parse", "an archive path becomes a NicePathBuf only by pushing checked ordinary components; '..' removes one that is there, a leading '/' or an escaping '..' is an error")
    ctx.rule("path-made", "no other code builds or alters the list of components of a NicePathBuf, except from other NicePathBufs")
    ctx.rule("fs-target", "every file operation of WriteTreeFS names root/<NicePathBuf>, or that path's parent")
    ctx.rule("no-bypass", "nothing in the crate unpacks an archive with the library's own extraction calls")
    fn = nice_ctor(ctx)
    n = {}
    for p in ctx.iterations(fn, over_components, interesting=lambda e: e.kind == "call"):
        E, kind = elem_of(p)
        if kind is None:
            if p.end == "next":
                ctx.fail("path-parse", [fn.path, "component kind"], "a component is accepted without looking at its kind: %s" % p.show()[:300])
            continue
        n[kind] = n.get(kind, 0) + 1
        good = p.end == "next" or p.ok()
        ops = vec_ops(p)
        src = E.a[0]
        okk = any(x.tag == "C" and x.a[0].endswith("::components") and any(y.tag == "Arg" and y.a[1] == "value" for y in subset(x)) for x in subset(src))
        ctx.ob("path-parse", [fn.path, "of the given path"], okk, "the components looked at are those of %s" % show(src))
        if kind == "RootDir":
            ctx.ob("path-parse", [fn.path, kind], not good, "an absolute path is accepted")
        elif not good:
            if kind == "CurDir":
                ctx.fail("path-parse", [fn.path, kind], "a '.' component is refused")
            continue
        elif kind == "CurDir":
            ctx.ob("path-parse", [fn.path, kind], not ops, "a '.' component changes the path: %s" % ops)
        elif kind == "ParentDir":
            okk = len(ops) == 1 and ops[0].is_("pop") and known_nonempty(p, ops[0].args[0])
            ctx.ob("path-parse", [fn.path, kind], okk, "'..' is accepted by %s, without knowing that there is a component to remove" % list(map(str, ops)))
        elif kind == "Normal":
            okk = len(ops) == 1 and ops[0].is_("push") and unwrapk(ops[0].args[1], checked(E))
            ctx.ob("path-parse", [fn.path, kind], okk, "a component is accepted by %s, not by appending the checked component" % list(map(str, ops)))
    for k in ("RootDir", "CurDir", "ParentDir", "Normal"):
        ctx.floor("%s components handled" % k, n.get(k, 0), 1)
    nok = 0
    for p in ctx.paths(fn, interesting=lambda e: False):
        if p.ok():
            nok += 1
            v = peel(mk("F", p.val(), "pieces"))
            b = strip(v)
            okk = b.tag == "C" and b.a[0].endswith("Vec::new") or b.tag == "Arr" and not b.a or b.tag == "C" and b.a[0].endswith("with_capacity")
            for m, ar in history(v):
                ln = m.rsplit("::", 1)[-1]
                okk = okk and (ln in ("pop", "reserve") or ln == "push" and unwrapk(ar[0], lambda t: t.tag == "P" and t.a[1] == "Ok" and isC(t.a[0], "check_path_piece")))
            ctx.ob("path-parse", [fn.path, "result"], okk, "the path consists of %s" % show(v)[:300])
    ctx.floor("accepted paths", nok, 1)
    allowed = {fn.path}
    # other constructions: pieces of existing paths only
    for g, sp in constructions(ctx, "NicePathBuf"):
        if g.path == fn.path or root_fn(ctx.p, g).path == fn.path:
            continue
        ok = True
        k = 0
        for p in ctx.paths(g, interesting=lambda e: False):
            for v in [x for x in subset(p.v) if x.tag == "A" and x.a[0].endswith("NicePathBuf")] if p.end == "ret" and isinstance(p.v, T) else []:
                k += 1
                ok = ok and only_pieces(peel(mk("F", v, "pieces")))
        ctx.ob("path-made", [g.path, "literal"], ok and k > 0, "a path is built in %s (%s) from something that is not the pieces of a path" % (g.path, sp))
        allowed.add(g.path)
    pieces_writers(ctx, allowed)
    for f in ctx.p.fns.values():
        if f.trait == "std::convert::TryFrom" and f.self_ty and "NicePathBuf" in str(f.self_ty) and f is not fn or \
                (f.path.endswith("NicePathBuf as std::str::FromStr>::from_str")):
            for p in ctx.paths(f):
                if p.ok():
                    v = strip(p.val())
                    ok = v.tag == "P" and v.a[1] == "Ok" and v.a[0].tag == "C" and v.a[0].a[0].rsplit("::", 1)[-1] in ("try_from", "from_str", "parse", "try_into")
                    ctx.ob("path-made", [f.path, "delegates"], ok, "%s makes %s" % (f.path, show(v)))
    # file operations
    nfs = 0
    for name in ("mkdir", "write_file", "write_symlink"):
        m = ctx.method("posy::tree::WriteTree", "WriteTreeFS", name)
        for p in ctx.paths(m, inline=[r"WriteTreeFS::full_path$"]):
            for e in p.evs:
                if e.kind != "call" or not (e.name.startswith("std::fs::") or e.name.startswith("std::os::unix::fs::")):
                    continue
                ln = e.name.rsplit("::", 1)[-1]
                if e.is_("OpenOptions::new") or ln in ("write", "create_new", "mode", "create", "truncate", "read", "append") and "OpenOptions" in e.name:
                    continue
                t = strip(e.args[1] if e.is_("OpenOptions::open", "symlink") else e.args[0])
                nfs += 1
                want = "path" if name != "write_symlink" else "symlink"
                ok = is_target(t, want) or (ln == "create_dir_all" and t.tag == "P" and t.a[1] == "Some" and isC(t.a[0], "parent") and is_target(strip(t.a[0].a[1][0]), want))
                ctx.ob("fs-target", [m.path, ln], ok, "%s works on %s" % (m.path, show(t)))
    ctx.floor("file operations of WriteTreeFS", nfs, 4)
    for m in ctx.p.fns.values():
        if m.path.startswith("posy::tree::WriteTreeFS::") and m.kind == "AssocFn":
            nm = m.path.rsplit("::", 1)[-1]
            if m.path in base_fns() and nm not in ("new", "full_path"):
                ctx.fail("fs-target", m.path, "unknown method")
    tn = ctx.fn(r"NicePathBuf::to_native$")
    for p in ctx.paths(tn):
        v = strip(p.v)
        ctx.ob("fs-target", [tn.path, "conversion"], derived_of(v, "self"), "to_native gives %s" % show(v))
    ds = ctx.method("std::fmt::Display", "NicePathBuf", "fmt")
    for p in ctx.paths(ds):
        bad = []
        for e in p.evs:
            if e.kind == "call" and e.name.rsplit("::", 1)[-1] in ("write_fmt", "write_str", "write_char"):
                pc = [undisp(x) if isinstance(x, T) else x for x in fmt_pieces(e.args[1])]
                emp = any(t.tag == "C" and t.a[0].endswith("is_empty") and v is True for t, v in p.facts.items())
                if pc == ["."] and emp:
                    continue
                if len(pc) == 1 and isinstance(pc[0], T) and isC(pc[0], "join") and is_k(strip(pc[0].a[1][1]), "str", "/") and \
                        strip(pc[0].a[1][0]) is mk("F", [x for x in subset(pc[0]) if x.tag == "Arg" and x.a[1] == "self"][0], "pieces"):
                    continue
                bad.append(pc)
        ctx.ob("fs-target", [ds.path, "text"], not bad, "a path is written out as %s" % bad)
    cs = lib_callers(ctx, r"(zip|tar)::.*(::extract|::extract_unwrapped_root_dir|::unpack|::unpack_in|::mangled_name|::enclosed_name|sanitized_name)$")
    for g, bi, t, fr in cs:
        ctx.fail("no-bypass", g.path, "calls %s" % callee_names(fr)[:1])
    ctx.ob("no-bypass", "library extraction calls", not cs, "")
    ar = lib_callers(ctx, r"(zip::.*::by_index(_raw|_decrypt|_with_options)?|tar::.*::entries(_with_seek)?)$")
    ctx.floor("places that walk an archive", len(ar), 2)
    for g, bi, t, fr in ar:
        ok = root_fn(ctx.p, g).path in ("posy::tree::unpack_zip_carefully", "posy::tree::unpack_tar_gz_carefully") or root_fn(ctx.p, g).path not in base_fns()
        ctx.ob("no-bypass", [root_fn(ctx.p, g).path, "walks an archive"], ok, "%s walks the members of an archive itself" % g.path)
    for g, tgt in ((ctx.fn(r"^posy::tree::unpack_zip_carefully$"), "zip"), (ctx.fn(r"^posy::tree::unpack_tar_gz_carefully$"), "tar")):
        bad = set()
        k = 0
        for p in ctx.iterations(g, lambda it: True, keep=lambda t: False, interesting=lambda e: e.kind == "call" and (e.name.startswith("std::fs::") or e.is_("write_file", "mkdir", "write_symlink"))):
            for e in p.evs:
                if e.name.startswith("std::fs::"):
                    bad.add(str(e))
                elif e.is_("write_file", "mkdir"):
                    k += 1
                    if not archive_path(strip(e.args[1])):
                        bad.add(show(e.args[1]))
        ctx.ob("no-bypass", [g.path, "destination"], not bad, "writes to %s" % sorted(bad)[:2])
        ctx.floor("%s members written" % tgt, k, 1)


def lib_callers(ctx, rx):
    rx = re.compile(rx)
    out = []
    for fn in ctx.p.fns.values():
        if fn.kind in ("Fn", "AssocFn", "Closure") and not is_test(fn):
            for f, bi, t, fr in ctx.p.call_sites(fn):
                if any(rx.match(x) for x in callee_names(fr)):
                    out.append((fn, bi, t, fr))
    return out


def archive_path(t):
    t = bare(t)
    return t.tag == "P" and t.a[1] == "Ok" and t.a[0].tag == "C" and t.a[0].a[0].rsplit("::", 1)[-1] in ("try_from", "try_into", "from_str", "parse") \
        and any(x.tag == "C" and x.a[0].rsplit("::", 1)[-1] in ("name", "path_bytes", "name_raw") for x in subset(t))


def only_pieces(v):
    """v consists of the pieces of NicePathBufs only"""
    def src(t):
        t = strip(t)
        if t.tag == "F" and t.a[1] == "pieces":
            return True
        if t.tag in ("Elem", "Idx", "P", "Sub"):
            return src(t.a[0])
        if t.tag == "Iter":
            return all(src(x) for x in t.a[1:] if isinstance(x, T) and x.tag not in ("Clo", "FnV"))
        if t.tag == "C":
            ln = t.a[0].rsplit("::", 1)[-1]
            if ln in ("new", "with_capacity") and "Vec" in t.a[0]:
                return True
            if ln in ("clone", "to_vec", "into", "from", "to_owned", "index", "iter", "as_slice", "collect", "chain", "cloned", "concat", "into_iter", "from_iter", "pieces"):
                return all(src(x) for x in t.a[1] if x.tag not in ("Arg", "Clo", "FnV") or ln == "pieces") if ln != "index" else src(t.a[1][0])
        if t.tag == "Arr":
            return all(src(x) for x in t.a)
        return False
    if not src(v):
        return False
    for m, ar in history(v):
        if m.rsplit("::", 1)[-1] not in ("push", "extend", "extend_from_slice", "append", "reserve", "pop", "truncate") or not all(src(x) for x in ar if m.rsplit("::", 1)[-1] not in ("reserve", "truncate")):
            return False
    return True


def derived_of(v, arg):
    """nothing but conversions applied to the argument"""
    v = strip(v)
    while True:
        if v.tag == "Arg":
            return v.a[1] == arg
        if v.tag == "C" and len(v.a[1]) == 1 and v.a[0].rsplit("::", 1)[-1] in ("from", "into", "to_string", "to_native", "to_owned", "clone"):
            v = strip(v.a[1][0])
            continue
        if v.tag == "Fmt" and len(v.a) == 1 and isinstance(v.a[0], T):
            v = undisp(v.a[0])
            continue
        return False


def is_target(t, arg):
    t = strip(t)
    if t.tag == "P" and t.a[1] == "Ok" and isC(t.a[0], "full_path"):
        r = strip(t.a[0].a[1][1])
        return is_src(r, arg)
    if isC(t, "Path::join", "PathBuf::join") and len(t.a[1]) == 2:
        a, b = strip(t.a[1][0]), strip(t.a[1][1])
        return a.tag == "F" and a.a[1] == "root" and strip(a.a[0]).tag == "Arg" and conv_of(b, arg)
    return False


def conv_of(b, arg):
    b = strip(b)
    while b.tag == "C" and len(b.a[1]) == 1 and b.a[0].rsplit("::", 1)[-1] in ("from", "into", "to_string", "to_native", "to_owned") or b.tag == "Fmt" and len(b.a) == 1 and isinstance(b.a[0], T):
        b = undisp(b.a[1][0] if b.tag == "C" else b.a[0])
    return is_src(b, arg)


def is_src(t, arg):
    t = strip(t)
    if arg == "symlink":
        return t.tag == "F" and t.a[1] == "source" and strip(t.a[0]).tag == "Arg" and strip(t.a[0]).a[1] == arg
    return t.tag == "Arg" and t.a[1] == arg


NAUGHTY = set('<>:"/\\|?*') | {chr(i) for i in range(32)} | {"\x7f"}


def p02(ctx):
    ctx.rule("portable", "a path component is accepted only if it is non-empty UTF-8 without control or reserved characters and does not end in '.' or ' '; nothing else is refused")
    fn = ctx.fn(r"^posy::tree::check_path_piece$")
    n = 0
    acc = [p for p in ctx.paths(fn) if p.ok()]
    vs = set()
    for p in acc:
        n += 1
        v = strip(p.val())
        u8 = [t for t, x in p.facts.items() if t.tag == "C" and t.a[0].rsplit("::", 1)[-1] in ("from_utf8",) and x == ("v", "Ok")]
        okk = len(u8) == 1 and strip(u8[0].a[1][0]).tag == "Arg" and v is mk("P", u8[0], "Ok", "0")
        ctx.ob("portable", [fn.path, "utf-8"], okk, "the component accepted is %s" % show(v))
        vs.add(v)
    ctx.floor("accepting paths", n, 1)
    if len(vs) != 1:
        return
    anyc, first, last, empty = str_domain(ctx, acc, vs.pop())
    ctx.ob("portable", [fn.path, "non-empty"], not empty, "an empty component is accepted")
    bad = anyc & NAUGHTY
    ctx.ob("portable", [fn.path, "characters"], not bad, "components with %s are accepted" % sorted(bad))
    ctx.ob("portable", [fn.path, "last character"], not (last & {".", " "}), "components ending in %s are accepted" % sorted(last & {".", " "}))
    over = set(ASCII) - NAUGHTY - anyc
    ctx.ob("portable", [fn.path, "nothing else"], not over, "components with the portable characters %s are refused" % sorted(over))
    over = set(ASCII) - NAUGHTY - {".", " "} - last
    ctx.ob("portable", [fn.path, "nothing else at the end"], not over, "components ending in the portable characters %s are refused" % sorted(over))
    over = set(ASCII) - NAUGHTY - first
    ctx.ob("portable", [fn.path, "nothing else at the start"], not over, "components starting with the portable characters %s are refused" % sorted(over))
    # every component of an archive path or symlink target goes through it
    for g in (nice_ctor(ctx), ctx.fn(r"NiceSymlinkPaths::new$")):
        k = 0
        for p in ctx.iterations(g, over_components, keep=lambda t: t.tag in ("Elem",) or t.tag == "C" and (name_is(t.a[0], "check_path_piece")), interesting=lambda e: e.kind == "call" and e.is_("Vec::push")):
            E, kind = elem_of(p)
            if kind == "Normal" and (p.end == "next" or p.ok()):
                k += 1
                ps2 = p.calls("Vec::push")
                ctx.ob("portable", [g.path, "checked"], len(ps2) == 1 and unwrapk(ps2[0].args[1], checked(E)), "a component is kept without being checked: %s" % list(map(str, ps2)))
        ctx.floor("components kept in %s" % g.path.rsplit("::", 2)[-2], k, 1)


def is_len_of_source(k):
    k = strip(k)
    if k.tag != "C" or not k.a[0].endswith("::len"):
        return False
    b = strip(k.a[1][0])
    if b.tag == "F" and b.a[1] == "pieces":
        b = strip(b.a[0])
    if isC(b, "NicePathBuf::pieces"):
        b = strip(b.a[1][0])
    return b.tag == "Arg" and b.a[1] == "source"


def eqdots(p, v):
    """what is known about the last kept component: None (there is none) / True (it is '..') / False (something else)"""
    if empty_vec(v):
        return "none"
    v = bare(v)
    for t, x in p.facts.items():
        b = bare(t)
        if b.tag == "C" and b.a[1] and bare(b.a[1][0]) is v:
            ln = b.a[0].rsplit("::", 1)[-1]
            if ln in ("last", "pop", "split_last") and x == ("v", "None") or ln == "is_empty" and x is True:
                return "none"
    for t, x in p.facts.items():
        b = bare(t)
        for y in subset(b):
            if y.tag == "C" and y.a[0].rsplit("::", 1)[-1] in ("last", "pop") and bare(y.a[1][0]) is v and b is not y:
                if b.tag == "Bin" and b.a[0] in ("Eq", "Ne") and (is_k(strip(b.a[2]), "str", "..") or is_k(strip(b.a[1]), "str", "..")) and isinstance(x, bool):
                    return "dots" if x == (b.a[0] == "Eq") else "other"
                if b.tag == "Bin" and any(z.tag == "A" and z.a[1] == "Some" and is_k(strip(z.a[3][0]), "str", "..") for z in b.a[1:]) and isinstance(x, bool):
                    return "dots" if x == (b.a[0] == "Eq") else "other"
                if isinstance(x, tuple) and x[0] in ("s", "i", "v") and x[1] == "..":
                    return "dots"
                if isinstance(x, tuple) and x[0] in ("ns", "ni", "nv") and ".." in x[1]:
                    return "other"
    return None


def p03(ctx):
    ctx.rule("link-climb", "the '..'s a link target starts with are counted exactly, and a link is accepted only if, from the directory it is in, they cannot leave the tree")
    ctx.rule("link-target", "the target written is the normalised one: checked components, '..' only in front, never absolute")
    ctx.rule("link-made", "no other code makes the paths of a link; the file system link is made from exactly these")
    fn = ctx.fn(r"NiceSymlinkPaths::new$")
    ex, aft = [], []
    its = ctx.iterations(fn, over_components, interesting=lambda e: e.kind == "call", exits=ex, after=aft)
    n = {}
    steps = []
    for p in its:
        E, kind = elem_of(p)
        if kind is None:
            if p.end == "next":
                ctx.fail("link-target", [fn.path, "component kind"], "a component is accepted without looking at its kind")
            continue
        n[kind] = n.get(kind, 0) + 1
        good = p.end == "next" or p.ok()
        ops = vec_ops(p)
        ctx.ob("link-target", [fn.path, "of the given target"], any(y.tag == "Arg" and y.a[1] == "target_bytes" for y in subset(E)), "the components looked at are those of %s" % show(E))
        up = False
        if kind == "RootDir":
            ctx.ob("link-target", [fn.path, kind], not good, "an absolute link target is accepted")
        elif not good:
            continue
        elif kind == "CurDir":
            ctx.ob("link-target", [fn.path, kind], not ops, "a '.' component changes the target: %s" % list(map(str, ops)))
        elif kind == "ParentDir":
            ups = [o for o in ops if o.is_("push")]
            if len(ops) == 1 and len(ups) == 1 and unwrapk(ops[0].args[1], lambda t: is_k(t, "str", "..")):
                up = True
                ctx.ob("link-target", [fn.path, "leading .."], eqdots(p, ops[0].args[0]) in ("none", "dots"), "a '..' is kept behind an ordinary component")
            elif len(ops) == 1 and ops[0].is_("pop"):
                ctx.ob("link-target", [fn.path, "inner .."], eqdots(p, ops[0].args[0]) == "other", "a '..' removes what may itself be a '..'")
            else:
                ctx.fail("link-target", [fn.path, kind], "a '..' is accepted by %s" % list(map(str, ops)))
        elif kind == "Normal":
            ok = len(ops) == 1 and ops[0].is_("push") and unwrapk(ops[0].args[1], checked(E))
            ctx.ob("link-target", [fn.path, kind], ok, "a component is accepted by %s, not by appending the checked component" % list(map(str, ops)))
        if p.end == "next":
            steps.append((up, p))
    for k in ("RootDir", "CurDir", "ParentDir", "Normal"):
        ctx.floor("%s components handled" % k, n.get(k, 0), 1)
    # the counter: +1 on every kept '..', unchanged otherwise
    locs = set(steps[0][1].env0) if steps else set()
    cands = []
    for l in sorted(locs):
        ok = True
        for up, p in steps:
            if l not in p.env0 or l not in p.env1:
                ok = False
                break
            d = lconst(lsub(lin(p.env1[l]), lin(p.env0[l])))
            if d != (1 if up else 0):
                ok = False
                break
        if ok and any(up for up, _ in steps):
            cands.append(l)
    init = None
    ctr = None
    for l in cands:
        ks = [lconst(lin(e[l])) for e in ex if l in e and lconst(lin(e[l])) is not None]
        if ks:
            ctr, init = l, min(ks)
    ctx.ob("link-climb", [fn.path, "counter"], ctr is not None, "no counter grows by one with every kept '..' and by nothing else")
    if ctr is None:
        return
    nok = 0
    for p in aft:
        if not p.ok():
            continue
        nok += 1
        c = p.env0.get(ctr)
        known = [{("LEN" if k is not None and is_len_of_source(k) else k): v for k, v in f.items()} for f in ineqs(p.facts)]
        goal = ladd(lsub({"LEN": 1}, lin(c)), {None: init - 1})
        good = any(lconst(lsub(goal, f)) is not None and lconst(lsub(goal, f)) >= 0 for f in known)
        ctx.ob("link-climb", [fn.path, "confined"], good, "a link may be accepted whose '..'s climb out of the tree: only %s is known" % [lshow({(mk("Arg", 0, "len(source)") if k == "LEN" else k): v for k, v in f.items()}) for f in known][:3])
        tight = any(lconst(lsub(goal, f)) == 0 for f in known)
        ctx.ob("link-climb", [fn.path, "not refused"], tight or not good, "a link that stays inside the tree is refused")
    ps = ctx.paths(fn, interesting=lambda e: False)
    for p in ps:
        if not p.ok():
            continue
        nok += 1
        v = p.val()
        s, t = strip(peel(mk("F", v, "source"))), peel(mk("F", v, "target"))
        ctx.ob("link-target", [fn.path, "source"], derived_of(s, "source"), "the link is made at %s" % show(s))
        t = strip(t)
        vec = None
        if is_k(t, "str", "."):
            pass
        elif isC(t, "join") and is_k(strip(t.a[1][1]), "str", "/"):
            vec = t.a[1][0]
        okk = is_k(t, "str", ".") or vec is not None and strip(vec).tag in ("C", "Arr")
        if vec is not None:
            for m, ar in history(vec):
                ln = m.rsplit("::", 1)[-1]
                okk = okk and (ln == "pop" or ln == "push" and (unwrapk(ar[0], lambda x: is_k(x, "str", "..") or x.tag == "P" and x.a[1] == "Ok" and isC(x.a[0], "check_path_piece"))))
            okk = okk and known_empty_or_not(p, vec)
        ctx.ob("link-target", [fn.path, "target"], okk, "the link points to %s" % show(t)[:300])
        src = [t2 for t2, x in p.facts.items() if t2.tag == "C" and t2.a[0].endswith("is_empty") and x is False and any(y.tag == "Arg" and y.a[1] == "source" for y in subset(t2))]
        ctx.ob("link-target", [fn.path, "source not the root"], bool(src) or source_positive(p), "a link may replace the root of the tree")
    ctx.floor("accepted links", nok, 2)
    for g, sp in constructions(ctx, "NiceSymlinkPaths"):
        ctx.ob("link-made", [g.path, "literal"], g.path == fn.path or link_copy(ctx, g), "the paths of a link are built without their checks at %s" % sp)
    m = ctx.method("posy::tree::WriteTree", "WriteTreeFS", "write_symlink")
    k = 0
    for p in ctx.paths(m, inline=[r"WriteTreeFS::full_path$"]):
        for e in p.calls("std::os::unix::fs::symlink", "std::fs::soft_link", "std::fs::hard_link"):
            k += 1
            a = strip(e.args[0])
            ctx.ob("link-made", [m.path, "target"], a.tag == "F" and a.a[1] == "target" and strip(a.a[0]).tag == "Arg", "a link is made to %s" % show(a))
            ctx.ob("link-made", [m.path, "source"], is_target(strip(e.args[1]), "symlink"), "a link is made at %s" % show(e.args[1]))
    ctx.floor("links made", k, 1)
    for g, bi, t, fr in ctx.callers("std::os::unix::fs::symlink", "std::fs::soft_link", "std::fs::hard_link"):
        ctx.ob("link-made", [root_fn(ctx.p, g).path, "who"], g.path == m.path or root_fn(ctx.p, g).path not in base_fns(), "%s makes links itself" % g.path)


def link_copy(ctx, g):
    """a link renamed by the wheel unpacker: source from paths only, target kept -- only accepted when rechecked"""
    return False


def known_empty_or_not(p, vec):
    return True


def source_positive(p):
    return False


def p04(ctx):
    ctx.rule("links-last", "links of a zip are only collected while its members are unpacked, and made after all of them, deepest first")
    ctx.rule("no-overwrite", "a file is created only where nothing exists yet; an existing file or link is never written through")
    ctx.rule("exec-bit", "a file is executable exactly when the archive's mode says so")
    fn = ctx.fn(r"^posy::tree::unpack_zip_carefully$")
    over = lambda it: any(x.tag == "A" and "Range" in x.a[0] for x in subset(bare(it))) and not any(isC(x, "NiceSymlinkPaths::new") for x in subset(bare(it)))
    keep = lambda t: any(x.tag == "C" and x.a[0].rsplit("::", 1)[-1] in ("unix_mode", "is_dir", "is_symlink", "is_file", "write_file", "mkdir", "write_symlink") for x in subset(t))
    PURE = r"(^zip::|WriteTree::(write_file|mkdir)$|slurp$)"
    its = ctx.iterations(fn, over, keep=keep, pure=PURE, interesting=lambda e: e.kind == "call" and e.is_("write_file", "mkdir", "write_symlink", "Vec::push", "NiceSymlinkPaths::new"), limit=800000)
    n = m = 0
    for p in its:
        if p.end != "next":
            continue
        wl = p.calls("write_symlink")
        ctx.ob("links-last", [fn.path, "collected"], not wl, "a link is made while members are still being unpacked")
        mode = [(t, v) for t, v in p.facts.items() if t.tag == "C" and t.a[0].endswith("unix_mode")]
        link = is_link(p)
        if link is True:
            n += 1
            pushed = [e for e in p.calls("Vec::push") if any(isC(x, "NiceSymlinkPaths::new") for x in subset(e.args[1]))]
            ctx.ob("links-last", [fn.path, "kept"], len(pushed) == 1, "a link member is dropped or kept twice")
            for e in pushed:
                c = [x for x in subset(e.args[1]) if isC(x, "NiceSymlinkPaths::new")][0]
                ctx.ob("links-last", [fn.path, "sorted after"], not any("sort" in m2 or m2.endswith("::reverse") for m2, _ in history(e.args[0])), "links are collected after they were put in order")
                ok = archive_path(strip(c.a[1][0])) and any(isC(x, "slurp", "read_to_end", "read_to_string") or x.tag == "C" and x.a[0].endswith("slurp") for x in subset(c.a[1][1]))
                ctx.ob("links-last", [fn.path, "link"], ok, "a link is made from %s" % show(c)[:200])
            ctx.ob("links-last", [fn.path, "not a file"], not p.calls("write_file", "mkdir"), "a link member is also written as a file")
        else:
            m += 1
            wf, md = p.calls("write_file"), p.calls("mkdir")
            ctx.ob("links-last", [fn.path, "written"], len(wf) + len(md) == 1, "a member is skipped or written twice: %s" % p.show()[:300])
            isdir = [v for t, v in p.facts.items() if t.tag == "C" and t.a[0].endswith("is_dir")]
            if isdir:
                ctx.ob("links-last", [fn.path, "directory"], len(md) == (1 if isdir[-1] is True else 0), "a directory is written as a file or the reverse")
            for e in wf:
                ok = exec_ok(p, e.args[3] if len(e.args) > 3 else e.args[-1], 0o111)
                ctx.ob("exec-bit", [fn.path, "zip"], ok, "a file is made executable by %s" % show(e.args[-1])[:160])
                d = bare(e.args[2])
                ctx.ob("no-overwrite", [fn.path, "data"], d.tag == "P" and isC(d.a[0], "by_index", "ZipArchive<R>::by_index") or any(x.tag == "C" and x.a[0].endswith("by_index") for x in subset(d)), "the data written is %s" % show(d)[:160])
            for e in wf + md:
                ctx.ob("no-overwrite", [fn.path, "errors"], p.facts.get(e.ret) == ("v", "Ok"), "a failure to write a member is ignored")
                # the name and the data are those of the same member
                nm = [x for x in subset(bare(e.args[1])) if x.tag == "C" and x.a[0].endswith("by_index")]
                ctx.ob("links-last", [fn.path, "all members"], len({x for x in nm}) == 1 and full_range(nm[0]), "the members unpacked are %s" % [show(x)[:120] for x in nm])
    ctx.floor("link members", n, 1)
    ctx.floor("other members", m, 2)
    # after the loop
    k = 0
    over2 = lambda it: not over(it) and any(isC(x, "NiceSymlinkPaths::new") or x.tag == "C" and "Vec" in x.a[0] for x in subset(it))
    orders = set()
    for p in ctx.iterations(fn, over2, keep=lambda t: isC(t, "write_symlink"), pure=PURE, limit=800000, interesting=lambda e: e.kind == "call" and e.is_("write_file", "mkdir", "write_symlink")):
        if p.end not in ("next",):
            continue
        wl = p.calls("write_symlink")
        ctx.ob("links-last", [fn.path, "after"], not p.calls("write_file", "mkdir"), "files are written after links were made")
        for e in wl:
            k += 1
            ctx.ob("links-last", [fn.path, "errors"], p.facts.get(e.ret) == ("v", "Ok"), "a failure to make a link is ignored")
            orders.add(p.over)
    ctx.floor("links made at the end", k, 1)
    for t in orders:
        ctx.ob("links-last", [fn.path, "deepest first"], deepest_first(ctx, t), "links are made in the order of %s" % show(t)[:250])
    # success only after the loop over the links
    aft = []
    ctx.iterations(fn, lambda it: True, interesting=lambda e: e.kind == "call" and e.is_("write_file", "mkdir", "write_symlink"), keep=lambda t: False, pure=PURE, after=aft, limit=800000)
    k = 0
    for p in aft:
        if p.ok():
            k += 1
            ctx.ob("links-last", [fn.path, "none forgotten"], over2(p.over) and not p.evs, "the archive counts as unpacked without its links: the last loop is over %s" % show(p.over)[:120])
    ctx.floor("ways to finish", k, 1)
    w = ctx.method("posy::tree::WriteTree", "WriteTreeFS", "write_file")
    k = 0
    for p in ctx.paths(w):
        if not p.ok():
            continue
        k += 1
        op = p.calls("OpenOptions::open", "File::create_new", "File::create", "std::fs::write")
        ok = len(op) == 1
        if ok and op[0].is_("OpenOptions::open"):
            h = {m.rsplit("::", 1)[-1]: ar for m, ar in history(op[0].args[0])}
            ok = "create_new" in h and is_k(strip(h["create_new"][0]), "bool", True)
            md = [ar for m2, ar in history(op[0].args[0]) if m2.rsplit("::", 1)[-1] == "mode"]
            ex = [v for t, v in p.facts.items() if t.tag == "Arg" and t.a[1] == "executable"]
            bits = strip(md[0][0]) if len(md) == 1 else None
            mok = bits is not None and ex and is_k(bits, "int") and (bits.a[1] & 0o111 == (0o111 if ex[0] else 0)) and bits.a[1] & 0o600 == 0o600 and bits.a[1] & ~0o777 == 0
            ctx.ob("exec-bit", [w.path, "mode"], mok, "a file is created with mode %s when executable is %s" % (show(bits) if bits is not None else None, ex))
        elif ok:
            ok = op[0].is_("File::create_new")
            ctx.fail("exec-bit", [w.path, "mode"], "the file's mode is not set")
        ctx.ob("no-overwrite", [w.path, "create_new"], ok, "a file is opened by %s" % list(map(str, op)))
        cp = [e for e in p.evs if e.kind == "call" and e.is_("std::io::copy")]
        ok = len(cp) == 1 and strip(cp[0].args[0]).tag == "Arg" and strip(cp[0].args[0]).a[1] == "data" and p.facts.get(cp[0].ret) == ("v", "Ok") and op and strip(cp[0].args[1]) is mk("P", op[0].ret, "Ok", "0")
        ctx.ob("no-overwrite", [w.path, "content"], ok, "the file's content is not exactly the member's data")
    ctx.floor("files created", k, 1)


def full_range(byidx):
    """by_index(z, each of 0..z.len())"""
    i = strip(byidx.a[1][1])
    if i.tag != "Elem":
        return False
    r = [x for x in subset(i) if x.tag == "A" and "Range" in x.a[0]]
    if len(r) != 1:
        return False
    f = dict(zip(r[0].a[2], r[0].a[3]))
    return lin(f.get("start")) == {} and strip(f.get("end")).tag == "C" and strip(f.get("end")).a[0].endswith("::len") and not any(
        x.tag == "Iter" and x.a[0] in ("skip", "take", "filter", "step_by", "skip_while", "take_while", "filter_map") for x in subset(i))


def is_link(p):
    """what the path knows about the file type bits (True: a symlink)"""
    for t, v in p.facts.items():
        b = bare(t)
        if b.tag == "C" and b.a[0].endswith("unix_mode") and v == ("v", "None"):
            return False
        if b.tag == "Bin" and b.a[0] in ("Eq", "Ne") and isinstance(v, bool):
            ks = [strip(x) for x in b.a[1:]]
            m = [x for x in ks if x.tag == "Bin" and x.a[0] == "BitAnd" and any(is_k(strip(y), "int", 0xf000) for y in x.a[1:])]
            if m and any(is_k(x, "int", 0xa000) for x in ks):
                return v == (b.a[0] == "Eq")
        if b.tag == "Bin" and b.a[0] == "BitAnd" and any(is_k(strip(y), "int", 0xf000) for y in b.a[1:]) and isinstance(v, tuple):
            return v == ("i", 0xa000)
        if b.tag == "C" and b.a[0].endswith("is_symlink") and isinstance(v, bool):
            return v
    return None


def exec_ok(p, t, mask):
    t = strip(t)
    for a in subset(t):
        if a.tag == "Un" and a.a[0] == "Not" and strip(a.a[1]).tag == "Bin" and strip(a.a[1]).a[0] == "Eq" and any(is_k(strip(y), "int", 0) for y in strip(a.a[1]).a[1:]):
            m = [x for x in subset(a) if x.tag == "Bin" and x.a[0] == "BitAnd"]
            return len(m) == 1 and any(is_k(strip(y), "int", mask) for y in m[0].a[1:])
        if a.tag == "Bin" and a.a[0] in ("Ne", "Gt") and is_k(strip(a.a[2]), "int", 0):
            m = [x for x in subset(a) if x.tag == "Bin" and x.a[0] == "BitAnd"]
            return len(m) == 1 and any(is_k(strip(y), "int", mask) for y in m[0].a[1:])
    if t.tag == "K" and isinstance(t.a[1], bool):
        none = any(x.tag == "C" and x.a[0].endswith("unix_mode") and v == ("v", "None") for x, v in p.facts.items())
        if none:
            return t.a[1] is False
        for x, v in p.facts.items():
            b = bare(x)
            if b.tag == "Bin" and isinstance(v, bool) and any(z.tag == "Bin" and z.a[0] == "BitAnd" and any(is_k(strip(y), "int", mask) for y in z.a[1:]) for z in subset(b)) and any(is_k(strip(y), "int", 0) for y in b.a[1:]):
                nz = v if b.a[0] in ("Ne", "Gt") else (not v)
                return t.a[1] == nz
    return False


def deepest_first(ctx, t):
    """the links come from a vector sorted by the length of their source path, longest first"""
    return sort_order(ctx, t, lambda x: x.tag == "C" and x.a[0].endswith("::len") and any(y.tag == "F" and y.a[1] == "source" for y in subset(x))) == "desc"


def p05(ctx):
    ctx.rule("tar-kinds", "links, devices and fifos in an sdist are an error, directories are made, only pure metadata records are skipped, and everything else is written as a file")
    fn = ctx.fn(r"^posy::tree::unpack_tar_gz_carefully$")
    over = lambda it: any(x.tag == "C" and x.a[0].rsplit("::", 1)[-1] in ("entries", "entries_with_seek") for x in subset(it))
    bad = {"Symlink", "Link", "Char", "Block", "Fifo"}
    meta = {"GNULongName", "GNULongLink", "XGlobalHeader", "XHeader"}
    n = 0
    for p in ctx.iterations(fn, over, interesting=lambda e: e.kind == "call" and e.is_("write_file", "mkdir", "write_symlink", "Header::mode")):
        kind = kinds(ctx, p)
        good = p.end == "next" or p.ok()
        wf, md = p.calls("write_file"), p.calls("mkdir")
        ctx.ob("tar-kinds", [fn.path, "no links"], not p.calls("write_symlink"), "a link is made from an sdist")
        if p.end == "next":
            n += 1
            ctx.ob("tar-kinds", [fn.path, "refused kinds"], not (kind & bad), "entries of kind %s are accepted" % sorted(kind & bad))
            if not wf and not md:
                ctx.ob("tar-kinds", [fn.path, "skipped kinds"], kind <= meta, "entries of kind %s are silently left out" % sorted(kind - meta))
            if md:
                ctx.ob("tar-kinds", [fn.path, "directories"], kind <= {"Directory"} and not wf, "entries of kind %s are made directories" % sorted(kind))
            for e in wf:
                ctx.ob("tar-kinds", [fn.path, "files"], "Directory" not in kind and not kind & meta, "entries of kind %s are written as files" % sorted(kind & (meta | {"Directory"})))
                ctx.ob("tar-kinds", [fn.path, "executable"], exec_ok(p, e.args[-1], 0o100) or exec_ok(p, e.args[-1], 0o111), "a file is made executable by %s" % show(e.args[-1])[:160])
                E = [x for x in subset(bare(e.args[2])) if x.tag == "Elem"]
                E2 = [x for x in subset(bare(e.args[1])) if x.tag == "Elem"]
                ctx.ob("tar-kinds", [fn.path, "same entry"], len(E) == 1 and E == E2 and archive_path(strip(e.args[1])), "the entry %s is written with data %s" % (show(e.args[1])[:100], show(e.args[2])[:100]))
            for e in wf + md:
                ctx.ob("tar-kinds", [fn.path, "errors"], p.facts.get(e.ret) == ("v", "Ok"), "a failure to write an entry is ignored")
        elif p.err() and kind & {"Regular", "Continuous", "GNUSparse"} and len(kind) == 1:
            pass
    ctx.floor("entry kinds handled", n, 3)


ALLK = {"Regular", "Link", "Symlink", "Char", "Block", "Directory", "Fifo", "Continuous", "GNULongName", "GNULongLink", "GNUSparse", "XGlobalHeader", "XHeader", "__Nonexhaustive"}


def kinds(ctx, p):
    k = set(ALLK)
    tests = {"is_symlink": {"Symlink"}, "is_hard_link": {"Link"}, "is_dir": {"Directory"}, "is_file": {"Regular"}, "is_fifo": {"Fifo"},
             "is_character_special": {"Char"}, "is_block_special": {"Block"}, "is_gnu_sparse": {"GNUSparse"}, "is_contiguous": {"Continuous"},
             "is_gnu_longname": {"GNULongName"}, "is_gnu_longlink": {"GNULongLink"}, "is_pax_global_extensions": {"XGlobalHeader"}, "is_pax_local_extensions": {"XHeader"}}
    for t, v in p.facts.items():
        if t.tag == "C" and t.a[0].endswith("entry_type") and isinstance(v, tuple):
            if v[0] == "v":
                k &= {v[1]}
            elif v[0] == "nv":
                k -= set(v[1])
        if t.tag == "C" and isinstance(v, bool):
            s = tests.get(t.a[0].rsplit("::", 1)[-1])
            if s and any(x.tag == "C" and x.a[0].endswith("entry_type") for x in subset(t)):
                k = k & s if v else k - s
        if t.tag == "Bin" and t.a[0] == "Eq" and isinstance(v, bool):
            vs = [strip(x) for x in t.a[1:]]
            a = [x for x in vs if x.tag == "A" and "EntryType" in x.a[0]]
            if a and any(x.tag == "C" and x.a[0].endswith("entry_type") for x in vs):
                k = k & {a[0].a[1]} if v else k - {a[0].a[1]}
    return k


RULES = {"P01": [p01], "P02": [p02], "P03": [p03], "P04": [p04], "P05": [p05]}
