"""Artifact files: what a wheel or pybi must say about itself, and where a wheel's members go."""
import re
from rulelib import *


def isarg(t, name):
    t = strip(t)
    return t.tag == "Arg" and t.a[1] == name


def argfield(t, *names):
    """$self.a.b... given the outermost argument's name first"""
    t = strip(peel(t))
    for n in reversed(names[1:]):
        if t.tag != "F" or t.a[1] != n:
            return False
        t = strip(t.a[0])
    return t.tag == "Arg" and t.a[1] == names[0]


def eqtrue(p, fa, fb):
    """does the path know that a value satisfying fa equals one satisfying fb?"""
    for t, v in p.facts.items():
        if t.tag == "Bin" and t.a[0] in ("Eq", "Ne") and isinstance(v, bool) and v == (t.a[0] == "Eq"):
            a, b = t.a[1], t.a[2]
            if fa(a) and fb(b) or fa(b) and fb(a):
                return True
        if v == ("v", "Equal") and t.tag == "C" and len(t.a[1]) == 2 and t.a[0].rsplit("::", 1)[-1] in ("cmp",):
            a, b = t.a[1]
            if fa(a) and fb(b) or fa(b) and fb(a):
                return True
    return False


def known_str(p, t, s):
    """the path knows that the string t is exactly s"""
    t = bare(t)
    for f, v in p.facts.items():
        b = bare(f)
        while isC(b, "as_str") or isC(b, "as_ref") or isC(b, "deref") or b.tag == "Idx":
            b = bare(b.a[1][0] if b.tag == "C" else b.a[0])
        if isinstance(v, tuple) and v[0] in ("i", "s") and v[1] == s and b is t:
            return True
        if b.tag == "Bin" and b.a[0] == "Eq" and v is True and any(is_k(strip(x), "str", s) for x in b.a[1:]) and any(x is t for x in map(bare, b.a[1:])):
            return True
    return False


def major_is(p, v, major):
    """the version string v is known to have the major part `major`"""
    v = bare(v)
    for t, x in p.facts.items():
        b = bare(t)
        if b.tag == "C" and b.a[0].endswith("starts_with") and x is True and bare(b.a[1][0]) is v and is_k(strip(b.a[1][1]), "str", major + "."):
            return True
        if b.tag == "C" and b.a[0].endswith("strip_prefix") and x == ("v", "Some") and bare(b.a[1][0]) is v and is_k(strip(b.a[1][1]), "str", major + "."):
            return True
    for t in {y for f in p.facts for y in subset(bare(f))}:
        if t.tag == "F" and t.a[1] == "0" and isC(strip(strip(t.a[0]).a[0]) if strip(t.a[0]).tag == "P" else t, "split_once"):
            c = strip(strip(t.a[0]).a[0])
            if bare(c.a[1][0]) is v and is_k(strip(c.a[1][1]), None, ".") and known_str(p, t, major):
                return True
        if t.tag == "P" and isC(strip(t.a[0]), "next") and isC(bare(strip(t.a[0]).a[1][0]), "split"):
            c = bare(strip(t.a[0]).a[1][0])
            if bare(c.a[1][0]) is v and is_k(strip(c.a[1][1]), None, ".") and known_str(p, t, major):
                return True
    return False


def fmt_is(t, *want):
    """a formatted string made of exactly these pieces (strings, or predicates on displayed terms)"""
    ps = [x for x in fmt_pieces(t)]
    out = []
    for x in ps:
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        elif x != "":
            out.append(x)
    if len(out) != len(want):
        return False
    for x, w in zip(out, want):
        if isinstance(w, str):
            if x != w:
                return False
        else:
            if isinstance(x, str):
                return False
            y = strip(x)
            if y.tag == "Disp":
                y = y.a[0]
            if not w(y):
                return False
    return True


DIRRE = {r"^(.*)-(.*)\..*", r"^(.*)-(.*)\.", r"^(.*)-(.*)\..*$", r"^(.+)-(.+)\..*", r"^(.+)-(.+)\..+$"}


def p10_dirs(ctx):
    ctx.rule("special-dir", "a .dist-info or .data directory is used only if it is the only one and is named after the wheel's own name and version")
    fn = ctx.fn(r"Wheel::find_special_wheel_dir$")
    n = 0
    for p in ctx.paths(fn):
        if not p.ok():
            continue
        r = strip(p.val())
        if r.tag == "A" and r.a[1] == "None":
            # nothing found: only when there is no candidate at all
            some = [v for t, v in p.facts.items() if t.tag == "C" and t.a[0].rsplit("::", 1)[-1] in ("pop", "next", "first", "last", "get") and v == ("v", "Some")]
            ctx.ob("special-dir", [fn.path, "none"], not some, "a directory that exists is passed over: %s" % p.show()[:300])
            continue
        if r.tag != "A" or r.a[1] != "Some":
            ctx.fail("special-dir", [fn.path, "result"], "the result is %s" % show(r)[:200])
            continue
        n += 1
        c = bare(strip(r.a[3][0]))
        if not any(m.rsplit("::", 1)[-1] in ("push", "insert", "push_back") for x in subset(strip(r.a[3][0])) if x.tag == "Acc" for m, _ in x.a[1]) and \
                any(isC(x, "collect") for x in subset(c)):
            continue    # an element out of a collection nothing was put in: no such run
        ends = [t for t, v in p.facts.items() if v is True and isC(t, "ends_with") and isarg(t.a[1][1], "suffix")]
        ctx.ob("special-dir", [fn.path, "suffix"], bool(ends), "the directory is accepted without looking at its suffix")
        unique = False
        for t, v in p.facts.items():
            ln = t.a[0].rsplit("::", 1)[-1] if t.tag == "C" else ""
            if ln == "is_empty" and v is True and any(m.rsplit("::", 1)[-1] in ("pop", "remove", "swap_remove") for m, _ in history(t.a[1][0])):
                unique = True
            if ln == "len" and v == ("i", 1) or t.tag == "Bin" and t.a[0] == "Eq" and v is True and any(isC(strip(x), "len") for x in t.a[1:]) and any(is_k(strip(x), "int", 1) for x in t.a[1:]):
                unique = True
            if ln == "next" and v == ("v", "None") and any(m.rsplit("::", 1)[-1] == "next" for m, _ in history(t.a[1][0])):
                unique = True
            if t.tag == "Bin" and isinstance(v, bool):
                for f in ineqs([(t, v)]):
                    ks = [k for k in f if k is not None]
                    if len(ks) == 1 and isC(ks[0], "len") and f[ks[0]] == -1:
                        lim = f.get(None, 0)
                        if lim <= 1 and not history(ks[0].a[1][0]) or lim == 0:
                            unique = True
        ctx.ob("special-dir", [fn.path, "unique"], unique, "one of several candidate directories is accepted")

        def group(t, i, ty):
            t = bare(t)
            if t.tag != "P" or not isC(t.a[0], "try_from", "try_into", "parse", "from_str", ty + "::try_from"):
                return False
            # captures(re, c).get(i) / captures[i]
            caps = [x for x in subset(t) if x.tag == "C" and x.a[0].endswith("Regex::captures")]
            if len(caps) != 1 or c not in {bare(y) for y in subset(caps[0])}:
                return False
            if caps[0].a[1][0].tag not in ("Static", "C", "P", "Arg", "F") and False:
                return False
            g = [x for x in subset(t) if x.tag == "C" and x.a[0].endswith("Captures::get")]
            ix = [x for x in subset(t) if x.tag == "Idx"]
            return len(g) == 1 and is_k(strip(g[0].a[1][1]), "int", i) or len(ix) == 1 and is_k(strip(ix[0].a[1]), "int", i)
        ctx.ob("special-dir", [fn.path, "name"], eqtrue(p, lambda t: isarg(t, "name"), lambda t: group(t, 1, "PackageName")), "a directory named after another package is accepted: %s" % p.show()[:300])
        ctx.ob("special-dir", [fn.path, "version"], eqtrue(p, lambda t: isarg(t, "version"), lambda t: group(t, 2, "Version")), "a directory named after another version is accepted: %s" % p.show()[:300])
        st = {x.a[0] for f in p.facts for x in subset(f) if x.tag == "Static" and "RE" in str(x.a[0])}
        for s in st:
            pat = ctx.static_regex(s)
            ctx.ob("special-dir", [s, "pattern"], pat in DIRRE, "the pattern is %r" % pat)
        ctx.ob("special-dir", [fn.path, "pattern"], len(st) == 1, "the name is taken apart by %s" % st)
    ctx.floor("accepted directories", n, 1)


def special(t, suffix):
    """the directory find_special_wheel_dir found for this suffix, for this wheel's own name and version"""
    t = bare(t)
    while isC(t, "to_string") or isC(t, "to_owned") or isC(t, "deref") or t.tag == "Fmt" and len(t.a) == 1 and not isinstance(t.a[0], str):
        t = bare(t.a[1][0]) if t.tag == "C" else bare(t.a[0])
        if t.tag == "Disp":
            t = bare(t.a[0])
    if t.tag != "P" or t.a[1] != "Some":
        return False
    c = bare(t.a[0])
    if c.tag == "P" and c.a[1] == "Ok":
        c = bare(c.a[0])
    return c.tag == "C" and c.a[0].endswith("find_special_wheel_dir") and argfield(c.a[1][1], "self", "name", "distribution") and \
        argfield(c.a[1][2], "self", "name", "version") and is_k(strip(c.a[1][3]), "str", suffix) and top_levels(c.a[1][0])


def top_levels(t):
    """the first components of all file names of the archive"""
    els = [x for x in subset(t) if x.tag == "Iter" and x.a[0] in ("filter", "take", "skip", "filter_map", "step_by", "take_while", "skip_while")]
    return any(x.tag == "C" and x.a[0].endswith("file_names") for x in subset(t)) and not els


def zipfile(t, pred):
    """the content of the member of this archive whose name satisfies pred"""
    t = bare(t)
    while t.tag == "C" and t.a[0].rsplit("::", 1)[-1] in ("as_slice", "as_ref", "deref", "clone", "borrow", "to_vec") or t.tag == "Idx" and "RangeFull" in show(t.a[1]):
        t = bare(t.a[1][0]) if t.tag == "C" else bare(t.a[0])
    if t.tag != "P" or t.a[1] != "Ok":
        return False
    c = bare(t.a[0])
    if c.tag == "C" and c.a[0].endswith("slurp_from_zip"):
        return argfield(c.a[1][0], "self", "z") and pred(c.a[1][1])
    if c.tag == "C" and c.a[0].endswith("slurp"):
        d = bare(c.a[1][0])
        if d.tag == "P" and d.a[1] == "Ok" and d.a[0].tag == "C" and d.a[0].a[0].endswith("by_name"):
            return argfield(d.a[0].a[1][0], "self", "z") and pred(d.a[0].a[1][1])
    return False


def parsed_meta(t, ty, blob):
    """the core metadata parsed from the member"""
    t = bare(t)
    return t.tag == "P" and t.a[1] == "Ok" and t.a[0].tag == "C" and t.a[0].a[0].endswith("try_from") and ty in t.a[0].a[0] and blob(t.a[0].a[1][0])


def vitals_field(t, name):
    t = bare(peel(t))
    if t.tag == "F" and t.a[1] == name:
        b = bare(t.a[0])
        return b.tag == "P" and b.a[1] == "Ok" and b.a[0].tag == "C" and b.a[0].a[0].endswith("get_vitals")
    return False


def p10(ctx):
    ctx.rule("format-version", "a WHEEL or PYBI file is accepted only if its format version is 1.x")
    ctx.rule("metadata-names", "metadata is handed out only if its name and version equal the file name's")
    ctx.rule("metadata-place", "the format and core metadata are read from the artifact's own metadata directory")
    ctx.rule("purelib", "Root-Is-Purelib must be exactly true or false, and is used as it says")
    pf = ctx.fn(r"parse_format_metadata_and_check_version$")
    n = 0
    for p in ctx.paths(pf):
        if p.ok():
            n += 1
            tk = [t for t, v in p.facts.items() if v == ("v", "Ok") and t.tag == "C" and t.a[0].endswith("take_the") and isarg(t.a[1][1], "version_field")]
            ok = len(tk) == 1 and major_is(p, mk("P", tk[0], "Ok", "0"), "1")
            ctx.ob("format-version", pf.path, ok, "a file is accepted whatever its format version: %s" % p.show()[:300])
            b = bare(p.val())
            ctx.ob("format-version", [pf.path, "value"], b.tag == "P" and b.a[0].tag == "C" and b.a[0].a[0].endswith("RFC822ish::parse") and any(isarg(x, "input") for x in subset(b)), "the fields returned are %s" % show(b)[:200])
    ctx.floor("accepted format metadata", n, 1)
    gv = ctx.fn(r"Wheel::get_vitals$")
    n = 0
    dist = lambda t: special(t, ".dist-info")
    for p in ctx.paths(gv, interesting=lambda e: False):
        if not p.ok():
            continue
        n += 1
        v = p.val()
        f = {k: peel(mk("F", v, k)) for k in ("dist_info", "data", "root_is_purelib", "metadata_blob", "metadata")}

        def nice(t, pred):
            t = bare(t)
            ps = fmt_pieces(t)
            if len(ps) == 1 and not isinstance(ps[0], str):
                t = bare(ps[0].a[0] if ps[0].tag == "Disp" else ps[0])
            return t.tag == "P" and t.a[1] == "Ok" and t.a[0].tag == "C" and "NicePathBuf" in t.a[0].a[0] and pred(t.a[0].a[1][0])
        ctx.ob("metadata-place", [gv.path, "dist-info"], nice(f["dist_info"], dist), "the .dist-info directory is %s" % show(f["dist_info"])[:300])

        def stem(t):
            t = bare(t)
            return t.tag == "P" and t.a[1] == "Some" and isC(t.a[0], "strip_suffix") and dist(t.a[0].a[1][0]) and is_k(strip(t.a[0].a[1][1]), "str", ".dist-info")
        found = None
        for t, x in p.facts.items():
            b = bare(t)
            if b.tag == "P" and b.a[1] == "Ok" and isC(b.a[0], "find_special_wheel_dir", "Wheel::find_special_wheel_dir") and is_k(strip(b.a[0].a[1][3]), "str", ".data"):
                found = x == ("v", "Some")
        ok = nice(f["data"], (lambda t: special(t, ".data")) if found else (lambda t: fmt_is(t, stem, ".data"))) and found is not None
        ctx.ob("metadata-place", [gv.path, "data", str(found)], ok, "the .data directory is %s" % show(f["data"])[:300])
        wf = lambda t: zipfile(t, lambda nm: fmt_is(nm, dist, "/WHEEL"))
        gate = [t for t, x in p.facts.items() if x == ("v", "Ok") and t.tag == "C" and t.a[0] and t.a[0].endswith("parse_format_metadata_and_check_version") and wf(t.a[1][0]) and is_k(strip(t.a[1][1]), "str", "Wheel-Version")]
        ctx.ob("format-version", [gv.path, "gate"], len(gate) == 1, "a wheel is accepted without its WHEEL file's version being checked")
        blob = lambda t: zipfile(t, lambda nm: fmt_is(nm, dist, "/METADATA"))
        ctx.ob("metadata-place", [gv.path, "blob"], blob(f["metadata_blob"]), "the metadata blob is %s" % show(f["metadata_blob"])[:300])
        md = lambda t: parsed_meta(t, "WheelCoreMetadata", blob)
        ctx.ob("metadata-place", [gv.path, "metadata"], md(f["metadata"]), "the metadata is %s" % show(f["metadata"])[:300])
        for fld, own in (("name", "distribution"), ("version", "version")):
            ok = eqtrue(p, lambda t: argfield(t, "self", "name", own), lambda t: bare(t).tag == "F" and bare(t).a[1] == fld and md(bare(t).a[0]))
            ctx.ob("metadata-names", [gv.path, fld], ok, "a wheel whose METADATA gives another %s is accepted" % fld)
        tk = [t for t, x in p.facts.items() if x == ("v", "Ok") and t.tag == "C" and t.a[0].endswith("take_the") and is_k(strip(t.a[1][1]), "str", "Root-Is-Purelib") and gate and bare(t.a[1][0]) is bare(mk("P", gate[0], "Ok", "0"))]
        val = strip(f["root_is_purelib"])
        if val.tag != "K" and bval(p, val) is not None:
            val = Bool(bval(p, val))
        ok = len(tk) == 1 and (val.tag == "K" and known_str(p, mk("P", tk[0], "Ok", "0"), "true" if val.a[1] else "false"))
        ctx.ob("purelib", [gv.path, show(val)], ok, "root_is_purelib is %s when Root-Is-Purelib is %s" % (show(val), [(show(t)[-60:], x) for t, x in p.facts.items() if isinstance(x, tuple) and x[0] in ("s", "ns", "i", "ni")]))
    ctx.floor("accepted wheels", n, 4)
    wm = ctx.method("posy::vocab::artifact_formats::BinaryArtifact", "Wheel", "metadata")
    n = 0
    for p in ctx.paths(wm):
        if p.ok():
            n += 1
            v = p.val()
            ok = v.tag == "Tup" and vitals_field(v.a[0], "metadata_blob") and vitals_field(v.a[1], "metadata")
            ctx.ob("metadata-names", wm.path, ok, "the metadata handed out is %s" % show(v)[:200])
    ctx.floor("wheel metadata", n, 1)
    pm = ctx.method("posy::vocab::artifact_formats::BinaryArtifact", "Pybi", "metadata")
    n = 0
    for p in ctx.paths(pm):
        if p.ok():
            n += 1
            v = p.val()
            blob = lambda t: zipfile(t, lambda nm: is_k(strip(nm), "str", "pybi-info/METADATA"))
            md = lambda t: parsed_meta(t, "PybiCoreMetadata", blob)
            ok = v.tag == "Tup" and blob(v.a[0]) and md(v.a[1])
            ctx.ob("metadata-place", pm.path, ok, "the metadata handed out is %s" % show(v)[:200])
            gate = [t for t, x in p.facts.items() if x == ("v", "Ok") and t.tag == "C" and t.a[0].endswith("parse_format_metadata_and_check_version")
                    and zipfile(t.a[1][0], lambda nm: is_k(strip(nm), "str", "pybi-info/PYBI")) and is_k(strip(t.a[1][1]), "str", "Pybi-Version")]
            ctx.ob("format-version", pm.path, len(gate) == 1, "a pybi is accepted without its PYBI file's version being checked")
            for fld, own in (("name", "distribution"), ("version", "version")):
                ok = eqtrue(p, lambda t: argfield(t, "self", "name", own), lambda t: bare(t).tag == "F" and bare(t).a[1] == fld and md(bare(t).a[0]))
                ctx.ob("metadata-names", [pm.path, fld], ok, "a pybi whose METADATA gives another %s is accepted" % fld)
    ctx.floor("pybi metadata", n, 1)
    for fn, sp in constructions(ctx, "WheelVitals"):
        ctx.ob("metadata-names", [fn.path, "literal"], fn.path == gv.path or fn.path not in base_fns(), "wheel vitals are made up at %s" % sp)


# ------------------------------------------------------------------------------------------- P51
TYPES = {"console_scripts": "Console", "gui_scripts": "GUI"}


def p51(ctx):
    ctx.rule("category", "members under the wheel's .data directory go to the directory their category names, all others to purelib or platlib as the wheel says")
    ctx.rule("placed", "every member is written exactly once, at its mapped place; errors are not ignored")
    ctx.rule("script", "files of the scripts category become executable; those starting with #!python become trampolines of the right kind around the rest of the file")
    ctx.rule("generated", "INSTALLER says posy, and every declared entry point becomes a script of its own name and kind")
    ap = ctx.fn(r"WheelTreeTransformer.*::analyze_path$")
    path = lambda t: isarg(t, "path")
    n = 0

    def piece(t, i):
        t = bare(t)
        if isC(t, "as_str") or isC(t, "deref") or isC(t, "as_ref"):
            t = bare(t.a[1][0])
        if t.tag == "P" and t.a[1] == "Some" and t.a[0].tag == "C" and t.a[0].a[0].endswith("::get"):
            return pieces(t.a[0].a[1][0]) and is_k(strip(t.a[0].a[1][1]), "int", i)
        if t.tag == "Idx":
            return pieces(t.a[0]) and is_k(strip(t.a[1]), "int", i)
        if i == 0 and t.tag == "P" and isC(t.a[0], "first"):
            return pieces(t.a[0].a[1][0])
        return t.tag == "Tuple" and False

    def pieces(t):
        t = bare(t)
        while isC(t, "deref") or isC(t, "as_slice") or isC(t, "as_ref") or isC(t, "iter"):
            t = bare(t.a[1][0])
        return t.tag == "C" and t.a[0].endswith("NicePathBuf::pieces") and path(t.a[1][0]) or argfield(t, "path", "pieces")

    def under_data(p):
        for t, v in p.facts.items():
            b = bare(t)
            if b.tag == "Bin" and b.a[0] == "Eq" and isinstance(v, bool):
                for x, y in ((b.a[1], b.a[2]), (b.a[2], b.a[1])):
                    x, y = bare(x), bare(y)
                    if y.tag == "A" and y.a[1] == "Some" and argfield(y.a[3][0], "self", "vitals", "data") and piece(mk("P", x, "Some", "0"), 0):
                        return v
                    if argfield(y, "self", "vitals", "data") and piece(x, 0):
                        return v
            if b.tag == "C" and v == ("v", "None") and piece(mk("P", b, "Some", "0"), 0):
                return False
        # a path that has a second piece because the first one matched
        if any(v in (("v", "Some"), ("v", "None")) and piece(mk("P", bare(t), "Some", "0"), 1) for t, v in p.facts.items()):
            return "unknown"
        return None

    for p in ctx.paths(ap, interesting=lambda e: False, keep=lambda t: True, inline=[r"NicePathBuf::pieces$"]):
        if p.end != "ret" or not p.ok():
            continue
        n += 1
        r = strip(p.val())
        ud = under_data(p)
        if r.tag == "A" and r.a[1] == "None":
            no1 = any(v == ("v", "None") and piece(mk("P", bare(t), "Some", "0"), 1) for t, v in p.facts.items()) or \
                any(v is True or v == ("i", 1) for t, v in p.facts.items() if "len" in show(t) and False)
            ctx.ob("category", [ap.path, "dropped"], ud is True and no1, "a member is left out although it is not the .data directory itself: %s" % p.show()[:300])
            continue
        if r.tag != "A" or r.a[1] != "Some" or r.a[3][0].tag != "Tup":
            ctx.fail("category", [ap.path, "result"], "the place is %s" % show(r)[:200])
            continue
        place, script = r.a[3][0].a
        b = bare(place)
        ok = b.tag == "C" and b.a[0].endswith("NicePathBuf::join")
        base = bare(b.a[1][0]) if ok else None
        rest = bare(b.a[1][1]) if ok else None
        ok = ok and base.tag == "P" and base.a[1] == "Some" and isC(base.a[0], "get", "HashMap::get") and argfield(base.a[0].a[1][0], "self", "paths") and \
            isC(rest, "slice", "NicePathBuf::slice") and path(rest.a[1][0]) and rest.a[1][1].tag == "A" and rest.a[1][1].a[1] == "RangeFrom"
        if not ok:
            ctx.fail("category", [ap.path, "place"], "the place is %s" % show(place)[:300])
            continue
        key = bare(base.a[0].a[1][1])
        start = rest.a[1][1].a[3][0]
        pure = [v for t, v in p.facts.items() if argfield(t, "self", "vitals", "root_is_purelib") and isinstance(v, bool)]
        s = strip(script)
        if ud is True:
            ctx.ob("category", [ap.path, "data key"], piece(key, 1), "a member of .data goes to %s" % show(key)[:200])
            ctx.ob("category", [ap.path, "data rest"], is_k(start, "int", 2), "a member of .data keeps its name from component %s on" % show(start))
            sk = [v for t, v in p.facts.items() if bare(t).tag == "Bin" and bare(t).a[0] == "Eq" and isinstance(v, bool) and any(is_k(strip(x), "str", "scripts") for x in t.a[1:])]
            okk = s.tag == "Bin" and s.a[0] == "Eq" and any(is_k(strip(x), "str", "scripts") for x in s.a[1:]) and any(piece(x, 1) for x in s.a[1:])
            okk = okk or s.tag == "K" and (known_str(p, key, "scripts") if s.a[1] else sk == [False] or any(isinstance(v, tuple) and v[0] in ("ni", "ns") and "scripts" in v[1] for v in p.facts.values()))
            ctx.ob("script", [ap.path, "which"], okk, "a member of .data counts as a script when %s" % show(s)[:200])
        elif ud is False:
            want = "purelib" if pure == [True] else "platlib" if pure == [False] else None
            ctx.ob("category", [ap.path, "root", str(want)], want is not None and is_k(key, "str", want), "an ordinary member goes to %s when root_is_purelib is %s" % (show(key), pure))
            ctx.ob("category", [ap.path, "root rest"], is_k(start, "int", 0), "an ordinary member keeps its name from component %s on" % show(start))
            ctx.ob("script", [ap.path, "root not"], is_k(s, "bool", False) or s.tag == "Bin" and s.a[0] == "Eq" and any(is_k(strip(x), "str", want) for x in s.a[1:]) and any(is_k(strip(x), "str", "scripts") for x in s.a[1:]),
                   "an ordinary member counts as a script when %s" % show(s)[:200])
        else:
            ctx.fail("category", [ap.path, "undecided"], "a member is placed at %s without its first component being compared with the .data directory" % show(place)[:200])
    ctx.floor("mapped members", n, 3)
    W = r"WheelTreeTransformer"
    WT = "posy::tree::WriteTree"

    def fixed(t, i):
        t = bare(t)
        return t.tag == "F" and t.a[1] == str(i) and bare(t.a[0]).tag == "P" and bare(bare(t.a[0]).a[0]).tag == "P" and isC(bare(bare(t.a[0]).a[0]).a[0], "analyze_path", "WheelTreeTransformer::analyze_path") and path(bare(bare(t.a[0]).a[0]).a[0].a[1][1])

    def dropped(p):
        return any(v == ("v", "None") and bare(t).tag == "P" and isC(bare(t).a[0], "analyze_path", "WheelTreeTransformer::analyze_path") for t, v in p.facts.items())
    md = ctx.method(WT, W, "mkdir")
    for p in ctx.paths(md):
        if p.end != "ret":
            continue
        cs = p.calls("WriteTree::mkdir", "WriteTree::write_file", "WriteTree::write_symlink")
        if p.err() and not cs:
            continue
        if dropped(p):
            ctx.ob("placed", [md.path, "dropped"], not cs, "a directory that has no place is made")
            continue
        ok = len(cs) == 1 and cs[0].is_("WriteTree::mkdir") and argfield(cs[0].args[0], "self", "dest") and fixed(cs[0].args[1], 0) and (p.v is cs[0].ret or p.err() or p.facts.get(cs[0].ret) == ("v", "Ok"))
        ctx.ob("placed", [md.path, "made"], ok, "a directory is made by %s" % list(map(str, cs)))
    sl = ctx.method(WT, W, "write_symlink")
    for p in ctx.paths(sl):
        ctx.ob("placed", sl.path, p.end != "ret" or p.err(), "a link in a wheel is accepted")
    wf = ctx.method(WT, W, "write_file")
    n = 0
    for p in ctx.paths(wf):
        if not p.ok():
            if p.err():
                continue
            continue
        cs = p.calls("WriteTree::mkdir", "WriteTree::write_file", "WriteTree::write_symlink", "TrampolineMaker::make_trampoline")
        if dropped(p):
            ctx.ob("placed", [wf.path, "dropped"], not cs, "a file that has no place is written")
            continue
        n += 1
        if len(cs) != 1 or not (p.facts.get(cs[0].ret) == ("v", "Ok") or p.v is cs[0].ret):
            ctx.fail("placed", [wf.path, "once"], "a member is written %d times, or a failure is ignored: %s" % (len(cs), p.show()[:300]))
            continue
        e = cs[0]
        isscript = [v for t, v in p.facts.items() if fixed(t, 1) and isinstance(v, bool)]
        sw = {}
        for t, v in p.facts.items():
            b = bare(t)
            if b.tag == "C" and b.a[0].endswith("starts_with") and isinstance(v, bool) and any(isC(x, "fill_buf", "BufRead::fill_buf") for x in subset(b)) and strip(b.a[1][1]).tag == "K":
                sw[strip(b.a[1][1]).a[1]] = v
        if e.is_("make_trampoline", "TrampolineMaker::make_trampoline"):
            k = strip(e.args[3])
            kind = k.a[1] if k.tag == "A" else None
            okk = isscript == [True] and sw.get("#!python") is True and argfield(e.args[0], "self", "trampoline_maker") and fixed(e.args[1], 0) and argfield(e.args[4], "self", "dest")
            ctx.ob("script", [wf.path, "trampoline"], okk, "a trampoline is made by %s" % str(e)[:300])
            okk = "#!pythonw" in sw and kind == ("GUI" if sw["#!pythonw"] else "Console")
            ctx.ob("script", [wf.path, "kind", str(kind)], okk, "a %s trampoline is made when the file starts with #!pythonw: %s" % (kind, sw.get("#!pythonw")))
            body = e.args[2]
            src = [x for x in subset(body) if x.tag == "C" and x.a[0].rsplit("::", 1)[-1] in ("slurp",)]
            ms = [m.rsplit("::", 1)[-1] for x in subset(body) if x.tag == "Acc" for m, _ in x.a[1]]
            rl = p.calls("BufRead::read_line", "BufRead::read_until", "BufRead::skip_until")
            okk = len(src) == 1 and any(isarg(x, "data") for x in subset(body)) and len(rl) == 1 and p.facts.get(rl[0].ret) == ("v", "Ok") and not p.calls("BufRead::consume")
            ctx.ob("script", [wf.path, "body"], okk, "the script put into the trampoline is %s" % show(body)[:200])
        else:
            okk = e.is_("WriteTree::write_file") and argfield(e.args[0], "self", "dest") and fixed(e.args[1], 0)
            ctx.ob("placed", [wf.path, "where"], okk, "a member is written by %s" % str(e)[:200])
            ex = strip(e.args[3])
            d = e.args[2]
            okk = any(isarg(x, "data") for x in subset(d)) and not p.calls("BufRead::read_line", "BufRead::consume", "Read::read", "Read::read_exact", "Read::take")
            ctx.ob("placed", [wf.path, "data"], okk, "the data written is %s" % show(d)[:200])
            if isscript == [True]:
                ctx.ob("script", [wf.path, "binary"], is_k(ex, "bool", True) and sw.get("#!python") is False, "a script is written as it is when %s, executable: %s" % (sw, show(ex)))
            elif isscript == [False]:
                ctx.ob("script", [wf.path, "plain"], is_k(ex, "bool", False), "an ordinary file is made executable: %s" % show(ex))
            else:
                ctx.ob("script", [wf.path, "same"], fixed(ex, 1), "whether the file is a script is not looked at")
    ctx.floor("ways to write a member", n, 4)
    # generated files
    un = ctx.fn(r"Wheel::unpack$")
    calls = lambda e: e.kind == "call" and e.is_("write_file", "WriteTree::write_file", "unpack_zip_carefully", "tree::unpack_zip_carefully", "script_for_entrypoint")
    n = 0

    def transformer(t):
        t = bare(t)
        return t.tag == "A" and t.a[0].endswith("WheelTreeTransformer") and isarg(peel(mk("F", t, "paths")), "paths") and isarg(peel(mk("F", t, "dest")), "dest") and \
            isarg(peel(mk("F", t, "trampoline_maker")), "trampoline_maker") and bare(peel(mk("F", t, "vitals"))).tag == "P"
    for p in ctx.paths(un, interesting=calls):
        if not p.ok():
            continue
        n += 1
        up = p.calls("unpack_zip_carefully", "tree::unpack_zip_carefully")
        ok = len(up) == 1 and p.facts.get(up[0].ret) == ("v", "Ok") and argfield(up[0].args[0], "self", "z") and transformer(up[0].args[1])
        ctx.ob("placed", [un.path, "members"], ok, "the wheel's members are unpacked by %s" % list(map(str, up)))
        inst = [e for e in p.calls("write_file", "WriteTree::write_file") if fmt_is(unwrap_path(e.args[1]), lambda t: vitals_field(t, "dist_info"), "/INSTALLER")]
        ok = len(inst) == 1 and transformer(inst[0].args[0]) and is_k(bare(inst[0].args[2]), None, "posy\n") and is_k(strip(inst[0].args[3]), "bool", False) and p.facts.get(inst[0].ret) == ("v", "Ok")
        ctx.ob("generated", [un.path, "INSTALLER"], ok, "INSTALLER is written by %s" % list(map(str, inst)))
        # if the entry points could be read, both kinds were looked at
        ep = [v for t, v in p.facts.items() if zipfile(mk("P", bare(t), "Ok", "0"), lambda nm: fmt_is(nm, lambda x: vitals_field(x, "dist_info"), "/entry_points.txt"))]
        looked = set()
        for t, v in p.facts.items():
            b = bare(t)
            if b.tag == "C" and b.a[0].rsplit("::", 1)[-1] == "get" and any(x.tag == "C" and x.a[0].endswith("parse_entry_points") for x in subset(b)) and strip(b.a[1][1]).tag == "K":
                looked.add(strip(b.a[1][1]).a[1])
        ctx.ob("generated", [un.path, "looked"], len(ep) == 1 and (ep[0] == ("v", "Err") or looked == {"console_scripts", "gui_scripts"}), "the entry points looked at are %s" % sorted(looked))
    ctx.floor("ways to unpack a wheel", n, 3)
    seen = set()
    for p in ctx.iterations(un, lambda it: any(x.tag == "C" and x.a[0].endswith("parse_entry_points") for x in subset(it)), interesting=calls):
        if p.left_early():
            ctx.fail("generated", [un.path, "all"], "not every entry point is made into a script: the loop can be left early")
        if p.end != "next":
            continue
        b = bare(p.over)
        g = [x for x in subset(b) if x.tag == "C" and x.a[0].rsplit("::", 1)[-1] == "get"]
        cat = strip(g[0].a[1][1]).a[1] if len(g) == 1 and strip(g[0].a[1][1]).tag == "K" else None
        bad = [x for x in subset(b) if x.tag == "Iter" and x.a[0] not in ("src",)]
        wfs, sc = p.calls("write_file", "WriteTree::write_file"), p.calls("script_for_entrypoint")
        if cat not in TYPES or bad:
            ctx.fail("generated", [un.path, "loop"], "scripts are written for %s" % show(b)[:200])
            continue
        seen.add(cat)
        one = lambda t: strip(t).tag == "Elem" and g[0] in subset(bare(t))
        ok = len(sc) == 1 and one(sc[0].args[0]) and strip(sc[0].args[1]).tag == "A" and strip(sc[0].args[1]).a[1] == TYPES[cat]
        ctx.ob("generated", [un.path, cat, "kind"], ok, "a script for %s is made by %s" % (cat, list(map(str, sc))))
        ok = ok and len(wfs) == 1 and transformer(wfs[0].args[0]) and fmt_is(unwrap_path(wfs[0].args[1]), lambda t: vitals_field(t, "data"), "/scripts/", lambda t: bare(t).tag == "F" and bare(t).a[1] == "name" and one(bare(t).a[0])) and \
            bare(sc[0].ret) in subset(bare(wfs[0].args[2])) and p.facts.get(wfs[0].ret) == ("v", "Ok")
        ctx.ob("generated", [un.path, cat, "written"], ok, "a script for %s is written by %s" % (cat, [str(e)[:300] for e in wfs]))
    ctx.ob("generated", [un.path, "kinds"], seen == set(TYPES), "scripts are made for %s only" % sorted(seen))
    sd = ctx.fn(r"Sdist::unpack$")
    n = 0
    for p in ctx.paths(sd):
        if p.end != "ret":
            continue
        cs = p.calls("unpack_zip_carefully", "tree::unpack_zip_carefully", "unpack_tar_gz_carefully", "tree::unpack_tar_gz_carefully")
        fm = [v[1] for t, v in p.facts.items() if argfield(t, "self", "name", "format") and v[0] == "v"]
        for e in cs:
            n += 1
            want = {"Zip": "unpack_zip_carefully", "TarGz": "unpack_tar_gz_carefully"}.get(fm[0] if fm else None)
            ok = want and e.name.endswith(want) and isarg(e.args[1], "destination") and any(argfield(x, "self", "body") for x in subset(e.args[0]))
            ctx.ob("placed", [sd.path, str(fm)], ok, "an sdist of format %s is unpacked by %s" % (fm, e.name))
        ctx.ob("placed", [sd.path, "unpacked"], len(cs) == 1 and (p.err() or p.v is cs[0].ret or p.facts.get(cs[0].ret) == ("v", "Ok")) or p.err(), "an sdist counts as unpacked without being unpacked")
    ctx.floor("sdist formats", n, 2)
    pb = ctx.fn(r"Pybi::unpack$")
    for p in ctx.paths(pb):
        cs = p.calls("unpack_zip_carefully", "tree::unpack_zip_carefully")
        if p.end == "ret" and not p.err():
            ctx.ob("placed", pb.path, len(cs) == 1 and (p.v is cs[0].ret or p.facts.get(cs[0].ret) == ("v", "Ok")) and argfield(cs[0].args[0], "self", "z") and isarg(cs[0].args[1], "destination"), "a pybi is unpacked by %s" % list(map(str, cs)))


def unwrap_path(t):
    t = bare(t)
    if t.tag == "P" and t.a[1] == "Ok" and t.a[0].tag == "C" and t.a[0].a[0].rsplit("::", 1)[-1] in ("try_from", "try_into"):
        return bare(t.a[0].a[1][0])
    return t


RULES = {"P10": [p10, p10_dirs], "P51": [p51]}
