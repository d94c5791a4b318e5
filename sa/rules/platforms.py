"""Platform tags: what a machine, a pybi and a wheel tag say about each other."""
import re
import rx
from rulelib import *
from rules.envs import last, okof, fld, unref, static_of
from rules.builds import show_facts
from rules.formats import isarg, argfield, known_str

ROLES = {"linux": r"^(many|musl)linux_([0-9]+)_([0-9]+)_([a-zA-Z0-9_]*)$",
         "legacy": r"^manylinux(2014|2010|1)_([a-zA-Z0-9_]*)$",
         "macos": r"^macosx_([0-9]+)_([0-9]+)_([a-zA-Z0-9_]*)$"}
LEGACY = {"2014": 17, "2010": 12, "1": 5}
MAC = {"x86_64": ["x86_64", "universal2", "intel", "fat64", "fat3", "universal"], "arm64": ["arm64", "universal2"]}


def pieces(t):
    """a text put together from parts: constants and terms, constants merged"""
    t = strip(t) if strip(t).tag == "Fmt" else unref(t)
    out = []
    for x in (fmt_pieces(t) if t.tag == "Fmt" else [t]):
        if not isinstance(x, str):
            x = strip(x)
            if x.tag == "Disp":
                x = strip(x.a[0])
            if unref(x).tag == "K" and not isinstance(unref(x).a[-1], bool):
                x = str(unref(x).a[-1])
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        else:
            out.append(x)
    return out


def p38(ctx):
    ctx.rule("patterns", "the patterns that tell tags apart match exactly the manylinux, musllinux, legacy manylinux and macOS tags")
    ctx.rule("legacy", "manylinux1, 2010 and 2014 are manylinux_2_5, 2_12 and 2_17 of the same architecture")
    ctx.rule("linux", "a Linux tag stands for its libc's every minor version up to its own, newest first, legacy names beside theirs, same architecture")
    ctx.rule("macos", "a macOS tag stands for every release from 10.0 up to its own, newest first, in each binary format its architecture runs, best first")
    ctx.rule("other", "any other tag stands for itself, unchanged, and nothing else")
    ctx.rule("wheels", "a pybi's wheel tags are its templates in order, each -PLATFORM replaced by every tag of the platform in order")
    ctx.rule("native", "this machine's platforms are those of the C libraries found to run, with the versions they report, preferred ones first")
    fn = ctx.fn(r"platform_tags::expand::expand_platform_tag$")
    here = ["expand_platform_tag"]
    roles = {}

    def role(t):
        t = unref(t)
        if t.tag != "Static":
            return None
        if t.a[0] not in roles:
            pat, r, why = ctx.static_regex(t.a[0]), None, []
            for k, want in ROLES.items():
                try:
                    okk, ex = rx.same_captures(want, pat, numbered=True) if pat is not None else (False, None)
                except rx.Unsupported as e:
                    okk, ex = False, "not supported: %s" % e
                if okk:
                    r = k
                why.append("%s: %r" % (k, ex))
            roles[t.a[0]] = r
            ctx.ob("patterns", [t.a[0].rsplit("::", 1)[-1]], r is not None, "%r is none of the patterns of platform tags; it differs on: %s" % (pat, "; ".join(why)))
        return roles[t.a[0]]

    def caps(t):
        """t is the match of a pattern with a text -> (role, text)"""
        t = unref(t)
        return (role(t.a[1][0]), t.a[1][1]) if isC(t, "captures") and len(t.a[1]) == 2 else None

    def group(t):
        """-> (role, text, number of the group) of a part of a text that was matched, as text or as number"""
        t = unref(t)
        while t.tag == "P" and t.a[1] == "Ok" and isC(unref(t.a[0]), "from_str", "parse"):
            t = unref(unref(t.a[0]).a[1][0])
        if t.tag == "Idx":
            c, n = unref(t.a[0]), unref(t.a[1])
        else:
            while t.tag == "P" and t.a[1] == "Some" and isC(unref(t.a[0]), "get"):
                t = unref(t.a[0])
            if not isC(t, "get"):
                return None
            c, n = unref(t.a[1][0]), unref(t.a[1][1])
        if not (c.tag == "P" and c.a[1] == "Some" and n.tag == "K"):
            return None
        m = caps(c.a[0])
        return m and (m[0], m[1], n.a[-1])

    def isg(t, r, n, text=None):
        g = group(t)
        return g is not None and g[0] == r and g[2] == n and (text is None or bare(g[1]) is bare(text))

    def whole(t):
        """-> the tag as it was given (1), or a legacy tag written the new way (2)"""
        t = unref(t)
        while t.tag == "A" and t.a[0].endswith(("Borrowed", "Owned")) or t.tag == "A" and t.a[0].endswith("Cow"):
            t = unref(t.a[3][0])
        if isarg(t, "tag"):
            return 1
        ps = pieces(t)
        return 2 if len(ps) > 1 and isg(ps[-1], "legacy", 2) else None

    def newname(p, t):
        """the legacy tag is replaced by what it means"""
        t = unref(t)
        while t.tag == "A" and (t.a[0].endswith(("Borrowed", "Owned", "Cow"))):
            t = unref(t.a[3][0])
        ps = pieces(t)
        k = next((k for k, m in LEGACY.items() if ps[0] == "manylinux_2_%d_" % m), None)
        g = group(ps[-1])
        return k is not None and len(ps) == 2 and whole(g[1]) == 1 and any(isg(f, "legacy", 1) and v == ("i", k) for f, v in p.facts.items()), ps

    def facts(p, r, text=None):
        """the number -> what is known of that group"""
        out = {}
        for t, v in p.facts.items():
            g = group(bare(t))
            if g and g[0] == r:
                out[g[2]] = v
        return out

    def matched(p, r):
        return {("v", "Some"): True, ("v", "None"): False}.get(next((v for t, v in p.facts.items() if (caps(bare(t)) or [None])[0] == r), None))
    # ---- Linux: the loop over the minor versions
    rng = lambda t: isC(unref(t), "RangeInclusive::new", "new") and len(unref(t).a[1]) == 2

    def down(t):
        """t is an iterator over an inclusive range from its end to its start -> the range"""
        t = unref(t)
        if t.tag == "Iter" and t.a[0] == "rev":
            s = unref(t.a[1])
            s = unref(s.a[1]) if s.tag == "Iter" and s.a[0] == "src" else s
            return s.a[1] if rng(s) else None
        return None
    minor = lambda t: t.tag == "Elem"
    after, n = [], 0
    its = ctx.iterations(fn, lambda t: any(x.tag == "C" and rng(x) and isg(x.a[1][1], "linux", 3) for x in subset(t)), after=after, havoc=True, keep=lambda t: True,
                         interesting=lambda e: e.kind == "store" or e.is_("push", "insert", "extend", "append", "remove", "pop", "truncate", "clear", "retain", "reverse", "sort", "dedup", "swap", "drain"))
    kinds = set()
    for q in its:
        if q.end == "panic":
            continue
        r = down(q.over)
        if not ctx.ob("linux", here + ["order"], r is not None and is_k(unref(r[0]), None, 0) and isg(r[1], "linux", 3), "the minor versions are gone through as %s" % show(q.over)[:200]):
            continue
        text = group(r[1])[1]
        f = facts(q, "linux")
        el = next((v for t, v in q.facts.items() if bare(t).tag == "Elem"), None)
        many = {("i", "many"): True}.get(f.get(1), False if f.get(1) and (f[1][0] == "ni" and "many" in f[1][1] or f[1][0] == "i") else None)
        out = []
        for e in q.evs:
            if not e.is_("push", "insert"):
                out.append(("?", str(e)[:80]))
                continue
            ps = pieces(e.args[-1])
            if len(ps) == 7 and isg(ps[0], "linux", 1, text) and ps[1] == "linux_" and isg(ps[2], "linux", 2, text) and ps[3] == "_" and unref(ps[4]).tag == "Elem" and ps[5] == "_" and isg(ps[6], "linux", 4, text):
                out.append("tag")
            elif len(ps) == 2 and isg(ps[1], "linux", 4, text) and ps[0] in ["manylinux%s_" % k for k in LEGACY]:
                out.append(ps[0][9:-1])
            else:
                out.append(("?", show(e.args[-1])[:200]))
        want, sure = ["tag"], True
        alias = next((k for k, m in LEGACY.items() if el == ("i", m)), None)
        if many and f.get(2) == ("i", 2) and alias:
            want.append(alias)
        else:
            no = lambda v, s: v is not None and (v[0] == "ni" and s <= set(v[1]) or v[0] == "i" and v[1] not in s)
            sure = no(f.get(1), {"many"}) or no(f.get(2), {2}) or no(el, set(LEGACY.values()))
        kinds.add(want[-1])
        ctx.ob("linux", here + ["one minor version"], sure and q.end == "next" and out == want, "for one minor version it gives %s, not %s, %s" % (out, want if sure else "what it means", show_facts(q)[-200:]))
        n += 1
    ctx.floor("iterations over minor versions", n, 4)
    ctx.ob("linux", here + ["legacy names"], kinds == {"tag"} | set(LEGACY), "only the tags %s are ever given" % sorted(kinds))
    for q in after:
        if q.end == "panic":
            continue
        ok = q.end == "ret" and isC(strip(q.v), "Vec::new", "new") and not q.evs
        ctx.ob("linux", here + ["result"], ok, "after the loop it does %s and gives %s" % ([str(e)[:80] for e in q.evs], show(strip(q.v))[:100] if q.v is not None else q.end))
    # ---- everything else
    got, want, m, others = {}, {}, 0, 0
    for p in ctx.paths(fn, interesting=lambda ev: False, keep=lambda t: not any(x.tag == "Elem" for x in subset(t))):
        if p.end != "ret":
            continue
        v = unref(p.v)
        mac = matched(p, "macos")
        leg, lin = matched(p, "legacy"), matched(p, "linux")
        for x in subset(v):
            mm = caps(x)
            t = mm[1] if mm else None
            if t is not None and mm[0] in ("linux", "macos"):
                if leg:
                    ok, ps = newname(p, t)
                    ctx.ob("legacy", here, ok, "a legacy tag becomes %s, %s" % (ps, show_facts(p)[-150:]))
                else:
                    ctx.ob("legacy", here, leg is False and whole(t) == 1, "%s is looked at instead of the tag" % show(t)[:150])
        if lin:
            continue
        ctx.ob("other", here + ["asked"], lin is False, "it never asks whether a tag is a Linux tag: %s" % show_facts(p)[:200])
        F = facts(p, "macos")
        known = []
        major = None
        for t, x in p.facts.items():
            b = bare(t)
            if b.tag == "Bin" and b.a[0] in ("Lt", "Le", "Gt", "Ge") and isinstance(x, bool) and any(isg(y, "macos", 1) for y in b.a[1:3]):
                a, c, op = unref(b.a[1]), unref(b.a[2]), b.a[0]
                if isg(c, "macos", 1):
                    a, c, op = c, a, {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}[op]
                if c.tag == "K":
                    k = c.a[-1]
                    lo = {"Lt": k, "Le": k + 1, "Gt": k + 1, "Ge": k}[op]      # the first number on the upper side
                    big = x if op in ("Gt", "Ge") else not x
                    known.append(lo if big else -lo)
        ten = {("i", 10): True}.get(F.get(1), False if F.get(1) and F[1][0] == "ni" and 10 in F[1][1] else True if F.get(1) and F[1][0] == "i" and F[1][1] == 10 else None)
        if 11 in known:
            ten = False
        if 10 in known and -11 in known:
            ten = True
        modern = True if ten or any(k >= 10 for k in known) else False if any(-10 <= k < 0 for k in known) else None
        if mac is False or mac and modern is False:
            others += 1
            self_ = list(v.a) if v.tag == "Arr" else None
            w = self_[0] if self_ is not None and len(self_) == 1 else None
            ok = w is not None and whole(w) == (2 if leg else 1) and (not leg or newname(p, w)[0])
            ctx.ob("other", here + ["itself"], ok, "a tag that is neither gives %s" % show(v)[:200])
            continue
        ok = ctx.ob("macos", here + ["old releases"], mac is True and modern is True, "it gives %s for a tag that may be of a release before 10: %s" % (show(v)[:100], show_facts(p)[-200:]))
        if not ok:
            continue
        arch = F.get(3)
        key = arch[1] if arch and arch[0] == "i" else None
        if not (key in MAC or arch and arch[0] == "ni" and set(arch[1]) >= set(MAC)):
            ctx.ob("macos", here + ["formats"], False, "the tags are the same for every architecture: %s" % show_facts(p)[-200:])
            continue
        bad = None

        def texts(x):
            x = unref(x)
            return x.a[-1] if x.tag == "K" else "itself" if isg(x, "macos", 3) else key if False else None
        for kind, args in history(p.v):
            ps = pieces(args[-1])
            vs, fm = None, None
            if ps and isinstance(ps[0], str) and ps[0].startswith("macosx_") and ten is not None:
                s = "".join(x if isinstance(x, str) else "\0" for x in ps)
                els = [x for x in ps if not isinstance(x, str)]
                arg = [x for x in els if not isg(x, "macos", 3)]
                fm = "itself" if s.endswith("_\0") and els and isg(els[-1], "macos", 3) else None
                head = s[:-1] if fm else s
                mt = re.match(r"macosx_(10|\0)_(0|\0)_(.*)$", head)
                if mt and len(arg) == 1 and unref(arg[0]).tag == "Elem":
                    fm = fm or mt.group(3)
                    e = strip(arg[0]).a[0]
                    e = e.a[1] if e.tag == "Thin" and e.a[0] == "rev" else None
                    if e is not None and rng(e):
                        a, b = unref(unref(e).a[1][0]), unref(unref(e).a[1][1])
                        if mt.group(1) == "10" and mt.group(2) == "\0":
                            if is_k(a, None, 0) and (isg(b, "macos", 2) if ten else is_k(b, None, 15)):
                                vs = "10"
                        elif mt.group(2) == "0" and mt.group(1) == "\0" and is_k(a, None, 11) and isg(b, "macos", 1):
                            vs = "11"
            if vs is None or fm is None:
                bad = show(args[-1])[:250]
                break
            got.setdefault((key, ten), set()).add((vs, key if fm == "itself" and key else fm))
        ctx.ob("macos", here + ["tags"], bad is None, "a macOS tag gives %s, %s" % (bad, show_facts(p)[-200:]))
        want[(key, ten)] = {(x, y) for x in ("10", "11") for y in MAC.get(key, ["itself"])}
        # the order, where the value tells it
        for x in subset(p.v):
            if x.tag == "Arr" and key and len(x.a) > 1:
                l = [unref(y).a[-1] if unref(y).tag == "K" else key if isg(y, "macos", 3) else None for y in x.a]
                ctx.ob("macos", here + ["formats"], l == MAC[key], "the formats of %s are %s" % (key, l))
            if x.tag == "Iter" and x.a[0] == "flat_map":
                c = unref(x.a[1])
                parts = [unref(y) for y in c.a[1:3]] if c.tag == "Iter" and c.a[0] == "chain" else []
                parts = [unref(y.a[1]) if y.tag == "Iter" and y.a[0] == "map" else y for y in parts]
                ok = len(parts) == 2 and all(down(y) is not None for y in parts) and is_k(unref(down(parts[0])[0]), None, 11) and is_k(unref(down(parts[1])[0]), None, 0)
                ctx.ob("macos", here + ["order"], ok, "the releases are gone through as %s" % show(c)[:250])
        m += 1
    ctx.floor("macOS results", m, 6)
    ctx.floor("tags given back as they are", others, 2)
    for k in want:
        ctx.ob("macos", here + ["all", str(k[0]), "10.x" if k[1] else "later"], got.get(k, set()) == want[k], "for %s it gives %s, not %s" % (k, sorted(got.get(k, ())), sorted(want[k])))
    ctx.floor("kinds of macOS tags", len(want), 6)
    ctx.floor("patterns", len(set(roles.values()) - {None}), 3)
    platforms(ctx)
    wheel_tags(ctx)
    machine(ctx)


LISTY = ("push", "insert", "extend", "append", "remove", "shift_remove", "swap_remove", "pop", "truncate", "clear", "retain", "reverse", "sort", "sort_by", "sort_by_key", "sort_unstable", "dedup", "swap", "drain", "split_off", "insert_before", "shift_insert")


def allof(t, src, give=None):
    """t is collected from the whole of something satisfying src, in order"""
    t = unref(t)
    if isC(t, "collect", "from_iter", "to_vec", "clone", "to_owned"):
        t = unref(t.a[1][0])
    while t.tag == "Iter" and t.a[0] in ("src", "map", "cloned", "copied", "into_iter", "iter"):
        t = unref(t.a[1])
    return src(t)


def clo(ctx, t):
    t = unref(t)
    fs = clofn(ctx, t) if t.tag in ("Clo", "Fn", "K") or t.a else []
    return fs[0] if fs and len(fs) == 1 else None


def platforms(ctx):
    fn = ctx.fn(r"PybiPlatform::new$")
    for p in ctx.paths(fn):
        v = p.v
        ok = p.end == "ret" and v.tag == "A" and v.a[0].endswith("PybiPlatform") and allof(v.a[3][0], lambda t: isC(t, "expand_platform_tag") and isarg(t.a[1][0], "core_tag")) and \
            all(unref(a[-1]).tag == "Elem" and unref(unref(a[-1]).a[0]).tag != "Thin" for k, a in history(v.a[3][0]))
        ctx.ob("wheels", ["PybiPlatform::new"], ok, "a platform's tags are %s" % (show(v)[:200] if v is not None else p.end))
    fn = ctx.fn(r"PybiPlatform::core_tag$")
    for p in ctx.paths(fn):
        v = unref(p.v) if p.v is not None else None
        first = v is not None and (v.tag == "Idx" and argfield(v.a[0], "self", "tags") and is_k(unref(v.a[1]), None, 0) or v.tag == "P" and isC(unref(v.a[0]), "first", "get_index", "get", "next"))
        ctx.ob("native", ["core_tag"], p.end != "ret" or bool(first), "the core tag is %s" % (show(v)[:150] if v is not None else "?"))
    # a platform is native exactly when some platform of this machine has its core tag
    fn = ctx.fn(r"PybiPlatform::is_native$")
    nat = lambda t: okof(t, "native_platforms") is not None
    n = set()
    for p in ctx.paths(fn, pure=r"compatibility|core_tag|native_platforms"):
        if p.end != "ret" or not p.ok():
            if p.end == "ret":
                ctx.ob("native", ["is_native", "error"], any(v == ("v", "Err") and isC(bare(t), "native_platforms") for t, v in p.facts.items()), "it fails although the platforms are known: %s" % show_facts(p)[:200])
            continue
        v = unref(p.val())
        asked = lambda t: isC(bare(t), "compatibility") and unref(bare(t).a[1][0]).tag == "Elem" and okof(unref(bare(t).a[1][0]).a[0], "native_platforms") is not None and isC(unref(bare(t).a[1][1]), "core_tag") and isarg(unref(bare(t).a[1][1]).a[1][0], "self")
        ans = [x for t, x in p.facts.items() if asked(t)]
        if is_k(v, None, True):
            n.add(True)
            ok = ("v", "Some") in ans
        else:
            n.add(False)
            ok = is_k(v, None, False) and ("v", "Some") not in ans and all(asked(t) or bare(t).tag == "NoElem" or isC(bare(t), "native_platforms") for t in p.facts)
        ctx.ob("native", ["is_native"], bool(ok), "a platform is told to be native: %s, with %s" % (show(v)[:50], show_facts(p)[:250]))
    ctx.floor("answers of is_native", len(n), 2)
    # the platforms of this machine
    fn = ctx.fn(r"PybiPlatform::native_platforms$")
    inits = {}
    for p in ctx.paths(fn):
        if p.end != "ret":
            continue
        if p.ok():
            c = unref(p.val())
            while isC(c, "as_slice", "deref", "as_ref"):
                c = unref(c.a[1][0])
            ok = isC(c, "get_or_init") and unref(c.a[1][0]).tag == "Static" and clo(ctx, c.a[1][1]) is not None
            if ctx.ob("native", ["native_platforms", "all"], ok, "it gives %s" % show(c)[:200]):
                g = clo(ctx, c.a[1][1])
                for q in ctx.paths(g):
                    w = q.v
                    src = lambda t: (t.tag == "Up" or t.tag in ("Arg", "F", "P", "C")) and True
                    ok = q.end == "ret" and w is not None and allof(w, src) and not any(x.tag in ("Thin",) or x.tag == "Iter" and x.a[0] not in ("src", "map", "cloned", "copied") for x in subset(w))
                    ctx.ob("native", ["native_platforms", "references"], ok, "of the platforms it keeps %s" % (show(w)[:200] if w is not None else q.end))
        for t in p.facts:
            b = bare(t)
            if isC(b, "get_or_try_init"):
                inits[b] = 1
    ctx.floor("initialisations of the native platforms", len(inits), 1)
    for b in inits:
        g = clo(ctx, b.a[1][1])
        if not ctx.ob("native", ["native_platforms", "made"], g is not None, "the native platforms are made by %s" % show(b)[:150]):
            continue
        k = 0
        for q in ctx.paths(g):
            if q.end == "ret" and q.ok():
                w = q.val()
                core = lambda t: okof(t, "core_platform_tags") is not None
                ok = allof(w, core) and not any(x.tag in ("Thin",) or x.tag == "Iter" and x.a[0] not in ("src", "map", "cloned", "copied") for x in subset(w))
                hs = [a[-1] for _, a in history(w)]
                ok = ok and all(isC(unref(a), "PybiPlatform::new", "new") and unref(unref(a).a[1][0]).tag == "Elem" and core(unref(unref(a).a[1][0]).a[0]) for a in hs)
                k += bool(hs)
                ctx.ob("native", ["native_platforms", "made"], ok, "the native platforms are %s" % show(w)[:250])
            elif q.end == "ret":
                ctx.ob("native", ["native_platforms", "error"], any(v == ("v", "Err") and isC(bare(t), "core_platform_tags") for t, v in q.facts.items()) or isC(unref(q.v), "core_platform_tags"), "it fails with %s" % show_facts(q)[:150])
        ctx.floor("ways to make native platforms", k, 1)


def wheel_tags(ctx):
    fn = ctx.fn(r"PybiPlatform::wheel_platform$")
    here = ["wheel_platform"]
    tmpl = lambda t: any(argfield(x, "metadata", "tags") for x in subset(t))
    tags = lambda t: any(argfield(x, "self", "tags") for x in subset(t))
    straight = lambda t: not any(x.tag == "Thin" for x in subset(t)) and not any(x.tag == "Iter" and x.a[0] not in ("src", "cloned", "copied", "map", "flat_map") for x in subset(t))
    istmpl = lambda t: unref(t).tag == "Elem" and straight(unref(t).a[0]) and argfield(srcof(unref(t).a[0]), "metadata", "tags")
    istag = lambda t: unref(t).tag == "Elem" and straight(unref(t).a[0]) and argfield(srcof(unref(t).a[0]), "self", "tags")
    prefix = lambda t: isC(unref(t), "strip_suffix") and istmpl(unref(t).a[1][0]) and is_k(unref(unref(t).a[1][1]), None, "-PLATFORM")
    cut = lambda p: {("v", "Some"): True, ("v", "None"): False}.get(next((v for t, v in p.facts.items() if prefix(bare(t))), None))
    inter = lambda e: e.kind == "store" or e.is_(*LISTY)
    after, n, inner = [], set(), 0
    for q in ctx.iterations(fn, tmpl, after=after, havoc=True, pure=r"strip_suffix", interesting=inter):
        if q.end == "panic":
            continue
        ctx.ob("wheels", here + ["templates"], straight(q.over) and argfield(srcof(q.over), "metadata", "tags"), "the templates are gone through as %s" % show(q.over)[:150])
        c, vals = cut(q), [e.args[-1] for e in q.evs if e.is_("insert", "push")]
        rest = [e for e in q.evs if not e.is_("insert", "push")]
        more = [e for e in rest if e.is_("extend") and straight(e.args[-1]) and argfield(srcof(e.args[-1]), "self", "tags")]
        if c and more:
            inner += 1
            rest = [e for e in rest if e not in more]
            vals = vals + [e.args[1] for e in more]
        if c is None and not vals and not rest:
            continue
        n.add(c)
        whole = lambda t: len(pieces(t)) == 3 and prefix(unref(pieces(t)[0]).a[0] if not isinstance(pieces(t)[0], str) and unref(pieces(t)[0]).tag == "P" else mk("K", 0)) and pieces(t)[1] == "-" and not isinstance(pieces(t)[2], str) and istag(pieces(t)[2])
        if c:
            ok = not rest and all(whole(v) for v in vals)
        else:
            ok = c is False and not rest and len(vals) == 1 and istmpl(vals[0]) and q.end == "next"
        ctx.ob("wheels", here + ["one template", str(c)], ok, "a template that %s -PLATFORM gives %s" % ("ends in" if c else "does not end in" if c is False else "may end in", [show(v)[:150] for v in vals] + [str(e)[:80] for e in rest]))
        if q.end == "ret":
            ctx.ob("wheels", here + ["one template", "left early"], False, "the templates after the first are left out: %s" % show_facts(q)[:150])
    ctx.floor("kinds of templates", len(n & {True, False}), 2)
    k = inner
    for q in ctx.iterations(fn, tags, havoc=True, pure=r"strip_suffix", interesting=inter):
        if q.end == "panic":
            continue
        k += 1
        ins = [e for e in q.evs if e.is_("insert", "push")]
        ctx.ob("wheels", here + ["platform tags"], q.end == "next" and straight(q.over) and argfield(srcof(q.over), "self", "tags") and len(ins) == 1 and len(q.evs) == 1, "for one platform tag (%s) it does %s" % (show(q.over)[:80], [str(e)[:100] for e in q.evs]))
    ctx.floor("the loop over the platform's tags", k, 1)
    for q in after:
        if q.end == "ret":
            v = unref(q.val()) if q.ok() else None
            ok = v is not None and not q.evs and v.tag == "A" and v.a[0].endswith("WheelPlatform") and strip(v.a[3][0]).tag in ("Loop", "C")
            ctx.ob("wheels", here + ["result"], ok, "after the templates it does %s and gives %s" % ([str(e)[:80] for e in q.evs], show(v)[:150] if v is not None else "an error"))


def srcof(t):
    t = unref(t)
    while t.tag == "Iter":
        t = unref(t.a[1])
    return t


def machine(ctx):
    """the versions of the C libraries of this machine"""
    vre = {"glibc_version": r"^([0-9]+)\.([0-9]+)", "musl_version": r"Version ([0-9]+)\.([0-9]+)"}
    for name, want in vre.items():
        fn = ctx.fn(r"platform_tags::linux::%s$" % name)
        n = 0
        for p in ctx.paths(fn):
            if p.end != "ret" or not p.ok():
                continue
            v = unref(p.val())
            if v.tag == "A" and v.a[1] == "None":
                ok = any(isC(bare(t), "success") and x is False for t, x in p.facts.items())
                ctx.ob("native", [name, "none"], ok, "no version is told although %s" % show_facts(p)[-150:])
                continue
            v = unref(v.a[3][0]) if v.tag == "A" and v.a[1] == "Some" else v
            parts = [unref(x) for x in (v.a if v.tag == "Tup" else v.a[3] if v.tag == "A" else [])]
            ok = len(parts) == 2
            for i, x in enumerate(parts):
                x = unref(x.a[0]) if x.tag == "P" and x.a[1] == "Ok" else x
                g = unref(unref(x.a[1][0]).a[0]) if isC(x, "from_str", "parse") and unref(x.a[1][0]).tag == "P" else None
                c = unref(g.a[1][0]) if g is not None and isC(g, "get") and is_k(unref(g.a[1][1]), None, i + 1) else None
                c = unref(c.a[0]) if c is not None and c.tag == "P" and c.a[1] == "Some" else None
                if c is None or not isC(c, "captures"):
                    ok = False
                    break
                st = unref(c.a[1][0])
                pat = ctx.static_regex(st.a[0]) if st.tag == "Static" else None
                same = False
                if pat is not None:
                    try:
                        same, ex = rx.same_captures(want, pat, numbered=True)
                    except rx.Unsupported:
                        same = False
                o = unref(c.a[1][1])
                o = unref(o.a[1][0]) if isC(o, "from_utf8_lossy") else None
                stream = "stdout" if name == "glibc_version" else "stderr"
                run = o is not None and o.tag == "F" and o.a[1] == stream and okof(o.a[0], "output") is not None
                ok = ok and same and run
                if run:
                    cmd = okof(o.a[0], "output")
                    cmd = next((y for y in subset(cmd.a[1][0] if cmd.tag == "C" else cmd) if isC(y, "Command::new")), None)
                    what = cmd.a[1][0] if cmd is not None else None
                    if name == "musl_version":
                        ok = ok and what is not None and isarg(unref(what), "loader")
                    else:
                        ok = ok and what is not None and any(isC(h, "write_all") or True for h in [what]) and any(isC(bare(t), "write_all") and isarg(bare(t).a[1][1], "detector") and x == ("v", "Ok") for t, x in p.facts.items())
                        ok = ok and any(isC(bare(t), "success") and x is True for t, x in p.facts.items())
            n += 1
            ctx.ob("native", [name], bool(ok), "the version is %s" % show(v)[:250])
        ctx.floor("versions of %s" % name, n, 1)
    fn = ctx.fn(r"platform_tags::linux::core_platform_tags$")
    inter = lambda e: e.kind == "store" or e.is_(*LISTY)
    glibc = lambda t: any(x.tag == "Static" and x.a[0].endswith("GLIBC_DETECTORS") for x in subset(t)) or any(x.tag == "C" and isC(x, "glibc_version") for x in subset(t))
    musl = lambda t: "MUSL_ARCH_MAP" in show(t) or t.tag == "Iter" and not glibc(t)
    order = []
    for what, over, call in (("manylinux", glibc, "glibc_version"), ("musllinux", musl, "musl_version")):
        n = 0
        for q in ctx.iterations(fn, over, havoc=True, interesting=inter, pure=r"exists"):
            if q.end == "panic":
                continue
            vals = [e for e in q.evs]
            got = next(((bare(t), x) for t, x in q.facts.items() if isC(bare(t), call)), None)
            some = False
            if got:
                some = got[1] == ("v", "Ok") and (call == "musl_version" or any(x == ("v", "Some") and bare(t).tag == "P" and bare(bare(t).a[0]) is got[0] for t, x in q.facts.items()))
            if q.end == "ret":
                ctx.ob("native", ["core_platform_tags", what, "left early"], False, "other platforms are left out: %s" % show_facts(q)[:150])
                continue
            if not vals:
                asked = got is not None or call == "musl_version" and any(isC(bare(t), "exists", "try_exists", "is_file") and x is False for t, x in q.facts.items())
                ctx.ob("native", ["core_platform_tags", what], asked and not some, "a C library that runs gives no tag: %s" % show_facts(q)[-200:])
                continue
            ps = pieces(vals[0].args[-1]) if vals[0].is_("push") else []
            ver = lambda t, i: not isinstance(t, str) and unref(t).tag == "F" and unref(t).a[1] == str(i) and any(x is got[0] for x in subset(bare(t)))
            el = lambda t: not isinstance(t, str) and unref(t).tag == "F" and unref(unref(t).a[0]).tag == "Elem"
            ok = some and len(vals) == 1 and len(ps) == 6 and ps[0] == what + "_" and ver(ps[1], 0) and ps[2] == "_" and ver(ps[3], 1) and ps[4] == "_" and el(ps[5]) and unref(ps[5]).a[1] == ("0" if what == "manylinux" else "1")
            if ok:
                a = [unref(x) for x in got[0].a[1]]
                e = unref(ps[5]).a[0]
                if what == "manylinux":
                    ok = el(a[0]) and unref(a[0]).a[0] is e and unref(a[0]).a[1] == "0" and el(a[1]) and bare(unref(a[1]).a[0]) is bare(e) and unref(a[1]).a[1] == "1"
                else:
                    ok = any(pieces(x)[0] == "/lib/ld-musl-" and pieces(x)[2:] == [".so.1"] and el(pieces(x)[1]) and unref(pieces(x)[1]).a[1] == "0" for x in subset(got[0]) if x.tag == "Fmt")
                n += 1
            ctx.ob("native", ["core_platform_tags", what], bool(ok), "it gives %s for %s" % ([str(e)[:200] for e in vals], show_facts(q)[-200:]))
            ctx.ob("native", ["core_platform_tags", what, "order"], not any(x.tag in ("Thin",) or x.tag == "Iter" and x.a[0] in ("rev", "skip", "take", "step_by") for x in subset(q.over)), "the C libraries are gone through as %s" % show(q.over)[:150])
        ctx.floor("%s platforms" % what, n, 1)
    # one kind of library comes before the other
    k = 0
    for p in ctx.paths(fn, interesting=inter, keep=lambda t: False):
        names = [x for e in p.evs if e.is_("push", "insert", "extend") for x in ("manylinux", "musllinux") if any(y.tag == "K" and str(y.a[-1]).startswith(x) for y in subset(e.args[-1])) or x in show(e.args[-1])]
        k += len(set(names)) == 2
        ctx.ob("native", ["core_platform_tags", "libraries"], "manylinux" not in names[names.index("musllinux"):] if "musllinux" in names else True, "a musllinux platform is preferred to a manylinux one: %s" % names)
    ctx.floor("machines with both C libraries", k, 1)
    # the programs that tell the version of glibc are of the architecture they are for
    ELF = {"x86_64": (2, 62), "i686": (1, 3), "aarch64": (2, 183), "armv7l": (1, 40), "ppc64le": (2, 21), "s390x": (2, 22)}
    seen = []
    for g in ctx.p.fns.values():
        if re.search(r"linux::GLIBC_DETECTORS(::\{closure#\d+\})?$", g.path):
            for p in ctx.paths(g):
                terms = [e.args[-1] for e in p.evs if e.kind == "call" and e.args] + ([p.v] if p.v is not None and not p.evs else [])
                l = []
                for t in terms:
                    for x in ([t] if unref(t).tag == "Tup" else unref(t).a if unref(t).tag == "Arr" else subset(t)):
                        x = unref(x)
                        if x.tag == "Tup" and len(x.a) == 2 and unref(x.a[0]).tag == "K" and unref(x.a[1]).tag == "K" and isinstance(unref(x.a[1]).a[-1], (tuple, bytes)):
                            l.append((unref(x.a[0]).a[-1], tuple(unref(x.a[1]).a[-1][:20])))
                if p.end == "ret" and l and l not in seen:
                    seen.append(l)
    ctx.floor("tables of glibc detectors", len(seen), 1)
    for l in seen:
        for arch, h in l:
            ctx.ob("native", ["GLIBC_DETECTORS", str(arch)], len(h) == 20 and h[:4] == (127, 69, 76, 70) and (h[4], h[18] + 256 * h[19]) == ELF.get(arch), "the detector for %s is a program for another machine: %s" % (arch, h))
        names = [a for a, _ in l]
        ctx.ob("native", ["GLIBC_DETECTORS", "order"], names == ["x86_64", "i686"], "the architectures are tried in the order %s" % names)
    maps = {tuple(tuple(unref(z).a[-1] if unref(z).tag == "K" else None for z in unref(y).a) for y in unref(p.v).a) for g in ctx.p.fns.values() if g.path.endswith("linux::MUSL_ARCH_MAP") for p in ctx.paths(g) if p.end == "ret" and unref(p.v).tag == "Arr"}
    ctx.floor("tables of musl architectures", len(maps), 1)
    for l in maps:
        bad = dict(l) != {"x86_64": "x86_64", "aarch64": "aarch64", "i386": "i686", "armhf": "armv7l", "powerpc64le": "ppc64le", "s390x": "s390x"} or len(l) != 6
        names = [a for a, _ in l]
        ctx.ob("native", ["MUSL_ARCH_MAP"], not bad, "musl's architectures are %s" % (l,))
        ctx.ob("native", ["MUSL_ARCH_MAP", "order"], bad or names.index("x86_64") < names.index("i386") and names.index("aarch64") < names.index("armhf"), "the architectures are tried in the order %s" % names)


RULES = {"P38": [p38]}
