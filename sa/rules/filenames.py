"""File names of artifacts, and hashes: what they are taken apart into, and what is written of them."""
import re
import rx
from lists import text_model
from rulelib import *
from rules.formats import isarg
from rules.envs import okof, unref
from rules.builds import show_facts
from rules.names import conversions
from rules.grammar import part, written, wrote, display, spell, const, typed_as, okval, READ

N = "posy::vocab::artifact_name::"
SAFE = set("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_.+!-")
DIGITS = set("0123456789")
SAME = ("into", "from", "to_string", "to_owned", "as_str", "as_ref", "clone", "cloned")


def value_(t):
    return unref(t).tag == "Arg"


def same_re(ctx, t, want, names):
    t = unref(t)
    pat = ctx.static_regex(t.a[0]) if t.tag == "Static" else None
    try:
        return pat is not None and rx.same_captures(want, pat, names=names, numbered=True)[0]
    except rx.Unsupported:
        return False


def group(t):
    """a captured group -> (pattern, text, number)"""
    t = unref(t)
    if t.tag == "Idx":
        c, i = unref(t.a[0]), unref(t.a[1])
    elif t.tag == "P" and t.a[1] == "Some" and isC(unref(t.a[0]), "Captures::get"):
        c, i = (unref(x) for x in unref(t.a[0]).a[1])
    else:
        return None
    if c.tag == "P" and c.a[1] == "Some" and isC(unref(c.a[0]), "captures") and i.tag == "K":
        r, x = unref(c.a[0]).a[1]
        return unref(r), unref(x), i.a[1]
    return None


def cannot(p):
    """a way that ends in a panic no input leads to: a pattern's own groups are there, and a pattern that matches anything
    matches"""
    for t, v in p.facts.items():
        t = unref(t)
        if v == ("v", "None") and isC(t, "captures", "Captures::get"):
            return True
        if isinstance(v, tuple) and v[0] == "ni" and group(t) is not None:
            return True
    return False


def facts_of(p):
    """what a way depends on, but for how often loops turn"""
    return frozenset((t, v) for t, v in p.facts.items() if t.tag not in ("NoElem", "Exists", "Done"))


def changed(t):
    """was anything done to the value, or what it is made from?"""
    while isinstance(t, T):
        if history(t):
            return True
        t = strip(t)
        if t.tag in ("P", "F", "Ref", "Cp", "Deref"):
            t = t.a[0]
        elif t.tag == "A" and len(t.a[3]) == 1:
            t = t.a[3][0]
        elif t.tag == "C" and t.a[1]:
            t = t.a[1][0]
        else:
            return False
    return False


def parts_of(ctx, t, text, sep):
    """t is the list of all the parts of a text between separators, each as it is"""
    for _ in range(12):
        while t.tag in ("Ref", "Cp", "Deref"):
            t = t.a[0]
        hs = [(m.rsplit("::", 1)[-1], a) for m, a in history(t)]
        t = strip(t)
        if t.tag == "C" and len(t.a[1]) == 1 and t.a[0].rsplit("::", 1)[-1] in SAME + ("iter", "into_iter", "deref", "as_slice"):
            t = t.a[1][0]
        elif isC(t, "collect", "Vec::from_iter", "from_iter", "to_vec"):
            # what was done to it is no more than putting in what is collected
            if any(m not in ("push", "extend") or unref(a[-1]).tag != "Elem" for m, a in hs):
                return False
            t = t.a[1][0]
            hs = []
        elif t.tag == "Iter" and t.a[0] in ("map", "cloned", "copied", "inspect"):
            if t.a[0] == "map":
                f = strip(t.a[2])
                if f.tag == "FnV":
                    if f.a[0].rsplit("::", 1)[-1] not in SAME:
                        return False
                else:
                    fs = clofn(ctx, f)
                    e = mk("Elem", t.a[1])
                    if len(fs) != 1 or any(p.end != "ret" or unref(p.v) is not bare(e) or any(x.tag == "Acc" for x in subset(p.v)) for p in ctx.paths(fs[0], args=[f, e])):
                        return False
            t = t.a[1]
        elif t.tag == "Iter" and t.a[0] == "src":
            t = t.a[1]
        elif isC(t, "str::split") and len(t.a[1]) == 2:
            return not hs and const(t.a[1][1]) == sep and unref(t.a[1][0]) is text
        elif isC(t, "Vec::new"):
            # a loop that puts each part in
            if len(hs) != 1 or hs[0][0] not in ("extend", "push"):
                return False
            t = unref(hs[0][1][-1])
            t = t.a[0] if t.tag == "Elem" else t
            hs = []
        else:
            return False
        if hs:
            return False
    return False


def number_and_rest(ctx, p, num, name, tag):
    """the digits at the front as a number, and the rest; all of it is the name if there is no such number"""
    num, name = unref(num), unref(name)

    def front(t):
        """t is the digits the tag begins with -> a test for the rest"""
        g = group(t)
        if g is not None and g[1] is tag and g[2] == 1 and same_re(ctx, g[0], r"^([0-9]*)(.*)$", ["1", "2"]):
            return lambda y: group(y) == (g[0], g[1], 2)
        t = unref(t)
        if t.tag == "F" and t.a[1] == "0" and isC(unref(t.a[0]), "split_at") and unref(unref(t.a[0]).a[1][0]) is tag:
            i = unref(unref(t.a[0]).a[1][1])
            full = i
            none = None
            if i.tag == "P" and i.a[1] == "Some":
                i = unref(i.a[0])
            elif isC(i, "len") and unref(i.a[1][0]) is tag:
                fs = [unref(x) for x, v in p.facts.items() if v == ("v", "None") and isC(unref(x), "str::find")]
                i = fs[0] if len(fs) == 1 else i
            if isC(i, "str::find") and unref(i.a[1][0]) is tag:
                must, may = charpred(ctx, i.a[1][1])
                if must == may == set(ASCII) - DIGITS:
                    pair = unref(t.a[0])
                    return lambda y: unref(y).tag == "F" and unref(y).a[1] == "1" and unref(unref(y).a[0]) is pair
        return None
    # the readings of the digits that failed on this way, or were not there to read
    if num.tag == "A" and num.a[1] == "Some":
        x = unref(num.a[3][0])
        c = okof(x, *READ)
        if c is None and x.tag == "P" and x.a[1] in ("Some", "Ok"):
            y = unref(x.a[0])
            if isC(y, "ok"):
                y = unref(y.a[1][0])
            c = y if isC(y, *READ) else None
        rest = front(c.a[1][0]) if c is not None else None
        return rest is not None and rest(name)
    if num.tag == "A" and num.a[1] == "None":
        if name is tag:
            return any(v == ("v", "Err") and isC(unref(t), *READ) and front(unref(t).a[1][0]) is not None
                       or v == ("v", "None") and isC(unref(t), "Captures::get") and unref(unref(t).a[1][1]) is not None
                       for t, v in p.facts.items())
        for t, v in p.facts.items():
            t = unref(t)
            # no digits at all
            x = t.a[1][0] if isC(t, "is_empty") and v is True else t if v == ("i", "") else None
            r = front(x) if x is not None else None
            if r is not None and r(name):
                return True
    return False


def safe_fact(ctx, p):
    """was the text checked for characters that have no place in a name?  True: none there, False: some there, None: not"""
    for t, v in p.facts.items():
        t = unref(t)
        if isC(t, "is_match") and value_(t.a[1][1]) and isinstance(v, bool):
            if same_re(ctx, t.a[1][0], r"^[A-Za-z0-9_.+!-]*$", []):
                return v
        if isC(t, "str::contains") and value_(t.a[1][0]) and isinstance(v, bool) or isC(t, "str::find") and value_(t.a[1][0]) and isinstance(v, tuple):
            must, may = charpred(ctx, t.a[1][1])
            if must == may == set(ASCII) - SAFE:
                return not v if isinstance(v, bool) else v == ("v", "None")
    return None


def binary(ctx, ty, end, lists):
    fn = ctx.fn(r"<%s as std::convert::TryFrom<&str>>::try_from$" % (N + ty))
    k = len(lists)

    def stem(t):
        return t.tag == "P" and t.a[1] == "Some" and isC(bare(t.a[0]), "strip_suffix") and value_(bare(t.a[0]).a[1][0]) \
            and const(bare(t.a[0]).a[1][1]) == end
    for n in range(1, k + 7):
        good = bad = 0
        ps = ctx.paths(fn, inline=["generic_parse"], model=text_model(stem, "-", n), pure=r"parse|from_str|try_from|captures|Captures::get|strip_suffix|is_match")
        full = {}
        for p in ps:
            if p.ok() and strip(p.val()).tag == "A":
                for f, x in zip(strip(p.val()).a[2], strip(p.val()).a[3]):
                    full.setdefault((f, facts_of(p)), []).append(x)
        for p in ps:
            seg = lambda i: (lambda t: unref(t).tag == "Seg" and unref(t).a[1:] == ("-", i, i + 1) and stem(unref(unref(t).a[0])))
            if p.ok():
                good += 1
                v = strip(p.val())
                key = [fn.path, "%d parts" % n]
                if not ctx.ob("count", key, n in (k + 2, k + 3) and v.tag == "A" and v.a[0].endswith(ty), "a name of %d parts is taken: %s" % (n, show(v)[:300])):
                    continue
                d = dict(zip(v.a[2], v.a[3]))
                for f, i, cls in (("distribution", 0, "PackageName"), ("version", 1, "Version")):
                    x = d.get(f)
                    src = okval(x, *READ) if x is not None else None
                    ctx.ob("parts", [fn.path, f], src is not None and typed_as(x, cls) and seg(i)(bare(src)), "%s is %s" % (f, show(x)[:300] if x is not None else None))
                first = n - k
                for j, f in enumerate(lists):
                    x = d.get(f)
                    if x is not None and isC(bare(x), "Vec::new") and not history(x):
                        # no turn of the loop that puts them in: what does a way with some turns put in?
                        x = next((y for y in full.get((f, facts_of(p)), ()) if history(y)), x)
                    hs = [a[-1] for _, a in history(x)] if x is not None else []
                    texts = [t for y in hs + [x] for t in subset(bare(y)) if seg(first + j)(t)] if x is not None else []
                    ctx.ob("tags", [fn.path, f], len(set(texts)) == 1 and parts_of(ctx, x, texts[0], "."), "with %d parts %s is %s" % (n, f, show(bare(x))[:300] if x is not None else None))
                num, name = bare(d["build_number"]), bare(d["build_name"])
                for f in ("distribution", "version", "build_number", "build_name"):
                    ctx.ob("build" if "build" in f else "parts", [fn.path, f, "as read"], f in d and not changed(d[f]), "%s is changed after it was read: %s" % (f, show(d.get(f))[:300]))
                if n == k + 2:
                    okk = num.tag == "A" and num.a[1] == "None" and (const(name) == "" or isC(name, "String::new"))
                else:
                    tags = [t for x in list(p.facts) + [num, name] for t in subset(bare(x)) if seg(2)(t)]
                    okk = len(set(tags)) == 1 and number_and_rest(ctx, p, num, name, tags[0])
                    ne = any(seg(2)(bare(t)) and v == ("ni", frozenset({""})) or isC(bare(t), "is_empty") and seg(2)(bare(bare(t).a[1][0])) and v is False for t, v in p.facts.items())
                    ctx.ob("build", [fn.path, "empty"], ne, "an empty build tag is taken")
                ctx.ob("build", [fn.path, "%d parts" % n], okk, "build number and name are %s, %s when %s" % (show(num)[:200], show(name)[:200], show_facts(p)[-300:]))
                ctx.ob("refused", [fn.path, "characters"], safe_fact(ctx, p) is True, "the name is not checked for characters no name has")
            elif p.end == "ret":
                bad += 1
                why = p.err() and n not in (k + 2, k + 3) or safe_fact(ctx, p) is False
                for t, v in p.facts.items():
                    t = bare(t)
                    if v == ("v", "None") and isC(t, "strip_suffix") and value_(t.a[1][0]) and const(t.a[1][1]) == end \
                            or v is False and isC(t, "ends_with") and value_(t.a[1][0]) and const(t.a[1][1]) == end:
                        why = True
                    if v == ("v", "Err") and isC(t, *READ) and any(c in t.a[0] and seg(i)(bare(t.a[1][0])) for i, c in ((0, "PackageName"), (1, "Version"))):
                        why = True
                    if n == k + 3 and (seg(2)(t) and v == ("i", "") or isC(t, "is_empty") and v is True and seg(2)(bare(t.a[1][0]))):
                        why = True
                ctx.ob("refused", [fn.path, "%d parts" % n], why and p.err(), "a name of %d parts gives %s when %s" % (n, show(p.v)[:200], show_facts(p)[-400:]))
            else:
                ctx.ob("refused", [fn.path, "%d parts" % n, "no answer"], cannot(p), "a name of %d parts ends in %s %s when %s" % (n, p.end, show(p.v)[:100] if p.v is not None else "", show_facts(p)[-300:]))
        ctx.ob("count", [fn.path, "%d parts" % n, "any"], bool(good) == (n in (k + 2, k + 3)) and good + bad > 0, "of names of %d parts %d ways take them" % (n, good))
    show_binary(ctx, ty, end, lists)
    conversions(ctx, "way in", N + ty, stored=False)


def show_binary(ctx, ty, end, lists):
    fn = display(ctx, N + ty)

    def tags(f):
        def is_(t):
            t = unref(bare(t))
            return isC(t, "join") and part(t.a[1][0], f) and const(t.a[1][1]) == "."
        return is_
    roles = {"D": lambda t: isC(unref(t), "as_given") and part(unref(t).a[1][0], "distribution"), "V": lambda t: part(t, "version"),
             "N": lambda t: unref(t).tag == "P" and unref(t).a[1] == "Some" and part(unref(t).a[0], "build_number"), "B": lambda t: part(t, "build_name")}
    roles.update({str(i): tags(f) for i, f in enumerate(lists)})
    n = 0
    for p in ctx.paths(fn, inline=["format_build_tag"]):
        if not wrote(p):
            continue
        n += 1
        num = empty = None
        for t, v in p.facts.items():
            if part(t, "build_number") and isinstance(v, tuple):
                num = v == ("v", "Some") or v == ("nv", frozenset({"None"}))
            if part(t, "build_name") and isinstance(v, tuple) and v[0] in ("i", "ni"):
                empty = v == ("i", "") if v[0] == "i" else False if "" in v[1] else None
            if isC(unref(t), "is_empty") and part(unref(t).a[1][0], "build_name"):
                empty = v
        got = spell(written(p), roles)
        tail = "".join("-\x01%d" % i for i in range(len(lists))) + end
        want = {"\x01D-\x01V" + m + tail for m in ((["-\x01N\x01B"] + (["-\x01N"] if empty else [])) if num else ["-\x01B"] if num is False and empty is False else [""] if num is False and empty else [])}
        ctx.ob("written", [fn.path, "build number" if num else "no number", "name" if empty is False else "no name" if empty else "any name"],
               got in want, "written is %r" % got)
    ctx.floor("ways to write a %s" % ty, n, 3)


def wheels(ctx):
    ctx.rule("count", "a wheel is called name-version[-build]-python-abi-platform.whl, a pybi name-version[-build]-platform.pybi: other numbers of parts are refused")
    ctx.rule("parts", "the name is the first part and the version the second, read as what they are")
    ctx.rule("tags", "each set of tags is the dot-separated parts of its own part of the name, all and in order")
    ctx.rule("build", "the build tag is the part after the version: the digits it begins with are the number, the rest the name, and none of it is lost")
    ctx.rule("refused", "only what the format does not allow is refused, and all of that is")
    ctx.rule("written", "what is written has every part in its place, so that it reads as the same again")
    ctx.rule("way in", "every way to read one from text is the one that checks")
    binary(ctx, "WheelName", ".whl", ["py_tags", "abi_tags", "arch_tags"])
    binary(ctx, "PybiName", ".pybi", ["arch_tags"])


SDIST = r"^(.*)-([^-]*)\.(zip|tar\.gz)$"


def sdists(ctx):
    ctx.rule("sdist", "an sdist is called name-version.ext: the version follows the last dash, and the extension tells the format")
    fn = ctx.fn(r"<%sSdistName as std::convert::TryFrom<&str>>::try_from$" % N)

    def whole(t):
        t = bare(t)
        return isC(t, "captures") and value_(t.a[1][1]) and same_re(ctx, t.a[1][0], SDIST, ["1", "2", "3"])

    def grp(t, i):
        g = group(bare(t))
        return g is not None and value_(g[1]) and same_re(ctx, g[0], SDIST, ["1", "2", "3"]) and g[2] == i

    # without patterns: the ending stripped, then split at the last dash
    ENDS = {".zip": "Zip", ".tar.gz": "TarGz"}

    def stem(t):
        t = bare(t)
        if t.tag == "P" and t.a[1] == "Some" and isC(bare(t.a[0]), "strip_suffix") and value_(bare(t.a[0]).a[1][0]):
            return const(bare(t.a[0]).a[1][1])
        return None

    def cut(t, i):
        t = bare(t)
        if t.tag == "F" and t.a[1] == i and bare(t.a[0]).tag == "P" and bare(t.a[0]).a[1] == "Some":
            c = bare(bare(t.a[0]).a[0])
            if isC(c, "rsplit_once") and const(c.a[1][1]) == "-":
                return stem(c.a[1][0])
        return None
    kinds = set()
    for p in ctx.paths(fn, pure=r"parse|from_str|try_from|captures|Captures::get|strip_suffix|rsplit_once"):
        if p.ok():
            v = strip(p.val())
            d = dict(zip(v.a[2], v.a[3])) if v.tag == "A" else {}
            src = {f: okval(d[f], *READ) if f in d else None for f in ("distribution", "version")}
            ext = None
            for f, i, cls in (("distribution", 1, "PackageName"), ("version", 2, "Version")):
                s = src[f]
                e = cut(s, str(i - 1)) if s is not None else None
                okk = s is not None and typed_as(d[f], cls) and (grp(s, i) or e in ENDS)
                ext = e or ext
                ctx.ob("sdist", [fn.path, f], okk, "%s is %s" % (f, show(d[f])[:300] if f in d else None))
            fmt = d.get("format")
            fmt = bare(fmt) if fmt is not None else None
            got = fmt.a[1] if fmt is not None and fmt.tag == "A" else None
            if ext is None:
                es = [x[1] for t, x in p.facts.items() if grp(t, 3) and isinstance(x, tuple) and x[0] == "i"]
                not_ = {y for t, x in p.facts.items() if grp(t, 3) and isinstance(x, tuple) and x[0] == "ni" for y in x[1]}
                es = es or sorted({"zip", "tar.gz"} - not_)
                ext = "." + es[0] if len(es) == 1 else None
            ctx.ob("sdist", [fn.path, "format"], ext is not None and got == ENDS.get(ext), "a name ending in %s is a %s" % (ext, got))
            kinds.add(got)
        elif p.end == "ret":
            why = False
            ends = set()
            for t, v in p.facts.items():
                t = bare(t)
                why = why or v == ("v", "None") and whole(t)
                if v == ("v", "Err") and isC(t, *READ):
                    s = bare(t.a[1][0])
                    why = why or any(c in t.a[0] and (grp(s, i) or cut(s, str(i - 1)) in ENDS) for i, c in ((1, "PackageName"), (2, "Version")))
                if v == ("v", "None") and isC(t, "rsplit_once") and const(t.a[1][1]) == "-" and stem(t.a[1][0]) in ENDS:
                    why = True
                if v == ("v", "None") and isC(t, "strip_suffix") and value_(t.a[1][0]) or v is False and isC(t, "ends_with") and value_(t.a[1][0]):
                    ends.add(const(t.a[1][1]))
            ctx.ob("refused", [fn.path], p.err() and (why or ends >= set(ENDS)), "the name gives %s when %s" % (show(p.v)[:200], show_facts(p)[-300:]))
        else:
            ctx.ob("refused", [fn.path, "no answer"], cannot(p), "reading ends in %s when %s" % (p.end, show_facts(p)[-300:]))
    ctx.ob("sdist", [fn.path, "formats"], kinds == {"Zip", "TarGz"}, "the formats that come out are %s" % sorted(map(str, kinds)))
    fn = display(ctx, N + "SdistName")
    roles = {"D": lambda t: isC(unref(t), "as_given") and part(unref(t).a[1][0], "distribution"), "V": lambda t: part(t, "version")}
    seen = set()
    for p in ctx.paths(fn):
        if wrote(p):
            f = {"Zip", "TarGz"}
            for t, v in p.facts.items():
                if part(t, "format") and isinstance(v, tuple):
                    f = f & {v[1]} if v[0] == "v" else f - set(v[1]) if v[0] == "nv" else f
            got = spell(written(p), roles)
            okk = len(f) == 1 and got == "\x01D-\x01V" + {"Zip": ".zip", "TarGz": ".tar.gz"}[min(f)]
            ctx.ob("written", [fn.path] + sorted(f), okk, "written is %r" % got)
            seen |= f
    ctx.ob("written", [fn.path, "formats"], seen == {"Zip", "TarGz"}, "written are %s" % sorted(seen))
    conversions(ctx, "way in", N + "SdistName", stored=False)


KINDS = {"Wheel": ".whl", "Pybi": ".pybi", "Sdist": None}


def anyname(ctx):
    ctx.rule("kind", "the ending of the name, and nothing else, decides what it is a name of; each is read by its own rules")
    ctx.rule("inner", "whatever is asked of a name of any kind is answered from the name it is")
    fn = ctx.fn(r"<%sArtifactName as std::convert::TryFrom<&str>>::try_from$" % N)
    seen = set()

    def ending(p):
        yes, no = set(), set()
        for t, v in p.facts.items():
            t = bare(t)
            if isC(t, "ends_with") and value_(t.a[1][0]):
                (yes if v is True else no).add(const(t.a[1][1]))
            if isC(t, "strip_suffix") and value_(t.a[1][0]):
                (yes if v == ("v", "Some") else no).add(const(t.a[1][1]))
        ks = [k for k, e in KINDS.items() if e in yes]
        return ks[0] if len(ks) == 1 else "Sdist" if not ks and no >= {".whl", ".pybi"} else None
    for p in ctx.paths(fn, pure="ends_with|strip_suffix|try_from|try_into|from_str|parse"):
        k = ending(p)
        if p.ok():
            v = strip(p.val())
            src = okval(v.a[3][0], *READ) if v.tag == "A" and v.a[3] else None
            okk = v.tag == "A" and v.a[1] == k and src is not None and typed_as(v.a[3][0], "%sName" % k) and value_(bare(src))
            ctx.ob("kind", [fn.path, str(k)], okk, "a name of a %s gives %s" % (k, show(v)[:300]))
            seen.add(k)
        else:
            okk = p.end == "ret" and p.err() and any(v == ("v", "Err") and isC(bare(t), *READ) and value_(bare(bare(t).a[1][0])) and "%sName" % k in bare(t).a[0] for t, v in p.facts.items())
            ctx.ob("refused", [fn.path, str(k)], okk, "a name of a %s gives %s when %s" % (k, show(p.v)[:200] if p.v is not None else p.end, show_facts(p)[-300:]))
    ctx.ob("kind", [fn.path, "kinds"], seen == set(KINDS), "the kinds that come out are %s" % sorted(map(str, seen)))

    def kind_fact(p, who):
        ks = set(KINDS)
        for t, v in p.facts.items():
            if isarg(unref(t), who) and isinstance(v, tuple):
                ks = ks & {v[1]} if v[0] == "v" else ks - set(v[1]) if v[0] == "nv" else ks
        return ks
    inner = lambda t, k, who: unref(t).tag == "P" and unref(t).a[1] == k and isarg(unref(unref(t).a[0]), who)
    for f in ("distribution", "version"):
        g = ctx.fn(N + r"ArtifactName::%s$" % f)
        done = set()
        for p in ctx.paths(g):
            ks = kind_fact(p, "self")
            t = unref(p.v) if p.end == "ret" else None
            okk = len(ks) == 1 and t is not None and t.tag == "F" and t.a[1] == f and inner(t.a[0], min(ks), "self")
            ctx.ob("inner", [g.path] + sorted(ks), okk, "it is %s" % (show(t)[:200] if t is not None else p.end))
            done |= ks
        ctx.ob("inner", [g.path, "kinds"], done == set(KINDS), "answered for %s" % sorted(done))
    n = 0
    for k in KINDS:
        for g in ctx.p.find(r"<%s%sName as %sUnwrapFromArtifactName>::try_unwrap_from$" % (N, k, N), derived=True):
            n += 1
            for p in ctx.paths(g):
                ks = kind_fact(p, "value")
                t = unref(p.v) if p.end == "ret" else None
                some = t is not None and t.tag == "A" and t.a[1] == "Some"
                okk = some and ks == {k} and inner(t.a[3][0], k, "value") or t is not None and t.tag == "A" and t.a[1] == "None" and ks and k not in ks
                ctx.ob("inner", [g.path, "some" if some else "none"], okk, "asked for a %s of a %s: %s" % (k, "/".join(sorted(ks)), show(t)[:200] if t is not None else p.end))
    ctx.floor("questions whether a name is of a kind", n, 3)
    g = ctx.fn(N + r"ArtifactName::inner_as$")
    for p in ctx.paths(g):
        t = unref(p.v) if p.end == "ret" else None
        ctx.ob("inner", [g.path], isC(t, "try_unwrap_from") and isarg(unref(t.a[1][0]), "self"), "it is %s" % (show(t)[:200] if t is not None else p.end))
    g = display(ctx, N + "ArtifactName")
    done = set()
    for p in ctx.paths(g):
        if wrote(p):
            ks = kind_fact(p, "self")
            out = written(p)
            okk = len(ks) == 1 and len(out) == 1 and not isinstance(out[0], str) and inner(out[0], min(ks), "self")
            ctx.ob("written", [g.path] + sorted(ks), okk, "written is %s" % [x if isinstance(x, str) else show(x)[:80] for x in out])
            done |= ks
    ctx.ob("written", [g.path, "kinds"], done == set(KINDS), "written are %s" % sorted(done))


H = "posy::vocab::artifact_hash::ArtifactHash"


def hashes(ctx):
    ctx.rule("hash", "a hash is algorithm=digest in hexadecimal, all of it, and at least 128 bits; nothing else is one")
    fn = ctx.fn(r"<%s as std::convert::TryFrom<&str>>::try_from$" % H)

    def half(t, i):
        t = bare(t)
        if t.tag == "F" and t.a[1] == i and bare(t.a[0]).tag == "P" and bare(t.a[0]).a[1] == "Some":
            c = bare(bare(t.a[0]).a[0])
            return isC(c, "split_once") and value_(c.a[1][0]) and const(c.a[1][1]) == "="
        return False
    n = 0
    for p in ctx.paths(fn, pure="split_once|from_hex"):
        t = unref(p.v) if p.end == "ret" else None
        if p.ok():
            t = okof(strip(p.val()), "from_hex")
        if t is not None and isC(t, "from_hex"):
            n += 1
            ctx.ob("hash", [fn.path], half(t.a[1][0], "0") and half(t.a[1][1], "1"), "what is read is %s" % show(t)[:300])
        else:
            okk = p.end == "ret" and p.err() and any(v == ("v", "None") and isC(bare(t), "split_once") and value_(bare(t).a[1][0]) and const(bare(t).a[1][1]) == "="
                                                     or v == ("v", "Err") and isC(bare(t), "from_hex") and half(bare(t).a[1][0], "0") and half(bare(t).a[1][1], "1") for t, v in p.facts.items())
            ctx.ob("hash", [fn.path, "refused"], okk, "reading gives %s when %s" % (show(p.v)[:200] if p.v is not None else p.end, show_facts(p)[-300:]))
    ctx.floor("ways to read a hash", n, 1)
    fn = ctx.fn(H + r"::from_hex$")

    def digest(t):
        t = bare(t)
        return isC(t, "decode") and bare(t.a[1][0]).tag in ("Static", "Const") and bare(t.a[1][0]).a[0].rsplit("::", 1)[-1] == "HEXLOWER_PERMISSIVE" \
            and isarg(bare(t.a[1][1]), "hex")
    n = 0
    for p in ctx.paths(fn, pure="decode"):
        lens = [y for t in p.facts for y in subset(t) if y.tag == "C" and y.a[0].endswith("::len") and bare(y.a[1][0]).tag == "P" and digest(bare(y.a[1][0]).a[0])]
        if p.ok():
            n += 1
            v = strip(p.val())
            d = dict(zip(v.a[2], v.a[3])) if v.tag == "A" else {}
            m, r = d.get("mode"), d.get("raw_data")
            ctx.ob("hash", [fn.path, "algorithm"], m is not None and isarg(unref(m), "mode"), "the algorithm is %s" % show(m)[:200])
            okk = r is not None and not history(r) and unref(r).tag == "P" and unref(r).a[1] == "Ok" and digest(unref(r).a[0])
            ctx.ob("hash", [fn.path, "digest"], okk, "the digest is %s" % show(r)[:200])
            ctx.ob("hash", [fn.path, "bits"], any(entails(ineqs(p.facts), {t: 1, None: -16}) for t in lens), "digests of less than 128 bits are taken")
        elif p.end == "ret":
            why = any(v == ("v", "Err") and digest(t) for t, v in p.facts.items()) or any(entails(ineqs(p.facts), {t: -1, None: 15}) for t in lens)
            for t, v in p.facts.items():
                t = bare(t)
                if isC(t, "is_empty") and v is True and isarg(unref(t.a[1][0]), "mode") or isarg(t, "mode") and v == ("i", ""):
                    why = True
                if isC(t, "is_ascii_alphanumeric") and v is False and any(isarg(x, "mode") for x in subset(t)):
                    why = True
                if isC(t, "contains") and v is True and isarg(unref(t.a[1][0]), "mode"):
                    must, may = charpred(ctx, t.a[1][1])
                    why = why or may <= {c for c in ASCII if not c.isalnum()}
            ctx.ob("hash", [fn.path, "refused"], why and p.err(), "reading gives %s when %s" % (show(p.v)[:200], show_facts(p)[-400:]))
        else:
            ctx.ob("hash", [fn.path, "no answer"], False, "reading ends in %s when %s" % (p.end, show_facts(p)[-300:]))
    ctx.floor("ways to take a hash", n, 1)
    fn = display(ctx, H)

    def enc(t):
        t = unref(bare(t))
        return isC(t, "encode") and bare(t.a[1][0]).tag in ("Static", "Const") and bare(t.a[1][0]).a[0].rsplit("::", 1)[-1] == "HEXLOWER" and part(t.a[1][1], "raw_data")
    n = 0
    for p in ctx.paths(fn):
        if wrote(p):
            n += 1
            got = spell(written(p), {"A": lambda t: part(t, "mode"), "X": enc})
            ctx.ob("written", [fn.path], got == "\x01A=\x01X", "written is %r" % got)
    ctx.floor("ways to write a hash", n, 1)
    conversions(ctx, "way in", H)


RULES = {"P44": [wheels, sdists, anyname, hashes]}
