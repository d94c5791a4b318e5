"""Package indexes: what a simple-API page says, how pages of all indexes are combined, where metadata comes from."""
import glob, os, re
import terms
from rulelib import *
import rulelib
from rules.formats import isarg, argfield, fmt_is, eqtrue, major_is
from rules.envs import last, okof, fld, unref

_atoms = {}


def last_name(e):
    return e.name.rsplit("::", 1)[-1]


def show_facts(f):
    return "; ".join("%s=%s" % (show(t)[:120], v[1] if isinstance(v, tuple) else v) for t, v in f.items())


def atoms():
    """names of the statically numbered html5ever atoms, from the table the build generated"""
    if not _atoms:
        for f in glob.glob(os.path.join(rulelib.BUILD, "target/debug/build/markup5ever*/**/out/generated.rs"), recursive=True):
            with open(f) as h:
                tx = h.read()
            for m in re.finditer(r"const ATOM_(LOCALNAME|NAMESPACE)_+((?:[0-9A-F]{2}_?)*)\s*:\s*\w+\s*=\s*\w+\s*::\s*pack_static\s*\(\s*(\d+)u32", tx):
                _atoms[(m.group(1), (int(m.group(3)) << 32) | 2)] = bytes.fromhex(m.group(2).replace("_", "")).decode()
    return _atoms


def atom(ctx, t, kind="LOCALNAME"):
    """the text of an atom term: a static one by its number, a lazily built one by what it is built from"""
    t = unref(t)
    if t.tag == "K":
        try:
            return atoms().get((kind, int(t.a[1])))
        except (TypeError, ValueError):
            return None
    if t.tag == "Static":
        out = set()
        for fn in ctx.p.fns.values():
            if fn.kind == "Closure" and (fn.parent == t.a[0] or fn.path.startswith(t.a[0] + "::{closure")):
                for p in ctx.paths(fn):
                    v = bare(p.v) if p.end == "ret" else None
                    if v is not None and v.tag == "C" and last(v) in ("from", "into") and is_k(bare(v.a[1][0]), "str"):
                        v = bare(v.a[1][0])
                    out.add(v.a[1] if v is not None and v.tag == "K" else None)
        return out.pop() if len(out) == 1 else None
    if t.tag == "C" and last(t) in ("from", "into") and len(t.a[1]) == 1 and is_k(bare(t.a[1][0]), "str"):
        return bare(t.a[1][0]).a[1]
    return None


XHTML = "http://www.w3.org/1999/xhtml"


def tag_is(ctx, p, want):
    """does the path know whether the element is an HTML element called `want`?"""
    for t, v in p.facts.items():
        b = bare(t)
        if b.tag == "Bin" and b.a[0] in ("Eq", "Ne") and isinstance(v, bool):
            for x, y in ((b.a[1], b.a[2]), (b.a[2], b.a[1])):
                x, y = bare(x), bare(y)
                if not any(z.tag == "Arg" and z.a[1] == "name" for z in subset(x)):
                    continue
                if y.tag == "A" and "local" in y.a[2]:
                    loc = atom(ctx, y.a[3][y.a[2].index("local")])
                    ns = atom(ctx, y.a[3][y.a[2].index("ns")], "NAMESPACE")
                    if ns != XHTML:
                        continue
                elif fld(x, "local") is not None:
                    loc = atom(ctx, y)
                else:
                    continue
                if loc == want:
                    return v == (b.a[0] == "Eq")
    return None


def attr(ctx, t):
    """(attribute name, ) of a get_attr(name, attrs) call"""
    t = bare(t)
    if isC(t, "get_attr", "html::get_attr") and len(t.a[1]) == 2 and isarg(t.a[1][1], "attrs"):
        return atom(ctx, t.a[1][0])
    return None


def attr_val(ctx, t):
    """the attribute whose value t is"""
    t = unref(t)
    if t.tag == "P" and t.a[1] == "Some":
        return attr(ctx, t.a[0])
    return None


def known_attr(ctx, p, name):
    """("Some"|"None"|None) what the path knows about the attribute"""
    for t, v in p.facts.items():
        if isinstance(v, tuple) and v[0] == "v" and attr(ctx, t) == name:
            return v[1]
    return None


def attr_eq(ctx, p, name, s):
    for t, v in p.facts.items():
        b = bare(t)
        if isinstance(v, tuple) and v[0] in ("i", "s") and v[1] == s and attr_val(ctx, b) == name:
            return True
        if b.tag == "Bin" and b.a[0] in ("Eq", "Ne") and v is (b.a[0] == "Eq"):
            for x, y in ((b.a[1], b.a[2]), (b.a[2], b.a[1])):
                if is_k(bare(y), "str", s) and attr_val(ctx, x) == name:
                    return True
                yb = bare(y)
                if attr(ctx, x) == name and yb.tag == "A" and yb.a[1] == "Some" and is_k(bare(yb.a[3][0]), "str", s):
                    return True
    return False


def self_store(e, *names):
    return e.kind == "store" and argfield(e.args[0], "self", *names)


def create_paths(ctx):
    fn = ctx.fn(r"Sink as .*TreeSink>::create_element$")
    return fn, ctx.paths(fn, interesting=lambda e: e.kind == "store" or e.is_("extend", "push", "append", "insert", "join", "try_parse_link", "clear", "retain", "truncate", "pop"),
                         pure=r"get_attr|QualName::expanded|Url::join")


def p22_page(ctx):
    ctx.rule("api-version", "files of an index page are used only when the page's API version is 1.x; a page stating none counts as 1.0")
    ctx.rule("meta-version", "the API version is the content of the page's meta element named pypi:repository-version")
    ctx.rule("content-type", "only text/html responses are read as index pages, and one without a type counts as that")
    ctx.rule("page-status", "a 404 means the project is absent from the index; any other error status is an error")
    pk = ctx.fn(r"project_info::pack_by_version$")
    n = 0
    for p in ctx.paths(pk):
        used = p.calls("push", "entry", "insert", "extend", "or_insert_with", "or_default")
        if p.ok() or used:
            n += 1
            vs = {x for t in p.facts for x in subset(bare(t)) if argfield(x, "pi", "meta", "version")}
            ctx.ob("api-version", [pk.path, "used" if used else "ok"], any(major_is(p, v, "1") for v in vs), "files of a page are used without its version being 1.x: %s" % p.show()[:300])
        elif p.err():
            vs = {x for t in p.facts for x in subset(bare(t)) if argfield(x, "pi", "meta", "version")}
            ctx.ob("api-version", [pk.path, "refused"], not any(major_is(p, v, "1") for v in vs), "a page of version 1.x is refused")
    ctx.floor("ways to use a page", n, 1)
    # the default version
    d = ctx.method("std::default::Default", "project_info::Meta", "default")
    for p in ctx.paths(d):
        r = strip(p.v)
        okk = p.end == "ret" and r.tag == "A" and "version" in r.a[2] and is_k(unref(r.a[3][r.a[2].index("version")]), "str", "1.0")
        ctx.ob("api-version", [d.path, "default"], okk, "without a stated version a page counts as %s" % show(p.v)[:100])
    # where the version comes from
    fn, ps = create_paths(ctx)
    n = 0
    for p in ps:
        if p.end != "ret":
            continue
        st = [e for e in p.evs if e.kind == "store" and argfield(e.args[0], "self", "project_info", "meta", "version")]
        for e in p.evs:
            if e.kind == "store" and (argfield(e.args[0], "self", "project_info") or argfield(e.args[0], "self", "project_info", "meta")):
                ctx.fail("meta-version", [fn.path, "replaced"], "the page's description is replaced: %s" % str(e)[:200])
        named = tag_is(ctx, p, "meta") is True and attr_eq(ctx, p, "name", "pypi:repository-version")
        has = known_attr(ctx, p, "content") == "Some"
        if st:
            n += 1
            okk = named and has and len(st) == 1 and attr_val(ctx, st[0].args[1]) == "content"
            ctx.ob("meta-version", [fn.path, "source"], okk, "the API version is set to %s of an element known only to be: %s" % (show(st[0].args[1])[:120], "; ".join("%s=%s" % (show(a)[:90], b) for a, b in p.facts.items())))
        else:
            if named and has:
                ctx.fail("meta-version", [fn.path, "ignored"], "the stated API version is not recorded")
            # a meta element carrying the right name must be recognised as such
            if tag_is(ctx, p, "meta") is True and known_attr(ctx, p, "name") == "Some" and not named:
                neg = any(attr_val(ctx, bare(t)) == "name" and (isinstance(v, tuple) and v[0] in ("ni", "ns") and "pypi:repository-version" in v[1]) or
                          bare(t).tag == "Bin" and any(is_k(bare(y), "str", "pypi:repository-version") for y in subset(bare(t))) for t, v in p.facts.items())
                ctx.ob("meta-version", [fn.path, "recognised"], neg, "a named meta element is passed over without its name being looked at")
    ctx.floor("ways to learn the API version", n, 1)
    # content type
    ph = ctx.fn(r"html::parse_html$")
    n = 0
    for p in ctx.paths(ph):
        if p.has("parse_document") or p.ok():
            n += 1

            def part(w):
                def f(t):
                    t = unref(t)
                    return isC(t, w, "Mime::" + w) and okof(t.a[1][0], "from_str", "parse", "Mime::from_str") is not None and isarg(unref(okof(t.a[1][0], "from_str", "parse", "Mime::from_str").a[1][0]), "content_type")
                return f

            def whole(w):
                def f(t):
                    c = okof(unref(t), "from_str", "parse", "Mime::from_str")
                    t2 = unref(t)
                    if isC(t2, "essence_str", "Mime::essence_str"):
                        c = okof(t2.a[1][0], "from_str", "parse", "Mime::from_str")
                    return c is not None and isarg(unref(c.a[1][0]), "content_type")
                return f

            def known(pred, s):
                for t, v in p.facts.items():
                    b = unref(t)
                    if isinstance(v, tuple) and v[0] in ("i", "s") and v[1] == s and pred(b):
                        return True
                    if b.tag == "Bin" and b.a[0] in ("Eq", "Ne") and v is (b.a[0] == "Eq"):
                        for x, y in ((b.a[1], b.a[2]), (b.a[2], b.a[1])):
                            if pred(x) and (is_k(unref(y), "str", s) or "mime::" in show(unref(y)).lower() and show(unref(y)).upper().endswith(s.upper().replace("/", "_"))):
                                return True
                return False
            okk = known(part("type_"), "text") and known(part("subtype"), "html") or known(whole(""), "text/html")
            ctx.ob("content-type", [ph.path, "html"], okk, "a response is read as an index page knowing only: %s" % "; ".join("%s=%s" % (show(a)[:90], b) for a, b in p.facts.items()))
            for e in p.calls("parse_document"):
                s = strip(e.args[0])
                good = s.tag == "A" and "project_info" in s.a[2]
                pi = bare(s.a[3][s.a[2].index("project_info")]) if good else None
                good = good and pi.tag == "C" and last(pi) in ("default",) and isarg(unref(s.a[3][s.a[2].index("base")]), "url") and is_k(bare(s.a[3][s.a[2].index("changed_base")]), "bool", False)
                ctx.ob("api-version", [ph.path, "start"], good, "reading a page starts from %s" % show(s)[:300])
            if p.ok():
                v = bare(p.val())
                good = v.tag == "F" and v.a[1] == "project_info" and any(isC(x, "parse_document", "html5ever::parse_document") for x in subset(v)) and any(isC(x, "read_from", "TendrilSink::read_from") and isarg(unref(x.a[1][1]), "body") for x in subset(v))
                ctx.ob("content-type", [ph.path, "result"], good, "the page's description is %s" % show(v)[:200])
    ctx.floor("ways to read a page", n, 1)
    # fetching
    ff = ctx.fn(r"fetch::fetch_simple_api$")
    na = nb = 0
    for p in ctx.paths(ff, pure=r"Response::status|as_u16|Response::headers|is_client_error|is_server_error|is_success"):
        def resp(t):
            c = okof(t, "Http::request", "request")
            return c is not None and argfield(c.a[1][0], "http") and any(isarg(x, "url") for x in subset(bare(c.a[1][1])))

        def status(t):
            t = bare(t)
            while isC(t, "as_u16", "StatusCode::as_u16", "into", "from"):
                t = bare(t.a[1][0])
            return isC(t, "status", "Response::status") and resp(unref(t.a[1][0]))
        is404 = any((isinstance(v, tuple) and v[0] in ("i",) and v[1] == 404 and status(t)) or
                    bare(t).tag == "Bin" and bare(t).a[0] in ("Eq", "Ne") and v is (bare(t).a[0] == "Eq") and
                    any(status(x) and ("NOT_FOUND" in show(y) or is_k(bare(y), "int", 404) or y.tag == "K" and str(y.a[1]) == "404") for x, y in ((bare(t).a[1], bare(t).a[2]), (bare(t).a[2], bare(t).a[1])))
                    for t, v in p.facts.items())
        if not p.ok():
            continue
        r = strip(p.val())
        if r.tag == "A" and r.a[1] == "None":
            na += 1
            ctx.ob("page-status", [ff.path, "absent"], is404, "the project is taken to be absent although the status is not 404")
            continue
        nb += 1
        good = any(f == {None: 399, k: -1} for f in ineqs(p.facts) for k in f if k is not None and status(k)) or \
            any(ladd({None: 399}, {k: -1}) == f or (lconst(lsub(f, {None: 399})) is None and k in f and f[k] == -1 and f.get(None, 0) <= 399) for f in ineqs(p.facts) for k in f if k is not None and status(k))
        good = good or any(v is True and last(bare(t)) == "is_success" or False for t, v in p.facts.items())
        good = good or {last(bare(t)) for t, v in p.facts.items() if v is False} >= {"is_client_error", "is_server_error"}
        ctx.ob("page-status", [ff.path, "errors"], good and not is404, "a page is read although the status may be an error")
        c = okof(r.a[3][0], "parse_html", "html::parse_html") if r.tag == "A" and r.a[1] == "Some" else None
        good = c is not None
        if good:
            u = unref(c.a[1][0])
            u = unref(u.a[0]) if u.tag == "P" and u.a[1] == "Some" else u
            if isC(u, "unwrap", "expect"):
                u = unref(u.a[1][0])
            good = isC(u, "get", "Extensions::get") and any(resp(x) for x in subset(u))
            ctx.ob("page-status", [ff.path, "url"], good, "links of the page are resolved against %s, not the URL the page came from" % show(c.a[1][0])[:200])
            ct = unref(c.a[1][1])
            if is_k(ct, "str"):
                good = ct.a[1] == "text/html" and any(v == ("v", "None") and isC(bare(t), "get", "HeaderMap::get") and is_ct(bare(t).a[1][1]) for t, v in p.facts.items())
            else:
                hs = [x for x in subset(ct) if isC(x, "get", "HeaderMap::get")]
                good = len(hs) == 1 and is_ct(hs[0].a[1][1]) and any(resp(x) for x in subset(hs[0]))
                if isC(ct, "unwrap_or"):
                    good = good and is_k(unref(ct.a[1][1]), "str", "text/html")
            ctx.ob("content-type", [ff.path, "header"], good, "the page's type is taken to be %s" % show(ct)[:200])
            b = unref(c.a[1][2])
            ctx.ob("content-type", [ff.path, "body"], isC(b, "into_body", "Response::into_body", "body") and resp(unref(b.a[1][0])), "what is read as the page is %s" % show(b)[:200])
        else:
            ctx.fail("content-type", [ff.path, "result"], "the page's description is %s" % show(r)[:200])
    ctx.floor("ways to find a project absent", na, 1)
    ctx.floor("ways to fetch a page", nb, 2)


def is_ct(t):
    t = unref(t)
    return is_k(t, "str") and t.a[1].lower() == "content-type" or "CONTENT_TYPE" in show(t)


# ---------------------------------------------------------------------------------- P54: links
def p54_elements(ctx):
    ctx.rule("links", "every <a href> that names an artifact is listed, and nothing else is")
    ctx.rule("base", "relative links are resolved against the page's first <base>, else against the URL of the page")
    fn, ps = create_paths(ctx)
    na = nb = 0
    # the artifacts of a link, listed one at a time
    its = ctx.iterations(fn, lambda it: any(isC(x, "try_parse_link", "Sink::try_parse_link") for x in subset(bare(it))) and bare(it).tag != "Thin")
    each = any(q.end == "next" for q in its)
    for q in its:
        if q.end == "panic":
            continue
        ps_ = [e for e in q.evs if e.kind == "call" and e.is_("push") and argfield(e.args[0], "self", "project_info", "artifacts")]
        okk = q.end == "next" and len(ps_) == 1 and bare(ps_[0].args[1]).tag == "Elem"
        each = each and okk
        ctx.ob("links", [fn.path, "each"], okk, "an artifact of a link is passed over: %s" % q.show()[:300])
    for p in ps:
        if p.end != "ret":
            continue

        def parsed(t):
            c = bare(t)
            return isC(c, "try_parse_link", "Sink::try_parse_link") and isarg(unref(c.a[1][0]), "self") and attr_val(ctx, c.a[1][1]) == "href" and isarg(unref(c.a[1][2]), "attrs")
        muts = [e for e in p.evs if e.kind == "call" and e.is_("extend", "push", "append", "insert", "clear", "retain", "truncate", "pop") and argfield(e.args[0], "self", "project_info", "artifacts")] + \
               [e for e in p.evs if self_store(e, "project_info", "artifacts")]
        link = tag_is(ctx, p, "a") is True and known_attr(ctx, p, "href") == "Some"
        good = [t for t, v in p.facts.items() if parsed(t) and v == ("v", "Some")]
        bad = [t for t, v in p.facts.items() if parsed(t) and v == ("v", "None")]
        if muts:
            na += 1
            okk = link and (len(muts) == 1 or each)
            for m in muts:
                src = bare(m.args[1]) if len(m.args) > 1 else mk("Unk")
                if src.tag == "Elem":
                    src = bare(src.a[0])
                    while src.tag == "Iter" and src.a[0] == "src":
                        src = bare(src.a[1])
                one = len(muts) == 1 and m.is_("extend", "append") or each and m.is_("push")
                okk = okk and one and src.tag == "P" and src.a[1] == "Some" and parsed(src.a[0])
            ctx.ob("links", [fn.path, "listed"], okk, "the files of a page are changed by %s" % str(muts[0])[:250])
        elif link:
            okk = bool(bad) or (each and bool(good))
            ctx.ob("links", [fn.path, "dropped"], okk, "a link is passed over although it may name an artifact: %s" % "; ".join("%s=%s" % (show(a)[:90], b) for a, b in p.facts.items()))
        if tag_is(ctx, p, "a") is None:
            ctx.fail("links", [fn.path, "unseen"], "an element is passed over without looking whether it is a link: %s" % p.show()[:300])
        # base
        bs = [e for e in p.evs if self_store(e, "base")]
        cb = [e for e in p.evs if self_store(e, "changed_base")]
        first = any(argfield(t, "self", "changed_base") and v is False for t, v in p.facts.items())
        isbase = tag_is(ctx, p, "base")
        for e in cb:
            ctx.ob("base", [fn.path, "flag"], isbase is True and is_k(bare(e.args[1]), "bool", True), "the note that the base is known is changed by %s" % str(e)[:200])
        joined = [t for t, v in p.facts.items() if v == ("v", "Ok") and isC(bare(t), "join", "Url::join") and argfield(bare(t).a[1][0], "self", "base") and attr_val(ctx, bare(t).a[1][1]) == "href"]
        if bs:
            nb += 1
            c = okof(bs[0].args[1], "join", "Url::join")
            okk = len(bs) == 1 and isbase is True and first and bool(cb) and c is not None and argfield(c.a[1][0], "self", "base") and attr_val(ctx, c.a[1][1]) == "href"
            ctx.ob("base", [fn.path, "set"], okk, "the base is set to %s knowing: %s" % (show(bs[0].args[1])[:150], "; ".join("%s=%s" % (show(a)[:90], b) for a, b in p.facts.items())))
        elif isbase is True and first and known_attr(ctx, p, "href") == "Some":
            ok2 = any(v == ("v", "Err") and isC(bare(t), "join", "Url::join") and argfield(bare(t).a[1][0], "self", "base") for t, v in p.facts.items())
            ctx.ob("base", [fn.path, "ignored"], ok2, "the page's first <base> is not used")
        elif isbase is True and not first:
            ctx.ob("base", [fn.path, "skip"], any(argfield(t, "self", "changed_base") and v is True for t, v in p.facts.items()), "a <base> is passed over although it may be the first")
        if bs and any(e.kind == "call" and e.is_("try_parse_link") for e in p.evs):
            pass
    ctx.floor("ways to list files", na, 1)
    ctx.floor("ways to set the base", nb, 1)
    for f in ctx.p.fns.values():
        if "simple_api::html" in f.path and not is_test(f) and f.kind in ("Fn", "AssocFn") and f.path != fn.path:
            for p in ctx.paths(f, interesting=lambda e: e.kind == "store" or e.is_("extend", "push", "append", "clear", "retain", "truncate", "pop", "remove")):
                for e in p.evs:
                    t = peel(e.args[0]) if e.args else None
                    if t is not None and any(argfield(t, "self", *x) for x in (("base",), ("changed_base",), ("project_info",), ("project_info", "artifacts"), ("project_info", "meta"), ("project_info", "meta", "version"))):
                        ctx.fail("links", [f.path, e.name.rsplit("::", 1)[-1]], "%s changes what is known about the page" % str(e)[:200])


def p54_link(ctx):
    ctx.rule("link-name", "an artifact's name is the last segment of its link's path, and its URL is the link resolved against the base")
    ctx.rule("link-hash", "an artifact's hash is the one in the fragment of its link (algorithm=hex digits)")
    ctx.rule("link-attrs", "requires-python is the data-requires-python attribute; yanked means data-yanked is present, even if empty")
    ctx.rule("link-split", "a pybi for several platforms is listed once per platform, with everything else the same")
    ctx.rule("link-dropped", "a link is passed over only when it is no URL or its last segment is no artifact name")
    fn = ctx.fn(r"Sink::try_parse_link$")
    ps = ctx.paths(fn, pure=r"get_attr|Url::|ArtifactName::|parse_hash")
    n = nx = 0

    def url(t):
        c = okof(unref(t), "join", "Url::join")
        return c is not None and argfield(c.a[1][0], "self", "base") and isarg(unref(c.a[1][1]), "url_str")

    def segments(t):
        c = okof(t, "path_segments", "Url::path_segments")
        return c is not None and url(c.a[1][0])

    def lastseg(t):
        t = strip(t)
        if t.tag == "P" and t.a[1] == "Some":
            c = strip(t.a[0])
            if isC(c, "last", "Iterator::last"):
                x = bare(c.a[1][0])
                while x.tag == "Iter" and x.a[0] == "src":
                    x = bare(x.a[1])
                return segments(x)
            return False
        if t.tag != "Elem":
            return False
        x = strip(t.a[0])
        if x.tag == "Iter" and x.a[0] == "src":
            x = strip(x.a[1])
        rev = 0
        while x.tag in ("Thin", "Iter") and x.a[0] in ("rev", "src"):
            rev += x.a[0] == "rev"
            x = strip(x.a[1])
        if rev % 2 == 1 and segments(x):
            return True
        return rev == 0 and isC(x, "rsplit") and isC(bare(x.a[1][0]), "path", "Url::path") and url(bare(x.a[1][0]).a[1][0]) and is_k(bare(x.a[1][1]), None, "/")

    def artname(t):
        t = strip(t)
        if t.tag != "P" or t.a[1] != "Ok" or last(strip(t.a[0])) not in ("try_from", "try_into", "from_str", "parse"):
            return False
        return lastseg(unrefs(strip(t.a[0]).a[1][0]))

    def unrefs(t):
        t = strip(t)
        while t.tag == "C" and last(t) in ("as_ref", "borrow", "deref", "as_str", "to_string", "to_owned", "into") and len(t.a[1]) == 1:
            t = strip(t.a[1][0])
        return t

    def splitname(t):
        t = strip(t)
        if t.tag != "Elem":
            return False
        x = strip(t.a[0])
        while x.tag == "Iter" and x.a[0] in ("src", "cloned", "copied"):
            x = strip(x.a[1])
        return isC(x, "split_multiplatform_pybis", "ArtifactName::split_multiplatform_pybis") and artname(x.a[1][0])
    for p in ps:
        if p.end != "ret":
            ctx.fail("link-dropped", [fn.path, "panic"], "a link may stop the run")
            continue
        r = strip(p.v)
        if r.tag == "A" and r.a[1] == "None":
            why = any((v == ("v", "Err") and (isC(bare(t), "join", "Url::join") or last(strip(t)) in ("try_from", "try_into", "parse", "from_str") and lastseg(unrefs(strip(t).a[1][0])))) or
                      (v == ("v", "None") and (isC(bare(t), "path_segments", "Url::path_segments") or last(strip(t)) in ("last", "next_back", "next")))
                      for t, v in p.facts.items())
            # an exhausted segment iterator leaves no fact: then no name was parsed
            tried = any(last(strip(t)) in ("try_from", "try_into", "parse", "from_str") and v == ("v", "Ok") for t, v in p.facts.items())
            ctx.ob("link-dropped", [fn.path, "none"], why or not tried, "a link is passed over although it names an artifact: %s" % "; ".join("%s=%s" % (show(a)[:90], b) for a, b in p.facts.items()))
            continue
        if r.tag != "A" or r.a[1] != "Some":
            ctx.fail("link-split", [fn.path, "result"], "the result is %s" % show(r)[:200])
            continue
        n += 1
        lst = r.a[3][0]
        its = [x for x in subset(lst) if x.tag == "C" and x.a[0] == "collect"]
        for c in its:
            d = drops(ctx, c.a[1][0])
            ctx.ob("link-split", [fn.path, "all"], not d, "some of a pybi's platforms are left out by %s" % [m for m, _ in d])
        items = [bare_keep(a[-1]) for m, a in history(lst) if m.rsplit("::", 1)[-1] in ("push", "insert", "push_back")]
        if strip(lst).tag == "Arr":
            items += [strip(x) for x in strip(lst).a]
        others = [m for m, a in history(lst) if m.rsplit("::", 1)[-1] not in ("push", "push_back", "reserve")]
        if others:
            ctx.fail("link-split", [fn.path, "list"], "the list of artifacts is changed by %s" % others)
        for it in items:
            nx += 1
            if it.tag != "A" or "yanked" not in it.a[2]:
                ctx.fail("link-split", [fn.path, "item"], "a link becomes %s" % show(it)[:200])
                continue
            g = dict(zip(it.a[2], it.a[3]))
            ctx.ob("link-name", [fn.path, "name"], splitname(g["name"]), "the artifact is called %s" % show(g["name"])[:250])
            ctx.ob("link-name", [fn.path, "url"], url(g["url"]), "the artifact's URL is %s" % show(g["url"])[:250])
            # hash
            h = strip(g["hash"])
            frag = [(t, v[1]) for t, v in p.facts.items() if isinstance(v, tuple) and v[0] == "v" and isC(bare(t), "fragment", "Url::fragment") and url(bare(t).a[1][0])]
            if h.tag == "A" and h.a[1] == "None":
                okk = any(v == "None" for _, v in frag)
            elif isC(bare(h), "and_then"):
                b = bare(h)
                okk = isC(bare(b.a[1][0]), "fragment", "Url::fragment") and "parse_hash" in show(b.a[1][1])
            else:
                b = bare(h)
                okk = isC(b, "parse_hash", "html::parse_hash") and unref(b.a[1][0]).tag == "P" and isC(bare(unref(b.a[1][0]).a[0]), "fragment", "Url::fragment") and url(bare(unref(b.a[1][0]).a[0]).a[1][0])
            ctx.ob("link-hash", [fn.path, "hash"], okk, "the artifact's hash is %s" % show(h)[:250])
            for fname, an in (("requires_python", "data-requires-python"),):
                x = strip(g[fname])
                k = known_attr(ctx, p, an)
                if x.tag == "A" and x.a[1] == "None":
                    okk = k == "None"
                elif x.tag == "A" and x.a[1] == "Some":
                    okk = k == "Some" and attr_val(ctx, x.a[3][0]) == an
                else:
                    okk = attr(ctx, unref(x)) == an
                ctx.ob("link-attrs", [fn.path, fname], okk, "%s is %s" % (fname, show(x)[:200]))
            y = bare(g["yanked"])
            k = known_attr(ctx, p, "data-yanked")
            if y.tag == "A":
                h2 = dict(zip(y.a[2], y.a[3]))
                f = strip(h2["yanked"])
                if f.tag == "K":
                    okk = k == ("Some" if f.a[1] else "None")
                else:
                    okk = last(f) == "is_some" and attr(ctx, f.a[1][0]) == "data-yanked"
                rs = bare(h2["reason"])
                okk2 = rs.tag == "A" and rs.a[1] == "None" and k == "None" or rs.tag == "A" and rs.a[1] == "Some" and attr_val(ctx, rs.a[3][0]) == "data-yanked" or attr(ctx, unref(rs)) == "data-yanked"
                ctx.ob("link-attrs", [fn.path, "yanked"], okk, "an artifact is listed with yanked=%s when its data-yanked attribute is %s" % (show(f), k))
                ctx.ob("link-attrs", [fn.path, "reason"], okk2, "the reason is %s" % show(rs)[:150])
            else:
                ctx.fail("link-attrs", [fn.path, "yanked"], "yanked is %s" % show(y)[:200])
    ctx.floor("ways to read a link", n, 4)
    ctx.floor("artifacts a link becomes", nx, 4)
    if not its:
        for q in ctx.iterations(fn, lambda it: any(isC(x, "split_multiplatform_pybis", "ArtifactName::split_multiplatform_pybis") for x in subset(bare(it))), pure=r"get_attr|Url::|ArtifactName::|parse_hash"):
            if q.end == "next":
                ctx.ob("link-split", [fn.path, "each"], q.has("push"), "one of a pybi's platforms is left out")
    # get_attr
    ga = ctx.fn(r"html::get_attr$")
    for p in ctx.paths(ga):
        if p.end != "ret":
            continue
        r = strip(p.v)
        if r.tag == "A" and r.a[1] == "Some":
            v = unref(r.a[3][0])
            e = fld(v, "value")
            good = e is not None and attr_elem(e) and eqtrue(p, lambda t: isarg(unref(t), "name"), lambda t: fld(fld(unref(t), "local") or mk("K", "x", 0), "name") is e or localof(unref(t), e))
            ctx.ob("link-attrs", [ga.path, "found"], good, "an attribute's value is %s, knowing %s" % (show(v)[:150], "; ".join("%s=%s" % (show(a)[:90], b) for a, b in p.facts.items())))
        elif r.tag == "A" and r.a[1] == "None":
            pos = [t for t, v in p.facts.items() if t.tag == "Bin" and t.a[0] == "Eq" and v is True]
            ctx.ob("link-attrs", [ga.path, "missed"], not pos, "an attribute that is there is not found")
        else:
            c = bare(r)
            ctx.fail("link-attrs", [ga.path, "result"], "an attribute's value is %s" % show(c)[:200])
    for q in ctx.iterations(ga, lambda it: attr_src(it)):
        if q.end == "next":
            neq = any(t.tag == "Bin" and (t.a[0] == "Eq" and v is False or t.a[0] == "Ne" and v is True) and any(isarg(unref(x), "name") for x in t.a[1:]) for t, v in q.facts.items())
            ctx.ob("link-attrs", [ga.path, "skipped"], neq, "an attribute is passed over without comparing its name")
    # parse_hash
    hp = ctx.fn(r"html::parse_hash$")
    n = 0
    for p in ctx.paths(hp, pure=r"from_hex|split_once"):
        r = strip(p.v)

        def half(t, i):
            t = bare(t)
            return t.tag == "F" and t.a[1] == i and okof(t.a[0], "split_once") is not None and isarg(unref(okof(t.a[0], "split_once").a[1][0]), "s") and is_k(bare(okof(t.a[0], "split_once").a[1][1]), None, "=")

        def hexed(t):
            t = bare(t)
            return isC(t, "from_hex", "ArtifactHash::from_hex") and half(t.a[1][0], "0") and half(t.a[1][1], "1")
        if p.end == "ret" and r.tag == "A" and r.a[1] == "Some":
            n += 1
            x = bare(r.a[3][0])
            ctx.ob("link-hash", [hp.path, "parts"], x.tag == "P" and x.a[1] == "Ok" and hexed(x.a[0]), "a hash fragment is read as %s" % show(x)[:200])
        elif p.end == "ret" and r.tag == "A" and r.a[1] == "None":
            why = any(v == ("v", "None") and isC(bare(t), "split_once") or v == ("v", "Err") and hexed(t) for t, v in p.facts.items())
            ctx.ob("link-hash", [hp.path, "dropped"], why, "a hash fragment is passed over: %s" % "; ".join("%s=%s" % (show(a)[:90], b) for a, b in p.facts.items()))
        else:
            ctx.fail("link-hash", [hp.path, "result"], "a hash fragment is read as %s" % show(p.v)[:200] if isinstance(p.v, T) else "panic")
    ctx.floor("ways to read a hash", n, 1)


def bare_keep(t):
    """without the outer mutation history only"""
    return strip(t)


def attr_src(it):
    it = bare(it)
    while it.tag == "Iter" and it.a[0] in ("src", "cloned", "copied"):
        it = bare(it.a[1])
    return isarg(unref(it), "attrs")


def attr_elem(e):
    return e.tag == "Elem" and attr_src(e.a[0])


def localof(t, e):
    x = fld(t, "local")
    return x is not None and fld(x, "name") is e


# ---------------------------------------------------------------------------------- P54: multi-platform pybis
def p54_split(ctx):
    ctx.rule("split-names", "each platform of a pybi's name becomes a name with just that platform; macOS universal2 becomes arm64 and x86_64; other names stay as they are")
    fn = ctx.fn(r"ArtifactName::split_multiplatform_pybis$")
    n = m = 0
    tags = set()

    def tagel(t):
        t = bare(t)
        if t.tag != "Elem":
            return False
        x = bare(t.a[0])
        while x.tag == "Iter" and x.a[0] in ("src", "cloned", "copied"):
            x = bare(x.a[1])
        x = unref(x)
        f = fld(x, "arch_tags")
        return f is not None and f.tag == "P" and f.a[1] == "Pybi" and isarg(f.a[0], "self")

    def root(t):
        t = strip(t)
        while t.tag in ("Iter", "Thin") and len(t.a) > 1:
            t = bare(t.a[1]) if t.tag == "Iter" else bare(t.a[1])
        return t

    def name(x, facts):
        nonlocal n
        n += 1
        x = strip(x)
        y = strip(x.a[3][0]) if x.tag == "A" and x.a[1] == "Pybi" else None
        if y is None or y.tag != "A" or "arch_tags" not in y.a[2]:
            ctx.fail("split-names", [fn.path, "name"], "a platform becomes %s" % show(x)[:200])
            return
        g = dict(zip(y.a[2], y.a[3]))
        same = all(fld(v, f) is not None and fld(v, f).tag == "P" and isarg(fld(v, f).a[0], "self") for f, v in ((f, unref(v)) for f, v in g.items() if f != "arch_tags"))
        ctx.ob("split-names", [fn.path, "rest"], same, "besides the platform, something else changes: %s" % show(y)[:250])
        at = strip(g["arch_tags"])
        if at.tag != "Arr" or len(at.a) != 1:
            ctx.fail("split-names", [fn.path, "one"], "the platforms of one name are %s" % show(at)[:200])
            return
        z = at.a[0]
        uni = [v for t, v in facts.items() if last(bare(t)) in ("ends_with", "strip_suffix") and tagel(bare(t).a[1][0]) and is_k(bare(bare(t).a[1][1]), "str", "_universal2")]
        mac = [v for t, v in facts.items() if last(bare(t)) in ("starts_with", "strip_prefix") and tagel(bare(t).a[1][0])]
        isuni = any(v is True or v == ("v", "Some") for v in uni)
        notuni = any(v is False or v == ("v", "None") for v in uni + mac)
        done = False
        for suf in ("_arm64", "_x86_64"):
            def pre(t):
                t = bare(t)
                if t.tag == "P" and t.a[1] == "Some":
                    t = bare(t.a[0])
                if last(t) in ("unwrap", "expect"):
                    t = bare(t.a[1][0])
                return last(t) in ("strip_suffix", "trim_end_matches") and tagel(t.a[1][0]) and is_k(bare(t.a[1][1]), "str", "_universal2")
            if fmt_is(z, pre, suf):
                done = True
                tags.add(suf)
                ctx.ob("split-names", [fn.path, "universal2"], isuni, "a platform that is not universal2 is replaced by %s" % suf)
        if not done:
            w = unref(z)
            if w.tag == "C" and last(w) in ("to_string",):
                w = bare(w.a[1][0])
            if w.tag == "Fmt" and len(fmt_pieces(w)) == 1:
                w = bare(fmt_pieces(w)[0])
                w = bare(w.a[0]) if w.tag == "Disp" else w
            ctx.ob("split-names", [fn.path, "kept"], tagel(w) and notuni, "a platform becomes %s" % show(z)[:200])
    over = lambda t: (fld(root(t), "arch_tags") or root(t)).tag == "P"
    its = ctx.iterations(fn, over, keep=lambda t: True, interesting=ctx.interesting("push", "Vec::push", "extend"))
    for q in its:
        if q.end == "panic":
            continue
        dd = [(a, z) for a, z in drops(ctx, strip(q.over)) if a != "flat_map"]
        ctx.ob("split-names", [fn.path, "all"], not dd and q.end == "next", "a platform is lost in %s" % [a for a, _ in dd])
        put = [e.args[-1] if last_name(e) == "push" else e.args[1] for e in q.evs if last_name(e) in ("push", "extend")]
        put = [x for x in put if strip(x).tag == "A"] or put
        ctx.ob("split-names", [fn.path, "each"], bool(put), "a platform becomes no name when %s" % show_facts(q.facts)[:250])
        for x in put:
            name(x, q.facts)
    for p in ctx.paths(fn):
        if p.end != "ret":
            bad = [e for e in p.facts.items()]
            # strip_suffix().unwrap() right after ends_with() cannot fail
            okk = any(last(bare(t)) == "ends_with" and v is True for t, v in p.facts.items()) and any(last(bare(t)) == "strip_suffix" and v == ("v", "None") for t, v in p.facts.items())
            ctx.ob("split-names", [fn.path, "panic"], okk, "splitting a name may stop the run")
            continue
        k = [v[1] for t, v in p.facts.items() if isarg(t, "self") and isinstance(v, tuple) and v[0] == "v"]
        r = p.v
        for c in [x for x in subset(r) if x.tag == "C" and x.a[0] == "collect"]:
            it = strip(c.a[1][0])
            dd = [(a, q) for a, q in drops(ctx, it) if a != "flat_map"]
            ctx.ob("split-names", [fn.path, "all"], not dd, "a platform is lost in %s" % [a for a, _ in dd])
        if k != ["Pybi"]:
            m += 1
            x = strip(r)
            ctx.ob("split-names", [fn.path, "others"], x.tag == "Arr" and len(x.a) == 1 and isarg(unref(x.a[0]), "self"), "the name of a wheel or sdist becomes %s" % show(x)[:200])
            continue
        for mm, a in history(r):
            if mm.rsplit("::", 1)[-1] not in ("push", "extend"):
                ctx.fail("split-names", [fn.path, "list"], "the names are changed by %s" % mm)
            elif not its:
                name(a[-1] if mm.endswith("push") else a[0], p.facts)
    ctx.floor("names out of a pybi name", n, 3)
    ctx.floor("names that are kept", m, 1)
    ctx.ob("split-names", [fn.path, "both"], tags == {"_arm64", "_x86_64"}, "universal2 becomes %s" % sorted(tags))


# ---------------------------------------------------------------------------------- P52: combining indexes
def p52_combine(ctx):
    ctx.rule("all-indexes", "every configured index is asked for the project, at <index>/<normalised name>/, and an error of any is an error")
    ctx.rule("all-files", "every file of every index is kept, under the version in its name")
    ctx.rule("order", "versions are listed newest first, and the files of a version in the order of their names")
    ctx.rule("memo", "within one run the files of a package are looked up once")
    ctx.rule("of-version", "the files of a version are exactly those listed under it")
    fn = ctx.fn(r"PackageDB.*::available_artifacts$")

    def urls(it):
        it = bare(it)
        while it.tag == "Iter" and it.a[0] in ("src", "cloned", "copied"):
            it = unref(it.a[1])
        return argfield(it, "self", "index_urls")

    def fetched(t):
        c = okof(t, "fetch_simple_api", "fetch::fetch_simple_api")
        if c is None or not argfield(c.a[1][0], "self", "http"):
            return False
        j = okof(unref(c.a[1][1]), "join", "Url::join")
        if j is None or bare(j.a[1][0]).tag != "Elem" or not urls(bare(j.a[1][0]).a[0]):
            return False
        return fmt_is(unref(j.a[1][1]), lambda t: isC(unref(t), "normalized", "PackageName::normalized") and isarg(unref(unref(t).a[1][0]), "p"), "/")
    n = k = 0
    its = ctx.iterations(fn, urls)
    for q in its:
        if q.end == "panic":
            continue
        if q.err():
            continue
        n += 1
        if q.left_early():
            ctx.fail("all-indexes", [fn.path, "left"], "the remaining indexes are not asked: %s" % q.show()[:200])
            continue
        got = [t for t, v in q.facts.items() if v in (("v", "Some"), ("v", "None")) and fetched(t)]
        ctx.ob("all-indexes", [fn.path, "asked"], len(got) == 1, "an index is passed over: %s" % "; ".join("%s=%s" % (show(a)[:120], b) for a, b in q.facts.items()))
        if len(got) == 1 and q.facts[got[0]] == ("v", "Some"):
            k += 1
            pk = [t for t, v in q.facts.items() if v == ("v", "Ok") and isC(bare(t), "pack_by_version", "project_info::pack_by_version") and bare(bare(t).a[1][0]) is bare(mk("P", got[0], "Some", "0"))]
            ctx.ob("all-indexes", [fn.path, "used"], bool(pk), "the page of an index is not used: %s" % "; ".join("%s=%s" % (show(a)[:120], b) for a, b in q.facts.items()))
    ctx.floor("iterations over the indexes", n, 2)
    ctx.floor("pages used", k, 1)
    n = c = 0
    for p in ctx.paths(fn):
        if not p.ok():
            continue
        v = strip(p.val())
        if v.tag == "P" and isC(bare(v.a[0]), "get", "FrozenMap::get"):
            c += 1
            b = bare(v.a[0])
            ctx.ob("memo", [fn.path, "found"], argfield(b.a[1][0], "self", "artifacts") and isarg(unref(b.a[1][1]), "p") and not p.has("fetch_simple_api"), "what is remembered is %s" % show(b))
            continue
        if not isC(v, "insert", "FrozenMap::insert"):
            ctx.fail("memo", [fn.path, "result"], "the result is %s, which is not remembered" % show(v)[:200])
            continue
        n += 1
        ctx.ob("memo", [fn.path, "remembered"], argfield(v.a[1][0], "self", "artifacts") and isarg(unref(v.a[1][1]), "p"), "the result is remembered as %s" % show(v)[:200])
        m = v.a[1][2]
        muts = {x.rsplit("::", 1)[-1] for x, _ in history(m)}
        ctx.ob("all-files", [fn.path, "mutations"], muts <= {"pack_by_version", "values_mut", "iter_mut", "sort_unstable_by", "sort_by", "sort_keys", "sort_unstable_keys", "sort_by_cached_key", "reverse"}, "the files are changed by %s" % sorted(muts))
        o = sort_order(ctx, m, lambda t: bare(t).tag == "F" and bare(t).a[1] == "0" and bare(bare(t).a[0]).tag in ("Elem", "Elem2"))
        ctx.ob("order", [fn.path, "versions"], o == "desc", "the versions are listed %s" % o)
    ctx.floor("ways to look files up", n, 1)
    ctx.floor("ways to remember", c, 1)
    # values sorted by name
    srt = 0
    for q in ctx.iterations(fn, lambda it: any(isC(x, "values_mut", "IndexMap::values_mut", "iter_mut") for x in subset(bare(it)))):
        if q.end == "next":
            srt += 1
            okk = False
            for e in q.evs:
                if e.kind == "call" and e.name.rsplit("::", 1)[-1].startswith("sort"):
                    a = [x for x in e.args[1:] if isinstance(x, T)]
                    byname = any(y.tag == "F" and y.a[1] == "name" for x in a for y in subset(bare(x)))
                    okk = okk or byname and sort_order(ctx, mk("Acc", mk("K", "sorted", "files"), frozenset({(e.name, tuple(y for y in a if any(z.tag == "F" and z.a[1] == "name" for z in subset(bare(y)))))})), lambda t: any(y.tag == "F" and y.a[1] == "name" for y in subset(t))) != "desc"
                elif e.kind == "call" and e.name.rsplit("::", 1)[-1] in ("retain", "dedup", "dedup_by", "dedup_by_key", "retain_mut", "split_off", "extract_if", "take", "append", "extend", "push", "insert", "truncate", "pop", "remove", "clear", "drain", "swap_remove"):
                    ctx.fail("all-files", [fn.path, e.name.rsplit("::", 1)[-1]], "files of a version are dropped")
            ctx.ob("order", [fn.path, "files"], okk, "the files of a version are not put in the order of their names")
    ctx.floor("versions whose files are ordered", srt, 1)
    # pack_by_version
    pk = ctx.fn(r"project_info::pack_by_version$")

    def files(it):
        it = bare(it)
        while it.tag == "Iter" and it.a[0] in ("src", "cloned", "copied"):
            it = unref(it.a[1])
        return argfield(it, "pi", "artifacts")
    n = 0
    for q in ctx.iterations(pk, files):
        n += 1
        if q.left_early() or q.end == "panic":
            ctx.fail("all-files", [pk.path, "left"], "files of a page are left out")
            continue
        pu = q.calls("push")
        okk = False
        if len(pu) == 1:
            el = bare(pu[0].args[1])
            slot = bare(pu[0].args[0])
            if slot.tag == "C" and last(slot) in ("or_insert_with", "or_default", "or_insert"):
                ent = bare(slot.a[1][0])
                ver = unref(ent.a[1][1]) if isC(ent, "entry", "IndexMap::entry") and isarg(unref(ent.a[1][0]), "map") else None
                okk = el.tag == "Elem" and files(el.a[0]) and ver is not None and isC(ver, "version", "ArtifactName::version") and fld(unref(ver.a[1][0]), "name") is el
        ctx.ob("all-files", [pk.path, "kept"], okk, "a file is not filed under its version: %s" % "; ".join(str(e)[:150] for e in q.evs))
    ctx.floor("iterations over a page's files", n, 1)
    for p in ctx.paths(pk, interesting=lambda e: e.is_("retain", "insert", "shift_remove", "swap_remove", "clear", "remove", "truncate", "pop", "dedup")):
        for e in p.evs:
            ctx.fail("all-files", [pk.path, e.name.rsplit("::", 1)[-1]], "files are dropped by %s" % str(e)[:200])
    # ArtifactName::version
    vn = ctx.fn(r"ArtifactName::version$")
    n = 0
    for p in ctx.paths(vn):
        if p.end == "ret":
            n += 1
            v = unref(p.v)
            k = [w[1] for t, w in p.facts.items() if isarg(t, "self") and isinstance(w, tuple) and w[0] == "v"]
            f = fld(v, "version")
            ctx.ob("all-files", [vn.path, k[0] if k else "?"], f is not None and any(isarg(x, "self") for x in subset(f)), "the version of a name is %s" % show(v)[:150])
    ctx.floor("kinds of names", n, 3)
    # artifacts_for_version
    av = ctx.fn(r"PackageDB.*::artifacts_for_version$")
    a = b = 0

    def found(t):
        t = bare(t)
        if not isC(t, "get", "IndexMap::get") or not isarg(unref(t.a[1][1]), "v"):
            return False
        c = okof(unref(t.a[1][0]), "available_artifacts", "PackageDB::available_artifacts")
        return c is not None and isarg(unref(c.a[1][0]), "self") and isarg(unref(c.a[1][1]), "p")
    for p in ctx.paths(av):
        if not p.ok():
            continue
        v = unref(p.val())
        if v.tag == "P" and v.a[1] == "Some":
            a += 1
            ctx.ob("of-version", [av.path, "found"], found(v.a[0]), "the files of a version are %s" % show(v)[:200])
        else:
            b += 1
            empty = v.tag == "Static" and "NO_ARTIFACTS" in v.a[0] or v.tag == "Arr" and not v.a or terms_empty(v)
            ctx.ob("of-version", [av.path, "none"], empty and any(w == ("v", "None") and found(t) for t, w in p.facts.items()), "the files of a version are %s although it may be listed" % show(v)[:200])
    ctx.floor("ways to find a version's files", a, 1)
    ctx.floor("ways to find none", b, 1)


def terms_empty(v):
    return v.tag == "C" and last(v) in ("new", "default") and not v.a[1] or v.tag == "K" and v.a[1] in ((), [])


# ---------------------------------------------------------------------------------- P53: metadata
def p53_metadata(ctx):
    ctx.rule("metadata-of", "metadata is returned with the artifact it was read or built from")
    ctx.rule("metadata-cached", "what is cached as an artifact's metadata is that artifact's, filed under its own hash; without one nothing is cached or looked up")
    ctx.rule("metadata-order", "the network is used only after the caches came up empty, and nothing is built when a binary artifact exists")
    ctx.rule("metadata-error", "only 'not cached' moves on to the next source; any other failure is reported")
    ctx.rule("artifact-kind", "an artifact is only opened as the kind its name says, and fetched with its own hash")
    fn = ctx.fn(r"PackageDB.*::get_metadata$")
    fetchers = ("_get_artifact", "get_artifact", "get_lazy", "get_hashed", "locally_built_metadata", "metadata_from_cache", "get_locally_built_binary")
    n = {}

    def elem(t):
        t = unref(t)
        if t.tag != "Elem":
            return False
        x = unref(t.a[0])
        while x.tag == "Iter":
            x = unref(x.a[1])
        return isarg(x, "artifacts")

    def source(t):
        """(how, artifact) the blob/metadata pair or blob t comes from"""
        t = bare(t)
        if t.tag == "F" and t.a[1] in ("0", "1"):
            t = bare(t.a[0])
        if t.tag == "P" and t.a[1] == "Ok":
            t = bare(t.a[0])
        if isC(t, "parse_metadata", "BinaryArtifact::parse_metadata"):
            c = okof(unref(t.a[1][0]), "metadata_from_cache", "PackageDB::metadata_from_cache")
            return ("cache", bare(c.a[1][1])) if c is not None else None
        if isC(t, "metadata", "BinaryArtifact::metadata"):
            c = okof(unref(t.a[1][0]), "_get_artifact", "PackageDB::_get_artifact")
            if c is not None:
                only = "OnlyIfCached" in show(c.a[1][2])
                return ("local" if only else "remote", bare(c.a[1][1]))
            c = okof(unref(t.a[1][0]), "open_artifact", "PackageDB::open_artifact")
            if c is not None:
                g = okof(unref(c.a[1][2]), "get_lazy", "Http::get_lazy", "get_hashed", "Http::get_hashed")
                if g is not None and bare(g.a[1][1]) is bare(c.a[1][1]):
                    return ("remote", bare(c.a[1][1]))
            return None
        if t.tag == "P" and t.a[1] == "Some" and isC(bare(t.a[0]), "locally_built_metadata", "BinaryArtifact::locally_built_metadata"):
            return ("built", bare(bare(t.a[0]).a[1][1]))
        return None
    intr = lambda e: e.is_(*fetchers) or e.is_("open_artifact", "put_metadata_in_cache", "metadata", "parse_metadata")
    for p in ctx.paths(fn, interesting=intr, pure=r"ArtifactInfo::is$|ArtifactName::inner_as"):
        calls = [e.name.rsplit("::", 1)[-1] for e in p.evs if e.kind == "call"]
        for e in p.calls("put_metadata_in_cache"):
            s = source(e.args[2])
            ctx.ob("metadata-cached", [fn.path, "pair"], s is not None and s[1] is bare(e.args[1]) and s[0] != "cache", "cached as metadata of %s: %s" % (show(e.args[1])[:80], show(e.args[2])[:200]))
        if p.end == "ret" and not p.ok() and not p.err():
            ctx.fail("metadata-of", [fn.path, "result"], "the result is %s" % show(p.v)[:200])
        # order of sources
        ix = {"metadata_from_cache": 0, "_get_artifact": 1, "get_lazy": 2, "locally_built_metadata": 3}
        for e in p.evs:
            if e.is_("_get_artifact") and "OnlyIfCached" not in show(e.args[2]):
                ctx.ob("metadata-order", [fn.path, "whole"], False, "a whole artifact is fetched to read its metadata: %s" % str(e)[:150])
        if not p.ok():
            continue
        v = strip(p.val())
        s = source(v.a[1]) if v.tag == "Tup" and len(v.a) == 2 else None
        if s is None:
            ctx.fail("metadata-of", [fn.path, "source"], "the metadata returned is %s" % show(v)[:300])
            continue
        how, ai = s
        n[how] = n.get(how, 0) + 1
        ctx.ob("metadata-of", [fn.path, how], bare(v.a[0]) is ai and elem(ai), "metadata of %s is returned as that of %s" % (show(ai)[:100], show(v.a[0])[:100]))
        if how != "cache":
            put = [t for t, w in p.facts.items() if w == ("v", "Ok") and isC(bare(t), "put_metadata_in_cache", "PackageDB::put_metadata_in_cache")]
            ctx.ob("metadata-cached", [fn.path, "put " + how], len(put) == 1, "metadata is returned without remembering it for its artifact")
        if how in ("local", "remote"):
            kind = any(last(bare(t)) in ("is",) and w is True and bare(bare(t).a[1][0]) is ai or last(bare(t)) == "inner_as" and w == ("v", "Some") for t, w in p.facts.items())
            ctx.ob("artifact-kind", [fn.path, how], kind, "an artifact is opened without looking at its kind")
    for h in ("cache", "local", "remote", "built"):
        ctx.floor("ways to get metadata: " + h, n.get(h, 0), 1)
    # loops: caches are searched exhaustively before anything else is tried
    def over(it):
        it = bare(it)
        while it.tag == "Iter":
            it = unref(it.a[1])
        return isarg(unref(it), "artifacts")
    aft = []
    k = 0
    for q in ctx.iterations(fn, over, interesting=intr, pure=r"ArtifactInfo::is$|ArtifactName::inner_as", after=aft):
        if q.end == "panic" or q.err():
            # an error must stem from a source's failure other than "not cached"
            if q.err():
                nc = [t for t, w in q.facts.items() if last(bare(t)) == "downcast_ref" and w == ("v", "Some")] + [t for t, w in q.facts.items() if last(bare(t)) == "is" and w is True and any(isC(x, "_get_artifact", "PackageDB::_get_artifact") for x in subset(bare(t)))]
                ctx.ob("metadata-error", [fn.path, "not cached"], not nc, "an artifact that is not cached ends the search")
            continue
        if q.end != "next":
            continue
        k += 1
        for t, w in q.facts.items():
            b = bare(t)
            if w == ("v", "Some") and (isC(b, "metadata_from_cache", "PackageDB::metadata_from_cache") or isC(b, "locally_built_metadata", "BinaryArtifact::locally_built_metadata")):
                ctx.fail("metadata-order", [fn.path, "dropped"], "metadata that was found is passed over: %s" % show(b)[:100])
            if w == ("v", "Err") and isC(b, "_get_artifact", "PackageDB::_get_artifact"):
                nc = [1 for t2, w2 in q.facts.items() if last(bare(t2)) == "downcast_ref" and w2 == ("v", "Some") and typed_nc(bare(t2)) and b in subset(bare(t2))] + \
                     [1 for t2, w2 in q.facts.items() if last(bare(t2)) == "is" and w2 is True and b in subset(bare(t2))]
                ctx.ob("metadata-error", [fn.path, "failure"], bool(nc), "a failure to open a cached artifact is passed over")
            if w == ("v", "Ok") and isC(b, "_get_artifact", "PackageDB::_get_artifact"):
                ctx.fail("metadata-order", [fn.path, "cached artifact dropped"], "a cached artifact is passed over")
    ctx.floor("iterations over the artifacts", k, 3)
    order(ctx, fn, intr)
    # the cache
    mg = ctx.fn(r"PackageDB.*::metadata_from_cache$")
    hs = lambda t: (lambda x: x.tag == "P" and x.a[1] == "Some" and argfield(x.a[0], "ai", "hash"))(unref(t))
    n = 0
    for p in ctx.paths(mg):
        for e in p.calls("KVFileStore::get", "get"):
            if argfield(e.args[0], "self", "metadata_cache"):
                ctx.ob("metadata-cached", [mg.path, "key"], hs(e.args[1]), "metadata is looked up under %s" % show(e.args[1])[:150])
        r = strip(p.v) if p.end == "ret" else None
        if r is not None and not (r.tag == "A" and r.a[1] == "None"):
            n += 1
            x = bare(r.a[3][0]) if r.tag == "A" else bare(r)
            g = [y for y in subset(x) if isC(y, "get", "KVFileStore::get") and argfield(y.a[1][0], "self", "metadata_cache")]
            ctx.ob("metadata-cached", [mg.path, "value"], len(g) == 1, "what is found in the cache is %s" % show(x)[:200])
    ctx.floor("ways to find cached metadata", n, 1)
    mp = ctx.fn(r"PackageDB.*::put_metadata_in_cache$")
    n = 0
    for p in ctx.paths(mp):
        for e in p.evs:
            if e.kind == "call" and e.args and argfield(e.args[0], "self", "metadata_cache"):
                n += 1
                ctx.ob("metadata-cached", [mp.path, "key"], hs(e.args[1]), "metadata is filed under %s" % show(e.args[1])[:150])
        for e in p.calls("write_all", "write"):
            ctx.ob("metadata-cached", [mp.path, "value"], isarg(unref(e.args[1]), "blob"), "what is cached is %s" % show(e.args[1])[:150])
        if p.ok() and any(argfield(t, "ai", "hash") and v == ("v", "Some") for t, v in p.facts.items()):
            okk = any(v == ("v", "Ok") and isC(bare(t), "get_or_set", "KVFileStore::get_or_set") for t, v in p.facts.items())
            ctx.ob("metadata-cached", [mp.path, "failure"], okk, "a failure to cache metadata is not reported")
    ctx.floor("ways to cache metadata", n, 1)
    for f, bi, t, fr in ctx.callers("KVFileStore::get_or_set", "KVFileStore::get"):
        pass
    # opening
    op = ctx.fn(r"PackageDB.*::open_artifact$")
    n = 0
    for p in ctx.paths(op, pure=r"inner_as"):
        for e in p.calls("Artifact::new", "new"):
            if len(e.args) != 2:
                continue
            n += 1
            x = unref(e.args[0])
            c = x.tag == "P" and x.a[1] in ("Some", "Ok") and bare(x.a[0])
            c = c and (isC(c, "inner_as", "ArtifactName::inner_as") and fld(unref(c.a[1][0]), "name") is not None and isarg(fld(unref(c.a[1][0]), "name"), "ai"))
            ctx.ob("artifact-kind", [op.path, "name"], bool(c) and isarg(unref(e.args[1]), "body"), "an artifact is opened as %s" % show(e.args[0])[:200])
    ctx.floor("ways to open an artifact", n, 1)
    ga = ctx.fn(r"PackageDB.*::_get_artifact$")
    n = 0
    for p in ctx.paths(ga):
        for e in p.calls("open_artifact"):
            n += 1
            c = okof(unref(e.args[2]), "get_hashed", "Http::get_hashed")
            okk = c is not None and isarg(unref(e.args[1]), "ai") and argfield(unref(c.a[1][1]), "ai", "url") and argfield(unref(c.a[1][2]), "ai", "hash") and isarg(unref(c.a[1][3]), "cache_mode") and argfield(c.a[1][0], "self", "http")
            ctx.ob("artifact-kind", [ga.path, "fetched"], okk, "an artifact is opened from %s" % show(e.args[2])[:250])
    ctx.floor("ways to fetch an artifact", n, 1)
    gg = ctx.fn(r"PackageDB.*::get_artifact$")
    for p in ctx.paths(gg):
        v = bare(p.v) if p.end == "ret" else mk("K", "x", 0)
        if p.err():
            continue
        x = bare(p.val().a[0]) if p.ok() and strip(p.val()).tag == "P" else v
        okk = isC(x, "_get_artifact", "PackageDB::_get_artifact") and isarg(unref(x.a[1][1]), "ai") and isarg(unref(x.a[1][0]), "self")
        ctx.ob("artifact-kind", [gg.path, "same"], okk, "get_artifact gives %s" % show(x)[:200])


def typed_nc(t):
    return len(t.a) > 2 and "NotCached" in str(t.a[2])


def order(ctx, fn, intr):
    """no source is tried before the cheaper ones were gone through: by dominance in the control-flow graph"""
    names = {}
    rank = {"metadata_from_cache": 0, "_get_artifact": 1, "get_lazy": 2, "locally_built_metadata": 3}
    seen = set()
    for p in ctx.paths(fn, interesting=intr, pure=r"ArtifactInfo::is$|ArtifactName::inner_as"):
        r = -1
        for e in p.evs:
            k = e.name.rsplit("::", 1)[-1]
            if k in rank:
                if rank[k] < r:
                    ctx.fail("metadata-order", [fn.path, k], "%s is tried after a more expensive source" % k)
                r = max(r, rank[k])
                seen.add(k)
        # a build is only attempted when no artifact matches
        if any(e.is_("locally_built_metadata") for e in p.evs) and any(e.is_("get_lazy") for e in p.evs):
            ctx.fail("metadata-order", [fn.path, "built"], "a build is attempted although there is a binary artifact")
        if any(e.is_("get_lazy", "locally_built_metadata") for e in p.evs):
            # both caches were searched to the end: no cached answer was found on the way
            found = [t for t, w in p.facts.items() if w == ("v", "Some") and isC(bare(t), "metadata_from_cache", "PackageDB::metadata_from_cache")]
            ctx.ob("metadata-order", [fn.path, "cached first"], not found, "the network is used although the metadata is cached")
    for k in rank:
        ctx.ob("metadata-order", [fn.path, "uses " + k], k in seen, "%s is never tried" % k)


RULES = {"P22": [p22_page], "P52": [p52_combine], "P53": [p53_metadata], "P54": [p54_elements, p54_link, p54_split]}
