"""HTTP layer: hash checking, cache discipline, redirects, statuses, ranges."""
from rulelib import *

KV = [r"^posy::kvstore::", r"<posy::kvstore::", r"^posy::util::"]
H = r"^posy::package_db::http::http::"
DO = ("posy::package_db::http::ureq_glue::do_request_ureq",)

ALGS = {"sha256": "SHA256", "sha384": "SHA384", "sha512": "SHA512", "sha1": "SHA1_FOR_LEGACY_USE_ONLY",
        "sha512_256": "SHA512_256"}


def param(t, name):
    t = strip(peel(t))
    while t.tag in ("F", "P", "V") and t.tag != "Arg":
        t = t.a[0]
    return t.tag == "Arg" and t.a[1] == name


# ---------------------------------------------------------------------------------- P06
def p06_hashes(ctx):
    ctx.rule("hash-feed", "the checker digests exactly the bytes that were written through it")
    ctx.rule("hash-compare", "finish() succeeds only if the whole computed digest equals the whole expected digest")
    ctx.rule("hash-alg", "the algorithm used is the one the hash names; unknown names are errors")
    ctx.rule("hash-gate", "a downloaded artifact is published in the by-hash store only after the whole body went through the checker of the very hash that keys the entry, and finish() succeeded")
    ctx.rule("hash-used", "an artifact with a known hash is served from the by-hash store under that hash")
    ctx.rule("hash-store-writers", "nothing else writes to the by-hash store")
    W = ctx.method("std::io::Write", "HashChecker", "write")
    n = 0
    for p in ctx.paths(W):
        if not p.ok():
            continue
        n += 1
        ws = p.calls("std::io::Write::write", "std::io::Write::write_all")
        us = p.calls("ring::digest::Context::update")
        okk = len(ws) == 1 and len(us) == 1 and p.facts.get(ws[0].ret) == ("v", "Ok")
        if okk:
            data = us[0].args[1]
            wr = mk("P", ws[0].ret, "Ok", "0")
            buf = ws[0].args[1]
            if ws[0].is_("std::io::Write::write_all"):
                okk = strip(data) is strip(buf)
            else:
                okk = is_prefix(data, buf, p, ws[0].ret) and written_len(p.val(), ws[0].ret)
        ctx.ob("hash-feed", [W.path, "write"], okk, "the digest is not fed exactly the bytes written: %s" % p.show()[:600])
    ctx.floor("successful paths of HashChecker::write", n, 1)
    for f in ctx.p.impl_fns("std::io::Write", "HashChecker"):
        if f.path.rsplit("::", 1)[-1] not in ("write", "flush"):
            for p in ctx.paths(f):
                ws = [e for e in p.calls("write", "write_all", "write_vectored", "write_fmt")]
                us = p.calls("ring::digest::Context::update")
                ctx.ob("hash-feed", f.path, len(ws) == len(us) and all(strip(a.args[1]) is strip(b.args[1]) for a, b in zip(ws, us) if a.is_("write_all")) and all(a.is_("write_all") for a in ws),
                       "bytes written by %s bypass the digest" % f.path)
    fin = ctx.fn(r"HashChecker::<.*>::finish$")
    n = 0
    for p in ctx.paths(fin):
        if p.end == "ret" and not p.err():
            n += 1
            eq = [(t, v) for t, v in p.facts.items() if t.tag == "Bin" and t.a[0] == "Eq" and v is True]
            okk = any({strip_ref(a), strip_ref(b)} and is_digest(x) and is_expected(y)
                      for t, _ in eq for a, b in [(t.a[1], t.a[2])] for x, y in ((a, b), (b, a)))
            okk = okk or any(t.tag == "C" and v == ("v", "Ok") and name_is(t.a[0], "verify_slices_are_equal")
                             and any(is_digest(x) for x in t.a[1]) and any(is_expected(x) for x in t.a[1]) for t, v in p.facts.items())
            ctx.ob("hash-compare", fin.path, okk, "finish() can succeed without comparing the digests in full: %s" % p.show()[:500])
    ctx.floor("successful paths of finish", n, 1)
    chk = ctx.fn(r"ArtifactHash::checker$")
    n = 0
    for p in ctx.paths(chk):
        if p.ok():
            n += 1
            ns = p.calls("ring::digest::Context::new")
            st = ns[0].args[0] if len(ns) == 1 else None
            modes = [v[1] for t, v in p.facts.items() if isinstance(v, tuple) and v[0] == "i" and t.tag == "F" and t.a[1] == "mode"]
            okk = st is not None and len(modes) == 1 and st.tag in ("Static", "Const") and st.a[0].rsplit("::", 1)[-1] == ALGS.get(modes[0], "?")
            hc = p.val()
            okk = okk and hc.tag == "A" and strip(peel(mk("F", hc, "expected"))).tag == "Arg" and param(mk("F", hc, "expected"), "self") \
                and strip(peel(mk("F", hc, "state"))) is ns[0].ret and param(mk("F", hc, "inner"), "inner")
            ctx.ob("hash-alg", [chk.path, str(modes)], okk, "%s" % p.show()[:500])
    ctx.floor("supported hash algorithms", n, 1)
    # from_hex: the whole digest is kept
    fh = ctx.fn(r"ArtifactHash::from_hex$")
    n = 0
    for p in ctx.paths(fh):
        if p.ok():
            n += 1
            v = p.val()
            raw = strip(peel(mk("F", v, "raw_data")))
            okk = raw.tag == "P" and isC(raw.a[0], "decode") and strip(raw.a[0].a[1][1]).tag == "Arg" and strip(raw.a[0].a[1][1]).a[1] == "hex" \
                and "HEX" in show(raw.a[0].a[1][0]) and not v_acc(mk("F", v, "raw_data"))
            ctx.ob("hash-compare", [fh.path, "raw_data"], okk, "the expected digest is %s" % show(raw))
    ctx.floor("successful paths of from_hex", n, 1)
    # get_hashed
    g = ctx.fn(H + r"HttpInner::get_hashed$")
    npub = [0]
    bad = []

    def on_event(E, st, ev):
        if ev.kind != "call":
            return
        if ev.is_("tempfile::NamedTempFile::persist", "std::fs::rename"):
            npub[0] += 1
            f = [t for t, v in st.facts.items() if v == ("v", "Ok") and isC(t, "HashChecker::finish", "finish")]
            if not f:
                bad.append(("hash-gate", "%s at %s publishes without a successful finish()" % (ev.name, ev.site)))
                return
            c = peel(f[0]).a[1][0]
            chk = strip(c)
            if not (chk.tag == "P" and isC(chk.a[0], "checker") and param(chk.a[0].a[1][0], "maybe_hash")):
                bad.append(("hash-gate", "the checker at %s is not made from the expected hash: %s" % (ev.site, show(c))))
            cp = [x for x in (c.a[1] if c.tag == "Acc" else ()) if x[0].endswith("::copy") or x[0].endswith("::write_all")]
            if len(cp) != 1 or not any(x.tag == "C" and x.a[0].endswith("into_body") for x in subset(cp[0][1][0])):
                bad.append(("hash-gate", "the response body does not go through the checker before %s" % ev.site))
            elif any(n in x.a[0] for x in subset(cp[0][1][0]) if x.tag == "C" for n in ("::take", "::skip")):
                bad.append(("hash-gate", "only a part of the body is copied"))
            cps = [t for t, v in st.facts.items() if v == ("v", "Ok") and isC(t, "std::io::copy")]
            if not cps:
                bad.append(("hash-gate", "a failed transfer is not an error before %s" % ev.site))
            key = [x for x in subset(peel(ev.args[-1])) if isC(x, "posy::kvstore::PathKey::key")]
            if not key or not any(param(k.a[1][0], "maybe_hash") for k in key):
                bad.append(("hash-gate", "the entry published at %s is not keyed by the expected hash" % ev.site))
            w = [x for x in subset(ev.args[0]) if x.tag == "Acc" and any(isC(y, "tempfile::NamedTempFile::new_in") for y in subset(x.a[0]))]
            for x in w:
                for nme, _ in x.a[1]:
                    if not (nme.endswith("ArtifactHash::checker") or nme.endswith("sync_data") or nme.endswith("as_file") or nme.endswith("HashChecker::finish") or "::copy" in nme):
                        bad.append(("hash-gate", "%s writes to the staging file behind the checker's back" % nme))
    ctx.explore(g, inline=KV, on_event=on_event, keep=lambda t: any(isC(x, "finish", "std::io::copy", "checker") for x in subset(t)) or t.tag == "Arg")
    for r, m in sorted(set(bad)):
        ctx.fail(r, g.path, m)
    ctx.ob("hash-gate", [g.path, "all publications"], not bad, "")
    ctx.floor("by-hash publications reached", npub[0], 1)
    n = 0
    for p in ctx.paths(g):
        if p.end != "ret":
            continue
        hv = [v for t, v in p.facts.items() if t.tag == "Arg" and t.a[1] == "maybe_hash"]
        mode = [v for t, v in p.facts.items() if t.tag == "Arg" and t.a[1] == "cache_mode"]
        if p.ok() and hv == [("v", "Some")] and mode and mode[0] != ("v", "NoStore"):
            n += 1
            v = strip(p.val())
            src = [x for x in subset(v) if isC(x, "KVFileStore::get_or_set", "KVFileStore::get")]
            okk = bool(src) and all("hash_cache" in show(x.a[1][0]) and param(x.a[1][1], "maybe_hash") for x in src)
            ctx.ob("hash-used", [g.path, str(mode[0][1])], okk, "with a known hash the result is %s" % show(v)[:300])
    ctx.floor("paths serving an artifact with a known hash", n, 2)
    # who touches the by-hash store
    k = 0
    for fn in ctx.p.user_fns():
        if is_test(fn):
            continue
        for f, bi, t, fr in ctx.p.call_sites(fn):
            nm = norm_name(callee_names(fr)[0])
            if re.search(r"kvstore::KVFileStore::(get_or_set|lock|lock_if_exists|get)$", nm):
                recv = place_fields(f, bi, t["args"][0])
                if "hash_cache" in recv:
                    k += 1
                    r = root_fn(ctx.p, f)
                    ctx.ob("hash-store-writers", r.path, r.path == g.path or r.path not in base_fns() or nm.endswith("::get"),
                           "%s uses the by-hash store at %s" % (r.path, t["sp"]))
    ctx.floor("uses of the by-hash store", k, 2)


def place_fields(fn, bi, arg):
    """field names that occur in the definition chain of a call argument (flow-insensitive)"""
    out = set()
    todo = [arg["p"][0]] if "p" in arg else []
    for e in arg.get("p", [])[1:]:
        if isinstance(e, list) and e[0] == "f":
            out.add(e[2])
    seen = set()
    while todo:
        l = todo.pop()
        if l in seen:
            continue
        seen.add(l)
        for b in fn.blocks:
            for s in b["s"]:
                if s[0] == "=" and s[1] == [l]:
                    r = s[2]
                    ps = [r.get("p")] if isinstance(r.get("p"), list) else []
                    if "o" in r and isinstance(r["o"], dict) and "p" in r["o"]:
                        ps.append(r["o"]["p"])
                    for p in ps:
                        todo.append(p[0])
                        for e in p[1:]:
                            if isinstance(e, list) and e[0] == "f":
                                out.add(e[2])
            t = b["t"]
            if t["t"] == "call" and t["d"] == [l]:
                for a in t["args"]:
                    if "p" in a:
                        todo.append(a["p"][0])
                        for e in a["p"][1:]:
                            if isinstance(e, list) and e[0] == "f":
                                out.add(e[2])
    return out


def strip_ref(t):
    return strip(peel(t))


def v_acc(t):
    t = peel(t)
    return t.tag in ("Acc", "Upd")


def is_digest(t):
    t = strip(peel(t))
    return isC(t, "ring::digest::Context::finish") and t.a[1][0].tag == "F" and t.a[1][0].a[1] == "state"


def is_expected(t):
    t = strip(peel(t))
    return t.tag == "F" and t.a[1] == "raw_data" and strip(t.a[0]).tag == "F" and strip(t.a[0]).a[1] == "expected"


def is_prefix(data, buf, p, wret):
    """data is buf[..written] (or buf, where written is known to equal its length)"""
    data = strip(data)
    if data.tag == "Idx" and strip(data.a[0]) is strip(buf):
        r = data.a[1]
        if r.tag == "A":
            d = dict(zip(r.a[2], r.a[3]))
            if r.a[1] == "RangeTo":
                return written_len(d.get("end"), wret)
            if r.a[1] == "Range":
                return is_k(d.get("start"), "int", 0) and written_len(d.get("end"), wret)
    return False


def written_len(t, wret):
    t = strip(t)
    return t.tag == "P" and t.a[0] is wret and t.a[1] == "Ok"


# ---------------------------------------------------------------------------------- P15
def p15_keys(ctx):
    ctx.rule("key-complete", "the cache key contains the request's method and its full URI, each preceded by its own length at fixed width")
    ctx.rule("key-used", "the response cache is locked under the key computed from the very request that is sent")
    k = ctx.fn(H + r"key_for_request$")
    n = 0
    for p in ctx.paths(k):
        if p.end != "ret":
            continue
        n += 1
        seq = []
        for e in p.evs:
            if e.kind == "call" and e.is_("extend", "extend_from_slice", "append", "push", "push_str", "write_all"):
                seq.append(e.args[1])
        okk = len(seq) >= 2 and framed(seq)
        ctx.ob("key-complete", k.path, okk, "the key is built from: %s" % "; ".join(show(x) for x in seq))
    ctx.floor("paths of key_for_request", n, 1)
    o = ctx.fn(H + r"HttpInner::one_request$")
    m = 0
    for p in ctx.paths(o, interesting=ctx.interesting("KVFileStore::lock", "KVFileStore::get_or_set", "KVFileStore::lock_if_exists", "KVFileStore::get")):
        for e in p.evs:
            m += 1
            a = e.args[1]
            ks = [x for x in subset(a) if isC(x, "key_for_request")]
            ctx.ob("key-used", [o.path, e.name], len(ks) == 1 and strip(ks[0].a[1][0]).tag == "Arg" and strip(ks[0].a[1][0]).a[1] == "request"
                   and not any(x.tag == "Idx" for x in subset(a)), "the cache is consulted under %s" % show(a))
    ctx.floor("uses of the response cache", m, 1)


def component(t):
    """which part of the request a value is: method | uri"""
    t = unel(t)
    txt = [x for x in subset(t) if x.tag == "C"]
    meth = any(name_is(x.a[0], "Request::method") or name_is(x.a[0], "method") for x in txt)
    uri = [x for x in txt if name_is(x.a[0], "Request::uri") or name_is(x.a[0], "uri")]
    if any(x.tag == "Idx" for x in subset(t)):
        return None
    part = [x for x in txt if any(name_is(x.a[0], s) for s in ("Uri::path", "Uri::host", "Uri::query", "Uri::authority", "Uri::scheme", "Uri::path_and_query",
                                                              "to_lowercase", "to_ascii_lowercase", "trim", "trim_end_matches", "trim_end", "replace", "split"))]
    if part:
        return None
    if meth and not uri:
        return "method"
    if uri and not meth:
        return "uri"
    return None


def unel(t):
    t = strip(t)
    while t.tag == "Elem":
        t = strip(t.a[0])
    return t


def framed(seq):
    """[len(method), method, len(uri), uri] in either order, fixed-width lengths; the last component needs no length"""
    comps = []
    i = 0
    while i < len(seq):
        x = unel(seq[i])
        if isC(x, "to_le_bytes", "to_be_bytes", "to_ne_bytes") or (x.tag == "C" and x.a[0].endswith("_bytes") and any(y.tag == "C" and y.a[0].endswith("::len") for y in subset(x)) and "to_" in x.a[0]):
            ln = [y for y in subset(x) if y.tag == "C" and y.a[0].endswith("::len")]
            if not ln or i + 1 >= len(seq):
                return False
            nxt = unel(seq[i + 1])
            if component(ln[0].a[1][0]) is None or component(ln[0].a[1][0]) != component(nxt):
                return False
            comps.append((component(nxt), True))
            i += 2
        else:
            comps.append((component(x), False))
            i += 1
    names = [c for c, _ in comps]
    if None in names or set(names) != {"method", "uri"} or len(names) != 2:
        return False
    return comps[0][1]


# ---------------------------------------------------------------------------------- P16 / P17
def mode_of(st):
    for t, v in st.facts.items():
        if t.tag == "Arg" and t.a[1] == "cache_mode":
            return v
    return None


def p16_modes(ctx):
    ctx.rule("nostore", "in no-store mode the stored responses are neither read nor written")
    ctx.rule("only-cached", "in only-if-cached mode the network is never used, and a miss or a stale entry is the NotCached error")
    ctx.rule("mode-passed", "the cache mode chosen by the caller is the one used for every request made on its behalf")
    ctx.rule("notcached-only", "a failed cached look-up is skipped only when the reason is NotCached")
    o = ctx.fn(H + r"HttpInner::one_request$")
    nnet = nst = nmiss = 0
    for p in ctx.paths(o):
        md = mode_of(p)
        may_only = not (isinstance(md, tuple) and (md[0] == "v" and md[1] != "OnlyIfCached" or md[0] == "nv" and "OnlyIfCached" in md[1]))
        may_nostore = not (isinstance(md, tuple) and (md[0] == "v" and md[1] != "NoStore" or md[0] == "nv" and "NoStore" in md[1]))
        net = p.calls(*DO)
        sto = [e for e in p.evs if e.kind == "call" and ("kvstore::" in e.name or e.is_("fill_cache", "read_cache"))]
        if net:
            nnet += 1
            ctx.ob("only-cached", [o.path, "network"], not may_only, "the network is reached at %s although the mode may be only-if-cached" % net[0].site)
        if sto:
            nst += 1
            ctx.ob("nostore", [o.path, "store"], not may_nostore, "the response store is used at %s although the mode may be no-store" % sto[0].site)
        if md == ("v", "OnlyIfCached"):
            if p.ok():
                fresh = [t for t, v in p.facts.items() if v == ("v", "Fresh") and isC(t, "before_request")]
                ctx.ob("only-cached", [o.path, "answer"], fresh, "only-if-cached answers without a fresh entry")
            elif p.err():
                if not any(isC(x, "KVFileStore::lock", "read_cache", "remove") for x in subset(p.v)):
                    nmiss += 1
                    ctx.ob("only-cached", [o.path, "miss"], any(x.tag == "A" and x.a[1] == "NotCached" for x in subset(p.v)),
                           "a miss is reported as %s" % show(p.v))
    ctx.floor("network paths", nnet, 4)
    ctx.floor("stored paths", nst, 6)
    ctx.floor("only-if-cached misses", nmiss, 2)
    r = ctx.fn(H + r"HttpInner::request$")
    k = 0
    for p in ctx.paths(r, interesting=ctx.interesting("one_request"), keep=lambda t: False):
        for e in p.evs:
            k += 1
            ctx.ob("mode-passed", [r.path, e.name], strip(e.args[2]).tag == "Arg" and strip(e.args[2]).a[1] == "cache_mode", "%s" % e)
    ctx.floor("requests made by request()", k, 1)
    for rx in (H + r"Http::request$", H + r"Http::get_hashed$", H + r"HttpInner::request_ok$"):
        f = ctx.fn(rx)
        for p in ctx.paths(f):
            for e in p.evs:
                if e.kind == "call" and e.is_("HttpInner::request", "HttpInner::get_hashed"):
                    ctx.ob("mode-passed", [f.path, e.name], strip(e.args[-1]).tag == "Arg" and strip(e.args[-1]).a[1] == "cache_mode", "%s" % e)
    g = ctx.fn(H + r"HttpInner::get_hashed$")
    for p in ctx.paths(g):
        md = mode_of(p)
        for e in p.evs:
            if e.kind == "call" and e.is_("HttpInner::request_ok", "HttpInner::request"):
                a = strip(e.args[-1])
                okk = (a.tag == "Arg" and a.a[1] == "cache_mode") or (a.tag == "A" and a.a[1] == "NoStore" and md == ("v", "Default")) or \
                    (a.tag == "A" and md == ("v", a.a[1]))
                ctx.ob("mode-passed", [g.path, e.name], okk, "mode %s becomes %s at %s" % (md, show(a), e.site))
            if e.kind == "call" and e.is_("KVFileStore::get_or_set"):
                ctx.ob("only-cached", [g.path, "get_or_set"], md == ("v", "Default"), "the by-hash store is filled in mode %s at %s" % (md, e.site))
        if md == ("v", "OnlyIfCached") and p.err() and any(isC(t, "KVFileStore::get") for t in p.facts):
            ctx.ob("only-cached", [g.path, "miss"], any(x.tag == "A" and x.a[1] == "NotCached" for x in subset(p.v)), "a miss is reported as %s" % show(p.v))


def p17_fresh(ctx):
    ctx.rule("fresh", "a stored response is answered without revalidation only if its policy says it is fresh for this very request, now")
    ctx.rule("revalidate", "a stale entry is revalidated with the policy's own conditional request; its body is reused only when the policy says not-modified")
    ctx.rule("storable", "a response is stored only if its policy is storable; otherwise the entry is removed")
    ctx.rule("entry-layout", "an entry is its policy followed by its whole body, and is read back the same way")
    ctx.rule("pairing", "status, headers and body handed out belong together")
    o = ctx.fn(H + r"HttpInner::one_request$")
    nf = nr = nsv = nrm = 0
    for p in ctx.paths(o):
        def f(nm):
            return [(t, v) for t, v in p.facts.items() if t.tag == "C" and name_is(t.a[0], nm)]
        br, ar = f("CachePolicy::before_request"), f("CachePolicy::after_response")
        net = p.calls(*DO)
        if not br and net:
            br = [(x.a[0], ("v", x.a[1])) for x in subset(net[-1].args[1]) if x.tag == "P" and isC(x.a[0], "before_request")]
        fills = p.calls("fill_cache")
        mr = p.calls("make_response")
        if p.ok() and mr:
            parts, body = mr[-1].args[0], mr[-1].args[1]
            old = [x for x in subset(body) if isC(x, "read_cache")]
            newb = [x for x in subset(body) if isC(x, "fill_cache") or isC(x, *DO)]
            if not net:
                nf += 1
                okk = br and br[0][1] == ("v", "Fresh") and policy_of_entry(br[0][0].a[1][0]) and strip(br[0][0].a[1][1]).tag == "Arg" \
                    and strip(br[0][0].a[1][1]).a[1] == "request" and isC(strip(br[0][0].a[1][2]), "SystemTime::now")
                ctx.ob("fresh", [o.path, "no network"], okk, "a stored response is served without the policy's Fresh verdict: %s" % p.show()[:300])
                okk = old and strip(parts).tag == "P" and strip(parts).a[1] == "Fresh"
                ctx.ob("pairing", [o.path, "fresh"], okk, "fresh answer pairs %s with %s" % (show(parts)[:200], show(body)[:200]))
            elif br:
                nr += 1
                ctx.ob("revalidate", [o.path, "verdict"], br[0][1] == ("v", "Stale") and ar, "a stored entry is replaced without asking its policy: %s" % p.show()[:300])
                if ar:
                    a = ar[0][0].a[1]
                    req = net[-1].args[1]
                    okk = policy_of_entry(a[0]) and strip(a[1]) is strip(req) and any(x is net[-1].ret for x in subset(a[2])) \
                        and any(isC(x, "before_request") for x in subset(req)) and isC(strip(a[3]), "SystemTime::now")
                    ctx.ob("revalidate", [o.path, "conditional request"], okk, "revalidation sends %s and judges %s" % (show(req)[:200], show(ar[0][0])[:200]))
                    if ar[0][1] == ("v", "NotModified"):
                        okk = fills and strip(fills[-1].args[1]) is strip(fills[-1].args[1]) and any(isC(x, "read_cache") for x in subset(fills[-1].args[1])) \
                            and not any(isC(x, "into_body") for x in subset(fills[-1].args[1])) and from_variant(fills[-1].args[0], "NotModified") and from_variant(parts, "NotModified")
                        ctx.ob("pairing", [o.path, "not modified"], okk, "not-modified answer: %s" % p.show()[:300])
                    else:
                        okk = from_variant(parts, "Modified") and any(isC(x, "into_body", *DO) for x in subset(body)) and \
                            not (old and not fills and not any(isC(x, "into_body") for x in subset(body)))
                        okk = okk and not stored_body(body)
                        ctx.ob("pairing", [o.path, "modified"], okk, "modified answer pairs %s with %s" % (show(parts)[:200], show(body)[:200]))
            else:
                src = [x for x in subset(parts) if isC(x, *DO)]
                okk = src and any(isC(x, *DO) for x in subset(body)) and not stored_body(body)
                ctx.ob("pairing", [o.path, "miss"], okk, "answer pairs %s with %s" % (show(parts)[:200], show(body)[:200]))
        for e in fills:
            nsv += 1
            pol = strip(e.args[0])
            s = [(t, v) for t, v in p.facts.items() if isC(t, "CachePolicy::is_storable")]
            nm = ar and ar[0][1] == ("v", "NotModified") and from_variant(pol, "NotModified")
            okk = nm or any(v is True and strip(t.a[1][0]) is pol for t, v in s)
            ctx.ob("storable", [o.path, "store"], okk, "a response is stored at %s although its policy was not found storable" % e.site)
            fr = isC(pol, "CachePolicy::new")
            if fr:
                ctx.ob("storable", [o.path, "policy"], strip(pol.a[1][0]).tag == "Arg" and strip(pol.a[1][0]).a[1] == "request" and any(isC(x, *DO) for x in subset(pol.a[1][1])),
                       "the stored policy is %s" % show(pol))
        uns = [t for t, v in p.facts.items() if isC(t, "CachePolicy::is_storable") and v is False]
        if uns and p.ok():
            nrm += 1
            ctx.ob("storable", [o.path, "remove"], p.calls("KVFileLock::remove") and not fills, "an unstorable response leaves the old entry in place")
    ctx.floor("fresh answers", nf, 1)
    ctx.floor("revalidated answers", nr, 2)
    ctx.floor("stored responses", nsv, 3)
    ctx.floor("unstorable responses", nrm, 1)
    # layout
    fc = ctx.fn(H + r"fill_cache$")
    n = 0
    for p in ctx.paths(fc):
        if not p.ok():
            continue
        n += 1
        ser = [i for i, e in enumerate(p.evs) if e.is_("into_writer")]
        cp = [i for i, e in enumerate(p.evs) if e.is_("std::io::copy")]
        cm = [i for i, e in enumerate(p.evs) if e.is_("LockedWrite::commit", "commit")]
        okk = len(ser) == len(cp) == len(cm) == 1 and ser[0] < cp[0] < cm[0]
        if okk:
            es, ec, em = p.evs[ser[0]], p.evs[cp[0]], p.evs[cm[0]]
            w = lambda t: strip(t)
            okk = param(es.args[0], "policy") and param(ec.args[0], "body") and w(es.args[1]) is w(ec.args[1]) is w(em.args[0]) \
                and p.facts.get(es.ret) == ("v", "Ok") and p.facts.get(ec.ret) == ("v", "Ok") and p.facts.get(em.ret) == ("v", "Ok") \
                and not any(isC(x, "take", "by_ref", "skip") for x in subset(ec.args[0]))
        ctx.ob("entry-layout", [fc.path, "order"], okk, "an entry is not written as policy then body then commit: %s" % p.show()[:400])
        # slice bounds: position after the policy .. position after the body
        ss = p.calls("SeekSlice::new")
        pos = [i for i, e in enumerate(p.evs) if e.is_("stream_position")]
        okk = len(ss) == 1 and len(pos) == 2 and ser[0] < pos[0] < cp[0] < pos[1] < cm[0] and \
            holds_pos(ss[0].args[1], p.evs[pos[0]]) and holds_pos(ss[0].args[2], p.evs[pos[1]])
        ctx.ob("entry-layout", [fc.path, "bounds"], okk, "the new entry is handed out as %s" % (show(ss[0].args) if ss else "nothing"))
    ctx.floor("successful paths of fill_cache", n, 1)
    rc = ctx.fn(H + r"read_cache$")
    n = 0
    for p in ctx.paths(rc):
        if not p.ok():
            continue
        n += 1
        de = [i for i, e in enumerate(p.evs) if e.is_("from_reader")]
        pos = [i for i, e in enumerate(p.evs) if e.is_("stream_position")]
        sk = [i for i, e in enumerate(p.evs) if e.is_("std::io::Seek::seek")]
        ss = [i for i, e in enumerate(p.evs) if e.is_("SeekSlice::new")]
        rw = [i for i, e in enumerate(p.evs) if e.is_("rewind") or (e.is_("std::io::Seek::seek") and "Start(0)" in show(e.args[-1]))]
        okk = len(de) == len(pos) == len(ss) == 1 and de[0] < pos[0] < ss[0] and any(ss[0] < r for r in rw) and \
            holds_pos(p.evs[ss[0]].args[1], p.evs[pos[0]]) and any(holds_pos(p.evs[ss[0]].args[2], p.evs[s]) and "End(0)" in show(p.evs[s].args[-1]) for s in sk)
        ctx.ob("entry-layout", rc.path, okk, "a stored entry is read back differently from how it is written: %s" % p.show()[:500])
    ctx.floor("successful paths of read_cache", n, 1)


def holds_pos(t, ev):
    t = strip(t)
    return t.tag == "P" and t.a[0] is ev.ret and t.a[1] == "Ok"


def policy_of_entry(t):
    return any(isC(x, "read_cache") for x in subset(t))


def from_variant(t, var):
    t = strip(t)
    return t.tag == "P" and t.a[1] == var


def stored_body(t):
    """the body itself (not the policy deciding about it) is the stored one"""
    t = strip(t)
    if t.tag == "A":
        return any(stored_body(x) for x in t.a[3])
    if t.tag == "P" and isC(t.a[0], "fill_cache"):
        return stored_body(t.a[0].a[1][1])
    if t.tag == "F" and t.a[0].tag == "P" and isC(t.a[0].a[0], "read_cache"):
        return True
    return False


# ---------------------------------------------------------------------------------- P18
def p18_redirects(ctx):
    ctx.rule("redirect-status", "only 301, 302, 303, 307 and 308 are followed, and all of them are")
    ctx.rule("redirect-bounded", "the number of requests made for one call is bounded by a constant, and running out is an error")
    ctx.rule("redirect-get", "requests other than GET are never redirected")
    ctx.rule("redirect-target", "the next URL is the Location header resolved against the URL just requested")
    ctx.rule("redirect-final-url", "the response carries the URL it really came from")
    ctx.rule("redirect-sole", "the transport does not follow redirects on its own")
    r = ctx.fn(H + r"HttpInner::request$")
    want = {301, 302, 303, 307, 308}
    n = 0
    okret = 0
    fol = [0]
    followed = set()
    badbits = []

    ps = ctx.paths(r, interesting=lambda ev: ev.kind == "store" or ev.is_("one_request", "insert"),
                   keep=lambda t: isC(t, "as_u16", "get", "method") or t.tag == "Bin")
    for p in ps:
        if p.ok():
            sv = status_value(p.facts, strip(p.val()))
            if sv is None:
                ctx.fail("redirect-status", [r.path, "checked"], "a response is returned without looking at its status: %s" % p.show()[:300])
            elif sv[0] == "i":
                n += 1
                loc = location_missing(p.facts, strip(p.val()))
                ctx.ob("redirect-status", [r.path, "returned", sv[1]], sv[1] not in want or loc, "a %s response with a Location is returned to the caller" % sv[1])
            else:
                n += 1
                ctx.ob("redirect-status", [r.path, "returned"], want <= set(sv[1]), "responses with status %s are not followed" % sorted(want - set(sv[1])))
        if p.ok():
            okret += 1
            v = p.val()
            reqs = p.calls("one_request")
            resp = strip(v)
            # the URL inserted in extensions is the URL of the request that produced this response
            ins = [e for e in p.evs if e.is_("insert") and "extensions" in show(e.args[0])]
            okk = resp.tag == "P" and isC(resp.a[0], "one_request") and ins
            if okk:
                u = strip(ins[-1].args[-1])
                q = resp.a[0].a[1][1]
                okk = url_of(u, q, uri_stores(p.evs))
            ctx.ob("redirect-final-url", r.path, okk, "the response %s is labelled with %s" % (show(v)[:200], show(ins[-1].args[-1])[:200] if ins else "nothing"))
    ctx.floor("status-checked answers", n, 2)
    ctx.floor("answers of request()", okret, 1)
    # following: explored with events
    seen = []

    def on_ev(E, st, ev):
        if ev.is_("one_request"):
            seen.append((dict(st.facts), ev))
            for u in uri_stores([x.ev for x in st.trace]):
                w = target_altered(u)
                if w:
                    badbits.append(("redirect-target", "the next URL isn't what Location resolves to, but goes through %s" % w))
        if ev.is_("url::Url::join", "Url::join", "join") and "Url" in ev.name:
            fol[0] += 1
            rs = [x for x in subset(ev.args[1]) if x.tag == "P" and isC(x.a[0], "one_request")]
            sv = status_value(st.facts, rs[0]) if len(rs) == 1 else None
            if sv is not None and sv[0] == "i":
                followed.add(sv[1])
            if sv is None or sv[0] != "i" or sv[1] not in want:
                badbits.append(("redirect-status", "%s at %s follows a response whose status is not a redirect" % (ev.name, ev.site)))
            base, tgt = ev.args[0], ev.args[1]
            q = rs[0].a[0].a[1][1] if len(rs) == 1 else None
            if q is None or not url_of(strip(base), q, uri_stores([x.ev for x in st.trace])):
                badbits.append(("redirect-target", "Location is resolved against %s" % show(base)[:200]))
            if not any(isC(x, "get") and any(k.tag == "K" and str(k.a[1]).lower() == "location" for k in x.a[1]) for x in subset(tgt)):
                badbits.append(("redirect-target", "the redirect target is %s" % show(tgt)[:200]))
    ctx.explore(r, on_event=on_ev, interesting=lambda ev: ev.kind == "store",
                keep=lambda t: isC(t, "as_u16", "get", "method") or t.tag == "Bin")
    for rr, m in sorted(set(badbits)):
        ctx.fail(rr, r.path, m)
    ctx.floor("redirects followed", fol[0], 1)
    ctx.ob("redirect-status", [r.path, "followed"], followed == want, "redirects are followed for %s" % sorted(followed))
    bounded_loop(ctx, r)
    ag = ctx.fn(r"ureq_glue::new_ureq_agent$")
    k = 0
    for p in ctx.paths(ag):
        rs = p.calls("redirects")
        k += len(rs)
        ctx.ob("redirect-sole", ag.path, len(rs) == 1 and is_k(rs[0].args[1], "int", 0), "the transport may follow redirects itself")
    ctx.floor("transport configurations", k, 1)
    for fn, bi, t, fr in ctx.callers("ureq::AgentBuilder::new", "ureq::agent", "ureq::builder", "ureq::get", "ureq::request", "ureq::Agent::new"):
        ctx.ob("redirect-sole", root_fn(ctx.p, fn).path, root_fn(ctx.p, fn) is ag or fn.path not in base_fns(), "another transport is created at %s" % t["sp"])


def uri_stores(evs):
    return [e.args[1] for e in evs if e.kind == "store" and any(isC(x, "uri_mut") for x in subset(e.args[0]))]


SAME_URL = ("to_string", "into_string", "as_str", "as_ref", "try_from", "try_into", "from_str", "parse", "into", "from", "clone", "to_owned", "from_maybe_shared", "as_bytes")


def target_altered(u):
    """what is done to the URL Location resolves to before it is the next request's (None: nothing)"""
    t = u
    while True:
        if t.tag in ("Acc", "Upd"):
            ms = [m for m, _ in t.a[1]] if t.tag == "Acc" else ["an assignment"]
            ms = [m for m in ms if m.rsplit("::", 1)[-1] not in SAME_URL + ("eq", "deref", "scheme", "host_str", "path")]
            if ms:
                return ", ".join(sorted(ms))
            t = t.a[0]
        elif t.tag == "C" and any(name_is(t.a[0], z) for z in ("Url::join", "join")):
            return None
        elif t.tag == "C" and t.a[0].rsplit("::", 1)[-1] in SAME_URL:
            t = t.a[1][-1]
        elif t.tag == "Fmt" and len([x for x in t.a if x != ""]) == 1 and not isinstance(t.a[0], str):
            t = t.a[0]
        elif t.tag == "P" or t.tag == "Disp" or t.tag == "Thin":
            t = t.a[0]
        elif strip(t) is not t:
            t = strip(t)
        else:
            return show(t)[:100]


def url_of(u, q, stored=()):
    """u is the URL of the request q, in the state q was sent in"""
    if u.tag == "P" and isC(u.a[0], "Url::parse", "parse"):
        us = [x for x in subset(u.a[0]) if isC(x, "Request::uri", "uri")]
        return bool(us) and all(peel(x.a[1][0]) is peel(q) for x in us)
    # or the very URL that was last written into the request
    if u.tag == "P" and isC(u.a[0], "join") and stored and isinstance(q, T) and q.tag in ("Acc", "Upd"):
        return any(strip(x) is u for x in subset(stored[-1]))
    # ... kept in a loop variable that starts as the request's URL and is only ever replaced by what is written into the request
    if u.tag == "Fix":
        return url_of(strip(u.a[0]), mk_arg_of(q)) and all(x.tag == "P" and x.a[1] == "Ok" and isC(x.a[0], "join") for x in u.a[1]) \
            and bool(stored) and all(any(isC(x, "join") for x in subset(s)) for s in stored)
    return False


def mk_arg_of(q):
    return strip(q) if isinstance(q, T) else q


def statuses(t):
    t = strip(t)
    if t.tag == "Arr":
        return {x.a[1] for x in t.a if x.tag == "K"}
    return None


def bounded_loop(ctx, r):
    """every network request in request() is inside iteration over a constant range, and non-GET gets no redirect"""
    got = []

    def on_ev(E, st, ev):
        if ev.is_("one_request"):
            rng = set()
            for fr in st.frames:
                for v in fr.env.values():
                    for x in subset(v):
                        if x.tag == "A" and x.a[1] in ("RangeInclusive", "Range") or isC(x, "RangeInclusive::new", "new"):
                            rng.add(x)
            get = [v for t, v in st.facts.items() if t.tag == "Bin" and t.a[0] == "Eq" and any(isC(y, "method") for y in subset(t)) and isinstance(v, bool)]
            get += [v == ("v", "GET") for t, v in st.facts.items() if isC(t, "method")]
            got.append((frozenset(rng), tuple(get), ev.site))
    ctx.explore(r, on_event=on_ev)
    okb = got and all(any(const_range(x) is not None for x in rng) for rng, _, _ in got)
    ctx.ob("redirect-bounded", r.path, okb, "requests are made in a loop without a constant bound")
    for rng, get, site in got:
        bs = [const_range(x) for x in rng if const_range(x) is not None]
        if get and get[-1] is False:
            ctx.ob("redirect-get", r.path, bs and max(bs) == 1, "a non-GET request may be sent %s times (%s)" % (bs, site))
        if get and get[-1] is True:
            ctx.ob("redirect-bounded", [r.path, "GET"], bs and 1 < max(bs) <= 30, "a GET request may be sent %s times (%s)" % (bs, site))
    ctx.ob("redirect-get", [r.path, "decided"], got and all(g for _, g, _ in got), "the request method is not consulted")


def status_value(facts, resp):
    """what is known about the numeric status of the response at hand: ("i", n) | ("nv"/"ni", excluded) | None"""
    for t, v in facts.items():
        if isC(t, "as_u16") and any(isC(x, "Response::status", "status") and strip(x.a[1][0]) is resp for x in subset(t)) and isinstance(v, tuple):
            return v
    return None


def location_missing(facts, resp):
    return any(isC(t, "get") and v == ("v", "None") and any(k.tag == "K" and str(k.a[1]).lower() == "location" for k in t.a[1])
               and any(strip(x) is resp for x in subset(t)) for t, v in facts.items())


def const_range(x):
    """number of iterations of a constant range"""
    if x.tag == "A":
        d = dict(zip(x.a[2], x.a[3]))
        s, e = d.get("start"), d.get("end")
        inc = x.a[1] == "RangeInclusive"
    elif x.tag == "C" and "RangeInclusive" in x.a[0]:
        s, e = x.a[1][0], x.a[1][1]
        inc = True
    else:
        return None
    if s is not None and e is not None and is_k(s, "int") and is_k(e, "int"):
        return e.a[1] - s.a[1] + (1 if inc else 0)
    return None


# ---------------------------------------------------------------------------------- P19
def p19_statuses(ctx):
    ctx.rule("status-checked", "wherever a response body is used as data, the status was checked on the way")
    ctx.rule("retry-final", "after retries the last result is reported, whatever its status")
    ctx.rule("spool", "a body spooled to disk is complete and rewound before it is handed out")
    ro = ctx.fn(H + r"HttpInner::request_ok$")
    n = 0
    for p in ctx.paths(ro):
        if p.ok():
            n += 1
            sc = [v for t, v in p.facts.items() if isC(t, "is_success")] or ([True] if within_200s(p.facts) else [])
            v = strip(p.val())
            ctx.ob("status-checked", ro.path, sc == [True] and v.tag == "P" and isC(v.a[0], "request"), "a response is passed on without a success status: %s" % p.show()[:300])
    ctx.floor("answers of the checked request", n, 1)
    # consumers of Http request results
    n = 0
    for fn in ctx.p.user_fns():
        if is_test(fn) or fn.path not in base_fns():
            continue
        names = [norm_name(x) for f, bi, t, fr in ctx.p.call_sites(fn) for x in callee_names(fr)]
        if fn.path == ro.path or not any(name_is(x, "http::HttpInner::request") or name_is(x, "http::Http::request") for x in names):
            continue
        if fn.path.endswith("Http::request"):
            continue
        for p in ctx.paths(fn):
            for e in p.evs:
                if e.kind == "call" and e.is_("into_body", "force_seek", "read_to_end", "slurp", "body"):
                    if not any(isC(x, "HttpInner::request", "Http::request") for a in e.args for x in subset(a)):
                        continue
                    n += 1
                    ctx.ob("status-checked", [fn.path, e.name], status_ok(p), "the body of a response is used at %s without its status having been accepted" % e.site)
    ctx.floor("raw responses consumed", n, 2)
    g = ctx.fn(H + r"HttpInner::get_hashed$")
    n = 0
    for p in ctx.paths(g, inline=KV):
        for e in p.evs:
            if e.kind == "call" and e.is_("into_body"):
                n += 1
                ctx.ob("status-checked", [g.path, e.name], any(isC(x, "request_ok") for x in subset(e.args[0])) or status_ok(p), "an artifact is taken from an unchecked response at %s" % e.site)
    ctx.floor("artifact bodies", n, 2)
    cr = ctx.fn(r"ureq_glue::call_with_retry$")
    k = 0
    for p in ctx.paths(cr, interesting=lambda e: False, keep=lambda t: False):
        if p.end == "ret":
            k += 1
            v = strip(p.v)
            okk = v.tag == "A" or any(isC(x, "Request::call", "call") for x in subset(v))
            if p.v.tag == "A":
                pl = strip(p.v.a[3][0])
                okk = any(isC(x, "Request::call", "call") for x in subset(pl))
            ctx.ob("retry-final", cr.path, okk, "the result handed out is %s" % show(p.v)[:200])
    ctx.floor("results of call_with_retry", k, 3)
    retry_table(ctx, cr)
    d = ctx.fn(r"ureq_glue::do_request_ureq$")
    n = 0
    for p in ctx.paths(d, interesting=ctx.interesting("Builder::status"), keep=lambda t: False):
        if p.ok():
            n += 1
            st = p.calls("http::response::Builder::status", "status")
            b = [e for e in st if e.is_("Builder::status")]
            okk = len(b) == 1 and isC(strip(b[0].args[1]), "Response::status", "status") and any(isC(x, "call_with_retry") for x in subset(b[0].args[1]))
            ctx.ob("retry-final", [d.path, "status"], okk, "the response's status is %s" % (show(b[0].args[1]) if b else "not set"))
    ctx.floor("answers of do_request_ureq", n, 1)
    fs = ctx.fn(H + r"ReadPlusMaybeSeek::force_seek$")
    n = 0
    for p in ctx.paths(fs):
        if not p.ok():
            continue
        n += 1
        cp = [i for i, e in enumerate(p.evs) if e.is_("std::io::copy")]
        if cp:
            rw = [i for i, e in enumerate(p.evs) if e.is_("rewind") or (e.is_("std::io::Seek::seek") and "Start(0)" in show(e.args[-1]))]
            okk = any(i > cp[-1] and p.facts.get(p.evs[i].ret) == ("v", "Ok") for i in rw) and p.facts.get(p.evs[cp[0]].ret) == ("v", "Ok")
            ctx.ob("spool", [fs.path, "spooled"], okk, "a spooled body is handed out without being rewound")
            src = strip(peel(p.evs[cp[0]].args[0]))
            ctx.ob("spool", [fs.path, "whole"], src.tag == "P" and src.a[1] == "CannotSeek" and arg_is(src.a[0], "self") or arg_is(src, "self"),
                   "what is spooled isn't the whole body but %s" % show(src)[:100])
        else:
            v = strip(p.val())
            ctx.ob("spool", [fs.path, "direct"], v.tag in ("P",) and v.a[1] == "CanSeek", "a non-seekable body is handed out as %s" % show(p.val()))
    ctx.floor("answers of force_seek", n, 2)


def retry_table(ctx, cr):
    ctx.rule("retry-bounded", "only transport errors and 5xx statuses are retried, and only as often as the sleep table has entries")
    nx = []
    bad = set()

    def on_ev(E, st, ev):
        if ev.is_("sleep"):
            nx.append(any(x.tag == "Elem" for x in subset(ev.args[0])) or any(x.tag == "K" and x.a[0] == "int" for x in subset(ev.args[0])))
            for t, v in st.facts.items():
                if v == ("v", "Ok") and isC(t, "Request::call", "call"):
                    bad.add("a successful answer is retried at %s" % ev.site)
                if isinstance(v, tuple) and v[0] == "i" and isinstance(v[1], int) and any(isC(x, "call") for x in subset(t)) and not 500 <= v[1] < 600:
                    bad.add("status %s is retried" % v[1])
    ctx.explore(cr, on_event=on_ev, keep=lambda t: any(isC(x, "Request::call", "call") for x in subset(t)) or t.tag == "Bin")
    ctx.ob("retry-bounded", [cr.path, "loop"], nx and all(nx), "retries are not bounded by the sleep table")
    ctx.ob("retry-bounded", [cr.path, "transient"], not bad, "; ".join(sorted(bad)))


def within_200s(facts):
    """comparisons that hold here leave only statuses from 200 to 299"""
    lo, hi = 0, 1 << 16
    for t, v in facts.items():
        if isC(t, "contains") and len(t.a[1]) == 2 and v is True:
            r = strip(t.a[1][0])
            if any(isC(x, "Response::status", "status") for x in subset(t.a[1][1])) and r.tag == "A" and "Range" in r.a[0]:
                ks = [x.a[1] for x in r.a[3] if is_k(x, "int")]
                if len(ks) >= 2:
                    lo, hi = max(lo, ks[0]), min(hi, ks[1] + (1 if "Inclusive" in r.a[0] else 0))
        if t.tag != "Bin" or v not in (True, False):
            continue
        op, a, b = t.a[0], strip(t.a[1]), strip(t.a[2])
        if is_k(a, "int"):
            op, a, b = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op), b, a
        if not is_k(b, "int") or not any(isC(x, "Response::status", "status") for x in subset(a)) or not isC(a, "as_u16"):
            continue
        if v is False:
            op = {"Lt": "Ge", "Ge": "Lt", "Gt": "Le", "Le": "Gt"}.get(op)
        k = b.a[1]
        if op == "Ge":
            lo = max(lo, k)
        elif op == "Gt":
            lo = max(lo, k + 1)
        elif op == "Lt":
            hi = min(hi, k)
        elif op == "Le":
            hi = min(hi, k + 1)
    return lo >= 200 and hi <= 300


def status_ok(p):
    """an accepting verdict about the response's status is on the path"""
    for t, v in p.facts.items():
        if isC(t, "is_success") and v is True:
            return True
        if any(isC(x, "status") for x in subset(t)):
            if isinstance(v, tuple) and v[0] == "i" and v[1] in (200, 206):
                return True
            if t.tag == "Bin" and t.a[0] in ("Ge", "Gt", "Lt", "Le"):
                b = t.a[2]
                if t.a[0] == "Ge" and v is False and is_k(b, "int") and b.a[1] <= 400:
                    return True
                if t.a[0] == "Lt" and v is True and is_k(b, "int") and b.a[1] <= 400:
                    return True
            if isC(t, "is_client_error", "is_server_error") and v is False:
                other = "is_server_error" if name_is(t.a[0], "is_client_error") else "is_client_error"
                if any(isC(t2, other) and v2 is False for t2, v2 in p.facts.items()):
                    return True
    return False


# ---------------------------------------------------------------------------------- P20
def p20_ranges(ctx):
    ctx.rule("range-206", "partial data is accepted only from a 206 response, at the offset its Content-Range states")
    ctx.rule("range-length", "the total length is the one the server states in Content-Range")
    ctx.rule("range-fallback", "a server that ignores ranges (200) makes the caller fetch the whole file with hash checking")
    ctx.rule("range-request", "the requested range covers the wanted position")
    ctx.rule("range-uncached", "range requests bypass the response cache")
    fr = ctx.fn(r"lazy_remote_file::fetch_range$")
    kinds = {}
    for p in ctx.paths(fr, inline=[r"fetch_range::str_capture$"]):
        if not p.ok():
            continue
        v = p.val()
        stt = [x[1] for t, x in p.facts.items() if isC(t, "as_u16") and isinstance(x, tuple) and x[0] == "i"]
        kinds.setdefault(v.a[1], 0)
        kinds[v.a[1]] += 1
        want = {"Partial": 206, "NotSatisfiable": 416, "Complete": 200}[v.a[1]]
        ctx.ob("range-206", [fr.path, v.a[1]], stt == [want], "a %s answer is derived from status %s" % (v.a[1], stt))
        if v.a[1] in ("Partial", "NotSatisfiable"):
            d = dict(zip(v.a[2], v.a[3]))
            tot = d["total_len"]
            ctx.ob("range-length", [fr.path, v.a[1], "total"], captures_ok(ctx, tot, "total"), "the total length is %s" % show(tot)[:300])
            if v.a[1] == "Partial":
                ctx.ob("range-206", [fr.path, "offset"], captures_ok(ctx, d["offset"], "offset"), "the offset is %s" % show(d["offset"])[:300])
        rq = p.calls("HttpInner::request")
        ctx.ob("range-uncached", fr.path, rq and all(strip(e.args[2]).tag == "A" and strip(e.args[2]).a[1] == "NoStore" for e in rq), "a range request may be answered from or stored in the cache")
        hd = [e for e in p.calls("header") if any(k.tag == "K" and str(k.a[1]).lower() == "range" for k in e.args)]
        ur = [e for e in p.calls("Builder::uri", "uri") if len(e.args) == 2]
        ctx.ob("range-request", [fr.path, "url"], len(ur) == 1 and whole_url(ur[0].args[1], "url"), "the range is asked of %s" % (show(ur[0].args[1])[:100] if ur else "nothing"))
        ctx.ob("range-request", [fr.path, "header"], len(hd) == 1 and param(hd[0].args[-1], "range_header"), "the Range header is not sent")
    for k in ("Partial", "NotSatisfiable", "Complete"):
        ctx.floor("answers of kind " + k, kinds.get(k, 0), 1)
    lr = ctx.fn(r"LazyRemoteFile::load_range$")
    n = 0
    for p in ctx.paths(lr):
        ins = p.calls("BTreeMap::insert", "insert")
        for e in ins:
            n += 1
            off, data = strip(e.args[1]), strip(e.args[2])
            pv = [v for t, v in p.facts.items() if t.tag == "P" and isC(t.a[0], "fetch_range")]
            okk = off.tag == "P" and off.a[1] == "Partial" and str(off.a[2]) in ("offset", "0") and any(x.tag == "P" and x.a[1] == "Partial" and str(x.a[2]) == "data" for x in subset(data))
            okk = okk and p.facts.get(strip(data).a[0] if strip(data).tag == "P" else None) == ("v", "Ok")
            okk = okk and not any(x.tag == "Upd" or x.tag == "Acc" and x.a[1] and isC(strip(x), "slurp", "read_to_end") for x in subset(e.args[2])) \
                and not (e.args[2].tag == "Acc" and not isC(strip(e.args[2]), "Vec::new", "Vec::with_capacity"))
            ctx.ob("range-206", [lr.path, "stored at"], okk, "data is filed at %s: %s" % (show(off), show(data)[:200]))
        if p.ok():
            ctx.ob("range-206", [lr.path, "Ok"], bool(ins), "load_range() succeeds without data")
        fr_ = p.calls("fetch_range")
        for e in fr_:
            h = e.args[3]
            ctx.ob("range-request", [lr.path, "bytes"], range_fmt_ok(h), "the range requested is %s" % show(h))
            u = strip(peel(e.args[2]))
            ctx.ob("range-request", [lr.path, "url"], u.tag == "F" and u.a[1] == "url" and arg_is(u.a[0], "self") and bare(e.args[2]) is u, "the range is asked of %s" % show(e.args[2])[:100])
    ctx.floor("range data stored", n, 1)
    nw = ctx.fn(r"LazyRemoteFile::new$")
    n = 0
    for p in ctx.paths(nw):
        comp = [v for t, v in p.facts.items() if v == ("v", "Complete")]
        if p.ok():
            n += 1
            v = p.val()
            d = dict(zip(v.a[2], v.a[3]))
            L = strip(d["length"])
            okk = L.tag == "P" and L.a[1] in ("Partial", "NotSatisfiable") and str(L.a[2]) == "total_len" and is_k(d["seek_pos"], "int", 0)
            us = [e.args[2] for e in p.calls("fetch_range")] + [d["url"]]
            ctx.ob("range-request", [nw.path, "url"], all(whole_url(u, "url") for u in us), "the file at the URL is looked for at %s" % [show(u)[:60] for u in us])
            ctx.ob("range-length", [nw.path, "length"], okk and not comp, "the file's length is taken to be %s" % show(L))
        elif comp:
            ctx.ob("range-fallback", nw.path, any(x.tag == "A" and x.a[1] == "LazyRemoteFileNotSupported" for x in subset(p.v)), "no range support is reported as %s" % show(p.v))
    ctx.floor("lazy files opened", n, 2)
    gl = ctx.fn(H + r"Http::get_lazy$")
    n = 0
    for p in ctx.paths(gl):
        gh = p.calls("HttpInner::get_hashed", "get_hashed")
        for e in gh:
            n += 1
            okk = any(isC(x, "LazyRemoteFile::new") for t, v in p.facts.items() if v == ("v", "Err") for x in subset(t))
            a = e.args
            okk = okk and "url" in show(a[1]) and "hash" in show(a[2])
            ctx.ob("range-fallback", gl.path, okk, "fallback: %s" % e)
        if p.ok() and not gh:
            v = strip(p.val())
            ctx.ob("range-fallback", [gl.path, "lazy"], v.tag == "P" and isC(v.a[0], "LazyRemoteFile::new"), "%s" % show(v))
    ctx.floor("fallbacks to a full download", n, 1)


def whole_url(t, n):
    """the URL given as the parameter n, as it is"""
    while t.tag == "C" and t.a[0].rsplit("::", 1)[-1] in ("as_str", "clone", "to_string", "to_owned", "as_ref", "into_string", "deref") and t.a[1]:
        t = t.a[1][0]
    if t.tag == "Fmt" and len(t.a) == 1 and isinstance(t.a[0], T):
        t = t.a[0].a[0]
    if t.tag in ("Acc", "Upd"):
        return False
    return arg_is(t, n)


def captures_ok(ctx, t, what):
    """t is group N of a match of the header Content-Range against an anchored pattern, N naming `what`"""
    caps = [x for x in subset(t) if isC(x, "captures")]
    if len(caps) != 1:
        return False
    hay = caps[0].a[1][1]
    if not any(k.tag == "K" and str(k.a[1]).lower() == "content-range" for x in subset(hay) if isC(x, "get") for k in x.a[1]):
        return False
    st = [x for x in subset(caps[0].a[1][0]) if x.tag == "Static"]
    pat = ctx.static_regex(st[0].a[0]) if len(st) == 1 else None
    if pat is None:
        return False
    gets = [x.a[1][1].a[1] for x in subset(t) if isC(x, "Captures::get", "get") and len(x.a[1]) == 2 and is_k(x.a[1][1], "int")]
    gets += [x.a[1][1].a[1] for x in subset(t) if isC(x, "str_capture") and is_k(x.a[1][1], "int")]
    gets = set(gets)
    if len(gets) != 1:
        return False
    return range_group(pat, gets.pop()) == what


def range_group(pat, n):
    """which part of `bytes A-B/T` capture group n of the pattern is (syntactic reading of the pattern)"""
    if not (pat.startswith("^bytes") and pat.endswith("$")):
        return None
    body = pat[1:-1]
    # position of each group relative to the '-' and '/' separators
    i = 0
    depth = 0
    g = 0
    sep = {"-": 0, "/": 0}
    where = {}
    incls = False
    while i < len(body):
        c = body[i]
        if c == "\\":
            i += 2
            continue
        if incls:
            if c == "]":
                incls = False
        elif c == "[":
            incls = True
        elif c == "(":
            if body[i + 1:i + 2] != "?":
                g += 1
                where[g] = (sep["-"], sep["/"])
        elif c in sep:
            sep[c] += 1
        i += 1
    w = where.get(n)
    if w is None:
        return None
    if w[1] >= 1:
        return "total"
    if w[0] == 0:
        return "offset"
    return "end"


def range_fmt_ok(h):
    h = strip(h)
    if h.tag != "Fmt":
        return False
    ps = list(h.a)
    if len(ps) != 4 or ps[0] != "bytes=" or ps[2] != "-":
        return False
    off = strip(ps[1].a[0])
    end = strip(ps[3].a[0])
    if not (off.tag == "Arg" and off.a[1] == "offset"):
        return False
    # offset + length - 1, in some saturating/wrapping form
    s = [x for x in subset(end) if x.tag == "Arg"]
    return {x.a[1] for x in s} == {"offset", "length"} and end.tag in ("Bin", "C", "F") and any(is_k(x, "int", 1) for x in subset(end))


# ---------------------------------------------------------------------------------- P13
def p13_transport(ctx):
    ctx.rule("request-faithful", "what is sent is the request's own method, its whole URL and all of its headers, without a body")
    ctx.rule("response-faithful", "what is judged and cached carries the answer's own status, all of its headers with all their values, and its body")
    d = ctx.fn(r"ureq_glue::do_request_ureq$")
    seen = {"url": 0, "set": 0, "call": 0, "header": 0, "body": 0}
    bad = []
    # a name goes into a set once
    sets = any(b["t"].get("t") == "call" and re.search(r"(^|::)(BTreeSet|HashSet|IndexSet)<", ctx.p.ty(i))
               for f in ctx.p.fns.values() if f.path.startswith(d.path.rsplit("::", 1)[0]) for b in f.blocks
               if b["t"].get("t") == "call" and b["t"]["f"].get("k", {}).get("c") == "fn" and b["t"]["f"]["k"]["f"]["path"].endswith(("::collect", "::from_iter"))
               for i in b["t"]["f"]["k"]["f"].get("targs", []))

    def on_event(E, st, ev):
        if ev.kind != "call":
            return
        if ev.is_("request_url", "Agent::request", "Agent::get", "Agent::head", "Agent::post"):
            seen["url"] += 1
            m, u = ev.args[1], ev.args[-1]
            mm = strip(peel(m))
            okk = ev.is_("request_url", "Agent::request") and isC(mm, "Method::as_str", "as_str") and isC(strip(mm.a[1][0]), "Request::method", "method") and arg_is(strip(mm.a[1][0]).a[1][0], "req")
            uu = [x for x in subset(u) if isC(x, "Request::uri", "uri")]
            part = [x for x in subset(u) if x.tag == "C" and any(name_is(x.a[0], z) for z in ("Uri::path", "Uri::host", "Uri::query", "Uri::authority", "set_query", "set_fragment", "to_lowercase", "split"))
                    or x.tag == "Idx" or x.tag == "Acc"]
            if not (okk and len(uu) == 1 and arg_is(uu[0].a[1][0], "req") and not part):
                bad.append(("request-faithful", "the request sent at %s is %s %s" % (ev.site, show(m), show(u))))
        elif ev.is_("ureq::Request::set", "Request::set"):
            if not any(x.tag in ("Elem", "Acc", "Arg") for x in subset(ev.args[2])) and any(isC(x, "join") and isC(strip(x.a[1][0]), "Vec::new", "Vec::with_capacity") for x in subset(ev.args[2])):
                return      # no turn of the loop over the values of a name; there always is one
            seen["set"] += 1
            why = sent_whole(ctx, ev.args[1], ev.args[2])
            if why:
                bad.append(("request-faithful", "header %s: %s is sent, %s" % (show(ev.args[1])[:100], show(ev.args[2])[:100], why)))
        elif ev.is_("call_with_retry", "Request::call", "Request::send", "Request::send_bytes", "Request::send_string"):
            seen["call"] += 1
            a = ev.args[0]
            if not any(isC(x, "request_url", "Agent::request") for x in subset(a)):
                bad.append(("request-faithful", "the request sent at %s is %s" % (ev.site, show(a)[:200])))
            drop_ = [n for x in subset(a) if x.tag == "Acc" and any(isC(y, "request_url", "Agent::request") for y in subset(x.a[0])) for n, _ in x.a[1] if n.rsplit("::", 1)[-1] not in ("set", "clone")]
            if drop_:
                bad.append(("request-faithful", "%s alters the request" % drop_))
        elif ev.is_("Builder::header"):
            seen["header"] += 1
            n, v = ev.args[1], ev.args[2]
            rn, rv = elem_root(n), elem_root(v)
            if rn:
                lost = [m for x in subset(n) if x.tag == "Acc" and isC(strip(x), "headers_names") for m, _ in x.a[1] if not re.match(r"sort|dedup$|reverse$|iter|into_iter|drain$", m.rsplit("::", 1)[-1])]
                if lost:
                    bad.append(("response-faithful", "the names of the answer's headers go through %s" % lost))
                rn = (through(rn[0]), rn[1])
            okk = rn and rv and isC(rn[0], "headers_names") and isC(rv[0], "Response::all", "all") and strip(rv[0].a[1][1]) is strip(n) \
                and strip(rv[0].a[1][0]) is strip(rn[0].a[1][0])
            if not okk:
                bad.append(("response-faithful", "header %s: %s is kept" % (show(n)[:100], show(v)[:100])))
            elif not named_once(n, st, sets):
                bad.append(("response-faithful", "all the values of a name are kept again for each time the name is listed: %s" % show(n)[:60]))
        elif ev.is_("Builder::body"):
            seen["body"] += 1
            b = ev.args[1]
            okk = isC(strip(b), "into_reader") and any(isC(x, "call_with_retry", "call") for x in subset(b))
            if not okk:
                bad.append(("response-faithful", "the body kept at %s is %s" % (ev.site, show(b)[:200])))
    ctx.explore(d, on_event=on_event, keep=lambda t: t.tag == "Bin" or isC(t, "eq", "contains", "starts_with", "insert"))
    for r, m in sorted(set(bad)):
        ctx.fail(r, d.path, m)
    for k, v in seen.items():
        ctx.floor("transport steps of kind " + k, v, 1)
    unaltered(ctx)
    # nothing decides which headers to skip
    dec = set()

    def on_dec(E, st, ev):
        if ev.kind == "call" and ev.is_("ureq::Request::set", "Request::set", "Builder::header"):
            for t, v in st.facts.items():
                if isinstance(v, bool) and any(isC(x, "headers", "headers_names", "all") for x in subset(t)) and not isC(t, "next", "insert"):
                    dec.add((ev.name, show(t)[:200]))
    ctx.explore(d, on_event=on_dec, keep=lambda t: not isC(t, "std::str::from_utf8"))
    for nme, t in sorted(dec):
        ctx.fail("request-faithful" if "set" in nme else "response-faithful", [d.path, "selection"], "headers are passed on only if %s" % t)
    ctx.ob("response-faithful", [d.path, "headers"], not dec)


def arg_is(t, n):
    t = strip(peel(t))
    return t.tag == "Arg" and t.a[1] == n


AGENT_OK = re.compile(r"AgentBuilder::(new|build|user_agent|redirects|timeout\w*|max_idle_\w+|tls_\w+|https_only|proxy|try_proxy_from_env|resolver|no_delay)$")


def unaltered(ctx):
    """nothing else in the program touches a request on its way out, or an answer's status and headers on their way in"""
    ag = ctx.fn(r"ureq_glue::new_ureq_agent$")
    d = ctx.fn(r"ureq_glue::do_request_ureq$")
    cr = ctx.fn(r"ureq_glue::call_with_retry$")
    n = 0
    for fn in ctx.p.user_fns():
        if is_test(fn):
            continue
        for f, bi, t, fr in ctx.p.call_sites(fn):
            for x in {norm_name(y) for y in callee_names(fr)}:
                last = x.rsplit("::", 1)[-1]
                if "AgentBuilder::" in x:
                    n += 1
                    if not AGENT_OK.search(x):
                        ctx.fail("request-faithful", [fn.path, last], "%s makes the transport do more than pass requests on" % x)
                elif re.search(r"(^|::)ureq::(request::)?Request::\w+$", x):
                    n += 1
                    if last not in ("set", "clone", "call", "url", "method", "header", "header_names", "all", "has", "request_url"):
                        ctx.fail("request-faithful", [fn.path, last], "%s alters what is sent" % x)
                elif re.search(r"http::(response::)?(Response|response::Parts)::\w+$", x):
                    n += 1
                    if last in ("headers_mut", "status_mut", "version_mut") or last in ("new", "builder", "default") and not fn.path.startswith(d.path):
                        if last == "builder" and f.path.startswith(d.path) or fn.path not in base_fns() and any(g.path == d.path for g, *_ in ctx.callers(fn)):
                            continue
                        ctx.fail("response-faithful", [fn.path, last], "%s makes an answer the server didn't give" % x)
                elif re.search(r"http::(header::)?(map::)?HeaderMap::(insert|append|remove|clear|entry|get_mut|values_mut|iter_mut|drain|extend|try_\w+)$", x) and "::http::http::" in fn.path:
                    ctx.fail("response-faithful", [fn.path, last], "%s changes the headers of an answer" % x)
    ctx.floor("uses of the transport's types", n, 8)
    made = {fn for fn, *_ in ctx.callers("http::Response::from_parts", "Response::from_parts")}
    upd = set()
    m = [0]

    def on_made(E, st, ev):
        if ev.kind == "call" and ev.is_("Response::from_parts"):
            m[0] += 1
            a = ev.args[0]
            while a.tag in ("Upd", "Acc"):
                if a.tag == "Upd" and a.a[1] != "extensions" or a.tag == "Acc":
                    upd.add((show(a.a[1])[:60] if a.tag == "Acc" else a.a[1], ev.site))
                a = a.a[0]
    for fn in made:
        ctx.explore(fn, on_event=on_made)
    for w, site in sorted(upd):
        ctx.fail("response-faithful", [w], "the answer's %s is replaced before it is handed on at %s" % (w, site))
    ctx.floor("answers handed on", m[0], 1)
    # what is sent is the request call_with_retry was given
    k = 0
    for p in ctx.paths(cr, interesting=ctx.interesting("Request::call"), keep=lambda t: False):
        for e in p.evs:
            if e.kind == "call" and e.is_("ureq::Request::call", "Request::call"):
                k += 1
                a = e.args[0]
                ctx.ob("request-faithful", [cr.path, "call"], arg_is(a, "req") and not any(x.tag in ("Acc", "Upd") for x in subset(a)), "what is sent is %s" % show(a)[:200])
    ctx.floor("requests sent", k, 1)


def sent_whole(ctx, n, v):
    """why a header handed to ureq isn't the name with all the values it has in the request (ureq's `set` replaces what was
    set for the name before); None if it is"""
    ks = {strip(x) for x in subset(n) if x.tag == "Elem"}
    ks = {k for k in ks if isC(strip(k.a[0]), "HeaderMap::keys", "keys") and headers_of_req(strip(k.a[0]).a[1][0])}
    if len(ks) != 1:
        return "which isn't each name of the request's headers once"
    alls = [x for x in subset(v) if isC(x, "HeaderMap::get_all", "get_all")]
    if not alls or not all(headers_of_req(x.a[1][0]) and {strip(y) for y in subset(x.a[1][1]) if y.tag == "Elem"} == ks for x in alls):
        return "which isn't made of all the values of that name"
    thin = [x for x in subset(v) if x.tag == "Iter" and x.a[0] not in ("src", "map", "copied", "cloned", "inspect", "enumerate", "peekable", "fuse")
            or x.tag == "C" and any(name_is(x.a[0], z) for z in ("Iterator::next", "Iterator::last", "next_back", "nth", "first", "last", "get"))
            or x.tag == "Idx"]
    if thin:
        return "which leaves some of its values out (%s)" % show(thin[0])[:60]
    seps = [strip(x.a[1][1]) for x in subset(v) if x.tag == "C" and any(name_is(x.a[0], z) for z in ("slice::join", "join", "Itertools::join"))]
    if not seps or not all(x.tag in ("Const", "K") and any(is_k(x, "str", z) for z in (", ", ",")) for x in seps):
        return "with values that aren't joined by commas"
    return None


def through(t):
    while True:
        if isC(t, "collect", "from_iter"):
            t = strip(t.a[1][0])
        elif t.tag == "Iter" and t.a[0] == "src":
            t = strip(t.a[1])
        else:
            return t


def headers_of_req(t):
    t = strip(peel(t))
    return isC(t, "Request::headers", "headers") and arg_is(t.a[1][0], "req")


def named_once(n, st, sets=False):
    """each name is gone through once (`headers_names` lists a name again for each of its values)"""
    todo, e = [n], None
    while todo and e is None:
        x = todo.pop(0)
        e = x if x.tag == "Elem" else None
        todo.extend(kids(x))
    if e is None:
        return False
    it = e.a[0]
    while it.tag in ("Acc", "Upd", "Iter", "C") and not isC(it, "headers_names"):
        if named_once_by(it) or sets and isC(it, "collect", "from_iter"):
            return True
        nxt = [it.a[0]] if it.tag in ("Acc", "Upd") else [x for x in kids(it) if any(isC(y, "headers_names") for y in subset(x))]
        if not nxt:
            break
        it = nxt[0]
    return any(v is True and isC(t, "HashSet::insert", "BTreeSet::insert") and any(y is e for y in subset(t)) for t, v in st.facts.items())


def named_once_by(x):
    last = lambda m: m.rsplit("::", 1)[-1]
    if x.tag == "Acc":
        ms = {last(m) for m, _ in x.a[1]}
        return "dedup" in ms and any(m.startswith("sort") for m in ms)
    if x.tag == "Iter":
        return x.a[0] == "unique"
    return isC(x, "Itertools::unique", "HashSet::from_iter", "BTreeSet::from_iter")


def elem_root(t):
    """(collection term, tuple field) of an element-derived value"""
    todo = [t]
    while todo:
        x = todo.pop(0)
        if x.tag == "F" and strip(x.a[0]).tag == "Elem":
            return strip(strip(x.a[0]).a[0]), x.a[1]
        if x.tag == "Elem":
            return strip(x.a[0]), None
        todo.extend(kids(x))
    return None


RULES = {"P13": [p13_transport], "P06": [p06_hashes], "P15": [p15_keys], "P16": [p16_modes], "P17": [p17_fresh], "P18": [p18_redirects],
         "P19": [p19_statuses], "P20": [p20_ranges]}
