"""Byte-range views: SeekSlice (window of a cache entry) and the lazily fetched remote file."""
import terms
from rulelib import *


def signed_ok(p, t, off):
    """|off| and `off as u64` are only used under the matching sign test"""
    neg = None
    for f, v in p.facts.items():
        if f.tag == "Bin" and isinstance(v, bool):
            a, b = lin(f.a[1]), lin(f.a[2])
            if f.a[0] == "Lt" and b == {} and a == lin(off):
                neg = v
            if f.a[0] == "Lt" and a == {} and b == lin(off):
                neg = neg if neg is not None else (False if v else None)
    for x in subset(t):
        if x.tag != "C":
            continue
        ln = x.a[0].rsplit("::", 1)[-1]
        if ln in ("wrapping_add", "wrapping_sub", "overflowing_add", "overflowing_sub"):
            return False
        if ln in ("unsigned_abs", "wrapping_neg") and strip(x.a[1][0]) is strip(off) and neg is not True:
            return False
        if ln in ("checked_add", "saturating_add") and any(strip(y) is strip(off) for y in x.a[1]) and neg is not False:
            return False
        if ln == "checked_sub" and any(strip(y) is strip(off) for y in x.a[1]):
            return False
    return True


def field(n):
    return lambda t: t.tag == "F" and t.a[1] == n and strip(t.a[0]).tag == "Arg" and strip(t.a[0]).a[1] == "self"


def lin_self(t):
    """linear form whose atoms are `self.field` names where possible"""
    out = {}
    for k, c in lin(t).items():
        if k is not None and k.tag == "F" and strip(k.a[0]).tag == "Arg" and strip(k.a[0]).a[1] == "self":
            k = k.a[1]
        out[k] = out.get(k, 0) + c
    return out


def rel(forms):
    return [{(k.a[1] if k is not None and not isinstance(k, str) and field(k.a[1] if k.tag == "F" else "")(k) else k): c for k, c in f.items()} for f in forms]


BASE = {"Start": None, "End": None, "Current": None}


def seek_variant(p):
    v = [x for t, x in p.facts.items() if t.tag == "Arg" and t.a[1] == "pos"]
    return v[0][1] if len(v) == 1 and v[0][0] == "v" else None


def p21_slice(ctx):
    ctx.rule("window-open", "a window is only opened with start <= end, positioned at its start")
    ctx.rule("window-seek", "a seek goes to base+offset for its kind and only to positions in [start, end]; all of those are allowed")
    ctx.rule("window-read", "a read is limited to the bytes left in the window and the position advances by what was read")
    nw = ctx.fn(r"^posy::seek_slice::SeekSlice::<T>::new$")
    n = 0
    for p in ctx.paths(nw):
        if p.ok():
            n += 1
            v = p.val()
            g = {k: strip(peel(mk("F", v, k))) for k in ("start", "end", "current")}
            okk = all(g[k].tag == "Arg" and g[k].a[1] == k for k in ("start", "end"))
            ctx.ob("window-open", [nw.path, "fields"], okk, "the window is %s" % show(v))
            ctx.ob("window-open", [nw.path, "order"], entails(ineqs(p.facts), lsub(lin(g["end"]), lin(g["start"]))), "a window may be opened with end < start")
            sk = p.calls("std::io::Seek::seek")
            c = g["current"]
            okk = len(sk) == 1 and seek_to(sk[0]) is not None and lin(seek_to(sk[0])) == lin(g["start"]) and p.facts.get(sk[0].ret) == ("v", "Ok") \
                and (lin(c) == lin(g["start"]) or c is mk("P", sk[0].ret, "Ok", "0"))
            ctx.ob("window-open", [nw.path, "position"], okk, "the window starts out at %s" % show(c))
    ctx.floor("windows opened", n, 1)
    for fn, sp in constructions(ctx, "SeekSlice"):
        ctx.ob("window-open", [fn.path, "literal"], fn.path == nw.path, "a window is built without its checks at %s" % sp)
    sk = ctx.method("std::io::Seek", "SeekSlice", "seek")
    n = 0
    for p in ctx.paths(sk, inline=[r"seek_slice::checked_add_signed"]):
        var = seek_variant(p)
        inner = p.calls("std::io::Seek::seek")
        known = rel_self(ineqs(p.facts))
        for e in inner:
            n += 1
            goal = seek_to(e)
            if goal is None or var is None:
                ctx.fail("window-seek", [sk.path, "goal"], "the inner file is moved by %s" % show(e.args[-1]))
                continue
            off = mk("P", parg(p, "pos"), var, "0")
            want = ladd({{"Start": "start", "End": "end", "Current": "current"}[var]: 1}, {off: 1})
            got = rs(lin(goal))
            ctx.ob("window-seek", [sk.path, var, "goal"], got == want and (var == "Start" or signed_ok(p, goal, off)), "seeking %s moves to %s" % (var, lshow(lin(goal))))
            ctx.ob("window-seek", [sk.path, var, "inside"], entails(known, lsub(got, {"start": 1})) and entails(known, lsub({"end": 1}, got)),
                   "a seek to %s is not confined to the window" % lshow(lin(goal)))
        if p.ok():
            st = [e for e in p.evs if e.kind == "store" and field("current")(e.args[0])]
            okk = len(inner) == 1 and len(st) == 1 and st[0].args[1] is mk("P", inner[0].ret, "Ok", "0") or \
                len(inner) == 1 and len(st) == 1 and lin(st[0].args[1]) == lin(seek_to(inner[0]))
            okk = okk and rs(lsub(lin(p.val()), lin(st[0].args[1]))) == {"start": -1}
            ctx.ob("window-seek", [sk.path, var, "position"], okk, "after the seek the position is %s, reported as %s" % ([show(e.args[1]) for e in st], show(p.val())))
        elif p.err() and not inner:
            none = any(v == ("v", "None") and t.tag == "C" and t.a[0].rsplit("::", 1)[-1].startswith("checked_") for t, v in p.facts.items())
            off = mk("P", parg(p, "pos"), var, "0") if var else None
            goal = ladd({{"Start": "start", "End": "end", "Current": "current"}[var]: 1}, {off: 1}) if var else {}
            out = entails(known, ladd(lsub({"start": 1}, goal), {None: -1})) or entails(known, ladd(lsub(goal, {"end": 1}), {None: -1}))
            ctx.ob("window-seek", [sk.path, var, "refused"], var is not None and (none or out), "a seek inside the window is refused: %s" % p.show()[:300])
    ctx.floor("seeks of the underlying file", n, 3)
    for f in ctx.p.impl_fns("std::io::Seek", "SeekSlice") + ctx.p.impl_fns("std::io::Read", "SeekSlice"):
        nm = f.path.rsplit("::", 1)[-1]
        ctx.ob("window-read", f.path, nm in ("seek", "read"), "%s is not limited to the window by any rule" % f.path)
    rd = ctx.method("std::io::Read", "SeekSlice", "read")
    n = 0
    for p in ctx.paths(rd):
        inner = [e for e in p.evs if e.kind == "call" and e.name.startswith("std::io::Read::")]
        for e in inner:
            n += 1
            b = strip(e.args[1]) if len(e.args) == 2 else mk("Top", "?")
            okk = e.is_("std::io::Read::read") and b.tag == "Idx" and b.a[1].tag == "A" and b.a[1].a[1] in ("RangeTo", "Range")
            end = dict(zip(b.a[1].a[2], b.a[1].a[3]))["end"] if okk else None
            if okk and b.a[1].a[1] == "Range":
                okk = lin(dict(zip(b.a[1].a[2], b.a[1].a[3]))["start"]) == {}
            # a window longer than usize::MAX cannot be exceeded by any buffer
            big = any(v == ("v", "Err") and t.tag == "C" and t.a[0].endswith("try_from") and rs(lin(t.a[1][0])) == {"end": 1, "current": -1} for t, v in p.facts.items())
            known = [rs(f) for f in ineqs(p.facts) + (min_ineqs(end) if end is not None else [])]
            okk = okk and (big or entails(known, lsub({"end": 1, "current": -1}, rs(lin(end)))))
            ctx.ob("window-read", [rd.path, "limit"], okk, "up to %s bytes are read although only end - current are left" % (show(end) if end is not None else show(b)))
            if p.ok():
                st = [x for x in p.evs if x.kind == "store" and field("current")(x.args[0])]
                got = mk("P", e.ret, "Ok", "0")
                okk = len(st) == 1 and rs(lin(st[0].args[1])) == {"current": 1, got: 1} and strip(p.val()) is got
                ctx.ob("window-read", [rd.path, "advance"], okk, "after reading, the position is %s and %s is reported" % ([show(x.args[1]) for x in st], show(p.val())))
    ctx.floor("reads of the underlying file", n, 1)


def parg(p, name):
    for t in p.facts:
        for x in subset(t):
            if x.tag == "Arg" and x.a[1] == name:
                return x
    return mk("Top", name)


def seek_to(e):
    a = e.args[-1]
    return a.a[3][0] if a.tag == "A" and a.a[1] == "Start" else None


def rs(f):
    out = {}
    for k, c in f.items():
        if isinstance(k, T) and k.tag == "F" and strip(k.a[0]).tag == "Arg" and strip(k.a[0]).a[1] == "self":
            k = k.a[1]
        out[k] = out.get(k, 0) + c
    return {k: c for k, c in out.items() if c}


def rel_self(fs):
    return [rs(f) for f in fs]


# ---------------------------------------------------------------------------------- P20 (second half)
def p20_reads(ctx):
    ctx.rule("remote-seek", "seeking a remote file sets the position to base+offset for its kind, the end being the length the server stated")
    ctx.rule("remote-read", "a read returns bytes filed under the position it is at, and advances by the number of bytes returned")
    ctx.rule("remote-eof", "end of file is reported only at or past the stated length")
    terms.MAXDEPTH = 70
    sk = ctx.method("std::io::Seek", "LazyRemoteFile", "seek")
    n = 0
    for p in ctx.paths(sk):
        var = seek_variant(p)
        if not p.ok():
            continue
        n += 1
        st = [e for e in p.evs if e.kind == "store" and field("seek_pos")(e.args[0])]
        if var is None or len(st) != 1:
            ctx.fail("remote-seek", [sk.path, str(var)], "a seek leaves the position at %s" % [show(e.args[1]) for e in st])
            continue
        off = mk("P", parg(p, "pos"), var, "0")
        want = ladd({"Start": {}, "End": {"length": 1}, "Current": {"seek_pos": 1}}[var], {off: 1})
        okk = rs(lin(st[0].args[1])) == want and (var == "Start" or signed_ok(p, st[0].args[1], off)) and lin(p.val()) == lin(st[0].args[1])
        ctx.ob("remote-seek", [sk.path, var], okk, "seeking %s moves to %s and reports %s" % (var, show(st[0].args[1]), show(p.val())))
    ctx.floor("kinds of seeks", n, 3)
    rd = ctx.method("std::io::Read", "LazyRemoteFile", "read")
    for f in ctx.p.impl_fns("std::io::Read", "LazyRemoteFile"):
        ctx.ob("remote-read", f.path, f is rd, "%s is not covered by any rule" % f.path)
    nz = nr = 0
    for p in ctx.paths(rd, inline=[r"LazyRemoteFile.*::read::"], interesting=lambda e: e.kind == "store" or e.is_("copy_from_slice", "load_range", "clone_from_slice")):
        if not p.ok():
            continue
        cps = p.calls("copy_from_slice", "clone_from_slice")
        st = [e for e in p.evs if e.kind == "store" and field("seek_pos")(loose(e.args[0]))]
        if not cps:
            nz += 1
            z = [f for f, v in p.facts.items() if v == ("i", 0)] + [f.a[1] if is_k(f.a[2], "int", 0) else f.a[2] for f, v in p.facts.items() if f.tag == "Bin" and f.a[0] == "Eq" and v is True]
            okk = is_k(p.val(), "int", 0) and not st and any(isC(x, "min") and any(isC(y, "saturating_sub") and rs(lin(y.a[1][0])) == {"length": 1} and rs(lin(y.a[1][1])) == {"seek_pos": 1} for y in x.a[1])
                                                              and any(y.tag == "C" and y.a[0].endswith("::len") for y in x.a[1]) for x in z)
            ctx.ob("remote-eof", rd.path, okk, "end of file is reported when %s" % "; ".join("%s=%s" % (show(a)[:160], b) for a, b in p.facts.items()))
            continue
        nr += 1
        e = cps[-1]
        dst, src = strip(e.args[0]), strip(e.args[1])
        okk = len(cps) == 1
        why = ""
        dlen = upto(dst)
        okk = okk and dlen is not None and strip(dst.a[0]).tag == "Arg" and strip(dst.a[0]).a[1] == "buf"
        # src = data[slide..][..len], data filed at key <= position, slide = position - key
        slen, s2 = upto(src), strip(src.a[0]) if src.tag == "Idx" else None
        if s2 is not None and s2.tag == "Idx" and s2.a[1].tag == "A" and s2.a[1].a[1] == "RangeFrom":
            slide = lin_sub0(s2.a[1].a[3][0])
            data = strip(s2.a[0])
        else:
            slide, data = None, None
        okk = okk and slen is not None and slen is dlen and data is not None and data.tag == "F" and data.a[1] == "1"
        if okk:
            key = mk("F", data.a[0], "0")
            pos, k2 = slide if slide else (None, None)
            okk = pos is not None and strip(k2) is strip(key) and is_pos(pos) and below(data.a[0])
            sl = s2.a[1].a[3][0]
            inr = any(v is True and f.tag == "Bin" and f.a[0] == "Lt" and strip(f.a[1]) is strip(sl) and isC(f.a[2], "len") and strip(f.a[2].a[1][0]) is data for f, v in p.facts.items())
            ctx.ob("remote-read", [rd.path, "in range"], inr, "the position may lie outside the block it is read from")
        ctx.ob("remote-read", [rd.path, "bytes"], okk, "a read at the current position returns %s" % show(src))
        adv = len(st) == 1 and bare(p.val()) is bare(dlen) if dlen is not None else False
        if adv:
            d = [(k, c) for k, c in lin(bare(st[0].args[1])).items()]
            adv = len(d) == 2 and any(c == 1 and is_pos(k) for k, c in d) and any(c == 1 and bare(k) is bare(dlen) for k, c in d)
        ctx.ob("remote-read", [rd.path, "advance"], adv, "after the read the position is %s and %s is reported" % ([show(x.args[1])[:200] for x in st], show(p.val())[:200]))
    # of the blocks filed at or before the position, the last is the one that may reach it
    for f in ctx.p.user_fns():
        if is_test(f) or not f.path.startswith(rd.path) and not ("lazy_remote_file" in f.path):
            continue
        upto_, last = 0, 0
        for g, bi, t, fr in ctx.p.call_sites(f):
            nm = norm_name(fr["path"])
            if nm.endswith("BTreeMap::range") and any("RangeTo" in ctx.p.ty(i) for i in fr.get("targs", [])):
                upto_ += 1
            elif nm.rsplit("::", 1)[-1] in ("next_back", "last", "rev", "max_by_key", "rfind") or nm.endswith("Iterator::next") and g.cyclic(bi):
                last += 1
        if upto_:
            ctx.ob("remote-read", [f.path, "nearest"], last >= upto_, "a block filed before the position is looked at without being the last of them")
    ctx.floor("end-of-file answers", nz, 1)
    ctx.floor("reads answered from fetched blocks", nr, 2)


def loose(t):
    """self through mutation histories"""
    t = peel(t)
    return mk("F", strip(t.a[0]), *t.a[1:]) if t.tag == "F" else t


def is_pos(t):
    t = loose(t)
    return field("seek_pos")(t)


def upto(t):
    if t.tag == "Idx" and t.a[1].tag == "A" and t.a[1].a[1] == "RangeTo":
        return t.a[1].a[3][0]
    return None


def lin_sub0(t):
    """(a, b) for t = a - b (saturating, converted)"""
    t = strip(t)
    while t.tag == "P" and t.a[0].tag == "C" and t.a[0].a[0].rsplit("::", 1)[-1] in ("try_from", "try_into"):
        t = strip(t.a[0].a[1][0])
    if t.tag == "P" and t.a[1] == "Some":
        t = t.a[0]
    if t.tag == "C" and t.a[0].rsplit("::", 1)[-1] in ("saturating_sub", "checked_sub", "wrapping_sub") or t.tag == "C" and name_is(t.a[0], "Sub::sub"):
        return t.a[1][0], t.a[1][1]
    if t.tag == "Bin" and t.a[0].startswith("Sub"):
        return t.a[1], t.a[2]
    return None


def below(el):
    """an entry of loaded.range(..=position), so its key is at most the position"""
    el = strip(el)
    if el.tag == "Elem":
        el = strip(el.a[0])
    if el.tag == "P":
        el = strip(el.a[0])
    for x in subset(el):
        if isC(x, "BTreeMap::range") and x.a[1][1].tag == "A" and x.a[1][1].a[1] in ("RangeToInclusive", "RangeTo") and is_pos(x.a[1][1].a[3][0]):
            return True
    return False


RULES = {"P21": [p21_slice], "P20": [p20_reads]}
