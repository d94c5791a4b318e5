"""entry_points.txt: what is read from it, and the scripts made from that."""
import ast, re
import rx
from rulelib import *
from rules.envs import last, okof, fld, unref
from rules.builds import show_facts
from rules.formats import isarg, argfield

IDENT = r"[a-zA-Z_][a-zA-Z0-9_.]*"
ROLES = {"comment": (r"[#;][^\n]*", False), "empty": (r"^\s*$", False), "header": (r"^\s*\[(?P<name>.+)\]\s*$", True),
         "entry": (r"^\s*(?P<name>[^\s=].*?)\s*=\s*(?P<module>%s)\s*(?::\s*(?P<object>%s))?\s*(?:\[.*\])?\s*$" % (IDENT, IDENT), True)}
BODY = '''# -*- coding: utf-8 -*-
import sys
import MODULE
if __name__ == "__main__":
    if sys.argv[0].endswith(".exe"):
        sys.argv[0] = sys.argv[0][:-4]
    sys.exit(MODULE%s())
'''


def p36(ctx):
    ctx.rule("line", "every line of the file is an entry, a section header, a comment, or empty: or else an error")
    ctx.rule("parts", "name, module and object are those the line gives, and can be nothing but identifiers")
    ctx.rule("section", "an entry belongs to the section whose header came last before it; none is lost or moved")
    ctx.rule("script", "a script imports the entry's module, calls its object, and does nothing else")
    roles = {}

    def role(t):
        t = unref(t)
        if t.tag != "Static":
            return None
        if t.a[0] not in roles:
            pat, r, why = ctx.static_regex(t.a[0]), None, []
            for k, (want, caps) in ROLES.items():
                try:
                    okk, ex = rx.same_captures(want, pat, whole=not caps and k == "comment") if pat is not None else (False, None)
                except rx.Unsupported as e:
                    okk, ex = False, "not supported: %s" % e
                if okk:
                    r = k
                why.append("%s: %r" % (k, ex))
            roles[t.a[0]] = r
            ctx.ob("parts", [t.a[0].rsplit("::", 1)[-1]], r is not None, "%r is none of the patterns that tell lines apart; it differs on: %s" % (pat, "; ".join(why)))
        return roles[t.a[0]]
    fn = ctx.fn(r"entry_points::parse_entry_points$")

    def lines(t):
        t = unref(t)
        if t.tag == "Iter" and t.a[0] == "src":
            t = unref(t.a[1])
        if not (t.tag == "C" and t.a[1] and unref(t.a[1][0]).tag == "Arg"):
            return False
        return last(t) in ("lines",) or last(t) in ("split", "split_terminator") and is_k(unref(t.a[1][1]), None, "\n")

    def line(t):
        """the text of the line at hand, without what follows a comment sign"""
        t = unref(t)
        return isC(t, "replace", "replace_all") and len(t.a[1]) == 3 and role(t.a[1][0]) == "comment" and unref(t.a[1][1]).tag == "Elem" and lines(unref(t.a[1][1]).a[0]) and is_k(unref(t.a[1][2]), None, "")

    def matched(t, r):
        t = unref(t)
        return isC(t, "captures") and role(t.a[1][0]) == r and line(t.a[1][1])

    def group(t, r, name):
        t = unref(t)
        if not (t.tag == "P" and t.a[1] == "Some"):
            return False
        c = unref(t.a[0])
        return isC(c, "Captures::name", "name") and is_k(unref(c.a[1][1]), None, name) and unref(c.a[1][0]).tag == "P" and unref(c.a[1][0]).a[1] == "Some" and matched(unref(c.a[1][0]).a[0], r)

    def told(p):
        """what the path knows the line to be"""
        k = {}
        for t, v in p.facts.items():
            t = bare(t)
            if isC(t, "is_match") and len(t.a[1]) == 2 and line(t.a[1][1]) and isinstance(v, bool):
                k[role(t.a[1][0])] = v
            elif isC(t, "captures") and line(t.a[1][1]) and isinstance(v, tuple):
                k[role(t.a[1][0])] = v == ("v", "Some")
            elif isC(t, "is_empty") and isC(unref(t.a[1][0]), "trim") and line(unref(t.a[1][0]).a[1][0]) and isinstance(v, bool):
                k["empty"] = v
        return k
    after, n = [], {}
    its = ctx.iterations(fn, lines, after=after, havoc=True, pure=r"captures|is_match|replace|is_empty|as_ref|Captures::name|trim",
                         interesting=lambda e: e.kind == "store" or e.is_("push", "extend", "append", "or_default", "or_insert", "or_insert_with", "insert", "entry", "clear", "remove", "pop", "take", "retain", "truncate", "drain", "push_str"))
    ctx.floor("the loop over the lines", len(its), 4)
    here = [fn.path]
    # the variables that hold the section last named, and the entries that wait for their section to end
    secs = {l for q in its for l, v in q.env1.items() if v is not None and v.tag == "A" and v.a[1] == "Some" and group(v.a[3][0], "header", "name")}
    vecs = {l for q in its for e in q.evs if e.is_("push") and e.args[1].tag == "A" and e.args[1].a[0].endswith("Entrypoint") for l, v in q.env0.items() if strip(v) is strip(e.args[0]) and (strip(v).tag == "Loop" or isC(strip(v), "Vec::new", "Vec::default", "Vec::with_capacity"))}
    ok1 = ctx.ob("section", here + ["variables"], len(secs) == 1, "the section is kept in %d variables" % len(secs))
    if not ok1:
        return
    sec = next(iter(secs))

    def pending(q):
        return {l for l in vecs if l in q.env0}

    def named(q, t):
        """t is the section last named before"""
        t, s = unref(t), q.env0.get(sec)
        if s is None:
            return False
        if t.tag == "P" and t.a[1] == "Some":
            return strip(t.a[0]) is strip(s)
        return s.tag == "A" and s.a[1] == "Some" and bare(s.a[3][0]) is bare(t)

    def slot(q, t):
        """t is the list of the section last named, in the result"""
        t = unref(t)
        if isC(t, "or_default", "or_insert_with", "or_insert"):
            e = unref(t.a[1][0])
            return isC(e, "entry") and named(q, e.a[1][1]) and isC(strip(e.a[1][0]), "HashMap::new", "default") | (strip(e.a[1][0]).tag == "Loop")
        return False

    def flushed(q, vs):
        """everything that waits is put into the section's list, or nothing waits"""
        for l in vs:
            v = q.env0[l]
            s = strip(v)
            empty = s.tag == "Loop" and q.facts.get(strip(q.env0[sec])) == ("v", "None") or isC(s, "new", "default") and not history(v) or any(isC(bare(t), "is_empty") and strip(unref(bare(t).a[1][0])) is s and x is True for t, x in q.facts.items())
            full = any(e.is_("extend") and slot(q, e.args[0]) and unref(e.args[-1]).tag == "Iter" and unref(e.args[-1]).a[0] == "src" and strip(unref(e.args[-1]).a[1]) is s or
                       e.is_("append") and slot(q, e.args[0]) and strip(unref(e.args[1])) is s for e in q.evs)
            if not (empty or full):
                return False
        return True

    def others(q):
        """changes to what has been read that are neither a new entry nor its way into its section"""
        out = []
        for e in q.evs:
            if e.is_("or_default", "or_insert", "or_insert_with", "entry") or e.is_("push", "extend", "append"):
                continue
            out.append(e)
        return out

    def kept(q, vs, but=()):
        return all(strip(q.env1.get(l, q.env0[l])) is strip(q.env0[l]) and not (set(history(q.env1.get(l, q.env0[l]))) - set(history(q.env0[l]))) for l in list(vs) + [sec] if l in q.env0 and l not in but)
    for q in its:
        if q.end == "panic":
            continue
        k = told(q)
        vs = pending(q)
        pushes = [e for e in q.evs if e.is_("push")]
        bad = others(q)
        ctx.ob("section", here + ["else"], not bad, "reading a line also does %s" % [str(e)[:100] for e in bad])
        if q.end == "next":
            if k.get("empty") is True:
                n["empty"] = 1
                ctx.ob("line", here + ["empty"], not q.evs and kept(q, vs), "an empty line does something: %s" % [str(e)[:100] for e in q.evs])
            elif k.get("header") is True:
                n["header"] = 1
                v = q.env1.get(sec)
                ctx.ob("section", here + ["header"], v is not None and v.tag == "A" and v.a[1] == "Some" and group(v.a[3][0], "header", "name"), "after a header the section is %s" % (show(v)[:200] if v is not None else None))
                ctx.ob("section", here + ["header", "before"], not pushes and flushed(q, vs), "what came before a header ends up in: %s" % [str(e)[:200] for e in q.evs])
                for l in vs:
                    v1 = q.env1.get(l)
                    ctx.ob("section", here + ["header", "after"], v1 is not None and isC(strip(v1), "new", "default") and not history(v1) or isC(strip(q.env0[l]), "new") and v1 is q.env0[l] or any(isC(bare(t), "is_empty") and strip(unref(bare(t).a[1][0])) is strip(q.env0[l]) and x is True for t, x in q.facts.items()) and strip(v1) is strip(q.env0[l]),
                           "entries under a header begin with %s" % (show(v1)[:200] if v1 is not None else None))
            elif k.get("entry") is True and k.get("header") is False:
                n["entry"] = 1
                s = q.env0.get(sec)
                some = s is not None and (s.tag == "Loop" or s.tag == "A" and s.a[1] == "Some") or q.facts.get(s) == ("v", "Some")
                okk = len(pushes) == 1 and len([e for e in q.evs if e.is_("push", "extend", "append", "insert")]) == 1 and some
                to = pushes and (any(strip(q.env0[l]) is strip(pushes[0].args[0]) for l in vs) or slot(q, pushes[0].args[0]))
                ctx.ob("section", here + ["entry"], bool(okk and to), "an entry is put into %s" % [str(e)[:200] for e in q.evs])
                if pushes:
                    x = unref(pushes[0].args[1])
                    f = dict(zip(x.a[2], x.a[3])) if x.tag == "A" and x.a[0].endswith("Entrypoint") else {}
                    for m in ("name", "module"):
                        ctx.ob("parts", here + [m], m in f and group(f[m], "entry", m), "an entry's %s is %s" % (m, show(f[m])[:200] if m in f else None))
                    o = unref(f["object"]) if "object" in f else None
                    none = any(v == ("v", "None") and isC(bare(t), "Captures::name", "name") and is_k(unref(bare(t).a[1][1]), None, "object") for t, v in q.facts.items())
                    okk = o is not None and (o.tag == "A" and o.a[1] == "None" and none or o.tag == "A" and o.a[1] == "Some" and group(o.a[3][0], "entry", "object"))
                    ctx.ob("parts", here + ["object"], okk, "an entry's object is %s" % (show(o)[:200] if o is not None else None))
                ctx.ob("section", here + ["entry", "section"], strip(q.env1.get(sec, s)) is strip(s), "an entry changes the section")
            else:
                ctx.fail("line", here + ["passed over"], "a line is passed over when %s" % show_facts(q)[:400])
        else:
            s = q.env0.get(sec)
            none = s is None or s.tag == "A" and s.a[1] == "None" or q.facts.get(s) == ("v", "None")
            bad_line = k.get("empty") is False and k.get("header") is False and (k.get("entry") is False or k.get("entry") is True and none)
            n["malformed"] = 1
            ctx.ob("line", here + ["refused"], q.err() and bad_line, "reading ends with %s when %s" % (show(q.v)[:100] if q.v is not None else q.end, show_facts(q)[:300]))
    for x in ("empty", "header", "entry", "malformed"):
        ctx.floor("lines that are %s" % x, n.get(x, 0), 1)
    m = 0
    for q in after:
        if q.end == "panic":
            continue
        vs = pending(q)
        v = p_val(q)
        m += 1
        ctx.ob("section", here + ["end"], flushed(q, vs), "at the end what waits ends up in %s" % [str(e)[:200] for e in q.evs])
        ctx.ob("section", here + ["result"], v is not None and (strip(v).tag == "Loop" or isC(strip(v), "HashMap::new")) and all(h[0].rsplit("::", 1)[-1] in ("entry", "or_default", "or_insert_with") for h in history(v)) and not others(q), "the result is %s" % (show(v)[:200] if v is not None else q.end))
    ctx.floor("ends of the file", m, 1)
    made = [f for f, _ in constructions(ctx, "Entrypoint") if not is_test(f)]
    ctx.ob("parts", ["Entrypoint", "made"], all(root_fn(ctx.p, f).path.endswith("parse_entry_points") or f.path not in base_fns() for f in made), "entries are made in %s" % sorted({f.path for f in made}))
    # the scripts
    fn = ctx.fn(r"artifact_formats::script_for_entrypoint$")
    n = {}
    for p in ctx.paths(fn):
        if p.end != "ret":
            ctx.fail("script", [fn.path, "panic"], "it panics at %s" % p.site)
            continue
        kinds = {x for x in ("Console", "GUI") if all(x == v[1] if v[0] == "v" else x not in v[1] for t, v in p.facts.items() if isarg(bare(t), "script_type") and isinstance(v, tuple))}
        obj = [v for t, v in p.facts.items() if argfield(unref(bare(t)), "entry", "object")]
        text = ""
        okk = True
        for x in fmt_pieces(p.v):
            if isinstance(x, str):
                text += x
            else:
                y = unref(x.a[0]) if x.tag == "Disp" else None
                if y is not None and argfield(y, "entry", "module"):
                    text += "MODULE"
                elif y is not None and y.tag == "P" and y.a[1] == "Some" and argfield(unref(y.a[0]), "entry", "object"):
                    text += "OBJECT"
                else:
                    okk = False
        first, _, rest = text.partition("\n")
        for want in kinds:
            n[want] = 1
            ctx.ob("script", [fn.path, "kind"], first == {"Console": "#!python", "GUI": "#!pythonw"}.get(want), "a script of kind %s begins with %r" % (want, first))
        has = obj == [("v", "Some")]
        try:
            same = ast.dump(ast.parse(rest)) == ast.dump(ast.parse(BODY % (".OBJECT" if has else "")))
        except SyntaxError:
            same = False
        coding = re.match(r"[ \t\f]*#.*?coding[:=][ \t]*([-\w.]+)", rest)
        ctx.ob("script", [fn.path, "body"], okk and same and obj in ([("v", "Some")], [("v", "None")]) and (coding is None or coding.group(1).lower() in ("utf-8", "utf8")), "an entry %s its object gives the script %s" % ("with" if has else "without", show(p.v)[:600]))
    for k in ("Console", "GUI"):
        ctx.floor("scripts of kind %s" % k, n.get(k, 0), 1)


def p_val(q):
    return q.val() if q.end == "ret" and q.ok() else None


RULES = {"P36": [p36]}
