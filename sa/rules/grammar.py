"""Grammars: what requirements, version specifiers, environment markers and metadata files read as, and how requirements
are written back."""
import os
import re
import pegram
import terms
from rulelib import *
from rules.formats import isarg, argfield, eqtrue
from rules.envs import last, okof, unref
from rules.builds import show_facts, last_name
from rules.specs import SYM, boolfact, op_table
from rules.names import conversions

# PEP 508 (and the names of PEP 345 and setuptools), in the notation of the peg crate.  What an action makes of its parts
# is given in MEANS.
REQ = r'''peg::parser! { grammar reference() for str {
    rule _() = [' ' | '\t']*
    rule sym() = ['A'..='Z' | 'a'..='z' | '0'..='9']
    rule cmp() = $("<=" / "<" / "!=" / "==" / ">=" / ">" / "~=" / "===")
    rule one() = _ op:cmp() _ v:$((sym() / "-" / "_" / "." / "*" / "+" / "!")+) _ { }
    rule many() = specs:(one() ++ (_ ",")) { }
    pub rule versionspec() = ("(" vm:many() ")" { }) / many()
    rule op() = _ op:(cmp() / $("in") / ("not" [' ' | '\t']+ "in" { })) { }
    rule chr() = [' ' | '\t' | 'A'..='Z' | 'a'..='z' | '0'..='9' | '(' | ')' | '.' | '{' | '}' | '-' | '_' | '*' | '#' | ':'
        | ';' | ',' | '/' | '?' | '[' | ']' | '!' | '~' | '`' | '@' | '$' | '%' | '^' | '&' | '=' | '+' | '|' | '<' | '>']
    rule str() = s:("'" s:$((chr() / "\"")*) "'" { } / "\"" s:$((chr() / "'")*) "\"" { }) { }
    rule var(e: E) = var:$("python_version" / "python_full_version" / "os_name" / "sys_platform" / "platform_release"
        / "platform_system" / "platform_version" / "platform_machine" / "platform_python_implementation"
        / "implementation_name" / "implementation_version" / "extra") {? }
    rule old() = var:$("os.name" / "sys.platform" / "platform.version" / "platform.machine"
        / "platform.python_implementation") { }
    rule setuptools() = "python_implementation" { }
    rule value(e: E) = _ v:(var(e) / old() / setuptools() / str()) { }
    rule expr(e: E) = _ "(" m:marker(e) _ ")" { } / lhs:value(e) op:op() rhs:value(e) { }
    rule and_(e: E) = lhs:expr(e) _ "and" _ rhs:and_(e) { } / expr(e)
    rule or_(e: E) = lhs:and_(e) _ "or" _ rhs:or_(e) { } / and_(e)
    pub rule marker(e: E) = or_(e)
    rule quoted(e: E) = ";" _ m:marker(e) { }
    rule id() = $(sym() (sym() / "-" / "_" / ".")*)
    rule name() = n:id() {? }
    rule extra() = x:id() {? }
    rule extras() = "[" _ es:(extra() ** (_ "," _)) _ "]" { }
    rule named(e: E) = name:name() _ extras:(extras() / "" { }) _ specs:(versionspec() / "" { }) _ m:(quoted(e)?) { }
    rule url(e: E) = name:name() _ extras:(extras() / "" { }) _ "@" _x:never() { }
    rule never() = "@" {? }
    pub rule requirement(e: E) = _ r:named(e) _ { }
} }'''

RFC = r'''peg::parser! { grammar reference() for str {
    rule nl() = "\r\n" / "\r" / "\n"
    rule value() = $([^ '\r' | '\n']* ** (nl() [' ' | '\t']))
    rule field() = n:$(['\x21'..='\x39' | '\x3b'..='\x7e']+) ":" [' ' | '\t']* v:value() { }
    rule body() = nl() nl() b:$([_]*) { }
    pub rule rfc822ish() = f:(field() ** nl()) body:(body()?) nl()? { }
} }'''

NOTE = "refused"


def grammar_of(ctx, name):
    out = []
    for d, _, fs in os.walk(os.path.join(ctx.repo, "src")):
        for f in sorted(fs):
            if f.endswith(".rs"):
                text = ctx.read(os.path.relpath(os.path.join(d, f), ctx.repo))
                if "peg::parser" in text:
                    try:
                        for n, g in pegram.grammars(text).items():
                            if name in g:
                                out.append((os.path.join(d, f), n, g))
                    except (pegram.Bad, IndexError) as e:
                        ctx.fail("grammar", os.path.relpath(os.path.join(d, f), ctx.repo), "the grammar cannot be read: %s" % e)
    ctx.ob("anchor", "grammar with a rule " + name, len(out) == 1, "found in %s" % [o[0] for o in out])
    if len(out) != 1:
        raise Stop()
    return out[0]


def values(e):
    """the texts an expression's value can be, if they are finitely many"""
    k = e[0]
    if k == "cap":
        e = e[1]
        k = e[0]
        if k == "lit":
            return (e[1],)
        if k == "alt":
            out = []
            for x in e[1]:
                v = values(("cap", x))
                if v is None:
                    return None
                out += v
            return tuple(sorted(set(out)))
        return None
    if k == "alt":
        out = []
        for x in e[1]:
            v = values(x)
            if v is None:
                return None
            out += v
        return tuple(sorted(set(out)))
    if k == "act":
        w = e[3]
        if w == ("part", 0):
            return values(e[1][e[2][0]])
        if isinstance(w, tuple) and w and w[0] == "means" and len(w[1]) == 1:
            (_, res), = w[1]
            if len(res) == 1:
                r, = res
                if re.fullmatch(r"'[^']*'", r):
                    return (r[1:-1],)
    return None


class Reader:
    """what the actions of a grammar of /repo make of their parts, read off the closures they are compiled to"""

    def __init__(self, ctx, mod, special=()):
        self.ctx, self.mod, self.special = ctx, mod, special
        self.ops = None

    def optable(self):
        if self.ops is None:
            fn = self.ctx.fn(r"<posy::vocab::specifier::CompareOp as std::convert::TryFrom<&str>>::try_from$")
            self.ops = {}
            for p in self.ctx.paths(fn):
                txt = [v[1] for t, v in p.facts.items() if isarg(unref(t), "value") and isinstance(v, tuple) and v[0] == "i"]
                if p.ok() and len(txt) == 1 and bare(p.val()).tag == "A":
                    self.ops[txt[0]] = bare(p.val()).a[1]
                elif p.ok():
                    self.ctx.fail("grammar", [fn.path, "other"], "an operator is read as %s when %s" % (show(p.v)[:100], show_facts(p)[:200]))
        return self.ops

    def __call__(self, rule, n, labels, env, exprs):
        if rule in self.special:
            return self.special[rule](labels)
        fns = [f for f in self.ctx.p.fns.values() if re.search(r"::%s::__parse_%s::\{closure#%d\}$" % (self.mod, rule, n), f.path)]
        if len(fns) != 1:
            self.ctx.fail("grammar", [rule, n], "the code of the action was not found")
            return None
        ps = [p for p in self.ctx.paths(fns[0])]
        # the labels whose values are finitely many texts, and the parameters of the rule
        cases = [{}]
        for l, e in exprs.items():
            v = values(e)
            if v is not None:
                cases = [dict(c, **{l: x}) for c in cases for x in v]
        out = []
        for c in cases:
            res = set()
            for p in ps:
                r = self.result(p, c, env, labels, "Result<" in fns[0].ret_ty if hasattr(fns[0], "ret_ty") else None)
                if r is not None:
                    res.add(r)
            if not res:
                res.add(NOTE)
            out.append((tuple(sorted((labels[l][1], v) for l, v in c.items())), frozenset(res)))
        return ("means", frozenset(out))

    def result(self, p, case, env, labels, fallible):
        for t, v in p.facts.items():
            t = unref(t)
            if t.tag == "Arg":
                name = t.a[1]
                if name in case:
                    if isinstance(v, tuple) and v[0] == "i" and v[1] != case[name] or isinstance(v, tuple) and v[0] == "ni" and case[name] in v[1]:
                        return None
                elif name in env and isinstance(v, tuple):
                    if v[0] == "v" and v[1] != env[name] or v[0] == "nv" and env[name] in v[1]:
                        return None
            elif isC(t, "try_from") and "CompareOp" in t.a[0] and isinstance(v, tuple) and v[0] == "v":
                x = unref(t.a[1][0])
                if x.tag == "Arg" and x.a[1] in case and (case[x.a[1]] in self.optable()) != (v[1] == "Ok"):
                    return None
        if p.end != "ret" or p.err():
            return NOTE
        v = p.v
        s = show(p.val() if p.ok() else v)
        return canon(s, case, labels, self.optable)


def canon(s, case, labels, ops):
    for l, x in case.items():
        s = re.sub(r"\$%s(?![\w])" % l, lambda m: "'%s'" % x, s)
    for l, (_, i) in labels.items():
        s = re.sub(r"\$%s(?![\w])" % l, "#%d" % i, s)
    s = re.sub(r"CompareOp::try_from\('([^']*)'\)\?Ok", lambda m: "CompareOp::%s" % ops().get(m.group(1)), s)
    s = re.sub(r"str::replace\('([^']*)', '([^']*)', '([^']*)'\)", lambda m: "'%s'" % m.group(1).replace(m.group(2), m.group(3)), s)
    s = re.sub(r"Box::new\((#\d+)\)", r"\1", s)
    return s


def op_text(op):
    return {"in": "Op::In", "not in": "Op::NotIn"}.get(op) or "Op::Compare(CompareOp::%s)" % {v: k for k, v in SYM.items()}[op]


def means(rows):
    return ("means", frozenset((tuple(sorted(c)), frozenset(r)) for c, r in rows))


def ref_req(rule, n, labels, env, exprs):
    """what PEP 508 makes of it, in posy's vocabulary"""
    P = {l: "#%d" % i for l, (_, i) in labels.items()}
    I = {l: i for l, (_, i) in labels.items()}
    e = env.get("e")
    one = {"many": "Specifiers(%s)", "str": "Value::Literal(%s)"}
    if rule == "str" and n < 2 or rule in ("versionspec", "value", "quoted", "extras", "requirement") or rule == "expr" and n == 0 or rule == "op" and n == 1:
        return ("part", 0)
    if rule in one:
        return means([((), [one[rule] % list(P.values())[0]])])
    if rule == "one":
        return means([(((I["op"], s),), ["Specifier(op: CompareOp::%s, value: %s)" % (o, P["v"])]) for o, s in SYM.items()])
    if rule == "op":
        return means([((), ["'not in'"])])
    if rule == "var":
        return means([(((I["var"], v),), [NOTE if v == "extra" and e == "NotAllowed" else "Value::Variable('%s')" % v]) for v in values(exprs["var"])])
    if rule == "old":
        return means([(((I["var"], v),), ["Value::Variable('%s')" % v.replace(".", "_")]) for v in values(exprs["var"])])
    if rule == "setuptools":
        return means([((), ["Value::Variable('platform_python_implementation')"])])
    if rule == "expr":
        return means([(((I["op"], s),), ["EnvMarkerExpr::Operator(op: %s, lhs: %s, rhs: %s)" % (op_text(s), P["lhs"], P["rhs"])]) for s in list(SYM.values()) + ["in", "not in"]])
    if rule in ("and_", "or_"):
        return means([((), ["EnvMarkerExpr::%s(%s, %s)" % (rule[:-1].capitalize(), P["lhs"], P["rhs"])])])
    if rule in ("name", "extra"):
        return means([((), [NOTE, "%s::try_from(#0)?Ok" % {"name": "PackageName", "extra": "Extra"}[rule]])])
    if rule == "named" and n < 2:
        return means([((), [["Vec::new()", "Specifiers(Vec::new())"][n]])])
    if rule == "named":
        return means([((), ["Requirement(name: %s, extras: %s, specifiers: %s, env_marker_expr: %s)" % (P["name"], P["extras"], P["specs"], P["m"])])])
    return None


def ref_rfc(rule, n, labels, env, exprs):
    P = {l: "#%d" % i for l, (_, i) in labels.items()}
    if rule == "field":
        return means([((), ["(str::to_ascii_lowercase(%s), %s)" % (P["n"], P["v"])])])
    if rule == "body":
        return ("part", 0)
    return ("fields",) + tuple(sorted(i for _, i in labels.values()))


def compare(ctx, rule, gram, reader, ref, refwhat, tops):
    N = 0
    for name, rname, args, rargs in tops:
        r = gram.get(name)
        ctx.ob(rule, [name, "rule"], r is not None and r.pub, "there is no public rule %s" % name)
        if r is None:
            continue
        ctx.ob(rule, [name, "parameters"], len(r.params) == len(args), "it has parameters %s" % r.params)
        if len(r.params) != len(args):
            continue
        try:
            a = pegram.renumber(pegram.Normal(gram, reader).rule(name, args))
            b = pegram.renumber(pegram.Normal(ref, refwhat).rule(rname, rargs))
        except pegram.Bad as e:
            ctx.fail(rule, [name, " ".join(args), "read"], "the grammar cannot be read: %s" % e)
            continue
        d = pegram.difference(a, b)
        ctx.ob(rule, [name, " ".join(args)], d is None, "rule %s: %s" % (name, d))
        N += 1
    ctx.floor("grammar rules compared", N, len(tops))


def pep508(ctx):
    ctx.rule("grammar", "requirements, markers and version specifiers are read by PEP 508's grammar, and every part becomes the value it stands for")
    file, gname, gram = grammar_of(ctx, "requirement")
    ref = pegram.grammars(REQ)["reference"]
    reader = Reader(ctx, gname)
    E = ("Allowed",), ("NotAllowed",)
    compare(ctx, "grammar", gram, reader, ref, ref_req, [("versionspec", "versionspec", (), ())] + [(r, r, e, e) for r in ("marker", "requirement") for e in E])



def part(t, *names):
    """self.a / self's variant payload (.b)"""
    t = unref(t)
    for n in reversed(names[1:]):
        if t.tag not in ("F", "P") or (t.a[1] if t.tag == "F" else t.a[2]) != n:
            return False
        if t.tag == "P":
            return t.a[1] == names[0] and isarg(unref(t.a[0]), "self")
        t = unref(t.a[0])
    if len(names) == 1 or t.tag == "F":
        return t.tag == "F" and t.a[1] == names[0] and isarg(unref(t.a[0]), "self")
    return t.tag in ("P", "V") and t.a[1] == names[0] and isarg(unref(t.a[0]), "self")


def written(p):
    """what a Display writes on a path: constants and terms in order; None if it writes in a way not understood"""
    out = []
    for e in p.evs:
        n = e.name.rsplit("::", 1)[-1]
        if n in ("write_fmt", "write_str", "write_char", "pad") and len(e.args) == 2 and isarg(unref(e.args[0]), "f"):
            x = e.args[1]
        elif n == "fmt" and len(e.args) == 2 and isarg(unref(e.args[1]), "f"):
            x = e.args[0]
        else:
            continue
        if n in ("write_fmt", "write_str", "write_char") or n == "fmt" or n == "pad":
            for y in pieces(x):
                if isinstance(y, str) and out and isinstance(out[-1], str):
                    out[-1] += y
                else:
                    out.append(y)
    return out


def pieces(t):
    t = strip(t) if strip(t).tag == "Fmt" else unref(t)
    out = []
    for x in (fmt_pieces(t) if t.tag == "Fmt" else [t]):
        if not isinstance(x, str):
            x = strip(x)
            if x.tag == "Disp":
                x = strip(x.a[0])
            if unref(x).tag == "K" and not isinstance(unref(x).a[-1], bool):
                x = str(unref(x).a[-1])
            elif isC(unref(x), "String::new"):
                continue
        out.append(x)
    return out


def spell(out, roles):
    """the text written as a pattern over letters for the parts that vary, and constants between <>"""
    s = ""
    for x in out:
        if isinstance(x, str):
            s += x
            continue
        l = [k for k, f in roles.items() if f(x)]
        s += "\x01%s" % l[0] if len(l) == 1 else "\x01?"
    return s


def display(ctx, ty):
    ds = [f for f in ctx.p.find(r"<%s as std::fmt::Display>::fmt$" % ty, derived=True)]
    ctx.ob("anchor", "Display of %s" % ty, len(ds) == 1, "%d found" % len(ds))
    if len(ds) != 1:
        raise Stop()
    return ds[0]


def wrote(p):
    """a way through a Display on which nothing failed to be written"""
    if p.end != "ret" or p.err():
        return False
    v = unref(p.v)
    return p.ok() or isC(v, "write_fmt", "write_str", "write_char", "fmt", "pad")


M = "posy::vocab::requirement::"


def show_w(out):
    return repr([x if isinstance(x, str) else show(x)[:80] for x in out])


def writers(ctx):
    ctx.rule("written", "what is written of a requirement, specifier or marker is what the grammar reads as the same value")
    # markers
    fn = display(ctx, M + "marker::Value")
    n = 0
    for p in ctx.paths(fn):
        if not wrote(p):
            ctx.ob("written", [fn.path, "fails"], p.end == "ret", "it panics")
            continue
        k = next((v[1] for t, v in p.facts.items() if isarg(unref(t), "self") and isinstance(v, tuple) and v[0] == "v"), None)
        out = written(p)
        if k == "Variable":
            okk = len(out) == 1 and not isinstance(out[0], str) and part(out[0], "Variable", "0")
        else:
            has = lambda q: any(isC(bare(t), "contains") and part(bare(t).a[1][0], "Literal", "0") and const(bare(t).a[1][1]) == q and v is False for t, v in p.facts.items())
            q = out[0] if out and isinstance(out[0], str) else None
            other = {'"': "'", "'": '"'}.get(q)
            # a literal never holds both kinds of quotes
            both = any(isC(bare(t), "contains") and part(bare(t).a[1][0], "Literal", "0") and const(bare(t).a[1][1]) == other and v is True for t, v in p.facts.items())
            okk = k == "Literal" and len(out) == 3 and out[0] == out[2] and other is not None and part(out[1], "Literal", "0") and (has(q) or both)
        n += 1
        ctx.ob("written", [fn.path, k], okk, "a %s is written %s when %s" % (k, show_w(out), show_facts(p)[:200]))
    ctx.floor("ways a marker value is written", n, 3)
    fn = display(ctx, M + "marker::EnvMarkerExpr")
    seen = set()
    for p in ctx.paths(fn):
        if not wrote(p):
            ctx.ob("written", [fn.path, "fails"], p.end == "ret", "it panics")
            continue
        k = next((v[1] for t, v in p.facts.items() if isarg(unref(t), "self") and isinstance(v, tuple) and v[0] == "v"), None)
        out = written(p)
        op = next((v[1] for t, v in p.facts.items() if part(t, "Operator", "op") and isinstance(v, tuple) and v[0] == "v"), None)
        f = ("lhs", "rhs", "op") if k == "Operator" else ("0", "1", None)
        roles = {"l": lambda x: part(x, k, f[0]), "r": lambda x: part(x, k, f[1]), "o": lambda x: opof(x)}
        s = spell(out, roles)
        want = {"And": r"\( *\x01l +and +\x01r *\)", "Or": r"\( *\x01l +or +\x01r *\)"}.get(k) or \
            {"Compare": r"\x01l *\x01o *\x01r", "In": r"\x01l +in +\x01r", "NotIn": r"\x01l +not +in +\x01r"}.get(op, "!")
        seen.add(k if k != "Operator" else op)
        ctx.ob("written", [fn.path, k, op], re.fullmatch(want, s) is not None, "%s %s is written %s" % (k, op or "", show_w(out)))
    ctx.ob("written", [fn.path, "all"], seen >= {"And", "Or", "Compare", "In", "NotIn"}, "not every kind of expression is written: %s" % sorted(map(str, seen)))
    # specifiers
    op_table(ctx, "written")
    fn = display(ctx, "posy::vocab::specifier::Specifier")
    for p in ctx.paths(fn):
        if wrote(p):
            s = spell(written(p), {"o": lambda x: part(x, "op"), "v": lambda x: part(x, "value")})
            ctx.ob("written", [fn.path], re.fullmatch(r" *\x01o *\x01v *", s) is not None, "a specifier is written %s" % show_w(written(p)))
    fn = display(ctx, "posy::vocab::specifier::Specifiers")
    src = lambda t: part(t, "0")
    el = lambda x: bare(x).tag == "Elem" and any(src(y) for y in subset(bare(x)))
    sub = lambda f: lambda x: unref(x).tag == "F" and unref(x).a[1] == f and el(unref(x).a[0])
    listed(ctx, fn, src, el, {"o": sub("op"), "v": sub("value")})
    # requirements
    fn = display(ctx, M + "Requirement")
    src = lambda t: part(t, "extras")
    given = lambda x, f: isC(unref(x), "as_given") and f(unref(x).a[1][0]) or f(x)
    el = lambda x: given(x, lambda y: bare(y).tag == "Elem" and any(src(z) for z in subset(bare(y))))
    roles = {"N": lambda x: given(x, lambda y: part(y, "name")), "E": el, "S": lambda x: part(x, "specifiers"),
             "J": lambda x: joined_names(ctx, x, src), "M": lambda x: unref(x).tag == "P" and unref(x).a[1] == "Some" and part(unref(x).a[0], "env_marker_expr")}
    n = 0
    joined = False
    for p in ctx.paths(fn, pure=r"is_empty|as_given"):
        if not wrote(p):
            ctx.ob("written", [fn.path, "fails"], p.end == "ret", "it panics")
            continue
        n += 1
        s = spell(written(p), roles)
        joined |= "\x01J" in s
        m = re.fullmatch(r"\x01N(?: *\[(.*?)\])?(?: *(\(?) *\x01S *(\)?))?(?: *; *(\x01M))? *", s)
        okk = m is not None
        if okk:
            okk = okk and (m.group(1) is None or re.fullmatch(r"[\x01E, ]*|\x01J", m.group(1)) is not None)
            okk = okk and (m.group(2) or "") + (m.group(3) or "") in ("", "()")
            none = lambda f: any(v is True and isC(bare(t), "is_empty") and f(bare(t).a[1][0]) or v is True and bare(t).tag == "NoElem" and any(f(y) for y in subset(t)) for t, v in p.facts.items())
            okk = okk and (m.group(1) is not None or none(src))
            okk = okk and ("\x01S" in s or none(lambda t: part(t, "specifiers") or part(t, "specifiers", "0") or bare(t).tag == "F" and bare(t).a[1] == "0" and part(bare(t).a[0], "specifiers")))
            okk = okk and (m.group(4) is not None or any(part(t, "env_marker_expr") and v == ("v", "None") for t, v in p.facts.items()))
        ctx.ob("written", [fn.path, "parts"], okk, "a requirement is written %s when %s" % (show_w(written(p)), show_facts(p)[:400]))
    ctx.floor("ways a requirement is written", n, 4)
    listed(ctx, fn, src, el, {}, joined)
    for ty in ("PackageRequirement", "UserRequirement", "PythonRequirement", "StandaloneMarkerExpr"):
        fn = display(ctx, M + ty)
        for p in ctx.paths(fn):
            out = written(p)
            ctx.ob("written", [fn.path], wrote(p) and len(out) == 1 and not isinstance(out[0], str) and part(out[0], "0"), "it is written %s" % show_w(out))


def opof(x):
    """the comparison of self's operator"""
    x = unref(x)
    return x.tag == "P" and x.a[1] == "Compare" and part(x.a[0], "Operator", "op")


def const(t):
    t = bare(t)
    return str(t.a[1]) if t.tag == "K" else None


def joined_names(ctx, x, src):
    """the names of self's extras, joined by commas"""
    x = unref(x)
    if not isC(x, "join") or not re.fullmatch(r" *, *", const(x.a[1][1]) or ""):
        return False
    c = strip(x.a[1][0])
    it = strip(c.a[1][0]) if isC(c, "collect") else c
    if it.tag != "Iter" or it.a[0] != "map" or strip(it.a[1]).tag != "Iter" or strip(it.a[1]).a[0] != "src" or not src(strip(it.a[1]).a[1]):
        return False
    fns = clofn(ctx, it.a[2])
    return bool(fns) and all(q.end == "ret" and isC(unref(q.v), "as_given") and unref(unref(q.v).a[1][0]).tag in ("Arg", "CArg") for g in fns for q in ctx.paths(g)) or it.a[2].tag in ("FnV",) and "as_given" in str(it.a[2].a[0])


def listed(ctx, fn, src, el, more={}, joined=False):
    """the elements one after the other, with one comma between any two of them"""
    n = 0
    for p in ctx.iterations(fn, lambda t: any(src(x) for x in subset(bare(t)))):
        if p.end != "next":
            ctx.ob("written", [fn.path, "elements", "all"], p.end == "ret" and p.err(), "the rest of the list is not written when %s" % show_facts(p)[:200])
            continue
        n += 1
        s = spell(written(p), dict({"e": el}, **more))
        first = next((e for e in p.evs if e.args and isarg(unref(e.args[0]), "f")), None)
        before = first is not None and any(f.rsplit("::", 1)[-1].startswith("write") and any(el(y) or any(g(y) for g in more.values()) for x in a for y in pieces(x) if not isinstance(y, str)) for f, a in history(first.args[0]))
        for t, v in p.facts.items():
            t = bare(t)
            if t.tag == "Bin" and bare(t.a[1]).tag == "K" and isC(bare(t.a[2]), "index"):
                before = {("Lt", 0): v, ("Le", 1): v, ("Eq", 0): not v, ("Ne", 0): v}.get((t.a[0], bare(t.a[1]).a[1]), before)
            elif isC(t, "index") and isinstance(v, tuple) and v[0] in ("i", "ni"):
                before = v[0] == "ni" if v[0] == "ni" and 0 in v[1] else int(v[1]) > 0 if v[0] == "i" else before
        s = s.replace("\x01o \x01v", "\x01e").replace("\x01o\x01v", "\x01e")
        want = r" *, *\x01e" if before else r"\x01e"
        ctx.ob("written", [fn.path, "elements", "next" if before else "first"], re.fullmatch(want, s) is not None, "%s element is written %s" % ("the next" if before else "the first", show_w(written(p))))
    if n == 0 and not joined:
        ctx.fail("written", [fn.path, "elements"], "the elements are not written one by one")


def readers(ctx):
    ctx.rule("extra", "the extra variable is read only in a package's own requirements; every way to read one is the grammar's, and refuses nothing else")
    for ty, rule, mode in (("PackageRequirement", "requirement", "Allowed"), ("UserRequirement", "requirement", "NotAllowed"), ("PythonRequirement", "requirement", "NotAllowed"), ("StandaloneMarkerExpr", "marker", "NotAllowed")):
        fn = ctx.fn(r"<%s%s as std::convert::TryFrom<&str>>::try_from$" % (M, ty))
        isread = lambda c: c is not None and isC(c, "parser::" + rule, rule) and len(c.a[1]) == 2 and isarg(unref(c.a[1][0]), "value") and bare(c.a[1][1]).tag == "A" and bare(c.a[1][1]).a[1] == mode
        n = 0
        for p in ctx.paths(fn, inline=[r"Requirement::parse$", r"PythonRequirement as std::convert::TryFrom<.*Requirement>>::try_from$"], pure=r"is_empty"):
            if p.end != "ret":
                ctx.fail("extra", [fn.path, "panic"], "it panics")
                continue
            got = lambda t: okof(unref(t), "parser::" + rule)
            field = lambda t, f: fact_field(t, f, lambda x: isread(got(x)))
            if p.ok():
                v = bare(p.val())
                v = unref(v.a[3][0]) if v.tag == "A" and v.a[0].rsplit("::", 1)[-1] == ty else v
                okk = isread(got(v))
                if ty == "PythonRequirement":
                    okk = okk and any(isC(bare(t), "is_empty") and v is True and field(bare(t).a[1][0], "extras") for t, v in p.facts.items()) and any(v == ("v", "None") and field(t, "env_marker_expr") for t, v in p.facts.items())
                n += 1
                ctx.ob("extra", [fn.path, "read"], okk, "it is %s when %s" % (show(p.v)[:200], show_facts(p)[:300]))
            else:
                okk = any(v == ("v", "Err") and isread(bare(t)) for t, v in p.facts.items())
                if ty == "PythonRequirement":
                    okk = okk or any(isC(bare(t), "is_empty") and v is False and field(bare(t).a[1][0], "extras") for t, v in p.facts.items()) or any(v == ("v", "Some") and field(t, "env_marker_expr") for t, v in p.facts.items())
                ctx.ob("extra", [fn.path, "refused"], okk and (p.err()), "it is refused when %s" % show_facts(p)[:300])
        ctx.floor("ways to read a %s" % ty, n, 1)
        conversions(ctx, "extra", M + ty)
    fn = ctx.fn(r"<posy::vocab::specifier::Specifiers as std::convert::TryFrom<&str>>::try_from$")
    for p in ctx.paths(fn):
        c = okof(unref(p.val()), "parser::versionspec") if p.ok() else None
        isread = lambda c: c is not None and isC(c, "parser::versionspec") and isarg(unref(c.a[1][0]), "input")
        ctx.ob("extra", [fn.path], isread(c) or p.end == "ret" and p.err() and any(v == ("v", "Err") and isread(bare(t)) for t, v in p.facts.items()), "specifiers are read as %s when %s" % (show(p.v)[:200] if p.v is not None else p.end, show_facts(p)[:200]))
    conversions(ctx, "extra", "posy::vocab::specifier::Specifiers")
    # nobody else makes one
    for ty in ("PackageRequirement", "UserRequirement", "PythonRequirement"):
        for fn in constructions(ctx, M + ty):
            fn = fn[0] if isinstance(fn, tuple) else fn
            if is_test(fn):
                continue
            ctx.ob("extra", [ty, root_fn(ctx.p, fn).path], re.search(r"%s as (std::convert::TryFrom<|std::clone::Clone)" % ty, root_fn(ctx.p, fn).path) is not None, "a %s is made without being read" % ty)


def fact_field(t, f, pred):
    t = unref(t)
    return t.tag == "F" and t.a[1] == f and pred(t.a[0])



# ---- metadata files

C = "posy::vocab::core_metadata::"
TAKE = ("take_all", "take_the", "maybe_take_the")


def fieldfile(ctx):
    ctx.rule("fields", "a metadata file is headers in order, continuation lines joined to their header, names without regard to case, every occurrence kept, and the body apart")
    file, gname, gram = grammar_of(ctx, "rfc822ish")
    ref = pegram.grammars(RFC)["reference"]
    last_ = {"rfc822ish": lambda labels: ("fields",) + tuple(sorted(i for _, i in labels.values()))}
    compare(ctx, "fields", gram, Reader(ctx, gname, last_), ref, ref_rfc, [("rfc822ish", "rfc822ish", (), ())])
    # what becomes of the fields
    fns = [f for f in ctx.p.fns.values() if re.search(r"::%s::__parse_rfc822ish::\{closure#\d+\}$" % gname, f.path)]
    ctx.ob("anchor", "the code that collects the fields", len(fns) == 1, "%d found" % len(fns))
    if len(fns) != 1:
        raise Stop()
    fn = fns[0]
    labels = labels_of(gram, "rfc822ish")
    F, B = labels if len(labels) == 2 else ("f", "body")
    for p in ctx.paths(fn):
        if p.end != "ret":
            ctx.fail("fields", [fn.path, "panic"], "it panics")
            continue
        v = bare(p.v)
        flds = dict(zip(v.a[2], v.a[3])) if v.tag == "A" else {}
        m = strip(flds["fields"]) if "fields" in flds else None
        hist = history(m) if m is not None and m.tag == "Acc" else []
        base = unref(m.a[0]) if m is not None and m.tag == "Acc" else m and unref(m)
        okk = m is not None and isC(unref(base), "new") and all(f.rsplit("::", 1)[-1] == "entry" for f, a in hist) and isarg(unref(flds.get("body")), B)
        ctx.ob("fields", [fn.path, "result"], okk, "the file is read as %s" % show(p.v)[:200])
    n = 0
    src = lambda t: isarg(unref(t), F)
    el = lambda t, i: unref(t).tag == "F" and unref(t).a[1] == i and bare(unref(t).a[0]).tag == "Elem" and any(src(x) for x in subset(bare(unref(t).a[0])))
    for p in ctx.iterations(fn, lambda t: any(src(x) for x in subset(bare(t)))):
        n += 1
        names = [last_name(e) for e in p.evs]
        pushes = [e for e in p.evs if last_name(e) in ("push",)]
        okk = p.end == "next" and len(pushes) == 1 and el(pushes[0].args[1], "1")
        if okk:
            t = unref(pushes[0].args[0])
            okk = isC(t, "or_default", "or_insert_with", "or_insert") and isC(unref(t.a[1][0]), "entry") and el(unref(t.a[1][0]).a[1][1], "0")
        ctx.ob("fields", [fn.path, "each"], okk, "a field is dealt with by %s" % [str(e)[:100] for e in p.evs])
    ctx.floor("ways a field is kept", n, 1)
    for it in drops_of(ctx, fn, src):
        ctx.fail("fields", [fn.path, "all"], "not every field is looked at: %s" % it)
    fn = ctx.fn(r"rfc822ish::RFC822ish::parse$")
    isread = lambda c: c is not None and isC(c, "rfc822ish") and isarg(unref(c.a[1][0]), "input")
    for p in ctx.paths(fn):
        okk = isread(okof(unref(p.val()), "rfc822ish")) if p.ok() else p.end == "ret" and p.err() and any(v == ("v", "Err") and isread(bare(t)) for t, v in p.facts.items())
        ctx.ob("fields", [fn.path], okk, "it is read as %s" % (show(p.v)[:200] if p.v is not None else p.end))
    # taking fields
    ctx.rule("taken", "a field is found whatever its case; a field that is to be there once is refused when it is missing or there more often")
    fn = ctx.fn(r"rfc822ish::RFC822ish::take_all$")
    rem = lambda c: isC(c, "remove") and argfield(unref(c.a[1][0]), "self", "fields") and isC(unref(c.a[1][1]), "to_ascii_lowercase", "to_lowercase") and isarg(unref(unref(c.a[1][1]).a[1][0]), "key")
    n = 0
    for p in ctx.paths(fn, pure=r"remove|lowercase"):
        v = unref(p.v) if p.end == "ret" else None
        okk = v is not None and (v.tag == "P" and v.a[1] == "Some" and rem(bare(v.a[0])) or isC(v, "unwrap_or_default") and rem(unref(v.a[1][0])) or
                                 empty(v) and any(rem(bare(t)) and x == ("v", "None") for t, x in p.facts.items()))
        n += 1
        okk = okk and not any(x.tag == "Acc" for x in subset(p.v))
        ctx.ob("taken", [fn.path], okk, "it gives %s when %s" % (show(p.v)[:150] if v is not None else p.end, show_facts(p)[:200]))
    ctx.floor("ways to take every field", n, 1)
    fn = ctx.fn(r"rfc822ish::RFC822ish::maybe_take_the$")
    all_ = lambda t: isC(unref(t), "take_all") and isarg(unref(unref(t).a[1][0]), "self") and isarg(unref(unref(t).a[1][1]), "key")
    some = set()
    for p in ctx.paths(fn, pure=r"take_all|len|is_empty"):
        lo, hi = 0, 1 << 40
        for t, v in p.facts.items():
            t = bare(t)
            if isC(t, "len") and all_(t.a[1][0]):
                if isinstance(v, tuple) and v[0] == "i":
                    lo = max(lo, int(v[1]))
                    hi = min(hi, int(v[1]))
                elif isinstance(v, tuple) and v[0] == "ni":
                    while lo in set(map(int, v[1])):
                        lo += 1
            elif isC(t, "is_empty") and all_(t.a[1][0]) and isinstance(v, bool):
                lo, hi = (lo, 0) if v else (max(lo, 1), hi)
            elif t.tag == "Bin" and isinstance(v, bool):
                a, b = bare(t.a[1]), bare(t.a[2])
                f = lambda a, b, op: None
                for x, y, flip in ((a, b, False), (b, a, True)):
                    if isC(x, "len") and all_(x.a[1][0]) and y.tag == "K":
                        c, op = int(y.a[1]), t.a[0]
                        op = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op) if flip else op
                        if not v:
                            op = {"Lt": "Ge", "Ge": "Lt", "Gt": "Le", "Le": "Gt", "Eq": "Ne", "Ne": "Eq"}[op]
                        lo, hi = {"Lt": (lo, min(hi, c - 1)), "Le": (lo, min(hi, c)), "Gt": (max(lo, c + 1), hi), "Ge": (max(lo, c), hi), "Eq": (max(lo, c), min(hi, c)), "Ne": (lo + (lo == c), hi)}[op]
        if lo > hi:
            continue
        if p.ok():
            v = unref(p.val())
            v = unref(v.a[3][0]) if v.tag == "A" and v.a[1] == "Some" else v
            none = v.tag == "A" and v.a[1] == "None"
            one = isC(v, "pop", "next", "first", "last", "remove", "swap_remove") and any(all_(x) for x in subset(v)) or v.tag == "P" and v.a[1] == "Some" and any(all_(x) for x in subset(v))
            okk = none and hi == 0 or one and (lo == hi == 1 or hi <= 1 and isC(v, "pop", "next", "first", "last"))
            some |= {"none"} if none else {"one"} if lo == 1 else {"none", "one"}
        else:
            okk = p.end == "ret" and p.err() and lo >= 2
            some.add("many")
        ctx.ob("taken", [fn.path, "none" if hi == 0 else "one" if hi == 1 else "many"], okk, "with %d..%d of the field it gives %s" % (lo, hi, show(p.v)[:150] if p.v is not None else p.end))
    ctx.ob("taken", [fn.path, "all"], len(some) == 3, "it does not tell none, one and many apart: %s" % sorted(some))
    fn = ctx.fn(r"rfc822ish::RFC822ish::take_the$")
    it = lambda t: isC(unref(t), "maybe_take_the") and isarg(unref(unref(t).a[1][0]), "self") and isarg(unref(unref(t).a[1][1]), "key")
    isok = lambda t: unref(t).tag == "P" and unref(t).a[1] == "Ok" and it(unref(t).a[0])
    for p in ctx.paths(fn, pure=r"maybe_take_the"):
        if p.ok():
            v = unref(p.val())
            okk = v.tag == "P" and v.a[1] == "Some" and isok(v.a[0])
        else:
            okk = p.end == "ret" and p.err() and any(v == ("v", "Err") and it(t) or v == ("v", "None") and isok(t) for t, v in p.facts.items())
        ctx.ob("taken", [fn.path], okk, "it gives %s when %s" % (show(p.v)[:150] if p.v is not None else p.end, show_facts(p)[:200]))


def empty(v):
    v = unref(v)
    return isC(v, "new", "default") and not v.a[1] or v.tag == "Arr" and not v.a


def labels_of(gram, rule):
    """the labels of a rule's outermost action"""
    e = gram[rule].expr if rule in gram else None
    return [l for l in e[2] if l] if e is not None and e[0] == "action" else []


def drops_of(ctx, fn, src):
    """iterators over src that leave elements out or reorder them"""
    out = set()
    for p in ctx.iterations(fn, lambda t: any(src(x) for x in subset(bare(t)))):
        if p.over is not None:
            for x in subset(p.over):
                if x.tag == "Thin" or x.tag == "Iter" and str(x.a[0]) in ("rev", "filter", "filter_map", "skip", "take", "step_by", "chunks"):
                    out.add(show(p.over)[:100])
    return out


def taken(t, method, key, root):
    """t takes the field called key out of the file read, and nothing took it before"""
    t = unref(t)
    if not (isC(t, method) and len(t.a[1]) == 2 and (const(t.a[1][1]) or "").lower() == key.lower()):
        return False
    r = strip(t.a[1][0])
    for f, a in history(r) if r.tag == "Acc" else ():
        if f.rsplit("::", 1)[-1] in TAKE and any((const(x) or "").lower() == key.lower() for x in a):
            return False
    return root(r.a[0] if r.tag == "Acc" else r)


def okval(t, *names):
    """the Ok payload of a reading of a text -> the text"""
    c = okof(unref(t), *names)
    return c.a[1][0] if c is not None else None


READ = ("try_from", "from_str", "try_into", "parse")


def typed_as(t, ty):
    c = okof(unref(t), *READ)
    return c is not None and ty in c.a[0]


def metadata(ctx):
    ctx.rule("metadata", "a core metadata file is read field by field, each by its own reader; Metadata-Version 3 and later is refused")
    fn = ctx.fn(C + r"parse_common$")
    root = lambda r: okof(unref(r), "RFC822ish::parse") is not None and any(isarg(unref(x), "input") for x in subset(r))
    got = lambda t, key, ty: typed_as(t, ty) and taken_ok(okval(t, *READ), "take_the", key, root)
    three = lambda t: is_three(ctx, t)
    n = 0
    for p in ctx.paths(fn, pure=r"RFC822ish::parse|from_utf8"):
        if p.end != "ret":
            ctx.fail("metadata", [fn.path, "panic"], "it panics")
            continue
        old = None
        for t, v in p.facts.items():
            t = bare(t)
            if t.tag == "Bin" and isinstance(v, bool):
                for x, y, flip in ((t.a[1], t.a[2], False), (t.a[2], t.a[1], True)):
                    if got(x, "Metadata-Version", "Version") and three(y):
                        op = t.a[0]
                        op = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op) if flip else op
                        old = {"Lt": v, "Ge": not v}.get(op, old)
        if p.ok():
            v = bare(p.val())
            parts = v.a if v.tag == "Tup" else ()
            parts = parts[0] if len(parts) == 1 and isinstance(parts[0], tuple) else parts
            n += 1
            okk = len(parts) == 3 and got(parts[0], "Name", "PackageName") and got(parts[1], "Version", "Version")
            ctx.ob("metadata", [fn.path, "name and version"], okk, "name and version are %s" % show(p.v)[:300])
            ctx.ob("metadata", [fn.path, "metadata version"], old is True, "the file is read when %s" % show_facts(p)[:300])
            r = strip(parts[2]) if len(parts) == 3 else None
            ks = {(const(x) or "").lower() for f, a in (history(r) if r is not None and r.tag == "Acc" else ()) for x in a}
            ctx.ob("metadata", [fn.path, "rest"], r is not None and root(r.a[0] if r.tag == "Acc" else r) and ks <= {"metadata-version", "name", "version"}, "the other fields are %s" % (show(r)[:200] if r is not None else "?"))
        else:
            own = any(v == ("v", "Err") for t, v in p.facts.items())
            ctx.ob("metadata", [fn.path, "refused"], own or old is False, "it is refused when %s" % show_facts(p)[:400])
    ctx.floor("ways a metadata file is read", n, 1)
    common = lambda i: lambda t: unref(t).tag == "F" and unref(t).a[1] == i and okof(unref(unref(t).a[0]), "parse_common") is not None
    root = common("2")
    # wheels
    fn = ctx.fn(r"<%sWheelCoreMetadata as std::convert::TryFrom<&\[u8\]>>::try_from$" % C)
    def each(t, key):
        t = bare(t)
        return t.tag == "Elem" and any(taken(x, "take_all", key, root) for x in subset(t))

    def collected(t, key, ty, adds, p):
        t = strip(t)
        el = lambda x: typed_as(x, ty) and each(okval(x, *READ), key)
        if t.tag == "Acc":
            h = history(t)
            return empty(t.a[0]) and bool(h) and all(f.rsplit("::", 1)[-1] in adds and len(a) == 1 and el(a[0]) for f, a in h)
        if empty(t):
            return True
        c = okof(t, "collect") or (t if isC(t, "collect") else None)
        it = strip(c.a[1][0]) if c is not None else None
        # each read by a function of its own
        return it is not None and it.tag == "Iter" and it.a[0] == "map" and strip(it.a[1]).tag == "Iter" and strip(it.a[1]).a[0] == "src" and taken(strip(it.a[1]).a[1], "take_all", key, root) and bool(clofn(ctx, it.a[2])) and \
            all(q.end == "ret" and isC(unref(q.v), *READ) and ty in unref(q.v).a[0] and unref(unref(q.v).a[1][0]).tag in ("Arg", "CArg") or q.end == "ret" and q.ok() and typed_as(q.val(), ty) and unref(okval(q.val(), *READ)).tag in ("Arg", "CArg") or q.end == "ret" and q.err() and any(v == ("v", "Err") for v in q.facts.values())
                for g in clofn(ctx, it.a[2]) for q in ctx.paths(g))
    n = 0
    LIST = {"requires_dist": ("Requires-Dist", "PackageRequirement", ("push",)), "extras": ("Provides-Extra", "Extra", ("insert", "push"))}
    for p in ctx.paths(fn, interesting=lambda e: False):
        if not p.ok():
            ctx.ob("metadata", [fn.path, "refused"], p.end == "ret" and any(v == ("v", "Err") for t, v in p.facts.items()), "it is refused when %s" % show_facts(p)[:300])
            continue
        v = bare(p.val())
        f = dict(zip(v.a[2], v.a[3])) if v.tag == "A" else {}
        n += 1
        ctx.ob("metadata", [fn.path, "name"], common("0")(f.get("name", v)), "the name is %s" % show(f.get("name", v))[:200])
        ctx.ob("metadata", [fn.path, "version"], common("1")(f.get("version", v)), "the version is %s" % show(f.get("version", v))[:200])
        for k, (key, ty, adds) in LIST.items():
            ctx.ob("metadata", [fn.path, k], k in f and collected(f[k], key, ty, adds, p), "%s is %s" % (k, show(f.get(k, v))[:300]))
        rp = f.get("requires_python", v)
        the = lambda t: okof(unref(t), "maybe_take_the") is not None and taken(okof(unref(t), "maybe_take_the"), "maybe_take_the", "Requires-Python", root)
        x = okval(rp, *READ)
        if x is not None:
            okk = typed_as(rp, "Specifiers") and unref(x).tag == "P" and unref(x).a[1] == "Some" and the(unref(x).a[0])
        else:
            y = bare(rp)
            okk = any(the(t) and v == ("v", "None") for t, v in p.facts.items()) and (isC(y, "default") or y.tag == "A" and y.a[0].endswith("Specifiers") and empty(y.a[3][0]))
        ctx.ob("metadata", [fn.path, "requires_python"], okk, "requires_python is %s when %s" % (show(rp)[:200], show_facts(p)[:300]))
    ctx.floor("ways a wheel's metadata is read", n, 2)
    # every requirement and extra
    for k, (key, ty, adds) in LIST.items():
        over = lambda t: any(taken(x, "take_all", key, root) for x in subset(bare(t)))
        m = 0
        for p in ctx.iterations(fn, over):
            m += 1
            bad = [x for x in subset(p.over) if x.tag == "Thin" or x.tag == "Iter" and str(x.a[0]) in ("rev", "filter", "filter_map", "step_by", "skip", "take")] if p.over is not None else []
            ctx.ob("metadata", [fn.path, k, "order"], not bad, "not every %s is read in order: %s" % (key, show(p.over)[:150] if p.over is not None else ""))
            if p.end == "next":
                add = [e for e in p.evs if last_name(e) in adds and len(e.args) == 2]
                okk = len(add) == 1 and typed_as(add[0].args[1], ty) and each(okval(add[0].args[1], *READ), key)
                ctx.ob("metadata", [fn.path, k, "each"], okk, "a %s is dealt with by %s" % (key, [str(e)[:100] for e in p.evs]))
            else:
                ctx.ob("metadata", [fn.path, k, "bad"], p.end == "ret" and p.err() and any(v == ("v", "Err") for t, v in p.facts.items()), "the rest of the %s are not read when %s" % (key, show_facts(p)[:200]))
        if m == 0:
            # read as one collection: the result says what becomes of each
            okk = any(collected(dict(zip(bare(p.val()).a[2], bare(p.val()).a[3]))[k], key, ty, (), p) and not empty(dict(zip(bare(p.val()).a[2], bare(p.val()).a[3]))[k]) for p in ctx.paths(fn, interesting=lambda e: False) if p.ok() and bare(p.val()).tag == "A")
            ctx.ob("metadata", [fn.path, k, "each"], okk, "the %s are not read one by one" % key)
    # pybis
    fn = ctx.fn(r"<%sPybiCoreMetadata as std::convert::TryFrom<&\[u8\]>>::try_from$" % C)
    n = 0
    for p in ctx.paths(fn, interesting=lambda e: False):
        if not p.ok():
            ctx.ob("metadata", [fn.path, "refused"], p.end == "ret" and any(v == ("v", "Err") for t, v in p.facts.items()), "it is refused when %s" % show_facts(p)[:300])
            continue
        n += 1
        v = bare(p.val())
        f = dict(zip(v.a[2], v.a[3])) if v.tag == "A" else {}
        js = lambda t, key: okof(unref(t), "from_str", "from_slice") is not None and "serde_json" in okof(unref(t), "from_str", "from_slice").a[0] and taken_ok(okof(unref(t), "from_str", "from_slice").a[1][0], "take_the", key, root)
        for k, okk in (("name", lambda t: common("0")(t)), ("version", lambda t: common("1")(t)), ("environment_marker_variables", lambda t: js(t, "Pybi-Environment-Marker-Variables")),
                       ("paths", lambda t: js(t, "Pybi-Paths")), ("tags", lambda t: taken(t, "take_all", "Pybi-Wheel-Tag", root))):
            ctx.ob("metadata", [fn.path, k], k in f and okk(f[k]), "%s is %s" % (k, show(f.get(k, v))[:200]))
    ctx.floor("ways a pybi's metadata is read", n, 1)
    fn = ctx.fn(C + r"PybiCoreMetadata::path$")
    for p in ctx.paths(fn, pure="get"):
        g = lambda t: isC(unref(t), "get") and argfield(unref(unref(t).a[1][0]), "self", "paths") and isarg(unref(unref(t).a[1][1]), "key")
        if p.ok():
            v = unref(p.val())
            okk = v.tag == "P" and v.a[1] == "Some" and g(v.a[0])
        else:
            okk = p.end == "ret" and (p.err() and any(g(t) and v == ("v", "None") for t, v in p.facts.items()))
        ctx.ob("metadata", [fn.path], okk, "a path is %s when %s" % (show(p.v)[:150] if p.v is not None else p.end, show_facts(p)[:200]))


def taken_ok(t, method, key, root):
    c = okof(unref(t), method) if t is not None else None
    return c is not None and taken(c, method, key, root)


def is_three(ctx, t):
    """the version 3, spelled out or as a static"""
    t = bare(t)
    for x in subset(t):
        if x.tag == "Static":
            name = x.a[0].rsplit("::", 1)[-1]
            fns = [f for f in ctx.p.fns.values() if re.search(r"::%s(::\{closure#\d+\})?$" % re.escape(name), f.path)]
            vals = [p.v for f in fns if f.kind == "Closure" for p in ctx.paths(f) if p.end == "ret"]
            return bool(vals) and all(is_three(ctx, v) for v in vals)
    c = okof(t, *READ)
    return c is not None and "Version" in c.a[0] and re.fullmatch(r"3(\.0)*", const(c.a[1][0]) or "") is not None


RULES = {"P34": [pep508, writers, readers], "P37": [fieldfile, metadata]}
