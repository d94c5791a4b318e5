"""Enumerates the paths through a small Python program from its syntax tree.

Values are tuples:
  ("const", v)            a constant
  ("g", "pkg.mod.name")   a module, builtin, or something in one
  ("attr", v, name)       an attribute of a value
  ("call", f, args, kw, n)  the result of the n-th such call on the path (kw: sorted pairs)
  ("join", a, b)          a / b, a.joinpath(b), os.path.join(a, b)
  ("item", v, k)          v[k]
  ("elem", v)             some element of v
  ("list", uid, items)    a list made at uid
  ("str", v)              the text of a path or value
  ("fmt", parts)          an f-string or a + b of strings
  ("op", text, args...)   anything else
A path has .facts (list of (value, truth)), .evs (list of events) and .end:
  ("exit", value) / ("raise", text) / ("end",)
Events: ("call", f, args, kw, result), ("set", target, key, value), ("loop", iterable), ("left", iterable).
Functions defined in the program are followed, everything else is opaque.
"""
import ast


class Unsupported(Exception):
    pass


class Path:
    __slots__ = ("env", "facts", "evs", "end", "n")

    def __init__(self):
        self.env, self.facts, self.evs, self.end, self.n = {}, [], [], None, 0

    def copy(self):
        p = Path()
        p.env, p.facts, p.evs, p.end, p.n = dict(self.env), list(self.facts), list(self.evs), self.end, self.n
        return p

    def fact(self, v):
        for a, b in self.facts:
            if a == v:
                return b
        return None


BUILTINS = set(dir(__builtins__)) if not isinstance(__builtins__, dict) else set(__builtins__)
PURE_METHODS = {"exists", "is_dir", "is_file"}
LIMIT = 20000


class Flow:
    def __init__(self, src):
        self.tree = ast.parse(src)
        self.funcs = {}
        self.count = 0
        self.depth = 0

    def run(self):
        p = Path()
        out = []
        for st, (q, v) in self.block(self.tree.body, p):
            if q.end is None:
                q.end = ("end",)
            out.append(q)
        return out

    # statements: yields (status, (path, value)); status: "next", "break", "continue", "return", "stop"
    def block(self, stmts, p):
        res = [("next", (p, None))]
        for s in stmts:
            nxt = []
            for st, (q, v) in res:
                if st != "next":
                    nxt.append((st, (q, v)))
                else:
                    nxt.extend(self.stmt(s, q))
            res = nxt
            self.count += len(res)
            if self.count > LIMIT * 10 or len(res) > LIMIT:
                raise Unsupported("too many paths")
        return res

    def seq(self, ps, status="next"):
        return [("stop" if q.end is not None else status, (q, v)) for q, v in ps]

    def stmt(self, s, p):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("line %d: %s" % (s.lineno, type(s).__name__))
        return m(s, p)

    def s_Pass(self, s, p):
        return [("next", (p, None))]

    s_Global = s_Nonlocal = s_Pass

    def s_Import(self, s, p):
        for a in s.names:
            p.env[a.asname or a.name.split(".")[0]] = ("g", a.name if a.asname else a.name.split(".")[0])
        return [("next", (p, None))]

    def s_ImportFrom(self, s, p):
        for a in s.names:
            p.env[a.asname or a.name] = ("g", "%s.%s" % (s.module, a.name))
        return [("next", (p, None))]

    def s_FunctionDef(self, s, p):
        k = "%s@%d" % (s.name, s.lineno)
        self.funcs[k] = s
        p.env[s.name] = ("fn", k)
        return [("next", (p, None))]

    def s_Expr(self, s, p):
        return self.seq(self.ev(s.value, p))

    def s_Assert(self, s, p):
        out = []
        for q, t in self.cond(s.test, p):
            if q.end is None and not t:
                q.end = ("raise", "AssertionError")
            out.append(("next" if q.end is None else "stop", (q, None)))
        return out

    def s_Return(self, s, p):
        if s.value is None:
            return [("return", (p, ("const", None)))]
        return [("stop" if q.end is not None else "return", (q, v)) for q, v in self.ev(s.value, p)]

    def s_Raise(self, s, p):
        out = []
        for q, v in (self.ev(s.exc, p) if s.exc else [(p, ("op", "reraise"))]):
            if q.end is None:
                if v[0] == "call" and v[1] == ("g", "SystemExit"):
                    q.end = ("exit", v[2][0] if v[2] else ("const", 0))
                else:
                    q.end = ("raise", show(v))
            out.append(("stop", (q, None)))
        return out

    def s_Break(self, s, p):
        return [("break", (p, None))]

    def s_Continue(self, s, p):
        return [("continue", (p, None))]

    def s_Delete(self, s, p):
        for t in s.targets:
            p.evs.append(("set", ("op", ast.unparse(t)), ("const", None), ("op", "deleted")))
        return [("next", (p, None))]

    def s_Assign(self, s, p):
        out = []
        for q, v in self.ev(s.value, p):
            ps = [q]
            if q.end is None:
                for t in s.targets:
                    ps = [r for x in ps for r in self.assign(t, v, x)]
            out.extend((x, None) for x in ps)
        return self.seq(out)

    def s_AnnAssign(self, s, p):
        if s.value is None:
            return [("next", (p, None))]
        out = []
        for q, v in self.ev(s.value, p):
            out.extend((x, None) for x in (self.assign(s.target, v, q) if q.end is None else [q]))
        return self.seq(out)

    def s_AugAssign(self, s, p):
        out = []
        ld = ast.parse(ast.unparse(s.target), mode="eval").body
        for q, old in self.ev(ld, p):
            for r, v in (self.ev(s.value, q) if q.end is None else [(q, None)]):
                if r.end is None:
                    if old[0] == "list" and isinstance(s.op, ast.Add):
                        self.event(r, ("call", ("attr", old, "extend"), (v,), (), ("const", None)))
                        out.append((r, None))
                        continue
                    for x in self.assign(s.target, ("op", type(s.op).__name__, old, v), r):
                        out.append((x, None))
                else:
                    out.append((r, None))
        return self.seq(out)

    def assign(self, t, v, p):
        if isinstance(t, ast.Name):
            p.env[t.id] = v
            return [p]
        if isinstance(t, (ast.Tuple, ast.List)):
            ps = [p]
            off = 0
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    raise Unsupported("starred target")
                ps = [r for q in ps for r in self.assign(x, item(v, i), q)]
            return ps
        if isinstance(t, ast.Attribute):
            out = []
            for q, b in self.ev(t.value, p):
                if q.end is None:
                    self.event(q, ("set", b, ("const", t.attr), v))
                out.append(q)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for q, b in self.ev(t.value, p):
                for r, k in (self.ev(t.slice, q) if q.end is None else [(q, None)]):
                    if r.end is None:
                        self.event(r, ("set", b, k, v))
                    out.append(r)
            return out
        raise Unsupported("target %s" % ast.unparse(t))

    def s_If(self, s, p):
        out = []
        for q, t in self.cond(s.test, p):
            if q.end is not None:
                out.append(("stop", (q, None)))
            else:
                out.extend(self.block(s.body if t else s.orelse, q))
        return out

    def s_For(self, s, p):
        out = []
        for q, it in self.ev(s.iter, p):
            if q.end is not None:
                out.append(("stop", (q, None)))
                continue
            none, one = q.copy(), q
            none.facts.append((("empty", it), True))
            out.extend(self.block(s.orelse, none))
            one.facts.append((("empty", it), False))
            one.evs.append(("loop", it))
            for r in self.assign(s.target, ("elem", it), one):
                for st, (x, v) in self.block(s.body, r):
                    if st in ("next", "continue"):
                        x.evs.append(("next", it))
                        out.extend(self.block(s.orelse, x))
                    elif st == "break":
                        x.evs.append(("left", it))
                        out.append(("next", (x, None)))
                    else:
                        out.append((st, (x, v)))
        return out

    def s_While(self, s, p):
        out = []
        for q, t in self.cond(s.test, p):
            if q.end is not None:
                out.append(("stop", (q, None)))
            elif not t:
                out.extend(self.block(s.orelse, q))
            else:
                q.evs.append(("loop", ("op", ast.unparse(s.test))))
                for st, (x, v) in self.block(s.body, q):
                    if st in ("next", "continue"):
                        if isinstance(s.test, ast.Constant):
                            continue
                        x.evs.append(("next", ("op", ast.unparse(s.test))))
                        out.append(("next", (x, None)))
                    elif st == "break":
                        out.append(("next", (x, None)))
                    else:
                        out.append((st, (x, v)))
        return out

    def s_With(self, s, p):
        ps = [p]
        for w in s.items:
            nxt = []
            for q in ps:
                for r, v in self.ev(w.context_expr, q):
                    if r.end is None and w.optional_vars is not None:
                        nxt.extend(self.assign(w.optional_vars, v, r))
                    else:
                        nxt.append(r)
            ps = nxt
        out = []
        for q in ps:
            out.extend(self.block(s.body, q) if q.end is None else [("stop", (q, None))])
        return out

    def s_Try(self, s, p):
        out = []
        start = p.copy()
        for st, (q, v) in self.block(s.body, p):
            if st == "next":
                out.extend(self.block(s.orelse, q))
            elif q.end is not None and q.end[0] == "raise" and s.handlers:
                pass  # explicit raises inside a try: the handlers below cover them
            else:
                out.append((st, (q, v)))
        # a failure at any of its statements
        for h in s.handlers:
            ty = ast.unparse(h.type) if h.type else "*"
            for i in range(len(s.body)):
                for st, (q, v) in self.block(s.body[:i], start.copy()):
                    if st != "next":
                        continue
                    q.facts.append((("raised", ast.unparse(s.body[i]), ty), True))
                    q.evs.append(("raised", ast.unparse(s.body[i]), ty))
                    if h.name:
                        q.env[h.name] = ("op", "exception", ("const", ty))
                    out.extend(self.block(h.body, q))
        if s.finalbody:
            nxt = []
            for st, (q, v) in out:
                end, q.end = q.end, None
                for st2, (r, v2) in self.block(s.finalbody, q):
                    if st2 == "next":
                        r.end = end
                        nxt.append((st, (r, v)))
                    else:
                        nxt.append((st2, (r, v2)))
            out = nxt
        return out

    # expressions: lists of (path, value)
    def event(self, p, e):
        p.evs.append(e)

    def evs(self, es, p):
        res = [(p, ())]
        for e in es:
            nxt = []
            for q, vs in res:
                if q.end is not None:
                    nxt.append((q, vs))
                    continue
                for r, v in self.ev(e, q):
                    nxt.append((r, vs + (v,)))
            res = nxt
        return res

    def ev(self, e, p):
        if p.end is not None:
            return [(p, None)]
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return [(p, ("op", ast.unparse(e)))]
        return m(e, p)

    def e_Constant(self, e, p):
        return [(p, ("const", e.value))]

    def e_Name(self, e, p):
        if e.id in p.env:
            return [(p, p.env[e.id])]
        return [(p, ("g", e.id))]

    def e_NamedExpr(self, e, p):
        out = []
        for q, v in self.ev(e.value, p):
            if q.end is None:
                q.env[e.target.id] = v
            out.append((q, v))
        return out

    def e_Attribute(self, e, p):
        out = []
        for q, v in self.ev(e.value, p):
            if q.end is not None:
                out.append((q, None))
            elif v[0] == "g":
                out.append((q, ("g", v[1] + "." + e.attr)))
            else:
                out.append((q, ("attr", v, e.attr)))
        return out

    def e_Subscript(self, e, p):
        out = []
        for q, vs in self.evs([e.value, e.slice], p):
            if q.end is not None:
                out.append((q, None))
                continue
            b, k = vs
            out.append((q, item(b, k[1]) if k[0] == "const" and isinstance(k[1], int) else ("item", b, k)))
        return out

    def e_Slice(self, e, p):
        es = [x for x in (e.lower, e.upper, e.step)]
        vals = tuple(x.value if isinstance(x, ast.Constant) else (None if x is None else ast.unparse(x)) for x in es)
        return [(p, ("slice",) + vals)]

    def e_Tuple(self, e, p):
        return [(q, ("tuple",) + vs if q.end is None else None) for q, vs in self.evs(e.elts, p)]

    def e_List(self, e, p):
        out = []
        for q, vs in self.evs(e.elts, p):
            if q.end is None:
                q.n += 1
                out.append((q, ("list", q.n, vs)))
            else:
                out.append((q, None))
        return out

    def e_Dict(self, e, p):
        out = []
        if any(k is None for k in e.keys):
            return [(p, ("op", ast.unparse(e)))]
        n = len(e.keys)
        for q, vs in self.evs(list(e.keys) + list(e.values), p):
            out.append((q, ("dict",) + tuple(zip(vs[:n], vs[n:])) if q.end is None else None))
        return out

    def e_JoinedStr(self, e, p):
        out = []
        for q, vs in self.evs([x.value if isinstance(x, ast.FormattedValue) else x for x in e.values], p):
            out.append((q, fmt(vs) if q.end is None else None))
        return out

    def e_BinOp(self, e, p):
        out = []
        for q, vs in self.evs([e.left, e.right], p):
            if q.end is not None:
                out.append((q, None))
            elif isinstance(e.op, ast.Div):
                out.append((q, ("join", unstr(vs[0]), unstr(vs[1]))))
            elif isinstance(e.op, ast.Add):
                out.append((q, fmt(vs)))
            else:
                out.append((q, ("op", type(e.op).__name__) + vs))
        return out

    def e_UnaryOp(self, e, p):
        if isinstance(e.op, ast.Not):
            return [(q, ("const", t) if q.end is None else None) for q, t in self.cond(e, p)]
        return [(q, ("op", type(e.op).__name__, v) if q.end is None else None) for q, v in self.ev(e.operand, p)]

    def e_BoolOp(self, e, p):
        # a value: follow the short circuit
        out = []
        conj = isinstance(e.op, ast.And)
        cur = [p]
        for i, x in enumerate(e.values):
            nxt = []
            for q in cur:
                for r, v in self.ev(x, q):
                    if r.end is not None or i == len(e.values) - 1:
                        out.append((r, v))
                        continue
                    for t, b in self.fork(r, v):
                        if b is conj:
                            nxt.append(t)
                        else:
                            out.append((t, v))
            cur = nxt
        return out

    def e_Compare(self, e, p):
        out = []
        for q, vs in self.evs([e.left] + e.comparators, p):
            if q.end is not None:
                out.append((q, None))
            elif len(vs) == 2:
                out.append((q, cmp_(type(e.ops[0]).__name__, vs[0], vs[1])))
            else:
                out.append((q, ("op", "chain") + vs))
        return out

    def e_IfExp(self, e, p):
        out = []
        for q, t in self.cond(e.test, p):
            out.extend(self.ev(e.body if t else e.orelse, q))
        return out

    def e_ListComp(self, e, p):
        g = e.generators[0]
        if len(e.generators) != 1:
            return [(p, ("op", ast.unparse(e)))]
        out = []
        for q, it in self.ev(g.iter, p):
            if q.end is not None:
                out.append((q, None))
                continue
            saved = dict(q.env)
            q.n += 1
            uid = q.n
            none = q.copy()
            none.facts.append((("empty", it), True))
            out.append((none, ("list", uid, ())))
            q.facts.append((("empty", it), False))
            q.evs.append(("loop", it))
            for r in self.assign(g.target, ("elem", it), q):
                rs = [(r, True)]
                for c in g.ifs:
                    rs = [z for x, t in rs for z in (self.cond(c, x) if t and x.end is None else [(x, t)])]
                for x, t in rs:
                    if x.end is not None:
                        out.append((x, None))
                        continue
                    if not t:
                        x.evs.append(("next", it))
                        x.env = dict(saved)
                        out.append((x, ("list", uid, ())))
                        continue
                    for y, v in self.ev(e.elt, x):
                        if y.end is None:
                            y.evs.append(("call", ("attr", ("list", uid, ()), "append"), (v,), (), ("const", None)))
                            y.evs.append(("next", it))
                            y.env = dict(saved)
                        out.append((y, ("list", uid, ()) if y.end is None else None))
        return out

    e_GeneratorExp = e_ListComp

    def e_Lambda(self, e, p):
        k = "lambda@%d:%d" % (e.lineno, e.col_offset)
        f = ast.FunctionDef(name=k, args=e.args, body=[ast.Return(value=e.body)], decorator_list=[], lineno=e.lineno)
        self.funcs[k] = f
        return [(p, ("fn", k))]

    def e_Starred(self, e, p):
        return [(q, ("star", v)) for q, v in self.ev(e.value, p)]

    def e_Call(self, e, p):
        out = []
        kws = [k.arg for k in e.keywords]
        for q, vs in self.evs([e.func] + list(e.args) + [k.value for k in e.keywords], p):
            if q.end is not None:
                out.append((q, None))
                continue
            f, args, kw = vs[0], vs[1:1 + len(e.args)], tuple(sorted(zip([k or "**" for k in kws], vs[1 + len(e.args):]), key=lambda x: x[0]))
            out.extend(self.call(f, args, kw, q))
        return out

    def call(self, f, args, kw, q):
        if f[0] == "fn" and self.depth < 6 and not any(a[0] == "star" for a in args):
            d = self.funcs[f[1]]
            a = d.args
            if not (a.vararg or a.kwarg):
                names = [x.arg for x in a.posonlyargs + a.args]
                bind = dict(zip(names, args))
                bind.update(dict(kw))
                dflt = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
                dflt.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
                for k, v in dflt.items():
                    if k not in bind:
                        bind[k] = ("const", v.value) if isinstance(v, ast.Constant) else ("op", ast.unparse(v))
                saved = q.env
                q.env = dict(saved)
                q.env.update(bind)
                self.depth += 1
                out = []
                glob = {n for s in ast.walk(d) if isinstance(s, (ast.Global, ast.Nonlocal)) for n in s.names}
                for st, (r, v) in self.block(d.body, q):
                    env = dict(saved)
                    env.update({n: r.env[n] for n in glob if n in r.env})
                    r.env = env
                    out.append((r, (v if st == "return" else ("const", None)) if r.end is None else None))
                self.depth -= 1
                return out
        if f in (("g", "exit"), ("g", "quit"), ("g", "sys.exit"), ("g", "os._exit"), ("g", "builtins.exit")):
            q.end = ("exit", args[0] if args else ("const", 0))
            return [(q, None)]
        if f in (("g", "pathlib.Path"), ("g", "pathlib.PurePath"), ("g", "pathlib.PosixPath")) and len(args) == 1:
            return [(q, unstr(args[0]))]
        if f == ("g", "pathlib.Path") and len(args) > 1:
            v = unstr(args[0])
            for a in args[1:]:
                v = ("join", v, unstr(a))
            return [(q, v)]
        if f in (("g", "str"), ("g", "os.fspath"), ("g", "os.fsdecode")) and len(args) == 1 and not kw:
            return [(q, args[0] if args[0][0] in ("const", "fmt", "str") else ("str", args[0]))]
        if f == ("g", "os.path.join") or f[0] == "attr" and f[2] == "joinpath" or f[0] == "g" and f[1].endswith(".joinpath"):
            vs = ([f[1]] if f[0] == "attr" else []) + list(args)
            v = unstr(vs[0])
            for a in vs[1:]:
                v = ("join", v, unstr(a))
            return [(q, v)]
        if f == ("g", "os.path.exists") and len(args) == 1:
            f, args = ("attr", unstr(args[0]), "exists"), ()
        if f == ("g", "list") and len(args) == 1 and args[0][0] in ("list",):
            return [(q, args[0])]
        if f == ("g", "getattr") and len(args) == 2 and args[1][0] == "const" and not kw:
            v = args[0]
            return [(q, ("g", "%s.%s" % (v[1], args[1][1])) if v[0] == "g" else ("attr", v, args[1][1]))]
        if f[0] == "attr" and f[2] in PURE_METHODS or f == ("g", "hasattr"):
            r = ("call", f, args, kw, 0)
        else:
            q.n += 1
            r = ("call", f, args, kw, q.n)
        self.event(q, ("call", f, args, kw, r))
        return [(q, r)]

    # conditions: lists of (path, bool)
    def cond(self, e, p):
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(q, None if q.end is not None else not t) for q, t in self.cond(e.operand, p)]
        if isinstance(e, ast.BoolOp):
            conj = isinstance(e.op, ast.And)
            out, cur = [], [p]
            for i, x in enumerate(e.values):
                nxt = []
                for q in cur:
                    for r, t in self.cond(x, q):
                        if r.end is not None or i == len(e.values) - 1 or t is not conj:
                            out.append((r, t))
                        else:
                            nxt.append(r)
                cur = nxt
            return out
        out = []
        for q, v in self.ev(e, p):
            if q.end is not None:
                out.append((q, None))
            else:
                out.extend(self.fork(q, v))
        return out

    def fork(self, q, v):
        pos = True
        if v[0] == "const":
            return [(q, bool(v[1]))]
        if v[0] == "cmp" and v[1] in NEG:
            v, pos = ("cmp", NEG[v[1]]) + v[2:], False
        if v[0] == "list" and not any(e[0] == "call" and e[1] == ("attr", v, "append") for e in q.evs):
            return [(q, bool(v[2]))]
        known = None
        for i in range(len(q.facts) - 1, -1, -1):
            if q.facts[i][0] == v:
                known = q.facts[i][1]
                break
        if known is not None and v[0] == "call" and v[4] == 0:
            # a test of the file system holds only until something is called
            seen = False
            for e in reversed(q.evs):
                if e[0] == "call" and e[4] != v and not (e[1][0] == "attr" and e[1][2] in PURE_METHODS):
                    known = None
                    break
                if e[0] == "call" and e[4] == v:
                    if seen:
                        break
                    seen = True
        if known is not None:
            return [(q, known is pos)]
        a, b = q, q.copy()
        a.facts.append((v, True))
        b.facts.append((v, False))
        return [(a, pos), (b, not pos)]


NEG = {"NotEq": "Eq", "NotIn": "In", "IsNot": "Is"}


def cmp_(op, a, b):
    if op in ("Eq", "NotEq", "Is", "IsNot"):
        if a[0] == "const" and b[0] == "const":
            eq = a[1] == b[1]
            return ("const", eq if op in ("Eq", "Is") else not eq)
        if a[0] == "const":
            a, b = b, a
    return ("cmp", op, a, b)


def item(v, i):
    if v[0] == "tuple" and isinstance(i, int) and i < len(v) - 1:
        return v[1 + i]
    if v == ("g", "sys.argv"):
        return ("argv", i)
    if v[0] == "item" and v[1] == ("g", "sys.argv") and v[2][0] == "slice" and v[2][2:] == (None, None):
        return ("argv", (v[2][1] or 0) + i)
    return ("item", v, ("const", i))


def fmt(vs):
    out = []
    for v in vs:
        out.extend(v[1] if v[0] == "fmt" else (v,))
    m = []
    for v in out:
        if v == ("const", ""):
            continue
        if m and m[-1][0] == "const" and v[0] == "const" and isinstance(v[1], str) and isinstance(m[-1][1], str):
            m[-1] = ("const", m[-1][1] + v[1])
        else:
            m.append(v)
    if len(m) == 1 and m[0][0] == "const":
        return m[0]
    return ("fmt", tuple(m))


def unstr(v):
    while v[0] == "str":
        v = v[1]
    return v


def show(v):
    if not isinstance(v, tuple) or not v:
        return repr(v)
    k = v[0]
    if k == "const":
        return repr(v[1])
    if k == "g":
        return v[1]
    if k == "attr":
        return "%s.%s" % (show(v[1]), v[2])
    if k == "call":
        return "%s(%s)" % (show(v[1]), ", ".join([show(a) for a in v[2]] + ["%s=%s" % (a, show(b)) for a, b in v[3]]))
    if k == "join":
        return "%s / %s" % (show(v[1]), show(v[2]))
    if k == "argv":
        return "argv[%s]" % v[1]
    if k == "list":
        return "[%s]" % ", ".join(show(x) for x in v[2])
    if k == "str":
        return "str(%s)" % show(v[1])
    return "%s(%s)" % (k, ", ".join(show(x) if isinstance(x, tuple) else repr(x) for x in v[1:]))


def paths(src):
    return Flow(src).run()
