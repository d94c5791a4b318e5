"""peg::parser! grammars: read from the source, brought into a normal form in which two grammars can be compared.

An expression is a tuple:
  ("lit", text) ("set", frozenset of code points as ranges, negated) ("seq", items) ("alt", branches) ("star"|"plus"|"opt", e)
  ("sep0"|"sep1", e, separator) ("cap", e) the text matched ("not", e) ("and", e) ("pos",)
  ("act", (parts..), (label positions..), what) an action on the labelled parts   ("rec", name) a rule that contains itself
"""
import re


class Bad(Exception):
    pass


ESC = {"n": "\n", "r": "\r", "t": "\t", "0": "\0", "\\": "\\", "'": "'", '"': '"'}


def unescape(s):
    out, i = [], 0
    while i < len(s):
        if s[i] != "\\":
            out.append(s[i])
            i += 1
        elif s[i + 1] == "x":
            out.append(chr(int(s[i + 2:i + 4], 16)))
            i += 4
        elif s[i + 1] == "u":
            j = s.index("}", i)
            out.append(chr(int(s[i + 3:j], 16)))
            i = j + 1
        elif s[i + 1] in ESC:
            out.append(ESC[s[i + 1]])
            i += 2
        else:
            raise Bad("escape %r" % s[i:i + 4])
    return "".join(out)


TOK = re.compile(r"""(?P<ws>\s+|//[^\n]*|/\*.*?\*/)|(?P<str>"(?:[^"\\]|\\.)*")|(?P<raw>r(?P<h>\#*)".*?"(?P=h))|(?P<chr>'(?:[^'\\]|\\(?:x..|u\{[^}]*\}|.))')|(?P<life>'[A-Za-z_]\w*)|(?P<id>[A-Za-z_]\w*)|(?P<num>\d+)|(?P<op>\*\*|\+\+|\.\.=|->|=>|::|[^\s])""", re.S | re.X)


def tokens(s):
    out, i = [], 0
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise Bad("token at %r" % s[i:i + 20])
        i = m.end()
        k = m.lastgroup if m.lastgroup != "h" else "raw"
        if m.group("raw") is not None:
            k = "raw"
        if k != "ws":
            out.append((k, m.group(0)))
    return out


def grammars(text):
    """every peg::parser! of a source text -> {grammar name: {rule name: Rule}}"""
    toks = tokens(text)
    out = {}
    i = 0
    while i < len(toks):
        if [t[1] for t in toks[i:i + 4]] == ["peg", "::", "parser", "!"]:
            j = close(toks, i + 4)
            out.update(grammar(toks[i + 5:j]))
            i = j
        i += 1
    return out


def close(toks, i):
    """the index of the bracket that closes the one at i"""
    pair = {"(": ")", "[": "]", "{": "}"}
    st = [pair[toks[i][1]]]
    j = i
    while st:
        j += 1
        if toks[j][0] == "op":
            if toks[j][1] in pair:
                st.append(pair[toks[j][1]])
            elif toks[j][1] == st[-1]:
                st.pop()
            elif toks[j][1] in ")]}":
                raise Bad("brackets")
    return j


class Rule:
    def __init__(self, name, params, pub, returns, expr):
        self.name, self.params, self.pub, self.returns, self.expr = name, params, pub, returns, expr


def grammar(toks):
    i = 0
    while toks[i][1] != "grammar":
        i += 1
    name = toks[i + 1][1]
    i += 2
    while toks[i][1] != "{":
        i += 1
    end = close(toks, i)
    body = toks[i + 1:end]
    rules = {}
    j = 0
    starts = []
    depth = 0
    for j, t in enumerate(body):
        if t[0] == "op" and t[1] in "([{":
            depth += 1
        elif t[0] == "op" and t[1] in ")]}":
            depth -= 1
        elif depth == 0 and t == ("id", "rule") and j + 1 < len(body):
            starts.append(j)
        elif depth == 0 and t == ("id", "use"):
            starts.append(-j)
    for n, s in enumerate(starts):
        if s < 0:
            continue
        e = next((abs(x) for x in starts[n + 1:]), len(body))
        t = body[s:e]
        pub = s > 0 and body[s - 1] == ("id", "pub")
        if t[-1] == ("id", "pub"):
            t = t[:-1]
        k = 1
        if t[k] == ("id", "pub"):
            k += 1
        rn = t[k][1]
        k += 1
        if t[k][1] == "<":
            raise Bad("generic rules")
        params = []
        if t[k][1] == "(":
            c = close(t, k)
            params = [t[q][1] for q in range(k + 1, c) if t[q][0] == "id" and t[q + 1][1] == ":" and t[q + 1][0] == "op"]
            k = c + 1
        returns = []
        while t[k][1] != "=":
            returns.append(t[k][1])
            k += 1
        P = Parser(t[k + 1:])
        ex = P.choice()
        if P.i != len(P.t):
            raise Bad("rule %s: left over %r" % (rn, [x[1] for x in P.t[P.i:P.i + 5]]))
        rules[rn] = Rule(rn, params, pub, "".join(returns[1:]), ex)
    return {name: rules}


class Parser:
    def __init__(self, t):
        self.t, self.i, self.acts = t, 0, 0

    def peek(self, n=0):
        return self.t[self.i + n] if self.i + n < len(self.t) else ("end", "")

    def at(self, s):
        return self.peek()[1] == s and self.peek()[0] in ("op", "id")

    def eat(self, s):
        if not self.at(s):
            raise Bad("%r where %r is expected" % (self.peek()[1], s))
        self.i += 1

    def choice(self):
        out = [self.seq()]
        while self.at("/"):
            self.i += 1
            out.append(self.seq())
        return ("alt", tuple(out)) if len(out) > 1 else out[0]

    def seq(self):
        items, labels = [], []
        mark = self.acts
        while True:
            k, s = self.peek()
            if k == "end" or k == "op" and s in ("/", ")", "}"):
                break
            if k == "op" and s == "{":
                c = close(self.t, self.i)
                body = self.t[self.i + 1:c]
                self.i = c + 1
                fallible = bool(body) and body[0][1] == "?"
                n = self.acts
                self.acts += 1
                return ("action", tuple(items), tuple(labels), n, fallible)
            label = None
            if k == "id" and self.peek(1) == ("op", ":") and s not in ("quiet", "expected"):
                label = s
                self.i += 2
            items.append(self.suffix())
            labels.append(label)
        if any(labels):
            raise Bad("labels without an action")
        if len(items) == 1:
            return items[0]
        return ("seq", tuple(items))

    def suffix(self):
        if self.at("&") or self.at("!"):
            k = self.peek()[1]
            self.i += 1
            return ("and" if k == "&" else "not", self.suffix())
        if self.at("$") and self.peek(1)[1] == "(":
            self.i += 1
            c = close(self.t, self.i)
            P = self.sub(c)
            return self.post(("cap", P))
        return self.post(self.prim())

    def sub(self, c):
        """the choice between the bracket at hand and the one at c"""
        start = self.i
        whole = self.t
        self.t = whole[:c]
        self.i = start + 1
        e = self.choice()
        if self.i != c:
            raise Bad("left over %r" % (self.peek(),))
        self.t = whole
        self.i = c + 1
        return e

    def post(self, e):
        while True:
            if self.at("*") or self.at("+") or self.at("?"):
                e = ({"*": "star", "+": "plus", "?": "opt"}[self.peek()[1]], e)
                self.i += 1
                if e[0] in ("star",) and self.at("<"):
                    raise Bad("bounded repetition")
            elif self.at("**") or self.at("++"):
                k = "sep0" if self.peek()[1] == "**" else "sep1"
                self.i += 1
                if self.at("<"):
                    raise Bad("bounded repetition")
                e = (k, e, self.prim())
            else:
                return e

    def prim(self):
        k, s = self.peek()
        if k == "str":
            self.i += 1
            return ("lit", unescape(s[1:-1]))
        if k == "raw":
            self.i += 1
            return ("lit", s[s.index('"') + 1:s.rindex('"')])
        if k == "op" and s == "[":
            c = close(self.t, self.i)
            e = charset(self.t[self.i + 1:c])
            self.i = c + 1
            return e
        if k == "op" and s == "(":
            return self.sub(close(self.t, self.i))
        if k == "id" and s in ("quiet", "expected") and self.peek(1)[1] == "!":
            self.i += 2
            c = close(self.t, self.i)
            if s == "expected":
                self.i = c + 1
                return ("fail",)
            return self.sub(c)
        if k == "id" and s == "position" and self.peek(1)[1] == "!":
            self.i = close(self.t, self.i + 2) + 1
            return ("pos",)
        if k == "id" and self.peek(1)[1] == "(":
            c = close(self.t, self.i + 1)
            args = [x[1] for x in self.t[self.i + 2:c]]
            self.i = c + 1
            return ("call", s, tuple("".join(args).split(",")) if args else ())
        if k == "id":
            self.i += 1
            return ("call", s, ())
        raise Bad("%r" % s)


def charset(t):
    neg = bool(t) and t[0][1] == "^"
    t = t[1:] if neg else t
    if [x[1] for x in t] == ["_"]:
        return ("set", ((0, 0x10ffff),)) if not neg else ("fail",)
    out, i = [], 0
    while i < len(t):
        if t[i][0] != "chr":
            raise Bad("in a set: %r" % t[i][1])
        a = ord(unescape(t[i][1][1:-1]))
        if i + 1 < len(t) and t[i + 1][1] in ("..=",):
            b = ord(unescape(t[i + 2][1][1:-1]))
            i += 3
        else:
            b = a
            i += 1
        out.append((a, b))
        if i < len(t):
            if t[i][1] != "|":
                raise Bad("in a set: %r" % t[i][1])
            i += 1
    return ("set", ranges(out, neg))


def ranges(l, neg=False):
    out = []
    for a, b in sorted(l):
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(b, out[-1][1]))
        else:
            out.append((a, b))
    if neg:
        r, p = [], 0
        for a, b in out:
            if p < a:
                r.append((p, a - 1))
            p = b + 1
        if p <= 0x10ffff:
            r.append((p, 0x10ffff))
        out = r
    return tuple(out)


class Normal:
    """normal forms; what(rule name, number of the action) -> what the action makes of its labelled parts, where
    ("part", i) stands for the i-th labelled part; None if it is not known"""

    def __init__(self, rules, what):
        self.rules, self.what, self.memo, self.stack = rules, what, {}, []
        self.recs = {}

    def rule(self, name, args=()):
        return self.call(name, args)

    def call(self, name, args):
        if name not in self.rules:
            raise Bad("no rule %s" % name)
        key = name, args
        if key in self.stack:
            # the rule within itself: told by how far up it was begun
            self.used.add(key)
            return ("rec", self.root(key))
        if key in self.memo:
            return self.memo[key]
        self.stack.append(key)
        r = self.rules[name]
        used, self.used = getattr(self, "used", set()), set()
        e = self.norm(r.expr, name, dict(zip(r.params, args)))
        self.stack.pop()
        rec = key in self.used
        self.used.discard(key)
        if rec:
            e = ("mu", self.root(key), e)
        if not self.used:
            self.memo[key] = e
        self.used |= used
        return e

    def root(self, key):
        return self.recs.setdefault(key, "%d" % len(self.recs))

    def norm(self, e, rule, env):
        k = e[0]
        n = lambda x: self.norm(x, rule, env)
        if k == "call":
            return self.call(e[1], tuple(env.get(a, a) for a in e[2]))
        if k in ("star", "plus", "opt", "cap", "not", "and"):
            x = n(e[1])
            if k == "cap" and x[0] == "cap":
                return x
            if k == "cap":
                x = plain(x)
            return (k, x)
        if k in ("sep0", "sep1"):
            return (k, n(e[1]), plain(n(e[2])))
        if k == "seq":
            return seq([plain(n(x)) for x in e[1]])
        if k == "action":
            parts, pos = [], []
            for x, l in zip(e[1], e[2]):
                x = n(x)
                if l is None:
                    x = plain(x)
                    if x == ("seq", ()):
                        continue
                    if x[0] == "seq":
                        parts += list(x[1])
                        continue
                else:
                    pos.append((l, len(parts)))
                parts.append(x)
                # parts without a label, side by side, are one piece
                at = pos[-1][1] + 1 if pos else 0
                if l is None and len(parts) - at > 1:
                    y = seq(parts[at:])
                    parts[at:] = list(y[1]) if y[0] == "seq" else [y]
            if ("fail",) in parts:
                return ("fail",)
            w = self.what(rule, e[3], {l: ("part", i) for i, (l, _) in enumerate(pos)}, env, {l: parts[i] for l, i in pos})
            if len(pos) == 1 and isinstance(w, tuple) and w and w[0] == "means" and all(r == frozenset([repr(c[0][1])]) if c else r == frozenset(["#0"]) for c, r in w[1]):
                w = ("part", 0)
            if never(w):
                return ("fail",)
            if w == ("part", 0) and len(pos) == 1 and not e[4] and len(parts) == 1:
                return parts[0]
            return ("act", tuple(parts), tuple(i for _, i in pos), w)
        if k == "alt":
            return alt([n(x) for x in e[1]])
        return e


def plain(e):
    """the expression where its value does not matter"""
    k = e[0]
    if k == "cap":
        return plain(e[1])
    if k == "act":
        # a fallible action can still refuse
        if e[3] is not None and not may_refuse(e[3]):
            return seq([plain(x) for x in e[1]])
        return e
    if k in ("star", "plus", "opt"):
        return (k, plain(e[1]))
    if k in ("sep0", "sep1"):
        return (k, plain(e[1]), plain(e[2]))
    if k == "alt":
        return alt([plain(x) for x in e[1]])
    if k == "seq":
        return seq([plain(x) for x in e[1]])
    return e


def may_refuse(w):
    return w is None or "refused" in repr(w)


def never(w):
    """the action refuses whatever it is given"""
    return isinstance(w, tuple) and len(w) == 2 and w[0] == "means" and all(r == frozenset(["refused"]) for _, r in w[1])


def seq(items):
    out = []
    for x in items:
        if x[0] == "seq":
            out += list(x[1])
        else:
            out.append(x)
    if ("fail",) in out:
        return ("fail",)
    res = []
    for x in out:
        if x == ("lit", "") or x == ("opt", ("fail",)) or x == ("star", ("fail",)):
            continue
        if x[0] == "star" and single(x[1]) is not None and res and res[-1] in (x, ("plus", x[1])):
            continue
        if x[0] == "plus" and single(x[1]) is not None and res and res[-1] in (("star", x[1]), x[1]):
            if res[-1][0] == "star":
                res[-1] = x
                continue
        if res and x[0] == "lit" and res[-1][0] == "lit":
            res[-1] = ("lit", res[-1][1] + x[1])
        elif res and x[0] == "star" and res[-1] == x[1]:
            res[-1] = ("plus", x[1])
        elif res and x[0] == "set" and len(x[1]) == 1 and x[1][0][0] == x[1][0][1] and res[-1][0] == "lit":
            res[-1] = ("lit", res[-1][1] + chr(x[1][0][0]))
        else:
            res.append(x)
    if len(res) == 1:
        return res[0]
    return ("seq", tuple(res))


def single(e):
    if e[0] == "set":
        return e[1]
    if e[0] == "lit" and len(e[1]) == 1:
        return ((ord(e[1]), ord(e[1])),)
    return None


def first(e):
    """the characters e can begin with, or None if it may match nothing (or is not known)"""
    k = e[0]
    if k == "lit":
        return ((ord(e[1][0]),) * 2,) if e[1] else None
    if k == "set":
        return e[1]
    if k in ("plus", "cap", "sep1"):
        return first(e[1])
    if k in ("seq", "act"):
        out = []
        for x in e[1]:
            if x[0] in ("star", "opt") and first(x[1]) is not None:
                out += list(first(x[1]))
                continue
            f = first(x)
            return ranges(out + list(f)) if f is not None else None
        return None
    if k == "alt":
        fs = [first(x) for x in e[1]]
        return None if None in fs else ranges([r for f in fs for r in f])
    if k == "mu":
        return first(e[2])
    return None


def meets(a, b):
    return any(x[0] <= y[1] and y[0] <= x[1] for x in a for y in b)


def swappable(a, b):
    """a / b is b / a"""
    la, lb = (x if x[0] != "seq" else x[1][0] if x[1] and x[1][0][0] == "lit" else x for x in (a, b))
    if la[0] == lb[0] == "lit":
        return not la[1].startswith(lb[1]) and not lb[1].startswith(la[1])
    fa, fb = first(a), first(b)
    return fa is not None and fb is not None and not meets(fa, fb)


def begins(e, s):
    """e can only match a text that begins with s"""
    if e[0] in ("seq", "act") and e[1]:
        e = e[1][0]
    return e[0] == "lit" and e[1].startswith(s)


def alt(items):
    out = []
    for x in items:
        if x[0] == "alt":
            out += list(x[1])
        elif x[0] != "fail":
            out.append(x)
    res = []
    for x in out:
        s = single(x)
        if any(y == x or y[0] == "lit" and begins(x, y[1]) for y in res):
            continue
        if s is not None and res and single(res[-1]) is not None:
            res[-1] = ("set", ranges(list(single(res[-1])) + list(s)))
        else:
            res.append(x)
    # a canonical order as far as the order does not matter
    for i in range(1, len(res)):
        j = i
        while j > 0 and repr(res[j]) < repr(res[j - 1]) and swappable(res[j - 1], res[j]):
            res[j - 1], res[j] = res[j], res[j - 1]
            j -= 1
    merged = []
    for x in res:
        s = single(x)
        if s is not None and merged and single(merged[-1]) is not None:
            merged[-1] = ("set", ranges(list(single(merged[-1])) + list(s)))
        else:
            merged.append(x)
    if not merged:
        return ("fail",)
    res = merged
    res = [("set", single(x)) if single(x) is not None and x[0] == "lit" and len(res) > 1 and False else x for x in res]
    return res[0] if len(res) == 1 else ("alt", tuple(res))


def renumber(e):
    """the numbers of rules that contain themselves, in the order they come"""
    m = {}

    def go(x):
        if isinstance(x, tuple):
            if x and x[0] in ("mu", "rec") and isinstance(x[1], str):
                return (x[0], m.setdefault(x[1], len(m))) + tuple(go(y) for y in x[2:])
            return tuple(go(y) for y in x)
        return x
    return go(e)


def difference(a, b, path=""):
    """where the normal forms part: a text, or None"""
    if a == b:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) == 2 and a[0] == b[0] == "means":
        for c, r in sorted(a[1], key=repr):
            if (c, r) not in b[1]:
                o = [x for d, x in b[1] if d == c]
                return "%s gives %s%s" % (dict(c) or "the action", sorted(r), " instead of %s" % sorted(o[0]) if o else ", which is not among %s" % [dict(d) for d, _ in b[1]])
        return "%s is never given" % [(dict(c), sorted(r)) for c, r in b[1] - a[1]]
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == b[0] and isinstance(a[0], str) and len(a) == len(b):
        for x, y in zip(a[1:], b[1:]):
            if x != y:
                if isinstance(x, tuple) and isinstance(y, tuple) and a[0] in ("seq", "alt", "act") and len(x) == len(y) and not (x and isinstance(x[0], str)):
                    for u, v in zip(x, y):
                        if u != v:
                            d = difference(u, v, path)
                            if d:
                                return d
                if isinstance(x, tuple) and isinstance(y, tuple) and x and y and isinstance(x[0], str) and isinstance(y[0], str):
                    return difference(x, y, path) + (" in %s" % text(a, 3) if a[0] == "act" else "")
                return "%s instead of %s" % (text(a), text(b))
    return "%s instead of %s" % (text(a), text(b))


def text(e, depth=4):
    if not isinstance(e, tuple) or not e:
        return repr(e)
    k = e[0]
    if depth == 0:
        return ".."
    t = lambda x: text(x, depth - 1)
    if k == "lit":
        return '"%s"' % e[1]
    if k == "set":
        return "[%s]" % "".join(repr(chr(a))[1:-1] if a == b else "%s-%s" % (repr(chr(a))[1:-1], repr(chr(b))[1:-1]) for a, b in e[1])
    if k == "seq":
        return " ".join(map(t, e[1]))
    if k == "alt":
        return "(%s)" % " / ".join(map(t, e[1]))
    if k in ("star", "plus", "opt"):
        return "%s%s" % (t(e[1]), {"star": "*", "plus": "+", "opt": "?"}[k])
    if k in ("sep0", "sep1"):
        return "%s %s %s" % (t(e[1]), "**" if k == "sep0" else "++", t(e[2]))
    if k == "cap":
        return "$(%s)" % t(e[1])
    if k == "act":
        return "{%s => %s}" % (" ".join(("#%d:" % i if i in e[2] else "") + t(x) for i, x in enumerate(e[1])), str(e[3])[:300])
    if k in ("mu", "rec"):
        return "<rule %s>" % e[1] if k == "rec" else t(e[2])
    return str(e)[:200]
