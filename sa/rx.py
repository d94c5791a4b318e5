"""The language of a regular expression written for Rust's regex crate, as a DFA over a small alphabet: all of ASCII and a
few characters that stand for the rest.  Two patterns can be compared for equality, whatever their spelling."""
import functools, re
try:
    import re._parser as sp, re._constants as sc
except ImportError:
    import sre_parse as sp, sre_constants as sc

# letters, digits, spaces beyond ASCII; the two that fold to ASCII letters; one that is none of them
EXTRA = {"\u00e9": "w", "\u0663": "wd", "\u2003": "s", "\u212a": "w", "\u017f": "w", "\u2603": ""}
ALPHA = [chr(i) for i in range(128)] + list(EXTRA)
FOLD = {"k": "\u212a", "s": "\u017f"}


class Unsupported(Exception):
    pass


def flags(pat):
    """(pattern without its leading flags, ignore case, unicode, dot matches newline)"""
    i, u, s = False, True, False
    x = ""
    while True:
        m = re.match(r"\(\?([a-zA-Z]*)(?:-([a-zA-Z]+))?\)", pat)
        if not m:
            return x + pat, i, u, s
        for c in m.group(1):
            if c == "i": i = True
            elif c == "u": u = True
            elif c == "s": s = True
            elif c == "x": x = "(?x)"
            else: raise Unsupported(c)
        for c in m.group(2) or "":
            if c == "i": i = False
            elif c == "u": u = False
            elif c == "s": s = False
            else: raise Unsupported(c)
        pat = pat[m.end():]


class N:
    """an NFA under construction"""

    def __init__(self):
        self.eps, self.step, self.n = {}, {}, 0

    def new(self):
        self.n += 1
        return self.n - 1

    def e(self, a, b):
        self.eps.setdefault(a, set()).add(b)


def category(c, cat, u):
    k = EXTRA.get(c)
    if cat in (sc.CATEGORY_DIGIT, sc.CATEGORY_NOT_DIGIT):
        r = c.isdigit() if k is None else u and "d" in k
        return r if cat == sc.CATEGORY_DIGIT else not r
    if cat in (sc.CATEGORY_WORD, sc.CATEGORY_NOT_WORD):
        r = (c.isalnum() or c == "_") if k is None else u and "w" in k
        return r if cat == sc.CATEGORY_WORD else not r
    if cat in (sc.CATEGORY_SPACE, sc.CATEGORY_NOT_SPACE):
        r = c in "\t\n\x0b\x0c\r " if k is None else u and "s" in k
        return r if cat == sc.CATEGORY_SPACE else not r
    raise Unsupported(str(cat))


def folded(cs, i, u):
    if not i:
        return cs
    out = set()
    for c in cs:
        out |= {c, c.lower() if ord(c) < 128 else c, c.upper() if ord(c) < 128 else c}
    if u:
        for a, b in FOLD.items():
            if out & {a, a.upper(), b}:
                out |= {a, a.upper(), b}
    return out


def chars(items, i, u):
    neg, out = False, set()
    for op, av in items:
        if op is sc.NEGATE:
            neg = True
        elif op is sc.LITERAL:
            out.add(chr(av))
        elif op is sc.RANGE:
            out |= {c for c in ALPHA if av[0] <= ord(c) <= av[1]}
        elif op is sc.CATEGORY:
            out |= {c for c in ALPHA if category(c, av, u)}
        else:
            raise Unsupported(str(op))
    out = folded(out, i, u) & set(ALPHA)
    return set(ALPHA) - out if neg else out


def build(n, seq, i, u, s, a):
    """the NFA of a sequence from state a; returns its end state.  BEG/END are anchors kept as special symbols."""
    for op, av in seq:
        b = n.new()
        if op is sc.LITERAL:
            n.step.setdefault(a, []).append((folded({chr(av)}, i, u) & set(ALPHA), b))
        elif op is sc.NOT_LITERAL:
            n.step.setdefault(a, []).append((set(ALPHA) - folded({chr(av)}, i, u), b))
        elif op is sc.ANY:
            n.step.setdefault(a, []).append((set(ALPHA) - (set() if s else {"\n"}), b))
        elif op is sc.IN:
            n.step.setdefault(a, []).append((chars(av, i, u), b))
        elif op is sc.BRANCH:
            for alt in av[1]:
                n.e(build(n, alt, i, u, s, a0(n, a)), b)
        elif op is sc.SUBPATTERN:
            if av[1] or av[2]:
                raise Unsupported("flags in a group")
            n.e(build(n, av[3], i, u, s, a), b)
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub = av
            x = a
            for _ in range(lo):
                x = build(n, sub, i, u, s, a0(n, x))
            if hi is sc.MAXREPEAT:
                l = a0(n, x)
                n.e(build(n, sub, i, u, s, l), l)
                n.e(l, b)
            else:
                n.e(x, b)
                for _ in range(hi - lo):
                    x = build(n, sub, i, u, s, a0(n, x))
                    n.e(x, b)
        elif op is sc.AT and av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
            n.step.setdefault(a, []).append(({"BEG"}, b))
        elif op is sc.AT and av in (sc.AT_END, sc.AT_END_STRING):
            n.step.setdefault(a, []).append(({"END"}, b))
        else:
            raise Unsupported(str(op))
        a = b
    return a


def a0(n, x):
    y = n.new()
    n.e(x, y)
    return y


def parse(pat):
    p, i, u, s = flags(pat)
    if any(x in p for x in ("&&", "--", "~~", "[:", "\\p", "\\P", "\\x{", "\\u{")):
        raise Unsupported(p)
    p = p.replace("(?<", "(?P<") if re.search(r"\(\?<[A-Za-z_]", p) else p
    p = re.sub(r"\\z", r"\\Z", p)
    if p.startswith("(?x)") and any(re.search(r"\s", c) for c in re.findall(r"\\.|#[^\n]*|(\[(?:[^\]\\]|\\.)*\])", p, re.S)):
        raise Unsupported("white space in a class")
    try:
        return sp.parse(p), i, u, s
    except re.error as e:
        raise Unsupported(str(e))


@functools.lru_cache(None)
def dfa(pat, search=True):
    """minimal-enough DFA: (start, accepting, {state: {char: state}}) of the texts in which the pattern is found (or,
    with search=False, that it matches as a whole); anchors hold only at the ends"""
    tree, i, u, s = parse(pat)
    n = N()
    st = n.new()
    # text = BEG chars END;  pattern found somewhere: BEG? any* here any* END?
    pre = n.new()
    n.e(st, pre)
    loop = n.new()
    n.step.setdefault(pre, []).append(({"BEG"}, loop))
    if search:
        n.step.setdefault(loop, []).append((set(ALPHA), loop))
        start = n.new()
        n.e(loop, start)
        n.e(pre, start)     # the pattern's own ^ consumes BEG
    else:
        start = n.new()
        n.e(loop, start)
        n.e(pre, start)
    end = build(n, tree, i, u, s, start)
    tail, fin = n.new(), n.new()
    n.e(end, tail)
    if search:
        n.step.setdefault(tail, []).append((set(ALPHA), tail))
    n.step.setdefault(tail, []).append(({"END"}, fin))

    def close(xs):
        xs, todo = set(xs), list(xs)
        while todo:
            x = todo.pop()
            for y in n.eps.get(x, ()):
                if y not in xs:
                    xs.add(y)
                    todo.append(y)
        return frozenset(xs)

    def move(xs, c):
        return close({b for x in xs for cs, b in n.step.get(x, ()) if c in cs})
    # a pattern's BEG symbol matches the text's BEG, its END the text's END; both may be repeated
    def anchor(xs, c):
        seen = close(xs)
        out = move(seen, c)
        while True:
            more = close(out | move(out, c))
            if more == out:
                return out
            out = more
    init = anchor(close({st}), "BEG")
    # after the text's beginning an END anchor may still apply, but BEG no more
    trans, todo, names = {}, [init], {init}
    while todo:
        x = todo.pop()
        trans[x] = {}
        for c in ALPHA:
            y = move(x, c)
            trans[x][c] = y
            if y not in names:
                names.add(y)
                todo.append(y)
                if len(names) > 4000:
                    raise Unsupported("too many states")
    acc = {x for x in names if fin in anchor(x, "END")}
    return init, acc, trans


def same(a, b, search=True):
    """do both patterns accept the same texts? -> (True, None) or (False, a text they disagree on)"""
    (ia, aa, ta), (ib, ab, tb) = dfa(a, search), dfa(b, search)
    seen, todo = {(ia, ib): ""}, [(ia, ib)]
    for x, y in todo:
        if (x in aa) != (y in ab):
            return False, seen[x, y]
        for c in ALPHA:
            z = (ta[x][c], tb[y][c])
            if z not in seen:
                seen[z] = seen[x, y] + c
                todo.append(z)
    return True, None


def only_class(pat):
    """the characters of a pattern of the form [class]+ -> frozenset, or None"""
    tree, i, u, s = parse(pat)
    tree = list(tree)
    while len(tree) == 1 and tree[0][0] is sc.SUBPATTERN:
        tree = list(tree[0][1][3])
    if len(tree) != 1 or tree[0][0] is not sc.MAX_REPEAT or tree[0][1][0] != 1 or tree[0][1][1] is not sc.MAXREPEAT:
        return None
    sub = list(tree[0][1][2])
    while len(sub) == 1 and sub[0][0] is sc.SUBPATTERN:
        sub = list(sub[0][1][3])
    if len(sub) != 1:
        return None
    op, av = sub[0]
    if op is sc.IN:
        return frozenset(chars(av, i, u))
    if op is sc.LITERAL:
        return frozenset(folded({chr(av)}, i, u) & set(ALPHA))
    if op is sc.BRANCH:
        out = set()
        for alt in av[1]:
            alt = list(alt)
            if len(alt) != 1 or alt[0][0] not in (sc.IN, sc.LITERAL):
                return None
            out |= chars(alt[0][1], i, u) if alt[0][0] is sc.IN else folded({chr(alt[0][1])}, i, u)
        return frozenset(out & set(ALPHA))
    return None


# ---- what a pattern captures: a backtracking matcher's priorities, as a Pike machine
@functools.lru_cache(None)
def program(pat, numbered=False):
    """instructions: ("c", chars) ("split", [targets in order of preference]) ("save", n) ("beg",) ("end",) ("match",);
    returns (instructions, {register: group name})"""
    tree, i, u, s = parse(pat)
    code, names = [], {}
    gn = {v: k for k, v in tree.state.groupdict.items()}
    if numbered:
        gn = {i: str(i) for i in range(1, tree.state.groups)}

    def emit(*x):
        code.append(list(x))
        return len(code) - 1

    def seq(items):
        for op, av in items:
            if op is sc.LITERAL:
                emit("c", frozenset(folded({chr(av)}, i, u) & set(ALPHA)))
            elif op is sc.NOT_LITERAL:
                emit("c", frozenset(set(ALPHA) - folded({chr(av)}, i, u)))
            elif op is sc.ANY:
                emit("c", frozenset(set(ALPHA) - (set() if s else {"\n"})))
            elif op is sc.IN:
                emit("c", frozenset(chars(av, i, u)))
            elif op is sc.BRANCH:
                sp_, ends = emit("split", []), []
                for alt in av[1]:
                    code[sp_][1].append(len(code))
                    seq(alt)
                    ends.append(emit("split", []))
                for e in ends:
                    code[e][1].append(len(code))
            elif op is sc.SUBPATTERN:
                if av[1] or av[2]:
                    raise Unsupported("flags in a group")
                g = gn.get(av[0])
                if g:
                    emit("save", g, 0)
                seq(av[3])
                if g:
                    emit("save", g, 1)
            elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
                lo, hi, sub = av
                pref = (lambda a, b: [a, b]) if op is sc.MAX_REPEAT else (lambda a, b: [b, a])
                for _ in range(lo):
                    seq(sub)
                if hi is sc.MAXREPEAT:
                    l = emit("split", None)
                    seq(sub)
                    emit("split", [l])
                    code[l][1] = pref(l + 1, len(code))
                else:
                    outs = []
                    for _ in range(hi - lo):
                        outs.append(emit("split", None))
                        seq(sub)
                    for o in outs:
                        code[o][1] = pref(o + 1, len(code))
            elif op is sc.AT and av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
                emit("beg")
            elif op is sc.AT and av in (sc.AT_END, sc.AT_END_STRING):
                emit("end")
            else:
                raise Unsupported(str(op))
    emit("save", "", 0)
    seq(tree)
    emit("save", "", 1)
    emit("match")
    return code, tuple(sorted(gn.values()))


def follow(code, threads, beg, end, pos):
    """the threads after following everything that takes no character, most preferred first; those after a match are
    dropped.  A thread: (pc, registers); registers: ((name, side) -> position)"""
    out, seen = [], set()

    def go(pc, regs):
        if pc in seen:
            return False
        seen.add(pc)
        x = code[pc]
        if x[0] == "split":
            return any(go(t, regs) for t in x[1])
        if x[0] == "save":
            return go(pc + 1, tuple(sorted({**dict(regs), "%s/%d" % (x[1], x[2]): pos}.items())))
        if x[0] == "beg":
            return beg and go(pc + 1, regs)
        if x[0] == "end":
            return end and go(pc + 1, regs)
        out.append((pc, regs))
        return x[0] == "match"
    for pc, regs in threads:
        if go(pc, regs):
            break
    return out


def same_captures(a, b, names=None, whole=False, limit=60000, numbered=False):
    """do both patterns, on every text, match or fail alike and capture the same parts (with `whole`, also match the same part)?
    -> (True, None) or (False, a text they disagree on)"""
    (ca, na), (cb, nb) = program(a, numbered), program(b, numbered)
    if names is None and na != nb:
        return False, "the groups %s and %s" % (list(na), list(nb))
    names = set(na if names is None else names)
    if not names <= set(na) or not names <= set(nb):
        return False, "the groups %s and %s" % (list(na), list(nb))
    alpha = classes(ca, cb)
    if whole:
        names.add("")
    keep = lambda regs: tuple((k, v) for k, v in regs if k.rsplit("/", 1)[0] in names)

    def canon(x, y):
        # positions only matter by which registers hold the same one, and in what order
        ps = sorted({v for t in x + y for _, v in t[1]})
        m = {p: i for i, p in enumerate(ps)}
        f = lambda ts: tuple((pc, tuple((k, m[v]) for k, v in r)) for pc, r in ts)
        return f(x), f(y), len(ps)
    # a thread at every position, less preferred than those begun before: found anywhere
    start = ((0, ()),)
    init = canon(start, start) + (True,)
    seen, todo = {init: ""}, [init]
    for x, y, n, first in todo:
        text = seen[x, y, n, first]
        for end in (True, False):
            fx = [(pc, keep(r)) for pc, r in follow(ca, x, first, end, n)]
            fy = [(pc, keep(r)) for pc, r in follow(cb, y, first, end, n)]
            if end:
                mx = next((r for pc, r in fx if ca[pc][0] == "match"), None)
                my = next((r for pc, r in fy if cb[pc][0] == "match"), None)
                if mx != my:
                    return False, text
                continue
            for c in alpha:
                nx = tuple((pc + 1 if ca[pc][0] == "c" else pc, r) for pc, r in fx if ca[pc][0] == "match" or c in ca[pc][1])
                ny = tuple((pc + 1 if cb[pc][0] == "c" else pc, r) for pc, r in fy if cb[pc][0] == "match" or c in cb[pc][1])
                # until there is a match a search begins anew at the next character
                if not any(ca[pc][0] == "match" for pc, _ in nx):
                    nx += start
                if not any(cb[pc][0] == "match" for pc, _ in ny):
                    ny += start
                z = canon(nx, ny) + (False,)
                if z not in seen:
                    seen[z] = text + c
                    todo.append(z)
                    if len(seen) > limit:
                        raise Unsupported("too many states")
    return True, None


def classes(*codes):
    """one character for each set of characters the programs cannot tell apart"""
    sets = [x[1] for code in codes for x in code if x[0] == "c"]
    out = {}
    for c in ALPHA:
        out.setdefault(tuple(c in s for s in sets), c)
    return list(out.values())
