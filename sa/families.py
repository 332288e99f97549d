"""Which witness programs are compiled for which property."""
import random
import markup as M
from markup import (E, Var, Opt, Str, Num, Iter, Lit, Const, Attr, Bool, El, Bound, Comp, Match, MatchKind, Field, Render,
                    NORMAL, VOID, esc)
from sem import float_text
from wit import W

KW = set("as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref "
         "return static struct super trait true type unsafe use where while async await dyn".split())


def A(n, v):
    return Attr(("id", "r#" + n if n in KW else n, n), v)


def L(src, text=None, wrap="{0}"):
    return Lit(src, text, wrap)


def rs(s):
    """Rust string literal"""
    o = '"'
    for c in s:
        o += {"\\": "\\\\", '"': '\\"', "\n": "\\n", "\r": "\\r", "\t": "\\t", "\0": "\\0"}.get(c) or (
            c if " " <= c and c != "\x7f" and not 0x200b <= ord(c) <= 0x206f else "\\u{%x}" % ord(c))
    return o + '"'


def S(s, wrap="{0}"):
    return Lit(rs(s), esc(s), wrap)


class Ids:
    def __init__(self):
        self.n = 0

    def __call__(self):
        self.n += 1
        return self.n


# ------------------------------------------------------------------------------------------------------------- tags
def tags(tier, rnd):
    out = []
    for t in NORMAL + VOID + ["frag", "classes"]:
        i = Ids()
        void, frag = t in VOID, t in ("frag", "classes")
        kid = (lambda: [E(i())]) if not void else (lambda: [A("id", E(i()))])
        xs = [El(t, []), El(t, kid()), El("div", [El(t, kid())]), El("p", [E(i()), El(t, kid()), E(i())]),
              El("frag", [El(t, kid()), El(t, [])]), El("classes", [El(t, kid()), E(i()), El(t, [])]),
              El(t, kid(), "laby::{0}!({1})"), El("div", [El(t, kid(), "laby::{0}!({1})")]),
              El("div", [Bound(El(t, kid()), "k")]), El(t, kid(), "{0}![{1}]"), El("ul", [El(t, kid(), "{0}!{{{1},}}")]),
              Iterless(El(t, kid()))]
        if not void:
            xs += [El(t, [El(t, [El(t, kid())]), E(i())]), El(t, [L('"a"', "a"), L('"b"', "b")]), El(t, [E(i()), E(i()), E(i())]),
                   El(t, [El("br", []), El("b", [E(i())]), El("frag", [E(i()), E(i())]), El("classes", [E(i()), E(i())])])]
        if not frag:
            xs += [El(t, [A("class", S("x")), A("hidden", Bool(i()))] + kid()), El("div", [El(t, [A("id", E(i())), A("lang", S("<"))])]),
                   El(t, [A("async", Bool(None, True))]), El("span", [El(t, [A("defer", Bool(None, False))]), E(i())])]
        for h in range(0, len(xs), 6):
            out.append(W("tag " + t, xs[h:h + 6], ("C22", "C09"), ("C12", "C22")))
    return out


def Iterless(x):
    return El("section", [x], "{0}!({1},)")


# ------------------------------------------------------------------------------------------------------- attributes
IDNAMES = ["class", "id", "href", "type", "for", "async", "loop", "as", "_x", "data_x", "aria_label", "T1", "t1", "buffer", "b",
           "div", "x9", "is", "bool", "str", "render", "match", "in", "dyn", "n0"]
LITNAMES = ["data-x", "aria-label", "@click", ":is", "xml:lang", "x y", "a\"b", "a<b&'c'>", "é", "", "t1", "class", " lead", "x=y",
            "{0}", "日本語の名前", "A" * 200]


def names(i, form):
    """every way to write a name"""
    out = [("id", "r#" + n if n in KW else n, n) for n in IDNAMES]
    out += [("lit", rs(n), esc(n)) for n in LITNAMES]
    out += [("lit", "(" + rs("data-y") + ")", "data-y"), ("lit", "{ " + rs("data-z") + " }", "data-z"), ("lit", "5", "5"),
            ("lit", "'c'", "c"), ("lit", "'<'", "&lt;"), ("lit", "true", "true"), ("lit", "1.5", "1.5"), ("lit", "b'a'", "97"),
            ("lit", "(({ \"q\" }))", "q")]
    out += [E(i(), 1), E(i(), 0), E(i(), 7), Str(i()), Num(i()), Var(i()), M.El("frag", [S("data-"), E(i())]),
            M.El("classes", [S("a"), E(i())]), Opt(i()), Str(i(), True)]
    return out


def uniq(k):
    """a bound variable used as a name must not be taken for the plain name"""
    return k


def values(i):
    return [E(i()), S("v"), S("\"'<>&"), S(""), L("5", "5"), L("'\"'", "&quot;"), L("true", "true"), L("false", "false"), L("1.50", "1.5"),
            L("({ 7u8 })", "7"), Str(i()), Str(i(), True), Num(i()), Opt(i()), Var(i()), E(i(), 1), E(i(), 4), E(i(), 12),
            El("classes", [E(i()), S("k"), E(i())]), El("frag", [E(i()), E(i())]), El("b", [E(i())]), Iter(i(), "del"),
            Const("()", ""), Const("None::<u8>", ""), Const("-5", "-5"), Match([(i(), E(i())), (None, E(i()))]),
            Render2(i), El("classes", []), El("br", []), E(i(), 17)]


class Render2(M.X):
    """a string made by a nested render! of constant parts"""

    def __init__(self, i):
        pass

    def code(self):
        return 'concat!("a", "<")'

    def ev(self, p):
        return lambda: p.text("a&lt;")


def attrs(tier, rnd):
    out = []
    # every kind of name with a rotating kind of value, in three surroundings
    i = Ids()
    nn = len(names(i, 0))
    nv = len(values(i))
    pairs = [(a, b) for a in range(nn) for b in range(nv)] if tier == "thorough" else \
        [(a, (a * 7 + k * 11) % nv) for a in range(nn) for k in range(3)] + [((b * 5 + 1) % nn, b) for b in range(nv)]
    for a, b in pairs:
        i = Ids()
        n, v = names(i, 0)[a], values(i)[b]
        if isinstance(n, Var):
            continue
        el = El("div" if (a + b) % 3 else "input", [Attr(n, v)])
        out.append(W("attribute", [el], ("C10",), ("C12",)))
    for a in range(nn):
        i = Ids()
        n = names(i, 0)[a]
        if isinstance(n, Var):
            continue
        out.append(W("attribute between", [El("a", [A("x", E(i())), Attr(n, E(i())), A("y", S("2")), E(i())]),
                                           El("img", [A("x", S("1")), Attr(n, S("v")), A("y", E(i()))]) if not isinstance(n, M.X) else El("img", [])],
                     ("C10",), ("C12",)))
    # numbers and orders
    for n in (2, 3, 5, 9, 10, 11, 12, 20, 33) + ((64, 100) if tier == "thorough" else ()):
        for kind in range(4):
            i = Ids()
            at = []
            for k in range(n):
                nm = ("id", "a%d" % ((n - k) if kind == 1 else k), "a%d" % ((n - k) if kind == 1 else k))
                v = E(i()) if kind in (0, 1) else (S("s%d" % k) if kind == 2 else (E(i()) if k % 2 else S("s")))
                at.append(Attr(nm, v))
            out.append(W("%d attributes" % n, [El("div", at + [E(i())]), El("p", [El("input", at2(i, n)), E(i())])], ("C10",), ("C12",)))
    # the same name again, children in between
    i = Ids()
    out.append(W("repeated names", [El("div", [A("class", E(i())), A("class", S("b")), A("class", E(i())), A("class", S("b"))]),
                                    El("div", [E(i()), A("id", E(i())), S("t"), A("class", S("k")), E(i()), A("id", S("z"))]),
                                    El("div", [El("p", [E(i()), A("id", E(i()))]), A("id", E(i())), El("br", [A("id", E(i()))])])],
                 ("C10",), ("C12",)))
    for k in range(60 if tier == "quick" else 600):
        i = Ids()
        at = []
        ns = [x for x in names(i, 0) if not isinstance(x, Var)]
        for _ in range(rnd.randint(2, 6)):
            if rnd.random() < 0.3:
                at.append(rnd.choice([E(i(), rnd.choice(E.FEW)), S("kid"), El("b", [A("c", E(i()))]), El("frag", [E(i())])]))
            elif rnd.random() < 0.3:
                at.append(Attr(rnd.choice(ns), boolv(i, rnd)))
            else:
                at.append(Attr(rnd.choice(ns), rnd.choice(values(i))))
        used(at)
        out.append(W("attribute mix", [El(rnd.choice(NORMAL), at)], ("C10",), ("C12",)))
    return [w for w in out if distinct(w)]


def at2(i, n):
    return [A("k%d" % k, E(i()) if k % 3 else S("%d" % k)) for k in range(n)]


def used(at):
    pass


def ids_of(x, out):
    for y in M.walk(x):
        if isinstance(y, (E, Var, Opt, Str, Num, Iter, MatchKind)):
            out.append(y.i)
    return out


def distinct(w):
    """every opaque value of a witness is a different one"""
    ids = []
    for x in w.xs:
        ids_of(x, ids)
    return len(ids) == len(set(ids))


def boolv(i, rnd):
    r = rnd.random()
    if r < 0.25:
        return Bool(None, True, wrap=rnd.choice(["{0}", "({0})", "{{ {0} }}", "({{ {0} }})"]), style=rnd.choice(["bool!({0})", "bool![{0}]", "bool!{{ {0} }}"]))
    if r < 0.5:
        return Bool(None, False, wrap=rnd.choice(["{0}", "({0})", "{{ {0} }}"]))
    return Bool(i(), form=rnd.randrange(len(Bool.FORMS)))


def bools(tier, rnd):
    out = []
    i = Ids()
    nn = len(names(i, 0))
    for a in range(nn):
        for k in range(4):
            i = Ids()
            n = names(i, 0)[a]
            if isinstance(n, (Var, Opt)):
                continue
            b = [Bool(None, True), Bool(None, False), Bool(i(), form=a % len(Bool.FORMS)), Bool(i(), form=(a + 2) % len(Bool.FORMS))][k]
            if k == 3:
                x = El("div", [A("x", S("1")), Attr(n, b), A("y", S("2")), S("kid")])
            else:
                x = El("input" if k % 2 else "div", [Attr(n, b)])
            out.append(W("boolean attribute", [x], ("C11",), ("C12",)))
    for f in [k for k, x in enumerate(E.FORMS) if "other::" in x]:
        i = Ids()
        out.append(W("a user's own macro as a value", [El("div", [A("a", E(i(), f)), A("b", Bool(i())), A("c", E(i(), f))]), El("br", [A("a", E(i(), f))])], ("C11",), ("C12",)))
    for k in range(2, 6):
        for order in range(3):
            i = Ids()
            at = []
            for j in range(k):
                at.append(A("b%d" % j, Bool(i(), form=j)))
                if order == 1:
                    at.append(A("a%d" % j, E(i())))
                if order == 2:
                    at.append(E(i()))
            out.append(W("%d conditions" % k, [El("div", at + [E(i())])], ("C11",), ("C12",)))
    i = Ids()
    out.append(W("conditions at several levels", [El("div", [A("b", Bool(i())), El("p", [A("b", Bool(i())), El("br", [A("b", Bool(i()))]), E(i())]),
                                                           El("input", [A("z", Bool(None, False)), A("b", Bool(i()))])])], ("C11",), ("C12",)))
    for wrap in ("{0}", "({0})", "{{ {0} }}", "({{ {0} }})", "(({0}))", "{{ ({0}) }}", "!{0}", "{0} && true", "same({0})", "{{ let x = {0}; x }}", "matches!({0}, true)"):
        for v in (True, False):
            val = v != (wrap == "!{0}")
            b = Bool(None, v, wrap=wrap)
            b.value = val
            b.code = (lambda w=wrap, v=v: "bool!(%s)" % w.format("true" if v else "false"))
            out.append(W("literal condition", [El("div", [A("x", S("1")), A("hidden", b), A("y", S("2"))]), El("br", [A("hidden", b)])], ("C11",), ("C12",)))
    for k in range(40 if tier == "quick" else 400):
        i = Ids()
        ns = [x for x in names(i, 0) if not isinstance(x, (Var, Opt))]
        at = []
        for _ in range(rnd.randint(1, 4)):
            at.append(Attr(rnd.choice(ns), boolv(i, rnd)))
            if rnd.random() < 0.4:
                at.append(rnd.choice([A("x", E(i())), A("y", S("v")), E(i()), S("k"), El("b", [E(i())])]))
        out.append(W("boolean mix", [El(rnd.choice(NORMAL), at), El("p", [El("b", [A("q", boolv(i, rnd))]), E(i())])], ("C11",), ("C12",)))
    return [w for w in out if distinct(w)]


# ------------------------------------------------------------------------------------------------------------- trees
def leaf(i, rnd, deep=True):
    r = rnd.random()
    if r < 0.5:
        return E(i(), rnd.randrange(len(E.FORMS)))
    if r < 0.62:
        return rnd.choice([S("t"), S("<&>"), S(""), L("5", "5"), L("'x'", "x"), L("true", "true"), L("(\"p\")", "p"), L("{ 1.5 }", "1.5")])
    if r < 0.68:
        return Str(i(), rnd.random() < 0.3)
    if r < 0.73:
        return Num(i())
    if r < 0.78:
        return Opt(i())
    if r < 0.84:
        return Var(i())
    if r < 0.87 and deep:
        return Match([(i(), E(i())), (None, E(i()))])
    if r < 0.9:
        return Const("()", "")
    return E(i(), 0)


HOWS = ["{0}!({1})"] * 6 + ["{0}![{1}]", "{0}!{{{1}}}", "laby::{0}!({1})", "({0}!({1}))", "{{ {0}!({1}) }}", "{0}!({1},)"]


def tree(i, rnd, depth, wide=4):
    tag = rnd.choice(["div", "p", "span", "ul", "frag", "classes", "br", "input", "section", "table", rnd.choice(NORMAL), rnd.choice(VOID)])
    args = []
    if tag not in ("frag", "classes"):
        for _ in range(rnd.choice([0, 0, 1, 2, 3])):
            if rnd.random() < 0.3:
                args.append(A("b%d" % rnd.randrange(9), boolv(i, rnd)))
            elif rnd.random() < 0.15:
                args.append(Attr(E(i(), 1), E(i(), rnd.choice(E.FEW))))
            else:
                args.append(A("k%d" % rnd.randrange(9), leaf(i, rnd, False)))
    if tag not in VOID:
        for _ in range(rnd.randrange(wide + 1)):
            if depth > 0 and rnd.random() < 0.55:
                x = tree(i, rnd, depth - 1, wide)
                if rnd.random() < 0.15:
                    x = Bound(x, "n%d_%d" % (i(), depth))
                args.append(x)
            else:
                args.append(leaf(i, rnd))
    if rnd.random() < 0.3:
        rnd.shuffle(args)
    how = rnd.choice(HOWS) if args else "{0}!({1})"
    return El(tag, args, how)


def size(x):
    return sum(1 for _ in M.walk(x))


def forks(x):
    n = 0
    for y in M.walk(x):
        if isinstance(y, (Opt, Match, MatchKind, Iter)):
            n += 1
        if isinstance(y, E) and "cond" in E.FORMS[y.form]:
            n += 1
        if isinstance(y, El):
            n += sum(1 for a in y.args if isinstance(a, Attr) and isinstance(a.value, Bool) and a.value.i is not None)
    return n


def trees(tier, rnd, n=None):
    out = []
    n = n or (200 if tier == "quick" else 2000)
    while len(out) < n:
        i = Ids()
        x = tree(i, rnd, rnd.randint(1, 4))
        if 2 <= size(x) <= 60 and forks(x) <= 5:
            out.append(W("tree", [x], (), ("C12",)))
    return out


def shapes(tier, rnd):
    """every sequence of up to n arguments over the kinds of argument there are"""
    kinds = [lambda i: A("a", S("v")), lambda i: A("a", E(i())), lambda i: A("b", Bool(i())), lambda i: A("c", Bool(None, True)),
             lambda i: A("d", Bool(None, False)), lambda i: Attr(E(i(), 1), S("w")), lambda i: S("t"), lambda i: E(i()),
             lambda i: El("p", [E(i())]), lambda i: El("br", [A("id", E(i()))]), lambda i: El("frag", [E(i()), S("f")]),
             lambda i: El("classes", [E(i()), S("c"), E(i())]), lambda i: El("frag", []), lambda i: El("p", [A("q", Bool(i()))]),
             lambda i: S(""), lambda i: El("classes", [S(""), E(i())]), lambda i: A("e", S(""))]
    out = []
    seqs = [()]
    todo = [()]
    for _ in range(3 if tier == "thorough" else 2):
        todo = [s + (k,) for s in todo for k in range(len(kinds))]
        seqs += todo
    if tier != "thorough":
        full = [(a, b, c) for a in range(len(kinds)) for b in range(len(kinds)) for c in range(len(kinds))]
        seqs += rnd.sample(full, 150)
    group = []
    for s in seqs:
        i = group[0] if group else Ids()
        if not group:
            group = [i]
        args = [kinds[k](i) for k in s]
        if forks(El("div", args)) > 3:
            continue
        group.append(El("div", args))
        if len(s) <= 2:
            kids = [a for a in args if not isinstance(a, Attr)]
            at = [a for a in args if isinstance(a, Attr)]
            if not at and kids:
                j = group[0]
                group.append(El("frag", [kinds[k](j) for k in s]))
                group.append(El("classes", [kinds[k](j) for k in s]))
            if not kids and at:
                j = group[0]
                group.append(El("input", [kinds[k](j) for k in s]))
        if len(group) > 8 or sum(forks(x) for x in group[1:]) >= 4:
            out.append(W("argument kinds", group[1:], (), ("C12",)))
            group = []
    if len(group) > 1:
        out.append(W("argument kinds", group[1:], (), ("C12",)))
    return out


def big(tier, rnd):
    out = []
    for n in (8, 9, 10, 11, 12, 16, 17, 32, 33, 40) + ((64, 65, 100, 128, 200) if tier == "thorough" else (65,)):
        for kind in range(5):
            i = Ids()
            if kind == 0:
                xs = [El("div", [E(i()) for _ in range(n)])]
            elif kind == 1:
                xs = [El("ul", [El("li", [E(i())]) for _ in range(n)])]
            elif kind == 2:
                xs = [El("div", [S("t%d" % k) if k % 2 else E(i()) for k in range(n)])]
            elif kind == 3:
                x = E(i())
                for k in range(min(n, 40)):
                    x = El(["div", "p", "frag", "classes", "b"][k % 5], ([E(i())] if k % 3 == 0 else []) + [x] + ([S("z")] if k % 4 == 0 else []))
                xs = [x]
            else:
                xs = [El("classes", [E(i()) if k % 3 else S("c%d" % k) for k in range(n)])]
            out.append(W("%d pieces" % n, xs, ("C09",), ("C12",)))
    # long constant runs
    for n in (50, 255, 256, 257, 1000, 5000):
        s = "".join(chr(97 + k % 26) for k in range(n))
        i = Ids()
        out.append(W("text of %d bytes" % n, [El("div", [S(s), E(i()), S(s), S(s)]), El("frag", [S(s)]), El("p", [A("t", S(s)), A("u", E(i()))])], ("C09", "C14"), ("C12",)))
    return out


def flat(tier, rnd):
    """nested against bound; the bound form is the twin"""
    out = []

    def pair(mk):
        i = Ids()
        kids = mk(i)
        i2 = Ids()
        kids2 = mk(i2)
        tw = W("bound", kids2(True), (), ())
        w = W("nested", kids(False), (), ("C12",), twin=tw)
        w.twinprops = ("C13",)
        out.append(tw)
        out.append(w)
    inner = ["p", "br", "frag", "classes", "option", "input", "table"]
    for o in ["div", "frag", "classes", "li", "select"]:
        for n in inner:
            def mk(i, o=o, n=n):
                def nest(bound, k):
                    if n in VOID:
                        x = El(n, [A("id", E(i())), A("b", Bool(i()))])
                    elif n in ("frag", "classes"):
                        x = El(n, [E(i()), S("<"), E(i())])
                    else:
                        x = El(n, [A("id", E(i())), E(i()), S("<")])
                    return Bound(x, "k%d" % k) if bound else x

                def go(bound):
                    return [El(o, [E(i()), nest(bound, 1), S("mid")]), El(o, [nest(bound, 2)])]
                return go
            pair(mk)
            def mk2(i, o=o, n=n):
                def go(bound):
                    def inn(k):
                        if n in VOID:
                            return El(n, [])
                        return El(n, [El("frag", [E(i()), El("classes", [E(i()), E(i())])]), El("b", [A("x", E(i())), El("i", [E(i())])])])
                    a = inn(1)
                    b = inn(2)
                    if bound:
                        return [El(o, [Bound(a, "ka"), Bound(b, "kb"), E(i())])]
                    return [El(o, [a, b, E(i())])]
                return go
            pair(mk2)
    # macros of the user's that have the name of an element, from a module of their own
    for f in [k for k, x in enumerate(E.FORMS) if "other::" in x]:
        for o in ["div", "frag", "classes"]:
            i = Ids()
            pre = [E(i(), f), El("p", [E(i(), f), E(i())])]
            tw = W("bound", [El(o, [Bound(pre[0], "ka"), Bound(pre[1], "kb")])], (), ())
            i = Ids()
            w = W("a user's own macro nested", [El(o, [E(i(), f), El("p", [E(i(), f), E(i())])])], ("C13",), ("C12",), twin=tw)
            w.twinprops = ("C13",)
            out += [tw, w]
    for _ in range(80 if tier == "quick" else 900):
        seed = rnd.random()

        def mk(i, seed=seed):
            r = random.Random(seed)
            x = tree(i, r, r.randint(2, 4))

            def go(bound):
                return [rebind(x, Ids()) if bound else x]
            return go
        i = Ids()
        x = mk(i)(False)[0]
        if not (3 <= size(x) <= 40 and forks(x) <= 4 and nested(x)):
            continue
        pair(mk)
    return out


def nested(x):
    return any(isinstance(a, El) and "::" not in a.how for y in M.walk(x) if isinstance(y, El) for a in y.args)


def rebind(x, i):
    """every element that is a direct child bound to a variable first"""
    if not isinstance(x, El):
        return x
    args = []
    for a in x.args:
        if isinstance(a, El):
            args.append(Bound(rebind(a, i), "bound%d" % i()))
        else:
            args.append(a)
    return El(x.tag, args, x.how)


# ---------------------------------------------------------------------------------------------------------- literals
def literals():
    out = []

    def add(src, ty, text):
        out.append((src, ty, text))
    for s in ["", "a", "hello world", "<", ">", "&", "\"", "'", "a<b>c&d\"e'f", "&amp;", "&&&&", "\n", "\t\r", "\0", "\\", "{}", "{{x}}", "%s", "é",
              "日本語", "🦀<🦀", "\u200b", "x" * 40 + "<" + "y" * 40, "a" * 300, "<" * 64, "'" * 33, "/*c*/ // d", "#", "\u2028", "tést&"]:
        add(rs(s), "&str", esc(s))
    add('r"raw\\n<"', "&str", "raw\\n&lt;")
    add('r#"ra"w"#', "&str", "ra&quot;w")
    add('r##"x"#y"##', "&str", "x&quot;#y")
    add('"line\\\n      cont"', "&str", "linecont")
    add('"multi\nline"', "&str", "multi\nline")
    add('"\\x41\\u{1F600}\\\'"', "&str", "A😀&#39;")
    for c in "az<>&'\"\\é日🦀 0":
        src = {"'": "'\\''", "\\": "'\\\\'"}.get(c, "'%s'" % c)
        add(src, "char", esc(c))
    add("'\\n'", "char", "\n")
    add("'\\u{27}'", "char", "&#39;")
    add("'\\x3c'", "char", "&lt;")
    add("'\\0'", "char", "\0")
    for b, v in (("b'a'", 97), ("b'<'", 60), ("b'\\n'", 10), ("b'\\xff'", 255), ("b'\\''", 39), ("b'\\0'", 0), ("b'&'", 38), ("b'0'", 48)):
        add(b, "u8", str(v))
    add("true", "bool", "true")
    add("false", "bool", "false")
    for v in (0, 1, 7, 9, 10, 42, 99, 100, 127, 255, 256, 1000, 65535, 65536, 2147483647):
        add(str(v), "i32", str(v))
    for src, ty, v in (("1_000", "i32", 1000), ("0xff", "i32", 255), ("0xFF_FF", "i32", 65535), ("0b1010", "i32", 10), ("0o17", "i32", 15), ("007", "i32", 7),
                       ("0_0", "i32", 0), ("1__0", "i32", 10), ("0xDEAD_BEEFu32", "u32", 0xDEADBEEF), ("255u8", "u8", 255), ("0u8", "u8", 0), ("127i8", "i8", 127), ("65535u16", "u16", 65535),
                       ("32767i16", "i16", 32767), ("4294967295u32", "u32", 4294967295), ("18446744073709551615u64", "u64", 2**64 - 1), ("5_u64", "u64", 5),
                       ("340282366920938463463374607431768211455u128", "u128", 2**128 - 1), ("170141183460469231731687303715884105727i128", "i128", 2**127 - 1),
                       ("9223372036854775807i64", "i64", 2**63 - 1), ("1usize", "usize", 1), ("77isize", "isize", 77), ("18446744073709551615usize", "usize", 2**64 - 1),
                       ("0b1111_0000u8", "u8", 240), ("0o777u16", "u16", 511), ("10000000000000000000u64", "u64", 10**19), ("0x7fi8", "i8", 127), ("0u128", "u128", 0)):
        add(src, ty, str(v))

    def fl(src, ty, v):
        import struct
        if ty == "f32":
            v = struct.unpack("f", struct.pack("f", v))[0]
        add(src, ty, float_text(v, ty))
    for src, v in (("0.0", 0.0), ("1.0", 1.0), ("0.5", 0.5), ("1.5", 1.5), ("3.14159", 3.14159), ("0.1", 0.1), ("100.0", 100.0), ("1e3", 1e3), ("1E5", 1e5), ("1e10", 1e10), ("1e15", 1e15),
                   ("1e16", 1e16), ("1e17", 1e17), ("1.5e300", 1.5e300), ("1e-5", 1e-5), ("1e-7", 1e-7), ("2.5e-4", 2.5e-4), ("1.7976931348623157e308", 1.7976931348623157e308), ("5e-324", 5e-324),
                   ("123456789.125", 123456789.125), ("1_0.5_0", 10.5), ("2.", 2.0), ("0.30000000000000004", 0.1 + 0.2), ("9007199254740993.0", 9007199254740992.0), ("1e0", 1.0), ("12e+2", 1200.0),
                   ("0.000001", 0.000001), ("16777217.0", 16777217.0), ("1.0e1", 10.0), ("3.40e38", 3.4e38), ("99999999999999990.0", 99999999999999990.0), ("1234567.0", 1234567.0)):
        fl(src, "f64", v)
    for src, v in (("1.5f64", 1.5), ("1e300f64", 1e300), ("7f64", 7.0), ("0.1f64", 0.1), ("1_0f64", 10.0)):
        fl(src, "f64", v)
    for src, v in (("1.5f32", 1.5), ("0.1f32", 0.1), ("7f32", 7.0), ("0f32", 0.0), ("3.4e38f32", 3.4e38), ("1e-45f32", 1e-45), ("16777217f32", 16777216.0), ("16777216.0f32", 16777216.0), ("0.3f32", 0.3),
                   ("1_0.5_0f32", 10.5), ("1e10f32", 1e10), ("1e12f32", 1e12), ("1e13f32", 1e13), ("123456.789f32", 123456.789), ("2.5e-4f32", 2.5e-4), ("1e-6f32", 1e-6), ("1e-7f32", 1e-7), ("33554431f32", 33554431.0)):
        fl(src, "f32", v)
    return out


# expressions that look like a literal and are none
NEAR = [('{ "x"; }', ""), ("{ 5; }", ""), ("({ 'x'; })", ""), ("{}", ""), ("()", ""), ("(())", ""), ("-5", "-5"), ("- 1.5", "-1.5"), ("-0.0", "-0.0"), ("-0", "0"), ("!true", "false"), ("!0u8", "255"),
        ("-128i8", "-128"), ("-170141183460469231731687303715884105728i128", "-170141183460469231731687303715884105728"), ("300u16 as u8", "44"), ("'a' as u8", "97"), ("65u8 as char", "A"),
        ("true as u8", "1"), ("('x', 1).0", "x"), ('{ let x = "q<"; x }', "q&lt;"), ('{ "a"; "b" }', "b"), ('unsafe { "x&" }', "x&amp;"), ('if true { "x" } else { "y" }', "x"),
        ('{ { "x"; } }', ""), ('const { "x" }', "x"), ('concat!("a", "<", 5)', "a&lt;5"), ("stringify!(q)", "q"), ("1 + 1", "2"), ("(1, 2).1", "2"), ("loop { break 'z' }", "z"),
        ('core::primitive::u8::MAX', "255"), ("Some(5)", "5"), ("Some('<')", "&lt;"), ('Option::<u8>::None', "")]

WRAPS = ["{0}", "({0})", "{{ {0} }}", "(({0}))", "({{ {0} }})", "{{ ({0}) }}", "{{ {{ {0} }} }}"]


def lits(tier, rnd):
    out = []
    for src, text in NEAR:
        i = Ids()
        c = lambda: Const(src, text)
        xs = [El("div", [c()]), El("div", [A("x", c()), E(i())]), El("p", [S("k"), c(), El("frag", [c(), E(i())])]), El("classes", [c(), S("k")]),
              El("div", [Attr(c(), S("v")), Attr(c(), Bool(None, True)), Attr(c(), Bool(i()))])]
        w = W("constant expression", xs, ("C14",), ("C12",), what="the expression " + src)
        out.append(w)
    for n, (src, ty, text) in enumerate(literals()):
        # braces inside the source are taken literally
        q = src.replace("{", "{{").replace("}", "}}")
        ws = WRAPS if tier == "thorough" else [WRAPS[0], WRAPS[1 + n % 6], WRAPS[1 + (n + 3) % 6]]

        def lit(w, src=src, text=text):
            x = Lit(src, text)
            x.code = (lambda: w.replace("{{", "\1").replace("}}", "\2").replace("{0}", src).replace("\1", "{").replace("\2", "}"))
            return x

        def nodes(mk):
            xs = []
            for w in ws:
                i = Ids()
                xs.append(El("div", [mk(w)]))
                xs.append(El("div", [A("x", mk(w)), E(i())]))
                xs.append(El("input", [A("x", mk(w)), A("y", S("z"))]))
                if ty != "()":
                    xs.append(El("div", [Attr(mk(w), S("v"))]))
                    xs.append(El("div", [Attr(mk(w), Bool(None, True))]))
                    xs.append(El("div", [Attr(mk(w), Bool(i()))]))
                xs.append(El("p", [S("k"), mk(w), El("frag", [mk(w), mk(w)])]))
                xs.append(El("classes", [mk(w), S("k"), mk(w)]))
            return xs

        def var(w):
            return Const("{ let v: %s = %s; v }" % (ty, src), text)
        A1 = nodes(lit)
        B1 = nodes(var)
        for h in range(0, len(A1), 8):
            tw = W("literal in a variable", B1[h:h + 8], (), ("C12",), what="variable of type %s holding %s" % (ty, src[:60]))
            w = W("literal " + src[:40].replace("\n", " "), A1[h:h + 8], ("C14",), ("C12",), twin=tw)
            w.twinprops = ("C14",)
            out += [tw, w]
        out.append(W("literal alone", [El("frag", [lit("{0}")]), Plain(lit("{0}"))], ("C14",), ("C12",)))
    return out


class Plain(M.X):
    """a value rendered without a macro around it"""

    def __init__(self, x):
        self.x = x

    def code(self):
        return self.x.code()

    def kids(self):
        return [self.x]

    def ev(self, p):
        return self.x.ev(p)


# -------------------------------------------------------------------------------------------------------- components
def comppaths(tier, rnd):
    """components called by a path, which needs macros that carry their own scope (feature decl_macro)"""
    return comps(tier, rnd, True)


def comps(tier, rnd, paths=False):
    out = []
    n = [0]

    def comp(params, calls, vis="pub ", where=False, generics=True, kind=0, attrs="", use=None, pat=""):
        """params: [(name, default source, default X, rest wrapper)]"""
        n[0] += 1
        name = ("comp%d" % n[0]) if kind == 0 else "Comp%d" % n[0]
        gs, ps, body = [], [], []
        decl = []
        for k, (pn, dsrc, dx, rest) in enumerate(params):
            g = "P%d" % k
            if not where:
                gs.append(g + ": Render")
            else:
                gs.append(g)
            at = ""
            if dsrc is not None:
                at = "#[default] " if dsrc == "" else "#[default(%s)] " % dsrc
            ty = g
            if dsrc is not None and isinstance(dx, tuple):
                ty, dx = dx
                gs.pop()
            if rest:
                at = "#[rest] " if rest is True else "#[rest(%s)] " % rest[0]
            ps.append("%s%s: %s" % (pat.replace("@", at) if pat else at, pn, ty))
            body.append(pn)
            decl.append((pn, dx, (True if rest is True else rest[1]) if rest else False))
        src = "%s#[laby] %sfn %s%s(%s) -> impl Render%s { frag!(%s) }" % (
            attrs, vis, name, "<%s>" % ", ".join(gs) if gs else "", ", ".join(ps),
            " where " + ", ".join("%s: Render" % g for g in gs) if where and gs else "",
            ", ".join(['"("'] + [y for b in body for y in (b, '";"')] + ['")"']))
        cname = name
        if paths and not vis:
            return
        if paths or use is not None:
            # declared in a module of its own
            src = "pub mod in_%s { use super::*; pub fn own() -> &'static str { \"own\" } %s } " % (name, src)
            if paths:
                cname = rnd.choice(["in_%s::%s", "crate::in_%s::%s", "self::in_%s::%s"]) % (name, name)
            else:
                src += "%suse in_%s::%s;" % (use, name, name)
        for args in calls:
            out.append(W("component (%s)" % ", ".join("%s%s" % ("rest " if r else "", a) for a, _, _, r in params),
                         [Comp(cname, decl, args), El("div", [Comp(cname, decl, clone_args(args, 100))])],
                         ("C15",), ("C15",), decl=src))
            src_used = True
        return name, decl
    i = Ids()
    P = [("a", None, None, None), ("b", None, None, None), ("c", None, None, None)]
    import itertools
    for perm in itertools.permutations("abc"):
        comp(P, [[(p, E(k + 1)) for k, p in enumerate(perm)]])
    D = [("a", None, None, None), ("b", "", ("u32", Const("u32::default()", "0")), None), ("c", "7u8", ("u8", Lit("7u8", "7")), None), ("d", '"x<"', ("&'static str", Lit('"x<"', "x&lt;")), None)]
    calls = []
    for k in range(8):
        c = [("a", E(1))]
        if k & 1:
            c.append(("b", Num(2)))
        if k & 2:
            c.append(("c", Const("200u8", "200")))
        if k & 4:
            c.append(("d", Str(4)))
        calls.append(c)
        calls.append(list(reversed(c)))
    comp(D, calls)
    # rest at every position, with 0..n arguments, named ones in between
    for pos in range(3):
        params = [("a", None, None, None), ("b", None, None, None)]
        params.insert(pos, ("r", None, None, True))
        calls = []
        for m in range(5):
            calls.append([("b", E(1)), ("a", E(2))] + [(None, E(10 + k)) for k in range(m)])
            c = []
            for k in range(m):
                c.append((None, E(10 + k)))
                if k == 0:
                    c.append(("a", E(2)))
            if m == 0:
                c.append(("a", E(2)))
            c.append(("b", E(1)))
            calls.append(c)
        calls.append([(None, El("p", [E(1)])), ("a", El("b", [E(2)])), (None, S("<")), ("b", S("z")), (None, E(3))])
        comp(params, calls)
        comp(params, calls[:4], where=True)
    for wr, fn, nargs in (("two", lambda xs: El("frag", [Const('"["', "["), xs[0], Const('"|"', "|"), xs[1], Const('"]"', "]")]), 2),
                          ("crate::two", lambda xs: El("frag", [Const('"["', "["), xs[0], Const('"|"', "|"), xs[1], Const('"]"', "]")]), 2),
                          ("one", lambda xs: El("frag", [Const('"["', "["), xs[0], Const('"]"', "]")]), 1),
                          ("crate::one", lambda xs: El("frag", [Const('"["', "["), xs[0], Const('"]"', "]")]), 1),
                          ("none", lambda xs: El("frag", [Const('"[-]"', "[-]")]), 0),
                          ("Some", lambda xs: El("frag", xs), 1), ("|x| x", lambda xs: El("frag", xs), 1),
                          ("|x, y, z| frag!(z, y, x)", lambda xs: Back(xs), 3)):
        calls = []
        for k in range(nargs + 1):
            c = [(None, E(10 + j)) for j in range(nargs)]
            c.insert(k, ("a", E(1)))
            calls.append(c)
        comp([("a", None, None, None), ("r", None, None, (wr, fn))], calls)
    # given twice: the last one counts
    comp(P, [[("a", E(1)), ("b", E(2)), ("a", E(3)), ("c", E(4))], [("c", E(1)), ("c", E(2)), ("c", E(3)), ("a", E(4)), ("b", E(5))]])
    comp(D, [[("a", E(1)), ("b", Num(2)), ("b", Num(3)), ("d", Str(4)), ("a", E(5))]])
    # names that are raw identifiers, or names the generated code might use itself
    for names_ in (["r#type", "r#for"], ["t1", "buffer"], ["self_", "_x"], ["T1", "call"], ["r#fn", "frag"], ["x", "args"]):
        Q = [(nm, None, None, None) for nm in names_]
        comp(Q, [[(names_[1], E(1)), (names_[0], E(2))], [(names_[0], E(1)), (names_[1], E(2))]])
    # many parameters
    for m in (1, 5, 9, 10, 11, 12, 20):
        Q = [("p%d" % k, None, None, None) for k in range(m)]
        order = list(range(m))
        rnd.shuffle(order)
        comp(Q, [[("p%d" % k, E(k + 1)) for k in order], [("p%d" % k, E(k + 1)) for k in reversed(range(m))]])
    comp([], [[]])
    comp([("r", None, None, True)], [[], [(None, E(1))], [(None, E(1)), (None, S("q")), (None, E(2))], [(None, E(k + 1)) for k in range(12)]])
    comp([("a", None, None, None)], [[("a", E(1, f))] for f in range(len(E.FORMS))])
    comp([("a", None, None, None), ("b", None, None, None)], [[("b", Match([(1, E(2)), (None, E(3))])), ("a", Opt(4))]], vis="")
    comp([("a", None, None, None), ("b", None, None, None)], [[("b", E(1)), ("a", E(2))]], vis="pub(crate) ")
    comp([("a", None, None, None), ("b", None, None, None)], [[("b", E(1)), ("a", E(2))]], attrs="/// documented\n#[inline] ")
    comp([("Aa", None, None, None), ("b", None, None, None)], [[("b", E(1)), ("Aa", E(2))]], kind=1)
    if paths:
        # a default of the component's own module, which the caller cannot name
        comp([("a", None, None, None), ("b", "own()", ("&'static str", Const('"own"', "own")), None)], [[("a", E(1))], [("b", Str(2)), ("a", E(1))]])
    # attributes of the user's own on the parameters, before and after the library's
    for pat in ("#[allow(unused)] @", "@#[allow(unused)] ", "#[cfg(all())] @#[warn(unused_variables)] #[allow(unused)] "):
        comp([("a", None, None, None), ("r", None, None, True), ("b", "5u8", ("u8", Lit("5u8", "5")), None), ("c", "", ("u32", Const("u32::default()", "0")), None)],
             [[("a", E(1))], [(None, E(2)), ("b", Const("6u8", "6")), ("a", E(1)), (None, El("p", [E(3)]))]], pat=pat)
    for vis, use in (("pub ", ""), ("pub ", "pub(crate) "), ("pub(crate) ", ""), ("pub(super) ", ""), ("pub(in crate) ", "")):
        comp([("a", None, None, None), ("r", None, None, True), ("b", "5u8", ("u8", Lit("5u8", "5")), None)],
             [[("a", E(1))], [(None, E(2)), ("b", Const("6u8", "6")), ("a", E(1)), (None, El("p", [E(3)]))]], vis=vis, use=use)
    for _ in range(40 if tier == "quick" else 300):
        m = rnd.randint(0, 5)
        params = []
        rest = rnd.choice([None, rnd.randrange(m + 1)])
        for k in range(m):
            if rnd.random() < 0.4:
                params.append(("q%d" % k,) + rnd.choice([("5u8", ("u8", Lit("5u8", "5"))), ("", ("u16", Const("0u16", "0"))), ('"d"', ("&'static str", Lit('"d"', "d")))]) + (None,))
            else:
                params.append(("q%d" % k, None, None, None))
        if rest is not None:
            params.insert(rest, ("r", None, None, True))
        i = Ids()
        calls = []
        for _ in range(2):
            c = []
            for pn, ds, dx, r in params:
                if r:
                    c += [(None, E(i(), rnd.choice(E.FEW))) for _ in range(rnd.randrange(4))]
                elif ds is None:
                    c.append((pn, E(i(), rnd.choice(E.FEW))))
                    if rnd.random() < 0.2:
                        c.append((pn, E(i())))
                elif rnd.random() < 0.5:
                    ty = dx[0]
                    c.append((pn, Str(i()) if ty.startswith("&") else Const("9" + ty, "9")))
            order = list(range(len(c)))
            rnd.shuffle(order)
            # unnamed arguments keep their order
            c2 = [c[k] for k in order]
            calls.append(c2)
        comp(params, calls)
    return out


class Back(M.X):
    """evaluated in order, rendered backwards"""

    def __init__(self, xs):
        self.xs = xs

    def kids(self):
        return self.xs

    def ev(self, p):
        pl = [x.ev(p) for x in self.xs]
        return lambda: [y() for y in reversed(pl)] and None


def clone_args(args, base):
    """the same call again with other opaque values"""
    import copy
    out = []
    for n, x in args:
        x = copy.deepcopy(x)
        for y in M.walk(x):
            if isinstance(y, (E, Opt, Str, Num, Var)):
                y.i += base
                if isinstance(y, Var):
                    y.name = "v%d" % y.i
            if isinstance(y, Match):
                y.branches = [(None if c is None else c + base, b) for c, b in y.branches]
            if isinstance(y, El):
                for a in y.args:
                    if isinstance(a, Attr) and isinstance(a.value, Bool) and a.value.i is not None:
                        a.value.i += base
        out.append((n, x))
    return out


# -------------------------------------------------------------------------------------------------------- conditionals
def matches(tier, rnd):
    out = []

    def w(x, **k):
        out.append(W("frag_match", [x], ("C16",), ("C16", "C12"), **k))
    for n in (1, 2, 3, 4, 7) + ((12,) if tier == "thorough" else ()):
        for el in (False, True):
            i = Ids()
            br = [(i(), E(i())) for _ in range(n)] + ([(None, E(i()))] if el else [])
            w(Match(br))
            i = Ids()
            br = [(i(), [E(i()), El("p", [A("x", E(i())), E(i())]), S("<t>"), Const("()", ""), El("br", []), Str(i()), Match([(i(), E(i())), (None, S("q"))])][k % 7]) for k in range(n)]
            if el:
                br.append((None, El("frag", [E(i()), E(i())])))
            if forks(Match(br)) < 6:
                w(El("div", [E(i()), Match(br), E(i())]))
                w(El("classes", [S("a"), bump(Match(br), 100), E(i())]))
    for how in ("laby::frag_match!({0})", "frag_match![{0}]", "frag_match!{{ {0} }}"):
        i = Ids()
        w(Match([(i(), E(i())), (i(), El("b", [E(i())])), (None, L("5", "5"))], how))
    for f in range(len(E.FORMS)):
        i = Ids()
        w(Match([(i(), E(i(), f)), (None, E(i(), (f + 3) % len(E.FORMS)))]))
    pats = [[("A", None, Field("a")), ("B", None, S("b")), ("C", None, El("frag", [Field("c"), Field("d")]))],
            [("B", None, E(2)), ("_", None, E(3))], [("_", None, E(2))], [("AB", None, E(2)), ("_", None, E(3))],
            [("A", 4, E(2)), ("A", None, Field("a")), ("_", 5, E(6)), ("_", None, E(7))],
            [("C", None, El("div", [A("x", Field("d")), Field("c")])), ("A", 4, El("p", [Field("a")])), ("_", None, Const("()", ""))],
            [("A", None, El("br", [])), ("B", 4, El("b", [E(2)])), ("B", None, L("'<'", "&lt;")), ("C", 5, Field("c") and E(6)), ("C", None, S("z"))],
            [("B", 4, E(2)), ("B", 5, E(3)), ("B", 6, E(7)), ("_", None, E(8))],
            [("A", None, Match([(4, Field("a")), (None, E(2))])), ("_", None, Match([(5, E(3)), (6, El("i", [E(7)]))]))]]
    for k, arms in enumerate(pats):
        w(MatchKind(1, arms))
        import copy
        w(El("div", [E(50), MatchKind(1, copy.deepcopy(arms)), E(51)]))
        w(El("p", [A("x", MatchKind(1, copy.deepcopy(arms))), E(52)]))
    # nested conditionals
    i = Ids()
    w(Match([(i(), Match([(i(), E(i())), (None, E(i()))])), (None, Match([(i(), E(i()))]))]))
    w(MatchKind(1, [("A", None, MatchKind(2, [("A", None, E(3)), ("_", None, E(4))])), ("_", None, Match([(5, E(6))]))]))
    for body, plan in BODIES:
        out.append(W("branch bodies", [Raw(body, plan)], ("C16",), ("C16", "C12")))
    for _ in range(30 if tier == "quick" else 300):
        i = Ids()
        br = []
        for k in range(rnd.randint(1, 5)):
            br.append((i(), rnd.choice([leaf(i, rnd, False), tree(i, rnd, 1, 2)])))
        if rnd.random() < 0.6:
            br.append((None, rnd.choice([leaf(i, rnd, False), tree(i, rnd, 1, 2)])))
        x = Match(br)
        if forks(x) > 3 or size(x) > 30:
            continue
        w(El(rnd.choice(["div", "frag", "classes"]), [leaf(i, rnd, False), x]))
    return [x for x in out if distinct(x)]


def bump(x, n):
    import copy
    return clone_args([(None, x)], n)[0][1]


class Raw(M.X):
    """hand-written source with a hand-written meaning"""

    def __init__(self, src, plan):
        self.src, self.plan = src, plan

    def code(self):
        return self.src

    def ev(self, p):
        return self.plan(p)


def _b1(p):
    k = p.event("ev", 1) if p.cond(p.event("cond", 9)) else p.event("ev", 2)
    return lambda: p.render(k)


def _b2(p):
    k = p.event("kind", 1)
    if p.variant(k) == 0:
        e = p.event("ev", 2)
        return lambda: (p.render((k, 0, 0)), p.render(e))
    if p.variant(k) == 2:
        return lambda: (p.render((k, 2, 1)), p.render((k, 2, 0)))
    e = p.event("ev", 3)
    return lambda: p.render(e)


def _b3(p):
    k = p.event("opt", 1)
    if p.variant(k) == 1:
        return lambda: p.render((k, 1, 0))
    k2 = p.event("opt", 2)
    if p.variant(k2) == 1:
        return lambda: p.text("two")
    return lambda: p.text("none")


def _b4(p):
    if p.cond(p.event("cond", 9)):
        p.event("mark", 5)
        k = p.event("ev", 1)
        return lambda: p.render(k)
    p.event("mark", 6)
    return lambda: p.text("n")


def _b5(p):
    # both halves of && are conditions of their own
    if p.cond(p.event("cond", 8)) and p.cond(p.event("cond", 9)):
        k = p.event("ev", 1)
        return lambda: p.render(k)
    return lambda: None


def _b6(p):
    a = p.cond(p.event("cond", 8))
    b = p.cond(p.event("cond", 9))
    k = p.event("ev", {(True, True): 1, (True, False): 2, (False, True): 3, (False, False): 4}[(a, b)])
    return lambda: p.render(k)


BODIES = [
    ("frag_match!(match L::cond(9) { true => L::ev(1), false => { L::ev(2) } })", _b1),
    ("frag_match!(match L::cond(9) { true => { L::ev(1) } false => { L::ev(2) } })", _b1),
    ("frag_match!(if L::cond(9) { L::ev(1) } else { L::ev(2) })", _b1),
    ("frag_match!(if !L::cond(9) { L::ev(2) } else { L::ev(1) })", _b1),
    ("frag_match!(match L::kind(1) { Kind::A(x) => frag!(x, L::ev(2)), Kind::C(x, y) => frag!(y, x), _ => L::ev(3), })", _b2),
    ("frag_match!(match L::kind(1) { Kind::B => L::ev(3), Kind::C(x, y) => { let z = y; frag!(z, x) } Kind::A(x) => { frag!(x, L::ev(2)) } })", _b2),
    ("frag_match!(if let Some(x) = L::opt(1) { x } else if let Some(_) = L::opt(2) { \"two\" } else { \"none\" })", _b3),
    ("frag_match!(if let Some(x) = L::opt(1) { let y = x; y } else { frag_match!(if let Some(_) = L::opt(2) { \"two\" } else { \"none\" }) })", _b3),
    ("frag_match!(match L::opt(1) { Some(x) => x, None => frag_match!(match L::opt(2) { Some(_) => \"two\", None => \"none\" }) })", _b3),
    ("frag_match!(if L::cond(9) { L::mark(5); L::ev(1) } else { L::mark(6); \"n\" })", _b4),
    ("frag_match!(match L::cond(9) { true => { L::mark(5); L::ev(1) } _ => { L::mark(6); \"n\" } })", _b4),
    ("frag_match!(if L::cond(8) && L::cond(9) { L::ev(1) })", _b5),
    ("frag_match!(match (L::cond(8), L::cond(9)) { (true, true) => L::ev(1), (true, false) => L::ev(2), (false, true) => L::ev(3), (false, false) => L::ev(4) })", _b6),
]


# ------------------------------------------------------------------------------------------------------------ render!
def renders(tier, rnd):
    out = []
    for n in range(0, 7):
        for tr in (False, True):
            i = Ids()
            out.append(W("render!", [Render([E(i(), k) for k in range(n)], tr)], ("C23",), ("C23", "C12")))
            out.append(W("render!", [Render([E(i(), 20 + k % 5) for k in range(n)], tr)], ("C23",), ("C23", "C12")))
            i = Ids()
            args = [[E(i()), El("p", [A("x", E(i())), E(i())]), S("<t>"), Str(i()), Num(i()), El("frag", [E(i()), S("z")]), L("5", "5")][(k + n) % 7] for k in range(n)]
            out.append(W("render!", [Render(args, tr)], ("C23",), ("C23", "C12")))
    for src, ty, text in literals()[::7]:
        out.append(W("render!", [Render([Lit(src, text)])], ("C23", "C14"), ("C23",)))
        out.append(W("render!", [Render([Lit(src, text), E(1), Lit(src, text)], True)], ("C23", "C14"), ("C23",)))
    for f in range(len(E.FORMS)):
        out.append(W("render!", [Render([E(1, f)])], ("C23",), ("C23", "C12")))
    i = Ids()
    out.append(W("render!", [Render([El("classes", [E(i()), E(i())]), E(i()), El("br", [A("b", Bool(i()))]), Opt(i()), Match([(i(), E(i())), (None, E(i()))])])], ("C23",), ("C23", "C12")))
    out.append(W("render!", [Render([E(k + 1) for k in range(25)])], ("C23",), ("C23", "C12")))
    i = Ids()
    out.append(W("render!", [Render([Iter(i(), "del")])], ("C23",), ("C23", "C12")))
    out.append(W("render!", [Render([Bound(El("p", [E(i())]), "k"), Var(i()), E(i())])], ("C23",), ("C23", "C12")))
    for _ in range(40 if tier == "quick" else 300):
        i = Ids()
        args = [rnd.choice([leaf, lambda i, r: tree(i, r, 2, 3)])(i, rnd) for _ in range(rnd.randint(1, 5))]
        if sum(forks(a) for a in args) > 4 or sum(size(a) for a in args) > 40:
            continue
        out.append(W("render!", [Render(args, rnd.random() < 0.3)], ("C23",), ("C23", "C12")))
    return out


def wraps(tier, rnd):
    """helpers inside markup"""
    out = []
    for o in ("div", "frag", "classes"):
        for f in Iter.FORMS:
            i = Ids()
            out.append(W("iterator child", [El(o, [E(i()), Iter(i(), f), E(i())])], ("C17",), ("C12", "C17")))
    i = Ids()
    out.append(W("iterator attribute", [El("a", [A("x", Iter(i(), "del")), Iter(i(), "lines")])], ("C17",), ("C12", "C17")))
    out.append(W("raw text", [El("a", [A("x", Str(i(), True)), Str(i(), True), Str(i())]), El("frag", [Str(i(), True)])], ("C03", "C17"), ("C12",)))
    i = Ids()
    out.append(W("run-time text", [El("a", [Attr(Str(i()), Str(i())), Attr(Str(i()), Bool(i())), A("y", Str(i())), Str(i())]), El("frag", [Str(i())]),
                                   El("classes", [Str(i()), Str(i())]), El("p", [El("b", [Str(i()), El("i", [A("t", Str(i()))])])])], ("C03",), ("C12",)))
    out.append(W("early return", [El("div", [E(1), Opt(2, 1), E(3)])], (), ("C12",), ret=True))
    out.append(W("early return", [El("div", [A("x", Opt(2, 1)), El("p", [E(1), Opt(3, 1)]), E(4)])], (), ("C12",), ret=True))
    return out


FAM = {"tags": tags, "attrs": attrs, "bools": bools, "trees": trees, "shapes": shapes, "big": big, "flat": flat, "lits": lits,
       "comps": comps, "comppaths": comppaths, "matches": matches, "renders": renders, "wraps": wraps}
USE = {
    "C09": ["tags", "shapes", "trees", "big", "wraps"],
    "C10": ["attrs", "shapes", "trees"],
    "C11": ["bools", "shapes", "trees"],
    "C12": ["trees", "shapes", "attrs", "bools", "flat", "big", "wraps", "matches"],
    "C13": ["flat"],
    "C14": ["lits"],
    "C15": ["comps"],
    "C16": ["matches"],
    "C17": ["wraps"],
    "C22": ["tags"],
    "C23": ["renders"],
    "C03": ["wraps", "trees"],
    "C20": ["trees", "shapes", "big", "comps", "matches"],
    "C21": ["trees", "shapes", "big", "comps", "matches"],
}


def witnesses(prop, tier, seed=1):
    out = []
    for f in USE[prop]:
        out += FAM[f](tier, random.Random("%s/%s/%s" % (f, seed, tier)))
    return out
