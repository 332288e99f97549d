"""The markup language, independently of laby_macros: what an expression of it means (evaluations, output), and how it
is written in Rust.  Nothing here looks at the implementation."""

NORMAL = ("a abbr address article aside audio b bdi bdo blockquote body button canvas caption cite code colgroup data "
          "datalist dd del details dfn dialog div dl dt em fieldset figcaption figure footer form h1 h2 h3 h4 h5 h6 head "
          "header hgroup html i iframe ins kbd label legend li main map mark menu menuitem meter nav noscript object ol "
          "optgroup option output p picture pre progress q rb rp rt rtc ruby s samp script section select slot small span "
          "strong style sub summary sup table tbody td template textarea tfoot th thead time title tr u ul var video").split()
VOID = "area base br col embed hr img input link meta param source track wbr".split()
assert len(NORMAL) == 101 and len(VOID) == 14


def esc(s):
    for a, b in (("&", "&amp;"), ("<", "&lt;"), (">", "&gt;"), ('"', "&quot;"), ("'", "&#39;")):
        s = s.replace(a, b)
    return s


class Early(Exception):
    """the witness function returns before the node exists"""


class Mixed(Exception):
    """the model needs a decision the path never made"""

    def __init__(self, what):
        self.what = what


class Path:
    """what one path of the program decided"""

    def __init__(self, cond, variant, items):
        self._cond, self._variant, self._items = cond, variant, items
        self.n = {}
        self.ev = []       # expected evaluations: events, or ("either", [..], [..]), or ("any", [[..], ..])
        self.out = []      # expected output items
        self.rn = []       # expected render events
        self.mode = self.ev
        self.org = ("C09",)

    def event(self, name, i):
        self.n[(name, i)] = self.n.get((name, i), 0) + 1
        self.mode.append((name, i))
        return (name, i, self.n[(name, i)])

    def cond(self, k):
        v = self._cond(k)
        if v is None:
            raise Mixed(("condition", k))
        return v

    def variant(self, k):
        v = self._variant(k)
        if v is None:
            raise Mixed(("variant", k))
        return v

    def group(self, fn):
        """evaluations of fn collected separately"""
        old = self.mode
        self.mode = []
        try:
            v = fn()
            return self.mode, v
        except Early:
            raise
        finally:
            self.mode = old

    def render(self, k):
        self.mode.append(("render", k))
        self.item("ev", k)

    def item(self, *x):
        self.out.append((x, self.org))

    def text(self, s, *also):
        self.out.append((("c", s.encode() if isinstance(s, str) else s), self.org + also))

    def within(self, prop, fn):
        old = self.org
        self.org = (prop,)
        try:
            fn()
        finally:
            self.org = old


class X:
    """an expression; code() is Rust, ev(path) evaluates it to a plan: a function rendering it on a path"""
    pre = ""

    def code(self):
        raise NotImplementedError

    def prelude(self):
        """statements before the expression"""
        return "".join(k.prelude() for k in self.kids())

    def kids(self):
        return ()

    def preev(self, p):
        for k in self.kids():
            k.preev(p)


class E(X):
    """an opaque value, evaluated by an expression of some form"""
    FORMS = ["{0}", "{{ {0} }}", "({0})", "({{ {0} }})", "(|| {0})()", "match {0} {{ x => x }}", "loop {{ break {0} }}",
             "same({0})", "same!({0})", "S {{ f: {0} }}.f", "({0}, 1).0", "unsafe {{ {0} }}", "{{ let t1 = {0}; t1 }}",
             "{{ let buffer = {0}; buffer }}", "Some({0})", "{{ L::mark({1}); {0} }}", "[{0}; 1]"[:0] or "{0}",
             "if L::cond({1}) {{ {0} }} else {{ L::ev({2}) }}", "{{ let n = {0}; {{ n }} }}", "(({0}))",
             "page::pf{3}()", "pf{3}()", "crate::page::O.pm{3}()", "page::now!(pf{3})", "{{ page::pf{3}() }}",
             "other::p!({0})", "other::frag!({0})", "other::bool!({0})", "crate::other::img!({0})"]
    FEW = list(range(8)) + [20, 21, 22, 23, 25, 26, 27]

    def __init__(self, i, form=0):
        self.i = i
        self.form = form % len(self.FORMS)

    def code(self):
        return self.FORMS[self.form].format("L::ev(%d)" % self.i, 1000 + self.i, 2000 + self.i, self.i)

    def ev(self, p):
        f = self.FORMS[self.form]
        i = self.i
        if "L::mark" in f:
            p.event("mark", 1000 + i)
        if "L::cond" in f:
            if not p.cond(p.event("cond", 1000 + i)):
                i = 2000 + i
        k = p.event("ev", i)
        return lambda: p.render(k)


class Var(X):
    """an opaque value bound to a variable beforehand"""

    def __init__(self, i, name=None):
        self.i = i
        self.name = name or "v%d" % i

    def code(self):
        return self.name

    def prelude(self):
        return "let %s = L::ev(%d); " % (self.name, self.i)

    def preev(self, p):
        self.k = p.event("ev", self.i)

    def ev(self, p):
        k = self.k
        return lambda: p.render(k)


class Opt(X):
    """an optional opaque value, from a function, or an early return on None (form 1)"""

    def __init__(self, i, form=0):
        self.i, self.form = i, form

    def code(self):
        return ("L::opt(%d)" if not self.form else "L::opt(%d)?") % self.i

    def ev(self, p):
        k = p.event("opt", self.i)
        v = p.variant(k)
        if self.form and v == 0:
            raise Early()
        if v == 0:
            return lambda: None
        return lambda: p.render((k, 1, 0))


class Str(X):
    """text known only at run time"""

    def __init__(self, i, raw=False):
        self.i, self.raw = i, raw

    def code(self):
        return "laby::raw!(L::text(%d))" % self.i if self.raw else "L::text(%d)" % self.i

    def ev(self, p):
        k = p.event("text", self.i)
        def render():
            if self.raw:
                p.item("in", k)
            else:
                old = p.org
                p.org += ("C03",)
                p.item("esc", k)
                p.org = old
        return render


class Num(X):
    """a number known only at run time"""

    def __init__(self, i):
        self.i = i

    def code(self):
        return "L::num(%d)" % self.i

    def ev(self, p):
        k = p.event("num", self.i)
        return lambda: p.item("num", "u32", k)


class Iter(X):
    """an opaque iterator in a wrapper"""
    FORMS = {"iter": ("laby::iter!({0})", ""), "del": ('laby::iter!("<,>", {0})', "<,>"), "lines": ("laby::iter_lines!({0})", "\n"),
             "new": ("laby::RenderIterator({0})", "")}

    def __init__(self, i, form="iter"):
        self.i, self.form = i, form

    def code(self):
        return self.FORMS[self.form][0].format("L::seq(%d)" % self.i)

    def ev(self, p):
        k = p.event("seq", self.i)
        d = self.FORMS[self.form][1]

        def render():
            p.within("C17", go)

        def go():
            p.mode.append(("into_iter", k))
            n = p._items(k)
            for j in range(n):
                p.mode.append(("next", k, j))
                if j:
                    p.text(d)
                p.render(("item", k, j))
            p.mode.append(("end", k, n))
        return render


class Lit(X):
    """a literal and its text as a rendered value"""

    def __init__(self, src, text, wrap="{0}"):
        self.src, self.text, self.wrap = src, text, wrap

    def code(self):
        return self.wrap.format(self.src)

    def ev(self, p):
        return lambda: p.text(self.text, "C14")


class Const(X):
    """an expression without effects that renders as known text"""

    def __init__(self, src, text, pre=""):
        self.src, self.text, self.pre = src, text, pre

    def code(self):
        return self.src

    def prelude(self):
        return self.pre

    def ev(self, p):
        return lambda: p.text(self.text)


class Attr:
    """name: ("id", source, text) | X;  value: X | Bool"""

    def __init__(self, name, value):
        self.name, self.value = name, value

    def code(self):
        n = self.name[1] if isinstance(self.name, tuple) else self.name.code()
        return "%s = %s" % (n, self.value.code())


class Bool:
    """bool!(condition): i None for a literal"""
    FORMS = ["L::cond({0})", "{{ L::cond({0}) }}", "(L::cond({0}))", "!!L::cond({0})", "L::cond({0}) & true", "match L::cond({0}) {{ true => true, false => false }}",
             "page::pc{0}()", "pc{0}()", "!!crate::page::pc{0}()"]

    def __init__(self, i=None, value=None, form=0, wrap="{0}", style="bool!({0})"):
        self.i, self.value, self.form, self.wrap, self.style = i, value, form, wrap, style

    def code(self):
        if self.i is None:
            c = self.wrap.format("true" if self.value else "false")
        else:
            c = self.FORMS[self.form % len(self.FORMS)].format(self.i)
        return self.style.format(c)

    def ev(self, p):
        if self.i is None:
            return self.value
        return p.cond(p.event("cond", self.i))

    def prelude(self):
        return ""


class El(X):
    """an element, fragment or class list.  how: path and brackets of the macro"""

    def __init__(self, tag, args, how="{0}!({1})", void=None):
        self.tag, self.args, self.how = tag, list(args), how

    void = property(lambda s: s.tag in VOID)
    frag = property(lambda s: s.tag in ("frag", "classes"))

    def code(self):
        return self.how.format(self.tag, ", ".join(a.code() for a in self.args))

    def kids(self):
        out = []
        for a in self.args:
            if isinstance(a, Attr):
                if isinstance(a.name, X):
                    out.append(a.name)
                if isinstance(a.value, X):
                    out.append(a.value)
            else:
                out.append(a)
        return out

    def ev(self, p):
        attrs, kids = [], []
        for a in self.args:
            if not isinstance(a, Attr):
                continue
            if isinstance(a.name, X):
                # a dynamic name may be evaluated before or after its value
                n0 = dict(p.n)
                g1, nm = p.group(lambda: a.name.ev(p))
                g2, v = p.group(lambda: a.value.ev(p))
                if g1 and g2:
                    p.mode.append(("either", g1, g2))
                else:
                    p.mode += g1 + g2
            else:
                nm = None
                v = a.value.ev(p)
            attrs.append((a, nm, v))
        for a in self.args:
            if not isinstance(a, Attr):
                kids.append(a.ev(p))

        def render():
            if not self.frag:
                p.text("<" + self.tag)
            for a, nm, v in attrs:
                def one(a=a, nm=nm, v=v):
                    b = isinstance(a.value, Bool)
                    if b and not v:
                        return
                    p.text(" ")
                    if nm is None:
                        p.text(a.name[2])
                    else:
                        nm()
                    if not b:
                        p.text('="')
                        v()
                        p.text('"')
                p.within("C11" if isinstance(a.value, Bool) else "C10", one)
            p.within("C09", inner)

        def inner():
            if not self.frag:
                p.text(">")
            if self.void:
                return
            first = True
            for k in kids:
                if not first and self.tag == "classes":
                    p.text(" ")
                first = False
                k()
            if not self.frag:
                p.text("</%s>" % self.tag)
        return render


class Bound(X):
    """a node bound to a variable before the outer macro"""

    def __init__(self, x, name):
        self.x, self.name = x, name

    def code(self):
        return self.name

    def prelude(self):
        return self.x.prelude() + "let %s = %s; " % (self.name, self.x.code())

    def preev(self, p):
        self.x.preev(p)
        self.plan = self.x.ev(p)

    def ev(self, p):
        return self.plan


class Comp(X):
    """a component call: decl gives the parameters [(name, default X or None, rest?)], args [(name or None, X)];
    the component renders `(` every parameter in order, each followed by `;` and `)`"""

    def __init__(self, name, decl, args, trailing=""):
        self.name, self.decl, self.args, self.trailing = name, decl, args, trailing

    def code(self):
        return "%s!(%s%s)" % (self.name, ", ".join(("%s = %s" % (n, x.code())) if n else x.code() for n, x in self.args),
                              self.trailing if self.args else "")

    def kids(self):
        return [x for n, x in self.args]

    def ev(self, p):
        groups, plans = [], []
        for n, default, rest in self.decl:
            if rest:
                xs = [x for m, x in self.args if m is None]
                w = El("frag", xs) if rest is True else rest(xs)
            else:
                given = [x for m, x in self.args if m == n]
                w = given[-1] if given else default
            g, pl = p.group(lambda: w.ev(p))
            groups.append(g)
            plans.append(pl)
        p.mode.append(("any", [g for g in groups if g]))

        def go():
            p.text("(")
            for pl in plans:
                pl()
                p.text(";")
            p.text(")")
        return lambda: p.within("C15", go)


class Match(X):
    """frag_match!: if-chain.  branches [(condition index or None for else, X)]"""

    def __init__(self, branches, how="laby::frag_match!"):
        self.branches, self.how = branches, how

    def kids(self):
        return [x for c, x in self.branches]

    def code(self):
        s = ""
        for j, (c, x) in enumerate(self.branches):
            if c is None:
                s += " else { %s }" % x.code()
            else:
                s += "%sif L::cond(%d) { %s }" % (" else " if j else "", c, x.code())
        return "%s{ %s }" % (self.how, s) if self.how.endswith("!") else self.how.format(s)

    def ev(self, p):
        for c, x in self.branches:
            if c is None or p.cond(p.event("cond", c)):
                pl = x.ev(p)
                return lambda: p.within("C16", pl)
        return lambda: None


class MatchKind(X):
    """frag_match! with match on an opaque enum of three variants A(value), B, C(value, value).
    arms: list of (pattern, guard condition index or None, X); a pattern is "A", "B", "C" or "_" (first match wins);
    inside an arm for A the value is `a`, for C `c` and `d`"""

    def __init__(self, i, arms, how="laby::frag_match!"):
        self.i, self.arms, self.how = i, arms, how

    PAT = {"A": "Kind::A(a)", "B": "Kind::B", "C": "Kind::C(c, d)", "_": "_", "AB": "Kind::A(_) | Kind::B", "x": "x"}

    def code(self):
        s = ""
        for p, g, x in self.arms:
            pat = self.PAT[p]
            if p == "A" and not uses(x, "a"):
                pat = "Kind::A(..)"
            if p == "C" and not (uses(x, "c") and uses(x, "d")):
                pat = "Kind::C(..)"
            s += "%s%s => %s, " % (pat, " if L::cond(%d)" % g if g is not None else "", x.code())
        return "%s(match L::kind(%d) { %s})" % (self.how, self.i, s)

    def kids(self):
        return [x for _, _, x in self.arms]

    def ev(self, p):
        k = p.event("kind", self.i)
        v = "ABC"[p.variant(k)]
        for pat, g, x in self.arms:
            if pat not in ("_", v, "AB") or (pat == "AB" and v == "C"):
                continue
            if g is not None and not p.cond(p.event("cond", g)):
                continue
            self.k = k
            for y in walk(x):
                if isinstance(y, Field):
                    y.of = k
            pl = x.ev(p)
            return lambda: p.within("C16", pl)
        raise AssertionError("no arm")


class Field(X):
    """a variable bound by the pattern of the arm"""
    IX = {"a": (0, 0), "c": (2, 0), "d": (2, 1)}

    def __init__(self, name):
        self.name = name

    def code(self):
        return self.name

    def ev(self, p):
        v, f = self.IX[self.name]
        k = (self.of, v, f)
        return lambda: p.render(k)


def walk(x):
    yield x
    for k in x.kids():
        for y in walk(k):
            yield y


def uses(x, name):
    return any(isinstance(y, Field) and y.name == name for y in walk(x))


class Render(X):
    """render!(..): the whole output is the string returned"""

    def __init__(self, args, trailing=False):
        self.args, self.trailing = args, trailing

    def kids(self):
        return self.args

    def code(self):
        return "laby::render!(%s%s)" % (", ".join(a.code() for a in self.args), "," if self.trailing and self.args else "")
