"""Compile-fail witnesses: programs the library must not accept, each with a twin differing only in the forbidden
part that must be accepted. Nothing is run; the compiler's verdict on the current tree is the decision."""
import concurrent.futures as cf
import glob
import os
import re
import build
import core
from core import Finding

HEAD = """#![allow(warnings)]
use laby::*;
use laby::internal::Buffer;
pub struct NoRender;
pub fn cond() -> bool { true }
pub fn two<A: Render, B: Render>(a: A, b: B) -> impl Render { frag!(a, b) }
#[laby] pub fn card(title: impl Render, #[default(())] foot: impl Render, #[rest] body: impl Render) -> impl Render { div!(title, body, foot) }
#[laby] pub fn pair(left: impl Render, right: impl Render) -> impl Render { p!(left, right) }
fn out(x: impl Render) -> String { render!(x) }
"""


class Case:
    """bad must not compile, good must; both are item lists appended to the header"""

    def __init__(self, props, what, bad, good, head=HEAD):
        self.props, self.what, self.bad, self.good, self.head = tuple(props), what, bad, good, head


def fn(e, pre=""):
    return "pub fn f() -> String { %srender!(%s) }\n" % (pre, e)


# places a piece of markup can stand: name, text with one hole
PLACES = [
    ("alone", "@"),
    ("in an element", "div!(@)"),
    ("in an element after an attribute", "div!(id = \"x\", \"a\", @, \"b\")"),
    ("two levels down", "main!(div!(p!(\"q\"), section!(@)))"),
    ("four levels down", "html!(body!(main!(div!(p!(@)))))"),
    ("in a fragment", "frag!(\"a\", @)"),
    ("in a fragment in an element", "ul!(frag!(frag!(@)))"),
    ("in classes", "div!(class = classes!(\"a\", @))"),
    ("in an attribute value", "div!(title = @)"),
    ("in an attribute value two levels down", "div!(p!(lang = \"en\", title = @, \"x\"))"),
    ("in parentheses", "div!((@))"),
    ("in a block", "div!({ let x = 1; @ })"),
    ("in an if", "div!(if cond() { Some(@) } else { None })"),
    ("in a function's argument", "div!(two(\"a\", @))"),
    ("in a component's named argument", "card!(title = @)"),
    ("in a component's rest argument", "card!(\"a\", @, title = \"t\")"),
    ("in a conditional fragment", "frag_match!(if cond() { @ } else { \"x\" })"),
    ("in the last arm of a conditional fragment", "frag_match!(match 3 { 1 => \"x\", 2 => 5, _ => @ })"),
    ("in an iterator", "iter!((0..3).map(|_| @))"),
    ("in an iterator in an element", "ul!(iter!({ (0..3).map(|i| li!(i, @)) }))"),
]
CHILD = [("a literal", '"x"'), ("a number", "5"), ("an expression", "two(1, 2)"), ("an element", 'b!("x")'),
         ("another void element", "hr!()"), ("an empty fragment", "frag!()"), ("nothing", "()")]


def fill(place, x):
    return place.replace("@", x)


def void(tier):
    from markup import VOID
    out = []
    for j, t in enumerate(VOID):
        for k, (what, c) in enumerate(CHILD):
            places = PLACES if tier == "thorough" or (t in ("br", "img") and k < 2) else \
                [PLACES[0], PLACES[1], PLACES[2 + (j * 5 + k * 7) % (len(PLACES) - 2)]]
            for name, p in places:
                form = (j + k) % 4
                bad, good = [("%s!(%s)" % (t, c), "%s!()" % t), ('%s!(id = "i", %s)' % (t, c), '%s!(id = "i")' % t),
                             ('%s!(%s, id = "i")' % (t, c), '%s!(id = "i")' % t),
                             ('%s!(hidden = bool!(true), class = two(1, 2), %s)' % (t, c), '%s!(hidden = bool!(true), class = two(1, 2))' % t)][form]
                out.append(Case(("C19",), "<%s> given %s, %s" % (t, what, name), fn(fill(p, bad)), fn(fill(p, good))))
    return out


ATTRS = [("a named attribute", 'id = "x"', '"x"'), ("an attribute with an expression", "id = two(1, 2)", "two(1, 2)"),
         ("an attribute with a string name", '"data-x" = 5', "5"), ("an attribute with a computed name", "{two(1, 2)} = 5", "two(1, 2)"),
         ("a boolean attribute", "hidden = bool!(true)", '"x"'), ("a run-time boolean attribute", "hidden = bool!(cond())", "cond()"),
         ("a boolean attribute that is off", "hidden = bool!(false)", '"x"')]


def fragattr(tier):
    out = []
    for j, o in enumerate(("frag", "classes")):
        for k, (what, a, g) in enumerate(ATTRS):
            places = PLACES if tier == "thorough" or k == 0 else [PLACES[0], PLACES[1], PLACES[2 + (j * 5 + k * 7) % (len(PLACES) - 2)],
                                                                 PLACES[2 + (j * 3 + k * 5 + 4) % (len(PLACES) - 2)]]
            for name, p in places:
                form = (j + k) % 3
                bad, good = [("%s!(%s)" % (o, a), "%s!(%s)" % (o, g)), ('%s!("y", %s)' % (o, a), '%s!("y", %s)' % (o, g)),
                             ('%s!(%s, p!("y"))' % (o, a), '%s!(%s, p!("y"))' % (o, g))][form]
                out.append(Case(("C19",), "%s! given %s, %s" % (o, what, name), fn(fill(p, bad)), fn(fill(p, good))))
    return out


def boolean(tier):
    out = []
    for name, p in PLACES:
        if name == "in an attribute value" or name == "in an attribute value two levels down" or name == "in parentheses":
            continue
        for c in ("true", "false", "cond()") if tier == "thorough" or name in ("alone", "in an element", "in a fragment") else ("true",):
            out.append(Case(("C19",), "bool!(%s) as a value, %s" % (c, name), fn(fill(p, "bool!(%s)" % c)), fn(fill(p, "(%s)" % c))))
    for c in ("true", "cond()"):
        out.append(Case(("C19",), "bool!(%s) as an attribute name" % c, fn('div!(bool!(%s) = "x")' % c), fn('div!({two(%s, 1)} = "x")' % c)))
        out.append(Case(("C19",), "bool!(%s) in a part of an attribute value" % c, fn('div!(title = two("x", bool!(%s)))' % c),
                        fn('div!(title = two("x", %s))' % c)))
        out.append(Case(("C19",), "bool!(%s) in classes" % c, fn('div!(class = classes!("x", bool!(%s)))' % c),
                        fn('div!(class = classes!("x", %s))' % c)))
    bads = [("a string", '"x"'), ("a number", "1"), ("zero", "0"), ("a character", "'t'"), ("an option", "Some(true)"), ("unit", "()"),
            ("a reference", "&cond()"), ("a node", "p!()"), ("a number expression", "1 + 1"), ("nothing", ""), ("two values", "true, false"),
            ("a closure", "|| true"), ("a byte", "b't'"), ("a float", "1.0"), ("a text variable", "t"), ("a function", "cond")]
    names = ["hidden", '"data-x"', "{two(1, 2)}", "r#async"]
    places = [PLACES[k] for k in (0, 1, 2, 3, 6, 11, 15, 16, 19)]
    for j, (what, b) in enumerate(bads):
        for k, nm in enumerate(names):
            if tier != "thorough" and (j + k) % 2 and k:
                continue
            for name, p in (places if tier == "thorough" else [places[0], places[1 + (j + k) % (len(places) - 1)]]):
                out.append(Case(("C19",), "bool! given %s, attribute %s, %s" % (what, nm, name),
                                fn(fill(p, "img!(%s = bool!(%s))" % (nm, b)), 'let t = "x"; '),
                                fn(fill(p, "img!(%s = bool!(cond()))" % nm), 'let t = "x"; ')))
    return out


def unrenderable(tier):
    out = []
    vals = [("a plain struct", "NoRender", '"x"'), ("an option of a plain struct", "Some(NoRender)", 'Some("x")'),
            ("a reference to a plain struct", "&NoRender", '"x"'), ("a plain struct behind a shared pointer", "std::rc::Rc::new(NoRender)", '"x"'),
            ("a displayed plain struct", "disp!(NoRender)", 'disp!("x")'), ("raw of a plain struct", "raw!(NoRender)", 'raw!("x")'),
            ("an iterator of plain structs", "iter!(Some(NoRender))", "iter!(Some(5))"),
            ("lines of plain structs", "iter_lines!(Some(NoRender))", "iter_lines!(Some(5))"),
            ("separated plain structs", "iter!(\",\", Some(NoRender))", "iter!(\",\", Some(5))"),
            ("values separated by a plain struct", "iter!(NoRender, Some(5))", "iter!(\",\", Some(5))"),
            ("an iterator of something that is none", "iter!(NoRender)", "iter!(Some(5))"),
            ("a plain struct on one branch", "frag_match!(if cond() { NoRender } else { \"x\" })", "frag_match!(if cond() { 5 } else { \"x\" })"),
            ("a function of a plain struct", "two(\"x\", NoRender)", "two(\"x\", 5)")]
    ctx = [("as a child", "div!(@)"), ("as an attribute value", "div!(id = @)"), ("as an attribute name", "div!({@} = 5)"),
           ("as a boolean attribute's name", "div!({@} = bool!(cond()))"), ("as an argument of render!", "@"), ("as a later argument of render!", '"a", @'),
           ("as a component argument", "card!(title = @)")] + PLACES[3:]
    first = ctx[:7]
    for j, (what, b, g) in enumerate(vals):
        cs = ctx if tier == "thorough" or j == 0 else [first[0], first[1 + j % 6], ctx[7 + (j * 5) % (len(ctx) - 7)]]
        for name, p in cs:
            out.append(Case(("C19",), "%s %s" % (what, name), fn(fill(p, b)), fn(fill(p, g))))
    return out


def reuse(tier):
    out = []
    nodes = [("an element", 'div!("x")'), ("an empty element", "div!()"), ("an element with a number", "p!(n)"), ("an element with text", "p!(t)"),
             ("an element with an attribute", "p!(id = t)"), ("an element with a run-time boolean attribute", "p!(hidden = bool!(cond()))"),
             ("a void element", "br!()"), ("a void element with a value", "img!(src = t)"), ("a fragment", "frag!(t, n)"), ("an empty fragment", "frag!()"),
             ("classes", 'classes!("a", t)'), ("a component", 'card!(title = t, n)'), ("a component without text", 'pair!(left = 1, right = 2)'),
             ("nested elements", "div!(p!(n), t)"), ("a conditional fragment", "frag_match!(if cond() { t } else { n })"),
             ("an iterator", "iter!(0..3)"), ("an iterator with separators", "iter!(t, 0..3)"), ("raw text", "raw!(t)"), ("a displayed value", "disp!(n)")]
    uses = [("rendered twice", "render!(x, x)", "render!(x, y)"), ("placed twice in an element", "render!(div!(x, x))", "render!(div!(x, y))"),
            ("placed at two levels", "render!(div!(x, p!(x)))", "render!(div!(x, p!(y)))"),
            ("used as attribute and child", "render!(div!(id = x, x))", "render!(div!(id = x, y))"),
            ("given twice to a component", "render!(pair!(left = x, right = x))", "render!(pair!(left = x, right = y))"),
            ("rendered in a loop", "for _ in 0..2 { out(x); } String::new()", "for x in Some(y) { out(x); } String::new()"),
            ("rendered, then placed", "let a = out(x); render!(a, div!(x))", "let a = out(x); render!(a, div!(y))")]
    for j, (what, n) in enumerate(nodes):
        us = uses if tier == "thorough" or j < 3 else [uses[0], uses[1 + j % 6], uses[1 + (j + 3) % 6]]
        for use, b, g in us:
            f = "pub fn f(n: u32, t: &'static str) -> String { let x = %s; let y = %s; %s }\n"
            out.append(Case(("C19",), "%s %s" % (what, use), f % (n, n, b), f % (n, n, g)))
    return out


def components(tier):
    out = []

    def add(props, what, bad, good, call=None, gcall=None):
        c = lambda x: "pub fn f() -> String { render!(%s) }\n" % x if x else ""
        out.append(Case(props, what, bad + "\n" + c(call), good + "\n" + c(gcall or call)))

    P = ("C19",)
    add(P, "a receiver parameter", "pub struct T; impl T { #[laby] pub fn comp(self) -> impl Render { frag!() } }",
        "pub struct T; impl T { pub fn comp(self) -> impl Render { frag!() } }")
    add(P, "a receiver parameter by reference", "pub trait T { #[laby] fn comp(&self, a: u8) -> u8 { 5 } }", "pub trait T { fn comp(&self, a: u8) -> u8 { 5 } }")
    add(P, "a receiver parameter with a type", "#[laby] pub fn comp(self: u8, a: u8) -> impl Render { frag!() }", "#[laby] pub fn comp(s: u8, a: u8) -> impl Render { frag!() }")
    for a in ("x", "rest", "default", '"x"', "a = 5", "5", "pub", "()", "x, y"):
        add(P, "the attribute given %s" % a, "#[laby(%s)] pub fn comp(a: u8) -> impl Render { frag!(a) }" % a,
            "#[laby] pub fn comp(a: u8) -> impl Render { frag!(a) }")
        add(P, "the attribute given %s, called" % a, "#[laby(%s)] pub fn comp(a: u8) -> impl Render { frag!(a) }" % a,
            "#[laby] pub fn comp(a: u8) -> impl Render { frag!(a) }", "comp!(a = 5)")
    add(P, "two rest parameters", "#[laby] pub fn comp(#[rest] a: impl Render, #[rest] b: impl Render) -> impl Render { frag!(a, b) }",
        "#[laby] pub fn comp(#[rest] a: impl Render, #[default] b: ()) -> impl Render { frag!(a, b) }", "comp!(1, 2)")
    add(P, "two rest parameters, one wrapped", "#[laby] pub fn comp(#[rest(two)] a: impl Render, b: u8, #[rest] c: impl Render) -> impl Render { frag!(a, b, c) }",
        "#[laby] pub fn comp(#[rest(two)] a: impl Render, b: u8, #[default] c: ()) -> impl Render { frag!(a, b, c) }", "comp!(1, 2, b = 3)")
    add(P, "three rest parameters", "#[laby] pub fn comp(#[rest] a: impl Render, #[rest] b: impl Render, #[rest] c: impl Render) -> impl Render { frag!(a, b, c) }",
        "#[laby] pub fn comp(#[rest] a: impl Render, #[default] b: (), #[default] c: ()) -> impl Render { frag!(a, b, c) }", "comp!()")
    for pat, ty, g in (("(a, b)", "(u8, u8)", "t"), ("_", "u8", "t"), ("[a, b]", "[u8; 2]", "t"), ("&a", "&u8", "t")):
        add(P, "a parameter bound to the pattern %s" % pat, "#[laby] pub fn comp(x: u8, %s: %s) -> impl Render { frag!(x) }" % (pat, ty),
            "#[laby] pub fn comp(x: u8, %s: %s) -> impl Render { frag!(x) }" % (g, ty), "comp!(x = 5, t = Default::default())" if ty in ("u8", "(u8, u8)", "[u8; 2]") else "comp!(x = 5, t = &5)")
    for it, g in (("pub struct comp;", None), ("pub const comp: u8 = 5;", None), ("pub mod comp {}", None), ("impl NoRender {}", None)):
        add(P, "the attribute on %s" % it, "#[laby] " + it, it)
    # calls
    D = [("a: u8, b: u8", ""), ("#[allow(unused)] a: u8, #[cfg(all())] b: u8", ""), ("a: impl Render, b: impl Render, #[default] c: u8", ""), ("#[default(5)] d: u8, a: u8, b: u8", ""),
         ("a: u8, b: u8, #[rest] r: impl Render", "R"), ("#[rest(two)] r: impl Render, a: u8, #[default(5)] d: i64, b: u8", "2"),
         ("a: A, b: A, #[default(7)] c: u8, #[default] d: u8, #[rest] r: impl Render", "RG")]
    for j, (ps, k) in enumerate(D):
        decl = "#[laby] pub fn comp%s(%s) -> impl Render { frag!(a, b) }" % ("<A: Render>" if "G" in k else "", ps)
        un = "1, 2, " if "2" in k else ""
        ok = un + "a = 1, b = 2"
        bads = [("without b", un + "a = 1"), ("without a", un + "b = 2"), ("without arguments", un.rstrip(", ")), ("with an unknown name", ok + ", z = 3"),
                ("with an unknown name first", "z = 3, " + ok), ("with a misspelt name", un + "a = 1, B = 2"), ("with a twice and no b", un + "a = 1, a = 2"),
                ("with a path as name", un + "a = 1, self::b = 2"), ("with a text as name", un + 'a = 1, "b" = 2'),
                ("with a name that is a prefix", un + "a = 1, bb = 2"), ("with an indexed name", ok + ", a[0] = 2"), ("with a field as name", ok + ", a.b = 2")]
        if not ("R" in k or "2" in k):
            bads += [("with an unnamed argument", ok + ", 3"), ("with an unnamed argument first", "3, " + ok), ("with unnamed arguments only", "1, 2"),
                     ("with an unnamed element", ok + ", p!()"), ("with an unnamed argument instead of b", "a = 1, 2"), ("with a block", ok + ", { 3 }"),
                     ("with a comparison", ok + ", 1 == 2")]
        if "default" in ps:
            bads += [("without b, but with the defaulted ones", un + "a = 1, %s = 3" % ("c" if "c:" in ps else "d"))]
        for place, p in [PLACES[0], PLACES[1], PLACES[4]][: 3 if tier == "thorough" else 1]:
            for what, b in bads:
                add(("C15", "C19"), "a component (%s) called %s, %s" % (ps, what, place), decl, decl, fill(p, "comp!(%s)" % b), fill(p, "comp!(%s)" % ok))
        what, b = bads[j % len(bads)]
        add(("C15", "C19"), "a component (%s) called %s, in an element" % (ps, what), decl, decl, fill(PLACES[3][1], "comp!(%s)" % b), fill(PLACES[3][1], "comp!(%s)" % ok))
    # values of the wrong type
    decl = "#[laby] pub fn comp(a: u8, b: &'static str, #[default(5)] c: u64) -> impl Render { frag!(a, b, c) }"
    for what, b in (("exchanged", 'a = "x", b = 5'), ("exchanged, other order", 'b = 5, a = "x"'), ("of the wrong type for a default", 'a = 1, b = "x", c = "y"')):
        add(("C15",), "arguments %s" % what, decl, decl, "comp!(%s)" % b, 'comp!(b = "x", a = 5)')
    decl = "#[laby] pub fn comp(a: u8) -> impl Render { frag!(a) }"
    add(("C15", "C19"), "a component declared twice with the same parameter", "#[laby] pub fn comp(a: u8, a: u8) -> impl Render { frag!(a) }", decl)
    return out


def mixed(tier):
    """one forbidden thing in random well-formed markup"""
    import random
    from markup import NORMAL, VOID
    rnd = random.Random("mixed/" + (os.environ.get("VERIF_SEED") or "1"))

    def leaf():
        return rnd.choice(['"x"', "5", "two(1, 2)", "cond()", "p!()", 'b!("y")', 'img!(src = "z")', "Some(3)", "'c'", "frag!(1, 2)", "()", "iter!(0..3)",
                           "{ 5 }", "frag_match!(if cond() { 1 } else { 2 })", "card!(title = 5)"])

    def attr():
        n = rnd.choice(["id", "class", '"data-x"', "{two(1, 2)}", "r#type", "hidden"])
        return n + " = " + rnd.choice(['"x"', "5", "two(1, 2)", "bool!(true)", "bool!(false)", "bool!(cond())", 'classes!("a", 5)', "Some(5)", "cond()"])

    def mix(xs, n):
        xs = list(xs)
        for _ in range(rnd.randrange(n)):
            xs.insert(rnd.randrange(len(xs) + 1), leaf())
        return xs

    def nest(d):
        if d == 0:
            return "@"
        inner = nest(d - 1)
        k = rnd.randrange(12)
        if k < 6:
            xs = mix([inner], 4)
            for _ in range(rnd.randrange(4)):
                xs.insert(rnd.randrange(len(xs) + 1), attr())
            return "%s!(%s)" % (rnd.choice(NORMAL), ", ".join(xs))
        if k < 8:
            return "%s!(%s)" % (rnd.choice(["frag", "classes"]), ", ".join(mix([inner], 4)))
        if k == 8:
            return "%s!(%s = %s, %s)" % (rnd.choice(NORMAL), rnd.choice(["id", "class", '"a"', "{5}"]), inner, ", ".join(mix(["1"], 3)))
        if k == 9:
            return "card!(%s)" % ", ".join(mix(["title = " + inner], 3))
        if k == 10:
            return "frag_match!(match 5 { 1 => 5, 2 => { %s } _ => %s })" % (inner, leaf())
        return "iter!((0..2).map(|_| %s))" % inner

    def hole():
        k = rnd.randrange(4)
        if k == 0:
            xs = [attr() for _ in range(rnd.randrange(4))]
            t = rnd.choice(VOID)
            ys = list(xs)
            for _ in range(1 + rnd.randrange(3)):
                ys.insert(rnd.randrange(len(ys) + 1), leaf())
            return "a void element given a child", "%s!(%s)" % (t, ", ".join(ys)), "%s!(%s)" % (t, ", ".join(xs))
        if k == 1:
            xs = [leaf() for _ in range(rnd.randrange(4))]
            ys = list(xs)
            for _ in range(1 + rnd.randrange(2)):
                ys.insert(rnd.randrange(len(ys) + 1), attr())
            o = rnd.choice(["frag", "classes"])
            return o + "! given an attribute", "%s!(%s)" % (o, ", ".join(ys)), "%s!(%s)" % (o, ", ".join(xs))
        if k == 2:
            b = rnd.choice(["NoRender", "&NoRender", "Some(NoRender)"])
            xs = [attr() for _ in range(rnd.randrange(3))] + [leaf() for _ in range(rnd.randrange(3))]
            at = rnd.randrange(len(xs) + 1)
            w = rnd.choice(["@", "id = @", "{@} = 5", "{@} = bool!(cond())"])
            t = rnd.choice(NORMAL)
            return ("a value that cannot be rendered", "%s!(%s)" % (t, ", ".join(xs[:at] + [w.replace("@", b)] + xs[at:])),
                    "%s!(%s)" % (t, ", ".join(xs[:at] + [w.replace("@", "5")] + xs[at:])))
        b = rnd.choice(["1", '"x"', "Some(true)", "5 + 5", "()", "two(1, 2)"])
        xs = [attr() for _ in range(rnd.randrange(3))]
        at = rnd.randrange(len(xs) + 1)
        if rnd.random() < 0.5:
            t = rnd.choice(NORMAL + VOID)
            n = rnd.choice(["hidden", '"data-x"', "{two(1, 2)}"])
            return ("a boolean attribute given no boolean", "%s!(%s)" % (t, ", ".join(xs[:at] + ["%s = bool!(%s)" % (n, b)] + xs[at:])),
                    "%s!(%s)" % (t, ", ".join(xs[:at] + ["%s = bool!(cond())" % n] + xs[at:])))
        c = rnd.choice(["true", "false", "cond()"])
        xs += [leaf() for _ in range(rnd.randrange(3))]
        t = rnd.choice(NORMAL)
        return ("a boolean marker as a child", "%s!(%s)" % (t, ", ".join(xs[:at] + ["bool!(%s)" % c] + xs[at:])),
                "%s!(%s)" % (t, ", ".join(xs[:at] + [c] + xs[at:])))

    out = []
    for k in range(600 if tier == "thorough" else 90):
        p = nest(rnd.randrange(5))
        what, b, g = hole()
        out.append(Case(("C19",), "%s, in random markup %d" % (what, k), fn(fill(p, b)), fn(fill(p, g))))
    return out


def literals(tier):
    out = []
    vals = [("a byte string", 'b"x"', '"x"'), ("an empty byte string", 'b""', '""'), ("a raw byte string", 'br"x"', 'r"x"'), ("a long byte string", 'br#"a"b"#', '"ab"')]
    pos = [("as a child", "div!(@)"), ("as an attribute value", "div!(id = @)"), ("as an attribute name", "div!(@ = 5)"),
           ("as a boolean attribute's name", "div!(@ = bool!(cond()))"), ("as the name of a boolean attribute that is on", "div!(@ = bool!(true))"),
           ("in parentheses", "div!((@))"), ("in braces", "div!({@})"), ("in a fragment", "frag!(@)"), ("nested", 'ul!(li!("a", @))'),
           ("in classes", 'div!(class = classes!("a", @))'), ("in a block as value", "div!(id = {@})"), ("as an argument of render!", "@")]
    for what, b, g in vals:
        for name, p in pos:
            out.append(Case(("C14",), "%s %s" % (what, name), fn(fill(p, b)), fn(fill(p, g))))
    return out


def threads(tier):
    """auto traits the library may not promise"""
    out = []
    h = HEAD + "fn send<T: Send>(_: &T) {}\nfn sync<T: Sync>(_: &T) {}\nuse std::rc::Rc; use std::cell::Cell;\n" \
               "pub struct Local(Rc<Cell<u32>>); impl Render for Local { fn render(self, b: &mut Buffer) { self.0.set(self.0.get() + 1) } }\n" \
               "pub struct Shared(u8); impl Render for Shared { fn render(self, b: &mut Buffer) {} }\n" \
               "impl core::fmt::Display for Local { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { Ok(()) } }\n" \
               "impl core::fmt::Display for Shared { fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { Ok(()) } }\n" \
               "impl AsRef<str> for Local { fn as_ref(&self) -> &str { \"\" } }\nimpl AsRef<str> for Shared { fn as_ref(&self) -> &str { \"\" } }\n"
    for what, e in (("an element", "div!(@)"), ("an element with an attribute", "div!(id = @)"), ("a nested element", "div!(p!(@))"), ("a fragment", "frag!(@)"),
                    ("classes", 'classes!("a", @)'), ("raw text", "raw!(@)"), ("a displayed value", "disp!(@)"), ("an iterator", "iter!(Some(@))"),
                    ("lines", "iter_lines!(Some(@))"), ("an iterator with a separator", "iter!(@, Some(5))"), ("an element with a computed name", "div!({@} = 5)"),
                    ("a component", "card!(title = @)"), ("a conditional fragment", "frag_match!(if cond() { @ } else { 5 })"), ("an option", "Some(@)")):
        for tr in ("send", "sync"):
            f = "pub fn f() { %s(&%s) }\n"
            out.append(Case(("C08",), "%s holding a value that is not Send or Sync given where %s is required" % (what, tr.capitalize()),
                            f % (tr, e.replace("@", "Local(Rc::new(Cell::new(0)))")), f % (tr, e.replace("@", "Shared(0)")), h))
    return out


# --------------------------------------------------------------------------------------- hygiene
SHADOW = """
    mod core {} mod std {} mod alloc {} mod laby_common {} mod laby_macros {} mod internal {} mod doctype {}
    pub struct Some; pub struct None; pub struct Ok; pub struct Err;
    pub struct Option; pub struct Result; pub struct String; pub struct Vec; pub struct Box; pub struct Default; pub struct Buffer; pub struct Clone; pub struct Copy;
    pub trait Render { fn render(self) where Self: ::core::marker::Sized {} }
    pub struct Into; pub struct From; pub struct AsRef; pub struct IntoIterator; pub struct Iterator; pub struct Drop; pub struct Fn; pub struct FnOnce; pub struct FnMut;
    pub struct Send; pub struct Sync; pub struct Sized; pub struct ToString; pub struct ToOwned; pub struct RenderIterator; pub struct RenderRaw; pub struct RenderDisplay;
    pub struct RenderIteratorDelimited; pub struct DocType; pub struct Cow; pub struct Borrow; pub struct PhantomData;
    #[allow(non_camel_case_types)] pub struct bool; #[allow(non_camel_case_types)] pub struct str; #[allow(non_camel_case_types)] pub struct u8;
    #[allow(non_camel_case_types)] pub struct usize; #[allow(non_camel_case_types)] pub struct char; #[allow(non_camel_case_types)] pub struct u32;
    pub fn drop() {} pub fn escape() {} pub fn render() {} pub fn frag() {} pub fn raw() {} pub fn iter() {}
"""
MACROS = "".join("macro_rules! %s { ($($x:tt)*) => { ::core::compile_error!(\"shadowed\") }; }\n" % m for m in (
    "vec", "format", "write", "writeln", "assert", "debug_assert", "panic", "unreachable", "todo", "unimplemented", "concat", "stringify", "matches",
    "println", "print", "include_str", "call"))
EXT = """
    pub trait Ext: ::core::marker::Sized {
        fn push_str(self) {} fn push(self) {} fn into_string(self) {} fn unwrap(self) {} fn default() {} fn into(self) {} fn clone(self) {} fn as_ref(self) {}
        fn into_iter(self) {} fn next(self) {} fn render(self) {} fn as_str(self) {} fn write_fmt(self) {} fn write_str(self) {} fn to_string(self) {} fn map(self) {}
    }
    impl<T> Ext for T {}
"""
VALUES = [
    ("an element", '::laby::div!("a", 5)'), ("an element with attributes", '::laby::div!(id = "a", class = n(), "data-x" = 5, {n()} = n())'),
    ("boolean attributes", '::laby::div!(a = bool!(true), b = bool!(1 == 2), c = bool!(false), {n()} = bool!(true), {n()} = bool!(false), {n()} = bool!(2 == 2), "q" = bool!(true), "r" = bool!(3 == 3))'),
    ("a void element", "::laby::img!(src = n(), hidden = bool!(1 == 1))"), ("nested elements", "::laby::div!(p!(n(), b!(\"x\")), n(), ::laby::i!(n()))"),
    ("a fragment", "::laby::frag!(n(), 5, 'c')"), ("classes", "::laby::classes!(n(), \"x\")"), ("an empty fragment", "::laby::frag!()"),
    ("literals", "::laby::div!(\"x\", 'c', 5, 5u8, -5, 5.5, true, (\"x\"), {\"x\"}, \"x\" = 5, r#\"q\"#, b'x', 1e3, 0x1F)"),
    ("render! with one value", "::laby::render!(n())"), ("render! with several values", "::laby::render!(n(), 5, ::laby::p!(n()))"), ("render! with none", "::laby::render!()"),
    ("an iterator", "::laby::iter!(::core::iter::once(n()))"), ("a separated iterator", '::laby::iter!(", ", ::core::iter::once(n()))'),
    ("lines", "::laby::iter_lines!(::core::iter::once(n()))"), ("raw text", "::laby::raw!(n())"), ("a displayed value", "::laby::disp!(5)"),
    ("a conditional fragment", "::laby::frag_match!(if 1 == 2 { n() } else if 2 == 3 { 5 } else { 'c' })"), ("one without else", "::laby::frag_match!(if 1 == 2 { n() })"),
    ("a matching fragment", "::laby::frag_match!(match 3 { 1 => n(), 2 => { 5 } _ => ::laby::p!(n()) })"),
    ("a conditional fragment with a pattern", "::laby::frag_match!(if let 3 = 3 { n() } else { 5 })"),
    ("a document type", "::laby::DocType::HTML5"), ("a component", "comp!(a = 5, n())"), ("a component with defaults", "comp!()"), ("a component with everything", "comp!(n(), b = 6, a = 5, 7, ::laby::p!())"),
    ("a wrapped component", "wrapped!(x = 5, 1, 2)"), ("a generic component", "gen!(y = n(), x = 5)"), ("a component in an element", "::laby::div!(id = comp!(a = 5), comp!(1, 2))"),
    ("markup in a closure", "(|| ::laby::div!(n(), ::laby::frag_match!(if 1 == 1 { n() })))()"),
]
DECLS = """
    pub fn n() -> &'static ::core::primitive::str { "x" }
    pub fn r<X: ::laby::Render>(x: X) {}
    pub fn two2<A: ::laby::Render, B: ::laby::Render>(a: A, b: B) -> impl ::laby::Render { ::laby::frag!(a, b) }
    #[::laby::laby] pub fn comp<X>(#[default] a: ::core::primitive::u8, #[rest] r: X, #[default(5)] b: ::core::primitive::i32) -> impl ::laby::Render where X: ::laby::Render { ::laby::frag!(a, r, b) }
    #[::laby::laby] pub fn wrapped(#[rest(two2)] r: impl ::laby::Render, x: ::core::primitive::u8) -> impl ::laby::Render { ::laby::frag!(r, x) }
    #[::laby::laby] pub fn gen<A: ::laby::Render, B: ::laby::Render>(x: A, y: B) -> impl ::laby::Render { ::laby::frag!(x, y) }
"""
ENVS = [("where prelude names, types and modules are shadowed", "#![allow(warnings)]\nmod user {\n" + SHADOW),
        ("without prelude or standard library", "#![no_std]\n#![no_implicit_prelude]\n#![allow(warnings)]\nmod user {\n"),
        ("without prelude or standard library, with everything shadowed", "#![no_std]\n#![no_implicit_prelude]\n#![allow(warnings)]\nmod user {\n" + SHADOW),
        ("without the standard library", "#![no_std]\n#![allow(warnings)]\nmod user {\n"),
        ("where common macros are shadowed", "#![allow(warnings)]\n" + MACROS + "mod user {\n"),
        ("where a trait gives every type the methods generated code calls", "#![allow(warnings)]\nmod user {\n" + EXT),
        ("where laby is also the name of a local module", "#![allow(warnings)]\nmod user {\n mod laby {}\n"),
        ("of the 2018 edition", "#![allow(warnings)]\nmod user {\n")]


def hygiene():
    """(what, program, plain twin, compiler options)"""
    out = []
    plain = "#![allow(warnings)]\nmod user {\n"
    for env, head in ENVS:
        for what, e in VALUES:
            body = DECLS + "    pub fn f() { r(%s); }\n}\n" % e
            out.append((what + " in a crate " + env, head + body, plain + body, ("2018",) if "2018" in env else ()))
    return out


USER = """
    pub struct U0;
    impl ::core::clone::Clone for U0 { fn clone(&self) -> Self { U0 } }
    impl ::core::marker::Copy for U0 {}
    impl ::core::convert::AsRef<::core::primitive::str> for U0 { fn as_ref(&self) -> &::core::primitive::str { "x" } }
    impl ::laby::Render for U0 { fn render(self, b: &mut ::laby::internal::Buffer) { b.push('x'); } }
    impl ::core::fmt::Display for U0 { fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { f.write_str("x") } }
    pub fn r<X: ::laby::Render>(x: X) {}
    #[::laby::laby] pub fn component<A: ::laby::Render, B: ::laby::Render, C: ::laby::Render>(#[rest] c: C, first: A, second: B) -> impl ::laby::Render { ::laby::frag!(c, first, second) }
"""
USERFORMS = [x for x in VALUES if "n()" in x[1] and "comp!" not in x[1] and "gen!" not in x[1]] + [
    ("a displayed value", "::laby::disp!(n())"), ("a component", "component!(n(), second = n(), first = n())"), ("a component in an element", "::laby::div!(component!(n(), second = n(), first = n()))"),
    ("a conditional fragment with a pattern", "::laby::frag_match!(if let Q = n() { Q } else if let Q = n() { n() } else { n() })")]
KEYWORDS = set("as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct super trait true type unsafe "
               "use where while async await dyn abstract become box do final macro override priv typeof unsized virtual yield try gen union macro_rules U0 r component user laby core made".split())


def user_names():
    """names the expansion could introduce: every identifier of the macro sources, those made by numbering, and the element names"""
    made = set()
    names = set("buffer value node item iter result name cond t1 x s b tmp out output variant branch arm Node Element Frag T T1 T2 Markup Tag Html Component".split())
    for f in glob.glob(os.path.join(build.REPO, "laby_macros", "src", "*.rs")) + glob.glob(os.path.join(build.REPO, "laby", "src", "*.rs")):
        with open(f) as h:
            t = re.sub(r"//[^\n]*", "", h.read())
        names |= set(re.findall(r"\b[A-Za-z][A-Za-z0-9_]*\b", t))
        for x in re.findall(r'"([A-Za-z_]*\{[a-z_]*\}[A-Za-z0-9_]*)"', t):
            for v in ("1", "2", "3", "0", "div", "Div", "frag", "Frag", "p", "P", "img", "Img", "DIV"):
                names.add(re.sub(r"\{[a-z_]*\}", v, x))
                made.add(re.sub(r"\{[a-z_]*\}", v, x))
    made |= {v + s for v in ("div", "Div", "frag", "Frag", "p", "P", "img", "Img") for s in ("", "Node", "_node", "Element")}
    ok = [n for n in sorted(names | made) if re.fullmatch(r"[A-Za-z][A-Za-z0-9_]*", n) and n not in KEYWORDS and "laby" not in n.lower()]
    return [n for n in ok if not n[0].isupper()], [n for n in ok if n[0].isupper() or n in made]


def user_cases():
    """(what, program with the user's own name, the same with a name nobody uses)"""
    names, types = user_names()
    out = []
    for what, e in USERFORMS:
        for kind, ns in (("variables", names), ("types", types)):
            def prog(m):
                b = "#![allow(warnings)]\nmod user {\n" + USER
                for i, n in enumerate(ns):
                    k = m(n, i)
                    u = "Z%d" % i
                    if kind == "variables":
                        b += "    pub fn f%d() { let %s = U0; r(%s); }\n" % (i, k, re.sub(r"\bQ\b", u, e.replace("n()", k)))
                    else:
                        b += ("    pub mod m%d { use super::{U0, r, component}; pub struct %s {} impl %s { pub fn made() -> U0 { U0 } } pub fn f() { r(%s); } }\n"
                              % (i, k, k, re.sub(r"\bQ\b", u.lower(), e.replace("n()", k + "::made()"))))
                return b + "}\n"
            out.append(("%s over the user's own %s" % (what, kind), prog(lambda n, i: n), prog(lambda n, i: "nobody%d" % i)))
    return out, len(names) + len(types)


def run_user(c=None):
    """programs the compiler rejects only because of the names the user chose"""
    c = c or Compiler()
    cases, n = user_cases()
    texts = [t for x in cases for t in x[1:]]
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda kv: c.ok(kv[0], kv[1]), enumerate(texts)))
    fs, und = [], []
    for i, (what, a, b) in enumerate(cases):
        if not res[2 * i + 1][0]:
            und.append("the plain twin does not compile: %s: %s" % (what, res[2 * i + 1][1][:200]))
        elif not res[2 * i][0]:
            fs.append(Finding(("C24",), "capture", what, "a name of the user's is hidden by the expansion: " + res[2 * i][1][:300], "", True, "compile witness"))
    return fs, und, ["%s (%d names)" % (x[0], n) for x in cases]


def run_hygiene(c=None):
    """shadowed programs the compiler rejects although it accepts the plain twin"""
    c = c or Compiler()
    cases = hygiene()
    texts = {}
    for _, a, b, o in cases:
        texts.setdefault((a, o), len(texts))
        texts.setdefault((b, ()), len(texts))
    with cf.ThreadPoolExecutor(8) as ex:
        res = dict(zip(texts, ex.map(lambda kv: c.ok(kv[1], kv[0][0], edition=(kv[0][1] or ("2021",))[0]), texts.items())))
    fs, und = [], []
    for what, a, b, o in cases:
        ao, ae = res[(a, o)]
        bo, be = res[(b, ())]
        if not bo:
            und.append("the plain twin does not compile: %s: %s" % (what, be[:200]))
        elif not ao:
            fs.append(Finding(("C24",), "hygiene", what, "does not compile: " + ae[:300], "", True, "compile witness"))
    return fs, und, [x[0] for x in cases]


FOREIGN = """#![feature(decl_macro)]
#![allow(warnings)]
use laby::*;
#[laby] pub fn card(title: impl Render, #[default(5)] n: i32, #[rest] body: impl Render) -> impl Render { div!(title, body, n) }
pub mod parts {
    use laby::*;
    fn wrap<A: Render>(a: A) -> impl Render { p!(a) }
    pub const DEFAULT: i32 = 5;
    #[laby] pub fn item<X>(#[default(DEFAULT)] n: i32, x: X) -> impl Render where X: Render { div!(n, x) }
}
"""
FOREIGN_USES = [("a component of another crate by path", 'frag!(cards::card!("x", title = 1), 5)'), ("a component of another crate, imported", '{ use cards::card; card!(title = "t", 1, 2, n = 6) }'),
                ("a component of a module of another crate", 'cards::parts::item!(x = 3)'), ("a component of a module of another crate, nested", 'div!(cards::parts::item!(n = 2, x = cards::card!(title = p!())))'),
                ("a component of another crate, renamed", '{ use cards::parts::item as other; other!(x = 3) }')]


def run_foreign():
    """feature decl_macro: components are macros other crates can call"""
    c = Compiler(features=["decl_macro"])
    pre = "#![feature(decl_macro)]\n#![allow(warnings)]\nuse laby::*;\n"
    ok, e = c.keep("cards", FOREIGN)
    if not ok:
        return [Finding(("C15",), "foreign", "component declarations", "public components do not compile with the feature decl_macro: " + e[:300], "", True, "compile witness")], [], ["declarations"]
    base, e = c.ok(900, pre + "pub fn f() -> String { render!(div!(1)) }\n")
    if not base:
        return [], ["no program compiles with the feature decl_macro: " + e[:200]], []
    fs = []
    for i, (what, u) in enumerate(FOREIGN_USES):
        ok, e = c.ok(901 + i, pre + "pub fn f() -> String { render!(%s) }\n" % u)
        if not ok:
            fs.append(Finding(("C15",), "foreign", what, "does not compile with the feature decl_macro: " + e[:300], u, True, "compile witness"))
    return fs, [], [x[0] for x in FOREIGN_USES]


FAM = {"void": void, "fragattr": fragattr, "boolean": boolean, "unrenderable": unrenderable, "reuse": reuse, "components": components,
       "literals": literals, "mixed": mixed, "threads": threads}
USE = {"C19": ["void", "fragattr", "boolean", "unrenderable", "reuse", "components", "mixed"], "C15": ["components"], "C14": ["literals"], "C08": ["threads"]}


class Compiler:
    """metadata-only compilation of one file against the current tree"""

    def __init__(self, release=False, features=None):
        p = build.project("rejhost" + ("_".join([""] + features) if features else ""), {"lib.rs": ""}, features=features)
        self.t = os.path.join(p, "target")
        self.chan = ["+nightly"] if features else []
        r = build.run(["cargo"] + self.chan + ["check", "--offline", "--target-dir", self.t], cwd=p,
                      env={"CARGO_ENCODED_RUSTFLAGS": "-Zallow-features=" + ",".join(features)} if features else None)
        if r.returncode:
            raise build.BuildError("the tree does not build:\n" + r.stderr[-3000:], r.stderr)
        fs = glob.glob(os.path.join(self.t, "debug", "**", "lib*.rmeta"), recursive=True)
        so = glob.glob(os.path.join(self.t, "debug", "**", "lib*.so"), recursive=True)
        self.deps = sum([["-L", "dependency=" + d] for d in sorted({os.path.dirname(f) for f in fs + so})], [])
        self.lib = {}
        for c in ("laby",):
            fs = [f for f in fs if re.fullmatch("lib%s-[0-9a-f]+.rmeta" % c, os.path.basename(f))]
            if len({os.path.basename(f) for f in fs}) != 1:
                raise build.BuildError("no metadata of " + c)
            self.lib[c] = fs[0]
        self.dir = os.path.join(p, "cases")
        os.makedirs(self.dir, exist_ok=True)

    def keep(self, name, text):
        """compile a crate others may use"""
        f = os.path.join(self.dir, name + ".rs")
        with open(f, "w") as o:
            o.write(text)
        m = os.path.join(self.dir, "lib%s.rmeta" % name)
        r = build.run(["rustc"] + self.chan + ["--edition", "2021", "--crate-type", "lib", "--crate-name", name, "--emit", "metadata", "-o", m] + self.deps
                      + sum([["--extern", "%s=%s" % x] for x in self.lib.items()], []) + [f], timeout=120)
        if r.returncode == 0:
            self.lib[name] = m
            return True, ""
        e = [l for l in r.stderr.splitlines() if l.startswith("error")]
        return False, (e[0] if e else r.stderr[-200:])

    def ok(self, n, text, opts=(), edition="2021"):
        f = os.path.join(self.dir, "c%d.rs" % n)
        with open(f, "w") as o:
            o.write(text)
        cmd = ["rustc"] + self.chan + ["--edition", edition, "--crate-type", "lib", "--emit", "metadata", "-o", f + ".rmeta"] + self.deps
        for c, l in self.lib.items():
            cmd += ["--extern", "%s=%s" % (c, l)]
        r = build.run(cmd + list(opts) + [f], timeout=120)
        for x in (f, f + ".rmeta"):
            if os.path.exists(x):
                os.unlink(x)
        if r.returncode == 0:
            return True, ""
        e = [l for l in r.stderr.splitlines() if l.startswith("error")]
        return False, (e[0] if e else r.stderr[-200:])


def run(cases):
    """(findings, undecided texts, samples)"""
    c = Compiler()
    texts = {}
    for x in cases:
        for t in (x.head + x.bad, x.head + x.good):
            texts.setdefault(t, len(texts))
    with cf.ThreadPoolExecutor(8) as ex:
        res = dict(zip(texts, ex.map(lambda kv: c.ok(kv[1], kv[0]), texts.items())))
    fs, und, samples = [], [], []
    for x in cases:
        bo, be = res[x.head + x.bad]
        go, ge = res[x.head + x.good]
        if bo:
            fs.append(Finding(x.props, "accepted", x.what, "a program that must be rejected compiles" +
                              ("" if go else " (its well-formed twin does not)"), x.bad.strip()[:400], True, "compile-fail witness"))
        elif not go:
            und.append("twin of %s does not compile: %s | %s" % (x.what, ge[:200], x.good.strip()[:200]))
        samples.append((x, be))
    return fs, und, samples, len(texts)
