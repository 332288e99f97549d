"""A fourth batch of planted bugs."""
from seeds import seed, WRAP, LAYOUT, ESC, BUF, REN, HLP, LIB, BLD, NODE, CMP, MAT, MLB

seed("s59-branch-name", property="C24", run="debug",
     needs="a branch of frag_match! that uses a variable of the user's called variant_1",
     breaks="the expansion of frag_match! declares variables under ordinary names, which hide the user's own in the branches",
     all=True, edits=[(MAT, 'format_ident!("__variant_{}", decls.len() + 1)', 'format_ident!("variant_{}", decls.len() + 1)')],
     files={"main.rs": '''use laby::*;
fn price(variant_1: u8, variant_2: u8, second: bool) -> String {
    render!(frag_match!(match second { true => variant_2, false => variant_1 }))
}
fn main() {
    assert_eq!(price(3, 5, false), "3");
    assert_eq!(price(3, 5, true), "5");
}
'''})

seed("s60-type-name", property="C24", run="debug",
     needs="a type of the user's called like an element, used in an expression inside that element",
     breaks="the type a macro generates has the name of the element, which hides the user's type of that name inside the markup",
     edits=[(NODE, '''format_ident!("_{}", element.tag)''', '''format_ident!("{}", element.tag)''')],
     files={"main.rs": '''#![allow(non_camel_case_types)]
use laby::*;
struct p { n: u8 }
impl p { fn of(n: u8) -> Self { p { n } } }
fn main() {
    assert_eq!(render!(p!(p::of(3).n)), "<p>3</p>");
}
'''})

seed("s61-decl-visibility", property="C15", deps='laby = { path = "@REPO@/laby", features = ["decl_macro"] }',
     needs="the feature decl_macro and a public component called from another crate",
     breaks="with decl_macro too, the generated macro is visible in its own crate only",
     run='''cat > cards.rs <<'X'
#![feature(decl_macro)]
use laby::*;
#[laby]
pub fn card(title: impl Render, #[rest] body: impl Render) -> impl Render { div!(title, body) }
X
mkdir -p cards/src; mv cards.rs cards/src/lib.rs
sed 's/name = "demo"/name = "cards"/;/workspace/d' Cargo.toml > cards/Cargo.toml
sed -i 's|^\\[workspace\\]|cards = { path = "cards" }\\n[workspace]|' Cargo.toml
CARGO_ENCODED_RUSTFLAGS=-Zallow-features=decl_macro cargo +nightly run -q --offline --target-dir "$d/target"''',
     edits=[(CMP, '''    if cfg!(feature = "decl_macro") {
        let vis = func.vis.clone();

''', '''    let vis = match func.vis.clone() {
        // maximum pub(crate) visibility due to macro_rules! limitations
        Visibility::Public(_) => parse_quote!(pub(crate)),
        vis => vis,
    };

    if cfg!(feature = "decl_macro") {
'''), (CMP, '''        let vis = match func.vis.clone() {
            // maximum pub(crate) visibility due to macro_rules! limitations
            Visibility::Public(_) => parse_quote!(pub(crate)),
            vis => vis,
        };

        Ok(''', '''        Ok(''')],
     files={"main.rs": '''#![feature(decl_macro)]
use laby::*;
use cards::card;
fn main() {
    assert_eq!(render!(card!("a", title = 1)), "<div>1a</div>");
}
'''})

seed("s62-semicolon-block", property="C14", run="debug",
     needs="a block that ends in a literal followed by a semicolon, as a child or a value",
     breaks="such a block is taken for its literal, although its value is the unit",
     edits=[(BLD, "if let Stmt::Expr(expr) = block.block.stmts.first()? {", "if let Stmt::Expr(expr) | Stmt::Semi(expr, _) = block.block.stmts.first()? {")],
     files={"main.rs": '''#![allow(unused)]
use laby::*;
fn main() {
    assert_eq!(render!(p!({ "x"; })), "<p></p>");
}
'''})

seed("s63-foreign-macro", property="C13", run="debug",
     needs="a macro of the user's own that has the name of an element, called by its path inside an element",
     breaks="any macro whose last path segment is an element name is flattened as that element",
     edits=[(BLD, """                    if let Some(ident) = expr.mac.path.get_ident() {
                        if let Some(element)""", """                    if let Some(ident) = expr.mac.path.segments.last().map(|s| &s.ident) {
                        if let Some(element)""")],
     files={"main.rs": '''use laby::*;
mod site {
    macro_rules! button { ($x:expr) => { laby::a!(class = "button", $x) } }
    pub(crate) use button;
}
fn main() {
    assert_eq!(render!(div!(site::button!("x"))), "<div><a class=\\"button\\">x</a></div>");
}
'''})

seed("s64-foreign-bool", property="C11", run="debug",
     needs="a macro of the user's own called bool, called by its path as the value of an attribute",
     breaks="any macro whose last path segment is bool is taken for the boolean attribute marker",
     edits=[(BLD, """if let Some(ident) = expr.mac.path.get_ident() {
                        if ident == "bool" {""", """if let Some(ident) = expr.mac.path.segments.last().map(|s| &s.ident) {
                        if ident == "bool" {""")],
     files={"main.rs": '''use laby::*;
mod site {
    macro_rules! bool { ($x:expr) => { if $x { "yes" } else { "no" } } }
    pub(crate) use bool;
}
fn main() {
    assert_eq!(render!(a!(draggable = site::bool!(1 == 1))), "<a draggable=\\"yes\\"></a>");
}
'''})
