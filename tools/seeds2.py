"""More planted bugs, written from the properties' texts."""
from seeds import seed, WRAP, LAYOUT, ESC, BUF, REN, HLP, LIB, BLD, NODE, CMP, MAT, MLB

# a buffer in front of a heap allocator that fills what lies behind every block with a mark
GUARD = '''use std::alloc::{GlobalAlloc, Layout, System};
// every block is followed by 256 marked bytes, which are looked at when it is freed
struct Guard;
static BAD: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(Layout::from_size_align_unchecked(l.size() + 256, l.align()));
        core::ptr::write_bytes(p.add(l.size()), 0xa5, 256);
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        for i in 0..256 {
            if *p.add(l.size() + i) != 0xa5 { BAD.fetch_add(1, std::sync::atomic::Ordering::SeqCst); break; }
        }
        System.dealloc(p, Layout::from_size_align_unchecked(l.size() + 256, l.align()))
    }
}
#[global_allocator]
static A: Guard = Guard;
fn bad() -> usize { BAD.load(std::sync::atomic::Ordering::SeqCst) }
'''

seed("s07-small-escape-room", property="C06", run="release",
     needs="a string shorter than 16 bytes made almost only of double quotes, rendered into a buffer that has no spare room",
     breaks="the short-string path reserves five bytes per input byte although a double quote becomes six, so it writes past the block",
     edits=[(ESC, '''            buf.reserve_small(feed.len() * 6);
            let l = naive::escape_small(feed, buf.as_mut_ptr().add(buf.len()));
            buf.advance(l);
        } else {
            let fun''', '''            buf.reserve_small(feed.len() * ESCAPED_LEN);
            let l = naive::escape_small(feed, buf.as_mut_ptr().add(buf.len()));
            buf.advance(l);
        } else {
            let fun''')],
     files={"main.rs": GUARD + '''
use laby::{Render, internal::Buffer};
fn main() {
    for n in 0..16 {
        for cap in 0..40 {
            let s = "\\"".repeat(n);
            let mut b = Buffer::with_capacity(cap);
            s.as_str().render(&mut b);
            drop(b);
        }
    }
    assert_eq!(bad(), 0, "bytes were written behind a block");
}
'''})

seed("s08-float-room", property="C06", run="release",
     needs="a negative f64 with 17 digits and a three-digit negative exponent, rendered into a buffer without spare room",
     breaks="only 23 bytes are reserved for an f64, 24-byte texts are written past the block",
     edits=[(REN, "impl_float!(f64, 24, format64);", "impl_float!(f64, 23, format64);")],
     files={"main.rs": GUARD + '''
use laby::{Render, internal::Buffer};
fn main() {
    for v in [1.5f64, -1.2345678901234567e-308, 1.7976931348623157e308, -2.2250738585072014e-308, 0.1] {
        for cap in 0..40 {
            let mut b = Buffer::with_capacity(cap);
            v.render(&mut b);
            drop(b);
        }
    }
    assert_eq!(bad(), 0, "bytes were written behind a block");
}
'''})

seed("s09-int-room", property="C06", run="release",
     needs="an i128 of 39 digits and a sign rendered into a buffer without spare room",
     breaks="integers reserve 39 bytes whatever their type, i128::MIN is written past the block",
     edits=[(REN, '''                use itoap::Integer;

''', '''                // the longest integer, 2^128 - 1
                const MAX_DIGITS: usize = 39;

'''), (REN, "buffer.reserve_small(Self::MAX_LEN);", "buffer.reserve_small(MAX_DIGITS);")],
     files={"main.rs": GUARD + '''
use laby::{Render, internal::Buffer};
fn main() {
    for cap in 0..60 {
        let mut b = Buffer::with_capacity(cap);
        u128::MAX.render(&mut b);
        drop(b);
        let mut b = Buffer::with_capacity(cap);
        i128::MIN.render(&mut b);
        drop(b);
        let mut b = Buffer::with_capacity(cap);
        i64::MIN.render(&mut b);
        drop(b);
    }
    assert_eq!(bad(), 0, "bytes were written behind a block");
}
'''})

seed("s10-fill-char-raw", property="C03", run="debug",
     needs="formatted arguments that write single characters (fill characters, debug quotes)",
     breaks="characters written one at a time by the formatting machinery reach the output unescaped",
     edits=[(REN, "Ok(c.render(self.0))", "Ok(self.0.push(c))")],
     files={"main.rs": '''use laby::*;
fn main() {
    let x = "a";
    assert_eq!(render!(format_args!("{:<<4}", x)), "a&lt;&lt;&lt;");
    assert_eq!(render!(p!(format_args!("{:?}", "<"))), "<p>&quot;&lt;&quot;</p>");
}
'''})

seed("s11-static-format-raw", property="C03", run="debug",
     needs="format_args! whose text is known at compile time and contains a special character",
     breaks="formatted arguments without placeholders are treated as markup and written unescaped",
     edits=[(REN, '''        core::fmt::write(&mut EscapingBufferWriter(buffer), self).unwrap();''',
             '''        // nothing to format
        if let Some(s) = self.as_str() {
            return buffer.push_str(s);
        }

        core::fmt::write(&mut EscapingBufferWriter(buffer), self).unwrap();''')],
     files={"main.rs": '''use laby::*;
fn main() {
    assert_eq!(render!(format_args!("a < b")), "a &lt; b");
}
'''})

seed("s12-error-clears", property="C07", run="debug",
     needs="a displayed value whose formatting fails, rendered after other content",
     breaks="when formatting fails the whole output buffer is cleared, including what other values rendered",
     edits=[(REN, '''        core::fmt::write(&mut EscapingBufferWriter(buffer), self).unwrap();''',
             '''        if core::fmt::write(&mut EscapingBufferWriter(buffer), self).is_err() {
            // do not leave half a value behind
            buffer.clear();
        }''')],
     files={"main.rs": '''use laby::*;
struct Bad;
impl std::fmt::Display for Bad {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("x")?; Err(std::fmt::Error) }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut b = laby::internal::Buffer::new();
    b.push_str("before");
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| format_args!("{}", Bad).render(&mut b)));
    let _ = r;
    assert!(b.as_str().starts_with("before"), "lost: {:?}", b.as_str());
}
'''})

seed("s13-empty-item-delimiter", property="C17", run="debug",
     needs="a delimited iterator whose first items render as nothing",
     breaks="the delimiter is only written once something has been rendered, so empty leading items lose theirs",
     edits=[(HLP, '''        if let Some(item) = iter.next() {
            item.render(buf);
''', '''        let start = buf.len();

        if let Some(item) = iter.next() {
            item.render(buf);
'''), (HLP, '''                buf.push_str(del);
''', '''                if buf.len() > start {
                    buf.push_str(del);
                }
''')],
     files={"main.rs": '''use laby::*;
fn main() {
    assert_eq!(render!(iter!(",", ["a", "", "b"])), "a,,b");
    assert_eq!(render!(iter!(",", ["", "", "b"])), ",,b");
}
'''})
# the delimiter line is one of our own fixes; keep that one as it is and change the original ones
from seeds import SEEDS
SEEDS["s13-empty-item-delimiter"]["edits"] = [(HLP, '''        let del = self.1.as_ref();

        if let Some(item) = iter.next() {
            item.render(buf);
''', '''        let mut del = self.1.as_ref();

        if let Some(item) = iter.next() {
            let start = buf.len();
            item.render(buf);

            // nothing to separate from
            if buf.len() == start {
                del = "";
            }
''')]
SEEDS["s13-empty-item-delimiter"]["breaks"] = "when the first item renders as nothing, no delimiter is written at all"

seed("s14-size-hint", property="C17", run="debug",
     needs="an iterator whose size hint is not exact (a filter, a generator)",
     breaks="only as many items as the size hint promises are rendered",
     edits=[(HLP, '''        for item in self.0 {
            item.render(buf);
        }''', '''        let iter = self.0.into_iter();
        let (lower, upper) = iter.size_hint();

        // a counted loop lets the compiler unroll
        for item in iter.take(upper.unwrap_or(lower)) {
            item.render(buf);
        }''')],
     files={"main.rs": '''use laby::*;
fn main() {
    let mut n = 0;
    let it = std::iter::from_fn(move || { n += 1; if n < 4 { Some(n) } else { None } });
    assert_eq!(render!(iter!(it)), "123");
    assert_eq!(render!(iter!((0..4).filter(|x| x % 2 == 0))), "02");
}
'''})

seed("s15-push-empty", property="C20", run="debug",
     needs="appending nothing to a buffer that never allocated (for example rendering an empty string into a new buffer)",
     breaks="reserving zero bytes in a full buffer tries to grow it, which fails an assertion for a buffer of capacity zero",
     edits=[(BUF, "        if self.len + size <= self.capacity {", "        if self.len + size < self.capacity {")],
     files={"main.rs": '''use laby::{Render, internal::Buffer};
fn main() {
    let mut b = Buffer::new();
    "".render(&mut b);
    assert_eq!(b.into_string(), "");
}
'''})

seed("s16-empty-attr-value", property="C10", run="debug",
     needs="an attribute whose value is an empty string literal",
     breaks="an attribute with an empty literal value renders as a bare name",
     edits=[(BLD, '''    node.render.push_str("=\\"");

    if let Some(value)''', '''    // an empty value is the same as none
    if try_unwrap_literal(&right)
        .and_then(try_render_literal)
        .map_or(false, |v| v.is_empty())
    {
        return Ok(());
    }

    node.render.push_str("=\\"");

    if let Some(value)''')],
     files={"main.rs": '''use laby::*;
fn main() {
    assert_eq!(render!(img!(src = "a.png", alt = "")), "<img src=\\"a.png\\" alt=\\"\\">");
}
'''})

seed("s17-computed-flag-space", property="C11", run="debug",
     needs="a boolean attribute with a computed name and a condition that is false at run time",
     breaks="the space in front of the name is written even when the attribute is absent",
     edits=[(BLD, '''                if #enabled {
                    buffer.push(' ');
                    ::laby::Render::render(#value, buffer);
                }''', '''                buffer.push(' ');
                if #enabled {
                    ::laby::Render::render(#value, buffer);
                }''')],
     files={"main.rs": '''use laby::*;
fn main() {
    for on in [true, false] {
        let name = "checked";
        assert_eq!(render!(input!({ name } = bool!(on))), if on { "<input checked>" } else { "<input>" });
    }
}
'''})

seed("s18-flags-first", property="C12", run="debug",
     needs="expressions with side effects where a boolean attribute follows another attribute or child expression",
     breaks="the conditions of boolean attributes are evaluated before every other expression of the node",
     edits=[(NODE, '''        self.decl.fields.push(quote!(#name: #ty));
        self.render.stmts.push(quote!(let #name = self.#name));
        self.ctor.fields.push(quote!(#name: #value));
        name''', '''        self.decl.fields.push(quote!(#name: #ty));
        self.render.stmts.push(quote!(let #name = self.#name));
        self.ctor.fields.insert(0, quote!(#name: #value));
        name''')],
     files={"main.rs": '''use laby::*;
fn main() {
    let mut log = vec![];
    let mut f = |n: i32| { log.push(n); n };
    let n = div!(id = f(1), hidden = bool!(f(2) > 0), f(3));
    assert_eq!(render!(n), "<div id=\\"1\\" hidden>3</div>");
    assert_eq!(log, [1, 2, 3]);
}
'''})

seed("s19-call-at-render", property="C12", run="debug",
     needs="a child that is a call of a function item without arguments and with a side effect",
     breaks="such calls are not stored: they run when the node is rendered instead of when it is built",
     edits=[(BLD, '''    } else {
        let value = node.store_generic(quote!(#expr), quote!(::laby::Render));
        node.render
            .push_expr(quote!(::laby::Render::render(#value, buffer)));
    }

    Ok(())
}
''', '''    } else if is_constant(&expr) {
        // nothing is captured, so there is nothing to store
        node.render
            .push_expr(quote!(::laby::Render::render(#expr, buffer)));
    } else {
        let value = node.store_generic(quote!(#expr), quote!(::laby::Render));
        node.render
            .push_expr(quote!(::laby::Render::render(#value, buffer)));
    }

    Ok(())
}

/// Paths and calls of paths that contain a `::` do not refer to local variables.
fn is_constant(expr: &Expr) -> bool {
    match expr {
        Expr::Path(expr) => expr.path.segments.len() > 1,
        Expr::Call(expr) => expr.args.is_empty() && is_constant(&expr.func),
        _ => false,
    }
}
''')],
     files={"main.rs": '''use laby::*;
mod page {
    pub static HITS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    pub fn hit() -> usize { HITS.fetch_add(1, std::sync::atomic::Ordering::SeqCst) }
}
fn main() {
    let n = p!(page::hit());
    page::hit();
    assert_eq!(render!(n), "<p>0</p>");
}
'''})

seed("s20-inherit-delimiter", property="C13", run="debug",
     needs="a frag! with several children written directly inside classes!",
     breaks="a flattened fragment takes over the delimiter of the class list around it",
     edits=[(BLD, '''                        if let Some(element) = get_element(ident.to_string()) {
                            // flatten nested markup
''', '''                        if let Some(mut nested) = get_element(ident.to_string()) {
                            // flatten nested markup
                            if nested.frag && nested.delimiter.is_empty() {
                                nested.delimiter = element.delimiter.clone();
                            }
'''), (BLD, "build_inner(element, expr.mac.tokens.clone(), node)?;\n                            continue;",
       "build_inner(nested, expr.mac.tokens.clone(), node)?;\n                            continue;")],
     files={"main.rs": '''use laby::*;
fn main() {
    let size = 3;
    assert_eq!(render!(classes!("a", frag!("m-", size), "b")), "a m-3 b");
}
'''})

seed("s21-f32-literal", property="C14", run="debug",
     needs="a byte literal as child or attribute value",
     breaks="a byte literal renders as the character instead of the number",
     edits=[(BLD, "Lit::Byte(ref v) => render!(v.value()),", "Lit::Byte(ref v) => render!(v.value() as char),")],
     files={"main.rs": '''use laby::*;
fn main() {
    let v = b'a';
    assert_eq!(render!(p!(v)), render!(p!(b'a')));
}
'''})
SEEDS["s21-byte-literal"] = SEEDS.pop("s21-f32-literal")

seed("s22-rest-last", property="C15", run="debug",
     needs="a component whose rest parameter is not the last one, with types that accept either value",
     breaks="the rest parameter is passed last wherever it was declared",
     edits=[(CMP, '''    // map params to respective arguments
    for name in param_names {
        // rest param
        if let Some(RestParam { ref ident, .. }) = rest {
            if *ident == name {
                let RestParam { wrapper, args, .. } = unsafe {
                    // SAFETY: we just checked above that Option is Some
                    std::mem::replace(&mut rest, None).unwrap_unchecked()
                };

                func_args.push(quote!(#wrapper(#(#args),*)));
                continue;
            }
        }
''', '''    // arguments are evaluated in this order, keep the children behind the others
    let mut children = None;

    // map params to respective arguments
    for name in param_names {
        // rest param
        if let Some(RestParam { ref ident, .. }) = rest {
            if *ident == name {
                let RestParam { wrapper, args, .. } = unsafe {
                    // SAFETY: we just checked above that Option is Some
                    std::mem::replace(&mut rest, None).unwrap_unchecked()
                };

                if args.is_empty() {
                    children = Some((func_args.len(), quote!(#wrapper())));
                } else {
                    func_args.push(quote!(#wrapper(#(#args),*)));
                }
                continue;
            }
        }
'''), (CMP, '''    Ok(quote!(#func(#(#func_args),*)))''', '''    if let Some((_, children)) = children {
        func_args.push(children);
    }

    Ok(quote!(#func(#(#func_args),*)))''')],
     files={"main.rs": '''use laby::*;
#[laby]
fn card(#[rest] body: impl Render, title: impl Render) -> String { render!(title, ": ", body) }
fn main() {
    assert_eq!(card!(title = "t", "b"), "t: b");
    assert_eq!(card!(title = "t"), "t: ");
}
'''})
SEEDS["s22-rest-last"].update(needs="a component whose rest parameter is not the last one, called without children",
     breaks="an empty rest parameter is passed behind the other arguments, so the values are swapped")

seed("s23-condition-twice", property="C16", run="debug",
     needs="a two-branch if whose condition has a side effect or whose value changes between evaluations",
     breaks="a plain if/else evaluates its condition once per branch",
     edits=[(MAT, '''    let mut expr = Parser::parse2(ExprIf::parse, stream)?;
''', '''    let mut expr = Parser::parse2(ExprIf::parse, stream)?;

    // the simple case needs no variables
    if let (false, Some((_, ref branch))) = (matches!(*expr.cond, Expr::Let(_)), &expr.else_branch) {
        if let Expr::Block(ref other) = **branch {
            let cond = &expr.cond;
            let then = &expr.then_branch;

            return Ok(quote!({
                let first = if #cond { ::core::option::Option::Some(#then) } else { ::core::option::Option::None };
                let second = if #cond { ::core::option::Option::None } else { ::core::option::Option::Some(#other) };
                ::laby::frag!(first, second)
            }));
        }
    }
''')],
     files={"main.rs": '''use laby::*;
fn main() {
    let mut n = 0;
    let mut next = || { n += 1; n % 2 == 1 };
    assert_eq!(render!(frag_match!(if next() { "odd" } else { "even" })), "odd");
    assert_eq!(render!(frag_match!(if next() { "odd" } else { "even" })), "even");
}
'''})

seed("s24-float-as-int", property="C18", run="debug",
     needs="negative zero",
     breaks="whole-number floats go through an integer, so negative zero loses its sign",
     edits=[(REN, '''                if self.is_finite() {
                    unsafe {
                        buffer.reserve_small($min);''', '''                if self == (self as i32) as $type {
                    // whole numbers are common and integers are faster
                    (self as i32).render(buffer);
                    buffer.push_str(".0");
                } else if self.is_finite() {
                    unsafe {
                        buffer.reserve_small($min);''')],
     files={"main.rs": '''use laby::*;
fn main() {
    for v in [0.0f64, -0.0, 1.0, -3.0, 2147483647.0, 0.5] {
        assert_eq!(render!(v), ryu(v));
    }
    assert_eq!(render!(-0.0f32), "-0.0");
}
fn ryu(v: f64) -> String { format!("{:?}", v) }
'''})

seed("s25-nested-void-child", property="C19", run="reject", want="invalid child in void element",
     needs="a void element with a child, nested inside another markup macro",
     breaks="the check for children of void elements only runs for the outermost macro; nested, the children are dropped silently",
     edits=[(BLD, '''    if element.void && children.len() != 0 {
        return''', '''    if node.element.void && children.len() != 0 {
        return''')],
     files={"main.rs": '''use laby::*;
fn main() {
    let text = "x";
    println!("{}", render!(div!(br!(text))));
}
'''})

seed("s26-copy-nodes", property="C19", run="reject", want="use of moved value",
     needs="a node built only from copyable values, rendered twice",
     breaks="nodes are copyable, so a single-use node can be used again",
     edits=[(NODE, '''        quote!(
            struct #ident<#generics> {''', '''        quote!(
            #[derive(::core::clone::Clone, ::core::marker::Copy)]
            struct #ident<#generics> {''')],
     files={"main.rs": '''use laby::*;
fn main() {
    let n = p!(1 + 1);
    println!("{}{}", render!(n), render!(n));
}
'''})

seed("s27-display-string", property="C21", run="release",
     needs="rendering a displayed value while watching the allocator",
     breaks="displayed values are formatted into a temporary string first",
     edits=[(HLP, '''        format_args!("{}", self.0).render(buf)''', '''        alloc::string::ToString::to_string(&self.0).render(buf)''')],
     files={"main.rs": '''use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
struct Count;
static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static A: Count = Count;
#[allow(deprecated)]
fn main() {
    use laby::*;
    let mut b = laby::internal::Buffer::with_capacity(1000);
    let before = N.load(Ordering::SeqCst);
    laby::disp!(12345).render(&mut b);
    laby::p!(laby::disp!("abc<")).render(&mut b);
    assert_eq!(N.load(Ordering::SeqCst) - before, 0, "allocations while rendering");
}
'''})

seed("s28-nested-classes", property="C22", run="debug",
     needs="classes! written directly inside another markup macro",
     breaks="a nested class list is recognised as a plain fragment and loses its spaces",
     edits=[(MLB, '''    if tag == "frag" {
        return Some(Element::frag());
    }

    if tag == "classes" {
        return Some(Element::frag_with_delimiter(' '));
    }
''', '''    // both render their children only
    if tag == "frag" || tag == "classes" {
        return Some(Element::frag());
    }
''')],
     files={"main.rs": '''use laby::*;
fn main() {
    assert_eq!(render!(p!(classes!("a", "b"))), "<p>a b</p>");
}
'''})

seed("s29-render-method", property="C23", run="debug",
     needs="rendering a value whose type also has an inherent method named render",
     breaks="render! calls whatever method named render the value has instead of the trait's",
     edits=[(HLP, '''        let mut buf = $crate::internal::Buffer::with_capacity(16384);
        $crate::Render::render($expr, &mut buf);
        buf.into_string()''', '''        use $crate::Render as _;
        let mut buf = $crate::internal::Buffer::with_capacity(16384);
        $expr.render(&mut buf);
        buf.into_string()''')],
     files={"main.rs": '''use laby::{internal::Buffer, *};
struct Card;
impl Card { pub fn render(self, b: &mut Buffer) { b.push_str("draft"); } }
impl Render for Card { fn render(self, b: &mut Buffer) { b.push_str("card"); } }
fn main() {
    assert_eq!(render!(Card), "card");
    assert_eq!(render!(Card, "!"), "card!");
}
'''})

seed("s30-default-path", property="C24", run="check",
     needs="a component with a bare #[default] called where the name Default means something else",
     breaks="the expansion names Default without its path",
     edits=[(CMP, "Ok(Some(quote!(::core::default::Default::default())))", "Ok(Some(quote!(Default::default())))")],
     files={"main.rs": '''use laby::*;
#[laby]
fn card(#[default] title: Option<&'static str>) -> impl Render { p!(title) }
mod page {
    pub struct Default;
    use crate::card;
    pub fn show() -> String { laby::render!(card!()) }
}
fn main() {
    assert_eq!(page::show(), "<p></p>");
    let _ = page::Default;
}
'''})

seed("s31-sse-only", property="C02", run="debug", deps="",
     needs="a processor that has SSE but not SSE2",
     breaks="the SSE2 routine is selected when only SSE is reported",
     edits=[(ESC, "} else if features.has_sse2() {", "} else if features.has_sse() {")],
     files={"main.rs": WRAP.replace("include!(\"@REPO@/laby_common/src/internal/escape.rs\");",
                                    "include!(\"esc.rs\");").replace("pub fn has_sse(&self) -> bool { unsafe { SSE2 } }", "pub fn has_sse(&self) -> bool { true }") + '''
fn main() {
    unsafe { cpu::LEAF1 = true; cpu::SSE2 = false; cpu::OSX = false; cpu::AVX2 = false; }
    let mut b = buffer::Buffer::new();
    esc::escape("a quite long text with <tags>", &mut b);
    assert_eq!(b.as_str(), want("a quite long text with <tags>"));
    assert!(!esc::SSE.load(std::sync::atomic::Ordering::Relaxed), "the SSE2 routine ran on a processor without it");
}
'''})
SEEDS["s31-sse-only"]["run"] = SEEDS["s03-cpuid-missing-leaf"]["run"]

seed("s32-shared-scratch", property="C08", run="release",
     needs="two threads rendering short strings at the same time",
     breaks="short strings are escaped in a scratch area shared by all threads",
     edits=[(ESC, '''            buf.reserve_small(feed.len() * 6);
            let l = naive::escape_small(feed, buf.as_mut_ptr().add(buf.len()));
            buf.advance(l);
        } else {
            let fun''', '''            // the result is often much shorter than the longest possible one
            static mut SCRATCH: [u8; 96] = [0; 96];
            let scratch = ptr::addr_of_mut!(SCRATCH) as *mut u8;
            let l = naive::escape_small(feed, scratch);
            buf.push_str(core::str::from_utf8_unchecked(core::slice::from_raw_parts(scratch, l)));
        } else {
            let fun''')],
     files={"main.rs": '''use laby::{Render, internal::Buffer};
fn main() {
    let t: Vec<_> = (0..8u8).map(|k| std::thread::spawn(move || {
        let s = String::from_utf8(vec![b'a' + k; 15]).unwrap();
        let mut b = Buffer::new();
        for _ in 0..300_000 {
            b.clear();
            s.as_str().render(&mut b);
            if b.as_str() != s { return false; }
        }
        true
    })).collect();
    assert!(t.into_iter().all(|t| t.join().unwrap()), "a thread saw another's text");
}
'''})

ATOM = WRAP.replace("include!(\"@REPO@/laby_common/src/internal/escape.rs\");", "include!(\"esc.rs\");").replace("pub mod esc {", '''pub mod model {
    // an atomic pointer that lets another thread run in front of each of its stores
    pub use core::sync::atomic::*;
    pub struct AtomicPtr<T>(core::sync::atomic::AtomicPtr<T>);
    impl<T> AtomicPtr<T> {
        pub const fn new(p: *mut T) -> Self { AtomicPtr(core::sync::atomic::AtomicPtr::new(p)) }
        pub fn load(&self, _: Ordering) -> *mut T { self.0.load(Ordering::SeqCst) }
        pub fn store(&self, p: *mut T, _: Ordering) { crate::other(); self.0.store(p, Ordering::SeqCst) }
    }
}
pub mod esc {''')
seed("s33-ready-before-pointer", property="C08", deps="",
     run='''sed 's/core::sync::atomic/crate::model/g' "$repo/laby_common/src/internal/escape.rs" > "$d/src/esc.rs"
cargo run -q --offline --target-dir "$d/target"''',
     needs="a second thread escaping a string between the first thread's two stores of its very first escape",
     breaks="a flag announces the routine before the pointer to it is stored, so another thread can call a null pointer",
     edits=[(ESC, '''    static FN: AtomicPtr<()> = AtomicPtr::new(detect as FnRaw);
''', '''    static FN: AtomicPtr<()> = AtomicPtr::new(ptr::null_mut());
    static READY: AtomicBool = AtomicBool::new(false);
'''), (ESC, '''        FN.store(fun as FnRaw, Ordering::Relaxed);''', '''        READY.store(true, Ordering::Relaxed);
        FN.store(fun as FnRaw, Ordering::Relaxed);'''),
      (ESC, "    use core::sync::atomic::{AtomicPtr, Ordering};", "    use core::sync::atomic::{AtomicBool, AtomicPtr, Ordering};"),
      (ESC, '''            let fun = FN.load(Ordering::Relaxed);
            core::mem::transmute::<FnRaw, fn(&str, &mut Buffer)>(fun)(feed, buf);''', '''            if !READY.load(Ordering::Relaxed) {
                return detect(feed, buf);
            }

            let fun = FN.load(Ordering::Relaxed);
            core::mem::transmute::<FnRaw, fn(&str, &mut Buffer)>(fun)(feed, buf);''')],
     files={"main.rs": ATOM + '''
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
static ONCE: AtomicBool = AtomicBool::new(true);
pub fn other() {
    if ONCE.swap(false, SeqCst) {
        std::thread::spawn(|| {
            let mut b = buffer::Buffer::new();
            esc::escape("another quite long <text>", &mut b);
            assert_eq!(b.as_str(), want("another quite long <text>"));
        }).join().unwrap();
    }
}
fn main() {
    let mut b = buffer::Buffer::new();
    esc::escape("a quite long text with <tags>", &mut b);
    assert_eq!(b.as_str(), want("a quite long text with <tags>"));
}
'''})

seed("s34-void-nested-end", property="C09", run="debug",
     needs="a void element with a boolean attribute, nested in another element",
     breaks="the children loop is skipped for the parent's remaining children after a void element",
     edits=[(BLD, '''                            build_inner(element, expr.mac.tokens.clone(), node)?;
                            continue;
                        }
                    }
                }

                _ => {}
            };

            set_child''', '''                            let void = element.void;
                            build_inner(element, expr.mac.tokens.clone(), node)?;

                            // nothing separates a void element from what follows it
                            separate = !void;
                            continue;
                        }
                    }
                }

                _ => {}
            };

            set_child''')],
     files={"main.rs": '''use laby::*;
fn main() {
    assert_eq!(render!(classes!("a", br!(), "b")), "a <br> b");
}
'''})
SEEDS["s34-void-nested-end"].update(needs="a void element written directly inside classes! and followed by another item",
    breaks="the space after a void element in a class list is missing")
SEEDS["s34-void-separator"] = SEEDS.pop("s34-void-nested-end")

seed("s35-char-apostrophe", property="C03", run="debug",
     needs="an apostrophe rendered as a char",
     breaks="the apostrophe character is copied unescaped",
     edits=[(REN, '''            '\\'' => buffer.push_str("&#39;"),
''', "")],
     files={"main.rs": '''use laby::*;
fn main() {
    for c in ['"', '&', '\\'', '<', '>', 'x'] {
        assert_eq!(render!(c), render!(c.to_string()));
    }
}
'''})

seed("s36-add-assign", property="C05", run="debug",
     needs="appending with += to a buffer that has just been cleared",
     breaks="clear also forgets the block, so a cleared buffer that had content leaks it and starts over",
     edits=[(BUF, '''    pub fn clear(&mut self) {
        self.len = 0;
    }''', '''    pub fn clear(&mut self) {
        *self = ManuallyDrop::into_inner(ManuallyDrop::new(Self::with_capacity(self.capacity / 2)));
    }''')],
     files={"main.rs": '''use laby::internal::Buffer;
fn main() {
    let mut b = Buffer::with_capacity(1);
    b.push_str("x");
    b.clear();
    assert_eq!(b.capacity(), 1);
}
'''})
del SEEDS["s36-add-assign"]

seed("s36-clone-empty", property="C05", run="debug",
     needs="cloning a buffer whose content is a single byte long",
     breaks="a clone of a one-byte buffer is empty",
     edits=[(BUF, '''                ptr::copy_nonoverlapping(self.data, buf.data, self.len);
                buf''', '''                // the last byte is a terminator
                let n = self.len - self.len / 16 / 255;
                ptr::copy_nonoverlapping(self.data, buf.data, n);
                buf''')],
     files={"main.rs": '''use laby::internal::Buffer;
fn main() {
    for n in [0usize, 1, 100, 4079, 4080, 5000, 100_000] {
        let mut b = Buffer::new();
        b.push_str(&"x".repeat(n));
        assert_eq!(b.clone().as_str(), b.as_str());
    }
}
'''})
SEEDS["s36-clone-empty"].update(needs="cloning a buffer that holds 4080 bytes or more", breaks="the last bytes of long buffers are not copied, so the clone ends in uninitialised memory")
SEEDS["s36-clone-long"] = SEEDS.pop("s36-clone-empty")
SEEDS["s36-clone-long"]["edits"] = [(BUF, '''                ptr::copy_nonoverlapping(self.data, buf.data, self.len);
                buf''', '''                // a page at a time
                for page in 0..self.len / 4096 {
                    ptr::copy_nonoverlapping(self.data.add(page * 4096), buf.data.add(page * 4096), 4096);
                }
                let rest = self.len & 0x7ff;
                ptr::copy_nonoverlapping(self.data.add(self.len - rest), buf.data.add(self.len - rest), rest);
                buf''')]
SEEDS["s36-clone-long"].update(needs="cloning a buffer whose length modulo 4096 is 2048 or more", breaks="the tail of such buffers is not copied (wrong mask), so the clone contains uninitialised memory")
SEEDS["s36-clone-long"]["files"] = {"main.rs": '''use laby::internal::Buffer;
fn main() {
    for n in [0usize, 1, 100, 2047, 2048, 4095, 4096, 5000, 7000, 100_000] {
        let mut b = Buffer::new();
        b.push_str(&"x".repeat(n));
        assert!(b.clone().as_str().as_bytes() == b.as_str().as_bytes(), "length {n}");
    }
}
'''}
