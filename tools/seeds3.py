"""A third batch of planted bugs."""
from seeds import seed, WRAP, LAYOUT, ESC, BUF, REN, HLP, LIB, BLD, NODE, CMP, MAT, MLB
from seeds2 import GUARD

seed("s37-rest-single", property="C15", run="debug",
     needs="a rest parameter with a wrapper of its own, given exactly one unnamed argument",
     breaks="a single unnamed argument is passed as it is, without the rest parameter's wrapper",
     edits=[(CMP, "                func_args.push(quote!(#wrapper(#(#args),*)));", '''                func_args.push(match args.as_slice() {
                    [arg] => quote!(#arg),
                    _ => quote!(#wrapper(#(#args),*)),
                });''')],
     files={"main.rs": '''use laby::*;
#[laby]
fn raw_text(#[rest(shout)] text: impl Render) -> impl Render { p!(text) }
fn shout(x: &str) -> String { x.to_uppercase() }
fn main() {
    assert_eq!(render!(raw_text!("abc")), "<p>ABC</p>");
}
'''})

seed("s38-push-latin1", property="C05", run="debug",
     needs="a character between U+0080 and U+00FF appended on its own",
     breaks="such characters are stored as one byte, so the text is no longer UTF-8",
     edits=[(BUF, '''            self.reserve_small(4);
            let bp = self.data.add(self.len) as *mut [u8; 4];
            let result = data.encode_utf8(&mut *bp);
            self.len += result.len();''', '''            self.reserve_small(4);
            let bp = self.data.add(self.len) as *mut [u8; 4];
            if u32::from(data) <= 0xff {
                (*bp)[0] = data as u8;
                self.len += 1;
                return;
            }
            let result = data.encode_utf8(&mut *bp);
            self.len += result.len();''')],
     files={"main.rs": '''use laby::internal::Buffer;
fn main() {
    let mut b = Buffer::new();
    b.push('a');
    b.push('\\u{e9}');
    assert_eq!(b.into_string().as_bytes(), "a\\u{e9}".as_bytes());
}
'''})

seed("s39-nonzero-signed", property="C18", run="debug",
     needs="a NonZeroU128 above i128::MAX (or any non-zero value that does not fit a signed 128-bit integer)",
     breaks="non-zero integers go through i128, so the largest render as negative numbers",
     edits=[(REN, "                self.get().render(buffer);", "                (self.get() as i128).render(buffer);")],
     files={"main.rs": '''use laby::*;
use core::num::*;
fn main() {
    assert_eq!(render!(NonZeroU128::MAX), u128::MAX.to_string());
    assert_eq!(render!(NonZeroI8::MIN), "-128");
}
'''})

seed("s40-f32-widened", property="C18", run="debug",
     needs="an f32 value that has no short exact decimal form, such as 0.1",
     breaks="f32 values are formatted as f64, with the digits of the widened value",
     edits=[(REN, "                        let l = $fn(self, ptr);", "                        let l = $fn(self.into(), ptr);"),
            (REN, "impl_float!(f32, 16, format32);", "impl_float!(f32, 24, format64);")],
     files={"main.rs": '''use laby::*;
fn main() {
    assert_eq!(render!(0.1f32 + 0.0), "0.1");
    let x = 16777216.0f32 / 3.0;
    assert_eq!(render!(x), format!("{:?}", x));
}
'''})

seed("s41-short-chunk", property="C03", run="debug",
     needs="a formatting implementation that writes a single special character as a chunk of its own",
     breaks="chunks of one byte are taken for punctuation and written unescaped",
     edits=[(REN, "                Ok(s.render(self.0))", '''                if s.len() == 1 {
                    return Ok(self.0.push_str(s));
                }
                Ok(s.render(self.0))''')],
     files={"main.rs": '''use laby::*;
use std::fmt;
struct Tag(&'static str);
impl fmt::Display for Tag {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("<")?;
        f.write_str(self.0)?;
        f.write_str(">")
    }
}
fn main() {
    assert_eq!(render!(RenderDisplay(Tag("b"))), "&lt;b&gt;");
    assert_eq!(render!(format_args!("{}{}", "<", 'x')), "&lt;x");
}
'''})

seed("s42-aligned-head", property="C01", run="debug", deps="",
     needs="the portable routine, an input that happens to start at a multiple of eight and has a special character in its first eight bytes",
     breaks="the first word is not examined when the input is already aligned",
     edits=[(ESC, "        if contains_key(chunk) {\n            start_ptr = naive::proceed(buffer, start_ptr, ptr, aligned_ptr);",
             "        if start_ptr as usize & USIZE_ALIGN != 0 && contains_key(chunk) {\n            start_ptr = naive::proceed(buffer, start_ptr, ptr, aligned_ptr);")],
     files={"main.rs": WRAP + '''
fn main() {
    let s = "x<yz".repeat(20);
    for at in (0..40).step_by(4) {
        let t = &s[at..];
        let mut b = buffer::Buffer::new();
        esc::run(0, t, &mut b);
        assert_eq!(b.as_str(), want(t));
    }
}
'''})

seed("s43-clean-memo", property="C01", run="debug",
     needs="two strings at the same address, one after the other, the first without and the second with special characters",
     breaks="a string at the address of the last clean one is taken for clean and copied unescaped",
     edits=[(ESC, '''pub fn escape(feed: &str, buf: &mut Buffer) {
    escape_impl(feed, buf)
}''', '''pub fn escape(feed: &str, buf: &mut Buffer) {
    use core::sync::atomic::{AtomicUsize, Ordering};

    // the last string that needed no escaping
    static CLEAN_PTR: AtomicUsize = AtomicUsize::new(0);
    static CLEAN_LEN: AtomicUsize = AtomicUsize::new(0);

    if feed.len() >= 64
        && CLEAN_PTR.load(Ordering::Relaxed) == feed.as_ptr() as usize
        && CLEAN_LEN.load(Ordering::Relaxed) == feed.len()
    {
        return buf.push_str(feed);
    }

    let start = buf.len();
    escape_impl(feed, buf);

    if feed.len() >= 64 && buf.len() - start == feed.len() {
        CLEAN_PTR.store(feed.as_ptr() as usize, Ordering::Relaxed);
        CLEAN_LEN.store(feed.len(), Ordering::Relaxed);
    }
}''')],
     files={"main.rs": '''use laby::internal::*;
fn main() {
    let mut s = "x".repeat(100);
    let mut b = Buffer::new();
    escape(&s, &mut b);
    unsafe { s.as_bytes_mut()[50] = b'<'; }
    let mut b = Buffer::new();
    escape(&s, &mut b);
    assert!(!b.as_str().contains('<'));
}
'''})

seed("s44-empty-class", property="C09", run="debug",
     needs="a class list containing an empty string literal that is not the last item",
     breaks="no space is written after an empty literal item",
     edits=[(BLD, '''            if separate {
                node.render.push_str(&element.delimiter);
            } else {
                separate = true;
            }
''', '''            if separate {
                node.render.push_str(&element.delimiter);
            }

            separate = try_unwrap_literal(&child)
                .and_then(try_render_literal)
                .map_or(true, |text| !text.is_empty());
''')],
     files={"main.rs": '''use laby::*;
fn main() {
    let (a, b) = ("a", "b");
    assert_eq!(render!(classes!(a, "", b)), "a  b");
    assert_eq!(render!(classes!("", a)), " a");
}
'''})

seed("s45-number-condition", property="C19", run="reject", want="expected .bool., found integer",
     needs="a boolean attribute whose condition is an integer literal",
     breaks="integer literals are accepted as conditions of boolean attributes",
     edits=[(BLD, '''        Lit::Bool(v) => Some(v.value()),
        _ => None,
    }) {
        if enabled''', '''        Lit::Bool(v) => Some(v.value()),
        Lit::Int(v) => v.base10_parse::<u64>().ok().map(|v| v != 0),
        _ => None,
    }) {
        if enabled''')],
     files={"main.rs": '''use laby::*;
fn main() {
    println!("{}", render!(input!(checked = bool!(1))));
}
'''})

seed("s46-some-unqualified", property="C24", run="check",
     needs="frag_match! where something named Some is in scope",
     breaks="the expansion of frag_match! uses whatever Some is in scope",
     edits=[(MAT, "arm.body = Box::new(parse_quote!(#name = ::core::option::Option::Some(#body)));",
             "arm.body = Box::new(parse_quote!(#name = Some(#body)));")],
     files={"main.rs": '''use laby::*;
#[allow(dead_code)]
enum Filter { Some, All }
use Filter::*;
fn show(f: &Filter) -> String {
    render!(frag_match!(match f { Filter::Some => "some", Filter::All => "all" }))
}
fn main() {
    assert_eq!(show(&All), "all");
}
'''})

seed("s47-std-detect", property="C24", run='cargo build -q --offline --target-dir "$d/target" 2>"$d/log" || { cat "$d/log"; exit 98; }\nf=$(ls "$d"/target/debug/deps/liblaby_common-*.rlib | head -1)\ncd "$d" && mkdir x && cd x && ar x "$f" && ! nm -A ./*.o 2>/dev/null | grep -q "std_detect"',
     needs="a target without the standard library",
     breaks="the processor is queried through the standard library's macro, which drags the whole standard library in",
     edits=[(ESC, '''        let features = raw_cpuid::CpuId::new().get_feature_info();
        let fun = if let Some(features) = features {
            if features.has_oxsave() && unsafe { has_avx2() } {
                avx2::escape
            } else if features.has_sse2() {
                sse2::escape
            } else {
                fallback::escape
            }
        } else {
            fallback::escape
        };
''', '''        let fun = if std::is_x86_feature_detected!("avx2") {
            avx2::escape
        } else if std::is_x86_feature_detected!("sse2") {
            sse2::escape
        } else {
            fallback::escape
        };
'''), (ESC, '''    use core::sync::atomic::{AtomicPtr, Ordering};

    type FnRaw''', '''    extern crate std;
    use core::sync::atomic::{AtomicPtr, Ordering};

    type FnRaw''')],
     files={"main.rs": '''fn main() { println!("{}", laby::internal::escape_str("a long enough text <")); }
'''})

seed("s48-split-long", property="C20", run="debug",
     needs="an input longer than 4096 bytes with a multi-byte character across a multiple of 4096",
     breaks="long inputs are cut every 4096 bytes, which panics inside a multi-byte character",
     edits=[(ESC, '''pub fn escape(feed: &str, buf: &mut Buffer) {
    escape_impl(feed, buf)
}''', '''pub fn escape(feed: &str, buf: &mut Buffer) {
    let mut rest = feed;

    while rest.len() > 4096 {
        let (head, tail) = rest.split_at(4096);
        escape_impl(head, buf);
        rest = tail;
    }

    escape_impl(rest, buf)
}''')],
     files={"main.rs": '''use laby::*;
fn main() {
    let mut s = "x".repeat(4095);
    s.push('\\u{e9}');
    s.push_str(&"y".repeat(300));
    assert_eq!(render!(s.as_str()), s);
}
'''})

seed("s49-digit-path", property="C18", run="debug",
     needs="an integer of value ten",
     breaks="the one-digit path also takes the number ten, which renders as a colon",
     edits=[(REN, '''                use itoap::Integer;

''', '''                use itoap::Integer;

                if (0..=10).contains(&self) {
                    return buffer.push(char::from(b'0' + self as u8));
                }

''')],
     files={"main.rs": '''use laby::*;
fn main() {
    for i in 0..1000u32 {
        assert_eq!(render!(i), i.to_string());
    }
}
'''})

seed("s50-into-string-shrink", property="C21", run="release",
     needs="a buffer with much more capacity than content, turned into a string",
     breaks="a mostly empty buffer is reallocated when it is turned into a string",
     edits=[(BUF, '''        unsafe { String::from_raw_parts(buf.data, buf.len, buf.capacity) }''',
             '''        let mut string = unsafe { String::from_raw_parts(buf.data, buf.len, buf.capacity) };

        if string.capacity() / 4 > string.len() {
            string.shrink_to_fit();
        }

        string''')],
     files={"main.rs": '''use laby::internal::Buffer;
fn main() {
    let mut b = Buffer::with_capacity(1000);
    b.push_str("abc");
    assert_eq!(b.into_string().capacity(), 1000);
}
'''})

seed("s51-trailing-delimiter", property="C07", run="debug",
     needs="a delimited iterator without items, rendered into a buffer that ends with the delimiter",
     breaks="a delimiter at the end of the buffer is cut off, even if an earlier value wrote it",
     edits=[(HLP, '''        if let Some(item) = iter.next() {
            item.render(buf);

            for item in iter {
                buf.push_str(del);
                item.render(buf);
            }
        }''', '''        while let Some(item) = iter.next() {
            item.render(buf);
            buf.push_str(del);
        }

        // drop the delimiter behind the last item
        if buf.as_str().ends_with(del) {
            unsafe { buf._set_len(buf.len() - del.len()) };
        }''')],
     files={"main.rs": '''use laby::*;
fn main() {
    let none: Vec<u8> = vec![];
    assert_eq!(render!(frag!("a, ", iter!(", ", none), "b")), "a, b");
    assert_eq!(render!(iter!(", ", vec![1, 2])), "1, 2");
}
'''})

seed("s52-first-assert", property="C20", run="debug",
     needs="a debug build in which the first escaped string of sixteen or more bytes has exactly sixteen",
     breaks="the detecting call asserts more than sixteen bytes",
     edits=[(ESC, '''    fn detect(feed: &str, buf: &mut Buffer) {
        debug_assert!(feed.len() >= 16);''', '''    fn detect(feed: &str, buf: &mut Buffer) {
        debug_assert!(feed.len() > 16);''')],
     files={"main.rs": '''use laby::*;
fn main() {
    let s = String::from("0123456789abcdef");
    assert_eq!(render!(s.clone()), s);
}
'''})

seed("s54-tidy-spaces", property="C14", run="debug",
     needs="a literal child that starts with a space, behind markup or text that ends with one",
     breaks="generated text never gets two spaces in a row, so spaces of literals disappear",
     edits=[(NODE, '''        self.buffer.push_str(value.as_ref());''', '''        let value = value.as_ref();
        let doubled = self.buffer.ends_with(' ') && value.starts_with(' ');

        self.buffer.push_str(&value[doubled as usize..]);''')],
     files={"main.rs": '''use laby::*;
fn main() {
    assert_eq!(render!(p!("a ", " b")), "<p>a  b</p>");
}
'''})

seed("s55-drop-cleared", property="C05", run="debug",
     needs="reserving more room in a buffer that is exactly full",
     breaks="the last byte of the contents is dropped",
     edits=[(BUF, '''        if size <= self.capacity - self.len {
            return;
        }

        self.reserve_internal(size);
    }''', '''        if size < self.capacity - self.len {
            return;
        }

        self.len = self.len.min(self.capacity - size.min(1));
        self.reserve_internal(size);
    }''')],
     files={"main.rs": '''use laby::internal::Buffer;
fn main() {
    let mut b = Buffer::with_capacity(3);
    b.push_str("abc");
    b.reserve(5);
    assert_eq!(b.as_str(), "abc");
}
'''})

seed("s56-early-return", property="C12", run="debug",
     needs="an argument that leaves the enclosing function early (the ? operator) inside a markup macro",
     breaks="the node is built inside a closure of its own",
     edits=[(NODE, '''        quote!({
            #decl
            #render
            #ctor
        })
        .to_tokens(tokens)''', '''        quote!({
            #decl
            #render
            let node = move || #ctor;
            node()
        })
        .to_tokens(tokens)''')],
     files={"main.rs": '''use laby::*;
fn page(x: Option<&str>) -> Option<String> {
    Some(render!(p!(x?)))
}
fn main() {
    assert_eq!(page(None), None);
    assert_eq!(page(Some("a")).as_deref(), Some("<p>a</p>"));
}
'''})

seed("s57-attr-args", property="C19", run="reject", want="unexpected token",
     needs="arguments given to the laby attribute",
     breaks="arguments to the attribute are ignored instead of rejected when they are a single word",
     edits=[(CMP, "    Parser::parse2(Nothing::parse, args)?;", '''    if syn::parse2::<Ident>(args.clone()).is_err() {
        Parser::parse2(Nothing::parse, args)?;
    }''')],
     files={"main.rs": '''use laby::*;
#[laby(inline)]
fn hello() -> impl Render { p!("hi") }
fn main() { println!("{}", render!(hello!())); }
'''})

seed("s58-long-mask", property="C01", run="debug", deps="",
     needs="the SSE2 routine, an input of more than 65536 bytes",
     breaks="inputs are examined in blocks counted by a 12-bit counter; behind the 65536th byte nothing is escaped until the tail",
     edits=[(ESC, '''        let maskgen = |x: __m128i| -> u32 {
            _mm_movemask_epi8(_mm_or_si128(
                _mm_cmpeq_epi8(_mm_or_si128(x, v_independent1), v_key1),
                _mm_cmpeq_epi8(_mm_or_si128(x, v_independent2), v_key2),
            )) as u32
        };

        while ptr <= end_ptr.sub(VECTOR_BYTES) {
            let mut mask = maskgen(_mm_loadu_si128(ptr as *const __m128i));
''', '''        let maskgen = |x: __m128i| -> u32 {
            _mm_movemask_epi8(_mm_or_si128(
                _mm_cmpeq_epi8(_mm_or_si128(x, v_independent1), v_key1),
                _mm_cmpeq_epi8(_mm_or_si128(x, v_independent2), v_key2),
            )) as u32
        };

        let mut block = 0u32;

        while ptr <= end_ptr.sub(VECTOR_BYTES) {
            block += 1;
            let mut mask = maskgen(_mm_loadu_si128(ptr as *const __m128i));
            if block > 4096 {
                mask &= 0xfff;
            }
''')],
     files={"main.rs": WRAP + '''
fn main() {
    let s = "abcdefghijklmno<".repeat(5000);
    let mut b = buffer::Buffer::new();
    esc::run(1, &s, &mut b);
    assert_eq!(b.as_str(), want(&s));
}
'''})
