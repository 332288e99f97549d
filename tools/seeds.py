"""Planted bugs: edits of /repo's sources, and the programs that demonstrate them."""
ESC = "laby_common/src/internal/escape.rs"
BUF = "laby_common/src/internal/buffer.rs"
REN = "laby_common/src/render.rs"
HLP = "laby/src/helpers.rs"
LIB = "laby/src/lib.rs"
BLD = "laby_macros/src/build.rs"
NODE = "laby_macros/src/node.rs"
CMP = "laby_macros/src/component.rs"
MAT = "laby_macros/src/matching.rs"
MLB = "laby_macros/src/lib.rs"
SEEDS = {}

# a crate that contains the escaping sources, with a processor of its own and access to the routines
WRAP = '''#![allow(dead_code, unused)]
extern crate alloc;
pub mod cpu {
    pub struct CpuId;
    pub struct F;
    pub struct E;
    pub static mut LEAF1: bool = true;
    pub static mut SSE2: bool = true;
    pub static mut OSX: bool = true;
    pub static mut AVX2: bool = true;
    impl CpuId {
        pub fn new() -> CpuId { CpuId }
        pub fn get_feature_info(&self) -> Option<F> { unsafe { if LEAF1 { Some(F) } else { None } } }
        pub fn get_extended_feature_info(&self) -> Option<E> { Some(E) }
    }
    impl F {
        pub fn has_oxsave(&self) -> bool { unsafe { OSX } }
        pub fn has_xsave(&self) -> bool { unsafe { OSX } }
        pub fn has_avx(&self) -> bool { unsafe { OSX } }
        pub fn has_sse2(&self) -> bool { unsafe { SSE2 } }
        pub fn has_sse(&self) -> bool { unsafe { SSE2 } }
    }
    impl E {
        pub fn has_avx2(&self) -> bool { unsafe { AVX2 } }
    }
}
pub mod buffer { include!("@REPO@/laby_common/src/internal/buffer.rs"); }
pub mod esc {
    use crate::cpu as raw_cpuid;
    include!("@REPO@/laby_common/src/internal/escape.rs");
    pub fn run(k: u8, s: &str, b: &mut Buffer) {
        unsafe { match k { 0 => fallback::escape(s, b), 1 => sse2::escape(s, b), _ => avx2::escape(s, b) } }
    }
}
pub fn want(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("&quot;"), '&' => o.push_str("&amp;"), '\\'' => o.push_str("&#39;"),
            '<' => o.push_str("&lt;"), '>' => o.push_str("&gt;"), c => o.push(c),
        }
    }
    o
}
'''

def seed(i, **k):
    SEEDS[i] = k

seed("s01-fallback-amp", property="C01", run="debug", deps="",
     needs="a processor without SSE2 or CPUID feature leaf (portable routine) and an input of 16 or more bytes with an ampersand away from any other special character",
     breaks="the word-at-a-time filter of the portable routine no longer recognises '&', so ampersands are copied unescaped",
     edits=[(ESC, "const INDEPENDENTS1: usize = 0x0505_0505_0505_0505_u64 as usize;",
             "const INDEPENDENTS1: usize = 0x0505_0505_0505_0505_u64 as usize & !0x0101_0101_0101_0101_u64 as usize;")],
     files={"main.rs": WRAP + '''
fn main() {
    let base = "abcdefghijklmnopqrstuvwxyz0123456789";
    for at in 0..30 {
        let mut s = base.to_string();
        s.replace_range(at..at + 1, "&");
        let mut b = buffer::Buffer::new();
        esc::run(0, &s, &mut b);
        assert_eq!(b.as_str(), want(&s));
    }
}
'''})

seed("s02-avx2-small-tail", property="C01", run="debug",
     needs="the AVX2 routine, an input of exactly 17 bytes whose last byte is special",
     breaks="the second half of the short-input AVX2 path is skipped for 17-byte inputs",
     edits=[(ESC, "        if len != 16 {\n", "        if len > 17 {\n")], deps="",
     files={"main.rs": WRAP + '''
fn main() {
    for n in 16..64usize {
        for at in 0..n {
            let mut s = "x".repeat(n);
            s.replace_range(at..at + 1, "<");
            for k in 1..3 {
                if k == 2 && !std::arch::is_x86_feature_detected!("avx2") { continue; }
                let mut b = buffer::Buffer::new();
                esc::run(k, &s, &mut b);
                assert_eq!(b.as_str(), want(&s));
            }
        }
    }
}
'''})

seed("s03-cpuid-missing-leaf", property="C02", run="debug", deps="",
     needs="a processor without the CPUID feature leaf",
     breaks="when the processor reports no feature information at all, the SSE2 routine is selected and remembered",
     edits=[(ESC, '''        } else {
            fallback::escape
        };

        FN.store''', '''        } else {
            sse2::escape
        };

        FN.store''')],
     files={"main.rs": WRAP.replace("include!(\"@REPO@/laby_common/src/internal/escape.rs\");",
                                    "include!(\"esc.rs\");") + '''
fn main() {
    unsafe { cpu::LEAF1 = false; cpu::SSE2 = false; cpu::OSX = false; cpu::AVX2 = false; }
    let mut b = buffer::Buffer::new();
    esc::escape("a quite long text with <tags>", &mut b);
    assert_eq!(b.as_str(), want("a quite long text with <tags>"));
    assert!(!esc::SSE.load(std::sync::atomic::Ordering::Relaxed), "the SSE2 routine ran on a processor without it");
}
''', "x.rs": ""},
     )
# the routine reports that it ran
SEEDS["s03-cpuid-missing-leaf"]["run"] = '''awk '/^mod sse2 /{m=1} {print} m && /pub unsafe fn escape\\(/ {print "super::SSE.store(true, core::sync::atomic::Ordering::Relaxed);"; m=0}' "$repo/laby_common/src/internal/escape.rs" > "$d/src/esc.rs"
echo 'pub static SSE: core::sync::atomic::AtomicBool = core::sync::atomic::AtomicBool::new(false);' >> "$d/src/esc.rs"
cargo run -q --offline --target-dir "$d/target"'''
SEEDS["s03-cpuid-missing-leaf"]["files"].pop("x.rs")

LAYOUT = '''use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::Mutex;
// remembers the layout of every block that is alive
struct Track;
static LIVE: Mutex<[(usize, usize, usize); 256]> = Mutex::new([(0, 0, 0); 256]);
static BAD: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
static ON: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
fn put(p: *mut u8, l: Layout) {
    if !ON.load(std::sync::atomic::Ordering::SeqCst) { return; }
    let mut g = LIVE.lock().unwrap();
    for e in g.iter_mut() { if e.0 == 0 { *e = (p as usize, l.size(), l.align()); return; } }
}
fn take(p: *mut u8, l: Layout) {
    let mut g = LIVE.lock().unwrap();
    for e in g.iter_mut() {
        if e.0 == p as usize {
            if e.1 != l.size() || e.2 != l.align() { BAD.fetch_add(1, std::sync::atomic::Ordering::SeqCst); }
            *e = (0, 0, 0);
            return;
        }
    }
}
unsafe impl GlobalAlloc for Track {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { let p = System.alloc(Layout::from_size_align_unchecked(l.size() + 64, l.align())); put(p, l); p }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { take(p, l); }
}
#[global_allocator]
static A: Track = Track;
fn live() -> usize { LIVE.lock().unwrap().iter().filter(|e| e.0 != 0).count() }
fn bad() -> usize { BAD.load(std::sync::atomic::Ordering::SeqCst) }
fn on(b: bool) { ON.store(b, std::sync::atomic::Ordering::SeqCst); }
'''
seed("s04-clone-capacity", property="C04", run="debug",
     needs="cloning a buffer that has spare capacity and then appending to (or dropping) the clone",
     breaks="the clone allocates only its length but records the original's capacity, so later appends write past the block and it is freed with the wrong size",
     edits=[(BUF, '''                    len: self.len,
                    capacity: self.len,
                };''', '''                    len: self.len,
                    capacity: self.capacity,
                };''')],
     files={"main.rs": LAYOUT + '''
use laby_common::internal::Buffer;
fn main() {
    on(true);
    let mut a = Buffer::with_capacity(40);
    a.push_str("hello");
    let b = a.clone();
    drop(b);
    drop(a);
    on(false);
    assert_eq!(bad(), 0, "a block was freed with a layout other than its own");
}
'''})

seed("s05-from-string-capacity", property="C04", run="debug",
     needs="converting a String with spare capacity into a buffer",
     breaks="the block keeps the String's capacity while the buffer records the length, so it is freed and reallocated with the wrong size",
     edits=[(BUF, '''        let bs = other.into_boxed_str();
        let data = Box::leak(bs);
''', '''        // the spare room of `other` is never used, there is no need to shrink it first
        let mut bs = ManuallyDrop::new(other);
        let data: &mut str = &mut bs;
''')],
     files={"main.rs": LAYOUT + '''
use laby_common::internal::Buffer;
fn main() {
    on(true);
    let mut s = String::with_capacity(50);
    s.push_str("hello");
    let b = Buffer::from(s);
    assert_eq!(b.as_str(), "hello");
    drop(b);
    on(false);
    assert_eq!(bad(), 0, "a block was freed with a layout other than its own");
}
'''})

seed("s06-reserve-room", property="C05", run="debug",
     needs="reserving when the buffer is partly filled and the request is below the whole capacity",
     breaks="reserve compares the request with the whole capacity, so it can leave less room than asked for",
     edits=[(BUF, "        if size <= self.capacity - self.len {\n            return;", "        if size <= self.capacity - self.len || size < self.capacity / 2 {\n            return;")],
     files={"main.rs": '''use laby_common::internal::Buffer;
fn main() {
    for cap in 1..80usize { for len in 0..=cap { for n in 0..100usize {
        let mut b = Buffer::with_capacity(cap);
        b.push_str(&"x".repeat(len));
        b.reserve(n);
        assert!(b.capacity() - b.len() >= n, "cap {cap} len {len} reserve {n}: room {}", b.capacity() - b.len());
    } } }
}
'''})

import seeds2  # noqa: E402  (more planted bugs)
import seeds3  # noqa
import seeds4  # noqa
