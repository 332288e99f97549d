"""Edits of /repo that keep its behaviour: every check must stay quiet on them.

  python3 tools/refactors.py [NAME|all] [PROP...]      (default: the properties the entry names)
  a PROP may also be one of the analyses esc, buf, rend, run once for all properties
  KEEP=1 keeps the scratch copy; BUILD=1 also runs the repository's own build and tests on it.
"""
import os, subprocess, sys, time, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

B = 'laby_common/src/internal/buffer.rs'
E = 'laby_common/src/internal/escape.rs'
R = 'laby_common/src/render.rs'
H = 'laby/src/helpers.rs'
D = 'laby/src/doctype.rs'
MB = 'laby_macros/src/build.rs'
MC = 'laby_macros/src/component.rs'
MM = 'laby_macros/src/matching.rs'
MN = 'laby_macros/src/node.rs'
ML = 'laby_macros/src/lib.rs'

BUF = ['C04', 'C05', 'C07', 'C08', 'C20']
ESC = ['C01', 'C02', 'C03', 'C06', 'C20', 'C21']
REN = ['C03', 'C18', 'C20', 'C21', 'C06']
MAC = ['C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C22', 'C23']
REF = {}


def ref(name, props, *edits):
    REF[name] = (props, edits)


ref('buf-reserve', BUF + ['C06'],
    (B, '''        if size <= self.capacity - self.len {
            return;
        }

        self.reserve_internal(size);
    }''', '''        let available = self.capacity - self.len;
        if size > available {
            self.reserve_internal(size);
        }
    }'''),
    (B, '''        let required = self
            .capacity
            .checked_add(size)
            .expect("capacity is too large");
        let new_capacity = core::cmp::max(self.capacity * 2, required);''',
     '''        let required = match self.capacity.checked_add(size) {
            Some(n) => n,
            None => panic!("capacity is too large"),
        };
        let doubled = self.capacity * 2;
        let new_capacity = if doubled < required { required } else { doubled };'''))

ref('buf-lenbased', BUF + ['C06'],
    (B, '''        let required = self
            .capacity
            .checked_add(size)
            .expect("capacity is too large");
        let new_capacity = core::cmp::max(self.capacity * 2, required);''',
     '''        let required = self
            .len
            .checked_add(size)
            .expect("capacity is too large");
        let new_capacity = (self.capacity * 2).max(required);'''))

ref('buf-push', BUF + ['C06', 'C18', 'C03'],
    (B, '''        unsafe {
            self.reserve_small(4);
            let bp = self.data.add(self.len) as *mut [u8; 4];
            let result = data.encode_utf8(&mut *bp);
            self.len += result.len();
        }''', '''        let mut bytes = [0u8; 4];
        self.push_str(data.encode_utf8(&mut bytes));'''))

ref('buf-push2', BUF + ['C06', 'C18', 'C03'],
    (B, '''        unsafe {
            self.reserve_small(4);
            let bp = self.data.add(self.len) as *mut [u8; 4];
            let result = data.encode_utf8(&mut *bp);
            self.len += result.len();
        }''', '''        if data.is_ascii() {
            unsafe {
                self.reserve_small(1);
                self.data.add(self.len).write(data as u8);
                self.len += 1;
            }
        } else {
            unsafe {
                self.reserve_small(data.len_utf8());
                let spare = core::slice::from_raw_parts_mut(self.data.add(self.len), data.len_utf8());
                let n = data.encode_utf8(spare).len();
                self.advance(n);
            }
        }'''))

ref('buf-clone', BUF,
    (B, '''        unsafe {
            if self.is_empty() {
                Self::new()
            } else {
                let buf = Self {
                    data: safe_alloc(self.len),
                    len: self.len,
                    capacity: self.len,
                };

                ptr::copy_nonoverlapping(self.data, buf.data, self.len);
                buf
            }
        }''', '''        Self::from(self.as_str())'''),
    (B, '''        let mut buf = Buffer::with_capacity(other.len());

        if !other.is_empty() {
            // SAFETY: `Buffer.capacity()` should be same as `other.len()`, so if `other` is not
            // empty, `buf.as_mut_ptr()` is supporsed to point to valid memory.
            unsafe {
                ptr::copy_nonoverlapping(other.as_ptr(), buf.as_mut_ptr(), other.len());
                buf.advance(other.len());
            }
        }

        buf''', '''        let mut buf = Buffer::with_capacity(other.len());
        buf.push_str(other);
        buf'''),
    (B, '    boxed::Box,\n', '    boxed::Box,\n'),
    (B, '    ptr,\n};', '};'))

ref('buf-drop', BUF,
    (B, '''        if self.capacity != 0 {
            // SAFETY: when `self.capacity > 0`, `self.capacity` is the same value used for
            // allocate the block of memory pointed by `self.data`.
            unsafe {
                let layout = Layout::from_size_align_unchecked(self.capacity, 1);
                dealloc(self.data, layout);
            }
        }''', '''        self.free();'''),
    (B, '''    #[inline]
    fn reserve_internal(''', '''    fn free(&mut self) {
        match self.capacity {
            0 => {}
            n => unsafe {
                // SAFETY: a nonzero capacity is the size the block was allocated with
                dealloc(self.data, Layout::array::<u8>(n).unwrap());
            },
        }
    }

    #[inline]
    fn reserve_internal('''))

ref('buf-nonnull', BUF + ['C06', 'C21', 'C24'],
    (B, '    data: *mut u8,\n    len', '    data: ptr::NonNull<u8>,\n    len'),
    (B, 'data: align_of::<u8>() as *mut u8, // dangling pointer', 'data: ptr::NonNull::dangling(),'),
    (B, 'data: safe_alloc(n),', 'data: unsafe { ptr::NonNull::new_unchecked(safe_alloc(n)) },'),
    (B, 'core::slice::from_raw_parts(self.data, self.len)', 'core::slice::from_raw_parts(self.data.as_ptr(), self.len)'),
    (B, '    pub fn as_mut_ptr(&self) -> *mut u8 {\n        self.data', '    pub fn as_mut_ptr(&self) -> *mut u8 {\n        self.data.as_ptr()'),
    (B, 'String::from_raw_parts(buf.data,', 'String::from_raw_parts(buf.data.as_ptr(),'),
    (B, 'let p = self.data.add(self.len);', 'let p = self.data.as_ptr().add(self.len);'),
    (B, 'let bp = self.data.add(self.len) as', 'let bp = self.data.as_ptr().add(self.len) as'),
    (B, 'self.data = unsafe { safe_realloc(self.data, self.capacity, new_capacity) };',
     'self.data = unsafe { ptr::NonNull::new_unchecked(safe_realloc(self.data.as_ptr(), self.capacity, new_capacity)) };'),
    (B, '        debug_assert!(!self.data.is_null());\n', ''),
    (B, 'data: safe_alloc(self.len),', 'data: ptr::NonNull::new_unchecked(safe_alloc(self.len)),'),
    (B, 'ptr::copy_nonoverlapping(self.data, buf.data, self.len);', 'ptr::copy_nonoverlapping(self.data.as_ptr(), buf.data.as_ptr(), self.len);'),
    (B, 'dealloc(self.data, layout);', 'dealloc(self.data.as_ptr(), layout);'),
    (B, 'data: data.as_mut_ptr(),', 'data: unsafe { ptr::NonNull::new_unchecked(data.as_mut_ptr()) },'),
    (B, 'mem::{align_of, ManuallyDrop}', 'mem::ManuallyDrop'))

ref('buf-rename', BUF + ['C06', 'C21'],
    (B, 'fn reserve_internal(', 'fn grow('), (B, 'self.reserve_internal(', 'self.grow('),
    (B, 'self.reserve_internal(', 'self.grow('),
    (B, 'fn safe_alloc(', 'fn new_block('), (B, 'safe_alloc(n)', 'new_block(n)'), (B, 'safe_alloc(self.len)', 'new_block(self.len)'),
    (B, '    data: *mut u8,\n    len: usize,\n    capacity: usize,\n}', '    capacity: usize,\n    len: usize,\n    data: *mut u8,\n}'))

ref('buf-fromstring', BUF,
    (B, '''        let bs = other.into_boxed_str();
        let data = Box::leak(bs);
        Buffer {
            data: data.as_mut_ptr(),
            len: data.len(),
            capacity: data.len(),
        }''', '''        let mut other = ManuallyDrop::new(other);
        Buffer {
            data: other.as_mut_ptr(),
            len: other.len(),
            capacity: other.capacity(),
        }'''),
    (B, '    boxed::Box,\n', ''))

ref('buf-asstr', BUF,
    (B, '''        unsafe {
            let bytes = core::slice::from_raw_parts(self.data, self.len);
            core::str::from_utf8_unchecked(bytes)
        }''', '''        // SAFETY: only whole strings are ever appended
        unsafe { core::str::from_utf8_unchecked(self.bytes()) }'''),
    (B, '''    /// Returns an unsafe mutable pointer to the inner data.''', '''    #[inline]
    fn bytes(&self) -> &[u8] {
        unsafe { &*ptr::slice_from_raw_parts(self.data, self.len) }
    }

    /// Returns an unsafe mutable pointer to the inner data.'''),
    (B, '''            let p = self.data.add(self.len);
            core::ptr::copy_nonoverlapping(data.as_ptr(), p, size);
            self.len += size;''', '''            let spare = core::slice::from_raw_parts_mut(self.data.add(self.len), size);
            spare.copy_from_slice(data.as_bytes());
            self.advance(size);'''))

# ------------------------------------------------------------------ escaper
ref('esc-small-index', ESC,
    (E, '''        let mut start_ptr = feed.as_ptr();
        let mut ptr = start_ptr;
        let end_ptr = start_ptr.add(feed.len());
        let buf_begin = buf;

        while ptr < end_ptr {
            debug_assert!(start_ptr <= ptr);
            let idx = *ESCAPE_LUT.get_unchecked(*ptr as usize) as usize;
            debug_assert!(idx <= 9);
            if idx >= ESCAPED_LEN {
                ptr = ptr.add(1);
            } else {
                let escaped = ESCAPED.get_unchecked(idx);
                if ptr > start_ptr {
                    let len = ptr as usize - start_ptr as usize;

                    memcpy_16(start_ptr, buf, len);
                    buf = buf.add(len);
                }
                memcpy_16(escaped.as_ptr(), buf, escaped.len());
                buf = buf.add(escaped.len());
                start_ptr = ptr.add(1);
                ptr = ptr.add(1);
            }
        }

        debug_assert_eq!(ptr, end_ptr);
        debug_assert!(start_ptr <= ptr);

        if end_ptr > start_ptr {
            let len = end_ptr as usize - start_ptr as usize;
            memcpy_16(start_ptr, buf, len);
            buf = buf.add(len);
        }

        buf as usize - buf_begin as usize''', '''        let bytes = feed.as_bytes();
        let buf_begin = buf;
        let mut start = 0;

        for (i, &byte) in bytes.iter().enumerate() {
            let idx = ESCAPE_LUT[byte as usize] as usize;
            if idx >= ESCAPED_LEN {
                continue;
            }

            if i > start {
                ptr::copy_nonoverlapping(bytes.as_ptr().add(start), buf, i - start);
                buf = buf.add(i - start);
            }

            let escaped = ESCAPED[idx];
            ptr::copy_nonoverlapping(escaped.as_ptr(), buf, escaped.len());
            buf = buf.add(escaped.len());
            start = i + 1;
        }

        if start < bytes.len() {
            ptr::copy_nonoverlapping(bytes.as_ptr().add(start), buf, bytes.len() - start);
            buf = buf.add(bytes.len() - start);
        }

        buf as usize - buf_begin as usize'''))

ref('esc-small-bytewise', ESC,
    (E, '''        let mut start_ptr = feed.as_ptr();
        let mut ptr = start_ptr;
        let end_ptr = start_ptr.add(feed.len());
        let buf_begin = buf;

        while ptr < end_ptr {
            debug_assert!(start_ptr <= ptr);
            let idx = *ESCAPE_LUT.get_unchecked(*ptr as usize) as usize;
            debug_assert!(idx <= 9);
            if idx >= ESCAPED_LEN {
                ptr = ptr.add(1);
            } else {
                let escaped = ESCAPED.get_unchecked(idx);
                if ptr > start_ptr {
                    let len = ptr as usize - start_ptr as usize;

                    memcpy_16(start_ptr, buf, len);
                    buf = buf.add(len);
                }
                memcpy_16(escaped.as_ptr(), buf, escaped.len());
                buf = buf.add(escaped.len());
                start_ptr = ptr.add(1);
                ptr = ptr.add(1);
            }
        }

        debug_assert_eq!(ptr, end_ptr);
        debug_assert!(start_ptr <= ptr);

        if end_ptr > start_ptr {
            let len = end_ptr as usize - start_ptr as usize;
            memcpy_16(start_ptr, buf, len);
            buf = buf.add(len);
        }

        buf as usize - buf_begin as usize''', '''        let buf_begin = buf;

        for byte in feed.bytes() {
            match ESCAPED.get(ESCAPE_LUT[byte as usize] as usize) {
                Some(escaped) => {
                    ptr::copy_nonoverlapping(escaped.as_ptr(), buf, escaped.len());
                    buf = buf.add(escaped.len());
                }
                None => {
                    *buf = byte;
                    buf = buf.add(1);
                }
            }
        }

        buf.offset_from(buf_begin) as usize'''))

ref('esc-proceed', ESC,
    (E, '''        while ptr < end_ptr {
            debug_assert!(start_ptr <= ptr);
            let idx = ESCAPE_LUT[*ptr as usize] as usize;
            debug_assert!(idx <= 9);
            if idx >= ESCAPED_LEN {
                ptr = ptr.add(1);
            } else {
                if ptr > start_ptr {
                    let slc = slice::from_raw_parts(start_ptr, ptr as usize - start_ptr as usize);
                    buffer.push_str(core::str::from_utf8_unchecked(slc));
                }
                push_escaped_str(*ESCAPED.get_unchecked(idx), buffer);
                start_ptr = ptr.add(1);
                ptr = ptr.add(1);
            }
        }''', '''        loop {
            if ptr >= end_ptr {
                break;
            }

            let idx = ESCAPE_LUT[*ptr as usize] as usize;
            if idx < ESCAPED_LEN {
                flush(buffer, start_ptr, ptr);
                push_escaped_str(ESCAPED[idx], buffer);
                start_ptr = ptr.add(1);
            }
            ptr = ptr.add(1);
        }'''),
    (E, '''    #[inline]
    pub unsafe fn proceed(''', '''    #[inline]
    unsafe fn flush(buffer: &mut Buffer, start: *const u8, end: *const u8) {
        if start < end {
            let len = end.offset_from(start) as usize;
            buffer.push_str(core::str::from_utf8_unchecked(slice::from_raw_parts(start, len)));
        }
    }

    #[inline]
    pub unsafe fn proceed('''))

SIMD = '''                if c < ESCAPED_LEN {
                    if start_ptr < ptr2 {
                        let slc =
                            slice::from_raw_parts(start_ptr, ptr2 as usize - start_ptr as usize);
                        buffer.push_str(core::str::from_utf8_unchecked(slc));
                    }
                    push_escaped_str(*ESCAPED.get_unchecked(c), buffer);
                    start_ptr = ptr2.add(1);
                }
'''
ref('esc-simd-helper', ESC,
    *[(E, SIMD, '''                if c < ESCAPED_LEN {
                    start_ptr = super::naive::replace(buffer, start_ptr, ptr2, c);
                }
''')] * 5,
    (E, '''    #[inline]
    pub unsafe fn proceed(''', '''    #[inline]
    pub unsafe fn replace(
        buffer: &mut Buffer,
        start_ptr: *const u8,
        ptr: *const u8,
        idx: usize,
    ) -> *const u8 {
        if start_ptr < ptr {
            let slc = slice::from_raw_parts(start_ptr, ptr as usize - start_ptr as usize);
            buffer.push_str(core::str::from_utf8_unchecked(slc));
        }
        push_escaped_str(ESCAPED[idx], buffer);
        ptr.add(1)
    }

    #[inline]
    pub unsafe fn proceed('''))

ref('esc-simd-mask', ESC,
    *[(E, 'mask ^= 1 << trailing_zeros;', 'mask &= mask - 1;')] * 6,
    *[(E, '_mm_or_si128(x, v_independent1), v_key1)', '_mm_or_si128(v_independent1, x), v_key1)')] * 2,
    *[(E, 'while mask != 0 {', 'loop {\n                if mask == 0 {\n                    break;\n                }')] * 3)

ref('esc-simd-eq5', ESC,
    (E, '''            _mm256_movemask_epi8(_mm256_or_si256(
                _mm256_cmpeq_epi8(_mm256_or_si256(x, v_independent1), v_key1),
                _mm256_cmpeq_epi8(_mm256_or_si256(x, v_independent2), v_key2),
            )) as u32''', '''            let amp = _mm256_cmpeq_epi8(x, _mm256_set1_epi8(b'&' as i8));
            let apos = _mm256_cmpeq_epi8(x, _mm256_set1_epi8(b'\\'' as i8));
            let quote = _mm256_cmpeq_epi8(x, _mm256_set1_epi8(b'"' as i8));
            let angle = _mm256_cmpeq_epi8(_mm256_or_si256(x, v_independent2), v_key2);
            let _ = (v_independent1, v_key1);
            let any = _mm256_or_si256(_mm256_or_si256(amp, apos), _mm256_or_si256(quote, angle));
            _mm256_movemask_epi8(any) as u32'''))

ref('esc-detect-level', ESC + ['C08', 'C24'],
    (E, '''    use core::sync::atomic::{AtomicPtr, Ordering};

    type FnRaw = *mut ();
    static FN: AtomicPtr<()> = AtomicPtr::new(detect as FnRaw);
''', '''    use core::sync::atomic::{AtomicU8, Ordering};

    const UNKNOWN: u8 = 0;
    const SCALAR: u8 = 1;
    const SSE2: u8 = 2;
    const AVX2: u8 = 3;
    static LEVEL: AtomicU8 = AtomicU8::new(UNKNOWN);
'''),
    (E, '''    fn detect(feed: &str, buf: &mut Buffer) {
        debug_assert!(feed.len() >= 16);
        let features = raw_cpuid::CpuId::new().get_feature_info();
        let fun = if let Some(features) = features {
            if features.has_oxsave() && unsafe { has_avx2() } {
                avx2::escape
            } else if features.has_sse2() {
                sse2::escape
            } else {
                fallback::escape
            }
        } else {
            fallback::escape
        };

        FN.store(fun as FnRaw, Ordering::Relaxed);
        unsafe { fun(feed, buf) };
    }
''', '''    #[cold]
    fn detect() -> u8 {
        let level = match raw_cpuid::CpuId::new().get_feature_info() {
            Some(features) if features.has_oxsave() && unsafe { has_avx2() } => AVX2,
            Some(features) if features.has_sse2() => SSE2,
            _ => SCALAR,
        };

        LEVEL.store(level, Ordering::Relaxed);
        level
    }
'''),
    (E, '''            let fun = FN.load(Ordering::Relaxed);
            core::mem::transmute::<FnRaw, fn(&str, &mut Buffer)>(fun)(feed, buf);''',
     '''            let level = match LEVEL.load(Ordering::Relaxed) {
                UNKNOWN => detect(),
                level => level,
            };
            match level {
                AVX2 => avx2::escape(feed, buf),
                SSE2 => sse2::escape(feed, buf),
                _ => fallback::escape(feed, buf),
            }'''))

ref('esc-detect-pick', ESC + ['C08'],
    (E, '''        let features = raw_cpuid::CpuId::new().get_feature_info();
        let fun = if let Some(features) = features {
            if features.has_oxsave() && unsafe { has_avx2() } {
                avx2::escape
            } else if features.has_sse2() {
                sse2::escape
            } else {
                fallback::escape
            }
        } else {
            fallback::escape
        };

        FN.store(fun as FnRaw, Ordering::Relaxed);
        unsafe { fun(feed, buf) };''', '''        let fun = pick();
        FN.store(fun as FnRaw, Ordering::Release);
        unsafe { fun(feed, buf) };'''),
    (E, '''    fn detect(feed: &str''', '''    fn pick() -> unsafe fn(&str, &mut Buffer) {
        let features = match raw_cpuid::CpuId::new().get_feature_info() {
            Some(features) => features,
            None => return fallback::escape,
        };

        if features.has_oxsave() && unsafe { has_avx2() } {
            return avx2::escape;
        }

        if features.has_sse2() {
            return sse2::escape;
        }

        fallback::escape
    }

    fn detect(feed: &str'''),
    (E, 'FN.load(Ordering::Relaxed)', 'FN.load(Ordering::Acquire)'))

ref('esc-fallback', ESC,
    (E, '''        while ptr <= end_ptr.sub(USIZE_BYTES) {
            debug_assert_eq!((ptr as usize) % USIZE_BYTES, 0);

            let chunk = *(ptr as *const usize);
            if contains_key(chunk) {
                start_ptr = naive::proceed(buffer, start_ptr, ptr, ptr.add(USIZE_BYTES))
            }
            ptr = ptr.add(USIZE_BYTES);
        }''', '''        let words = (end_ptr as usize - ptr as usize) / USIZE_BYTES;
        for _ in 0..words {
            let next = ptr.add(USIZE_BYTES);
            if contains_key((ptr as *const usize).read()) {
                start_ptr = naive::proceed(buffer, start_ptr, ptr, next);
            }
            ptr = next;
        }'''))

ref('esc-fallback-unaligned', ESC,
    (E, '''        let mut ptr = start_ptr;
        let aligned_ptr = ptr.add(USIZE_BYTES - (start_ptr as usize & USIZE_ALIGN));
        debug_assert_eq!(aligned_ptr as usize % USIZE_BYTES, 0);
        debug_assert!(aligned_ptr <= end_ptr);

        let chunk = (ptr as *const usize).read_unaligned();
        if contains_key(chunk) {
            start_ptr = naive::proceed(buffer, start_ptr, ptr, aligned_ptr);
        }

        ptr = aligned_ptr;
''', '''        let mut ptr = start_ptr;
'''),
    (E, '''            debug_assert_eq!((ptr as usize) % USIZE_BYTES, 0);

            let chunk = *(ptr as *const usize);''', '''            let chunk = (ptr as *const usize).read_unaligned();'''),
    (E, '''    const USIZE_ALIGN: usize = USIZE_BYTES - 1;
''', ''))

ref('esc-pushescaped', ESC,
    (E, '''        let src = value.as_ptr();
        let dst = buffer.as_mut_ptr().add(buffer.len());

        // memcpy
        let offset = value.len() - 4;
        let t2 = ptr::read_unaligned(src.add(offset) as *const u32);
        let t1 = ptr::read_unaligned(src as *const u32);
        ptr::write_unaligned(dst.add(offset) as *mut u32, t2);
        ptr::write_unaligned(dst as *mut u32, t1);

        buffer._set_len(buffer.len() + value.len());''', '''        let dst = buffer.as_mut_ptr().add(buffer.len());
        ptr::copy_nonoverlapping(value.as_ptr(), dst, value.len());
        buffer.advance(value.len());'''))

ref('esc-impl-match', ESC + ['C08'],
    (E, '''    unsafe {
        if feed.len() < 16 {
            buf.reserve_small(feed.len() * 6);
            let l = naive::escape_small(feed, buf.as_mut_ptr().add(buf.len()));
            buf.advance(l);
        } else {
            let fun = FN.load(Ordering::Relaxed);
            core::mem::transmute::<FnRaw, fn(&str, &mut Buffer)>(fun)(feed, buf);
        }
    }''', '''    match feed.len() {
        0 => {}
        n @ 1..=15 => unsafe {
            buf.reserve(n * 6);
            let end = buf.as_mut_ptr().add(buf.len());
            let l = naive::escape_small(feed, end);
            buf.advance(l);
        },
        _ => unsafe {
            let fun: fn(&str, &mut Buffer) = core::mem::transmute(FN.load(Ordering::Relaxed));
            fun(feed, buf);
        },
    }'''))

ref('esc-sse2-for-short', ESC + ['C08'],
    (E, '''        if len < VECTOR_BYTES {
            escape_small(feed, buffer);
            return;
        }
''', '''        if len < VECTOR_BYTES {
            return super::sse2::escape(feed, buffer);
        }
'''),
    (E, '''    #[inline]
    unsafe fn escape_small(feed: &str, buffer: &mut Buffer) {''', '''    #[inline]
    #[allow(dead_code)]
    unsafe fn escape_small(feed: &str, buffer: &mut Buffer) {'''))

ref('esc-str', ['C01', 'C21', 'C20'],
    (E, '''    let mut buf = Buffer::new();
    escape(s, &mut buf);
    buf.into_string()''', '''    let mut buf = Buffer::with_capacity(s.len());
    escape(s, &mut buf);
    buf.into_string()'''))

# ------------------------------------------------------------------ render
ref('ren-char', REN,
    (R, '''        match self {
            '"' => buffer.push_str("&quot;"),
            '&' => buffer.push_str("&amp;"),
            '\\'' => buffer.push_str("&#39;"),
            '<' => buffer.push_str("&lt;"),
            '>' => buffer.push_str("&gt;"),
            v => buffer.push(v),
        }''', '''        let entity = match self {
            '"' => "&quot;",
            '&' => "&amp;",
            '\\'' => "&#39;",
            '<' => "&lt;",
            '>' => "&gt;",
            v => {
                buffer.push(v);
                return;
            }
        };
        buffer.push_str(entity);'''),
    (R, '''        buffer.push_str(if self { "true" } else { "false" });''', '''        match self {
            true => buffer.push_str("true"),
            false => buffer.push_str("false"),
        }'''))

ref('ren-char-escape', REN,
    (R, '''        match self {
            '"' => buffer.push_str("&quot;"),
            '&' => buffer.push_str("&amp;"),
            '\\'' => buffer.push_str("&#39;"),
            '<' => buffer.push_str("&lt;"),
            '>' => buffer.push_str("&gt;"),
            v => buffer.push(v),
        }''', '''        let mut bytes = [0; 4];
        escape(self.encode_utf8(&mut bytes), buffer);'''))

ref('ren-char-table', REN,
    (R, '''        match self {
            '"' => buffer.push_str("&quot;"),
            '&' => buffer.push_str("&amp;"),
            '\\'' => buffer.push_str("&#39;"),
            '<' => buffer.push_str("&lt;"),
            '>' => buffer.push_str("&gt;"),
            v => buffer.push(v),
        }''', '''        const ENTITIES: [(char, &str); 5] = [
            ('"', "&quot;"),
            ('&', "&amp;"),
            ('\\'', "&#39;"),
            ('<', "&lt;"),
            ('>', "&gt;"),
        ];

        for (c, entity) in ENTITIES.iter() {
            if *c == self {
                return buffer.push_str(entity);
            }
        }
        buffer.push(self)'''))

ref('ren-float', REN,
    (R, '''                if self.is_finite() {
                    unsafe {
                        buffer.reserve_small($min);
                        let ptr = buffer.as_mut_ptr().add(buffer.len());
                        let l = $fn(self, ptr);
                        buffer.advance(l);
                    }
                } else if self.is_nan() {
                    buffer.push_str("NaN");
                } else if self > 0.0 {
                    buffer.push_str("inf");
                } else {
                    buffer.push_str("-inf");
                }''', '''                if self.is_nan() {
                    return buffer.push_str("NaN");
                }

                if self.is_infinite() {
                    return buffer.push_str(if self.is_sign_negative() { "-inf" } else { "inf" });
                }

                buffer.reserve($min);
                unsafe {
                    let l = $fn(self, buffer.as_mut_ptr().add(buffer.len()));
                    buffer.advance(l);
                }'''))

ref('ren-float-match', REN,
    (R, '''                } else if self.is_nan() {
                    buffer.push_str("NaN");
                } else if self > 0.0 {
                    buffer.push_str("inf");
                } else {
                    buffer.push_str("-inf");
                }''', '''                } else {
                    buffer.push_str(match self.partial_cmp(&0.0) {
                        None => "NaN",
                        Some(core::cmp::Ordering::Greater) => "inf",
                        Some(_) => "-inf",
                    });
                }'''))

ref('ren-float-buffer', REN,
    (R, '''                    unsafe {
                        buffer.reserve_small($min);
                        let ptr = buffer.as_mut_ptr().add(buffer.len());
                        let l = $fn(self, ptr);
                        buffer.advance(l);
                    }''', '''                    buffer.push_str(ryu::Buffer::new().format_finite(self));'''),
    (R, '''                use ryu::raw::$fn;

''', ''))

ref('ren-int', REN,
    (R, '''                unsafe {
                    buffer.reserve_small(Self::MAX_LEN);
                    let ptr = buffer.as_mut_ptr().add(buffer.len());

                    // SAFETY: `MAX_LEN` is always greater than zero, so
                    // `b.as_mut_ptr()` always point to valid block of memory
                    let l = itoap::write_to_ptr(ptr, self);
                    buffer.advance(l);
                }''', '''                buffer.reserve(<$type>::MAX_LEN);
                let used = buffer.len();
                unsafe {
                    let written = itoap::write_to_ptr(buffer.as_mut_ptr().add(used), self);
                    buffer._set_len(used + written);
                }'''))

ref('ren-int-stack', REN,
    (R, """                unsafe {
                    buffer.reserve_small(Self::MAX_LEN);
                    let ptr = buffer.as_mut_ptr().add(buffer.len());

                    // SAFETY: `MAX_LEN` is always greater than zero, so
                    // `b.as_mut_ptr()` always point to valid block of memory
                    let l = itoap::write_to_ptr(ptr, self);
                    buffer.advance(l);
                }""", """                let mut digits = [core::mem::MaybeUninit::<u8>::uninit(); 40];
                let first = digits.as_mut_ptr() as *mut u8;
                unsafe {
                    let l = itoap::write_to_ptr(first, self);
                    let text = core::slice::from_raw_parts(first, l);
                    buffer.push_str(core::str::from_utf8_unchecked(text));
                }
                let _ = Self::MAX_LEN;"""))

ref('ren-option', REN + ['C13'],
    (R, '''        if let Some(value) = self {
            value.render(buffer);
        }''', '''        match self {
            None => (),
            Some(value) => value.render(buffer),
        }'''))

ref('ren-option-map', REN + ['C13'],
    (R, '''        if let Some(value) = self {
            value.render(buffer);
        }''', '''        self.map(|value| value.render(buffer)).unwrap_or(())'''))

ref('ren-args', REN,
    (R, '''        struct EscapingBufferWriter<'a>(&'a mut Buffer);

        impl<'a> Write for EscapingBufferWriter<'a> {
            fn write_str(&mut self, s: &str) -> core::fmt::Result {
                Ok(s.render(self.0))
            }

            fn write_char(&mut self, c: char) -> core::fmt::Result {
                Ok(c.render(self.0))
            }
        }

        core::fmt::write(&mut EscapingBufferWriter(buffer), self).unwrap();''',
     '''        struct Escaping<'a> {
            inner: &'a mut Buffer,
        }

        impl<'a> Write for Escaping<'a> {
            fn write_str(&mut self, s: &str) -> core::fmt::Result {
                escape(s, self.inner);
                Ok(())
            }
        }

        let mut out = Escaping { inner: buffer };
        out.write_fmt(self).unwrap();'''))

# ------------------------------------------------------------------ helpers
ref('hlp-iter', ['C17', 'C12', 'C03', 'C21', 'C20'],
    (H, '''        for item in self.0 {
            item.render(buf);
        }''', '''        self.0.into_iter().for_each(|item| item.render(buf));'''),
    (H, '''        if let Some(item) = iter.next() {
            item.render(buf);

            for item in iter {
                buf.push_str(del);
                item.render(buf);
            }
        }''', '''        let mut first = true;

        while let Some(item) = iter.next() {
            if !first {
                buf.push_str(del);
            }
            first = false;
            item.render(buf);
        }'''))

ref('hlp-iter2', ['C17', 'C12', 'C03', 'C21', 'C20'],
    (H, '''        for item in self.0 {
            item.render(buf);
        }''', '''        let mut iter = self.0.into_iter();
        loop {
            match iter.next() {
                Some(item) => item.render(buf),
                None => break,
            }
        }'''),
    (H, '''        let mut iter = self.0.into_iter();
        let del = self.1.as_ref();

        if let Some(item) = iter.next() {
            item.render(buf);

            for item in iter {
                buf.push_str(del);
                item.render(buf);
            }
        }''', '''        let Self(items, delimiter) = self;

        for (i, item) in items.into_iter().enumerate() {
            if i > 0 {
                buf.push_str(delimiter.as_ref());
            }
            item.render(buf);
        }'''))

ref('hlp-iter3', ['C17', 'C12', 'C03', 'C21', 'C20'],
    (H, '''        for item in self.0 {
            item.render(buf);
        }''', '''        self.0.into_iter().fold((), |_, item| item.render(buf));'''),
    (H, '''        if let Some(item) = iter.next() {
            item.render(buf);

            for item in iter {
                buf.push_str(del);
                item.render(buf);
            }
        }''', '''        let mut sep = "";

        for item in &mut iter {
            buf.push_str(sep);
            item.render(buf);
            sep = del;
        }'''))

ref('hlp-render', ['C23', 'C12', 'C03', 'C21', 'C20'],
    (H, '''        let mut buf = $crate::internal::Buffer::with_capacity(16384);
        $crate::Render::render($expr, &mut buf);
        buf.into_string()''', '''        let mut out = $crate::internal::Buffer::new();
        out.reserve(16384);
        let value = $expr;
        $crate::Render::render(value, &mut out);
        out.into_string()'''))

ref('hlp-render2', ['C23', 'C12', 'C03', 'C20'],
    (H, '''        let frag = $crate::frag!($($expr),*);
        $crate::render!(frag)''', '''        $crate::render!($crate::frag!($($expr),*))'''))

ref('hlp-display', ['C03', 'C21', 'C20', 'C18'],
    (H, '''        format_args!("{}", self.0).render(buf)''', '''        let Self(value) = self;
        Render::render(format_args!("{}", value), buf);'''),
    (H, '''        buf.push_str(self.0.as_ref());''', '''        let s: &str = self.0.as_ref();
        buf.push_str(s);'''),
    (D, '''                buf.push_str("<!DOCTYPE html>");''', '''                let text = "<!DOCTYPE html>";
                buf.push_str(text);'''))

# ------------------------------------------------------------------ macros
ref('mac-getelement', MAC + ['C19'],
    (ML, '''    let tag = tag.as_ref();

    if KNOWN_NORMAL_TAGS.contains(&tag) {
        return Some(Element::normal(tag));
    }

    if KNOWN_VOID_TAGS.contains(&tag) {
        return Some(Element::void(tag));
    }

    if tag == "frag" {
        return Some(Element::frag());
    }

    if tag == "classes" {
        return Some(Element::frag_with_delimiter(' '));
    }

    None''', '''    match tag.as_ref() {
        "frag" => Some(Element::frag()),
        "classes" => Some(Element::frag_with_delimiter(' ')),
        tag if KNOWN_VOID_TAGS.iter().any(|known| *known == tag) => Some(Element::void(tag)),
        tag => KNOWN_NORMAL_TAGS
            .iter()
            .find(|known| **known == tag)
            .map(|known| Element::normal(known)),
    }'''))

ref('mac-binsearch', MAC + ['C19'],
    (ML, '    if KNOWN_NORMAL_TAGS.contains(&tag) {', '    if KNOWN_NORMAL_TAGS.binary_search(&tag).is_ok() {'),
    (ML, '    if KNOWN_VOID_TAGS.contains(&tag) {', '    if KNOWN_VOID_TAGS.binary_search(&tag).is_ok() {'))

ref('mac-noflatten', ['C13', 'C09', 'C12', 'C03'],
    (MB, '''                        if let Some(element) = get_element(ident.to_string()) {
                            // flatten nested markup
                            build_inner(element, expr.mac.tokens.clone(), node)?;
                            continue;
                        }''', '''                        match get_element(ident.to_string()) {
                            // flatten nested markup
                            Some(element) if !element.void => {
                                build_inner(element, expr.mac.tokens.clone(), node)?;
                                continue;
                            }
                            _ => {}
                        }'''))

ref('mac-children', MAC + ['C19'],
    (MB, '''        let mut separate = false;

        for child in children {
            if separate {
                node.render.push_str(&element.delimiter);
            } else {
                separate = true;
            }
''', '''        for (i, child) in children.into_iter().enumerate() {
            if i != 0 && !element.delimiter.is_empty() {
                node.render.push_str(&element.delimiter);
            }
'''),
    (MB, '''    let mut attrs = Vec::new();
    let mut children = Vec::new();

    for expr in args {
        if let Expr::Assign(expr) = expr {
            attrs.push(expr);
        } else {
            children.push(expr);
        }
    }
''', '''    let (mut attrs, mut children) = (Vec::new(), Vec::new());

    args.into_iter().for_each(|expr| match expr {
        Expr::Assign(assign) => attrs.push(assign),
        other => children.push(other),
    });
'''))

ref('mac-attrhelper', MAC,
    (MB, '''    if let Some(value) = try_unwrap_literal(&left)
        .and_then(try_render_literal)
        .or_else(|| try_unwrap_ident(&left).map(ident_name))
    {
        node.render.push_str(value);
    } else {
        let value = node.store_generic(quote!(#left), quote!(::laby::Render));
        node.render
            .push_expr(quote!(::laby::Render::render(#value, buffer)));
    }

    node.render.push_str("=\\"");

    if let Some(value) = try_unwrap_literal(&right).and_then(try_render_literal) {
        node.render.push_str(value);
    } else {
        let value = node.store_generic(quote!(#right), quote!(::laby::Render));
        node.render
            .push_expr(quote!(::laby::Render::render(#value, buffer)));
    }

    node.render.push_str("\\"");
    Ok(())''', '''    match static_name(&left) {
        Some(name) => node.render.push_str(name),
        None => dynamic(&left, node),
    }

    node.render.push_str("=");
    node.render.push_str("\\"");
    set_child(*right, node)?;
    node.render.push_str("\\"");
    Ok(())'''),
    (MB, '''fn set_attr(assign''', '''fn static_name(expr: &Expr) -> Option<String> {
    match try_unwrap_ident(expr) {
        Some(ident) => Some(ident_name(ident)),
        None => try_unwrap_literal(expr).and_then(try_render_literal),
    }
}

fn dynamic(expr: &Expr, node: &mut Node) {
    let field = node.store_generic(quote!(#expr), quote!(::laby::Render));
    node.render
        .push_expr(quote!(::laby::Render::render(#field, buffer)));
}

fn set_attr(assign'''))

ref('mac-names', MAC + ['C15', 'C24'],
    (MN, 'let name = format_ident!("t{}", id);\n        let ty', 'let name = format_ident!("field_{}", id);\n        let ty'),
    (MN, 'format_ident!("T{}", id)', 'format_ident!("Ty{}", id)'),
    (MN, 'let name = format_ident!("t{}", id);', 'let name = format_ident!("field_{}", id);'),
    (MN, 'format_ident!("_{}", element.tag)', 'format_ident!("_Laby_{}", element.tag)'))

ref('mac-selffield', MAC + ['C21'],
    (MN, "        self.render.stmts.push(quote!(let #name = self.#name));\n\n        self.ctor", "        self.render.stmts.push(quote!(let #name = { self.#name }));\n\n        self.ctor"),
    (MN, '#[inline]\n                fn render', '#[inline(always)]\n                fn render'))

ref('mac-pushchar', MAC + ['C21'],
    (MN, '''            let literal = Literal::string(&self.buffer);

            self.stmts.push(quote!(buffer.push_str(#literal)));
            self.buffer.clear();''', '''            let text = std::mem::take(&mut self.buffer);
            let literal = Literal::string(&text);
            self.stmts.push(quote!(::laby::internal::Buffer::push_str(buffer, #literal)));'''))

ref('mac-matchhelper', ['C16', 'C12'],
    (MM, '''    for arm in expr.arms.iter_mut() {
        let name = format_ident!("__variant_{}", decls.len() + 1);
        let ref body = arm.body;

        decls.push(quote!(let mut #name = ::core::option::Option::None));
        arm.body = Box::new(parse_quote!(#name = ::core::option::Option::Some(#body)));
        vars.push(name);
    }''', '''    for (i, arm) in expr.arms.iter_mut().enumerate() {
        let name = format_ident!("__laby_arm_{}", i);
        let body = &arm.body;
        let some = quote!({ #name = ::core::option::Option::Some(#body); });

        decls.push(quote!(let mut #name = ::core::option::Option::None));
        arm.body = Box::new(syn::parse2(some)?);
        vars.push(name);
    }'''))

ref('mac-matchlate', ['C16', 'C12'],
    (MM, '''        decls.push(quote!(let mut #name = ::core::option::Option::None));
        arm.body''', '''        decls.push(quote!(let mut #name: ::core::option::Option<_> = ::core::option::Option::None));
        arm.body'''),
    (MM, '''pub fn generate_frag_match(stream: TokenStream) -> syn::Result<TokenStream> {
    generate_from_if(stream.clone()).or_else(|_| generate_from_match(stream))
}''', '''pub fn generate_frag_match(stream: TokenStream) -> syn::Result<TokenStream> {
    match stream.clone().into_iter().next() {
        Some(proc_macro2::TokenTree::Ident(ident)) if ident == "if" => generate_from_if(stream),
        _ => generate_from_match(stream),
    }
}'''))

ref('mac-component-vec', ['C15', 'C12', 'C19'],
    (MC, 'use std::collections::HashMap;', 'use std::collections::BTreeMap;'),
    (MC, 'HashMap::new()', 'BTreeMap::new()'),
    (MC, '''        let NamedParam { arg, default, .. } = params.remove(&name.to_string()).unwrap();

        match arg.as_ref().map(ToTokens::to_token_stream).or(default) {
            Some(value) => {
                func_args.push(value);
            }

            _ => {
                return Err(syn::Error::new(
                    Span::call_site(),
                    format!("missing parameter: {}", name),
                ));
            }
        }''', '''        let param = params.remove(&name.to_string()).unwrap();
        let value = match (param.arg, param.default) {
            (Some(arg), _) => arg.into_token_stream(),
            (None, Some(default)) => default,
            (None, None) => {
                let message = format!("missing parameter: {}", name);
                return Err(syn::Error::new(Span::call_site(), message));
            }
        };
        func_args.push(value);'''))

ref('mac-component-pop', ['C15', 'C12', 'C19'],
    (MC, '''    for i in 0..attrs.len() {
        if {
            let ref attr = attrs[i];
            attr.path.is_ident("default") && matches!(attr.style, AttrStyle::Outer)
        } {
            let attr = attrs.remove(i);

            return if attr.tokens.is_empty() {
                Ok(Some(quote!(::core::default::Default::default())))
            } else {
                Ok(Some(attr.tokens))
            };
        }
    }

    Ok(None)''', '''    Ok(pop_attr(attrs, "default", quote!(::core::default::Default::default())))'''),
    (MC, '''    for i in 0..attrs.len() {
        if {
            let ref attr = attrs[i];
            attr.path.is_ident("rest") && matches!(attr.style, AttrStyle::Outer)
        } {
            let attr = attrs.remove(i);

            return if attr.tokens.is_empty() {
                Ok(Some(quote!(::laby::frag!)))
            } else {
                Ok(Some(attr.tokens))
            };
        }
    }

    Ok(None)''', '''    Ok(pop_attr(attrs, "rest", quote!(::laby::frag!)))'''),
    (MC, '''fn pop_rest_attr''', '''fn pop_attr(attrs: &mut Vec<Attribute>, name: &str, empty: TokenStream) -> Option<TokenStream> {
    let found = attrs
        .iter()
        .position(|attr| attr.path.is_ident(name) && matches!(attr.style, AttrStyle::Outer))?;
    let attr = attrs.remove(found);

    Some(if attr.tokens.is_empty() { empty } else { attr.tokens })
}

fn pop_rest_attr'''))

ref('mac-literal', ['C14', 'C03', 'C10', 'C11'],
    (MB, '''    macro_rules! render {
        ($expr:expr) => {{
            let mut buffer = Buffer::new();
            Render::render($expr, &mut buffer);
            buffer.into_string()
        }};
    }
''', '''    fn to_html(value: impl Render) -> String {
        let mut buffer = Buffer::with_capacity(64);
        value.render(&mut buffer);
        buffer.into_string()
    }

    macro_rules! render {
        ($expr:expr) => {
            to_html($expr)
        };
    }
'''))

ref('mac-boolean', ['C11', 'C12', 'C13'],
    (MB, '''            node.render.push_expr(quote!(
                if #enabled {
                    buffer.push(' ');
                    ::laby::Render::render(#value, buffer);
                }
            ));''', '''            node.render.push_expr(quote!(
                match #enabled {
                    true => {
                        buffer.push_str(" ");
                        ::laby::Render::render(#value, buffer);
                    }
                    false => {}
                }
            ));'''),
    (MB, '''            let value = Literal::string(&format!(" {}", value));
            node.render.push_expr(quote!(
                if #enabled {
                    buffer.push_str(#value);
                }
            ));''', '''            let value = Literal::string(&value);
            node.render.push_expr(quote!(
                if #enabled {
                    buffer.push(' ');
                    buffer.push_str(#value);
                }
            ));'''))

ref('mac-generics', MAC + ['C21'],
    (MN, '''            impl<#generics_bound> ::laby::Render for #ident<#generics> {''',
     '''            impl<#generics> ::laby::Render for #ident<#generics>
            where
                #generics_bound
            {'''))

ref('mac-destructure', MAC + ['C21'],
    (MB, '''            match child {
                Expr::Macro(ref expr) => {
                    if let Some(ident) = expr.mac.path.get_ident() {
                        if let Some(element) = get_element(ident.to_string()) {
                            // flatten nested markup
                            build_inner(element, expr.mac.tokens.clone(), node)?;
                            continue;
                        }
                    }
                }

                _ => {}
            };

            set_child(child, node)?;''', '''            match nested_markup(&child) {
                Some((element, tokens)) => build_inner(element, tokens, node)?,
                None => set_child(child, node)?,
            }'''),
    (MB, '''fn try_unwrap_literal''', '''fn nested_markup(expr: &Expr) -> Option<(Element, TokenStream)> {
    if let Expr::Macro(expr) = expr {
        let element = get_element(expr.mac.path.get_ident()?.to_string())?;
        Some((element, expr.mac.tokens.clone()))
    } else {
        None
    }
}

fn try_unwrap_literal'''))


import refactors2
refactors2.add(ref, BUF, ESC, REN, MAC)


def make(name):
    props, edits = REF[name]
    d = tempfile.mkdtemp(prefix='rf-%s-' % name, dir='/tmp')
    subprocess.check_call('git -C /repo archive HEAD | tar x -C %s' % d, shell=True)
    for f, old, new in edits:
        p = os.path.join(d, f)
        s = open(p).read()
        if old not in s:
            raise SystemExit('%s: text not found in %s: %r' % (name, f, old[:80]))
        open(p, 'w').write(s.replace(old, new, 1))
    return d


def run(name, props=None):
    d = make(name)
    out = []
    try:
        if os.environ.get('BUILD'):
            r = subprocess.run(['cargo', '+stable', 'test', '--offline', '--workspace', '--target-dir', d + '/target', '-q'],
                               cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            bad = sorted(set(l.strip() for l in r.stdout.splitlines()
                             if ' - ' in l and '(line ' in l and 'stdout' not in l or l.startswith('error[')))
            ok = all(b.startswith('error[E0554]') or 'laby (line 648)' in b or 'frag_match (line 737)' in b for b in bad)
            out.append('%s tests %s %s' % (name, 'as at baseline' if ok else 'DIFFER', '' if ok else bad))
        for p in props or REF[name][0]:
            t = time.time()
            env = dict(os.environ, LABY_REPO=d, SA_DEBUG='1')
            here = os.path.dirname(os.path.abspath(__file__))
            cmd = [here + '/../check.py', p] if p[0] == 'C' else [here + '/parts.py', p]
            try:
                r = subprocess.run(['python3'] + cmd,
                                   env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
                rc, o = r.returncode, r.stdout
            except subprocess.TimeoutExpired as e:
                rc, o = 'TIMEOUT', ''
            o = '' if rc == 0 and ((', 0 open' in o) if p[0] == 'C' else ' 0 findings, 0 undecided' in o) else o[:int(os.environ.get('N', 400))].replace('\n', '~')
            line = '%s %s rc=%s %ds %s' % (name, p, rc, time.time() - t, o)
            print(line, flush=True)
            out.append(line)
    finally:
        if not os.environ.get('KEEP'):
            shutil.rmtree(d, ignore_errors=True)
    return out


if __name__ == '__main__':
    a = sys.argv[1:]
    names = list(REF) if not a or a[0] == 'all' else a[0].split(',')
    for n in names:
        d = make(n)
        shutil.rmtree(d)
    with ThreadPoolExecutor(int(os.environ.get('J', '4'))) as ex:
        for o in ex.map(lambda n: run(n, a[1:]), names):
            for l in o:
                if ' tests ' in l:
                    print(l)
