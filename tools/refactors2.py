"""A second table of behaviour-preserving edits (see refactors.py)."""

B = 'laby_common/src/internal/buffer.rs'
E = 'laby_common/src/internal/escape.rs'
R = 'laby_common/src/render.rs'
H = 'laby/src/helpers.rs'


def add(ref, BUF, ESC, REN, MAC):
    # ------------------------------------------------------------- buffer
    ref('buf-slicecopy', BUF,
        (B, '''            let p = self.data.add(self.len);
            core::ptr::copy_nonoverlapping(data.as_ptr(), p, size);
            self.len += size;
        }
        debug_assert!(self.len <= self.capacity);''', '''            self.append(data.as_ptr(), size);
        }'''),
        (B, '''    #[inline]
    fn reserve_internal(''', '''    /// # Safety
    ///
    /// At least `size` bytes must have been reserved.
    #[inline]
    unsafe fn append(&mut self, src: *const u8, size: usize) {
        debug_assert!(size <= self.capacity - self.len);
        self.data.add(self.len).copy_from_nonoverlapping(src, size);
        self.len += size;
    }

    #[inline]
    fn reserve_internal('''),
        (B, '''                ptr::copy_nonoverlapping(other.as_ptr(), buf.as_mut_ptr(), other.len());
                buf.advance(other.len());''', '''                buf.append(other.as_ptr(), other.len());'''))

    ref('buf-layout-checked', BUF,
        (B, '''    unsafe {
        let layout = Layout::from_size_align_unchecked(capacity, 1);
        let data = alloc(layout);
        if data.is_null() {
            handle_alloc_error(layout);
        }

        data
    }''', '''    let layout = Layout::from_size_align(capacity, 1).expect("capacity is too large");
    let data = unsafe { alloc(layout) };
    match data.is_null() {
        true => handle_alloc_error(layout),
        false => data,
    }'''))

    ref('buf-realloc-split', BUF + ['C06'],
        (B, '''    let data = if capacity == 0 {
        let new_layout = Layout::from_size_align_unchecked(new_capacity, 1);
        alloc(new_layout)
    } else {
        let old_layout = Layout::from_size_align_unchecked(capacity, 1);
        realloc(ptr, old_layout, new_capacity)
    };
''', '''    if capacity == 0 {
        return safe_alloc(new_capacity);
    }

    let data = realloc(ptr, Layout::from_size_align_unchecked(capacity, 1), new_capacity);
'''))

    ref('buf-checkedadd', BUF + ['C06', 'C21'],
        (B, '''        if size <= self.capacity - self.len {
            return;
        }

        self.reserve_internal(size);
    }''', '''        match self.len.checked_add(size) {
            Some(needed) if needed <= self.capacity => {}
            _ => self.reserve_internal(size),
        }
    }'''))

    ref('buf-saturating', BUF + ['C06', 'C21'],
        (B, 'let new_capacity = core::cmp::max(self.capacity * 2, required);',
         'let new_capacity = self.capacity.saturating_mul(2).max(required);'))

    ref('buf-double', BUF + ['C06', 'C21'],
        (B, '''        let new_capacity = core::cmp::max(self.capacity * 2, required);
''', '''        let doubled = self.capacity * 2;
        let new_capacity = if doubled < required { required } else { doubled };
'''))

    ref('buf-boxraw', BUF,
        (B, '''        let bs = other.into_boxed_str();
        let data = Box::leak(bs);
        Buffer {
            data: data.as_mut_ptr(),
            len: data.len(),
            capacity: data.len(),
        }''', '''        let len = other.len();
        let data = Box::into_raw(other.into_boxed_str()) as *mut u8;
        Self { data, len, capacity: len }'''))

    ref('buf-intostring', BUF + ['C21'],
        (B, '''        let buf = ManuallyDrop::new(self);

''', '''        let (data, len, capacity) = (self.data, self.len, self.capacity);
        core::mem::forget(self);

'''),
        (B, 'unsafe { String::from_raw_parts(buf.data, buf.len, buf.capacity) }',
         'unsafe { String::from_raw_parts(data, len, capacity) }'),
        (B, 'mem::{align_of, ManuallyDrop}', 'mem::align_of'))

    ref('buf-withcap', BUF + ['C21'],
        (B, '''        if n == 0 {
            Self::new()
        } else {
            Self {
                data: safe_alloc(n),
                len: 0,
                capacity: n,
            }
        }''', '''        let mut buf = Self::new();
        if n > 0 {
            buf.data = safe_alloc(n);
            buf.capacity = n;
        }
        buf'''))

    ref('buf-withcap-reserve', BUF + ['C21'],
        (B, '''        if n == 0 {
            Self::new()
        } else {
            Self {
                data: safe_alloc(n),
                len: 0,
                capacity: n,
            }
        }''', '''        let mut buf = Self::new();
        buf.reserve(n);
        buf'''))

    ref('buf-clone-vec', BUF,
        (B, '''        unsafe {
            if self.is_empty() {
                Self::new()
            } else {
                let buf = Self {
                    data: safe_alloc(self.len),
                    len: self.len,
                    capacity: self.len,
                };

                ptr::copy_nonoverlapping(self.data, buf.data, self.len);
                buf
            }
        }''', '''        let mut buf = Self::with_capacity(self.len);
        buf += self.as_str();
        buf'''))

    ref('buf-write', BUF + ['C03'],
        (B, '''        Buffer::push_str(self, s);
        Ok(())
    }''', '''        *self += s;
        Ok(())
    }

    #[inline]
    fn write_char(&mut self, c: char) -> fmt::Result {
        self.push(c);
        Ok(())
    }'''))

    ref('buf-push-ascii', BUF + ['C03'],
        (B, '''        unsafe {
            self.reserve_small(4);
            let bp = self.data.add(self.len) as *mut [u8; 4];
            let result = data.encode_utf8(&mut *bp);
            self.len += result.len();
        }''', '''        if data.is_ascii() {
            self.reserve(1);
            unsafe {
                self.data.add(self.len).write(data as u8);
                self.advance(1);
            }
        } else {
            let mut bytes = [0u8; 4];
            self.push_str(data.encode_utf8(&mut bytes));
        }'''))

    ref('buf-grow-to', BUF + ['C06', 'C21'],
        (B, '''        self.data = unsafe { safe_realloc(self.data, self.capacity, new_capacity) };
        self.capacity = new_capacity;

        debug_assert!(!self.data.is_null());
        debug_assert!(self.len <= self.capacity);
    }''', '''        self.resize_block(new_capacity);

        debug_assert!(!self.data.is_null());
        debug_assert!(self.len <= self.capacity);
    }

    fn resize_block(&mut self, capacity: usize) {
        // SAFETY: `self.capacity` is the size of the current block
        self.data = unsafe { safe_realloc(self.data, self.capacity, capacity) };
        self.capacity = capacity;
    }'''))

    # ------------------------------------------------------------- escaper
    MASK2 = '''            while mask != 0 {
                let trailing_zeros = mask.trailing_zeros() as usize;
                mask ^= 1 << trailing_zeros;
                let ptr2 = ptr.add(trailing_zeros);
                let c = ESCAPE_LUT[*ptr2 as usize] as usize;
                if c < ESCAPED_LEN {
                    if start_ptr < ptr2 {
                        let slc =
                            slice::from_raw_parts(start_ptr, ptr2 as usize - start_ptr as usize);
                        buffer.push_str(core::str::from_utf8_unchecked(slc));
                    }
                    push_escaped_str(*ESCAPED.get_unchecked(c), buffer);
                    start_ptr = ptr2.add(1);
                }
            }
'''
    HELPER = '''    /// Escapes the flagged bytes after `base`, having appended everything before `start_ptr`.
    #[inline]
    pub unsafe fn escape_mask(
        mut mask: u32,
        base: *const u8,
        start_ptr: &mut *const u8,
        buffer: &mut Buffer,
    ) {
        while mask != 0 {
            let ptr = base.add(mask.trailing_zeros() as usize);
            mask &= mask - 1;
            let c = ESCAPE_LUT[*ptr as usize] as usize;
            if c >= ESCAPED_LEN {
                continue;
            }
            push_range(*start_ptr, ptr, buffer);
            push_escaped_str(ESCAPED[c], buffer);
            *start_ptr = ptr.add(1);
        }
    }

    #[inline]
    pub unsafe fn push_range(start_ptr: *const u8, end_ptr: *const u8, buffer: &mut Buffer) {
        if start_ptr < end_ptr {
            let slc = slice::from_raw_parts(start_ptr, end_ptr as usize - start_ptr as usize);
            buffer.push_str(core::str::from_utf8_unchecked(slc));
        }
    }

    #[inline]
    pub unsafe fn escape(
'''
    ref('esc-maskhelper', ESC,
        *[(E, MASK2, '            naive::escape_mask(mask as u32, ptr, &mut start_ptr, buffer);\n')] * 5,
        *[(E, 'let mut mask = maskgen(_mm', 'let mask = maskgen(_mm')] * 2,
        (E, 'let mut mask = maskgen(_mm_loadu_si128(read_ptr', 'let mask = maskgen(_mm_loadu_si128(read_ptr'),
        (E, '        let mut mask = maskgen(_mm_loadu_si128(ptr as *const __m128i));\n            naive', '        let mask = maskgen(_mm_loadu_si128(ptr as *const __m128i));\n            naive'),
        (E, 'let mut mask = maskgen(_mm_loadu_si128(read_ptr', 'let mask = maskgen(_mm_loadu_si128(read_ptr'),
        (E, '    #[inline]\n    pub unsafe fn escape(\n', HELPER))

    TAIL = '''        if end_ptr > start_ptr {
            let slc = slice::from_raw_parts(start_ptr, end_ptr as usize - start_ptr as usize);
            buffer.push_str(core::str::from_utf8_unchecked(slc));
        }
'''
    ref('esc-tailhelper', ESC,
        *[(E, TAIL, '        super::push_between(buffer, start_ptr, end_ptr);\n')] * 4,
        (E, 'mod fallback {', '''#[inline]
unsafe fn push_between(buffer: &mut Buffer, start: *const u8, end: *const u8) {
    let len = (end as usize).saturating_sub(start as usize);
    if len == 0 {
        return;
    }
    let rest = core::slice::from_raw_parts(start, len);
    buffer.push_str(core::str::from_utf8_unchecked(rest));
}

mod fallback {'''))

    ref('esc-lutfn', ESC,
        (E, 'static ESCAPE_LUT: [u8; 256] = [\n', '''static ESCAPE_LUT: [u8; 256] = lut();

const fn lut() -> [u8; 256] {
    let mut table = [ESCAPED_LEN as u8 + 4; 256];
    table[b'"' as usize] = 0;
    table[b'&' as usize] = 1;
    table[b'\\'' as usize] = 2;
    table[b'<' as usize] = 3;
    table[b'>' as usize] = 4;
    table
}

#[cfg(any())]
static OLD_LUT: [u8; 256] = [
'''))

    ref('esc-lutmatch', ESC,
        (E, 'use super::buffer::Buffer;', '''/// The index in [`ESCAPED`] of the entity for a byte, or a larger number.
#[inline]
fn entity(byte: u8) -> usize {
    match byte {
        b'"' => 0,
        b'&' => 1,
        b'\\'' => 2,
        b'<' => 3,
        b'>' => 4,
        _ => ESCAPED_LEN,
    }
}

use super::buffer::Buffer;'''),
        (E, 'let idx = ESCAPE_LUT[*ptr as usize] as usize;', 'let idx = entity(*ptr);'),
        (E, 'let idx = *ESCAPE_LUT.get_unchecked(*ptr as usize) as usize;', 'let idx = entity(*ptr);'),
        *[(E, 'let c = ESCAPE_LUT[*ptr2 as usize] as usize;', 'let c = entity(*ptr2);')] * 6)

    SHORT = '''            buf.reserve_small(feed.len() * 6);
            let l = naive::escape_small(feed, buf.as_mut_ptr().add(buf.len()));
            buf.advance(l);
'''
    ref('esc-shorthelper', ESC,
        *[(E, SHORT, '            escape_short(feed, buf);\n')] * 2,
        (E, 'mod fallback {', '''/// Escapes fewer than 16 bytes.
#[inline]
unsafe fn escape_short(feed: &str, buf: &mut Buffer) {
    const MAX_ENTITY: usize = 6;
    buf.reserve(feed.len() * MAX_ENTITY);
    let dst = buf.as_mut_ptr().add(buf.len());
    let written = naive::escape_small(feed, dst);
    buf._set_len(buf.len() + written);
}

mod fallback {'''))

    ref('esc-offsets', ESC,
        (E, '''        let mut start_ptr = feed.as_ptr();
        let mut ptr = start_ptr;
        let end_ptr = feed[len..].as_ptr();

        let v_independent1 = _mm_set1_epi8(5);''', '''        let mut start_ptr = feed.as_ptr();
        let mut ptr = start_ptr;
        let end_ptr = start_ptr.add(len);
        let vectors = len / VECTOR_BYTES;

        let v_independent1 = _mm_set1_epi8(5);'''),
        (E, '''        while ptr <= end_ptr.sub(VECTOR_BYTES) {
            let mut mask = maskgen(_mm_loadu_si128(ptr as *const __m128i));''', '''        for _ in 0..vectors {
            let mut mask = maskgen(_mm_loadu_si128(ptr as *const __m128i));'''))

    ref('esc-avx-feature', ESC + ['C08'],
        (E, '    pub unsafe fn escape(feed: &str, buffer: &mut Buffer) {\n        debug_assert!(feed.len() >= 16);\n\n        let len = feed.len();\n        if len < VECTOR',
            '    #[target_feature(enable = "avx2")]\n    pub unsafe fn escape(feed: &str, buffer: &mut Buffer) {\n        debug_assert!(feed.len() >= 16);\n\n        let len = feed.len();\n        if len < VECTOR'),
        (E, '''        let fun = if let Some(features)''', '''        let fun: unsafe fn(&str, &mut Buffer) = if let Some(features)'''),
        (E, 'core::mem::transmute::<FnRaw, fn(&str, &mut Buffer)>', 'core::mem::transmute::<FnRaw, unsafe fn(&str, &mut Buffer)>'))

    ref('esc-once', ESC + ['C08', 'C24'],
        (E, 'Ordering::Relaxed', 'Ordering::SeqCst'), (E, 'Ordering::Relaxed', 'Ordering::SeqCst'),
        (E, '''            let fun = FN.load(Ordering::SeqCst);
            core::mem::transmute::<FnRaw, fn(&str, &mut Buffer)>(fun)(feed, buf);''', '''            let raw = FN.load(Ordering::SeqCst);
            let fun: fn(&str, &mut Buffer) = core::mem::transmute(raw);
            fun(feed, buf)'''))

    ref('esc-strpush', ESC,
        (E, '    escape(s, &mut buf);\n    buf.into_string()', '    escape_impl(s, &mut buf);\n    let out = buf.into_string();\n    out'))

    # ------------------------------------------------------------- render
    ref('ren-bool-table', REN,
        (R, 'buffer.push_str(if self { "true" } else { "false" });',
         'const WORDS: [&str; 2] = ["false", "true"];\n        buffer.push_str(WORDS[self as usize]);'))

    ref('ren-args-write', REN,
        (R, '        core::fmt::write(&mut EscapingBufferWriter(buffer), self).unwrap();',
         '        let mut writer = EscapingBufferWriter(buffer);\n        write!(writer, "{}", self).unwrap();'))

    ref('ren-args-asstr', REN,
        (R, '        core::fmt::write(&mut EscapingBufferWriter(buffer), self).unwrap();',
         '''        if let Some(text) = self.as_str() {
            return escape(text, buffer);
        }

        if core::fmt::write(&mut EscapingBufferWriter(buffer), self).is_err() {
            panic!("a formatting trait implementation returned an error");
        }'''))

    ref('ren-nonzero', REN,
        (R, '''                self.get().render(buffer);''', '''                let value = self.get();
                Render::render(value, buffer)'''))

    ref('ren-float-classify', REN,
        (R, '''                if self.is_finite() {
                    unsafe {
                        buffer.reserve_small($min);
                        let ptr = buffer.as_mut_ptr().add(buffer.len());
                        let l = $fn(self, ptr);
                        buffer.advance(l);
                    }
                } else if self.is_nan() {
                    buffer.push_str("NaN");
                } else if self > 0.0 {
                    buffer.push_str("inf");
                } else {
                    buffer.push_str("-inf");
                }''', '''                match self.classify() {
                    core::num::FpCategory::Nan => buffer.push_str("NaN"),
                    core::num::FpCategory::Infinite => {
                        buffer.push_str(if self < 0.0 { "-inf" } else { "inf" })
                    }
                    _ => unsafe {
                        buffer.reserve_small($min);
                        let len = buffer.len();
                        let l = $fn(self, buffer.as_mut_ptr().add(len));
                        buffer._set_len(len + l);
                    },
                }'''))

    ref('ren-str', REN,
        (R, 'escape(self.as_ref(), buffer);', 'let text: &str = self.as_ref();\n                escape(text, buffer)'))

    ref('ren-char-ascii', REN,
        (R, '''            v => buffer.push(v),
        }''', '''            v if v.is_ascii_alphanumeric() => buffer.push(v),
            v => buffer.push(v),
        }'''))

    ref('ren-char-match-str', REN,
        (R, '''        match self {
            '"' => buffer.push_str("&quot;"),
            '&' => buffer.push_str("&amp;"),
            '\\'' => buffer.push_str("&#39;"),
            '<' => buffer.push_str("&lt;"),
            '>' => buffer.push_str("&gt;"),
            v => buffer.push(v),
        }''', '''        match entity(self) {
            Some(entity) => buffer.push_str(entity),
            None => buffer.push(self),
        }'''),
        (R, 'impl Render for bool', '''fn entity(c: char) -> Option<&'static str> {
    Some(match c {
        '"' => "&quot;",
        '&' => "&amp;",
        '\\'' => "&#39;",
        '<' => "&lt;",
        '>' => "&gt;",
        _ => return None,
    })
}

impl Render for bool'''))

    ref('ren-cow', REN,
        (R, '''        match self {
            Cow::Owned(value) => value.render(buffer),
            Cow::Borrowed(value) => value.render(buffer),
        }''', '''        if let Cow::Borrowed(value) = self {
            return value.render(buffer);
        }

        if let Cow::Owned(value) = self {
            value.render(buffer)
        }'''))

    # ------------------------------------------------------------- helpers
    LOOP = '''        if let Some(item) = iter.next() {
            item.render(buf);

            for item in iter {
                buf.push_str(del);
                item.render(buf);
            }
        }'''
    HLP = ['C17', 'C12', 'C03', 'C21', 'C20', 'C07']
    ref('hlp-peek', HLP,
        (H, 'let mut iter = self.0.into_iter();', 'let mut iter = self.0.into_iter().peekable();'),
        (H, LOOP, '''        while let Some(item) = iter.next() {
            item.render(buf);
            if iter.peek().is_some() {
                buf.push_str(del);
            }
        }'''))

    ref('hlp-iter4', HLP,
        (H, LOOP, '''        match iter.next() {
            None => return,
            Some(first) => first.render(buf),
        }

        while let Some(item) = iter.next() {
            buf.push_str(del);
            Render::render(item, buf);
        }'''))

    ref('hlp-iter-raw', HLP,
        (H, LOOP, '''        let mut rendered = 0usize;
        for item in iter.by_ref() {
            if rendered != 0 {
                RenderRaw(del).render(buf);
            }
            item.render(buf);
            rendered = 1;
        }'''))

    ref('hlp-render-seq', ['C23', 'C12', 'C03', 'C20', 'C21'],
        (H, '''        let frag = $crate::frag!($($expr),*);
        $crate::render!(frag)''', '''        let mut buf = $crate::internal::Buffer::with_capacity(16384);
        $crate::Render::render($crate::frag!($($expr),*), &mut buf);
        $crate::internal::Buffer::into_string(buf)'''))

    ref('hlp-render-fn', ['C23', 'C12', 'C03', 'C20', 'C21'],
        (H, '''        let mut buf = $crate::internal::Buffer::with_capacity(16384);
        $crate::Render::render($expr, &mut buf);
        buf.into_string()''', '''        $crate::render_to_string($expr)'''),
        (H, '''impl<I> From<I> for RenderIterator<I>''', '''/// Renders a value to a new string.
#[doc(hidden)]
#[inline]
pub fn render_to_string(value: impl Render) -> String {
    let mut buf = Buffer::with_capacity(16384);
    value.render(&mut buf);
    buf.into_string()
}

impl<I> From<I> for RenderIterator<I>'''))

    # ------------------------------------------------------------- macros
    MB = 'laby_macros/src/build.rs'
    MC = 'laby_macros/src/component.rs'
    MM = 'laby_macros/src/matching.rs'
    MN = 'laby_macros/src/node.rs'

    ref('mac-destruct-self', MAC + ['C21'],
        (MN, '        self.render.stmts.push(quote!(let #name = self.#name));\n\n        self.ctor', '        self.render.names.push(name.clone());\n\n        self.ctor'),
        (MN, '        self.render.stmts.push(quote!(let #name = self.#name));\n', '        self.render.names.push(name.clone());\n'),
        (MN, '    stmts: Punctuated<TokenStream, Semi>,\n', '    stmts: Punctuated<TokenStream, Semi>,\n    names: Vec<Ident>,\n'),
        (MN, '            stmts: Punctuated::new(),\n', '            stmts: Punctuated::new(),\n            names: Vec::new(),\n'),
        (MN, '            stmts,\n            buffer,', '            stmts,\n            names,\n            buffer,'),
        (MN, '                    #stmts;', '                    let Self { #(#names),* } = self;\n                    #stmts;'))

    ref('mac-tuple', MAC + ['C21'],
        (MN, 'self.decl.fields.push(quote!(#name: #ty));\n\n', 'self.decl.fields.push(quote!(#ty));\n\n'),
        (MN, 'self.decl.fields.push(quote!(#name: #ty));', 'self.decl.fields.push(quote!(#ty));'),
        *[(MN, 'self.render.stmts.push(quote!(let #name = self.#name));', 'let index = syn::Index::from(id - 1);\n        self.render.stmts.push(quote!(let #name = self.#index));')] * 2,
        *[(MN, 'self.ctor.fields.push(quote!(#name: #value));', 'self.ctor.fields.push(quote!(#value));')] * 2,
        (MN, '''            struct #ident<#generics> {
                #fields
            }''', '''            struct #ident<#generics>(#fields);'''),
        (MN, '''            #ident {
                #fields
            }''', '''            #ident(#fields)'''))

    ref('mac-attrs', MAC,
        (MB, '''            match *attr.right {
                Expr::Macro(ref expr) => {
                    if let Some(ident) = expr.mac.path.get_ident() {
                        if ident == "bool" {
                            let mut attr = attr.clone();
                            attr.right = syn::parse2(expr.mac.tokens.clone())?;

                            set_boolean_attr(attr, node)?;
                            continue;
                        }
                    }
                }

                _ => {}
            };

            set_attr(attr, node)?;''', '''            match boolean_value(&attr.right) {
                Some(tokens) => {
                    let right = syn::parse2(tokens)?;
                    set_boolean_attr(ExprAssign { right, ..attr }, node)?
                }
                None => set_attr(attr, node)?,
            }'''),
        (MB, 'fn ident_name', '''/// The tokens inside `bool!(...)`.
fn boolean_value(expr: &Expr) -> Option<TokenStream> {
    match expr {
        Expr::Macro(expr) if expr.mac.path.is_ident("bool") => Some(expr.mac.tokens.clone()),
        _ => None,
    }
}

fn ident_name'''))

    ref('mac-checks', MAC + ['C19'],
        (MB, '''    if element.frag && attrs.len() != 0 {
        return Err(syn::Error::new(
            attrs[0].span(),
            "invalid attribute in fragment",
        ));
    }

    if element.void && children.len() != 0 {
        return Err(syn::Error::new(
            children[0].span(),
            "invalid child in void element",
        ));
    }
''', '''    match (attrs.first(), children.first()) {
        (Some(attr), _) if element.frag => {
            return Err(syn::Error::new(attr.span(), "invalid attribute in fragment"))
        }
        (_, Some(child)) if element.void => {
            return Err(syn::Error::new(child.span(), "invalid child in void element"))
        }
        _ => {}
    }
'''))

    ref('mac-literal-early', ['C14', 'C10', 'C11', 'C03', 'C12'],
        (MB, '''    if expr.attrs.len() == 0 {
        Some(match expr.lit {''', '''    if !expr.attrs.is_empty() {
        return None;
    }

    {
        Some(match expr.lit {'''),
        (MB, '''            _ => return None,
        })
    } else {
        None
    }
}''', '''            _ => return None,
        })
    }
}'''))

    ref('mac-openclose', MAC,
        (MB, '''        node.render.push_str("<");
        node.render.push_str(&element.tag);
''', '''        node.render.push_str(format!("<{}", element.tag));
'''),
        (MB, '''            node.render.push_str("</");
            node.render.push_str(&element.tag);
            node.render.push_str(">");''', '''            node.render.push_str(format!("</{}>", element.tag));'''))

    ref('mac-bool-name', ['C11', 'C12', 'C13', 'C03', 'C14'],
        (MB, '''    if let Some(enabled) = try_unwrap_literal(&right).and_then(|expr| match &expr.lit {
        Lit::Bool(v) => Some(v.value()),
        _ => None,
    }) {''', '''    let constant = match try_unwrap_literal(&right).map(|expr| &expr.lit) {
        Some(Lit::Bool(v)) => Some(v.value),
        _ => None,
    };

    if let Some(enabled) = constant {'''),
        (MB, '''            let value = Literal::string(&format!(" {}", value));
            node.render.push_expr(quote!(
                if #enabled {
                    buffer.push_str(#value);
                }
            ));''', '''            let mut text = String::from(" ");
            text += &value;
            node.render.push_expr(quote!(
                if #enabled {
                    ::laby::internal::Buffer::push_str(buffer, #text);
                }
            ));'''))

    ref('mac-match-recursive', ['C16', 'C12', 'C03'],
        (MM, '''        let mut expr = &mut expr;
        loop {
            add(&mut expr.then_branch);

            match expr.else_branch {
                Some((_, ref mut branch)) => match **branch {
                    Expr::If(ref mut branch) => expr = branch,

                    Expr::Block(ExprBlock { ref mut block, .. }) => {
                        add(block);
                        break;
                    }

                    _ => break,
                },

                _ => break,
            }
        }''', '''        visit_branches(&mut expr, &mut add);'''),
        (MM, '''fn generate_from_if''', '''fn visit_branches(expr: &mut ExprIf, visit: &mut impl FnMut(&mut Block)) {
    visit(&mut expr.then_branch);

    match expr.else_branch.as_mut().map(|(_, branch)| &mut **branch) {
        Some(Expr::If(next)) => visit_branches(next, visit),
        Some(Expr::Block(ExprBlock { block, .. })) => visit(block),
        _ => {}
    }
}

fn generate_from_if'''))

    ref('mac-component-list', ['C15', 'C12', 'C19'],
        (MC, '    let mut params = HashMap::new();\n', '    let mut params: Vec<(String, NamedParam)> = Vec::new();\n'),
        (MC, 'use std::collections::HashMap;\n', ''),
        (MC, '''                if let Some(_) = params.insert(key.clone(), value) {
                    return Err(syn::Error::new(ident.span(), "duplicate parameter name"));
                }''', '''                if params.iter().any(|(name, _)| *name == key) {
                    return Err(syn::Error::new(ident.span(), "duplicate parameter name"));
                }

                params.push((key, value));'''),
        (MC, 'Some(name) => match params.get_mut(&name.to_string()) {',
         'Some(name) => match params.iter_mut().find(|(key, _)| name == key).map(|(_, param)| param) {'),
        (MC, 'let NamedParam { arg, default, .. } = params.remove(&name.to_string()).unwrap();',
         '''let index = params.iter().position(|(key, _)| name == key).unwrap();
        let (_, NamedParam { arg, default, .. }) = params.swap_remove(index);'''))

    ref('mac-component-rest', ['C15', 'C12', 'C19'],
        (MC, '''                let RestParam { wrapper, args, .. } = unsafe {
                    // SAFETY: we just checked above that Option is Some
                    std::mem::replace(&mut rest, None).unwrap_unchecked()
                };
''', '''                let RestParam { wrapper, args, .. } = rest.take().unwrap();
'''),
        (MC, '''            expr => match rest {
                Some(RestParam { ref mut args, .. }) => {
                    args.push(expr);
                }

                _ => {
                    return Err(syn::Error::new(
                        expr.span(),
                        "invalid expression; expected assignment",
                    ));
                }
            },''', '''            expr => rest
                .as_mut()
                .ok_or_else(|| syn::Error::new(expr.span(), "invalid expression; expected assignment"))?
                .args
                .push(expr),'''))

    ref('mac-component-block', ['C15', 'C12', 'C13', 'C03'],
        (MC, 'Ok(quote!(#func(#(#func_args),*)))', 'Ok(quote!({ #func(#(#func_args,)*) }))'))

    ref('mac-flush', MAC + ['C21'],
        (MN, '''        if self.buffer.len() != 0 {
            let literal = Literal::string(&self.buffer);

            self.stmts.push(quote!(buffer.push_str(#literal)));
            self.buffer.clear();
        }''', '''        if self.buffer.is_empty() {
            return;
        }

        let text = self.buffer.drain(..).collect::<String>();
        self.stmts.push(quote!(buffer.push_str(#text)));'''))

    ref('esc-chunked', ['C20'],
        (E, '''pub fn escape(feed: &str, buf: &mut Buffer) {
    escape_impl(feed, buf)
}''', '''pub fn escape(feed: &str, buf: &mut Buffer) {
    let mut rest = feed;

    while rest.len() > 4096 {
        let mut cut = 4096;
        while !rest.is_char_boundary(cut) {
            cut -= 1;
        }
        let (head, tail) = rest.split_at(cut);
        escape_impl(head, buf);
        rest = tail;
    }

    escape_impl(rest, buf)
}'''))

    ref('esc-chunked-find', ['C20'],
        (E, '''pub fn escape(feed: &str, buf: &mut Buffer) {
    escape_impl(feed, buf)
}''', '''pub fn escape(feed: &str, buf: &mut Buffer) {
    let mut rest = feed;

    while rest.len() > 4096 {
        let cut = (4093..=4096)
            .rev()
            .find(|&i| rest.is_char_boundary(i))
            .expect("a character has at most four bytes");
        escape_impl(&rest[..cut], buf);
        rest = &rest[cut..];
    }

    escape_impl(rest, buf)
}'''))

