"""Models of the primitives the interpreter does not inline: compiler intrinsics, allocation, SIMD intrinsics,
the third-party number writers, string ownership and formatting."""
import re
from lin import Lin, add, scale, sub, sym
import interp as I
from interp import (Undecided, Fork, Dead, Agg, Opq, Ref, BP, FnV, BF, VecV, Mask, Pow2, Word, Flt, StrV, Obj,
                    ALL, FCLASSES, bits_of, lane_op)

ISIZE_MAX = (1 << 63) - 1
UNIT = Agg(0, ())
NONE = Agg(0, ())


def some(v):
    return Agg(1, (v,))


def ok(v):
    return Agg(0, (v,))


class Models(dict):
    pass


M = {}
INTRINSICS = {}


def model(*paths):
    def d(fn):
        for p in paths:
            M[p] = fn
        return fn
    return d


def intr(*names):
    def d(fn):
        for p in names:
            INTRINSICS[p] = fn
        return fn
    return d


def align_val(it, st, v):
    while isinstance(v, Agg) and len(v.f) == 1:
        v = v.f[0]
    if isinstance(v, Agg) and not v.f:
        return 1 << v.v  # AlignmentEnum: variant i is 2**i
    return it.num(st, v)


def choice(st, key, n):
    """which of n alternatives this path takes"""
    k = ("choice", key)
    c = st.truth.get(k)
    if c is not None:
        return c

    def mk(i):
        def g(s):
            d = dict(s.truth)
            d[k] = i
            s.truth = d
            return True
        return g
    raise Fork([mk(i) for i in range(n)])


# ------------------------------------------------------------------------------------ intrinsics
@intr("cold_path", "assert_inhabited", "assert_zero_valid", "forget", "black_box_unit")
def _nop(it, st, f, a):
    return UNIT


@intr("black_box", "likely", "unlikely")
def _id(it, st, f, a):
    return a[0]


@intr("size_of")
def _size_of(it, st, f, a):
    return it.T[f["args"][0]]["size"]


@intr("align_of", "min_align_of")
def _align_of(it, st, f, a):
    return it.T[f["args"][0]]["align"]


@intr("needs_drop")
def _needs_drop(it, st, f, a):
    return True


@intr("cttz", "cttz_nonzero")
def _cttz(it, st, f, a):
    v = a[0]
    w = it.T[f["args"][0]]["size"] * 8
    if isinstance(v, Mask):
        return it.mask_tz(st, v, w)
    v = it.num(st, v)
    if type(v) is int:
        return (v & -v).bit_length() - 1 if v else w
    raise Undecided("trailing zeros of unknown")


@intr("ctlz", "ctlz_nonzero")
def _ctlz(it, st, f, a):
    v = it.num(st, a[0])
    w = it.T[f["args"][0]]["size"] * 8
    if type(v) is int:
        return w - v.bit_length()
    raise Undecided("leading zeros of unknown")


@intr("ctpop")
def _ctpop(it, st, f, a):
    v = it.num(st, a[0])
    if type(v) is int:
        return bin(v).count("1")
    raise Undecided("popcount of unknown")


@intr("integer_max")
def _imax(it, st, f, a):
    x, y = it.num(st, a[0]), it.num(st, a[1])
    return x if it.decide(st, ("ge", sub(x, y))) else y


@intr("integer_min")
def _imin(it, st, f, a):
    x, y = it.num(st, a[0]), it.num(st, a[1])
    return x if it.decide(st, ("ge", sub(y, x))) else y


@intr("fabs", "fabsf32", "fabsf64")
def _fabs(it, st, f, a):
    v = a[0]
    return Flt(v.id, ("abs", v.fn))


@intr("wrapping_add", "wrapping_sub", "wrapping_mul", "add_with_overflow", "sub_with_overflow",
      "mul_with_overflow", "unchecked_add", "unchecked_sub", "unchecked_mul", "unchecked_shl", "unchecked_shr",
      "exact_div", "unchecked_div", "unchecked_rem")
def _arith(it, st, f, a):
    n = f["name"]
    op = {"add": "Add", "sub": "Sub", "mul": "Mul", "shl": "Shl", "shr": "Shr", "div": "Div", "rem": "Rem"}
    b = [op[p] for p in n.split("_") if p in op][0]
    suf = "WithOverflow" if n.endswith("overflow") else ("Unchecked" if n.startswith("unchecked") and
                                                          b in ("Add", "Sub", "Mul") else "")
    return it.binop(st, b + suf, a[0], a[1], f["args"][0])


@intr("saturating_add", "saturating_sub")
def _sat(it, st, f, a):
    lo, hi = it.range(f["args"][0])
    x, y = it.num(st, a[0]), it.num(st, a[1])
    r = add(x, y) if f["name"].endswith("add") else sub(x, y)
    if not it.decide(st, ("ge", sub(hi, r))):
        return hi
    if not it.decide(st, ("ge", sub(r, lo))):
        return lo
    return st.norm(r)


@intr("ptr_offset_from_unsigned", "ptr_offset_from")
def _offfrom(it, st, f, a):
    sz = it.T[f["args"][0]]["size"]
    p, q = a
    it.count("ptr-arith")
    if not isinstance(p, BP) or not isinstance(q, BP):
        raise Undecided("distance of cell pointers")
    if p.obj != q.obj:
        it.violate(st, "ptr-arith", "distance between pointers into different objects")
        raise Dead()
    d = st.norm(sub(p.off, q.off))
    if f["name"].endswith("unsigned"):
        it.need(st, d, "ptr-arith", "negative unsigned pointer distance")
    if sz == 1:
        return d
    return st.divmod(d, sz)[0]


@intr("offset", "arith_offset")
def _offset(it, st, f, a):
    if f["name"] == "arith_offset":
        raise Undecided("wrapping pointer arithmetic")
    return it.ptr_offset(st, a[0], a[1], it.cur_argtys[0])


def ordering(f):
    return next((x.rsplit("::", 1)[-1] for x in f["args"] if isinstance(x, str) and "AtomicOrdering" in x), "SeqCst")


ACQ = {"Acquire", "AcqRel", "SeqCst"}
REL = {"Release", "AcqRel", "SeqCst"}


@intr("atomic_load")
def _aload(it, st, f, a):
    return static_load(it, st, a[0], ordering(f) in ACQ)


@intr("atomic_store")
def _astore(it, st, f, a):
    static_store(it, st, a[0], a[1], ordering(f) in REL)
    return UNIT


@intr("atomic_fence", "atomic_singlethreadfence")
def _afence(it, st, f, a):
    raise Undecided("memory fence")


@intr("atomic_xchg")
def _axchg(it, st, f, a):
    o = ordering(f)
    r = static_load(it, st, a[0], o in ACQ)
    it.rmw(st)
    static_store(it, st, a[0], a[1], o in REL)
    return r


@intr("atomic_cxchg", "atomic_cxchgweak")
def _acx(it, st, f, a):
    """compare and exchange: any current value may be seen; the exchange happens only on equality"""
    o = ordering(f)
    r = static_load(it, st, a[0], o in ACQ)
    it.rmw(st)
    same = r == it.num(st, a[1]) if not isinstance(a[1], (FnV, bool)) else r == a[1]
    if same and f["name"].endswith("weak"):
        c = choice(st, ("weak", st.seq), 2)
        st.seq += 1
        same = c == 0
    if same:
        static_store(it, st, a[0], a[2], o in REL)
    return Agg(0, (r, bool(same)))


def static_path(it, st, p):
    if isinstance(p, BP) and p.obj is not None and p.obj[0] == "static":
        if not (type(p.off) is int and p.off == 0):
            raise Undecided("part of a shared static")
        return p.obj[1]
    return None


def static_load(it, st, p, acq):
    path = static_path(it, st, p)
    if path is None:
        raise Undecided("atomic load of non-static")
    vals = it.static_candidates(st, path)
    k = ("sload", path, st.seq)
    i = choice(st, k, len(vals))
    st.seq += 1
    st.trace = st.trace + (("static-load", path, vals[i], acq),)
    v = vals[i]
    if type(v).__name__ == "AnyV":
        # what an earlier call had in its hands: nothing is known of it here but its range
        if not v[2]:
            st.approx = True
        k = ("sval", path, st.seq)
        x = it.memo.get(k)
        if x is None:
            x = it.memo[k] = sym("left")
        if v[0] is not None:
            st.assume(sub(x, v[0]))
        if v[1] is not None:
            st.assume(sub(v[1], x))
        return x
    return v


def static_store(it, st, p, v, rel):
    path = static_path(it, st, p)
    if path is None:
        raise Undecided("atomic store to non-static")
    it.static_note(st, path, v, rel)


@intr("copy_nonoverlapping", "copy")
def _copy(it, st, f, a):
    sz = it.T[f["args"][0]]["size"]
    it.copy_bytes(st, a[0], a[1], scale(it.num(st, a[2]), sz), f["name"], overlap=f["name"] == "copy")
    return UNIT


@intr("write_bytes")
def _wb(it, st, f, a):
    sz = it.T[f["args"][0]]["size"]
    n = st.norm(scale(it.num(st, a[2]), sz))
    p = a[0]
    if not isinstance(p, BP) or p.obj is None:
        raise Undecided("write_bytes")
    it.check_access(st, p.obj, p.off, n, True, "write_bytes")
    b = it.num(st, a[1])
    if type(n) is int and type(b) is int:
        it.write_range(st, p.obj, p.off, n, [(0, n, ("c", bytes([b]) * n))])
    else:
        it.write_range(st, p.obj, p.off, n, [(0, n, ("unk", st.seq))])
    return UNIT


@intr("compare_bytes")
def _cmpb(it, st, f, a):
    """the order of two byte ranges: decided by what they hold, free where both contents are arbitrary"""
    n = st.norm(it.num(st, a[2]))
    if it.decide(st, ("eq", n)):
        return 0
    out = []
    for p in a[:2]:
        if not isinstance(p, BP) or p.obj is None:
            raise Undecided("memory comparison")
        it.check_access(st, p.obj, p.off, n, False, "memory comparison")
        r = it.read_range(st, p.obj, p.off, n)
        if r is None:
            raise Undecided("memory comparison")
        import core
        import fix
        out.append(tuple(core.items(st, list(fix.merge_ents(st, r)))))
    x, y = out
    if any(z[0] == "unk" for z in x + y):
        raise Undecided("memory comparison of unknown bytes")
    if x == y:
        return 0
    if all(len(z) == 1 and z[0][0] == "c" for z in out):
        return (x[0][1] > y[0][1]) - (x[0][1] < y[0][1])
    import sem
    c = sem.choice(st, ("cmp", x, y), 3)
    objs = {z[0][1] for z in out if len(z) == 1 and z[0][0] in ("in", "old")}
    free = all(len(z) == 1 and z[0][0] in ("in", "old", "c") for z in out) and len(objs) == sum(z[0][0] != "c" for z in out)
    if not free or any(st.meta.get(("cmpd", o), c) != c for o in objs):
        st.approx = True
    m = dict(st.meta)
    for o in objs:
        m[("cmpd", o)] = -1
    st.meta = m
    return (0, -1, 1)[c]


@intr("ptr_metadata")
def _pm(it, st, f, a):
    return a[0].meta if a[0].meta is not None else UNIT


@intr("assume")
def _assume(it, st, f, a):
    if not it.decide(st, it.bool_of(a[0])):
        it.violate(st, "assume", "assume(false)")
        raise Dead()
    return UNIT


@intr("is_val_statically_known", "const_eval_select_is_const")
def _false(it, st, f, a):
    return False


@intr("rotate_left", "rotate_right", "bswap", "bitreverse")
def _rot(it, st, f, a):
    v = it.num(st, a[0])
    w = it.T[f["args"][0]]["size"] * 8
    if type(v) is int:
        if f["name"] == "bswap":
            return int.from_bytes(v.to_bytes(w // 8, "little"), "big")
        n = it.num(st, a[1])
        if type(n) is int and f["name"].startswith("rotate"):
            n %= w
            if f["name"] == "rotate_right":
                n = (w - n) % w
            return ((v << n) | (v >> (w - n))) & ((1 << w) - 1)
    raise Undecided(f["name"])


# ------------------------------------------------------------------------------------ memory
@model("core::panicking::assert_failed", "core::panicking::assert_failed_inner")
def _af(it, st, f, a):
    from interp2 import Diverge
    raise Diverge("panic", "assert_eq failed")


@model("alloc::alloc::handle_alloc_error", "alloc::raw_vec::handle_error")
def _oom(it, st, f, a):
    from interp2 import Diverge
    raise Diverge("oom", "allocation failure")


@model("alloc::alloc::__rust_no_alloc_shim_is_unstable_v2")
def _noshim(it, st, f, a):
    return UNIT


def new_heap(st, size, align, ents=(), name=None):
    st.seq += 1
    oid = ("h", st.seq)
    st.objs[oid] = Obj("heap", st.norm(size), name or "heap%d" % st.seq, ents=ents, align=align)
    return oid


@model("core::alloc::layout::Layout::from_size_align_unchecked")
def _layout(it, st, f, a):
    al = it.num(st, a[1])
    it.count("layout")
    sz = it.num(st, a[0])
    it.need(st, sub(ISIZE_MAX, sz), "layout", "layout size above isize::MAX")
    return Agg(0, (sz, al))


@model("core::alloc::layout::Layout::size")
def _lsize(it, st, f, a):
    v = it.load(st, ("c", a[0].cell, a[0].path), None)
    return v.f[0]


def layout_parts(it, st, v):
    return it.num(st, v.f[0]), align_val(it, st, v.f[1])


@model("alloc::alloc::alloc", "alloc::alloc::alloc_zeroed")
def _alloc(it, st, f, a):
    size, align = layout_parts(it, st, a[0])
    return do_alloc(it, st, size, align, f["path"].endswith("zeroed"))


@model("alloc::alloc::__rust_alloc", "alloc::alloc::__rust_alloc_zeroed")
def _ralloc(it, st, f, a):
    return do_alloc(it, st, it.num(st, a[0]), align_val(it, st, a[1]), f["path"].endswith("zeroed"))


def nolife(s):
    return re.sub(r"'\w+", "'_", s or "")


def in_buffer(it, st):
    """is memory being taken by a method of the buffer (of the caller's buffer, when that is known)?"""
    f, outer = st.frame, None
    while f is not None:
        if "internal::buffer::" in it.F[f.fn]["path"]:
            outer = f
        f = f.up
    if outer is None:
        return False
    if it.own is None:
        return True
    a = st.mem.get((outer.id, 1))
    if isinstance(a, Ref):
        return a.cell == it.own
    ins = it.F[outer.fn].get("ins") or [""]
    return a is None and ins[0].startswith("&") and "Buffer" in ins[0]


def do_alloc(it, st, size, align, zeroed=False):
    it.need(st, sub(size, 1), "zero-alloc", "allocation of zero bytes")
    it.need(st, sub(ISIZE_MAX, size), "layout", "allocation above isize::MAX")
    c = choice(st, ("alloc", st.seq), 2)
    st.seq += 1
    if c == 1:
        return BP(None, 0)
    it.heap_use(st)
    if it.trace_alloc:
        st.trace = st.trace + (("alloc", st.norm(size), in_buffer(it, st)),)
    return BP(new_heap(st, size, align), 0)


@model("alloc::alloc::dealloc")
def _dealloc(it, st, f, a):
    size, align = layout_parts(it, st, a[1])
    it.free(st, a[0], size, align)
    return UNIT


@model("alloc::alloc::__rust_dealloc")
def _rdealloc(it, st, f, a):
    p = a[0]
    while isinstance(p, Agg) and len(p.f) == 1:
        p = p.f[0]
    it.free(st, p, it.num(st, a[1]), align_val(it, st, a[2]))
    return UNIT


@model("alloc::alloc::realloc")
def _realloc(it, st, f, a):
    size, align = layout_parts(it, st, a[1])
    return do_realloc(it, st, a[0], size, align, it.num(st, a[2]))


@model("alloc::alloc::__rust_realloc")
def _rrealloc(it, st, f, a):
    p = a[0]
    while isinstance(p, Agg) and len(p.f) == 1:
        p = p.f[0]
    return do_realloc(it, st, p, it.num(st, a[1]), align_val(it, st, a[2]), it.num(st, a[3]))


def do_realloc(it, st, p, size, align, new):
    it.count("dealloc")
    if not isinstance(p, BP) or p.obj is None:
        it.violate(st, "bad-free", "reallocation of a pointer that was never allocated")
        raise Dead()
    o = st.objs[p.obj]
    if o.kind != "heap":
        it.violate(st, "bad-free", "reallocation of %s memory" % o.kind)
        raise Dead()
    if not o.live:
        it.violate(st, "use-after-free", "reallocation of freed memory")
        raise Dead()
    if not st.eq(p.off, 0):
        it.violate(st, "bad-free", "reallocation of an interior pointer")
        raise Dead()
    if not st.eq(size, o.size):
        it.violate(st, "layout", "reallocation with a size other than the allocated one",
                   "%s vs %s" % (st.norm(size), st.norm(o.size)))
        raise Dead()
    if align != o.align:
        it.violate(st, "layout", "reallocation with another alignment")
        raise Dead()
    it.need(st, sub(new, 1), "zero-alloc", "reallocation to zero bytes")
    it.need(st, sub(ISIZE_MAX, new), "layout", "reallocation above isize::MAX")
    if st.entails(sub(new, o.size)):
        ents = o.ents
    else:
        ents = tuple(it.read_partial(st, p.obj, 0, new))
    c = choice(st, ("alloc", st.seq), 2)
    st.seq += 1
    if c == 1:
        return BP(None, 0)
    it.heap_use(st)
    if it.trace_alloc:
        st.trace = st.trace + (("realloc", st.norm(new), in_buffer(it, st)),)
    n = new_heap(st, new, align, ents)
    st.objs[p.obj] = o.with_(live=False, ents=())
    return BP(n, 0)


@model("core::slice::raw::from_raw_parts", "core::slice::raw::from_raw_parts_mut",
       "core::ptr::slice_from_raw_parts", "core::ptr::slice_from_raw_parts_mut",
       "core::ptr::non_null::NonNull::<[T]>::slice_from_raw_parts")
def _slice(it, st, f, a):
    p, n = a
    e = f["args"][0]
    sz = it.T[e]["size"]
    n = it.num(st, n)
    if isinstance(p, BP):
        if "raw_parts" in f["path"] and f["path"].startswith("core::slice"):
            it.count("slice")
            if p.obj is None:
                if not it.decide(st, ("ge", sub(0, n))):
                    it.violate(st, "oob-read", "slice over a pointer without allocation")
                    raise Dead()
            elif sz:
                it.check_access(st, p.obj, p.off if not isinstance(p.off, BF) else it.concretize(st, p.off),
                                st.norm(scale(n, sz)), f["path"].endswith("mut"), "slice")
        return BP(p.obj, p.off, n)
    if isinstance(p, Ref):
        return Ref(p.cell, p.path, n)
    raise Undecided("slice of %r" % (p,))


@model("core::str::converts::from_utf8_unchecked", "core::str::converts::from_utf8_unchecked_mut",
       "core::str::<impl str>::as_bytes", "core::str::<impl str>::as_bytes_mut")
def _same(it, st, f, a):
    return a[0]


@model("core::str::<impl str>::len", "core::slice::<impl [T]>::len",
       "core::ptr::const_ptr::<impl *const [T]>::len", "core::ptr::mut_ptr::<impl *mut [T]>::len")
def _len(it, st, f, a):
    p = a[0]
    if p.meta is None:
        raise Undecided("length of %r" % (p,))
    return it.num(st, p.meta)


@model("core::str::<impl str>::is_empty", "core::slice::<impl [T]>::is_empty")
def _isempty(it, st, f, a):
    n = it.num(st, a[0].meta)
    return it.cmp_lin(st, "Eq", n, 0)


@model("core::str::<impl str>::as_ptr", "core::str::<impl str>::as_mut_ptr", "core::slice::<impl [T]>::as_ptr",
       "core::slice::<impl [T]>::as_mut_ptr")
def _asptr(it, st, f, a):
    p = a[0]
    return BP(p.obj, p.off) if isinstance(p, BP) else Ref(p.cell, p.path)


@model("<str as core::convert::AsRef<str>>::as_ref", "<str as core::convert::AsRef<[u8]>>::as_ref",
       "<str as core::borrow::Borrow<str>>::borrow")
def _strref(it, st, f, a):
    return a[0]


def subslice(it, st, s, lo, hi, f, isstr):
    """s[lo..hi] or a panic"""
    from interp2 import Diverge
    n = it.num(st, s.meta)
    lo, hi = it.num(st, lo), it.num(st, hi)
    if not it.decide(st, ("ge", sub(hi, lo))) or not it.decide(st, ("ge", sub(n, hi))):
        raise Diverge("panic", "slice index out of range")
    if isstr:
        for x in (lo, hi):
            if st.eq(x, 0) or st.eq(x, n):
                continue
            if s.obj is None:
                continue
            o = st.objs[s.obj]
            if o.kind != "in":
                raise Undecided("character boundary in %s" % o.kind)
            m = st.byteset(s.obj, add(s.off, x))
            cont = 0
            for i in range(0x80, 0xC0):
                cont |= 1 << i
            if m & cont:
                if not m & ~cont:
                    raise Diverge("panic", "slice not on a character boundary")
                off = add(s.off, x)
                raise Fork([lambda z: z.refine_byte(s.obj, off, cont), lambda z: z.refine_byte(s.obj, off, ALL & ~cont)])
    return BP(s.obj, add(s.off, lo) if s.obj is not None else s.off, st.norm(sub(hi, lo)))


def rng(it, st, v, ty, n):
    t = it.T[ty]["name"]
    if t.endswith("RangeFrom"):
        return v.f[0], n
    if t.endswith("RangeTo"):
        return 0, v.f[0]
    if t.endswith("RangeFull"):
        return 0, n
    if t.endswith("Range"):
        return v.f[0], v.f[1]
    raise Undecided("range " + t)


@model("core::str::traits::<impl core::ops::index::Index<I> for str>::index",
       "core::str::traits::<impl core::ops::index::IndexMut<I> for str>::index_mut")
def _stridx(it, st, f, a):
    lo, hi = rng(it, st, a[1], it.cur_argtys[1], it.num(st, a[0].meta))
    return subslice(it, st, a[0], lo, hi, f, True)


@model("core::slice::index::<impl core::ops::index::Index<I> for [T]>::index")
def _slidx(it, st, f, a):
    from interp2 import Inline, Diverge
    t = it.T[it.cur_argtys[1]]
    if t["k"] == "adt" and isinstance(a[0], BP) and it.T[it.T[it.cur_argtys[0]]["e"]]["k"] == "slice" \
            and it.T[it.T[it.T[it.cur_argtys[0]]["e"]]["e"]].get("size") == 1:
        lo, hi = rng(it, st, a[1], it.cur_argtys[1], it.num(st, a[0].meta))
        return subslice(it, st, a[0], lo, hi, f, False)
    raise Inline()


@model("core::str::<impl str>::get_unchecked", "core::slice::<impl [T]>::get_unchecked")
def _getun(it, st, f, a):
    from interp2 import Inline
    ti = it.cur_argtys[1]
    if it.T[ti]["k"] == "adt" and isinstance(a[0], BP):
        st_ = it.T[it.T[it.cur_argtys[0]]["e"]]
        if st_["k"] == "str" or it.T[st_["e"]].get("size") == 1:
            n = it.num(st, a[0].meta)
            lo, hi = rng(it, st, a[1], ti, n)
            lo, hi = it.num(st, lo), it.num(st, hi)
            it.need(st, lo, "bounds", "unchecked slice start negative")
            it.need(st, sub(hi, lo), "bounds", "unchecked slice with start after end")
            it.need(st, sub(n, hi), "bounds", "unchecked slice past the end")
            return BP(a[0].obj, add(a[0].off, lo), st.norm(sub(hi, lo)))
    raise Inline()


@model("core::ptr::read_unaligned", "core::ptr::read", "core::ptr::const_ptr::<impl *const T>::read_unaligned",
       "core::ptr::const_ptr::<impl *const T>::read", "core::ptr::mut_ptr::<impl *mut T>::read",
       "core::ptr::mut_ptr::<impl *mut T>::read_unaligned", "core::ptr::read_volatile")
def _read(it, st, f, a):
    p = a[0]
    ti = f["args"][0]
    if isinstance(p, Ref):
        return it.load(st, ("c", p.cell, p.path), ti)
    if isinstance(p, BP):
        if p.obj is None:
            it.violate(st, "oob-read", "read through a pointer without allocation")
            raise Dead()
        v = it.load_bytes(st, p.obj, p.off, ti)
        if not f["path"].endswith("unaligned"):
            it.check_align(st, p, ti)
        return v
    raise Undecided("read of %r" % (p,))


@model("core::ptr::write_unaligned", "core::ptr::write", "core::ptr::mut_ptr::<impl *mut T>::write_unaligned",
       "core::ptr::mut_ptr::<impl *mut T>::write")
def _write(it, st, f, a):
    p = a[0]
    ti = f["args"][0]
    if isinstance(p, Ref):
        it.store(st, ("c", p.cell, p.path), a[1], ti)
        return UNIT
    if isinstance(p, BP):
        if p.obj is None:
            it.violate(st, "oob-write", "write through a pointer without allocation")
            raise Dead()
        it.store_bytes(st, p.obj, p.off, a[1], ti)
        if not f["path"].endswith("unaligned"):
            it.check_align(st, p, ti)
        return UNIT
    raise Undecided("write to %r" % (p,))


@model("core::ptr::copy_nonoverlapping", "core::ptr::copy", "core::intrinsics::copy_nonoverlapping",
       "core::intrinsics::copy")
def _mcopy(it, st, f, a):
    sz = it.T[f["args"][0]]["size"]
    it.copy_bytes(st, a[0], a[1], scale(it.num(st, a[2]), sz), f["path"].split("::")[-1],
                  overlap=f["path"].endswith("::copy"))
    return UNIT


@model("core::ptr::mut_ptr::<impl *mut T>::copy_from_nonoverlapping", "core::ptr::mut_ptr::<impl *mut T>::copy_from")
def _mcopyfrom(it, st, f, a):
    sz = it.T[f["args"][0]]["size"]
    it.copy_bytes(st, a[1], a[0], scale(it.num(st, a[2]), sz), "copy", overlap=f["path"].endswith("copy_from"))
    return UNIT


@model("core::ptr::const_ptr::<impl *const T>::copy_to_nonoverlapping",
       "core::ptr::const_ptr::<impl *const T>::copy_to", "core::ptr::mut_ptr::<impl *mut T>::copy_to")
def _mcopyto(it, st, f, a):
    sz = it.T[f["args"][0]]["size"]
    it.copy_bytes(st, a[0], a[1], scale(it.num(st, a[2]), sz), "copy", overlap=f["path"].endswith("copy_to"))
    return UNIT


@model("core::slice::<impl [T]>::copy_from_slice")
def _cfs(it, st, f, a):
    from interp2 import Diverge
    n, m = it.num(st, a[0].meta), it.num(st, a[1].meta)
    if not it.decide(st, ("eq", sub(n, m))):
        raise Diverge("panic", "copy_from_slice length mismatch")
    it.copy_bytes(st, a[1], a[0], n, "copy_from_slice")
    return UNIT


@model("core::ptr::mut_ptr::<impl *mut T>::is_null", "core::ptr::const_ptr::<impl *const T>::is_null")
def _isnull(it, st, f, a):
    p = a[0]
    if isinstance(p, BP):
        if p.obj is None:
            return it.cmp_lin(st, "Eq", it.num(st, p.off), 0)
        return False
    if isinstance(p, Ref):
        return False
    raise Undecided("null test of %r" % (p,))


@model("core::mem::replace")
def _replace(it, st, f, a):
    p = a[0]
    ti = f["args"][0]
    if isinstance(p, Ref):
        v = it.load(st, ("c", p.cell, p.path), ti)
        it.store(st, ("c", p.cell, p.path), a[1], ti)
        return v
    raise Undecided("mem::replace")


@model("core::mem::take")
def _take(it, st, f, a):
    from interp2 import Inline
    raise Inline()


@model("core::mem::swap")
def _swap(it, st, f, a):
    ti = f["args"][0]
    p, q = a
    if isinstance(p, Ref) and isinstance(q, Ref):
        x = it.load(st, ("c", p.cell, p.path), ti)
        y = it.load(st, ("c", q.cell, q.path), ti)
        it.store(st, ("c", p.cell, p.path), y, ti)
        it.store(st, ("c", q.cell, q.path), x, ti)
        return UNIT
    raise Undecided("mem::swap")


@model("core::mem::forget")
def _forget(it, st, f, a):
    return UNIT


@model("core::mem::drop")
def _mdrop(it, st, f, a):
    from interp2 import Inline
    raise Inline()


@model("core::mem::manually_drop::ManuallyDrop::<T>::new")
def _md(it, st, f, a):
    return wrap_like(it, it.cur_call[0][1], a[0])


def wrap_like(it, ti, v):
    """value v wrapped in single-field structs up to type ti"""
    t = it.T[ti]
    fs = [x for x in t["v"][0]["f"]]
    out = []
    for x in fs:
        ft = it.T[x[1]]
        if ft.get("size") == 0 and ft["k"] != "param":
            out.append(it.zst(x[1]))
        elif ft["k"] == "adt" and ft["name"].startswith("core::mem::"):
            out.append(wrap_like(it, x[1], v))
        else:
            out.append(v)
    return Agg(0, tuple(out))


# ------------------------------------------------------------------------------------ SIMD
def vecv(it, st, v):
    if isinstance(v, VecV):
        return v
    if isinstance(v, Word) and v.e == ("ld",):
        return VecV(v.obj, v.off, (I.IDT,) * v.n)
    if isinstance(v, Agg) and len(v.f) == 1:
        return vecv(it, st, v.f[0])
    raise Undecided("vector %r" % (v,))


def vec_bin(it, st, op, a, b):
    a, b = vecv(it, st, a), vecv(it, st, b)
    if len(a.tabs) != len(b.tabs):
        raise Undecided("vector widths")
    if a.obj is not None and b.obj is not None and (a.obj != b.obj or not st.eq(a.off, b.off)):
        raise Undecided("vectors from different places")
    o = a if a.obj is not None else b
    return VecV(o.obj, o.off, tuple(lane_op(op, x, y) for x, y in zip(a.tabs, b.tabs)))


def vec_mask(it, st, v):
    v = vecv(it, st, v)
    if v.obj is None:
        return sum(1 << i for i, t in enumerate(v.tabs) if t[0] & 128)
    sets = []
    for t in v.tabs:
        m = 0
        for i in range(256):
            if t[i] & 128:
                m |= 1 << i
        sets.append(m)
    return Mask(v.obj, st.norm(v.off), tuple(sets), 0, 0)


_NB = {"_mm_": 16, "_mm256_": 32}
_VOPS = {"or_si": "or", "and_si": "and", "xor_si": "xor", "andnot_si": "andnot", "cmpeq_epi8": "eq",
         "cmpgt_epi8": "gt", "cmplt_epi8": "lt", "add_epi8": "add", "sub_epi8": "sub", "min_epu8": "minu",
         "max_epu8": "maxu", "subs_epu8": "subsu", "adds_epu8": "addsu"}


def simd(it, st, f, a):
    from interp2 import Inline
    n = f["path"].split("::")[-1]
    pfx = "_mm256_" if n.startswith("_mm256_") else ("_mm_" if n.startswith("_mm_") else None)
    if pfx is None:
        raise Inline()
    w = _NB[pfx]
    op = n[len(pfx):]
    it.simd_use(st, f)
    if op in ("set1_epi8", "set1_epu8"):
        b = it.num(st, a[0])
        if type(b) is not int:
            raise Undecided("set1 of unknown")
        return VecV(None, 0, (I._ctab[b & 255],) * w)
    if op in ("setzero_si128", "setzero_si256"):
        return VecV(None, 0, (I._ctab[0],) * w)
    if op in ("loadu_si128", "loadu_si256", "lddqu_si128", "lddqu_si256", "load_si128", "load_si256"):
        p = a[0]
        if isinstance(p, BP):
            if p.obj is None:
                it.violate(st, "oob-read", "vector load through a pointer without allocation")
                raise Dead()
            off = p.off if not isinstance(p.off, BF) else it.concretize(st, p.off)
            v = it.load_bytes(st, p.obj, off, it.cur_call[0][1])
            if op.startswith("load_"):
                it.check_align(st, p, it.cur_call[0][1])
            return v
        raise Undecided("vector load from %r" % (p,))
    if op in ("movemask_epi8",):
        return vec_mask(it, st, a[0])
    if op in ("storeu_si128", "storeu_si256"):
        p = a[0]
        if isinstance(p, BP) and p.obj is not None:
            it.store_bytes(st, p.obj, p.off, vecv(it, st, a[1]), it.cur_argtys[1])
            return UNIT
        raise Undecided("vector store")
    if op in ("testz_si128", "testz_si256"):
        v = vec_bin(it, st, "and", a[0], a[1])
        if v.obj is None:
            return int(all(t[0] == 0 for t in v.tabs))
        m = Mask(v.obj, st.norm(v.off), tuple(sum(1 << i for i in range(256) if t[i]) for t in v.tabs), 0, 0)
        return 1 if it.mask_zero(st, m) else 0
    if op == "zeroupper":
        return UNIT
    for k, o in _VOPS.items():
        if op.startswith(k):
            return vec_bin(it, st, o, a[0], a[1])
    raise Undecided("SIMD intrinsic " + n)


# ------------------------------------------------------------------------------------ strings
def str_ptr(v):
    return BP(v.obj, 0 if v.obj is not None else 1, v.len)


def strv(it, st, p):
    v = p
    if isinstance(p, Ref):
        v = it.load(st, ("c", p.cell, p.path), None)
    while isinstance(v, Agg) and len(v.f) == 1:
        v = v.f[0]
    if isinstance(v, StrV):
        return v
    if isinstance(v, (Opq, Agg)):
        from interp2 import Inline
        raise Inline()
    raise Undecided("string %r" % (v,))


@model("alloc::string::String::into_bytes", "alloc::string::String::as_mut_vec", "alloc::string::String::into_chars",
       "alloc::string::String::from_utf8_unchecked")
def _s_same(it, st, f, a):
    strv(it, st, a[0])
    return a[0]


@model("alloc::vec::Vec::<T, A>::as_slice", "alloc::vec::Vec::<T, A>::as_mut_slice",
       "<alloc::vec::Vec<T, A> as core::ops::deref::Deref>::deref",
       "<alloc::vec::Vec<T, A> as core::ops::deref::DerefMut>::deref_mut",
       "alloc::string::String::as_mut_str", "<alloc::string::String as core::ops::deref::DerefMut>::deref_mut",
       "<alloc::string::String as core::convert::AsMut<str>>::as_mut")
def _s_refs(it, st, f, a):
    return str_ptr(strv(it, st, a[0]))


@model("alloc::vec::Vec::<T, A>::as_ptr", "alloc::vec::Vec::<T, A>::as_mut_ptr")
def _v_ptr(it, st, f, a):
    v = strv(it, st, a[0])
    return BP(v.obj, 0 if v.obj is not None else 1)


@model("alloc::vec::Vec::<T, A>::len")
def _v_len(it, st, f, a):
    return strv(it, st, a[0]).len


@model("alloc::vec::Vec::<T, A>::capacity")
def _v_cap(it, st, f, a):
    return strv(it, st, a[0]).cap


@model("alloc::string::String::into_raw_parts", "alloc::vec::Vec::<T>::into_raw_parts", "alloc::vec::Vec::<T, A>::into_raw_parts")
def _s_irp(it, st, f, a):
    v = strv(it, st, a[0])
    return Agg(0, (BP(v.obj, 0 if v.obj is not None else 1), v.len, v.cap))


@model("alloc::string::String::shrink_to_fit", "alloc::vec::Vec::<T, A>::shrink_to_fit")
def _s_shrink(it, st, f, a):
    v = strv(it, st, a[0])
    p = _s_box(it, st, f, [v])
    w = StrV(p.obj, v.len, v.len) if p.obj is not None else StrV(None, 0, 0)
    if not isinstance(a[0], Ref):
        raise Undecided("shrink_to_fit of %r" % (a[0],))
    it.store(st, ("c", a[0].cell, a[0].path), w, None)
    return UNIT


@model("<alloc::string::String as core::convert::AsRef<str>>::as_ref", "alloc::string::String::as_str",
       "<alloc::string::String as core::ops::deref::Deref>::deref", "alloc::string::String::as_bytes",
       "<alloc::string::String as core::borrow::Borrow<str>>::borrow",
       "<alloc::string::String as core::convert::AsRef<[u8]>>::as_ref")
def _s_ref(it, st, f, a):
    return str_ptr(strv(it, st, a[0]))


@model("alloc::string::String::len")
def _s_len(it, st, f, a):
    return strv(it, st, a[0]).len


@model("alloc::string::String::capacity")
def _s_cap(it, st, f, a):
    return strv(it, st, a[0]).cap


@model("alloc::string::String::is_empty")
def _s_empty(it, st, f, a):
    return it.cmp_lin(st, "Eq", strv(it, st, a[0]).len, 0)


@model("alloc::string::String::new", "<alloc::string::String as core::default::Default>::default")
def _s_new(it, st, f, a):
    return StrV(None, 0, 0)


@model("alloc::string::String::from_raw_parts", "alloc::vec::Vec::<T>::from_raw_parts",
       "alloc::vec::Vec::<T, A>::from_raw_parts_in")
def _s_frp(it, st, f, a):
    p, ln, cap = a[0], it.num(st, a[1]), it.num(st, a[2])
    it.count("string-parts")
    if not isinstance(p, BP):
        raise Undecided("String over %r" % (p,))
    it.need(st, sub(cap, ln), "layout", "string with length above its capacity")
    if not it.decide(st, ("ge", sub(cap, 1))):
        return StrV(None, 0, 0)
    if p.obj is None:
        it.violate(st, "bad-free", "string made from a pointer without allocation but with capacity")
        raise Dead()
    o = st.objs[p.obj]
    if o.kind != "heap" or not o.live or not st.eq(p.off, 0):
        it.violate(st, "bad-free", "string made from memory it cannot own")
        raise Dead()
    if not st.eq(o.size, cap) or o.align != 1:
        it.violate(st, "layout", "string made with a capacity other than the allocated size",
                   "%s vs %s" % (st.norm(cap), st.norm(o.size)))
        raise Dead()
    it.initialised(st, p.obj, 0, ln, "string contents")
    return StrV(p.obj, st.norm(ln), st.norm(cap))


@model("alloc::string::String::into_boxed_str", "alloc::vec::Vec::<T, A>::into_boxed_slice")
def _s_box(it, st, f, a):
    v = strv(it, st, a[0])
    if st.eq(v.cap, v.len) or not it.decide(st, ("ge", sub(sub(v.cap, v.len), 1))):
        if v.obj is None:
            return BP(None, 1, 0)
        return BP(v.obj, 0, v.len)
    if not it.decide(st, ("ge", sub(v.len, 1))):
        it.free(st, BP(v.obj, 0), v.cap, 1)
        return BP(None, 1, 0)
    r = do_realloc(it, st, BP(v.obj, 0), v.cap, 1, v.len)
    if r.obj is None:
        from interp2 import Diverge
        raise Diverge("oom", "allocation failure")
    return BP(r.obj, 0, v.len)


@model("alloc::boxed::Box::<T, A>::leak", "alloc::boxed::Box::<T, A>::into_raw", "alloc::boxed::Box::<T>::into_raw")
def _leak(it, st, f, a):
    return a[0]


@model("alloc::string::String::leak", "alloc::vec::Vec::<T, A>::leak")
def _s_leak(it, st, f, a):
    return str_ptr(strv(it, st, a[0]))


@model("alloc::boxed::Box::<T>::from_raw", "alloc::boxed::Box::<T, A>::from_raw_in")
def _boxraw(it, st, f, a):
    return a[0]


# ------------------------------------------------------------------------------------ chars
def char_len(it, st, c):
    c = it.num(st, c)
    if it.decide(st, ("ge", sub(0x7F, c))):
        return 1
    if it.decide(st, ("ge", sub(0x7FF, c))):
        return 2
    if it.decide(st, ("ge", sub(0xFFFF, c))):
        return 3
    return 4


@model("core::char::methods::<impl char>::len_utf8", "core::char::methods::len_utf8")
def _lenutf8(it, st, f, a):
    return char_len(it, st, a[0])


def put_char(it, st, c, dst, n):
    c = st.norm(it.num(st, c))
    if isinstance(dst, Ref):
        # a local byte array: becomes a fresh object so that string views of it work
        raise Undecided("encoding into a local array")
    if dst.obj is None:
        it.violate(st, "oob-write", "character written through a pointer without allocation")
        raise Dead()
    it.check_access(st, dst.obj, dst.off, n, True, "encoded character")
    if type(c) is int:
        seg = ("c", chr(c).encode("utf-8", "surrogatepass"))
    else:
        seg = ("chr", c)
    it.write_range(st, dst.obj, dst.off, n, [(0, n, seg)])
    return BP(dst.obj, dst.off, n)


@model("core::char::methods::<impl char>::encode_utf8", "core::char::methods::encode_utf8_raw")
def _enc(it, st, f, a):
    from interp2 import Diverge
    n = char_len(it, st, a[0])
    dst = a[1]
    m = it.num(st, dst.meta)
    if not it.decide(st, ("ge", sub(m, n))):
        raise Diverge("panic", "encode_utf8: buffer too small")
    return put_char(it, st, a[0], dst, n)


@model("core::char::methods::encode_utf8_raw_unchecked")
def _encu(it, st, f, a):
    n = char_len(it, st, a[0])
    put_char(it, st, a[0], a[1], n)
    return UNIT


# ------------------------------------------------------------------------------------ numbers
INT_MAX_LEN = {"u8": 3, "u16": 5, "u32": 10, "u64": 20, "usize": 20, "u128": 39, "i8": 4, "i16": 6, "i32": 11,
               "i64": 20, "isize": 20, "i128": 40}


def put_num(it, st, p, cap, ty, v, what):
    if not isinstance(p, BP):
        raise Undecided("number written to %r" % (p,))
    if p.obj is None:
        it.violate(st, "oob-write", what + " writes through a pointer without allocation")
        raise Dead()
    it.check_access(st, p.obj, p.off, cap, True, what)
    k = ("numlen", ty, v if not isinstance(v, Lin) else st.norm(v))
    n = it.memo.get(k)
    if n is None:
        n = sym("digits")
        it.memo[k] = n
    st.assume(sub(n, 1))
    st.assume(sub(cap, n))
    it.write_range(st, p.obj, p.off, cap, [(0, n, ("num", ty, v))])
    return st.norm(n)


@model("itoap::write_to_ptr")
def _itoap(it, st, f, a):
    ty = it.T[f["args"][0]]["s"]
    if ty not in INT_MAX_LEN:
        raise Undecided("integer type " + ty)
    v = a[1]
    if not isinstance(v, BF):
        v = it.num(st, v)
    return put_num(it, st, a[0], INT_MAX_LEN[ty], ty, v, "integer formatter")


def itoap_trait(it, st, f, a):
    raise Undecided("itoap internals")


@model("ryu::pretty::format32", "ryu::pretty::format64")
def _ryu(it, st, f, a):
    ty = "f32" if f["path"].endswith("32") else "f64"
    cap = 16 if ty == "f32" else 24
    v = a[0]
    if isinstance(v, Flt):
        cur = st.fcls.get(v.id, frozenset(FCLASSES))
        it.count("float-class")
        kinds = {c: it.fcls(v, c) for c in cur}
        if None in kinds.values():
            raise Undecided("is the formatted float finite?")
        bad = frozenset(c for c in cur if kinds[c] in ("nan", "pinf", "ninf"))
        if bad:
            s = st.copy()
            s.fcls = dict(s.fcls)
            s.fcls[v.id] = bad
            it.violate(s, "float-class", "float formatter called on a non-finite value")
            if bad == cur:
                raise Dead()
            st.fcls = dict(st.fcls)
            st.fcls[v.id] = cur - bad
    return put_num(it, st, a[1], cap, ty, v, "float formatter")


def fpred(it, v, name, p):
    """a condition on the kind of a float"""
    def q(c):
        k = it.fcls(v, c)
        return None if k is None else p(k)
    return ("fl", v.id, q, (name, v.fn))


@model("core::f32::<impl f32>::is_infinite", "core::f64::<impl f64>::is_infinite")
def _isinf(it, st, f, a):
    return fpred(it, a[0], "inf", lambda k: k in ("pinf", "ninf"))


@model("core::f32::<impl f32>::is_finite", "core::f64::<impl f64>::is_finite")
def _isfin(it, st, f, a):
    return fpred(it, a[0], "fin", lambda k: k in ("fneg", "fzero", "fpos"))


@model("core::f32::<impl f32>::is_nan", "core::f64::<impl f64>::is_nan")
def _isnan(it, st, f, a):
    return fpred(it, a[0], "nan", lambda k: k == "nan")


@model("core::f32::<impl f32>::is_sign_negative", "core::f64::<impl f64>::is_sign_negative",
       "core::f32::<impl f32>::is_sign_positive", "core::f64::<impl f64>::is_sign_positive")
def _issign(it, st, f, a):
    import math
    v = a[0]
    neg = f["path"].endswith("negative")

    def p(c):
        x = it.fval(v, c)
        if x is None:
            return None
        return ((x == "fneg") if isinstance(x, str) else math.copysign(1.0, x) < 0) == neg
    return ("fl", v.id, p, ("sign", neg, v.fn))


def subnormal(it, v, double):
    lim = 2.2250738585072014e-308 if double else 1.1754943508222875e-38

    def q(c):
        x = it.fval(v, c)
        if x is None:
            return None
        if isinstance(x, str):
            return None if x in ("fneg", "fpos") else False
        return x == x and 0 < abs(x) < lim
    return ("fl", v.id, q, ("subnormal", v.fn))


@model("core::f32::<impl f32>::is_subnormal", "core::f64::<impl f64>::is_subnormal")
def _issub(it, st, f, a):
    return subnormal(it, a[0], "f64" in f["path"])


@model("core::f32::<impl f32>::is_normal", "core::f64::<impl f64>::is_normal")
def _isnormal(it, st, f, a):
    c = subnormal(it, a[0], "f64" in f["path"])
    fin = fpred(it, a[0], "nonzero", lambda k: k in ("fneg", "fpos"))
    return 1 if it.float_pred(st, fin) and not it.float_pred(st, c) else 0


@model("core::f32::<impl f32>::classify", "core::f64::<impl f64>::classify")
def _classify(it, st, f, a):
    v = a[0]
    for i, c in enumerate((fpred(it, v, "nan", lambda k: k == "nan"), fpred(it, v, "inf", lambda k: k in ("pinf", "ninf")),
                           fpred(it, v, "zero", lambda k: k == "fzero"), subnormal(it, v, "f64" in f["path"]))):
        if it.float_pred(st, c):
            return Agg(i, ())
    return Agg(4, ())


@model("core::f32::<impl f32>::to_bits", "core::f64::<impl f64>::to_bits")
def _tobits(it, st, f, a):
    return it.float_int(st, a[0], "bits", f["ret"]) if "ret" in f else NotImplemented


# ------------------------------------------------------------------------------------ formatting
FMT_ERR = Agg(1, (Agg(0, ()),))


@model("core::fmt::write", "core::fmt::Write::write_fmt")
def _fmtwrite(it, st, f, a):
    """zero to a few calls of the writer's methods with arbitrary text (at most one of them a character), then the
    formatting result; an error of the writer ends it"""
    from interp2 import Goto
    w = a[0]
    if not isinstance(w, Ref):
        raise Undecided("formatting into %r" % (w,))
    dty = w.dyn
    if dty is None:
        dty = it.T[it.cur_argtys[0]]["e"]
        if it.T[dty]["k"] == "dyn":
            raise Undecided("formatting into an unknown writer")
    ms = {}
    for i, g in enumerate(it.F):
        if g.get("trait") == "core::fmt::Write" and g.get("body") and nolife(g.get("self")) == nolife(it.T[dty]["s"]):
            ms[g["name"]] = i
    if "write_str" not in ms:
        raise Undecided("writer methods not found for " + it.T[dty]["s"])
    pt = (st.frame.id, st.bb)
    kn, kr = ("fmtn",) + pt, ("fmtret",) + pt
    n, haschar = st.meta.get(kn, (0, False))

    def finish_(v):
        m = dict(st.meta)
        m.pop(kn, None)
        m.pop(kr, None)
        st.meta = m
        return v
    if n == 0:
        st.trace = st.trace + (("fmt-begin", canon(it, st, a[1]) if len(a) > 1 else None),)
    else:
        r = st.meta.get(kr)
        if not isinstance(r, Agg) or r.v is None:
            raise Undecided("result of a formatting callback")
        if r.v == 1:
            st.trace = st.trace + (("fmt-writer-error",),)
            return finish_(FMT_ERR)
    lit = st.truth.get(("choice", ("fmtlit", it.sem_key(it, st, a[1])))) if getattr(it, "sem_key", None) else None
    if lit == 1:
        # known to be one literal piece
        if n == 1:
            return finish_(ok(UNIT))
        c = 2
    else:
        c = choice(st, ("fmt", pt, n, st.seq), 2 if n >= it.fmt_calls else (3 if haschar else 4))
    if c == 0:
        return finish_(ok(UNIT))
    if c == 1:
        st.trace = st.trace + (("fmt-error",),)
        return finish_(FMT_ERR)
    m = dict(st.meta)
    m[kn] = (n + 1, haschar or c == 3)
    st.meta = m
    again = ("at", st.bb, st.ix, kr)
    if c == 3:
        v = sym("ch")
        st.assume(v)
        st.assume(sub(0x10FFFF, v))
        st.trace = st.trace + (("fmt-char", v),)
        if "write_char" in ms:
            it.push(st, ms["write_char"], [Ref(w.cell, w.path), v], (None, None), again)
            raise Goto()
        raise Dead()  # default write_char calls write_str
    if lit == 1:
        oid = ("in", ("fmtlit", it.sem_key(it, st, a[1])))
        ln = st.objs[oid].size
    else:
        oid = ("in", ("fmtstr", st.seq))
        ln = sym("fmtlen")
        st.objs[oid] = Obj("in", ln, "fmt")
        st.assume(ln)
        st.assume(sub(ISIZE_MAX, ln))
    st.trace = st.trace + (("fmt-str", oid, ln),)
    it.push(st, ms["write_str"], [Ref(w.cell, w.path), BP(oid, 0, ln)], (None, None), again)
    raise Goto()


def canon(it, st, v, depth=0):
    """value with references followed, for comparing formatting arguments"""
    if depth > 12:
        return "..."
    if isinstance(v, Ref):
        x = it.load(st, ("c", v.cell, v.path), None)
        return ("&", canon(it, st, x, depth + 1))
    if isinstance(v, Agg):
        return (v.v,) + tuple(canon(it, st, x, depth + 1) for x in v.f)
    if isinstance(v, Opq):
        return v.id
    if isinstance(v, BP):
        if v.obj is not None and st.objs[v.obj].kind == "const":
            return ("const", st.objs[v.obj].data["b"], st.norm(v.off), v.meta)
        return ("p", v.obj, st.norm(v.off), v.meta)
    if isinstance(v, FnV):
        return ("fn", it.F[v.fn]["path"])
    if isinstance(v, Lin):
        return st.norm(v)
    return v


@model("core::fmt::Arguments::<'a>::from_str", "core::fmt::Arguments::<'a>::new", "core::fmt::rt::Argument::<'_>::new_display",
       "core::fmt::rt::Argument::<'_>::new_debug", "core::fmt::Arguments::<'a>::new_const",
       "core::fmt::Arguments::<'a>::new_v1")
def _fmtargs(it, st, f, a):
    return Opq(("fmtargs", f["path"], tuple(canon(it, st, x) for x in a)), it.cur_call[0][1])


@model("alloc::fmt::format", "alloc::string::ToString::to_string", "<T as alloc::string::ToString>::to_string",
       "alloc::slice::<impl [T]>::concat", "alloc::slice::<impl [T]>::join", "alloc::slice::<impl [T]>::repeat",
       "alloc::slice::<impl [T]>::to_vec", "alloc::str::<impl str>::repeat", "alloc::str::<impl str>::replace",
       "alloc::str::<impl str>::replacen", "alloc::str::<impl str>::to_lowercase", "alloc::str::<impl str>::to_uppercase",
       "alloc::str::<impl str>::to_ascii_lowercase", "alloc::str::<impl str>::to_ascii_uppercase",
       "<str as alloc::borrow::ToOwned>::to_owned", "<alloc::string::String as core::convert::From<&str>>::from",
       "alloc::str::<impl alloc::borrow::ToOwned for str>::to_owned", "<alloc::string::String as core::clone::Clone>::clone",
       "alloc::boxed::box_new_uninit", "alloc::alloc::exchange_malloc")
def _allocates(it, st, f, a):
    """functions that take memory from the heap, whatever else they do"""
    u = Undecided("call of " + f["path"])
    it.heap_use(st)
    if it.trace_alloc:
        u.event = ("alloc", f["path"], in_buffer(it, st))
    raise u


def cpu_model(it, st, f, a):
    """what the modelled processor answers"""
    c = it.cpu
    n = f["path"].split("::")[-1]
    if n == "_xgetbv":
        if not c.get("oxsave"):
            it.violate(st, "cpu", "xgetbv executed although the operating system has not enabled it")
            raise Dead()
        if type(a[0]) is int and a[0] == 0:
            return c["xcr0"]
        return it.opq(st, ("xgetbv", tuple(a)), it.cur_call[0][1])
    if n in ("__cpuid", "__cpuid_count", "cpuid_count"):
        leaf = it.num(st, a[0])
        sub_ = it.num(st, a[1]) if len(a) > 1 else 0
        if type(leaf) is not int or type(sub_) is not int:
            raise Undecided("cpuid of unknown leaf")
        r = [0, 0, 0, 0]
        mx = 0 if not c["leaf1"] else (7 if c["leaf7"] else 1)
        if leaf == 0:
            r = [mx, 0x756E6547, 0x6C65746E, 0x49656E69]
        elif leaf == 1 and mx >= 1:
            r = [0, 0, c["sse3"] | (c["ssse3"] << 9) | (c["sse41"] << 19) | (c["sse42"] << 20) | (c["popcnt"] << 23)
                 | (c["xsave"] << 26) | (c["oxsave"] << 27) | (c["avx"] << 28), (c["sse"] << 25) | (c["sse2"] << 26)]
        elif leaf == 7 and mx >= 7 and sub_ == 0:
            r = [0, c["avx2"] << 5, 0, 0]
        return Agg(0, tuple(r))
    if n.startswith("has_"):
        k = n[4:]
        if k in c:
            return bool(c[k])
        st.notes = st.notes
        return opaque_pure_(it, st, f, a)
    if n in ("get_feature_info", "get_extended_feature_info"):
        have = c["leaf1"] if n == "get_feature_info" else c["leaf7"]
        if not have:
            return NONE
        t = it.T[it.cur_call[0][1]]
        return some(Opq(("cpu", n), t["v"][1]["f"][0][1]))
    return opaque_pure_(it, st, f, a)


def opaque_pure(it, st, f, a):
    """deterministic function of the machine: same call, same answer"""
    if it.cpu is not None:
        return cpu_model(it, st, f, a)
    return opaque_pure_(it, st, f, a)


def opaque_pure_(it, st, f, a):
    key = []
    for x in a:
        if isinstance(x, Ref):
            x = it.load(st, ("c", x.cell, x.path), None)
        key.append(x)
    ti = it.cur_call[0][1]
    t = it.T[ti]
    oid = ("pure", f["path"], tuple(key))
    if t["k"] == "bool":
        return Opq(oid, ti)
    return it.opq(st, oid, ti)


M["core::core_arch::x86::xsave::_xgetbv"] = opaque_pure
M["core::core_arch::x86::cpuid::__cpuid"] = opaque_pure
M["core::core_arch::x86::cpuid::__cpuid_count"] = opaque_pure
M["#prefix"] = [
    ("core::core_arch::x86::", simd),
    ("core::core_arch::x86_64::", simd),
    ("raw_cpuid::", opaque_pure),
    ("itoap::", itoap_trait),
]
DEFAULT_MODELS = M
