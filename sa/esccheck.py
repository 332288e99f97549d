"""The escaping routines.

general mode   every length, content, alignment and buffer state at once: the interpreter computes a fixpoint (joins
               and widening at loop heads); the result must be the escaped input appended to the old contents.
partition mode lengths and alignments are split into single cases, contents stay sets of bytes.  No widening is
               needed, so a failure is exact up to the byte sets; it is confirmed on one concrete point.
dispatch       the detector is interpreted for every processor configuration; routines are summarised by what general
               and partition mode establish about them.
"""
import os
import sys
import time
import json
import interp
import core
from core import *
import fix as F
from interp2 import covers
from lin import symname

LEAD2 = sum(1 << i for i in range(0xC2, 0xE0))
LEAD3 = sum(1 << i for i in range(0xE1, 0xED))
LEAD4 = sum(1 << i for i in range(0xF1, 0xF4))
CONT = sum(1 << i for i in range(0x80, 0xC0))
U8 = {2: (LEAD2, CONT), 3: (LEAD3, CONT, CONT), 4: (LEAD4, CONT, CONT, CONT)}


def entry(P):
    for i in P.find("escape"):
        f = P.fns[i]
        r = P.root.get(i)
        if r and r.get("public") and f["path"].startswith("laby_common::") and f.get("ins") and f["ins"][0] == "&str" \
                and not f.get("self"):
            return i
    raise Undecided("no public escape function")


def setup(P, n, byt=None, align=None, mode="heap", cap=None, ln=None):
    st = State()
    b, l0 = mkbuf(P, st, mode, cap=cap, ln=ln)
    s = mkstr(st, "F", n, byt, align)
    return st, b, s


def sizes_small(st):
    """every length and capacity the path knows of is below HUGE"""
    ks = {k for q in st.store.ineqs for k, _ in q.t}
    for k, r in st.store.sub.items():
        ks.add(k)
        ks |= set() if type(r) is int else {k2 for k2, _ in r.t}
    return [sub(HUGE, Lin(((k, 1),), 0)) for k in sorted(ks) if symname(k).split("#")[0] in ("cap", "len0", "esclen", "evlen")]


def judge_path(P, it, o, n, findings, where, names, und, props=("C01",)):
    """the outcome of one path of escape(feed, buffer)"""
    st = o.st
    if o.kind == "oom" or o.kind == "undecided":
        return
    if o.kind == "panic":
        # exhausting the address space is not what this is about
        small = [sub(HUGE, e) for e in names.values() if not isinstance(e, int)] + sizes_small(st)
        i = instance(st.store, small)
        if i is not None:
            findings.append(Finding(("C20",), "panic", where, "panics: %s" % o.msg, describe(i, names), not st.approx,
                                    o.span or "", o_stack(it, o)))
            findings[-1].st = st
            findings[-1].i = i
        return
    if o.kind == "unreachable":
        findings.append(Finding(("C06",), "ub", where, "reaches code marked unreachable", "", not st.approx, o.span or ""))
        findings[-1].st = st
        return
    if o.kind != "ret":
        return

    def chk(s):
        v = s.mem.get(BUF)
        pr = buffer_problem(P, it, s, v)
        if pr:
            return ("C06", "C04") if pr[0] != "uninit" else ("C06",), pr[0], "afterwards: " + pr[1]
        l0 = s.meta["len0"]
        d, ln, cap = buf_parts(P, v)
        ents = content(P, it, s, v) or []
        es = F.sorted_ents(s, ents)
        old = [x for x in es if x[2][0] == "old"]
        tail = [x for x in es if x[2][0] != "old"]
        if not s.eq(l0, 0):
            if len(old) != 1 or not s.eq(old[0][0], 0) or not s.eq(old[0][1], l0) or not s.eq(old[0][2][2], 0):
                if not (len(old) == 0 and not s.entails(sub(l0, 1))):
                    return ("C07", "C01"), "old-content", "what the buffer held before is no longer there: %s" % (
                        render_items(s, items(s, es)))
        pos, out, why = F.parse_escape(s, tail, l0, ("in", "F"))
        if why:
            return props, "content", "%s after %s bytes of the input" % (why, pos)
        if not s.eq(pos, n):
            return props, "content", "only %s of %s bytes of the input are in the output" % (pos, s.norm(n))
        if not s.eq(out, ln):
            return props, "content", "the length afterwards is %s, the output ends at %s" % (s.norm(ln), out)
        return None

    try:
        for s, r in splits(st, chk, 200):
            if r:
                f = Finding(r[0], r[1], where, r[2], "", not s.approx, "", ())
                f.st = s
                findings.append(f)
    except Undecided as u:
        und.append((str(u), "judging"))


def o_stack(it, o):
    out = []
    f = o.st.frame
    while f is not None:
        out.append(it.F[f.fn]["path"])
        f = f.up
    return out[::-1]


def static_paths(P):
    """mutable (atomic) statics of the crate"""
    return [p for p, s in P.statics.items() if p.startswith("laby_common::") and s.get("mut", True)]


def run_escape(P, fi, st, b, s, statics, general, max_steps, deadline, cpu=None, hook=None, facts=None):
    it = Interp(P, max_steps=max_steps, opaque=hook)
    it.concurrent = facts is not None
    it.facts = {} if facts is None else facts
    it.deadline = deadline
    it.own = BUF
    it.statics = {k: list(v) for k, v in statics.items()}
    it.cpu = cpu
    if general:
        it.widen = True
        it.fobj = ("in", "F")
    outs = it.run(fi, [s, b], st)
    return it, outs


# ------------------------------------------------------------------------------------ general mode
def general(P, lo, hi, statics, mode, budget, where):
    t0 = time.time()
    fi = entry(P)
    n = sym("n")
    st, b, s = setup(P, n, mode=mode)
    st.assume(sub(n, lo))
    if hi is not None:
        st.assume(sub(hi, n))
    names = {"n": n, "len": st.meta["len0"]}
    findings, und = [], []
    try:
        it, outs = run_escape(P, fi, st, b, s, statics, True, 2000000, t0 + budget)
    except Undecided as u:
        return {"where": where, "findings": [], "undecided": [(str(u), "", "")], "paths": 0, "oblig": {}, "t": time.time() - t0}
    for v in it.viol:
        f = Finding(("C06",), v.kind, where, v.msg + " (" + v.detail + ")", "", False, v.span, v.stack)
        f.st = v.st
        findings.append(f)
    findings += heap_uses(it, where)
    for o in outs:
        judge_path(P, it, o, n, findings, where, names, und)
    for f in findings:
        f.definite = False
    return {"where": where, "findings": findings, "undecided": list(it.undec) + und, "paths": len(outs),
            "oblig": it.oblig, "t": time.time() - t0, "steps": it.total, "joins": it.joins,
            "visited": sorted(P.fns[x]["path"] for x in it.visited if P.fns[x].get("local")), "n": n, "mode": mode}


# ------------------------------------------------------------------------------------ partition mode
def heap_uses(it, where):
    out, seen = [], set()
    for s, span, stack in it.allocs:
        k = (span, tuple(stack))
        if k in seen:
            continue
        seen.add(k)
        out.append(Finding(("C21",), "alloc", where, "allocates on the heap outside the output buffer", "", not s.approx, span, stack))
        out[-1].st = s
    return out


def partition(P, n, byt, align, statics, mode, where, budget=60, fi=None):
    fi = entry(P) if fi is None else fi
    st, b, s = setup(P, n, byt, align, mode)
    names = {"len": st.meta["len0"]}
    findings, und = [], []
    try:
        it, outs = run_escape(P, fi, st, b, s, statics, False, 400000, time.time() + budget)
    except Undecided as u:
        return [], [(str(u), "", "")], 0, {}, 0, {}
    for v in it.viol:
        f = Finding(("C06",), v.kind, where, v.msg + " (" + v.detail + ")", "", not v.approx, v.span, v.stack)
        f.st = v.st
        findings.append(f)
    findings += heap_uses(it, where)
    for o in outs:
        judge_path(P, it, o, n, findings, where, names, und)
    return findings, list(it.undec) + und, len(outs), it.oblig, it.total, it.statics


def pick(st, n, byt, prefer=0):
    """one concrete input of this state"""
    out = []
    for i in range(n):
        m = st.byteset(("in", "F"), i)
        if m == 0:
            return None
        w = m & prefer
        if not w:
            w = m & ALNUM or m
        out.append((w & -w).bit_length() - 1)
    b = bytes(out)
    try:
        b.decode("utf-8")
    except UnicodeDecodeError:
        return None
    return b


def confirm(P, n, align, statics, mode, f, byt, where):
    """does the failure persist on a single input?  (bytes, finding) or None"""
    for prefer in (SPECSET, 0, ALL & ~SPECSET, CONT | LEAD2 | LEAD3 | LEAD4):
        b = pick(f.st, n, byt, prefer)
        if b is None:
            continue
        bt = tuple(1 << x for x in b)
        fs, und, _, _, _, _ = partition(P, n, bt, align, statics, mode, where)
        fs = [x for x in fs if x.definite]
        if fs and not (und and False):
            for x in fs:
                if x.kind in ("content", "old-content", "panic"):
                    pass
            return b, fs[0]
    return None


def patterns(n, marks, rng):
    """byte-set assignments for a length: which positions vary"""
    fill = (ALNUM,) * n
    out = []

    def with_(ps):
        t = list(fill)
        for p, m in ps:
            t[p] = m
        return tuple(t)
    seen = set()
    for i in range(n):
        out.append(with_([(i, ASCII)]))
    for i in marks:
        for j in marks:
            if 0 <= i < j < n and (i, j) not in seen:
                seen.add((i, j))
                out.append(with_([(i, ASCII), (j, ASCII)]))
    for w, sets in U8.items():
        for i in marks:
            if 0 <= i and i + w <= n:
                ps = [(i + k, sets[k]) for k in range(w)]
                out.append(with_(ps))
                if i + w < n:
                    out.append(with_(ps + [(i + w, ASCII)]))
    return out


def marks_for(n, small=False):
    m = {0, 1, n - 1, n - 2, n // 2, 7, 8, 15, 16, 17, 31, 32, 33, n - 8, n - 9, n - 16, n - 17, n - 32, n - 33}
    if small:
        m = {0, n - 1, 15, 16, n - 16, n - 17, 31, 32, n - 32, 8}
    return sorted(x for x in m if 0 <= x < n)


# ------------------------------------------------------------------------------------ dispatch
LEVELS = ["none", "sse", "sse2", "ssse3", "sse4.2", "avx", "avx2"]      # each generation has what the earlier ones have
CPUS = []


def cpus():
    for leaf1 in (0, 1):
        for lv in range(len(LEVELS)) if leaf1 else (0,):
            for xsave, ox in ((0, 0), (1, 0), (1, 1)) if leaf1 else ((0, 0),):
                for leaf7 in ((1,) if lv >= 6 else (0, 1) if leaf1 else (0,)):
                    for xcr0 in ((1, 3, 5, 7, 0xE7) if ox else (0,)):
                        CPUS.append(dict(leaf1=leaf1, level=lv, sse=int(lv >= 1), sse2=int(lv >= 2), sse3=int(lv >= 3), ssse3=int(lv >= 3),
                                         sse41=int(lv >= 4), sse42=int(lv >= 4), popcnt=int(lv >= 4), avx=int(lv >= 5), avx2=int(lv >= 6),
                                         leaf7=leaf7, xcr0=xcr0, oxsave=ox, osxsave=ox, xsave=xsave))


cpus()


def cpu_text(c):
    return "cpu{%s, %s}" % (LEVELS[c["level"]], ", ".join("%s=%s" % (k, c[k]) for k in ("leaf1", "leaf7", "xsave", "oxsave", "xcr0")))


_needs = {}


def needs(P, fi):
    """instruction-set extensions used by a function or anything it calls directly"""
    k = (id(P), fi)
    if k in _needs:
        return _needs[k]
    seen = set()
    out = set()
    work = [fi]
    cpuid = False
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        f = P.fns[x]
        p = f["path"]
        if "cpuid" in p or p.endswith("_xgetbv"):
            cpuid = True
            continue
        tf = set(f.get("tf") or ())
        if "core_arch" in p:
            out |= tf
            continue
        if f.get("local") and tf:
            out |= tf
        b = f.get("body")
        if not b or not (f.get("local") or f.get("kind", "").startswith("shim")):
            continue
        for c in callees(P, b):
            work.append(c)
    r = (frozenset(out), cpuid)
    _needs[k] = r
    return r


_callees = {}


def callees(P, body):
    """functions a body mentions (called directly, or taken as values)"""
    r = _callees.get(id(body))
    if r is not None:
        return r
    out = set()

    def walk(x):
        if isinstance(x, dict):
            v = x.get("v")
            if isinstance(v, list) and v and v[0] == "fn":
                out.add(v[1])
            if "t" in x:
                t = P.types[x["t"]] if isinstance(x["t"], int) else {"k": ""}
                if t["k"] in ("fndef", "closure") and isinstance(t.get("fn"), int):
                    out.add(t["fn"])
            for y in x.values():
                walk(y)
        elif isinstance(x, (list, tuple)):
            for y in x:
                walk(y)
    walk([b for b in body["blocks"] if not b.get("c")])
    for ti in body["locals"]:
        t = P.types[ti]
        if t["k"] in ("fndef", "closure") and isinstance(t.get("fn"), int):
            out.add(t["fn"])
    _callees[id(body)] = out
    return out


OK_BASE = {"fxsr", "sse"}


def unsupported(need, cpu):
    bad = []
    for x in sorted(need):
        if x in OK_BASE:
            continue
        if x == "xsave":
            if not cpu["oxsave"]:
                bad.append(x)
        elif x == "sse2":
            if not cpu["sse2"]:
                bad.append(x)
        elif x in ("avx", "avx2"):
            if not (cpu[x] and cpu["oxsave"] and cpu["xcr0"] & 6 == 6):
                bad.append(x)
        elif x.replace(".", "") in ("sse3", "ssse3", "sse41", "sse42", "popcnt"):
            if not cpu[x.replace(".", "")]:
                bad.append(x)
        else:
            bad.append(x)
    return bad


def dispatch(P, cpu, statics, where, nlo=16, facts=None):
    """interpret escape(n >= 16) on one processor, alone or (facts) among other threads doing the same;
    (findings, undecided, routines called, interpreter, outcomes)"""
    fi = entry(P)
    n = sym("n")
    st, b, s = setup(P, n)
    st.assume(sub(n, nlo))
    findings, und, called = [], [], []

    def hook(it, st, fx, args):
        f = it.F[fx]
        if f.get("ins") and len(f["ins"]) == 2 and f["ins"][0] == "&str" and "Buffer" in f["ins"][1] and fx != fi \
                and f.get("local"):
            need, cp = needs(P, fx)
            if cp or st.frame is None:
                return None
            has_fn = reads_static(P, fx)
            if has_fn:
                return None
            a = args[0]
            if not (isinstance(a, BP) and a.obj == ("in", "F")):
                return None
            bad = unsupported(need, cpu)
            called.append(f["path"])
            if bad:
                x = Finding(("C02",), "cpu", where, "%s, which needs %s, is run on a processor without it" % (
                    f["path"], "/".join(bad)), cpu_text(cpu), not st.approx, it.span(st), it.stack(st))
                findings.append(x)
            if not st.entails(sub(a.meta, 16)):
                i = instance(st.store, (sub(15, a.meta),))
                if i is not None and f["path"].endswith("2::escape"):
                    pass
            # effect of the routine: its input, escaped, is appended
            append(P, it, st, args[1], ("esc", a.obj, st.norm(a.off), st.norm(add(a.off, a.meta))), a.meta)
            return Agg(0, ())
        return None
    it, outs = run_escape(P, fi, st, b, s, statics, True, 60000, time.time() + 25, cpu, hook, facts)
    for v in it.viol:
        f = Finding(("C02",) if v.kind == "cpu" else ("C06", "C02"), v.kind, where, v.msg + " " + v.detail, cpu_text(cpu),
                    not v.approx, v.span, v.stack)
        findings.append(f)
    findings += heap_uses(it, where)
    names = {"n": n}
    for o in outs:
        if o.kind == "ret" and o.st.approx:
            pass
        judge_path(P, it, o, n, findings, where, names, und, ("C02", "C01"))
    for f in findings:
        if not f.inst:
            f.inst = cpu_text(cpu)
    return findings, list(it.undec) + und, called, it, outs


def append(P, it, st, ref, seg, n):
    """append an output segment of between n and 6n bytes, growing or not"""
    T = template(P)
    v = it.load(st, ("c", ref.cell, ref.path), None)
    d, ln, cap = buf_parts(P, v)
    if seg[0] == "esc":
        m = sym("esclen")
        st.assume(sub(m, n))
        st.assume(sub(scale(n, 6), m))
    else:
        m = n
    ents = () if d.obj is None else st.objs[d.obj].ents
    if d.obj is not None:
        st.objs[d.obj] = st.objs[d.obj].with_(live=False, ents=())
    c2 = sym("cap")
    l2 = st.norm(add(ln, m))
    st.assume(sub(ISIZE, c2))
    st.assume(sub(c2, l2))
    st.assume(sub(c2, cap))
    st.assume(sub(c2, 1))
    st.seq += 1
    oid = ("h", st.seq)
    st.objs[oid] = Obj("heap", c2, "grown", ents=tuple(e for e in ents if not st.eq(e[1], 0)) + ((ln, m, seg),))
    it.store(st, ("c", ref.cell, ref.path), T.make(BP(oid, 0), l2, c2), None)


def reads_static(P, fi):
    seen, work = set(), [fi]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        f = P.fns[x]
        b = f.get("body")
        if not b or not f.get("local"):
            continue
        if uses_atomic(P, b):
            return True
        work += list(callees(P, b))
    return False


def uses_atomic(P, body):
    for c in callees(P, body):
        if "sync::atomic" in P.fns[c]["path"]:
            return True
    return False


def subsumes(a, b):
    """every value of state b is one state a allows"""
    return a.keys() == b.keys() and all(covers(a[k], b[k]) for k in a)


def fixpoint(P):
    """what the shared statics can hold, over all processors: one call after another (joint states), then any number of
    calls at once (every load sees any value some call stores, as far as the orderings allow)"""
    joint, values = [], {}
    findings, und, runs = [], [], 0
    routines = set()
    end = time.time() + 50
    for cpu in CPUS:
        if time.time() > end:
            und.append(("not reached in time", "dispatch on " + cpu_text(cpu), ""))
            continue
        seen, queue, alone = [], [{}], set()
        while queue and len(seen) < 40 and time.time() < end:
            base = queue.pop(0)
            if base in seen:
                continue
            seen.append(base)
            fs, un, called, it, outs = dispatch(P, cpu, {k: [v] for k, v in base.items()}, "dispatch on " + cpu_text(cpu))
            runs += 1
            findings += fs
            und += un
            alone |= {(f.kind, f.text) for f in fs}
            routines |= set(called)
            full = {k: vs[0] for k, vs in it.statics.items()}
            if base == {} and full:
                seen[0] = full
            for o in outs:
                nxt = dict(full)
                for e in o.st.trace:
                    if e[0] == "static-store":
                        nxt[e[1]] = e[2]
                if o.kind == "ret" and not any(subsumes(b, nxt) for b in seen + queue):
                    queue.append(nxt)
        if queue:
            und.append(("remembered values", cpu_text(cpu), ""))
        for b in seen:
            b = {k: [v] for k, v in b.items()}
            if b not in joint:
                joint.append(b)
        cur, facts = {}, {}
        for rnd in range(0 if alone else 8):
            n0 = sum(map(len, cur.values())) + sum(map(len, facts.values()))
            fs, un, called, it, outs = dispatch(P, cpu, cur, "dispatch on " + cpu_text(cpu), facts=facts)
            runs += 1
            cur, facts = it.statics, it.facts
            routines |= set(called)
            if sum(map(len, cur.values())) + sum(map(len, facts.values())) == n0:
                break
            if time.time() > end:
                und.append(("not finished in time", "threads on " + cpu_text(cpu), ""))
                break
        else:
            if not alone:
                und.append(("remembered values under concurrency", cpu_text(cpu), ""))
        if alone:
            fs, un = [], []
        for f in fs:
            if (f.kind, f.text) not in alone:
                f.props = ("C08", "C02") if f.kind == "cpu" else ("C08",)
                f.text += " (threads making their first call at the same time)"
                findings.append(f)
        und += un
        if alone:
            cur = {k: [b[k] for b in seen if k in b] for k in seen[-1]}
        for k, vs in cur.items():
            for v in vs:
                if v not in values.setdefault(k, []):
                    values[k].append(v)
    return joint, values, findings, und, routines, runs


# ------------------------------------------------------------------------------------ the whole analysis
PROGS = {}


def fn_name(P, v):
    return P.fns[v.fn]["path"].replace("laby_common::internal::", "") if isinstance(v, FnV) else str(v)


def combo_name(P, c):
    return ", ".join(fn_name(P, v) for vs in c.values() for v in vs) or "no state"


def is_detector(P, c):
    return any(isinstance(v, FnV) and needs(P, v.fn)[1] for vs in c.values() for v in vs)


FULL_LENGTHS = list(range(16, 35)) + [39, 40, 41, 47, 48, 49, 63, 64, 65, 66, 79, 95, 96, 97, 127, 128, 129]


def near_constants(P):
    """lengths around the constants written in the escaping code, beyond those always tried"""
    out = set()
    roots = [i for i, f in enumerate(P.fns) if f.get("local") and f.get("body") and "::internal::escape" in f["path"]]
    ks = {k for r in roots + [entry(P)] for k in core.int_consts(P, r, 9, 2100)}
    for k in [k for k in ks if k >= 24] + [k * 8 for k in ks if k <= 40]:
        out |= {k - 1, k, k + 1, k + 16, k + k // 2}
    out = sorted(x for x in out if x > 34 and x not in FULL_LENGTHS)
    return out if len(out) <= 40 else out[::len(out) // 40 + 1]


def partition_cases(level, kind, near=()):
    """(n, byte sets, alignment)"""
    out = []
    k = 0
    if kind == "small":
        for n in range(0, 16):
            if level == "reduced":
                ps = patterns(n, [x for x in (0, n - 1) if x >= 0], None) if n in (0, 1, 2, 3, 4, 8, 15) else []
            else:
                ps = patterns(n, list(range(n)), None)
            for p in ps:
                out.append((n, p, (k * 5) % 64))
                k += 1
        return out
    if level == "reduced":
        for n in (16, 17, 23, 31, 32, 33, 40, 63, 64, 65):
            mk = sorted({0, n - 1, 16 if n > 16 else 0, n - 16})
            fill = [ALNUM] * n
            for i in mk:
                p = list(fill)
                p[i] = ASCII
                out.append((n, tuple(p), (k * 5) % 64))
                k += 1
            p = list(fill)
            p[0] = p[n - 1] = ASCII
            out.append((n, tuple(p), (k * 5) % 64))
            p = list(fill)
            p[n - 2], p[n - 1] = LEAD2, CONT
            p[0] = ASCII
            out.append((n, tuple(p), (k * 3) % 64))
        return out
    for n in FULL_LENGTHS:
        for p in patterns(n, marks_for(n, n > 40), None):
            out.append((n, p, (k * 5) % 64))
            k += 1
        if n <= 34 or n in (63, 64, 65):
            for al in range(8):
                for i in sorted({0, 1, 7 - al, 8 - al, n - 1, n - 2, n - 8, n - 9, (n + al) // 8 * 8 - al - 1,
                                 (n + al) // 8 * 8 - al}):
                    if 0 <= i < n:
                        p = [ALNUM] * n
                        p[i] = ASCII
                        out.append((n, tuple(p), al))
    for n in near:
        for i in (0, n - 1, n - 16, 16, n // 2, 33):
            p = [ALNUM] * n
            p[i] = ASCII
            if i != n - 1:
                p[n - 1] = ASCII
            out.append((n, tuple(p), (k * 5) % 64))
            k += 1
    return out


def task(t):
    try:
        return task_(t)
    except Undecided as u:
        return {"kind": t[0], "build": t[1], "where": str(t[-1]), "findings": [], "undecided": [(str(u), "", "")],
                "paths": 0, "oblig": {}, "cases": 0, "t": 0}
    except Exception as e:
        if os.environ.get("SA_DEBUG"):
            raise
        return {"kind": t[0], "build": t[1], "where": str(t[-1]), "findings": [], "undecided": [("analysis failed: %s: %s" % (type(e).__name__, e), "", "")],
                "paths": 0, "oblig": {}, "cases": 0, "t": 0}


def task_(t):
    kind, bld = t[0], t[1]
    P = PROGS[bld]
    t0 = time.time()
    if kind == "general":
        _, _, lo, hi, statics, mode, budget, where = t
        r = general(P, lo, hi, statics, mode, budget, where)
        r["cases"] = 1
    else:
        _, _, cases, statics, mode, where, deadline = t
        r = {"where": where, "findings": [], "undecided": [], "paths": 0, "oblig": {}, "cases": 0, "skipped": 0}
        bad = set()
        for n, byt, al in cases:
            if time.time() > deadline:
                r["skipped"] += 1
                continue
            fs, und, paths, ob, steps, _ = partition(P, n, byt, al, statics, mode, where)
            r["cases"] += 1
            r["paths"] += paths
            for k, v in ob.items():
                r["oblig"][k] = r["oblig"].get(k, 0) + v
            r["undecided"] += und[:3]
            for f in fs:
                key = (f.props, f.kind)
                if key in bad:
                    continue
                if len(bad) > 6:
                    break
                c = confirm(P, n, al, statics, mode, f, byt, where)
                if c is None:
                    f.definite = False
                    r["findings"].append(f)
                else:
                    b, g = c
                    bad.add(key)
                    f.definite = True
                    f.text = g.text
                    f.kind, f.props = g.kind, g.props
                    f.inst = "input %r (%d bytes) at address %d modulo 64, routine: %s" % (
                        b.decode("utf-8"), n, al, where)
                    r["findings"].append(f)
    for f in r["findings"]:
        f.st = None
    r["kind"], r["build"] = kind, bld
    r.pop("n", None)
    r["t"] = time.time() - t0
    return r


def chunks(l, n):
    return [l[i:i + n] for i in range(0, len(l), n)]


def analyse(progs, level="quick", budget=400, want=("general", "partition", "dispatch"), log=None):
    """progs: {'debug': Program, 'release': Program}"""
    import multiprocessing as mp
    PROGS.update(progs)
    t0 = time.time()
    out = {"dispatch": [], "general": [], "partition": [], "statics": {}, "findings": [], "undecided": []}
    tasks = []
    comb = {}
    for b, P in progs.items():
        try:
            joint, statics, fs, und, routines, runs = fixpoint(P)
        except Undecided as u:
            joint, statics, fs, und, routines, runs = [{}], {}, [], [(str(u), "", "")], set(), 0
        out["dispatch"].append({"build": b, "statics": {k: [fn_name(P, v) for v in vs] for k, vs in statics.items()},
                                "findings": fs, "undecided": und, "routines": sorted(routines), "runs": runs})
        cs = [c for c in joint if not is_detector(P, c)] or joint
        comb[b] = cs
        if "general" in want:
            for c in cs[::-1]:
                # a buffer that never allocated is covered by the lengths of partition mode (and by the buffer check)
                tasks.append(("general", b, 16, None, c, "heap", budget / 2.5, combo_name(P, c) + ", n>=16"))
            for m in ("heap", "empty"):
                tasks.append(("general", b, 0, 15, cs[0] if cs else {}, m, budget / 2.5, "short inputs, n<=15"))
    deadline = t0 + budget * 0.9

    def ptasks(level, which=None):
        ts = []
        for b, P in progs.items():
            if which is None or (b, "small") in which:
                for ch in chunks(partition_cases(level, "small"), 40):
                    ts.append(("partition", b, ch, comb[b][0], "heap", "short inputs", deadline))
                ts.append(("partition", b, partition_cases("reduced", "small"), comb[b][0], "empty", "short inputs", deadline))
            for c in comb[b]:
                nm = combo_name(P, c)
                if which is None or (b, nm) in which:
                    for i, ch in enumerate(chunks(partition_cases(level, "long", near_constants(P) if level == "full" else ()), 25)):
                        ts.append(("partition", b, ch, c, "heap", nm, deadline))
                    ts.append(("partition", b, partition_cases("reduced", "long")[::4], c, "empty", nm, deadline))
        return ts
    if "partition" in want:
        tasks += ptasks("full" if level == "thorough" else "reduced")
    with mp.Pool(8) as pool:
        fails = set()
        for r in pool.imap_unordered(task, tasks):
            out[r["kind"]].append(r)
            if r["kind"] == "general":
                open_ = r["findings"] or r["undecided"]
                r["open"] = bool(open_)
                if open_:
                    nm = "small" if r["where"].startswith("short") else r["where"].split(", n>=")[0]
                    fails.add((r["build"], nm))
            if log:
                log(r)
        definite = any(f.definite for r in out["partition"] for f in r["findings"])
        if fails and level != "thorough" and not definite and "partition" in want:
            seen = set()
            n0 = time.time()
            it = pool.imap_unordered(task, sorted(ptasks("full", fails), key=lambda t: (t[2][0][0] if t[2] else 0)))
            for r in it:
                out["partition"].append(r)
                if any(f.definite for f in r["findings"]):
                    seen |= {f.kind for f in r["findings"] if f.definite}
                    if time.time() - n0 > 40:
                        break
            pool.terminate()
    for k in ("dispatch", "partition", "general"):
        for r in out[k]:
            out["findings"] += r["findings"]
            out["undecided"] += r["undecided"]
    out["t"] = time.time() - t0
    return out


if __name__ == "__main__":
    progs = {"debug": Program(json.load(open(sys.argv[1]))), "release": Program(json.load(open(sys.argv[2])))}
    r = analyse(progs, sys.argv[3] if len(sys.argv) > 3 else "quick",
                log=lambda r: print(r["kind"], r["build"], r["where"], r.get("mode"), "cases", r["cases"], "paths", r["paths"], "%.1fs" % r["t"], len(r["findings"]), r["undecided"][:2], r.get("skipped")))
    for f in r["findings"][:20]:
        print(f.props, f.kind, f.where, f.text[:300], "|", f.inst[:200], "DEF" if f.definite else "maybe", f.span)
    print(len(r["findings"]), r["t"])
