"""State shared between threads: every static of the runtime crates and of generated code, its type and who touches it."""
import build
from core import Finding, Program


def leaves(P, ti, seen=()):
    """names of the types a value of type ti is made of, stopping at atomics and UnsafeCell"""
    t = P.types[ti]
    if ti in seen:
        return set()
    seen = seen + (ti,)
    if t["k"] == "adt":
        if t["name"].startswith("core::sync::atomic::Atomic"):
            return {"atomic"}
        if t["name"] == "core::cell::UnsafeCell":
            return {"cell"}
        out = set()
        for v in t.get("v", []):
            for f in v["f"]:
                out |= leaves(P, f[1], seen)
        return out
    if t["k"] in ("tuple",):
        out = set()
        for x in t.get("e", []) if isinstance(t.get("e"), list) else []:
            out |= leaves(P, x, seen)
        return out
    if t["k"] in ("array", "slice") and isinstance(t.get("e"), int):
        return leaves(P, t["e"], seen)
    return set()


def walk(x):
    if isinstance(x, (list, tuple)):
        yield x
        for y in x:
            yield from walk(y)
    elif isinstance(x, dict):
        for y in x.values():
            yield from walk(y)


def refers(P, body, path, seen=None):
    """does the body mention the static, directly or through a constant?"""
    for x in walk(body):
        if len(x) == 2 and x[0] == "st" and x[1] == path:
            return True
        if len(x) == 2 and x[0] == "a" and isinstance(x[1], int):
            seen = seen if seen is not None else set()
            if x[1] not in seen and x[1] < len(P.allocs):
                seen.add(x[1])
                if refers(P, P.allocs[x[1]].get("r", []), path, seen):
                    return True
    return False


def writes(P, body, path):
    """does the body write through a pointer to the static, or make a mutable one?"""
    ptrs = set()

    def mentions(x):
        return any((len(y) == 2 and y[0] == "st" and y[1] == path)
                   or (len(y) == 2 and type(y[0]) is int and isinstance(y[1], list) and y[0] in ptrs) for y in walk(x))
    while True:
        n = len(ptrs)
        for b in body["blocks"]:
            for s in b["s"]:
                if s[0] == "=" and mentions(s[2]) and pointer(P, body["locals"][s[1][0]]):
                    ptrs.add(s[1][0])
        if len(ptrs) == n:
            break
    for b in body["blocks"]:
        for s in b["s"]:
            if s[0] != "=":
                continue
            dst, rv = s[1], s[2]
            if dst[0] in ptrs and any(e and e[0] == "*" for e in dst[1]):
                return True
            if rv[0] in ("ref", "raw") and "Mut" in str(rv[1]) and rv[2][0] in ptrs:
                return True
        t = b["t"]
        if t[0] == "call":
            if t[3] and t[3][0] in ptrs and any(e and e[0] == "*" for e in t[3][1]):
                return True
            for x in t[2]:
                if x[0] in ("m", "c") and x[1][0] in ptrs and pointer(P, body["locals"][x[1][0]]) == "mut":
                    return True     # handed to a callee as a mutable pointer
    return False


def pointer(P, ti):
    t = P.types[ti]
    if t["k"] in ("ref", "ptr", "rawptr"):
        return "mut" if t.get("mut") or t.get("m") else "const"
    return None


def rmw(P, body):
    import esccheck
    for c in esccheck.callees(P, body):
        p = P.fns[c]["path"]
        if "sync::atomic" in p and P.fns[c]["name"] not in ("load", "store", "new"):
            return True
    return False


def statics(P, crate, allowed, where):
    """(findings, undecided, table of the statics)"""
    fs, und, tab = [], [], []
    for path, s in P.statics.items():
        if not s.get("local") or (not s["mut"] and s["freeze"]):
            continue
        users = [(i, f) for i, f in enumerate(P.fns) if f.get("body") and refers(P, f["body"], path)]
        kinds = leaves(P, s["ty"])
        entry = {"static": path, "mutable": s["mut"], "made of": sorted(kinds), "used by": sorted({f["path"] for _, f in users})[:8]}
        tab.append(entry)
        if not users:
            entry["verdict"] = "unused"
            continue
        if s["mut"] and not any(writes(P, f["body"], path) for _, f in users):
            entry["verdict"] = "only read"
            continue
        name = path.split("::")[-1]
        guarded = any(rmw(P, f["body"]) for _, f in users) or ("atomic" in kinds and "cell" in kinds)
        if s["mut"] or "atomic" not in kinds or "cell" in kinds:
            entry["verdict"] = "unsynchronised"
            if guarded:
                und.append("%s may be guarded by a lock" % path)
            else:
                fs.append(Finding(("C08",), "shared-state", where, "%s is written without synchronisation by %s; two threads rendering at "
                                  "once race on it" % (name, ", ".join(entry["used by"][:3])), path, True, s["span"], ()))
        elif path in (allowed or ()):
            entry["verdict"] = "the remembered choice of escaping routine"
        elif allowed is None:
            entry["verdict"] = "not known to be the remembered choice only"
            und.append("%s: what is stored there is not decided" % path)
        else:
            entry["verdict"] = "shared between renderings"
            fs.append(Finding(("C08",), "shared-state", where, "%s is state shared between renderings besides the remembered choice of escaping "
                              "routine (used by %s)" % (name, ", ".join(entry["used by"][:3])), path, True, s["span"], ()))
    return fs, und, tab
