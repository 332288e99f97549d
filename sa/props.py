"""Which analyses decide which property."""
import os
from runner import Report, guard, finish
from core import Finding

TRUST = ["rustc's MIR construction, type checking, layout and callee resolution (nightly, -Zmir-opt-level=0)",
         "the abstract interpreter in /verif/sa, including its models of core/alloc intrinsics, allocation, atomics and "
         "x86 SIMD intrinsics", "x86_64-unknown-linux-gnu, 64-bit"]


def esc_part(rep, ctx, tier, want, budget=None, also=()):
    import esccheck
    if rep.decided() and tier != "thorough":
        rep.note("escape_analysis", "not run: an earlier part of this check already found a violation")
        return
    also = set(also)
    progs = ctx.common()
    r = guard(rep, "escape", esccheck.analyse, progs, "thorough" if tier == "thorough" else "quick",
              budget or (700 if tier == "thorough" else 420), want)
    if r is None:
        return
    rep.find(alias(r["findings"], rep, also))
    open_general = set()
    for g in r["general"]:
        n = sum(g["oblig"].values()) + g["paths"]
        rep.ob(n, n - len(g["findings"]) - len(g["undecided"]))
        rep.add("paths", g["paths"])
        for k, v in g["oblig"].items():
            rep.add("obligations_" + k, v)
        if g["undecided"]:
            rep.undec([("general mode", g["build"], g["where"], str(g["undecided"][0][0]))])
        rep.sample({"analysed": g["where"], "build": g["build"], "mode": "all lengths, contents, alignments",
                    "paths": g["paths"], "steps": g.get("steps"), "loop_heads_joined": g.get("joins"),
                    "functions": g.get("visited", [])[:12], "result": "shown" if not g.get("open") else "open"})
    for g in r["partition"]:
        rep.add("length_cases", g["cases"])
        rep.add("length_case_paths", g["paths"])
        n = g["cases"]
        rep.ob(n, n - len(g["findings"]) - g.get("skipped", 0))
        if g.get("skipped"):
            rep.undec([("single lengths", g["build"], g["where"], "%d cases not reached in time" % g["skipped"])])
        if g["undecided"]:
            rep.undec([("single lengths", g["build"], g["where"], str(g["undecided"][0][0]))])
    for d in r["dispatch"]:
        rep.add("cpu_runs", d["runs"])
        rep.ob(d["runs"], d["runs"] - len(d["findings"]) - len(d["undecided"]))
        if d["undecided"]:
            rep.undec([("dispatch", d["build"], str(d["undecided"][0][0]))])
        rep.sample({"dispatch": d["build"], "remembered values": d["statics"], "routines": d["routines"], "cpu_states": d["runs"]})
    return r


def buf_part(rep, ctx, keep=None):
    import bufcheck
    for b, P in ctx.common().items():
        res = guard(rep, "buffer", bufcheck.analyse, P)
        for x in res or ():
            if keep and not keep(x):
                continue
            fs = [f for f in x["findings"] if rep.prop in f.props]
            rep.find(fs)
            n = sum(x["oblig"].values()) + 3 * max(1, x["paths"])
            rep.ob(n, n - len(x["findings"]) - len(x["undecided"]))
            rep.add("operation_runs", 1)
            rep.add("paths", x["paths"])
            if x["undecided"] and not x.get("partition"):
                rep.undec([("buffer", b, x["fn"], str(x["undecided"][0][0]))])
            if b == "debug":
                rep.sample({"operation": x["fn"], "start": x["modes"], "paths": x["paths"]})


def alias(fs, rep, also):
    """findings of another property's rule that also break this one"""
    out = []
    for f in fs:
        if rep.prop not in f.props and also & set(f.props):
            f.props = tuple(f.props) + (rep.prop,)
        out.append(f)
    return out


def rend_part(rep, ctx, tier, want=None, keep=None):
    import rend
    r = guard(rep, "render", rend.run, want, 3000 if tier == "thorough" else 300)
    if r is None:
        return
    for x in r["records"]:
        fs = [f for f in x["findings"] if rep.prop in f.props]
        if keep and not keep(x) and not fs:
            continue
        rep.find(fs)
        n = sum(x["oblig"].values()) + max(1, x["paths"])
        rep.ob(n, n - len(fs) - len(x["undecided"]))
        rep.add("render_runs", 1)
        rep.add("paths", x["paths"])
        rep.add("steps", x["steps"])
        if x["undecided"]:
            rep.undec([("render", x["build"], x["kind"], str(x["undecided"][0][0]))])
        if x["build"] == "debug":
            rep.sample({"rendering of": x["kind"], "start": x["mode"], "paths": x["paths"], "loop state stable": x["stable"],
                        "functions": x["visited"][:8]})
    rep.find(r["findings"])
    rep.undec(r["rejected"])
    if r["uncovered"]:
        rep.undec([("no witness for the Render implementation of", u) for u in r["uncovered"]])
    return r


def wit_part(rep, tier, prop=None, fams=None):
    """witness programs of the property's families, interpreted and compared with the model of the markup language"""
    import random
    import families
    import wit
    seed = os.environ.get("VERIF_SEED", "1") or "1"
    size = "thorough" if tier == "thorough" else "quick"
    plan = [(f, None) for f in fams or families.USE[prop or rep.prop]]
    if (prop or rep.prop) == "C15":
        plan += [("comps", ["decl_macro"]), ("comppaths", ["decl_macro"])]
    for fam, feats in plan:
        ws = families.FAM[fam](size, random.Random("%s/%s" % (fam, seed)))
        for release in (False, True) if tier == "thorough" else (False,):
            r = guard(rep, "witnesses", wit.run, ws, release, tagname=fam + ("_dm" if feats else ""), features=feats)
            if r is None:
                continue
            recs, fs = r
            rep.find(fs)
            mine = [f for f in fs if rep.prop in f.props]
            for x in recs:
                rep.add("programs", 1)
                rep.add("paths", x["paths"])
                rep.add("steps", x["steps"])
                rep.add("obligations_checked_on_the_way", x["ob"])
                if x["undecided"]:
                    rep.undec([("witness", fam, x["snip"][:120], str(x["undecided"][0][0]))])
            n = sum(2 * max(1, x["paths"]) for x in recs)
            rep.ob(n, n - len(mine) - sum(1 for x in recs if x["undecided"]))
            rep.add("disagreements_checked", n)
            rep.add("witnesses_" + fam, len(ws))
            for x in recs[:: max(1, len(recs) // 3)][:3]:
                rep.sample({"family": fam, "markup": x["snip"][:400], "paths": x["paths"],
                            "result": "differs" if x["out"] or x["evt"] else "undecided" if x["undecided"] else "as the model"})


# ------------------------------------------------------------------------------------------------- the properties
def c01(rep, ctx, tier):
    esc_part(rep, ctx, tier, ("general", "partition", "dispatch"))
    return finish(rep, "proof", "Every path of the escaping entry point, for every length, content, alignment and buffer "
                  "state and every routine the dispatcher can select, appends exactly the escaped input (escape normal form "
                  "of the buffer contents); fixpoint over loop heads, then single lengths.", TRUST)


def c02(rep, ctx, tier):
    esc_part(rep, ctx, tier, ("dispatch",))
    return finish(rep, "proof", "The detector is interpreted for every combination of the processor features it can ask for "
                  "and for every value the remembered choice can hold (fixpoint); the routine reached must need only "
                  "available extensions, which is read off the target features of it and the intrinsics it calls.", TRUST)


def c04(rep, ctx, tier):
    buf_part(rep, ctx)
    return finish(rep, "proof", "Every public buffer operation, interpreted from an arbitrary state satisfying the buffer "
                  "invariant with arbitrary arguments, commits no memory error, restores the invariant and leaks nothing.",
                  TRUST)


def c05(rep, ctx, tier):
    buf_part(rep, ctx)
    return finish(rep, "proof", "As C04; the contents, length, capacity and results after every operation equal those of "
                  "the abstract string the operation's name denotes.", TRUST)


def c03(rep, ctx, tier):
    rend_part(rep, ctx, tier)
    wit_part(rep, tier)
    esc_part(rep, ctx, tier, ("general", "partition", "dispatch"), also=("C01",))
    return finish(rep, "proof", "Every path of every Render implementation appends only escaped segments of its text; the "
                  "escaping entry point itself is shown to escape exactly (as C01).", TRUST)


def c06(rep, ctx, tier):
    rend_part(rep, ctx, tier)
    buf_part(rep, ctx)
    esc_part(rep, ctx, tier, ("general", "partition", "dispatch"))
    return finish(rep, "proof", "Every raw read and write met on any path of any rendering lies inside a live object and inside "
                  "initialised input; the buffer invariant (initialised length within capacity) holds at every hand-over.", TRUST)


def c07(rep, ctx, tier):
    rend_part(rep, ctx, tier)
    buf_part(rep, ctx, lambda x: x["fn"] in ("push_str", "push", "reserve", "reserve_small", "write_str", "write_char"))
    esc_part(rep, ctx, tier, ("general", "partition"))
    return finish(rep, "proof", "On every path the buffer ends with its old contents in front, unchanged, and what follows is "
                  "the same expression whatever the buffer held.", TRUST)


def c17(rep, ctx, tier):
    rend_part(rep, ctx, tier, want=lambda p, k: k.startswith(("iter", "raw")))
    wit_part(rep, tier)
    return finish(rep, "proof", "The wrappers, interpreted with an opaque iterator (any length, any size hint, not fused): every "
                  "item rendered once, in order, delimiters between, nothing before rendering; the loop state is the same at "
                  "every later position.", TRUST)


def c18(rep, ctx, tier):
    rend_part(rep, ctx, tier)
    return finish(rep, "proof", "Every path of every scalar and wrapper rendering appends exactly the canonical item of its value; "
                  "numbers are handed unchanged to the formatter of their own type.", TRUST)


def c20(rep, ctx, tier):
    rend_part(rep, ctx, tier)
    buf_part(rep, ctx)
    wit_part(rep, tier)
    esc_part(rep, ctx, tier, ("general", "partition", "dispatch"))
    return finish(rep, "proof", "Every panic, assertion, overflow check and unreachable marker of the rendering code is an "
                  "obligation; none is reachable except through memory exhaustion, unrepresentable sizes or user code.", TRUST)


def c21(rep, ctx, tier):
    rend_part(rep, ctx, tier)
    buf_part(rep, ctx)
    wit_part(rep, tier)
    esc_part(rep, ctx, tier, ("general", "partition", "dispatch"))
    return finish(rep, "proof", "Every allocation on every path of every rendering belongs to the output buffer; into_string "
                  "hands over the memory.", TRUST)


def reject_part(rep, ctx, tier):
    import reject
    for fam in reject.USE[rep.prop]:
        r = guard(rep, "compile-fail witnesses", reject.run, reject.FAM[fam](tier))
        if r is None:
            continue
        fs, und, samples, n = r
        rep.find(fs)
        rep.undec(und)
        rep.ob(len(samples), len(samples) - len(fs) - len(und))
        rep.add("programs", n)
        rep.add("rejected_programs", len(samples))
        rep.add("disagreements_checked", len(samples))
        rep.add("cases_" + fam, len(samples))
        for x, e in samples[:: max(1, len(samples) // 2)][:2]:
            rep.sample({"must be rejected": x.what, "program": x.bad.strip()[:300], "twin": x.good.strip()[:300], "verdict": e[:160]})


def c08(rep, ctx, tier):
    import shared
    r = esc_part(rep, ctx, tier, ("dispatch",))
    decided = r is not None and not any(d["undecided"] for d in r["dispatch"])
    for b, P in ctx.common().items():
        allowed = None
        if decided:
            allowed = {k for d in r["dispatch"] if d["build"] == b for k in d["statics"]}
        for crate, Q in (("laby_common", P), ("laby", ctx.laby()[b])):
            x = guard(rep, "shared statics", shared.statics, Q, crate, allowed, "statics of " + crate)
            if x:
                rep.find(x[0])
                rep.undec(x[1])
                rep.ob(1 + len(Q.statics), 1 + len(Q.statics) - len(x[0]) - len(x[1]))
                rep.add("statics", len(Q.statics))
                for t in x[2]:
                    rep.sample(dict(t, build=b))
    # statics in code the macros generate
    import families
    import random
    import wit
    ws = []
    for f in ("trees", "comps", "matches", "bools", "renders", "wraps"):
        ws += [w for w in families.FAM[f]("quick", random.Random("c08")) if len(w.xs) < 3][:40]
    g = guard(rep, "generated statics", wit.programs, ws, "c08")
    for Q in g or ():
        x = shared.statics(Q, "generated", (), "statics of generated code")
        rep.find(x[0])
        rep.undec(x[1])
        rep.ob(len(Q.root), len(Q.root) - len(x[0]))
        rep.add("generated_functions", len(Q.root))
    # exclusive ownership
    buf_part(rep, ctx)
    reject_part(rep, ctx, tier)
    return finish(rep, "proof", "Effect analysis: every static of the runtime crates and of generated code is immutable or the remembered choice of "
                  "escaping routine. The dispatcher is interpreted among any number of threads doing the same: every atomic load may give any value "
                  "some call stores, as far as release/acquire ordering and coherence allow. Buffer operations through a shared reference write "
                  "nothing, no two buffers share memory, and auto traits are not claimed for nodes holding thread-bound values.", TRUST)


def c19(rep, ctx, tier):
    reject_part(rep, ctx, tier)
    return finish(rep, "other", "Compile-fail witnesses, each with a well-formed twin differing only in the forbidden part: every void tag, every kind of "
                  "child and attribute, every place markup can stand, and random well-formed markup with one forbidden thing. A forbidden program that "
                  "compiles is the violation; a twin that does not compile leaves the case undecided.", ["rustc's verdict on the witness programs"])


def c24(rep, ctx, tier):
    import graph
    import reject
    fs, tab, n = graph.run()
    rep.find(fs)
    rep.ob(n, n - len(fs))
    rep.note("runtime_crates", {c: d for c, d in tab})
    r = guard(rep, "hygiene", reject.run_hygiene)
    if r:
        fs, und, cs = r
        rep.find(fs)
        rep.undec(und)
        rep.ob(len(cs), len(cs) - len(fs) - len(und))
        rep.add("programs", len(cs))
        for x in cs[::29]:
            rep.sample(x)
    r = guard(rep, "names", reject.run_user)
    if r:
        fs, und, cs = r
        rep.find(fs)
        rep.undec(und)
        rep.ob(len(cs), len(cs) - len(fs) - len(und))
        rep.add("programs", len(cs))
        for x in cs[::9]:
            rep.sample(x)
    return finish(rep, "other", "Dependency analysis of the crates a template links (direct dependencies of each, from the compiler); witness crates without "
                  "prelude, without std and with every prelude name, common macro and method shadowed must compile as their plain twins do; so must programs whose own variables and types have every name found in the macro sources.",
                  ["rustc's verdict on the witness programs", "x86_64-unknown-linux-gnu"])


TV = {
    "C09": "Every element macro and a wide range of element trees, compiled; the MIR the macros generate, interpreted, appends "
           "exactly the markup an independent model of the language gives, whatever the embedded values.",
    "C10": "Attribute lists of every kind of name and value, compiled and interpreted; compared with the model: order, names, "
           "quoting, every value once, nothing for an absent value.",
    "C11": "Boolean attributes with constant and run-time conditions in every position; both outcomes of every condition.",
    "C12": "Every embedded expression is an event; on every path each is evaluated once, in source order, before any rendering.",
    "C13": "Nested markup and its unnested twin; both must give the model's output, and evaluate in the same order.",
    "C14": "Literals of every kind in every position, beside the same value at run time.",
    "C15": "Components with every shape of parameter list, called with every order of arguments.",
    "C16": "frag_match over if / if let / match shapes; on every path the chosen arm's markup and nothing else.",
    "C22": "The catalogue of element names: every name exists as a macro, writes its own name, and is void exactly if HTML says so.",
    "C23": "render! of up to many arguments of every kind, with and without a trailing comma: the concatenation, in order.",
}


def tv(p):
    def check(rep, ctx, tier):
        wit_part(rep, tier, p)
        if p in ("C14", "C15"):
            reject_part(rep, ctx, tier)
        if p == "C15":
            import reject
            r = guard(rep, "other crates", reject.run_foreign)
            if r:
                fs, und, cs = r
                rep.find(fs)
                rep.undec(und)
                rep.ob(len(cs), len(cs) - len(fs) - len(und))
                rep.add("programs", len(cs))
        return finish(rep, "translation_validation", TV[p], TRUST[:1] + TRUST[1:] +
                      ["markup beyond the witness shapes (bounded size; the generated code is composed per child) is not compiled"])
    return check


CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C17": c17, "C18": c18,
          "C20": c20, "C21": c21, "C08": c08, "C19": c19, "C24": c24}
CHECKS.update({p: tv(p) for p in TV})
CHECKS = dict(sorted(CHECKS.items()))
META = {p: {"level": "translation_validation",
            "note": TV[p] + " Decided for all values of the embedded expressions; the set of markup shapes is finite and listed "
            "in the evidence."} for p in TV}
META["C19"] = {"level": "other", "technique": "compile-fail witnesses with compiling twins",
               "note": "Decides each listed program; the set is finite (every void tag, every kind of misuse, every place, plus seeded random nesting)."}
META["C24"] = {"level": "other", "technique": "crate dependency analysis and hygiene witnesses that must compile where names are shadowed",
               "note": "The dependency rule covers every runtime crate; hygiene is decided for each macro form in each of eight hostile environments."}
