"""Running one property's check: build the dumps, run the analyses, report."""
import json
import os
import signal
import sys
import time
import traceback
import build
import core
from core import Program, Undecided, Finding

VERIF = build.VERIF


class Report:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.t0 = time.time()
        self.findings = []
        self.undecided = []
        self.cov = {}
        self.obligations = 0
        self.discharged = 0
        self.samples = []
        self.assumptions = []

    def note(self, k, v):
        self.cov[k] = v

    def add(self, name, n):
        self.cov[name] = self.cov.get(name, 0) + n

    def ob(self, n, ok=None):
        """n obligations, ok of them discharged"""
        self.obligations += n
        self.discharged += n if ok is None else ok

    def find(self, fs):
        self.findings += [f for f in fs if self.prop in f.props]

    def decided(self):
        """a violation that is not a listed finding has been found"""
        kn = known()
        return any(f.definite and not any(d["property"] == self.prop and d["kind"] == f.kind and d["where"] == f.where
                                          for d, _ in kn) for f in self.findings)

    def undec(self, us):
        for u in us:
            self.undecided.append(u if isinstance(u, str) else " ".join(str(x) for x in u if x)[:300])

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)


class Ctx:
    """lazily built dumps of the current tree"""

    def __init__(self):
        self.cache = {}
        self.progs = {}

    def lib(self, crates=("laby_common", "laby")):
        """{'debug': {crate: Program}, 'release': ...}"""
        if "lib" not in self.cache:
            import concurrent.futures as cf
            crates = ("laby_common", "laby")
            build.driver()
            p1 = build.project("libd", {"lib.rs": ""})
            p2 = build.project("libr", {"lib.rs": ""})
            with cf.ThreadPoolExecutor(2) as ex:
                a = ex.submit(build.dump, p1, list(crates), False)
                b = ex.submit(build.dump, p2, list(crates), True)
                self.cache["lib"] = {"debug": {k: Program(v) for k, v in a.result().items()},
                                     "release": {k: Program(v) for k, v in b.result().items()}}
        return self.cache["lib"]

    def common(self):
        d = self.lib()
        return {"debug": d["debug"]["laby_common"], "release": d["release"]["laby_common"]}

    def laby(self):
        d = self.lib()
        return {"debug": d["debug"]["laby"], "release": d["release"]["laby"]}


def known():
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known: "):
                head = l[7:].split("|")[0].strip()
                d = {}
                for w in ("property", "kind", "where"):
                    i = head.find(w + "=")
                    if i >= 0:
                        d[w] = head[i + len(w) + 1:]
                d["property"] = d.get("property", "").split()[0]
                d["kind"] = d.get("kind", "").split()[0]
                d["where"] = d.get("where", "").strip()
                out.append((d, l.split("|", 1)[-1].strip()))
    return out


def finish(rep, level, rule, trusted, extra=None):
    prop = rep.prop
    definite, maybe, seen = [], [], set()
    for f in rep.findings:
        if f.key() in seen:
            continue
        seen.add(f.key())
        (definite if f.definite else maybe).append(f)
    kn = known()
    bad, listed = [], []
    for f in definite:
        m = [t for d, t in kn if d["property"] == prop and d["kind"] == f.kind and d["where"] == f.where]
        (listed if m else bad).append((f, m[0] if m else ""))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
    cov = dict(rep.cov)
    full = not maybe and not rep.undecided and not definite
    und = sorted(set(rep.undecided))
    lv = level
    if level == "proof" and not full and not definite:
        lv = "other"
    cov["obligations"] = rep.obligations
    cov["discharged"] = rep.discharged
    cov["undecided"] = und[:40]
    cov["not_shown"] = [f.asdict() for f in maybe[:20]]
    cov["samples"] = rep.samples
    if level == "proof":
        cov["checker_cmd"] = "python3 /verif/check.py %s %s" % (prop, rep.tier)
        cov["trusted_base"] = trusted
    cov["explanation"] = rule
    if level == "translation_validation":
        cov.setdefault("programs", 0)
        cov.setdefault("disagreements_checked", 0)
    if lv == "translation_validation" and not cov["samples"]:
        cov["samples"] = ["none"]
    ev = {"property": prop, "tier": rep.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": lv,
          "coverage": cov, "assumptions": rep.assumptions + trusted, "wall_s": round(time.time() - rep.t0, 2),
          "violations": len(bad)}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as o:
        json.dump(ev, o, indent=1, default=str)
    for f, t in listed:
        print("KNOWN-FINDING: property=%s %s" % (prop, t))
    for u in und[:8]:
        print("undecided: " + u[:300])
    for f in maybe[:8]:
        print("not shown: %s: %s %s" % (f.where, f.kind, f.text[:300]))
    if bad:
        rp = os.path.join(VERIF, "replay", prop + ".json")
        with open(rp, "w") as o:
            json.dump({"property": prop, "violations": [f.asdict() for f, _ in bad]}, o, indent=1, default=str)
        for f, _ in bad[:12]:
            print("  %s [%s] at %s%s: %s%s" % (f.where, f.kind, f.span or "-", (" via " + " > ".join(f.path[-4:])) if f.path else "",
                                             f.text, (" | instance: " + f.inst) if f.inst else ""))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    print("%s: %d obligations, %d discharged, %d open; %.1f s" % (prop, rep.obligations, rep.discharged,
                                                                 len(maybe) + len(und), time.time() - rep.t0))
    return 0


class TimeUp(BaseException):
    """the time a check may take is nearly over: what is not decided by now stays undecided"""


LIMIT = 800
_late = []


def watchdog():
    def ring(*_):
        _late.append(1)
        raise TimeUp()
    signal.signal(signal.SIGALRM, ring)
    signal.alarm(LIMIT)


def guard(rep, name, fn, *a, **k):
    """an analysis that breaks down gives no result; it is never taken for a violation"""
    if _late:
        rep.undec([(name, "not reached in time")])
        return None
    try:
        return fn(*a, **k)
    except TimeUp:
        rep.undec([(name, "not finished in time")])
    except build.BuildError as e:
        Ctx().lib()  # a library that does not build ends the check; else it is a program of ours that does not compile
        rep.undec([(name, "does not compile: %s" % str(e.args[0])[-300:])])
    except Undecided as u:
        rep.undec([(name, str(u))])
    except Exception as e:
        rep.undec([(name, "analysis failed: %s: %s" % (type(e).__name__, e))])
        if os.environ.get("SA_DEBUG"):
            traceback.print_exc()
    return None
