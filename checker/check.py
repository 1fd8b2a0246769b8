"""Obligations, verdicts, evidence."""
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)

import terms
from terms import T, TRUE, FALSE, NONE, restrict, and_, not_, or_, show, mk
import interp
from interp import Interp, AnalysisError, ClassVal, FuncVal, exc_name
import witness

KNOWN = os.path.join(VERIF, "known_findings.txt")
EVID = os.environ.get("SKYMAP_EVIDENCE") or os.path.join(VERIF, "evidence")


class Ob:
    def __init__(self, rule, construct, status, text=""):
        self.rule, self.construct, self.status, self.text = rule, construct, status, text


pre_examined = "differs; not examined, as other obligations are violated already"


class Check:
    """Collects the obligations of one property."""

    def __init__(self, pid, tier="quick", seed=1):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.obs = []
        self.assumptions = set()
        self.units = set()
        self.I = None
        self.t0 = time.time()
        self.more = 60.0        # seconds for longer searches

    # ------------------------------------------------------------- inputs
    def interp(self):
        if self.I is None:
            self.I = Interp()
            self.I.load_all()
        return self.I

    def where(self, c, name=None):
        """file: Class.method of a class (as resolved through its bases)."""
        I = self.I
        try:
            if isinstance(c, str):
                c = I.cls(c)
            if name is None:
                return "%s: %s" % (c.module.relpath, c.name)
            f, owner = c.lookup(name)
            if owner is not None:
                return "%s: %s.%s" % (owner.module.relpath, owner.name, name)
            return "%s: %s.%s" % (c.module.relpath, c.name, name)
        except Exception:
            return "%s.%s" % (getattr(c, "name", c), name)

    # --------------------------------------------------------- obligations
    def add(self, rule, construct, status, text=""):
        self.obs.append(Ob(rule, construct, status, text))
        return status == "discharged"

    def ok(self, rule, construct, cond, text=""):
        """A structural fact that is decided outright."""
        return self.add(rule, construct, "discharged" if cond else "violated", "" if cond else text)

    def undecided(self, rule, construct, text=""):
        return self.add(rule, construct, "undecided", text)

    def eq(self, rule, construct, got, want, care=TRUE, facts=(), tries=None, what="", within=None):
        """got and want denote the same value wherever care holds.  With
        `within`, a difference counts only if got is made of the same opaque
        functions as want (or of those named)."""
        try:
            g, w = restrict(got, care), restrict(want, care)
        except Exception as e:
            return self.undecided(rule, construct, "comparison failed: %s" % e)
        bad = terms.unknowns(g) or terms.unknowns(w)
        if g is w and not bad:
            return self.add(rule, construct, "discharged")
        if g is w:
            return self.undecided(rule, construct, "not understood: %s" % str(list(bad)[:2])[:200])
        try:
            if not bad and terms.same_by_signs(g, w, care):
                return self.add(rule, construct, "discharged")
        except Exception:
            pass
        if time.time() - self.t0 > 150 and sum(o.status == "violated" for o in self.obs) >= 3:
            return self.undecided(rule, construct, pre_examined)
        try:
            v, text = witness.refute(got, want, care, self.seed,
                                     tries or (24 if self.tier == "quick" else 200), facts)
            if v == "unknown" and self.more > 0 and not tries:
                # look longer for a difference, within limits for all
                t0 = time.time()
                v, text = witness.refute(got, want, care, self.seed + 7, 150, facts, limit=min(20, self.more))
                self.more -= time.time() - t0
        except RecursionError:
            v, text = "undetermined", "too deep"
        pre = (what + ": ") if what else ""
        if v == "equal":
            return self.add(rule, construct, "discharged")
        if v == "witness" and within is not None:
            odd = opaque_names(g) - opaque_names(w) - set(within)
            if odd:
                return self.undecided(rule, construct, "differs, but is computed with %s" % sorted(odd)[:4])
        if v == "witness":
            return self.add(rule, construct, "violated", pre + text)
        return self.undecided(rule, construct, pre + v + " " + text)

    def holds(self, rule, construct, cond, care=TRUE, facts=(), what=""):
        return self.eq(rule, construct, cond, TRUE, care, facts, what=what)

    def no_raise(self, rule, construct, res, care=TRUE, names=None, facts=()):
        """The call does not raise (any exception, or those named)."""
        g = FALSE
        who = []
        for x, e in res.excs:
            if names is None or exc_name(e) in names:
                g = or_(g, x)
                who.append(exc_name(e))
        return self.eq(rule, construct, g, FALSE, care, facts, what="raises " + "/".join(sorted(set(who))))

    def guard(self, rule, construct, f, *a, **k):
        """Run part of a check; a failure of the analysis leaves it open."""
        try:
            return f(*a, **k)
        except AnalysisError as e:
            self.undecided(rule, construct, "analysis: %s" % e)
        except RecursionError:
            self.undecided(rule, construct, "analysis: recursion")
        except Exception as e:
            tb = traceback.extract_tb(sys.exc_info()[2])
            self.undecided(rule, construct, "analysis failed: %s: %s (%s)" % (
                type(e).__name__, e, "; ".join("%s:%d" % (os.path.basename(x.filename), x.lineno) for x in tb[-3:])))
            if os.environ.get("CHECK_DEBUG"):
                traceback.print_exc()
        return None


def opaque_names(t):
    """Functions that terms.py does not interpret, by name."""
    out = set()
    for u in terms.all_atoms(t):
        if u.op == "x" and isinstance(u.args[1], str):
            out.add(u.args[1])
        elif u.op == "app":
            out.add(u.args[0])
        elif u.op == "rec":
            out.add(u.args[0])
    return out


def load_known():
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("known: "):
                # known: property=C05 rule=<rule> construct=<construct> | text
                head, _, text = line[7:].partition(" | ")
                d = {}
                for part in head.split(" ; "):
                    k, _, v = part.partition("=")
                    d[k.strip()] = v.strip()
                d["text"] = text
                out.append(d)
    return out


def finish(ck, spec):
    os.makedirs(EVID, exist_ok=True)
    known = [k for k in load_known() if k.get("property") == ck.pid]
    vio, kn, und = [], [], []
    for o in ck.obs:
        if o.status == "violated":
            m = [k for k in known if k.get("rule") == o.rule and k.get("construct") == o.construct]
            if m:
                kn.append((o, m[0]))
                o.status = "known"
            else:
                vio.append(o)
        elif o.status == "undecided":
            und.append(o)
    dis = [o for o in ck.obs if o.status == "discharged"]
    rules = {}
    for o in ck.obs:
        r = rules.setdefault(o.rule, {"obligations": 0, "discharged": 0})
        r["obligations"] += 1
        r["discharged"] += o.status == "discharged"
    I = ck.I
    fns = sorted({"%s: %s" % (f.module.relpath, f.qual()) for f in I.inlined}) if I else []
    ev = {
        "property": ck.pid, "tier": ck.tier, "seed": ck.seed, "level": "other",
        "coverage": {
            "explanation": spec["explain"],
            "obligations": len(ck.obs), "discharged": len(dis),
            "known_findings": len(kn), "undecided": len(und),
            "rules": rules,
            "constructs": sorted({o.construct for o in ck.obs})[:200],
            "functions_analysed": len(fns),
            "functions": fns[:400],
            "samples": [{"rule": o.rule, "construct": o.construct, "status": o.status} for o in ck.obs[:8]],
            "undecided_list": ["%s | %s | %s" % (o.rule, o.construct, o.text[:300]) for o in und[:60]],
        },
        "assumptions": sorted(set(spec.get("assumes", ())) | ck.assumptions | (set(I.assumptions) if I else set())),
        "wall_s": round(time.time() - ck.t0, 2),
        "violations": len(vio),
    }
    path = os.path.join(EVID, ck.pid + ".json")
    with open(path, "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    print("%s: %d obligations over %d constructs, %d discharged, %d undecided, %d known, %d violated (%.1f s)" % (
        ck.pid, len(ck.obs), len({o.construct for o in ck.obs}), len(dis), len(und), len(kn), len(vio),
        time.time() - ck.t0))
    seen = set()
    for o, k in kn:
        if (o.rule, o.construct) not in seen:
            seen.add((o.rule, o.construct))
            print("KNOWN-FINDING: property=%s %s" % (ck.pid, k["text"] or o.construct))
    for o in und[:20]:
        print("undecided: %s | %s | %s" % (o.rule, o.construct, o.text[:300]))
    if vio:
        rp = os.path.join(EVID, ck.pid + ".violation.txt")
        with open(rp, "w") as f:
            for o in vio:
                f.write("property %s\nrule: %s\nconstruct: %s\n%s\n\n" % (ck.pid, o.rule, o.construct, o.text))
        for o in vio[:12]:
            print("violated: %s | %s | %s" % (o.rule, o.construct, o.text[:600]))
        print("VIOLATION property=%s replay=%s" % (ck.pid, rp))
        return 1
    floor = spec.get("min", 1)
    if len(ck.obs) < floor:
        print("analysis broken: %d obligations, at least %d expected" % (len(ck.obs), floor))
        return 2
    if not dis and not kn:
        print("analysis broken: no obligation could be decided")
        return 2
    return 0
