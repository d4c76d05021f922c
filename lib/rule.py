"""Check framework: findings, known findings, evidence, exit codes."""
import json, os, re, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import facts
from facts import AnalysisError, VERIF
import prog as progmod

KNOWN = os.path.join(VERIF, "known-findings.txt")


def known(prop):
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) key=(.*?) \| (.*)$", l.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.p = progmod.load()
        self.viol = {}
        self.n = {}
        self.samples = {}
        self.fns = set()
        self.rules = []
        self.assume = []

    def ob(self, kind, where=None, n=1):
        """one obligation of this kind was examined."""
        self.n[kind] = self.n.get(kind, 0) + n
        if where is not None:
            s = self.samples.setdefault(kind, [])
            if len(s) < 4:
                s.append(str(where))

    def seen(self, f):
        self.fns.add(f.usr)

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def assumption(self, t):
        self.assume.append(t)

    def violate(self, key, loc, msg):
        self.viol.setdefault(key, (loc, msg))

    def need(self, kind, n):
        """the rule must have had at least n instances, or the analysis no longer fits the code."""
        if self.n.get(kind, 0) < n:
            raise AnalysisError("rule instance count of '%s' fell to %d (expected at least %d): the check no longer sees "
                                "the code it is about" % (kind, self.n.get(kind, 0), n))


def main(prop, fn):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        c = Check(prop)
        err = None
        try:
            fn(c)
        except AnalysisError as e:
            # what was found before the analysis gave up still stands
            if not c.viol:
                raise
            err = e
    except AnalysisError as e:
        print("ANALYSIS-ERROR property=%s %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-ERROR property=%s internal error" % prop)
        return 2
    kn = known(prop)
    new = {k: v for k, v in c.viol.items() if k not in kn}
    old = {k: v for k, v in c.viol.items() if k in kn}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    nob = sum(c.n.values())
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "static analysis of the resolved AST/CFG of every translation unit of /repo's current tree; "
                           "no code is run. Rules: " + " || ".join(c.rules),
            "translation_units": len(c.p.units), "functions_in_program": len(c.p.funcs),
            "functions_examined": len(c.fns), "obligations": nob,
            "discharged": nob - len(c.viol) if nob >= len(c.viol) else 0,
            "by_kind": c.n, "samples": [{"kind": k, "sites": v} for k, v in c.samples.items()],
            "known_findings": sorted(old), "violations": sorted(new),
        },
        "assumptions": c.assume, "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    evp = os.path.join(VERIF, "evidence", prop + ".json")
    with open(evp, "w") as f:
        json.dump(ev, f, indent=1)
    print("property=%s units=%d functions=%d examined=%d obligations=%d %s" % (
        prop, len(c.p.units), len(c.p.funcs), len(c.fns), nob, json.dumps(c.n)))
    for k in sorted(old):
        print("KNOWN-FINDING: property=%s %s (%s)" % (prop, kn[k], old[k][0]))
    if new:
        rp = os.path.join(VERIF, "evidence", prop + ".violations.txt")
        with open(rp, "w") as f:
            for k, (loc, msg) in sorted(new.items()):
                f.write("%s: [%s] %s\n  key: %s\n" % (loc, prop, msg, k))
        for k, (loc, msg) in sorted(new.items()):
            print("%s: %s\n    key=%s" % (loc, msg, k))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    return 0
