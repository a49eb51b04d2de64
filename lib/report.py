"""Reporting: obligations, findings, known findings, evidence files, exit codes."""
import json, os, sys, time, traceback
from model import VERIF, AnalysisError, loc, text

class Check:
    def __init__(self, prop, rule, level="other"):
        self.prop, self.rule, self.level = prop, rule, level
        self.t0 = time.time()
        self.counts = {}
        self.floors = {}
        self.findings = []
        self.samples = []
        self.notes = []
        self.discharged = 0

    def ok(self, kind, where=None, why=None):
        """One obligation examined and discharged."""
        self.counts[kind] = self.counts.get(kind, 0) + 1
        self.discharged += 1
        if where is not None and sum(1 for s in self.samples if s["kind"] == kind) < 4:
            self.samples.append({"kind": kind, "where": where if isinstance(where, str) else site(where), "why": why or ""})

    def count(self, kind, n=1):
        self.counts[kind] = self.counts.get(kind, 0) + n

    def bad(self, kind, key, where, msg):
        """One obligation that fails. key identifies the finding independent of line numbers."""
        self.counts[kind] = self.counts.get(kind, 0) + 1
        if any(f["key"] == key for f in self.findings):
            k, i = key, 2
            while any(f["key"] == "%s#%d" % (k, i) for f in self.findings): i += 1
            key = "%s#%d" % (k, i)
        self.findings.append({"kind": kind, "key": key, "where": where if isinstance(where, str) else site(where), "msg": msg})

    def floor(self, kind, n):
        self.floors[kind] = n

    def finish(self, prog=None):
        known = load_known(self.prop)
        unlisted, listed = [], []
        for f in self.findings:
            (listed if f["key"] in known else unlisted).append(f)
        tier = os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        ev = {"property": self.prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": self.level,
              "coverage": {"explanation": self.rule, "counts": dict(sorted(self.counts.items())),
                           "obligations": self.discharged + len(self.findings), "discharged": self.discharged,
                           "samples": self.samples[:60]},
              "assumptions": self.notes, "wall_s": round(time.time() - self.t0, 2), "violations": len(unlisted)}
        if prog is not None:
            ev["coverage"]["translation_units"] = len(prog.tus)
            ev["coverage"]["functions_analysed"] = len(prog.fns)
        ev["coverage"]["known_findings"] = [f["key"] for f in listed]
        ev["coverage"]["findings"] = self.findings
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        with open(VERIF + "/evidence/%s.json" % self.prop, "w") as o:
            json.dump(ev, o, indent=1)
        low = ["%s=%d (floor %d)" % (k, self.counts.get(k, 0), n) for k, n in self.floors.items() if self.counts.get(k, 0) < n]
        for f in listed:
            print("KNOWN-FINDING: property=%s %s [%s] %s" % (self.prop, f["where"], f["key"], f["msg"]))
        if unlisted:
            rp = VERIF + "/evidence/%s.violation.json" % self.prop
            with open(rp, "w") as o:
                json.dump({"property": self.prop, "rule": self.rule, "violations": unlisted}, o, indent=1)
            if len(unlisted) > 15: print("(%d findings, the first 15 shown)" % len(unlisted))
            for f in unlisted[:15]:
                print("VIOLATION property=%s replay=%s" % (self.prop, rp))
                print("  %s: %s\n    [%s]" % (f["where"], f["msg"], f["key"]))
            return 1
        if low:
            print("ANALYSIS-BROKEN property=%s instance counts below what was confirmed by hand: %s" % (self.prop, ", ".join(low)))
            return 2
        print("OK property=%s obligations=%d %s" % (self.prop, self.discharged + len(self.findings),
              " ".join("%s=%d" % kv for kv in sorted(self.counts.items()))))
        return 0

def site(n):
    return "%s (%s): %s" % (loc(n), n.fn.short if n.fn else "-", text(n)[:140])

def load_known(prop):
    p = VERIF + "/known_findings.json"
    if not os.path.exists(p): return {}
    return {e["key"]: e for e in json.load(open(p)) if e.get("property") == prop and e.get("status", "open") == "open"}

def main(prop, fn):
    try:
        rc = fn()
    except AnalysisError as e:
        print("ANALYSIS-ERROR property=%s %s" % (prop, e)); rc = 2
    except Exception:
        traceback.print_exc(); rc = 2
    sys.exit(rc)
