"""Shared machinery of the checks: obligations, findings, evidence, exit status."""
import json, os, sys, time, traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Check(object):
    def __init__(self, prop, repo=REPO):
        self.prop, self.repo = prop, repo
        self.t0 = time.time()
        self.obligations = []        # (rule, where, verdict, detail)
        self.stats = {}
        self._prog = None
        self.rules = {}
        self.notes = []

    # ---------------------------------------------------------------- source access
    @property
    def prog(self):
        if self._prog is None:
            from .model import Program
            self._prog = Program(self.repo)
        return self._prog

    def path(self, *p):
        return os.path.join(self.repo, *p)

    # ---------------------------------------------------------------- obligations
    def rule(self, name, text):
        self.rules[name] = text

    def ok(self, rule, where, detail=""):
        self.obligations.append((rule, where, "ok", detail))

    def undecided(self, rule, where, detail=""):
        self.obligations.append((rule, where, "undecided", detail))

    def violation(self, rule, where, detail):
        self.obligations.append((rule, where, "violation", detail))

    def require(self, cond, rule, where, detail):
        if cond:
            self.ok(rule, where)
        else:
            self.violation(rule, where, detail)
        return cond

    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    # ---------------------------------------------------------------- result
    def finish(self, level, assumptions=()):
        known = load_known(self.prop)
        viol, found, seen = [], [], set()
        for rule, where, verdict, detail in self.obligations:
            if verdict != "violation":
                continue
            k = next((k for k in known if k["rule"] == rule and k["match"] in (where + " " + detail)), None)
            if k is not None:
                if k["what"] not in seen:
                    seen.add(k["what"])
                    found.append(k["what"])
            else:
                viol.append((rule, where, detail))
        tier = os.environ.get("VERIF_TIER", "quick")
        tier = tier if tier in ("quick", "thorough") else "quick"
        counts = {}
        for rule, where, verdict, detail in self.obligations:
            c = counts.setdefault(rule, {"ok": 0, "violation": 0, "undecided": 0})
            c[verdict] += 1
        cov = {
            "explanation": "Static analysis of the source under %s. Each obligation is one (rule, program construct) pair "
                           "decided from the source text; 'undecided' ones gave no verdict." % self.repo,
            "rules": {r: {"rule": self.rules.get(r, ""), **c} for r, c in sorted(counts.items())},
            "obligations": len(self.obligations),
            "discharged": sum(1 for o in self.obligations if o[2] == "ok"),
            "undecided": sum(1 for o in self.obligations if o[2] == "undecided"),
            "analysed": dict(sorted(self.stats.items())),
            "undecided_constructs": ["%s: %s %s" % (o[0], o[1], o[3][:120]) for o in self.obligations if o[2] == "undecided"][:60],
            "samples": ["%s: %s" % (o[0], o[1]) for o in self.obligations if o[2] == "ok"][:40],
            "known_findings": found,
            "notes": self.notes,
        }
        doc = {"property": self.prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level,
               "coverage": cov, "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 3),
               "violations": len(viol)}
        evdir = os.environ.get("VERIF_EVIDENCE", os.path.join(ROOT, "evidence"))
        os.makedirs(evdir, exist_ok=True)
        with open(os.path.join(evdir, self.prop + ".json"), "w") as f:
            json.dump(doc, f, indent=1)
        for w in found:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, w))
        print("%s: %d obligations, %d discharged, %d undecided, %d violations (%.1fs)" % (
            self.prop, cov["obligations"], cov["discharged"], cov["undecided"], len(viol), doc["wall_s"]))
        if viol:
            replay = os.path.join(evdir, self.prop + ".violations.txt")
            with open(replay, "w") as f:
                for rule, where, detail in viol:
                    f.write("%s\n  at %s\n  %s\n  rule: %s\n" % (rule, where, detail, self.rules.get(rule, "")))
            for rule, where, detail in viol[:12]:
                print("  %s at %s: %s" % (rule, where, detail[:600]))
            print("VIOLATION property=%s replay=%s" % (self.prop, replay))
            return 1
        return 0


def load_known(prop):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop]
