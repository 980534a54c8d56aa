"""Findings, known findings, evidence and exit codes of one check run."""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "known_findings.json")


class Finding:
    def __init__(self, key, message, where="", detail=""):
        self.key = key
        self.message = message
        self.where = where
        self.detail = detail

    def as_dict(self):
        return {"key": self.key, "message": self.message, "where": self.where, "detail": self.detail}


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.findings = {}
        self.obligations = 0
        self.discharged = 0
        self.undecided = []
        self.counts = {}
        self.samples = []
        self.rule = ""
        self.assumptions = []
        self.floors = []          # (name, measured, minimum)

    def ok(self, n=1):
        self.obligations += n
        self.discharged += n

    def find(self, key, message, where="", detail=""):
        """a violated obligation"""
        self.obligations += 1
        if key not in self.findings:
            self.findings[key] = Finding(key, message, where, detail)

    def skip(self, what):
        """an obligation the analysis could not decide"""
        self.obligations += 1
        self.undecided.append(what)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, s, limit=8):
        if len(self.samples) < limit:
            self.samples.append(s)

    def floor(self, name, measured, minimum):
        """fewer instances than this means that the rule lost its anchors"""
        self.floors.append((name, measured, minimum))


def known():
    try:
        with open(KNOWN, encoding="utf-8") as fh:
            return json.load(fh)
    except FileNotFoundError:
        return {"findings": [], "fixed": []}


def _seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def finish(rep, tier, t0, level="other"):
    kf = {x["key"]: x for x in known()["findings"] if x["property"] == rep.prop}
    new = [f for k, f in sorted(rep.findings.items()) if k not in kf]
    old = [f for k, f in sorted(rep.findings.items()) if k in kf]
    os.makedirs(EVID, exist_ok=True)
    cov = {
        "explanation": rep.rule,
        "obligations": rep.obligations,
        "discharged": rep.discharged,
        "undecided": len(rep.undecided),
        "undecided_items": rep.undecided[:200],
        "known_findings": [f.as_dict() for f in old],
        "violations": [f.as_dict() for f in new],
        "samples": rep.samples,
    }
    cov.update(rep.counts)
    broken = [f for f in rep.floors if f[1] < f[2]]
    cov["anchors"] = [{"name": n, "measured": m, "minimum": k} for n, m, k in rep.floors]
    ev = {"property": rep.prop, "tier": tier, "seed": _seed(), "level": level,
          "coverage": cov, "assumptions": rep.assumptions, "wall_s": round(time.time() - t0, 3),
          "violations": len(new)}
    path = os.path.join(EVID, rep.prop + ".json")
    with open(path, "w", encoding="utf-8") as fh:
        json.dump(ev, fh, indent=1)
        fh.write("\n")
    for f in old:
        print(f"KNOWN-FINDING: property={rep.prop} {kf[f.key].get('what') or f.message}")
    if new:
        rp = os.path.join(EVID, rep.prop + ".replay.txt")
        with open(rp, "w", encoding="utf-8") as fh:
            for f in new:
                fh.write(f"{f.key}\n  at {f.where}\n  {f.message}\n  {f.detail}\n\n")
        for f in new[:40]:
            print(f"{rep.prop}: {f.where}: {f.message} [{f.key}] {f.detail}"[:1000])
        print(f"VIOLATION property={rep.prop} replay={rp}")
        return 1
    if broken:
        for n, m, k in broken:
            print(f"{rep.prop}: analysis broken: {n}: {m} instances, at least {k} expected", file=sys.stderr)
        return 3
    print(f"{rep.prop}: {rep.discharged}/{rep.obligations} obligations decided, {len(rep.undecided)} undecided, "
          f"{len(old)} known findings, {time.time() - t0:.1f}s")
    return 0
