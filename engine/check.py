#!/usr/bin/env python3
"""check.py ID: decide one property on /repo's working tree. Exit 0 held, 1 violated, 2 the analysis is broken."""
import importlib
import json
import os
import sys
import time
import traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from ef import front, oblig, par, props

VERIF = front.VERIF


class Broken(Exception):
    pass


def known():
    """{(property, key): text} of the committed known findings"""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: "):
                f = dict(x.split("=", 1) for x in l[7:].split(" ", 2)[:2])
                out[(f["property"], f["key"])] = l[7:].split(" ", 2)[2]
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    front.TIER = tier
    t0 = time.time()
    db = front.load()
    P = props.PROPS[pid]
    obs = []
    for modname, flt in P.get("obligations", []):
        mod = importlib.import_module("ef." + modname)
        obs += [o for o in mod.OBS if flt(o)]
    res = []
    broken, gone = [], []

    def one(o):
        return [dict(name=o.name, status=r.status, where=oblig.loc(r.fn) if r.fn else "", fn=r.fn["q"] if r.fn else o.code, detail=r.detail, effective=r.effective, tried=r.trials, thrown=r.thrown,
                     witness=r.witness, distinct=getattr(r, "distinct", 0)) for r in oblig.run(db, o, tier, seed)]
    for o, r in zip(obs, par.pmap(one, obs, limit=250 if tier == "quick" else 900, until=t0 + (700 if tier == "quick" else 10000))):
        if r[0]:
            res += r[1]
        elif r[2] == "NoFunction":
            gone.append(r[1].split("\n")[0])
            res.append(dict(name=o.name, status="unresolved", where="", fn=o.code, detail=r[1].split("\n")[0], effective=0, tried=0, thrown=0, witness=None, distinct=0))
        elif r[2] == "Missing":
            gone.append(r[1].split("\n")[0])
            res.append(dict(name=o.name, status="unresolved", where="", fn=o.code, detail=r[1].split("\n")[0], effective=0, tried=0, thrown=0, witness=None, distinct=0))
        else:
            res.append(dict(name=o.name, status="unresolved", where="", fn=o.code, detail=r[1].split("\n")[0], effective=0, tried=0, thrown=0, witness=None, distinct=0))
    if obs and 2 * len(gone) > len(obs):
        broken.append("most of what this property is about cannot be analysed: " + "; ".join(gone[:3]))
    rules = []
    for modname, fname in P.get("rules", []):
        mod = importlib.import_module("ef." + modname)
        try:
            rr = par.pmap(lambda x: getattr(mod, fname)(db, tier, seed), [0], limit=120 if tier == "quick" else 700)[0]
            if not rr[0]:
                broken.append("rule %s.%s: %s" % (modname, fname, rr[1]))
            else:
                rules.append(rr[1])
        except Exception:
            broken.append(traceback.format_exc())
    viol = []
    for r in res:
        if r["status"] == "violated":
            viol.append(dict(key="%s@%s" % (r["name"].replace(" ", "_"), r["fn"].split("::")[-1]), text="%s (%s): %s" % (r["fn"], r["where"], r["detail"]), extra=r))
    for r in rules:
        for v in r["violations"]:
            viol.append(dict(key=v["key"].replace(" ", "_"), text=v["text"], extra=v))
        if r["instances"] < r.get("expect", 1):
            broken.append("rule %s: %d instances found, at least %d confirmed by hand" % (r["name"], r["instances"], r.get("expect", 1)))
    kn = known()
    fresh, listed = [], []
    for v in viol:
        (listed if (pid, v["key"]) in kn else fresh).append(v)
    write_evidence(pid, tier, seed, P, res, rules, fresh, listed, broken, time.time() - t0, db)
    for v in listed:
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, v["key"], kn[(pid, v["key"])]))
    for g in gone:
        print("UNRESOLVED: " + g)
    cnt = {}
    for r in res:
        cnt[r["status"]] = cnt.get(r["status"], 0) + 1
    print("%s: %d obligations %s; %s" % (pid, len(res), cnt, "; ".join("%s: %d instances, %d violations" % (r["name"], r["instances"], len(r["violations"])) for r in rules)))
    if fresh:
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, pid + ".txt")
        with open(path, "w") as f:
            f.write("property %s: %s\n\n" % (pid, P["title"]))
            for v in fresh:
                f.write("%s\n  %s\n" % (v["key"], v["text"]))
                w = (v["extra"] or {}).get("witness")
                if w:
                    f.write("  separating interpretation of the inputs:\n" + "".join("    %s = %s\n" % kv for kv in sorted(w.items())))
                f.write("\n")
            f.write("reproduce: cd /verif && python3 engine/check.py %s\n" % pid)
        for v in fresh:
            print("  " + v["text"])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if broken:
        for b in broken:
            print("ANALYSIS-BROKEN " + b)
        return 2
    return 0


def write_evidence(pid, tier, seed, P, res, rules, fresh, listed, broken, wall, db):
    st = lambda s: sum(1 for r in res if r["status"] == s)
    samples = [dict(obligation=r["name"], function=r["fn"], where=r["where"], status=r["status"], detail=r["detail"]) for r in res]
    for r in rules:
        samples += [dict(rule=r["name"], instance=s) for s in r.get("samples", [])[:40]]
    cov = {
        "explanation": P["explanation"],
        "functions_analysed": sorted({r["fn"] + " " + r["where"] for r in res if r["where"]}),
        "obligations": len(res), "discharged": st("discharged"), "unrefuted": st("unrefuted"), "unresolved": st("unresolved"), "violated": st("violated"),
        "interpretations_tried": sum(r["tried"] for r in res), "interpretations_effective": sum(r["effective"] for r in res),
        "rules": [dict(name=r["name"], rule=r["rule"], instances=r["instances"], expected_at_least=r.get("expect", 1), violations=len(r["violations"]), unresolved=r.get("unresolved", [])) for r in rules],
        "rule_instances": sum(r["instances"] for r in rules),
        "program": {"functions": len(db.functions), "records": len(db.records), "parse_errors": {k: v for k, v in db.errors.items() if v}},
        "known_findings": [v["key"] for v in listed], "broken": broken,
        "samples": samples[:150],
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "assumptions": P.get("assumptions", []) + ASSUME, "wall_s": round(wall, 2), "violations": len(fresh)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", pid + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)


ASSUME = ["machine integers do not overflow and floating point arithmetic is exact (reals)", "the clang front end's view of the sources (with -fpermissive and the build's defines) is the program that is built",
          "'unrefuted' and 'unresolved' obligations are not decided: they are reported here and never raise an alarm"]

if __name__ == "__main__":
    try:
        sys.exit(main())
    except front.FrontError as e:
        print("ANALYSIS-BROKEN front end: %s" % e)
        sys.exit(2)
