"""Runs one property's check: obligations, bounded stand-in, evidence, verdict."""
import argparse
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("PVC_EVID", VERIF)


class Failure:
    """A concrete failing input, observed on the unmodified code of /repo."""

    def __init__(self, key, what, **data):
        self.key, self.what, self.data = key, what, data

    def json(self):
        return {"key": self.key, "what": self.what, **self.data}


class StandinResult:
    def __init__(self, name, bound):
        self.name, self.bound = name, bound
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.failures = []
        self.errors = []
        self.wall = 0.0

    def case(self, key=None, sample=None):
        self.evaluations += 1
        if key is not None:
            self.distinct.add(key)
        if sample is not None and len(self.samples) < 8:
            self.samples.append(sample)

    def fail(self, key, what, **data):
        if len(self.failures) < 50:
            self.failures.append(Failure(key, what, **data))


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("#"):
                d = json.loads(line)
                if d.get("property") == prop and d.get("status") == "known":
                    out.append(d)
    return out


def run(prop, mod, tier, seed):
    from . import loader, hooks as hk, engine
    t0 = time.time()
    quick = tier == "quick"
    budget = 500 if quick else 3000
    deadline = t0 + budget
    hooks = hk.Hooks()
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "proof"}
    vcs = []
    load_error = None
    try:
        ns = loader.load(True, hooks)
    except BaseException:
        load_error = traceback.format_exc()
        ns = None
    if ns is not None:
        for vc in getattr(mod, "VCS", []):
            persist = {}
            for _ in range(4 * vc.get("infer", 0)):
                # passes that only collect candidate loop invariants, up to a
                # fixpoint; the final pass proves them inductive
                before = repr(persist)
                engine.run_vc(vc["fn"], vc["name"], ns, hooks, inferring=True, persist=persist,
                              max_paths=vc.get("max_paths", 60000),
                              deadline=min(deadline, time.time() + vc.get("budget", 200)))
                if repr(persist) == before:
                    break
            cx = engine.run_vc(vc["fn"], vc["name"], ns, hooks, persist=persist,
                               max_paths=vc.get("max_paths", 60000),
                               deadline=min(deadline, time.time() + vc.get("budget", 200)))
            vcs.append((vc, cx))
    obligations = discharged = 0
    refuted, undecided = [], []
    per_vc = []
    z3s = 0.0
    for vc, cx in vcs:
        n = sum(o["proved"] + o["refuted"] + o["unknown"] for o in cx.obl.values())
        d = sum(o["proved"] for o in cx.obl.values())
        vac = [p for p in vc.get("covers", []) if not cx.covers.get(p)]
        status = "proved"
        if n == 0:
            status = "undecided: no obligation was generated"
            undecided.append((vc["name"], status))
        if cx.failures:
            status = "refuted"
            for f in cx.failures:
                refuted.append((vc, f))
        elif cx.undecided:
            status = "undecided: " + cx.undecided[0][1][:300]
            undecided.append((vc["name"], cx.undecided[0][1]))
        elif vac:
            status = f"undecided: vacuous, never reached {vac}"
            undecided.append((vc["name"], status))
        elif cx.bounded:
            status = "bounded: " + "; ".join(sorted(cx.bounded))
        if status == "proved":
            obligations += n
            discharged += d
        elif status == "refuted" or status.startswith("undecided"):
            obligations += max(n, 1)
            discharged += 0 if cx.failures else min(d, max(n - 1, 0))
        z3s += cx.solver_s
        per_vc.append({
            "vc": vc["name"], "functions": vc.get("functions", []), "status": status,
            "obligations": n, "discharged": d if not cx.bounded else 0,
            "clauses": {k: v for k, v in sorted(cx.obl.items())},
            "paths": cx.paths, "solver_calls": cx.z3_calls, "solver_s": round(cx.solver_s, 3),
            "ground": cx.ground, "wall_s": round(cx.wall, 2), "covers": cx.covers,
            "assumed": sorted(cx.assumed) + vc.get("assumes", []),
        })
    # bounded stand-ins on the unmodified code
    stand = []
    for si in getattr(mod, "STANDINS", []):
        r = StandinResult(si["name"], si["bound"])
        s0 = time.time()
        try:
            si["fn"](r, tier, seed, min(deadline + 60, time.time() + (si.get("budget", 120) if quick else si.get("thorough", 1200))))
        except BaseException:
            if sys.exc_info()[0] is KeyboardInterrupt:
                raise
            r.errors.append(traceback.format_exc()[-3000:])
        r.wall = time.time() - s0
        stand.append(r)
    known = known_findings(prop)

    def found():
        return any(f.key not in [d["key"] for d in known] for r in stand for f in r.failures)
    if refuted and not found():
        # an obligation fails: look longer for a program that shows it
        until = min(time.time() + 200, t0 + 600)
        more = 1
        while time.time() < until and not found() and more < 8:
            for si, r in zip(getattr(mod, "STANDINS", []), stand):
                if r.errors or time.time() > until:
                    continue
                try:
                    si["fn"](r, tier, seed + 1000 * more, min(until, time.time() + 60))
                except BaseException:
                    if sys.exc_info()[0] is KeyboardInterrupt:
                        raise
                    break
                if found():
                    break
            more += 1
    # replay refuted obligations
    viol = []
    hits = set()
    for r in stand:
        for f in r.failures:
            k = [d for d in known if d["key"] == f.key]
            if k:
                hits.add(k[0]["key"])
                continue
            viol.append((f.json(), True, r.name))
    seen = set()
    for vc, f in refuted:
        if f["clause"] in seen:
            continue
        seen.add(f["clause"])
        rep = None
        if vc.get("replay"):
            try:
                rep = vc["replay"](f)
            except BaseException:
                rep = {"confirmed": False, "error": traceback.format_exc()[-1500:]}
        kf = [d for d in known if d["key"] == "vc:" + f["clause"]]
        if kf:
            hits.add(kf[0]["key"])
            continue
        data = {"obligation": f["clause"], "vc": vc["name"], "functions": vc.get("functions"),
                "verifier_output": f, "replay": rep}
        viol.append((data, bool(rep and rep.get("confirmed")), vc["name"]))
    for d in known:
        print(f"KNOWN-FINDING: property={prop} {d['what']}")
    os.makedirs(os.path.join(EVID, "evidence", "replay"), exist_ok=True)
    import glob
    for old in glob.glob(os.path.join(EVID, "evidence", "replay", prop + "-*.json")):
        os.unlink(old)
    viol.sort(key=lambda v: not v[1])
    has_real = any(v[1] for v in viol)
    lines = []
    n = 0
    for data, real, src in viol:
        n += 1
        p = os.path.join(EVID, "evidence", "replay", f"{prop}-{n:03d}.json")
        with open(p, "w") as fh:
            json.dump({"property": prop, "source": src, "failing_input": real, **data}, fh,
                      indent=1, default=str, ensure_ascii=False)
        if n <= 10:
            tail = "" if real else " no-failing-input-found"
            # a replayed failure speaks for the obligations it explains
            if real or not has_real:
                lines.append(f"VIOLATION property={prop} replay={p}{tail}")
    fatal = None
    if load_error:
        undecided.append(("load", load_error[-800:]))
    if not viol:
        working = [r for r in stand if r.evaluations and not r.errors]
        if not working and (undecided or not vcs or obligations == 0):
            fatal = "nothing could be decided: " + "; ".join(r.errors[0] for r in stand if r.errors)
    ev["coverage"] = {
        "obligations": obligations, "discharged": discharged,
        "checker_cmd": f"python3-vt /verif/run_check.py {prop} --tier {tier}",
        "trusted_base": list(getattr(mod, "TRUSTED", [])) + COMMON_TRUST,
        "verification_conditions": per_vc,
        "functions_under_contract": sorted({f for vc, _ in vcs for f in vc.get("functions", [])}),
        "back_end": "pvc symbolic execution of the real source; z3 %s" % _z3v(),
        "solver_s": round(z3s, 2),
        "refuted": [{"vc": vc["name"], "clause": f["clause"], "path": f["path"][-12:]} for vc, f in refuted[:20]],
        "undecided": [{"vc": a, "why": b[:400]} for a, b in undecided[:20]],
        "bounded_stand_ins": [{
            "name": r.name, "bound": r.bound, "evaluations": r.evaluations,
            "distinct_nontrivial": len(r.distinct), "samples": r.samples[:5],
            "failures": len(r.failures), "errors": r.errors[:1], "wall_s": round(r.wall, 2)} for r in stand],
        "evaluations": sum(r.evaluations for r in stand),
        "distinct_nontrivial": sum(len(r.distinct) for r in stand),
        "rule": "stand-in cases only; see bounded_stand_ins[].bound; distinct by input",
        "samples": [s for r in stand for s in r.samples[:2]],
    }
    ev["assumptions"] = list(getattr(mod, "ASSUMPTIONS", [])) + sorted(
        {a for v in per_vc for a in v["assumed"]})
    ev["violations"] = len(viol)
    ev["wall_s"] = round(time.time() - t0, 2)
    with open(os.path.join(EVID, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str, ensure_ascii=False)
    for r in stand:
        print(f"{prop}: stand-in {r.name}: {r.evaluations} evaluations, {len(r.distinct)} distinct, "
              f"{len(r.failures)} failures, {r.wall:.1f}s" + (" ERROR " + r.errors[0] if r.errors else ""))
    print(f"{prop}: {discharged}/{obligations} obligations discharged over "
          f"{len(vcs)} verification conditions, {len(refuted)} refuted paths, {len(undecided)} undecided, "
          f"solver {z3s:.1f}s, wall {ev['wall_s']}s")
    for vc, f in refuted[:5]:
        print("  refuted:", vc["name"], f["clause"], f["path"][-8:], f["info"])
    for a, b in undecided[:8]:
        print("  undecided:", a, b[-700:])
    for l in lines:
        print(l)
    if viol:
        return 1
    if fatal:
        print("CHECK ERROR:", fatal)
        return 2
    return 0


COMMON_TRUST = [
    "pvc: the verifier in /verif/pvc (path exploration, loop rule, symbolic values)",
    "CPython 3.12 executing the instrumented source",
    "z3 5.3",
]


def _z3v():
    import z3
    return z3.get_version_string()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    a = ap.parse_args()
    import importlib
    sys.path.insert(0, VERIF)
    sys.setrecursionlimit(5000)
    mod = importlib.import_module("checks." + a.prop.lower())
    sys.exit(run(a.prop, mod, a.tier, a.seed))
