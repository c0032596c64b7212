#!/usr/bin/env python3
"""run.py <property id> [--tier quick|thorough]   decides one property against /repo's current tree
run.py --replay <file>                           re-runs a recorded counterexample natively"""
import argparse, json, os, re, sys, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib")); sys.path.insert(0, HERE)
import engine
from concurrent.futures import ThreadPoolExecutor, as_completed
import checks

COMMON_TRUST = [
    "cbmc 6.11.0 / goto-cc / goto-instrument (C semantics, LP64, little endian, signed char) and its CaDiCaL SAT back end",
    "harness specification functions in /verif/harness (the contracts' right-hand sides)",
]


def known(pid):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: property=%s " % pid):
                m = re.match(r"known: property=\S+ match=/(.*?)/ (.*)", l)
                if m: out.append((re.compile(m.group(1)), m.group(2)))
    return out


def write_replay(pid, r, how):
    d = os.path.join(HERE, "evidence"); os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s.replay.json" % pid)
    job = r["harness_job"]
    doc = {"property": pid, "job": r["job"], "case": r["case"], "how": how,
           "failed_obligations": r["failed"][:20], "undecided": r.get("why", ""),
           "values": r.get("confirmed_vals"), "native": (r.get("confirmed") or {}).get("out"),
           "counterexamples_tried": [{k: v for k, v in c.items()} for c in r.get("cex", [])],
           "harness": job.harness, "replay_cmd": "python3 /verif/run.py --replay " + path}
    with open(path, "w") as f: json.dump(doc, f, indent=1)
    return path


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid", nargs="?"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay"); ap.add_argument("--job"); ap.add_argument("-v", action="store_true")
    ap.add_argument("--nosearch", action="store_true"); ap.add_argument("--search", type=float, default=0)
    a = ap.parse_args()
    if a.replay:
        doc = json.load(open(a.replay))
        eng = engine.Engine(doc["property"], "quick", 1)
        try:
            job = [j for j in checks.CHECKS[doc["property"]].jobs if j.name == doc["job"]][0]
            defs = dict(job.cases)[doc["case"]]
            if not doc.get("values"):
                print("no failing input recorded; failed obligations:"); print(json.dumps(doc["failed_obligations"], indent=1)); return 0
            st = eng.replay(job, doc["case"], defs, doc["values"])
            print(st["out"]); print("confirmed" if st["confirmed"] else "not reproduced"); return 1 if st["confirmed"] else 0
        finally: eng.close()
    pid, tier = a.pid, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    chk = checks.CHECKS[pid]
    eng = engine.Engine(pid, tier, seed)
    t0 = time.time()
    budget = 640 if tier == "quick" else 3 * 3600
    try:
        work = []
        for j in chk.jobs:
            if j.tier == "thorough" and tier != "thorough": continue
            if j.tier == "quickonly" and tier == "thorough": continue
            if a.job and not re.search(a.job, j.name): continue
            for label, defs in j.cases: work.append((j, label, defs))
        results = []

        stop = threading.Event()

        def is_known(r):
            return any(rx.search("%s/%s %s" % (r["job"], r["case"], (r.get("confirmed_prop") or "") + " " + r["confirmed"]["out"])) for rx, _ in known(pid))

        def one(w):
            j, label, defs = w
            if a.search:
                s = eng.search(j, label, defs, a.search)
                r = {"job": j.name, "case": label, "obl": 0, "ok": 0, "time": 0, "covers": 0, "failed": [], "why": "", "outcome": "proved", "harness_job": j, "defs": defs, "bounded": None}
                if s: r["why"] = s["out"]
                if s and s["confirmed"]: r["outcome"] = "failed"; r["confirmed"] = s; r["confirmed_vals"] = s["vals"]
                return r
            if stop.is_set() and not a.v:
                return {"job": j.name, "case": label, "obl": 0, "ok": 0, "time": 0, "covers": 0, "failed": [], "why": "not run: a violation was already confirmed",
                        "outcome": "skipped", "harness_job": j, "defs": defs, "bounded": j.bounded}
            left = budget - (time.time() - t0)
            if left < 5:
                return {"job": j.name, "case": label, "obl": 0, "ok": 0, "time": 0, "covers": 0, "failed": [], "why": "time budget used up",
                        "outcome": "undecided", "harness_job": j, "defs": defs, "bounded": j.bounded}
            return eng.run_case(j, label, defs)
        with ThreadPoolExecutor(engine.NPROC) as ex:
            futs = [ex.submit(one, w) for w in work]
            for f in as_completed(futs):
                r = f.result(); results.append(r)
                if r.get("confirmed") and not is_known(r): stop.set()
                if a.v:
                    print("%-9s %-28s %-14s obl=%d ok=%d covers=%d %.1fs %s" % (r["outcome"], r["job"], r["case"], r["obl"], r["ok"], r["covers"], r["time"], r["why"][-400:]))
                    for x in r["failed"][:12]: print("      FAILED %s:%s %s  [%s]" % (os.path.basename(x["file"] or "?"), x["line"], x["description"], x["property"]))
                    for c in r.get("cex", []): print("      cex %s -> confirmed=%s %s" % (c["property"], c["native"]["confirmed"], c["native"]["out"][:300].replace("\n", " ")))
                    sys.stdout.flush()
        # fall-backs: native search where the proof failed without a replayed input, or was undecided
        open_ = [r for r in results if r["outcome"] not in ("proved", "skipped") and not r.get("confirmed")]
        searched = 0
        if open_ and not any(r.get("confirmed") for r in results) and not a.nosearch:
            left = max(20, min(200, 840 - (time.time() - t0))) if tier == "quick" else 1200
            per = max(2.0, min(max(r["harness_job"].nsecs for r in open_), left * engine.NPROC / max(1, len(open_)) - 3))

            def srch(r): return r, eng.search(r["harness_job"], r["case"], r["defs"], per)
            with ThreadPoolExecutor(engine.NPROC) as ex:
                for r, s in ex.map(srch, open_):
                    if not s: continue
                    searched += 1
                    r["search"] = s["out"][-300:]
                    if s["confirmed"]:
                        r["confirmed"] = s; r["confirmed_vals"] = s["vals"]
        kn = known(pid)
        used = set()
        viol = []
        for r in results:
            if r["outcome"] in ("proved", "skipped") and not r.get("confirmed"): continue
            if r.get("confirmed"):
                viol.append((0, r, (r.get("confirmed_prop") or "") + " " + r["confirmed"]["out"]))
            elif r["outcome"] == "failed" and not r.get("nobody"):
                viol.append((1, r, " ; ".join(x["description"] for x in r["failed"])))
        real = []
        for w, r, text in viol:
            hit = None
            for rx, desc in kn:
                if rx.search("%s/%s %s" % (r["job"], r["case"], text)): hit = desc; break
            if hit: used.add(hit)
            else: real.append((w, r, text))
        for d in sorted(used): print("KNOWN-FINDING: property=%s %s" % (pid, d))
        undec = [r for r in results if r["outcome"] == "undecided" or (r["outcome"] == "failed" and r.get("nobody") and not r.get("confirmed"))]
        obl = sum(r["obl"] for r in results if not r["bounded"]); okc = sum(r["ok"] for r in results if not r["bounded"])
        ev = {"property": pid, "tier": tier, "seed": seed, "level": chk.level,
              "coverage": {
                  "obligations": obl, "discharged": okc,
                  "checker_cmd": eng.cmds[0] if eng.cmds else "cbmc (not reached)",
                  "trusted_base": COMMON_TRUST + list(chk.trust),
                  "functions_under_contract": sorted(set(sum([list(j.under) for j, _, _ in work], []))),
                  "proof_cases": len(results), "proof_cases_discharged": sum(r["outcome"] == "proved" for r in results),
                  "vacuity_guards_reached": sum(r["covers"] for r in results),
                  "back_end": "CBMC 6.11.0 + CaDiCaL",
                  "solver_s": round(sum(r["time"] for r in results), 1),
                  "bounded_obligations": {r["job"] + "/" + r["case"]: {"bound": r["bounded"], "obligations": r["obl"], "discharged": r["ok"]} for r in results if r["bounded"]},
                  "undecided": [{"job": r["job"], "case": r["case"], "why": r["why"][:400], "native_search": r.get("search", "")} for r in undec],
                  "failed": [{"job": r["job"], "case": r["case"], "obligations": [x["description"] for x in r["failed"]][:10]} for r in results if r["outcome"] == "failed"],
                  "native_searches": searched,
                  "notes": sorted(set(r["why"][:200] for r in results if r["outcome"] == "proved" and r["why"])),
              },
              "assumptions": sorted(set(list(chk.assumptions) + sum([list(j.assumptions) for j, _, _ in work], []))),
              "wall_s": round(time.time() - t0, 1), "violations": len(real)}
        if chk.level != "proof": ev["coverage"]["explanation"] = chk.note
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
        for r in undec: print("UNDECIDED %s/%s: %s" % (r["job"], r["case"], r["why"][:300].replace("\n", " ")))
        print("%s: %d/%d obligations discharged in %d proof cases, %d undecided, %.1fs" % (pid, okc, obl, len(results), len(undec), time.time() - t0))
        if real:
            real.sort(key=lambda x: x[0])
            w, r, text = real[0]
            path = write_replay(pid, r, "counterexample replayed natively" if w == 0 else "failed obligation")
            print("  failed: %s/%s: %s" % (r["job"], r["case"], text[:600].replace("\n", " ")))
            print("VIOLATION property=%s replay=%s%s" % (pid, path, "" if w == 0 else " no-failing-input-found"))
            return 1
        return 0
    finally:
        eng.close()


if __name__ == "__main__":
    sys.exit(main())
