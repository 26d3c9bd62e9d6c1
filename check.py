#!/usr/bin/env python3
"""check.py PROPERTY: decides one property for /repo's current working tree (see DESIGN.md)."""
import json, os, shutil, subprocess, sys, tempfile, threading, time
import vf

VERIF = vf.VERIF
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = 1

QUICK_MS, QUICK_SHARDS, EXTRA_MS = 16000, 6, 45000
THOROUGH_MS, THOROUGH_SHARDS = 600000, 7


def prove(prop, scratch, box):
    try:
        import prover
        box["proof"] = prover.run(prop, TIER, scratch, box)
    except Exception as e:  # never let a broken tool look like an answer
        import traceback
        box["proof"] = {"error": traceback.format_exc(), "obligations": [], "functions": []}


def main():
    prop = sys.argv[1]
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="zanzi-verif-")
    rc = 0
    try:
        box = {}
        th = threading.Thread(target=prove, args=(prop, scratch, box))
        th.start()
        binary, note = vf.build(scratch)
        failure, cov = None, {"evaluations": 0, "operations": 0, "distinct_nontrivial": 0, "operations_by_kind": {}, "notes": []}
        ms, shards = (QUICK_MS, QUICK_SHARDS) if TIER == "quick" else (THOROUGH_MS, THOROUGH_SHARDS)
        if binary:
            failure, cov = vf.explore(binary, scratch, prop, SEED, ms, shards)
        if note:
            cov["notes"].append(note)
        if failure:
            # a failing input settles it
            box["ended"] = True
            import prover
            while th.is_alive():
                prover.stop(box)
                th.join(1)
        th.join()
        proof = box["proof"]
        failed = [o for o in proof["obligations"] if o["status"] != "discharged"]
        if proof.get("error"):
            failed.append({"name": "prover", "status": "error", "detail": proof["error"]})
        if failed and not failure and binary:
            # look longer for an input that shows the failed obligation
            failure, cov2 = vf.explore(binary, scratch, prop, SEED + 7919, EXTRA_MS, 7)
            for k in ("evaluations", "operations", "distinct_nontrivial"):
                cov[k] += cov2[k]
        replay = os.path.join(VERIF, "evidence", "replay-%s.json" % prop)
        if os.path.exists(replay):
            os.remove(replay)
        if failure:
            failure["how_to_rerun"] = ("cd /verif && python3 replay.py %s %s %s" % (prop, failure.get("seed"), failure.get("case")))
            failure["failed_obligations"] = [{k: o.get(k) for k in ("name", "status", "detail")} for o in failed][:20]
            json.dump(failure, open(replay, "w"), indent=1)
            print(str(failure.get("message"))[:2000])
            for o in failed[:5]:
                print("failed obligation: %s" % o["name"])
            print("VIOLATION property=%s replay=%s" % (prop, replay))
            rc = 1
        elif failed:
            json.dump({"property": prop, "failed_obligations": failed[:50],
                       "note": "the verifier did not discharge these obligations; the bounded search found no failing input"},
                      open(replay, "w"), indent=1)
            for o in failed[:10]:
                print("failed obligation: %s: %s" % (o["name"], str(o.get("detail", ""))[:600]))
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay))
            rc = 1
        write_evidence(prop, proof, cov, failed, failure, rc, time.time() - t0, ms, shards)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if rc == 0:
        print("OK property=%s obligations=%d bounded_cases=%d" % (prop, len(proof["obligations"]), cov["evaluations"]))
    return rc


def write_evidence(prop, proof, cov, failed, failure, rc, wall, ms, shards):
    level = "proof" if proof["obligations"] else "exploration"
    c = {}
    if proof["obligations"]:
        c.update({
            "obligations": len(proof["obligations"]),
            "discharged": sum(o["status"] == "discharged" for o in proof["obligations"]),
            "checker_cmd": "cd /verif && python3 check.py %s" % prop,
            "trusted_base": proof.get("trusted_base", []),
            "functions_under_contract": proof.get("functions", []),
            "inlined_functions": proof.get("inlined", []),
            "vacuity_guards": proof.get("guards", {}),
            "by_back_end": proof.get("by_solver", {}),
            "solver_s": proof.get("solver_s", 0),
        })
    b = {
        "evaluations": cov["evaluations"], "distinct_nontrivial": cov["distinct_nontrivial"],
        "rule": "seeded random histories of service calls against the real code, judged by executable specifications; "
                "a case counts as non-trivial when it makes more than two calls, and as distinct by the hash of its calls",
        "samples": ["%d calls: %s" % (cov["operations"], json.dumps(cov["operations_by_kind"], sort_keys=True))],
        "bound": "%d ms on %d processes, seed %d; labelled bounded, never counted as proved" % (ms, shards, SEED),
        "notes": cov["notes"][:20],
    }
    if proof["obligations"]:
        c["bounded_stand_in"] = b
    else:
        c.update(b)
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": level, "coverage": c,
          "assumptions": proof.get("assumptions", []), "wall_s": round(wall, 2), "violations": 1 if rc else 0}
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)


if __name__ == "__main__":
    sys.exit(main())
