"""Runs the verification-condition generator (engine/) on /repo's working tree and reports every obligation."""
import json, os, signal, subprocess, time

VERIF = os.path.dirname(os.path.abspath(__file__))
BIN = os.path.join(VERIF, "bin", "zprove")
ENV = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local")

TRUSTED = [
    "golang.org/x/tools/go/ssa: translation of Go source to SSA",
    "/verif/engine: weakest-precondition generator over SSA, loop summaries, simplifier, SMT printing",
    "z3 4.8.12 and newer, cvc5 1.1.2: unsat answers",
]
ASSUMPTIONS = [
    "integers are mathematical (no overflow); strings are an uninterpreted sort with equality, constants and injective construction where stated",
    "slices are values: append never writes through an alias another live slice reads",
    "messages held by the store are values: a stored reference stands for its contents and is not mutated afterwards",
    "requests are as received from the wire: repeated messages and oneof payloads are not nil pointers (VWire)",
    "package-level variables keep their initial value; loggers have no effect; context values are ignored",
    "protobuf getters, generated Validate methods (when they carry no rule), fmt and errors behave as documented",
    "sequential execution; allocation does not fail; the underlying key-value store does not fail (VStoreOK) where stated",
]


def build():
    if os.path.exists(BIN):
        return
    os.makedirs(os.path.dirname(BIN), exist_ok=True)
    subprocess.run(["go", "build", "-o", BIN, "."], cwd=os.path.join(VERIF, "engine"), env=ENV, check=True)


def call(prop, tier, scratch, disable, budget, box):
    first, rest = ("4", "25") if tier == "quick" else ("10", "120")
    d = os.path.join(scratch, "smt%d" % len(disable))
    os.makedirs(d, exist_ok=True)
    p = subprocess.Popen([BIN, "-prop", prop, "-dir", d, "-first", first, "-rest", rest, "-budget", str(budget), "-disable", ",".join(disable)],
                         env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
    box["process"] = p
    try:
        out, err = p.communicate(timeout=budget + 80)
    except subprocess.TimeoutExpired:
        stop(box)
        p.communicate()
        return None
    if box.get("stopped"):
        return None
    try:
        r = json.loads(out)
    except ValueError:
        raise RuntimeError("zprove: " + err[-2000:])
    if r.get("error"):
        raise RuntimeError("zprove: " + r["error"])
    return r


def stop(box):
    """ends the prover and its solvers"""
    box["stopped"] = True
    p = box.get("process")
    if p and p.poll() is None:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass


def run(prop, tier, scratch, box):
    build()
    t0 = time.time()
    disable, history = [], []
    first = None
    budgets = (330, 150, 100) if tier == "quick" else (2400, 1200, 600)
    limit = 480 if tier == "quick" else 4000
    for attempt in range(3):
        if attempt and (box.get("stopped") or time.time() - t0 + budgets[attempt] > limit):
            break
        x = call(prop, tier, scratch, disable, budgets[attempt], box)
        if x is None:
            if first is None:
                first = r = {"obligations": [] if box.get("ended") else [
                    {"name": "all obligations of " + prop, "status": "failed", "function": "", "contract": "", "top": True,
                     "detail": "not decided within the time limit"}]}
                obls = r["obligations"]
            break
        r = x
        obls = r["obligations"] or []
        bad = [o for o in obls if o["status"] != "discharged"]
        if first is None:
            first = r
        # contracts of helpers are stepping stones: where one no longer fits, its function is inlined into its callers,
        # and the contracts of the operations themselves have to be established without it
        helpers = sorted({o["contract"] for o in bad if not o["top"]})
        if not bad or not helpers or attempt == 2:
            break
        history.append({"contracts not established, functions inlined instead": helpers})
        disable += helpers
    notes = list(r.get("notes") or [])
    return {
        "obligations": [{"name": o["name"], "status": o["status"], "where": o.get("where", ""), "function": o["function"],
                         "detail": (o.get("detail") or o.get("where") or "")} for o in obls],
        "functions": r.get("functions") or [],
        "inlined": r.get("inlined") or [],
        "guards": r.get("guards") or {},
        "by_solver": r.get("by_solver") or {},
        "solver_s": round(r.get("solver_s") or 0, 2),
        "trusted_base": TRUSTED + ["assumed contract: " + a for a in (r.get("assumed_contracts") or [])],
        "assumptions": ASSUMPTIONS + notes + ["contract not applied: " + d for d in (r.get("dropped") or [])],
        "lemmas": r.get("lemmas") or [],
        "history": history,
    }
