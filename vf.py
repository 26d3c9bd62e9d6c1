"""Bounded concrete executions of the real services against executable specifications.

Used (a) to look for a concrete failing input for a failed proof obligation and (b) as the labelled
bounded stand-in for the parts the prover does not reach.  Nothing here counts as proved.
"""
import glob, json, os, re, resource, shutil, subprocess, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
ENV = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOTRACEBACK="single")


def source_constants():
    """Literals of the current source, used to steer generators towards special cased values."""
    strs, ints = set(), set()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = [d for d in dirs if d not in (".git", "test", "tests", "vendor", "examples")]
        for f in files:
            if not f.endswith(".go") or f.endswith("_test.go") or ".pb." in f:
                continue
            try:
                src = open(os.path.join(root, f), encoding="utf-8", errors="replace").read()
            except OSError:
                continue
            src = re.sub(r"//[^\n]*", "", src)
            src = re.sub(r'import\s*\(.*?\)', "", src, flags=re.S)
            for m in re.finditer(r'"((?:[^"\\\n]|\\.)*)"', src):
                try:
                    v = json.loads('"' + m.group(1) + '"')
                except ValueError:
                    continue
                if len(v) <= 24 and "%" not in v:
                    strs.add(v)
            for m in re.finditer(r"'((?:[^'\\\n]|\\.)+)'", src):
                if len(m.group(1)) <= 2 and not m.group(1).startswith("\\"):
                    strs.add(m.group(1))
            for m in re.finditer(r"(?<![\w.])(\d{1,5})(?![\w.])", src):
                n = int(m.group(1))
                if 2 < n <= 4096:
                    ints.add(n)
    return {"Strings": sorted(strs), "Ints": sorted(ints)}


def build(scratch):
    """Compiles the harness against /repo's working tree; returns (binary, note)."""
    out = os.path.join(scratch, "vf.test")
    last = ""
    for alt in (False, True):
        rep = {}
        for f in sorted(glob.glob(os.path.join(VERIF, "harness", "*_test.go"))):
            src = f
            if os.path.basename(f) == "vf_glue_test.go" and alt:
                src = os.path.join(VERIF, "harness", "glue_alt.txt")
            rep[os.path.join(REPO, "test", os.path.basename(f))] = src
        ov = os.path.join(scratch, "overlay.json")
        json.dump({"Replace": rep}, open(ov, "w"))
        p = subprocess.run(["go", "test", "-overlay", ov, "-c", "-o", out, "./test"], cwd=REPO, env=ENV,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0 and os.path.exists(out):
            return out, ("alternative glue: the parser and YAML reader were only reached through the services" if alt else "")
        last = p.stdout
    return None, "harness does not compile against this tree:\n" + last[-3000:]


def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    os.setpgid(0, 0)


class Shard:
    def __init__(self, binary, scratch, prop, seed, ms, k, extra=None):
        self.binary, self.scratch, self.prop, self.seed, self.ms, self.k = binary, scratch, prop, seed, ms, k
        self.start, self.t0, self.restarts = 0, time.time(), 0
        self.summaries, self.failure, self.notes = [], None, []
        self.extra = extra or {}
        self.spawn()

    def path(self, n):
        return os.path.join(self.scratch, "%s.%d" % (n, self.k))

    def spawn(self):
        left = self.ms - (time.time() - self.t0) * 1000
        if left < 200:
            self.proc = None
            return
        for n in ("fail", "summary", "state"):
            if os.path.exists(self.path(n)):
                os.remove(self.path(n))
        env = dict(ENV, VF_PROP=self.prop, VF_SEED=str(self.seed), VF_MS=str(int(left)), VF_START=str(self.start),
                   VF_STATE=self.path("state"), VF_FAIL=self.path("fail"), VF_SUMMARY=self.path("summary"),
                   VF_DICT=os.path.join(self.scratch, "dict.json"), GOMAXPROCS="2", **self.extra)
        self.out = open(self.path("out"), "wb")
        self.proc = subprocess.Popen([self.binary, "-test.run", "TestVF", "-test.timeout", "0"], cwd=self.scratch, env=env,
                                     stdout=self.out, stderr=subprocess.STDOUT, preexec_fn=_limits)

    def finish(self, grace):
        if self.proc is None:
            return True
        try:
            self.proc.wait(timeout=grace)
        except subprocess.TimeoutExpired:
            return False
        rc = self.proc.returncode
        self.out.close()
        if os.path.exists(self.path("summary")):
            self.summaries.append(json.load(open(self.path("summary"))))
        if os.path.exists(self.path("fail")):
            self.failure = json.load(open(self.path("fail")))
            self.proc = None
            return True
        if rc == 0:
            self.proc = None
            return True
        # the process died: the operation under way crashed or hung
        txt = open(self.path("out"), errors="replace").read()
        st = open(self.path("state"), errors="replace").read() if os.path.exists(self.path("state")) else ""
        m = re.match(r"(-?\d+) (\d+) (\S*) (\S+) (.*)", st, re.S)
        if rc < 0 and rc != -6:
            self.notes.append("shard killed by signal %d" % -rc)
            self.proc = None
            return True
        if not m:
            self.notes.append("shard ended with %d: %s" % (rc, txt[-500:]))
            self.proc = None
            return True
        case, tags, op, desc = int(m.group(2)), m.group(3).split(","), m.group(4), m.group(5)
        what = "hangs" if rc == 77 else "crashes the process"
        if self.prop in tags:
            self.failure = {"property": self.prop, "tags": tags, "seed": self.seed, "case": case, "hang": rc == 77,
                            "message": "%s %s on %s" % (op, what, desc[:1500]), "output": txt[-6000:], "history": []}
            self.proc = None
            return True
        self.notes.append("%s %s (not this property's concern)" % (op, what))
        self.start, self.restarts = case + 1, self.restarts + 1
        if self.restarts > 40:
            self.proc = None
            return True
        self.spawn()
        return self.proc is None

    def kill(self):
        if self.proc is not None:
            try:
                os.killpg(self.proc.pid, 9)
            except OSError:
                pass
            self.proc.wait()
            self.proc = None


def explore(binary, scratch, prop, seed, ms, shards, stop=None):
    json.dump(source_constants(), open(os.path.join(scratch, "dict.json"), "w"))
    ss = [Shard(binary, scratch, prop, seed * 64 + k, ms, k) for k in range(shards)]
    hard = time.time() + ms / 1000.0 + 90
    failure = None
    while True:
        busy = False
        for s in ss:
            if s.failure is None and s.proc is not None:
                if not s.finish(0.02):
                    busy = True
            if s.failure is not None:
                f = s.failure
                if f.get("hang"):  # a loaded machine must not look like a hang: once more, with more time
                    s2 = Shard(binary, scratch, prop, s.seed, 10 ** 7, 100 + s.k,
                               {"VF_CASE": str(f["case"]), "VF_OPDEADLINE_MS": "60000"})
                    t = time.time()
                    while not s2.finish(0.2) and time.time() - t < 150:
                        pass
                    s2.kill()
                    if s2.failure is None:
                        s.notes.append("a slow operation did not hang when repeated: " + f["message"][:200])
                        s.failure = None
                        continue
                failure = f
                break
        if failure or not busy or time.time() > hard:
            break
        time.sleep(0.05)
    for s in ss:
        s.kill()
    tot = {"evaluations": 0, "operations": 0, "distinct_nontrivial": 0, "operations_by_kind": {}, "notes": []}
    for s in ss:
        for x in s.summaries:
            tot["evaluations"] += x["cases"]
            tot["operations"] += x["operations"]
            tot["distinct_nontrivial"] += x["distinct"]
            for k, v in (x["operations_by_kind"] or {}).items():
                tot["operations_by_kind"][k] = tot["operations_by_kind"].get(k, 0) + v
        tot["notes"] += s.notes[:5]
    return failure, tot
