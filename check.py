#!/usr/bin/env python3
"""Runs one property's generated-input check.

  check.py ID [quick|thorough]      run the check (exit 0 held, 1 violation, 2 no answer)
  check.py ID replay FILE           run a stored .fail file again
  check.py --setup                  build the harness once
  check.py --all [quick|thorough]   all checks, one after the other
"""
import glob, json, os, shutil, signal, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
SHARDS = 8
RACE = {"C34"}
# factor on the case numbers written in the harness
MULT = {"C01": 1.5, "C25": 4, "C02": 2, "C03": 3, "C04": 4, "C05": 10, "C06": 6, "C07": 20, "C08": 12, "C09": 8, "C10": 10,
        "C12": 36, "C16": 30, "C21": 48, "C22": 48, "C23": 30, "C24": 0.8, "C26": 24, "C27": 48, "C28": 50, "C29": 50,
        "C30": 50, "C31": 24, "C32": 1.5, "C33": 10, "C34": 1.5}
DEFAULT_MULT = 12
THOROUGH = 100.0          # further factor of the thorough tier
FUZZ = {"C06", "C08"}     # the thorough tier adds coverage-guided fuzzing of the same oracle
FUZZ_SECONDS = 240
LIMIT = {"quick": 600, "thorough": 3600}


def goenv(extra=None):
    env = dict(os.environ)
    env.update(GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GONOSUMDB="*", GOWORK="off", CGO_ENABLED="1")
    env.pop("GORACE", None)
    if extra:
        env.update(extra)
    return env


def build(out, race):
    cmd = ["go", "test", "-c", "-vet=off", "-o", out]
    if race:
        cmd.append("-race")
    p = subprocess.run(cmd + ["."], cwd=HARNESS, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 or not os.path.exists(out):
        print("harness does not build against /repo:\n" + p.stdout)
        return False
    return True


class Shard:
    def __init__(self, tmp, binary, pid, seed, mult, n, journal=False, extra=()):
        self.n = n
        self.dir = os.path.join(tmp, "shard%d%s" % (n, "j" if journal else ""))
        os.makedirs(self.dir)
        self.log = os.path.join(self.dir, "log")
        env = goenv({"VH_OUT": self.dir, "VH_MULT": repr(mult), "VH_SEED": str(seed), "VH_SHARD": str(n),
                     "GORACE": "halt_on_error=1", "GOMAXPROCS": "8" if pid in RACE else "2"})
        env.pop("VH_JOURNAL", None)
        self.journal = os.path.join(self.dir, "journal")
        if journal:
            env["VH_JOURNAL"] = self.journal
        cmd = [binary, "-test.run", "^Test%s_" % pid, "-test.timeout", "0", "-rapid.shrinktime", "10s", *extra]
        self.proc = subprocess.Popen(cmd, cwd=self.dir, env=env, stdout=open(self.log, "wb"),
                                     stderr=subprocess.STDOUT, start_new_session=True)

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.proc.wait()

    def text(self):
        return open(self.log, errors="replace").read()


def wait_all(shards, deadline):
    first_bad = None
    while True:
        running = [s for s in shards if s.proc.poll() is None]
        if not running:
            return True
        now = time.time()
        if first_bad is None and any(s.proc.returncode not in (None, 0) for s in shards):
            first_bad = now
        if now > deadline or (first_bad and now > first_bad + 30):
            for s in running:
                s.kill()
                s.cut = True
            return first_bad is not None
        time.sleep(0.05)


def save(pid, seed, name, files, text):
    d = os.path.join(VERIF, "replays", pid)
    os.makedirs(d, exist_ok=True)
    base = os.path.join(d, "%s-seed%s" % (name, seed))
    open(base + ".txt", "w").write(text)
    path = base + ".txt"
    for f in files:
        path = base + ".fail"
        shutil.copy(f, path)
    return path


def brief(text):
    """the log without rapid's list of draws"""
    return "\n".join(l for l in text.splitlines() if "[rapid] draw " not in l)


def judge(pid, seed, tmp, binary, mult, s):
    """('ok'|'violation'|'error', message, replay path) of one finished shard"""
    rc = s.proc.returncode
    text = s.text()
    if getattr(s, "cut", False):
        return "cut", "", None
    if rc == 0:
        return "ok", "", None
    if rc == 97:
        hang = os.path.join(s.dir, "hang.txt")
        msg = open(hang).read() if os.path.exists(hang) else brief(text)
        return "violation", msg, save(pid, seed, "hang", [], msg)
    if rc == 1:
        if "[rapid] only generated" in text and "--- FAIL" in text and "[rapid] failed after" not in text:
            return "error", brief(text)[-3000:], None
        fails = sorted(glob.glob(os.path.join(s.dir, "testdata", "rapid", "*", "*.fail")))
        names = [l.split()[2] for l in text.splitlines() if l.startswith("--- FAIL: ")] or ["Test" + pid]
        if not fails and "--- FAIL" not in text:
            return "error", brief(text)[-3000:], None
        return "violation", brief(text), save(pid, seed, names[0].replace("/", "_"), fails[:1], brief(text))
    if rc is not None and rc < 0:
        return "error", "a shard was ended by signal %d\n%s" % (-rc, brief(text)[-2000:]), None
    if "fatal error:" in text or "panic:" in text or "DATA RACE" in text:
        # the process died within one case: run that shard again, writing down each case before it runs
        j = Shard(tmp, binary, pid, seed, mult, s.n, journal=True)
        wait_all([j], time.time() + 300)
        case = open(j.journal, errors="replace").read() if os.path.exists(j.journal) else "(case not captured)"
        died = j.proc.returncode not in (0, 1)
        msg = "the process died%s\nCASE %s\n\n%s" % ("" if died else " (not in the second run)", case, "\n".join(text.splitlines()[:60]))
        return "violation", msg, save(pid, seed, "crash", [], msg)
    return "error", "shard exit %s\n%s" % (rc, brief(text)[-3000:]), None


def fuzz(pid, seed, tmp):
    """coverage-guided fuzzing: (executions, None or a result like judge's)"""
    binary = os.path.join(tmp, "fuzz.test")
    p = subprocess.run(["go", "test", "-c", "-vet=off", "-fuzz=Fuzz" + pid, "-o", binary, "."], cwd=HARNESS, env=goenv(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        return 0, (None, "error", p.stdout, None)
    d = os.path.join(tmp, "fuzz")
    os.makedirs(d)
    p = subprocess.run([binary, "-test.run", "^$", "-test.fuzz", "^Fuzz%s$" % pid, "-test.fuzztime", "%ds" % FUZZ_SECONDS,
                        "-test.fuzzcachedir", os.path.join(tmp, "fuzzcache"), "-test.parallel", "8"], cwd=d, env=goenv(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    n = [int(w) for w in __import__("re").findall(r"execs: (\d+)", p.stdout)]
    execs = max(n or [0])
    if p.returncode == 0:
        return execs, None
    crash = sorted(glob.glob(os.path.join(d, "testdata", "fuzz", "*", "*")))
    if not crash:
        return execs, (None, "error", p.stdout[-3000:], None)
    path = save(pid, seed, "Fuzz" + pid, [], p.stdout)
    shutil.copy(crash[0], path[:-4] + ".fuzz")
    return execs, (None, "violation", p.stdout, path[:-4] + ".fuzz")


def evidence(pid, tier, seed, shards, wall, violations, execs=0):
    tests = {}
    hashes = set()
    for s in shards:
        for f in sorted(glob.glob(os.path.join(s.dir, "*.json"))):
            d = json.load(open(f))
            t = tests.setdefault(d["test"], {"rule": d["rule"], "evaluations": 0, "nontrivial": 0, "labels": {}, "samples": []})
            t["evaluations"] += d["evals"]
            t["nontrivial"] += d["nontrivial"]
            for k, v in (d["labels"] or {}).items():
                t["labels"][k] = t["labels"].get(k, 0) + v
            if len(t["samples"]) < 3:
                t["samples"] += (d["samples"] or [])[:3 - len(t["samples"])]
            h = open(f[:-5] + ".hash", "rb").read()
            hashes.update(struct.unpack("<%dQ" % (len(h) // 8), h))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": sum(t["evaluations"] for t in tests.values()),
                       "distinct_nontrivial": len(hashes),
                       "rule": " || ".join("%s: %s" % (k, t["rule"]) for k, t in sorted(tests.items())),
                       "samples": [x for _, t in sorted(tests.items()) for x in t["samples"]],
                       "per_test": {k: {"evaluations": t["evaluations"], "nontrivial": t["nontrivial"], "labels": t["labels"]}
                                    for k, t in sorted(tests.items())},
                       "processes": len(shards), "coverage_guided_executions": execs},
          "assumptions": ["reference models, oracles and tolerances of /verif/harness; see DESIGN.md"],
          "wall_s": round(wall, 3), "violations": violations}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", pid + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(path + ".tmp", path)
    return ev


def check(pid, tier, seed):
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    shards = []
    try:
        binary = os.path.join(tmp, "h.test")
        if not build(binary, pid in RACE):
            return 2
        mult = MULT.get(pid, DEFAULT_MULT) * (1 if tier == "quick" else THOROUGH)
        n = 4 if pid in RACE else SHARDS
        shards = [Shard(tmp, binary, pid, seed, mult, i) for i in range(n)]
        finished = wait_all(shards, time.time() + LIMIT[tier])
        res = [(s,) + judge(pid, seed, tmp, binary, mult, s) for s in shards]
        bad = [r for r in res if r[1] == "violation"]
        for line in sorted({l for s in shards for l in s.text().splitlines() if l.startswith("KNOWN-FINDING:")}):
            print(line)
        execs = 0
        if tier == "thorough" and pid in FUZZ and not bad and finished:
            execs, r = fuzz(pid, seed, tmp)
            if r:
                (bad if r[1] == "violation" else res).append(r)
        ev = evidence(pid, tier, seed, shards, time.time() - t0, len(bad), execs)
        if bad:
            bad.sort(key=lambda r: len(r[2]))
            msg = bad[0][2]
            print(msg if len(msg) < 6000 else msg[:3000] + "\n...\n" + msg[-3000:])
            print("VIOLATION property=%s replay=%s" % (pid, bad[0][3]))
            return 1
        errs = [r for r in res if r[1] == "error"]
        if errs or not finished:
            for r in errs[:2]:
                print(r[2])
            print("%s: no answer (%s)" % (pid, "error" if errs else "time limit"))
            return 2
        if ev["coverage"]["distinct_nontrivial"] < 1:
            print("%s: nothing non-trivial was generated" % pid)
            return 2
        print("%s %s ok: %d cases, %d distinct non-trivial, %.1f s" % (
            pid, tier, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], time.time() - t0))
        return 0
    finally:
        for s in shards:
            if s.proc.poll() is None:
                s.kill()
        shutil.rmtree(tmp, ignore_errors=True)


def replay(pid, path):
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        binary = os.path.join(tmp, "h.test")
        if not build(binary, pid in RACE):
            return 2
        name = os.path.basename(path).split("-seed")[0]
        if path.endswith(".fuzz"):
            d = os.path.join(tmp, "testdata", "fuzz", name)
            os.makedirs(d)
            shutil.copy(path, os.path.join(d, "x"))
            p = subprocess.run([binary, "-test.run", "^%s$" % name], cwd=tmp, env=goenv())
            return 1 if p.returncode else 0
        p = subprocess.run([binary, "-test.run", "^%s$" % name, "-rapid.failfile", os.path.abspath(path)], cwd=tmp, env=goenv())
        return 1 if p.returncode else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        tmp = tempfile.mkdtemp(prefix="verif-setup-")
        try:
            return 0 if build(os.path.join(tmp, "h.test"), False) and build(os.path.join(tmp, "hr.test"), True) else 2
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(a) > 1 and a[1] in LIMIT:
        tier = a[1]
    if tier not in LIMIT:
        tier = "quick"
    if a and a[0] == "--all":
        man = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
        return max([check(c["property"], tier, seed) for c in man["checks"]] or [0])
    if len(a) == 3 and a[1] == "replay":
        return replay(a[0], a[2])
    return check(a[0], tier, seed)


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
