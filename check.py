#!/usr/bin/env python3
"""Runs the check of one property against /repo's current working tree.

  check.py P01 [--tier quick|thorough] [--seed N]
  check.py --replay FILE          run the minimal failing case of a replay file again
  check.py --setup                compile every harness package (the manifest's setup_cmd)

Exit status: 0 the property held on everything explored; 1 with a line
"VIOLATION property=<id> replay=<path>"; 2 the check could not be carried out.
"""
import argparse, array, base64, concurrent.futures, hashlib, json, os, re, shutil, signal
import subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(VERIF, "harness")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from props import PROPS  # noqa: E402

LIMIT = 840  # seconds for a whole check


def goenv():
    env = dict(os.environ)
    env.update(GOTOOLCHAIN="local", GOFLAGS="-mod=readonly", GOPROXY="off", GOWORK="off",
               GONOSUMDB="*", GONOSUMCHECK="1", CGO_ENABLED="1", GOTELEMETRY="off")
    env.setdefault("HOME", "/root")
    for v in list(env):
        if v.startswith("RAPID_"):
            del env[v]
    return env


def derive(*parts):
    """A 62-bit seed, never 0, far away from the seeds of other parts."""
    d = hashlib.sha256("/".join(str(p) for p in parts).encode()).digest()
    return (int.from_bytes(d[:8], "big") >> 2) | 1


def build(pkg, race, out):
    cmd = ["go", "test", "-c", "-vet=off", "-o", out]
    if race:
        cmd.append("-race")
    cmd.append("./" + pkg)
    return subprocess.run(cmd, cwd=HARNESS, env=goenv(), stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, errors="replace")


def error(msg, out=""):
    print("check error: " + msg)
    if out:
        print(out[-6000:])
    sys.exit(2)


class Shard:
    def __init__(self, scratch, binary, cfg, num, seed, scale, deadline, failfile=None):
        self.dir = os.path.join(scratch, "shard%d" % num)
        self.binary, self.cfg, self.seed, self.scale = binary, cfg, seed, scale
        self.deadline, self.failfile = deadline, failfile
        self.rc, self.out, self.note = None, "", ""
        self.groups, self.hashes, self.kind = {}, None, None

    def run(self, test=None):
        os.makedirs(self.dir)
        env = goenv()
        stats = os.path.join(self.dir, "stats.json")
        notef = os.path.join(self.dir, "note")
        env.update(VERIF_STATS=stats, VERIF_NOTE=notef, VERIF_SCALE=repr(self.scale),
                   VERIF_SCRATCH=self.dir, VERIF_CASE_SEED=str(self.seed),
                   GORACE="halt_on_error=1 exitcode=66", GOTRACEBACK="all")
        if self.cfg.get("procs"):
            env["GOMAXPROCS"] = str(self.cfg["procs"])
        left = max(5, int(self.deadline - time.time()))
        # Stop drawing cases in good time.
        cmd = [self.binary, "-test.run", test or "^%s$" % self.cfg["test"],
               "-test.timeout", "%ds" % left, "-test.count=1", "-rapid.seed=%d" % self.seed,
               "-rapid.shrinktime=%ds" % min(20, max(1, left // 4))]
        if self.failfile:
            cmd.append("-rapid.failfile=" + self.failfile)
        self.cmd = cmd
        outf = os.path.join(self.dir, "out")
        with open(outf, "wb") as f:
            p = subprocess.Popen(cmd, cwd=self.dir, env=env, stdout=f, stderr=subprocess.STDOUT,
                                 stdin=subprocess.DEVNULL, start_new_session=True)
            try:
                self.rc = p.wait(timeout=left + 30)
            except subprocess.TimeoutExpired:
                self.rc = -1000
            finally:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
        with open(outf, "rb") as f:
            raw = f.read(4 << 20)
        self.out = raw.decode("utf-8", "replace")
        if os.path.exists(notef):
            with open(notef, "rb") as f:
                self.note = f.read().split(b"\0")[0].decode("utf-8", "replace")
        if os.path.exists(stats):
            with open(stats) as f:
                self.groups = json.load(f)
            a = array.array("Q")
            with open(stats + ".hashes", "rb") as f:
                a.frombytes(f.read())
            self.hashes = a
        self.kind = self.classify()
        return self

    def classify(self):
        if self.rc == 0:
            if not self.groups:
                return "error: no statistics"
            return None
        o = self.out
        if "only generated" in o and "valid tests" in o:
            return "error: generator"
        if "[rapid] failed after" in o or "[rapid] panic after" in o or "VERIF-FAIL" in o:
            return "violation"
        if "WARNING: DATA RACE" in o:
            return "violation"
        if "[rapid] flaky test" in o:
            return "violation"
        if "VERIF-HANG" in o:
            return "violation"
        if self.rc == -1000 or "panic: test timed out" in o:
            return "error: timed out"
        if "out of memory" in o or "cannot allocate memory" in o:
            return "error: out of memory"
        if ("fatal error: " in o or "panic: " in o) and "github.com/leftmike/maho" in o:
            return "violation"
        return "error: status %s" % self.rc


def save_replay(prop, cfg, sh, seed, tier):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    rep = {"property": prop, "tier": tier, "verif_seed": seed, "seed": sh.seed,
           "scale": sh.scale, "note": sh.note, "output": sh.out[-40000:]}
    best = None
    base = os.path.join(sh.dir, "testdata", "rapid")
    for root, _, files in os.walk(base):
        for fn in files:
            if fn.endswith(".fail"):
                best = os.path.join(root, fn)
    m = re.search(r'To reproduce, specify -run="([^"]+)"', sh.out)
    if m:
        rep["test"] = m.group(1).replace("\\\\", "\\")
    if best:
        with open(best, "rb") as f:
            rep["failfile"] = base64.b64encode(f.read()).decode()
        rep["failfile_text"] = base64.b64decode(rep["failfile"]).decode("utf-8", "replace")[:20000]
    path = os.path.join(d, "%s-%s-%d.json" % (prop, tier, seed))
    with open(path, "w") as f:
        json.dump(rep, f, indent=1)
    return path


def summary(out, n=40):
    lines = []
    for line in out.splitlines():
        if "[rapid] draw" in line:
            continue
        lines.append(line)
    return "\n".join(lines[:n])


def evidence(prop, cfg, tier, seed, shards, wall, violations):
    total, nontriv = 0, 0
    labels, samples, per = {}, [], {}
    hs = set()
    for sh in shards:
        for name, g in sh.groups.items():
            total += g["cases"]
            nontriv += g["nontrivial"]
            p = per.setdefault(name, {"cases": 0, "nontrivial": 0})
            p["cases"] += g["cases"]
            p["nontrivial"] += g["nontrivial"]
            for k, v in (g["labels"] or {}).items():
                k = name.split("/", 1)[-1] + ": " + k if "/" in name else k
                labels[k] = labels.get(k, 0) + v
            for s in (g["samples"] or [])[-2:]:
                if len(samples) < 24:
                    samples.append({"check": name, "case": s})
        if sh.hashes is not None:
            hs.update(sh.hashes)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": total, "distinct_nontrivial": len(hs),
                       "nontrivial": nontriv, "rule": cfg["rule"], "samples": samples,
                       "by_check": per, "labels": dict(sorted(labels.items())),
                       "runs": len(shards), "rapid_seeds": [sh.seed for sh in shards]},
          "assumptions": cfg.get("assumptions", []), "wall_s": round(wall, 2),
          "violations": violations}
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)


def prepare(cfg, scratch):
    """Builds the harness package, and the program itself where the check needs it."""
    binary = os.path.join(scratch, "check.test")
    r = build(cfg["pkg"], cfg.get("race", False), binary)
    if r.returncode != 0:
        error("the harness does not build against /repo", r.stdout)
    if cfg.get("program"):
        prog = os.path.join(scratch, "maho")
        env = goenv()
        env["GOFLAGS"] = "-mod=readonly -buildvcs=false"
        r = subprocess.run(["go", "build", "-o", prog, "."], cwd=REPO, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            error("the program does not build", r.stdout)
        os.environ["VERIF_PROGRAM"] = prog
    return binary


def run(prop, tier, seed):
    cfg = PROPS[prop]
    t0 = time.time()
    deadline = t0 + LIMIT
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        binary = prepare(cfg, scratch)
        shards, bad = [], []
        width = cfg.get("width", 4)
        if tier == "quick":
            plan = [(i, cfg.get("quick", 1.0)) for i in range(width)]
            until = None
        else:
            plan = [(i, cfg.get("thorough", 4.0)) for i in range(cfg.get("rounds", 400))]
            until = time.time() + cfg.get("budget", 420)
        with concurrent.futures.ThreadPoolExecutor(width) as ex:
            def one(job):
                i, scale = job
                if bad or (until and i >= width and time.time() > until):
                    return None
                sh = Shard(scratch, binary, cfg, i, derive(prop, seed, tier, i), scale,
                           deadline).run()
                if sh.kind:
                    bad.append(sh)
                else:
                    shutil.rmtree(sh.dir, ignore_errors=True)
                return sh
            for sh in ex.map(one, plan):
                if sh:
                    shards.append(sh)
        wall = time.time() - t0
        viol = [s for s in bad if s.kind == "violation"]
        evidence(prop, cfg, tier, seed, shards, wall, len(viol))
        if viol:
            sh = min(viol, key=lambda s: len(s.note))
            path = save_replay(prop, cfg, sh, seed, tier)
            print(summary(sh.out))
            if sh.note:
                print("last case:\n" + sh.note[:4000])
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        if bad:
            error(bad[0].kind, summary(bad[0].out) + "\nlast case:\n" + bad[0].note[:2000])
        n = sum(g["cases"] for s in shards for g in s.groups.values())
        print("ok: %s %s seed=%d: %d cases in %d runs, %.1f s" %
              (prop, tier, seed, n, len(shards), wall))
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay(path):
    with open(path) as f:
        rep = json.load(f)
    prop = rep["property"]
    cfg = PROPS[prop]
    scratch = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        binary = prepare(cfg, scratch)
        ff = None
        if rep.get("failfile"):
            ff = os.path.join(scratch, "replay.fail")
            with open(ff, "wb") as f:
                f.write(base64.b64decode(rep["failfile"]))
        sh = Shard(scratch, binary, cfg, 0, rep["seed"], 0.0001 if ff else rep["scale"],
                   time.time() + LIMIT, ff)
        sh.run(rep.get("test") if ff else None)
        print(summary(sh.out, 200))
        print("last case:\n" + sh.note)
        if sh.kind == "violation":
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        if sh.kind:
            error(sh.kind)
        print("the replayed case passes")
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def setup():
    scratch = tempfile.mkdtemp(prefix="verif-setup-")
    try:
        for pkg, race in sorted({(c["pkg"], c.get("race", False)) for c in PROPS.values()}):
            r = build(pkg, race, os.path.join(scratch, "x.test"))
            if r.returncode != 0:
                error("cannot build " + pkg, r.stdout)
            print("built %s%s" % (pkg, " with -race" if race else ""))
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default="quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    if a.setup:
        return setup()
    if a.replay:
        return replay(a.replay)
    if a.prop not in PROPS:
        error("unknown property %s" % a.prop)
    seed = a.seed
    if seed is None:
        try:
            seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            seed = derive(os.environ["VERIF_SEED"]) >> 32
    return run(a.prop, a.tier, seed)


if __name__ == "__main__":
    sys.exit(main())
