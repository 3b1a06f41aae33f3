#!/usr/bin/env python3
"""Mutation test of the checks.

  run.py WORKDIR [-j N] [-s SEED] [-n LIMIT] FILE...     (files relative to /repo)

For every small change that mutate.go finds in the files: skip it if it does not compile or an
existing test fails, else run the checks of the harness that exercise the file against a copy of
the repository with the change, and list the changes that no check notices in WORKDIR/survivors.
"""
import argparse, json, os, random, shutil, subprocess, sys, threading, queue, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
sys.path.insert(0, os.path.join(VERIF, "tools"))
from props import PROPS  # noqa: E402

ap = argparse.ArgumentParser()
ap.add_argument("work")
ap.add_argument("-j", type=int, default=6)
ap.add_argument("-s", type=int, default=1)
ap.add_argument("-n", type=int, default=0)
ap.add_argument("--scale", type=float, default=1.0, help="factor on the quick scale")
ap.add_argument("--only", help="file with mutants as written to survivors")
ap.add_argument("files", nargs="*")
a = ap.parse_args()

ENV = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off",
           GONOSUMDB="*", GOMAXPROCS="3")
for v in ("VERIF_STATS", "VERIF_NOTE"):
    ENV.pop(v, None)


def checks(f):
    """Which checks, in which order."""
    def ids(*rs):
        return ["P%02d" % i for lo, hi in rs for i in range(lo, hi + 1)]
    if f.startswith("parser/sql/"):
        return ids((9, 9), (1, 3), (12, 12), (35, 36), (10, 10), (11, 11))
    if f.startswith("parser/scanner") or f.startswith("parser/token"):
        return ids((4, 8), (41, 41), (1, 3), (9, 12))
    if f.startswith("parser/"):
        return ids((46, 46), (1, 3), (10, 11), (5, 9), (4, 4), (12, 12), (35, 36), (40, 42))
    if f.startswith("types/"):
        return ids((13, 19), (20, 24), (9, 9), (4, 5), (29, 33), (42, 43), (38, 38), (45, 45))
    if f.startswith("encode/"):
        return ids((14, 16), (20, 21))
    if f.startswith("storage/"):
        return ids((20, 28), (31, 32))
    if f.startswith("engine/"):
        return ids((29, 37), (39, 39), (18, 18), (45, 45))
    if f.startswith("evaluate/"):
        return ids((40, 40), (34, 37))
    if f.startswith("testutil/"):
        return ids((38, 38), (42, 43))
    return ids((12, 12), (41, 41))


def run(cmd, cwd, timeout, env=ENV):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           stdin=subprocess.DEVNULL, timeout=timeout, start_new_session=True)
        return r.returncode, r.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        return -1000, "timeout"


def passing(out):
    return {l.split()[2] + " " + l.split()[3] if len(l.split()) > 3 else l
            for l in out.split("\n") if l.startswith("--- PASS") or l.startswith("ok ")}


os.makedirs(a.work, exist_ok=True)
mut = os.path.join(a.work, "mutate")
rc, out = run(["go", "build", "-o", mut, os.path.join(HERE, "mutate.go")], HERE, 300)
assert rc == 0, out
if a.only:
    todo = [json.loads(l) for l in open(a.only)]
else:
    rc, out = run([mut] + a.files, "/repo", 60)
    assert rc == 0, out
    todo = [json.loads(l) for l in out.split("\n") if l]
if a.n and len(todo) > a.n:
    random.Random(a.s).shuffle(todo)
    todo = todo[:a.n]
print(len(todo), "changes")
jobs = queue.Queue()
for m in todo:
    jobs.put(m)
lock = threading.Lock()
count = {}
t0 = time.time()


def log(m, verdict, extra=""):
    with lock:
        v = verdict.split(":")[0]
        count[v] = count.get(v, 0) + 1
        with open(os.path.join(a.work, "log"), "a") as f:
            f.write(json.dumps(dict(m, verdict=verdict)) + "\n")
        if v == "SURVIVED":
            with open(os.path.join(a.work, "survivors"), "a") as f:
                f.write(json.dumps(m) + "\n")
        n = sum(count.values())
        if n % 50 == 0 or n == len(todo):
            print("%d/%d %d s %s" % (n, len(todo), time.time() - t0, count), flush=True)


def worker(w):
    d = os.path.join(a.work, "w%d" % w)
    shutil.rmtree(d, ignore_errors=True)
    repo, har = os.path.join(d, "repo"), os.path.join(d, "harness")
    shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns(".git"))
    shutil.copytree(os.path.join(VERIF, "harness"), har, ignore=shutil.ignore_patterns("testdata"))
    gm = os.path.join(har, "go.mod")
    s = open(gm).read().replace("=> /repo", "=> " + repo)
    open(gm, "w").write(s)
    base = None
    while True:
        try:
            m = jobs.get_nowait()
        except queue.Empty:
            return
        p = os.path.join(repo, m["file"])
        src = open(p, "rb").read()
        try:
            if base is None:
                rc, out = run(["go", "test", "./..."], repo, 300)
                base = {l.split()[1] for l in out.split("\n") if l.startswith("ok")}
            open(p, "wb").write(src[:m["from"]] + m["new"].encode() + src[m["to"]:])
            rc, out = run(["go", "build", "./..."], repo, 120)
            if rc != 0:
                log(m, "nobuild")
                continue
            rc, out = run(["go", "test", "-vet=off", "-timeout", "40s", "./..."], repo, 120)
            got = {l.split()[1] for l in out.split("\n") if l.startswith("ok")}
            if not base <= got:
                log(m, "tests")
                continue
            killed, bins = None, {}
            for c in checks(m["file"]):
                cfg = PROPS[c]
                key = (cfg["pkg"], bool(cfg.get("race")))
                if key not in bins:
                    b = os.path.join(d, "%s%d.test" % key)
                    cmd = ["go", "test", "-c", "-vet=off", "-o", b]
                    if key[1]:
                        cmd.append("-race")
                    rc, out = run(cmd + ["./" + key[0]], har, 300)
                    if rc != 0:
                        killed = c + " build"
                        break
                    bins[key] = b
                env = dict(ENV, VERIF_SCALE=repr(cfg["quick"] * 4 * a.scale),
                           VERIF_SCRATCH=d, GORACE="halt_on_error=1 exitcode=66")
                if cfg.get("program"):
                    prog = os.path.join(d, "maho")
                    rc, out = run(["go", "build", "-buildvcs=false", "-o", prog, "."], repo, 120)
                    env["VERIF_PROGRAM"] = prog
                cd = os.path.join(d, "cwd")
                shutil.rmtree(cd, ignore_errors=True)
                os.makedirs(cd)
                rc, out = run([bins[key], "-test.run", "^%s$" % cfg["test"], "-test.timeout", "300s",
                               "-rapid.seed=%d" % (a.s * 7919 + 13), "-rapid.shrinktime=0s",
                               "-rapid.nofailfile"], cd, 330, env)
                if rc != 0:
                    killed = c
                    break
            log(m, "killed:" + killed if killed else "SURVIVED")
        except Exception as e:  # noqa: BLE001
            log(m, "error:" + repr(e))
        finally:
            open(p, "wb").write(src)


ts = [threading.Thread(target=worker, args=(i,)) for i in range(a.j)]
for t in ts:
    t.start()
for t in ts:
    t.join()
print(count)
