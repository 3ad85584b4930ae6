#!/usr/bin/env python3
"""Builds and runs one check.

  run.py ID quick|thorough     run the check of property ID
  run.py --replay FILE         run the case of a replay file again
  run.py --setup               build everything once

Exit status 0: the property held on everything explored. 1: it is broken, with a
VIOLATION line and a replay file. 2: the check itself could not be carried out.
"""
import glob, hashlib, json, os, shutil, signal, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, ".build")
BASELINE = os.path.join(HARNESS, "literals.txt")
SHARDS = 8
LEVEL = "exploration"
EXIT_FAIL, EXIT_HANG, EXIT_RACE = 10, 11, 66

# What each check needs besides the shard runner.
RUNNER = {"C20": "race", "C24": "graph", "C27": "count", "C30": "count", "C35": "terms"}
NEEDS = {"C25": ["wasm"], "C26": ["cli"], "C28": ["server"], "C34": ["wasm", "page"]}


def die(msg):
    print("ERROR:", msg, file=sys.stderr)
    sys.exit(2)


def env():
    e = dict(os.environ)
    if "PATH" not in e or not shutil.which("go"):
        e["PATH"] = "/usr/local/bin:/opt/veriftools/go1.27.3/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.setdefault("HOME", "/root")
    e.update(GOTOOLCHAIN="local", GOFLAGS="-mod=readonly", GOPROXY="off", GOWORK="off", TZ="UTC")
    return e


def sh(args, cwd, extra=None, what="build"):
    e = env()
    e.update(extra or {})
    p = subprocess.run(args, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        die("%s failed: %s\n%s" % (what, " ".join(args), p.stdout[-4000:]))
    return p.stdout


def build(pid, out):
    """Builds what the check needs from the working tree of the repository."""
    kind = RUNNER.get(pid, "plain")
    exe = os.path.join(out, "runner")
    if kind == "plain":
        sh(["go", "build", "-o", exe, "./cmd/hrun"], HARNESS)
    elif kind == "terms":
        # apart, as only this check calls the constructors of terms
        sh(["go", "build", "-tags", "terms", "-o", exe, "./cmd/hrun"], HARNESS)
    elif kind == "race":
        sh(["go", "build", "-race", "-o", exe, "./cmd/hrun"], HARNESS)
    elif kind == "count":
        # the plain program does without the counting of executed blocks
        sh(["go", "build", "-o", exe, "./cmd/hrun"], HARNESS)
        counting = exe + "-count"
        p = subprocess.run(["go", "build", "-cover", "-covermode=atomic", "-coverpkg=github.com/flowchartsman/aql/...,"
                            "github.com/buger/jsonparser,github.com/araddon/dateparse,verifharness/cmd/hrun",
                            "-o", counting, "./cmd/hrun"], cwd=HARNESS, env=env(),
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if p.returncode == 0:
            os.replace(counting, exe)
    else:
        sh(["go", "build", "-o", exe, "./cmd/grun"], HARNESS)
    for n in NEEDS.get(pid, []):
        if n == "wasm":
            sh(["go", "build", "-o", os.path.join(out, "aqlparse.wasm"), "./wasm/aqlparse"], REPO,
               {"GOOS": "js", "GOARCH": "wasm"})
            goroot = sh(["go", "env", "GOROOT"], REPO).strip()
            shutil.copy(os.path.join(goroot, "lib", "wasm", "wasm_exec.js"), os.path.join(out, "wasm_exec.js"))
        elif n == "page":
            site = os.path.join(out, "site")
            os.makedirs(site)
            for f in glob.glob(os.path.join(REPO, "wasm/aqlparse/*")):
                if os.path.splitext(f)[1] in (".html", ".js", ".css"):
                    shutil.copy(f, site)
        elif n == "cli":
            for c in ("aqltest", "aqlgraph"):
                sh(["go", "build", "-o", os.path.join(out, c), "./cmd/" + c], REPO)
        elif n == "server":
            ov = os.path.join(out, "overlay.json")
            with open(ov, "w") as f:
                json.dump({"Replace": {os.path.join(REPO, "wasm/aqlparse/server/zz_verif.go"):
                                       os.path.join(HARNESS, "server", "zz_verif.go.txt")}}, f)
            # the plain program must build; the one that answers about its file system
            # needs the file system to be there under its name
            sh(["go", "build", "-o", os.path.join(out, "server-plain"), "./wasm/aqlparse/server"], REPO)
            subprocess.run(["go", "build", "-overlay", ov, "-o", os.path.join(out, "server"), "./wasm/aqlparse/server"],
                           cwd=REPO, env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return exe


def child_env(out):
    e = env()
    e["VERIF_OUT"] = out
    e["VERIF_HARNESS"] = HARNESS
    e["GORACE"] = "halt_on_error=1 exitcode=%d" % EXIT_RACE
    e["GOTRACEBACK"] = "single"
    e["GOCOVERDIR"] = os.path.join(out, "cover")
    os.makedirs(e["GOCOVERDIR"], exist_ok=True)
    return e


def replay_once(exe, pid, path, out, limit):
    """Evaluates the case of a file in a new process: (broken, message), or None if it cannot be told."""
    errname = os.path.join(out, "replay.err")
    try:
        with open(errname, "wb") as fe:  # a file, as some checks look at what is written there
            p = subprocess.run([exe, "-id", pid, "-replay", path, "-limit", "%ds" % limit],
                               env=child_env(out), cwd=out, stdout=subprocess.PIPE, stderr=fe,
                               timeout=limit + 60)
    except subprocess.TimeoutExpired:
        return True, "the case does not end"
    o = p.stdout.decode("utf-8", "replace")
    err = open(errname, "rb").read().decode("utf-8", "replace")
    if p.returncode == 0:
        return False, ""
    if p.returncode == EXIT_FAIL:
        return True, o.strip()
    if p.returncode == EXIT_HANG:
        return True, "the case does not end, or not within %d s\n%s" % (limit, err[:300])
    if p.returncode == EXIT_RACE:
        return True, "data race\n" + err[:3000]
    if p.returncode == 2 and not is_crash(err) or p.returncode in (-9, 137):
        return None, err
    return True, "crash (status %d)\n%s" % (p.returncode, err[:3000])


def is_crash(err):
    return "fatal error:" in err or "panic:" in err or "goroutine " in err or "runtime:" in err or "SIG" in err


def history(exe, pid, seed, upto, out):
    """Runs the cases of a shard up to one again; for failures which need what came before."""
    pre = os.path.join(out, "history")
    try:
        with open(pre + ".err", "wb") as fe:
            p = subprocess.run([exe, "-id", pid, "-seed", str(seed), "-n", str(upto + 1), "-out", pre, "-root", REPO,
                                "-baseline", BASELINE, "-shrink", "1s"],
                               env=child_env(out), cwd=out, stdout=subprocess.PIPE, stderr=fe, timeout=800)
    except subprocess.TimeoutExpired:
        return None, ""
    err = open(pre + ".err", "rb").read().decode("utf-8", "replace")
    o = p.stdout.decode("utf-8", "replace")
    if p.returncode == 0:
        return False, ""
    if p.returncode == EXIT_FAIL:
        return True, o.strip()
    if p.returncode == EXIT_RACE:
        return True, "data race\n" + err[:3000]
    if p.returncode == 2 and not is_crash(err) or p.returncode in (-9, 137):
        return None, err
    return True, "crash or hang (status %d)\n%s" % (p.returncode, err[:3000])


def load_known():
    """Known findings: lines 'known: property=ID <what>' with a case file replayed on each run."""
    out = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for l in open(path):
            if l.startswith("known:"):
                out.append(l[len("known:"):].strip())
    return out


def run(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    out = os.path.join(BUILD, "%s-%d" % (pid, os.getpid()))
    os.makedirs(out)
    try:
        return explore(pid, tier, seed, out, t0)
    finally:
        shutil.rmtree(out, ignore_errors=True)


def explore(pid, tier, seed, out, t0):
    exe = build(pid, out)
    total = int(sh([exe, "-id", pid, "-count", tier], out, child_env(out), what="count"))
    build_s = time.time() - t0
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    per = max(1, int(total * scale) // SHARDS)
    procs = []
    for k in range(SHARDS):
        s = int.from_bytes(hashlib.sha256(("%d %s %d" % (seed, pid, k)).encode()).digest()[:8], "little")
        pre = os.path.join(out, "s%d" % k)
        with open(pre + ".out", "wb") as fo, open(pre + ".err", "wb") as fe:
            p = subprocess.Popen([exe, "-id", pid, "-seed", str(s), "-n", str(per), "-out", pre, "-root", REPO,
                                  "-baseline", BASELINE], env=child_env(out), cwd=out, stdout=fo, stderr=fe,
                                 start_new_session=True)
        procs.append((p, s, pre))
    try:
        return watch(pid, tier, seed, exe, out, procs, t0, build_s)
    finally:
        for x in procs:  # with what they have started
            try:
                os.killpg(x[0].pid, signal.SIGKILL)
            except OSError:
                pass
            x[0].wait()


def watch(pid, tier, seed, exe, out, procs, t0, build_s):
    deadline = time.time() + (700 if tier == "quick" else 6 * 3600)
    pending = list(procs)
    bad = None
    while pending and bad is None:
        for x in list(pending):
            rc = x[0].poll()
            if rc is None:
                continue
            pending.remove(x)
            if rc != 0:
                bad = x
                break
        if time.time() > deadline:
            for x in procs:
                x[0].kill()
            die("the shards did not finish in time")
        time.sleep(0.02)
    if bad:
        for x in pending:
            x[0].kill()
        for x in pending:
            x[0].wait()
        return judge(pid, tier, seed, exe, out, bad, t0)
    return evidence(pid, tier, seed, [x[2] for x in procs], t0, build_s, 0)


def judge(pid, tier, seed, exe, out, shard, t0):
    """Turns the failure of a shard into a replay file and a verdict."""
    p, s, pre = shard
    err = open(pre + ".err", "rb").read().decode("utf-8", "replace")
    rc = p.returncode
    if rc in (-9, 137) or rc == 2 and not is_crash(err):
        die("shard ended with status %d\n%s" % (rc, err[-4000:]))
    cands = []
    idx = 0
    if rc == EXIT_FAIL:
        for n in (".fail.json", ".found.json"):
            if os.path.exists(pre + n):
                cands.append(pre + n)
        idx = json.load(open(cands[0]))["index"]
    else:
        # crash, hang or race: the case is the one being evaluated
        try:
            idx = struct.unpack("<Q", open(pre + ".progress", "rb").read(8))[0]
        except Exception:
            die("shard ended with status %d before its first case\n%s" % (rc, err[-4000:]))
        for f in (pre + ".found.json",):
            if os.path.exists(f):
                cands.append(f)
        sh([exe, "-id", pid, "-seed", str(s), "-emit", str(idx), "-out", pre + ".emit", "-root", REPO,
            "-baseline", BASELINE], out, child_env(out), what="emit")
        cands.append(pre + ".emit.fail.json")
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, "%s-%s-%d.json" % (pid, tier, seed))
    tries = 3 if pid in ("C20",) else 1
    for c in cands:
        if json.load(open(c))["case"] is None:
            continue
        for _ in range(tries):
            broken, msg = replay_once(exe, pid, c, out, 120)
            if broken:
                f = json.load(open(c))
                f["message"] = msg
                return violation(pid, tier, seed, path, f, t0, [x for x in [pre]])
            if broken is None:
                die("replay failed\n" + msg)
    # not broken by the case alone: it needs the cases before it
    broken, msg = history(exe, pid, s, idx, out)
    if broken:
        f = {"property": pid, "message": msg, "history": {"seed": s, "upto": idx}}
        return violation(pid, tier, seed, path, f, t0, [pre])
    if rc == EXIT_RACE:
        f = {"property": pid, "message": "data race\n" + err[:3000], "history": {"seed": s, "upto": idx}}
        return violation(pid, tier, seed, path, f, t0, [pre])
    if rc == EXIT_FAIL and pid in ("C20",):
        f = json.load(open(cands[0]))
        f["note"] = "depends on the schedule; not seen again on replay"
        return violation(pid, tier, seed, path, f, t0, [pre])
    die("failure of shard could not be reproduced (status %d)\n%s\n%s"
        % (rc, err[-3000:], open(pre + ".out", "rb").read()[-3000:].decode("utf-8", "replace")))


def violation(pid, tier, seed, path, f, t0, pres):
    with open(path, "w") as o:
        json.dump(f, o, indent=1, ensure_ascii=False)
        o.write("\n")
    print(f["message"][:3000])
    evidence(pid, tier, seed, [], t0, 0, 1, f["message"])
    print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1


def evidence(pid, tier, seed, pres, t0, build_s, violations, msg=None):
    evals = skipped = 0
    hashes = set()
    labels = {}
    samples = []
    rule, assume = "the run was stopped by a violation; nothing counted", []
    for pre in pres:
        st = json.load(open(pre + ".stats.json"))
        evals += st["evals"]
        skipped += st["skipped"]
        rule, assume = st["rule"], st["assume"] or []
        for k, v in st["labels"].items():
            labels[k] = labels.get(k, 0) + v
        if st["samples"]:
            # the first are small ones; take a later one of each shard
            samples += st["samples"][-1:]
        b = open(pre + ".hashes", "rb").read()
        hashes.update(struct.unpack("<%dQ" % (len(b) // 8), b))
    e = {"property": pid, "tier": tier, "seed": seed, "level": LEVEL,
         "coverage": {"evaluations": evals, "distinct_nontrivial": len(hashes), "rule": rule,
                      "samples": samples[:8], "outside_property": skipped, "seen": labels},
         "assumptions": assume, "violations": violations,
         "wall_s": round(time.time() - t0, 3)}
    if msg:
        e["coverage"]["violation"] = msg[:2000]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", pid + ".json")
    with open(path + ".tmp", "w") as o:
        json.dump(e, o, indent=1, ensure_ascii=False)
        o.write("\n")
    os.replace(path + ".tmp", path)
    if violations:
        return 1
    for k in load_known():
        if ("property=" + pid) in k.split():
            print("KNOWN-FINDING: " + k)
    if evals == 0 or not hashes:
        die("nothing was explored")
    print("%s held: %d cases, %d distinct non-trivial, %d outside, %.1f s (build %.1f s)"
          % (pid, evals, len(hashes), skipped, time.time() - t0, build_s))
    return 0


def replay(path):
    path = os.path.abspath(path)
    f = json.load(open(path))
    pid = f["property"]
    out = os.path.join(BUILD, "replay-%d" % os.getpid())
    os.makedirs(out)
    try:
        exe = build(pid, out)
        if "history" in f:
            broken, msg = history(exe, pid, f["history"]["seed"], f["history"]["upto"], out)
        else:
            broken, msg = replay_once(exe, pid, path, out, 120)
    finally:
        shutil.rmtree(out, ignore_errors=True)
    if broken is None:
        die(msg)
    if broken:
        print(msg)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    print("%s holds on %s" % (pid, path))
    return 0


def setup():
    out = os.path.join(BUILD, "setup-%d" % os.getpid())
    os.makedirs(out)
    try:
        for pid in ("C01", "C20", "C24", "C25", "C26", "C27", "C28"):
            build(pid, out)
    finally:
        shutil.rmtree(out, ignore_errors=True)
    return 0


def main():
    a = sys.argv[1:]
    if a == ["--setup"]:
        return setup()
    if len(a) == 2 and a[0] == "--replay":
        return replay(a[1])
    if len(a) == 2 and a[1] in ("quick", "thorough"):
        return run(a[0], a[1])
    die(__doc__)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException as e:
        import traceback
        traceback.print_exc()
        sys.exit(2)
