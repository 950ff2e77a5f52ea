#!/usr/bin/env python3
"""Runs one check:  run.py ID [--tier quick|thorough] [--seed N] [--replay FILE]

Builds the worker from /repo's current working tree, runs its shards, merges what
their monitors observed, and writes evidence/ID.json.
Exit 0: held, 1: violated, 2: no answer (the build failed, or nothing was observed)."""
import argparse, glob, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(HERE, "harness")
MOD = "github.com/NubeDev/bacnet"

# variant: (race detector, yields at every statement of the library, shards, GOMAXPROCS)
P8 = ("plain", 8, 2)
Y8 = ("yield", 8, 2)
Y4 = ("yield", 4, 4)
R4 = ("race", 4, 4)
ONE = ("plain", 1, 8)
CHECKS = {
    "C01": [P8], "C02": [P8], "C03": [P8], "C04": [P8], "C05": [P8], "C06": [P8], "C07": [P8], "C08": [P8], "C09": [P8],
    "C10": [Y8], "C11": [P8], "C12": [P8], "C13": [Y8], "C14": [Y8, R4], "C15": [Y8, R4], "C16": [Y8], "C17": [P8],
    "C18": [Y8], "C19": [P8], "C20": [P8], "C21": [P8], "C22": [P8], "C23": [P8], "C24": [P8], "C25": [P8],
    "C26": [P8], "C27": [R4], "C28": [P8], "C29": [P8], "C30": [P8], "C31": [Y8, R4], "C32": [P8],
}
YIELD_PKGS = [".", "tsm", "utsm"]


def goenv():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOWORK="off", GOPATH="/root/go",
             GOMODCACHE="/root/go/pkg/mod", CGO_ENABLED="1")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    e.setdefault("HOME", "/root")
    e["PATH"] = e.get("PATH", "") + ":/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin"
    e.pop("VERIF_CHECK", None)
    return e


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def build(scratch, variant):
    """Returns the path of the worker, or dies with exit code 2"""
    mod = os.path.join(scratch, "go.mod")
    shutil.copy(os.path.join(HARNESS, "go.mod"), mod)
    shutil.copy(os.path.join(HARNESS, "go.sum"), os.path.join(scratch, "go.sum"))
    out = os.path.join(scratch, "worker." + variant)
    cmd = ["go", "test", "-c", "-vet=off", "-modfile", mod, "-o", out]
    if variant == "race":
        cmd.append("-race")
    tries = [[]]
    if variant in ("race", "yield"):
        gen = os.path.join(scratch, "overlay")
        os.makedirs(gen, exist_ok=True)
        ov = os.path.join(gen, "overlay.json")
        r = sh(["go", "run", "-modfile", mod, "./yieldgen", REPO, gen, ov] + YIELD_PKGS, cwd=HARNESS, env=goenv())
        if r.returncode == 0:
            tries.insert(0, ["-overlay", ov])
        else:
            print("note: no yields:", r.stdout[-500:])
    for extra in tries:
        r = sh(cmd + extra + ["./checks"], cwd=HARNESS, env=goenv())
        if r.returncode == 0:
            return out, bool(extra)
        print("build failed%s:\n%s" % (" with yields" if extra else "", r.stdout[-4000:]))
    sys.exit(2)


def known():
    out = []
    try:
        for line in open(os.path.join(HERE, "known-findings.txt")):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m:
                out.append(m.groups())
    except OSError:
        pass
    return out


def read(path, n=None):
    try:
        with open(path, errors="replace") as f:
            s = f.read()
        return s if n is None else s[-n:]
    except OSError:
        return ""


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    only, variants = None, CHECKS[a.id]
    if a.replay:
        rp = json.load(open(a.replay))
        a.seed, a.tier, only = rp["seed"], rp["tier"], rp["case"]
        variants = [v for v in variants if v[0] == rp["variant"]] or variants
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % a.id)
    procs = []

    def cleanup(*_):
        for p in procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        if not a.keep:
            shutil.rmtree(scratch, ignore_errors=True)

    def onterm(*_):
        cleanup()
        os._exit(2)

    signal.signal(signal.SIGTERM, onterm)
    signal.signal(signal.SIGINT, onterm)
    try:
        rc = run(a, variants, only, scratch, procs, t0)
    finally:
        cleanup()
    sys.exit(rc)


def run(a, variants, only, scratch, procs, t0):
    limit = 780 if a.tier == "quick" else 4 * 3600
    viols, notes, broken = [], [], []
    orders = set()
    evals, hashes, classes, samples, needs, assume, rule, exhaustive = 0, set(), {}, [], set(), [], "", True
    logs = {}
    for variant, shards, gmp in variants:
        worker, yields = build(scratch, variant)
        if variant in ("race", "yield"):
            notes.append("%s: yields %s" % (variant, "on" if yields else "OFF (the instrumented copy did not build)"))
        out = os.path.join(scratch, "out." + variant)
        os.makedirs(out)
        if only is not None:
            shards = 1
        ps = []
        for k in range(shards):
            e = goenv()
            e.update(VERIF_CHECK=a.id, VERIF_SEED=str(a.seed), VERIF_TIER=a.tier, VERIF_SHARD=str(k), VERIF_SHARDS=str(shards),
                     VERIF_OUT=out, GOMAXPROCS=str(gmp), GOTRACEBACK="all", VERIF_VARIANT=variant,
                     GORACE="halt_on_error=1 exitcode=66 log_path=%s/race.%d" % (out, k))
            if only is not None:
                e["VERIF_ONLY"] = str(only)
            f1 = open(os.path.join(out, "stdout.%d" % k), "wb")
            f2 = open(os.path.join(out, "stderr.%d" % k), "wb")
            p = subprocess.Popen([worker, "-test.run", "^TestWorker$", "-test.timeout", "0"], cwd=out, env=e, stdin=subprocess.DEVNULL,
                                 stdout=f1, stderr=f2, start_new_session=True)
            ps.append(p)
            procs.append(p)
        stop = None
        while any(p.poll() is None for p in ps):
            time.sleep(0.05)
            if stop is None and any(p.poll() not in (None, 0) for p in ps):
                stop = time.time() + (0 if os.environ.get("VERIF_FAST") else 15)  # one has failed: the others need not go on for long
            if time.time() - t0 > limit or (stop and time.time() > stop):
                for p in ps:
                    if p.poll() is None:
                        p.verif_stopped = True
                        os.killpg(p.pid, signal.SIGKILL)
                        p.wait()
                break
        for k, p in enumerate(ps):
            rc = p.wait()
            case = read(os.path.join(out, "case.%d" % k)).strip()
            case = int(case) if case else -1
            res = {}
            try:
                res = json.loads(read(os.path.join(out, "result.%d" % k)) or "{}")
            except ValueError:
                pass
            evals += res.get("evals") or 0
            for c, n in (res.get("classes") or {}).items():
                classes[c] = classes.get(c, 0) + n
            for s in res.get("samples") or []:
                if len(samples) < 6:
                    samples.append(s)
            needs.update(res.get("needs") or [])
            for s in res.get("assume") or []:
                if s not in assume:
                    assume.append(s)
            rule = res.get("rule") or rule
            exhaustive = exhaustive and bool(res.get("exhaustive"))
            for name, into in (("hashes", hashes), ("orders", orders)):
                try:
                    b = open(os.path.join(out, "%s.%d" % (name, k)), "rb").read()
                    into.update(struct.unpack("<%dQ" % (len(b) // 8), b[:len(b) // 8 * 8]))
                except OSError:
                    pass
            vs = res.get("viols") or []
            for v in vs:
                viols.append(dict(variant=variant, case=v["index"], key=v["key"], msg=v["msg"]))
            if rc == 0 and res.get("done"):
                continue
            if getattr(p, "verif_stopped", False):
                if time.time() - t0 > limit:
                    broken.append("%s shard %d did not end within %d s (case %d)" % (variant, k, limit, case))
                continue
            races = "".join(read(f) for f in sorted(glob.glob(os.path.join(out, "race.%d.*" % k))))
            err = read(os.path.join(out, "stderr.%d" % k)) + read(os.path.join(out, "stdout.%d" % k))
            if "DATA RACE" in races or "DATA RACE" in err:
                msg = races or err
                head = msg.split("created at:")[0]
                if MOD in head:
                    viols.append(dict(variant=variant, case=case, key="race", msg=msg[:8000]))
                else:
                    broken.append("data race in the harness:\n" + msg[:4000])
            elif vs:
                pass
            elif rc == 3:
                broken.append("%s shard %d gave up without a reason" % (variant, k))
            elif re.search(r"^(panic|fatal error|SIG|unexpected fault|runtime error|runtime:)", err, re.M):
                m = re.search(r"^(panic|fatal error|SIG|unexpected fault|runtime error|runtime:)", err, re.M)
                msg = err[m.start():m.start() + 8000]
                first = msg.split("\n\n")[1] if "\n\n" in msg else msg
                if MOD in first or ("fatal error" in msg[:200] and MOD in msg):
                    viols.append(dict(variant=variant, case=case, key="crash", msg=msg))
                else:
                    broken.append("%s shard %d, case %d: the harness crashed:\n%s" % (variant, k, case, msg[:4000]))
            elif rc == 1 and case >= 0 and not res.get("done") and not re.search(r"--- FAIL|^FAIL|^PASS|^ok ", err, re.M):
                # the harness never ends a process like this: something that
                # it called did (log.Fatal, os.Exit)
                viols.append(dict(variant=variant, case=case, key="exit", msg="the process was ended in the middle of the case: " + err[-3000:]))
            else:
                broken.append("%s shard %d, case %d ended with %s:\n%s" % (variant, k, case, rc, err[-2000:]))

    kf, new = known(), []
    told = set()
    for v in viols:
        hit = [w for p, key, w in kf if p == a.id and key == v["key"]]
        if hit:
            if v["key"] not in told:
                print("KNOWN-FINDING: property=%s %s" % (a.id, hit[0]))
                told.add(v["key"])
        else:
            new.append(v)
    missing = sorted(n for n in needs if not classes.get(n))
    if orders:
        classes["distinct orders of events"] = len(orders)
    if only is None:
        cov = dict(evaluations=evals, distinct_nontrivial=len(hashes), rule=rule, samples=samples or ["none"],
                   observed=dict(sorted(classes.items())), variants=["%s x%d" % (v[0], v[1]) for v in variants])
        if notes:
            cov["notes"] = notes
        if exhaustive:
            cov["exhaustive"] = True
        ev = dict(property=a.id, tier=a.tier, seed=a.seed, level="exploration", coverage=cov, assumptions=assume,
                  wall_s=round(time.time() - t0, 2), violations=len(new))
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        tmp = os.path.join(HERE, "evidence", ".%s.tmp" % a.id)
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(HERE, "evidence", a.id + ".json"))
    if new:
        d = os.path.join(HERE, "replays")
        os.makedirs(d, exist_ok=True)
        seen = set()
        for v in new:
            if v["key"] in seen:
                continue
            seen.add(v["key"])
            path = os.path.join(d, "%s-%s-%s.json" % (a.id, v["variant"], re.sub(r"[^A-Za-z0-9]+", "_", v["key"])[:40]))
            with open(path, "w") as f:
                json.dump(dict(property=a.id, variant=v["variant"], seed=a.seed, tier=a.tier, case=v["case"], key=v["key"], message=v["msg"],
                               command="python3 run.py %s --replay %s" % (a.id, os.path.relpath(path, HERE))), f, indent=1)
            print("VIOLATION property=%s replay=%s" % (a.id, path))
            print("  %s (case %d, %s): %s" % (v["key"], v["case"], v["variant"], v["msg"][:1500]))
        return 1
    if broken:
        print("NO ANSWER: " + "\n".join(broken)[:6000])
        return 2
    if missing and only is None:
        print("NO ANSWER: nothing was observed of: " + ", ".join(missing))
        return 2
    print("%s held: %d evaluations, %d distinct, %.1f s" % (a.id, evals, len(hashes), time.time() - t0))
    return 0


main()
