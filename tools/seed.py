#!/usr/bin/env python3
"""Tries planted bugs: seed.py ID [--checks C01,C02] [--no-check]
Works in a mount and network name space of its own on copies of /repo and
/verif, so that the originals stay as they are."""
import argparse, fcntl, json, os, shutil, socket, struct, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(cmd, cwd="/repo", timeout=900):
    try:
        p = subprocess.run(["bash", "-c", cmd], cwd=cwd, capture_output=True, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        return 124, "timed out"
    return p.returncode, p.stdout + p.stderr


def inside(a, tmp):
    for d in ("repo", "verif"):
        subprocess.run(["mount", "--bind", f"{tmp}/{d}", f"/{d}"], check=True)
    with socket.socket() as s:
        fcntl.ioctl(s, 0x8914, struct.pack("16sh22x", b"lo", 0x49))
    d = f"{tmp}/demo"
    shutil.copytree(f"/verif/seeded/{a.id}", d, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    r = {"id": a.id}
    env = ". /opt/vp/env.sh; "
    if not a.no_demo:
        c, o = run(f"bash {d}/demo.sh", timeout=300)
        r["demo clean"] = c
        if c:
            print("DEMO FAILS ON THE CLEAN TREE\n" + o[-3000:])
    c, o = run(f"git apply {tmp}/verif/seeded/{a.id}/patch.diff")
    if c:
        print("does not apply", o)
    c, o = run("bash /opt/vp/build.sh")
    r["build"] = c
    if c:
        print(o[-2000:])
    if not a.no_demo:
        c, o = run(env + f"bash /opt/vp/test.sh {tmp}/out.json")
        stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        got = json.load(open(f"{tmp}/out.json"))
        lost = stable - (set(got["passed"]) - set(got["failed"]))
        r["tests lost"] = sorted(lost)
        c, o = run(f"bash {d}/demo.sh", timeout=300)
        r["demo patched"] = c
        if a.v or c == 0:
            print("demo says: " + o[-1500:])
    ok = r.get("demo clean", 0) == 0 and r["build"] == 0 and not r.get("tests lost") and r.get("demo patched", 1) != 0
    r["valid"] = ok
    if not a.no_check:
        own = json.load(open(f"/verif/seeded/{a.id}/meta.json"))["property"]
        for k in (a.checks.split(",") if a.checks else [own]):
            c, o = run(f"VERIF_SEED=1 VERIF_TIER=quick python3 run.py {k}", "/verif")
            caught = c == 1 and f"VIOLATION property={k} " in o
            r[k] = "caught" if caught else "rc %d" % c
            if a.v or not caught and c:
                print(o[-1500:])
            elif caught:
                lines = [x for x in o.splitlines() if x.startswith("VIOLATION") or x.startswith("  ")]
                print("   ", "\n    ".join(x[:300] for x in lines[:2]))
    print(json.dumps(r))
    with open("/tmp/seed/results", "a") as f:
        f.write(json.dumps(r) + "\n")


def main():
    p = argparse.ArgumentParser()
    p.add_argument("id")
    p.add_argument("--checks", default="")
    p.add_argument("--no-check", action="store_true")
    p.add_argument("--no-demo", action="store_true")
    p.add_argument("-v", action="store_true")
    p.add_argument("--tmp", default="")
    a = p.parse_args()
    if a.tmp:
        return inside(a, a.tmp)
    os.makedirs("/tmp/seed", exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="seed-", dir="/tmp/seed")
    try:
        subprocess.run(["cp", "-a", "/repo", f"{tmp}/repo"], check=True)
        subprocess.run(["cp", "-a", VERIF, f"{tmp}/verif"], check=True)
        subprocess.run(["git", "-C", f"{tmp}/repo", "checkout", "-q", "--", "."])
        subprocess.run(["unshare", "-n", "-m", "--propagation", "private", sys.executable, f"{tmp}/verif/tools/seed.py", *sys.argv[1:], "--tmp", tmp])
    finally:
        shutil.rmtree(tmp)


main()
