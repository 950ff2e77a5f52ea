#!/usr/bin/env python3
"""Tries small changes made by mutgen: mutate.py MUTANTS OUT WORKER WORKERS
Every worker has mount and network name spaces of its own and copies of /repo and
/verif. For each mutant the checks that concern its file run until one raises an
alarm; those that none notices are written to OUT with "caught": ""."""
import fcntl, json, os, random, shutil, socket, struct, subprocess, sys, tempfile, time

ENC = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C12 C20 C11"
ORDER = [
    ("encoding/npdu", "C04 C12 C03 C21 C18"), ("encoding/bvlc", "C05 C12"), ("encoding/apdu", "C05 C03 C11"), ("encoding/iam", "C09 C03 C16"),
    ("encoding/whois", "C09 C03"), ("encoding/readmultipleack", "C08 C30 C03"), ("encoding/readprop", "C06 C08 C30 C03"), ("encoding/readmultiple", "C06 C03 C08"),
    ("encoding/write", "C07"), ("encoding/context_tag", "C30"), ("encoding/date", "C02 C01 C03 C08"), ("encoding/", ENC),
    ("tsm", "C13 C14 C10"), ("utsm", "C15 C16"), ("network/points", "C24 C28 C25"), ("network/write", "C24 C28"), ("network/read", "C24 C28"), ("network/", "C25 C24 C28 C22"),
    ("helpers/", "C23 C26 C25"), ("btypes/bitstring", "C23 C02"), ("btypes/priority", "C23 C24"), ("btypes/object", "C29 C23"), ("btypes/address", "C26 C12"),
    ("btypes/", "C23 C25 C26 C12 C05 C04 C29"), ("datalink", "C26 C17 C22"), ("objectlist", "C19 C28"), ("whatnetwork", "C18 C12 C22"), ("whoisrouter", "C18 C12 C22"), ("whois", "C16 C12 C22 C28"),
    ("iam", "C12 C27 C28"), ("misc", "C22 C11"), ("readprop", "C11 C10 C12 C22 C20"), ("readmulti", "C20 C11 C10 C12 C22"), ("writeprop", "C11 C10 C12 C22 C24"),
    ("writemulti", "C20 C11 C10 C12 C22"), ("device.go", "C11 C12 C17 C16 C18 C21 C22 C20 C10"),
]


def run(cmd, cwd="/repo", timeout=900):
    p = subprocess.Popen(["bash", "-c", cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 15)
        return 124, "timed out"


def inside(tmp, muts, out, k, n):
    for d in ("repo", "verif"):
        subprocess.run(["mount", "--bind", f"{tmp}/{d}", f"/{d}"], check=True)
    with socket.socket() as s:
        fcntl.ioctl(s, 0x8914, struct.pack("16sh22x", b"lo", 0x49))
    ms = [json.loads(l) for l in open(muts)]
    for i, m in enumerate(ms):
        m["n"] = i
    random.Random(5).shuffle(ms)
    env = ". /opt/vp/env.sh; "
    done = set()
    if os.path.exists(out):
        done = {json.loads(l)["n"] for l in open(out)}
    for i, m in enumerate(ms):
        if i % n != k or m["n"] in done:
            continue
        p = "/repo/" + m["file"]
        src = open(p, "rb").read()
        open(p, "wb").write(src[:m["from"]] + m["new"].encode() + src[m["to"]:])
        t = time.time()
        try:
            c, o = run(env + "go build . ./btypes/... ./datalink ./encoding ./helpers/... ./network ./tsm ./utsm")
            m["caught"] = "build" if c else ""
            if not c:
                order = next((x for pre, x in ORDER if m["file"].startswith(pre)), "C11 C12")
                for chk in order.split():
                    c, o = run(f"VERIF_FAST=1 VERIF_SEED=1 VERIF_TIER=quick python3 run.py {chk}", "/verif", 700)
                    if c != 0:
                        m["caught"] = chk if c == 1 else chk + " rc %d" % c
                        break
        finally:
            open(p, "wb").write(src)
        m["s"] = round(time.time() - t, 1)
        with open(out, "a") as f:
            f.write(json.dumps(m) + "\n")


def main():
    if len(sys.argv) > 5:
        return inside(sys.argv[5], sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]))
    tmp = tempfile.mkdtemp(prefix="mut-")
    try:
        subprocess.run(["cp", "-a", "/repo", f"{tmp}/repo"], check=True)
        subprocess.run(["cp", "-a", "/verif", f"{tmp}/verif"], check=True)
        subprocess.run(["git", "-C", f"{tmp}/repo", "checkout", "-q", "--", "."])
        subprocess.run(["unshare", "-n", "-m", "--propagation", "private", sys.executable, f"{tmp}/verif/tools/mutate.py", *sys.argv[1:], tmp])
    finally:
        shutil.rmtree(tmp)


main()
