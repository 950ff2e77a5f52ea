#!/usr/bin/env python3
"""Writes MANIFEST.json: one check for every property for which a worker is registered."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = "".join(open(f).read() for f in glob.glob(here + "/harness/checks/*.go"))
have = set(re.findall(r'register\("(C\d\d)"', src))
TECH = {
    "codec": ("runtime oracle: the real codec run on generated and enumerated inputs, each result compared with an independent reference codec",
              "Held on every case executed (counts in the evidence); enumerated parts are named there. Trusts the reference codec in harness/ref, which was written from the standard and shares no code with the library."),
    "hostile": ("runtime monitors over hostile input: panic, allocation, processor-time and truncation monitors around every decoding entry point",
                "Held on every octet sequence executed. Allocation is read from the runtime's counters, time from the thread's processor clock, so that load on the machine decides nothing."),
    "client": ("runtime monitoring: the real client on a simulated network in virtual time, a trace oracle over the recorded datagrams, the device's own state and the results returned",
               "Held on every history executed; the simulated devices parse requests strictly with the reference codec. Virtual time (testing/synctest) makes time-outs exact."),
    "conc": ("runtime monitoring: recorded concurrent histories judged by an online/offline oracle, with schedules perturbed by yields inserted at every statement",
             "Held on every interleaving executed (counts in the evidence); schedules are sampled, not enumerated."),
    "race": ("Go race detector plus history oracles under perturbed schedules", "No race or wrong history on the interleavings executed; schedules are sampled, not enumerated."),
    "udp": ("runtime monitoring of the real code over loopback UDP against simulated devices, oracle over device state and returned results",
            "Held on every exchange executed over real sockets; a lost datagram is retried before anything is concluded."),
    "model": ("runtime oracle: random operation sequences executed on the real containers and compared with a plain model", "Held on every sequence executed."),
}
KIND = {"C01": "codec", "C02": "codec", "C03": "hostile", "C04": "codec", "C05": "codec", "C06": "codec", "C07": "codec", "C08": "codec", "C09": "codec",
        "C10": "conc", "C11": "client", "C12": "client", "C13": "conc", "C14": "race", "C15": "race", "C16": "conc", "C17": "client", "C18": "conc", "C19": "client",
        "C20": "client", "C21": "client", "C22": "client", "C23": "model", "C24": "udp", "C25": "udp", "C26": "udp", "C27": "race", "C28": "client", "C29": "model", "C30": "codec", "C31": "race", "C32": "client"}
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: yields are inserted by an overlay generated from the current tree at each build; nothing in /repo is guarded."}
for p in props:
    i = p["id"]
    if i in have:
        t, n = TECH[KIND[i]]
        m["checks"].append({"property": i, "quick_cmd": "python3 run.py " + i, "thorough_cmd": "python3 run.py %s --tier thorough" % i,
                            "technique": t, "level": "exploration", "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": "the check is not built yet"})
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks")
