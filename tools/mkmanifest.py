#!/usr/bin/env python3
import json
CLAIMED = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21".split()
NA = {
 "C22": "The operators are pure functions of their two arguments: no schedule, clock, I/O or fault can change what they return. Deterministic simulation has nothing to control there; the part that depends on histories and sharing (policies applied to cached and shared statements, several chains) is C05.",
 "C23": "Encoding and decoding are pure functions. Where a round trip happens inside the system (through a cache, over the network) its effect is part of C05, C06 and C09.",
 "C24": "Filtering and sorting a given set of chains are pure functions. Their use inside resolution (shortest valid chain, expired chains) is part of C02 and C05.",
}
ALL = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
notes = {
 "C13": " The interleavings are explored at the granularity of statements of the library; a share of the runs uses the race detector of Go on top, which sees races on the schedules that were run.",
}
checks = []
for p in CLAIMED:
    checks.append({
        "property": p,
        "quick_cmd": f"./run.sh check {p} quick",
        "thorough_cmd": f"./run.sh check {p} thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": "deterministic simulation with fault injection: seeded search over federations, schedules, histories and faults; oracle: executable reference model and history checks",
        "level": "exploration",
        "level_note": "Seeded search, no proof: holds on every run explored. The library, its HTTP client, JOSE and cache libraries run for real inside one process; the other parties, the network, the redis server, clock, randomness and goroutine scheduling are simulated. Trusts the reference model in /verif/sim and the patched Go runtime in /verif/cmd/vsim/rtpatch.go." + notes.get(p, ""),
    })
na = [{"property": p, "reason": NA.get(p, "No check yet: the machinery for it is still being built.")} for p in ALL if p not in CLAIMED]
m = {
 "version": 1,
 "setup_cmd": "./run.sh setup",
 "hooks": {"guard": "verif", "enable": "./run.sh setup: every build instruments a copy of /repo's current tree (a yield point before every statement, package variables that can be reset) and hands it to 'go build -overlay -tags verif'; /repo itself has no hooks, so nothing has to be switched off there", "source_commits": []},
 "checks": checks,
 "not_applicable": na,
 "notes": "See DESIGN.md. VERIF_SEED selects the seeds; ./run.sh replay FILE repeats a violation exactly.",
}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
