#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json
CLAIMED = {
 "C01": "seeded thread schedules over the in-memory datastore, recorded histories checked for linearizability against a reference graph",
 "C02": "seeded thread schedules over the RocksDB datastore (with its background threads), recorded histories checked for linearizability against a reference graph",
 "C03": "seeded schedules, crashes, power losses and reopenings; structural invariants of the whole graph checked afterwards",
 "C04": "seeded schedules, crashes, power losses and reopenings; every index query compared with the stored properties",
 "C05": "seeded call histories against both datastores with background work, compared call by call with a reference graph",
 "C06": "seeded schedules and process kills at random I/O operations and scheduling points; recovered state checked against the recorded history",
 "C07": "seeded schedules and power losses with lost, torn and reordered writes; recovered state checked as a synced prefix of the recorded history",
 "C08": "seeded schedules, kills, power losses and disk errors around image syncs; image checked against the recorded history",
 "C09": "seeded disk errors, short writes and full disks, also followed by kills and power losses; results and state checked against the recorded history",
 "C10": "seeded crashes, power losses and disk errors during create, open and repair, repeatedly; dump compared with acknowledged data",
 "C17": "seeded histories with reopening, repairing and image round trips; dumps and query answers compared with a reference graph",
 "C14": "seeded schedules of the worker threads with failing, panicking and slow callbacks, read errors and concurrent writers; callback log and result judged",
 "C11": "seeded schedules and simulated network of the real gRPC server and clients, over both datastores; recorded histories checked for linearizability against a reference graph",
 "C12": "seeded resets, stalls and cancellations of the simulated connections; each call whole or absent, recorded histories checked against a reference graph",
 "C13": "seeded misbehaving clients, failing and panicking datastore calls and failing accepts beside ordinary clients; results, completion within bounded simulated time and history checked",
 "C15": "seeded schedules of plugins that write, sleep, fail and panic, run as shared libraries by the real server beside other clients; histories checked against a reference graph",
 "C16": "seeded schedules, wall clocks that jump, stand still or start over, process kills and restarts; identifiers and stored vertices compared",
 "C18": "seeded schedules of queries and paging loops beside writers and background work; answers compared with what each item's recorded history allows",
}
NOTE = {}
NA = {
 "N01": "typing of query expressions is a pure function of the expression, decided when it is built: no schedule, clock, I/O, crash or second party can change the outcome",
 "N02": "equality, order and hash of JSON values are pure functions of two or three values: nothing for a simulator to schedule or fault",
 "N03": "wire conversion of single values is a pure function; whole calls over the wire are decided by C11",
 "N04": "validation of identifiers is a pure function of a string",
 "N05": "key encoding is a pure function of the key components; whole datastores with extreme keys are exercised under C05",
 "N06": "parsing a command line happens once, sequentially, before any thread, file or socket is used",
}
checks = []
for p, t in CLAIMED.items():
    checks.append({
        "property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
        "technique": "deterministic simulation with fault injection: " + t, "level": "exploration",
        "level_note": NOTE.get(p, "a seeded search over simulated executions: what no explored schedule, fault sequence or workload shows is not excluded; see DESIGN.md for the sizes explored"),
    })
na = dict(NA)
for l in open("/verif/properties.jsonl"):
    d = json.loads(l)
    if d["id"] not in CLAIMED and d["id"] not in na:
        na[d["id"]] = "not built yet"
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in na.items()]}, open("/verif/MANIFEST.json", "w"), indent=1)
