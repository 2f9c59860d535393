#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SAN = "ASan+UBSan build; "
T = {
 "C01": SAN + "hostile LSP sessions and libFuzzer-style mutation against the real server, sanitizers and liveness monitor as oracle",
 "C02": SAN + "online JSON-RPC protocol monitor over recorded sessions of the real server",
 "C03": SAN + "differential monitor over chunked deliveries of the same LSP stream, frame checker",
 "C04": SAN + "stream-end fault enumeration and shutdown/exit sessions, exit status monitor",
 "C05": SAN + "diagnostics of the server against verdicts of a directly driven parser",
 "C06": SAN + "differential monitor: interleaved sessions against fresh-server replays",
 "C07": SAN + "hover answers against a reference model of macro assignments",
 "C08": SAN + "hover, completion and resolve answers against the description files",
 "C09": SAN + "code lens answers against totals of a directly driven parser",
 "C10": SAN + "configuration fault injection with liveness and diagnostic monitors",
 "C11": SAN + "hostile call sequences on the C interface under ASan, UBSan and LSan",
 "C12": SAN + "round-trip monitor over parsed words",
 "C13": SAN + "verdict monitor against a reference model of the word tables",
 "C14": SAN + "verdict monitor against the code group tables",
 "C15": SAN + "verdict monitor against a reference model of machine limits",
 "C16": SAN + "reference evaluator for macro expressions",
 "C17": SAN + "differential monitor: macro programs against their substituted twins, latest-assignment model",
 "C18": SAN + "reference simulator of positions and path lengths",
 "C19": SAN + "geometric reference for arcs",
 "C20": SAN + "reference model of drilling cycles",
 "C21": SAN + "reference model of machining time",
 "C22": SAN + "conservation monitor over recorded path and time events",
 "C23": SAN + "differential monitor: reset parser against a new one",
 "C24": SAN + "reference conversion of the written words",
 "C25": SAN + "reference renumbering of the written words",
 "C26": SAN + "rotation matrices as reference, composition monitor",
 "C27": SAN + "conservation and ordering monitor over the parts",
 "C28": SAN + "reference removal on the written words, idempotence",
 "C29": "TSan build, parsers in threads; results compared with single-threaded runs",
 "C30": SAN + "well-formed, faulty and hostile texts on the Heidenhain interface against the written grammar, repeatability monitor",
 "C31": SAN + "differential monitor: English against Polish run of the same session",
 "C32": SAN + "metamorphic monitor over the lengths of helix turns, reference for plain arcs and spirals",
}
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    d = json.loads(l)
    i = d["id"]
    f = "checks/%s.py" % i.lower()
    if os.path.exists(os.path.join(V, f)):
        checks.append({"property": i, "quick_cmd": "python3 " + f, "thorough_cmd": "VERIF_TIER=thorough python3 " + f,
                       "technique": "runtime monitoring: " + T[i], "level": "exploration",
                       "level_note": "Decided on the executions of the real code that the workload produces; see DESIGN.md for the workload, the oracle and its limits."})
    else:
        na.append({"property": i, "reason": "No check is registered for it yet."})
m = {"version": 1, "setup_cmd": "python3 harness/build.py asan pdrv nclangsrv", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "without")
