#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed properties."""
import json, os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T="deterministic simulation: seeded search over thread schedules and faults, "
tech={
"C01":T+"parallel result compared with the sequential result and with a build without threads",
"C02":T+"exact winding-number reference model",
"C03":T+"results of every strategy judged by one winding-number model",
"C04":T+"refinement against extraction from a fresh graph",
"C05":T+"each operation compared with its run alone",
"C06":T+"replicas under different hash keys, heaps, threads and schedules compared",
"C07":T+"panic injection at every caller callback",
"C08":T+"structural invariants checked on every result",
"C09":T+"line coverage reference model",
"C10":T+"connectivity reference model of the sliced region",
"C11":T+"containers and call styles compared, region against the winding-number model",
"C12":T+"distance and corner reference model",
"C13":T+"histories of add calls compared",
"C14":T+"bounded progress once stalls end, no panic, no memory error",
"C15":T+"side fills against winding numbers, edge sets against shapes",
"C16":T+"exact conservation identities over one graph",
"C17":T+"edge conservation over decomposed contours in histories of operations",
"C18":T+"every step of a history of operations judged by the reference model",
"C19":T+"a translated or rescaled replica of each operation compared",
"C20":T+"a replica with exchanged operands or reversed contours compared",
}
note="Seeded exploration of schedules, configurations, faults and inputs; a clean batch is evidence, not proof. Bounds, oracle and tolerance are in DESIGN.md."
P=[json.loads(l) for l in open(os.path.join(root,"properties.jsonl"))]
m={
"version":1,
"setup_cmd":"sh tools/setup.sh",
"hooks":{"guard":"none (no hook in /repo is needed)","enable":"The harness replaces rayon-core, the allocator and the libc calls around the unchanged crate (cargo patch and symbol interposition in /verif/sim); /repo is built as it is.","source_commits":[]},
"checks":[{"property":p["id"],"quick_cmd":"sh tools/check.sh %s quick"%p["id"],"thorough_cmd":"sh tools/check.sh %s thorough"%p["id"],"evidence_file":"evidence/%s.json"%p["id"],"technique":tech[p["id"]],"level":"exploration","level_note":note} for p in P if p["id"] in tech],
"not_applicable":[],
"notes":"Replay a violation with: sh tools/replay.sh FILE. Known and fixed findings: known_findings.txt."
}
assert {p["id"] for p in P}=={c["property"] for c in m["checks"]}|{n["property"] for n in m["not_applicable"]}
json.dump(m,open(os.path.join(root,"MANIFEST.json"),"w"),indent=1); open(os.path.join(root,"MANIFEST.json"),"a").write("\n")
