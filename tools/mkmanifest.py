#!/usr/bin/env python3
"""writes MANIFEST.json from the table below"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vlib.checks import REGISTRY
KS = ("Keyspace.tla: TLC enumerates every transition of a bounded instance (MCKeyspace) and checks its invariants; every transition is walked on the "
      "real server and the recorded histories, plus seeded random and size-threshold histories, are validated by TLC (KsTrace)")
NOTE_KS = ("Exhaustive for the bounded command set and sizes of the family (small keys/values, clock frozen and stepped); sampled beyond it. Trusts the Python "
           "encoder of requests/replies and the virtual wall clock of the harness process.")
T = {
    "C01": (KS, NOTE_KS), "C02": (KS, NOTE_KS), "C03": (KS, NOTE_KS), "C04": (KS, NOTE_KS),
    "C05": (KS, NOTE_KS + " Scores are exact: multiples of a quarter with arithmetic, arbitrary doubles where only compared."),
    "C06": (KS, NOTE_KS + " Requests whose arguments do not parse come from a list with at least one per command."),
    "C07": (KS, NOTE_KS + " Expired keys still in memory are explicit states of the explored model (ghosts)."),
    "C08": (KS, NOTE_KS), "C16": (KS, NOTE_KS + " Payloads are opaque to the model: what one denotes is learned from the DUMP that produced it."),
    "C09": ("LinTrace.tla: TLC searches a linearization, against the operators of Keyspace.tla, of every per-key history of concurrent clients recorded from the real multi-threaded server",
            "Schedules are those the real server takes (hot keys, worker threads with injected spins, pipelined bursts of simultaneous requests); each recorded history is decided completely by TLC."),
    "C10": ("ExpireIndex.tla: exhaustive model of slot dictionary, deadline index, message queue and purge task; histories of the real server with stepped wall and monotonic clocks, its "
            "memory being read through syncsnapshot, are validated by TLC (KsTrace, LinTrace)", "Design exhaustive at 2 keys and 2-4 operations; the implementation by seeded sequential and concurrent histories with complete views of memory."),
    "C11": ("ExpireIndex.tla with flush, and Keyspace.tla: recorded histories with FLUSHALL over all types and all 16384 slots, and among concurrent writers, are validated by TLC (KsTrace, LinTrace), memory included",
            "Seeded histories; sequential and with concurrent clients."),
    "C12": ("MCConn.tla: TLC enumerates streams of requests and every segmentation of them; each is driven into the real server and the replies are validated by TLC (ConnTrace); pipelines and large requests by KsTrace",
            "Exhaustive for 3 items of length 2 in the abstract; byte-by-byte and all two-cut segmentations of the concrete streams, sampled beyond."),
    "C13": ("Keyspace.tla with byte strings as opaque words: strings of every kind in every role of every command, recorded and validated by TLC (KsTrace); segmentations by ConnTrace; replies re-parsed strictly",
            "All single bytes, delimiter combinations, sizes across buffer boundaries; sampled beyond."),
    "C14": ("MCConn.tla/ConnTrace: malformed items at every position and segmentation; a well-behaved client's history next to fuzzed connections is validated by TLC (KsTrace)",
            "Exhaustive for the listed malformed items; seeded grammar-based input beyond; survival of the process and of other connections observed."),
    "C15": ("MCLimit.tla: TLC enumerates the histories of connections opening and ending in every way under a limit; each transition is driven into real servers and the observations are validated by TLC (LimitTrace)",
            "Exhaustive for the model's transitions at limits 1-3, 5 connections and any supply of descriptors; the real server follows every pair of endings and random histories, with and without descriptors running out."),
    "C17": ("Slots.tla: CRC16 and hash tags computed by TLC for (key, slot) observations of the real server (SlotTrace); interference histories by KsTrace", "Sampled keys including all tag shapes and all single bytes."),
    "C18": ("Stream.tla (design) and Keyspace.tla: the replication streams of real leaders, sequential and under concurrent writers, are replayed by TLC command by command and compared with its snapshots (KsTrace)", "Seeded histories."),
    "C19": ("Snapshot.tla (design); snapshots of a real leader under concurrent writers are placed by TLC against the numbered writes of its stream (SnapTrace), contents by KsTrace", "Seeded histories."),
    "C20": ("Repl.tla (design, exhaustive with faults); MCDeliver.tla: TLC enumerates deliveries (loss, duplication, reordering, connections, snapshots); each is driven into a real follower from a scripted leader that re-sends what a real leader published, and judged by ReplTrace",
            "Exhaustive for the bounded deliveries (3-4 writes, 1-2 connections); sampled beyond."),
    "C21": ("Repl.tla (design, convergence as a liveness property under fairness); groups of real leaders, followers and placement driver, with broken and stalled connections and failover, are compared slot by slot by ReplTrace when the writes have stopped", "Seeded histories."),
    "C22": ("Pd.tla/MCPd.tla: TLC enumerates histories of registrations and heartbeats; each is driven into the real placement driver and validated (PdTrace)", "Exhaustive for the bounded instance; random beyond."),
    "C23": ("Pd.tla/MCPd.tla with time: every transition enumerated by TLC is driven into real placement drivers under a stepped clock and validated (PdTrace)", "Exhaustive for the bounded instance; random beyond."),
    "C24": ("Obey.tla (design) and MCObey.tla: TLC enumerates the answers of a placement driver; real servers walk every transition against scripted drivers and leaders, and what they report, follow and hold is validated by ObeyTrace", "Exhaustive for every answer after every status; sampled beyond."),
    "C25": ("Visits.tla (design, MCVisits, wrong designs refuted); every command on live, expired and missing keys of every type and seeded random histories of real servers under a stepped clock are validated by TLC (VisitTrace)",
            "Every command in every state of the listed values; sampled beyond. How often one command looks a key up is left open (once to twice)."),
}
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks = []
for p in props:
    if p in REGISTRY:
        tech, note = T[p]
        checks.append({"property": p, "quick_cmd": "bin/check %s quick" % p, "thorough_cmd": "bin/check %s thorough" % p,
                       "evidence_file": "evidence/%s.json" % p, "technique": tech, "level": "model_checking", "level_note": note})
na = [{"property": p, "reason": "no check registered yet (see DESIGN.md)"} for p in props if p not in REGISTRY]
json.dump({"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the harness crate links the real crates and substitutes only the wall clock."}, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
