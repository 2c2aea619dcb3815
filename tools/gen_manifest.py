#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: the claimed checks, and why the others are not claimed."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILE = "the real reader runs over every one of these files, with the kernel's answers to its reads decided by the explorer at the libc boundary"
NET = "the real client runs against an in-process model server with the kernel's answers decided by the explorer at the libc boundary, on a virtual clock"
T = {  # technique, level, note
 "C01": ("bounded exhaustive exploration of event sequences, sizes and read-splitting patterns of the real reader", "exploration", FILE + "; trusts the reference encoder"),
 "C02": ("exhaustive crash-point enumeration (every cut byte, every failing read) of the real reader", "fault_enumeration", FILE + "; torn files are prefixes"),
 "C03": ("exhaustive enumeration of fault positions in event sequences, against the fault-free run", "fault_enumeration", FILE + "; streams likewise from the model server"),
 "C04": ("bounded exhaustive enumeration of byte strings and mutations, with allocation and progress monitors", "exploration", "every case within the stated bounds runs through the real decoder with overflow checks, an allocation limit and a watchdog"),
 "C05": ("exhaustive enumeration of malformed server responses and faults at every step of the dialogue", "fault_enumeration", NET),
 "C06": ("bounded exhaustive enumeration of texts over a grammar-directed alphabet against a reference parser", "exploration", "every text of the bounded language is parsed by the real code and judged by a reference grammar"),
 "C07": ("bounded exhaustive exploration of table shapes, presence and null patterns and row sequences against a reference encoder", "exploration", FILE + "; trusts the reference encoder"),
 "C08": ("bounded exhaustive enumeration of column definitions and values against a reference encoder", "exploration", FILE + "; trusts the reference encoder"),
 "C09": ("bounded exhaustive enumeration of temporal values and precisions against a reference encoder", "exploration", FILE + "; trusts the reference encoder"),
 "C10": ("bounded exhaustive enumeration of precisions, scales and values against a reference encoder", "exploration", FILE + "; trusts the reference encoder"),
 "C11": ("bounded exhaustive enumeration of table definitions and optional metadata against a reference encoder", "exploration", FILE + "; trusts the reference encoder"),
 "C12": ("explicit exploration of all operation histories up to a depth against a reference map from table id to definition", "model_checking", FILE + "; the same histories as replication streams"),
 "C13": ("bounded exhaustive enumeration of event fields against a reference encoder", "exploration", FILE + "; trusts the reference encoder"),
 "C14": ("explicit exploration of all sequences of format descriptions and events up to a depth against a model of the algorithm in force", "model_checking", FILE + "; the same as replication streams for every negotiated algorithm"),
 "C15": ("explicit-state search of the real GTID set under all operation sequences, against a mathematical set", "model_checking", "transitions call the real code; every reached state is compared with the model and its canonical text re-parsed"),
 "C16": ("explicit-state search of the real GTID list under all operation sequences, against a reference map", "model_checking", "transitions call the real code; every reached state is compared with the model and its text re-parsed"),
 "C17": ("explicit exploration of all transaction histories and commit prefixes against a model of processed transactions", "model_checking", NET),
 "C18": ("explicit exploration of all stream histories; every committed prefix is resumed from against the model server", "model_checking", NET),
 "C19": ("exhaustive crash-point enumeration: every disconnect and application failure point, resumed and compared", "fault_enumeration", NET),
 "C20": ("exhaustive enumeration of configurations and server flavours, requests judged by the protocol model", "model_checking", NET),
 "C21": ("explicit exploration of all login flows against a protocol state machine of the server", "model_checking", NET),
 "C22": ("exhaustive exploration of adversarial server scripts up to a depth, with a secrecy monitor on every byte sent", "model_checking", NET),
 "C23": ("exhaustive injection of an error packet at every step of every dialogue", "model_checking", NET),
 "C24": ("exhaustive enumeration of read/write splits and interruptions bounded by deviations, against the unsplit run", "fault_enumeration", NET),
 "C25": ("exhaustive enumeration of silence, close and reset at every byte, on a virtual clock", "fault_enumeration", NET),
 "C26": ("explicit exploration of all packet sequences up to a depth against a model of the stream", "model_checking", NET),
 "C28": ("explicit exploration of all interleavings of calls, and of all thread schedules up to a preemption bound under a controlled scheduler, against the separate runs", "model_checking", FILE + "; streams from model servers; threads switch at transfers and allocations"),
 "C29": ("exhaustive enumeration of arrival patterns of bytes on a virtual clock, judged by the time of every delivery", "model_checking", NET + "; growing files through a pipe"),
 "C30": ("explicit exploration of all histories of starts, failures, deliveries and drops with a model of the connections owned", "model_checking", NET),
 "C31": ("explicit exploration of all session histories up to a depth, every one compared with a new client", "model_checking", NET),
 "C32": ("explicit exploration of all cycles of events, transactions and sessions up to a length, repeated, with monitors of memory and calls", "model_checking", NET + "; files through the real reader"),
 "C33": ("explicit exploration of all session histories of a bounded set, the options compared after every step", "model_checking", NET),
 "C34": ("explicit-state exploration of all sequences of commits up to a depth against the permitted moves of the position", "model_checking", "every sequence is run on the real client with events decoded by the real reader"),
 "C27": ("explicit exploration of server positions, answers and reconnection histories against the model server", "model_checking", NET),
}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
claimed = [p for p in props if p in set(open(os.path.join(V, "tools", "claimed.txt")).read().split())]
assert all(p in T for p in claimed)
m = dict(version=1, setup_cmd="./check.sh build",
  checks=[dict(property=p, quick_cmd=f"./check.sh {p} quick", thorough_cmd=f"./check.sh {p} thorough",
    technique=T[p][0], level=T[p][1], level_note=T[p][2]) for p in claimed],
  not_applicable=[dict(property=p, reason="its check is not built yet") for p in props if p not in claimed],
  notes="No hooks in /repo: the checks own the environment of the code at the libc boundary of their own binary. See DESIGN.md.")
open(os.path.join(V, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
