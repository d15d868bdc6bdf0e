#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run by hand; the result is committed)."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IND = "Oracle: an HPROF reader and report model written independently of the tool (harness/ref). "
T = {
 "C01": ("exploration", "runtime monitoring: report oracle over generated dumps", IND + "Random sampling of heaps and encodings; trusts the generator to be well-formed and harness/ref to be right."),
 "C02": ("exploration", "runtime monitoring: in-process probe compares every lookup with the bytes of the dump", IND + "Every identifier and non-identifiers of many identifier sets, around the index write batch, and offsets beyond 4 GiB with a sparse file."),
 "C03": ("exploration", "runtime monitoring: in-process probe compares saved and restored records with the dump", IND + "Random records of all kinds and values, read back from the saved index."),
 "C04": ("exploration", "runtime monitoring: report oracle over generated dumps", IND + "Random threads, stacks, status words HotSpot stores; JDK 9-18 Thread layout."),
 "C05": ("exploration", "runtime monitoring: report oracle over generated dumps", IND + "Random assignments of local roots to threads and frames."),
 "C06": ("exploration", "runtime monitoring: report oracle over generated dumps", IND + "Random property tables with colliding keys, chains and tree bins."),
 "C07": ("exploration", "runtime monitoring: report oracle over generated dumps", IND + "Random roots, classes and times; Instances and Heap Size compared with objects too."),
 "C08": ("exploration", "runtime monitoring: in-process probe compares every field read with the dump", IND + "Random hierarchies with shadowed names and all nine types."),
 "C09": ("exploration", "runtime monitoring: report oracle over generated dumps", IND + "Random text of all planes in thread names and properties."),
 "C10": ("exploration", "runtime monitoring: report oracle over generated descriptors", IND + "Random descriptors of the whole grammar in frames, locals and rows."),
 "C11": ("exploration", "runtime monitoring: order and layout monitor on repeated runs", IND + "Determinism is judged by repeated runs with many ties."),
 "C12": ("exploration", "runtime monitoring: HTML tokenizer and comparison with the plain report", "The page is tokenized with the HTML5 rules that matter for injection; payloads are sampled."),
 "C13": ("exploration", "runtime monitoring: comparison of coloured and plain report", "Random and hostile dumps, all options."),
 "C14": ("exploration", "runtime monitoring: history monitor over command sequences, file-tree monitor", IND + "Random sequences of commands; each report is compared with the one of a fresh copy, the tree around the dump and the system calls are watched."),
 "C15": ("fault_enumeration", "runtime monitoring: crash and error injection at system calls (ptrace), histories checked against the oracle", IND + "Every mutating file-system call of a build is a kill point; no simulated loss of unsynced pages (power failure)."),
 "C16": ("exploration", "runtime monitoring: every prefix of small dumps, sampled prefixes of larger ones", "Exhaustive for tiny dumps of the seed, sampled for the rest."),
 "C17": ("exploration", "runtime monitoring: systematic anomalies inserted in generated dumps", "All header bytes, kinds of records and sub-records, identifier sizes; sampled places."),
 "C18": ("exploration", "runtime monitoring: mutation fuzzing of the tool under time and memory limits", "Mutation of generated dumps without coverage feedback; well-formed towers up to some million records; memory limit is RLIMIT_DATA in proportion to the file."),
 "C19": ("exploration", "runtime monitoring: Go race detector and differential monitor under controlled schedules (ptrace holds)", "The progress display is made to tick at chosen points of the parse; races are those of the schedules that ran."),
 "C20": ("exploration", "runtime monitoring: peak memory compared between dumps of the same symbol data", IND + "Growth below some 5 bytes per object is not seen by the quick tier; sizes up to 24 GiB (sparse) and 15 million (thorough: 36 million) objects."),
 "C21": ("exploration", "runtime monitoring: metamorphic comparison of reports over encodings of one heap", IND + "Random pairs of encodings, each dimension alone and combined; offsets up to 16 GiB with sparse files."),
 "C22": ("fault_enumeration", "runtime monitoring: error injection at every file operation (ptrace, full tmpfs, failing writers in process)", IND + "Every mutating call of a build of a small dump fails in turn; sampled combinations and index batches; errors that the kernel reports only after close are out of reach."),
 "C23": ("exploration", "runtime monitoring: stress and ptrace-controlled schedules of concurrent commands, histories checked against the oracle", IND + "Interleavings at system-call granularity: one command is stopped at each of its file-system calls while others run."),
 "C24": ("exploration", "runtime monitoring: differential monitor over all option combinations and spellings", IND + "Random orders and spellings of all 72 combinations."),
 "C25": ("exploration", "runtime monitoring: replacement histories with a file-system event scheduler (ptrace)", IND + "Replacement between commands in many ways and at every file-system call of a running analysis."),
 "C26": ("fault_enumeration", "runtime monitoring: read faults injected at system calls (ptrace), reports checked against the oracle", IND + "Every reading call of a command on small dumps, with and without an index, fails in turn; unreadable places at every record boundary of a dump; the rest is sampled."),
 "C27": ("exploration", "runtime monitoring: differential monitor over environments, paths and standard streams", IND + "26 dimensions, each alone and random combinations; other platforms and file systems are out of reach."),
 "C28": ("fault_enumeration", "runtime monitoring: write faults on standard output (ptrace, full file systems, closing readers)", "Positions sampled from all writes of each report; errors the kernel reports only at close are out of reach."),
 "C29": ("fault_enumeration", "runtime monitoring: file-tree monitor after injected errors, kills and refused dumps (ptrace)", "Every mutating file-system call of a build of a small dump fails or kills in turn; histories are sampled; age is simulated by setting the times of files."),
 "C30": ("exploration", "runtime monitoring: file-tree and system-call monitor over histories of commands", "Random histories after one analysis; bytes and reads of later commands compared between dumps that differ in what the report does not show."),
 "C31": ("exploration", "runtime monitoring: processor time and index size compared between dumps that differ by a factor of eight in one dimension", "30 dimensions, each alone; growth below about n^1.4 or with small constants is not seen; a suspicious time is measured again up to four times."),
}
checks = []
for i in sorted(T):
    level, tech, note = T[i]
    checks.append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
                   "technique": tech, "level": level, "level_note": note})
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
na = [{"property": i, "reason": "check not built yet"} for i in ids if i not in T]
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: in-process monitors are compiled into the tool's module with `go build -overlay` (tools/overlay.sh)."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
