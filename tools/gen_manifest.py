#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of checks below and properties.jsonl."""
import json, os, sys
top = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
X, F = "exploration", "fault_enumeration"
CHECKS = {
 "C01": (X, "runtime monitoring: wire monitor over real uploads (loopback), reference reassembly",
   "Every packet of every monitored transfer is checked against the file's bytes. Trusts the independent wire codec and Go's SHA-1."),
 "C02": (F, "runtime monitoring: catalogue/disk monitor over downloads with enumerated packet faults",
   "Every single packet fault of a fixed list at every packet of a transfer, plus random combinations and lying senders; every listed chunk is compared with the real bytes on disk."),
 "C03": (X, "runtime monitoring: completion monitor over downloads through a faulty network proxy",
   "Progress is judged by a bound on transfer requests per chunk after faults stop and a generous wall-clock bound."),
 "C04": (X, "runtime monitoring: datagram floods against server and real daemon, then functional probes",
   "Process-liveness, panic and probe oracles over generated and mutated datagrams."),
 "C05": (X, "runtime monitoring: hostile scripted peers, disk tree and catalogue monitors",
   "Hostile replies come from a fixed catalogue of scripts plus mutations; the disk oracle sees every byte of the scratch tree."),
 "C06": (X, "runtime monitoring: file tree monitor over registrations and downloads with hostile names",
   "Whole scratch tree is diffed after each operation; runs unprivileged in a user namespace."),
 "C07": (X, "runtime monitoring: reply monitor against a reference set model",
   "Replies of the real server are compared with a model of what is held."),
 "C08": (X, "runtime monitoring: listing replies compared with known catalogue contents; altered replies injected",
   "Both sides of the listing are observed; sizes up to what one datagram carries and beyond."),
 "C09": (X, "runtime monitoring: offline checker of recorded discovery/reply histories",
   "Delivered/refused/returned histories of concurrent discoveries are checked for exact accounting; hang watchdog."),
 "C10": (X, "runtime monitoring: round-trip oracle with independent codec",
   "Generated messages incl. all boundary lengths, both directions compared with an independently written codec."),
 "C11": (X, "runtime monitoring: totality oracle over exhaustive short, mutated and random inputs",
   "Differential against an independent reference decoder; panics, input writes and nondeterminism are observed."),
 "C12": (X, "runtime monitoring: model-based operation sequences",
   "Bitset operations are mirrored on a reference set; all observers compared after each step."),
 "C13": (X, "runtime monitoring: round-trip and damage oracle",
   "All truncations and byte/bit damages of serializations, plus random bytes."),
 "C14": (X, "runtime monitoring: reference partition oracle, exhaustive for small sizes",
   "All sets up to a small size exhaustively, larger ones generated; compared with brute force."),
 "C15": (X, "runtime monitoring: model-based histories with restarts, copies and moves",
   "Listing before and after every reopening is compared, in this and in another process."),
 "C16": (F, "runtime monitoring: process killed at every file-system call (ptrace injector), state oracle on reopening",
   "Every mutating system call of each operation is a kill point, both before and after it; kills in the middle of a write are simulated with short writes. Trusts that killing a process loses no completed system call (no power failure)."),
 "C17": (X, "runtime monitoring: linearizability checking of recorded concurrent histories (porcupine)",
   "Histories of concurrent catalogue calls are checked against a sequential model."),
 "C18": (X, "race detector over mixed concurrent workloads (server in-process and the real daemon)",
   "Only races between accesses that executed in the workload are seen; happens-before based, so schedules need not collide."),
 "C19": (F, "runtime monitoring: every file-system call of every operation made to fail (ptrace injector), listing oracle",
   "Each mutating system call of each operation is made to fail with several error codes; listing in memory and after reopening must be as before."),
 "C20": (X, "runtime monitoring: model of clean and tree monitor incl. times",
   "Model-based histories over files that are changed, removed and replaced."),
 "C21": (X, "runtime monitoring: descriptor and goroutine census after many transfers",
   "Census of /proc/self/fd, sockets and goroutine stacks before and after batches of completed, failed and abandoned transfers."),
 "C22": (F, "runtime monitoring: downloader process killed at each packet and at random times, request log oracle",
   "The sending side's log of requested chunks is compared with the catalogue before the restart."),
 "C23": (X, "runtime monitoring: round-trip oracle",
   "Generated hashes and texts, exhaustive single-character damage."),
 "C24": (X, "runtime monitoring: reference chunking oracle",
   "Files of boundary sizes and random chunk sizes are read through the real chunk readers."),
 "C25": (X, "runtime monitoring: real CLI and daemon processes, output oracle",
   "Real binaries in a private network namespace, outputs parsed and compared with an independent reading of the catalogue files."),
 "C26": (X, "runtime monitoring: file image model over generated saves",
   "Each save is mirrored on a model image of the file and set of chunks."),
 "C27": (X, "runtime monitoring: wire silence and refusal oracle",
   "Requests for what is not servable must be refused with no packet sent; servability follows saves, unshares and file changes."),
 "C28": (X, "runtime monitoring: wire monitors over many interleaved uploads",
   "Each flow has its own monitor; acks are misdirected and ports reused on purpose."),
 "C29": (X, "runtime monitoring: window automaton over the packet trace",
   "Counts sent packets against acknowledgements at every step; stalls are judged by a generous timeout."),
 "C30": (X, "runtime monitoring: local commands injected during live transfers, liveness and tree oracles",
   "In-process server and the real daemon."),
 "C31": (X, "runtime monitoring: several real daemons on a virtual LAN (namespaces), end-to-end oracle",
   "Real binaries, real UDP broadcast over a bridge, kill -9 and restarts."),
 "C32": (X, "runtime monitoring: differential against an independent codec, and mixed LANs of real daemons of two versions",
   "The earlier version is the snapshot in reference/; the codec is checked in both directions."),
 "C33": (X, "runtime monitoring: catalogues from an independent writer of the earlier format, and upgrades of real daemons",
   "Generated directories are opened, listed, read, worked on and reopened; real daemons of reference/ are replaced by the current one, also during downloads."),
 "C34": (X, "runtime monitoring: census of the live heap over rounds of thousands of requests",
   "Bytes in use after garbage collections; a kind of request is reported only if every one of several rounds leaves more behind than the one before."),
}
done = sys.argv[1:] or sorted(CHECKS)
props = [json.loads(l)["id"] for l in open(os.path.join(top, "properties.jsonl"))]
assert sorted(props) == sorted(CHECKS), set(props) ^ set(CHECKS)
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [
    {"property": p, "reason": "the check is not finished yet"} for p in props if p not in done],
    "notes": "run.sh ID [quick|thorough] builds the monitors and the client from /repo's working tree and runs one check in an unprivileged user namespace. Replays are written to /verif/replays. No hooks were needed in /repo."}
for p in props:
    if p in done:
        level, tech, note = CHECKS[p]
        m["checks"].append({"property": p, "quick_cmd": f"./run.sh {p} quick", "thorough_cmd": f"./run.sh {p} thorough",
            "technique": tech, "level": level, "level_note": note})
json.dump(m, open(os.path.join(top, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(top, "MANIFEST.json"), "a").write("\n")
