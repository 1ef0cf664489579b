#!/usr/bin/env python3
import json, subprocess, sys
claimed = sys.argv[1].split(',')
NA = {
 "C17": "a pure total function of one number and a compiled-in table: no I/O, time, scheduling or fault can influence it, so there is nothing for a simulator to decide; and the WMO tables it is generated from are not present offline",
 "C18": "pure floating-point mathematics without any I/O, scheduling or fault dependence; the projection feature also needs the PROJ library, which is not installed",
 "C19": "pure conversions on a 256-entry domain without any I/O, scheduling or fault dependence; exhaustive unit tests, not simulation, would decide it",
}
NOTES = {
 "C01": "seeded search over files of every supported grid and product class x delivery schedules; every accessor and description line against the encoder's model",
 "C02": "seeded search over packings x bitmaps x sizes x parameters x delivery schedules; every value against the encoder's model",
 "C03": "cuts at every position of small files and sampled ones of large files, damaged lengths, numbers and blocks; the listing audited against the bytes",
 "C04": "every read and seek is a possible fault position (sampled; all of them for small files)",
 "C05": "seeded operation histories on one handle with faults armed and repaired; each answer against the model",
 "C06": "seeded iterator programs against a cursor over a list",
 "C07": "seeded interleavings of partial consumption; values, indices and coordinates against models",
 "C08": "seeded damage under memory, call and CPU budgets; everything public is called",
 "C09": "seeded sequences of sections and upstream errors against an independent automaton",
 "C10": "the real gribber binary under interposed system calls; the file on disk whenever it reports success",
 "C11": "the real gribber binary under interposed system calls; the text printed whenever it reports success, to a pipe, a file or, through a simulated pager or none, a terminal",
 "C12": "the real gribber binary on damaged input and failing system calls; exit status, signals, panics, call budget",
 "C13": "load histories with damaged files and failing reads against an own reading of the tables; the build script as a process",
 "C14": "the real macro in the real compiler under interposed system calls and seeded hash seeds; fewer runs, each compiles a crate",
 "C15": "damage confined to one submessage; all others against the model",
 "C16": "writer crashes at seeded octets with torn or zeroed blocks; streams over what is there, then over the completed file",
 "C20": "seeded interleavings of handles over one shared position",
 "C21": "seeded thread schedules under a baton: one thread runs at a time, switched at calls on a source, between values, at allocations, contended locks and edges of the control flow of crate grib and of its generic code as instantiated for the simulated source (not of C code); sequentially consistent memory only",
 "C22": "seeded interleavings of an appending writer and readers",
 "C23": "sparse sources up to 2^50 octets; cuts and faults",
 "C25": "seeded files in two sizes under the same delivery; calls, octets, memory and steps counted and compared with each other and with what the file has; a step is an edge of the control flow of crate grib or of generic code of it instantiated for the simulated source",
 "C24": "three equal passes under damage and faults; memory held by the thread compared between them",
}
checks = []
for c in claimed:
    checks.append({
        "property": c,
        "quick_cmd": f"bash run.sh {c} quick",
        "thorough_cmd": f"bash run.sh {c} thorough",
        "evidence_file": f"evidence/{c}.json",
        "technique": "deterministic simulation with fault injection (seeded search, replayable scenarios)",
        "level": "exploration",
        "level_note": NOTES[c],
    })
na = [{"property": k, "reason": v} for k, v in NA.items()]
titles = [json.loads(l)["id"] for l in open('/verif/properties.jsonl')]
for t in titles:
    if t not in claimed and t not in NA:
        na.append({"property": t, "reason": "not yet claimed: its check is still being built"})
man = {
    "version": 1,
    "setup_cmd": "bash run.sh setup",
    "hooks": {
        "guard": "rustc cfg `grib_sim` (off by default)",
        "enable": "RUSTFLAGS=\"--cfg grib_sim\" and GRIB_SIM_DEF_DIR=/verif/standin/def (set by run.sh)",
        "source_commits": ["f4a37f64279cdb1b53b78905cd941c39bda4ba49"],
    },
    "checks": checks,
    "not_applicable": na,
}
json.dump(man, open('/verif/MANIFEST.json', 'w'), indent=1)
