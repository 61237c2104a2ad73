#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the notes below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl") if l.strip()]
G = "exhaustive bounded enumeration of grammar derivations, each executed on the real formatter; "
TECH = {
    "C01": G + "token streams of source and output compared",
    "C02": G + "parse trees of source and output compared",
    "C03": G + "times every gap between tokens and every kind of comment; comment sequences and token streams compared",
    "C04": G + "times widths and comments at boundaries; fixed-point check",
    "C05": "exhaustive enumeration of single-token edits of all derived programs (library) and of unreadable files x modes (binary); refusal and file content checked",
    "C06": G + "times keyword case, widths, comments at boundaries; acceptance checked",
    "C07": G + "at every width from 1 to the unbroken one; monotonicity and overflow rules on the sequence of layouts",
    "C08": G + "times indentation sizes; scaling and structural depth of every line",
    "C09": G + "times all uniform and single-gap separators; outputs compared",
    "C10": G + "times 0..3 blank lines at every body gap; blank lines of the output compared with a reference rule",
    "C11": "explicit enumeration of all command histories up to a depth on the real binary against a reference model of the file",
    "C12": "stateless exploration of all completion orders of the per-file workers of the real library (sources are pipes fed by the explorer), all batches up to a bound",
    "C13": "exhaustive crash-point and fault enumeration on the real binary under ptrace (every system call), with recovery runs",
    "C14": "exhaustive enumeration of configuration files x command modes on the real binary against a reference model",
    "C15": "exhaustive enumeration of literal and name spellings up to a length x positions, on the real formatter",
    "C16": G + "times every boundary gap and kind of comment; neighbours and line of each comment compared",
    "C17": G + "times widths and comments; text predicate on every output",
    "C18": "stateless exploration: all call histories up to a depth on one thread, and all schedules of two threads with one preemption (at every allocation) plus a grid with two, on the real library",
    "C19": "exhaustive enumeration of compositions of recursive constructs up to a depth on the real formatter; work counted",
    "C20": G + "query productions with a deeper bound; token streams and parse trees compared",
    "C21": G + "times comments and blank lines at every body boundary; blank lines compared with a reference rule",
    "C22": G + "in every keyword case, together and one keyword at a time; outputs compared",
    "C23": "exhaustive enumeration of derived statements and members x neighbours x depths on the real formatter; each compared with its layout alone",
    "C25": "exhaustive enumeration of the repeatable constructs at doubling lengths, executed on the real code; allocations, bytes and processor time of every execution compared",
    "C24": "stateless exploration of all schedules of two runs of the real binary under ptrace, up to a number of switches at their file operations, also with a kill; files read after every operation",
}
NOTE = {
    "C25": "Allocations and bytes are exact; the limit on processor time leaves a factor of six and 0.4 s to the machine and counts only if three runs exceed it.",
    "C24": "The explorer owns the switches between the processes: one file operation at a time. Trusted: system calls are atomic towards each other.",
    "C12": "Every completion order is forced by feeding named pipes. Trusted: a worker ends shortly after its pipe is closed (waited for).",
    "C13": "Every system call of the run is a crash point or a failing call. Trusted: the kernel's view of the file after a kill (no power failure model).",
    "C18": "The explorer owns the switches between the threads; a switch is possible at allocations only. Trusted: code between two allocations is one step.",
}
DEFAULT = "Every program of the stated bounded space is formatted by the code in /repo's working tree and the property is evaluated on each; nothing is sampled. Trusted: the tree-sitter grammar, which decides what a valid program is and how it splits into tokens."
NA = {}
checks = [
    {
        "property": p["id"],
        "quick_cmd": f"./check.sh {p['id']} quick",
        "thorough_cmd": f"./check.sh {p['id']} thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": TECH[p["id"]],
        "level": "model_checking",
        "level_note": NOTE.get(p["id"], DEFAULT),
    }
    for p in props
    if p["id"] in TECH
]
na = [{"property": p["id"], "reason": NA[p["id"]]} for p in props if p["id"] not in TECH]
m = {
    "version": 1,
    "setup_cmd": ". /opt/vp/env.sh && cd mc && cargo build --release --offline -q && cargo build --release --offline --locked -q --manifest-path /repo/Cargo.toml --target-dir target/cli --bin afmt",
    "checks": checks,
    "not_applicable": na,
    "notes": "Design, bounds and findings: DESIGN.md. A violation is replayed with: mc/target/release/afmt-mc replay <file>. /repo carries fix commits only: no hooks.",
}
open(f"{V}/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
