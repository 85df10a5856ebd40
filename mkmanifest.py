#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, pathlib
V = pathlib.Path(__file__).resolve().parent
TECH = {
    "C01": "model-based property testing against an ordered-map model, with shrinking",
    "C02": "model-based property testing with close/reopen at random points",
    "C03": "property testing with file copies at flush points and crash images of what was fsync'ed (interposed system calls)",
    "C04": "model-based property testing of all iteration forms",
    "C05": "property testing of a tree invariant by an independent reader; malformed trees generated for the self-checks",
    "C06": "metamorphic property testing over hash table sizes and contents",
    "C07": "model-based property testing of bulk calls",
    "C08": "property testing over generated buffer parameters against a model",
    "C09": "model-based property testing over several maps and handles",
    "C10": "property testing of refused opens with byte comparison of the files",
    "C11": "property testing of a file invariant by an independent format decoder",
    "C12": "metamorphic property testing: repeated cycles against a space bound",
    "C13": "differential property testing: memory against file database",
    "C14": "metamorphic property testing: files before and after reading",
    "C15": "differential property testing: statistics against model and independent decoder",
    "C16": "property testing with injected failures of read, write, truncate and fsync calls",
    "C17": "generated histories under AddressSanitizer and unsafe-precondition checks",
    "C18": "property testing of conversions, order and hash",
    "C19": "model-based property testing of eleven other feature combinations of the library",
    "C20": "round-trip property testing with an independent encoder and decoder of the format",
    "C21": "model-based property testing on sparse files beyond 4 GiB",
    "C22": "property testing of opening with obstacles and with a fault at every system call",
    "C23": "property testing of put and delete with a fault at every system call on key, value and hash table file",
}
EXTRA = {
    "C03": " The crash model keeps exactly what was written before the last fsync of each file; directory entries are taken to survive.",
    "C16": " Every system call of the operation fails in turn, each in a forked copy (at most 90 points per operation).",
    "C23": " Every system call of the operation fails in turn, each in a forked copy (at most 90 points per operation).",
    "C17": " Only what AddressSanitizer and the unsafe-precondition checks report counts; reads of uninitialised memory are not seen.",
    "C19": " Eleven combinations are built; one that does not compile is left out of the run.",
    "C21": " Holes are made by sparse pieces on free lists; the data itself stays small.",
}
checks = []
for l in (V / "properties.jsonl").read_text().splitlines():
    p = json.loads(l)
    i = p["id"]
    checks.append({
        "property": i,
        "quick_cmd": "python3 run.py " + i,
        "thorough_cmd": "python3 run.py " + i + " --tier thorough",
        "evidence_file": "evidence/%s.json" % i,
        "technique": TECH[i],
        "level": "exploration",
        "level_note": "Held on every generated case of the run (counts in the evidence file); no proof. "
                      "Trusts the model, the independent file decoder and the kernel's file system." + EXTRA.get(i, ""),
    })
m = {
    "version": 1,
    "setup_cmd": "python3 run.py --build",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks in /repo. Fixed defects: known-findings.txt.",
}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
