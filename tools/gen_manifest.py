#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json

PBT = "property-based testing: generated cases, explicit oracle, shrinking to a minimal replay"
NOTES = {
    "C01": ("write/read round trip", "generated catalogs and wrap widths; the oracle is the generated value itself"),
    "C02": ("grammar-based document generation", "documents printed in random layouts by an independent printer that knows their content"),
    "C03": ("metamorphic: write, read, write", "documents in random layouts with random edits"),
    "C04": ("fuzzing with structure-aware mutation", "random text, bytes, edits, cuts, bad UTF-8, and documents around them; memory counted by the allocator"),
    "C05": ("fault injection into documents", "faults of known kind put at a known line and column of a well-formed document"),
    "C06": ("differential against an own reference", "strings dense in escapes, against an independent escape/unescape"),
    "C07": ("invariant oracle on wrapped strings", "strings, fields and widths; every line break is justified or refuted"),
    "C08": ("invariant oracle on wrapped comments", "comments and occurrences of any length at any width, and reading back"),
    "C09": ("own renderer of the frame of a file", "catalogs and widths; text recomposed from its parts, order and markers checked"),
    "C10": ("write/read round trip", "generated MO catalogs in both byte orders and revisions"),
    "C11": ("own strict MO reader", "every written file is checked by an independent reader and binary search"),
    "C12": ("own MO builder", "MO files in random layouts built from known messages"),
    "C13": ("fault injection and fuzzing of MO bytes", "every kind of damage at generated places, random bytes, memory counted by the allocator"),
    "C14": ("model-based", "generated PO catalogs compiled and compared with a model of what must be compiled"),
    "C15": ("conversion round trip", "generated MO catalogs through PO text and back"),
    "C16": ("model-based", "generated catalogs, classification recomputed from the fields"),
    "C17": ("model-based", "catalogs over a tiny alphabet, every lookup recomputed by linear search"),
    "C18": ("stateful model-based", "random edit histories on a catalog and a plain list side by side"),
    "C19": ("model-based", "generated pairs of catalogs, merge recomputed"),
    "C20": ("algebraic laws and reference ordering", "triples of messages over a tiny alphabet and every subset of the criteria"),
    "C21": ("model-based", "generated messages converted, merged and keyed, field by field"),
    "C22": ("differential between input forms", "the same content as text, bytes, path and options; files saved in a scratch directory"),
    "C23": ("metamorphic: different histories", "equal catalogs reached along different histories give equal text and bytes"),
    "C24": ("grammar-based document generation", "documents with a metadata block anywhere, and MO files with the same block"),
    "C25": ("grammar-based document generation", "documents in random layouts by a printer that knows every line's number"),
    "C33": ("model-based", "messages, catalogs and options made in every way from generated values, every field compared"),
    "C34": ("metamorphic: pieces in any order", "pieces of documents, also oddly edited ones, read alone and put together in any order"),
    "C35": ("metamorphic: other texts with the same first lines", "rejected texts continued differently and cut before the error, accepted texts cut anywhere"),
    "C36": ("fault injection", "MO images, strings and documents with one known fault; the error's fields and text must tell it"),
    "C37": ("metamorphic: other calls before and beside", "lists of calls made in order, repeated in another order and in several threads; each must give what it gave first"),
    "C39": ("model-based", "sequences of lines at random or along the grammar against a reference automaton that builds the messages"),
    "C32": ("metamorphic: the same part more often", "documents with one part repeated n and 16 n times; memory asked for in all counted by the allocator"),
    "C31": ("fuzzing of values", "arbitrary strings in every field, any width; text and bytes must be produced"),
}
PYNOTES = {
    "C26": ("differential against polib", "generated catalogs written by one library and read by the other"),
    "C27": ("differential against gettext and polib", "generated MO files looked up by Python's gettext and read by polib, and polib's read here"),
    "C28": ("stateful model-based", "random programs over the Python PO classes against a plain Python model"),
    "C29": ("stateful model-based", "random programs over the Python MO classes against a plain Python model"),
    "C30": ("fuzzing and fault injection from Python", "malformed input of every kind must raise the documented exception; escapes against a reference"),
    "C38": ("fault injection while saving", "generated catalogs saved under limits on file size and open files and to impossible paths; success means the whole content is there"),
}
import os
import subprocess

here = "/verif"
done = set(subprocess.run([here + "/target/debug/vh", "list"], capture_output=True, text=True).stdout.split())
if os.path.exists(here + "/pyharness/run.py"):
    done |= set(subprocess.run(["python3-vt", here + "/pyharness/run.py", "--list"], capture_output=True, text=True).stdout.split())
checks = []
for pid, (tech, note) in sorted({**NOTES, **PYNOTES}.items()):
    if pid not in done:
        continue
    checks.append({
        "property": pid,
        "quick_cmd": f"bin/check {pid}",
        "thorough_cmd": f"bin/check {pid}",
        "evidence_file": f"evidence/{pid}.json",
        "technique": f"PBT, {tech}",
        "level": "exploration",
        "level_note": f"{note}; fixed number of cases, seeded by VERIF_SEED.",
    })
json.dump({
    "version": 1,
    "setup_cmd": "bin/setup",
    "checks": checks,
    "not_applicable": [],
    "notes": "One Rust harness (harness/) and one Python harness (pyharness/), both built and run by bin/check from /repo's working tree. "
    "Replay a failure with 'target/debug/vh replay evidence/replay-ID.json' (or 'python3-vt pyharness/run.py --replay FILE' with PYTHONPATH=target/py/lib). "
    "No hooks: /repo only has fixes. Known findings and fixed defects are in KNOWN_FINDINGS.md.",
}, open(here + "/MANIFEST.json", "w"), indent=1)
print(len(checks))
