#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODEL = "structured generation (Hypothesis) against an independent reference model, with shrinking"
TECH = {
    "C13": "generated and exhaustive colour strings against a reference conversion, with shrinking",
    "C14": "differential: generated projects written as TMX and as JSON, with shrinking",
    "C15": "metamorphic: generated subsets of optional attributes left out or stated, with shrinking",
    "C16": "metamorphic: generated file layouts and unknown content, with shrinking",
    "C17": "metamorphic renaming and fuzzing with bytes of neither format, with shrinking",
    "C18": "fault injection: generated and (thorough) exhaustive cuts and bit flips of every file read, with shrinking",
    "C20": "model-based histories of parses, edits, failures and mutations, with shrinking",
    "C21": "metamorphic relocation against a reference model, with shrinking",
    "C22": "structured generation under several host encodings against a reference model, with shrinking",
    "C23": "structured generation against an independent table of documented types, with shrinking",
    "C26": "generated thread schedules under a cooperative scheduler against a reference model, with shrinking",
    "C27": "structured generation of unsupported content with an outcome oracle, with shrinking",
    "C28": "structured generation and fault injection with an effect monitor, with shrinking",
    "C29": "structured generation with planted lures, an audit-hook effect monitor and a metamorphic relation, with shrinking",
    "C30": "structured generation under several interpreter settings against a reference model, with shrinking",
    "C31": "metamorphic value semantics over generated documents and single-value changes, with shrinking",
    "C32": "metamorphic scaling of generated documents with step counting and processor time, with shrinking",
    "C34": "generated bulk documents against values computed from element numbers, with shrinking",
    "C35": "reconstruction of generated parsed models by constructors against a restated table of defaults, with shrinking",
    "C36": "generated histories of parses with an invariant on live objects and memory, with shrinking",
    "C37": "generated fault injection (files, opens, exceptions at any line) with an outcome oracle, with shrinking",
    "C38": "metamorphic relation on generated files (edit of one part changes that part of the model only), with shrinking",
    "C33": "fuzzing by structured and byte mutation with an outcome oracle, with shrinking",
}
NOTE = (
    "Random search over structured inputs, not a proof: quick runs thousands of distinct non-trivial cases, thorough tens to "
    "hundreds of thousands. Trusts the harness's own writers, reference model and CPython's standard library."
)


def main():
    ids = [json.loads(line)["id"] for line in open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8")]
    checks = []
    for pid in ids:
        checks.append({
            "property": pid,
            "quick_cmd": f"/opt/venv/bin/python run.py {pid} --tier quick",
            "thorough_cmd": f"/opt/venv/bin/python run.py {pid} --tier thorough",
            "evidence_file": f"evidence/{pid}.json",
            "technique": "property-based testing: " + TECH.get(pid, MODEL),
            "level": "exploration",
            "level_note": NOTE,
        })
    manifest = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -c 'import sys; sys.exit(0)'",
        "checks": checks,
        "not_applicable": [],
        "notes": "No hooks in /repo. Replay a violation with: /opt/venv/bin/python run.py --replay replay/<file>.json",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")


main()
