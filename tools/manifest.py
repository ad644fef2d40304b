#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
TRACE = "TLA+ specification checked with TLC; traces recorded from the real code validated against it"
NOTE = "The verdict on each recorded answer is TLC's, in exact rational arithmetic. "
CHECKS = {
    "C01": ("TLA+ meaning of networks (Semantics, Inference, Elimination); recorded query answers validated by TLC",
            "Randomly generated networks (all shapes up to 22 variables) and evidence; exact up to 1e-9 relative."),
    "C02": ("TLA+ meaning of networks (Semantics); recorded answers to (im)possible evidence validated by TLC", "As C01, with zero, tiny and all-zero table rows."),
    "C03": ("TLA+ relation between two descriptions of one network (TraceRelation); recorded pairs validated by TLC", "Also on networks too large to enumerate, since only the relation is checked."),
    "C04": ("TLA+ meaning of policies (Semantics: optimal continuation in each information state); recorded policies validated by TLC",
            "Dyadic networks are judged exactly (ties included), others up to rounding."),
    "C05": ("TLA+ meaning of utilities (Semantics, Inference); recorded utilities validated by TLC", "Random decision networks; exact up to rounding."),
    "C06": ("TLA+ meaning of policies and evidence (Session); recorded sessions validated by TLC", "Random decision networks, solved and unsolved, with and without ignoring policies."),
    "C07": ("TLC-generated call histories (Histories) executed on the code and validated by TLC against Session", "All histories of length 3 (thorough), random longer ones up to 30 calls."),
    "C08": ("TLA+ factor algebra (FactorAlgebra); recorded operation sequences validated by TLC", "Random factors and operation sequences."),
    "C09": ("TLA+ truth tables (Logic); all operators with small parent counts and arguments executed and validated by TLC", "Exhaustive for up to 6 (8) parents; one known finding."),
    "C10": ("TLC-generated interleavings of clients (Registry, model checked) executed on the code, validated by TLC; parallel clients under the race detector",
            "All interleavings of 5 calls of two clients (thorough), longer random ones; parallel runs sample schedules of the Go runtime."),
    "C11": ("TLA+ trainer (Trainer, Session); recorded trainings validated by TLC", "Random networks, samples, several trainers per network."),
    "C12": ("TLA+ data files and training (Command, Trainer); recorded invocations of the built tool validated by TLC", "Generated networks and CSV files (delimiters, quoting, column orders, missing data, single faults); the start of the interactive tool is covered by C16."),
    "C17": ("TLA+ meaning of networks and optimal policies (Display, Command); recorded invocations of the built tool validated by TLC", "Generated networks, evidence and faulty arguments; decision networks are exact in floating point with two options per decision."),
    "C13": ("TLA+ network attributes (Session: SaveOk, DumpOk); recorded round trips, also through an independent reader, validated by TLC", "Unusual strings and floats, networks before and after use."),
    "C14": ("TLA+ network attributes and meaning (Session); networks loaded from generated YAML and XML documents validated by TLC", "Documents written by an independent writer with varied syntax."),
    "C15": ("TLA+ validity of descriptions (Loader); TLC generates descriptions by slips of the pen (Documents), attempts to load and use them are validated by TLC",
            "All single slips from small YAML, XML and in-code descriptions, random sequences of three; damaged documents must be rejected or usable; unsuitable queries are judged by Session. Tables that exceed memory are out of scope."),
    "C16": ("TLA+ state machine and screen of the interactive tool (Tui, model checked; Screen, Display); runs generated by TLC (TuiRuns) are executed on the real program with a scripted screen, and validated by TLC",
            "Built from the working tree with the terminal libraries patched (scripted screen, no queue, no double clicks). All key sequences of length 2 (3) and random runs on random networks; other input only must not crash it. Colors and the course of edges are not judged."),
}
PENDING = {}


def main():
    props = [json.loads(x)["id"] for x in (VERIF / "properties.jsonl").read_text().splitlines() if x.strip()]
    checks = []
    for p in props:
        if p in CHECKS:
            tech, note = CHECKS[p]
            checks.append({"property": p, "quick_cmd": f"python3 check.py {p} quick", "thorough_cmd": f"python3 check.py {p} thorough", "evidence_file": f"evidence/{p}.json",
                           "technique": tech, "level": "model_checking",
                           "level_note": NOTE + note + " Trusted: TLC, the Java overrides for rationals (checked against TLC's integers), the driver that records calls and answers."})
    na = [{"property": p, "reason": PENDING.get(p, "check under construction")} for p in props if p not in CHECKS]
    m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "hooks": {"guard": "none", "enable": "the driver is built into /repo's module with go build -overlay; /repo has no hooks", "source_commits": []},
         "checks": checks, "not_applicable": na, "notes": "Known findings and repaired defects: known-findings.txt. Design: DESIGN.md."}
    (VERIF / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")


main()
