#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCHED = "deterministic simulation: seeded scheduling of real threads, fault injection, "
T = {
    "C01": SCHED + "reference model and linearizability of histories",
    "C02": SCHED + "linearizability of histories against a map model",
    "C03": SCHED + "reference model of overlay reads",
    "C04": SCHED + "reference model of nested transactions",
    "C05": SCHED + "deadlock/progress detection and usability probes",
    "C06": SCHED + "reference model of trigger runs",
    "C07": SCHED + "reference model with failing triggers",
    "C08": SCHED + "reference model of saved targets",
    "C09": SCHED + "reference model of deletions",
    "C10": SCHED + "history oracle for resource access",
    "C11": SCHED + "history oracle over a faulty repository",
    "C12": SCHED + "history oracle over a changing source",
    "C17": SCHED + "map model of the graph",
    "C18": SCHED + "panics in call-backs, scan oracle over the operations' history",
    "C21": SCHED + "linearizability of the changes and lookups within one transaction",
    "C13": "deterministic simulation: in-memory file system with I/O faults and concurrent change, content oracle",
    "C14": "deterministic simulation: in-memory file system with directory faults and reordering, set oracle",
    "C15": "deterministic simulation: real binary on a simulated file system and terminal with faults, exit-status oracle",
    "C16": "deterministic simulation: real binary on a simulated file system, kills at every operation, durability oracle",
}
NOTE = "Seeded search over sampled programs, schedules and faults: a clean run is evidence, not proof. Trusts the harness' reference model and the simulator; memory is sequentially consistent."
NOTEFS = "Seeded search over sampled trees, file contents, faults and interleavings on a simulated file system: a clean run is evidence, not proof. Trusts the simulated libc calls to behave as Linux does."
NA = {
    "C19": "Comparison of two values: a pure function with nothing nondeterministic to simulate. Dates cannot even be constructed outside their module (private fields, no constructor), so nothing in this repository depends on it.",
    "C20": "What installs the index into a schema (plugins/interval/src/plugin.rs) is written against plotline::property::Extractor, which does not exist at this commit; it compiles neither as a workspace member nor alone, so there is no system to run under the simulator.",
}
claimed = [p for p in T if p in open(os.path.join(here, "tools/claimed")).read().split()]
checks = []
for p in claimed:
    checks.append({
        "property": p,
        "quick_cmd": f"sh ./check.sh {p}",
        "thorough_cmd": f"VERIF_TIER=thorough sh ./check.sh {p}",
        "evidence_file": f"evidence/{p}.json",
        "technique": T[p],
        "level": "exploration",
        "level_note": NOTEFS if "C13" <= p <= "C16" else NOTE,
    })
na = [{"property": p, "reason": r} for p, r in NA.items()]
for p in T:
    if p not in claimed:
        na.append({"property": p, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "sh ./build.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the simulator interposes on libc symbols and compiles the unmodified sources with SanitizerCoverage call-backs."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
