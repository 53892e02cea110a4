#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run by hand after adding a check)."""
import json, sys, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
LEVEL = {}
CHECKS = {
 "C01": ("offline linearizability checker over recorded per-key histories + TTL-register model in virtual time", "exploration"),
 "C02": ("online/offline trace oracle: exact delivery lists at fences, interval oracle under subscription churn with injected preemption", "exploration"),
 "C03": ("model-based monitor of retained snapshots in virtual time + gap-free sequence monitor under injected preemption", "exploration"),
 "C04": ("crash injection at every file operation, offline prefix/consistent-cut checker over recorded histories", "fault_enumeration"),
 "C05": ("fault injection on connections, monitors over registrations, redelivery and blocked requests", "exploration"),
 "C06": ("differential model monitor + inversion bad-pattern checker over concurrent histories", "exploration"),
 "C07": ("offline conservation / exactly-once checker over concurrent histories under a frozen clock", "exploration"),
 "C08": ("differential model monitor in virtual time + exactly-one-winner checker", "exploration"),
 "C09": ("crash injection at every file operation, offline prefix/consistent-cut checker over recorded histories", "fault_enumeration"),
 "C10": ("lost-wakeup and deadline monitors over blocked long polls in virtual time with injected preemption", "exploration"),
 "C11": ("offline log checker (positions, contiguity, content) over concurrent publish/read histories, tiny segments and caches", "exploration"),
 "C12": ("differential model monitor + offline delivery/ownership checker over concurrent group histories", "exploration"),
 "C13": ("differential model monitor of floors, fencing and seek + concurrent invariant checker", "exploration"),
 "C14": ("crash injection at every file operation incl. torn writes, offline prefix checker over recorded histories", "fault_enumeration"),
 "C15": ("online monitor of the retained range and content during retention, publishing, reading and restarts", "exploration"),
 "C16": ("protocol monitor (one response per request) under fuzzed byte streams, liveness probes and panic detection", "exploration"),
 "C17": ("storage footprint monitor (canary files, directory diff) and name model under hostile names and restarts", "exploration"),
 "C18": ("offline per-name history checker over concurrent create/delete/use with restarts and crashes", "exploration"),
 "C19": ("shadow-model comparison of HTTP answers after random histories; before/after non-interference monitor", "exploration"),
 "C22": ("shadow-model monitor under injected file errors and descriptor exhaustion; listings compared across kill and restart", "fault_enumeration"),
 "C23": ("resource monitor over long repetitions: live heap, descriptors, files and bytes sampled in quiescence, growth test over consecutive windows", "exploration"),
 "C21": ("offline bookkeeping monitor: callback histories of SDK consumers against the server's own counts, through connection-cutting proxies", "exploration"),
 "C20": ("round-trip and routing monitors around the bundled SDK against the real server and fault-injecting mock servers", "exploration"),
}
NOTE = {
 "default": "Every oracle decision is about the real server binary built from /repo's current tree, driven over TCP and HTTP under libchaos (virtual clock, random preemption, crash points). Assurance is limited to the executions observed; counts are in the evidence file. Trusted: the harness and its models, the kernel, the toolchain.",
}
done = sys.argv[1:] or sorted(k for k in CHECKS if os.path.exists("mon/src/checks") and k in open("mon/src/checks/mod.rs").read() or k in ("C20", "C21") and os.path.exists("sdk/run.mjs"))
props = [json.loads(l)["id"] for l in open("properties.jsonl")]
m = {
 "version": 1,
 "setup_cmd": "bash setup.sh",
 "hooks": {"guard": "none", "enable": "No hooks in /repo: the server binary is monitored unmodified, instrumented from outside by LD_PRELOAD (chaos/chaos.c).", "source_commits": []},
 "checks": [],
 "not_applicable": [],
 "notes": "check.sh copies the build inputs of /repo to target/src, rebuilds the server and the monitors, and runs one property's scenarios. See DESIGN.md.",
}
for p in props:
    if p in done:
        t, l = CHECKS[p]
        m["checks"].append({"property": p, "quick_cmd": "bash check.sh " + p, "thorough_cmd": "bash check.sh " + p, "evidence_file": "evidence/%s.json" % p, "technique": t, "level": l, "level_note": NOTE.get(p, NOTE["default"])})
    else:
        m["not_applicable"].append({"property": p, "reason": "check under construction"})
json.dump(m, open("MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks")
