#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
N = {
"C01": "Seeded search over call sequences executed by 2-4 simulated nodes with different memory, clock, pid, entropy, environment and locale, and crashed and restarted at seeded memory accesses; outcomes must be identical.",
"C02": "Seeded search over request sequences on one operation object with injected memory failures; compared with a protocol model and with a fresh object.",
"C03": "Seeded search over interleavings of 2-4 caller threads, switched at instrumented memory accesses (sequential consistency); every outcome compared with the solo outcome.",
"C04": "Seeded search over which allocation fails, once or lastingly, inside calls; the exact answer, none, or an out-of-memory exception, and no stray access. Allocations inside libcrypto do not fail.",
"C05": "Seeded search over truncated and corrupted argument texts placed at block edges of simulated memory with seeded contents; reference recogniser, and every memory access checked.",
"C06": "Seeded search over argument values and spellings in seeded node environments and histories with failed calls; value model, independent reader and printer.",
"C07": "Seeded search over map histories with injected memory failures, dirty and reused memory; compared step by step with std::map.",
"C08": "Seeded search over vector histories with injected memory failures, moving and in-place reallocation; compared step by step with std::vector, element lifetimes on a ledger.",
"C09": "Seeded search over histories of a pool of JSON values with injected memory failures; compared step by step with a value model; every memory access and release checked.",
"C10": "Seeded search over repeated call cycles with rejected, failing and out-of-memory calls; live bytes of the simulated heap must settle, every release is checked.",
"C11": "Seeded search over keys, messages, entropy streams and failures, dirty memory; compared with an independent big-number computation.",
"C12": "Seeded search over inputs, stack contents and alignments, histories and threads; compared with an independent scrypt implementation.",
"C13": "Seeded search over command lines, loader failures and failures of standard output at seeded bytes; exit status compared with the bytes delivered.",
"C15": "Seeded search over byte strings hashed by simulated nodes with different memory, locale and history, also from several threads; every value compared with the formula.",
"C14": "Seeded search over hash table histories with degenerate hash functions and injected memory failures; compared step by step with a map model.",
}
NA = {
"C16": "A build-time artefact: nothing of it runs in a system that could be simulated.",
}
m = {"version": 1, "setup_cmd": "python3 sim/build.py",
 "checks": [{"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
   "evidence_file": "evidence/%s.json" % p,
   "technique": "deterministic simulation with fault injection: seeded search over schedules, environments and faults",
   "level": "exploration", "level_note": n} for p, n in sorted(N.items())],
 "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()],
 "notes": "No hooks in /repo: the seams are the instrumentation callbacks and the libc functions, replaced at link time."}
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
