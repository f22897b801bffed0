#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, subprocess
REF = "runtime monitoring against an independent f64 reference model (online oracle over generated workloads)"
TRC = "runtime monitoring: recording layers log the call trace, trace checkers judge it"
HIS = "runtime monitoring: random operation histories compared step by step with a model or a fresh twin"
T = {
 "C01": HIS, "C02": REF, "C03": REF, "C04": REF, "C05": REF, "C06": REF,
 "C07": "runtime monitoring: constructor outcomes compared with an independent admission rule; accepted layers are run",
 "C08": REF, "C09": REF + "; gradients read through the cfg(rn_hooks) accessor", "C10": REF,
 "C11": TRC, "C12": "runtime monitoring: differential runs of both modes over histories", "C13": TRC, "C14": HIS, "C15": HIS, "C16": HIS,
 "C17": "runtime monitoring: save/load round trips compared bit for bit (parameters, results, gradients, bytes)",
 "C18": "runtime monitoring: save/load round trips compared bit for bit",
 "C19": "runtime monitoring with fault injection: every truncation, damaged bytes, crafted files, failing reads; before/after snapshots",
 "C20": "runtime monitoring with fault injection: file size limits at every byte, interposed write/open failures, /dev/full, bad paths",
 "C21": "runtime monitoring: hostile calls with before/after snapshots and panic capture",
 "C22": "runtime monitoring: statistical monitors (moments, Kolmogorov-Smirnov, correlation, repetition) over recorded draws",
 "C23": "runtime monitoring: archived files of the original version plus an independent encoder/decoder as oracle",
 "C24": HIS,
 "C25": "sanitizers: AddressSanitizer, MemorySanitizer and Miri over hostile calls and the other checks' workloads",
 "C26": "runtime monitoring: interleaved and threaded runs compared with solo runs; ThreadSanitizer",
 "C27": "runtime monitoring: whole networks judged by an f64 model of the whole network with propagated error bounds; gradients read through the cfg(rn_hooks) accessor",
 "C28": "runtime monitoring: a counting allocator, the open-file table and directory listings watched over repeated operation sequences",
 "C30": "runtime monitoring: the process around each case (standard streams, environment, directory, files, signals, limits, threads, panic hook, floating-point mode) compared before and after",
 "C29": "runtime monitoring: results compared with wide-integer arithmetic (online oracle over generated and enumerated inputs)",
}
N = {
 "C01": "Bit-exact model over random histories and small-shape enumeration; large shapes sampled.",
 "C02": "Exact on small integers, a-priori rounding bound otherwise; assumes the reference model.",
 "C03": "Exact on small integers, a-priori rounding bound otherwise; assumes the reference model.",
 "C04": "All small geometries enumerated over a sample of values, larger ones sampled; exact on small integers.",
 "C05": "All small geometries enumerated, larger ones sampled; maxima compared bit for bit; NaN excluded.",
 "C06": "Compared with f64 softmax to a rounding bound, all magnitudes of f32 sampled.",
 "C07": "Small geometries enumerated, extremes sampled; accepted layers are run and judged. Sizes that need more memory than a few MB are constructed only where nothing is allocated.",
 "C08": "Reference derivative plus impulses; exact on small integers; geometries enumerated small and sampled large.",
 "C09": "Reference derivative summed over random histories; gradients read through the hook.",
 "C10": "Reference Jacobian per layer kind; max pool delivery solved as an assignment under ties.",
 "C11": "Traces of recording layers in random chains and histories; order, counts and tensors compared exactly.",
 "C12": "Both modes run on the same parameters and inputs over histories.",
 "C13": "Traces of recording layers in random chains, failing layers included; tensors compared bit for bit.",
 "C14": "Histories compared bit for bit with a freshly built twin at every infer.",
 "C15": "Histories compared with a two-state model; all layer kinds; loads through real files.",
 "C16": "Histories of accepted and refused additions compared with a model.",
 "C17": "Bit comparison over random networks, parameters and names; save-load chains.",
 "C18": "Bit comparison over random tensors; previous file contents varied.",
 "C19": "Every truncation point of the sampled files; byte damage and crafted files sampled; read faults at each call.",
 "C20": "Every byte limit of the sampled files; every write call failing, short or interrupted. Power loss and deferred (close/fsync) errors are outside.",
 "C21": "Wrong shapes enumerated per argument and dimension, sampled in combination; both modes.",
 "C22": "Statistical: each test's false alarm probability is about 1e-10; deviations below its resolution stay unseen.",
 "C23": "48 archived files written by the original version; current bytes judged by an independent decoder.",
 "C24": "Random pairs of source and target with histories; all missing-field combinations.",
 "C25": "Absence of reports over the executions observed; Miri sees a sample of small cases. Wrong results are judged by the other checks.",
 "C26": "Observed interleavings and threaded runs only; ThreadSanitizer over the same workload.",
 "C27": "Random chains, classifiers, deep and batched runs; exact where everything is a small integer. Gradients hinging on a tie or on rounding are not judged (counted).",
 "C28": "72 repetitions of random operation sequences; growth slower than once in about 30 repetitions stays unseen.",
 "C30": "A sample of every other check's workload, one case at a time; output is seen where it passes write or writev, lookups where they pass getenv.",
 "C29": "Small windows enumerated, the 32-bit range sampled with bias to its ends.",
}
HERE = os.path.dirname(os.path.abspath(__file__))
hook = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%H", "--grep=^hooks:"], text=True).split()
checks = [{"property": p, "quick_cmd": f"python3 vc.py check {p}", "thorough_cmd": f"VERIF_TIER=thorough python3 vc.py check {p}",
           "technique": T[p], "level": "fault_enumeration" if p in ("C19", "C20") else "exploration", "level_note": N[p]} for p in sorted(T)]
m = {"version": 1, "setup_cmd": "python3 vc.py setup",
     "hooks": {"guard": "cfg(rn_hooks)", "enable": "RUSTFLAGS=\"--cfg rn_hooks\" cargo build of /verif/harness (path dependency on /repo); vc.py does this", "source_commits": hook},
     "checks": checks, "not_applicable": [], "notes": "See DESIGN.md. Exit 3 of a check means no verdict (build failure or too little observed)."}
with open(os.path.join(HERE, "..", "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
