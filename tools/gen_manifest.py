#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BOUNDED = "Every execution inside the stated bounds is run on the real code (compiled from /repo's working tree) and judged by an independent reference; nothing is claimed beyond the bounds. "
T = "bounded exhaustive explicit-state exploration of the real code against a reference model"
C = {
 "C01": (T, "model_checking", "All images of small area over a small palette, all shapes up to a bound under several patterns, run lengths / value transitions / colour counts / formats enumerated completely. Images with arbitrary large content are covered only by the enumerated patterns."),
 "C02": (T, "model_checking", "The image space of C01 (smaller) times every codec with a grid of parameters, non-finite distances and more clusters than colours included."),
 "C03": (T, "model_checking", "All strings up to a length over small alphabets in lock-step with a reference dictionary; the same code recompiled with a 9-bit-like code space (hook cniic_verif_small) so that exhaustion is reached by all short strings; long strings that exhaust the 65535 real codes."),
 "C04": (T, "model_checking", "All strings up to a length over small alphabets, decoded by a reference decoder that checks every token; the same code recompiled with a tiny window (hook cniic_verif_small); period / window edges on the real window."),
 "C05": (T, "model_checking", "All short sequences and all small frequency vectors under three hash orders; lengths compared with an independent optimum (package of merges), tree and code words decoded by an independent decoder."),
 "C06": (T, "model_checking", "All operation sequences (bit, byte, bit array, padding) up to a depth for both bit orders, against the list of bits they denote; every byte and position for packing and indexing."),
 "C07": (T, "model_checking", "All values of 8 and 16-bit types, edges of the wider ones, all short sequences; every truncation of every encoding."),
 "C08": (T, "model_checking", "Every width and height up to a bound, thin and power-of-two neighbours beyond."),
 "C09": (T, "model_checking", "All colour sequences up to a length, run lengths around the limit; records compared with the canonical runs."),
 "C10": (T, "model_checking", "All colour sequences up to a length times a grid of distances; membership judged in exact integer arithmetic (decisions closer to the distance than rounding allows are not judged)."),
 "C11": ("exhaustive enumeration of the random choices and inputs of the real clustering code under a controlled generator", "model_checking", "All small point multisets, all cluster counts, and all outcomes of the random choices with up to a bounded number of deviations from a fair rotation."),
 "C12": (T, "model_checking", "The image space of C02 times the cluster counts; grouping recovered from the decoded image and judged exactly. Hash orders: one per case (deterministic)."),
 "C13": (T, "model_checking", "The image space of C02 times the cluster counts; the stream is parsed independently."),
 "C14": (T, "model_checking", "All strings up to a length over the grammar's alphabet, compared with a reference parser; all small pattern/text pairs."),
 "C15": (T, "model_checking", "All one-character edits (thorough: two-character edits) of every documented spelling, all combinations of the pieces, a grid of numbers; compared with a reference recogniser."),
 "C16": (T, "model_checking", "All lists of up to 4 (thorough 5) files over 13 behaviours of a scripted codec; names, sizes, error values enumerated. Thread timing is whatever the machine does here; C17 explores it."),
 "C17": ("stateless model checking of the real benchmark code under a controlled scheduler (preemption-bounded exhaustive search)", "model_checking", "Every interleaving up to the preemption bound of the real measure_all; rayon is replaced by a controlled stand-in (one to as many workers as items); std's synchronisation and the file operations are scheduling points (sequential consistency)."),
 "C18": ("exhaustive fault injection at every write position", "fault_enumeration", "Every byte position of every stream of the image table, for failing, failing-once, full, short and interrupted sinks."),
 "C19": ("exhaustive enumeration of truncation points", "fault_enumeration", "Every strict prefix of every stream of the image table (large streams: a subset of the prefixes)."),
 "C20": (T, "model_checking", "The program run as a process on every listed argument list and directory state; Hilbert dumps for every shape up to a bound."),
 "C21": ("exhaustive enumeration of operation histories, and of the interleavings of pairs of operations, on the real code", "model_checking", "All histories of three operations (successful, failing, truncated, abandoned) over nine codecs, each prefix in a process of its own; longer histories of selected form; all pairs of operations on two threads under every interleaving up to the preemption bound, at every access to sink, source and synchronisation."),
}
CLAIMED = [l.strip() for l in open(os.path.join(ROOT, "tools/claimed.txt")) if l.strip()]
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
hooks = [l.split()[0] for l in log if l.split(" ", 1)[1].startswith("verif hook")]
m = {
 "version": 1,
 "setup_cmd": "./setup.sh",
 "hooks": {"guard": "cfg(cniic_verif), cfg(cniic_verif_small)", "enable": "the build scripts of shim/, shim_small/ and shim_ctl/ pass --cfg cniic_verif (and cniic_verif_small) for their compilation of /repo's src/main.rs as a library", "source_commits": hooks},
 "checks": [{"property": p, "quick_cmd": f"./check.sh {p} --tier quick", "thorough_cmd": f"./check.sh {p} --tier thorough", "technique": C[p][0], "level": C[p][1], "level_note": (BOUNDED if C[p][1] == "model_checking" else "") + C[p][2]} for p in props if p in CLAIMED],
 "not_applicable": [{"property": p, "reason": "the check is still being built"} for p in props if p not in CLAIMED],
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
