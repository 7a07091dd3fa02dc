#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CONC = "stateful property-based testing of concurrent programs under a controlled scheduler (generated and enumerated schedules), linearizability oracle"
T = {
 "P01": ("model-based stateful property testing", "Histories of requests against a map model; random."),
 "P02": (CONC, "Interleavings at std::sync operations, sequentially consistent; the library is compiled from /repo/src against a crate standing for std. Two-preemption schedules of fixed two-thread programs are covered exhaustively, the rest by sampling."),
 "P03": ("exhaustive small-scope and random property testing against a reference tokenizer", "All texts up to 6 characters over 8 character classes, larger ones sampled."),
 "P04": ("round-trip property testing", "Sampled strings, including derived ones."),
 "P05": ("property testing with a generator of well-formed and corrupted rules against a reference reading", "Sampled."),
 "P06": ("fuzzing with exhaustive small scopes, grammar-based and mutated inputs; crash and error oracle", "No panic, hang or abort on anything explored."),
 "P07": ("exhaustive small-scope and random property testing against a reference matcher", "All heads with contexts up to 2 symbols on strings up to 4 over two symbols."),
 "P08": ("exhaustive small-scope and random property testing against a reference rewriting", "All pairs of small rules on small strings; larger ones sampled."),
 "P09": ("metamorphic and model-based property testing (composition of derivations, reference rewriting)", "Sampled."),
 "P10": ("statistical property testing with exact tail bounds against the declared distribution", "A violation is reported only when its probability under the property is below e^-34; the library's randomness cannot be seeded."),
 "P11": ("property testing of chance arithmetic against exact rational sums", "Sampled; sums within 1..1.01 are left open."),
 "P12": ("model-based stateful property testing", "Histories of rule and symbol additions on one or several systems against a list model."),
 "P13": (CONC, "Interleavings at std::sync operations, sequentially consistent; sampled and two-preemption schedules. The oracle searches all sequential orders against a model."),
 "P14": ("model-based stateful property testing", "Histories on the family registry against a map model."),
 "P15": (CONC, "Interleavings at std::sync operations, sequentially consistent; sampled and two-preemption schedules, including first use in a fresh process."),
 "P16": ("exhaustive small-scope and random property testing against a reference turtle", "All command strings up to 6; longer ones sampled; tolerance (1e-9 + 2e-12 per step) of the distance."),
 "P17": ("exhaustive small-scope and random property testing of malformed command strings and stores", "All strings up to 4 commands with every store."),
 "P18": ("property testing of parsed SVG output against a reference fit (invariants and metamorphic scaling)", "Sampled drawings; own XML reader."),
 "P19": ("property testing with an independent XML reader as oracle", "Sampled drawings and attributes."),
 "P20": ("property testing against reference bounds", "Sampled."),
 "P21": ("property testing of algebraic identities against reference arithmetic", "Sampled."),
 "P22": ("grammar-based property testing with layout and fault mutations against a reference reading", "Sampled plant descriptions."),
 "P23": ("end-to-end differential property testing of the command line tool", "Sampled; the tool's output against the library's and a reference."),
 "P24": ("fault-injection property testing and fuzzing of the command line tool", "Sampled faults in arguments, files and output places; runs as an unprivileged user in scratch directories."),
 "P25": ("model-based stateful property testing of rule stores (differential between implementations)", "Sampled."),
 "P26": ("fault-injection property testing of saving, with a directory snapshot oracle", "Sampled; scratch directories."),
 "P28": ("exhaustive small-scope and random property testing of an equivalence (with hashes) against a reference; model-based histories of extension", "All pairs of heads with contexts up to 2 symbols over two symbols; larger ones sampled."),
 "P29": ("differential and model-based property testing with user-defined interpretations", "Sampled."),
 "P30": ("property testing of error construction and conversion", "Sampled."),
 "P31": ("model-based stateful and metamorphic property testing of histories of related calls, on one and several threads", "Histories sampled; thread interleavings are the machine's."),
 "P32": ("model-based stateful property testing with generated call-backs and injected panics", "Histories sampled; conversions nested up to three deep."),
 "P27": ("model-based property testing of containers", "Sampled."),
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
GUIDED = "P03 P04 P05 P06 P07 P08 P09 P11 P12 P14 P16 P17 P18 P19 P20 P21 P22 P25 P27 P28 P29 P30".split()
checks = []
for p in props:
    t, note = T[p["id"]]
    if p["id"] in GUIDED:
        t += "; then coverage-guided mutation of the generated cases"
    checks.append({
        "property": p["id"],
        "quick_cmd": f"./run.sh {p['id']} quick",
        "thorough_cmd": f"./run.sh {p['id']} thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": t,
        "level": "exploration",
        "level_note": note,
    })
m = {"version": 1, "setup_cmd": "./build.sh", "checks": checks, "not_applicable": [],
     "notes": "No hooks are needed in /repo. Every check builds from /repo's working tree. Replay a violation with: target/release/vh replay FILE (sched for P02, P13, P15)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
