#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table of implemented checks."""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8")]
src = open(os.path.join(HERE, "run.py")).read()
have = re.findall(r'"(C\d\d)": \(', src)
T = {
 "C01": ("TLA+ spec of the bundle store (TLC), crash-point enumeration at the syscall level, traces judged by TLC",
         "Exhaustive over syscalls under the cache root as crash points for the listed scenarios; design model-checked with TLC for 2 processes. Trusts the LD_PRELOAD shim, the kernel and the sampled power-loss model."),
 "C02": ("TLA+ spec of the bundle store (TLC), controlled schedules of real processes judged by TLC",
         "All single preemptions and sampled double preemptions of real constructors at syscall granularity; the abstract protocol exhaustively for 3 processes. Trusts the shim."),
 "C03": ("TLA+ identity/integrity spec; TLC-generated tamper and option cases replayed; verdicts by TLC",
         "Every generated identity difference and tampering is replayed on the real cache; bounded by the listed tamper operators."),
 "C04": ("TLA+ spec of the bundle store with failing steps; fault injection at every syscall, traces judged by TLC",
         "Every syscall under the cache root fails once with each listed errno in each scenario; pairs sampled. Trusts the shim."),
 "C05": ("TLA+ layout spec; TLC enumerates object layouts, replayed and judged on the real file system",
         "All single and pairwise placements of the listed object kinds; static layouts only (no adversary racing the constructor)."),
 "C06": ("TLA+ lock spec (TLC), TLC behaviours replayed on real locks with a virtual clock",
         "All behaviours of the bounded lock model are replayed; real flock semantics trusted."),
 "C07": ("TLA+ source-tree spec; TLC-generated edit histories replayed on scratch trees",
         "Fingerprint equality compared with the specification for all generated pairs of trees; bounded tree size."),
 "C08": ("TLA+ token-stream automaton (TLC), real parses and reorderings judged by TLC",
         "Automaton exhaustively checked for chunked texts; the real parser is judged on every generated stream; not a proof over all texts."),
 "C09": ("TLA+ token-stream automaton; TLC control-state cover replayed, real parses judged by TLC",
         "Every automaton transition class is exercised with many completions, plus mutations and truncations; not a proof over all texts."),
 "C10": ("TLA+ best-first frontier spec (TLC), TLC-generated weighted relations replayed as real graphs",
         "All relations within the bound plus random larger ones; float weights limited to exactly representable values."),
 "C11": ("TLA+ alignment machine; TLC-generated arc paths replayed as real linear transducers",
         "All arc paths within the bound and sampled longer ones; ownership rules transcribed from the documented contract."),
 "C12": ("TLA+ mapping contract judged by TLC over recorded normalizations of the six pipelines",
         "Contract evaluated on every recorded mapping; inputs are generated, so this is exploration with an exact oracle."),
 "C13": ("TLA+ pipeline-history spec judged by TLC over recorded call histories of the six pipelines",
         "Generated texts and histories; totality and determinism are checked on those, not proved."),
 "C14": ("TLA+ tagging contract judged by TLC over recorded taggings of the six pipelines",
         "Contract evaluated on every recorded tagging of generated texts."),
 "C15": ("TLA+ number-reading machine judged by TLC over recorded readings",
         "Zero/non-zero digit patterns exhaustive up to the bound with varied digits, the rest sampled."),
 "C16": ("TLA+ number-reading machine judged by TLC over recorded readings",
         "All values below the bound and patterned samples above."),
 "C17": ("TLA+ number-reading machine judged by TLC over recorded readings",
         "Zero/non-zero digit patterns exhaustive up to the bound with varied digits, the rest sampled."),
 "C18": ("TLA+ number-reading machines in reverse, judged by TLC over recorded inverse normalizations",
         "Readings generated by the specification, digits judged by TLC; bounded by the generated set."),
 "C19": ("TLA+ component-composition spec judged by TLC over recorded readings",
         "All dates of selected years, all times of day and sampled amounts; bounded by the supported written forms."),
 "C20": ("TLA+ option-composition spec judged by TLC over recorded outputs under option combinations",
         "All option combinations on generated texts; character classes taken from the shipped tables."),
 "C21": ("TLA+ command-line machine; TLC-generated argument sequences and streams replayed",
         "All argument sequences within the bound; streams sampled."),
 "C22": ("TLA+ token-stream automaton judging the C++ parser's output on generated streams",
         "C++ parser compiled with sanitizers and a stub logger; judged on every generated stream."),
}
checks, na = [], []
for p in props:
    if p in have:
        checks.append(dict(property=p, quick_cmd="./check " + p, thorough_cmd="./check " + p,
                           evidence_file="evidence/%s.json" % p, technique=T[p][0], level="model_checking",
                           level_note=T[p][1]))
    else:
        na.append(dict(property=p, reason="no check yet: its specification is under construction"))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="Specifications are TLA+ (TLC) under spec/; see DESIGN.md. No hooks in /repo are needed.")
with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "claimed", len(na), "not")
