#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, state, mech, observe, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=hook)))

CACHE = ["tn/cache.py", "tn/processor.py"]
p("C01", "A crash at any point leaves the graph cache usable and never half-written",
  "If a process that is building or replacing a cached graph bundle dies at any point (or the machine loses power there), the next construction with the same cache directory succeeds and works with a tagger and verbalizer that were built together and completely. A complete bundle that was published before the crash, or finished being published by it, is still found without rebuilding, and the leftovers of the dead process under that key are gone after the next construction that has to take the lock.",
  ["crash_points", "histories"], "Every system call a constructor makes under the cache root, as the point where the process is killed, for first builds, overwriting builds, recoveries and quarantines, also repeated (crash during recovery); for power loss, every subset of unsynced writes.",
  "The tests simulate a handful of crash states by placing directories by hand or raising from one patched function; they never kill at each system call nor chain crashes.",
  CACHE, [("final bundle directory", "present only as a complete tagger/verbalizer/manifest triple", "CacheBundle.path"), ("residuals", ".tmp-/.previous-/.corrupt- siblings of one key", "CacheBundle.recover_residuals")],
  [("publish by rename of a complete temporary directory", "CacheBundle.publish"), ("recovery of a complete previous bundle", "CacheBundle.recover_residuals")],
  ["file system under the cache root", "graphs used by the constructed processor"])
p("C02", "Concurrent constructors agree on one complete bundle and build one at a time",
  "When several processes construct the same pipeline on one cache directory under any interleaving, every one of them ends up with a tagger and a verbalizer from one and the same build, and at no moment are two of them building or modifying that bundle at once. If none of them asked for an overwrite and none fails, exactly one of them builds and the others load its result.",
  ["schedules"], "All interleavings of the file-system operations of up to three constructors (plain and overwriting), with readers at any point of a replacement.",
  "Existing tests start a few threads or processes and let the operating system pick one schedule; the windows between two renames are hit by luck only.",
  CACHE, [("lock", "advisory lock on the key's anchor file", "CacheBundle.lock"), ("final bundle", "what readers may observe without the lock", "CacheBundle.load")],
  [("exclusive advisory lock around check-build-publish", "Processor.build_fst"), ("re-check under the lock", "Processor.build_fst")],
  ["build events of the constructing processes", "graphs they end up with", "file system under the cache root"])
p("C03", "A cached bundle is used only for the exact identity and content it was built for",
  "A constructor uses a cached bundle only if it was built by the same builder from the same grammar sources for the same prefix, token order type and configuration, and only if both graphs are byte-for-byte the ones that were published; otherwise it rebuilds, and so every constructor behaves exactly as one built in memory with the same options. A build whose sources change while it runs publishes nothing.",
  ["configurations", "inputs"], "All option settings of the shipped pipelines, all single-field differences of identity, and every tampering of a published bundle (truncated, altered, swapped, added, removed or replaced files, altered manifest fields).",
  "Tests tamper with a few bytes and a few manifest fields and compare a few configurations.",
  CACHE + ["tn/chinese/normalizer.py", "tn/japanese/normalizer.py", "tn/english/normalizer.py", "itn/chinese/inverse_normalizer.py", "itn/english/inverse_normalizer.py", "itn/japanese/inverse_normalizer.py"],
  [("manifest", "identity plus size and digest of each graph", "CacheBundle._expected_manifest_identity")],
  [("content-addressed path", "CacheBundle.__init__"), ("exact entries, identity, size and digest validation", "CacheBundle.load"), ("fingerprint re-check before publishing", "Processor.build_fst")],
  ["build events", "graphs used by the constructed processor", "outputs of the constructed normalizers"])
p("C04", "A cache I/O error is reported and costs neither the old bundle nor the lock",
  "If any single file-system operation of a constructor fails (disk full, I/O error, permission, too many files), the constructor either still ends with a complete correct pair or raises an error; it never returns partial or mixed graphs and never leaves a partial bundle under the final name. A complete bundle being replaced is in place again after a failed replacement, the key's lock is free afterwards, and the next fault-free construction succeeds.",
  ["fault_sequences"], "Every file-system operation under the cache root as the failing one (and short writes), for every error in the list, for first builds, overwrites and recoveries; and pairs of failures.",
  "Tests patch two or three functions to raise; they do not enumerate the failing operation.",
  CACHE, [("previous bundle", "the bundle moved aside during a replacement", "CacheBundle.publish")],
  [("restore on failed publish", "CacheBundle.publish"), ("lock released on every exit", "CacheBundle.lock")],
  ["exception or graphs returned by the constructor", "file system under the cache root", "lock state"])
p("C05", "Caching touches nothing outside its own key, whatever links or files it finds",
  "Whatever files, directories or symbolic links already exist under the cache root, construction never creates, changes or deletes anything outside the cache root, never loads graphs through a link, and never deletes or changes files under the root that do not belong to the key's own bundle, residuals and lock. A cache prefix or inverse-normalization resource name that would escape its root is rejected with an error.",
  ["configurations", "inputs"], "Every combination of object kinds (absent, file, directory, link inside, link outside, dangling link) at each path component, bundle entry, residual and lock position; every cache prefix and inverse-normalization resource path string.",
  "Tests try single links at a few positions.",
  CACHE + ["itn/utils.py"], [("cache layout", "root/prefix/config/bundle and its dot-siblings", "CacheBundle.__init__")],
  [("O_NOFOLLOW directory chain", "CacheBundle._open_directory_chain"), ("flat removal of known names only", "_remove_flat_bundle_impl"), ("containment of resource paths", "itn.utils.get_abs_path")],
  ["file system outside and inside the cache root"])
p("C06", "The cache lock excludes, times out as configured, and is always released",
  "At most one holder of a key's lock exists at any time across threads and processes; a waiter gets it once the holder releases or dies, and otherwise fails with a lock timeout error that names the lock, no earlier than the configured timeout and soon after it. Invalid timeouts are rejected before anything is created, whatever bytes the lock file contains only affect a bounded diagnostic text, and every way of leaving the locked region (return, exception, interrupt, process death) frees it.",
  ["schedules", "configurations"], "All interleavings of up to three lockers with timeouts, releases, exceptions and deaths; all timeout values given by argument or environment; arbitrary lock file contents.",
  "Tests cover one waiter, three malformed payloads and a few timeout strings.",
  ["tn/cache.py"], [("lock anchor", "file whose advisory lock is held", "CacheBundle.lock_path")],
  [("flock with polling deadline", "CacheBundle.lock"), ("timeout validation", "_configured_lock_timeout"), ("bounded owner diagnostic", "CacheBundle._read_owner_diagnostic")],
  ["CacheBundle.lock", "exceptions"])
p("C07", "The source fingerprint changes exactly when production sources change",
  "Two source trees get the same fingerprint if and only if they have the same set of production files (Python, TSV and FAR files of the tn and itn packages, outside test and bytecode directories and the generated version file) with the same relative paths and the same contents. Anything else, such as time stamps, directory order, location of the tree, tests or other file types, has no influence.",
  ["inputs"], "All pairs of source trees related by sequences of edits (modify, add, remove, rename, move bytes between files, touch, relocate).",
  "Tests compare a few single edits.",
  ["tn/cache.py"], [("production set", "paths that are hashed", "production_source_fingerprint")],
  [("ordered hashing of paths and contents", "production_source_fingerprint")], ["production_source_fingerprint(root)"])
TP = ["tn/token_parser.py", "tn/processor.py"]
p("C08", "Tagged tokens survive the wire format and are reordered canonically without loss",
  "Any sequence of tokens with any field values, written in the tagged wire format and read back, yields the same token names, field names, field order and values. Reordering emits every token once, in sequence, with every field exactly once and value unchanged: in the pipeline's canonical order first and remaining fields in their original order, or entirely in the original order if the token asks to preserve it; the reported spans delimit exactly each token in the reordered text.",
  ["inputs", "configurations"], "All token sequences over all names and field names, all Unicode field values including quotes, backslashes, braces and spaces, for each pipeline's order table and custom ones.",
  "Tests round-trip a handful of literal tokens.",
  TP, [("token list", "name, ordered fields, span", "TokenParser.parse")],
  [("escaping", "escape_value"), ("canonical reordering", "Token.string"), ("wire encoding in graphs", "Processor.tag_field")],
  ["TokenParser.parse", "TokenParser.reorder_with_spans", "Processor.tag_field and verbalize_field graphs"])
p("C09", "The token parser accepts exactly the wire grammar and reports everything else",
  "For every string, parsing terminates and either returns the tokens the grammar assigns to it or raises the token parse error; no other exception escapes, nothing is silently skipped, merged, truncated or duplicated, and a failed or earlier parse has no effect on later parses with the same parser.",
  ["inputs", "histories"], "All strings (well-formed, truncated, mutated, arbitrary Unicode) and all sequences of parses on one parser object.",
  "Tests list about twenty malformed strings.",
  ["tn/token_parser.py"], [("cursor", "index and current character", "TokenParser.read")],
  [("strict recursive descent with explicit errors", "TokenParser.parse")], ["TokenParser.parse", "TokenParser.reorder"])
p("C10", "N-best results are the unique outputs in exact order of joint cost",
  "For every input and n, the n-best outputs are distinct, come in non-decreasing joint cost (tagger cost plus the verbalizer cost relative to that tagging's best verbalization), and contain every output whose cost is below that of the last one returned; fewer than n are returned only if no more outputs exist. The list for n is a prefix of the list for n+1, its first element is what plain normalization returns, and non-positive or non-integer n is rejected.",
  ["inputs", "programs"], "All finite weighted tagger/verbalizer relations, all inputs, all n.",
  "Tests use a few hand-made grammars and compare short lists.",
  ["tn/processor.py"], [("frontier", "best unreturned candidate per activated tagging", "Processor._normalization_candidates")],
  [("lazy best-first merge with a lower bound for unseen taggings", "Processor._normalization_candidates"), ("unique shortest output stream", "_UniqueOutputPathStream")],
  ["Processor.normalize(text, nbest=n)", "Processor.tag(text, nbest=n)"])
p("C11", "Span tracing attributes each output character to the token that produced it",
  "For every transduction path and every ordered list of token spans on its input, the traced output span of each token covers exactly the output produced while the path is inside that token, with whitespace produced between tokens and output that replaces separator input unowned, other output produced between tokens owned by the preceding token, and a zero-width position for tokens whose output is empty; tracing from output spans back to input covers exactly the input consumed for each token without separators. Malformed span lists are rejected, and tracing a selected output follows that output.",
  ["inputs", "programs"], "All linear transduction paths over multi-byte characters, whitespace, insertions and deletions, with all ordered span lists.",
  "Tests use a few dozen concrete sentences.",
  ["tn/alignment.py"], [("path cursor", "input offset, output offset and current token", "transduce_with_spans")],
  [("arc walk with ownership rules", "transduce_with_spans"), ("arc walk from output to input", "trace_input_spans")], ["transduce_with_spans", "trace_input_spans"])
p("C12", "Normalization mappings are exact, ordered and consistent with the output",
  "For every text, language pipeline and n, mapping-producing normalization returns the same output text(s) as plain normalization; its mappings are in order, do not overlap on either side, quote exactly the slices they point at, and are labelled equal, delete or replace according to those slices. With identity mappings included they account for every non-space character of both texts, and without them exactly the unequal ones remain.",
  ["inputs"], "All texts free of NUL characters for the six shipped pipelines, all n.",
  "Tests check listed sentences.",
  ["tn/processor.py", "tn/alignment.py"], [("mapping", "kind and both spans of one token", "NormalizationMapping")],
  [("token tracing through both transducers", "Processor._normalize_candidate_with_mapping")], ["Processor.normalize_with_mapping"])
p("C13", "Normalization is total, deterministic and free of memory",
  "Every Chinese or Japanese text, and every English text made of words, numbers and sentence punctuation, is normalized without an error (the empty text to itself), and the plain result is a least-cost reading of a least-cost tagging. The result depends only on the text and the construction options: not on earlier calls, failed calls, the number of alternatives asked for, or whether the graphs came from memory, a fresh build or the cache.",
  ["inputs", "histories", "configurations"], "All texts free of NUL characters, all call histories on one processor, and all ways of obtaining its graphs.",
  "Tests call each processor with listed sentences in one order.",
  ["tn/processor.py", "tn/chinese/normalizer.py", "tn/english/normalizer.py", "tn/japanese/normalizer.py", "itn/chinese/inverse_normalizer.py", "itn/english/inverse_normalizer.py", "itn/japanese/inverse_normalizer.py"],
  [("graphs", "tagger and verbalizer, never modified by calls", "Processor.tagger, Processor.verbalizer")],
  [("character fallback rule", "Char rules"), ("fresh parser per call", "Processor.token_parser")], ["normalize, tag, verbalize"])
p("C14", "Tagging only segments: the written text is preserved in the tagged fields",
  "The field values of a tagged text, read in tag order, are consecutive disjoint pieces of the input text; what lies between them is only separator, unit or symbol characters that the token type implies, and whitespace. In particular text handled by no rule comes back unchanged character by character.",
  ["inputs"], "All texts free of NUL characters for the shipped pipelines whose taggers keep written values.",
  "Tests check listed sentences.",
  ["tn/processor.py", "tn/chinese/normalizer.py", "itn/chinese/inverse_normalizer.py"], [("tagged text", "tokens with written field values", "Processor.tag")],
  [("input projection of semantic graphs", "Processor.input_projection")], ["Processor.tag"])
p("C15", "Chinese numbers are read with their exact value",
  "Every written number in the supported range (integers up to twelve digits, decimals, signed numbers, percentages and fractions, with or without full-width digits) is read as Chinese text that denotes exactly that number: same value, same decimals, same sign, following the standard rules for zeros and magnitude words.",
  ["inputs"], "All digit strings in the range, in isolation and between Chinese text.",
  "Tests list about a hundred numbers; zero and magnitude patterns are combinatorial.",
  ["tn/chinese/rules/cardinal.py", "tn/chinese/rules/fraction.py", "tn/chinese/rules/measure.py"], [], [("magnitude composition", "Cardinal.build_tagger")], ["Normalizer.normalize"])
p("C16", "English numbers are read with their exact value",
  "Every written English cardinal, ordinal, decimal and signed number in the supported range, with or without thousands separators, is read as English words that denote exactly that number, in well-formed number grammar.",
  ["inputs"], "All digit strings in the range and all separator placements.",
  "Tests list a few dozen numbers.",
  ["tn/english/rules/cardinal.py", "tn/english/rules/ordinal.py", "tn/english/rules/decimal.py"], [], [("number names grammar", "Cardinal.build_tagger")], ["Normalizer.normalize"])
p("C17", "Japanese numbers are read with their exact value",
  "Every written number in the range supported by the Japanese normalizer (integers with or without thousands separators, decimals, signed numbers, percentages and fractions) is read as Japanese text that denotes exactly that number.",
  ["inputs"], "All digit strings in the range.",
  "Tests list a few dozen numbers.",
  ["tn/japanese/rules/cardinal.py"], [], [("magnitude composition", "Cardinal.build_tagger")], ["Normalizer.normalize"])
p("C18", "Inverse normalization writes spoken numbers with their exact value",
  "Every well-formed spoken Chinese, English or Japanese number in the supported range is written as digits (or digits with a magnitude word) of exactly that value, and text normalization followed by inverse normalization restores the number.",
  ["inputs"], "All number readings in the range, in each of the three languages, under each number option.",
  "Tests list a few hundred phrases.",
  ["itn/chinese/rules/cardinal.py", "itn/english/rules/cardinal.py", "itn/japanese/rules/cardinal.py"], [], [("digit composition", "Cardinal.build_tagger")], ["InverseNormalizer.normalize"])
p("C19", "Dates, times, money and fractions keep every component in its place",
  "A well-formed written date, time of day, fraction, percentage or amount of money is read so that each component appears with its exact value in the order and role of the language's reading, and inverse normalization of the reading restores the components.",
  ["inputs"], "All calendar dates, times of day, fractions and amounts in the supported written forms.",
  "Tests list sample dates and times.",
  ["tn/chinese/rules/date.py", "tn/chinese/rules/time.py", "tn/chinese/rules/money.py", "tn/chinese/rules/fraction.py", "tn/english/rules/date.py", "tn/english/rules/time.py", "tn/english/rules/money.py", "itn/chinese/rules/date.py", "itn/chinese/rules/time.py"],
  [], [("field tagging and token reordering", "Token.string and the date, time, money and fraction rules")], ["normalize"])
p("C20", "Each option changes exactly what it names",
  "Turning one construction option on or off changes the output only in the way the option documents: removing punctuation or interjections deletes exactly those characters, converting full-width or traditional characters replaces exactly those, tagging out-of-vocabulary characters brackets exactly those, and number options affect only the number class they name. Options act independently in every combination.",
  ["configurations", "inputs"], "All option combinations and all texts.",
  "Tests toggle single options on a few sentences.",
  ["tn/chinese/normalizer.py", "tn/chinese/rules/postprocessor.py", "tn/japanese/normalizer.py", "tn/japanese/rules/postprocessor.py", "itn/chinese/inverse_normalizer.py", "itn/japanese/inverse_normalizer.py"],
  [("options", "construction flags", "Normalizer.__init__")], [("post-processing chain", "PostProcessor.__init__")], ["normalize under different options"])
p("C21", "The command line maps options and lines faithfully",
  "For every command line, each option in any accepted spelling sets exactly the constructor option it names (last one wins, defaults otherwise), options of another language or direction and malformed values are refused with a usage error before any processing, and the processor built is that of the selected language and direction. Each input line, with only its line ending removed, produces exactly its tagged text and its normalized text, in order, whether it comes from the text option, a file or standard input.",
  ["inputs", "configurations"], "All argument sequences and all input streams.",
  "Tests run a few command lines.",
  ["tn/cli.py", "tn/main.py", "itn/main.py"], [("arguments", "language, direction, options, source of lines", "parse_args")],
  [("per-language parser", "create_parser"), ("constructor mapping", "create_processor"), ("line loop", "run")], ["run(direction, argv, ...)", "python -m tn.main / itn.main"])
p("C22", "The C++ runtime's token parser agrees with the Python one",
  "For every tagged text a shipped pipeline produces, the C++ runtime's reordering equals the Python reordering for that pipeline, character by character.",
  ["inputs"], "All tagged texts over the pipelines' token names and fields with arbitrary Unicode values.",
  "The repository has no C++ tests in its stable suite; nothing compares the two.",
  ["runtime/processor/wetext_token_parser.cc", "runtime/processor/wetext_token_parser.h", "tn/token_parser.py"], [], [("order tables", "wetext_token_parser.cc")], ["TokenParser::Reorder"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w", encoding="utf-8") as f:
    for q in P:
        f.write(json.dumps(q, ensure_ascii=False) + "\n")
print(len(P))
