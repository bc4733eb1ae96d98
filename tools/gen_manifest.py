#!/usr/bin/env python3
"""MANIFEST.json from the table below (levels, techniques, notes) and properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "path-sensitive interprocedural abstract interpretation of the grammar's MIR"
CLI = "abstract interpretation of the whole program's MIR from main, with modelled surroundings"
CHECKS = {
 "P01": (AI + " with a token-ownership typestate", "Grammar: every consumed token is recorded exactly once and in order, parsing ends only at the end of input, on all abstract paths. Token source, events, tree building and lexing: followed for all token lists and recordings of bounded size and some longer ones."),
 "P02": (AI + ", panic reachability", "All panics, assertions, marker drops and completion-order assertions reachable from the root rule, for every token sequence; stack depth is P45."),
 "P03": (AI + " with progress facts; cycles of the consumption-free call graph", "Every loop round and recursion cycle consumes a token."),
 "P04": (AI + " with an error-reported typestate", "ERROR nodes and missing expected tokens imply a reported error on every path."),
 "P05": (AI + " with per-node completeness credits", "Completeness clauses for 60+ node kinds at all closing sites, in every calling context."),
 "P06": (AI + ", forked at every point of the content with an end or branch tag as next token", "For each kind of open content and each end/branch tag: what happens before the tag is consumed, on all abstract paths."),
 "P07": (AI + ", look-ahead sets at every event compared per delimiter class", "At every site where the grammar consumes, opens, closes or reports, the possible next tokens contain all variants of a delimiter or none."),
 "P08": (AI + " with a ghost automaton per operator pair", "For all ordered pairs of operators, in all contexts, which node takes the operand between them."),
 "P09": ("table agreement between lexer attributes, T! macro arms and the paths of the Display implementation", "For every token kind: lexer spelling, vocabulary entry and printed name agree; names unique."),
 "P10": ("exhaustive abstract evaluation of the views' conversion methods, view by kind", "For all views and all kinds: can_cast, cast and syntax."),
 "P11": (AI + ", provenance of error ranges", "Grammar: every range put into an error comes from a token, on all abstract paths. Lexing and error completion: for token lists and texts of bounded size."),
 "P12": (AI + " with a marker-stack typestate", "Grammar: markers are completed once, in nested order, one ROOT, on all abstract paths. Recording and tree building: for all recordings of bounded size and some longer ones."),
 "P20": (CLI + ", effects on the file system", "No write, removal or process start reachable without --fix (configuration creation aside), on all paths of main under all configurations and walk results of the model."),
 "P21": (CLI + " with a per-file typestate of writes, versions of the text and failures", "Only the processed file is written, at most once, with the text checked last; failures write nothing."),
 "P22": (CLI + ", writes guarded by an existence test on the same path", "Only the configuration path is written, only after it was seen not to exist, with the default text."),
 "P23": (CLI + ", typestate of received severities against every exit", "For every sequence of messages: zero status exactly if none above Info was received; early ends fail; the channel is drained."),
 "P24": (CLI + ", each finding, syntax error and failure followed to messages and diagnostics; constant propagation through the counters", "Findings of each severity among any others, numbers 0, 1, 2, 9 of syntax errors, all failures, and the printed totals for one fixed multiset of messages (the totals are decided for that multiset only)."),
 "P25": (CLI + ", each kind of walk entry followed through", "Every file delivered by the walk is read once and parsed; the walk goes on; nothing ends the program."),
 "P26": (CLI + " over all patterns of overlapping, touching and separate suggestions of bounded number", "Every pattern of up to three suggestions of up to three rules and chains of four: which are applied, in which order, to which text."),
 "P27": (CLI + ", loop of passes unrolled with text versions", "The loop of passes ends on every path; writes, texts, trees and findings belong to the newest version."),
 "P34": (CLI + ", destination of every emission", "Diagnostics of a file reach the terminal through one buffer and one call."),
 "P28": (CLI + " over all syntax trees of bounded shape", "Trees of three levels below the root with any number of siblings, directives naming none, one, both of two rules or an unknown one, and erroneous parts; tree-walking rules separately."),
 "P29": (CLI + " over all syntax trees of bounded shape", "Trees of three levels below the root with erroneous parts anywhere; every rule evaluated on elements of any kind with erroneous neighbours and parts."),
 "P30": (CLI + " over all syntax trees of bounded shape", "The three rules about line breaks, blank lines and indentation on trees of three levels with each kind of whitespace-sensitive element."),
 "P33": (CLI + ", every rule evaluated on elements of any kind; constant propagation of the reported name", "Every finding of each of the rules carries the rule's own constant name."),
 "P35": ("effect and dependence queries over the MIR of both crates: statics, types shared between files, initialisers of values written once, calls that ask for time, thread or environment, orders of hash tables", "Every static, every type handed to the work on a file, all functions reachable from it in both crates."),
 "P36": (CLI + ", panic reachability in every rule with every accessor able to return nothing", "Panics, failed unwraps, slices and arithmetic in code of the rules and the traversal; panics inside dependencies are not followed."),
 "P31": (CLI + " per list of active rules; constant names of all implementations of the rule trait", "Lists followed: none, each rule, all, reversed, repeated, and nine kinds of unknown names; other lists by the uniformity of the code."),
 "P32": (CLI + ", symbolic chain of configuration sources; constant evaluation of the environment mapping per key; field-read query", "Order of the sources, mapping of each key's variable, defaults, use of each key, failure. Trusts a model of figment's merge/join and Env."),
 "P37": (CLI + " per list of file-level directives", "Thirteen lists of directives (none to three; empty, single, several, unknown, inactive names)."),
}
BOUNDED = "P01 P11 P12 P24 P26 P28 P29 P30 P31 P32 P37".split()  # report.rs: bounded()
NA = {
 "P40": "quantifies over the texts produced by two complete runs (round-trip equality of runtime strings); no sound static argument in reach bounds them",
 "P41": "equality of rendered output quantifies over the runtime behaviour of a template engine outside this repository",
 "P42": "a numerical relation between runtime nesting depth and emitted characters",
 "P43": "string conversion results for every name; decided by runtime values of heck/regex",
 "P44": "crash atomicity of a write depends on the operating system; std::fs::write is used by design and the repository claims no atomic replacement",
 "P45": "recursive descent by design: stack use is proportional to nesting and the available stack is a runtime quantity (deep input does overflow it)",
 "P46": "running time as a function of input size is a runtime quantity",
}
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in CHECKS:
        t, n = CHECKS[p][:2]
        lvl = "other" if p in BOUNDED else "proof"
        checks.append(dict(property=p, quick_cmd=f"./check.sh {p}", thorough_cmd=f"./check.sh {p}", technique="static analysis: " + t, level=lvl,
                           level_note=n + " Trusts rustc's MIR, the driver, the engine and its models of library functions (DESIGN.md); not machine-checked."))
    else:
        na.append(dict(property=p, reason=NA.get(p, "not yet covered by a check; see DESIGN.md")))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na), open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
