#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
T = {
 "P01": ("generated documents compared with an independent reference reader", "Search over millions of generated documents (all statement forms pairwise, free notation, damaged but valid texts); trusts the reference reader in core/, written from the DOT grammar. Bounded by the sizes generated."),
 "P02": ("metamorphic: one graph in several generated notations parses equal", "Generated respellings and every trivia kind at every gap; trusts the renderer in core/ to change only notation."),
 "P03": ("generated damage and truncation against a reference recogniser", "Every prefix, every single-token change and random damage of generated documents; no judgement where readings of DOT differ (keywords as identifiers)."),
 "P04": ("fuzzing for panics and errors, counted grammar steps, deep nesting in child processes", "Panics and aborts are observed, work is counted through pest's call limit and by processor time against 32 times the size, stack use in children with bounded stacks. Known finding: very deep nesting of subgraphs overflows the stack."),
 "P05": ("round trip print-parse over generated graphs and options", "Equality of structures after printing and parsing, plus an independent reading of the printed text; separators of white space only."),
 "P06": ("idempotence of parse-print over generated texts", "Textual fixpoint after one round and agreement with the reference reader."),
 "P07": ("metamorphic: token sequence under generated option pairs", "Tokens taken by an independent lexer, optional separators dropped."),
 "P08": ("differential against a reference printer", "Byte-for-byte comparison with a stateless reference printer written from the documented layout, plus line rules checked independently."),
 "P09": ("stateful: histories of prints and option changes against fresh contexts", "Model-based histories on one context."),
 "P10": ("generated sets of custom printers against the reference printer", "Recording and marking printers; calls and placement compared."),
 "P11": ("differential against Graphviz's own reader (nop)", "Trusts Graphviz 2.43 as installed; canonical forms compared modulo what Graphviz leaves to memory addresses."),
 "P12": ("generated executions against a scripted stand-in for dot, and real dot", "The stand-in reports exactly what it was given; outputs of generated sizes and contents."),
 "P13": ("generated faults: exit codes, signals, missing or broken dot, full or missing temp directory", "Faults injected in child processes with their own environment."),
 "P14": ("temp directory listed after generated executions, and concurrent executions", "Schedules are those the system gives under load, with delays scripted in the stand-in; up to 160 at once, and several processes."),
 "P15": ("all enumerated names against Graphviz's list; differential with running dot directly", "Names are checked exhaustively; argument lists generated."),
 "P16": ("every helper against a table, generated values, Graphviz's reader", "The table of helpers and spellings is checked in and was written from Graphviz's documentation."),
 "P17": ("generated programs of macro calls compiled and compared with a model", "Each run compiles freshly generated programs against the local crates and the crates the library uses."),
 "P18": ("stateful: generated operations on graph structures against a model", "Both the repository's crate and the one the library re-exports."),
 "P19": ("invariant over generated histories of parses; marked identities in prints", "Collision by chance is below 1e-15 per run."),
 "P20": ("generated user types compiled and compared with a model", "Each run compiles freshly generated types."),
 "P21": ("differential over build configurations with generated inputs", "The same generated inputs through every configuration, outputs compared with each other and a model."),
 "P22": ("stateful: generated orders of parses and prints, on one and on several threads, against reference reader and printer", "Orders are generated; the overlap of threads is what the system gives, started together by a barrier."),
 "P23": ("generated nests printed with a counting value printer; every way to print a graph and its parts", "Work is counted through custom value printers and by processor time against 32 times the size; stack use in child processes with bounded stacks."),
 "P24": ("generated damage: the place named by the message against the first wrong token of a reference reader", "Trusts the reference lexer and parser in core/ for the first token that no document has in its place; the message may also name the token before it."),
 "P25": ("stateful: work of one shape repeated, with a counting allocator; invariants over descriptors, threads and children after histories of executions", "Memory is counted per thread by the allocator; what stops growing within a third of 3 000 repetitions is not held to be kept; memory taken is compared at one size and 32 times the size."),
}
HAVE = [p for p in T if os.path.exists(os.path.join(HERE, {"P12":"exec","P13":"exec","P14":"exec","P15":"exec","P25":"exec","P16":"attrs","P17":"macros","P18":"macros","P20":"macros","P21":"configs"}.get(p,"lang"), "Cargo.toml"))]
m = {"version": 1, "setup_cmd": "bash setup.sh",
 "checks": [{"property": p, "quick_cmd": f"bash run_check.sh {p}", "thorough_cmd": f"VERIF_TIER=thorough bash run_check.sh {p}",
   "technique": "property-based testing: " + T[p][0], "level": "exploration", "level_note": T[p][1]} for p in HAVE],
 "not_applicable": [{"property": p, "reason": "check under construction"} for p in T if p not in HAVE]}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
