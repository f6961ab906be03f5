#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
import os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DIFF = "differential runtime monitor: every field of every result is compared online with an independent reference lexer and parser, under generated, mutated and enumerated texts; smaller run under ASan+UBSan"
NOTE = "The monitors observe real executions of the code built from /repo on millions of texts; nothing is claimed for texts not run. "
T = {
    "C01": ("ASan+UBSan build under generated, truncated, mutated, long and deep inputs through every entry point", NOTE + "Trusts the sanitizers (no detection of errors inside a live object)."),
    "C02": ("allocation-balance monitor (malloc interposer) over inputs x ways of disposal, repeated under ASan", NOTE + "A leak counts only if it recurs on repetition."),
    "C03": ("heap and stack fill-pattern monitor comparing full dumps of repeated parses, plus valgrind memcheck", NOTE + "A field counts as uninitialised if any of five fill patterns shows through or memcheck reports it."),
    "C04": (DIFF, NOTE + "Trusts the reference recogniser in src/reflex.cpp and src/refparse.cpp as the definition of the dialect."),
    "C05": (DIFF, NOTE + "Trusts the reference parser as the definition of the dialect and its trees."),
    "C06": (DIFF, NOTE + "Trusts the reference parser."),
    "C07": (DIFF, NOTE + "Trusts the reference parser."),
    "C08": (DIFF + "; operator pairs and triples enumerated in every clause", NOTE + "Trusts the reference parser's precedence table."),
    "C09": ("runtime monitor of literal and name values against independently computed values; boundary enumeration and source-mined constants", NOTE + "Trusts the C library's strtod in the C locale."),
    "C10": ("metamorphic runtime monitor: rewritings of layout, comments and case must yield the same tree", NOTE + "Trusts the harness's notion of which rewritings keep the tokens."),
    "C11": ("metamorphic runtime monitor: scripts against their statements, slices re-parsed alone", NOTE),
    "C12": ("runtime monitor of the parameter list against a walk of the real tree and the placeholders of the text", NOTE),
    "C13": ("runtime monitor of failing results; error position against the reference parser's first impossible token", NOTE + "Trusts the reference parser for the place of the error."),
    "C14": ("stateful runtime monitor: random operation histories on result objects shadowed by an ownership model; also under ASan", NOTE),
    "C15": ("ThreadSanitizer plus an online isolation oracle over threads that parse, tokenize, print, hand over and free concurrently with injected yields", NOTE + "Races are reported on executed code (happens-before), isolation on the interleavings that occurred."),
    "C16": ("runtime monitor of call sequences under different locales, errno and earlier calls, against a fresh process", NOTE + "Locales de_DE and tr_TR in UTF-8 and ISO-8859 are built by the check itself."),
    "C17": ("runtime monitor of tokenize against an independent reference lexer and the parser's verdict", NOTE + "Trusts the reference lexer."),
    "C18": ("runtime monitor of printing: output captured and searched for every name and literal of the tree; tree and stream state compared before and after", NOTE + "Only presence of the content is judged, not the format."),
    "C19": ("cost monitor: executed basic-block edges (coverage instrumentation), allocations, peak memory and stack depth against text size over size sweeps", NOTE + "Slopes between doubled sizes decide; elapsed time only where a call does not end."),
    "C20": ("metamorphic runtime monitor: PREPARE's stored text against the text and its direct parse, nested", NOTE),
    "C21": ("differential runtime monitor: rule offences and their correct twins enumerated and generated, against the reference rules", NOTE + "Trusts the rules as coded in the reference parser."),
    "C22": ("runtime invariant monitor over every node of every accepted tree (ownership, arity, tags, enum ranges)", NOTE),
    "C24": ("metamorphic runtime monitor: printed forms of pairs of texts that differ in one place, with the parsed trees deciding whether they may print alike", NOTE + "Trusts the projection of the tree to what the printer is meant to show."),
    "C25": ("fault injection: the interposed allocator refuses the set-up allocation of each call; return values, results, leaks and later calls monitored", NOTE + "Only the set-up allocation is refused; other failures end the process or are passed on by the C++ library."),
    "C26": ("runtime monitor of constructors and factories over patterned memory, of hand-made copies against parsed statements, and of the allocation balance of their destruction; also under ASan", NOTE),
    "C27": ("metamorphic runtime monitor: trees of texts with a phrase replaced against the tree of the surroundings and the tree of the phrase alone", NOTE),
    "C28": ("metamorphic runtime monitor: reports of rejected texts with the same beginning and different endings", NOTE),
    "C23": ("runtime monitor of accessors, comparison and printing operators against fields at every node", NOTE),
}
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": [],
     "notes": "check.py builds the parser from /repo's working tree with the harness in src/ (no hooks in /repo are needed: allocation, coverage, sanitizer and dump instrumentation sits in the harness and the compiler flags). DESIGN.md describes each monitor; known-findings.txt lists the defects found and repaired."}
for k, (t, n) in sorted(T.items()):
    m["checks"].append({"property": k, "quick_cmd": "python3 check.py " + k, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + k,
                        "evidence_file": "evidence/%s.json" % k, "technique": t, "level": "exploration", "level_note": n.strip()})
json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(VERIF, "MANIFEST.json"), "a").write("\n")
