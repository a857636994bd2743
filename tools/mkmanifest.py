#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of checks below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = {
 "C01": ("property-based testing: grammar-derived expressions against a big-integer reference evaluator", "expressions up to 3000 operands and 300 nested parentheses; 64-bit overflow out of domain"),
 "C02": ("property-based testing: derived commands and near-miss mutations against a reference parser", "all generated texts are valid UTF-8; trees compared by their S-expressions"),
 "C03": ("property-based testing: derived sum-roll expressions with scripted dice against a reference model", "up to 60 operands, 100000 dice"),
 "C04": ("property-based testing: comparisons with targets aimed at the rolled value, against a reference model", "scripted dice; targets mostly within 2 of the value"),
}
N.update({
 "C05": ("property-based testing: derived basic-roll lists with scripted dice against a reference model", "scripted dice, up to 100000"),
 "C06": ("property-based testing: exploding-roll lists with scripted dice against a reference queue model", "up to the 10000-group limit"),
 "C07": ("property-based testing: compounding-roll lists with scripted dice against a reference model", "up to the 10000-roll limit"),
 "C08": ("property-based testing: generated item lists with every die value, against a reference model", "up to 300 items"),
 "C09": ("property-based testing: roll arguments with embedded random numbers and scripted dice against a reference model", "ranges up to 63 bits wide"),
 "C10": ("property-based testing: recording die sources with injected faults, dice lists compared with the draws", "faults at every draw index"),
 "C11": ("property-based testing: seeds, sides and interleaved sources; differential between sources plus statistical tests of long runs", "statistics at p < 1e-9 per test on fixed seeds"),
 "C12": ("stateful model-based testing: queue histories against a slice model, with aliasing probes", "histories up to 60 steps"),
 "C13": ("property-based testing: recording and faulty die sources against the roller's contract", "up to 100001 dice"),
 "C14": ("property-based testing: round-trip and metamorphic check of the infix rendering against the derivation and a minimal-parenthesis oracle", "one known finding, see known-findings.txt"),
})
N.update({
 "C15": ("property-based testing: metamorphic relation between a text and the text with a secret marker, in process and through REPL processes", "one case in sixty runs a REPL process"),
 "C16": ("property-based testing: metamorphic relation between a command, its commented and its re-cased forms", "scripted dice"),
 "C17": ("fuzzing: grammar-based, mutational and random bytes under bounds on processor time, memory and dice requests", "nestings up to a few hundred levels, inputs up to tens of kilobytes"),
 "C18": ("stateful property-based testing: histories on one instance, differential against a fresh instance with a twin die source", "histories up to 14 steps"),
 "C19": ("property-based testing of schedules: concurrent histories under the race detector, differential against the sequential run", "schedules are those the Go scheduler produces under generated perturbation"),
 "C20": ("stateful property-based testing: request histories against a model of the routes, in process", "requests through the echo handler without a network"),
 "C21": ("stateful model-based testing: sessions of a REPL process against a line-by-line reference model", "sessions up to about 50 lines, piped input"),
 "C22": ("property-based testing: round trip of written test-data files and dice lists, and malformed variants against an independent decision", "up to 3 files of 12 cases"),
 "C23": ("property-based testing: differential between staged and direct evaluation of the same tree with the same dice", "rerolls limited to 300"),
 "C24": ("stateful property-based testing: selection histories against the list of systems, with aliasing probes", "eleven systems are added to the list through a build overlay"),
 "C25": ("property-based testing: value trees and query orders against an independent evaluation", "sums fit in an int"),
 "C26": ("property-based testing: generated game systems and inputs against a reference model of the dispatch", "scripted dice and faults"),
 "C27": ("property-based testing: generated right and wrong test-data files, verdicts of the runner against the reference model", "one test process per case, up to 5 suites"),
 "C28": ("property-based testing: histories of replacements on trees built from nodes or parsed, against the reference model", "trees that a text denotes; up to 7 replacements"),
 "C30": ("property-based testing: differential between the ways into the parser, recomputed places of errors and a metamorphic bound on them", "memoization and debugging output are left out"),
 "C31": ("property-based testing: long generated histories, invariant on the memory left by the collector and the goroutines", "histories of 6000 to 10000 rounds in process"),
 "C32": ("property-based testing: generated keystrokes on a pseudo-terminal against the built REPL process, line-editor and session models", "up to 8 lines a session and two sessions a case; a terminal of 2000 columns"),
"C29": ("property-based testing: generated environments and request histories against the built server process", "loopback TCP, up to 8 clients and 40 requests a case"),
})
checks = []
for i, (tech, note) in sorted(N.items()):
    if not os.path.exists(f"{ROOT}/harness/{i.lower()}.go"): continue
    checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                   "technique": tech, "level": "exploration", "level_note": note})
have = {c["property"] for c in checks}
na = [{"property": json.loads(l)["id"], "reason": "check not built yet"} for l in open(f"{ROOT}/properties.jsonl") if json.loads(l)["id"] not in have]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(f"{ROOT}/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(f"{ROOT}/MANIFEST.json", "a").write("\n")
