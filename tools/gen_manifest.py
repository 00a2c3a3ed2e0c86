#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: claims every property that has a check binary."""
import json, os, subprocess
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
MC, EX, FE = "model_checking", "exploration", "fault_enumeration"
T = {
 "C01": (MC, "explicit-state BFS of the implementation in lock-step with a sticker-level reference model", "Every turn history from solved up to the depth bound, every piece/place/turn combination and breadth-first from far states, compared sticker by sticker. Trusts the geometric reference model."),
 "C02": (MC, "explicit-state BFS of the implementation in lock-step with a sticker-level reference model", "Every layer-turn history up to the depth bound for 4x4-7x7 and every piece/place/turn combination, compared sticker by sticker. Trusts the geometric reference model and the read-only hook."),
 "C03": (EX, "exhaustive enumeration of all move sequences of every move type up to a length bound", "Every sequence up to the bound of every move kind on every cube size applied and undone, exact state equality; per-move laws on all moves."),
 "C04": (MC, "explicit-state exploration of turn histories and of all small reachable rearrangements against the reference model's colours", "Every history up to the depth bound and every 3-cycle, double swap, twist and flip of every piece kind; is_solved compared with the visible colours."),
 "C05": (EX, "exhaustive enumeration of assemblies and of scripted random sources (deviation-bounded)", "Every permutation/orientation class through the repair helpers; every outcome of the random source with a bounded number of deviations from default scripts; legality judged by independent invariants."),
 "C06": (MC, "exhaustive enumeration of small successor graphs, goals and heuristics through the real searcher against BFS; 3x3 states by BFS", "Every digraph up to the size bound with every goal set and admissible heuristic family; returned chains replayed, lengths compared with BFS distances."),
 "C07": (MC, "explicit-state BFS of all cross states; solver run on states against exact distances", "All 190,080 cross states per face for the reference; solvers run on an enumerated part (quick) or all reachable distances (thorough)."),
 "C08": (MC, "explicit-state BFS of all edge and cross states; estimates compared with exact distances", "Complete: all 12x24 edge situations and all 190,080 cross arrangements for each of the 6 faces."),
 "C09": (EX, "exhaustive enumeration of all pattern numbers (88M corners, 43M half-edges) with round trips", "Complete over both tables; cubes rebuilt for all pairs of a covering family."),
 "C10": (MC, "exact explicit-state BFS tables compared with the implementation's tables and lookups", "Complete table generation for small pattern kinds and exact tables for lookups (quick); the real full tables (thorough)."),
 "C11": (FE, "enumeration of every crash, failure and short-write point of a table build, followed by recovery runs", "Every file-system call of build and load as kill/fail/short-write point on small tables, plus full-size damaged files. Process-crash model (no power loss)."),
 "C12": (EX, "exhaustive enumeration of all strings up to a length over a covering alphabet against an independent reference grammar", "All strings up to the bound for each parser; reference written independently."),
 "C13": (EX, "exhaustive enumeration of all moves and short sequences, print/parse round trip", "All moves of every kind; all sequences up to the bound."),
 "C14": (EX, "exhaustive enumeration of all turn sequences up to a length bound, effect compared in the reference model", "All 18^n sequences up to the bound plus longer ones over same-axis alphabets."),
 "C15": (EX, "exhaustive enumeration of scripted random sources (deviation-bounded) and of all lists", "Lists complete; random sequences for every script within the deviation bound and every length up to a bound."),
 "C16": (EX, "exhaustive enumeration of all moves and short sequences of each kind, both sides applied to the real cubes", "All moves x depth bounds, all sequences up to the bound, on every cube size."),
 "C17": (MC, "explicit-state exploration of held cubes in lock-step with a holder-frame sticker model", "All extended-move histories up to the bound from all 24 orientations on cubes 2-7; the seen stickers compared with the physical cube."),
 "C18": (EX, "complete enumeration of faces, axes, rotations and piece values against vector geometry", "Complete over single rotations and pairs of rotations of every value."),
 "C19": (MC, "explicit-state exploration of 3x3 states, printed picture parsed back and compared with the reference model's colours", "Every piece x place x orientation and all histories up to the bound; layout and colour parsed from the real output."),
 "C20": (MC, "explicit-state enumeration of pairs and lists of states against reference-model connectivity", "All pairs within the bound, all short state lists."),
 "C21": (EX, "exhaustive enumeration of piece arrays and of reachable sets", "All position arrays of the bound; every lookup on every enumerated set."),
 "C22": (MC, "bounded exhaustive exploration of the real interactive program over all line sequences from a covering alphabet against a model session", "All line sequences up to the bound fed to the real binary; every picture compared with the holder-frame model."),
 "C23": (MC, "explicit-state enumeration of histories; every pair of reached values compared with == and hash against identity in the reference model", "All pairs of the values reached within the bound; near-identical arrangements through the hooks. Trusts that turning is right (C01, C02, C17)."),
 "C24": (MC, "stateless model checking of the real storage code: all interleavings of file calls of concurrent processes and threads under a controlled scheduler, with kills and split transfers", "Exhaustive for two actors and one kill; preemption-bounded for two kills and for three actors. Small pattern kinds; file calls are the scheduling points."),
 "C25": (EX, "exhaustive enumeration of a stated family of scripted random sources; coverage of complete finite projections of the outcomes", "Every value of every projection (pairs of pieces, corner arrangements, twists, flips, scrambles of up to 3 turns, neighbouring turns) has to be witnessed by a source of the family; that a value cannot come up is concluded from the whole family missing it."),
 "C26": (EX, "explicit enumeration of histories of operations against the real code (de Bruijn sequences over families of operations with similar arguments), each answer compared with that of a new process", "Histories are bounded at 3 operations of a family and 2 of all families, in addition to long repetitions and floods; simultaneous calls on 8 threads are run without control of their interleaving. The stored tables are the business of C10, C11 and C24."),
 "C27": (MC, "explicit enumeration of words of named sequences in a sticker model of their documented effect, every word replayed on the real cubes", "Words of up to 4 (5) sequences; exact piece identity on 2x2 and 3x3, repetition and turn-by-turn equality on all sizes."),
}
bins = {f[:-3].upper() for f in os.listdir(f"{V}/harness/src/bin") if f.startswith("c") and f.endswith(".rs")}
ids = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s", "--reverse"], capture_output=True, text=True).stdout
hooks = [l.split()[0] for l in log.splitlines() if "verif_hooks" in l]
m = {"version": 1, "setup_cmd": "./setup.sh",
 "hooks": {"guard": "verif_hooks", "enable": "RUSTFLAGS=\"--cfg verif_hooks\" cargo build (harness/, path dependency on /repo/barbarosa)", "source_commits": hooks},
 "checks": [{"property": i, "quick_cmd": f"VERIF_TIER=quick ./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
   "evidence_file": f"evidence/{i}.json", "technique": T[i][1], "level": T[i][0], "level_note": T[i][2]} for i in ids if i in bins],
 "not_applicable": [{"property": i, "reason": "planned (see DESIGN.md); its check is not built yet"} for i in ids if i not in bins],
 "notes": "Known findings: known_findings.txt. Planted bugs: seeded/. Every check rebuilds harness/ against /repo's working tree."}
if not m["not_applicable"]: del m["not_applicable"]
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1); open(f"{V}/MANIFEST.json", "a").write("\n")
print([c["property"] for c in m["checks"]])
