#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (source of truth for the registered checks)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUN = ("TLA+ programs (bounded families + random derivations), the real compiler's bytecode executed by the TLA+ machine "
       "DiceVM over every nondeterministic answer, judged against the TLA+ source semantics DiceSem with TLC")
TEXT = "TLA+ generated texts replayed into the real code, verdicts judged by the TLA+ specification with TLC"
RNOTE = ("Holds for every program explored (sizes and counts in the evidence file) and, for each, every sequence of "
         "truth/number answers within the bound. Trusts the specification of the virtual machine (dice-runtime does not build, so "
         "DiceVM specifies it from its sources) and of the source language.")
TNOTE = "Holds for every text explored (counts in the evidence file); trusts the specification and the harness that records the observations."
C = {
 "P01": (TEXT + " (DiceFront/DiceTotal)", "exploration", TNOTE),
 "P02": ("TLC explores all control paths of every unit compiled from TLA+ generated programs (DiceCode) for stack discipline", "model_checking",
         "Exhaustive over the paths of each compiled unit; bounded over programs. Trusts the instructions' stack effects in the specification."),
 "P03": ("TLC checks every instruction, operand, constant and capture of units compiled from TLA+ generated programs (DiceCode), and the cursor's reading of them", "model_checking",
         "Exhaustive over the instructions of each compiled unit; bounded over programs."),
 "P04": (RUN, "model_checking", RNOTE), "P05": (RUN, "model_checking", RNOTE),
 "P06": (RUN + "; acceptance judged by DiceStatic", "model_checking", RNOTE),
 "P07": (RUN, "model_checking", RNOTE), "P08": (RUN, "model_checking", RNOTE),
 "P09": (RUN, "model_checking", RNOTE), "P10": (RUN, "model_checking", RNOTE),
 "P11": (TEXT + " (placement families judged by DiceStatic)", "exploration", TNOTE),
 "P12": (RUN + "; acceptance judged by DiceStatic", "model_checking", RNOTE),
 "P13": (RUN, "model_checking", RNOTE), "P14": (RUN, "model_checking", RNOTE), "P15": (RUN, "model_checking", RNOTE),
 "P16": ("TLA+ generated programs around every encoding limit (DiceLimGen), accepted or refused as DiceLimits says, accepted ones executed by DiceVM against DiceSem", "model_checking",
         "Programs just below, at and beyond each limit; trusts the specification of machine and language."),
 "P17": ("Token sequences of the real lexer (hook) judged by the TLA+ lexer; TLA+ re-layouts of programs judged equal by DiceEquiv", "exploration", TNOTE),
 "P18": ("Syntax trees of the real parser judged by the TLA+ grammar (DiceGrammar/DiceTree) on all short token sequences, random derivations and mutants", "exploration", TNOTE),
 "P19": ("All short texts over a line-ending and width alphabet (TLC enumeration), every offset, judged by DiceLines", "exploration", "Exhaustive to the stated text length, sampled beyond."),
 "P20": ("Diagnostics of TLA+ generated faulty programs, and every error code's rendering, judged by DiceDiag/DiceCatalog", "exploration", TNOTE),
 "P21": ("The real disassembly judged line by line against the code it lists by DiceCode", "exploration", TNOTE),
 "P22": ("TLA+ generated compilation histories (DiceSession) replayed in one process; every result judged equal to a fresh compilation", "model_checking",
         "All histories within the bound over the listed programs; trusts the harness's canonical form of a unit."),
 "P23": (RUN, "model_checking", RNOTE), "P24": (RUN, "model_checking", RNOTE), "P25": (RUN + ", with the shipped prelude against the reference prelude", "model_checking", RNOTE),
 "P26": ("The source range of every node of the real parser's trees judged by DiceSpan against the tokens the TLA+ grammar derives the node from", "exploration", TNOTE),
}
m = {"version": 1,
     "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "cfg(dice_verif)", "enable": "RUSTFLAGS=--cfg dice_verif (only the harness-lex crate, see tools/dvlib/observe.py)",
               "source_commits": ["12068f6HASH"]},
     "checks": [{"property": p, "quick_cmd": "python3 tools/check.py %s --tier quick" % p,
                 "thorough_cmd": "python3 tools/check.py %s --tier thorough" % p,
                 "evidence_file": "evidence/%s.json" % p,
                 "technique": t, "level": l, "level_note": n} for p, (t, l, n) in C.items()],
     "not_applicable": [],
     "notes": "Specification in TLA+ (spec/), checked with TLC; DESIGN.md describes the stages. Known findings and repaired defects: known_findings.txt."}
import subprocess
m["hooks"]["source_commits"] = [subprocess.run(["git", "-C", os.environ.get("DICE_REPO", "/repo"), "rev-parse", "12068f6"], capture_output=True, text=True).stdout.strip()]
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
