#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
"C01": ("property-based: random expressions vs independent rational evaluator", "exploration"),
"C02": ("property-based: random operator chains written several ways vs reference parser (metamorphic and differential)", "exploration"),
"C03": ("property-based: mutated and random token sequences vs reference grammar", "exploration"),
"C04": ("property-based: random literals in every radix vs reference reader", "exploration"),
"C05": ("property-based: random values and settings vs reference formatter", "exploration"),
"C06": ("property-based: random values and settings vs reference formatter", "exploration"),
"C07": ("property-based: print and read back round trip", "exploration"),
"C08": ("property-based: random roots vs exact enclosing interval", "exploration"),
"C09": ("fuzzing: random text, flags and settings; oracle: answered, no panic, session alive", "exploration"),
"C10": ("model-based property testing: random settings command histories vs settings model", "exploration"),
"C11": ("differential property testing: one-shot vs inline vs alternate screen, flags vs commands", "exploration"),
"C12": ("model-based property testing: random variable histories vs map model", "exploration"),
"C13": ("model-based property testing: failing inputs inserted, state compared with the model", "exploration"),
"C14": ("model-based property testing: random keystroke sequences vs editor model", "exploration"),
"C15": ("property-based: random parenthesis texts and positions vs stack matching", "exploration"),
"C16": ("model-based property testing: random keystrokes and sizes, screen of a terminal emulator vs window invariant", "exploration"),
"C17": ("model-based property testing: random lines and sizes, screen of a terminal emulator vs wrapping model", "exploration"),
"C18": ("model-based property testing: random history navigation vs history model", "exploration"),
"C19": ("model-based property testing: random multi-session histories vs list model", "exploration"),
"C20": ("model-based property testing: random inputs and capacity changes vs bounded list model", "exploration"),
"C21": ("model-based property testing: random multi-session variable histories vs store model", "exploration"),
"C22": ("model-based property testing: random uses and evictions vs use-tracking model", "exploration"),
"C23": ("model-based property testing: random interleavings of several sessions on one database vs shared model", "exploration"),
"C24": ("fault injection: kill at every database system call of random inputs, recovery compared with the two allowed models", "fault_enumeration"),
"C25": ("fault injection: fail database system calls of random histories, later state compared with the allowed models", "fault_enumeration"),
"C26": ("schedule exploration: stop one session at random database system calls while the other runs, outcome vs serial models", "exploration"),
"C27": ("property-based: exit keys and endings at random editor states, terminal attributes and screen compared with before", "exploration"),
"C28": ("property-based: random inputs without database, file system compared with before, answers vs model", "exploration"),
"C29": ("property-based: random command words and arguments vs command table", "exploration"),
"C30": ("model-based property testing: random directory names and sessions on several stores, files and answers vs store model", "exploration"),
"C31": ("fault injection: stored data of random histories made unusable, refusal and files compared with before, recovery vs store model", "exploration"),
"C32": ("metamorphic property testing: the same keys in random bursts and one at a time, screens and histories compared", "exploration"),
"C33": ("property-based: random spellings of command lines vs reference answers, spoilt ones vs refusal", "exploration"),
"C34": ("property-based: inputs with one fault put there by construction, the message vs what the fault demands", "exploration"),
"C35": ("metamorphic property testing: the same histories in different environments, screens, rows and output compared", "exploration"),
"C36": ("model-based property testing: databases generated from the documented format and databases written by random sessions, read by an independent reader vs store model", "exploration"),
}
CLAIMED = os.environ.get("CLAIMED", open(os.path.join(V, "tools/claimed")).read()).split()
NOTE = "Generated-input search against an independent model on the real binary; finds counterexamples, proves nothing beyond the cases run. Trusts the reference model, the terminal emulator and the Linux pty."
FNOTE = "Every database system call the input makes (write, sync, truncate, unlink, open) is a fault point, enumerated by an LD_PRELOAD shim over generated histories; trusts SQLite's claims about what a completed sync guarantees and the tmpfs file system (process death, not power loss)."
out = {"version": 1, "setup_cmd": "./check.sh setup", "checks": [], "not_applicable": [],
       "notes": "Black box: no hooks in /repo. See DESIGN.md."}
for k, (t, l) in T.items():
    if k in CLAIMED:
        out["checks"].append({"property": k, "quick_cmd": "./check.sh " + k, "thorough_cmd": "./check.sh " + k + " thorough",
            "technique": t, "level": l, "level_note": FNOTE if l == "fault_enumeration" else NOTE})
    else:
        out["not_applicable"].append({"property": k, "reason": "the check for it is not built yet"})
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
