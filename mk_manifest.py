#!/usr/bin/env python3
"""Writes MANIFEST.json (run by hand after changing what is claimed)."""
import json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open("properties.jsonl")]
E2E = "random mview programs (proptest tapes) compiled by rustc, rendered by Leptos, compared with an independent model"
NOTE = "generated-input search on the real macro, compiler and Leptos; trusts rustc, Leptos, and the small instrumentation of vendor/tachys; only what the generator can write is covered (DESIGN.md)"
TECH = {
    "C13": ("random and mutated token streams fed to the macro in process, plus a sample through rustc", "every panic, hang or unparsable expansion on the generated inputs is found; proc-macro2's fallback tokens stand in for the compiler's"),
    "C14": ("generated programs with one construct outside the language; marker tokens traced into the expansion", "covers the listed kinds of invalid input at random places"),
    "C15": ("generated programs with one located mistake, reported spans compared with it; type errors through rustc", "covers the listed kinds of mistakes at random places"),
    "C16": ("metamorphic: one program printed in several layouts and spellings, expanded in several processes", "equality of expansions, in process"),
    "C17": ("generated programs with several located mistakes, each must be reported and nothing else; a sample through rustc", "covers the listed kinds of mistakes in random combinations"),
}
TECH["C20"] = ("random mview programs, valid and with one mistake for the compiler, compiled with all lints; every warning within the view must be one that the user's text deserves", "covers the programs that the generators write, with rustc's lints")
TECH["C21"] = ("random mview programs whose pieces are passed through a generated macro_rules! macro as fragments, compiled, rendered and compared with the model", NOTE)
CLAIM = os.environ.get("CLAIM", "").split() or props
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": [],
    "not_applicable": [],
    "notes": "Each check is ./check.sh <property> <tier>; ./check.sh replay <file> runs a recorded violation again. No hooks in /repo.",
}
for p in props:
    if p not in CLAIM:
        m["not_applicable"].append({"property": p, "reason": "its check is still being built"})
        continue
    tech, note = TECH.get(p, (E2E, NOTE))
    m["checks"].append({
        "property": p,
        "quick_cmd": f"./check.sh {p} quick",
        "thorough_cmd": f"./check.sh {p} thorough",
        "technique": "property-based testing: " + tech,
        "level": "exploration",
        "level_note": note,
    })
json.dump(m, open("MANIFEST.json", "w"), indent=1)
