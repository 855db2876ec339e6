#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
CHECKS = []


def c(prop, technique, level, note):
    CHECKS.append({"property": prop, "quick_cmd": "python3 check.py " + prop, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + prop,
                   "technique": technique, "level": level, "level_note": note})


c("C21", "Go SSA: effect analysis with guard dominance and path provenance", "other",
  "Sound over the call graph of static calls and function references; trusts go/ssa and the list of mutating library calls.")
c("C22", "Go SSA: nondeterminism source and map-order taint rules", "other",
  "Flags every listed source of nondeterminism and each order-dependent map loop; trusts the library list.")
c("C23", "Go SSA: path-sensitive error-handling typestate", "other",
  "Every error result on every path, interprocedurally through returns and checking helpers; exempt calls are listed in the evidence.")
c("C24", "constant table extraction + guard dominance on Go SSA", "other",
  "Exact on the extracted table.")

AI = "abstract interpretation of rustc MIR (relational integer domain with Farkas-checked entailment, trace partitioning, loop invariants, array summaries)"
AIN = "All paths of the current source with every input symbolic; trusts the rustc MIR and the models of core functions listed in DESIGN.md. An obligation the domain cannot decide is reported as undecided, never as a violation."
for _p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08"):
    c(_p, AI, "proof", AIN)
c("C13", AI + "; Go SSA pattern proof for the generator's hash", "proof", AIN)
for _p in ("C14", "C15", "C16", "C18", "C25"):
    c(_p, AI, "proof", AIN)

TB = "Every entry of the constant tables in the current source (values computed by the compiler's constant evaluation) and every reachable path of the lookup functions; trusts the PNG reader and the index/alias file parsers of the check."
_T = "constant tables from the compiler's constant evaluation compared with the font sources + abstract interpretation of the lookup dispatch (MIR)"
for _p in ("C09", "C10", "C11", "C12"):
    c(_p, _T, "proof", TB)
c("C17", "compiler-driver lint over HIR, types and MIR: statics, unsafe, interior mutability, extern crates, lint levels", "proof",
  "Every item and body of the crate as the compiler sees it; trusts rustc's own lint levels and core.")
c("C19", "pointer provenance on wasm_demo's MIR + bit-provenance abstract interpretation of the JavaScript syntax tree", "proof",
  "One symbolic frame buffer bit per canvas pixel; trusts the models of the DOM and WebAssembly calls listed in the evidence.")
c("C20", "type-level witnesses: compile-pass and compile-fail client programs derived from doc/API.md", "proof",
  "Each documented item and misuse is one obligation decided by rustc's type checker; trusts rustc.")

NA = {
    "C26": "regenerating the fonts means running the generator; deciding its whole output text from source is execution under another name. The parts visible statically are C10-C13 and C22-C24.",
    "C27": "equivalence of a committed wasm binary with a build of the sources needs a build and a binary comparison (and is compiler-version dependent); no static rule over the source decides it.",
}


def main():
    props = [json.loads(line)["id"] for line in open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8")]
    claimed = {x["property"] for x in CHECKS}
    na = []
    for p in props:
        if p in claimed:
            continue
        na.append({"property": p, "reason": NA.get(p, "check not built yet")})
    CHECKS.sort(key=lambda x: x["property"])
    m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": CHECKS, "not_applicable": na}
    with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")


main()
