"""C21-C24: rules over the font generator's SSA (gocheck/)."""
import json
import os

import common
import rustchecks

RULES = {
    "C21": "every call that creates or changes a file takes its path from the configuration's RustOut field, and every call chain from main to it establishes len(os.Args)==2 and os.Args[1]==\"--write\"; no other mutating call exists",
    "C22": "no call into time, randomness, environment, concurrency or directory order; files read are config.json and the configured inputs; a loop over a map only fills maps, counts, or builds a slice that is sorted by a distinct key before any use",
    "C23": "on every path after a call with an error result the error is tested and its non-nil side panics, exits or returns it; no recover; sort.Search hits are compared with the key; sprite reads come after a bounds check that stops",
    "C24": "block table entries pairwise disjoint with distinct names; the lookup returns only a block whose low <= c <= high was tested; every dispatch range in a Rust font equals one table block",
}
FLOORS = {
    "C21": {"write_sites": 1, "external_call_sites": 40},
    "C22": {"template_executes": 1, "functions": 30, "file_reads": 4},
    "C23": {"error_sites": 8},
    "C24": {"blocks": 30, "lookup_functions": 1},
}


def gocheck():
    tool = common.build_gocheck()
    r = common.sh([tool, common.REPO], env=common.GOENV)
    if r.returncode != 0:
        p = common.sh(["go", "build", "-buildvcs=false", "-o", os.devnull, "."], env=common.GOENV, cwd=os.path.join(common.REPO, "codegen"))
        if p.returncode == 0:
            raise common.Undecided("the font generator could not be analysed: " + r.stderr.strip()[-600:])
        raise common.Broken("codegen-load", "the font generator does not compile: " + p.stderr.strip()[-600:])
    return json.loads(r.stdout)


def run(r):
    rep = gocheck()
    p = r.prop
    for f in rep["findings"] or []:
        if f["prop"] == p:
            r.violation(f["key"], f["where"], f["msg"])
    st = rep["stats"].get(p, {})
    for k, n in FLOORS[p].items():
        if st.get(k, 0) < n:
            r.undecided.append("only %d %s analysed, %d expected at least" % (st.get(k, 0), k, n))
    r.coverage = {"explanation": "Static rule over the type-checked SSA of /repo/codegen: " + RULES[p],
                  "functions_analysed": len(rep["functions"]), "samples": rep["samples"].get(p, [])[:30]}
    r.coverage.update(st)
    if p == "C24":
        mirror(r, rep)
    r.assumptions = ["go/types and go/ssa (x/tools) represent the program faithfully",
                     "text/template and encoding/json have no effect beyond their result"]


def mirror(r, rep):
    """every character range a Rust font dispatches on is one table block"""
    blocks = {(b["Low"], b["High"]): b["Name"] for b in rep["blocks"] or []}
    n = 0
    for f in rustchecks.fonts():
        for u in f["unknown"]:
            r.undecided.append("font %s: %s" % (f["module"], u))
        if f["unknown"]:
            continue
        for d in f["dispatch"]:
            if not d["attempts"]:
                continue
            n += 1
            if (d["lo"], d["hi"]) not in blocks:
                near = ["%s U+%X..U+%X" % (v, k[0], k[1]) for k, v in blocks.items() if k[0] <= d["hi"] and d["lo"] <= k[1]]
                r.violation("mirror:%s:%X-%X" % (f["module"], d["lo"], d["hi"]), "src/fonts/%s.rs" % f["module"],
                            "lookup uses one set of tables for U+%X..U+%X, which is no block of the generator's table (overlapping: %s)" % (d["lo"], d["hi"], ", ".join(near) or "none"))
    r.coverage["rust_dispatch_ranges"] = n
