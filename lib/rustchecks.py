"""Checks over the abstract interpreter's summaries of the library's MIR
(analyzer/): C01-C08, C13-C16, C18, C25."""
import json
import os
import shutil
import subprocess
import tempfile
import time

import common

STYLES = ["Small", "Regular", "Bold"]
PAINT = ["paint:0", "paint:1", "paint:2"]
MODES = {
    "C01": ["clear"] + PAINT, "C02": PAINT, "C03": ["clear"], "C04": PAINT, "C05": PAINT, "C06": PAINT, "C07": PAINT,
    "C08": PAINT, "C13": ["misc"], "C14": ["misc"], "C15": ["misc"], "C16": ["misc"] + PAINT, "C17": ["misc"], "C18": ["misc"], "C25": ["misc"],
}
RULES = {
    "C01": "each MIR assertion, slice, index, shift and library panic condition reachable from paint_str and clear_region is entailed by the abstract state of every path (linear integer constraints, all arguments unconstrained), and every loop has a strictly decreasing bound",
    "C02": "for each path of one painting step and each store into the frame buffer, the symbolic pixel (x, y) outside the clip rectangle keeps its value (bit-level evaluation of the store log under the path's constraints)",
    "C03": "for each path of clear_region, pixel (x, y) is 1 if inside the rectangle and its old value otherwise, x and y symbolic, rectangle symbolic",
    "C04": "for each path, the change of every pixel and the cursor's new coordinates mention no frame buffer content",
    "C05": "for each path of one painting step, the change of symbolic pixel (x, y) equals the glyph record's bitmap bit that the layout law assigns to it",
    "C06": "for each path of one painting step, cursor x, y and line height after the step equal the law's terms, as linear terms under the path's constraints",
    "C07": "for each path of one painting step, the text position advances by exactly the bytes the law consumes, and the loop ends only where the law ends; a step that may paint nothing leaves every pixel alone",
    "C08": "on each path the fonts consulted and the glyph record used are those the lookup order prescribes for the path's first character",
    "C13": "the loop's transfer function on the running hash, its initial value and the result term have the same normal form as Murmur3's; the number of characters and bytes hashed follow from the loop's invariants",
    "C14": "each path's corner terms equal minimum and maximum of the given coordinates (constructors), or the documented constants",
    "C15": "each path of both conversions, numbers symbolic, gives the documented pairing",
    "C16": "the hint equals the font's maximum height; every glyph record is at most that high; after a line break every path's new y lies strictly below each painted glyph's last row (inductive step over one line)",
    "C17": "the crate links only to core; no static is mutable or has interior mutability, no type has; every module's lint level for unsafe_code is forbid; no foreign item, assembly, thread local, address-to-integer conversion or machine-dependent call in any function body",
    "C18": "the call sequence of every path of each demo screen starts with clearing the full screen, no frame buffer store happens outside of paint_str and clear_region, and no argument or branch mentions frame buffer contents",
    "C25": "constant and type facts from the compiler, and the value new_fr_buf returns",
}
ENV = {
    "RUST_MIN_STACK": "1073741824",
    "RUSTFLAGS": "-Zmir-opt-level=0 -Coverflow-checks=on",
    # an allocator setting that suits the analyser, worth a third of its time
    "GLIBC_TUNABLES": "glibc.malloc.tcache_count=60000:glibc.malloc.tcache_max=1032:glibc.malloc.trim_threshold=4000000000:glibc.malloc.top_pad=64000000:glibc.malloc.arena_max=1",
}
LIMIT = 560


def repo_digest():
    return common.digest([os.path.join(common.REPO, "src"), os.path.join(common.REPO, "Cargo.toml"), os.path.join(common.VERIF, "analyzer"), os.path.abspath(__file__)])


def merge(a, b):
    for k in ("violations", "undecided"):
        seen = {(v["prop"], v["key"]) for v in a[k]}
        a[k] += [v for v in b[k] if (v["prop"], v["key"]) not in seen]
    for k, n in b["coverage"].items():
        a["coverage"][k] = a["coverage"].get(k, 0) + n
    return a


def analyse(modes):
    """Analyse /repo's current sources; results are kept by digest of everything they depend on."""
    d = os.path.join(common.WORK, "results", repo_digest()[:32])
    os.makedirs(d, exist_ok=True)
    missing = [m for m in modes if not os.path.exists(os.path.join(d, m.replace(":", "-") + ".json"))]
    if missing:
        tool = common.build_analyzer()
        sysroot = common.sh(["rustc", "+nightly", "--print", "sysroot"]).stdout.strip()
        tmp = tempfile.mkdtemp(prefix="an-", dir=common.WORK)
        procs = []
        cpus = max(1, len(os.sched_getaffinity(0)))
        nforks = max(1, min(8, -(-cpus // max(1, sum(m.startswith("paint") for m in missing)))))
        t0 = time.time()
        for m in missing:
            n = m.replace(":", "-")
            env = dict(os.environ)
            env.setdefault("HOME", "/root")
            env.update(ENV)
            env.update(BLIT_MODE=m, BLIT_OUT=os.path.join(tmp, n + ".json"), BLIT_FORKS=str(nforks), BLIT_SECONDS=str(LIMIT - 60),
                       LD_LIBRARY_PATH=sysroot + "/lib", RUSTC_WORKSPACE_WRAPPER=tool, CARGO_TARGET_DIR=os.path.join(tmp, "t-" + n))
            log = open(os.path.join(tmp, n + ".log"), "w")
            procs.append((m, n, subprocess.Popen(["cargo", "+nightly", "check", "--offline", "--lib"], cwd=common.REPO, env=env, stdout=log, stderr=log, start_new_session=True)))
        try:
            for m, n, p in procs:
                why = None
                try:
                    if p.wait(timeout=max(5, LIMIT - (time.time() - t0))) != 0:
                        why = "the analyser failed: " + open(os.path.join(tmp, n + ".log")).read()[-600:]
                except subprocess.TimeoutExpired:
                    os.killpg(p.pid, 9)
                    p.wait()
                    why = "time limit"
                f = os.path.join(tmp, n + ".json")
                res = None
                if os.path.exists(f):
                    try:
                        res = json.load(open(f))
                        for k in sorted(os.listdir(tmp)):
                            if k.startswith(n + ".json.") and k[-1].isdigit():
                                merge(res, json.load(open(os.path.join(tmp, k))))
                        if os.path.exists(f + ".fonts"):
                            os.replace(f + ".fonts", os.path.join(d, "fonts.json"))
                    except ValueError as e:
                        why = "unreadable result: %s" % e
                if res is None and why and "time limit" not in why:
                    plain = common.sh(["cargo", "+nightly", "check", "--offline", "--lib"], env={"CARGO_TARGET_DIR": os.path.join(tmp, "t-plain")}, cwd=common.REPO)
                    if plain.returncode != 0:
                        raise common.Broken("build", "the library does not compile: " + plain.stderr[-600:])
                if res is None:
                    res = {"violations": [], "undecided": [], "coverage": {}, "notes": {}, "obligations": [], "functions": {}, "loops": {}}
                    why = why or "no result"
                if why:
                    res["failed"] = why
                o = os.path.join(d, n + ".json")
                json.dump(res, open(o + ".tmp", "w"))
                os.replace(o + ".tmp", o)
        finally:
            for _, _, p in procs:
                if p.poll() is None:
                    os.killpg(p.pid, 9)
            shutil.rmtree(tmp, ignore_errors=True)
    return {m: json.load(open(os.path.join(d, m.replace(":", "-") + ".json"))) for m in modes}


def fonts():
    """Font tables as the compiler sees them."""
    analyse(["misc"])
    p = os.path.join(common.WORK, "results", repo_digest()[:32], "fonts.json")
    if not os.path.exists(p):
        raise common.Undecided("the font tables could not be read")
    return json.load(open(p))


def run(r):
    p = r.prop
    res = analyse(MODES[p])
    cov = {}
    obligations = 0
    samples = []
    fns = set()
    loops = {}
    for m, d in res.items():
        for v in d["violations"]:
            if v["prop"] == p:
                r.violation(v["key"], v["where"], v["msg"])
        for u in d["undecided"]:
            if u["prop"] == p:
                r.undecided.append("%s [%s] %s" % (m, u["key"], u["msg"]))
        if d.get("failed"):
            r.undecided.append("%s: %s" % (m, d["failed"]))
        for k, n in d["coverage"].items():
            cov[k] = cov.get(k, 0) + n
        fns.update(d["functions"])
        loops.update(d["loops"])
        if p == "C01":
            for at, kind, status, n, msg in d["obligations"]:
                samples.append("%s: %s (%s on %d abstract states, %s)" % (at, kind, status.lower(), n, m))
    keys = COUNTS[p]
    obligations = sum(cov.get(k, 0) for k in keys)
    r.coverage = {
        "explanation": "Abstract interpretation of the compiler's MIR of the current sources. " + RULES[p],
        "analysed": {k: cov[k] for k in sorted(cov)},
        "functions_analysed": sorted(fns),
        "loops": loops,
        "samples": samples[:60],
        "modes": list(res),
    }
    if p == "C13":
        import gochecks
        rep = gochecks.gocheck()
        for f in rep["findings"] or []:
            if f["prop"] == p:
                r.violation(f["key"], f["where"], f["msg"])
        st = rep["stats"].get(p, {})
        r.coverage["generator"] = st
        r.coverage["generator_samples"] = rep["samples"].get(p, [])
        obligations += sum(st.values())
    discharged = obligations
    obligations += len(r.viol) + len(r.undecided)
    r.coverage.update(obligations=obligations, discharged=discharged, checker_cmd="python3 check.py " + p,
                      trusted_base=["rustc's MIR and constant evaluation (rustc_public)", "the analyser's models of core library functions (analyzer/src/models.rs)",
                                    "the analyser's linear arithmetic (exact, rational simplex with integer splitting)", "the law as written in analyzer/src/spec.rs and misc.rs"])
    r.level = "proof" if not r.undecided and not r.viol and obligations else "other"
    r.assumptions = ["usize has 64 bits", "strings are at most isize::MAX bytes long (a Rust guarantee)"]


COUNTS = {
    "C01": ["obligations proved", "iterations bounded by the text length"],
    "C02": ["pixel cases proved (never outside the glyph)", "pixel cases proved (unchanged)"],
    "C03": ["pixel cases proved"],
    "C04": ["pixel cases proved (inside the glyph)", "pixel cases proved (never outside the glyph)", "pixel cases proved (unchanged)", "step leaves"],
    "C05": ["pixel cases proved (inside the glyph)", "pixel cases proved (never outside the glyph)", "pixel cases proved (unchanged)"],
    "C06": ["step equations proved"],
    "C07": ["step equations proved", "exits justified", "pixel cases proved (unchanged)"],
    "C08": ["step leaves"],
    "C13": ["C13: facts proved", "hash results equal Murmur3's", "hash step equals Murmur3's"],
    "C14": ["C14: facts proved"],
    "C15": ["C15: facts proved"],
    "C16": ["C16: facts proved", "records within their font's maximum height", "line spacing facts proved"],
    "C17": ["modules", "function bodies", "calls", "types", "statics", "crates linked"],
    "C18": ["C18: facts proved", "clearing and painting calls of demo screens"],
    "C25": ["geometry facts proved", "functions taking a frame buffer"],
}
