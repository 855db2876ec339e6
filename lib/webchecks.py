"""C19: the web demo. Rust side: provenance of the pointer handed to
JavaScript (MIR of wasm_demo); JavaScript side: bit provenance of every canvas
pixel (js/jscheck.js)."""
import json
import os
import shutil
import tempfile

import common
import rustchecks


def rust_facts():
    tool = common.build_analyzer()
    sysroot = common.sh(["rustc", "+nightly", "--print", "sysroot"]).stdout.strip()
    os.makedirs(common.WORK, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="wasm-", dir=common.WORK)
    try:
        env = dict(rustchecks.ENV)
        out = os.path.join(tmp, "facts.json")
        env.update(BLIT_MODE="wasm", BLIT_OUT=out, LD_LIBRARY_PATH=sysroot + "/lib", RUSTC_WORKSPACE_WRAPPER=tool, CARGO_TARGET_DIR=os.path.join(tmp, "t"))
        # a copy: cargo may want to touch the demo's lock file
        for d in ("src", "wasm_demo"):
            shutil.copytree(os.path.join(common.REPO, d), os.path.join(tmp, "repo", d), ignore=shutil.ignore_patterns("target"))
        for f in ("Cargo.toml", "Cargo.lock"):
            if os.path.exists(os.path.join(common.REPO, f)):
                shutil.copy(os.path.join(common.REPO, f), os.path.join(tmp, "repo", f))
        p = common.sh(["cargo", "+nightly", "check", "--offline", "--lib"], env=env, cwd=os.path.join(tmp, "repo", "wasm_demo"))
        if not os.path.exists(out):
            raise common.Undecided("the web demo crate could not be analysed: " + p.stderr[-600:])
        return json.load(open(out))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(r):
    facts = rust_facts()
    notes = rustchecks.analyse(["misc"])["misc"]["notes"]
    try:
        wpl, width, lines = (int(notes["const " + k]) for k in ("WORDS_PER_LINE", "WIDTH", "LINES"))
    except KeyError:
        r.undecided.append("frame buffer constants not found")
        r.coverage = {"explanation": "frame buffer constants not found"}
        return
    ex = facts["exports"]
    n = dict(exports=len(ex), pointer_facts=0, pixels_proved=0)
    ptrs = [k for k, v in ex.items() if v["output"].startswith("*")]
    painters = [k for k, v in ex.items() if v["paints"]]
    samples = []
    for k in ptrs:
        e = ex[k]
        ret = e["ret"]
        known = [tuple(x) for x in ret if x is not None]
        if len(ret) != 1 or not known:
            r.undecided.append("%s: returned pointer not traced to a static" % k)
            continue
        st, off = known[0]
        at = "wasm_demo/" + e["at"]
        if off != 0:
            r.violation("pointer offset:" + k, at, "`%s` returns a pointer %d bytes into `%s`" % (k, off, st))
            continue
        words = facts["statics"].get(st, {}).get("words", -1)
        if words >= 0 and words != lines * wpl:
            r.violation("buffer size:" + k, at, "`%s` returns `%s`, which has %d words instead of %d" % (k, st, words, lines * wpl))
            continue
        n["pointer_facts"] += 1
        samples.append("%s returns &%s[0]" % (k, st))
        for q in painters:
            pts = ex[q]["paints"]
            if any(p is None for _, p in pts):
                r.undecided.append("%s: a painting call's buffer is not traced to a static" % q)
                continue
            for callee, (s2, o2) in pts:
                if s2 != st or o2 != 0:
                    r.violation("buffer:%s:%s" % (q, callee), "wasm_demo/" + ex[q]["at"], "`%s` paints `%s` with %s but JavaScript is handed `%s`" % (q, s2, callee, st))
                else:
                    n["pointer_facts"] += 1
                    samples.append("%s: %s paints %s" % (q, callee, s2))
    if len(ptrs) != 1:
        r.undecided.append("%d exported functions return a pointer" % len(ptrs))
    if not painters:
        if any(v["other"] for v in ex.values()):
            r.undecided.append("painting calls not found")
        else:
            r.violation("no painting", "wasm_demo/src/lib.rs", "no exported function paints a frame buffer")
    for streaming in (True, False):
        for base in (1048592, 66064) if streaming else (1048592,):
            if len(ptrs) != 1:
                continue
            cfg = dict(dir=os.path.join(common.REPO, "wasm_demo"), lines=lines, wpl=wpl, width=width, base=base, streaming=streaming,
                       exports=sorted(ex), ptr_name=ptrs[0], painters=painters)
            p = common.sh(["node", "--stack-size=4000", os.path.join(common.VERIF, "js", "jscheck.js"), json.dumps(cfg)], timeout=250)
            if p.returncode != 0 or not p.stdout.strip():
                r.undecided.append("script analysis failed: " + p.stderr[-300:])
                continue
            d = json.loads(p.stdout.strip().splitlines()[-1])
            for v in d["violations"]:
                r.violation(v["key"], "wasm_demo/" + v["where"], v["msg"])
            r.undecided += ["script (%s): %s" % ("streaming" if streaming else "fallback", u) for u in d["undecided"]]
            n["pixels_proved"] += d["stats"].get("pixels_proved", 0)
            n["script_runs"] = n.get("script_runs", 0) + 1
            samples += d["samples"][:3]
            r.coverage["exports_used"] = d["stats"].get("exports_used", "")
    r.coverage.update(n)
    r.coverage.update(explanation="Pointer provenance over the MIR of wasm_demo (exported functions, calls followed) and bit provenance over the syntax tree of the page's scripts: loops unrolled by their constant bounds, frame buffer bits symbolic, both cases of every pixel-dependent condition merged. For each of the %dx%d canvas pixels the alpha value is shown to be (its own frame buffer bit ? 0 : 255)." % (width, lines),
                      samples=samples[:30], obligations=n["pointer_facts"] + n["pixels_proved"] + len(r.viol) + len(r.undecided), discharged=n["pointer_facts"] + n["pixels_proved"],
                      checker_cmd="python3 check.py C19", trusted_base=["TypeScript's parser", "js/jscheck.js's semantics of the JavaScript subset and models of canvas, WebAssembly and promises", "rustc MIR"])
    r.level = "proof" if not r.undecided and not r.viol and n["pixels_proved"] else "other"
    r.assumptions = ["wasm memory does not grow between loading and reading", "wasm32 is little-endian", "the wasm binary loaded is a build of the sources (C27 is not claimed)"]
