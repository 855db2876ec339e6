"""Shared by all checks: results, evidence, building of the analysers."""
import hashlib
import json
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.path.join(VERIF, ".work")
EVID = os.path.join(VERIF, "evidence")


class Undecided(Exception):
    """The tree builds but is outside of what the check understands."""


class Broken(Exception):
    def __init__(self, key, msg):
        super().__init__(msg)
        self.key = key


def known():
    """Findings recorded and not repaired: {(property, key): text}."""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.strip()
            if line.startswith("finding: "):
                # finding: property=<id> key=<key> | <text>
                head, _, text = line[len("finding: "):].partition(" | ")
                kv = dict(f.split("=", 1) for f in head.split(" ", 1))
                out[(kv["property"], kv["key"])] = text
    return out


class Result:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.viol = []
        self.level = "other"
        self.coverage = {}
        self.assumptions = []
        self.undecided = []

    def violation(self, key, where, msg):
        if not any(v[0] == key for v in self.viol):
            self.viol.append((key, where, msg))

    def finish(self, wall):
        kn = known()
        new = []
        for key, where, msg in self.viol:
            if (self.prop, key) in kn:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, kn[(self.prop, key)]))
            else:
                new.append((key, where, msg))
        os.makedirs(EVID, exist_ok=True)
        cov = dict(self.coverage)
        if not cov:
            cov = {"explanation": "no analysis was possible: " + "; ".join([v[2] for v in self.viol] + self.undecided)}
        if self.level == "proof" and "obligations" not in cov:
            cov.update(obligations=len(self.viol), discharged=0, checker_cmd="python3 check.py " + self.prop, trusted_base=["-"])
        if self.level == "other" and "explanation" not in cov:
            cov["explanation"] = "see fields"
        if self.undecided:
            cov["undecided"] = self.undecided[:40]
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(wall, 3), "violations": len(new)}
        with open(os.path.join(EVID, self.prop + ".json"), "w", encoding="utf-8") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
            f.write("\n")
        for u in self.undecided[:10]:
            print("UNDECIDED %s: %s" % (self.prop, u))
        if new:
            rp = os.path.join(EVID, self.prop + ".violation.txt")
            with open(rp, "w", encoding="utf-8") as f:
                for key, where, msg in new:
                    f.write("key: %s\nwhere: %s\n%s\n\n" % (key, where, msg))
            for key, where, msg in new[:12]:
                print("%s: [%s] %s" % (where, key, msg))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            sys.stdout.flush()
            sys.exit(1)
        print("OK property=%s %s" % (self.prop, json.dumps({k: v for k, v in cov.items() if isinstance(v, (int, bool))})))
        sys.exit(0)


def digest(paths):
    h = hashlib.sha256()
    for root in paths:
        if os.path.isfile(root):
            files = [root]
        else:
            files = []
            for d, ds, fs in os.walk(root):
                ds[:] = sorted(x for x in ds if x not in ("target", ".git", ".work", "node_modules"))
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            h.update(f.encode())
            with open(f, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()


def sh(cmd, env=None, cwd=None, timeout=800):
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    if env:
        e.update(env)
    return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True)


def build_once(name, sources, build):
    """Build an analyser of ours unless its sources are unchanged."""
    os.makedirs(WORK, exist_ok=True)
    stamp = os.path.join(WORK, name + ".stamp")
    d = digest(sources)
    if os.path.exists(stamp) and open(stamp).read() == d:
        return
    build()
    with open(stamp, "w") as f:
        f.write(d)


GOENV = {"GOFLAGS": "-mod=mod", "GOPROXY": "off", "GOSUMDB": "off", "GOTOOLCHAIN": "local", "GOWORK": "off"}


def build_gocheck():
    src = os.path.join(VERIF, "gocheck")
    out = os.path.join(WORK, "gocheck")

    def b():
        r = sh(["go", "build", "-buildvcs=false", "-o", out, "."], env=GOENV, cwd=src)
        if r.returncode != 0:
            sys.stderr.write(r.stderr)
            sys.exit(4)
    if not os.path.exists(out) and os.path.exists(os.path.join(WORK, "gocheck.stamp")):
        os.remove(os.path.join(WORK, "gocheck.stamp"))
    build_once("gocheck", [src], b)
    return out


def build_analyzer():
    src = os.path.join(VERIF, "analyzer")
    tgt = os.path.join(WORK, "analyzer-target")
    out = os.path.join(tgt, "release", "blitcheck")

    def b():
        r = sh(["cargo", "+nightly", "build", "--release", "--offline", "--quiet"], env={"CARGO_TARGET_DIR": tgt}, cwd=src)
        if r.returncode != 0:
            sys.stderr.write(r.stderr[-4000:])
            sys.exit(4)
    if not os.path.exists(out) and os.path.exists(os.path.join(WORK, "analyzer.stamp")):
        os.remove(os.path.join(WORK, "analyzer.stamp"))
    build_once("analyzer", [src], b)
    return out
