"""C20: client programs generated from doc/API.md that must (or must not)
type-check against the crate as it is now. Nothing is run."""
import os
import re
import shutil
import tempfile

import common


class DocError(Exception):
    pass


def strip_comments(t):
    return re.sub(r"//[^\n]*", "", t)


def match(t, i):
    """index just after the bracket group opening at i"""
    pairs = {"{": "}", "(": ")", "[": "]"}
    o = t[i]
    depth = 0
    for k in range(i, len(t)):
        if t[k] == o:
            depth += 1
        elif t[k] == pairs[o]:
            depth -= 1
            if depth == 0:
                return k + 1
    raise DocError("unbalanced bracket")


def split_top(t):
    out, d, cur = [], 0, ""
    for c in t:
        if c in "([{<":
            d += 1
        elif c in ")]}>":
            d -= 1
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def items(t):
    """top-level items of a Rust fragment: (head, body or None)"""
    t = t.strip()
    out = []
    i = 0
    while i < len(t):
        m = re.compile(r"\s*").match(t, i)
        i = m.end()
        if i >= len(t):
            break
        k = i
        while k < len(t) and t[k] not in ";{":
            if t[k] in "([":
                k = match(t, k)
            else:
                k += 1
        if k >= len(t):
            raise DocError("unfinished item: " + t[i:i + 40])
        if t[k] == ";":
            out.append((" ".join(t[i:k].split()), None))
            i = k + 1
        else:
            e = match(t, k)
            out.append((" ".join(t[i:k].split()), t[k + 1:e - 1]))
            i = e
    return out


FN = re.compile(r"^(pub )?(const )?fn (\w+)\((.*)\)(?: -> (.+))?$")


def parse(md):
    blocks = re.findall(r"```rust\n(.*?)```", md, re.S)
    out = []
    for b in blocks:
        for head, body in items(strip_comments(b)):
            out += item(head, body, "")
    return out


def item(head, body, mod):
    m = re.match(r"^pub const (\w+): (.+?) = (.+)$", head)
    if m and body is None:
        return [("const", mod, m.group(1), m.group(2), m.group(3))]
    m = re.match(r"^pub type (\w+) = (.+)$", head)
    if m and body is None:
        return [("type", mod, m.group(1), m.group(2))]
    m = FN.match(head)
    if m and m.group(1):
        args = split_top(m.group(4))
        return [("fn", mod, m.group(3), bool(m.group(2)), [a.split(":", 1)[1].strip() for a in args], m.group(5) or "()")]
    m = re.match(r"^pub struct (\w+)$", head)
    if m:
        fields = []
        for f in split_top(body):
            q = re.match(r"^pub (\w+)\s*:\s*(.+)$", f)
            if not q:
                raise DocError("field " + f)
            fields.append((q.group(1), q.group(2)))
        return [("struct", mod, m.group(1), fields)]
    m = re.match(r"^pub enum (\w+)$", head)
    if m:
        vs = []
        for f in split_top(body):
            q = re.match(r"^(\w+)(?:\s*=\s*(\d+))?$", f)
            if not q:
                raise DocError("variant " + f)
            vs.append((q.group(1), q.group(2)))
        return [("enum", mod, m.group(1), vs)]
    m = re.match(r"^impl (\w+)$", head)
    if m:
        out = []
        for h, _ in items(body):
            q = FN.match(h)
            if not q:
                raise DocError("method " + h)
            args = [a.split(":", 1)[1].strip() if ":" in a else {"self": m.group(1), "&self": "&" + m.group(1), "&mut self": "&mut " + m.group(1)}[a] for a in split_top(q.group(4))]
            ret = re.sub(r"\bSelf\b", m.group(1), q.group(5) or "()")
            out.append(("method", mod, m.group(1), q.group(3), bool(q.group(2)), [re.sub(r"\bSelf\b", m.group(1), a) for a in args], ret))
        return out
    m = re.match(r"^impl (\w+<.+>) for (\w+)$", head)
    if m:
        out = []
        for h, _ in items(body):
            q = FN.match(h)
            args = [a.split(":", 1)[1].strip() if ":" in a else "Self" for a in split_top(q.group(4))]
            args = [re.sub(r"\bSelf\b", m.group(2), a) for a in args]
            out.append(("trait", mod, m.group(1), m.group(2), q.group(3), args, re.sub(r"\bSelf\b", m.group(2), q.group(5) or "()")))
        return out
    m = re.match(r"^pub mod (\w+)$", head)
    if m:
        out = []
        for h, b in items(body):
            out += item(h, b, mod + m.group(1) + "::")
        return out
    raise DocError("item not understood: " + head)


def witnesses(api):
    """(name, must compile?, error code, source, what)"""
    out = []
    pre = "#![no_std]\n#![forbid(unsafe_code)]\n#![allow(unused, dead_code)]\n"
    types = {}
    for it in api:
        if it[0] in ("struct", "enum"):
            types[it[2]] = it

    def imports(it):
        # every documented name by its own path, nothing by glob
        text = repr(it)
        names = sorted({n[2] for n in api if n[0] in ("type", "struct", "enum", "const") and re.search(r"\b%s\b" % n[2], text)})
        return "".join("use blitstr::%s;\n" % n for n in names)
    for it in api:
        k = it[0]
        if k == "const":
            _, mod, n, t, e = it
            out.append(("const %s%s" % (mod, n), None, imports(it) + "const A: %s = blitstr::%s%s;\nconst _: () = assert!(A == (%s));\nfn size(_: [u8; blitstr::%s%s as usize]) {}\n" % (t, mod, n, e, mod, n)))
        elif k == "type":
            _, mod, n, t = it
            out.append(("type %s%s" % (mod, n), None, imports(it) + "fn a(x: blitstr::%s%s) -> %s { x }\nfn b(x: &mut %s) -> &mut blitstr::%s%s { x }\n" % (mod, n, t, t, mod, n)))
        elif k == "fn":
            _, mod, n, const, args, ret = it
            src = imports(it) + "const F: fn(%s) -> %s = blitstr::%s%s;\n" % (", ".join(args), ret, mod, n)
            if const:
                src += "const V: %s = blitstr::%s%s();\nstatic S: %s = blitstr::%s%s();\n" % (ret, mod, n, ret, mod, n)
            names = ["a%d" % i for i in range(len(args))]
            src += "fn call(%s) -> %s { blitstr::%s%s(%s) }\n" % (", ".join("%s: %s" % (x, t) for x, t in zip(names, args)), ret, mod, n, ", ".join(names))
            out.append(("fn %s%s" % (mod, n), None, src))
        elif k == "struct":
            _, mod, n, fields = it
            fs = ", ".join(f for f, _ in fields)
            src = imports(it) + "fn build(%s) -> blitstr::%s%s { blitstr::%s%s { %s } }\n" % (", ".join("%s: %s" % f for f in fields), mod, n, mod, n, fs)
            src += "fn take(v: blitstr::%s%s) { let blitstr::%s%s { %s } = v; %s }\n" % (mod, n, mod, n, fs, " ".join("let _: %s = %s;" % (t, f) for f, t in fields))
            src += "fn change(v: &mut blitstr::%s%s%s) { %s }\n" % (mod, n, "".join(", %s: %s" % f for f in fields), " ".join("v.%s = %s;" % (f, f) for f, _ in fields))
            src += "fn plain<T: Copy + Clone + PartialEq + core::fmt::Debug + 'static>() {}\nfn is() { plain::<blitstr::%s%s>() }\nfn both(v: blitstr::%s%s) -> (blitstr::%s%s, blitstr::%s%s) { (v, v) }\nfn eq(v: blitstr::%s%s) -> bool { v == v }\n" % ((mod, n) * 5)
            out.append(("struct %s%s" % (mod, n), None, src))
        elif k == "enum":
            _, mod, n, vs = it
            src = "fn all(v: blitstr::%s%s) -> u8 { match v { %s } }\n" % (mod, n, " ".join("blitstr::%s%s::%s => 0," % (mod, n, v) for v, _ in vs))
            for v, d in vs:
                if d is not None:
                    src += "const _: () = assert!(blitstr::%s%s::%s as usize == %s);\n" % (mod, n, v, d)
            src += "fn plain<T: Copy + Clone + PartialEq + core::fmt::Debug + 'static>() {}\nfn is() { plain::<blitstr::%s%s>() }\nfn both(v: blitstr::%s%s) -> (blitstr::%s%s, blitstr::%s%s) { (v, v) }\n" % ((mod, n) * 4)
            out.append(("enum %s%s" % (mod, n), None, src))
        elif k == "method":
            _, mod, ty, n, const, args, ret = it
            src = imports(it) + "const F: fn(%s) -> %s = blitstr::%s%s::%s;\n" % (", ".join(args), ret, mod, ty, n)
            out.append(("fn %s%s::%s" % (mod, ty, n), None, src))
        elif k == "trait":
            _, mod, tr, ty, n, args, ret = it
            src = imports(it) + "const F: fn(%s) -> %s = <blitstr::%s%s as %s>::%s;\n" % (", ".join(args), ret, mod, ty, tr, n)
            out.append(("impl %s for %s%s" % (tr, mod, ty), None, src))
    # misuse: derived from every documented function that takes a mutable buffer or cursor
    for it in api:
        if it[0] != "fn":
            continue
        _, mod, n, const, args, ret = it
        for i, a in enumerate(args):
            m = re.match(r"^&mut (\w+)$", a)
            if not m:
                continue
            names = ["a%d" % j for j in range(len(args))]

            def call(ty):
                return imports(it) + "fn call(%s) { blitstr::%s%s(%s); }\n" % (", ".join("%s: %s" % (x, ty if j == i else t) for j, (x, t) in enumerate(zip(names, args))), mod, n, ", ".join(names))
            out.append(("%s%s with a shared %s" % (mod, n, m.group(1)), "E0308", call("&" + m.group(1))))
            if m.group(1) == "FrBuf":
                for what, ty in (("one word too short", "&mut [u32; blitstr::FRAME_BUF_SIZE - 1]"), ("one word too long", "&mut [u32; blitstr::FRAME_BUF_SIZE + 1]"), ("an unsized slice", "&mut [u32]"), ("words of another type", "&mut [i32; blitstr::FRAME_BUF_SIZE]")):
                    out.append(("%s%s with a buffer that is %s" % (mod, n, what), "E0308", call(ty)))
    return [(name, code, pre + src) for name, code, src in out]


def compile_all(ws, tmp, rmeta):
    from concurrent.futures import ThreadPoolExecutor

    def one(k):
        name, code, src = ws[k]
        f = os.path.join(tmp, "w%d.rs" % k)
        with open(f, "w", encoding="utf-8") as fh:
            fh.write(src)
        p = common.sh(["rustc", "--edition", "2018", "--crate-type", "lib", "--crate-name", "w%d" % k, "--emit", "metadata", "-A", "warnings", "--out-dir", tmp, "--extern", "blitstr=" + rmeta, f])
        return p.returncode, p.stderr
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, range(len(ws))))


def run(r):
    doc = os.path.join(common.REPO, "doc", "API.md")
    try:
        api = parse(open(doc, encoding="utf-8").read())
    except (OSError, DocError) as e:
        r.undecided.append("doc/API.md not understood: %s" % e)
        r.coverage = {"explanation": "doc/API.md not understood"}
        return
    os.makedirs(common.WORK, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="api-", dir=common.WORK)
    try:
        # the library's interface, as another crate sees it
        p = common.sh(["cargo", "check", "--offline", "--lib"], env={"CARGO_TARGET_DIR": os.path.join(tmp, "t")}, cwd=common.REPO)
        deps = os.path.join(tmp, "t", "debug", "deps")
        rm = [f for f in os.listdir(deps) if f.startswith("libblitstr") and f.endswith(".rmeta")] if os.path.isdir(deps) else []
        if p.returncode != 0 or len(rm) != 1:
            raise common.Broken("build", "the library does not compile: " + p.stderr[-600:])
        ws = witnesses(api)
        # sanity of the method itself: a program that must fail for a reason of its own
        ws.append(("self-test", "E0432", "#![no_std]\nuse blitstr::no_such_item_;\n"))
        res = compile_all(ws, tmp, os.path.join(deps, rm[0]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    good = bad = 0
    samples = []
    for (name, code, src), (rc, err) in zip(ws, res):
        codes = re.findall(r"^error\[(E\d+)\]", err, re.M)
        first = next((x for x in err.splitlines() if x.startswith("error")), "")
        if name == "self-test":
            if rc == 0 or codes != [code]:
                r.undecided.append("the compiler accepts anything")
            continue
        if code is None:
            if rc != 0:
                r.violation("api:" + name, "doc/API.md: " + name, "a client program using documented `%s` as documented is rejected: %s" % (name, first))
            else:
                good += 1
                samples.append("accepted: " + name)
        elif rc == 0:
            r.violation("misuse:" + name, "src/blit.rs", "a program calling %s is accepted" % name)
        elif code not in codes:
            r.undecided.append("%s is rejected, but not for its type: %s" % (name, first))
        else:
            bad += 1
            samples.append("rejected (%s): %s" % (code, name))
    r.coverage = {"explanation": "Witness programs generated from the items of doc/API.md, type-checked (not run) against the crate's current interface: one per documented item that must compile (exact types by coercion to the documented function pointer, exhaustive patterns, constant equality, trait bounds) and, for each mutable parameter of a documented function, programs that must be rejected with a type mismatch.",
                  "documented_items": len(api), "programs_accepted": good, "programs_rejected": bad, "samples": samples[:60],
                  "obligations": good + bad + len(r.viol) + len(r.undecided), "discharged": good + bad, "checker_cmd": "python3 check.py C20",
                  "trusted_base": ["rustc's type checker", "the parser of doc/API.md's code block (lib/apichecks.py)"]}
    r.level = "proof" if not r.undecided and not r.viol and good > 10 and bad > 5 else "other"
