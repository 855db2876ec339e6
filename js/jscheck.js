// C19, JavaScript side: abstract interpretation of the web page's scripts over
// a bit-provenance domain. Wasm memory is never concrete: each bit of the frame
// buffer is an atom, numbers the script computes from constants are constants,
// and a value that depends on one atom is kept as its two cases. The result is,
// for every canvas pixel, which frame buffer bit it shows and how.
"use strict";
const ts = require(process.env.TS_MODULE || "/opt/veriftools/node/node_modules/typescript");
const fs = require("fs");
const path = require("path");

const cfg = JSON.parse(process.argv[2]);
// cfg: {dir, lines, wpl, width, base, streaming, exports:[names]}
const FBSIZE = cfg.lines * cfg.wpl * 4;

class Unsupported extends Error {}
class Thrown extends Error { constructor(v, at) { super("throw"); this.v = v; this.at = at; } }
let steps = 0;
const STEPS = 400e6;
let curLine = 0, curFile = "";

// ---------------------------------------------------------------- values
// unknown; with ev: a function of the frame buffer bits `at` that no bitwise form is known of
class Top { constructor(w) { this.why = w; this.ev = null; this.at = null; } }
// atoms from PSEUDO on stand for the truth of such a value
const PSEUDO = 2 ** 26, pseudo = [], pseudoAt = new Map();
class NoEv extends Error {}
const holds = (atom, val) => atom >= PSEUDO ? !!evalAt(pseudo[atom - PSEUDO], val) : val(atom);
function evalAt(v, val) { // the value for given frame buffer bits
    if (v instanceof S) return holds(v.atom, val) ? v.hi : v.lo;
    if (v instanceof Top || (v instanceof BV && v.ev)) { if (!v.ev) throw new NoEv(); return v.ev(val); }
    if (v instanceof BV) return bvNum(v.bits, v.signed, b => { if (b === -1) throw new NoEv(); return b < 2 ? b : holds((b >> 1) - 1, val) !== !!(b & 1); });
    return v;
}
function atomsOf(v, r) { // false if not a known function of few bits
    const add = a => a >= PSEUDO ? atomsOf(pseudo[a - PSEUDO], r) : (r.add(a), r.size <= 64);
    if (v instanceof S) return add(v.atom);
    if (v instanceof Top || (v instanceof BV && v.ev)) { if (!v.ev) return false; for (const a of v.at) if (!add(a)) return false; return true; }
    if (v instanceof BV) return v.bits.every(b => b !== -1 && (b < 2 || add((b >> 1) - 1)));
    return true;
}
function withEv(t, args, f) { // t, known to be f(args)
    const at = new Set();
    if (args.every(a => !(a instanceof Obj || a instanceof Fn) && atomsOf(a, at))) { t.at = at; t.ev = val => f(...args.map(a => evalAt(a, val))); }
    return t;
}
const top = (why, args, f) => withEv(new Top(why), args, f);
function literal(v) { // of the truth of v, or null
    if (!atomsOf(v, new Set())) return null;
    if (!pseudoAt.has(v)) { pseudoAt.set(v, PSEUDO + pseudo.length); pseudo.push(v); }
    return 2 * (pseudoAt.get(v) + 1);
}
// literal: 0, 1, or 2*(atom+1)+neg; -1 unknown
class BV { constructor(bits, signed) { this.bits = bits; this.signed = signed; } }
class S { constructor(atom, hi, lo) { this.atom = atom; this.hi = hi; this.lo = lo; } } // atom set -> hi
const sym = v => v instanceof Top || v instanceof BV || v instanceof S;
function mkS(atom, hi, lo) { return Object.is(hi, lo) ? hi : new S(atom, hi, lo); }
function bvNum(bits, signed, val) { // evaluate with literal -> bit function
    let n = 0;
    for (let i = 0; i < 32; i++) { if (val(bits[i])) n += (i === 31 && signed) ? -2147483648 : Math.pow(2, i); }
    return n;
}
function norm(v) {
    if (!(v instanceof BV)) return v;
    let atom = -1;
    for (let i = 0; i < 32; i++) {
        const b = v.bits[i];
        if (b === -1) return v;
        if (b > 1) { const a = (b >> 1) - 1; if (atom === -1) atom = a; else if (atom !== a) return v; }
    }
    if (atom === -1) return bvNum(v.bits, v.signed, b => b);
    const f = x => bvNum(v.bits, v.signed, b => b > 1 ? ((b & 1) ? !x : x) : b);
    return mkS(atom, f(true), f(false));
}
function bitsOf(v) { // 32 literals of ToInt32(v)
    if (v instanceof BV) return v.bits;
    if (v instanceof S) {
        const a = bitsOf(v.hi), b = bitsOf(v.lo), r = new Array(32);
        for (let i = 0; i < 32; i++) r[i] = a[i] === b[i] ? a[i] : (2 * (v.atom + 1) + (a[i] === 1 ? 0 : 1));
        return r;
    }
    if (v instanceof Top) return new Array(32).fill(-1);
    if (typeof v === "object" && v !== null || typeof v === "function") throw new Unsupported("bit operation on an object");
    const n = v | 0, r = new Array(32);
    for (let i = 0; i < 32; i++) r[i] = (n >> i) & 1;
    return r;
}
const lnot = b => b === -1 ? -1 : b < 2 ? 1 - b : b ^ 1;
function land(a, b) {
    if (a === 0 || b === 0) return 0;
    if (a === 1) return b;
    if (b === 1) return a;
    if (a === b) return a;
    if (a === (b ^ 1) && a > 1) return 0;
    return -1;
}
const lor = (a, b) => lnot(land(lnot(a), lnot(b)));
function lxor(a, b) {
    if (a === -1 || b === -1) return -1;
    if (a < 2) return a ? lnot(b) : b;
    if (b < 2) return b ? lnot(a) : a;
    if (a === b) return 0;
    if (a === (b ^ 1)) return 1;
    return -1;
}
function under(v, lit) { // v given that the literal holds
    if (v instanceof S && v.atom === (lit >> 1) - 1) return (lit & 1) ? v.lo : v.hi;
    if (v instanceof BV) {
        const a = (lit >> 1), val = (lit & 1) ? 0 : 1;
        let hit = false;
        for (let i = 0; i < 32; i++) if (v.bits[i] > 1 && (v.bits[i] >> 1) === a) hit = true;
        if (!hit) return v;
        return norm(new BV(v.bits.map(b => b > 1 && (b >> 1) === a ? ((b & 1) ? 1 - val : val) : b), v.signed));
    }
    return v;
}
function ite(lit, x, y) {
    x = under(x, lit); y = under(y, lit ^ 1);
    if (Object.is(x, y)) return x;
    if (sym(x) || sym(y)) {
        if ((x instanceof BV || typeof x === "number") && (y instanceof BV || typeof y === "number")) {
            const a = bitsOf(x), b = bitsOf(y), r = new Array(32);
            for (let i = 0; i < 32; i++) r[i] = a[i] === b[i] ? a[i] : lor(land(lit, a[i]), land(lit ^ 1, b[i]));
            if (!r.includes(-1)) return norm(new BV(r, true));
        }
        const c = (lit & 1) ? new S((lit >> 1) - 1, false, true) : new S((lit >> 1) - 1, true, false);
        return top("merge of two symbolic values", [c, x, y], (c, x, y) => c ? x : y);
    }
    return (lit & 1) ? mkS((lit >> 1) - 1, y, x) : mkS((lit >> 1) - 1, x, y);
}
// truth of a value: true, false, or a literal number (>1)
function truth(v) {
    v = norm(v);
    if (v instanceof S) {
        const a = !!v.hi, b = !!v.lo;
        return a === b ? a : 2 * (v.atom + 1) + (a ? 0 : 1);
    }
    if (v instanceof BV) {
        if (v.bits.includes(1)) return true;
        return literal(v);
    }
    if (v instanceof Top) return literal(v);
    if (v instanceof Obj || v instanceof Fn) return true;
    return !!v;
}
class Obj { constructor(cls) { this.cls = cls || "Object"; this.p = new Map(); this.get = null; this.set = null; } }
class Fn { constructor(call, name) { this.call = call; this.name = name; this.p = new Map(); this.construct = null; } }
const nat = (name, f) => new Fn(f, name);
function obj(o, cls) { const r = new Obj(cls); for (const k in o) r.p.set(k, o[k]); return r; }
class Arr extends Obj { constructor(a) { super("Array"); this.a = a; } }
class Prom extends Obj { constructor(v) { super("Promise"); this.v = v; } }

// ---------------------------------------------------------------- memory
// buffers: byte stores
class WasmBuf {
    constructor() { this.len = 1 << 24; }
    byte(a) { // 8 literals
        const r = a - cfg.base, o = new Array(8);
        if (r < 0 || r >= FBSIZE) return o.fill(-1);
        for (let i = 0; i < 8; i++) o[i] = 2 * (r * 8 + i + 1);
        reads++;
        if (!initCalled) readBeforeInit = true;
        return o;
    }
    write() { throw new Unsupported("the script writes to wasm memory"); }
}
class LocalBuf {
    constructor(n) { this.len = n; this.d = new Map(); this.line = null; }
    byte(a) {
        const v = this.d.get(a);
        const b = bitsOf(v === undefined ? 0 : v);
        return b.slice(0, 8);
    }
    value(a) { const v = this.d.get(a); return v === undefined ? 0 : v; }
    write(a, v) {
        if (a < 0 || a >= this.len) return;
        this.d.set(a, guard(v, this.d.has(a) ? this.d.get(a) : 0));
        this.line && this.line.set(a, curFile + ":" + curLine);
    }
}
class View extends Obj {
    constructor(kind, buf, off, len) { super(kind); this.kind = kind; this.buf = buf; this.off = off; this.len = len; this.w = width(kind); }
    read(i) {
        if (!Number.isInteger(i) || i < 0 || i >= this.len) return undefined;
        const a = this.off + i * this.w;
        if (this.w === 1 && this.buf instanceof LocalBuf) return this.buf.value(a);
        return load(this.buf, a, this.w, this.kind.startsWith("Int"), true);
    }
    write(i, v) {
        if (!Number.isInteger(i) || i < 0 || i >= this.len) return;
        const a = this.off + i * this.w;
        if (this.w === 1) {
            if (this.kind === "Uint8ClampedArray") v = map1(v, n => { n = Number(n); return Number.isNaN(n) ? 0 : Math.max(0, Math.min(255, Math.round(n))); });
            else v = map1(v, n => Number(n) & 255, true);
            this.buf.write(a, v);
        } else {
            const b = bitsOf(norm(v));
            for (let k = 0; k < this.w; k++) this.buf.write(a + k, norm(new BV(b.slice(8 * k, 8 * k + 8).concat(new Array(24).fill(0)), false)));
        }
    }
}
function map1(v, f, low8) {
    v = norm(v);
    if (v instanceof S) return mkS(v.atom, f(v.hi), f(v.lo));
    if (v instanceof BV) {
        if (low8 || v.bits.slice(8).every(b => b === 0)) return norm(new BV(v.bits.slice(0, 8).concat(new Array(24).fill(0)), false));
        return top("clamped", [v], f);
    }
    if (v instanceof Top) return top(v.why, [v], f);
    return f(v);
}
function load(buf, a, w, signed, le) {
    let bits = [];
    for (let k = 0; k < w; k++) {
        const by = buf.byte(a + (le ? k : w - 1 - k));
        bits = bits.concat(by);
    }
    while (bits.length < 32) bits.push(signed ? bits[w * 8 - 1] : 0);
    return norm(new BV(bits, signed));
}
const width = k => /8/.test(k) ? 1 : /16/.test(k) ? 2 : 4;

// path condition of symbolic branches
const pc = [];
function guard(v, old) {
    for (let i = pc.length - 1; i >= 0; i--) v = ite(pc[i], v, old);
    return v;
}
function assume(v) {
    if (pc.length && sym(v)) for (const l of pc) v = under(v, l);
    return v;
}

// ---------------------------------------------------------------- operators
function binop(op, a, b) {
    a = norm(a); b = norm(b);
    if (!sym(a) && !sym(b)) return conc(op, a, b);
    const c = (x, y) => conc(op, x, y);
    if ("&|^<<>>>".includes(op)) { a = whole(a, false); b = whole(b, false); }
    if (a instanceof Top || b instanceof Top) return top(a.why || b.why, [a, b], c);
    const bv = (r, signed) => { const v = norm(new BV(r, signed)); return v instanceof BV && r.includes(-1) ? withEv(v, [a, b], c) : v; };
    switch (op) {
        case "&": case "|": case "^": {
            const x = bitsOf(a), y = bitsOf(b), f = op === "&" ? land : op === "|" ? lor : lxor, r = new Array(32);
            for (let i = 0; i < 32; i++) r[i] = f(x[i], y[i]);
            return bv(r, true);
        }
        case "<<": case ">>": case ">>>": {
            if (sym(b)) return top("symbolic shift", [a, b], c);
            const k = b & 31, x = bitsOf(a), r = new Array(32);
            for (let i = 0; i < 32; i++) {
                if (op === "<<") r[i] = i - k >= 0 ? x[i - k] : 0;
                else r[i] = i + k < 32 ? x[i + k] : op === ">>" ? x[31] : 0;
            }
            return bv(r, op !== ">>>");
        }
    }
    const one = v => v instanceof S || !sym(v);
    if (one(a) && one(b)) {
        const at = a instanceof S ? a.atom : b.atom;
        if (!(a instanceof S && b instanceof S && a.atom !== b.atom)) {
            const h = v => v instanceof S ? v.hi : v, l = v => v instanceof S ? v.lo : v;
            return mkS(at, conc(op, h(a), h(b)), conc(op, l(a), l(b)));
        }
    }
    // multi-bit values
    if (op === "+") {
        const x = bitsOf(a), y = bitsOf(b);
        const pos = v => v instanceof BV ? !v.signed || v.bits[31] === 0 : v instanceof S ? v.hi >= 0 && v.lo >= 0 : v >= 0;
        if (pos(a) && pos(b) && x.every((_, i) => x[i] === 0 || y[i] === 0)) return norm(new BV(x.map((_, i) => x[i] === 0 ? y[i] : x[i]), false));
    }
    if (op === "*" || op === "/") {
        const [v, k] = sym(a) ? [a, b] : [b, a];
        if (!sym(k) && k > 0 && Number.isInteger(Math.log2(k)) && v instanceof BV && !v.signed) {
            const s = Math.log2(k);
            if (op === "*" && v.bits.slice(32 - s).every(x => x === 0)) return norm(new BV(new Array(s).fill(0).concat(v.bits.slice(0, 32 - s)), false));
            if (op === "/" && v === a && v.bits.slice(0, s).every(x => x === 0)) return norm(new BV(v.bits.slice(s).concat(new Array(s).fill(0)), false));
        }
        if (op === "/" && v === a && v instanceof BV && !v.ev && !sym(k) && k >= 1 && k <= 2 ** 31 && Number.isInteger(Math.log2(k))) {
            const r = top("a fraction", [a, b], c);
            r.frac = { v, k: Math.log2(k) };
            return r;
        }
    }
    if (op === "%" && !sym(b) && b > 0 && Number.isInteger(Math.log2(b)) && a instanceof BV && !a.signed) {
        const s = Math.log2(b);
        return norm(new BV(a.bits.map((x, i) => i < s ? x : 0), false));
    }
    return top("operator " + op + " on symbolic values", [a, b], c);
}
// v / 2^k rounded: down, or towards zero (the same for a word that is not negative)
function whole(v, floor) {
    const f = v instanceof Top && v.frac;
    if (!f || (f.v.signed && !floor)) return v;
    const sign = f.v.signed ? f.v.bits[31] : 0;
    return norm(new BV(f.v.bits.slice(f.k).concat(new Array(f.k).fill(sign)), f.v.signed));
}
function conc(op, a, b) {
    const o = v => v instanceof Obj || v instanceof Fn;
    if (o(a) || o(b)) {
        if (op === "===" || op === "==") return a === b;
        if (op === "!==" || op === "!=") return a !== b;
        if (op === "in") return hasProp(b, a);
        if (op === "instanceof") return o(a) && b instanceof Fn && (a.cls === b.name || (b.name === "Object"));
        if (op === "+") return String(o(a) ? "[object]" : a) + String(o(b) ? "[object]" : b);
        if (op === ",") return b;
        throw new Unsupported("operator " + op + " on an object");
    }
    switch (op) {
        case "+": return a + b; case "-": return a - b; case "*": return a * b; case "/": return a / b; case "%": return a % b; case "**": return a ** b;
        case "<": return a < b; case ">": return a > b; case "<=": return a <= b; case ">=": return a >= b;
        case "==": return a == b; case "!=": return a != b; case "===": return a === b; case "!==": return a !== b;
        case "&": return a & b; case "|": return a | b; case "^": return a ^ b; case "<<": return a << b; case ">>": return a >> b; case ">>>": return a >>> b;
    }
    throw new Unsupported("operator " + op);
}
function unop(op, v) {
    v = norm(v);
    const f = x => { switch (op) { case "-": return -x; case "+": return +x; case "~": return ~x; case "!": return !x; } throw new Unsupported("operator " + op); };
    if (v instanceof Top) return top(v.why, [v], f);
    if (v instanceof S) return mkS(v.atom, f(v.hi), f(v.lo));
    if (v instanceof BV) {
        if (op === "~") { const r = norm(new BV(v.bits.map(lnot), true)); return r instanceof BV && r.bits.includes(-1) ? withEv(r, [v], f) : r; }
        if (op === "+") return v;
        if (op === "!") { const t = truth(v); return t === true ? false : t === null ? new Top("operator !") : ite(t, false, true); }
        return top("operator " + op, [v], f);
    }
    if (op === "!") return !((v instanceof Obj || v instanceof Fn) ? true : v);
    if (v instanceof Obj || v instanceof Fn) throw new Unsupported("operator " + op + " on an object");
    return f(v);
}

// ---------------------------------------------------------------- host
let reads = 0, initCalled = false, readBeforeInit = false, inits = [];
const used = new Set();
const problems = [];
function canvasEl() {
    const c = new Obj("Canvas");
    c.w = 300; c.h = 150; c.px = null; c.where = null;
    const reset = () => { c.px = new Map(); c.where = new Map(); };
    reset();
    c.get = k => k === "width" || k === "clientWidth" ? c.w : k === "height" || k === "clientHeight" ? c.h : undefined;
    c.set = (k, v) => {
        if (k === "width" || k === "height") {
            if (sym(v)) throw new Unsupported("symbolic canvas size");
            v = Math.trunc(Number(v));
            if (k === "width") c.w = v; else c.h = v;
            reset();
            return true;
        }
        return false;
    };
    const ctx = new Obj("Context2D");
    ctx.p.set("canvas", c);
    const image = (w, h, from) => {
        const b = new LocalBuf(w * h * 4);
        b.line = new Map();
        if (from) for (const [k, v] of from) { b.d.set(k, v); }
        const im = new Obj("ImageData");
        im.p.set("width", w); im.p.set("height", h); im.buf = b; im.w = w; im.h = h;
        im.p.set("data", new View("Uint8ClampedArray", b, 0, w * h * 4));
        return im;
    };
    ctx.image = image;
    ctx.p.set("createImageData", nat("createImageData", (t, a) => a[0] instanceof Obj ? image(a[0].w, a[0].h) : image(num(a[0]), num(a[1]))));
    ctx.p.set("getImageData", nat("getImageData", (t, a) => {
        const [x, y, w, h] = a.map(num), from = new Map();
        for (let j = 0; j < h; j++) for (let i = 0; i < w; i++) for (let k = 0; k < 4; k++) {
            const X = x + i, Y = y + j;
            if (X < 0 || Y < 0 || X >= c.w || Y >= c.h) continue;
            const v = c.px.get((Y * c.w + X) * 4 + k);
            if (v !== undefined) from.set((j * w + i) * 4 + k, v);
        }
        return image(w, h, from);
    }));
    ctx.p.set("putImageData", nat("putImageData", (t, a) => {
        if (pc.length) throw new Unsupported("putImageData under a condition on pixels");
        const im = a[0], dx = num(a[1]), dy = num(a[2]);
        if (!(im instanceof Obj) || !im.buf) throw new Unsupported("putImageData of an unknown image");
        const d = a.length >= 7 ? a.slice(3, 7).map(num) : [0, 0, im.w, im.h];
        for (let j = Math.max(0, d[1]); j < Math.min(im.h, d[1] + d[3]); j++) for (let i = Math.max(0, d[0]); i < Math.min(im.w, d[0] + d[2]); i++) {
            const X = dx + i, Y = dy + j;
            if (X < 0 || Y < 0 || X >= c.w || Y >= c.h) continue;
            for (let k = 0; k < 4; k++) {
                const s = (j * im.w + i) * 4 + k;
                c.px.set((Y * c.w + X) * 4 + k, im.buf.value(s));
                if (k === 3) c.where.set(Y * c.w + X, im.buf.line.get(s) || (curFile + ":" + curLine));
            }
        }
        puts++;
    }));
    const rect = (a, rgba) => {
        const [x, y, w, h] = a.map(num);
        for (let Y = Math.max(0, y); Y < Math.min(c.h, y + h); Y++) for (let X = Math.max(0, x); X < Math.min(c.w, x + w); X++) {
            for (let k = 0; k < 4; k++) {
                const o = c.px.get((Y * c.w + X) * 4 + k);
                c.px.set((Y * c.w + X) * 4 + k, guard(rgba[k], o === undefined ? 0 : o));
            }
            c.where.set(Y * c.w + X, curFile + ":" + curLine);
        }
        puts++;
    };
    ctx.p.set("clearRect", nat("clearRect", (t, a) => rect(a, [0, 0, 0, 0])));
    ctx.p.set("fillRect", nat("fillRect", (t, a) => {
        const st = ctx.p.get("fillStyle");
        const m = typeof st === "string" && /^#([0-9a-f]{3}|[0-9a-f]{6})$/i.exec(st.trim());
        let col = st === undefined || st === "black" ? [0, 0, 0, 255] : null;
        if (m) { const hx = m[1].length === 3 ? m[1].replace(/./g, "$&$&") : m[1]; col = [0, 2, 4].map(i => parseInt(hx.substr(i, 2), 16)).concat([255]); }
        if (!col) throw new Unsupported("fillStyle " + st);
        rect(a, col);
    }));
    c.p.set("getContext", nat("getContext", (t, a) => { if (a[0] !== "2d") throw new Unsupported("context " + a[0]); return ctx; }));
    c.ctx = ctx;
    return c;
}
let puts = 0;
function num(v) {
    v = norm(v);
    if (sym(v)) throw new Unsupported("a size or position depends on the frame buffer");
    return Math.trunc(Number(v));
}
const screens = new Map();
function element(sel) {
    if (!screens.has(sel)) screens.set(sel, canvasEl());
    return screens.get(sel);
}
const wasmMem = new WasmBuf();
const bufObj = b => { const o = new Obj("ArrayBuffer"); o.buf = b; o.p.set("byteLength", b.len); return o; };
const memBuffer = bufObj(wasmMem);
function makeExports() {
    const e = new Obj("Exports");
    const known = new Set(cfg.exports);
    e.get = k => {
        if (k === "memory") return obj({ buffer: memBuffer, grow: nat("grow", () => { throw new Unsupported("memory.grow"); }) }, "Memory");
        used.add(k);
        if (!known.has(k)) { problems.push(["export " + k, "the script uses the export `" + k + "`, which the Rust side does not provide"]); return undefined; }
        if (k === cfg.ptr_name) return nat(k, () => cfg.base);
        return nat(k, () => { if (pc.length) throw new Unsupported("wasm call under a pixel condition"); inits.push(k); if (cfg.painters.includes(k)) initCalled = true; return undefined; });
    };
    return e;
}
const exportsObj = makeExports();
const instance = () => obj({ instance: obj({ exports: exportsObj }, "Instance"), module: obj({}, "Module") });
function viewCtor(kind) {
    const f = nat(kind, () => { throw new Unsupported(kind + " called without new"); });
    f.construct = a => {
        if (a[0] instanceof Obj && a[0].buf instanceof Object && a[0].cls === "ArrayBuffer") {
            const off = a[1] === undefined ? 0 : num(a[1]), w = width(kind);
            if (off % w) throw new Thrown("RangeError", curLine);
            const len = a[2] === undefined ? Math.floor((a[0].buf.len - off) / w) : num(a[2]);
            return new View(kind, a[0].buf, off, len);
        }
        if (a[0] instanceof View || a[0] instanceof Arr) {
            const n = a[0] instanceof View ? a[0].len : a[0].a.length;
            const v = new View(kind, new LocalBuf(n * width(kind)), 0, n);
            for (let i = 0; i < n; i++) v.write(i, a[0] instanceof View ? a[0].read(i) : a[0].a[i]);
            return v;
        }
        const n = a[0] === undefined ? 0 : num(a[0]);
        return new View(kind, new LocalBuf(n * width(kind)), 0, n);
    };
    f.p.set("BYTES_PER_ELEMENT", width(kind));
    return f;
}
const globals = new Map();
function setupGlobals() {
    const g = globals;
    g.set("undefined", undefined); g.set("NaN", NaN); g.set("Infinity", Infinity);
    const log = nat("log", () => undefined);
    g.set("console", obj({ log, error: log, warn: log, info: log, debug: log, time: log, timeEnd: log }));
    const math = new Obj("Math");
    for (const k of Object.getOwnPropertyNames(Math)) {
        if (typeof Math[k] === "function") math.p.set(k, nat(k, (t, a) => {
            a = a.map(norm);
            if (k === "random") return new Top("random");
            const at = a.find(x => x instanceof S);
            if (a.length === 1 && (k === "floor" || k === "trunc")) {
                const w = whole(a[0], k === "floor");
                if (w !== a[0]) return w;
            }
            if (a.some(x => x instanceof Top || x instanceof BV)) {
                if (a.length === 1 && a[0] instanceof BV && /^(floor|trunc|round|ceil|abs)$/.test(k) && !a[0].signed) return a[0];
                return top("Math." + k, a, Math[k]);
            }
            if (at) {
                if (a.some(x => x instanceof S && x.atom !== at.atom)) return top("Math." + k, a, Math[k]);
                return mkS(at.atom, Math[k](...a.map(x => x instanceof S ? x.hi : x)), Math[k](...a.map(x => x instanceof S ? x.lo : x)));
            }
            return Math[k](...a);
        })); else math.p.set(k, Math[k]);
    }
    g.set("Math", math);
    const doc = new Obj("Document");
    doc.p.set("querySelector", nat("querySelector", (t, a) => element(String(a[0]).replace(/^canvas/, ""))));
    doc.p.set("getElementById", nat("getElementById", (t, a) => element("#" + a[0])));
    doc.p.set("readyState", "complete");
    const listen = nat("addEventListener", (t, a) => { if (a[0] === "load" || a[0] === "DOMContentLoaded") a[1].call(undefined, [new Obj("Event")]); });
    doc.p.set("addEventListener", listen);
    g.set("document", doc);
    const win = new Obj("Window");
    win.get = k => globals.get(k);
    win.p.set("addEventListener", listen);
    g.set("window", win); g.set("globalThis", win); g.set("self", win);
    g.set("requestAnimationFrame", nat("raf", (t, a) => { if (++frames <= 1) a[0].call(undefined, [0]); return 1; }));
    g.set("setTimeout", nat("setTimeout", (t, a) => { if (++frames <= 1) a[0].call(undefined, []); return 1; }));
    g.set("TextDecoder", (() => { const f = nat("TextDecoder", () => 0); f.construct = () => new Obj("TextDecoder"); return f; })());
    g.set("TextEncoder", (() => { const f = nat("TextEncoder", () => 0); f.construct = () => new Obj("TextEncoder"); return f; })());
    for (const k of ["Uint8Array", "Int8Array", "Uint8ClampedArray", "Uint16Array", "Int16Array", "Uint32Array", "Int32Array"]) g.set(k, viewCtor(k));
    const dv = nat("DataView", () => 0);
    dv.construct = a => {
        const off = a[1] === undefined ? 0 : num(a[1]), buf = a[0].buf, d = new Obj("DataView");
        const get = (w, s) => nat("get", (t, b) => { const le = w === 1 || truth(b[1]); if (le === null || typeof le === "number") throw new Unsupported("byte order"); return load(buf, off + num(b[0]), w, s, !!le); });
        d.p.set("getUint8", get(1, false)); d.p.set("getInt8", get(1, true)); d.p.set("getUint16", get(2, false)); d.p.set("getInt16", get(2, true)); d.p.set("getUint32", get(4, false)); d.p.set("getInt32", get(4, true));
        return d;
    };
    g.set("DataView", dv);
    const imd = nat("ImageData", () => 0);
    imd.construct = a => {
        if (a[0] instanceof View) {
            const w = num(a[1]), h = a[2] === undefined ? a[0].len / 4 / w : num(a[2]);
            const im = new Obj("ImageData"); im.w = w; im.h = h; im.buf = a[0].buf; im.buf.line = im.buf.line || new Map();
            if (a[0].off) throw new Unsupported("ImageData over part of a buffer");
            im.p.set("width", w); im.p.set("height", h); im.p.set("data", a[0]);
            return im;
        }
        return element("#screen").ctx.image(num(a[0]), num(a[1]));
    };
    g.set("ImageData", imd);
    const ab = nat("ArrayBuffer", () => 0); ab.construct = a => bufObj(new LocalBuf(num(a[0]))); g.set("ArrayBuffer", ab);
    const wa = new Obj("WebAssembly");
    if (cfg.streaming) wa.p.set("instantiateStreaming", nat("instantiateStreaming", () => new Prom(instance())));
    wa.p.set("instantiate", nat("instantiate", (t, a) => new Prom(a[0] instanceof Obj && a[0].cls === "Module" ? instance().p.get("instance") : instance())));
    wa.p.set("compile", nat("compile", () => new Prom(obj({}, "Module"))));
    g.set("WebAssembly", wa);
    const resp = () => obj({ ok: true, status: 200, arrayBuffer: nat("arrayBuffer", () => new Prom(bufObj(new LocalBuf(0)))) }, "Response");
    g.set("fetch", nat("fetch", () => new Prom(resp())));
    const pr = nat("Promise", () => 0);
    pr.construct = a => { const p = new Prom(undefined); a[0].call(undefined, [nat("resolve", (t, b) => { p.v = b[0]; }), nat("reject", () => undefined)]); return p; };
    pr.p.set("resolve", nat("resolve", (t, a) => a[0] instanceof Prom ? a[0] : new Prom(a[0])));
    pr.p.set("all", nat("all", (t, a) => new Prom(new Arr(a[0].a.map(x => x instanceof Prom ? x.v : x)))));
    g.set("Promise", pr);
    const ob = nat("Object", () => new Obj());
    for (const k of ["freeze", "seal", "preventExtensions"]) ob.p.set(k, nat(k, (t, a) => a[0]));
    ob.p.set("assign", nat("assign", (t, a) => { for (const s of a.slice(1)) if (s instanceof Obj) for (const [k, v] of s.p) setProp(a[0], k, v); return a[0]; }));
    ob.construct = () => new Obj();
    g.set("Object", ob);
    const ar = nat("Array", (t, a) => ar.construct(a));
    ar.construct = a => new Arr(a.length === 1 && typeof a[0] === "number" ? new Array(a[0]).fill(undefined) : a.slice());
    ar.p.set("isArray", nat("isArray", (t, a) => a[0] instanceof Arr));
    ar.p.set("from", nat("from", (t, a) => { const src = a[0] instanceof Arr ? a[0].a : a[0] instanceof View ? Array.from({ length: a[0].len }, (_, i) => a[0].read(i)) : a[0] instanceof Obj ? new Array(num(a[0].p.get("length"))).fill(undefined) : Array.from(a[0]); return new Arr(a[1] ? src.map((x, i) => a[1].call(undefined, [x, i])) : src); }));
    g.set("Array", ar);
    for (const k of ["Number", "Boolean", "String"]) g.set(k, nat(k, (t, a) => {
        const v = norm(a[0]);
        if (k === "Number" && (v instanceof BV)) return v;
        const f = { Number, Boolean, String }[k];
        if (v instanceof S) return mkS(v.atom, f(v.hi), f(v.lo));
        if (v instanceof BV && k === "Boolean") { const x = truth(v); return x === null ? new Top("Boolean") : x === true ? true : ite(x, true, false); }
        if (sym(v)) return k === "String" ? new Top(k) : top(k, [v], f);
        if (v instanceof Obj || v instanceof Fn) return k === "Boolean" ? true : new Top(k);
        return f(v);
    }));
    g.get("Number").p.set("isInteger", nat("isInteger", (t, a) => { if (sym(a[0])) return new Top(""); return Number.isInteger(a[0]); }));
    g.set("parseInt", nat("parseInt", (t, a) => sym(a[0]) ? new Top("parseInt") : parseInt(a[0], a[1])));
    g.set("performance", obj({ now: nat("now", () => new Top("time")) }));
    for (const k of ["Error", "TypeError", "RangeError"]) { const f = nat(k, (t, a) => obj({ message: a[0] }, k)); f.construct = a => obj({ message: a[0] }, k); g.set(k, f); }
}
let frames = 0;

// ---------------------------------------------------------------- properties
function hasProp(o, k) {
    if (o instanceof Arr && /^\d+$/.test(String(k))) return +k < o.a.length;
    if (o.p.has(String(k))) return true;
    return !!(o.get && o.get(String(k)) !== undefined);
}
const HOST = new Set(["Canvas", "Context2D", "Document", "Window", "WebAssembly", "Response", "Memory", "Math", "TextDecoder", "TextEncoder", "ImageData", "DataView", "ArrayBuffer", "Event"]);
function getProp(o, k) {
    k = norm(k);
    if (sym(k)) {
        if (k instanceof S && (o instanceof Obj || typeof o === "string")) return ite(2 * (k.atom + 1), getProp(o, k.hi), getProp(o, k.lo));
        return new Top("element at an index that depends on the frame buffer");
    }
    if (o instanceof View) {
        if (typeof k === "number") return o.read(k);
        if (typeof k === "string" && /^\d+$/.test(k)) return o.read(+k);
        switch (k) {
            case "length": return o.len;
            case "byteLength": return o.len * o.w;
            case "byteOffset": return o.off;
            case "buffer": return o.buf === wasmMem ? memBuffer : bufObj(o.buf);
            case "BYTES_PER_ELEMENT": return o.w;
            case "subarray": return nat(k, (t, a) => { let s = a[0] === undefined ? 0 : num(a[0]), e = a[1] === undefined ? o.len : num(a[1]); if (s < 0) s += o.len; if (e < 0) e += o.len; s = Math.min(Math.max(s, 0), o.len); e = Math.min(Math.max(e, s), o.len); return new View(o.kind, o.buf, o.off + s * o.w, e - s); });
            case "slice": return nat(k, (t, a) => { let s = a[0] === undefined ? 0 : num(a[0]), e = a[1] === undefined ? o.len : num(a[1]); const v = new View(o.kind, new LocalBuf((e - s) * o.w), 0, e - s); for (let i = s; i < e; i++) v.write(i - s, o.read(i)); return v; });
            case "set": return nat(k, (t, a) => { const src = a[0], off = a[1] === undefined ? 0 : num(a[1]), n = src instanceof View ? src.len : src.a.length; for (let i = 0; i < n; i++) o.write(off + i, src instanceof View ? src.read(i) : src.a[i]); });
            case "fill": return nat(k, (t, a) => { const s = a[1] === undefined ? 0 : num(a[1]), e = a[2] === undefined ? o.len : num(a[2]); for (let i = s; i < e; i++) o.write(i, a[0]); return o; });
            case "forEach": return nat(k, (t, a) => { for (let i = 0; i < o.len; i++) a[0].call(undefined, [o.read(i), i, o]); });
        }
    }
    if (o instanceof Arr) {
        if (typeof k === "number") return o.a[k];
        if (/^\d+$/.test(k)) return o.a[+k];
        const cb = (f, ...x) => f.call(undefined, x);
        switch (k) {
            case "length": return o.a.length;
            case "push": return nat(k, (t, a) => { if (pc.length) throw new Unsupported("push under a pixel condition"); return o.a.push(...a); });
            case "pop": return nat(k, () => o.a.pop());
            case "forEach": return nat(k, (t, a) => { o.a.forEach((x, i) => cb(a[0], x, i, o)); });
            case "map": return nat(k, (t, a) => new Arr(o.a.map((x, i) => cb(a[0], x, i, o))));
            case "reduce": return nat(k, (t, a) => { let acc = a.length > 1 ? a[1] : o.a[0]; for (let i = a.length > 1 ? 0 : 1; i < o.a.length; i++) acc = cb(a[0], acc, o.a[i], i, o); return acc; });
            case "fill": return nat(k, (t, a) => { o.a.fill(a[0]); return o; });
            case "slice": return nat(k, (t, a) => new Arr(o.a.slice(...a.map(num))));
            case "reverse": return nat(k, () => { o.a.reverse(); return o; });
            case "concat": return nat(k, (t, a) => new Arr(o.a.concat(...a.map(x => x instanceof Arr ? x.a : [x]))));
            case "entries": return nat(k, () => new Arr(o.a.map((x, i) => new Arr([i, x]))));
            case "keys": return nat(k, () => new Arr(o.a.map((x, i) => i)));
            case "includes": return nat(k, (t, a) => o.a.includes(a[0]));
        }
    }
    if (o instanceof Prom) {
        const flat = v => v instanceof Prom ? v : new Prom(v);
        if (k === "then") return nat(k, (t, a) => a[0] ? flat(a[0].call(undefined, [o.v])) : o);
        if (k === "catch") return nat(k, () => o);
        if (k === "finally") return nat(k, (t, a) => { a[0].call(undefined, []); return o; });
    }
    if (o instanceof Obj) {
        const key = String(k);
        if (o.get) { const v = o.get(key); if (v !== undefined) return v; }
        if (o.p.has(key)) return o.p.get(key);
        if (HOST.has(o.cls) || o instanceof View || o instanceof Arr || o instanceof Prom) throw new Unsupported("property " + key + " of " + o.cls + " is not modelled");
        return undefined;
    }
    if (o instanceof Fn) {
        if (k === "call") return nat(k, (t, a) => o.call(a[0], a.slice(1)));
        if (k === "apply") return nat(k, (t, a) => o.call(a[0], a[1] ? a[1].a : []));
        if (k === "bind") return nat(k, (t, a) => nat("bound", (u, b) => o.call(a[0], a.slice(1).concat(b))));
        return o.p.get(String(k));
    }
    if (typeof o === "string") {
        if (k === "length") return o.length;
        if (typeof k === "number") return o[k];
        throw new Unsupported("string method " + k);
    }
    if (o instanceof Top || o instanceof BV || o instanceof S) throw new Unsupported("property " + k + " of an unknown value");
    if (o === undefined || o === null) throw new Thrown("TypeError: property " + k + " of " + o, curLine);
    throw new Unsupported("property " + k + " of " + typeof o);
}
function setProp(o, k, v) {
    k = norm(k);
    if (sym(k)) throw new Unsupported("store at an index that depends on the frame buffer");
    if (o instanceof View) {
        if (typeof k === "string" && /^\d+$/.test(k)) k = +k;
        if (typeof k === "number") { o.write(k, v); return; }
    }
    if (o instanceof Arr) {
        if (typeof k === "number" || /^\d+$/.test(k)) { o.a[+k] = guard(v, o.a[+k]); return; }
        if (k === "length") { o.a.length = v; return; }
    }
    if (o instanceof Obj) {
        if (o.set && o.set(String(k), v)) return;
        o.p.set(String(k), guard(v, o.p.get(String(k))));
        return;
    }
    if (o instanceof Fn) { o.p.set(String(k), v); return; }
    throw new Unsupported("property store on " + typeof o);
}

// ---------------------------------------------------------------- scopes
class Scope {
    constructor(up) { this.up = up; this.v = new Map(); }
    find(n) { let s = this; while (s) { if (s.v.has(n)) return s; s = s.up; } return null; }
    get(n) {
        const s = this.find(n);
        if (!s) { if (globals.has(n)) return globals.get(n); throw new Unsupported("global " + n + " is not modelled"); }
        const v = s.v.get(n);
        if (v instanceof Ref) return v.get();
        return assume(v);
    }
    set(n, v) {
        const s = this.find(n);
        if (!s) { globals.set(n, v); return; }
        s.v.set(n, pc.length ? guard(v, s.v.get(n)) : v);
    }
    decl(n, v) { this.v.set(n, v); }
}
class Ref { constructor(f) { this.get = f; } }

const BRK = { k: "break" }, CNT = { k: "continue" };
class Ret { constructor(v) { this.v = v; } }
const K = ts.SyntaxKind;

// ---------------------------------------------------------------- compiler to closures
let file = null;
function at(n) { return file.getLineAndCharacterOfPosition(n.getStart(file)).line + 1; }
function bad(n, what) { return new Unsupported((what || ("syntax " + K[n.kind])) + " at " + path.basename(file.fileName) + ":" + at(n)); }

function pattern(n) { // -> (scope, value, assignFn)
    if (ts.isIdentifier(n)) { const name = n.text; return (s, v, put) => put(s, name, v); }
    if (ts.isObjectBindingPattern(n)) {
        const els = n.elements.map(e => {
            if (e.dotDotDotToken) throw bad(e, "rest pattern");
            const key = e.propertyName ? (ts.isIdentifier(e.propertyName) ? e.propertyName.text : e.propertyName.text) : e.name.text;
            return [key, pattern(e.name), e.initializer ? expr(e.initializer) : null];
        });
        return (s, v, put) => { for (const [k, p, d] of els) { let x = getProp(v, k); if (x === undefined && d) x = d(s); p(s, x, put); } };
    }
    if (ts.isArrayBindingPattern(n)) {
        const els = n.elements.map(e => ts.isOmittedExpression(e) ? null : [pattern(e.name), e.initializer ? expr(e.initializer) : null]);
        return (s, v, put) => els.forEach((e, i) => { if (e) { let x = getProp(v, i); if (x === undefined && e[1]) x = e[1](s); e[0](s, x, put); } });
    }
    throw bad(n);
}
const declare = (s, n, v) => s.decl(n, v);

function func(n) { // -> scope => Fn
    const params = n.parameters.map(p => [pattern(p.name), p.initializer ? expr(p.initializer) : null, !!p.dotDotDotToken]);
    const arrow = ts.isArrowFunction(n);
    const isAsync = !!(n.modifiers && n.modifiers.some(m => m.kind === K.AsyncKeyword));
    if (n.asteriskToken) throw bad(n, "generator");
    const bodyIsExpr = !ts.isBlock(n.body);
    const fl = path.basename(file.fileName);
    let body = null;
    const nm = n.name ? n.name.text : "";
    const f0 = file;
    const compile = () => { const keep = file; file = f0; body = bodyIsExpr ? expr(n.body) : block(n.body.statements); file = keep; };
    let depth = 0;
    return s => {
        const fn = new Fn((self, args) => {
            if (!body) compile();
            if (++depth > 200) throw new Unsupported("deep recursion");
            const sc = new Scope(s);
            if (!arrow) { sc.decl("this", self); sc.decl("arguments", new Arr(args)); }
            params.forEach(([p, d, rest], i) => {
                let v = rest ? new Arr(args.slice(i)) : args[i];
                if (v === undefined && d) v = d(sc);
                p(sc, v, declare);
            });
            const keepF = curFile, keepL = curLine;
            curFile = fl;
            let r;
            if (bodyIsExpr) r = body(sc);
            else { const x = body(sc); r = x instanceof Ret ? x.v : undefined; }
            curFile = keepF; curLine = keepL;
            depth--;
            return isAsync ? (r instanceof Prom ? r : new Prom(r)) : r;
        }, nm);
        fn.construct = args => { const o = new Obj(nm); const r = fn.call(o, args); return r instanceof Obj ? r : o; };
        return fn;
    };
}
function symbolic(t, n) { if (t === null) throw bad(n, "branch on an unresolved value"); return typeof t === "number"; }

function assignTo(n) { // -> (scope, f: old => new) => value
    if (ts.isParenthesizedExpression(n)) return assignTo(n.expression);
    if (ts.isIdentifier(n)) { const name = n.text; return (s, f, plain) => { const v = f(plain ? undefined : s.get(name)); s.set(name, v); return v; }; }
    if (ts.isPropertyAccessExpression(n)) {
        const o = expr(n.expression), k = n.name.text;
        return (s, f, plain) => { const ov = o(s); const v = f(plain ? undefined : getProp(ov, k)); setProp(ov, k, v); return v; };
    }
    if (ts.isElementAccessExpression(n)) {
        const o = expr(n.expression), k = expr(n.argumentExpression);
        return (s, f, plain) => { const ov = o(s), kv = k(s); const v = f(plain ? undefined : getProp(ov, kv)); setProp(ov, kv, v); return v; };
    }
    throw bad(n, "assignment target");
}
function expr(n) {
    switch (n.kind) {
        case K.NumericLiteral: { const v = Number(n.text); return () => v; }
        case K.StringLiteral: case K.NoSubstitutionTemplateLiteral: { const v = n.text; return () => v; }
        case K.TrueKeyword: return () => true;
        case K.FalseKeyword: return () => false;
        case K.NullKeyword: return () => null;
        case K.ThisKeyword: return s => s.find("this") ? s.get("this") : undefined;
        case K.Identifier: { const name = n.text; return s => s.get(name); }
        case K.ParenthesizedExpression: return expr(n.expression);
        case K.AsExpression: case K.NonNullExpression: return expr(n.expression);
        case K.AwaitExpression: { const e = expr(n.expression); return s => { const v = e(s); return v instanceof Prom ? v.v : v; }; }
        case K.VoidExpression: { const e = expr(n.expression); return s => { e(s); return undefined; }; }
        case K.TypeOfExpression: {
            const e = expr(n.expression);
            return s => { let v; try { v = norm(e(s)); } catch (x) { if (x instanceof Thrown) return "undefined"; throw x; } if (v instanceof Top) throw new Unsupported("typeof"); if (v instanceof BV || v instanceof S) return v instanceof S ? typeof v.hi : "number"; if (v instanceof Fn) return "function"; return v instanceof Obj ? "object" : typeof v; };
        }
        case K.DeleteExpression: { return () => true; }
        case K.ArrowFunction: case K.FunctionExpression: return func(n);
        case K.TemplateExpression: {
            const head = n.head.text, parts = n.templateSpans.map(t => [expr(t.expression), t.literal.text]);
            return s => { let r = head; for (const [e, l] of parts) { const v = e(s); r += ((v instanceof Obj || v instanceof Fn || sym(v)) ? "?" : String(v)) + l; } return r; };
        }
        case K.ObjectLiteralExpression: {
            const ps = n.properties.map(p => {
                if (ts.isShorthandPropertyAssignment(p)) { const e = expr(p.name); const k = p.name.text; return (s, o) => o.p.set(k, e(s)); }
                if (ts.isPropertyAssignment(p)) { const e = expr(p.initializer); if (ts.isComputedPropertyName(p.name)) { const ke = expr(p.name.expression); return (s, o) => o.p.set(String(ke(s)), e(s)); } const k = p.name.text; return (s, o) => o.p.set(k, e(s)); }
                if (ts.isSpreadAssignment(p)) { const e = expr(p.expression); return (s, o) => { const v = e(s); if (v instanceof Obj) for (const [k, x] of v.p) o.p.set(k, x); }; }
                if (ts.isMethodDeclaration(p)) { const f = func(p), k = p.name.text; return (s, o) => o.p.set(k, f(s)); }
                if (ts.isGetAccessorDeclaration(p)) { const f = func(p), k = p.name.text; return (s, o) => { const fn = f(s), old = o.get; o.get = q => q === k ? fn.call(o, []) : old ? old(q) : undefined; }; }
                throw bad(p);
            });
            return s => { const o = new Obj(); for (const p of ps) p(s, o); return o; };
        }
        case K.ArrayLiteralExpression: {
            const es = n.elements.map(e => ts.isSpreadElement(e) ? [expr(e.expression), true] : [ts.isOmittedExpression(e) ? () => undefined : expr(e), false]);
            return s => { const a = []; for (const [e, sp] of es) { const v = e(s); if (sp) a.push(...iter(v)); else a.push(v); } return new Arr(a); };
        }
        case K.PropertyAccessExpression: {
            const o = expr(n.expression), k = n.name.text, q = !!n.questionDotToken;
            return s => { const v = o(s); if (q && (v === undefined || v === null)) return undefined; return getProp(v, k); };
        }
        case K.ElementAccessExpression: {
            const o = expr(n.expression), k = expr(n.argumentExpression), q = !!n.questionDotToken;
            return s => { const v = o(s); if (q && (v === undefined || v === null)) return undefined; return assume(getProp(v, k(s))); };
        }
        case K.NewExpression: {
            const f = expr(n.expression), as = args(n.arguments || []), l = at(n);
            return s => { const c = f(s), a = as(s); curLine = l; if (!(c instanceof Fn) || !c.construct) throw new Unsupported("new on a non-constructor"); return c.construct(a); };
        }
        case K.CallExpression: {
            const as = args(n.arguments), l = at(n), q = !!n.questionDotToken;
            const c = n.expression;
            if (c.kind === K.ImportKeyword) throw bad(n, "dynamic import");
            if (ts.isPropertyAccessExpression(c) || ts.isElementAccessExpression(c)) {
                const o = expr(c.expression), k = ts.isPropertyAccessExpression(c) ? (() => c.name.text) : expr(c.argumentExpression);
                return s => { const self = o(s); if (c.questionDotToken && (self === undefined || self === null)) return undefined; const f = getProp(self, k(s)); if (q && f === undefined) return undefined; const a = as(s); curLine = l; return invoke(f, self, a, n); };
            }
            const f = expr(c);
            return s => { const fv = f(s); if (q && fv === undefined) return undefined; const a = as(s); curLine = l; return invoke(fv, undefined, a, n); };
        }
        case K.PrefixUnaryExpression: {
            if (n.operator === K.PlusPlusToken || n.operator === K.MinusMinusToken) { const t = assignTo(n.operand), d = n.operator === K.PlusPlusToken ? 1 : -1; return s => t(s, o => binop("+", unop("+", o), d)); }
            const e = expr(n.operand), op = { [K.MinusToken]: "-", [K.PlusToken]: "+", [K.TildeToken]: "~", [K.ExclamationToken]: "!" }[n.operator];
            return s => { return unop(op, e(s)); };
        }
        case K.PostfixUnaryExpression: { const t = assignTo(n.operand), d = n.operator === K.PlusPlusToken ? 1 : -1; return s => { let old; t(s, o => { old = unop("+", o); return binop("+", old, d); }); return old; }; }
        case K.ConditionalExpression: {
            const c = expr(n.condition), a = expr(n.whenTrue), b = expr(n.whenFalse);
            return s => {
                const t = truth(c(s));
                if (symbolic(t, n)) {
                    pc.push(t); const x = a(s); pc.pop();
                    pc.push(t ^ 1); const y = b(s); pc.pop();
                    return ite(t, x, y);
                }
                return t ? a(s) : b(s);
            };
        }
        case K.BinaryExpression: return binary(n);
        case K.RegularExpressionLiteral: case K.ClassExpression: case K.YieldExpression: case K.TaggedTemplateExpression: throw bad(n);
        case K.MetaProperty: return () => obj({ url: "file:///main.js" });
    }
    throw bad(n);
}
function iter(v) {
    if (v instanceof Arr) return v.a;
    if (v instanceof View) return Array.from({ length: v.len }, (_, i) => v.read(i));
    if (typeof v === "string") return Array.from(v);
    throw new Unsupported("iteration over an unknown value");
}
function invoke(f, self, a, n) {
    if (!(f instanceof Fn)) {
        if (sym(f)) throw new Unsupported("call of an unknown value");
        throw new Thrown("TypeError: not a function", curLine);
    }
    return f.call(self, a);
}
function args(list) {
    const es = list.map(e => ts.isSpreadElement(e) ? [expr(e.expression), true] : [expr(e), false]);
    return s => { const r = []; for (const [e, sp] of es) { const v = e(s); if (sp) r.push(...iter(v)); else r.push(v); } return r; };
}
const BIN = {
    [K.PlusToken]: "+", [K.MinusToken]: "-", [K.AsteriskToken]: "*", [K.SlashToken]: "/", [K.PercentToken]: "%", [K.AsteriskAsteriskToken]: "**",
    [K.LessThanToken]: "<", [K.GreaterThanToken]: ">", [K.LessThanEqualsToken]: "<=", [K.GreaterThanEqualsToken]: ">=",
    [K.EqualsEqualsToken]: "==", [K.ExclamationEqualsToken]: "!=", [K.EqualsEqualsEqualsToken]: "===", [K.ExclamationEqualsEqualsToken]: "!==",
    [K.AmpersandToken]: "&", [K.BarToken]: "|", [K.CaretToken]: "^", [K.LessThanLessThanToken]: "<<", [K.GreaterThanGreaterThanToken]: ">>", [K.GreaterThanGreaterThanGreaterThanToken]: ">>>",
    [K.InKeyword]: "in", [K.InstanceOfKeyword]: "instanceof",
};
const ASG = {
    [K.PlusEqualsToken]: "+", [K.MinusEqualsToken]: "-", [K.AsteriskEqualsToken]: "*", [K.SlashEqualsToken]: "/", [K.PercentEqualsToken]: "%", [K.AsteriskAsteriskEqualsToken]: "**",
    [K.AmpersandEqualsToken]: "&", [K.BarEqualsToken]: "|", [K.CaretEqualsToken]: "^", [K.LessThanLessThanEqualsToken]: "<<", [K.GreaterThanGreaterThanEqualsToken]: ">>", [K.GreaterThanGreaterThanGreaterThanEqualsToken]: ">>>",
};
function binary(n) {
    const op = n.operatorToken.kind, l = at(n);
    if (op === K.EqualsToken) {
        if (ts.isArrayLiteralExpression(n.left) || ts.isObjectLiteralExpression(n.left)) throw bad(n, "destructuring assignment");
        const t = assignTo(n.left), e = expr(n.right);
        return s => { const v = e(s); curLine = l; return t(s, () => v, true); };
    }
    if (ASG[op]) { const t = assignTo(n.left), e = expr(n.right), o = ASG[op]; return s => { curLine = l; return t(s, old => binop(o, old, e(s))); }; }
    const a = expr(n.left), b = expr(n.right);
    if (op === K.CommaToken) return s => { a(s); return b(s); };
    if (op === K.AmpersandAmpersandToken || op === K.BarBarToken) {
        const isAnd = op === K.AmpersandAmpersandToken;
        return s => {
            const x = a(s), t = truth(x);
            if (symbolic(t, n)) {
                const lit = isAnd ? t : t ^ 1; // literal under which b is evaluated
                pc.push(lit); const y = b(s); pc.pop();
                return ite(lit, y, x);
            }
            return (isAnd ? t : !t) ? b(s) : x;
        };
    }
    if (op === K.QuestionQuestionToken) return s => { const x = a(s); return x === undefined || x === null ? b(s) : x; };
    const o = BIN[op];
    if (!o) throw bad(n, "operator");
    return s => { if (++steps > STEPS) throw new Unsupported("too many steps"); return binop(o, a(s), b(s)); };
}

function block(stmts) {
    const hoist = [], vars = new Set();
    for (const st of stmts) if (ts.isFunctionDeclaration(st) && st.name) hoist.push([st.name.text, func(st)]);
    const cs = stmts.filter(st => !ts.isFunctionDeclaration(st)).map(stmt);
    return s => {
        for (const [n, f] of hoist) s.decl(n, f(s));
        for (const c of cs) { const r = c(s); if (r) return r; }
    };
}
function declList(dl) {
    const isVar = !(dl.flags & ts.NodeFlags.BlockScoped);
    const ds = dl.declarations.map(d => [pattern(d.name), d.initializer ? expr(d.initializer) : null, at(d)]);
    const put = isVar ? (s, n, v) => { const f = s.find(n); if (f && f.v.has(n) && !(f.v.get(n) instanceof Ref)) s.set(n, v); else s.decl(n, v); } : declare;
    return s => { for (const [p, e, l] of ds) { if (!e && isVar) { p(s, undefined, (sc, n, v) => { if (!sc.find(n)) sc.decl(n, v); }); continue; } const v = e ? e(s) : undefined; curLine = l; p(s, v, put); } };
}
function check(r, n) { if (r && pc.length) throw bad(n, "leaving a branch on pixels"); return r; }
function stmt(n) {
    switch (n.kind) {
        case K.EmptyStatement: return () => undefined;
        case K.ExpressionStatement: { const e = expr(n.expression); return s => { e(s); }; }
        case K.VariableStatement: { const d = declList(n.declarationList); return s => { d(s); }; }
        case K.FunctionDeclaration: { const f = func(n), nm = n.name.text; return s => { s.decl(nm, f(s)); }; }
        case K.Block: { const b = block(n.statements); return s => b(new Scope(s)); }
        case K.ReturnStatement: { const e = n.expression ? expr(n.expression) : () => undefined; return s => { if (pc.length > basePc) throw bad(n, "return under a condition on pixels"); return new Ret(e(s)); }; }
        case K.BreakStatement: if (n.label) throw bad(n, "labelled break"); return () => { return BRK; };
        case K.ContinueStatement: if (n.label) throw bad(n, "labelled continue"); return () => { return CNT; };
        case K.ThrowStatement: { const e = expr(n.expression), l = at(n); return s => { throw new Thrown(e(s), l); }; }
        case K.IfStatement: {
            const c = expr(n.expression), a = stmt(n.thenStatement), b = n.elseStatement ? stmt(n.elseStatement) : null;
            return s => {
                const t = truth(c(s));
                if (symbolic(t, n)) {
                    pc.push(t); const x = a(s); pc.pop();
                    if (x) throw bad(n, "leaving a branch on pixels");
                    if (b) { pc.push(t ^ 1); const y = b(s); pc.pop(); if (y) throw bad(n, "leaving a branch on pixels"); }
                    return;
                }
                if (t) return a(s);
                if (b) return b(s);
            };
        }
        case K.ForStatement: {
            const let_ = n.initializer && ts.isVariableDeclarationList(n.initializer);
            const i = n.initializer ? (let_ ? declList(n.initializer) : expr(n.initializer)) : null;
            const c = n.condition ? expr(n.condition) : null, u = n.incrementor ? expr(n.incrementor) : null, b = stmt(n.statement);
            return s => {
                const sc = new Scope(s);
                if (i) i(sc);
                for (;;) {
                    if (++steps > STEPS) throw new Unsupported("too many steps");
                    if (c) { const t = truth(c(sc)); if (symbolic(t, n)) throw bad(n, "loop bound depends on pixels"); if (!t) break; }
                    const r = b(sc);
                    if (r === BRK) break;
                    if (r instanceof Ret) return r;
                    if (u) u(sc);
                }
            };
        }
        case K.WhileStatement: case K.DoStatement: {
            const c = expr(n.expression), b = stmt(n.statement), post = n.kind === K.DoStatement;
            return s => {
                let first = post;
                for (;;) {
                    if (++steps > STEPS) throw new Unsupported("too many steps");
                    if (!first) { const t = truth(c(s)); if (symbolic(t, n)) throw bad(n, "loop bound depends on pixels"); if (!t) break; }
                    first = false;
                    const r = b(new Scope(s));
                    if (r === BRK) break;
                    if (r instanceof Ret) return r;
                }
            };
        }
        case K.ForOfStatement: {
            const e = expr(n.expression), b = stmt(n.statement);
            if (!ts.isVariableDeclarationList(n.initializer)) throw bad(n);
            const p = pattern(n.initializer.declarations[0].name);
            return s => { for (const v of iter(e(s)).slice()) { const sc = new Scope(s); p(sc, v, declare); const r = b(sc); if (r === BRK) break; if (r instanceof Ret) return r; } };
        }
        case K.SwitchStatement: {
            const e = expr(n.expression), cs = n.caseBlock.clauses.map(c => [ts.isCaseClause(c) ? expr(c.expression) : null, block(c.statements)]);
            return s => {
                const v = e(s);
                if (sym(norm(v))) throw bad(n, "switch on pixels");
                const sc = new Scope(s);
                let k = cs.findIndex(([c]) => c && c(sc) === v);
                if (k < 0) k = cs.findIndex(([c]) => !c);
                if (k < 0) return;
                for (; k < cs.length; k++) { const r = cs[k][1](sc); if (r === BRK) return; if (r) return r; }
            };
        }
        case K.TryStatement: {
            const b = stmt(n.tryBlock), c = n.catchClause ? stmt(n.catchClause.block) : null, nm = n.catchClause && n.catchClause.variableDeclaration ? n.catchClause.variableDeclaration.name.text : null, f = n.finallyBlock ? stmt(n.finallyBlock) : null;
            return s => {
                let r;
                try { r = b(s); } catch (x) { if (!(x instanceof Thrown) || !c) throw x; const sc = new Scope(s); if (nm) sc.decl(nm, x.v); r = c(sc); }
                if (f) { const y = f(s); if (y) return y; }
                return r;
            };
        }
        case K.ExportDeclaration: case K.ImportDeclaration: case K.ExportAssignment: return () => undefined;
    }
    throw bad(n);
}
let basePc = 0;

// ---------------------------------------------------------------- modules
const modules = new Map();
function loadModule(p) {
    p = path.resolve(p);
    if (modules.has(p)) return modules.get(p);
    const src = fs.readFileSync(p, "utf8");
    const keep = file;
    const sf = ts.createSourceFile(p, src, ts.ScriptTarget.Latest, true, ts.ScriptKind.JS);
    const scope = new Scope(null), ex = new Map();
    const mod = { scope, ex };
    modules.set(p, mod);
    const ns = m => { const o = new Obj("Module"); o.get = k => m.ex.has(k) ? m.ex.get(k)() : undefined; return o; };
    for (const st of sf.statements) {
        if (ts.isImportDeclaration(st)) {
            const m = loadModule(path.join(path.dirname(p), st.moduleSpecifier.text));
            const c = st.importClause;
            if (!c) continue;
            if (c.name) scope.decl(c.name.text, new Ref(() => m.ex.get("default")()));
            if (c.namedBindings && ts.isNamespaceImport(c.namedBindings)) scope.decl(c.namedBindings.name.text, ns(m));
            else if (c.namedBindings) for (const e of c.namedBindings.elements) { const from = (e.propertyName || e.name).text; scope.decl(e.name.text, new Ref(() => { if (!m.ex.has(from)) throw new Thrown("SyntaxError: no export " + from, 0); return m.ex.get(from)(); })); }
        }
        const exp = st.modifiers && st.modifiers.some(m => m.kind === K.ExportKeyword), def = st.modifiers && st.modifiers.some(m => m.kind === K.DefaultKeyword);
        if (exp && ts.isFunctionDeclaration(st)) { const nm = st.name.text; ex.set(def ? "default" : nm, () => scope.get(nm)); }
        if (exp && ts.isVariableStatement(st)) for (const d of st.declarationList.declarations) { const nm = d.name.text; ex.set(nm, () => scope.get(nm)); }
        if (ts.isExportDeclaration(st) && st.exportClause && ts.isNamedExports(st.exportClause)) {
            const m = st.moduleSpecifier ? loadModule(path.join(path.dirname(p), st.moduleSpecifier.text)) : null;
            for (const e of st.exportClause.elements) { const from = (e.propertyName || e.name).text; ex.set(e.name.text, m ? (() => m.ex.get(from)()) : (() => scope.get(from))); }
        }
        if (ts.isExportAssignment(st)) { file = sf; const e = expr(st.expression); ex.set("default", () => e(scope)); }
        if (ts.isClassDeclaration(st)) throw new Unsupported("class declaration");
    }
    file = sf;
    const run = block(sf.statements);
    curFile = path.basename(p);
    run(scope);
    file = keep;
    return mod;
}

// ---------------------------------------------------------------- verdict
const out = { violations: [], undecided: [], stats: {}, samples: [] };
// frame buffer bits for which a pixel's alpha is not what its own bit gives
function refute(a, want) {
    const at = new Set([want]);
    if (!atomsOf(a, at) || out.violations.some(x => x.key === "pixel function")) return null;
    const list = [...at].sort((p, q) => p - q), cand = [];
    for (const base of [false, true]) for (const own of [false, true]) {
        cand.push([base, own, -1]);
        for (const o of list) if (o !== want) cand.push([base, own, o]);
    }
    for (const [base, own, o] of cand) {
        const val = k => k === want ? own : k === o ? !base : base;
        let got;
        try { got = evalAt(a, val); } catch (e) { if (e instanceof NoEv) return null; throw e; }
        if (typeof got !== "number") return null;
        if (got !== (own ? 0 : 255)) {
            const nm = k => "bit " + (k & 31) + " of word " + ((k >> 5) % cfg.wpl) + " of line " + Math.floor((k >> 5) / cfg.wpl);
            return { got, bit: own, rest: o < 0 ? "all others it reads are " + (base ? "set" : "clear") : "of the others it reads " + (base ? "all but " + nm(o) + " are set" : "only " + nm(o) + " is set") };
        }
    }
    return null;
}
const v = (key, where, msg) => { if (!out.violations.some(x => x.key === key)) out.violations.push({ key, where, msg }); };
try {
    setupGlobals();
    const html = fs.readFileSync(path.join(cfg.dir, "index.html"), "utf8");
    const entries = [...html.matchAll(/<script[^>]*\ssrc=["']?([^"'\s>]+)/g)].map(m => m[1]);
    if (!entries.length) throw new Unsupported("no script in index.html");
    for (const e of entries) loadModule(path.join(cfg.dir, e));
    for (const [k, m] of problems) v(k, "wasm_demo", m);
    const cs = [...screens.entries()].filter(([, c]) => c.px.size);
    if (cs.length !== 1) {
        if (!puts) v("no picture", curFile, "no picture is put on any canvas");
        else out.undecided.push(cs.length + " canvases painted");
    } else {
        const c = cs[0][1];
        const rid = /id=["']?([\w-]+)/;
        if (cs[0][0].startsWith("#") && ![...html.matchAll(/<canvas[^>]*>/g)].some(m => (rid.exec(m[0]) || [])[1] === cs[0][0].slice(1))) v("canvas id", "index.html", "no canvas with id " + cs[0][0] + " in index.html");
        if (!initCalled) v("not painted", curFile, "the picture is shown but the demo's painting function is never called");
        else if (readBeforeInit) v("read before paint", curFile, "the frame buffer is read before the demo has painted it");
        if (c.w !== cfg.width || c.h !== cfg.lines) v("canvas size", "main.js", "the canvas is " + c.w + "x" + c.h + ", the screen is " + cfg.width + "x" + cfg.lines);
        let ok = 0, color = null;
        for (let y = 0; y < Math.min(c.h, cfg.lines); y++) for (let x = 0; x < Math.min(c.w, cfg.width); x++) {
            const p = y * c.w + x, want = (y * cfg.wpl + (x >> 5)) * 32 + (x & 31);
            const a = c.px.get(p * 4 + 3), where = c.where.get(p) || "main.js";
            if (a instanceof Top || (a instanceof S && a.atom >= PSEUDO) || (a instanceof BV && a.bits.includes(-1))) {
                const cx = refute(a, want);
                if (cx) { v("pixel function", where, "canvas pixel (" + x + ", " + y + ") gets alpha " + cx.got + " for " + (cx.bit ? "a set" : "a clear") + " bit when " + cx.rest); continue; }
            }
            if (a instanceof S && a.atom >= PSEUDO) { out.undecided.length < 5 && out.undecided.push("pixel (" + x + ", " + y + "): decided by a value of unknown form"); continue; }
            if (a instanceof BV && a.bits.includes(-1)) { out.undecided.length < 5 && out.undecided.push("pixel (" + x + ", " + y + "): of unknown form"); continue; }
            if (a instanceof Top) { out.undecided.length < 5 && out.undecided.push("pixel (" + x + ", " + y + "): " + a.why); continue; }
            if (!(a instanceof S)) {
                if (a instanceof BV) { v("pixel mix", where, "canvas pixel (" + x + ", " + y + ") depends on several frame buffer bits"); continue; }
                v("pixel constant", where, "canvas pixel (" + x + ", " + y + ") always has alpha " + a + " whatever the frame buffer holds");
                continue;
            }
            if (a.atom !== want) {
                const wd = a.atom >> 5;
                v("pixel source", where, "canvas pixel (" + x + ", " + y + ") shows bit " + (a.atom & 31) + " of word " + (wd % cfg.wpl) + " of line " + Math.floor(wd / cfg.wpl) + " instead of bit " + (x & 31) + " of word " + (x >> 5) + " of line " + y);
                continue;
            }
            if (a.hi !== 0 || a.lo !== 255) { v("pixel value", where, "canvas pixel (" + x + ", " + y + ") gets alpha " + a.hi + " for a set bit and " + a.lo + " for a clear one, not 0 and 255"); continue; }
            const rgb = [0, 1, 2].map(k => { const q = c.px.get(p * 4 + k); return q instanceof S && q.atom === want ? q.lo : q; });
            if (rgb.some(sym)) { out.undecided.length < 5 && out.undecided.push("colour of pixel (" + x + ", " + y + ")"); continue; }
            const key = rgb.map(q => q === undefined ? 0 : q).join();
            if (color === null) color = key;
            else if (color !== key) { v("pixel colour", where, "opaque canvas pixels have different colours: (" + color + ") and (" + key + ") at (" + x + ", " + y + ")"); continue; }
            ok++;
            if (out.samples.length < 6 && (x % 97 === 31) && y % 119 === 0) out.samples.push("pixel (" + x + ", " + y + ") alpha = bit " + (x & 31) + " of word " + (x >> 5) + " of line " + y + " ? 0 : 255, set at " + where);
        }
        out.stats = { pixels_proved: ok, frame_buffer_reads: reads, abstract_steps: steps, exports_used: [...used].sort().join(" "), colour: color };
    }
} catch (e) {
    if (e instanceof Thrown) v("exception", curFile + ":" + e.at, "the page's script throws " + (typeof e.v === "string" ? e.v : e.v instanceof Obj ? String(e.v.p.get("message")) : "an exception"));
    else if (e instanceof Unsupported) out.undecided.push(e.message);
    else out.undecided.push("analyser: " + e.message + " " + (e.stack || "").split("\n")[1]);
}
console.log(JSON.stringify(out));
