"""C09-C12: the font tables (as the compiler evaluates them) and the lookup
structure (as the abstract interpreter derives it from MIR) against the index
files, alias files and sprite sheets."""
import bisect
import json
import os
import unicodedata

import common
import pngread
import rustchecks

M = 0xFFFFFFFF


def rotl(x, r):
    return ((x << r) | (x >> (32 - r))) & M


def murmur(chars, seed, nbytes):
    h = seed
    for c in chars:
        k = rotl(c * 0xCC9E2D51 & M, 15) * 0x1B873593 & M
        h = (rotl(h ^ k, 13) * 5 + 0xE6546B64) & M
    h ^= nbytes
    h = (h ^ h >> 16) * 0x85EBCA6B & M
    h = (h ^ h >> 13) * 0xC2B2AE35 & M
    return h ^ h >> 16


def ulen(c):
    return 1 if c < 0x80 else 2 if c < 0x800 else 3 if c < 0x10000 else 4


class Sheet:
    """One configured glyph set: index, aliases, sprite geometry."""

    def __init__(self, cg, gs):
        self.name = gs["name"]
        self.gs = gs
        self.sprites = os.path.join(cg, gs["sprites"])
        self.index = []  # (cluster, row, col)
        self.aliases = []  # (canonical, alias)
        path = os.path.join(cg, gs["index"])
        if gs["indexType"] == "txt-row-major":
            n = 0
            for line in open(path, encoding="utf-8"):
                t = line.split("#", 1)[0].strip()
                if t:
                    self.index.append((cluster(t), n // gs["cols"], n % gs["cols"]))
                    n += 1
        elif gs["indexType"] == "json-grid-coord":
            for e in json.load(open(path, encoding="utf-8"))["map"]:
                self.index.append((cluster(e["hex"]), e["row"], e["col"]))
        else:
            raise common.Undecided("unknown index type " + gs["indexType"])
        if gs.get("aliases"):
            for line in open(os.path.join(cg, gs["aliases"]), encoding="utf-8"):
                f = line.split("#", 1)[0].strip().split(" ")
                if len(f) == 2 and f[0] and f[1]:
                    self.aliases.append((cluster(f[0]), cluster(f[1])))

    def limits(self, row, col):
        """how much may be trimmed: rows at top/bottom, columns at left/right"""
        size = self.gs["size"]
        if self.name in ("Bold", "Regular", "Small"):
            if (row, col) == (0, 2):
                return size // 2 - 1, size // 2 - 2
        elif self.gs["glyphTrim"] == "CJK":
            return 0, 0
        return size, size

    def glyph(self, img, row, col):
        """(w, h, y-offset, rows) of the trimmed sprite"""
        _, _, px = img
        grid = self.gs["size"] + self.gs["gutter"]
        b = self.gs["border"]
        x0, x1 = b + col * grid, (col + 1) * grid
        y0, y1 = b + row * grid, (row + 1) * grid
        rows = [(px[y] >> x0) & ((1 << (x1 - x0)) - 1) for y in range(y0, y1)]
        tb, lr = self.limits(row, col)
        ink = 0
        for r in rows:
            ink |= r
        w = x1 - x0
        left = 0
        while left < min(lr, w) and not ink >> left & 1:
            left += 1
        right = 0
        while right < min(lr, w - left) and not ink >> (w - 1 - right) & 1:
            right += 1
        w -= left + right
        rows = [(r >> left) & ((1 << w) - 1) for r in rows]
        top = 0
        while top < min(tb, len(rows)) and rows[top] == 0:
            top += 1
        bot = 0
        while bot < min(tb, len(rows) - top) and rows[len(rows) - 1 - bot] == 0:
            bot += 1
        rows = rows[top:len(rows) - bot]
        return w, len(rows), top, rows


def cluster(hexes):
    return "".join(chr(int(h, 16)) for h in hexes.split("-"))


def show(c):
    return "-".join("%X" % ord(x) for x in c)


def pack(w, h, yo, rows):
    """record words: bit p of the stream is pixel (x, y) with p = y*w + (w-1-x)"""
    n = 0
    for r in rows:
        # bit x of r -> position w-1-x from the left, i.e. as the number reads
        n = n << w | r
    words = (w * h + 31) // 32
    n <<= words * 32 - w * h
    return [w << 16 | h << 8 | yo] + [n >> (32 * (words - 1 - k)) & M for k in range(words)]


def sheets():
    cg = os.path.join(common.REPO, "codegen")
    cfg = json.load(open(os.path.join(cg, "config.json"), encoding="utf-8"))
    out = {}
    for gs in cfg["glyphSets"]:
        mod = os.path.splitext(os.path.basename(gs["rustout"]))[0]
        out[mod] = Sheet(cg, gs)
    return out


class Font:
    def __init__(self, d):
        self.__dict__.update(d)
        self.maps = {}

    def table(self, a):
        k = (a["name"], len(a["hash"]), id(a))
        if k not in self.maps:
            self.maps[k] = {"sorted": all(x <= y for x, y in zip(a["hash"], a["hash"][1:])), "hash": a["hash"], "off": a["off"]}
        return self.maps[k]

    def disp(self, c):
        for d in self.dispatch:
            if d["lo"] <= c <= d["hi"]:
                return d
        return None

    def lookup(self, text):
        """What the lookup law gives: (offset, characters used) or None."""
        cs = [ord(c) for c in text]
        d = self.disp(cs[0])
        for a in d["attempts"] if d else []:
            n = min(a["limit"], len(cs))
            h = murmur(cs[:n], a["seed"], sum(ulen(c) for c in cs[:n]))
            i = bisect.bisect_left(a["hash"], h)
            if i < len(a["hash"]) and a["hash"][i] == h and i < len(a["off"]):
                return a["off"][i], n
        return None


def load(r):
    fonts = {}
    for d in rustchecks.fonts():
        fonts[d["module"]] = Font(d)
        for u in d["unknown"]:
            r.undecided.append("font %s: %s" % (d["module"], u))
    sh = sheets()
    for m, s in sh.items():
        if m not in fonts:
            r.undecided.append("no lookup function found for font %s" % m)
    return fonts, sh


def record(f, off):
    """words of the record at off, or None"""
    d = f.data
    if not 0 <= off < len(d):
        return None
    w, h = d[off] >> 16 & 255, d[off] >> 8 & 255
    n = (w * h + 31) // 32
    return d[off:off + 1 + n] if off + 1 + n <= len(d) else None


def path(m):
    return "src/fonts/%s.rs" % m


def c09(r, fonts, sh):
    n = dict(clusters=0, aliases=0, tables=0, ranges=0, single_characters=0, fonts=0)
    samples = []
    for m, f in sorted(fonts.items()):
        if f.unknown or m not in sh:
            continue
        n["fonts"] += 1
        for p in f.problems:
            r.violation("%s:%s" % (m, p), path(m), p)
        s = sh[m]
        known = [c for c, _, _ in s.index] + [a for _, a in s.aliases]
        n["clusters"] += len(s.index)
        n["aliases"] += len(s.aliases)
        for d in f.dispatch:
            if not d["attempts"]:
                continue
            n["ranges"] += 1
            lims = [a["limit"] for a in d["attempts"]]
            for a in d["attempts"]:
                n["tables"] += 1
                if any(x >= y for x, y in zip(a["hash"], a["hash"][1:])):
                    k = next(i for i in range(len(a["hash"]) - 1) if a["hash"][i] >= a["hash"][i + 1])
                    r.violation("%s:%s:sorted" % (m, a["name"]), path(m), "table %s is not strictly increasing at entry %d (%08X, %08X): binary search misses entries" % (a["name"], k, a["hash"][k], a["hash"][k + 1]))
                if len(a["hash"]) != len(a["off"]):
                    r.violation("%s:%s:len" % (m, a["name"]), path(m), "%d hashes but %d offsets in the tables searched for U+%X..U+%X" % (len(a["hash"]), len(a["off"]), d["lo"], d["hi"]))
            here = [c for c in known if d["lo"] <= ord(c[0]) <= d["hi"]]
            # a match of a shorter length tried first would hide a longer one
            for i, l in enumerate(lims):
                later = [x for x in lims[i + 1:] if x > l]
                if later:
                    bad = next((c for c in here if len(c) == max(later) and any(c[:l] == k for k in here)), None)
                    if bad:
                        r.violation("%s:order:%X" % (m, d["lo"]), path(m), "for first characters U+%X..U+%X length %d is tried before %d: %s is found instead of %s" % (d["lo"], d["hi"], l, max(later), show(bad[:l]), show(bad)))
            # single characters that are not listed
            listed = {ord(c) for c in here if len(c) == 1}
            seen = set()
            for a in d["attempts"]:
                key = (tuple(a["hash"]), a["seed"], a["limit"] >= 1)
                if key in seen or a["limit"] < 1:
                    continue
                seen.add(key)
                hs = set(a["hash"])
                for c in range(d["lo"], d["hi"] + 1):
                    if 0xD800 <= c < 0xE000 or c in listed:
                        continue
                    n["single_characters"] += 1
                    if murmur([c], a["seed"], ulen(c)) in hs:
                        r.violation("%s:stray:%X" % (m, c), path(m), "U+%X is not in the font's index but its hash is in table %s" % (c, a["name"]))
        want = {}
        for c, row, col in s.index:
            if c in want:
                r.violation("%s:twice:%s" % (m, show(c)), s.gs["index"], "cluster %s is listed twice" % show(c))
            want[c] = (row, col)
        canon = {}
        for c in want:
            got = f.lookup(c)
            if got is None:
                r.violation("%s:missing:%s" % (m, show(c)), path(m), "looking up listed cluster %s finds nothing" % show(c))
                continue
            if got[1] != len(c):
                r.violation("%s:short:%s" % (m, show(c)), path(m), "looking up listed cluster %s uses only %d of its %d characters" % (show(c), got[1], len(c)))
                continue
            d = f.disp(ord(c[0]))
            if len(c) not in [a["limit"] for a in d["attempts"]]:
                r.violation("%s:length:%s" % (m, show(c)), path(m), "cluster %s has %d characters, a length never tried for U+%X..U+%X, so it is not found when other text follows" % (show(c), len(c), d["lo"], d["hi"]))
            if record(f, got[0]) is None:
                r.violation("%s:record:%s" % (m, show(c)), path(m), "offset %d of %s is outside of DATA" % (got[0], show(c)))
            canon[c] = got[0]
            if len(samples) < 20 and len(samples) < 5 * n["fonts"]:
                samples.append("%s: %s -> DATA[%d] via lengths %s" % (m, show(c), got[0], [a["limit"] for a in d["attempts"]]))
        for c, a in s.aliases:
            got = f.lookup(a)
            if got is None or got[1] != len(a):
                r.violation("%s:alias:%s" % (m, show(a)), path(m), "looking up alias %s finds %s" % (show(a), "nothing" if got is None else "only its first %d characters" % got[1]))
                continue
            d = f.disp(ord(a[0]))
            if len(a) not in [x["limit"] for x in d["attempts"]]:
                r.violation("%s:length:%s" % (m, show(a)), path(m), "alias %s has %d characters, a length never tried for U+%X..U+%X" % (show(a), len(a), d["lo"], d["hi"]))
            if c in canon and got[0] != canon[c]:
                r.violation("%s:alias:%s" % (m, show(a)), path(m), "alias %s gives DATA[%d] but %s gives DATA[%d]" % (show(a), got[0], show(c), canon[c]))
        # different clusters must not share a hash in one table
        by = {}
        for c in known:
            d = f.disp(ord(c[0]))
            for a in d["attempts"] if d else []:
                k = (id(d), a["name"], murmur([ord(x) for x in c], a["seed"], len(c.encode("utf-8"))))
                if by.setdefault(k, c) != c:
                    r.violation("%s:collision:%s" % (m, show(c)), path(m), "%s and %s have the same hash in one table" % (show(c), show(by[k])))
    return n, samples


def c10(r, fonts, sh):
    n = dict(records=0, index_entries=0, words=0, fonts=0)
    samples = []
    for m, f in sorted(fonts.items()):
        if not f.data or f.unknown:
            continue
        n["fonts"] += 1
        offs = set()
        for d in f.dispatch:
            for a in d["attempts"]:
                offs.update(a["off"])
                n["index_entries"] += len(a["off"])
        n["words"] += len(f.data)
        at = 0
        maxh = f.max_height
        for o in sorted(offs):
            if o > at:
                r.violation("%s:gap:%d" % (m, at), path(m), "DATA[%d..%d] belongs to no record an index entry points at" % (at, o))
            elif o < at:
                r.violation("%s:overlap:%d" % (m, o), path(m), "index entry %d points into the record before it, which ends at DATA[%d]" % (o, at))
            rec = record(f, o)
            if rec is None:
                r.violation("%s:end:%d" % (m, o), path(m), "the record at offset %d reaches beyond the end of DATA (%d words)" % (o, len(f.data)))
                at = len(f.data)
                continue
            n["records"] += 1
            at = o + len(rec)
            w, h, yo, top = rec[0] >> 16 & 255, rec[0] >> 8 & 255, rec[0] & 255, rec[0] >> 24
            if top or not 1 <= w <= 32 or h < 1:
                r.violation("%s:header:%d" % (m, o), path(m), "header %08X at DATA[%d]: width %d, height %d" % (rec[0], o, w, h))
            if maxh is not None and h + yo > maxh:
                r.violation("%s:height:%d" % (m, o), path(m), "glyph at DATA[%d] needs %d rows + y-offset %d, more than the font's maximum height %d" % (o, h, yo, maxh))
            pad = (len(rec) - 1) * 32 - w * h
            if pad and rec[-1] & ((1 << pad) - 1):
                r.violation("%s:pad:%d" % (m, o), path(m), "unused trailing bits of the glyph at DATA[%d] are not zero" % o)
            if len(samples) < 4 * n["fonts"]:
                samples.append("%s DATA[%d]: %dx%d y-offset %d, %d words" % (m, o, w, h, yo, len(rec)))
        if offs and at < len(f.data):
            r.violation("%s:gap:%d" % (m, at), path(m), "DATA[%d..%d] belongs to no record an index entry points at" % (at, len(f.data)))
    return n, samples


def c11(r, fonts, sh):
    n = dict(sprites=0, pixels=0, fonts=0)
    samples = []
    for m, f in sorted(fonts.items()):
        if f.unknown or m not in sh:
            continue
        s = sh[m]
        n["fonts"] += 1
        try:
            img = pngread.black(s.sprites)
        except (OSError, ValueError) as e:
            raise common.Undecided("sprite sheet unreadable: %s" % e)
        size, grid = s.gs["size"], s.gs["size"] + s.gs["gutter"]
        for c, row, col in s.index:
            if not (0 <= row and (row + 1) * grid <= img[1] and 0 <= col < s.gs["cols"] and (col + 1) * grid <= img[0]):
                r.violation("%s:cell:%s" % (m, show(c)), s.gs["index"], "the grid cell (row %d, column %d) of %s is not on the sheet" % (row, col, show(c)))
                continue
            got = f.lookup(c)
            if got is None or got[1] != len(c):
                continue  # C09's
            w, h, yo, rows = s.glyph(img, row, col)
            want = pack(w, h, yo, rows)
            rec = record(f, got[0])
            n["sprites"] += 1
            n["pixels"] += w * h
            if rec != want:
                if rec is None:
                    what = "offset %d is outside of DATA" % got[0]
                elif rec[0] != want[0]:
                    what = "header is %dx%d y-offset %d, the sprite is %dx%d y-offset %d" % (rec[0] >> 16 & 255, rec[0] >> 8 & 255, rec[0] & 255, w, h, yo)
                else:
                    k = next(i for i in range(len(want)) if rec[i] != want[i])
                    what = "DATA[%d] is %08X, the sprite gives %08X" % (got[0] + k, rec[k], want[k])
                r.violation("%s:sprite:%s" % (m, show(c)), path(m), "glyph %s at DATA[%d] differs from its sprite (row %d, column %d): %s" % (show(c), got[0], row, col, what))
            elif len(samples) < 4 * n["fonts"]:
                samples.append("%s %s: sprite (%d, %d) = DATA[%d..%d]" % (m, show(c), row, col, got[0], got[0] + len(rec)))
    return n, samples


def c12(r, fonts, sh):
    n = dict(decompositions=0, aliases=0, fonts=0)
    samples = []
    for m, f in sorted(fonts.items()):
        if f.unknown or m not in sh:
            continue
        n["fonts"] += 1
        s = sh[m]
        pairs = [(c, a, "aliases") for c, a in s.aliases]
        if m in ("bold", "regular", "small"):
            for c, _, _ in s.index:
                if len(c) == 1 and unicodedata.normalize("NFD", c) != c and unicodedata.category(c).startswith("L"):
                    pairs.append((c, unicodedata.normalize("NFD", c), "decompositions"))
        for c, a, kind in pairs:
            x, y = f.lookup(c), f.lookup(a)
            n[kind] += 1
            if x is None or x[1] != len(c) or y is None or y[1] != len(a) or x[0] != y[0]:
                def s_(v):
                    return "nothing" if v is None else "DATA[%d] using %d character(s)" % v
                r.violation("%s:%s:%s" % (m, show(c), show(a)), path(m), "%s gives %s but its equivalent spelling %s gives %s" % (show(c), s_(x), show(a), s_(y)))
            elif len(samples) < 6 * n["fonts"]:
                samples.append("%s: %s = %s -> DATA[%d]" % (m, show(c), show(a), x[0]))
    return n, samples


RULES = {
    "C09": "for each listed cluster and alias: its first character's range is dispatched to a table holding its hash with that cluster's offset, its length is among the lengths tried, no shorter length is tried before a longer listed one; tables strictly increasing; no unlisted single character of a dispatched range has its hash in the range's table",
    "C10": "records at the offsets of all index entries tile DATA; header fields in range; trailing bits zero",
    "C11": "the record words of each listed cluster equal the words obtained from its cell of the sprite sheet under the trimming rule",
    "C12": "both spellings are dispatched to tables holding their hashes with one and the same offset",
}
FN = {"C09": c09, "C10": c10, "C11": c11, "C12": c12}


def run(r):
    fonts, sh = load(r)
    n, samples = FN[r.prop](r, fonts, sh)
    r.coverage = {"explanation": "Font tables (constants evaluated by the compiler) and lookup structure (ranges, lengths, tables, seeds, offset tables; derived by abstract interpretation of each get_blit_pattern_offset) against the index, alias and sprite files. " + RULES[r.prop],
                  "samples": samples}
    r.coverage.update(n)
    if n["fonts"] < 1 and not r.undecided:
        r.undecided.append("no font analysed")
    ob = sum(v for k, v in n.items() if k not in ("fonts", "words"))
    r.coverage.update(obligations=ob + len(r.viol) + len(r.undecided), discharged=ob, checker_cmd="python3 check.py " + r.prop,
                      trusted_base=["rustc's constant evaluation and MIR", "the analyser's derivation of the lookup structure (analyzer/src/fonts.rs)", "C13 (the hash is Murmur3)", "zlib, Python's unicodedata"])
    r.level = "proof" if not r.undecided and not r.viol else "other"
