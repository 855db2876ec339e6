#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the wording is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)
BLIT = "src/blit.rs"
p("C01", "Painting and clearing never panic",
  "Neither painting a string nor clearing a region ever panics (no out-of-range index, no arithmetic or shift overflow, no slice of a string off a character boundary), whatever the frame buffer contents, clip rectangle (any four coordinates), cursor (any position and line height), style and string. The same calls always return, after at most one pass of work per byte of the string.",
  ["inputs"], "every frame buffer content, ClipRect, Cursor, GlyphStyle and &str, with overflow checks on",
  "Tests use the full and padded screen, one derived box and short strings; narrow rectangles, word-aligned edges and cursors far outside the screen are never tried.",
  [BLIT, "src/fonts.rs", "src/fonts/*.rs", "src/m3hash.rs"],
  [("early returns on bad clip", BLIT+" xor_char, clear_region"), ("y_max clipping", BLIT+" xor_char"), ("bounded loop over s.len()", BLIT+" paint_str")],
  ["paint_str", "clear_region"], [("frame buffer", "336x536 one-bit pixels in 11-word rows", "src/framebuffer.rs FrBuf")])
p("C02", "Painting never changes a pixel outside the clip rectangle",
  "Painting a string changes no pixel outside the clip rectangle (min inclusive, max exclusive), including the padding bits to the right of the screen and the neighbouring rows, for every clip rectangle, cursor, style and string. A clip rectangle that is empty or reaches beyond the screen gets nothing painted.",
  ["inputs"], "every clip rectangle, cursor, style, string and prior frame buffer",
  "The tests hash whole screens for a dozen fixed scenes; none has a glyph wider than its clip rectangle, a clip edge cutting a glyph's rows in each way, or a cursor outside the clip.",
  [BLIT], [("row clipping and word masks", BLIT+" xor_char")], ["paint_str frame buffer"])
p("C03", "Clearing sets exactly the pixels of the rectangle",
  "Clearing a region sets every pixel with min.x <= x < max.x and min.y <= y < max.y to clear (bit value 1) and leaves every other bit of the frame buffer as it was, for any rectangle within the screen, however its edges fall relative to 32-bit word boundaries. A rectangle that is empty, inverted or reaches beyond the screen changes nothing.",
  ["inputs"], "every clip rectangle and prior frame buffer",
  "The only direct test clears the full screen, so rectangles inside one word, ending on a word boundary or starting mid-word are never observed.",
  [BLIT], [("low/high word masks and middle fill", BLIT+" clear_region")], ["clear_region frame buffer"])
p("C04", "Painting is XOR: contents only ever get toggled, never read out",
  "Painting changes the frame buffer only by inverting pixels, and which pixels get inverted and where the cursor ends up do not depend on the frame buffer's contents. So painting the same string again from the same starting cursor restores the original picture exactly.",
  ["inputs", "histories"], "every prior frame buffer content, clip rectangle, cursor, style and string",
  "Every test starts from a cleared screen, so overwriting (OR, assignment) instead of XOR can hide, and nothing is painted twice.",
  [BLIT], [("fb[i] ^= pattern", BLIT+" xor_char")], ["paint_str frame buffer and cursor"])
p("C05", "Each glyph is painted pixel for pixel at the cursor",
  "A painted glyph inverts exactly its set bitmap pixels: its left column lies 1 pixel right of the cursor (after any wrap), its top row lies its y-offset below the cursor, and rows that fall above or below the clip rectangle are left out while all other rows are painted completely. Bitmaps are stored row by row, most significant bit first, each row mirrored (last column first), in the words after the glyph header.",
  ["inputs"], "every glyph in every font, every cursor and bit alignment, every vertical clip",
  "Hash tests cover some glyphs at the alignments a few fixed strings produce; glyph width x bit alignment x row phase is a product of thousands of combinations.",
  [BLIT, "src/fonts.rs"], [("word alignment and masking", BLIT+" xor_char"), ("header and word access", "src/fonts.rs GlyphData")], ["paint_str frame buffer"])
p("C06", "Cursor advance, wrapping and line height follow one law",
  "Painting a glyph of width w first moves a cursor left of the clip to the clip's left edge, then, if x+1+w+2 >= clip.max.x, breaks the line; after the glyph is painted x has advanced by w+3 and the line height is the larger of its value so far on this line and the maximum height of the glyph's font. A line break (newline character or wrap) moves x to clip.min.x and y down by one more than the larger of the line height and the small font's height, and resets the line height to 0. Coordinates saturate instead of overflowing. A glyph that cannot be painted never advances x or raises the line height: when it is wider than the clip can hold or the clip is invalid the cursor stays as it was, and when its top row (y plus y-offset) would start beyond clip.max.y only the left-edge and wrap steps happen. Nothing else moves the cursor: painting an empty text leaves it alone, and a text painted in pieces that end between graphemes, reusing the cursor, ends with the cursor and picture of painting it whole.",
  ["inputs", "histories"], "every cursor, clip rectangle and sequence of glyphs, styles and newlines",
  "Cursor values are only checked indirectly through a handful of screen hashes; a drift needs a particular mix of fonts, wraps or clip edges.",
  [BLIT, "src/cursor.rs"], [("newline()", BLIT), ("cursor update", BLIT+" xor_char")], ["Cursor after paint_str"],
  [("cursor", "pt and line_height carried across calls", "src/cursor.rs")])
p("C07", "Text is consumed one grapheme at a time, each painted at most once",
  "Painting walks the string from left to right; each step consumes exactly one newline, one matched grapheme cluster, or one unsupported character, and an unsupported character (also as the last one of the string) is shown as exactly one replacement glyph. Nothing else of the string is consumed and no other glyph is painted in that step. A step whose matched glyph cannot be painted because of the clip paints nothing and consumes nothing, so painting stops there; when the clip rectangle is invalid (empty, inverted or beyond the screen) no character paints anything, and painting may stop at the first character that is not a newline.",
  ["inputs"], "every string, including unsupported characters at every position, empty strings and multi-byte characters",
  "No test paints an unsupported character at all, let alone at the end of a string.",
  [BLIT], [("cluster slicing and fallback", BLIT+" paint_str")], ["paint_str frame buffer and cursor"])
p("C08", "Glyph choice: newline, emoji, style's Latin font, hanzi, replacement",
  "At each position a newline breaks the line; otherwise the emoji font is consulted first, then the Latin font of the requested style (and no other Latin font), then hanzi, and only when all fail is U+FFFD of that Latin font painted. The style therefore affects only Latin and replacement glyphs.",
  ["inputs"], "every string position and every style",
  "One emoji and a few ASCII letters are tried per style; precedence between fonts that share Unicode blocks is not tested.",
  [BLIT, "src/fonts.rs"], [("if-let chain", BLIT+" paint_str"), ("GlyphSet dispatch", BLIT+" xor_char")], ["paint_str frame buffer"])
p("C09", "Every indexed grapheme cluster is found, longest match first",
  "For every grapheme cluster and alias that the fonts' index files list, looking up a string that starts with it finds the glyph record of that cluster, using exactly the cluster's bytes, unless a longer listed cluster matches; and no unlisted single character matches anything (an unlisted longer sequence could only match by a coincidence of its 32-bit hash). Lookup needs every cluster filed under its first character's block, its table sorted by hash, every cluster length tried, longest first.",
  ["inputs"], "all clusters and aliases of the five fonts (about 12,000 glyphs), and all 1.1M single characters",
  "Unit tests check only that the hash arrays are sorted; about twenty clusters are ever looked up.",
  ["src/fonts/bold.rs", "src/fonts/emoji.rs", "src/fonts/hanzi.rs", "src/fonts/regular.rs", "src/fonts/small.rs", "codegen/src_data/*"],
  [("block dispatch", "src/fonts/*.rs get_blit_pattern_offset"), ("binary search per block", "src/fonts/*.rs find_*")], ["glyph painted for a cluster"])
p("C10", "Font tables are structurally sound",
  "In each font, every index entry points at a glyph header, glyph records tile the bitmap data exactly (each is one header word plus the words needed for width x height bits, unused trailing bits zero), each width is between 1 and 32, and each glyph's y-offset plus height is at most the font's declared maximum height.",
  ["inputs"], "every index entry and every glyph record of the five fonts",
  "No test looks at offsets, headers or the bitmap data except through a few rendered strings.",
  ["src/fonts/bold.rs", "src/fonts/emoji.rs", "src/fonts/hanzi.rs", "src/fonts/regular.rs", "src/fonts/small.rs", "src/fonts.rs"],
  [("OFFSET_*/DATA arrays", "src/fonts/*.rs")], ["glyph headers and data words"])
p("C11", "Every font bitmap is the sprite its source sheet shows",
  "For each grapheme cluster in a font's index, the bitmap, width, height and y-offset in the Rust font equal the sprite at that cluster's grid position in the font's PNG sheet after the font's trimming rule. No glyph is missing, swapped or altered.",
  ["inputs"], "all glyphs of all five fonts (12,355 sprites)",
  "Tests render a few dozen of the glyphs.",
  ["src/fonts/*.rs", "codegen/src_data/*", "codegen/config.json"], [("DATA arrays", "src/fonts/*.rs")], ["glyph painted for a cluster"])
p("C12", "Equivalent spellings of a character show the same glyph",
  "A Latin letter written precomposed and the same letter written as base letter plus combining mark map to the same glyph in each Latin font that has it, and an emoji spelled with the variation selector U+FE0F listed as an alias maps to the same glyph as without it.",
  ["inputs"], "every canonical decomposition available for indexed Latin characters; every emoji alias",
  "One letter (a-umlaut) and one emoji alias appear in the tests.",
  ["src/fonts/bold.rs", "src/fonts/regular.rs", "src/fonts/small.rs", "src/fonts/emoji.rs", "codegen/src_data/latin_aliases.txt", "codegen/src_data/emoji_13_0_aliases.txt"],
  [("alias entries in HASH_/OFFSET_ tables", "src/fonts/*.rs")], ["glyph painted for a cluster"])
p("C13", "Lookup hash and generator hash are the same function",
  "For every string, seed and limit, the hash the Rust lookup computes over the first limit characters equals Murmur3 with one 32-bit block per character, finished with the byte length of those characters, and the byte count it reports is exactly those characters' length. The font generator's hash (Go) is the same function for a whole string, so tables made by one are found by the other.",
  ["inputs"], "every string, seed and limit",
  "Four fixed strings are hashed in Rust tests; the Go side has no test.",
  ["src/m3hash.rs", "src/fonts.rs", "codegen/lib/murmur3.go"], [("grapheme_cluster()", "src/m3hash.rs"), ("Murmur3()", "codegen/lib/murmur3.go")], ["hash values, bytes used"])
p("C14", "Clip rectangle constructors always yield ordered corners",
  "Building a rectangle from any two opposite corners, given in any order, yields the same rectangle with min.x <= max.x and min.y <= max.y whose x and y extremes are exactly the given ones. The full-screen rectangle is exactly (0,0)..(336,536), the padded one is inset by 6 pixels on every side, and a cursor made for a rectangle starts at its min corner with line height 0.",
  ["inputs"], "all 2^256 coordinate combinations",
  "Three fixed corner orders are tested.",
  ["src/cliprect.rs", "src/cursor.rs", "src/pt.rs"], [("min/max fixup", "src/cliprect.rs ClipRect::new")], ["ClipRect, Cursor, Pt values"])
p("C15", "Style/number conversion round-trips and unknown numbers mean Regular",
  "Converting any style to a number and back gives the same style, the numbers are 0 for Small, 1 for Regular and 2 for Bold, and every other number converts to Regular.",
  ["inputs"], "every usize",
  "255 is the only out-of-range number tested.",
  ["src/glyphstyle.rs"], [("From/Into impls", "src/glyphstyle.rs")], ["GlyphStyle::from, Into<usize>"])
p("C16", "Height hint and line spacing cover every glyph of the style's font",
  "The height hint of a style equals the maximum height of the font that painting in that style uses, and it is at least y-offset plus height of each glyph of that font. After a line break below a line of painted glyphs, the new line starts strictly below every pixel those glyphs can have touched.",
  ["inputs", "histories"], "every style, every glyph of every font, every mix of fonts on a line",
  "Only the three numbers 24/30/30 are tested, not their relation to what painting does.",
  ["src/glyphstyle.rs", BLIT, "src/fonts/*.rs"], [("glyph_to_height_hint", "src/glyphstyle.rs"), ("line_height update", BLIT+" xor_char"), ("newline", BLIT)], ["glyph_to_height_hint, Cursor"])
p("C17", "The library keeps no hidden state and touches only its arguments",
  "Painting and clearing depend on nothing but their arguments and change nothing but the frame buffer and the cursor: the library has no mutable global state, no unsafe code, no allocation, no I/O and no link to the standard library. Every module forbids unsafe code.",
  ["histories", "schedules"], "every sequence and interleaving of calls",
  "Tests cannot show the absence of hidden state; each starts fresh and runs each scene once.",
  ["src/lib.rs", "src/blit.rs", "src/fonts.rs"], [("no_std, forbid(unsafe_code)", "src/lib.rs")], ["whole library"])
p("C18", "Demo screens come out the same whatever was on the screen",
  "Each demo screen first clears the full screen and changes the frame buffer only through clearing and painting, with arguments that do not depend on its contents, so the visible result is the same for every prior frame buffer content.",
  ["inputs", "histories"], "every prior frame buffer content, every order of demo calls",
  "Tests start from the striped initial buffer or one fixed earlier demo.",
  ["src/demo.rs", "src/blit.rs"], [("clear_region(full_screen) first", "src/demo.rs")], ["demo::sample_text, short_greeting, goose_poem"])
p("C19", "The web demo shows exactly the frame buffer's pixels",
  "The JavaScript side and the Rust side agree on frame buffer geometry (536 lines of 11 32-bit little-endian words, 336 visible pixels per line), the pointer handed to JavaScript is the buffer the demo paints, and each canvas pixel (x, y) shows bit x mod 32 of word x div 32 of line y, 1 being transparent and 0 opaque in one fixed colour, with padding bits never shown.",
  ["inputs", "configurations"], "every pixel of every frame buffer content",
  "There is no test of the wasm demo or its JavaScript.",
  ["wasm_demo/src/lib.rs", "wasm_demo/wasm.js", "wasm_demo/main.js", "src/framebuffer.rs"],
  [("frame_buf_ptr/init", "wasm_demo/src/lib.rs"), ("frameBuf()", "wasm_demo/wasm.js"), ("repaint()", "wasm_demo/main.js")], ["canvas"])
p("C20", "The documented public API exists with the documented types",
  "Every item in the API document is exported from the crate root with exactly the documented signature, fields and constants, structs stay plain public data that callers can build, copy, compare and print, and buffers of a wrong size or shared (non-mutable) buffers and cursors are rejected at compile time.",
  ["programs"], "every client program written against doc/API.md",
  "Tests inside the crate use crate-private paths and only some of the items; nothing tests that misuse fails to compile.",
  ["src/lib.rs", "src/api/v1.rs", "doc/API.md"], [("re-exports", "src/api/v1.rs")], ["client programs"])
p("C21", "The font generator writes only when told to, only the configured files",
  "Running the generator without the --write switch, with other or additional arguments, never creates, changes or removes a file; with it, the only files written are the configured Rust output files.",
  ["inputs"], "every command line and configuration",
  "The Go generator has no tests and running it would overwrite the fonts.",
  ["codegen/main.go", "codegen/lib/*.go"], [("confirm switch", "codegen/main.go main")], ["file system"])
p("C22", "The font generator's output depends only on its inputs",
  "The generated text is a function of the configuration, index, alias, legal and PNG files: it does not depend on map iteration order, time, randomness, environment, or concurrency, so regenerating from the same inputs gives identical files.",
  ["histories", "schedules"], "every run, every map iteration order",
  "The generator has no tests; Go randomises map order per run.",
  ["codegen/main.go", "codegen/lib/*.go"], [("sorting of index keys and cluster lengths", "codegen/lib/glyphset.go, blockindex.go")], ["generated files"])
p("C23", "The font generator never ignores a failure",
  "Every error result in the generator (reading configuration, index, alias, legal and PNG files, parsing, template rendering, writing the output) is checked, and a failure stops the run with a panic instead of producing a wrong, partial or silently missing font file.",
  ["fault_sequences", "inputs"], "every I/O or parse failure at every call",
  "The generator has no tests and no fault injection.",
  ["codegen/main.go", "codegen/lib/*.go"], [("if err != nil panic", "codegen/**")], ["exit status, generated files"])
p("C24", "Generator block table is a partition that the lookup code mirrors",
  "The generator's table of Unicode blocks has non-overlapping ranges with distinct names, a first character belongs to at most one block, and every character range a Rust font dispatches on is exactly one block of that table.",
  ["inputs", "configurations"], "every code point, every font",
  "The generator has no tests; a wrong range only matters for the characters next to its ends.",
  ["codegen/lib/ublock.go", "src/fonts/*.rs"], [("knownBlocks()", "codegen/lib/ublock.go"), ("match arms", "src/fonts/*.rs")], ["lookup results"])
p("C25", "Frame buffer geometry is consistent",
  "The frame buffer has exactly lines x words-per-line 32-bit words, a line's words hold at least the screen width with less than one spare word, and a new frame buffer holds the stripe word 0xffff0000 everywhere.",
  ["configurations"], "all exported constants and every word of a new buffer",
  "The size product is tested; the width relation and the fill are not.",
  ["src/framebuffer.rs"], [("constants, new_fr_buf", "src/framebuffer.rs")], ["exported constants, new_fr_buf()"])
p("C26", "Regenerating the fonts reproduces the committed files byte for byte",
  "Running the font generator on the committed inputs reproduces the committed Rust font files exactly.",
  ["configurations"], "the committed inputs of all five fonts",
  "No test runs the generator.",
  ["codegen/**", "src/fonts/*.rs"], [("codegen()", "codegen/main.go")], ["generated files"])
p("C27", "The committed web demo binary is built from the committed sources",
  "The committed demo.wasm behaves like a build of the committed Rust sources.",
  ["programs"], "all code in the binary",
  "No test loads the binary.",
  ["wasm_demo/demo.wasm"], [("make install", "wasm_demo/Makefile")], ["canvas"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
