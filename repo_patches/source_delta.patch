From 182bad37f5fd9658efe63175c9a63ba13f183fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:29 +0000
Subject: [PATCH 1/6] fix: clear_region overflowed its shift when clip.max.x is
 a multiple of 32

The high word mask was computed as 0xffffffff >> (32 - 0): a panic with
overflow checks, and a whole extra word cleared without them.
---
 src/blit.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/blit.rs b/src/blit.rs
index ecb6496..b8df613 100644
--- a/src/blit.rs
+++ b/src/blit.rs
@@ -31,7 +31,8 @@ pub fn clear_region(fb: &mut FrBuf, clip: ClipRect) {
         for w in dest_low_word + 1..dest_high_word {
             fb[base + w] = 0xffffffff;
         }
-        if dest_low_word < dest_high_word {
+        // When clip.max.x is a multiple of 32, there is no partial high word
+        if dest_low_word < dest_high_word && px_in_dest_high_word > 0 {
             fb[base + dest_high_word] |= 0xffffffff >> (32 - px_in_dest_high_word);
         }
     }
-- 
2.43.0


From 6612771334219062f9a63296f63c67c0ec6362ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:29 +0000
Subject: [PATCH 2/6] fix: clear_region cleared past clip.max.x when both edges
 are in one word

---
 src/blit.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/blit.rs b/src/blit.rs
index b8df613..14c3160 100644
--- a/src/blit.rs
+++ b/src/blit.rs
@@ -27,12 +27,19 @@ pub fn clear_region(fb: &mut FrBuf, clip: ClipRect) {
     // Blit it
     for y in clip.min.y..clip.max.y {
         let base = y * WORDS_PER_LINE;
+        if dest_low_word == dest_high_word {
+            // Both edges are in the same word, so don't clear past the right edge
+            let low_mask = 0xffffffff << (32 - px_in_dest_low_word);
+            let high_mask = 0xffffffff >> (32 - px_in_dest_high_word);
+            fb[base + dest_low_word] |= low_mask & high_mask;
+            continue;
+        }
         fb[base + dest_low_word] |= 0xffffffff << (32 - px_in_dest_low_word);
         for w in dest_low_word + 1..dest_high_word {
             fb[base + w] = 0xffffffff;
         }
         // When clip.max.x is a multiple of 32, there is no partial high word
-        if dest_low_word < dest_high_word && px_in_dest_high_word > 0 {
+        if px_in_dest_high_word > 0 {
             fb[base + dest_high_word] |= 0xffffffff >> (32 - px_in_dest_high_word);
         }
     }
-- 
2.43.0


From 1692a6e9852647e460160d29ce15462a6b44b6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:29 +0000
Subject: [PATCH 3/6] fix: glyphs wider than the clip rect were painted past
 its right edge

After wrapping, a glyph was blitted at clip.min.x + 1 whether or not it fits,
which painted outside of the clip rect, into the next row, or out of range.
---
 src/blit.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/blit.rs b/src/blit.rs
index 14c3160..1c5179a 100644
--- a/src/blit.rs
+++ b/src/blit.rs
@@ -141,6 +141,10 @@ fn xor_char(
     if gh.w > 32 {
         return Ok(0);
     }
+    // Skip glyph if it is too wide for the clip rect, even at the start of a line
+    if clip.min.x + 1 + gh.w > clip.max.x {
+        return Ok(0);
+    }
     // Don't clip if cursor is left of clip rect; instead, advance the cursor
     if c.pt.x < clip.min.x {
         c.pt.x = clip.min.x;
-- 
2.43.0


From 911dd0c0a5f464cef45974c92d6209b31ffa3db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:29 +0000
Subject: [PATCH 4/6] fix: cursor arithmetic overflowed for cursors far outside
 of the screen

---
 src/blit.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/blit.rs b/src/blit.rs
index 1c5179a..72b0250 100644
--- a/src/blit.rs
+++ b/src/blit.rs
@@ -92,7 +92,7 @@ fn newline(clip: ClipRect, c: &mut Cursor) {
     if c.line_height < fonts::small::MAX_HEIGHT as usize {
         c.line_height = fonts::small::MAX_HEIGHT as usize;
     }
-    c.pt.y += c.line_height + 1;
+    c.pt.y = c.pt.y.saturating_add(c.line_height).saturating_add(1);
     c.line_height = 0;
 }
 
@@ -150,9 +150,9 @@ fn xor_char(
         c.pt.x = clip.min.x;
     }
     // Add 1px pad to left
-    let mut x0 = c.pt.x + 1;
+    let mut x0 = c.pt.x.saturating_add(1);
     // Adjust for word wrapping
-    if x0 + gh.w + 2 >= clip.max.x {
+    if x0.saturating_add(gh.w + 2) >= clip.max.x {
         newline(clip, c);
         x0 = c.pt.x + 1;
     }
@@ -162,7 +162,7 @@ fn xor_char(
     let dest_high_word = x1 >> 5;
     let px_in_dest_low_word = 32 - (x0 & 0x1f);
     // Blit it
-    let y0 = c.pt.y + gh.y_offset;
+    let y0 = c.pt.y.saturating_add(gh.y_offset);
     if y0 > clip.max.y {
         return Ok(0); // Entire glyph is outside clip rect, so clip it
     }
-- 
2.43.0


From 51796fd3236716e0bc3ac24cca5578d7bdf1db99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:29 +0000
Subject: [PATCH 5/6] fix: paint_str repeated the replacement glyph for an
 unsupported last char

The last char was never consumed, so a replacement glyph was painted for each
remaining pass of the loop over s.len().
---
 src/blit.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/blit.rs b/src/blit.rs
index 72b0250..82486cc 100644
--- a/src/blit.rs
+++ b/src/blit.rs
@@ -78,8 +78,7 @@ pub fn paint_str(fb: &mut FrBuf, clip: ClipRect, c: &mut Cursor, st: GlyphStyle,
                 if let Some((i, _)) = cluster.char_indices().nth(1) {
                     cluster = &cluster[i..];
                 } else {
-                    //cluster = &cluster[1..];
-                    //break; // That was the last char, so stop now
+                    break; // That was the last char, so stop now
                 }
             }
         }
-- 
2.43.0


From 29ab2664c91830d72b2ddb8b0d6d9713179efede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:29 +0000
Subject: [PATCH 6/6] fix: codegen ignored failure to write a font file

---
 codegen/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/codegen/main.go b/codegen/main.go
index ba26deb..06c1524 100644
--- a/codegen/main.go
+++ b/codegen/main.go
@@ -40,7 +40,10 @@ func codegen() {
 		// Generate rust source code and write it to a file
 		code := RenderFontFileTemplate(f, gs, f.M3Seed)
 		fmt.Println("Writing to", f.RustOut)
-		ioutil.WriteFile(f.RustOut, []byte(code), 0644)
+		err := ioutil.WriteFile(f.RustOut, []byte(code), 0644)
+		if err != nil {
+			panic(err)
+		}
 	}
 }
 
-- 
2.43.0

