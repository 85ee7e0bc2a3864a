From eb5af715842cf31c68f2f8f22f27323c07b85b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:43 +0000
Subject: [PATCH 01/48] fix: clamp a region's bottom against the clamping
 region's height, not its width

---
 region.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/region.go b/region.go
index ae93c48..b809c1e 100644
--- a/region.go
+++ b/region.go
@@ -43,6 +43,6 @@ func (r Region) Clamp(rc Region) Region {
 		X:  nx,
 		X2: clamp(r.X2, nx, rc.X2),
 		Y:  ny,
-		Y2: clamp(r.Y2, ny, rc.X2),
+		Y2: clamp(r.Y2, ny, rc.Y2),
 	}
 }
-- 
2.43.0


From 04e07fbdb0154b2565f58d45b0f0af10c4ab7a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:45 +0000
Subject: [PATCH 02/48] fix: saturate CSI parameters instead of overflowing int

---
 escapes.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/escapes.go b/escapes.go
index a70bc01..04177fc 100644
--- a/escapes.go
+++ b/escapes.go
@@ -19,6 +19,9 @@ var colorModes = [7]Mode{
 	ModeInvisible, // SGR 8
 }
 
+// maxCSIParam is the value at which a numeric CSI parameter stops growing.
+const maxCSIParam = 1 << 24
+
 func (t *terminal) ptyReadLoop() {
 	reader := bufio.NewReader(t.backend)
 	gr := NewGraphemeReaderWithMode(reader, t.textReadMode)
@@ -294,7 +297,9 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 			paramSet = false
 			sawSeparator = true
 		} else {
-			param = param*10 + int(b-'0')
+			if param < maxCSIParam { // saturate instead of overflowing on absurdly long numbers
+				param = param*10 + int(b-'0')
+			}
 			paramSet = true
 			sawSeparator = false
 		}
-- 
2.43.0


From d002176e161f37172d8ecc75f61c279593258b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:32 +0000
Subject: [PATCH 03/48] fix: limit a scroll to the height of its region and
 ignore inverted row ranges

---
 screen.go      | 4 ++--
 screen_grid.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/screen.go b/screen.go
index 4d652f9..f74a422 100644
--- a/screen.go
+++ b/screen.go
@@ -3,7 +3,6 @@ package termemu
 import (
 	"bytes"
 	"fmt"
-	"os"
 	"strings"
 )
 
@@ -435,8 +434,9 @@ func (s *spanScreen) scroll(y1 int, y2 int, dy int) {
 	y1 = clamp(y1, 0, s.size.Y-1)
 	y2 = clamp(y2, 0, s.size.Y-1)
 	if y1 > y2 {
-		fmt.Fprintln(os.Stderr, "scroll ys out of order", y1, y2, dy)
+		return
 	}
+	dy = clamp(dy, -(y2 - y1 + 1), y2-y1+1)
 
 	if dy > 0 {
 		for y := y2; y >= y1+dy; y-- {
diff --git a/screen_grid.go b/screen_grid.go
index 634d210..03f38b1 100644
--- a/screen_grid.go
+++ b/screen_grid.go
@@ -3,7 +3,6 @@ package termemu
 import (
 	"bytes"
 	"fmt"
-	"os"
 	"strings"
 	"unicode/utf8"
 
@@ -579,8 +578,9 @@ func (s *gridScreen) scroll(y1 int, y2 int, dy int) {
 	// 	fmt.Println("scroll outside margin", y, s.topMargin, s.bottomMargin)
 	// }
 	if y1 > y2 {
-		fmt.Fprintln(os.Stderr, "scroll ys out of order", y1, y2, dy)
+		return
 	}
+	dy = clamp(dy, -(y2 - y1 + 1), y2-y1+1)
 
 	if dy > 0 {
 		for y := y2; y >= y1+dy; y-- {
-- 
2.43.0


From 10a2b36e98dfd662c2ace4eddeb15ea82119c5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:33 +0000
Subject: [PATCH 04/48] fix: ignore a DECSTBM request whose top lies below its
 bottom

---
 escapes.go     | 2 +-
 screen.go      | 9 +++++++--
 screen_grid.go | 9 +++++++--
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/escapes.go b/escapes.go
index 04177fc..5d1be67 100644
--- a/escapes.go
+++ b/escapes.go
@@ -700,7 +700,7 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 			if len(params) >= 1 {
 				top = params[0]
 			}
-			if len(params) >= 2 {
+			if len(params) >= 2 && params[1] != 0 {
 				bottom = params[1]
 			}
 			// debugPrintf("cursor home: %v, %v\n", x, y)
diff --git a/screen.go b/screen.go
index f74a422..33a348d 100644
--- a/screen.go
+++ b/screen.go
@@ -425,8 +425,13 @@ func (s *spanScreen) setCursorPos(x, y int) {
 
 func (s *spanScreen) setScrollMarginTopBottom(top, bottom int) {
 	debugPrintln(debugScroll, "scroll margins:", top, bottom)
-	s.topMargin = clamp(top, 0, s.size.Y-1)
-	s.bottomMargin = clamp(bottom, 0, s.size.Y-1)
+	top = clamp(top, 0, s.size.Y-1)
+	bottom = clamp(bottom, 0, s.size.Y-1)
+	if top > bottom {
+		return
+	}
+	s.topMargin = top
+	s.bottomMargin = bottom
 }
 
 func (s *spanScreen) scroll(y1 int, y2 int, dy int) {
diff --git a/screen_grid.go b/screen_grid.go
index 03f38b1..4de1577 100644
--- a/screen_grid.go
+++ b/screen_grid.go
@@ -566,8 +566,13 @@ func (s *gridScreen) setCursorPos(x, y int) {
 
 func (s *gridScreen) setScrollMarginTopBottom(top, bottom int) {
 	debugPrintln(debugScroll, "scroll margins:", top, bottom)
-	s.topMargin = clamp(top, 0, s.size.Y-1)
-	s.bottomMargin = clamp(bottom, 0, s.size.Y-1)
+	top = clamp(top, 0, s.size.Y-1)
+	bottom = clamp(bottom, 0, s.size.Y-1)
+	if top > bottom {
+		return
+	}
+	s.topMargin = top
+	s.bottomMargin = bottom
 }
 
 func (s *gridScreen) scroll(y1 int, y2 int, dy int) {
-- 
2.43.0


From 325ee0d307294401bdb8623aead8c7c1eb4a1fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:02 +0000
Subject: [PATCH 05/48] fix: scroll only when the cursor crosses a margin from
 inside the region; CR and CUD never scroll

---
 escapes.go     |  4 ++--
 screen.go      |  8 ++++----
 screen_grid.go | 14 ++++----------
 3 files changed, 10 insertions(+), 16 deletions(-)

diff --git a/escapes.go b/escapes.go
index 5d1be67..f21e826 100644
--- a/escapes.go
+++ b/escapes.go
@@ -133,7 +133,7 @@ func (t *terminal) ptyReadOne(gr *GraphemeReader) error {
 
 	case 13: // CR ^M Carriage Return
 		t.WithLock(func() {
-			t.screen().moveCursor(-t.screen().CursorPos().X, 0, true, true)
+			t.screen().moveCursor(-t.screen().CursorPos().X, 0, false, false)
 		})
 
 	case 27: // ESC ^[ Escape Character
@@ -340,7 +340,7 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 				paramCount = 1
 				params = paramStore[:paramCount]
 			}
-			t.screen().moveCursor(0, params[0], false, true)
+			t.screen().moveCursor(0, params[0], false, false)
 		case 'C': // Move cursor forward
 			if paramCount == 0 {
 				paramStore[0] = 1
diff --git a/screen.go b/screen.go
index 33a348d..ae33570 100644
--- a/screen.go
+++ b/screen.go
@@ -470,6 +470,7 @@ func (s *spanScreen) clampRegion(r Region) Region {
 }
 
 func (s *spanScreen) moveCursor(dx, dy int, wrap bool, scroll bool) {
+	prevY := s.cursorPos.Y
 	if wrap && s.autoWrap {
 		s.cursorPos.X += dx
 		for s.cursorPos.X < 0 {
@@ -487,17 +488,16 @@ func (s *spanScreen) moveCursor(dx, dy int, wrap bool, scroll bool) {
 
 	s.cursorPos.Y += dy
 	if scroll {
-		if s.cursorPos.Y < s.topMargin {
+		if prevY >= s.topMargin && s.cursorPos.Y < s.topMargin {
 			s.scroll(s.topMargin, s.bottomMargin, s.topMargin-s.cursorPos.Y)
 			s.cursorPos.Y = s.topMargin
 		}
-		if s.cursorPos.Y > s.bottomMargin {
+		if prevY <= s.bottomMargin && s.cursorPos.Y > s.bottomMargin {
 			s.scroll(s.topMargin, s.bottomMargin, s.bottomMargin-s.cursorPos.Y)
 			s.cursorPos.Y = s.bottomMargin
 		}
-	} else {
-		s.cursorPos.Y = clamp(s.cursorPos.Y, 0, s.size.Y-1)
 	}
+	s.cursorPos.Y = clamp(s.cursorPos.Y, 0, s.size.Y-1)
 	if s.cursorPos.Y >= s.size.Y {
 		panic(fmt.Sprintf("moveCursor outside, %v %v  %v, %v, %v, %v", s.cursorPos, s.size, dx, dy, wrap, scroll))
 	}
diff --git a/screen_grid.go b/screen_grid.go
index 4de1577..9b6de20 100644
--- a/screen_grid.go
+++ b/screen_grid.go
@@ -634,6 +634,7 @@ func (s *gridScreen) clampRegion(r Region) Region {
 }
 
 func (s *gridScreen) moveCursor(dx, dy int, wrap bool, scroll bool) {
+	prevY := s.cursorPos.Y
 	if wrap && s.autoWrap {
 		s.cursorPos.X += dx
 		for s.cursorPos.X < 0 {
@@ -651,23 +652,16 @@ func (s *gridScreen) moveCursor(dx, dy int, wrap bool, scroll bool) {
 
 	s.cursorPos.Y += dy
 	if scroll {
-		if s.cursorPos.Y < s.topMargin {
+		if prevY >= s.topMargin && s.cursorPos.Y < s.topMargin {
 			s.scroll(s.topMargin, s.bottomMargin, s.topMargin-s.cursorPos.Y)
 			s.cursorPos.Y = s.topMargin
 		}
-		if s.cursorPos.Y > s.bottomMargin {
+		if prevY <= s.bottomMargin && s.cursorPos.Y > s.bottomMargin {
 			s.scroll(s.topMargin, s.bottomMargin, s.bottomMargin-s.cursorPos.Y)
 			s.cursorPos.Y = s.bottomMargin
 		}
-	} else {
-		/*for s.cursorPos.Y < 0 {
-			s.cursorPos.Y += s.size.Y
-		}
-		for s.cursorPos.Y >= s.size.Y {
-			s.cursorPos.Y -= s.size.Y
-		}*/
-		s.cursorPos.Y = clamp(s.cursorPos.Y, 0, s.size.Y-1)
 	}
+	s.cursorPos.Y = clamp(s.cursorPos.Y, 0, s.size.Y-1)
 	if s.cursorPos.Y >= s.size.Y {
 		panic(fmt.Sprintf("moveCursor outside, %v %v  %v, %v, %v, %v", s.cursorPos, s.size, dx, dy, wrap, scroll))
 	}
-- 
2.43.0


From 3c18d011c7f448f8820661cfdceed17d8d08e71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:04 +0000
Subject: [PATCH 06/48] fix: EL 1 erases through the cursor cell

---
 escapes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/escapes.go b/escapes.go
index f21e826..35fc0ed 100644
--- a/escapes.go
+++ b/escapes.go
@@ -572,7 +572,7 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 				t.screen().eraseRegion(Region{
 					X:  0,
 					Y:  t.screen().CursorPos().Y,
-					X2: t.screen().CursorPos().X,
+					X2: t.screen().CursorPos().X + 1,
 					Y2: t.screen().CursorPos().Y + 1,
 				}, CRClear)
 			case params[0] == 2: // Erase entire line
-- 
2.43.0


From 0506fe75c163dd98b58641c44751d064083c44d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:05 +0000
Subject: [PATCH 07/48] fix: IL and DL do nothing when the cursor is above the
 scroll region

---
 escapes.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/escapes.go b/escapes.go
index 35fc0ed..d9c51b1 100644
--- a/escapes.go
+++ b/escapes.go
@@ -647,7 +647,9 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 				paramCount = 1
 				params = paramStore[:paramCount]
 			}
-			t.screen().scroll(t.screen().CursorPos().Y, t.screen().BottomMargin(), params[0])
+			if t.screen().CursorPos().Y >= t.screen().TopMargin() {
+				t.screen().scroll(t.screen().CursorPos().Y, t.screen().BottomMargin(), params[0])
+			}
 
 		case 'M': // Delete lines, scroll up
 			if paramCount == 0 {
@@ -655,7 +657,9 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 				paramCount = 1
 				params = paramStore[:paramCount]
 			}
-			t.screen().scroll(t.screen().CursorPos().Y, t.screen().BottomMargin(), -params[0])
+			if t.screen().CursorPos().Y >= t.screen().TopMargin() {
+				t.screen().scroll(t.screen().CursorPos().Y, t.screen().BottomMargin(), -params[0])
+			}
 
 		case 'S': // Scroll up
 			if paramCount == 0 {
-- 
2.43.0


From 172eea45ee0e1b7f99d3bf58d60d45ae908c8cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:07 +0000
Subject: [PATCH 08/48] fix: answer CSI c without a parameter like CSI 0c

---
 escapes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/escapes.go b/escapes.go
index d9c51b1..df3349f 100644
--- a/escapes.go
+++ b/escapes.go
@@ -366,7 +366,7 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 
 		case 'c': // Send Device Attributes
 			if paramCount == 0 {
-				paramStore[0] = 1
+				paramStore[0] = 0
 				paramCount = 1
 				params = paramStore[:paramCount]
 			}
-- 
2.43.0


From 8e169ad9c1299a129806976b35d27eb17879b621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:39 +0000
Subject: [PATCH 09/48] fix: ?1049 selects the screen named by set/reset
 instead of toggling

---
 escapes.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/escapes.go b/escapes.go
index df3349f..3d8231e 100644
--- a/escapes.go
+++ b/escapes.go
@@ -827,7 +827,9 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 					debugPrintf(debugTodo, "TODO: Interpret Meta key = %v\n", value)
 
 				case 1049: // Save/Restore cursor and alternate screen
-					t.switchScreen()
+					if value != t.onAltScreen {
+						t.switchScreen()
+					}
 
 				case 2004: // Bracketed paste
 					t.setViewFlag(VFBracketedPaste, value)
-- 
2.43.0


From 8505367730ccf129b233115f940f292e5f54cfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:41 +0000
Subject: [PATCH 10/48] fix: report the newly active screen's cursor and style
 when switching buffers

---
 terminal.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/terminal.go b/terminal.go
index 245d013..58e2bea 100644
--- a/terminal.go
+++ b/terminal.go
@@ -328,8 +328,15 @@ func (t *terminal) WithLock(f func()) {
 
 func (t *terminal) switchScreen() {
 	t.onAltScreen = !t.onAltScreen
-	size := t.screen().Size()
-	t.frontend.RegionChanged(Region{X: 0, Y: 0, X2: size.X, Y2: size.Y}, CRScreenSwitch)
+	t.announceScreen(CRScreenSwitch)
+}
+
+// announceScreen tells the frontend everything about the active screen.
+func (t *terminal) announceScreen(cr ChangeReason) {
+	s := t.screen()
+	t.frontend.StyleChanged(s.Style())
+	t.frontend.RegionChanged(Region{X: 0, Y: 0, X2: s.Size().X, Y2: s.Size().Y}, cr)
+	t.frontend.CursorMoved(s.CursorPos().X, s.CursorPos().Y)
 }
 
 // testHandleCommand is only for testing.
-- 
2.43.0


From a1f9b8b7f827444b9f621a66a4d92ab32244b4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:42 +0000
Subject: [PATCH 11/48] fix: announce lines scrolled off the top of the main
 screen through ScrollLines

---
 frontend.go    |  4 ++--
 screen.go      |  4 ++++
 screen_grid.go |  4 ++++
 terminal.go    | 10 ++++++++--
 4 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/frontend.go b/frontend.go
index 27c1474..1527891 100644
--- a/frontend.go
+++ b/frontend.go
@@ -80,8 +80,8 @@ type Frontend interface {
 	Bell()
 	RegionChanged(Region, ChangeReason)
 
-	// ScrollLines is called when lines are about to be scrolled off the
-	// top of the main (not alternate) screen. If you want to save to a scrollback
+	// ScrollLines is called when the top y lines are about to be scrolled off
+	// the top of the main (not alternate) screen. If you want to save to a scrollback
 	// buffer, do it now.
 	ScrollLines(y int)
 	CursorMoved(x, y int)
diff --git a/screen.go b/screen.go
index ae33570..201f0f3 100644
--- a/screen.go
+++ b/screen.go
@@ -443,6 +443,10 @@ func (s *spanScreen) scroll(y1 int, y2 int, dy int) {
 	}
 	dy = clamp(dy, -(y2 - y1 + 1), y2-y1+1)
 
+	if y1 == 0 && dy < 0 {
+		s.frontend.ScrollLines(-dy)
+	}
+
 	if dy > 0 {
 		for y := y2; y >= y1+dy; y-- {
 			s.lines[y] = s.lines[y-dy]
diff --git a/screen_grid.go b/screen_grid.go
index 9b6de20..55b5e33 100644
--- a/screen_grid.go
+++ b/screen_grid.go
@@ -587,6 +587,10 @@ func (s *gridScreen) scroll(y1 int, y2 int, dy int) {
 	}
 	dy = clamp(dy, -(y2 - y1 + 1), y2-y1+1)
 
+	if y1 == 0 && dy < 0 {
+		s.frontend.ScrollLines(-dy)
+	}
+
 	if dy > 0 {
 		for y := y2; y >= y1+dy; y-- {
 			// fmt.Println("   2: ", y, y2, y1+dy)
diff --git a/terminal.go b/terminal.go
index 58e2bea..92f0daa 100644
--- a/terminal.go
+++ b/terminal.go
@@ -83,7 +83,7 @@ func newTerminal(f Frontend, backend Backend, mode TextReadMode) *terminal {
 	return &terminal{
 		frontend:     f,
 		mainScreen:   newScreen(f),
-		altScreen:    newScreen(f),
+		altScreen:    newScreen(altFrontend{f}),
 		backend:      backend,
 		viewFlags:    make([]bool, viewFlagCount),
 		viewInts:     make([]int, viewIntCount),
@@ -92,10 +92,16 @@ func newTerminal(f Frontend, backend Backend, mode TextReadMode) *terminal {
 	}
 }
 
+// altFrontend is the alternate screen's view of the frontend: lines that scroll
+// off the alternate screen are not part of the scrollback.
+type altFrontend struct{ Frontend }
+
+func (altFrontend) ScrollLines(y int) {}
+
 func (t *terminal) SetFrontend(f Frontend) {
 	t.frontend = f
 	t.mainScreen.SetFrontend(f)
-	t.altScreen.SetFrontend(f)
+	t.altScreen.SetFrontend(altFrontend{f})
 }
 
 // func NewNoPTY(f Frontend) Terminal {
-- 
2.43.0


From e924dc903c814e4fb2b5252b824dc47963993ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:22 +0000
Subject: [PATCH 12/48] fix: compare complete styles before reusing a span in
 place

---
 screen.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/screen.go b/screen.go
index 201f0f3..c3bbed5 100644
--- a/screen.go
+++ b/screen.go
@@ -879,12 +879,7 @@ func replaceRange(line *spanLine, x int, n int, insert Span, mode TextReadMode)
 			line.width = totalWidth - n + insert.Width
 			return
 		}
-		// Compare styles
-		spFG, _, _ := sp.Style.GetColor(ComponentFG)
-		insertFG, _, _ := insert.Style.GetColor(ComponentFG)
-		spBG, _, _ := sp.Style.GetColor(ComponentBG)
-		insertBG, _, _ := insert.Style.GetColor(ComponentBG)
-		if insert.Width == n && spFG == insertFG && spBG == insertBG {
+		if insert.Width == n && sp.Style == insert.Style {
 			if sp.Text == "" && insert.Text == "" && sp.Rune == insert.Rune {
 				return
 			}
-- 
2.43.0


From 065013204c9755f08c751241bc6bc1be89d37a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:12 +0000
Subject: [PATCH 13/48] fix: never leave an empty span behind when cells are
 deleted

---
 screen.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/screen.go b/screen.go
index c3bbed5..f526b31 100644
--- a/screen.go
+++ b/screen.go
@@ -857,7 +857,10 @@ func replaceRange(line *spanLine, x int, n int, insert Span, mode TextReadMode)
 		}
 	}
 	if x == 0 && n >= totalWidth {
-		line.spans = append(line.spans[:0], insert)
+		line.spans = line.spans[:0]
+		if insert.Width > 0 {
+			line.spans = append(line.spans, insert)
+		}
 		line.width = insert.Width
 		return
 	}
@@ -874,7 +877,7 @@ func replaceRange(line *spanLine, x int, n int, insert Span, mode TextReadMode)
 	// Fast paths for in-place replacements inside a single span.
 	if startIdx == endIdx {
 		sp := spans[startIdx]
-		if startOffset == 0 && endOffset == sp.Width {
+		if startOffset == 0 && endOffset == sp.Width && insert.Width > 0 {
 			spans[startIdx] = insert
 			line.width = totalWidth - n + insert.Width
 			return
-- 
2.43.0


From 2fecdd626ca3f13b2f2e44b55a0758fc0ea99361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:41 +0000
Subject: [PATCH 14/48] fix: measure the whole row, not just the spans up to
 the replaced range

---
 screen.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/screen.go b/screen.go
index f526b31..3d429e1 100644
--- a/screen.go
+++ b/screen.go
@@ -845,6 +845,9 @@ func replaceRange(line *spanLine, x int, n int, insert Span, mode TextReadMode)
 	}
 
 	// Clamp to total width (tracked by pos after the scan).
+	for i++; i < len(spans); i++ {
+		pos += spans[i].Width
+	}
 	totalWidth := pos
 	if x > totalWidth {
 		x = totalWidth
-- 
2.43.0


From fdc29aed27defd1ce26109ff1c0bb31924f12bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:06 +0000
Subject: [PATCH 15/48] fix: keep the row width when a splice cuts a wide
 character

---
 screen.go | 54 ++++++++++++++++++++++++++----------------------------
 1 file changed, 26 insertions(+), 28 deletions(-)

diff --git a/screen.go b/screen.go
index 3d429e1..8047375 100644
--- a/screen.go
+++ b/screen.go
@@ -348,7 +348,7 @@ func (s *spanScreen) insertRunes(b []rune) {
 	}
 
 	line := &s.lines[y]
-	truncateLine(line, s.size.X-n, s.textMode)
+	truncateLine(line, s.size.X-n, s.style, s.textMode)
 	insertSpan(line, s.cursorPos.X, Span{Style: s.style, Rune: ' ', Width: n}, s.textMode)
 
 	s.rawWriteRunes(s.cursorPos.X, s.cursorPos.Y, b[:n], CRText)
@@ -405,7 +405,7 @@ func (s *spanScreen) deleteChars(x int, y int, n int, cr ChangeReason) {
 
 	line := &s.lines[y]
 	// Delete characters from x to x+n, shift remaining chars left, and append spaces at the end
-	replaceRange(line, x, n, Span{}, s.textMode)
+	replaceRange(line, x, n, Span{Style: s.style}, s.textMode)
 	// Now append spaces to fill the end to width s.size.X
 	curWidth := lineCellWidth(line)
 	if curWidth < s.size.X {
@@ -584,7 +584,7 @@ func blankSpanLine(width int, style Style) spanLine {
 func resizeLine(line *spanLine, width int, style Style, mode TextReadMode) {
 	cur := lineCellWidth(line)
 	if cur > width {
-		truncateLine(line, width, mode)
+		truncateLine(line, width, style, mode)
 		return
 	}
 	if cur < width {
@@ -917,32 +917,31 @@ func replaceRange(line *spanLine, x int, n int, insert Span, mode TextReadMode)
 		}
 	}
 
-	// If we're splitting in the right cell of a wide character at the start,
-	// we should insert after the wide character rather than overwriting it
-	if splitWideAtStart.Width > 0 {
-		// splitSpan gave us the wide character - include it in the left part
-		// and insert after it
-		if hasLeft {
-			// Combine left with the wide character
-			combinedLeft := left
-			combinedLeft.Text = left.Text + splitWideAtStart.Text
-			combinedLeft.Width = left.Width + splitWideAtStart.Width
-			left = combinedLeft
-		} else {
-			// Just use the wide character as the left part
-			left = splitWideAtStart
-			hasLeft = true
-		}
-
-		// The right part already excludes the wide character, so we're good
-		// This effectively turns the operation into an insert after the wide character
+	// Text written into the right part of a wide character keeps the character
+	// and goes after it; the cells this pushes past the end of the line are lost.
+	if splitWideAtStart.Width > 0 && insert.Text != "" {
+		after := x - startOffset + left.Width + splitWideAtStart.Width
+		replaceRange(line, after, max(0, x+n-after), insert, mode)
+		truncateLine(line, totalWidth, insert.Style, mode)
+		return
 	}
 
-	// If we split a cell at the end, a space should fill in the gap
+	newWidth := totalWidth - n + insert.Width
+
+	// Anything else that cuts a wide character blanks the cells of it that remain.
+	pad := 0
+	if splitWideAtStart.Width > 0 {
+		pad += startOffset - left.Width
+	}
 	if splitWideAtEnd.Width > 0 {
-		insert.Text = insert.Text + " "
-		insert.Width += 1
+		pad += spans[endIdx].Width - right.Width - endOffset
+	}
+	if insert.Text != "" {
+		insert.Text += strings.Repeat(" ", pad)
+	} else if pad > 0 {
+		insert.Rune = ' '
 	}
+	insert.Width += pad
 
 	// Compute the new slice length and where the suffix begins.
 	prefixLen := startIdx
@@ -962,7 +961,6 @@ func replaceRange(line *spanLine, x int, n int, insert Span, mode TextReadMode)
 	if suffixStart < len(spans) {
 		newLen += len(spans) - suffixStart
 	}
-	newWidth := totalWidth - n + insert.Width
 
 	// Ensure capacity then populate the new span layout.
 	if cap(spans) < newLen {
@@ -1022,14 +1020,14 @@ func insertSpan(line *spanLine, x int, insert Span, mode TextReadMode) {
 	replaceRange(line, x, 0, insert, mode)
 }
 
-func truncateLine(line *spanLine, width int, mode TextReadMode) {
+func truncateLine(line *spanLine, width int, style Style, mode TextReadMode) {
 	if width <= 0 {
 		line.spans = nil
 		line.width = 0
 		return
 	}
 	// Use replaceRange to truncate: delete everything from width to end
-	replaceRange(line, width, lineCellWidth(line)-width, Span{}, mode)
+	replaceRange(line, width, lineCellWidth(line)-width, Span{Style: style}, mode)
 }
 
 func (s *spanScreen) mergeIntoPreviousCell(text string) {
-- 
2.43.0


From da2a211d7eaea1a2631a0566a0d8f28dcb34ad44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:15 +0000
Subject: [PATCH 16/48] fix: announce every column a write into a wide
 character changes

---
 screen.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/screen.go b/screen.go
index 8047375..fbd0d5c 100644
--- a/screen.go
+++ b/screen.go
@@ -365,8 +365,8 @@ func (s *spanScreen) rawWriteSpan(x int, y int, sp Span, cr ChangeReason) {
 	if y >= s.size.Y || x+sp.Width > s.size.X {
 		panic(fmt.Sprintf("rawWriteSpan out of range: %v  %v,%v,%v %v\n", s.size, x, y, x+sp.Width, sp.Width))
 	}
-	replaceRange(&s.lines[y], x, sp.Width, sp, s.textMode)
-	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: x, X2: x + sp.Width}, cr)
+	x1, x2 := replaceRange(&s.lines[y], x, sp.Width, sp, s.textMode)
+	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: x1, X2: x2}, cr)
 }
 
 func (s *spanScreen) rawWriteRune(x int, y int, r rune, width int, cr ChangeReason) {
@@ -384,8 +384,8 @@ func (s *spanScreen) rawWriteRune(x int, y int, r rune, width int, cr ChangeReas
 		sp = Span{Style: s.style, Text: string(r), Width: width}
 	}
 
-	replaceRange(&s.lines[y], x, width, sp, s.textMode)
-	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: x, X2: x + width}, cr)
+	x1, x2 := replaceRange(&s.lines[y], x, width, sp, s.textMode)
+	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: x1, X2: x2}, cr)
 }
 
 func (s *spanScreen) deleteChars(x int, y int, n int, cr ChangeReason) {
@@ -405,7 +405,7 @@ func (s *spanScreen) deleteChars(x int, y int, n int, cr ChangeReason) {
 
 	line := &s.lines[y]
 	// Delete characters from x to x+n, shift remaining chars left, and append spaces at the end
-	replaceRange(line, x, n, Span{Style: s.style}, s.textMode)
+	x, _ = replaceRange(line, x, n, Span{Style: s.style}, s.textMode)
 	// Now append spaces to fill the end to width s.size.X
 	curWidth := lineCellWidth(line)
 	if curWidth < s.size.X {
@@ -794,7 +794,11 @@ func findSpanAtX(line *spanLine, x int) (int, int) {
 // 	line.spans = line.spans[:writeIdx+1]
 // }
 
-func replaceRange(line *spanLine, x int, n int, insert Span, mode TextReadMode) {
+// replaceRange replaces the n cells at x with insert. For an insert of n cells it
+// returns the range of columns it changed, which is wider than [x, x+n) when a
+// wide character was cut.
+func replaceRange(line *spanLine, x int, n int, insert Span, mode TextReadMode) (x1, x2 int) {
+	x1, x2 = x, x+n
 	// Fast return for a no-op insert.
 	if n == 0 && insert.Width == 0 {
 		return
@@ -923,7 +927,7 @@ func replaceRange(line *spanLine, x int, n int, insert Span, mode TextReadMode)
 		after := x - startOffset + left.Width + splitWideAtStart.Width
 		replaceRange(line, after, max(0, x+n-after), insert, mode)
 		truncateLine(line, totalWidth, insert.Style, mode)
-		return
+		return min(x, after), totalWidth
 	}
 
 	newWidth := totalWidth - n + insert.Width
@@ -932,9 +936,12 @@ func replaceRange(line *spanLine, x int, n int, insert Span, mode TextReadMode)
 	pad := 0
 	if splitWideAtStart.Width > 0 {
 		pad += startOffset - left.Width
+		x1 -= pad
 	}
 	if splitWideAtEnd.Width > 0 {
-		pad += spans[endIdx].Width - right.Width - endOffset
+		cut := spans[endIdx].Width - right.Width - endOffset
+		pad += cut
+		x2 += cut
 	}
 	if insert.Text != "" {
 		insert.Text += strings.Repeat(" ", pad)
@@ -1012,6 +1019,7 @@ func replaceRange(line *spanLine, x int, n int, insert Span, mode TextReadMode)
 		copy(line.spans[destAfter:], spans[suffixStart:])
 	}
 	line.width = newWidth
+	return
 }
 
 func insertSpan(line *spanLine, x int, insert Span, mode TextReadMode) {
-- 
2.43.0


From 761a40e6ddae05c5e239dbe523cf96f9c357e03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:39 +0000
Subject: [PATCH 17/48] fix: bring cursor, saved cursor and scroll region
 inside the screen on resize

---
 screen.go      | 15 +++++++++------
 screen_grid.go | 16 +++++++++-------
 2 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/screen.go b/screen.go
index fbd0d5c..0f0025b 100644
--- a/screen.go
+++ b/screen.go
@@ -275,17 +275,20 @@ func (s *spanScreen) setSize(w, h int) {
 
 	s.bottomMargin = h - (s.size.Y - s.bottomMargin)
 
+	if s.bottomMargin < s.topMargin || s.bottomMargin >= h {
+		// the scroll region does not fit the new screen
+		s.topMargin, s.bottomMargin = 0, h-1
+	}
+
 	s.size = Pos{X: w, Y: h}
 
 	// Resize buffers
 	s.renderBuffer = make([]rune, w)
 
-	if s.cursorPos.X > w {
-		s.cursorPos.X = 0
-	}
-	if s.cursorPos.Y > h {
-		s.cursorPos.Y = 0
-	}
+	s.cursorPos.X = clamp(s.cursorPos.X, 0, w-1)
+	s.cursorPos.Y = clamp(s.cursorPos.Y, 0, h-1)
+	s.savedCursorPos.X = clamp(s.savedCursorPos.X, 0, w-1)
+	s.savedCursorPos.Y = clamp(s.savedCursorPos.Y, 0, h-1)
 
 	s.setStyle(s.style)
 }
diff --git a/screen_grid.go b/screen_grid.go
index 55b5e33..b8c49be 100644
--- a/screen_grid.go
+++ b/screen_grid.go
@@ -268,15 +268,17 @@ func (s *gridScreen) setSize(w, h int) {
 
 	s.bottomMargin = h - (s.size.Y - s.bottomMargin)
 
+	if s.bottomMargin < s.topMargin || s.bottomMargin >= h {
+		// the scroll region does not fit the new screen
+		s.topMargin, s.bottomMargin = 0, h-1
+	}
+
 	s.size = Pos{X: w, Y: h}
 
-	// TODO: Logic for cursor position on resize?
-	if s.cursorPos.X > w {
-		s.cursorPos.X = 0
-	}
-	if s.cursorPos.Y > h {
-		s.cursorPos.Y = 0
-	}
+	s.cursorPos.X = clamp(s.cursorPos.X, 0, w-1)
+	s.cursorPos.Y = clamp(s.cursorPos.Y, 0, h-1)
+	s.savedCursorPos.X = clamp(s.savedCursorPos.X, 0, w-1)
+	s.savedCursorPos.Y = clamp(s.savedCursorPos.Y, 0, h-1)
 
 	s.setStyle(s.style)
 }
-- 
2.43.0


From bee304873f63841608f0cfff081f2a0e6fece2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:52 +0000
Subject: [PATCH 18/48] fix: Resize takes the terminal lock and announces the
 resized screen

---
 terminal.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/terminal.go b/terminal.go
index 92f0daa..ff0aab1 100644
--- a/terminal.go
+++ b/terminal.go
@@ -150,8 +150,11 @@ type winsize struct {
 }
 
 func (t *terminal) Resize(w, h int) error {
+	t.Lock()
+	defer t.Unlock()
 	t.mainScreen.setSize(w, h)
 	t.altScreen.setSize(w, h)
+	t.announceScreen(CRRedraw)
 
 	if t.backend == nil {
 		return nil
-- 
2.43.0


From 8177c8ee000416da99314976f246120f98770b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:48 +0000
Subject: [PATCH 19/48] fix: SetFrontend, SendKey and SendMouseRaw read
 terminal state under the lock

---
 keys.go     | 2 ++
 terminal.go | 9 +++++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/keys.go b/keys.go
index a30d8e9..03ee984 100644
--- a/keys.go
+++ b/keys.go
@@ -185,7 +185,9 @@ type KeyEvent struct {
 }
 
 func (t *terminal) SendKey(ev KeyEvent) (int, error) {
+	t.Lock()
 	seq := t.encodeKey(ev)
+	t.Unlock()
 	if len(seq) == 0 {
 		return 0, nil
 	}
diff --git a/terminal.go b/terminal.go
index ff0aab1..a4a46a7 100644
--- a/terminal.go
+++ b/terminal.go
@@ -99,6 +99,8 @@ type altFrontend struct{ Frontend }
 func (altFrontend) ScrollLines(y int) {}
 
 func (t *terminal) SetFrontend(f Frontend) {
+	t.Lock()
+	defer t.Unlock()
 	t.frontend = f
 	t.mainScreen.SetFrontend(f)
 	t.altScreen.SetFrontend(altFrontend{f})
@@ -237,7 +239,11 @@ const (
 // x and y should start at 1
 // wheel events should use btn1 for wheel up, btn2 for wheel down, true for press, and M_wheel for mods
 func (t *terminal) SendMouseRaw(btn MouseBtn, press bool, mods MouseFlag, x, y int) error {
-	switch t.viewInts[VIMouseMode] {
+	t.Lock()
+	mouseMode, mouseEncoding := t.viewInts[VIMouseMode], t.viewInts[VIMouseEncoding]
+	t.Unlock()
+
+	switch mouseMode {
 	case MMNone:
 		return nil
 	case MMPress:
@@ -255,7 +261,6 @@ func (t *terminal) SendMouseRaw(btn MouseBtn, press bool, mods MouseFlag, x, y i
 	case MMPressReleaseMoveAll:
 	}
 
-	mouseEncoding := t.viewInts[VIMouseEncoding]
 	switch mouseEncoding {
 	case MEX10:
 		btnByte := (byte(btn) & mWhichBtn) | byte(mods)
-- 
2.43.0


From bcf16aafad9e97d2d33dcb5a979b571ecbd04bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:05 +0000
Subject: [PATCH 20/48] fix: TTYFrontend takes its lock after the terminal's
 and writes only under it

---
 tty_frontend.go | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/tty_frontend.go b/tty_frontend.go
index b31ba12..c1f4d03 100644
--- a/tty_frontend.go
+++ b/tty_frontend.go
@@ -49,31 +49,35 @@ func (t *TTYFrontend) SetTerminal(term Terminal) {
 // Attach starts updating the provided region.
 func (t *TTYFrontend) Attach(r Region) {
 	t.mu.Lock()
-	defer t.mu.Unlock()
-
 	t.region = r
 	t.attached = true
 	if !t.showCur {
 		t.showCur = true
 	}
+	term := t.term
+	t.mu.Unlock()
 
-	if t.term == nil {
+	if term == nil {
 		return
 	}
 
-	t.term.WithLock(func() {
-		t.renderRegionLocked(t.region)
+	// The terminal lock comes before t.mu, as in the Frontend callbacks.
+	term.WithLock(func() {
+		t.mu.Lock()
+		defer t.mu.Unlock()
+		if t.term == term {
+			t.renderRegionLocked(t.region)
+		}
 	})
 }
 
 // Detach stops updating the attached region.
 func (t *TTYFrontend) Detach() {
 	t.mu.Lock()
+	defer t.mu.Unlock()
 	t.attached = false
-	out := t.out
-	t.mu.Unlock()
-	if out != nil {
-		_, _ = out.Write([]byte(ansiCursorShow))
+	if t.out != nil {
+		_, _ = t.out.Write([]byte(ansiCursorShow))
 	}
 }
 
@@ -88,11 +92,10 @@ func (t *TTYFrontend) Focus() {
 // Blur disables cursor updates and restores cursor visibility.
 func (t *TTYFrontend) Blur() {
 	t.mu.Lock()
+	defer t.mu.Unlock()
 	t.focused = false
-	out := t.out
-	t.mu.Unlock()
-	if out != nil {
-		_, _ = out.Write([]byte(ansiCursorShow))
+	if t.out != nil {
+		_, _ = t.out.Write([]byte(ansiCursorShow))
 	}
 }
 
-- 
2.43.0


From 9d267b407dc13dfaad5b23a1822074d9834ca546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:06 +0000
Subject: [PATCH 21/48] fix: a detached TTYFrontend writes nothing

---
 tty_frontend.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tty_frontend.go b/tty_frontend.go
index c1f4d03..f35f6ef 100644
--- a/tty_frontend.go
+++ b/tty_frontend.go
@@ -171,10 +171,10 @@ func (t *TTYFrontend) renderRegionLocked(r Region) {
 }
 
 func (t *TTYFrontend) renderCursorLocked() {
-	if t.term == nil || t.out == nil {
+	if t.term == nil || t.out == nil || !t.attached {
 		return
 	}
-	if !t.attached || !t.showCur || !t.focused {
+	if !t.showCur || !t.focused {
 		_, _ = t.out.Write([]byte(ansiCursorHide))
 		return
 	}
-- 
2.43.0


From f42ac56cf3274a80c9d6bbfdddac2069920ba3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:13 +0000
Subject: [PATCH 22/48] fix: the read loop looks at the screen only under the
 lock

---
 escapes.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/escapes.go b/escapes.go
index 3d8231e..ae2c2f5 100644
--- a/escapes.go
+++ b/escapes.go
@@ -34,17 +34,22 @@ func (t *terminal) ptyReadLoop() {
 }
 
 func (t *terminal) ptyReadOne(gr *GraphemeReader) error {
-	bw, useBytes := t.screen().(interface {
+	type bytesWriter interface {
 		writeString(string, int, bool, TextReadMode)
-	})
-	if useBytes {
-		maxWidth := 0
+	}
+	var bw bytesWriter
+	useBytes := false
+	maxWidth := 0
+	t.WithLock(func() {
+		bw, useBytes = t.screen().(bytesWriter)
 		if t.screen().AutoWrap() {
 			maxWidth = t.screen().Size().X - t.screen().CursorPos().X
 			if maxWidth < 1 {
 				maxWidth = 1
 			}
 		}
+	})
+	if useBytes {
 		data, width, merge, err := gr.ReadPrintableBytes(maxWidth)
 		if err != nil {
 			if err != io.EOF {
-- 
2.43.0


From ace3681e60291420b8f57403d49b441767456ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:14 +0000
Subject: [PATCH 23/48] fix: read a control sequence to its end before taking
 the lock

---
 escapes.go | 50 ++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 48 insertions(+), 2 deletions(-)

diff --git a/escapes.go b/escapes.go
index ae2c2f5..9caef29 100644
--- a/escapes.go
+++ b/escapes.go
@@ -143,10 +143,16 @@ func (t *terminal) ptyReadOne(gr *GraphemeReader) error {
 
 	case 27: // ESC ^[ Escape Character
 
+		// Reading may block, so the lock is only taken once the sequence is complete.
+		seq, err := readSequence(gr)
+		if err != nil {
+			return err
+		}
+
 		t.WithLock(func() {
 			if *debugCmd || *debugTodo {
 				var cmdBytes bytes.Buffer
-				cmdReader := &captureReader{r: gr, buf: &cmdBytes}
+				cmdReader := &captureReader{r: bytes.NewReader(seq), buf: &cmdBytes}
 				success := t.handleCommand(cmdReader)
 				cmd := cmdBytes.Bytes()
 
@@ -156,7 +162,7 @@ func (t *terminal) ptyReadOne(gr *GraphemeReader) error {
 					debugPrintf(debugTodo, "TODO: Unhandled command: %#v\n", string(cmd))
 				}
 			} else {
-				_ = t.handleCommand(gr)
+				_ = t.handleCommand(bytes.NewReader(seq))
 			}
 		})
 
@@ -175,6 +181,46 @@ type escapeReader interface {
 	// Buffered() int
 }
 
+// readSequence reads the whole control sequence that an ESC introduced and
+// returns it without the ESC.
+func readSequence(r escapeReader) ([]byte, error) {
+	b, err := r.ReadByte()
+	for err == nil && b == 27 { // ESC starts over
+		b, err = r.ReadByte()
+	}
+	seq := []byte{b}
+	switch b {
+	case '[': // CSI: parameters and intermediates, then a final byte
+		for err == nil {
+			b, err = r.ReadByte()
+			seq = append(seq, b)
+			if b < 0x20 || b > 0x3f {
+				break
+			}
+		}
+
+	case ']', 'P': // OSC, DCS: everything through ST, or BEL for an OSC
+		for err == nil {
+			prev := b
+			b, err = r.ReadByte()
+			seq = append(seq, b)
+			if b == '\\' && prev == 27 || b == 7 && seq[0] == ']' {
+				break
+			}
+		}
+
+	default: // intermediates, then a final byte
+		for err == nil && b >= 0x20 && b <= 0x2f {
+			b, err = r.ReadByte()
+			seq = append(seq, b)
+		}
+	}
+	if err != nil && err != io.EOF {
+		debugPrintln(debugErrors, "ERR ReadByte2:", err)
+	}
+	return seq, err
+}
+
 type captureReader struct {
 	r   escapeReader
 	buf *bytes.Buffer
-- 
2.43.0


From 38f748753f4d1376c7542b137c3117051a0b7864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:33 +0000
Subject: [PATCH 24/48] fix: an OSC payload is everything up to BEL or ESC
 backslash, and a command number is required

---
 escapes.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/escapes.go b/escapes.go
index 9caef29..7a9920a 100644
--- a/escapes.go
+++ b/escapes.go
@@ -993,7 +993,10 @@ func (t *terminal) handleCmdOSC(r escapeReader) bool {
 		}
 	}
 
-	param, _ := strconv.Atoi(string(paramBytes))
+	param, err := strconv.Atoi(string(paramBytes))
+	if err != nil {
+		param = -1 // not a command number
+	}
 
 	param2 := []byte{}
 
@@ -1007,7 +1010,7 @@ func (t *terminal) handleCmdOSC(r escapeReader) bool {
 				}
 				return false
 			}
-			if b == 7 || b == 0x9c { // BEL , ST
+			if b == 7 { // BEL
 				break
 			}
 			if len(param2) > 0 && param2[len(param2)-1] == 27 && b == '\\' { // ESC \ is also ST
@@ -1017,7 +1020,7 @@ func (t *terminal) handleCmdOSC(r escapeReader) bool {
 
 			param2 = append(param2, byte(b))
 		}
-	} else if b != 7 && b != 0x9c { // BEL, ST
+	} else if b != 7 && b != 27 { // BEL, ST
 		debugPrintln(debugErrors, "OSC command number not followed by ;, BEL, or ST?", b)
 		return false
 	}
@@ -1073,12 +1076,6 @@ func (t *terminal) handleDCS(r escapeReader) bool {
 			}
 			return false
 		}
-		if b == 0x9c {
-			if *debugCmd {
-				debugPrintf(debugCmd, "DCS payload: %q\n", string(payload))
-			}
-			return true
-		}
 		if prev == 27 && b == '\\' {
 			if *debugCmd {
 				if len(payload) > 0 && payload[len(payload)-1] == 27 {
-- 
2.43.0


From 5bca17e1d1af46f3d2e25958f452396d878194ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:53 +0000
Subject: [PATCH 25/48] fix: keep every CSI parameter, not only the first eight

---
 escapes.go | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/escapes.go b/escapes.go
index 7a9920a..5f5d043 100644
--- a/escapes.go
+++ b/escapes.go
@@ -330,6 +330,7 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 
 	// This cannot escape to the heap! Use append([]int(nil), params...) instead of params to make a copy if needed, such as to debug calls
 	var paramStore [8]int
+	params := paramStore[:0]
 	paramCount := 0
 	param := 0
 	paramSet := false
@@ -340,10 +341,8 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 			if paramSet || sawSeparator || paramCount > 0 {
 				value = param
 			}
-			if paramCount < len(paramStore) {
-				paramStore[paramCount] = value
-				paramCount++
-			}
+			params = append(params, value)
+			paramCount++
 			param = 0
 			paramSet = false
 			sawSeparator = true
@@ -368,14 +367,10 @@ func (t *terminal) handleCmdCSI(r escapeReader) bool {
 		if paramSet {
 			value = param
 		}
-		if paramCount < len(paramStore) {
-			paramStore[paramCount] = value
-			paramCount++
-		}
+		params = append(params, value)
+		paramCount++
 	}
 
-	params := paramStore[:paramCount]
-
 	if prefix == 0 {
 		switch b {
 		case 'A': // Move cursor up
-- 
2.43.0


From 26e997d25a73c7dcbc736dbab887bd8b7170d62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:49 +0000
Subject: [PATCH 26/48] fix: split a run of text at the right edge and pin or
 wrap its characters one by one

---
 screen.go | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/screen.go b/screen.go
index 0f0025b..cfb68f2 100644
--- a/screen.go
+++ b/screen.go
@@ -325,8 +325,19 @@ func (s *spanScreen) writeString(text string, width int, merge bool, mode TextRe
 	if width < 1 {
 		width = 1
 	}
-	if width > s.size.X {
+	for s.cursorPos.X+width > s.size.X {
+		// Write what fits, or at least one character, on its own.
+		head, headWidth := textPrefix(text, s.size.X-s.cursorPos.X, mode)
+		if len(head) >= len(text) {
+			break
+		}
+		s.writeString(head, headWidth, false, mode)
+		text, width = text[len(head):], max(1, width-headWidth)
+	}
+	sp := Span{Style: s.style, Text: text, Width: width}
+	if width > s.size.X { // a character wider than the screen
 		width = s.size.X
+		sp = Span{Style: s.style, Rune: ' ', Width: width}
 	}
 	if s.cursorPos.X+width > s.size.X {
 		if s.autoWrap {
@@ -335,7 +346,6 @@ func (s *spanScreen) writeString(text string, width int, merge bool, mode TextRe
 			s.cursorPos.X = s.size.X - width
 		}
 	}
-	sp := Span{Style: s.style, Text: text, Width: width}
 	s.rawWriteSpan(s.cursorPos.X, s.cursorPos.Y, sp, CRText)
 	s.moveCursor(width, 0, true, true)
 }
@@ -726,6 +736,28 @@ func byteIndexForCell(text []byte, cellOffset int, mode TextReadMode) (int, int)
 	return idx, width
 }
 
+// textPrefix returns the longest prefix of text that fits width cells, but at
+// least its first character, and the number of cells it takes.
+func textPrefix(text string, width int, mode TextReadMode) (string, int) {
+	idx := 0
+	used := 0
+	state := -1
+	textBytes := []byte(text)
+	for idx < len(textBytes) {
+		_, consumed, cellWidth, newState, ok := stepTextCluster(textBytes[idx:], state, mode)
+		if !ok || consumed <= 0 {
+			return text, used
+		}
+		if used > 0 && used+cellWidth > width {
+			break
+		}
+		idx += consumed
+		state = newState
+		used += cellWidth
+	}
+	return text[:idx], used
+}
+
 // findSpanAtX returns the span index at position x and the offset within that span.
 // It does NOT modify the line. The returned index points to the span that contains x.
 // If x exactly matches a span boundary, it returns the index of the span after the boundary.
-- 
2.43.0


From 945cdb2fa1f8d28329f5d73b65b42b2ef925b208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:51 +0000
Subject: [PATCH 27/48] fix: the grid screen stores a token as one character

---
 screen_grid.go | 56 ++++++++++++++++----------------------------------
 1 file changed, 18 insertions(+), 38 deletions(-)

diff --git a/screen_grid.go b/screen_grid.go
index b8c49be..9dcd266 100644
--- a/screen_grid.go
+++ b/screen_grid.go
@@ -302,7 +302,7 @@ func (s *gridScreen) writeRunes(b []rune) {
 	for _, r := range b {
 		width := runeCellWidth(r)
 		if width > s.size.X {
-			width = s.size.X
+			r, width = ' ', s.size.X
 		}
 		if s.cursorPos.X+width > s.size.X {
 			if s.autoWrap {
@@ -326,46 +326,26 @@ func (s *gridScreen) writeTokens(tokens []GraphemeToken) {
 			s.mergeIntoPreviousCell(text)
 			continue
 		}
-		if utf8.RuneCountInString(text) == 1 {
-			r, _ := utf8.DecodeRuneInString(text)
-			width := tok.Width
-			if width < 1 {
-				width = 1
-			}
-			if width > s.size.X {
-				width = s.size.X
-			}
-			if s.cursorPos.X+width > s.size.X {
-				if s.autoWrap {
-					s.moveCursor(-s.cursorPos.X, 1, false, true)
-				} else {
-					s.cursorPos.X = s.size.X - width
-				}
-			}
-			s.rawWriteRune(s.cursorPos.X, s.cursorPos.Y, r, width, CRText)
-			s.moveCursor(width, 0, true, true)
-			continue
+		// A token is one character, however many runes it is made of.
+		r, _ := utf8.DecodeRuneInString(text)
+		width := tok.Width
+		if width < 1 {
+			width = 1
 		}
-		for len(text) > 0 {
-			r, size := utf8.DecodeRuneInString(text)
-			if size == 0 || r == utf8.RuneError && size == 1 {
-				break
-			}
-			text = text[size:]
-			width := runeCellWidth(r)
-			if width > s.size.X {
-				width = s.size.X
-			}
-			if s.cursorPos.X+width > s.size.X {
-				if s.autoWrap {
-					s.moveCursor(-s.cursorPos.X, 1, false, true)
-				} else {
-					s.cursorPos.X = s.size.X - width
-				}
+		if width > s.size.X {
+			// a character wider than the screen
+			r, text, width = ' ', " ", s.size.X
+		}
+		if s.cursorPos.X+width > s.size.X {
+			if s.autoWrap {
+				s.moveCursor(-s.cursorPos.X, 1, false, true)
+			} else {
+				s.cursorPos.X = s.size.X - width
 			}
-			s.rawWriteRune(s.cursorPos.X, s.cursorPos.Y, r, width, CRText)
-			s.moveCursor(width, 0, true, true)
 		}
+		s.rawWriteRune(s.cursorPos.X, s.cursorPos.Y, r, width, CRText)
+		s.cellText[s.cursorPos.Y][s.cursorPos.X] = text
+		s.moveCursor(width, 0, true, true)
 	}
 }
 
-- 
2.43.0


From 86a8a10dd5b8f2ded152b016b2360bc7588af492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:15 +0000
Subject: [PATCH 28/48] fix: the grid screen renders a cell's whole text and
 blanks cut characters

---
 screen_grid.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/screen_grid.go b/screen_grid.go
index 9dcd266..f89b25a 100644
--- a/screen_grid.go
+++ b/screen_grid.go
@@ -120,7 +120,7 @@ func (s *gridScreen) StyledLine(x, w, y int) Line {
 		isRepeat := true
 		for k := 0; k < width; k++ {
 			idx := start + k
-			if text[idx] != firstRune || s.cellWidth[y][idx] != 1 || s.cellCont[y][idx] {
+			if text[idx] != firstRune || cellText[idx] != string(firstRune) || s.cellWidth[y][idx] != 1 || s.cellCont[y][idx] {
 				isRepeat = false
 				break
 			}
@@ -132,16 +132,25 @@ func (s *gridScreen) StyledLine(x, w, y int) Line {
 			// Construct text for span
 			var sb strings.Builder
 			spanWidth := 0
+			cut := true // cells of a character that is not whole inside [x, x+w) are blank
 			for k := 0; k < width; k++ {
 				idx := start + k
 				if s.cellCont[y][idx] {
 					// continuation cell, don't add text, it's part of previous
 					spanWidth++ // visual width increases
+					if cut {
+						sb.WriteByte(' ')
+					}
 					continue
 				}
 				// It's a start of a char
 				// If visual width is > 1, next cells will be cont.
-				sb.WriteString(cellText[idx])
+				cut = idx+int(s.cellWidth[y][idx]) > x+w
+				if cut {
+					sb.WriteByte(' ')
+				} else {
+					sb.WriteString(cellText[idx])
+				}
 				spanWidth++
 			}
 
@@ -172,8 +181,8 @@ func (s *gridScreen) renderLineANSI(y int) string {
 		buf.Write(currentStyle.ANSIEscape())
 
 		for x < len(line) && styles[x] == currentStyle {
-			if line[x] != 0 {
-				buf.WriteRune(line[x])
+			if !s.cellCont[y][x] {
+				buf.WriteString(s.cellText[y][x])
 			}
 			x++
 		}
-- 
2.43.0


From a6c394ecf901595a512dc8798abdc7eba9820566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:30 +0000
Subject: [PATCH 29/48] fix: the grid screen never leaves half of a wide
 character behind

---
 screen_grid.go | 53 +++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 40 insertions(+), 13 deletions(-)

diff --git a/screen_grid.go b/screen_grid.go
index f89b25a..c5dae4d 100644
--- a/screen_grid.go
+++ b/screen_grid.go
@@ -275,6 +275,26 @@ func (s *gridScreen) setSize(w, h int) {
 	}
 	s.cellStyles = styleRect
 
+	if w < prevW {
+		// blank the wide characters that the new right edge cuts
+		for y := 0; y < minH; y++ {
+			base := w - 1
+			for base > 0 && cellCont[y][base] {
+				base--
+			}
+			if base+int(cellWidth[y][base]) <= w {
+				continue
+			}
+			for x := base; x < w; x++ {
+				s.chars[y][x] = ' '
+				cellText[y][x] = " "
+				cellWidth[y][x] = 1
+				cellCont[y][x] = false
+				styleRect[y][x] = s.style
+			}
+		}
+	}
+
 	s.bottomMargin = h - (s.size.Y - s.bottomMargin)
 
 	if s.bottomMargin < s.topMargin || s.bottomMargin >= h {
@@ -352,8 +372,7 @@ func (s *gridScreen) writeTokens(tokens []GraphemeToken) {
 				s.cursorPos.X = s.size.X - width
 			}
 		}
-		s.rawWriteRune(s.cursorPos.X, s.cursorPos.Y, r, width, CRText)
-		s.cellText[s.cursorPos.Y][s.cursorPos.X] = text
+		s.rawWriteCell(s.cursorPos.X, s.cursorPos.Y, r, text, width, CRText)
 		s.moveCursor(width, 0, true, true)
 	}
 }
@@ -368,6 +387,7 @@ func (s *gridScreen) mergeIntoPreviousCell(text string) {
 		x--
 	}
 	s.cellText[y][x] += text
+	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: x, X2: x + int(s.cellWidth[y][x])}, CRText)
 }
 
 // This is like writeRunes, but it moves existing runes to the right
@@ -400,9 +420,7 @@ func (s *gridScreen) rawWriteRunes(x int, y int, b []rune, cr ChangeReason) {
 	contRow := s.cellCont[y]
 	for i, r := range b {
 		idx := x + i
-		if contRow[idx] {
-			s.clearWideAt(y, idx)
-		}
+		s.clearWideAt(y, idx)
 		s.chars[y][idx] = r
 		textRow[idx] = string(r)
 		widthRow[idx] = 1
@@ -413,14 +431,19 @@ func (s *gridScreen) rawWriteRunes(x int, y int, b []rune, cr ChangeReason) {
 }
 
 func (s *gridScreen) rawWriteRune(x int, y int, r rune, width int, cr ChangeReason) {
+	s.rawWriteCell(x, y, r, string(r), width, cr)
+}
+
+// rawWriteCell is rawWriteRune for a character whose text is more than its first rune.
+func (s *gridScreen) rawWriteCell(x int, y int, r rune, text string, width int, cr ChangeReason) {
 	if width < 1 {
 		width = 1
 	}
 	if y >= s.size.Y || x+width > s.size.X {
 		panic(fmt.Sprintf("rawWriteRune out of range: %v  %v,%v,%v %v %#v\n", s.size, x, y, x+width, width, string(r)))
 	}
-	if s.cellCont[y][x] {
-		s.clearWideAt(y, x)
+	for i := x; i < x+width; i++ {
+		s.clearWideAt(y, i)
 	}
 
 	prevWidth := int(s.cellWidth[y][x])
@@ -429,7 +452,7 @@ func (s *gridScreen) rawWriteRune(x int, y int, r rune, width int, cr ChangeReas
 	}
 
 	s.chars[y][x] = r
-	s.cellText[y][x] = string(r)
+	s.cellText[y][x] = text
 	s.cellWidth[y][x] = uint8(width)
 	s.cellCont[y][x] = false
 	for i := 1; i < width; i++ {
@@ -515,6 +538,14 @@ func (s *gridScreen) deleteChars(x int, y int, n int, cr ChangeReason) {
 		n = s.size.X - x
 	}
 
+	// a wide character that is only partly deleted is blanked
+	if s.cellCont[y][x] {
+		s.clearWideAt(y, x)
+	}
+	if x+n < s.size.X && s.cellCont[y][x+n] {
+		s.clearWideAt(y, x+n)
+	}
+
 	line := s.chars[y]
 	copy(line[x:], line[x+n:])
 	textLine := s.cellText[y]
@@ -621,11 +652,7 @@ func clamp(v int, low, high int) int {
 }
 
 func (s *gridScreen) clampRegion(r Region) Region {
-	r.X = clamp(r.X, 0, s.size.X)
-	r.Y = clamp(r.Y, 0, s.size.Y)
-	r.X2 = clamp(r.X2, 0, s.size.X)
-	r.Y2 = clamp(r.Y2, 0, s.size.Y)
-	return r
+	return r.Clamp(Region{0, 0, s.size.X, s.size.Y})
 }
 
 func (s *gridScreen) moveCursor(dx, dy int, wrap bool, scroll bool) {
-- 
2.43.0


From 66319fe75c23d2717dba24fc5d5e35c63d7db1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:44 +0000
Subject: [PATCH 30/48] fix: StyledLine shows a cut wide character as blanks so
 that the widths add up

---
 screen.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/screen.go b/screen.go
index cfb68f2..8a4e74c 100644
--- a/screen.go
+++ b/screen.go
@@ -200,12 +200,21 @@ func (s *spanScreen) StyledLine(x, w, y int) Line {
 			} else {
 				// We need a sub-span
 				_, sub, _ := splitSpan(sp, offset, s.textMode) // skip left part
+				// a wide character cut by either end of the region shows as blanks
+				if gap := min(width, sp.Width-offset-sub.Width); gap > 0 {
+					spans = append(spans, Span{Style: sp.Style, Rune: ' ', Width: gap})
+					width -= gap
+				}
 				// now sub is from offset to end. we might need to truncate it if it's too long
 				if sub.Width > width {
-					keep, _, _ := splitSpan(sub, width, s.textMode)
-					spans = append(spans, keep)
-				} else {
+					sub, _, _ = splitSpan(sub, width, s.textMode)
+				}
+				if sub.Width > 0 {
 					spans = append(spans, sub)
+					width -= sub.Width
+				}
+				if width > 0 {
+					spans = append(spans, Span{Style: sp.Style, Rune: ' ', Width: width})
 				}
 			}
 		}
-- 
2.43.0


From e2e9b161f5d0fc3cfb32b5b9879c4fafaacbaa7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:46 +0000
Subject: [PATCH 31/48] fix: merge a fragment into the one character it belongs
 to

---
 screen.go | 44 ++++++++++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/screen.go b/screen.go
index 8a4e74c..05e613c 100644
--- a/screen.go
+++ b/screen.go
@@ -1096,32 +1096,36 @@ func (s *spanScreen) mergeIntoPreviousCell(text string) {
 		return
 	}
 
-	sp := &line.spans[idx]
-
-	// If we're at an offset within the span, we need to split it first
-	if offset > 0 {
-		left, right, _ := splitSpan(*sp, offset, s.textMode)
-
-		// Update spans: replace current span with left and right
-		newSpans := make([]Span, 0, len(line.spans)+1)
-		newSpans = append(newSpans, line.spans[:idx]...)
-		newSpans = append(newSpans, left, right)
-		newSpans = append(newSpans, line.spans[idx+1:]...)
-		line.spans = newSpans
-
-		// Now the cell we want to merge into is at idx+1
-		idx++
+	// Take the cell out of its span: before, the character covering the cell, after
+	before, after, char := splitSpan(line.spans[idx], offset, s.textMode)
+	if char.Width == 0 { // the cell is the first one of its character
+		width := 1
+		if after.Text != "" {
+			_, width = textPrefix(after.Text, 1, s.textMode)
+		}
+		char, after, _ = splitSpan(after, max(1, width), s.textMode)
 	}
+	cell -= offset - before.Width
 
 	// Convert repeat to text if needed and merge
-	sp = &line.spans[idx]
-	if sp.Text == "" {
-		sp.Text = strings.Repeat(string(sp.Rune), sp.Width)
+	if char.Text == "" {
+		char.Text = string(char.Rune)
 	}
-	sp.Text += text
+	char.Text += text
 	// Width doesn't change for merge
 
-	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: cell, X2: cell + 1}, CRText)
+	newSpans := make([]Span, 0, len(line.spans)+2)
+	newSpans = append(newSpans, line.spans[:idx]...)
+	if before.Width > 0 {
+		newSpans = append(newSpans, before)
+	}
+	newSpans = append(newSpans, char)
+	if after.Width > 0 {
+		newSpans = append(newSpans, after)
+	}
+	line.spans = append(newSpans, line.spans[idx+1:]...)
+
+	s.frontend.RegionChanged(Region{Y: y, Y2: y + 1, X: cell, X2: cell + char.Width}, CRText)
 }
 
 func max(a, b int) int {
-- 
2.43.0


From 2a1f4043016199573962c1cc00cea1ecd2545d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:07 +0000
Subject: [PATCH 32/48] fix: retry empty reads, and report a read error only
 after the data that came with it

---
 grapheme_reader.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/grapheme_reader.go b/grapheme_reader.go
index ff06e11..52e03d7 100644
--- a/grapheme_reader.go
+++ b/grapheme_reader.go
@@ -37,10 +37,14 @@ type GraphemeReader struct {
 	forceMergeNext bool
 	lastWasRI      bool
 	mode           TextReadMode
+	err            error // read error to report once the data before it is used up
 }
 
 const graphemeReadBufferSize = 4096
 
+// maxEmptyReads is how many reads in a row may return neither data nor an error.
+const maxEmptyReads = 100
+
 func NewGraphemeReader(src io.Reader) *GraphemeReader {
 	return NewGraphemeReaderWithMode(src, TextReadModeRune)
 }
@@ -237,11 +241,22 @@ func (r *GraphemeReader) fill() error {
 		copy(newBuf, r.data[:r.end])
 		r.data = newBuf
 	}
-	n, err := r.src.Read(r.data[r.end:])
-	if n > 0 {
-		r.end += n
+	if err := r.err; err != nil {
+		r.err = nil
+		return err
+	}
+	for range maxEmptyReads {
+		n, err := r.src.Read(r.data[r.end:])
+		if n > 0 {
+			r.end += n
+			r.err = err
+			return nil
+		}
+		if err != nil {
+			return err
+		}
 	}
-	return err
+	return io.ErrNoProgress
 }
 
 func isPrintableByte(b byte) bool {
-- 
2.43.0


From 3eb4017d6c433c6f5791d86453b3564f80a0e0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:37 +0000
Subject: [PATCH 33/48] fix: read every grapheme token from its own start

---
 grapheme_reader.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/grapheme_reader.go b/grapheme_reader.go
index 52e03d7..696acb8 100644
--- a/grapheme_reader.go
+++ b/grapheme_reader.go
@@ -315,7 +315,9 @@ func nextRuneTokenInfo(buf []byte, state int, forceMergeNext bool, lastWasRI boo
 }
 
 func nextGraphemeTokenInfo(buf []byte, state int, forceMergeNext bool, lastWasRI bool) ([]byte, int, int, bool, int, bool, bool, bool) {
-	cluster, consumed, width, newState, ok := stepGraphemeCluster(buf, state)
+	// A token starts a cluster of its own: the state of the last token knows
+	// about the byte that followed it, which may have been a control byte.
+	cluster, consumed, width, newState, ok := stepGraphemeCluster(buf, -1)
 	if !ok {
 		return nil, 0, 0, false, state, forceMergeNext, lastWasRI, false
 	}
@@ -336,13 +338,15 @@ func nextGraphemeTokenInfo(buf []byte, state int, forceMergeNext bool, lastWasRI
 		nextForceMergeNext = true
 	case isVariationSelectorOnly(cluster):
 		merge = true
-	case isRegionalIndicator(cluster):
+	case isRegionalIndicator(cluster) && utf8.RuneCount(cluster) == 1:
 		if nextLastWasRI {
 			merge = true
 			nextLastWasRI = false
 		} else {
 			nextLastWasRI = true
 		}
+	case width == 0: // nothing to show on its own
+		merge = true
 	default:
 		nextLastWasRI = false
 	}
-- 
2.43.0


From 759eab77992b57184d6d218292df476f7e5904e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:38 +0000
Subject: [PATCH 34/48] fix: mouse reports are well formed in every encoding
 and failed writes are returned

---
 terminal.go | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/terminal.go b/terminal.go
index a4a46a7..aae25d1 100644
--- a/terminal.go
+++ b/terminal.go
@@ -247,7 +247,7 @@ func (t *terminal) SendMouseRaw(btn MouseBtn, press bool, mods MouseFlag, x, y i
 	case MMNone:
 		return nil
 	case MMPress:
-		if !press {
+		if !press || mods&MMotion != 0 {
 			return nil
 		}
 	case MMPressRelease:
@@ -255,7 +255,7 @@ func (t *terminal) SendMouseRaw(btn MouseBtn, press bool, mods MouseFlag, x, y i
 			return nil
 		}
 	case MMPressReleaseMove:
-		if byte(mods)&mWhichBtn == byte(MRelease) {
+		if mods&MMotion != 0 && byte(btn)&mWhichBtn == byte(MRelease) {
 			return nil
 		}
 	case MMPressReleaseMoveAll:
@@ -268,18 +268,12 @@ func (t *terminal) SendMouseRaw(btn MouseBtn, press bool, mods MouseFlag, x, y i
 			btnByte |= byte(MRelease)
 		}
 
-		if 32+x > 255 {
-			x = 255 - 32
-		}
-		if 32+y > 255 {
-			y = 255 - 32
-		}
+		// each value is one byte, which limits the coordinates
+		x = clamp(x, 1, 255-32)
+		y = clamp(y, 1, 255-32)
 
-		mouseCmd := []byte("\033[M" + string(32+btnByte) + string(byte(32+x)) + string(byte(32+y)))
+		mouseCmd := append([]byte("\033[M"), 32+btnByte, byte(32+x), byte(32+y))
 		_, err := t.Write(mouseCmd)
-		if err != nil {
-			panic(fmt.Sprintf("error %v", err))
-		}
 		return err
 
 	case MEUTF8:
@@ -288,7 +282,11 @@ func (t *terminal) SendMouseRaw(btn MouseBtn, press bool, mods MouseFlag, x, y i
 			btnByte |= byte(MRelease)
 		}
 
-		_, err := t.Write([]byte("\033[M" + string(32+btnByte) + string(rune(32+x)) + string(rune(32+y))))
+		// each value is one rune of at most two bytes
+		x = clamp(x, 1, 2047-32)
+		y = clamp(y, 1, 2047-32)
+
+		_, err := t.Write([]byte("\033[M" + string(rune(32+btnByte)) + string(rune(32+x)) + string(rune(32+y))))
 		return err
 
 	case MESGR:
-- 
2.43.0


From 4942e24b8aa30ed7dba75eb252f7d5c9a33b249e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:27 +0000
Subject: [PATCH 35/48] fix: a key release produces no bytes unless the
 application asked for events

---
 keys.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/keys.go b/keys.go
index 03ee984..d5b1142 100644
--- a/keys.go
+++ b/keys.go
@@ -196,11 +196,18 @@ func (t *terminal) SendKey(ev KeyEvent) (int, error) {
 
 func (t *terminal) encodeKey(ev KeyEvent) []byte {
 	flags := t.keyboardFlags()
+	if ev.Event == KeyRelease && flags&int(KbdReportEvents) == 0 {
+		return nil
+	}
 	if flags != 0 {
 		if seq := t.encodeKittyKey(ev, flags); seq != nil {
 			return seq
 		}
 	}
+	if ev.Event == KeyRelease {
+		// A key sent as its legacy bytes has no release event.
+		return nil
+	}
 	return t.encodeLegacyKey(ev)
 }
 
@@ -328,7 +335,7 @@ func (t *terminal) encodeKittyKey(ev KeyEvent, flags int) []byte {
 	case KeyF12:
 		return kittyCSITilde(24, modField)
 	case KeyEscape:
-		if flags&int(KbdReportAllKeys) != 0 || flags&int(KbdDisambiguate) != 0 {
+		if flags&int(KbdReportAllKeys) != 0 || flags&int(KbdDisambiguate) != 0 || reportsEvent(ev, flags) {
 			return kittyCSIu(kittyKeyField(27, ev, flags), modField, kittyTextField(ev, flags))
 		}
 		return nil
@@ -362,7 +369,7 @@ func (t *terminal) encodeKittyRune(ev KeyEvent, flags int) []byte {
 	if flags&int(KbdReportAllKeys) != 0 {
 		return kittyCSIu(kittyKeyField(int(ev.Rune), ev, flags), kittyModField(ev.Mod, ev.Event, flags), kittyTextField(ev, flags))
 	}
-	if flags&int(KbdDisambiguate) != 0 {
+	if flags&int(KbdDisambiguate) != 0 || reportsEvent(ev, flags) {
 		if ev.Mod&(ModAlt|ModCtrl|ModSuper|ModHyper|ModMeta) != 0 {
 			return kittyCSIu(kittyKeyField(int(ev.Rune), ev, flags), kittyModField(ev.Mod, ev.Event, flags), "")
 		}
@@ -370,6 +377,11 @@ func (t *terminal) encodeKittyRune(ev KeyEvent, flags int) []byte {
 	return nil
 }
 
+// reportsEvent is true for a repeat or release that the application asked to be told about.
+func reportsEvent(ev KeyEvent, flags int) bool {
+	return flags&int(KbdReportEvents) != 0 && normalizeEventType(ev.Event) != KeyPress
+}
+
 func isKeypadKey(code KeyCode) bool {
 	switch code {
 	case KeyKP0, KeyKP1, KeyKP2, KeyKP3, KeyKP4, KeyKP5, KeyKP6, KeyKP7, KeyKP8, KeyKP9,
-- 
2.43.0


From d5366617aa592f5efc851cf7c58d129042101798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:29 +0000
Subject: [PATCH 36/48] fix: encode F3 as CSI 13 ~ and keypad Begin as CSI E in
 the Kitty forms

---
 keys.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/keys.go b/keys.go
index d5b1142..a2266d0 100644
--- a/keys.go
+++ b/keys.go
@@ -315,7 +315,7 @@ func (t *terminal) encodeKittyKey(ev KeyEvent, flags int) []byte {
 	case KeyF2:
 		return kittyCSI1('Q', modField)
 	case KeyF3:
-		return kittyCSI1('R', modField)
+		return kittyCSITilde(13, modField)
 	case KeyF4:
 		return kittyCSI1('S', modField)
 	case KeyF5:
@@ -334,6 +334,8 @@ func (t *terminal) encodeKittyKey(ev KeyEvent, flags int) []byte {
 		return kittyCSITilde(23, modField)
 	case KeyF12:
 		return kittyCSITilde(24, modField)
+	case KeyKPBegin:
+		return kittyCSI1('E', modField)
 	case KeyEscape:
 		if flags&int(KbdReportAllKeys) != 0 || flags&int(KbdDisambiguate) != 0 || reportsEvent(ev, flags) {
 			return kittyCSIu(kittyKeyField(27, ev, flags), modField, kittyTextField(ev, flags))
-- 
2.43.0


From 820df98b6847104c17fefa06ffbe3e9e81672baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:31 +0000
Subject: [PATCH 37/48] fix: report-all-keys implies that keypad keys are
 disambiguated

---
 keys.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keys.go b/keys.go
index a2266d0..c0c4a4a 100644
--- a/keys.go
+++ b/keys.go
@@ -281,7 +281,7 @@ func (t *terminal) encodeLegacyKey(ev KeyEvent) []byte {
 }
 
 func (t *terminal) encodeKittyKey(ev KeyEvent, flags int) []byte {
-	if isKeypadKey(ev.Code) && flags&int(KbdDisambiguate) == 0 {
+	if isKeypadKey(ev.Code) && flags&int(KbdDisambiguate|KbdReportAllKeys) == 0 {
 		if mapped, ok := keypadEquivalent(ev); ok {
 			return t.encodeKittyKey(mapped, flags)
 		}
-- 
2.43.0


From 1f7c4b61aad5a52ee9d74fcc1ca44a15b8f7b997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:03 +0000
Subject: [PATCH 38/48] fix: lock keys do not count as modifiers in the legacy
 encodings

---
 keys.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/keys.go b/keys.go
index c0c4a4a..a5bc906 100644
--- a/keys.go
+++ b/keys.go
@@ -212,6 +212,8 @@ func (t *terminal) encodeKey(ev KeyEvent) []byte {
 }
 
 func (t *terminal) encodeLegacyKey(ev KeyEvent) []byte {
+	// The legacy encodings have no bits for the lock keys.
+	ev.Mod &^= ModCapsLock | ModNumLock
 	if isKeypadKey(ev.Code) {
 		if mapped, ok := keypadEquivalent(ev); ok {
 			return t.encodeLegacyKey(mapped)
-- 
2.43.0


From 1a1f1326d2bfaedecdf7e2cb277bc219e7f94966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:05 +0000
Subject: [PATCH 39/48] fix: super, hyper and meta are encoded, not dropped,
 outside the Kitty modes

---
 keys.go | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/keys.go b/keys.go
index a5bc906..60be606 100644
--- a/keys.go
+++ b/keys.go
@@ -219,6 +219,9 @@ func (t *terminal) encodeLegacyKey(ev KeyEvent) []byte {
 			return t.encodeLegacyKey(mapped)
 		}
 	}
+	if seq := encodeUnmappedKey(ev); seq != nil && t.viewInts[VIModifyOtherKeys] == 0 {
+		return seq
+	}
 	switch ev.Code {
 	case KeyRune:
 		return t.encodeRuneKey(ev.Rune, ev.Mod)
@@ -664,6 +667,30 @@ func (t *terminal) encodeRuneKey(r rune, mod KeyMod) []byte {
 	return out
 }
 
+// encodeUnmappedKey encodes a text or C0 key whose modifiers have no legacy encoding.
+func encodeUnmappedKey(ev KeyEvent) []byte {
+	if ev.Mod&(ModSuper|ModHyper|ModMeta) == 0 {
+		return nil
+	}
+	code := 0
+	switch ev.Code {
+	case KeyRune:
+		code = int(ev.Rune)
+	case KeyEscape:
+		code = 27
+	case KeyEnter:
+		code = 13
+	case KeyTab:
+		code = 9
+	case KeyBackspace:
+		code = 127
+	}
+	if code == 0 {
+		return nil
+	}
+	return kittyCSIu(kittyKeyField(code, ev, 0), kittyModField(ev.Mod, KeyPress, 0), "")
+}
+
 func (t *terminal) encodeCursorKey(final byte, mod KeyMod) []byte {
 	if mod == 0 && t.viewFlags[VFAppCursorKeys] {
 		return []byte{0x1b, 'O', final}
@@ -852,7 +879,7 @@ func xtermModParam(mod KeyMod) int {
 	if mod&ModCtrl != 0 {
 		param += 4
 	}
-	return param
+	return param + int(mod&(ModSuper|ModHyper|ModMeta))
 }
 
 func normalizeEventType(event KeyEventType) KeyEventType {
-- 
2.43.0


From 25171cbc33e5c60630de21db6374d5172c10c112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:06 +0000
Subject: [PATCH 40/48] fix: map Ctrl with space, digits, slash and tilde as
 keyboard-protocol.rst lists them

---
 keys.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/keys.go b/keys.go
index 60be606..1392804 100644
--- a/keys.go
+++ b/keys.go
@@ -897,19 +897,19 @@ func ctrlByte(r rune) (byte, bool) {
 		return byte(r - 'A' + 1), true
 	}
 	switch r {
-	case '@':
+	case '@', ' ', '2':
 		return 0, true
-	case '[':
+	case '[', '3':
 		return 27, true
-	case '\\':
+	case '\\', '4':
 		return 28, true
-	case ']':
+	case ']', '5':
 		return 29, true
-	case '^':
+	case '^', '6', '~':
 		return 30, true
-	case '_':
+	case '_', '7', '/':
 		return 31, true
-	case '?':
+	case '?', '8':
 		return 127, true
 	default:
 		return 0, false
-- 
2.43.0


From 73b210c1b1115414bd08bb372f4937a029f850d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:08 +0000
Subject: [PATCH 41/48] fix: legacy Ctrl+Backspace, Alt+Escape, shifted Tab and
 Menu follow the documented table

---
 keys.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/keys.go b/keys.go
index 1392804..d30cc1e 100644
--- a/keys.go
+++ b/keys.go
@@ -277,6 +277,8 @@ func (t *terminal) encodeLegacyKey(ev KeyEvent) []byte {
 		return encodeTildeKey(23, ev.Mod)
 	case KeyF12:
 		return encodeTildeKey(24, ev.Mod)
+	case KeyMenu:
+		return encodeTildeKey(29, ev.Mod)
 	default:
 		if code, ok := kittyFunctionalCode(ev.Code); ok {
 			return kittyCSIu(kittyKeyField(code, ev, 0), kittyModField(ev.Mod, ev.Event, 0), "")
@@ -718,10 +720,14 @@ func (t *terminal) encodeBackspaceKey(mod KeyMod) []byte {
 	if t.viewInts[VIModifyOtherKeys] > 0 {
 		return encodeModifyOtherKeys(127, mod)
 	}
+	b := byte(0x7f)
+	if mod&ModCtrl != 0 {
+		b = 0x08
+	}
 	if mod&ModAlt != 0 {
-		return []byte{0x1b, 0x7f}
+		return []byte{0x1b, b}
 	}
-	return []byte{0x7f}
+	return []byte{b}
 }
 
 func (t *terminal) encodeTabKey(mod KeyMod) []byte {
@@ -734,6 +740,12 @@ func (t *terminal) encodeTabKey(mod KeyMod) []byte {
 	if t.viewInts[VIModifyOtherKeys] > 0 {
 		return encodeModifyOtherKeys(9, mod)
 	}
+	if mod&ModShift != 0 && mod&ModAlt != 0 {
+		return []byte{0x1b, 0x1b, '[', 'Z'}
+	}
+	if mod&ModShift != 0 {
+		return []byte{0x1b, '[', 'Z'}
+	}
 	if mod&ModAlt != 0 {
 		return []byte{0x1b, '\t'}
 	}
@@ -760,6 +772,9 @@ func (t *terminal) encodeEscapeKey(mod KeyMod) []byte {
 	if t.viewInts[VIModifyOtherKeys] > 0 {
 		return encodeModifyOtherKeys(27, mod)
 	}
+	if mod&ModAlt != 0 {
+		return []byte{0x1b, 0x1b}
+	}
 	return []byte{0x1b}
 }
 
-- 
2.43.0


From 5c6ffdca444377c0a638736b0673abcc3a0cd65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:10 +0000
Subject: [PATCH 42/48] fix: modifier keys are reported only with
 report-all-keys

---
 keys.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/keys.go b/keys.go
index d30cc1e..c9ea89b 100644
--- a/keys.go
+++ b/keys.go
@@ -199,6 +199,9 @@ func (t *terminal) encodeKey(ev KeyEvent) []byte {
 	if ev.Event == KeyRelease && flags&int(KbdReportEvents) == 0 {
 		return nil
 	}
+	if ev.Code >= KeyLeftShift && ev.Code <= KeyISOLevel5Shift && flags&int(KbdReportAllKeys) == 0 {
+		return nil
+	}
 	if flags != 0 {
 		if seq := t.encodeKittyKey(ev, flags); seq != nil {
 			return seq
-- 
2.43.0


From a465870e16efeacee7850eb8e83b4441f84dd45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:11 +0000
Subject: [PATCH 43/48] fix: a shifted key sends its shifted text, and
 associated text has no control codes

---
 keys.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/keys.go b/keys.go
index c9ea89b..4bbb9ff 100644
--- a/keys.go
+++ b/keys.go
@@ -227,6 +227,9 @@ func (t *terminal) encodeLegacyKey(ev KeyEvent) []byte {
 	}
 	switch ev.Code {
 	case KeyRune:
+		if ev.Shifted != 0 && ev.Mod&ModShift != 0 && ev.Mod&ModCtrl == 0 && t.viewInts[VIModifyOtherKeys] == 0 {
+			return t.encodeRuneKey(ev.Shifted, ev.Mod)
+		}
 		return t.encodeRuneKey(ev.Rune, ev.Mod)
 	case KeyUp:
 		return t.encodeCursorKey('A', ev.Mod)
@@ -847,12 +850,18 @@ func kittyTextField(ev KeyEvent, flags int) string {
 	text := ev.Text
 	if len(text) == 0 && ev.Code == KeyRune && ev.Rune != 0 {
 		text = []rune{ev.Rune}
+		if ev.Shifted != 0 && ev.Mod&ModShift != 0 {
+			text = []rune{ev.Shifted}
+		}
 	}
-	if len(text) == 0 {
+	if ev.Event == KeyRelease {
 		return ""
 	}
 	parts := make([]string, 0, len(text))
 	for _, r := range text {
+		if r < 0x20 || r >= 0x7f && r < 0xa0 {
+			continue
+		}
 		parts = append(parts, strconv.Itoa(int(r)))
 	}
 	return strings.Join(parts, ":")
-- 
2.43.0


From b0b1c30ca267240f83c9409f752c99b00e2ceb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:49 +0000
Subject: [PATCH 44/48] fix: an edit that ends or starts in front of a wide
 character leaves the character alone

---
 screen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/screen.go b/screen.go
index 05e613c..a2b665a 100644
--- a/screen.go
+++ b/screen.go
@@ -678,7 +678,7 @@ func splitSpan(sp Span, cellOffset int, mode TextReadMode) (left Span, right Spa
 		}
 
 		clusterEnd := cellPos + width
-		if cellOffset >= cellPos && cellOffset < clusterEnd {
+		if cellOffset > cellPos && cellOffset < clusterEnd {
 			// Split point is within this cluster
 			if width > 1 {
 				// We're breaking a wide cluster - return the wide char we're splitting
-- 
2.43.0


From a9974cd37e15ed017ed60ea1a5d84432d2a0a359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:57 +0000
Subject: [PATCH 45/48] fix: a control byte ends the text run, so the next
 character is not merged across it

---
 grapheme_reader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/grapheme_reader.go b/grapheme_reader.go
index 696acb8..c281c2e 100644
--- a/grapheme_reader.go
+++ b/grapheme_reader.go
@@ -68,6 +68,10 @@ func (r *GraphemeReader) ReadByte() (byte, error) {
 	}
 	b := r.data[r.start]
 	r.start++
+	// A byte that is not part of a text run ends the text before it.
+	r.state = -1
+	r.forceMergeNext = false
+	r.lastWasRI = false
 	return b, nil
 }
 
-- 
2.43.0


From eb9e5db270e19e9ad471b4378599fbb4a1eeaad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:14 +0000
Subject: [PATCH 46/48] fix: attaching a TTYFrontend leaves the cursor hidden
 while the application hides it

---
 tty_frontend.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/tty_frontend.go b/tty_frontend.go
index f35f6ef..b3033a9 100644
--- a/tty_frontend.go
+++ b/tty_frontend.go
@@ -51,9 +51,6 @@ func (t *TTYFrontend) Attach(r Region) {
 	t.mu.Lock()
 	t.region = r
 	t.attached = true
-	if !t.showCur {
-		t.showCur = true
-	}
 	term := t.term
 	t.mu.Unlock()
 
-- 
2.43.0


From 5c27978c7050e57fda3b1e7fdd4e3107c3691a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:04 +0000
Subject: [PATCH 47/48] fix: attaching a TTYFrontend to a region off the screen
 leaves the cursor shown

---
 tty_frontend.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tty_frontend.go b/tty_frontend.go
index b3033a9..56000ac 100644
--- a/tty_frontend.go
+++ b/tty_frontend.go
@@ -148,6 +148,7 @@ func (t *TTYFrontend) renderRegionLocked(r Region) {
 	w, h := t.term.Size()
 	r = clampRegion(r, w, h)
 	if r.Empty() {
+		t.renderCursorLocked()
 		return
 	}
 
-- 
2.43.0


From 4140af1c8678d65238aa70872e208f71e1a2536b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:24 +0000
Subject: [PATCH 48/48] fix: ANSIEscapeFrom does not go back to a default color

---
 style.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/style.go b/style.go
index e21c937..46b2d5d 100644
--- a/style.go
+++ b/style.go
@@ -378,6 +378,16 @@ func (s Style) ANSIEscapeFrom(prev Style) []byte {
 		bgChanged = true
 	}
 
+	// A default color is what a reset leaves; without one it has to be asked for
+	if !modesChanged {
+		if fgChanged && s.fg&^modeBitsMask == colDefault {
+			seq = append(seq, ESC, '[', '3', '9', 'm')
+		}
+		if bgChanged && s.bg&^modeBitsMask == colDefault {
+			seq = append(seq, ESC, '[', '4', '9', 'm')
+		}
+	}
+
 	// Only emit color changes if they changed
 	if fgChanged {
 		seq = append(seq, ansiEscapeColor(s.fg, '3')...)
-- 
2.43.0

