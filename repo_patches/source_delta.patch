From 941382e29791afef5a2f5ad2117a80030b53243a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 01/19] fix: recheck the whole text before automatic detection
 settles on Kanji mode
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Texts such as "A世" were detected as Kanji although 'A' has no Kanji encoding;
their payload was dropped silently.
---
 chardet.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/chardet.go b/chardet.go
index 8035b9f..c300053 100644
--- a/chardet.go
+++ b/chardet.go
@@ -80,6 +80,12 @@ func analyzeEncodeModeFromRaw(raw string) (encMode, error) {
 		return EncModeNone, ErrNotSupportCharacter
 	}
 
+	// Kanji is not a superset of the numeric and alphanumeric sets: the characters those
+	// modes accepted before the mode was raised must be representable in Kanji as well.
+	if mode == EncModeKanji && validateEncodingMode(mode, raw) != nil {
+		mode = EncModeByte
+	}
+
 	return mode, nil
 }
 
-- 
2.43.0


From 91e4f3f379788039e12e881c8af725ec78456b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 02/19] fix: accept named string and byte slice types in New
 and NewWith

The constraint is ~string | ~[]byte, but a type switch on the exact types
panicked for every named type.
---
 qrcode.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/qrcode.go b/qrcode.go
index 0852331..d7e8bd6 100644
--- a/qrcode.go
+++ b/qrcode.go
@@ -28,14 +28,7 @@ func NewWith[T ~string | ~[]byte](text T, opts ...EncodeOption) (*QRCode, error)
 }
 
 func toBytes[T ~string | ~[]byte](v T) []byte {
-	switch x := any(v).(type) {
-	case string:
-		return []byte(x)
-	case []byte:
-		return x
-	default:
-		panic("unreachable")
-	}
+	return []byte(v)
 }
 
 // validateEncodingMode checks if the specified encoding mode is compatible with the input text.
-- 
2.43.0


From cc2b75f99fef430eebc6aec09c3fb45e5efe3e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 03/19] fix: report an unsupported encoding mode as an error

Together with WithVersion, an unsupported mode reached newEncoder and panicked.
---
 qrcode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qrcode.go b/qrcode.go
index d7e8bd6..0e40f7a 100644
--- a/qrcode.go
+++ b/qrcode.go
@@ -47,7 +47,7 @@ func validateEncodingMode(mode encMode, text string) error {
 		// Byte mode can encode any character
 		return nil
 	default:
-		return nil
+		return fmt.Errorf("unsupported encoding mode: %s", getEncModeName(mode))
 	}
 
 	for _, r := range text {
-- 
2.43.0


From 297378d28a8e620848a6acd0576d049384b69079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 04/19] fix: choose the mask independently of goroutine
 scheduling

Equal penalty scores were resolved by the order in which goroutines finished,
so the same input produced different symbols from run to run.
---
 qrcode.go | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/qrcode.go b/qrcode.go
index 0e40f7a..8116fe0 100644
--- a/qrcode.go
+++ b/qrcode.go
@@ -633,17 +633,12 @@ func (q *QRCode) fillDataBinary(m *Matrix, dimension int) {
 // draw from bitset to matrix.Matrix, calculate all mask modula score,
 // then decide which mask to use according to the mask's score (the lowest one).
 func (q *QRCode) masking() {
-	type maskScore struct {
-		Score int
-		Idx   int
-	}
-
 	var (
 		masks       = make([]*mask, 8)
 		mats        = make([]*Matrix, 8)
 		lowScore    = math.MaxInt32
 		markMatsIdx int
-		scoreChan   = make(chan maskScore, 8)
+		scores      = make([]int, 8)
 		wg          sync.WaitGroup
 	)
 
@@ -685,10 +680,7 @@ func (q *QRCode) masking() {
 				score,
 				markMatsIdx,
 				lowScore)
-			scoreChan <- maskScore{
-				Score: score,
-				Idx:   i,
-			}
+			scores[i] = score
 
 			_ = debugDraw(fmt.Sprintf("draft/qrcode_mask_%d.jpeg", i), *mats[i])
 
@@ -697,12 +689,12 @@ func (q *QRCode) masking() {
 	}
 
 	wg.Wait()
-	close(scoreChan)
 
-	for c := range scoreChan {
-		if c.Score < lowScore {
-			lowScore = c.Score
-			markMatsIdx = c.Idx
+	// compare in mask order, so that equal scores always select the same mask.
+	for i, score := range scores {
+		if score < lowScore {
+			lowScore = score
+			markMatsIdx = i
 		}
 	}
 
-- 
2.43.0


From 679faebb2eb2429d5fe112c300353e6e346bb357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 05/19] fix: return a copy from Matrix.Col

The column aliased the matrix, so a caller could alter the symbol through it.
Row already returns a copy.
---
 matrix.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/matrix.go b/matrix.go
index 81d0a9a..0f1c4e4 100644
--- a/matrix.go
+++ b/matrix.go
@@ -162,7 +162,9 @@ func (m *Matrix) Col(cur int) []qrvalue {
 		return nil
 	}
 
-	return m.mat[cur]
+	col := make([]qrvalue, m.height)
+	copy(col, m.mat[cur])
+	return col
 }
 
 // Bitmap outputs the QR Code as a matrix of pixels, each represented by a single bit.
-- 
2.43.0


From 9df843ec71a13cf55c4f9f8e91f2d9cc7abbc1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 06/19] fix: evaluate mask penalties on module colors only

Rules 2 and 3 compared the module type too, so blocks and patterns made of
different kinds of modules were not penalized.
---
 mask_evaluation.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/mask_evaluation.go b/mask_evaluation.go
index 2c75a6b..f1655d0 100644
--- a/mask_evaluation.go
+++ b/mask_evaluation.go
@@ -80,7 +80,7 @@ func rule2(mat *Matrix) int {
 			s2, _ = mat.at(x, y+1)
 			s3, _ = mat.at(x+1, y+1)
 
-			if s0 == s1 && s2 == s3 && s1 == s2 {
+			if samestate(s0, s1) && samestate(s2, s3) && samestate(s1, s2) {
 				score += 3
 			}
 		}
@@ -97,8 +97,8 @@ func rule2(mat *Matrix) int {
 // Each time this pattern is found, add 40 to the penalty score.
 func rule3(mat *Matrix) (score int) {
 	var (
-		pattern1     = binaryToQRValueSlice("1011101 0000")
-		pattern2     = binaryToQRValueSlice("0000 1011101")
+		pattern1     = toColors(binaryToQRValueSlice("1011101 0000"))
+		pattern2     = toColors(binaryToQRValueSlice("0000 1011101"))
 		pattern1Next = kmpGetNext(pattern1)
 		pattern2Next = kmpGetNext(pattern2)
 	)
@@ -113,8 +113,8 @@ func rule3(mat *Matrix) (score int) {
 	dimension := mat.Width()
 
 	for i := 0; i < dimension; i++ {
-		col := mat.Col(i)
-		row := mat.Row(i)
+		col := toColors(mat.Col(i))
+		row := toColors(mat.Row(i))
 
 		// DONE(@yeqown): statePattern1 and statePattern2 are fixed, so maybe kmpGetNext
 		// could cache result to speed up.
@@ -127,6 +127,15 @@ func rule3(mat *Matrix) (score int) {
 	return score
 }
 
+// toColors reduces modules to their color, the patterns are looked for regardless of the module's type.
+func toColors(line []qrvalue) []bool {
+	colors := make([]bool, len(line))
+	for i, v := range line {
+		colors[i] = v.qrbool()
+	}
+	return colors
+}
+
 // rule4 is based on the ratio of light modules to dark modules:
 //
 // 1. Count the total number of modules in the matrix.
-- 
2.43.0


From 256a2c38dc2a16e88a5316491d33d046caff879c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 07/19] fix: truncate an existing file in compressed.New

The tail of a longer previous file stayed behind the new image.
---
 writer/compressed/writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/writer/compressed/writer.go b/writer/compressed/writer.go
index 19bc71e..9166d40 100644
--- a/writer/compressed/writer.go
+++ b/writer/compressed/writer.go
@@ -30,7 +30,7 @@ var (
 )
 
 func New(filename string, opt *Option) (qrcode.Writer, error) {
-	fd, err := os.OpenFile(filename, os.O_RDWR|os.O_CREATE, 0644)
+	fd, err := os.OpenFile(filename, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 1e6452bb25af2b5444a66163d95107dc94af034b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 08/19] fix: do not modify the writer's options while drawing

With a transparent background the first Write changed the background color,
so a second Write of the same matrix produced a different image.
---
 writer/standard/image_option.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/writer/standard/image_option.go b/writer/standard/image_option.go
index 9efd4d2..956dfb9 100644
--- a/writer/standard/image_option.go
+++ b/writer/standard/image_option.go
@@ -72,11 +72,12 @@ func (oo *outputImageOptions) backgroundColor() color.RGBA {
 		return color_WHITE
 	}
 
+	bg := oo.bgColor
 	if oo.bgTransparent {
-		(&oo.bgColor).A = 0x00
+		bg.A = 0x00
 	}
 
-	return oo.bgColor
+	return bg
 }
 
 func (oo *outputImageOptions) logoImage() image.Image {
@@ -148,15 +149,11 @@ func (oo *outputImageOptions) translateToRGBA(v qrcode.QRValue) (rgba color.RGBA
 	}
 
 	if oo.bgTransparent {
-		(&oo.bgColor).A = 0x00
 		// color.RGBA is pre-multiplied by alpha, so set RGB to 0 when fully transparent.
-		(&oo.bgColor).R = 0x00
-		(&oo.bgColor).G = 0x00
-		(&oo.bgColor).B = 0x00
+		return color.RGBA{}
 	}
-	rgba = oo.bgColor
 
-	return rgba
+	return oo.bgColor
 }
 
 // parseFromHex convert hex string into color.RGBA
-- 
2.43.0


From c08d5c1cfb46127e8d9c190d0d4dd5d8c32708c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 09/19] fix: ignore an empty color in WithFgColorRGBHex

It panicked, unlike WithBgColorRGBHex.
---
 writer/standard/image_option_api.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/writer/standard/image_option_api.go b/writer/standard/image_option_api.go
index a637bc0..75f76d5 100644
--- a/writer/standard/image_option_api.go
+++ b/writer/standard/image_option_api.go
@@ -70,6 +70,10 @@ func WithFgColor(c color.Color) ImageOption {
 // WithFgColorRGBHex Hex string to set QR Color
 func WithFgColorRGBHex(hex string) ImageOption {
 	return newFuncOption(func(oo *outputImageOptions) {
+		if hex == "" {
+			return
+		}
+
 		oo.qrColor = parseFromHex(hex)
 	})
 }
-- 
2.43.0


From a3773f4edaa5f8b419778d55f2e8acf597450b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 10/19] fix: clear the logo safe zone at the right place of the
 bitmap

The bitmap is indexed by row first; the transposed cells were cleared, so
neighbours were wrong around non-square logos.
---
 writer/standard/writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/writer/standard/writer.go b/writer/standard/writer.go
index 65d6bc4..e2c6b4f 100644
--- a/writer/standard/writer.go
+++ b/writer/standard/writer.go
@@ -160,7 +160,7 @@ func draw(mat qrcode.Matrix, opt *outputImageOptions) image.Image {
 	if logoValid && opt.logoSafeZone {
 		mat.Iterate(qrcode.IterDirection_ROW, func(x int, y int, v qrcode.QRValue) {
 			if blockOverlapsLogo(x, y, opt.qrBlockWidth(), left, top, w, h, logoWidth, logoHeight) {
-				bitMap[x][y] = false
+				bitMap[y][x] = false
 			}
 		})
 	}
-- 
2.43.0


From b25d410f639717fe6ef1e92633bc79c74d680648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 11/19] fix: honour stripeRatio in HStripeBlock

The parameter was ignored, unlike in VStripeBlock.
---
 writer/standard/shapes/blocks.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/writer/standard/shapes/blocks.go b/writer/standard/shapes/blocks.go
index 31322f8..c5daf3e 100644
--- a/writer/standard/shapes/blocks.go
+++ b/writer/standard/shapes/blocks.go
@@ -131,7 +131,7 @@ func HStripeBlock(stripeRatio float64) func(ctx *standard.DrawContext) {
 		fw, fh := float64(w), float64(h)
 		x, y := ctx.UpperLeft()
 		cx, cy := x+fw/2, y+fh/2
-		r := fw * 0.9 / 2
+		r := fw * stripeRatio / 2
 
 		ctx.SetColor(ctx.Color())
 
-- 
2.43.0


From 443c6934d87fba331282797312de6f97fedaa925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 12/19] fix: do not reorder the caller's slice in NewGradient

---
 writer/standard/gradient.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/writer/standard/gradient.go b/writer/standard/gradient.go
index 52283f4..861be9a 100644
--- a/writer/standard/gradient.go
+++ b/writer/standard/gradient.go
@@ -27,6 +27,7 @@ type LinearGradient struct {
 // NewGradient creates a new LinearGradient with the specified angle (in degrees) and color stops.
 // The stops are sorted in ascending order of T.
 func NewGradient(angle float64, stops ...ColorStop) *LinearGradient {
+	stops = append([]ColorStop(nil), stops...)
 	sort.Slice(stops, func(i, j int) bool {
 		return stops[i].T < stops[j].T
 	})
-- 
2.43.0


From 568039fb8e67237b28d696c783ddc7b57f589d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 13/19] fix: respect the origin of the image in imgkit.Gray and
 imgkit.Binaryzation

Images whose bounds do not start at (0,0), such as sub-images, were read at
the wrong place.
---
 writer/standard/imgkit/process.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/writer/standard/imgkit/process.go b/writer/standard/imgkit/process.go
index 5cbfd87..3ed6f7e 100644
--- a/writer/standard/imgkit/process.go
+++ b/writer/standard/imgkit/process.go
@@ -15,10 +15,9 @@ func Binaryzation(src image.Image, threshold uint8) image.Image {
 
 	gray := Gray(src)
 	bounds := src.Bounds()
-	height, width := bounds.Max.Y-bounds.Min.Y, bounds.Max.X-bounds.Min.X
 
-	for i := 0; i < height; i++ {
-		for j := 0; j < width; j++ {
+	for i := bounds.Min.Y; i < bounds.Max.Y; i++ {
+		for j := bounds.Min.X; j < bounds.Max.X; j++ {
 			// var rgb int = int(gray[i][j][0]) + int(gray[i][j][1]) + int(gray[i][j][2])
 			if gray.At(j, i).(color.Gray).Y > threshold {
 				gray.Set(j, i, color.White)
@@ -33,11 +32,10 @@ func Binaryzation(src image.Image, threshold uint8) image.Image {
 
 func Gray(src image.Image) *image.Gray {
 	bounds := src.Bounds()
-	height, width := bounds.Max.Y-bounds.Min.Y, bounds.Max.X-bounds.Min.X
 	gray := image.NewGray(bounds)
 
-	for i := 0; i < height; i++ {
-		for j := 0; j < width; j++ {
+	for i := bounds.Min.Y; i < bounds.Max.Y; i++ {
+		for j := bounds.Min.X; j < bounds.Max.X; j++ {
 			c := color.GrayModel.Convert(src.At(j, i))
 			gray.SetGray(j, i, c.(color.Gray))
 		}
-- 
2.43.0


From 5eab2f4a7e9fb732ce275914833b3d8083985b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:05 +0000
Subject: [PATCH 14/19] fix: exit with a non-zero status when the command fails

---
 cmd/qrcode/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/qrcode/main.go b/cmd/qrcode/main.go
index 6810334..f971300 100644
--- a/cmd/qrcode/main.go
+++ b/cmd/qrcode/main.go
@@ -9,5 +9,6 @@ func main() {
 
 	if err := app.Run(os.Args); err != nil {
 		println(err.Error())
+		os.Exit(1)
 	}
 }
-- 
2.43.0


From ca9df1c04115c0fa30308dc7e0dc2052f7449080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:43 +0000
Subject: [PATCH 15/19] fix: rate the share of dark modules by the exact
 percentage

---
 mask_evaluation.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mask_evaluation.go b/mask_evaluation.go
index f1655d0..626907a 100644
--- a/mask_evaluation.go
+++ b/mask_evaluation.go
@@ -167,14 +167,15 @@ func rule4(mat *Matrix) int {
 		}
 	}
 
-	ratio := (dark * 100) / total // in range [0, 100]
+	// the multiple of five at or below the exact percentage, in range [0, 20] fives.
+	fives := (dark * 20) / total
 	step := 0
-	if ratio%5 == 0 {
+	if (dark*20)%total == 0 {
 		step = 1
 	}
 
-	previous := abs((ratio/5-step)*5 - 50)
-	next := abs((ratio/5+1-step)*5 - 50)
+	previous := abs((fives-step)*5 - 50)
+	next := abs((fives+1-step)*5 - 50)
 
 	return min(previous, next) / 5 * 10
 }
-- 
2.43.0


From 0341e955be795ee07bea5d393a963efd5a6e92b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:53 +0000
Subject: [PATCH 16/19] fix: centre a logo whose bounds do not start at (0, 0)

---
 writer/standard/writer.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/writer/standard/writer.go b/writer/standard/writer.go
index e2c6b4f..c6bfc42 100644
--- a/writer/standard/writer.go
+++ b/writer/standard/writer.go
@@ -146,9 +146,11 @@ func draw(mat qrcode.Matrix, opt *outputImageOptions) image.Image {
 	// If so, mark it as valid and store its dimensions for safe zone calculation.
 	var logoValid bool
 	var logoWidth, logoHeight int
+	var logoMin image.Point
 	if opt.logoImage() != nil {
 		bound := opt.logo.Bounds()
 		upperLeft, lowerRight := bound.Min, bound.Max
+		logoMin = upperLeft
 		logoWidth, logoHeight = lowerRight.X-upperLeft.X, lowerRight.Y-upperLeft.Y
 
 		logoValid = validLogoImage(w, h, logoWidth, logoHeight, opt.logoSizeMultiplier)
@@ -234,8 +236,9 @@ func draw(mat qrcode.Matrix, opt *outputImageOptions) image.Image {
 	}
 
 	// DONE(@yeqown): calculate the xOffset and yOffset which point(xOffset, yOffset)
-	// should icon upper-left to start
-	dc.DrawImage(opt.logoImage(), (w-logoWidth)/2, (h-logoHeight)/2)
+	// should icon upper-left to start. DrawImage keeps the image's own coordinates, so the
+	// origin of the logo (which is not (0, 0) in a sub-image) has to be taken off.
+	dc.DrawImage(opt.logoImage(), (w-logoWidth)/2-logoMin.X, (h-logoHeight)/2-logoMin.Y)
 
 done:
 	return dc.Image()
-- 
2.43.0


From 89fe9e063b290e3f1f059247590b6d4c51a5edfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:48 +0000
Subject: [PATCH 17/19] fix: reject block sizes above 255 instead of truncating
 them

---
 cmd/qrcode/app.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cmd/qrcode/app.go b/cmd/qrcode/app.go
index a3dbc9e..db5bb88 100644
--- a/cmd/qrcode/app.go
+++ b/cmd/qrcode/app.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"math"
 	"path/filepath"
 	"strconv"
 	"strings"
@@ -129,13 +130,18 @@ func (foo fileOutputOptions) applyOptions() []standard.ImageOption {
 type terminalOutputOptions struct{}
 
 func parseGenerateContextFrom(c *cli.Context) *generateContext {
+	blockSize := c.Uint("block")
+	if blockSize > math.MaxUint8 {
+		panic("invalid block size, want: uint8")
+	}
+
 	genCtx := &generateContext{
 		text: c.Args().First(),
 		mode: writerMode_FILE,
 		FOO: &fileOutputOptions{
 			output:        c.String("output"),
 			outputSuffix:  strings.TrimPrefix(filepath.Ext(c.String("output")), "."),
-			blockSize:     uint8(c.Uint("block")),
+			blockSize:     uint8(blockSize),
 			borders:       [4]int{},
 			isCircleShape: c.Bool("circle"),
 			transparent:   c.Bool("transparent"),
-- 
2.43.0


From 59a17606c632ba6f5ed5bfe6e3bbe5f0c0514107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:05 +0000
Subject: [PATCH 18/19] fix: use the default options when the wasm option is
 not an object

---
 cmd/wasm/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/wasm/types.go b/cmd/wasm/types.go
index 7c9783a..96fd0a8 100644
--- a/cmd/wasm/types.go
+++ b/cmd/wasm/types.go
@@ -41,7 +41,7 @@ func optionFromJSValue(option js.Value) *genOption {
 	//fmt.Println(option.Type().String())
 	if option.IsNull() || option.IsUndefined() || option.Type().String() != "object" {
 		// option must be an object, otherwise return default empty option.
-		return nil
+		return new(genOption)
 	}
 
 	return &genOption{
-- 
2.43.0


From c33a33653fc8416491ff040b9c6f3751085b996f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:05 +0000
Subject: [PATCH 19/19] fix: do not panic on missing fields of the wasm option
 object

---
 cmd/wasm/types.go | 47 +++++++++++++++++++++++++++++++++++++----------
 1 file changed, 37 insertions(+), 10 deletions(-)

diff --git a/cmd/wasm/types.go b/cmd/wasm/types.go
index 96fd0a8..7f7c252 100644
--- a/cmd/wasm/types.go
+++ b/cmd/wasm/types.go
@@ -46,22 +46,49 @@ func optionFromJSValue(option js.Value) *genOption {
 
 	return &genOption{
 		encodeOption: encodeOption{
-			version: option.Get("encodeVersion").Int(),
-			mode:    uint8(option.Get("encodeMode").Int()),
-			ecLevel: option.Get("encodeECLevel").String(),
+			version: intField(option, "encodeVersion"),
+			mode:    uint8(intField(option, "encodeMode")),
+			ecLevel: stringField(option, "encodeECLevel"),
 		},
 		outputOption: outputOption{
-			bgColor:       option.Get("outputBgColor").String(),
-			bgTransparent: option.Get("outputBgTransparent").Bool(),
-			qrColor:       option.Get("outputQrColor").String(),
-			qrWidth:       uint8(option.Get("outputQrWidth").Int()),
-			circleShape:   option.Get("outputCircleShape").Bool(),
-			imageEncoder:  option.Get("outputImageEncoder").String(),
-			margin:        option.Get("outputMargin").Int(),
+			bgColor:       stringField(option, "outputBgColor"),
+			bgTransparent: boolField(option, "outputBgTransparent"),
+			qrColor:       stringField(option, "outputQrColor"),
+			qrWidth:       uint8(intField(option, "outputQrWidth")),
+			circleShape:   boolField(option, "outputCircleShape"),
+			imageEncoder:  stringField(option, "outputImageEncoder"),
+			margin:        intField(option, "outputMargin"),
 		},
 	}
 }
 
+// intField returns the number in the given field, or 0 if there is none.
+func intField(option js.Value, name string) int {
+	if v := option.Get(name); v.Type() == js.TypeNumber {
+		return v.Int()
+	}
+
+	return 0
+}
+
+// boolField returns the boolean in the given field, or false if there is none.
+func boolField(option js.Value, name string) bool {
+	if v := option.Get(name); v.Type() == js.TypeBoolean {
+		return v.Bool()
+	}
+
+	return false
+}
+
+// stringField returns the string in the given field, or "" if there is none.
+func stringField(option js.Value, name string) string {
+	if v := option.Get(name); v.Type() == js.TypeString {
+		return v.String()
+	}
+
+	return ""
+}
+
 // validate genOption.
 func (o *genOption) validate() error {
 	if o == nil {
-- 
2.43.0

