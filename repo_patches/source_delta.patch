From 1667f40d3c303c5840b5aa229d3067594788e2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:44 +0000
Subject: [PATCH 1/5] fix: riblt index mapping must advance and stay a valid
 index

---
 riblt/random.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/riblt/random.go b/riblt/random.go
index c6f512d..6af0bbf 100644
--- a/riblt/random.go
+++ b/riblt/random.go
@@ -36,6 +36,16 @@ func (s *randomMapping) nextIndex() uint64 {
 	// As an approximation, we can use
 	// x = (j+1.5)(1/sqrt(1-x/m) - 1)
 	xm := float64(r) / (1 << 64)
-	s.lastIdx += uint64(math.Ceil((float64(s.lastIdx)+1.5)*(1/math.Sqrt(1-xm)-1)))
+	step := uint64(math.Ceil((float64(s.lastIdx)+1.5)*(1/math.Sqrt(1-xm)-1)))
+	if step == 0 {
+		// rounding (or a zero PRNG state) must not map a symbol to the same index twice
+		step = 1
+	}
+	if s.lastIdx >= math.MaxInt64 || step > math.MaxInt64-s.lastIdx {
+		// keep the index representable as a nonnegative int
+		s.lastIdx = math.MaxInt64
+	} else {
+		s.lastIdx += step
+	}
 	return s.lastIdx
 }
-- 
2.43.0


From f5dd2ca26bd2fd2f191b60c75feec4d2547da943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:50 +0000
Subject: [PATCH 2/5] fix: ldpc encoder must not index its window with a
 degenerate random skip

When a draw of rand.Float64 is 0, or W underflows to 0 or rounds to a value
whose logarithm vanishes, the skip is infinite or not a number; converting
it to int gives a negative or overflowing index into the window.
---
 ldpc/encoder.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ldpc/encoder.go b/ldpc/encoder.go
index 7f6d3be..86d0a15 100644
--- a/ldpc/encoder.go
+++ b/ldpc/encoder.go
@@ -95,7 +95,13 @@ func (e *Encoder) produceCodeword(deg int) *Codeword {
 	W = math.Exp(math.Log(rand.Float64()) / d)
 	midx := deg
 	for midx < len(e.window) {
-		midx += (int)(math.Floor(math.Log(rand.Float64())/math.Log(1.0-W))) + 1
+		skip := math.Floor(math.Log(rand.Float64()) / math.Log(1.0-W))
+		if !(skip >= 0 && skip < float64(len(e.window)-midx)) {
+			// past the end of the window; also not a number or infinite, when
+			// a random draw is 0 or W vanishes
+			break
+		}
+		midx += (int)(skip) + 1
 		if midx < len(e.window) {
 			(*selected)[rand.Intn(deg)] = e.window[midx]
 			W = W * math.Exp(math.Log(rand.Float64())/d)
-- 
2.43.0


From ffd3a693bb88d9afeeacd4165927ea4d4fc8a056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:53 +0000
Subject: [PATCH 3/5] fix: ldpc encoder must be able to select the entry right
 after the reservoir

The sampling loop started from index deg although that entry had not been
considered yet, so the entry at index deg could never be selected.
---
 ldpc/encoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ldpc/encoder.go b/ldpc/encoder.go
index 86d0a15..7bfc02e 100644
--- a/ldpc/encoder.go
+++ b/ldpc/encoder.go
@@ -93,7 +93,7 @@ func (e *Encoder) produceCodeword(deg int) *Codeword {
 	d := float64(deg)
 	var W float64
 	W = math.Exp(math.Log(rand.Float64()) / d)
-	midx := deg
+	midx := deg - 1 // last entry considered so far
 	for midx < len(e.window) {
 		skip := math.Floor(math.Log(rand.Float64()) / math.Log(1.0-W))
 		if !(skip >= 0 && skip < float64(len(e.window)-midx)) {
-- 
2.43.0


From b5bc0b7c470ecd149d8dca48ca1cdfa26b3bc938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:07 +0000
Subject: [PATCH 4/5] fix: node handshake reads the whole peer key even if the
 transport splits it

---
 node/controller.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node/controller.go b/node/controller.go
index 05b7b47..0240719 100644
--- a/node/controller.go
+++ b/node/controller.go
@@ -177,7 +177,7 @@ func (c *controller) handleConn(id string, conn io.ReadWriter) error {
 	if err != nil {
 		return err
 	}
-	_, err = conn.Read(decoderKey[:])
+	_, err = io.ReadFull(conn, decoderKey[:])
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 669d4c901c8ce0b0c1961131dd850ba4aa2da4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:07 +0000
Subject: [PATCH 5/5] fix: AWSGetImageID releases the image list lock when
 fetching the list fails

---
 testbed/aws.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/testbed/aws.go b/testbed/aws.go
index 3258c5b..5c6fb99 100644
--- a/testbed/aws.go
+++ b/testbed/aws.go
@@ -25,6 +25,7 @@ var AWSImageList string
 
 func AWSGetImageID(region string) (string, error) {
 	AWSImageListLock.Lock()
+	defer AWSImageListLock.Unlock()
 	if AWSImageList == "" {
 		resp, err := http.Get("https://cloud-images.ubuntu.com/locator/ec2/releasesTable")
 		if err != nil {
@@ -37,7 +38,6 @@ func AWSGetImageID(region string) (string, error) {
 		AWSImageList = string(body)
 		defer resp.Body.Close()
 	}
-	AWSImageListLock.Unlock()
 
 	escaped := strings.ReplaceAll(region, "-", `\-`)
 	tr := escaped + `","focal","20\.04 LTS","amd64",".+","\d+","<.+>(ami\-.+)</a>`
-- 
2.43.0

