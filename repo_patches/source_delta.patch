From 9cec7195756f192f46e186fcf033fede27ed5404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:33 +0000
Subject: [PATCH 1/3] fix: forget when a projection was last compacted on reset

---
 engine/internal/projection/controller.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/engine/internal/projection/controller.go b/engine/internal/projection/controller.go
index 3289cbe..2a8b3c6 100644
--- a/engine/internal/projection/controller.go
+++ b/engine/internal/projection/controller.go
@@ -180,6 +180,7 @@ func (c *Controller) Handle(
 	return nil, compactErr
 }
 
-// Reset does nothing.
+// Reset clears the state of the controller.
 func (c *Controller) Reset() {
+	c.lastCompact = time.Time{}
 }
-- 
2.43.0


From bc9bd6bee5a30373c60efeb6914533f5485b1cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:49:33 +0000
Subject: [PATCH 2/3] fix: announce facts about concurrent compaction from the
 caller's goroutine

---
 engine/internal/projection/controller.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/engine/internal/projection/controller.go b/engine/internal/projection/controller.go
index 2a8b3c6..9041a41 100644
--- a/engine/internal/projection/controller.go
+++ b/engine/internal/projection/controller.go
@@ -110,6 +110,7 @@ func (c *Controller) Handle(
 	}
 
 	compactResult := make(chan error, 1)
+	var compactFacts fact.Buffer
 
 	if c.CompactDuringHandling {
 		// Ensure that notification of facts occurs in the main goroutine as
@@ -126,7 +127,7 @@ func (c *Controller) Handle(
 				ctx,
 				&scope{
 					config:   c.Config,
-					observer: obs,
+					observer: &compactFacts,
 					now:      now,
 				},
 			)
@@ -157,6 +158,11 @@ func (c *Controller) Handle(
 	compactErr := <-compactResult
 
 	if c.CompactDuringHandling {
+		// Announce anything logged by the compaction from this goroutine.
+		for _, f := range compactFacts.Facts() {
+			obs.Notify(f)
+		}
+
 		obs.Notify(fact.ProjectionCompactionCompleted{
 			Handler: c.Config,
 			Error:   compactErr,
-- 
2.43.0


From 4439fc2a3057ef126e251d998182eb7e01a9d9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:16 +0000
Subject: [PATCH 3/3] fix: run every cleanup function even if another one
 aborts or panics

---
 expectation.satisfy.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/expectation.satisfy.go b/expectation.satisfy.go
index d4e85c9..f5f4b1c 100644
--- a/expectation.satisfy.go
+++ b/expectation.satisfy.go
@@ -362,10 +362,21 @@ func (t *SatisfyT) explain(fn string) {
 	}
 }
 
-// close calls any functions registered via Cleanup().
+// close calls any functions registered via Cleanup(), last registered first.
+//
+// Every function is called, even if another one aborts or panics.
 func (t *SatisfyT) close() {
-	for i := len(t.cleanup) - 1; i >= 0; i-- {
-		t.cleanup[i]()
+	for _, fn := range t.cleanup {
+		defer func() {
+			defer func() {
+				r := recover()
+				if _, ok := r.(abortSentinel); !ok && r != nil {
+					panic(r)
+				}
+			}()
+
+			fn()
+		}()
 	}
 }
 
-- 
2.43.0

