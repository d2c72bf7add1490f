From b1b51852a3a82c4a273ef21ad0d0a3e1d438eafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:20 +0000
Subject: [PATCH 01/25] fix: optimizers: wait for the running updates before
 returning

Optimize closed errCh and returned while updates were still running: it
returned early, lost late errors, and a failing update could send on the
closed channel.
---
 optimizers/optimizer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/optimizers/optimizer.go b/optimizers/optimizer.go
index 2da4d08..6ffae54 100644
--- a/optimizers/optimizer.go
+++ b/optimizers/optimizer.go
@@ -68,6 +68,7 @@ func (o *Optimizer) Optimize() error {
 		}
 	}
 
+	wg.Wait() // Wait for running goroutines to finish
 	close(errCh)
 
 	if err, ok := <-errCh; ok {
-- 
2.43.0


From 2f50593e9356772ef8336ebaac7b7fe22ec1ebc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:20 +0000
Subject: [PATCH 02/25] fix: optimizers: update a parameter once even if it
 occurs repeatedly

A parameter shared by several sub-models occurs repeatedly in the stream,
and was updated concurrently by several goroutines.
---
 optimizers/optimizer.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/optimizers/optimizer.go b/optimizers/optimizer.go
index 6ffae54..100e526 100644
--- a/optimizers/optimizer.go
+++ b/optimizers/optimizer.go
@@ -42,7 +42,15 @@ func (o *Optimizer) Optimize() error {
 	ctx, cancel := context.WithCancel(context.Background())
 	defer cancel()
 
+	seen := make(map[*nn.Param]struct{})
+
 	for param := range o.parameters(ctx) {
+		// A parameter shared by several (sub)models occurs more than once.
+		if _, ok := seen[param]; ok {
+			continue
+		}
+		seen[param] = struct{}{}
+
 		select {
 		case err := <-errCh:
 			cancel()  // As soon as an error occurs, stop the iteration over parameters
-- 
2.43.0


From 29550e90bbf6eb5fa4f7045dd9730bf8b56849a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:08 +0000
Subject: [PATCH 03/25] fix: gradfn: Softmax propagates to row vectors

The result of Softmax is always a column vector; its gradient has that
shape too, and the gradient of the operand has the shape of the operand.
---
 mat/gradfn/softmax.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mat/gradfn/softmax.go b/mat/gradfn/softmax.go
index cc4060c..3ffea66 100644
--- a/mat/gradfn/softmax.go
+++ b/mat/gradfn/softmax.go
@@ -36,7 +36,7 @@ func (r *Softmax[O]) Forward() (mat.Tensor, error) {
 
 // Backward computes the backward pass.
 func (r *Softmax[O]) Backward(gy mat.Tensor) error {
-	if !mat.SameDims(r.x.Value(), gy) {
+	if !mat.SameDims(r.y, gy) {
 		return fmt.Errorf("fn: matrices have incompatible dimensions")
 	}
 	if r.x.RequiresGrad() {
@@ -50,7 +50,7 @@ func (r *Softmax[O]) Backward(gy mat.Tensor) error {
 			vCol := y.ScalarAt(col).F64()
 			return -(vRow * vCol)
 		})))
-		gx := jb.Mul(gy.(mat.Matrix))
+		gx := jb.Mul(gy.(mat.Matrix)).ReshapeInPlace(r.x.Value().Shape()...)
 		r.x.AccGrad(gx)
 	}
 	return nil
-- 
2.43.0


From 313d1a43816229189d5c8ed1929c116992d55ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:08 +0000
Subject: [PATCH 04/25] fix: mat: matrices do not share their shape

ZerosLike, Clone, SubScalar and others handed the shape slice of the
receiver to the new matrix, so that reshaping or transposing the result in
place (as Softmax does for row vectors) changed the dimensions of the
receiver too.
---
 mat/dense.go     | 2 +-
 mat/dense_new.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mat/dense.go b/mat/dense.go
index a6f9e72..b3575f4 100644
--- a/mat/dense.go
+++ b/mat/dense.go
@@ -33,7 +33,7 @@ func makeDense[T float.DType](array []T, shape ...int) *Dense[T] {
 		log.Fatalf("mat: incompatible size, expected %d, actual %d", calculateSize(shape), len(array))
 	}
 	return &Dense[T]{
-		shape: shape,
+		shape: append([]int(nil), shape...), // a private copy: the shape can be changed in place
 		data:  array,
 	}
 }
diff --git a/mat/dense_new.go b/mat/dense_new.go
index 7ce9bf2..c34fe59 100644
--- a/mat/dense_new.go
+++ b/mat/dense_new.go
@@ -128,7 +128,7 @@ func adjustShape(shape ...int) []int {
 	if len(shape) == 1 {
 		return []int{shape[0], 1}
 	}
-	return shape
+	return append([]int(nil), shape...) // a private copy: the shape can be changed in place
 }
 
 func newScalar[T float.DType](value T, opts ...OptionsFunc) (*Dense[T], error) {
-- 
2.43.0


From c7800416f3e8893f8db02ad10480b4d1f95615a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:27 +0000
Subject: [PATCH 05/25] fix: gradfn: MaxPooling of negative values and of
 non-square regions

The search for the maximum started from the smallest positive number, so
regions without positive elements gave a wrong value and sent the gradient
to the first element of the matrix; and the right border of a region was
computed from its height.
---
 mat/gradfn/maxpooling.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mat/gradfn/maxpooling.go b/mat/gradfn/maxpooling.go
index 978edc2..9d36e97 100644
--- a/mat/gradfn/maxpooling.go
+++ b/mat/gradfn/maxpooling.go
@@ -52,11 +52,11 @@ func (r *MaxPooling[O]) Forward() (mat.Tensor, error) {
 
 	for row := 0; row < r.y.Shape()[0]; row++ {
 		for col := 0; col < r.y.Shape()[1]; col++ {
-			maximum := math.SmallestNonzeroFloat64
+			maximum := math.Inf(-1)
 
 			maxRows := (row * r.rows) + r.rows
 			for i := row * r.rows; i < maxRows; i++ {
-				maxCols := (col * r.cols) + r.rows
+				maxCols := (col * r.cols) + r.cols
 				for j := col * r.cols; j < maxCols; j++ {
 					// FIXME: avoid casting to specific type
 					val := xv.ScalarAt(i, j).F64()
-- 
2.43.0


From 840f072e4a21e523bbdef7072a09a2bc9e3c37a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:27 +0000
Subject: [PATCH 06/25] fix: gradfn: ScalarMax of negative numbers

The search for the maximum started from zero, so the first operand was
returned if no operand was positive.
---
 mat/gradfn/scalarmax.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mat/gradfn/scalarmax.go b/mat/gradfn/scalarmax.go
index 3de6fd9..b51a161 100644
--- a/mat/gradfn/scalarmax.go
+++ b/mat/gradfn/scalarmax.go
@@ -6,6 +6,7 @@ package gradfn
 
 import (
 	"fmt"
+	"math"
 
 	"github.com/nlpodyssey/spago/mat"
 )
@@ -32,7 +33,7 @@ func (r *ScalarMax[O]) Forward() (mat.Tensor, error) {
 	if len(r.xs) == 0 {
 		panic("fn: ScalarMax has no operands")
 	}
-	var max float64
+	max := math.Inf(-1)
 	var argmax int
 	for i, x := range r.xs {
 		// FIXME: avoid casting to specific type
-- 
2.43.0


From 8e3d89cfc2db9806c01134923f0b64e7bc1932f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:27 +0000
Subject: [PATCH 07/25] fix: gradfn: SparseMax of vectors whose maximum is less
 than one

The result, a probability distribution, was clipped to the maximum of the
input, which cut off correct values, or panicked if it was negative.
---
 mat/gradfn/sparsemax.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mat/gradfn/sparsemax.go b/mat/gradfn/sparsemax.go
index 8c8a85e..1b6f451 100644
--- a/mat/gradfn/sparsemax.go
+++ b/mat/gradfn/sparsemax.go
@@ -39,7 +39,7 @@ func (r *SparseMax[O]) Forward() (mat.Tensor, error) {
 
 	_, _, _, tau := sparseMaxCommon(v)
 
-	v.SubScalarInPlace(tau).ClipInPlace(0, xMax)
+	v.SubScalarInPlace(tau).ClipInPlace(0, 1)
 
 	r.y = v
 	return v, nil
-- 
2.43.0


From bcefd75ef785943a07f88bfa51d739189a36a0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:27 +0000
Subject: [PATCH 08/25] fix: gradfn: ReduceSum and ReduceMean propagate
 gradients of the shape of the operand

They were always column vectors, so that accumulating them with others
failed for all other operands.
---
 mat/gradfn/reducemean.go | 2 +-
 mat/gradfn/reducesum.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mat/gradfn/reducemean.go b/mat/gradfn/reducemean.go
index 142a6fc..dd8c570 100644
--- a/mat/gradfn/reducemean.go
+++ b/mat/gradfn/reducemean.go
@@ -42,7 +42,7 @@ func (r *ReduceMean[O]) Backward(gy mat.Tensor) error {
 		x := r.x.Value().(mat.Matrix)
 		size := x.Size()
 		v := gy.Item().F64() / float64(size)
-		gx := x.NewMatrix(mat.WithShape(size), mat.WithBacking(mat.CreateInitializedSlice(size, v)))
+		gx := x.NewMatrix(mat.WithShape(x.Shape()...), mat.WithBacking(mat.CreateInitializedSlice(size, v)))
 		r.x.AccGrad(gx)
 	}
 	return nil
diff --git a/mat/gradfn/reducesum.go b/mat/gradfn/reducesum.go
index 7c186a4..51b8927 100644
--- a/mat/gradfn/reducesum.go
+++ b/mat/gradfn/reducesum.go
@@ -39,7 +39,7 @@ func (r *ReduceSum[O]) Backward(gy mat.Tensor) error {
 	}
 	if r.x.RequiresGrad() {
 		x := r.x.Value()
-		gx := x.(mat.Matrix).NewMatrix(mat.WithShape(x.Size()), mat.WithBacking(mat.CreateInitializedSlice(x.Size(), gy.Item().F64())))
+		gx := x.(mat.Matrix).NewMatrix(mat.WithShape(x.Shape()...), mat.WithBacking(mat.CreateInitializedSlice(x.Size(), gy.Item().F64())))
 		r.x.AccGrad(gx)
 	}
 	return nil
-- 
2.43.0


From bf7a9dcf6afb150399159737bf0de8d7040c0fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:27 +0000
Subject: [PATCH 09/25] fix: gradfn: Max and Min propagate gradients of the
 shape of the operands

They were always column vectors, so that accumulating them with others
failed for all other operands.
---
 mat/gradfn/max.go | 4 ++--
 mat/gradfn/min.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mat/gradfn/max.go b/mat/gradfn/max.go
index 679b574..df37cd8 100644
--- a/mat/gradfn/max.go
+++ b/mat/gradfn/max.go
@@ -56,7 +56,7 @@ func (r *Max[O]) Backward(gy mat.Tensor) error {
 				gxData[i] = gyData[i]
 			}
 		}
-		gx := x1v.NewMatrix(mat.WithBacking(gxData))
+		gx := x1v.NewMatrix(mat.WithShape(x1v.Shape()...), mat.WithBacking(gxData))
 		r.x1.AccGrad(gx)
 	}
 	if r.x2.RequiresGrad() {
@@ -66,7 +66,7 @@ func (r *Max[O]) Backward(gy mat.Tensor) error {
 				gxData[i] = gyData[i]
 			}
 		}
-		gx := x1v.NewMatrix(mat.WithBacking(gxData))
+		gx := x1v.NewMatrix(mat.WithShape(x1v.Shape()...), mat.WithBacking(gxData))
 		r.x2.AccGrad(gx)
 	}
 
diff --git a/mat/gradfn/min.go b/mat/gradfn/min.go
index aee4a76..b8c2f73 100644
--- a/mat/gradfn/min.go
+++ b/mat/gradfn/min.go
@@ -56,7 +56,7 @@ func (r *Min[O]) Backward(gy mat.Tensor) error {
 				gxData[i] = gyData[i]
 			}
 		}
-		gx := x1v.NewMatrix(mat.WithBacking(gxData))
+		gx := x1v.NewMatrix(mat.WithShape(x1v.Shape()...), mat.WithBacking(gxData))
 		r.x1.AccGrad(gx)
 	}
 	if r.x2.RequiresGrad() {
@@ -66,7 +66,7 @@ func (r *Min[O]) Backward(gy mat.Tensor) error {
 				gxData[i] = gyData[i]
 			}
 		}
-		gx := x1v.NewMatrix(mat.WithBacking(gxData))
+		gx := x1v.NewMatrix(mat.WithShape(x1v.Shape()...), mat.WithBacking(gxData))
 		r.x2.AccGrad(gx)
 	}
 	return nil
-- 
2.43.0


From 4203998e7ce6d9d21bee5045b60a60b5e1c3ea96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:13 +0000
Subject: [PATCH 10/25] fix: gradfn: Concat propagates gradients of the shape
 of the operands

It gave column vectors to operands that are row vectors.
---
 mat/gradfn/concat.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mat/gradfn/concat.go b/mat/gradfn/concat.go
index 2c51eb6..79d7f8f 100644
--- a/mat/gradfn/concat.go
+++ b/mat/gradfn/concat.go
@@ -56,7 +56,7 @@ func (r *Concat[O]) Backward(gy mat.Tensor) error {
 	xs := r.xs
 	for i, gx := range gy.(mat.Matrix).SplitV(sizes...) {
 		if xs[i].RequiresGrad() {
-			xs[i].AccGrad(gx)
+			xs[i].AccGrad(gx.ReshapeInPlace(xs[i].Value().Shape()...))
 		}
 	}
 	return nil
-- 
2.43.0


From c509462f164cc95b662041b07c389c7ea390bbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:13 +0000
Subject: [PATCH 11/25] fix: gradfn: Copy does not propagate to operands that
 require no gradients

---
 mat/gradfn/identity.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mat/gradfn/identity.go b/mat/gradfn/identity.go
index 838c5f8..65755b9 100644
--- a/mat/gradfn/identity.go
+++ b/mat/gradfn/identity.go
@@ -38,6 +38,8 @@ func (r *Copy[O]) Backward(gy mat.Tensor) error {
 	if !mat.SameDims(r.x.Value(), gy) {
 		return fmt.Errorf("fn: matrices have incompatible dimensions")
 	}
-	r.x.AccGrad(gy)
+	if r.x.RequiresGrad() {
+		r.x.AccGrad(gy)
+	}
 	return nil
 }
-- 
2.43.0


From c268e63984f447c4f9b1772d84b91da2ede661a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:30 +0000
Subject: [PATCH 12/25] fix: ag: Backward does not wait for gradients that are
 never propagated

An operator waited for one contribution per dependent, but some functions
(ScalarMax, or activations with respect to their parameters) propagate to
only some of their operands, so the pass never ended. The dependents now
report that they are done, whether they contributed or not.
---
 ag/operator.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/ag/operator.go b/ag/operator.go
index 49e2ce4..b09a2cb 100644
--- a/ag/operator.go
+++ b/ag/operator.go
@@ -226,9 +226,12 @@ func (o *Operator) ZeroGrad() {
 // AccGrad accumulates the gradients to the node itself.
 func (o *Operator) AccGrad(grad mat.Tensor) {
 	o.Value().AccGrad(grad)
+}
 
-	// Don't decrement the counter if the backward pass is not running.
-	if !o.isBackwardIdle() && atomic.AddInt64(&o.pendingGrads, -1) == 0 {
+// resolvePendingGrad reports that one of the dependents of the node, which
+// might or might not have contributed to its gradients, is done.
+func (o *Operator) resolvePendingGrad() {
+	if o.RequiresGrad() && atomic.AddInt64(&o.pendingGrads, -1) == 0 {
 		close(o.broadcastGrad) // notify all goroutines that have been waiting for the gradients
 	}
 }
@@ -237,12 +240,13 @@ func (o *Operator) assignOutputGradient() error {
 	grad := o.Value().Grad()
 
 	if !isNil(grad) {
-		o.pendingGrads--
+		o.resolvePendingGrad()
 		return nil
 	}
 
 	if o.Value().Size() == 1 {
 		o.AccGrad(o.Value().(mat.Matrix).NewScalar(1.))
+		o.resolvePendingGrad()
 		return nil
 	}
 
@@ -289,12 +293,18 @@ func (o *Operator) executeBackward(wg *sync.WaitGroup) {
 	defer o.setBackwardIdle()
 
 	grad := o.Grad() // wait until the accumulated gradients are ready
-	if grad == nil {
-		return // no gradients to propagate
+
+	if !isNil(grad) { // otherwise, no gradients to propagate
+		if err := o.fn.Backward(grad); err != nil {
+			log.Fatalf("ag: error during backward pass: %v", err) // TODO: handle error
+		}
 	}
 
-	if err := o.fn.Backward(grad); err != nil {
-		log.Fatalf("ag: error during backward pass: %v", err) // TODO: handle error
+	// The function is not required to propagate to all of its operands.
+	for _, operand := range o.Operands() {
+		if oo, ok := operand.(*Operator); ok {
+			oo.resolvePendingGrad()
+		}
 	}
 }
 
-- 
2.43.0


From 4fc3b68dcdd8ea230a6ea73771be7a3442c2b22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:42 +0000
Subject: [PATCH 13/25] fix: ag: a refused Backward leaves the graph untouched

When the gradient of an output was missing, the operators had already been
marked as pending, and a later Backward waited for gradients forever.
---
 ag/backward.go | 11 ++++++++---
 ag/operator.go | 21 ++++++++++-----------
 2 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/ag/backward.go b/ag/backward.go
index 484a0f3..6699e75 100644
--- a/ag/backward.go
+++ b/ag/backward.go
@@ -26,6 +26,13 @@ func Backward(xs ...mat.Tensor) error {
 		return nil
 	}
 
+	// Nothing must have been touched when an error is returned.
+	for _, op := range ops {
+		if err := op.validateOutputGradient(); err != nil {
+			return err
+		}
+	}
+
 	// The three for loops below are intentionally executed in sequence.
 	// These steps must occur in this order, so the loops cannot be combined due to their sequential dependencies.
 
@@ -36,9 +43,7 @@ func Backward(xs ...mat.Tensor) error {
 
 	// 2. Assign the output gradients for each operator.
 	for _, op := range ops {
-		if err := op.assignOutputGradient(); err != nil {
-			return err
-		}
+		op.assignOutputGradient()
 	}
 
 	// 3. Process the backward pass for each operator in parallel using wait groups.
diff --git a/ag/operator.go b/ag/operator.go
index b09a2cb..349492e 100644
--- a/ag/operator.go
+++ b/ag/operator.go
@@ -236,21 +236,20 @@ func (o *Operator) resolvePendingGrad() {
 	}
 }
 
-func (o *Operator) assignOutputGradient() error {
-	grad := o.Value().Grad()
-
-	if !isNil(grad) {
-		o.resolvePendingGrad()
-		return nil
+// validateOutputGradient returns an error if the output has no gradient and
+// none can be assigned to it.
+func (o *Operator) validateOutputGradient() error {
+	if isNil(o.Value().Grad()) && o.Value().Size() != 1 {
+		return fmt.Errorf("ag: missing gradient for %v", o)
 	}
+	return nil
+}
 
-	if o.Value().Size() == 1 {
+func (o *Operator) assignOutputGradient() {
+	if isNil(o.Value().Grad()) {
 		o.AccGrad(o.Value().(mat.Matrix).NewScalar(1.))
-		o.resolvePendingGrad()
-		return nil
 	}
-
-	return fmt.Errorf("ag: missing gradient for %v", o)
+	o.resolvePendingGrad()
 }
 
 func (o *Operator) prepareBackwardPass() {
-- 
2.43.0


From 6225c0128876e7ea8e9ab0afd0a9418dda8f5e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:31 +0000
Subject: [PATCH 14/25] fix: gradfn: SwishB propagates to beta for any shape of
 x

Computing the gradient of beta panicked if x was not a vector.
---
 mat/gradfn/swishb.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mat/gradfn/swishb.go b/mat/gradfn/swishb.go
index 4f74250..aea678b 100644
--- a/mat/gradfn/swishb.go
+++ b/mat/gradfn/swishb.go
@@ -51,10 +51,10 @@ func (r *SwishB[O]) Backward(gy mat.Tensor) error {
 	if r.beta.RequiresGrad() {
 		gb := r.beta.Value().(mat.Matrix).ZerosLike()
 		// FIXME: avoid casting to specific type
+		gyData := gy.Data().F64()
 		for i, x := range r.x.Value().Data().F64() {
 			deriv := swishBBetaDeriv(x, r.beta.Value().Item().F64())
-			gyi := gy.(mat.Matrix).ScalarAt(i).F64()
-			gb.AddScalarInPlace(deriv * gyi)
+			gb.AddScalarInPlace(deriv * gyData[i])
 		}
 		r.beta.AccGrad(gb)
 	}
-- 
2.43.0


From cb6f651788bc2ee5ff930e3899a9af0b934bf39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:35 +0000
Subject: [PATCH 15/25] fix: gradclipper: clip each gradient once and skip
 parameters without gradients

---
 optimizers/gradclipper/clipper.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/optimizers/gradclipper/clipper.go b/optimizers/gradclipper/clipper.go
index 95ee09a..2b07d2e 100644
--- a/optimizers/gradclipper/clipper.go
+++ b/optimizers/gradclipper/clipper.go
@@ -76,12 +76,18 @@ func (c *NormClipper) ClipGradients(parameters nn.ParamChannelFunc) {
 }
 
 // collectGradients collects all the gradients from the parameters channel and returns them as a slice.
+// Each distinct parameter is considered once; parameters without gradients are skipped.
 func collectGradients(parameters nn.ParamChannelFunc) []mat.Tensor {
 	ctx, cancel := context.WithCancel(context.Background())
 	defer cancel()
 
 	var allGrads []mat.Tensor
+	seen := make(map[*nn.Param]struct{})
 	for param := range parameters(ctx) {
+		if _, ok := seen[param]; ok || !param.HasGrad() {
+			continue
+		}
+		seen[param] = struct{}{}
 		allGrads = append(allGrads, param.Grad())
 	}
 	return allGrads
-- 
2.43.0


From 4a4bc8a6cf1a0bac18e9dcb10f6f220338726761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:08 +0000
Subject: [PATCH 16/25] fix: rand: LockedRand is usable after a call with
 invalid arguments

---
 mat/rand/lockedrand.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mat/rand/lockedrand.go b/mat/rand/lockedrand.go
index c51c5f8..7c28f44 100644
--- a/mat/rand/lockedrand.go
+++ b/mat/rand/lockedrand.go
@@ -71,8 +71,8 @@ func (lr *LockedRand) Uint64() (n uint64) {
 // for any n that is not a power of 2.
 func (lr *LockedRand) Uint64n(n uint64) uint64 {
 	lr.lk.Lock()
+	defer lr.lk.Unlock()
 	n = lr.r.Uint64n(n)
-	lr.lk.Unlock()
 	return n
 }
 
@@ -96,8 +96,8 @@ func (lr *LockedRand) Int() (n int) {
 // It panics if n <= 0.
 func (lr *LockedRand) Int63n(n int64) (r int64) {
 	lr.lk.Lock()
+	defer lr.lk.Unlock()
 	r = lr.r.Int63n(n)
-	lr.lk.Unlock()
 	return
 }
 
@@ -105,8 +105,8 @@ func (lr *LockedRand) Int63n(n int64) (r int64) {
 // It panics if n <= 0.
 func (lr *LockedRand) Int31n(n int32) (r int32) {
 	lr.lk.Lock()
+	defer lr.lk.Unlock()
 	r = lr.r.Int31n(n)
-	lr.lk.Unlock()
 	return
 }
 
@@ -114,8 +114,8 @@ func (lr *LockedRand) Int31n(n int32) (r int32) {
 // It panics if n <= 0.
 func (lr *LockedRand) Intn(n int) (r int) {
 	lr.lk.Lock()
+	defer lr.lk.Unlock()
 	r = lr.r.Intn(n)
-	lr.lk.Unlock()
 	return
 }
 
@@ -149,8 +149,8 @@ func (lr *LockedRand) Float64() (n float64) {
 // Perm returns, as a slice of n ints, a pseudo-random permutation of the integers [0,n).
 func (lr *LockedRand) Perm(n int) (r []int) {
 	lr.lk.Lock()
+	defer lr.lk.Unlock()
 	r = lr.r.Perm(n)
-	lr.lk.Unlock()
 	return
 }
 
@@ -169,6 +169,6 @@ func (lr *LockedRand) Read(p []byte) (n int, err error) {
 // swap swaps the elements with indexes i and j.
 func (lr *LockedRand) Shuffle(i int, swap func(i int, j int)) {
 	lr.lk.Lock()
+	defer lr.lk.Unlock()
 	lr.r.Shuffle(i, swap)
-	lr.lk.Unlock()
 }
-- 
2.43.0


From 4284cf79519927a80181399cc590fb9ceb9001ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:16 +0000
Subject: [PATCH 17/25] fix: embedding: a decoded model accumulates gradients

---
 nn/embedding/embedding.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nn/embedding/embedding.go b/nn/embedding/embedding.go
index 9652c70..9751df1 100644
--- a/nn/embedding/embedding.go
+++ b/nn/embedding/embedding.go
@@ -19,6 +19,9 @@ type Embedding struct {
 func (e *Embedding) AccGrad(gx mat.Tensor) {
 	e.m.mu.Lock()
 	defer e.m.mu.Unlock()
+	if e.m.embedGradIdx == nil { // the model might have just been decoded
+		e.m.embedGradIdx = make(map[int]struct{})
+	}
 	e.m.embedGradIdx[e.idx] = struct{}{}
 	e.Param.AccGrad(gx)
 }
-- 
2.43.0


From 20d00511a15f3af76eca99e2fdcd3b98935e004c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:22 +0000
Subject: [PATCH 18/25] fix: embedding: traverse and count only the embeddings
 that have gradients

---
 nn/embedding/model.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/nn/embedding/model.go b/nn/embedding/model.go
index 4370535..d091d71 100644
--- a/nn/embedding/model.go
+++ b/nn/embedding/model.go
@@ -49,11 +49,28 @@ func New[T float.DType](size int, dim int) *Model {
 
 // TraverseParams allows embeddings with gradients to be traversed for optimization.
 func (m *Model) TraverseParams(callback func(param *nn.Param)) {
-	for idx := range m.embedGradIdx {
+	for _, idx := range m.indicesWithGrad() {
 		callback(m.Weights[idx])
 	}
 }
 
+// indicesWithGrad returns the indices of the embeddings which have gradients.
+// It also drops the indices of those whose gradients have been zeroed directly
+// on the parameter, for example by an optimization step.
+func (m *Model) indicesWithGrad() []int {
+	m.mu.Lock()
+	defer m.mu.Unlock()
+	indices := make([]int, 0, len(m.embedGradIdx))
+	for idx := range m.embedGradIdx {
+		if !m.Weights[idx].HasGrad() {
+			delete(m.embedGradIdx, idx)
+			continue
+		}
+		indices = append(indices, idx)
+	}
+	return indices
+}
+
 func (m *Model) Embedding(idx int) (*Embedding, error) {
 	if idx < 0 || idx >= m.Size {
 		return nil, nn.ErrInvalidIndex
@@ -102,9 +119,7 @@ func (m *Model) checkInput(input []int) error {
 }
 
 func (m *Model) CountEmbedWithGrad() int {
-	m.mu.Lock()
-	defer m.mu.Unlock()
-	return len(m.embedGradIdx)
+	return len(m.indicesWithGrad())
 }
 
 func (m *Model) ZeroGrad() {
-- 
2.43.0


From 78b95b1ba736879714dc378a8f144f67592aca97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:34 +0000
Subject: [PATCH 19/25] fix: nn: DumpToFile reports the errors of closing the
 file

---
 nn/gob.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nn/gob.go b/nn/gob.go
index de66e13..3fe0059 100644
--- a/nn/gob.go
+++ b/nn/gob.go
@@ -27,7 +27,7 @@ func Dump(obj any, w io.Writer) error {
 
 // DumpToFile saves a serialized object to a file.
 // See Dump for further details.
-func DumpToFile[T any](obj T, filename string) error {
+func DumpToFile[T any](obj T, filename string) (err error) {
 	f, err := os.Create(filename)
 	if err != nil {
 		return err
-- 
2.43.0


From dc1121ddf27f7bd77356108f74b5a60ab37b1584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:30 +0000
Subject: [PATCH 20/25] fix: mat: decoded matrices do not share memory with the
 source

---
 mat/dense_marshaling.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mat/dense_marshaling.go b/mat/dense_marshaling.go
index 84e8dd6..4c9cb6e 100644
--- a/mat/dense_marshaling.go
+++ b/mat/dense_marshaling.go
@@ -128,9 +128,14 @@ func (d *Dense[T]) unmarshalBinaryFloat64(data []byte) error {
 	return nil
 }
 
+// bytesToSlice copies length values from the data starting at b: the buffer
+// belongs to the caller of UnmarshalBinary, and might not be aligned.
 func bytesToSlice[T any](b []byte, length int) []T {
 	if len(b) == 0 {
 		return []T{}
 	}
-	return unsafe.Slice((*T)(unsafe.Pointer(&b[0])), length)
+	s := make([]T, length)
+	size := length * int(unsafe.Sizeof(s[0]))
+	copy(unsafe.Slice((*byte)(unsafe.Pointer(&s[0])), size), unsafe.Slice(&b[0], size))
+	return s
 }
-- 
2.43.0


From 37b820e5874017fb1f899b5c2f95a7edc6d11c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:46 +0000
Subject: [PATCH 21/25] fix: multiheadattention: the backward pass does not
 depend on itself

The slice of the concatenated heads shared its backing array with the
operands retained by the Concat operators, which became operands of
themselves.
---
 nn/attention/multiheadattention/model.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nn/attention/multiheadattention/model.go b/nn/attention/multiheadattention/model.go
index 546a885..691e2bf 100644
--- a/nn/attention/multiheadattention/model.go
+++ b/nn/attention/multiheadattention/model.go
@@ -96,7 +96,7 @@ func (m *Model) Forward(cache Cache, q, x []mat.Tensor) ([]mat.Tensor, [][]mat.T
 func (m *Model) project(heads [][]mat.Tensor, seqLen int) []mat.Tensor {
 	n := len(heads)
 	buf := make([]mat.Tensor, seqLen*n)
-	concat := buf[:0] // shares the same backing array with buf
+	concat := make([]mat.Tensor, 0, seqLen) // the operators retain the slices of buf
 
 	for i := 0; i < seqLen; i++ {
 		buf2 := buf[i*n : i*n+n]
-- 
2.43.0


From a88350d9e739d75d1fe85f1360daca648bda0ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:55 +0000
Subject: [PATCH 22/25] fix: ag: AppendRows gives column vectors gradients of
 their own shape

The gradient of an appended column vector was a row vector, and the
backward pass of the operator that produced it failed, ending the process:
self-attention with a cache could not be trained.
---
 ag/operators.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ag/operators.go b/ag/operators.go
index 25e4443..78f322e 100644
--- a/ag/operators.go
+++ b/ag/operators.go
@@ -39,7 +39,14 @@ func Affine(b, w1, x1 mat.Tensor, wxPairs ...mat.Tensor) mat.Tensor {
 
 // AppendRows returns a new operator node as a result of the gradfn.AppendRows function.
 func AppendRows(x mat.Tensor, vs ...mat.Tensor) mat.Tensor {
-	return NewOperator(gradfn.NewAppendRows(x, vs...)).Run()
+	rows := make([]mat.Tensor, len(vs))
+	for i, v := range vs {
+		if v.Value().Shape()[0] > 1 {
+			v = T(v) // so that the gradients of a column vector are a column vector too
+		}
+		rows[i] = v
+	}
+	return NewOperator(gradfn.NewAppendRows(x, rows...)).Run()
 }
 
 // At returns a new operator node as a result of the gradfn.At function.
-- 
2.43.0


From 873f8c09c93759a68863cbae3d2a552f6ea3bb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:09 +0000
Subject: [PATCH 23/25] fix: rand: GetUniqueRandomInt and
 GetUniqueRandomIndices can select zero

---
 mat/rand/misc.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mat/rand/misc.go b/mat/rand/misc.go
index b6bf3ce..e94b47c 100644
--- a/mat/rand/misc.go
+++ b/mat/rand/misc.go
@@ -51,7 +51,7 @@ func GetUniqueRandomInt(n, max int, valid func(r int) bool) []int {
 	a := make([]int, n)
 	for i := 0; i < n; i++ {
 		r := rand.Intn(max) // Warning: use global rand
-		for !valid(r) || contains(a, r) {
+		for !valid(r) || contains(a[:i], r) {
 			r = rand.Intn(max) // Warning: use global rand
 		}
 		a[i] = r
@@ -67,7 +67,7 @@ func GetUniqueRandomIndices(n int, indices []int, valid func(r int) bool) []int
 		// The generic type is irrelevant, since the given generator is nil.
 		// TODO: ugly API of ShuffleInPlace to be refactored
 		r := ShuffleInPlace(indices, nil)[0] // Warning: use global rand
-		for !valid(r) || contains(a, r) {
+		for !valid(r) || contains(a[:i], r) {
 			r = ShuffleInPlace(indices, nil)[0] // Warning: use global rand
 		}
 		a[i] = r
-- 
2.43.0


From 8356e2c3340436d32421233141e22a702cb73f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:36 +0000
Subject: [PATCH 24/25] fix: rand: WeightedChoice never selects what has no
 probability

---
 mat/rand/misc.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mat/rand/misc.go b/mat/rand/misc.go
index e94b47c..5425a1b 100644
--- a/mat/rand/misc.go
+++ b/mat/rand/misc.go
@@ -36,13 +36,17 @@ func WeightedChoice[T float.DType](dist []T) int {
 		panic(fmt.Sprintf("rand: unexpected type %T", T(0)))
 	}
 	var cumulativeProb T
+	last := 0
 	for i, prob := range dist {
 		cumulativeProb += prob
 		if rnd < cumulativeProb {
 			return i
 		}
+		if prob > 0 {
+			last = i
+		}
 	}
-	return 0
+	return last // because of rounding, the probabilities might sum up to less than one
 }
 
 // GetUniqueRandomInt generates n mutually exclusive integers up to max, using the default random source.
-- 
2.43.0


From bf25b753847ae2b1d8ff6f9701e3fd5437bc8176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:21 +0000
Subject: [PATCH 25/25] fix: the causal mask ignored the positions of cached
 keys

With a cache, the queries are at the end of the sequence of the keys: a
chunk of several queries attended only to the first cached keys, while a
single query attended to all of them.
---
 nn/attention/attention.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/nn/attention/attention.go b/nn/attention/attention.go
index 511f5a0..3d815de 100644
--- a/nn/attention/attention.go
+++ b/nn/attention/attention.go
@@ -23,6 +23,13 @@ func ScaledDotProductAttention(q []mat.Tensor, k, v, scaleFactor mat.Tensor, use
 	causalMaskEnabled := useCausalMask && len(q) > 1
 	kRows := k.Value().Shape()[0]
 
+	// The queries are at the end of the sequence of the keys, which is longer when
+	// the first keys come from a cache.
+	offset := 0
+	if kRows > len(q) {
+		offset = kRows - len(q)
+	}
+
 	kqi := make([]mat.Tensor, len(q))
 	for i, qi := range q {
 		kqi[i] = ag.Mul(k, qi)
@@ -32,7 +39,7 @@ func ScaledDotProductAttention(q []mat.Tensor, k, v, scaleFactor mat.Tensor, use
 		scores := ag.ProdScalar(kqii, scaleFactor)
 
 		if causalMaskEnabled {
-			causalMask := k.Value().(mat.Matrix).NewMatrix(mat.WithBacking(makeCausalMask(i, kRows))) // TODO: use external cache for causal mask?
+			causalMask := k.Value().(mat.Matrix).NewMatrix(mat.WithBacking(makeCausalMask(offset+i, kRows))) // TODO: use external cache for causal mask?
 			scores = ag.Add(scores, causalMask)
 		}
 
-- 
2.43.0

