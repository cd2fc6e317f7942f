From bc5deb44dc832ba67f8ac1b593f034e3bb843a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:19 +0000
Subject: [PATCH 01/51] fix: keep the allowed columns of a tree in all of its
 nodes

TreeOptions.clone dropped AllowedColumns (and Debug), so the column
sub-sample of a tree was only honoured by its root node.
---
 tree.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tree.go b/tree.go
index a3300b7..fe28cf1 100644
--- a/tree.go
+++ b/tree.go
@@ -72,7 +72,9 @@ func DefaultXTreeOptions() *TreeOptions {
 
 func (T *TreeOptions) clone() *TreeOptions {
 	ret := &TreeOptions{}
+	ret.Debug = T.Debug
 	ret.XGB = T.XGB
+	ret.AllowedColumns = T.AllowedColumns
 	ret.Gradients = T.Gradients
 	ret.Hessian = T.Hessian
 	ret.Y = T.Y
-- 
2.43.0


From 6a3f46e9829e9ef7ad8acd020bb749bbf69f0c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:19 +0000
Subject: [PATCH 02/51] fix: NewTree does not modify the options it is given

The row indexes and scratch buffers of the first tree were stored in the
caller's TreeOptions, so a second tree built with the same options on
other data was silently restricted to the rows of the first (or panicked).
---
 tree.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tree.go b/tree.go
index fe28cf1..f0642a3 100644
--- a/tree.go
+++ b/tree.go
@@ -92,6 +92,8 @@ func (T *TreeOptions) clone() *TreeOptions {
 // Returns a new tree for the data X and options o
 func NewTree(X [][]float64, o *TreeOptions) *Tree {
 	ret := &Tree{}
+	oc := *o //we work on a copy, so the caller's options are not modified.
+	o = &oc
 	if o.XGB {
 		if o.Gradients == nil && o.Hessian == nil {
 			panic("nil gradients/hessians in XGBoost tree")
-- 
2.43.0


From a1c3aba699a710f4582c52f4b54d85bf49208731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:20 +0000
Subject: [PATCH 03/51] fix: a split threshold always separates the two values
 it was made from

The midpoint of two neighbouring floating-point numbers can round to the
larger one (and that of two huge numbers overflows), which left one child
without samples and made NewTree panic, or ignored MinChildWeight.
---
 tree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tree.go b/tree.go
index f0642a3..05fa873 100644
--- a/tree.go
+++ b/tree.go
@@ -252,6 +252,10 @@ func (T *Tree) findBetterSplit(featureIndex int, o *TreeOptions) {
 			T.splitFeatureIndex = featureIndex
 			T.bestScoreSoFar = gain
 			T.threshold = (xi + xinext) / 2
+			//rounding or overflow could leave the midpoint outside [xi,xinext)
+			if !(T.threshold >= xi && T.threshold < xinext) {
+				T.threshold = xi
+			}
 		}
 	}
 }
-- 
2.43.0


From 2906c4e9f8c0f4dfeb2070f14ba55d7f7d01f0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:20 +0000
Subject: [PATCH 04/51] fix: Feats.Add looks the feature up under its lock

Add is documented as concurrency-safe, but the search for the feature was
done before taking the mutex: concurrent calls raced and could add the same
feature twice.
---
 tree.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/tree.go b/tree.go
index 05fa873..a52e0c1 100644
--- a/tree.go
+++ b/tree.go
@@ -359,18 +359,15 @@ func NewFeats(xgboost bool) *Feats {
 // Adds a feature,gain pair to the f set. This operation
 // is concurrency-safe.
 func (f *Feats) Add(feature int, gain float64) {
+	f.m.Lock()
+	defer f.m.Unlock()
 	index := slices.Index(f.feat, feature)
 	if index >= 0 {
-		f.m.Lock()
 		f.gains[index] += gain
-		f.m.Unlock()
 		return
 	}
-	f.m.Lock()
 	f.feat = append(f.feat, feature)
 	f.gains = append(f.gains, gain)
-	f.m.Unlock()
-	return
 }
 
 // Merges the given feature set into the receiver.
-- 
2.43.0


From 805de47a3c942455f6976fb19372cdaab62fc396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:55 +0000
Subject: [PATCH 05/51] fix: train on all the samples when there is no row
 sub-sampling

Without sub-sampling (SubSample of 1 or regular gradient boosting) the
number of sampled rows was taken to be 0, so any positive MinSample (5 by
default) discarded every round and left an empty ensemble. With MinSample 0,
an empty sub-sample made the training panic.
---
 xgb.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xgb.go b/xgb.go
index 2699b8d..73318f7 100644
--- a/xgb.go
+++ b/xgb.go
@@ -55,7 +55,11 @@ func NewMultiClass(D *utils.DataBunch, opts ...*Options) *MultiClass {
 		if O.ColSubSample < 1 && O.XGB {
 			sampleCols = SubSample(len(D.Data[0]), O.ColSubSample)
 		}
-		if len(sampleIndexes) < O.MinSample {
+		nsampled := len(D.Data) //no sub-sampling, all samples are used.
+		if sampleIndexes != nil {
+			nsampled = len(sampleIndexes)
+		}
+		if nsampled == 0 || nsampled < O.MinSample {
 			continue
 		}
 		classes := make([]*Tree, 0, 1)
-- 
2.43.0


From 700dfb2bbbd1cc0a998ccb1e4d0e3539a1c65ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:56 +0000
Subject: [PATCH 06/51] fix: NewMultiClass does not modify the options it is
 given

MinChildWeight was clamped in the caller's Options, which is also a data
race when several ensembles are trained concurrently with the same Options.
---
 xgb.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/xgb.go b/xgb.go
index 73318f7..fcf5406 100644
--- a/xgb.go
+++ b/xgb.go
@@ -33,8 +33,9 @@ func NewMultiClass(D *utils.DataBunch, opts ...*Options) *MultiClass {
 	utils.ToOnes(rawPred)
 	rawPred.Scale(O.BaseScore, rawPred)
 	//just to be safe
-	if O.MinChildWeight < 1 {
-		O.MinChildWeight = 1
+	minChildWeight := O.MinChildWeight
+	if minChildWeight < 1 {
+		minChildWeight = 1
 	}
 	tin := make([]int, len(D.Data))
 	tval := make([]float64, len(D.Data))
@@ -74,7 +75,7 @@ func NewMultiClass(D *utils.DataBunch, opts ...*Options) *MultiClass {
 			hess = O.Loss.Hessian(kthprobs, nil) //keep an eye on this.
 			if O.XGB {
 				tOpts = DefaultXTreeOptions()
-				tOpts.MinChildWeight = O.MinChildWeight
+				tOpts.MinChildWeight = minChildWeight
 				tOpts.MaxDepth = O.MaxDepth
 				grads = O.Loss.Gradients(kthlabelvector, kthprobs, grads)
 				tOpts.Lambda = O.Lambda
@@ -91,7 +92,7 @@ func NewMultiClass(D *utils.DataBunch, opts ...*Options) *MultiClass {
 				tOpts = DefaultGTreeOptions()
 				tOpts.in = tin
 				tOpts.val = tval
-				tOpts.MinChildWeight = O.MinChildWeight
+				tOpts.MinChildWeight = minChildWeight
 				tOpts.MaxDepth = O.MaxDepth
 				grads = O.Loss.NegGradients(kthlabelvector, kthprobs, grads)
 				tOpts.Y = grads.RawRowView(0)
-- 
2.43.0


From 61b968ff2946a1e69522ff79f48dbddffc28e8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:56 +0000
Subject: [PATCH 07/51] fix: trees stay with their class after another class is
 stopped early

When a class was stopped early, the trees of the following classes were
shifted to its place in the ensemble, so predictions, the JSON
representation, etc. assigned them to the wrong class.
---
 multiclass.go |  6 ++++++
 xgb.go        |  4 ++--
 xjson.go      | 14 ++++++++++++--
 3 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/multiclass.go b/multiclass.go
index 83f7350..0fbd936 100644
--- a/multiclass.go
+++ b/multiclass.go
@@ -97,6 +97,9 @@ func (M *MultiClass) PredictSingle(instance []float64, predictions ...[]float64)
 	}
 	for _, ensemble := range M.b {
 		for class, tree := range ensemble {
+			if tree == nil { //the class was stopped before this round
+				continue
+			}
 			tmp[class] += tree.PredictSingle(instance) * M.learningRate
 		}
 	}
@@ -112,6 +115,9 @@ func (M *MultiClass) FeatureImportance() (*Feats, error) {
 	ret := NewFeats(M.xgb)
 	for round, ensemble := range M.b {
 		for class, tree := range ensemble {
+			if tree == nil {
+				continue
+			}
 			_, err := tree.FeatureImportance(M.xgb, ret)
 			if err != nil {
 				return nil, fmt.Errorf("Error with features of tree for class %d, boosting round %d", class, round)
diff --git a/xgb.go b/xgb.go
index fcf5406..efa8f02 100644
--- a/xgb.go
+++ b/xgb.go
@@ -63,7 +63,7 @@ func NewMultiClass(D *utils.DataBunch, opts ...*Options) *MultiClass {
 		if nsampled == 0 || nsampled < O.MinSample {
 			continue
 		}
-		classes := make([]*Tree, 0, 1)
+		classes := make([]*Tree, nlabels) //classes already stopped keep a nil here, so each tree stays with its class.
 		for k := 0; k < nlabels; k++ {
 			if stopped[k] {
 				continue
@@ -111,7 +111,7 @@ func NewMultiClass(D *utils.DataBunch, opts ...*Options) *MultiClass {
 				kthprobs := utils.DenseCol(probs, k)
 				currloss = O.Loss.Loss(kthlabelvector, kthprobs, tmploss)
 			}
-			classes = append(classes, tree)
+			classes[k] = tree
 			if O.Verbose {
 				fmt.Printf("round: %d, class: %d train loss = %.3f\n", round, k, currloss)
 			}
diff --git a/xjson.go b/xjson.go
index 7ff1d2d..e57da6d 100644
--- a/xjson.go
+++ b/xjson.go
@@ -70,18 +70,25 @@ func UnJSONMultiClass(r *bufio.Reader) (*MultiClass, error) {
 			}
 			nround++
 			nclass = 0
-			class = make([]*Tree, 0, 1)
+			class = make([]*Tree, len(ret.classLabels))
 			continue
 		}
 
 		if strings.Contains(s, "CLASS") {
+			_, err = fmt.Sscanf(s, "CLASS %d", &nclass)
+			if err != nil {
+				return nil, fmt.Errorf("Error reading class for tree %d, round %d: %v", cont, nround, err)
+			}
 			continue
 		}
 		jtree, err := utils.UnJSONTree(s, r, creator)
 		if err != nil {
 			return nil, fmt.Errorf("Error reading tree %d round %d, class %d: %v", cont, nround, nclass, err)
 		}
-		class = append(class, jtree.(*Tree))
+		if nclass < 0 || nclass >= len(class) {
+			return nil, fmt.Errorf("Tree %d, round %d belongs to class %d, but there are only %d", cont, nround, nclass, len(class))
+		}
+		class[nclass] = jtree.(*Tree)
 		nclass++
 		cont++
 	}
@@ -111,6 +118,9 @@ func JSONMultiClass(m *MultiClass, activationfunctionname string, w writestringe
 			return err
 		}
 		for cn, class := range round {
+			if class == nil { //the class was stopped before this round
+				continue
+			}
 			_, err = w.WriteString(fmt.Sprintf("CLASS %d, label: %d \n", cn, m.classLabels[cn]))
 			if err != nil {
 				return err
-- 
2.43.0


From 909404ae19b5110ba20655c2ed374440891a020f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:57 +0000
Subject: [PATCH 08/51] fix: MultiClass.Rounds and Classes return rounds and
 classes

The ensemble is indexed first by round and then by class, so Classes
returned the number of rounds, and Rounds the number of classes.
---
 multiclass.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/multiclass.go b/multiclass.go
index 0fbd936..98bf771 100644
--- a/multiclass.go
+++ b/multiclass.go
@@ -56,19 +56,22 @@ func (M *MultiClass) Rounds(class ...int) int {
 	if len(class) > 0 && class[0] >= 0 {
 		c = class[0]
 	}
-	//	println(len(M.b), c) /////////////////////////
-	if M.Classes() < c || len(M.b) <= c {
-		//println(len(M.b), c, M.Classes(), "v2") /////////////////////////
-
+	if c >= M.Classes() {
 		return -1
 	}
-	return len(M.b[c])
+	rounds := 0
+	for _, ensemble := range M.b {
+		if c < len(ensemble) && ensemble[c] != nil {
+			rounds++
+		}
+	}
+	return rounds
 }
 
 // Returns the number of classes, i.e. the number of categories to which
 // each data vector could belong.
 func (M *MultiClass) Classes() int {
-	return len(M.b)
+	return len(M.classLabels)
 }
 
 // Predicts the class to which a single sample belongs. You can give a slice of floats
-- 
2.43.0


From f4c0fdc22c83f14d9579299f28e83122229a2b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:57 +0000
Subject: [PATCH 09/51] fix: an ensemble without trees predicts from its base
 score

PredictSingle took the number of classes from the first boosting round, and
panicked for ensembles where no round was performed (say, if the data has
fewer than MinSample samples).
---
 multiclass.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multiclass.go b/multiclass.go
index 98bf771..adaf92a 100644
--- a/multiclass.go
+++ b/multiclass.go
@@ -93,8 +93,8 @@ func (M *MultiClass) PredictSingleClass(instance []float64, predictions ...[]flo
 // a slice to be filled with the predictions in order to avoid allocation.
 func (M *MultiClass) PredictSingle(instance []float64, predictions ...[]float64) []float64 {
 	var preds []float64
-	preds = make([]float64, len(M.b[0]))
-	tmp := make([]float64, len(M.b[0]))
+	preds = make([]float64, M.Classes())
+	tmp := make([]float64, M.Classes())
 	for i := range tmp {
 		tmp[i] = M.baseScore
 	}
-- 
2.43.0


From 825f489821dc3defaef76df96f1bf152c63771f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:58 +0000
Subject: [PATCH 10/51] fix: early stopping starts from the first round
 actually performed

If the first round was skipped because of MinSample, the first loss was
compared with 0 and counted as a round without progress.
---
 xgb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xgb.go b/xgb.go
index efa8f02..29f1f53 100644
--- a/xgb.go
+++ b/xgb.go
@@ -121,7 +121,7 @@ func NewMultiClass(D *utils.DataBunch, opts ...*Options) *MultiClass {
 					stopped[k] = true
 					continue
 				}
-				if round == 0 {
+				if len(boosters) == 0 { //first round actually performed
 					prevloss[k] = currloss
 					continue
 				}
-- 
2.43.0


From be21592b32878beec242e5e7198189adedbb95ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:58 +0000
Subject: [PATCH 11/51] fix: UnJSONMultiClass keeps the last boosting round

A round was only added to the ensemble when the next one was found, so the
recovered model always lacked the last one.
---
 xjson.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xjson.go b/xjson.go
index e57da6d..72f1e58 100644
--- a/xjson.go
+++ b/xjson.go
@@ -96,6 +96,9 @@ func UnJSONMultiClass(r *bufio.Reader) (*MultiClass, error) {
 		return nil, fmt.Errorf("Error reading of trees lines from file: %v", err)
 
 	}
+	if class != nil {
+		trees = append(trees, class) //the last round
+	}
 	ret.b = trees
 	return ret, nil
 }
-- 
2.43.0


From 5847be830b95c6b0f96a2dd1c0d6eb0384c665bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:59 +0000
Subject: [PATCH 12/51] fix: UnJSONMultiClass restores the kind of ensemble

The recovered ensemble was always marked as regular gradient boosting, so
the order of the feature importances of xgboost ones was reversed.
---
 xjson.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xjson.go b/xjson.go
index 72f1e58..cbc0ec8 100644
--- a/xjson.go
+++ b/xjson.go
@@ -89,6 +89,7 @@ func UnJSONMultiClass(r *bufio.Reader) (*MultiClass, error) {
 			return nil, fmt.Errorf("Tree %d, round %d belongs to class %d, but there are only %d", cont, nround, nclass, len(class))
 		}
 		class[nclass] = jtree.(*Tree)
+		ret.xgb = class[nclass].xgb
 		nclass++
 		cont++
 	}
-- 
2.43.0


From f42e0bc1d261a11217ec877f8586f0d94851c3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:59 +0000
Subject: [PATCH 13/51] fix: UnJSONMultiClass rejects unknown activation
 functions

It returned a model without activation function and no error, which
panicked at the first prediction.
---
 xjson.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xjson.go b/xjson.go
index cbc0ec8..e350933 100644
--- a/xjson.go
+++ b/xjson.go
@@ -47,7 +47,11 @@ func UnJSONMultiClass(r *bufio.Reader) (*MultiClass, error) {
 	}
 	ret.learningRate = jmc.LearningRate
 	ret.classLabels = jmc.ClassLabels
-	ret.probTransform = ProbTransformMap[jmc.ProbTransformName]
+	var ok bool
+	ret.probTransform, ok = ProbTransformMap[jmc.ProbTransformName]
+	if !ok {
+		return nil, fmt.Errorf("Unknown activation function: %s", jmc.ProbTransformName)
+	}
 	ret.baseScore = jmc.BaseScore
 	//I'm not sure this will work!
 	//	s, err = r.ReadString('\n')
-- 
2.43.0


From a8634cfccde6696d6b05ff5910c8cbac98573e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:00 +0000
Subject: [PATCH 14/51] fix: UnJSONMultiClass rejects files that end before a
 tree is complete

A file cut in the middle of the first line of a tree, or right before it,
was read without error as a model with missing trees.
---
 xjson.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/xjson.go b/xjson.go
index e350933..8a67f27 100644
--- a/xjson.go
+++ b/xjson.go
@@ -63,11 +63,15 @@ func UnJSONMultiClass(r *bufio.Reader) (*MultiClass, error) {
 	cont := 1
 	nround := -1
 	nclass := 0
+	missingtree := false //a CLASS line was read, but not its tree.
 	for {
 		s, err = r.ReadString('\n')
 		if err != nil {
 			break
 		}
+		if missingtree && (strings.Contains(s, "ROUND") || strings.Contains(s, "CLASS")) {
+			return nil, fmt.Errorf("No tree for class %d, round %d", nclass, nround)
+		}
 		if strings.Contains(s, "ROUND") {
 			if class != nil {
 				trees = append(trees, class)
@@ -83,6 +87,7 @@ func UnJSONMultiClass(r *bufio.Reader) (*MultiClass, error) {
 			if err != nil {
 				return nil, fmt.Errorf("Error reading class for tree %d, round %d: %v", cont, nround, err)
 			}
+			missingtree = true
 			continue
 		}
 		jtree, err := utils.UnJSONTree(s, r, creator)
@@ -94,6 +99,7 @@ func UnJSONMultiClass(r *bufio.Reader) (*MultiClass, error) {
 		}
 		class[nclass] = jtree.(*Tree)
 		ret.xgb = class[nclass].xgb
+		missingtree = false
 		nclass++
 		cont++
 	}
@@ -101,6 +107,9 @@ func UnJSONMultiClass(r *bufio.Reader) (*MultiClass, error) {
 		return nil, fmt.Errorf("Error reading of trees lines from file: %v", err)
 
 	}
+	if missingtree || s != "" {
+		return nil, fmt.Errorf("Error reading of trees from file: incomplete tree %d, round %d, class %d", cont, nround, nclass)
+	}
 	if class != nil {
 		trees = append(trees, class) //the last round
 	}
-- 
2.43.0


From 91d092c7bae87d0cc10c4179058871b0aee834ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:29 +0000
Subject: [PATCH 15/51] fix: SoftMax does not overflow

Scores over ~709 gave NaN probabilities, which regular gradient boosting
reaches easily, as its leaf values are not bounded.
---
 utils/loss_acti.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/utils/loss_acti.go b/utils/loss_acti.go
index d00d50f..840b76d 100644
--- a/utils/loss_acti.go
+++ b/utils/loss_acti.go
@@ -37,8 +37,12 @@ func SoftMax(p, probs []float64) []float64 {
 	if probs == nil {
 		probs = make([]float64, len(p))
 	}
+	max := math.Inf(-1)
+	for _, v := range p {
+		max = math.Max(max, v)
+	}
 	for i, v := range p {
-		probs[i] = math.Exp(v)
+		probs[i] = math.Exp(v - max) //the result is the same as with exp(v), but it can't overflow
 	}
 	den := floats.Sum(probs)
 	for i := range p {
-- 
2.43.0


From 61f8378bdf2a09df48c1a8a881d84b460c0a4f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:29 +0000
Subject: [PATCH 16/51] fix: no NaN leaves when the probabilities saturate

In regular gradient boosting, once the probabilities of all the samples of
a leaf reach 0 or 1 its hessian is zero, and its value became 0/0. All
predictions of the ensemble were NaN from there on.
---
 xgb.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xgb.go b/xgb.go
index 29f1f53..b6a4a63 100644
--- a/xgb.go
+++ b/xgb.go
@@ -210,7 +210,10 @@ func updateLeaves(tree *Tree, gradient, hessian *mat.Dense) {
 			sumhess += hessian.At(0, w)
 			sumgrad += gradient.At(0, w)
 		}
-		nval := sumgrad / sumhess
+		nval := 0.0
+		if math.Abs(sumhess) > 1e-150 { //saturated probabilities have no curvature
+			nval = sumgrad / sumhess
+		}
 		leaf.value = nval
 	}
 	applyToLeafs(tree, fn)
-- 
2.43.0


From 8b0ba422ca98d34a58a50c173a0adc726de9b466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:30 +0000
Subject: [PATCH 17/51] fix: Options.Clone and Equal consider all the options

Clone dropped EarlyStop, so the gradient-based searches evaluated ensembles
without early stopping, and replaced TreeMethod; Equal ignored the former,
and was not reflexive for options with an empty TreeMethod.
---
 options.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/options.go b/options.go
index 73c376a..4effac5 100644
--- a/options.go
+++ b/options.go
@@ -80,7 +80,10 @@ func (o *Options) Equal(O *Options) bool {
 	if O.BaseScore != o.BaseScore {
 		return false
 	}
-	if O.TreeMethod != "exact" {
+	if O.EarlyStop != o.EarlyStop {
+		return false
+	}
+	if O.TreeMethod != o.TreeMethod {
 		return false
 	}
 	if O.Loss != o.Loss {
@@ -107,7 +110,8 @@ func (o *Options) Clone() *Options {
 	O.MaxDepth = o.MaxDepth
 	O.LearningRate = o.LearningRate
 	O.BaseScore = o.BaseScore
-	O.TreeMethod = "exact"
+	O.EarlyStop = o.EarlyStop
+	O.TreeMethod = o.TreeMethod
 	O.Loss = o.Loss
 	O.Verbose = o.Verbose
 	O.MinSample = o.MinSample
-- 
2.43.0


From e369e2a6f85644c8b16698abaf4331d1ff07d091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:31 +0000
Subject: [PATCH 18/51] fix: cross-validation of fewer than 2 samples returns
 an error

The search for a smaller fold reached 0 and panicked with a division by
zero.
---
 utils/stat.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/stat.go b/utils/stat.go
index 14b7122..e837335 100644
--- a/utils/stat.go
+++ b/utils/stat.go
@@ -70,7 +70,7 @@ func CrossValidationSamples(data *DataBunch, nfold int, usecopies ...bool) (int,
 	}
 	tot := len(data.Data)
 	tried := make([]int, 0, 5)
-	for ; tot/nf < minleftout; nf-- {
+	for ; nf >= minfold && tot/nf < minleftout; nf-- {
 		err = fmt.Errorf("The %d-fold crossvalidation requested leaves only %d sample(s) per fold, when the minimum allowed is %d. Will use %d-fold.N-folds already tried: %v", nf, tot/nf, minleftout, nf-1, tried)
 		tried = append(tried, nf)
 	}
-- 
2.43.0


From 14e1abb575ecfa69ef817ad138b174015738ce52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:31 +0000
Subject: [PATCH 19/51] fix: cross-validation samples keep the feature names

The (always empty) keys of the destination were tested instead of those of
the original data.
---
 utils/stat.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/stat.go b/utils/stat.go
index e837335..1a3e6bc 100644
--- a/utils/stat.go
+++ b/utils/stat.go
@@ -40,7 +40,7 @@ func fillDataBunch(ori, dest *DataBunch, toadd []int, docopy bool) *DataBunch {
 			dest.Labels = append(dest.Labels, ori.Labels[v])
 		}
 	}
-	if len(dest.Keys) > 0 {
+	if len(ori.Keys) > 0 {
 		if docopy {
 			dest.Keys = make([]string, len(ori.Keys))
 			copy(dest.Keys, ori.Keys)
-- 
2.43.0


From 460d5ba389290a3d6dd106e127797f0dff165baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:32 +0000
Subject: [PATCH 20/51] fix: read the last line of a libSVM file without a
 final newline

The last sample was silently dropped if its line was not terminated (which
is how DataBunch.LibSVM writes it), and blank lines caused a panic.
---
 utils/libsvm.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utils/libsvm.go b/utils/libsvm.go
index d642289..f5f6465 100644
--- a/utils/libsvm.go
+++ b/utils/libsvm.go
@@ -166,9 +166,12 @@ func ParseLibSVMFromReader(r io.Reader, hasHeader bool) (*DataBunch, error) {
 	for {
 		//	println("Will read the line", cont+1) ///////
 		line, err2 = buf.ReadString('\n')
-		if err2 != nil {
+		if err2 != nil && (err2 != io.EOF || line == "") { //the last line might not end in a newline
 			break
 		}
+		if strings.TrimSpace(line) == "" {
+			continue
+		}
 		var err error
 		if hasHeader && cont == 0 {
 			_, headers, _, err = parseLibSVMLine(line, true, nil, nil)
-- 
2.43.0


From 1202900bd8a9482ba69006e6df11219c8e6d65fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:32 +0000
Subject: [PATCH 21/51] fix: the libSVM reader rejects samples with missing
 features

Sparse files are not supported, but they were read without error into
samples of different lengths, which misassigns features and panics later.
---
 utils/libsvm.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utils/libsvm.go b/utils/libsvm.go
index f5f6465..9c78f83 100644
--- a/utils/libsvm.go
+++ b/utils/libsvm.go
@@ -188,6 +188,9 @@ func ParseLibSVMFromReader(r io.Reader, hasHeader bool) (*DataBunch, error) {
 			return nil, svmliberror(err, cont+1, line)
 
 		}
+		if len(data) > 0 && len(t) != len(data[0]) {
+			return nil, svmliberror(fmt.Errorf("%d features, but the first sample has %d", len(t), len(data[0])), cont+1, line)
+		}
 		data = append(data, t)
 		labels = append(labels, l)
 
-- 
2.43.0


From 8b13fe9b90f97725627da7f9af16db5fb871fb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:33 +0000
Subject: [PATCH 22/51] fix: writing a data bunch without samples does not
 panic

---
 utils/csv.go    | 2 +-
 utils/libsvm.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/csv.go b/utils/csv.go
index 0c814f2..75c0b24 100644
--- a/utils/csv.go
+++ b/utils/csv.go
@@ -13,7 +13,7 @@ import (
 // returns the data in CSV format, using whatever string is given as a separator
 // (comma if no string is given)
 func (D *DataBunch) CSV(separator ...string) string {
-	if D == nil {
+	if D == nil || len(D.Data) == 0 {
 		return ""
 	}
 	sep := ","
diff --git a/utils/libsvm.go b/utils/libsvm.go
index 9c78f83..3d6ebea 100644
--- a/utils/libsvm.go
+++ b/utils/libsvm.go
@@ -64,7 +64,7 @@ func (D *DataBunch) String() string {
 // returns the data in libSVM format
 // not very good as it doesn't omit the zero-valued data, but I'll get there.
 func (D *DataBunch) LibSVM() string {
-	if D == nil {
+	if D == nil || len(D.Data) == 0 {
 		return ""
 	}
 	ret := make([]string, 0, len(D.Data)+1)
-- 
2.43.0


From dd228bb23c71e6f1cca36d25c759f35a2fa26683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:33 +0000
Subject: [PATCH 23/51] fix: ReadNameMap reads the whole file and reports its
 errors

The last entry was dropped if not terminated by a newline, blank lines and
lines without a name caused a panic, and read errors were ignored.
---
 confu/confu.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/confu/confu.go b/confu/confu.go
index e16d3ec..7b96479 100644
--- a/confu/confu.go
+++ b/confu/confu.go
@@ -41,15 +41,23 @@ func ReadNameMap(filename string, separator ...string) (map[int]string, error) {
 	defer ffin.Close()
 	fin := bufio.NewReader(ffin)
 	var rerr error
+	var s string
 	ret := make(map[int]string)
-	for s, rerr := fin.ReadString('\n'); rerr == nil; s, rerr = fin.ReadString('\n') {
+	//the last line might not end in a newline
+	for s, rerr = fin.ReadString('\n'); rerr == nil || s != ""; s, rerr = fin.ReadString('\n') {
 		s := strings.Replace(s, "\n", "", -1)
+		if strings.TrimSpace(s) == "" {
+			continue
+		}
 		var l []string
 		if sep == " " {
 			l = strings.Fields(s)
 		} else {
 			l = strings.Split(s, sep)
 		}
+		if len(l) < 2 {
+			return nil, fmt.Errorf("Malformed line in label names file: %s", s)
+		}
 		num, err := strconv.Atoi(l[0])
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 7100a7ab54ce2d8a86c08b500a5a36c866c538c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:34 +0000
Subject: [PATCH 24/51] fix: DenseCol and AddToCol reject a column just out of
 range

A column index equal to the number of columns passed the check and
returned, or modified, data from column 0.
---
 utils/math.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/math.go b/utils/math.go
index 18a4829..f650d45 100644
--- a/utils/math.go
+++ b/utils/math.go
@@ -104,7 +104,7 @@ func PrintDenseMatrix(m *mat.Dense) string {
 func DenseCol(D *mat.Dense, col int) *mat.Dense {
 	raw := D.RawMatrix()
 	r, c := D.Dims()
-	if col > c {
+	if col >= c {
 		panic(fmt.Sprintf("DenseCol: Requested column %d of matrix with %d columns: %v", col, c, D))
 	}
 	data := raw.Data
@@ -120,7 +120,7 @@ func DenseCol(D *mat.Dense, col int) *mat.Dense {
 func AddToCol(D *mat.Dense, s []float64, col int) {
 	raw := D.RawMatrix()
 	r, c := D.Dims()
-	if col > c {
+	if col >= c {
 		panic(fmt.Sprintf("AddToCol: Requested column %d of matrix with %d columns: %v", col, c, D))
 	}
 	if len(s) != r {
-- 
2.43.0


From 8cd31576908e146d64889b7268d0abd9d6b12952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:34 +0000
Subject: [PATCH 25/51] fix: LogOddsFromProbs returns the logarithm of the odds

---
 xgb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xgb.go b/xgb.go
index b6a4a63..2305a6b 100644
--- a/xgb.go
+++ b/xgb.go
@@ -157,7 +157,7 @@ func LogOddsFromProbs(m *mat.Dense) *mat.Dense {
 		row := m.RawRowView(i)
 		s := floats.Sum(row)
 		for j, v := range row {
-			ret.Set(i, j, math.Log(v*(s-v)))
+			ret.Set(i, j, math.Log(v/(s-v)))
 		}
 	}
 	return ret
-- 
2.43.0


From d9b4f007cc52831c68e1fa2b4997a16470fd2435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:10 +0000
Subject: [PATCH 26/51] fix: Grid collects the results of the last, incomplete,
 batch

If the number of combinations was not a multiple of NCPUs the last ones
were never considered, and their goroutines blocked forever.
---
 cv/cv.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/cv/cv.go b/cv/cv.go
index aaf6923..37768b1 100644
--- a/cv/cv.go
+++ b/cv/cv.go
@@ -180,6 +180,12 @@ func Grid(data *utils.DataBunch, nfold int, options ...*GridOptions) (float64, [
 	}
 	//welcome to nested-hell. Sorry.
 	cpus := 0
+	collect := func() error {
+		var err error
+		bestacc, finaloptions, err = rescueConcValues(errs[:cpus], accs, os, bestacc, finaloptions, o.Verbose, o.WriteBest, data)
+		cpus = 0
+		return err
+	}
 	for rounds := o.Rounds[0]; rounds <= o.Rounds[1]; rounds += o.Rounds[2] {
 		for cw := o.MinChildWeight[0]; cw <= o.MinChildWeight[1]; cw += o.MinChildWeight[2] {
 			if o.Verbose {
@@ -207,13 +213,9 @@ func Grid(data *utils.DataBunch, nfold int, options ...*GridOptions) (float64, [
 									go MultiClassCrossValidation(data, nfold, conc)
 									cpus++
 									if cpus == o.NCPUs {
-										var err error
-										bestacc, finaloptions, err = rescueConcValues(errs, accs, os, bestacc, finaloptions, o.Verbose, o.WriteBest, data)
-
-										if err != nil {
+										if err := collect(); err != nil {
 											return -1, nil, nil, err
 										}
-										cpus = 0
 									}
 
 								}
@@ -225,6 +227,10 @@ func Grid(data *utils.DataBunch, nfold int, options ...*GridOptions) (float64, [
 			}
 		}
 	}
+	//the last batch might have fewer than NCPUs elements.
+	if err := collect(); err != nil {
+		return -1, nil, nil, err
+	}
 	return bestacc, accuracies, finaloptions, nil
 }
 
-- 
2.43.0


From 92db08405e540ad833f675e0f295efbce7a4cdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:11 +0000
Subject: [PATCH 27/51] fix: Grid uses one goroutine if NCPUs is not set

It panicked with an index out of range, for instance, with the options
from DefaultGGridOptions.
---
 cv/cv.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cv/cv.go b/cv/cv.go
index 37768b1..638c30b 100644
--- a/cv/cv.go
+++ b/cv/cv.go
@@ -169,11 +169,12 @@ func Grid(data *utils.DataBunch, nfold int, options ...*GridOptions) (float64, [
 	var finaloptions *boo.Options
 	accuracies := make([]float64, 0, 100)
 	bestacc := 0.0
-	accs := make([]chan float64, o.NCPUs)
-	errs := make([]chan error, o.NCPUs)
+	ncpus := max(o.NCPUs, 1)
+	accs := make([]chan float64, ncpus)
+	errs := make([]chan error, ncpus)
 
-	os := make([]chan *boo.Options, o.NCPUs)
-	for i := range o.NCPUs {
+	os := make([]chan *boo.Options, ncpus)
+	for i := range ncpus {
 		accs[i] = make(chan float64)
 		errs[i] = make(chan error)
 		os[i] = make(chan *boo.Options)
@@ -212,7 +213,7 @@ func Grid(data *utils.DataBunch, nfold int, options ...*GridOptions) (float64, [
 									conc := &Options{O: t, Acc: accs[cpus], Err: errs[cpus], Ochan: os[cpus], Conc: true}
 									go MultiClassCrossValidation(data, nfold, conc)
 									cpus++
-									if cpus == o.NCPUs {
+									if cpus == ncpus {
 										if err := collect(); err != nil {
 											return -1, nil, nil, err
 										}
-- 
2.43.0


From e417f34d7bab1d3a698b5509c7e30c3bbcd849e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:11 +0000
Subject: [PATCH 28/51] fix: Grid returns the accuracies of all the
 combinations tested

The slice was returned always empty.
---
 cv/cv.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cv/cv.go b/cv/cv.go
index 638c30b..8b77e0b 100644
--- a/cv/cv.go
+++ b/cv/cv.go
@@ -183,7 +183,7 @@ func Grid(data *utils.DataBunch, nfold int, options ...*GridOptions) (float64, [
 	cpus := 0
 	collect := func() error {
 		var err error
-		bestacc, finaloptions, err = rescueConcValues(errs[:cpus], accs, os, bestacc, finaloptions, o.Verbose, o.WriteBest, data)
+		bestacc, accuracies, finaloptions, err = rescueConcValues(errs[:cpus], accs, os, bestacc, accuracies, finaloptions, o.Verbose, o.WriteBest, data)
 		cpus = 0
 		return err
 	}
@@ -236,20 +236,21 @@ func Grid(data *utils.DataBunch, nfold int, options ...*GridOptions) (float64, [
 }
 
 // Rescues cross-validation results from the given channels (errors, accuracy and the corresponding boosting options)
-func rescueConcValues(errors []chan error, accs []chan float64, opts []chan *boo.Options, bestacc float64, bestop *boo.Options, verbose bool, writebest bool, data *utils.DataBunch) (float64, *boo.Options, error) {
+func rescueConcValues(errors []chan error, accs []chan float64, opts []chan *boo.Options, bestacc float64, accuracies []float64, bestop *boo.Options, verbose bool, writebest bool, data *utils.DataBunch) (float64, []float64, *boo.Options, error) {
 	var err error
 	var tmpacc float64
 	var tmpop *boo.Options
 	for i, v := range errors {
 		err = <-v
 		if err != nil {
-			return -1, nil, err
+			return -1, nil, nil, err
 		}
 		tmpacc = <-accs[i]
 		if tmpacc < 0 {
-			return -1, nil, fmt.Errorf("grads zero") //not a real error, just that the optimizatio is over.
+			return -1, nil, nil, fmt.Errorf("grads zero") //not a real error, just that the optimizatio is over.
 		}
 		tmpop = <-opts[i]
+		accuracies = append(accuracies, tmpacc)
 		if tmpacc > bestacc {
 			bestacc = tmpacc
 			bestop = tmpop
@@ -261,7 +262,7 @@ func rescueConcValues(errors []chan error, accs []chan float64, opts []chan *boo
 			}
 		}
 	}
-	return bestacc, bestop, nil
+	return bestacc, accuracies, bestop, nil
 
 }
 
-- 
2.43.0


From 85d72acdf7e8f1bd6a7a24b1285534930ba17a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:11 +0000
Subject: [PATCH 29/51] fix: the searches return options even if all accuracies
 are zero

nil options were returned without an error in that case.
---
 cv/cv.go     | 2 +-
 cv/grad.go   | 2 +-
 cv/hybrid.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cv/cv.go b/cv/cv.go
index 8b77e0b..bf86eff 100644
--- a/cv/cv.go
+++ b/cv/cv.go
@@ -251,7 +251,7 @@ func rescueConcValues(errors []chan error, accs []chan float64, opts []chan *boo
 		}
 		tmpop = <-opts[i]
 		accuracies = append(accuracies, tmpacc)
-		if tmpacc > bestacc {
+		if tmpacc > bestacc || bestop == nil {
 			bestacc = tmpacc
 			bestop = tmpop
 			if verbose {
diff --git a/cv/grad.go b/cv/grad.go
index a5abb2a..cb9a7a0 100644
--- a/cv/grad.go
+++ b/cv/grad.go
@@ -254,7 +254,7 @@ func GradientGrid(data *utils.DataBunch, nfold int, options ...*GridOptions) (fl
 
 				}
 				//		println("new (might not be best) accuracy!", acc)
-				if acc > bestacc {
+				if acc > bestacc || finaloptions == nil {
 					if o.Verbose {
 						fmt.Println("New best accuracy: ", acc, t)
 					}
diff --git a/cv/hybrid.go b/cv/hybrid.go
index 4690388..2d5a161 100644
--- a/cv/hybrid.go
+++ b/cv/hybrid.go
@@ -55,7 +55,7 @@ func HybridGradientGrid(data *utils.DataBunch, nfold int, options ...*GridOption
 						if len(accuracies) > 0 && acc < accuracies[len(accuracies)-1] {
 							return fuzzOptions(tprev), nil
 						}
-						if acc > bestacc {
+						if acc > bestacc || finaloptions == nil {
 							if o.Verbose {
 								fmt.Println("New best accuracy: ", acc, t)
 							}
-- 
2.43.0


From be753b906f6bd1694a95b63d00262ee91be0de24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:12 +0000
Subject: [PATCH 30/51] fix: Grid leaves no goroutines behind when it fails

When an evaluation failed, its goroutine and the others in the batch were
blocked forever sending results that nobody collected.
---
 cv/cv.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cv/cv.go b/cv/cv.go
index bf86eff..ff79a41 100644
--- a/cv/cv.go
+++ b/cv/cv.go
@@ -175,9 +175,10 @@ func Grid(data *utils.DataBunch, nfold int, options ...*GridOptions) (float64, [
 
 	os := make([]chan *boo.Options, ncpus)
 	for i := range ncpus {
-		accs[i] = make(chan float64)
-		errs[i] = make(chan error)
-		os[i] = make(chan *boo.Options)
+		//buffered, so no goroutine is left blocked if we return because of an error.
+		accs[i] = make(chan float64, 1)
+		errs[i] = make(chan error, 1)
+		os[i] = make(chan *boo.Options, 1)
 	}
 	//welcome to nested-hell. Sorry.
 	cpus := 0
-- 
2.43.0


From 38cabe1ac6e3cb810a919e90d8c09da43bc35847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:12 +0000
Subject: [PATCH 31/51] fix: the gradient steps leave no goroutines behind

After sending its result because of an error, a parameter step carried on
and tried to send another one, which nobody was waiting for. GradStep, on
the other hand, didn't send anything if its cross-validation failed.
---
 cv/grad.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/cv/grad.go b/cv/grad.go
index cb9a7a0..36f17f2 100644
--- a/cv/grad.go
+++ b/cv/grad.go
@@ -92,9 +92,10 @@ func ParamaterGradStep(D *utils.DataBunch, Op *boo.Options, CVO *GridOptions, pa
 	f["Rounds"] = [2]myf{func(o *boo.Options) *boo.Options { o.Rounds -= int(float64(o.Rounds) * fd); return o }, func(o *boo.Options) *boo.Options { o.Rounds += int(float64(o.Rounds) * fd); return o }}
 
 	pO := f[param][1](O.Clone())
-	pluserr := make(chan error)
-	pluso := make(chan *boo.Options)
-	plusacc := make(chan float64)
+	//the channels are buffered so no goroutine is left blocked if we return early.
+	pluserr := make(chan error, 1)
+	pluso := make(chan *boo.Options, 1)
+	plusacc := make(chan float64, 1)
 	conc := &Options{O: pO, Acc: plusacc, Err: pluserr, Ochan: pluso, Conc: true}
 	go MultiClassCrossValidation(D, nfold, conc)
 
@@ -106,11 +107,11 @@ func ParamaterGradStep(D *utils.DataBunch, Op *boo.Options, CVO *GridOptions, pa
 		mO := f[param][0](O.Clone())
 		if mO.Check() != nil {
 			out <- O
-
+			return
 		}
-		minerr = make(chan error)
-		mino = make(chan *boo.Options)
-		minacc = make(chan float64)
+		minerr = make(chan error, 1)
+		mino = make(chan *boo.Options, 1)
+		minacc = make(chan float64, 1)
 		conc := &Options{O: mO, Acc: minacc, Err: minerr, Ochan: mino, Conc: true}
 		go MultiClassCrossValidation(D, nfold, conc)
 	}
@@ -121,6 +122,7 @@ func ParamaterGradStep(D *utils.DataBunch, Op *boo.Options, CVO *GridOptions, pa
 	_ = <-pluso
 	if err != nil {
 		out <- O
+		return
 	}
 	h := fd * currentValue(O, param)
 	if !central {
@@ -135,6 +137,7 @@ func ParamaterGradStep(D *utils.DataBunch, Op *boo.Options, CVO *GridOptions, pa
 		_ = <-mino
 		if err != nil {
 			out <- O
+			return
 		}
 		der = (pacc - macc) / 2 * h
 	}
@@ -181,6 +184,9 @@ func GradStep(Ori *boo.Options, CVO *GridOptions, D *utils.DataBunch, step, frac
 		conc := &Options{O: O, Acc: nil, Err: nil, Ochan: nil, Conc: false}
 		curracc, err = MultiClassCrossValidation(D, nfold, conc)
 		if err != nil {
+			if out != nil {
+				out <- Ori
+			}
 			return Ori
 		}
 	}
-- 
2.43.0


From 9c573fb93ab57c833290ade18c2dbd82d468d195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:12 +0000
Subject: [PATCH 32/51] fix: data race in GradStep

The options were modified with the first results received while the
goroutines for other parameters could still be copying them.
---
 cv/grad.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cv/grad.go b/cv/grad.go
index 36f17f2..48f6d06 100644
--- a/cv/grad.go
+++ b/cv/grad.go
@@ -193,7 +193,8 @@ func GradStep(Ori *boo.Options, CVO *GridOptions, D *utils.DataBunch, step, frac
 	gm := map[string]chan *boo.Options{"Gamma": make(chan *boo.Options), "Lambda": make(chan *boo.Options), "SubSample": make(chan *boo.Options), "ColSubSample": make(chan *boo.Options), "LearningRate": make(chan *boo.Options), "Rounds": make(chan *boo.Options)}
 
 	for k, v := range gm {
-		go ParamaterGradStep(D, O, CVO, k, step, fractiondelta, curracc, nfold, central, v)
+		//a copy, as we'll start modifying O before all the goroutines have read it.
+		go ParamaterGradStep(D, O.Clone(), CVO, k, step, fractiondelta, curracc, nfold, central, v)
 	}
 	O.Gamma = (<-gm["Gamma"]).Gamma
 	O.Lambda = (<-gm["Lambda"]).Lambda
-- 
2.43.0


From 74f807464a0e6296bd9d6db27ae31265d7af0d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:13 +0000
Subject: [PATCH 33/51] fix: the gradient searches return the options with the
 best accuracy

The best options were kept as a reference to the current ones, which the
following steps modify, so the options returned were not those that gave
the accuracy returned.
---
 cv/grad.go   | 2 +-
 cv/hybrid.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cv/grad.go b/cv/grad.go
index 48f6d06..5a8ab5b 100644
--- a/cv/grad.go
+++ b/cv/grad.go
@@ -266,7 +266,7 @@ func GradientGrid(data *utils.DataBunch, nfold int, options ...*GridOptions) (fl
 						fmt.Println("New best accuracy: ", acc, t)
 					}
 					accuracies = append(accuracies, acc)
-					finaloptions = t
+					finaloptions = t.Clone() //t will be modified by the next steps
 					bestacc = acc
 					if o.WriteBest {
 						writeBest(data, bestacc, finaloptions)
diff --git a/cv/hybrid.go b/cv/hybrid.go
index 2d5a161..93a265a 100644
--- a/cv/hybrid.go
+++ b/cv/hybrid.go
@@ -60,7 +60,7 @@ func HybridGradientGrid(data *utils.DataBunch, nfold int, options ...*GridOption
 								fmt.Println("New best accuracy: ", acc, t)
 							}
 							accuracies = append(accuracies, acc)
-							finaloptions = t
+							finaloptions = t.Clone() //t will be modified by the next steps
 							bestacc = acc
 							if o.WriteBest {
 								writeBest(data, bestacc, finaloptions)
-- 
2.43.0


From 36e2ecd50bdc9b1392b98e9111942d78f9885a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:13 +0000
Subject: [PATCH 34/51] fix: the gradient searches use the requested number of
 folds

The accuracy of each candidate was always obtained from a 5-fold
cross-validation.
---
 cv/grad.go   | 2 +-
 cv/hybrid.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cv/grad.go b/cv/grad.go
index 5a8ab5b..9bce8cd 100644
--- a/cv/grad.go
+++ b/cv/grad.go
@@ -251,7 +251,7 @@ func GradientGrid(data *utils.DataBunch, nfold int, options ...*GridOptions) (fl
 			t.XGB = o.XGB
 			tprev := t.Clone()
 			CompareAccs := func(t, tprev *boo.Options) (*boo.Options, error) {
-				acc, err := MultiClassCrossValidation(data, 5, &Options{O: t, Conc: false})
+				acc, err := MultiClassCrossValidation(data, nfold, &Options{O: t, Conc: false})
 				if err != nil {
 					return nil, err
 				}
diff --git a/cv/hybrid.go b/cv/hybrid.go
index 93a265a..320ffc2 100644
--- a/cv/hybrid.go
+++ b/cv/hybrid.go
@@ -48,7 +48,7 @@ func HybridGradientGrid(data *utils.DataBunch, nfold int, options ...*GridOption
 
 					tprev := t.Clone()
 					CompareAccs := func(t, tprev *boo.Options) (*boo.Options, error) {
-						acc, err := MultiClassCrossValidation(data, 5, &Options{O: t, Conc: false})
+						acc, err := MultiClassCrossValidation(data, nfold, &Options{O: t, Conc: false})
 						if err != nil {
 							return nil, err
 						}
-- 
2.43.0


From 46b8acd6e044cd98be5721ad72b9142d0937588f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:13 +0000
Subject: [PATCH 35/51] fix: no NaN hyperparameters in the forward-difference
 gradient steps

For a parameter with a value of 0 (say, Gamma) the derivative is 0/0, and
the NaN passed all the checks against the search space.
---
 cv/grad.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cv/grad.go b/cv/grad.go
index 9bce8cd..ab6e51a 100644
--- a/cv/grad.go
+++ b/cv/grad.go
@@ -126,7 +126,7 @@ func ParamaterGradStep(D *utils.DataBunch, Op *boo.Options, CVO *GridOptions, pa
 	}
 	h := fd * currentValue(O, param)
 	if !central {
-		if h < 0 {
+		if h <= 0 {
 			out <- O
 			return
 		}
-- 
2.43.0


From 13401fa9c9bb36c205f30d1090c3280cb3a8bd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:14 +0000
Subject: [PATCH 36/51] fix: GradientGrid uses the requested EarlyStop

As Grid and HybridGradientGrid do.
---
 cv/grad.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cv/grad.go b/cv/grad.go
index ab6e51a..041f9be 100644
--- a/cv/grad.go
+++ b/cv/grad.go
@@ -249,6 +249,7 @@ func GradientGrid(data *utils.DataBunch, nfold int, options ...*GridOptions) (fl
 			t.MaxDepth = md
 			t.MinChildWeight = cw
 			t.XGB = o.XGB
+			t.EarlyStop = o.EarlyStop
 			tprev := t.Clone()
 			CompareAccs := func(t, tprev *boo.Options) (*boo.Options, error) {
 				acc, err := MultiClassCrossValidation(data, nfold, &Options{O: t, Conc: false})
-- 
2.43.0


From 02dc99f954edacad55c3b3fb3c8e134df24e3d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:43 +0000
Subject: [PATCH 37/51] verif: trace the cross-validation evaluations (build
 tag verif)

---
 cv/cv.go        |  3 +++
 cv/verif_off.go | 10 ++++++++++
 cv/verif_on.go  | 49 +++++++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 62 insertions(+)
 create mode 100644 cv/verif_off.go
 create mode 100644 cv/verif_on.go

diff --git a/cv/cv.go b/cv/cv.go
index ff79a41..679d2a8 100644
--- a/cv/cv.go
+++ b/cv/cv.go
@@ -14,9 +14,11 @@ import (
 // directly or sent them through channels.
 func MultiClassCrossValidation(D *utils.DataBunch, nfold int, opts *Options) (float64, error) {
 	var accus float64
+	verifid := verifBegin(opts, nfold)
 	n, sampler, err := utils.CrossValidationSamples(D, nfold, true)
 	if err != nil {
 		if n == 0 {
+			verifEnd(verifid, -1, err)
 			if opts.Conc {
 				opts.Err <- err
 				opts.Acc <- -1
@@ -43,6 +45,7 @@ func MultiClassCrossValidation(D *utils.DataBunch, nfold int, opts *Options) (fl
 		a := b.Accuracy(test)
 		accus += a
 	}
+	verifEnd(verifid, accus/float64(n), nil)
 	if opts.Conc {
 		opts.Err <- nil
 		opts.Acc <- accus / float64(i) //I use i and not n in case we skip some steps.
diff --git a/cv/verif_off.go b/cv/verif_off.go
new file mode 100644
index 0000000..061aa57
--- /dev/null
+++ b/cv/verif_off.go
@@ -0,0 +1,10 @@
+//go:build !verif
+
+package cv
+
+// Tracing hooks for verification. They do nothing unless built with the
+// "verif" tag.
+
+func verifBegin(opts *Options, nfold int) int { return 0 }
+
+func verifEnd(id int, acc float64, err error) {}
diff --git a/cv/verif_on.go b/cv/verif_on.go
new file mode 100644
index 0000000..5e16732
--- /dev/null
+++ b/cv/verif_on.go
@@ -0,0 +1,49 @@
+//go:build verif
+
+package cv
+
+import (
+	"sync"
+
+	"github.com/rmera/boo"
+)
+
+// VerifEvent is a step of a cross-validation evaluation, for verification.
+type VerifEvent struct {
+	ID    int
+	End   bool
+	Conc  bool
+	NFold int
+	O     *boo.Options //a copy of the options evaluated, taken when the evaluation starts
+	Acc   float64
+	Err   error
+}
+
+// VerifHook, if not nil, is called with each event, one at a time, in order.
+var VerifHook func(VerifEvent)
+
+var verifMu sync.Mutex
+var verifID int
+
+func verifBegin(opts *Options, nfold int) int {
+	verifMu.Lock()
+	defer verifMu.Unlock()
+	verifID++
+	if VerifHook != nil {
+		var o *boo.Options
+		if opts.O != nil {
+			oc := *opts.O
+			o = &oc
+		}
+		VerifHook(VerifEvent{ID: verifID, Conc: opts.Conc, NFold: nfold, O: o})
+	}
+	return verifID
+}
+
+func verifEnd(id int, acc float64, err error) {
+	verifMu.Lock()
+	defer verifMu.Unlock()
+	if VerifHook != nil {
+		VerifHook(VerifEvent{ID: id, End: true, Acc: acc, Err: err})
+	}
+}
-- 
2.43.0


From f84371b0f08d4b84248d16b39e6965a87745c41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:48 +0000
Subject: [PATCH 38/51] fix: Accuracy can be called concurrently on the same
 model

---
 multiclass.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/multiclass.go b/multiclass.go
index adaf92a..033e2f3 100644
--- a/multiclass.go
+++ b/multiclass.go
@@ -18,7 +18,6 @@ type MultiClass struct {
 	classLabels   []int
 	probTransform func(*mat.Dense, *mat.Dense) *mat.Dense
 	tmp           []float64
-	predtmp       []float64
 	baseScore     float64
 	xgb           bool
 }
@@ -35,11 +34,12 @@ func (M *MultiClass) Accuracy(D *utils.DataBunch, classes ...int) float64 {
 	right := 0
 	instances := D.Data
 	actualclasses := D.Labels
-	if len(classes) > 0 && classes[0] > 0 && len(M.predtmp) < classes[0] {
-		M.predtmp = make([]float64, classes[0])
+	var predtmp []float64 //not in M, several goroutines could be using the same model.
+	if len(classes) > 0 && classes[0] > 0 {
+		predtmp = make([]float64, classes[0])
 	}
 	for i, v := range instances {
-		p := M.PredictSingleClass(v, M.predtmp)
+		p := M.PredictSingleClass(v, predtmp)
 		if M.classLabels[p] == actualclasses[i] {
 			right++
 		}
-- 
2.43.0


From 50d71d10ab9409a4ed6ac0f4db503815c9d4ad26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:49 +0000
Subject: [PATCH 39/51] fix: the kind of an ensemble without trees is kept in
 its file

---
 xjson.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xjson.go b/xjson.go
index 8a67f27..7d1f49b 100644
--- a/xjson.go
+++ b/xjson.go
@@ -53,6 +53,7 @@ func UnJSONMultiClass(r *bufio.Reader) (*MultiClass, error) {
 		return nil, fmt.Errorf("Unknown activation function: %s", jmc.ProbTransformName)
 	}
 	ret.baseScore = jmc.BaseScore
+	ret.xgb = jmc.XGB
 	//I'm not sure this will work!
 	//	s, err = r.ReadString('\n')
 	//	if err != nil {
@@ -160,6 +161,7 @@ type JSONMetaData struct {
 	ClassLabels       []int
 	ProbTransformName string
 	BaseScore         float64
+	XGB               bool
 }
 
 func MarshalMCMetaData(m *MultiClass, probtransformname string) ([]byte, error) {
@@ -168,6 +170,7 @@ func MarshalMCMetaData(m *MultiClass, probtransformname string) ([]byte, error)
 		ClassLabels:       m.classLabels,
 		ProbTransformName: probtransformname,
 		BaseScore:         m.baseScore,
+		XGB:               m.xgb,
 	}
 	j, err := json.Marshal(r)
 	if err != nil {
-- 
2.43.0


From 8655af15c7563c7bff3b2b6dac28f216a0c7acfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:20 +0000
Subject: [PATCH 40/51] verif: a gate to order the end of concurrent
 evaluations (build tag verif)

---
 cv/verif_on.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cv/verif_on.go b/cv/verif_on.go
index 5e16732..667fab9 100644
--- a/cv/verif_on.go
+++ b/cv/verif_on.go
@@ -22,6 +22,10 @@ type VerifEvent struct {
 // VerifHook, if not nil, is called with each event, one at a time, in order.
 var VerifHook func(VerifEvent)
 
+// VerifGate, if not nil, is called (without any lock held) just before an evaluation ends. It
+// can block, to choose the order in which concurrent evaluations finish.
+var VerifGate func(id int)
+
 var verifMu sync.Mutex
 var verifID int
 
@@ -41,6 +45,9 @@ func verifBegin(opts *Options, nfold int) int {
 }
 
 func verifEnd(id int, acc float64, err error) {
+	if VerifGate != nil {
+		VerifGate(id)
+	}
 	verifMu.Lock()
 	defer verifMu.Unlock()
 	if VerifHook != nil {
-- 
2.43.0


From 938c777a44dde65e0e5fe286a1ee6cffedfe7b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:58 +0000
Subject: [PATCH 41/51] fix: label names from files with CRLF line ends don't
 keep the carriage return

---
 confu/confu.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/confu/confu.go b/confu/confu.go
index 7b96479..657f979 100644
--- a/confu/confu.go
+++ b/confu/confu.go
@@ -45,7 +45,7 @@ func ReadNameMap(filename string, separator ...string) (map[int]string, error) {
 	ret := make(map[int]string)
 	//the last line might not end in a newline
 	for s, rerr = fin.ReadString('\n'); rerr == nil || s != ""; s, rerr = fin.ReadString('\n') {
-		s := strings.Replace(s, "\n", "", -1)
+		s := strings.TrimRight(s, "\r\n")
 		if strings.TrimSpace(s) == "" {
 			continue
 		}
-- 
2.43.0


From 2a84e1b4e100f6c5a8c28139bbb1f3fcd626d912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:26 +0000
Subject: [PATCH 42/51] fix: column helpers and ToOnes work on matrix views
 (stride larger than the columns)

---
 utils/math.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/utils/math.go b/utils/math.go
index f650d45..96e12f9 100644
--- a/utils/math.go
+++ b/utils/math.go
@@ -109,7 +109,7 @@ func DenseCol(D *mat.Dense, col int) *mat.Dense {
 	}
 	data := raw.Data
 	newcol := make([]float64, 0, r)
-	for i := col; i < len(data); i += c {
+	for i := col; i < len(data); i += raw.Stride {
 		newcol = append(newcol, data[i])
 	}
 	return mat.NewDense(1, len(newcol), newcol)
@@ -129,7 +129,7 @@ func AddToCol(D *mat.Dense, s []float64, col int) {
 	}
 	data := raw.Data
 	cont := 0
-	for i := col; i < len(data); i += c {
+	for i := col; i < len(data); i += raw.Stride {
 		data[i] += s[cont]
 		cont++
 	}
@@ -138,8 +138,11 @@ func AddToCol(D *mat.Dense, s []float64, col int) {
 
 // Sets all entries of m to 1.0
 func ToOnes(m *mat.Dense) {
-	rm := m.RawMatrix().Data
-	for i := range rm {
-		rm[i] = 1.0
+	r, _ := m.Dims()
+	for i := 0; i < r; i++ {
+		row := m.RawRowView(i)
+		for j := range row {
+			row[j] = 1.0
+		}
 	}
 }
-- 
2.43.0


From 0e2aa90f35b851ef530ab7d5cc2637f08a470492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:27 +0000
Subject: [PATCH 43/51] fix: MemArgSort with buffers longer than the slice
 sorts only the slice

---
 utils/math.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/math.go b/utils/math.go
index 96e12f9..1c4f2c1 100644
--- a/utils/math.go
+++ b/utils/math.go
@@ -56,7 +56,7 @@ func MemArgSort(target []float64, tmpint []int, tmpval []float64) ([]int, []floa
 		tmpint[i] = i // = append(in, i)
 		tmpval[i] = v // = append(val, v)
 	}
-	r := &idSorter{i: tmpint, a: tmpval}
+	r := &idSorter{i: tmpint[:len(target)], a: tmpval[:len(target)]}
 	sort.Sort(r)
 	return r.i, r.a
 }
-- 
2.43.0


From 0e91dc6b6c511301c8159122a0382af8d4b704c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:38 +0000
Subject: [PATCH 44/51] fix: searches miss the last value of a range because of
 rounding, and never end without a step

---
 cv/cv.go     | 33 +++++++++++++++++++++++++--------
 cv/grad.go   |  4 ++--
 cv/hybrid.go |  8 ++++----
 3 files changed, 31 insertions(+), 14 deletions(-)

diff --git a/cv/cv.go b/cv/cv.go
index 679d2a8..4e89f39 100644
--- a/cv/cv.go
+++ b/cv/cv.go
@@ -157,6 +157,23 @@ type Options struct {
 	Err   chan error
 }
 
+// Returns the values from the first to the last (both included) elements of lims, in steps of the third.
+// If there is no step, only the first value is returned.
+func values[T int | float64](lims [3]T) []T {
+	var ret []T
+	for i := 0; ; i++ {
+		v := lims[0] + T(i)*lims[2]
+		if float64(v) > float64(lims[1])+1e-9*float64(lims[2]) { //the last value could be missed because of rounding
+			break
+		}
+		ret = append(ret, min(v, lims[1]))
+		if lims[2] <= 0 {
+			break
+		}
+	}
+	return ret
+}
+
 // Runs a nfold-cross-validation-based grid search for best hyperparameters within the search space limited by options.
 func Grid(data *utils.DataBunch, nfold int, options ...*GridOptions) (float64, []float64, *boo.Options, error) {
 	var o *GridOptions
@@ -191,17 +208,17 @@ func Grid(data *utils.DataBunch, nfold int, options ...*GridOptions) (float64, [
 		cpus = 0
 		return err
 	}
-	for rounds := o.Rounds[0]; rounds <= o.Rounds[1]; rounds += o.Rounds[2] {
-		for cw := o.MinChildWeight[0]; cw <= o.MinChildWeight[1]; cw += o.MinChildWeight[2] {
+	for _, rounds := range values(o.Rounds) {
+		for _, cw := range values(o.MinChildWeight) {
 			if o.Verbose {
 				fmt.Println("Rounds: ", rounds, "MinChildWeight:", cw)
 			}
-			for md := o.MaxDepth[0]; md <= o.MaxDepth[1]; md += o.MaxDepth[2] {
-				for css := o.ColSubSample[0]; css <= o.ColSubSample[1]; css += o.ColSubSample[2] {
-					for lr := o.LearningRate[0]; lr <= o.LearningRate[1]; lr += o.LearningRate[2] {
-						for lam := o.Lambda[0]; lam <= o.Lambda[1]; lam += o.Lambda[2] {
-							for gam := o.Gamma[0]; gam <= o.Gamma[1]; gam += o.Gamma[2] {
-								for ss := o.SubSample[0]; ss <= o.SubSample[1]; ss += o.SubSample[2] {
+			for _, md := range values(o.MaxDepth) {
+				for _, css := range values(o.ColSubSample) {
+					for _, lr := range values(o.LearningRate) {
+						for _, lam := range values(o.Lambda) {
+							for _, gam := range values(o.Gamma) {
+								for _, ss := range values(o.SubSample) {
 
 									t := defaultoptions()
 									t.ColSubSample = css
diff --git a/cv/grad.go b/cv/grad.go
index 041f9be..97539ca 100644
--- a/cv/grad.go
+++ b/cv/grad.go
@@ -239,11 +239,11 @@ func GradientGrid(data *utils.DataBunch, nfold int, options ...*GridOptions) (fl
 	var accuracies []float64
 	//A bit less hellish than the other function
 	bestacc := 0.0
-	for cw := o.MinChildWeight[0]; cw <= o.MinChildWeight[1]; cw += o.MinChildWeight[2] {
+	for _, cw := range values(o.MinChildWeight) {
 		if o.Verbose {
 			fmt.Println("ChildrenWeight:", cw)
 		}
-		for md := o.MaxDepth[0]; md <= o.MaxDepth[1]; md += o.MaxDepth[2] {
+		for _, md := range values(o.MaxDepth) {
 			t := defaultoptions()
 			t = setSomeOptionsToMid(t, o)
 			t.MaxDepth = md
diff --git a/cv/hybrid.go b/cv/hybrid.go
index 320ffc2..4d8e3c8 100644
--- a/cv/hybrid.go
+++ b/cv/hybrid.go
@@ -23,13 +23,13 @@ func HybridGradientGrid(data *utils.DataBunch, nfold int, options ...*GridOption
 	var accuracies []float64
 	//A bit less hellish than the other function
 	bestacc := 0.0
-	for rounds := o.Rounds[0]; rounds <= o.Rounds[1]; rounds += o.Rounds[2] {
-		for cw := o.MinChildWeight[0]; cw <= o.MinChildWeight[1]; cw += o.MinChildWeight[2] {
+	for _, rounds := range values(o.Rounds) {
+		for _, cw := range values(o.MinChildWeight) {
 			if o.Verbose {
 				fmt.Println("Rounds: ", rounds, "MinChildWeight:", cw)
 			}
-			for md := o.MaxDepth[0]; md <= o.MaxDepth[1]; md += o.MaxDepth[2] {
-				for lam := o.Lambda[0]; lam <= o.Lambda[1]; lam += o.Lambda[2] {
+			for _, md := range values(o.MaxDepth) {
+				for _, lam := range values(o.Lambda) {
 					o2 := o.Clone()
 					or := o.Rounds
 					cr := int(float64(or[2]) * 0.1)
-- 
2.43.0


From 74bfdda93670a2e010018e18c037c00936acd1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:44 +0000
Subject: [PATCH 45/51] fix: losses and hessian of matrices that are views of
 larger ones

---
 utils/loss_acti.go | 25 ++++---------------------
 1 file changed, 4 insertions(+), 21 deletions(-)

diff --git a/utils/loss_acti.go b/utils/loss_acti.go
index 840b76d..85223b4 100644
--- a/utils/loss_acti.go
+++ b/utils/loss_acti.go
@@ -96,14 +96,7 @@ func (sq *SQErrLoss) Loss(y, pred, loss *mat.Dense) float64 {
 	}
 	loss.Sub(y, pred)
 	loss.MulElem(loss, loss)
-	m := loss.RawMatrix().Data
-	l := 0.0
-	n := 0
-	for _, v := range m {
-		l += v
-		n++
-	}
-	return l / float64(n)
+	return mat.Sum(loss) / float64(r*c) //loss could be a view of a larger matrix
 
 }
 
@@ -150,14 +143,7 @@ func (mse *MSELoss) Loss(y, pred, loss *mat.Dense) float64 {
 	}
 	loss.Sub(y, pred)
 	loss.MulElem(loss, loss)
-	m := loss.RawMatrix().Data
-	l := 0.0
-	n := 0
-	for _, v := range m {
-		l += v
-		n++
-	}
-	return l / float64(n)
+	return mat.Sum(loss) / float64(r*c) //loss could be a view of a larger matrix
 
 }
 
@@ -193,10 +179,7 @@ func (m *MSELoss) Hessian(probabilities, hessian *mat.Dense) *mat.Dense {
 		hessian = mat.NewDense(r, c, nil)
 	}
 
-	probraw := probabilities.RawMatrix().Data
-	hraw := hessian.RawMatrix().Data
-	for i, v := range probraw {
-		hraw[i] = (1 - v) * v
-	}
+	//either matrix could be a view of a larger one
+	hessian.Apply(func(_, _ int, v float64) float64 { return (1 - v) * v }, probabilities)
 	return hessian
 }
-- 
2.43.0


From 6c758559e2ec5c5909f476f0c2217541b92d1d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:58 +0000
Subject: [PATCH 46/51] fix: trees with neither curvature nor regularization
 gave NaN models

With MSELoss, Lambda 0 and enough rounds the hessians of saturated
probabilities vanish, and leaf values and gains were 0/0 or x/0.
---
 tree.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/tree.go b/tree.go
index a52e0c1..0b297c6 100644
--- a/tree.go
+++ b/tree.go
@@ -117,7 +117,7 @@ func NewTree(X [][]float64, o *TreeOptions) *Tree {
 	ret.hess = o.Hessian
 	ret.y = o.Y
 	if ret.xgb {
-		ret.value = -1 * floats.Sum(utils.SampleSlice(ret.grads, o.Indexes)) / (floats.Sum(utils.SampleSlice(ret.hess, o.Indexes)) + o.Lambda) //eq 5
+		ret.value = -1 * ratio(floats.Sum(utils.SampleSlice(ret.grads, o.Indexes)), floats.Sum(utils.SampleSlice(ret.hess, o.Indexes))+o.Lambda) //eq 5
 		ret.bestScoreSoFar = 0.0
 	} else {
 		ret.bestScoreSoFar = math.Inf(1)
@@ -139,6 +139,15 @@ func NewTree(X [][]float64, o *TreeOptions) *Tree {
 	return ret
 }
 
+// Returns a/b, or zero if b is zero: with neither curvature nor
+// regularization, a node has no weight, as in xgboost.
+func ratio(a, b float64) float64 {
+	if b == 0 {
+		return 0
+	}
+	return a / b
+}
+
 func (T *Tree) maybeInsertChildNode(o *TreeOptions) {
 	for i := 0; i < T.features; i++ {
 		if len(o.AllowedColumns) != 0 && !slices.Contains(o.AllowedColumns, i) {
@@ -229,7 +238,7 @@ func (T *Tree) findBetterSplit(featureIndex int, o *TreeOptions) {
 			if nright < int(o.MinChildWeight) {
 				break
 			}
-			gain = 0.5*((sq(sumgLeft)/(sumhLeft+o.Lambda))+(sq(sumgRight)/(sumhRight+o.Lambda))-(sq(sumg)/(sumh+o.Lambda))) - (o.Gamma / 2) // Eq(7) in the xgboost paper
+			gain = 0.5*(ratio(sq(sumgLeft), sumhLeft+o.Lambda)+ratio(sq(sumgRight), sumhRight+o.Lambda)-ratio(sq(sumg), sumh+o.Lambda)) - (o.Gamma / 2) // Eq(7) in the xgboost paper
 			//in eq 7 ,gamma is NOT divided by 2. Check!
 			criterion = func() bool { return gain > T.bestScoreSoFar }
 
-- 
2.43.0


From 3e569f802738b1ee54fb9c9ce751483478434297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:58 +0000
Subject: [PATCH 47/51] fix: gradient steps and failed grid searches left
 evaluations running

They kept reading the data after the search had returned.
---
 cv/cv.go   |  8 +++++++-
 cv/grad.go | 27 ++++++++++++++-------------
 2 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/cv/cv.go b/cv/cv.go
index 4e89f39..c625f54 100644
--- a/cv/cv.go
+++ b/cv/cv.go
@@ -263,10 +263,16 @@ func rescueConcValues(errors []chan error, accs []chan float64, opts []chan *boo
 	var tmpop *boo.Options
 	for i, v := range errors {
 		err = <-v
+		tmpacc = <-accs[i]
 		if err != nil {
+			<-opts[i]
+			for j := i + 1; j < len(errors); j++ { //we wait for the others, so nothing is left running.
+				<-errors[j]
+				<-accs[j]
+				<-opts[j]
+			}
 			return -1, nil, nil, err
 		}
-		tmpacc = <-accs[i]
 		if tmpacc < 0 {
 			return -1, nil, nil, fmt.Errorf("grads zero") //not a real error, just that the optimizatio is over.
 		}
diff --git a/cv/grad.go b/cv/grad.go
index 97539ca..e93be15 100644
--- a/cv/grad.go
+++ b/cv/grad.go
@@ -91,6 +91,11 @@ func ParamaterGradStep(D *utils.DataBunch, Op *boo.Options, CVO *GridOptions, pa
 
 	f["Rounds"] = [2]myf{func(o *boo.Options) *boo.Options { o.Rounds -= int(float64(o.Rounds) * fd); return o }, func(o *boo.Options) *boo.Options { o.Rounds += int(float64(o.Rounds) * fd); return o }}
 
+	mO := f[param][0](O.Clone())
+	if central && mO.Check() != nil {
+		out <- O
+		return
+	}
 	pO := f[param][1](O.Clone())
 	//the channels are buffered so no goroutine is left blocked if we return early.
 	pluserr := make(chan error, 1)
@@ -104,11 +109,6 @@ func ParamaterGradStep(D *utils.DataBunch, Op *boo.Options, CVO *GridOptions, pa
 	var minacc chan float64
 
 	if central {
-		mO := f[param][0](O.Clone())
-		if mO.Check() != nil {
-			out <- O
-			return
-		}
 		minerr = make(chan error, 1)
 		mino = make(chan *boo.Options, 1)
 		minacc = make(chan float64, 1)
@@ -118,8 +118,16 @@ func ParamaterGradStep(D *utils.DataBunch, Op *boo.Options, CVO *GridOptions, pa
 
 	err := <-pluserr
 	pacc := <-plusacc
-	var der float64
+	var der, macc float64
 	_ = <-pluso
+	if central { //always waited for, so nothing is left running when we return.
+		merr := <-minerr
+		macc = <-minacc
+		_ = <-mino
+		if err == nil {
+			err = merr
+		}
+	}
 	if err != nil {
 		out <- O
 		return
@@ -132,13 +140,6 @@ func ParamaterGradStep(D *utils.DataBunch, Op *boo.Options, CVO *GridOptions, pa
 		}
 		der = (pacc - currentAccuracy) / h
 	} else {
-		err = <-minerr
-		macc := <-minacc
-		_ = <-mino
-		if err != nil {
-			out <- O
-			return
-		}
 		der = (pacc - macc) / 2 * h
 	}
 	prev := O.Clone()
-- 
2.43.0


From 8ce9fb8dd5a6fd8b23f735e28f35dc7e6075caf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:58 +0000
Subject: [PATCH 48/51] fix: printing a tree with fewer names than features
 panicked

---
 tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree.go b/tree.go
index 0b297c6..4156693 100644
--- a/tree.go
+++ b/tree.go
@@ -315,7 +315,7 @@ func (T *Tree) PredictSingle(row []float64) float64 {
 // If given the featurenames, returns the name of the split feature for the node. If not,
 // returns the zero-based index for the split feature.
 func (T *Tree) feature(featurenames []string) string {
-	if featurenames == nil && len(featurenames) <= T.splitFeatureIndex {
+	if len(featurenames) <= T.splitFeatureIndex {
 		return fmt.Sprintf("%2d", T.splitFeatureIndex)
 	}
 	return featurenames[T.splitFeatureIndex]
-- 
2.43.0


From 2e920d94fea66f943243ab4b0163391f6abd680b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:11 +0000
Subject: [PATCH 49/51] fix: SoftMax counted what was left in a buffer longer
 than its input

---
 utils/loss_acti.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/loss_acti.go b/utils/loss_acti.go
index 85223b4..e0e7510 100644
--- a/utils/loss_acti.go
+++ b/utils/loss_acti.go
@@ -44,7 +44,7 @@ func SoftMax(p, probs []float64) []float64 {
 	for i, v := range p {
 		probs[i] = math.Exp(v - max) //the result is the same as with exp(v), but it can't overflow
 	}
-	den := floats.Sum(probs)
+	den := floats.Sum(probs[:len(p)]) //probs could be longer than needed
 	for i := range p {
 		probs[i] /= den
 	}
-- 
2.43.0


From 1f043a01a54d2f33d1bdae23afc62dbc84d38c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:14 +0000
Subject: [PATCH 50/51] fix: PrintTopN panicked when no confusions were asked
 for

---
 confu/confu.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/confu/confu.go b/confu/confu.go
index 657f979..89d8607 100644
--- a/confu/confu.go
+++ b/confu/confu.go
@@ -130,7 +130,7 @@ func (C *Confusions) PrintTopN(N int, m map[int]string) string {
 	ret := make([]string, 1, len(m)+1)
 	ret[0] = "Confusions:"
 	for i, v := range r {
-		str := make([]string, 1, N)
+		str := make([]string, 1, N+1)
 		sum := 0
 		for _, w := range rf[i] {
 			sum += w
-- 
2.43.0


From f43fca78eab42513a55eb38e3b6ad765c57bf0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:06 +0000
Subject: [PATCH 51/51] fix: gradient searches of regular boosting never made a
 step, as its default options were not valid

---
 options.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/options.go b/options.go
index 4effac5..cc18fbb 100644
--- a/options.go
+++ b/options.go
@@ -129,6 +129,7 @@ func DefaultGOptions() *Options {
 	O.MaxDepth = 4
 	O.LearningRate = 0.1
 	O.MinChildWeight = 3
+	O.MinSample = 1 //less is not valid, and gradient searches reject it.
 	O.Loss = &utils.MSELoss{}
 
 	return O
-- 
2.43.0

