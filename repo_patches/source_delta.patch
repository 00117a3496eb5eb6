From 24a30f0ffe6c675f2db355f0ded7ab79ebbc7f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:13 +0000
Subject: [PATCH 01/62] fix: do not write the shared output-key cache while
 scoring a tree

Concurrent Evaluate calls on one TreeModel raced on (and could crash with)
the lazily filled outKeys map. Fill it at compile time instead.
---
 evaluation/tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index 7ea71fb..7c52c33 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -473,6 +473,7 @@ func newNode(m *TreeModel, modelNode models.Node) (node, error) {
 			recordCount: float64(sc.RecordCount),
 			value:       sc.Value,
 		})
+		m.outKeys[sc.Value] = fmt.Sprintf("probability(%s)", sc.Value)
 	}
 
 	n.score = score
@@ -737,7 +738,6 @@ func (m *TreeModel) Evaluate(input DataRow) (DataRow, error) {
 				key, ok := m.outKeys[score.value]
 				if !ok {
 					key = fmt.Sprintf("probability(%s)", score.value)
-					m.outKeys[score.value] = key
 				}
 
 				out[key] = NewValue(score.probability)
-- 
2.43.0


From d83187493d436f507d557f69145efec0a7c307a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:14 +0000
Subject: [PATCH 02/62] fix: no panic when a tree ends without a score

A regression tree whose mining schema declares the target took the
classification one-hot path and ended with no scores, and
returnNullPrediction ends with no scores by design; both indexed an empty
slice. Keep the one-hot path to classification and return no prediction
when there is none.
---
 evaluation/tree.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index 7c52c33..84a5b12 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -108,7 +108,7 @@ func (n node) outputScoreDist() []scoreDist {
 
 	sd := make([]scoreDist, 0, 0)
 
-	if n.m.targetField != "" {
+	if n.m.targetField != "" && n.m.model.FunctionName == models.MiningFunctionClassification {
 		for _, field := range n.m.dd.DataFields {
 			if field.Name == n.m.targetField {
 				for _, val := range field.Values {
@@ -728,7 +728,7 @@ func (m *TreeModel) Evaluate(input DataRow) (DataRow, error) {
 
 	scores, result := m.root.evaluate(input)
 
-	if result == t {
+	if result == t && len(scores) > 0 {
 		best := pickBest(scores)
 		out := make(DataRow)
 
-- 
2.43.0


From 75acfb9313d81ea6e4880cb5a4460ce517d8795f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:33 +0000
Subject: [PATCH 03/62] fix: a scored node predicts its score when the classes
 are not listed

A classification node with a score but without ScoreDistribution predicted
the empty label with no probabilities when the target's data field lists
no values; its own score now has probability 1.
---
 evaluation/tree.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index 84a5b12..b182700 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -120,8 +120,10 @@ func (n node) outputScoreDist() []scoreDist {
 				}
 			}
 		}
-	} else {
-		sd = append(sd, n.score)
+	}
+
+	if len(sd) == 0 && n.score.value != "" {
+		sd = append(sd, scoreDist{n.score.value, 1.0, 1.0, n.score.recordCount})
 	}
 
 	return sd
-- 
2.43.0


From 82241944c6103eca3067d5c007e3f29c0a400075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:34 +0000
Subject: [PATCH 04/62] fix: reject a tree node without a predicate instead of
 panicking

Evaluate called a nil predicate function for such a node.
---
 evaluation/tree.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index b182700..2812d2c 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -510,6 +510,8 @@ func newNode(m *TreeModel, modelNode models.Node) (node, error) {
 		n.test = func(input DataRow) predicateResult {
 			return f
 		}
+	default:
+		return n, fmt.Errorf("node %s has no supported predicate", modelNode.ID)
 	}
 
 	return n, nil
-- 
2.43.0


From 5b284d65e4bb30664be26ab19ec96f375885a068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:35 +0000
Subject: [PATCH 05/62] fix: isMissing and isNotMissing predicates need no
 value

They carry no value attribute, and compiling one on a numeric or boolean
field failed on parsing the empty value.
---
 evaluation/tree.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index 2812d2c..55ed687 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -422,6 +422,11 @@ func compilePredicate(m *TreeModel, pi models.Predicate) error {
 			return fmt.Errorf("unknown field type for %s", p.Field)
 		}
 
+		if p.Operator == models.SimplePredicateOperatorIsMissing || p.Operator == models.SimplePredicateOperatorIsNotMissing {
+			p.RawPredicateValue = p.Value
+			return nil
+		}
+
 		pv, err := getRawValue(predicateValueType, p.Value)
 		if err != nil {
 			return err
-- 
2.43.0


From 506aee8d92087f3382b72334ab89375acffcbd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:36 +0000
Subject: [PATCH 06/62] fix: a nil-valued field is missing in predicates

Derived fields and callers represent a missing value by nil; predicates
compared it as if it were present.
---
 evaluation/tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index 55ed687..70ac980 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -534,7 +534,7 @@ func evaluateSimplePredicate(p *models.SimplePredicate, input DataRow, fieldType
 	}
 
 	val, ok := input[string(p.Field)]
-	if !ok {
+	if !ok || val.Raw() == nil {
 		if p.Operator == models.SimplePredicateOperatorIsMissing {
 			return t
 		}
-- 
2.43.0


From 108823146b63f42fca9f3b49d71c106d2ad6a35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:05 +0000
Subject: [PATCH 07/62] fix: compare predicate values independently of the Go
 type supplied

equal and notEqual compared interface values, so an int 75 never equalled
75 in a double field and strings (as Verify supplies) never equalled any
number; Int64 returned 0 for floats and strings, Bool false for "true",
and Float64 turned large unsigned values negative.
---
 evaluation/miningschema.go | 25 +++++++++++++++++++++++++
 evaluation/tree.go         | 20 ++++++++++++++++++--
 2 files changed, 43 insertions(+), 2 deletions(-)

diff --git a/evaluation/miningschema.go b/evaluation/miningschema.go
index 7ea215e..c52696f 100644
--- a/evaluation/miningschema.go
+++ b/evaluation/miningschema.go
@@ -50,10 +50,22 @@ func (v Value) Float64() float64 {
 		return f
 	}
 
+	if f, ok := v.val.(uint64); ok {
+		return float64(f)
+	}
+	if f, ok := v.val.(uint); ok {
+		return float64(f)
+	}
+
 	return float64(v.Int64())
 }
 
 func (v Value) Bool() bool {
+	if s, ok := v.val.(string); ok {
+		b, err := strconv.ParseBool(s)
+		return err == nil && b
+	}
+
 	b, ok := v.val.(bool)
 	if !ok {
 		return false
@@ -95,6 +107,19 @@ func (v Value) Int64() int64 {
 		return int64(f)
 	}
 
+	if f, ok := v.val.(float64); ok {
+		return int64(f)
+	}
+	if f, ok := v.val.(float32); ok {
+		return int64(f)
+	}
+	if s, ok := v.val.(string); ok {
+		if i, err := strconv.ParseInt(s, 10, 64); err == nil {
+			return i
+		}
+		return int64(v.Float64())
+	}
+
 	return 0
 }
 
diff --git a/evaluation/tree.go b/evaluation/tree.go
index 70ac980..bd304f5 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -522,6 +522,22 @@ func newNode(m *TreeModel, modelNode models.Node) (node, error) {
 	return n, nil
 }
 
+// equalsRaw compares an input value with a predicate's value in the type of the latter.
+func equalsRaw(val Value, raw interface{}) bool {
+	switch r := raw.(type) {
+	case float64:
+		return val.Float64() == r
+	case int64:
+		return val.Int64() == r
+	case bool:
+		return val.Bool() == r
+	case string:
+		return val.String() == r
+	}
+
+	return false
+}
+
 //nolint:gocyclo
 func evaluateSimplePredicate(p *models.SimplePredicate, input DataRow, fieldTypes map[models.FieldName]models.DataType) predicateResult {
 	predicateValueType, ok := fieldTypes[p.Field]
@@ -546,11 +562,11 @@ func evaluateSimplePredicate(p *models.SimplePredicate, input DataRow, fieldType
 	case models.SimplePredicateOperatorIsNotMissing:
 		return t
 	case models.SimplePredicateOperatorEqual:
-		if val.Raw() == p.RawPredicateValue {
+		if equalsRaw(val, p.RawPredicateValue) {
 			return t
 		}
 	case models.SimplePredicateOperatorNotEqual:
-		if val.Raw() != p.RawPredicateValue {
+		if !equalsRaw(val, p.RawPredicateValue) {
 			return t
 		}
 	case models.SimplePredicateOperatorGreaterOrEqual:
-- 
2.43.0


From e2b58883fc6a6abd87c861e83a4ff757d18160bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:06 +0000
Subject: [PATCH 08/62] fix: True and False inside a CompoundPredicate are not
 unknown

---
 evaluation/tree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index bd304f5..36e89e0 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -653,6 +653,10 @@ func evaluateCompoundPredicate(p *models.CompoundPredicate, input DataRow, field
 			val = evaluateCompoundPredicate(c, input, fieldTypes)
 		case *models.SimpleSetPredicate:
 			val = evaluateSimpleSetPredicate(c, input, fieldTypes)
+		case *models.True:
+			val = t
+		case *models.False:
+			val = f
 		}
 
 		if surrogate && val != u {
-- 
2.43.0


From bc0285d60e58994e589c114abf0e68b9931f07e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:53 +0000
Subject: [PATCH 09/62] fix: missing-value strategies follow the first true
 child at every depth

lastPrediction, defaultChild, weightedConfidence and aggregateNodes took
the last true child, let an unknown sibling after a true one trigger the
strategy, and reported true for a node whose own predicate is unknown, so
trees deeper than one level were mis-scored. lastPrediction gave nothing
instead of the last winner when noTrueChildStrategy is
returnNullPrediction, and defaultChild gave nothing when the default
child's own predicate is false.
---
 evaluation/tree.go | 43 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 36 insertions(+), 7 deletions(-)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index 36e89e0..3a02b3d 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -102,6 +102,10 @@ func (n node) outputScoreDist() []scoreDist {
 		return nil
 	}
 
+	return n.ownScoreDist()
+}
+
+func (n node) ownScoreDist() []scoreDist {
 	if len(n.scoreDist) > 0 {
 		return n.scoreDist
 	}
@@ -150,7 +154,7 @@ func (n node) evaluateMissingValueStrategyNone(input DataRow) ([]scoreDist, pred
 func (n node) evaluateMissingValueStrategyLastPrediction(input DataRow) ([]scoreDist, predicateResult) {
 	result := n.test(input)
 
-	if result == f {
+	if result != t {
 		return emptyScoreDist, result
 	}
 
@@ -162,13 +166,19 @@ func (n node) evaluateMissingValueStrategyLastPrediction(input DataRow) ([]score
 
 		if childResult == u {
 			unknownValues = true
+			break
 		}
 
 		if childResult == t {
 			trueDist = score
+			break
 		}
 	}
 
+	if unknownValues {
+		return n.ownScoreDist(), t
+	}
+
 	if !unknownValues && len(trueDist) != 0 {
 		return trueDist, t
 	}
@@ -179,24 +189,24 @@ func (n node) evaluateMissingValueStrategyLastPrediction(input DataRow) ([]score
 func (n node) evaluateMissingValueStrategyDefaultChild(input DataRow) ([]scoreDist, predicateResult) {
 	result := n.test(input)
 
-	if result == f {
+	if result != t {
 		return emptyScoreDist, result
 	}
 
-	childScores := make(map[string][]scoreDist)
 	unknownValues := false
 	var trueDist []scoreDist
 
 	for _, c := range n.children {
 		score, childResult := c.evaluateMissingValueStrategyDefaultChild(input)
-		childScores[c.id] = score
 
 		if childResult == u {
 			unknownValues = true
+			break
 		}
 
 		if childResult == t {
 			trueDist = score
+			break
 		}
 	}
 
@@ -205,7 +215,7 @@ func (n node) evaluateMissingValueStrategyDefaultChild(input DataRow) ([]scoreDi
 	}
 
 	if unknownValues {
-		defaultScores, ok := childScores[n.defaultChild]
+		defaultScores, ok := n.evaluateDefaultChild(input)
 		if !ok {
 			return emptyScoreDist, u
 		}
@@ -224,6 +234,19 @@ func (n node) evaluateMissingValueStrategyDefaultChild(input DataRow) ([]scoreDi
 	return n.outputScoreDist(), result
 }
 
+// evaluateDefaultChild scores the default child as if its own predicate were true.
+func (n node) evaluateDefaultChild(input DataRow) ([]scoreDist, bool) {
+	for _, c := range n.children {
+		if c.id == n.defaultChild && c.id != "" {
+			c.test = func(DataRow) predicateResult { return t }
+			scores, _ := c.evaluateMissingValueStrategyDefaultChild(input)
+			return scores, true
+		}
+	}
+
+	return emptyScoreDist, false
+}
+
 func (n node) evaluateMissingValueStrategyNullPrediction(input DataRow) ([]scoreDist, predicateResult) {
 	result := n.test(input)
 
@@ -276,6 +299,9 @@ func (n node) evaluateMissingValueStrategyWeightedConfidence(input DataRow) ([]s
 			unknownValues = true
 		} else if childResult == t {
 			trueDist = scores
+			if !unknownValues {
+				break
+			}
 		}
 	}
 
@@ -307,7 +333,7 @@ func (n node) evaluateMissingValueStrategyWeightedConfidence(input DataRow) ([]s
 			aggScores = append(aggScores, aggScore)
 		}
 
-		return aggScores, t
+		return aggScores, result
 	}
 
 	return n.outputScoreDist(), result
@@ -332,6 +358,9 @@ func (n node) evaluateMissingValueStrategyAggregateNodes(input DataRow) ([]score
 			unknownValues = true
 		} else if childResult == t {
 			trueDist = score
+			if !unknownValues {
+				break
+			}
 		}
 	}
 
@@ -362,7 +391,7 @@ func (n node) evaluateMissingValueStrategyAggregateNodes(input DataRow) ([]score
 			aggScores = append(aggScores, aggScore)
 		}
 
-		return aggScores, t
+		return aggScores, result
 	}
 
 	return n.outputScoreDist(), result
-- 
2.43.0


From 1e2fa669f72663fa67af8c9303d00a71d5676068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:05 +0000
Subject: [PATCH 10/62] fix: weightedConfidence and aggregateNodes are
 deterministic

Children without ids overwrote each other, iteration order of maps decided
ties and rounding, and aggregateNodes counted children whose predicate is
false.
---
 evaluation/tree.go | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index 3a02b3d..eb5371a 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -282,16 +282,14 @@ func (n node) evaluateMissingValueStrategyWeightedConfidence(input DataRow) ([]s
 
 	unknownValues := false
 	var trueDist []scoreDist
-	childRecordCounts := make(map[string]float64)
-	childScores := make(map[string][]scoreDist)
+	childScores := make([][]scoreDist, len(n.children))
 	totalRecordCount := 0.0
 
-	for _, c := range n.children {
+	for i, c := range n.children {
 		scores, childResult := c.evaluateMissingValueStrategyWeightedConfidence(input)
 
 		if childResult != f {
-			childRecordCounts[c.id] = c.score.recordCount
-			childScores[c.id] = scores
+			childScores[i] = scores
 			totalRecordCount += c.score.recordCount
 		}
 
@@ -311,14 +309,16 @@ func (n node) evaluateMissingValueStrategyWeightedConfidence(input DataRow) ([]s
 
 	if unknownValues {
 		aggScoreMap := make(map[string]scoreDist)
+		var values []string
 
-		for nid, scores := range childScores {
+		for i, scores := range childScores {
 			for _, score := range scores {
 				aggScore, ok := aggScoreMap[score.value]
 				if !ok {
 					aggScore = scoreDist{value: score.value}
+					values = append(values, score.value)
 				}
-				nodeRecordCount := childRecordCounts[nid]
+				nodeRecordCount := n.children[i].score.recordCount
 
 				aggScore.recordCount += score.recordCount
 				aggScore.probability += score.probability * (nodeRecordCount / totalRecordCount)
@@ -329,7 +329,8 @@ func (n node) evaluateMissingValueStrategyWeightedConfidence(input DataRow) ([]s
 		}
 
 		aggScores := make([]scoreDist, 0, 0)
-		for _, aggScore := range aggScoreMap {
+		for _, value := range values {
+			aggScore := aggScoreMap[value]
 			aggScores = append(aggScores, aggScore)
 		}
 
@@ -352,7 +353,9 @@ func (n node) evaluateMissingValueStrategyAggregateNodes(input DataRow) ([]score
 
 	for _, c := range n.children {
 		score, childResult := c.evaluateMissingValueStrategyAggregateNodes(input)
-		childScores = append(childScores, score...)
+		if childResult != f {
+			childScores = append(childScores, score...)
+		}
 
 		if childResult == u {
 			unknownValues = true
@@ -370,6 +373,7 @@ func (n node) evaluateMissingValueStrategyAggregateNodes(input DataRow) ([]score
 
 	if unknownValues {
 		aggScoreMap := make(map[string]scoreDist)
+		var values []string
 
 		recordCount := 0.0
 		for _, sc := range childScores {
@@ -377,6 +381,7 @@ func (n node) evaluateMissingValueStrategyAggregateNodes(input DataRow) ([]score
 
 			if !ok {
 				aggScore.value = sc.value
+				values = append(values, sc.value)
 			}
 
 			aggScore.recordCount += sc.recordCount
@@ -385,7 +390,8 @@ func (n node) evaluateMissingValueStrategyAggregateNodes(input DataRow) ([]score
 		}
 
 		aggScores := make([]scoreDist, 0, 0)
-		for _, aggScore := range aggScoreMap {
+		for _, value := range values {
+			aggScore := aggScoreMap[value]
 			aggScore.probability = aggScore.recordCount / recordCount
 			aggScore.confidence = aggScore.recordCount / recordCount
 			aggScores = append(aggScores, aggScore)
-- 
2.43.0


From bfff776e6c73396c22a584f86963f2ef3d93baff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:06 +0000
Subject: [PATCH 11/62] fix: missingValuePenalty defaults to 1

An absent attribute was read as 0, which zeroed every probability after a
default child was taken and predicted the empty label.
---
 models/elements.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/models/elements.go b/models/elements.go
index 2d83fdd..91c7b6e 100644
--- a/models/elements.go
+++ b/models/elements.go
@@ -5544,6 +5544,15 @@ type TreeModel struct {
 	Targets              *Targets             `xml:"Targets"`
 }
 
+// UnmarshalXML implements the xml.Unmarshaler interface.
+func (x *TreeModel) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) error {
+	type treeModel TreeModel
+
+	x.MissingValuePenalty = 1.0
+
+	return decoder.DecodeElement((*treeModel)(x), &start)
+}
+
 func (*TreeModel) modelElement() {}
 
 /*
-- 
2.43.0


From f61ff68db3553ec34bbb429ba2e5fed48c36f4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:33 +0000
Subject: [PATCH 12/62] fix: compiling a model leaves the document unchanged
 and can be repeated

Compile appended a model's local transformations to the caller's
TransformationDictionary (leaking them to sibling segments, panicking on
nil) and appended the segment models again on every call, doubling sums.
---
 evaluation/mining.go         |  9 ++++-----
 evaluation/transformation.go | 13 +++++++++++++
 evaluation/tree.go           |  6 ++----
 3 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/evaluation/mining.go b/evaluation/mining.go
index c153732..22e32f8 100644
--- a/evaluation/mining.go
+++ b/evaluation/mining.go
@@ -88,21 +88,20 @@ func (m *MiningModel) Compile() error {
 		m.fieldTypes[df.Name] = df.DataType
 	}
 
-	for _, tf := range m.model.LocalTransformations.DerivedFields {
-		m.td.DerivedFields = append(m.td.DerivedFields, tf)
-	}
+	td := withLocalTransformations(m.td, &m.model.LocalTransformations)
 
-	for _, df := range m.td.DerivedFields {
+	for _, df := range td.DerivedFields {
 		m.fieldTypes[models.FieldName(df.Name)] = df.DataType
 	}
 
+	m.segmodels = nil
 	for _, seg := range m.model.Segmentation.Segments {
 		if len(seg.Models) != 1 {
 			return fmt.Errorf("unsupported single segment model group size %d", len(seg.Models))
 		}
 
 		segmdl := seg.Models[0]
-		mdl, err := NewModel(m.dd, m.td, segmdl)
+		mdl, err := NewModel(m.dd, td, segmdl)
 
 		if err != nil {
 			return err
diff --git a/evaluation/transformation.go b/evaluation/transformation.go
index 8e6bac5..4721fce 100644
--- a/evaluation/transformation.go
+++ b/evaluation/transformation.go
@@ -1 +1,14 @@
 package evaluation
+
+import "github.com/flukeish/pmml/models"
+
+// withLocalTransformations returns the transformations visible inside a model: the inherited ones and its own.
+func withLocalTransformations(td *models.TransformationDictionary, lt *models.LocalTransformations) *models.TransformationDictionary {
+	scoped := new(models.TransformationDictionary)
+	if td != nil {
+		scoped.DerivedFields = append(scoped.DerivedFields, td.DerivedFields...)
+	}
+	scoped.DerivedFields = append(scoped.DerivedFields, lt.DerivedFields...)
+
+	return scoped
+}
diff --git a/evaluation/tree.go b/evaluation/tree.go
index eb5371a..b425108 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -751,11 +751,9 @@ func (m *TreeModel) Compile() error {
 		m.fieldTypes[df.Name] = df.DataType
 	}
 
-	for _, tf := range m.model.LocalTransformations.DerivedFields {
-		m.td.DerivedFields = append(m.td.DerivedFields, tf)
-	}
+	td := withLocalTransformations(m.td, &m.model.LocalTransformations)
 
-	for _, df := range m.td.DerivedFields {
+	for _, df := range td.DerivedFields {
 		m.fieldTypes[models.FieldName(df.Name)] = df.DataType
 	}
 
-- 
2.43.0


From f049358483de3192d5860efed67efd612b1795c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:34 +0000
Subject: [PATCH 13/62] fix: scoring does not modify the caller's input row

Replaced missing values, derived fields and the outputs of chained
segments were written into the row passed to Evaluate, where a later
evaluation of the same row (or a concurrent one) picked them up.
---
 evaluation/input.go        | 2 ++
 evaluation/mining.go       | 2 ++
 evaluation/miningschema.go | 9 +++++++++
 3 files changed, 13 insertions(+)

diff --git a/evaluation/input.go b/evaluation/input.go
index e9f99b5..4d9592d 100644
--- a/evaluation/input.go
+++ b/evaluation/input.go
@@ -184,6 +184,8 @@ func HandleExpression(expr models.Expression, in DataRow, dd *models.DataDiction
 }
 
 func HandleInput(in DataRow, dd *models.DataDictionary, td *models.TransformationDictionary, lt *models.LocalTransformations, ms *models.MiningSchema) (DataRow, error) {
+	in = in.clone()
+
 	for _, df := range lt.DerivedFields {
 		expr_val, err := HandleExpression(df.Expression, in, dd, td, lt, ms)
 		if err != nil {
diff --git a/evaluation/mining.go b/evaluation/mining.go
index 22e32f8..023ba86 100644
--- a/evaluation/mining.go
+++ b/evaluation/mining.go
@@ -210,6 +210,8 @@ func (m *MiningModel) evaluateMultipleModelAverage(input DataRow) (DataRow, erro
 }
 
 func (m *MiningModel) imputeMissingValues(input DataRow) (DataRow, error) {
+	input = input.clone()
+
 	for fld, defaultValue := range m.defaultValues {
 		inputVal, ok := input[fld]
 		if !ok || inputVal.Raw() == nil {
diff --git a/evaluation/miningschema.go b/evaluation/miningschema.go
index c52696f..103f882 100644
--- a/evaluation/miningschema.go
+++ b/evaluation/miningschema.go
@@ -136,3 +136,12 @@ func (v Value) String() string {
 }
 
 type DataRow map[string]Value
+
+func (r DataRow) clone() DataRow {
+	c := make(DataRow, len(r))
+	for k, v := range r {
+		c[k] = v
+	}
+
+	return c
+}
-- 
2.43.0


From fe800fa67db99e499fa3f0c048903d62fd062250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:20 +0000
Subject: [PATCH 14/62] fix: missing operands give a missing derived field, not
 0

Arithmetic on a missing field, a conditional on a missing condition and a
continuous derived field without a value all produced a number.
---
 evaluation/input.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/evaluation/input.go b/evaluation/input.go
index 4d9592d..c8426c9 100644
--- a/evaluation/input.go
+++ b/evaluation/input.go
@@ -45,6 +45,9 @@ func handleApplyExpression(apply *models.Apply, in DataRow, dd *models.DataDicti
 		if err != nil {
 			return NewValue(nil), err
 		}
+		if val1.Raw() == nil || val2.Raw() == nil {
+			return NewValue(nil), nil
+		}
 		if apply.Function == "*" {
 			return NewValue(val1.Float64() * val2.Float64()), nil
 		}
@@ -95,6 +98,10 @@ func handleApplyExpression(apply *models.Apply, in DataRow, dd *models.DataDicti
 			return NewValue(nil), err
 		}
 
+		if condition.Raw() == nil {
+			return NewValue(nil), nil
+		}
+
 		if condition.Bool() {
 			return HandleExpression(apply.Expressions[1], in, dd, td, lt, ms)
 		} else {
@@ -192,7 +199,7 @@ func HandleInput(in DataRow, dd *models.DataDictionary, td *models.Transformatio
 			return nil, err
 		}
 
-		if df.OpType == models.OpTypeContinuous {
+		if df.OpType == models.OpTypeContinuous && expr_val.Raw() != nil {
 			in[df.Name] = NewValue(expr_val.Float64())
 		} else {
 			in[df.Name] = expr_val
-- 
2.43.0


From fac60774f08a7ca63e0c4e457ed36181c56dbd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:51 +0000
Subject: [PATCH 15/62] fix: honour mapMissingTo and defaultValue in derived
 fields

They were decoded and ignored, and MapValues failed the whole evaluation
when its input was missing.
---
 evaluation/input.go | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/evaluation/input.go b/evaluation/input.go
index c8426c9..2eb35ea 100644
--- a/evaluation/input.go
+++ b/evaluation/input.go
@@ -2,7 +2,6 @@ package evaluation
 
 import (
 	"fmt"
-	"github.com/pkg/errors"
 	"strconv"
 
 	"github.com/flukeish/pmml/models"
@@ -28,6 +27,9 @@ func handleApplyExpression(apply *models.Apply, in DataRow, dd *models.DataDicti
 			if err != nil {
 				return child_val, err
 			}
+			if child_val.Raw() == nil && apply.MapMissingTo != nil {
+				return NewValue(nil), nil
+			}
 			s += child_val.Float64()
 		}
 		return NewValue(s), nil
@@ -135,8 +137,10 @@ func handleMapValuesExpression(expr *models.MapValues, in DataRow, dd *models.Da
 
 	for _, pair := range expr.FieldColumnPairs {
 		data, ok := in[pair.Field]
-		if ok {
+		if ok && data.Raw() != nil {
 			columns[pair.Column] = data
+		} else if expr.MapMissingTo != nil {
+			return NewValue(*expr.MapMissingTo), nil
 		}
 	}
 
@@ -167,13 +171,17 @@ func handleMapValuesExpression(expr *models.MapValues, in DataRow, dd *models.Da
 		return input, nil
 	}
 
-	return NewValue(nil), errors.New("unexpected expression")
+	return NewValue(nil), nil
 }
 
 func HandleExpression(expr models.Expression, in DataRow, dd *models.DataDictionary, td *models.TransformationDictionary, lt *models.LocalTransformations, ms *models.MiningSchema) (Value, error) {
 	fieldRef, ok := expr.(*models.FieldRef)
 	if ok {
-		return in[string(fieldRef.Field)], nil
+		val := in[string(fieldRef.Field)]
+		if val.Raw() == nil && fieldRef.MapMissingTo != nil {
+			return NewValue(*fieldRef.MapMissingTo), nil
+		}
+		return val, nil
 	}
 	constExpr, ok := expr.(*models.Constant)
 	if ok {
@@ -181,7 +189,16 @@ func HandleExpression(expr models.Expression, in DataRow, dd *models.DataDiction
 	}
 	apply, ok := expr.(*models.Apply)
 	if ok {
-		return handleApplyExpression(apply, in, dd, td, lt, ms)
+		val, err := handleApplyExpression(apply, in, dd, td, lt, ms)
+		if err == nil && val.Raw() == nil {
+			if apply.MapMissingTo != nil {
+				return NewValue(*apply.MapMissingTo), nil
+			}
+			if apply.DefaultValue != nil {
+				return NewValue(*apply.DefaultValue), nil
+			}
+		}
+		return val, err
 	}
 	mapExpr, ok := expr.(*models.MapValues)
 	if ok {
-- 
2.43.0


From 4b724b680fc5d6ea0a0c0e8cc374809ebb8915a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:06 +0000
Subject: [PATCH 16/62] fix: MapValues uses the columns the document names

Only a single input column data:input and the output column data:output
were looked up; any other table silently passed its input through. A
defaultValue without dataType failed the evaluation.
---
 evaluation/input.go | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/evaluation/input.go b/evaluation/input.go
index 2eb35ea..bec7ab6 100644
--- a/evaluation/input.go
+++ b/evaluation/input.go
@@ -3,6 +3,7 @@ package evaluation
 import (
 	"fmt"
 	"strconv"
+	"strings"
 
 	"github.com/flukeish/pmml/models"
 )
@@ -134,6 +135,7 @@ func isMissing(apply *models.Apply, in DataRow, dd *models.DataDictionary, td *m
 
 func handleMapValuesExpression(expr *models.MapValues, in DataRow, dd *models.DataDictionary, td *models.TransformationDictionary, lt *models.LocalTransformations, ms *models.MiningSchema) (Value, error) {
 	columns := make(map[string]Value)
+	outputColumn := expr.OutputColumn
 
 	for _, pair := range expr.FieldColumnPairs {
 		data, ok := in[pair.Field]
@@ -146,18 +148,22 @@ func handleMapValuesExpression(expr *models.MapValues, in DataRow, dd *models.Da
 
 	for _, mapping := range expr.InlineTables {
 		for _, row := range mapping.Rows {
-			if row["input"] == columns["data:input"].String() {
-				columns["data:output"] = NewValue(row["output"])
+			if rowMatches(row, expr.FieldColumnPairs, columns) {
+				columns[outputColumn] = NewValue(row[localName(outputColumn)])
 			}
 		}
 	}
 
-	output, ok := columns["data:output"]
+	output, ok := columns[outputColumn]
 	if ok {
 		return output, nil
 	}
 
 	if expr.DefaultValue != nil {
+		if expr.DataType == "" {
+			return NewValue(*expr.DefaultValue), nil
+		}
+
 		defaultValue, err := getRawValue(expr.DataType, *expr.DefaultValue)
 		if err != nil {
 			return NewValue(nil), err
@@ -166,14 +172,29 @@ func handleMapValuesExpression(expr *models.MapValues, in DataRow, dd *models.Da
 		return NewValue(defaultValue), nil
 	}
 
-	input, ok := columns["data:input"]
-	if ok {
-		return input, nil
+	if len(expr.FieldColumnPairs) == 1 {
+		return columns[expr.FieldColumnPairs[0].Column], nil
 	}
 
 	return NewValue(nil), nil
 }
 
+// localName strips the namespace prefix from a column name, as decoded inline table rows do.
+func localName(column string) string {
+	return column[strings.Index(column, ":")+1:]
+}
+
+func rowMatches(row models.Row, pairs []models.FieldColumnPair, columns map[string]Value) bool {
+	for _, pair := range pairs {
+		data, ok := columns[pair.Column]
+		if !ok || row[localName(pair.Column)] != data.String() {
+			return false
+		}
+	}
+
+	return true
+}
+
 func HandleExpression(expr models.Expression, in DataRow, dd *models.DataDictionary, td *models.TransformationDictionary, lt *models.LocalTransformations, ms *models.MiningSchema) (Value, error) {
 	fieldRef, ok := expr.(*models.FieldRef)
 	if ok {
-- 
2.43.0


From a5bb7c4f4dd8a979a673e36ff6d943907c8616eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:07 +0000
Subject: [PATCH 17/62] fix: compute the derived fields of the
 TransformationDictionary

They were registered as field types but never computed, so models using
them always saw a missing value.
---
 evaluation/input.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/evaluation/input.go b/evaluation/input.go
index bec7ab6..268eaf8 100644
--- a/evaluation/input.go
+++ b/evaluation/input.go
@@ -231,7 +231,18 @@ func HandleExpression(expr models.Expression, in DataRow, dd *models.DataDiction
 func HandleInput(in DataRow, dd *models.DataDictionary, td *models.TransformationDictionary, lt *models.LocalTransformations, ms *models.MiningSchema) (DataRow, error) {
 	in = in.clone()
 
-	for _, df := range lt.DerivedFields {
+	derivedFields := lt.DerivedFields
+	if td != nil {
+		derivedFields = nil
+		for _, df := range td.DerivedFields {
+			if in[df.Name].Raw() == nil {
+				derivedFields = append(derivedFields, df)
+			}
+		}
+		derivedFields = append(derivedFields, lt.DerivedFields...)
+	}
+
+	for _, df := range derivedFields {
 		expr_val, err := HandleExpression(df.Expression, in, dd, td, lt, ms)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 546c88c726c3b65087b700756c28f58d005297dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:35 +0000
Subject: [PATCH 18/62] fix: rescale the target after averaging the segments

average divided rescaleConstant by the number of segments as well.
---
 evaluation/mining.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/evaluation/mining.go b/evaluation/mining.go
index 023ba86..a0ac077 100644
--- a/evaluation/mining.go
+++ b/evaluation/mining.go
@@ -148,6 +148,10 @@ func (m *MiningModel) evaluateMultipleModelChain(input DataRow) (DataRow, error)
 }
 
 func (m *MiningModel) evaluateMultipleModelSum(input DataRow) (DataRow, error) {
+	return m.combineSegments(input, false)
+}
+
+func (m *MiningModel) combineSegments(input DataRow, average bool) (DataRow, error) {
 	scoreMap := make(map[models.FieldName]float64)
 
 	for _, field := range m.outputFields {
@@ -179,6 +183,12 @@ func (m *MiningModel) evaluateMultipleModelSum(input DataRow) (DataRow, error) {
 		}
 	}
 
+	if average {
+		for k, v := range scoreMap {
+			scoreMap[k] = v / float64(len(m.model.Segmentation.Segments))
+		}
+	}
+
 	for _, target := range m.targets {
 		if target.RescaleFactor != nil {
 			scoreMap[target.Field] = scoreMap[target.Field] * *target.RescaleFactor
@@ -197,16 +207,7 @@ func (m *MiningModel) evaluateMultipleModelSum(input DataRow) (DataRow, error) {
 }
 
 func (m *MiningModel) evaluateMultipleModelAverage(input DataRow) (DataRow, error) {
-	out, err := m.evaluateMultipleModelSum(input)
-	if err != nil {
-		return nil, err
-	}
-
-	for lbl, score := range out {
-		out[lbl] = NewValue(score.Float64() / float64(len(m.model.Segmentation.Segments)))
-	}
-
-	return out, nil
+	return m.combineSegments(input, true)
 }
 
 func (m *MiningModel) imputeMissingValues(input DataRow) (DataRow, error) {
-- 
2.43.0


From e12c3222ca60ea018be6e7ba180ac393d280515a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:00 +0000
Subject: [PATCH 19/62] fix: apply segment predicates

They were ignored: selectFirst always took the first segment, and sum,
average and modelChain used every segment.
---
 evaluation/mining.go | 36 +++++++++++++++++++++++++++++++-----
 evaluation/tree.go   | 43 ++++++++++++++++++++++++-------------------
 2 files changed, 55 insertions(+), 24 deletions(-)

diff --git a/evaluation/mining.go b/evaluation/mining.go
index a0ac077..ce78dd2 100644
--- a/evaluation/mining.go
+++ b/evaluation/mining.go
@@ -15,6 +15,7 @@ type MiningModel struct {
 	model *models.MiningModel
 
 	segmodels []Model
+	segtests  []test
 
 	defaultValues map[string]Value
 	fieldTypes    map[models.FieldName]models.DataType
@@ -95,6 +96,7 @@ func (m *MiningModel) Compile() error {
 	}
 
 	m.segmodels = nil
+	m.segtests = nil
 	for _, seg := range m.model.Segmentation.Segments {
 		if len(seg.Models) != 1 {
 			return fmt.Errorf("unsupported single segment model group size %d", len(seg.Models))
@@ -107,7 +109,17 @@ func (m *MiningModel) Compile() error {
 			return err
 		}
 
+		if len(seg.Predicates) != 1 {
+			return fmt.Errorf("segment %s has %d predicates", seg.Id, len(seg.Predicates))
+		}
+
+		segtest, err := newTest(m.fieldTypes, seg.Predicates[0])
+		if err != nil {
+			return err
+		}
+
 		m.segmodels = append(m.segmodels, mdl)
+		m.segtests = append(m.segtests, segtest)
 	}
 
 	m.compiled = true
@@ -116,7 +128,11 @@ func (m *MiningModel) Compile() error {
 }
 
 func (m *MiningModel) evaluateMultipleModelSelectFirst(input DataRow) (DataRow, error) {
-	for _, segModel := range m.segmodels {
+	for i, segModel := range m.segmodels {
+		if m.segtests[i](input) != t {
+			continue
+		}
+
 		segOut, err := segModel.Evaluate(input)
 		if err != nil {
 			return nil, err
@@ -131,11 +147,15 @@ func (m *MiningModel) evaluateMultipleModelSelectFirst(input DataRow) (DataRow,
 func (m *MiningModel) evaluateMultipleModelChain(input DataRow) (DataRow, error) {
 	lastOut := make(DataRow)
 
-	for _, segModel := range m.segmodels {
+	for i, segModel := range m.segmodels {
 		for k, v := range lastOut {
 			input[k] = v
 		}
 
+		if m.segtests[i](input) != t {
+			continue
+		}
+
 		segOut, err := segModel.Evaluate(input)
 		if err != nil {
 			return nil, err
@@ -162,7 +182,13 @@ func (m *MiningModel) combineSegments(input DataRow, average bool) (DataRow, err
 		scoreMap[target.Field] = 0.0
 	}
 
-	for _, segmodel := range m.segmodels {
+	segments := 0
+	for i, segmodel := range m.segmodels {
+		if m.segtests[i](input) != t {
+			continue
+		}
+		segments++
+
 		segout, err := segmodel.Evaluate(input)
 		if err != nil {
 			return nil, err
@@ -183,9 +209,9 @@ func (m *MiningModel) combineSegments(input DataRow, average bool) (DataRow, err
 		}
 	}
 
-	if average {
+	if average && segments > 0 {
 		for k, v := range scoreMap {
-			scoreMap[k] = v / float64(len(m.model.Segmentation.Segments))
+			scoreMap[k] = v / float64(segments)
 		}
 	}
 
diff --git a/evaluation/tree.go b/evaluation/tree.go
index b425108..9b82212 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -449,10 +449,10 @@ func (m *TreeModel) Validate() error {
 	return nil
 }
 
-func compilePredicate(m *TreeModel, pi models.Predicate) error {
+func compilePredicate(fieldTypes map[models.FieldName]models.DataType, pi models.Predicate) error {
 	switch p := pi.(type) {
 	case *models.SimplePredicate:
-		predicateValueType, ok := m.fieldTypes[p.Field]
+		predicateValueType, ok := fieldTypes[p.Field]
 		if !ok {
 			return fmt.Errorf("unknown field type for %s", p.Field)
 		}
@@ -470,7 +470,7 @@ func compilePredicate(m *TreeModel, pi models.Predicate) error {
 		p.RawPredicateValue = pv
 	case *models.CompoundPredicate:
 		for _, cp := range p.Predicates {
-			err := compilePredicate(m, cp)
+			err := compilePredicate(fieldTypes, cp)
 			if err != nil {
 				return err
 			}
@@ -528,33 +528,38 @@ func newNode(m *TreeModel, modelNode models.Node) (node, error) {
 		n.children = append(n.children, nn)
 	}
 
-	err := compilePredicate(m, modelNode.Predicate)
+	var err error
+	n.test, err = newTest(m.fieldTypes, modelNode.Predicate)
+
+	return n, err
+}
+
+func newTest(fieldTypes map[models.FieldName]models.DataType, predicate models.Predicate) (test, error) {
+	err := compilePredicate(fieldTypes, predicate)
 	if err != nil {
-		return n, err
+		return nil, err
 	}
 
-	switch p := modelNode.Predicate.(type) {
+	switch p := predicate.(type) {
 	case *models.True:
-		n.test = func(DataRow) predicateResult { return t }
+		return func(DataRow) predicateResult { return t }, nil
 	case *models.False:
-		n.test = func(DataRow) predicateResult { return f }
+		return func(DataRow) predicateResult { return f }, nil
 	case *models.SimplePredicate:
-		n.test = func(input DataRow) predicateResult {
-			return evaluateSimplePredicate(p, input, m.fieldTypes)
-		}
+		return func(input DataRow) predicateResult {
+			return evaluateSimplePredicate(p, input, fieldTypes)
+		}, nil
 	case *models.CompoundPredicate:
-		n.test = func(input DataRow) predicateResult {
-			return evaluateCompoundPredicate(p, input, m.fieldTypes)
-		}
+		return func(input DataRow) predicateResult {
+			return evaluateCompoundPredicate(p, input, fieldTypes)
+		}, nil
 	case *models.SimpleSetPredicate:
-		n.test = func(input DataRow) predicateResult {
+		return func(input DataRow) predicateResult {
 			return f
-		}
-	default:
-		return n, fmt.Errorf("node %s has no supported predicate", modelNode.ID)
+		}, nil
 	}
 
-	return n, nil
+	return nil, fmt.Errorf("missing or unsupported predicate %T", predicate)
 }
 
 // equalsRaw compares an input value with a predicate's value in the type of the latter.
-- 
2.43.0


From 40d105f4d6851eeadf706d43dc73e2c836ea173d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:01 +0000
Subject: [PATCH 20/62] fix: score linear regression models

A RegressionModel without normalizationMethod (or with none) always failed
with an unrecognized normalization method, and Validate rejected the
regression function and simplemax, which Evaluate supports.
---
 evaluation/regression.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/evaluation/regression.go b/evaluation/regression.go
index 67d9784..b55b317 100644
--- a/evaluation/regression.go
+++ b/evaluation/regression.go
@@ -39,12 +39,17 @@ func (m *RegressionModel) Validate() error {
 	if m.model.RegressionNormalizationMethod != models.RegressionNormalizationMethodNone &&
 		m.model.RegressionNormalizationMethod != models.RegressionNormalizationMethodLogit &&
 		m.model.RegressionNormalizationMethod != models.RegressionNormalizationMethodSoftmax &&
+		m.model.RegressionNormalizationMethod != models.RegressionNormalizationMethodSimplemax &&
 		m.model.RegressionNormalizationMethod != models.RegressionNormalizationMethodExp &&
 		m.model.RegressionNormalizationMethod != models.RegressionNormalizationMethodCloglog &&
 		m.model.RegressionNormalizationMethod != models.RegressionNormalizationMethodCauchit {
 		return fmt.Errorf("unsupported regression normalization method %s", m.model.RegressionNormalizationMethod)
 	}
 
+	if m.model.FunctionName == models.MiningFunctionRegression {
+		return nil
+	}
+
 	if m.model.FunctionName != models.MiningFunctionClassification {
 		return fmt.Errorf("unsupported mining function %s", m.model.FunctionName)
 	}
@@ -64,6 +69,8 @@ func (m *RegressionModel) Verify() error {
 
 func (m *RegressionModel) normalize(term float64) (float64, error) {
 	switch m.model.RegressionNormalizationMethod {
+	case models.RegressionNormalizationMethodNone, "":
+		return term, nil
 	case models.RegressionNormalizationMethodSoftmax:
 		return 1.0 / (1.0 + math.Exp(-term)), nil
 	case models.RegressionNormalizationMethodLogit:
-- 
2.43.0


From f2bf1b60c6606c13f24750cb8d58708894f605b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:20 +0000
Subject: [PATCH 21/62] fix: binary RegressionModel classification uses its
 coefficients

It ignored every coefficient, normalised each input on its own and added
the intercept afterwards; two-class softmax and simplemax models took the
same path.
---
 evaluation/regression.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/evaluation/regression.go b/evaluation/regression.go
index b55b317..08daa21 100644
--- a/evaluation/regression.go
+++ b/evaluation/regression.go
@@ -88,7 +88,9 @@ func (m *RegressionModel) normalize(term float64) (float64, error) {
 func (m *RegressionModel) Evaluate(input DataRow) (DataRow, error) {
 	if m.model.FunctionName == "regression" {
 		return m.EvaluateRegression(input)
-	} else if m.model.FunctionName == "classification" && len(m.model.Output.Fields) == 2 {
+	} else if m.model.FunctionName == "classification" && len(m.model.Output.Fields) == 2 &&
+		m.model.RegressionNormalizationMethod != models.RegressionNormalizationMethodSoftmax &&
+		m.model.RegressionNormalizationMethod != models.RegressionNormalizationMethodSimplemax {
 		return m.EvaluateBinaryClassification(input)
 	} else if m.model.FunctionName == "classification" {
 		return m.EvaluateMulticlassClassification(input)
@@ -143,11 +145,13 @@ func (m *RegressionModel) EvaluateBinaryClassification(input DataRow) (DataRow,
 				if !ok {
 					return nil, fmt.Errorf("regression missing term %s", np.Name)
 				}
-				normalized, err := m.normalize(term.Float64())
-				if err != nil {
-					return out, err
-				}
-				pred += normalized
+				pred += np.Coefficient * term.Float64()
+			}
+
+			var err error
+			pred, err = m.normalize(pred)
+			if err != nil {
+				return out, err
 			}
 		} else {
 			pred = finalPred
-- 
2.43.0


From 1ef04315e9764472e63ebf01c981a22ed6314f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:21 +0000
Subject: [PATCH 22/62] fix: softmax of large scores is not NaN

exp overflowed for scores above about 710.
---
 evaluation/regression.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/evaluation/regression.go b/evaluation/regression.go
index 08daa21..5dc1d37 100644
--- a/evaluation/regression.go
+++ b/evaluation/regression.go
@@ -199,9 +199,9 @@ func (m *RegressionModel) EvaluateMulticlassClassification(input DataRow) (DataR
 		case models.RegressionNormalizationMethodSoftmax:
 			s := 0.0
 			for _, yVal := range y {
-				s += math.Exp(yVal)
+				s += math.Exp(yVal - y[i])
 			}
-			out[target] = NewValue(math.Exp(y[i]) / s)
+			out[target] = NewValue(1 / s)
 		case models.RegressionNormalizationMethodSimplemax:
 			s := 0.0
 			for _, yVal := range y {
-- 
2.43.0


From faa32eb726f577624ed59fc3a19bf70763a5aca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:22 +0000
Subject: [PATCH 23/62] fix: Verify handles negative expectations and NaN
 predictions

A negative expected value always failed (the tolerance was negative) and a
NaN prediction always passed.
---
 evaluation/evaluation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evaluation/evaluation.go b/evaluation/evaluation.go
index f034d05..ff1c29d 100644
--- a/evaluation/evaluation.go
+++ b/evaluation/evaluation.go
@@ -73,7 +73,7 @@ func verifyModel(m Model, mv *models.ModelVerification) error {
 				}
 				predicted := predictedVal.Float64()
 				delta := expected - predicted
-				if math.Abs(delta) > 1e-5 * expected {
+				if !(math.Abs(delta) <= 1e-5*math.Abs(expected)) {
 					return fmt.Errorf("%s: expected %f, predicted %f, error %f", k, expected, predicted, delta)
 				}
 			}
-- 
2.43.0


From 86ec60055797a4e4d9bdfa4238c91870bd267d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:50 +0000
Subject: [PATCH 24/62] fix: accept Extension elements in PMML, Segment,
 InlineTable and Alternate

The schema allows them there, but decoding such a document failed.
---
 models/elements.go | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/models/elements.go b/models/elements.go
index 91c7b6e..6c4632b 100644
--- a/models/elements.go
+++ b/models/elements.go
@@ -164,6 +164,12 @@ func (x *Alternate) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) e
 		switch tok := token.(type) {
 		case xml.StartElement:
 			switch tok.Name.Local {
+			case "Extension":
+				var e Extension
+				err = decoder.DecodeElement(&e, &tok)
+				if err != nil {
+					return err
+				}
 			default:
 				if item, ok := GetContinuousDistributionType(tok.Name.Local); ok {
 					err = decoder.DecodeElement(item, &tok)
@@ -2416,7 +2422,14 @@ func (x *InlineTable) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement)
 
 		switch tok := token.(type) {
 		case xml.StartElement:
-			if tok.Name.Local == "row" {
+			if tok.Name.Local == "Extension" {
+				var e Extension
+				err = decoder.DecodeElement(&e, &tok)
+				if err != nil {
+					return err
+				}
+				x.Extensions = append(x.Extensions, e)
+			} else if tok.Name.Local == "row" {
 				row := make(Row)
 				err = decoder.DecodeElement(&row, &tok)
 				if err != nil {
@@ -3763,6 +3776,13 @@ func (x *PMML) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) error
 		switch tok := token.(type) {
 		case xml.StartElement:
 			switch tok.Name.Local {
+			case "Extension":
+				var e Extension
+				err = decoder.DecodeElement(&e, &tok)
+				if err != nil {
+					return err
+				}
+				x.Extensions = append(x.Extensions, e)
 			case "Header":
 				err = decoder.DecodeElement(&x.Header, &tok)
 				if err != nil {
@@ -4519,6 +4539,16 @@ func (x *Segment) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) err
 		}
 		switch tok := token.(type) {
 		case xml.StartElement:
+			if tok.Name.Local == "Extension" {
+				var e Extension
+				err = decoder.DecodeElement(&e, &tok)
+				if err != nil {
+					return err
+				}
+				x.Extensions = append(x.Extensions, e)
+				continue
+			}
+
 			pred, ok := GetPredicate(tok.Name.Local)
 			if ok {
 				err = decoder.DecodeElement(pred, &tok)
-- 
2.43.0


From d27b90c96eee006c1453e51f34ae708aa652ba87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:25 +0000
Subject: [PATCH 25/62] fix: a nil-valued predictor is missing, not 0

---
 evaluation/regression.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/evaluation/regression.go b/evaluation/regression.go
index 5dc1d37..23cf4a7 100644
--- a/evaluation/regression.go
+++ b/evaluation/regression.go
@@ -114,7 +114,7 @@ func (m *RegressionModel) EvaluateRegression(input DataRow) (DataRow, error) {
 	y := rtbl.Intercept
 	for _, np := range rtbl.NumericPredictor {
 		term, ok := input[np.Name]
-		if !ok {
+		if !ok || term.Raw() == nil {
 			return nil, fmt.Errorf("regression missing term %s", np.Name)
 		}
 		indVar := term.Float64()
@@ -142,7 +142,7 @@ func (m *RegressionModel) EvaluateBinaryClassification(input DataRow) (DataRow,
 		if len(rtbl.NumericPredictor) > 0 {
 			for _, np := range rtbl.NumericPredictor {
 				term, ok := input[np.Name]
-				if !ok {
+				if !ok || term.Raw() == nil {
 					return nil, fmt.Errorf("regression missing term %s", np.Name)
 				}
 				pred += np.Coefficient * term.Float64()
@@ -185,7 +185,7 @@ func (m *RegressionModel) EvaluateMulticlassClassification(input DataRow) (DataR
 
 		for _, np := range rtbl.NumericPredictor {
 			term, ok := input[np.Name]
-			if !ok {
+			if !ok || term.Raw() == nil {
 				return nil, fmt.Errorf("regression missing term %s", np.Name)
 			}
 			indVar := term.Float64()
-- 
2.43.0


From c125743a6919bb26455e39d40569975913187a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:26 +0000
Subject: [PATCH 26/62] fix: apply the exponent of a NumericPredictor

It was decoded and ignored; it defaults to 1.
---
 evaluation/regression.go | 6 +++---
 models/elements.go       | 9 +++++++++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/evaluation/regression.go b/evaluation/regression.go
index 23cf4a7..119d72c 100644
--- a/evaluation/regression.go
+++ b/evaluation/regression.go
@@ -117,7 +117,7 @@ func (m *RegressionModel) EvaluateRegression(input DataRow) (DataRow, error) {
 		if !ok || term.Raw() == nil {
 			return nil, fmt.Errorf("regression missing term %s", np.Name)
 		}
-		indVar := term.Float64()
+		indVar := math.Pow(term.Float64(), float64(np.Exponent))
 		coeff := np.Coefficient
 		y += coeff * indVar
 	}
@@ -145,7 +145,7 @@ func (m *RegressionModel) EvaluateBinaryClassification(input DataRow) (DataRow,
 				if !ok || term.Raw() == nil {
 					return nil, fmt.Errorf("regression missing term %s", np.Name)
 				}
-				pred += np.Coefficient * term.Float64()
+				pred += np.Coefficient * math.Pow(term.Float64(), float64(np.Exponent))
 			}
 
 			var err error
@@ -188,7 +188,7 @@ func (m *RegressionModel) EvaluateMulticlassClassification(input DataRow) (DataR
 			if !ok || term.Raw() == nil {
 				return nil, fmt.Errorf("regression missing term %s", np.Name)
 			}
-			indVar := term.Float64()
+			indVar := math.Pow(term.Float64(), float64(np.Exponent))
 			coeff := np.Coefficient
 			y[i] += coeff * indVar
 		}
diff --git a/models/elements.go b/models/elements.go
index 6c4632b..a3f9d82 100644
--- a/models/elements.go
+++ b/models/elements.go
@@ -3545,6 +3545,15 @@ type NumericPredictor struct {
 	Extensions []Extension `xml:"Extension"`
 }
 
+// UnmarshalXML implements the xml.Unmarshaler interface.
+func (x *NumericPredictor) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) error {
+	type numericPredictor NumericPredictor
+
+	x.Exponent = 1
+
+	return decoder.DecodeElement((*numericPredictor)(x), &start)
+}
+
 /*
   <xs:element name="OptimumLiftGraph">
     <xs:complexType>
-- 
2.43.0


From b4d27d4bdde673e055982fcb8e441f3a0316eb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:27 +0000
Subject: [PATCH 27/62] fix: CategoricalPredictor and PredictorTerm are not
 silently dropped

Categorical predictors now contribute their coefficient; models with
interaction terms, which are not supported, are rejected.
---
 evaluation/regression.go | 27 +++++++++++++++++++++++----
 models/elements.go       |  5 ++++-
 2 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/evaluation/regression.go b/evaluation/regression.go
index 119d72c..7cda0e9 100644
--- a/evaluation/regression.go
+++ b/evaluation/regression.go
@@ -23,6 +23,12 @@ func NewRegressionModel(dd *models.DataDictionary, td *models.TransformationDict
 	m.td = td
 	m.model = model
 
+	for _, rtbl := range model.RegressionTables {
+		if len(rtbl.PredictorTerms) > 0 {
+			return nil, fmt.Errorf("unsupported PredictorTerm in regression table %s", rtbl.TargetCategory)
+		}
+	}
+
 	return m, nil
 }
 
@@ -85,6 +91,19 @@ func (m *RegressionModel) normalize(term float64) (float64, error) {
 	return 0.0, fmt.Errorf("unrecognized normalization method: %v", m.model.RegressionNormalizationMethod)
 }
 
+// categoricalTerms sums the coefficients of the categorical predictors whose category the input has.
+func categoricalTerms(rtbl models.RegressionTable, input DataRow) float64 {
+	y := 0.0
+	for _, cp := range rtbl.CategoricalPredictors {
+		term := input[string(cp.Name)]
+		if term.Raw() != nil && term.String() == cp.Value {
+			y += float64(cp.Coefficient)
+		}
+	}
+
+	return y
+}
+
 func (m *RegressionModel) Evaluate(input DataRow) (DataRow, error) {
 	if m.model.FunctionName == "regression" {
 		return m.EvaluateRegression(input)
@@ -111,7 +130,7 @@ func (m *RegressionModel) EvaluateRegression(input DataRow) (DataRow, error) {
 	}
 	outField := m.model.Output.Fields[0]
 
-	y := rtbl.Intercept
+	y := rtbl.Intercept + categoricalTerms(rtbl, input)
 	for _, np := range rtbl.NumericPredictor {
 		term, ok := input[np.Name]
 		if !ok || term.Raw() == nil {
@@ -137,9 +156,9 @@ func (m *RegressionModel) EvaluateBinaryClassification(input DataRow) (DataRow,
 	finalPred := 1.0
 
 	for _, rtbl := range m.model.RegressionTables {
-		pred := rtbl.Intercept
+		pred := rtbl.Intercept + categoricalTerms(rtbl, input)
 
-		if len(rtbl.NumericPredictor) > 0 {
+		if len(rtbl.NumericPredictor) > 0 || len(rtbl.CategoricalPredictors) > 0 {
 			for _, np := range rtbl.NumericPredictor {
 				term, ok := input[np.Name]
 				if !ok || term.Raw() == nil {
@@ -181,7 +200,7 @@ func (m *RegressionModel) EvaluateMulticlassClassification(input DataRow) (DataR
 	targets := make([]string, len(m.model.RegressionTables))
 	for i, rtbl := range m.model.RegressionTables {
 		targets[i] = outFields[rtbl.TargetCategory]
-		y[i] = rtbl.Intercept
+		y[i] = rtbl.Intercept + categoricalTerms(rtbl, input)
 
 		for _, np := range rtbl.NumericPredictor {
 			term, ok := input[np.Name]
diff --git a/models/elements.go b/models/elements.go
index a3f9d82..1a0ced5 100644
--- a/models/elements.go
+++ b/models/elements.go
@@ -814,7 +814,7 @@ type BoundaryValues struct {
 */
 type CategoricalPredictor struct {
 	Coefficient RealNumber  `xml:"coefficient,attr"`
-	Name        FieldName   `xml:"fieldName,attr"`
+	Name        FieldName   `xml:"name,attr"`
 	Value       string      `xml:"value,attr"`
 	Extensions  []Extension `xml:"Extension"`
 }
@@ -4316,6 +4316,9 @@ type RegressionTable struct {
 	TargetCategory   string             `xml:"targetCategory,attr"`
 	NumericPredictor []NumericPredictor `xml:"NumericPredictor"`
 	Extensions       []Extension        `xml:"Extension"`
+
+	CategoricalPredictors []CategoricalPredictor `xml:"CategoricalPredictor"`
+	PredictorTerms        []PredictorTerm        `xml:"PredictorTerm"`
 }
 
 /*
-- 
2.43.0


From 02c9e1bcb54b85e0e0bfff5598e8ddb7c70e41b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:40 +0000
Subject: [PATCH 28/62] fix: compute the derived fields of a RegressionModel

Its LocalTransformations were ignored.
---
 evaluation/regression.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/evaluation/regression.go b/evaluation/regression.go
index 7cda0e9..6aa7381 100644
--- a/evaluation/regression.go
+++ b/evaluation/regression.go
@@ -105,6 +105,11 @@ func categoricalTerms(rtbl models.RegressionTable, input DataRow) float64 {
 }
 
 func (m *RegressionModel) Evaluate(input DataRow) (DataRow, error) {
+	input, err := HandleInput(input, m.dd, m.td, &m.model.LocalTransformations, &m.model.MiningSchema)
+	if err != nil {
+		return nil, err
+	}
+
 	if m.model.FunctionName == "regression" {
 		return m.EvaluateRegression(input)
 	} else if m.model.FunctionName == "classification" && len(m.model.Output.Fields) == 2 &&
-- 
2.43.0


From 18c5a85abbae6fbea1ec4012aa86e5afd5aa17c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:41 +0000
Subject: [PATCH 29/62] fix: replace missing values in tree and regression
 models too

Only MiningModel honoured missingValueReplacement.
---
 evaluation/input.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/evaluation/input.go b/evaluation/input.go
index 268eaf8..6b37287 100644
--- a/evaluation/input.go
+++ b/evaluation/input.go
@@ -231,6 +231,14 @@ func HandleExpression(expr models.Expression, in DataRow, dd *models.DataDiction
 func HandleInput(in DataRow, dd *models.DataDictionary, td *models.TransformationDictionary, lt *models.LocalTransformations, ms *models.MiningSchema) (DataRow, error) {
 	in = in.clone()
 
+	if ms != nil {
+		for _, f := range ms.MiningFields {
+			if f.MissingValueReplacement != nil && in[string(f.Name)].Raw() == nil {
+				in[string(f.Name)] = NewValue(*f.MissingValueReplacement)
+			}
+		}
+	}
+
 	derivedFields := lt.DerivedFields
 	if td != nil {
 		derivedFields = nil
-- 
2.43.0


From 1b9103bc164ce9ece489f5eb6456944fe410ba7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:55 +0000
Subject: [PATCH 30/62] fix: find class probabilities of an ensemble by the
 output field's value

An OutputField whose name is not literally probability(<value>) silently
produced 0.
---
 evaluation/mining.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/evaluation/mining.go b/evaluation/mining.go
index ce78dd2..dda2b1c 100644
--- a/evaluation/mining.go
+++ b/evaluation/mining.go
@@ -174,8 +174,11 @@ func (m *MiningModel) evaluateMultipleModelSum(input DataRow) (DataRow, error) {
 func (m *MiningModel) combineSegments(input DataRow, average bool) (DataRow, error) {
 	scoreMap := make(map[models.FieldName]float64)
 
+	probabilityKeys := make(map[models.FieldName]string)
+
 	for _, field := range m.outputFields {
 		scoreMap[field.Name] = 0.0
+		probabilityKeys[field.Name] = fmt.Sprintf("probability(%s)", field.Value)
 	}
 
 	for _, target := range m.targets {
@@ -197,6 +200,9 @@ func (m *MiningModel) combineSegments(input DataRow, average bool) (DataRow, err
 		for k, v := range scoreMap {
 			if m.model.FunctionName == models.MiningFunctionClassification {
 				outval, ok := segout[string(k)]
+				if !ok {
+					outval, ok = segout[probabilityKeys[k]]
+				}
 				if ok {
 					scoreMap[k] = v + outval.Float64()
 				}
-- 
2.43.0


From 9d5734a57706b4e6209710026f55b6387a35fb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:53 +0000
Subject: [PATCH 31/62] fix: split Array content as PMML defines it, not as a
 shell command

Elements after any of & ; | < > were dropped, entities were not decoded,
apostrophes and parentheses were rejected or removed, and empty strings
disappeared.
---
 models/complexTypes.go | 51 ++++++++++++++++++++++++++++++++++++++----
 1 file changed, 47 insertions(+), 4 deletions(-)

diff --git a/models/complexTypes.go b/models/complexTypes.go
index 24b06d7..afe00df 100644
--- a/models/complexTypes.go
+++ b/models/complexTypes.go
@@ -1,9 +1,10 @@
 package models
 
 import (
+	"encoding/xml"
 	"strconv"
+	"strings"
 
-	"github.com/mattn/go-shellwords"
 	"github.com/pkg/errors"
 )
 
@@ -40,6 +41,48 @@ type ArrayType struct {
 	f []float64
 }
 
+// Tokens returns the array's elements: separated by blanks, quoted if they contain blanks or are
+// empty, with quotation marks escaped by a backslash.
+func (at *ArrayType) Tokens() ([]string, error) {
+	var text string
+	if err := xml.Unmarshal([]byte("<Array>"+at.RawValue+"</Array>"), &text); err != nil {
+		return nil, err
+	}
+
+	tokens := []string{}
+	token, started, quoted := []rune{}, false, false
+	runes := []rune(text)
+
+	for i := 0; i < len(runes); i++ {
+		switch r := runes[i]; {
+		case r == '\\' && i+1 < len(runes) && (runes[i+1] == '"' || runes[i+1] == '\\'):
+			i++
+			token = append(token, runes[i])
+			started = true
+		case r == '"':
+			started, quoted = true, !quoted
+		case strings.ContainsRune(" \t\r\n", r) && !quoted:
+			if started {
+				tokens = append(tokens, string(token))
+			}
+			token, started = token[:0], false
+		default:
+			token = append(token, r)
+			started = true
+		}
+	}
+
+	if quoted {
+		return nil, errors.New("unterminated quote in array")
+	}
+
+	if started {
+		tokens = append(tokens, string(token))
+	}
+
+	return tokens, nil
+}
+
 func (at *ArrayType) Strings() ([]string, error) {
 	if at.Type != ArrayTypeTypeString {
 		return nil, errors.New("not a string array")
@@ -50,7 +93,7 @@ func (at *ArrayType) Strings() ([]string, error) {
 	}
 
 	var err error
-	at.s, err = shellwords.Parse(at.RawValue)
+	at.s, err = at.Tokens()
 	return at.s, err
 }
 
@@ -63,7 +106,7 @@ func (at *ArrayType) Int64s() ([]int64, error) {
 		return at.i, nil
 	}
 
-	ints, err := shellwords.Parse(at.RawValue)
+	ints, err := at.Tokens()
 	if err != nil {
 		return nil, err
 	}
@@ -93,7 +136,7 @@ func (at *ArrayType) Float64s() ([]float64, error) {
 		return at.f, nil
 	}
 
-	ints, err := shellwords.Parse(at.RawValue)
+	ints, err := at.Tokens()
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From e46bfd3824c1e894d3b10bf1a2eca8c7e56d7732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:54 +0000
Subject: [PATCH 32/62] fix: evaluate SimpleSetPredicate

It was a stub that was always false.
---
 evaluation/tree.go | 39 ++++++++++++++++++++++++++++++++++++++-
 models/elements.go |  2 ++
 2 files changed, 40 insertions(+), 1 deletion(-)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index 9b82212..621fc20 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -468,6 +468,27 @@ func compilePredicate(fieldTypes map[models.FieldName]models.DataType, pi models
 		}
 
 		p.RawPredicateValue = pv
+	case *models.SimpleSetPredicate:
+		predicateValueType, ok := fieldTypes[p.Field]
+		if !ok {
+			return fmt.Errorf("unknown field type for %s", p.Field)
+		}
+
+		array := models.ArrayType(p.Array)
+		tokens, err := array.Tokens()
+		if err != nil {
+			return err
+		}
+
+		p.RawPredicateValues = nil
+		for _, token := range tokens {
+			pv, err := getRawValue(predicateValueType, token)
+			if err != nil {
+				return err
+			}
+
+			p.RawPredicateValues = append(p.RawPredicateValues, pv)
+		}
 	case *models.CompoundPredicate:
 		for _, cp := range p.Predicates {
 			err := compilePredicate(fieldTypes, cp)
@@ -555,7 +576,7 @@ func newTest(fieldTypes map[models.FieldName]models.DataType, predicate models.P
 		}, nil
 	case *models.SimpleSetPredicate:
 		return func(input DataRow) predicateResult {
-			return f
+			return evaluateSimpleSetPredicate(p, input, fieldTypes)
 		}, nil
 	}
 
@@ -675,6 +696,22 @@ func evaluateSimplePredicate(p *models.SimplePredicate, input DataRow, fieldType
 }
 
 func evaluateSimpleSetPredicate(p *models.SimpleSetPredicate, input DataRow, fieldTypes map[models.FieldName]models.DataType) predicateResult {
+	val := input[string(p.Field)]
+	if val.Raw() == nil {
+		return u
+	}
+
+	isIn := false
+	for _, raw := range p.RawPredicateValues {
+		if equalsRaw(val, raw) {
+			isIn = true
+		}
+	}
+
+	if isIn == (p.BooleanOperator == models.SimpleSetPredicateOperatorIsIn) {
+		return t
+	}
+
 	return f
 }
 
diff --git a/models/elements.go b/models/elements.go
index 1a0ced5..37b3a64 100644
--- a/models/elements.go
+++ b/models/elements.go
@@ -4848,6 +4848,8 @@ type SimpleSetPredicate struct {
 
 	Array      Array       `xml:"Array"`
 	Extensions []Extension `xml:"Extension"`
+
+	RawPredicateValues []interface{}
 }
 
 func (*SimpleSetPredicate) predicate() {}
-- 
2.43.0


From 87ad65d40c8636e0ce1a63b38d6d8c0ef0cc10a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:21 +0000
Subject: [PATCH 33/62] fix: reject unknown predicate operators

A predicate with a misspelt or unsupported operator was silently false, so
the model was scored along the wrong branches.
---
 evaluation/tree.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index 621fc20..b51599d 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -457,6 +457,15 @@ func compilePredicate(fieldTypes map[models.FieldName]models.DataType, pi models
 			return fmt.Errorf("unknown field type for %s", p.Field)
 		}
 
+		switch p.Operator {
+		case models.SimplePredicateOperatorEqual, models.SimplePredicateOperatorNotEqual,
+			models.SimplePredicateOperatorLessThan, models.SimplePredicateOperatorLessOrEqual,
+			models.SimplePredicateOperatorGreaterThan, models.SimplePredicateOperatorGreaterOrEqual,
+			models.SimplePredicateOperatorIsMissing, models.SimplePredicateOperatorIsNotMissing:
+		default:
+			return fmt.Errorf("unsupported predicate operator %s", p.Operator)
+		}
+
 		if p.Operator == models.SimplePredicateOperatorIsMissing || p.Operator == models.SimplePredicateOperatorIsNotMissing {
 			p.RawPredicateValue = p.Value
 			return nil
@@ -474,6 +483,10 @@ func compilePredicate(fieldTypes map[models.FieldName]models.DataType, pi models
 			return fmt.Errorf("unknown field type for %s", p.Field)
 		}
 
+		if p.BooleanOperator != models.SimpleSetPredicateOperatorIsIn && p.BooleanOperator != models.SimpleSetPredicateOperatorIsNotIn {
+			return fmt.Errorf("unsupported set predicate operator %s", p.BooleanOperator)
+		}
+
 		array := models.ArrayType(p.Array)
 		tokens, err := array.Tokens()
 		if err != nil {
@@ -490,6 +503,13 @@ func compilePredicate(fieldTypes map[models.FieldName]models.DataType, pi models
 			p.RawPredicateValues = append(p.RawPredicateValues, pv)
 		}
 	case *models.CompoundPredicate:
+		switch p.BooleanOperator {
+		case models.CompoundPredicateOperatorAnd, models.CompoundPredicateOperatorOr,
+			models.CompoundPredicateOperatorXor, models.CompoundPredicateOperatorSurrogate:
+		default:
+			return fmt.Errorf("unsupported compound predicate operator %s", p.BooleanOperator)
+		}
+
 		for _, cp := range p.Predicates {
 			err := compilePredicate(fieldTypes, cp)
 			if err != nil {
-- 
2.43.0


From 42f12023cfaa999a2e59a8d8fde2e62d26ce540a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:38 +0000
Subject: [PATCH 34/62] fix: honour castInteger of an ensemble's target

---
 evaluation/mining.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/evaluation/mining.go b/evaluation/mining.go
index dda2b1c..a62cb2e 100644
--- a/evaluation/mining.go
+++ b/evaluation/mining.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"github.com/flukeish/pmml/models"
+	"math"
 )
 
 type MiningModel struct {
@@ -228,6 +229,14 @@ func (m *MiningModel) combineSegments(input DataRow, average bool) (DataRow, err
 		if target.RescaleConstant != nil {
 			scoreMap[target.Field] = scoreMap[target.Field] + *target.RescaleConstant
 		}
+		switch target.CastInteger {
+		case models.CastIntegerTypeRound:
+			scoreMap[target.Field] = math.Round(scoreMap[target.Field])
+		case models.CastIntegerTypeCeiling:
+			scoreMap[target.Field] = math.Ceil(scoreMap[target.Field])
+		case models.CastIntegerTypeFloor:
+			scoreMap[target.Field] = math.Floor(scoreMap[target.Field])
+		}
 	}
 
 	out := make(DataRow)
-- 
2.43.0


From fa08de08d1a99d2b60c3193ff11f58bf700f6997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:39 +0000
Subject: [PATCH 35/62] fix: decode OutputField optype and Apply
 invalidValueTreatment

Both were read under attribute names PMML does not have.
---
 models/elements.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/models/elements.go b/models/elements.go
index 37b3a64..1760d4c 100644
--- a/models/elements.go
+++ b/models/elements.go
@@ -343,7 +343,7 @@ type Application struct {
 type Apply struct {
 	DefaultValue          *string                     `xml:"defaultValue,attr"`
 	Function              string                      `xml:"function,attr"`
-	InvalidValueTreatment InvalidValueTreatmentMethod `xml:"returnInvalid,attr" default:"returnInvalid"`
+	InvalidValueTreatment InvalidValueTreatmentMethod `xml:"invalidValueTreatment,attr" default:"returnInvalid"`
 	MapMissingTo          *string                     `xml:"mapMissingTo,attr"`
 
 	Extensions  []Extension `xml:"Extension"`
@@ -363,7 +363,7 @@ func (x *Apply) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) error
 			x.DefaultValue = &val
 		case "function":
 			x.Function = attr.Value
-		case "returnInvalid":
+		case "invalidValueTreatment":
 			if attr.Value != "" {
 				x.InvalidValueTreatment = InvalidValueTreatmentMethod(attr.Value)
 			}
@@ -3642,7 +3642,7 @@ type OutputField struct {
 	Feature       ResultFeature        `xml:"feature,attr"`
 	IsMultiValued int                  `xml:"isMultiValued,attr"`
 	Name          FieldName            `xml:"name,attr"`
-	OpType        OpType               `xml:"opType,attr"`
+	OpType        OpType               `xml:"optype,attr"`
 	Rank          int                  `xml:"rank,attr"`
 	RankBasis     RankBasis            `xml:"rankBasis,attr"`
 	RankOrder     RankOrder            `xml:"rankOrder,attr"`
-- 
2.43.0


From e4202b35e402dfb4c9926f53d19aefdee2ebc8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:35 +0000
Subject: [PATCH 36/62] fix: combine the scores of segments that are not trees

sum and average only looked for a tree's score, so regression models and
nested ensembles silently contributed 0.
---
 evaluation/mining.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/evaluation/mining.go b/evaluation/mining.go
index a62cb2e..7d9860c 100644
--- a/evaluation/mining.go
+++ b/evaluation/mining.go
@@ -209,6 +209,11 @@ func (m *MiningModel) combineSegments(input DataRow, average bool) (DataRow, err
 				}
 			} else {
 				outval, ok := segout["score"]
+				if !ok && len(segout) == 1 {
+					for _, outval = range segout {
+						ok = true
+					}
+				}
 				if ok {
 					scoreMap[k] = v + outval.Float64()
 				}
-- 
2.43.0


From 7a0e5ccf44b7d797722e0f6938a9f840fd5e323d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:42 +0000
Subject: [PATCH 37/62] fix: isNotMissing is false for a missing value

---
 evaluation/tree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index b51599d..f19845f 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -636,6 +636,10 @@ func evaluateSimplePredicate(p *models.SimplePredicate, input DataRow, fieldType
 			return t
 		}
 
+		if p.Operator == models.SimplePredicateOperatorIsNotMissing {
+			return f
+		}
+
 		return u
 	}
 
-- 
2.43.0


From 05a69eaf6754291d16bb1cb354d3802bffa669a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:12 +0000
Subject: [PATCH 38/62] fix: refuse ordering comparisons of strings and
 booleans

---
 evaluation/tree.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index f19845f..6bb239c 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -471,6 +471,11 @@ func compilePredicate(fieldTypes map[models.FieldName]models.DataType, pi models
 			return nil
 		}
 
+		if p.Operator != models.SimplePredicateOperatorEqual && p.Operator != models.SimplePredicateOperatorNotEqual &&
+			(predicateValueType == models.DataTypeString || predicateValueType == models.DataTypeBoolean) {
+			return fmt.Errorf("unsupported predicate operator %s for %s field %s", p.Operator, predicateValueType, p.Field)
+		}
+
 		pv, err := getRawValue(predicateValueType, p.Value)
 		if err != nil {
 			return err
-- 
2.43.0


From 0bbf18bfbe3588a24df244086b564cfde82d8885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:17 +0000
Subject: [PATCH 39/62] fix: Verify supplies inputs under their field names

---
 evaluation/evaluation.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/evaluation/evaluation.go b/evaluation/evaluation.go
index ff1c29d..388c5f5 100644
--- a/evaluation/evaluation.go
+++ b/evaluation/evaluation.go
@@ -52,9 +52,9 @@ func verifyModel(m Model, mv *models.ModelVerification) error {
 	for _, vRow := range mv.InlineTable.Rows {
 		input := make(DataRow)
 		for k, v := range vRow {
-			_, isInput := inputMap[k]
+			fieldName, isInput := inputMap[k]
 			if isInput {
-				input[k] = NewValue(v)
+				input[fieldName] = NewValue(v)
 			}
 		}
 
-- 
2.43.0


From b53682e13adc8d9cdbfb27e2752e9f1b0701ea70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:50 +0000
Subject: [PATCH 40/62] fix: decode references, comments and CDATA in a
 Constant

---
 models/elements.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/elements.go b/models/elements.go
index 1760d4c..e3757fa 100644
--- a/models/elements.go
+++ b/models/elements.go
@@ -1342,7 +1342,7 @@ type ConsequentSequence struct {
 */
 type Constant struct {
 	DataType DataType `xml:"dataType,attr"`
-	Value    string   `xml:",innerxml"`
+	Value    string   `xml:",chardata"`
 }
 
 func (*Constant) expression() {}
-- 
2.43.0


From 165e8120b0b1e1bfd1f1459bd8c8cb6b2ea4d2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:00 +0000
Subject: [PATCH 41/62] fix: decode the property attribute of Value

---
 models/elements.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/elements.go b/models/elements.go
index e3757fa..ff79aff 100644
--- a/models/elements.go
+++ b/models/elements.go
@@ -5767,7 +5767,7 @@ const (
 */
 type Value struct {
 	DisplayValue string     `xml:"displayValue,attr"`
-	Valid        ValueValid `xml:"valid,attr"`
+	Valid        ValueValid `xml:"property,attr"`
 	Value        string     `xml:"value,attr"`
 
 	Extensions []Extension `xml:"Extension"`
-- 
2.43.0


From 02e548f4bd6875a64b9064b976b2059050f1d018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:01 +0000
Subject: [PATCH 42/62] fix: isScorable defaults to true

---
 models/elements.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/models/elements.go b/models/elements.go
index ff79aff..10c47da 100644
--- a/models/elements.go
+++ b/models/elements.go
@@ -2971,6 +2971,15 @@ type MiningModel struct {
 	Extensions []Extension `xml:"Extension"`
 }
 
+// UnmarshalXML implements the xml.Unmarshaler interface.
+func (x *MiningModel) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) error {
+	type miningModel MiningModel
+
+	x.IsScorable = true
+
+	return decoder.DecodeElement((*miningModel)(x), &start)
+}
+
 func (*MiningModel) modelElement() {}
 
 /*
@@ -4295,6 +4304,15 @@ type RegressionModel struct {
 	Extensions []Extension `xml:"Extension"`
 }
 
+// UnmarshalXML implements the xml.Unmarshaler interface.
+func (x *RegressionModel) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) error {
+	type regressionModel RegressionModel
+
+	x.IsScorable = true
+
+	return decoder.DecodeElement((*regressionModel)(x), &start)
+}
+
 func (*RegressionModel) modelElement() {}
 
 /*
@@ -5592,6 +5610,7 @@ type TreeModel struct {
 func (x *TreeModel) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) error {
 	type treeModel TreeModel
 
+	x.IsScorable = true
 	x.MissingValuePenalty = 1.0
 
 	return decoder.DecodeElement((*treeModel)(x), &start)
-- 
2.43.0


From 0b819a97808ab753f9cdc9712c7c937c2ddf9cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:15 +0000
Subject: [PATCH 43/62] fix: refuse a MiningModel with an unsupported mining
 function

---
 evaluation/mining.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/evaluation/mining.go b/evaluation/mining.go
index 7d9860c..89b607f 100644
--- a/evaluation/mining.go
+++ b/evaluation/mining.go
@@ -49,6 +49,11 @@ func (m *MiningModel) Verify() error {
 }
 
 func (m *MiningModel) Validate() error {
+	if m.model.FunctionName != models.MiningFunctionClassification &&
+		m.model.FunctionName != models.MiningFunctionRegression {
+		return fmt.Errorf("unsupported mining function %s", m.model.FunctionName)
+	}
+
 	if string(m.model.Segmentation.MultipleModelMethod) == "" {
 		m.model.Segmentation.MultipleModelMethod = models.MultipleModelMethodSum
 	}
-- 
2.43.0


From ed35d4c87330f8511af8f1a16d1db4ea1fea0282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:58 +0000
Subject: [PATCH 44/62] fix: refuse a MiningModel without segments

---
 evaluation/mining.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/evaluation/mining.go b/evaluation/mining.go
index 89b607f..a59494f 100644
--- a/evaluation/mining.go
+++ b/evaluation/mining.go
@@ -64,6 +64,10 @@ func (m *MiningModel) Validate() error {
 		return fmt.Errorf("unsupported multiple model method %s", m.model.Segmentation.MultipleModelMethod)
 	}
 
+	if len(m.model.Segmentation.Segments) == 0 {
+		return errors.New("unsupported mining model without segments")
+	}
+
 	for _, f := range m.model.Output.Fields {
 		if f.Feature != "" && f.Feature != models.ResultFeatureProbability {
 			return fmt.Errorf("unsupported output feature type %s", f.Feature)
-- 
2.43.0


From 9ae409fef5a2896ee42a7c2e1cae000f5642a96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:00 +0000
Subject: [PATCH 45/62] fix: refuse models embedded in tree nodes

---
 evaluation/tree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index 6bb239c..300b236 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -533,6 +533,10 @@ func newNode(m *TreeModel, modelNode models.Node) (node, error) {
 		m:            m,
 	}
 
+	if modelNode.EmbeddedModel != nil {
+		return n, fmt.Errorf("unsupported embedded model %T in node %s", modelNode.EmbeddedModel, modelNode.ID)
+	}
+
 	score := scoreDist{
 		value:       modelNode.Score,
 		recordCount: float64(modelNode.RecordCount),
-- 
2.43.0


From 209d5de6b3dfabb6886448993918fb4a45aa95d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:01 +0000
Subject: [PATCH 46/62] fix: refuse MapValues without an InlineTable

---
 evaluation/input.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/evaluation/input.go b/evaluation/input.go
index 6b37287..0d8b4f8 100644
--- a/evaluation/input.go
+++ b/evaluation/input.go
@@ -137,6 +137,10 @@ func handleMapValuesExpression(expr *models.MapValues, in DataRow, dd *models.Da
 	columns := make(map[string]Value)
 	outputColumn := expr.OutputColumn
 
+	if len(expr.InlineTables) == 0 {
+		return NewValue(nil), fmt.Errorf("unsupported MapValues without InlineTable")
+	}
+
 	for _, pair := range expr.FieldColumnPairs {
 		data, ok := in[pair.Field]
 		if ok && data.Raw() != nil {
-- 
2.43.0


From 0605115bf4885369db5cb75ec421447ca5c54c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:02 +0000
Subject: [PATCH 47/62] fix: refuse classification with an unsupported number
 of RegressionTables

---
 evaluation/regression.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/evaluation/regression.go b/evaluation/regression.go
index 6aa7381..cd81dd8 100644
--- a/evaluation/regression.go
+++ b/evaluation/regression.go
@@ -158,6 +158,10 @@ func (m *RegressionModel) EvaluateRegression(input DataRow) (DataRow, error) {
 func (m *RegressionModel) EvaluateBinaryClassification(input DataRow) (DataRow, error) {
 	out := make(DataRow)
 
+	if len(m.model.RegressionTables) != 2 {
+		return out, fmt.Errorf("binary classification expects exactly 2 RegressionTables, found: %d", len(m.model.RegressionTables))
+	}
+
 	finalPred := 1.0
 
 	for _, rtbl := range m.model.RegressionTables {
@@ -196,6 +200,10 @@ func (m *RegressionModel) EvaluateBinaryClassification(input DataRow) (DataRow,
 func (m *RegressionModel) EvaluateMulticlassClassification(input DataRow) (DataRow, error) {
 	out := make(DataRow)
 
+	if len(m.model.RegressionTables) == 0 {
+		return out, fmt.Errorf("classification expects at least 1 RegressionTable")
+	}
+
 	outFields := make(map[string]string)
 	for _, output := range m.model.Output.Fields {
 		outFields[output.Value] = string(output.Name)
-- 
2.43.0


From a153cf4c05bfc26c77c0885d78ddb3e7ebc0b0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:44 +0000
Subject: [PATCH 48/62] fix: the second class of a binary classification has
 one minus the first's probability

---
 evaluation/regression.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/evaluation/regression.go b/evaluation/regression.go
index cd81dd8..4f1f191 100644
--- a/evaluation/regression.go
+++ b/evaluation/regression.go
@@ -164,18 +164,18 @@ func (m *RegressionModel) EvaluateBinaryClassification(input DataRow) (DataRow,
 
 	finalPred := 1.0
 
-	for _, rtbl := range m.model.RegressionTables {
+	for i, rtbl := range m.model.RegressionTables {
 		pred := rtbl.Intercept + categoricalTerms(rtbl, input)
 
-		if len(rtbl.NumericPredictor) > 0 || len(rtbl.CategoricalPredictors) > 0 {
-			for _, np := range rtbl.NumericPredictor {
-				term, ok := input[np.Name]
-				if !ok || term.Raw() == nil {
-					return nil, fmt.Errorf("regression missing term %s", np.Name)
-				}
-				pred += np.Coefficient * math.Pow(term.Float64(), float64(np.Exponent))
+		for _, np := range rtbl.NumericPredictor {
+			term, ok := input[np.Name]
+			if !ok || term.Raw() == nil {
+				return nil, fmt.Errorf("regression missing term %s", np.Name)
 			}
+			pred += np.Coefficient * math.Pow(term.Float64(), float64(np.Exponent))
+		}
 
+		if i == 0 {
 			var err error
 			pred, err = m.normalize(pred)
 			if err != nil {
-- 
2.43.0


From adaca8baf1e5f6d5e5f6d9048e12360aec53b994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:14 +0000
Subject: [PATCH 49/62] fix: integers and floats beyond int64 do not wrap
 around

---
 evaluation/miningschema.go | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/evaluation/miningschema.go b/evaluation/miningschema.go
index 103f882..2099d53 100644
--- a/evaluation/miningschema.go
+++ b/evaluation/miningschema.go
@@ -2,6 +2,7 @@ package evaluation
 
 import (
 	"fmt"
+	"math"
 	"strconv"
 )
 
@@ -92,6 +93,9 @@ func (v Value) Int64() int64 {
 	}
 
 	if f, ok := v.val.(uint); ok {
+		if uint64(f) > math.MaxInt64 {
+			return math.MaxInt64
+		}
 		return int64(f)
 	}
 	if f, ok := v.val.(uint8); ok {
@@ -104,25 +108,40 @@ func (v Value) Int64() int64 {
 		return int64(f)
 	}
 	if f, ok := v.val.(uint64); ok {
+		if f > math.MaxInt64 {
+			return math.MaxInt64
+		}
 		return int64(f)
 	}
 
 	if f, ok := v.val.(float64); ok {
-		return int64(f)
+		return saturateInt64(f)
 	}
 	if f, ok := v.val.(float32); ok {
-		return int64(f)
+		return saturateInt64(float64(f))
 	}
 	if s, ok := v.val.(string); ok {
 		if i, err := strconv.ParseInt(s, 10, 64); err == nil {
 			return i
 		}
-		return int64(v.Float64())
+		return saturateInt64(v.Float64())
 	}
 
 	return 0
 }
 
+// saturateInt64 converts a float, keeping to the range of int64 instead of wrapping around.
+func saturateInt64(f float64) int64 {
+	if f >= math.MaxInt64 {
+		return math.MaxInt64
+	}
+	if f <= math.MinInt64 {
+		return math.MinInt64
+	}
+
+	return int64(f)
+}
+
 func (v Value) String() string {
 	if s, ok := v.val.(string); ok {
 		return s
-- 
2.43.0


From a892fcda14b4e947587f27e7701b00500d5a322d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:15 +0000
Subject: [PATCH 50/62] fix: the text of a float does not depend on its size

---
 evaluation/miningschema.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/evaluation/miningschema.go b/evaluation/miningschema.go
index 2099d53..57205cf 100644
--- a/evaluation/miningschema.go
+++ b/evaluation/miningschema.go
@@ -151,6 +151,13 @@ func (v Value) String() string {
 		return s.String()
 	}
 
+	if f, ok := v.val.(float64); ok {
+		return strconv.FormatFloat(f, 'f', -1, 64)
+	}
+	if f, ok := v.val.(float32); ok {
+		return strconv.FormatFloat(float64(f), 'f', -1, 32)
+	}
+
 	return fmt.Sprintf("%v", v.val)
 }
 
-- 
2.43.0


From a565ae8aae74d77fd897fc98e9f92999446bcbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:51 +0000
Subject: [PATCH 51/62] fix: a value with a String method counts as its text
 for numbers and booleans too

---
 evaluation/miningschema.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/evaluation/miningschema.go b/evaluation/miningschema.go
index 57205cf..353a546 100644
--- a/evaluation/miningschema.go
+++ b/evaluation/miningschema.go
@@ -22,6 +22,19 @@ func (v Value) Raw() interface{} {
 	return v.val
 }
 
+// text returns the value's text if it is a string or has a String method.
+func (v Value) text() (string, bool) {
+	if s, ok := v.val.(string); ok {
+		return s, true
+	}
+
+	if s, ok := v.val.(stringer); ok {
+		return s.String(), true
+	}
+
+	return "", false
+}
+
 func (v Value) Float32() float32 {
 	if f, ok := v.val.(float32); ok {
 		return f
@@ -43,7 +56,7 @@ func (v Value) Float64() float64 {
 		return float64(f)
 	}
 
-	if s, ok := v.val.(string); ok {
+	if s, ok := v.text(); ok {
 		f, err := strconv.ParseFloat(s, 64)
 		if err != nil {
 			return 0.0
@@ -62,7 +75,7 @@ func (v Value) Float64() float64 {
 }
 
 func (v Value) Bool() bool {
-	if s, ok := v.val.(string); ok {
+	if s, ok := v.text(); ok {
 		b, err := strconv.ParseBool(s)
 		return err == nil && b
 	}
@@ -120,7 +133,7 @@ func (v Value) Int64() int64 {
 	if f, ok := v.val.(float32); ok {
 		return saturateInt64(float64(f))
 	}
-	if s, ok := v.val.(string); ok {
+	if s, ok := v.text(); ok {
 		if i, err := strconv.ParseInt(s, 10, 64); err == nil {
 			return i
 		}
-- 
2.43.0


From f9d2d70acefe7d3230fbcffd5a9f022719de02b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:41 +0000
Subject: [PATCH 52/62] fix: nil pointers with a String method do not panic

---
 evaluation/miningschema.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/evaluation/miningschema.go b/evaluation/miningschema.go
index 353a546..9ec3cf2 100644
--- a/evaluation/miningschema.go
+++ b/evaluation/miningschema.go
@@ -3,6 +3,7 @@ package evaluation
 import (
 	"fmt"
 	"math"
+	"reflect"
 	"strconv"
 )
 
@@ -28,13 +29,19 @@ func (v Value) text() (string, bool) {
 		return s, true
 	}
 
-	if s, ok := v.val.(stringer); ok {
+	if s, ok := v.val.(stringer); ok && !isNilPointer(v.val) {
 		return s.String(), true
 	}
 
 	return "", false
 }
 
+// isNilPointer tells whether a String method may panic because there is no value behind it.
+func isNilPointer(val interface{}) bool {
+	r := reflect.ValueOf(val)
+	return r.Kind() == reflect.Ptr && r.IsNil()
+}
+
 func (v Value) Float32() float32 {
 	if f, ok := v.val.(float32); ok {
 		return f
@@ -156,14 +163,10 @@ func saturateInt64(f float64) int64 {
 }
 
 func (v Value) String() string {
-	if s, ok := v.val.(string); ok {
+	if s, ok := v.text(); ok {
 		return s
 	}
 
-	if s, ok := v.val.(stringer); ok {
-		return s.String()
-	}
-
 	if f, ok := v.val.(float64); ok {
 		return strconv.FormatFloat(f, 'f', -1, 64)
 	}
-- 
2.43.0


From 2583239c942c4a22546a6b93cfdabcea85bcc820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:16 +0000
Subject: [PATCH 53/62] fix: the text of an integral float is exact

---
 evaluation/miningschema.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/evaluation/miningschema.go b/evaluation/miningschema.go
index 9ec3cf2..ef235a6 100644
--- a/evaluation/miningschema.go
+++ b/evaluation/miningschema.go
@@ -168,15 +168,24 @@ func (v Value) String() string {
 	}
 
 	if f, ok := v.val.(float64); ok {
-		return strconv.FormatFloat(f, 'f', -1, 64)
+		return formatFloat(f, 64)
 	}
 	if f, ok := v.val.(float32); ok {
-		return strconv.FormatFloat(float64(f), 'f', -1, 32)
+		return formatFloat(float64(f), 32)
 	}
 
 	return fmt.Sprintf("%v", v.val)
 }
 
+// formatFloat writes integers exactly and other numbers with as few digits as identify them.
+func formatFloat(f float64, bitSize int) string {
+	if f == math.Trunc(f) {
+		return strconv.FormatFloat(f, 'f', 0, 64)
+	}
+
+	return strconv.FormatFloat(f, 'f', -1, bitSize)
+}
+
 type DataRow map[string]Value
 
 func (r DataRow) clone() DataRow {
-- 
2.43.0


From 67ab7d698a2499f3c8eb8d9610ac840411f61800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:05 +0000
Subject: [PATCH 54/62] fix: refuse to sum segments with several outputs of
 which none is the score

---
 evaluation/mining.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/evaluation/mining.go b/evaluation/mining.go
index a59494f..4baf26d 100644
--- a/evaluation/mining.go
+++ b/evaluation/mining.go
@@ -223,6 +223,9 @@ func (m *MiningModel) combineSegments(input DataRow, average bool) (DataRow, err
 						ok = true
 					}
 				}
+				if !ok && len(segout) > 1 {
+					return nil, fmt.Errorf("segment %d has %d outputs and none is its score", i+1, len(segout))
+				}
 				if ok {
 					scoreMap[k] = v + outval.Float64()
 				}
-- 
2.43.0


From cbab0147e37f2ca6414d0e7f725f2b600ad1d416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:19 +0000
Subject: [PATCH 55/62] fix: verification inputs from two columns of one field
 depended on map order

---
 evaluation/evaluation.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/evaluation/evaluation.go b/evaluation/evaluation.go
index 388c5f5..d33b926 100644
--- a/evaluation/evaluation.go
+++ b/evaluation/evaluation.go
@@ -35,26 +35,23 @@ func verifyModel(m Model, mv *models.ModelVerification) error {
 	}
 
 	outputMap := make(map[string]string)
-	inputMap := make(map[string]string)
 
 	for _, vField := range mv.VerificationFields.Fields {
 		if !strings.HasPrefix(vField.Column, "data:") {
 			return fmt.Errorf("verification field missing 'data:' prefix: %s", vField.Column)
 		}
 		colName := vField.Column[5:]
-		if vField.Precision == nil {
-			inputMap[colName] = string(vField.Field)
-		} else {
+		if vField.Precision != nil {
 			outputMap[colName] = string(vField.Field)
 		}
 	}
 
 	for _, vRow := range mv.InlineTable.Rows {
 		input := make(DataRow)
-		for k, v := range vRow {
-			fieldName, isInput := inputMap[k]
-			if isInput {
-				input[fieldName] = NewValue(v)
+		for _, vField := range mv.VerificationFields.Fields {
+			v, ok := vRow[vField.Column[5:]]
+			if ok && vField.Precision == nil {
+				input[string(vField.Field)] = NewValue(v)
 			}
 		}
 
-- 
2.43.0


From 0ac1707d3665662cc91c778f1bdbb882bf952421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:29 +0000
Subject: [PATCH 56/62] fix: a node whose score is not among the target's
 declared values, or that has none, predicted an empty label

---
 evaluation/tree.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index 300b236..8e2d9a8 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -110,13 +110,19 @@ func (n node) ownScoreDist() []scoreDist {
 		return n.scoreDist
 	}
 
+	if n.score.value == "" {
+		return nil
+	}
+
 	sd := make([]scoreDist, 0, 0)
+	declared := false
 
 	if n.m.targetField != "" && n.m.model.FunctionName == models.MiningFunctionClassification {
 		for _, field := range n.m.dd.DataFields {
 			if field.Name == n.m.targetField {
 				for _, val := range field.Values {
 					if val.Value == n.score.value {
+						declared = true
 						sd = append(sd, scoreDist{val.Value, 1.0, 1.0, n.score.recordCount})
 					} else {
 						sd = append(sd, scoreDist{val.Value, 0.0, 0.0, 0})
@@ -126,7 +132,7 @@ func (n node) ownScoreDist() []scoreDist {
 		}
 	}
 
-	if len(sd) == 0 && n.score.value != "" {
+	if !declared {
 		sd = append(sd, scoreDist{n.score.value, 1.0, 1.0, n.score.recordCount})
 	}
 
-- 
2.43.0


From 4b0c645f948fd2bcbd6f16f99a3e3e95bd8a0c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:31 +0000
Subject: [PATCH 57/62] fix: classes without a declared output were reported
 under an empty name

---
 evaluation/regression.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/evaluation/regression.go b/evaluation/regression.go
index 4f1f191..05d0dd6 100644
--- a/evaluation/regression.go
+++ b/evaluation/regression.go
@@ -204,15 +204,8 @@ func (m *RegressionModel) EvaluateMulticlassClassification(input DataRow) (DataR
 		return out, fmt.Errorf("classification expects at least 1 RegressionTable")
 	}
 
-	outFields := make(map[string]string)
-	for _, output := range m.model.Output.Fields {
-		outFields[output.Value] = string(output.Name)
-	}
-
 	y := make([]float64, len(m.model.RegressionTables))
-	targets := make([]string, len(m.model.RegressionTables))
 	for i, rtbl := range m.model.RegressionTables {
-		targets[i] = outFields[rtbl.TargetCategory]
 		y[i] = rtbl.Intercept + categoricalTerms(rtbl, input)
 
 		for _, np := range rtbl.NumericPredictor {
@@ -226,23 +219,32 @@ func (m *RegressionModel) EvaluateMulticlassClassification(input DataRow) (DataR
 		}
 	}
 
-	for i, target := range targets {
+	for i, rtbl := range m.model.RegressionTables {
+		pred := 0.0
+
 		switch m.model.RegressionNormalizationMethod {
 		case models.RegressionNormalizationMethodSoftmax:
 			s := 0.0
 			for _, yVal := range y {
 				s += math.Exp(yVal - y[i])
 			}
-			out[target] = NewValue(1 / s)
+			pred = 1 / s
 		case models.RegressionNormalizationMethodSimplemax:
 			s := 0.0
 			for _, yVal := range y {
 				s += yVal
 			}
-			out[target] = NewValue(y[i] / s)
+			pred = y[i] / s
 		default:
 			return out, fmt.Errorf("unsupported normalization method: %v", m.model.RegressionNormalizationMethod)
 		}
+
+		for _, output := range m.model.Output.Fields {
+			if rtbl.TargetCategory == output.Value {
+				out[string(output.Name)] = NewValue(pred)
+			}
+		}
 	}
+
 	return out, nil
 }
-- 
2.43.0


From 6fafcc8417624318b2754ef9b25a97f296caed33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:48 +0000
Subject: [PATCH 58/62] fix: a true child without a score was passed over for
 its parent's score under four missing value strategies

---
 evaluation/tree.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index 8e2d9a8..6a3bb2a 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -165,6 +165,7 @@ func (n node) evaluateMissingValueStrategyLastPrediction(input DataRow) ([]score
 	}
 
 	unknownValues := false
+	trueChild := false
 	var trueDist []scoreDist
 
 	for _, c := range n.children {
@@ -176,6 +177,7 @@ func (n node) evaluateMissingValueStrategyLastPrediction(input DataRow) ([]score
 		}
 
 		if childResult == t {
+			trueChild = true
 			trueDist = score
 			break
 		}
@@ -185,7 +187,7 @@ func (n node) evaluateMissingValueStrategyLastPrediction(input DataRow) ([]score
 		return n.ownScoreDist(), t
 	}
 
-	if !unknownValues && len(trueDist) != 0 {
+	if !unknownValues && trueChild {
 		return trueDist, t
 	}
 
@@ -200,6 +202,7 @@ func (n node) evaluateMissingValueStrategyDefaultChild(input DataRow) ([]scoreDi
 	}
 
 	unknownValues := false
+	trueChild := false
 	var trueDist []scoreDist
 
 	for _, c := range n.children {
@@ -211,12 +214,13 @@ func (n node) evaluateMissingValueStrategyDefaultChild(input DataRow) ([]scoreDi
 		}
 
 		if childResult == t {
+			trueChild = true
 			trueDist = score
 			break
 		}
 	}
 
-	if !unknownValues && len(trueDist) != 0 {
+	if !unknownValues && trueChild {
 		return trueDist, t
 	}
 
@@ -287,6 +291,7 @@ func (n node) evaluateMissingValueStrategyWeightedConfidence(input DataRow) ([]s
 	}
 
 	unknownValues := false
+	trueChild := false
 	var trueDist []scoreDist
 	childScores := make([][]scoreDist, len(n.children))
 	totalRecordCount := 0.0
@@ -302,6 +307,7 @@ func (n node) evaluateMissingValueStrategyWeightedConfidence(input DataRow) ([]s
 		if childResult == u {
 			unknownValues = true
 		} else if childResult == t {
+			trueChild = true
 			trueDist = scores
 			if !unknownValues {
 				break
@@ -309,7 +315,7 @@ func (n node) evaluateMissingValueStrategyWeightedConfidence(input DataRow) ([]s
 		}
 	}
 
-	if !unknownValues && len(trueDist) > 0 {
+	if !unknownValues && trueChild {
 		return trueDist, result
 	}
 
@@ -355,6 +361,7 @@ func (n node) evaluateMissingValueStrategyAggregateNodes(input DataRow) ([]score
 
 	childScores := make([]scoreDist, 0, 0)
 	unknownValues := false
+	trueChild := false
 	var trueDist []scoreDist
 
 	for _, c := range n.children {
@@ -366,6 +373,7 @@ func (n node) evaluateMissingValueStrategyAggregateNodes(input DataRow) ([]score
 		if childResult == u {
 			unknownValues = true
 		} else if childResult == t {
+			trueChild = true
 			trueDist = score
 			if !unknownValues {
 				break
@@ -373,7 +381,7 @@ func (n node) evaluateMissingValueStrategyAggregateNodes(input DataRow) ([]score
 		}
 	}
 
-	if !unknownValues && len(trueDist) != 0 {
+	if !unknownValues && trueChild {
 		return trueDist, result
 	}
 
-- 
2.43.0


From 7725672ae84e19cfbfc283329e379406026f2dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:47 +0000
Subject: [PATCH 59/62] fix: numbers, texts and truth values of defined Go
 types counted as 0, and as false

---
 evaluation/miningschema.go | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/evaluation/miningschema.go b/evaluation/miningschema.go
index ef235a6..64b8096 100644
--- a/evaluation/miningschema.go
+++ b/evaluation/miningschema.go
@@ -36,6 +36,32 @@ func (v Value) text() (string, bool) {
 	return "", false
 }
 
+// basic turns a value of a type defined in terms of one of Go's own number, text or truth value types into one of
+// those, unless it has a String method to speak for it.
+func (v Value) basic() Value {
+	switch v.val.(type) {
+	case nil, string, bool, float64, float32, int, int64, int32, int16, int8, uint, uint64, uint32, uint16, uint8, stringer:
+		return v
+	}
+
+	switch r := reflect.ValueOf(v.val); r.Kind() {
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		return NewValue(r.Int())
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
+		return NewValue(r.Uint())
+	case reflect.Float32:
+		return NewValue(float32(r.Float()))
+	case reflect.Float64:
+		return NewValue(r.Float())
+	case reflect.Bool:
+		return NewValue(r.Bool())
+	case reflect.String:
+		return NewValue(r.String())
+	}
+
+	return v
+}
+
 // isNilPointer tells whether a String method may panic because there is no value behind it.
 func isNilPointer(val interface{}) bool {
 	r := reflect.ValueOf(val)
@@ -43,6 +69,8 @@ func isNilPointer(val interface{}) bool {
 }
 
 func (v Value) Float32() float32 {
+	v = v.basic()
+
 	if f, ok := v.val.(float32); ok {
 		return f
 	}
@@ -55,6 +83,8 @@ func (v Value) Float32() float32 {
 }
 
 func (v Value) Float64() float64 {
+	v = v.basic()
+
 	if f, ok := v.val.(float64); ok {
 		return f
 	}
@@ -82,6 +112,8 @@ func (v Value) Float64() float64 {
 }
 
 func (v Value) Bool() bool {
+	v = v.basic()
+
 	if s, ok := v.text(); ok {
 		b, err := strconv.ParseBool(s)
 		return err == nil && b
@@ -96,6 +128,8 @@ func (v Value) Bool() bool {
 }
 
 func (v Value) Int64() int64 {
+	v = v.basic()
+
 	if f, ok := v.val.(int); ok {
 		return int64(f)
 	}
@@ -163,6 +197,8 @@ func saturateInt64(f float64) int64 {
 }
 
 func (v Value) String() string {
+	v = v.basic()
+
 	if s, ok := v.text(); ok {
 		return s
 	}
-- 
2.43.0


From 002c05025d2cea89f0fd54b794cc4d6daa86bfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:55 +0000
Subject: [PATCH 60/62] fix: a tree whose target has the usage predicted, as
 before PMML 4.2, gave its label no name

---
 evaluation/tree.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index 6a3bb2a..0037060 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -829,7 +829,9 @@ func evaluateCompoundPredicate(p *models.CompoundPredicate, input DataRow, field
 
 func (m *TreeModel) Compile() error {
 	for _, f := range m.model.MiningSchema.MiningFields {
-		if f.UsageType == models.FieldUsageTypeTarget {
+		// Before PMML 4.2 the target is called predicted.
+		if f.UsageType == models.FieldUsageTypeTarget ||
+			f.UsageType == models.FieldUsageTypePredicted && m.targetField == "" {
 			m.targetField = f.Name
 		}
 	}
-- 
2.43.0


From e8c2b982e5c4284ab8554df0a03239747d007319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:16 +0000
Subject: [PATCH 61/62] fix: Verify took expectations and predictions that are
 not numbers for 0

---
 evaluation/evaluation.go   | 10 ++++++++--
 evaluation/miningschema.go |  9 +++++++++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/evaluation/evaluation.go b/evaluation/evaluation.go
index d33b926..1960ac8 100644
--- a/evaluation/evaluation.go
+++ b/evaluation/evaluation.go
@@ -63,12 +63,18 @@ func verifyModel(m Model, mv *models.ModelVerification) error {
 		for k, v := range vRow {
 			fieldName, isOutput := outputMap[k]
 			if isOutput {
-				expected := NewValue(v).Float64()
+				expected, err := NewValue(v).number()
+				if err != nil {
+					return err
+				}
 				predictedVal, ok := output[fieldName]
 				if !ok {
 					return fmt.Errorf("expected output: %s not produced by model", fieldName)
 				}
-				predicted := predictedVal.Float64()
+				predicted, err := predictedVal.number()
+				if err != nil {
+					return err
+				}
 				delta := expected - predicted
 				if !(math.Abs(delta) <= 1e-5*math.Abs(expected)) {
 					return fmt.Errorf("%s: expected %f, predicted %f, error %f", k, expected, predicted, delta)
diff --git a/evaluation/miningschema.go b/evaluation/miningschema.go
index 64b8096..ff28ab9 100644
--- a/evaluation/miningschema.go
+++ b/evaluation/miningschema.go
@@ -111,6 +111,15 @@ func (v Value) Float64() float64 {
 	return float64(v.Int64())
 }
 
+// number is Float64 for values that have to be numbers.
+func (v Value) number() (float64, error) {
+	if s, ok := v.basic().text(); ok {
+		return strconv.ParseFloat(s, 64)
+	}
+
+	return v.Float64(), nil
+}
+
 func (v Value) Bool() bool {
 	v = v.basic()
 
-- 
2.43.0


From df0a986153295be140c57ba61a46e0293367c499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:44 +0000
Subject: [PATCH 62/62] fix: softmax of a score that overflows is not NaN

---
 evaluation/regression.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/evaluation/regression.go b/evaluation/regression.go
index 05d0dd6..e677a04 100644
--- a/evaluation/regression.go
+++ b/evaluation/regression.go
@@ -197,6 +197,11 @@ func (m *RegressionModel) EvaluateBinaryClassification(input DataRow) (DataRow,
 	return out, nil
 }
 
+// finite keeps a score that overflows comparable with others that do.
+func finite(y float64) float64 {
+	return math.Max(-math.MaxFloat64, math.Min(math.MaxFloat64, y))
+}
+
 func (m *RegressionModel) EvaluateMulticlassClassification(input DataRow) (DataRow, error) {
 	out := make(DataRow)
 
@@ -226,7 +231,7 @@ func (m *RegressionModel) EvaluateMulticlassClassification(input DataRow) (DataR
 		case models.RegressionNormalizationMethodSoftmax:
 			s := 0.0
 			for _, yVal := range y {
-				s += math.Exp(yVal - y[i])
+				s += math.Exp(finite(yVal) - finite(y[i]))
 			}
 			pred = 1 / s
 		case models.RegressionNormalizationMethodSimplemax:
-- 
2.43.0

