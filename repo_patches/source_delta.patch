From 41485e398ad64a892f5c3bb216106fdc5278bdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:47 +0000
Subject: [PATCH 01/28] fix: report an error instead of crashing when a
 comparison has no arguments

---
 engine/util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/engine/util.go b/engine/util.go
index d9279a8..02b4a42 100644
--- a/engine/util.go
+++ b/engine/util.go
@@ -52,7 +52,7 @@ func EvalAndCastAny[T any](value any, env *core.Env, mode core.EvalMode, e core.
 // It only compares values of the same type
 func compareValues(cdr []*core.YispNode, opName string, expectEqual bool) (*core.YispNode, error) {
 	if len(cdr) != 2 {
-		return nil, core.NewEvaluationError(cdr[0], fmt.Sprintf("%s requires 2 arguments, got %d", opName, len(cdr)))
+		return nil, core.NewEvaluationError(nil, fmt.Sprintf("%s requires 2 arguments, got %d", opName, len(cdr)))
 	}
 
 	firstNode := cdr[0]
@@ -115,7 +115,7 @@ func compareValues(cdr []*core.YispNode, opName string, expectEqual bool) (*core
 // It handles both integers and floating point numbers
 func compareNumbers(cdr []*core.YispNode, opName string, cmp func(float64, float64) bool) (*core.YispNode, error) {
 	if len(cdr) != 2 {
-		return nil, core.NewEvaluationError(cdr[0], fmt.Sprintf("%s requires 2 arguments, got %d", opName, len(cdr)))
+		return nil, core.NewEvaluationError(nil, fmt.Sprintf("%s requires 2 arguments, got %d", opName, len(cdr)))
 	}
 
 	firstNode := cdr[0]
-- 
2.43.0


From 853cc67a40efddaf9b6f67b2e942aaa1a1bc3904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:03 +0000
Subject: [PATCH 02/28] fix: report an error instead of crashing when lists are
 compared

---
 engine/util.go | 4 ++++
 lib/lists.go   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/engine/util.go b/engine/util.go
index 02b4a42..29a2036 100644
--- a/engine/util.go
+++ b/engine/util.go
@@ -3,6 +3,7 @@ package engine
 import (
 	"encoding/json"
 	"fmt"
+	"reflect"
 
 	"github.com/totegamma/yisp/core"
 	"github.com/totegamma/yisp/internal/yaml"
@@ -97,6 +98,9 @@ func compareValues(cdr []*core.YispNode, opName string, expectEqual bool) (*core
 		}
 	default:
 		// For other types, we just check if they're the same type and value
+		if !reflect.ValueOf(firstNode.Value).Comparable() && !reflect.ValueOf(secondNode.Value).Comparable() {
+			return nil, core.NewEvaluationError(firstNode, fmt.Sprintf("%s cannot compare %s and %s", opName, firstNode.Kind, secondNode.Kind))
+		}
 		equal = firstNode.Value == secondNode.Value
 	}
 
diff --git a/lib/lists.go b/lib/lists.go
index 75ae2be..d373b32 100644
--- a/lib/lists.go
+++ b/lib/lists.go
@@ -2,6 +2,7 @@ package lib
 
 import (
 	"fmt"
+	"reflect"
 
 	"github.com/totegamma/yisp/core"
 )
@@ -129,6 +130,9 @@ func opListContains(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e c
 		if !ok {
 			return nil, core.NewEvaluationError(listNode, fmt.Sprintf("invalid item type: %T", item))
 		}
+		if !reflect.ValueOf(itemNode.Value).Comparable() && !reflect.ValueOf(elemNode.Value).Comparable() {
+			return nil, core.NewEvaluationError(listNode, fmt.Sprintf("contains cannot compare %s and %s", itemNode.Kind, elemNode.Kind))
+		}
 		if itemNode.Value == elemNode.Value {
 			return &core.YispNode{
 				Kind:  core.KindBool,
-- 
2.43.0


From f54ed43bbad9c3e20c1bc92a2d6bc4e59a98efab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:11 +0000
Subject: [PATCH 03/28] fix: compare integers exactly instead of through
 float64

---
 engine/util.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/engine/util.go b/engine/util.go
index 29a2036..c09de24 100644
--- a/engine/util.go
+++ b/engine/util.go
@@ -144,6 +144,18 @@ func compareNumbers(cdr []*core.YispNode, opName string, cmp func(float64, float
 		return nil, core.NewEvaluationError(secondNode, fmt.Sprintf("invalid second argument type for %s: %T (value: %v)", opName, secondNode.Value, secondNode.Value))
 	}
 
+	// integers are compared exactly: float64 cannot tell large ones apart
+	a, aIsInt := firstNode.Value.(int)
+	b, bIsInt := secondNode.Value.(int)
+	if aIsInt && bIsInt {
+		firstNum, secondNum = 0, 0
+		if a < b {
+			secondNum = 1
+		} else if a > b {
+			firstNum = 1
+		}
+	}
+
 	return &core.YispNode{
 		Kind:  core.KindBool,
 		Value: cmp(firstNum, secondNum),
-- 
2.43.0


From de204b5d36885c1e1b3d7e20b6df209b8bcc893e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:55 +0000
Subject: [PATCH 04/28] fix: null stays comparable in ==, != and lists.contains

---
 engine/util.go | 2 +-
 lib/lists.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/engine/util.go b/engine/util.go
index c09de24..826962e 100644
--- a/engine/util.go
+++ b/engine/util.go
@@ -98,7 +98,7 @@ func compareValues(cdr []*core.YispNode, opName string, expectEqual bool) (*core
 		}
 	default:
 		// For other types, we just check if they're the same type and value
-		if !reflect.ValueOf(firstNode.Value).Comparable() && !reflect.ValueOf(secondNode.Value).Comparable() {
+		if firstNode.Value != nil && secondNode.Value != nil && !reflect.ValueOf(firstNode.Value).Comparable() && !reflect.ValueOf(secondNode.Value).Comparable() {
 			return nil, core.NewEvaluationError(firstNode, fmt.Sprintf("%s cannot compare %s and %s", opName, firstNode.Kind, secondNode.Kind))
 		}
 		equal = firstNode.Value == secondNode.Value
diff --git a/lib/lists.go b/lib/lists.go
index d373b32..3b57e3f 100644
--- a/lib/lists.go
+++ b/lib/lists.go
@@ -130,7 +130,7 @@ func opListContains(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e c
 		if !ok {
 			return nil, core.NewEvaluationError(listNode, fmt.Sprintf("invalid item type: %T", item))
 		}
-		if !reflect.ValueOf(itemNode.Value).Comparable() && !reflect.ValueOf(elemNode.Value).Comparable() {
+		if itemNode.Value != nil && elemNode.Value != nil && !reflect.ValueOf(itemNode.Value).Comparable() && !reflect.ValueOf(elemNode.Value).Comparable() {
 			return nil, core.NewEvaluationError(listNode, fmt.Sprintf("contains cannot compare %s and %s", itemNode.Kind, elemNode.Kind))
 		}
 		if itemNode.Value == elemNode.Value {
-- 
2.43.0


From 2f8248b35662eee30e85ae4f4dccf40f9960ed5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:20 +0000
Subject: [PATCH 05/28] fix: report an error instead of crashing when progn or
 pipeline has no arguments

---
 engine/apply.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/engine/apply.go b/engine/apply.go
index 9d76a39..ec525f1 100644
--- a/engine/apply.go
+++ b/engine/apply.go
@@ -396,11 +396,19 @@ func opInclude(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.E
 }
 
 func opProgn(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engine) (*core.YispNode, error) {
+	if len(cdr) == 0 {
+		return nil, core.NewEvaluationError(nil, "progn requires at least 1 argument, got 0")
+	}
+
 	return cdr[len(cdr)-1], nil
 }
 
 func opPipeline(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engine) (*core.YispNode, error) {
 
+	if len(cdr) == 0 {
+		return nil, core.NewEvaluationError(nil, "pipeline requires at least 1 argument, got 0")
+	}
+
 	value := cdr[0]
 
 	for _, fn := range cdr[1:] {
-- 
2.43.0


From b5b7777196b713c1bc6dca239b7927d260afe87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:20 +0000
Subject: [PATCH 06/28] fix: reduce reports a first item that is no node
 instead of crashing

---
 lib/lists.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/lists.go b/lib/lists.go
index 3b57e3f..50f63a5 100644
--- a/lib/lists.go
+++ b/lib/lists.go
@@ -311,20 +311,23 @@ func opReduce(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.En
 		return nil, core.NewEvaluationError(listNode, "reduce: empty list")
 	}
 
-	accumulator := arr[0] // Start with the first element
+	accumulator, ok := arr[0].(*core.YispNode) // Start with the first element
+	if !ok {
+		return nil, core.NewEvaluationError(listNode, fmt.Sprintf("invalid item type: %T", arr[0]))
+	}
 	for _, item := range arr[1:] {
 		itemNode, ok := item.(*core.YispNode)
 		if !ok {
 			return nil, core.NewEvaluationError(listNode, fmt.Sprintf("invalid item type: %T", item))
 		}
-		result, err := e.Apply(fnNode, []*core.YispNode{accumulator.(*core.YispNode), itemNode}, env, mode)
+		result, err := e.Apply(fnNode, []*core.YispNode{accumulator, itemNode}, env, mode)
 		if err != nil {
 			return nil, core.NewEvaluationErrorWithParent(fnNode, "failed to evaluate reduce function", err)
 		}
 		accumulator = result
 	}
 
-	return accumulator.(*core.YispNode), nil
+	return accumulator, nil
 }
 
 // opIota generates a list of integers from 0 to n-1
-- 
2.43.0


From 6411cc042650a3f836b84325876bd131e43c8223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:34 +0000
Subject: [PATCH 07/28] fix: strings.format without arguments reports an error
 instead of crashing

---
 lib/strings.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/strings.go b/lib/strings.go
index 2042682..5f28ea3 100644
--- a/lib/strings.go
+++ b/lib/strings.go
@@ -100,6 +100,9 @@ func opQuote(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Eng
 }
 
 func opFormat(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engine) (*core.YispNode, error) {
+	if len(cdr) == 0 {
+		return nil, core.NewEvaluationError(nil, "format requires at least 1 argument, got 0")
+	}
 
 	formatNode := cdr[0]
 	argsNode := cdr[1:]
-- 
2.43.0


From 1f7c78aa3f8fcbf049b863d01e739a202d21a5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:34 +0000
Subject: [PATCH 08/28] fix: strings.quote and maps.from-entries report bad
 arguments instead of crashing

---
 lib/maps.go    | 3 +++
 lib/strings.go | 6 +-----
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/lib/maps.go b/lib/maps.go
index 32ad9e5..9a1b8a8 100644
--- a/lib/maps.go
+++ b/lib/maps.go
@@ -17,6 +17,9 @@ func init() {
 }
 
 func opFromEntries(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engine) (*core.YispNode, error) {
+	if len(cdr) == 0 {
+		return nil, core.NewEvaluationError(nil, fmt.Sprintf("fromEntries requires 1 argument, got %d", len(cdr)))
+	}
 
 	node := cdr[0]
 	arr, ok := node.Value.([]any)
diff --git a/lib/strings.go b/lib/strings.go
index 5f28ea3..51d2809 100644
--- a/lib/strings.go
+++ b/lib/strings.go
@@ -78,11 +78,7 @@ func opQuote(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Eng
 	case core.KindFloat:
 		value = fmt.Sprintf("%f", cdr[0].Value)
 	case core.KindBool:
-		if cdr[0].Value.(bool) {
-			value = "true"
-		} else {
-			value = "false"
-		}
+		value = fmt.Sprintf("%v", cdr[0].Value)
 	default:
 		value = fmt.Sprintf("%v", cdr[0].Value)
 	}
-- 
2.43.0


From c8456518679e24a37a913b68301e207399a10f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:16 +0000
Subject: [PATCH 09/28] fix: look up optional names without their '?' and allow
 empty name segments

*foo? never found a bound foo, and a name with an empty segment crashed.
---
 core/env.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/env.go b/core/env.go
index f99aa75..3408569 100644
--- a/core/env.go
+++ b/core/env.go
@@ -91,12 +91,12 @@ func (e *Env) Get(key string) (*YispNode, bool) {
 
 	fst := split[0]
 	optional := false
-	if fst[len(fst)-1] == '?' {
+	if strings.HasSuffix(fst, "?") {
 		fst = fst[:len(fst)-1]
 		optional = true
 	}
 
-	value, ok := e.Vars[split[0]]
+	value, ok := e.Vars[fst]
 	if !ok {
 		if e.Parent != nil {
 			return e.Parent.Get(key)
@@ -111,7 +111,7 @@ func (e *Env) Get(key string) (*YispNode, bool) {
 	}
 
 	for _, key := range split[1:] {
-		if key[len(key)-1] == '?' {
+		if strings.HasSuffix(key, "?") {
 			key = key[:len(key)-1]
 			optional = true
 		} else {
-- 
2.43.0


From 7dd793b1cea9e99e4359911e2501c389f0981acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:17 +0000
Subject: [PATCH 10/28] fix: applying a function to the wrong number of
 arguments is an error

Too many arguments crashed and too few left parameters unbound.
---
 engine/apply.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/engine/apply.go b/engine/apply.go
index ec525f1..0305590 100644
--- a/engine/apply.go
+++ b/engine/apply.go
@@ -23,6 +23,10 @@ func (e *engine) Apply(car *core.YispNode, cdr []*core.YispNode, env *core.Env,
 			return nil, core.NewEvaluationError(car, fmt.Sprintf("invalid lambda type: %T", car.Value))
 		}
 
+		if len(cdr) != len(lambda.Arguments) {
+			return nil, core.NewEvaluationError(car, fmt.Sprintf("function requires %d arguments, got %d", len(lambda.Arguments), len(cdr)))
+		}
+
 		newEnv := lambda.Clojure.CreateChild()
 		for i, node := range cdr {
 			if lambda.Arguments[i].Schema != nil {
-- 
2.43.0


From 5eb33bf3a1010df64707d42640e5afe02a1c8bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:17 +0000
Subject: [PATCH 11/28] fix: an operator name with more than two segments is
 unknown

lists.car.anything ran lists.car.
---
 engine/apply.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/apply.go b/engine/apply.go
index 0305590..b6a6706 100644
--- a/engine/apply.go
+++ b/engine/apply.go
@@ -50,7 +50,7 @@ func (e *engine) Apply(car *core.YispNode, cdr []*core.YispNode, env *core.Env,
 		split := strings.Split(op, ".")
 		if len(split) > 1 { // lib operator
 			fn, ok := lib.GetOperator(split[0], split[1])
-			if !ok {
+			if !ok || len(split) > 2 {
 				return nil, core.NewEvaluationError(car, fmt.Sprintf("unknown function name: %s", op))
 			}
 
-- 
2.43.0


From 511cdc7692328c4dc312142b0262e5511f2794b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:07 +0000
Subject: [PATCH 12/28] fix: a lambda whose parameters are no list is an error
 instead of a crash

---
 engine/eval.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/engine/eval.go b/engine/eval.go
index 78be504..abc5ed5 100644
--- a/engine/eval.go
+++ b/engine/eval.go
@@ -184,7 +184,11 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 				bodyNode := nodes[2]
 
 				params := make([]core.TypedSymbol, 0)
-				for _, item := range paramsNode.Value.([]any) {
+				paramItems, ok := paramsNode.Value.([]any)
+				if !ok {
+					return nil, core.NewEvaluationError(paramsNode, fmt.Sprintf("lambda requires a list of parameters, got %s", paramsNode.Kind))
+				}
+				for _, item := range paramItems {
 					paramNode, ok := item.(*core.YispNode)
 					if !ok {
 						return nil, core.NewEvaluationError(nil, fmt.Sprintf("invalid param type: %T", item))
-- 
2.43.0


From 31c80c71263e0ff8585421ff68fe286530fbf9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:09 +0000
Subject: [PATCH 13/28] fix: report a malformed symbol or merge list instead of
 crashing

---
 engine/eval.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/engine/eval.go b/engine/eval.go
index abc5ed5..a184d69 100644
--- a/engine/eval.go
+++ b/engine/eval.go
@@ -31,10 +31,14 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 
 	switch node.Kind {
 	case core.KindSymbol:
-		var ok bool
 		var body any
 
-		body, ok = env.Get(node.Value.(string))
+		name, ok := node.Value.(string)
+		if !ok {
+			return nil, core.NewEvaluationError(node, fmt.Sprintf("invalid symbol name: %T", node.Value))
+		}
+
+		body, ok = env.Get(name)
 		if !ok {
 			return nil, core.NewEvaluationError(node, fmt.Sprintf("undefined symbol: %s", node.Value))
 		}
@@ -381,7 +385,11 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 						results.Set(k, v)
 					}
 				} else if val.Kind == core.KindArray {
-					for _, item := range val.Value.([]any) {
+					items, ok := val.Value.([]any)
+					if !ok {
+						return nil, core.NewEvaluationError(node, fmt.Sprintf("invalid merge item type: %T", val.Value))
+					}
+					for _, item := range items {
 						node, ok := item.(*core.YispNode)
 						if !ok {
 							return nil, core.NewEvaluationError(node, fmt.Sprintf("invalid merge item type: %T", item))
-- 
2.43.0


From 6f15af3cd7b71c70bd3b93e98fca2b5fdbb5b937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:34 +0000
Subject: [PATCH 14/28] fix: evaluate every YAML spelling of booleans, integers
 and floats

---
 engine/eval.go | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/engine/eval.go b/engine/eval.go
index a184d69..5939e64 100644
--- a/engine/eval.go
+++ b/engine/eval.go
@@ -2,6 +2,7 @@ package engine
 
 import (
 	"fmt"
+	"math"
 	"strconv"
 	"strings"
 
@@ -61,9 +62,16 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 		}
 
 	case core.KindBool:
-		val := false
-		if node.Value == "true" {
-			val = true
+		val, ok := node.Value.(bool)
+		if !ok {
+			switch node.Value {
+			case "true", "True", "TRUE":
+				val = true
+			case "false", "False", "FALSE":
+				val = false
+			default:
+				return nil, core.NewEvaluationError(node, fmt.Sprintf("invalid bool value: %v", node.Value))
+			}
 		}
 		result = &core.YispNode{
 			Kind:  core.KindBool,
@@ -83,9 +91,18 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 			}
 
 			var err error
-			f, err = strconv.ParseFloat(fStr, 64)
-			if err != nil {
-				return nil, core.NewEvaluationError(node, fmt.Sprintf("invalid float value: %s", fStr))
+			switch strings.ToLower(fStr) {
+			case ".inf", "+.inf":
+				f = math.Inf(1)
+			case "-.inf":
+				f = math.Inf(-1)
+			case ".nan":
+				f = math.NaN()
+			default:
+				f, err = strconv.ParseFloat(strings.ReplaceAll(fStr, "_", ""), 64)
+				if err != nil {
+					return nil, core.NewEvaluationError(node, fmt.Sprintf("invalid float value: %s", fStr))
+				}
 			}
 		}
 
@@ -109,7 +126,12 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 			var err error
 			i, err = strconv.Atoi(iStr)
 			if err != nil {
-				return nil, core.NewEvaluationError(node, fmt.Sprintf("invalid int value: %s", iStr))
+				// hexadecimal, octal, binary, or with underscores
+				n, err := strconv.ParseInt(strings.ReplaceAll(iStr, "_", ""), 0, strconv.IntSize)
+				if err != nil {
+					return nil, core.NewEvaluationError(node, fmt.Sprintf("invalid int value: %s", iStr))
+				}
+				i = int(n)
 			}
 		}
 
-- 
2.43.0


From bea7dd84cc28bfe556b8501eb53d58d60a3859cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:32 +0000
Subject: [PATCH 15/28] fix: leave out nested values that have no data form
 instead of crashing

---
 engine/render.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/engine/render.go b/engine/render.go
index 91a17fc..1c620fb 100644
--- a/engine/render.go
+++ b/engine/render.go
@@ -79,17 +79,20 @@ func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 		if !ok {
 			return nil, fmt.Errorf("invalid array value. Actual type: %T", node.Value)
 		}
-		results := make([]*yaml.Node, len(arr))
-		for i, item := range arr {
+		results := make([]*yaml.Node, 0, len(arr))
+		for _, item := range arr {
 			node, ok := item.(*core.YispNode)
 			if !ok {
 				return nil, fmt.Errorf("invalid item type: %T", item)
 			}
-			var err error
-			results[i], err = e.renderYamlNodes(node)
+			rendered, err := e.renderYamlNodes(node)
 			if err != nil {
 				return nil, err
 			}
+			if rendered == nil {
+				continue
+			}
+			results = append(results, rendered)
 		}
 		return &yaml.Node{
 			Kind:        yaml.SequenceNode,
@@ -116,6 +119,10 @@ func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 				return nil, err
 			}
 
+			if content == nil {
+				continue
+			}
+
 			results = append(results, &yaml.Node{
 				Kind:        yaml.ScalarNode,
 				Value:       key,
-- 
2.43.0


From eb51e9518805045af1f51724b0024e95ceef92fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:09 +0000
Subject: [PATCH 16/28] fix: render floats so that they read back as the same
 value

---
 engine/render.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/engine/render.go b/engine/render.go
index 1c620fb..c8fa37f 100644
--- a/engine/render.go
+++ b/engine/render.go
@@ -3,6 +3,9 @@ package engine
 import (
 	"bytes"
 	"fmt"
+	"math"
+	"strconv"
+	"strings"
 
 	"github.com/totegamma/yisp/core"
 	"github.com/totegamma/yisp/internal/yaml"
@@ -16,6 +19,27 @@ func (e *engine) getLineComment(node *core.YispNode) string {
 	return lineComment
 }
 
+// formatFloat returns a YAML float that reads back as the same value
+func formatFloat(value any) string {
+	v, ok := value.(float64)
+	if !ok {
+		return fmt.Sprintf("%f", value)
+	}
+	switch {
+	case math.IsInf(v, 1):
+		return ".inf"
+	case math.IsInf(v, -1):
+		return "-.inf"
+	case math.IsNaN(v):
+		return ".nan"
+	}
+	text := strconv.FormatFloat(v, 'g', -1, 64)
+	if !strings.ContainsAny(text, ".e") {
+		text += ".0"
+	}
+	return text
+}
+
 // Render converts a YispNode to a yaml.Node
 func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 	switch node.Kind {
@@ -55,7 +79,7 @@ func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 	case core.KindFloat:
 		return &yaml.Node{
 			Kind:        yaml.ScalarNode,
-			Value:       fmt.Sprintf("%f", node.Value),
+			Value:       formatFloat(node.Value),
 			Tag:         "!!float",
 			HeadComment: node.Attr.HeadComment,
 			LineComment: e.getLineComment(node),
-- 
2.43.0


From 521942352011a01b982d091a45427734f5d5e702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:11 +0000
Subject: [PATCH 17/28] fix: report a malformed symbol or lambda when
 converting instead of crashing

---
 core/types.go    | 6 +++++-
 engine/render.go | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/core/types.go b/core/types.go
index 2bfb08c..89f6243 100644
--- a/core/types.go
+++ b/core/types.go
@@ -201,7 +201,11 @@ func (n *YispNode) ToNative() (any, error) {
 	case KindParameter:
 		return "(parameter)", nil
 	case KindSymbol:
-		return "*" + n.Value.(string), nil
+		name, ok := n.Value.(string)
+		if !ok {
+			return nil, fmt.Errorf("invalid symbol value. Actual type: %T", n.Value)
+		}
+		return "*" + name, nil
 	case KindType:
 		return "(type)", nil
 	default:
diff --git a/engine/render.go b/engine/render.go
index c8fa37f..096f537 100644
--- a/engine/render.go
+++ b/engine/render.go
@@ -172,7 +172,10 @@ func (e *engine) renderYamlNodes(node *core.YispNode) (*yaml.Node, error) {
 	case core.KindLambda:
 		if e.renderSpecialObjects {
 			value := "λ"
-			lambda := node.Value.(*core.Lambda)
+			lambda, ok := node.Value.(*core.Lambda)
+			if !ok {
+				return nil, fmt.Errorf("invalid lambda value. Actual type: %T", node.Value)
+			}
 			for i, arg := range lambda.Arguments {
 				value += arg.Name
 				if i < len(lambda.Arguments)-1 {
-- 
2.43.0


From 015b610ad8ea8b79618f23d5efa4343f306149ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:59 +0000
Subject: [PATCH 18/28] fix: validating an int-or-string must not turn the
 integer into a string

---
 core/schema.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/core/schema.go b/core/schema.go
index a4e0f1d..17da924 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -340,8 +340,7 @@ func (s *Schema) Validate(node *YispNode) error {
 				if node.Kind != KindInt {
 					return NewEvaluationError(node, fmt.Sprintf("expected string or int, got %s", node.Kind))
 				}
-				node.Kind = KindString
-				node.Value = fmt.Sprintf("%d", node.Value.(int))
+				return nil
 			} else {
 				return NewEvaluationError(node, fmt.Sprintf("expected string, got %s", node.Kind))
 			}
-- 
2.43.0


From d3012891b6c0d73bbe31abdd771b1e27671ae8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:59 +0000
Subject: [PATCH 19/28] fix: compare numbers with schema bounds without
 truncating either

---
 core/schema.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/core/schema.go b/core/schema.go
index 17da924..efa965a 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -5,6 +5,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
+	"math"
 	"net/http"
 	"os"
 	"path/filepath"
@@ -296,16 +297,16 @@ func (s *Schema) Validate(node *YispNode) error {
 		if node.Kind != KindInt {
 			return NewEvaluationError(node, fmt.Sprintf("expected int, got %s", node.Kind))
 		}
-		if s.Minimum != nil && node.Value.(int) < int(*s.Minimum) {
+		if s.Minimum != nil && float64(node.Value.(int)) < *s.Minimum {
 			return NewEvaluationError(node, fmt.Sprintf("value %d is less than minimum %f", node.Value.(int), *s.Minimum))
 		}
-		if s.Maximum != nil && node.Value.(int) > int(*s.Maximum) {
+		if s.Maximum != nil && float64(node.Value.(int)) > *s.Maximum {
 			return NewEvaluationError(node, fmt.Sprintf("value %d is greater than maximum %f", node.Value.(int), *s.Maximum))
 		}
-		if s.ExclusiveMinimum != nil && node.Value.(int) <= int(*s.ExclusiveMinimum) {
+		if s.ExclusiveMinimum != nil && float64(node.Value.(int)) <= *s.ExclusiveMinimum {
 			return NewEvaluationError(node, fmt.Sprintf("value %d is not greater than exclusive minimum %f", node.Value.(int), *s.ExclusiveMinimum))
 		}
-		if s.ExclusiveMaximum != nil && node.Value.(int) >= int(*s.ExclusiveMaximum) {
+		if s.ExclusiveMaximum != nil && float64(node.Value.(int)) >= *s.ExclusiveMaximum {
 			return NewEvaluationError(node, fmt.Sprintf("value %d is not less than exclusive maximum %f", node.Value.(int), *s.ExclusiveMaximum))
 		}
 		if s.MultipleOf != nil {
@@ -330,7 +331,7 @@ func (s *Schema) Validate(node *YispNode) error {
 			return NewEvaluationError(node, fmt.Sprintf("value %f is not less than exclusive maximum %f", node.Value.(float64), *s.ExclusiveMaximum))
 		}
 		if s.MultipleOf != nil {
-			if int(node.Value.(float64))%*s.MultipleOf != 0 {
+			if math.Mod(node.Value.(float64), float64(*s.MultipleOf)) != 0 {
 				return NewEvaluationError(node, fmt.Sprintf("value %f is not a multiple of %d", node.Value.(float64), *s.MultipleOf))
 			}
 		}
-- 
2.43.0


From 526f841be6ff57ede1d415375d6b17571411225e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:59 +0000
Subject: [PATCH 20/28] fix: a required property must be present even when it
 is not declared

---
 core/schema.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/core/schema.go b/core/schema.go
index efa965a..6251820 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -382,15 +382,17 @@ func (s *Schema) Validate(node *YispNode) error {
 			return NewEvaluationError(node, fmt.Sprintf("expected map, got %T", node.Value))
 		}
 
+		for _, key := range s.Required {
+			if _, ok := m.Get(key); !ok {
+				return NewEvaluationError(node, fmt.Sprintf("missing required property: %s", key))
+			}
+		}
+
 		processed := make(map[string]bool)
 		for key, subSchema := range s.GetProperties() {
 			item, ok := m.Get(key)
 			if !ok {
-				if slices.Contains(s.Required, key) {
-					return NewEvaluationError(node, fmt.Sprintf("missing required property: %s", key))
-				} else {
-					continue
-				}
+				continue
 			}
 			itemNode, ok := item.(*YispNode)
 			if !ok {
-- 
2.43.0


From 97ac0b2cc748055de34294c4a477d16b9bebd1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:00 +0000
Subject: [PATCH 21/28] fix: report malformed schemas and values instead of
 crashing in validation

---
 core/schema.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/core/schema.go b/core/schema.go
index 6251820..726bf58 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -64,7 +64,7 @@ func (s *Schema) GetProperties() map[string]*Schema {
 
 	newProperties := make(map[string]*Schema, len(s.Properties))
 	for key, value := range s.Properties {
-		if value.Ref != "" {
+		if value != nil && value.Ref != "" {
 			refSchema, err := LoadSchemaFromID(value.Ref)
 			if err != nil {
 				fmt.Printf("Error loading schema from ref %s: %v\n", value.Ref, err)
@@ -111,7 +111,7 @@ func (s *Schema) GetAdditionalProperties() any {
 			return fmt.Sprintf("failed to unmarshal additionalProperties: %v", err)
 		}
 
-		if additionalSchema.Ref != "" {
+		if additionalSchema != nil && additionalSchema.Ref != "" {
 			refSchema, err := LoadSchemaFromID(additionalSchema.Ref)
 			if err != nil {
 				fmt.Printf("Error loading schema from ref %s: %v\n", additionalSchema.Ref, err)
@@ -270,6 +270,10 @@ func LoadSchemaFromGVK(group, version, kind string) (*Schema, error) {
 
 func (s *Schema) Validate(node *YispNode) error {
 
+	if s == nil {
+		return NewEvaluationError(node, "no schema to validate against")
+	}
+
 	if s.OneOf != nil {
 		var errors []string
 		for _, subSchema := range s.OneOf {
@@ -297,6 +301,9 @@ func (s *Schema) Validate(node *YispNode) error {
 		if node.Kind != KindInt {
 			return NewEvaluationError(node, fmt.Sprintf("expected int, got %s", node.Kind))
 		}
+		if _, ok := node.Value.(int); !ok {
+			return NewEvaluationError(node, fmt.Sprintf("expected int, got %T", node.Value))
+		}
 		if s.Minimum != nil && float64(node.Value.(int)) < *s.Minimum {
 			return NewEvaluationError(node, fmt.Sprintf("value %d is less than minimum %f", node.Value.(int), *s.Minimum))
 		}
@@ -310,6 +317,9 @@ func (s *Schema) Validate(node *YispNode) error {
 			return NewEvaluationError(node, fmt.Sprintf("value %d is not less than exclusive maximum %f", node.Value.(int), *s.ExclusiveMaximum))
 		}
 		if s.MultipleOf != nil {
+			if *s.MultipleOf == 0 {
+				return NewEvaluationError(node, "multipleOf must not be 0")
+			}
 			if node.Value.(int)%*s.MultipleOf != 0 {
 				return NewEvaluationError(node, fmt.Sprintf("value %d is not a multiple of %d", node.Value.(int), *s.MultipleOf))
 			}
@@ -318,6 +328,9 @@ func (s *Schema) Validate(node *YispNode) error {
 		if node.Kind != KindFloat {
 			return NewEvaluationError(node, fmt.Sprintf("expected float, got %s", node.Kind))
 		}
+		if _, ok := node.Value.(float64); !ok {
+			return NewEvaluationError(node, fmt.Sprintf("expected float, got %T", node.Value))
+		}
 		if s.Minimum != nil && node.Value.(float64) < *s.Minimum {
 			return NewEvaluationError(node, fmt.Sprintf("value %f is less than minimum %f", node.Value.(float64), *s.Minimum))
 		}
@@ -346,6 +359,9 @@ func (s *Schema) Validate(node *YispNode) error {
 				return NewEvaluationError(node, fmt.Sprintf("expected string, got %s", node.Kind))
 			}
 		}
+		if _, ok := node.Value.(string); !ok {
+			return NewEvaluationError(node, fmt.Sprintf("expected string, got %T", node.Value))
+		}
 		if s.MinLength != nil && len(node.Value.(string)) < *s.MinLength {
 			return NewEvaluationError(node, fmt.Sprintf("string length %d is less than minimum %d", len(node.Value.(string)), *s.MinLength))
 		}
@@ -570,6 +586,10 @@ func (s *Schema) Cast(node *YispNode) (*YispNode, error) {
 
 func (s *Schema) Equals(other *Schema) bool {
 
+	if s == nil || other == nil {
+		return s == other
+	}
+
 	if s.Type != other.Type {
 		return false
 	}
-- 
2.43.0


From 43cab41b0694055814e548b2145e681e30f3e6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:56 +0000
Subject: [PATCH 22/28] fix: convert the entries of imported maps in a fixed
 order

---
 core/parse.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/parse.go b/core/parse.go
index 5fa819c..b2f3779 100644
--- a/core/parse.go
+++ b/core/parse.go
@@ -4,7 +4,9 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
+	"maps"
 	"reflect"
+	"slices"
 
 	"gopkg.in/yaml.v3"
 )
@@ -82,8 +84,8 @@ func ParseAny(filename string, v any) (*YispNode, error) {
 			return nil, fmt.Errorf("expected map[string]any, got %T", v)
 		}
 
-		for key, value := range dict {
-			itemNode, err := ParseAny(filename, value)
+		for _, key := range slices.Sorted(maps.Keys(dict)) {
+			itemNode, err := ParseAny(filename, dict[key])
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From 1576ceffb937685f66ecf4492d7932af68f6ad0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:12 +0000
Subject: [PATCH 23/28] fix: casting must not change the value it is given, and
 defaults must have the kind of their type

Defaults were inserted into the very value being cast, which other names may
share, in the random order of a Go map; numbers, lists and objects kept their
decoded JSON form under a node of another kind; and a missing optional list
or object made the cast of a conforming value fail.
---
 core/schema.go | 150 +++++++++++++++++++++++++++++--------------------
 engine/eval.go |  22 ++++----
 2 files changed, 100 insertions(+), 72 deletions(-)

diff --git a/core/schema.go b/core/schema.go
index 726bf58..b56eccd 100644
--- a/core/schema.go
+++ b/core/schema.go
@@ -5,6 +5,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
+	"maps"
 	"math"
 	"net/http"
 	"os"
@@ -13,17 +14,6 @@ import (
 	"strings"
 )
 
-var schemaTypeToKind = map[string]Kind{
-	"null":     KindNull,
-	"boolean":  KindBool,
-	"integer":  KindInt,
-	"float":    KindFloat,
-	"string":   KindString,
-	"array":    KindArray,
-	"object":   KindMap,
-	"function": KindLambda,
-}
-
 type Schema struct {
 	ID                   string             `json:"$id,omitempty"`
 	Ref                  string             `json:"$ref,omitempty"`
@@ -491,97 +481,135 @@ func (s *Schema) Validate(node *YispNode) error {
 	return nil
 }
 
-func (s *Schema) InterpolateDefaults(node *YispNode) error {
+// InterpolateDefaults returns the node with the missing properties that have a default filled in.
+// The given node is not changed.
+func (s *Schema) InterpolateDefaults(node *YispNode) (*YispNode, error) {
 	switch s.Type {
 	case "array":
 		if node.Kind != KindArray {
-			return NewEvaluationError(node, fmt.Sprintf("expected array, got %s", node.Kind))
+			return nil, NewEvaluationError(node, fmt.Sprintf("expected array, got %s", node.Kind))
 		}
 		if s.Items == nil {
-			return nil // No items schema to interpolate defaults for
+			return node, nil // No items schema to interpolate defaults for
 		}
 		arr, ok := node.Value.([]any)
 		if !ok {
-			return NewEvaluationError(node, fmt.Sprintf("expected array, got %T", node.Value))
+			return nil, NewEvaluationError(node, fmt.Sprintf("expected array, got %T", node.Value))
 		}
+		items := make([]any, len(arr))
 		for i, item := range arr {
 			itemNode, ok := item.(*YispNode)
 			if !ok {
-				return NewEvaluationError(node, fmt.Sprintf("expected YispNode, got %T", item))
+				return nil, NewEvaluationError(node, fmt.Sprintf("expected YispNode, got %T", item))
 			}
-			if err := s.Items.InterpolateDefaults(itemNode); err != nil {
-				return NewEvaluationError(node, fmt.Sprintf("failed to interpolate defaults for array item %d: %v", i, err))
+			filled, err := s.Items.InterpolateDefaults(itemNode)
+			if err != nil {
+				return nil, NewEvaluationError(node, fmt.Sprintf("failed to interpolate defaults for array item %d: %v", i, err))
 			}
+			items[i] = filled
 		}
-		return nil
+		result := *node
+		result.Value = items
+		return &result, nil
 	case "object":
 		if node.Kind != KindMap {
-			return NewEvaluationError(node, fmt.Sprintf("expected map, got %s", node.Kind))
+			return nil, NewEvaluationError(node, fmt.Sprintf("expected map, got %s", node.Kind))
 		}
-		if node.Value == nil {
-			node.Value = NewYispMap()
-		}
-		m, ok := node.Value.(*YispMap)
-		if !ok {
-			return NewEvaluationError(node, fmt.Sprintf("expected map, got %T", node.Value))
-		}
-		for key, subSchema := range s.Properties {
-			item, ok := m.Get(key)
+		m := NewYispMap()
+		if node.Value != nil {
+			given, ok := node.Value.(*YispMap)
 			if !ok {
-				if slices.Contains(s.Required, key) {
-					return NewEvaluationError(node, fmt.Sprintf("missing required property: %s", key))
-				}
-				if subSchema.Default != nil {
-					defaultNode := &YispNode{
-						Kind:  schemaTypeToKind[subSchema.Type],
-						Value: subSchema.Default,
-						Tag:   node.Tag,
-						Attr:  node.Attr,
-						Type:  subSchema,
-					}
-					m.Set(key, defaultNode)
+				return nil, NewEvaluationError(node, fmt.Sprintf("expected map, got %T", node.Value))
+			}
+			for key, item := range given.AllFromFront() {
+				subSchema := s.Properties[key]
+				if subSchema == nil {
+					m.Set(key, item)
 					continue
 				}
-				dummyNode := &YispNode{
-					Kind: schemaTypeToKind[subSchema.Type],
+				itemNode, ok := item.(*YispNode)
+				if !ok {
+					return nil, NewEvaluationError(node, fmt.Sprintf("expected YispNode, got %T", item))
 				}
-				err := subSchema.InterpolateDefaults(dummyNode)
+				filled, err := subSchema.InterpolateDefaults(itemNode)
 				if err != nil {
-					return NewEvaluationError(node, fmt.Sprintf("failed to interpolate dummy Node %v", err))
-				}
-				if !IsZero(dummyNode.Value) {
-					m.Set(key, dummyNode)
+					return nil, NewEvaluationError(node, fmt.Sprintf("failed to interpolate defaults for property %s: %v", key, err))
 				}
+				m.Set(key, filled)
+			}
+		}
+		for _, key := range slices.Sorted(maps.Keys(s.Properties)) {
+			if _, ok := m.Get(key); ok {
 				continue
 			}
-			itemNode, ok := item.(*YispNode)
-			if !ok {
-				return NewEvaluationError(node, fmt.Sprintf("expected YispNode, got %T", item))
+			if slices.Contains(s.Required, key) {
+				return nil, NewEvaluationError(node, fmt.Sprintf("missing required property: %s", key))
 			}
-			if err := subSchema.InterpolateDefaults(itemNode); err != nil {
-				return NewEvaluationError(node, fmt.Sprintf("failed to interpolate defaults for property %s: %v", key, err))
+			defaultNode, err := s.Properties[key].defaultNode(node)
+			if err != nil {
+				return nil, NewEvaluationError(node, fmt.Sprintf("invalid default for property %s: %v", key, err))
+			}
+			if defaultNode != nil {
+				m.Set(key, defaultNode)
 			}
 		}
-		return nil
+		result := *node
+		result.Value = m
+		return &result, nil
 	default:
-		return nil
+		return node, nil
 	}
 }
 
+// defaultNode returns the value of a property of this type that is missing in parent,
+// or nil when it has no default.
+func (s *Schema) defaultNode(parent *YispNode) (*YispNode, error) {
+	if s == nil {
+		return nil, nil
+	}
+
+	if s.Default == nil {
+		if s.Type != "object" {
+			return nil, nil
+		}
+		filled, err := s.InterpolateDefaults(&YispNode{Kind: KindMap})
+		if err != nil || IsZero(filled.Value) {
+			return nil, nil // an optional object that cannot be made of defaults stays absent
+		}
+		return filled, nil
+	}
+
+	node, err := ParseAny("", s.Default)
+	if err != nil {
+		return nil, err
+	}
+	// numbers decoded from JSON are floats
+	if f, ok := s.Default.(float64); ok && s.Type != "float" && float64(int(f)) == f {
+		node.Kind = KindInt
+		node.Value = int(f)
+	}
+	node.Tag = parent.Tag
+	node.Attr = parent.Attr
+	node.Type = s
+	return node, nil
+}
+
+// Cast returns the node with defaults filled in and marked as of this type, if it conforms to it.
+// The given node is not changed.
 func (s *Schema) Cast(node *YispNode) (*YispNode, error) {
-	err := s.InterpolateDefaults(node)
+	filled, err := s.InterpolateDefaults(node)
 	if err != nil {
 		return nil, fmt.Errorf("failed to cast %v to %v (%v)", node, s, err)
 	}
-	err = s.Validate(node)
+
+	casted := *filled
+	casted.Type = s
+	err = s.Validate(&casted)
 	if err != nil {
 		return nil, fmt.Errorf("failed to cast %v to %v (%v)", node, s, err)
 	}
 
-	node.Type = s
-
-	return node, nil
-
+	return &casted, nil
 }
 
 func (s *Schema) Equals(other *Schema) bool {
diff --git a/engine/eval.go b/engine/eval.go
index 5939e64..c481d12 100644
--- a/engine/eval.go
+++ b/engine/eval.go
@@ -486,17 +486,6 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 		}
 	}
 
-	if node.Anchor != "" {
-		env.Root().Set(node.Anchor, result) // anchor is global
-
-		if result.Kind == core.KindLambda {
-			lambda, ok := result.Value.(*core.Lambda)
-			if ok {
-				lambda.Clojure.Set(node.Anchor, result)
-			}
-		}
-	}
-
 	if node.Tag != "" && node.Tag != "!quote" && node.Tag != "!yisp" {
 		typeName := strings.TrimPrefix(node.Tag, "!")
 		if typeName != "" && !strings.HasPrefix(typeName, "!") {
@@ -514,5 +503,16 @@ func (e *engine) Eval(node *core.YispNode, env *core.Env, mode core.EvalMode) (*
 		}
 	}
 
+	if node.Anchor != "" {
+		env.Root().Set(node.Anchor, result) // anchor is global
+
+		if result.Kind == core.KindLambda {
+			lambda, ok := result.Value.(*core.Lambda)
+			if ok {
+				lambda.Clojure.Set(node.Anchor, result)
+			}
+		}
+	}
+
 	return result, nil
 }
-- 
2.43.0


From ca517e030d5add7f7de5160c5eb16e38947a397b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:24 +0000
Subject: [PATCH 24/28] fix: merging lists by key leaves the left list
 unchanged

---
 core/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/util.go b/core/util.go
index 5ab2c5e..fbe0a4e 100644
--- a/core/util.go
+++ b/core/util.go
@@ -148,7 +148,7 @@ func DeepMergeYispNode(dst, src *YispNode, schema *Schema) (*YispNode, error) {
 				result = append(result, dstArray...)
 				result = append(result, srcArray...)
 			} else {
-				result = dstArray
+				result = append(result, dstArray...)
 				for _, srcItem := range srcArray {
 					srcNode, ok := srcItem.(*YispNode)
 					if !ok {
-- 
2.43.0


From 18f6d9af730f4050a41e2cf382b08c3a393615a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:24 +0000
Subject: [PATCH 25/28] fix: manifest identities with slashes in their fields
 stay apart

---
 lib/k8s.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/k8s.go b/lib/k8s.go
index 313fefb..3189076 100644
--- a/lib/k8s.go
+++ b/lib/k8s.go
@@ -133,5 +133,5 @@ func getManifestID(node *core.YispNode) (string, error) {
 		}
 	}
 
-	return fmt.Sprintf("%s/%s/%s/%s", apiVersion, kind, namespace, name), nil
+	return fmt.Sprintf("%q/%q/%q/%q", apiVersion, kind, namespace, name), nil
 }
-- 
2.43.0


From 2f69167c97db345cfcbef1a135e017ba1584c915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:24 +0000
Subject: [PATCH 26/28] fix: files operators without arguments return an error
 instead of crashing

---
 lib/files.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/files.go b/lib/files.go
index 00fa479..b8257eb 100644
--- a/lib/files.go
+++ b/lib/files.go
@@ -18,6 +18,10 @@ func init() {
 
 func opGlob(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engine) (*core.YispNode, error) {
 
+	if len(cdr) == 0 {
+		return nil, core.NewEvaluationError(nil, "glob requires at least 1 argument, got 0")
+	}
+
 	result := make([]any, 0)
 
 	for _, node := range cdr {
@@ -91,7 +95,7 @@ func opGlob(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engi
 func opReadAll(cdr []*core.YispNode, env *core.Env, mode core.EvalMode, e core.Engine) (*core.YispNode, error) {
 
 	if len(cdr) != 1 {
-		return nil, core.NewEvaluationError(cdr[0], "read-file expects exactly one argument")
+		return nil, core.NewEvaluationError(nil, fmt.Sprintf("read-file requires 1 argument, got %d", len(cdr)))
 	}
 
 	str, ok := cdr[0].Value.(string)
-- 
2.43.0


From 9bf05346831e96701b7cc99c8bde09279653f059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:53 +0000
Subject: [PATCH 27/28] fix: unmarshalling a reference to an unknown anchor is
 an error, not a crash

---
 internal/yaml/decode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/yaml/decode.go b/internal/yaml/decode.go
index ae16220..a21d562 100644
--- a/internal/yaml/decode.go
+++ b/internal/yaml/decode.go
@@ -533,6 +533,9 @@ func (d *decoder) document(n *Node, out reflect.Value) (good bool) {
 }
 
 func (d *decoder) alias(n *Node, out reflect.Value) (good bool) {
+	if n.Alias == nil {
+		failf("unknown anchor '%s' referenced", n.Value)
+	}
 	if d.aliases[n] {
 		// TODO this could actually be allowed in some circumstances.
 		failf("anchor '%s' value contains itself", n.Value)
-- 
2.43.0


From dd2667f6dcb16e411a7dcc8e401f47a25489b02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:33 +0000
Subject: [PATCH 28/28] fix: op.patch stores copies, so that a copied or added
 value shares nothing with its source

---
 lib/patch.go | 47 +++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 39 insertions(+), 8 deletions(-)

diff --git a/lib/patch.go b/lib/patch.go
index 9f799c1..144826c 100644
--- a/lib/patch.go
+++ b/lib/patch.go
@@ -34,6 +34,33 @@ func parsePointer(path string) ([]string, error) {
 	return tokens, nil
 }
 
+// copyNode copies a node and the lists and maps below it, so that a stored value shares nothing with its source
+func copyNode(node *core.YispNode) *core.YispNode {
+	copied := *node
+	switch value := node.Value.(type) {
+	case []any:
+		items := make([]any, len(value))
+		for i, item := range value {
+			items[i] = copyAny(item)
+		}
+		copied.Value = items
+	case *core.YispMap:
+		m := core.NewYispMap()
+		for key, item := range value.AllFromFront() {
+			m.Set(key, copyAny(item))
+		}
+		copied.Value = m
+	}
+	return &copied
+}
+
+func copyAny(value any) any {
+	if node, ok := value.(*core.YispNode); ok {
+		return copyNode(node)
+	}
+	return value
+}
+
 // getValue retrieves a value from a YispNode using a JSON Pointer path
 func getValue(node *core.YispNode, path string) (*core.YispNode, error) {
 	tokens, err := parsePointer(path)
@@ -106,6 +133,8 @@ func addValue(node *core.YispNode, path string, value *core.YispNode) error {
 		return addValueWithWildcard(node, tokens, wildcardIndex, value)
 	}
 
+	value = copyNode(value)
+
 	current := node
 	for i := 0; i < len(tokens)-1; i++ {
 		token := tokens[i]
@@ -255,11 +284,11 @@ func addValueWithWildcard(node *core.YispNode, tokens []string, wildcardIndex in
 					}
 					// Merge value map into target map
 					for vKey, vVal := range valueMap.AllFromFront() {
-						targetMap.Set(vKey, vVal)
+						targetMap.Set(vKey, copyAny(vVal))
 					}
 				} else {
 					// Replace the entire value
-					m.Set(key, value)
+					m.Set(key, copyNode(value))
 				}
 			}
 		} else {
@@ -291,7 +320,7 @@ func addValueWithWildcard(node *core.YispNode, tokens []string, wildcardIndex in
 					}
 					// Merge value map into target map
 					for vKey, vVal := range valueMap.AllFromFront() {
-						targetMap.Set(vKey, vVal)
+						targetMap.Set(vKey, copyAny(vVal))
 					}
 				} else {
 					// Recursively apply add to this node with remaining path
@@ -329,11 +358,11 @@ func addValueWithWildcard(node *core.YispNode, tokens []string, wildcardIndex in
 					}
 					// Merge value map into target map
 					for vKey, vVal := range valueMap.AllFromFront() {
-						targetMap.Set(vKey, vVal)
+						targetMap.Set(vKey, copyAny(vVal))
 					}
 				} else {
 					// Replace the entire value
-					arr[i] = value
+					arr[i] = copyNode(value)
 				}
 			}
 		} else {
@@ -365,7 +394,7 @@ func addValueWithWildcard(node *core.YispNode, tokens []string, wildcardIndex in
 					}
 					// Merge value map into target map
 					for vKey, vVal := range valueMap.AllFromFront() {
-						targetMap.Set(vKey, vVal)
+						targetMap.Set(vKey, copyAny(vVal))
 					}
 				} else {
 					// Recursively apply add to this node with remaining path
@@ -410,6 +439,8 @@ func replaceValue(node *core.YispNode, path string, value *core.YispNode) error
 		return replaceValueWithWildcard(node, tokens, wildcardIndex, value)
 	}
 
+	value = copyNode(value)
+
 	current := node
 	for i := 0; i < len(tokens)-1; i++ {
 		token := tokens[i]
@@ -529,7 +560,7 @@ func replaceValueWithWildcard(node *core.YispNode, tokens []string, wildcardInde
 		if wildcardIndex == len(tokens)-1 {
 			// Iterate over all keys and replace the value
 			for key := range m.AllFromFront() {
-				m.Set(key, value)
+				m.Set(key, copyNode(value))
 			}
 		} else {
 			// Wildcard is in the middle, need to apply remaining path to all matching keys
@@ -563,7 +594,7 @@ func replaceValueWithWildcard(node *core.YispNode, tokens []string, wildcardInde
 		if wildcardIndex == len(tokens)-1 {
 			// Iterate over all array elements and replace the value
 			for i := range arr {
-				arr[i] = value
+				arr[i] = copyNode(value)
 			}
 		} else {
 			// Wildcard is in the middle, need to apply remaining path to all array elements
-- 
2.43.0

