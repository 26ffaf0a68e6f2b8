From 86cb3b29c534df7f599e953e40e6189b9dc5e758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:07 +0000
Subject: [PATCH 01/81] fix: @none returns true when no element matches

---
 pkg/expression/expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/expression/expression.go b/pkg/expression/expression.go
index bea0d5e..fe7ba99 100644
--- a/pkg/expression/expression.go
+++ b/pkg/expression/expression.go
@@ -561,7 +561,7 @@ func (e *Expression) Evaluate(ctx EvalCtx) (any, error) {
 				return nil, errors.New("invalid arguments: expected a list")
 			}
 
-			v := false
+			v := true
 			for _, input := range list {
 				res, err := exp.Evaluate(EvalCtx{Object: ctx.Object, Subject: input, Log: ctx.Log})
 				if err != nil {
-- 
2.43.0


From 611883aaeac1f8251d73fbc6e8881b3ec1e325a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:07 +0000
Subject: [PATCH 02/81] fix: convert floating point numbers to a readable
 string

---
 pkg/expression/converter.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/expression/converter.go b/pkg/expression/converter.go
index 12185dc..6f6e778 100644
--- a/pkg/expression/converter.go
+++ b/pkg/expression/converter.go
@@ -81,8 +81,10 @@ func AsString(d any) (string, error) {
 	switch reflect.ValueOf(d).Kind() { //nolint:exhaustive
 	case reflect.String:
 		return reflect.ValueOf(d).String(), nil
-	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr, reflect.Float32, reflect.Float64, reflect.Complex64, reflect.Complex128:
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
 		return fmt.Sprintf("%d", d), nil
+	case reflect.Float32, reflect.Float64:
+		return strconv.FormatFloat(reflect.ValueOf(d).Float(), 'f', -1, 64), nil
 	}
 
 	return "", fmt.Errorf("argument is not a string: %s", util.Stringify(d))
-- 
2.43.0


From 99e30fca2eaa99d45438966bdd5c39938067134b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:07 +0000
Subject: [PATCH 03/81] fix: serialize the @any operator with its argument

---
 pkg/expression/marshaler.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pkg/expression/marshaler.go b/pkg/expression/marshaler.go
index d3be337..410d066 100644
--- a/pkg/expression/marshaler.go
+++ b/pkg/expression/marshaler.go
@@ -76,9 +76,6 @@ func (e *Expression) MarshalJSON() ([]byte, error) {
 	}
 
 	switch e.Op {
-	case "@any":
-		return json.Marshal(e.Literal)
-
 	case "@bool":
 		if e.Arg != nil {
 			// keep the op for a correct round-trip and possible side-effects (conversion)
-- 
2.43.0


From 98cbfbc367f97dac72f8def4715e952aafc64771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:07 +0000
Subject: [PATCH 04/81] fix: keep the @list and @dict operators when
 serializing an expression

---
 pkg/expression/marshaler.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pkg/expression/marshaler.go b/pkg/expression/marshaler.go
index 410d066..834c909 100644
--- a/pkg/expression/marshaler.go
+++ b/pkg/expression/marshaler.go
@@ -126,7 +126,9 @@ func (e *Expression) MarshalJSON() ([]byte, error) {
 
 	case "@list":
 		if e.Arg != nil {
-			return json.Marshal(e.Arg)
+			// keep the op for a correct round-trip and possible side-effects (conversion)
+			ret := map[string]*Expression{e.Op: e.Arg}
+			return json.Marshal(ret)
 		}
 		es, ok := e.Literal.([]Expression)
 		if !ok {
@@ -136,8 +138,9 @@ func (e *Expression) MarshalJSON() ([]byte, error) {
 
 	case "@dict":
 		if e.Arg != nil {
-			// can this ever happen?
-			return json.Marshal(e.Arg)
+			// keep the op for a correct round-trip and possible side-effects (conversion)
+			ret := map[string]*Expression{e.Op: e.Arg}
+			return json.Marshal(ret)
 		}
 
 		es, ok := e.Literal.(map[string]Expression)
-- 
2.43.0


From 2eae856207fbfc22dd17fade7a87ee799b91874f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:07 +0000
Subject: [PATCH 05/81] fix: integral float literals remain floats when
 serialized

---
 pkg/expression/marshaler.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/expression/marshaler.go b/pkg/expression/marshaler.go
index 834c909..184a9a0 100644
--- a/pkg/expression/marshaler.go
+++ b/pkg/expression/marshaler.go
@@ -1,6 +1,7 @@
 package expression
 
 import (
+	"bytes"
 	"encoding/json"
 	"fmt"
 	"reflect"
@@ -110,7 +111,11 @@ func (e *Expression) MarshalJSON() ([]byte, error) {
 		if err != nil {
 			return []byte(""), err
 		}
-		return json.Marshal(v)
+		b, err := json.Marshal(v)
+		if err == nil && !bytes.ContainsAny(b, ".eE") {
+			b = append(b, ".0"...) // an integral float must not be parsed back as an int
+		}
+		return b, err
 
 	case "@string":
 		if e.Arg != nil {
-- 
2.43.0


From 172f1f5f8b015d52a9f11a0217b694c0406242dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:07 +0000
Subject: [PATCH 06/81] fix: accept the empty string as a literal

---
 pkg/expression/marshaler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/expression/marshaler.go b/pkg/expression/marshaler.go
index 184a9a0..31e05a8 100644
--- a/pkg/expression/marshaler.go
+++ b/pkg/expression/marshaler.go
@@ -33,7 +33,7 @@ func (e *Expression) UnmarshalJSON(b []byte) error {
 
 	// try to unmarshal as a string terminal expression
 	sv := ""
-	if err := json.Unmarshal(b, &sv); err == nil && sv != "" {
+	if err := json.Unmarshal(b, &sv); err == nil {
 		*e = Expression{Op: "@string", Literal: sv}
 		return nil
 	}
-- 
2.43.0


From 439cfab868629eb65821b004624867b36d477487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:07 +0000
Subject: [PATCH 07/81] fix: do not panic on a map expression with an empty key

---
 pkg/expression/marshaler.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/expression/marshaler.go b/pkg/expression/marshaler.go
index 31e05a8..47390ed 100644
--- a/pkg/expression/marshaler.go
+++ b/pkg/expression/marshaler.go
@@ -5,6 +5,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"reflect"
+	"strings"
 )
 
 // UnmarshalJSON de-serializes an expression from JSON.
@@ -55,7 +56,7 @@ func (e *Expression) UnmarshalJSON(b []byte) error {
 				op = k
 				break
 			}
-			if string(op[0]) == "@" {
+			if strings.HasPrefix(op, "@") {
 				exp := cv[op]
 				*e = Expression{Op: op, Arg: &exp}
 				return nil
-- 
2.43.0


From 8022c1fef02a8d00a4aa9cee5417ac9b9ba78274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:42 +0000
Subject: [PATCH 08/81] fix: a null literal evaluates to null

---
 pkg/expression/marshaler.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/expression/marshaler.go b/pkg/expression/marshaler.go
index 47390ed..351d02b 100644
--- a/pkg/expression/marshaler.go
+++ b/pkg/expression/marshaler.go
@@ -10,6 +10,12 @@ import (
 
 // UnmarshalJSON de-serializes an expression from JSON.
 func (e *Expression) UnmarshalJSON(b []byte) error {
+	// null literal: evaluates to nil
+	if string(bytes.TrimSpace(b)) == "null" {
+		*e = Expression{Op: "@noop"}
+		return nil
+	}
+
 	// cut raw content
 	// try to unmarshal as a bool terminal expression
 	bv := false
@@ -77,6 +83,10 @@ func (e *Expression) MarshalJSON() ([]byte, error) {
 		return []byte("<nil>"), nil
 	}
 
+	if e.Op == "@noop" && e.Arg == nil {
+		return []byte("null"), nil
+	}
+
 	switch e.Op {
 	case "@bool":
 		if e.Arg != nil {
-- 
2.43.0


From d5193cdf0252587d4d0a49e495928a4fba41dfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:52 +0000
Subject: [PATCH 09/81] fix: never evaluate strings coming from the data as
 expressions

---
 pkg/expression/expression.go | 15 ++++++++-------
 pkg/expression/jsonpath.go   | 14 +++-----------
 2 files changed, 11 insertions(+), 18 deletions(-)

diff --git a/pkg/expression/expression.go b/pkg/expression/expression.go
index fe7ba99..f179e49 100644
--- a/pkg/expression/expression.go
+++ b/pkg/expression/expression.go
@@ -139,13 +139,14 @@ func (e *Expression) Evaluate(ctx EvalCtx) (any, error) {
 			return nil, NewExpressionError(e, err)
 		}
 
-		ret, err := GetJSONPath(ctx, str)
-		if err != nil {
-			return nil, err
-		}
-
-		if ret == "@now" {
-			ret = time.Now().UTC().Format("2006-01-02T15:04:05Z07:00")
+		// only literals may be JSONPath expressions or "@now": never evaluate data
+		var ret any = str
+		if e.Arg == nil {
+			if str == "@now" {
+				ret = time.Now().UTC().Format("2006-01-02T15:04:05Z07:00")
+			} else if ret, err = GetJSONPath(ctx, str); err != nil {
+				return nil, err
+			}
 		}
 
 		ctx.Log.V(8).Info("eval ready", "expression", e.String(), "result", ret)
diff --git a/pkg/expression/jsonpath.go b/pkg/expression/jsonpath.go
index 11d94fc..1435da0 100644
--- a/pkg/expression/jsonpath.go
+++ b/pkg/expression/jsonpath.go
@@ -40,21 +40,13 @@ func GetJSONPath(ctx EvalCtx, key string) (any, error) {
 }
 
 // SetJSONPath overwrites the data in-place with the given value at the given key. Leaves the rest
-// of the data unchanged.
-func SetJSONPath(ctx EvalCtx, key string, value, data any) error {
+// of the data unchanged. The value is used as is: a string that looks like a JSONPath expression is
+// not evaluated.
+func SetJSONPath(_ EvalCtx, key string, value, data any) error {
 	if len(key) == 0 {
 		return errors.New("empty key")
 	}
 
-	// first get the value
-	if str, ok := value.(string); ok {
-		res, err := GetJSONPath(ctx, str)
-		if err != nil {
-			return err
-		}
-		value = res
-	}
-
 	// copy: if key is a JSONpath root ref and the result is a map, overwrite the entire map
 	// if d, ok := data.(Unstructured); ok && key == "$." {
 	if key == "$." {
-- 
2.43.0


From 3cf2d640e2d76f78db9af441d4cde6f033cdeb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:58 +0000
Subject: [PATCH 10/81] fix: @rnd returns an error on an empty range instead of
 a panic

---
 pkg/expression/expression.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/expression/expression.go b/pkg/expression/expression.go
index f179e49..2e393c3 100644
--- a/pkg/expression/expression.go
+++ b/pkg/expression/expression.go
@@ -760,6 +760,9 @@ func (e *Expression) Evaluate(ctx EvalCtx) (any, error) {
 
 			min := args[0]
 			max := args[1]
+			if max <= min || max-min <= 0 {
+				return nil, NewExpressionError(e, errors.New("expected a non-empty range [min, max)"))
+			}
 			v := int64(rand.Intn(int(max-min)) + int(min)) //nolint:gosec
 			ctx.Log.V(8).Info("eval ready", "expression", e.String(), "args", args, "result", v)
 			return v, nil
-- 
2.43.0


From 1df1ee21e1f33095d41742d559ce3b9848a97419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:58 +0000
Subject: [PATCH 11/81] fix: @map returns an error on a wrong number of
 arguments instead of a panic

---
 pkg/expression/expression.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/expression/expression.go b/pkg/expression/expression.go
index 2e393c3..79e55a0 100644
--- a/pkg/expression/expression.go
+++ b/pkg/expression/expression.go
@@ -639,6 +639,11 @@ func (e *Expression) Evaluate(ctx EvalCtx) (any, error) {
 				return nil, NewExpressionError(e, err)
 			}
 
+			if len(args) != 2 {
+				return nil, NewExpressionError(e,
+					errors.New("invalid arguments: expected 2 arguments"))
+			}
+
 			// function
 			exp := args[0]
 
-- 
2.43.0


From d615b9df3610eaae53378ca0e968c9b4880ad1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:58 +0000
Subject: [PATCH 12/81] fix: @range returns an error on a huge range instead of
 a panic

---
 pkg/expression/expression.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/expression/expression.go b/pkg/expression/expression.go
index 79e55a0..e984ef3 100644
--- a/pkg/expression/expression.go
+++ b/pkg/expression/expression.go
@@ -43,6 +43,9 @@ import (
 	"k8s.io/apimachinery/pkg/util/json"
 )
 
+// maxRangeLen is the maximum number of elements produced by @range.
+const maxRangeLen = 1 << 20
+
 // EvalCtx defines the context for a running evaluation.
 type EvalCtx struct {
 	Object, Subject any
@@ -1139,6 +1142,9 @@ func (e *Expression) Evaluate(ctx EvalCtx) (any, error) {
 			if args[0] > args[1] {
 				args[0] = args[1]
 			}
+			if n := args[1] - args[0]; n < 0 || n > maxRangeLen {
+				return nil, NewExpressionError(e, fmt.Errorf("range too large: more than %d elements", maxRangeLen))
+			}
 			result := make([]any, 0, args[1]-args[0])
 			for i := args[0]; i < args[1]; i++ {
 				result = append(result, i)
-- 
2.43.0


From 2e13c9c41f881c53461c986d1e52d56b0fa1aaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:59 +0000
Subject: [PATCH 13/81] fix: evaluate the keys of a dictionary in a
 deterministic order

---
 pkg/expression/expression.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/expression/expression.go b/pkg/expression/expression.go
index e984ef3..1591611 100644
--- a/pkg/expression/expression.go
+++ b/pkg/expression/expression.go
@@ -31,6 +31,7 @@ package expression
 import (
 	"errors"
 	"fmt"
+	"maps"
 	"math"
 	"math/rand"
 	"reflect"
@@ -222,7 +223,9 @@ func (e *Expression) Evaluate(ctx EvalCtx) (any, error) {
 					errors.New("argument must be a string->expression map"))
 			}
 
-			for k, exp := range vm {
+			// set the keys in a fixed order: later keys may overwrite parts of earlier ones
+			for _, k := range slices.Sorted(maps.Keys(vm)) {
+				exp := vm[k]
 				// evaluate arguments
 				res, err := exp.Evaluate(ctx)
 				if err != nil {
-- 
2.43.0


From 83f1204ecd18d91edf18fdfabafd3b8d4b5e9e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:02 +0000
Subject: [PATCH 14/81] fix: programmatically created expressions: missing
 arguments and float literals

---
 pkg/expression/converter.go | 2 +-
 pkg/expression/literal.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/expression/converter.go b/pkg/expression/converter.go
index 6f6e778..dbaefde 100644
--- a/pkg/expression/converter.go
+++ b/pkg/expression/converter.go
@@ -300,7 +300,7 @@ func AsExpOrExpList(d any) ([]Expression, error) {
 	if !ok {
 		var expp *Expression
 		expp, ok = d.(*Expression)
-		if ok {
+		if ok = ok && expp != nil; ok {
 			exp = *expp
 		}
 	}
diff --git a/pkg/expression/literal.go b/pkg/expression/literal.go
index b75b84b..712fd94 100644
--- a/pkg/expression/literal.go
+++ b/pkg/expression/literal.go
@@ -13,7 +13,7 @@ func NewLiteralExpression(value any) (Expression, error) {
 	case string:
 		op = "@string"
 	case float32, float64:
-		op = "float"
+		op = "@float"
 	default:
 		return Expression{}, fmt.Errorf("cannot create a literal expression from an "+
 			"argument %#v", value)
-- 
2.43.0


From c4df326c284629c44417186e9c082f1bab9ff610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:06 +0000
Subject: [PATCH 15/81] fix: lists of several lists keep all their elements

---
 pkg/expression/expression.go | 2 +-
 pkg/expression/marshaler.go  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/expression/expression.go b/pkg/expression/expression.go
index 1591611..ad9ce8c 100644
--- a/pkg/expression/expression.go
+++ b/pkg/expression/expression.go
@@ -189,7 +189,7 @@ func (e *Expression) Evaluate(ctx EvalCtx) (any, error) {
 			}
 		}
 
-		// WARNING: this will destroy multi-dimensional arrays
+		// WARNING: a list whose only element is a list collapses to that element
 		ret = unpackList(ret)
 
 		ctx.Log.V(8).Info("eval ready", "expression", e.String(), "result", ret)
diff --git a/pkg/expression/marshaler.go b/pkg/expression/marshaler.go
index 351d02b..ca45105 100644
--- a/pkg/expression/marshaler.go
+++ b/pkg/expression/marshaler.go
@@ -232,9 +232,9 @@ func unpackList(a any) []any {
 		return v.Index(0).Interface().([]any)
 	}
 
-	// If it's []any{[]any, ...}, check if the first element is a slice
+	// If it's []any{[]any}, return the inner slice
 	first := v.Index(0)
-	if !first.IsNil() {
+	if v.Len() == 1 && !first.IsNil() {
 		vs, ok := first.Interface().([]any)
 		if ok {
 			return vs
-- 
2.43.0


From 36929e6080b1f07af067b856a715f2e97b3a8aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:46 +0000
Subject: [PATCH 16/81] fix: $$ on a null list element is null, not the entire
 object

---
 pkg/expression/expression.go | 17 ++++++++++++-----
 pkg/expression/jsonpath.go   |  2 +-
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/pkg/expression/expression.go b/pkg/expression/expression.go
index ad9ce8c..baf83d5 100644
--- a/pkg/expression/expression.go
+++ b/pkg/expression/expression.go
@@ -51,6 +51,13 @@ const maxRangeLen = 1 << 20
 type EvalCtx struct {
 	Object, Subject any
 	Log             logr.Logger
+
+	local bool // inside a list command: "$$" refers to Subject, even if that is nil
+}
+
+// withSubject returns a context for evaluating an expression on a list element.
+func (ctx EvalCtx) withSubject(subject any) EvalCtx {
+	return EvalCtx{Object: ctx.Object, Subject: subject, Log: ctx.Log, local: true}
 }
 
 // Expression defines a single expression op.
@@ -472,7 +479,7 @@ func (e *Expression) Evaluate(ctx EvalCtx) (any, error) {
 
 			vs := []any{}
 			for _, input := range list {
-				res, err := cond.Evaluate(EvalCtx{Object: ctx.Object, Subject: input, Log: ctx.Log})
+				res, err := cond.Evaluate(ctx.withSubject(input))
 				if err != nil {
 					return nil, err
 				}
@@ -521,7 +528,7 @@ func (e *Expression) Evaluate(ctx EvalCtx) (any, error) {
 
 			v := false
 			for _, input := range list {
-				res, err := exp.Evaluate(EvalCtx{Object: ctx.Object, Subject: input, Log: ctx.Log})
+				res, err := exp.Evaluate(ctx.withSubject(input))
 				if err != nil {
 					return nil, err
 				}
@@ -570,7 +577,7 @@ func (e *Expression) Evaluate(ctx EvalCtx) (any, error) {
 
 			v := true
 			for _, input := range list {
-				res, err := exp.Evaluate(EvalCtx{Object: ctx.Object, Subject: input, Log: ctx.Log})
+				res, err := exp.Evaluate(ctx.withSubject(input))
 				if err != nil {
 					return nil, err
 				}
@@ -618,7 +625,7 @@ func (e *Expression) Evaluate(ctx EvalCtx) (any, error) {
 
 			v := true
 			for _, input := range list {
-				res, err := exp.Evaluate(EvalCtx{Object: ctx.Object, Subject: input, Log: ctx.Log})
+				res, err := exp.Evaluate(ctx.withSubject(input))
 				if err != nil {
 					return nil, err
 				}
@@ -666,7 +673,7 @@ func (e *Expression) Evaluate(ctx EvalCtx) (any, error) {
 
 			vs := []any{}
 			for _, input := range list {
-				res, err := exp.Evaluate(EvalCtx{Object: ctx.Object, Subject: input, Log: ctx.Log})
+				res, err := exp.Evaluate(ctx.withSubject(input))
 				if err != nil {
 					return nil, err
 				}
diff --git a/pkg/expression/jsonpath.go b/pkg/expression/jsonpath.go
index 1435da0..7bf1215 100644
--- a/pkg/expression/jsonpath.go
+++ b/pkg/expression/jsonpath.go
@@ -25,7 +25,7 @@ func GetJSONPath(ctx EvalCtx, key string) (any, error) {
 	subject := ctx.Object
 
 	// $$... is local subject (@map, @filter, etc.)
-	if len(key) >= 2 && key[0] == '$' && key[1] == '$' && ctx.Subject != nil {
+	if len(key) >= 2 && key[0] == '$' && key[1] == '$' && (ctx.Subject != nil || ctx.local) {
 		// remove first $
 		key = key[1:]
 		subject = ctx.Subject
-- 
2.43.0


From 8a20d1e31c071d3ab9c190e1bb56ae5d52110c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:23 +0000
Subject: [PATCH 17/81] fix: evaluating a JSONPath never shares data with the
 input document

---
 pkg/expression/jsonpath.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pkg/expression/jsonpath.go b/pkg/expression/jsonpath.go
index 7bf1215..d9181b6 100644
--- a/pkg/expression/jsonpath.go
+++ b/pkg/expression/jsonpath.go
@@ -5,6 +5,8 @@ import (
 	"fmt"
 
 	"github.com/ohler55/ojg/jp"
+
+	"github.com/l7mp/dcontroller/pkg/object"
 )
 
 // GetJSONPath evaluates a string op that may or may not be a JSONPath expession.
@@ -36,7 +38,9 @@ func GetJSONPath(ctx EvalCtx, key string) (any, error) {
 		return nil, err
 	}
 
-	return ret, nil
+	// the result may be embedded into another object and modified there: never share it with
+	// the input
+	return object.DeepCopyAny(ret), nil
 }
 
 // SetJSONPath overwrites the data in-place with the given value at the given key. Leaves the rest
@@ -89,14 +93,14 @@ func SetJSONPath(_ EvalCtx, key string, value, data any) error {
 
 // GetJSONPathRaw evaluates a JSONPath expression on the specified object and returns the result or
 // an error.
-func GetJSONPathRaw(query string, object any) (any, error) {
+func GetJSONPathRaw(query string, data any) (any, error) {
 	je, err := jp.ParseString(query)
 	if err != nil {
 		return nil, err
 	}
 
 	// jsonpath works on implicit object context
-	values := je.Get(object)
+	values := je.Get(data)
 	if len(values) == 0 {
 		// return nil, NewExpressionError("JSONPath", jsonExp,
 		// 	fmt.Errorf("failed to apply JSONPath expression on %#v", input))
-- 
2.43.0


From fef34fcc3160f56933234e9f9920802a2882ff41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:32 +0000
Subject: [PATCH 18/81] fix: MergeAny accepts null values and never modifies
 its arguments

---
 pkg/object/utils.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/object/utils.go b/pkg/object/utils.go
index de71d73..7061dcd 100644
--- a/pkg/object/utils.go
+++ b/pkg/object/utils.go
@@ -112,11 +112,12 @@ func MergeAny(a, b any) (any, error) {
 		return b, nil
 	}
 	switch vb := b.(type) {
-	case bool, int64, float64, string:
+	case nil, bool, int64, float64, string:
 		return b, nil
 	case []any:
 		if va, ok := a.([]any); ok {
-			return append(va, vb...), nil
+			// never append into the backing array of the argument
+			return append(va[:len(va):len(va)], vb...), nil
 		}
 		return vb, nil
 	case map[string]any:
-- 
2.43.0


From 64efe4223b97efbdf27c40889b6be00c998703be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:50 +0000
Subject: [PATCH 19/81] fix: unwind requires a string .metadata.name

---
 pkg/pipeline/op.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/pipeline/op.go b/pkg/pipeline/op.go
index 79a57ab..5219134 100644
--- a/pkg/pipeline/op.go
+++ b/pkg/pipeline/op.go
@@ -113,7 +113,11 @@ type listElem struct {
 
 func (eval *UnwindOp) Extract(doc dbsp.Document) (any, error) {
 	// unwind requires a valid name to distinguish unwound objects
-	if _, err := expression.GetJSONPathRaw("$.metadata.name", doc); err != nil {
+	name, err := expression.GetJSONPathRaw("$.metadata.name", doc)
+	if err != nil {
+		return nil, errors.New("valid .metadata.name required")
+	}
+	if n, ok := name.(string); !ok || n == "" {
 		return nil, errors.New("valid .metadata.name required")
 	}
 
-- 
2.43.0


From cd3053ba300233364144ccb3ca386c3666b570b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:54 +0000
Subject: [PATCH 20/81] fix: repeated Added events and Deleted events carrying
 another version of the object do not corrupt the pipeline state

---
 pkg/pipeline/zset_adaptor.go | 29 ++++++++---------------------
 1 file changed, 8 insertions(+), 21 deletions(-)

diff --git a/pkg/pipeline/zset_adaptor.go b/pkg/pipeline/zset_adaptor.go
index 3beb083..87c56b4 100644
--- a/pkg/pipeline/zset_adaptor.go
+++ b/pkg/pipeline/zset_adaptor.go
@@ -29,13 +29,11 @@ func (p *Pipeline) ConvertDeltaToZSet(delta object.Delta) (*dbsp.DocumentZSet, e
 	object.RemoveUID(deltaObj)
 
 	// Optimization: If the new object deep-equals the cached one, suppress the delta.
-	// This avoids unnecessary DBSP processing for no-op updates.
-	// IMPORTANT: Only apply to Updated/Replaced/Upserted, NOT to Added or Deleted!
-	// - Added events should NOT be suppressed: DBSP multiplicity needs to accumulate
-	// - Deleted events should NOT be suppressed: always process deletes
-	// - Updated/Replaced/Upserted: safe to suppress if content hasn't changed
-	if old != nil && (delta.Type == object.Updated || delta.Type == object.Replaced ||
-		delta.Type == object.Upserted) {
+	// This avoids unnecessary DBSP processing for no-op updates. The same holds for repeated
+	// Added events: the source contains each object only once no matter how many times the
+	// object has been announced.
+	if old != nil && (delta.Type == object.Added || delta.Type == object.Updated ||
+		delta.Type == object.Replaced || delta.Type == object.Upserted) {
 		oldNoUID := object.DeepCopy(old)
 		object.RemoveUID(oldNoUID)
 		if object.DeepEqual(deltaObj, oldNoUID) {
@@ -47,19 +45,7 @@ func (p *Pipeline) ConvertDeltaToZSet(delta object.Delta) (*dbsp.DocumentZSet, e
 
 	zset := dbsp.NewDocumentZSet()
 	switch delta.Type {
-	case object.Added:
-		if err := zset.AddDocumentMutate(deltaObj.UnstructuredContent(), 1); err != nil {
-			return nil, NewPipelineError(
-				fmt.Errorf("processing event %q: could not add object %s to zset: %w",
-					delta.Type, ObjectKey(deltaObj), err))
-		}
-
-		if err := p.sourceCache[gvk].Add(deltaObj); err != nil {
-			return nil, fmt.Errorf("processing event %q: could not add object %s to store: %w",
-				delta.Type, ObjectKey(deltaObj), err)
-		}
-
-	case object.Updated, object.Replaced, object.Upserted:
+	case object.Added, object.Updated, object.Replaced, object.Upserted:
 		// delete followed by an add
 		if old != nil {
 			if err := zset.AddDocumentMutate(old.UnstructuredContent(), -1); err != nil {
@@ -87,7 +73,8 @@ func (p *Pipeline) ConvertDeltaToZSet(delta object.Delta) (*dbsp.DocumentZSet, e
 					delta.Type, ObjectKey(deltaObj)))
 		}
 
-		if err := zset.AddDocumentMutate(deltaObj.UnstructuredContent(), -1); err != nil {
+		// retract the document that was added: the event may carry a different version
+		if err := zset.AddDocumentMutate(old.UnstructuredContent(), -1); err != nil {
 			return nil, NewPipelineError(
 				fmt.Errorf("processing event %q: could not add object %s to zset: %w",
 					delta.Type, ObjectKey(deltaObj), err))
-- 
2.43.0


From 3450177ad1b17961f5e8490b4cef99f862d31efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:10 +0000
Subject: [PATCH 21/81] fix: reset the n-ary join state and look up inputs by
 name in the executor

---
 pkg/dbsp/executor.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pkg/dbsp/executor.go b/pkg/dbsp/executor.go
index 795076e..849793b 100644
--- a/pkg/dbsp/executor.go
+++ b/pkg/dbsp/executor.go
@@ -117,6 +117,12 @@ func (e *Executor) resetOperator(op Operator) {
 		o.Reset()
 	case *IncrementalBinaryJoinOp:
 		o.Reset()
+	case *IncrementalJoinOp:
+		o.prevStates = make([]*DocumentZSet, o.n)
+	case *FusedOp:
+		for _, node := range o.nodes {
+			e.resetOperator(node)
+		}
 		// Note: Non-linear operators (GatherOp) don't need Reset() - they are lifted with
 		// I→Op→D and the Integrator/Differentiator handle state management.
 	}
@@ -183,7 +189,7 @@ func (e *Executor) GetNodeResult(nodeID string, deltaInputs map[string]*Document
 		// Execute join
 		joinInputs := make([]*DocumentZSet, len(e.graph.inputs))
 		for i, inputID := range e.graph.inputs {
-			joinInputs[i] = deltaInputs[inputID]
+			joinInputs[i] = deltaInputs[e.graph.inputIdx[inputID]]
 		}
 		return node.Op.Process(joinInputs...)
 	}
@@ -210,14 +216,14 @@ func (e *Executor) GetNodeResult(nodeID string, deltaInputs map[string]*Document
 		joinNode := e.graph.nodes[e.graph.joinNode]
 		joinInputs := make([]*DocumentZSet, len(e.graph.inputs))
 		for i, inputID := range e.graph.inputs {
-			joinInputs[i] = deltaInputs[inputID]
+			joinInputs[i] = deltaInputs[e.graph.inputIdx[inputID]]
 		}
 		currentResult, err = joinNode.Op.Process(joinInputs...)
 		if err != nil {
 			return nil, err
 		}
 	} else {
-		currentResult = deltaInputs[e.graph.inputs[0]]
+		currentResult = deltaInputs[e.graph.inputIdx[e.graph.inputs[0]]]
 	}
 
 	// Execute chain up to target position
-- 
2.43.0


From ea10a46f60ecc83132cedf07d0740a4239b65262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:15 +0000
Subject: [PATCH 22/81] fix: a failed evaluation leaves the pipeline state
 unchanged

---
 pkg/dbsp/executor.go     | 52 ++++++++++++++++++++++++++++++++++++++++
 pkg/pipeline/pipeline.go | 49 ++++++++++++++++++++++++++++++++++++-
 2 files changed, 100 insertions(+), 1 deletion(-)

diff --git a/pkg/dbsp/executor.go b/pkg/dbsp/executor.go
index 849793b..4585545 100644
--- a/pkg/dbsp/executor.go
+++ b/pkg/dbsp/executor.go
@@ -128,6 +128,58 @@ func (e *Executor) resetOperator(op Operator) {
 	}
 }
 
+// Checkpoint saves the state of all stateful nodes and returns a function that restores it. It is
+// used to undo the effects of a failed or abandoned evaluation.
+func (e *Executor) Checkpoint() func() {
+	restores := []func(){}
+	if e.graph.joinNode != "" {
+		restores = append(restores, checkpointOperator(e.graph.nodes[e.graph.joinNode].Op))
+	}
+	for _, nodeID := range e.graph.chain {
+		restores = append(restores, checkpointOperator(e.graph.nodes[nodeID].Op))
+	}
+
+	return func() {
+		for _, restore := range restores {
+			restore()
+		}
+	}
+}
+
+// checkpointOperator returns a function that restores the current state of an operator. Operators
+// never update the zsets that make up their state in place so it is enough to save the pointers.
+func checkpointOperator(op Operator) func() {
+	switch o := op.(type) {
+	case *IntegratorOp:
+		state := o.state
+		return func() { o.state = state }
+	case *DifferentiatorOp:
+		state := o.prevState
+		return func() { o.prevState = state }
+	case *DelayOp:
+		state := o.buffer
+		return func() { o.buffer = state }
+	case *IncrementalJoinOp:
+		states := append([]*DocumentZSet{}, o.prevStates...)
+		return func() { o.prevStates = states }
+	case *IncrementalBinaryJoinOp:
+		left, right := o.prevLeft, o.prevRight
+		return func() { o.prevLeft, o.prevRight = left, right }
+	case *FusedOp:
+		restores := make([]func(), len(o.nodes))
+		for i, node := range o.nodes {
+			restores[i] = checkpointOperator(node)
+		}
+		return func() {
+			for _, restore := range restores {
+				restore()
+			}
+		}
+	default:
+		return func() {}
+	}
+}
+
 // GetExecutionPlan returns a human-readable execution plan.
 func (e *Executor) GetExecutionPlan() string {
 	plan := "Execution Plan:\n"
diff --git a/pkg/pipeline/pipeline.go b/pkg/pipeline/pipeline.go
index d8d7ff0..59187fb 100644
--- a/pkg/pipeline/pipeline.go
+++ b/pkg/pipeline/pipeline.go
@@ -187,11 +187,58 @@ func (p *Pipeline) GetSourceCache(gvk schema.GroupVersionKind) *cache.Store {
 	return p.sourceCache[gvk]
 }
 
-// Evaluate processes an pipeline on the given delta.
+// Evaluate processes an pipeline on the given delta. If the evaluation fails then the pipeline
+// state remains unchanged.
 func (p *Pipeline) Evaluate(delta object.Delta) ([]object.Delta, error) {
 	p.mu.Lock()
 	defer p.mu.Unlock()
 
+	if delta.Object == nil {
+		return nil, NewPipelineError(errors.New("empty object in delta"))
+	}
+
+	rollback := p.checkpoint(delta.Object)
+	deltas, err := p.evaluate(delta)
+	if err != nil {
+		rollback()
+		return nil, err
+	}
+
+	return deltas, nil
+}
+
+// checkpoint saves the pipeline state that may be affected by an event on an object and returns a
+// function that restores it.
+func (p *Pipeline) checkpoint(obj object.Object) func() {
+	restoreExecutor := p.executor.Checkpoint()
+
+	gvk := obj.GetObjectKind().GroupVersionKind()
+	var old object.Object
+	store, ok := p.sourceCache[gvk]
+	if ok {
+		if o, exists, err := store.Get(obj); err == nil && exists {
+			old = o
+		}
+	}
+
+	return func() {
+		restoreExecutor()
+		var err error
+		switch {
+		case !ok:
+			delete(p.sourceCache, gvk)
+		case old != nil:
+			err = store.Update(old)
+		default:
+			err = store.Delete(obj)
+		}
+		if err != nil {
+			p.log.Error(err, "failed to restore source cache", "object", ObjectKey(obj))
+		}
+	}
+}
+
+func (p *Pipeline) evaluate(delta object.Delta) ([]object.Delta, error) {
 	p.log.V(2).Info("processing event", "event-type", delta.Type, "object", ObjectKey(delta.Object))
 
 	// Init
-- 
2.43.0


From b8850a3b098999164eceda78a139a432b00b07cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:24 +0000
Subject: [PATCH 23/81] fix: choose the representative document of a gather
 group deterministically

---
 pkg/dbsp/op_nonlinear.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkg/dbsp/op_nonlinear.go b/pkg/dbsp/op_nonlinear.go
index c64234f..5f38f9c 100644
--- a/pkg/dbsp/op_nonlinear.go
+++ b/pkg/dbsp/op_nonlinear.go
@@ -40,7 +40,16 @@ func (op *GatherOp) Process(inputs ...*DocumentZSet) (*DocumentZSet, error) {
 	// Step 1: Group documents by key, preserving one representative document per group
 	groups := make(map[string]*GroupData)
 
-	for key, multiplicity := range input.counts {
+	// Visit the documents in a deterministic order so that the representative document of a
+	// group depends only on the content of the group
+	keys := make([]string, 0, len(input.counts))
+	for key := range input.counts {
+		keys = append(keys, key)
+	}
+	slices.Sort(keys)
+
+	for _, key := range keys {
+		multiplicity := input.counts[key]
 		doc := input.docs[key]
 
 		// Extract key and value
-- 
2.43.0


From 0271294c42f95a59df3390df7da19d88ebfdd3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:10 +0000
Subject: [PATCH 24/81] fix: convert unwind and lifted gather operators into
 snapshot mode

---
 pkg/dbsp/graph_converter.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/pkg/dbsp/graph_converter.go b/pkg/dbsp/graph_converter.go
index 2ae690c..e513717 100644
--- a/pkg/dbsp/graph_converter.go
+++ b/pkg/dbsp/graph_converter.go
@@ -47,8 +47,11 @@ func convertGraph(sourceGraph *ChainGraph, sourceType string, joinConverter, opC
 	}
 
 	// Convert chain operators.
-	for _, nodeID := range sourceGraph.chain {
+	for i, nodeID := range sourceGraph.chain {
 		node := sourceGraph.nodes[nodeID]
+		if sourceType == "incremental" && isLiftingOp(sourceGraph, i) {
+			continue
+		}
 		convertedOp, err := opConverter(node.Op)
 		if err != nil {
 			return nil, fmt.Errorf("failed to convert operator %s: %w", node.Op.id(), err)
@@ -59,6 +62,19 @@ func convertGraph(sourceGraph *ChainGraph, sourceType string, joinConverter, opC
 	return targetGraph, nil
 }
 
+// isLiftingOp checks if the i-th operator of the chain is an I or D operator that was added only to
+// lift the adjacent non-linear operator.
+func isLiftingOp(graph *ChainGraph, i int) bool {
+	switch graph.nodes[graph.chain[i]].Op.(type) {
+	case *IntegratorOp:
+		return i+1 < len(graph.chain) && graph.nodes[graph.chain[i+1]].Lifted
+	case *DifferentiatorOp:
+		return i > 0 && graph.nodes[graph.chain[i-1]].Lifted
+	default:
+		return false
+	}
+}
+
 // convertToSnapshotJoin converts an incremental join to snapshot join.
 func convertToSnapshotJoin(op Operator) (Operator, error) {
 	switch o := op.(type) {
@@ -97,7 +113,7 @@ func convertToIncrementalJoin(op Operator) (Operator, error) {
 func convertToSnapshotOperator(op Operator) (Operator, error) {
 	switch op.(type) {
 	// Linear operators are the same for snapshot and incremental.
-	case *ProjectionOp, *SelectionOp, *DistinctOp:
+	case *ProjectionOp, *SelectionOp, *UnwindOp, *DistinctOp:
 		return op, nil
 
 	// Fused operators are also the same.
@@ -130,7 +146,7 @@ func convertToIncrementalOperator(op Operator) (Operator, error) {
 		return op, nil
 
 	// Linear operators are the same for snapshot and incremental.
-	case *ProjectionOp, *SelectionOp, *DistinctOp:
+	case *ProjectionOp, *SelectionOp, *UnwindOp, *DistinctOp:
 		return op, nil
 
 	// Fused operators are also the same.
-- 
2.43.0


From d1ab95dd9bd6fee1a0325a28c45a947897c5ec9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:04 +0000
Subject: [PATCH 25/81] fix: track the multiplicity of the output objects of a
 pipeline and compute the exact difference in Sync

---
 pkg/pipeline/pipeline.go     |  42 ++++-----
 pkg/pipeline/zset_adaptor.go | 172 +++++++++++++++++------------------
 2 files changed, 101 insertions(+), 113 deletions(-)

diff --git a/pkg/pipeline/pipeline.go b/pkg/pipeline/pipeline.go
index 59187fb..fef2108 100644
--- a/pkg/pipeline/pipeline.go
+++ b/pkg/pipeline/pipeline.go
@@ -31,6 +31,7 @@ import (
 	"github.com/go-logr/logr"
 	"k8s.io/apimachinery/pkg/runtime/schema"
 	toolscache "k8s.io/client-go/tools/cache"
+	"sigs.k8s.io/controller-runtime/pkg/client"
 
 	opv1a1 "github.com/l7mp/dcontroller/pkg/api/operator/v1alpha1"
 	"github.com/l7mp/dcontroller/pkg/cache"
@@ -66,6 +67,7 @@ type Pipeline struct {
 	sourceCache      map[schema.GroupVersionKind]*cache.Store
 	target           schema.GroupVersionKind
 	targetCache      *cache.Store
+	outputs          map[string][]object.Object // All documents currently produced for a key
 	snapshotGraph    *dbsp.ChainGraph
 	snapshotExecutor *dbsp.SnapshotExecutor
 	mu               sync.Mutex // Protects against concurrent Evaluate/Sync calls
@@ -91,6 +93,7 @@ func New(operator string, target schema.GroupVersionKind, sources []schema.Group
 		sourceCache: make(map[schema.GroupVersionKind]*cache.Store),
 		target:      target,
 		targetCache: cache.NewStore(),
+		outputs:     make(map[string][]object.Object),
 		log:         log,
 	}
 
@@ -288,7 +291,7 @@ func (p *Pipeline) evaluate(delta object.Delta) ([]object.Delta, error) {
 // and executor. On subsequent calls, it:
 //  1. Converts source cache to ZSet (current input state)
 //  2. Runs snapshot executor to compute required target state
-//  3. Subtracts current target cache from required state to get delta
+//  3. Computes the delta between the required state and the current target cache
 //  4. Applies delta to target cache to keep it synchronized
 //  5. Returns delta as []object.Delta
 func (p *Pipeline) Sync() ([]object.Delta, error) {
@@ -342,33 +345,26 @@ func (p *Pipeline) Sync() ([]object.Delta, error) {
 
 	p.log.V(2).Info("snapshot execution complete", "required-docs", requiredState.Size())
 
-	// Step 3: Convert target cache to ZSet (current target state).
-	currentState := dbsp.NewDocumentZSet()
-	for _, obj := range p.targetCache.List() {
-		objCopy := object.DeepCopy(obj)
-		object.RemoveUID(objCopy)
-		if err := currentState.AddDocumentMutate(objCopy.UnstructuredContent(), 1); err != nil {
-			return nil, NewPipelineError(
-				fmt.Errorf("failed to convert target cache to zset: %w", err))
-		}
-	}
-
-	// Step 4: Compute diff: required - current.
-	diffZSet, err := requiredState.Subtract(currentState)
+	// Step 3: Convert the required state to objects. This must be done before computing the diff:
+	// the objects in the target cache carry the GVK of the target.
+	required, err := p.ConvertZSetToDelta(requiredState, p.target)
 	if err != nil {
-		return nil, NewPipelineError(fmt.Errorf("failed to compute state diff: %w", err))
+		return nil, NewPipelineError(fmt.Errorf("failed to convert required state to objects: %w", err))
 	}
 
-	p.log.V(2).Info("computed state diff", "diff-size", diffZSet.Size())
-
-	// Step 5: Convert diff ZSet back to deltas.
-	rawDeltas, err := p.ConvertZSetToDelta(diffZSet, p.target)
-	if err != nil {
-		return nil, NewPipelineError(fmt.Errorf("failed to convert diff zset to delta: %w", err))
+	// Step 4: Apply the diff between the required state and the current target state.
+	keys := map[string]bool{}
+	for _, obj := range p.targetCache.List() {
+		keys[client.ObjectKeyFromObject(obj).String()] = false
+	}
+	p.outputs = make(map[string][]object.Object, len(required))
+	for _, d := range required {
+		key := client.ObjectKeyFromObject(d.Object).String()
+		keys[key] = false
+		p.outputs[key] = append(p.outputs[key], d.Object)
 	}
 
-	// Step 6: Apply deltas to target cache and reconcile.
-	deltas, err := p.Reconcile(rawDeltas)
+	deltas, err := p.updateTarget(keys)
 	if err != nil {
 		return nil, NewPipelineError(fmt.Errorf("failed to reconcile target cache: %w", err))
 	}
diff --git a/pkg/pipeline/zset_adaptor.go b/pkg/pipeline/zset_adaptor.go
index 87c56b4..f6e07be 100644
--- a/pkg/pipeline/zset_adaptor.go
+++ b/pkg/pipeline/zset_adaptor.go
@@ -2,7 +2,10 @@ package pipeline
 
 import (
 	"fmt"
+	"maps"
 	"reflect"
+	"slices"
+	"strings"
 
 	"k8s.io/apimachinery/pkg/runtime/schema"
 	"sigs.k8s.io/controller-runtime/pkg/client"
@@ -10,6 +13,7 @@ import (
 	"github.com/l7mp/dcontroller/pkg/cache"
 	"github.com/l7mp/dcontroller/pkg/dbsp"
 	"github.com/l7mp/dcontroller/pkg/object"
+	"github.com/l7mp/dcontroller/pkg/util"
 )
 
 // ConvertDeltaToZSet converts a delta into a ZSet that can be passed to DBSP.
@@ -108,7 +112,7 @@ func (p *Pipeline) ConvertZSetToDelta(zset *dbsp.DocumentZSet, target schema.Gro
 		var deltaType object.DeltaType
 		switch {
 		case entry.Multiplicity > 0:
-			deltaType = object.Added // collapse multi-objects into a single instance
+			deltaType = object.Added
 		case entry.Multiplicity < 0:
 			deltaType = object.Deleted
 		default:
@@ -159,8 +163,10 @@ func (p *Pipeline) ConvertZSetToDelta(zset *dbsp.DocumentZSet, target schema.Gro
 		obj.SetGroupVersionKind(target)
 		obj.SetName(nameStr)
 		obj.SetNamespace(namespaceStr)
-		// Restore UID.
-		ds = append(ds, object.Delta{Object: obj, Type: deltaType})
+		// One delta per instance: multi-objects are collapsed in Reconcile.
+		for range max(entry.Multiplicity, -entry.Multiplicity) {
+			ds = append(ds, object.Delta{Object: obj, Type: deltaType})
+		}
 	}
 
 	return ds, nil
@@ -184,127 +190,113 @@ func (p *Pipeline) ConvertZSetToDelta(zset *dbsp.DocumentZSet, target schema.Gro
 //
 // # Solution
 //
-// We use the target cache state BEFORE processing to disambiguate intent. The cache tells us
-// whether an object existed prior to this batch, which determines the semantic meaning of
-// add+delete pairs:
-//
-//   - If object existed -> it's an UPDATE (the delete removes old state, add provides new state)
-//   - If object didn't exist -> it's TRANSIENT (created and destroyed within the batch, emit nothing)
+// We keep track of all the documents the pipeline currently produces for each key: additions
+// append to and deletions remove from the list. The object exists in the target as long as the list
+// is not empty. A deletion preferably removes an equal document; if there is none (documents may
+// contain dynamic fields, e.g., @now timestamps) then it removes the oldest one.
 //
 // # Algorithm
 //
-//  1. Group all deltas by primary key, snapshotting cache existence state on first encounter
-//  2. For each key, determine action based on operation types and prior existence
+//  1. Apply the additions and then the deletions to the documents of the affected keys
+//  2. For each affected key, compare the resultant object to the one in the target cache
 //  3. Apply cache modifications and collect output deltas
 //  4. Return deltas ordered as: all deletes first, then all upserts
 //
-// # Scenario Table
-//
-//	| Scenario              | Adds | Deletes | ExistedBefore | Result |
-//	|-----------------------|------|---------|---------------|--------|
-//	| Create new object     |  ✓   |    ✗    |     false     | Upsert |
-//	| Update existing       |  ✓   |    ✗    |     true      | Upsert |
-//	| Delete existing       |  ✗   |    ✓    |     true      | Delete |
-//	| Delete non-existent   |  ✗   |    ✓    |     false     | no-op  |
-//	| Update (delete+add)   |  ✓   |    ✓    |     true      | Upsert |
-//	| Transient (add+delete)|  ✓   |    ✓    |     false     | no-op  |
-//
 // # Edge Cases
 //
-//   - Multiple adds for the same key: uses the last one (logs warning at V(1))
-//   - Multiple deletes for the same key: uses the first one (all should be equivalent)
-//   - Dynamic fields (@now, etc.): handled correctly since we never compare document content
-//   - @gather group changes: correctly detected as updates via existedBefore=true
-//   - @unwind/@gather transients: correctly suppressed via existedBefore=false
+//   - Multiple documents for the same key: one of them is chosen, based only on the content (logs
+//     warning at V(1))
+//   - Dynamic fields (@now, etc.): handled correctly, see above
+//   - @gather group changes: the old document is replaced with the new one
+//   - @unwind/@gather transients: the document is added and then removed, nothing is emitted
+//   - Addition of a document that does not change the target object: upsert
 func (p *Pipeline) Reconcile(ds []object.Delta) ([]object.Delta, error) {
-	// Step 1: Group deltas by primary key AND snapshot existence state BEFORE modifications
-	type keyOps struct {
-		adds          []object.Delta
-		deletes       []object.Delta
-		existedBefore bool // Captured when we first see this key
-	}
-	grouped := make(map[string]*keyOps)
+	keys := make(map[string]bool) // maps to true if there was an addition for the key
+	deletes := make([]object.Delta, 0, len(ds))
 
+	// Step 1: Update the documents
 	for _, d := range ds {
 		key := client.ObjectKeyFromObject(d.Object).String()
-		if grouped[key] == nil {
-			// First time seeing this key - snapshot cache state NOW
-			_, exists, _ := p.targetCache.Get(d.Object)
-			grouped[key] = &keyOps{existedBefore: exists}
-		}
+		keys[key] = keys[key] || d.Type == object.Added
 		switch d.Type {
 		case object.Added:
-			grouped[key].adds = append(grouped[key].adds, d)
+			p.outputs[key] = append(p.outputs[key], d.Object)
 		case object.Deleted:
-			grouped[key].deletes = append(grouped[key].deletes, d)
+			deletes = append(deletes, d)
 		default:
 			return nil, fmt.Errorf("unexpected delta type in z-set: %s", d.Type)
 		}
 	}
 
-	// Step 2: Determine action for each key based on cache state disambiguation
-	deltaCache := make(map[string]object.Delta)
+	inexact := []string{}
+	for _, d := range deletes {
+		key := client.ObjectKeyFromObject(d.Object).String()
+		i := slices.IndexFunc(p.outputs[key], func(obj object.Object) bool { return equal(obj, d.Object) })
+		if i < 0 {
+			inexact = append(inexact, key)
+			continue
+		}
+		p.outputs[key] = slices.Delete(p.outputs[key], i, i+1)
+	}
+	for _, key := range inexact {
+		if len(p.outputs[key]) > 0 {
+			p.outputs[key] = p.outputs[key][1:]
+		}
+	}
 
-	for key, ops := range grouped {
-		hasAdds := len(ops.adds) > 0
-		hasDeletes := len(ops.deletes) > 0
+	return p.updateTarget(keys)
+}
 
-		// Log warning for potentially malformed pipeline output
-		if len(ops.adds) > 1 {
-			p.log.V(1).Info("multiple add deltas for same key - using last one",
-				"key", key, "count", len(ops.adds))
-		}
+// updateTarget brings the target cache up to date with the documents produced for the given keys and
+// returns the changes, deletes first. Unchanged objects are emitted only if the key maps to true.
+func (p *Pipeline) updateTarget(keys map[string]bool) ([]object.Delta, error) {
+	deletes, upserts := []object.Delta{}, []object.Delta{}
 
-		switch {
-		case hasAdds && !hasDeletes:
-			// Pure add: always upsert
-			d := ops.adds[len(ops.adds)-1]
-			if err := p.targetCache.Add(d.Object); err != nil {
-				return nil, err
-			}
-			deltaCache[key] = object.Delta{Object: d.Object, Type: object.Upserted}
+	for _, key := range slices.Sorted(maps.Keys(keys)) {
+		docs := p.outputs[key]
 
-		case !hasAdds && hasDeletes:
-			// Pure delete: only delete if object existed
-			if ops.existedBefore {
-				d := ops.deletes[0]
-				if err := p.targetCache.Delete(d.Object); err != nil {
-					return nil, err
-				}
-				deltaCache[key] = object.Delta{Object: d.Object, Type: object.Deleted}
+		if len(docs) == 0 {
+			delete(p.outputs, key)
+			old, exists, err := p.targetCache.GetByKey(strings.TrimPrefix(key, "/"))
+			if err != nil {
+				return nil, err
 			}
-			// else: deleting non-existent object - silently skip
-
-		case hasAdds && hasDeletes:
-			// Disambiguate using cache state
-			if ops.existedBefore {
-				// Object existed -> this is an UPDATE (delete old + add new)
-				d := ops.adds[len(ops.adds)-1]
-				if err := p.targetCache.Add(d.Object); err != nil {
+			if exists {
+				if err := p.targetCache.Delete(old); err != nil {
 					return nil, err
 				}
-				deltaCache[key] = object.Delta{Object: d.Object, Type: object.Upserted}
+				deletes = append(deletes, object.Delta{Object: old, Type: object.Deleted})
 			}
-			// else: Object didn't exist -> TRANSIENT (add + delete in same batch =
-			// no-op) The object was created and destroyed within this delta batch, so
-			// it should never reach the target. Emit nothing.
+			continue
 		}
-	}
 
-	// Step 3: Order output - deletes first, then upserts
-	res := make([]object.Delta, 0, len(deltaCache))
-	for _, d := range deltaCache {
-		if d.Type == object.Deleted {
-			res = append(res, d)
+		if len(docs) > 1 {
+			p.log.V(1).Info("multiple objects for same key", "key", key, "count", len(docs))
 		}
-	}
-	for _, d := range deltaCache {
-		if d.Type == object.Upserted {
-			res = append(res, d)
+		obj := slices.MaxFunc(docs, func(a, b object.Object) int {
+			return strings.Compare(util.Stringify(a), util.Stringify(b))
+		})
+
+		old, exists, err := p.targetCache.Get(obj)
+		if err != nil {
+			return nil, err
+		}
+		if exists && !keys[key] && equal(old, obj) {
+			continue
 		}
+		if err := p.targetCache.Add(obj); err != nil {
+			return nil, err
+		}
+		upserts = append(upserts, object.Delta{Object: object.DeepCopy(obj), Type: object.Upserted})
 	}
 
-	return res, nil
+	return append(deletes, upserts...), nil
+}
+
+// equal checks whether two objects represent the same document.
+func equal(a, b object.Object) bool {
+	eq, err := dbsp.DeepEqual(a.UnstructuredContent(), b.UnstructuredContent())
+	return err == nil && eq
 }
 
 // *****************************
-- 
2.43.0


From 52f3d4dcbf3ab361bdc77b92b82441f29667fff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:03 +0000
Subject: [PATCH 26/81] fix: create the pipeline before starting the watches

---
 pkg/controller/declarative.go | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/pkg/controller/declarative.go b/pkg/controller/declarative.go
index 570478f..ba1fea8 100644
--- a/pkg/controller/declarative.go
+++ b/pkg/controller/declarative.go
@@ -83,8 +83,29 @@ func NewDeclarative(mgr manager.Manager, operator string, config opv1a1.Controll
 
 	c.log.V(4).Info("creating", "sources", fmt.Sprintf("[%s]", strings.Join(srcs, ",")))
 
-	on := true
+	// Collect the sources of the pipeline: only incremental sources flow through the pipeline.
 	baseviews := []schema.GroupVersionKind{}
+	for _, s := range c.sources {
+		gvk, err := s.GetGVK()
+		if err != nil {
+			return c, c.PushCriticalErrorf("failed to obtain GVK for source %s: %w",
+				util.Stringify(s), err)
+		}
+		if s.Type() != opv1a1.Periodic {
+			baseviews = append(baseviews, gvk)
+		}
+	}
+
+	// Create the pipeline. The pipeline must be ready before the first event may arrive.
+	pipeline, err := pipeline.New(c.op, targetGVK, baseviews, c.config.Pipeline,
+		logger.WithName("pipeline").WithValues("controller", c.name, "target", targetGVK.String()))
+	if err != nil {
+		return c, c.PushCriticalErrorf("failed to create pipleline for controller %s: %w",
+			c.name, err)
+	}
+	c.pipeline = pipeline
+
+	on := true
 	for i, s := range c.sources {
 		gvk, err := s.GetGVK()
 		if err != nil {
@@ -100,8 +121,6 @@ func NewDeclarative(mgr manager.Manager, operator string, config opv1a1.Controll
 		} else {
 			// Incremental reconciler for watcher and oneshot sources.
 			rec = NewIncrementalReconciler(mgr, c)
-			// Only incremental sources flow through the pipeline.
-			baseviews = append(baseviews, gvk)
 		}
 
 		// Create the controller with a unique name per source.
@@ -134,15 +153,6 @@ func NewDeclarative(mgr manager.Manager, operator string, config opv1a1.Controll
 		c.log.V(4).Info("watching resource", "GVK", s.String(), "controller", ctrlName)
 	}
 
-	// Create the pipeline.
-	pipeline, err := pipeline.New(c.op, targetGVK, baseviews, c.config.Pipeline,
-		logger.WithName("pipeline").WithValues("controller", c.name, "target", targetGVK.String()))
-	if err != nil {
-		return c, c.PushCriticalErrorf("failed to create pipleline for controller %s: %w",
-			c.name, err)
-	}
-	c.pipeline = pipeline
-
 	c.log.Info("controller ready", "sources", fmt.Sprintf("[%s]", strings.Join(srcs, ",")),
 		"pipeline", c.pipeline.String(), "target", c.target.String(),
 		"errors", strings.Join(c.Report(), ","))
-- 
2.43.0


From c1262f2c0e3c9c8c8468f49c4724e2b309f9d936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:48 +0000
Subject: [PATCH 27/81] fix: never lose, reorder or undo changes when an event
 is retried

---
 pkg/controller/declarative.go |   2 +
 pkg/controller/reconcilers.go |  58 ++-----------
 pkg/controller/writer.go      | 148 ++++++++++++++++++++++++++++++++++
 pkg/pipeline/errors.go        |   4 +
 pkg/pipeline/zset_adaptor.go  |   4 +-
 5 files changed, 164 insertions(+), 52 deletions(-)
 create mode 100644 pkg/controller/writer.go

diff --git a/pkg/controller/declarative.go b/pkg/controller/declarative.go
index ba1fea8..55d5bdf 100644
--- a/pkg/controller/declarative.go
+++ b/pkg/controller/declarative.go
@@ -27,6 +27,7 @@ type DeclarativeController struct {
 	target      reconciler.Target
 	mgr         manager.Manager
 	pipeline    pipeline.Evaluator
+	writer      *deltaWriter
 	logger, log logr.Logger
 }
 
@@ -104,6 +105,7 @@ func NewDeclarative(mgr manager.Manager, operator string, config opv1a1.Controll
 			c.name, err)
 	}
 	c.pipeline = pipeline
+	c.writer = newDeltaWriter(c)
 
 	on := true
 	for i, s := range c.sources {
diff --git a/pkg/controller/reconcilers.go b/pkg/controller/reconcilers.go
index c0351d0..5652c40 100644
--- a/pkg/controller/reconcilers.go
+++ b/pkg/controller/reconcilers.go
@@ -2,10 +2,8 @@ package controller
 
 import (
 	"context"
-	"fmt"
 
 	"github.com/go-logr/logr"
-	"sigs.k8s.io/controller-runtime/pkg/client"
 	"sigs.k8s.io/controller-runtime/pkg/reconcile"
 
 	"github.com/l7mp/dcontroller/pkg/manager"
@@ -44,38 +42,19 @@ func (r *IncrementalReconciler) Reconcile(ctx context.Context, req reconciler.Re
 		return reconcile.Result{}, nil
 	}
 
-	// Automatically decode Secret data fields for use in pipeline expressions.
-	obj := object.DecodeSecretData(req.Object)
-
-	// Create the delta
+	// Automatically decode Secret data fields for use in pipeline expressions. Make a copy: the
+	// request may be retried.
 	delta := object.Delta{
 		Type:   req.EventType,
-		Object: obj,
+		Object: object.DecodeSecretData(object.DeepCopy(req.Object)),
 	}
 
-	// Process the delta through the pipeline (pipeline has internal locking).
-	deltas, err := r.controller.pipeline.Evaluate(delta)
-	if err != nil {
-		err = fmt.Errorf("error evaluating pipeline for object %s/%s: %w", req.GVK,
-			client.ObjectKeyFromObject(obj), err)
+	// Process the delta through the pipeline and apply the resultant deltas.
+	if err := r.controller.writer.evaluate(ctx, req, delta); err != nil {
 		r.log.Error(r.controller.Push(err), "error", "request", req)
 		return reconcile.Result{}, err
 	}
 
-	// Apply the resultant deltas.
-	for _, d := range deltas {
-		r.log.V(4).Info("writing delta to target", "target", r.controller.target.String(),
-			"delta-type", d.Type, "object", object.Dump(d.Object))
-
-		// Pass the original object from the request for optimistic concurrency control.
-		if err := r.controller.target.Write(ctx, d, req.Object); err != nil {
-			err = fmt.Errorf("cannot update target %s for delta %s: %w", req.GVK,
-				d.String(), err)
-			r.log.Error(r.controller.Push(err), "error", "request", req)
-			return reconcile.Result{}, err
-		}
-	}
-
 	return reconcile.Result{}, nil
 }
 
@@ -100,34 +79,13 @@ func NewStateOfTheWorldReconciler(mgr manager.Manager, c *DeclarativeController)
 // target state (based on current sources) and the actual target state, then applies
 // the delta to bring the target up to date.
 func (r *StateOfTheWorldReconciler) Reconcile(ctx context.Context, req reconciler.Request) (reconcile.Result, error) {
-	// Automatically decode Secret data fields for use in pipeline expressions.
-	req.Object = object.DecodeSecretData(req.Object)
-
-	// Call pipeline.Sync() to compute the delta needed to reconcile target state.
-	deltas, err := r.controller.pipeline.Sync()
-	if err != nil {
-		err = fmt.Errorf("error during state-of-the-world reconciliation: %w", err)
+	// Compute the delta needed to reconcile target state and apply the deltas to the target.
+	if err := r.controller.writer.sync(ctx, req); err != nil {
 		r.log.Error(r.controller.Push(err), "error", "request", req)
 		return reconcile.Result{}, err
 	}
 
-	r.log.V(2).Info("state-of-the-world reconciliation computed deltas", "num-deltas", len(deltas))
-
-	// Apply the deltas to the target.
-	for _, d := range deltas {
-		r.log.V(4).Info("writing delta to target", "target", r.controller.target.String(),
-			"delta-type", d.Type, "object", object.Dump(d.Object))
-
-		// Pass nil for state-of-the-world reconciliation (eventual consistency is acceptable).
-		if err := r.controller.target.Write(ctx, d, nil); err != nil {
-			err = fmt.Errorf("cannot update target %s for delta %s: %w",
-				r.controller.target.String(), d.String(), err)
-			r.log.Error(r.controller.Push(err), "error", "request", req)
-			return reconcile.Result{}, err
-		}
-	}
-
-	r.log.V(1).Info("reconciliation complete", "num-deltas", len(deltas))
+	r.log.V(1).Info("reconciliation complete")
 
 	return reconcile.Result{}, nil
 }
diff --git a/pkg/controller/writer.go b/pkg/controller/writer.go
new file mode 100644
index 0000000..ff00566
--- /dev/null
+++ b/pkg/controller/writer.go
@@ -0,0 +1,148 @@
+package controller
+
+import (
+	"context"
+	"errors"
+	"fmt"
+	"sync"
+
+	"sigs.k8s.io/controller-runtime/pkg/client"
+
+	"github.com/l7mp/dcontroller/pkg/object"
+	"github.com/l7mp/dcontroller/pkg/pipeline"
+	"github.com/l7mp/dcontroller/pkg/reconciler"
+)
+
+// sourceKey identifies a source object.
+type sourceKey struct {
+	gvk  string
+	name client.ObjectKey
+}
+
+func newSourceKey(req reconciler.Request) sourceKey {
+	return sourceKey{
+		gvk:  req.GVK.String(),
+		name: client.ObjectKey{Namespace: req.Namespace, Name: req.Name},
+	}
+}
+
+// deltaWriter runs the requests through the pipeline and writes the results to the target. Requests
+// are processed one by one: the sources of a controller are handled by separate workers but the
+// changes must reach the target in the order in which they have been computed by the pipeline.
+//
+// The pipeline emits each change only once. If writing a change to the target fails then the writer
+// retains the change until either the retry of the failed request succeeds or a newer change is
+// obtained for the same target object.
+type deltaWriter struct {
+	c  *DeclarativeController
+	mu sync.Mutex
+	// unwritten holds the changes that could not be written, per failed request
+	unwritten map[reconciler.Request][]object.Delta
+	// failed holds the last request of a source object if that could not be evaluated
+	failed map[sourceKey]reconciler.Request
+	// stale holds the failed requests that are followed by a newer request on the same object
+	stale map[reconciler.Request]bool
+}
+
+func newDeltaWriter(c *DeclarativeController) *deltaWriter {
+	return &deltaWriter{
+		c:         c,
+		unwritten: map[reconciler.Request][]object.Delta{},
+		failed:    map[sourceKey]reconciler.Request{},
+		stale:     map[reconciler.Request]bool{},
+	}
+}
+
+// evaluate processes a request on a source object and writes the resultant changes to the target.
+func (w *deltaWriter) evaluate(ctx context.Context, req reconciler.Request, delta object.Delta) error {
+	w.mu.Lock()
+	defer w.mu.Unlock()
+
+	// This is a retry: the request has already been evaluated.
+	if _, ok := w.unwritten[req]; ok {
+		return w.write(ctx, req, nil)
+	}
+
+	// This is a retry: do not undo a later event on the same object.
+	if w.stale[req] {
+		delete(w.stale, req)
+		return nil
+	}
+
+	key := newSourceKey(req)
+	if last, ok := w.failed[key]; ok && last != req {
+		w.stale[last] = true
+		delete(w.failed, key)
+	}
+
+	deltas, err := w.c.pipeline.Evaluate(delta)
+	if errors.Is(err, pipeline.ErrUnknownObject) {
+		// The object could never be processed so there is nothing to remove.
+		w.c.log.V(2).Info("ignoring delete for an unknown object", "request", req.String())
+		return nil
+	}
+	if err != nil {
+		w.failed[key] = req
+		return fmt.Errorf("error evaluating pipeline for object %s/%s: %w", req.GVK,
+			client.ObjectKeyFromObject(delta.Object), err)
+	}
+	delete(w.failed, key)
+
+	return w.write(ctx, req, deltas)
+}
+
+// sync performs a state-of-the-world reconciliation and writes the resultant changes to the target.
+func (w *deltaWriter) sync(ctx context.Context, req reconciler.Request) error {
+	w.mu.Lock()
+	defer w.mu.Unlock()
+
+	deltas, err := w.c.pipeline.Sync()
+	if err != nil {
+		return fmt.Errorf("error during state-of-the-world reconciliation: %w", err)
+	}
+
+	w.c.log.V(2).Info("state-of-the-world reconciliation computed deltas", "num-deltas", len(deltas))
+
+	return w.write(ctx, req, deltas)
+}
+
+// write writes the changes obtained for a request along with the ones left over from the previous
+// attempts to the target.
+func (w *deltaWriter) write(ctx context.Context, req reconciler.Request, deltas []object.Delta) error {
+	// The new changes override the previous ones for the same object.
+	keys := map[client.ObjectKey]bool{}
+	for _, d := range deltas {
+		keys[client.ObjectKeyFromObject(d.Object)] = true
+	}
+	for r, ds := range w.unwritten {
+		rest := []object.Delta{}
+		for _, d := range ds {
+			if !keys[client.ObjectKeyFromObject(d.Object)] {
+				rest = append(rest, d)
+			}
+		}
+		w.unwritten[r] = rest
+	}
+	deltas = append(w.unwritten[req], deltas...)
+	delete(w.unwritten, req)
+
+	failed, errs := []object.Delta{}, []error{}
+	for _, d := range deltas {
+		w.c.log.V(4).Info("writing delta to target", "target", w.c.target.String(),
+			"delta-type", d.Type, "object", object.Dump(d.Object))
+
+		// Pass the original object from the request for optimistic concurrency control.
+		if err := w.c.target.Write(ctx, d, req.Object); err != nil {
+			failed = append(failed, d)
+			errs = append(errs, fmt.Errorf("cannot update target %s for delta %s: %w",
+				w.c.target.String(), d.String(), err))
+		}
+	}
+
+	if len(failed) > 0 {
+		w.unwritten[req] = failed
+		return errors.Join(errs...)
+	}
+
+	return nil
+}
diff --git a/pkg/pipeline/errors.go b/pkg/pipeline/errors.go
index 072a062..154043a 100644
--- a/pkg/pipeline/errors.go
+++ b/pkg/pipeline/errors.go
@@ -1,9 +1,13 @@
 package pipeline
 
 import (
+	"errors"
 	"fmt"
 )
 
+// ErrUnknownObject is returned for a delete event on an object that is unknown to the pipeline.
+var ErrUnknownObject = errors.New("got delete for a nonexistent object")
+
 type ErrPipeline = error
 
 func NewPipelineError(err error) ErrPipeline {
diff --git a/pkg/pipeline/zset_adaptor.go b/pkg/pipeline/zset_adaptor.go
index f6e07be..118680f 100644
--- a/pkg/pipeline/zset_adaptor.go
+++ b/pkg/pipeline/zset_adaptor.go
@@ -73,8 +73,8 @@ func (p *Pipeline) ConvertDeltaToZSet(delta object.Delta) (*dbsp.DocumentZSet, e
 	case object.Deleted:
 		if old == nil {
 			return nil, NewPipelineError(
-				fmt.Errorf("processing event %q: got delete for a nonexistent object %s",
-					delta.Type, ObjectKey(deltaObj)))
+				fmt.Errorf("processing event %q: %w %s", delta.Type, ErrUnknownObject,
+					ObjectKey(deltaObj)))
 		}
 
 		// retract the document that was added: the event may carry a different version
-- 
2.43.0


From c3b41b1174651e65b522cca0301640be17af1992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:45 +0000
Subject: [PATCH 28/81] fix: fused projections may produce any number of
 documents, like the standalone operator

---
 pkg/dbsp/fused_op.go | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/pkg/dbsp/fused_op.go b/pkg/dbsp/fused_op.go
index b8af9c9..383e02b 100644
--- a/pkg/dbsp/fused_op.go
+++ b/pkg/dbsp/fused_op.go
@@ -32,7 +32,7 @@ func (op *ProjectThenSelectOp) Process(inputs ...*DocumentZSet) (*DocumentZSet,
 		doc := input.docs[key]
 
 		// Apply projection
-		projectedDocs, err := op.projEval.Evaluate(doc)
+		projectedDocs, err := op.projEval.Evaluate(DeepCopyDocument(doc))
 		if err != nil {
 			return nil, err
 		}
@@ -117,26 +117,23 @@ func (op *SelectThenProjectionsOp) Process(inputs ...*DocumentZSet) (*DocumentZS
 			docsToProcess = []Document{doc}
 		}
 
-		// Apply projection chain to each document that passed selection
-		for _, docToProcess := range docsToProcess {
-			currentDoc := docToProcess
-
-			// Apply chain of projections sequentially
-			for _, projEval := range op.projEvals {
-				projectedDocs, err := projEval.Evaluate(currentDoc)
+		// Apply chain of projections sequentially: like the standalone operator, a projection
+		// may produce any number of documents and owns the document it is given.
+		for _, projEval := range op.projEvals {
+			projected := make([]Document, 0, len(docsToProcess))
+			for _, docToProcess := range docsToProcess {
+				docs, err := projEval.Evaluate(DeepCopyDocument(docToProcess))
 				if err != nil {
 					return nil, err
 				}
-
-				if len(projectedDocs) != 1 {
-					return nil, fmt.Errorf("projection evaluator produced %d documents, expected 1", len(projectedDocs))
-				}
-
-				currentDoc = projectedDocs[0]
+				projected = append(projected, docs...)
 			}
+			docsToProcess = projected
+		}
 
-			// Add final transformed document
-			if err := result.AddDocumentMutate(currentDoc, multiplicity); err != nil {
+		// Add final transformed documents
+		for _, finalDoc := range docsToProcess {
+			if err := result.AddDocumentMutate(finalDoc, multiplicity); err != nil {
 				return nil, err
 			}
 		}
-- 
2.43.0


From 19581ced1fe85f86f6f07c6ede15586b3efbf075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:38 +0000
Subject: [PATCH 29/81] fix: JSONPath queries with several matches are
 deterministic, setters never loop and library panics are errors

---
 pkg/expression/jsonpath.go | 96 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 94 insertions(+), 2 deletions(-)

diff --git a/pkg/expression/jsonpath.go b/pkg/expression/jsonpath.go
index d9181b6..948ac49 100644
--- a/pkg/expression/jsonpath.go
+++ b/pkg/expression/jsonpath.go
@@ -1,8 +1,10 @@
 package expression
 
 import (
+	"cmp"
 	"errors"
 	"fmt"
+	"slices"
 
 	"github.com/ohler55/ojg/jp"
 
@@ -93,7 +95,9 @@ func SetJSONPath(_ EvalCtx, key string, value, data any) error {
 
 // GetJSONPathRaw evaluates a JSONPath expression on the specified object and returns the result or
 // an error.
-func GetJSONPathRaw(query string, data any) (any, error) {
+func GetJSONPathRaw(query string, data any) (ret any, err error) {
+	defer recoverJSONPath(query, &err)
+
 	je, err := jp.ParseString(query)
 	if err != nil {
 		return nil, err
@@ -107,9 +111,43 @@ func GetJSONPathRaw(query string, data any) (any, error) {
 		return nil, nil
 	}
 
+	// maps are iterated in random order: make sure the same match is chosen every time
+	if len(values) > 1 && isMultiMatch(je) {
+		if locs := je.Locate(data, 0); len(locs) > 0 {
+			return slices.MinFunc(locs, compareLocations).First(data), nil
+		}
+	}
+
 	return values[0], nil
 }
 
+// isMultiMatch returns true if a JSONPath expression may iterate over the fields of a map.
+func isMultiMatch(je jp.Expr) bool {
+	return slices.ContainsFunc(je, func(f jp.Frag) bool {
+		switch f.(type) {
+		case jp.Wildcard, jp.Descent, *jp.Filter:
+			return true
+		default:
+			return false
+		}
+	})
+}
+
+// compareLocations defines the document order on normalized paths: lists are ordered by index and
+// maps are ordered by key.
+func compareLocations(a, b jp.Expr) int {
+	return slices.CompareFunc(a, b, func(x, y jp.Frag) int {
+		nx, okx := x.(jp.Nth)
+		ny, oky := y.(jp.Nth)
+		if okx && oky {
+			return cmp.Compare(nx, ny)
+		}
+		cx, _ := x.(jp.Child)
+		cy, _ := y.(jp.Child)
+		return cmp.Compare(cx, cy)
+	})
+}
+
 // SetJSONPathRaw sets a key (possibly represented with a JSONPath expression) to a value (can also
 // be a JSONPath expression, which will be evaluated using the object argument) in the given data
 // structure.
@@ -119,7 +157,61 @@ func SetJSONPathRaw(key string, value, target any) error {
 		return err
 	}
 
-	return je.Set(target, value)
+	set := func(v any) (err error) {
+		defer recoverJSONPath(key, &err)
+		return je.Set(target, v)
+	}
+
+	switch value.(type) {
+	case map[string]any, []any:
+	default:
+		return set(value)
+	}
+
+	// set a placeholder first: the JSONPath library would descend into the very value being set
+	// (possibly forever), and multiple targets would share the same value
+	err = set(placeholder(""))
+	first := true
+	replacePlaceholder(target, func() any {
+		if first {
+			first = false
+			return value
+		}
+		return object.DeepCopyAny(value)
+	})
+	return err
+}
+
+type placeholder string
+
+// replacePlaceholder replaces all occurrences of a placeholder with the values generated.
+func replacePlaceholder(data any, gen func() any) {
+	switch d := data.(type) {
+	case map[string]any:
+		for k, v := range d {
+			if v == any(placeholder("")) {
+				d[k] = gen()
+			} else {
+				replacePlaceholder(v, gen)
+			}
+		}
+	case []any:
+		for i, v := range d {
+			if v == any(placeholder("")) {
+				d[i] = gen()
+			} else {
+				replacePlaceholder(v, gen)
+			}
+		}
+	}
+}
+
+// recoverJSONPath turns a panic of the JSONPath library, which happens on certain combinations of
+// queries and data, into an error.
+func recoverJSONPath(query string, err *error) {
+	if r := recover(); r != nil {
+		*err = fmt.Errorf("JSONPath expression error: failed to evaluate %q: %v", query, r)
+	}
 }
 
 // SetJSONPathRawExp is the same as SetJSONPathRaw but takes the key as a string expression.
-- 
2.43.0


From b5e63839c0157b6da4464172f0e860cdcc696b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:06 +0000
Subject: [PATCH 30/81] fix: deep-copied expressions and pipelines share
 nothing with the original

---
 pkg/api/operator/v1alpha1/pipeline_types.go | 15 ++++++-----
 pkg/expression/marshaler.go                 | 29 +++++++++++++++++----
 2 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/pkg/api/operator/v1alpha1/pipeline_types.go b/pkg/api/operator/v1alpha1/pipeline_types.go
index cf01c5b..b715a92 100644
--- a/pkg/api/operator/v1alpha1/pipeline_types.go
+++ b/pkg/api/operator/v1alpha1/pipeline_types.go
@@ -115,17 +115,20 @@ func deepCopyPipelineOp(op PipelineOp) PipelineOp {
 		return nil
 	}
 
-	switch v := op.(type) {
+	expr := expression.Expression{}
+	op.GetExpression().DeepCopyInto(&expr)
+
+	switch op.(type) {
 	case *JoinOp:
-		return &JoinOp{Expression: v.Expression}
+		return &JoinOp{Expression: expr}
 	case *SelectionOp:
-		return &SelectionOp{Expression: v.Expression}
+		return &SelectionOp{Expression: expr}
 	case *ProjectionOp:
-		return &ProjectionOp{Expression: v.Expression}
+		return &ProjectionOp{Expression: expr}
 	case *UnwindOp:
-		return &UnwindOp{Expression: v.Expression}
+		return &UnwindOp{Expression: expr}
 	case *GatherOp:
-		return &GatherOp{Expression: v.Expression}
+		return &GatherOp{Expression: expr}
 	default:
 		return nil
 	}
diff --git a/pkg/expression/marshaler.go b/pkg/expression/marshaler.go
index ca45105..4943c82 100644
--- a/pkg/expression/marshaler.go
+++ b/pkg/expression/marshaler.go
@@ -202,13 +202,32 @@ func (e *Expression) DeepCopyInto(out *Expression) {
 	}
 	*out = *e
 
-	j, err := json.Marshal(e)
-	if err != nil {
-		return
+	if e.Arg != nil {
+		out.Arg = new(Expression)
+		e.Arg.DeepCopyInto(out.Arg)
 	}
 
-	if err := json.Unmarshal(j, out); err != nil {
-		return
+	switch lit := e.Literal.(type) {
+	case []Expression:
+		if lit == nil {
+			return
+		}
+		es := make([]Expression, len(lit))
+		for i := range lit {
+			lit[i].DeepCopyInto(&es[i])
+		}
+		out.Literal = es
+	case map[string]Expression:
+		if lit == nil {
+			return
+		}
+		em := make(map[string]Expression, len(lit))
+		for k, v := range lit {
+			c := Expression{}
+			v.DeepCopyInto(&c)
+			em[k] = c
+		}
+		out.Literal = em
 	}
 }
 
-- 
2.43.0


From 8c5c0700f4c0c91f3606365eedaa77973ed95116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:09 +0000
Subject: [PATCH 31/81] fix: changes of the view store are atomic and are
 delivered to every handler exactly once and in order

---
 pkg/cache/view_cache.go          | 383 ++++++++++++++++---------------
 pkg/cache/view_cache_informer.go | 222 ++++++++++++------
 2 files changed, 351 insertions(+), 254 deletions(-)

diff --git a/pkg/cache/view_cache.go b/pkg/cache/view_cache.go
index ce8d5e6..f3efe0e 100644
--- a/pkg/cache/view_cache.go
+++ b/pkg/cache/view_cache.go
@@ -5,7 +5,6 @@ import (
 	"errors"
 	"fmt"
 	"sync"
-	"time"
 
 	"github.com/go-logr/logr"
 	apierrors "k8s.io/apimachinery/pkg/api/errors"
@@ -32,7 +31,7 @@ const DefaultWatchChannelBuffer = 256
 // views from any operator.
 type ViewCache struct {
 	mu        sync.RWMutex
-	caches    map[schema.GroupVersionKind]toolscache.Indexer
+	caches    map[schema.GroupVersionKind]*syncIndexer
 	informers map[schema.GroupVersionKind]*ViewCacheInformer
 	// delegatingInformers maintains a registry of informers from DelegatingViewCache instances.
 	// When shared storage triggers events via Add/Update/Delete, it propagates them to all
@@ -50,7 +49,7 @@ func NewViewCache(opts CacheOptions) *ViewCache {
 	}
 
 	c := &ViewCache{
-		caches:              make(map[schema.GroupVersionKind]toolscache.Indexer),
+		caches:              make(map[schema.GroupVersionKind]*syncIndexer),
 		informers:           make(map[schema.GroupVersionKind]*ViewCacheInformer),
 		delegatingInformers: make(map[schema.GroupVersionKind][]*ViewCacheInformer),
 		discovery:           NewViewDiscovery(),
@@ -81,13 +80,17 @@ func (c *ViewCache) RegisterCacheForKind(gvk schema.GroupVersionKind) error {
 		toolscache.Indexers{toolscache.NamespaceIndex: toolscache.MetaNamespaceIndexFunc},
 	)
 
-	c.caches[gvk] = indexer
+	c.caches[gvk] = &syncIndexer{Indexer: indexer}
 
 	return nil
 }
 
 // GetCacheForKind returns the internal cache for a given GVK.
 func (c *ViewCache) GetCacheForKind(gvk schema.GroupVersionKind) (toolscache.Indexer, error) {
+	return c.getCacheForKind(gvk)
+}
+
+func (c *ViewCache) getCacheForKind(gvk schema.GroupVersionKind) (*syncIndexer, error) {
 	if !viewv1a1.IsViewKind(gvk) {
 		return nil, fmt.Errorf("not a view GVK: %s", gvk)
 	}
@@ -167,15 +170,14 @@ func (c *ViewCache) UnregisterDelegatingInformer(gvk schema.GroupVersionKind, in
 	c.mu.Lock()
 	defer c.mu.Unlock()
 
-	informers := c.delegatingInformers[gvk]
-	for i, inf := range informers {
-		if inf == informer {
-			// Remove by replacing with last element and truncating
-			c.delegatingInformers[gvk][i] = c.delegatingInformers[gvk][len(c.delegatingInformers[gvk])-1]
-			c.delegatingInformers[gvk] = c.delegatingInformers[gvk][:len(c.delegatingInformers[gvk])-1]
-			break
+	// Never modify the slice in place: it may be in use for propagating an event.
+	informers := []*ViewCacheInformer{}
+	for _, inf := range c.delegatingInformers[gvk] {
+		if inf != informer {
+			informers = append(informers, inf)
 		}
 	}
+	c.delegatingInformers[gvk] = informers
 
 	return nil
 }
@@ -221,174 +223,160 @@ func (c *ViewCache) GetInformerForKind(ctx context.Context, gvk schema.GroupVers
 func (c *ViewCache) RemoveInformer(ctx context.Context, obj client.Object) error {
 	gvk := obj.GetObjectKind().GroupVersionKind()
 
-	c.mu.RLock()
-	_, exists := c.informers[gvk]
-	c.mu.RUnlock()
-
-	if exists {
-		delete(c.informers, gvk)
-	}
+	c.mu.Lock()
+	defer c.mu.Unlock()
+	delete(c.informers, gvk)
 
 	return nil
 }
 
-// Add inserts an object into the cache.
-func (c *ViewCache) Add(obj object.Object) error {
-	gvk := obj.GetObjectKind().GroupVersionKind()
+// informersForKind returns the informers that must be notified about the changes of a GVK.
+func (c *ViewCache) informersForKind(gvk schema.GroupVersionKind) []*ViewCacheInformer {
+	c.mu.RLock()
+	defer c.mu.RUnlock()
 
-	if !viewv1a1.IsViewKind(gvk) {
-		return fmt.Errorf("not a view GVK: %s", gvk)
+	informers := []*ViewCacheInformer{}
+	if informer, ok := c.informers[gvk]; ok {
+		informers = append(informers, informer)
 	}
 
-	c.log.V(5).Info("add", "gvk", gvk, "key", client.ObjectKeyFromObject(obj).String(),
-		"object", object.Dump(obj))
+	return append(informers, c.delegatingInformers[gvk]...)
+}
 
-	cache, err := c.GetCacheForKind(gvk)
+// modify atomically replaces the object stored under the key of the given object. The callback
+// receives the current object, or nil if there is none, and returns the object to be stored, or
+// nil to remove the object from the cache. The callback must not modify the current object. The
+// informers are notified about the changes in the order the changes were made.
+func (c *ViewCache) modify(obj object.Object, fn func(current object.Object) (object.Object, error)) error {
+	gvk := obj.GetObjectKind().GroupVersionKind()
+	cache, err := c.getCacheForKind(gvk)
 	if err != nil {
 		return err
 	}
 
-	// The cache does not apply deepcopy to stored objects.
-	obj = object.DeepCopy(obj)
-
-	// Make sure to have a valid UID.
-	object.WithUID(obj)
-
-	// Add object to the cache.
-	if err := cache.Add(obj); err != nil {
-		return err
-	}
-
-	informer, err := c.GetInformerForKind(context.Background(), gvk)
+	key, err := toolscache.DeletionHandlingMetaNamespaceKeyFunc(obj)
 	if err != nil {
 		return err
 	}
 
-	// Trigger event on shared informer
-	informer.(*ViewCacheInformer).TriggerEvent(toolscache.Added, nil, obj, false)
+	informers, err := func() ([]*ViewCacheInformer, error) {
+		cache.mu.Lock()
+		defer cache.mu.Unlock()
 
-	// Also trigger event on all delegating informers
-	c.mu.RLock()
-	delegatingInfs := c.delegatingInformers[gvk]
-	c.mu.RUnlock()
+		item, exists, err := cache.GetByKey(key)
+		if err != nil {
+			return nil, err
+		}
+		var current object.Object
+		if exists {
+			current = item.(object.Object)
+		}
 
-	for _, dinf := range delegatingInfs {
-		dinf.TriggerEvent(toolscache.Added, nil, obj, false)
-	}
+		newObj, err := fn(current)
+		if err != nil {
+			return nil, err
+		}
 
-	return nil
-}
+		event := pendingEvent{oldObj: current, newObj: newObj}
+		switch {
+		case newObj == nil && !exists:
+			return nil, nil
 
-// Update modifies the object stored in the cache.
-func (c *ViewCache) Update(oldObj, newObj object.Object) error {
-	// The cache does not apply deepcopy to stored objects.
-	newObj = object.DeepCopy(newObj)
+		case newObj == nil:
+			if err := cache.Delete(current); err != nil {
+				return nil, err
+			}
+			event = pendingEvent{eventType: toolscache.Deleted, newObj: current}
 
-	// Make sure to have a valid UID (cached views always have an UID).
-	object.WithUID(newObj)
+		default:
+			// The cache does not apply deepcopy to stored objects.
+			newObj = object.DeepCopy(newObj)
+			event.newObj = newObj
 
-	gvk := newObj.GetObjectKind().GroupVersionKind()
-	if !viewv1a1.IsViewKind(gvk) {
-		return fmt.Errorf("not a view GVK: %s", gvk)
-	}
+			// Cached views always have a valid UID.
+			object.WithUID(newObj)
 
-	if object.DeepEqual(oldObj, newObj) {
-		c.log.V(4).Info("update: suppressing object update", "gvk", gvk,
-			"key", client.ObjectKeyFromObject(newObj).String())
-		return nil
-	}
+			newKey, err := toolscache.MetaNamespaceKeyFunc(newObj)
+			if err != nil {
+				return nil, err
+			}
+			if newKey != key || newObj.GetObjectKind().GroupVersionKind() != gvk {
+				return nil, apierrors.NewBadRequest(fmt.Sprintf("cannot change the identity of object %s", key))
+			}
 
-	c.log.V(5).Info("update", "gvk", gvk, "key", client.ObjectKeyFromObject(newObj).String(),
-		"object", object.Dump(newObj))
+			if exists {
+				if object.DeepEqual(current, newObj) {
+					c.log.V(4).Info("suppressing object update", "gvk", gvk, "key", key)
+					return nil, nil
+				}
+				event.eventType = toolscache.Updated
+				err = cache.Update(newObj)
+			} else {
+				event.eventType = toolscache.Added
+				err = cache.Add(newObj)
+			}
+			if err != nil {
+				return nil, err
+			}
+		}
 
-	cache, err := c.GetCacheForKind(gvk)
-	if err != nil {
-		return err
-	}
+		c.log.V(5).Info("object changed", "event", event.eventType, "gvk", gvk, "key", key,
+			"object", object.Dump(event.newObj))
 
-	if err := cache.Update(newObj); err != nil {
-		return err
-	}
+		// Trigger the event on the shared informer and all delegating informers.
+		informers := c.informersForKind(gvk)
+		for _, informer := range informers {
+			informer.enqueue(event)
+		}
 
-	informer, err := c.GetInformerForKind(context.Background(), gvk)
-	if err != nil {
-		return err
-	}
+		return informers, nil
+	}()
 
-	// Trigger event on shared informer
-	informer.(*ViewCacheInformer).TriggerEvent(toolscache.Updated, oldObj, newObj, false)
+	for _, informer := range informers {
+		informer.flush()
+	}
 
-	// Also trigger event on all delegating informers
-	c.mu.RLock()
-	delegatingInfs := c.delegatingInformers[gvk]
-	c.mu.RUnlock()
+	return err
+}
 
-	for _, dinf := range delegatingInfs {
-		dinf.TriggerEvent(toolscache.Updated, oldObj, newObj, false)
-	}
+// Add inserts an object into the cache. It returns an error if the object already exists.
+func (c *ViewCache) Add(obj object.Object) error {
+	return c.modify(obj, func(current object.Object) (object.Object, error) {
+		if current != nil {
+			gvk := obj.GetObjectKind().GroupVersionKind()
+			return nil, apierrors.NewAlreadyExists(schema.GroupResource{Group: gvk.Group, Resource: gvk.Kind},
+				client.ObjectKeyFromObject(obj).String())
+		}
+		return obj, nil
+	})
+}
 
-	return nil
+// Update modifies the object stored in the cache. The old object is ignored: the update always
+// applies to the object stored in the cache.
+func (c *ViewCache) Update(_, newObj object.Object) error {
+	return c.modify(newObj, func(_ object.Object) (object.Object, error) { return newObj, nil })
 }
 
 // Delete removes an object from the cache.
 func (c *ViewCache) Delete(obj object.Object) error {
-	gvk := obj.GetObjectKind().GroupVersionKind()
-
-	if !viewv1a1.IsViewKind(gvk) {
-		return fmt.Errorf("not a view GVK: %s", gvk)
-	}
-
-	c.log.V(5).Info("delete", "gvk", gvk, "key", client.ObjectKeyFromObject(obj).String(),
-		"object", object.Dump(obj))
-
-	cache, err := c.GetCacheForKind(gvk)
-	if err != nil {
-		return err
-	}
-
 	// Delete the existing object from the cache by key lookup (not the incoming obj directly).
 	// This ensures we remove what's actually cached, handling cases where the caller passes a
 	// stale object version. Note that this may break controller chains because downstream
 	// controllers would receive stale cached state rather than the transformed delta. However,
 	// this behavior is in-line with typical Kubernetes delete watches.
-	key, err := toolscache.DeletionHandlingMetaNamespaceKeyFunc(obj)
-	if err != nil {
-		return err
-	}
-
-	existingObj, exists, err := cache.GetByKey(key)
-	if err != nil {
-		return err
-	}
-	if !exists {
-		return apierrors.NewNotFound(schema.GroupResource{
-			Group:    obj.GetObjectKind().GroupVersionKind().Group,
-			Resource: obj.GetObjectKind().GroupVersionKind().Kind,
-		}, key)
-	}
-
-	if err := cache.Delete(existingObj); err != nil {
-		return err
-	}
-
-	informer, err := c.GetInformerForKind(context.Background(), gvk)
-	if err != nil {
-		return err
-	}
-
-	// Trigger event on shared informer
-	informer.(*ViewCacheInformer).TriggerEvent(toolscache.Deleted, nil, existingObj.(object.Object), false)
-
-	// Also trigger event on all delegating informers
-	c.mu.RLock()
-	delegatingInfs := c.delegatingInformers[gvk]
-	c.mu.RUnlock()
-
-	for _, dinf := range delegatingInfs {
-		dinf.TriggerEvent(toolscache.Deleted, nil, existingObj.(object.Object), false)
-	}
+	return c.modify(obj, func(current object.Object) (object.Object, error) {
+		if current == nil {
+			return nil, newNotFoundError(obj)
+		}
+		return nil, nil
+	})
+}
 
-	return nil
+// newNotFoundError creates an error for an object that does not exist in the cache.
+func newNotFoundError(obj client.Object) error {
+	gvk := obj.GetObjectKind().GroupVersionKind()
+	return apierrors.NewNotFound(schema.GroupResource{Group: gvk.Group, Resource: gvk.Kind},
+		client.ObjectKeyFromObject(obj).String())
 }
 
 // IndexField adds an index with the given field name on the given object type.
@@ -454,25 +442,12 @@ func (c *ViewCache) List(ctx context.Context, list client.ObjectList, opts ...cl
 	c.log.V(5).Info("list", "listGVK", listGVK, "objGVK", objGVK)
 
 	// Extract selectors from options
-	var labelSelector labels.Selector
-	var fieldSelector fields.Selector
-	var namespace string
-
-	for _, opt := range opts {
-		switch o := opt.(type) {
-		case client.MatchingLabelsSelector:
-			labelSelector = o.Selector
-		case client.MatchingLabels:
-			set := (map[string]string)(o)
-			labelSelector = labels.SelectorFromSet(set)
-		case client.MatchingFields:
-			set := (fields.Set)(o)
-			fieldSelector = fields.SelectorFromSet(set)
-		case client.MatchingFieldsSelector:
-			fieldSelector = o.Selector
-		case client.InNamespace:
-			namespace = string(o)
-		}
+	o := (&client.ListOptions{}).ApplyOptions(opts)
+	labelSelector, fieldSelector, namespace := o.LabelSelector, o.FieldSelector, o.Namespace
+
+	// Do not retain what a reused list already contains.
+	if listu, ok := list.(object.ObjectList); ok {
+		listu.Items = nil
 	}
 
 	for _, item := range cache.List() {
@@ -550,41 +525,24 @@ func (c *ViewCache) Watch(ctx context.Context, list client.ObjectList, opts ...c
 
 	c.log.V(5).Info("watch: adding watch", "listGVK", listGVK, "objGVK", objGVK)
 
-	informer, err := c.GetInformerForKind(ctx, objGVK)
+	indexer, err := c.getCacheForKind(objGVK)
 	if err != nil {
 		return nil, err
 	}
 
 	// Extract selectors from options (same logic as List method)
-	var labelSelector labels.Selector
-	var fieldSelector fields.Selector
-	var namespace string
-
-	for _, opt := range opts {
-		switch o := opt.(type) {
-		case client.MatchingLabelsSelector:
-			labelSelector = o.Selector
-		case client.MatchingLabels:
-			set := (map[string]string)(o)
-			labelSelector = labels.SelectorFromSet(set)
-		case client.MatchingFields:
-			set := (fields.Set)(o)
-			fieldSelector = fields.SelectorFromSet(set)
-		case client.MatchingFieldsSelector:
-			fieldSelector = o.Selector
-		case client.InNamespace:
-			namespace = string(o)
-		}
-	}
+	o := (&client.ListOptions{}).ApplyOptions(opts)
 
 	watcher := &ViewCacheWatcher{
 		eventChan:     make(chan watch.Event, DefaultWatchChannelBuffer),
 		stopCh:        make(chan struct{}),
-		labelSelector: labelSelector,
-		fieldSelector: fieldSelector,
-		namespace:     namespace,
+		wakeCh:        make(chan struct{}, 1),
+		labelSelector: o.LabelSelector,
+		fieldSelector: o.FieldSelector,
+		namespace:     o.Namespace,
 		logger:        c.logger,
 	}
+	go watcher.run()
 
 	handler := toolscache.ResourceEventHandlerFuncs{
 		AddFunc: func(obj any) {
@@ -593,9 +551,13 @@ func (c *ViewCache) Watch(ctx context.Context, list client.ObjectList, opts ...c
 			}
 		},
 		UpdateFunc: func(oldObj, newObj any) {
-			// Check if object matches selectors after update
-			if watcher.shouldIncludeObject(newObj) {
+			// Check if object matches selectors before and after the update
+			wasIncluded, isIncluded := watcher.shouldIncludeObject(oldObj), watcher.shouldIncludeObject(newObj)
+			switch {
+			case isIncluded:
 				watcher.sendEvent(watch.Modified, newObj)
+			case wasIncluded:
+				watcher.sendEvent(watch.Deleted, newObj)
 			}
 		},
 		DeleteFunc: func(obj any) {
@@ -607,17 +569,30 @@ func (c *ViewCache) Watch(ctx context.Context, list client.ObjectList, opts ...c
 		},
 	}
 
+	// Each watcher has its own informer so that it is not affected by removing the shared one.
+	informer := NewViewCacheInformer(objGVK, indexer, c.log)
+	if err := c.RegisterDelegatingInformer(objGVK, informer); err != nil {
+		watcher.Stop()
+		return nil, err
+	}
+
 	handlerReg, err := informer.AddEventHandler(handler)
 	if err != nil {
+		c.UnregisterDelegatingInformer(objGVK, informer) //nolint:errcheck
+		watcher.Stop()
 		return nil, fmt.Errorf("failed to add event handler: %w", err)
 	}
 
 	go func() {
-		<-ctx.Done()
+		select {
+		case <-ctx.Done():
+		case <-watcher.stopCh:
+		}
 
 		c.log.V(5).Info("stopping watcher", "gvk", objGVK.String())
 
-		informer.RemoveEventHandler(handlerReg) //nolint:errcheck
+		c.UnregisterDelegatingInformer(objGVK, informer) //nolint:errcheck
+		informer.RemoveEventHandler(handlerReg)          //nolint:errcheck
 		watcher.Stop()
 	}()
 
@@ -650,7 +625,9 @@ var _ watch.Interface = &ViewCacheWatcher{}
 type ViewCacheWatcher struct {
 	eventChan chan watch.Event
 	stopCh    chan struct{}
+	wakeCh    chan struct{} // signals the presence of queued events
 	mutex     sync.Mutex
+	queue     []watch.Event // events waiting for being sent on the event channel
 	stopped   bool
 
 	labelSelector labels.Selector
@@ -725,11 +702,37 @@ func (w *ViewCacheWatcher) sendEvent(eventType watch.EventType, o any) {
 
 	w.logger.V(8).Info("watcher sending object", "object", object.Dump(obj))
 
+	// Never block the writers of the cache on a slow consumer and never drop an event.
+	w.queue = append(w.queue, event)
 	select {
-	case w.eventChan <- event:
-	case <-time.After(time.Second):
-		// If we can't send the event in 1 second, log and continue
-		w.logger.Info("failed to send event, channel might be full", "event", event)
+	case w.wakeCh <- struct{}{}:
+	default:
+	}
+}
+
+// run moves the queued events to the event channel until the watcher is stopped.
+func (w *ViewCacheWatcher) run() {
+	defer close(w.eventChan)
+
+	for {
+		select {
+		case <-w.stopCh:
+			return
+		case <-w.wakeCh:
+		}
+
+		w.mutex.Lock()
+		events := w.queue
+		w.queue = nil
+		w.mutex.Unlock()
+
+		for _, event := range events {
+			select {
+			case <-w.stopCh:
+				return
+			case w.eventChan <- event:
+			}
+		}
 	}
 }
 
@@ -740,8 +743,8 @@ func (w *ViewCacheWatcher) Stop() {
 
 	if !w.stopped {
 		w.stopped = true
+		w.queue = nil
 		close(w.stopCh)
-		close(w.eventChan)
 	}
 }
 
diff --git a/pkg/cache/view_cache_informer.go b/pkg/cache/view_cache_informer.go
index 0e6bde1..1adaf3a 100644
--- a/pkg/cache/view_cache_informer.go
+++ b/pkg/cache/view_cache_informer.go
@@ -22,7 +22,7 @@ var _ toolscache.SharedIndexInformer = &ViewCacheInformer{}
 type ViewCacheInformer struct {
 	gvk            schema.GroupVersionKind // just for logging
 	cache          toolscache.Indexer
-	handlers       map[int64]handlerEntry
+	handlers       map[int64]*handlerEntry
 	handlerCounter int64
 	mutex          sync.RWMutex
 	transform      toolscache.TransformFunc
@@ -30,15 +30,86 @@ type ViewCacheInformer struct {
 	log            logr.Logger
 }
 
-// handlerEntry defines a handler.
+// syncIndexer is an indexer with a lock that makes updating the store and queueing the
+// corresponding events for the event handlers a single atomic step.
+type syncIndexer struct {
+	toolscache.Indexer
+	mu sync.Mutex
+}
+
+// pendingEvent is an event waiting to be delivered to a handler.
+type pendingEvent struct {
+	eventType      toolscache.DeltaType
+	oldObj, newObj object.Object
+	isInitialList  bool
+}
+
+// handlerEntry defines a handler along with the events waiting to be delivered to it. Events are
+// delivered one at a time in the order they were queued.
 type handlerEntry struct {
 	toolscache.ResourceEventHandler
 	id int64
+
+	mu       sync.Mutex
+	queue    []pendingEvent
+	initial  int // number of events to be delivered from the initial list
+	draining bool
+	removed  bool
 }
 
-// HasSynced return true if the informers underlying store has synced.
+// HasSynced return true if the handler has received the initial object list.
 func (h *handlerEntry) HasSynced() bool {
-	return true
+	h.mu.Lock()
+	defer h.mu.Unlock()
+	return h.initial == 0
+}
+
+// push queues an event for the handler.
+func (h *handlerEntry) push(e pendingEvent) {
+	h.mu.Lock()
+	defer h.mu.Unlock()
+	if h.removed {
+		return
+	}
+	h.queue = append(h.queue, e)
+	if e.isInitialList {
+		h.initial++
+	}
+}
+
+// remove drops the events that have not been delivered yet.
+func (h *handlerEntry) remove() {
+	h.mu.Lock()
+	defer h.mu.Unlock()
+	h.removed = true
+	h.queue = nil
+	h.initial = 0
+}
+
+// drain delivers the queued events, unless someone else is already doing that.
+func (h *handlerEntry) drain(deliver func(h *handlerEntry, e pendingEvent)) {
+	h.mu.Lock()
+	defer h.mu.Unlock()
+	if h.draining {
+		return
+	}
+	h.draining = true
+	defer func() { h.draining = false }()
+
+	for len(h.queue) > 0 {
+		e := h.queue[0]
+		h.queue = h.queue[1:]
+
+		func() {
+			h.mu.Unlock()
+			defer h.mu.Lock()
+			deliver(h, e)
+		}()
+
+		if e.isInitialList && h.initial > 0 {
+			h.initial--
+		}
+	}
 }
 
 // NewViewCacheInformer returns a new informer for the view cache.
@@ -50,7 +121,7 @@ func NewViewCacheInformer(gvk schema.GroupVersionKind, indexer toolscache.Indexe
 	return &ViewCacheInformer{
 		gvk:      gvk,
 		cache:    indexer,
-		handlers: make(map[int64]handlerEntry),
+		handlers: make(map[int64]*handlerEntry),
 		log:      logger.WithValues("GVK", gvk.String()),
 	}
 }
@@ -59,49 +130,45 @@ func NewViewCacheInformer(gvk schema.GroupVersionKind, indexer toolscache.Indexe
 
 // AddEventHandler adds an event handler to the shared informer.
 func (c *ViewCacheInformer) AddEventHandler(handler toolscache.ResourceEventHandler) (toolscache.ResourceEventHandlerRegistration, error) {
-	c.mutex.Lock()
-
-	id := atomic.AddInt64(&c.handlerCounter, 1)
-	he := handlerEntry{
+	he := &handlerEntry{
 		ResourceEventHandler: handler,
-		id:                   id,
+		id:                   atomic.AddInt64(&c.handlerCounter, 1),
 	}
-	c.handlers[id] = he
-	c.mutex.Unlock()
 
-	c.log.V(4).Info("registering event handler: sending initial object list", "handler-id", id,
-		"cache-size", len(c.cache.List()))
+	// No object can change between listing the initial objects and registering the handler.
+	if err := c.register(he); err != nil {
+		return nil, err
+	}
+
+	he.drain(c.deliver)
+
+	return he, nil
+}
 
-	// Send initial events to the newly registered handler
-	for _, item := range c.cache.List() {
+// register queues the initial object list for a handler and registers the handler.
+func (c *ViewCacheInformer) register(he *handlerEntry) error {
+	if si, ok := c.cache.(*syncIndexer); ok {
+		si.mu.Lock()
+		defer si.mu.Unlock()
+	}
+
+	items := c.cache.List()
+	c.log.V(4).Info("registering event handler: sending initial object list", "handler-id", he.id,
+		"cache-size", len(items))
+
+	for _, item := range items {
 		obj, ok := item.(object.Object)
 		if !ok {
-			return nil, apierrors.NewInternalError(errors.New("cache must store object.Objects only"))
+			return apierrors.NewInternalError(errors.New("cache must store object.Objects only"))
 		}
-
-		// Apply transform if needed (same logic as TriggerEvent)
-		newObj := obj
-		if c.transform != nil {
-			newObj = object.DeepCopy(newObj)
-			item, err := c.transform(newObj)
-			if err != nil {
-				c.log.Error(err, "Failed to transform object during initial sync")
-				continue
-			}
-
-			var ok bool
-			newObj, ok = item.(object.Object)
-			if !ok {
-				c.log.Info("transform must produce an object.Object during initial sync")
-				continue
-			}
-		}
-
-		// Send to the newly registered handler
-		handler.OnAdd(object.DeepCopy(newObj), true)
+		he.push(pendingEvent{eventType: toolscache.Added, newObj: obj, isInitialList: true})
 	}
 
-	return &he, nil
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+	c.handlers[he.id] = he
+
+	return nil
 }
 
 // AddEventHandlerWithResyncPeriod adds an event handler to the shared informer informer using the
@@ -127,6 +194,7 @@ func (c *ViewCacheInformer) RemoveEventHandler(registration toolscache.ResourceE
 	if reg, ok := registration.(*handlerEntry); ok {
 		c.log.V(4).Info("removing  event handler: ready", "handler-id", reg.id)
 		delete(c.handlers, reg.id)
+		reg.remove()
 		return nil
 	}
 
@@ -137,22 +205,53 @@ func (c *ViewCacheInformer) RemoveEventHandler(registration toolscache.ResourceE
 // isInitialList to true if event is an Added as a part of the initial object list. For all event
 // types except Update events the oldObj must not be nil.
 func (c *ViewCacheInformer) TriggerEvent(eventType toolscache.DeltaType, oldObj, newObj object.Object, isInitialList bool) {
+	c.enqueue(pendingEvent{eventType: eventType, oldObj: oldObj, newObj: newObj, isInitialList: isInitialList})
+	c.flush()
+}
+
+// enqueue queues an event for each of the registered handlers.
+func (c *ViewCacheInformer) enqueue(e pendingEvent) {
+	c.mutex.RLock()
+	defer c.mutex.RUnlock()
+
 	if len(c.handlers) == 0 {
-		c.log.V(4).Info("suppressing event trigger: no handlers", "event", eventType,
-			"object", object.Dump(newObj))
+		c.log.V(4).Info("suppressing event trigger: no handlers", "event", e.eventType,
+			"object", object.Dump(e.newObj))
 		return
 	}
 
+	for _, handler := range c.handlers {
+		handler.push(e)
+	}
+}
+
+// flush delivers the queued events to the handlers. No locks are held while the handlers run so
+// they are free to access the cache.
+func (c *ViewCacheInformer) flush() {
 	c.mutex.RLock()
-	defer c.mutex.RUnlock()
+	handlers := make([]*handlerEntry, 0, len(c.handlers))
+	for _, handler := range c.handlers {
+		handlers = append(handlers, handler)
+	}
+	c.mutex.RUnlock()
+
+	for _, handler := range handlers {
+		handler.drain(c.deliver)
+	}
+}
 
-	c.log.V(8).Info("triggering event", "event", eventType, "object", object.Dump(newObj),
-		"isInitial", isInitialList)
+// deliver sends an event to a handler. Handlers always obtain their own copy of the objects.
+func (c *ViewCacheInformer) deliver(handler *handlerEntry, e pendingEvent) {
+	c.mutex.RLock()
+	transform := c.transform
+	c.mutex.RUnlock()
 
-	if c.transform != nil {
-		newObj = object.DeepCopy(newObj)
+	newObj := object.DeepCopy(e.newObj)
+	c.log.V(8).Info("sending event to handler", "event", e.eventType, "object", object.Dump(newObj),
+		"isInitial", e.isInitialList, "handler-id", handler.id)
 
-		item, err := c.transform(newObj)
+	if transform != nil {
+		item, err := transform(newObj)
 		if err != nil {
 			c.log.Error(err, "Failed to transform object")
 			return
@@ -168,24 +267,19 @@ func (c *ViewCacheInformer) TriggerEvent(eventType toolscache.DeltaType, oldObj,
 		c.log.V(4).Info("trigger-event: transformer ready", "object", object.Dump(newObj))
 	}
 
-	events := 0
-	for _, handler := range c.handlers {
-		c.log.V(8).Info("trigger-event: sending event to handler", "event", eventType,
-			"object", object.Dump(newObj), "handler-id", handler.id)
-
-		switch eventType {
-		case toolscache.Added:
-			handler.OnAdd(object.DeepCopy(newObj), false)
-			events++
-		case toolscache.Updated:
-			handler.OnUpdate(oldObj, object.DeepCopy(newObj))
-			events++
-		case toolscache.Deleted:
-			handler.OnDelete(object.DeepCopy(newObj))
-			events++
-		default:
-			c.log.V(4).Info("trigger-event: ignoring event", "event", eventType)
+	switch e.eventType {
+	case toolscache.Added:
+		handler.OnAdd(newObj, e.isInitialList)
+	case toolscache.Updated:
+		oldObj := e.oldObj
+		if oldObj != nil {
+			oldObj = object.DeepCopy(oldObj)
 		}
+		handler.OnUpdate(oldObj, newObj)
+	case toolscache.Deleted:
+		handler.OnDelete(newObj)
+	default:
+		c.log.V(4).Info("trigger-event: ignoring event", "event", e.eventType)
 	}
 }
 
-- 
2.43.0


From 8f94706c2f123b979d65c158d67565b5e9c927db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:23 +0000
Subject: [PATCH 32/81] fix: updates and patches through the view client are
 atomic

---
 pkg/cache/view_client.go | 150 +++++++++++++++++++--------------------
 1 file changed, 74 insertions(+), 76 deletions(-)

diff --git a/pkg/cache/view_client.go b/pkg/cache/view_client.go
index 88dc34c..3942f9d 100644
--- a/pkg/cache/view_client.go
+++ b/pkg/cache/view_client.go
@@ -4,8 +4,8 @@ import (
 	"context"
 	"errors"
 	"fmt"
-	"reflect"
 
+	apierrors "k8s.io/apimachinery/pkg/api/errors"
 	"k8s.io/apimachinery/pkg/api/meta"
 	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
 	"k8s.io/apimachinery/pkg/runtime"
@@ -57,13 +57,44 @@ func (c *ViewCacheClient) Apply(ctx context.Context, obj runtime.ApplyConfigurat
 	return errors.New("Apply: not implemented")
 }
 
-// Create saves the object obj in the ViewCache.
+// objectModifier is implemented by caches that can change an object atomically.
+type objectModifier interface {
+	modify(obj object.Object, fn func(current object.Object) (object.Object, error)) error
+}
+
+// modify changes the object stored under the key of the given object. The callback receives the
+// current object, or nil if there is none, and returns the object to be stored.
+func (c *ViewCacheClient) modify(ctx context.Context, obj object.Object, fn func(current object.Object) (object.Object, error)) error {
+	if m, ok := c.cache.(objectModifier); ok {
+		return m.modify(obj, fn)
+	}
+
+	current := object.New()
+	current.SetGroupVersionKind(obj.GroupVersionKind())
+	if err := c.cache.Get(ctx, client.ObjectKeyFromObject(obj), current); err != nil {
+		if !apierrors.IsNotFound(err) {
+			return err
+		}
+		current = nil
+	}
+
+	newObj, err := fn(current)
+	if err != nil {
+		return err
+	}
+	if current == nil {
+		return c.cache.Add(newObj)
+	}
+	return c.cache.Update(current, newObj)
+}
+
+// Create saves the object obj in the ViewCache. An existing object is replaced.
 func (c *ViewCacheClient) Create(ctx context.Context, obj client.Object, opts ...client.CreateOption) error {
 	viewObj, ok := obj.(object.Object)
 	if !ok {
 		return fmt.Errorf("object must implement object.Object interface")
 	}
-	return c.cache.Add(viewObj)
+	return c.modify(ctx, viewObj, func(_ object.Object) (object.Object, error) { return viewObj, nil })
 }
 
 // Delete deletes the given obj from the ViewCache.
@@ -82,25 +113,16 @@ func (c *ViewCacheClient) Update(ctx context.Context, obj client.Object, opts ..
 		return fmt.Errorf("object must implement object.Object interface")
 	}
 
-	// For updates, we need to get the old object first
-	oldObj := object.NewViewObject(object.GetOperator(newObj), newObj.GetKind())
-	object.SetName(oldObj, newObj.GetNamespace(), newObj.GetName())
-
-	// Get the current version from cache
-	if err := c.cache.Get(ctx, client.ObjectKeyFromObject(newObj), oldObj); err != nil {
-		return fmt.Errorf("cannot update object with key %s: %w", client.ObjectKeyFromObject(newObj), err)
-	}
-
-	// Option 3: DeepEqual check is safe here for view objects.
 	// View objects are ephemeral in-memory objects without etcd-based optimistic concurrency
-	// control, so there's no resourceVersion staleness to mask. The cache.Update() call
-	// already has a DeepEqual check (line 295 in view_cache.go), but checking here avoids
-	// unnecessary work when content hasn't changed.
-	if object.DeepEqual(oldObj, newObj) {
-		return nil
-	}
-
-	return c.cache.Update(oldObj, newObj)
+	// control, so there's no resourceVersion staleness to mask. The cache suppresses the update
+	// if the content hasn't changed.
+	return c.modify(ctx, newObj, func(current object.Object) (object.Object, error) {
+		if current == nil {
+			return nil, fmt.Errorf("cannot update object with key %s: %w", client.ObjectKeyFromObject(newObj),
+				newNotFoundError(newObj))
+		}
+		return newObj, nil
+	})
 }
 
 // Patch patches the given obj in the ViewCache. Note that obj is NOT updated to the new content.
@@ -110,12 +132,6 @@ func (c *ViewCacheClient) Patch(ctx context.Context, obj client.Object, patch cl
 		return errors.New("object must be an object.Object")
 	}
 
-	// Get current object
-	current := object.NewViewObject(object.GetOperator(o), o.GetKind())
-	if err := c.cache.Get(ctx, client.ObjectKeyFromObject(obj), current); err != nil {
-		return fmt.Errorf("cannot patch object with key %s: %w", client.ObjectKeyFromObject(obj), err)
-	}
-
 	// strategic merge patch not supported in views, falling back to merge-patch
 	j, err := patch.Data(obj)
 	if err != nil {
@@ -127,32 +143,24 @@ func (c *ViewCacheClient) Patch(ctx context.Context, obj client.Object, patch cl
 		return fmt.Errorf("cannot parse JSON patch: %w", err)
 	}
 
-	newObj := object.DeepCopy(current)
-	if err := object.Patch(newObj, newContent); err != nil {
-		return err
-	}
+	return c.modify(ctx, o, func(current object.Object) (object.Object, error) {
+		if current == nil {
+			return nil, fmt.Errorf("cannot patch object with key %s: %w", client.ObjectKeyFromObject(obj),
+				newNotFoundError(obj))
+		}
 
-	return c.cache.Update(current, newObj)
+		newObj := object.DeepCopy(current)
+		if err := object.Patch(newObj, newContent); err != nil {
+			return nil, err
+		}
+		return newObj, nil
+	})
 }
 
 // DeleteAllOf deletes all objects of the given type matching the given options.
 func (c *ViewCacheClient) DeleteAllOf(ctx context.Context, obj client.Object, opts ...client.DeleteAllOfOption) error {
 	// Convert delete options to list options
-	var listOpts []client.ListOption
-	for _, opt := range opts {
-		switch o := opt.(type) {
-		case client.InNamespace:
-			listOpts = append(listOpts, o)
-		case client.MatchingLabels:
-			listOpts = append(listOpts, o)
-		case client.MatchingFields:
-			listOpts = append(listOpts, o)
-		case client.MatchingLabelsSelector:
-			listOpts = append(listOpts, o)
-		case client.MatchingFieldsSelector:
-			listOpts = append(listOpts, o)
-		}
-	}
+	o := (&client.DeleteAllOfOptions{}).ApplyOptions(opts)
 
 	// List all matching objects
 	viewObj, ok := obj.(object.Object)
@@ -161,13 +169,13 @@ func (c *ViewCacheClient) DeleteAllOf(ctx context.Context, obj client.Object, op
 	}
 
 	list := NewViewObjectList(object.GetOperator(viewObj), viewObj.GetKind())
-	if err := c.cache.List(ctx, list, listOpts...); err != nil {
+	if err := c.cache.List(ctx, list, &o.ListOptions); err != nil {
 		return err
 	}
 
 	// Delete each object
 	for _, item := range list.Items {
-		if err := c.cache.Delete(&item); err != nil {
+		if err := c.cache.Delete(&item); err != nil && !apierrors.IsNotFound(err) {
 			return err
 		}
 	}
@@ -278,16 +286,7 @@ func (sr *viewSubResourceClient) Create(ctx context.Context, obj client.Object,
 		return errors.New("no status sub-resource in object argument")
 	}
 
-	current := object.NewViewObject(object.GetOperator(o), o.GetKind())
-	if err := sr.client.Get(ctx, client.ObjectKeyFromObject(obj), current); err != nil {
-		return err
-	}
-
-	if err := unstructured.SetNestedMap(current.UnstructuredContent(), sub, sr.subres); err != nil {
-		return fmt.Errorf("failed to set sub-resource %s to sub-resource: %w", sr.subres, err)
-	}
-
-	return sr.client.Update(ctx, current)
+	return sr.set(ctx, o, sub)
 }
 
 // Update updates the subresource for the given object.
@@ -297,11 +296,6 @@ func (sr *viewSubResourceClient) Update(ctx context.Context, obj client.Object,
 		return errors.New("object must be an object.Object")
 	}
 
-	current := object.NewViewObject(object.GetOperator(o), o.GetKind())
-	if err := sr.client.Get(ctx, client.ObjectKeyFromObject(obj), current); err != nil {
-		return err
-	}
-
 	sub, ok, err := unstructured.NestedMap(o.UnstructuredContent(), sr.subres)
 	if err != nil {
 		return fmt.Errorf("cannot load %s sub-resource: %w", sr.subres, err)
@@ -309,20 +303,24 @@ func (sr *viewSubResourceClient) Update(ctx context.Context, obj client.Object,
 		return errors.New("no status sub-resource in object argument")
 	}
 
-	// Option 2: Check if the subresource actually changed before updating.
-	// This prevents triggering watch events when the status hasn't changed.
-	currentSub, currentHasSub, _ := unstructured.NestedMap(current.UnstructuredContent(), sr.subres)
-	if currentHasSub && reflect.DeepEqual(currentSub, sub) {
-		// Subresource unchanged, skip the update
-		return nil
-	}
+	return sr.set(ctx, o, sub)
+}
 
-	if err := unstructured.SetNestedMap(current.UnstructuredContent(), sub, sr.subres); err != nil {
-		return fmt.Errorf("cannot set sub-resource %s: %w", sr.subres, err)
-	}
+// set replaces the subresource in the given object. For ViewCache, status is just part of the
+// object: everything else is left intact. The cache suppresses the update if the status hasn't
+// changed.
+func (sr *viewSubResourceClient) set(ctx context.Context, obj object.Object, sub map[string]any) error {
+	return sr.client.modify(ctx, obj, func(current object.Object) (object.Object, error) {
+		if current == nil {
+			return nil, newNotFoundError(obj)
+		}
 
-	// For ViewCache, status is just part of the object - update the whole object
-	return sr.client.Update(ctx, current)
+		newObj := object.DeepCopy(current)
+		if err := unstructured.SetNestedMap(newObj.UnstructuredContent(), sub, sr.subres); err != nil {
+			return nil, fmt.Errorf("cannot set sub-resource %s: %w", sr.subres, err)
+		}
+		return newObj, nil
+	})
 }
 
 // Patch patches the subresource for the given object.
-- 
2.43.0


From fa38fcff9e20cf8bfdb1c788f8cd66be27332a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:23 +0000
Subject: [PATCH 33/81] fix: removing the informers of a delegating cache does
 not disturb other caches

---
 pkg/cache/delegating_view_cache.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/cache/delegating_view_cache.go b/pkg/cache/delegating_view_cache.go
index 4959b91..e09de9d 100644
--- a/pkg/cache/delegating_view_cache.go
+++ b/pkg/cache/delegating_view_cache.go
@@ -302,3 +302,8 @@ func (d *DelegatingViewCache) Delete(obj object.Object) error {
 	// Delegate to shared storage
 	return d.storage.Delete(obj)
 }
+
+// modify atomically changes an object in the shared storage.
+func (d *DelegatingViewCache) modify(obj object.Object, fn func(current object.Object) (object.Object, error)) error {
+	return d.storage.modify(obj, fn)
+}
-- 
2.43.0


From 2463e5b79e1a3a1732afa0040c97746ef4b9ef7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:51 +0000
Subject: [PATCH 34/81] fix: the composite client and cache do not panic in
 headless mode and route subresources by the object kind

---
 pkg/cache/client.go    | 43 +++++++++++++++++++++++++++++++++++++-----
 pkg/cache/composite.go | 27 +++++++++++++++++++++++++-
 2 files changed, 64 insertions(+), 6 deletions(-)

diff --git a/pkg/cache/client.go b/pkg/cache/client.go
index 21656aa..d12e8e8 100644
--- a/pkg/cache/client.go
+++ b/pkg/cache/client.go
@@ -85,6 +85,9 @@ func (c *CompositeClient) Create(ctx context.Context, obj client.Object, opts ..
 	if viewv1a1.IsViewKind(obj.GetObjectKind().GroupVersionKind()) {
 		return c.viewClient.Create(ctx, obj, opts...)
 	}
+	if c.Client == nil {
+		return newNativeUnavailableError(obj.GetObjectKind().GroupVersionKind())
+	}
 	return c.Client.Create(ctx, obj, opts...)
 }
 
@@ -93,6 +96,9 @@ func (c *CompositeClient) Delete(ctx context.Context, obj client.Object, opts ..
 	if viewv1a1.IsViewKind(obj.GetObjectKind().GroupVersionKind()) {
 		return c.viewClient.Delete(ctx, obj, opts...)
 	}
+	if c.Client == nil {
+		return newNativeUnavailableError(obj.GetObjectKind().GroupVersionKind())
+	}
 	return c.Client.Delete(ctx, obj, opts...)
 }
 
@@ -101,6 +107,9 @@ func (c *CompositeClient) Update(ctx context.Context, obj client.Object, opts ..
 	if viewv1a1.IsViewKind(obj.GetObjectKind().GroupVersionKind()) {
 		return c.viewClient.Update(ctx, obj, opts...)
 	}
+	if c.Client == nil {
+		return newNativeUnavailableError(obj.GetObjectKind().GroupVersionKind())
+	}
 	return c.Client.Update(ctx, obj, opts...)
 }
 
@@ -110,6 +119,9 @@ func (c *CompositeClient) Patch(ctx context.Context, obj client.Object, patch cl
 		return c.viewClient.Patch(ctx, obj, patch, opts...)
 	}
 
+	if c.Client == nil {
+		return newNativeUnavailableError(obj.GetObjectKind().GroupVersionKind())
+	}
 	return c.Client.Patch(ctx, obj, patch, opts...)
 }
 
@@ -118,6 +130,9 @@ func (c *CompositeClient) DeleteAllOf(ctx context.Context, obj client.Object, op
 	if viewv1a1.IsViewKind(obj.GetObjectKind().GroupVersionKind()) {
 		return c.viewClient.DeleteAllOf(ctx, obj, opts...)
 	}
+	if c.Client == nil {
+		return newNativeUnavailableError(obj.GetObjectKind().GroupVersionKind())
+	}
 	return c.Client.DeleteAllOf(ctx, obj, opts...)
 }
 
@@ -143,10 +158,16 @@ func (c *CompositeClient) Watch(ctx context.Context, list client.ObjectList, opt
 // view-object client already writes the status if requested, but still needed because native
 // objects' status can only be updated via the status-writer
 func (c *CompositeClient) Status() client.SubResourceWriter {
-	return &compositeSubResourceClient{
-		viewSubResourceClient: c.viewClient.SubResource("status"),
-		SubResourceClient:     c.SubResource("status"),
+	return c.SubResource("status")
+}
+
+// SubResource returns a client for a subresource of native Kubernetes resources or views.
+func (c *CompositeClient) SubResource(subResource string) client.SubResourceClient {
+	ret := &compositeSubResourceClient{viewSubResourceClient: c.viewClient.SubResource(subResource)}
+	if c.Client != nil {
+		ret.SubResourceClient = c.Client.SubResource(subResource)
 	}
+	return ret
 }
 
 // compositeSubResourceClient implements a status client.
@@ -157,17 +178,23 @@ type compositeSubResourceClient struct {
 
 // Get returns the status on the given obj.
 func (c *compositeSubResourceClient) Get(ctx context.Context, obj, subResource client.Object, opts ...client.SubResourceGetOption) error {
-	if viewv1a1.IsViewKind(subResource.GetObjectKind().GroupVersionKind()) {
+	if viewv1a1.IsViewKind(obj.GetObjectKind().GroupVersionKind()) {
 		return c.viewSubResourceClient.Get(ctx, obj, subResource, opts...)
 	}
+	if c.SubResourceClient == nil {
+		return newNativeUnavailableError(obj.GetObjectKind().GroupVersionKind())
+	}
 	return c.SubResourceClient.Get(ctx, obj, subResource, opts...)
 }
 
 // Create saves the status on the given obj.
 func (c *compositeSubResourceClient) Create(ctx context.Context, obj client.Object, subResource client.Object, opts ...client.SubResourceCreateOption) error {
-	if viewv1a1.IsViewKind(subResource.GetObjectKind().GroupVersionKind()) {
+	if viewv1a1.IsViewKind(obj.GetObjectKind().GroupVersionKind()) {
 		return c.viewSubResourceClient.Create(ctx, obj, subResource, opts...)
 	}
+	if c.SubResourceClient == nil {
+		return newNativeUnavailableError(obj.GetObjectKind().GroupVersionKind())
+	}
 	return c.SubResourceClient.Create(ctx, obj, subResource, opts...)
 }
 
@@ -176,6 +203,9 @@ func (c *compositeSubResourceClient) Update(ctx context.Context, obj client.Obje
 	if viewv1a1.IsViewKind(obj.GetObjectKind().GroupVersionKind()) {
 		return c.viewSubResourceClient.Update(ctx, obj, opts...)
 	}
+	if c.SubResourceClient == nil {
+		return newNativeUnavailableError(obj.GetObjectKind().GroupVersionKind())
+	}
 	return c.SubResourceClient.Update(ctx, obj, opts...)
 }
 
@@ -185,5 +215,8 @@ func (c *compositeSubResourceClient) Patch(ctx context.Context, obj client.Objec
 		return c.viewSubResourceClient.Patch(ctx, obj, patch, opts...)
 	}
 
+	if c.SubResourceClient == nil {
+		return newNativeUnavailableError(obj.GetObjectKind().GroupVersionKind())
+	}
 	return c.SubResourceClient.Patch(ctx, obj, patch, opts...)
 }
diff --git a/pkg/cache/composite.go b/pkg/cache/composite.go
index 18ae627..aa521b8 100644
--- a/pkg/cache/composite.go
+++ b/pkg/cache/composite.go
@@ -2,6 +2,7 @@ package cache
 
 import (
 	"context"
+	"fmt"
 
 	"github.com/go-logr/logr"
 	"k8s.io/apimachinery/pkg/runtime/schema"
@@ -96,6 +97,9 @@ func (cc *CompositeCache) GetInformer(ctx context.Context, obj client.Object, op
 	if viewv1a1.IsViewKind(gvk) {
 		return cc.viewCache.GetInformer(ctx, obj)
 	}
+	if cc.defaultCache == nil {
+		return nil, newNativeUnavailableError(gvk)
+	}
 	return cc.defaultCache.GetInformer(ctx, obj)
 }
 
@@ -107,6 +111,9 @@ func (cc *CompositeCache) GetInformerForKind(ctx context.Context, gvk schema.Gro
 	if viewv1a1.IsViewKind(gvk) {
 		return cc.viewCache.GetInformerForKind(ctx, gvk)
 	}
+	if cc.defaultCache == nil {
+		return nil, newNativeUnavailableError(gvk)
+	}
 	return cc.defaultCache.GetInformerForKind(ctx, gvk)
 }
 
@@ -119,6 +126,9 @@ func (cc *CompositeCache) RemoveInformer(ctx context.Context, obj client.Object)
 	if viewv1a1.IsViewKind(gvk) {
 		return cc.viewCache.RemoveInformer(ctx, obj)
 	}
+	if cc.defaultCache == nil {
+		return newNativeUnavailableError(gvk)
+	}
 	return cc.defaultCache.RemoveInformer(ctx, obj)
 }
 
@@ -137,7 +147,7 @@ func (cc *CompositeCache) Start(ctx context.Context) error {
 
 // WaitForCacheSync waits for all the caches to sync. Returns false if it could not sync a cache.c
 func (cc *CompositeCache) WaitForCacheSync(ctx context.Context) bool {
-	return cc.viewCache.WaitForCacheSync(ctx) && cc.defaultCache.WaitForCacheSync(ctx)
+	return cc.viewCache.WaitForCacheSync(ctx) && (cc.defaultCache == nil || cc.defaultCache.WaitForCacheSync(ctx))
 }
 
 // IndexField adds an index with the given field name on the given object type.
@@ -146,6 +156,9 @@ func (cc *CompositeCache) IndexField(ctx context.Context, obj client.Object, fie
 	if viewv1a1.IsViewKind(gvk) {
 		return cc.viewCache.IndexField(ctx, obj, field, extractValue)
 	}
+	if cc.defaultCache == nil {
+		return newNativeUnavailableError(gvk)
+	}
 	return cc.defaultCache.IndexField(ctx, obj, field, extractValue)
 }
 
@@ -158,6 +171,9 @@ func (cc *CompositeCache) Get(ctx context.Context, key client.ObjectKey, obj cli
 	if viewv1a1.IsViewKind(gvk) {
 		return cc.viewCache.Get(ctx, key, obj, opts...)
 	}
+	if cc.defaultCache == nil {
+		return newNativeUnavailableError(gvk)
+	}
 	return cc.defaultCache.Get(ctx, key, obj, opts...)
 }
 
@@ -170,5 +186,14 @@ func (cc *CompositeCache) List(ctx context.Context, list client.ObjectList, opts
 	if viewv1a1.IsViewKind(gvk) {
 		return cc.viewCache.List(ctx, list, opts...)
 	}
+	if cc.defaultCache == nil {
+		return newNativeUnavailableError(gvk)
+	}
 	return cc.defaultCache.List(ctx, list, opts...)
 }
+
+// newNativeUnavailableError creates an error for accessing native Kubernetes resources when no
+// native cache or client is available.
+func newNativeUnavailableError(gvk schema.GroupVersionKind) error {
+	return fmt.Errorf("native Kubernetes resources are unavailable: cannot access %s", gvk)
+}
-- 
2.43.0


From d8a7d90481a0efbec8cc9703414344e074d61b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:25 +0000
Subject: [PATCH 35/81] fix: report errors from creating Updater targets and
 write the status of newly created ones

---
 pkg/reconciler/ctrlutils.go | 51 ++++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 21 deletions(-)

diff --git a/pkg/reconciler/ctrlutils.go b/pkg/reconciler/ctrlutils.go
index 27cf729..2873997 100644
--- a/pkg/reconciler/ctrlutils.go
+++ b/pkg/reconciler/ctrlutils.go
@@ -29,7 +29,8 @@ func isViewObject(obj client.Object) bool {
 //
 // Note: this version differs from default controllerutil.CreateOrUpdate in two ways:
 //   - it uses the unstructured API via object.Object
-//   - errors produced by the `Create` branch (after a failed `Get`) will be ignored
+//   - if the `Create` branch (after a failed `Get`) fails we default to an update: the error is
+//     reported only if the object does not exist
 //
 // Status handling: For resources with status as a subresource (native Kubernetes objects like
 // Pods), client.Update() does NOT update status. This function saves the status before Update(),
@@ -37,6 +38,7 @@ func isViewObject(obj client.Object) bool {
 // (like view objects), this redundantly updates status twice but is harmless.
 func CreateOrUpdate(ctx context.Context, c client.Client, obj object.Object, f controllerutil.MutateFn) (controllerutil.OperationResult, error) {
 	key := client.ObjectKeyFromObject(obj)
+	var createErr error
 	if err := c.Get(ctx, key, obj); err != nil {
 		if !apierrors.IsNotFound(err) {
 			return controllerutil.OperationResultNone, err
@@ -44,40 +46,47 @@ func CreateOrUpdate(ctx context.Context, c client.Client, obj object.Object, f c
 		if err := mutate(f, key, obj); err != nil {
 			return controllerutil.OperationResultNone, err
 		}
-		if err := c.Create(ctx, obj); err != nil {
-			// this is not an error: default to the update branch
-			goto update
+		createErr = writeWithStatus(ctx, c, obj, func() error { return c.Create(ctx, obj) })
+		if createErr == nil {
+			return controllerutil.OperationResultCreated, nil
 		}
-		return controllerutil.OperationResultCreated, nil
+		// this is not an error if the object exists: default to the update branch
 	}
 
-update:
 	if err := mutate(f, key, obj); err != nil {
 		return controllerutil.OperationResultNone, err
 	}
 
-	// Update may rewrite out status
-	newStatus, hasStatus, _ := unstructured.NestedMap(obj.UnstructuredContent(), "status")
-
-	if err := c.Update(ctx, obj); err != nil {
+	if err := writeWithStatus(ctx, c, obj, func() error { return c.Update(ctx, obj) }); err != nil {
+		if createErr != nil && apierrors.IsNotFound(err) {
+			err = createErr
+		}
 		return controllerutil.OperationResultNone, err
 	}
 
-	// Option 1: Skip redundant status update for view objects.
-	// For view objects, client.Update() already updates the status field since views don't have
-	// status as a subresource. Calling Status().Update() would cause a second update, triggering
-	// duplicate watch events and potential reconciliation loops.
-	// For native Kubernetes objects, we still need the separate Status().Update() call since
-	// client.Update() ignores the status subresource.
+	return controllerutil.OperationResultUpdated, nil
+}
+
+// writeWithStatus creates or updates an object using the callback and then writes the status, if
+// present. For native Kubernetes objects Create and Update ignore (and may rewrite) the status so
+// we need a separate Status().Update() call. View objects do not have status as a subresource, so
+// the status has already been written by the time the callback returns: calling Status().Update()
+// would cause a second update, triggering duplicate watch events and potential reconciliation
+// loops.
+func writeWithStatus(ctx context.Context, c client.Client, obj object.Object, write func() error) error {
+	status, hasStatus, _ := unstructured.NestedMap(obj.UnstructuredContent(), "status")
+
+	if err := write(); err != nil {
+		return err
+	}
+
 	if hasStatus && !isViewObject(obj) {
-		if err := unstructured.SetNestedMap(obj.UnstructuredContent(), newStatus, "status"); err == nil {
-			if err := c.Status().Update(ctx, obj); err != nil {
-				return controllerutil.OperationResultNone, err
-			}
+		if err := unstructured.SetNestedMap(obj.UnstructuredContent(), status, "status"); err == nil {
+			return c.Status().Update(ctx, obj)
 		}
 	}
 
-	return controllerutil.OperationResultUpdated, nil
+	return nil
 }
 
 // Update updates the given object in the Kubernetes cluster, including status if present.
-- 
2.43.0


From e04e280123418a4a84ba1fc1eca308851bde9131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:48 +0000
Subject: [PATCH 36/81] fix: keep concurrent changes of others when patching
 target objects

---
 pkg/cache/client.go      |   6 ++
 pkg/cache/view_client.go |  19 ++++
 pkg/reconciler/target.go | 181 +++++++++++++++++++--------------------
 3 files changed, 112 insertions(+), 94 deletions(-)

diff --git a/pkg/cache/client.go b/pkg/cache/client.go
index d12e8e8..447e141 100644
--- a/pkg/cache/client.go
+++ b/pkg/cache/client.go
@@ -11,6 +11,7 @@ import (
 	"sigs.k8s.io/controller-runtime/pkg/client"
 
 	viewv1a1 "github.com/l7mp/dcontroller/pkg/api/view/v1alpha1"
+	"github.com/l7mp/dcontroller/pkg/object"
 )
 
 var _ client.Client = &CompositeClient{}
@@ -125,6 +126,11 @@ func (c *CompositeClient) Patch(ctx context.Context, obj client.Object, patch cl
 	return c.Client.Patch(ctx, obj, patch, opts...)
 }
 
+// ModifyView atomically changes a view object.
+func (c *CompositeClient) ModifyView(ctx context.Context, obj object.Object, change func(current object.Object) error) error {
+	return c.viewClient.ModifyView(ctx, obj, change)
+}
+
 // DeleteAllOf deletes all objects of the given type matching the given options.
 func (c *CompositeClient) DeleteAllOf(ctx context.Context, obj client.Object, opts ...client.DeleteAllOfOption) error {
 	if viewv1a1.IsViewKind(obj.GetObjectKind().GroupVersionKind()) {
diff --git a/pkg/cache/view_client.go b/pkg/cache/view_client.go
index 3942f9d..e885759 100644
--- a/pkg/cache/view_client.go
+++ b/pkg/cache/view_client.go
@@ -125,6 +125,25 @@ func (c *ViewCacheClient) Update(ctx context.Context, obj client.Object, opts ..
 	})
 }
 
+// ViewModifier is implemented by clients that can change view objects atomically.
+type ViewModifier interface {
+	// ModifyView applies a change to the view object stored under the key of the given object.
+	ModifyView(ctx context.Context, obj object.Object, change func(current object.Object) error) error
+}
+
+// ModifyView atomically changes the view object stored under the key of the given object.
+func (c *ViewCacheClient) ModifyView(ctx context.Context, obj object.Object, change func(current object.Object) error) error {
+	return c.modify(ctx, obj, func(current object.Object) (object.Object, error) {
+		if current == nil {
+			return nil, fmt.Errorf("cannot modify object with key %s: %w", client.ObjectKeyFromObject(obj),
+				newNotFoundError(obj))
+		}
+
+		newObj := object.DeepCopy(current)
+		return newObj, change(newObj)
+	})
+}
+
 // Patch patches the given obj in the ViewCache. Note that obj is NOT updated to the new content.
 func (c *ViewCacheClient) Patch(ctx context.Context, obj client.Object, patch client.Patch, opts ...client.PatchOption) error {
 	o, ok := obj.(object.Object)
diff --git a/pkg/reconciler/target.go b/pkg/reconciler/target.go
index c63e766..dde8b00 100644
--- a/pkg/reconciler/target.go
+++ b/pkg/reconciler/target.go
@@ -9,9 +9,12 @@ import (
 	apierrors "k8s.io/apimachinery/pkg/api/errors"
 	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
 	"k8s.io/apimachinery/pkg/runtime/schema"
+	"k8s.io/client-go/util/retry"
 	"sigs.k8s.io/controller-runtime/pkg/client"
 
 	opv1a1 "github.com/l7mp/dcontroller/pkg/api/operator/v1alpha1"
+	viewv1a1 "github.com/l7mp/dcontroller/pkg/api/view/v1alpha1"
+	"github.com/l7mp/dcontroller/pkg/cache"
 	"github.com/l7mp/dcontroller/pkg/manager"
 	"github.com/l7mp/dcontroller/pkg/object"
 	"github.com/l7mp/dcontroller/pkg/util"
@@ -60,7 +63,8 @@ func (t *target) String() string {
 //     content is removed from the target using a strategic merge patch.
 //
 // The originalObject parameter is the object snapshot from the reconcile request, used for
-// optimistic concurrency control in Patcher mode. If nil, the current object is fetched.
+// optimistic concurrency control in Patcher mode for native objects. If nil, the current object is
+// fetched.
 func (t *target) Write(ctx context.Context, delta object.Delta, originalObject object.Object) error {
 	if delta.Object == nil {
 		return errors.New("write: empty object in delta")
@@ -179,100 +183,27 @@ func (t *target) update(ctx context.Context, delta object.Delta) error {
 func (t *target) patch(ctx context.Context, delta object.Delta, originalObject object.Object) error {
 	t.log.V(5).Info("patching target", "delta-type", delta.Type, "object", object.Dump(delta.Object))
 
-	c := t.mgr.GetClient()
-
 	//nolint:nolintlint
 	switch delta.Type { //nolint:exhaustive
 	case object.Added, object.Updated, object.Upserted, object.Replaced:
 		t.log.V(4).Info("update-patch", "event-type", delta.Type,
 			"key", client.ObjectKeyFromObject(delta.Object).String())
 
-		// Check if we can use the original object snapshot (same GVK, namespace, name)
-		useOriginal := originalObject != nil &&
-			originalObject.GroupVersionKind() == delta.Object.GroupVersionKind() &&
-			originalObject.GetNamespace() == delta.Object.GetNamespace() &&
-			originalObject.GetName() == delta.Object.GetName()
-
-		var obj object.Object
-		if useOriginal {
-			// Use the original object snapshot (has correct resourceVersion)
-			obj = object.DeepCopy(originalObject)
-			t.log.V(4).Info("using original object snapshot for patch",
-				"resourceVersion", obj.GetResourceVersion())
-		} else {
-			// Fetch current target object
-			obj = object.New()
-			obj.SetGroupVersionKind(delta.Object.GroupVersionKind())
-			obj.SetName(delta.Object.GetName())
-			obj.SetNamespace(delta.Object.GetNamespace())
-			if err := c.Get(ctx, client.ObjectKeyFromObject(obj), obj); err != nil {
-				return err
-			}
-			t.log.V(4).Info("fetched target object for patch",
-				"resourceVersion", obj.GetResourceVersion())
-		}
-
-		// Apply delta changes to the object in-place using merge-patch semantics (RFC 7386).
-		// This properly merges nested objects and arrays rather than replacing them.
-		if err := object.Patch(obj, delta.Object.UnstructuredContent()); err != nil {
+		obj, err := t.modify(ctx, delta, originalObject, func(obj object.Object) error {
+			// Apply delta changes to the object in-place using merge-patch semantics (RFC 7386).
+			// This properly merges nested objects and arrays rather than replacing them.
+			return object.Patch(obj, delta.Object.UnstructuredContent())
+		})
+		if err != nil {
 			return err
 		}
 
-		// Restore critical metadata that must not be overwritten
-		obj.SetGroupVersionKind(delta.Object.GroupVersionKind())
-		obj.SetName(delta.Object.GetName())
-		obj.SetNamespace(delta.Object.GetNamespace())
-
-		// Use our custom Update function which handles both spec and status correctly.
-		// This uses optimistic concurrency control via resourceVersion (Kubernetes will reject
-		// if the object has changed). NotFound errors are ignored: the object has disappeared
-		// while we were working on it.
-		if err := Update(ctx, c, obj); err != nil {
-			if !apierrors.IsNotFound(err) {
-				return fmt.Errorf("update resource %s failed: %w",
-					client.ObjectKeyFromObject(delta.Object).String(), err)
-			}
-			t.log.V(2).Info("update-patch: object has disappeared (probably harmless)",
-				"event-type", delta.Type)
-		}
-
 		t.log.V(4).Info("patched object", "result", object.Dump(obj))
 
 	case object.Deleted:
 		t.log.V(4).Info("delete-patch", "event-type", delta.Type,
 			"key", client.ObjectKeyFromObject(delta.Object).String())
 
-		// Check if we can use the original object snapshot (same GVK, namespace, name)
-		useOriginal := originalObject != nil &&
-			originalObject.GroupVersionKind() == delta.Object.GroupVersionKind() &&
-			originalObject.GetNamespace() == delta.Object.GetNamespace() &&
-			originalObject.GetName() == delta.Object.GetName()
-
-		var obj object.Object
-		if useOriginal {
-			// Use the original object snapshot (has correct resourceVersion)
-			obj = object.DeepCopy(originalObject)
-			t.log.V(4).Info("using original object snapshot for delete-patch",
-				"resourceVersion", obj.GetResourceVersion())
-		} else {
-			// Fetch current target object
-			obj = object.New()
-			obj.SetGroupVersionKind(delta.Object.GroupVersionKind())
-			obj.SetName(delta.Object.GetName())
-			obj.SetNamespace(delta.Object.GetNamespace())
-			if err := c.Get(ctx, client.ObjectKeyFromObject(obj), obj); err != nil {
-				// NotFound errors are ignored: the object has disappeared
-				if apierrors.IsNotFound(err) {
-					t.log.V(2).Info("delete-patch: object has disappeared (probably harmless)",
-						"event-type", delta.Type)
-					return nil
-				}
-				return err
-			}
-			t.log.V(4).Info("fetched target object for delete-patch",
-				"resourceVersion", obj.GetResourceVersion())
-		}
-
 		// Apply the delete patch locally so that we fully control the behavior.
 		// The removeNestedMap function converts all leaf values to nil, which is
 		// the merge-patch semantics for deletion (RFC 7386).
@@ -289,29 +220,91 @@ func (t *target) patch(ctx context.Context, delta object.Delta, originalObject o
 		t.log.V(5).Info("delete-patch content", "patch", util.Stringify(patch))
 
 		// Apply delete patch to the fetched/cached object in-place
-		if err := object.Patch(obj, patch); err != nil {
+		if _, err := t.modify(ctx, delta, originalObject, func(obj object.Object) error {
+			return object.Patch(obj, patch)
+		}); err != nil && !apierrors.IsNotFound(err) {
+			// NotFound errors are ignored: the object has disappeared
+			return err
+		}
+
+	default:
+		t.log.V(2).Info("target: ignoring delta", "type", delta.Type)
+	}
+
+	return nil
+}
+
+// modify applies a change to the current version of the target object. Concurrent changes made to
+// the object by others are preserved: views are modified atomically while native objects are written
+// using optimistic concurrency control, re-applying the change to the latest version on a conflict.
+func (t *target) modify(ctx context.Context, delta object.Delta, originalObject object.Object, change func(object.Object) error) (object.Object, error) {
+	c := t.mgr.GetClient()
+	gvk := delta.Object.GroupVersionKind()
+	key := client.ObjectKeyFromObject(delta.Object)
+
+	apply := func(obj object.Object) error {
+		uid, resourceVersion := obj.GetUID(), obj.GetResourceVersion()
+		if err := change(obj); err != nil {
 			return err
 		}
 
 		// Restore critical metadata that must not be overwritten
-		obj.SetGroupVersionKind(delta.Object.GroupVersionKind())
-		obj.SetName(delta.Object.GetName())
-		obj.SetNamespace(delta.Object.GetNamespace())
+		obj.SetGroupVersionKind(gvk)
+		obj.SetName(key.Name)
+		obj.SetNamespace(key.Namespace)
+		obj.SetUID(uid)
+		obj.SetResourceVersion(resourceVersion)
+
+		return nil
+	}
 
-		// Use our custom Update function which handles both spec and status correctly.
-		// This uses optimistic concurrency control via resourceVersion (Kubernetes will reject
-		// if the object has changed). NotFound errors are ignored: the object has disappeared
-		// while we were working on it.
-		if err := Update(ctx, c, obj); err != nil && !apierrors.IsNotFound(err) {
-			return fmt.Errorf("update resource %s after delete-patch failed: %w",
-				client.ObjectKeyFromObject(delta.Object).String(), err)
+	obj := object.New()
+	obj.SetGroupVersionKind(gvk)
+	obj.SetName(key.Name)
+	obj.SetNamespace(key.Namespace)
+
+	if m, ok := c.(cache.ViewModifier); ok && viewv1a1.IsViewKind(gvk) {
+		return obj, m.ModifyView(ctx, obj, func(current object.Object) error {
+			if err := apply(current); err != nil {
+				return err
+			}
+			obj = object.DeepCopy(current)
+			return nil
+		})
+	}
+
+	// Check if we can use the original object snapshot (same GVK, namespace, name): it has the
+	// resource version the delta was computed for.
+	useOriginal := originalObject != nil && !viewv1a1.IsViewKind(gvk) &&
+		originalObject.GroupVersionKind() == gvk &&
+		client.ObjectKeyFromObject(originalObject) == key
+
+	err := retry.RetryOnConflict(retry.DefaultRetry, func() error {
+		if useOriginal {
+			obj = object.DeepCopy(originalObject)
+			useOriginal = false
+		} else if err := c.Get(ctx, key, obj); err != nil {
+			return err
 		}
 
-	default:
-		t.log.V(2).Info("target: ignoring delta", "type", delta.Type)
+		if err := apply(obj); err != nil {
+			return err
+		}
+
+		// NotFound errors are ignored: the object has disappeared while we were working on it.
+		err := writeWithStatus(ctx, c, obj, func() error { return c.Update(ctx, obj) })
+		if apierrors.IsNotFound(err) {
+			t.log.V(2).Info("patch: object has disappeared (probably harmless)",
+				"event-type", delta.Type)
+			return nil
+		}
+		return err
+	})
+	if err != nil && !apierrors.IsNotFound(err) {
+		return nil, fmt.Errorf("update resource %s failed: %w", key.String(), err)
 	}
 
-	return nil
+	return obj, err
 }
 
 func removeNestedMap(m map[string]any) map[string]any {
-- 
2.43.0


From 48fa59dd36ab8ac95bc3fa566d817053176f025e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:07 +0000
Subject: [PATCH 37/81] fix: remove exactly the fields set by a patch on a
 Patcher delete

---
 pkg/reconciler/target.go | 87 ++++++++++++++++++++++------------------
 1 file changed, 47 insertions(+), 40 deletions(-)

diff --git a/pkg/reconciler/target.go b/pkg/reconciler/target.go
index dde8b00..e053731 100644
--- a/pkg/reconciler/target.go
+++ b/pkg/reconciler/target.go
@@ -8,7 +8,6 @@ import (
 	"github.com/go-logr/logr"
 	apierrors "k8s.io/apimachinery/pkg/api/errors"
 	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
-	"k8s.io/apimachinery/pkg/runtime/schema"
 	"k8s.io/client-go/util/retry"
 	"sigs.k8s.io/controller-runtime/pkg/client"
 
@@ -17,7 +16,6 @@ import (
 	"github.com/l7mp/dcontroller/pkg/cache"
 	"github.com/l7mp/dcontroller/pkg/manager"
 	"github.com/l7mp/dcontroller/pkg/object"
-	"github.com/l7mp/dcontroller/pkg/util"
 )
 
 // Target is a generic writer that knows how to create controller runtime objects in a target resource.
@@ -204,24 +202,11 @@ func (t *target) patch(ctx context.Context, delta object.Delta, originalObject o
 		t.log.V(4).Info("delete-patch", "event-type", delta.Type,
 			"key", client.ObjectKeyFromObject(delta.Object).String())
 
-		// Apply the delete patch locally so that we fully control the behavior.
-		// The removeNestedMap function converts all leaf values to nil, which is
-		// the merge-patch semantics for deletion (RFC 7386).
-		patch := removeNestedMap(delta.Object.UnstructuredContent())
-
-		// Make sure we do not remove crucial metadata: the GVK and the namespace/name
-		gvk := delta.Object.GroupVersionKind()
-		gr := schema.GroupVersion{Group: gvk.Group, Version: gvk.Version}
-		unstructured.SetNestedField(patch, gr.String(), "apiVersion")                            //nolint:errcheck
-		unstructured.SetNestedField(patch, gvk.Kind, "kind")                                     //nolint:errcheck
-		unstructured.SetNestedField(patch, delta.Object.GetNamespace(), "metadata", "namespace") //nolint:errcheck
-		unstructured.SetNestedField(patch, delta.Object.GetName(), "metadata", "name")           //nolint:errcheck
-
-		t.log.V(5).Info("delete-patch content", "patch", util.Stringify(patch))
-
-		// Apply delete patch to the fetched/cached object in-place
+		// Remove the fields locally so that we fully control the behavior.
 		if _, err := t.modify(ctx, delta, originalObject, func(obj object.Object) error {
-			return object.Patch(obj, patch)
+			obj.SetUnstructuredContent(removeFieldsFromMap(obj.UnstructuredContent(),
+				delta.Object.UnstructuredContent()))
+			return nil
 		}); err != nil && !apierrors.IsNotFound(err) {
 			// NotFound errors are ignored: the object has disappeared
 			return err
@@ -307,36 +292,58 @@ func (t *target) modify(ctx context.Context, delta object.Delta, originalObject
 	return obj, err
 }
 
-func removeNestedMap(m map[string]any) map[string]any {
-	result := make(map[string]any)
-	for k, v := range m {
-		switch x := v.(type) {
-		case bool, int64, float64, string:
-			result[k] = nil
-		case map[string]any:
-			result[k] = removeNestedMap(x)
-		case []any:
-			result[k] = removeNestedList(x)
+// removeFieldsFromMap removes the fields set by a patch from a map. Fields not set by the patch are
+// left intact, including those nested into a map or list that also appears in the patch.
+func removeFieldsFromMap(m, patch map[string]any) map[string]any {
+	for k, p := range patch {
+		v, ok := m[k]
+		if !ok {
+			continue
+		}
+		if v, keep := removeFields(v, p); keep {
+			m[k] = v
+		} else {
+			delete(m, k)
 		}
 	}
-	return result
+	return m
 }
 
-func removeNestedList(l []any) []any {
-	result := make([]any, len(l))
-	for k, v := range l {
-		switch x := v.(type) {
-		case bool, int64, float64, string:
-			result[k] = nil
-		case map[string]any:
-			result[k] = removeNestedMap(x)
-		case []any:
-			result[k] = removeNestedList(x)
+// removeFieldsFromList removes the list items set by a patch from a list. An item is also removed
+// if all its fields have been set by the patch.
+func removeFieldsFromList(l, patch []any) []any {
+	result := make([]any, 0, len(l))
+	for i, v := range l {
+		if i < len(patch) {
+			item, keep := removeFields(v, patch[i])
+			if m, ok := item.(map[string]any); !keep || (ok && len(m) == 0) {
+				continue
+			}
+			v = item
 		}
+		result = append(result, v)
 	}
 	return result
 }
 
+// removeFields removes the fields set by a patch from a value. Returns false if the value itself
+// was set by the patch.
+func removeFields(v, patch any) (any, bool) {
+	switch p := patch.(type) {
+	case bool, int64, float64, string:
+		return nil, false
+	case map[string]any:
+		if m, ok := v.(map[string]any); ok {
+			return removeFieldsFromMap(m, p), true
+		}
+	case []any:
+		if l, ok := v.([]any); ok {
+			return removeFieldsFromList(l, p), true
+		}
+	}
+	return v, true
+}
+
 func mergeMetadata(obj, new object.Object) {
 	labels := obj.GetLabels()
 	newLabels := new.GetLabels()
-- 
2.43.0


From b3da8e8c491c1cb3ad39d7bcfd847dc4d309c5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:06 +0000
Subject: [PATCH 38/81] fix: do not store the nulls of a merge patch in newly
 created maps

---
 pkg/object/patch.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/pkg/object/patch.go b/pkg/object/patch.go
index 531e69d..2824242 100644
--- a/pkg/object/patch.go
+++ b/pkg/object/patch.go
@@ -28,7 +28,7 @@ func patch(o, m any) any {
 		return DeepCopyAny(m)
 	}
 
-	if o == nil {
+	if _, ok := m.(map[string]any); o == nil && !ok {
 		return DeepCopyAny(m)
 	}
 
@@ -61,7 +61,8 @@ func patch(o, m any) any {
 		litmm := x
 		litmo, ok2 := o.(map[string]any)
 		if !ok2 {
-			return DeepCopyAny(litmm)
+			// nulls remove fields so they must not end up in a new map
+			litmo = map[string]any{}
 		}
 
 		retm := DeepCopyAny(litmo).(map[string]any)
@@ -71,12 +72,7 @@ func patch(o, m any) any {
 				continue
 			}
 
-			vo, ok := litmo[k]
-			if !ok {
-				retm[k] = DeepCopyAny(v)
-				continue
-			}
-
+			vo := litmo[k]
 			if reflect.DeepEqual(vo, v) {
 				retm[k] = DeepCopyAny(v)
 				continue
-- 
2.43.0


From e9caf869f7a38ed9c3c45b9322822379d1f71960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:07 +0000
Subject: [PATCH 39/81] fix: retain list items that differ from the patch on a
 Patcher delete

---
 pkg/reconciler/target.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pkg/reconciler/target.go b/pkg/reconciler/target.go
index e053731..0ed467e 100644
--- a/pkg/reconciler/target.go
+++ b/pkg/reconciler/target.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"errors"
 	"fmt"
+	"reflect"
 
 	"github.com/go-logr/logr"
 	apierrors "k8s.io/apimachinery/pkg/api/errors"
@@ -309,17 +310,18 @@ func removeFieldsFromMap(m, patch map[string]any) map[string]any {
 	return m
 }
 
-// removeFieldsFromList removes the list items set by a patch from a list. An item is also removed
-// if all its fields have been set by the patch.
+// removeFieldsFromList removes the list items set by a patch from a list. Items that differ from the
+// patch are retained, except for the fields nested into them.
 func removeFieldsFromList(l, patch []any) []any {
 	result := make([]any, 0, len(l))
 	for i, v := range l {
 		if i < len(patch) {
-			item, keep := removeFields(v, patch[i])
-			if m, ok := item.(map[string]any); !keep || (ok && len(m) == 0) {
+			if reflect.DeepEqual(v, patch[i]) {
 				continue
 			}
-			v = item
+			if item, keep := removeFields(v, patch[i]); keep {
+				v = item
+			}
 		}
 		result = append(result, v)
 	}
-- 
2.43.0


From 0fed412cd92cba63b3d56702f6f907c07c123c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:38 +0000
Subject: [PATCH 40/81] fix: create Updater targets that are missing despite
 the cache

---
 pkg/reconciler/ctrlutils.go | 28 ++++++++++++++++++++++++----
 pkg/reconciler/target.go    |  9 ++-------
 2 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/pkg/reconciler/ctrlutils.go b/pkg/reconciler/ctrlutils.go
index 2873997..cf5d247 100644
--- a/pkg/reconciler/ctrlutils.go
+++ b/pkg/reconciler/ctrlutils.go
@@ -31,6 +31,7 @@ func isViewObject(obj client.Object) bool {
 //   - it uses the unstructured API via object.Object
 //   - if the `Create` branch (after a failed `Get`) fails we default to an update: the error is
 //     reported only if the object does not exist
+//   - if the `Update` branch (after a successful `Get`) does not find the object then it is created
 //
 // Status handling: For resources with status as a subresource (native Kubernetes objects like
 // Pods), client.Update() does NOT update status. This function saves the status before Update(),
@@ -58,10 +59,27 @@ func CreateOrUpdate(ctx context.Context, c client.Client, obj object.Object, f c
 	}
 
 	if err := writeWithStatus(ctx, c, obj, func() error { return c.Update(ctx, obj) }); err != nil {
-		if createErr != nil && apierrors.IsNotFound(err) {
-			err = createErr
+		switch {
+		case !apierrors.IsNotFound(err):
+			return controllerutil.OperationResultNone, err
+		case createErr != nil:
+			return controllerutil.OperationResultNone, createErr
 		}
-		return controllerutil.OperationResultNone, err
+
+		// the object has disappeared in the meantime, or the version read above is outdated:
+		// start over with an empty object
+		gvk := obj.GroupVersionKind()
+		obj.SetUnstructuredContent(map[string]any{})
+		obj.SetGroupVersionKind(gvk)
+		obj.SetName(key.Name)
+		obj.SetNamespace(key.Namespace)
+		if err := mutate(f, key, obj); err != nil {
+			return controllerutil.OperationResultNone, err
+		}
+		if err := writeWithStatus(ctx, c, obj, func() error { return c.Create(ctx, obj) }); err != nil {
+			return controllerutil.OperationResultNone, err
+		}
+		return controllerutil.OperationResultCreated, nil
 	}
 
 	return controllerutil.OperationResultUpdated, nil
@@ -82,7 +100,9 @@ func writeWithStatus(ctx context.Context, c client.Client, obj object.Object, wr
 
 	if hasStatus && !isViewObject(obj) {
 		if err := unstructured.SetNestedMap(obj.UnstructuredContent(), status, "status"); err == nil {
-			return c.Status().Update(ctx, obj)
+			// NotFound errors are ignored: either the resource does not have a status
+			// subresource or the object has disappeared in the meantime
+			return client.IgnoreNotFound(c.Status().Update(ctx, obj))
 		}
 	}
 
diff --git a/pkg/reconciler/target.go b/pkg/reconciler/target.go
index 0ed467e..0f52a16 100644
--- a/pkg/reconciler/target.go
+++ b/pkg/reconciler/target.go
@@ -149,14 +149,9 @@ func (t *target) update(ctx context.Context, delta object.Delta) error {
 			return nil
 		})
 
-		// NotFound errors are ignored: the object has disappeared while we were working in it
 		if err != nil {
-			if !apierrors.IsNotFound(err) {
-				return fmt.Errorf("create/update resource %s failed with operation code %s: %w",
-					client.ObjectKeyFromObject(delta.Object).String(), res, err)
-			}
-			t.log.V(2).Info("add/upsert: object has disappeared (probably harmless)",
-				"event-type", delta.Type)
+			return fmt.Errorf("create/update resource %s failed with operation code %s: %w",
+				client.ObjectKeyFromObject(delta.Object).String(), res, err)
 		}
 
 	case object.Deleted:
-- 
2.43.0


From 1ca1c25a58efc714ab2e0475495c91ebf914353c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:40 +0000
Subject: [PATCH 41/81] fix: one-shot sources trigger exactly once

---
 pkg/reconciler/source.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/pkg/reconciler/source.go b/pkg/reconciler/source.go
index 952c4bf..6f67725 100644
--- a/pkg/reconciler/source.go
+++ b/pkg/reconciler/source.go
@@ -19,6 +19,7 @@ import (
 	"github.com/l7mp/dcontroller/pkg/predicate"
 )
 
+var _ runtimeSource.TypedSource[Request] = &oneShotRuntimeSource{}
 var _ runtimeSource.TypedSource[Request] = &periodicRuntimeSource{}
 
 const (
@@ -183,8 +184,25 @@ func (s *oneShotSource) GetSource() (runtimeSource.TypedSource[Request], error)
 		return nil, fmt.Errorf("failed to inject one-shot trigger: %w", err)
 	}
 
-	return runtimeSource.TypedKind[client.Object](s.mgr.GetCache(), obj,
-		EventHandler[client.Object]{}), nil
+	return &oneShotRuntimeSource{req: Request{
+		GVK:       gvk,
+		Name:      OneShotSourceObjectName,
+		EventType: object.Added,
+		Object:    object.DeepCopy(obj),
+	}}, nil
+}
+
+// oneShotRuntimeSource is a controller-runtime source that emits a single request on startup. Note
+// that watching the trigger object would not do: the controller would be triggered again whenever
+// someone else, say, another controller using the same trigger, writes the trigger view.
+type oneShotRuntimeSource struct {
+	req Request
+}
+
+// Start implements source.TypedSource and emits the trigger.
+func (s *oneShotRuntimeSource) Start(_ context.Context, queue workqueue.TypedRateLimitingInterface[Request]) error {
+	queue.Add(s.req)
+	return nil
 }
 
 // periodicSource is a simple timer that triggers periodic state-of-the-world reconciliation
-- 
2.43.0


From a78fe11cfe9941db8d9415e939c04d2adf88f5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:40 +0000
Subject: [PATCH 42/81] fix: periodic reconciliation restores target objects
 removed or modified by others

---
 pkg/controller/writer.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pkg/controller/writer.go b/pkg/controller/writer.go
index ff00566..89a90d1 100644
--- a/pkg/controller/writer.go
+++ b/pkg/controller/writer.go
@@ -103,6 +103,18 @@ func (w *deltaWriter) sync(ctx context.Context, req reconciler.Request) error {
 
 	w.c.log.V(2).Info("state-of-the-world reconciliation computed deltas", "num-deltas", len(deltas))
 
+	// The pipeline knows only about its own changes: write the rest of the required state too in
+	// order to restore the target objects that have been removed or modified by others.
+	keys := map[client.ObjectKey]bool{}
+	for _, d := range deltas {
+		keys[client.ObjectKeyFromObject(d.Object)] = true
+	}
+	for _, obj := range w.c.pipeline.GetTargetCache().List() {
+		if !keys[client.ObjectKeyFromObject(obj)] {
+			deltas = append(deltas, object.Delta{Type: object.Upserted, Object: obj})
+		}
+	}
+
 	return w.write(ctx, req, deltas)
 }
 
-- 
2.43.0


From 2d585a30ddde9ef42453bf562f61aff2c21454bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:06 +0000
Subject: [PATCH 43/81] fix: error reporting is safe for concurrent use and
 never blocks or crashes the controller

---
 pkg/controller/declarative.go     |  7 ++-
 pkg/controller/status_reporter.go | 96 +++++++++++++++++++++++--------
 2 files changed, 77 insertions(+), 26 deletions(-)

diff --git a/pkg/controller/declarative.go b/pkg/controller/declarative.go
index 55d5bdf..1bc24b0 100644
--- a/pkg/controller/declarative.go
+++ b/pkg/controller/declarative.go
@@ -187,10 +187,11 @@ func (c *DeclarativeController) GetGVKs() []schema.GroupVersionKind {
 // GetStatus returns the status of the controller.
 func (c *DeclarativeController) GetStatus(gen int64) opv1a1.ControllerStatus {
 	status := opv1a1.ControllerStatus{Name: c.name}
+	lastErrors, critical := c.snapshot()
 
 	var condition metav1.Condition
 	switch {
-	case c.IsEmpty():
+	case len(lastErrors) == 0:
 		condition = metav1.Condition{
 			Type:               string(opv1a1.ControllerConditionReady),
 			Status:             metav1.ConditionTrue,
@@ -199,7 +200,7 @@ func (c *DeclarativeController) GetStatus(gen int64) opv1a1.ControllerStatus {
 			Reason:             string(opv1a1.ControllerReasonReady),
 			Message:            "Controller is up and running",
 		}
-	case c.HasCritical():
+	case critical:
 		condition = metav1.Condition{
 			Type:               string(opv1a1.ControllerConditionReady),
 			Status:             metav1.ConditionFalse,
@@ -222,7 +223,7 @@ func (c *DeclarativeController) GetStatus(gen int64) opv1a1.ControllerStatus {
 	conditions := []metav1.Condition{condition}
 	status.Conditions = conditions
 
-	status.LastErrors = c.Report()
+	status.LastErrors = lastErrors
 
 	return status
 }
diff --git a/pkg/controller/status_reporter.go b/pkg/controller/status_reporter.go
index 547e8d1..4afddcd 100644
--- a/pkg/controller/status_reporter.go
+++ b/pkg/controller/status_reporter.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"strings"
+	"sync"
 	"time"
 
 	"golang.org/x/time/rate"
@@ -30,13 +31,18 @@ type Error struct {
 	Operator, Controller string
 }
 
+// Unwrap returns the wrapped error.
+func (e Error) Unwrap() error { return e.error }
+
 // errorReporter is the error stack implementation.
 type errorReporter struct {
+	mu          sync.Mutex
 	c           *DeclarativeController
 	errorStack  []error
 	ratelimiter rate.Sometimes
 	errorChan   chan error
 	critical    bool // whether a critical error has been reported
+	sending     bool // whether there is an error waiting to be sent to a full error channel
 }
 
 // NewErrorReporter creates a new error reporter.
@@ -46,61 +52,91 @@ func NewErrorReporter(c *DeclarativeController, errorChan chan error) *errorRepo
 
 // Push pushes a noncritical error to the error stack.
 func (s *errorReporter) Push(err error) error {
-	return s.push(err)
+	return s.push(err, false)
 }
 
 // PushError pushes a simple noncritical error to the error stack.
 func (s *errorReporter) PushError(msg string) error {
-	return s.push(errors.New(msg))
+	return s.push(errors.New(msg), false)
 }
 
 // PushErrorf pushes a formatted noncritical error to the error stack.
 func (s *errorReporter) PushErrorf(format string, a ...any) error {
-	return s.push(fmt.Errorf(format, a...))
+	return s.push(fmt.Errorf(format, a...), false)
 }
 
 // PushCritical pushes a critical error to the error stack.
 func (s *errorReporter) PushCritical(err error) error {
-	s.critical = true
-	return s.push(err)
+	return s.push(err, true)
 }
 
 // PushCriticalError pushes a critical error to the error stack.
 func (s *errorReporter) PushCriticalError(msg string) error {
-	s.critical = true
-	return s.push(errors.New(msg))
+	return s.push(errors.New(msg), true)
 }
 
 // PushCriticalErrorf pushes a formatted critical error to the error stack.
 func (s *errorReporter) PushCriticalErrorf(format string, a ...any) error {
-	s.critical = true
-	return s.push(fmt.Errorf(format, a...))
+	return s.push(fmt.Errorf(format, a...), true)
 }
 
 // Push pushes a critical or non-critical error to the stack.
-func (s *errorReporter) push(err error) error {
-	ctrlErr := Error{Operator: s.c.op, Controller: s.c.name, error: err}
+func (s *errorReporter) push(err error, critical bool) error {
+	s.mu.Lock()
+	defer s.mu.Unlock()
 
-	// ask a status update if trigger is set
-	defer s.ratelimiter.Do(func() {
-		if s.errorChan != nil {
-			s.errorChan <- ctrlErr
-		}
-	})
+	ctrlErr := Error{Operator: s.c.op, Controller: s.c.name, error: err}
+	s.critical = s.critical || critical
 
 	if len(s.errorStack) == ErrorReporterStackSize {
 		copy(s.errorStack, s.errorStack[1:])
 		s.errorStack[len(s.errorStack)-1] = ctrlErr
-		return ctrlErr
+	} else {
+		s.errorStack = append(s.errorStack, ctrlErr)
+	}
+
+	// ask a status update if trigger is set
+	if s.errorChan != nil {
+		s.ratelimiter.Do(func() { s.notify(ctrlErr) })
 	}
-	s.errorStack = append(s.errorStack, ctrlErr)
 
 	return ctrlErr
 }
 
+// notify sends an error to the error channel. The caller is never blocked: if the error channel is
+// full then the error is sent in the background, unless there is already an error waiting there.
+func (s *errorReporter) notify(err error) {
+	defer ignoreClosed()
+
+	select {
+	case s.errorChan <- err:
+		return
+	default:
+	}
+
+	if s.sending {
+		return
+	}
+	s.sending = true
+	go func() {
+		defer func() {
+			s.mu.Lock()
+			s.sending = false
+			s.mu.Unlock()
+		}()
+		defer ignoreClosed()
+		s.errorChan <- err
+	}()
+}
+
+// ignoreClosed ignores the panic caused by the receiver closing the error channel.
+func ignoreClosed() { _ = recover() }
+
 // Pop pops the extra error from the stack.
 func (s *errorReporter) Pop() {
-	if s.IsEmpty() {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	if len(s.errorStack) == 0 {
 		return
 	}
 	s.errorStack = s.errorStack[:len(s.errorStack)-1]
@@ -108,7 +144,9 @@ func (s *errorReporter) Pop() {
 
 // Top returns the last errors from the stack.
 func (s *errorReporter) Top() error {
-	if s.IsEmpty() {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	if len(s.errorStack) == 0 {
 		return nil
 	}
 	return s.errorStack[len(s.errorStack)-1]
@@ -116,26 +154,38 @@ func (s *errorReporter) Top() error {
 
 // Size returns the number of errors on the stack.
 func (s *errorReporter) Size() int {
+	s.mu.Lock()
+	defer s.mu.Unlock()
 	return len(s.errorStack)
 }
 
 // IsEmpty returns true if the stack is empty.
 func (s *errorReporter) IsEmpty() bool {
-	return len(s.errorStack) == 0
+	return s.Size() == 0
 }
 
 // HasCritical returns true if the stack contains a critical error.
 func (s *errorReporter) HasCritical() bool {
+	s.mu.Lock()
+	defer s.mu.Unlock()
 	return s.critical
 }
 
 // Report returns the error messages on the stack.
 func (s *errorReporter) Report() []string {
+	errs, _ := s.snapshot()
+	return errs
+}
+
+// snapshot returns a consistent view of the error messages and the critical error flag.
+func (s *errorReporter) snapshot() ([]string, bool) {
+	s.mu.Lock()
+	defer s.mu.Unlock()
 	errs := []string{}
 	for _, err := range s.errorStack {
 		errs = append(errs, trim(err.Error()))
 	}
-	return errs
+	return errs, s.critical
 }
 
 // String stringifies the error stack.
-- 
2.43.0


From 19e92c9a2f63724f119b90a61caeed048f37c498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:02 +0000
Subject: [PATCH 44/81] fix: a controller with an invalid source does not
 process its other sources or stop its operator

---
 pkg/controller/declarative.go | 30 +++++++++++++++---------------
 pkg/reconciler/source.go      |  3 +++
 2 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/pkg/controller/declarative.go b/pkg/controller/declarative.go
index 1bc24b0..7679881 100644
--- a/pkg/controller/declarative.go
+++ b/pkg/controller/declarative.go
@@ -9,6 +9,7 @@ import (
 	"k8s.io/apimachinery/pkg/runtime/schema"
 	"sigs.k8s.io/controller-runtime/pkg/controller"
 	"sigs.k8s.io/controller-runtime/pkg/reconcile"
+	runtimeSource "sigs.k8s.io/controller-runtime/pkg/source"
 
 	opv1a1 "github.com/l7mp/dcontroller/pkg/api/operator/v1alpha1"
 	"github.com/l7mp/dcontroller/pkg/manager"
@@ -107,14 +108,20 @@ func NewDeclarative(mgr manager.Manager, operator string, config opv1a1.Controll
 	c.pipeline = pipeline
 	c.writer = newDeltaWriter(c)
 
-	on := true
-	for i, s := range c.sources {
-		gvk, err := s.GetGVK()
+	// Set up the sources. No controller is created until all sources prove valid: a failed
+	// controller must not process any of its sources.
+	runtimeSrcs := []runtimeSource.TypedSource[reconciler.Request]{}
+	for _, s := range c.sources {
+		src, err := s.GetSource()
 		if err != nil {
-			return c, c.PushCriticalErrorf("failed to obtain GVK for source %s: %w",
-				util.Stringify(s), err)
+			return c, c.PushCriticalErrorf("failed to create runtime source for "+
+				"resource %s: %w", s.String(), err)
 		}
+		runtimeSrcs = append(runtimeSrcs, src)
+	}
 
+	on := true
+	for i, s := range c.sources {
 		// Choose reconciler based on source type.
 		var rec reconcile.TypedReconciler[reconciler.Request]
 		if s.Type() == opv1a1.Periodic {
@@ -136,20 +143,13 @@ func NewDeclarative(mgr manager.Manager, operator string, config opv1a1.Controll
 		})
 		if err != nil {
 			return c, c.PushCriticalErrorf("failed to create runtime controller for resource %s: %w",
-				gvk.String(), err)
-		}
-
-		// Set up the watch.
-		src, err := s.GetSource()
-		if err != nil {
-			return c, c.PushCriticalErrorf("failed to create runtime source for "+
-				"resource %s: %w", gvk.String(), err)
+				s.String(), err)
 		}
 
 		// Create the watch for the source.
-		if err := ctrl.Watch(src); err != nil {
+		if err := ctrl.Watch(runtimeSrcs[i]); err != nil {
 			return c, c.PushCriticalErrorf("failed to watch resource %s: %w",
-				gvk.String(), err)
+				s.String(), err)
 		}
 
 		c.log.V(4).Info("watching resource", "GVK", s.String(), "controller", ctrlName)
diff --git a/pkg/reconciler/source.go b/pkg/reconciler/source.go
index 6f67725..dc030c9 100644
--- a/pkg/reconciler/source.go
+++ b/pkg/reconciler/source.go
@@ -255,6 +255,9 @@ func (s *periodicSource) Type() opv1a1.SourceType { return opv1a1.Periodic }
 
 // GetSource generates a controller-runtime source that triggers periodic reconciliation.
 func (s *periodicSource) GetSource() (runtimeSource.TypedSource[Request], error) {
+	if s.period <= 0 {
+		return nil, fmt.Errorf("periodic source requires positive period, got: %v", s.period)
+	}
 	s.log.V(4).Info("periodic source: ready")
 	return &periodicRuntimeSource{src: s, log: s.log}, nil
 }
-- 
2.43.0


From 75d02d0e572907068a22343316c54344afd6a453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:28 +0000
Subject: [PATCH 45/81] fix: a source that cannot be watched does not stop its
 operator

---
 pkg/controller/declarative.go |  2 +-
 pkg/controller/source.go      | 53 +++++++++++++++++++++++++++++++++++
 2 files changed, 54 insertions(+), 1 deletion(-)
 create mode 100644 pkg/controller/source.go

diff --git a/pkg/controller/declarative.go b/pkg/controller/declarative.go
index 7679881..3cbd68a 100644
--- a/pkg/controller/declarative.go
+++ b/pkg/controller/declarative.go
@@ -117,7 +117,7 @@ func NewDeclarative(mgr manager.Manager, operator string, config opv1a1.Controll
 			return c, c.PushCriticalErrorf("failed to create runtime source for "+
 				"resource %s: %w", s.String(), err)
 		}
-		runtimeSrcs = append(runtimeSrcs, src)
+		runtimeSrcs = append(runtimeSrcs, newPatientSource(c, s.String(), src))
 	}
 
 	on := true
diff --git a/pkg/controller/source.go b/pkg/controller/source.go
new file mode 100644
index 0000000..0d6f840
--- /dev/null
+++ b/pkg/controller/source.go
@@ -0,0 +1,53 @@
+package controller
+
+import (
+	"context"
+	"time"
+
+	"k8s.io/client-go/util/workqueue"
+	runtimeSource "sigs.k8s.io/controller-runtime/pkg/source"
+
+	"github.com/l7mp/dcontroller/pkg/reconciler"
+)
+
+// sourceSyncTimeout is the time after which a source that could not be synced is reported.
+const sourceSyncTimeout = 30 * time.Second
+
+// patientSource wraps a source that may never become available, say, because the corresponding CRD
+// has not been installed. The controller runtime would give up on such a source after a while and
+// stop the manager of the operator, and hence all the controllers of the operator. A patient source
+// reports the problem on the status of the controller and keeps on waiting.
+type patientSource struct {
+	runtimeSource.TypedSource[reconciler.Request]
+	c    *DeclarativeController
+	name string
+}
+
+func newPatientSource(c *DeclarativeController, name string, src runtimeSource.TypedSource[reconciler.Request]) runtimeSource.TypedSource[reconciler.Request] {
+	return &patientSource{TypedSource: src, c: c, name: name}
+}
+
+// Start implements source.TypedSource.
+func (s *patientSource) Start(ctx context.Context, queue workqueue.TypedRateLimitingInterface[reconciler.Request]) error {
+	if err := s.TypedSource.Start(ctx, queue); err != nil {
+		_ = s.c.PushCriticalErrorf("failed to start source %s: %w", s.name, err)
+		return nil
+	}
+
+	syncing, ok := s.TypedSource.(runtimeSource.TypedSyncingSource[reconciler.Request])
+	if !ok {
+		return nil
+	}
+
+	timer := time.AfterFunc(sourceSyncTimeout, func() {
+		_ = s.c.PushErrorf("source %s is not available: still waiting", s.name)
+	})
+	go func() {
+		defer timer.Stop()
+		if err := syncing.WaitForSync(ctx); err != nil && ctx.Err() == nil {
+			_ = s.c.PushErrorf("failed to sync source %s: %w", s.name, err)
+		}
+	}()
+
+	return nil
+}
-- 
2.43.0


From 7a1bbe681cde1f7ef7ba2a6ae742bf5a675f4200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:42 +0000
Subject: [PATCH 46/81] fix: adding, updating and removing operators is atomic
 and takes effect completely

---
 pkg/kubernetes/controllers/operator.go | 168 +++++++++++++++----------
 1 file changed, 105 insertions(+), 63 deletions(-)

diff --git a/pkg/kubernetes/controllers/operator.go b/pkg/kubernetes/controllers/operator.go
index 9c5ad70..68e0ff9 100644
--- a/pkg/kubernetes/controllers/operator.go
+++ b/pkg/kubernetes/controllers/operator.go
@@ -36,8 +36,8 @@ const StatusChannelBufferSize = 64
 type opEntry struct {
 	op        *operator.Operator
 	errorChan chan error
-	ctx       context.Context    // Operator-specific context
-	cancel    context.CancelFunc // For stopping the operator
+	cancel    context.CancelFunc // For stopping the operator, nil if not started
+	done      chan struct{}      // Closed when the operator has stopped
 }
 
 type OpController struct {
@@ -54,6 +54,10 @@ type OpController struct {
 	operators map[string]*opEntry
 	// Mutex for thread-safe operator map access
 	mu sync.Mutex
+	// Mutex for serializing operator additions and removals
+	opMu sync.Mutex
+	// Mutex for serializing status updates
+	statusMu sync.Mutex
 	// API server for exposing views
 	apiServer *apiserver.APIServer
 	// Error channel for operator errors
@@ -155,12 +159,30 @@ func (c *OpController) GetClient() client.Client {
 // The API server lifecycle is not managed by the controller; make sure to run
 // apiServer.Start before calling Start on the controller.
 func (c *OpController) SetAPIServer(apiServer *apiserver.APIServer) {
-	c.apiServer = apiServer
+	c.opMu.Lock()
+	defer c.opMu.Unlock()
+
 	c.mu.Lock()
+	c.apiServer = apiServer
+	ops := []*operator.Operator{}
 	for _, e := range c.operators {
-		e.op.SetAPIServer(apiServer)
+		ops = append(ops, e.op)
 	}
 	c.mu.Unlock()
+
+	for _, op := range ops {
+		op.UnregisterGVKs()
+		op.SetAPIServer(apiServer)
+		c.registerGVKs(op)
+	}
+}
+
+// registerGVKs registers the views of an operator with the API server.
+func (c *OpController) registerGVKs(op *operator.Operator) {
+	if err := op.RegisterGVKs(); err != nil {
+		// this is not fatal
+		c.log.Error(err, "failed to register GKVs with the API server", "operator", op.GetName())
+	}
 }
 
 // GetErrorChannel returns the error channel used to surface operator errors.
@@ -179,13 +201,29 @@ func (c *OpController) GetOperator(name string) *operator.Operator {
 	return op.op
 }
 
-// AddOperator adds an operator to the controller.
+// AddOperator adds an operator to the controller. If there is already an operator with the same name
+// then it is stopped and replaced.
 func (c *OpController) AddOperator(op *operator.Operator) {
-	name := op.GetName()
-	e := &opEntry{op: op, errorChan: op.GetErrorChannel()}
+	c.opMu.Lock()
+	defer c.opMu.Unlock()
+
+	if old := c.GetOperator(op.GetName()); old != nil && old != op {
+		c.deleteOperator(op.GetName())
+		// the two operators share the API group
+		c.registerGVKs(op)
+	}
+	c.addOperator(op)
+}
+
+func (c *OpController) addOperator(op *operator.Operator) {
 	c.mu.Lock()
-	c.operators[name] = e
-	c.mu.Unlock()
+	defer c.mu.Unlock()
+
+	if e, ok := c.operators[op.GetName()]; ok && e.op == op {
+		return
+	}
+	e := &opEntry{op: op, errorChan: op.GetErrorChannel(), done: make(chan struct{})}
+	c.operators[op.GetName()] = e
 
 	// Start the new operator if we are already running
 	if c.started {
@@ -198,6 +236,22 @@ func (c *OpController) AddOperator(op *operator.Operator) {
 func (c *OpController) AddOperatorFromSpec(name string, spec *opv1a1.OperatorSpec) (*operator.Operator, error) {
 	c.log.V(4).Info("adding operator", "name", name)
 
+	return c.setOperator(name, spec)
+}
+
+// UpsertOperator creates or updates an operator.
+func (c *OpController) UpsertOperator(name string, spec *opv1a1.OperatorSpec) (*operator.Operator, error) {
+	c.log.V(4).Info("upserting operator", "name", name)
+
+	return c.setOperator(name, spec)
+}
+
+// setOperator creates an operator. If there is already an operator with the same name then it is
+// stopped first.
+func (c *OpController) setOperator(name string, spec *opv1a1.OperatorSpec) (*operator.Operator, error) {
+	c.opMu.Lock()
+	defer c.opMu.Unlock()
+
 	// Use the shared operator manager for this operator
 	errorChan := make(chan error, StatusChannelBufferSize)
 	op, err := operator.New(name, c.config, operator.Options{
@@ -209,26 +263,23 @@ func (c *OpController) AddOperatorFromSpec(name string, spec *opv1a1.OperatorSpe
 	if err != nil {
 		return nil, err
 	}
+
+	c.deleteOperator(name)
 	op.AddSpec(spec)
-	c.AddOperator(op)
+	c.addOperator(op)
 
 	return op, nil
 }
 
-// UpsertOperator creates or updates an operator.
-func (c *OpController) UpsertOperator(name string, spec *opv1a1.OperatorSpec) (*operator.Operator, error) {
-	c.log.V(4).Info("upserting operator", "name", name)
-
-	// If this is a modification event, first remove old operator and create a new one
-	if c.GetOperator(name) != nil {
-		c.DeleteOperator(name)
-	}
-
-	return c.AddOperatorFromSpec(name, spec)
+// DeleteOperator removes an operator from the controller. The operator no longer runs when the call
+// returns.
+func (c *OpController) DeleteOperator(name string) {
+	c.opMu.Lock()
+	defer c.opMu.Unlock()
+	c.deleteOperator(name)
 }
 
-// DeleteOperator removes an operator from the controller.
-func (c *OpController) DeleteOperator(name string) {
+func (c *OpController) deleteOperator(name string) {
 	c.mu.Lock()
 	e, ok := c.operators[name]
 	if !ok {
@@ -236,26 +287,30 @@ func (c *OpController) DeleteOperator(name string) {
 		return
 	}
 	delete(c.operators, name)
+	cancel := e.cancel
 	c.mu.Unlock()
 
 	c.log.V(4).Info("deleting operator", "name", name)
 	e.op.UnregisterGVKs()
-	e.cancel()
+	if cancel != nil {
+		cancel()
+		<-e.done
+	}
 }
 
-// startOp starts error channel aggregation for an operator.
+// startOp starts an operator and the aggregation of its errors. Must be called with the lock held.
 func (c *OpController) startOp(e *opEntry) {
 	// Create a context for the operator and start it
 	ctx, cancel := context.WithCancel(c.ctx)
-	c.mu.Lock()
-	e.ctx = ctx
 	e.cancel = cancel
-	c.mu.Unlock()
 
 	go func() {
+		defer close(e.done)
 		if err := e.op.Start(ctx); err != nil {
-			c.errorChan <- err
-			return
+			select {
+			case c.errorChan <- err:
+			case <-ctx.Done():
+			}
 		}
 	}()
 
@@ -264,7 +319,6 @@ func (c *OpController) startOp(e *opEntry) {
 		for {
 			select {
 			case err := <-e.errorChan:
-				// Use non-blocking send to avoid writing to closed channel
 				select {
 				case c.errorChan <- err:
 				case <-ctx.Done():
@@ -300,7 +354,7 @@ func (c *OpController) Reconcile(ctx context.Context, req reconcile.Request) (re
 		log.Error(err, "failed to upsert Operator")
 		return reconcile.Result{}, err
 	}
-	c.updateStatus(ctx, op)
+	c.updateStatus(ctx, op.GetName())
 
 	return reconcile.Result{}, nil
 }
@@ -309,36 +363,19 @@ func (c *OpController) Reconcile(ctx context.Context, req reconcile.Request) (re
 // Starts both the CRD manager (for watching Operator CRDs) and the operator manager
 // (for running operators and storing views).
 func (c *OpController) Start(ctx context.Context) error {
+	// Mark as started and start all operators
+	c.mu.Lock()
 	c.log.V(2).Info("starting operator controller", "num-operators", len(c.operators),
 		"APIServer", fmt.Sprintf("%t", c.apiServer != nil))
-
-	// Mark as started and collect operators to start
-	c.mu.Lock()
-	es := []*opEntry{}
-	for _, e := range c.operators {
-		es = append(es, e)
-	}
 	c.started = true
 	c.ctx = ctx
-	c.mu.Unlock()
-
-	// Start the operator manager in the background
-	go func() {
-		c.log.V(2).Info("starting operator manager")
-
-		if err := c.crdMgr.Start(ctx); err != nil {
-			c.log.Error(err, "operator manager error")
-		}
-	}()
-
-	// Start all operators
-	for _, e := range es {
+	for _, e := range c.operators {
 		c.startOp(e)
 	}
+	c.mu.Unlock()
 
 	// Surface errors from operators and generate CRD statuses.
 	go func() {
-		defer close(c.errorChan)
 		for {
 			select {
 			case err := <-c.errorChan:
@@ -347,12 +384,7 @@ func (c *OpController) Start(ctx context.Context) error {
 					c.log.Error(err, "controller error", "operator", operr.Operator,
 						"controller", operr.Controller)
 
-					if op := c.GetOperator(operr.Operator); op == nil {
-						c.log.Error(err, "spurious controller error: operator no longer available",
-							"operator", operr.Operator, "controller", operr.Controller)
-					} else {
-						c.updateStatus(ctx, op)
-					}
+					c.updateStatus(ctx, operr.Operator)
 				} else {
 					c.log.Error(err, "unknown error")
 				}
@@ -368,8 +400,18 @@ func (c *OpController) Start(ctx context.Context) error {
 	return c.crdMgr.Start(ctx)
 }
 
-func (c *OpController) updateStatus(ctx context.Context, op *operator.Operator) {
-	key := types.NamespacedName{Name: op.GetName()}
+func (c *OpController) updateStatus(ctx context.Context, name string) {
+	// Make sure an update never overwrites a more recent one.
+	c.statusMu.Lock()
+	defer c.statusMu.Unlock()
+
+	op := c.GetOperator(name)
+	if op == nil {
+		c.log.V(2).Info("spurious status update: operator no longer available", "operator", name)
+		return
+	}
+
+	key := types.NamespacedName{Name: name}
 
 	// Fetch the Operator CRD once to get the generation, then capture the status snapshot.
 	// This ensures we're applying the same status on all retry attempts, preventing conflicts
@@ -386,9 +428,9 @@ func (c *OpController) updateStatus(ctx context.Context, op *operator.Operator)
 	if err := retry.RetryOnConflict(retry.DefaultRetry, func() error {
 		attempt++
 
-		// Refetch the Operator to get the latest resourceVersion
+		// Refetch the Operator to get the latest resourceVersion (the cache may lag behind)
 		spec := opv1a1.Operator{}
-		if err := c.k8sClient.Get(ctx, key, &spec); err != nil {
+		if err := c.crdMgr.GetAPIReader().Get(ctx, key, &spec); err != nil {
 			return err
 		}
 
@@ -403,7 +445,7 @@ func (c *OpController) updateStatus(ctx context.Context, op *operator.Operator)
 		}
 		return nil
 	}); err != nil {
-		c.log.Error(err, "failed to update opearator status", "name", op.GetName())
+		c.log.Error(err, "failed to update opearator status", "name", name)
 		return
 	}
 }
-- 
2.43.0


From 138da9ad2c3b1c27882e0cbf68d0867daaf29e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:53 +0000
Subject: [PATCH 47/81] fix: a wildcard in the middle of a rule does not match
 values shorter than the pattern

---
 pkg/auth/rbac.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/auth/rbac.go b/pkg/auth/rbac.go
index 39f0c67..4ce3c8c 100644
--- a/pkg/auth/rbac.go
+++ b/pkg/auth/rbac.go
@@ -128,7 +128,9 @@ func matchesWildcard(pattern, value string) bool {
 	// Handle middle wildcard: "foo*bar" (split on first *)
 	parts := strings.SplitN(pattern, "*", 2)
 	if len(parts) == 2 {
-		return strings.HasPrefix(value, parts[0]) && strings.HasSuffix(value, parts[1])
+		// The prefix and the suffix must not overlap
+		return len(value) >= len(parts[0])+len(parts[1]) &&
+			strings.HasPrefix(value, parts[0]) && strings.HasSuffix(value, parts[1])
 	}
 
 	return false
-- 
2.43.0


From 9ee371ee1ba99ada38277041f5dd08c71bc684fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:56 +0000
Subject: [PATCH 48/81] fix: the generated private key is readable only by its
 owner

---
 main.go           |  2 +-
 pkg/auth/token.go | 18 +++++++++++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index 09c6d87..2e62887 100644
--- a/main.go
+++ b/main.go
@@ -149,7 +149,7 @@ func runGenerateKeys(_ *cobra.Command, cfg genKeysConfig) error {
 		return fmt.Errorf("failed to generate keys: %w", err)
 	}
 
-	if err := auth.WriteCertAndKey(cfg.keyFile, cfg.certFile, key, cert); err != nil {
+	if err := auth.WriteCertAndKey(cfg.certFile, cfg.keyFile, cert, key); err != nil {
 		return fmt.Errorf("failed to write key/cert into file %q/%q: %w", cfg.keyFile, cfg.certFile, err)
 	}
 
diff --git a/pkg/auth/token.go b/pkg/auth/token.go
index 7e600dd..669468e 100644
--- a/pkg/auth/token.go
+++ b/pkg/auth/token.go
@@ -145,12 +145,28 @@ func WriteCertAndKey(certFile, keyFile string, certPEM, keyPEM []byte) error {
 	if err := os.WriteFile(certFile, certPEM, 0644); err != nil { //nolint:gosec
 		return fmt.Errorf("failed to write certificate file: %w", err)
 	}
-	if err := os.WriteFile(keyFile, keyPEM, 0600); err != nil {
+	if err := writePrivate(keyFile, keyPEM); err != nil {
 		return fmt.Errorf("failed to write key file: %w", err)
 	}
 	return nil
 }
 
+// writePrivate writes a file that is accessible only to its owner, even if it already exists.
+func writePrivate(file string, data []byte) error {
+	f, err := os.OpenFile(file, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0600) //nolint:gosec
+	if err != nil {
+		return err
+	}
+	defer f.Close() //nolint:errcheck
+	if err := f.Chmod(0600); err != nil {
+		return err
+	}
+	if _, err := f.Write(data); err != nil {
+		return err
+	}
+	return f.Close()
+}
+
 // LoadPrivateKey reads a PEM-encoded private key file and returns an *rsa.PrivateKey.  It expects
 // a file like the one generated by GenerateSelfSignedCert.
 func LoadPrivateKey(keyFile string) (*rsa.PrivateKey, error) {
-- 
2.43.0


From 1338ac103aa9ba9a9b2ab7ebda889afba3f2d008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:01 +0000
Subject: [PATCH 49/81] fix: the API server listens on the address and port
 given on the command line

---
 main.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/main.go b/main.go
index 2e62887..08484cc 100644
--- a/main.go
+++ b/main.go
@@ -201,8 +201,8 @@ func startServerCmd() *cobra.Command {
 		},
 	}
 
-	cmd.Flags().StringVar(&cfg.addr, "addr", "localhost", "API server bind address")
-	cmd.Flags().IntVar(&cfg.port, "port", 8443, "API server port")
+	cmd.Flags().StringVar(&cfg.addr, "addr", "0.0.0.0", "API server bind address")
+	cmd.Flags().IntVar(&cfg.port, "port", APIServerPort, "API server port")
 	cmd.Flags().BoolVar(&cfg.httpMode, "http", false, "Use HTTP instead of HTTPS (no TLS)")
 	cmd.Flags().BoolVar(&cfg.insecure, "insecure", false, "Accept self-signed TLS certificates (HTTPS only)")
 	cmd.Flags().StringVar(&cfg.certFile, "tls-cert-file", "apiserver.crt",
@@ -258,7 +258,7 @@ func runStartServer(_ *cobra.Command, cfg apiServerConfig) error {
 	ctx := ctrl.SetupSignalHandler()
 
 	if !cfg.disableAPIServer {
-		apiServerCfg, err := apiserver.NewDefaultConfig("0.0.0.0", APIServerPort, api.Client,
+		apiServerCfg, err := apiserver.NewDefaultConfig(cfg.addr, cfg.port, api.Client,
 			cfg.httpMode, cfg.insecure, logger)
 		if err != nil {
 			setupLog.Error(err, "failed to create the config for the embedded API server")
-- 
2.43.0


From 7760a62fec28a119a4ae1e656c79e0adea445401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:06 +0000
Subject: [PATCH 50/81] fix: credentials are not generated with more authority
 than requested

---
 main.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/main.go b/main.go
index 08484cc..e18b0e5 100644
--- a/main.go
+++ b/main.go
@@ -402,6 +402,10 @@ func runGenerateConfig(cfg generateConfigConfig) error {
 	var namespacesList []string
 	if cfg.namespaces != "" {
 		namespacesList = parseCommaSeparated(cfg.namespaces)
+		if len(namespacesList) == 0 {
+			// an empty list would mean no restrictions
+			return fmt.Errorf("no namespace in %q", cfg.namespaces)
+		}
 	}
 
 	// Parse RBAC rules
@@ -424,8 +428,15 @@ func runGenerateConfig(cfg generateConfigConfig) error {
 	// If both are empty, rulesList will be nil/empty = full access
 
 	// Apply resourceNames to last rule if specified
-	if cfg.resourceNames != "" && len(rulesList) > 0 {
+	if cfg.resourceNames != "" {
 		resourceNamesList := parseCommaSeparated(cfg.resourceNames)
+		if len(resourceNamesList) == 0 {
+			// an empty list would mean no restrictions
+			return fmt.Errorf("no resource name in %q", cfg.resourceNames)
+		}
+		if len(rulesList) == 0 {
+			return fmt.Errorf("resource names require at least one rule")
+		}
 		lastIdx := len(rulesList) - 1
 		rulesList[lastIdx].ResourceNames = resourceNamesList
 
-- 
2.43.0


From fc267c62d1af732839018641ab019f85a72e057c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:12 +0000
Subject: [PATCH 51/81] fix: get-config shows tokens without timestamps

---
 main.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/main.go b/main.go
index e18b0e5..d47764a 100644
--- a/main.go
+++ b/main.go
@@ -603,9 +603,9 @@ func runGetConfig(cfg getConfigConfig) error {
 	fmt.Println()
 	fmt.Println("⏱️  Token Metadata:")
 	fmt.Printf("   Issuer:     %s\n", claims.Issuer)
-	fmt.Printf("   Issued At:  %s\n", claims.IssuedAt.Format(time.RFC3339))
-	fmt.Printf("   Expires At: %s\n", claims.ExpiresAt.Format(time.RFC3339))
-	fmt.Printf("   Not Before: %s\n", claims.NotBefore.Format(time.RFC3339))
+	fmt.Printf("   Issued At:  %s\n", formatTime(claims.IssuedAt))
+	fmt.Printf("   Expires At: %s\n", formatTime(claims.ExpiresAt))
+	fmt.Printf("   Not Before: %s\n", formatTime(claims.NotBefore))
 
 	// Check expiry
 	if claims.ExpiresAt != nil && time.Now().After(claims.ExpiresAt.Time) {
@@ -742,6 +742,14 @@ func parseCommaSeparated(s string) []string {
 	return result
 }
 
+// formatTime formats an optional timestamp of a token.
+func formatTime(t *jwt.NumericDate) string {
+	if t == nil {
+		return "<none>"
+	}
+	return t.Format(time.RFC3339)
+}
+
 // checkCert loads a TLS certificate and private key from the specified files, validates that they
 // are a matching pair, and logs the certificate's details if successful.
 func checkCert(certFile, keyFile string) error {
-- 
2.43.0


From da3fca61d44f816f320bdde76e21629fe299b8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:11 +0000
Subject: [PATCH 52/81] fix: the API server refuses to create objects that have
 no name

---
 pkg/apiserver/storage.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/apiserver/storage.go b/pkg/apiserver/storage.go
index 600cb98..cb4a8f2 100644
--- a/pkg/apiserver/storage.go
+++ b/pkg/apiserver/storage.go
@@ -15,6 +15,7 @@ import (
 	"k8s.io/apimachinery/pkg/watch"
 	genericapirequest "k8s.io/apiserver/pkg/endpoints/request"
 	"k8s.io/apiserver/pkg/registry/rest"
+	"k8s.io/apiserver/pkg/storage/names"
 	"sigs.k8s.io/controller-runtime/pkg/client"
 )
 
@@ -170,6 +171,13 @@ func (s *ClientDelegatedStorage) Create(ctx context.Context, obj runtime.Object,
 		}
 	}
 
+	if unstructuredObj.GetName() == "" {
+		if unstructuredObj.GetGenerateName() == "" {
+			return nil, apierrors.NewBadRequest("name or generateName is required")
+		}
+		unstructuredObj.SetName(names.SimpleNameGenerator.GenerateName(unstructuredObj.GetGenerateName()))
+	}
+
 	if err := s.delegatingClient.Create(ctx, unstructuredObj, &client.CreateOptions{Raw: options}); err != nil {
 		if apierrors.IsAlreadyExists(err) {
 			return nil, apierrors.NewAlreadyExists(s.gvr.GroupResource(), unstructuredObj.GetName())
-- 
2.43.0


From f7d7ff95a436e679fda5fabc698bcfa9f16931a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:31 +0000
Subject: [PATCH 53/81] fix: updates and patches through the API server do not
 lose concurrent changes

---
 pkg/apiserver/storage.go | 84 ++++++++++++++++++++++++++++++----------
 1 file changed, 64 insertions(+), 20 deletions(-)

diff --git a/pkg/apiserver/storage.go b/pkg/apiserver/storage.go
index cb4a8f2..a5cb56c 100644
--- a/pkg/apiserver/storage.go
+++ b/pkg/apiserver/storage.go
@@ -2,6 +2,7 @@ package apiserver
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"strings"
 
@@ -17,6 +18,9 @@ import (
 	"k8s.io/apiserver/pkg/registry/rest"
 	"k8s.io/apiserver/pkg/storage/names"
 	"sigs.k8s.io/controller-runtime/pkg/client"
+
+	"github.com/l7mp/dcontroller/pkg/cache"
+	"github.com/l7mp/dcontroller/pkg/object"
 )
 
 var _ rest.StandardStorage = &ClientDelegatedStorage{}
@@ -194,9 +198,7 @@ func (s *ClientDelegatedStorage) Create(ctx context.Context, obj runtime.Object,
 func (s *ClientDelegatedStorage) Update(ctx context.Context, name string, objInfo rest.UpdatedObjectInfo, createValidation rest.ValidateObjectFunc, updateValidation rest.ValidateObjectUpdateFunc, forceAllowCreate bool, options *metav1.UpdateOptions) (runtime.Object, bool, error) {
 	s.log.V(4).Info("UPDATE", "GVR", s.gvr.String(), "name", name)
 
-	// Get current object.
-	currentObj, err := s.Get(ctx, name, &metav1.GetOptions{})
-	if err != nil {
+	if _, err := s.Get(ctx, name, &metav1.GetOptions{}); err != nil {
 		if apierrors.IsNotFound(err) && forceAllowCreate {
 			// Create new object
 			newObj, err := objInfo.UpdatedObject(ctx, nil)
@@ -209,32 +211,74 @@ func (s *ClientDelegatedStorage) Update(ctx context.Context, name string, objInf
 		return nil, false, err
 	}
 
-	// Get updated object.
-	updatedObj, err := objInfo.UpdatedObject(ctx, currentObj)
-	if err != nil {
-		return nil, false, err
-	}
+	var result *unstructured.Unstructured
+	err := s.modify(ctx, name, options, func(currentObj *unstructured.Unstructured) (*unstructured.Unstructured, error) {
+		// Get updated object.
+		updatedObj, err := objInfo.UpdatedObject(ctx, currentObj.DeepCopy())
+		if err != nil {
+			return nil, err
+		}
 
-	// Validate update if validation function is provided.
-	if updateValidation != nil {
-		if err := updateValidation(ctx, updatedObj, currentObj); err != nil {
+		// Validate update if validation function is provided.
+		if updateValidation != nil {
+			if err := updateValidation(ctx, updatedObj, currentObj); err != nil {
+				return nil, err
+			}
+		}
+
+		unstructuredObj, ok := updatedObj.(*unstructured.Unstructured)
+		if !ok {
+			return nil, apierrors.NewBadRequest("object is not unstructured")
+		}
+
+		// Ensure GVK is set correctly.
+		unstructuredObj.SetGroupVersionKind(s.gvk)
+
+		result = unstructuredObj
+		return unstructuredObj, nil
+	})
+	if err != nil {
+		if client.IgnoreNotFound(err) == nil {
+			return nil, false, apierrors.NewNotFound(s.gvr.GroupResource(), name)
+		}
+		if status := apierrors.APIStatus(nil); errors.As(err, &status) {
 			return nil, false, err
 		}
+		return nil, false, apierrors.NewInternalError(fmt.Errorf("failed to update %s: %w", name, err))
 	}
 
-	unstructuredObj, ok := updatedObj.(*unstructured.Unstructured)
+	return result, false, nil
+}
+
+// modify changes an existing object, atomically if supported by the client: the changes others make
+// meanwhile must not be lost.
+func (s *ClientDelegatedStorage) modify(ctx context.Context, name string, options *metav1.UpdateOptions, change func(current *unstructured.Unstructured) (*unstructured.Unstructured, error)) error {
+	modifier, ok := s.delegatingClient.(cache.ViewModifier)
 	if !ok {
-		return nil, false, apierrors.NewBadRequest("object is not unstructured")
+		current, err := s.Get(ctx, name, &metav1.GetOptions{})
+		if err != nil {
+			return err
+		}
+		updated, err := change(current.(*unstructured.Unstructured))
+		if err != nil {
+			return err
+		}
+		return s.delegatingClient.Update(ctx, updated, &client.UpdateOptions{Raw: options})
 	}
 
-	// Ensure GVK is set correctly.
-	unstructuredObj.SetGroupVersionKind(s.gvk)
-
-	if err := s.delegatingClient.Update(ctx, unstructuredObj, &client.UpdateOptions{Raw: options}); err != nil {
-		return nil, false, apierrors.NewInternalError(fmt.Errorf("failed to update %s: %w", name, err))
+	obj := s.New().(*unstructured.Unstructured)
+	obj.SetName(name)
+	if s.NamespaceScoped() {
+		obj.SetNamespace(genericapirequest.NamespaceValue(ctx))
 	}
-
-	return unstructuredObj, false, nil
+	return modifier.ModifyView(ctx, obj, func(current object.Object) error {
+		updated, err := change(current)
+		if err != nil {
+			return err
+		}
+		current.SetUnstructuredContent(runtime.DeepCopyJSON(updated.UnstructuredContent()))
+		return nil
+	})
 }
 
 // Implement the rest.GracefulDeleter interface.
-- 
2.43.0


From 94eb723927af1e0b18380f443e22c374e4d1f040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:39 +0000
Subject: [PATCH 54/81] fix: dry-run requests to the API server do not change
 anything

---
 pkg/apiserver/storage.go | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/pkg/apiserver/storage.go b/pkg/apiserver/storage.go
index a5cb56c..e4fcfa6 100644
--- a/pkg/apiserver/storage.go
+++ b/pkg/apiserver/storage.go
@@ -17,6 +17,7 @@ import (
 	genericapirequest "k8s.io/apiserver/pkg/endpoints/request"
 	"k8s.io/apiserver/pkg/registry/rest"
 	"k8s.io/apiserver/pkg/storage/names"
+	"k8s.io/apiserver/pkg/util/dryrun"
 	"sigs.k8s.io/controller-runtime/pkg/client"
 
 	"github.com/l7mp/dcontroller/pkg/cache"
@@ -27,6 +28,9 @@ var _ rest.StandardStorage = &ClientDelegatedStorage{}
 var _ rest.Scoper = &ClientDelegatedStorage{}
 var _ rest.TableConvertor = &ClientDelegatedStorage{}
 
+// errDryRun prevents the changes of a dry run from being stored.
+var errDryRun = errors.New("dry run")
+
 // ClientDelegatedStorage implements REST storage by delegating all operations
 // to a controller-runtime client.
 type ClientDelegatedStorage struct {
@@ -182,6 +186,10 @@ func (s *ClientDelegatedStorage) Create(ctx context.Context, obj runtime.Object,
 		unstructuredObj.SetName(names.SimpleNameGenerator.GenerateName(unstructuredObj.GetGenerateName()))
 	}
 
+	if options != nil && dryrun.IsDryRun(options.DryRun) {
+		return unstructuredObj, nil
+	}
+
 	if err := s.delegatingClient.Create(ctx, unstructuredObj, &client.CreateOptions{Raw: options}); err != nil {
 		if apierrors.IsAlreadyExists(err) {
 			return nil, apierrors.NewAlreadyExists(s.gvr.GroupResource(), unstructuredObj.GetName())
@@ -205,7 +213,11 @@ func (s *ClientDelegatedStorage) Update(ctx context.Context, name string, objInf
 			if err != nil {
 				return nil, false, err
 			}
-			createdObj, err := s.Create(ctx, newObj, createValidation, &metav1.CreateOptions{})
+			createOptions := &metav1.CreateOptions{}
+			if options != nil {
+				createOptions.DryRun = options.DryRun
+			}
+			createdObj, err := s.Create(ctx, newObj, createValidation, createOptions)
 			return createdObj, true, err
 		}
 		return nil, false, err
@@ -235,9 +247,12 @@ func (s *ClientDelegatedStorage) Update(ctx context.Context, name string, objInf
 		unstructuredObj.SetGroupVersionKind(s.gvk)
 
 		result = unstructuredObj
+		if options != nil && dryrun.IsDryRun(options.DryRun) {
+			return nil, errDryRun
+		}
 		return unstructuredObj, nil
 	})
-	if err != nil {
+	if err != nil && !errors.Is(err, errDryRun) {
 		if client.IgnoreNotFound(err) == nil {
 			return nil, false, apierrors.NewNotFound(s.gvr.GroupResource(), name)
 		}
@@ -301,6 +316,10 @@ func (s *ClientDelegatedStorage) Delete(ctx context.Context, name string, delete
 	}
 
 	unstructuredObj := obj.(*unstructured.Unstructured)
+	if options != nil && dryrun.IsDryRun(options.DryRun) {
+		return unstructuredObj, true, nil
+	}
+
 	if err := s.delegatingClient.Delete(ctx, unstructuredObj, &client.DeleteOptions{Raw: options}); err != nil {
 		if client.IgnoreNotFound(err) == nil {
 			return nil, false, apierrors.NewNotFound(s.gvr.GroupResource(), name)
@@ -334,6 +353,10 @@ func (s *ClientDelegatedStorage) DeleteCollection(ctx context.Context, deleteVal
 			}
 		}
 
+		if options != nil && dryrun.IsDryRun(options.DryRun) {
+			continue
+		}
+
 		if err := s.delegatingClient.Delete(ctx, &item, &client.DeleteOptions{Raw: options}); err != nil {
 			s.log.Info("Failed to delete object", "item",
 				fmt.Sprintf("%s/%s", item.GetNamespace(), item.GetName()), "error", err.Error())
-- 
2.43.0


From b00f863581aee8c961c57061a89d873b5500199f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:48 +0000
Subject: [PATCH 55/81] fix: the API server refuses objects of another kind

---
 pkg/apiserver/storage.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/pkg/apiserver/storage.go b/pkg/apiserver/storage.go
index e4fcfa6..2d55589 100644
--- a/pkg/apiserver/storage.go
+++ b/pkg/apiserver/storage.go
@@ -168,7 +168,9 @@ func (s *ClientDelegatedStorage) Create(ctx context.Context, obj runtime.Object,
 	}
 
 	// Ensure GVK is set correctly.
-	unstructuredObj.SetGroupVersionKind(s.gvk)
+	if err := s.ensureGVK(unstructuredObj); err != nil {
+		return nil, err
+	}
 
 	// Handle namespace for namespaced resources.
 	if s.NamespaceScoped() {
@@ -200,6 +202,16 @@ func (s *ClientDelegatedStorage) Create(ctx context.Context, obj runtime.Object,
 	return unstructuredObj, nil
 }
 
+// ensureGVK refuses objects of another kind and sets the GVK if missing.
+func (s *ClientDelegatedStorage) ensureGVK(obj *unstructured.Unstructured) error {
+	if gvk := obj.GroupVersionKind(); gvk.Kind != "" && gvk != s.gvk {
+		return apierrors.NewBadRequest(fmt.Sprintf("the kind of the object (%s) does not match the requested kind (%s)",
+			gvk.String(), s.gvk.String()))
+	}
+	obj.SetGroupVersionKind(s.gvk)
+	return nil
+}
+
 // Implement the rest.Updater interface.
 
 // Update updates an existing object.
@@ -244,7 +256,9 @@ func (s *ClientDelegatedStorage) Update(ctx context.Context, name string, objInf
 		}
 
 		// Ensure GVK is set correctly.
-		unstructuredObj.SetGroupVersionKind(s.gvk)
+		if err := s.ensureGVK(unstructuredObj); err != nil {
+			return nil, err
+		}
 
 		result = unstructuredObj
 		if options != nil && dryrun.IsDryRun(options.DryRun) {
-- 
2.43.0


From 6b2700e86dbd433996d19567bca12b5587634988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:56 +0000
Subject: [PATCH 56/81] fix: deletions through the API server honour
 preconditions and report failures

---
 pkg/apiserver/storage.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pkg/apiserver/storage.go b/pkg/apiserver/storage.go
index 2d55589..796cc15 100644
--- a/pkg/apiserver/storage.go
+++ b/pkg/apiserver/storage.go
@@ -330,6 +330,13 @@ func (s *ClientDelegatedStorage) Delete(ctx context.Context, name string, delete
 	}
 
 	unstructuredObj := obj.(*unstructured.Unstructured)
+	if options != nil && options.Preconditions != nil && options.Preconditions.UID != nil &&
+		*options.Preconditions.UID != unstructuredObj.GetUID() {
+		return nil, false, apierrors.NewConflict(s.gvr.GroupResource(), name,
+			fmt.Errorf("the UID in the precondition (%s) does not match the UID of the object (%s)",
+				*options.Preconditions.UID, unstructuredObj.GetUID()))
+	}
+
 	if options != nil && dryrun.IsDryRun(options.DryRun) {
 		return unstructuredObj, true, nil
 	}
@@ -371,9 +378,9 @@ func (s *ClientDelegatedStorage) DeleteCollection(ctx context.Context, deleteVal
 			continue
 		}
 
-		if err := s.delegatingClient.Delete(ctx, &item, &client.DeleteOptions{Raw: options}); err != nil {
-			s.log.Info("Failed to delete object", "item",
-				fmt.Sprintf("%s/%s", item.GetNamespace(), item.GetName()), "error", err.Error())
+		if err := s.delegatingClient.Delete(ctx, &item, &client.DeleteOptions{Raw: options}); client.IgnoreNotFound(err) != nil {
+			return nil, apierrors.NewInternalError(fmt.Errorf("failed to delete %s/%s: %w",
+				item.GetNamespace(), item.GetName(), err))
 		}
 	}
 
-- 
2.43.0


From b2fa9a34214673d3cce2340203eb82a6b073deb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:12 +0000
Subject: [PATCH 57/81] fix: server-side apply through the API server

---
 pkg/apiserver/builder.go          |  1 +
 pkg/apiserver/resource_handler.go | 50 +++++++++++++++++++++++++++----
 pkg/apiserver/storage.go          |  2 +-
 3 files changed, 46 insertions(+), 7 deletions(-)

diff --git a/pkg/apiserver/builder.go b/pkg/apiserver/builder.go
index 0eb4e28..090b4f6 100644
--- a/pkg/apiserver/builder.go
+++ b/pkg/apiserver/builder.go
@@ -59,6 +59,7 @@ func (s *APIServer) buildServer() error {
 		delegatingClient: s.delegatingClient,
 		scheme:           s.scheme,
 		codecs:           s.codecs,
+		authorizer:       s.config.Authorizer,
 		delegate:         s.dynamicVersionHandler,
 		log:              s.log,
 	})
diff --git a/pkg/apiserver/resource_handler.go b/pkg/apiserver/resource_handler.go
index 3e894c1..a00f63e 100644
--- a/pkg/apiserver/resource_handler.go
+++ b/pkg/apiserver/resource_handler.go
@@ -11,6 +11,7 @@ import (
 	"github.com/go-logr/logr"
 	"k8s.io/apimachinery/pkg/api/meta"
 	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
+	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
 	"k8s.io/apimachinery/pkg/runtime"
 	"k8s.io/apimachinery/pkg/runtime/schema"
 	"k8s.io/apimachinery/pkg/types"
@@ -19,6 +20,8 @@ import (
 	"sigs.k8s.io/controller-runtime/pkg/client"
 
 	"k8s.io/apiserver/pkg/admission"
+	"k8s.io/apiserver/pkg/authorization/authorizer"
+	"k8s.io/apiserver/pkg/authorization/authorizerfactory"
 	"k8s.io/apiserver/pkg/endpoints/handlers"
 
 	viewv1a1 "github.com/l7mp/dcontroller/pkg/api/view/v1alpha1"
@@ -38,6 +41,7 @@ type resourceHandler struct {
 	delegatingClient client.Client
 	scheme           *runtime.Scheme
 	codecs           runtime.NegotiatedSerializer
+	authorizer       authorizer.Authorizer
 
 	// Delegate for non-dynamic requests.
 	delegate http.Handler
@@ -50,6 +54,7 @@ type resourceHandlerConfig struct {
 	delegatingClient client.Client
 	scheme           *runtime.Scheme
 	codecs           runtime.NegotiatedSerializer
+	authorizer       authorizer.Authorizer
 	delegate         http.Handler
 	log              logr.Logger
 }
@@ -69,10 +74,16 @@ func newResourceHandler(config resourceHandlerConfig) *resourceHandler {
 		delegatingClient: config.delegatingClient,
 		scheme:           config.scheme,
 		codecs:           config.codecs,
+		authorizer:       config.authorizer,
 		delegate:         config.delegate,
 		log:              config.log,
 	}
 
+	// Without an authorizer every request is allowed.
+	if handler.authorizer == nil {
+		handler.authorizer = authorizerfactory.NewAlwaysAllowAuthorizer()
+	}
+
 	// Initialize with empty map.
 	handler.storage.Store(make(storageMap))
 
@@ -247,6 +258,30 @@ func (h *resourceHandler) removeStorage(gvr schema.GroupVersionResource) {
 	h.log.V(2).Info("storage unregistered", "GVR", gvr.String())
 }
 
+// unstructuredCreater creates empty unstructured objects of a given kind.
+type unstructuredCreater struct{}
+
+// New implements runtime.ObjectCreater.
+func (unstructuredCreater) New(kind schema.GroupVersionKind) (runtime.Object, error) { //nolint:unparam
+	obj := &unstructured.Unstructured{}
+	obj.SetGroupVersionKind(kind)
+	return obj, nil
+}
+
+// unstructuredConvertor leaves unstructured objects as they are: all view kinds share a single Go
+// type so the scheme cannot tell their kinds apart. Everything else is left to the scheme.
+type unstructuredConvertor struct {
+	*runtime.Scheme
+}
+
+// ConvertToVersion implements runtime.ObjectConvertor.
+func (c unstructuredConvertor) ConvertToVersion(in runtime.Object, gv runtime.GroupVersioner) (runtime.Object, error) {
+	if _, ok := in.(runtime.Unstructured); ok {
+		return in, nil
+	}
+	return c.Scheme.ConvertToVersion(in, gv)
+}
+
 // createServingInfo builds the serving info for a GVR/GVK.
 func (h *resourceHandler) createServingInfo(
 	gvr schema.GroupVersionResource,
@@ -274,9 +309,9 @@ func (h *resourceHandler) createServingInfo(
 	typeConverter := managedfields.NewDeducedTypeConverter()
 	fieldManager, err := managedfields.NewDefaultCRDFieldManager(
 		typeConverter,
-		h.scheme, // objectConverter
-		h.scheme, // objectDefaulter
-		h.scheme, // objectCreater
+		unstructuredConvertor{h.scheme}, // objectConverter
+		h.scheme,                        // objectDefaulter
+		unstructuredCreater{},           // objectCreater
 		gvk,
 		gvk.GroupVersion(),
 		"",  // subresource (empty for main resource)
@@ -295,11 +330,11 @@ func (h *resourceHandler) createServingInfo(
 		},
 		Serializer:      h.codecs,
 		ParameterCodec:  runtime.NewParameterCodec(h.scheme),
-		Creater:         h.scheme, //nolint:misspell
-		Convertor:       h.scheme,
+		Creater:         unstructuredCreater{}, //nolint:misspell
+		Convertor:       unstructuredConvertor{h.scheme},
 		Defaulter:       h.scheme,
 		Typer:           h.scheme,
-		UnsafeConvertor: runtime.UnsafeObjectConvertor(h.scheme),
+		UnsafeConvertor: unstructuredConvertor{h.scheme},
 		TableConvertor:  storage, // For kubectl output.
 
 		Resource:         gvr,
@@ -309,6 +344,9 @@ func (h *resourceHandler) createServingInfo(
 
 		MaxRequestBodyBytes: 3 * 1024 * 1024, // 3 MB default.
 
+		// Authorizer for the server-side apply requests that create a new object.
+		Authorizer: h.authorizer,
+
 		// FieldManager for server-side apply and managedFields tracking.
 		FieldManager: fieldManager,
 	}
diff --git a/pkg/apiserver/storage.go b/pkg/apiserver/storage.go
index 796cc15..cf0a710 100644
--- a/pkg/apiserver/storage.go
+++ b/pkg/apiserver/storage.go
@@ -221,7 +221,7 @@ func (s *ClientDelegatedStorage) Update(ctx context.Context, name string, objInf
 	if _, err := s.Get(ctx, name, &metav1.GetOptions{}); err != nil {
 		if apierrors.IsNotFound(err) && forceAllowCreate {
 			// Create new object
-			newObj, err := objInfo.UpdatedObject(ctx, nil)
+			newObj, err := objInfo.UpdatedObject(ctx, s.New())
 			if err != nil {
 				return nil, false, err
 			}
-- 
2.43.0


From 480e7e9e378808865405c50285d35285051fa5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:14 +0000
Subject: [PATCH 58/81] fix: the API server reads the options of deletions

---
 pkg/apiserver/resource_handler.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/apiserver/resource_handler.go b/pkg/apiserver/resource_handler.go
index a00f63e..c74443d 100644
--- a/pkg/apiserver/resource_handler.go
+++ b/pkg/apiserver/resource_handler.go
@@ -195,12 +195,12 @@ func (h *resourceHandler) routeRequest(
 		handlers.PatchResource(storage, scope, admit, supportedTypes)(w, req)
 
 	case "delete":
-		gracefulDeleter := false
+		allowsOptions := true
 		admit := admission.NewChainHandler()
-		handlers.DeleteResource(storage, gracefulDeleter, scope, admit)(w, req)
+		handlers.DeleteResource(storage, allowsOptions, scope, admit)(w, req)
 
 	case "deletecollection":
-		checkBody := false
+		checkBody := true
 		admit := admission.NewChainHandler()
 		handlers.DeleteCollection(storage, checkBody, scope, admit)(w, req)
 
-- 
2.43.0


From b010c545b292b9ada029b39222790bfcd8025237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:05 +0000
Subject: [PATCH 59/81] fix: objects are not created under a name other than
 the requested

---
 pkg/apiserver/resource_handler.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/apiserver/resource_handler.go b/pkg/apiserver/resource_handler.go
index c74443d..3bc0bdf 100644
--- a/pkg/apiserver/resource_handler.go
+++ b/pkg/apiserver/resource_handler.go
@@ -174,6 +174,12 @@ func (h *resourceHandler) routeRequest(
 		handlers.ListResource(storage, storage, scope, forceWatch, minRequestTimeout)(w, req)
 
 	case "create":
+		// Objects are created in a collection, under the name given in the body.
+		if requestInfo.Name != "" {
+			http.Error(w, "cannot create a named resource", http.StatusMethodNotAllowed)
+			return
+		}
+
 		// No admission control for unstructured objects.
 		admit := admission.NewChainHandler()
 		handlers.CreateResource(storage, scope, admit)(w, req)
-- 
2.43.0


From c24a4c4326698c48c919f5605ae93f906fe68272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:52 +0000
Subject: [PATCH 60/81] fix: view kinds can be registered while the API server
 is serving

---
 pkg/apiserver/builder.go          |  2 --
 pkg/apiserver/registry.go         | 45 +++----------------------------
 pkg/apiserver/resource_handler.go | 40 ++++++++++++++++-----------
 3 files changed, 29 insertions(+), 58 deletions(-)

diff --git a/pkg/apiserver/builder.go b/pkg/apiserver/builder.go
index 090b4f6..3ee1941 100644
--- a/pkg/apiserver/builder.go
+++ b/pkg/apiserver/builder.go
@@ -57,8 +57,6 @@ func (s *APIServer) buildServer() error {
 	// Chain: resourceHandler -> dynamicVersionHandler -> dynamicGroupHandler -> go-restful
 	resourceHandler := newResourceHandler(resourceHandlerConfig{
 		delegatingClient: s.delegatingClient,
-		scheme:           s.scheme,
-		codecs:           s.codecs,
 		authorizer:       s.config.Authorizer,
 		delegate:         s.dynamicVersionHandler,
 		log:              s.log,
diff --git a/pkg/apiserver/registry.go b/pkg/apiserver/registry.go
index db83984..5440d4d 100644
--- a/pkg/apiserver/registry.go
+++ b/pkg/apiserver/registry.go
@@ -5,7 +5,6 @@ import (
 
 	apidiscoveryv2 "k8s.io/api/apidiscovery/v2"
 	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
-	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
 	"k8s.io/apimachinery/pkg/runtime/schema"
 	"k8s.io/apiserver/pkg/endpoints/discovery"
 
@@ -58,12 +57,7 @@ func (s *APIServer) RegisterAPIGroup(group string, gvks []schema.GroupVersionKin
 		return nil
 	}
 
-	// 1. Add types to scheme (idempotent operation).
-	if err := s.addTypesToScheme(gvks); err != nil {
-		return fmt.Errorf("failed to add types to scheme: %w", err)
-	}
-
-	// 2. Register storage in resourceHandler (fully dynamic, no InstallAPIGroup).
+	// 1. Register storage in resourceHandler (fully dynamic, no InstallAPIGroup).
 	for _, gvk := range gvks {
 		resource, err := s.findAPIResource(gvk)
 		if err != nil {
@@ -82,17 +76,17 @@ func (s *APIServer) RegisterAPIGroup(group string, gvks []schema.GroupVersionKin
 		}
 	}
 
-	// 3. Register discovery handlers (idempotent).
+	// 2. Register discovery handlers (idempotent).
 	s.registerDiscoveryHandlers(group, gvks)
 
-	// 4. Update GVK cache.
+	// 3. Update GVK cache.
 	groupedGVKs := make(map[schema.GroupVersionKind]bool)
 	for _, gvk := range gvks {
 		groupedGVKs[gvk] = true
 	}
 	s.groupGVKs[group] = groupedGVKs
 
-	// 5. Invalidate OpenAPI caches.
+	// 4. Invalidate OpenAPI caches.
 	s.cachedOpenAPIDefs = nil
 	s.cachedOpenAPIV3Defs = nil
 
@@ -231,34 +225,3 @@ func (s *APIServer) registerDiscoveryHandlers(group string, gvks []schema.GroupV
 		}
 	}
 }
-
-// addTypesToScheme adds a set of GVKs to the scheme.
-func (s *APIServer) addTypesToScheme(gvks []schema.GroupVersionKind) error {
-	// Group GVKs by GroupVersion
-	groupVersions := make(map[schema.GroupVersion][]schema.GroupVersionKind)
-	for _, gvk := range gvks {
-		gv := gvk.GroupVersion()
-		groupVersions[gv] = append(groupVersions[gv], gvk)
-	}
-
-	// Add types to existing scheme
-	for gv, gvkList := range groupVersions {
-		for _, gvk := range gvkList {
-			// Add meta types for this group version if not already added
-			metav1.AddToGroupVersion(s.scheme, gv)
-
-			// Register the unstructured types
-			s.scheme.AddKnownTypeWithName(gvk, &unstructured.Unstructured{})
-			s.scheme.AddKnownTypeWithName(listGVK(gvk), &unstructured.UnstructuredList{})
-
-			s.log.V(4).Info("added types to scheme", "GVK", gvk.String())
-		}
-
-		// Update version priority for this group
-		if err := s.scheme.SetVersionPriority(gv); err != nil {
-			return fmt.Errorf("failed to set version priority for %s: %w", gv.String(), err)
-		}
-	}
-
-	return nil
-}
diff --git a/pkg/apiserver/resource_handler.go b/pkg/apiserver/resource_handler.go
index 3bc0bdf..17a870e 100644
--- a/pkg/apiserver/resource_handler.go
+++ b/pkg/apiserver/resource_handler.go
@@ -14,6 +14,7 @@ import (
 	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
 	"k8s.io/apimachinery/pkg/runtime"
 	"k8s.io/apimachinery/pkg/runtime/schema"
+	"k8s.io/apimachinery/pkg/runtime/serializer"
 	"k8s.io/apimachinery/pkg/types"
 	"k8s.io/apimachinery/pkg/util/managedfields"
 	genericapirequest "k8s.io/apiserver/pkg/endpoints/request"
@@ -39,8 +40,6 @@ type resourceHandler struct {
 
 	// Configuration.
 	delegatingClient client.Client
-	scheme           *runtime.Scheme
-	codecs           runtime.NegotiatedSerializer
 	authorizer       authorizer.Authorizer
 
 	// Delegate for non-dynamic requests.
@@ -52,8 +51,6 @@ type resourceHandler struct {
 // resourceHandlerConfig provides configuration for creating a resourceHandler.
 type resourceHandlerConfig struct {
 	delegatingClient client.Client
-	scheme           *runtime.Scheme
-	codecs           runtime.NegotiatedSerializer
 	authorizer       authorizer.Authorizer
 	delegate         http.Handler
 	log              logr.Logger
@@ -72,8 +69,6 @@ type servingInfo struct {
 func newResourceHandler(config resourceHandlerConfig) *resourceHandler {
 	handler := &resourceHandler{
 		delegatingClient: config.delegatingClient,
-		scheme:           config.scheme,
-		codecs:           config.codecs,
 		authorizer:       config.authorizer,
 		delegate:         config.delegate,
 		log:              config.log,
@@ -288,6 +283,18 @@ func (c unstructuredConvertor) ConvertToVersion(in runtime.Object, gv runtime.Gr
 	return c.Scheme.ConvertToVersion(in, gv)
 }
 
+// newViewScheme creates the scheme for serving a view kind. Schemes are not safe for concurrent use
+// while types are being added: every kind gets a separate scheme so that new kinds can be registered
+// while others are being served.
+func newViewScheme(gvk schema.GroupVersionKind) *runtime.Scheme {
+	scheme := runtime.NewScheme()
+	metav1.AddToGroupVersion(scheme, schema.GroupVersion{Version: "v1"})
+	metav1.AddToGroupVersion(scheme, gvk.GroupVersion())
+	scheme.AddKnownTypeWithName(gvk, &unstructured.Unstructured{})
+	scheme.AddKnownTypeWithName(listGVK(gvk), &unstructured.UnstructuredList{})
+	return scheme
+}
+
 // createServingInfo builds the serving info for a GVR/GVK.
 func (h *resourceHandler) createServingInfo(
 	gvr schema.GroupVersionResource,
@@ -310,14 +317,17 @@ func (h *resourceHandler) createServingInfo(
 		log:               h.log,
 	}
 
+	scheme := newViewScheme(gvk)
+	codecs := NewCompositeCodecFactory(serializer.NewCodecFactory(scheme), scheme)
+
 	// Create FieldManager for managedFields tracking.
 	// Use the default CRD field manager which works with unstructured objects.
 	typeConverter := managedfields.NewDeducedTypeConverter()
 	fieldManager, err := managedfields.NewDefaultCRDFieldManager(
 		typeConverter,
-		unstructuredConvertor{h.scheme}, // objectConverter
-		h.scheme,                        // objectDefaulter
-		unstructuredCreater{},           // objectCreater
+		unstructuredConvertor{scheme}, // objectConverter
+		scheme,                        // objectDefaulter
+		unstructuredCreater{},         // objectCreater
 		gvk,
 		gvk.GroupVersion(),
 		"",  // subresource (empty for main resource)
@@ -334,13 +344,13 @@ func (h *resourceHandler) createServingInfo(
 			Namer:         runtime.Namer(meta.NewAccessor()),
 			ClusterScoped: !resource.APIResource.Namespaced,
 		},
-		Serializer:      h.codecs,
-		ParameterCodec:  runtime.NewParameterCodec(h.scheme),
+		Serializer:      codecs,
+		ParameterCodec:  runtime.NewParameterCodec(scheme),
 		Creater:         unstructuredCreater{}, //nolint:misspell
-		Convertor:       unstructuredConvertor{h.scheme},
-		Defaulter:       h.scheme,
-		Typer:           h.scheme,
-		UnsafeConvertor: unstructuredConvertor{h.scheme},
+		Convertor:       unstructuredConvertor{scheme},
+		Defaulter:       scheme,
+		Typer:           scheme,
+		UnsafeConvertor: unstructuredConvertor{scheme},
 		TableConvertor:  storage, // For kubectl output.
 
 		Resource:         gvr,
-- 
2.43.0


From 77ca95000b125d7335f3963ce0f93c39c1b37caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 61/81] fix: concurrent server-side applies of a missing object
 are merged

---
 pkg/apiserver/storage.go | 21 +++++++++++++++++----
 pkg/cache/client.go      |  5 +++++
 pkg/cache/view_client.go | 15 +++++++++++++++
 3 files changed, 37 insertions(+), 4 deletions(-)

diff --git a/pkg/apiserver/storage.go b/pkg/apiserver/storage.go
index cf0a710..cb45e27 100644
--- a/pkg/apiserver/storage.go
+++ b/pkg/apiserver/storage.go
@@ -155,6 +155,11 @@ func (s *ClientDelegatedStorage) List(ctx context.Context, options *metainternal
 func (s *ClientDelegatedStorage) Create(ctx context.Context, obj runtime.Object, createValidation rest.ValidateObjectFunc, options *metav1.CreateOptions) (runtime.Object, error) {
 	s.log.V(4).Info("CREATE", "GVR", s.gvr.String())
 
+	return s.create(ctx, obj, createValidation, options, s.delegatingClient.Create)
+}
+
+// create stores a new object using the given function.
+func (s *ClientDelegatedStorage) create(ctx context.Context, obj runtime.Object, createValidation rest.ValidateObjectFunc, options *metav1.CreateOptions, store func(context.Context, client.Object, ...client.CreateOption) error) (runtime.Object, error) {
 	// Validate the object if validation function is provided.
 	if createValidation != nil {
 		if err := createValidation(ctx, obj); err != nil {
@@ -192,7 +197,7 @@ func (s *ClientDelegatedStorage) Create(ctx context.Context, obj runtime.Object,
 		return unstructuredObj, nil
 	}
 
-	if err := s.delegatingClient.Create(ctx, unstructuredObj, &client.CreateOptions{Raw: options}); err != nil {
+	if err := store(ctx, unstructuredObj, &client.CreateOptions{Raw: options}); err != nil {
 		if apierrors.IsAlreadyExists(err) {
 			return nil, apierrors.NewAlreadyExists(s.gvr.GroupResource(), unstructuredObj.GetName())
 		}
@@ -229,10 +234,18 @@ func (s *ClientDelegatedStorage) Update(ctx context.Context, name string, objInf
 			if options != nil {
 				createOptions.DryRun = options.DryRun
 			}
-			createdObj, err := s.Create(ctx, newObj, createValidation, createOptions)
-			return createdObj, true, err
+			// Do not replace the object if someone else creates it meanwhile.
+			store := s.delegatingClient.Create
+			if creator, ok := s.delegatingClient.(cache.ViewCreator); ok {
+				store = creator.CreateView
+			}
+			createdObj, err := s.create(ctx, newObj, createValidation, createOptions, store)
+			if !apierrors.IsAlreadyExists(err) {
+				return createdObj, true, err
+			}
+		} else {
+			return nil, false, err
 		}
-		return nil, false, err
 	}
 
 	var result *unstructured.Unstructured
diff --git a/pkg/cache/client.go b/pkg/cache/client.go
index 447e141..a9b8191 100644
--- a/pkg/cache/client.go
+++ b/pkg/cache/client.go
@@ -126,6 +126,11 @@ func (c *CompositeClient) Patch(ctx context.Context, obj client.Object, patch cl
 	return c.Client.Patch(ctx, obj, patch, opts...)
 }
 
+// CreateView stores a new view object. It returns an error if the object already exists.
+func (c *CompositeClient) CreateView(ctx context.Context, obj client.Object, opts ...client.CreateOption) error {
+	return c.viewClient.CreateView(ctx, obj, opts...)
+}
+
 // ModifyView atomically changes a view object.
 func (c *CompositeClient) ModifyView(ctx context.Context, obj object.Object, change func(current object.Object) error) error {
 	return c.viewClient.ModifyView(ctx, obj, change)
diff --git a/pkg/cache/view_client.go b/pkg/cache/view_client.go
index e885759..37413ba 100644
--- a/pkg/cache/view_client.go
+++ b/pkg/cache/view_client.go
@@ -131,6 +131,21 @@ type ViewModifier interface {
 	ModifyView(ctx context.Context, obj object.Object, change func(current object.Object) error) error
 }
 
+// ViewCreator is implemented by clients that can create view objects without replacing existing ones.
+type ViewCreator interface {
+	// CreateView stores a new view object. It returns an error if the object already exists.
+	CreateView(ctx context.Context, obj client.Object, opts ...client.CreateOption) error
+}
+
+// CreateView stores a new view object. It returns an error if the object already exists.
+func (c *ViewCacheClient) CreateView(_ context.Context, obj client.Object, _ ...client.CreateOption) error {
+	viewObj, ok := obj.(object.Object)
+	if !ok {
+		return errors.New("object must be an object.Object")
+	}
+	return c.cache.Add(viewObj)
+}
+
 // ModifyView atomically changes the view object stored under the key of the given object.
 func (c *ViewCacheClient) ModifyView(ctx context.Context, obj object.Object, change func(current object.Object) error) error {
 	return c.modify(ctx, obj, func(current object.Object) (object.Object, error) {
-- 
2.43.0


From 2883a997fc98f0eaa41d4dd4e20caa274f023718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:34 +0000
Subject: [PATCH 62/81] fix: kinds dropped from an API group are not served any
 more

---
 pkg/apiserver/registry.go | 45 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/pkg/apiserver/registry.go b/pkg/apiserver/registry.go
index 5440d4d..f904f9e 100644
--- a/pkg/apiserver/registry.go
+++ b/pkg/apiserver/registry.go
@@ -57,6 +57,12 @@ func (s *APIServer) RegisterAPIGroup(group string, gvks []schema.GroupVersionKin
 		return nil
 	}
 
+	// A group with no GVKs does not exist.
+	if len(gvks) == 0 {
+		s.unregisterAPIGroup(group)
+		return nil
+	}
+
 	// 1. Register storage in resourceHandler (fully dynamic, no InstallAPIGroup).
 	for _, gvk := range gvks {
 		resource, err := s.findAPIResource(gvk)
@@ -84,8 +90,12 @@ func (s *APIServer) RegisterAPIGroup(group string, gvks []schema.GroupVersionKin
 	for _, gvk := range gvks {
 		groupedGVKs[gvk] = true
 	}
+	oldGVKs := s.groupGVKs[group]
 	s.groupGVKs[group] = groupedGVKs
 
+	// Stop serving the GVKs that are gone.
+	s.removeStaleGVKs(group, oldGVKs, groupedGVKs)
+
 	// 4. Invalidate OpenAPI caches.
 	s.cachedOpenAPIDefs = nil
 	s.cachedOpenAPIV3Defs = nil
@@ -99,6 +109,11 @@ func (s *APIServer) UnregisterAPIGroup(group string) {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
+	s.unregisterAPIGroup(group)
+}
+
+// unregisterAPIGroup removes an API group. The caller must hold the lock.
+func (s *APIServer) unregisterAPIGroup(group string) {
 	gvks, ok := s.groupGVKs[group]
 	if !ok {
 		// Not registered, silently return.
@@ -143,6 +158,36 @@ func (s *APIServer) UnregisterAPIGroup(group string) {
 	s.log.Info("API group unregistered", "group", group)
 }
 
+// removeStaleGVKs removes the storage and the discovery info of the GVKs of an API group that have
+// been replaced.
+func (s *APIServer) removeStaleGVKs(group string, oldGVKs, newGVKs map[schema.GroupVersionKind]bool) {
+	versions := map[string]bool{}
+	served := map[schema.GroupVersionResource]bool{}
+	for gvk := range newGVKs {
+		versions[gvk.Version] = true
+		if resource, err := s.findAPIResource(gvk); err == nil {
+			served[gvk.GroupVersion().WithResource(resource.APIResource.Name)] = true
+		}
+	}
+
+	for gvk := range oldGVKs {
+		if resource, err := s.findAPIResource(gvk); err == nil {
+			gvr := gvk.GroupVersion().WithResource(resource.APIResource.Name)
+			if !served[gvr] {
+				s.resourceHandler.removeStorage(gvr)
+			}
+		}
+
+		if !versions[gvk.Version] {
+			s.dynamicVersionHandler.removeHandler(group, gvk.Version)
+			if s.server.AggregatedDiscoveryGroupManager != nil {
+				s.server.AggregatedDiscoveryGroupManager.RemoveGroupVersion(
+					metav1.GroupVersion{Group: group, Version: gvk.Version})
+			}
+		}
+	}
+}
+
 // registerDiscoveryHandlers creates and registers discovery handlers for a group.
 // This function is idempotent and can be called multiple times to update discovery info.
 func (s *APIServer) registerDiscoveryHandlers(group string, gvks []schema.GroupVersionKind) {
-- 
2.43.0


From 899e68c9343a0dff9dd42844cb75c896fa3c1db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:42 +0000
Subject: [PATCH 63/81] fix: unregistering some kinds of an API group keeps the
 others

---
 pkg/apiserver/registry.go | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/pkg/apiserver/registry.go b/pkg/apiserver/registry.go
index f904f9e..f366b23 100644
--- a/pkg/apiserver/registry.go
+++ b/pkg/apiserver/registry.go
@@ -32,16 +32,30 @@ func (s *APIServer) RegisterGVKs(gvks []schema.GroupVersionKind) error {
 	return nil
 }
 
-// UnregisterGVKs unregisters a set of GVks.
+// UnregisterGVKs unregisters a set of GVks. The rest of the GVKs in their groups remain registered.
 func (s *APIServer) UnregisterGVKs(gvks []schema.GroupVersionKind) {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
 	// Group GVKs by Group for API group registration
-	groups := make(map[string]bool)
+	groups := make(map[string]map[schema.GroupVersionKind]bool)
 	for _, gvk := range gvks {
-		groups[gvk.Group] = true
+		if groups[gvk.Group] == nil {
+			groups[gvk.Group] = make(map[schema.GroupVersionKind]bool)
+		}
+		groups[gvk.Group][gvk] = true
 	}
 
-	for group := range groups {
-		s.UnregisterAPIGroup(group)
+	for group, removed := range groups {
+		remaining := []schema.GroupVersionKind{}
+		for gvk := range s.groupGVKs[group] {
+			if !removed[gvk] {
+				remaining = append(remaining, gvk)
+			}
+		}
+		if err := s.registerAPIGroup(group, remaining); err != nil {
+			s.log.Error(err, "failed to re-register API group", "group", group)
+		}
 	}
 }
 
@@ -52,6 +66,11 @@ func (s *APIServer) RegisterAPIGroup(group string, gvks []schema.GroupVersionKin
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
+	return s.registerAPIGroup(group, gvks)
+}
+
+// registerAPIGroup installs an API group. The caller must hold the lock.
+func (s *APIServer) registerAPIGroup(group string, gvks []schema.GroupVersionKind) error {
 	// Ignore native Kubernetes API resources.
 	if !viewv1a1.IsViewGroup(group) {
 		return nil
-- 
2.43.0


From cb26a59ab0cba92b0602bf95dc3077da303ff7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:42 +0000
Subject: [PATCH 64/81] fix: the OpenAPI caches are written under the write
 lock

---
 pkg/apiserver/openapi.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/apiserver/openapi.go b/pkg/apiserver/openapi.go
index 2fe8460..c2f7a98 100644
--- a/pkg/apiserver/openapi.go
+++ b/pkg/apiserver/openapi.go
@@ -26,9 +26,9 @@ func (s *APIServer) getOpenAPIv2Handler() openapicommon.GetOpenAPIDefinitions {
 
 		defs := s.generateOpenAPIDefs(ref)
 
-		s.mu.RLock()
+		s.mu.Lock()
 		s.cachedOpenAPIDefs = defs
-		s.mu.RUnlock()
+		s.mu.Unlock()
 
 		return defs
 	}
@@ -87,9 +87,9 @@ func (s *APIServer) getOpenAPIv3Handler() openapicommon.GetOpenAPIDefinitions {
 		}
 
 		defs := s.generateOpenAPIDefs(ref)
-		s.mu.RLock()
+		s.mu.Lock()
 		s.cachedOpenAPIV3Defs = defs
-		s.mu.RUnlock()
+		s.mu.Unlock()
 
 		return defs
 	}
-- 
2.43.0


From db4de4bac2c63c89fe4358bd1345ea7f4b12cb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:50 +0000
Subject: [PATCH 65/81] fix: the API server is never started twice

---
 pkg/apiserver/apiserver.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pkg/apiserver/apiserver.go b/pkg/apiserver/apiserver.go
index 8874cee..c3e75cb 100644
--- a/pkg/apiserver/apiserver.go
+++ b/pkg/apiserver/apiserver.go
@@ -133,6 +133,7 @@ func (s *APIServer) GetConfig() *rest.Config {
 func (s *APIServer) Start(ctx context.Context) error {
 	s.mu.Lock()
 	running := s.running
+	s.running = true
 	s.mu.Unlock()
 
 	if running {
@@ -147,9 +148,6 @@ func (s *APIServer) Start(ctx context.Context) error {
 func (s *APIServer) runServerInstance(ctx context.Context) error {
 	s.log.Info("starting API server", "https-addr", s.GetServerAddress(), "http-addr", s.GetInsecureServerAddress())
 
-	s.mu.Lock()
-	s.running = true
-	s.mu.Unlock()
 	defer func() {
 		s.mu.Lock()
 		s.running = false
-- 
2.43.0


From 1e3564e5a58a39bcee31dd6f099dabddca1a0674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:11 +0000
Subject: [PATCH 66/81] fix: API discovery lists all the verbs of the resources

---
 pkg/apiserver/registry.go | 2 +-
 pkg/apiserver/resource.go | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/apiserver/registry.go b/pkg/apiserver/registry.go
index f366b23..3d28136 100644
--- a/pkg/apiserver/registry.go
+++ b/pkg/apiserver/registry.go
@@ -265,7 +265,7 @@ func (s *APIServer) registerDiscoveryHandlers(group string, gvks []schema.GroupV
 				ResponseKind:     &metav1.GroupVersionKind{Group: gvk.Group, Version: gvk.Version, Kind: gvk.Kind},
 				Scope:            apidiscoveryv2.ScopeNamespace, // All views are namespaced
 				SingularResource: resource.APIResource.SingularName,
-				Verbs:            []string{"get", "list", "create", "update", "patch", "delete", "watch"},
+				Verbs:            resource.APIResource.Verbs,
 			})
 		}
 
diff --git a/pkg/apiserver/resource.go b/pkg/apiserver/resource.go
index a0bc7a7..aea81b6 100644
--- a/pkg/apiserver/resource.go
+++ b/pkg/apiserver/resource.go
@@ -40,6 +40,7 @@ func (s *APIServer) findAPIResource(gvk schema.GroupVersionKind) (*Resource, err
 			Group:        gvk.Group,
 			Version:      gvk.Version,
 			Kind:         gvk.Kind,
+			Verbs:        []string{"get", "list", "create", "update", "patch", "delete", "deletecollection", "watch"},
 		},
 		HasStatus: true,
 	}, nil
-- 
2.43.0


From b82cb2ca606ecb671ab5c2e560c48837fb506583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 67/81] fix: the REST config of the API server has the right
 scheme and address

---
 pkg/apiserver/apiserver.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/apiserver/apiserver.go b/pkg/apiserver/apiserver.go
index c3e75cb..d67c504 100644
--- a/pkg/apiserver/apiserver.go
+++ b/pkg/apiserver/apiserver.go
@@ -124,8 +124,15 @@ func (s *APIServer) GetScheme() *runtime.Scheme {
 
 // GetConfig returns a REST config for accessing the API server.
 func (s *APIServer) GetConfig() *rest.Config {
+	if s.insecureListener != nil {
+		return &rest.Config{
+			Host: fmt.Sprintf("http://%s", s.GetInsecureServerAddress()),
+		}
+	}
+
 	return &rest.Config{
-		Host: fmt.Sprintf("http://%s", s.GetServerAddress()),
+		Host:            fmt.Sprintf("https://%s", s.GetServerAddress()),
+		TLSClientConfig: rest.TLSClientConfig{CAFile: s.config.CertFile},
 	}
 }
 
-- 
2.43.0


From 6b9e4e58e9c8f3d75febe2fd23e8cacaf26d7e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 68/81] fix: a kind registered several times is advertised once

---
 pkg/apiserver/registry.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/apiserver/registry.go b/pkg/apiserver/registry.go
index 3d28136..7558854 100644
--- a/pkg/apiserver/registry.go
+++ b/pkg/apiserver/registry.go
@@ -2,6 +2,7 @@ package apiserver
 
 import (
 	"fmt"
+	"slices"
 
 	apidiscoveryv2 "k8s.io/api/apidiscovery/v2"
 	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
@@ -76,6 +77,15 @@ func (s *APIServer) registerAPIGroup(group string, gvks []schema.GroupVersionKin
 		return nil
 	}
 
+	// A GVK may be given several times.
+	unique := []schema.GroupVersionKind{}
+	for _, gvk := range gvks {
+		if !slices.Contains(unique, gvk) {
+			unique = append(unique, gvk)
+		}
+	}
+	gvks = unique
+
 	// A group with no GVKs does not exist.
 	if len(gvks) == 0 {
 		s.unregisterAPIGroup(group)
-- 
2.43.0


From e69f8a78c8d7cae357eda64e704e2b82021ab8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:33 +0000
Subject: [PATCH 69/81] fix: stopped controllers drop their work queue

---
 pkg/controller/writer.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/controller/writer.go b/pkg/controller/writer.go
index 89a90d1..28bafef 100644
--- a/pkg/controller/writer.go
+++ b/pkg/controller/writer.go
@@ -58,6 +58,11 @@ func (w *deltaWriter) evaluate(ctx context.Context, req reconciler.Request, delt
 	w.mu.Lock()
 	defer w.mu.Unlock()
 
+	// The controller has been stopped: drop the rest of the work queue.
+	if ctx.Err() != nil {
+		return nil
+	}
+
 	// This is a retry: the request has already been evaluated.
 	if _, ok := w.unwritten[req]; ok {
 		return w.write(ctx, req, nil)
@@ -96,6 +101,11 @@ func (w *deltaWriter) sync(ctx context.Context, req reconciler.Request) error {
 	w.mu.Lock()
 	defer w.mu.Unlock()
 
+	// The controller has been stopped: drop the rest of the work queue.
+	if ctx.Err() != nil {
+		return nil
+	}
+
 	deltas, err := w.c.pipeline.Sync()
 	if err != nil {
 		return fmt.Errorf("error during state-of-the-world reconciliation: %w", err)
-- 
2.43.0


From bbc9c96d7bd2746b78df59bdd0dca3f760657e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:12 +0000
Subject: [PATCH 70/81] fix: the view client keeps the API group of the objects

---
 pkg/cache/view_client.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/cache/view_client.go b/pkg/cache/view_client.go
index 37413ba..a12a8b0 100644
--- a/pkg/cache/view_client.go
+++ b/pkg/cache/view_client.go
@@ -202,7 +202,8 @@ func (c *ViewCacheClient) DeleteAllOf(ctx context.Context, obj client.Object, op
 		return fmt.Errorf("object must implement object.Object interface")
 	}
 
-	list := NewViewObjectList(object.GetOperator(viewObj), viewObj.GetKind())
+	list := &unstructured.UnstructuredList{}
+	list.SetGroupVersionKind(viewObj.GroupVersionKind().GroupVersion().WithKind(viewObj.GetKind() + "List"))
 	if err := c.cache.List(ctx, list, &o.ListOptions); err != nil {
 		return err
 	}
@@ -284,7 +285,8 @@ func (sr *viewSubResourceClient) Get(ctx context.Context, obj, subResource clien
 		return errors.New("sub-resource must be an object.Object")
 	}
 
-	current := object.NewViewObject(object.GetOperator(o), o.GetKind())
+	current := object.New()
+	current.SetGroupVersionKind(o.GroupVersionKind())
 	if err := sr.client.Get(ctx, client.ObjectKeyFromObject(obj), current); err != nil {
 		return err
 	}
-- 
2.43.0


From b199fbc2633f14a34893fffb15a24ca6cff4dfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:12 +0000
Subject: [PATCH 71/81] fix: view groups are told apart from native groups
 consistently

---
 pkg/api/view/v1alpha1/group_version.go | 4 +++-
 pkg/cache/restmapper.go                | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/api/view/v1alpha1/group_version.go b/pkg/api/view/v1alpha1/group_version.go
index 1c8e43b..7f29d35 100644
--- a/pkg/api/view/v1alpha1/group_version.go
+++ b/pkg/api/view/v1alpha1/group_version.go
@@ -76,7 +76,9 @@ func GetOperator(gvk schema.GroupVersionKind) string {
 }
 
 // IsViewGroup checks whether a group belongs to a view resource.
-func IsViewGroup(group string) bool { return strings.HasSuffix(group, GroupSuffix) }
+func IsViewGroup(group string) bool {
+	return group == GroupSuffix || strings.HasSuffix(group, fullGroupSuffix)
+}
 
 // IsViewGroupVersion checks whether a group-version belongs to a view resource.
 func IsViewGroupVersion(gv schema.GroupVersion) bool {
diff --git a/pkg/cache/restmapper.go b/pkg/cache/restmapper.go
index 9d16b4b..9279f51 100644
--- a/pkg/cache/restmapper.go
+++ b/pkg/cache/restmapper.go
@@ -7,6 +7,8 @@ import (
 	"k8s.io/apimachinery/pkg/runtime/schema"
 	"k8s.io/client-go/discovery"
 	"k8s.io/client-go/restmapper"
+
+	viewv1a1 "github.com/l7mp/dcontroller/pkg/api/view/v1alpha1"
 )
 
 var _ meta.RESTMapper = &CompositeRESTMapper{}
@@ -140,5 +142,5 @@ func (m *CompositeRESTMapper) isViewGroup(group string) bool {
 		return cd.IsViewGroup(group)
 	}
 	// Fallback check
-	return group == "view.dcontroller.io"
+	return viewv1a1.IsViewGroup(group)
 }
-- 
2.43.0


From 02825aaef3f8f22b2fd581456eff7c7498894a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:12 +0000
Subject: [PATCH 72/81] fix: native kinds of groups with dots are restored from
 views

---
 pkg/api/view/v1alpha1/group_version.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/pkg/api/view/v1alpha1/group_version.go b/pkg/api/view/v1alpha1/group_version.go
index 7f29d35..9e32d02 100644
--- a/pkg/api/view/v1alpha1/group_version.go
+++ b/pkg/api/view/v1alpha1/group_version.go
@@ -3,6 +3,7 @@ package v1alpha1
 import (
 	"errors"
 	"fmt"
+	"regexp"
 	"strings"
 
 	"k8s.io/apimachinery/pkg/runtime/schema"
@@ -14,6 +15,9 @@ const (
 	Version         = "v1alpha1"
 )
 
+// versionRegexp matches the API versions of native resources.
+var versionRegexp = regexp.MustCompile(`^v[0-9]+((alpha|beta)[0-9]+)?$`)
+
 // Group returns the group for the view objects created by an operator.
 func Group(operator string) string {
 	return fmt.Sprintf("%s.%s", operator, GroupSuffix)
@@ -48,18 +52,24 @@ func MapFromView(gvk schema.GroupVersionKind) (schema.GroupVersionKind, error) {
 	if !IsViewGroup(gvk.Group) {
 		return schema.GroupVersionKind{}, errors.New("not a view resource")
 	}
-	ps := strings.SplitN(gvk.Group, ".", 3)
-	if len(ps) != 3 {
+	ps := strings.Split(strings.TrimSuffix(gvk.Group, fullGroupSuffix), ".")
+	// both the native group and the operator name may contain dots: find the version in between
+	v := len(ps) - 2
+	for v > 0 && !versionRegexp.MatchString(ps[v]) {
+		v--
+	}
+	if v <= 0 {
 		return schema.GroupVersionKind{}, errors.New("invalid view resource")
 	}
+	group := strings.Join(ps[:v], ".")
 	// un-specialcase corev1
-	if ps[0] == "core" {
-		ps[0] = ""
+	if group == "core" {
+		group = ""
 	}
 
 	return schema.GroupVersionKind{
-		Group:   ps[0],
-		Version: ps[1],
+		Group:   group,
+		Version: ps[v],
 		Kind:    gvk.Kind,
 	}, nil
 }
-- 
2.43.0


From eda2c2f9174e396568d4ca2f6a202884a9adde99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:12 +0000
Subject: [PATCH 73/81] fix: view discovery lists each version of a group and
 all verbs once

---
 pkg/cache/view_discovery.go | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/pkg/cache/view_discovery.go b/pkg/cache/view_discovery.go
index 4e0511e..502df92 100644
--- a/pkg/cache/view_discovery.go
+++ b/pkg/cache/view_discovery.go
@@ -2,6 +2,7 @@ package cache
 
 import (
 	"fmt"
+	"slices"
 	"strings"
 	"sync"
 
@@ -83,17 +84,12 @@ func (d *ViewDiscovery) ServerGroups() (*metav1.APIGroupList, error) {
 			groupVersions[gv.Group] = []metav1.GroupVersionForDiscovery{}
 		}
 
-		// Check if this version already exists
-		for _, existing := range groupVersions[gv.Group] {
-			if existing.Version == gv.Version {
-				continue
-			}
+		version := metav1.GroupVersionForDiscovery{GroupVersion: gv.String(), Version: gv.Version}
+		if slices.Contains(groupVersions[gv.Group], version) {
+			continue
 		}
 
-		groupVersions[gv.Group] = append(groupVersions[gv.Group], metav1.GroupVersionForDiscovery{
-			GroupVersion: gv.String(),
-			Version:      gv.Version,
-		})
+		groupVersions[gv.Group] = append(groupVersions[gv.Group], version)
 	}
 
 	var groups metav1.APIGroupList
@@ -262,7 +258,7 @@ func (d *ViewDiscovery) RegisterViewGVK(gvk schema.GroupVersionKind) error {
 		Kind:         gvk.Kind,
 		Group:        gvk.Group,
 		Version:      gvk.Version,
-		Verbs:        []string{"get", "list", "create", "update", "patch", "delete", "watch"},
+		Verbs:        []string{"get", "list", "create", "update", "patch", "delete", "deletecollection", "watch"},
 		Categories:   []string{"dcontroller", "views"},
 	}
 
-- 
2.43.0


From 529c5095ff4226cd02cb81fcf3f69db94cc74b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:12 +0000
Subject: [PATCH 74/81] fix: the REST mapper maps views

---
 pkg/cache/restmapper.go      |  3 +++
 pkg/cache/view_restmapper.go | 45 +++++++++++++++++++++++++++---------
 2 files changed, 37 insertions(+), 11 deletions(-)

diff --git a/pkg/cache/restmapper.go b/pkg/cache/restmapper.go
index 9279f51..6014fb4 100644
--- a/pkg/cache/restmapper.go
+++ b/pkg/cache/restmapper.go
@@ -35,6 +35,9 @@ func NewCompositeRESTMapper(compositeDiscovery discovery.DiscoveryInterface) *Co
 
 	// Create view RESTMapper
 	viewMapper := NewViewRESTMapper()
+	if d, ok := compositeDiscovery.(ViewDiscoveryInterface); ok {
+		viewMapper.discovery = d
+	}
 
 	return &CompositeRESTMapper{
 		viewMapper:   viewMapper,
diff --git a/pkg/cache/view_restmapper.go b/pkg/cache/view_restmapper.go
index b837b49..7b2126d 100644
--- a/pkg/cache/view_restmapper.go
+++ b/pkg/cache/view_restmapper.go
@@ -13,7 +13,10 @@ import (
 var _ meta.RESTMapper = &ViewRESTMapper{}
 
 // ViewRESTMapper implements meta.RESTMapper for view resources.
-type ViewRESTMapper struct{}
+type ViewRESTMapper struct {
+	// discovery tells the kinds of the registered views
+	discovery ViewDiscoveryInterface
+}
 
 // NewViewRESTMapper creates a new view REST mapper.
 func NewViewRESTMapper() *ViewRESTMapper {
@@ -22,18 +25,33 @@ func NewViewRESTMapper() *ViewRESTMapper {
 
 // KindFor returns the Kind for the given view resource.
 func (m *ViewRESTMapper) KindFor(resource schema.GroupVersionResource) (schema.GroupVersionKind, error) {
-	if viewv1a1.IsViewGroup(resource.Group) {
+	if !viewv1a1.IsViewGroup(resource.Group) {
 		return schema.GroupVersionKind{}, fmt.Errorf("not a view group: %s", resource.Group)
 	}
 
-	// Convert resource name to Kind (title case)
-	kind := strings.Title(strings.ToLower(resource.Resource)) //nolint:staticcheck
+	version := resource.Version
+	if version == "" {
+		version = viewv1a1.Version
+	}
 
-	return schema.GroupVersionKind{
+	// Convert resource name to Kind (title case)
+	name := strings.ToLower(resource.Resource)
+	gvk := schema.GroupVersionKind{
 		Group:   resource.Group,
-		Version: resource.Version,
-		Kind:    kind,
-	}, nil
+		Version: version,
+		Kind:    strings.Title(name), //nolint:staticcheck
+	}
+
+	// The resource name does not tell the case: prefer the registered kinds
+	if m.discovery != nil {
+		for _, r := range m.discovery.GetRegisteredViewGVKs() {
+			if r.GroupVersion() == gvk.GroupVersion() && m.discovery.ResourceFromKind(r.Kind) == name {
+				return r, nil
+			}
+		}
+	}
+
+	return gvk, nil
 }
 
 // KindsFor returns all Kinds for the given view resource (just one).
@@ -47,14 +65,19 @@ func (m *ViewRESTMapper) KindsFor(resource schema.GroupVersionResource) ([]schem
 
 // ResourceFor returns the Resource for the given view input.
 func (m *ViewRESTMapper) ResourceFor(input schema.GroupVersionResource) (schema.GroupVersionResource, error) {
-	if viewv1a1.IsViewGroup(input.Group) {
+	if !viewv1a1.IsViewGroup(input.Group) {
 		return schema.GroupVersionResource{}, fmt.Errorf("not a view group: %s", input.Group)
 	}
 
+	version := input.Version
+	if version == "" {
+		version = viewv1a1.Version
+	}
+
 	// For views, resource names are lowercase kinds
 	return schema.GroupVersionResource{
 		Group:    input.Group,
-		Version:  input.Version,
+		Version:  version,
 		Resource: strings.ToLower(input.Resource),
 	}, nil
 }
@@ -70,7 +93,7 @@ func (m *ViewRESTMapper) ResourcesFor(input schema.GroupVersionResource) ([]sche
 
 // RESTMapping returns the RESTMapping for the given view GroupKind.
 func (m *ViewRESTMapper) RESTMapping(gk schema.GroupKind, versions ...string) (*meta.RESTMapping, error) {
-	if viewv1a1.IsViewGroup(gk.Group) {
+	if !viewv1a1.IsViewGroup(gk.Group) {
 		return nil, fmt.Errorf("not a view group: %s", gk.Group)
 	}
 
-- 
2.43.0


From 094c42e0939c1be6b904861421b89ac6a3a6178a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:40 +0000
Subject: [PATCH 75/81] fix: only native Secrets are decoded

---
 pkg/controller/reconcilers.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pkg/controller/reconcilers.go b/pkg/controller/reconcilers.go
index 5652c40..293ccf1 100644
--- a/pkg/controller/reconcilers.go
+++ b/pkg/controller/reconcilers.go
@@ -42,12 +42,14 @@ func (r *IncrementalReconciler) Reconcile(ctx context.Context, req reconciler.Re
 		return reconcile.Result{}, nil
 	}
 
-	// Automatically decode Secret data fields for use in pipeline expressions. Make a copy: the
-	// request may be retried.
-	delta := object.Delta{
-		Type:   req.EventType,
-		Object: object.DecodeSecretData(object.DeepCopy(req.Object)),
+	// Automatically decode the data fields of native Secrets for use in pipeline expressions: the
+	// payload of views and custom resources called Secret is not encoded. Make a copy: the request
+	// may be retried.
+	obj := object.DeepCopy(req.Object)
+	if obj != nil && obj.GetObjectKind().GroupVersionKind().Group == "" {
+		obj = object.DecodeSecretData(obj)
 	}
+	delta := object.Delta{Type: req.EventType, Object: obj}
 
 	// Process the delta through the pipeline and apply the resultant deltas.
 	if err := r.controller.writer.evaluate(ctx, req, delta); err != nil {
-- 
2.43.0


From e1bb6f40437a3a7f72c15a253f8ba67d4dcbbfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:45 +0000
Subject: [PATCH 76/81] fix: concurrent requests for a group's discovery
 document do not race

---
 pkg/apiserver/codec.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/apiserver/codec.go b/pkg/apiserver/codec.go
index f3ea3ee..8e372f9 100644
--- a/pkg/apiserver/codec.go
+++ b/pkg/apiserver/codec.go
@@ -30,8 +30,10 @@ func NewCompositeCodec(defaultCodec runtime.Codec, encoder runtime.Encoder) *Com
 func (c *CompositeCodec) Encode(obj runtime.Object, w io.Writer) error {
 	// Check if object is a View or a ViewList
 	if !viewv1a1.IsViewKind(obj.GetObjectKind().GroupVersionKind()) {
-		// Not a view object, use the embedded codec's default behavior
-		return c.Codec.Encode(obj, w)
+		// Not a view object, use the embedded codec's default behavior. The codec sets the
+		// kind of the object while encoding it: make a copy, the object may be shared between
+		// concurrent requests (e.g., the discovery document of an API group).
+		return c.Codec.Encode(obj.DeepCopyObject(), w)
 	}
 
 	// Do not do any conversion, encode unstructured object as is.
-- 
2.43.0


From ba5dd5a930084a487701f3ec2f1c311c307abfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:37 +0000
Subject: [PATCH 77/81] fix: a JSONPath expression with descents selects the
 same match every time

---
 pkg/expression/jsonpath.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pkg/expression/jsonpath.go b/pkg/expression/jsonpath.go
index 948ac49..bb1a77b 100644
--- a/pkg/expression/jsonpath.go
+++ b/pkg/expression/jsonpath.go
@@ -103,6 +103,14 @@ func GetJSONPathRaw(query string, data any) (ret any, err error) {
 		return nil, err
 	}
 
+	// maps are iterated in random order and the library may miss some of the matches of a
+	// descent: make sure the same match is chosen every time
+	if isMultiMatch(je) {
+		if locs := je.Locate(data, 0); len(locs) > 0 {
+			return slices.MinFunc(locs, compareLocations).First(data), nil
+		}
+	}
+
 	// jsonpath works on implicit object context
 	values := je.Get(data)
 	if len(values) == 0 {
@@ -111,13 +119,6 @@ func GetJSONPathRaw(query string, data any) (ret any, err error) {
 		return nil, nil
 	}
 
-	// maps are iterated in random order: make sure the same match is chosen every time
-	if len(values) > 1 && isMultiMatch(je) {
-		if locs := je.Locate(data, 0); len(locs) > 0 {
-			return slices.MinFunc(locs, compareLocations).First(data), nil
-		}
-	}
-
 	return values[0], nil
 }
 
-- 
2.43.0


From a769f23ae1d2c25797bfebefcf51b2016c172ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:05 +0000
Subject: [PATCH 78/81] fix: operator diagrams show every producer and source
 of a view

---
 pkg/visualize/visualize.go | 75 +++++++++++++++++++-------------------
 1 file changed, 38 insertions(+), 37 deletions(-)

diff --git a/pkg/visualize/visualize.go b/pkg/visualize/visualize.go
index d4a829a..8d80f59 100644
--- a/pkg/visualize/visualize.go
+++ b/pkg/visualize/visualize.go
@@ -107,40 +107,34 @@ func extractPipelineStages(pipeline opv1a1.Pipeline) []string {
 
 // buildConnections identifies connections between controllers via views.
 func (g *Graph) buildConnections() {
-	// Map of view kinds to the controllers that produce them and their target type.
-	viewProducers := make(map[string]struct {
-		controller string
-		targetType string
-	})
-
-	// First pass: identify which controllers produce which views.
+	// Find controllers that consume views and create connections.
 	for _, ctrl := range g.Controllers {
-		if isView(ctrl.Target) {
-			viewKey := resourceKey(ctrl.Target)
-			viewProducers[viewKey] = struct {
-				controller string
-				targetType string
-			}{ctrl.Name, ctrl.Target.Type}
+		for _, src := range ctrl.Sources {
+			for _, producer := range g.producers(src) {
+				g.Connections = append(g.Connections, Connection{
+					FromController: producer.Name,
+					ToController:   ctrl.Name,
+					ViewKind:       src.Kind,
+					TargetType:     producer.Target.Type,
+					SourceType:     src.Type,
+				})
+			}
 		}
 	}
+}
 
-	// Second pass: find controllers that consume views and create connections.
+// producers returns the controllers that write into a view.
+func (g *Graph) producers(view ResourceRef) []ControllerNode {
+	ret := []ControllerNode{}
+	if !isView(view) {
+		return ret
+	}
 	for _, ctrl := range g.Controllers {
-		for _, src := range ctrl.Sources {
-			if isView(src) {
-				viewKey := resourceKey(src)
-				if producer, exists := viewProducers[viewKey]; exists {
-					g.Connections = append(g.Connections, Connection{
-						FromController: producer.controller,
-						ToController:   ctrl.Name,
-						ViewKind:       src.Kind,
-						TargetType:     producer.targetType,
-						SourceType:     src.Type,
-					})
-				}
-			}
+		if isView(ctrl.Target) && resourceKey(ctrl.Target) == resourceKey(view) {
+			ret = append(ret, ctrl)
 		}
 	}
+	return ret
 }
 
 // isView checks if a resource is a view (either has "View" in kind or view.dcontroller.io in group).
@@ -230,10 +224,10 @@ func BuildDotGraph(g *Graph) *dot.Graph {
 		controllerNodes[ctrl.Name] = node
 	}
 
-	// Create source nodes and edges.
+	// Create source nodes and edges (external resources and views written by no controller).
 	for _, ctrl := range g.Controllers {
 		for _, src := range ctrl.Sources {
-			if !isView(src) {
+			if !isView(src) || len(g.producers(src)) == 0 {
 				key := resourceKey(src)
 				srcNode, exists := sourceNodes[key]
 				if !exists {
@@ -296,6 +290,7 @@ func BuildDotGraph(g *Graph) *dot.Graph {
 
 	// Connect controllers via views with explicit view nodes.
 	viewNodes := make(map[string]dot.Node)
+	edges := make(map[string]bool)
 
 	for _, conn := range g.Connections {
 		fromNode, fromExists := controllerNodes[conn.FromController]
@@ -334,20 +329,26 @@ func BuildDotGraph(g *Graph) *dot.Graph {
 		if targetType == "" {
 			targetType = "Updater"
 		}
-		graph.Edge(fromNode, viewNode).
-			Attr("label", targetType).
-			Attr("fontname", "helvetica").
-			Attr("fontsize", "10")
+		if key := "from " + conn.FromController + " to " + viewKey; !edges[key] {
+			edges[key] = true
+			graph.Edge(fromNode, viewNode).
+				Attr("label", targetType).
+				Attr("fontname", "helvetica").
+				Attr("fontsize", "10")
+		}
 
 		// Create edge from view node to reader.
 		sourceType := conn.SourceType
 		if sourceType == "" {
 			sourceType = "Watcher"
 		}
-		graph.Edge(viewNode, toNode).
-			Attr("label", sourceType).
-			Attr("fontname", "helvetica").
-			Attr("fontsize", "10")
+		if key := "from " + viewKey + " to " + conn.ToController + " type " + sourceType; !edges[key] {
+			edges[key] = true
+			graph.Edge(viewNode, toNode).
+				Attr("label", sourceType).
+				Attr("fontname", "helvetica").
+				Attr("fontsize", "10")
+		}
 	}
 
 	return graph
-- 
2.43.0


From 5faa09d812536be33493cab3e987e1e5643cdbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:11 +0000
Subject: [PATCH 79/81] fix: operator diagrams show the version of core
 resources only once

---
 pkg/visualize/visualize.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pkg/visualize/visualize.go b/pkg/visualize/visualize.go
index 8d80f59..7a09d04 100644
--- a/pkg/visualize/visualize.go
+++ b/pkg/visualize/visualize.go
@@ -172,9 +172,6 @@ func FormatGVK(ref ResourceRef) string {
 		parts = append(parts, ref.Group)
 	}
 	if ref.Version != "" {
-		if ref.Group == "" {
-			parts = append(parts, "v1") // Default for core resources.
-		}
 		parts = append(parts, ref.Version)
 	}
 	parts = append(parts, ref.Kind)
-- 
2.43.0


From 9bc55377826fb4e4f96da6439929ccc1cb8e9e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:43 +0000
Subject: [PATCH 80/81] fix: serve HTTPS without authentication

An API server in HTTPS mode without authentication (dctl start --insecure
--disable-authentication) had no certificate, so every TLS handshake failed. Use
the configured certificate if there is one, otherwise generate a self-signed one.
---
 main.go                  | 8 ++++++++
 pkg/apiserver/builder.go | 7 +++++++
 2 files changed, 15 insertions(+)

diff --git a/main.go b/main.go
index d47764a..41b22c7 100644
--- a/main.go
+++ b/main.go
@@ -268,6 +268,14 @@ func runStartServer(_ *cobra.Command, cfg apiServerConfig) error {
 		// Configure authentication and authorization unless explicitly disabled or running in HTTP-only mode
 		if cfg.httpMode || cfg.disableAuthentication {
 			setupLog.Info("⚠️  WARNING: Running API server without authentication - unrestricted access enabled")
+			// Use the TLS key/cert if there is one, otherwise the server generates its own.
+			if _, err := os.Stat(cfg.certFile); !cfg.httpMode && err == nil {
+				if err := checkCert(cfg.certFile, cfg.keyFile); err != nil {
+					return fmt.Errorf("failed to load TLS key/cert: %w", err)
+				}
+				apiServerCfg.CertFile = cfg.certFile
+				apiServerCfg.KeyFile = cfg.keyFile
+			}
 		} else {
 			// Load TLS key/cert
 			if err := checkCert(cfg.certFile, cfg.keyFile); err != nil {
diff --git a/pkg/apiserver/builder.go b/pkg/apiserver/builder.go
index 3ee1941..6a25e4c 100644
--- a/pkg/apiserver/builder.go
+++ b/pkg/apiserver/builder.go
@@ -119,6 +119,13 @@ func (s *APIServer) createServerConfig() (*genericapiserver.RecommendedConfig, e
 		},
 	}
 
+	// Generate a self-signed certificate if there is none.
+	if !config.HTTPMode {
+		if err := secureServingOptions.MaybeDefaultWithSelfSignedCerts("localhost", nil, nil); err != nil {
+			return nil, fmt.Errorf("failed to generate a self-signed certificate: %w", err)
+		}
+	}
+
 	if err := secureServingOptions.ApplyTo(&config.SecureServing); err != nil {
 		return nil, fmt.Errorf("failed to apply secure serving: %w", err)
 	}
-- 
2.43.0


From 7cf4b3c77a0fdee93cd146773688f94ea0e87c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:09 +0000
Subject: [PATCH 81/81] fix: print labels in a deterministic order in tables

---
 pkg/apiserver/storage.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/apiserver/storage.go b/pkg/apiserver/storage.go
index cb45e27..444b834 100644
--- a/pkg/apiserver/storage.go
+++ b/pkg/apiserver/storage.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"errors"
 	"fmt"
+	"sort"
 	"strings"
 
 	"github.com/go-logr/logr"
@@ -654,6 +655,7 @@ func formatLabels(labels map[string]string) string {
 	for k, v := range labels {
 		pairs = append(pairs, fmt.Sprintf("%s=%s", k, v))
 	}
+	sort.Strings(pairs) // the order of map keys is random
 
 	// Limit display to avoid excessive width.
 	if len(pairs) > 3 {
-- 
2.43.0

