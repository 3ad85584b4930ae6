From ac3938d56da4ef736cc7dcf63fd23206c9e9125e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:50:31 +0000
Subject: [PATCH 01/26] fix: parse nested parentheses in linear time

The grammar retries each clause when an OR or AND does not follow it.
Without memoization this reparses every parenthesized group four times
per nesting level, so nine levels already take many seconds.
---
 parser/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 3b33f72..e5ffee0 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -26,7 +26,9 @@ func ParseQueryReader(r io.Reader, options ...Option) (ast.Node, error) {
 	for _, o := range options {
 		o(opts)
 	}
-	v, err := grammar.ParseReader("", r, grammar.Debug(opts.debug))
+	// Memoization keeps parsing linear: without it every level of parentheses is
+	// reparsed several times, which is exponential in the nesting depth.
+	v, err := grammar.ParseReader("", r, grammar.Debug(opts.debug), grammar.Memoize(true))
 	if err != nil {
 		return nil, grammar.GetParseError(err)
 	}
-- 
2.43.0


From 7b83cf4b27771f1f3119d98f82b178314fe776b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:50:32 +0000
Subject: [PATCH 02/26] fix: fail the parse when a message visitor records an
 error

The tape only stored the first error if one was already stored, so it was
never set and errors recorded by a visitor were ignored.
---
 parser/visitors.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/visitors.go b/parser/visitors.go
index 4128a75..e8ed4a2 100644
--- a/parser/visitors.go
+++ b/parser/visitors.go
@@ -166,7 +166,7 @@ func (mt *MessageTape) ErrorAt(where ast.Pos, msg string, v ...any) {
 
 func (mt *MessageTape) addMsg(msgType MessageType, where ast.Pos, msg string, v ...any) {
 	pmsg := newMessage(msgType, where, fmt.Sprintf(msg, v...))
-	if msgType == MsgError && mt.firstErr != nil {
+	if msgType == MsgError && mt.firstErr == nil {
 		mt.firstErr = pmsg
 	}
 	mt.messages = append(mt.messages, newMessage(msgType, where, fmt.Sprintf(msg, v...)))
-- 
2.43.0


From d3049b3736cdb4d89536fafabb75abec075b1bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:50:34 +0000
Subject: [PATCH 03/26] fix: include child nodes in match statistics

AND, OR and NOT nodes reported their own counts but dropped the counts of
everything below them.
---
 jsonmatcher/nodes.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jsonmatcher/nodes.go b/jsonmatcher/nodes.go
index 1aff22c..eeaf500 100644
--- a/jsonmatcher/nodes.go
+++ b/jsonmatcher/nodes.go
@@ -24,7 +24,7 @@ func (a *andNode) result(root []byte) bool {
 }
 
 func (a *andNode) stats() *MatchStats {
-	return a.nodeStats.toStatsNode()
+	return a.nodeStats.toStatsNode(a.left, a.right)
 }
 
 type orNode struct {
@@ -41,7 +41,7 @@ func (o *orNode) result(root []byte) bool {
 }
 
 func (o *orNode) stats() *MatchStats {
-	return o.nodeStats.toStatsNode()
+	return o.nodeStats.toStatsNode(o.left, o.right)
 }
 
 type notNode struct {
@@ -58,7 +58,7 @@ func (n *notNode) result(root []byte) bool {
 }
 
 func (n *notNode) stats() *MatchStats {
-	return n.nodeStats.toStatsNode()
+	return n.nodeStats.toStatsNode(n.sub)
 }
 
 // type subdocNode struct {
-- 
2.43.0


From df3132c3cd75b64a6d9e7acc7b1ea39392a87f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:50:58 +0000
Subject: [PATCH 04/26] fix: reject fields made only of stars, keep quoted
 stars

A query such as *:1 produced an empty path, and matching it panicked.
Quoted "*" pieces name a real key and are no longer dropped.
---
 internal/grammar/aql.peg       | 36 +++++++++++++---------------------
 internal/grammar/parser_gen.go | 36 +++++++++++++---------------------
 2 files changed, 28 insertions(+), 44 deletions(-)

diff --git a/internal/grammar/aql.peg b/internal/grammar/aql.peg
index 963e117..b9e9f10 100644
--- a/internal/grammar/aql.peg
+++ b/internal/grammar/aql.peg
@@ -152,25 +152,15 @@ func toString(label any) (string, error) {
 	}
 	return sb.String(), nil
 }
-// helper methods to remove legacy star syntax
-func removeStars(ss []string) []string {
-	for {
-		i := findStarIdx(ss)
-		if i < 0 {
-			break
-		}
-		ss = append(ss[:i], ss[i+1:]...)
-	}
-	return ss
-}
+// helper type and method to remove legacy star syntax, without touching quoted
+// field pieces that happen to be "*"
+type star struct{}
 
-func findStarIdx(ss []string) int {
-	for i, s := range ss {
-		if s == "*" {
-			return i
-		}
+func appendPiece(field []string, piece any) []string {
+	if _, ok := piece.(star); ok {
+		return field
 	}
-	return -1
+	return append(field, piece.(string))
 }
 }
 
@@ -257,14 +247,16 @@ Field <- pieces:(FieldPiece ('.' FieldPiece)*) {
         return nil, fmt.Errorf("empty field")
     }
     // remove stars for now, they are redundant legacy syntax
-    field := []string{piecesSl[0].(string)}
+    field := appendPiece(nil, piecesSl[0])
     restSl := toAny(piecesSl[1])
     for _, v := range restSl {
         vSl := toAny(v)
-        field = append(field, vSl[1].(string))
+        field = appendPiece(field, vSl[1])
     }
-
-    return removeStars(field), nil
+    if len(field) == 0 {
+        return nil, fmt.Errorf("empty field")
+    }
+    return field, nil
 }
 
 FieldPiece <- QuotedFieldPiece / UnquotedFieldPiece / Star
@@ -280,7 +272,7 @@ QuotedFieldPiece <- qv:QuotedValue {
 
 // TODO: Remove Star
 Star <- '*' {
-    return "*", nil
+    return star{}, nil
 }
 
 /*****
diff --git a/internal/grammar/parser_gen.go b/internal/grammar/parser_gen.go
index b02745d..34c915f 100644
--- a/internal/grammar/parser_gen.go
+++ b/internal/grammar/parser_gen.go
@@ -165,25 +165,15 @@ func toString(label any) (string, error) {
 	return sb.String(), nil
 }
 
-// helper methods to remove legacy star syntax
-func removeStars(ss []string) []string {
-	for {
-		i := findStarIdx(ss)
-		if i < 0 {
-			break
-		}
-		ss = append(ss[:i], ss[i+1:]...)
-	}
-	return ss
-}
+// helper type and method to remove legacy star syntax, without touching quoted
+// field pieces that happen to be "*"
+type star struct{}
 
-func findStarIdx(ss []string) int {
-	for i, s := range ss {
-		if s == "*" {
-			return i
-		}
+func appendPiece(field []string, piece any) []string {
+	if _, ok := piece.(star); ok {
+		return field
 	}
-	return -1
+	return append(field, piece.(string))
 }
 
 var g = &grammar{
@@ -1991,14 +1981,16 @@ func (c *current) onField1(pieces interface{}) (interface{}, error) {
 		return nil, fmt.Errorf("empty field")
 	}
 	// remove stars for now, they are redundant legacy syntax
-	field := []string{piecesSl[0].(string)}
+	field := appendPiece(nil, piecesSl[0])
 	restSl := toAny(piecesSl[1])
 	for _, v := range restSl {
 		vSl := toAny(v)
-		field = append(field, vSl[1].(string))
+		field = appendPiece(field, vSl[1])
 	}
-
-	return removeStars(field), nil
+	if len(field) == 0 {
+		return nil, fmt.Errorf("empty field")
+	}
+	return field, nil
 }
 
 func (p *parser) callonField1() (interface{}, error) {
@@ -2029,7 +2021,7 @@ func (p *parser) callonQuotedFieldPiece1() (interface{}, error) {
 }
 
 func (c *current) onStar1() (interface{}, error) {
-	return "*", nil
+	return star{}, nil
 }
 
 func (p *parser) callonStar1() (interface{}, error) {
-- 
2.43.0


From 7200326ae10dc2138acebe4d08162bcab09fc8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:51:18 +0000
Subject: [PATCH 05/26] fix: keep slashes and backslashes of regular
 expressions

Escaped slashes at either end of an expression were trimmed away with the
delimiters, so /\/api\// meant /api/. An escaped backslash before the closing
slash was broken by the slash unescaping and reported as a syntax error.
---
 internal/grammar/aql.peg       | 1 -
 internal/grammar/parser_gen.go | 1 -
 parser/ast/ast.go              | 4 +++-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/grammar/aql.peg b/internal/grammar/aql.peg
index b9e9f10..2a40135 100644
--- a/internal/grammar/aql.peg
+++ b/internal/grammar/aql.peg
@@ -333,7 +333,6 @@ ValueChars <- [a-zA-Z0-9 !]
 
 RegexValue <- '/' RegexChar* EndingSlash {
     pos := getpos(c)
-    c.text = bytes.Replace(c.text, []byte(`\/`), []byte(`/`), -1)
     val, err := ast.NewRegexpVal(c.text, pos)
     if err != nil {
         return nil, tokErr(pos, err)
diff --git a/internal/grammar/parser_gen.go b/internal/grammar/parser_gen.go
index 34c915f..4caf7f2 100644
--- a/internal/grammar/parser_gen.go
+++ b/internal/grammar/parser_gen.go
@@ -2099,7 +2099,6 @@ func (p *parser) callonQuotedValue2() (interface{}, error) {
 
 func (c *current) onRegexValue2() (interface{}, error) {
 	pos := getpos(c)
-	c.text = bytes.Replace(c.text, []byte(`\/`), []byte(`/`), -1)
 	val, err := ast.NewRegexpVal(c.text, pos)
 	if err != nil {
 		return nil, tokErr(pos, err)
diff --git a/parser/ast/ast.go b/parser/ast/ast.go
index bb7be02..91ca81c 100644
--- a/parser/ast/ast.go
+++ b/parser/ast/ast.go
@@ -339,7 +339,9 @@ type RegexpVal struct {
 
 func NewRegexpVal(b []byte, pos Pos) (*RegexpVal, error) {
 	sv := string(b)
-	rv, err := regexp.Compile(strings.Trim(sv, `/`))
+	// only the delimiters are removed, slashes of the expression itself are
+	// escaped, which the regexp package accepts as is
+	rv, err := regexp.Compile(strings.TrimSuffix(strings.TrimPrefix(sv, `/`), `/`))
 	if err != nil {
 		return nil, fmt.Errorf("invalid regular expression [%s]: %v", sv, err)
 	}
-- 
2.43.0


From a0a9f2c3309bfe062220344c063601be5496a1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:51:20 +0000
Subject: [PATCH 06/26] fix: accept every RFC3339 datetime spelling the grammar
 allows

The grammar accepts a lowercase t or z and a space as date/time separator, but
the value was then rejected as an invalid datetime with an empty message.
---
 parser/ast/ast.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/ast/ast.go b/parser/ast/ast.go
index 91ca81c..2979f65 100644
--- a/parser/ast/ast.go
+++ b/parser/ast/ast.go
@@ -432,7 +432,9 @@ func NewTimeVal(b []byte, pos Pos) (*TimeVal, error) {
 		tv, err = time.Parse(`2006-01-02`, sv)
 		dayOnly = true
 	} else {
-		tv, err = time.Parse(time.RFC3339, sv)
+		// RFC3339 also allows a lowercase 't' and 'z', or a space between date
+		// and time, which time.Parse does not.
+		tv, err = time.Parse(time.RFC3339, strings.Replace(strings.ToUpper(sv), ` `, `T`, 1))
 	}
 	var message string
 	if err != nil {
-- 
2.43.0


From 4a4a2ec21a2b664155685a4dcf406f1c27d0a595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:51:22 +0000
Subject: [PATCH 07/26] fix: reject a between of a number and a datetime

The datetime was compared as if it were 0, so field:><(-1, 2020-01-01) was
accepted and silently meant between -1 and 0.
---
 parser/validators.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/validators.go b/parser/validators.go
index a7400f5..e68ba21 100644
--- a/parser/validators.go
+++ b/parser/validators.go
@@ -142,6 +142,10 @@ func checkBetween(e *ast.ExprNode) *ParseError {
 		return nil
 	}
 
+	if e.RVals[1].Type() == ast.TypeTime {
+		return ErrorAt(e.RVals[1].Pos(), "second argument must also be a numeric value")
+	}
+
 	var l, r float64
 	switch lnv := e.RVals[0].(type) {
 	case *ast.IntVal:
-- 
2.43.0


From 11cdaab2f26f0439bdd8c6ae7c3db3c2923dc121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:51:49 +0000
Subject: [PATCH 08/26] fix: compare datetimes beyond the int64 nanosecond
 range

Datetimes were compared as nanoseconds since the epoch, which overflows
before 1678 and after 2262, so date:<2300-01-01 did not match a date in 2000.
---
 jsonmatcher/expr_between.go  |  7 ++++---
 jsonmatcher/expr_datetime.go | 15 ++++++++-------
 jsonmatcher/expr_eq.go       |  8 ++++----
 jsonmatcher/expr_numeric.go  |  3 ++-
 jsonmatcher/json_values.go   |  9 +++++----
 5 files changed, 23 insertions(+), 19 deletions(-)

diff --git a/jsonmatcher/expr_between.go b/jsonmatcher/expr_between.go
index 7605a14..4a7ede8 100644
--- a/jsonmatcher/expr_between.go
+++ b/jsonmatcher/expr_between.go
@@ -2,6 +2,7 @@ package jsonmatcher
 
 import (
 	"fmt"
+	"time"
 
 	"github.com/flowchartsman/aql/parser/ast"
 )
@@ -37,9 +38,9 @@ func exprBetween(RVals []ast.Val) fieldExpr {
 		// datetime between
 		// 2nd argument guaranteed by validator
 		return &exprDatetime{
-			values: [2]int64{
-				RVals[0].(*ast.TimeVal).Value().UnixNano(),
-				RVals[1].(*ast.TimeVal).Value().UnixNano(),
+			values: [2]time.Time{
+				RVals[0].(*ast.TimeVal).Value(),
+				RVals[1].(*ast.TimeVal).Value(),
 			},
 			op: ast.BET,
 		}
diff --git a/jsonmatcher/expr_datetime.go b/jsonmatcher/expr_datetime.go
index bd45ecc..a4adf90 100644
--- a/jsonmatcher/expr_datetime.go
+++ b/jsonmatcher/expr_datetime.go
@@ -2,12 +2,13 @@ package jsonmatcher
 
 import (
 	"fmt"
+	"time"
 
 	"github.com/flowchartsman/aql/parser/ast"
 )
 
 type exprDatetime struct {
-	values [2]int64
+	values [2]time.Time
 	op     ast.Op
 }
 
@@ -19,27 +20,27 @@ func (e *exprDatetime) matches(field *field) bool {
 		}
 		switch e.op {
 		case ast.EQ:
-			if dv == e.values[0] {
+			if dv.Equal(e.values[0]) {
 				return true
 			}
 		case ast.LT:
-			if dv < e.values[0] {
+			if dv.Before(e.values[0]) {
 				return true
 			}
 		case ast.LTE:
-			if dv <= e.values[0] {
+			if !dv.After(e.values[0]) {
 				return true
 			}
 		case ast.GT:
-			if dv > e.values[0] {
+			if dv.After(e.values[0]) {
 				return true
 			}
 		case ast.GTE:
-			if dv >= e.values[0] {
+			if !dv.Before(e.values[0]) {
 				return true
 			}
 		case ast.BET:
-			if dv >= e.values[0] && dv <= e.values[1] {
+			if !dv.Before(e.values[0]) && !dv.After(e.values[1]) {
 				return true
 			}
 		// backstop
diff --git a/jsonmatcher/expr_eq.go b/jsonmatcher/expr_eq.go
index 4f8433c..55b4012 100644
--- a/jsonmatcher/expr_eq.go
+++ b/jsonmatcher/expr_eq.go
@@ -44,17 +44,17 @@ func exprEQ(RVals []ast.Val) []fieldExpr {
 			})
 		case *ast.TimeVal:
 			if rval.DayOnly() {
-				endOfDay := rval.Value().Add(24*time.Hour).UnixNano() - 1
+				endOfDay := rval.Value().Add(24*time.Hour - 1)
 				matchers = append(matchers, &exprDatetime{
-					values: [2]int64{
-						rval.Value().UnixNano(),
+					values: [2]time.Time{
+						rval.Value(),
 						endOfDay,
 					},
 					op: ast.BET,
 				})
 			} else {
 				matchers = append(matchers, &exprDatetime{
-					values: [2]int64{rval.Value().UnixNano()},
+					values: [2]time.Time{rval.Value()},
 					op:     ast.EQ,
 				})
 			}
diff --git a/jsonmatcher/expr_numeric.go b/jsonmatcher/expr_numeric.go
index e5273d5..e0480d9 100644
--- a/jsonmatcher/expr_numeric.go
+++ b/jsonmatcher/expr_numeric.go
@@ -2,6 +2,7 @@ package jsonmatcher
 
 import (
 	"fmt"
+	"time"
 
 	"github.com/flowchartsman/aql/parser/ast"
 )
@@ -24,7 +25,7 @@ func exprNumeric(op ast.Op, RVals []ast.Val) fieldExpr {
 		}
 	case *ast.TimeVal:
 		return &exprDatetime{
-			values: [2]int64{v.Value().UnixNano()},
+			values: [2]time.Time{v.Value()},
 			op:     op,
 		}
 	default:
diff --git a/jsonmatcher/json_values.go b/jsonmatcher/json_values.go
index 547400a..6dde882 100644
--- a/jsonmatcher/json_values.go
+++ b/jsonmatcher/json_values.go
@@ -4,6 +4,7 @@ import (
 	"math"
 	"regexp"
 	"strconv"
+	"time"
 
 	"github.com/araddon/dateparse"
 	"github.com/buger/jsonparser"
@@ -154,19 +155,19 @@ func getBoolVal(v jsonValue) (boolVal bool, found bool) {
 	return false, false
 }
 
-func getDatetimeVal(v jsonValue) (intVal int64, found bool) {
+func getDatetimeVal(v jsonValue) (timeVal time.Time, found bool) {
 	// TODO: tighten this up for numstrings. Probably want to be more careful
 	// about what we consider a date with how flexible dateparse is. Maybe a
 	// special getStringVal() that only accepts int-like unix epochs.
 	sv, ok := getStringVal(v)
 	if !ok {
-		return 0, false
+		return time.Time{}, false
 	}
 	t, err := dateparse.ParseAny(sv)
 	if err != nil {
-		return 0, false
+		return time.Time{}, false
 	}
-	return t.UnixNano(), true
+	return t, true
 }
 
 // true:
-- 
2.43.0


From 497c422305d80f656109dcc760cdff699cc174e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:51:50 +0000
Subject: [PATCH 09/26] fix: decode escapes in numeric strings

A string may spell its digits with \u escapes, but its raw bytes were parsed as the
number, so it did not compare like the same string spelled "1".
---
 jsonmatcher/json_values.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/jsonmatcher/json_values.go b/jsonmatcher/json_values.go
index 6dde882..485ba86 100644
--- a/jsonmatcher/json_values.go
+++ b/jsonmatcher/json_values.go
@@ -133,15 +133,24 @@ func getStringVal(v jsonValue) (stringVal string, isStringy bool) {
 }
 
 func getNumberVal(v jsonValue) (floatVal float64, isNumeric bool) {
+	data := v.data
 	switch v.dataType {
-	case jsonparser.String, jsonparser.Number:
-		fv, err := jsonparser.ParseFloat(v.data)
+	case jsonparser.String:
+		// the string may spell its digits with escapes
+		sv, err := jsonparser.ParseString(data)
 		if err != nil {
 			return math.NaN(), false
 		}
-		return fv, true
+		data = []byte(sv)
+	case jsonparser.Number:
+	default:
+		return math.NaN(), false
+	}
+	fv, err := jsonparser.ParseFloat(data)
+	if err != nil {
+		return math.NaN(), false
 	}
-	return math.NaN(), false
+	return fv, true
 }
 
 func getBoolVal(v jsonValue) (boolVal bool, found bool) {
-- 
2.43.0


From 161a5dc052f8bcf5801713a2c85ba66a2b1c907e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:51:52 +0000
Subject: [PATCH 10/26] fix: look at the type of the document root before
 resolving a path

The root was assumed to be an object. With an array root, a field named ""
panicked, a field named "[0]" was taken as an index, and the objects in the
array were not traversed like those of any other array.
---
 jsonmatcher/json_values.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsonmatcher/json_values.go b/jsonmatcher/json_values.go
index 485ba86..776dd09 100644
--- a/jsonmatcher/json_values.go
+++ b/jsonmatcher/json_values.go
@@ -22,7 +22,9 @@ type field struct {
 
 // TODO: cache paths
 func getField(path []string, root []byte) *field {
-	values := getValues(path, root, jsonparser.Object)
+	// the root is not necessarily an object
+	doc, rootType, _, _ := jsonparser.Get(root)
+	values := getValues(path, doc, rootType)
 	return &field{
 		values: values,
 	}
-- 
2.43.0


From e39eeb3d2b4dc4e03fbe65309d83312b87f15944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:52:26 +0000
Subject: [PATCH 11/26] fix: match string terms that begin or end with
 punctuation

A word boundary was required at both ends of every ASCII term. Next to
punctuation it can only hold inside a word, so the documented example
level3:"here!" did not match the value "here!", and an empty term did not
match an empty string.
---
 jsonmatcher/str_matchers.go | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/jsonmatcher/str_matchers.go b/jsonmatcher/str_matchers.go
index 3a72a61..5926941 100644
--- a/jsonmatcher/str_matchers.go
+++ b/jsonmatcher/str_matchers.go
@@ -30,7 +30,7 @@ func stringSearchRegexp(wcString string) *regexp.Regexp {
 	var buf bytes.Buffer
 	buf.WriteString(`(?i)`)
 	asciiOnly := isASCII(wcString)
-	if asciiOnly {
+	if asciiOnly && startsWithWord(wcRunes) {
 		buf.WriteString(`\b`)
 	}
 	var accum bytes.Buffer
@@ -61,12 +61,39 @@ func stringSearchRegexp(wcString string) *regexp.Regexp {
 	}
 	// write whatever remains in the accumulator
 	buf.WriteString(regexp.QuoteMeta(accum.String()))
-	if asciiOnly {
+	if asciiOnly && endsWithWord(wcRunes) {
 		buf.WriteString(`\b`)
 	}
 	return regexp.MustCompile(buf.String())
 }
 
+// word boundaries only make sense next to word characters or wildcards. Requiring
+// one next to anything else would keep terms such as "here!" from matching even
+// themselves.
+func startsWithWord(term []rune) bool {
+	return len(term) > 0 && (isWordRune(term[0]) || isWildcard(term[0]))
+}
+
+func endsWithWord(term []rune) bool {
+	if len(term) == 0 {
+		return false
+	}
+	last := len(term) - 1
+	if isWildcard(term[last]) {
+		escaped := last > 0 && term[last-1] == '\\'
+		return !escaped
+	}
+	return isWordRune(term[last])
+}
+
+func isWordRune(r rune) bool {
+	return r == '_' || '0' <= r && r <= '9' || 'a' <= r && r <= 'z' || 'A' <= r && r <= 'Z'
+}
+
+func isWildcard(r rune) bool {
+	return r == '?' || r == '*'
+}
+
 type unicodeMatcher struct {
 	pat *search.Pattern
 }
-- 
2.43.0


From 8d48224a27c9a68ab63f1b1a390d96f0d069f776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:52:27 +0000
Subject: [PATCH 12/26] fix: do not lowercase wildcard terms

The expression built from the term is already case-insensitive. Lowercasing
the term first loses letters such as the dotted capital I, so that the term
no longer matched itself.
---
 jsonmatcher/str_matchers.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/jsonmatcher/str_matchers.go b/jsonmatcher/str_matchers.go
index 5926941..824660d 100644
--- a/jsonmatcher/str_matchers.go
+++ b/jsonmatcher/str_matchers.go
@@ -25,7 +25,6 @@ func getStringMatcher(str string) fieldExpr {
 
 // todo: replace runs of spaces or handle spaces specially somehow?
 func stringSearchRegexp(wcString string) *regexp.Regexp {
-	wcString = strings.ToLower(wcString)
 	wcRunes := []rune(wcString)
 	var buf bytes.Buffer
 	buf.WriteString(`(?i)`)
-- 
2.43.0


From be373b18a590cf795681a39f61f9bca1baac289c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:55:11 +0000
Subject: [PATCH 13/26] fix: sample documents surrounded by whitespace, reject
 empty ones

An empty sample panicked, and a well-formed document followed by a newline was
reported as unterminated.
---
 sampler/sampler.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sampler/sampler.go b/sampler/sampler.go
index 2f6e8a8..6430b05 100644
--- a/sampler/sampler.go
+++ b/sampler/sampler.go
@@ -2,6 +2,8 @@ package sampler
 
 import (
 	"bytes"
+	"encoding/json"
+	"errors"
 	"fmt"
 
 	"github.com/buger/jsonparser"
@@ -39,6 +41,10 @@ func New(maxDepth int) *Sampler {
 
 func (s *Sampler) Sample(sample []byte) error {
 	var rootObj jsonparser.ValueType
+	sample = bytes.TrimLeft(sample, " \t\r\n")
+	if len(sample) == 0 {
+		return errors.New("sample is empty")
+	}
 	sampleLen := len(sample)
 	// prep to get 100 characters or so to print if it looks weird, so that
 	// there's something to examine in the logs
@@ -47,12 +53,12 @@ func (s *Sampler) Sample(sample []byte) error {
 	}
 	switch sample[0] {
 	case '{':
-		if sample[len(sample)-1] != '}' {
+		if sample[len(sample)-1] != '}' && !json.Valid(sample) {
 			return fmt.Errorf("unterminated JSON object: %s", string(sample[:sampleLen]))
 		}
 		rootObj = jsonparser.Object
 	case '[':
-		if sample[len(sample)-1] != ']' {
+		if sample[len(sample)-1] != ']' && !json.Valid(sample) {
 			return fmt.Errorf("unterminated JSON array: %s", string(sample[:sampleLen]))
 		}
 		rootObj = jsonparser.Array
-- 
2.43.0


From 61fd47cf5d4c08f7963bb463506e97476923e82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:55:12 +0000
Subject: [PATCH 14/26] fix: treat a negative sampling depth as no limit

It is documented as such, but no keys at all were recorded.
---
 sampler/sampler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampler/sampler.go b/sampler/sampler.go
index 6430b05..f2c023c 100644
--- a/sampler/sampler.go
+++ b/sampler/sampler.go
@@ -79,7 +79,7 @@ func (s *Sampler) Sample(sample []byte) error {
 }
 
 func (s *Sampler) sample(current []byte, path *bytes.Buffer, depth int, valType jsonparser.ValueType) error {
-	if depth > s.maxDepth {
+	if s.maxDepth >= 0 && depth > s.maxDepth {
 		return nil
 	}
 	switch valType {
-- 
2.43.0


From cae0ab8b4ac3d6144e8d3ebf05032ce33e554cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:55:14 +0000
Subject: [PATCH 15/26] fix: do not panic on scalars in a root array

They are not reached by any key, so there is no path to record.
---
 sampler/sampler.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sampler/sampler.go b/sampler/sampler.go
index f2c023c..77bf120 100644
--- a/sampler/sampler.go
+++ b/sampler/sampler.go
@@ -121,6 +121,10 @@ func (s *Sampler) sample(current []byte, path *bytes.Buffer, depth int, valType
 	case jsonparser.Unknown:
 		return fmt.Errorf("unkown JSON value type: %v", string(current))
 	default:
+		if path.Len() == 0 {
+			// scalars in a root array have no key
+			return nil
+		}
 		// TODO Track types found for UI hinting
 		s.keys[path.String()[1:]]++
 	}
-- 
2.43.0


From e01c4a98894510b7d4a5cb11fce83e0be2183eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:55:15 +0000
Subject: [PATCH 16/26] fix: count each key path once per successfully sampled
 document

A rejected document threw away everything sampled before it and made the next
sample panic. A path that occurs several times in one document was counted
several times, so that rare paths passed a threshold of documents.
---
 sampler/sampler.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/sampler/sampler.go b/sampler/sampler.go
index 77bf120..9ac7aa9 100644
--- a/sampler/sampler.go
+++ b/sampler/sampler.go
@@ -68,17 +68,20 @@ func (s *Sampler) Sample(sample []byte) error {
 	// prep initial sampling state
 	depth := 0
 	path := &bytes.Buffer{} // todo: share
-	err := s.sample(sample, path, depth, rootObj)
+	found := make(map[string]struct{})
+	err := s.sample(sample, path, depth, rootObj, found)
 	if err != nil {
-		s.keys = nil
 		return err
 	}
+	for key := range found {
+		s.keys[key]++
+	}
 
 	s.totalDocs++
 	return nil
 }
 
-func (s *Sampler) sample(current []byte, path *bytes.Buffer, depth int, valType jsonparser.ValueType) error {
+func (s *Sampler) sample(current []byte, path *bytes.Buffer, depth int, valType jsonparser.ValueType, found map[string]struct{}) error {
 	if s.maxDepth >= 0 && depth > s.maxDepth {
 		return nil
 	}
@@ -94,7 +97,7 @@ func (s *Sampler) sample(current []byte, path *bytes.Buffer, depth int, valType
 			} else {
 				path.Write(key)
 			}
-			if err := s.sample(value, path, depth+1, dataType); err != nil {
+			if err := s.sample(value, path, depth+1, dataType, found); err != nil {
 				return err
 			}
 			path.Truncate(pl)
@@ -112,7 +115,7 @@ func (s *Sampler) sample(current []byte, path *bytes.Buffer, depth int, valType
 			if dataType == jsonparser.Array {
 				return
 			}
-			aerr = s.sample(value, path, depth, dataType)
+			aerr = s.sample(value, path, depth, dataType, found)
 		})
 		if err == nil {
 			err = aerr
@@ -126,7 +129,7 @@ func (s *Sampler) sample(current []byte, path *bytes.Buffer, depth int, valType
 			return nil
 		}
 		// TODO Track types found for UI hinting
-		s.keys[path.String()[1:]]++
+		found[path.String()[1:]] = struct{}{}
 	}
 	return nil
 }
-- 
2.43.0


From f8b1f605234124be6d5f601a18e0efb105d63eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:56:04 +0000
Subject: [PATCH 17/26] fix: quote sampled keys that are not plain field names

Only keys containing spaces were quoted. Keys with dots, quotes, stars,
control characters and the like gave paths that are not valid AQL fields or
that name a different key.
---
 sampler/sampler.go | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/sampler/sampler.go b/sampler/sampler.go
index 9ac7aa9..acce0a7 100644
--- a/sampler/sampler.go
+++ b/sampler/sampler.go
@@ -90,12 +90,10 @@ func (s *Sampler) sample(current []byte, path *bytes.Buffer, depth int, valType
 		pl := path.Len()
 		return jsonparser.ObjectEach(current, func(key []byte, value []byte, dataType jsonparser.ValueType, _ int) error {
 			path.WriteString(".")
-			if bytes.ContainsAny(key, " ") {
-				path.WriteString(`"`)
+			if plainKey(key) {
 				path.Write(key)
-				path.WriteString(`"`)
 			} else {
-				path.Write(key)
+				path.Write(quoteKey(key))
 			}
 			if err := s.sample(value, path, depth+1, dataType, found); err != nil {
 				return err
@@ -134,6 +132,27 @@ func (s *Sampler) sample(current []byte, path *bytes.Buffer, depth int, valType
 	return nil
 }
 
+// plainKey is true if an AQL field can name the key without quoting it
+func plainKey(key []byte) bool {
+	for _, c := range key {
+		switch {
+		case 'a' <= c && c <= 'z', 'A' <= c && c <= 'Z', '0' <= c && c <= '9', c == '_', c == '-':
+		default:
+			return false
+		}
+	}
+	return len(key) > 0
+}
+
+// quoteKey returns the key as a quoted piece of an AQL field
+func quoteKey(key []byte) []byte {
+	var buf bytes.Buffer
+	enc := json.NewEncoder(&buf)
+	enc.SetEscapeHTML(false)
+	enc.Encode(string(key)) // cannot fail for a string
+	return bytes.TrimSuffix(buf.Bytes(), []byte("\n"))
+}
+
 func (s *Sampler) Keys() []string {
 	out := make([]string, 0, len(s.keys))
 	for key := range s.keys {
-- 
2.43.0


From 8ac2d1e1f8dc1f57e63469ea23d20f2d1661bd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:57:01 +0000
Subject: [PATCH 18/26] fix: highlight the right characters of a formatted
 query

Positions count bytes but were used to index characters, so that queries with
multi-byte characters were marked in the wrong place. Errors at the end of the
query made QueryHL and QueryPost fail. The excerpt of a long query could be
shorter than the limit, miss the token or be out of range; it is now always a
window of exactly that many characters around the token.
---
 parser/fmtmsg/formatter.go | 30 +++++++++++++++---
 parser/fmtmsg/truncate.go  | 64 +++++---------------------------------
 2 files changed, 32 insertions(+), 62 deletions(-)

diff --git a/parser/fmtmsg/formatter.go b/parser/fmtmsg/formatter.go
index f22745a..997e860 100644
--- a/parser/fmtmsg/formatter.go
+++ b/parser/fmtmsg/formatter.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"strings"
 	ttemplate "text/template"
+	"unicode/utf8"
 
 	"github.com/flowchartsman/aql/parser"
 	"github.com/flowchartsman/aql/parser/ast"
@@ -60,6 +61,7 @@ func NewFormatter(tmpl string, html bool, maxWidth int) (*Formatter, error) {
 func (f *Formatter) WithQuery(query string) *Printer {
 	return &Printer{
 		formatter: f,
+		text:      query,
 		query:     []rune(query),
 	}
 }
@@ -67,6 +69,7 @@ func (f *Formatter) WithQuery(query string) *Printer {
 // Printer prints messages for a given query.
 type Printer struct {
 	formatter *Formatter
+	text      string
 	query     []rune
 }
 
@@ -107,6 +110,12 @@ func (p *Printer) getPrintData(m Message) *printData {
 			pData.msgType = msgInfo
 		}
 	}
+	if pData.HasHL {
+		// positions count bytes, and may lie just past the end of the query
+		offset := min(max(pData.pos.Offset, 0), len(p.text))
+		pData.hlStart = utf8.RuneCountInString(p.text[:offset])
+		pData.hlEnd = min(pData.hlStart+max(pData.pos.Len, 0), len(p.query))
+	}
 	if p.formatter.maxwidth > 0 {
 		truncate(pData, p.formatter.maxwidth)
 	}
@@ -128,20 +137,31 @@ type printData struct {
 	Message string
 	HasHL   bool
 	pos     ast.Pos
+	hlStart int
+	hlEnd   int
 	lo      int
 	ro      int
 }
 
+// hlShown returns the end of the part of the highlight which is shown
+func (m *printData) hlShown() int {
+	return min(m.hlEnd, m.ro)
+}
+
 func (m *printData) Type() string {
 	return string(m.msgType)
 }
 
 func (m *printData) HLLen() int {
-	return m.pos.Len
+	if !m.HasHL {
+		return 0
+	}
+	// there is nothing to highlight past the end, but there is to point at
+	return max(m.hlShown()-m.hlStart, 1)
 }
 
 func (m *printData) HLStrOffset() int {
-	offset := m.pos.Offset - m.lo
+	offset := m.hlStart - m.lo
 	if m.lo > 0 {
 		offset += 3
 	}
@@ -171,7 +191,7 @@ func (m *printData) QueryPre() string {
 	if m.lo > 0 {
 		sb.WriteString("...")
 	}
-	sb.WriteString(string(m.query[m.lo:m.pos.Offset]))
+	sb.WriteString(string(m.query[m.lo:m.hlStart]))
 	return sb.String()
 }
 
@@ -179,7 +199,7 @@ func (m *printData) QueryHL() string {
 	if !m.HasHL {
 		return ""
 	}
-	return string(m.query[m.pos.Offset : m.pos.Offset+m.pos.Len])
+	return string(m.query[m.hlStart:m.hlShown()])
 }
 
 func (m *printData) QueryPost() string {
@@ -187,7 +207,7 @@ func (m *printData) QueryPost() string {
 		return ""
 	}
 	var sb strings.Builder
-	sb.WriteString(string(m.query[m.pos.Offset+m.pos.Len : m.ro]))
+	sb.WriteString(string(m.query[m.hlShown():m.ro]))
 	if m.ro < (len(m.query)) {
 		sb.WriteString("...")
 	}
diff --git a/parser/fmtmsg/truncate.go b/parser/fmtmsg/truncate.go
index 4f80213..839a88a 100644
--- a/parser/fmtmsg/truncate.go
+++ b/parser/fmtmsg/truncate.go
@@ -10,72 +10,22 @@ func truncate(pd *printData, maxLen int) {
 	if maxLen <= 0 || pd.pos == ast.NoPosition() || len(pd.query) <= maxLen {
 		return
 	}
-	pd.lo, pd.ro = findCenterSubstring(pd.query, maxLen, pd.pos.Offset, pd.pos.Offset+pd.pos.Len)
+	pd.lo, pd.ro = findCenterSubstring(pd.query, maxLen, pd.hlStart, pd.hlEnd)
 }
 
+// findCenterSubstring returns the bounds of a window of windowSize runes which
+// contains the runes from startOffset up to endOffset, centered if possible. If
+// they do not fit, the window starts with them.
 func findCenterSubstring(r []rune, windowSize int, startOffset int, endOffset int) (int, int) {
 	strLen := len(r)
-	substringLen := endOffset - startOffset + 1
-
 	if windowSize >= strLen {
 		// If the window size is greater than or equal to the string length,
 		// the entire string is the substring.
 		return 0, strLen
 	}
-
-	if substringLen >= windowSize {
-		// If the specified substring length is greater than or equal to
-		// the window size, return the substring truncated on the right to windowSize
-		return startOffset, startOffset + windowSize
-	}
-
-	// Calculate the available space on both sides of the substring.
-	leftSpace := startOffset
-	rightSpace := strLen - endOffset - 1
-
-	// Calculate the maximum possible size of the new substring within the window.
-	maxSubstringSize := min(windowSize, substringLen+min(leftSpace, rightSpace))
-
-	// Calculate the left and right offsets for the new substring.
-	centerOffset := (startOffset + endOffset) / 2
-	halfMaxSubstringSize := maxSubstringSize / 2
-
-	leftOffset := centerOffset - halfMaxSubstringSize
-	rightOffset := leftOffset + maxSubstringSize - 1
-
-	// Adjust the offsets if they are too close to the beginning or end of the string.
-	if leftOffset < 0 {
-		rightOffset -= leftOffset
-		leftOffset = 0
-	}
-
-	if rightOffset >= strLen {
-		leftOffset -= (rightOffset - strLen + 1)
-		rightOffset = strLen - 1
-	}
-
-	// Adjust the offsets if the new substring is smaller than the window size.
-	if rightOffset-leftOffset+1 < windowSize {
-		leftOffset = centerOffset - (windowSize-1)/2
-		rightOffset = leftOffset + windowSize
-
-		if leftOffset < 0 {
-			leftOffset = 0
-			rightOffset = min(windowSize, strLen)
-		}
-
-		if rightOffset >= strLen {
-			rightOffset = strLen
-			leftOffset = max(rightOffset-(windowSize), 0)
-		}
-	}
-
-	// Adjust the right offset to match the window size.
-	if rightOffset-leftOffset+1 > windowSize {
-		rightOffset = leftOffset + windowSize
-	}
-
-	return leftOffset, rightOffset
+	leftSpace := max(windowSize-(endOffset-startOffset), 0) / 2
+	leftOffset := min(max(startOffset-leftSpace, 0), strLen-windowSize)
+	return leftOffset, leftOffset + windowSize
 }
 
 func min(a, b int) int {
-- 
2.43.0


From e2c41a90780ab575b4c6b335063e93cae71cf9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:57:42 +0000
Subject: [PATCH 19/26] fix: escape fields and terms in graph labels

A field or term containing <, & or a control character produced an invalid
HTML label, which made rendering fail or dropped the label.
---
 aqlgraph/node_html.go | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/aqlgraph/node_html.go b/aqlgraph/node_html.go
index f91df89..188f5a5 100644
--- a/aqlgraph/node_html.go
+++ b/aqlgraph/node_html.go
@@ -1,6 +1,10 @@
 package aqlgraph
 
-import "text/template"
+import (
+	"strconv"
+	"strings"
+	"text/template"
+)
 
 const (
 	colorAnd = `#f59722`
@@ -36,9 +40,22 @@ type NodeVal struct {
 	Color   string
 }
 
-var labelTmpl = template.Must(template.New("").Parse(`<TABLE BORDER="0" CELLBORDER="1" CELLSPACING="0" CELLPADDING="2">
+// visible escapes the characters which an HTML label may not contain
+func visible(s string) string {
+	var sb strings.Builder
+	for _, r := range s {
+		if r < ' ' || r == 0xFFFE || r == 0xFFFF {
+			sb.WriteString(strings.Trim(strconv.QuoteRune(r), "'"))
+			continue
+		}
+		sb.WriteRune(r)
+	}
+	return sb.String()
+}
+
+var labelTmpl = template.Must(template.New("").Funcs(template.FuncMap{"visible": visible}).Parse(`<TABLE BORDER="0" CELLBORDER="1" CELLSPACING="0" CELLPADDING="2">
 <TR>
-	<TD COLSPAN="2" CELLPADDING="8">{{ .Field }}</TD>
+	<TD COLSPAN="2" CELLPADDING="8">{{ .Field |visible|html }}</TD>
 </TR>
 {{- range .Props}}
 <TR>
@@ -53,7 +70,7 @@ var labelTmpl = template.Must(template.New("").Parse(`<TABLE BORDER="0" CELLBORD
 {{- range .Values}}
 <TR>
 	<TD BORDER="1" BGCOLOR="{{ .Color }}"><I>{{ .ValType }}</I></TD>
-	<TD BORDER="1" BGCOLOR="#FFFFFF">{{ .ValStr }}</TD>
+	<TD BORDER="1" BGCOLOR="#FFFFFF">{{ .ValStr |visible|html }}</TD>
 </TR>
 {{- end }}
 {{- end }}
-- 
2.43.0


From 127b6af7b9dc834fced35a8119858c6e77b01008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:58:09 +0000
Subject: [PATCH 20/26] fix: return highlight ranges in UTF-16 units from the
 wasm parser

Byte offsets were returned to the browser, where strings are indexed by UTF-16
code units, so that messages about queries with other than ASCII characters
marked the wrong text. An empty query gave a range starting at -1.
---
 wasm/aqlparse/main.go | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/wasm/aqlparse/main.go b/wasm/aqlparse/main.go
index 49e22cb..81c5564 100644
--- a/wasm/aqlparse/main.go
+++ b/wasm/aqlparse/main.go
@@ -7,8 +7,11 @@ import (
 	"fmt"
 	"strings"
 	"syscall/js"
+	"unicode/utf16"
+	"unicode/utf8"
 
 	"github.com/flowchartsman/aql/parser"
+	"github.com/flowchartsman/aql/parser/ast"
 )
 
 func parseAQL(query string) (string, []*parser.ParserMessage, error) {
@@ -24,19 +27,39 @@ func parseAQL(query string) (string, []*parser.ParserMessage, error) {
 	return string(tree), visitor.Messages(), nil
 }
 
+// span converts a position to a range of UTF-16 code units, which is how strings
+// are indexed in the browser.
+func span(input string, pos ast.Pos) (start int, end int) {
+	offset := pos.Offset
+	if offset < 0 {
+		return 0, 0
+	}
+	if offset > len(input) {
+		offset = len(input)
+	}
+	token := []rune(input[offset:])
+	if len(token) > pos.Len {
+		token = token[:pos.Len]
+	}
+	start = len(utf16.Encode([]rune(input[:offset])))
+	return start, start + len(utf16.Encode(token))
+}
+
 func errConvert(err error, input string) map[string]any {
 	if pe, ok := err.(*parser.ParseError); ok {
 		msg := pe.Msg
 		if strings.HasPrefix(msg, "no match found") {
 			msg = "incomplete query"
-			pe.Position.Offset = len(input) - 1
+			_, lastLen := utf8.DecodeLastRuneInString(input)
+			pe.Position.Offset = len(input) - lastLen
 			pe.Position.Len = 1
 		}
+		start, end := span(input, pe.Position)
 		return map[string]any{
 			"type":  "error",
 			"msg":   msg,
-			"start": pe.Position.Offset,
-			"end":   pe.Position.Offset + pe.Position.Len,
+			"start": start,
+			"end":   end,
 		}
 	} else {
 		return map[string]any{
@@ -55,11 +78,12 @@ func msgConvert(msg *parser.ParserMessage, input string) map[string]any {
 	case parser.MsgError:
 		msgType = "error"
 	}
+	start, end := span(input, msg.Position)
 	return map[string]any{
 		"type":  msgType,
 		"msg":   msg.Msg,
-		"start": msg.Position.Offset,
-		"end":   msg.Position.Offset + msg.Position.Len,
+		"start": start,
+		"end":   end,
 	}
 }
 
-- 
2.43.0


From 648eb900d21776c92570b951c0f29cfe22bec20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:20:30 +0000
Subject: [PATCH 21/26] fix: mark all of an integer that is out of range

The error for an integer too large for 64 bits had a length of one character,
unlike those for other malformed values.
---
 internal/grammar/aql.peg       | 7 ++++++-
 internal/grammar/parser_gen.go | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/internal/grammar/aql.peg b/internal/grammar/aql.peg
index 2a40135..637fb2b 100644
--- a/internal/grammar/aql.peg
+++ b/internal/grammar/aql.peg
@@ -367,7 +367,12 @@ FloatValue <- '-'? [0-9]+ '.' [0-9]+ {
 }
 
 IntValue <- '-'? [0-9]+ {
-    return ast.NewIntVal(c.text, getpos(c))
+    pos := getpos(c)
+    val, err := ast.NewIntVal(c.text, pos)
+    if err != nil {
+        return nil, tokErr(pos, err)
+    }
+    return val, nil
 }
 
 
diff --git a/internal/grammar/parser_gen.go b/internal/grammar/parser_gen.go
index 4caf7f2..8b81a14 100644
--- a/internal/grammar/parser_gen.go
+++ b/internal/grammar/parser_gen.go
@@ -2138,7 +2138,12 @@ func (p *parser) callonFloatValue1() (interface{}, error) {
 }
 
 func (c *current) onIntValue1() (interface{}, error) {
-	return ast.NewIntVal(c.text, getpos(c))
+	pos := getpos(c)
+	val, err := ast.NewIntVal(c.text, pos)
+	if err != nil {
+		return nil, tokErr(pos, err)
+	}
+	return val, nil
 }
 
 func (p *parser) callonIntValue1() (interface{}, error) {
-- 
2.43.0


From d321f5e746b3406c27cf90b91d8a127ff3d765b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:20:32 +0000
Subject: [PATCH 22/26] fix: report errors at a line break on the line it ends

An unterminated string or expression at the end of a line was reported in column
0 of the next line.
---
 parser/parser.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index e5ffee0..8cc7a55 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1,9 +1,11 @@
 package parser
 
 import (
+	"bytes"
 	"fmt"
 	"io"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/flowchartsman/aql/internal/grammar"
 	"github.com/flowchartsman/aql/parser/ast"
@@ -28,10 +30,16 @@ func ParseQueryReader(r io.Reader, options ...Option) (ast.Node, error) {
 	}
 	// Memoization keeps parsing linear: without it every level of parentheses is
 	// reparsed several times, which is exponential in the nesting depth.
-	v, err := grammar.ParseReader("", r, grammar.Debug(opts.debug), grammar.Memoize(true))
+	query, err := io.ReadAll(r)
 	if err != nil {
 		return nil, grammar.GetParseError(err)
 	}
+	v, err := grammar.Parse("", query, grammar.Debug(opts.debug), grammar.Memoize(true))
+	if err != nil {
+		perr := grammar.GetParseError(err)
+		fixNewlinePos(&perr.Position, query)
+		return nil, perr
+	}
 
 	var root ast.Node
 
@@ -82,6 +90,17 @@ func ParseQueryReader(r io.Reader, options ...Option) (ast.Node, error) {
 	return root, nil
 }
 
+// fixNewlinePos corrects the position of an error at a line break, which the
+// generated parser counts as column 0 of the line that follows.
+func fixNewlinePos(pos *ast.Pos, query []byte) {
+	if pos.Col != 0 || pos.Offset < 0 || pos.Offset >= len(query) || query[pos.Offset] != '\n' {
+		return
+	}
+	before := query[:pos.Offset]
+	pos.Line--
+	pos.Col = utf8.RuneCount(before[bytes.LastIndexByte(before, '\n')+1:]) + 1
+}
+
 func genericParseError(message string) *ParseError {
 	return &ParseError{
 		Position: ast.NoPosition(),
-- 
2.43.0


From abe5eacd43efb5581294c6331315ac40663c3876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:04 +0000
Subject: [PATCH 23/26] fix: escape backslashes in the title of a graph

A backslash is an escape character in a graphviz label. A query with an escaped
quote led to a DOT file that cannot be read back.
---
 aqlgraph/graph.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aqlgraph/graph.go b/aqlgraph/graph.go
index caa39aa..39c3528 100644
--- a/aqlgraph/graph.go
+++ b/aqlgraph/graph.go
@@ -71,7 +71,8 @@ func QueryGraph(query string) (*Graph, error) {
 	ng := &namegraph{
 		Graph: g,
 	}
-	ng.SetLabel(query).
+	// backslashes are escapes in a label
+	ng.SetLabel(strings.ReplaceAll(query, `\`, `\\`)).
 		SetLabelLocation(cgraph.TopLocation).
 		SetLabelJust(cgraph.CenteredJust).
 		SetNodeSeparator(0.5).
-- 
2.43.0


From 9364d8c7d401359db0f947767d7a7d5f01025bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:07:05 +0000
Subject: [PATCH 24/26] fix: do not try to read long texts as dates

---
 jsonmatcher/json_values.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/jsonmatcher/json_values.go b/jsonmatcher/json_values.go
index 776dd09..8f441b7 100644
--- a/jsonmatcher/json_values.go
+++ b/jsonmatcher/json_values.go
@@ -166,6 +166,8 @@ func getBoolVal(v jsonValue) (boolVal bool, found bool) {
 	return false, false
 }
 
+const maxDatetimeLen = 1024
+
 func getDatetimeVal(v jsonValue) (timeVal time.Time, found bool) {
 	// TODO: tighten this up for numstrings. Probably want to be more careful
 	// about what we consider a date with how flexible dateparse is. Maybe a
@@ -174,6 +176,11 @@ func getDatetimeVal(v jsonValue) (timeVal time.Time, found bool) {
 	if !ok {
 		return time.Time{}, false
 	}
+	// no date is anywhere near this long, and the time dateparse takes to find
+	// that out grows with the square of the length
+	if len(sv) > maxDatetimeLen {
+		return time.Time{}, false
+	}
 	t, err := dateparse.ParseAny(sv)
 	if err != nil {
 		return time.Time{}, false
-- 
2.43.0


From 9fc7daa686e3b5c6d9e666c5478ed42cac1b7cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:18:54 +0000
Subject: [PATCH 25/26] fix: show messages as text on the demo page

---
 wasm/aqlparse/index.html | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wasm/aqlparse/index.html b/wasm/aqlparse/index.html
index 51dcab8..3c5f9b2 100644
--- a/wasm/aqlparse/index.html
+++ b/wasm/aqlparse/index.html
@@ -45,6 +45,8 @@
             "error":   "times-circle"
         };
         function newMsg(msgType, content) {
+            // messages quote the query, which is text and not markup
+            content = $("<div>").text(content).html();
             return `<div class="alert alert-${msgType} alert-white rounded"><div class="icon"><i class="fa fa-${msgicon[msgType]}"></i></div><alerttitle>${msgType}</alerttitle> ${content}</div>`
         }
         async function setup() {
-- 
2.43.0


From b30c103c039d41f7432bd966bc567f1afed810f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:02:57 +0000
Subject: [PATCH 26/26] fix: show entities in the title of a graph as they are
 written

---
 aqlgraph/graph.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aqlgraph/graph.go b/aqlgraph/graph.go
index 39c3528..cb16cac 100644
--- a/aqlgraph/graph.go
+++ b/aqlgraph/graph.go
@@ -71,8 +71,8 @@ func QueryGraph(query string) (*Graph, error) {
 	ng := &namegraph{
 		Graph: g,
 	}
-	// backslashes are escapes in a label
-	ng.SetLabel(strings.ReplaceAll(query, `\`, `\\`)).
+	// backslashes are escapes in a label, and ampersands begin entities
+	ng.SetLabel(strings.NewReplacer(`\`, `\\`, `&`, `&amp;`).Replace(query)).
 		SetLabelLocation(cgraph.TopLocation).
 		SetLabelJust(cgraph.CenteredJust).
 		SetNodeSeparator(0.5).
-- 
2.43.0

