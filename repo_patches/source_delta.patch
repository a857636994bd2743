From 36aa3a61b7b2c0f0ef3e0144493380a19ecbb9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:20 +0000
Subject: [PATCH 01/14] fix: evaluate roll arguments when a sum roll is
 directly the left side of a comparison

---
 pkg/core/evaluator/eval_var_args.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/core/evaluator/eval_var_args.go b/pkg/core/evaluator/eval_var_args.go
index 5969ffe..517ffc3 100644
--- a/pkg/core/evaluator/eval_var_args.go
+++ b/pkg/core/evaluator/eval_var_args.go
@@ -158,7 +158,17 @@ func (e *Evaluator) evalVarArgsInCommand(node *ast.Command) error {
 // evalVarArgsInCompare は、比較式の左辺の可変ノードの引数および右辺を評価する。
 func (e *Evaluator) evalVarArgsInCompare(node ast.InfixExpression) error {
 	// 左辺の可変ノードの引数を評価して整数に変換する
-	leftEvalErr := e.EvalVarArgs(node.Left())
+	left := node.Left()
+	var leftEvalErr error
+
+	if left.IsPrimaryExpression() {
+		if left.IsVariable() {
+			leftEvalErr = e.evalVarArgsOfVariableExpr(left)
+		}
+	} else {
+		leftEvalErr = e.EvalVarArgs(left)
+	}
+
 	if leftEvalErr != nil {
 		return leftEvalErr
 	}
-- 
2.43.0


From 5dab259f22283b3f4258a3bf816a92a0abb5bc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:04 +0000
Subject: [PATCH 02/14] fix: apply the sign of a U roll modifier only to its
 first term

---
 pkg/core/parser/parser.go     | 31 ++++++++++++++++++++-----------
 pkg/core/parser/parser.pigeon | 29 +++++++++++++++++++----------
 2 files changed, 39 insertions(+), 21 deletions(-)

diff --git a/pkg/core/parser/parser.go b/pkg/core/parser/parser.go
index 67c782b..8ad2deb 100644
--- a/pkg/core/parser/parser.go
+++ b/pkg/core/parser/parser.go
@@ -630,7 +630,7 @@ var g = &grammar{
 						&labeledExpr{
 							pos:   position{line: 187, col: 34, offset: 4123},
 							label: "bonus",
-							expr: &zeroOrOneExpr{
+							expr: &zeroOrMoreExpr{
 								pos: position{line: 187, col: 40, offset: 4129},
 								expr: &seqExpr{
 									pos: position{line: 187, col: 41, offset: 4130},
@@ -652,7 +652,7 @@ var g = &grammar{
 										},
 										&ruleRefExpr{
 											pos:  position{line: 187, col: 53, offset: 4142},
-											name: "IntExprAdditive",
+											name: "IntExprMultitive",
 										},
 									},
 								},
@@ -2044,17 +2044,26 @@ func (c *current) onURollExpr1(uRollList, bonus interface{}) (interface{}, error
 	bonusSlice := toIfaceSlice(bonus)
 
 	var bonusNode ast.InfixExpression = nil
-	if bonusSlice != nil {
-		op := string(bonusSlice[0].([]byte))
-		right := bonusSlice[1].(ast.Node)
+	if len(bonusSlice) > 0 {
+		firstTerm := toIfaceSlice(bonusSlice[0])
+		op := string(firstTerm[0].([]byte))
+		right := firstTerm[1].(ast.Node)
+		rest := bonusSlice[1:]
 
-		switch op {
-		case "+":
-			bonusNode = ast.NewAdd(ast.NewInt(0), right)
-		case "-":
+		if op == "-" && len(rest) < 1 {
 			bonusNode = ast.NewSubtract(ast.NewInt(0), right)
-		default:
-			return nil, fmt.Errorf("unknown operator: %s", op)
+		} else {
+			// 先頭の符号が2項目以降に影響しないようにする
+			if op == "-" {
+				right = ast.NewUnaryMinus(right)
+			}
+
+			sum, err := leftAssociativeAdditive(right, rest)
+			if err != nil {
+				return nil, err
+			}
+
+			bonusNode = ast.NewAdd(ast.NewInt(0), sum)
 		}
 	}
 
diff --git a/pkg/core/parser/parser.pigeon b/pkg/core/parser/parser.pigeon
index 97ba423..b2c130e 100644
--- a/pkg/core/parser/parser.pigeon
+++ b/pkg/core/parser/parser.pigeon
@@ -184,21 +184,30 @@ URollComp <- left:URollExpr op:CompareOp right:IntExpr {
 	), nil
 }
 
-URollExpr <- uRollList:URollList bonus:(('+' / '-') IntExprAdditive)? {
+URollExpr <- uRollList:URollList bonus:(('+' / '-') IntExprMultitive)* {
 	bonusSlice := toIfaceSlice(bonus)
 
 	var bonusNode ast.InfixExpression = nil
-	if bonusSlice != nil {
-		op := string(bonusSlice[0].([]byte))
-		right := bonusSlice[1].(ast.Node)
+	if len(bonusSlice) > 0 {
+		firstTerm := toIfaceSlice(bonusSlice[0])
+		op := string(firstTerm[0].([]byte))
+		right := firstTerm[1].(ast.Node)
+		rest := bonusSlice[1:]
 
-		switch op {
-		case "+":
-			bonusNode = ast.NewAdd(ast.NewInt(0), right)
-		case "-":
+		if op == "-" && len(rest) < 1 {
 			bonusNode = ast.NewSubtract(ast.NewInt(0), right)
-		default:
-			return nil, fmt.Errorf("unknown operator: %s", op)
+		} else {
+			// 先頭の符号が2項目以降に影響しないようにする
+			if op == "-" {
+				right = ast.NewUnaryMinus(right)
+			}
+
+			sum, err := leftAssociativeAdditive(right, rest)
+			if err != nil {
+				return nil, err
+			}
+
+			bonusNode = ast.NewAdd(ast.NewInt(0), sum)
 		}
 	}
 
-- 
2.43.0


From 8caf7eb171dbc4ec443e281e192063e7bdf0aae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:58 +0000
Subject: [PATCH 03/14] fix: parse divisions without re-parsing the divisor
 (nested divisors took exponential time)

---
 pkg/core/parser/parser.go     | 101 ++++++++++++++--------------------
 pkg/core/parser/parser.pigeon |   8 +--
 2 files changed, 44 insertions(+), 65 deletions(-)

diff --git a/pkg/core/parser/parser.go b/pkg/core/parser/parser.go
index 8ad2deb..57b042b 100644
--- a/pkg/core/parser/parser.go
+++ b/pkg/core/parser/parser.go
@@ -56,7 +56,7 @@ func leftAssociativeMultitive(first interface{}, rest interface{}) (ast.Node, er
 		right := rs[1].(ast.Node)
 
 		roundingMethod := ""
-		if len(rs) >= 3 {
+		if len(rs) >= 3 && rs[2] != nil {
 			roundingMethod = strings.ToUpper(string(rs[2].([]byte)))
 		}
 
@@ -827,32 +827,25 @@ var g = &grammar{
 													pos:  position{line: 233, col: 52, offset: 5264},
 													name: "IntExprPrimary",
 												},
-												&charClassMatcher{
-													pos:        position{line: 233, col: 67, offset: 5279},
-													val:        "[ur]i",
-													chars:      []rune{'u', 'r'},
-													ignoreCase: true,
-													inverted:   false,
+												&zeroOrOneExpr{
+													pos: position{line: 233, col: 67, offset: 5279},
+													expr: &charClassMatcher{
+														pos:        position{line: 233, col: 67, offset: 5279},
+														val:        "[ur]i",
+														chars:      []rune{'u', 'r'},
+														ignoreCase: true,
+														inverted:   false,
+													},
 												},
 											},
 										},
 										&seqExpr{
 											pos: position{line: 233, col: 76, offset: 5288},
 											exprs: []interface{}{
-												&choiceExpr{
-													pos: position{line: 233, col: 77, offset: 5289},
-													alternatives: []interface{}{
-														&litMatcher{
-															pos:        position{line: 233, col: 77, offset: 5289},
-															val:        "*",
-															ignoreCase: false,
-														},
-														&litMatcher{
-															pos:        position{line: 233, col: 83, offset: 5295},
-															val:        "/",
-															ignoreCase: false,
-														},
-													},
+												&litMatcher{
+													pos:        position{line: 233, col: 77, offset: 5289},
+													val:        "*",
+													ignoreCase: false,
 												},
 												&ruleRefExpr{
 													pos:  position{line: 233, col: 88, offset: 5300},
@@ -1110,32 +1103,25 @@ var g = &grammar{
 													pos:  position{line: 265, col: 56, offset: 6079},
 													name: "DRollExprPrimary",
 												},
-												&charClassMatcher{
-													pos:        position{line: 265, col: 73, offset: 6096},
-													val:        "[ur]i",
-													chars:      []rune{'u', 'r'},
-													ignoreCase: true,
-													inverted:   false,
+												&zeroOrOneExpr{
+													pos: position{line: 265, col: 73, offset: 6096},
+													expr: &charClassMatcher{
+														pos:        position{line: 265, col: 73, offset: 6096},
+														val:        "[ur]i",
+														chars:      []rune{'u', 'r'},
+														ignoreCase: true,
+														inverted:   false,
+													},
 												},
 											},
 										},
 										&seqExpr{
 											pos: position{line: 265, col: 82, offset: 6105},
 											exprs: []interface{}{
-												&choiceExpr{
-													pos: position{line: 265, col: 83, offset: 6106},
-													alternatives: []interface{}{
-														&litMatcher{
-															pos:        position{line: 265, col: 83, offset: 6106},
-															val:        "*",
-															ignoreCase: false,
-														},
-														&litMatcher{
-															pos:        position{line: 265, col: 89, offset: 6112},
-															val:        "/",
-															ignoreCase: false,
-														},
-													},
+												&litMatcher{
+													pos:        position{line: 265, col: 83, offset: 6106},
+													val:        "*",
+													ignoreCase: false,
 												},
 												&ruleRefExpr{
 													pos:  position{line: 265, col: 94, offset: 6117},
@@ -1364,32 +1350,25 @@ var g = &grammar{
 													pos:  position{line: 289, col: 60, offset: 6793},
 													name: "IntRandExprPrimary",
 												},
-												&charClassMatcher{
-													pos:        position{line: 289, col: 79, offset: 6812},
-													val:        "[ur]i",
-													chars:      []rune{'u', 'r'},
-													ignoreCase: true,
-													inverted:   false,
+												&zeroOrOneExpr{
+													pos: position{line: 289, col: 79, offset: 6812},
+													expr: &charClassMatcher{
+														pos:        position{line: 289, col: 79, offset: 6812},
+														val:        "[ur]i",
+														chars:      []rune{'u', 'r'},
+														ignoreCase: true,
+														inverted:   false,
+													},
 												},
 											},
 										},
 										&seqExpr{
 											pos: position{line: 289, col: 88, offset: 6821},
 											exprs: []interface{}{
-												&choiceExpr{
-													pos: position{line: 289, col: 89, offset: 6822},
-													alternatives: []interface{}{
-														&litMatcher{
-															pos:        position{line: 289, col: 89, offset: 6822},
-															val:        "*",
-															ignoreCase: false,
-														},
-														&litMatcher{
-															pos:        position{line: 289, col: 95, offset: 6828},
-															val:        "/",
-															ignoreCase: false,
-														},
-													},
+												&litMatcher{
+													pos:        position{line: 289, col: 89, offset: 6822},
+													val:        "*",
+													ignoreCase: false,
 												},
 												&ruleRefExpr{
 													pos:  position{line: 289, col: 100, offset: 6833},
diff --git a/pkg/core/parser/parser.pigeon b/pkg/core/parser/parser.pigeon
index b2c130e..d651bfc 100644
--- a/pkg/core/parser/parser.pigeon
+++ b/pkg/core/parser/parser.pigeon
@@ -45,7 +45,7 @@ func leftAssociativeMultitive(first interface{}, rest interface{}) (ast.Node, er
 		right := rs[1].(ast.Node)
 
 		roundingMethod := ""
-		if len(rs) >= 3 {
+		if len(rs) >= 3 && rs[2] != nil {
 			roundingMethod = strings.ToUpper(string(rs[2].([]byte)))
 		}
 
@@ -239,7 +239,7 @@ IntExprAdditive <- first:IntExprMultitive rest:(('+' / '-') IntExprMultitive)* {
 	return leftAssociativeAdditive(first, rest)
 }
 
-IntExprMultitive <- first:IntExprPrimary rest:('/' IntExprPrimary [ur]i / (('*' / '/') IntExprPrimary))* {
+IntExprMultitive <- first:IntExprPrimary rest:('/' IntExprPrimary [ur]i? / '*' IntExprPrimary)* {
 	return leftAssociativeMultitive(first, rest)
 }
 
@@ -271,7 +271,7 @@ DRollExprAdditive <- first:DRollExprMultitive rest:(('+' / '-') DRollExprMultiti
 	return leftAssociativeAdditive(first, rest)
 }
 
-DRollExprMultitive <- first:DRollExprPrimary rest:('/' DRollExprPrimary [ur]i / (('*' / '/') DRollExprPrimary))* {
+DRollExprMultitive <- first:DRollExprPrimary rest:('/' DRollExprPrimary [ur]i? / '*' DRollExprPrimary)* {
 	return leftAssociativeMultitive(first, rest)
 }
 
@@ -295,7 +295,7 @@ IntRandExprAdditive <- first:IntRandExprMultitive rest:(('+' / '-') IntRandExprM
 	return leftAssociativeAdditive(first, rest)
 }
 
-IntRandExprMultitive <- first:IntRandExprPrimary rest:('/' IntRandExprPrimary [ur]i / (('*' / '/') IntRandExprPrimary))* {
+IntRandExprMultitive <- first:IntRandExprPrimary rest:('/' IntRandExprPrimary [ur]i? / '*' IntRandExprPrimary)* {
 	return leftAssociativeMultitive(first, rest)
 }
 
-- 
2.43.0


From 36e9282169a1f03c0e55503f00a709fecc60d8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:50 +0000
Subject: [PATCH 04/14] fix: report an integer literal that is too large
 instead of silently clamping it

---
 pkg/core/parser/parser.go     | 6 ++++--
 pkg/core/parser/parser.pigeon | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/pkg/core/parser/parser.go b/pkg/core/parser/parser.go
index 57b042b..63d213f 100644
--- a/pkg/core/parser/parser.go
+++ b/pkg/core/parser/parser.go
@@ -2334,8 +2334,10 @@ func (p *parser) callonIncRandCount1() error {
 func (c *current) onInteger1() (interface{}, error) {
 	s := string(c.text)
 
-	// TODO: 整数が大きすぎるときなどのエラー処理が必要
-	value, _ := strconv.Atoi(s)
+	value, err := strconv.Atoi(s)
+	if err != nil {
+		return ast.NewInt(value), fmt.Errorf("invalid integer: %s", err)
+	}
 
 	return ast.NewInt(value), nil
 }
diff --git a/pkg/core/parser/parser.pigeon b/pkg/core/parser/parser.pigeon
index d651bfc..6f7a778 100644
--- a/pkg/core/parser/parser.pigeon
+++ b/pkg/core/parser/parser.pigeon
@@ -365,8 +365,10 @@ IncRandCount <- #{
 Integer <- [0-9]+ {
 	s := string(c.text)
 
-	// TODO: 整数が大きすぎるときなどのエラー処理が必要
-	value, _ := strconv.Atoi(s)
+	value, err := strconv.Atoi(s)
+	if err != nil {
+		return ast.NewInt(value), fmt.Errorf("invalid integer: %s", err)
+	}
 
 	return ast.NewInt(value), nil
 }
-- 
2.43.0


From 6dfa295f8920466eafb4d96864bb20d66d385064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:19 +0000
Subject: [PATCH 05/14] fix: divide with rounding in integer arithmetic (large
 quotients lost precision)

---
 pkg/core/evaluator/eval_infix_expression.go | 56 +++++++++++++++++----
 1 file changed, 45 insertions(+), 11 deletions(-)

diff --git a/pkg/core/evaluator/eval_infix_expression.go b/pkg/core/evaluator/eval_infix_expression.go
index 2903c95..0509b9f 100644
--- a/pkg/core/evaluator/eval_infix_expression.go
+++ b/pkg/core/evaluator/eval_infix_expression.go
@@ -2,7 +2,6 @@ package evaluator
 
 import (
 	"fmt"
-	"math"
 
 	"github.com/raa0121/GoBCDice/pkg/core/ast"
 	"github.com/raa0121/GoBCDice/pkg/core/object"
@@ -126,22 +125,57 @@ func (e *Evaluator) evalIntegerDivide(
 		// 除算（小数点以下切り捨て）
 		return object.NewInteger(leftValue / rightValue), nil
 	case ast.ROUNDING_METHOD_ROUND:
-		{
-			// 除算（小数点以下四捨五入）
-			resultFloat := math.Round(float64(leftValue) / float64(rightValue))
-			return object.NewInteger(int(resultFloat)), nil
-		}
+		// 除算（小数点以下四捨五入）
+		return object.NewInteger(divideWithRounding(leftValue, rightValue)), nil
 	case ast.ROUNDING_METHOD_ROUND_UP:
-		{
-			// 除算（小数点以下切り上げ）
-			resultFloat := math.Ceil(float64(leftValue) / float64(rightValue))
-			return object.NewInteger(int(resultFloat)), nil
-		}
+		// 除算（小数点以下切り上げ）
+		return object.NewInteger(divideWithRoundingUp(leftValue, rightValue)), nil
 	default:
 		return nil, fmt.Errorf("evalIntegerDivide: unknown rounding method")
 	}
 }
 
+// divideWithRounding は除算の結果の小数点以下を四捨五入して返す。
+//
+// 大きな値でも正確な結果となるように、整数のまま計算する。
+func divideWithRounding(left int, right int) int {
+	quotient := left / right
+	remainder := absUint64(left % right)
+
+	// 余りが除数の半分以上ならば、0から遠ざかる方向に丸める
+	if remainder >= absUint64(right)-remainder {
+		if (left < 0) == (right < 0) {
+			return quotient + 1
+		}
+
+		return quotient - 1
+	}
+
+	return quotient
+}
+
+// divideWithRoundingUp は除算の結果の小数点以下を切り上げて返す。
+//
+// 大きな値でも正確な結果となるように、整数のまま計算する。
+func divideWithRoundingUp(left int, right int) int {
+	quotient := left / right
+
+	if left%right != 0 && (left < 0) == (right < 0) {
+		return quotient + 1
+	}
+
+	return quotient
+}
+
+// absUint64 はnの絶対値を返す。
+func absUint64(n int) uint64 {
+	if n < 0 {
+		return -uint64(n)
+	}
+
+	return uint64(n)
+}
+
 // evalSumRoll は加算ロールを評価する。
 func (e *Evaluator) evalSumRoll(
 	num *object.Integer,
-- 
2.43.0


From 9ee7333d0792960650652f988608a747046be019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:45 +0000
Subject: [PATCH 06/14] fix: reject commands that roll too many dice instead of
 crashing

---
 pkg/core/dice/roller/roller.go         | 12 ++++++++++++
 pkg/core/evaluator/environment.go      |  5 +++++
 pkg/core/evaluator/eval_u_roll_expr.go |  2 +-
 pkg/core/evaluator/evaluator.go        |  9 +++++++++
 4 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/pkg/core/dice/roller/roller.go b/pkg/core/dice/roller/roller.go
index ae54df5..ff7bfb8 100644
--- a/pkg/core/dice/roller/roller.go
+++ b/pkg/core/dice/roller/roller.go
@@ -10,6 +10,9 @@ import (
 	"github.com/raa0121/GoBCDice/pkg/core/dice/feeder"
 )
 
+// MaxNumOfDice は一度に振ることができるダイスの数の上限。
+const MaxNumOfDice = 100000
+
 // ダイスローラーを表す構造体。
 type DiceRoller struct {
 	// feederが実際にダイスを供給する
@@ -33,6 +36,7 @@ func (dr *DiceRoller) DieFeeder() feeder.DieFeeder {
 // RollDice は、sides個の面を持つダイスをnum個振り、その結果を返す。
 //
 // num、sidesともに正の整数でなければならない。
+// また、numはMaxNumOfDice以下でなければならない。
 // この条件が満たされていなかった場合は、エラーを返す。
 func (dr *DiceRoller) RollDice(num int, sides int) ([]dice.Die, error) {
 	if sides < 1 {
@@ -51,6 +55,14 @@ func (dr *DiceRoller) RollDice(num int, sides int) ([]dice.Die, error) {
 		)
 	}
 
+	if num > MaxNumOfDice {
+		return nil, fmt.Errorf(
+			"RollDice(num: %d, sides: %d): 振るダイス数が多すぎます",
+			num,
+			sides,
+		)
+	}
+
 	// 結果のスライスの領域をnum個分確保する
 	rolledDice := make([]dice.Die, 0, num)
 
diff --git a/pkg/core/evaluator/environment.go b/pkg/core/evaluator/environment.go
index 1c7d7fa..1df7db2 100644
--- a/pkg/core/evaluator/environment.go
+++ b/pkg/core/evaluator/environment.go
@@ -25,6 +25,11 @@ func (e *Environment) RolledDice() []dice.Die {
 	return dice
 }
 
+// NumOfRolledDice は記録されたダイスの数を返す。
+func (e *Environment) NumOfRolledDice() int {
+	return len(e.rolledDice)
+}
+
 // PushRolledDie は振られたダイスを記録に追加する。
 func (e *Environment) PushRolledDie(d dice.Die) {
 	e.rolledDice = append(e.rolledDice, d)
diff --git a/pkg/core/evaluator/eval_u_roll_expr.go b/pkg/core/evaluator/eval_u_roll_expr.go
index 400600c..e433139 100644
--- a/pkg/core/evaluator/eval_u_roll_expr.go
+++ b/pkg/core/evaluator/eval_u_roll_expr.go
@@ -100,7 +100,7 @@ func (e *Evaluator) evalCompoundingRoll(
 		)
 	}
 
-	valueGroups := make([]object.Object, 0, numVal)
+	valueGroups := []object.Object{}
 	for i := 0; i < numVal; i++ {
 		valueGroup := []object.Object{}
 
diff --git a/pkg/core/evaluator/evaluator.go b/pkg/core/evaluator/evaluator.go
index 6adfb3f..906752b 100644
--- a/pkg/core/evaluator/evaluator.go
+++ b/pkg/core/evaluator/evaluator.go
@@ -91,6 +91,15 @@ func (e *Evaluator) evalCommand(node *ast.Command) (object.Object, error) {
 // RollDice は、sides個の面を持つダイスをnum個振り、その結果を返す。
 // また、ダイスロールの結果を記録する。
 func (e *Evaluator) RollDice(num int, sides int) ([]dice.Die, error) {
+	// 1つのコマンドで振るダイスの総数を制限する
+	if num > roller.MaxNumOfDice-e.env.NumOfRolledDice() {
+		return nil, fmt.Errorf(
+			"RollDice(num: %d, sides: %d): 振るダイス数が多すぎます",
+			num,
+			sides,
+		)
+	}
+
 	rolledDice, err := e.diceRoller.RollDice(num, sides)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From ce6d7eb9d7cabeae1641c5bf49241365934ec4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:01 +0000
Subject: [PATCH 07/14] fix: do not roll again when the evaluation of a command
 fails

---
 pkg/bcdice/bcdice.go | 44 ++++++++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/pkg/bcdice/bcdice.go b/pkg/bcdice/bcdice.go
index e529057..c6ba0a2 100644
--- a/pkg/bcdice/bcdice.go
+++ b/pkg/bcdice/bcdice.go
@@ -74,22 +74,23 @@ func (b *BCDice) ExecuteCommand(input string) (*command.Result, error) {
 		}
 	}
 
-	{
-		result, err := b.ExecuteBasicCommand(command)
-		if err == nil {
-			result.IsSecret = isSecret
-			return result, nil
-		}
+	// 構文解析に失敗した場合に限り、空白で区切られた最初の部分を試す。
+	// 評価の失敗後に再度評価するとダイスを振り直すことになるため、評価は一度だけ行う。
+	node, parseErr := parseBasicCommand(command)
+	if parseErr != nil {
+		node, parseErr = parseBasicCommand(firstPart)
+	}
+	if parseErr != nil {
+		return nil, parseErr
 	}
-	{
-		result, err := b.ExecuteBasicCommand(firstPart)
-		if err == nil {
-			result.IsSecret = isSecret
-			return result, nil
-		}
 
+	result, err := b.executeBasicCommandNode(node)
+	if err != nil {
 		return nil, err
 	}
+
+	result.IsSecret = isSecret
+	return result, nil
 }
 
 // ExecuteDiceBotCommand は設定されているダイスボットを使用して指定されたコマンドを実行する。
@@ -107,13 +108,28 @@ func (b *BCDice) ExecuteDiceBotCommand(c string) (*command.Result, error) {
 
 // ExecuteBasicCommand はBCDiceの基本コマンドを実行する。
 func (b *BCDice) ExecuteBasicCommand(c string) (*command.Result, error) {
-	node, parseErr := parser.Parse("input", []byte(c))
+	node, parseErr := parseBasicCommand(c)
 	if parseErr != nil {
 		return nil, parseErr
 	}
 
+	return b.executeBasicCommandNode(node)
+}
+
+// parseBasicCommand はBCDiceの基本コマンドを構文解析する。
+func parseBasicCommand(c string) (ast.Node, error) {
+	node, err := parser.Parse("input", []byte(c))
+	if err != nil {
+		return nil, err
+	}
+
+	return node.(ast.Node), nil
+}
+
+// executeBasicCommandNode は構文解析済みのBCDiceの基本コマンドを実行する。
+func (b *BCDice) executeBasicCommandNode(node ast.Node) (*command.Result, error) {
 	env := evaluator.NewEnvironment()
 	ev := evaluator.NewEvaluator(b.diceRoller, env)
 
-	return command.Execute(node.(ast.Node), b.DiceBot.GameID(), ev)
+	return command.Execute(node, b.DiceBot.GameID(), ev)
 }
-- 
2.43.0


From 8e38afb79d88cb79d6ee08451abbe5f882596df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:35 +0000
Subject: [PATCH 08/14] fix: report the dice rolled for arguments when the
 reroll threshold is invalid

---
 pkg/core/command/execute_r_roll_comp.go | 3 +++
 pkg/core/command/execute_r_roll_list.go | 3 +++
 pkg/core/command/execute_u_roll_comp.go | 3 +++
 pkg/core/command/execute_u_roll_expr.go | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/pkg/core/command/execute_r_roll_comp.go b/pkg/core/command/execute_r_roll_comp.go
index fe4a184..fbb9d24 100644
--- a/pkg/core/command/execute_r_roll_comp.go
+++ b/pkg/core/command/execute_r_roll_comp.go
@@ -43,6 +43,9 @@ func executeRRollComp(
 	checkRerollThresholdErr :=
 		evaluator.CheckRRollThreshold(compareNode.Left().(*ast.RRollList))
 	if checkRerollThresholdErr != nil {
+		if rolledDice := evaluator.RolledDice(); len(rolledDice) > 0 {
+			result.RolledDice = rolledDice
+		}
 		result.AppendMessagePart(checkRerollThresholdErr.Error())
 		return result, nil
 	}
diff --git a/pkg/core/command/execute_r_roll_list.go b/pkg/core/command/execute_r_roll_list.go
index 84641bf..f4aeeef 100644
--- a/pkg/core/command/execute_r_roll_list.go
+++ b/pkg/core/command/execute_r_roll_list.go
@@ -30,6 +30,9 @@ func executeRRollList(
 	// 振り足しの閾値を確認する
 	checkRerollThresholdErr := evaluator.CheckRRollThreshold(node)
 	if checkRerollThresholdErr != nil {
+		if rolledDice := evaluator.RolledDice(); len(rolledDice) > 0 {
+			result.RolledDice = rolledDice
+		}
 		result.AppendMessagePart(checkRerollThresholdErr.Error())
 		return result, nil
 	}
diff --git a/pkg/core/command/execute_u_roll_comp.go b/pkg/core/command/execute_u_roll_comp.go
index 93b1f65..016c959 100644
--- a/pkg/core/command/execute_u_roll_comp.go
+++ b/pkg/core/command/execute_u_roll_comp.go
@@ -38,6 +38,9 @@ func executeURollComp(
 		compareNode.Left().(*ast.URollExpr).URollList,
 	)
 	if checkRerollThresholdErr != nil {
+		if rolledDice := evaluator.RolledDice(); len(rolledDice) > 0 {
+			result.RolledDice = rolledDice
+		}
 		result.AppendMessagePart(checkRerollThresholdErr.Error())
 		return result, nil
 	}
diff --git a/pkg/core/command/execute_u_roll_expr.go b/pkg/core/command/execute_u_roll_expr.go
index 490819f..ccfe36e 100644
--- a/pkg/core/command/execute_u_roll_expr.go
+++ b/pkg/core/command/execute_u_roll_expr.go
@@ -32,6 +32,9 @@ func executeURollExpr(
 	// 振り足しの閾値を確認する
 	checkRerollThresholdErr := evaluator.CheckURollThreshold(node.URollList)
 	if checkRerollThresholdErr != nil {
+		if rolledDice := evaluator.RolledDice(); len(rolledDice) > 0 {
+			result.RolledDice = rolledDice
+		}
 		result.AppendMessagePart(checkRerollThresholdErr.Error())
 		return result, nil
 	}
-- 
2.43.0


From 7e9511cd52602aed343d7a1947e5aa1c3cc20e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:54 +0000
Subject: [PATCH 09/14] fix: terminate the REPL at the end of the input

---
 cmd/GoBCDiceREPL/repl/repl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/GoBCDiceREPL/repl/repl.go b/cmd/GoBCDiceREPL/repl/repl.go
index a40bf42..6799ae0 100644
--- a/cmd/GoBCDiceREPL/repl/repl.go
+++ b/cmd/GoBCDiceREPL/repl/repl.go
@@ -235,7 +235,7 @@ func (r *REPL) Start() {
 		switch readlineErr {
 		case io.EOF:
 			// ^D が押されたら修了する
-			break
+			return
 		case readline.ErrInterrupt:
 			// ^C が押されたら次の読み込みに移る
 			continue
-- 
2.43.0


From b4d15f77535ea01bd94822fdc855a374dc9ab1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:57 +0000
Subject: [PATCH 10/14] fix: strip the secret roll marker only once in the REPL

---
 cmd/GoBCDiceREPL/repl/repl.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cmd/GoBCDiceREPL/repl/repl.go b/cmd/GoBCDiceREPL/repl/repl.go
index 6799ae0..7a9d072 100644
--- a/cmd/GoBCDiceREPL/repl/repl.go
+++ b/cmd/GoBCDiceREPL/repl/repl.go
@@ -338,8 +338,7 @@ func eval(r *REPL, c *Command, input string) {
 		}()
 	}
 
-	command, isSecret := util.CheckIfInputMayBeASecretRoll(input)
-	result, err := r.bcDice.ExecuteCommand(command)
+	result, err := r.bcDice.ExecuteCommand(input)
 	if err != nil {
 		r.printError(err)
 		return
@@ -347,7 +346,7 @@ func eval(r *REPL, c *Command, input string) {
 
 	fmt.Fprint(r.out, RESULT_HEADER)
 
-	if isSecret {
+	if result.IsSecret {
 		fmt.Fprint(r.out, SECRET_HEADER)
 	}
 
-- 
2.43.0


From 17ff657db40a388fec504ceebd650c88c9f86d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:02 +0000
Subject: [PATCH 11/14] fix: return an error when a die selects no item of a
 choice

---
 pkg/core/evaluator/eval_choice.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/core/evaluator/eval_choice.go b/pkg/core/evaluator/eval_choice.go
index 11baa45..1c9aa4e 100644
--- a/pkg/core/evaluator/eval_choice.go
+++ b/pkg/core/evaluator/eval_choice.go
@@ -1,6 +1,8 @@
 package evaluator
 
 import (
+	"fmt"
+
 	"github.com/raa0121/GoBCDice/pkg/core/ast"
 	"github.com/raa0121/GoBCDice/pkg/core/object"
 )
@@ -13,6 +15,10 @@ func (e *Evaluator) evalChoice(node *ast.Choice) (*object.String, error) {
 	}
 
 	index := rolledDice[0].Value - 1
+	if index < 0 || index >= len(node.Items) {
+		return nil, fmt.Errorf("evalChoice: no item for the die %s", rolledDice[0])
+	}
+
 	value := node.Items[index].Value
 
 	return object.NewString(value), nil
-- 
2.43.0


From 386d48b83773ca2213ecdbefda269681b757e9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:04 +0000
Subject: [PATCH 12/14] fix: append to the log of the API server instead of
 truncating it

A server started in the same second as another one (a quick restart, or two
servers started together) truncated the other's log file.
---
 cmd/GoBCDiceAPI/config/environment.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/GoBCDiceAPI/config/environment.go b/cmd/GoBCDiceAPI/config/environment.go
index f0f61f4..9833156 100644
--- a/cmd/GoBCDiceAPI/config/environment.go
+++ b/cmd/GoBCDiceAPI/config/environment.go
@@ -24,7 +24,8 @@ func Setup(e *echo.Echo) {
 		tmpdir := filepath.Join(os.TempDir(), "GoBCDiceAPI")
 		os.MkdirAll(tmpdir, 0700)
 		logFileName := filepath.Join(tmpdir, fmt.Sprintf("%s-%d.log", Environment, time.Now().Unix()))
-		f, err := os.Create(logFileName)
+		// 同じ秒に起動した別のサーバーのログを消さないように、追記する
+		f, err := os.OpenFile(logFileName, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0666)
 		if err != nil {
 			panic(err)
 		}
-- 
2.43.0


From 5089182c9823f138da290e4d73e81345fdf70673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:48 +0000
Subject: [PATCH 13/14] =?UTF-8?q?fix:=20.roll:=20=E6=95=B4=E6=95=B0?=
 =?UTF-8?q?=E3=81=AB=E5=8F=8E=E3=81=BE=E3=82=89=E3=81=AA=E3=81=84=E6=95=B0?=
 =?UTF-8?q?=E3=82=92=E3=82=A8=E3=83=A9=E3=83=BC=E3=81=A8=E3=81=99=E3=82=8B?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 cmd/GoBCDiceREPL/repl/repl.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/cmd/GoBCDiceREPL/repl/repl.go b/cmd/GoBCDiceREPL/repl/repl.go
index 7a9d072..32e29f9 100644
--- a/cmd/GoBCDiceREPL/repl/repl.go
+++ b/cmd/GoBCDiceREPL/repl/repl.go
@@ -373,8 +373,17 @@ func rollDice(r *REPL, c *Command, input string) {
 		}()
 	}
 
-	num, _ := strconv.Atoi(matches[1])
-	sides, _ := strconv.Atoi(matches[2])
+	num, numErr := strconv.Atoi(matches[1])
+	if numErr != nil {
+		r.printError(numErr)
+		return
+	}
+
+	sides, sidesErr := strconv.Atoi(matches[2])
+	if sidesErr != nil {
+		r.printError(sidesErr)
+		return
+	}
 
 	rolledDice, err := r.diceRoller.RollDice(num, sides)
 	if err != nil {
-- 
2.43.0


From b3345a8514f94d81f0533b87ad83e723f6470e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:21 +0000
Subject: [PATCH 14/14] fix: keep the bytes of a command when the secret roll
 marker is removed

---
 pkg/core/util/secret_roll.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/core/util/secret_roll.go b/pkg/core/util/secret_roll.go
index 281e716..0d30af3 100644
--- a/pkg/core/util/secret_roll.go
+++ b/pkg/core/util/secret_roll.go
@@ -14,7 +14,7 @@ func CheckIfInputMayBeASecretRoll(input string) (string, bool) {
 
 	switch inputRunes[0] {
 	case 'S', 's':
-		return string(inputRunes[1:len(inputRunes)]), true
+		return input[1:], true
 	default:
 		return input, false
 	}
-- 
2.43.0

