From a100a57480e4abdc4e292ee5f065172dc243b053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:44 +0000
Subject: [PATCH 01/59] fix: don't drop headless diagnostics that quote invalid
 UTF-8

A source file may contain bytes that are not valid UTF-8. A diagnostic whose
message or fix text quotes them failed to marshal, and writeMessage's error is
ignored, so the diagnostic silently disappeared (only with --fix, for fixes).
Allow invalid UTF-8 when marshalling; it is encoded as U+FFFD.
---
 cmd/tsgolint/headless.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/tsgolint/headless.go b/cmd/tsgolint/headless.go
index 8ed760f..b963733 100644
--- a/cmd/tsgolint/headless.go
+++ b/cmd/tsgolint/headless.go
@@ -13,6 +13,7 @@ import (
 	"sync"
 
 	"github.com/go-json-experiment/json"
+	"github.com/go-json-experiment/json/jsontext"
 
 	"github.com/microsoft/typescript-go/shim/ast"
 	"github.com/microsoft/typescript-go/shim/bundled"
@@ -193,7 +194,9 @@ func internalToAny(d diagnostic.Internal) anyDiagnostic {
 }
 
 func writeMessage(w io.Writer, messageType headlessMessageType, payload any) error {
-	payloadBytes, err := json.Marshal(payload)
+	// Messages and fixes quote source text, which isn't guaranteed to be valid UTF-8.
+	// Without this option such a message would fail to marshal and would be lost.
+	payloadBytes, err := json.Marshal(payload, jsontext.AllowInvalidUTF8(true))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From de90545ed6e56552a9a96ecafb30acf8559b17ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:12 +0000
Subject: [PATCH 02/59] fix: never return an inverted text range for missing
 nodes

In a file with syntax errors the parser creates empty (missing) nodes. The
token at their position starts behind their end, so TrimNodeTextRange returned
a range with end < pos, which rules slice the source text with (panic) or
report to the client.
---
 internal/utils/utils.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/utils/utils.go b/internal/utils/utils.go
index 5d71d0e..6105ab1 100644
--- a/internal/utils/utils.go
+++ b/internal/utils/utils.go
@@ -13,7 +13,9 @@ import (
 )
 
 func TrimNodeTextRange(sourceFile *ast.SourceFile, node *ast.Node) core.TextRange {
-	return scanner.GetRangeOfTokenAtPosition(sourceFile, node.Pos()).WithEnd(node.End())
+	// A missing node (of a file with syntax errors) is empty, the token found at its position starts behind its end.
+	start := min(scanner.GetRangeOfTokenAtPosition(sourceFile, node.Pos()).Pos(), node.End())
+	return core.NewTextRange(start, node.End())
 }
 
 func GetCommentsInRange(sourceFile *ast.SourceFile, inRange core.TextRange) iter.Seq[ast.CommentRange] {
-- 
2.43.0


From a5b058ce34cefcfef1f40318e6c4a7629f7c5772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:12 +0000
Subject: [PATCH 03/59] fix(no-deprecated): don't loop forever on circular
 aliases

The walk along an alias chain never ended for a circular alias such as
`namespace N { export { N } }`-like or self re-exports.
---
 internal/rules/no_deprecated/no_deprecated.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/rules/no_deprecated/no_deprecated.go b/internal/rules/no_deprecated/no_deprecated.go
index ad824b1..57fa96f 100644
--- a/internal/rules/no_deprecated/no_deprecated.go
+++ b/internal/rules/no_deprecated/no_deprecated.go
@@ -157,8 +157,15 @@ var NoDeprecatedRule = rule.Rule{
 			}
 
 			targetSymbol := ctx.TypeChecker.GetAliasedSymbol(symbol)
+			// Aliases can be circular, e.g. `export { A } from './self'`.
+			visited := map[*ast.Symbol]struct{}{}
 
 			for utils.IsSymbolFlagSet(symbol, ast.SymbolFlagsAlias) {
+				if _, ok := visited[symbol]; ok {
+					break
+				}
+				visited[symbol] = struct{}{}
+
 				isDeprecated, reason := getJsDocDeprecation(symbol)
 				if isDeprecated {
 					return true, reason
-- 
2.43.0


From c926597d067a9892c5b4e45fef7279ed0a060e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:12 +0000
Subject: [PATCH 04/59] fix(no-mixed-enums): don't crash on merged declarations
 without members

The first declaration of a merged enum may be an empty enum or a namespace.
---
 internal/rules/no_mixed_enums/no_mixed_enums.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/internal/rules/no_mixed_enums/no_mixed_enums.go b/internal/rules/no_mixed_enums/no_mixed_enums.go
index c2ac6ee..98a22bb 100644
--- a/internal/rules/no_mixed_enums/no_mixed_enums.go
+++ b/internal/rules/no_mixed_enums/no_mixed_enums.go
@@ -51,9 +51,16 @@ var NoMixedEnumsRule = rule.Rule{
 		getDesiredTypeForDefinition := func(node *ast.Node) allowedType {
 			symbol := ctx.TypeChecker.GetSymbolAtLocation(node.Name())
 
-			declaration := symbol.Declarations[0]
+			if symbol != nil {
+				// The enum may be merged with other declarations: empty enums or namespaces.
+				for _, declaration := range symbol.Declarations {
+					if ast.IsEnumDeclaration(declaration) && len(declaration.Members()) > 0 {
+						return getMemberType(declaration.Members()[0])
+					}
+				}
+			}
 
-			return getMemberType(declaration.Members()[0])
+			return getMemberType(node.Members()[0])
 		}
 		return rule.RuleListeners{
 			ast.KindEnumDeclaration: func(node *ast.Node) {
-- 
2.43.0


From b3d899116d99d2e5fbe02f0572a535c3f82e50aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:49 +0000
Subject: [PATCH 05/59] fix(no-unnecessary-template-expression): don't crash on
 unterminated literals

The raw text of a literal or template span that isn't closed can't be sliced.
---
 .../no_unnecessary_template_expression.go                    | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/rules/no_unnecessary_template_expression/no_unnecessary_template_expression.go b/internal/rules/no_unnecessary_template_expression/no_unnecessary_template_expression.go
index 845c323..d47a12d 100644
--- a/internal/rules/no_unnecessary_template_expression/no_unnecessary_template_expression.go
+++ b/internal/rules/no_unnecessary_template_expression/no_unnecessary_template_expression.go
@@ -140,6 +140,11 @@ var NoUnnecessaryTemplateExpressionRule = rule.Rule{
 				expression = expression.AsLiteralTypeNode().Literal
 			}
 
+			// The text of the interpolation can't be taken apart if it isn't closed.
+			if ast.NodeIsMissing(nextQuasiLiteral) || ast.IsUnterminatedLiteral(expression) {
+				return false
+			}
+
 			if isFixableIdentifier(expression) {
 				return true
 			}
-- 
2.43.0


From f1a5843c3fc3eaf361bd02110042081841cffa72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:28 +0000
Subject: [PATCH 06/59] fix: order the files of the inferred program
 deterministically

The unmatched files were collected by ranging over a map, so the order of the
inferred program's root files was random. When two of them declare the same
global, its type, and with it the reported diagnostics, changed between runs.
---
 cmd/tsgolint/headless.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/tsgolint/headless.go b/cmd/tsgolint/headless.go
index b963733..5325f3a 100644
--- a/cmd/tsgolint/headless.go
+++ b/cmd/tsgolint/headless.go
@@ -294,6 +294,9 @@ func runHeadless(args []string) int {
 			workload.Programs[tsconfig] = append(workload.Programs[tsconfig], file)
 		}
 	}
+	// All unmatched files become the root files of one inferred program. Map iteration order is random, whereas
+	// the order of root files matters, e.g. for conflicting global declarations.
+	slices.Sort(workload.UnmatchedFiles)
 
 	if logLevel == utils.LogLevelDebug {
 		for file, tsconfig := range result {
-- 
2.43.0


From 6c322b184e95854f5a86914d452f20a43fd213b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:02 +0000
Subject: [PATCH 07/59] fix(use-unknown-in-catch-callback-variable): don't
 crash on an empty tuple rest parameter

---
 .../use_unknown_in_catch_callback_variable.go              | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/rules/use_unknown_in_catch_callback_variable/use_unknown_in_catch_callback_variable.go b/internal/rules/use_unknown_in_catch_callback_variable/use_unknown_in_catch_callback_variable.go
index 4d46911..b75559e 100644
--- a/internal/rules/use_unknown_in_catch_callback_variable/use_unknown_in_catch_callback_variable.go
+++ b/internal/rules/use_unknown_in_catch_callback_variable/use_unknown_in_catch_callback_variable.go
@@ -79,7 +79,12 @@ var UseUnknownInCatchCallbackVariableRule = rule.Rule{
 						if !checker.Checker_isArrayOrTupleType(ctx.TypeChecker, firstParamType) {
 							return true
 						}
-						firstParamType = checker.Checker_getTypeArguments(ctx.TypeChecker, firstParamType)[0]
+						typeArguments := checker.Checker_getTypeArguments(ctx.TypeChecker, firstParamType)
+						if len(typeArguments) == 0 {
+							// `(...args: []) => {}` doesn't have any parameters
+							continue
+						}
+						firstParamType = typeArguments[0]
 					}
 
 					if !utils.IsTypeFlagSet(firstParamType, checker.TypeFlagsUnknown) {
-- 
2.43.0


From 27bcb4c0655fbdf727d32e723c420e13736d1c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:02 +0000
Subject: [PATCH 08/59] fix(no-unnecessary-template-expression): don't report a
 range behind the end of the file

A template that isn't closed has no tail the range could end with.
---
 .../no_unnecessary_template_expression.go                       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/rules/no_unnecessary_template_expression/no_unnecessary_template_expression.go b/internal/rules/no_unnecessary_template_expression/no_unnecessary_template_expression.go
index d47a12d..2f2699f 100644
--- a/internal/rules/no_unnecessary_template_expression/no_unnecessary_template_expression.go
+++ b/internal/rules/no_unnecessary_template_expression/no_unnecessary_template_expression.go
@@ -219,7 +219,7 @@ var NoUnnecessaryTemplateExpressionRule = rule.Rule{
 		}
 
 		isTrivialInterpolation := func(templateSpans *ast.NodeList, head *ast.TemplateHeadNode, firstSpanLiteral *ast.Node) bool {
-			return len(templateSpans.Nodes) == 1 && head.AsTemplateHead().Text == "" && firstSpanLiteral.Text() == "" && !utils.HasCommentsInRange(ctx.SourceFile, core.NewTextRange(head.End(), firstSpanLiteral.Pos())) && !utils.HasCommentsInRange(ctx.SourceFile, core.NewTextRange(firstSpanLiteral.Pos(), utils.TrimNodeTextRange(ctx.SourceFile, firstSpanLiteral).Pos()))
+			return len(templateSpans.Nodes) == 1 && ast.NodeIsPresent(firstSpanLiteral) && head.AsTemplateHead().Text == "" && firstSpanLiteral.Text() == "" && !utils.HasCommentsInRange(ctx.SourceFile, core.NewTextRange(head.End(), firstSpanLiteral.Pos())) && !utils.HasCommentsInRange(ctx.SourceFile, core.NewTextRange(firstSpanLiteral.Pos(), utils.TrimNodeTextRange(ctx.SourceFile, firstSpanLiteral).Pos()))
 		}
 
 		isEnumMemberType := func(t *checker.Type) bool {
-- 
2.43.0


From d23d72be5707da85483e1f9e5ea2bface9818e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:25 +0000
Subject: [PATCH 09/59] fix: don't hang on a circular tsconfig extends

---
 ...n-a-circular-extends-in-single-run-m.patch | 29 +++++++++++++++++++
 1 file changed, 29 insertions(+)
 create mode 100644 patches/0006-fix-don-t-hang-on-a-circular-extends-in-single-run-m.patch

diff --git a/patches/0006-fix-don-t-hang-on-a-circular-extends-in-single-run-m.patch b/patches/0006-fix-don-t-hang-on-a-circular-extends-in-single-run-m.patch
new file mode 100644
index 0000000..0139bb1
--- /dev/null
+++ b/patches/0006-fix-don-t-hang-on-a-circular-extends-in-single-run-m.patch
@@ -0,0 +1,29 @@
+From c4916c22ed2853838b034e28783e56e8ef2ab3dc Mon Sep 17 00:00:00 2001
+From: tsgolint <tsgolint@example.com>
+Date: Thu, 19 Nov 2026 21:00:18 +0000
+Subject: [PATCH 6/6] fix: don't hang on a circular extends in single-run mode
+
+---
+ internal/project/configfileregistrybuilder.go | 5 +++--
+ 1 file changed, 3 insertions(+), 2 deletions(-)
+
+diff --git a/internal/project/configfileregistrybuilder.go b/internal/project/configfileregistrybuilder.go
+index 84a5111..5f6d7bb 100644
+--- a/internal/project/configfileregistrybuilder.go
++++ b/internal/project/configfileregistrybuilder.go
+@@ -124,9 +124,10 @@ func (c *ConfigFileRegistryBuilder) reloadIfNeeded(entry *configFileEntry, fileN
+ 		entry.commandLine = entry.commandLine.ReloadFileNamesOfParsedCommandLine(c.fs)
+ 	case PendingReloadFull:
+ 		logger.Log("Loading config file: " + fileName)
+-		oldCommandLine := entry.commandLine
+ 		entry.commandLine, _ = tsoptions.GetParsedCommandLineOfConfigFilePath(fileName, path, nil, nil /*optionsRaw*/, c, c)
+-		c.updateExtendingConfigs(path, entry.commandLine, oldCommandLine)
++		// Extending configs are only tracked to invalidate them when an extended config changes, which can't happen
++		// in a single run. Tracking them locks the entries of the extended configs while holding the lock of this
++		// one: a circular `extends` would never finish.
+ 		c.updateRootFilesWatch(fileName, entry)
+ 		logger.Log("Finished loading config file")
+ 	default:
+-- 
+2.43.0
+
-- 
2.43.0


From 6a409f0e623bb6cd111c55d8c1875dc45fbb4b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:55 +0000
Subject: [PATCH 10/59] fix: quote any source text in the plain output without
 crashing

---
 cmd/tsgolint/main.go | 44 ++++++++++++++++----------------------------
 1 file changed, 16 insertions(+), 28 deletions(-)

diff --git a/cmd/tsgolint/main.go b/cmd/tsgolint/main.go
index 4429b31..f065fba 100644
--- a/cmd/tsgolint/main.go
+++ b/cmd/tsgolint/main.go
@@ -15,6 +15,7 @@ import (
 	"sync"
 	"time"
 	"unicode"
+	"unicode/utf8"
 
 	"github.com/typescript-eslint/tsgolint/internal/diagnostic"
 	"github.com/typescript-eslint/tsgolint/internal/linter"
@@ -244,9 +245,6 @@ func printDiagnostic(d rule.RuleDiagnostic, w *bufio.Writer, comparePathOptions
 	codeboxStartLine := max(diagnosticStartLine-1, 0)
 	codeboxEndLine := min(diagnosticEndline+1, len(lineMap)-1)
 
-	codeboxStart := scanner.GetECMAPositionOfLineAndUTF16Character(d.SourceFile, codeboxStartLine, 0)
-	codeboxEnd := scanner.GetECMAEndLinePosition(d.SourceFile, codeboxEndLine) + 1
-
 	w.Write([]byte{' ', 0x1b, '[', '7', 'm', 0x1b, '[', '1', 'm', 0x1b, '[', '3', '8', ';', '5', ';', '3', '7', 'm', ' '})
 	w.WriteString(d.RuleName)
 	w.WriteString(" \x1b[0m — ")
@@ -271,9 +269,6 @@ func printDiagnostic(d rule.RuleDiagnostic, w *bufio.Writer, comparePathOptions
 	w.WriteString("\x1b[0m \x1b[2m)─────\x1b[0m\n")
 
 	indentSize := math.MaxInt
-	line := codeboxStartLine
-	lineIndentCalculated := false
-	lastNonSpaceIndex := -1
 
 	lineStarts := make([]int, 13)
 	lineEnds := make([]int, 13)
@@ -283,29 +278,18 @@ func printDiagnostic(d rule.RuleDiagnostic, w *bufio.Writer, comparePathOptions
 		return
 	}
 
-	for i, char := range text[codeboxStart:codeboxEnd] {
-		if char == '\n' {
-			if line != codeboxEndLine {
-				lineIndentCalculated = false
-				lineEnds[line-codeboxStartLine] = lastNonSpaceIndex - int(lineMap[line]) + codeboxStart
-				lastNonSpaceIndex = -1
-				line++
-			}
-			continue
-		}
-
-		if !lineIndentCalculated && !unicode.IsSpace(char) {
-			lineIndentCalculated = true
-			lineStarts[line-codeboxStartLine] = i - int(lineMap[line]) + codeboxStart
-			indentSize = min(indentSize, lineStarts[line-codeboxStartLine])
+	for line := codeboxStartLine; line <= codeboxEndLine; line++ {
+		lineEnd := len(text)
+		if line+1 < len(lineMap) {
+			lineEnd = int(lineMap[line+1])
 		}
-
-		if lineIndentCalculated && !unicode.IsSpace(char) {
-			lastNonSpaceIndex = i + 1
+		lineText := strings.TrimRightFunc(text[lineMap[line]:lineEnd], unicode.IsSpace)
+		if lineText == "" {
+			continue
 		}
-	}
-	if line == codeboxEndLine {
-		lineEnds[line-codeboxStartLine] = lastNonSpaceIndex - int(lineMap[line]) + codeboxStart
+		lineStarts[line-codeboxStartLine] = len(lineText) - len(strings.TrimLeftFunc(lineText, unicode.IsSpace))
+		lineEnds[line-codeboxStartLine] = len(lineText)
+		indentSize = min(indentSize, lineStarts[line-codeboxStartLine])
 	}
 
 	diagnosticHighlightActive := false
@@ -323,7 +307,11 @@ func printDiagnostic(d rule.RuleDiagnostic, w *bufio.Writer, comparePathOptions
 		}
 		w.WriteString(" │\x1b[0m  ")
 
-		lineTextStart := int(lineMap[line]) + indentSize
+		// Blank lines can be shorter than the indent, and it can end in the middle of a wide space of this line.
+		lineTextStart := int(lineMap[line]) + min(indentSize, lineEnds[line-codeboxStartLine])
+		for lineTextStart < len(text) && !utf8.RuneStart(text[lineTextStart]) {
+			lineTextStart++
+		}
 		underlineStart := max(lineTextStart, int(lineMap[line])+lineStarts[line-codeboxStartLine])
 		underlineEnd := underlineStart
 		lineTextEnd := max(int(lineMap[line])+lineEnds[line-codeboxStartLine], lineTextStart)
-- 
2.43.0


From 91d06c2a34958838a8e4ec9cf16093e6b4d3084e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:43 +0000
Subject: [PATCH 11/59] fix(await-thenable): don't crash on intersections of
 iterables, don't take strings for arrays of awaitables

---
 internal/rules/await_thenable/await_thenable.go | 15 ++++++++++-----
 shim/checker/extra-shim.json                    |  1 +
 shim/checker/shim.go                            |  2 ++
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/internal/rules/await_thenable/await_thenable.go b/internal/rules/await_thenable/await_thenable.go
index e9cdd39..d6ef929 100644
--- a/internal/rules/await_thenable/await_thenable.go
+++ b/internal/rules/await_thenable/await_thenable.go
@@ -302,13 +302,18 @@ func getValueTypesOfArrayLike(
 		return checker.Checker_getTypeArguments(typeChecker, t)
 	}
 
-	if numberIndexType := utils.GetNumberIndexType(typeChecker, t); numberIndexType != nil {
-		return []*checker.Type{numberIndexType}
+	if checker.Checker_isArrayLikeType(typeChecker, t) {
+		if numberIndexType := utils.GetNumberIndexType(typeChecker, t); numberIndexType != nil {
+			return []*checker.Type{numberIndexType}
+		}
 	}
 
-	typeArguments := checker.Checker_getTypeArguments(typeChecker, t)
-	if len(typeArguments) != 0 {
-		return typeArguments[:1]
+	// `Iterable<...>`
+	if utils.IsObjectType(t) && checker.Type_objectFlags(t)&checker.ObjectFlagsReference != 0 {
+		typeArguments := checker.Checker_getTypeArguments(typeChecker, t)
+		if len(typeArguments) != 0 {
+			return typeArguments[:1]
+		}
 	}
 
 	return nil
diff --git a/shim/checker/extra-shim.json b/shim/checker/extra-shim.json
index 5dbd06c..e3a915e 100644
--- a/shim/checker/extra-shim.json
+++ b/shim/checker/extra-shim.json
@@ -17,6 +17,7 @@
       "getPropertyNameForKnownSymbolName",
       "getTypeFromTypeNode",
       "getAccessedPropertyName",
+      "isArrayLikeType",
       "isArrayOrTupleType",
       "isArrayType",
       "getTypeArguments",
diff --git a/shim/checker/shim.go b/shim/checker/shim.go
index 3788f78..b0af783 100644
--- a/shim/checker/shim.go
+++ b/shim/checker/shim.go
@@ -123,6 +123,8 @@ func Checker_getApparentType(recv *checker.Checker, t *checker.Type) *checker.Ty
 func Checker_getTypeArguments(recv *checker.Checker, t *checker.Type) []*checker.Type
 //go:linkname Checker_getTypeFromTypeNode github.com/microsoft/typescript-go/internal/checker.(*Checker).getTypeFromTypeNode
 func Checker_getTypeFromTypeNode(recv *checker.Checker, node *ast.Node) *checker.Type
+//go:linkname Checker_isArrayLikeType github.com/microsoft/typescript-go/internal/checker.(*Checker).isArrayLikeType
+func Checker_isArrayLikeType(recv *checker.Checker, t *checker.Type) bool
 //go:linkname Checker_isArrayType github.com/microsoft/typescript-go/internal/checker.(*Checker).isArrayType
 func Checker_isArrayType(recv *checker.Checker, t *checker.Type) bool
 //go:linkname Checker_isArrayOrTupleType github.com/microsoft/typescript-go/internal/checker.(*Checker).isArrayOrTupleType
-- 
2.43.0


From 2cc3dcefcec9c13f481c620b09668ff675f8bfe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:09 +0000
Subject: [PATCH 12/59] fix(promise-function-async): methods of object literals
 are governed by checkFunctionExpressions

---
 .../promise_function_async/promise_function_async.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/rules/promise_function_async/promise_function_async.go b/internal/rules/promise_function_async/promise_function_async.go
index 1f6844e..fb77735 100644
--- a/internal/rules/promise_function_async/promise_function_async.go
+++ b/internal/rules/promise_function_async/promise_function_async.go
@@ -179,8 +179,18 @@ var PromiseFunctionAsyncRule = rule.Rule{
 			listeners[ast.KindFunctionExpression] = validateNode
 		}
 
-		if opts.CheckMethodDeclarations {
+		if opts.CheckMethodDeclarations || opts.CheckFunctionExpressions {
 			listeners[ast.KindMethodDeclaration] = func(node *ast.Node) {
+				// A method of an object literal is a function expression with a shorthand syntax
+				if ast.IsObjectLiteralExpression(node.Parent) {
+					if opts.CheckFunctionExpressions {
+						validateNode(node)
+					}
+					return
+				}
+				if !opts.CheckMethodDeclarations {
+					return
+				}
 				if utils.IncludesModifier(node, ast.KindAbstractKeyword) {
 					// Abstract method can't be async
 					return
-- 
2.43.0


From 62d4e289fc79d7c7ba84c1327e9329ab55971ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:31 +0000
Subject: [PATCH 13/59] fix(prefer-find): look at the optional chain before at,
 not the one after it

---
 internal/rules/prefer_find/prefer_find.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/rules/prefer_find/prefer_find.go b/internal/rules/prefer_find/prefer_find.go
index d6a87c3..f109bdd 100644
--- a/internal/rules/prefer_find/prefer_find.go
+++ b/internal/rules/prefer_find/prefer_find.go
@@ -453,12 +453,13 @@ var PreferFindRule = rule.Rule{
 				return nil
 			}
 
-			if callExpression.QuestionDotToken != nil {
+			callee := ast.SkipParentheses(callExpression.Expression)
+			if callee == nil || (!ast.IsPropertyAccessExpression(callee) && !ast.IsElementAccessExpression(callee)) {
 				return nil
 			}
 
-			callee := ast.SkipParentheses(callExpression.Expression)
-			if callee == nil || (!ast.IsPropertyAccessExpression(callee) && !ast.IsElementAccessExpression(callee)) {
+			// `arr.filter()?.at(0)`
+			if callee.QuestionDotToken() != nil {
 				return nil
 			}
 
-- 
2.43.0


From e6bbce96d96b54ebb0b8f18d2cd8a564b27c2cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:28 +0000
Subject: [PATCH 14/59] fix(related-getter-setter-pairs): pair accessors whose
 name is quoted only once

---
 internal/utils/ts_eslint.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/internal/utils/ts_eslint.go b/internal/utils/ts_eslint.go
index ef71320..e3c694b 100644
--- a/internal/utils/ts_eslint.go
+++ b/internal/utils/ts_eslint.go
@@ -618,6 +618,13 @@ const (
 	MemberNameTypeExpression
 )
 
+func literalMemberName(text string) (string, MemberNameType) {
+	if !scanner.IsValidIdentifier(text) {
+		return "\"" + text + "\"", MemberNameTypeQuoted
+	}
+	return text, MemberNameTypeNormal
+}
+
 /**
  * Gets a string name representation of the name of the given MethodDefinition
  * or PropertyDefinition node, with handling for computed property names.
@@ -632,12 +639,10 @@ func GetNameFromMember(sourceFile *ast.SourceFile, member *ast.Node) (string, Me
 		expr := member.AsComputedPropertyName().Expression
 		// TODO(port): support boolean keywords, null keywords, etc
 		if ast.IsLiteralExpression(expr) {
-			text := expr.Text()
-			if !scanner.IsValidIdentifier(text) {
-				return "\"" + text + "\"", MemberNameTypeQuoted
-			}
-			return text, MemberNameTypeNormal
+			return literalMemberName(expr.Text())
 		}
+	case ast.KindStringLiteral, ast.KindNumericLiteral, ast.KindBigIntLiteral:
+		return literalMemberName(member.Text())
 	}
 
 	r := TrimNodeTextRange(sourceFile, member)
-- 
2.43.0


From 7d394b746bb2701858811bf17c65cd9b0a7df85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:06 +0000
Subject: [PATCH 15/59] fix(no-base-to-string): see through parentheses around
 String

---
 internal/rules/no_base_to_string/no_base_to_string.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/rules/no_base_to_string/no_base_to_string.go b/internal/rules/no_base_to_string/no_base_to_string.go
index 525bea4..d55b6f6 100644
--- a/internal/rules/no_base_to_string/no_base_to_string.go
+++ b/internal/rules/no_base_to_string/no_base_to_string.go
@@ -307,8 +307,9 @@ var NoBaseToStringRule = rule.Rule{
 		}
 
 		isBuiltInStringCall := func(node *ast.CallExpression) bool {
-			if ast.IsIdentifier(node.Expression) && node.Expression.AsIdentifier().Text == "String" && len(node.Arguments.Nodes) > 0 {
-				tt := ctx.TypeChecker.GetTypeAtLocation(node.Expression)
+			callee := ast.SkipParentheses(node.Expression)
+			if ast.IsIdentifier(callee) && callee.AsIdentifier().Text == "String" && len(node.Arguments.Nodes) > 0 {
+				tt := ctx.TypeChecker.GetTypeAtLocation(callee)
 				s := utils.IsBuiltinSymbolLike(ctx.Program, ctx.TypeChecker, tt, "String")
 				sc := utils.IsBuiltinSymbolLike(ctx.Program, ctx.TypeChecker, tt, "StringConstructor")
 				return s || sc
-- 
2.43.0


From a7aac500e1846be0e10cca424aeb49a2d0dbb1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:46 +0000
Subject: [PATCH 16/59] fix(no-unnecessary-condition): null | undefined is
 always nullish

---
 .../no_unnecessary_condition/no_unnecessary_condition.go     | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/rules/no_unnecessary_condition/no_unnecessary_condition.go b/internal/rules/no_unnecessary_condition/no_unnecessary_condition.go
index 795150e..7f777d3 100644
--- a/internal/rules/no_unnecessary_condition/no_unnecessary_condition.go
+++ b/internal/rules/no_unnecessary_condition/no_unnecessary_condition.go
@@ -244,8 +244,9 @@ func isIndeterminateType(t *checker.Type) bool {
 // Note: This is different from isNullishType which returns true if a type
 // CAN BE nullish (including unions like string | null).
 func isAlwaysNullishType(t *checker.Type) bool {
-	flags := checker.Type_flags(t)
-	return flags&(checker.TypeFlagsNull|checker.TypeFlagsUndefined|checker.TypeFlagsVoid) != 0
+	return utils.Every(utils.UnionTypeParts(t), func(part *checker.Type) bool {
+		return checker.Type_flags(part)&(checker.TypeFlagsNull|checker.TypeFlagsUndefined|checker.TypeFlagsVoid) != 0
+	})
 }
 
 func toStaticValue(t *checker.Type) (any, bool) { //nolint:unparam // the value return is reserved for follow-up checks; current callers only need the static-ness signal
-- 
2.43.0


From cdd47398340a3c64a20b3ab70479fa8e794dc32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:37 +0000
Subject: [PATCH 17/59] fix(unbound-method): don't crash on an untyped this
 parameter

---
 internal/rules/unbound_method/unbound_method.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/rules/unbound_method/unbound_method.go b/internal/rules/unbound_method/unbound_method.go
index 38218f0..b9b8611 100644
--- a/internal/rules/unbound_method/unbound_method.go
+++ b/internal/rules/unbound_method/unbound_method.go
@@ -164,7 +164,7 @@ func checkMethod(valueDeclaration *ast.Node, ignoreStatic bool) ( /* dangerous *
 
 	firstParamIsThis := len(params) > 0 && ast.IsParameterDeclaration(params[0]) && ast.IsIdentifier(params[0].Name()) && params[0].Name().Text() == "this"
 
-	thisArgIsVoid := firstParamIsThis && params[0].Type().Kind == ast.KindVoidKeyword
+	thisArgIsVoid := firstParamIsThis && params[0].Type() != nil && params[0].Type().Kind == ast.KindVoidKeyword
 
 	dangerous := !thisArgIsVoid && (!ignoreStatic || !utils.IncludesModifier(valueDeclaration, ast.KindStaticKeyword))
 
-- 
2.43.0


From 259e5f7d88bb4c674423fab7c3a092564c5c14d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:38 +0000
Subject: [PATCH 18/59] fix(prefer-return-this-type): see through parentheses
 around the return type

---
 .../rules/prefer_return_this_type/prefer_return_this_type.go    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/rules/prefer_return_this_type/prefer_return_this_type.go b/internal/rules/prefer_return_this_type/prefer_return_this_type.go
index dfd4543..9c9070e 100644
--- a/internal/rules/prefer_return_this_type/prefer_return_this_type.go
+++ b/internal/rules/prefer_return_this_type/prefer_return_this_type.go
@@ -18,7 +18,7 @@ var PreferReturnThisTypeRule = rule.Rule{
 	Run: func(ctx rule.RuleContext, options any) rule.RuleListeners {
 		var tryGetNameInTypeNode func(name string, node *ast.Node) *ast.Node
 		tryGetNameInTypeNode = func(name string, node *ast.Node) *ast.Node {
-			node = ast.SkipParentheses(node)
+			node = ast.SkipTypeParentheses(node)
 
 			if ast.IsTypeReferenceNode(node) {
 				n := node.AsTypeReferenceNode().TypeName
-- 
2.43.0


From a72da184d1769f276474e26fc5376ed1e50af6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:38 +0000
Subject: [PATCH 19/59] fix(prefer-includes): ignore layout when comparing the
 parameters of indexOf and includes

---
 internal/rules/prefer_includes/prefer_includes.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/rules/prefer_includes/prefer_includes.go b/internal/rules/prefer_includes/prefer_includes.go
index 4f66a41..a346f83 100644
--- a/internal/rules/prefer_includes/prefer_includes.go
+++ b/internal/rules/prefer_includes/prefer_includes.go
@@ -214,8 +214,10 @@ var PreferIncludesRule = rule.Rule{
 					return false
 				}
 
-				textA := sourceFileA.Text()[paramA.Pos():paramA.End()]
-				textB := sourceFileB.Text()[paramB.Pos():paramB.End()]
+				rangeA := utils.TrimNodeTextRange(sourceFileA, paramA)
+				rangeB := utils.TrimNodeTextRange(sourceFileB, paramB)
+				textA := sourceFileA.Text()[rangeA.Pos():rangeA.End()]
+				textB := sourceFileB.Text()[rangeB.Pos():rangeB.End()]
 				if textA != textB {
 					return false
 				}
-- 
2.43.0


From be0a3294c97adccfd37646cb8a1fa1cd1d48a07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:38 +0000
Subject: [PATCH 20/59] fix(no-unnecessary-type-assertion): honour
 typesToIgnore behind a comment

---
 .../no_unnecessary_type_assertion.go                           | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/rules/no_unnecessary_type_assertion/no_unnecessary_type_assertion.go b/internal/rules/no_unnecessary_type_assertion/no_unnecessary_type_assertion.go
index 7e5bb44..4c7696c 100644
--- a/internal/rules/no_unnecessary_type_assertion/no_unnecessary_type_assertion.go
+++ b/internal/rules/no_unnecessary_type_assertion/no_unnecessary_type_assertion.go
@@ -1071,7 +1071,8 @@ var NoUnnecessaryTypeAssertionRule = rule.Rule{
 
 		checkTypeAssertion := func(node *ast.Node) {
 			typeNode := node.Type()
-			if slices.Contains(opts.TypesToIgnore, strings.TrimSpace(ctx.SourceFile.Text()[typeNode.Pos():typeNode.End()])) {
+			typeRange := utils.TrimNodeTextRange(ctx.SourceFile, typeNode)
+			if slices.Contains(opts.TypesToIgnore, ctx.SourceFile.Text()[typeRange.Pos():typeRange.End()]) {
 				return
 			}
 
-- 
2.43.0


From b1eb9ab79be225f41d08543f133522607f005308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:38 +0000
Subject: [PATCH 21/59] fix(no-unnecessary-type-conversion): see through
 parentheses around the called conversion

---
 .../no_unnecessary_type_conversion.go                         | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/rules/no_unnecessary_type_conversion/no_unnecessary_type_conversion.go b/internal/rules/no_unnecessary_type_conversion/no_unnecessary_type_conversion.go
index c3f6bcf..f018106 100644
--- a/internal/rules/no_unnecessary_type_conversion/no_unnecessary_type_conversion.go
+++ b/internal/rules/no_unnecessary_type_conversion/no_unnecessary_type_conversion.go
@@ -271,11 +271,11 @@ var NoUnnecessaryTypeConversionRule = rule.Rule{
 		}
 
 		reportBuiltInConversionCall := func(node *ast.CallExpression) {
-			if !ast.IsIdentifier(node.Expression) || len(node.Arguments.Nodes) != 1 {
+			callee := ast.SkipParentheses(node.Expression)
+			if !ast.IsIdentifier(callee) || len(node.Arguments.Nodes) != 1 {
 				return
 			}
 
-			callee := node.Expression
 			arg := node.Arguments.Nodes[0]
 			if ast.IsSpreadElement(arg) {
 				return
-- 
2.43.0


From 666e3f628e400f4c6c6995e23bb19e7391a8cf6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:38 +0000
Subject: [PATCH 22/59] fix(no-unnecessary-template-expression): see through
 parentheses around interpolated literals

---
 .../no_unnecessary_template_expression.go                     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/rules/no_unnecessary_template_expression/no_unnecessary_template_expression.go b/internal/rules/no_unnecessary_template_expression/no_unnecessary_template_expression.go
index 2f2699f..fd55c89 100644
--- a/internal/rules/no_unnecessary_template_expression/no_unnecessary_template_expression.go
+++ b/internal/rules/no_unnecessary_template_expression/no_unnecessary_template_expression.go
@@ -245,11 +245,11 @@ var NoUnnecessaryTemplateExpressionRule = rule.Rule{
 				var literal *ast.TemplateMiddleOrTail
 				if span.Kind == ast.KindTemplateSpan {
 					s := span.AsTemplateSpan()
-					expr = s.Expression
+					expr = ast.SkipParentheses(s.Expression)
 					literal = s.Literal
 				} else {
 					s := span.AsTemplateLiteralTypeSpan()
-					expr = s.Type
+					expr = ast.SkipTypeParentheses(s.Type)
 					literal = s.Literal
 				}
 
-- 
2.43.0


From 075e2de95631881e05759cd1f534f224cfd7f8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:38 +0000
Subject: [PATCH 23/59] fix(prefer-optional-chain): ignore layout when
 comparing the calls of two operands

---
 .../prefer_optional_chain.go                  | 35 +++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/internal/rules/prefer_optional_chain/prefer_optional_chain.go b/internal/rules/prefer_optional_chain/prefer_optional_chain.go
index 9fcd745..ea57d75 100644
--- a/internal/rules/prefer_optional_chain/prefer_optional_chain.go
+++ b/internal/rules/prefer_optional_chain/prefer_optional_chain.go
@@ -6,6 +6,7 @@ import (
 	"github.com/microsoft/typescript-go/shim/ast"
 	"github.com/microsoft/typescript-go/shim/checker"
 	"github.com/microsoft/typescript-go/shim/core"
+	"github.com/microsoft/typescript-go/shim/scanner"
 	"github.com/typescript-eslint/tsgolint/internal/rule"
 	"github.com/typescript-eslint/tsgolint/internal/utils"
 )
@@ -744,6 +745,36 @@ func (processor *chainProcessor) getNodeText(node *ast.Node) string {
 	return processor.sourceText[r.Pos():r.End()]
 }
 
+// getTokenText is the text of node without the whitespace and comments between its tokens.
+func (processor *chainProcessor) getTokenText(node *ast.Node) string {
+	var text strings.Builder
+	var visit func(n *ast.Node)
+	visit = func(n *ast.Node) {
+		r := processor.getNodeRange(n)
+		pos := r.Pos()
+		isLeaf := true
+		writeTokensUntil := func(end int) {
+			for pos = scanner.SkipTrivia(processor.sourceText, pos); pos < end; pos = scanner.SkipTrivia(processor.sourceText, pos+1) {
+				text.WriteByte(processor.sourceText[pos])
+			}
+		}
+		n.ForEachChild(func(child *ast.Node) bool {
+			isLeaf = false
+			writeTokensUntil(child.Pos())
+			visit(child)
+			pos = child.End()
+			return false
+		})
+		if isLeaf {
+			text.WriteString(processor.sourceText[pos:r.End()])
+		} else {
+			writeTokensUntil(r.End())
+		}
+	}
+	visit(node)
+	return text.String()
+}
+
 func (processor *chainProcessor) getTypeInfo(node *ast.Node) *TypeInfo {
 	if info, ok := processor.typeCache[node]; ok {
 		return info
@@ -819,8 +850,8 @@ func (processor *chainProcessor) extractCallSignatures(node *ast.Node) map[strin
 		switch {
 		case ast.IsCallExpression(n):
 			call := n.AsCallExpression()
-			exprText := processor.getNodeText(call.Expression)
-			fullText := processor.getNodeText(n)
+			exprText := processor.getTokenText(call.Expression)
+			fullText := processor.getTokenText(n)
 			signatures[exprText] = fullText
 			visit(call.Expression)
 		case ast.IsPropertyAccessExpression(n):
-- 
2.43.0


From 7e35f19f9bf646eadfa90b8ee6eff56527ee0c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:29 +0000
Subject: [PATCH 24/59] fix(prefer-includes): don't take an escaped backslash
 for the escape of the next character

---
 .../rules/prefer_includes/prefer_includes.go  | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/internal/rules/prefer_includes/prefer_includes.go b/internal/rules/prefer_includes/prefer_includes.go
index a346f83..a4cbf30 100644
--- a/internal/rules/prefer_includes/prefer_includes.go
+++ b/internal/rules/prefer_includes/prefer_includes.go
@@ -33,16 +33,25 @@ var PreferIncludesRule = rule.Rule{
 		// Escape special characters for string literal
 		// The pattern from regex already has escape sequences, we only need to escape apostrophes
 		escapeString := func(s string) string {
-			return strings.ReplaceAll(s, "'", "\\'")
+			var escaped strings.Builder
+			isEscaped := false
+			for _, ch := range s {
+				if ch == '\'' && !isEscaped {
+					escaped.WriteByte('\\')
+				}
+				escaped.WriteRune(ch)
+				isEscaped = ch == '\\' && !isEscaped
+			}
+			return escaped.String()
 		}
 
 		// Check if a pattern string contains only simple literal characters
 		// The TypeScript version uses a proper ECMAScript regex parser (@eslint-community/regexpp),
 		// but we just check for unescaped metacharacters and escaped special sequences.
 		isSimpleLiteralPattern := func(pattern string) bool {
-			prevRune := rune(0)
+			isEscaped := false
 			for _, ch := range pattern {
-				if prevRune != '\\' {
+				if !isEscaped {
 					// Unescaped regex metacharacters
 					switch ch {
 					case '.', '*', '+', '?', '|', '^', '$', '[', ']', '(', ')', '{', '}':
@@ -50,13 +59,13 @@ var PreferIncludesRule = rule.Rule{
 					}
 				} else {
 					// Escaped sequences that are regex metacharacters (not simple literals)
-					// \d, \D, \w, \W, \s, \S, \b, \B, \0, \n, \r, \t, \v, \f, \cX, \xHH, \uHHHH, \u{HHHH}
+					// \d, \D, \w, \W, \s, \S, \b, \B, \0, \n, \r, \t, \v, \f, \cX, \xHH, \uHHHH, \u{HHHH}, \1
 					switch ch {
-					case 'd', 'D', 'w', 'W', 's', 'S', 'b', 'B', 'c', 'x', 'u':
+					case 'd', 'D', 'w', 'W', 's', 'S', 'b', 'B', 'c', 'x', 'u', '1', '2', '3', '4', '5', '6', '7', '8', '9':
 						return false
 					}
 				}
-				prevRune = ch
+				isEscaped = ch == '\\' && !isEscaped
 			}
 			return true
 		}
-- 
2.43.0


From 7764a97e18531a43a3134904cc5729102596afca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:16 +0000
Subject: [PATCH 25/59] fix(no-duplicate-type-constituents): don't scan through
 sibling constituents when building the fix

---
 .../no_duplicate_type_constituents.go                | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/rules/no_duplicate_type_constituents/no_duplicate_type_constituents.go b/internal/rules/no_duplicate_type_constituents/no_duplicate_type_constituents.go
index 9608518..251610c 100644
--- a/internal/rules/no_duplicate_type_constituents/no_duplicate_type_constituents.go
+++ b/internal/rules/no_duplicate_type_constituents/no_duplicate_type_constituents.go
@@ -95,7 +95,17 @@ var NoDuplicateTypeConstituentsRule = rule.Rule{
 				}
 
 				parent := unwindedParentType(constituentNode, kind)
-				s := scanner.GetScannerForSourceFile(ctx.SourceFile, parent.Pos())
+				// Start behind the previous constituent: its own tokens (e.g. the ones of a
+				// template literal type) can't be scanned without the parser's context.
+				scanPos := parent.Pos()
+				parent.ForEachChild(func(sibling *ast.Node) bool {
+					if sibling == constituentNode {
+						return true
+					}
+					scanPos = sibling.End()
+					return false
+				})
+				s := scanner.GetScannerForSourceFile(ctx.SourceFile, scanPos)
 				foundBefore := false
 				prevStart := 0
 				bracketBeforeTokens := []core.TextRange{}
-- 
2.43.0


From 5490931e7b7948c8942a26b95f94ca1aed73d898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:44 +0000
Subject: [PATCH 26/59] fix(prefer-optional-chain): a typeof guard that has to
 stay is no chain of its own

---
 .../rules/prefer_optional_chain/prefer_optional_chain.go   | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/rules/prefer_optional_chain/prefer_optional_chain.go b/internal/rules/prefer_optional_chain/prefer_optional_chain.go
index ea57d75..7108d6f 100644
--- a/internal/rules/prefer_optional_chain/prefer_optional_chain.go
+++ b/internal/rules/prefer_optional_chain/prefer_optional_chain.go
@@ -3329,9 +3329,14 @@ func (processor *chainProcessor) generateAndChainFixAndReport(node *ast.Node, ch
 		if hasNonTypeofAfterFirst && chain[0].comparedExpr != nil {
 			typeofTarget := chain[0].comparedExpr
 			symbol := processor.ctx.TypeChecker.GetSymbolAtLocation(typeofTarget)
-			isUndeclared := symbol == nil || len(symbol.Declarations) == 0
+			isUndeclared := ast.IsIdentifier(ast.SkipParentheses(typeofTarget)) &&
+				(symbol == nil || len(symbol.Declarations) == 0)
 
 			if isUndeclared {
+				if len(chain) == 2 {
+					// Nothing is left to shorten once the typeof check has to stay.
+					return
+				}
 				effectiveChainStart = 1
 			}
 		}
-- 
2.43.0


From 064f69462013dbf09237977b90eae5ca734bd1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:44 +0000
Subject: [PATCH 27/59] fix(require-await): find the > of Promise<T > behind
 whitespace

---
 internal/rules/require_await/require_await.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/internal/rules/require_await/require_await.go b/internal/rules/require_await/require_await.go
index ff624f5..760db2b 100644
--- a/internal/rules/require_await/require_await.go
+++ b/internal/rules/require_await/require_await.go
@@ -175,10 +175,9 @@ func buildRemoveAsyncFixes(sourceFile *ast.SourceFile, node *ast.Node, asyncToke
 	case !isGenerator && isTypeReferenceNamed(typeRef, "Promise") && typeRef.TypeArguments != nil && len(typeRef.TypeArguments.Nodes) > 0:
 		// Unwrap `Promise<T>` to `T` by deleting `Promise<` and the trailing `>`.
 		// `TypeArguments.Loc` spans the content between the angle brackets, so
-		// `Pos()-1` is the `<` and `End()` is the `>` (same invariant as parameter
-		// lists; `parseBracketedList` sets these bounds).
+		// `Pos()-1` is the `<`; the `>` follows `End()`, possibly behind trivia.
 		openAnglePos := typeRef.TypeArguments.Loc.Pos() - 1
-		closeAnglePos := typeRef.TypeArguments.Loc.End()
+		closeAnglePos := scanner.SkipTrivia(sourceFile.Text(), typeRef.TypeArguments.Loc.End())
 		fixes = append(fixes,
 			rule.RuleFixRemoveRange(core.NewTextRange(closeAnglePos, closeAnglePos+1)),
 			rule.RuleFixRemoveRange(core.NewTextRange(typeNameStart, openAnglePos+1)),
-- 
2.43.0


From ce7795779ba028114b2d2856f374eed5249a65f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:18 +0000
Subject: [PATCH 28/59] fix(prefer-optional-chain): don't cut parentheses when
 replacing a part of a chain

---
 .../prefer_optional_chain.go                  | 48 +++++++++++++++----
 1 file changed, 40 insertions(+), 8 deletions(-)

diff --git a/internal/rules/prefer_optional_chain/prefer_optional_chain.go b/internal/rules/prefer_optional_chain/prefer_optional_chain.go
index 7108d6f..99b3b50 100644
--- a/internal/rules/prefer_optional_chain/prefer_optional_chain.go
+++ b/internal/rules/prefer_optional_chain/prefer_optional_chain.go
@@ -876,7 +876,37 @@ func (processor *chainProcessor) isChainAlreadySeen(node *ast.Node) bool {
 	return processor.seenRanges[textRange{start: r.Pos(), end: r.End()}]
 }
 
+// getBalancedRange returns the range from the first to the last operand of a chain within node,
+// widened to the parentheses that enclose only operands of the chain. It reports false when the
+// range would cut parentheses that enclose other operands, too.
+func (processor *chainProcessor) getBalancedRange(node, first, last *ast.Node) (int, int, bool) {
+	start, end := processor.getNodeRange(first).Pos(), processor.getNodeRange(last).End()
+	for parent := first.Parent; parent != nil && parent != node.Parent; parent = parent.Parent {
+		if !ast.IsParenthesizedExpression(parent) || parent.End() > end {
+			continue
+		}
+		if processor.getNodeRange(parent.Expression()).Pos() != start {
+			return 0, 0, false
+		}
+		start = processor.getNodeRange(parent).Pos()
+	}
+	for parent := last.Parent; parent != nil && parent != node.Parent; parent = parent.Parent {
+		if !ast.IsParenthesizedExpression(parent) || processor.getNodeRange(parent).Pos() < start {
+			continue
+		}
+		if parent.Expression().End() != end {
+			return 0, 0, false
+		}
+		end = parent.End()
+	}
+	return start, end, true
+}
+
 func (processor *chainProcessor) reportChainWithFixes(node *ast.Node, fixes []rule.RuleFix, useSuggestion bool) {
+	if len(fixes) == 0 {
+		processor.ctx.ReportNode(node, buildPreferOptionalChainMessage())
+		return
+	}
 	if useSuggestion {
 		processor.ctx.ReportNodeWithSuggestions(node, buildPreferOptionalChainMessage(), func() []rule.RuleSuggestion {
 			return []rule.RuleSuggestion{{
@@ -3315,6 +3345,7 @@ func (processor *chainProcessor) generateAndChainFixAndReport(node *ast.Node, ch
 	}
 
 	var replaceStart, replaceEnd int
+	canReplace := true
 
 	// Preserve typeof check on undeclared variables to avoid ReferenceError.
 	effectiveChainStart := 0
@@ -3347,12 +3378,12 @@ func (processor *chainProcessor) generateAndChainFixAndReport(node *ast.Node, ch
 		replaceStart = r.Pos()
 		replaceEnd = r.End()
 	} else {
-		replaceStart = processor.getNodeRange(chain[effectiveChainStart].node).Pos()
-		replaceEnd = processor.getNodeRange(chain[len(chain)-1].node).End()
+		replaceStart, replaceEnd, canReplace = processor.getBalancedRange(node, chain[effectiveChainStart].node, chain[len(chain)-1].node)
 	}
 
-	fixes := []rule.RuleFix{
-		rule.RuleFixReplaceRange(core.NewTextRange(replaceStart, replaceEnd), newCode),
+	fixes := []rule.RuleFix{}
+	if canReplace {
+		fixes = append(fixes, rule.RuleFixReplaceRange(core.NewTextRange(replaceStart, replaceEnd), newCode))
 	}
 
 	// Autofix is safe when: unsafe option enabled, trailing comparison present,
@@ -3553,17 +3584,18 @@ func (processor *chainProcessor) generateOrChainFixAndReport(node *ast.Node, cha
 	}
 
 	var replaceStart, replaceEnd int
+	canReplace := true
 	if len(chain) == len(operandNodes) {
 		r := processor.getNodeRange(node)
 		replaceStart = r.Pos()
 		replaceEnd = r.End()
 	} else {
-		replaceStart = processor.getNodeRange(chain[0].node).Pos()
-		replaceEnd = processor.getNodeRange(chain[len(chain)-1].node).End()
+		replaceStart, replaceEnd, canReplace = processor.getBalancedRange(node, chain[0].node, chain[len(chain)-1].node)
 	}
 
-	fixes := []rule.RuleFix{
-		rule.RuleFixReplaceRange(core.NewTextRange(replaceStart, replaceEnd), newCode),
+	fixes := []rule.RuleFix{}
+	if canReplace {
+		fixes = append(fixes, rule.RuleFixReplaceRange(core.NewTextRange(replaceStart, replaceEnd), newCode))
 	}
 
 	useSuggestion := !processor.opts.AllowPotentiallyUnsafeFixesThatModifyTheReturnTypeIKnowWhatImDoing
-- 
2.43.0


From 870a9933cd43394b31a8af1a2a3d18b30245925c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:24 +0000
Subject: [PATCH 29/59] fix(non-nullable-type-assertion-style): remove the <T>
 of an angle bracket assertion

---
 .../non_nullable_type_assertion_style.go                      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/rules/non_nullable_type_assertion_style/non_nullable_type_assertion_style.go b/internal/rules/non_nullable_type_assertion_style/non_nullable_type_assertion_style.go
index d889f05..e61438c 100644
--- a/internal/rules/non_nullable_type_assertion_style/non_nullable_type_assertion_style.go
+++ b/internal/rules/non_nullable_type_assertion_style/non_nullable_type_assertion_style.go
@@ -85,10 +85,10 @@ var NonNullableTypeAssertionStyleRule = rule.Rule{
 			higherPrecedenceThanUnary := ast.GetExpressionPrecedence(expression) > ast.OperatorPrecedenceUnary
 
 			var removeRange core.TextRange
-			if ast.IsAssertionExpression(node) {
+			if ast.IsAsExpression(node) {
 				removeRange = node.Loc.WithPos(expression.End())
 			} else {
-				removeRange = node.Loc.WithEnd(expression.Pos())
+				removeRange = utils.TrimNodeTextRange(ctx.SourceFile, node).WithEnd(expression.Pos())
 			}
 			fixes := []rule.RuleFix{rule.RuleFixRemoveRange(removeRange)}
 			if higherPrecedenceThanUnary {
-- 
2.43.0


From b2ee4b26b5acbbdd14e3420c237af05419db469e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:37 +0000
Subject: [PATCH 30/59] fix: keep an operand that starts with {, function or
 class an expression when removing void or await

---
 .../rules/await_thenable/await_thenable.go    | 10 ++++---
 .../no_meaningless_void_operator.go           | 12 +++++---
 internal/rules/return_await/return_await.go   | 12 +++++---
 internal/utils/ts_eslint.go                   | 28 +++++++++++++++++++
 4 files changed, 50 insertions(+), 12 deletions(-)

diff --git a/internal/rules/await_thenable/await_thenable.go b/internal/rules/await_thenable/await_thenable.go
index d6ef929..0c68ed4 100644
--- a/internal/rules/await_thenable/await_thenable.go
+++ b/internal/rules/await_thenable/await_thenable.go
@@ -110,11 +110,13 @@ var AwaitThenableRule = rule.Rule{
 						buildAwaitMessage(),
 						utils.TrimNodeTextRange(ctx.SourceFile, awaitArgument),
 					), func() []rule.RuleSuggestion {
+						fixes := []rule.RuleFix{rule.RuleFixRemoveRange(awaitTokenRange)}
+						if utils.StartsBlockOrDeclaration(ctx.SourceFile, node, awaitArgument) {
+							fixes = append(fixes, rule.RuleFixInsertBefore(ctx.SourceFile, awaitArgument, "("), rule.RuleFixInsertAfter(awaitArgument, ")"))
+						}
 						return []rule.RuleSuggestion{{
-							Message: buildRemoveAwaitMessage(),
-							FixesArr: []rule.RuleFix{
-								rule.RuleFixRemoveRange(awaitTokenRange),
-							},
+							Message:  buildRemoveAwaitMessage(),
+							FixesArr: fixes,
 						}}
 					})
 				}
diff --git a/internal/rules/no_meaningless_void_operator/no_meaningless_void_operator.go b/internal/rules/no_meaningless_void_operator/no_meaningless_void_operator.go
index b5a29e1..c08261e 100644
--- a/internal/rules/no_meaningless_void_operator/no_meaningless_void_operator.go
+++ b/internal/rules/no_meaningless_void_operator/no_meaningless_void_operator.go
@@ -41,17 +41,21 @@ var NoMeaninglessVoidOperatorRule = rule.Rule{
 					return utils.IsTypeFlagSet(t, checker.TypeFlagsVoidLike|checker.TypeFlagsNever)
 				})
 
-				fixRemoveVoidKeyword := func() rule.RuleFix {
-					return rule.RuleFixRemoveRange(utils.TrimNodeTextRange(ctx.SourceFile, node).WithEnd(arg.Pos()))
+				fixRemoveVoidKeyword := func() []rule.RuleFix {
+					fixes := []rule.RuleFix{rule.RuleFixRemoveRange(utils.TrimNodeTextRange(ctx.SourceFile, node).WithEnd(arg.Pos()))}
+					if utils.StartsBlockOrDeclaration(ctx.SourceFile, node, arg) {
+						fixes = append(fixes, rule.RuleFixInsertBefore(ctx.SourceFile, arg, "("), rule.RuleFixInsertAfter(arg, ")"))
+					}
+					return fixes
 				}
 
 				if isAlwaysVoidLike {
-					ctx.ReportNodeWithFixes(node, buildMeaninglessVoidOperatorMessage(ctx.TypeChecker.TypeToString(argType)), func() []rule.RuleFix { return []rule.RuleFix{fixRemoveVoidKeyword()} })
+					ctx.ReportNodeWithFixes(node, buildMeaninglessVoidOperatorMessage(ctx.TypeChecker.TypeToString(argType)), fixRemoveVoidKeyword)
 				} else if opts.CheckNever && isAlwaysVoidLikeOrNever {
 					ctx.ReportNodeWithSuggestions(node, buildMeaninglessVoidOperatorMessage(ctx.TypeChecker.TypeToString(argType)), func() []rule.RuleSuggestion {
 						return []rule.RuleSuggestion{{
 							Message:  buildRemoveVoidMessage(),
-							FixesArr: []rule.RuleFix{fixRemoveVoidKeyword()},
+							FixesArr: fixRemoveVoidKeyword(),
 						}}
 					})
 				}
diff --git a/internal/rules/return_await/return_await.go b/internal/rules/return_await/return_await.go
index 160e3ec..c9c902b 100644
--- a/internal/rules/return_await/return_await.go
+++ b/internal/rules/return_await/return_await.go
@@ -197,8 +197,12 @@ var ReturnAwaitRule = rule.Rule{
 			}
 		}
 
-		removeAwaitFix := func(node *ast.Node) rule.RuleFix {
-			return rule.RuleFixRemoveRange(scanner.GetRangeOfTokenAtPosition(ctx.SourceFile, node.Pos()))
+		removeAwaitFix := func(node *ast.Node) []rule.RuleFix {
+			fixes := []rule.RuleFix{rule.RuleFixRemoveRange(scanner.GetRangeOfTokenAtPosition(ctx.SourceFile, node.Pos()))}
+			if argument := node.Expression(); utils.StartsBlockOrDeclaration(ctx.SourceFile, node, argument) {
+				fixes = append(fixes, rule.RuleFixInsertBefore(ctx.SourceFile, argument, "("), rule.RuleFixInsertAfter(argument, ")"))
+			}
+			return fixes
 		}
 		insertAwaitFix := func(node *ast.Node, isHighPrecedence bool) []rule.RuleFix {
 			if isHighPrecedence {
@@ -231,7 +235,7 @@ var ReturnAwaitRule = rule.Rule{
 						return
 					}
 
-					ctx.ReportNodeWithFixes(node, buildNonPromiseAwaitMessage(), func() []rule.RuleFix { return []rule.RuleFix{removeAwaitFix(node)} })
+					ctx.ReportNodeWithFixes(node, buildNonPromiseAwaitMessage(), func() []rule.RuleFix { return removeAwaitFix(node) })
 				}
 				return
 			}
@@ -254,7 +258,7 @@ var ReturnAwaitRule = rule.Rule{
 				if !isAwait {
 					break
 				}
-				rule.ReportNodeWithFixesOrSuggestions(ctx, node, useAutoFix, buildDisallowedPromiseAwaitMessage(), buildDisallowedPromiseAwaitSuggestionMessage(), removeAwaitFix(node))
+				rule.ReportNodeWithFixesOrSuggestions(ctx, node, useAutoFix, buildDisallowedPromiseAwaitMessage(), buildDisallowedPromiseAwaitSuggestionMessage(), removeAwaitFix(node)...)
 			}
 		}
 
diff --git a/internal/utils/ts_eslint.go b/internal/utils/ts_eslint.go
index e3c694b..d9e5a9d 100644
--- a/internal/utils/ts_eslint.go
+++ b/internal/utils/ts_eslint.go
@@ -648,3 +648,31 @@ func GetNameFromMember(sourceFile *ast.SourceFile, member *ast.Node) (string, Me
 	r := TrimNodeTextRange(sourceFile, member)
 	return sourceFile.Text()[r.Pos():r.End()], MemberNameTypeExpression
 }
+
+// StartsBlockOrDeclaration reports whether inner, put in the place of node, would be parsed as a
+// block or as a function or class declaration, because the place is the start of a statement or
+// of the body of an arrow function.
+func StartsBlockOrDeclaration(sourceFile *ast.SourceFile, node *ast.Node, inner *ast.Node) bool {
+	token := scanner.ScanTokenAtPosition(sourceFile, inner.Pos())
+	isBrace := token == ast.KindOpenBraceToken
+	if !isBrace && token != ast.KindFunctionKeyword && token != ast.KindClassKeyword {
+		return false
+	}
+	start := TrimNodeTextRange(sourceFile, node).Pos()
+	for child, parent := node, node.Parent; parent != nil; child, parent = parent, parent.Parent {
+		switch parent.Kind {
+		case ast.KindExpressionStatement:
+			return true
+		case ast.KindExportAssignment:
+			return !isBrace
+		case ast.KindArrowFunction:
+			if parent.Body() == child {
+				return isBrace
+			}
+		}
+		if TrimNodeTextRange(sourceFile, parent).Pos() != start {
+			return false
+		}
+	}
+	return false
+}
-- 
2.43.0


From 5eede872065b6caafee804b55413fd1a41f01edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:30 +0000
Subject: [PATCH 31/59] fix(no-unnecessary-template-expression): keep an
 interpolation that starts with {, function or class an expression

---
 .../no_unnecessary_template_expression.go                      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/rules/no_unnecessary_template_expression/no_unnecessary_template_expression.go b/internal/rules/no_unnecessary_template_expression/no_unnecessary_template_expression.go
index fd55c89..a23c5b0 100644
--- a/internal/rules/no_unnecessary_template_expression/no_unnecessary_template_expression.go
+++ b/internal/rules/no_unnecessary_template_expression/no_unnecessary_template_expression.go
@@ -117,7 +117,8 @@ var NoUnnecessaryTemplateExpressionRule = rule.Rule{
 					interpolation.AsBinaryExpression().OperatorToken.Kind == ast.KindAmpersandAmpersandToken)
 			needsParentheses := parentIsNullishCoalescing && interpolationIsLogical ||
 				ast.IsExpression(template.Parent) &&
-					ast.GetExpressionPrecedence(interpolation) <= ast.GetExpressionPrecedence(template.Parent)
+					ast.GetExpressionPrecedence(interpolation) <= ast.GetExpressionPrecedence(template.Parent) ||
+				ast.IsExpression(interpolation) && utils.StartsBlockOrDeclaration(ctx.SourceFile, template, interpolation)
 			if needsParentheses {
 				text = "(" + text + ")"
 			}
-- 
2.43.0


From f0c0aa19dd8ca80fc27d100dfb5d9277944b160d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:22 +0000
Subject: [PATCH 32/59] fix(unbound-method): follow the value of ?? like that
 of || and &&

---
 internal/rules/unbound_method/unbound_method.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/rules/unbound_method/unbound_method.go b/internal/rules/unbound_method/unbound_method.go
index b9b8611..eba92af 100644
--- a/internal/rules/unbound_method/unbound_method.go
+++ b/internal/rules/unbound_method/unbound_method.go
@@ -117,7 +117,7 @@ func isSafeUse(node *ast.Node) bool {
 			case ast.KindExclamationEqualsToken, ast.KindExclamationEqualsEqualsToken, ast.KindEqualsEqualsToken, ast.KindEqualsEqualsEqualsToken, ast.KindInstanceOfKeyword:
 				return true
 			}
-			if ast.IsLogicalBinaryOperator(operatorKind) {
+			if ast.IsLogicalOrCoalescingBinaryOperator(operatorKind) {
 				continue
 			}
 			if ast.IsAssignmentExpression(parent, true) {
-- 
2.43.0


From 7a1968c3cfd08698109d7014db484854dd5a7e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:22 +0000
Subject: [PATCH 33/59] fix(linter): visit property names inside destructuring
 assignments and treat nested and for-in/of targets as patterns

---
 internal/linter/linter.go | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/internal/linter/linter.go b/internal/linter/linter.go
index 1e3a6fd..c5acf91 100644
--- a/internal/linter/linter.go
+++ b/internal/linter/linter.go
@@ -409,6 +409,17 @@ func visitLintNodes(file *ast.SourceFile, runListeners func(kind ast.Kind, node
 
 	var childVisitor ast.Visitor
 	var patternVisitor func(node *ast.Node)
+	// visits the children of `node`, one of which is a pattern
+	visitChildren := func(node *ast.Node, pattern *ast.Node) {
+		node.ForEachChild(func(child *ast.Node) bool {
+			if child == pattern {
+				patternVisitor(child)
+			} else {
+				childVisitor(child)
+			}
+			return false
+		})
+	}
 	patternVisitor = func(node *ast.Node) {
 		runListeners(node.Kind, node)
 		kind := rule.ListenerOnAllowPattern(node.Kind)
@@ -426,9 +437,14 @@ func visitLintNodes(file *ast.SourceFile, runListeners func(kind ast.Kind, node
 		case ast.KindSpreadElement, ast.KindSpreadAssignment:
 			patternVisitor(node.Expression())
 		case ast.KindPropertyAssignment:
-			patternVisitor(node.Initializer())
+			visitChildren(node, node.Initializer())
 		default:
-			node.ForEachChild(childVisitor)
+			if ast.IsAssignmentExpression(node, true) {
+				// the default value isn't a part of the pattern
+				visitChildren(node, node.AsBinaryExpression().Left)
+			} else {
+				node.ForEachChild(childVisitor)
+			}
 		}
 
 		runListeners(rule.ListenerOnExit(kind), node)
@@ -443,12 +459,16 @@ func visitLintNodes(file *ast.SourceFile, runListeners func(kind ast.Kind, node
 			runListeners(kind, node)
 			node.ForEachChild(childVisitor)
 			runListeners(rule.ListenerOnExit(kind), node)
+		case ast.KindForInStatement, ast.KindForOfStatement:
+			initializer := node.AsForInOrOfStatement().Initializer
+			if ast.IsVariableDeclarationList(initializer) {
+				node.ForEachChild(childVisitor)
+			} else {
+				visitChildren(node, initializer)
+			}
 		default:
 			if ast.IsAssignmentExpression(node, true) {
-				expr := node.AsBinaryExpression()
-				patternVisitor(expr.Left)
-				childVisitor(expr.OperatorToken)
-				childVisitor(expr.Right)
+				visitChildren(node, node.AsBinaryExpression().Left)
 			} else {
 				node.ForEachChild(childVisitor)
 			}
-- 
2.43.0


From 133937f75d9e413fdc051c5be23b277fde969ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:22 +0000
Subject: [PATCH 34/59] fix(linter): keep the order of fixes at the same
 position

---
 internal/linter/source_code_fixer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/linter/source_code_fixer.go b/internal/linter/source_code_fixer.go
index e8e6ea2..0f7db93 100644
--- a/internal/linter/source_code_fixer.go
+++ b/internal/linter/source_code_fixer.go
@@ -19,7 +19,7 @@ func ApplyRuleFixes[M LintMessage](code string, diagnostics []M) (string, []M, b
 
 	for _, diagnostic := range diagnostics {
 		if len(diagnostic.Fixes()) > 0 {
-			slices.SortFunc(diagnostic.Fixes(), func(a rule.RuleFix, b rule.RuleFix) int {
+			slices.SortStableFunc(diagnostic.Fixes(), func(a rule.RuleFix, b rule.RuleFix) int {
 				start := a.Range.Pos() - b.Range.Pos()
 				if start == 0 {
 					return a.Range.End() - b.Range.End()
@@ -32,7 +32,7 @@ func ApplyRuleFixes[M LintMessage](code string, diagnostics []M) (string, []M, b
 		}
 	}
 
-	slices.SortFunc(withFixes, func(a M, b M) int {
+	slices.SortStableFunc(withFixes, func(a M, b M) int {
 		aFixes, bFixes := a.Fixes(), b.Fixes()
 
 		start := aFixes[0].Range.Pos() - bFixes[0].Range.Pos()
-- 
2.43.0


From c61a25c457980a342cdc0debe5aa974bd1504cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:25 +0000
Subject: [PATCH 35/59] fix(no-unnecessary-condition): report positions without
 leading comments and spaces

---
 .../no_unnecessary_condition/no_unnecessary_condition.go      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/rules/no_unnecessary_condition/no_unnecessary_condition.go b/internal/rules/no_unnecessary_condition/no_unnecessary_condition.go
index 7f777d3..68d29c2 100644
--- a/internal/rules/no_unnecessary_condition/no_unnecessary_condition.go
+++ b/internal/rules/no_unnecessary_condition/no_unnecessary_condition.go
@@ -1667,9 +1667,9 @@ var NoUnnecessaryConditionRule = rule.Rule{
 				ctx.ReportDiagnostic(buildNoOverlapDiagnostic(
 					primaryRange,
 					typeNameForDiagnostic(ctx.TypeChecker, leftType),
-					left.Loc,
+					utils.TrimNodeTextRange(ctx.SourceFile, left),
 					typeNameForDiagnostic(ctx.TypeChecker, rightType),
-					right.Loc,
+					utils.TrimNodeTextRange(ctx.SourceFile, right),
 				))
 			}
 		}
-- 
2.43.0


From 7885b9d9c49dec15c83d26c80308e2333da8d69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:25 +0000
Subject: [PATCH 36/59] fix(no-unnecessary-type-assertion): report positions
 without leading comments and spaces

---
 .../no_unnecessary_type_assertion.go                        | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/rules/no_unnecessary_type_assertion/no_unnecessary_type_assertion.go b/internal/rules/no_unnecessary_type_assertion/no_unnecessary_type_assertion.go
index 4c7696c..a0c573b 100644
--- a/internal/rules/no_unnecessary_type_assertion/no_unnecessary_type_assertion.go
+++ b/internal/rules/no_unnecessary_type_assertion/no_unnecessary_type_assertion.go
@@ -1050,7 +1050,7 @@ var NoUnnecessaryTypeAssertionRule = rule.Rule{
 			}
 
 			ctx.ReportDiagnosticWithFixes(rule.RuleDiagnostic{
-				Range: node.Loc,
+				Range: utils.TrimNodeTextRange(ctx.SourceFile, node),
 				Message: rule.RuleMessage{
 					Id:          messageId,
 					Description: description,
@@ -1132,7 +1132,7 @@ var NoUnnecessaryTypeAssertionRule = rule.Rule{
 					!isNullishLiteralToUnion(node, castType)
 
 				if isContextuallyUnnecessary {
-					ctx.ReportDiagnosticWithFixes(buildContextuallyUnnecessaryMessage(node.Loc), func() []rule.RuleFix {
+					ctx.ReportDiagnosticWithFixes(buildContextuallyUnnecessaryMessage(utils.TrimNodeTextRange(ctx.SourceFile, node)), func() []rule.RuleFix {
 						return buildAssertionFixes(node)
 					})
 					return
@@ -1184,7 +1184,7 @@ var NoUnnecessaryTypeAssertionRule = rule.Rule{
 					ctx.ReportDiagnosticWithFixes(
 						buildUnnecessaryAssertionDiagnostic(
 							exclamationRange,
-							expression.Loc,
+							utils.TrimNodeTextRange(ctx.SourceFile, expression),
 							ctx.TypeChecker.TypeToString(constrainedType),
 						),
 						func() []rule.RuleFix { return []rule.RuleFix{buildRemoveExclamationFix(exclamationRange)} },
-- 
2.43.0


From c6bdc19b2f0a4687864796b10de4faffd8f53dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:25 +0000
Subject: [PATCH 37/59] fix(utils): match type specifiers of unions,
 intersections and aliases like typescript-eslint

---
 internal/utils/type_matches_specifier.go | 37 ++++++++++++------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/internal/utils/type_matches_specifier.go b/internal/utils/type_matches_specifier.go
index c97cd54..e201fe3 100644
--- a/internal/utils/type_matches_specifier.go
+++ b/internal/utils/type_matches_specifier.go
@@ -518,28 +518,27 @@ func TypeMatchesSomeSpecifier(
 	specifiers []TypeOrValueSpecifier,
 	program *compiler.Program,
 ) bool {
-	matches := func(t *checker.Type) bool {
-		if IsIntrinsicErrorType(t) {
-			return false
-		}
-		return Some(specifiers, func(s TypeOrValueSpecifier) bool {
-			return typeMatchesSpecifier(t, s, program)
-		})
-	}
+	return Some(specifiers, func(s TypeOrValueSpecifier) bool {
+		return typeOrPartsMatchSpecifier(t, s, program)
+	})
+}
 
-	if matches(t) {
-		return true
+// A union matches a specifier if all of its members do, an intersection also if one of its parts does.
+func typeOrPartsMatchSpecifier(
+	t *checker.Type,
+	specifier TypeOrValueSpecifier,
+	program *compiler.Program,
+) bool {
+	partMatches := func(part *checker.Type) bool {
+		return typeOrPartsMatchSpecifier(part, specifier, program)
 	}
-
-	for _, typePart := range IntersectionTypeParts(t) {
-		if typePart == t {
-			continue
-		}
-		if matches(typePart) {
-			return true
-		}
+	if IsUnionType(t) {
+		return Every(t.Types(), partMatches)
 	}
-	return false
+	if !IsIntrinsicErrorType(t) && typeMatchesSpecifier(t, specifier, program) {
+		return true
+	}
+	return IsIntersectionType(t) && Some(t.Types(), partMatches)
 }
 
 func getStaticName(node *ast.Node) string {
-- 
2.43.0


From 51139aa2cffb294be672e213a3314c51ac6e34cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:25 +0000
Subject: [PATCH 38/59] fix(prefer-readonly-parameter-types): match allowed
 aliases where they are declared

---
 .../prefer_readonly_parameter_types.go                 | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/rules/prefer_readonly_parameter_types/prefer_readonly_parameter_types.go b/internal/rules/prefer_readonly_parameter_types/prefer_readonly_parameter_types.go
index a55c730..2fcbfd5 100644
--- a/internal/rules/prefer_readonly_parameter_types/prefer_readonly_parameter_types.go
+++ b/internal/rules/prefer_readonly_parameter_types/prefer_readonly_parameter_types.go
@@ -226,6 +226,16 @@ func isTypeReadonlyRecurser(
 ) readonlyness {
 	seenTypes[t] = struct{}{}
 
+	// An alias is allowed where it is declared itself, whatever it stands for.
+	if alias := checker.Type_alias(t); alias != nil {
+		symbol := alias.Symbol()
+		if utils.Some(opts.allow, func(s utils.TypeOrValueSpecifier) bool {
+			return utils.SymbolMatchesSpecifierNameAndSource(symbol, symbol.Name, s, program)
+		}) {
+			return readonlynessReadonly
+		}
+	}
+
 	if utils.TypeMatchesSomeSpecifier(t, opts.allow, program) {
 		return readonlynessReadonly
 	}
-- 
2.43.0


From 18990d2603922bce790dcaf1cd83e9eb3d473301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:25 +0000
Subject: [PATCH 39/59] fix(no-floating-promises): look through parentheses
 around a known safe callee

---
 internal/rules/no_floating_promises/no_floating_promises.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/rules/no_floating_promises/no_floating_promises.go b/internal/rules/no_floating_promises/no_floating_promises.go
index 3fd2337..4602867 100644
--- a/internal/rules/no_floating_promises/no_floating_promises.go
+++ b/internal/rules/no_floating_promises/no_floating_promises.go
@@ -216,7 +216,7 @@ var NoFloatingPromisesRule = rule.Rule{
 			t := ctx.TypeChecker.GetTypeAtLocation(callExpression.Expression)
 
 			if utils.ValueMatchesSomeSpecifier(
-				callExpression.Expression,
+				ast.SkipParentheses(callExpression.Expression),
 				opts.AllowForKnownSafeCalls,
 				ctx.Program,
 				t,
-- 
2.43.0


From 22d487d23d030bf4f1e5d8792300fb6ae9440a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:25 +0000
Subject: [PATCH 40/59] fix(no-deprecated): report renamed destructured
 properties once

---
 internal/rules/no_deprecated/no_deprecated.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/internal/rules/no_deprecated/no_deprecated.go b/internal/rules/no_deprecated/no_deprecated.go
index 57fa96f..e865966 100644
--- a/internal/rules/no_deprecated/no_deprecated.go
+++ b/internal/rules/no_deprecated/no_deprecated.go
@@ -603,11 +603,14 @@ var NoDeprecatedRule = rule.Rule{
 
 			switch parent.Kind {
 			case ast.KindBindingElement:
-				// Array binding elements only declare locals. Object binding patterns are
-				// handled separately because they also represent property reads.
-				return parent.Parent != nil &&
-					parent.Parent.Kind == ast.KindArrayBindingPattern &&
-					parent.Name() == node
+				// Array binding elements only declare locals, and so does `b` in `{ a: b }`. The
+				// other names of object binding patterns are property reads as well.
+				if parent.Parent == nil || parent.Name() != node {
+					return false
+				}
+				propertyName := parent.AsBindingElement().PropertyName
+				return parent.Parent.Kind == ast.KindArrayBindingPattern ||
+					propertyName != nil && ast.IsIdentifier(propertyName)
 			case ast.KindClassExpression:
 				fallthrough
 			case ast.KindVariableDeclaration:
-- 
2.43.0


From 85f523f8c0c864876b0d37a72482f4953abd8796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:25 +0000
Subject: [PATCH 41/59] fix(no-deprecated): apply allow to references to types

---
 internal/rules/no_deprecated/no_deprecated.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/internal/rules/no_deprecated/no_deprecated.go b/internal/rules/no_deprecated/no_deprecated.go
index e865966..d69e802 100644
--- a/internal/rules/no_deprecated/no_deprecated.go
+++ b/internal/rules/no_deprecated/no_deprecated.go
@@ -711,7 +711,18 @@ var NoDeprecatedRule = rule.Rule{
 				return
 			}
 
-			ty := ctx.TypeChecker.GetTypeAtLocation(node)
+			// The checker has no type for the name alone in a reference to a type.
+			typed := node
+			if ast.IsPartOfTypeNode(node) {
+				name := node
+				if ast.IsQualifiedName(name.Parent) {
+					name = name.Parent
+				}
+				if ast.IsPartOfTypeNode(name.Parent) {
+					typed = name.Parent
+				}
+			}
+			ty := ctx.TypeChecker.GetTypeAtLocation(typed)
 
 			// TODO: if type OR value is allowed, skip
 
-- 
2.43.0


From eec66e0feb4754798c1ed584b96284fb59f307d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:25 +0000
Subject: [PATCH 42/59] fix(no-confusing-void-expression): report void operands
 in the middle of a sequence

---
 .../no_confusing_void_expression.go                        | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/rules/no_confusing_void_expression/no_confusing_void_expression.go b/internal/rules/no_confusing_void_expression/no_confusing_void_expression.go
index fefa74d..cd89e14 100644
--- a/internal/rules/no_confusing_void_expression/no_confusing_void_expression.go
+++ b/internal/rules/no_confusing_void_expression/no_confusing_void_expression.go
@@ -92,6 +92,13 @@ var NoConfusingVoidExpressionRule = rule.Rule{
 						if n.Left == node {
 							return nil
 						}
+						// e.g. `x, console.log(x), y`: only the last value of a sequence is used
+						if outer := parent.Parent; ast.IsBinaryExpression(outer) {
+							b := outer.AsBinaryExpression()
+							if b.OperatorToken.Kind == ast.KindCommaToken && b.Left == parent {
+								return nil
+							}
+						}
 						// TODO(port): ts-eslint handles sequence expressions incorrectly as well, so ignoring for now
 						// continue
 					}
-- 
2.43.0


From d4f9b9af0da8de8f1d8bd572c307c7f1ff0b62c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:25 +0000
Subject: [PATCH 43/59] fix(prefer-reduce-type-parameter): see through
 parentheses of the assertion

---
 .../prefer_reduce_type_parameter.go                             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/rules/prefer_reduce_type_parameter/prefer_reduce_type_parameter.go b/internal/rules/prefer_reduce_type_parameter/prefer_reduce_type_parameter.go
index 3961cba..ca16b9d 100644
--- a/internal/rules/prefer_reduce_type_parameter/prefer_reduce_type_parameter.go
+++ b/internal/rules/prefer_reduce_type_parameter/prefer_reduce_type_parameter.go
@@ -24,7 +24,7 @@ var PreferReduceTypeParameterRule = rule.Rule{
 					return
 				}
 
-				secondArg := expr.Arguments.Nodes[1]
+				secondArg := ast.SkipParentheses(expr.Arguments.Nodes[1])
 
 				if secondArg.Kind != ast.KindAsExpression && secondArg.Kind != ast.KindTypeAssertionExpression {
 					return
-- 
2.43.0


From 9142c91996aafd1caa89afacd155bed43f044756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:25 +0000
Subject: [PATCH 44/59] fix(only-throw-error): see through parentheses of a
 rethrown error

---
 internal/rules/only_throw_error/only_throw_error.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/rules/only_throw_error/only_throw_error.go b/internal/rules/only_throw_error/only_throw_error.go
index f9d5e57..4e53806 100644
--- a/internal/rules/only_throw_error/only_throw_error.go
+++ b/internal/rules/only_throw_error/only_throw_error.go
@@ -26,6 +26,7 @@ func buildUndefMessage() rule.RuleMessage {
 // 2. promise.catch(e => { throw e; })
 // 3. promise.then(onFulfilled, e => { throw e; })
 func isRethrownError(ctx rule.RuleContext, node *ast.Node) bool {
+	node = ast.SkipParentheses(node)
 	if !ast.IsIdentifier(node) {
 		return false
 	}
-- 
2.43.0


From 55e44271953f83aa12ec294be92e55c9eae3fe59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:25 +0000
Subject: [PATCH 45/59] fix(no-mixed-enums): classify initializers like
 typescript-eslint

---
 internal/rules/no_mixed_enums/no_mixed_enums.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/internal/rules/no_mixed_enums/no_mixed_enums.go b/internal/rules/no_mixed_enums/no_mixed_enums.go
index 98a22bb..227084e 100644
--- a/internal/rules/no_mixed_enums/no_mixed_enums.go
+++ b/internal/rules/no_mixed_enums/no_mixed_enums.go
@@ -32,20 +32,19 @@ var NoMixedEnumsRule = rule.Rule{
 				return allowedTypeNumber
 			}
 
-			switch initializer.Kind {
+			switch ast.SkipParentheses(initializer).Kind {
 			case ast.KindNumericLiteral:
 				return allowedTypeNumber
-			case ast.KindStringLiteral:
+			case ast.KindStringLiteral, ast.KindNoSubstitutionTemplateLiteral, ast.KindTemplateExpression:
 				return allowedTypeString
+			case ast.KindTrueKeyword, ast.KindFalseKeyword, ast.KindNullKeyword, ast.KindBigIntLiteral, ast.KindRegularExpressionLiteral:
+				return allowedTypeUnknown
 			default:
-				t := ctx.TypeChecker.GetTypeAtLocation(initializer)
-				if utils.IsTypeFlagSet(t, checker.TypeFlagsStringLike) {
+				// Everything that isn't known to be a string (any included) is taken for a computed number.
+				if utils.IsTypeFlagSet(ctx.TypeChecker.GetTypeAtLocation(initializer), checker.TypeFlagsStringLike) {
 					return allowedTypeString
 				}
-				if utils.IsTypeFlagSet(t, checker.TypeFlagsNumberLike) {
-					return allowedTypeNumber
-				}
-				return allowedTypeUnknown
+				return allowedTypeNumber
 			}
 		}
 		getDesiredTypeForDefinition := func(node *ast.Node) allowedType {
-- 
2.43.0


From 279aff0bdd781cb555f85cc45d83edaf7ba1eca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:25 +0000
Subject: [PATCH 46/59] fix(prefer-regexp-exec): write valid regular
 expressions and keep the replacement apart from its neighbours

---
 .../prefer_regexp_exec/prefer_regexp_exec.go  | 33 +++++++++++++++-
 internal/utils/ts_eslint.go                   | 39 +++++++++++++++++++
 2 files changed, 70 insertions(+), 2 deletions(-)

diff --git a/internal/rules/prefer_regexp_exec/prefer_regexp_exec.go b/internal/rules/prefer_regexp_exec/prefer_regexp_exec.go
index 4939f75..0771188 100644
--- a/internal/rules/prefer_regexp_exec/prefer_regexp_exec.go
+++ b/internal/rules/prefer_regexp_exec/prefer_regexp_exec.go
@@ -100,7 +100,7 @@ var PreferRegexpExecRule = rule.Rule{
 				code = "(" + code + ")"
 			}
 
-			return rule.RuleFixReplace(ctx.SourceFile, node, code)
+			return rule.RuleFixReplace(ctx.SourceFile, node, utils.SeparateReplacement(ctx.SourceFile, node, code))
 		}
 
 		extractRegexLiteralFlags := func(node *ast.Node) (string, bool) {
@@ -258,8 +258,37 @@ var PreferRegexpExecRule = rule.Rule{
 			return result
 		}
 
+		// The text of the literal is that of JavaScript's RegExp(pattern).toString().
 		buildStringToRegExpLiteral := func(pattern string) string {
-			return "/" + strings.ReplaceAll(pattern, "/", "\\/") + "/"
+			if pattern == "" {
+				return "/(?:)/"
+			}
+			var literal strings.Builder
+			literal.WriteByte('/')
+			escaped, inClass := false, false
+			for _, r := range pattern {
+				switch r {
+				case '\n', '\r', '\u2028', '\u2029':
+					if !escaped {
+						literal.WriteByte('\\')
+					}
+					literal.WriteString(map[rune]string{'\n': "n", '\r': "r", '\u2028': "u2028", '\u2029': "u2029"}[r])
+					escaped = false
+					continue
+				case '/':
+					if !escaped && !inClass {
+						literal.WriteByte('\\')
+					}
+				case '[':
+					inClass = inClass || !escaped
+				case ']':
+					inClass = inClass && escaped
+				}
+				literal.WriteRune(r)
+				escaped = r == '\\' && !escaped
+			}
+			literal.WriteByte('/')
+			return literal.String()
 		}
 
 		reportWithFix := func(
diff --git a/internal/utils/ts_eslint.go b/internal/utils/ts_eslint.go
index d9e5a9d..e2d8919 100644
--- a/internal/utils/ts_eslint.go
+++ b/internal/utils/ts_eslint.go
@@ -2,6 +2,8 @@ package utils
 
 import (
 	"slices"
+	"strings"
+	"unicode/utf8"
 
 	"github.com/microsoft/typescript-go/shim/ast"
 	"github.com/microsoft/typescript-go/shim/checker"
@@ -676,3 +678,40 @@ func StartsBlockOrDeclaration(sourceFile *ast.SourceFile, node *ast.Node, inner
 	}
 	return false
 }
+
+// SeparateReplacement adds to code, which is to be put in the place of node, what keeps it apart from
+// its neighbours: a semicolon if it would continue the statement in front of it, or a space between words.
+func SeparateReplacement(sourceFile *ast.SourceFile, node *ast.Node, code string) string {
+	text := sourceFile.Text()
+	textRange := TrimNodeTextRange(sourceFile, node)
+	word := func(s string, start bool) bool {
+		if start {
+			r, _ := utf8.DecodeRuneInString(s)
+			return s != "" && (scanner.IsIdentifierPart(r) || r == '\\')
+		}
+		r, _ := utf8.DecodeLastRuneInString(s)
+		return s != "" && scanner.IsIdentifierPart(r)
+	}
+	if word(text[:textRange.Pos()], false) && word(code, true) {
+		code = " " + code
+	}
+	if word(code, false) && word(text[textRange.End():], true) {
+		code += " "
+	}
+	if startsUnfinishedStatement(sourceFile, node) && strings.ContainsAny(strings.TrimSpace(code)[:1], "([/`<+-") {
+		code = ";" + code
+	}
+	return code
+}
+
+// startsUnfinishedStatement reports whether node is the start of an expression statement which follows
+// another statement that no semicolon ends.
+func startsUnfinishedStatement(sourceFile *ast.SourceFile, node *ast.Node) bool {
+	statement := ast.FindAncestor(node, ast.IsExpressionStatement)
+	if statement == nil || !statement.Parent.CanHaveStatements() || TrimNodeTextRange(sourceFile, statement).Pos() != TrimNodeTextRange(sourceFile, node).Pos() {
+		return false
+	}
+	statements := statement.Parent.Statements()
+	index := slices.Index(statements, statement)
+	return index > 0 && sourceFile.Text()[statements[index-1].End()-1] != ';'
+}
-- 
2.43.0


From 6d22b446dcb2c0a1eb518c4c9b76695e561dd400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:25 +0000
Subject: [PATCH 47/59] fix(no-meaningless-void-operator): keep statements
 apart when void is removed

---
 .../no_meaningless_void_operator.go           | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/internal/rules/no_meaningless_void_operator/no_meaningless_void_operator.go b/internal/rules/no_meaningless_void_operator/no_meaningless_void_operator.go
index c08261e..cd17380 100644
--- a/internal/rules/no_meaningless_void_operator/no_meaningless_void_operator.go
+++ b/internal/rules/no_meaningless_void_operator/no_meaningless_void_operator.go
@@ -2,6 +2,7 @@ package no_meaningless_void_operator
 
 import (
 	"fmt"
+	"strings"
 
 	"github.com/microsoft/typescript-go/shim/ast"
 	"github.com/microsoft/typescript-go/shim/checker"
@@ -42,9 +43,21 @@ var NoMeaninglessVoidOperatorRule = rule.Rule{
 				})
 
 				fixRemoveVoidKeyword := func() []rule.RuleFix {
-					fixes := []rule.RuleFix{rule.RuleFixRemoveRange(utils.TrimNodeTextRange(ctx.SourceFile, node).WithEnd(arg.Pos()))}
-					if utils.StartsBlockOrDeclaration(ctx.SourceFile, node, arg) {
-						fixes = append(fixes, rule.RuleFixInsertBefore(ctx.SourceFile, arg, "("), rule.RuleFixInsertAfter(arg, ")"))
+					if ast.IsVoidExpression(node.Parent) {
+						// `void void x`: after the outer keyword has been removed
+						return nil
+					}
+					voidRange := utils.TrimNodeTextRange(ctx.SourceFile, node).WithEnd(arg.Pos())
+					argText := ctx.SourceFile.Text()[arg.Pos():arg.End()]
+					code := argText
+					// `return void\nf()`: the statement must not end at the line break
+					wrap := strings.ContainsAny(argText[:utils.TrimNodeTextRange(ctx.SourceFile, arg).Pos()-arg.Pos()], "\r\n") || utils.StartsBlockOrDeclaration(ctx.SourceFile, node, arg)
+					if wrap {
+						code = "(" + code
+					}
+					fixes := []rule.RuleFix{rule.RuleFixReplaceRange(voidRange, strings.TrimSuffix(utils.SeparateReplacement(ctx.SourceFile, node, code), argText))}
+					if wrap {
+						fixes = append(fixes, rule.RuleFixInsertAfter(arg, ")"))
 					}
 					return fixes
 				}
-- 
2.43.0


From 4a7937b1084f87f20ceef2015a3f7ecbd313486e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:25 +0000
Subject: [PATCH 48/59] fix(no-unnecessary-boolean-literal-compare): keep
 precedence and statements when the comparison is removed

---
 .../no_unnecessary_boolean_literal_compare.go | 23 +++++++++----------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/internal/rules/no_unnecessary_boolean_literal_compare/no_unnecessary_boolean_literal_compare.go b/internal/rules/no_unnecessary_boolean_literal_compare/no_unnecessary_boolean_literal_compare.go
index 7cf139a..69cd20e 100644
--- a/internal/rules/no_unnecessary_boolean_literal_compare/no_unnecessary_boolean_literal_compare.go
+++ b/internal/rules/no_unnecessary_boolean_literal_compare/no_unnecessary_boolean_literal_compare.go
@@ -171,22 +171,21 @@ var NoUnnecessaryBooleanLiteralCompareRule = rule.Rule{
 						mutatedNode = parent
 					}
 
-					fixes := make([]rule.RuleFix, 0, 6)
+					code := ctx.SourceFile.Text()[comparison.expression.Pos():comparison.expression.End()]
+					negate := shouldNegate == isUnaryNegation
+					// `!!(a > b === false)`: the operand of the operator which stays
+					isOperand := isUnaryNegation && ast.IsUnaryExpression(mutatedNode.Parent)
 
-					fixes = append(fixes, rule.RuleFixReplace(ctx.SourceFile, mutatedNode, ctx.SourceFile.Text()[comparison.expression.Pos():comparison.expression.End()]))
-
-					if shouldNegate == isUnaryNegation {
-						fixes = append(fixes, rule.RuleFixInsertBefore(ctx.SourceFile, mutatedNode, "!"))
-
-						if !utils.IsStrongPrecedenceNode(comparison.expression) {
-							fixes = append(fixes, rule.RuleFixInsertBefore(ctx.SourceFile, mutatedNode, "("), rule.RuleFixInsertAfter(mutatedNode, ")"))
-						}
+					if (negate || isOperand) && !utils.IsStrongPrecedenceNode(comparison.expression) {
+						code = "(" + code + ")"
 					}
-
 					if comparison.expressionIsNullableBoolean && !comparison.literalBooleanInComparison {
-						fixes = append(fixes, rule.RuleFixInsertBefore(ctx.SourceFile, mutatedNode, "("), rule.RuleFixInsertAfter(mutatedNode, " ?? true)"))
+						code = "(" + code + " ?? true)"
+					}
+					if negate {
+						code = "!" + code
 					}
-					return fixes
+					return []rule.RuleFix{rule.RuleFixReplace(ctx.SourceFile, mutatedNode, utils.SeparateReplacement(ctx.SourceFile, mutatedNode, code))}
 				})
 			},
 		}
-- 
2.43.0


From 16a8c0635ce84b04566df79d152e57eed08359d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:25 +0000
Subject: [PATCH 49/59] fix(no-unnecessary-template-expression): keep the
 replacement apart from a keyword

---
 .../no_unnecessary_template_expression.go                       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/rules/no_unnecessary_template_expression/no_unnecessary_template_expression.go b/internal/rules/no_unnecessary_template_expression/no_unnecessary_template_expression.go
index a23c5b0..6e9d4c0 100644
--- a/internal/rules/no_unnecessary_template_expression/no_unnecessary_template_expression.go
+++ b/internal/rules/no_unnecessary_template_expression/no_unnecessary_template_expression.go
@@ -123,7 +123,7 @@ var NoUnnecessaryTemplateExpressionRule = rule.Rule{
 				text = "(" + text + ")"
 			}
 
-			fixes := []rule.RuleFix{rule.RuleFixReplace(ctx.SourceFile, template, text)}
+			fixes := []rule.RuleFix{rule.RuleFixReplace(ctx.SourceFile, template, utils.SeparateReplacement(ctx.SourceFile, template, text))}
 			ctx.ReportDiagnosticWithFixes(rule.RuleDiagnostic{
 				Range:   core.NewTextRange(interpolation.Pos()-2, spanLiteral.Pos()+1),
 				Message: buildNoUnnecessaryTemplateExpressionMessage(),
-- 
2.43.0


From ac74d585729522460331ed11bfdbb18101d766a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:26 +0000
Subject: [PATCH 50/59] fix(prefer-includes): keep the replacement apart from
 its neighbours

---
 internal/rules/prefer_includes/prefer_includes.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/internal/rules/prefer_includes/prefer_includes.go b/internal/rules/prefer_includes/prefer_includes.go
index a4cbf30..e39be99 100644
--- a/internal/rules/prefer_includes/prefer_includes.go
+++ b/internal/rules/prefer_includes/prefer_includes.go
@@ -393,18 +393,18 @@ var PreferIncludesRule = rule.Rule{
 				// Use TrimNodeTextRange to preserve leading whitespace
 				callExprRange := utils.TrimNodeTextRange(ctx.SourceFile, node)
 
-				// Remove everything before the argument
-				fixes = append(fixes, rule.RuleFixRemoveRange(core.NewTextRange(callExprRange.Pos(), argument.Pos())))
+				// Remove everything before the argument, and add parentheses if needed
+				argText := ctx.SourceFile.Text()[argument.Pos():argument.End()]
+				code := argText
+				if needsParens {
+					code = "(" + code
+				}
+				fixes = append(fixes, rule.RuleFixReplaceRange(core.NewTextRange(callExprRange.Pos(), argument.Pos()), strings.TrimSuffix(utils.SeparateReplacement(ctx.SourceFile, node, code), argText)))
 
 				// Remove everything after the argument
 				fixes = append(fixes, rule.RuleFixRemoveRange(core.NewTextRange(argument.End(), callExprRange.End())))
 
-				// Add parentheses if needed
 				if needsParens {
-					fixes = append(fixes, rule.RuleFix{
-						Range: core.NewTextRange(argument.Pos(), argument.Pos()),
-						Text:  "(",
-					})
 					fixes = append(fixes, rule.RuleFix{
 						Range: core.NewTextRange(argument.End(), argument.End()),
 						Text:  ")",
-- 
2.43.0


From 8a5451a5b66016481cd5c9b9b72fe643b0471189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:26 +0000
Subject: [PATCH 51/59] fix(prefer-string-starts-ends-with): handle
 parenthesised arguments of test

---
 .../prefer_string_starts_ends_with.go         | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/internal/rules/prefer_string_starts_ends_with/prefer_string_starts_ends_with.go b/internal/rules/prefer_string_starts_ends_with/prefer_string_starts_ends_with.go
index 98ec941..acf5946 100644
--- a/internal/rules/prefer_string_starts_ends_with/prefer_string_starts_ends_with.go
+++ b/internal/rules/prefer_string_starts_ends_with/prefer_string_starts_ends_with.go
@@ -773,18 +773,19 @@ var PreferStringStartsEndsWithRule = rule.Rule{
 
 				callRange := utils.TrimNodeTextRange(ctx.SourceFile, &callExpr.Node)
 				argRange := utils.TrimNodeTextRange(ctx.SourceFile, arg)
-				fixes := []rule.RuleFix{
-					rule.RuleFixRemoveRange(callRange.WithEnd(argRange.Pos())),
+				argText := ctx.SourceFile.Text()[argRange.Pos():argRange.End()]
+				code := argText
+				if needsParen {
+					code = "(" + code
 				}
+				suffix := fmt.Sprintf("%s%s(%s)", memberOptionalOperator(memberNode), method, strconv.Quote(parsed.text))
 				if needsParen {
-					fixes = append(fixes,
-						rule.RuleFixInsertBefore(ctx.SourceFile, arg, "("),
-						rule.RuleFixInsertAfter(arg, ")"),
-					)
+					suffix = ")" + suffix
+				}
+				return []rule.RuleFix{
+					rule.RuleFixReplaceRange(callRange.WithEnd(argRange.Pos()), strings.TrimSuffix(utils.SeparateReplacement(ctx.SourceFile, &callExpr.Node, code), argText)),
+					rule.RuleFixReplaceRange(callRange.WithPos(argRange.End()), suffix),
 				}
-				fixes = append(fixes, rule.RuleFixInsertAfter(arg, fmt.Sprintf("%s%s(%s", memberOptionalOperator(memberNode), method, strconv.Quote(parsed.text))))
-
-				return fixes
 			})
 		}
 
-- 
2.43.0


From aecafde6101fe993ac214e8d4754bb76fc32d6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:26 +0000
Subject: [PATCH 52/59] fix(return-await): do not end the return statement when
 await is removed

---
 internal/rules/return_await/return_await.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/internal/rules/return_await/return_await.go b/internal/rules/return_await/return_await.go
index c9c902b..2b3831d 100644
--- a/internal/rules/return_await/return_await.go
+++ b/internal/rules/return_await/return_await.go
@@ -1,6 +1,8 @@
 package return_await
 
 import (
+	"strings"
+
 	"github.com/microsoft/typescript-go/shim/ast"
 	"github.com/microsoft/typescript-go/shim/scanner"
 	"github.com/typescript-eslint/tsgolint/internal/rule"
@@ -198,8 +200,13 @@ var ReturnAwaitRule = rule.Rule{
 		}
 
 		removeAwaitFix := func(node *ast.Node) []rule.RuleFix {
-			fixes := []rule.RuleFix{rule.RuleFixRemoveRange(scanner.GetRangeOfTokenAtPosition(ctx.SourceFile, node.Pos()))}
-			if argument := node.Expression(); utils.StartsBlockOrDeclaration(ctx.SourceFile, node, argument) {
+			awaitRange, argument := scanner.GetRangeOfTokenAtPosition(ctx.SourceFile, node.Pos()), node.Expression()
+			// `return await\nx`: the statement must not end at the line break
+			if strings.ContainsAny(ctx.SourceFile.Text()[awaitRange.End():utils.TrimNodeTextRange(ctx.SourceFile, argument).Pos()], "\r\n") {
+				return []rule.RuleFix{rule.RuleFixReplaceRange(awaitRange, "("), rule.RuleFixInsertAfter(argument, ")")}
+			}
+			fixes := []rule.RuleFix{rule.RuleFixRemoveRange(awaitRange)}
+			if utils.StartsBlockOrDeclaration(ctx.SourceFile, node, argument) {
 				fixes = append(fixes, rule.RuleFixInsertBefore(ctx.SourceFile, argument, "("), rule.RuleFixInsertAfter(argument, ")"))
 			}
 			return fixes
-- 
2.43.0


From 436fced3f4c3b0acf2306c7af166161996903f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:26 +0000
Subject: [PATCH 53/59] fix(no-unnecessary-type-assertion): keep the expression
 with its statement when <T> is removed

---
 .../no_unnecessary_type_assertion.go               | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/internal/rules/no_unnecessary_type_assertion/no_unnecessary_type_assertion.go b/internal/rules/no_unnecessary_type_assertion/no_unnecessary_type_assertion.go
index a0c573b..ad15297 100644
--- a/internal/rules/no_unnecessary_type_assertion/no_unnecessary_type_assertion.go
+++ b/internal/rules/no_unnecessary_type_assertion/no_unnecessary_type_assertion.go
@@ -517,6 +517,16 @@ var NoUnnecessaryTypeAssertionRule = rule.Rule{
 			return parent
 		}
 
+		removeAngleBrackets := func(assertionRange core.TextRange, expression *ast.Node) []rule.RuleFix {
+			if strings.ContainsAny(ctx.SourceFile.Text()[assertionRange.End():utils.TrimNodeTextRange(ctx.SourceFile, expression).Pos()], "\r\n") {
+				// `return <T>\nx`: the statement must not end at the line break
+				return []rule.RuleFix{rule.RuleFixReplaceRange(assertionRange, "("), rule.RuleFixInsertAfter(expression, ")")}
+			}
+			// `typeof<T>x`
+			expressionText := ctx.SourceFile.Text()[expression.Pos():expression.End()]
+			return []rule.RuleFix{rule.RuleFixReplaceRange(assertionRange, strings.TrimSuffix(utils.SeparateReplacement(ctx.SourceFile, expression.Parent, expressionText), expressionText))}
+		}
+
 		buildAssertionFixes := func(node *ast.Node) []rule.RuleFix {
 			typeNode := node.Type()
 			expression := node.Expression()
@@ -561,7 +571,7 @@ var NoUnnecessaryTypeAssertionRule = rule.Rule{
 			s.ResetPos(typeNode.End())
 			s.Scan()
 			closingAngleBracket := s.TokenRange()
-			return []rule.RuleFix{rule.RuleFixRemoveRange(openingAngleBracket.WithEnd(closingAngleBracket.End()))}
+			return removeAngleBrackets(openingAngleBracket.WithEnd(closingAngleBracket.End()), expression)
 		}
 
 		reportUnnecessaryTypeAssertion := func(node *ast.Node, uncastType, castType *checker.Type) {
@@ -633,7 +643,7 @@ var NoUnnecessaryTypeAssertionRule = rule.Rule{
 						ctx.TypeChecker.TypeToString(castType),
 					),
 					func() []rule.RuleFix {
-						return []rule.RuleFix{rule.RuleFixRemoveRange(assertionRange)}
+						return removeAngleBrackets(assertionRange, expression)
 					})
 			}
 		}
-- 
2.43.0


From 6e05e7697b5edde5d86148e02de60b6c8c0f70ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:26 +0000
Subject: [PATCH 54/59] fix(prefer-optional-chain): keep links optional which
 only a typeof check guards

---
 .../prefer_optional_chain.go                  | 26 ++++++-------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/internal/rules/prefer_optional_chain/prefer_optional_chain.go b/internal/rules/prefer_optional_chain/prefer_optional_chain.go
index 99b3b50..e5b1e6d 100644
--- a/internal/rules/prefer_optional_chain/prefer_optional_chain.go
+++ b/internal/rules/prefer_optional_chain/prefer_optional_chain.go
@@ -871,6 +871,11 @@ func (processor *chainProcessor) extractCallSignatures(node *ast.Node) map[strin
 	return signatures
 }
 
+func (processor *chainProcessor) isUndeclaredVariable(node *ast.Node) bool {
+	symbol := processor.ctx.TypeChecker.GetSymbolAtLocation(node)
+	return ast.IsIdentifier(ast.SkipParentheses(node)) && (symbol == nil || len(symbol.Declarations) == 0)
+}
+
 func (processor *chainProcessor) isChainAlreadySeen(node *ast.Node) bool {
 	r := processor.getNodeRange(node)
 	return processor.seenRanges[textRange{start: r.Pos(), end: r.End()}]
@@ -3117,20 +3122,10 @@ func (processor *chainProcessor) generateAndChainFixAndReport(node *ast.Node, ch
 		checksToConsider = append(checksToConsider, op)
 	}
 
-	hasNonTypeofCheck := false
-	for _, operand := range checksToConsider {
-		if operand.typ != OperandTypeTypeofCheck && operand.comparedExpr != nil {
-			hasNonTypeofCheck = true
-			break
-		}
-	}
-
 	for _, operand := range checksToConsider {
 		if operand.comparedExpr != nil {
-			// Skip typeof checks when there are other checks - typeof verifies existence,
-			// not nullability, so the next property shouldn't be optional when there's
-			// a middle guard that does the actual null check.
-			if operand.typ == OperandTypeTypeofCheck && hasNonTypeofCheck {
+			// The typeof check of an undeclared variable stays, so nothing has to be optional for it.
+			if operand.typ == OperandTypeTypeofCheck && processor.isUndeclaredVariable(operand.comparedExpr) {
 				continue
 			}
 			checkedParts := processor.flattenForFix(operand.comparedExpr)
@@ -3358,12 +3353,7 @@ func (processor *chainProcessor) generateAndChainFixAndReport(node *ast.Node, ch
 			}
 		}
 		if hasNonTypeofAfterFirst && chain[0].comparedExpr != nil {
-			typeofTarget := chain[0].comparedExpr
-			symbol := processor.ctx.TypeChecker.GetSymbolAtLocation(typeofTarget)
-			isUndeclared := ast.IsIdentifier(ast.SkipParentheses(typeofTarget)) &&
-				(symbol == nil || len(symbol.Declarations) == 0)
-
-			if isUndeclared {
+			if processor.isUndeclaredVariable(chain[0].comparedExpr) {
 				if len(chain) == 2 {
 					// Nothing is left to shorten once the typeof check has to stay.
 					return
-- 
2.43.0


From 977315a9ad916cfaa57c7a7b5f7dc7a1a0b5d35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:26 +0000
Subject: [PATCH 55/59] fix(gen_shims): link to methods with value receivers
 and name their parameters

---
 tools/gen_shims/main.go | 41 +++++++++++++++--------------------------
 1 file changed, 15 insertions(+), 26 deletions(-)

diff --git a/tools/gen_shims/main.go b/tools/gen_shims/main.go
index 2576c69..f381c3c 100644
--- a/tools/gen_shims/main.go
+++ b/tools/gen_shims/main.go
@@ -134,9 +134,11 @@ func main() {
 			shimBuilder.WriteString(fn.Pkg().Path())
 			shimBuilder.WriteByte('.')
 			if recv := fn.Signature().Recv(); recv != nil {
-				shimBuilder.WriteByte('(')
-				shimBuilder.WriteString(types.TypeString(recv.Type(), qualifierEmptyPackageName))
-				shimBuilder.WriteByte(')')
+				recvType := types.TypeString(recv.Type(), qualifierEmptyPackageName)
+				if _, isPointer := recv.Type().(*types.Pointer); isPointer {
+					recvType = "(" + recvType + ")"
+				}
+				shimBuilder.WriteString(recvType)
 				shimBuilder.WriteByte('.')
 			}
 			shimBuilder.WriteString(fn.Name())
@@ -247,33 +249,20 @@ func main() {
 						extraMethods[methodName] = true
 						prefix := name + "_"
 						emitGoLinknameDirective(prefix+methodName, method)
-						funcDeclStr := types.ObjectString(method, qualifierOnlyPackageName)
-						recvStart := 0
-						recvEnd := 0
-						paramsStart := 0
-						for i, s := range funcDeclStr {
-							if s == '(' {
-								if recvStart == 0 {
-									recvStart = i + 1
-								}
-								if recvEnd != 0 {
-									paramsStart = i + 1
-									break
-								}
-							}
-							if s == ')' && recvEnd == 0 {
-								recvEnd = i
+						params := []*types.Var{types.NewParam(method.Pos(), pkg.Types, "recv", method.Signature().Recv().Type())}
+						for param := range method.Signature().Params().Variables() {
+							paramName := param.Name()
+							if paramName == "" || paramName == "recv" {
+								paramName = "_"
 							}
+							params = append(params, types.NewParam(param.Pos(), pkg.Types, paramName, param.Type()))
 						}
 						shimBuilder.WriteString("func ")
 						shimBuilder.WriteString(prefix)
-						shimBuilder.WriteString(funcDeclStr[recvEnd+2 : paramsStart])
-						shimBuilder.WriteString("recv ")
-						shimBuilder.WriteString(funcDeclStr[recvStart:recvEnd])
-						if method.Signature().Params() != nil {
-							shimBuilder.WriteString(", ")
-						}
-						shimBuilder.WriteString(funcDeclStr[paramsStart:])
+						shimBuilder.WriteString(methodName)
+						types.WriteSignature(&tempBuffer, types.NewSignatureType(nil, nil, nil, types.NewTuple(params...), method.Signature().Results(), method.Signature().Variadic()), qualifierOnlyPackageName)
+						shimBuilder.Write(tempBuffer.Bytes())
+						tempBuffer.Reset()
 						shimBuilder.WriteString("\n")
 					}
 				}
-- 
2.43.0


From e46f53f591a76484a623be1d212c914892d4e995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:26 +0000
Subject: [PATCH 56/59] fix(gen_shims): write generic aliases with their type
 parameters

---
 tools/gen_shims/main.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/gen_shims/main.go b/tools/gen_shims/main.go
index f381c3c..2d7e6ea 100644
--- a/tools/gen_shims/main.go
+++ b/tools/gen_shims/main.go
@@ -212,8 +212,8 @@ func main() {
 				typeName := object.(*types.TypeName)
 				t := typeName.Type()
 				named, isNamed := t.(*types.Named)
-				if isNamed {
-					_, nameWithTypeParams, _ := strings.Cut(types.TypeString(named, qualifierOnlyPackageName), ".")
+				if generic, ok := t.(interface{ TypeParams() *types.TypeParamList }); ok && (isNamed || generic.TypeParams().Len() > 0) {
+					_, nameWithTypeParams, _ := strings.Cut(types.TypeString(t, qualifierOnlyPackageName), ".")
 					importPackage(pkg.Types.Path(), true)
 					shimBuilder.WriteString("type ")
 					shimBuilder.WriteString(nameWithTypeParams)
@@ -222,7 +222,7 @@ func main() {
 					shimBuilder.WriteString(".")
 					shimBuilder.WriteString(name)
 
-					typeParams := slices.Collect(named.TypeParams().TypeParams())
+					typeParams := slices.Collect(generic.TypeParams().TypeParams())
 					if len(typeParams) > 0 {
 						// (*typeWriter)typeList
 						shimBuilder.WriteByte('[')
-- 
2.43.0


From a6e5ce2dd024ad4d0e7e4e6ca30ca2b1f2533fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:26 +0000
Subject: [PATCH 57/59] fix(gen_shims): report extra fields of types which do
 not exist

---
 tools/gen_shims/main.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tools/gen_shims/main.go b/tools/gen_shims/main.go
index 2d7e6ea..7017b04 100644
--- a/tools/gen_shims/main.go
+++ b/tools/gen_shims/main.go
@@ -390,6 +390,13 @@ func main() {
 				exit = true
 			}
 		}
+		for name, found := range matchedExtraFields {
+			if found {
+				continue
+			}
+			fmt.Printf("ERROR: couldn't find %v type\n", name)
+			exit = true
+		}
 		if exit {
 			os.Exit(1)
 		}
-- 
2.43.0


From 285eb2cd6f8f712485d07b8fb83c8e64b37205ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:26 +0000
Subject: [PATCH 58/59] fix(gen_shims): keep the layout of mirrored structs and
 skip every signature with unexported types

---
 tools/gen_shims/main.go | 151 ++++++++++++++++++++++++----------------
 1 file changed, 90 insertions(+), 61 deletions(-)

diff --git a/tools/gen_shims/main.go b/tools/gen_shims/main.go
index 7017b04..92f6b84 100644
--- a/tools/gen_shims/main.go
+++ b/tools/gen_shims/main.go
@@ -20,24 +20,89 @@ import (
 
 const tsgoInternalPrefix = "github.com/microsoft/typescript-go/internal/"
 
-func signatureHasUnexportedType(t types.Signature) bool {
-	if params := t.Params(); params != nil {
-		for v := range params.Variables() {
-			ty := v.Type()
-
-			if ptrType, ok := ty.(*types.Pointer); ok {
-				ty = ptrType.Elem()
+// hasUnexportedType reports whether t can't be written down outside of its package
+func hasUnexportedType(t types.Type) bool {
+	switch t := t.(type) {
+	case *types.Alias:
+		return isUnexportedTypeName(t.Obj()) || slices.ContainsFunc(slices.Collect(t.TypeArgs().Types()), hasUnexportedType)
+	case *types.Named:
+		return isUnexportedTypeName(t.Obj()) || slices.ContainsFunc(slices.Collect(t.TypeArgs().Types()), hasUnexportedType)
+	case *types.Map:
+		return hasUnexportedType(t.Key()) || hasUnexportedType(t.Elem())
+	case interface{ Elem() types.Type }: // pointer, slice, array, chan
+		return hasUnexportedType(t.Elem())
+	case *types.Signature:
+		return signatureHasUnexportedType(t)
+	case *types.Struct:
+		for field := range t.Fields() {
+			if !field.Exported() || hasUnexportedType(field.Type()) {
+				return true
 			}
-			if named, ok := ty.(*types.Named); ok {
-				if !named.Obj().Exported() {
-					return true
-				}
+		}
+	case *types.Interface:
+		for method := range t.ExplicitMethods() {
+			if !method.Exported() || signatureHasUnexportedType(method.Signature()) {
+				return true
 			}
 		}
+		return slices.ContainsFunc(slices.Collect(t.EmbeddedTypes()), hasUnexportedType)
 	}
 	return false
 }
 
+func isUnexportedTypeName(name *types.TypeName) bool {
+	// predeclared types (error, any) don't belong to a package
+	return name.Pkg() != nil && !name.Exported()
+}
+
+func signatureHasUnexportedType(t *types.Signature) bool {
+	for _, vars := range []*types.Tuple{t.Params(), t.Results()} {
+		for v := range vars.Variables() {
+			if hasUnexportedType(v.Type()) {
+				return true
+			}
+		}
+	}
+	return false
+}
+
+// mirrorType returns a type with the same memory layout as t that can be written down outside of its package
+func mirrorType(t types.Type, seen ...types.Type) types.Type {
+	if !hasUnexportedType(t) {
+		return t
+	}
+	if slices.Contains(seen, t) {
+		// t contains itself, which is only possible behind a slice or a map
+		return types.NewStruct(nil, nil)
+	}
+	seen = append(slices.Clip(seen), t)
+	switch t := t.(type) {
+	case *types.Slice:
+		return types.NewSlice(mirrorType(t.Elem(), seen...))
+	case *types.Array:
+		return types.NewArray(mirrorType(t.Elem(), seen...), t.Len())
+	case *types.Map:
+		if !hasUnexportedType(t.Key()) || types.IsInterface(t.Key()) {
+			return types.NewMap(mirrorType(t.Key(), seen...), mirrorType(t.Elem(), seen...))
+		}
+		if key, ok := t.Key().Underlying().(*types.Basic); ok {
+			return types.NewMap(key, mirrorType(t.Elem(), seen...))
+		}
+		return types.Typ[types.UnsafePointer]
+	case *types.Pointer, *types.Chan, *types.Signature:
+		return types.Typ[types.UnsafePointer]
+	case *types.Interface:
+		return types.NewInterfaceType(nil, nil)
+	case *types.Struct:
+		fields := make([]*types.Var, 0, t.NumFields())
+		for field := range t.Fields() {
+			fields = append(fields, types.NewField(field.Pos(), field.Pkg(), field.Name(), mirrorType(field.Type(), seen...), false))
+		}
+		return types.NewStruct(fields, nil)
+	}
+	return mirrorType(t.Underlying(), seen...)
+}
+
 type ExtraShim struct {
 	ExtraFunctions  []string
 	ExtraMethods    map[string]([]string)
@@ -151,7 +216,7 @@ func main() {
 				// linking to functions with generics is not supported in go:linkname
 				return false
 			}
-			if signatureHasUnexportedType(*fn.Signature()) {
+			if signatureHasUnexportedType(fn.Signature()) {
 				fmt.Fprintf(os.Stderr, "Skipping %s.%s: references unexported types\n", fn.Pkg().Name(), fn.Name())
 				return false
 			}
@@ -276,60 +341,24 @@ func main() {
 					}
 					mirrorStructName := "extra_" + name
 
-					var emitExtraStruct func(name string, s *types.Struct)
-					emitExtraStruct = func(name string, s *types.Struct) {
-						shimBuilder.WriteString("type extra_")
-						shimBuilder.WriteString(name)
-						shimBuilder.WriteString(" struct {")
-
-						dependencies := [](struct {
-							string
-							*types.Struct
-						}){}
-						for field := range s.Fields() {
-							shimBuilder.WriteString("\n  ")
-							if !field.Embedded() {
-								shimBuilder.WriteString(field.Name())
-								shimBuilder.WriteByte(' ')
-							}
-
-							ptrType, ok := field.Type().(*types.Pointer)
-							if ok {
-								named, ok := ptrType.Elem().(*types.Named)
-								if ok && !named.Obj().Exported() {
-									strct, ok := named.Underlying().(*types.Struct)
-									if ok {
-										n := named.Obj().Name()
-										dependencies = append(dependencies, struct {
-											string
-											*types.Struct
-										}{n, strct})
-										shimBuilder.WriteString("extra_")
-										shimBuilder.WriteString(n)
-										continue
-									}
-								}
-							}
-
-							fieldType := types.TypeString(field.Type(), qualifierOnlyPackageName)
-							// TODO: move to extra-shim.json
-							fieldType = strings.ReplaceAll(fieldType, "checker.thisAssignmentDeclarationKind", "int32")
-							fieldType = strings.ReplaceAll(fieldType, "checker.symbolTableID", "uint64")
-							shimBuilder.WriteString(fieldType)
-						}
-						shimBuilder.WriteString("\n}\n")
-
-						for _, dep := range dependencies {
-							emitExtraStruct(dep.string, dep.Struct)
-						}
-					}
-
 					strct, ok := named.Underlying().(*types.Struct)
 					if !ok {
 						log.Fatalf("expected %v to be struct", name)
 					}
 
-					emitExtraStruct(name, strct)
+					shimBuilder.WriteString("type ")
+					shimBuilder.WriteString(mirrorStructName)
+					shimBuilder.WriteString(" struct {")
+					for field := range strct.Fields() {
+						fieldType := mirrorType(field.Type())
+						shimBuilder.WriteString("\n  ")
+						if !field.Embedded() || fieldType != field.Type() {
+							shimBuilder.WriteString(field.Name())
+							shimBuilder.WriteByte(' ')
+						}
+						shimBuilder.WriteString(types.TypeString(fieldType, qualifierOnlyPackageName))
+					}
+					shimBuilder.WriteString("\n}\n")
 
 					mappedFieldTypes := make(map[string]*types.Var, strct.NumFields())
 					for field := range strct.Fields() {
-- 
2.43.0


From 8304662099e8d8e12ab1ba17d2dccea6f5241917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:15 +0000
Subject: [PATCH 59/59] fix(no-unnecessary-type-assertion): survive an
 assertion without an expression

---
 .../no_unnecessary_type_assertion.go                          | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/rules/no_unnecessary_type_assertion/no_unnecessary_type_assertion.go b/internal/rules/no_unnecessary_type_assertion/no_unnecessary_type_assertion.go
index ad15297..d010c48 100644
--- a/internal/rules/no_unnecessary_type_assertion/no_unnecessary_type_assertion.go
+++ b/internal/rules/no_unnecessary_type_assertion/no_unnecessary_type_assertion.go
@@ -518,6 +518,10 @@ var NoUnnecessaryTypeAssertionRule = rule.Rule{
 		}
 
 		removeAngleBrackets := func(assertionRange core.TextRange, expression *ast.Node) []rule.RuleFix {
+			if expression.Pos() == expression.End() || assertionRange.End() > utils.TrimNodeTextRange(ctx.SourceFile, expression).Pos() {
+				// `<T` at the end of a file: there is no `>` or nothing behind it
+				return []rule.RuleFix{rule.RuleFixRemoveRange(assertionRange)}
+			}
 			if strings.ContainsAny(ctx.SourceFile.Text()[assertionRange.End():utils.TrimNodeTextRange(ctx.SourceFile, expression).Pos()], "\r\n") {
 				// `return <T>\nx`: the statement must not end at the line break
 				return []rule.RuleFix{rule.RuleFixReplaceRange(assertionRange, "("), rule.RuleFixInsertAfter(expression, ")")}
-- 
2.43.0

