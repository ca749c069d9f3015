From b740aa1a7ccd61b387be2c63eba9ee67796077f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:27 +0000
Subject: [PATCH 01/49] fix: keep the range of a missing node inside its file

TrimNodeTextRange skipped trivia for zero-width (missing) nodes, which moved
the start of the range past its end: rules slicing the source text with it
panicked (no-unsafe-member-access, consistent-type-exports) and reported
ranges had start > end.
---
 internal/utils/utils.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/utils/utils.go b/internal/utils/utils.go
index 5d71d0e..add381b 100644
--- a/internal/utils/utils.go
+++ b/internal/utils/utils.go
@@ -13,6 +13,11 @@ import (
 )
 
 func TrimNodeTextRange(sourceFile *ast.SourceFile, node *ast.Node) core.TextRange {
+	// A missing node has no width. Skipping trivia would move its start to the
+	// next token, past its own end.
+	if ast.NodeIsMissing(node) {
+		return node.Loc
+	}
 	return scanner.GetRangeOfTokenAtPosition(sourceFile, node.Pos()).WithEnd(node.End())
 }
 
-- 
2.43.0


From 0401c44f9afca2fbeb48488780accbe585a06293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:27 +0000
Subject: [PATCH 02/49] fix: do not crash prefer-readonly on a destructured
 parameter property

---
 internal/rules/prefer_readonly/prefer_readonly.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/rules/prefer_readonly/prefer_readonly.go b/internal/rules/prefer_readonly/prefer_readonly.go
index 3b5d8be..d825ecc 100644
--- a/internal/rules/prefer_readonly/prefer_readonly.go
+++ b/internal/rules/prefer_readonly/prefer_readonly.go
@@ -143,7 +143,7 @@ func (scope *classScope) addDeclaredVariable(node *ast.Node) {
 		return
 	}
 
-	if ast.IsComputedPropertyName(nameNode) {
+	if ast.IsComputedPropertyName(nameNode) || ast.IsBindingPattern(nameNode) {
 		return
 	}
 
-- 
2.43.0


From 15f074fbaf1cdd4711fd3684d29666d620cfa57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:27 +0000
Subject: [PATCH 03/49] fix: do not crash no-mixed-enums on enums merged with a
 namespace

Also covers an empty first declaration of a merged enum.
---
 internal/rules/no_mixed_enums/no_mixed_enums.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/internal/rules/no_mixed_enums/no_mixed_enums.go b/internal/rules/no_mixed_enums/no_mixed_enums.go
index c2ac6ee..0b8693a 100644
--- a/internal/rules/no_mixed_enums/no_mixed_enums.go
+++ b/internal/rules/no_mixed_enums/no_mixed_enums.go
@@ -51,9 +51,16 @@ var NoMixedEnumsRule = rule.Rule{
 		getDesiredTypeForDefinition := func(node *ast.Node) allowedType {
 			symbol := ctx.TypeChecker.GetSymbolAtLocation(node.Name())
 
-			declaration := symbol.Declarations[0]
+			if symbol != nil {
+				for _, declaration := range symbol.Declarations {
+					// the symbol may be merged with a namespace, and an enum may be empty
+					if ast.IsEnumDeclaration(declaration) && len(declaration.Members()) > 0 {
+						return getMemberType(declaration.Members()[0])
+					}
+				}
+			}
 
-			return getMemberType(declaration.Members()[0])
+			return getMemberType(node.Members()[0])
 		}
 		return rule.RuleListeners{
 			ast.KindEnumDeclaration: func(node *ast.Node) {
-- 
2.43.0


From 4f2f4ebfdab9009baeac0f158fd683c3df871482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:27 +0000
Subject: [PATCH 04/49] fix: stop no-deprecated from looping on a circular
 alias

---
 internal/rules/no_deprecated/no_deprecated.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/rules/no_deprecated/no_deprecated.go b/internal/rules/no_deprecated/no_deprecated.go
index ad824b1..461c05f 100644
--- a/internal/rules/no_deprecated/no_deprecated.go
+++ b/internal/rules/no_deprecated/no_deprecated.go
@@ -157,6 +157,8 @@ var NoDeprecatedRule = rule.Rule{
 			}
 
 			targetSymbol := ctx.TypeChecker.GetAliasedSymbol(symbol)
+			// in an erroneous program an alias can lead back to itself
+			visited := map[*ast.Symbol]struct{}{}
 
 			for utils.IsSymbolFlagSet(symbol, ast.SymbolFlagsAlias) {
 				isDeprecated, reason := getJsDocDeprecation(symbol)
@@ -174,6 +176,11 @@ var NoDeprecatedRule = rule.Rule{
 					break
 				}
 
+				visited[symbol] = struct{}{}
+				if _, seen := visited[immediateAliasedSymbol]; seen {
+					break
+				}
+
 				symbol = immediateAliasedSymbol
 				if checkDeprecationsOfAliasedSymbol && symbol == targetSymbol {
 					return getJsDocDeprecation(symbol)
-- 
2.43.0


From b4eb0bcb3518fc530aecb93cb3d2aa1ec5e21ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:27 +0000
Subject: [PATCH 05/49] fix: do not crash no-duplicate-type-constituents on
 template literal types

---
 .../no_duplicate_type_constituents.go                | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/rules/no_duplicate_type_constituents/no_duplicate_type_constituents.go b/internal/rules/no_duplicate_type_constituents/no_duplicate_type_constituents.go
index 9608518..7a1599f 100644
--- a/internal/rules/no_duplicate_type_constituents/no_duplicate_type_constituents.go
+++ b/internal/rules/no_duplicate_type_constituents/no_duplicate_type_constituents.go
@@ -95,7 +95,17 @@ var NoDuplicateTypeConstituentsRule = rule.Rule{
 				}
 
 				parent := unwindedParentType(constituentNode, kind)
-				s := scanner.GetScannerForSourceFile(ctx.SourceFile, parent.Pos())
+				// Start after the preceding constituent: its text cannot be scanned token
+				// by token without its context (e.g. a template literal type).
+				scanStart := parent.Pos()
+				parent.ForEachChild(func(sibling *ast.Node) bool {
+					if sibling.End() <= constituentNode.Pos() {
+						scanStart = sibling.End()
+						return false
+					}
+					return true
+				})
+				s := scanner.GetScannerForSourceFile(ctx.SourceFile, scanStart)
 				foundBefore := false
 				prevStart := 0
 				bracketBeforeTokens := []core.TextRange{}
-- 
2.43.0


From 123463b83c2c52af4348af7450e513dc77b271e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:27 +0000
Subject: [PATCH 06/49] fix: bound no-unnecessary-type-parameters on circular
 instantiations

---
 .../no_unnecessary_type_parameters.go                    | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/rules/no_unnecessary_type_parameters/no_unnecessary_type_parameters.go b/internal/rules/no_unnecessary_type_parameters/no_unnecessary_type_parameters.go
index 7126797..d776853 100644
--- a/internal/rules/no_unnecessary_type_parameters/no_unnecessary_type_parameters.go
+++ b/internal/rules/no_unnecessary_type_parameters/no_unnecessary_type_parameters.go
@@ -321,6 +321,9 @@ func isTypeParameterRepeatedInAST(typeParameter *ast.Node, references []*ast.Nod
 	return false
 }
 
+// maxVisitedTypes bounds the number of distinct types visited for one declaration.
+const maxVisitedTypes = 1000
+
 func collectTypeParameterUsageCounts(
 	ctx rule.RuleContext,
 	node *ast.Node,
@@ -424,6 +427,12 @@ func collectTypeParameterUsageCounts(
 			return
 		}
 
+		// A circular generic instantiation yields a new type at every level, so
+		// the number of distinct types has to be bounded as well.
+		if len(typeUsages) > maxVisitedTypes {
+			return
+		}
+
 		if utils.IsTypeParameter(typeNode) {
 			typeParameterSymbol := checker.Type_symbol(typeNode)
 			if typeParameterSymbol != nil && len(typeParameterSymbol.Declarations) != 0 {
-- 
2.43.0


From 82c187b13355559e0e14d573d6597efd36bc427b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:06 +0000
Subject: [PATCH 07/49] fix: do not crash await-thenable on iterables that are
 not type references

---
 internal/rules/await_thenable/await_thenable.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/rules/await_thenable/await_thenable.go b/internal/rules/await_thenable/await_thenable.go
index e9cdd39..9ab8a23 100644
--- a/internal/rules/await_thenable/await_thenable.go
+++ b/internal/rules/await_thenable/await_thenable.go
@@ -306,6 +306,10 @@ func getValueTypesOfArrayLike(
 		return []*checker.Type{numberIndexType}
 	}
 
+	if checker.Type_objectFlags(t)&checker.ObjectFlagsReference == 0 {
+		return nil
+	}
+
 	typeArguments := checker.Checker_getTypeArguments(typeChecker, t)
 	if len(typeArguments) != 0 {
 		return typeArguments[:1]
-- 
2.43.0


From 895441269eb09a3198612597c4633480b4cd065c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:06 +0000
Subject: [PATCH 08/49] fix: do not crash
 use-unknown-in-catch-callback-variable on an empty rest tuple

---
 .../use_unknown_in_catch_callback_variable.go              | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/rules/use_unknown_in_catch_callback_variable/use_unknown_in_catch_callback_variable.go b/internal/rules/use_unknown_in_catch_callback_variable/use_unknown_in_catch_callback_variable.go
index 4d46911..b30cdad 100644
--- a/internal/rules/use_unknown_in_catch_callback_variable/use_unknown_in_catch_callback_variable.go
+++ b/internal/rules/use_unknown_in_catch_callback_variable/use_unknown_in_catch_callback_variable.go
@@ -79,7 +79,12 @@ var UseUnknownInCatchCallbackVariableRule = rule.Rule{
 						if !checker.Checker_isArrayOrTupleType(ctx.TypeChecker, firstParamType) {
 							return true
 						}
-						firstParamType = checker.Checker_getTypeArguments(ctx.TypeChecker, firstParamType)[0]
+						typeArguments := checker.Checker_getTypeArguments(ctx.TypeChecker, firstParamType)
+						if len(typeArguments) == 0 {
+							// an empty tuple, i.e. no parameters at all
+							continue
+						}
+						firstParamType = typeArguments[0]
 					}
 
 					if !utils.IsTypeFlagSet(firstParamType, checker.TypeFlagsUnknown) {
-- 
2.43.0


From efdf4f407e38cbb4bd7ca35c8a79e90d42cee2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:06 +0000
Subject: [PATCH 09/49] fix: do not crash no-unnecessary-template-expression on
 unterminated literals

---
 .../no_unnecessary_template_expression.go                    | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/rules/no_unnecessary_template_expression/no_unnecessary_template_expression.go b/internal/rules/no_unnecessary_template_expression/no_unnecessary_template_expression.go
index 845c323..d7d835b 100644
--- a/internal/rules/no_unnecessary_template_expression/no_unnecessary_template_expression.go
+++ b/internal/rules/no_unnecessary_template_expression/no_unnecessary_template_expression.go
@@ -144,6 +144,11 @@ var NoUnnecessaryTemplateExpressionRule = rule.Rule{
 				return true
 			}
 
+			// the text of an unterminated literal has no closing quote to strip
+			if ast.IsLiteralExpression(expression) && ast.IsUnterminatedLiteral(expression) {
+				return false
+			}
+
 			if ast.IsStringLiteralLike(expression) {
 				var raw string
 				if nextQuasiLiteral.Kind == ast.KindTemplateMiddle {
-- 
2.43.0


From a0cd6f235b7c1dcf5c4724c53b9dde11207b38f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:57 +0000
Subject: [PATCH 10/49] fix: stop no-unnecessary-qualifier from recursing on a
 circular alias

---
 .../no_unnecessary_qualifier/no_unnecessary_qualifier.go      | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/rules/no_unnecessary_qualifier/no_unnecessary_qualifier.go b/internal/rules/no_unnecessary_qualifier/no_unnecessary_qualifier.go
index 68692ab..d80d3ef 100644
--- a/internal/rules/no_unnecessary_qualifier/no_unnecessary_qualifier.go
+++ b/internal/rules/no_unnecessary_qualifier/no_unnecessary_qualifier.go
@@ -47,7 +47,9 @@ var NoUnnecessaryQualifierRule = rule.Rule{
 			}
 
 			if utils.IsSymbolFlagSet(symbol, ast.SymbolFlagsAlias) {
-				return symbolIsNamespaceInScope(ctx.TypeChecker.GetAliasedSymbol(symbol))
+				// a circular alias resolves to itself
+				aliasedSymbol := ctx.TypeChecker.GetAliasedSymbol(symbol)
+				return aliasedSymbol != symbol && symbolIsNamespaceInScope(aliasedSymbol)
 			}
 
 			return false
-- 
2.43.0


From 2c263b0d8d572c8c844273f7cd743aa1587f1e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:45 +0000
Subject: [PATCH 11/49] fix: write the headless error frame after all
 diagnostics

The diagnostics writer was still running, so its frames could follow, split or
get lost around the error frame.
---
 cmd/tsgolint/headless.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/tsgolint/headless.go b/cmd/tsgolint/headless.go
index 8ed760f..5f8bfbd 100644
--- a/cmd/tsgolint/headless.go
+++ b/cmd/tsgolint/headless.go
@@ -450,14 +450,14 @@ func runHeadless(args []string) int {
 	})
 
 	close(diagnosticsChan)
+	// the writer has to be done with stdout before anything else is written to it
+	wg.Wait()
 	if err != nil {
 		log.Printf("ERROR: Linter failed: %v", err)
 		writeErrorMessage(fmt.Sprintf("error running linter: %v", err))
 		return 1
 	}
 
-	wg.Wait()
-
 	if opts.debugTimings {
 		if err := writeMessage(os.Stdout, headlessMessageTypeTiming, headlessTimingPayloadFromRecords(timingStore.Collect())); err != nil {
 			log.Printf("ERROR: failed to write timing output: %v", err)
-- 
2.43.0


From ff4feaa0044bc7e8385c25fb9fb67c34dadb6341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:45 +0000
Subject: [PATCH 12/49] fix: do not drop diagnostics whose text is not valid
 UTF-8

---
 cmd/tsgolint/headless.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/tsgolint/headless.go b/cmd/tsgolint/headless.go
index 5f8bfbd..4fed494 100644
--- a/cmd/tsgolint/headless.go
+++ b/cmd/tsgolint/headless.go
@@ -13,6 +13,7 @@ import (
 	"sync"
 
 	"github.com/go-json-experiment/json"
+	"github.com/go-json-experiment/json/jsontext"
 
 	"github.com/microsoft/typescript-go/shim/ast"
 	"github.com/microsoft/typescript-go/shim/bundled"
@@ -193,7 +194,9 @@ func internalToAny(d diagnostic.Internal) anyDiagnostic {
 }
 
 func writeMessage(w io.Writer, messageType headlessMessageType, payload any) error {
-	payloadBytes, err := json.Marshal(payload)
+	// Messages can quote source text that is not valid UTF-8 (e.g. a lone surrogate
+	// in a string literal); it must not make the whole message disappear.
+	payloadBytes, err := json.Marshal(payload, jsontext.AllowInvalidUTF8(true))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 3bc5c7d192dd299c86ba769f461b29cfe5abb731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:45 +0000
Subject: [PATCH 13/49] fix: report a file that no program contains as an error
 instead of panicking

---
 internal/linter/linter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/linter/linter.go b/internal/linter/linter.go
index 1e3a6fd..f44933c 100644
--- a/internal/linter/linter.go
+++ b/internal/linter/linter.go
@@ -145,7 +145,7 @@ func RunLinter(options RunLinterOptions) error {
 			}
 			log.Printf("Program source files (%d): %s", len(programFiles), strings.Join(programFiles, ", "))
 
-			panic(fmt.Sprintf("Expected file '%s' to be in program '%s'", unmatchedFilesString, configFileName))
+			return fmt.Errorf("expected file '%s' to be in program '%s'", unmatchedFilesString, configFileName)
 		}
 
 		err = RunLinterOnProgram(RunLinterOnProgramOptions{
@@ -185,7 +185,7 @@ func RunLinter(options RunLinterOptions) error {
 		for _, f := range workload.UnmatchedFiles {
 			sf := program.GetSourceFile(f)
 			if sf == nil {
-				panic(fmt.Sprintf("Expected file '%s' to be in inferred program", f))
+				return fmt.Errorf("expected file '%s' to be in inferred program", f)
 			}
 			files = append(files, sf)
 		}
-- 
2.43.0


From b2f95c849881aaab03f784342d20dbe9ae6da3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:46 +0000
Subject: [PATCH 14/49] fix: refuse an unknown rule name with an error frame
 instead of panicking

---
 cmd/tsgolint/headless.go | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/cmd/tsgolint/headless.go b/cmd/tsgolint/headless.go
index 4fed494..edd2389 100644
--- a/cmd/tsgolint/headless.go
+++ b/cmd/tsgolint/headless.go
@@ -254,6 +254,22 @@ func runHeadless(args []string) int {
 		return 1
 	}
 
+	allRulesByName := make(map[string]rule.Rule, len(allRules))
+	for _, r := range allRules {
+		allRulesByName[r.Name] = r
+	}
+	for _, config := range payload.Configs {
+		if len(config.FilePaths) == 0 {
+			continue
+		}
+		for _, r := range config.Rules {
+			if _, ok := allRulesByName[r.Name]; !ok {
+				writeErrorMessage(fmt.Sprintf("unknown rule: %v", r.Name))
+				return 1
+			}
+		}
+	}
+
 	baseFS := osvfs.FS()
 	if len(payload.SourceOverrides) > 0 {
 		baseFS = newOverlayFS(baseFS, payload.SourceOverrides)
@@ -313,11 +329,6 @@ func runHeadless(args []string) int {
 		}
 	}
 
-	allRulesByName := make(map[string]rule.Rule, len(allRules))
-	for _, r := range allRules {
-		allRulesByName[r.Name] = r
-	}
-
 	for _, files := range workload.Programs {
 		slices.SortFunc(files, func(a, b string) int {
 			return len(b) - len(a)
@@ -424,10 +435,7 @@ func runHeadless(args []string) int {
 			rules := make([]linter.ConfiguredRule, len(cfg))
 
 			for i, headlessRule := range cfg {
-				r, ok := allRulesByName[headlessRule.Name]
-				if !ok {
-					panic(fmt.Sprintf("unknown rule: %v", headlessRule.Name))
-				}
+				r := allRulesByName[headlessRule.Name]
 				rules[i] = linter.ConfiguredRule{
 					Name: r.Name,
 					Run: func(ctx rule.RuleContext) rule.RuleListeners {
-- 
2.43.0


From 00cf66a3d0af9775be705fbcc84cdfec5154e5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 15/49] fix: do not crash unbound-method on an untyped this
 parameter

---
 internal/rules/unbound_method/unbound_method.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/rules/unbound_method/unbound_method.go b/internal/rules/unbound_method/unbound_method.go
index 38218f0..b9b8611 100644
--- a/internal/rules/unbound_method/unbound_method.go
+++ b/internal/rules/unbound_method/unbound_method.go
@@ -164,7 +164,7 @@ func checkMethod(valueDeclaration *ast.Node, ignoreStatic bool) ( /* dangerous *
 
 	firstParamIsThis := len(params) > 0 && ast.IsParameterDeclaration(params[0]) && ast.IsIdentifier(params[0].Name()) && params[0].Name().Text() == "this"
 
-	thisArgIsVoid := firstParamIsThis && params[0].Type().Kind == ast.KindVoidKeyword
+	thisArgIsVoid := firstParamIsThis && params[0].Type() != nil && params[0].Type().Kind == ast.KindVoidKeyword
 
 	dangerous := !thisArgIsVoid && (!ignoreStatic || !utils.IncludesModifier(valueDeclaration, ast.KindStaticKeyword))
 
-- 
2.43.0


From 0542829f73bbd14deeb0acb067c04044ad2cf861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:31 +0000
Subject: [PATCH 16/49] fix: write a valid string literal in prefer-includes
 fixes

---
 .../rules/prefer_includes/prefer_includes.go  | 26 +++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/internal/rules/prefer_includes/prefer_includes.go b/internal/rules/prefer_includes/prefer_includes.go
index 4f66a41..8147e48 100644
--- a/internal/rules/prefer_includes/prefer_includes.go
+++ b/internal/rules/prefer_includes/prefer_includes.go
@@ -31,9 +31,29 @@ var PreferIncludesRule = rule.Rule{
 	Run: func(ctx rule.RuleContext, options any) rule.RuleListeners {
 
 		// Escape special characters for string literal
-		// The pattern from regex already has escape sequences, we only need to escape apostrophes
+		// The pattern from regex already has escape sequences, we only need to escape apostrophes and line terminators
 		escapeString := func(s string) string {
-			return strings.ReplaceAll(s, "'", "\\'")
+			var b strings.Builder
+			escaped := false
+			for _, ch := range s {
+				if !escaped && strings.ContainsRune("'\n\r\u2028\u2029", ch) {
+					b.WriteByte('\\')
+				}
+				switch ch {
+				case '\n':
+					b.WriteByte('n')
+				case '\r':
+					b.WriteByte('r')
+				case '\u2028':
+					b.WriteString("u2028")
+				case '\u2029':
+					b.WriteString("u2029")
+				default:
+					b.WriteRune(ch)
+				}
+				escaped = ch == '\\' && !escaped
+			}
+			return b.String()
 		}
 
 		// Check if a pattern string contains only simple literal characters
@@ -55,6 +75,8 @@ var PreferIncludesRule = rule.Rule{
 					case 'd', 'D', 'w', 'W', 's', 'S', 'b', 'B', 'c', 'x', 'u':
 						return false
 					}
+					// An escaped backslash does not escape what follows it
+					ch = 0
 				}
 				prevRune = ch
 			}
-- 
2.43.0


From b2265853fe241cb1a913df5624d72ccf07afeb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:31 +0000
Subject: [PATCH 17/49] fix: remove the whole type assertion in
 non-nullable-type-assertion-style

---
 .../non_nullable_type_assertion_style.go                        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/rules/non_nullable_type_assertion_style/non_nullable_type_assertion_style.go b/internal/rules/non_nullable_type_assertion_style/non_nullable_type_assertion_style.go
index d889f05..cbe635f 100644
--- a/internal/rules/non_nullable_type_assertion_style/non_nullable_type_assertion_style.go
+++ b/internal/rules/non_nullable_type_assertion_style/non_nullable_type_assertion_style.go
@@ -85,7 +85,7 @@ var NonNullableTypeAssertionStyleRule = rule.Rule{
 			higherPrecedenceThanUnary := ast.GetExpressionPrecedence(expression) > ast.OperatorPrecedenceUnary
 
 			var removeRange core.TextRange
-			if ast.IsAssertionExpression(node) {
+			if ast.IsAsExpression(node) {
 				removeRange = node.Loc.WithPos(expression.End())
 			} else {
 				removeRange = node.Loc.WithEnd(expression.Pos())
-- 
2.43.0


From 1794500e8ed86f7699fd1be572a95108f6a6e414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:31 +0000
Subject: [PATCH 18/49] fix: leave optional chains alone in prefer-find

---
 internal/rules/prefer_find/prefer_find.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/rules/prefer_find/prefer_find.go b/internal/rules/prefer_find/prefer_find.go
index d6a87c3..bea59db 100644
--- a/internal/rules/prefer_find/prefer_find.go
+++ b/internal/rules/prefer_find/prefer_find.go
@@ -453,12 +453,12 @@ var PreferFindRule = rule.Rule{
 				return nil
 			}
 
-			if callExpression.QuestionDotToken != nil {
+			callee := ast.SkipParentheses(callExpression.Expression)
+			if callee == nil || (!ast.IsPropertyAccessExpression(callee) && !ast.IsElementAccessExpression(callee)) {
 				return nil
 			}
 
-			callee := ast.SkipParentheses(callExpression.Expression)
-			if callee == nil || (!ast.IsPropertyAccessExpression(callee) && !ast.IsElementAccessExpression(callee)) {
+			if callee.QuestionDotToken() != nil {
 				return nil
 			}
 
-- 
2.43.0


From 8750fc34073af1779f8ce1206c0d27c58777df23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:31 +0000
Subject: [PATCH 19/49] fix: write a valid regular expression literal in
 prefer-regexp-exec fixes

---
 .../prefer_regexp_exec/prefer_regexp_exec.go  | 42 ++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/internal/rules/prefer_regexp_exec/prefer_regexp_exec.go b/internal/rules/prefer_regexp_exec/prefer_regexp_exec.go
index 4939f75..96c6291 100644
--- a/internal/rules/prefer_regexp_exec/prefer_regexp_exec.go
+++ b/internal/rules/prefer_regexp_exec/prefer_regexp_exec.go
@@ -259,7 +259,47 @@ var PreferRegexpExecRule = rule.Rule{
 		}
 
 		buildStringToRegExpLiteral := func(pattern string) string {
-			return "/" + strings.ReplaceAll(pattern, "/", "\\/") + "/"
+			if pattern == "" {
+				return "/(?:)/"
+			}
+			var literal strings.Builder
+			literal.WriteByte('/')
+			escaped, inClass := false, false
+			for _, r := range pattern {
+				lineTerminator := ""
+				switch r {
+				case '\n':
+					lineTerminator = "n"
+				case '\r':
+					lineTerminator = "r"
+				case '\u2028':
+					lineTerminator = "u2028"
+				case '\u2029':
+					lineTerminator = "u2029"
+				}
+				if !escaped && (lineTerminator != "" || r == '/' && !inClass) {
+					literal.WriteByte('\\')
+				}
+				if lineTerminator != "" {
+					literal.WriteString(lineTerminator)
+				} else {
+					literal.WriteRune(r)
+				}
+				if escaped {
+					escaped = false
+					continue
+				}
+				switch r {
+				case '\\':
+					escaped = true
+				case '[':
+					inClass = true
+				case ']':
+					inClass = false
+				}
+			}
+			literal.WriteByte('/')
+			return literal.String()
 		}
 
 		reportWithFix := func(
-- 
2.43.0


From f172f0ebe607a62ee5fd3a357fde2b9e6610faab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:31 +0000
Subject: [PATCH 20/49] fix: write valid code in prefer-string-starts-ends-with
 fixes

---
 .../prefer_string_starts_ends_with.go           |  4 ++--
 internal/utils/string_literal.go                | 17 +++++++++++++----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/internal/rules/prefer_string_starts_ends_with/prefer_string_starts_ends_with.go b/internal/rules/prefer_string_starts_ends_with/prefer_string_starts_ends_with.go
index 98ec941..bbd73db 100644
--- a/internal/rules/prefer_string_starts_ends_with/prefer_string_starts_ends_with.go
+++ b/internal/rules/prefer_string_starts_ends_with/prefer_string_starts_ends_with.go
@@ -629,7 +629,7 @@ var PreferStringStartsEndsWithRule = rule.Rule{
 
 					fixes = append(fixes,
 						rule.RuleFixReplaceRange(propertyRange, fmt.Sprintf("%s%s", memberOptionalOperator(memberNode), method)),
-						rule.RuleFixReplaceRange(argRange, strconv.Quote(parsed.text)),
+						rule.RuleFixReplaceRange(argRange, utils.QuoteDoubleStringLiteral(parsed.text)),
 						rule.RuleFixRemoveRange(callRange.WithPos(callRange.End()).WithEnd(binRange.End())),
 					)
 
@@ -782,7 +782,7 @@ var PreferStringStartsEndsWithRule = rule.Rule{
 						rule.RuleFixInsertAfter(arg, ")"),
 					)
 				}
-				fixes = append(fixes, rule.RuleFixInsertAfter(arg, fmt.Sprintf("%s%s(%s", memberOptionalOperator(memberNode), method, strconv.Quote(parsed.text))))
+				fixes = append(fixes, rule.RuleFixReplaceRange(callRange.WithPos(argRange.End()), fmt.Sprintf("%s%s(%s)", memberOptionalOperator(memberNode), method, utils.QuoteDoubleStringLiteral(parsed.text))))
 
 				return fixes
 			})
diff --git a/internal/utils/string_literal.go b/internal/utils/string_literal.go
index 6579c88..af69311 100644
--- a/internal/utils/string_literal.go
+++ b/internal/utils/string_literal.go
@@ -6,9 +6,17 @@ import (
 )
 
 func QuoteSingleStringLiteral(value string) string {
+	return quoteStringLiteral(value, '\'')
+}
+
+func QuoteDoubleStringLiteral(value string) string {
+	return quoteStringLiteral(value, '"')
+}
+
+func quoteStringLiteral(value string, quote rune) string {
 	var b strings.Builder
 	b.Grow(len(value) + 2)
-	b.WriteByte('\'')
+	b.WriteRune(quote)
 	for _, ch := range value {
 		switch ch {
 		case '\t':
@@ -25,8 +33,9 @@ func QuoteSingleStringLiteral(value string) string {
 			b.WriteString(`\n`)
 		case '\\':
 			b.WriteString(`\\`)
-		case '\'':
-			b.WriteString(`\'`)
+		case quote:
+			b.WriteByte('\\')
+			b.WriteRune(quote)
 		case '\u2028', '\u2029', '\u0085':
 			writeUnicodeEscape(&b, ch)
 		default:
@@ -37,7 +46,7 @@ func QuoteSingleStringLiteral(value string) string {
 			}
 		}
 	}
-	b.WriteByte('\'')
+	b.WriteRune(quote)
 	return b.String()
 }
 
-- 
2.43.0


From 59846aa621eda96753cf4e0d5cb2d54dbfe16299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:46 +0000
Subject: [PATCH 21/49] fix: keep the range of compiler diagnostics on missing
 nodes ordered

---
 internal/linter/linter.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/linter/linter.go b/internal/linter/linter.go
index f44933c..a154cee 100644
--- a/internal/linter/linter.go
+++ b/internal/linter/linter.go
@@ -313,6 +313,15 @@ func newRuleContext(ctxBuilder *ruleContextBuilder) rule.RuleContext {
 	}
 }
 
+// The compiler starts the range of a missing node at the next token, which may lie after the end of the node.
+func diagnosticRange(d *ast.Diagnostic) core.TextRange {
+	loc := d.Loc()
+	if loc.End() < loc.Pos() {
+		return loc.WithPos(loc.End())
+	}
+	return loc
+}
+
 func reportTypeScriptDiagnostics(program *compiler.Program, files []*ast.SourceFile, typeErrors TypeErrors, onInternalDiagnostic func(d diagnostic.Internal)) {
 	ctx := core.WithRequestID(context.Background(), "__single_run__")
 
@@ -324,7 +333,7 @@ func reportTypeScriptDiagnostics(program *compiler.Program, files []*ast.SourceF
 			for _, d := range syntacticDiagnostics {
 				if d.File() != nil && d.File().FileName() == fileName {
 					onInternalDiagnostic(diagnostic.Internal{
-						Range:       d.Loc(),
+						Range:       diagnosticRange(d),
 						Id:          "TS" + strconv.Itoa(int(d.Code())),
 						Description: utils.GetDiagnosticMessage(d),
 						FilePath:    &fileName,
@@ -354,7 +363,7 @@ func reportTypeScriptDiagnostics(program *compiler.Program, files []*ast.SourceF
 			for _, d := range finalDiagnostics {
 				if d.File() != nil && d.File().FileName() == fileName {
 					onInternalDiagnostic(diagnostic.Internal{
-						Range:       d.Loc(),
+						Range:       diagnosticRange(d),
 						Id:          "TS" + strconv.Itoa(int(d.Code())),
 						Description: utils.GetDiagnosticMessage(d),
 						FilePath:    &fileName,
-- 
2.43.0


From a2e48632ee2133a665d266aa1882d4cb2a8b0cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:46 +0000
Subject: [PATCH 22/49] fix: do not report interpolations of an unterminated
 template

---
 .../no_unnecessary_template_expression.go         | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/internal/rules/no_unnecessary_template_expression/no_unnecessary_template_expression.go b/internal/rules/no_unnecessary_template_expression/no_unnecessary_template_expression.go
index d7d835b..29fd6a7 100644
--- a/internal/rules/no_unnecessary_template_expression/no_unnecessary_template_expression.go
+++ b/internal/rules/no_unnecessary_template_expression/no_unnecessary_template_expression.go
@@ -229,6 +229,15 @@ var NoUnnecessaryTemplateExpressionRule = rule.Rule{
 			})
 		}
 
+		// the last interpolation of a template that ends too early has no closing brace
+		isUnterminatedTemplate := func(templateSpans *ast.NodeList) bool {
+			span := templateSpans.Nodes[len(templateSpans.Nodes)-1]
+			if span.Kind == ast.KindTemplateSpan {
+				return ast.NodeIsMissing(span.AsTemplateSpan().Literal)
+			}
+			return ast.NodeIsMissing(span.AsTemplateLiteralTypeSpan().Literal)
+		}
+
 		checkTemplateSpans := func(templateSpans *ast.NodeList, head *ast.TemplateHeadNode) {
 			nextCharacterIsOpeningCurlyBrace := false
 
@@ -324,6 +333,9 @@ var NoUnnecessaryTemplateExpressionRule = rule.Rule{
 				}
 
 				expr := node.AsTemplateExpression()
+				if isUnterminatedTemplate(expr.TemplateSpans) {
+					return
+				}
 				firstSpan := expr.TemplateSpans.Nodes[0].AsTemplateSpan()
 
 				if isTrivialInterpolation(expr.TemplateSpans, expr.Head, firstSpan.Literal) {
@@ -339,6 +351,9 @@ var NoUnnecessaryTemplateExpressionRule = rule.Rule{
 			},
 			ast.KindTemplateLiteralType: func(node *ast.Node) {
 				expr := node.AsTemplateLiteralTypeNode()
+				if isUnterminatedTemplate(expr.TemplateSpans) {
+					return
+				}
 				firstSpan := expr.TemplateSpans.Nodes[0].AsTemplateLiteralTypeSpan()
 
 				if isTrivialInterpolation(expr.TemplateSpans, expr.Head, firstSpan.Literal) {
-- 
2.43.0


From f93fa3a8d9f7f5a924f22f1e0ee9fe7398cd5f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:46 +0000
Subject: [PATCH 23/49] fix: report an unsafe JSDoc cast at its type

---
 .../no_unsafe_type_assertion/no_unsafe_type_assertion.go     | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/rules/no_unsafe_type_assertion/no_unsafe_type_assertion.go b/internal/rules/no_unsafe_type_assertion/no_unsafe_type_assertion.go
index 971725c..a57da9c 100644
--- a/internal/rules/no_unsafe_type_assertion/no_unsafe_type_assertion.go
+++ b/internal/rules/no_unsafe_type_assertion/no_unsafe_type_assertion.go
@@ -56,6 +56,11 @@ func isObjectLiteralType(t *checker.Type) bool {
 }
 
 func getAssertionRange(sourceFile *ast.SourceFile, node, expression, typeAnnotation *ast.Node) core.TextRange {
+	// a JSDoc cast has neither keyword nor brackets, and its type precedes the expression
+	if typeAnnotation.Flags&ast.NodeFlagsReparsed != 0 {
+		return utils.TrimNodeTextRange(sourceFile, typeAnnotation)
+	}
+
 	if ast.IsAsExpression(node) {
 		asKeywordRange := scanner.GetScannerForSourceFile(sourceFile, expression.End()).TokenRange()
 		return asKeywordRange.WithEnd(typeAnnotation.End())
-- 
2.43.0


From 465a3e6a7eb9dce8e95503be56bfed9778fd1ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:00 +0000
Subject: [PATCH 24/49] fix: do not suggest a non-null assertion for a JSDoc
 cast

---
 .../non_nullable_type_assertion_style.go                      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/rules/non_nullable_type_assertion_style/non_nullable_type_assertion_style.go b/internal/rules/non_nullable_type_assertion_style/non_nullable_type_assertion_style.go
index cbe635f..a67b6d0 100644
--- a/internal/rules/non_nullable_type_assertion_style/non_nullable_type_assertion_style.go
+++ b/internal/rules/non_nullable_type_assertion_style/non_nullable_type_assertion_style.go
@@ -45,6 +45,10 @@ var NonNullableTypeAssertionStyleRule = rule.Rule{
 			if ast.IsConstAssertion(node) {
 				return
 			}
+			// a JSDoc cast is written in a comment
+			if node.Type().Flags&ast.NodeFlagsReparsed != 0 {
+				return
+			}
 
 			expression := node.Expression()
 			originalTypes := getTypesIfNotLoose(expression)
-- 
2.43.0


From 8bbb30f02fb4bef47d0ef2a6dedc7fbd0844ca57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:49 +0000
Subject: [PATCH 25/49] fix: remove the right comment for an unnecessary JSDoc
 cast

---
 .../no_unnecessary_type_assertion.go          | 74 +++++++++++--------
 1 file changed, 43 insertions(+), 31 deletions(-)

diff --git a/internal/rules/no_unnecessary_type_assertion/no_unnecessary_type_assertion.go b/internal/rules/no_unnecessary_type_assertion/no_unnecessary_type_assertion.go
index 7e5bb44..a56731c 100644
--- a/internal/rules/no_unnecessary_type_assertion/no_unnecessary_type_assertion.go
+++ b/internal/rules/no_unnecessary_type_assertion/no_unnecessary_type_assertion.go
@@ -517,9 +517,39 @@ var NoUnnecessaryTypeAssertionRule = rule.Rule{
 			return parent
 		}
 
+		// getJSDocCastRanges returns the comment that makes up a JSDoc cast, and the range that removes it.
+		getJSDocCastRanges := func(node *ast.Node) (core.TextRange, core.TextRange, bool) {
+			expression := node.Expression()
+			if node.Type().Flags&ast.NodeFlagsReparsed == 0 {
+				return core.TextRange{}, core.TextRange{}, false
+			}
+
+			searchStart := node.Pos()
+			if ast.IsParenthesizedExpression(node.Parent) {
+				searchStart = node.Parent.Pos()
+			}
+
+			beforeExpression := ctx.SourceFile.Text()[searchStart:expression.Pos()]
+			commentStartOffset := strings.LastIndex(beforeExpression, "/**")
+			commentEndOffset := strings.LastIndex(beforeExpression, "*/")
+			if commentStartOffset == -1 || commentEndOffset < commentStartOffset {
+				return core.TextRange{}, core.TextRange{}, false
+			}
+			commentStart := searchStart + commentStartOffset
+			commentEnd := searchStart + commentEndOffset + len("*/")
+			fixEnd := commentEnd
+			for fixEnd < expression.Pos() && utils.IsStrWhiteSpace(rune(ctx.SourceFile.Text()[fixEnd])) {
+				fixEnd++
+			}
+			return core.NewTextRange(commentStart, commentEnd), core.NewTextRange(commentStart, fixEnd), true
+		}
+
 		buildAssertionFixes := func(node *ast.Node) []rule.RuleFix {
 			typeNode := node.Type()
 			expression := node.Expression()
+			if _, fixRange, ok := getJSDocCastRanges(node); ok {
+				return []rule.RuleFix{rule.RuleFixRemoveRange(fixRange)}
+			}
 			if node.Kind == ast.KindAsExpression {
 				s := scanner.GetScannerForSourceFile(ctx.SourceFile, expression.End())
 				asKeywordRange := s.TokenRange()
@@ -569,37 +599,19 @@ var NoUnnecessaryTypeAssertionRule = rule.Rule{
 			expression := node.Expression()
 			expressionForType := ast.SkipParentheses(expression)
 
-			if typeNode.Pos() < expression.Pos() {
-				searchStart := node.Pos()
-				if ast.IsParenthesizedExpression(node.Parent) {
-					searchStart = node.Parent.Pos()
-				}
-
-				beforeExpression := ctx.SourceFile.Text()[searchStart:expression.Pos()]
-				commentStartOffset := strings.LastIndex(beforeExpression, "/**")
-				commentEndOffset := strings.LastIndex(beforeExpression, "*/")
-				if commentStartOffset != -1 && commentEndOffset != -1 && commentEndOffset >= commentStartOffset {
-					commentStart := searchStart + commentStartOffset
-					commentEnd := searchStart + commentEndOffset + len("*/")
-					fixEnd := commentEnd
-					for fixEnd < expression.Pos() && utils.IsStrWhiteSpace(rune(ctx.SourceFile.Text()[fixEnd])) {
-						fixEnd++
-					}
-
-					assertionRange := core.NewTextRange(commentStart, commentEnd)
-					ctx.ReportDiagnosticWithFixes(
-						buildUnnecessaryTypeAssertionDiagnostic(
-							assertionRange,
-							utils.TrimNodeTextRange(ctx.SourceFile, expressionForType),
-							ctx.TypeChecker.TypeToString(uncastType),
-							ctx.TypeChecker.TypeToString(castType),
-						),
-						func() []rule.RuleFix {
-							return []rule.RuleFix{rule.RuleFixRemoveRange(core.NewTextRange(commentStart, fixEnd))}
-						},
-					)
-					return
-				}
+			if assertionRange, fixRange, ok := getJSDocCastRanges(node); ok {
+				ctx.ReportDiagnosticWithFixes(
+					buildUnnecessaryTypeAssertionDiagnostic(
+						assertionRange,
+						utils.TrimNodeTextRange(ctx.SourceFile, expressionForType),
+						ctx.TypeChecker.TypeToString(uncastType),
+						ctx.TypeChecker.TypeToString(castType),
+					),
+					func() []rule.RuleFix {
+						return []rule.RuleFix{rule.RuleFixRemoveRange(fixRange)}
+					},
+				)
+				return
 			}
 
 			if node.Kind == ast.KindAsExpression {
-- 
2.43.0


From 5a98778fa993b4c956449569a4478319b80c17a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:25 +0000
Subject: [PATCH 26/49] fix: offer no dot-notation fix when the closing bracket
 is missing

---
 internal/rules/dot_notation/dot_notation.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/rules/dot_notation/dot_notation.go b/internal/rules/dot_notation/dot_notation.go
index bfed552..f452d53 100644
--- a/internal/rules/dot_notation/dot_notation.go
+++ b/internal/rules/dot_notation/dot_notation.go
@@ -217,6 +217,11 @@ var DotNotationRule = rule.Rule{
 				leftBracketRange := scanner.GetRangeOfTokenAtPosition(ctx.SourceFile, objectRange.End())
 				rightBracketRange := scanner.GetRangeOfTokenAtPosition(ctx.SourceFile, propertyRange.End())
 
+				// the closing bracket is missing
+				if rightBracketRange.End() > node.End() {
+					return nil
+				}
+
 				replaceStart := leftBracketRange.Pos()
 				fixes := make([]rule.RuleFix, 0, 3)
 				if elementAccess.QuestionDotToken == nil {
-- 
2.43.0


From 5151f8382ec099b40bfa63f7ec9b15bf3c4f7723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:33 +0000
Subject: [PATCH 27/49] fix: keep the head of a function without parameter list
 on character boundaries

---
 internal/utils/ts_eslint.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/utils/ts_eslint.go b/internal/utils/ts_eslint.go
index ef71320..0903386 100644
--- a/internal/utils/ts_eslint.go
+++ b/internal/utils/ts_eslint.go
@@ -205,6 +205,10 @@ func GetFunctionHeadLoc(
 	}
 	// The parameter list's range starts right after `(`, so `Pos() - 1` is the `(`.
 	end := params.Loc.Pos() - 1
+	if end < 0 || sourceFile.Text()[end] != '(' {
+		// the `(` is missing
+		end = params.Loc.Pos()
+	}
 
 	// Skip leading decorators; keep modifiers such as `export`, `public`, `async`.
 	start := scanner.GetTokenPosOfNode(node, sourceFile, false)
-- 
2.43.0


From a41720985ecd2493425a095d2517302b993929d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:13 +0000
Subject: [PATCH 28/49] fix: start labels of no-unnecessary-condition at the
 operand

---
 .../no_unnecessary_condition/no_unnecessary_condition.go      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/rules/no_unnecessary_condition/no_unnecessary_condition.go b/internal/rules/no_unnecessary_condition/no_unnecessary_condition.go
index 795150e..20a6665 100644
--- a/internal/rules/no_unnecessary_condition/no_unnecessary_condition.go
+++ b/internal/rules/no_unnecessary_condition/no_unnecessary_condition.go
@@ -1666,9 +1666,9 @@ var NoUnnecessaryConditionRule = rule.Rule{
 				ctx.ReportDiagnostic(buildNoOverlapDiagnostic(
 					primaryRange,
 					typeNameForDiagnostic(ctx.TypeChecker, leftType),
-					left.Loc,
+					utils.TrimNodeTextRange(ctx.SourceFile, left),
 					typeNameForDiagnostic(ctx.TypeChecker, rightType),
-					right.Loc,
+					utils.TrimNodeTextRange(ctx.SourceFile, right),
 				))
 			}
 		}
-- 
2.43.0


From 6336c83cbb6b71745449a3a919e3912d51723f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:13 +0000
Subject: [PATCH 29/49] fix: start the label of no-unnecessary-type-assertion
 at the expression

---
 .../no_unnecessary_type_assertion.go                            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/rules/no_unnecessary_type_assertion/no_unnecessary_type_assertion.go b/internal/rules/no_unnecessary_type_assertion/no_unnecessary_type_assertion.go
index a56731c..3af1fda 100644
--- a/internal/rules/no_unnecessary_type_assertion/no_unnecessary_type_assertion.go
+++ b/internal/rules/no_unnecessary_type_assertion/no_unnecessary_type_assertion.go
@@ -1195,7 +1195,7 @@ var NoUnnecessaryTypeAssertionRule = rule.Rule{
 					ctx.ReportDiagnosticWithFixes(
 						buildUnnecessaryAssertionDiagnostic(
 							exclamationRange,
-							expression.Loc,
+							utils.TrimNodeTextRange(ctx.SourceFile, expression),
 							ctx.TypeChecker.TypeToString(constrainedType),
 						),
 						func() []rule.RuleFix { return []rule.RuleFix{buildRemoveExclamationFix(exclamationRange)} },
-- 
2.43.0


From 214caa606ab71de87b6385ec87c7a88e61a70e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:13 +0000
Subject: [PATCH 30/49] fix: do not repeat leading comments in
 prefer-nullish-coalescing suggestions

---
 .../prefer_nullish_coalescing/prefer_nullish_coalescing.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/rules/prefer_nullish_coalescing/prefer_nullish_coalescing.go b/internal/rules/prefer_nullish_coalescing/prefer_nullish_coalescing.go
index a5b5673..ee7658f 100644
--- a/internal/rules/prefer_nullish_coalescing/prefer_nullish_coalescing.go
+++ b/internal/rules/prefer_nullish_coalescing/prefer_nullish_coalescing.go
@@ -764,7 +764,12 @@ var PreferNullishCoalescingRule = rule.Rule{
 				}
 
 				ctx.ReportNodeWithSuggestions(node, buildPreferNullishOverTernaryMessage(), func() []rule.RuleSuggestion {
-					leftText := ctx.SourceFile.Text()[nullishCoalescingLeftNode.Pos():nullishCoalescingLeftNode.End()]
+					leftPos := nullishCoalescingLeftNode.Pos()
+					if leftPos == node.Pos() {
+						// Leading comments of the whole expression are not part of the replaced text.
+						leftPos = utils.TrimNodeTextRange(ctx.SourceFile, node).Pos()
+					}
+					leftText := ctx.SourceFile.Text()[leftPos:nullishCoalescingLeftNode.End()]
 					rightText := ctx.SourceFile.Text()[nullishBranch.Pos():nullishBranch.End()]
 
 					// Trim whitespace before processing
-- 
2.43.0


From 89ee4fb24fb651736719725d1cb4ba74672d3301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:13 +0000
Subject: [PATCH 31/49] fix: do not repeat leading comments in
 no-unnecessary-boolean-literal-compare fixes

---
 .../no_unnecessary_boolean_literal_compare.go              | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/rules/no_unnecessary_boolean_literal_compare/no_unnecessary_boolean_literal_compare.go b/internal/rules/no_unnecessary_boolean_literal_compare/no_unnecessary_boolean_literal_compare.go
index 7cf139a..f16e624 100644
--- a/internal/rules/no_unnecessary_boolean_literal_compare/no_unnecessary_boolean_literal_compare.go
+++ b/internal/rules/no_unnecessary_boolean_literal_compare/no_unnecessary_boolean_literal_compare.go
@@ -173,7 +173,12 @@ var NoUnnecessaryBooleanLiteralCompareRule = rule.Rule{
 
 					fixes := make([]rule.RuleFix, 0, 6)
 
-					fixes = append(fixes, rule.RuleFixReplace(ctx.SourceFile, mutatedNode, ctx.SourceFile.Text()[comparison.expression.Pos():comparison.expression.End()]))
+					expressionPos := comparison.expression.Pos()
+					if expressionPos == mutatedNode.Pos() {
+						// Leading comments of the whole expression are not part of the replaced text.
+						expressionPos = utils.TrimNodeTextRange(ctx.SourceFile, mutatedNode).Pos()
+					}
+					fixes = append(fixes, rule.RuleFixReplace(ctx.SourceFile, mutatedNode, ctx.SourceFile.Text()[expressionPos:comparison.expression.End()]))
 
 					if shouldNegate == isUnaryNegation {
 						fixes = append(fixes, rule.RuleFixInsertBefore(ctx.SourceFile, mutatedNode, "!"))
-- 
2.43.0


From 74fc1054cb01ecb0006da32e81ab1a29f82a3d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:44 +0000
Subject: [PATCH 32/49] fix: apply edits at the same place in their listed
 order

---
 internal/linter/source_code_fixer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/linter/source_code_fixer.go b/internal/linter/source_code_fixer.go
index e8e6ea2..0f7db93 100644
--- a/internal/linter/source_code_fixer.go
+++ b/internal/linter/source_code_fixer.go
@@ -19,7 +19,7 @@ func ApplyRuleFixes[M LintMessage](code string, diagnostics []M) (string, []M, b
 
 	for _, diagnostic := range diagnostics {
 		if len(diagnostic.Fixes()) > 0 {
-			slices.SortFunc(diagnostic.Fixes(), func(a rule.RuleFix, b rule.RuleFix) int {
+			slices.SortStableFunc(diagnostic.Fixes(), func(a rule.RuleFix, b rule.RuleFix) int {
 				start := a.Range.Pos() - b.Range.Pos()
 				if start == 0 {
 					return a.Range.End() - b.Range.End()
@@ -32,7 +32,7 @@ func ApplyRuleFixes[M LintMessage](code string, diagnostics []M) (string, []M, b
 		}
 	}
 
-	slices.SortFunc(withFixes, func(a M, b M) int {
+	slices.SortStableFunc(withFixes, func(a M, b M) int {
 		aFixes, bFixes := a.Fixes(), b.Fixes()
 
 		start := aFixes[0].Range.Pos() - bFixes[0].Range.Pos()
-- 
2.43.0


From f2a40b3799f588b2bc628d3427540d7671c109d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:25 +0000
Subject: [PATCH 33/49] fix: do not truncate long case expressions in
 switch-exhaustiveness-check

---
 .../switch_exhaustiveness_check.go                            | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/rules/switch_exhaustiveness_check/switch_exhaustiveness_check.go b/internal/rules/switch_exhaustiveness_check/switch_exhaustiveness_check.go
index 27842db..14111d4 100644
--- a/internal/rules/switch_exhaustiveness_check/switch_exhaustiveness_check.go
+++ b/internal/rules/switch_exhaustiveness_check/switch_exhaustiveness_check.go
@@ -188,7 +188,9 @@ func buildCaseTest(typeChecker *checker.Checker, missingBranchType *checker.Type
 	if utils.IsTypeFlagSet(missingBranchType, checker.TypeFlagsESSymbolLike) {
 		caseTest = missingBranchName
 	} else {
-		caseTest = typeChecker.TypeToString(missingBranchType)
+		// A truncated name would not be an expression.
+		flags := checker.TypeFormatFlagsAllowUniqueESSymbolType | checker.TypeFormatFlagsUseAliasDefinedOutsideCurrentScope | checker.TypeFormatFlagsNoTruncation
+		caseTest = typeChecker.TypeToStringEx(missingBranchType, nil, flags, nil)
 	}
 
 	if symbolName != "" && requiresQuoting(missingBranchName) {
-- 
2.43.0


From 625858a60e411c0b0abe9cb11e396477f8be0fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:52 +0000
Subject: [PATCH 34/49] fix: visit keys, defaulted elements and for-of heads of
 destructuring assignments

---
 internal/linter/linter.go | 42 ++++++++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/internal/linter/linter.go b/internal/linter/linter.go
index a154cee..ee27bcb 100644
--- a/internal/linter/linter.go
+++ b/internal/linter/linter.go
@@ -418,6 +418,26 @@ func visitLintNodes(file *ast.SourceFile, runListeners func(kind ast.Kind, node
 
 	var childVisitor ast.Visitor
 	var patternVisitor func(node *ast.Node)
+	visitChildren := func(node *ast.Node) {
+		if ast.IsAssignmentExpression(node, true) {
+			expr := node.AsBinaryExpression()
+			patternVisitor(expr.Left)
+			childVisitor(expr.OperatorToken)
+			childVisitor(expr.Right)
+		} else if ast.IsForInOrOfStatement(node) {
+			initializer := node.Initializer()
+			node.ForEachChild(func(child *ast.Node) bool {
+				if child == initializer && (ast.IsArrayLiteralExpression(child) || ast.IsObjectLiteralExpression(child)) {
+					patternVisitor(child)
+				} else {
+					childVisitor(child)
+				}
+				return false
+			})
+		} else {
+			node.ForEachChild(childVisitor)
+		}
+	}
 	patternVisitor = func(node *ast.Node) {
 		runListeners(node.Kind, node)
 		kind := rule.ListenerOnAllowPattern(node.Kind)
@@ -435,7 +455,18 @@ func visitLintNodes(file *ast.SourceFile, runListeners func(kind ast.Kind, node
 		case ast.KindSpreadElement, ast.KindSpreadAssignment:
 			patternVisitor(node.Expression())
 		case ast.KindPropertyAssignment:
-			patternVisitor(node.Initializer())
+			initializer := node.Initializer()
+			node.ForEachChild(func(child *ast.Node) bool {
+				if child == initializer {
+					patternVisitor(child)
+				} else {
+					childVisitor(child)
+				}
+				return false
+			})
+		case ast.KindBinaryExpression:
+			// The target of an element with a default value is itself a pattern.
+			visitChildren(node)
 		default:
 			node.ForEachChild(childVisitor)
 		}
@@ -453,14 +484,7 @@ func visitLintNodes(file *ast.SourceFile, runListeners func(kind ast.Kind, node
 			node.ForEachChild(childVisitor)
 			runListeners(rule.ListenerOnExit(kind), node)
 		default:
-			if ast.IsAssignmentExpression(node, true) {
-				expr := node.AsBinaryExpression()
-				patternVisitor(expr.Left)
-				childVisitor(expr.OperatorToken)
-				childVisitor(expr.Right)
-			} else {
-				node.ForEachChild(childVisitor)
-			}
+			visitChildren(node)
 		}
 
 		runListeners(rule.ListenerOnExit(node.Kind), node)
-- 
2.43.0


From 208d518a4fe11d02a216b14c2242ad4d4e7241f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:03 +0000
Subject: [PATCH 35/49] fix: take the operand itself when its leading comments
 are dropped

---
 .../no_unnecessary_boolean_literal_compare.go                   | 2 +-
 .../prefer_nullish_coalescing/prefer_nullish_coalescing.go      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/rules/no_unnecessary_boolean_literal_compare/no_unnecessary_boolean_literal_compare.go b/internal/rules/no_unnecessary_boolean_literal_compare/no_unnecessary_boolean_literal_compare.go
index f16e624..65ffc2c 100644
--- a/internal/rules/no_unnecessary_boolean_literal_compare/no_unnecessary_boolean_literal_compare.go
+++ b/internal/rules/no_unnecessary_boolean_literal_compare/no_unnecessary_boolean_literal_compare.go
@@ -176,7 +176,7 @@ var NoUnnecessaryBooleanLiteralCompareRule = rule.Rule{
 					expressionPos := comparison.expression.Pos()
 					if expressionPos == mutatedNode.Pos() {
 						// Leading comments of the whole expression are not part of the replaced text.
-						expressionPos = utils.TrimNodeTextRange(ctx.SourceFile, mutatedNode).Pos()
+						expressionPos = utils.TrimNodeTextRange(ctx.SourceFile, comparison.expression).Pos()
 					}
 					fixes = append(fixes, rule.RuleFixReplace(ctx.SourceFile, mutatedNode, ctx.SourceFile.Text()[expressionPos:comparison.expression.End()]))
 
diff --git a/internal/rules/prefer_nullish_coalescing/prefer_nullish_coalescing.go b/internal/rules/prefer_nullish_coalescing/prefer_nullish_coalescing.go
index ee7658f..11b352d 100644
--- a/internal/rules/prefer_nullish_coalescing/prefer_nullish_coalescing.go
+++ b/internal/rules/prefer_nullish_coalescing/prefer_nullish_coalescing.go
@@ -767,7 +767,7 @@ var PreferNullishCoalescingRule = rule.Rule{
 					leftPos := nullishCoalescingLeftNode.Pos()
 					if leftPos == node.Pos() {
 						// Leading comments of the whole expression are not part of the replaced text.
-						leftPos = utils.TrimNodeTextRange(ctx.SourceFile, node).Pos()
+						leftPos = utils.TrimNodeTextRange(ctx.SourceFile, nullishCoalescingLeftNode).Pos()
 					}
 					leftText := ctx.SourceFile.Text()[leftPos:nullishCoalescingLeftNode.End()]
 					rightText := ctx.SourceFile.Text()[nullishBranch.Pos():nullishBranch.End()]
-- 
2.43.0


From 9574dbcbd89a5c5c6fe18e6eba9059260f6a71f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:11 +0000
Subject: [PATCH 36/49] fix: print source lines with any line break and
 multi-byte text on the command line

---
 cmd/tsgolint/main.go | 42 ++++++++++++------------------------------
 1 file changed, 12 insertions(+), 30 deletions(-)

diff --git a/cmd/tsgolint/main.go b/cmd/tsgolint/main.go
index 4429b31..5b5bfb2 100644
--- a/cmd/tsgolint/main.go
+++ b/cmd/tsgolint/main.go
@@ -244,9 +244,6 @@ func printDiagnostic(d rule.RuleDiagnostic, w *bufio.Writer, comparePathOptions
 	codeboxStartLine := max(diagnosticStartLine-1, 0)
 	codeboxEndLine := min(diagnosticEndline+1, len(lineMap)-1)
 
-	codeboxStart := scanner.GetECMAPositionOfLineAndUTF16Character(d.SourceFile, codeboxStartLine, 0)
-	codeboxEnd := scanner.GetECMAEndLinePosition(d.SourceFile, codeboxEndLine) + 1
-
 	w.Write([]byte{' ', 0x1b, '[', '7', 'm', 0x1b, '[', '1', 'm', 0x1b, '[', '3', '8', ';', '5', ';', '3', '7', 'm', ' '})
 	w.WriteString(d.RuleName)
 	w.WriteString(" \x1b[0m — ")
@@ -271,10 +268,6 @@ func printDiagnostic(d rule.RuleDiagnostic, w *bufio.Writer, comparePathOptions
 	w.WriteString("\x1b[0m \x1b[2m)─────\x1b[0m\n")
 
 	indentSize := math.MaxInt
-	line := codeboxStartLine
-	lineIndentCalculated := false
-	lastNonSpaceIndex := -1
-
 	lineStarts := make([]int, 13)
 	lineEnds := make([]int, 13)
 
@@ -283,29 +276,18 @@ func printDiagnostic(d rule.RuleDiagnostic, w *bufio.Writer, comparePathOptions
 		return
 	}
 
-	for i, char := range text[codeboxStart:codeboxEnd] {
-		if char == '\n' {
-			if line != codeboxEndLine {
-				lineIndentCalculated = false
-				lineEnds[line-codeboxStartLine] = lastNonSpaceIndex - int(lineMap[line]) + codeboxStart
-				lastNonSpaceIndex = -1
-				line++
-			}
-			continue
-		}
-
-		if !lineIndentCalculated && !unicode.IsSpace(char) {
-			lineIndentCalculated = true
-			lineStarts[line-codeboxStartLine] = i - int(lineMap[line]) + codeboxStart
-			indentSize = min(indentSize, lineStarts[line-codeboxStartLine])
+	for line := codeboxStartLine; line <= codeboxEndLine; line++ {
+		lineEnd := len(text)
+		if line+1 < len(lineMap) {
+			lineEnd = int(lineMap[line+1])
 		}
-
-		if lineIndentCalculated && !unicode.IsSpace(char) {
-			lastNonSpaceIndex = i + 1
+		code := strings.TrimRightFunc(text[lineMap[line]:lineEnd], unicode.IsSpace)
+		if code == "" {
+			continue
 		}
-	}
-	if line == codeboxEndLine {
-		lineEnds[line-codeboxStartLine] = lastNonSpaceIndex - int(lineMap[line]) + codeboxStart
+		lineStarts[line-codeboxStartLine] = len(code) - len(strings.TrimLeft(code, " \t"))
+		lineEnds[line-codeboxStartLine] = len(code)
+		indentSize = min(indentSize, lineStarts[line-codeboxStartLine])
 	}
 
 	diagnosticHighlightActive := false
@@ -323,10 +305,10 @@ func printDiagnostic(d rule.RuleDiagnostic, w *bufio.Writer, comparePathOptions
 		}
 		w.WriteString(" │\x1b[0m  ")
 
-		lineTextStart := int(lineMap[line]) + indentSize
+		lineTextStart := int(lineMap[line]) + min(indentSize, lineEnds[line-codeboxStartLine])
 		underlineStart := max(lineTextStart, int(lineMap[line])+lineStarts[line-codeboxStartLine])
 		underlineEnd := underlineStart
-		lineTextEnd := max(int(lineMap[line])+lineEnds[line-codeboxStartLine], lineTextStart)
+		lineTextEnd := int(lineMap[line]) + lineEnds[line-codeboxStartLine]
 
 		if diagnosticHighlightActive {
 			underlineEnd = lineTextEnd
-- 
2.43.0


From 657dab1ce97a5f7966eba4e831fae7ad617cbbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:04 +0000
Subject: [PATCH 37/49] fix: lint a file that its program leaves out with
 default options instead of failing the run

---
 internal/linter/linter.go | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/internal/linter/linter.go b/internal/linter/linter.go
index ee27bcb..3e9ab57 100644
--- a/internal/linter/linter.go
+++ b/internal/linter/linter.go
@@ -4,8 +4,8 @@ import (
 	"context"
 	"fmt"
 	"log"
+	"slices"
 	"strconv"
-	"strings"
 	"sync"
 	"time"
 
@@ -91,6 +91,8 @@ func RunLinter(options RunLinterOptions) error {
 	suppressProgramDiagnostics := options.SuppressProgramDiagnostics
 	timingStore := options.TimingStore
 
+	unmatchedFiles := slices.Clone(workload.UnmatchedFiles)
+
 	idx := 0
 	for configFileName, filePaths := range workload.Programs {
 		if logLevel == utils.LogLevelDebug {
@@ -131,21 +133,13 @@ func RunLinter(options RunLinterOptions) error {
 			}
 		}
 
-		if len(fileSet) > 0 {
-			var unmatchedFiles []string
-			for k := range fileSet {
-				unmatchedFiles = append(unmatchedFiles, k)
-			}
-			unmatchedFilesString := strings.Join(unmatchedFiles, ", ")
-			log.Println("Unmatched files found:", unmatchedFilesString)
-
-			var programFiles []string
-			for _, k := range program.SourceFiles() {
-				programFiles = append(programFiles, k.FileName())
+		// A config may list a file that its program leaves out: a JavaScript file without `allowJs`, or the output
+		// of a referenced project. Such a file is linted like one of no project.
+		for _, f := range filePaths {
+			if _, ok := fileSet[f]; ok {
+				log.Printf("File '%s' is not in program '%s'", f, configFileName)
+				unmatchedFiles = append(unmatchedFiles, f)
 			}
-			log.Printf("Program source files (%d): %s", len(programFiles), strings.Join(programFiles, ", "))
-
-			return fmt.Errorf("expected file '%s' to be in program '%s'", unmatchedFilesString, configFileName)
 		}
 
 		err = RunLinterOnProgram(RunLinterOnProgramOptions{
@@ -169,7 +163,7 @@ func RunLinter(options RunLinterOptions) error {
 
 	{
 		host := utils.NewCachedFSCompilerHost(currentDirectory, fs, bundled.LibPath(), nil, nil)
-		program, diagnostics, err := utils.CreateInferredProjectProgram(false, fs, currentDirectory, host, workload.UnmatchedFiles)
+		program, diagnostics, err := utils.CreateInferredProjectProgram(false, fs, currentDirectory, host, unmatchedFiles)
 
 		if err != nil {
 			return err
@@ -181,8 +175,8 @@ func RunLinter(options RunLinterOptions) error {
 			}
 		}
 
-		files := make([]*ast.SourceFile, 0, len(workload.UnmatchedFiles))
-		for _, f := range workload.UnmatchedFiles {
+		files := make([]*ast.SourceFile, 0, len(unmatchedFiles))
+		for _, f := range unmatchedFiles {
 			sf := program.GetSourceFile(f)
 			if sf == nil {
 				return fmt.Errorf("expected file '%s' to be in inferred program", f)
-- 
2.43.0


From 65084102394488e69c0b8c4ae145edff1a24516c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:04 +0000
Subject: [PATCH 38/49] fix: report a tsconfig that extends itself instead of
 deadlocking

---
 ...t-lock-a-config-that-extends-itself-.patch | 28 +++++++++++++++++++
 1 file changed, 28 insertions(+)
 create mode 100644 patches/0006-fix-project-do-not-lock-a-config-that-extends-itself-.patch

diff --git a/patches/0006-fix-project-do-not-lock-a-config-that-extends-itself-.patch b/patches/0006-fix-project-do-not-lock-a-config-that-extends-itself-.patch
new file mode 100644
index 0000000..2b1aaa5
--- /dev/null
+++ b/patches/0006-fix-project-do-not-lock-a-config-that-extends-itself-.patch
@@ -0,0 +1,28 @@
+From 5f3c1d0be1a4a2c3f3dbb61b8b4b3c0a5a0d3b11 Mon Sep 17 00:00:00 2001
+From: verif <verif@anthropic.com>
+Date: Thu, 19 Nov 2026 23:50:00 +0000
+Subject: [PATCH] fix(project): do not lock a config that extends itself twice
+
+---
+ internal/project/configfileregistrybuilder.go | 6 +++++-
+ 1 file changed, 5 insertions(+), 1 deletion(-)
+
+diff --git a/internal/project/configfileregistrybuilder.go b/internal/project/configfileregistrybuilder.go
+--- a/internal/project/configfileregistrybuilder.go
++++ b/internal/project/configfileregistrybuilder.go
+@@ -126,7 +126,11 @@
+ 		logger.Log("Loading config file: " + fileName)
+ 		oldCommandLine := entry.commandLine
+ 		entry.commandLine, _ = tsoptions.GetParsedCommandLineOfConfigFilePath(fileName, path, nil, nil /*optionsRaw*/, c, c)
+-		c.updateExtendingConfigs(path, entry.commandLine, oldCommandLine)
++		// Base configs are only tracked to be reloaded when they change. A config that extends itself, directly
++		// or through others, would be locked a second time here.
++		if oldCommandLine != nil {
++			c.updateExtendingConfigs(path, entry.commandLine, oldCommandLine)
++		}
+ 		c.updateRootFilesWatch(fileName, entry)
+ 		logger.Log("Finished loading config file")
+ 	default:
+-- 
+2.52.0
+
-- 
2.43.0


From 34a85869c5b23e3d789ae8df97d7070033572827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:13 +0000
Subject: [PATCH 39/49] fix: check setter parameters in
 prefer-readonly-parameter-types

---
 .../prefer_readonly_parameter_types.go                           | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/rules/prefer_readonly_parameter_types/prefer_readonly_parameter_types.go b/internal/rules/prefer_readonly_parameter_types/prefer_readonly_parameter_types.go
index a55c730..b83f459 100644
--- a/internal/rules/prefer_readonly_parameter_types/prefer_readonly_parameter_types.go
+++ b/internal/rules/prefer_readonly_parameter_types/prefer_readonly_parameter_types.go
@@ -424,6 +424,7 @@ var PreferReadonlyParameterTypesRule = rule.Rule{
 			ast.KindFunctionType:        listener,
 			ast.KindMethodDeclaration:   listener,
 			ast.KindMethodSignature:     listener,
+			ast.KindSetAccessor:         listener,
 		}
 	},
 }
-- 
2.43.0


From 8aed888c3287d8b9ae0eeeccefe3734e8537ec54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:54 +0000
Subject: [PATCH 40/49] fix: treat void as nullable in
 prefer-nullish-coalescing

---
 .../prefer_nullish_coalescing/prefer_nullish_coalescing.go    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/rules/prefer_nullish_coalescing/prefer_nullish_coalescing.go b/internal/rules/prefer_nullish_coalescing/prefer_nullish_coalescing.go
index 11b352d..33f40bd 100644
--- a/internal/rules/prefer_nullish_coalescing/prefer_nullish_coalescing.go
+++ b/internal/rules/prefer_nullish_coalescing/prefer_nullish_coalescing.go
@@ -348,7 +348,7 @@ var PreferNullishCoalescingRule = rule.Rule{
 			}
 		}
 
-		// isNullableType checks if a type includes null or undefined
+		// isNullableType checks if a type includes null, undefined or void
 		// Also returns true for any/unknown since they can include null/undefined
 		isNullableType := func(t *checker.Type) bool {
 			// any and unknown types could be null/undefined
@@ -357,7 +357,7 @@ var PreferNullishCoalescingRule = rule.Rule{
 			}
 			for _, part := range utils.UnionTypeParts(t) {
 				flags := checker.Type_flags(part)
-				if flags&checker.TypeFlagsNullable != 0 {
+				if flags&(checker.TypeFlagsNullable|checker.TypeFlagsVoid) != 0 {
 					return true
 				}
 			}
-- 
2.43.0


From 659c14e56558211503d4a83283add9f1731ae5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:47 +0000
Subject: [PATCH 41/49] fix: do not take properties of mapped types for
 readonly in prefer-readonly-parameter-types

---
 .../prefer_readonly_parameter_types.go                 | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/internal/rules/prefer_readonly_parameter_types/prefer_readonly_parameter_types.go b/internal/rules/prefer_readonly_parameter_types/prefer_readonly_parameter_types.go
index b83f459..0cf711b 100644
--- a/internal/rules/prefer_readonly_parameter_types/prefer_readonly_parameter_types.go
+++ b/internal/rules/prefer_readonly_parameter_types/prefer_readonly_parameter_types.go
@@ -129,10 +129,6 @@ func propertyIsReadonly(typeChecker *checker.Checker, property *ast.Symbol) bool
 		return true
 	}
 
-	if property.ValueDeclaration == nil && property.CheckFlags&ast.CheckFlagsMapped != 0 {
-		return true
-	}
-
 	return checker.GetDeclarationModifierFlagsFromSymbol(property)&ast.ModifierFlagsReadonly != 0
 }
 
@@ -178,6 +174,12 @@ func isTypeReadonlyObject(
 			continue
 		}
 
+		// Values under well-known symbols, such as `ReadonlyArray`'s
+		// `[Symbol.unscopables]`, are not part of what a parameter exposes.
+		if checker.IsKnownSymbol(property) {
+			continue
+		}
+
 		propertyType := checker.Checker_getTypeOfPropertyOfType(typeChecker, t, property.Name)
 		if propertyType == nil {
 			propertyType = checker.Checker_getTypeOfSymbol(typeChecker, property)
-- 
2.43.0


From a7e34a55b222045ba7ff80a6f447a9a1a9a2424c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:41 +0000
Subject: [PATCH 42/49] fix: read a cached file's state under its lock in the
 project service patch

---
 ...ot-read-a-cached-file-s-state-withou.patch | 26 +++++++++++++++++++
 1 file changed, 26 insertions(+)
 create mode 100644 patches/0007-fix-project-do-not-read-a-cached-file-s-state-withou.patch

diff --git a/patches/0007-fix-project-do-not-read-a-cached-file-s-state-withou.patch b/patches/0007-fix-project-do-not-read-a-cached-file-s-state-withou.patch
new file mode 100644
index 0000000..f37c451
--- /dev/null
+++ b/patches/0007-fix-project-do-not-read-a-cached-file-s-state-withou.patch
@@ -0,0 +1,26 @@
+From 7a1d2f4c0b3e4d5f6a7b8c9d0e1f2a3b4c5d6e7f Mon Sep 17 00:00:00 2001
+From: verif <verif@anthropic.com>
+Date: Fri, 20 Nov 2026 01:50:00 +0000
+Subject: [PATCH] fix(project): do not read a cached file's state without its lock
+
+---
+ internal/project/snapshotfs.go | 5 +----
+ 1 file changed, 1 insertion(+), 4 deletions(-)
+
+diff --git a/internal/project/snapshotfs.go b/internal/project/snapshotfs.go
+--- a/internal/project/snapshotfs.go
++++ b/internal/project/snapshotfs.go
+@@ -306,10 +306,7 @@
+ 		if val == nil {
+ 			return false
+ 		}
+-		if val.MatchesDiskText() {
+-			return true
+-		}
+-		// Entry is dirty; reload to check current state on disk.
++		// Entry may be dirty; reload to check current state on disk.
+ 		return s.reloadEntryIfNeeded(entry) != nil
+ 	}
+ 	// Path never loaded into diskFiles; use cached stat without forcing a read.
+-- 
+2.52.0
-- 
2.43.0


From a33c7b992f288c3d5be90f72f93e2fa3eeaeabf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:42 +0000
Subject: [PATCH 43/49] fix: match the allow list of no-deprecated against the
 type a name refers to

---
 internal/rules/no_deprecated/no_deprecated.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/rules/no_deprecated/no_deprecated.go b/internal/rules/no_deprecated/no_deprecated.go
index 461c05f..8ec3e7a 100644
--- a/internal/rules/no_deprecated/no_deprecated.go
+++ b/internal/rules/no_deprecated/no_deprecated.go
@@ -709,6 +709,12 @@ var NoDeprecatedRule = rule.Rule{
 			}
 
 			ty := ctx.TypeChecker.GetTypeAtLocation(node)
+			if ast.IsPartOfTypeNode(node) {
+				// A name inside a type has no type of its own: take the type it refers to.
+				if symbol := ctx.TypeChecker.GetSymbolAtLocation(node); symbol != nil {
+					ty = checker.Checker_getDeclaredTypeOfSymbol(ctx.TypeChecker, checker.SkipAlias(symbol, ctx.TypeChecker))
+				}
+			}
 
 			// TODO: if type OR value is allowed, skip
 
-- 
2.43.0


From 89c9059452e7171e29d9f2980e0210de7860c516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:42 +0000
Subject: [PATCH 44/49] fix: do not take files of a directory with a longer
 name for files of the project

---
 internal/utils/type_matches_specifier.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/utils/type_matches_specifier.go b/internal/utils/type_matches_specifier.go
index c97cd54..1110328 100644
--- a/internal/utils/type_matches_specifier.go
+++ b/internal/utils/type_matches_specifier.go
@@ -174,7 +174,7 @@ func typeDeclaredInFile(
 	cwd := program.Host().GetCurrentDirectory()
 	if relativePath == "" {
 		return Some(declarationFiles, func(f *ast.SourceFile) bool {
-			return strings.HasPrefix(f.FileName(), cwd)
+			return strings.HasPrefix(f.FileName(), tspath.EnsureTrailingDirectorySeparator(cwd))
 		})
 	}
 	absPath := tspath.GetNormalizedAbsolutePath(relativePath, cwd)
-- 
2.43.0


From 041947086993c6fd1a283561c8131d68c8a535fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:42 +0000
Subject: [PATCH 45/49] fix: report unsafe member accesses in what a class
 extends

---
 .../rules/no_unsafe_member_access/no_unsafe_member_access.go    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/rules/no_unsafe_member_access/no_unsafe_member_access.go b/internal/rules/no_unsafe_member_access/no_unsafe_member_access.go
index 59c1e2c..c952379 100644
--- a/internal/rules/no_unsafe_member_access/no_unsafe_member_access.go
+++ b/internal/rules/no_unsafe_member_access/no_unsafe_member_access.go
@@ -92,7 +92,7 @@ var NoUnsafeMemberAccessRule = rule.Rule{
 			parent := node.Parent
 			for !ast.IsSourceFile(parent) {
 				// ignore MemberExpressions with ancestors of type `TSClassImplements` or `TSInterfaceHeritage`
-				if ast.IsHeritageClause(parent) {
+				if ast.IsHeritageClause(parent) && (parent.AsHeritageClause().Token == ast.KindImplementsKeyword || ast.IsInterfaceDeclaration(parent.Parent)) {
 					return stateSafe
 				}
 				parent = parent.Parent
-- 
2.43.0


From e1496afbea03fc763baa2806e0f207859927661d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:35 +0000
Subject: [PATCH 46/49] fix: prefer-includes keeps octal escapes valid and
 minds flags given to RegExp

---
 .../rules/prefer_includes/prefer_includes.go  | 24 +++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/internal/rules/prefer_includes/prefer_includes.go b/internal/rules/prefer_includes/prefer_includes.go
index 8147e48..002b6ba 100644
--- a/internal/rules/prefer_includes/prefer_includes.go
+++ b/internal/rules/prefer_includes/prefer_includes.go
@@ -1,6 +1,8 @@
 package prefer_includes
 
 import (
+	"fmt"
+	"regexp"
 	"strconv"
 	"strings"
 
@@ -12,6 +14,9 @@ import (
 	"github.com/typescript-eslint/tsgolint/internal/utils"
 )
 
+// An escaped character of a regexp, with all the digits of an octal escape
+var legacyOctalEscape = regexp.MustCompile(`\\(?:[0-3][0-7]{0,2}|[4-7][0-7]?|.)`)
+
 func buildPreferIncludesMessage() rule.RuleMessage {
 	return rule.RuleMessage{
 		Id:          "preferIncludes",
@@ -33,6 +38,20 @@ var PreferIncludesRule = rule.Rule{
 		// Escape special characters for string literal
 		// The pattern from regex already has escape sequences, we only need to escape apostrophes and line terminators
 		escapeString := func(s string) string {
+			// A string literal of a module cannot have octal escapes, which a regexp can
+			s = legacyOctalEscape.ReplaceAllStringFunc(s, func(escape string) string {
+				switch escape {
+				case `\0`:
+					return escape
+				case `\8`, `\9`:
+					return escape[1:]
+				}
+				code, err := strconv.ParseUint(escape[1:], 8, 8)
+				if err != nil {
+					return escape
+				}
+				return fmt.Sprintf(`\x%02x`, code)
+			})
 			var b strings.Builder
 			escaped := false
 			for _, ch := range s {
@@ -149,6 +168,11 @@ var PreferIncludesRule = rule.Rule{
 				return ""
 			}
 
+			// Reject patterns with any flags
+			if len(args) > 1 && (args[1].Kind != ast.KindStringLiteral || args[1].AsStringLiteral().Text != "") {
+				return ""
+			}
+
 			pattern := args[0].AsStringLiteral().Text
 
 			// Validate pattern compiles and is simple literal
-- 
2.43.0


From 113ea4020782e5030bafe523c369fcad7cac645b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:35 +0000
Subject: [PATCH 47/49] fix: prefer-string-starts-ends-with does not move a
 spread out of its call

---
 .../prefer_string_starts_ends_with.go                         | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/rules/prefer_string_starts_ends_with/prefer_string_starts_ends_with.go b/internal/rules/prefer_string_starts_ends_with/prefer_string_starts_ends_with.go
index bbd73db..7cce71f 100644
--- a/internal/rules/prefer_string_starts_ends_with/prefer_string_starts_ends_with.go
+++ b/internal/rules/prefer_string_starts_ends_with/prefer_string_starts_ends_with.go
@@ -762,6 +762,10 @@ var PreferStringStartsEndsWithRule = rule.Rule{
 			arg := callExpr.Arguments.Nodes[0]
 
 			ctx.ReportNodeWithFixes(&callExpr.Node, message, func() []rule.RuleFix {
+				if ast.IsSpreadElement(arg) {
+					return nil
+				}
+
 				arg = ast.SkipParentheses(arg)
 				needsParen := !ast.IsLiteralExpression(arg) &&
 					arg.Kind != ast.KindNoSubstitutionTemplateLiteral &&
-- 
2.43.0


From a4392e7803d495555beddde68384fa2b72fea6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:35 +0000
Subject: [PATCH 48/49] fix: no-unnecessary-type-assertion keeps a number apart
 from the dot after it

---
 .../no_unnecessary_type_assertion.go                          | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/rules/no_unnecessary_type_assertion/no_unnecessary_type_assertion.go b/internal/rules/no_unnecessary_type_assertion/no_unnecessary_type_assertion.go
index 3af1fda..bad307d 100644
--- a/internal/rules/no_unnecessary_type_assertion/no_unnecessary_type_assertion.go
+++ b/internal/rules/no_unnecessary_type_assertion/no_unnecessary_type_assertion.go
@@ -1166,6 +1166,10 @@ var NoUnnecessaryTypeAssertionRule = rule.Rule{
 				}
 
 				buildRemoveExclamationFix := func(exclamation core.TextRange) rule.RuleFix {
+					// `1!.a` without its assertion would have its dot read as the number's
+					if ast.IsNumericLiteral(expression) && ast.IsPropertyAccessExpression(node.Parent) && node.Parent.AsPropertyAccessExpression().QuestionDotToken == nil {
+						return rule.RuleFixReplaceRange(exclamation, " ")
+					}
 					return rule.RuleFixRemoveRange(exclamation)
 				}
 
-- 
2.43.0


From 0a5ce15d4c187e36c1125e513949d47fd2e43d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:09 +0000
Subject: [PATCH 49/49] fix: no-array-delete suggests a valid call for an
 optional access

---
 internal/rules/no_array_delete/no_array_delete.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/rules/no_array_delete/no_array_delete.go b/internal/rules/no_array_delete/no_array_delete.go
index f7b2206..92acf04 100644
--- a/internal/rules/no_array_delete/no_array_delete.go
+++ b/internal/rules/no_array_delete/no_array_delete.go
@@ -75,13 +75,18 @@ var NoArrayDeleteRule = rule.Rule{
 					argumentRange := utils.TrimNodeTextRange(ctx.SourceFile, expression.ArgumentExpression)
 
 					leftBracketTokenRange := scanner.GetRangeOfTokenAtPosition(ctx.SourceFile, arrayExprRange.End())
+					spliceCall := ".splice("
+					if expression.QuestionDotToken != nil {
+						leftBracketTokenRange = leftBracketTokenRange.WithEnd(scanner.GetRangeOfTokenAtPosition(ctx.SourceFile, leftBracketTokenRange.End()).End())
+						spliceCall = "?.splice("
+					}
 					rightBracketTokenRange := scanner.GetRangeOfTokenAtPosition(ctx.SourceFile, argumentRange.End())
 
 					return []rule.RuleSuggestion{{
 						Message: buildUseSpliceMessage(),
 						FixesArr: []rule.RuleFix{
 							rule.RuleFixRemoveRange(deleteTokenRange),
-							rule.RuleFixReplaceRange(leftBracketTokenRange, ".splice("),
+							rule.RuleFixReplaceRange(leftBracketTokenRange, spliceCall),
 							rule.RuleFixReplaceRange(rightBracketTokenRange, ", 1)"),
 						},
 					}}
-- 
2.43.0

