package PKG

// A rule that listens to everything records what it is told; the log is compared with a traversal of the same tree made here.

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"sync"
	"testing"

	"github.com/microsoft/typescript-go/shim/ast"
	"github.com/microsoft/typescript-go/shim/bundled"
	"github.com/microsoft/typescript-go/shim/core"
	"github.com/microsoft/typescript-go/shim/vfs/cachedvfs"
	"github.com/microsoft/typescript-go/shim/vfs/osvfs"
	"github.com/typescript-eslint/tsgolint/internal/rule"
	"github.com/typescript-eslint/tsgolint/internal/utils"
)

type visitEvent struct {
	what byte // ( enter, ) leave, [ pattern, ] leave pattern, { not pattern, } leave not pattern
	node *ast.Node
}

func (e visitEvent) String() string {
	return fmt.Sprintf("%c%s@%d-%d", e.what, e.node.Kind.String(), e.node.Pos(), e.node.End())
}

func verifIsLiteral(n *ast.Node) bool {
	return n.Kind == ast.KindArrayLiteralExpression || n.Kind == ast.KindObjectLiteralExpression
}

// What the grammar says about an array or object literal: 1 assignment target, 0 expression, -1 in a place the grammar has no opinion on.
func verifTarget(n *ast.Node) int {
	p := n.Parent
	switch p.Kind {
	case ast.KindParenthesizedExpression, ast.KindAsExpression, ast.KindSatisfiesExpression, ast.KindNonNullExpression, ast.KindTypeAssertionExpression:
		for p.Parent != nil && (p.Kind == ast.KindParenthesizedExpression || p.Kind == ast.KindAsExpression || p.Kind == ast.KindSatisfiesExpression || p.Kind == ast.KindNonNullExpression || p.Kind == ast.KindTypeAssertionExpression) {
			n, p = p, p.Parent
		}
		if verifTargetIn(n, p) != 0 {
			return -1
		}
		return 0
	}
	return verifTargetIn(n, p)
}

func verifTargetIn(n, p *ast.Node) int {
	switch p.Kind {
	case ast.KindBinaryExpression:
		b := p.AsBinaryExpression()
		if b.OperatorToken.Kind == ast.KindEqualsToken && b.Left == n {
			return 1
		}
	case ast.KindForInStatement, ast.KindForOfStatement:
		if p.Initializer() == n {
			return 1
		}
	case ast.KindArrayLiteralExpression:
		return verifTarget(p)
	case ast.KindSpreadElement:
		if p.Parent.Kind == ast.KindArrayLiteralExpression {
			return verifTarget(p.Parent)
		}
	case ast.KindSpreadAssignment:
		return verifTarget(p.Parent)
	case ast.KindPropertyAssignment:
		if p.Initializer() == n {
			return verifTarget(p.Parent)
		}
	}
	return 0
}

func verifWalk(n *ast.Node, out *[]visitEvent) {
	*out = append(*out, visitEvent{'(', n})
	t := 0
	if verifIsLiteral(n) {
		t = verifTarget(n)
		switch t {
		case 1:
			*out = append(*out, visitEvent{'[', n})
		case 0:
			*out = append(*out, visitEvent{'{', n})
		case -1:
			*out = append(*out, visitEvent{'?', n})
		}
	}
	n.ForEachChild(func(c *ast.Node) bool { verifWalk(c, out); return false })
	if verifIsLiteral(n) {
		switch t {
		case 1:
			*out = append(*out, visitEvent{']', n})
		case 0:
			*out = append(*out, visitEvent{'}', n})
		case -1:
			*out = append(*out, visitEvent{'?', n})
		}
	}
	*out = append(*out, visitEvent{')', n})
}

// verifLog compares a recorded log with the expected one; notifications of one node at one moment may come in any order.
func verifLog(got, want []visitEvent, full bool, kinds map[ast.Kind]bool) string {
	i := 0
	for _, w := range want {
		if !full && !kinds[w.node.Kind] {
			continue
		}
		if i >= len(got) {
			return fmt.Sprintf("the log ends before %s", w)
		}
		g := got[i]
		ok := g == w || w.what == '?' && g.node == w.node && strings.IndexByte("[]{}", g.what) >= 0
		if !ok && i+1 < len(got) && got[i].node == w.node && got[i+1] == w { // swapped with the pattern notification of the same node
			got[i], got[i+1] = got[i+1], got[i]
			ok = true
		}
		if !ok {
			return fmt.Sprintf("told %s, expected %s", g, w)
		}
		i++
	}
	if i < len(got) {
		return fmt.Sprintf("%d further events, first %s", len(got)-i, got[i])
	}
	return ""
}

func TestVerifVisit(t *testing.T) {
	out, _ := os.Create(os.Getenv("VERIF_OUT"))
	defer out.Close()
	enc := json.NewEncoder(out)
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_RUN_SEED"), 10, 64)
	rng := rand.New(rand.NewSource(seed))
	list, _ := os.ReadFile(os.Getenv("VERIF_FILES"))
	files := strings.Split(strings.TrimSpace(string(list)), "\n")
	fs := bundled.WrapFS(cachedvfs.From(osvfs.FS()))
	host := utils.CreateCompilerHost("/", fs)
	program, _, err := utils.CreateInferredProjectProgram(false, fs, "/", host, files)
	if err != nil {
		t.Fatal(err)
	}
	var sfs []*ast.SourceFile
	for _, f := range files {
		sf := program.GetSourceFile(f)
		if sf == nil {
			t.Fatal("no source file ", f)
		}
		sfs = append(sfs, sf)
	}
	bad := func(sf *ast.SourceFile, f string, a ...any) {
		name := ""
		if sf != nil {
			name = sf.FileName()
		}
		enc.Encode(map[string]any{"bad": fmt.Sprintf(f, a...), "file": name})
	}
	hist := map[string]int{}
	for round := 0; round < 4; round++ {
		workers := []int{1, 4, 1, 8}[round]
		var timing *RuleTimingStore
		if round >= 2 {
			timing = NewRuleTimingStore()
		}
		type part struct {
			name  string
			kinds map[ast.Kind]bool // nil: all
			ctx   rule.RuleContext
			log   []visitEvent
			sf    *ast.SourceFile
			runs  int
		}
		var mu sync.Mutex
		parts := map[*ast.SourceFile][]*part{}
		plan := map[*ast.SourceFile][]int{}
		subsets := map[string]map[ast.Kind]bool{}
		for _, sf := range sfs {
			var p []int
			for k := rng.Intn(5); k >= 0; k-- {
				p = append(p, rng.Intn(6))
			}
			plan[sf] = p
		}
		for i := 2; i < 5; i++ {
			s := map[ast.Kind]bool{}
			for k := 0; k < 400; k++ {
				if rng.Intn(i*2) == 0 {
					s[ast.Kind(k)] = true
				}
			}
			subsets[fmt.Sprint("r", i)] = s
		}
		type diag struct {
			rule string
			sf   *ast.SourceFile
			id   string
		}
		diags := map[diag]int{}
		expectDiags := map[diag]int{}
		RunLinterOnProgram(RunLinterOnProgramOptions{
			Program: program, Files: sfs, Workers: workers, TimingStore: timing,
			OnDiagnostic: func(d rule.RuleDiagnostic) {
				mu.Lock()
				diags[diag{d.RuleName, d.SourceFile, d.Message.Id}]++
				mu.Unlock()
			},
			GetRulesForFile: func(sf *ast.SourceFile) []ConfiguredRule {
				var rs []ConfiguredRule
				for slot, which := range plan[sf] {
					name := fmt.Sprint("r", which, "-", slot)
					rs = append(rs, ConfiguredRule{Name: name, Run: func(ctx rule.RuleContext) rule.RuleListeners {
						p := &part{name: name, ctx: ctx, sf: sf, kinds: subsets[fmt.Sprint("r", which)]}
						mu.Lock()
						parts[sf] = append(parts[sf], p)
						mu.Unlock()
						if ctx.SourceFile != sf || ctx.Program != program || ctx.TypeChecker == nil {
							mu.Lock()
							bad(sf, "rule %s got the context of another file", name)
							mu.Unlock()
						}
						report := func(id string) {
							mu.Lock()
							expectDiags[diag{name, sf, id}]++
							mu.Unlock()
							switch len(id) % 3 {
							case 0:
								ctx.ReportRange(core.NewTextRange(0, 0), rule.RuleMessage{Id: id, Description: "d"})
							case 1:
								ctx.ReportNode(sf.AsNode(), rule.RuleMessage{Id: id, Description: "d"})
							case 2:
								ctx.ReportNodeWithFixes(sf.AsNode(), rule.RuleMessage{Id: id, Description: "d"}, func() []rule.RuleFix { return nil })
							}
						}
						if which == 5 {
							report("start")
							return nil
						}
						l := rule.RuleListeners{}
						for k := ast.Kind(0); k < 400; k++ {
							if p.kinds != nil && !p.kinds[k] {
								continue
							}
							add := func(kind ast.Kind, what byte) {
								l[kind] = func(n *ast.Node) {
									if what == '[' || what == ']' {
										if !verifIsLiteral(n) {
											return
										}
									}
									if kind%1000 != n.Kind {
										mu.Lock()
										bad(sf, "listener for kind %d told of %s", kind, n.Kind.String())
										mu.Unlock()
									}
									p.log = append(p.log, visitEvent{what, n})
									if what == ')' && n.Kind == ast.KindIdentifier && n.End()%7 == 0 {
										report(fmt.Sprint("id", n.End()%29))
									}
								}
							}
							add(k, '(')
							add(rule.ListenerOnExit(k), ')')
							add(rule.ListenerOnAllowPattern(k), '[')
							add(rule.ListenerOnExit(rule.ListenerOnAllowPattern(k)), ']')
							add(rule.ListenerOnNotAllowPattern(k), '{')
							add(rule.ListenerOnExit(rule.ListenerOnNotAllowPattern(k)), '}')
						}
						return l
					}})
				}
				return rs
			},
		})
		nd := 0
		for d, n := range expectDiags {
			nd += n
			if diags[d] != n {
				bad(d.sf, "%d diagnostics %s of %s arrived, %d were reported", diags[d], d.id, d.rule, n)
			}
			delete(diags, d)
		}
		for d, n := range diags {
			bad(d.sf, "%d diagnostics %s attributed to %s were not reported by it on this file", n, d.id, d.rule)
		}
		for _, sf := range sfs {
			var want []visitEvent
			sf.AsNode().ForEachChild(func(c *ast.Node) bool { verifWalk(c, &want); return false })
			if len(parts[sf]) != len(plan[sf]) {
				bad(sf, "%d rules ran, %d are configured", len(parts[sf]), len(plan[sf]))
			}
			for _, p := range parts[sf] {
				if strings.HasPrefix(p.name, "r5") {
					continue
				}
				if w := verifLog(p.log, want, p.kinds == nil, p.kinds); w != "" {
					bad(sf, "%s (%d workers, timing %v): %s", p.name, workers, timing != nil, w)
				}
				hist["events"] += len(p.log)
				hist["logs"]++
				if workers > 1 {
					hist["logs of parallel runs"]++
				}
			}
			for _, e := range want {
				switch e.what {
				case '[':
					hist["patterns"]++
					d := 0
					for q := e.node.Parent; q != nil && (verifIsLiteral(q) || q.Kind == ast.KindPropertyAssignment || q.Kind == ast.KindSpreadElement || q.Kind == ast.KindBinaryExpression); q = q.Parent {
						if verifIsLiteral(q) {
							d++
						}
					}
					hist[fmt.Sprint("patterns at depth ", min(d, 6))]++
				case '{':
					hist["not patterns"]++
				case '?':
					hist["undecided literals"]++
				}
			}
			if round == 0 {
				kinds := map[string]int{}
				for _, e := range want {
					if e.what == '(' {
						kinds[e.node.Kind.String()]++
					}
				}
				enc.Encode(map[string]any{"file": sf.FileName(), "kinds": kinds})
			}
		}
		hist["diagnostics"] += nd
	}
	enc.Encode(map[string]any{"hist": hist})
}
