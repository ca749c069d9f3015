package PKG

// Rules that count their own invocations; the timing store has to agree, for every worker count.

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/microsoft/typescript-go/shim/ast"
	"github.com/microsoft/typescript-go/shim/bundled"
	"github.com/microsoft/typescript-go/shim/vfs/cachedvfs"
	"github.com/microsoft/typescript-go/shim/vfs/osvfs"
	"github.com/typescript-eslint/tsgolint/internal/rule"
	"github.com/typescript-eslint/tsgolint/internal/utils"
)

func TestVerifTiming(t *testing.T) {
	out, _ := os.Create(os.Getenv("VERIF_OUT"))
	defer out.Close()
	enc := json.NewEncoder(out)
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_RUN_SEED"), 10, 64)
	rounds, _ := strconv.Atoi(os.Getenv("VERIF_N"))
	rng := rand.New(rand.NewSource(seed))
	list, _ := os.ReadFile(os.Getenv("VERIF_FILES"))
	files := strings.Split(strings.TrimSpace(string(list)), "\n")
	fs := bundled.WrapFS(cachedvfs.From(osvfs.FS()))
	host := utils.CreateCompilerHost("/", fs)
	program, _, err := utils.CreateInferredProjectProgram(false, fs, "/", host, files)
	if err != nil {
		t.Fatal(err)
	}
	var sfs []*ast.SourceFile
	for _, f := range files {
		sfs = append(sfs, program.GetSourceFile(f))
	}
	bad := func(f string, a ...any) { enc.Encode(map[string]any{"bad": fmt.Sprintf(f, a...)}) }
	total := uint64(0)
	for round := 0; round < rounds; round++ {
		workers := []int{1, 2, 4, 8, 3}[round%5]
		nrules := rng.Intn(9)
		counts := make([]atomic.Uint64, nrules)
		spent := make([]atomic.Int64, nrules)
		sel := make([][]bool, nrules) // which kinds
		for i := range sel {
			sel[i] = make([]bool, 400)
			d := rng.Intn(4)
			for k := range sel[i] {
				sel[i][k] = d > 0 && rng.Intn(d*d*3) == 0
			}
		}
		// which rules a file has; some files have none, and a rule may be listed for no file
		plan := map[*ast.SourceFile][]int{}
		never := rng.Intn(nrules + 1)
		for _, sf := range sfs {
			if rng.Intn(5) == 0 {
				continue
			}
			for _, i := range rng.Perm(nrules) {
				if i != never && rng.Intn(3) > 0 {
					plan[sf] = append(plan[sf], i)
				}
			}
		}
		slow := rng.Intn(nrules + 1)
		files := append([]*ast.SourceFile{}, sfs...)
		rng.Shuffle(len(files), func(i, j int) { files[i], files[j] = files[j], files[i] })
		files = files[:rng.Intn(len(files)+1)]
		store := NewRuleTimingStore()
		var mu sync.Mutex
		ran := map[int]bool{}
		// several programs of one run share the store
		for _, part := range [][]*ast.SourceFile{files[:len(files)/3], files[len(files)/3:]} {
			RunLinterOnProgram(RunLinterOnProgramOptions{
				Program: program, Files: part, Workers: workers, TimingStore: store,
				OnDiagnostic: func(d rule.RuleDiagnostic) {},
				GetRulesForFile: func(sf *ast.SourceFile) []ConfiguredRule {
					var rs []ConfiguredRule
					for _, i := range plan[sf] {
						rs = append(rs, ConfiguredRule{Name: fmt.Sprint("r", i), Run: func(ctx rule.RuleContext) rule.RuleListeners {
							counts[i].Add(1)
							mu.Lock()
							ran[i] = true
							mu.Unlock()
							if i == slow {
								begin := time.Now()
								for time.Since(begin) < 2*time.Millisecond {
								}
								spent[i].Add(int64(time.Since(begin)))
							}
							l := rule.RuleListeners{}
							for k := range sel[i] {
								if sel[i][k] {
									l[ast.Kind(k)] = func(n *ast.Node) { counts[i].Add(1) }
									l[rule.ListenerOnExit(ast.Kind(k))] = func(n *ast.Node) { counts[i].Add(1) }
								}
							}
							if len(l) == 0 && i%2 == 0 {
								return nil
							}
							return l
						}})
					}
					return rs
				},
			})
		}
		recs := store.Collect()
		seen := map[string]bool{}
		for j, r := range recs {
			i, e := strconv.Atoi(strings.TrimPrefix(r.RuleName, "r"))
			if e != nil || i < 0 || i >= nrules {
				bad("round %d: a record for %q, which is no rule", round, r.RuleName)
				continue
			}
			if seen[r.RuleName] {
				bad("round %d: two records for %s", round, r.RuleName)
			}
			seen[r.RuleName] = true
			if !ran[i] {
				bad("round %d: a record for %s, which never ran", round, r.RuleName)
			}
			if r.Calls != counts[i].Load() {
				bad("round %d with %d workers: %s was called %d times, recorded %d", round, workers, r.RuleName, counts[i].Load(), r.Calls)
			}
			if int64(r.Duration) < spent[i].Load() {
				bad("round %d: %s spent %dns, recorded %d", round, r.RuleName, spent[i].Load(), r.Duration)
			}
			if j > 0 && recs[j-1].Duration < r.Duration {
				bad("round %d: %s (%d) is listed before %s (%d)", round, recs[j-1].RuleName, recs[j-1].Duration, r.RuleName, r.Duration)
			}
			total += r.Calls
		}
		for i := range ran {
			if !seen[fmt.Sprint("r", i)] {
				bad("round %d with %d workers: no record for r%d, which ran %d times", round, workers, i, counts[i].Load())
			}
		}
		enc.Encode(map[string]any{"round": round, "rules": nrules, "records": len(recs), "workers": workers, "files": len(files)})
	}
	enc.Encode(map[string]any{"calls": total})
}
