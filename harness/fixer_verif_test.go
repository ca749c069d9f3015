package PKG

// Drives ApplyRuleFixes with generated diagnostics and records every input and output for the offline oracle.

import (
	"encoding/json"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"testing"

	"github.com/microsoft/typescript-go/shim/core"
	"github.com/typescript-eslint/tsgolint/internal/rule"
)

type fixerMsg struct {
	id    int
	fixes []rule.RuleFix
}

func (m *fixerMsg) Fixes() []rule.RuleFix { return m.fixes }

type fixerVal struct { // the same, passed by value
	id    int
	fixes []rule.RuleFix
}

func (m fixerVal) Fixes() []rule.RuleFix { return m.fixes }

func TestVerifFixer(t *testing.T) {
	out, _ := os.Create(os.Getenv("VERIF_OUT"))
	defer out.Close()
	enc := json.NewEncoder(out)
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_RUN_SEED"), 10, 64)
	n, _ := strconv.Atoi(os.Getenv("VERIF_N"))
	rng := rand.New(rand.NewSource(seed))
	pieces := []string{"", "X", "yy", "é", "\n", "(", ")", "日本", "\r\n", "zzzzzzzz"}
	for round := 0; round < n; round++ {
		code := ""
		for k := rng.Intn(60); k > 0; k-- {
			code += []string{"a", "b", "é", "\n", "\r\n", "日", " ", "😀", "c"}[rng.Intn(9)]
		}
		nd := []int{0, 1, 2, 3, 5, 8, 13, 20, 40}[rng.Intn(9)]
		dense := rng.Intn(3) // 0: few places, so that ties are common
		place := func() int {
			if dense == 0 {
				return min(len(code), rng.Intn(4)*3)
			}
			return rng.Intn(len(code) + 1)
		}
		in := [][][]any{}
		var ms []*fixerMsg
		var vs []fixerVal
		for d := 0; d < nd; d++ {
			fixes := []rule.RuleFix{}
			if rng.Intn(6) > 0 {
				ne := []int{1, 1, 1, 2, 2, 3, 6, 14, 30}[rng.Intn(9)]
				cuts := []int{}
				for i := 0; i < 2*ne; i++ {
					cuts = append(cuts, place())
				}
				sort.Ints(cuts)
				for i := 0; i < ne; i++ {
					a, b := cuts[2*i], cuts[2*i+1]
					if dense == 2 && b > a+6 {
						b = a + 6
					}
					fixes = append(fixes, rule.RuleFix{Text: pieces[rng.Intn(len(pieces))] + strconv.Itoa(rng.Intn(10)), Range: core.NewTextRange(a, b)})
				}
				if rng.Intn(2) == 0 { // listed in any order, equal places in their own
					rng.Shuffle(len(fixes), func(i, j int) { fixes[i], fixes[j] = fixes[j], fixes[i] })
				}
			} else if rng.Intn(2) == 0 {
				fixes = nil
			}
			row := [][]any{}
			for _, f := range fixes {
				row = append(row, []any{f.Range.Pos(), f.Range.End(), f.Text})
			}
			in = append(in, row)
			ms = append(ms, &fixerMsg{d, fixes})
			vs = append(vs, fixerVal{d, append([]rule.RuleFix{}, fixes...)})
		}
		text, un, fixed := ApplyRuleFixes(code, ms)
		ids := []int{}
		for _, m := range un {
			ids = append(ids, m.id)
		}
		same := true
		for i, m := range ms {
			same = same && m.id == i
		}
		text2, un2, fixed2 := ApplyRuleFixes(code, vs)
		for i, m := range un2 {
			same = same && i < len(ids) && m.id == ids[i]
		}
		same = same && text2 == text && fixed2 == fixed && len(un2) == len(un)
		enc.Encode(map[string]any{"code": []byte(code), "in": in, "text": []byte(text), "un": ids, "fixed": fixed, "same": same})
	}
}
