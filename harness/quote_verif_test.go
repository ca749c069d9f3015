package PKG

import (
	"encoding/json"
	"os"
	"testing"
)

// Quotes every string of a file of JSON strings in both styles.
func TestVerifQuote(t *testing.T) {
	in, err := os.ReadFile(os.Getenv("VERIF_IN"))
	if err != nil {
		t.Fatal(err)
	}
	var xs []string
	if err := json.Unmarshal(in, &xs); err != nil {
		t.Fatal(err)
	}
	out, _ := os.Create(os.Getenv("VERIF_OUT"))
	defer out.Close()
	enc := json.NewEncoder(out)
	for i, x := range xs {
		enc.Encode([]any{i, QuoteSingleStringLiteral(x), verifQuoteDouble(x)})
	}
}
