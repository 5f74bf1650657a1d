package props

import (
	"strings"

	"verif/nd"

	cypher "github.com/manhcuongbk56/cypher-go-dsl"
)

// longPieces are repeated around the bytes that are not fixed.
var longPieces = []string{"a", "'", "\\", "\"", "`", "é", "\n", " ", "9", "\\'", "a'b", "_Z", "``", "世", "\u00a0"}

// long gives a text of any length up to a few hundred bytes: fixed ones around
// one or two that are not.
func long(label string, times []int) string {
	p := longPieces[pick(label+" piece", len(longPieces))]
	k := times[pick(label+" times", len(times))]
	if k > 500 && len(p) > 1 {
		k = 500 / len(p)
	}
	mid := nd.Str(label, 1, 1)
	switch pick(label+" where", 3) {
	case 0:
		return strings.Repeat(p, k) + mid
	case 1:
		return mid + strings.Repeat(p, k)
	}
	return strings.Repeat(p, k) + mid + strings.Repeat(p, k/2)
}

func longTimes() []int {
	if nd.Thorough() {
		return []int{3, 4, 7, 8, 9, 15, 16, 17, 31, 33, 64, 65, 127, 129, 257, 600, 1025, 4100}
	}
	return []int{5, 15, 16, 63, 127, 1100}
}

// Long contents of strings.
func C01_long() {
	s := long("s", longTimes())
	out := ok(cypher.CypherReturning(cypher.LiteralOf(s), cypher.ListOf(cypher.LiteralOf(s))))
	match("denotes", out, "RETURN "+H+", ["+H+"]", strLit(s))
}

// Long names.
func C02_longest() {
	s := long("s", longTimes())
	nd.Assume(strings.TrimSpace(s) != "")
	i := []int{0, 5, 7, 13, 20}[pick("place", 5)]
	b, tpl := namePlace(i, s)
	match("denotes", ok(b), tpl, ident(s))
}
