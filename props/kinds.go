package props

import (
	cypher "github.com/manhcuongbk56/cypher-go-dsl"
)

// nStatements is the number of statements of statementOf.
const nStatements = nExprPlaces + nCondPlaces + nPatPlaces + nNamePlaces

// statementOf gives one statement of every form, built around the name s, with
// its expected text.
func statementOf(i int, s string) (cypher.BuildableStatement, string) {
	if i < nExprPlaces {
		b, tpl := exprPlaceStatement(i, nodeN(), wrap(sym(s)).Add(nodeN().Property("p")).Get())
		return b, fill(tpl, "("+s+" + n.p)")
	}
	i -= nExprPlaces
	if i < nCondPlaces {
		b, tpl := condPlace(i, wrap(sym(s)).Lt(nodeN().Property("p")).Get())
		return b, fill(tpl, s+" < n.p")
	}
	i -= nCondPlaces
	if i < nPatPlaces {
		b, tpl := patPlace(i, cypher.AnyNodeNamed(s).RelationshipTo(cypher.AnyNode(), "T").NamedByString("r").RelationshipFrom(cypher.ANode("K"), "A", "B"))
		return b, fill(tpl, "("+s+")-[r:`T`]->()<-[:`A`|`B`]-(:`K`)")
	}
	i -= nPatPlaces
	b, tpl := namePlace(i, s)
	// Labels and types are always quoted.
	out := ""
	last := 0
	for j := 0; j < len(tpl); j++ {
		if tpl[j] != H[0] {
			continue
		}
		out += tpl[last:j]
		last = j + 1
		if isLabel(tpl, j) {
			out += "`" + s + "`"
		} else {
			out += s
		}
	}
	return b, out + tpl[last:]
}

// isLabel reports whether the hole of a template is a label or type.
func isLabel(tpl string, j int) bool {
	if j == 0 {
		return false
	}
	return tpl[j-1] == ':' || tpl[j-1] == '|'
}
