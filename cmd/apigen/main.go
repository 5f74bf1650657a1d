// apigen writes props/c18_api.go: a call of every exported function and method
// of the library whose parameters are of the kinds for which args has values.
package main

import (
	"fmt"
	"go/format"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

// The parameter types and the methods of args that supply them.
var pools = map[string]string{
	"cypher.Expression": "expression", "cypher.Visitable": "visitable", "any": "any", "interface{}": "any",
	"string": "str", "int": "integer", "*int": "integerRef", "int64": "integer64", "float64": "float", "bool": "boolean",
	"cypher.Named": "named", "cypher.Node": "node", "cypher.Condition": "condition", "cypher.SymbolicName": "symbolicName",
	"cypher.RelationshipPattern": "relationshipPattern", "cypher.PatternElement": "patternElement", "cypher.Relationship": "relationship",
	"cypher.MapExpression": "mapExpression", "cypher.ExpressionList": "expressionList", "cypher.FunctionDefinition": "functionDefinition",
	"cypher.Statement": "statement", "cypher.SingleQuery": "singleQuery", "cypher.Operator": "operator", "cypher.Where": "where",
	"cypher.Direction": "direction", "cypher.CaseWhenThen": "caseWhenThen", "cypher.NamedPath": "namedPath", "cypher.SortItem": "sortItem",
	"cypher.ProcedureName": "procedureName", "*time.Location": "location", "cypher.RelationshipTypes": "relationshipTypes",
	"cypher.Property": "property", "cypher.ConditionContainer": "conditionContainer", "cypher.NodeLabel": "nodeLabel",
	"cypher.FunctionInvocation": "functionInvocation", "cypher.AliasedExpression": "aliasedExpression", "cypher.Properties": "properties",
	"cypher.YieldItems": "yieldItems", "cypher.RelationshipDetails": "relationshipDetails", "cypher.SortDirectionRaw": "sortDirection",
	"cypher.Parameter": "parameter", "cypher.BooleanLiteral": "booleanLiteral", "cypher.Namespace": "namespace", "cypher.Arguments": "arguments",
	"cypher.Literal": "literal", "cypher.PropertyLookup": "propertyLookup", "cypher.RelationshipLength": "relationshipLength",
	"cypher.Distinct": "distinct", "cypher.Limit": "limit", "cypher.Skip": "skip", "cypher.Order": "order", "cypher.ReturnBody": "returnBody",
	"cypher.Predicate": "predicate", "error": "anError", "cypher.OperatorType": "operatorType", "cypher.MERGE_TYPE": "mergeType", "cypher.Dot": "dot", "cypher.Pattern": "pattern",
}

func main() {
	ps, err := packages.Load(&packages.Config{Mode: packages.NeedTypes | packages.NeedImports | packages.NeedDeps | packages.NeedName | packages.NeedSyntax | packages.NeedTypesInfo, Dir: "."}, "github.com/manhcuongbk56/cypher-go-dsl")
	if err != nil {
		panic(err)
	}
	p := ps[0].Types
	q := func(o *types.Package) string { return o.Name() }
	var skipped []string
	usesTime := false
	params := func(s *types.Signature) (call, sig string, ok bool) {
		var cs, ss []string
		for i := 0; i < s.Params().Len(); i++ {
			t := s.Params().At(i).Type()
			variadic := s.Variadic() && i == s.Params().Len()-1
			elem, isSlice := t.(*types.Slice)
			name := types.TypeString(t, q)
			if isSlice {
				name = types.TypeString(elem.Elem(), q)
			}
			pool := pools[name]
			if pool == "" {
				return "", name, false
			}
			if isSlice {
				cs = append(cs, fmt.Sprintf("some(a, %d, a.%s)", i, pool))
			} else {
				cs = append(cs, fmt.Sprintf("a.%s(%d)", pool, i))
			}
			if variadic {
				cs[i] += "..."
				name = "..." + name
			} else if isSlice {
				name = "[]" + name
			}
			if false {
				usesTime = true
			}
			ss = append(ss, name)
		}
		return strings.Join(cs, ", "), strings.Join(ss, ", "), true
	}
	results := func(s *types.Signature) (string, bool) {
		var rs []string
		for i := 0; i < s.Results().Len(); i++ {
			t := types.TypeString(s.Results().At(i).Type(), q)
			for _, part := range strings.FieldsFunc(t, func(r rune) bool { return strings.ContainsRune("*[].", r) }) {
				if part != "cypher" && part[0] >= 'a' && part[0] <= 'z' && strings.Contains(t, "cypher."+part) {
					return "", false // not exported
				}
			}
			rs = append(rs, t)
		}
		return strings.Join(rs, ", "), true
	}
	take := func(call string, s *types.Signature) string {
		switch s.Results().Len() {
		case 0:
			return call + "; return nil"
		case 1:
			return "return " + call
		default:
			return "r, _ := " + call + "; return r"
		}
	}
	var fs []string
	methods := map[string]string{}
	var names []string
	for _, name := range p.Scope().Names() {
		o := p.Scope().Lookup(name)
		if !o.Exported() {
			continue
		}
		switch o := o.(type) {
		case *types.Func:
			s := o.Type().(*types.Signature)
			c, sig, ok := params(s)
			if !ok {
				skipped = append(skipped, name+" ("+sig+")")
				continue
			}
			fs = append(fs, fmt.Sprintf("{%q, %d, func(a *args) any { %s }},", name, s.Params().Len(), take("cypher."+name+"("+c+")", s)))
		case *types.TypeName:
			ms := types.NewMethodSet(o.Type())
			for i := 0; i < ms.Len(); i++ {
				m := ms.At(i).Obj().(*types.Func)
				if !m.Exported() {
					continue
				}
				s := m.Type().(*types.Signature)
				c, sig, ok := params(s)
				res, exported := results(s)
				if !ok || !exported {
					skipped = append(skipped, name+"."+m.Name()+" ("+sig+res+")")
					continue
				}
				full := fmt.Sprintf("%s(%s) (%s)", m.Name(), sig, res)
				if _, known := methods[full]; !known {
					names = append(names, full)
				}
				methods[full] = fmt.Sprintf("{%q, %d, func(v any) func(a *args) any { r, ok := v.(interface{ %s }); if !ok { return nil }; return func(a *args) any { %s } }},",
					m.Name(), s.Params().Len(), full, take("r."+m.Name()+"("+c+")", s))
			}
		}
	}
	sort.Strings(names)
	var b strings.Builder
	b.WriteString("// Code generated by cmd/apigen. DO NOT EDIT.\n\npackage props\n\nimport (\n")
	if usesTime {
		b.WriteString("\"time\"\n")
	}
	b.WriteString("\ncypher \"github.com/manhcuongbk56/cypher-go-dsl\"\n)\n\nvar apiFunctions = []apiFunction{\n" + strings.Join(fs, "\n") + "\n}\n\nvar apiMethods = []apiMethod{\n")
	for _, n := range names {
		b.WriteString(methods[n] + "\n")
	}
	b.WriteString("}\n\n// Not called, for a parameter or result that users have no values of:\n//\n")
	for _, s := range skipped {
		b.WriteString("//   " + s + "\n")
	}
	out, err := format.Source([]byte(b.String()))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		out = []byte(b.String())
	}
	if err := os.WriteFile("props/c18_api.go", out, 0o644); err != nil {
		panic(err)
	}
	fmt.Println(len(fs), "functions", len(names), "methods", len(skipped), "skipped")
}
