package props

import "strings"

// lexical says what is wrong with the form of a statement, or nothing: quotes
// and brackets that do not pair up, separators and operators without something
// on either side, and words that run together.
func lexical(s string) string {
	if s == "" {
		return "empty"
	}
	if s[0] == ' ' || s[len(s)-1] == ' ' {
		return "blank at an end"
	}
	l := lexer{s: s, prev: token{tStart, ""}}
	for l.i < len(s) {
		if s[l.i] == ' ' {
			l.i++
			l.gap = true
			continue
		}
		t := l.next()
		if l.wrong == "" {
			l.put(t)
		}
		if l.wrong != "" {
			return l.wrong + " at " + itoa(l.i)
		}
		l.gap = false
	}
	l.put(token{tEnd, ""})
	if l.wrong == "" && len(l.open) > 0 {
		l.wrong = "open " + l.open[len(l.open)-1]
	}
	return l.wrong
}

const (
	tStart  = iota
	tName   // a name, string, number or parameter
	tValue  // a keyword that ends an expression
	tWord   // any other keyword
	tInfix  // AND and the like, and the operators between two operands
	tPrefix // NOT and the like
	tOpen
	tClose
	tComma
	tColon
	tDot
	tDots
	tStar
	tMinus // minus and the parts of arrows
	tPipe
	tEnd
)

type token struct {
	kind int
	text string
}

type lexer struct {
	s     string
	i     int
	gap   bool // a blank before the token
	prev  token
	open  []string
	wrong string
}

func isLower(c byte) bool { return c >= 'a' && c <= 'z' || c == '_' }
func isUpper(c byte) bool { return c >= 'A' && c <= 'Z' }
func isDigit(c byte) bool { return c >= '0' && c <= '9' }
func isWord(c byte) bool  { return isLower(c) || isUpper(c) || isDigit(c) }

var keywords = map[string]int{
	"AND": tInfix, "OR": tInfix, "XOR": tInfix, "IN": tInfix, "CONTAINS": tInfix, "AS": tInfix,
	"STARTS": tInfix, "ENDS": tInfix, "IS": tWord,
	"NOT": tPrefix, "CASE": tPrefix, "DISTINCT": tPrefix, "EXISTS": tPrefix,
	"NULL": tValue, "END": tValue, "ASC": tValue, "DESC": tValue,
	"RETURN": tWord, "WITH": tWord, "MATCH": tWord, "OPTIONAL": tWord, "WHERE": tWord, "CREATE": tWord, "MERGE": tWord,
	"SET": tWord, "REMOVE": tWord, "DELETE": tWord, "DETACH": tWord, "ON": tWord, "UNWIND": tWord, "CALL": tWord, "YIELD": tWord,
	"UNION": tWord, "ALL": tWord, "ORDER": tWord, "BY": tWord, "SKIP": tWord, "LIMIT": tWord, "WHEN": tWord, "THEN": tWord, "ELSE": tWord,
}

// What has to follow a keyword.
var followers = map[string]string{
	"ORDER": "BY", "DETACH": "DELETE", "ON": "MATCH CREATE", "STARTS": "WITH", "ENDS": "WITH", "IS": "NULL NOT", "OPTIONAL": "MATCH",
	"UNION": "ALL MATCH OPTIONAL CREATE MERGE UNWIND WITH RETURN CALL", "ALL": "MATCH OPTIONAL CREATE MERGE UNWIND WITH RETURN CALL",
}

var camelCase = map[string]bool{"endNode": true, "shortestPath": true, "startNode": true, "toLower": true, "percentileCont": true, "percentileDisc": true, "stDev": true, "stDevP": true}

func (l *lexer) next() token {
	s, i := l.s, l.i
	c := s[i]
	j := i + 1
	switch {
	case c == '\'' || c == '"':
		for ; j < len(s) && s[j] != c; j++ {
			if s[j] == '\\' {
				j++
			}
		}
		if j >= len(s) {
			l.wrong = "open quote"
			return token{}
		}
		l.i = j + 1
		return token{tName, "string"}
	case c == '`':
		for ; j < len(s); j++ {
			if s[j] == '`' {
				if j+1 < len(s) && s[j+1] == '`' {
					j++
					continue
				}
				break
			}
		}
		if j >= len(s) {
			l.wrong = "open backtick"
			return token{}
		}
		l.i = j + 1
		return token{tName, "name"}
	case c == '$':
		if j < len(s) && s[j] == '`' {
			l.i = j
			l.next()
			return token{tName, "parameter"}
		}
		for j < len(s) && (isWord(s[j]) || s[j] == '.') {
			j++
		}
		if j == i+1 {
			l.wrong = "parameter without a name"
		}
		l.i = j
		return token{tName, "parameter"}
	case isDigit(c):
		for j < len(s) && isDigit(s[j]) {
			j++
		}
		if j+1 < len(s) && s[j] == '.' && isDigit(s[j+1]) {
			for j++; j < len(s) && isDigit(s[j]); j++ {
			}
		}
		if j+1 < len(s) && s[j] == 'e' && (s[j+1] == '+' || s[j+1] == '-') {
			for j += 2; j < len(s) && isDigit(s[j]); j++ {
			}
		}
		if j < len(s) && isWord(s[j]) {
			l.wrong = "number runs into a word"
		}
		l.i = j
		return token{tName, "number"}
	case isLower(c) || isUpper(c):
		lower, upper := isLower(c), isUpper(c)
		for ; j < len(s) && isWord(s[j]); j++ {
			lower, upper = lower || isLower(s[j]), upper || isUpper(s[j])
		}
		l.i = j
		w := s[i:j]
		if upper && lower {
			if !camelCase[w] {
				l.wrong = "words run together"
			}
			return token{tName, "name"}
		}
		if upper {
			k, known := keywords[w]
			if !known {
				l.wrong = "unknown word"
			}
			return token{k, w}
		}
		if w == "true" || w == "false" {
			return token{tValue, w}
		}
		return token{tName, "name"}
	}
	if strings.HasPrefix(s[i:], "-->") || strings.HasPrefix(s[i:], "<--") {
		l.i = i + 3
		return token{tMinus, s[i : i+3]}
	}
	for _, op := range [...]string{"<=", ">=", "<>", "=~", "+=", "->", "<-", "--", ".."} {
		if strings.HasPrefix(s[i:], op) {
			l.i = i + 2
			switch op {
			case "->", "<-", "--":
				return token{tMinus, op}
			case "..":
				return token{tDots, op}
			}
			return token{tInfix, op}
		}
	}
	l.i = j
	t := s[i:j]
	switch c {
	case '(', '[', '{':
		return token{tOpen, t}
	case ')', ']', '}':
		return token{tClose, t}
	case ',':
		return token{tComma, t}
	case ':':
		return token{tColon, t}
	case '.':
		return token{tDot, t}
	case '*':
		return token{tStar, t}
	case '-':
		return token{tMinus, t}
	case '|':
		return token{tPipe, t}
	case '+', '/', '%', '^', '=', '<', '>':
		return token{tInfix, t}
	}
	l.wrong = "strange character"
	return token{}
}

// ends tells whether an expression, pattern or list item can end with t.
func ends(t token) bool {
	switch t.kind {
	case tName, tValue, tClose, tStar:
		return true
	case tWord:
		return t.text == "ASC" || t.text == "DESC"
	}
	return false
}

// begins tells whether one can begin with t.
func begins(t token) bool {
	switch t.kind {
	case tName, tOpen, tPrefix, tStar, tMinus, tDot:
		return true
	case tValue:
		return t.text == "true" || t.text == "false" || t.text == "NULL"
	}
	return false
}

func (l *lexer) put(t token) {
	p := l.prev
	l.prev = t
	bad := func(wrong bool, what string) {
		if wrong && l.wrong == "" {
			l.wrong = what + " (" + p.text + " then " + t.text + ")"
		}
	}
	// what comes after the previous token
	switch p.kind {
	case tName, tValue:
		bad(t.kind == tName || t.kind == tPrefix || begins(t) && t.kind == tValue, "two operands side by side")
		bad(t.kind == tOpen && l.gap && p.kind == tName && t.text != "{", "operand before a bracket")
	case tClose:
		bad(t.kind == tName || begins(t) && t.kind == tValue, "operand after a bracket")
	case tComma, tInfix:
		follows := p.text == "STARTS" || p.text == "ENDS"
		bad(!begins(t) && !follows, "nothing after a separator")
	case tColon, tPipe:
		bad(!begins(t) && !(p.kind == tPipe && t.kind == tColon), "nothing after a separator")
	case tDot:
		bad(t.kind != tName && t.kind != tStar, "nothing after a dot")
	case tPrefix:
		bad(!begins(t) && t.text != "WHEN" && t.text != "NULL", "nothing after a keyword")
	case tWord:
		if f, has := followers[p.text]; has {
			bad(!strings.Contains(" "+f+" ", " "+t.text+" "), "nothing after a keyword")
		} else {
			bad(!begins(t) && p.text != "BY" && t.text != "SET" && !(p.text == "DELETE" && t.kind == tWord), "nothing after a keyword")
			bad(p.text == "BY" && !begins(t), "nothing after a keyword")
		}
	case tOpen:
		inside := t.kind == tColon || t.kind == tDots || t.kind == tClose || t.kind == tWord
		bad(!begins(t) && !inside, "nothing after a bracket")
		bad(t.kind == tWord && p.text != "{", "clause in a bracket")
		bad(t.kind == tMinus && t.text != "-", "arrow in a bracket")
	case tDots, tStar, tMinus:
		bad(t.kind == tComma && p.kind != tStar || t.kind == tEnd && p.kind != tStar || t.kind == tInfix && p.kind != tStar, "nothing after an operator")
	case tStart:
		bad(t.kind != tWord, "no clause at the start")
	}
	// what comes before this one
	switch t.kind {
	case tComma, tInfix, tPipe:
		typed := t.kind == tPipe
		bad(!ends(p) && !typed, "nothing before a separator")
	case tClose:
		empty := p.kind == tOpen
		bad(!ends(p) && !empty && p.kind != tDots, "nothing before a bracket")
	case tEnd:
		bad(!ends(p), "nothing at the end")
	case tWord:
		joined := followed(p.text, t.text) || p.kind == tOpen || p.kind == tStart || p.text == "CASE" || p.text == "CREATE" && t.text == "SET" || p.text == "MATCH" && t.text == "SET" || p.text == "UNION"
		bad(!ends(p) && !joined, "nothing before a keyword")
	}
	if (t.kind == tWord || t.kind == tPrefix || t.kind == tValue || t.kind == tInfix && isUpper(t.text[0])) && !l.gap && p.kind != tStart && p.kind != tOpen && p.kind != tDots && p.text != "-" && p.text != "^" {
		bad(true, "no blank before a word")
	}
	// what belongs together
	switch {
	case t.kind == tOpen || t.text == "CASE":
		l.open = append(l.open, t.text)
	case t.kind == tClose || t.text == "END":
		o := ""
		if n := len(l.open); n > 0 {
			o = l.open[n-1]
			l.open = l.open[:n-1]
		}
		bad(o+t.text != "()" && o+t.text != "[]" && o+t.text != "{}" && o+t.text != "CASEEND", "brackets do not match")
	case t.text == "WHEN" || t.text == "THEN" || t.text == "ELSE":
		bad(len(l.open) == 0 || l.open[len(l.open)-1] != "CASE", "part of a case outside of one")
	}
}

func followed(a, b string) bool {
	f, has := followers[a]
	return has && strings.Contains(" "+f+" ", " "+b+" ")
}
