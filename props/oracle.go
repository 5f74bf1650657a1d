package props

import (
	"unicode"
	"unicode/utf8"

	"verif/nd"
)

// match states that got is the template with, at every hole, something that
// dec accepts. dec gives the number of bytes it consumed or -1.
func match(id, got, tpl string, dec func(string) int) {
	nd.Check(id, matches(got, tpl, dec))
}

func matches(got, tpl string, dec func(string) int) bool {
	pos, last := 0, 0
	for i := 0; i <= len(tpl); i++ {
		if i < len(tpl) && tpl[i] != H[0] {
			continue
		}
		chunk := tpl[last:i]
		if len(got) < pos+len(chunk) || got[pos:pos+len(chunk)] != chunk {
			return false
		}
		pos += len(chunk)
		last = i + 1
		if i < len(tpl) {
			n := dec(got[pos:])
			if n < 0 {
				return false
			}
			pos += n
		}
	}
	return pos == len(got)
}

// strLit reads one quoted Cypher string literal that denotes want.
func strLit(want string) func(string) int {
	return func(s string) int {
		if len(s) < 2 {
			return -1
		}
		q := s[0]
		if q != '\'' && q != '"' {
			return -1
		}
		n := 0
		for i := 1; i < len(s); i++ {
			c := s[i]
			if c == q {
				if n != len(want) {
					return -1
				}
				return i + 1
			}
			if c == '\\' {
				i++
				if i >= len(s) {
					return -1
				}
				switch s[i] {
				case '\\', '\'', '"':
					c = s[i]
				case 'n':
					c = '\n'
				case 't':
					c = '\t'
				case 'r':
					c = '\r'
				case 'b':
					c = '\b'
				case 'f':
					c = '\f'
				default:
					return -1
				}
			}
			if n >= len(want) || want[n] != c {
				return -1
			}
			n++
		}
		return -1
	}
}

// ident reads one Cypher identifier that denotes want: bare when it can be, or
// in backticks with inner backticks doubled.
func ident(want string) func(string) int {
	return func(s string) int {
		if s == "" {
			return -1
		}
		if s[0] == '`' {
			n := 0
			for i := 1; i < len(s); i++ {
				if s[i] == '`' {
					if i+1 >= len(s) || s[i+1] != '`' {
						if n != len(want) {
							return -1
						}
						return i + 1
					}
					i++
				}
				if n >= len(want) || want[n] != s[i] {
					return -1
				}
				n++
			}
			return -1
		}
		n := bareLen(s)
		if n != len(want) || s[:n] != want {
			return -1
		}
		return n
	}
}

// quoted reads one identifier in backticks.
func quoted(want string) func(string) int {
	dec := ident(want)
	return func(s string) int {
		if s == "" || s[0] != '`' {
			return -1
		}
		return dec(s)
	}
}

// bareLen is the length of the plain identifier at the start of s.
func bareLen(s string) int {
	i := 0
	for i < len(s) {
		c := s[i]
		if c < utf8.RuneSelf {
			letter := c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
			if !letter && (i == 0 || c < '0' || c > '9') {
				return i
			}
			i++
			continue
		}
		r, n := utf8.DecodeRuneInString(s[i:])
		if n == 1 || !unicode.IsLetter(r) && (i == 0 || !unicode.IsDigit(r)) {
			return i
		}
		i += n
	}
	return i
}

// pick is a choice that every path settles at once.
func pick(label string, n int) int {
	v := nd.Choose(label, n)
	for i := 0; i < n-1; i++ {
		if v == i {
			return i
		}
	}
	return n - 1
}
