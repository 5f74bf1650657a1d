// Package models holds plain Go versions of standard library functions that
// are written in assembly or with hashing, for execution by package engine: a
// call of path.Name runs path__Name here (with / . - written as _).
package models

type errorString struct{ s string }

func (e *errorString) Error() string { return e.s }

type wrapError struct {
	s   string
	err error
}

func (e *wrapError) Error() string { return e.s }
func (e *wrapError) Unwrap() error { return e.err }

func NewWrap(s string, err error) error {
	if err == nil {
		return &errorString{s}
	}
	return &wrapError{s, err}
}

func errors__New(s string) error               { return &errorString{s} }
func golang_org_x_xerrors__New(s string) error { return &errorString{s} }

func errors__Unwrap(err error) error {
	u, ok := err.(interface{ Unwrap() error })
	if !ok {
		return nil
	}
	return u.Unwrap()
}

func errors__Is(err, target error) bool {
	for err != nil {
		if err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		err = errors__Unwrap(err)
	}
	return target == nil && err == nil
}

func index(s, sub string) int {
	n := len(sub)
	for i := 0; i+n <= len(s); i++ {
		if s[i:i+n] == sub {
			return i
		}
	}
	return -1
}

func strings__Index(s, sub string) int              { return index(s, sub) }
func internal_stringslite__Index(s, sub string) int { return index(s, sub) }
func bytes__Index(s, sub []byte) int                { return index(string(s), string(sub)) }

func strings__LastIndex(s, sub string) int {
	n := len(sub)
	for i := len(s) - n; i >= 0; i-- {
		if s[i:i+n] == sub {
			return i
		}
	}
	return -1
}

func strings__Count(s, sub string) int {
	if len(sub) == 0 {
		n := 0
		for range s {
			n++
		}
		return n + 1
	}
	n := 0
	for i := 0; i+len(sub) <= len(s); {
		if s[i:i+len(sub)] == sub {
			n++
			i += len(sub)
		} else {
			i++
		}
	}
	return n
}

func bytealg_indexByte(s string, c byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return i
		}
	}
	return -1
}

func internal_bytealg__IndexByteString(s string, c byte) int { return bytealg_indexByte(s, c) }
func internal_bytealg__IndexByte(s []byte, c byte) int {
	return bytealg_indexByte(string(s), c)
}
func strings__IndexByte(s string, c byte) int               { return bytealg_indexByte(s, c) }
func internal_stringslite__IndexByte(s string, c byte) int  { return bytealg_indexByte(s, c) }
func internal_bytealg__LastIndexByteString(s string, c byte) int {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == c {
			return i
		}
	}
	return -1
}
func internal_bytealg__LastIndexByte(s []byte, c byte) int {
	return internal_bytealg__LastIndexByteString(string(s), c)
}
func internal_bytealg__CountString(s string, c byte) int {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			n++
		}
	}
	return n
}
func internal_bytealg__Count(s []byte, c byte) int {
	return internal_bytealg__CountString(string(s), c)
}
func internal_bytealg__Equal(a, b []byte) bool { return string(a) == string(b) }
func bytes__Equal(a, b []byte) bool            { return string(a) == string(b) }
func compare(a, b string) int {
	if a == b {
		return 0
	}
	if a < b {
		return -1
	}
	return 1
}
func internal_bytealg__CompareString(a, b string) int { return compare(a, b) }
func internal_bytealg__Compare(a, b []byte) int       { return compare(string(a), string(b)) }
func strings__Compare(a, b string) int                { return compare(a, b) }
func bytes__Compare(a, b []byte) int                  { return compare(string(a), string(b)) }
func internal_bytealg__MakeNoZero(n int) []byte       { return make([]byte, n) }
func strings__Clone(s string) string                  { return s }
func internal_stringslite__Clone(s string) string     { return s }
