// Package ref holds reference models, written from the documentation of AQL
// and independent of the code under test.
package ref

import (
	"strconv"
	"unicode/utf16"
	"unicode/utf8"
)

// JV is a JSON value.
type JV struct {
	K    byte // o(bject) a(rray) s(tring) n(umber) t(rue) f(alse) z(null)
	Keys []string
	Vals []*JV
	S    string // string value
	N    string // number as written
}

// Num is the number's double value.
func (v *JV) Num() float64 {
	f, _ := strconv.ParseFloat(v.N, 64)
	return f
}

func (v *JV) Scalar() bool { return v.K != 'o' && v.K != 'a' }

// Get returns the member of an object.
func (v *JV) Get(key string) *JV {
	for i, k := range v.Keys {
		if k == key {
			return v.Vals[i]
		}
	}
	return nil
}

type jp struct {
	b    []byte
	i    int
	lone bool // a lone surrogate or invalid UTF-8 was met
	dup  bool
}

// JSON parses a document strictly (RFC 8259). odd is true if some string is not
// proper Unicode text, or a key is repeated in an object: such documents are
// valid, but their value is not agreed upon.
func JSON(b []byte) (v *JV, ok bool, odd bool) {
	p := &jp{b: b}
	p.ws()
	v = p.value(0)
	if v == nil {
		return nil, false, false
	}
	p.ws()
	if p.i != len(b) {
		return nil, false, false
	}
	return v, true, p.lone || p.dup
}

func (p *jp) ws() {
	for p.i < len(p.b) {
		switch p.b[p.i] {
		case ' ', '\t', '\n', '\r':
			p.i++
		default:
			return
		}
	}
}

func (p *jp) lit(s string) bool {
	if p.i+len(s) <= len(p.b) && string(p.b[p.i:p.i+len(s)]) == s {
		p.i += len(s)
		return true
	}
	return false
}

func (p *jp) value(depth int) *JV {
	if p.i >= len(p.b) || depth > 10000 {
		return nil
	}
	switch c := p.b[p.i]; {
	case c == '{':
		p.i++
		v := &JV{K: 'o'}
		p.ws()
		if p.lit("}") {
			return v
		}
		seen := map[string]bool{}
		for {
			p.ws()
			k, ok := p.str()
			if !ok {
				return nil
			}
			if seen[k] {
				p.dup = true
			}
			seen[k] = true
			p.ws()
			if !p.lit(":") {
				return nil
			}
			p.ws()
			m := p.value(depth + 1)
			if m == nil {
				return nil
			}
			v.Keys = append(v.Keys, k)
			v.Vals = append(v.Vals, m)
			p.ws()
			if p.lit("}") {
				return v
			}
			if !p.lit(",") {
				return nil
			}
		}
	case c == '[':
		p.i++
		v := &JV{K: 'a'}
		p.ws()
		if p.lit("]") {
			return v
		}
		for {
			p.ws()
			m := p.value(depth + 1)
			if m == nil {
				return nil
			}
			v.Vals = append(v.Vals, m)
			p.ws()
			if p.lit("]") {
				return v
			}
			if !p.lit(",") {
				return nil
			}
		}
	case c == '"':
		s, ok := p.str()
		if !ok {
			return nil
		}
		return &JV{K: 's', S: s}
	case c == 't':
		if p.lit("true") {
			return &JV{K: 't'}
		}
	case c == 'f':
		if p.lit("false") {
			return &JV{K: 'f'}
		}
	case c == 'n':
		if p.lit("null") {
			return &JV{K: 'z'}
		}
	case c == '-' || digit(c):
		st := p.i
		if c == '-' {
			p.i++
		}
		if p.i >= len(p.b) || !digit(p.b[p.i]) {
			return nil
		}
		if p.b[p.i] == '0' {
			p.i++
		} else {
			p.digits()
		}
		if p.lit(".") && !p.digits() {
			return nil
		}
		if p.i < len(p.b) && (p.b[p.i] == 'e' || p.b[p.i] == 'E') {
			p.i++
			if p.i < len(p.b) && (p.b[p.i] == '+' || p.b[p.i] == '-') {
				p.i++
			}
			if !p.digits() {
				return nil
			}
		}
		return &JV{K: 'n', N: string(p.b[st:p.i])}
	}
	return nil
}

func digit(c byte) bool { return '0' <= c && c <= '9' }

func (p *jp) digits() bool {
	st := p.i
	for p.i < len(p.b) && digit(p.b[p.i]) {
		p.i++
	}
	return p.i > st
}

func (p *jp) hex4() (rune, bool) {
	if p.i+4 > len(p.b) {
		return 0, false
	}
	var r rune
	for _, c := range p.b[p.i : p.i+4] {
		h, ok := hexv(c)
		if !ok {
			return 0, false
		}
		r = r<<4 | h
	}
	p.i += 4
	return r, true
}

func hexv(c byte) (rune, bool) {
	switch {
	case '0' <= c && c <= '9':
		return rune(c - '0'), true
	case 'a' <= c && c <= 'f':
		return rune(c-'a') + 10, true
	case 'A' <= c && c <= 'F':
		return rune(c-'A') + 10, true
	}
	return 0, false
}

func (p *jp) str() (string, bool) {
	if !p.lit(`"`) {
		return "", false
	}
	var out []byte
	for p.i < len(p.b) {
		c := p.b[p.i]
		switch {
		case c == '"':
			p.i++
			return string(out), true
		case c < 0x20:
			return "", false
		case c == '\\':
			p.i++
			if p.i >= len(p.b) {
				return "", false
			}
			e := p.b[p.i]
			p.i++
			switch e {
			case '"', '\\', '/':
				out = append(out, e)
			case 'b':
				out = append(out, '\b')
			case 'f':
				out = append(out, '\f')
			case 'n':
				out = append(out, '\n')
			case 'r':
				out = append(out, '\r')
			case 't':
				out = append(out, '\t')
			case 'u':
				r, ok := p.hex4()
				if !ok {
					return "", false
				}
				if utf16.IsSurrogate(r) {
					save := p.i
					if p.lit(`\u`) {
						r2, ok := p.hex4()
						if !ok {
							return "", false
						}
						if d := utf16.DecodeRune(r, r2); d != utf8.RuneError {
							out = utf8.AppendRune(out, d)
							continue
						}
					}
					p.i = save
					p.lone = true
					r = utf8.RuneError
				}
				out = utf8.AppendRune(out, r)
			default:
				return "", false
			}
		default:
			r, n := utf8.DecodeRune(p.b[p.i:])
			if r == utf8.RuneError && n == 1 {
				p.lone = true
			}
			out = append(out, p.b[p.i:p.i+n]...)
			p.i += n
		}
	}
	return "", false
}
