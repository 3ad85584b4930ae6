package gen

import (
	"fmt"
	"strconv"
	"strings"

	"verifharness/core"
	"verifharness/ref"
)

var scraps = []string{
	"(", ")", "((", "))", "()", ",", ",,", ":", "::", " ", "  ", "\n", "\t", "\r", "\"", "\\", "/", "//", "*", ".", "..", "-", "--", "<", ">", "<=", ">=", "><", "<>", "=", "==", "!=", "~", "!", "!!", "?", "'", "`", "#", "&&", "||", "{", "}", "[", "]", "+", "_", "@", "\u0000", " ", " ", "\ufeff", "\f", "\v",
	"AND", "OR", "NOT", "and", "or", "not", "And", "AND ", " AND", " OR ", " AND ", "NOT ", "! ", "ANDNOT", "NOT NOT ", "XOR", "TO",
	"exists", "null", "true", "false", "True", "TRUE", "nil", "exist", "existss", "Exists", "NULL",
	"a", "a:1", "a.b", "\"a\"", "a:", ":1", "a:exists", "x:null", "a:(1,2)", "a:(1)", "a:()", "a:(1,)", "a:(,1)", "a:(1 2)", "(a:1)", "()",
	"0", "1", "-1", "00", "-0", "1.5", "-1.5", "1.", ".5", "1e5", "1.5e3", "+1", "0x10", "1_000", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "99999999999999999999.5", "1.2.3", "--1", "- 1",
	"2020-01-01", "2020-1-1", "2020-02-30", "2021-02-29", "2020-02-29", "2020-13-01", "2020-00-10", "2020-01-00", "2020-01-32", "0000-01-01", "9999-12-31", "10000-01-01", "20200101", "2020-01", "1900-02-29", "2000-02-29",
	"2020-01-01T00:00:00Z", "2020-01-01t00:00:00z", "2020-01-01 00:00:00Z", "2020-01-01T00:00:00", "2020-01-01T24:00:00Z", "2020-01-01T23:60:00Z", "2020-01-01T23:59:60Z", "2020-01-01T23:59:59.5Z", "2020-01-01T23:59:59.Z", "2020-01-01T00:00:00+01:00", "2020-01-01T00:00:00-0100", "2020-01-01T00:00Z", "2020-01-01T00:00:00+01", "2020-01-01T00:00:00.123456789+05:30", "2020-01-01  00:00:00Z", "2020-01-01T", "2020-02-30T00:00:00Z",
	"1.2.3.4", "1.2.3.4/8", "1.2.3.4/32", "1.2.3.4/33", "1.2.3.4/", "1.2.3.4/08", "1.2.3.4/0", "1.2.3.4/00", "256.1.1.1", "01.2.3.4", "1.2.3.04", "1.2.3.4.5", "1.2.3.4/-1", "1.2.3.4/100", "::1", "1.2.3.4:80", "999.999.999.999",
	`""`, `"x"`, `"\""`, `"\\"`, `"\u0041"`, `"\u004"`, `"\ud800"`, `"\udc00"`, `"\ud83d\ude00"`, `"😀"`, `"\x41"`, `"\'"`, `"\/"`, `"\b\f\n\r\t"`, `"\0"`, `"a`, `a"`, "\"\n\"", "\"\t\"", `"é"`, `"\ud7ff"`, `"\U00000041"`, `"\a"`,
	`//`, `/x/`, `/\//`, `/\\/`, `/(/`, `/)/`, `/[/`, `/a{2,1}/`, `/*/`, `/?/`, `/x`, `x/`, "/\n/", `/\`, `/(?i)x/`, `/(?<n>x)/`, `/(?P<n>x)/`, `/\1/`, `/a**/`, `/(?=x)/`, `/\pL/`, `/\pX/`, `/x/i`, `/[a-z]+/`, `/\d/`, `/a|b/`, `/\z/`, `/x{1001}/`, `/\x41/`,
	"\x80", "\xff", "\xc3", "\xed\xa0\x80", "\xf4\x90\x80\x80",
}

// Mutate changes a text a little.
func (g *Gen) Mutate(s string) string {
	for n := 1 + g.W(70, 20, 10); n > 0; n-- {
		i := g.N(len(s) + 1)
		switch g.W(20, 20, 12, 8, 8, 8, 8, 6, 6, 8) {
		case 0: // insert a scrap
			s = s[:i] + g.Scrap() + s[i:]
		case 1: // delete a little
			j := min(len(s), i+1+g.W(70, 15, 10, 5))
			s = s[:i] + s[j:]
		case 2: // replace a little
			j := min(len(s), i+1+g.W(70, 15, 10, 5))
			s = s[:i] + g.Scrap() + s[j:]
		case 3: // cut off
			s = s[:i]
		case 4: // repeat a part
			j := min(len(s), i+1+g.N(12))
			s = s[:j] + s[i:]
		case 5: // remove white space or a parenthesis
			if k := strings.IndexAny(s[i:], " \n\t\r()"); k >= 0 {
				s = s[:i+k] + s[i+k+1:]
			}
		case 6: // replace a token
			k, j := g.token(s, i)
			s = s[:k] + g.Scrap() + s[j:]
		case 7: // change case
			j := min(len(s), i+1+g.N(5))
			if g.P(50) {
				s = s[:i] + strings.ToLower(s[i:j]) + s[j:]
			} else {
				s = s[:i] + strings.ToUpper(s[i:j]) + s[j:]
			}
		case 8:
			s = s[:i] + string(g.Rune()) + s[i:]
		case 9: // double, drop or move a symbol
			k := strings.IndexAny(s[i:], "<>=~!:,.-+*?\"/\\()")
			if k < 0 {
				break
			}
			k += i
			switch g.W(50, 20, 30) {
			case 0:
				s = s[:k+1] + s[k:]
			case 1:
				s = s[:k] + s[k+1:]
			case 2:
				if k+1 < len(s) && s[k+1] < 0x80 {
					s = s[:k] + s[k+1:k+2] + s[k:k+1] + s[k+2:]
				}
			}
		}
	}
	return s
}

// Scrap is a piece of query text, well-formed or not.
func (g *Gen) Scrap() string {
	if s, ok := g.HotStr(); ok {
		return s
	}
	return core.Pick(g.T, scraps)
}

func (g *Gen) token(s string, i int) (int, int) {
	sep := func(c byte) bool { return strings.IndexByte(" \n\t\r():,", c) >= 0 }
	a, b := i, i
	for a > 0 && !sep(s[a-1]) {
		a--
	}
	for b < len(s) && !sep(s[b]) {
		b++
	}
	return a, b
}

// Soup is a run of scraps.
func (g *Gen) Soup() string {
	var sb strings.Builder
	for n := 1 + g.Size(20); n > 0; n-- {
		sb.WriteString(g.Scrap())
		if g.P(30) {
			sb.WriteByte(' ')
		}
	}
	return sb.String()
}

// repeated is a long set of distinct terms, mostly with one of them twice.
func (g *Gen) repeated(path []string, op string) string {
	kind := g.kindFor(g.target(path))
	if op == "~" && kind != TString && kind != TRegex {
		kind = core.Pick(g.T, []int{TString, TRegex})
	}
	var terms []string
	var vals []*ref.Val
	n := 2 + g.Size(200)
	if g.P(15) {
		n = g.R(200, 1200)
	}
	for i := 0; i < n; i++ {
		s := fmt.Sprintf("%s%d", core.Pick(g.T, words), i)
		var t string
		switch kind {
		case TInt:
			t = strconv.Itoa(i * 7)
		case TFloat:
			t = fmt.Sprintf("%d.5", i)
		case TTime, TDay:
			t = g.TimeTerm(ref.Instant{Sec: int64(i) * 864000}, kind == TDay)
		case TNet:
			t = fmt.Sprintf("10.%d.%d.0/24", i/200, i%200)
		case TRegex:
			t = "/" + s + "/"
		default:
			t = g.Quoted(s)
		}
		if v := termVal(t); v != nil && !clash(v, vals) {
			terms, vals = append(terms, t), append(vals, v)
		}
	}
	switch g.W(25, 50, 25) {
	case 2: // one of another kind
		j := g.N(len(terms) + 1)
		if g.P(50) {
			j = len(terms)
		}
		odd := core.Pick(g.T, []string{"9000001", "-0.25", "true", "1999-09-09", "203.0.113.9", `"zq"`, "/zq/"})
		terms = append(terms[:j:j], append([]string{odd}, terms[j:]...)...)
	case 1:
		i := g.N(len(terms))
		j := g.N(len(terms) + 1)
		terms = append(terms[:j:j], append([]string{terms[i]}, terms[j:]...)...)
	}
	if len(terms) == 1 {
		return terms[0]
	}
	return g.list(terms)
}

// AnyClause writes a comparison without regard to the operator rules.
func (g *Gen) AnyClause() string {
	path := g.Path()
	head := g.Field(path) + g.sp() + ":" + g.sp()
	op := core.Pick(g.T, []string{"", "", "<", "<=", ">", ">=", "><", "><", "><", "~", "~"})
	n := 1
	switch {
	case op == "><":
		n = 1 + g.W(10, 75, 15)
	case op == "" || op == "~":
		n = 1 + g.W(20, 30, 20, 15, 15)
		if g.O.Big && g.P(2) {
			return head + op + g.sp() + g.repeated(path, op)
		}
	case g.P(15):
		n = g.R(2, 3)
	}
	var terms []string
	s := g.target(path)
	kind := g.kindFor(s)
	w := g.O.Terms
	if w == nil {
		w = AllTerms
	}
	numeric := op != "" && op != "~" && g.P(75)
	for i := 0; i < n; i++ {
		if g.P(30) {
			s = g.target(path)
		}
		if g.P(25) {
			kind = g.W(w...)
		}
		if numeric && (kind < TInt || kind > TDay) {
			kind = TInt + g.N(4)
		}
		if op == "~" && g.P(80) && kind != TString && kind != TRegex && kind != TBool {
			kind = core.Pick(g.T, []int{TString, TRegex, TBool})
		}
		if len(terms) > 0 && g.P(12) {
			terms = append(terms, core.Pick(g.T, terms))
			continue
		}
		terms = append(terms, g.Term(kind, s))
	}
	if n > 1 && (op == "" || op == "~") && g.P(12) {
		// both booleans, anywhere
		for _, b := range []string{"true", "false"} {
			i := g.N(len(terms) + 1)
			terms = append(terms[:i:i], append([]string{b}, terms[i:]...)...)
		}
	}
	if n == 1 {
		return head + op + g.sp() + terms[0]
	}
	return head + op + g.sp() + g.list(terms)
}
