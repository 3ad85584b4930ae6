package ref

import (
	"regexp"
	"strconv"
	"strings"
	"sync"
	"unicode"

	"github.com/araddon/dateparse"
	"golang.org/x/text/language"
	"golang.org/x/text/search"
)

// Resolve returns the values a path names.
func Resolve(v *JV, path []string) []*JV {
	switch v.K {
	case 'o':
		c := v.Get(path[0])
		if c == nil {
			return nil
		}
		if len(path) == 1 {
			return []*JV{c}
		}
		return Resolve(c, path[1:])
	case 'a':
		var out []*JV
		for _, e := range v.Vals {
			if e.K == 'o' {
				out = append(out, Resolve(e, path)...)
			}
		}
		return out
	}
	return nil
}

// Scalars returns the scalars a comparison looks at.
func Scalars(vals []*JV) []*JV {
	var out []*JV
	for _, v := range vals {
		if v.Scalar() {
			out = append(out, v)
			continue
		}
		if v.K == 'a' {
			for _, e := range v.Vals {
				if e.Scalar() {
					out = append(out, e)
				}
			}
		}
	}
	return out
}

// Match evaluates a query; ev, if not nil, is told of each evaluated node.
func Match(n *Node, doc *JV, ev func(*Node, bool)) bool {
	var r bool
	switch n.Kind {
	case "and":
		r = Match(n.L, doc, ev) && Match(n.R, doc, ev)
	case "or":
		r = Match(n.L, doc, ev) || Match(n.R, doc, ev)
	case "not":
		r = !Match(n.L, doc, ev)
	default:
		r = Clause(n, doc)
	}
	if ev != nil {
		ev(n, r)
	}
	return r
}

// Clause evaluates a single comparison.
func Clause(n *Node, doc *JV) bool {
	vals := Resolve(doc, n.Field)
	if len(vals) == 0 {
		return false
	}
	switch n.Op {
	case "exists":
		return true
	case "null":
		for _, v := range vals {
			if v.K != 'z' {
				return false
			}
		}
		return true
	}
	for _, s := range Scalars(vals) {
		if n.Op == "><" {
			if between(n.Vals[0], n.Vals[1], s) {
				return true
			}
			continue
		}
		for _, t := range n.Vals {
			if Term(n.Op, t, s) {
				return true
			}
		}
	}
	return false
}

func between(lo, hi *Val, s *JV) bool {
	if lo.Kind == "timestamp" {
		t, ok := DateOf(s)
		return ok && t.Cmp(lo.Time) >= 0 && t.Cmp(hi.Time) <= 0
	}
	f, ok := NumOf(s)
	return ok && lo.F <= f && f <= hi.F
}

func rel(op string, c int) bool {
	switch op {
	case "==":
		return c == 0
	case "<":
		return c < 0
	case "<=":
		return c <= 0
	case ">":
		return c > 0
	case ">=":
		return c >= 0
	}
	return false
}

// Term compares one scalar with one term.
func Term(op string, t *Val, s *JV) bool {
	if op == "~" {
		op = "=="
	}
	switch t.Kind {
	case "boolean":
		return s.K == 't' && t.B || s.K == 'f' && !t.B
	case "integer", "float":
		f, ok := NumOf(s)
		if !ok || f != f {
			return false
		}
		c := 0
		if f < t.F {
			c = -1
		} else if f > t.F {
			c = 1
		}
		return rel(op, c)
	case "timestamp":
		d, ok := DateOf(s)
		if !ok {
			return false
		}
		if op == "==" && t.Day {
			return d.Sec >= t.Time.Sec && d.Sec < t.Time.Sec+86400
		}
		return rel(op, d.Cmp(t.Time))
	case "string":
		str, ok := TextOf(s)
		return ok && StringTerm(t.S, str)
	case "regex":
		str, ok := TextOf(s)
		return ok && compiled(t.S).MatchString(str)
	case "netaddr":
		if s.K != 's' {
			return false
		}
		for _, b := range Blocks(s.S) {
			if b.Overlaps(t.Net) {
				return true
			}
		}
	}
	return false
}

var (
	reMu    sync.Mutex
	reCache = map[string]*regexp.Regexp{}
)

func compiled(src string) *regexp.Regexp {
	reMu.Lock()
	defer reMu.Unlock()
	re := reCache[src]
	if re == nil {
		if len(reCache) > 2000 {
			clear(reCache)
		}
		re = regexp.MustCompile(src)
		reCache[src] = re
	}
	return re
}

// NumOf reads a scalar as a number.
func NumOf(s *JV) (float64, bool) {
	switch s.K {
	case 'n':
		f, err := strconv.ParseFloat(s.N, 64)
		return f, err == nil
	case 's':
		f, err := strconv.ParseFloat(s.S, 64)
		return f, err == nil
	}
	return 0, false
}

// TextOf is the text of a string, or the plain decimal form of a number.
func TextOf(s *JV) (string, bool) {
	switch s.K {
	case 's':
		return s.S, true
	case 'n':
		f, err := strconv.ParseFloat(s.N, 64)
		if err != nil {
			return "", false
		}
		return strconv.FormatFloat(f, 'f', -1, 64), true
	}
	return "", false
}

var (
	isoRe   = regexp.MustCompile(`^(\d{4}-\d\d-\d\d)(?:T(\d\d:\d\d:\d\d(?:\.\d{1,9})?)(Z|[+-]\d\d:\d\d))?$`)
	naiveRe = regexp.MustCompile(`^(\d{4}-\d\d-\d\d) (\d\d:\d\d:\d\d(?:\.\d{1,9})?)$`)
)

// DateOf reads a scalar as an instant. ISO dates are read here, the many other
// recognised formats by the library the documentation refers to.
func DateOf(s *JV) (Instant, bool) {
	str, ok := TextOf(s)
	if !ok {
		return Instant{}, false
	}
	if m := isoRe.FindStringSubmatch(str); m != nil {
		if m[2] == "" {
			if t, ok := civil(m[1], "", 0); ok {
				return t, true
			}
		} else if t, ok, gray := rfc3339(str); ok && !gray {
			return t, true
		}
	} else if m := naiveRe.FindStringSubmatch(str); m != nil {
		if t, ok := civil(m[1], m[2], 0); ok {
			return t, true
		}
	}
	t, err := dateparse.ParseAny(str)
	if err != nil {
		return Instant{}, false
	}
	return Instant{Sec: t.Unix(), Nano: int64(t.Nanosecond())}, true
}

var runRe = regexp.MustCompile(`[0-9./]+`)

// Blocks returns the well-formed addresses and blocks in a text.
func Blocks(s string) []Block {
	var out []Block
	for _, run := range runRe.FindAllString(s, -1) {
		run = strings.Trim(run, "./")
		if b, ok := ParseBlock(run); ok {
			out = append(out, b)
		}
	}
	return out
}

// OddNet is true if a text has a run of digits, dots and slashes which is
// neither a single address or block, well-formed or not, nor far from one.
func OddNet(s string) bool {
	for _, run := range runRe.FindAllString(s, -1) {
		t := strings.Trim(run, "./")
		if strings.Count(t, ".") < 3 {
			continue
		}
		if !netFull.MatchString(t) {
			return true
		}
	}
	return false
}

var netFull = regexp.MustCompile(`^\d{1,3}(\.\d{1,3}){3}(/\d{1,2})?$`)

// tok of a string term
type tok struct {
	r    rune
	kind byte // 0 literal, ? one, * run
}

func lex(term string) []tok {
	var out []tok
	rs := []rune(term)
	for i := 0; i < len(rs); i++ {
		switch {
		case rs[i] == '\\' && i+1 < len(rs) && (rs[i+1] == '?' || rs[i+1] == '*'):
			i++
			out = append(out, tok{r: rs[i]})
		case rs[i] == '?' || rs[i] == '*':
			out = append(out, tok{kind: byte(rs[i])})
		default:
			out = append(out, tok{r: rs[i]})
		}
	}
	return out
}

func word(r rune) bool {
	return r == '_' || '0' <= r && r <= '9' || 'a' <= r && r <= 'z' || 'A' <= r && r <= 'Z'
}

func ascii(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

// FoldEq compares two characters ignoring case.
func FoldEq(a, b rune) bool {
	if a == b {
		return true
	}
	for r := unicode.SimpleFold(a); r != a; r = unicode.SimpleFold(r) {
		if r == b {
			return true
		}
	}
	return false
}

// StringTerm decides whether a string term matches a text.
func StringTerm(term, text string) bool {
	isASCII := ascii(term)
	if !isASCII && !strings.ContainsAny(term, "?*") {
		return looseMatch(term, text)
	}
	toks := lex(term)
	txt := []rune(text)
	n := len(txt)
	boundary := func(i int) bool {
		before := i > 0 && word(txt[i-1])
		after := i < n && word(txt[i])
		return before != after
	}
	needStart, needEnd := false, false
	if isASCII && len(toks) > 0 {
		f, l := toks[0], toks[len(toks)-1]
		needStart = f.kind != 0 || word(f.r)
		needEnd = l.kind != 0 || word(l.r)
	}
	// set of text positions reachable after each token
	cur := make([]bool, n+1)
	for i := range cur {
		cur[i] = !needStart || boundary(i)
	}
	for _, t := range toks {
		next := make([]bool, n+1)
		switch t.kind {
		case '*':
			on := false
			for i := 0; i <= n; i++ {
				if i > 0 && txt[i-1] == '\n' {
					on = false
				}
				on = on || cur[i]
				next[i] = on
			}
		case '?':
			for i := 0; i < n; i++ {
				next[i+1] = cur[i] && txt[i] != '\n'
			}
		default:
			for i := 0; i < n; i++ {
				next[i+1] = cur[i] && FoldEq(t.r, txt[i])
			}
		}
		cur = next
	}
	for i, on := range cur {
		if on && (!needEnd || boundary(i)) {
			return true
		}
	}
	return false
}

// looseMatch is Unicode loose search, as provided by x/text.
func looseMatch(term, text string) bool {
	if term == text {
		return true
	}
	start, _ := search.New(language.Und, search.Loose).CompileString(term).IndexString(text)
	return start >= 0
}
