package gen

import (
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"
	"unicode"

	"verifharness/core"
	"verifharness/ref"
)

// kinds of terms, for Opts.Terms
const (
	TString = iota
	TRegex
	TInt
	TFloat
	TTime
	TDay
	TNet
	TBool
)

// AllTerms gives every kind of term a fair share.
var AllTerms = []int{25, 12, 15, 10, 10, 8, 10, 10}

// sp is optional white space, sp1 at least one.
func (g *Gen) sp() string {
	switch g.W(75, 15, 5, 5) {
	case 1:
		return " "
	case 2:
		return core.Pick(g.T, []string{"\n", "\t", "\r", "  ", "\r\n", " \n\t "})
	case 3:
		return strings.Repeat(" ", g.N(5))
	}
	return ""
}

func (g *Gen) sp1() string {
	switch g.W(80, 10, 10) {
	case 1:
		return core.Pick(g.T, []string{"\n", "\t", "\r", "  ", "\r\n", " \n\t "})
	case 2:
		return " " + g.sp()
	}
	return " "
}

// Quoted writes a string literal.
func (g *Gen) Quoted(s string) string {
	var sb strings.Builder
	sb.WriteByte('"')
	esc := g.P(15)
	for _, r := range s {
		short := map[rune]string{'"': `\"`, '\\': `\\`, '\b': `\b`, '\f': `\f`, '\n': `\n`, '\r': `\r`, '\t': `\t`}[r]
		switch {
		case short != "" && !(esc && g.P(30)):
			sb.WriteString(short)
		case r < 0x20 || short != "" || esc && r < 0x10000 && g.P(30):
			if g.P(30) {
				fmt.Fprintf(&sb, `\u%04X`, r)
			} else {
				fmt.Fprintf(&sb, `\u%04x`, r)
			}
		default:
			sb.WriteRune(r)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

func plainPiece(s string) bool {
	for _, c := range []byte(s) {
		if !(c == '_' || c == '-' || '0' <= c && c <= '9' || 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z') {
			return false
		}
	}
	return s != ""
}

// Field writes a field.
func (g *Gen) Field(path []string) string {
	var out []string
	for _, p := range path {
		if g.P(4) {
			out = append(out, "*")
		}
		if plainPiece(p) && !g.P(10) {
			out = append(out, p)
		} else {
			out = append(out, g.Quoted(p))
		}
	}
	if g.P(4) {
		out = append(out, "*")
	}
	return strings.Join(out, ".")
}

// Path names values of a document, or nearly.
func (g *Gen) Path() []string {
	var path []string
	if len(g.Roots) > 0 {
		v := core.Pick(g.T, g.Roots)
		for v != nil {
			switch {
			case v.K == 'o' && len(v.Keys) > 0:
				stop := 15
				if len(v.Keys) == 1 {
					stop = 2 // deep down
				}
				if len(path) > 0 && g.P(stop) {
					v = nil
					break
				}
				i := g.N(len(v.Keys))
				path = append(path, v.Keys[i])
				v = v.Vals[i]
			case v.K == 'a':
				var objs []*ref.JV
				for _, e := range v.Vals {
					if e.K == 'o' {
						objs = append(objs, e)
					}
				}
				v = nil
				if len(objs) > 0 && !g.P(10) {
					v = core.Pick(g.T, objs)
				}
			default:
				v = nil
			}
		}
	}
	if len(path) == 0 {
		path = []string{core.Pick(g.T, g.Keys)}
	}
	switch g.W(85, 5, 5, 5) {
	case 1:
		path[g.N(len(path))] = core.Pick(g.T, g.Keys)
	case 2:
		path = append(path, core.Pick(g.T, g.Keys))
	case 3:
		path[g.N(len(path))] = g.Key()
	}
	return path
}

// target is a scalar the path leads to in some document.
func (g *Gen) target(path []string) *ref.JV {
	var all []*ref.JV
	for _, r := range g.Roots {
		all = append(all, ref.Scalars(ref.Resolve(r, path))...)
	}
	if len(all) == 0 || g.P(20) {
		if len(g.pool) > 0 && g.P(60) {
			return core.Pick(g.T, g.pool)
		}
		return g.Scalar()
	}
	return core.Pick(g.T, all)
}

// substring with bounds often at word boundaries
func (g *Gen) part(s string) string {
	rs := []rune(s)
	if len(rs) == 0 {
		return ""
	}
	switch g.W(40, 30, 30) {
	case 1:
		fs := strings.FieldsFunc(s, func(r rune) bool { return !unicode.IsLetter(r) && !unicode.IsDigit(r) && r != '_' })
		if len(fs) > 0 {
			return core.Pick(g.T, fs)
		}
	case 2:
		i := g.N(len(rs))
		j := i + 1 + g.N(min(len(rs)-i, 12))
		return string(rs[i:min(j, len(rs))])
	}
	if len(rs) > 60 && !g.P(30) {
		i := g.N(len(rs) - 60)
		rs = rs[i : i+g.R(1, 60)]
	}
	return string(rs)
}

func (g *Gen) flip(s string) string {
	switch g.N(4) {
	case 1:
		return strings.ToUpper(s)
	case 2:
		return strings.ToLower(s)
	case 3:
		rs := []rune(s)
		for i, r := range rs {
			if g.P(50) {
				rs[i] = unicode.SimpleFold(r)
			}
		}
		return string(rs)
	}
	return s
}

// StringTerm is the value of a string term near a text.
func (g *Gen) StringTerm(text string) string {
	if g.P(15) {
		return g.Phrase()
	}
	s := g.part(text)
	if g.P(40) {
		s = g.flip(s)
	}
	rs := []rune(s)
	var out []rune
	switch g.W(40, 20, 20, 10, 10) {
	case 0:
		return s
	case 1: // literal stars and question marks
		for _, r := range rs {
			if r == '*' || r == '?' {
				out = append(out, '\\')
			}
			out = append(out, r)
		}
	case 2: // one-character wildcards
		for _, r := range rs {
			if g.P(20) {
				r = '?'
			}
			out = append(out, r)
		}
	case 3: // runs
		i := g.N(len(rs) + 1)
		j := i
		if i < len(rs) {
			j = i + g.N(len(rs)-i+1)
		}
		out = append(append(append(out, rs[:i]...), '*'), rs[j:]...)
		if g.P(30) {
			out = append(out, '*')
		}
		if g.P(30) {
			out = append([]rune{'*'}, out...)
		}
	case 4: // one character off
		if len(rs) > 0 {
			i := g.N(len(rs))
			out = append(append(append(out, rs[:i]...), g.Rune()), rs[i+1:]...)
		}
		if g.P(30) {
			out = append(out, g.Rune())
		}
	}
	return string(out)
}

func reEscape(s string) string {
	s = regexp.QuoteMeta(s)
	s = strings.ReplaceAll(s, "/", `\/`)
	return strings.ReplaceAll(s, "\n", `\n`)
}

// RegexTerm is the source of a regular expression near a text.
func (g *Gen) RegexTerm(text string) string {
	p := reEscape(g.part(text))
	q := reEscape(g.Phrase())
	if len(q) > 30 {
		q = "q"
	}
	if g.P(20) {
		p = q
	}
	switch g.N(24) {
	case 1:
		p = "^" + p
	case 2:
		p = p + "$"
	case 3:
		p = "^" + p + "$"
	case 4:
		p = "(" + p + ")"
	case 5:
		p = "(?:" + p + "|" + q + ")"
	case 6:
		p = p + "|" + q
	case 7:
		p = ".*" + p
	case 8:
		p = p + ".*"
	case 9:
		p = `[a-z]+`
	case 10:
		p = `\d+`
	case 11:
		p = `\b` + p + `\b`
	case 12:
		p = p + ".?" + p
	case 13:
		p = `^.{` + strconv.Itoa(len([]rune(text))) + `}$`
	case 14:
		p = `\S+\s\S+`
	case 15:
		p = "(" + p + "|" + q + ")"
	case 16:
		p = `(?s)^.*$`
	case 17:
		p = `[^\x00-\x7F]`
	case 18:
		p = p + `\/`
	case 19:
		p = `\/` + p
	case 20:
		p = `\\` + p
	case 21:
		p = `^` + p + `\\$`
	case 22:
		p = `(?P<n>` + p + `)+`
	case 23:
		p = p + `{2}|` + q + `{0,3}`
	}
	if g.P(20) {
		p = "(?i)" + g.flipAlpha(p)
	}
	if _, err := regexp.Compile(p); err != nil || strings.ContainsRune(p, '\n') {
		return "x"
	}
	return p
}

func (g *Gen) flipAlpha(p string) string {
	if strings.ContainsAny(p, `\({`) {
		return p
	}
	return g.flip(p)
}

func floatText(f float64) string {
	s := strconv.FormatFloat(f, 'f', -1, 64)
	if !strings.Contains(s, ".") {
		s += ".0"
	}
	return s
}

// NumTerm writes a number near f.
func (g *Gen) NumTerm(f float64, wantFloat bool) string {
	switch g.W(50, 10, 10, 10, 10, 10) {
	case 1:
		f++
	case 2:
		f--
	case 3:
		f = math.Nextafter(f, math.Inf(1))
	case 4:
		f = math.Nextafter(f, math.Inf(-1))
	case 5:
		f = -f
	}
	if math.IsInf(f, 0) || math.IsNaN(f) {
		f = 1
	}
	if !wantFloat && f == math.Trunc(f) && math.Abs(f) < 9.2e18 {
		s := strconv.FormatFloat(f, 'f', 0, 64)
		if g.P(5) {
			if strings.HasPrefix(s, "-") {
				return "-0" + s[1:]
			}
			return "0" + s
		}
		return s
	}
	s := floatText(f)
	if g.P(10) {
		s += "0"
	}
	return s
}

// TimeTerm writes a timestamp near t.
func (g *Gen) TimeTerm(t ref.Instant, day bool) string {
	switch g.W(40, 10, 10, 10, 10, 10, 10) {
	case 1:
		t.Nano++
	case 2:
		t.Nano--
	case 3:
		t.Sec++
	case 4:
		t.Sec--
	case 5:
		t.Sec += 86400
	case 6:
		t.Sec -= 86400
	}
	if t.Nano < 0 {
		t.Nano += 1e9
		t.Sec--
	}
	if t.Nano >= 1e9 {
		t.Nano -= 1e9
		t.Sec++
	}
	if t.Sec < -62167219200 {
		t.Sec = -62167219200
	}
	if t.Sec > 253402300799 {
		t.Sec = 253402300799
	}
	if day {
		return Day(t)
	}
	return g.ISO(t, true)
}

// NetTerm writes an address or block near one.
func (g *Gen) NetTerm(b ref.Block) string {
	a := b.Addr
	switch g.W(40, 30, 30) {
	case 1:
		a ^= 1 << uint(g.N(32))
	case 2:
		a ^= uint32(g.U(1<<32)) >> uint(g.N(33))
	}
	if g.P(40) {
		return Dotted(a)
	}
	bits := g.Bits()
	if g.P(40) {
		bits = b.Bits
	}
	return fmt.Sprintf("%s/%d", Dotted(a), bits)
}

// Term writes a term of a kind near a scalar.
func (g *Gen) Term(kind int, s *ref.JV) string {
	switch kind {
	case TString, TRegex:
		text, ok := ref.TextOf(s)
		if !ok {
			text = g.Phrase()
			if g.P(30) {
				text = map[byte]string{'t': "true", 'f': "false", 'z': "null"}[s.K]
			}
		}
		if kind == TString {
			return g.Quoted(g.StringTerm(text))
		}
		return "/" + g.RegexTerm(text) + "/"
	case TInt, TFloat:
		f, ok := ref.NumOf(s)
		if !ok || math.IsInf(f, 0) || math.IsNaN(f) || g.P(15) {
			f, _ = strconv.ParseFloat(g.Number(), 64)
		}
		return g.NumTerm(f, kind == TFloat)
	case TTime, TDay:
		t, ok := ref.DateOf(s)
		if !ok || t.Sec < -62167219200 || t.Sec > 253402300799 || g.P(15) {
			t = g.Instant()
		}
		return g.TimeTerm(t, kind == TDay)
	case TNet:
		b := ref.Block{Addr: g.Addr(), Bits: 32}
		if s.K == 's' {
			if bs := ref.Blocks(s.S); len(bs) > 0 && !g.P(15) {
				b = core.Pick(g.T, bs)
			}
		}
		return g.NetTerm(b)
	}
	if s.K == 't' || s.K == 'f' {
		if (s.K == 't') != g.P(25) {
			return "true"
		}
		return "false"
	}
	return core.Pick(g.T, []string{"true", "false"})
}

// kindFor is a kind of term that has a chance with a scalar.
func (g *Gen) kindFor(s *ref.JV) int {
	w := g.O.Terms
	if w == nil {
		w = AllTerms
	}
	if g.P(25) {
		return g.W(w...)
	}
	var c []int
	add := func(k, n int) {
		if w[k] > 0 {
			for ; n > 0; n-- {
				c = append(c, k)
			}
		}
	}
	switch s.K {
	case 's':
		if _, ok := ref.NumOf(s); ok {
			add(TInt, 2)
			add(TFloat, 2)
		}
		if len(ref.Blocks(s.S)) > 0 {
			add(TNet, 6)
		}
		if _, ok := ref.DateOf(s); ok {
			add(TTime, 3)
			add(TDay, 3)
		}
		add(TString, 4)
		add(TRegex, 2)
	case 'n':
		add(TInt, 3)
		add(TFloat, 3)
		add(TString, 1)
		add(TRegex, 1)
		if _, ok := ref.DateOf(s); ok {
			add(TTime, 1)
			add(TDay, 1)
		}
	case 't', 'f':
		add(TBool, 1)
	}
	if len(c) == 0 {
		return g.W(w...)
	}
	return core.Pick(g.T, c)
}

// Clause writes a comparison.
func (g *Gen) Clause() string { return g.ClauseOps(50, 12, 14, 8, 3, 7, 6) }

// ClauseOps writes a comparison; weights are of equality, set, ordering,
// between, ~, exists, null.
func (g *Gen) ClauseOps(w ...int) string {
	path := g.Path()
	op := g.W(w...)
	s := g.target(path)
	kind := g.kindFor(s)
	rel := core.Pick(g.T, []string{"<", "<=", ">", ">="})
	if len(g.past) > 0 && g.P(20) {
		// akin to an earlier one: its field, and perhaps its operator and term
		p := core.Pick(g.T, g.past)
		path = p.path
		if g.P(60) && w[p.op] > 0 {
			op, rel = p.op, p.rel
		}
		if g.P(50) {
			s = p.s
		} else {
			s = g.target(path)
		}
		if g.P(60) {
			kind = p.kind
		}
	}
	g.past = append(g.past, clause{path, op, rel, kind, s})
	head := g.Field(path) + g.sp() + ":" + g.sp()
	switch op {
	case 5:
		return head + "exists"
	case 6:
		return head + "null"
	}
	numOrTime := kind == TInt || kind == TFloat || kind == TTime || kind == TDay
	switch {
	case (op == 2 || op == 3) && !numOrTime:
		op = 0
	case op == 4 && kind != TString && kind != TRegex && kind != TBool:
		op = 0
	}
	switch op {
	case 1:
		return head + g.List(path, 2, 12)
	case 2:
		return head + rel + g.sp() + g.Term(kind, s)
	case 3:
		a, b := g.Term(kind, s), g.Term(kind, s)
		if g.P(30) {
			switch kind {
			case TInt:
				b = g.Term(TFloat, s)
			case TFloat:
				a = g.Term(TInt, s)
			case TTime:
				a = g.Term(TDay, s)
			case TDay:
				b = g.Term(TTime, s)
			}
		}
		switch before(a, b) {
		case 1:
			a, b = b, a
		case 0:
			b = g.bump(b)
		}
		return head + "><" + g.sp() + g.list([]string{a, b})
	case 4:
		if g.P(20) && kind != TBool {
			return head + "~" + g.sp() + g.list([]string{g.Term(kind, s), g.Term(kind, s) + ""})
		}
		return head + "~" + g.sp() + g.Term(kind, s)
	}
	return head + g.Term(kind, s)
}

func (g *Gen) list(terms []string) string {
	var sb strings.Builder
	sb.WriteString("(" + g.sp())
	for i, t := range terms {
		if i > 0 {
			sb.WriteString(g.sp() + "," + g.sp())
		}
		sb.WriteString(t)
	}
	sb.WriteString(g.sp() + ")")
	return sb.String()
}

func (g *Gen) bump(b string) string {
	v := termVal(b)
	if v == nil {
		return b
	}
	if v.Kind == "timestamp" {
		return "9999-12-31"
	}
	return floatText(v.F + math.Max(1, math.Abs(v.F)))
}

func termVal(s string) *ref.Val {
	r := ref.Query("a:" + s)
	if !r.OK || r.Root.Kind != "expr" || len(r.Root.Vals) != 1 {
		return nil
	}
	return r.Root.Vals[0]
}

// before compares two terms of a between.
func before(a, b string) int {
	x, y := termVal(a), termVal(b)
	if x == nil || y == nil {
		return -1
	}
	if x.Kind == "timestamp" {
		return x.Time.Cmp(y.Time)
	}
	switch {
	case x.F < y.F:
		return -1
	case x.F > y.F:
		return 1
	}
	return 0
}

// List writes a set of distinct terms.
func (g *Gen) List(path []string, lo, hi int) string {
	n := lo + g.Size(hi-lo)
	if g.O.Big && g.P(5) {
		n = lo + g.Size(200)
	}
	var terms []string
	var vals []*ref.Val
	if g.P(8) {
		terms = g.series(path, n)
		for _, t := range terms {
			if v := termVal(t); v == nil || clash(v, vals) {
				terms, vals = nil, nil
				break
			} else {
				vals = append(vals, v)
			}
		}
	}
	for i := 0; i < n*2 && len(terms) < n; i++ {
		s := g.target(path)
		t := g.Term(g.kindFor(s), s)
		v := termVal(t)
		if v == nil || clash(v, vals) {
			continue
		}
		terms = append(terms, t)
		vals = append(vals, v)
	}
	for i := 0; len(terms) < 2; i++ {
		t := strconv.Itoa(70000 + i)
		terms = append(terms, t)
	}
	if g.O.Big && g.N(200) == 199 {
		// among a great many others
		more := g.R(50, 1500)
		at := g.N(more)
		var many []string
		for i := range more {
			if i == at {
				many = append(many, terms...)
			}
			many = append(many, `"zq`+strconv.Itoa(i)+`"`)
		}
		terms = many
	}
	return g.list(terms)
}

// series is consecutive terms around a value the path leads to.
func (g *Gen) series(path []string, n int) []string {
	s := g.target(path)
	kind := g.kindFor(s)
	back := g.N(n + 1)
	step := core.Pick(g.T, []int{1, 1, 1, 2, 10})
	var out []string
	switch kind {
	case TString:
		// words, one of them perhaps from the text
		if s.K != 's' {
			return nil
		}
		own := strings.FieldsFunc(s.S, func(r rune) bool { return !unicode.IsLetter(r) && !unicode.IsDigit(r) })
		n = max(n, g.R(2, 12))
		for i := range n {
			w := "w" + strconv.Itoa(i*step)
			if i < len(words) && g.P(50) {
				w = words[i]
			}
			if i == back && len(own) > 0 {
				w = core.Pick(g.T, own)
			}
			out = append(out, `"`+w+`"`)
		}
	case TInt, TFloat:
		f, ok := ref.NumOf(s)
		if !ok || math.Abs(f) > 1e9 {
			return nil
		}
		for i := range n {
			x := math.Floor(f) + float64((i-back)*step)
			if kind == TInt {
				out = append(out, strconv.Itoa(int(x)))
			} else {
				out = append(out, floatText(x/2))
			}
		}
	case TTime, TDay:
		t, ok := ref.DateOf(s)
		if !ok || t.Sec < -60000000000 || t.Sec > 250000000000 {
			return nil
		}
		for i := range n {
			if kind == TDay {
				out = append(out, Day(ref.Instant{Sec: t.Sec + int64(i-back)*int64(step)*86400}))
			} else {
				out = append(out, g.ISO(ref.Instant{Sec: t.Sec + int64(i-back)*int64(step)}, true))
			}
		}
	case TNet:
		if s.K != 's' {
			return nil
		}
		bs := ref.Blocks(s.S)
		if len(bs) == 0 {
			return nil
		}
		b := core.Pick(g.T, bs)
		bits := core.Pick(g.T, []int{32, 32, 31, 30, 24, 16, 8, b.Bits})
		if bits == 0 {
			return nil
		}
		for i := range n {
			a := b.Addr>>(32-bits) + uint32((i-back)*step)
			if bits < 32 {
				a &= 1<<bits - 1
			}
			out = append(out, fmt.Sprintf("%s/%d", Dotted(a<<(32-bits)), bits))
			if bits == 32 && g.P(80) {
				out[i] = Dotted(a)
			}
		}
	}
	return out
}

func clash(v *ref.Val, vals []*ref.Val) bool {
	for _, w := range vals {
		num := func(v *ref.Val) bool { return v.Kind == "integer" || v.Kind == "float" }
		switch {
		case num(v) && num(w):
			if v.F == w.F {
				return true
			}
		case v.Kind != w.Kind:
		case v.Kind == "boolean":
			return true
		case v.Kind == "timestamp":
			if v.Time == w.Time {
				return true
			}
		case v.Kind == "netaddr":
			if v.Net.Bits == w.Net.Bits && v.Net.Overlaps(w.Net) {
				return true
			}
		case v.Printed() == w.Printed():
			return true
		}
	}
	return false
}

// clause is what a clause was made of.
type clause struct {
	path []string
	op   int
	rel  string
	kind int
	s    *ref.JV
}

type tree struct {
	kind string
	l, r *tree
	text string
}

// Tree is a random boolean tree over clauses.
func (g *Gen) tree(budget int, clause func() string) *tree {
	t := g.grow(budget, clause)
	g.trees = append(g.trees, t)
	return t
}

func (g *Gen) grow(budget int, clause func() string) *tree {
	if len(g.trees) > 0 && g.P(5) {
		// a part of the query once more, or its opposite
		t := core.Pick(g.T, g.trees)
		if t.size() <= max(budget, 2) {
			if g.P(40) {
				t = &tree{kind: "not", l: t}
			}
			return t
		}
	}
	if budget <= 1 {
		if g.P(15) {
			return &tree{kind: "not", l: &tree{kind: "expr", text: clause()}}
		}
		return &tree{kind: "expr", text: clause()}
	}
	switch g.W(20, 32, 32, 16) {
	case 1, 2:
		k := 1 + g.N(budget-1)
		kind := core.Pick(g.T, []string{"and", "or"})
		return &tree{kind: kind, l: g.tree(k, clause), r: g.tree(budget-k, clause)}
	case 3:
		return &tree{kind: "not", l: g.tree(budget, clause)}
	}
	return g.tree(1, clause)
}

func (t *tree) size() int {
	if t == nil {
		return 0
	}
	n := t.l.size() + t.r.size()
	if t.kind == "expr" {
		n++
	}
	return n
}

var prec = map[string]int{"or": 1, "and": 2, "not": 3, "expr": 4}

func (g *Gen) write(t *tree, need int) string {
	if prec[t.kind] < need || g.P(8) {
		n := 1
		if g.P(3) {
			n = g.R(2, 6)
		}
		s := g.writeBare(t)
		for ; n > 0; n-- {
			s = "(" + g.sp() + s + g.sp() + ")"
		}
		return s
	}
	return g.writeBare(t)
}

func (g *Gen) writeBare(t *tree) string {
	switch t.kind {
	case "or":
		return g.write(t.l, 2) + g.sp1() + "OR" + g.sp1() + g.write(t.r, 1)
	case "and":
		return g.write(t.l, 3) + g.sp1() + "AND" + g.sp1() + g.write(t.r, 2)
	case "not":
		if g.P(40) {
			return "!" + g.sp() + g.write(t.l, 4)
		}
		return "NOT" + g.sp1() + g.write(t.l, 4)
	}
	return t.text
}

// Query writes a query of up to n clauses.
func (g *Gen) Query(n int, clause func() string) string {
	if clause == nil {
		clause = g.Clause
	}
	b := 1 + g.N(n)
	if g.O.Big && g.P(2) {
		b = 1 + g.Size(150)
	}
	return g.sp() + g.write(g.tree(b, clause), 1) + g.sp()
}
