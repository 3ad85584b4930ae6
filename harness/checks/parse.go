package checks

import (
	"errors"
	"fmt"
	"io"
	"math"
	"net/netip"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"testing/iotest"
	"unicode/utf8"

	"github.com/flowchartsman/aql/jsonmatcher"
	"github.com/flowchartsman/aql/parser"
	"github.com/flowchartsman/aql/parser/ast"

	"verifharness/core"
	"verifharness/gen"
	"verifharness/ref"
)

// TextCase is a query text.
type TextCase struct {
	Query Bytes `json:"query"`
}

func isNil(n ast.Node) bool {
	return n == nil || reflect.ValueOf(n).Kind() == reflect.Pointer && reflect.ValueOf(n).IsNil()
}

// sameTree compares a parsed tree with the reference.
func sameTree(n ast.Node, r *ref.Node, values, positions bool) error {
	switch x := n.(type) {
	case *ast.AndNode:
		if r.Kind != "and" {
			return fmt.Errorf("AND in place of %s", r.Prefix())
		}
		if err := sameTree(x.Left, r.L, values, positions); err != nil {
			return err
		}
		return sameTree(x.Right, r.R, values, positions)
	case *ast.OrNode:
		if r.Kind != "or" {
			return fmt.Errorf("OR in place of %s", r.Prefix())
		}
		if err := sameTree(x.Left, r.L, values, positions); err != nil {
			return err
		}
		return sameTree(x.Right, r.R, values, positions)
	case *ast.NotNode:
		if r.Kind != "not" {
			return fmt.Errorf("NOT in place of %s", r.Prefix())
		}
		return sameTree(x.Expr, r.L, values, positions)
	case *ast.ExprNode:
		if r.Kind != "expr" {
			return fmt.Errorf("clause in place of %s", r.Prefix())
		}
		if values {
			if string(x.Op) != r.Op {
				return fmt.Errorf("operator %q, want %q", x.Op, r.Op)
			}
			if len(x.Field) != len(r.Field) {
				return fmt.Errorf("field %q, want %q", x.Field, r.Field)
			}
			for i := range x.Field {
				if x.Field[i] != r.Field[i] {
					return fmt.Errorf("field %q, want %q", x.Field, r.Field)
				}
			}
		}
		if len(x.RVals) != len(r.Vals) {
			return fmt.Errorf("%d terms, want %d", len(x.RVals), len(r.Vals))
		}
		if positions {
			if err := samePos("clause", x.Pos(), r.Pos); err != nil {
				return err
			}
			if x.Position != x.Pos() {
				return fmt.Errorf("clause has two positions")
			}
		}
		for i, v := range x.RVals {
			if values {
				if err := sameVal(v, r.Vals[i]); err != nil {
					return err
				}
			}
			if positions {
				if err := samePos("term "+r.Vals[i].Text, v.Pos(), r.Vals[i].Pos); err != nil {
					return err
				}
			}
		}
		return nil
	}
	return fmt.Errorf("node of type %T", n)
}

func sameVal(v ast.Val, r *ref.Val) error {
	if string(v.Type()) != r.Kind {
		return fmt.Errorf("term %s has type %s, want %s", r.Text, v.Type(), r.Kind)
	}
	bad := func(got any) error { return fmt.Errorf("term %s has value %v", r.Text, got) }
	switch x := v.(type) {
	case *ast.IntVal:
		if x.Value() != r.I {
			return bad(x.Value())
		}
	case *ast.FloatVal:
		if math.Float64bits(x.Value()) != math.Float64bits(r.F) {
			return bad(x.Value())
		}
	case *ast.StringVal:
		if x.Value() != r.S {
			return fmt.Errorf("term %s has value %q, want %q", r.Text, x.Value(), r.S)
		}
	case *ast.BoolVal:
		if x.Value() != r.B {
			return bad(x.Value())
		}
	case *ast.RegexpVal:
		if s := x.Value().String(); s != r.S && s != strings.ReplaceAll(r.S, `\/`, `/`) {
			return fmt.Errorf("term %s is the expression %q", r.Text, s)
		}
	case *ast.NetVal:
		a := r.Net.Addr
		want := netip.PrefixFrom(netip.AddrFrom4([4]byte{byte(a >> 24), byte(a >> 16), byte(a >> 8), byte(a)}), r.Net.Bits)
		if x.Value().Masked() != want.Masked() {
			return bad(x.Value())
		}
	case *ast.TimeVal:
		if x.Value().Unix() != r.Time.Sec || int64(x.Value().Nanosecond()) != r.Time.Nano || x.DayOnly() != r.Day {
			return bad(x.Value())
		}
	default:
		return fmt.Errorf("term %s is a %T", r.Text, v)
	}
	return nil
}

func samePos(what string, got ast.Pos, want ref.Pos) error {
	if got.Offset != want.Offset || got.Line != want.Line || got.Col != want.Col || got.Len != want.Len {
		return fmt.Errorf("%s is at %+v, want %+v", what, got, want)
	}
	if s := got.Start(); s != (ast.Pos{Line: want.Line, Col: want.Col, Offset: want.Offset, Len: 1}) {
		return fmt.Errorf("%s is at %+v, but starts at %+v", what, got, s)
	}
	if got.IsZero() || !ast.NoPosition().IsZero() || !ast.NoPosition().Start().IsZero() {
		return fmt.Errorf("%s is at %+v: no position: %v, but of none: %v", what, got, got.IsZero(), ast.NoPosition().IsZero())
	}
	return nil
}

// slowReader returns a text in small pieces, and sometimes nothing.
type slowReader struct {
	s    string
	n, i int
}

func (r *slowReader) Read(p []byte) (int, error) {
	r.i++
	if r.i%3 == 0 && r.i < 300 {
		return 0, nil
	}
	if r.s == "" {
		return 0, io.EOF
	}
	n := min(r.n, len(p), len(r.s))
	copy(p, r.s[:n])
	r.s = r.s[n:]
	return n, nil
}

func genTree(t *T, n int) (*gen.Gen, *TextCase) {
	g := gen.New(t, gen.Opts{MaxDepth: 3, OddKeys: true, Big: true})
	for k := t.R(0, 2); k > 0; k-- {
		g.Doc()
	}
	return g, &TextCase{Query: Bytes(g.Query(n, nil))}
}

func init() {
	core.Register(core.Check{ID: "C13", Quick: 40000, Thorough: 800000,
		Rule: "A well-formed query of up to 8 (sometimes 150) clauses of every operator and term type, with odd and quoted field pieces, stars, escapes, white space and parentheses, compared node by node with an independent parser, printed, and read again from readers that return one byte, pieces or nothing at a time. Non-trivial: it has an operator, a list or a quoted piece.",
	}, func(t *T) *TextCase {
		_, c := genTree(t, 8)
		return c
	}, func(c *TextCase, r *Rec) error {
		q := string(c.Query)
		root := valid(q)
		if root == nil {
			return core.ErrSkip
		}
		n, err := parser.ParseQuery(q)
		if err != nil {
			return fmt.Errorf("query %q rejected: %v", short(q), err)
		}
		if isNil(n) {
			return fmt.Errorf("query %q: neither tree nor error", short(q))
		}
		if err := sameTree(n, root, true, false); err != nil {
			return fmt.Errorf("query %q: %v", short(q), err)
		}
		if got, want := n.String(), root.Prefix(); got != want {
			return fmt.Errorf("query %q is printed as %q, want %q", short(q), short(got), short(want))
		}
		for i, rd := range []io.Reader{
			iotest.OneByteReader(strings.NewReader(q)),
			iotest.DataErrReader(strings.NewReader(q)),
			iotest.HalfReader(strings.NewReader(q)),
			&slowReader{s: q, n: 7},
		} {
			m, err := parser.ParseQueryReader(rd)
			if err != nil {
				return fmt.Errorf("query %q rejected from reader %d: %v", short(q), i, err)
			}
			if m.String() != n.String() {
				return fmt.Errorf("query %q from reader %d is %s", short(q), i, short(m.String()))
			}
		}
		for _, e := range root.Exprs() {
			r.Label("op " + e.Op)
			for _, v := range e.Vals {
				r.Label("term " + v.Kind)
			}
		}
		if root.Kind != "expr" || len(root.Vals) > 1 || strings.Contains(q, `"`) {
			r.NonTrivial()
		}
		return nil
	})

	core.Register(core.Check{ID: "C14", Quick: 120000, Thorough: 2400000,
		Rule: "A query text altered in 0-3 places (pieces of syntax, malformed terms, keywords and escapes inserted, removed, replaced, repeated or cut off, bytes that are not UTF-8), a run of such pieces, or something repeated up to 2000 times (parentheses, clauses, members, characters); an independent parser decides whether it is a query. Non-trivial: the text was rejected, or accepted although it has been altered; counted apart in `seen`.",
	}, func(t *T) *TextCase {
		if t.N(400) == 7 {
			// a long one
			f, count := core.Pick(t, families), t.P(30)
			if count {
				f = core.Pick(t, counted)
			}
			if t.P(30) {
				f.tail += core.Pick(t, breaks)
			}
			grown := &growCase{Head: Bytes(f.head), Before: Bytes(f.before), Core: Bytes(f.core), After: Bytes(f.after), Tail: Bytes(f.tail), Count: count}
			return &TextCase{Query: Bytes(grown.text(1 + t.N(2000)))}
		}
		g, c := genTree(t, 3)
		switch t.W(10, 70, 12, 8) {
		case 1:
			c.Query = Bytes(g.Mutate(string(c.Query)))
		case 2:
			c.Query = Bytes("a:" + g.Mutate(g.Scrap()))
		case 3:
			c.Query = Bytes(g.Soup())
		}
		return c
	}, func(c *TextCase, r *Rec) error {
		q := string(c.Query)
		want, why, unsure := Accepts(q)
		if unsure {
			return core.ErrSkip
		}
		n, err := parser.ParseQuery(q)
		if err == nil && isNil(n) {
			return fmt.Errorf("query %q: neither tree nor error", short(q))
		}
		if err != nil && !isNil(n) {
			return fmt.Errorf("query %q: a tree in spite of the error %v", short(q), err)
		}
		if (err == nil) != want {
			if want {
				return fmt.Errorf("query %q rejected: %v", short(q), err)
			}
			return fmt.Errorf("query %q accepted as %s, but: %s", short(q), short(n.String()), why)
		}
		m, merr := jsonmatcher.NewMatcher(q)
		if (merr == nil) != want || (m != nil) != want {
			return fmt.Errorf("query %q: parser and matcher disagree: %v, %v", short(q), err, merr)
		}
		if want {
			r.Label("accepted")
		} else {
			r.Label("rejected: " + why)
		}
		r.NonTrivial()
		return nil
	})

	core.Register(core.Check{ID: "C15", Quick: 100000, Thorough: 1200000,
		Rule:   "A well-formed query of 1-5 comparisons in which operators, numbers and types of terms are combined freely, with terms that are equal, in either order, repeated or contradictory; the rules are checked independently, and the error must point at a comparison that breaks one, or a term at fault in it, what it names in brackets must be that comparison's operator or one of its terms, and a term it speaks of by number must be where it points. Non-trivial: some comparison has an operator other than plain equality, or several terms.",
		Assume: []string{"sets whose members are equal in value but spelt differently (01 and 1, 1.0.0.0/8 and 1.1.1.1/8) are not judged"},
	}, func(t *T) *TextCase {
		g := gen.New(t, gen.Opts{MaxDepth: 2, Big: true})
		for k := t.R(0, 1); k > 0; k-- {
			g.Doc()
		}
		return &TextCase{Query: Bytes(g.Query(5, func() string {
			if t.P(40) {
				return g.Clause()
			}
			return g.AnyClause()
		}))}
	}, func(c *TextCase, r *Rec) error {
		q := string(c.Query)
		res := ref.Query(q)
		if !res.OK || res.Gray {
			return core.ErrSkip
		}
		broken, unsure := ref.AllRules(res.Root)
		if unsure {
			return core.ErrSkip
		}
		n, err := parser.ParseQuery(q)
		for _, e := range res.Root.Exprs() {
			if e.Op != "==" && e.Op != "exists" && e.Op != "null" || len(e.Vals) > 1 {
				r.NonTrivial()
			}
		}
		if len(broken) == 0 {
			if err != nil || isNil(n) {
				return fmt.Errorf("query %q rejected: %v", short(q), err)
			}
			r.Label("no rule broken")
			return nil
		}
		if err == nil || !isNil(n) {
			return fmt.Errorf("query %q accepted in spite of %s", short(q), short(broken[0].Node.Src))
		}
		r.Label("broken: " + broken[0].Why)
		var pe *parser.ParseError
		if !errors.As(err, &pe) {
			return fmt.Errorf("query %q: error of type %T", short(q), err)
		}
		if pe.Message() == "" {
			return fmt.Errorf("query %q: error without a message", short(q))
		}
		for _, b := range broken {
			at := pe.Pos().Offset == b.Node.Pos.Offset
			terms, _ := ref.Blame(b.Node)
			for _, v := range terms {
				at = at || pe.Pos().Offset == v.Pos.Offset
			}
			if why := misplaced(pe, b.Node); at && why != "" {
				return fmt.Errorf("query %q: message %q at %+v, but %s", short(q), pe.Message(), pe.Pos(), why)
			}
			if at && !named(pe.Message(), b.Node) {
				return fmt.Errorf("query %q: message %q names something that is not in %s", short(q), pe.Message(), short(b.Node.Src))
			}
			if at {
				return nil
			}
		}
		return fmt.Errorf("query %q: error %v is not about what is wrong, such as %s", short(q), err, short(broken[0].Node.Src))
	})

	core.Register(core.Check{ID: "C16", Quick: 60000, Thorough: 1200000,
		Rule: "A query text of 1-6 clauses over several lines and with non-ASCII text before and inside the tokens, well-formed, breaking an operator rule, with one malformed literal, or altered at random; positions of clauses, terms, messages and errors are compared with an independent parser and with the text itself. Non-trivial: something positioned lies after a line break or a non-ASCII character.",
	}, func(t *T) *TextCase {
		g := gen.New(t, gen.Opts{MaxDepth: 2, OddKeys: true, Scalars: []int{30, 10, 5, 2, 15, 8, 5, 5, 10}})
		g.Keys = append(g.Keys, "é", "日本")
		for k := t.R(0, 1); k > 0; k-- {
			g.Doc()
		}
		clause := func() string {
			switch t.W(70, 15, 15) {
			case 1:
				return g.AnyClause()
			case 2:
				return g.Field(g.Path()) + ":" + core.Pick(t, badLiterals)
			}
			return g.Clause()
		}
		q := g.Query(6, clause)
		if t.P(25) {
			q = g.Mutate(q)
		}
		return &TextCase{Query: Bytes(q)}
	}, func(c *TextCase, r *Rec) error { return positions(string(c.Query), r) })
}

// badLiterals are recognisable terms with values that are not.
var badLiterals = []string{
	"2020-02-30", "2020-13-01", "2021-02-29", "2020-01-01T25:00:00Z", "2020-01-01T00:61:00Z", "256.1.1.1", "1.2.3.999/8", "1.2.3.4/33", "1.2.3.04", "99999999999999999999", "-9223372036854775809", `/(/`, `/[é/`, `/é(日/`, `/a{2,1}/`, `/*/`, `"\ud800"`, `"é\udc00"`, "1" + strings.Repeat("0", 400) + ".5",
}

// Accepts decides whether a text is a query.
func Accepts(q string) (ok bool, why string, unsure bool) {
	res := ref.Query(q)
	if res.Gray {
		return false, "", true
	}
	if !res.OK {
		return false, res.Why, false
	}
	broken, unsure := ref.AllRules(res.Root)
	if unsure {
		return false, "", true
	}
	if len(broken) > 0 {
		return false, "operator rule", false
	}
	return true, "", false
}

func positions(q string, r *Rec) error {
	res := ref.Query(q)
	if res.Gray {
		return core.ErrSkip
	}
	far := func(off int) {
		for i := 0; i < off && i < len(q); i++ {
			if q[i] == '\n' || q[i] >= 0x80 {
				r.NonTrivial()
				return
			}
		}
	}
	n, err := parser.ParseQuery(q)
	if err == nil {
		if !res.OK {
			return core.ErrSkip
		}
		r.Label("tree")
		for _, e := range res.Root.Exprs() {
			far(e.Pos.Offset + 1)
		}
		if err := sameTree(n, res.Root, false, true); err != nil {
			return fmt.Errorf("query %q: %v", short(q), err)
		}
		m, err := matcher(q)
		if err != nil {
			return err
		}
		for _, msg := range m.Messages() {
			found := false
			for _, e := range res.Root.Exprs() {
				found = found || samePos("", msg.Pos(), e.Pos) == nil
				for _, v := range e.Vals {
					found = found || samePos("", msg.Pos(), v.Pos) == nil
				}
			}
			if !found {
				return fmt.Errorf("query %q: message %v is at %+v, where there is no clause or term", short(q), msg, msg.Pos())
			}
			r.Label("message")
		}
		return nil
	}
	var pe *parser.ParseError
	if !errors.As(err, &pe) {
		return fmt.Errorf("query %q: error of type %T", short(q), err)
	}
	p := pe.Pos()
	if p.Offset < 0 || p.Offset > len(q) {
		return fmt.Errorf("query %q: error %v is outside the text: %+v", short(q), err, p)
	}
	line, col := ref.LineCol(q, p.Offset)
	if p.Line != line || p.Col != col {
		return fmt.Errorf("query %q: error %v is at %+v, but the offset is line %d, column %d", short(q), err, p, line, col)
	}
	left := utf8.RuneCountInString(q[p.Offset:])
	if p.Len < 0 || p.Len > left && !(left == 0 && p.Len <= 1) {
		return fmt.Errorf("query %q: error %v at %+v reaches past the end", short(q), err, p)
	}
	far(p.Offset)
	if res.OK {
		broken, unsure := ref.AllRules(res.Root)
		if unsure || len(broken) == 0 {
			return core.ErrSkip
		}
		r.Label("rule error")
		if len(broken) > 1 {
			return nil
		}
		terms, exact := ref.Blame(broken[0].Node)
		ok := !exact && samePos("", p, broken[0].Node.Pos) == nil
		for _, v := range terms {
			ok = ok || samePos("", p, v.Pos) == nil
		}
		if len(terms) == 0 {
			ok = samePos("", p, broken[0].Node.Pos) == nil
		}
		if !ok {
			return fmt.Errorf("query %q: error %v is at %+v, not at what is wrong with %s", short(q), err, p, short(broken[0].Node.Src))
		}
		return nil
	}
	// a single malformed literal in an otherwise well-formed text
	for _, b := range badLiterals {
		i := strings.Index(q, ":"+b)
		if i < 0 || strings.Count(q, b) != 1 {
			continue
		}
		end := i + 1 + len(b)
		if end < len(q) && !strings.ContainsRune(" \n\t\r)", rune(q[end])) {
			continue
		}
		if fixed := ref.Query(q[:i+1] + "1" + q[end:]); !fixed.OK || fixed.Gray {
			continue
		}
		want := ref.Pos{Offset: i + 1, Len: utf8.RuneCountInString(b)}
		want.Line, want.Col = ref.LineCol(q, i+1)
		if err := samePos("error about "+short(b), p, want); err != nil {
			return fmt.Errorf("query %q: %v (%s)", short(q), err, pe.Message())
		}
		r.Label("literal error")
		return nil
	}
	r.Label("syntax error")
	return nil
}

var valueOf = regexp.MustCompile(`\(value (\d+)/(\d+)\)`)

// misplaced tells if a message speaks of the second term, or of one by its
// number, and points at another.
func misplaced(pe *parser.ParseError, n *ref.Node) string {
	k := -1
	if m := valueOf.FindAllStringSubmatch(pe.Message(), -1); m != nil {
		last := m[len(m)-1]
		k, _ = strconv.Atoi(last[1])
		if last[2] != strconv.Itoa(len(n.Vals)) {
			return fmt.Sprintf("there are %d terms", len(n.Vals))
		}
	} else if strings.Contains(pe.Message(), "second argument") {
		k = 2
	}
	if k < 0 || pe.Pos().Offset == n.Pos.Offset {
		return ""
	}
	if k < 1 || k > len(n.Vals) || pe.Pos().Offset != n.Vals[k-1].Pos.Offset {
		return fmt.Sprintf("that is not where term %d is", k)
	}
	return ""
}

// named is false if a message has something in brackets that is neither the
// operator of the comparison nor one of its terms.
func named(msg string, n *ref.Node) bool {
	i, j := strings.IndexByte(msg, '['), strings.LastIndexByte(msg, ']')
	if i < 0 || j < i {
		return true
	}
	in := msg[i+1 : j]
	if in == n.Op {
		return true
	}
	for _, v := range n.Vals {
		for _, term := range []string{v.Printed(), v.Text} {
			if in == term {
				return true
			}
			// brackets of the term itself
			for at := range msg {
				if at <= i && strings.HasPrefix(msg[at:], term) && at+len(term) > j {
					return true
				}
			}
		}
	}
	return false
}
