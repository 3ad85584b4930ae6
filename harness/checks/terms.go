//go:build terms

package checks

import (
	"fmt"
	"math/big"
	"reflect"
	"regexp"
	"strings"

	"github.com/flowchartsman/aql/parser"
	"github.com/flowchartsman/aql/parser/ast"

	"verifharness/core"
	"verifharness/gen"
	"verifharness/ref"
)

type termCase struct {
	Kind string `json:"kind"` // the constructor
	Text Bytes  `json:"text"` // a literal as in a query, or anything
	Pos  [4]int `json:"pos"`  // line, column, offset, length
}

var termKinds = []string{"string", "regex", "timestamp", "integer", "float", "boolean", "netaddr"}

var digits = regexp.MustCompile(`^-?[0-9]+$`)

// construct calls the constructor of a kind. A term that was not made is nil.
func construct(kind string, b []byte, pos ast.Pos) (ast.Val, error) {
	var v ast.Val
	var err error
	switch kind {
	case "string":
		v, err = ast.NewStringVal(b, pos)
	case "regex":
		v, err = ast.NewRegexpVal(b, pos)
	case "timestamp":
		v, err = ast.NewTimeVal(b, pos)
	case "integer":
		v, err = ast.NewIntVal(b, pos)
	case "float":
		v, err = ast.NewFloatVal(b, pos)
	case "boolean":
		v, err = ast.NewBoolVal(b, pos)
	case "netaddr":
		v, err = ast.NewNetVal(b, pos)
	}
	if v != nil && reflect.ValueOf(v).IsNil() {
		v = nil
	}
	return v, err
}

func init() {
	core.Register(core.Check{ID: "C35", Quick: 120000, Thorough: 2400000,
		Rule: "A literal of any kind, as a query may have it, or altered, cut off, empty, of another kind integers about and beyond 64 bits, or arbitrary bytes, given to the constructor of a kind with any position, and its bytes overwritten afterwards. For a literal of that kind the term is compared with the independently read one, with its position, and with the term the parser makes of it, asked about by name and in messages. Non-trivial: the constructor was given a literal of its kind.",
	}, func(t *T) *termCase {
		g := gen.New(t, gen.Opts{MaxDepth: 1, Big: t.P(10)})
		g.Doc()
		c := &termCase{Pos: [4]int{t.R(1, 9), t.R(1, 99), t.R(0, 999), t.R(1, 99)}}
		if t.P(5) {
			p := ast.NoPosition()
			c.Pos = [4]int{p.Line, p.Col, p.Offset, p.Len}
		}
		text := g.Term(g.N(8), g.Scalar())
		if v := ref.Query("a:" + text); v.OK && v.Root.Kind == "expr" && len(v.Root.Vals) == 1 {
			c.Kind = v.Root.Vals[0].Kind
		} else {
			c.Kind = core.Pick(t, termKinds)
		}
		switch t.W(68, 15, 5, 5, 5, 2) {
		case 1:
			text = g.Mutate(text)
		case 2:
			c.Kind = core.Pick(t, termKinds)
		case 3:
			text = g.Text(20)
		case 4:
			b := make([]byte, t.Size(40))
			for i := range b {
				b[i] = byte(t.N(256))
			}
			text = string(b)
		case 5:
			c.Kind = "integer"
			text = core.Pick(t, []string{"", "-"}) + core.Pick(t, []string{"9223372036854775807", "9223372036854775808", "9223372036854775809", "18446744073709551615", "18446744073709551617", "92233720368547758070"})
			if t.P(30) {
				text += strings.Repeat(core.Pick(t, []string{"0", "7", "9"}), t.R(1, 30))
			}
		}
		c.Text = Bytes(text)
		return c
	}, func(c *termCase, r *Rec) error {
		text := string(c.Text)
		pos := ast.Pos{Line: c.Pos[0], Col: c.Pos[1], Offset: c.Pos[2], Len: c.Pos[3]}
		var want *ref.Val
		if q := ref.Query("a:" + text); q.OK && q.Root.Kind == "expr" && len(q.Root.Vals) == 1 &&
			q.Root.Vals[0].Text == text && q.Root.Vals[0].Kind == c.Kind {
			want = q.Root.Vals[0]
		}
		given := text
		if want != nil && c.Kind == "string" {
			given = want.S
		}
		buf := []byte(given)
		v, err := construct(c.Kind, buf, pos)
		if string(buf) != given {
			return fmt.Errorf("the %s of %q has changed its bytes to %q", c.Kind, short(given), short(string(buf)))
		}
		if (v == nil) == (err == nil) {
			return fmt.Errorf("%s of %q: term %v and error %v", c.Kind, short(given), v, err)
		}
		if err != nil {
			if want != nil {
				return fmt.Errorf("%s of %q: %v", c.Kind, short(given), err)
			}
			_ = err.Error()
			r.Label("rejected")
			return nil
		}
		if n, ok := new(big.Int).SetString(given, 10); c.Kind == "integer" && digits.MatchString(given) && ok && !n.IsInt64() {
			return fmt.Errorf("integer of %q accepted", short(given))
		}
		before := v.String()
		for i := range buf {
			buf[i] ^= 0x15
		}
		if s := v.String(); s != before {
			return fmt.Errorf("%s of %q is printed as %q, and as %q when its bytes are changed", c.Kind, short(given), short(before), short(s))
		}
		if string(v.Type()) != c.Kind {
			return fmt.Errorf("%s of %q has type %s", c.Kind, short(given), v.Type())
		}
		if v.Pos() != pos {
			return fmt.Errorf("%s of %q is at %+v, given %+v", c.Kind, short(given), v.Pos(), pos)
		}
		for _, e := range []*parser.ParseError{parser.ErrorWith(v, text), parser.ErrorAt(pos, text)} {
			if e.Pos() != pos || e.Message() != text || !strings.Contains(e.Error(), text) {
				return fmt.Errorf("an error about the %s of %q is %q at %+v", c.Kind, short(given), short(e.Message()), e.Pos())
			}
		}
		if want == nil {
			r.Label("accepted, no literal")
			return nil
		}
		if err := sameVal(v, want); err != nil {
			return fmt.Errorf("%s of %q: %v", c.Kind, short(given), err)
		}
		n, err := parser.ParseQuery("a:" + text)
		if err != nil {
			return core.ErrSkip // C14
		}
		if e, ok := n.(*ast.ExprNode); ok && len(e.RVals) == 1 && e.RVals[0].String() != v.String() {
			return fmt.Errorf("%s of %q is printed as %q, in a query as %q", c.Kind, short(given), short(v.String()), short(e.RVals[0].String()))
		}
		r.Label(c.Kind)
		r.NonTrivial()
		return nil
	})
}
