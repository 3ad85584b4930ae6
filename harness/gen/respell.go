package gen

import (
	"fmt"
	"strings"

	"verifharness/core"
	"verifharness/ref"
)

// Respell writes a query tree anew: other white space, parentheses, negations,
// quoting, escapes and spellings of terms.
func (g *Gen) Respell(n *ref.Node) string {
	return g.sp() + g.respellNode(n, 1) + g.sp()
}

func (g *Gen) respellNode(n *ref.Node, need int) string {
	s := ""
	switch n.Kind {
	case "or":
		s = g.respellNode(n.L, 2) + g.sp1() + "OR" + g.sp1() + g.respellNode(n.R, 1)
	case "and":
		s = g.respellNode(n.L, 3) + g.sp1() + "AND" + g.sp1() + g.respellNode(n.R, 2)
	case "not":
		not := "NOT" + g.sp1()
		if g.P(50) {
			not = "!" + g.sp()
		}
		s = not + g.respellNode(n.L, 4)
	default:
		s = g.respellClause(n)
	}
	more := 0
	if g.P(20) {
		more = 1 + g.Size(3)
	}
	if prec[n.Kind] < need {
		more++
	}
	for ; more > 0; more-- {
		s = "(" + g.sp() + s + g.sp() + ")"
	}
	return s
}

func (g *Gen) respellClause(n *ref.Node) string {
	s := g.Field(n.Field) + g.sp() + ":" + g.sp()
	if n.Op != "==" {
		s += n.Op + g.sp()
	}
	var terms []string
	for _, v := range n.Vals {
		terms = append(terms, g.respellTerm(v))
	}
	switch len(terms) {
	case 0:
		return s
	case 1:
		return s + terms[0]
	}
	return s + g.list(terms)
}

func (g *Gen) respellTerm(v *ref.Val) string {
	if g.P(40) {
		return v.Text
	}
	zeros := strings.Repeat("0", g.Size(3))
	switch v.Kind {
	case "string":
		return g.Quoted(v.S)
	case "integer", "float":
		sign, digits := "", v.Text
		if strings.HasPrefix(digits, "-") {
			sign, digits = "-", digits[1:]
		}
		if v.Kind == "integer" {
			if g.P(30) && len(digits) < 16 {
				return sign + zeros + digits + ".0" + zeros
			}
			return sign + zeros + digits
		}
		return sign + zeros + digits + zeros
	case "timestamp":
		if v.Day {
			return v.Text
		}
		return g.ISO(v.Time, true)
	case "netaddr":
		if v.Net.Bits == 32 {
			return Dotted(v.Net.Addr) + core.Pick(g.T, []string{"", "/32"})
		}
		a := v.Net.Addr
		// bits outside the block do not matter
		a ^= uint32(g.U(1<<32)) & (1<<(32-uint(v.Net.Bits)) - 1)
		return fmt.Sprintf("%s/%d", Dotted(a), v.Net.Bits)
	}
	return v.Text
}
