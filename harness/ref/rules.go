package ref

import (
	"regexp/syntax"
	"strconv"
	"strings"
)

// Printed is the printed form of a term.
func (v *Val) Printed() string {
	switch v.Kind {
	case "string":
		return strconv.Quote(v.S)
	case "float":
		return strconv.FormatFloat(v.F, 'f', -1, 64)
	case "netaddr":
		if !strings.Contains(v.Text, "/") {
			return v.Text + "/32"
		}
	}
	return v.Text
}

// same is whether two terms of a set are the same value; unsure if that depends
// on what one takes for the same.
func same(a, b *Val) (eq bool, unsure bool) {
	num := func(v *Val) bool { return v.Kind == "integer" || v.Kind == "float" }
	if num(a) && num(b) {
		if a.Printed() == b.Printed() {
			return true, false
		}
		return false, a.F == b.F
	}
	if a.Kind != b.Kind {
		return false, false
	}
	if a.Printed() == b.Printed() {
		return true, false
	}
	switch a.Kind {
	case "timestamp":
		return false, a.Time == b.Time
	case "netaddr":
		return false, a.Net.Overlaps(b.Net) && a.Net.Bits == b.Net.Bits
	}
	return false, false
}

// Rule broken by a comparison.
type Broken struct {
	Node *Node
	Vals []*Val // the terms that may be blamed; empty if only the operation may
	Why  string
}

// Rules checks the operator rules of one comparison. It returns nil if none is
// broken.
func Rules(n *Node) (broken *Broken, unsure bool) {
	br := func(why string, vals ...*Val) *Broken { return &Broken{Node: n, Vals: vals, Why: why} }
	switch n.Op {
	case "exists", "null":
		return nil, false
	case "<", "<=", ">", ">=", "><":
		for _, v := range n.Vals {
			if v.Kind != "integer" && v.Kind != "float" && v.Kind != "timestamp" {
				return br("type", v), false
			}
		}
		if n.Op != "><" {
			if len(n.Vals) != 1 {
				return br("number"), false
			}
			return nil, false
		}
		if len(n.Vals) != 2 {
			return br("number"), false
		}
		a, b := n.Vals[0], n.Vals[1]
		if (a.Kind == "timestamp") != (b.Kind == "timestamp") {
			return br("mixed", b), false
		}
		if a.Kind == "timestamp" {
			if a.Time.Cmp(b.Time) >= 0 {
				return br("order", b), false
			}
		} else if a.F >= b.F {
			return br("order", b), false
		}
		return nil, false
	case "~":
		for _, v := range n.Vals {
			if v.Kind != "string" && v.Kind != "regex" && v.Kind != "boolean" {
				return br("type", v), false
			}
		}
	}
	for i, v := range n.Vals {
		for _, w := range n.Vals[:i] {
			eq, uns := same(w, v)
			unsure = unsure || uns
			if eq {
				return br("duplicate", v), unsure
			}
			if n.Op == "==" && v.Kind == "boolean" && w.Kind == "boolean" && v.B != w.B {
				return br("conflict", v), unsure
			}
		}
	}
	return nil, unsure
}

// Exprs returns the comparisons of a query in order.
func (n *Node) Exprs() []*Node {
	switch n.Kind {
	case "expr":
		return []*Node{n}
	case "not":
		return n.L.Exprs()
	}
	return append(n.L.Exprs(), n.R.Exprs()...)
}

// AllRules checks a whole query; broken lists every comparison at fault.
func AllRules(n *Node) (broken []*Broken, unsure bool) {
	for _, e := range n.Exprs() {
		b, u := Rules(e)
		unsure = unsure || u
		if b != nil {
			broken = append(broken, b)
		}
	}
	return broken, unsure
}

func fieldString(f []string) string {
	var out []string
	for _, p := range f {
		if strings.ContainsAny(p, " .\"") {
			p = strconv.Quote(p)
		}
		out = append(out, p)
	}
	return strings.Join(out, ".")
}

// Prefix is the printed prefix form of a tree.
func (n *Node) Prefix() string {
	switch n.Kind {
	case "and":
		return "(&& " + n.L.Prefix() + " " + n.R.Prefix() + ")"
	case "or":
		return "(|| " + n.L.Prefix() + " " + n.R.Prefix() + ")"
	case "not":
		return "(! " + n.L.Prefix() + ")"
	}
	var vals []string
	for _, v := range n.Vals {
		vals = append(vals, v.Printed())
	}
	s := "(" + n.Op + " " + fieldString(n.Field)
	switch len(vals) {
	case 0:
	case 1:
		s += " " + vals[0]
	default:
		s += " [" + strings.Join(vals, ", ") + "]"
	}
	return s + ")"
}

// Name of a node in statistics.
func (n *Node) Name() string {
	switch n.Kind {
	case "and", "or", "not":
		return strings.ToUpper(n.Kind)
	}
	var vals []string
	for _, v := range n.Vals {
		vals = append(vals, v.Printed())
	}
	s := fieldString(n.Field) + ":"
	if n.Op != "==" {
		s += n.Op
	}
	s += " "
	if len(vals) > 1 {
		return s + "(" + strings.Join(vals, ",") + ")"
	}
	return s + strings.Join(vals, "")
}

// Advice is a message a query calls for.
type Advice struct {
	Kind string // hint warning
	What string // sim time unicode-i dotstar-text group alternation dotstar-lead dotstar-trail
	Term *Val
	Expr *Node
}

// Advise lists the messages a query calls for, in order.
func Advise(root *Node) []Advice {
	var out []Advice
	for _, e := range root.Exprs() {
		for _, v := range e.Vals {
			add := func(kind, what string) { out = append(out, Advice{kind, what, v, e}) }
			switch v.Kind {
			case "string":
				if e.Op == "~" {
					add("warning", "sim-string")
				}
			case "timestamp":
				if e.Op == "==" && !v.Day {
					add("warning", "exact-time")
				}
			case "regex":
				if e.Op == "~" {
					add("warning", "sim-regex")
				}
				src := v.S
				if strings.HasPrefix(src, "(?i)") && !ascii(src) {
					add("warning", "unicode-i")
				}
				src = strings.TrimPrefix(src, "(?i)")
				if strings.HasPrefix(src, ".*") || strings.HasSuffix(src, ".*") {
					add("hint", "dotstar-text")
				}
				re, err := syntax.Parse(v.S, syntax.Perl)
				if err != nil {
					continue
				}
				if re.Op == syntax.OpCapture {
					add("hint", "group")
					re = re.Sub[0]
				}
				if re.Op == syntax.OpAlternate && plainAlt(re) {
					add("hint", "alternation")
				}
				if len(re.Sub) >= 2 && dotStar(re.Sub[0]) {
					add("hint", "dotstar-lead")
				}
				if len(re.Sub) >= 3 && dotStar(re.Sub[len(re.Sub)-1]) {
					add("hint", "dotstar-trail")
				}
			}
		}
	}
	return out
}

// plainAlt: no part with a single operand other than * and ?.
func plainAlt(re *syntax.Regexp) bool {
	if len(re.Sub) == 1 {
		return re.Op == syntax.OpStar || re.Op == syntax.OpQuest || re.Op == syntax.OpLiteral
	}
	for _, s := range re.Sub {
		if !plainAlt(s) {
			return false
		}
	}
	return true
}

func dotStar(re *syntax.Regexp) bool {
	return re.Op == syntax.OpStar && len(re.Sub) == 1 &&
		(re.Sub[0].Op == syntax.OpAnyChar || re.Sub[0].Op == syntax.OpAnyCharNotNL)
}

// Blame returns where the error about a comparison that breaks a rule may
// point: the whole comparison, and the terms at fault; exact is true if the
// fault is of a single kind and lies with those terms only.
func Blame(n *Node) (terms []*Val, exact bool) {
	add := func(v *Val) {
		for _, t := range terms {
			if t == v {
				return
			}
		}
		terms = append(terms, v)
	}
	kinds := 0
	switch n.Op {
	case "<", "<=", ">", ">=", "><":
		arity := len(n.Vals) != 1
		if n.Op == "><" {
			arity = len(n.Vals) != 2
		}
		if arity {
			kinds += 2 // the comparison itself
		}
		typed := true
		for _, v := range n.Vals {
			if v.Kind != "integer" && v.Kind != "float" && v.Kind != "timestamp" {
				add(v)
				typed = false
			}
		}
		if !typed {
			kinds++
		}
		if n.Op == "><" && !arity && typed {
			a, b := n.Vals[0], n.Vals[1]
			if (a.Kind == "timestamp") != (b.Kind == "timestamp") {
				add(a)
				add(b)
				kinds++
			} else if a.Kind == "timestamp" && a.Time.Cmp(b.Time) >= 0 || a.Kind != "timestamp" && a.F >= b.F {
				add(a)
				add(b)
				kinds++
			}
		}
	case "~":
		for _, v := range n.Vals {
			if v.Kind != "string" && v.Kind != "regex" && v.Kind != "boolean" {
				add(v)
				kinds = 1
			}
		}
	}
	if n.Op != "exists" && n.Op != "null" {
		dup := 0
		for i, v := range n.Vals {
			for _, w := range n.Vals[:i] {
				eq, uns := same(w, v)
				if eq || uns || n.Op == "==" && v.Kind == "boolean" && w.Kind == "boolean" && v.B != w.B {
					add(v)
					add(w)
					dup = 1
				}
			}
		}
		kinds += dup
	}
	return terms, kinds == 1
}

// FieldString is the printed form of the field of a comparison.
func (n *Node) FieldString() string { return fieldString(n.Field) }
