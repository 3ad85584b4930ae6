// Package drawing reads drawings of queries back.
package drawing

import (
	"encoding/xml"
	"fmt"
	"html"
	"io"
	"regexp"
	"strings"
	"unicode/utf8"

	"verifharness/ref"
)

// dot is what a DOT file says.
type dot struct {
	nodes map[string]map[string]string
	order []string
	edges [][2]string
	pens  []string
	title string
}

// parseDOT reads the subset of the language in which graphviz writes.
func parseDOT(s string) (*dot, error) {
	d := &dot{nodes: map[string]map[string]string{}}
	i := 0
	next := func() (tok string, quoted bool) {
		for i < len(s) && strings.IndexByte(" \t\r\n", s[i]) >= 0 {
			i++
		}
		if i >= len(s) {
			return "", false
		}
		switch c := s[i]; {
		case c == '"':
			var sb strings.Builder
			for i++; i < len(s) && s[i] != '"'; i++ {
				if s[i] == '\\' && i+1 < len(s) {
					if s[i+1] == '\n' {
						i++
						continue
					}
					if s[i+1] == '"' {
						i++
					} else if s[i+1] == '\\' {
						sb.WriteByte('\\')
						i++
					}
				}
				sb.WriteByte(s[i])
			}
			i++
			return sb.String(), true
		case c == '<':
			depth, j := 0, i
			for ; j < len(s); j++ {
				if s[j] == '<' {
					depth++
				}
				if s[j] == '>' {
					if depth--; depth == 0 {
						break
					}
				}
			}
			t := s[i+1 : min(j, len(s))]
			i = j + 1
			return "<" + t, true
		case strings.HasPrefix(s[i:], "->"):
			i += 2
			return "->", false
		case strings.IndexByte("{}[];,=", c) >= 0:
			i++
			return string(c), false
		}
		j := i
		for j < len(s) && strings.IndexByte(" \t\r\n{}[];,=\"<", s[j]) < 0 && !strings.HasPrefix(s[j:], "->") {
			j++
		}
		t := s[i:j]
		i = j
		return t, true
	}
	peek := func() string {
		j := i
		t, q := next()
		i = j
		if q {
			return "id"
		}
		return t
	}
	if t, _ := next(); t != "digraph" {
		return nil, fmt.Errorf("not a digraph: %q", t)
	}
	if peek() == "id" {
		next()
	}
	if t, _ := next(); t != "{" {
		return nil, fmt.Errorf("no graph body")
	}
	for {
		t, q := next()
		if !q {
			switch t {
			case ";":
				continue
			case "}":
				if t, _ := next(); t != "" {
					return nil, fmt.Errorf("text after the graph: %q", t)
				}
				return d, nil
			}
			return nil, fmt.Errorf("unexpected %q", t)
		}
		if peek() == "=" { // graph attribute
			next()
			if v, _ := next(); t == "label" {
				d.title = v
			}
			continue
		}
		to := ""
		if peek() == "->" {
			next()
			to, _ = next()
		}
		attrs := map[string]string{}
		for peek() == "[" {
			next()
			for peek() != "]" {
				if peek() == "," || peek() == ";" {
					next()
					continue
				}
				k, q := next()
				if !q {
					return nil, fmt.Errorf("unexpected %q among attributes", k)
				}
				if e, _ := next(); e != "=" {
					return nil, fmt.Errorf("unexpected %q after attribute %q", e, k)
				}
				attrs[k], _ = next()
			}
			next()
		}
		switch {
		case to != "":
			d.edges = append(d.edges, [2]string{t, to})
			d.pens = append(d.pens, attrs["penwidth"])
		case t == "graph":
			if l, ok := attrs["label"]; ok {
				d.title = l
			}
		case t == "node" || t == "edge":
		default:
			if _, ok := d.nodes[t]; ok {
				return nil, fmt.Errorf("node %q twice", t)
			}
			d.nodes[t] = attrs
			d.order = append(d.order, t)
		}
	}
}

var tag = regexp.MustCompile(`<[^>]*>`)

// cells are the texts in an HTML label.
func cells(label string) []string {
	var out []string
	for _, p := range tag.Split(label, -1) {
		if strings.TrimSpace(p) != "" {
			out = append(out, html.UnescapeString(p))
		}
	}
	return out
}

var typeNames = map[string][]string{
	"float": {"float"}, "integer": {"integer", "int"}, "string": {"string"}, "netaddr": {"network", "netaddr"},
	"boolean": {"boolean", "bool"}, "regex": {"regexp", "regex"}, "timestamp": {"datetime", "timestamp"},
}

// Control: there are characters which a label cannot show as they are.
func Control(s string) bool {
	for _, r := range s {
		if r < ' ' || r == 0xFFFE || r == 0xFFFF || r == utf8.RuneError || r == 0x7f || r >= 0x80 && r < 0xa0 {
			return true
		}
	}
	return false
}

// labelled: a label shows field, operator and each term with its type.
func labelled(label string, n *ref.Node) error {
	if !strings.HasPrefix(label, "<") {
		return fmt.Errorf("label %q is not a table", label)
	}
	all := cells(label[1:])
	left := all
	find := func(what string, any ...string) error {
		for i, c := range left {
			for _, a := range any {
				if c == a || strings.TrimSpace(c) == strings.TrimSpace(a) || Control(a) {
					left = left[i+1:]
					return nil
				}
			}
		}
		return fmt.Errorf("%s %q not shown in %q", what, any[0], all)
	}
	if f := strings.Join(n.Field, "."); strings.TrimSpace(f) != "" && strings.TrimSpace(f) == f {
		if err := find("field", f, n.FieldString()); err != nil {
			return err
		}
	}
	if err := find("operator", n.Op); err != nil {
		return err
	}
	for _, v := range n.Vals {
		if err := find("type", typeNames[v.Kind]...); err != nil {
			return err
		}
		p := v.Printed()
		if v.Kind == "regex" && strings.Contains(p, `\/`) {
			p2 := "/" + strings.ReplaceAll(strings.TrimSuffix(strings.TrimPrefix(p, "/"), "/"), `\/`, `/`) + "/"
			if err := find("term", p, p2); err != nil {
				return err
			}
			continue
		}
		if strings.TrimSpace(p) == "" {
			continue
		}
		if err := find("term", p); err != nil {
			return err
		}
	}
	// no more types than terms
	extra := 0
	for _, c := range left {
		for _, ns := range typeNames {
			for _, nm := range ns {
				if c == nm {
					extra++
				}
			}
		}
	}
	if extra > 0 {
		return fmt.Errorf("more terms than written in %q", all)
	}
	return nil
}

// shape compares a drawing with the tree of the query.
func shape(d *dot, root *ref.Node) error {
	into := map[string]int{}
	outOf := map[string][]string{}
	for _, e := range d.edges {
		outOf[e[0]] = append(outOf[e[0]], e[1])
		into[e[1]]++
		for _, n := range e {
			if d.nodes[n] == nil {
				return fmt.Errorf("edge to or from unknown node %q", n)
			}
		}
	}
	var start []string
	for _, n := range d.order {
		if into[n] == 0 {
			start = append(start, n)
		}
	}
	if len(start) != 1 || len(outOf[start[0]]) != 1 {
		return fmt.Errorf("%d nodes without incoming edges, want one with one child", len(start))
	}
	used := 1
	var walk func(id string, n *ref.Node) error
	walk = func(id string, n *ref.Node) error {
		used++
		if into[id] != 1 {
			return fmt.Errorf("node %q has %d incoming edges", id, into[id])
		}
		var kids []*ref.Node
		if n.L != nil {
			kids = append(kids, n.L)
		}
		if n.R != nil {
			kids = append(kids, n.R)
		}
		label := d.nodes[id]["label"]
		if n.Kind == "expr" {
			if err := labelled(label, n); err != nil {
				return err
			}
		} else if label != n.Name() {
			return fmt.Errorf("node %q is labelled %q, want %q", id, label, n.Name())
		}
		if len(outOf[id]) != len(kids) {
			return fmt.Errorf("node %q has %d children, want %d", label, len(outOf[id]), len(kids))
		}
		for i, k := range kids {
			if err := walk(outOf[id][i], k); err != nil {
				return err
			}
		}
		return nil
	}
	if err := walk(outOf[start[0]][0], root); err != nil {
		return err
	}
	if used != len(d.nodes) {
		return fmt.Errorf("%d nodes, want %d", len(d.nodes), used)
	}
	return nil
}

// entity is what graphviz shows as another character.
var entity = regexp.MustCompile(`&#?\w+;`)

// Drawn judges a DOT file.
func Drawn(text, q string, root *ref.Node) error {
	d, err := parseDOT(text)
	if err != nil {
		return err
	}
	want := strings.TrimSpace(q)
	if t := strings.TrimSpace(strings.ReplaceAll(d.title, `\\`, `\`)); (t != want || entity.MatchString(want)) && html.UnescapeString(t) != want && !Control(q) {
		return fmt.Errorf("the graph is titled %q", d.title)
	}
	return shape(d, root)
}

func size(n *ref.Node) int {
	if n == nil {
		return 0
	}
	return 1 + size(n.L) + size(n.R)
}

// Picture judges an SVG file.
func Picture(text string, root *ref.Node) error {
	dec := xml.NewDecoder(strings.NewReader(text))
	dec.CharsetReader = func(_ string, r io.Reader) (io.Reader, error) { return r, nil }
	nodes, edges := 0, 0
	for {
		t, err := dec.Token()
		if err == io.EOF {
			break
		}
		if err != nil {
			return fmt.Errorf("not well-formed: %v", err)
		}
		if e, ok := t.(xml.StartElement); ok {
			for _, a := range e.Attr {
				if e.Name.Local == "g" && a.Name.Local == "class" {
					switch a.Value {
					case "node":
						nodes++
					case "edge":
						edges++
					}
				}
			}
		}
	}
	if n := size(root); nodes != n+1 || edges != n {
		return fmt.Errorf("%d nodes and %d edges, want %d and %d", nodes, edges, n+1, n)
	}
	return nil
}
