// Package checks holds one check per property.
package checks

import (
	"fmt"
	"strings"

	"github.com/flowchartsman/aql/jsonmatcher"
	"github.com/flowchartsman/aql/parser"

	"verifharness/core"
	"verifharness/gen"
	"verifharness/ref"
)

type (
	T     = core.T
	Rec   = core.Rec
	Bytes = core.Bytes
)

// MatchCase is queries against documents.
type MatchCase struct {
	Queries []Bytes `json:"queries"`
	Docs    []Bytes `json:"docs"`
}

func short(s string) string {
	if len(s) > 400 {
		return fmt.Sprintf("%s... (%d bytes)", s[:400], len(s))
	}
	return s
}

func matcher(q string) (*jsonmatcher.Matcher, error) {
	m, err := jsonmatcher.NewMatcher(q)
	if err != nil {
		return nil, err
	}
	if m == nil {
		return nil, fmt.Errorf("neither matcher nor error for %q", short(q))
	}
	return m, nil
}

// ask answers one query about one document with a new matcher.
func ask(q, doc string) (bool, error) {
	m, err := matcher(q)
	if err != nil {
		return false, fmt.Errorf("query %q rejected: %v", short(q), err)
	}
	r, err := m.Match([]byte(doc))
	if err != nil {
		return false, fmt.Errorf("document %q rejected: %v", short(doc), err)
	}
	return r, nil
}

// valid is the reference tree of a query which is well-formed and obeys the
// operator rules, or nil.
func valid(q string) *ref.Node {
	r := ref.Query(q)
	if !r.OK || r.Gray {
		return nil
	}
	if b, unsure := ref.AllRules(r.Root); b != nil || unsure {
		return nil
	}
	return r.Root
}

// againstRef compares answers with the reference; touch is told of each
// comparison that was decided by values.
func againstRef(c *MatchCase, r *Rec, only func(n *ref.Node, doc *ref.JV) bool, touch func(n *ref.Node, doc *ref.JV, got bool)) error {
	type parsed struct {
		v   *ref.JV
		src string
	}
	var docs []parsed
	for _, d := range c.Docs {
		v, ok, odd := ref.JSON([]byte(d))
		if !ok || odd {
			continue
		}
		docs = append(docs, parsed{v, string(d)})
	}
	used := false
	for _, q := range c.Queries {
		root := valid(string(q))
		if root == nil {
			continue
		}
		m, err := matcher(string(q))
		if err != nil {
			return fmt.Errorf("query %q rejected: %v", short(string(q)), err)
		}
		for _, d := range docs {
			if only != nil && !only(root, d.v) {
				continue
			}
			used = true
			got, err := m.Match([]byte(d.src))
			if err != nil {
				return fmt.Errorf("document %q rejected: %v", short(d.src), err)
			}
			want := ref.Match(root, d.v, nil)
			if got != want {
				return fmt.Errorf("query %q on document %q answers %v, want %v", short(string(q)), short(d.src), got, want)
			}
			r.Label(fmt.Sprintf("answer %v", got))
			if touch != nil {
				touch(root, d.v, got)
			}
		}
	}
	if !used {
		return core.ErrSkip
	}
	return nil
}

// genMatch makes documents, and queries of one clause each about them.
func genMatch(t *T, o gen.Opts, docs, queries int, clause func(*gen.Gen) string) *MatchCase {
	g := gen.New(t, o)
	c := &MatchCase{}
	for n := t.R(1, docs); n > 0; n-- {
		g.Doc()
	}
	for n := t.R(1, queries); n > 0; n-- {
		c.Queries = append(c.Queries, Bytes(clause(g)))
	}
	for _, v := range g.Roots {
		if o.Big && o.Terms[4] == 0 && t.N(1000) == 999 {
			v = g.Lengthen(v)
		}
		if o.Big && t.N(1500) == 1499 {
			v = g.Widen(v)
		}
		st := gen.Style{}
		if t.P(20) {
			st = gen.Style{Spaces: t.P(50), Escapes: t.P(50)}
		}
		c.Docs = append(c.Docs, Bytes(g.Render(v, st)))
	}
	return c
}

func parse(q string, opts ...parser.Option) (any, *parser.ParseError, error) {
	n, err := parser.ParseQuery(q, opts...)
	if err == nil {
		return n, nil, nil
	}
	pe, ok := err.(*parser.ParseError)
	if !ok {
		return nil, nil, fmt.Errorf("query %q: error of type %T: %v", short(q), err, err)
	}
	if n != nil {
		return nil, nil, fmt.Errorf("query %q: both a tree and an error: %v", short(q), err)
	}
	return nil, pe, nil
}

func hasAny(s, chars string) bool { return strings.ContainsAny(s, chars) }
