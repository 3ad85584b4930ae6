// Package graphcheck checks the drawing of queries. It is apart because it needs
// cgo and takes long to build.
package graphcheck

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	"github.com/flowchartsman/aql/aqlgraph"

	"verifharness/checks"
	"verifharness/core"
	"verifharness/drawing"
	"verifharness/gen"
	"verifharness/ref"
)

type drawCase struct {
	Query core.Bytes `json:"query"`
	SVG   bool       `json:"svg"`
	// More are further outputs of the same graph, true for SVG
	More []bool `json:"more,omitempty"`
}

// stderr returns what has been written to file descriptor 2 since the call.
func stderr() func() string {
	var a, b syscall.Stat_t
	if syscall.Fstat(2, &a) != nil || a.Mode&syscall.S_IFMT != syscall.S_IFREG {
		return func() string { return "" }
	}
	return func() string {
		syscall.Fstat(2, &b)
		if b.Size <= a.Size {
			return ""
		}
		buf := make([]byte, min(b.Size-a.Size, 4000))
		f, err := os.Open("/proc/self/fd/2")
		if err != nil {
			return ""
		}
		defer f.Close()
		n, _ := f.ReadAt(buf, a.Size)
		return string(buf[:n])
	}
}

func init() {
	core.Register(core.Check{ID: "C24", Quick: 30000, Thorough: 240000, MaxShrink: 400,
		Rule:   "A query of up to 8 (sometimes 40) clauses with terms and fields of every kind, markup characters, quotes, backslashes, any script, and queries that are damaged; drawn as DOT, and one in six as SVG, in a scratch directory; one graph in eight is written two or three times, in either form. The DOT text is read back and compared with the independently parsed tree, the SVG for well-formedness and number of nodes and edges; anything written to standard error is a warning. Non-trivial: the query has an operator, or a label needs escaping.",
		Assume: []string{"graphviz writes the graph it was given"},
	}, func(t *core.T) *drawCase {
		g := gen.New(t, gen.Opts{MaxDepth: 2, OddKeys: t.P(50), Big: t.P(50)})
		g.Doc()
		n := 8
		if t.P(3) {
			n = 40
		}
		q := g.Query(n, func() string {
			if t.P(30) {
				return g.Field(g.Path()) + ":" + g.Quoted(core.Pick(t, []string{"<b>", "</TABLE>", "&amp;", "&", "a < b > c", "\"", "\\", "\\N", "\\l", "\\G", "%s", "é & <日本>", "{|}", "'", "&#38;", "&#8;", "&#x41;", "&eacute;x", "<", ">", "]]>", "--", "<!--", "\\\\", "&lt;", "x\\", "{{.}}", "<TD>"})+core.Pick(t, []string{"", "", g.Phrase()}))
			}
			return g.Clause()
		})
		if t.P(10) {
			q = g.Mutate(q)
		}
		c := &drawCase{Query: core.Bytes(q), SVG: t.P(16)}
		if t.P(12) {
			for n := t.R(1, 2); n > 0; n-- {
				c.More = append(c.More, t.P(40))
			}
		}
		return c
	}, func(c *drawCase, r *core.Rec) error {
		q := string(c.Query)
		ok, why, unsure := checks.Accepts(q)
		if unsure {
			return core.ErrSkip
		}
		dir, err := os.MkdirTemp(os.Getenv("VERIF_OUT"), "draw")
		if err != nil {
			panic(core.Broken{Err: err})
		}
		defer os.RemoveAll(dir)
		said := stderr()
		g, err := aqlgraph.QueryGraph(q)
		if (g == nil) == (err == nil) {
			return fmt.Errorf("query %q: graph %v and error %v", q, g, err)
		}
		if !ok {
			if err == nil {
				return fmt.Errorf("query %q is drawn, though it is not a query (%s)", q, why)
			}
			r.Label("rejected")
			return nil
		}
		if err != nil {
			return fmt.Errorf("query %q: %v", q, err)
		}
		root := ref.Query(q).Root
		if root.Kind != "expr" || strings.ContainsAny(q, "<>&\\'") {
			r.NonTrivial()
		}
		for i, svg := range append([]bool{c.SVG}, c.More...) {
			path := filepath.Join(dir, fmt.Sprintf("g%d.out", i))
			if svg {
				err = g.OutputSVG(path)
			} else {
				err = g.OutputDOT(path)
			}
			if err != nil {
				return fmt.Errorf("query %q, output %d: %v", q, i+1, err)
			}
			if s := said(); s != "" {
				return fmt.Errorf("query %q, output %d: warning: %s", q, i+1, s)
			}
			b, err := os.ReadFile(path)
			if err != nil {
				return fmt.Errorf("query %q, output %d: %v", q, i+1, err)
			}
			if svg {
				r.Label("svg")
				if drawing.Control(q) {
					continue
				}
				err = drawing.Picture(string(b), root)
			} else {
				r.Label("dot")
				err = drawing.Drawn(string(b), q, root)
			}
			if err != nil {
				return fmt.Errorf("query %q, output %d: %v", q, i+1, err)
			}
		}
		return nil
	})
}
