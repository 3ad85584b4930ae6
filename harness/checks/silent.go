package checks

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sync"
	"syscall"

	"github.com/flowchartsman/aql/jsonmatcher"
	"github.com/flowchartsman/aql/parser"
	"github.com/flowchartsman/aql/parser/fmtmsg"
	"github.com/flowchartsman/aql/sampler"

	"verifharness/core"
	"verifharness/gen"
)

type silentCase struct {
	Query Bytes   `json:"query"`
	Docs  []Bytes `json:"docs"`
	Depth int     `json:"depth"` // of the sampler
	Width int     `json:"width"` // of printed messages
	Debug bool    `json:"debug"`
}

var silentFile = sync.OnceValue(func() *os.File {
	f, err := os.OpenFile(filepath.Join(scratch(), "printed"), os.O_RDWR|os.O_CREATE|os.O_APPEND, 0o600)
	if err != nil {
		panic(core.Broken{Err: err})
	}
	return f
})

// printed is what is written to standard output and standard error in the
// meantime.
func printed(do func()) []byte {
	f := silentFile()
	must := func(err error) {
		if err != nil {
			panic(core.Broken{Err: err})
		}
	}
	must(f.Truncate(0))
	var kept [2]int
	for i := range kept {
		var err error
		kept[i], err = syscall.Dup(i + 1)
		must(err)
		syscall.CloseOnExec(kept[i])
	}
	func() {
		defer func() {
			for i := range kept {
				must(syscall.Dup3(kept[i], i+1, 0))
				syscall.Close(kept[i])
			}
		}()
		for i := range kept {
			must(syscall.Dup3(int(f.Fd()), i+1, 0))
		}
		do()
	}()
	st, err := f.Stat()
	must(err)
	text := make([]byte, min(st.Size(), 2000))
	if len(text) > 0 {
		_, err = f.ReadAt(text, 0)
		must(err)
	}
	return text
}

func init() {
	core.Register(core.Check{ID: "C33", Quick: 16000, Thorough: 320000,
		Rule:   "A query of 1-5 clauses of every kind, whole or altered, and 0-3 documents, whole or damaged: it is parsed, made into a matcher, asked about the documents, its messages and errors are printed, and the documents are sampled, while standard output and standard error lead to a file that must stay empty. A fifth of the queries are parsed again with debugging and must give the same tree, positions or error. Non-trivial: a document was matched, or the query was parsed with debugging.",
		Assume: []string{"what the library prints goes through file descriptors 1 and 2"},
	}, func(t *T) *silentCase {
		g := gen.New(t, gen.Opts{MaxDepth: core.Pick(t, []int{3, 3, 6}), OddKeys: t.P(30), Big: t.P(30)})
		c := &silentCase{Depth: t.R(-1, 4), Width: t.R(0, 40), Debug: t.P(20)}
		for n := t.R(0, 3); n > 0; n-- {
			g.Doc()
		}
		c.Query = Bytes(g.Query(5, nil))
		switch t.W(70, 20, 10) {
		case 1:
			c.Query = Bytes(g.Mutate(string(c.Query)))
		case 2:
			c.Query = Bytes(g.Query(3, func() string {
				if t.P(50) {
					return adviceClause(g, t)
				}
				return g.AnyClause()
			}))
		}
		for _, v := range g.Roots {
			d := g.Render(v, gen.Style{Escapes: t.P(30)})
			if t.P(20) && len(d) > 0 {
				d = d[:t.N(len(d))]
			}
			c.Docs = append(c.Docs, Bytes(d))
		}
		return c
	}, func(c *silentCase, r *Rec) error {
		q := string(c.Query)
		var used []string
		text := printed(func() {
			p := fmtmsg.NewTerminalFormatter(c.Width).WithQuery(q)
			m, err := jsonmatcher.NewMatcher(q)
			if pe, ok := err.(*parser.ParseError); ok {
				_ = p.Sprint(pe) + pe.Error()
				used = append(used, "rejected query")
			}
			if err == nil {
				used = append(used, "query")
				for _, x := range m.Messages() {
					_ = p.Sprint(x) + x.String()
					used = append(used, "message")
				}
			}
			s := sampler.New(c.Depth)
			for _, d := range c.Docs {
				if err == nil {
					m.Match([]byte(d))
					r.NonTrivial()
					used = append(used, "match")
				}
				if s.Sample([]byte(d)) != nil {
					used = append(used, "rejected sample")
				}
			}
			s.Keys()
			s.KeysAtThreshold(50)
			s.Reset()
			if err == nil {
				json.Marshal(m.Stats())
			}
		})
		for _, u := range used {
			r.Label(u)
		}
		if len(text) > 0 {
			return fmt.Errorf("query %q and documents %q print %q", short(q), c.Docs, short(string(text)))
		}
		if !c.Debug {
			return nil
		}
		a, aerr := parser.ParseQuery(q)
		b, berr := a, aerr
		text = printed(func() { b, berr = parser.ParseQuery(q, parser.Debug()) })
		r.NonTrivial()
		r.Label("debugging")
		if len(text) == 0 {
			return fmt.Errorf("query %q: debugging prints nothing", short(q))
		}
		if (aerr == nil) != (berr == nil) || isNil(a) != isNil(b) {
			return fmt.Errorf("query %q gives %v, with debugging %v", short(q), aerr, berr)
		}
		x, _ := json.Marshal([]any{a, aerr})
		y, _ := json.Marshal([]any{b, berr})
		if string(x) != string(y) || aerr != nil && aerr.Error() != berr.Error() {
			return fmt.Errorf("query %q gives %s, with debugging %s", short(q), x, y)
		}
		if aerr == nil {
			if root := valid(q); root != nil {
				if err := sameTree(b, root, true, true); err != nil {
					return fmt.Errorf("query %q with debugging: %v", short(q), err)
				}
			}
		}
		return nil
	})
}
