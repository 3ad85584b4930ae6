package checks

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/flowchartsman/aql/parser"
	"github.com/flowchartsman/aql/parser/fmtmsg"

	"verifharness/core"
	"verifharness/drawing"
	"verifharness/gen"
	"verifharness/ref"
)

type cliCase struct {
	Tool  string `json:"tool"` // match graph
	Query Bytes  `json:"query"`
	File  string `json:"file"` // name of the query file, if any
	Doc   Bytes  `json:"doc"`
	Name  string `json:"name"`          // of the document or output file
	Pad   int    `json:"pad,omitempty"` // blanks after the document
	Miss  string `json:"miss"`          // what is missing: "", query, doc, args, dir, fresh
}

type ran struct {
	code     int
	out, err string
}

func runTool(dir, tool string, args ...string) ran {
	cmd := exec.Command(filepath.Join(os.Getenv("VERIF_OUT"), tool), args...)
	cmd.Dir = dir
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	var x *exec.ExitError
	if err != nil && !errors.As(err, &x) {
		panic(core.Broken{Err: err})
	}
	return ran{cmd.ProcessState.ExitCode(), o.String(), e.String()}
}

func scratch() string {
	dir, err := os.MkdirTemp(os.Getenv("VERIF_OUT"), "cli")
	if err != nil {
		panic(core.Broken{Err: err})
	}
	return dir
}

func put(path, text string) {
	if err := os.WriteFile(path, []byte(text), 0o644); err != nil {
		panic(core.Broken{Err: err})
	}
}

// failed: an error, no answer, non-zero exit.
func failedRun(x ran, why string) error {
	if x.code == 0 {
		return fmt.Errorf("%s, but exit status 0; printed %q", why, short(x.out+x.err))
	}
	if strings.TrimSpace(x.err) == "" && strings.TrimSpace(x.out) == "" {
		return fmt.Errorf("%s, but no error is printed", why)
	}
	if strings.Contains(x.err, "goroutine ") && strings.Contains(x.err, "panic") {
		return fmt.Errorf("%s: crash: %s", why, short(x.err))
	}
	for _, l := range strings.Split(x.out, "\n") {
		if l == "true" || l == "false" {
			return fmt.Errorf("%s, but an answer is printed: %q", why, short(x.out))
		}
	}
	return nil
}

// shows: the messages are printed as the terminal formatter shows them, in order.
func shows(x ran, query string, messages ...fmtmsg.Message) error {
	p := fmtmsg.NewTerminalFormatter(0).WithQuery(query)
	rest := x.err
	for _, m := range messages {
		text := strings.TrimSpace(p.Sprint(m))
		i := strings.Index(rest, text)
		if i < 0 {
			return fmt.Errorf("message %q is not printed in its place: %q", short(text), short(x.err))
		}
		rest = rest[i+len(text):]
	}
	return nil
}

func cliMatch(c *cliCase, dir string, r *Rec) error {
	q, d := string(c.Query), string(c.Doc)+strings.Repeat(" ", c.Pad)
	put(filepath.Join(dir, c.Name), d)
	arg := q
	if c.File != "" {
		put(filepath.Join(dir, c.File), q)
		arg = c.File
	}
	args := []string{arg, c.Name}
	switch c.Miss {
	case "query":
		return failedRun(runTool(dir, "aqltest", "missing.aql", c.Name), "query file missing")
	case "doc":
		args[1] = "missing.json"
	case "args":
		return failedRun(runTool(dir, "aqltest", args[:1]...), "document argument missing")
	}
	x := runTool(dir, "aqltest", args...)
	m, err := matcher(q)
	if err != nil {
		r.Label("bad query")
		if err := failedRun(x, fmt.Sprintf("query is bad (%v)", err)); err != nil {
			return err
		}
		if perr, ok := err.(*parser.ParseError); ok {
			return shows(x, q, perr)
		}
		return nil
	}
	if c.Miss == "doc" {
		return failedRun(x, "document is missing")
	}
	want, err := m.Match([]byte(d))
	if err != nil {
		r.Label("bad document")
		return failedRun(x, fmt.Sprintf("document is bad (%v)", err))
	}
	var advice []fmtmsg.Message
	for _, a := range m.Messages() {
		advice = append(advice, a)
		r.Label("advice")
	}
	if err := shows(x, q, advice...); err != nil {
		return err
	}
	if x.code != 0 {
		return fmt.Errorf("exit status %d: %s", x.code, short(x.err))
	}
	first, rest, _ := strings.Cut(x.out, "\n")
	if first != fmt.Sprint(want) {
		return fmt.Errorf("printed %q, but the library answers %v", first, want)
	}
	r.Label("answer " + first)
	var got, stats any
	if err := json.Unmarshal([]byte(rest), &got); err != nil {
		return fmt.Errorf("statistics %q: %v", short(rest), err)
	}
	b, _ := json.Marshal(m.Stats())
	json.Unmarshal(b, &stats)
	if !reflect.DeepEqual(got, stats) {
		return fmt.Errorf("statistics %s, but the library says %s", short(rest), short(string(b)))
	}
	return nil
}

func cliGraph(c *cliCase, dir string, r *Rec) error {
	q := string(c.Query)
	args := []string{q}
	name := "query_graph.svg"
	if c.Name != "" {
		args = append(args, c.Name)
		name = c.Name
	}
	if c.Miss == "args" {
		return failedRun(runTool(dir, "aqlgraph"), "query argument missing")
	}
	path := filepath.Join(dir, name)
	switch c.Miss {
	case "dir": // there is a folder of that name
		if err := os.Mkdir(path, 0o755); err != nil {
			panic(core.Broken{Err: err})
		}
	case "fresh": // there is a file of that name
		put(path, string(c.Doc))
	}
	x := runTool(dir, "aqlgraph", args...)
	b, rerr := os.ReadFile(path)
	if c.Miss == "fresh" && rerr == nil && string(b) == string(c.Doc) {
		rerr = os.ErrNotExist
	}
	ok, _, unsure := Accepts(q)
	if unsure {
		return core.ErrSkip
	}
	ext := strings.ToLower(filepath.Ext(name))
	switch {
	case !ok:
		r.Label("graph of bad query")
		if rerr == nil {
			return fmt.Errorf("file written for a bad query")
		}
		return failedRun(x, "query is bad")
	case ext != ".svg" && ext != ".dot":
		r.Label("unknown format")
		return failedRun(x, "format is unknown")
	case c.Miss == "dir" || strings.Contains(name, "/"):
		r.Label("no place for the file")
		return failedRun(x, "the file cannot be written")
	}
	if x.code != 0 || rerr != nil {
		return fmt.Errorf("exit status %d, file %v: %s", x.code, rerr, short(x.err))
	}
	r.Label("graph")
	root := ref.Query(q).Root
	if ext == ".dot" {
		return drawing.Drawn(string(b), q, root)
	}
	if hasControl(q) {
		return nil
	}
	return drawing.Picture(string(b), root)
}

func hasControl(s string) bool {
	for _, r := range s {
		if r < ' ' || r >= 0x7f && r < 0xa0 || r == 0xFFFE || r == 0xFFFF || r == 0xFFFD {
			return true
		}
	}
	return false
}

func init() {
	core.Register(core.Check{ID: "C26", Quick: 6000, Thorough: 40000, MaxShrink: 250,
		Rule: "A run of one of the tools, built from the tree, in a scratch directory: the match tool with a query given as text or in a file, and a document that is valid, damaged or missing; the graph tool with a query and an output name of every format and letter case, an unknown format, or none, sometimes with a file or folder of that name already there, or in a folder that is not. Output, messages printed, exit status and files are compared with the library. Non-trivial: the match tool answers, or the graph tool writes a file.",
	}, func(t *T) *cliCase {
		g := gen.New(t, gen.Opts{MaxDepth: 2, OddKeys: t.P(30), Big: t.P(20)})
		v := g.Doc()
		c := &cliCase{Tool: "match", Name: core.Pick(t, []string{"doc.json", "d", "my doc.json", "x.aql", "é.json", "-d"})}
		q := g.Query(5, func() string {
			if t.P(10) {
				return adviceClause(g, t)
			}
			if t.P(6) {
				return core.Pick(t, []string{"a.aql:exists", `a:"x.aql"`, `a:/x.aql/`, `".aql":null`, `a:"doc.json"`, `a:("q.aql", 1)`, "aql:1", `a:"-h"`, "a.aql.b:1", `"--":exists`})
			}
			return g.Clause()
		})
		if t.P(15) {
			q = g.Mutate(q)
		}
		c.Doc = Bytes(g.Render(v, gen.Style{Spaces: t.P(30), Escapes: t.P(20)}))
		if t.P(12) {
			c.Doc = Bytes(genRawDoc(t, g))
		} else if t.P(8) {
			c.Pad = t.R(3000, 5000)
			if t.P(50) {
				c.Pad = bulk(t) / 8
			}
		}
		if t.P(35) {
			c.File = core.Pick(t, []string{"q.aql", ".aql", "my query.aql", "./q.aql", "a:1.aql", "é.aql"})
			if t.P(30) {
				q = "\n" + q + "\n"
			}
		}
		if t.P(8) {
			c.Miss = core.Pick(t, []string{"query", "doc", "args"})
		}
		if t.P(25) {
			c.Tool, c.File, c.Doc = "graph", "", ""
			c.Name = core.Pick(t, []string{"", "g.svg", "g.dot", "G.SVG", "g.Dot", "my g.dot", "g.png", "g", "g.dot.svg", "g.svg.dot", ".svg", "g.", "svg", "g.pdf", "g.svgz", "é.dot"})
			switch {
			case c.Miss == "args":
			case c.Miss != "":
				c.Miss = "dir"
				if c.Name == "" {
					c.Name = "d.svg"
				}
			case t.P(4):
				c.Name = core.Pick(t, []string{"none/g.svg", "none/g.dot", "./none/none/g.dot"})
			case t.P(10) && c.Name != "":
				c.Miss, c.Doc = "fresh", Bytes("old text"+strings.Repeat(" and more", t.R(0, 4000)))
			}
		}
		c.Query = Bytes(q)
		return c
	}, func(c *cliCase, r *Rec) error {
		if c.File == "" && (strings.Contains(string(c.Query), "\x00") || strings.HasSuffix(string(c.Query), ".aql")) {
			return core.ErrSkip
		}
		if c.File != "" && c.File == c.Name {
			return core.ErrSkip
		}
		dir := scratch()
		defer os.RemoveAll(dir)
		var err error
		if c.Tool == "graph" {
			err = cliGraph(c, dir, r)
		} else {
			err = cliMatch(c, dir, r)
		}
		if err == core.ErrSkip {
			return err
		}
		if err != nil {
			return fmt.Errorf("%s tool, query %q, document %q, file %q: %v", c.Tool, short(string(c.Query)), short(string(c.Doc)), c.Name, err)
		}
		if c.Miss == "" {
			if ok, _, _ := Accepts(string(c.Query)); ok && (c.Tool == "graph" || json.Valid([]byte(c.Doc))) {
				r.NonTrivial()
			}
		}
		return nil
	})
}
