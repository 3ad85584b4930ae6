package checks

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"
	"unicode/utf16"
	"unicode/utf8"

	"github.com/flowchartsman/aql/parser"

	"verifharness/core"
	"verifharness/gen"
	"verifharness/ref"
)

type browserCase struct {
	Texts []Bytes `json:"texts"`
}

type browser struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

var theBrowser *browser

func newBrowser() *browser {
	b := &browser{cmd: exec.Command("node", filepath.Join(os.Getenv("VERIF_HARNESS"), "wasm", "host.js"), os.Getenv("VERIF_OUT"))}
	b.cmd.Stderr = os.Stderr
	in, err := b.cmd.StdinPipe()
	if err != nil {
		panic(core.Broken{Err: err})
	}
	out, err := b.cmd.StdoutPipe()
	if err != nil {
		panic(core.Broken{Err: err})
	}
	b.in, b.out = in, bufio.NewReaderSize(out, 1<<20)
	if err := b.cmd.Start(); err != nil {
		panic(core.Broken{Err: err})
	}
	return b
}

func (b *browser) end() {
	b.in.Close()
	b.cmd.Process.Kill()
	b.cmd.Wait()
}

type browserMsg struct {
	Type  string   `json:"type"`
	Msg   string   `json:"msg"`
	Start *float64 `json:"start"`
	End   *float64 `json:"end"`
}

type browserAnswer struct {
	Ready  bool   `json:"ready"`
	Dead   string `json:"dead"`
	Threw  string `json:"threw"`
	Length int    `json:"length"`
	Result *struct {
		AST      string       `json:"ast"`
		Messages []browserMsg `json:"messages"`
	} `json:"result"`
}

func (b *browser) read() (*browserAnswer, error) {
	line, err := b.out.ReadBytes('\n')
	if err != nil {
		return nil, fmt.Errorf("the program is gone: %v", err)
	}
	var a browserAnswer
	if err := json.Unmarshal(line, &a); err != nil {
		return nil, fmt.Errorf("answer %s: %v", short(string(line)), err)
	}
	return &a, nil
}

func units(s string) int { return len(utf16.Encode([]rune(s))) }

// rangeOf is where a token is in the string indexing of a browser.
func rangeOf(q string, p ref.Pos) [2]int {
	start := units(q[:p.Offset])
	tok := []rune(q[p.Offset:])
	return [2]int{start, start + len(utf16.Encode(tok[:min(p.Len, len(tok))]))}
}

func judgeBrowser(q string, a *browserAnswer, r *Rec) error {
	if a.Threw != "" || a.Dead != "" || a.Result == nil {
		return fmt.Errorf("no answer: threw %q, dead %q", a.Threw, a.Dead)
	}
	res := a.Result
	for _, m := range res.Messages {
		if m.Start == nil || m.End == nil {
			return fmt.Errorf("message %q without a range", m.Msg)
		}
		if s, e := *m.Start, *m.End; s < 0 || e < s || e > float64(a.Length) || s != float64(int(s)) || e != float64(int(e)) {
			return fmt.Errorf("message %q has the range %v to %v of %d", m.Msg, s, e, a.Length)
		}
	}
	span := func(m browserMsg) [2]int { return [2]int{int(*m.Start), int(*m.End)} }
	tree, err := parser.ParseQuery(q)
	if err != nil {
		pe := err.(*parser.ParseError)
		if res.AST != "" {
			return fmt.Errorf("a tree, though the native parser says %v", err)
		}
		if len(res.Messages) != 1 || res.Messages[0].Type != "error" {
			return fmt.Errorf("messages %+v, want one error", res.Messages)
		}
		m := res.Messages[0]
		if strings.HasPrefix(pe.Message(), "no match found") {
			r.Label("incomplete")
			if m.Msg != "incomplete query" {
				return fmt.Errorf("error %q for a syntax error", m.Msg)
			}
			// at the last character
			last := [2]int{a.Length, a.Length}
			if _, n := utf8.DecodeLastRuneInString(q); n > 0 {
				last[0] -= units(q[len(q)-n:])
			}
			if span(m) != last {
				return fmt.Errorf("the query is incomplete at %v, not %v", span(m), last)
			}
			return nil
		}
		r.Label("error")
		if m.Msg != pe.Message() {
			return fmt.Errorf("error %q, natively %q", m.Msg, pe.Message())
		}
		// an error about a term
		if rq := ref.Query(q); rq.OK {
			p := pe.Pos()
			for _, e := range rq.Root.Exprs() {
				for _, v := range append(e.Vals, &ref.Val{Pos: e.Pos}) {
					if samePos("", p, v.Pos) == nil && span(m) != rangeOf(q, v.Pos) {
						return fmt.Errorf("error %q has the range %v, but the term is at %v", m.Msg, span(m), rangeOf(q, v.Pos))
					}
				}
			}
		}
		return nil
	}
	r.Label("tree")
	var got, want any
	b, _ := json.Marshal(tree)
	if json.Unmarshal(b, &want) != nil {
		return core.ErrSkip
	}
	if json.Unmarshal([]byte(res.AST), &got) != nil || !reflect.DeepEqual(got, want) {
		return fmt.Errorf("tree %s, natively %s", short(res.AST), short(string(b)))
	}
	rq := ref.Query(q)
	if !rq.OK {
		return nil
	}
	for _, m := range res.Messages {
		if m.Type != "hint" && m.Type != "warning" {
			return fmt.Errorf("message %q of type %q for a query that is accepted", m.Msg, m.Type)
		}
		r.Label("message")
		kind := ""
		switch low := strings.ToLower(m.Msg); {
		case strings.Contains(low, "regular expression") || strings.Contains(low, `".*"`) || strings.Contains(low, "capturing") || strings.Contains(low, "alternation"):
			kind = "regex"
		case strings.Contains(low, "datetime"):
			kind = "timestamp"
		}
		found := false
		for _, e := range rq.Root.Exprs() {
			has := false
			for _, v := range e.Vals {
				if kind == "" || v.Kind == kind {
					has = true
					found = found || span(m) == rangeOf(q, v.Pos)
				}
			}
			// about the comparison as a whole
			if has && strings.Contains(m.Msg, "omparison") && span(m) == rangeOf(q, e.Pos) {
				found = true
			}
		}
		if !found {
			return fmt.Errorf("message %q has the range %v, where there is no such term", m.Msg, span(m))
		}
	}
	return judgeAdvice(q, rq.Root, res.Messages, r)
}

// judgeAdvice: the advice is that of the matcher on expressions and instants;
// what may be said about strings and days is not judged.
func judgeAdvice(q string, root *ref.Node, msgs []browserMsg, r *Rec) error {
	for _, e := range root.Exprs() {
		for _, v := range e.Vals {
			if v.Kind == "regex" && strings.HasSuffix(v.S, `\.*`) {
				return nil
			}
		}
	}
	at := map[[2]int]*ref.Val{}
	in := func(span [2]int) (int, *ref.Node) {
		for i, e := range root.Exprs() {
			if x := rangeOf(q, e.Pos); x[0] <= span[0] && span[1] <= x[1] {
				return i, e
			}
		}
		return -1, nil
	}
	// warnings are counted by comparison, hints by term
	var must, may []int
	hints := map[[2]int]int{}
	for _, e := range root.Exprs() {
		free := 0
		for _, v := range e.Vals {
			at[rangeOf(q, v.Pos)] = v
			if v.Kind == "string" && e.Op == "~" || v.Kind == "timestamp" && v.Day {
				free++
			}
		}
		must, may = append(must, 0), append(may, free)
	}
	var advice []ref.Advice
	for _, a := range ref.Advise(root) {
		if a.What == "sim-string" {
			continue
		}
		r.Label("advice " + a.What)
		advice = append(advice, a)
		span := rangeOf(q, a.Term.Pos)
		if a.Kind == "hint" {
			hints[span]++
			continue
		}
		i, _ := in(span)
		must[i]++
	}
	got := make([]int, len(must))
	var said []*parser.ParserMessage
	for _, m := range msgs {
		span := [2]int{int(*m.Start), int(*m.End)}
		i, e := in(span)
		if i < 0 {
			return fmt.Errorf("message %q has the range %v, which is in no comparison", m.Msg, span)
		}
		pm := &parser.ParserMessage{Type: parser.MsgWarning, Msg: m.Msg}
		pm.Position.Offset = e.Pos.Offset
		if v := at[span]; v != nil {
			pm.Position.Offset = v.Pos.Offset
		}
		if m.Type == "hint" {
			pm.Type = parser.MsgHint
			hints[span]--
		} else {
			got[i]++
		}
		said = append(said, pm)
	}
	for span, n := range hints {
		if n > 0 {
			return fmt.Errorf("%d hints are missing at %v: %+v", n, span, said)
		} else if n < 0 {
			return fmt.Errorf("%d hints too many at %v: %+v", -n, span, said)
		}
	}
	for i, n := range got {
		if n < must[i] || n > must[i]+may[i] {
			return fmt.Errorf("comparison %d has %d warnings, want %d: %+v", i, n, must[i], said)
		}
	}
	return quotes(said, advice)
}

// judgeParts: the advice is that for each comparison on its own.
func judgeParts(q string, a *browserAnswer, r *Rec) error {
	rq := ref.Query(q)
	if !rq.OK || len(rq.Root.Exprs()) < 2 {
		return nil
	}
	var want []string
	for _, e := range rq.Root.Exprs() {
		b, _ := json.Marshal(e.Src)
		theBrowser.in.Write(append(b, '\n'))
		p, err := theBrowser.read()
		if err != nil {
			return err
		}
		if p.Result == nil || p.Result.AST == "" {
			return fmt.Errorf("its part %q is not accepted", short(e.Src))
		}
		at := float64(units(q[:e.Pos.Offset]))
		for _, m := range p.Result.Messages {
			want = append(want, fmt.Sprint(m.Type, m.Msg, at+*m.Start, at+*m.End))
		}
	}
	var got []string
	for _, m := range a.Result.Messages {
		got = append(got, fmt.Sprint(m.Type, m.Msg, *m.Start, *m.End))
	}
	r.Label("messages in parts " + bucket(len(want)))
	if !reflect.DeepEqual(got, want) {
		return fmt.Errorf("messages %q, those of its comparisons are %q", got, want)
	}
	return nil
}

// browserText is something to be typed, mostly a query there is something to
// say about.
func browserText(g *gen.Gen, t *T) string {
	k := 4
	if t.P(4) {
		k = 40
	}
	q := g.Query(k, func() string {
		s := g.Clause()
		switch t.W(40, 40, 10, 10) {
		case 1:
			s = adviceClause(g, t)
		case 2:
			s = g.Quoted(core.Pick(t, []string{"😀", "é", "日本", "𝔘x"})) + ":" + core.Pick(t, []string{"<\"x\"", "(1,1)", "><(2,1)", "~5", "99999999999999999999", "(true,false)", "2020-13-01"})
		case 3:
			s = "a:\"😀𝔘é\" OR " + adviceClause(g, t)
		}
		return s
	})
	switch t.W(65, 25, 8, 2) {
	case 1:
		q = g.Mutate(q)
	case 2:
		q = g.Soup()
	case 3:
		q = core.Pick(t, []string{"", " ", "😀", "a", "a:", "a:1 AND ", "\n", strings.Repeat("(", 60), strings.Repeat("(", 60) + "a:1" + strings.Repeat(")", 60)})
	}
	if t.N(120) == 119 {
		long := strings.Repeat(core.Pick(t, []string{"x", "é", "😀", " ", "ab ", "*"}), 1+t.Size(9000))
		switch t.N(4) {
		case 0:
			q += " AND a:\"" + long + "\""
		case 1:
			q = "a:\"" + long + "\" OR " + q
		case 2:
			q += strings.Repeat(" ", len(long))
		case 3:
			q += " OR \"" + long + "\":/(" + "x)/"
		}
	}
	// a browser passes characters, not bytes
	return strings.ToValidUTF8(q, "?")
}

// tooDeep is true if a text may not fit the call stack the engine grants.
func tooDeep(q string) bool {
	return strings.Count(q, "(")+strings.Count(q, "!")+strings.Count(q, "NOT") > 80 || strings.Count(q, "AND")+strings.Count(q, "OR")+strings.Count(q, ",") > 500 || len(q) > 60000
}

func init() {
	core.AtEnd["C25"] = func() error {
		if theBrowser != nil {
			theBrowser.end()
		}
		return nil
	}
	core.Register(core.Check{ID: "C25", Quick: 10000, Thorough: 160000, MaxShrink: 300,
		Rule:   "A sequence of 1-8 texts (queries with advice, broken queries, soup, other scripts and characters outside the basic plane before the terms, empty text) passed to the WebAssembly program built from the tree and run in node, one program for all cases of a shard; answers are compared with the native parser, advice with that predicted from the independently parsed tree and that for each comparison on its own, and ranges with the independently parsed tree in UTF-16 units. Non-trivial: a text has a character that is not one UTF-16 unit and one byte.",
		Assume: []string{"node runs WebAssembly as a browser does"},
	}, func(t *T) *browserCase {
		g := gen.New(t, gen.Opts{MaxDepth: 2, OddKeys: t.P(50)})
		g.Doc()
		c := &browserCase{}
		for n := t.R(1, 8); n > 0; n-- {
			c.Texts = append(c.Texts, Bytes(browserText(g, t)))
		}
		return c
	}, func(c *browserCase, r *Rec) error {
		for _, q := range c.Texts {
			if !utf8.ValidString(string(q)) {
				return core.ErrSkip
			}
			if tooDeep(string(q)) {
				return core.ErrSkip
			}
		}
		if theBrowser == nil {
			theBrowser = newBrowser()
			a, err := theBrowser.read()
			if err != nil {
				panic(core.Broken{Err: err})
			}
			if !a.Ready {
				theBrowser.end()
				theBrowser = nil
				return fmt.Errorf("the program does not start: %s", a.Dead)
			}
		}
		for i, q := range c.Texts {
			b, _ := json.Marshal(string(q))
			theBrowser.in.Write(append(b, '\n'))
			a, err := theBrowser.read()
			if err == nil {
				err = judgeBrowser(string(q), a, r)
			}
			if err == nil && a.Result.AST != "" {
				err = judgeParts(string(q), a, r)
			}
			if err == core.ErrSkip {
				return err
			}
			if err != nil {
				// what follows starts anew
				theBrowser.end()
				theBrowser = nil
				return fmt.Errorf("text %d, %q: %v", i, short(string(q)), err)
			}
			if len(q) != units(string(q)) {
				r.NonTrivial()
			}
		}
		return nil
	})
}
