package checks

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"strings"
	"unicode/utf8"

	"verifharness/core"
	"verifharness/gen"
)

type pageCase struct {
	Texts []Bytes `json:"texts"`
}

type page struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	// what was shown for the text before
	old []string
}

var thePage *page

type pageAnswer struct {
	Ready   bool   `json:"ready"`
	Lacking string `json:"lacking"` // what the page needs and the host does not have
	Failed  string `json:"failed"`  // an exception
	Asked   []struct {
		Text   string `json:"text"`
		Result *struct {
			AST      string       `json:"ast"`
			Messages []browserMsg `json:"messages"`
		} `json:"result"`
	} `json:"asked"`
	Marks    [][2]float64 `json:"marks"`
	Messages string       `json:"messages"` // text to be seen
	Styled   string       `json:"styled"`   // the same, and the names of the styles
	Output   string       `json:"output"`
}

func newPage() *page {
	out := os.Getenv("VERIF_OUT")
	p := &page{cmd: exec.Command("node", filepath.Join(os.Getenv("VERIF_HARNESS"), "wasm", "page.js"), out, filepath.Join(out, "site"))}
	p.cmd.Stderr = os.Stderr
	in, err := p.cmd.StdinPipe()
	if err != nil {
		panic(core.Broken{Err: err})
	}
	stdout, err := p.cmd.StdoutPipe()
	if err != nil {
		panic(core.Broken{Err: err})
	}
	p.in, p.out = in, bufio.NewReaderSize(stdout, 1<<20)
	if err := p.cmd.Start(); err != nil {
		panic(core.Broken{Err: err})
	}
	return p
}

func (p *page) end() {
	p.in.Close()
	p.cmd.Process.Kill()
	p.cmd.Wait()
}

func (p *page) read() (*pageAnswer, error) {
	line, err := p.out.ReadBytes('\n')
	if err != nil {
		return nil, fmt.Errorf("the page is gone: %v", err)
	}
	var a pageAnswer
	if err := json.Unmarshal(line, &a); err != nil {
		return nil, fmt.Errorf("answer %s: %v", short(string(line)), err)
	}
	return &a, nil
}

// squeezed is a text as a page shows it, whatever the white space.
func squeezed(s string) string { return strings.Join(strings.Fields(s), " ") }

func (p *page) judge(q string, a *pageAnswer, r *Rec) error {
	if a.Failed != "" {
		return fmt.Errorf("exception: %s", short(a.Failed))
	}
	old := p.old
	p.old = nil
	seen, output := squeezed(a.Messages), squeezed(a.Output)
	var messages []browserMsg
	tree := ""
	if q != "" {
		if len(a.Asked) == 0 {
			return fmt.Errorf("the parser was not asked")
		}
		last := a.Asked[len(a.Asked)-1]
		if last.Text != q {
			return fmt.Errorf("the parser was asked about %q", short(last.Text))
		}
		if last.Result == nil {
			return core.ErrSkip // C25
		}
		messages, tree = last.Result.Messages, squeezed(last.Result.AST)
	}
	rest := seen
	styled := squeezed(a.Styled)
	for i, m := range messages {
		msg := squeezed(m.Msg)
		p.old = append(p.old, msg)
		k := strings.Index(rest, msg)
		if k < 0 {
			return fmt.Errorf("message %d, %q, is not to be seen in its place: %q", i, short(m.Msg), short(seen))
		}
		rest = rest[k+len(msg):]
		// the kind is told in front of the message, in words or by the style
		if j := strings.Index(styled, msg); j >= 0 {
			if !strings.Contains(strings.ToLower(styled[:j]), m.Type) {
				return fmt.Errorf("message %d, %q, is not shown as %s: %q", i, short(m.Msg), m.Type, short(styled))
			}
			styled = styled[j+len(msg):]
		}
	}
	if len(messages) == 0 && seen != "" {
		return fmt.Errorf("there are no messages, but %q is shown", short(seen))
	}
	for _, msg := range old {
		if !slices.ContainsFunc(p.old, func(s string) bool { return strings.Contains(s, msg) }) && strings.Contains(seen, msg) {
			return fmt.Errorf("%q, of the text before, is still shown: %q", short(msg), short(seen))
		}
	}
	if output != tree && (output != "" || len(messages) == 0) {
		return fmt.Errorf("the tree is %q, shown is %q", short(tree), short(output))
	}
	if a.Marks == nil {
		r.Label("no marks")
	} else {
		want := [][2]float64{}
		for _, m := range messages {
			if m.Start != nil && m.End != nil {
				want = append(want, [2]float64{*m.Start, *m.End})
			}
		}
		byStart := func(a, b [2]float64) int { return slices.Compare(a[:], b[:]) }
		got := slices.Clone(a.Marks)
		slices.SortFunc(got, byStart)
		slices.SortFunc(want, byStart)
		if !slices.Equal(got, want) {
			return fmt.Errorf("marked is %v, the messages are about %v", got, want)
		}
	}
	r.Label("messages " + bucket(len(messages)))
	if len(messages) > 0 && (strings.Contains(seen, "<") || len(old) > 0) {
		r.NonTrivial()
	}
	return nil
}

func init() {
	core.AtEnd["C34"] = func() error {
		if thePage != nil {
			thePage.end()
		}
		return nil
	}
	core.Register(core.Check{ID: "C34", Quick: 6000, Thorough: 96000, MaxShrink: 300,
		Rule:   "A sequence of 1-8 texts as in C25, with markup in terms, fields and wrong values, typed one after the other into the demo page, which runs in node with the WebAssembly program built from the tree and a small document and library in place of those of a browser. What is to be seen after each text is compared with what the program answered. Non-trivial: there are messages, and they quote markup or follow others.",
		Assume: []string{"the document and library the page runs with behave like those of a browser; a page that uses more of them is not judged"},
	}, func(t *T) *pageCase {
		g := gen.New(t, gen.Opts{MaxDepth: 2, OddKeys: t.P(50)})
		g.Doc()
		c := &pageCase{}
		for n := t.R(1, 8); n > 0; n-- {
			q := browserText(g, t)
			if t.P(30) {
				m := core.Pick(t, []string{"<b>x</b>", "<i>", "</div>", "<img src=x>", "a<b", "&lt;", "&amp;", "<!--", "<script>f()</script>", "${x}", "\"><p>", "<br/>", "&#65;", "$&", "<"})
				q = core.Pick(t, []string{"a:/(%)/", "a:%", "a:/.*%/", "a:1 AND b:(%", "a:~/%/", "a:/%|x/", "a:(\"%\", \"%\")", "\"%\":>\"x\"", "a:\"%\"", "a:/%", "a:1 %", "a:(/%/,/%/)"})
				q = strings.ReplaceAll(q, "%", m)
			}
			c.Texts = append(c.Texts, Bytes(strings.ReplaceAll(q, "\r", " ")))
		}
		return c
	}, func(c *pageCase, r *Rec) error {
		for _, q := range c.Texts {
			if !utf8.ValidString(string(q)) || strings.Contains(string(q), "\r") || tooDeep(string(q)) {
				return core.ErrSkip
			}
		}
		if thePage == nil {
			thePage = newPage()
			a, err := thePage.read()
			if err != nil {
				panic(core.Broken{Err: err})
			}
			if !a.Ready && a.Lacking == "" {
				thePage.end()
				thePage = nil
				return fmt.Errorf("the page does not start: %s", short(a.Failed))
			}
			if a.Lacking != "" {
				r.Label("not judged, needs " + a.Lacking)
				thePage.end()
				thePage = nil
				return nil
			}
		}
		for i, q := range c.Texts {
			b, _ := json.Marshal(string(q))
			thePage.in.Write(append(b, '\n'))
			a, err := thePage.read()
			if err == nil && a.Lacking != "" {
				r.Label("not judged, needs " + a.Lacking)
				return nil
			}
			if err == nil {
				err = thePage.judge(string(q), a, r)
			}
			if err == core.ErrSkip {
				return err
			}
			if err != nil {
				thePage.end()
				thePage = nil
				return fmt.Errorf("text %d, %q: %v", i, short(string(q)), err)
			}
		}
		return nil
	})
}
