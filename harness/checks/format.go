package checks

import (
	"bytes"
	"errors"
	"fmt"
	"html"
	"strconv"
	"strings"
	"text/template"
	"unicode/utf8"

	"github.com/flowchartsman/aql/parser"
	"github.com/flowchartsman/aql/parser/ast"
	"github.com/flowchartsman/aql/parser/fmtmsg"

	"verifharness/core"
	"verifharness/gen"
	"verifharness/ref"
)

type formatCase struct {
	Query Bytes    `json:"query"`
	Where string   `json:"where"` // term clause range end error none
	Nth   int      `json:"nth"`
	Len   int      `json:"len"`
	Kind  string   `json:"kind"` // error hint warning parse other
	Msg   string   `json:"msg"`
	Width int      `json:"width"`
	Parts []string `json:"parts"` // of a template
	HTML  bool     `json:"html"`
}

type otherMsg struct {
	p ast.Pos
	m string
}

func (o otherMsg) Pos() ast.Pos    { return o.p }
func (o otherMsg) Message() string { return o.m }

// shown is what a template may use.
type shown struct {
	Type, Message                       string
	HasHL                               bool
	HLLen, HLStrOffset                  int
	Query, QueryPre, QueryHL, QueryPost string
	lo, n                               int
}

// view is the model of what is shown of a query when the excerpt begins at lo.
func view(q []rune, w, lo, start, length int, has bool) shown {
	s := shown{HasHL: has, lo: lo, n: len(q)}
	ro := len(q)
	if w > 0 && has && len(q) > w {
		ro = lo + w
	}
	pre, post := "", ""
	if lo > 0 {
		pre = "..."
	}
	if ro < len(q) {
		post = "..."
	}
	s.Query = pre + string(q[lo:ro]) + post
	if !has {
		s.QueryPre = s.Query
		return s
	}
	end := min(start+length, ro)
	s.HLLen = max(end-start, 1)
	s.HLStrOffset = start - lo + len(pre)
	s.QueryPre = pre + string(q[lo:start])
	s.QueryHL = string(q[start:max(end, start)])
	s.QueryPost = string(q[max(end, start):ro]) + post
	return s
}

var allParts = []string{
	`{{.Type}}`, `{{.Message}}`, `{{.HasHL}}`, `{{.HLLen}}`, `{{.HLStrOffset}}`, `{{.Query}}`, `{{.QueryPre}}`, `{{.QueryHL}}`, `{{.QueryPost}}`,
	`{{toupper .Type}}`, `{{toupper .Message}}`, `{{if .HasHL}}{{pad .HLStrOffset}}|{{repeat "^" .HLLen}}{{end}}`, `{{.QueryPre}}{{.QueryHL}}{{.QueryPost}}`,
	`{{.QueryPre}}<b>{{.QueryHL}}</b>{{.QueryPost}}`, `{{if .HasHL}}yes{{else}}no{{end}}`, `{{if .QueryHL}}[{{.QueryHL}}]{{end}}`, `{{len .Query}}`, `{{printf "%q" .QueryHL}}`, `text`, `{{if eq .Type "error"}}E{{end}}`,
}

var modelFuncs = template.FuncMap{
	"pad":     func(n int) string { return strings.Repeat(" ", n) },
	"repeat":  strings.Repeat,
	"toupper": strings.ToUpper,
}

func init() {
	core.Register(core.Check{ID: "C23", Quick: 150000, Thorough: 1200000,
		Rule: "A query (well-formed, altered, soup; one or several lines; any script), a message about a clause, a term, any stretch of it, the place past its end, nothing, or its actual parse error, of every kind; a width limit of -1 to past its length; and 1-6 template parts, as text or HTML, as well as the terminal form. What is shown must be a view of the query at some excerpt that the property allows. Non-trivial: the message has a position and the query is cut.",
	}, func(t *T) *formatCase {
		g := gen.New(t, gen.Opts{MaxDepth: 2, OddKeys: t.P(30)})
		g.Doc()
		q := g.Query(4, nil)
		switch t.W(65, 20, 10, 5) {
		case 1:
			q = g.Mutate(q)
		case 2:
			q = g.Soup()
		case 3:
			q = strings.Repeat(q+" AND ", t.Size(8)) + q
		}
		if t.P(60) {
			q = strings.NewReplacer("\n", " ", "\r", " ").Replace(q)
		}
		c := &formatCase{Query: Bytes(q), Nth: t.N(64), Len: 1 + t.Size(40), Msg: g.Phrase()}
		c.Where = []string{"term", "clause", "range", "end", "error", "none"}[t.W(30, 15, 25, 10, 12, 8)]
		if c.Where == "error" && t.P(80) {
			q = g.Mutate(q)
			c.Query = Bytes(q)
		}
		c.Kind = []string{"error", "hint", "warning", "parse", "other"}[t.W(20, 25, 25, 25, 5)]
		n := utf8.RuneCountInString(q)
		switch t.W(50, 20, 15, 10, 5) {
		case 0:
			c.Width = t.R(1, max(n, 1))
		case 1:
			c.Width = t.R(1, 12)
		case 2:
			c.Width = max(0, n+t.R(-3, 3))
		case 3:
			c.Width = 0
		case 4:
			c.Width = core.Pick(t, []int{-1, 1 << 20, 80})
		}
		for k := t.R(1, 6); k > 0; k-- {
			c.Parts = append(c.Parts, core.Pick(t, allParts))
		}
		c.HTML = t.P(30)
		return c
	}, func(c *formatCase, r *Rec) error {
		q := string(c.Query)
		if !utf8.ValidString(q) {
			return core.ErrSkip
		}
		runes := []rune(q)
		pos := ast.NoPosition()
		var msg fmtmsg.Message
		at := func(off, length int) {
			line, col := ref.LineCol(q, off)
			pos = ast.Pos{Offset: off, Line: line, Col: col, Len: length}
		}
		token := func(p ref.Pos) { at(p.Offset, p.Len) }
		switch c.Where {
		case "term", "clause":
			res := ref.Query(q)
			if !res.OK {
				return core.ErrSkip
			}
			es := res.Root.Exprs()
			e := es[c.Nth%len(es)]
			token(e.Pos)
			if c.Where == "term" && len(e.Vals) > 0 {
				token(e.Vals[c.Len%len(e.Vals)].Pos)
			}
		case "range":
			if len(runes) == 0 {
				return core.ErrSkip
			}
			// spread over the whole text
			i := (c.Nth * len(runes) / 64) % len(runes)
			at(len(string(runes[:i])), min(max(c.Len, 1), len(runes)-i))
		case "end":
			at(len(q), 1)
		case "error":
			_, err := parser.ParseQuery(q)
			var pe *parser.ParseError
			if err == nil || !errors.As(err, &pe) {
				return core.ErrSkip
			}
			msg = pe
			pos = pe.Pos()
			if pos.Offset < 0 || pos.Offset > len(q) || pos.Len < 1 || pos.Len > max(1, utf8.RuneCountInString(q[pos.Offset:])) {
				return core.ErrSkip
			}
			if !utf8.RuneStart((q + "x")[pos.Offset]) {
				return core.ErrSkip
			}
		}
		text := c.Msg
		kind := "error"
		if msg == nil {
			switch c.Kind {
			case "parse":
				msg = &parser.ParseError{Position: pos, Msg: text}
			case "other":
				msg, kind = otherMsg{pos, text}, ""
			default:
				t := map[string]parser.MessageType{"error": parser.MsgError, "hint": parser.MsgHint, "warning": parser.MsgWarning}[c.Kind]
				msg = &parser.ParserMessage{Position: pos, Msg: text, Type: t}
				kind = map[string]string{"error": "error", "hint": "info", "warning": "warning"}[c.Kind]
			}
		}
		text = msg.Message()
		has := pos != ast.NoPosition()
		start, length := 0, 0
		if has {
			start, length = utf8.RuneCountInString(q[:pos.Offset]), pos.Len
		}
		// the excerpts allowed
		var views []shown
		add := func(lo int) {
			v := view(runes, c.Width, lo, start, length, has)
			v.Type, v.Message = kind, text
			views = append(views, v)
		}
		cut := has && c.Width > 0 && len(runes) > c.Width
		if !cut {
			add(0)
		} else {
			token := min(length, len(runes)-start)
			for lo := 0; lo+c.Width <= len(runes); lo++ {
				switch {
				case token == 0: // past the end
					if lo+c.Width == len(runes) {
						add(lo)
					}
				case token <= c.Width:
					if lo <= start && start+token <= lo+c.Width {
						add(lo)
					}
				case lo <= start && start < lo+c.Width:
					add(lo)
				}
			}
			r.NonTrivial()
		}
		r.Label(c.Where)

		// all parts at once decide on the excerpt
		full, err := fmtmsg.NewFormatter("{{.Type}}\n{{.HasHL}}\n{{.HLLen}}\n{{printf \"%q\" .Message}}\n{{printf \"%q\" .Query}}\n{{printf \"%q\" .QueryPre}}\n{{printf \"%q\" .QueryHL}}\n{{printf \"%q\" .QueryPost}}\n{{.HLStrOffset}}", false, c.Width)
		if err != nil {
			return err
		}
		out := full.WithQuery(q).Sprint(msg)
		f := strings.Split(out, "\n")
		describe := func(what string) error {
			return fmt.Errorf("query %q, message of type %q at %+v, width %d: %s", short(q), kind, pos, c.Width, what)
		}
		if len(f) != 9 {
			return describe(fmt.Sprintf("printed %q", short(out)))
		}
		unq := func(s string) string { u, _ := strconv.Unquote(s); return u }
		got := shown{Type: f[0], HasHL: f[1] == "true", Message: unq(f[3]), Query: unq(f[4]), QueryPre: unq(f[5]), QueryHL: unq(f[6]), QueryPost: unq(f[7])}
		got.HLLen, _ = strconv.Atoi(f[2])
		got.HLStrOffset, _ = strconv.Atoi(f[8])
		var fits *shown
		for i := range views {
			v := views[i]
			got.lo, got.n = v.lo, v.n
			if !has {
				// where nothing is marked the offset means nothing, and the text may be in any part
				got.HLStrOffset, v.HLStrOffset = 0, 0
				if got.QueryPre+got.QueryHL+got.QueryPost == v.Query && got.QueryHL == "" {
					v.QueryPre, v.QueryPost = got.QueryPre, got.QueryPost
				}
			}
			if got == v {
				fits = &views[i]
				break
			}
		}
		if fits == nil {
			want := "nothing"
			if len(views) > 0 {
				want = fmt.Sprintf("such as %+v", views[0])
			}
			return describe(fmt.Sprintf("shown %+v, want %s", got, want))
		}

		// a template of parts
		tmpl := strings.Join(c.Parts, "\n")
		fm, err := fmtmsg.NewFormatter(tmpl, c.HTML, c.Width)
		if err != nil {
			return fmt.Errorf("template %q rejected: %v", tmpl, err)
		}
		var buf bytes.Buffer
		fm.WithQuery(q).Fprint(&buf, msg)
		out = buf.String()
		if !has && (strings.Contains(tmpl, "QueryPre") || strings.Contains(tmpl, "QueryPost") || strings.Contains(tmpl, "HLStrOffset")) {
			// not determined
		} else {
			var want bytes.Buffer
			tmpl2 := tmpl
			if err := template.Must(template.New("").Funcs(modelFuncs).Parse(tmpl2)).Execute(&want, *fits); err != nil {
				return err
			}
			w := want.String()
			if c.HTML {
				for _, d := range []string{q, text} {
					if i := strings.IndexAny(d, "<>"); i >= 0 && strings.Count(out, "<") != strings.Count(tmpl, "<b>")+strings.Count(tmpl, "</b>") {
						return describe(fmt.Sprintf("template %q: not escaped: %q", tmpl, short(out)))
					}
				}
				out = html.UnescapeString(out)
				w = strings.ReplaceAll(w, "\x00", "�")
				if strings.Contains(q+text, "&") {
					// escaped text in the query itself
					w = html.UnescapeString(w)
					out = html.UnescapeString(out)
				}
			}
			if out != w {
				return describe(fmt.Sprintf("template %q prints %q, want %q", tmpl, short(out), short(w)))
			}
		}

		// the terminal form
		out = fmtmsg.NewTerminalFormatter(c.Width).WithQuery(q).Sprint(msg)
		head := strings.ToUpper(kind) + ": " + text
		if !strings.HasPrefix(strings.TrimLeft(out, "\n"), head) {
			return describe(fmt.Sprintf("terminal form %q does not begin with %q", short(out), short(head)))
		}
		body := strings.TrimPrefix(strings.TrimLeft(out, "\n"), head)
		if !has {
			if strings.Contains(body, "^") {
				return describe(fmt.Sprintf("terminal form %q marks something", short(out)))
			}
			return nil
		}
		// a line break, the query, and the line of carets
		lines := strings.TrimRight(strings.TrimPrefix(body, "\n"), "\n ")
		k := strings.LastIndex(lines, "\n")
		if k < 0 || !strings.HasPrefix(body, "\n") {
			return describe(fmt.Sprintf("terminal form %q has no line of carets", short(out)))
		}
		above, marker := lines[:k], lines[k+1:]
		carets := strings.TrimLeft(marker, " ")
		if carets != strings.Repeat("^", fits.HLLen) {
			return describe(fmt.Sprintf("terminal form %q marks %q, want %d carets", short(out), carets, fits.HLLen))
		}
		if !strings.HasSuffix(above, fits.Query) {
			return describe(fmt.Sprintf("terminal form %q does not show %q", short(out), short(fits.Query)))
		}
		indent := strings.TrimSuffix(above, fits.Query)
		if !strings.ContainsAny(fits.Query, "\n\r") && strings.Trim(indent, " ") == "" {
			if n := len(marker) - len(carets); n != len(indent)+fits.HLStrOffset {
				return describe(fmt.Sprintf("terminal form %q: carets begin at %d, want %d", short(out), n, len(indent)+fits.HLStrOffset))
			}
			r.Label("caret line")
		}
		return nil
	})
}
