package checks

import (
	"errors"
	"fmt"
	"regexp/syntax"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/flowchartsman/aql/parser"
	"github.com/flowchartsman/aql/parser/ast"

	"verifharness/core"
	"verifharness/gen"
	"verifharness/ref"
)

// C17

type note struct {
	Type string `json:"type"` // hint warning error
	How  string `json:"how"`  // plain with at
	Msg  string `json:"msg"`
}

// act is what a visitor does on its At-th call.
type act struct {
	At    int    `json:"at"`
	Notes []note `json:"notes,omitempty"`
	Ret   string `json:"ret"` // "" skip skipall error parse
	Msg   string `json:"msg,omitempty"`
}

type visitor struct {
	Tape bool  `json:"tape"`
	Acts []act `json:"acts"`
}

type visitCase struct {
	Query    Bytes     `json:"query"`
	Visitors []visitor `json:"visitors"`
	Together bool      `json:"together"` // in one option or one each
	Twice    bool      `json:"twice"`
	Again    []int     `json:"again,omitempty"` // visitors also given a second time, after the others
}

// Preorder lists the nodes of a tree, parents first.
func Preorder(n *ref.Node, out *[]*ref.Node) {
	if n == nil {
		return
	}
	*out = append(*out, n)
	Preorder(n.L, out)
	Preorder(n.R, out)
}

func nodePos(n ast.Node, q string, k int) ast.Pos {
	if e, ok := n.(*ast.ExprNode); ok {
		return e.Pos()
	}
	off := k % (len(q) + 1)
	for off > 0 && off < len(q) && !utf8.RuneStart(q[off]) {
		off--
	}
	line, col := ref.LineCol(q, off)
	return ast.Pos{Line: line, Col: col, Offset: off, Len: 1}
}

type at struct{ p ast.Pos }

func (a at) Pos() ast.Pos { return a.p }

type seenMsg struct {
	t   parser.MessageType
	pos ast.Pos
	msg string
}

// runVisit executes a visitor program and compares it with the model.
func runVisit(c *visitCase, root *ref.Node, r *Rec) error {
	q := string(c.Query)
	type state struct {
		calls []ast.Node
		want  []seenMsg
	}
	states := make([]*state, len(c.Visitors))
	impl := make([]parser.Visitor, len(c.Visitors))
	var returned error
	custom := fmt.Errorf
	for i, v := range c.Visitors {
		st := &state{}
		states[i] = st
		acts := map[int]act{}
		for _, a := range v.Acts {
			acts[a.At] = a
		}
		body := func(n ast.Node, tape *parser.MessageTape) error {
			k := len(st.calls)
			st.calls = append(st.calls, n)
			a, ok := acts[k]
			if !ok {
				return nil
			}
			p := nodePos(n, q, k)
			if tape != nil {
				for _, m := range a.Notes {
					s := seenMsg{msg: m.Msg, pos: p}
					switch m.Type {
					case "hint":
						s.t = parser.MsgHint
					case "warning":
						s.t = parser.MsgWarning
					default:
						s.t = parser.MsgError
					}
					if m.How == "plain" {
						s.pos = ast.NoPosition()
					}
					st.want = append(st.want, s)
					switch m.Type + m.How {
					case "hintplain":
						tape.Hint("%s", m.Msg)
					case "hintwith":
						tape.HintWith(at{p}, "%s", m.Msg)
					case "hintat":
						tape.HintAt(p, "%s", m.Msg)
					case "warningplain":
						tape.Warning("%s", m.Msg)
					case "warningwith":
						tape.WarningWith(at{p}, "%s", m.Msg)
					case "warningat":
						tape.WarningAt(p, "%s", m.Msg)
					case "errorplain":
						tape.Error("%s", m.Msg)
					case "errorwith":
						tape.ErrorWith(at{p}, "%s", m.Msg)
					case "errorat":
						tape.ErrorAt(p, "%s", m.Msg)
					}
				}
			}
			switch a.Ret {
			case "skip":
				return parser.Skip
			case "skipall":
				return parser.SkipAll
			case "error":
				return custom("%s", a.Msg)
			case "parse":
				if k%2 == 0 {
					return parser.ErrorAt(p, a.Msg)
				}
				return parser.ErrorWith(at{p}, a.Msg)
			}
			return nil
		}
		if v.Tape {
			impl[i] = parser.NewMessageVisitor(body)
		} else {
			impl[i] = parser.VisitorFunc(func(n ast.Node) error { return body(n, nil) })
		}
	}
	var order []int
	for i := range impl {
		order = append(order, i)
	}
	for _, i := range c.Again {
		if i >= 0 && i < len(impl) {
			order = append(order, i)
		}
	}
	var opts []parser.Option
	var given []parser.Visitor
	for _, i := range order {
		given = append(given, impl[i])
		opts = append(opts, parser.Visitors(impl[i]))
	}
	if c.Together {
		opts = []parser.Option{parser.Visitors(given...)}
	}
	tree, err := parser.ParseQuery(q, opts...)
	_ = returned

	// the model
	failed := -1
	var why act
	var whyPos ast.Pos
	whyKind := ""
	// a visitor given again goes on counting its calls
	wants, nths := make([][]*ref.Node, len(impl)), make([]int, len(impl))
	for turn, i := range order {
		v := c.Visitors[i]
		acts := map[int]act{}
		for _, a := range v.Acts {
			acts[a.At] = a
		}
		want := wants[i]
		firstErr := -1
		stop := false
		nth := nths[i]
		var walk func(n *ref.Node)
		walk = func(n *ref.Node) {
			if n == nil || stop {
				return
			}
			a := acts[len(want)]
			k := len(want)
			want = append(want, n)
			if v.Tape {
				for _, m := range a.Notes {
					if m.Type == "error" && firstErr < 0 {
						firstErr = nth
					}
					nth++
				}
			}
			switch a.Ret {
			case "skip":
				return
			case "skipall":
				stop = true
				return
			case "error", "parse":
				stop = true
				failed, why, whyKind = i, a, a.Ret
				if k < len(states[i].calls) {
					whyPos = nodePos(states[i].calls[k], q, k)
				}
				return
			}
			walk(n.L)
			walk(n.R)
		}
		walk(root)
		wants[i], nths[i] = want, nth
		st := states[i]
		again := false
		for _, j := range order[turn+1:] {
			again = again || j == i
		}
		calls := st.calls
		if again && len(calls) > len(want) {
			calls = calls[:len(want)]
		}
		if len(calls) != len(want) {
			return fmt.Errorf("query %q: visitor %d was called %d times, want %d", short(q), i, len(calls), len(want))
		}
		for j, n := range want {
			if err := sameTree(st.calls[j], n, true, false); err != nil {
				return fmt.Errorf("query %q: visitor %d, call %d: %v", short(q), i, j, err)
			}
		}
		if mv, ok := impl[i].(*parser.MessageVisitor); ok {
			got := mv.Messages()
			if len(got) != len(st.want) || !again && len(got) != nth {
				return fmt.Errorf("query %q: visitor %d has %d messages, want %d", short(q), i, len(got), nth)
			}
			for j, m := range got {
				w := st.want[j]
				if m.Type != w.t || m.Pos() != w.pos || m.Message() != w.msg {
					return fmt.Errorf("query %q: visitor %d, message %d is %v at %+v, want %q of type %d at %+v", short(q), i, j, m, m.Pos(), w.msg, w.t, w.pos)
				}
			}
		}
		if failed < 0 && firstErr >= 0 {
			failed, whyKind = i, "recorded"
			why.Msg, whyPos = st.want[firstErr].msg, st.want[firstErr].pos
		}
		if failed >= 0 {
			break
		}
	}
	r.Label("outcome " + whyKind)
	if failed < 0 {
		if err != nil {
			return fmt.Errorf("query %q: parse fails with %v, though no visitor failed", short(q), err)
		}
		if err := sameTree(tree, root, true, false); err != nil {
			return fmt.Errorf("query %q: %v", short(q), err)
		}
		return nil
	}
	if err == nil {
		return fmt.Errorf("query %q: parse succeeds, though visitor %d failed with %q", short(q), failed, why.Msg)
	}
	if !isNil(tree) {
		return fmt.Errorf("query %q: both a tree and an error", short(q))
	}
	if whyKind == "error" {
		if !strings.Contains(err.Error(), why.Msg) {
			return fmt.Errorf("query %q: parse fails with %q, want the error %q", short(q), err, why.Msg)
		}
		return nil
	}
	var pe *parser.ParseError
	if !errors.As(err, &pe) || pe.Message() != why.Msg || pe.Pos() != whyPos {
		return fmt.Errorf("query %q: parse fails with %q, want %q at %+v", short(q), err, why.Msg, whyPos)
	}
	return nil
}

func init() {
	core.Register(core.Check{ID: "C17", Quick: 60000, Thorough: 800000,
		Rule: "A query of up to 8 (sometimes 150) clauses and 1-3 visitors, some of them given twice, each a program of what to do on which call: return nothing, skip, skip all, an error or a parse error, and record hints, warnings and errors (sometimes hundreds) with or without position; calls, messages and outcome are predicted by walking the independently parsed tree. Non-trivial: some visitor skips, fails or records a message.",
	}, func(t *T) *visitCase {
		g := gen.New(t, gen.Opts{MaxDepth: 2, Big: true})
		g.Doc()
		c := &visitCase{Query: Bytes(g.Query(8, nil)), Together: t.P(50), Twice: t.P(20)}
		nodes := 1
		if root := valid(string(c.Query)); root != nil {
			var all []*ref.Node
			Preorder(root, &all)
			nodes = len(all)
		}
		id := 0
		for n := t.R(1, 3); n > 0; n-- {
			v := visitor{Tape: t.P(65)}
			for k := t.W(10, 40, 25, 15, 10); k > 0; k-- {
				a := act{At: t.N(nodes)}
				a.Ret = []string{"", "skip", "skipall", "error", "parse"}[t.W(50, 22, 10, 8, 10)]
				id++
				a.Msg = fmt.Sprintf("no. %d %s", id, core.Pick(t, []string{"", "100%", "%d%s", "é", "a:b", "\"x\""}))
				m := t.W(30, 40, 20, 9, 1)
				if m == 4 {
					m = t.Size(300)
				}
				for ; m > 0; m-- {
					id++
					msg := fmt.Sprintf("note %d %s", id, core.Pick(t, []string{"", "100%", "%d%s", "é", "same"}))
					if t.P(30) {
						msg = core.Pick(t, []string{"same", "same", "Same", "same ", "", " ", "100%", "%v", "a\nb"})
					}
					a.Notes = append(a.Notes, note{
						Type: []string{"hint", "warning", "error"}[t.W(42, 42, 16)],
						How:  core.Pick(t, []string{"plain", "with", "at"}),
						Msg:  msg,
					})
				}
				v.Acts = append(v.Acts, a)
			}
			c.Visitors = append(c.Visitors, v)
		}
		for t.P(12) {
			c.Again = append(c.Again, t.N(len(c.Visitors)))
		}
		return c
	}, func(c *visitCase, r *Rec) error {
		root := valid(string(c.Query))
		if root == nil {
			return core.ErrSkip
		}
		for _, v := range c.Visitors {
			for _, a := range v.Acts {
				if a.Ret != "" || len(a.Notes) > 0 && v.Tape {
					r.NonTrivial()
				}
			}
		}
		if err := runVisit(c, root, r); err != nil {
			return err
		}
		if c.Twice {
			return runVisit(c, root, r)
		}
		return nil
	})
}

// C18

func adviceClause(g *gen.Gen, t *T) string {
	head := g.Field(g.Path()) + ":"
	piece := func() string {
		return core.Pick(t, []string{"a", "foo", "b c", "x", "é", "日本", "a+", "b?", "c*", "[ab]", `\d`, "(d)", "(?:e)", "ab{2}", "^f", "g$", `\.`, "(g|h)", "A", ".", ".+", ".?", ".*?", "(.)", "(.*)", "(?s:.)*", `\/`, `\\`, "%", "%d", "5%s", "%%"})
	}
	regex := func() string {
		var s string
		switch t.W(20, 20, 20, 20, 20, 10) {
		case 0:
			s = piece()
		case 5: // many branches, plain or nearly so
			var alts []string
			for n := 2 + t.Size(40); n > 0; n-- {
				alts = append(alts, core.Pick(t, []string{"aa", "foo", "b c", "xyz", "é", "日本", "42"})+fmt.Sprint(n))
			}
			if t.P(30) {
				alts[t.N(len(alts))] = piece()
			}
			s = strings.Join(alts, "|")
		case 1:
			s = piece() + piece()
		case 2:
			s = piece() + "|" + piece()
		case 3:
			s = piece() + "|" + piece() + "|" + piece()
		case 4:
			s = piece() + ".*" + piece()
		}
		if t.P(25) {
			s = ".*" + s
		}
		if t.P(25) {
			s += ".*"
		}
		switch t.W(60, 20, 5, 5, 10) {
		case 1:
			s = "(" + s + ")"
		case 2:
			s = "(?:" + s + ")"
		case 3:
			s = "(?P<n>" + s + ")"
		case 4:
			s = "(" + s + ")" + piece()
		}
		if t.P(25) {
			s = "(?i)" + s
		}
		if t.P(3) {
			s = core.Pick(t, []string{".*", "(.*)", ".*.*", "(?i).*", "((.*))", "((.*)a)", "(?:.*){2}", "((a|b))", ".+a.+", "(.+a.*)", "(?s).*a", "(.*a.*)", "((a))", "(?i)(é)", "(a)(b)", "a|b.*", "(?i)ſ"})
		}
		return "/" + s + "/"
	}
	when := func() string {
		if t.P(30) {
			return gen.Day(g.Instant())
		}
		return g.ISO(g.Instant(), true)
	}
	term := func(k int) string {
		switch k {
		case 0:
			return regex()
		case 1:
			return g.Quoted(g.Phrase())
		case 2:
			return when()
		case 3:
			return core.Pick(t, []string{"true", "false"})
		}
		return fmt.Sprint(t.N(50))
	}
	switch t.W(40, 20, 15, 10, 10, 5) {
	case 0:
		return head + term(t.W(60, 15, 15, 5, 5))
	case 1:
		var ts []string
		for n := t.R(1, 4); n > 0; n-- {
			ts = append(ts, term(t.W(50, 15, 25, 0, 10)))
		}
		return head + "(" + strings.Join(ts, ", ") + ")"
	case 2:
		return head + "~" + term(t.W(50, 35, 0, 15))
	case 3:
		var ts []string
		for n := t.R(1, 3); n > 0; n-- {
			ts = append(ts, term(t.W(50, 40)))
		}
		return head + "~ (" + strings.Join(ts, ",") + ")"
	case 4:
		return head + core.Pick(t, []string{"<", ">", "<=", ">="}) + when()
	}
	return g.Clause()
}

type advised struct {
	kind string
	pos  ref.Pos
}

func adviceOf(msgs []*parser.ParserMessage) (out []advised, err error) {
	for _, m := range msgs {
		a := advised{pos: ref.Pos{Offset: m.Pos().Offset, Line: m.Pos().Line, Col: m.Pos().Col, Len: m.Pos().Len}}
		switch m.Type {
		case parser.MsgHint:
			a.kind = "hint"
		case parser.MsgWarning:
			a.kind = "warning"
		default:
			return nil, fmt.Errorf("message of type %d", m.Type)
		}
		if m.Message() == "" {
			return nil, fmt.Errorf("empty message")
		}
		out = append(out, a)
	}
	return out, nil
}

// quotes: what is said about an expression shows the expression, the
// expression without its group, or the field.
func quotes(msgs []*parser.ParserMessage, advice []ref.Advice) error {
	for _, a := range advice {
		var any []string
		switch a.What {
		case "unicode-i", "dotstar-text":
			any = []string{a.Term.S, strings.ReplaceAll(a.Term.S, `\/`, "/")}
		case "group":
			re, err := syntax.Parse(a.Term.S, syntax.Perl)
			if err != nil || re.Op != syntax.OpCapture {
				continue
			}
			src := strings.TrimSuffix(a.Term.S, ")")
			any = []string{re.Sub[0].String(), src[strings.IndexByte(src, '(')+1:]}
		case "alternation":
			any = []string{strings.Join(a.Expr.Field, "."), a.Expr.FieldString()}
		default:
			continue
		}
		found := false
		var said []string
		for _, m := range msgs {
			if m.Pos().Offset != a.Term.Pos.Offset || (m.Type == parser.MsgHint) != (a.Kind == "hint") {
				continue
			}
			said = append(said, m.Message())
			for _, s := range any {
				found = found || strings.Contains(m.Message(), s)
			}
		}
		if !found {
			return fmt.Errorf("no %s about the %s shows %q: %q", a.Kind, a.What, any, said)
		}
	}
	return nil
}

func init() {
	core.Register(core.Check{ID: "C18", Quick: 40000, Thorough: 800000,
		Rule:   "A query of up to 6 (sometimes 60) clauses rich in what calls for advice (similarity, exact date-times, expressions with .* at the ends, outer groups, alternations, (?i) with non-ASCII characters) and in near misses, parsed twice; kind and position of every message, and what it quotes of the query, are predicted from the independently parsed tree. Non-trivial: at least one message is called for.",
		Assume: []string{"regexp/syntax parses expressions as package regexp does"},
	}, func(t *T) *TextCase {
		g := gen.New(t, gen.Opts{MaxDepth: 2, OddKeys: t.P(30)})
		g.Doc()
		n := 6
		if t.P(3) {
			n = core.Pick(t, []int{60, 60, 60, 400})
		}
		return &TextCase{Bytes(g.Query(n, func() string {
			q := adviceClause(g, t)
			for i := 0; n > 6 && i < 5 && (valid(q) == nil || unsureEnd(valid(q))); i++ {
				q = adviceClause(g, t) // one of many would spoil the whole
			}
			return q
		}))}
	}, func(c *TextCase, r *Rec) error {
		q := string(c.Query)
		root := valid(q)
		if root == nil {
			return core.ErrSkip
		}
		if unsureEnd(root) {
			return core.ErrSkip
		}
		want := []advised{}
		advice := ref.Advise(root)
		for _, a := range advice {
			want = append(want, advised{a.Kind, a.Term.Pos})
			r.Label(a.What)
			r.NonTrivial()
		}
		order := func(as []advised) {
			sort.SliceStable(as, func(i, j int) bool {
				if as[i].pos.Offset != as[j].pos.Offset {
					return as[i].pos.Offset < as[j].pos.Offset
				}
				return as[i].kind < as[j].kind
			})
		}
		order(want)
		for round := 0; round < 2; round++ {
			m, err := matcher(q)
			if err != nil {
				return fmt.Errorf("query %q rejected: %v", short(q), err)
			}
			for reading := 0; reading < 2; reading++ {
				got, err := adviceOf(m.Messages())
				if err != nil {
					return fmt.Errorf("query %q: %v", short(q), err)
				}
				if err := quotes(m.Messages(), advice); err != nil {
					return fmt.Errorf("query %q: %v", short(q), err)
				}
				for i := 1; i < len(got); i++ {
					if got[i].pos.Offset < got[i-1].pos.Offset {
						return fmt.Errorf("query %q: messages out of order: %v", short(q), got)
					}
				}
				order(got)
				if fmt.Sprint(got) != fmt.Sprint(want) {
					return fmt.Errorf("query %q: messages %v, want %v", short(q), got, want)
				}
			}
			if _, err := m.Match([]byte(`{"a":"x"}`)); err != nil {
				return fmt.Errorf("query %q: %v", short(q), err)
			}
		}
		return nil
	})
}

// unsureEnd is true if some expression ends in an escaped dot and a star.
func unsureEnd(root *ref.Node) bool {
	for _, e := range root.Exprs() {
		for _, v := range e.Vals {
			if v.Kind == "regex" && strings.HasSuffix(v.S, `\.*`) {
				return true
			}
		}
	}
	return false
}
