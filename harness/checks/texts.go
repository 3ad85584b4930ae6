package checks

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"github.com/flowchartsman/aql/jsonmatcher"
	"github.com/flowchartsman/aql/parser"
	"github.com/flowchartsman/aql/parser/ast"

	"verifharness/core"
	"verifharness/gen"
	"verifharness/ref"
)

type textsCase struct {
	Query Bytes   `json:"query"`
	Docs  []Bytes `json:"docs,omitempty"`
	Notes []note  `json:"notes,omitempty"` // recorded on the root
}

var labels = map[parser.MessageType]string{parser.MsgHint: "HINT", parser.MsgWarning: "WARNING", parser.MsgError: "ERROR"}

// saysPos: the text before the message gives line, column and offset, and no
// other numbers.
func saysPos(s, msg string, p ast.Pos) bool {
	head, ok := strings.CutSuffix(s, msg)
	if !ok {
		return false
	}
	var nums []string
	for _, f := range strings.FieldsFunc(head, func(r rune) bool { return (r < '0' || r > '9') && r != '-' }) {
		if strings.Trim(f, "-") != "" {
			nums = append(nums, f)
		}
	}
	return reflect.DeepEqual(nums, []string{strconv.Itoa(p.Line), strconv.Itoa(p.Col), strconv.Itoa(p.Offset)})
}

func posJSON(v any, p ast.Pos) bool {
	m, ok := v.(map[string]any)
	return ok && m["line"] == float64(p.Line) && m["column"] == float64(p.Col) && m["offset"] == float64(p.Offset) && m["length"] == float64(p.Len)
}

// utf8ed is a text as encoding/json gives it back.
func utf8ed(s string) string { return strings.ToValidUTF8(s, "�") }

func object(v any) (map[string]any, error) {
	b, err := json.Marshal(v)
	if err != nil {
		return nil, err
	}
	var m map[string]any
	return m, json.Unmarshal(b, &m)
}

func sameMessage(m *parser.ParserMessage, want seenMsg) error {
	if m.Type != want.t || m.Pos() != want.pos || m.Message() != want.msg || m.Msg != want.msg || m.Position != want.pos {
		return fmt.Errorf("message is %+v, want %+v", m, want)
	}
	s := m.String()
	if !strings.HasSuffix(s, m.Msg) || !strings.Contains(strings.TrimSuffix(s, m.Msg), labels[m.Type]) {
		return fmt.Errorf("message %+v reads %q", m, s)
	}
	if m.Position == ast.NoPosition() {
		if strings.ContainsAny(strings.TrimSuffix(s, m.Msg), "0123456789") {
			return fmt.Errorf("message without a position reads %q", s)
		}
	} else if !saysPos(s, m.Msg, m.Position) {
		return fmt.Errorf("message at %+v reads %q", m.Position, s)
	}
	o, err := object(m)
	if err != nil {
		return fmt.Errorf("message %+v has no JSON form: %v", m, err)
	}
	if o["message"] != utf8ed(m.Msg) || o["type"] != labels[m.Type] || !posJSON(o["position"], m.Position) {
		return fmt.Errorf("message %+v is %v in JSON", m, o)
	}
	return nil
}

func sameError(e *parser.ParseError) error {
	if e.Message() != e.Msg || e.Pos() != e.Position || e.Msg == "" {
		return fmt.Errorf("error %#v: message %q, position %+v", e, e.Message(), e.Pos())
	}
	if !saysPos(e.Error(), e.Msg, e.Position) {
		return fmt.Errorf("error %q at %+v reads %q", e.Msg, e.Position, e.Error())
	}
	o, err := object(e)
	if err != nil {
		return fmt.Errorf("error %q has no JSON form: %v", e.Error(), err)
	}
	if o["message"] != utf8ed(e.Msg) || !posJSON(o["position"], e.Position) {
		return fmt.Errorf("error %q at %+v is %v in JSON", e.Msg, e.Position, o)
	}
	var exp []string
	if l, ok := o["expected"].([]any); ok {
		for _, x := range l {
			exp = append(exp, fmt.Sprint(x))
		}
	}
	if len(exp) != len(e.Expected) {
		return fmt.Errorf("error %q expects %q but %v in JSON", e.Msg, e.Expected, o["expected"])
	}
	for i, x := range e.Expected {
		if utf8ed(x) != exp[i] {
			return fmt.Errorf("error %q expects %q but %v in JSON", e.Msg, e.Expected, o["expected"])
		}
	}
	return nil
}

func statsJSON(s *jsonmatcher.MatchStats, v any) error {
	m, ok := v.(map[string]any)
	if !ok || m["node_name"] != utf8ed(s.NodeName) || m["times_checked"] != float64(s.TimesChecked) || m["times_matched"] != float64(s.TimesMatched) {
		return fmt.Errorf("node %q, checked %d and matched %d times, is %v in JSON", s.NodeName, s.TimesChecked, s.TimesMatched, v)
	}
	kids, _ := m["children"].([]any)
	if len(kids) != len(s.Children) {
		return fmt.Errorf("node %q has %d children, but %d in JSON", s.NodeName, len(s.Children), len(kids))
	}
	for i, c := range s.Children {
		if err := statsJSON(c, kids[i]); err != nil {
			return err
		}
	}
	return nil
}

func init() {
	core.Register(core.Check{ID: "C29", Quick: 80000, Thorough: 800000,
		Rule: "A query, valid or broken, on one or more lines, with the documents it is asked about and 0-4 messages (any type, any text, with or without a position) recorded on its root: the printed and JSON forms of its error, of its advice, of the recorded messages and of its statistics are read back and compared with their fields, and the matcher's query with the text given. Non-trivial: there is an error or a message with a position other than the first character.",
	}, func(t *T) *textsCase {
		g := gen.New(t, gen.Opts{MaxDepth: 2, OddKeys: true})
		c := &textsCase{}
		for n := t.R(0, 2); n > 0; n-- {
			c.Docs = append(c.Docs, Bytes(gen.Plain(g.Doc())))
		}
		clause := g.Clause
		if t.P(50) {
			clause = g.AnyClause
		}
		q := g.Query(4, clause)
		switch t.W(60, 30, 10) {
		case 1:
			q = g.Mutate(q)
		case 2:
			q = g.Soup()
		}
		c.Query = Bytes(q)
		for n := t.N(5); n > 0; n-- {
			x := note{Type: core.Pick(t, []string{"hint", "warning", "error"}), How: core.Pick(t, []string{"plain", "with", "at"}), Msg: core.Pick(t, []string{"same", "", "100%", "%s", "a: b", "line\nbreak", "é \"q\" <b>&", "[1:2(3)]: x", "HINT", g.Text(20)})}
			if t.P(80) && x.Type == "error" {
				x.Type = "hint"
			}
			c.Notes = append(c.Notes, x)
		}
		return c
	}, func(c *textsCase, r *Rec) error {
		q := string(c.Query)
		m, err := jsonmatcher.NewMatcher(q)
		if err != nil {
			pe, ok := err.(*parser.ParseError)
			if !ok {
				return fmt.Errorf("query %q: error of type %T", short(q), err)
			}
			if err := sameError(pe); err != nil {
				return fmt.Errorf("query %q: %v", short(q), err)
			}
			if pe.Position.Offset > 0 {
				r.NonTrivial()
			}
			r.Label("rejected")
			return nil
		}
		if m.Query() != q {
			return fmt.Errorf("the matcher of %q says its query is %q", short(q), short(m.Query()))
		}
		for _, x := range m.Messages() {
			if err := sameMessage(x, seenMsg{x.Type, x.Position, x.Msg}); err != nil {
				return fmt.Errorf("query %q: %v", short(q), err)
			}
			r.Label("advice " + labels[x.Type])
			if x.Position.Offset > 0 {
				r.NonTrivial()
			}
		}
		for _, d := range c.Docs {
			if _, err := m.Match([]byte(d)); err != nil {
				return fmt.Errorf("document %q rejected: %v", short(string(d)), err)
			}
		}
		o, err := object(m.Stats())
		if err != nil {
			return fmt.Errorf("query %q: statistics have no JSON form: %v", short(q), err)
		}
		if err := statsJSON(m.Stats(), o); err != nil {
			return fmt.Errorf("query %q: %v", short(q), err)
		}
		var want []seenMsg
		tries := 0
		v := parser.NewMessageVisitor(func(n ast.Node, tape *parser.MessageTape) error {
			tries++
			if tries > 1 {
				return parser.SkipAll
			}
			for i, x := range c.Notes {
				off := min(i*7, len(q)-1)
				line, col := ref.LineCol(q, off)
				p := ast.Pos{Line: line, Col: col, Offset: off, Len: 1 + i}
				s := seenMsg{t: parser.MsgHint, pos: p, msg: x.Msg}
				if x.How == "plain" {
					s.pos = ast.NoPosition()
				}
				switch x.Type {
				case "warning":
					s.t = parser.MsgWarning
				case "error":
					s.t = parser.MsgError
				}
				switch x.Type + x.How {
				case "hintplain":
					tape.Hint("%s", x.Msg)
				case "hintwith":
					tape.HintWith(at{p}, "%s", x.Msg)
				case "hintat":
					tape.HintAt(p, "%s", x.Msg)
				case "warningplain":
					tape.Warning("%s", x.Msg)
				case "warningwith":
					tape.WarningWith(at{p}, "%s", x.Msg)
				case "warningat":
					tape.WarningAt(p, "%s", x.Msg)
				case "errorplain":
					tape.Error("%s", x.Msg)
				case "errorwith":
					tape.ErrorWith(at{p}, "%s", x.Msg)
				case "errorat":
					tape.ErrorAt(p, "%s", x.Msg)
				}
				want = append(want, s)
				if p.Start().Offset != off || p.Start().Line != line || p.Start().Col != col {
					return fmt.Errorf("%+v starts at %+v", p, p.Start())
				}
			}
			return nil
		})
		_, err = parser.ParseQuery(q, parser.Visitors(v))
		got := v.Messages()
		if len(got) != len(want) {
			return fmt.Errorf("query %q: %d messages, want %d", short(q), len(got), len(want))
		}
		var bad *seenMsg
		for i, x := range got {
			if err := sameMessage(x, want[i]); err != nil {
				return fmt.Errorf("query %q: %v", short(q), err)
			}
			if want[i].t == parser.MsgError && bad == nil {
				bad = &want[i]
			}
			if x.Position.Offset > 0 {
				r.NonTrivial()
			}
		}
		if bad == nil {
			if err != nil {
				return fmt.Errorf("query %q rejected: %v", short(q), err)
			}
			return nil
		}
		pe, ok := err.(*parser.ParseError)
		if !ok {
			return fmt.Errorf("query %q: error of type %T after a recorded error", short(q), err)
		}
		if pe.Message() != bad.msg || pe.Pos() != bad.pos {
			return fmt.Errorf("query %q: error %q at %+v, recorded was %q at %+v", short(q), pe.Message(), pe.Pos(), bad.msg, bad.pos)
		}
		r.Label("recorded error")
		if bad.msg == "" {
			return nil
		}
		if err := sameError(pe); err != nil {
			return fmt.Errorf("query %q: %v", short(q), err)
		}
		return nil
	})
}
