package checks

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"sync"

	"github.com/flowchartsman/aql/jsonmatcher"
	"github.com/flowchartsman/aql/parser"

	"verifharness/core"
	"verifharness/gen"
	"verifharness/ref"
)

// means is whether two trees ask the same of the same fields.
func means(a, b *ref.Node) bool {
	if (a == nil) != (b == nil) {
		return false
	}
	if a == nil {
		return true
	}
	if a.Kind != b.Kind || a.Op != b.Op || len(a.Vals) != len(b.Vals) || !reflect.DeepEqual(a.Field, b.Field) {
		return false
	}
	for i, v := range a.Vals {
		w := b.Vals[i]
		num := func(v *ref.Val) bool { return v.Kind == "integer" || v.Kind == "float" }
		switch {
		case num(v) && num(w):
			if v.F != w.F || v.Kind != w.Kind && v.Kind == "integer" && float64(v.I) != v.F {
				return false
			}
		case v.Kind != w.Kind:
			return false
		case v.Kind == "timestamp":
			if v.Time != w.Time || v.Day != w.Day {
				return false
			}
		case v.Kind == "netaddr":
			if v.Net.Bits != w.Net.Bits || !v.Net.Overlaps(w.Net) {
				return false
			}
		case v.Kind == "string", v.Kind == "regex":
			if v.S != w.S {
				return false
			}
		case v.Text != w.Text:
			return false
		}
	}
	return means(a.L, b.L) && means(a.R, b.R)
}

func shape(s *jsonmatcher.MatchStats, names bool) string {
	var sb strings.Builder
	var walk func(s *jsonmatcher.MatchStats)
	walk = func(s *jsonmatcher.MatchStats) {
		if names {
			sb.WriteString(s.NodeName)
		}
		fmt.Fprintf(&sb, "[%d/%d", s.TimesMatched, s.TimesChecked)
		for _, c := range s.Children {
			walk(c)
		}
		sb.WriteString("]")
	}
	walk(s)
	return sb.String()
}

// streamCase is a text given in pieces, with an error after some of it or not.
type streamCase struct {
	Text   Bytes  `json:"text"`
	Pieces []int  `json:"pieces"`  // lengths, over and over; 0 is an empty read
	Fail   bool   `json:"fail"`    // with an error
	At     int    `json:"at"`      // after so many bytes
	With   bool   `json:"with"`    // the end comes with the last bytes
	Err    string `json:"err"`     // its text; "eof" is io.ErrUnexpectedEOF
	Again  bool   `json:"again"`   // reading on would give the rest
	Wraps  bool   `json:"wrapped"` // the error wraps io.EOF
	// Kind is a kind of reader of the standard library, from which Before was
	// read already; the pieces play no part then
	Kind   string `json:"kind,omitempty"`
	Before Bytes  `json:"before,omitempty"`
}

var readerKinds = []string{"strings", "bytes", "section", "buffer", "bufio", "limited", "multi", "file", "pipe"}

// reader is one of the given kind that still has the text to give.
func (c *streamCase) reader() (r io.Reader, done func()) {
	all, before, done := string(c.Before)+string(c.Text), len(c.Before), func() {}
	switch c.Kind {
	case "strings":
		r = strings.NewReader(all)
	case "bytes":
		r = bytes.NewReader([]byte(all))
	case "section":
		r = io.NewSectionReader(strings.NewReader("a:1 OR "+all+" OR b:2"), 7, int64(len(all)))
	case "buffer":
		r = bytes.NewBufferString(all)
	case "bufio":
		r = bufio.NewReaderSize(strings.NewReader(all), 16)
	case "limited":
		r = io.LimitReader(strings.NewReader(all+" AND c:3"), int64(len(all)))
	case "multi":
		k := len(all) / 2
		r = io.MultiReader(strings.NewReader(all[:k]), strings.NewReader(""), strings.NewReader(all[k:]))
	case "file":
		name := filepath.Join(streamDir(), "query")
		put(name, all)
		f, err := os.Open(name)
		if err != nil {
			panic(core.Broken{Err: err})
		}
		r, done = f, func() { f.Close() }
	case "pipe":
		p, w := io.Pipe()
		go func() {
			io.WriteString(w, all)
			w.Close()
		}()
		r, done = p, func() { p.Close() }
	default:
		return nil, nil
	}
	if _, err := io.ReadFull(r, make([]byte, before)); err != nil {
		panic(core.Broken{Err: err})
	}
	return r, done
}

var streamDir = sync.OnceValue(scratch)

type stream struct {
	c     *streamCase
	pos   int
	reads int
	fault error
	done  bool
}

func (s *stream) Read(p []byte) (int, error) {
	if s.fault != nil && s.pos >= s.c.At && !(s.done && s.c.Again) {
		s.done = true
		return 0, s.fault
	}
	end := len(s.c.Text)
	if s.fault != nil && !s.done {
		end = min(end, s.c.At)
	}
	n := 1
	if len(s.c.Pieces) > 0 {
		n = s.c.Pieces[s.reads%len(s.c.Pieces)]
	}
	if n == 0 && s.reads%3 != 0 {
		n = 1 // not empty forever
	}
	s.reads++
	n = min(n, len(p), end-s.pos)
	copy(p, s.c.Text[s.pos:s.pos+n])
	s.pos += n
	if s.pos == end && (n == 0 || s.c.With) {
		if s.fault != nil && !s.done {
			s.done = true
			return n, s.fault
		}
		if end == len(s.c.Text) {
			return n, io.EOF
		}
	}
	return n, nil
}

func init() {
	core.Register(core.Check{ID: "C31", Quick: 30000, Thorough: 600000,
		Rule: "A query of up to 5 clauses of every operator and term type, 1-3 other spellings of it (white space, parentheses, ! and NOT, quoted, plain and starred field pieces, escapes in strings, zeros and decimal points of numbers, forms of timestamps, host bits and /32 of addresses) that an independent parser reads as the same query, and 1-4 documents. Answers, statistics and, where terms print alike, node names and advice are compared. Non-trivial: a spelling differs beyond white space and the query names a field of a document.",
	}, func(t *T) *MatchCase {
		g := gen.New(t, gen.Opts{MaxDepth: 3, OddKeys: t.P(50), Big: true})
		c := &MatchCase{}
		for n := t.R(1, 4); n > 0; n-- {
			v := g.Doc()
			c.Docs = append(c.Docs, Bytes(gen.Plain(v)))
		}
		q := g.Query(5, nil)
		c.Queries = append(c.Queries, Bytes(q))
		if root := valid(q); root != nil {
			for n := t.R(1, 3); n > 0; n-- {
				c.Queries = append(c.Queries, Bytes(g.Respell(root)))
			}
		}
		return c
	}, func(c *MatchCase, r *Rec) error {
		var first *ref.Node
		var answers []bool
		var stats, names, advice string
		some := false
		for k, q := range c.Queries {
			root := valid(string(q))
			if root == nil || k > 0 && !means(first, root) {
				if k == 0 {
					return core.ErrSkip
				}
				continue
			}
			m, err := matcher(string(q))
			if err != nil {
				return fmt.Errorf("query %q rejected: %v", short(string(q)), err)
			}
			adv := ""
			for _, x := range m.Messages() {
				adv += fmt.Sprintf("%d %q\n", x.Type, x.Message())
			}
			var got []bool
			for _, d := range c.Docs {
				if v, ok, odd := ref.JSON([]byte(d)); !ok || odd {
					return core.ErrSkip
				} else if k == 0 {
					for _, e := range root.Exprs() {
						some = some || len(ref.Resolve(v, e.Field)) > 0
					}
				}
				a, err := m.Match([]byte(d))
				if err != nil {
					return fmt.Errorf("document %q rejected: %v", short(string(d)), err)
				}
				got = append(got, a)
			}
			st, nm := shape(m.Stats(), false), shape(m.Stats(), true)
			if k == 0 {
				first, answers, stats, names, advice = root, got, st, nm, adv
				continue
			}
			pair := fmt.Sprintf("%q and %q", short(string(c.Queries[0])), short(string(q)))
			for i := range got {
				if got[i] != answers[i] {
					return fmt.Errorf("%s answer %v and %v on document %q", pair, answers[i], got[i], short(string(c.Docs[i])))
				}
			}
			if st != stats {
				return fmt.Errorf("%s have statistics %s and %s after the same documents", pair, short(stats), short(st))
			}
			if first.Prefix() == root.Prefix() {
				if nm != names {
					return fmt.Errorf("%s have statistics %s and %s", pair, short(names), short(nm))
				}
				if adv != advice {
					return fmt.Errorf("%s get the advice %s and %s", pair, short(advice), short(adv))
				}
				r.Label("same printed form")
			}
			if bare(string(c.Queries[0])) != bare(string(q)) && some {
				r.NonTrivial()
			}
			r.Label("compared")
		}
		return nil
	})

	core.Register(core.Check{ID: "C32", Quick: 80000, Thorough: 800000,
		Rule: "A query text, well-formed or not, read from a stream in pieces of any length (characters split, empty reads, the end reported with the last bytes or after them), compared in tree, positions and error with the same text given as a string; or a stream that fails with an error after any number of bytes, even all, which must be reported as an error and give no tree; or a reader of the standard library (text, buffer, section, file, pipe) from which something was read before. Non-trivial: the stream fails after a prefix, the text has at least two pieces, or something was read before.",
	}, func(t *T) *streamCase {
		g, tc := genTree(t, 4)
		c := &streamCase{Text: tc.Query}
		switch t.W(50, 40, 10) {
		case 1:
			c.Text = Bytes(g.Mutate(string(c.Text)))
		case 2:
			c.Text = Bytes(g.Soup())
		}
		for n := t.R(1, 4); n > 0; n-- {
			c.Pieces = append(c.Pieces, []int{t.N(9), 1 + t.Size(600)}[t.W(80, 20)])
		}
		c.With = t.P(50)
		if t.P(15) {
			c.Kind = readerKinds[t.W(14, 14, 14, 14, 14, 10, 10, 4, 4)]
			if t.P(65) {
				c.Before = Bytes(core.Pick(t, []string{"x", "q=", "(", "a:1 AND ", "\n", "\"", "# é\n", "0123456789abcdef"}))
			}
			return c
		}
		if t.P(50) {
			c.Fail, c.Again, c.Wraps = true, t.P(30), t.P(20)
			c.At = t.N(len(c.Text) + 1)
			switch t.W(60, 15, 15, 10) {
			case 1:
				c.At = len(c.Text)
			case 2:
				// after a prefix that is a query itself, often
				for i := c.At; i > 0; i-- {
					if ref.Query(string(c.Text[:i])).OK {
						c.At = i
						break
					}
				}
			case 3:
				c.At = 0
			}
			c.Err = core.Pick(t, []string{"connection reset", "eof", "x", "read: 100%", "é\n"})
		}
		return c
	}, func(c *streamCase, r *Rec) error {
		s := &stream{c: c}
		text := string(c.Text)
		if c.Fail {
			if c.At < 0 || c.At > len(text) {
				return core.ErrSkip
			}
			s.fault = errors.New(c.Err)
			switch {
			case c.Err == "eof":
				s.fault = io.ErrUnexpectedEOF
			case c.Wraps:
				s.fault = fmt.Errorf("%s: %w", c.Err, io.EOF)
			}
			n, err := parser.ParseQueryReader(s)
			if err == nil || !isNil(n) {
				return fmt.Errorf("a stream that fails with %q after %d bytes of %q gives tree %v and error %v", s.fault, c.At, short(text), n, err)
			}
			if !strings.Contains(err.Error(), s.fault.Error()) && !errors.Is(err, s.fault) {
				return fmt.Errorf("a stream that fails with %q after %d bytes of %q is reported as %q", s.fault, c.At, short(text), err)
			}
			r.Label("failing")
			if c.At > 0 {
				r.NonTrivial()
			}
			return nil
		}
		var from io.Reader = s
		if c.Kind != "" {
			rd, done := c.reader()
			if rd == nil {
				return core.ErrSkip
			}
			defer done()
			from = rd
			r.Label("reader of kind " + c.Kind)
		}
		n, err := parser.ParseQueryReader(from)
		m, merr := parser.ParseQuery(text)
		if (err == nil) != (merr == nil) {
			return fmt.Errorf("text %q from a stream gives error %v, as a string %v", short(text), err, merr)
		}
		if s.reads > 1 || len(c.Before) > 0 {
			r.NonTrivial()
		}
		if err != nil {
			if !isNil(n) {
				return fmt.Errorf("text %q from a stream gives a tree and error %v", short(text), err)
			}
			a, _ := json.Marshal(err)
			b, _ := json.Marshal(merr)
			if err.Error() != merr.Error() || string(a) != string(b) {
				return fmt.Errorf("text %q from a stream gives error %v (%s), as a string %v (%s)", short(text), err, a, merr, b)
			}
			r.Label("rejected")
			return nil
		}
		if isNil(n) {
			return fmt.Errorf("text %q from a stream gives neither tree nor error", short(text))
		}
		if n.String() != m.String() {
			return fmt.Errorf("text %q from a stream is %s, as a string %s", short(text), short(n.String()), short(m.String()))
		}
		if root := ref.Query(text); root.OK && !root.Gray {
			if err := sameTree(n, root.Root, true, true); err != nil {
				return fmt.Errorf("text %q from a stream: %v", short(text), err)
			}
		}
		r.Label("accepted")
		return nil
	})
}

func bare(q string) string {
	return strings.Map(func(r rune) rune {
		if r == ' ' || r == '\n' || r == '\t' || r == '\r' {
			return -1
		}
		return r
	}, q)
}
