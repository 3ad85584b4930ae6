package checks

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"reflect"
	"strings"
	"sync"
	"time"

	"github.com/flowchartsman/aql/jsonmatcher"
	"github.com/flowchartsman/aql/parser"
	"github.com/flowchartsman/aql/parser/fmtmsg"

	"verifharness/core"
	"verifharness/gen"
	"verifharness/ref"
)

// C11

type step struct {
	Do    string `json:"do"` // match, new, bad, junk, stats
	Query int    `json:"query"`
	Doc   int    `json:"doc"`
	Times int    `json:"times"`
}

type historyCase struct {
	Queries []Bytes `json:"queries"`
	Docs    []Bytes `json:"docs"`
	Pad     bool    `json:"pad"` // make all documents equally long
	Steps   []step  `json:"steps"`
}

// pristine asks a question in a process of its own.
func pristine(q, doc string) (bool, error) {
	exe, err := os.Executable()
	if err != nil {
		return false, err
	}
	in, _ := json.Marshal(MatchCase{Queries: []Bytes{Bytes(q)}, Docs: []Bytes{Bytes(doc)}})
	cmd := exec.Command(exe)
	cmd.Env = append(os.Environ(), "VERIF_ASK=1")
	cmd.Stdin = strings.NewReader(string(in))
	out, err := cmd.Output()
	if err != nil {
		return false, err
	}
	return strings.TrimSpace(string(out)) == "true", nil
}

// Answer is the other side of pristine.
func Answer() {
	time.Local = time.FixedZone("VST", -(7*3600 + 1800)) // as in the runner
	var c MatchCase
	if err := json.NewDecoder(os.Stdin).Decode(&c); err != nil {
		panic(err)
	}
	r, err := ask(string(c.Queries[0]), string(c.Docs[0]))
	if err != nil {
		panic(err)
	}
	fmt.Println(r)
	os.Exit(0)
}

func init() {
	core.Register(core.Check{ID: "C11", Quick: 12000, Thorough: 240000,
		Rule:   "2-5 queries that share fields and terms, 2-5 documents, and 5-40 steps: match with a kept or a new matcher (up to 2000 times), all documents passed in one reused and overwritten buffer, with bad queries and documents and reading of statistics in between; every answer is compared with the first for that query and document, with the reference, and, should those differ, with a new process. Non-trivial: the answers of the case differ.",
		Assume: []string{"a new process answers without history"},
	}, func(t *T) *historyCase {
		g := gen.New(t, gen.Opts{MaxDepth: 2, Scalars: []int{20, 20, 10, 5, 12, 8, 8, 15, 2}})
		c := &historyCase{Pad: t.P(50)}
		for n := t.R(2, 5); n > 0; n-- {
			g.Doc()
		}
		var used []string
		for n := t.R(2, 5); n > 0; n-- {
			if len(used) > 0 && t.P(35) {
				c.Queries = append(c.Queries, Bytes(kin(t, core.Pick(t, used))))
				continue
			}
			q := g.Query(3, func() string { s := g.Clause(); used = append(used, s); return s })
			c.Queries = append(c.Queries, Bytes(q))
		}
		for _, v := range g.Roots {
			c.Docs = append(c.Docs, Bytes(gen.Plain(v)))
		}
		for n := t.R(5, 40); n > 0; n-- {
			s := step{Do: []string{"match", "new", "bad", "junk", "stats"}[t.W(65, 20, 5, 5, 5)], Query: t.N(len(c.Queries)), Doc: t.N(len(c.Docs)), Times: 1}
			if t.P(8) {
				s.Times = 1 + t.Size(40)
			}
			if t.P(1) {
				s.Times = 1 + t.Size(2000)
			}
			c.Steps = append(c.Steps, s)
		}
		return c
	}, func(c *historyCase, r *Rec) error {
		longest := 0
		var docs []*ref.JV
		for _, d := range c.Docs {
			v, ok, odd := ref.JSON([]byte(d))
			if !ok || odd {
				return core.ErrSkip
			}
			docs = append(docs, v)
			longest = max(longest, len(d))
		}
		var roots []*ref.Node
		kept := make([]*jsonmatcher.Matcher, len(c.Queries))
		for i, q := range c.Queries {
			root := valid(string(q))
			if root == nil {
				return core.ErrSkip
			}
			roots = append(roots, root)
			m, err := matcher(string(q))
			if err != nil {
				return fmt.Errorf("query %q rejected: %v", short(string(q)), err)
			}
			kept[i] = m
		}
		buf := make([]byte, longest+64)
		type key struct{ q, d int }
		first := map[key]bool{}
		seen := [2]bool{}
		for at, s := range c.Steps {
			q := string(c.Queries[s.Query%len(c.Queries)])
			for n := 0; n < max(s.Times, 1); n++ {
				switch s.Do {
				case "bad":
					if m, err := jsonmatcher.NewMatcher(q + ")"); err == nil || m != nil {
						break
					}
				case "junk":
					kept[s.Query].Match([]byte(string(c.Docs[s.Doc]) + "]"))
				case "stats":
					kept[s.Query].Stats()
					kept[s.Query].Messages()
				default:
					m := kept[s.Query]
					if s.Do == "new" {
						var err error
						if m, err = matcher(q); err != nil {
							return fmt.Errorf("step %d: query %q rejected: %v", at, short(q), err)
						}
					}
					d := string(c.Docs[s.Doc])
					if c.Pad {
						d += strings.Repeat(" ", longest-len(d))
					}
					// the whole buffer is overwritten, also past the document
					for i := range buf {
						buf[i] = '#'
					}
					copy(buf, d)
					got, err := m.Match(buf[:len(d)])
					if err != nil {
						return fmt.Errorf("step %d: document %q rejected: %v", at, short(d), err)
					}
					if string(buf[:len(d)]) != d || strings.Trim(string(buf[len(d):]), "#") != "" {
						return fmt.Errorf("step %d: matching %q changed the document %q to %q", at, short(q), short(d), short(string(buf)))
					}
					seen[b2i(got)] = true
					k := key{s.Query, s.Doc}
					if was, ok := first[k]; !ok {
						first[k] = got
						if got != ref.Match(roots[s.Query], docs[s.Doc], nil) {
							alone, err := pristine(q, d)
							if err == nil && alone != got {
								return fmt.Errorf("step %d: query %q on document %q answers %v, but %v in a new process", at, short(q), short(d), got, alone)
							}
						}
					} else if was != got {
						return fmt.Errorf("step %d: query %q on document %q answers %v, before %v", at, short(q), short(d), got, was)
					}
				}
			}
		}
		for i, m := range kept {
			if m.Query() != string(c.Queries[i]) {
				return fmt.Errorf("matcher of query %q says it is of %q", short(string(c.Queries[i])), short(m.Query()))
			}
		}
		if seen[0] && seen[1] {
			r.NonTrivial()
		}
		return nil
	})
}

// kin is a clause which shares its text with another but means something else.
func kin(t *T, clause string) string {
	i := strings.LastIndex(clause, ":")
	if i < 0 {
		return clause
	}
	head, term := clause[:i+1], clause[i+1:]
	if n := ref.Query(clause); n.OK && n.Root.Kind == "expr" && len(n.Root.Vals) > 0 {
		head = clause[:strings.LastIndex(clause, n.Root.Vals[0].Text)]
		if j := strings.LastIndex(head, ":"); j >= 0 {
			head = head[:j+1]
		}
		term = n.Root.Vals[t.N(len(n.Root.Vals))].Text
	}
	bare := strings.Trim(term, `"/`)
	switch t.N(6) {
	case 0:
		return head + `"` + bare + `"`
	case 1:
		return head + "/" + bare + "/"
	case 2:
		return head + strings.ToUpper(term)
	case 3:
		return head + bare
	case 4:
		return head + "<" + bare
	}
	return "a:" + term
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// C12

type rawCase struct {
	Query Bytes   `json:"query"`
	Docs  []Bytes `json:"docs"`
	Bulk  int     `json:"bulk,omitempty"` // the first document becomes an array that starts with a string of this length
}

var jsonScraps = []string{"{", "}", "[", "]", ",", ":", "\"", "\\", "\"a\"", "\"a\":", "{}", "[]", "[[", "]]", "null", "true", "false", "nul", "tru", "NaN", "Infinity", "1", "-1", "-", "+1", "01", "1.", ".1", "1e", "1e5", "1e400", "-0", "\"\\u12\"", "\"\\ud800\"", "\"\\x\"", "\"\n\"", "'a'", "//", "/**/", " ", "\n", "\u0000", "\xff", "\xc3", "\"\xff\"", "\"\\\"", "\"\\u0000\"", "{\"a\":1", "\"a\":1}", "[1,]", "{,}", "{\"a\"}", "{\"a\":}", "{a:1}", "1 2", "\u00a0", "\ufeff", "\"\\ud83d\\ude00\"", "\"\\ude00\\ud83d\"", "{\"a\":1,\"a\":2}", "\f"}

func genRawDoc(t *T, g *gen.Gen) string {
	v := g.Doc()
	s := g.Render(v, gen.Style{Spaces: t.P(20), Escapes: t.P(20)})
	switch t.W(25, 45, 15, 10, 5) {
	case 1:
		for n := 1 + t.W(70, 20, 10); n > 0; n-- {
			i := t.N(len(s) + 1)
			j := min(len(s), i+1+t.N(4))
			switch t.N(5) {
			case 0:
				s = s[:i] + core.Pick(t, jsonScraps) + s[i:]
			case 1:
				s = s[:i] + s[j:]
			case 2:
				s = s[:i]
			case 3:
				s = s[:i] + core.Pick(t, jsonScraps) + s[j:]
			case 4:
				s = s[:j] + s[i:]
			}
		}
	case 2:
		var sb strings.Builder
		for n := t.Size(20); n > 0; n-- {
			sb.WriteString(core.Pick(t, jsonScraps))
		}
		s = sb.String()
	case 3:
		b := make([]byte, t.Size(60))
		for i := range b {
			b[i] = byte(t.N(256))
		}
		s = string(b)
	case 4:
		n := 1 + t.Size(200)
		if t.P(10) {
			n = t.R(9990, 10010)
		}
		open := core.Pick(t, []string{"[", "{\"a\":", "[{\"a\":"})
		shut := map[string]string{"[": "]", "{\"a\":": "}", "[{\"a\":": "}]"}[open]
		s = strings.Repeat(open, n) + s + strings.Repeat(shut, n)
		if t.P(20) {
			s = s[:len(s)-t.N(n)]
		}
	}
	return s
}

func init() {
	core.Register(core.Check{ID: "C12", Quick: 60000, Thorough: 1200000,
		Rule: "A query (well-formed, altered, a run of pieces of syntax, arbitrary bytes, or deeply nested) and 1-4 documents (JSON of every shape, altered JSON, runs of JSON pieces, arbitrary bytes, nesting up to and past 10000 levels, rarely up to 17 MB); the error is predicted by encoding/json. Non-trivial: the query was accepted and was put to both valid and invalid documents, or was rejected.",
	}, func(t *T) *rawCase {
		g := gen.New(t, gen.Opts{MaxDepth: 4, OddKeys: true, Big: true})
		c := &rawCase{}
		for n := t.R(1, 4); n > 0; n-- {
			c.Docs = append(c.Docs, Bytes(genRawDoc(t, g)))
		}
		if t.N(400) == 399 {
			c.Bulk = bulk(t)
		}
		q := g.Query(4, func() string {
			if t.P(15) {
				return g.AnyClause()
			}
			return g.Clause()
		})
		switch t.W(60, 22, 8, 6, 4) {
		case 1:
			q = g.Mutate(q)
		case 2:
			q = g.Soup()
		case 3:
			b := make([]byte, t.Size(60))
			for i := range b {
				b[i] = byte(t.N(256))
			}
			q = string(b)
		case 4:
			n := 1 + t.Size(400)
			q = strings.Repeat(core.Pick(t, []string{"(", "!(", "NOT (", "a:1 AND (", "a:(1,"}), n) + q + strings.Repeat(")", n)
		}
		c.Query = Bytes(q)
		return c
	}, func(c *rawCase, r *Rec) error {
		q := string(c.Query)
		m, err := jsonmatcher.NewMatcher(q)
		if (m == nil) == (err == nil) {
			return fmt.Errorf("query %q: matcher %v and error %v", short(q), m, err)
		}
		if err != nil {
			if _, ok := err.(*parser.ParseError); !ok {
				return fmt.Errorf("query %q: error of type %T: %v", short(q), err, err)
			}
			_ = err.Error()
			r.Label("query rejected")
			r.NonTrivial()
			return nil
		}
		docs := append([]Bytes(nil), c.Docs...)
		if c.Bulk > 0 && len(docs) > 0 {
			docs[0] = Bytes(`["` + strings.Repeat("x", c.Bulk) + `",` + string(docs[0]) + "]")
			r.Label("large document")
		}
		both := [2]bool{}
		before := map[int]bool{}
		for round := 0; round < 2; round++ {
			for i, d := range docs {
				got, err := m.Match([]byte(d))
				ok := json.Valid([]byte(d))
				if (err == nil) != ok {
					return fmt.Errorf("query %q, document %q: valid JSON: %v, error: %v", short(q), short(string(d)), ok, err)
				}
				if got && err != nil {
					return fmt.Errorf("query %q, document %q: a match in spite of the error %v", short(q), short(string(d)), err)
				}
				both[b2i(ok)] = true
				if ok {
					if round == 1 && before[i] != got {
						return fmt.Errorf("query %q, document %q: answer %v after others, %v before", short(q), short(string(d)), got, before[i])
					}
					before[i] = got
					r.Label("valid document")
				} else {
					r.Label("invalid document")
				}
			}
		}
		if both[0] && both[1] {
			r.NonTrivial()
		}
		return nil
	})
}

// C19

func statsModel(n *ref.Node, answers []map[string]bool) *jsonmatcher.MatchStats {
	all := map[*ref.Node]*jsonmatcher.MatchStats{}
	var build func(n *ref.Node) *jsonmatcher.MatchStats
	build = func(n *ref.Node) *jsonmatcher.MatchStats {
		s := &jsonmatcher.MatchStats{}
		all[n] = s
		for _, c := range []*ref.Node{n.L, n.R} {
			if c != nil {
				s.Children = append(s.Children, build(c))
			}
		}
		return s
	}
	root := build(n)
	for _, a := range answers {
		var eval func(n *ref.Node) bool
		eval = func(n *ref.Node) bool {
			var r bool
			switch n.Kind {
			case "and":
				r = eval(n.L) && eval(n.R)
			case "or":
				r = eval(n.L) || eval(n.R)
			case "not":
				r = !eval(n.L)
			default:
				r = a[n.Src]
			}
			all[n].TimesChecked++
			if r {
				all[n].TimesMatched++
			}
			return r
		}
		eval(n)
	}
	return root
}

func sameStats(n *ref.Node, got, want *jsonmatcher.MatchStats) error {
	if got == nil {
		return fmt.Errorf("no statistics for %s", n.Name())
	}
	if n.Kind != "expr" {
		if got.NodeName != n.Name() {
			return fmt.Errorf("node %q in place of %q", got.NodeName, n.Name())
		}
	} else if !namedFor(got.NodeName, n) {
		return fmt.Errorf("node %q in place of %q", got.NodeName, n.Name())
	}
	if got.TimesChecked != want.TimesChecked || got.TimesMatched != want.TimesMatched {
		return fmt.Errorf("node %q checked %d and matched %d times, want %d and %d", got.NodeName, got.TimesChecked, got.TimesMatched, want.TimesChecked, want.TimesMatched)
	}
	if len(got.Children) != len(want.Children) {
		return fmt.Errorf("node %q has %d children, want %d", got.NodeName, len(got.Children), len(want.Children))
	}
	for i, c := range []*ref.Node{n.L, n.R} {
		if c != nil {
			if err := sameStats(c, got.Children[i], want.Children[i]); err != nil {
				return err
			}
		}
	}
	return nil
}

// namedFor: the name shows field, operator and terms in this order.
func namedFor(name string, n *ref.Node) bool {
	if strings.Join(strings.Fields(name), "") == strings.Join(strings.Fields(n.Name()), "") {
		return true
	}
	// a name may be worded differently
	parts := []string{n.FieldString()}
	if n.Op != "==" {
		parts = append(parts, n.Op)
	}
	for _, v := range n.Vals {
		parts = append(parts, v.Printed())
	}
	rest := name
	for _, p := range parts {
		i := strings.Index(rest, p)
		if i < 0 {
			return false
		}
		rest = rest[i+len(p):]
	}
	return true
}

func init() {
	core.Register(core.Check{ID: "C19", Quick: 16000, Thorough: 320000,
		Rule: "A query of up to 8 (sometimes 150) clauses and a sequence of 1-12 (sometimes 400, rarely 3000 and more) documents, valid and invalid, repeated, with statistics read in between; counts are predicted from the answers the clauses give on their own by short-circuit evaluation of the independently parsed tree. Non-trivial: some operator is evaluated with differing results.",
	}, func(t *T) *historyCase {
		g := gen.New(t, gen.Opts{MaxDepth: 2, OddKeys: t.P(30), Big: true})
		c := &historyCase{}
		for n := t.R(1, 5); n > 0; n-- {
			g.Doc()
		}
		c.Queries = []Bytes{Bytes(g.Query(8, nil))}
		for _, v := range g.Roots {
			c.Docs = append(c.Docs, Bytes(gen.Plain(v)))
		}
		n := t.R(1, 12)
		for ; n > 0; n-- {
			s := step{Do: []string{"match", "junk", "stats"}[t.W(80, 10, 10)], Doc: t.N(len(c.Docs)), Times: 1}
			if t.P(2) {
				s.Times = 1 + t.Size(400)
				if t.P(10) {
					s.Times = t.R(900, 3000)
				}
			}
			c.Steps = append(c.Steps, s)
		}
		return c
	}, func(c *historyCase, r *Rec) error {
		q := string(c.Queries[0])
		root := valid(q)
		if root == nil {
			return core.ErrSkip
		}
		m, err := matcher(q)
		if err != nil {
			return fmt.Errorf("query %q rejected: %v", short(q), err)
		}
		answers := make([]map[string]bool, len(c.Docs))
		for i, d := range c.Docs {
			if !json.Valid([]byte(d)) {
				return core.ErrSkip
			}
			answers[i] = map[string]bool{}
			for _, e := range root.Exprs() {
				if _, ok := answers[i][e.Src]; ok {
					continue
				}
				if answers[i][e.Src], err = ask(e.Src, string(d)); err != nil {
					return err
				}
			}
		}
		var asked []map[string]bool
		var matched int64
		var snaps []*jsonmatcher.MatchStats
		var copies []string
		verify := func() error {
			got := m.Stats()
			want := statsModel(root, asked)
			if err := sameStats(root, got, want); err != nil {
				return fmt.Errorf("query %q after %d documents: %v", short(q), len(asked), err)
			}
			if got.TimesChecked != int64(len(asked)) || got.TimesMatched != matched {
				return fmt.Errorf("query %q: %d of %d documents matched, but the root says %d of %d", short(q), matched, len(asked), got.TimesMatched, got.TimesChecked)
			}
			b, _ := json.Marshal(got)
			snaps = append(snaps, got)
			copies = append(copies, string(b))
			return nil
		}
		for _, s := range c.Steps {
			for n := 0; n < max(s.Times, 1); n++ {
				switch s.Do {
				case "junk":
					if _, err := m.Match([]byte(string(c.Docs[s.Doc]) + "]")); err == nil {
						return core.ErrSkip
					}
				case "stats":
					if n < 3 {
						if err := verify(); err != nil {
							return err
						}
					}
				default:
					ok, err := m.Match([]byte(c.Docs[s.Doc]))
					if err != nil {
						return fmt.Errorf("document %q rejected: %v", short(string(c.Docs[s.Doc])), err)
					}
					if ok {
						matched++
					}
					asked = append(asked, answers[s.Doc])
				}
			}
		}
		if err := verify(); err != nil {
			return err
		}
		for i, s := range snaps {
			if b, _ := json.Marshal(s); string(b) != copies[i] {
				return fmt.Errorf("query %q: statistics read earlier have changed from %s to %s", short(q), copies[i], b)
			}
		}
		if root.Kind != "expr" {
			for _, a := range asked {
				mix := [2]bool{}
				for _, v := range a {
					mix[b2i(v)] = true
				}
				if mix[0] && mix[1] {
					r.NonTrivial()
				}
			}
		}
		r.Label("clauses " + bucket(len(root.Exprs())))
		return nil
	})
}

// C20

type op struct {
	Do    string `json:"do"` // shared, own, fresh, stats, bad, print
	Query int    `json:"query"`
	Doc   int    `json:"doc"`
}

type parallelCase struct {
	Queries []Bytes `json:"queries"`
	Docs    []Bytes `json:"docs"`
	Plans   [][]op  `json:"plans"`
	Share   bool    `json:"share"` // goroutines pass the same byte slices
	// Fresh are queries that only the goroutines build matchers for
	Fresh []Bytes `json:"fresh,omitempty"`
}

// query is what a step asks.
func (c *parallelCase) query(o op) string {
	if o.Do == "fresh" && len(c.Fresh) > 0 {
		return string(c.Fresh[o.Query%len(c.Fresh)])
	}
	return string(c.Queries[o.Query])
}

func init() {
	core.Register(core.Check{ID: "C20", Quick: 1600, Thorough: 32000, MaxShrink: 150,
		Rule:   "1-4 queries of up to 6 clauses of every kind, 1-4 documents, and 2-8 goroutines with 5-60 steps each: match with a shared matcher, build a matcher and match, also for queries nobody has asked before, read statistics, parse bad queries, print their errors with a shared printer; run under the race detector. Answers and final counts are compared with matchers that did the same work sequentially afterwards. Non-trivial: at least two goroutines match with one shared matcher.",
		Assume: []string{"the Go race detector sees conflicting accesses that are not ordered by synchronisation, in the schedules that occurred"},
	}, func(t *T) *parallelCase {
		g := gen.New(t, gen.Opts{MaxDepth: 2})
		c := &parallelCase{Share: t.P(50)}
		for n := t.R(1, 4); n > 0; n-- {
			g.Doc()
		}
		for n := t.R(1, 4); n > 0; n-- {
			c.Queries = append(c.Queries, Bytes(g.Query(6, nil)))
		}
		for _, v := range g.Roots {
			c.Docs = append(c.Docs, Bytes(g.Render(v, gen.Style{Escapes: t.P(30)})))
		}
		for n := t.R(0, 4); n > 0; n-- {
			c.Fresh = append(c.Fresh, Bytes(g.Query(3, nil)))
		}
		for n := t.R(2, 8); n > 0; n-- {
			var plan []op
			for k := t.R(5, 60); k > 0; k-- {
				plan = append(plan, op{
					Do:    []string{"shared", "own", "stats", "bad", "fresh", "print"}[t.W(60, 10, 10, 5, 10, 5)],
					Query: t.N(len(c.Queries)), Doc: t.N(len(c.Docs))})
			}
			if len(c.Fresh) > 0 && t.P(50) {
				// all at once
				plan[0].Do = "fresh"
			}
			c.Plans = append(c.Plans, plan)
		}
		return c
	}, func(c *parallelCase, r *Rec) error {
		shared := make([]*jsonmatcher.Matcher, len(c.Queries))
		for i, q := range c.Queries {
			if valid(string(q)) == nil {
				return core.ErrSkip
			}
			m, err := matcher(string(q))
			if err != nil {
				return fmt.Errorf("query %q rejected: %v", short(string(q)), err)
			}
			shared[i] = m
		}
		for _, q := range c.Fresh {
			if valid(string(q)) == nil {
				return core.ErrSkip
			}
		}
		// one printer for each query, and what each query's error looks like
		form := fmtmsg.NewTerminalFormatter(0)
		printers := make([]*fmtmsg.Printer, len(c.Queries))
		errs := make([]fmtmsg.Message, len(c.Queries))
		looks := make([]string, len(c.Queries))
		for i, q := range c.Queries {
			bad := string(q) + ")"
			_, err := matcher(bad)
			if msg, ok := err.(fmtmsg.Message); ok {
				printers[i], errs[i] = form.WithQuery(bad), msg
				looks[i] = fmtmsg.NewTerminalFormatter(0).WithQuery(bad).Sprint(msg)
			}
		}
		common := make([][]byte, len(c.Docs))
		for i, d := range c.Docs {
			if !json.Valid([]byte(d)) {
				return core.ErrSkip
			}
			common[i] = []byte(d)
		}
		type outcome struct {
			r   bool
			err error
		}
		got := make([][]outcome, len(c.Plans))
		var wg sync.WaitGroup
		start := make(chan struct{})
		for k, plan := range c.Plans {
			got[k] = make([]outcome, len(plan))
			wg.Add(1)
			go func(plan []op, out []outcome) {
				defer wg.Done()
				<-start
				last := map[int]*jsonmatcher.MatchStats{}
				for i, o := range plan {
					func() {
						defer func() {
							if p := recover(); p != nil {
								out[i].err = fmt.Errorf("panic: %v", p)
							}
						}()
						m := shared[o.Query]
						switch o.Do {
						case "stats":
							s := m.Stats()
							if b := last[o.Query]; b != nil && (s.TimesMatched < b.TimesMatched || s.TimesChecked < b.TimesChecked) {
								out[i].err = fmt.Errorf("counts have gone down: from %+v to %+v", *b, *s)
							}
							last[o.Query] = s
							m.Messages()
							return
						case "print":
							if p := printers[o.Query]; p != nil {
								if s := p.Sprint(errs[o.Query]); s != looks[o.Query] {
									out[i].err = fmt.Errorf("the error is printed as %q, by itself as %q", short(s), short(looks[o.Query]))
								}
							}
							return
						case "bad":
							if _, err := matcher(string(c.Queries[o.Query]) + ")"); err == nil {
								out[i].err = fmt.Errorf("bad query accepted")
							}
							return
						case "own", "fresh":
							if m, out[i].err = matcher(c.query(o)); out[i].err != nil {
								return
							}
						}
						doc := common[o.Doc]
						if !c.Share {
							doc = []byte(c.Docs[o.Doc])
						}
						out[i].r, out[i].err = m.Match(doc)
					}()
				}
			}(plan, got[k])
		}
		close(start)
		wg.Wait()
		// the same work, one after another
		again := make([]*jsonmatcher.Matcher, len(c.Queries))
		users := map[int]map[int]bool{}
		for i, q := range c.Queries {
			var err error
			if again[i], err = matcher(string(q)); err != nil {
				return err
			}
			users[i] = map[int]bool{}
		}
		for k, plan := range c.Plans {
			for i, o := range plan {
				if got[k][i].err != nil {
					return fmt.Errorf("goroutine %d, step %d (%s of %q on %q): %v", k, i, o.Do, short(c.query(o)), short(string(c.Docs[o.Doc])), got[k][i].err)
				}
				if o.Do != "shared" && o.Do != "own" && o.Do != "fresh" {
					continue
				}
				m := again[o.Query]
				if o.Do != "shared" {
					var err error
					if m, err = matcher(c.query(o)); err != nil {
						return err
					}
				} else {
					users[o.Query][k] = true
				}
				want, err := m.Match([]byte(c.Docs[o.Doc]))
				if err != nil {
					return err
				}
				if want != got[k][i].r {
					return fmt.Errorf("goroutine %d, step %d: query %q on document %q answers %v, sequentially %v", k, i, short(c.query(o)), short(string(c.Docs[o.Doc])), got[k][i].r, want)
				}
			}
		}
		for i := range shared {
			if a, b := shared[i].Stats(), again[i].Stats(); !reflect.DeepEqual(a, b) {
				x, _ := json.Marshal(a)
				y, _ := json.Marshal(b)
				return fmt.Errorf("query %q: statistics %s, sequentially %s", short(string(c.Queries[i])), x, y)
			}
			if len(users[i]) > 1 {
				r.NonTrivial()
			}
		}
		return nil
	})
}
