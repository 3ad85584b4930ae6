package checks

import (
	"fmt"
	"strings"

	"verifharness/core"
	"verifharness/gen"
	"verifharness/ref"
)

// decided is true if the clause looks at some scalar of the kinds given.
func decided(n *ref.Node, doc *ref.JV, kinds string) bool {
	for _, e := range n.Exprs() {
		for _, s := range ref.Scalars(ref.Resolve(doc, e.Field)) {
			if strings.IndexByte(kinds, s.K) >= 0 {
				return true
			}
		}
	}
	return false
}

type clauseCheck struct {
	id     string
	n      int
	rule   string
	opts   gen.Opts
	terms  []string // kinds of terms it is about
	ops    []int
	only   func(n *ref.Node, doc *ref.JV) bool
	touch  func(n *ref.Node, doc *ref.JV) bool
	clause func(g *gen.Gen) string
	assume []string
}

func (cc clauseCheck) register() {
	core.Register(core.Check{ID: cc.id, Quick: cc.n, Thorough: cc.n * 20, Rule: cc.rule, Assume: cc.assume},
		func(t *T) *MatchCase {
			return genMatch(t, cc.opts, 3, 4, func(g *gen.Gen) string {
				if cc.clause != nil {
					return cc.clause(g)
				}
				return g.ClauseOps(cc.ops...)
			})
		},
		func(c *MatchCase, r *Rec) error {
			return againstRef(c, r, func(n *ref.Node, doc *ref.JV) bool {
				for _, e := range n.Exprs() {
					for _, v := range e.Vals {
						r.Label("term " + v.Kind)
					}
					r.Label("op " + e.Op)
				}
				return cc.only == nil || cc.only(n, doc)
			}, func(n *ref.Node, doc *ref.JV, got bool) {
				if cc.touch(n, doc) {
					r.NonTrivial()
				}
			})
		})
}

func anyScalar(n *ref.Node, doc *ref.JV, f func(s *ref.JV) bool) bool {
	for _, e := range n.Exprs() {
		for _, s := range ref.Scalars(ref.Resolve(doc, e.Field)) {
			if f(s) {
				return true
			}
		}
	}
	return false
}

func init() {
	clauseCheck{
		id: "C02", n: 100000,
		rule: "1-3 documents of objects, arrays and arrays of arrays over few (also odd and empty) key names, some deep or wide, and 1-4 clauses whose paths are taken from them or altered slightly; answers compared with a resolution of the path over an independently parsed document. Non-trivial: some array lies on a path that resolves to a value.",
		opts: gen.Opts{OddKeys: true, Big: true, MaxDepth: 6, Terms: []int{20, 0, 20, 0, 0, 0, 0, 5}, Scalars: []int{0, 40, 10, 10, 0, 0, 0, 40, 0}},
		ops:  []int{40, 10, 5, 0, 0, 30, 15},
		touch: func(n *ref.Node, doc *ref.JV) bool {
			return len(ref.Resolve(doc, n.Exprs()[0].Field)) > 0 && onArray(doc, n.Exprs()[0].Field)
		},
		assume: []string{"keys are not repeated within an object and strings are proper Unicode text"},
	}.register()
	clauseCheck{
		id: "C03", n: 60000,
		rule: "1-3 documents with numbers in many spellings and magnitudes, strings that spell numbers or nearly, and other scalars; 1-4 numeric clauses with terms equal to, next to, or one off those values. Non-trivial: the path reaches a number or a string that spells one.",
		opts: gen.Opts{Big: true, MaxDepth: 3, Terms: []int{0, 0, 50, 50, 0, 0, 0, 0}, Scalars: []int{3, 50, 5, 4, 3, 0, 30, 5, 0}},
		ops:  []int{30, 8, 38, 24, 0, 0, 0},
		touch: func(n *ref.Node, doc *ref.JV) bool {
			return anyScalar(n, doc, func(s *ref.JV) bool { _, ok := ref.NumOf(s); return ok })
		},
		only: func(n *ref.Node, doc *ref.JV) bool {
			return !anyScalar(n, doc, func(s *ref.JV) bool {
				if s.K != 's' {
					return false
				}
				// spellings only Go would take for a number
				l := strings.ToLower(s.S)
				return hasAny(l, "xinp_") && func() bool { _, ok := ref.NumOf(s); return ok }()
			})
		},
		assume: []string{"numbers are within the range of double precision", "hexadecimal, infinite and NaN spellings in strings are not judged"},
	}.register()
	clauseCheck{
		id: "C04", n: 60000,
		rule: "1-3 documents with instants of the years 0000-9999 in ISO and other formats, as numbers, and as non-dates; 1-4 timestamp clauses with terms equal to, or a nanosecond, second or day off those values, at many UTC offsets. ISO forms are converted by an independent calendar, the others by the library the documentation names. Non-trivial: the path reaches a value that is a date.",
		opts: gen.Opts{Big: true, MaxDepth: 3, Terms: []int{0, 0, 0, 0, 50, 50, 0, 0}, Scalars: []int{4, 8, 4, 4, 70, 2, 4, 4, 0}},
		ops:  []int{34, 8, 38, 20, 0, 0, 0},
		touch: func(n *ref.Node, doc *ref.JV) bool {
			return anyScalar(n, doc, func(s *ref.JV) bool { _, ok := ref.DateOf(s); return ok })
		},
		only: func(n *ref.Node, doc *ref.JV) bool {
			return !anyScalar(n, doc, func(s *ref.JV) bool { return len(s.S) > 1000 })
		},
		assume: []string{"araddon/dateparse decides which non-ISO texts are dates", "texts of more than 1000 bytes are not judged"},
	}.register()
	clauseCheck{
		id: "C05", n: 100000,
		rule:   "1-3 documents of phrases made of words, punctuation, control and non-ASCII characters, and numbers; 1-4 string clauses whose terms are parts of those phrases, whole or cut inside words, with changed case, wildcards, escaped wildcards or one wrong character; decided by a direct matcher over characters (loose search of x/text for non-ASCII terms without wildcards). Non-trivial: the path reaches a string or number.",
		opts:   gen.Opts{Big: true, MaxDepth: 2, Terms: []int{100, 0, 0, 0, 0, 0, 0, 0}, Scalars: []int{60, 10, 3, 2, 3, 3, 3, 10, 6}},
		ops:    []int{85, 10, 0, 0, 5, 0, 0},
		touch:  func(n *ref.Node, doc *ref.JV) bool { return decided(n, doc, "sn") },
		assume: []string{"golang.org/x/text/search decides non-ASCII terms without wildcards, except that a term always matches itself"},
	}.register()
	clauseCheck{
		id: "C06", n: 60000,
		rule:   "1-3 documents of phrases and numbers, and 1-4 clauses with regular expressions built around parts of them: anchors, groups, alternations, classes, repetitions, flags, slashes and backslashes at either end; decided by Go's regexp on the text between the delimiters. Non-trivial: the path reaches a string or number.",
		opts:   gen.Opts{Big: true, MaxDepth: 2, Terms: []int{0, 100, 0, 0, 0, 0, 0, 0}, Scalars: []int{60, 10, 3, 2, 3, 3, 3, 10, 6}},
		ops:    []int{85, 10, 0, 0, 5, 0, 0},
		touch:  func(n *ref.Node, doc *ref.JV) bool { return decided(n, doc, "sn") },
		assume: []string{"Go's regexp package"},
	}.register()
	clauseCheck{
		id: "C07", n: 100000,
		rule: "1-3 documents of texts with IPv4 addresses and blocks, well- and ill-formed, of all prefix lengths and with host bits, and 1-4 network clauses with addresses that share a random number of leading bits with them; decided by masking 32-bit integers. Non-trivial: the path reaches a text with a well-formed address or block.",
		opts: gen.Opts{Big: true, MaxDepth: 2, Terms: []int{0, 0, 0, 0, 0, 0, 100, 0}, Scalars: []int{5, 5, 3, 2, 3, 75, 2, 5, 0}},
		ops:  []int{85, 15, 0, 0, 0, 0, 0},
		touch: func(n *ref.Node, doc *ref.JV) bool {
			return anyScalar(n, doc, func(s *ref.JV) bool { return s.K == 's' && len(ref.Blocks(s.S)) > 0 })
		},
		only: func(n *ref.Node, doc *ref.JV) bool {
			return !anyScalar(n, doc, func(s *ref.JV) bool { return s.K == 's' && ref.OddNet(s.S) })
		},
		assume: []string{"texts in which an address is run together with further digits, dots or slashes are not judged"},
	}.register()
	clauseCheck{
		id: "C09", n: 100000,
		rule:  "1-3 documents of all kinds of values, with nulls, booleans, look-alike strings and empty containers, alone, in arrays and reached through arrays; 1-4 exists, null and boolean clauses. Non-trivial: the path resolves to some value.",
		opts:  gen.Opts{Big: true, OddKeys: false, MaxDepth: 4, Terms: []int{0, 0, 0, 0, 0, 0, 0, 100}, Scalars: []int{3, 12, 35, 35, 0, 0, 3, 12, 0}},
		ops:   []int{30, 0, 0, 0, 5, 30, 35},
		touch: func(n *ref.Node, doc *ref.JV) bool { return len(ref.Resolve(doc, n.Exprs()[0].Field)) > 0 },
	}.register()
}

// onArray is true if the path meets an array in the document.
func onArray(v *ref.JV, path []string) bool {
	for {
		if v.K == 'a' {
			return true
		}
		if v.K != 'o' || len(path) == 0 {
			return false
		}
		v = v.Get(path[0])
		if v == nil {
			return false
		}
		path = path[1:]
	}
}

// C01

func init() {
	core.Register(core.Check{ID: "C01", Quick: 25000, Thorough: 500000,
		Rule: "A query of up to 8 (sometimes 150) clauses over AND, OR, NOT, ! and parentheses, some of them repeated or on missing fields, and 1-4 documents; the answer is compared with the formula, parsed independently, over the answers its clauses give as queries of their own. Non-trivial: two clauses or more, with differing answers.",
	}, func(t *T) *MatchCase {
		g := gen.New(t, gen.Opts{MaxDepth: 2, Big: true, Scalars: []int{10, 30, 20, 5, 10, 5, 5, 15, 0}})
		c := &MatchCase{}
		for n := t.R(1, 4); n > 0; n-- {
			g.Doc()
		}
		var used []string
		clause := func() string {
			if len(used) > 0 && t.P(15) {
				return core.Pick(t, used)
			}
			var s string
			if t.P(40) {
				// a clause whose answer is plain
				s = core.Pick(t, g.Keys)
				if strings.IndexFunc(s, func(r rune) bool { return !(r >= 'a' && r <= 'z') }) >= 0 || s == "" {
					s = "a"
				}
				s += ":exists"
			} else {
				s = g.Clause()
			}
			used = append(used, s)
			return s
		}
		c.Queries = []Bytes{Bytes(g.Query(8, clause))}
		for _, v := range g.Roots {
			c.Docs = append(c.Docs, Bytes(gen.Plain(v)))
		}
		return c
	}, func(c *MatchCase, r *Rec) error {
		q := string(c.Queries[0])
		root := valid(q)
		if root == nil {
			return core.ErrSkip
		}
		m, err := matcher(q)
		if err != nil {
			return fmt.Errorf("query %q rejected: %v", short(q), err)
		}
		exprs := root.Exprs()
		r.Label(fmt.Sprintf("clauses %s", bucket(len(exprs))))
		for _, d := range c.Docs {
			if _, ok, _ := ref.JSON([]byte(d)); !ok {
				continue
			}
			got, err := m.Match([]byte(d))
			if err != nil {
				return fmt.Errorf("document %q rejected: %v", short(string(d)), err)
			}
			memo := map[string]bool{}
			mix := [2]bool{}
			for _, e := range exprs {
				if _, ok := memo[e.Src]; ok {
					continue
				}
				a, err := ask(e.Src, string(d))
				if err != nil {
					return err
				}
				memo[e.Src] = a
				if a {
					mix[1] = true
				} else {
					mix[0] = true
				}
			}
			want := formula(root, memo)
			if got != want {
				return fmt.Errorf("query %q on document %q answers %v, but its clauses %v make it %v", short(q), short(string(d)), got, memo, want)
			}
			if len(exprs) > 1 && mix[0] && mix[1] {
				r.NonTrivial()
			}
			if v, ok, odd := ref.JSON([]byte(d)); ok && !odd {
				for _, e := range exprs {
					if len(ref.Resolve(v, e.Field)) == 0 && memo[e.Src] {
						return fmt.Errorf("clause %q is true of document %q, which lacks the field", short(e.Src), short(string(d)))
					}
				}
			}
		}
		return nil
	})
}

func formula(n *ref.Node, memo map[string]bool) bool {
	switch n.Kind {
	case "and":
		return formula(n.L, memo) && formula(n.R, memo)
	case "or":
		return formula(n.L, memo) || formula(n.R, memo)
	case "not":
		return !formula(n.L, memo)
	}
	return memo[n.Src]
}

func bucket(n int) string {
	switch {
	case n <= 1:
		return fmt.Sprint(n)
	case n <= 3:
		return "2-3"
	case n <= 7:
		return "4-7"
	case n <= 15:
		return "8-15"
	case n <= 63:
		return "16-63"
	case n <= 255:
		return "64-255"
	}
	return "256-"
}

// C08

type setCase struct {
	Field  Bytes   `json:"field"`
	Terms  []Bytes `json:"terms"`
	Order  []int   `json:"order"`
	Docs   []Bytes `json:"docs"`
	Tilde  bool    `json:"tilde"`
	Spaces string  `json:"spaces"`
}

func init() {
	core.Register(core.Check{ID: "C08", Quick: 12000, Thorough: 240000,
		Rule: "A field, 2-12 (sometimes 200) distinct terms of mixed types taken from the 1-3 documents or altered, and a permutation; the set in both orders, the OR of single clauses and ~ (where its terms are allowed) are asked. Non-trivial: some member matches and some does not.",
	}, func(t *T) *setCase {
		g := gen.New(t, gen.Opts{MaxDepth: 2, Big: true})
		c := &setCase{Spaces: core.Pick(t, []string{"", " ", "\n"})}
		for n := t.R(1, 3); n > 0; n-- {
			g.Doc()
		}
		path := g.Path()
		c.Field = Bytes(g.Field(path))
		c.Tilde = t.P(25)
		if c.Tilde {
			g.O.Terms = []int{40, 40, 0, 0, 0, 0, 0, 20}
		}
		list := ref.Query(string(c.Field) + ":" + g.List(path, 2, 12))
		if list.OK {
			for _, v := range list.Root.Exprs()[0].Vals {
				c.Terms = append(c.Terms, Bytes(v.Text))
			}
		}
		c.Order = make([]int, len(c.Terms))
		for i := range c.Order {
			c.Order[i] = i
		}
		for i := range c.Order {
			j := i + t.N(len(c.Order)-i)
			c.Order[i], c.Order[j] = c.Order[j], c.Order[i]
		}
		for _, v := range g.Roots {
			c.Docs = append(c.Docs, Bytes(gen.Plain(v)))
		}
		return c
	}, func(c *setCase, r *Rec) error {
		if len(c.Terms) < 2 {
			return core.ErrSkip
		}
		f := string(c.Field)
		var fwd, perm, ors []string
		for i, t := range c.Terms {
			fwd = append(fwd, string(t))
			perm = append(perm, string(c.Terms[c.Order[i]]))
			ors = append(ors, f+":"+string(t))
		}
		sep := c.Spaces + "," + c.Spaces
		qs := []string{
			f + ":(" + strings.Join(fwd, sep) + ")",
			f + ":(" + strings.Join(perm, sep) + ")",
			strings.Join(ors, " OR "),
		}
		if c.Tilde {
			qs = append(qs, f+":~("+strings.Join(fwd, sep)+")")
		}
		for _, q := range qs {
			if valid(q) == nil {
				return core.ErrSkip
			}
		}
		r.Label("members " + bucket(len(fwd)))
		for _, d := range c.Docs {
			any, all := false, true
			singles := make([]bool, len(ors))
			for i, o := range ors {
				a, err := ask(o, string(d))
				if err != nil {
					return err
				}
				singles[i] = a
				any = any || a
				all = all && a
				if c.Tilde {
					b, err := ask(f+":~"+fwd[i], string(d))
					if err != nil {
						return err
					}
					if a != b {
						return fmt.Errorf("on document %q, %q answers %v, with ~ %v", short(string(d)), short(o), a, b)
					}
				}
			}
			for _, q := range qs {
				got, err := ask(q, string(d))
				if err != nil {
					return err
				}
				if got != any {
					return fmt.Errorf("on document %q, %q answers %v, but its members %v", short(string(d)), short(q), got, singles)
				}
			}
			if any && !all {
				r.NonTrivial()
			}
		}
		return nil
	})
}

// C10

type respeltCase struct {
	Queries []Bytes `json:"queries"`
	Docs    []Bytes `json:"docs"`
	Pad     int     `json:"pad,omitempty"`    // blanks added to the second document
	PadAt   int     `json:"pad_at,omitempty"` // at its end, its start, or after its first character
}

// bulk is a size which makes a document large.
func bulk(t *T) int {
	if h, ok := t.HotInt(1000, 1<<25); ok {
		return int(h) + t.N(3)
	}
	switch t.W(30, 30, 25, 10, 5) {
	case 0:
		return t.R(60000, 70000)
	case 1:
		return t.R(250000, 300000)
	case 2:
		return t.R(1000000, 1200000)
	case 3:
		return t.R(4000000, 4300000)
	}
	return t.R(16000000, 17000000)
}

func padded(doc string, n, at int) string {
	blanks := strings.Repeat(" ", n)
	if at == 2 && (doc[0] == '{' || doc[0] == '[') {
		return doc[:1] + blanks + doc[1:]
	}
	if at == 1 {
		return blanks + doc
	}
	return doc + blanks
}

func init() {
	core.Register(core.Check{ID: "C10", Quick: 40000, Thorough: 800000,
		Rule: "A document, a query of up to 4 clauses of every operator and term type taken from it, and 2-4 rewritings of the document (white space, key order, escapes in keys and strings, number spellings) that an independent parser reads as the same value; rarely one is padded with blanks to up to 17 MB. Non-trivial: a rewriting differs and the query names a field of the document.",
	}, func(t *T) *respeltCase {
		g := gen.New(t, gen.Opts{MaxDepth: 4, Big: true, OddKeys: true})
		c := &respeltCase{}
		v := g.Doc()
		for n := t.R(1, 3); n > 0; n-- {
			c.Queries = append(c.Queries, Bytes(g.Query(3, nil)))
		}
		c.Docs = append(c.Docs, Bytes(gen.Plain(v)))
		for n := t.R(1, 3); n > 0; n-- {
			c.Docs = append(c.Docs, Bytes(g.Render(v, gen.Style{Spaces: t.P(60), Escapes: t.P(60), Reorder: t.P(60), Numbers: t.P(60)})))
		}
		if t.N(300) == 299 {
			c.Pad = bulk(t)
			c.PadAt = t.N(3)
		}
		return c
	}, func(c *respeltCase, r *Rec) error {
		var vals []*ref.JV
		for _, d := range c.Docs {
			v, ok, odd := ref.JSON([]byte(d))
			if !ok || odd {
				return core.ErrSkip
			}
			if len(vals) > 0 && !sameJSON(vals[0], v) {
				return core.ErrSkip
			}
			vals = append(vals, v)
		}
		for _, q := range c.Queries {
			root := valid(string(q))
			if root == nil {
				continue
			}
			m, err := matcher(string(q))
			if err != nil {
				return fmt.Errorf("query %q rejected: %v", short(string(q)), err)
			}
			var first bool
			for i, d := range c.Docs {
				if i == 1 && c.Pad > 0 {
					d = Bytes(padded(string(d), c.Pad, c.PadAt))
				}
				got, err := m.Match([]byte(d))
				if err != nil {
					return fmt.Errorf("document %q rejected: %v", short(string(d)), err)
				}
				if i == 0 {
					first = got
					continue
				}
				if got != first {
					return fmt.Errorf("query %q answers %v on %q but %v on %q", short(string(q)), first, short(string(c.Docs[0])), got, short(string(d)))
				}
				if d != c.Docs[0] {
					for _, e := range root.Exprs() {
						if len(ref.Resolve(vals[0], e.Field)) > 0 {
							r.NonTrivial()
						}
					}
				}
			}
			r.Label(fmt.Sprintf("answer %v", first))
		}
		return nil
	})
}

func sameJSON(a, b *ref.JV) bool {
	if a.K != b.K || len(a.Vals) != len(b.Vals) {
		return false
	}
	switch a.K {
	case 's':
		return a.S == b.S
	case 'n':
		return a.Num() == b.Num()
	case 'a':
		for i := range a.Vals {
			if !sameJSON(a.Vals[i], b.Vals[i]) {
				return false
			}
		}
	case 'o':
		for i, k := range a.Keys {
			o := b.Get(k)
			if o == nil || !sameJSON(a.Vals[i], o) {
				return false
			}
		}
	}
	return true
}
