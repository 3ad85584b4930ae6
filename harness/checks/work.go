package checks

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"syscall"

	"github.com/flowchartsman/aql/jsonmatcher"
	"github.com/flowchartsman/aql/parser"

	"verifharness/core"
	"verifharness/gen"
)

// growCase is a family of queries: head, a unit repeated, a core, another unit
// repeated, a tail.
type growCase struct {
	Head   Bytes `json:"head"`
	Before Bytes `json:"before"`
	Core   Bytes `json:"core"`
	After  Bytes `json:"after"`
	Tail   Bytes `json:"tail"`
	// Count makes the repetitions differ: # in a unit is its number
	Count bool `json:"count,omitempty"`
	// Build: a matcher is built, with its advice, not only a tree
	Build bool `json:"build,omitempty"`
}

func (c *growCase) text(n int) string {
	rep := func(unit Bytes) string {
		if !c.Count {
			return strings.Repeat(string(unit), n)
		}
		var sb strings.Builder
		for i := range n {
			sb.WriteString(strings.ReplaceAll(string(unit), "#", strconv.Itoa(10001+i)))
		}
		return sb.String()
	}
	return string(c.Head) + rep(c.Before) + string(c.Core) + rep(c.After) + string(c.Tail)
}

type family struct{ head, before, core, after, tail string }

var families = []family{
	{"", "(", "a:1", ")", ""},
	{"", "!(", "a:1", ")", ""},
	{"", "NOT (", "a:1", ")", ""},
	{"", "( ", "a:1 AND b:2", " )", ""},
	{"", "(a:1 AND ", "b:2", ")", ""},
	{"", "(a:1 OR ", "b:2", ")", ""},
	{"", "(", "b:2", " AND a:1)", ""},
	{"", "(", "b:2", " OR a:1)", ""},
	{"", "a:1 AND (", "b:2", ")", ""},
	{"", "a:1 OR !(", "b:2", ")", ""},
	{"", "!(a:1 AND ", "b:2", ")", ""},
	{"", "a:1 AND ", "b:2", "", ""},
	{"", "a:1 OR ", "b:2", "", ""},
	{"", "a:1 AND b:2 OR ", "b:2", "", ""},
	{"", "NOT a:1 AND ", "b:2", "", ""},
	{"", "!a:1 OR ", "b:2", "", ""},
	{"a:(", "1,", "2", "", ")"},
	{"a:(", "\"x\",", "2", "", ")"},
	{"a:(", "/x/,", "2", "", ")"},
	{"a:(", "1.2.3.4/8,", "2", "", ")"},
	{"a:(", "2020-01-02,", "2", "", ")"},
	{"a:(", " 1.5 , ", "2", "", ")"},
	{"a:\"", "x", "", "", "\""},
	{"a:\"", "\\u00e9", "", "", "\""},
	{"a:\"", "\\n", "", "", "\""},
	{"a:\"", "é", "", "", "\""},
	{"a:\"", "x ", "*", "", "\""},
	{"a:\"", "x*", "", "", "\""},
	{"a:/", "x", "", "", "/"},
	{"a:/", "(a|b)", "", "", "/"},
	{"a:/", "\\/", "", "", "/"},
	{"", "a.", "a", "", ":1"},
	{"", "*.", "a", "", ":1"},
	{"", "\"a b\".", "a", "", ":1"},
	{"", "a", "", "", ":1"},
	{"", "\"", "a", "\"", ":1"},
	{"", " ", "a:1", " ", ""},
	{"a:1", "\n", " AND ", "\n", "b:2"},
	{"a:", "1", "", "", ""},
	{"a:1.", "1", "", "", ""},
	{"a:2020-01-02T00:00:00.", "1", "", "", "Z"},
}

// counted ones have units that differ from one another
var counted = []family{
	{"a:(", "#,", "2", "", ")"},
	{"a:(", "\"x#\",", "2", "", ")"},
	{"a:(", "/x#/ , ", "2", "", ")"},
	{"a:(", "0.#,", "2", "", ")"},
	{"a:~(", "\"x#\",", "\"x\"", "", ")"},
	{"", "a#:# AND ", "b:2", "", ""},
	{"", "a#:# OR ", "b:2", "", ""},
	{"", "a:# OR ", "b:2", "", ""},
	{"", "(a#:# AND ", "b:2", ")", ""},
	{"", "!(a:# OR ", "b:2", ")", ""},
	{"", "a:(#, \"#\") AND ", "b:2", "", ""},
	{"", "k#.", "a", "", ":1"},
	{"", "\"k #\".", "a", "", ":1"},
	{"a:\"", "x# ", "", "", "\""},
	{"a:/", "(x#|y)", "", "", "/"},
	// with advice for each
	{"a:(", "/#.*/,", "2", "", ")"},
	{"a:~(", "/(x|y)#/,", "\"x\"", "", ")"},
	{"a:(", "/(?i)é#/,", "2", "", ")"},
	{"a:(", "2020-01-02T00:00:00.#Z,", "2", "", ")"},
	{"", "a:/(x#)/ OR ", "b:2", "", ""},
	{"", "(a:~\"x#\" AND ", "b:2", ")", ""},
}

var breaks = []string{")", "(", " AND", " AND (", "\"", "/", ",", " a", "\\", "\x01", "é", ":", "a:", "!", " OR )", "\xff", "AND"}

// cpu is the processor time of this process in microseconds.
func cpu() int64 {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return u.Utime.Sec*1e6 + int64(u.Utime.Usec) + u.Stime.Sec*1e6 + int64(u.Stime.Usec)
}

type effort struct {
	mallocs, bytes, blocks uint64
	us                     int64
}

func (c *growCase) measure(q string, times int) effort {
	if c.Build {
		return measured(times, func() { jsonmatcher.NewMatcher(q) })
	}
	return measured(times, func() { parser.ParseQuery(q) })
}

func measured(times int, do func()) effort {
	best := effort{us: 1 << 60}
	for i := 0; i < times; i++ {
		runtime.GC()
		old := debug.SetGCPercent(-1)
		var a, b runtime.MemStats
		n := counters()
		runtime.ReadMemStats(&a)
		t := cpu()
		do()
		us := cpu() - t
		runtime.ReadMemStats(&b)
		best.blocks = counters().since(n)
		debug.SetGCPercent(old)
		best.mallocs, best.bytes = b.Mallocs-a.Mallocs, b.TotalAlloc-a.TotalAlloc
		best.us = min(best.us, us)
	}
	return best
}

// over is true if work grows by more than the factor from the second doubling of
// the length to the third, where it would double if it were linear.
func over(c, b, a uint64, factor, slack float64) bool {
	return float64(c)-float64(b) > factor*max(float64(b)-float64(a), 0)+slack
}

func init() {
	core.Register(core.Check{ID: "C27", Quick: 320, Thorough: 6400, MaxShrink: 60,
		Rule:   "A family of queries that grow by repeating units, equal or numbered (nesting, chains, lists, strings, expressions, fields, blanks, numbers, clauses from the generator, each valid or broken at the end, the start or the middle), parsed or made into a matcher with its advice, at 6 to 100 repetitions and then up to 4000 or 24 kB; at no step may allocations or bytes grow by more than twice the growth of the length, and from the last doubling but one to the last executed blocks may grow by 2.2 and allocations and bytes by 2.6. Time at the end may be five times what the length explains. Non-trivial: the texts contain more than one kind of token.",
		Assume: []string{"work shows in executed blocks of the library, in allocations or in processor time", "a growth of time must persist in the best of many measurements"},
	}, func(t *T) *growCase {
		g := gen.New(t, gen.Opts{MaxDepth: 2})
		g.Doc()
		f, count := core.Pick(t, families), t.P(30)
		if count {
			f = core.Pick(t, counted)
		}
		kind := t.W(60, 10, 10, 10, 10)
		if kind > 0 {
			count = false
		}
		switch kind {
		case 1: // a clause of any kind repeated
			cl := g.Clause()
			op := core.Pick(t, []string{" AND ", " OR "})
			f = family{"", cl + op, g.Clause(), "", ""}
		case 2: // nested around any clause
			x, y := core.Pick(t, families[:11]), core.Pick(t, families[:11])
			f = family{"", x.before + y.before, g.Clause(), y.after + x.after, ""}
		case 3: // any list
			f.head, f.before, f.core, f.after, f.tail = "a:(", g.Term(t.N(6), g.Scalar())+",", "1", "", ")"
		case 4: // pieces of syntax
			f = family{"", g.Scrap() + core.Pick(t, []string{"", " "}) + g.Scrap(), g.Scrap(), g.Scrap(), ""}
		}
		switch t.W(50, 25, 10, 8, 7) {
		case 1:
			f.tail += core.Pick(t, breaks)
		case 2:
			f.head = core.Pick(t, breaks) + f.head
		case 3:
			f.core += core.Pick(t, breaks)
		case 4:
			if t.P(50) {
				f.after = ""
			} else {
				f.before = ""
			}
		}
		return &growCase{Bytes(f.head), Bytes(f.before), Bytes(f.core), Bytes(f.after), Bytes(f.tail), count, t.P(30)}
	}, func(c *growCase, r *Rec) error {
		unit := len(c.Before) + len(c.After)
		if unit == 0 {
			return core.ErrSkip
		}
		kinds := map[byte]bool{}
		for _, b := range []byte(c.text(1)) {
			switch {
			case 'a' <= b && b <= 'z' || 'A' <= b && b <= 'Z' || b >= 0x80:
				b = 'a'
			case '0' <= b && b <= '9':
				b = '1'
			}
			kinds[b] = true
		}
		if len(kinds) > 2 {
			r.NonTrivial()
		}
		// small ones first, so that nothing exponential runs away
		sizes := []int{6, 12, 25, 50, 100}
		big := max(100, min(4000, 24000/unit))
		if big >= 200 {
			sizes = append(sizes, big/4, big/2, big)
		}
		c.measure(c.text(5), 1)
		before, prev, prevLen := effort{}, effort{}, 0
		var first, last effort
		firstLen, lastLen := 0, 0
		for i, n := range sizes {
			q := c.text(n)
			e := c.measure(q, 1)
			if os.Getenv("VERIF_WORK") != "" {
				fmt.Printf("%6d bytes %8d allocs %10d bytes %8d blocks %8d us  %q\n", len(q), e.mallocs, e.bytes, e.blocks, e.us, short(c.text(2)))
			}
			if i > 0 {
				grow := float64(len(q)) / float64(prevLen)
				if float64(e.mallocs) > 2*grow*float64(prev.mallocs)+2000 {
					return fmt.Errorf("text %q: %d repetitions (%d bytes) take %d allocations, but %d bytes only %d", short(c.text(2)), n, len(q), e.mallocs, prevLen, prev.mallocs)
				}
				if float64(e.bytes) > 2.5*grow*float64(prev.bytes)+500000 {
					return fmt.Errorf("text %q: %d repetitions (%d bytes) allocate %d bytes, but %d bytes only %d", short(c.text(2)), n, len(q), e.bytes, prevLen, prev.bytes)
				}
			}
			if big >= 200 && n == big {
				// the last two steps double the length
				if over(e.mallocs, prev.mallocs, before.mallocs, 2.6, 4000) {
					return fmt.Errorf("text %q: %d, %d and %d allocations for %d, %d and %d repetitions", short(c.text(2)), before.mallocs, prev.mallocs, e.mallocs, n/4, n/2, n)
				}
				if over(e.blocks, prev.blocks, before.blocks, 2.2, 20000) {
					return fmt.Errorf("text %q: %d, %d and %d steps for %d, %d and %d repetitions", short(c.text(2)), before.blocks, prev.blocks, e.blocks, n/4, n/2, n)
				}
				if over(e.bytes, prev.bytes, before.bytes, 2.6, 1000000) {
					return fmt.Errorf("text %q: %d, %d and %d bytes allocated for %d, %d and %d repetitions", short(c.text(2)), before.bytes, prev.bytes, e.bytes, n/4, n/2, n)
				}
				if os.Getenv("VERIF_WORK") != "" {
					fmt.Printf("RATIO %.2f %.2f %.2f %.2f %q\n", float64(e.mallocs-prev.mallocs)/float64(prev.mallocs-before.mallocs), float64(e.bytes-prev.bytes)/float64(prev.bytes-before.bytes), float64(e.us-prev.us)/float64(prev.us-before.us), float64(e.blocks-prev.blocks)/float64(prev.blocks-before.blocks), short(c.text(2)))
				}
			}
			before, prev, prevLen = prev, e, len(q)
			if n == 100 {
				first, firstLen = e, len(q)
			}
			last, lastLen = e, len(q)
		}
		if lastLen < 4*firstLen {
			return nil
		}
		// time, measured again for as long as it looks bad
		grow := float64(lastLen) / float64(firstLen)
		for try := 0; try < 12; try++ {
			if float64(last.us) <= 5*grow*float64(max(first.us, 200)) {
				return nil
			}
			b := c.measure(c.text(sizes[len(sizes)-1]), 1)
			last.us = min(last.us, b.us)
			if try > 6 {
				a := c.measure(c.text(100), 3)
				first.us = max(first.us, a.us)
			}
		}
		return fmt.Errorf("text %q: %d bytes take %d us, but %d bytes only %d us", short(c.text(2)), lastLen, last.us, firstLen, first.us)
	})
}
