package checks

import (
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"strings"

	"github.com/flowchartsman/aql/jsonmatcher"
	"github.com/flowchartsman/aql/sampler"

	"verifharness/core"
	"verifharness/gen"
	"verifharness/ref"
)

// docCase is a query, or the sampler, and a family of documents: head, a unit
// repeated, tail; # in a unit is its number, $ an address of that number.
type docCase struct {
	Query  Bytes `json:"query"`
	Sample bool  `json:"sample"`
	Depth  int   `json:"depth"`
	Head   Bytes `json:"head"`
	Unit   Bytes `json:"unit"`
	Tail   Bytes `json:"tail"`
	Large  bool  `json:"large,omitempty"` // also eight times the size, for the time it takes
}

func (c *docCase) text(n int) []byte {
	var sb strings.Builder
	sb.WriteString(string(c.Head))
	for i := range n {
		s := strings.ReplaceAll(string(c.Unit), "#", strconv.Itoa(10001+i))
		sb.WriteString(strings.ReplaceAll(s, "$", gen.Dotted(0x0A000000+uint32(i))))
	}
	sb.WriteString(string(c.Tail))
	return []byte(sb.String())
}

// holes are places of a document where units can be repeated
func growDoc(g *gen.Gen, path []string) (head, unit, tail string) {
	t := g.T
	scalar := func() string { return gen.Plain(g.Scalar()) }
	key := func(s string) string { b, _ := json.Marshal(s); return string(b) }
	last := path[len(path)-1]
	lead := key(last)
	switch t.W(1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 3) {
	case 0: // values of the field
		head, unit, tail = lead+":[", scalar()+",", scalar()+"]"
	case 1:
		head, unit, tail = lead+":[", "#,", "1]"
	case 2:
		head, unit, tail = lead+":[", `"x#",`, `"x"]`
	case 3: // a long text
		head, unit, tail = lead+`:"`, core.Pick(t, []string{"x", "ab ", "é", "1", "1.2.3.4 ", "2020-01-02 ", "\\u0041", "\\n", "x#", "0", "-", ".", "*", "A?", "ß", "1.2.3.4/8,"}), `"`
	case 4: // a long number
		head, unit, tail = lead+":1", core.Pick(t, []string{"0", "9"}), ".5"
	case 5: // other keys before the field
		head, unit, tail = "", `"k#":`+scalar()+",", lead+":"+scalar()
	case 6: // other keys after
		head, unit, tail = lead+":"+scalar(), `,"k#":`+scalar(), ""
	case 7: // objects in an array
		head, unit, tail = lead+":[", `{"a":`+scalar()+"},", "{}]"
	case 8:
		head, unit, tail = `"k":[`, `{"`+"#"+`":[`+scalar()+`,{}]},`, "0],"+lead+":"+scalar()
	case 9: // blanks
		head, unit, tail = lead+":", core.Pick(t, []string{" ", "\n", " \t"}), scalar()
	case 10: // deep values elsewhere; the sampler reads a level only once per level
		head, unit, tail = `"k":[`, "[[[1],2],[]],", "3],"+lead+":"+scalar()
	case 11: // long keys
		head, unit, tail = `"`, core.Pick(t, []string{"x", "é", "\\n", "\\u0041", "k."}), `":1,`+lead+":"+scalar()
	case 12: // timestamps and addresses
		head, unit, tail = lead+":[", core.Pick(t, []string{`"2020-01-02T03:04:05Z",`, `"1.2.3.4",`, `"$",`, `"10.0.0.0/8",`, `"2020-01-02",`, `1577934245,`, `"a 1.2.3.4 b",`}), "1]"
	case 14: // a text of many different things to find
		head, unit, tail = lead+`:"`, core.Pick(t, []string{"$ ", "$/28, ", "x$", "# ", "a# ", "$,#;", "A#é"}), `"`
	case 13: // arrays of arrays, which are not looked into
		head, unit, tail = lead+":[", "["+scalar()+","+scalar()+"],", scalar()+"]"
	}
	head, tail = "{"+head, tail+"}"
	for i := len(path) - 2; i >= 0; i-- {
		head, tail = "{"+key(path[i])+":"+head, tail+"}"
		if t.P(30) {
			head, tail = "{"+key(path[i])+":["+head[len(key(path[i]))+2:], tail[:len(tail)-1]+"]}"
		}
	}
	if len(path) > 1 && t.P(20) {
		// the objects on the way are what is repeated
		head, unit, tail = "{"+key(path[0])+":[", "{"+key(path[1])+":"+scalar()+"},", "{}]}"
	}
	return
}

func init() {
	core.Register(core.Check{ID: "C30", Quick: 1400, Thorough: 16000, MaxShrink: 60,
		Rule:   "A fixed query of up to 3 clauses of every operator and term type (or a sampler of any depth) and a family of documents that grow by repeating a unit, equal or numbered: values of an array, texts, numbers, keys before and after, objects on the way, blanks, nested arrays; from a quarter and a half to the full size of about 60 kB executed blocks of the library and of the JSON and date readers may grow by 2.2, allocations by 2.6 and bytes by 3.4 where length grows by 2, again at twice that size, and time may be five times what the length explains, or three times from 60 to 500 kB in one case of four. Non-trivial: the work at the full size is more than twice that at half the size less a tenth.",
		Assume: []string{"work shows in executed blocks of the library and the readers it uses, in allocations or in processor time", "a growth of time must persist in the best of many measurements"},
	}, func(t *T) *docCase {
		g := gen.New(t, gen.Opts{MaxDepth: 2})
		g.Doc()
		path := []string{core.Pick(t, []string{"a", "b", "key"})}
		for t.P(35) && len(path) < 4 {
			path = append(path, core.Pick(t, []string{"a", "b", "key"}))
		}
		h, u, l := growDoc(g, path)
		c := &docCase{Head: Bytes(h), Unit: Bytes(u), Tail: Bytes(l), Sample: t.P(25), Depth: t.R(-1, 5), Large: t.P(15)}
		if strings.ContainsAny(u, "#$") {
			c.Large = t.P(50)
		}
		if v, ok, _ := ref.JSON(c.text(3)); ok {
			g.Roots = []*ref.JV{v}
		}
		c.Query = Bytes(g.Query(3, g.Clause))
		return c
	}, func(c *docCase, r *Rec) error {
		if len(c.Unit) == 0 || !json.Valid(c.text(2)) {
			return core.ErrSkip
		}
		q := string(c.Query)
		var do func(doc []byte) error
		name := "sampling"
		if c.Sample {
			do = func(doc []byte) error { return sampler.New(c.Depth).Sample(doc) }
		} else {
			if valid(q) == nil {
				return core.ErrSkip
			}
			m, err := jsonmatcher.NewMatcher(q)
			if err != nil {
				return fmt.Errorf("query %q rejected: %v", short(q), err)
			}
			name = fmt.Sprintf("matching %q", short(q))
			do = func(doc []byte) error { _, err := m.Match(doc); return err }
		}
		r.Label(strings.Fields(name)[0])
		what := fmt.Sprintf("%s, documents like %q", name, short(string(c.text(2))))
		big := max(64, min(8000, 60000/len(c.Unit)))
		sizes := []int{10, 20, big / 4, big / 2, big}
		var es []effort
		var lens []int
		for _, n := range sizes {
			doc := c.text(n)
			if !json.Valid(doc) {
				return core.ErrSkip
			}
			var err error
			do(doc) // what is prepared once is not counted
			e := measured(1, func() { err = do(doc) })
			if err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
			es, lens = append(es, e), append(lens, len(doc))
			if os.Getenv("VERIF_WORK") != "" {
				fmt.Printf("%6d bytes %8d allocs %10d bytes %8d blocks %8d us  %q\n", len(doc), e.mallocs, e.bytes, e.blocks, e.us, what)
			}
		}
		a, b, e := es[2], es[3], es[4]
		// a clause may be decided by what only the longer documents have, and
		// others then be asked or spared; growth goes on at twice the size
		twice := c.text(2 * big)
		goesOn := func(what func(effort) uint64, factor, slack float64) bool {
			if !over(what(e), what(b), what(a), factor, slack) {
				return false
			}
			do(twice)
			f := measured(1, func() { do(twice) })
			return over(what(f), what(e), what(b), factor, slack)
		}
		if goesOn(func(x effort) uint64 { return x.mallocs }, 2.6, 2000) {
			return fmt.Errorf("%s: %d, %d and %d allocations for %d, %d and %d repetitions", what, a.mallocs, b.mallocs, e.mallocs, big/4, big/2, big)
		}
		if goesOn(func(x effort) uint64 { return x.blocks }, 2.2, 20000) {
			return fmt.Errorf("%s: %d, %d and %d steps for %d, %d and %d repetitions", what, a.blocks, b.blocks, e.blocks, big/4, big/2, big)
		}
		if goesOn(func(x effort) uint64 { return x.bytes }, 3.4, 2000000) {
			return fmt.Errorf("%s: %d, %d and %d bytes allocated for %d, %d and %d repetitions", what, a.bytes, b.bytes, e.bytes, big/4, big/2, big)
		}
		if os.Getenv("VERIF_WORK") != "" && b.blocks > a.blocks+1000 {
			fmt.Printf("RATIO %.2f %.2f %.2f %.2f %q\n", float64(e.mallocs-b.mallocs)/float64(b.mallocs-a.mallocs), float64(e.bytes-b.bytes)/float64(b.bytes-a.bytes), float64(e.us-b.us)/float64(b.us-a.us), float64(e.blocks-b.blocks)/float64(b.blocks-a.blocks), what)
		}
		if 10*e.blocks > 19*b.blocks || 10*e.mallocs > 19*b.mallocs {
			r.NonTrivial()
		}
		// time, measured again for as long as it looks bad
		grow := float64(lens[4]) / float64(lens[2])
		first, last := a.us, e.us
		for try := 0; try < 12; try++ {
			if float64(last) <= 5*grow*float64(max(first, 500)) {
				break
			}
			if try == 11 {
				return fmt.Errorf("%s: %d bytes take %d us, but %d bytes only %d us", what, lens[4], last, lens[2], first)
			}
			last = min(last, measured(1, func() { do(c.text(big)) }).us)
			if try > 6 {
				first = max(first, measured(3, func() { do(c.text(big / 4)) }).us)
			}
		}
		if !c.Large {
			return nil
		}
		// what is quick in each step shows only when there are very many
		r.Label("large")
		doc := c.text(8 * big)
		grow = float64(len(doc)) / float64(lens[4])
		first, last = e.us, 1<<60
		for range 5 {
			last = min(last, measured(1, func() { do(doc) }).us)
			if os.Getenv("VERIF_WORK") != "" {
				fmt.Printf("LARGE %.2f %d %d %q\n", float64(last)/float64(max(first, 2000))/grow, first, last, what)
			}
			if float64(last) <= 3*grow*float64(max(first, 2000)) {
				return nil
			}
			first = max(first, measured(3, func() { do(c.text(big)) }).us)
		}
		return fmt.Errorf("%s: %d bytes take %d us, but %d bytes only %d us", what, len(doc), last, lens[4], first)
	})
}
