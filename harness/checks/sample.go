package checks

import (
	"encoding/json"
	"fmt"
	"regexp"
	"sort"
	"strings"

	"github.com/flowchartsman/aql/sampler"

	"verifharness/core"
	"verifharness/gen"
	"verifharness/ref"
)

type sampleStep struct {
	Do  string `json:"do"` // sample reset
	Doc Bytes  `json:"doc"`
	// Quiet steps are not followed by a look at the keys
	Quiet bool `json:"quiet,omitempty"`
	// More is how often the document is sampled again
	More int `json:"more,omitempty"`
}

type sampleCase struct {
	Depth int          `json:"depth"`
	Steps []sampleStep `json:"steps"`
	Pcts  []int        `json:"pcts"`
}

// paths lists the key sequences to scalars.
func paths(v *ref.JV, depth int) map[string]bool {
	out := map[string]bool{}
	var walk func(v *ref.JV, at []string)
	walk = func(v *ref.JV, at []string) {
		switch v.K {
		case 'o':
			for i, k := range v.Keys {
				walk(v.Vals[i], append(at, k)) // read before the next key is put there
			}
		case 'a':
			for _, e := range v.Vals {
				if e.K != 'a' {
					walk(e, at)
				}
			}
		default:
			if len(at) > 0 && (depth < 0 || len(at) <= depth) {
				out[keySeq(at)] = true
			}
		}
	}
	walk(v, nil)
	return out
}

func keySeq(at []string) string {
	b, _ := json.Marshal(at)
	return string(b)
}

// readPath takes a reported path as a query field.
func readPath(p string) (string, bool) {
	if s, ok := pathMemo[p]; ok {
		return s, s != p
	}
	if len(pathMemo) > 5000 {
		clear(pathMemo)
	}
	s, ok := readPathAnew(p)
	if len(p) < 500 {
		pathMemo[p] = s
	}
	return s, ok
}

var pathMemo = map[string]string{}

func readPathAnew(p string) (string, bool) {
	res := ref.Query(p + ":exists")
	if !res.OK || res.Root.Kind != "expr" || res.Root.Op != "exists" {
		return p, false
	}
	return keySeq(res.Root.Field), true
}

var plainPath = regexp.MustCompile(`^[A-Za-z0-9_-]+$`)

// needless is true if a path is quoted though all its keys are plain names.
func needless(p string) bool {
	if !strings.Contains(p, `"`) {
		return false
	}
	res := ref.Query(p + ":exists")
	if !res.OK || res.Root.Kind != "expr" {
		return false
	}
	for _, k := range res.Root.Field {
		switch strings.ToLower(k) {
		case "and", "or", "not":
			return false
		}
		if !plainPath.MatchString(k) {
			return false
		}
	}
	return true
}

func listed(keys []string) (map[string]bool, error) {
	out := map[string]bool{}
	for _, k := range keys {
		s, _ := readPath(k)
		if needless(k) {
			return nil, fmt.Errorf("path %q has quotes it does not need", k)
		}
		if out[s] {
			return nil, fmt.Errorf("path %q listed twice in %q", k, keys)
		}
		out[s] = true
	}
	return out, nil
}

func diff(got, want map[string]bool) string {
	var out []string
	for k := range got {
		if !want[k] {
			out = append(out, "unexpected "+k)
		}
	}
	for k := range want {
		if !got[k] {
			out = append(out, "missing "+k)
		}
	}
	sort.Strings(out)
	return short(strings.Join(out, ", "))
}

func sampleDoc(g *gen.Gen, t *T) string {
	var v *ref.JV
	switch t.W(70, 20, 10) {
	case 0:
		v = g.Object(0)
	case 1:
		v = g.Array(0)
	default:
		v = g.Doc()
	}
	return g.Render(v, gen.Style{Spaces: t.P(20), Escapes: t.P(20), Numbers: t.P(20)})
}

func init() {
	core.Register(core.Check{ID: "C21", Quick: 40000, Thorough: 800000,
		Rule: "A sampler of depth -2 to 6 and 1-15 (sometimes 120) steps: sample a document, rarely some hundred or 65000 times (object, array, nested, empty, scalar, damaged, arbitrary bytes, deep), or reset; after every step, or after some of them, keys, keys at several thresholds and the count are compared with a model. Documents accepted though they are not valid JSON end the comparison of keys until the next reset. Non-trivial: at least two documents with different keys were sampled since a reset.",
	}, func(t *T) *sampleCase {
		g := gen.New(t, gen.Opts{MaxDepth: 4, OddKeys: t.P(30), Big: true})
		c := &sampleCase{Depth: []int{-1, 0, 1, 2, 3, 4, 6, -2, 100}[t.W(20, 5, 15, 20, 15, 10, 10, 3, 2)]}
		n := t.R(1, 15)
		if t.P(3) {
			n = t.Size(120)
		}
		var docs []string
		for ; n > 0; n-- {
			switch t.W(72, 15, 6, 7) {
			case 0:
				if len(docs) > 0 && t.P(30) {
					c.Steps = append(c.Steps, sampleStep{Do: "sample", Doc: Bytes(core.Pick(t, docs))})
					continue
				}
				d := sampleDoc(g, t)
				docs = append(docs, d)
				c.Steps = append(c.Steps, sampleStep{Do: "sample", Doc: Bytes(d)})
			case 1:
				c.Steps = append(c.Steps, sampleStep{Do: "sample", Doc: Bytes(genRawDoc(t, g))})
			case 2:
				c.Steps = append(c.Steps, sampleStep{Do: "reset"})
			case 3:
				// cut off
				d := sampleDoc(g, t)
				c.Steps = append(c.Steps, sampleStep{Do: "sample", Doc: Bytes(d[:t.N(len(d)+1)])})
			}
		}
		if len(docs) > 0 && t.P(2) {
			// a small document very often
			more := t.R(50, 600)
			if t.P(5) {
				more = 1<<16 + t.R(-5, 600)
			}
			for i, st := range c.Steps {
				if st.Do == "sample" && len(st.Doc) < 200 {
					c.Steps[i].More = more
					break
				}
			}
		}
		if t.P(50) {
			for i := range c.Steps {
				c.Steps[i].Quiet = i < len(c.Steps)-1 && t.P(50)
			}
		}
		for n := t.R(1, 4); n > 0; n-- {
			c.Pcts = append(c.Pcts, []int{t.N(101), 50, 100, 0, 33, 34, 66, 67, 1, 99, -5, 101}[t.W(40, 10, 15, 5, 5, 5, 5, 5, 3, 3, 2, 2)])
		}
		return c
	}, func(c *sampleCase, r *Rec) error {
		s := sampler.New(c.Depth)
		counts := map[string]int{}
		docs := 0
		unsure := false
		kinds := map[string]bool{}
		look := func(at int) error {
			if s.Scanned() != docs {
				return fmt.Errorf("step %d: %d documents counted, want %d", at, s.Scanned(), docs)
			}
			if unsure {
				return nil
			}
			got, err := listed(s.Keys())
			if err != nil {
				return fmt.Errorf("step %d: %v", at, err)
			}
			want := map[string]bool{}
			for k := range counts {
				want[k] = true
			}
			if d := diff(got, want); d != "" {
				return fmt.Errorf("step %d: keys: %s", at, d)
			}
			for _, p := range c.Pcts {
				got, err := listed(s.KeysAtThreshold(p))
				if err != nil {
					return fmt.Errorf("step %d: %v", at, err)
				}
				want := map[string]bool{}
				for k, n := range counts {
					if n*100 >= p*docs {
						want[k] = true
					}
				}
				if d := diff(got, want); d != "" {
					return fmt.Errorf("step %d: keys in at least %d%% of %d documents: %s", at, p, docs, d)
				}
			}
			return nil
		}
		if err := look(-1); err != nil {
			return err
		}
		for i, st := range c.Steps {
			if st.Do == "reset" {
				s.Reset()
				counts, docs, unsure = map[string]int{}, 0, false
				kinds = map[string]bool{}
			} else {
				v, ok, odd := ref.JSON([]byte(st.Doc))
				if odd {
					return core.ErrSkip
				}
				buf := []byte(st.Doc)
				err := s.Sample(buf)
				if string(buf) != string(st.Doc) {
					return fmt.Errorf("step %d: document %q changed", i, short(string(st.Doc)))
				}
				for range st.More {
					if err := s.Sample(buf); ok && !v.Scalar() && err != nil {
						return fmt.Errorf("step %d: document %q rejected when sampled again: %v", i, short(string(st.Doc)), err)
					}
				}
				for j := range buf {
					buf[j] = '#'
				}
				switch {
				case ok && !v.Scalar():
					if err != nil {
						return fmt.Errorf("step %d: document %q rejected: %v", i, short(string(st.Doc)), err)
					}
					docs += 1 + st.More
					found := paths(v, c.Depth)
					for k := range found {
						counts[k] += 1 + st.More
					}
					kinds[diff(found, nil)] = true
					if len(kinds) > 1 {
						r.NonTrivial()
					}
					r.Label("sampled")
				case err == nil:
					docs += 1 + st.More
					if ok {
						// a scalar has no paths
						break
					}
					unsure = true
					r.Label("invalid but accepted")
				default:
					r.Label("rejected")
				}
			}
			if st.Quiet {
				continue
			}
			if err := look(i); err != nil {
				return fmt.Errorf("%v (depth %d, document %q)", err, c.Depth, short(string(st.Doc)))
			}
		}
		return nil
	})

	core.Register(core.Check{ID: "C22", Quick: 60000, Thorough: 1200000,
		Rule: "1-3 documents with keys of every kind (empty, spaces, dots, stars, quotes, backslashes, brackets, control characters, any language, operators and keywords), nested up to 4 deep; each reported path is used as the field of an exists query on the document, and the number of paths is compared with the number of key sequences. Non-trivial: a key is not of letters, digits, - and _ only.",
	}, func(t *T) *MatchCase {
		g := gen.New(t, gen.Opts{MaxDepth: 4, OddKeys: true, Big: t.P(20)})
		c := &MatchCase{}
		for i := range g.Keys {
			switch t.W(30, 35, 20, 15) {
			case 1:
				g.Keys[i] = g.Phrase()
			case 2:
				g.Keys[i] = core.Pick(t, g.Keys) + core.Pick(t, []string{".", "\".\"", "*", "\\", "\"", " ", "[0]", "..", "\n", "\\\"", "-", "é", ":", ")"}) + core.Pick(t, g.Keys)
			case 3:
				var sb strings.Builder
				for n := t.Size(6); n > 0; n-- {
					sb.WriteRune(g.Rune())
				}
				g.Keys[i] = sb.String()
			}
			if len(g.Keys[i]) > 200 {
				g.Keys[i] = "k"
			}
		}
		for n := t.R(1, 3); n > 0; n-- {
			var v *ref.JV
			if t.P(85) {
				v = g.Object(0)
			} else {
				v = g.Array(0)
			}
			c.Docs = append(c.Docs, Bytes(g.Render(v, gen.Style{Spaces: t.P(20), Escapes: t.P(30)})))
		}
		return c
	}, func(c *MatchCase, r *Rec) error {
		all := map[string]bool{}
		total := sampler.New(-1)
		for _, d := range c.Docs {
			v, ok, odd := ref.JSON([]byte(d))
			if !ok || odd || v.Scalar() {
				return core.ErrSkip
			}
			s := sampler.New(-1)
			if err := s.Sample([]byte(d)); err != nil {
				return fmt.Errorf("document %q rejected: %v", short(string(d)), err)
			}
			total.Sample([]byte(d))
			for p := range paths(v, -1) {
				all[p] = true
			}
			for _, k := range s.Keys() {
				got, err := ask(k+":exists", string(d))
				if err != nil {
					return err
				}
				if !got {
					return fmt.Errorf("path %q of document %q does not exist in it", k, short(string(d)))
				}
				if strings.ContainsAny(k, `"`) {
					r.NonTrivial()
				}
			}
			if len(s.Keys()) != len(paths(v, -1)) {
				return fmt.Errorf("document %q has %d paths, but %q are reported", short(string(d)), len(paths(v, -1)), s.Keys())
			}
		}
		if len(total.Keys()) != len(all) {
			return fmt.Errorf("documents %q have %d paths, but %q are reported", c.Docs, len(all), total.Keys())
		}
		return nil
	})
}
