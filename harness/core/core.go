// Package core is a small property-based testing engine. A case is drawn from
// a sequence of recorded choices, so that a failing case can be shrunk by
// shrinking the sequence, whatever the generator looks like. Cases themselves
// are JSON values; a replay file holds the case and needs no generator.
package core

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"sort"
	"unicode/utf8"
)

// T hands out the choices of one case.
type T struct {
	s      uint64
	src    []uint64
	replay bool
	rec    []uint64
}

func splitmix(s *uint64) uint64 {
	*s += 0x9E3779B97F4A7C15
	z := *s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// NewT returns choices from a seed.
func NewT(seed uint64) *T { return &T{s: seed} }

// ReplayT returns the given choices, and then zeros.
func ReplayT(src []uint64) *T { return &T{src: src, replay: true} }

const maxChoices = 1 << 17

// U is a choice from 0 to n-1. Smaller is simpler.
func (t *T) U(n uint64) uint64 {
	if n <= 1 {
		return 0
	}
	var v uint64
	if t.replay {
		if len(t.rec) < len(t.src) {
			v = t.src[len(t.rec)]
			if v >= n {
				v %= n
			}
		}
	} else if len(t.rec) < maxChoices {
		v = splitmix(&t.s) % n
	}
	t.rec = append(t.rec, v)
	return v
}

// N is a choice from 0 to n-1.
func (t *T) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(t.U(uint64(n)))
}

// R is a choice from lo to hi.
func (t *T) R(lo, hi int) int { return lo + t.N(hi-lo+1) }

// P is true in pct of 100 cases; false is simpler.
func (t *T) P(pct int) bool { return t.N(100) >= 100-pct }

// W chooses an index according to weights; the first is the simplest.
func (t *T) W(weights ...int) int {
	sum := 0
	for _, w := range weights {
		sum += w
	}
	v := t.N(sum)
	for i, w := range weights {
		if v < w {
			return i
		}
		v -= w
	}
	return len(weights) - 1
}

// Pick chooses an element.
func Pick[E any](t *T, s []E) E { return s[t.N(len(s))] }

// Size chooses a length up to max: mostly short, sometimes long.
func (t *T) Size(max int) int {
	if h, ok := t.HotInt(0, int64(max)); ok {
		return int(h)
	}
	if max <= 4 {
		return t.N(max + 1)
	}
	switch t.W(60, 25, 10, 5) {
	case 0:
		return t.N(4)
	case 1:
		return t.N(min(max, 8) + 1)
	case 2:
		return t.N(min(max, 40) + 1)
	default:
		return t.N(max + 1)
	}
}

// Bytes is a byte string which survives JSON.
type Bytes string

func (b Bytes) MarshalJSON() ([]byte, error) {
	if utf8.ValidString(string(b)) {
		return json.Marshal(string(b))
	}
	return json.Marshal(map[string]string{"base64": base64.StdEncoding.EncodeToString([]byte(b))})
}

func (b *Bytes) UnmarshalJSON(d []byte) error {
	if len(d) > 0 && d[0] == '{' {
		var m map[string]string
		if err := json.Unmarshal(d, &m); err != nil {
			return err
		}
		raw, err := base64.StdEncoding.DecodeString(m["base64"])
		*b = Bytes(raw)
		return err
	}
	var s string
	err := json.Unmarshal(d, &s)
	*b = Bytes(s)
	return err
}

// Rec collects what a run has covered.
type Rec struct {
	Evals      int
	nontrivial bool
	NT         map[uint64]struct{}
	Labels     map[string]int
	Samples    []json.RawMessage
	muted      bool
}

func NewRec() *Rec {
	return &Rec{NT: map[uint64]struct{}{}, Labels: map[string]int{}}
}

// NonTrivial marks the current case as non-trivial.
func (r *Rec) NonTrivial() { r.nontrivial = true }

// Label counts something seen in this run.
func (r *Rec) Label(l string) {
	if !r.muted {
		r.Labels[l]++
	}
}

// Check is one property's check.
type Check struct {
	ID        string
	Quick     int // cases over all shards
	Thorough  int
	MaxShrink int
	Rule      string
	Assume    []string
	gen       func(*T) any
	decode    func([]byte) (any, error)
	run       func(any, *Rec) error
}

var Checks = map[string]*Check{}

func Register[C any](c Check, gen func(*T) *C, run func(*C, *Rec) error) {
	c.gen = func(t *T) any { return gen(t) }
	c.decode = func(b []byte) (any, error) {
		v := new(C)
		err := json.Unmarshal(b, v)
		return v, err
	}
	c.run = func(v any, r *Rec) error { return run(v.(*C), r) }
	if c.MaxShrink == 0 {
		c.MaxShrink = 3000
	}
	Checks[c.ID] = &c
}

// Skip is returned by a check for a case outside the property.
var ErrSkip = fmt.Errorf("outside the property")

// Broken is the panic of a check that cannot do its work; it ends the run.
type Broken struct{ Err error }

func (c *Check) Eval(v any, r *Rec) (err error) {
	defer func() {
		if p := recover(); p != nil {
			if b, ok := p.(Broken); ok {
				fmt.Fprintln(os.Stderr, "the check cannot be carried out:", b.Err)
				os.Exit(2)
			}
			err = fmt.Errorf("panic: %v\n%s", p, trimStack(debug.Stack()))
		}
	}()
	r.nontrivial = false
	return c.run(v, r)
}

func trimStack(b []byte) []byte {
	if len(b) > 3000 {
		return b[:3000]
	}
	return b
}

// One generates and evaluates one case.
func (c *Check) One(t *T, r *Rec) (any, error) {
	v := c.gen(t)
	err := c.Eval(v, r)
	return v, err
}

// Note accounts for an evaluated case.
func (r *Rec) Note(v any, keepSample bool) {
	r.Evals++
	if !r.nontrivial {
		return
	}
	b, _ := json.Marshal(v)
	h := fnv.New64a()
	h.Write(b)
	r.NT[h.Sum64()] = struct{}{}
	if keepSample && len(b) < 2000 {
		r.Samples = append(r.Samples, b)
	}
}

func (c *Check) Gen(t *T) any { return c.gen(t) }

func (c *Check) Decode(b []byte) (any, error) { return c.decode(b) }

// Hashes returns the distinct non-trivial cases.
func (r *Rec) Hashes() []uint64 {
	out := make([]uint64, 0, len(r.NT))
	for h := range r.NT {
		out = append(out, h)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// Shrink minimises a failing choice sequence.
func (c *Check) Shrink(rec []uint64, budget int, stop func() bool) (any, error, int) {
	mute := NewRec()
	mute.muted = true
	best := append([]uint64(nil), rec...)
	bestV, bestErr := c.One(ReplayT(best), mute)
	tries := 0
	better := func(a, b []uint64) bool {
		if len(a) != len(b) {
			return len(a) < len(b)
		}
		for i := range a {
			if a[i] != b[i] {
				return a[i] < b[i]
			}
		}
		return false
	}
	try := func(cand []uint64) bool {
		if tries >= budget || stop() {
			return false
		}
		tries++
		t := ReplayT(cand)
		v, err := c.One(t, mute)
		if err == nil || err == ErrSkip {
			return false
		}
		got := t.rec
		// trailing zeros are what a replay yields anyway
		for len(got) > 0 && got[len(got)-1] == 0 {
			got = got[:len(got)-1]
		}
		if !better(got, best) {
			return false
		}
		best = append([]uint64(nil), got...)
		bestV, bestErr = v, err
		return true
	}
	for {
		before := append([]uint64(nil), best...)
		for size := len(best) / 2; size >= 1; size /= 2 {
			for i := 0; i+size <= len(best); {
				cand := append(append([]uint64(nil), best[:i]...), best[i+size:]...)
				if !try(cand) {
					i += max(size/2, 1)
				}
				if tries >= budget || stop() {
					break
				}
			}
		}
		for i := 0; i < len(best); i++ {
			if best[i] == 0 {
				continue
			}
			cand := append([]uint64(nil), best...)
			cand[i] = 0
			if try(cand) {
				continue
			}
			lo, hi := uint64(0), best[i]
			for lo+1 < hi && i < len(best) {
				mid := lo + (hi-lo)/2
				cand := append([]uint64(nil), best...)
				cand[i] = mid
				if try(cand) {
					hi = mid
				} else {
					lo = mid
				}
				if tries >= budget || stop() {
					break
				}
			}
		}
		if tries >= budget || stop() || equal(before, best) {
			return bestV, bestErr, tries
		}
	}
}

func equal(a, b []uint64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// Rec returns the choices made so far.
func (t *T) Rec() []uint64 { return t.rec }

// AtEnd is called after the last case of a shard.
var AtEnd = map[string]func() error{}
