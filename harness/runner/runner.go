// Package runner is the command line of a shard.
package runner

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/metrics"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"verifharness/core"
)

// Exit codes.
const (
	ExitFail = 10 // the property is broken by the case in -fail
	ExitHang = 11 // the case in -progress took too long or too much memory
)

// memLimit is many times what any case takes while the library behaves.
const memLimit = 2500 << 20

type stats struct {
	Evals   int               `json:"evals"`
	Skipped int               `json:"skipped"`
	Labels  map[string]int    `json:"labels"`
	Samples []json.RawMessage `json:"samples"`
	Rule    string            `json:"rule"`
	Assume  []string          `json:"assume"`
}

type failure struct {
	Property string          `json:"property"`
	Message  string          `json:"message"`
	Case     json.RawMessage `json:"case"`
	Seed     uint64          `json:"seed"`
	Index    int             `json:"index"`
}

func mix(a, b uint64) uint64 {
	x := a ^ b*0x9E3779B97F4A7C15
	x ^= x >> 32
	x *= 0xD6E8FEB86659FD93
	x ^= x >> 32
	x *= 0xD6E8FEB86659FD93
	x ^= x >> 32
	return x
}

// Main runs a shard.
func Main() {
	id := flag.String("id", "", "property")
	seed := flag.Uint64("seed", 1, "seed of the shard")
	n := flag.Int("n", 0, "cases")
	out := flag.String("out", "", "prefix of output files")
	replay := flag.String("replay", "", "evaluate the case in this file")
	emit := flag.Int("emit", -1, "write the case of this index and stop")
	count := flag.String("count", "", "print the number of cases of a tier")
	limit := flag.Duration("limit", 60*time.Second, "time for one case")
	shrinkFor := flag.Duration("shrink", 40*time.Second, "time for shrinking")
	root := flag.String("root", "/repo", "sources, for the dictionary")
	baseline := flag.String("baseline", "", "literals not to put into the dictionary")
	lits := flag.Bool("literals", false, "print the literals of the sources")
	flag.Parse()
	// a zone unlike UTC, so that local times show
	time.Local = time.FixedZone("VST", -(7*3600 + 1800))

	if *lits {
		for _, l := range core.SourceLiterals(*root) {
			fmt.Println(l)
		}
		return
	}
	c := core.Checks[*id]
	if c == nil {
		fmt.Fprintln(os.Stderr, "no such check:", *id)
		os.Exit(2)
	}
	if *count != "" {
		if *count == "quick" {
			fmt.Println(c.Quick)
		} else {
			fmt.Println(c.Thorough)
		}
		return
	}
	var started atomic.Int64
	var current atomic.Int64
	go func() {
		mem := []metrics.Sample{{Name: "/memory/classes/total:bytes"}, {Name: "/memory/classes/heap/released:bytes"}}
		for {
			time.Sleep(20 * time.Millisecond)
			s := started.Load()
			metrics.Read(mem)
			if used := mem[0].Value.Uint64() - mem[1].Value.Uint64(); used > memLimit {
				fmt.Fprintf(os.Stderr, "case %d takes more than %d MB of memory\n", current.Load(), memLimit>>20)
				os.Exit(ExitHang)
			}
			if s != 0 && time.Since(time.Unix(0, s)) > *limit {
				fmt.Fprintf(os.Stderr, "case %d takes longer than %v\n", current.Load(), *limit)
				os.Exit(ExitHang)
			}
		}
	}()
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var f failure
		if err := json.Unmarshal(b, &f); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		v, err := c.Decode(f.Case)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		started.Store(time.Now().UnixNano())
		if err := c.Eval(v, core.NewRec()); err != nil && err != core.ErrSkip {
			fmt.Println(err)
			os.Exit(ExitFail)
		}
		return
	}
	if *baseline != "" {
		core.LoadDict(*root, *baseline)
	}
	if *emit >= 0 {
		v := c.Gen(core.NewT(mix(*seed, uint64(*emit))))
		b, _ := json.Marshal(v)
		write(*out+".fail.json", failure{Property: c.ID, Case: b, Seed: *seed, Index: *emit})
		return
	}
	prog, err := os.Create(*out + ".progress")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	rec := core.NewRec()
	skipped := 0
	var idx [8]byte
	for i := 0; i < *n; i++ {
		binary.LittleEndian.PutUint64(idx[:], uint64(i))
		prog.WriteAt(idx[:], 0)
		current.Store(int64(i))
		started.Store(time.Now().UnixNano())
		t := core.NewT(mix(*seed, uint64(i)))
		v, err := c.One(t, rec)
		if err == core.ErrSkip {
			skipped++
			continue
		}
		if err != nil {
			started.Store(0)
			// first as found, in case shrinking does not come back
			b, _ := json.Marshal(v)
			f := failure{Property: c.ID, Message: err.Error(), Case: b, Seed: *seed, Index: i}
			write(*out+".found.json", f)
			end := time.Now().Add(*shrinkFor)
			sv, serr, _ := c.Shrink(t.Rec(), c.MaxShrink, func() bool { return time.Now().After(end) })
			if serr != nil && serr != core.ErrSkip {
				b, _ = json.Marshal(sv)
				f.Case, f.Message = b, serr.Error()
			}
			write(*out+".fail.json", f)
			fmt.Println(f.Message)
			os.Exit(ExitFail)
		}
		keep := len(rec.Samples) < 3 || i&(i-1) == 0
		rec.Note(v, keep)
	}
	started.Store(0)
	if f := core.AtEnd[*id]; f != nil {
		if err := f(); err != nil {
			write(*out+".fail.json", failure{Property: c.ID, Message: err.Error(), Case: []byte("null"), Seed: *seed, Index: *n - 1})
			fmt.Println(err)
			os.Exit(ExitFail)
		}
	}
	if len(rec.Samples) > 12 {
		rec.Samples = rec.Samples[:12]
	}
	write(*out+".stats.json", stats{Evals: rec.Evals, Skipped: skipped, Labels: rec.Labels, Samples: rec.Samples, Rule: c.Rule, Assume: c.Assume})
	hs := rec.Hashes()
	buf := make([]byte, 0, 8*len(hs))
	for _, h := range hs {
		buf = binary.LittleEndian.AppendUint64(buf, h)
	}
	if err := os.WriteFile(*out+".hashes", buf, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if os.Getenv("VERIF_LABELS") != "" {
		var ls []string
		for l, k := range rec.Labels {
			ls = append(ls, fmt.Sprintf("%8d %s", k, l))
		}
		sort.Strings(ls)
		fmt.Printf("evals %d skipped %d nontrivial %d\n%s\n", rec.Evals, skipped, len(hs), strings.Join(ls, "\n"))
	}
}

func write(path string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err == nil {
		err = os.WriteFile(path, b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}
