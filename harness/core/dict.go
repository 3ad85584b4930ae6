package core

import (
	"bufio"
	"go/scanner"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

// The dictionary holds the literals of the sources under test which are not in
// the recorded list, as fuzzers do to get past comparisons with constants. It
// only steers generation: a verdict never depends on it. On the recorded tree
// it is empty.
var (
	hotInts []int64
	hotStrs []string
	hotRune []rune
)

// SourceLiterals returns "file literal" for every literal of the Go sources
// below root, except tests and the tables of the generated parser.
func SourceLiterals(root string) []string {
	seen := map[string]bool{}
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			if err == nil && fi.IsDir() && fi.Name() == ".git" {
				return filepath.SkipDir
			}
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return nil
		}
		if i := strings.Index(string(b), "\nvar g = &grammar{"); i >= 0 {
			// keep what is before and after the grammar table
			rest := b[i:]
			if j := strings.Index(string(rest), "\n}\n"); j >= 0 {
				b = append(append([]byte(nil), b[:i]...), rest[j+3:]...)
			}
		}
		rel, _ := filepath.Rel(root, p)
		var s scanner.Scanner
		fs := token.NewFileSet()
		s.Init(fs.AddFile(p, fs.Base(), len(b)), b, func(token.Position, string) {}, 0)
		for {
			_, tok, lit := s.Scan()
			if tok == token.EOF {
				break
			}
			switch tok {
			case token.INT, token.FLOAT, token.CHAR, token.STRING:
				seen[rel+" "+strconv.Quote(lit)] = true
			}
		}
		return nil
	})
	out := make([]string, 0, len(seen))
	for k := range seen {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// LoadDict fills the dictionary.
func LoadDict(root, baseline string) {
	known := map[string]bool{}
	if f, err := os.Open(baseline); err == nil {
		sc := bufio.NewScanner(f)
		sc.Buffer(make([]byte, 1<<20), 1<<20)
		for sc.Scan() {
			known[sc.Text()] = true
		}
		f.Close()
	} else {
		return
	}
	for _, l := range SourceLiterals(root) {
		if known[l] {
			continue
		}
		_, q, _ := strings.Cut(l, " ")
		lit, err := strconv.Unquote(q)
		if err != nil {
			continue
		}
		if n, err := strconv.ParseInt(lit, 0, 64); err == nil {
			hotInts = append(hotInts, n)
			continue
		}
		if f, err := strconv.ParseFloat(lit, 64); err == nil && f > -1e15 && f < 1e15 {
			hotInts = append(hotInts, int64(f))
			continue
		}
		s, err := strconv.Unquote(lit)
		if err != nil {
			continue
		}
		if lit[0] == '\'' {
			r, _ := utf8.DecodeRuneInString(s)
			hotRune = append(hotRune, r)
		} else if s != "" && len(s) < 200 {
			hotStrs = append(hotStrs, s)
			for i, r := range s {
				if i < 12 && r != utf8.RuneError {
					hotRune = append(hotRune, r)
				}
			}
		}
	}
	if len(hotInts) > 40 {
		hotInts = hotInts[:40]
	}
	if len(hotStrs) > 40 {
		hotStrs = hotStrs[:40]
	}
	if len(hotRune) > 40 {
		hotRune = hotRune[:40]
	}
}

// HotInt sometimes returns a number next to one of the dictionary.
func (t *T) HotInt(lo, hi int64) (int64, bool) {
	if len(hotInts) == 0 || !t.P(20) {
		return 0, false
	}
	n := hotInts[t.N(len(hotInts))] + []int64{0, 1, -1}[t.N(3)]
	if n < lo || n > hi {
		return 0, false
	}
	return n, true
}

// HotStr sometimes returns a string of the dictionary.
func (t *T) HotStr() (string, bool) {
	if len(hotStrs) == 0 || !t.P(20) {
		return "", false
	}
	s := hotStrs[t.N(len(hotStrs))]
	switch t.W(60, 8, 8, 8, 8, 8) {
	case 1:
		s = strings.ToUpper(s)
	case 2:
		s = strings.ToLower(s)
	case 3:
		s += "a"
	case 4:
		s = "a" + s
	case 5:
		s += " " + s
	}
	return s, true
}

// HotRune sometimes returns a character of the dictionary.
func (t *T) HotRune() (rune, bool) {
	if len(hotRune) == 0 || !t.P(15) {
		return 0, false
	}
	return hotRune[t.N(len(hotRune))], true
}
