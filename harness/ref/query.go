package ref

import (
	"fmt"
	"math/big"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"
)

// Pos is where a token is: byte offset, 1-based line and column in characters,
// length in characters.
type Pos struct{ Offset, Line, Col, Len int }

// Node is a query tree.
type Node struct {
	Kind  string // and or not expr
	L, R  *Node
	Field []string
	Op    string
	Vals  []*Val
	Pos   Pos
	Src   string // as written, for a comparison
}

// Val is a term.
type Val struct {
	Kind string // string regex timestamp integer float boolean netaddr
	Text string // as written
	S    string // value of a string, source of a regular expression
	B    bool
	I    int64
	F    float64
	Time Instant
	Day  bool
	Net  Block
	Pos  Pos
}

// Instant is a moment: seconds since 1970 and nanoseconds.
type Instant struct {
	Sec  int64
	Nano int64
}

// Cmp compares instants.
func (a Instant) Cmp(b Instant) int {
	switch {
	case a.Sec < b.Sec || a.Sec == b.Sec && a.Nano < b.Nano:
		return -1
	case a == b:
		return 0
	}
	return 1
}

// Block is an IPv4 block.
type Block struct {
	Addr uint32
	Bits int
}

func (b Block) mask() uint32 {
	if b.Bits == 0 {
		return 0
	}
	return ^uint32(0) << (32 - b.Bits)
}

// Overlaps is true if the blocks share an address.
func (b Block) Overlaps(o Block) bool {
	m := b.mask() & o.mask()
	return b.Addr&m == o.Addr&m
}

type qp struct {
	s    string
	i    int
	bad  string // the first malformed token
	badP int
	gray bool // acceptance is not settled by the documentation
}

// Result of parsing a query text.
type Result struct {
	Root *Node
	OK   bool // well-formed; operator rules are not considered
	Gray bool
	Why  string
}

// Query parses a query text.
func Query(s string) Result {
	if !utf8.ValidString(s) {
		return Result{Why: "invalid encoding"}
	}
	p := &qp{s: s}
	p.ws()
	n := p.or(0)
	if n != nil {
		p.ws()
	}
	switch {
	case p.bad != "":
		return Result{Why: p.bad, Gray: p.gray}
	case n == nil:
		return Result{Why: "no query", Gray: p.gray}
	case p.i != len(s):
		return Result{Why: "trailing text", Gray: p.gray}
	}
	lines := newLines(s)
	n.setPos(lines)
	return Result{Root: n, OK: true, Gray: p.gray}
}

func (n *Node) setPos(l *lines) {
	if n == nil {
		return
	}
	n.L.setPos(l)
	n.R.setPos(l)
	if n.Kind == "expr" {
		n.Pos = l.pos(n.Pos.Offset, n.Pos.Len)
		for _, v := range n.Vals {
			v.Pos = l.pos(v.Pos.Offset, v.Pos.Len)
		}
	}
}

type lines struct {
	s      string
	starts []int
}

func newLines(s string) *lines {
	l := &lines{s: s, starts: []int{0}}
	for i := 0; i < len(s); i++ {
		if s[i] == '\n' {
			l.starts = append(l.starts, i+1)
		}
	}
	return l
}

// pos converts a byte range.
func (l *lines) pos(off, blen int) Pos {
	lo, hi := 0, len(l.starts)
	for lo+1 < hi {
		m := (lo + hi) / 2
		if l.starts[m] <= off {
			lo = m
		} else {
			hi = m
		}
	}
	return Pos{
		Offset: off,
		Line:   lo + 1,
		Col:    utf8.RuneCountInString(l.s[l.starts[lo]:off]) + 1,
		Len:    utf8.RuneCountInString(l.s[off : off+blen]),
	}
}

// LineCol returns the 1-based line and column of an offset.
func LineCol(s string, off int) (int, int) {
	p := newLines(s).pos(off, 0)
	return p.Line, p.Col
}

func isWS(c byte) bool { return c == ' ' || c == '\n' || c == '\t' || c == '\r' }

func (p *qp) ws() bool {
	st := p.i
	for p.i < len(p.s) && isWS(p.s[p.i]) {
		p.i++
	}
	return p.i > st
}

func (p *qp) lit(s string) bool {
	if strings.HasPrefix(p.s[p.i:], s) {
		p.i += len(s)
		return true
	}
	return false
}

func (p *qp) fail(format string, v ...any) {
	if p.bad == "" {
		p.bad = fmt.Sprintf(format, v...)
		p.badP = p.i
	}
}

func (p *qp) or(d int) *Node {
	l := p.and(d)
	if l == nil {
		return nil
	}
	save := p.i
	if p.ws() && p.lit("OR") && p.ws() {
		if r := p.or(d); r != nil {
			return &Node{Kind: "or", L: l, R: r}
		}
	}
	p.i = save
	return l
}

func (p *qp) and(d int) *Node {
	l := p.not(d)
	if l == nil {
		return nil
	}
	save := p.i
	if p.ws() && p.lit("AND") && p.ws() {
		if r := p.and(d); r != nil {
			return &Node{Kind: "and", L: l, R: r}
		}
	}
	p.i = save
	return l
}

func (p *qp) not(d int) *Node {
	save := p.i
	neg := false
	if p.lit("NOT") && p.ws() {
		neg = true
	} else {
		p.i = save
		if p.lit("!") {
			p.ws()
			neg = true
		}
	}
	if neg {
		if n := p.cmp(d); n != nil {
			return &Node{Kind: "not", L: n}
		}
	}
	p.i = save
	return p.cmp(d)
}

func (p *qp) cmp(d int) *Node {
	st := p.i
	if p.lit("(") {
		p.ws()
		if n := p.or(d + 1); n != nil {
			p.ws()
			if p.lit(")") {
				return n
			}
		}
		p.i = st
		return nil
	}
	field, ok := p.field()
	if !ok {
		p.i = st
		return nil
	}
	p.ws()
	if !p.lit(":") {
		p.i = st
		return nil
	}
	p.ws()
	n := &Node{Kind: "expr", Field: field}
	switch {
	case p.lit("exists"):
		n.Op = "exists"
	case p.lit("null"):
		n.Op = "null"
	default:
		n.Op = "=="
		for _, op := range []string{"><", "~", "<=", ">=", "<", ">"} {
			if p.lit(op) {
				n.Op = op
				break
			}
		}
		p.ws()
		vals, ok := p.vals()
		if !ok {
			p.i = st
			return nil
		}
		n.Vals = vals
	}
	n.Pos = Pos{Offset: st, Len: p.i - st}
	n.Src = p.s[st:p.i]
	return n
}

func (p *qp) field() ([]string, bool) {
	var out []string
	for {
		switch {
		case p.i < len(p.s) && p.s[p.i] == '"':
			v, ok := p.quoted()
			if !ok {
				return nil, false
			}
			out = append(out, v)
		case p.lit("*"):
		default:
			st := p.i
			for p.i < len(p.s) && plain(p.s[p.i]) {
				p.i++
			}
			if p.i < len(p.s) && (strings.HasPrefix(p.s[p.i:], "\u212a") || strings.HasPrefix(p.s[p.i:], "\u0130")) {
				// letters whose lower case is ASCII
				p.gray = true
			}
			if p.i == st {
				return nil, false
			}
			out = append(out, p.s[st:p.i])
		}
		save := p.i
		if !p.lit(".") {
			break
		}
		if p.i >= len(p.s) || !(p.s[p.i] == '"' || p.s[p.i] == '*' || plain(p.s[p.i]) || p.s[p.i] >= 0x80) {
			p.i = save
			break
		}
	}
	if len(out) == 0 {
		p.fail("field of stars")
	}
	return out, true
}

func plain(c byte) bool {
	return c == '_' || c == '-' || '0' <= c && c <= '9' || 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z'
}

// quoted reads a quoted string; false if it is not terminated properly.
func (p *qp) quoted() (string, bool) {
	st := p.i
	p.i++
	var out []byte
	for p.i < len(p.s) {
		c := p.s[p.i]
		switch {
		case c == '"':
			p.i++
			return string(out), true
		case c < 0x20:
			p.i = st
			return "", false
		case c == '\\':
			if p.i+1 >= len(p.s) {
				p.i = st
				return "", false
			}
			e := p.s[p.i+1]
			p.i += 2
			if k := strings.IndexByte(`"\bfnrt`, e); k >= 0 {
				out = append(out, "\"\\\b\f\n\r\t"[k])
				continue
			}
			if e != 'u' || p.i+4 > len(p.s) {
				p.i = st
				return "", false
			}
			var r rune
			for _, h := range []byte(p.s[p.i : p.i+4]) {
				x, ok := hexv(h)
				if !ok {
					p.i = st
					return "", false
				}
				r = r<<4 | x
			}
			p.i += 4
			if 0xD800 <= r && r < 0xE000 {
				// not terminated strings are reported as such, this one
				// only counts if it ends
				p.fail("surrogate escape")
			}
			out = utf8.AppendRune(out, r)
		default:
			_, n := utf8.DecodeRuneInString(p.s[p.i:])
			out = append(out, p.s[p.i:p.i+n]...)
			p.i += n
		}
	}
	p.i = st
	return "", false
}

func (p *qp) vals() ([]*Val, bool) {
	if p.i < len(p.s) && p.s[p.i] == '(' {
		st := p.i
		p.i++
		var out []*Val
		for {
			p.ws()
			v := p.val()
			if v == nil {
				p.fail("malformed list")
				p.i = st
				return nil, false
			}
			out = append(out, v)
			p.ws()
			if p.lit(")") {
				break
			}
			if !p.lit(",") {
				p.fail("malformed list")
				p.i = st
				return nil, false
			}
		}
		if len(out) == 1 {
			p.fail("parentheses around one value")
		}
		return out, true
	}
	v := p.val()
	if v == nil {
		return nil, false
	}
	return []*Val{v}, true
}

var (
	dateTimeRe = regexp.MustCompile(`^\d{4}-\d\d-\d\d[Tt ]\d\d:\d\d:\d\d(\.\d+)?([Zz]|[+-]\d\d:\d\d)`)
	dateRe     = regexp.MustCompile(`^\d{4}-\d\d-\d\d`)
	netRe      = regexp.MustCompile(`^\d{1,3}\.\d{1,3}\.\d{1,3}\.\d{1,3}(/\d{1,2})?`)
	floatRe    = regexp.MustCompile(`^-?\d+\.\d+`)
	intRe      = regexp.MustCompile(`^-?\d+`)
)

func (p *qp) val() *Val {
	st := p.i
	rest := p.s[st:]
	mk := func(kind string, n int) *Val {
		p.i = st + n
		return &Val{Kind: kind, Text: rest[:n], Pos: Pos{Offset: st, Len: n}}
	}
	if rest == "" {
		return nil
	}
	switch {
	case rest[0] == '"':
		if s, ok := p.quoted(); ok {
			v := mk("string", p.i-st)
			v.S = s
			return v
		}
	case rest[0] == '/':
		for j := 1; j < len(rest); j++ {
			if rest[j] == '\n' {
				break
			}
			if rest[j] == '\\' {
				j++
				if j < len(rest) && rest[j] == '\n' {
					break
				}
				continue
			}
			if rest[j] == '/' {
				v := mk("regex", j+1)
				v.S = rest[1:j]
				if _, err := regexp.Compile(v.S); err != nil {
					p.fail("malformed regular expression")
				}
				return v
			}
		}
	}
	if m := dateTimeRe.FindString(rest); m != "" {
		v := mk("timestamp", len(m))
		ok, gray := false, false
		v.Time, ok, gray = rfc3339(m)
		if gray {
			p.gray = true
		}
		if !ok {
			p.fail("invalid date-time")
		}
		return v
	}
	if m := dateRe.FindString(rest); m != "" {
		v := mk("timestamp", len(m))
		v.Day = true
		ok := false
		v.Time, ok = civil(m, "", 0)
		if !ok {
			p.fail("invalid date")
		}
		return v
	}
	if m := netRe.FindString(rest); m != "" {
		v := mk("netaddr", len(m))
		b, ok := ParseBlock(m)
		v.Net = b
		if !ok {
			p.fail("invalid address")
		}
		return v
	}
	if m := floatRe.FindString(rest); m != "" {
		v := mk("float", len(m))
		f, err := strconv.ParseFloat(m, 64)
		if err != nil {
			p.fail("number out of range")
		}
		v.F = f
		return v
	}
	if m := intRe.FindString(rest); m != "" {
		v := mk("integer", len(m))
		n, ok := new(big.Int).SetString(m, 10)
		if !ok || !n.IsInt64() {
			p.fail("integer out of range")
		} else {
			v.I = n.Int64()
			v.F = float64(v.I)
		}
		return v
	}
	if strings.HasPrefix(rest, "true") {
		v := mk("boolean", 4)
		v.B = true
		return v
	}
	if strings.HasPrefix(rest, "false") {
		return mk("boolean", 5)
	}
	if !isWS(rest[0]) {
		p.fail("unknown value")
	}
	return nil
}

// ParseBlock reads a.b.c.d or a.b.c.d/n, without leading zeros.
func ParseBlock(s string) (Block, bool) {
	addr, bits, has := strings.Cut(s, "/")
	b := Block{Bits: 32}
	parts := strings.Split(addr, ".")
	if len(parts) != 4 {
		return b, false
	}
	num := func(s string, max int) (int, bool) {
		if s == "" || len(s) > 3 || len(s) > 1 && s[0] == '0' {
			return 0, false
		}
		n := 0
		for _, c := range []byte(s) {
			if !digit(c) {
				return 0, false
			}
			n = n*10 + int(c-'0')
		}
		return n, n <= max
	}
	for _, x := range parts {
		n, ok := num(x, 255)
		if !ok {
			return b, false
		}
		b.Addr = b.Addr<<8 | uint32(n)
	}
	if has {
		n, ok := num(bits, 32)
		if !ok {
			return b, false
		}
		b.Bits = n
	}
	return b, true
}

func atoi(s string) int {
	n, _ := strconv.Atoi(s)
	return n
}

// civil converts "YYYY-MM-DD" and "hh:mm:ss[.frac]" (or nothing) at an offset
// in minutes east of UTC.
func civil(date, clock string, off int) (Instant, bool) {
	y, m, d := atoi(date[:4]), atoi(date[5:7]), atoi(date[8:10])
	if m < 1 || m > 12 || d < 1 || d > daysIn(y, m) {
		return Instant{}, false
	}
	t := Instant{Sec: daysFromCivil(y, m, d) * 86400}
	if clock != "" {
		h, mi, s := atoi(clock[:2]), atoi(clock[3:5]), atoi(clock[6:8])
		if h > 23 || mi > 59 || s > 59 {
			return Instant{}, false
		}
		t.Sec += int64(h*3600 + mi*60 + s)
		if len(clock) > 9 {
			frac := (clock[9:] + "000000000")[:9]
			t.Nano = int64(atoi(frac))
		}
	}
	t.Sec -= int64(off) * 60
	return t, true
}

func rfc3339(s string) (t Instant, ok bool, gray bool) {
	date, rest := s[:10], s[11:]
	i := strings.IndexAny(rest, "Zz+-")
	clock, zone := rest[:i], rest[i:]
	off := 0
	if len(zone) > 1 {
		h, m := atoi(zone[1:3]), atoi(zone[4:6])
		if h > 23 || m > 59 {
			gray = true
		}
		off = h*60 + m
		if zone[0] == '-' {
			off = -off
		}
	}
	if len(clock) > 18 {
		gray = true // more than nanoseconds
	}
	t, ok = civil(date, clock, off)
	return t, ok, gray
}

func leap(y int) bool { return y%4 == 0 && (y%100 != 0 || y%400 == 0) }

func daysIn(y, m int) int {
	switch m {
	case 2:
		if leap(y) {
			return 29
		}
		return 28
	case 4, 6, 9, 11:
		return 30
	}
	return 31
}

// daysFromCivil counts days since 1970-01-01 in the proleptic calendar.
func daysFromCivil(y, m, d int) int64 {
	days := int64(0)
	// whole years before y, counted from year 0
	yy := int64(y)
	days = yy*365 + (yy+3)/4 - (yy+99)/100 + (yy+399)/400
	for k := 1; k < m; k++ {
		days += int64(daysIn(y, k))
	}
	return days + int64(d) - 1 - 719528
}

// Civil is the inverse: date and clock of an instant at UTC.
func Civil(t Instant) (y, m, d, hh, mm, ss int) {
	days := t.Sec / 86400
	rem := t.Sec % 86400
	if rem < 0 {
		rem += 86400
		days--
	}
	hh, mm, ss = int(rem/3600), int(rem/60%60), int(rem%60)
	n := days + 719528
	y = int(n / 366)
	for daysFromCivil(y+1, 1, 1)+719528 <= n {
		y++
	}
	n -= daysFromCivil(y, 1, 1) + 719528
	m = 1
	for int(n) >= daysIn(y, m) {
		n -= int64(daysIn(y, m))
		m++
	}
	return y, m, int(n) + 1, hh, mm, ss
}
