// Package gen generates documents and queries.
package gen

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"unicode/utf8"

	"verifharness/core"
	"verifharness/ref"
)

type T = core.T

// Opts steer the generation of documents and queries.
type Opts struct {
	Scalars  []int // weights of scalar kinds, see Scalar
	Terms    []int // weights of term kinds, see Term
	MaxDepth int
	Big      bool // now and then a large document
	OddKeys  bool
	Nodes    int // clauses at most
}

// Gen is the vocabulary of one case, so that documents and queries meet.
type Gen struct {
	*T
	O     Opts
	Keys  []string
	pool  []*ref.JV
	Roots []*ref.JV
	past  []clause
	trees []*tree
}

var words = []string{"a", "foo", "bar", "error", "Pizza", "food", "the", "quick", "user_1", "X", "OK", "AND", "id42", "x-ray", "don't", "3", "1970", "Zebra", "null", "true"}
var uwords = []string{"大懒虫", "лошадь", "ΑΒΓ", "ñandú", "Straße", "İstanbul", "кот", "日本", "😀", "K", "naïve", " ", "ſ", "ﬁ", "é"}
var plainU = []string{"大", "懒", "虫", "日", "本", "кот", "ΑΒΓ", "γδ", "дом"}
var puncts = []string{" ", " ", " ", "-", "!", ", ", ".", "_", "(", ")", "*", "?", "\\", "/", "'", "\"", "\n", "\t", ":", "<", "&", "%", "$", "^", "[", "]", "|", "+", "{", "}", "\\*", "\\?", "#", "=", "~", "\u0001", "\r"}

// Key names.
var keyNames = []string{"a", "b", "c", "name", "items", "id", "A", "x1", "user-id", "_v", "0", "NOT", "AND", "OR", "exists", "null", "aa", "true"}
var oddKeys = []string{"", " ", "a b", "a.b", ".", "*", "\"", "\\", "a\"b", "é", "日本", "[0]", "[", "a:b", "(", "/", "\n", "\t", "\u0000", "😀", "ключ", "a\\", "*.*", " ", "<b>", "K", "a.", ".a", "null ", "\u007f", "{", "}", ",", "0.1", "'"}

// New starts a case.
func New(t *T, o Opts) *Gen {
	if o.MaxDepth == 0 {
		o.MaxDepth = 4
	}
	if o.Nodes == 0 {
		o.Nodes = 4
	}
	g := &Gen{T: t, O: o}
	n := t.R(2, 5)
	for i := 0; i < n; i++ {
		g.Keys = append(g.Keys, g.Key())
	}
	return g
}

// Key is a key name.
func (g *Gen) Key() string {
	if s, ok := g.HotStr(); ok {
		return s
	}
	if g.N(250) == 249 {
		// a long one
		k := core.Pick(g.T, keyNames)
		return strings.Repeat(k, 1+g.Size(600)/len(k))
	}
	w := 3
	if g.O.OddKeys {
		w = 40
	}
	switch g.W(100-w, w, w/3) {
	case 0:
		return core.Pick(g.T, keyNames)
	case 1:
		return core.Pick(g.T, oddKeys)
	}
	return g.Text(6)
}

// Text is a short arbitrary string.
func (g *Gen) Text(max int) string {
	var sb strings.Builder
	for n := g.Size(max); n > 0; n-- {
		sb.WriteRune(g.Rune())
	}
	return sb.String()
}

// Rune is an arbitrary character.
func (g *Gen) Rune() rune {
	if r, ok := g.HotRune(); ok {
		return r
	}
	switch g.W(50, 20, 10, 10, 5, 5) {
	case 0:
		return rune('a' + g.N(26))
	case 1:
		return rune(0x20 + g.N(0x5f))
	case 2:
		return rune(g.N(0x80))
	case 3:
		return rune(0x80 + g.N(0x780))
	case 4:
		r := rune(0x800 + g.N(0xF800))
		if !utf8.ValidRune(r) {
			return '�'
		}
		return r
	}
	return rune(0x10000 + g.N(0xFFFFF))
}

// Phrase is a string of words and punctuation.
func (g *Gen) Phrase() string {
	if s, ok := g.HotStr(); ok {
		return s
	}
	var sb strings.Builder
	n := g.Size(12)
	for i := 0; i < n; i++ {
		switch g.W(50, 30, 8, 12) {
		case 0:
			sb.WriteString(core.Pick(g.T, words))
		case 1:
			sb.WriteString(core.Pick(g.T, puncts))
		case 2:
			sb.WriteRune(g.Rune())
		case 3:
			sb.WriteString(core.Pick(g.T, uwords))
		}
	}
	switch g.W(95, 2, 3) {
	case 1:
		return strings.Repeat(sb.String(), g.R(2, 60))
	case 2:
		// something after a long beginning
		return strings.Repeat(core.Pick(g.T, words)+core.Pick(g.T, []string{" ", "", "-"}), g.R(2, 60)) + sb.String()
	}
	return sb.String()
}

// Number as written in JSON.
func (g *Gen) Number() string {
	if h, ok := g.HotInt(math.MinInt64, math.MaxInt64); ok {
		return g.spell(strconv.FormatInt(h, 10))
	}
	switch g.W(40, 20, 10, 10, 8, 6, 6) {
	case 0:
		return strconv.Itoa(g.N(10))
	case 1:
		return g.spell(strconv.Itoa(g.R(-1000, 1000)))
	case 2:
		return fmt.Sprintf("%d.%d", g.R(-20, 20), g.N(1000))
	case 3:
		return core.Pick(g.T, []string{"0", "-0", "0.1", "0.2", "0.3", "0.30000000000000004", "-1", "1e3", "1E3", "1.5e-3", "1e21", "1e-7", "100000000000000000000", "9007199254740991", "9007199254740992", "9007199254740993", "-9007199254740993", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "18446744073709551615", "1.7976931348623157e308", "5e-324", "2.2250738585072014e-308", "1.0", "10e-1", "0.10", "-0.0", "123456789.123456789", "4294967296", "2147483647", "2147483648", "65536", "1e0", "0e0", "3.0", "1332151919", "1384216367189"})
	case 4:
		return strconv.FormatFloat(math.Float64frombits(g.finiteBits()), 'g', -1, 64)
	case 5:
		return strconv.FormatInt(int64(g.U(math.MaxUint64)), 10)
	}
	return fmt.Sprintf("%de%d", g.R(-99, 99), g.R(-12, 12))
}

func (g *Gen) finiteBits() uint64 {
	b := g.U(math.MaxUint64)
	f := math.Float64frombits(b)
	if math.IsNaN(f) || math.IsInf(f, 0) {
		return math.Float64bits(1.5)
	}
	return b
}

func (g *Gen) spell(n string) string {
	switch g.W(70, 10, 10, 10) {
	case 1:
		return n + ".0"
	case 2:
		return n + "e0"
	case 3:
		if n != "0" && n != "-0" {
			return n + "0e-1"
		}
	}
	return n
}

// Instant is a moment, near a few fixed ones so that they collide.
func (g *Gen) Instant() ref.Instant {
	base := core.Pick(g.T, []int64{0, 86400, 951782400, 951868800, 1262304000, 1577836800, 1583020800, 4102444800, -62135596800, -62167219200, 253402214400, 10413792000, -11676096000, 1700000000})
	if h, ok := g.HotInt(0, 9999); ok {
		base = (h - 1970) * 31556952 / 86400 * 86400
	}
	var t ref.Instant
	switch g.W(30, 20, 15, 15, 10, 10) {
	case 0:
		t.Sec = base
	case 1:
		t.Sec = base + int64(g.R(-3, 3))*86400
	case 2:
		t.Sec = base + int64(g.R(-2, 2))
	case 3:
		t.Sec = base + int64(g.R(-100000, 100000))
	case 4:
		t.Sec = base - 1
	case 5:
		t.Sec = -62167219200 + int64(g.U(315569520000))
	}
	if t.Sec < -62167219200 {
		t.Sec = -62167219200
	}
	if t.Sec > 253402300799 {
		t.Sec = 253402300799
	}
	switch g.W(70, 15, 15) {
	case 1:
		t.Nano = core.Pick(g.T, []int64{1, 500000000, 999999999, 123456789, 1000, 1000000, 999999000})
	case 2:
		t.Nano = int64(g.N(1000)) * 1000000
	}
	return t
}

// ISO renders an instant as an RFC 3339 date-time.
func (g *Gen) ISO(t ref.Instant, query bool) string {
	off := 0
	if g.P(40) {
		off = core.Pick(g.T, []int{60, -60, 330, -300, 720, -720, 345, -1, 840, 1439, -1439, 5})
	}
	l := ref.Instant{Sec: t.Sec + int64(off)*60}
	if l.Sec < -62167219200 || l.Sec > 253402300799 {
		off = 0
		l.Sec = t.Sec
	}
	y, m, d, hh, mm, ss := ref.Civil(l)
	zone := "Z"
	if off != 0 || g.P(20) {
		s, o := "+", off
		if o < 0 {
			s, o = "-", -o
		}
		zone = fmt.Sprintf("%s%02d:%02d", s, o/60, o%60)
	}
	frac := ""
	if t.Nano != 0 {
		frac = "." + strings.TrimRight(fmt.Sprintf("%09d", t.Nano), "0")
		if g.P(10) {
			frac = fmt.Sprintf(".%09d", t.Nano)
		}
	} else if g.P(10) {
		frac = ".000"
	}
	sep := "T"
	if query {
		sep = core.Pick(g.T, []string{"T", "T", "T", "t", " "})
		if zone == "Z" && g.P(10) {
			zone = "z"
		}
	}
	return fmt.Sprintf("%04d-%02d-%02d%s%02d:%02d:%02d%s%s", y, m, d, sep, hh, mm, ss, frac, zone)
}

// Day renders the day of an instant.
func Day(t ref.Instant) string {
	y, m, d, _, _, _ := ref.Civil(t)
	return fmt.Sprintf("%04d-%02d-%02d", y, m, d)
}

var months = []string{"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"}
var weekdays = []string{"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"}

// DateText renders an instant in one of the formats documents use.
func (g *Gen) DateText(t ref.Instant) string {
	y, m, d, hh, mm, ss := ref.Civil(t)
	switch g.W(40, 20, 10, 6, 6, 6, 6, 6) {
	case 0:
		return g.ISO(t, false)
	case 1:
		return Day(t)
	case 2:
		s := fmt.Sprintf("%04d-%02d-%02d %02d:%02d:%02d", y, m, d, hh, mm, ss)
		if t.Nano != 0 && g.P(50) {
			s += fmt.Sprintf(".%09d", t.Nano)
		}
		return s
	case 3:
		return fmt.Sprintf("%d/%d/%04d", m, d, y)
	case 4:
		return fmt.Sprintf("%s %d, %04d", months[m-1], d, y)
	case 5:
		wd := ((t.Sec-int64(hh*3600+mm*60+ss))/86400%7 + 4 + 7) % 7
		return fmt.Sprintf("%s, %02d %s %04d %02d:%02d:%02d GMT", weekdays[wd], d, months[m-1], y, hh, mm, ss)
	case 6:
		return strconv.FormatInt(t.Sec, 10)
	}
	return fmt.Sprintf("%04d%02d%02d", y, m, d)
}

// Addr is an IPv4 address out of a few that collide.
func (g *Gen) Addr() uint32 {
	base := core.Pick(g.T, []uint32{0x0A000000, 0xC0A80100, 0x7F000001, 0xAC100000, 0x08080808, 0, 0xFFFFFFFF, 0x01020304})
	switch g.W(40, 30, 30) {
	case 1:
		return base ^ 1<<uint(g.N(32))
	case 2:
		return base ^ uint32(g.U(1<<32))>>uint(g.N(33))
	}
	return base
}

// Dotted renders an address.
func Dotted(a uint32) string {
	return fmt.Sprintf("%d.%d.%d.%d", a>>24, a>>16&255, a>>8&255, a&255)
}

// Bits is a prefix length.
func (g *Gen) Bits() int {
	return core.Pick(g.T, []int{24, 32, 16, 8, 0, 31, 30, 1, 12, g.N(33)})
}

// NetText is a text with addresses.
func (g *Gen) NetText() string {
	var parts []string
	n := g.R(1, 3)
	if g.P(3) {
		n = g.R(4, 40)
		if g.O.Big && g.P(10) {
			n = g.R(40, 400)
		}
	}
	for i := 0; i < n; i++ {
		w := []int{40, 30, 10, 20}
		if n > 40 {
			w = []int{90, 0, 0, 10} // blocks would leave nothing to find
		}
		switch g.W(w...) {
		case 0:
			parts = append(parts, Dotted(g.Addr()))
		case 1:
			parts = append(parts, fmt.Sprintf("%s/%d", Dotted(g.Addr()), g.Bits()))
		case 2:
			parts = append(parts, core.Pick(g.T, []string{"256.1.1.1", "1.2.3", "10.0.0.0/33", "10.0.0.1/99", "300.300.300.300", "01.2.3.4", "10.0.0.08", "1.2.3.4/08", "999.1.2.3/8", "10.0.0.0/", "10.0.0.1:80", "::1", "10.0.0.1.", "(10.0.0.1)", "10.0.0", "0.0.0.0/0", "host10.0.0.1", "v192.168.1.7b", "10.0.0.1st", "ip_10.0.0.1_"}))
		case 3:
			parts = append(parts, core.Pick(g.T, words))
		}
	}
	return strings.Join(parts, core.Pick(g.T, []string{" ", ", ", ";", " - ", "\n", "|", "é", "x", "_", "=", "@h", ":"}))
}

// NumText is a string which spells a number, or nearly.
func (g *Gen) NumText() string {
	if g.P(25) {
		return core.Pick(g.T, []string{" 1", "1 ", "1a", "", "-", "1,000", "--1", "1e", "e1", "0x", "1.2.3", "one", "+ 1", "1/2", "NaN1", "1_000", "١", "1\n", "1.", ".5", "+5", "007"})
	}
	return g.Number()
}

// Scalar is a scalar value; kinds: phrase, number, bool, null, date, net,
// numeric string, plain word, odd text.
func (g *Gen) Scalar() *ref.JV {
	if len(g.pool) > 0 && g.P(25) {
		return core.Pick(g.T, g.pool)
	}
	w := g.O.Scalars
	if w == nil {
		w = []int{20, 25, 10, 8, 12, 8, 8, 8, 3}
	}
	var v *ref.JV
	switch g.W(w...) {
	case 0:
		v = &ref.JV{K: 's', S: g.Phrase()}
	case 1:
		v = &ref.JV{K: 'n', N: g.Number()}
	case 2:
		v = &ref.JV{K: core.Pick(g.T, []byte{'t', 'f'})}
	case 3:
		v = &ref.JV{K: 'z'}
	case 4:
		v = &ref.JV{K: 's', S: g.DateText(g.Instant())}
	case 5:
		v = &ref.JV{K: 's', S: g.NetText()}
	case 6:
		v = &ref.JV{K: 's', S: g.NumText()}
	case 7:
		v = &ref.JV{K: 's', S: core.Pick(g.T, words)}
	default:
		v = &ref.JV{K: 's', S: g.Text(10)}
	}
	g.pool = append(g.pool, v)
	return v
}

// Value is any JSON value.
func (g *Gen) Value(depth int) *ref.JV {
	if depth >= g.O.MaxDepth {
		return g.Scalar()
	}
	switch g.W(55, 25, 20) {
	case 1:
		return g.Object(depth)
	case 2:
		return g.Array(depth)
	}
	return g.Scalar()
}

// Object is an object with keys of the vocabulary.
func (g *Gen) Object(depth int) *ref.JV {
	v := &ref.JV{K: 'o'}
	perm := append([]string(nil), g.Keys...)
	n := g.N(len(perm) + 1)
	if depth == 0 {
		n = g.R(1, len(perm))
	}
	for i := 0; i < n; i++ {
		j := i + g.N(len(perm)-i)
		perm[i], perm[j] = perm[j], perm[i]
		if v.Get(perm[i]) != nil {
			continue
		}
		v.Keys = append(v.Keys, perm[i])
		v.Vals = append(v.Vals, g.Value(depth+1))
	}
	if g.O.Big && g.P(2) {
		for n := g.Size(300); n > 0; n-- {
			k := fmt.Sprintf("k%d", n)
			if v.Get(k) == nil {
				v.Keys = append(v.Keys, k)
				v.Vals = append(v.Vals, g.Scalar())
			}
		}
	}
	return v
}

// Array is an array.
func (g *Gen) Array(depth int) *ref.JV {
	v := &ref.JV{K: 'a'}
	if g.P(8) {
		// alike, except for one
		n := 2 + g.Size(40)
		like, odd := g.Value(depth+1), g.Value(depth+1)
		at := g.N(n)
		if g.P(40) {
			at = core.Pick(g.T, []int{0, n - 1})
		}
		for i := range n {
			if i == at {
				v.Vals = append(v.Vals, odd)
			} else {
				v.Vals = append(v.Vals, like)
			}
		}
		return v
	}
	max := 5
	if g.O.Big {
		max = 300
	}
	n := g.Size(max)
	for i := 0; i < n; i++ {
		if n > 20 {
			v.Vals = append(v.Vals, g.Scalar())
			continue
		}
		v.Vals = append(v.Vals, g.Value(depth+1))
	}
	if n > 20 && g.P(50) {
		// something to find at the end
		v.Vals = append(v.Vals, g.Value(depth+1))
	}
	return v
}

// Doc is a document; mostly an object.
func (g *Gen) Doc() *ref.JV {
	var v *ref.JV
	switch g.W(88, 9, 3) {
	case 1:
		v = g.Array(0)
	case 2:
		v = g.Scalar()
	default:
		v = g.Object(0)
	}
	if g.O.Big && g.P(2) {
		// wrap it deeply
		n, objs := g.Size(60), 70
		if g.P(20) {
			n, objs = g.R(20, 120), 98
		}
		for ; n > 0; n-- {
			if g.P(objs) {
				v = &ref.JV{K: 'o', Keys: []string{g.Keys[0]}, Vals: []*ref.JV{v}}
			} else {
				v = &ref.JV{K: 'a', Vals: []*ref.JV{v}}
			}
		}
		if v.K == 'a' {
			v = &ref.JV{K: 'o', Keys: []string{g.Keys[0]}, Vals: []*ref.JV{v}}
		}
	}
	g.Roots = append(g.Roots, v)
	return v
}

// Lengthen returns a document with a long text put before or after one of its
// strings.
func (g *Gen) Lengthen(v *ref.JV) *ref.JV {
	c := *v
	switch {
	case v.K == 's':
		fill := core.Pick(g.T, words) + core.Pick(g.T, []string{" ", "-", "\n", ""})
		n := core.Pick(g.T, []int{1 << 10, 1 << 12, 1 << 15, 1 << 16, 1 << 17}) + g.R(-5, 5)
		text := strings.Repeat(fill, n/len(fill)+1)
		if g.P(75) {
			c.S = text + " " + v.S
		} else {
			c.S = v.S + " " + text
		}
	case len(v.Vals) > 0:
		c.Vals = append([]*ref.JV(nil), v.Vals...)
		i := g.N(len(c.Vals))
		c.Vals[i] = g.Lengthen(c.Vals[i])
	}
	return &c
}

// Widen returns a document in which one value has become the last, or nearly, of
// a great many.
func (g *Gen) Widen(v *ref.JV) *ref.JV {
	c := *v
	if len(v.Vals) > 0 && g.P(65) {
		if v.K == 'o' && g.P(5) {
			// keys it is
			n := g.R(300, 3000)
			for i := range n {
				c.Keys = append([]string{fmt.Sprintf("zq%d", i)}, c.Keys...)
				c.Vals = append([]*ref.JV{{K: 'z'}}, c.Vals...)
			}
			return &c
		}
		c.Vals = append([]*ref.JV(nil), v.Vals...)
		i := g.N(len(c.Vals))
		c.Vals[i] = g.Widen(c.Vals[i])
		return &c
	}
	fill := core.Pick(g.T, []*ref.JV{{K: 'z'}, {K: 's', S: "zq"}, {K: 'f'}, {K: 'o'}, {K: 'a'}})
	like := v
	if v.K == 'a' {
		for _, e := range v.Vals {
			if e.K == 'o' {
				like = e
			}
		}
	}
	if like.K == 'o' && g.P(70) {
		fill = &ref.JV{K: 'o'}
	}
	for _, k := range like.Keys {
		if fill.K == 'o' {
			fill.Keys, fill.Vals = append(fill.Keys, k), append(fill.Vals, &ref.JV{K: 'z'})
		}
	}
	n := core.Pick(g.T, []int{256, 1 << 10, 1 << 12, 1 << 14, 1 << 16}) + g.R(-5, 500)
	c = ref.JV{K: 'a'}
	for range n {
		c.Vals = append(c.Vals, fill)
	}
	if v.K == 'a' {
		c.Vals = append(c.Vals, v.Vals...)
	} else {
		c.Vals = append(c.Vals, v)
	}
	return &c
}

// Style of writing JSON.
type Style struct {
	Spaces  bool
	Escapes bool
	Reorder bool
	Numbers bool
}

// Render writes a document.
func (g *Gen) Render(v *ref.JV, st Style) string {
	var sb strings.Builder
	g.ws(&sb, st)
	g.render(&sb, v, st)
	g.ws(&sb, st)
	return sb.String()
}

func (g *Gen) ws(sb *strings.Builder, st Style) {
	if !st.Spaces {
		return
	}
	for g.P(35) {
		sb.WriteString(core.Pick(g.T, []string{" ", "\n", "\t", "\r", "  ", "\r\n"}))
	}
}

func (g *Gen) render(sb *strings.Builder, v *ref.JV, st Style) {
	switch v.K {
	case 'o':
		idx := make([]int, len(v.Keys))
		for i := range idx {
			idx[i] = i
		}
		if st.Reorder {
			for i := range idx {
				j := i + g.N(len(idx)-i)
				idx[i], idx[j] = idx[j], idx[i]
			}
		}
		sb.WriteByte('{')
		g.ws(sb, st)
		for n, i := range idx {
			if n > 0 {
				g.ws(sb, st)
				sb.WriteByte(',')
				g.ws(sb, st)
			}
			g.quote(sb, v.Keys[i], st)
			g.ws(sb, st)
			sb.WriteByte(':')
			g.ws(sb, st)
			g.render(sb, v.Vals[i], st)
		}
		g.ws(sb, st)
		sb.WriteByte('}')
	case 'a':
		sb.WriteByte('[')
		g.ws(sb, st)
		for i, e := range v.Vals {
			if i > 0 {
				g.ws(sb, st)
				sb.WriteByte(',')
				g.ws(sb, st)
			}
			g.render(sb, e, st)
		}
		g.ws(sb, st)
		sb.WriteByte(']')
	case 's':
		g.quote(sb, v.S, st)
	case 'n':
		if st.Numbers {
			sb.WriteString(g.respell(v.N))
		} else {
			sb.WriteString(v.N)
		}
	case 't':
		sb.WriteString("true")
	case 'f':
		sb.WriteString("false")
	default:
		sb.WriteString("null")
	}
}

func (g *Gen) quote(sb *strings.Builder, s string, st Style) {
	sb.WriteByte('"')
	for _, r := range s {
		must := r < 0x20 || r == '"' || r == '\\'
		if !must && !(st.Escapes && g.P(30)) {
			sb.WriteRune(r)
			continue
		}
		short := map[rune]string{'"': `\"`, '\\': `\\`, '\b': `\b`, '\f': `\f`, '\n': `\n`, '\r': `\r`, '\t': `\t`, '/': `\/`}[r]
		if short != "" && !(st.Escapes && g.P(30)) {
			sb.WriteString(short)
			continue
		}
		f := `\u%04x`
		if st.Escapes && g.P(30) {
			f = `\u%04X`
		}
		if r >= 0x10000 {
			r -= 0x10000
			fmt.Fprintf(sb, f, 0xD800+r>>10)
			fmt.Fprintf(sb, f, 0xDC00+r&0x3FF)
			continue
		}
		fmt.Fprintf(sb, f, r)
	}
	sb.WriteByte('"')
}

// respell writes the same number differently.
func (g *Gen) respell(n string) string {
	f, err := strconv.ParseFloat(n, 64)
	if err != nil {
		return n
	}
	var c string
	switch g.W(20, 20, 20, 20, 20) {
	case 0:
		return n
	case 1:
		c = strconv.FormatFloat(f, 'e', -1, 64)
	case 2:
		c = strconv.FormatFloat(f, 'f', -1, 64)
	case 3:
		c = strconv.FormatFloat(f, 'f', -1, 64)
		if !strings.Contains(c, ".") {
			c += ".000"
		} else {
			c += "0"
		}
	case 4:
		c = strings.ToUpper(strconv.FormatFloat(f, 'e', -1, 64))
	}
	if h, err := strconv.ParseFloat(c, 64); err != nil || h != f || math.Signbit(h) != math.Signbit(f) {
		return n
	}
	return c
}

// Plain writes a document without frills.
func Plain(v *ref.JV) string {
	g := &Gen{T: core.ReplayT(nil)}
	return g.Render(v, Style{})
}
