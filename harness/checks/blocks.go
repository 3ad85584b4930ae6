package checks

import (
	"bytes"
	"encoding/binary"
	"runtime/coverage"
)

// counts are how often each basic block of each function of the library has run,
// modulo 1<<32.
type counts map[[2]uint64][]uint32

// counters reads the counts; there are none if the program was not built to count
// (go build -cover).
func counters() counts {
	var buf bytes.Buffer
	if coverage.WriteCounters(&buf) != nil {
		return nil
	}
	return readCounters(buf.Bytes())
}

// since is the number of blocks that ran after an earlier reading.
func (c counts) since(old counts) uint64 {
	sum := uint64(0)
	for k, now := range c {
		was := old[k]
		for i, v := range now {
			if i < len(was) {
				v -= was[i]
			}
			sum += uint64(v)
		}
	}
	return sum
}

// readCounters reads a file of counters: a header of 32 bytes and one segment with
// a header of 16 bytes, strings, arguments and then, for each function, the number
// of its counters, its package, its index and the counters.
func readCounters(b []byte) counts {
	const header, segment = 32, 16
	if len(b) < header+segment || !bytes.HasPrefix(b, []byte("\x00cwm")) || b[25] != 0 {
		return nil
	}
	leb := b[24] == 2
	functions := binary.LittleEndian.Uint64(b[header:])
	pos := header + segment + int(binary.LittleEndian.Uint32(b[header+8:])) + int(binary.LittleEndian.Uint32(b[header+12:]))
	pos = (pos + 3) &^ 3
	bad := false
	next := func() uint64 {
		if pos+4 > len(b) {
			bad = true
			return 0
		}
		if !leb {
			v := binary.LittleEndian.Uint32(b[pos:])
			pos += 4
			return uint64(v)
		}
		v, n := binary.Uvarint(b[pos:])
		bad = bad || n <= 0
		pos += n
		return v
	}
	all := counts{}
	for i := uint64(0); i < functions && !bad; i++ {
		n := next()
		k := [2]uint64{next(), next()}
		for j := uint64(0); j < n && !bad; j++ {
			all[k] = append(all[k], uint32(next()))
		}
	}
	if bad {
		return nil
	}
	return all
}
