package mc

import "fmt"

// UID is a name that is unique within an execution and depends only on the history of the calling goroutine. Real
// unique ids are random, so which of two sorts first is a choice.
func UID() string {
	if !live() {
		return fmt.Sprintf("%08x-0000-4000-8000-000000000000", uint32(Rand()))
	}
	g := x.cur
	g.nchild++
	h1, h2 := mix(g.uid, g.nchild^0x5555), mix(g.uid, g.nchild^0xaaaa)
	hi := 0
	if x.cfg.Budget[ClsMap] != 0 && !x.frozen && !dying() {
		hi = x.choose(ClsMap, 2, false, x.key(g, true, 31))
		if x.killing {
			x.park(g)
		}
	}
	lead := fmt.Sprintf("%04x", 0x8000-uint16(g.nchild))
	if hi == 1 {
		lead = fmt.Sprintf("%04x", 0xf000+uint16(g.nchild))
	}
	return fmt.Sprintf("%s%04x-%04x-4%03x-8%03x-%012x", lead, h1>>48, h1>>32&0xffff, h1&0xfff, h1>>12&0xfff, h2&0xffffffffffff)
}

// UID16 is the same as bytes.
func UID16() (b [16]byte) {
	s := UID()
	j := 0
	for i := 0; i < len(s) && j < 32; i++ {
		var v byte
		switch c := s[i]; {
		case c >= '0' && c <= '9':
			v = c - '0'
		case c >= 'a' && c <= 'f':
			v = c - 'a' + 10
		default:
			continue
		}
		b[j/2] |= v << (4 * (1 - uint(j)&1))
		j++
	}
	return
}

// Rand is a deterministic pseudo-random source, seeded per execution.
func Rand() uint64 {
	if x == nil {
		directRand++
		return mix(0x7777, directRand)
	}
	if x.cur == nil {
		return 4
	}
	x.cur.nchild++
	return mix(x.cur.uid, x.cur.nchild^0x3333)
}

var directRand uint64

// NumCPU is what the code under test sees.
func NumCPU() int {
	if x == nil || x.cfg.NumCPU <= 0 {
		return 1
	}
	return x.cfg.NumCPU
}
