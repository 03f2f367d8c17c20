//go:build go1.21

package main

import (
	"fmt"
	"strings"
)

func sprintf(f string, a ...interface{}) string { return fmt.Sprintf(f, a...) }

const (
	caseUpper = iota
	caseLower
	caseLine
)

func hexCase(r *rng, mode int, b []byte) string {
	lower := mode == caseLower || mode == caseLine && r.p(50)
	if lower {
		return sprintf("%x", b)
	}
	return sprintf("%X", b)
}

func ihexRec(r *rng, mode int, typ byte, addr uint16, d []byte) string {
	b := append([]byte{byte(len(d)), byte(addr >> 8), byte(addr), typ}, d...)
	s := byte(0)
	for _, x := range b {
		s += x
	}
	return ":" + hexCase(r, mode, append(b, -s))
}

func srec(r *rng, mode int, typ byte, addr uint64, alen int, d []byte) string {
	b := []byte{byte(alen + len(d) + 1)}
	for i := alen - 1; i >= 0; i-- {
		b = append(b, byte(addr>>(8*uint(i))))
	}
	b = append(b, d...)
	s := byte(0)
	for _, x := range b {
		s += x
	}
	return sprintf("S%c", typ) + hexCase(r, mode, append(b, ^s))
}

const hugeOdds = 500

// genCount draws the number of data records.
func genCount(r *rng, big bool) int {
	if big && r.n(hugeOdds) == 0 {
		if r.p(35) {
			return r.in(205000, 290000) // more than the readers expect
		}
		return r.in(65500, 72000) // more than 16 bits count
	}
	switch k := r.n(100); {
	case k < 4:
		return 0
	case k < 30:
		return r.in(1, 12)
	case k < 75:
		return r.in(1, 80)
	case k < 97 || !big:
		return r.in(30, 400)
	case k < 99:
		return r.in(400, 2000)
	default:
		return r.in(2000, 9000)
	}
}

func genData(r *rng, n int) []byte {
	d := make([]byte, n)
	k := r.n(4)
	for i := range d {
		switch k {
		case 0:
			d[i] = 0xff
		case 1:
			d[i] = 0
		default:
			d[i] = byte(r.next())
		}
	}
	return d
}

func joinLines(r *rng, ls []string, trail []string) string {
	eol := pickOf(r, "\r\n", "\r\n", "\n", "\n", "mix")
	var b strings.Builder
	e := func() string {
		if eol == "mix" {
			return pickOf(r, "\r\n", "\n")
		}
		return eol
	}
	for i, l := range ls {
		b.WriteString(l)
		if i+1 < len(ls) {
			b.WriteString(e())
			if r.p(1) {
				b.WriteString(e())
			}
		}
	}
	if r.p(5) && len(trail) == 0 { // blank lines up to the border of a block
		k := pickOf(r, 512, 4096, 4096, 8192)
		if r.p(10) {
			k = 65536
		}
		n := (b.Len()/k+1)*k + pickOf(r, 0, 0, 0, 1, -1) - b.Len()
		s := b.String()
		if i := strings.LastIndex(s, "\n"); i > 0 && n < 5000 && r.p(50) { // in front of the last record
			return s[:i+1] + strings.Repeat("\n", n) + s[i+1:]
		}
		return s + strings.Repeat("\n", n)
	}
	switch r.n(5) {
	case 0, 1, 2:
		b.WriteString(e())
	case 3:
		for i := r.n(4); i >= 0; i-- {
			b.WriteString(e())
		}
	}
	for _, t := range trail {
		s := b.String()
		if !strings.HasSuffix(s, "\n") {
			b.WriteString(e())
		}
		b.WriteString(t)
	}
	return b.String()
}

type hexOpts struct {
	big     bool
	overlap bool // add one pair of bytes with the same address
	small   bool
}

func genRecLen(r *rng) func() int {
	switch r.n(6) {
	case 0:
		return func() int { return 16 }
	case 1:
		return func() int { return 32 }
	case 2:
		return func() int { return 1 + r.n(4) }
	case 3:
		return func() int { return pickOf(r, 255, 254, 128, 1, 0, 16) }
	default:
		return func() int { return r.n(33) }
	}
}

// genIHex makes a well-formed Intel HEX file (or, on request, one with a
// colliding pair).
func genIHex(r *rng, o hexOpts) string {
	mode := r.n(3)
	n := genCount(r, o.big)
	if o.small {
		n = r.in(1, 30)
	}
	if o.overlap && n < 2 {
		n = 2
	}
	rl := genRecLen(r)
	nseg := r.size(8)
	if r.p(15) {
		nseg = r.size(60)
	}
	if o.big && r.n(80) == 0 {
		nseg = r.in(200, 700)
		if n < 2*nseg {
			n = 2 * nseg
		}
	}
	if n > 60000 {
		nseg = r.in(60, 150)
		rl = func() int { return 1 + r.n(3) }
	}
	segs := make([]uint32, nseg)
	for i := range segs {
		k := r.n(5)
		if n > 60000 {
			k = 4
		}
		switch k {
		case 0:
			segs[i] = 0
		case 1:
			segs[i] = uint32(r.n(4))
		case 2:
			segs[i] = 0x8000 + uint32(r.n(8))
		case 3:
			segs[i] = 0xffff
		default:
			segs[i] = uint32(r.n(0x10000))
		}
	}
	// records in groups, one group per segment entry
	cur := map[uint32]uint32{} // next free offset per segment
	used := map[uint32]bool{}  // spill over a segment's end
	var ls []string
	type placed struct {
		at  int
		seg uint32
		off uint32
		n   int
		ela int // index of the ELA line in force, -1 none
	}
	var pl []placed
	seg := uint32(0)
	ela := -1
	emitELA := func(s uint32) {
		ls = append(ls, ihexRec(r, mode, 4, 0, []byte{byte(s >> 8), byte(s)}))
		seg = s
		ela = len(ls) - 1
	}
	perSeg := n/nseg + 1
	left := 0
	startSomewhere := r.p(70)
	if r.p(60) || !startSomewhere {
		emitELA(segs[0])
	}
	si := 0
	left = perSeg
	if r.p(50) {
		left = r.in(1, perSeg*2)
	}
	for i := 0; i < n; i++ {
		if left <= 0 {
			si = (si + 1) % nseg
			emitELA(segs[si])
			for r.p(6) {
				emitELA(segs[r.n(nseg)])
			}
			left = r.in(1, perSeg*2)
		}
		left--
		l := rl()
		c, seen := cur[seg]
		if !seen {
			c = pickOf(r, uint32(0), uint32(r.n(0x8000)), uint32(r.n(0x10000)))
		}
		if r.p(20) && (n < 60000 || r.p(5)) {
			c += uint32(r.n(64))
		}
		if c+uint32(l) > 0x10000 {
			// a record across the end of the segment, or none
			if c < 0x10000 && r.p(30) && seg != 0xffff && !used[seg+1] {
				if _, s := cur[seg+1]; !s {
					used[seg+1] = true
					cur[seg+1] = c + uint32(l) - 0x10000
				} else {
					continue
				}
			} else {
				continue
			}
		}
		ls = append(ls, ihexRec(r, mode, 0, uint16(c), genData(r, l)))
		pl = append(pl, placed{len(ls) - 1, seg, c, l, ela})
		cur[seg] = c + uint32(l)
		if r.p(1) {
			ls = append(ls, ihexRec(r, mode, 5, 0, genData(r, 4)))
		}
	}
	if r.p(30) {
		ls = append(ls, ihexRec(r, mode, pickOf[byte](r, 5, 3), 0, genData(r, 4)))
	}
	if o.overlap {
		ls = addOverlapIHex(r, mode, ls, func() (uint32, bool) {
			for t := 0; t < 50; t++ {
				if len(pl) == 0 {
					break
				}
				p := pl[r.n(len(pl))]
				if p.n > 0 {
					return p.seg<<16 + p.off + uint32(r.n(p.n)), true
				}
			}
			return 0, false
		})
	}
	ls = append(ls, ihexRec(r, mode, 1, 0, nil))
	var trail []string
	if r.p(15) {
		trail = []string{"\x1a"}
	}
	return joinLines(r, ls, trail)
}

// again picks a data record to be written a second time, as it is; most often
// right behind the first. It returns the new place of the copy, or -1.
func again(r *rng, ls []string, data func(string) bool) ([]string, bool) {
	var c []int
	for i, l := range ls {
		if data(l) {
			c = append(c, i)
		}
	}
	if len(c) == 0 {
		return ls, false
	}
	i := c[r.n(len(c))]
	out := append([]string{}, ls[:i+1]...)
	out = append(out, ls[i])
	return append(out, ls[i+1:]...), true
}

// addOverlapIHex inserts a record for an address already taken, far from or
// near to the first one, and re-establishes the segment in force.
func addOverlapIHex(r *rng, mode int, ls []string, pick func() (uint32, bool)) []string {
	if r.p(20) {
		if out, ok := again(r, ls, func(l string) bool { return l[7:9] == "00" && l[1:3] != "00" }); ok {
			return out
		}
	}
	a, ok := pick()
	if !ok {
		ls = append(ls, ihexRec(r, mode, 4, 0, []byte{0x40, 0}), ihexRec(r, mode, 0, 0x10, []byte{1, 2}))
		a = 0x40000010
	}
	at := pickOf(r, 0, len(ls), r.n(len(ls)+1))
	prev := uint32(0)
	for i := at - 1; i >= 0; i-- {
		if b, ok, _ := unhex(ls[i][1:]); ok && b[3] == 4 {
			prev = uint32(b[4])<<8 | uint32(b[5])
			break
		}
	}
	ins := []string{}
	if prev != a>>16 || r.p(30) {
		ins = append(ins, ihexRec(r, mode, 4, 0, []byte{byte(a >> 24), byte(a >> 16)}))
	}
	n := 1
	if r.p(30) { // a longer one, with the taken address anywhere in it
		n = r.in(1, 16)
		if k := uint32(r.n(n)); k <= a&0xffff {
			a -= k
		}
		if a&0xffff+uint32(n) > 0x10000 {
			n = int(0x10000 - a&0xffff)
		}
	}
	ins = append(ins, ihexRec(r, mode, 0, uint16(a), genData(r, n)))
	if prev != a>>16 || r.p(30) {
		ins = append(ins, ihexRec(r, mode, 4, 0, []byte{byte(prev >> 8), byte(prev)}))
	}
	out := append([]string{}, ls[:at]...)
	out = append(out, ins...)
	return append(out, ls[at:]...)
}

// genS19 makes a well-formed S-record file with 32-bit addresses.
func genS19(r *rng, o hexOpts) string {
	mode := r.n(3)
	n := genCount(r, o.big)
	if o.small {
		n = r.in(1, 30)
	}
	if o.overlap && n < 2 {
		n = 2
	}
	rl := genRecLen(r)
	if n > 60000 {
		rl = func() int { return 1 + r.n(3) }
	}
	var ls []string
	if r.p(50) {
		ls = append(ls, srec(r, mode, '0', 0, 2, genData(r, r.n(20))))
	}
	a := uint64(pickOf(r, 0, 0x80000000, 0xA0000000, r.n(1<<30), r.n(1<<30), 0x7FFFFF00, 0xFFFF0000, 0xFFFFFF80+r.n(64)))
	var starts []uint64
	ndata := 0
	lines := []string{}
	for i := 0; i < n; i++ {
		if r.p(10) {
			a += uint64(r.n(1 << 16))
		}
		l := rl()
		if l > 250 {
			l = 250
		}
		if a+uint64(l) > 0x100000000 {
			break
		}
		lines = append(lines, srec(r, mode, '3', a, 4, genData(r, l)))
		ndata++
		if l > 0 {
			starts = append(starts, a+uint64(r.n(l)))
		}
		a += uint64(l)
	}
	if r.p(20) {
		for i := len(lines) - 1; i > 0; i-- {
			j := r.n(i + 1)
			lines[i], lines[j] = lines[j], lines[i]
		}
	}
	twice := false
	if o.overlap && r.p(20) {
		lines, twice = again(r, lines, func(l string) bool { return len(l) > 14 })
		if twice {
			ndata++
		}
	}
	if o.overlap && !twice {
		var d uint64
		if len(starts) > 0 {
			d = starts[r.n(len(starts))]
		} else {
			d = 0x1234
			lines = append(lines, srec(r, mode, '3', d, 4, []byte{1}))
			ndata++
		}
		at := pickOf(r, 0, len(lines), r.n(len(lines)+1))
		out := append([]string{}, lines[:at]...)
		n := 1
		if r.p(30) {
			n = r.in(1, 16)
			if k := uint64(r.n(n)); k <= d {
				d -= k
			}
			if d+uint64(n) > 0x100000000 {
				n = int(0x100000000 - d)
			}
		}
		out = append(out, srec(r, mode, '3', d, 4, genData(r, n)))
		lines = append(out, lines[at:]...)
		ndata++
	}
	counts := r.p(20) // of the records so far, in between
	for i, l := range lines {
		ls = append(ls, l)
		if counts && r.p(15) && i+1 < 0x10000 {
			if r.p(70) {
				ls = append(ls, srec(r, mode, '5', uint64(i+1), 2, nil))
			} else {
				ls = append(ls, srec(r, mode, '6', uint64(i+1), 3, nil))
			}
		}
	}
	if r.p(30) {
		if ndata < 0x10000 && r.p(90) {
			ls = append(ls, srec(r, mode, '5', uint64(ndata), 2, nil))
		} else {
			ls = append(ls, srec(r, mode, '6', uint64(ndata), 3, nil))
		}
	}
	if r.p(60) {
		ls = append(ls, srec(r, mode, '7', uint64(r.n(1<<30)), 4, nil))
	}
	return joinLines(r, ls, nil)
}

// damage alters the stored bytes the way broken media, transfers and tools do.
func damage(r *rng, s string) (string, string) {
	b := []byte(s)
	if len(b) == 0 {
		return "garbage\n", "garbage"
	}
	hexd := "0123456789ABCDEF"
	// a position inside some record
	pos := func() int { return r.n(len(b)) }
	lineAt := func() (int, int) {
		p := pos()
		a, e := p, p
		for a > 0 && b[a-1] != '\n' {
			a--
		}
		for e < len(b) && b[e] != '\n' {
			e++
		}
		return a, e
	}
	switch k := r.n(21); k {
	case 20: // a pair that is no number, in a record whose sum fits if it counts as nothing
		a, e := lineAt()
		l := strings.TrimRight(string(b[a:e]), "\r")
		if len(l) >= 11 && (l[0] == ':' || l[0] == 'S') {
			o := 1
			if l[0] == 'S' {
				o = 2
			}
			if d, ok, _ := unhex(l[o:]); ok && len(d) > 2 {
				n := len(d) - 1
				at := pickOf(r, n, r.in(1, n), r.in(1, n))
				d[at] = 0
				s := byte(0)
				for _, x := range d[:n] {
					s += x
				}
				want := byte(0)
				if o == 2 {
					want = 0xff
				}
				if at == n {
					d[n-1] += want - s
				} else {
					d[n] = want - s
				}
				t := []byte(l[:o] + sprintf("%X", d))
				x := pickOf(r, "GG", "0G", "G0", "--", "+0", "0x", "??", "0 ", "ZZ", "\x00\x00", "-0")
				copy(t[o+2*at:], x)
				return string(b[:a]) + string(t) + string(b[a+len(l):]), "no-number"
			}
		}
		b[a] = '#'
		return string(b), "start-character"
	case 19: // the end-of-file record is not at the end
		ls := strings.SplitAfter(s, "\n")
		var e string
		for i, l := range ls {
			if len(l) > 8 && l[0] == ':' && l[7:9] == "01" || strings.HasPrefix(l, "S7") {
				e = l
				if r.p(50) {
					ls[i] = ""
				}
			}
		}
		if e == "" {
			return s + ls[r.n(len(ls))], "line-repeated"
		}
		if !strings.HasSuffix(e, "\n") {
			e += "\n"
		}
		if ls[len(ls)-1] != "" && !strings.HasSuffix(ls[len(ls)-1], "\n") {
			ls[len(ls)-1] += "\n"
		}
		i := r.n(len(ls))
		t := strings.Join(ls[:i], "") + e + strings.Join(ls[i:], "")
		if r.p(70) {
			t += e
		}
		return t, "end-record-moved"
	case 17, 18: // two bytes of different records exchanged, or changed so that the sum stays
		ls := strings.SplitAfter(s, "\n")
		var c []int
		for i, l := range ls {
			if strings.HasPrefix(l, "S3") || len(l) > 10 && l[0] == ':' && l[7:9] == "00" {
				c = append(c, i)
			}
		}
		if len(c) > 1 {
			i := r.n(len(c))
			j := r.n(len(c))
			if r.p(60) {
				j = i + r.in(1, 3)
				if j >= len(c) {
					j = i - 1
				}
			}
			if j < 0 {
				j = 0
			}
			if x, y, ok := compensate(r, ls[c[i]], ls[c[j]]); ok && i != j {
				ls[c[i]], ls[c[j]] = x, y
				return strings.Join(ls, ""), "exchanged-bytes"
			}
		}
		b[pos()] ^= 1 << uint(r.n(8))
		return string(b), "bit-flip"
	case 0: // one digit changed
		for t := 0; t < 20; t++ {
			p := pos()
			if nib(b[p]) >= 0 {
				o := b[p]
				b[p] = hexd[r.n(16)]
				if nib(o) != nib(b[p]) {
					break
				}
			}
		}
		return string(b), "digit-flip"
	case 1: // single bit
		b[pos()] ^= 1 << uint(r.n(8))
		return string(b), "bit-flip"
	case 2: // non-hex character
		b[pos()] = pickOf[byte](r, 'G', 'x', ' ', '?', 0, 0xff, '-', ':', 'S', ';')
		return string(b), "alien-character"
	case 3: // bytes lost
		p := pos()
		n := r.size(40)
		if p+n > len(b) {
			n = len(b) - p
		}
		return string(b[:p]) + string(b[p+n:]), "lost-bytes"
	case 4: // bytes repeated
		p := pos()
		n := r.size(60)
		if p+n > len(b) {
			n = len(b) - p
		}
		return string(b[:p+n]) + string(b[p:]), "repeated-bytes"
	case 5: // torn write: the tail is missing
		return string(b[:pos()]), "truncated"
	case 6: // a block of zeros
		p := pos()
		n := r.size(600)
		for i := p; i < len(b) && i < p+n; i++ {
			b[i] = 0
		}
		return string(b), "zeroed-block"
	case 7: // two records run together
		for t := 0; t < 50; t++ {
			p := pos()
			if b[p] == '\n' {
				a := p
				if a > 0 && b[a-1] == '\r' {
					a--
				}
				return string(b[:a]) + string(b[p+1:]), "joined-records"
			}
		}
		return string(b) + "junk", "junk-at-end"
	case 8: // record broken in two
		p := pos()
		return string(b[:p]) + pickOf(r, "\n", "\r\n") + string(b[p:]), "split-record"
	case 9: // byte count changed with the checksum made to fit
		a, e := lineAt()
		l := strings.TrimRight(string(b[a:e]), "\r")
		if len(l) >= 11 && (l[0] == ':' || l[0] == 'S') {
			o := 1
			if l[0] == 'S' {
				o = 2
			}
			d, ok, _ := unhex(l[o:])
			if ok && len(d) > 1 {
				d[0] = byte(int(d[0]) + pickOf(r, -1, 1, 2, -2, 16))
				s := byte(0)
				for _, x := range d[:len(d)-1] {
					s += x
				}
				if o == 1 {
					d[len(d)-1] = -s
				} else {
					d[len(d)-1] = ^s
				}
				return string(b[:a]) + l[:o] + sprintf("%X", d) + string(b[a+len(l):]), "wrong-count"
			}
		}
		b[a] = '#'
		return string(b), "start-character"
	case 10: // start character
		a, _ := lineAt()
		b[a] = pickOf[byte](r, ';', 's', 'T', '#', ' ', '0', ':', 'S', '*', '/', '!', '%', '$', '-', '@', '"', '[', 'a', 0x1a, 0, 0xef)
		return string(b), "start-character"
	case 11: // checksum digits
		a, e := lineAt()
		for e > a && (b[e-1] == '\r') {
			e--
		}
		if e-a >= 2 {
			p := e - 1 - r.n(2)
			b[p] = hexd[(nib(b[p])+1+r.n(15))&15]
		}
		return string(b), "checksum"
	case 12: // a record torn short: its tail is lost, the line end stays
		a, e := lineAt()
		for e > a && b[e-1] == '\r' {
			e--
		}
		if e-a > 1 {
			c := r.in(1, e-a-1)
			return string(b[:e-c]) + string(b[e:]), "torn-record"
		}
		return string(b[:a]) + "X" + string(b[a:]), "junk"
	case 13: // junk line
		a, _ := lineAt()
		return string(b[:a]) + pickOf(r, "hello world\n", "xyz\n", ":\n", ":00\n", "S3\n", "S\n", ":0000000\n", "0123456789\n", "\x00\x00\n", "S0\n", ";;;;;;;;;;;;;;;\n", foreign(r)) + string(b[a:]), "junk-line"
	case 14: // the end-of-file record is lost
		ls := strings.SplitAfter(string(b), "\n")
		for i := len(ls) - 1; i >= 0; i-- {
			if strings.HasPrefix(ls[i], ":00000001") || strings.HasPrefix(ls[i], "S7") {
				ls[i] = ""
			}
		}
		return strings.Join(ls, ""), "lost-last-record"
	case 15: // swapped characters
		p := r.n(len(b))
		if p+1 < len(b) {
			b[p], b[p+1] = b[p+1], b[p]
		}
		return string(b), "swapped-characters"
	default: // a record of another type, well-formed
		a, _ := lineAt()
		mode := r.n(2)
		var l string
		if strings.Contains(s, ":") {
			l = ihexRec(r, mode, pickOf[byte](r, 2, 6, 7, 0x10, 4, 1), uint16(r.n(65536)), genData(r, pickOf(r, 0, 1, 2, 2, 4)))
		} else {
			t := pickOf[byte](r, '1', '2', '4', '5', '8', '9', '6')
			l = srec(r, mode, t, uint64(r.n(65536)), map[byte]int{'1': 2, '2': 3, '4': 4, '5': 2, '8': 3, '9': 2, '6': 3}[t], genData(r, r.n(8)))
		}
		return string(b[:a]) + l + "\n" + string(b[a:]), "other-record"
	}
}

// foreign is a line that is no record, of kinds other formats and tools have.
func foreign(r *rng) string {
	return pickOf(r, "// ", "//", "* ", "*", "# ", "#", "; ", ";", "/* ", "-- ", "! ", "% ", "$$ ", "$", "@", "REM ", "[", "<", "\"", "'", "=", "--", ">", "\xef\xbb\xbf", "\x1a", "@0", "q") +
		pickOf(r, "", "note", "a longer text than that", ":00000001FF", "S70500000000FA", "0123456789ABCDEF", "x\x1a") + "\n"
}

// compensate changes a byte in each of two records; the sum of both stays.
func compensate(r *rng, x, y string) (string, string, bool) {
	pick := func(l string) int {
		o, t := 9, strings.TrimRight(l, "\r\n")
		if t[0] == 'S' {
			o = 12
		}
		n := (len(t) - 2 - o) / 2
		if n < 1 {
			return -1
		}
		return o + 2*r.n(n)
	}
	p, q := pick(x), pick(y)
	if p < 0 || q < 0 {
		return x, y, false
	}
	a, ok1, _ := unhex(x[p : p+2])
	b, ok2, _ := unhex(y[q : q+2])
	if !ok1 || !ok2 {
		return x, y, false
	}
	if r.p(50) && a[0] != b[0] {
		a[0], b[0] = b[0], a[0]
	} else {
		d := byte(r.in(1, 255))
		a[0] += d
		b[0] -= d
	}
	return x[:p] + sprintf("%02X", a) + x[p+2:], y[:q] + sprintf("%02X", b) + y[q+2:], true
}
