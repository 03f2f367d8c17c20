//go:build go1.21

package main

import "strings"

// verdict of a reference decoder on the bytes of a file.
//
//	mustOK:  the reader has to succeed with maps[0]
//	mustErr: the reader has to fail
//	either:  the reader may fail, or succeed with one of maps
type verdict struct {
	mustOK, mustErr bool
	maps            []map[uint32]byte
	why             string
	collision       bool
}

func (v verdict) String() string {
	switch {
	case v.mustOK:
		return "well-formed"
	case v.mustErr:
		return "must be rejected: " + v.why
	}
	return "may be rejected: " + v.why
}

func nib(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	}
	return -1
}

// unhex decodes pairs of digits; mixed is set if a pair mixes letter cases.
func unhex(s string) (b []byte, ok, mixed bool) {
	if len(s)%2 != 0 {
		return nil, false, false
	}
	for i := 0; i < len(s); i += 2 {
		h, l := nib(s[i]), nib(s[i+1])
		if h < 0 || l < 0 {
			return nil, false, false
		}
		if (s[i] >= 'a') && s[i+1] >= 'A' && s[i+1] < 'a' || s[i+1] >= 'a' && s[i] >= 'A' && s[i] < 'a' {
			mixed = true
		}
		b = append(b, byte(h<<4|l))
	}
	return b, true, mixed
}

// unusual tells whether the text holds anything but records, blank lines and a
// single control-Z as the last line. Such files are never required to be read.
func unusual(text string) bool {
	text = strings.ReplaceAll(text, "\r\n", "\n")
	if strings.HasSuffix(text, "\x1a\n") {
		text = text[:len(text)-1]
	}
	if text == "\x1a" || strings.HasSuffix(text, "\n\x1a") {
		text = text[:len(text)-1]
	}
	for i := 0; i < len(text); i++ {
		c := text[i]
		if nib(c) < 0 && c != ':' && c != 'S' && c != '\n' && c != ' ' && c != '\t' {
			return true
		}
	}
	return false
}

func splitLines(text string) []string {
	ls := strings.Split(text, "\n")
	for i, l := range ls[:len(ls)-1] {
		if strings.HasSuffix(l, "\r") {
			ls[i] = l[:len(l)-1]
		}
	}
	return ls
}

func blankLine(l string) bool { return strings.Trim(l, white) == "" }

const white = " \t\r\v\f"

type imgBuilder struct {
	m    map[uint32]byte
	dup  bool
	wrap bool
}

func (b *imgBuilder) put(base uint64, data []byte) {
	for i, d := range data {
		a := base + uint64(i)
		if a > 0xffffffff {
			b.wrap = true
		}
		if _, ok := b.m[uint32(a)]; ok {
			b.dup = true
		}
		b.m[uint32(a)] = d
	}
}

// decodeIHex is an independent reading of the Intel HEX format (I32HEX).
func decodeIHex(text string) verdict {
	img := imgBuilder{m: map[uint32]byte{}}
	base := uint64(0)
	sawEOF, after, seg16, odd := false, false, false, ""
	var first map[uint32]byte // image up to the first end-of-file record
	firstDup := false
	bad := func(s string) verdict {
		if after {
			// what follows the end-of-file record is not part of the image; a
			// reader may refuse it or stop there
			return afterEnd(first, firstDup, nil)
		}
		return verdict{mustErr: true, why: s}
	}
	for _, l := range splitLines(text) {
		if blankLine(l) {
			if strings.Trim(l, " \t") != "" {
				odd = "stray control character"
			}
			continue
		}
		if sawEOF {
			if strings.Trim(l, "\x1a"+white) == "" {
				continue
			}
			if !after {
				after = true
				first, firstDup = img.m, img.dup
				img.m = map[uint32]byte{}
				for k, v := range first {
					img.m[k] = v
				}
			}
		}
		if strings.Trim(l, "\x1a"+white) == "" {
			odd = "control-Z before the end-of-file record"
			continue
		}
		if t := strings.Trim(l, white); t != l {
			odd = "white space around a record"
			l = t
		}
		if l[0] != ':' {
			return bad("record without start character")
		}
		b, ok, mixed := unhex(l[1:])
		if !ok {
			return bad("digit missing or not hexadecimal")
		}
		if mixed {
			odd = "byte in mixed letter case"
		}
		if len(b) < 5 {
			return bad("record too short")
		}
		if len(b) != int(b[0])+5 {
			return bad("length does not match the byte count")
		}
		s := byte(0)
		for _, x := range b {
			s += x
		}
		if s != 0 {
			return bad("checksum mismatch")
		}
		d := b[4 : len(b)-1]
		switch b[3] {
		case 0:
			off := uint64(b[1])<<8 + uint64(b[2])
			if seg16 {
				for i := range d {
					img.put(base+(off+uint64(i))&0xffff, d[i:i+1])
				}
			} else {
				img.put(base+off, d)
			}
		case 1:
			if len(d) != 0 {
				odd = "end-of-file record with data"
			}
			sawEOF = true
		case 2:
			if len(d) != 2 {
				return bad("extended segment address record without two data bytes")
			}
			odd = "extended segment address record"
			base = (uint64(d[0])<<8 | uint64(d[1])) << 4
			seg16 = true
		case 4:
			if len(d) != 2 {
				return bad("extended linear address record without two data bytes")
			}
			base = (uint64(d[0])<<8 | uint64(d[1])) << 16
			seg16 = false
		case 3, 5:
			if len(d) != 4 {
				odd = "start address record of odd length"
			}
		default:
			return bad("unknown record type")
		}
	}
	if !sawEOF {
		return bad("no end-of-file record")
	}
	if after {
		if img.dup || img.wrap {
			return afterEnd(first, firstDup, nil)
		}
		return afterEnd(first, firstDup, img.m)
	}
	if img.dup {
		return verdict{mustErr: true, why: "an address is defined twice", collision: true}
	}
	if img.wrap {
		odd = "record beyond 4 GiB"
	}
	if odd == "" && unusual(text) {
		odd = "stray characters"
	}
	if odd != "" {
		return verdict{why: odd, maps: []map[uint32]byte{img.m}}
	}
	return verdict{mustOK: true, maps: []map[uint32]byte{img.m}}
}

// afterEnd: there are records behind the end-of-file record. A reader may refuse
// them, ignore them or take them as part of the image.
func afterEnd(first map[uint32]byte, dup bool, all map[uint32]byte) verdict {
	v := verdict{why: "text after the end-of-file record"}
	if !dup {
		v.maps = append(v.maps, first)
	}
	if all != nil {
		v.maps = append(v.maps, all)
	}
	if len(v.maps) == 0 {
		v.mustErr = true
		v.collision = dup
	}
	return v
}

// decodeS19 is an independent reading of the S-record format.
func decodeS19(text string) verdict {
	img := imgBuilder{m: map[uint32]byte{}}
	odd := ""
	ended := false
	ndata := 0
	bad := func(s string) verdict { return verdict{mustErr: true, why: s} }
	for _, l := range splitLines(text) {
		if blankLine(l) {
			if strings.Trim(l, " \t") != "" {
				odd = "stray control character"
			}
			continue
		}
		if strings.Trim(l, "\x1a"+white) == "" {
			if !ended {
				odd = "control-Z before the end"
			}
			continue
		}
		if t := strings.Trim(l, white); t != l {
			odd = "white space around a record"
			l = t
		}
		if l[0] != 'S' {
			return bad("record without start character")
		}
		if len(l) < 2 || l[1] < '0' || l[1] > '9' {
			return bad("record without type")
		}
		b, ok, mixed := unhex(l[2:])
		if !ok {
			return bad("digit missing or not hexadecimal")
		}
		if mixed {
			odd = "byte in mixed letter case"
		}
		if len(b) < 3 {
			return bad("record too short")
		}
		if len(b) != int(b[0])+1 {
			return bad("length does not match the byte count")
		}
		s := byte(0)
		for _, x := range b {
			s += x
		}
		if s != 0xff {
			return bad("checksum mismatch")
		}
		if ended {
			odd = "record after the termination record"
		}
		n := map[byte]int{'0': 2, '1': 2, '2': 3, '3': 4, '4': 0, '5': 2, '6': 3, '7': 4, '8': 3, '9': 2}[l[1]]
		p := b[1 : len(b)-1]
		if len(p) < n {
			return bad("record too short for its address")
		}
		a := uint64(0)
		for _, x := range p[:n] {
			a = a<<8 | uint64(x)
		}
		switch l[1] {
		case '3':
			img.put(a, p[n:])
			ndata++
		case '1', '2':
			odd = "data record with a short address"
			img.put(a, p[n:])
			ndata++
		case '4':
			odd = "reserved record type"
		case '5', '6':
			if int(a) != ndata || len(p) != n {
				odd = "record count does not match"
			}
		case '7':
			ended = true
			if len(p) != n {
				odd = "termination record with data"
			}
		case '8', '9':
			ended = true
			odd = "termination record of another address size"
		}
	}
	if img.dup {
		return verdict{mustErr: true, why: "an address is defined twice", collision: true}
	}
	if img.wrap {
		odd = "record beyond 4 GiB"
	}
	if odd == "" && unusual(text) {
		odd = "stray characters"
	}
	if odd != "" {
		return verdict{why: odd, maps: []map[uint32]byte{img.m}}
	}
	return verdict{mustOK: true, maps: []map[uint32]byte{img.m}}
}

func sameImage(a, b map[uint32]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			return false
		}
	}
	return true
}

// diffImage describes the first difference.
func diffImage(want, got map[uint32]byte) string {
	miss, extra, wrong := 0, 0, 0
	var ex uint32
	first := uint64(1 << 40)
	kind := ""
	note := func(k uint32, s string) {
		if uint64(k) < first {
			first, ex, kind = uint64(k), k, s
		}
	}
	for k, v := range want {
		w, ok := got[k]
		if !ok {
			miss++
			note(k, "missing")
		} else if w != v {
			wrong++
			note(k, "wrong value")
		}
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			extra++
			note(k, "not in the file")
		}
	}
	return sprintf("%d bytes missing, %d wrong, %d extra; first at 0x%08X (%s)", miss, wrong, extra, ex, kind)
}
