package main

import (
	"bytes"
	"fmt"
	"strconv"

	syslog5424 "github.com/nathanaelle/syslog5424/v2"

	"verif/mc"
)

// Transports of the user: crlf ends frames with two bytes, fixed starts them with six digits.
type (
	crlf  struct{}
	fixed struct{}
)

var ownTransports = []transport{{"crlf", crlf{}}, {"fixed", fixed{}}}

func (crlf) String() string  { return "crlf" }
func (fixed) String() string { return "fixed" }

func (crlf) Encode(d []byte) []byte  { return append(append([]byte(nil), d...), "\r\n"...) }
func (fixed) Encode(d []byte) []byte { return append([]byte(fmt.Sprintf("%06d", len(d))), d...) }

func (crlf) PrefixStrip(b []byte, atEOF bool) (data, rest []byte, err error) {
	if len(b) == 0 {
		return nil, nil, nil
	}
	return b, nil, nil
}

func (crlf) SuffixStrip(b []byte, atEOF bool) (data, rest []byte, err error) {
	if len(b) == 0 {
		return nil, nil, nil
	}
	if i := bytes.Index(b, []byte("\r\n")); i >= 0 {
		return b[:i], b[i+2:], nil
	}
	if atEOF {
		return b, nil, syslog5424.ErrTransportIncomplete
	}
	return b, nil, nil
}

func (fixed) PrefixStrip(b []byte, atEOF bool) (data, rest []byte, err error) {
	if len(b) == 0 {
		return nil, nil, nil
	}
	if len(b) >= 6 {
		n, err := strconv.Atoi(string(b[:6]))
		if err != nil || n < 0 {
			return nil, nil, syslog5424.ErrTransportInvHeader
		}
		if len(b) >= 6+n {
			return b[6 : 6+n], b[6+n:], nil
		}
	}
	if atEOF {
		return b, nil, syslog5424.ErrTransportIncomplete
	}
	return nil, nil, nil
}

func (fixed) SuffixStrip(b []byte, atEOF bool) (data, rest []byte, err error) {
	if len(b) == 0 {
		return nil, nil, nil
	}
	return b, nil, nil
}

// ownStreams are the units of C07 for the transports of the user.
func ownStreams() (u []mc.Unit) {
	for _, t := range ownTransports {
		t := t
		ms := payloads(t)
		for i := range ms {
			i := i
			u = append(u, streams(fmt.Sprintf("%s-pairs-%d", t.name, i), func() *stream {
				p := &stream{t: t, frames: []fr{good(t, ms[i])}, end: pick(numEnds, "end"), queue: 1}
				if k := pick(len(ms)+1, "second"); k > 0 {
					p.frames = append(p.frames, good(t, ms[k-1]))
				}
				p.cut(1)
				return p
			}), streams(fmt.Sprintf("%s-tails-%d", t.name, i), func() *stream {
				p := &stream{t: t, end: pick(numEnds, "end")}
				if pick(2, "before") == 1 {
					p.frames = []fr{good(t, ms[(i+1)%len(ms)])}
				}
				p.setTail(ms[i], 1+pick(len(t.frame(ms[i]))-1, "tail"))
				if pick(2, "byte by byte") == 1 {
					p.every(1)
				}
				return p
			}))
		}
		u = append(u, streams(t.name+"-sizes", func() *stream {
			n := 21 + 3*pick(700, "size")
			p := &stream{t: t, end: eofWith, max: []int{0, 1000, 65000}[pick(3, "largest read")], queue: 64}
			for i, total := 0, 140000; total > 0; i++ {
				p.frames = append(p.frames, good(t, sized(n, byte('a'+i%26))))
				total -= n
			}
			return p
		}))
	}
	return
}
