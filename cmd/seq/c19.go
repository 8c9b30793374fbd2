package main

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"

	syslog5424 "github.com/nathanaelle/syslog5424/v2"

	"verif/mc"
)

type tr struct {
	name string
	t    syslog5424.Transport
	term int // terminator, -1 for octet counting
}

var transports = []tr{{"zero", syslog5424.TransportZeroEnded, 0}, {"lf", syslog5424.TransportLFEnded, '\n'}, {"rfc5425", syslog5424.TransportRFC5425, -1}}

func (t tr) frame(p string) string {
	if t.term < 0 {
		return strconv.Itoa(len(p)) + " " + p
	}
	return p + string([]byte{byte(t.term)})
}

// decode takes one frame off the buffer, as a receiver does. more: the frame is incomplete.
func (t tr) decode(x *mc.X, s string, spare int, eof bool) (data, rest string, more bool, err error) {
	full := make([]byte, len(s)+spare)
	copy(full, s)
	for i := len(s); i < len(full); i++ {
		full[i] = []byte{0, '\n', ' ', '1'}[i%4]
	}
	keep := append([]byte(nil), full...)
	defer func() {
		if !bytes.Equal(full, keep) {
			x.Fail("decoding %q changed the buffer to %q", keep, full)
		}
	}()
	buf := full[:len(s)]
	inside := func(b []byte) {
		if len(b) > 0 && !(len(b) <= len(s)) {
			x.Fail("decoding %q gives %q", s, b)
		}
	}
	d, r, err := t.t.PrefixStrip(buf, eof)
	inside(d)
	inside(r)
	if err != nil {
		return string(d), string(r), false, err
	}
	if d == nil && r == nil {
		return "", "", true, nil
	}
	if r != nil {
		return string(d), string(r), false, nil
	}
	d, r, err = t.t.SuffixStrip(d, eof)
	inside(d)
	inside(r)
	if err != nil {
		return string(d), string(r), false, err
	}
	if r == nil && !eof {
		return "", "", true, nil
	}
	if d == nil && r == nil {
		return "", "", true, nil
	}
	return string(d), string(r), false, nil
}

func (t tr) stream(c *mc.C, x *mc.X, payloads []string, spare int) {
	s := ""
	for _, p := range payloads {
		in := make([]byte, len(p), len(p)+spare)
		copy(in, p)
		for i := len(p); i < cap(in); i++ {
			in[:cap(in)][i] = '#'
		}
		f := t.t.Encode(in)
		if string(f) != t.frame(p) {
			x.Fail("%s encodes %q as %q", t.name, p, f)
		}
		if string(in) != p || strings.Trim(string(in[:cap(in)][len(p):]), "#") != "" {
			x.Fail("%s: encoding %q changed the caller's buffer to %q", t.name, p, in[:cap(in)])
		}
		s += string(f)
	}
	x.Note("stream %q", s)
	if c.WantSample() {
		c.Sample("%s %q", t.name, s)
	}
	for _, eof := range []bool{false, true} {
		left := s
		for i, p := range payloads {
			d, r, more, err := t.decode(x, left, spare, eof)
			left = left[len(t.frame(p)):]
			if err != nil || more || d != p || r != left {
				x.Fail("%s: frame %d of %q (end %v) is decoded as %q, rest %q, incomplete %v, error %v", t.name, i, s, eof, d, r, more, err)
			}
		}
	}
	// every truncation of the last frame
	last := t.frame(payloads[len(payloads)-1])
	p := payloads[len(payloads)-1]
	step := 1
	if len(last) > 64 {
		step = len(last) - 3
	}
	for n := 1; n < len(last); n += step {
		d, r, more, err := t.decode(x, last[:n], spare, false)
		if err != nil || !more {
			x.Fail("%s: the incomplete frame %q is decoded as %q, rest %q, error %v", t.name, last[:n], d, r, err)
		}
		d, r, more, err = t.decode(x, last[:n], spare, true)
		switch {
		case t.term == 0:
			if err != nil || more || d != p[:n] || r != "" {
				x.Fail("%s: the unterminated frame %q at the end is decoded as %q, rest %q, incomplete %v, error %v", t.name, last[:n], d, r, more, err)
			}
		case err == nil:
			x.Fail("%s: the truncated frame %q at the end is decoded as %q, rest %q, incomplete %v without error", t.name, last[:n], d, r, more)
		case err != syslog5424.ErrTransportIncomplete && (t.term >= 0 || strings.Contains(last[:n], " ")):
			x.Fail("%s: the truncated frame %q at the end is reported as %v", t.name, last[:n], err)
		}
	}
}

var c19 = &mc.Property{
	ID: "C19",
	Bounds: func(deep bool) string {
		return "per transport: all payloads of 1 to 6 (thorough 7) bytes over NUL, LF, CR, ' ', '1', '0', 'a' and three bytes above 127, all pairs of bytes, all pairs of payloads of up to 3 bytes and triples of up to 1, payload lengths 1 to 1200 and around every power of 2 and 10 up to 2^20 (thorough 2^23), every truncation, buffers with and without spare capacity; octet counting headers: all strings of up to 5 (thorough 6) over digits, sign, space, letter, and all digit counts up to 40"
	},
	Assume: []string{"empty frames, leading zeros and signs of octet counts and counts over 2^31 are unspecified, except that nothing may panic"},
	Units: func(deep bool) (l []mc.Unit) {
		alphabet := []string{"\x00", "\n", " ", "1", "0", "a", "\r", "\xc3", "\xa9", "\xff"}
		big := around(1201, 1<<20, 9, 1)
		if deep {
			big = around(1201, 1<<23, 20, 20)
		}
		for _, t := range transports {
			t := t
			var al []string
			for _, a := range alphabet {
				if t.term < 0 || a != string([]byte{byte(t.term)}) {
					al = append(al, a)
				}
			}
			n := 5
			if deep {
				n = 6
			}
			for i := range al {
				i := i
				l = append(l, mc.Unit{Name: t.name + fmt.Sprintf("-payload-%d", i), Run: func(c *mc.C) {
					c.Enumerate(func(x *mc.X) { t.stream(c, x, []string{al[i] + str(x, al, 0, n)}, 0) })
				}})
				l = append(l, mc.Unit{Name: t.name + fmt.Sprintf("-pair-%d", i), Run: func(c *mc.C) {
					c.Enumerate(func(x *mc.X) {
						t.stream(c, x, []string{al[i] + str(x, al, 0, 2), str(x, al, 1, 3)}, 5*x.Choose(2))
					})
				}})
			}
			l = append(l, mc.Unit{Name: t.name + "-triples", Run: func(c *mc.C) {
				c.Enumerate(func(x *mc.X) {
					t.stream(c, x, []string{str(x, al, 1, 2), str(x, al, 1, 1), str(x, al, 1, 2)}, 3*x.Choose(2))
				})
			}}, mc.Unit{Name: t.name + "-bytes", Run: func(c *mc.C) {
				c.Enumerate(func(x *mc.X) {
					p := []byte{byte(x.Choose(256)), byte(x.Choose(256))}
					if int(p[0]) == t.term || int(p[1]) == t.term {
						return
					}
					t.stream(c, x, []string{string(p), "x" + string(p[:1]) + "y"}, 0)
				})
			}}, mc.Unit{Name: t.name + "-lengths", Run: func(c *mc.C) {
				c.Enumerate(func(x *mc.X) {
					n := 1 + x.Choose(1200)
					t.stream(c, x, []string{strings.Repeat("p", n), "q"}, 7*x.Choose(2))
				})
			}}, mc.Unit{Name: t.name + "-big", Run: func(c *mc.C) {
				c.Enumerate(func(x *mc.X) {
					n := big[x.Choose(len(big))]
					t.stream(c, x, []string{strings.Repeat("p", n), "q"}, 7*x.Choose(2))
				})
			}}, mc.Unit{Name: t.name + "-empty", Run: func(c *mc.C) {
				c.Enumerate(func(x *mc.X) {
					eof := x.Choose(2) == 1
					in := [][]byte{nil, {}, make([]byte, 0, 8)}[x.Choose(3)]
					d, r, err := t.t.PrefixStrip(in, eof)
					if len(d) != 0 || len(r) != 0 || err != nil {
						x.Fail("%s: PrefixStrip of nothing gives %q, %q, %v", t.name, d, r, err)
					}
					d, r, err = t.t.SuffixStrip(in, eof)
					if len(d) != 0 || len(r) != 0 || err != nil {
						x.Fail("%s: SuffixStrip of nothing gives %q, %q, %v", t.name, d, r, err)
					}
				})
			}})
		}
		t := transports[2]
		ha := []string{"0", "1", "2", "9", " ", "-", "+", "a", "\n"}
		hn := 4
		if deep {
			hn = 5
		}
		for i := range ha {
			i := i
			l = append(l, mc.Unit{Name: fmt.Sprintf("header-%d", i), Run: func(c *mc.C) {
				c.Enumerate(func(x *mc.X) {
					s := ha[i] + str(x, ha, 0, hn)
					header(x, t, s+pick(x, []string{"", " ", " abcdefghijklmnopqrstuvwxyz", "bcdefghijklmnopqrstuvwxyz"}))
				})
			}})
		}
		l = append(l, mc.Unit{Name: "header-digits", Run: func(c *mc.C) {
			c.Enumerate(func(x *mc.X) {
				h := strings.Repeat(pick(x, []string{"1", "9", "2", "4", "8", "3", "5", "6", "7"}), 1+x.Choose(40))
				header(x, t, h+pick(x, []string{"", " ", " abc", " abcdefghijklmnopqrstuvwxyz", "a abc"}))
			})
		}}, mc.Unit{Name: "header-bounds", Run: func(c *mc.C) {
			c.Enumerate(func(x *mc.X) {
				h := pick(x, []string{"2147483647", "2147483648", "4294967295", "4294967296", "4294967299", "9223372036854775807", "9223372036854775808", "9223372036854775798", "18446744073709551615", "18446744073709551616", "18446744073709551619", "9999999999999999999", "18446744073709551613", "18446744073709551629", "36893488147419103235", "-1", "-9223372036854775808", "-20", "+5", "1_0", "0x5", "٣"})
				header(x, t, h+pick(x, []string{"", " ", " abc", " abcdefghijklmnopqrstuvwxyz"}))
			})
		}})
		return
	},
}

// header decodes a string whose first part may be an octet count.
func header(x *mc.X, t tr, s string) {
	x.Note("input %q", s)
	for _, eof := range []bool{false, true} {
		d, r, more, err := t.decode(x, s, x.Choose(2)*9, eof)
		i := strings.IndexByte(s, ' ')
		h := s
		if i >= 0 {
			h = s[:i]
		}
		valid, lenient := len(h) > 0, true
		for _, b := range []byte(h) {
			if b < '0' || b > '9' {
				valid = false
			}
		}
		n := 0
		if valid {
			var e error
			if n, e = strconv.Atoi(h); e == nil && h[0] != '0' && n < 1<<31 {
				lenient = false
			}
		} else if len(h) > 0 && (h[0] == '+') {
			lenient = true
		} else {
			lenient = false
		}
		if lenient {
			if err == nil && !more && (i < 0 || len(d)+i+1+len(r) != len(s)) {
				x.Fail("%q (end %v) is decoded as %q, rest %q", s, eof, d, r)
			}
			continue
		}
		switch {
		case i < 0 && !eof: // the header may go on
			if valid && len(h) < 10 && !more {
				x.Fail("the incomplete header %q gives %q, rest %q, error %v", s, d, r, err)
			}
			if !more && err == nil {
				x.Fail("%q is decoded as %q, rest %q", s, d, r)
			}
		case !valid || i < 0:
			if err == nil {
				x.Fail("%q (end %v) has no valid octet count and gives %q, rest %q, incomplete %v", s, eof, d, r, more)
			}
		case len(s)-i-1 >= n:
			if err != nil || more || d != s[i+1:i+1+n] || r != s[i+1+n:] {
				x.Fail("%q (end %v) is decoded as %q, rest %q, incomplete %v, error %v", s, eof, d, r, more, err)
			}
		case !eof:
			if !more {
				x.Fail("the incomplete %q is decoded as %q, rest %q, error %v", s, d, r, err)
			}
		default:
			if err != syslog5424.ErrTransportIncomplete {
				x.Fail("the truncated %q is decoded as %q, rest %q, incomplete %v, error %v", s, d, r, more, err)
			}
		}
	}
}
