// Package ref is a strict reader of RFC 5424 messages, written from the grammar of the RFC and independent of the
// code under test. Deviation: priorities up to 255 are accepted on request (the library carries facilities 24 to 31).
package ref

import (
	"errors"
	"fmt"
	"strconv"
)

// Param is one structured data parameter.
type Param struct {
	Name string
	Raw  string // as written, escapes included
	Val  string // unescaped
}

// Elem is one structured data element.
type Elem struct {
	ID     string
	Params []Param
}

// Msg is a decoded message.
type Msg struct {
	Pri     int
	TS      string // "-" if absent
	Host    string
	App     string
	Proc    string
	MsgID   string
	SD      []Elem
	HasText bool
	Text    string
}

type reader struct {
	b []byte
	p int
}

func (r *reader) end() bool { return r.p >= len(r.b) }
func (r *reader) peek() int {
	if r.end() {
		return -1
	}
	return int(r.b[r.p])
}
func (r *reader) lit(c byte) error {
	if r.peek() != int(c) {
		return fmt.Errorf("at %d: %q expected", r.p, c)
	}
	r.p++
	return nil
}

func digits(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return len(s) > 0
}

func (r *reader) word(max int, what string) (string, error) {
	s := r.p
	for !r.end() && r.b[r.p] > 32 && r.b[r.p] < 127 {
		r.p++
	}
	if r.p == s || r.p-s > max {
		return "", fmt.Errorf("at %d: %s of length %d", s, what, r.p-s)
	}
	return string(r.b[s:r.p]), nil
}

// Name reads an SD-NAME.
func (r *reader) name() (string, error) {
	s := r.p
	for !r.end() && r.b[r.p] > 32 && r.b[r.p] < 127 && r.b[r.p] != '=' && r.b[r.p] != ']' && r.b[r.p] != '"' {
		r.p++
	}
	if r.p == s || r.p-s > 32 {
		return "", fmt.Errorf("at %d: name of length %d", s, r.p-s)
	}
	return string(r.b[s:r.p]), nil
}

func (r *reader) elem() (e Elem, err error) {
	if err = r.lit('['); err != nil {
		return
	}
	if e.ID, err = r.name(); err != nil {
		return
	}
	for r.peek() == ' ' {
		r.p++
		var p Param
		if p.Name, err = r.name(); err != nil {
			return
		}
		if err = r.lit('='); err != nil {
			return
		}
		if err = r.lit('"'); err != nil {
			return
		}
		s := r.p
		var val []byte
		for {
			if r.end() {
				return e, errors.New("end inside a value")
			}
			c := r.b[r.p]
			if c == '"' {
				break
			}
			if c == ']' {
				return e, fmt.Errorf("at %d: unescaped ']' in a value", r.p)
			}
			if c == '\\' {
				if r.p+1 < len(r.b) && (r.b[r.p+1] == '"' || r.b[r.p+1] == '\\' || r.b[r.p+1] == ']') {
					r.p++
					c = r.b[r.p]
				}
			}
			val = append(val, c)
			r.p++
		}
		p.Raw, p.Val = string(r.b[s:r.p]), string(val)
		r.p++
		e.Params = append(e.Params, p)
	}
	return e, r.lit(']')
}

// ParseElems reads a sequence of at least one element.
func ParseElems(b []byte) (l []Elem, err error) {
	r := &reader{b: b}
	for !r.end() || len(l) == 0 {
		e, err := r.elem()
		if err != nil {
			return nil, err
		}
		l = append(l, e)
	}
	return l, nil
}

// Parse reads a message; maxPri is 191 for the RFC.
func Parse(b []byte, maxPri int) (*Msg, error) {
	r := &reader{b: b}
	m := &Msg{}
	if err := r.lit('<'); err != nil {
		return nil, err
	}
	s := r.p
	for c := r.peek(); c >= '0' && c <= '9'; c = r.peek() {
		r.p++
	}
	d := string(b[s:r.p])
	if len(d) < 1 || len(d) > 3 || (len(d) > 1 && d[0] == '0') {
		return nil, fmt.Errorf("priority %q", d)
	}
	m.Pri, _ = strconv.Atoi(d)
	if m.Pri > maxPri {
		return nil, fmt.Errorf("priority %q", d)
	}
	if err := r.lit('>'); err != nil {
		return nil, err
	}
	if err := r.lit('1'); err != nil {
		return nil, err
	}
	var err error
	if err = r.lit(' '); err != nil {
		return nil, err
	}
	if m.TS, err = r.word(40, "timestamp"); err != nil {
		return nil, err
	}
	if m.TS != "-" {
		if _, err = Instant(m.TS); err != nil {
			return nil, err
		}
	}
	for _, f := range []struct {
		s    *string
		max  int
		what string
	}{{&m.Host, 255, "hostname"}, {&m.App, 48, "app-name"}, {&m.Proc, 128, "procid"}, {&m.MsgID, 32, "msgid"}} {
		if err = r.lit(' '); err != nil {
			return nil, err
		}
		if *f.s, err = r.word(f.max, f.what); err != nil {
			return nil, err
		}
	}
	if err = r.lit(' '); err != nil {
		return nil, err
	}
	if r.peek() == '-' {
		r.p++
	} else {
		for r.peek() == '[' {
			e, err := r.elem()
			if err != nil {
				return nil, err
			}
			m.SD = append(m.SD, e)
		}
		if m.SD == nil {
			return nil, fmt.Errorf("at %d: structured data expected", r.p)
		}
	}
	if r.end() {
		return m, nil
	}
	if err = r.lit(' '); err != nil {
		return nil, err
	}
	m.HasText, m.Text = true, string(b[r.p:])
	return m, nil
}

// Micros is an instant in microseconds since 1970-01-01T00:00:00Z.
type Micros int64

func days(y, m, d int) int64 { // days since 1970-01-01 in the proleptic Gregorian calendar
	n := int64(0)
	for i := 1970; i < y; i++ {
		n += int64(YearDays(i))
	}
	for i := y; i < 1970; i++ {
		n -= int64(YearDays(i))
	}
	for i := 1; i < m; i++ {
		n += int64(MonthDays(y, i))
	}
	return n + int64(d-1)
}

// Leap tells whether y is a leap year.
func Leap(y int) bool { return y%4 == 0 && (y%100 != 0 || y%400 == 0) }

// YearDays is the number of days of y.
func YearDays(y int) int {
	if Leap(y) {
		return 366
	}
	return 365
}

// MonthDays is the number of days of month m of y.
func MonthDays(y, m int) int {
	switch m {
	case 2:
		if Leap(y) {
			return 29
		}
		return 28
	case 4, 6, 9, 11:
		return 30
	}
	return 31
}

// Date gives the instant of a UTC date and time.
func Date(y, mo, d, h, mi, s int) Micros {
	return Micros((((days(y, mo, d)*24+int64(h))*60+int64(mi))*60 + int64(s)) * 1000000)
}

// Instant reads an RFC 5424 timestamp.
func Instant(ts string) (Micros, error) {
	bad := fmt.Errorf("timestamp %q", ts)
	if len(ts) < 20 || ts[4] != '-' || ts[7] != '-' || ts[10] != 'T' || ts[13] != ':' || ts[16] != ':' {
		return 0, bad
	}
	num := func(s string) int {
		if !digits(s) {
			return -1
		}
		n, _ := strconv.Atoi(s)
		return n
	}
	y, mo, d, h, mi, s := num(ts[0:4]), num(ts[5:7]), num(ts[8:10]), num(ts[11:13]), num(ts[14:16]), num(ts[17:19])
	if y < 0 || mo < 1 || mo > 12 || d < 1 || d > MonthDays(y, mo) || h < 0 || h > 23 || mi < 0 || mi > 59 || s < 0 || s > 59 {
		return 0, bad
	}
	r := ts[19:]
	us := 0
	if r[0] == '.' {
		i := 1
		for i < len(r) && r[i] >= '0' && r[i] <= '9' {
			i++
		}
		if i < 2 || i > 7 {
			return 0, bad
		}
		us = num((r[1:i] + "00000")[:6])
		r = r[i:]
	}
	off := 0
	switch {
	case r == "Z":
	case len(r) == 6 && (r[0] == '+' || r[0] == '-') && r[3] == ':':
		oh, om := num(r[1:3]), num(r[4:6])
		if oh < 0 || oh > 23 || om < 0 || om > 59 {
			return 0, bad
		}
		off = oh*60 + om
		if r[0] == '-' {
			off = -off
		}
	default:
		return 0, bad
	}
	return Date(y, mo, d, h, mi, s) + Micros(us) - Micros(off)*60000000, nil
}

// Escape writes a value as it must be written between quotes.
func Escape(v string) string {
	var b []byte
	for i := 0; i < len(v); i++ {
		if v[i] == '"' || v[i] == '\\' || v[i] == ']' {
			b = append(b, '\\')
		}
		b = append(b, v[i])
	}
	return string(b)
}

// String writes the element.
func (e Elem) String() string {
	s := "[" + e.ID
	for _, p := range e.Params {
		s += " " + p.Name + `="` + p.Raw + `"`
	}
	return s + "]"
}

// SDString writes structured data.
func SDString(l []Elem) string {
	if len(l) == 0 {
		return "-"
	}
	s := ""
	for _, e := range l {
		s += e.String()
	}
	return s
}

// String writes the message.
func (m *Msg) String() string {
	s := "<" + strconv.Itoa(m.Pri) + ">1 " + m.TS + " " + m.Host + " " + m.App + " " + m.Proc + " " + m.MsgID + " " + SDString(m.SD)
	if m.HasText {
		s += " " + m.Text
	}
	return s
}

// TQ is the meaning of a timeQuality element.
type TQ struct {
	Tz, Sync bool
	Acc      *int64
}

// TimeQuality gives the meaning of a well-formed, consistent timeQuality element without repeated parameters.
func TimeQuality(e Elem) (t TQ, ok bool) {
	if e.ID != "timeQuality" {
		return t, false
	}
	seen := map[string]bool{}
	for _, p := range e.Params {
		if seen[p.Name] {
			return t, false
		}
		seen[p.Name] = true
		switch p.Name {
		case "tzKnown", "isSynced":
			if p.Val != "0" && p.Val != "1" {
				return t, false
			}
			if p.Name == "tzKnown" {
				t.Tz = p.Val == "1"
			} else {
				t.Sync = p.Val == "1"
			}
		case "syncAccuracy":
			n, err := strconv.ParseInt(p.Val, 10, 64)
			if err != nil {
				return t, false
			}
			t.Acc = &n
		default:
			return t, false
		}
	}
	return t, (t.Tz || !t.Sync) && (t.Sync || t.Acc == nil)
}

// Same tells whether two time qualities are equal.
func (t TQ) Same(u TQ) bool {
	return t.Tz == u.Tz && t.Sync == u.Sync && (t.Acc == nil) == (u.Acc == nil) && (t.Acc == nil || *t.Acc == *u.Acc)
}

// SameElem tells whether two elements mean the same: identical, or the same time quality.
func SameElem(a, b Elem) bool {
	if a.String() == b.String() {
		return true
	}
	t, ok := TimeQuality(a)
	u, ok2 := TimeQuality(b)
	return ok && ok2 && t.Same(u)
}
