// Command seq explores the library as it is: codecs, values and real local sockets.
package main

import (
	"fmt"
	"time"

	syslog5424 "github.com/nathanaelle/syslog5424/v2"
	"github.com/nathanaelle/syslog5424/v2/sdata"

	"verif/mc"
	"verif/ref"
)

func main() {
	mc.Main([]*mc.Property{c12, c14, c15, c16, c18, c19, c21, c23, c24})
}

// micros converts without time.Time arithmetic other than Unix().
func micros(t time.Time) ref.Micros {
	s, ns := t.Unix(), int64(t.Nanosecond())
	return ref.Micros(s*1000000 + ns/1000)
}

func marshalSD(s sdata.StructuredData) (string, error) {
	b, err := s.Marshal5424()
	return string(b), err
}

// sameElems compares the structured data of the library with the wanted elements; exact asks for the same bytes
// of everything but time qualities.
func sameElems(got sdata.List, want []ref.Elem) error {
	if len(got) != len(want) {
		return fmt.Errorf("%d structured data elements, want %d", len(got), len(want))
	}
	for i := range got {
		s, err := marshalSD(got[i])
		if err != nil {
			return fmt.Errorf("structured data element %d: %v", i, err)
		}
		l, err := ref.ParseElems([]byte(s))
		if err != nil || len(l) != 1 {
			return fmt.Errorf("structured data element %d is %q: %v", i, s, err)
		}
		if !ref.SameElem(l[0], want[i]) {
			return fmt.Errorf("structured data element %d is %q, want %q", i, s, want[i])
		}
	}
	return nil
}

// sameFields compares a decoded message with the wanted fields through every accessor.
func sameFields(m syslog5424.MessageImmutable, want *ref.Msg, bytes string) error {
	if int(m.Priority()) != want.Pri {
		return fmt.Errorf("Priority %d, want %d", m.Priority(), want.Pri)
	}
	ts := m.TimeStamp()
	if want.TS == "-" {
		if !ts.IsZero() {
			return fmt.Errorf("TimeStamp %v of a message without timestamp", ts)
		}
	} else {
		us, err := ref.Instant(want.TS)
		if err != nil {
			mc.Broken("%v", err)
		}
		if micros(ts) != us || ts.Nanosecond()%1000 != 0 {
			return fmt.Errorf("TimeStamp %v, want %s", ts, want.TS)
		}
	}
	for _, f := range []struct{ what, got, want string }{
		{"Hostname", m.Hostname(), want.Host},
		{"AppName", m.AppName(), want.App},
		{"ProcID", m.ProcID(), want.Proc},
		{"MsgID", m.MsgID(), want.MsgID},
		{"Text", m.Text(), want.Text},
	} {
		if f.got != f.want {
			return fmt.Errorf("%s %q, want %q", f.what, f.got, f.want)
		}
	}
	if err := sameElems(m.StructuredData(), want.SD); err != nil {
		return err
	}
	if m.String() != bytes {
		return fmt.Errorf("String %q, want %q", m.String(), bytes)
	}
	w := &sink{}
	n, err := m.WriteTo(w)
	if err != nil || n != int64(len(bytes)) || string(w.b) != bytes {
		return fmt.Errorf("WriteTo wrote %q (%d, %v), want %q", w.b, n, err, bytes)
	}
	return nil
}

type sink struct{ b []byte }

func (s *sink) Write(p []byte) (int, error) { s.b = append(s.b, p...); return len(p), nil }

var tsFixed = time.Date(2003, 10, 11, 22, 14, 15, 3000000, time.UTC)
