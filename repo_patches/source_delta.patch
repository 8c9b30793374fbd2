From 789be8085462e54826accfef018e30fcc0dbf7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:37 +0000
Subject: [PATCH 01/19] fix: sender keeps every accepted message across
 failures and End

Messages sent during or after End were accepted and lost, End panicked on a
sender that never connected, a failed output was not closed, the frame cut by
a failed write was resumed in the middle on the next connection, the queue
length was read without the lock, and unread errors blocked the sender.
---
 connector.go | 56 ++++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 48 insertions(+), 8 deletions(-)

diff --git a/connector.go b/connector.go
index 478c0ce..baf6a21 100644
--- a/connector.go
+++ b/connector.go
@@ -35,6 +35,7 @@ type (
 		errChan      chan error
 		lock         *sync.Mutex
 		queue        *net.Buffers
+		closed       bool
 	}
 
 	// Addr see net.Addr
@@ -72,7 +73,8 @@ func (c *Sender) flushQueue() {
 	if c.output == nil {
 		var err error
 		if c.output, err = c.connector.Connect(); err != nil {
-			c.errChan <- err
+			c.output = nil
+			c.report(err)
 			return
 		}
 	}
@@ -82,6 +84,7 @@ func (c *Sender) flushQueue() {
 	defer c.lock.Unlock()
 
 	for len(*c.queue) > 0 {
+		frames := append([][]byte(nil), *c.queue...)
 		_, err := c.queue.WriteTo(c.output)
 
 		switch typeErr := err.(type) {
@@ -90,13 +93,13 @@ func (c *Sender) flushQueue() {
 			if sysErr, ok := typeErr.Err.(*os.SyscallError); ok && sysErr.Err == syscall.ENOBUFS {
 				return
 			}
-			c.errChan <- err
-			c.output = nil
+			c.report(err)
+			c.drop(frames)
 			return
 
 		default:
-			c.errChan <- err
-			c.output = nil
+			c.report(err)
+			c.drop(frames)
 			return
 		}
 	}
@@ -107,12 +110,41 @@ func (c *Sender) flushQueue() {
 	//log.Printf("<--\tget unlock")
 }
 
+// report an error unless a previous error is still unread
+func (c *Sender) report(err error) {
+	select {
+	case c.errChan <- err:
+	default:
+	}
+}
+
+// drop the failed output.
+// frames is the queue before the failed write: a frame partially written is put back whole
+func (c *Sender) drop(frames [][]byte) {
+	if n := len(*c.queue); n > 0 {
+		(*c.queue)[0] = frames[len(frames)-n]
+	}
+
+	c.output.Close()
+	c.output = nil
+}
+
+// pending tells if some messages are still queued
+func (c *Sender) pending() bool {
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
+	return len(*c.queue) > 0
+}
+
 func (c *Sender) runQueue() {
 	defer func() {
-		for len(*c.queue) > 0 {
+		for c.pending() {
 			c.flushQueue()
 		}
-		c.output.Close()
+		if c.output != nil {
+			c.output.Close()
+		}
 		close(c.endCompleted)
 		close(c.errChan)
 	}()
@@ -140,14 +172,22 @@ func (c *Sender) Send(m Message) (err error) {
 	}
 
 	c.lock.Lock()
+	defer c.lock.Unlock()
+
+	if c.closed {
+		return ErrBufferClose
+	}
 	*c.queue = append(*c.queue, c.transport.Encode(msg))
-	c.lock.Unlock()
 
 	return
 }
 
 // End terminate the log_sender goroutine
 func (c *Sender) End() {
+	c.lock.Lock()
+	c.closed = true
+	c.lock.Unlock()
+
 	close(c.endAsked)
 	<-c.endCompleted
 }
-- 
2.43.0


From df8bf1f8616574b39d3afc64c5fe813adce4056a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:37 +0000
Subject: [PATCH 02/19] fix: Write on a channel reports that the message was
 not accepted

---
 channel.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/channel.go b/channel.go
index 0762c4a..008228c 100644
--- a/channel.go
+++ b/channel.go
@@ -92,7 +92,9 @@ func (c *msgChannel) IsDevNull() bool {
 }
 
 func (c *msgChannel) Write(d []byte) (int, error) {
-	c.output.Send(forgeMessage(c.priority, Now(), c.hostname, c.appname, c.pid, c.msgid, string(d)))
+	if err := c.output.Send(forgeMessage(c.priority, Now(), c.hostname, c.appname, c.pid, c.msgid, string(d))); err != nil {
+		return 0, err
+	}
 	return len(d), nil
 }
 
-- 
2.43.0


From 09cb7f71c5aa2189ddda1a15a9989a14baafcf9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:37 +0000
Subject: [PATCH 03/19] fix: channels with a message id can be derived,
 sub-syslog names are valid

AppName and Msgid on a channel made by Msgid returned the /dev/null channel,
and SubSyslog did not validate the composed application name.
---
 channel.go | 10 ++++++++++
 syslog.go  |  1 +
 2 files changed, 11 insertions(+)

diff --git a/channel.go b/channel.go
index 008228c..673910c 100644
--- a/channel.go
+++ b/channel.go
@@ -78,6 +78,16 @@ func (d *trueChannel) Msgid(msgid string) Channel {
 	}
 }
 
+func (c *msgChannel) AppName(sup string) Channel {
+	d := (&trueChannel{*c}).AppName(sup).(*trueChannel)
+
+	return &d.msgChannel
+}
+
+func (c *msgChannel) Msgid(msgid string) Channel {
+	return (&trueChannel{*c}).Msgid(msgid)
+}
+
 func (c *msgChannel) Logger(prefix string) *log.Logger {
 	switch c.priority.Severity() {
 	case LogDEBUG:
diff --git a/syslog.go b/syslog.go
index 1de5193..d047098 100644
--- a/syslog.go
+++ b/syslog.go
@@ -92,6 +92,7 @@ func (syslog *Syslog) SubSyslog(subAppName string) (sub *Syslog) {
 	default:
 		appname = syslog.appname + "/" + subAppName
 	}
+	appname = validApp(appname)
 
 	sub = &Syslog{
 		facility: syslog.facility,
-- 
2.43.0


From b21eb19d1ab93a8a9fe21c1cfe18b8bb60bcb820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:37 +0000
Subject: [PATCH 04/19] fix: concurrent first uses of Syslog.Channel raced on
 the channel table

---
 syslog.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/syslog.go b/syslog.go
index d047098..ba6b0b3 100644
--- a/syslog.go
+++ b/syslog.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"os"
 	"strconv"
+	"sync"
 )
 
 var (
@@ -19,6 +20,7 @@ type Syslog struct {
 	channels []Channel
 	output   *Sender
 	minSev   int
+	lock     sync.Mutex
 }
 
 // New create a new Syslog
@@ -60,6 +62,9 @@ func (syslog *Syslog) TestMode() {
 
 // Channel expose a custom channel for a priority
 func (syslog *Syslog) Channel(sev Priority) Channel {
+	syslog.lock.Lock()
+	defer syslog.lock.Unlock()
+
 	if syslog.channels == nil {
 		syslog.channels = []Channel{
 			devNull, devNull, devNull, devNull,
-- 
2.43.0


From c8c4b415f93c8c23f668e3be84c3508ad6c057bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:47 +0000
Subject: [PATCH 05/19] fix: the local host name was put unchecked in messages

---
 message.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/message.go b/message.go
index 0b06c55..7ef81d5 100644
--- a/message.go
+++ b/message.go
@@ -29,7 +29,7 @@ var hostname, _ = os.Hostname()
 
 // CreateMessage create a Message with the timestamp, hostname, appname, the priority and the message preset
 func CreateMessage(appname string, prio Priority, message string) Message {
-	return Message{prio, time.Now(), hostname, validApp(appname), "-", "-", sdata.EmptyList(), strings.TrimRightFunc(message, unicode.IsSpace)}
+	return Message{prio, time.Now(), validHost(hostname), validApp(appname), "-", "-", sdata.EmptyList(), strings.TrimRightFunc(message, unicode.IsSpace)}
 }
 
 // CreateWholeMessage create a whole Message
@@ -126,7 +126,7 @@ func (msg Message) Priority(prio Priority) Message {
 
 // LocalHost set the hostname as the value get with gethostbyname()
 func (msg Message) LocalHost() Message {
-	return Message{msg.prio, msg.timestamp, hostname, msg.appname, msg.procid, msg.msgid, msg.sd, msg.message}
+	return Message{msg.prio, msg.timestamp, validHost(hostname), msg.appname, msg.procid, msg.msgid, msg.sd, msg.message}
 }
 
 // Msg set the message part of a Message
-- 
2.43.0


From 787aec106d1092fa38eb3078d9b66ec9d0e1a084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:47 +0000
Subject: [PATCH 06/19] fix: a message without timestamp was relayed with the
 year 1

---
 message.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/message.go b/message.go
index 7ef81d5..2d85e19 100644
--- a/message.go
+++ b/message.go
@@ -148,6 +148,9 @@ func (msg Message) Marshal5424() ([]byte, error) {
 	}
 
 	ts := []byte(msg.timestamp.Format(RFC5424TimeStamp))
+	if msg.timestamp.IsZero() {
+		ts = []byte("-")
+	}
 	sd, err := msg.sd.Marshal5424()
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 2664054b674255073c3ca7e84120d1e56d510a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 07/19] fix: lists derived from the same list shared their
 elements

---
 sdata/list.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdata/list.go b/sdata/list.go
index 547dd7a..2c221df 100644
--- a/sdata/list.go
+++ b/sdata/list.go
@@ -78,7 +78,7 @@ func RegisterGroup(sdids ...SDID) {
 // Add append data to a list of structured data
 func (listSD List) Add(data ...StructuredData) List {
 
-	return List(append([]StructuredData(listSD), data...))
+	return List(append([]StructuredData(listSD[:len(listSD):len(listSD)]), data...))
 }
 
 // Marshal5424 encode a Structured Data to syslog 5424 format
-- 
2.43.0


From 7610da12e3d8dd3d64f95934f533c9d099795d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 08/19] fix: panics on short structured data and on small sync
 accuracies

The decoders sliced their input without checking its length, and TimeQuality
allocated a negative capacity when the accuracy is 0 or less.
---
 sdata/sd-generic.go     | 4 ++--
 sdata/sd-unknown.go     | 2 +-
 sdata/timequality/tq.go | 7 +++----
 3 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/sdata/sd-generic.go b/sdata/sd-generic.go
index 579cb9f..10e285b 100644
--- a/sdata/sd-generic.go
+++ b/sdata/sd-generic.go
@@ -45,13 +45,13 @@ func (sdid genericSDID) MarshalText() (text []byte, err error) {
 }
 
 func (sdid genericSDID) Found(data []byte) (StructuredData, bool) {
-	if data[0] != '[' || data[len(data)-1] != ']' {
+	if len(data) < 2 || data[0] != '[' || data[len(data)-1] != ']' {
 		return nil, false
 	}
 	data = data[1 : len(data)-1]
 
 	header := sdid.String()
-	if string(data[0:len(header)]) != header {
+	if len(data) < len(header) || string(data[0:len(header)]) != header {
 		return nil, false
 	}
 
diff --git a/sdata/sd-unknown.go b/sdata/sd-unknown.go
index 5eee3f0..1592140 100644
--- a/sdata/sd-unknown.go
+++ b/sdata/sd-unknown.go
@@ -43,7 +43,7 @@ func (d unknownDef) MarshalText() (text []byte, err error) {
 }
 
 func (d unknownDef) Found(data []byte) (StructuredData, bool) {
-	if data[0] != '[' || data[len(data)-1] != ']' {
+	if len(data) < 2 || data[0] != '[' || data[len(data)-1] != ']' {
 		return nil, false
 	}
 	data = data[1 : len(data)-1]
diff --git a/sdata/timequality/tq.go b/sdata/timequality/tq.go
index 39343c8..27cb745 100644
--- a/sdata/timequality/tq.go
+++ b/sdata/timequality/tq.go
@@ -2,7 +2,6 @@ package timequality // import "github.com/nathanaelle/syslog5424/v2/sdata/timequ
 
 import (
 	"errors"
-	"math"
 	"strconv"
 
 	"github.com/nathanaelle/syslog5424/v2/sdata"
@@ -58,12 +57,12 @@ func (d tqdef) MarshalText() (text []byte, err error) {
 }
 
 func (d tqdef) Found(data []byte) (sdata.StructuredData, bool) {
-	if data[0] != '[' || data[len(data)-1] != ']' {
+	if len(data) < 2 || data[0] != '[' || data[len(data)-1] != ']' {
 		return nil, false
 	}
 	data = data[1 : len(data)-1]
 
-	if string(data[0:11]) != "timeQuality" {
+	if len(data) < 11 || string(data[0:11]) != "timeQuality" {
 		return nil, false
 	}
 	data = data[11:]
@@ -152,7 +151,7 @@ func (tq TimeQuality) Marshal5424() ([]byte, error) {
 	}
 
 	if tq.SyncAccuracy != nil {
-		length += 15 + int(math.Floor(math.Log(float64(*tq.SyncAccuracy))+1))
+		length += 15 + len(strconv.Itoa(*tq.SyncAccuracy))
 	}
 
 	ret := append(make([]byte, 0, length), []byte("[timeQuality")...)
-- 
2.43.0


From d094ae34d5c7cf545a7b4d1a8fc525195d91c3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 09/19] fix: structured data elements without parameter were
 lost

---
 sdata/sd-generic.go | 4 ++++
 sdata/tokens.go     | 6 ++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/sdata/sd-generic.go b/sdata/sd-generic.go
index 10e285b..9e1663b 100644
--- a/sdata/sd-generic.go
+++ b/sdata/sd-generic.go
@@ -68,6 +68,10 @@ func (sd genericSD) SDID() SDID {
 }
 
 func (sd genericSD) Marshal5424() ([]byte, error) {
+	if sd.Interface == nil && sd.sdid.SDIDLight != nil {
+		return []byte("[" + sd.sdid.String() + "]"), nil
+	}
+
 	e := &encodeState{}
 	err := e.marshal(sd.Interface)
 	if err != nil {
diff --git a/sdata/tokens.go b/sdata/tokens.go
index 78a6836..61a6cef 100644
--- a/sdata/tokens.go
+++ b/sdata/tokens.go
@@ -6,7 +6,7 @@ import (
 
 // NextHeader try to decode a Structured Data header from a []byte
 func NextHeader(data []byte) (header string, ret []byte, err error) {
-	if data == nil || len(data) < 4 {
+	if data == nil || len(data) < 1 {
 		return "", nil, fmt.Errorf("invalid length for [%q]", string(data))
 	}
 
@@ -27,7 +27,9 @@ func NextHeader(data []byte) (header string, ret []byte, err error) {
 		ret = ret[1:]
 		length++
 	}
-	return "", nil, fmt.Errorf("unexpected EOF")
+
+	// a header without any parameter
+	return string(data), ret, nil
 }
 
 // NextNonSpace try to decode a Structured Data part from a []byte
-- 
2.43.0


From 2f52077054264478ad9c4eae4687c90336399d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:13 +0000
Subject: [PATCH 10/19] fix: the structured data encoder panicked on supported
 kinds

Arrays, interfaces, unexported fields, nil maps and missing mandatory fields
made it panic or emit nothing.
---
 sdata/structured-data-encoder.go | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/sdata/structured-data-encoder.go b/sdata/structured-data-encoder.go
index 6bab7b5..f037651 100644
--- a/sdata/structured-data-encoder.go
+++ b/sdata/structured-data-encoder.go
@@ -2,6 +2,7 @@ package sdata // import "github.com/nathanaelle/syslog5424/v2/sdata"
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 	"reflect"
 	"runtime"
@@ -134,7 +135,7 @@ func newTypeEncoder(t reflect.Type, root bool) encoderFunc {
 			return encodeurFlemmard
 
 		case reflect.Interface:
-			return newTypeEncoder(t.Elem(), false)
+			return interfaceEncoder
 
 		case reflect.Slice, reflect.Array:
 			return newListEncoder(t)
@@ -146,7 +147,7 @@ func newTypeEncoder(t reflect.Type, root bool) encoderFunc {
 
 // encoder that delegate to the SDMarshaler the encoding
 func marshalerEncoder(e *encodeState, v reflect.Value, prefix []byte) {
-	if v.Kind() == reflect.Ptr && v.IsNil() {
+	if (v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface) && v.IsNil() {
 		return
 	}
 
@@ -175,11 +176,19 @@ func newMaybeEncoder(t reflect.Type) encoderFunc {
 	}
 }
 
+// encoder for the value held by an interface
+func interfaceEncoder(e *encodeState, v reflect.Value, prefix []byte) {
+	if v.IsNil() {
+		return
+	}
+	valueEncoder(v.Elem())(e, v.Elem(), prefix)
+}
+
 // encoder for list, array, slice of a type
 // this encoder acts like a "*" pattern in a regexp
 func newListEncoder(t reflect.Type) encoderFunc {
 	return func(e *encodeState, v reflect.Value, prefix []byte) {
-		if v.IsNil() {
+		if v.Kind() == reflect.Slice && v.IsNil() {
 			return
 		}
 		enc := newTypeEncoder(t.Elem(), false)
@@ -198,10 +207,6 @@ func newMapEncoder(t reflect.Type) encoderFunc {
 	enc := newTypeEncoder(t.Elem(), false)
 
 	return func(e *encodeState, v reflect.Value, _ []byte) {
-		if v.IsNil() {
-			return
-		}
-
 		e.HeaderWrite(t.Name(), v)
 
 		var sv stringValues = v.MapKeys()
@@ -224,12 +229,15 @@ func newStructEncoder(t reflect.Type) encoderFunc {
 
 		for i := 0; i < n; i++ {
 			sf := fields[i]
+			if sf.PkgPath != "" {
+				// unexported field
+				continue
+			}
 			f := v.Field(i)
 			name, mandatory := getName(sf)
 			if !f.IsValid() || isEmptyValue(f) || len(name) == 0 {
 				if mandatory {
-					// TODO this must be an error
-					panic("missing mandatory field")
+					e.error(errors.New("missing mandatory field"))
 				}
 				continue
 			}
-- 
2.43.0


From 086c746bcee286b571acfbd11e4be224609bea68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:13 +0000
Subject: [PATCH 11/19] fix: priorities over 191 had no text, headers over 255
 or with leading zeros were accepted

---
 priority.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/priority.go b/priority.go
index 7682fab..08438c4 100644
--- a/priority.go
+++ b/priority.go
@@ -87,7 +87,8 @@ var severity = map[string]Priority{
 var severityString = []string{"emerg", "alert", "crit", "err", "warning", "notice", "info", "debug"}
 var facilityString = []string{"kern", "user", "mail", "daemon", "auth", "syslog", "lpr", "news",
 	"uucp", "cron", "authpriv", "ftp", "-", "-", "-", "-",
-	"local0", "local1", "local2", "local3", "local4", "local5", "local6", "local7"}
+	"local0", "local1", "local2", "local3", "local4", "local5", "local6", "local7",
+	"-", "-", "-", "-", "-", "-", "-", "-"}
 
 // Set implement flag.Value interface
 func (p *Priority) Set(d string) error {
@@ -174,6 +175,9 @@ func (p *Priority) Unmarshal5424(d []byte) error {
 		return errors.New("bad format : " + string(d))
 	}
 	b := d[1 : s-2]
+	if len(b) > 1 && b[0] == '0' {
+		return errors.New("bad format : " + string(d))
+	}
 	tp := int(0)
 	for _, v := range b {
 		if v < '0' || v > '9' {
@@ -181,6 +185,9 @@ func (p *Priority) Unmarshal5424(d []byte) error {
 		}
 		tp = tp*10 + int(v-'0')
 	}
+	if tp > 255 {
+		return errors.New("bad format : " + string(d))
+	}
 	*p = Priority(tp)
 
 	return nil
-- 
2.43.0


From 5d03bf045109027cd9f5e1e0658a5a9806f15373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:13 +0000
Subject: [PATCH 12/19] fix: octet counting frames shorter than 20 bytes or
 with a bad length

Short frames were never delivered, negative and huge lengths made the framing
panic, and Encode wrote in the spare capacity of the caller's buffer.
---
 transport.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/transport.go b/transport.go
index abeb88d..8bce2de 100644
--- a/transport.go
+++ b/transport.go
@@ -77,28 +77,28 @@ func (t tRFC5425) PrefixStrip(buffer []byte, atEOF bool) (data, rest []byte, err
 		return nil, nil, nil
 	}
 
-	if len(buffer) < 20 {
+	sepPos := bytes.IndexByte(buffer, ' ')
+	if sepPos < 0 && len(buffer) < 20 && !atEOF {
 		return nil, nil, nil
 	}
-
-	sepPos := bytes.IndexByte(buffer, ' ')
-	if sepPos <= 0 {
+	if sepPos <= 0 || sepPos >= 20 {
 		return nil, nil, ErrTransportNoHeader
 	}
 
-	lenMsg, err := strconv.Atoi(string(buffer[0:sepPos]))
+	uintMsg, err := strconv.ParseUint(string(buffer[0:sepPos]), 10, 31)
 	if err != nil {
 		return nil, nil, ErrTransportInvHeader
 	}
+	lenMsg := int(uintMsg)
 
 	start := sepPos + 1
-	lenBuff := start + lenMsg
-	if len(buffer) < lenBuff {
+	if len(buffer)-start < lenMsg {
 		if atEOF {
 			return buffer[start:], nil, ErrTransportIncomplete
 		}
 		return nil, nil, nil
 	}
+	lenBuff := start + lenMsg
 
 	return buffer[start:lenBuff], buffer[lenBuff:], nil
 }
@@ -146,13 +146,13 @@ func (t tRFC5425) SuffixStrip(buffer []byte, atEOF bool) (data, rest []byte, err
 // Write a NULL terminated message.
 // see (Conn interface)[#Conn]
 func (t tZeroEnded) Encode(d []byte) []byte {
-	return append(d, byte(0))
+	return append(d[:len(d):len(d)], byte(0))
 }
 
 // Write a LF terminated message
 // see (Conn interface)[#Conn]
 func (t tLFEnded) Encode(d []byte) []byte {
-	return append(d, '\n')
+	return append(d[:len(d):len(d)], '\n')
 }
 
 // Write a RFC 5425 formated message
-- 
2.43.0


From eeac6120d8326b598bc921e3675f4fa378b035c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:36 +0000
Subject: [PATCH 13/19] fix: the parser looked for structured data beyond the
 frame and in the text

A ']' in the text, an escaped backslash at the end of a value or an element
without parameters were misunderstood, and with the terminated transports a
message without text or a malformed one swallowed the frames after it.
---
 message-immutable.go | 132 ++++++++++++++++++-------------------------
 1 file changed, 56 insertions(+), 76 deletions(-)

diff --git a/message-immutable.go b/message-immutable.go
index 3cd99db..ed64304 100644
--- a/message-immutable.go
+++ b/message-immutable.go
@@ -140,7 +140,6 @@ func (msg MessageImmutable) WriteTo(w io.Writer) (n int64, err error) {
 // Parse allow to parse a []byte and decode one ImmutableMessage
 func Parse(data []byte, transport Transport, atEOF bool) (returnMsg MessageImmutable, rest []byte, mainErr error) {
 	sepSp := []byte{' '}
-	sepBrk := []byte{']'}
 
 	if transport != nil {
 		data, rest, mainErr = transport.PrefixStrip(data, atEOF)
@@ -148,6 +147,17 @@ func Parse(data []byte, transport Transport, atEOF bool) (returnMsg MessageImmut
 		if data == nil && rest == nil && mainErr == nil {
 			return
 		}
+
+		if rest == nil && mainErr == nil {
+			data, rest, mainErr = transport.SuffixStrip(data, atEOF)
+			if rest == nil && mainErr == nil && !atEOF {
+				return
+			}
+		}
+
+		if mainErr != nil {
+			return
+		}
 	}
 
 	msg := MessageImmutable{
@@ -175,72 +185,72 @@ func Parse(data []byte, transport Transport, atEOF bool) (returnMsg MessageImmut
 		return
 	}
 
-	if len(data[begin:]) == 1 {
-		if data[begin] != '-' {
-			mainErr = dispatchError(mainErr, ParseError{data, begin, "empty field expected"})
+	if data[begin] == '-' {
+		if len(data[begin:]) > 1 && data[begin+1] != ' ' {
+			mainErr = dispatchError(mainErr, ParseError{data, begin, "empty structured data expected"})
 			return
 		}
-		msg.index = append(msg.index, begin+2)
 
-		returnMsg, data, rest, mainErr = parseReturn(msg, transport, atEOF, data, rest)
+		msg.index = append(msg.index, begin+1)
+		if len(data[begin:]) > 1 {
+			msg.text = begin + 2
+		}
+		returnMsg = msg
 		return
 	}
 
-	end, err := searchNextSep(data[begin:], sepSp)
-	if err != nil {
-		mainErr = dispatchError(mainErr, err)
-		return
-	}
+	for len(data[begin:]) > 0 {
+		if data[begin] == ' ' && parts > 6 {
+			msg.text = begin + 1
+			break
+		}
 
-	if end == 1 {
-		if data[begin] != '-' {
-			mainErr = dispatchError(mainErr, ParseError{data, begin, "empty structured data expected"})
+		end, err := searchElementEnd(data[begin:])
+		if err != nil {
+			mainErr = dispatchError(mainErr, err)
 			return
 		}
 
-		msg.index = append(msg.index, begin+1)
-		msg.text = begin + 2
-		returnMsg, data, rest, mainErr = parseReturn(msg, transport, atEOF, data, rest)
-		return
+		msg.index = append(msg.index, begin+end)
+		begin = begin + end
+		parts++
 	}
 
-	t := begin
-	for len(data[t:]) > 0 {
-		end, err = searchNextSep(data[t:], sepBrk)
-
-		switch err {
-		case nil:
-			if data[t+end-1] == '\\' {
-				t = t + end + 1
-				continue
-			}
+	returnMsg = msg
+	return
+}
 
-			if data[t+end-1] == '"' {
-				msg.index = append(msg.index, t+end+1)
-				begin = t + end + 1
-				t = begin
-				if len(data) <= begin {
-					returnMsg, data, rest, mainErr = parseReturn(msg, transport, atEOF, data, rest)
-					return
-				}
-				continue
-			}
+// searchElementEnd return the position after the structured data element at the begin of data
+func searchElementEnd(data []byte) (pos int, err error) {
+	if data[0] != '[' {
+		err = ParseError{data, 0, "structured data expected"}
+		return
+	}
 
-			mainErr = dispatchError(mainErr, ParseError{data, t + end - 1, `\\ or " expected`})
-			return
+	quoted := false
+	params := false
+	for pos = 1; pos < len(data); pos++ {
+		switch {
+		case quoted && data[pos] == '\\':
+			pos++
 
-		case ErrPosNotFound:
-			msg.text = begin + 1
+		case data[pos] == '"':
+			quoted = !quoted
 
-			returnMsg, data, rest, mainErr = parseReturn(msg, transport, atEOF, data, rest)
+		case data[pos] == ']' && (quoted || pos == 1 || params && data[pos-1] != '"'):
+			err = ParseError{data, pos - 1, `\\ or " expected`}
 			return
 
-		default:
-			mainErr = dispatchError(mainErr, err)
+		case data[pos] == ']':
+			pos++
 			return
+
+		case data[pos] == ' ' && !quoted:
+			params = true
 		}
 	}
-	mainErr = dispatchError(mainErr, ErrImpossible)
+
+	err = ErrPosNotFound
 	return
 }
 
@@ -253,33 +263,3 @@ func dispatchError(mainErr, err error) (returnErr error) {
 	}
 	return
 }
-
-func parseReturn(msg MessageImmutable, transport Transport, atEOF bool, oData, oRest []byte) (returnMsg MessageImmutable, data, rest []byte, mainErr error) {
-	data = oData
-	rest = oRest
-
-	if transport == nil {
-		returnMsg = msg
-		return
-	}
-
-	if rest != nil {
-		returnMsg = msg
-		return
-	}
-
-	data, rest, mainErr = transport.SuffixStrip(data[msg.text:], atEOF)
-	//log.Printf("RET\t{%q} {%q} %v\n", data, rest, mainErr)
-	if data == nil && rest == nil && mainErr == nil {
-		return
-	}
-
-	end := msg.text + len(data)
-	if len(msg.buffer) > end {
-		msg.buffer = msg.buffer[:end]
-
-	}
-
-	returnMsg = msg
-	return
-}
-- 
2.43.0


From a8b923df03c25256d0aa5730cb8f51f6410220e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:17 +0000
Subject: [PATCH 14/19] fix: a connection without any usable address crashed
 instead of failing

---
 connector-tcp.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/connector-tcp.go b/connector-tcp.go
index fd55ec9..2cb9607 100644
--- a/connector-tcp.go
+++ b/connector-tcp.go
@@ -81,6 +81,9 @@ func (c *tcpConn) Connect() (conn WriteCloser, err error) {
 	if err != nil {
 		return nil, err
 	}
+	if contcp == nil {
+		return nil, ErrNoConnection
+	}
 
 	contcp.CloseRead()
 	contcp.SetNoDelay(false)
-- 
2.43.0


From 07d62539cc6cbbb8cb74290a087eb58525e4386f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:17 +0000
Subject: [PATCH 15/19] fix: creating a local listener deleted whatever was at
 its path

It also looped for ever when the removal failed.
---
 listener-unix.go      | 7 +++++--
 listener-unixdgram.go | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/listener-unix.go b/listener-unix.go
index d68f167..03568fe 100644
--- a/listener-unix.go
+++ b/listener-unix.go
@@ -35,10 +35,13 @@ func UnixListener(address string) (Listener, error) {
 			return nil, err
 		}
 
-		if _, osErr := os.Stat(address); osErr != nil {
+		// only a previous socket can be removed
+		if stat, osErr := os.Stat(address); osErr != nil || stat.Mode()&os.ModeSocket == 0 {
+			return nil, err
+		}
+		if osErr := os.Remove(address); osErr != nil {
 			return nil, err
 		}
-		os.Remove(address)
 
 		r.listener, err = net.ListenUnix("unix", uAddr)
 	}
diff --git a/listener-unixdgram.go b/listener-unixdgram.go
index 5a23987..518efae 100644
--- a/listener-unixdgram.go
+++ b/listener-unixdgram.go
@@ -45,10 +45,13 @@ func UnixgramListener(address string) (Listener, error) {
 			return nil, err
 		}
 
-		if _, osErr := os.Stat(address); osErr != nil {
+		// only a previous socket can be removed
+		if stat, osErr := os.Stat(address); osErr != nil || stat.Mode()&os.ModeSocket == 0 {
+			return nil, err
+		}
+		if osErr := os.Remove(address); osErr != nil {
 			return nil, err
 		}
-		os.Remove(address)
 
 		r.listener, err = net.ListenUnixgram("unixgram", uAddr)
 	}
-- 
2.43.0


From 5306c75be586e4b39d2a086bcc82991b20fd041f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:17 +0000
Subject: [PATCH 16/19] fix: a datagram listener can be closed and accepts
 again after an abandoned connection

Closing the listener made the pending read fail instead of ending, and datagrams
over 64 kB were truncated.
---
 listener-unixdgram.go | 68 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 56 insertions(+), 12 deletions(-)

diff --git a/listener-unixdgram.go b/listener-unixdgram.go
index 518efae..27628b3 100644
--- a/listener-unixdgram.go
+++ b/listener-unixdgram.go
@@ -2,31 +2,40 @@ package syslog5424 // import "github.com/nathanaelle/syslog5424/v2"
 
 import (
 	"errors"
+	"io"
 	"net"
 	"os"
+	"sync"
+	"time"
 )
 
 type (
 	unixgramReceiver struct {
 		listener *net.UnixConn
-		accepted bool
+		accepted chan struct{}
 		end      chan struct{}
 	}
 
 	fakeConn struct {
-		end   chan struct{}
-		rbuff [1 << 16]byte
-		buff  []byte
-		conn  *net.UnixConn
+		end    chan struct{}
+		rbuff  [1 << 18]byte
+		buff   []byte
+		conn   *net.UnixConn
+		closed sync.Once
+		r      *unixgramReceiver
 	}
 )
 
+// time to wait for a last datagram once the listener is closed
+const unixgramGrace = time.Second
+
 // UnixgramListener create a Listener for UNIX datagram
 func UnixgramListener(address string) (Listener, error) {
 	var err error
 
 	r := new(unixgramReceiver)
 	r.end = make(chan struct{})
+	r.accepted = make(chan struct{}, 1)
 
 	uAddr, err := net.ResolveUnixAddr("unixgram", address)
 	if err != nil {
@@ -65,21 +74,43 @@ func UnixgramListener(address string) (Listener, error) {
 
 func (r *unixgramReceiver) Close() error {
 	close(r.end)
-	return r.listener.Close()
+	// wake up the current reader, which may wait for a datagram
+	r.listener.SetReadDeadline(time.Now().Add(unixgramGrace))
+
+	return r.release()
+}
+
+// release the socket if the listener is closed and no reader uses it
+func (r *unixgramReceiver) release() error {
+	select {
+	case r.accepted <- struct{}{}:
+		return r.listener.Close()
+	default:
+		return nil
+	}
+}
+
+func (r *unixgramReceiver) ended() bool {
+	select {
+	case <-r.end:
+		return true
+	default:
+		return false
+	}
 }
 
 // mimic an Accept
 func (r *unixgramReceiver) Accept() (DataReader, error) {
-	if r.accepted {
-		<-r.end
+	select {
+	case <-r.end:
 		return nil, errors.New("end")
+	case r.accepted <- struct{}{}:
 	}
 
-	r.accepted = true
-
 	fc := &fakeConn{
 		end:  r.end,
 		conn: r.listener,
+		r:    r,
 	}
 
 	return fc, nil
@@ -89,14 +120,27 @@ func (r *fakeConn) RemoteAddr() net.Addr {
 	return r.conn.RemoteAddr()
 }
 
-func (r *fakeConn) Close() error {
-	return nil
+func (r *fakeConn) Close() (err error) {
+	r.closed.Do(func() {
+		<-r.r.accepted
+		if r.r.ended() {
+			err = r.r.release()
+		}
+	})
+	return
 }
 
 func (r *fakeConn) Read(data []byte) (int, error) {
 	if len(r.buff) == 0 {
+		if r.r.ended() {
+			r.conn.SetReadDeadline(time.Now().Add(unixgramGrace))
+		}
+
 		s, _, err := r.conn.ReadFrom(r.rbuff[:])
 		if err != nil {
+			if netErr, ok := err.(net.Error); ok && netErr.Timeout() && r.r.ended() {
+				err = io.EOF
+			}
 			return s, err
 		}
 
-- 
2.43.0


From 6051bf0c01b0d6c1dfdec9d6f4e91d2f5a7fb668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:17 +0000
Subject: [PATCH 17/19] fix: receiver lost or repeated data at the ends of
 reads, streams and buffers

Frames left in the buffer at the end of the stream, read errors, accept errors,
a full buffer and End were mishandled: lost messages, busy loops, panics on the
closed pipeline and a listener that was never closed.
---
 listener.go | 62 ++++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 42 insertions(+), 20 deletions(-)

diff --git a/listener.go b/listener.go
index 86d4b65..5ed7169 100644
--- a/listener.go
+++ b/listener.go
@@ -3,6 +3,8 @@ package syslog5424 // import "github.com/nathanaelle/syslog5424/v2"
 import (
 	"io"
 	"net"
+	"sync"
+	"time"
 	//	"log"
 )
 
@@ -34,6 +36,7 @@ type (
 		transport Transport
 		pipeline  chan messageErrorPair
 		end       chan struct{}
+		readers   sync.WaitGroup
 	}
 
 	messageErrorPair struct {
@@ -78,8 +81,8 @@ func NewReceiver(listener Listener, lenQueue int, t Transport) (*Receiver, <-cha
 }
 
 func (r *Receiver) runQueue(chanErr chan<- error) {
-	defer r.listener.Close()
 	defer close(r.pipeline)
+	defer r.readers.Wait()
 
 	for {
 		select {
@@ -89,72 +92,90 @@ func (r *Receiver) runQueue(chanErr chan<- error) {
 		default:
 			conn, err := r.listener.Accept()
 			if err != nil {
-				chanErr <- err
+				r.report(chanErr, err)
+				select {
+				case <-r.end:
+				case <-time.After(10 * time.Millisecond):
+				}
+				continue
 			}
 
+			r.readers.Add(1)
 			go r.tokenize(conn, chanErr)
 		}
 	}
 
 }
 
+// report an error, unless the receiver is ended or too many errors are still unread
+func (r *Receiver) report(chanErr chan<- error, err error) {
+	select {
+	case <-r.end:
+		return
+	default:
+	}
+
+	select {
+	case chanErr <- err:
+	default:
+	}
+}
+
 func (r *Receiver) tokenize(conn io.ReadCloser, chanErr chan<- error) {
+	defer r.readers.Done()
 	defer conn.Close()
 
 	var eof bool
 
 	done := 0
-	count := 0
-	total := 0
 	buffer := make([]byte, readBuffer)
 	for {
 		lenRead, err := conn.Read(buffer[done:])
-		total += lenRead
 		if err == io.EOF {
 			eof = true
 			err = nil
 		}
-		//log.Printf("EOF\t%v %v %v %v", count, total, lenRead, err)
 
 		if err != nil {
-			chanErr <- err
+			r.report(chanErr, err)
 		}
-		if lenRead == 0 && eof {
+		if lenRead == 0 && err != nil {
 			return
 		}
-		if lenRead == 0 {
+		if lenRead == 0 && !eof {
 			continue
 		}
 
 		lenRead += done
 		data := buffer[0:lenRead]
-		for {
+		for len(data) > 0 {
 			msg, rest, parseErr := Parse(data, r.transport, eof)
 
 			if rest == nil {
-				//log.Printf("NIL\t{%q} {%q} %v %v %v", msg, data[0:10], len(rest), rest == nil, parseErr)
-				//log.Printf("NIL\t%v %v %v %v", count, total, lenRead, parseErr)
+				// nothing can be decoded after this error or this last message
+				if parseErr != nil || msg.buffer != nil {
+					r.pipeline <- messageErrorPair{msg, parseErr}
+				}
+				if parseErr != nil {
+					return
+				}
 				break
 			}
 			data = rest
 
-			count++
 			r.pipeline <- messageErrorPair{msg, parseErr}
-			if len(rest) == 0 {
-				break
-			}
 		}
 
 		done = len(data)
 		buffer = buffer[lenRead-done:]
 
-		if len(buffer) < 500 {
-			old := buffer
-			buffer = make([]byte, readBuffer)
+		if len(buffer)-done < 500 {
+			old := buffer[:done]
+			buffer = make([]byte, readBuffer+done)
 			copy(buffer[0:len(old)], old)
 		}
 
-		if eof == true {
+		if eof == true || err != nil {
 			return
 		}
 	}
@@ -170,4 +191,5 @@ func (r *Receiver) Receive() (MessageImmutable, error, bool) {
 // End terminate the log_collector goroutine
 func (r *Receiver) End() {
 	close(r.end)
+	r.listener.Close()
 }
-- 
2.43.0


From 3f7634568dbfdbc12503cb502af78eec2f9596b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:47 +0000
Subject: [PATCH 18/19] fix: a frame cut by a full buffer is repeated whole on
 the next connection

The beginning of a frame written before a temporary ENOBUFS was forgotten: when the
connection failed later, only the end of the frame was written on the next one.
---
 connector.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/connector.go b/connector.go
index baf6a21..a070a49 100644
--- a/connector.go
+++ b/connector.go
@@ -35,6 +35,7 @@ type (
 		errChan      chan error
 		lock         *sync.Mutex
 		queue        *net.Buffers
+		begun        []byte // the whole first frame of the queue, which may be partially written
 		closed       bool
 	}
 
@@ -85,8 +86,16 @@ func (c *Sender) flushQueue() {
 
 	for len(*c.queue) > 0 {
 		frames := append([][]byte(nil), *c.queue...)
+		if c.begun != nil {
+			frames[0] = c.begun
+		}
 		_, err := c.queue.WriteTo(c.output)
 
+		c.begun = nil
+		if n := len(*c.queue); n > 0 {
+			c.begun = frames[len(frames)-n]
+		}
+
 		switch typeErr := err.(type) {
 		case nil:
 		case *net.OpError:
@@ -94,12 +103,12 @@ func (c *Sender) flushQueue() {
 				return
 			}
 			c.report(err)
-			c.drop(frames)
+			c.drop()
 			return
 
 		default:
 			c.report(err)
-			c.drop(frames)
+			c.drop()
 			return
 		}
 	}
@@ -118,11 +127,11 @@ func (c *Sender) report(err error) {
 	}
 }
 
-// drop the failed output.
-// frames is the queue before the failed write: a frame partially written is put back whole
-func (c *Sender) drop(frames [][]byte) {
-	if n := len(*c.queue); n > 0 {
-		(*c.queue)[0] = frames[len(frames)-n]
+// drop the failed output. a frame partially written is put back whole
+func (c *Sender) drop() {
+	if c.begun != nil {
+		(*c.queue)[0] = c.begun
+		c.begun = nil
 	}
 
 	c.output.Close()
-- 
2.43.0


From 0bbc1b44ce2210e632fe625cac329e15313e2fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:48 +0000
Subject: [PATCH 19/19] fix: a nil pointer held by a StructuredData field
 crashed the structured data encoder

---
 sdata/structured-data-encoder.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sdata/structured-data-encoder.go b/sdata/structured-data-encoder.go
index f037651..f758210 100644
--- a/sdata/structured-data-encoder.go
+++ b/sdata/structured-data-encoder.go
@@ -147,7 +147,10 @@ func newTypeEncoder(t reflect.Type, root bool) encoderFunc {
 
 // encoder that delegate to the SDMarshaler the encoding
 func marshalerEncoder(e *encodeState, v reflect.Value, prefix []byte) {
-	if (v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface) && v.IsNil() {
+	if v.Kind() == reflect.Interface {
+		v = v.Elem()
+	}
+	if !v.IsValid() || v.Kind() == reflect.Ptr && v.IsNil() {
 		return
 	}
 
-- 
2.43.0

