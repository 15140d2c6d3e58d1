From 66934f942521bf818309cc9843679f0161198d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:47 +0000
Subject: [PATCH 01/38] fix: honour the number in a size with a K, M or G
 suffix

---
 internal/output_rolling.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/output_rolling.go b/internal/output_rolling.go
index 2616a44..bc486e1 100644
--- a/internal/output_rolling.go
+++ b/internal/output_rolling.go
@@ -74,19 +74,19 @@ func NewRollingOutput(cfg api.CfgOutput) (o api.Output, err error) {
 
 func getMaxSize(str string) int64 {
 	if strings.HasSuffix(str, "K") {
-		size, _ := strconv.Atoi(str)
+		size, _ := strconv.Atoi(strings.TrimSuffix(str, "K"))
 		if size <= 0 {
 			size = 10 * 1024
 		}
 		return int64(size * 1024)
 	} else if strings.HasSuffix(str, "M") {
-		size, _ := strconv.Atoi(str)
+		size, _ := strconv.Atoi(strings.TrimSuffix(str, "M"))
 		if size <= 0 {
 			size = 10
 		}
 		return int64(size * 1024 * 1024)
 	} else if strings.HasSuffix(str, "G") {
-		size, _ := strconv.Atoi(str)
+		size, _ := strconv.Atoi(strings.TrimSuffix(str, "G"))
 		if size <= 0 {
 			size = 1
 		}
-- 
2.43.0


From 755de1c38d2f3c3e60a09dfe233bb00da199b804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:47 +0000
Subject: [PATCH 02/38] fix: refuse a configuration defining a logger twice

---
 internal/logger_manager.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/logger_manager.go b/internal/logger_manager.go
index ac1dfa4..758d673 100644
--- a/internal/logger_manager.go
+++ b/internal/logger_manager.go
@@ -177,6 +177,7 @@ func (m *defManager) validateConfig(cfg *api.Config) (err error) {
 				return
 			}
 		}
+		loggers[l.Name] = l
 	}
 
 	return
-- 
2.43.0


From c87671fefc1ef789f08a13c9563df18d951d6a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:47 +0000
Subject: [PATCH 03/38] fix: return the error for a configuration that cannot
 be parsed instead of applying an empty one

---
 internal/logger_manager.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/logger_manager.go b/internal/logger_manager.go
index 758d673..bb0f681 100644
--- a/internal/logger_manager.go
+++ b/internal/logger_manager.go
@@ -121,6 +121,9 @@ func (m *defManager) LoadConfig(bs []byte, ext string) (err error) {
 	} else if ext == "json" {
 		err = json.Unmarshal(bs, cfg)
 	}
+	if err != nil {
+		return err
+	}
 
 	return m.setConfig(cfg)
 }
-- 
2.43.0


From 7b4fdfe46ab4b1c7e6b1048df0a9f5e16a6b96ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:47 +0000
Subject: [PATCH 04/38] fix: do not panic on a configuration file name without
 extension

---
 internal/logger_manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/logger_manager.go b/internal/logger_manager.go
index bb0f681..389c3ef 100644
--- a/internal/logger_manager.go
+++ b/internal/logger_manager.go
@@ -108,7 +108,7 @@ func (m *defManager) LoadConfigFile(file string) error {
 		return err
 	}
 	ext := path.Ext(file)
-	return m.LoadConfig(bs, ext[1:])
+	return m.LoadConfig(bs, strings.TrimPrefix(ext, "."))
 }
 
 func (m *defManager) LoadConfig(bs []byte, ext string) (err error) {
-- 
2.43.0


From c261c621ad80e9773c166fa378a967c71c5e2beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:48 +0000
Subject: [PATCH 05/38] fix: keep fields and the logger's own level when
 outputs are inherited

A record written through a logger without outputs was handed to the parent's
writer, which replaced its context (losing all fields) and checked the level
again against the parent.
---
 internal/logger.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/internal/logger.go b/internal/logger.go
index bea1c2a..39e60d7 100644
--- a/internal/logger.go
+++ b/internal/logger.go
@@ -167,11 +167,12 @@ func (l *defWriter) write(name string, skip int, lvl api.Level, fmt string, args
 		return
 	}
 
-	if len(l.logger.outputs) == 0 {
-		if l.logger.parent != nil {
-			l.logger.parent.write(name, skip+1, lvl, fmt, args...)
-			return
-		}
+	// the outputs are those of the nearest logger which has some
+	src := l.logger
+	for len(src.outputs) == 0 && src.parent != nil {
+		src = src.parent
+	}
+	if len(src.outputs) == 0 {
 		log.Println("Warnning: not find outputs and parent for logger " + name)
 	}
 
@@ -186,14 +187,14 @@ func (l *defWriter) write(name string, skip int, lvl api.Level, fmt string, args
 		Ctx:       l.ctx,
 	}
 
-	if l.logger.callerInfoFlag == ciFuncFlag {
+	if src.callerInfoFlag == ciFuncFlag {
 		getCallerInfo(evt, true)
-	} else if l.logger.callerInfoFlag == ciFileFlag {
+	} else if src.callerInfoFlag == ciFileFlag {
 		getCallerInfo(evt, false)
 	}
 
 	// dispatch event to all outputs
-	for _, v := range l.logger.outputs {
+	for _, v := range src.outputs {
 		v.Send(evt)
 	}
 }
-- 
2.43.0


From 79fb1d0957e0f6dd9d09a5378aa97f3ad54cd4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:49 +0000
Subject: [PATCH 06/38] fix: report the caller of Printf instead of its
 caller's caller

---
 internal/logger.go | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/internal/logger.go b/internal/logger.go
index 39e60d7..0cf03ee 100644
--- a/internal/logger.go
+++ b/internal/logger.go
@@ -111,54 +111,59 @@ type defWriter struct {
 }
 
 func (l *defWriter) Tracef(fmt string, args ...interface{}) {
-	l.Printf(api.Trace, fmt, args...)
+	l.printf(api.Trace, fmt, args...)
 }
 
 func (l *defWriter) Trace(msg ...interface{}) {
-	l.Printf(api.Trace, "", msg...)
+	l.printf(api.Trace, "", msg...)
 }
 
 func (l *defWriter) Debugf(fmt string, args ...interface{}) {
-	l.Printf(api.Debug, fmt, args...)
+	l.printf(api.Debug, fmt, args...)
 }
 
 func (l *defWriter) Debug(msg ...interface{}) {
-	l.Printf(api.Debug, "", msg...)
+	l.printf(api.Debug, "", msg...)
 }
 
 func (l *defWriter) Infof(fmt string, args ...interface{}) {
-	l.Printf(api.Info, fmt, args...)
+	l.printf(api.Info, fmt, args...)
 }
 
 func (l *defWriter) Info(msg ...interface{}) {
-	l.Printf(api.Info, "", msg...)
+	l.printf(api.Info, "", msg...)
 }
 
 func (l *defWriter) Warnf(fmt string, args ...interface{}) {
-	l.Printf(api.Warn, fmt, args...)
+	l.printf(api.Warn, fmt, args...)
 }
 
 func (l *defWriter) Warn(msg ...interface{}) {
-	l.Printf(api.Warn, "", msg...)
+	l.printf(api.Warn, "", msg...)
 }
 
 func (l *defWriter) Errorf(fmt string, args ...interface{}) {
-	l.Printf(api.Error, fmt, args...)
+	l.printf(api.Error, fmt, args...)
 }
 
 func (l *defWriter) Error(msg ...interface{}) {
-	l.Printf(api.Error, "", msg...)
+	l.printf(api.Error, "", msg...)
 }
 
 func (l *defWriter) Criticalf(fmt string, args ...interface{}) {
-	l.Printf(api.Critical, fmt, args...)
+	l.printf(api.Critical, fmt, args...)
 }
 
 func (l *defWriter) Critical(msg ...interface{}) {
-	l.Printf(api.Critical, "", msg...)
+	l.printf(api.Critical, "", msg...)
 }
 
 func (l *defWriter) Printf(lvl api.Level, fmt string, args ...interface{}) {
+	// called directly, one frame less than through printf
+	l.write(l.logger.name, l.logger.callerSkip-1, lvl, fmt, args...)
+}
+
+func (l *defWriter) printf(lvl api.Level, fmt string, args ...interface{}) {
 	l.write(l.logger.name, l.logger.callerSkip, lvl, fmt, args...)
 }
 
-- 
2.43.0


From f5e497d6802ce43b36559f341658cba853f05fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:50 +0000
Subject: [PATCH 07/38] fix: configure ancestors created along with a logger

A configured logger first created as the parent of another one never got its
configuration, so neither it nor its children used it.
---
 internal/logger_factory.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/internal/logger_factory.go b/internal/logger_factory.go
index 0568d7f..2009498 100644
--- a/internal/logger_factory.go
+++ b/internal/logger_factory.go
@@ -31,12 +31,6 @@ func (f *factory) GetLogger(name string) api.Logger {
 	l, ok := f.loggers[name]
 	if !ok {
 		l = f.createLogger(name, f.getParent(name))
-		if ops, lvl, err := f.manager.GetLoggerOutputs(name); err != nil {
-			//log.Println("WARN: ", err)
-		} else {
-			l.SetLevel(lvl)
-			l.SetOutputs(ops)
-		}
 	}
 
 	return l
@@ -64,6 +58,12 @@ func (f *factory) createLogger(name string, parent *defLogger) *defLogger {
 		l = newLogger(name)
 		l.parent = parent
 		f.loggers[name] = l
+		if ops, lvl, err := f.manager.GetLoggerOutputs(name); err != nil {
+			//log.Println("WARN: ", err)
+		} else {
+			l.SetLevel(lvl)
+			l.SetOutputs(ops)
+		}
 	}
 	return l
 }
-- 
2.43.0


From abfdf29b8859b21540dfd9fc064049c93e2fb263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:22 +0000
Subject: [PATCH 08/38] fix: guard level, outputs and caller skip of a logger

They are changed by SetLevel, SetOutputs, SetCallerSkip and by loading a
configuration while other goroutines log.
---
 internal/logger.go | 43 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/internal/logger.go b/internal/logger.go
index 0cf03ee..17e562a 100644
--- a/internal/logger.go
+++ b/internal/logger.go
@@ -3,6 +3,7 @@ package internal
 import (
 	"context"
 	"log"
+	"sync"
 	"time"
 
 	"github.com/xtfly/log4g/api"
@@ -20,6 +21,7 @@ type defLogger struct {
 	outputs        []api.Output // 日志的Output列表
 	callerSkip     int          // caller skip depth
 	callerInfoFlag int          //
+	mu             sync.RWMutex // protects level, outputs, callerSkip and callerInfoFlag
 
 	*defWriter
 }
@@ -78,14 +80,19 @@ func (l *defLogger) LevelEnabled(lvl api.Level) bool {
 }
 
 func (l *defLogger) SetLevel(lvl api.Level) {
+	l.mu.Lock()
 	l.level = lvl
+	l.mu.Unlock()
 }
 
 func (l *defLogger) Level() api.Level {
 	cl := l
 	for cl != nil {
-		if cl.level != api.Uninitialized {
-			return cl.level
+		cl.mu.RLock()
+		lvl := cl.level
+		cl.mu.RUnlock()
+		if lvl != api.Uninitialized {
+			return lvl
 		}
 		cl = cl.parent
 	}
@@ -93,10 +100,20 @@ func (l *defLogger) Level() api.Level {
 }
 
 func (l *defLogger) SetCallerSkip(skip int) {
+	l.mu.Lock()
 	l.callerSkip = callerSkip + skip
+	l.mu.Unlock()
+}
+
+func (l *defLogger) getCallerSkip() int {
+	l.mu.RLock()
+	defer l.mu.RUnlock()
+	return l.callerSkip
 }
 
 func (l *defLogger) SetOutputs(outputs []api.Output) {
+	l.mu.Lock()
+	defer l.mu.Unlock()
 	l.outputs = outputs
 	for _, op := range outputs {
 		if l.callerInfoFlag < op.CallerInfoFlag() {
@@ -105,6 +122,12 @@ func (l *defLogger) SetOutputs(outputs []api.Output) {
 	}
 }
 
+func (l *defLogger) getOutputs() ([]api.Output, int) {
+	l.mu.RLock()
+	defer l.mu.RUnlock()
+	return l.outputs, l.callerInfoFlag
+}
+
 type defWriter struct {
 	logger *defLogger
 	ctx    context.Context
@@ -160,11 +183,11 @@ func (l *defWriter) Critical(msg ...interface{}) {
 
 func (l *defWriter) Printf(lvl api.Level, fmt string, args ...interface{}) {
 	// called directly, one frame less than through printf
-	l.write(l.logger.name, l.logger.callerSkip-1, lvl, fmt, args...)
+	l.write(l.logger.name, l.logger.getCallerSkip()-1, lvl, fmt, args...)
 }
 
 func (l *defWriter) printf(lvl api.Level, fmt string, args ...interface{}) {
-	l.write(l.logger.name, l.logger.callerSkip, lvl, fmt, args...)
+	l.write(l.logger.name, l.logger.getCallerSkip(), lvl, fmt, args...)
 }
 
 func (l *defWriter) write(name string, skip int, lvl api.Level, fmt string, args ...interface{}) {
@@ -174,10 +197,12 @@ func (l *defWriter) write(name string, skip int, lvl api.Level, fmt string, args
 
 	// the outputs are those of the nearest logger which has some
 	src := l.logger
-	for len(src.outputs) == 0 && src.parent != nil {
+	outputs, flag := src.getOutputs()
+	for len(outputs) == 0 && src.parent != nil {
 		src = src.parent
+		outputs, flag = src.getOutputs()
 	}
-	if len(src.outputs) == 0 {
+	if len(outputs) == 0 {
 		log.Println("Warnning: not find outputs and parent for logger " + name)
 	}
 
@@ -192,14 +217,14 @@ func (l *defWriter) write(name string, skip int, lvl api.Level, fmt string, args
 		Ctx:       l.ctx,
 	}
 
-	if src.callerInfoFlag == ciFuncFlag {
+	if flag == ciFuncFlag {
 		getCallerInfo(evt, true)
-	} else if src.callerInfoFlag == ciFileFlag {
+	} else if flag == ciFileFlag {
 		getCallerInfo(evt, false)
 	}
 
 	// dispatch event to all outputs
-	for _, v := range src.outputs {
+	for _, v := range outputs {
 		v.Send(evt)
 	}
 }
-- 
2.43.0


From 562d264767fe3cf9373add89e8d4e16d94a6d901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:22 +0000
Subject: [PATCH 09/38] fix: make the memory output safe for concurrent use

---
 internal/output_memory.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/internal/output_memory.go b/internal/output_memory.go
index 7bcd09e..f5f7d8f 100644
--- a/internal/output_memory.go
+++ b/internal/output_memory.go
@@ -2,6 +2,7 @@ package internal
 
 import (
 	"bytes"
+	"sync"
 
 	"github.com/xtfly/log4g/api"
 )
@@ -12,16 +13,26 @@ const (
 
 type memoryOutput struct {
 	api.Output
+	mu  sync.Mutex // protects buf
 	buf bytes.Buffer
 }
 
+// Write appends a record to the buffer
+func (o *memoryOutput) Write(p []byte) (int, error) {
+	o.mu.Lock()
+	defer o.mu.Unlock()
+	return o.buf.Write(p)
+}
+
 func (o *memoryOutput) String() string {
+	o.mu.Lock()
+	defer o.mu.Unlock()
 	return o.buf.String()
 }
 
 // NewMemoryOutput return a output instance that it print message to buffer
 func NewMemoryOutput(_ api.CfgOutput) (api.Output, error) {
 	r := &memoryOutput{}
-	r.Output = NewBaseOutput(&r.buf, api.All)
+	r.Output = NewBaseOutput(r, api.All)
 	return r, nil
 }
-- 
2.43.0


From ad07472e69c6150e96f59d5f6138a8cd9a585882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:23 +0000
Subject: [PATCH 10/38] fix: honour the threshold of a memory output

---
 internal/output_memory.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/output_memory.go b/internal/output_memory.go
index f5f7d8f..87e6a0b 100644
--- a/internal/output_memory.go
+++ b/internal/output_memory.go
@@ -31,8 +31,8 @@ func (o *memoryOutput) String() string {
 }
 
 // NewMemoryOutput return a output instance that it print message to buffer
-func NewMemoryOutput(_ api.CfgOutput) (api.Output, error) {
+func NewMemoryOutput(cfg api.CfgOutput) (api.Output, error) {
 	r := &memoryOutput{}
-	r.Output = NewBaseOutput(r, api.All)
+	r.Output = NewBaseOutput(r, GetThresholdLvl(cfg["threshold"]))
 	return r, nil
 }
-- 
2.43.0


From bd9a86df44c7b22ed67f77f1ac70e301a43cf7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:59 +0000
Subject: [PATCH 11/38] fix: close an asynchronous output without losing events
 or panicking

Closing raced with sending (send on closed channel, events queued behind the
end marker, senders blocked forever), with other closes, and with the start of
the loop (returning before anything was written).
---
 internal/output_base.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/internal/output_base.go b/internal/output_base.go
index 787a12b..4f04bc3 100644
--- a/internal/output_base.go
+++ b/internal/output_base.go
@@ -113,6 +113,7 @@ func NewAsyncOutput(w io.Writer, threshold api.Level, queueSize int, batchNum in
 		batchNum: batchNum,
 	}
 	o.baseOutput = &baseOutput{w: w, t: threshold}
+	o.wait.Add(1)
 	go o.loop()
 	return o
 }
@@ -124,10 +125,13 @@ type asyncOutput struct {
 	currNum  int
 	buf      bytes.Buffer
 	wait     sync.WaitGroup
+	sendLock sync.RWMutex // read-locked while sending, so that nothing is sent to the closed channel
 	closed   int32
 }
 
 func (o *asyncOutput) Send(e *api.Event) {
+	o.sendLock.RLock()
+	defer o.sendLock.RUnlock()
 	if atomic.LoadInt32(&o.closed) == flagClosed {
 		return
 	}
@@ -136,13 +140,14 @@ func (o *asyncOutput) Send(e *api.Event) {
 
 func (o *asyncOutput) Close() {
 	// support duplicate call Close method
-	if atomic.LoadInt32(&o.closed) == flagClosed {
-		return
+	o.sendLock.Lock()
+	if atomic.LoadInt32(&o.closed) != flagClosed {
+		atomic.StoreInt32(&o.closed, flagClosed)
+		close(o.evtChan)
 	}
-	o.evtChan <- nil
+	o.sendLock.Unlock()
+	// the loop quits after writing all events left in the channel
 	o.wait.Wait()
-	atomic.StoreInt32(&o.closed, flagClosed)
-	close(o.evtChan)
 }
 
 func (o *asyncOutput) flush() {
@@ -153,7 +158,6 @@ func (o *asyncOutput) flush() {
 }
 
 func (o *asyncOutput) loop() {
-	o.wait.Add(1)
 	defer o.wait.Done()
 
 	tick := time.NewTicker(5 * time.Second)
-- 
2.43.0


From e8425ce4e5cc6dd96cfc2a6e386139f8de2785a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:00 +0000
Subject: [PATCH 12/38] fix: format events of asynchronous outputs when they
 are logged

They were formatted later by the output's own goroutine, which showed (and
raced with) changes made to the arguments after the logging call returned.
---
 internal/output_base.go | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/internal/output_base.go b/internal/output_base.go
index 4f04bc3..b5b5ab4 100644
--- a/internal/output_base.go
+++ b/internal/output_base.go
@@ -109,7 +109,7 @@ func GetThresholdLvl(str string) api.Level {
 // NewAsyncOutput ...
 func NewAsyncOutput(w io.Writer, threshold api.Level, queueSize int, batchNum int) api.Output {
 	o := &asyncOutput{
-		evtChan:  make(chan *api.Event, queueSize),
+		bufChan:  make(chan []byte, queueSize),
 		batchNum: batchNum,
 	}
 	o.baseOutput = &baseOutput{w: w, t: threshold}
@@ -120,7 +120,7 @@ func NewAsyncOutput(w io.Writer, threshold api.Level, queueSize int, batchNum in
 
 type asyncOutput struct {
 	*baseOutput
-	evtChan  chan *api.Event
+	bufChan  chan []byte // formatted events
 	batchNum int
 	currNum  int
 	buf      bytes.Buffer
@@ -130,12 +130,18 @@ type asyncOutput struct {
 }
 
 func (o *asyncOutput) Send(e *api.Event) {
+	if e.Level < o.t {
+		return
+	}
+	// format now, the arguments may change after the logging call has returned
+	bs := o.f.Format(e)
+
 	o.sendLock.RLock()
 	defer o.sendLock.RUnlock()
 	if atomic.LoadInt32(&o.closed) == flagClosed {
 		return
 	}
-	o.evtChan <- e
+	o.bufChan <- bs
 }
 
 func (o *asyncOutput) Close() {
@@ -143,7 +149,7 @@ func (o *asyncOutput) Close() {
 	o.sendLock.Lock()
 	if atomic.LoadInt32(&o.closed) != flagClosed {
 		atomic.StoreInt32(&o.closed, flagClosed)
-		close(o.evtChan)
+		close(o.bufChan)
 	}
 	o.sendLock.Unlock()
 	// the loop quits after writing all events left in the channel
@@ -167,18 +173,16 @@ func (o *asyncOutput) loop() {
 		select {
 		case <-tick.C:
 			o.flush()
-		case evt := <-o.evtChan:
-			if evt == nil {
+		case bs, ok := <-o.bufChan:
+			if !ok {
 				o.flush()
 				return
 			}
 
-			if evt.Level >= o.t {
-				o.buf.Write(o.f.Format(evt))
-				o.currNum++
-				if o.currNum >= o.batchNum {
-					o.flush()
-				}
+			o.buf.Write(bs)
+			o.currNum++
+			if o.currNum >= o.batchNum {
+				o.flush()
 			}
 		}
 	}
-- 
2.43.0


From 5eae9250aa7f016d57d0d73eedb4fb05ffb79c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:00 +0000
Subject: [PATCH 13/38] fix: do not touch the destination of an idle
 asynchronous output

Every few seconds an empty write was made, which created files and rolled
empty ones, pushing real backups out.
---
 internal/output_base.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/output_base.go b/internal/output_base.go
index b5b5ab4..1692000 100644
--- a/internal/output_base.go
+++ b/internal/output_base.go
@@ -157,6 +157,9 @@ func (o *asyncOutput) Close() {
 }
 
 func (o *asyncOutput) flush() {
+	if o.currNum == 0 {
+		return
+	}
 	bs := o.buf.Bytes()
 	o.w.Write(bs)
 	o.buf.Truncate(0)
-- 
2.43.0


From 62905bd0a84efb9c4a601ccd1e27104390f3c5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:29 +0000
Subject: [PATCH 14/38] fix: archive backups configured with archive: zip or
 gzip

With the log's directory as archive path, the mode collecting all backups in
one archive file could only fail, and the backups were deleted unarchived.
---
 internal/output_rolling.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/output_rolling.go b/internal/output_rolling.go
index bc486e1..666390c 100644
--- a/internal/output_rolling.go
+++ b/internal/output_rolling.go
@@ -34,6 +34,9 @@ func NewRollingOutput(cfg api.CfgOutput) (o api.Output, err error) {
 		rw.archiveType = rollingArchiveGzip
 	}
 
+	// the archive path is the directory of the log: one archive per backup
+	rw.archiveExploded = true
+
 	rw.maxRolls = getMaxRolls(cfg["backups"])
 	rw.dirPerm = getFileMode(cfg["dir_perm"], defaultDirectoryPermissions)
 	rw.filePerm = getFileMode(cfg["file_perm"], defaultFilePermissions)
-- 
2.43.0


From c0f407f1a70e0021f7c7ffa0c0ac449e455cb519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:29 +0000
Subject: [PATCH 15/38] fix: do not delete backups which could not be archived

---
 internal/output_rollingwriter.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/internal/output_rollingwriter.go b/internal/output_rollingwriter.go
index a6e8284..9d8c78a 100644
--- a/internal/output_rollingwriter.go
+++ b/internal/output_rollingwriter.go
@@ -417,22 +417,30 @@ func (rw *rollingFileWriter) deleteOldRolls(history []string) error {
 		return nil
 	}
 
+	var err error
 	if rw.archiveType != rollingArchiveNone {
 		if rw.archiveExploded {
 			os.MkdirAll(rw.archivePath, rw.dirPerm)
 
 			// Archive logs
-			for i := 0; i < rollsToDelete; i++ {
-				rw.archiveExplodedLogs(history[i], compressionTypes[rw.archiveType])
+			for i := 0; i < rollsToDelete && err == nil; i++ {
+				if err = rw.archiveExplodedLogs(history[i], compressionTypes[rw.archiveType]); err != nil {
+					rollsToDelete = i
+				}
 			}
 		} else {
 			os.MkdirAll(filepath.Dir(rw.archivePath), rw.dirPerm)
-			rw.archiveUnexplodedLogs(compressionTypes[rw.archiveType], rollsToDelete, history)
+			if err = rw.archiveUnexplodedLogs(compressionTypes[rw.archiveType], rollsToDelete, history); err != nil {
+				rollsToDelete = 0
+			}
 		}
 	}
+	// Files which could not be archived are kept, the next roll tries again.
+	if err != nil {
+		reportInternalError(err)
+	}
 
-	var err error
-	// In all cases (archive files or not) the files should be deleted.
+	// The other files, archived or not, should be deleted.
 	for i := 0; i < rollsToDelete; i++ {
 		// Try best to delete files without breaking the loop.
 		if err = tryRemoveFile(filepath.Join(rw.currentDirPath, history[i])); err != nil {
-- 
2.43.0


From 4693f0c05658428ec97fea59779ce45423da954a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:05 +0000
Subject: [PATCH 16/38] fix: keep logging when rolling fails and roll files
 left by an earlier run

After a failed roll the file stayed closed and every later write failed, even
when the cause had gone. A file that had reached the limit in an earlier run
was only rolled after another write, so that short runs let it grow forever.
---
 internal/output_rollingwriter.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/internal/output_rollingwriter.go b/internal/output_rollingwriter.go
index 9d8c78a..8ca0e53 100644
--- a/internal/output_rollingwriter.go
+++ b/internal/output_rollingwriter.go
@@ -464,10 +464,10 @@ func (rw *rollingFileWriter) getFileRollName(fileName string) string {
 func (rw *rollingFileWriter) roll() error {
 	// First, close current file.
 	err := rw.currentFile.Close()
+	rw.currentFile = nil
 	if err != nil {
 		return err
 	}
-	rw.currentFile = nil
 
 	// Current history of all previous log files.
 	// For file roller it may be like this:
@@ -521,14 +521,20 @@ func (rw *rollingFileWriter) Write(bytes []byte) (n int, err error) {
 	rw.rollLock.Lock()
 	defer rw.rollLock.Unlock()
 
-	if rw.self.needsToRoll() {
-		if err := rw.roll(); err != nil {
+	// open first, a file left by an earlier run may have to be rolled
+	if rw.currentFile == nil {
+		err := rw.createFileAndFolderIfNeeded(true)
+		if err != nil {
 			return 0, err
 		}
 	}
 
-	if rw.currentFile == nil {
-		err := rw.createFileAndFolderIfNeeded(true)
+	if rw.self.needsToRoll() {
+		if err := rw.roll(); err != nil {
+			// go on with the current file, the next write tries again to roll it
+			reportInternalError(err)
+		}
+		err := rw.createFileAndFolderIfNeeded(false)
 		if err != nil {
 			return 0, err
 		}
-- 
2.43.0


From 814b0434383a66b808a090c0d6d4a87221931994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:06 +0000
Subject: [PATCH 17/38] fix: roll by time a file left by a run in an earlier
 period

---
 internal/output_rollingwriter.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/output_rollingwriter.go b/internal/output_rollingwriter.go
index 8ca0e53..caac15e 100644
--- a/internal/output_rollingwriter.go
+++ b/internal/output_rollingwriter.go
@@ -649,9 +649,12 @@ func (rwt *rollingFileWriterTime) needsToRoll() bool {
 	newName := time.Now().Format(rwt.timePattern)
 
 	if rwt.currentTimeFileName == "" {
-		// first run; capture the current name
+		// first run; capture the current name, or that of the period in which
+		// an earlier run wrote to the file
 		rwt.currentTimeFileName = newName
-		return false
+		if fi, err := rwt.currentFile.Stat(); err == nil && fi.Size() > 0 {
+			rwt.currentTimeFileName = fi.ModTime().Format(rwt.timePattern)
+		}
 	}
 
 	return newName != rwt.currentTimeFileName
-- 
2.43.0


From 520d0e79749baee46522c9ff4376a27c812b6533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:11 +0000
Subject: [PATCH 18/38] fix: apply changed definitions when a configuration is
 loaded again

Formats and outputs once created were kept by name, so that a configuration
redefining them (as any does that names its format f1 like the default one)
had no effect on them, and loggers it does not mention kept old outputs.
---
 internal/logger.go         |  1 +
 internal/logger_factory.go | 52 +++++++++++++++++++++++++-------------
 internal/logger_manager.go | 40 +++++++++++++++++++++++++++++
 3 files changed, 75 insertions(+), 18 deletions(-)

diff --git a/internal/logger.go b/internal/logger.go
index 17e562a..5bb9f2d 100644
--- a/internal/logger.go
+++ b/internal/logger.go
@@ -21,6 +21,7 @@ type defLogger struct {
 	outputs        []api.Output // 日志的Output列表
 	callerSkip     int          // caller skip depth
 	callerInfoFlag int          //
+	configured     bool         // level and outputs come from the configuration, protected by the factory
 	mu             sync.RWMutex // protects level, outputs, callerSkip and callerInfoFlag
 
 	*defWriter
diff --git a/internal/logger_factory.go b/internal/logger_factory.go
index 2009498..ce554cb 100644
--- a/internal/logger_factory.go
+++ b/internal/logger_factory.go
@@ -58,12 +58,7 @@ func (f *factory) createLogger(name string, parent *defLogger) *defLogger {
 		l = newLogger(name)
 		l.parent = parent
 		f.loggers[name] = l
-		if ops, lvl, err := f.manager.GetLoggerOutputs(name); err != nil {
-			//log.Println("WARN: ", err)
-		} else {
-			l.SetLevel(lvl)
-			l.SetOutputs(ops)
-		}
+		f.configure(l)
 	}
 	return l
 }
@@ -74,13 +69,8 @@ func (f *factory) getRootLogger() *defLogger {
 	}
 
 	f.root = newLogger(rootLoggerName)
-	if ops, lvl, err := f.manager.GetLoggerOutputs(rootLoggerName); err != nil {
-		f.root.SetLevel(api.Debug)
-		console, _ := NewConsoleOutput(nil)
-		f.root.SetOutputs([]api.Output{console})
-	} else {
-		f.root.SetLevel(lvl)
-		f.root.SetOutputs(ops)
+	if !f.configure(f.root) {
+		f.setRootDefault()
 	}
 
 	f.loggers[rootLoggerName] = f.root
@@ -91,15 +81,41 @@ func (f *factory) notify() {
 	f.Lock()
 	defer f.Unlock()
 	for _, k := range f.loggers {
-		if ops, lvl, err := f.manager.GetLoggerOutputs(k.name); err != nil {
-			//log.Println("WARN: ", err)
-		} else {
-			k.SetLevel(lvl)
-			k.SetOutputs(ops)
+		wasConfigured := k.configured
+		if !f.configure(k) && wasConfigured {
+			// not configured any more, inherit again
+			if k == f.root {
+				f.setRootDefault()
+			} else {
+				k.SetLevel(api.Uninitialized)
+				k.SetOutputs(nil)
+			}
 		}
 	}
 }
 
+// configure sets level and outputs of a logger as configured,
+// it returns false when the logger is not configured.
+func (f *factory) configure(l *defLogger) bool {
+	ops, lvl, err := f.manager.GetLoggerOutputs(l.name)
+	if err != nil {
+		//log.Println("WARN: ", err)
+		l.configured = false
+	} else {
+		l.SetLevel(lvl)
+		l.SetOutputs(ops)
+		l.configured = true
+	}
+	return l.configured
+}
+
+// setRootDefault lets the root logger write to the console
+func (f *factory) setRootDefault() {
+	f.root.SetLevel(api.Debug)
+	console, _ := NewConsoleOutput(nil)
+	f.root.SetOutputs([]api.Output{console})
+}
+
 // newFactory return a instance of Factory
 func newFactory(manager api.Manager) api.Factory {
 	factory := &factory{
diff --git a/internal/logger_manager.go b/internal/logger_manager.go
index 389c3ef..670043d 100644
--- a/internal/logger_manager.go
+++ b/internal/logger_manager.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"gopkg.in/yaml.v2"
 	"io/ioutil"
+	"reflect"
 	"strings"
 	"sync"
 
@@ -24,6 +25,8 @@ type defManager struct {
 	outputCreators    map[string]api.OutputFuncCreator    // key: type
 	formats           map[string]api.Formatter            // key: name
 	outputs           map[string]api.Output               // key: name
+	formatCfgs        map[string]map[string]string        // key: name, what formats were created from
+	outputCfgs        map[string]map[string]string        // key: name, what outputs were created from
 	config            *api.Config
 	cfgNotifications  []configNotification
 }
@@ -34,6 +37,8 @@ func newManager() api.Manager {
 		outputCreators:    make(map[string]api.OutputFuncCreator),
 		formats:           make(map[string]api.Formatter),
 		outputs:           make(map[string]api.Output),
+		formatCfgs:        make(map[string]map[string]string),
+		outputCfgs:        make(map[string]map[string]string),
 		config:            &api.Config{},
 	}
 }
@@ -82,6 +87,7 @@ func (m *defManager) GetLoggerOutputs(name string) (ops []api.Output, lvl api.Le
 				return
 			}
 			m.formats[fmtcfg.Name()] = fmtt
+			m.formatCfgs[fmtcfg.Name()] = copyCfg(fmtcfg)
 		}
 
 		opcreator, ok := m.outputCreators[opcfg.Type()]
@@ -96,6 +102,7 @@ func (m *defManager) GetLoggerOutputs(name string) (ops []api.Output, lvl api.Le
 			}
 			op.SetFormatter(fmtt)
 			m.outputs[opcfg.Name()] = op
+			m.outputCfgs[opcfg.Name()] = copyCfg(opcfg)
 		}
 		ops = append(ops, op)
 	}
@@ -135,13 +142,46 @@ func (m *defManager) setConfig(cfg *api.Config) error {
 
 	m.Lock()
 	m.config = cfg
+	stale := m.forgetStale()
 	m.Unlock()
 	for _, cn := range m.cfgNotifications {
 		cn.notify()
 	}
+	// no logger uses them any more
+	for _, op := range stale {
+		op.Close()
+	}
 	return nil
 }
 
+// forgetStale forgets the formats and outputs which are not defined, or
+// defined differently, in the new configuration, and returns these outputs.
+func (m *defManager) forgetStale() (stale []api.Output) {
+	for name, cfg := range m.formatCfgs {
+		if !reflect.DeepEqual(cfg, copyCfg(m.config.GetCfgFormat(name))) {
+			delete(m.formats, name)
+			delete(m.formatCfgs, name)
+		}
+	}
+	for name, cfg := range m.outputCfgs {
+		_, ok := m.formats[api.CfgOutput(cfg).FormatName()]
+		if !ok || !reflect.DeepEqual(cfg, copyCfg(m.config.GetCfgOutput(name))) {
+			stale = append(stale, m.outputs[name])
+			delete(m.outputs, name)
+			delete(m.outputCfgs, name)
+		}
+	}
+	return
+}
+
+func copyCfg(cfg map[string]string) map[string]string {
+	cp := make(map[string]string, len(cfg))
+	for k, v := range cfg {
+		cp[k] = v
+	}
+	return cp
+}
+
 func (m *defManager) validateConfig(cfg *api.Config) (err error) {
 	// check the output & format relationship in config
 
-- 
2.43.0


From 84038adabad0eecdb3c330892c40e14e29a79500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:06 +0000
Subject: [PATCH 19/38] fix: show package names with a dot in the last element
 unescaped

---
 internal/logger_callerinfo.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/logger_callerinfo.go b/internal/logger_callerinfo.go
index d20ff85..5f87aac 100644
--- a/internal/logger_callerinfo.go
+++ b/internal/logger_callerinfo.go
@@ -2,6 +2,7 @@ package internal
 
 import (
 	"context"
+	"net/url"
 	"runtime"
 	"strings"
 
@@ -48,6 +49,10 @@ func getCallerInfo(evt *api.Event, needFun bool) *callerInfo {
 				ci.pkg, ci.fun = "???", "???"
 			} else {
 				ci.pkg, ci.fun = fs[:i+j+1], fs[i+j+2:]
+				// dots in the last element are escaped, eg. gopkg.in/yaml%2ev2
+				if pkg, err := url.PathUnescape(ci.pkg); err == nil {
+					ci.pkg = pkg
+				}
 			}
 		}
 	}
-- 
2.43.0


From 529996db5f5db19157abb86f1807439a1af9bfa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:27 +0000
Subject: [PATCH 20/38] fix: show the name of a generic function as its short
 name

---
 internal/format_parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/format_parser.go b/internal/format_parser.go
index c259082..64982c6 100644
--- a/internal/format_parser.go
+++ b/internal/format_parser.go
@@ -258,7 +258,8 @@ func longfuncFormatFunc(evt *api.Event, _ *part) interface{} {
 // %{shortfunc} Base function name, eg. PutUint32
 func shortfuncFormatFunc(evt *api.Event, _ *part) interface{} {
 	ci := getCallerInfo(evt, true)
-	i := strings.LastIndex(ci.fun, ".")
+	// the name of a generic function ends with [...]
+	i := strings.LastIndex(strings.TrimSuffix(ci.fun, "[...]"), ".")
 	return ci.fun[i+1:]
 }
 
-- 
2.43.0


From 9466f939b564803f3238454abe09da7d7ad5b47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:33 +0000
Subject: [PATCH 21/38] fix: refuse to copy a second gzip file into a gzip
 archive

---
 internal/archive/archive.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/internal/archive/archive.go b/internal/archive/archive.go
index 2ec2fd4..e77b254 100644
--- a/internal/archive/archive.go
+++ b/internal/archive/archive.go
@@ -65,8 +65,7 @@ func Copy(dst Writer, src Reader) error {
 	// Switch on concrete type because gzip has no special methods
 	case *gzip.Reader:
 		if dst, ok := dst.(*gzip.Writer); ok {
-			_, err := io.Copy(dst, src)
-			return err
+			return copyGzip(dst, src)
 		}
 	}
 
@@ -138,6 +137,22 @@ type tarWriter interface {
 	io.Writer
 }
 
+// copyGzip announces the file to w, which refuses a second one.
+func copyGzip(w *gzip.Writer, r *gzip.Reader) error {
+	name, err := r.NextFile()
+	if err == io.EOF {
+		return nil
+	}
+	if err != nil {
+		return err
+	}
+	if err := w.NextFile(name, nil); err != nil {
+		return err
+	}
+	_, err = io.Copy(w, r)
+	return err
+}
+
 type zipReader interface {
 	Files() []*zip.File
 }
-- 
2.43.0


From 23fcd332f8c27ee810749c371dae3582ee37078b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:11 +0000
Subject: [PATCH 22/38] fix: report a zip entry cut short instead of ending the
 copy

---
 internal/archive/zip/zip.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/archive/zip/zip.go b/internal/archive/zip/zip.go
index 4210b03..3646705 100644
--- a/internal/archive/zip/zip.go
+++ b/internal/archive/zip/zip.go
@@ -43,6 +43,9 @@ func (r *Reader) NextFile() (name string, err error) {
 	f := r.unread[0]
 	name, r.unread = f.Name, r.unread[1:]
 	r.rc, err = f.Open()
+	if err == io.EOF { // truncated, not the end of the archive
+		err = io.ErrUnexpectedEOF
+	}
 	if err != nil {
 		return "", err
 	}
-- 
2.43.0


From 6f347ade919e3b5fb4b7274c66329509dad1333b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:00 +0000
Subject: [PATCH 23/38] fix: keep a copy of the configuration structure set by
 the caller

---
 internal/logger_manager.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/internal/logger_manager.go b/internal/logger_manager.go
index 670043d..6d21625 100644
--- a/internal/logger_manager.go
+++ b/internal/logger_manager.go
@@ -174,6 +174,23 @@ func (m *defManager) forgetStale() (stale []api.Output) {
 	return
 }
 
+// copyConfig copies a configuration, so that changes the caller makes to it
+// later do not take effect before they are set and accepted.
+func copyConfig(cfg *api.Config) *api.Config {
+	cp := &api.Config{}
+	for _, f := range cfg.Formats {
+		cp.Formats = append(cp.Formats, copyCfg(f))
+	}
+	for _, o := range cfg.Outputs {
+		cp.Outputs = append(cp.Outputs, copyCfg(o))
+	}
+	for _, l := range cfg.Loggers {
+		l.OutputNames = append([]string(nil), l.OutputNames...)
+		cp.Loggers = append(cp.Loggers, l)
+	}
+	return cp
+}
+
 func copyCfg(cfg map[string]string) map[string]string {
 	cp := make(map[string]string, len(cfg))
 	for k, v := range cfg {
@@ -227,7 +244,7 @@ func (m *defManager) validateConfig(cfg *api.Config) (err error) {
 }
 
 func (m *defManager) SetConfig(cfg *api.Config) error {
-	return m.setConfig(cfg)
+	return m.setConfig(copyConfig(cfg))
 }
 
 func (m *defManager) Close() {
-- 
2.43.0


From e92df89fd1048287088fa8ef701353281c641db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:59 +0000
Subject: [PATCH 24/38] fix: close the file of a rolling output with the output

---
 internal/output_rolling.go       | 10 ++++++++++
 internal/output_rollingwriter.go |  4 +++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/internal/output_rolling.go b/internal/output_rolling.go
index 666390c..3c197ba 100644
--- a/internal/output_rolling.go
+++ b/internal/output_rolling.go
@@ -16,6 +16,15 @@ const (
 
 type rollingOutput struct {
 	api.Output
+	rw *rollingFileWriter
+}
+
+// Close the output and its file; a later write opens the file again
+func (o *rollingOutput) Close() {
+	o.Output.Close()
+	if err := o.rw.Close(); err != nil {
+		reportInternalError(err)
+	}
 }
 
 // NewRollingOutput return a output instance that it print message to stdio
@@ -25,6 +34,7 @@ func NewRollingOutput(cfg api.CfgOutput) (o api.Output, err error) {
 
 	fpath := cfg["file"]
 	rw := newRollingFileWriter(fpath, "")
+	r.rw = rw
 
 	rw.archiveType = rollingArchiveNone
 	switch cfg["archive"] {
diff --git a/internal/output_rollingwriter.go b/internal/output_rollingwriter.go
index caac15e..da50817 100644
--- a/internal/output_rollingwriter.go
+++ b/internal/output_rollingwriter.go
@@ -546,12 +546,14 @@ func (rw *rollingFileWriter) Write(bytes []byte) (n int, err error) {
 }
 
 func (rw *rollingFileWriter) Close() error {
+	rw.rollLock.Lock()
+	defer rw.rollLock.Unlock()
 	if rw.currentFile != nil {
 		e := rw.currentFile.Close()
+		rw.currentFile = nil
 		if e != nil {
 			return e
 		}
-		rw.currentFile = nil
 	}
 	return nil
 }
-- 
2.43.0


From 0959daf04200dca9f6a866cf1e0f834d59fd1a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:19 +0000
Subject: [PATCH 25/38] fix: remove the temporary file of an archive that
 cannot be moved into place

---
 internal/output_rollingwriter.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/output_rollingwriter.go b/internal/output_rollingwriter.go
index da50817..b74059d 100644
--- a/internal/output_rollingwriter.go
+++ b/internal/output_rollingwriter.go
@@ -321,6 +321,9 @@ func (rw *rollingFileWriter) archiveExplodedLogs(logFilename string, compression
 		// Finalize archive by swapping the buffered archive into place
 		err = os.Rename(dst.Name(), filepath.Join(rw.archivePath,
 			compressionType.rollingArchiveTypeName(logFilename, true)))
+		if err != nil {
+			os.Remove(dst.Name())
+		}
 	}()
 
 	// archive entry
@@ -359,6 +362,9 @@ func (rw *rollingFileWriter) archiveUnexplodedLogs(compressionType compressionTy
 
 		// Finalize archive by moving the buffered archive into place
 		err = os.Rename(dst.Name(), rw.archivePath)
+		if err != nil {
+			os.Remove(dst.Name())
+		}
 	}()
 
 	w := compressionType.archiver(dst, false)
-- 
2.43.0


From 48ae0419106026aa87b2071af1fefa1ea7057092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:52 +0000
Subject: [PATCH 26/38] fix: roll the file of an earlier period although its
 first rotation failed

---
 internal/output_rollingwriter.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/output_rollingwriter.go b/internal/output_rollingwriter.go
index b74059d..d94b194 100644
--- a/internal/output_rollingwriter.go
+++ b/internal/output_rollingwriter.go
@@ -169,6 +169,9 @@ type rollerVirtual interface {
 	// rolled to.
 	getNewHistoryRollFileName(otherHistoryFiles []string) string
 
+	// rolled is called when the current log file has been rolled.
+	rolled()
+
 	getCurrentFileName() string
 }
 
@@ -507,6 +510,7 @@ func (rw *rollingFileWriter) roll() error {
 	if err != nil {
 		return err
 	}
+	rw.self.rolled()
 	os.Chmod(dest, rw.backPerm)
 
 	// Finally, add the newly added history file to the history archive
@@ -629,6 +633,9 @@ func (rws *rollingFileWriterSize) getNewHistoryRollFileName(otherLogFiles []stri
 	return fmt.Sprintf("%d", v+1)
 }
 
+func (rws *rollingFileWriterSize) rolled() {
+}
+
 func (rws *rollingFileWriterSize) getCurrentFileName() string {
 	return rws.fileName
 }
@@ -702,9 +709,11 @@ func (rwt *rollingFileWriterTime) sortFileRollNamesAsc(fs []string) ([]string, e
 }
 
 func (rwt *rollingFileWriterTime) getNewHistoryRollFileName(_ []string) string {
-	newFileName := rwt.currentTimeFileName
+	return rwt.currentTimeFileName
+}
+
+func (rwt *rollingFileWriterTime) rolled() {
 	rwt.currentTimeFileName = time.Now().Format(rwt.timePattern)
-	return newFileName
 }
 
 func (rwt *rollingFileWriterTime) getCurrentFileName() string {
-- 
2.43.0


From 6dad42ffc5c0163791878c4d7331c66c44c36c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:39 +0000
Subject: [PATCH 27/38] fix: do not leave the file open which a record opens
 after its rolling output was closed

---
 internal/output_rollingwriter.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/output_rollingwriter.go b/internal/output_rollingwriter.go
index d94b194..ae76774 100644
--- a/internal/output_rollingwriter.go
+++ b/internal/output_rollingwriter.go
@@ -198,6 +198,7 @@ type rollingFileWriter struct {
 	filePerm        os.FileMode
 	backPerm        os.FileMode
 	rollLock        sync.Mutex
+	closed          bool // the file is held open by single writes only
 }
 
 func newRollingFileWriter(fpath string, apath string) *rollingFileWriter {
@@ -552,12 +553,23 @@ func (rw *rollingFileWriter) Write(bytes []byte) (n int, err error) {
 
 	n, err = rw.currentFile.Write(bytes)
 	rw.currentFileSize += int64(n)
+	if rw.closed {
+		// a record which was on its way when the writer was closed
+		if cerr := rw.closeFile(); err == nil {
+			err = cerr
+		}
+	}
 	return n, err
 }
 
 func (rw *rollingFileWriter) Close() error {
 	rw.rollLock.Lock()
 	defer rw.rollLock.Unlock()
+	rw.closed = true
+	return rw.closeFile()
+}
+
+func (rw *rollingFileWriter) closeFile() error {
 	if rw.currentFile != nil {
 		e := rw.currentFile.Close()
 		rw.currentFile = nil
-- 
2.43.0


From 3d790186769c30ee4a1a293b50eb167e6c94301d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:39 +0000
Subject: [PATCH 28/38] fix: do not leave the connection open which a record
 makes after its syslog output was closed

---
 internal/output_syslog.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/output_syslog.go b/internal/output_syslog.go
index 47689a5..25ae5d2 100644
--- a/internal/output_syslog.go
+++ b/internal/output_syslog.go
@@ -2,6 +2,7 @@ package internal
 
 import (
 	"log/syslog"
+	"sync/atomic"
 
 	"github.com/xtfly/log4g/api"
 )
@@ -14,6 +15,8 @@ type syslogOutput struct {
 	w *syslog.Writer
 	f api.Formatter
 	t api.Level //threshold
+
+	closed int32
 }
 
 func (o *syslogOutput) Send(e *api.Event) {
@@ -40,6 +43,11 @@ func (o *syslogOutput) Send(e *api.Event) {
 	case api.Critical:
 		o.w.Crit(m)
 	}
+
+	// the writer connects again for a record which was on its way when it was closed
+	if atomic.LoadInt32(&o.closed) == flagClosed {
+		o.w.Close()
+	}
 }
 
 // SetFormatter ...
@@ -58,6 +66,7 @@ func (o *syslogOutput) CallerInfoFlag() int {
 // Close the syslog writer related to this output
 func (o *syslogOutput) Close() {
 	if o.w != nil {
+		atomic.StoreInt32(&o.closed, flagClosed)
 		o.w.Close()
 	}
 }
-- 
2.43.0


From 2ae43b7471c15693609824c6c857a3e8d8803948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:18 +0000
Subject: [PATCH 29/38] fix: do not lose backups when an output of the same
 file takes over

---
 internal/output_rollingwriter.go | 45 ++++++++++++++++++++++++++++----
 1 file changed, 40 insertions(+), 5 deletions(-)

diff --git a/internal/output_rollingwriter.go b/internal/output_rollingwriter.go
index ae76774..9081047 100644
--- a/internal/output_rollingwriter.go
+++ b/internal/output_rollingwriter.go
@@ -172,6 +172,10 @@ type rollerVirtual interface {
 	// rolled is called when the current log file has been rolled.
 	rolled()
 
+	// reset is called when another writer may have written or rolled the
+	// current log file.
+	reset()
+
 	getCurrentFileName() string
 }
 
@@ -197,12 +201,30 @@ type rollingFileWriter struct {
 	dirPerm         os.FileMode
 	filePerm        os.FileMode
 	backPerm        os.FileMode
-	rollLock        sync.Mutex
+	shared          *sharedFile
 	closed          bool // the file is held open by single writes only
 }
 
+// sharedFile is what all writers of one file have in common. There may be
+// several of them while a configuration is replaced by another one.
+type sharedFile struct {
+	sync.Mutex
+	last *rollingFileWriter // which used the file last
+}
+
+var sharedFiles sync.Map // of *sharedFile, key: path
+
+func getSharedFile(fpath string) *sharedFile {
+	if abs, err := filepath.Abs(fpath); err == nil {
+		fpath = abs
+	}
+	f, _ := sharedFiles.LoadOrStore(fpath, &sharedFile{})
+	return f.(*sharedFile)
+}
+
 func newRollingFileWriter(fpath string, apath string) *rollingFileWriter {
 	rw := new(rollingFileWriter)
+	rw.shared = getSharedFile(fpath)
 	rw.currentDirPath, rw.fileName = filepath.Split(fpath)
 	if len(rw.currentDirPath) == 0 {
 		rw.currentDirPath = "."
@@ -529,8 +551,14 @@ func (rw *rollingFileWriter) roll() error {
 }
 
 func (rw *rollingFileWriter) Write(bytes []byte) (n int, err error) {
-	rw.rollLock.Lock()
-	defer rw.rollLock.Unlock()
+	rw.shared.Lock()
+	defer rw.shared.Unlock()
+
+	if rw.shared.last != rw {
+		rw.closeFile()
+		rw.self.reset()
+		rw.shared.last = rw
+	}
 
 	// open first, a file left by an earlier run may have to be rolled
 	if rw.currentFile == nil {
@@ -563,8 +591,8 @@ func (rw *rollingFileWriter) Write(bytes []byte) (n int, err error) {
 }
 
 func (rw *rollingFileWriter) Close() error {
-	rw.rollLock.Lock()
-	defer rw.rollLock.Unlock()
+	rw.shared.Lock()
+	defer rw.shared.Unlock()
 	rw.closed = true
 	return rw.closeFile()
 }
@@ -648,6 +676,9 @@ func (rws *rollingFileWriterSize) getNewHistoryRollFileName(otherLogFiles []stri
 func (rws *rollingFileWriterSize) rolled() {
 }
 
+func (rws *rollingFileWriterSize) reset() {
+}
+
 func (rws *rollingFileWriterSize) getCurrentFileName() string {
 	return rws.fileName
 }
@@ -728,6 +759,10 @@ func (rwt *rollingFileWriterTime) rolled() {
 	rwt.currentTimeFileName = time.Now().Format(rwt.timePattern)
 }
 
+func (rwt *rollingFileWriterTime) reset() {
+	rwt.currentTimeFileName = ""
+}
+
 func (rwt *rollingFileWriterTime) getCurrentFileName() string {
 	if rwt.fullName {
 		return rwt.createFullFileName(rwt.fileName, time.Now().Format(rwt.timePattern))
-- 
2.43.0


From f17def06560defd1336d41848a66514256310147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:24 +0000
Subject: [PATCH 30/38] fix: never replace a backup by another one of the same
 period name

---
 internal/output_rollingwriter.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/output_rollingwriter.go b/internal/output_rollingwriter.go
index 9081047..c2c3683 100644
--- a/internal/output_rollingwriter.go
+++ b/internal/output_rollingwriter.go
@@ -529,6 +529,11 @@ func (rw *rollingFileWriter) roll() error {
 		rw.self.getNewHistoryRollFileName(history))
 
 	dest := filepath.Join(rw.currentDirPath, newHistoryName)
+	if _, err = os.Lstat(dest); err == nil {
+		// The clock was set back. Never replace a backup, go on with the current file.
+		rw.self.rolled()
+		return fmt.Errorf("cannot roll %s, %s exists", rw.currentName, dest)
+	}
 	err = os.Rename(filepath.Join(rw.currentDirPath, rw.currentName), dest)
 	if err != nil {
 		return err
-- 
2.43.0


From 93092d35b9e756dc5ed32b203ff5231290d6b7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:57 +0000
Subject: [PATCH 31/38] fix: copy sparse files between tar archives as the
 regular files they are read as

---
 internal/archive/archive.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/archive/archive.go b/internal/archive/archive.go
index e77b254..f7baadd 100644
--- a/internal/archive/archive.go
+++ b/internal/archive/archive.go
@@ -177,6 +177,10 @@ func copyTar(w tarWriter, r tarReader) error {
 		if info.IsDir() {
 			continue
 		}
+		// The reader expands sparse files
+		if hdr.Typeflag == tar.TypeGNUSparse {
+			hdr.Typeflag = tar.TypeReg
+		}
 		if err := w.WriteHeader(hdr); err != nil {
 			return err
 		}
-- 
2.43.0


From 9ee9737b7e4297920affe0165ff6afbb5fecff8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:57 +0000
Subject: [PATCH 32/38] fix: do not take a field named like the key of the call
 site for it

---
 internal/logger_callerinfo.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/logger_callerinfo.go b/internal/logger_callerinfo.go
index 5f87aac..c48f4a0 100644
--- a/internal/logger_callerinfo.go
+++ b/internal/logger_callerinfo.go
@@ -15,6 +15,10 @@ const (
 	ciFuncFlag
 )
 
+// callerInfoKey is the key of the caller info in the context of an event, its
+// type keeps it apart from the keys of fields.
+type callerInfoKey struct{}
+
 type callerInfo struct {
 	file string
 	line int
@@ -25,7 +29,7 @@ type callerInfo struct {
 
 func getCallerInfo(evt *api.Event, needFun bool) *callerInfo {
 	var ci *callerInfo
-	v := evt.Ctx.Value("__caller_info")
+	v := evt.Ctx.Value(callerInfoKey{})
 	if v != nil {
 		ci = v.(*callerInfo)
 	}
@@ -37,7 +41,7 @@ func getCallerInfo(evt *api.Event, needFun bool) *callerInfo {
 		if !ok {
 			ci.file, ci.line = "???", 0
 		}
-		evt.Ctx = context.WithValue(evt.Ctx, "__caller_info", ci)
+		evt.Ctx = context.WithValue(evt.Ctx, callerInfoKey{}, ci)
 	}
 
 	if needFun && ci.pkg == "" {
-- 
2.43.0


From e20ea6f961e741cdf80de963bb5896ad8ea158d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:57 +0000
Subject: [PATCH 33/38] fix: show the call site of a record logged with the
 context of another event

---
 internal/logger.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/logger.go b/internal/logger.go
index 5bb9f2d..d85c5fe 100644
--- a/internal/logger.go
+++ b/internal/logger.go
@@ -218,6 +218,10 @@ func (l *defWriter) write(name string, skip int, lvl api.Level, fmt string, args
 		Ctx:       l.ctx,
 	}
 
+	if flag != ciNoneFlog {
+		// the context may be that of another event, which was logged elsewhere
+		evt.Ctx = context.WithValue(evt.Ctx, callerInfoKey{}, nil)
+	}
 	if flag == ciFuncFlag {
 		getCallerInfo(evt, true)
 	} else if flag == ciFileFlag {
-- 
2.43.0


From 087be714536c75b19a4f9c3391882dc5806901d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:50 +0000
Subject: [PATCH 34/38] fix: do not file records under an earlier period after
 the log file was moved away

---
 internal/output_rollingwriter.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/output_rollingwriter.go b/internal/output_rollingwriter.go
index c2c3683..f02514a 100644
--- a/internal/output_rollingwriter.go
+++ b/internal/output_rollingwriter.go
@@ -574,14 +574,19 @@ func (rw *rollingFileWriter) Write(bytes []byte) (n int, err error) {
 	}
 
 	if rw.self.needsToRoll() {
-		if err := rw.roll(); err != nil {
+		rerr := rw.roll()
+		if rerr != nil {
 			// go on with the current file, the next write tries again to roll it
-			reportInternalError(err)
+			reportInternalError(rerr)
 		}
 		err := rw.createFileAndFolderIfNeeded(false)
 		if err != nil {
 			return 0, err
 		}
+		if rerr != nil && rw.currentFileSize == 0 {
+			// the file was moved away or removed, this is a new one
+			rw.self.rolled()
+		}
 	}
 
 	n, err = rw.currentFile.Write(bytes)
-- 
2.43.0


From 66b9567681269d30465bb41387a98e294b9454f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:57 +0000
Subject: [PATCH 35/38] fix: go on rotating when a directory or link has the
 name of the next backup

---
 internal/output_rollingwriter.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/output_rollingwriter.go b/internal/output_rollingwriter.go
index f02514a..ba7ed1c 100644
--- a/internal/output_rollingwriter.go
+++ b/internal/output_rollingwriter.go
@@ -680,7 +680,14 @@ func (rws *rollingFileWriterSize) getNewHistoryRollFileName(otherLogFiles []stri
 		latest := otherLogFiles[len(otherLogFiles)-1]
 		v, _ = strconv.Atoi(rws.getFileRollName(latest))
 	}
-	return fmt.Sprintf("%d", v+1)
+	for v++; ; v++ {
+		// A directory or link is no backup, but its name cannot be used.
+		rname := strconv.Itoa(v)
+		_, err := os.Lstat(filepath.Join(rws.currentDirPath, rws.createFullFileName(rws.fileName, rname)))
+		if err != nil {
+			return rname
+		}
+	}
 }
 
 func (rws *rollingFileWriterSize) rolled() {
-- 
2.43.0


From e6a510f594e13a5ca766515881c03a2cb6bbe933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:24 +0000
Subject: [PATCH 36/38] fix: never replace an archive by that of another backup

When the backups of a log file were deleted or moved away while archives
of them remained, the numbers started again and archives already there
were overwritten.
---
 internal/output_rollingwriter.go | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/internal/output_rollingwriter.go b/internal/output_rollingwriter.go
index ba7ed1c..8dda9d9 100644
--- a/internal/output_rollingwriter.go
+++ b/internal/output_rollingwriter.go
@@ -493,6 +493,25 @@ func (rw *rollingFileWriter) getFileRollName(fileName string) string {
 	return ""
 }
 
+// isTaken tells whether there is an entry with the name of a backup, which may
+// be a directory or a link, or an archive of that name.
+func (rw *rollingFileWriter) isTaken(logFilename string) bool {
+	if _, err := os.Lstat(filepath.Join(rw.currentDirPath, logFilename)); err == nil {
+		return true
+	}
+	if rw.archiveType == rollingArchiveNone || !rw.archiveExploded {
+		return false
+	}
+	// Earlier runs may have made archives of another type.
+	for _, compressionType := range compressionTypes {
+		name := compressionType.rollingArchiveTypeName(logFilename, true)
+		if _, err := os.Lstat(filepath.Join(rw.archivePath, name)); err == nil {
+			return true
+		}
+	}
+	return false
+}
+
 func (rw *rollingFileWriter) roll() error {
 	// First, close current file.
 	err := rw.currentFile.Close()
@@ -529,10 +548,10 @@ func (rw *rollingFileWriter) roll() error {
 		rw.self.getNewHistoryRollFileName(history))
 
 	dest := filepath.Join(rw.currentDirPath, newHistoryName)
-	if _, err = os.Lstat(dest); err == nil {
+	if rw.isTaken(newHistoryName) {
 		// The clock was set back. Never replace a backup, go on with the current file.
 		rw.self.rolled()
-		return fmt.Errorf("cannot roll %s, %s exists", rw.currentName, dest)
+		return fmt.Errorf("cannot roll %s, %s or its archive exists", rw.currentName, dest)
 	}
 	err = os.Rename(filepath.Join(rw.currentDirPath, rw.currentName), dest)
 	if err != nil {
@@ -681,10 +700,8 @@ func (rws *rollingFileWriterSize) getNewHistoryRollFileName(otherLogFiles []stri
 		v, _ = strconv.Atoi(rws.getFileRollName(latest))
 	}
 	for v++; ; v++ {
-		// A directory or link is no backup, but its name cannot be used.
 		rname := strconv.Itoa(v)
-		_, err := os.Lstat(filepath.Join(rws.currentDirPath, rws.createFullFileName(rws.fileName, rname)))
-		if err != nil {
+		if !rws.isTaken(rws.createFullFileName(rws.fileName, rname)) {
 			return rname
 		}
 	}
-- 
2.43.0


From 4166884e3758dded4e4c5c1227d22e185e32e355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:34 +0000
Subject: [PATCH 37/38] fix: do not keep the manager locked when an output
 panics while it is closed

---
 internal/logger_manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/logger_manager.go b/internal/logger_manager.go
index 6d21625..0ef1295 100644
--- a/internal/logger_manager.go
+++ b/internal/logger_manager.go
@@ -249,10 +249,10 @@ func (m *defManager) SetConfig(cfg *api.Config) error {
 
 func (m *defManager) Close() {
 	m.Lock()
+	defer m.Unlock()
 	for _, v := range m.outputs {
 		v.Close()
 	}
-	m.Unlock()
 }
 
 func (m *defManager) addConfigNotify(cn configNotification) {
-- 
2.43.0


From 423d877d05f55757b3b743c16409e85d449744f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:34 +0000
Subject: [PATCH 38/38] fix: configure a logger whose setting up panicked again
 with the next configuration

---
 internal/logger_factory.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/internal/logger_factory.go b/internal/logger_factory.go
index ce554cb..8fbfbc5 100644
--- a/internal/logger_factory.go
+++ b/internal/logger_factory.go
@@ -68,13 +68,14 @@ func (f *factory) getRootLogger() *defLogger {
 		return f.root
 	}
 
-	f.root = newLogger(rootLoggerName)
-	if !f.configure(f.root) {
-		f.setRootDefault()
+	root := newLogger(rootLoggerName)
+	if !f.configure(root) {
+		setRootDefault(root)
 	}
 
-	f.loggers[rootLoggerName] = f.root
-	return f.root
+	f.root = root
+	f.loggers[rootLoggerName] = root
+	return root
 }
 
 func (f *factory) notify() {
@@ -85,7 +86,7 @@ func (f *factory) notify() {
 		if !f.configure(k) && wasConfigured {
 			// not configured any more, inherit again
 			if k == f.root {
-				f.setRootDefault()
+				setRootDefault(k)
 			} else {
 				k.SetLevel(api.Uninitialized)
 				k.SetOutputs(nil)
@@ -102,18 +103,18 @@ func (f *factory) configure(l *defLogger) bool {
 		//log.Println("WARN: ", err)
 		l.configured = false
 	} else {
+		l.configured = true
 		l.SetLevel(lvl)
 		l.SetOutputs(ops)
-		l.configured = true
 	}
 	return l.configured
 }
 
 // setRootDefault lets the root logger write to the console
-func (f *factory) setRootDefault() {
-	f.root.SetLevel(api.Debug)
+func setRootDefault(root *defLogger) {
+	root.SetLevel(api.Debug)
 	console, _ := NewConsoleOutput(nil)
-	f.root.SetOutputs([]api.Output{console})
+	root.SetOutputs([]api.Output{console})
 }
 
 // newFactory return a instance of Factory
-- 
2.43.0

