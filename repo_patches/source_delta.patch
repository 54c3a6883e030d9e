From 6175ebd4dece22c23be31bf1fe0c1376b897842c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:37 +0000
Subject: [PATCH 01/33] fix: LoadConfig must report malformed text and
 unsupported types

---
 internal/logger_manager.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/logger_manager.go b/internal/logger_manager.go
index ac1dfa4..abf2702 100644
--- a/internal/logger_manager.go
+++ b/internal/logger_manager.go
@@ -121,6 +121,9 @@ func (m *defManager) LoadConfig(bs []byte, ext string) (err error) {
 	} else if ext == "json" {
 		err = json.Unmarshal(bs, cfg)
 	}
+	if err != nil {
+		return err
+	}
 
 	return m.setConfig(cfg)
 }
-- 
2.43.0


From 580e1d7baaa40f4f6a91bca62fa7c63a73b1f51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:37 +0000
Subject: [PATCH 02/33] fix: LoadConfigFile must not panic on a file name
 without extension

---
 internal/logger_manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/logger_manager.go b/internal/logger_manager.go
index abf2702..2a833c9 100644
--- a/internal/logger_manager.go
+++ b/internal/logger_manager.go
@@ -108,7 +108,7 @@ func (m *defManager) LoadConfigFile(file string) error {
 		return err
 	}
 	ext := path.Ext(file)
-	return m.LoadConfig(bs, ext[1:])
+	return m.LoadConfig(bs, strings.TrimPrefix(ext, "."))
 }
 
 func (m *defManager) LoadConfig(bs []byte, ext string) (err error) {
-- 
2.43.0


From d52ded0bda559648de7f406fc68f7ecc03c7430b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:38 +0000
Subject: [PATCH 03/33] fix: detect duplicate logger names in a configuration

---
 internal/logger_manager.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/logger_manager.go b/internal/logger_manager.go
index 2a833c9..389c3ef 100644
--- a/internal/logger_manager.go
+++ b/internal/logger_manager.go
@@ -180,6 +180,7 @@ func (m *defManager) validateConfig(cfg *api.Config) (err error) {
 				return
 			}
 		}
+		loggers[l.Name] = l
 	}
 
 	return
-- 
2.43.0


From c2bf0cb6acfe0717e18416e837c6ff0e8648f546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:38 +0000
Subject: [PATCH 04/33] fix: honour the number in sizes with suffix K, M or G

---
 internal/output_rolling.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/output_rolling.go b/internal/output_rolling.go
index 2616a44..bc486e1 100644
--- a/internal/output_rolling.go
+++ b/internal/output_rolling.go
@@ -74,19 +74,19 @@ func NewRollingOutput(cfg api.CfgOutput) (o api.Output, err error) {
 
 func getMaxSize(str string) int64 {
 	if strings.HasSuffix(str, "K") {
-		size, _ := strconv.Atoi(str)
+		size, _ := strconv.Atoi(strings.TrimSuffix(str, "K"))
 		if size <= 0 {
 			size = 10 * 1024
 		}
 		return int64(size * 1024)
 	} else if strings.HasSuffix(str, "M") {
-		size, _ := strconv.Atoi(str)
+		size, _ := strconv.Atoi(strings.TrimSuffix(str, "M"))
 		if size <= 0 {
 			size = 10
 		}
 		return int64(size * 1024 * 1024)
 	} else if strings.HasSuffix(str, "G") {
-		size, _ := strconv.Atoi(str)
+		size, _ := strconv.Atoi(strings.TrimSuffix(str, "G"))
 		if size <= 0 {
 			size = 1
 		}
-- 
2.43.0


From b84636d68d5e8ddca493831d3647b4981502b2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:39 +0000
Subject: [PATCH 05/33] fix: closing an asynchronous output must not race with
 Send, Close or its own start

---
 internal/output_base.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/output_base.go b/internal/output_base.go
index 787a12b..5c2c188 100644
--- a/internal/output_base.go
+++ b/internal/output_base.go
@@ -113,6 +113,7 @@ func NewAsyncOutput(w io.Writer, threshold api.Level, queueSize int, batchNum in
 		batchNum: batchNum,
 	}
 	o.baseOutput = &baseOutput{w: w, t: threshold}
+	o.wait.Add(1)
 	go o.loop()
 	return o
 }
@@ -125,9 +126,12 @@ type asyncOutput struct {
 	buf      bytes.Buffer
 	wait     sync.WaitGroup
 	closed   int32
+	lock     sync.RWMutex // Close excludes every Send
 }
 
 func (o *asyncOutput) Send(e *api.Event) {
+	o.lock.RLock()
+	defer o.lock.RUnlock()
 	if atomic.LoadInt32(&o.closed) == flagClosed {
 		return
 	}
@@ -135,6 +139,8 @@ func (o *asyncOutput) Send(e *api.Event) {
 }
 
 func (o *asyncOutput) Close() {
+	o.lock.Lock()
+	defer o.lock.Unlock()
 	// support duplicate call Close method
 	if atomic.LoadInt32(&o.closed) == flagClosed {
 		return
@@ -153,7 +159,6 @@ func (o *asyncOutput) flush() {
 }
 
 func (o *asyncOutput) loop() {
-	o.wait.Add(1)
 	defer o.wait.Done()
 
 	tick := time.NewTicker(5 * time.Second)
-- 
2.43.0


From e93f69de50dc462a0216623d9cd442cb648f0578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:40 +0000
Subject: [PATCH 06/33] fix: an asynchronous output must format events before
 the call returns

---
 internal/output_base.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/output_base.go b/internal/output_base.go
index 5c2c188..8a2df68 100644
--- a/internal/output_base.go
+++ b/internal/output_base.go
@@ -130,6 +130,14 @@ type asyncOutput struct {
 }
 
 func (o *asyncOutput) Send(e *api.Event) {
+	if e.Level < o.t {
+		return
+	}
+	// format now: the caller may change the arguments after the call
+	var record bytes.Buffer
+	(&baseOutput{w: &record, f: o.f, t: o.t}).Send(e)
+	e = &api.Event{Level: e.Level, Format: record.String()}
+
 	o.lock.RLock()
 	defer o.lock.RUnlock()
 	if atomic.LoadInt32(&o.closed) == flagClosed {
@@ -175,7 +183,7 @@ func (o *asyncOutput) loop() {
 			}
 
 			if evt.Level >= o.t {
-				o.buf.Write(o.f.Format(evt))
+				o.buf.WriteString(evt.Format)
 				o.currNum++
 				if o.currNum >= o.batchNum {
 					o.flush()
-- 
2.43.0


From 7b7c4ced2cc4bb4ec645de8e34821d261f04e9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:40 +0000
Subject: [PATCH 07/33] fix: the periodic flush must not write (and roll) when
 there are no records

---
 internal/output_base.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/output_base.go b/internal/output_base.go
index 8a2df68..a2ef99a 100644
--- a/internal/output_base.go
+++ b/internal/output_base.go
@@ -161,7 +161,9 @@ func (o *asyncOutput) Close() {
 
 func (o *asyncOutput) flush() {
 	bs := o.buf.Bytes()
-	o.w.Write(bs)
+	if len(bs) > 0 { // an empty write could roll a file without any record
+		o.w.Write(bs)
+	}
 	o.buf.Truncate(0)
 	o.currNum = 0
 }
-- 
2.43.0


From a20013a33cca47b88ecc736b1abd4ba76d48e828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:21 +0000
Subject: [PATCH 08/33] fix: inherited outputs must see the fields and obey the
 level of the logger that was called

---
 internal/logger.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/internal/logger.go b/internal/logger.go
index bea1c2a..9d450f3 100644
--- a/internal/logger.go
+++ b/internal/logger.go
@@ -106,8 +106,9 @@ func (l *defLogger) SetOutputs(outputs []api.Output) {
 }
 
 type defWriter struct {
-	logger *defLogger
-	ctx    context.Context
+	logger    *defLogger
+	ctx       context.Context
+	inherited bool // writes for a descendant, which has checked the level
 }
 
 func (l *defWriter) Tracef(fmt string, args ...interface{}) {
@@ -163,13 +164,14 @@ func (l *defWriter) Printf(lvl api.Level, fmt string, args ...interface{}) {
 }
 
 func (l *defWriter) write(name string, skip int, lvl api.Level, fmt string, args ...interface{}) {
-	if !l.logger.LevelEnabled(lvl) {
+	if !l.inherited && !l.logger.LevelEnabled(lvl) {
 		return
 	}
 
 	if len(l.logger.outputs) == 0 {
 		if l.logger.parent != nil {
-			l.logger.parent.write(name, skip+1, lvl, fmt, args...)
+			pw := &defWriter{logger: l.logger.parent, ctx: l.ctx, inherited: true}
+			pw.write(name, skip+1, lvl, fmt, args...)
 			return
 		}
 		log.Println("Warnning: not find outputs and parent for logger " + name)
-- 
2.43.0


From 06cfd90619be19c38714b5f506470f1d2426d3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:21 +0000
Subject: [PATCH 09/33] fix: loggers created as parents must get their
 configuration

---
 internal/logger_factory.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/internal/logger_factory.go b/internal/logger_factory.go
index 0568d7f..2009498 100644
--- a/internal/logger_factory.go
+++ b/internal/logger_factory.go
@@ -31,12 +31,6 @@ func (f *factory) GetLogger(name string) api.Logger {
 	l, ok := f.loggers[name]
 	if !ok {
 		l = f.createLogger(name, f.getParent(name))
-		if ops, lvl, err := f.manager.GetLoggerOutputs(name); err != nil {
-			//log.Println("WARN: ", err)
-		} else {
-			l.SetLevel(lvl)
-			l.SetOutputs(ops)
-		}
 	}
 
 	return l
@@ -64,6 +58,12 @@ func (f *factory) createLogger(name string, parent *defLogger) *defLogger {
 		l = newLogger(name)
 		l.parent = parent
 		f.loggers[name] = l
+		if ops, lvl, err := f.manager.GetLoggerOutputs(name); err != nil {
+			//log.Println("WARN: ", err)
+		} else {
+			l.SetLevel(lvl)
+			l.SetOutputs(ops)
+		}
 	}
 	return l
 }
-- 
2.43.0


From 5cfc6b8779797a6fa81cb6f5b574cac11360eb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:21 +0000
Subject: [PATCH 10/33] fix: level, outputs and caller skip of a logger must be
 safe for concurrent use

---
 internal/logger.go | 41 ++++++++++++++++++++++++++++++++++-------
 1 file changed, 34 insertions(+), 7 deletions(-)

diff --git a/internal/logger.go b/internal/logger.go
index 9d450f3..847f637 100644
--- a/internal/logger.go
+++ b/internal/logger.go
@@ -3,6 +3,7 @@ package internal
 import (
 	"context"
 	"log"
+	"sync"
 	"time"
 
 	"github.com/xtfly/log4g/api"
@@ -20,6 +21,7 @@ type defLogger struct {
 	outputs        []api.Output // 日志的Output列表
 	callerSkip     int          // caller skip depth
 	callerInfoFlag int          //
+	lock           sync.RWMutex // guards level, outputs, callerSkip and callerInfoFlag
 
 	*defWriter
 }
@@ -78,14 +80,22 @@ func (l *defLogger) LevelEnabled(lvl api.Level) bool {
 }
 
 func (l *defLogger) SetLevel(lvl api.Level) {
+	l.lock.Lock()
+	defer l.lock.Unlock()
 	l.level = lvl
 }
 
+func (l *defLogger) ownLevel() api.Level {
+	l.lock.RLock()
+	defer l.lock.RUnlock()
+	return l.level
+}
+
 func (l *defLogger) Level() api.Level {
 	cl := l
 	for cl != nil {
-		if cl.level != api.Uninitialized {
-			return cl.level
+		if lvl := cl.ownLevel(); lvl != api.Uninitialized {
+			return lvl
 		}
 		cl = cl.parent
 	}
@@ -93,10 +103,26 @@ func (l *defLogger) Level() api.Level {
 }
 
 func (l *defLogger) SetCallerSkip(skip int) {
+	l.lock.Lock()
+	defer l.lock.Unlock()
 	l.callerSkip = callerSkip + skip
 }
 
+func (l *defLogger) skip() int {
+	l.lock.RLock()
+	defer l.lock.RUnlock()
+	return l.callerSkip
+}
+
+func (l *defLogger) ownOutputs() ([]api.Output, int) {
+	l.lock.RLock()
+	defer l.lock.RUnlock()
+	return l.outputs, l.callerInfoFlag
+}
+
 func (l *defLogger) SetOutputs(outputs []api.Output) {
+	l.lock.Lock()
+	defer l.lock.Unlock()
 	l.outputs = outputs
 	for _, op := range outputs {
 		if l.callerInfoFlag < op.CallerInfoFlag() {
@@ -160,7 +186,7 @@ func (l *defWriter) Critical(msg ...interface{}) {
 }
 
 func (l *defWriter) Printf(lvl api.Level, fmt string, args ...interface{}) {
-	l.write(l.logger.name, l.logger.callerSkip, lvl, fmt, args...)
+	l.write(l.logger.name, l.logger.skip(), lvl, fmt, args...)
 }
 
 func (l *defWriter) write(name string, skip int, lvl api.Level, fmt string, args ...interface{}) {
@@ -168,7 +194,8 @@ func (l *defWriter) write(name string, skip int, lvl api.Level, fmt string, args
 		return
 	}
 
-	if len(l.logger.outputs) == 0 {
+	outputs, callerInfoFlag := l.logger.ownOutputs()
+	if len(outputs) == 0 {
 		if l.logger.parent != nil {
 			pw := &defWriter{logger: l.logger.parent, ctx: l.ctx, inherited: true}
 			pw.write(name, skip+1, lvl, fmt, args...)
@@ -188,14 +215,14 @@ func (l *defWriter) write(name string, skip int, lvl api.Level, fmt string, args
 		Ctx:       l.ctx,
 	}
 
-	if l.logger.callerInfoFlag == ciFuncFlag {
+	if callerInfoFlag == ciFuncFlag {
 		getCallerInfo(evt, true)
-	} else if l.logger.callerInfoFlag == ciFileFlag {
+	} else if callerInfoFlag == ciFileFlag {
 		getCallerInfo(evt, false)
 	}
 
 	// dispatch event to all outputs
-	for _, v := range l.logger.outputs {
+	for _, v := range outputs {
 		v.Send(evt)
 	}
 }
-- 
2.43.0


From a980d439b372e0cc03f47230c20e7e36473f3a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:22 +0000
Subject: [PATCH 11/33] fix: the memory output must be safe for concurrent use

---
 internal/output_memory.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/internal/output_memory.go b/internal/output_memory.go
index 7bcd09e..0b4f94d 100644
--- a/internal/output_memory.go
+++ b/internal/output_memory.go
@@ -2,6 +2,7 @@ package internal
 
 import (
 	"bytes"
+	"sync"
 
 	"github.com/xtfly/log4g/api"
 )
@@ -12,16 +13,26 @@ const (
 
 type memoryOutput struct {
 	api.Output
-	buf bytes.Buffer
+	buf  bytes.Buffer
+	lock sync.Mutex // guards buf
+}
+
+// Write appends a record to the buffer
+func (o *memoryOutput) Write(p []byte) (int, error) {
+	o.lock.Lock()
+	defer o.lock.Unlock()
+	return o.buf.Write(p)
 }
 
 func (o *memoryOutput) String() string {
+	o.lock.Lock()
+	defer o.lock.Unlock()
 	return o.buf.String()
 }
 
 // NewMemoryOutput return a output instance that it print message to buffer
 func NewMemoryOutput(_ api.CfgOutput) (api.Output, error) {
 	r := &memoryOutput{}
-	r.Output = NewBaseOutput(&r.buf, api.All)
+	r.Output = NewBaseOutput(r, api.All)
 	return r, nil
 }
-- 
2.43.0


From aff05b0d325eac5fe943db7a37ff14dead9d3b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:22 +0000
Subject: [PATCH 12/33] fix: a direct Printf call must report its own caller

---
 internal/logger.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/internal/logger.go b/internal/logger.go
index 847f637..28dcc85 100644
--- a/internal/logger.go
+++ b/internal/logger.go
@@ -37,6 +37,21 @@ func newLogger(name string) *defLogger {
 	return l
 }
 
+// Printf is called by the application itself, one frame nearer than by Tracef and the like.
+func (l *defLogger) Printf(lvl api.Level, fmt string, args ...interface{}) {
+	l.defWriter.write(l.name, l.skip()-1, lvl, fmt, args...)
+}
+
+// ctxWriter is the writer with fields or context for the application.
+type ctxWriter struct {
+	*defWriter
+}
+
+// Printf is called by the application itself, one frame nearer than by Tracef and the like.
+func (w *ctxWriter) Printf(lvl api.Level, fmt string, args ...interface{}) {
+	w.write(w.logger.name, w.logger.skip()-1, lvl, fmt, args...)
+}
+
 func (l *defLogger) WithFields(fields ...api.Field) api.Writer {
 	ctx := context.Background()
 	for i := range fields {
@@ -44,11 +59,11 @@ func (l *defLogger) WithFields(fields ...api.Field) api.Writer {
 		ctx = context.WithValue(ctx, f.Key, f.Value)
 	}
 	w := &defWriter{logger: l, ctx: ctx}
-	return w
+	return &ctxWriter{w}
 }
 
 func (l *defLogger) WithCtx(ctx context.Context) api.Writer {
-	return &defWriter{logger: l, ctx: ctx}
+	return &ctxWriter{&defWriter{logger: l, ctx: ctx}}
 }
 
 func (l *defLogger) TraceEnabled() bool {
-- 
2.43.0


From b461426dd540c450bdf5223e4d5d503fedac164e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:54 +0000
Subject: [PATCH 13/33] fix: a configured archive type must archive the rolls
 it removes

---
 internal/output_rolling.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/output_rolling.go b/internal/output_rolling.go
index bc486e1..da111b4 100644
--- a/internal/output_rolling.go
+++ b/internal/output_rolling.go
@@ -33,6 +33,7 @@ func NewRollingOutput(cfg api.CfgOutput) (o api.Output, err error) {
 	case "gzip":
 		rw.archiveType = rollingArchiveGzip
 	}
+	rw.archiveExploded = true // the archive path is a directory
 
 	rw.maxRolls = getMaxRolls(cfg["backups"])
 	rw.dirPerm = getFileMode(cfg["dir_perm"], defaultDirectoryPermissions)
-- 
2.43.0


From 918f541f7fb6ccb6f753bf96472dd1d181074e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:54 +0000
Subject: [PATCH 14/33] fix: a roll that could not be archived must not be
 removed

---
 internal/output_rollingwriter.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/output_rollingwriter.go b/internal/output_rollingwriter.go
index a6e8284..8a9bc0b 100644
--- a/internal/output_rollingwriter.go
+++ b/internal/output_rollingwriter.go
@@ -417,23 +417,32 @@ func (rw *rollingFileWriter) deleteOldRolls(history []string) error {
 		return nil
 	}
 
+	archived := make([]error, rollsToDelete)
 	if rw.archiveType != rollingArchiveNone {
 		if rw.archiveExploded {
 			os.MkdirAll(rw.archivePath, rw.dirPerm)
 
 			// Archive logs
 			for i := 0; i < rollsToDelete; i++ {
-				rw.archiveExplodedLogs(history[i], compressionTypes[rw.archiveType])
+				archived[i] = rw.archiveExplodedLogs(history[i], compressionTypes[rw.archiveType])
 			}
 		} else {
 			os.MkdirAll(filepath.Dir(rw.archivePath), rw.dirPerm)
-			rw.archiveUnexplodedLogs(compressionTypes[rw.archiveType], rollsToDelete, history)
+			err := rw.archiveUnexplodedLogs(compressionTypes[rw.archiveType], rollsToDelete, history)
+			for i := range archived {
+				archived[i] = err
+			}
 		}
 	}
 
 	var err error
 	// In all cases (archive files or not) the files should be deleted.
 	for i := 0; i < rollsToDelete; i++ {
+		// But a file that could not be archived is kept for the next attempt.
+		if archived[i] != nil {
+			reportInternalError(archived[i])
+			continue
+		}
 		// Try best to delete files without breaking the loop.
 		if err = tryRemoveFile(filepath.Join(rw.currentDirPath, history[i])); err != nil {
 			reportInternalError(err)
-- 
2.43.0


From 3535bd56d1778643038920d9057b69422e18f788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:55 +0000
Subject: [PATCH 15/33] fix: a failed roll must not stop the output, and a file
 left by an earlier run counts with its size

---
 internal/output_rollingwriter.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/output_rollingwriter.go b/internal/output_rollingwriter.go
index 8a9bc0b..9083474 100644
--- a/internal/output_rollingwriter.go
+++ b/internal/output_rollingwriter.go
@@ -465,10 +465,10 @@ func (rw *rollingFileWriter) getFileRollName(fileName string) string {
 func (rw *rollingFileWriter) roll() error {
 	// First, close current file.
 	err := rw.currentFile.Close()
+	rw.currentFile = nil
 	if err != nil {
 		return err
 	}
-	rw.currentFile = nil
 
 	// Current history of all previous log files.
 	// For file roller it may be like this:
@@ -522,9 +522,18 @@ func (rw *rollingFileWriter) Write(bytes []byte) (n int, err error) {
 	rw.rollLock.Lock()
 	defer rw.rollLock.Unlock()
 
+	// A file left by an earlier run, or by a failed roll, counts as it is.
+	if rw.currentFile == nil {
+		err := rw.createFileAndFolderIfNeeded(true)
+		if err != nil {
+			return 0, err
+		}
+	}
+
 	if rw.self.needsToRoll() {
+		// A failed roll is tried again with the next record.
 		if err := rw.roll(); err != nil {
-			return 0, err
+			reportInternalError(err)
 		}
 	}
 
-- 
2.43.0


From c82c634dd2f5386c2dc54a20fa8a98e4452aaea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:55 +0000
Subject: [PATCH 16/33] fix: time rolling must keep records of an earlier run
 in the file of their period

---
 internal/output_rollingwriter.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/output_rollingwriter.go b/internal/output_rollingwriter.go
index 9083474..408aa1b 100644
--- a/internal/output_rollingwriter.go
+++ b/internal/output_rollingwriter.go
@@ -655,7 +655,10 @@ func (rwt *rollingFileWriterTime) needsToRoll() bool {
 	if rwt.currentTimeFileName == "" {
 		// first run; capture the current name
 		rwt.currentTimeFileName = newName
-		return false
+		// records left by an earlier run belong to the time of their last one
+		if fi, err := os.Stat(filepath.Join(rwt.currentDirPath, rwt.currentName)); err == nil && fi.Size() > 0 {
+			rwt.currentTimeFileName = fi.ModTime().Format(rwt.timePattern)
+		}
 	}
 
 	return newName != rwt.currentTimeFileName
-- 
2.43.0


From 6e54b5a60ba9f776effe1c6a38b568919661c096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:14 +0000
Subject: [PATCH 17/33] fix: a logger missing from a new configuration must not
 keep its old one

---
 internal/logger.go         |  1 +
 internal/logger_factory.go | 20 ++++++++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/internal/logger.go b/internal/logger.go
index 28dcc85..b89cf6f 100644
--- a/internal/logger.go
+++ b/internal/logger.go
@@ -21,6 +21,7 @@ type defLogger struct {
 	outputs        []api.Output // 日志的Output列表
 	callerSkip     int          // caller skip depth
 	callerInfoFlag int          //
+	configured     bool         // level and outputs come from the configuration
 	lock           sync.RWMutex // guards level, outputs, callerSkip and callerInfoFlag
 
 	*defWriter
diff --git a/internal/logger_factory.go b/internal/logger_factory.go
index 2009498..51056ec 100644
--- a/internal/logger_factory.go
+++ b/internal/logger_factory.go
@@ -61,6 +61,7 @@ func (f *factory) createLogger(name string, parent *defLogger) *defLogger {
 		if ops, lvl, err := f.manager.GetLoggerOutputs(name); err != nil {
 			//log.Println("WARN: ", err)
 		} else {
+			l.configured = true
 			l.SetLevel(lvl)
 			l.SetOutputs(ops)
 		}
@@ -79,6 +80,7 @@ func (f *factory) getRootLogger() *defLogger {
 		console, _ := NewConsoleOutput(nil)
 		f.root.SetOutputs([]api.Output{console})
 	} else {
+		f.root.configured = true
 		f.root.SetLevel(lvl)
 		f.root.SetOutputs(ops)
 	}
@@ -93,13 +95,31 @@ func (f *factory) notify() {
 	for _, k := range f.loggers {
 		if ops, lvl, err := f.manager.GetLoggerOutputs(k.name); err != nil {
 			//log.Println("WARN: ", err)
+			f.unconfigure(k)
 		} else {
+			k.configured = true
 			k.SetLevel(lvl)
 			k.SetOutputs(ops)
 		}
 	}
 }
 
+// unconfigure takes back what an earlier configuration set and the current one does not.
+func (f *factory) unconfigure(l *defLogger) {
+	if !l.configured {
+		return
+	}
+	l.configured = false
+	if l == f.root {
+		console, _ := NewConsoleOutput(nil)
+		l.SetLevel(api.Debug)
+		l.SetOutputs([]api.Output{console})
+		return
+	}
+	l.SetLevel(api.Uninitialized)
+	l.SetOutputs(nil)
+}
+
 // newFactory return a instance of Factory
 func newFactory(manager api.Manager) api.Factory {
 	factory := &factory{
-- 
2.43.0


From 4a5fc963f5f5e45e9107f481cee0fb367d6db446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:14 +0000
Subject: [PATCH 18/33] fix: an output or format whose definition changed must
 take the new one

---
 internal/logger_manager.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/internal/logger_manager.go b/internal/logger_manager.go
index 389c3ef..d6a2a2e 100644
--- a/internal/logger_manager.go
+++ b/internal/logger_manager.go
@@ -24,6 +24,8 @@ type defManager struct {
 	outputCreators    map[string]api.OutputFuncCreator    // key: type
 	formats           map[string]api.Formatter            // key: name
 	outputs           map[string]api.Output               // key: name
+	definitions       map[string]string                   // definition of each instance in formats and outputs
+	retired           []api.Output                        // outputs whose definition has changed, to be closed
 	config            *api.Config
 	cfgNotifications  []configNotification
 }
@@ -34,6 +36,7 @@ func newManager() api.Manager {
 		outputCreators:    make(map[string]api.OutputFuncCreator),
 		formats:           make(map[string]api.Formatter),
 		outputs:           make(map[string]api.Output),
+		definitions:       make(map[string]string),
 		config:            &api.Config{},
 	}
 }
@@ -76,12 +79,14 @@ func (m *defManager) GetLoggerOutputs(name string) (ops []api.Output, lvl api.Le
 			return nil, lvl, fmt.Errorf("not find registered format.type[%s] creator", fmtcfg.Type())
 		}
 
+		fmtkey, fmtdef := "format "+fmtcfg.Name(), fmt.Sprintf("%q", fmtcfg)
 		fmtt, ok := m.formats[fmtcfg.Name()]
-		if !ok {
+		if !ok || m.definitions[fmtkey] != fmtdef {
 			if fmtt, err = fmtcreator(fmtcfg); err != nil {
 				return
 			}
 			m.formats[fmtcfg.Name()] = fmtt
+			m.definitions[fmtkey] = fmtdef
 		}
 
 		opcreator, ok := m.outputCreators[opcfg.Type()]
@@ -89,11 +94,17 @@ func (m *defManager) GetLoggerOutputs(name string) (ops []api.Output, lvl api.Le
 			return nil, api.Uninitialized, fmt.Errorf("not find registered output.type[%s] creator", opcfg.Type())
 		}
 
+		opkey, opdef := "output "+opcfg.Name(), fmt.Sprintf("%q %s", opcfg, fmtdef)
 		op, ok := m.outputs[opcfg.Name()]
-		if !ok {
+		if !ok || m.definitions[opkey] != opdef {
+			old := op
 			if op, err = opcreator(opcfg); err != nil {
 				return
 			}
+			if ok {
+				m.retired = append(m.retired, old)
+			}
+			m.definitions[opkey] = opdef
 			op.SetFormatter(fmtt)
 			m.outputs[opcfg.Name()] = op
 		}
@@ -195,6 +206,9 @@ func (m *defManager) Close() {
 	for _, v := range m.outputs {
 		v.Close()
 	}
+	for _, v := range m.retired {
+		v.Close()
+	}
 	m.Unlock()
 }
 
-- 
2.43.0


From 984937503e467888b3964e6cd724cc762d2ae561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:28 +0000
Subject: [PATCH 19/33] fix: files whose names only resemble a roll are not
 part of the history

---
 internal/output_rollingwriter.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/output_rollingwriter.go b/internal/output_rollingwriter.go
index 408aa1b..8d1679b 100644
--- a/internal/output_rollingwriter.go
+++ b/internal/output_rollingwriter.go
@@ -590,8 +590,8 @@ func (rws *rollingFileWriterSize) isFileRollNameValid(rname string) bool {
 	if len(rname) == 0 {
 		return false
 	}
-	_, err := strconv.Atoi(rname)
-	return err == nil
+	n, err := strconv.Atoi(rname)
+	return err == nil && n > 0 && strconv.Itoa(n) == rname // not look-alikes like +1 or 01
 }
 
 type rollSizeFileTailsSlice []string
@@ -668,8 +668,8 @@ func (rwt *rollingFileWriterTime) isFileRollNameValid(rname string) bool {
 	if len(rname) == 0 {
 		return false
 	}
-	_, err := time.ParseInLocation(rwt.timePattern, rname, time.Local)
-	return err == nil
+	t, err := time.ParseInLocation(rwt.timePattern, rname, time.Local)
+	return err == nil && t.Format(rwt.timePattern) == rname // not look-alikes
 }
 
 type rollTimeFileTailsSlice struct {
-- 
2.43.0


From d4eec00dd8dc64e02c24cca56067fc03470e4691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:42 +0000
Subject: [PATCH 20/33] fix: a time roll that failed must be tried again with
 the next record

---
 internal/output_rollingwriter.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/output_rollingwriter.go b/internal/output_rollingwriter.go
index 8d1679b..806c772 100644
--- a/internal/output_rollingwriter.go
+++ b/internal/output_rollingwriter.go
@@ -169,6 +169,9 @@ type rollerVirtual interface {
 	// rolled to.
 	getNewHistoryRollFileName(otherHistoryFiles []string) string
 
+	// rolled is called when the current log file has got that name.
+	rolled()
+
 	getCurrentFileName() string
 }
 
@@ -502,6 +505,7 @@ func (rw *rollingFileWriter) roll() error {
 	if err != nil {
 		return err
 	}
+	rw.self.rolled()
 	os.Chmod(dest, rw.backPerm)
 
 	// Finally, add the newly added history file to the history archive
@@ -625,6 +629,9 @@ func (rws *rollingFileWriterSize) getNewHistoryRollFileName(otherLogFiles []stri
 	return fmt.Sprintf("%d", v+1)
 }
 
+func (rws *rollingFileWriterSize) rolled() {
+}
+
 func (rws *rollingFileWriterSize) getCurrentFileName() string {
 	return rws.fileName
 }
@@ -698,9 +705,11 @@ func (rwt *rollingFileWriterTime) sortFileRollNamesAsc(fs []string) ([]string, e
 }
 
 func (rwt *rollingFileWriterTime) getNewHistoryRollFileName(_ []string) string {
-	newFileName := rwt.currentTimeFileName
+	return rwt.currentTimeFileName
+}
+
+func (rwt *rollingFileWriterTime) rolled() {
 	rwt.currentTimeFileName = time.Now().Format(rwt.timePattern)
-	return newFileName
 }
 
 func (rwt *rollingFileWriterTime) getCurrentFileName() string {
-- 
2.43.0


From 166b1822618b418b52360549fce08742fa56464f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:57 +0000
Subject: [PATCH 21/33] fix: a new roll must not take the number of an archived
 one

---
 internal/output_rollingwriter.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/internal/output_rollingwriter.go b/internal/output_rollingwriter.go
index 806c772..8ad3130 100644
--- a/internal/output_rollingwriter.go
+++ b/internal/output_rollingwriter.go
@@ -455,6 +455,16 @@ func (rw *rollingFileWriter) deleteOldRolls(history []string) error {
 	return nil
 }
 
+func (rw *rollingFileWriter) isArchived(rollname string) bool {
+	if rw.archiveType == rollingArchiveNone || !rw.archiveExploded {
+		return false
+	}
+	compressionType := compressionTypes[rw.archiveType]
+	_, err := os.Stat(filepath.Join(rw.archivePath,
+		compressionType.rollingArchiveTypeName(rw.createFullFileName(rw.fileName, rollname), true)))
+	return err == nil
+}
+
 func (rw *rollingFileWriter) getFileRollName(fileName string) string {
 	switch rw.nameMode {
 	case rollingNameModePostfix:
@@ -626,7 +636,12 @@ func (rws *rollingFileWriterSize) getNewHistoryRollFileName(otherLogFiles []stri
 		latest := otherLogFiles[len(otherLogFiles)-1]
 		v, _ = strconv.Atoi(rws.getFileRollName(latest))
 	}
-	return fmt.Sprintf("%d", v+1)
+	v++
+	// An archived roll keeps its number: another one would overwrite its archive.
+	for rws.isArchived(strconv.Itoa(v)) {
+		v++
+	}
+	return fmt.Sprintf("%d", v)
 }
 
 func (rws *rollingFileWriterSize) rolled() {
-- 
2.43.0


From 2dcdd07583ea58d2b9909310528c35d2db8ce536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:22 +0000
Subject: [PATCH 22/33] fix: package verbs render the import path, not its
 escaped form

---
 internal/logger_callerinfo.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/logger_callerinfo.go b/internal/logger_callerinfo.go
index d20ff85..a334402 100644
--- a/internal/logger_callerinfo.go
+++ b/internal/logger_callerinfo.go
@@ -2,6 +2,7 @@ package internal
 
 import (
 	"context"
+	"net/url"
 	"runtime"
 	"strings"
 
@@ -48,6 +49,10 @@ func getCallerInfo(evt *api.Event, needFun bool) *callerInfo {
 				ci.pkg, ci.fun = "???", "???"
 			} else {
 				ci.pkg, ci.fun = fs[:i+j+1], fs[i+j+2:]
+				// function names have dots and the like in the import path escaped
+				if p, err := url.PathUnescape(ci.pkg); err == nil {
+					ci.pkg = p
+				}
 			}
 		}
 	}
-- 
2.43.0


From d37ad9d75cf4dd927ac3cf2ef3439547d8d9e209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:39 +0000
Subject: [PATCH 23/33] fix: a field named __caller_info must not be taken for
 the caller info

---
 internal/logger_callerinfo.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/logger_callerinfo.go b/internal/logger_callerinfo.go
index a334402..2d62cc6 100644
--- a/internal/logger_callerinfo.go
+++ b/internal/logger_callerinfo.go
@@ -15,6 +15,9 @@ const (
 	ciFuncFlag
 )
 
+// callerInfoKey is the context key of the caller info, different from every key of the application
+type callerInfoKey struct{}
+
 type callerInfo struct {
 	file string
 	line int
@@ -25,7 +28,7 @@ type callerInfo struct {
 
 func getCallerInfo(evt *api.Event, needFun bool) *callerInfo {
 	var ci *callerInfo
-	v := evt.Ctx.Value("__caller_info")
+	v := evt.Ctx.Value(callerInfoKey{})
 	if v != nil {
 		ci = v.(*callerInfo)
 	}
@@ -37,7 +40,7 @@ func getCallerInfo(evt *api.Event, needFun bool) *callerInfo {
 		if !ok {
 			ci.file, ci.line = "???", 0
 		}
-		evt.Ctx = context.WithValue(evt.Ctx, "__caller_info", ci)
+		evt.Ctx = context.WithValue(evt.Ctx, callerInfoKey{}, ci)
 	}
 
 	if needFun && ci.pkg == "" {
-- 
2.43.0


From 164325137f29068f0e11e0375575362657b14167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:13 +0000
Subject: [PATCH 24/33] fix: shortfunc of a generic function

---
 internal/format_parser.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/format_parser.go b/internal/format_parser.go
index c259082..1d5bb16 100644
--- a/internal/format_parser.go
+++ b/internal/format_parser.go
@@ -258,8 +258,9 @@ func longfuncFormatFunc(evt *api.Event, _ *part) interface{} {
 // %{shortfunc} Base function name, eg. PutUint32
 func shortfuncFormatFunc(evt *api.Event, _ *part) interface{} {
 	ci := getCallerInfo(evt, true)
-	i := strings.LastIndex(ci.fun, ".")
-	return ci.fun[i+1:]
+	fun := strings.Replace(ci.fun, "[...]", "", -1) // type arguments
+	i := strings.LastIndex(fun, ".")
+	return fun[i+1:]
 }
 
 // %{time} Time when log occurred (time.Time)
-- 
2.43.0


From ece4114158bd055e679d4464fd91fd8ab0f4915a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:57 +0000
Subject: [PATCH 25/33] fix: keep a copy of the configuration, not the
 application's object

SetConfig kept the object it was passed. An application that changed its
configuration object and set it again had the change in force though
SetConfig refused it.
---
 internal/logger_manager.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/internal/logger_manager.go b/internal/logger_manager.go
index d6a2a2e..9f4a3d5 100644
--- a/internal/logger_manager.go
+++ b/internal/logger_manager.go
@@ -145,7 +145,7 @@ func (m *defManager) setConfig(cfg *api.Config) error {
 	}
 
 	m.Lock()
-	m.config = cfg
+	m.config = copyConfig(cfg)
 	m.Unlock()
 	for _, cn := range m.cfgNotifications {
 		cn.notify()
@@ -153,6 +153,31 @@ func (m *defManager) setConfig(cfg *api.Config) error {
 	return nil
 }
 
+// copyConfig returns a copy which shares nothing with the config: what the application
+// does later with the one it passed must have no effect until it is set again
+func copyConfig(cfg *api.Config) *api.Config {
+	c := &api.Config{}
+	for _, f := range cfg.Formats {
+		n := make(api.CfgFormat, len(f))
+		for k, v := range f {
+			n[k] = v
+		}
+		c.Formats = append(c.Formats, n)
+	}
+	for _, o := range cfg.Outputs {
+		n := make(api.CfgOutput, len(o))
+		for k, v := range o {
+			n[k] = v
+		}
+		c.Outputs = append(c.Outputs, n)
+	}
+	for _, l := range cfg.Loggers {
+		l.OutputNames = append([]string(nil), l.OutputNames...)
+		c.Loggers = append(c.Loggers, l)
+	}
+	return c
+}
+
 func (m *defManager) validateConfig(cfg *api.Config) (err error) {
 	// check the output & format relationship in config
 
-- 
2.43.0


From b24a8b40061acc97e6dce279592bfe62fd16a9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:37 +0000
Subject: [PATCH 26/33] fix: a size roll must not replace a link with the name
 of the next backup

The number of a new backup was chosen by the regular files only; the rename
then replaced a symbolic link or pipe of that name, or failed for ever because
of a directory.
---
 internal/output_rollingwriter.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/output_rollingwriter.go b/internal/output_rollingwriter.go
index 8ad3130..924f658 100644
--- a/internal/output_rollingwriter.go
+++ b/internal/output_rollingwriter.go
@@ -465,6 +465,11 @@ func (rw *rollingFileWriter) isArchived(rollname string) bool {
 	return err == nil
 }
 
+func (rw *rollingFileWriter) isTaken(rollname string) bool {
+	_, err := os.Lstat(filepath.Join(rw.currentDirPath, rw.createFullFileName(rw.fileName, rollname)))
+	return err == nil
+}
+
 func (rw *rollingFileWriter) getFileRollName(fileName string) string {
 	switch rw.nameMode {
 	case rollingNameModePostfix:
@@ -638,7 +643,8 @@ func (rws *rollingFileWriterSize) getNewHistoryRollFileName(otherLogFiles []stri
 	}
 	v++
 	// An archived roll keeps its number: another one would overwrite its archive.
-	for rws.isArchived(strconv.Itoa(v)) {
+	// And so does a link or the like which only has the name of a roll.
+	for rws.isArchived(strconv.Itoa(v)) || rws.isTaken(strconv.Itoa(v)) {
 		v++
 	}
 	return fmt.Sprintf("%d", v)
-- 
2.43.0


From 5f429d9e5164d57e3ef123cbfa70a7b8c41bf33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:04 +0000
Subject: [PATCH 27/33] fix: contents missing from a zip archive are not the
 end of it

---
 internal/archive/zip/zip.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/archive/zip/zip.go b/internal/archive/zip/zip.go
index 4210b03..f129212 100644
--- a/internal/archive/zip/zip.go
+++ b/internal/archive/zip/zip.go
@@ -43,6 +43,10 @@ func (r *Reader) NextFile() (name string, err error) {
 	f := r.unread[0]
 	name, r.unread = f.Name, r.unread[1:]
 	r.rc, err = f.Open()
+	if err == io.EOF {
+		// The contents are missing, which is not the end of the archive
+		err = io.ErrUnexpectedEOF
+	}
 	if err != nil {
 		return "", err
 	}
-- 
2.43.0


From 1dfc20ed11d2b96940fa53858ce8e4c39056d40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:28 +0000
Subject: [PATCH 28/33] fix: closing a rolling output must close its file

---
 internal/output_rolling.go       | 10 ++++++++++
 internal/output_rollingwriter.go | 16 +++++++++-------
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/internal/output_rolling.go b/internal/output_rolling.go
index da111b4..26c75c5 100644
--- a/internal/output_rolling.go
+++ b/internal/output_rolling.go
@@ -16,6 +16,15 @@ const (
 
 type rollingOutput struct {
 	api.Output
+	file io.Closer
+}
+
+// Close the output and the file it has open
+func (o *rollingOutput) Close() {
+	o.Output.Close()
+	if err := o.file.Close(); err != nil {
+		reportInternalError(err)
+	}
 }
 
 // NewRollingOutput return a output instance that it print message to stdio
@@ -25,6 +34,7 @@ func NewRollingOutput(cfg api.CfgOutput) (o api.Output, err error) {
 
 	fpath := cfg["file"]
 	rw := newRollingFileWriter(fpath, "")
+	r.file = rw
 
 	rw.archiveType = rollingArchiveNone
 	switch cfg["archive"] {
diff --git a/internal/output_rollingwriter.go b/internal/output_rollingwriter.go
index 924f658..a10be47 100644
--- a/internal/output_rollingwriter.go
+++ b/internal/output_rollingwriter.go
@@ -568,15 +568,17 @@ func (rw *rollingFileWriter) Write(bytes []byte) (n int, err error) {
 	return n, err
 }
 
+// Close closes the current file. It is opened again by the next record.
 func (rw *rollingFileWriter) Close() error {
-	if rw.currentFile != nil {
-		e := rw.currentFile.Close()
-		if e != nil {
-			return e
-		}
-		rw.currentFile = nil
+	rw.rollLock.Lock()
+	defer rw.rollLock.Unlock()
+
+	if rw.currentFile == nil {
+		return nil
 	}
-	return nil
+	err := rw.currentFile.Close()
+	rw.currentFile = nil
+	return err
 }
 
 func (rw *rollingFileWriter) tempArchiveFile(archiveDir string) (*os.File, error) {
-- 
2.43.0


From 27acb0244bb81043361f6b4221735d5d4ff8e19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:28 +0000
Subject: [PATCH 29/33] fix: an archive that cannot get its name must not be
 left behind

---
 internal/output_rollingwriter.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/output_rollingwriter.go b/internal/output_rollingwriter.go
index a10be47..faca440 100644
--- a/internal/output_rollingwriter.go
+++ b/internal/output_rollingwriter.go
@@ -324,6 +324,9 @@ func (rw *rollingFileWriter) archiveExplodedLogs(logFilename string, compression
 		// Finalize archive by swapping the buffered archive into place
 		err = os.Rename(dst.Name(), filepath.Join(rw.archivePath,
 			compressionType.rollingArchiveTypeName(logFilename, true)))
+		if err != nil {
+			os.Remove(dst.Name())
+		}
 	}()
 
 	// archive entry
@@ -362,6 +365,9 @@ func (rw *rollingFileWriter) archiveUnexplodedLogs(compressionType compressionTy
 
 		// Finalize archive by moving the buffered archive into place
 		err = os.Rename(dst.Name(), rw.archivePath)
+		if err != nil {
+			os.Remove(dst.Name())
+		}
 	}()
 
 	w := compressionType.archiver(dst, false)
-- 
2.43.0


From f2a40be528a0685c1171102d996e1485ef323b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:29 +0000
Subject: [PATCH 30/33] fix: a creator that changes its configuration must not
 get called again

The maps given to creators were those of the manager. One that set a default
or renamed itself there made the next lookup see another definition, and
create a second instance of the output or format.
---
 internal/logger_manager.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/logger_manager.go b/internal/logger_manager.go
index 9f4a3d5..2347fee 100644
--- a/internal/logger_manager.go
+++ b/internal/logger_manager.go
@@ -82,7 +82,7 @@ func (m *defManager) GetLoggerOutputs(name string) (ops []api.Output, lvl api.Le
 		fmtkey, fmtdef := "format "+fmtcfg.Name(), fmt.Sprintf("%q", fmtcfg)
 		fmtt, ok := m.formats[fmtcfg.Name()]
 		if !ok || m.definitions[fmtkey] != fmtdef {
-			if fmtt, err = fmtcreator(fmtcfg); err != nil {
+			if fmtt, err = fmtcreator(copyMap(fmtcfg)); err != nil {
 				return
 			}
 			m.formats[fmtcfg.Name()] = fmtt
@@ -98,7 +98,7 @@ func (m *defManager) GetLoggerOutputs(name string) (ops []api.Output, lvl api.Le
 		op, ok := m.outputs[opcfg.Name()]
 		if !ok || m.definitions[opkey] != opdef {
 			old := op
-			if op, err = opcreator(opcfg); err != nil {
+			if op, err = opcreator(copyMap(opcfg)); err != nil {
 				return
 			}
 			if ok {
@@ -178,6 +178,15 @@ func copyConfig(cfg *api.Config) *api.Config {
 	return c
 }
 
+// copyMap returns a copy for a creator, which may change the configuration it is given
+func copyMap(m map[string]string) map[string]string {
+	n := make(map[string]string, len(m))
+	for k, v := range m {
+		n[k] = v
+	}
+	return n
+}
+
 func (m *defManager) validateConfig(cfg *api.Config) (err error) {
 	// check the output & format relationship in config
 
-- 
2.43.0


From 275f8295fae1bdb194be631431fd5f06f6188fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:30 +0000
Subject: [PATCH 31/33] fix: a size too large to count must not roll after
 every record

The product wrapped around: 8589934592G became a negative limit, and
17179869185G one gigabyte.
---
 internal/output_rolling.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/internal/output_rolling.go b/internal/output_rolling.go
index 26c75c5..2371dcf 100644
--- a/internal/output_rolling.go
+++ b/internal/output_rolling.go
@@ -2,6 +2,7 @@ package internal
 
 import (
 	"io"
+	"math"
 	"os"
 	"strconv"
 	"strings"
@@ -89,19 +90,19 @@ func getMaxSize(str string) int64 {
 		if size <= 0 {
 			size = 10 * 1024
 		}
-		return int64(size * 1024)
+		return multiple(size, 1024)
 	} else if strings.HasSuffix(str, "M") {
 		size, _ := strconv.Atoi(strings.TrimSuffix(str, "M"))
 		if size <= 0 {
 			size = 10
 		}
-		return int64(size * 1024 * 1024)
+		return multiple(size, 1024*1024)
 	} else if strings.HasSuffix(str, "G") {
 		size, _ := strconv.Atoi(strings.TrimSuffix(str, "G"))
 		if size <= 0 {
 			size = 1
 		}
-		return int64(size * 1024 * 1024 * 1024)
+		return multiple(size, 1024*1024*1024)
 	}
 
 	size, _ := strconv.Atoi(str)
@@ -111,6 +112,14 @@ func getMaxSize(str string) int64 {
 	return int64(size)
 }
 
+// multiple returns the size in bytes, or the largest there is when it cannot be represented
+func multiple(size int, unit int64) int64 {
+	if int64(size) > math.MaxInt64/unit {
+		return math.MaxInt64
+	}
+	return int64(size) * unit
+}
+
 func getMaxRolls(str string) int {
 	mr, _ := strconv.Atoi(str)
 	if mr <= 0 {
-- 
2.43.0


From 475d3abc008d28994eaa1dfb8bf4be188bedfb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:14 +0000
Subject: [PATCH 32/33] fix: a creator that panics must not cut the root logger
 off from later loads

---
 internal/logger_factory.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/logger_factory.go b/internal/logger_factory.go
index 51056ec..adfae31 100644
--- a/internal/logger_factory.go
+++ b/internal/logger_factory.go
@@ -75,6 +75,7 @@ func (f *factory) getRootLogger() *defLogger {
 	}
 
 	f.root = newLogger(rootLoggerName)
+	f.loggers[rootLoggerName] = f.root
 	if ops, lvl, err := f.manager.GetLoggerOutputs(rootLoggerName); err != nil {
 		f.root.SetLevel(api.Debug)
 		console, _ := NewConsoleOutput(nil)
@@ -85,7 +86,6 @@ func (f *factory) getRootLogger() *defLogger {
 		f.root.SetOutputs(ops)
 	}
 
-	f.loggers[rootLoggerName] = f.root
 	return f.root
 }
 
-- 
2.43.0


From 4c8b1fcce2378c9b483df3da8d278bf0e671e395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:18:03 +0000
Subject: [PATCH 33/33] fix: creating a rolling output must not print its path
 to standard error

---
 internal/output_rollingwriter.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/internal/output_rollingwriter.go b/internal/output_rollingwriter.go
index faca440..4b8062a 100644
--- a/internal/output_rollingwriter.go
+++ b/internal/output_rollingwriter.go
@@ -211,7 +211,6 @@ func newRollingFileWriter(fpath string, apath string) *rollingFileWriter {
 		apath = rw.currentDirPath
 	}
 	rw.archivePath = apath
-	println(rw.archivePath)
 
 	rw.dirPerm = defaultDirectoryPermissions
 	rw.filePerm = defaultFilePermissions
-- 
2.43.0

