From 77b0f9779ea86772f00d8a2276ba1d80a7b4c6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:50 +0000
Subject: [PATCH 01/30] fix: LoadConfig reports parse errors and unsupported
 types instead of installing an empty config

---
 internal/logger_manager.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/logger_manager.go b/internal/logger_manager.go
index ac1dfa4..abf2702 100644
--- a/internal/logger_manager.go
+++ b/internal/logger_manager.go
@@ -121,6 +121,9 @@ func (m *defManager) LoadConfig(bs []byte, ext string) (err error) {
 	} else if ext == "json" {
 		err = json.Unmarshal(bs, cfg)
 	}
+	if err != nil {
+		return err
+	}
 
 	return m.setConfig(cfg)
 }
-- 
2.43.0


From 7b8491151b5567f4d973969fa81c7d089f978ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:50 +0000
Subject: [PATCH 02/30] fix: LoadConfigFile does not panic on a file name
 without extension

---
 internal/logger_manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/logger_manager.go b/internal/logger_manager.go
index abf2702..2a833c9 100644
--- a/internal/logger_manager.go
+++ b/internal/logger_manager.go
@@ -108,7 +108,7 @@ func (m *defManager) LoadConfigFile(file string) error {
 		return err
 	}
 	ext := path.Ext(file)
-	return m.LoadConfig(bs, ext[1:])
+	return m.LoadConfig(bs, strings.TrimPrefix(ext, "."))
 }
 
 func (m *defManager) LoadConfig(bs []byte, ext string) (err error) {
-- 
2.43.0


From ba4e25c6089bb620e87308902f7390be10fc4c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:50 +0000
Subject: [PATCH 03/30] fix: reject duplicate logger names in a config

---
 internal/logger_manager.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/logger_manager.go b/internal/logger_manager.go
index 2a833c9..7e16762 100644
--- a/internal/logger_manager.go
+++ b/internal/logger_manager.go
@@ -173,6 +173,7 @@ func (m *defManager) validateConfig(cfg *api.Config) (err error) {
 			err = fmt.Errorf("duplication logger[%s] config", l.Name)
 			return
 		}
+		loggers[l.Name] = l
 
 		for _, outputName := range l.OutputNames {
 			if _, ok := outputs[outputName]; !ok {
-- 
2.43.0


From 26ca26becdc829be97ee104deba8897912978821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:22 +0000
Subject: [PATCH 04/30] fix: apply the configuration to parent loggers created
 on behalf of a child

---
 internal/logger_factory.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/internal/logger_factory.go b/internal/logger_factory.go
index 0568d7f..bb3cb39 100644
--- a/internal/logger_factory.go
+++ b/internal/logger_factory.go
@@ -31,12 +31,6 @@ func (f *factory) GetLogger(name string) api.Logger {
 	l, ok := f.loggers[name]
 	if !ok {
 		l = f.createLogger(name, f.getParent(name))
-		if ops, lvl, err := f.manager.GetLoggerOutputs(name); err != nil {
-			//log.Println("WARN: ", err)
-		} else {
-			l.SetLevel(lvl)
-			l.SetOutputs(ops)
-		}
 	}
 
 	return l
@@ -57,13 +51,19 @@ func (f *factory) getParent(name string) *defLogger {
 	return parent
 }
 
-// createLogger creates a new logger if not exist.
+// createLogger creates a new logger and applies its configuration if not exist.
 func (f *factory) createLogger(name string, parent *defLogger) *defLogger {
 	l, ok := f.loggers[name]
 	if !ok {
 		l = newLogger(name)
 		l.parent = parent
 		f.loggers[name] = l
+		if ops, lvl, err := f.manager.GetLoggerOutputs(name); err != nil {
+			//log.Println("WARN: ", err)
+		} else {
+			l.SetLevel(lvl)
+			l.SetOutputs(ops)
+		}
 	}
 	return l
 }
-- 
2.43.0


From 67d55c4aab56adc7b4f140ed373887d6088b9101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:23 +0000
Subject: [PATCH 05/30] fix: keep level and context fields of a logger that
 inherits its outputs

---
 internal/logger.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/internal/logger.go b/internal/logger.go
index bea1c2a..f7f20ee 100644
--- a/internal/logger.go
+++ b/internal/logger.go
@@ -159,17 +159,17 @@ func (l *defWriter) Critical(msg ...interface{}) {
 }
 
 func (l *defWriter) Printf(lvl api.Level, fmt string, args ...interface{}) {
-	l.write(l.logger.name, l.logger.callerSkip, lvl, fmt, args...)
-}
-
-func (l *defWriter) write(name string, skip int, lvl api.Level, fmt string, args ...interface{}) {
+	// the level of the logger decides, not those of the ancestors whose outputs it may inherit
 	if !l.logger.LevelEnabled(lvl) {
 		return
 	}
+	l.write(l.ctx, l.logger.name, l.logger.callerSkip, lvl, fmt, args...)
+}
 
+func (l *defWriter) write(ctx context.Context, name string, skip int, lvl api.Level, fmt string, args ...interface{}) {
 	if len(l.logger.outputs) == 0 {
 		if l.logger.parent != nil {
-			l.logger.parent.write(name, skip+1, lvl, fmt, args...)
+			l.logger.parent.write(ctx, name, skip+1, lvl, fmt, args...)
 			return
 		}
 		log.Println("Warnning: not find outputs and parent for logger " + name)
@@ -183,7 +183,7 @@ func (l *defWriter) write(name string, skip int, lvl api.Level, fmt string, args
 		Format:    fmt,
 		Arguments: args,
 		CallDepth: skip,
-		Ctx:       l.ctx,
+		Ctx:       ctx,
 	}
 
 	if l.logger.callerInfoFlag == ciFuncFlag {
-- 
2.43.0


From 2219e5b021168686a74cbfc2de2bae92049ed6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:30 +0000
Subject: [PATCH 06/30] fix: Printf reports its own caller, not the caller's
 caller

---
 internal/logger.go | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/internal/logger.go b/internal/logger.go
index f7f20ee..5ee6cef 100644
--- a/internal/logger.go
+++ b/internal/logger.go
@@ -111,54 +111,59 @@ type defWriter struct {
 }
 
 func (l *defWriter) Tracef(fmt string, args ...interface{}) {
-	l.Printf(api.Trace, fmt, args...)
+	l.printf(api.Trace, fmt, args...)
 }
 
 func (l *defWriter) Trace(msg ...interface{}) {
-	l.Printf(api.Trace, "", msg...)
+	l.printf(api.Trace, "", msg...)
 }
 
 func (l *defWriter) Debugf(fmt string, args ...interface{}) {
-	l.Printf(api.Debug, fmt, args...)
+	l.printf(api.Debug, fmt, args...)
 }
 
 func (l *defWriter) Debug(msg ...interface{}) {
-	l.Printf(api.Debug, "", msg...)
+	l.printf(api.Debug, "", msg...)
 }
 
 func (l *defWriter) Infof(fmt string, args ...interface{}) {
-	l.Printf(api.Info, fmt, args...)
+	l.printf(api.Info, fmt, args...)
 }
 
 func (l *defWriter) Info(msg ...interface{}) {
-	l.Printf(api.Info, "", msg...)
+	l.printf(api.Info, "", msg...)
 }
 
 func (l *defWriter) Warnf(fmt string, args ...interface{}) {
-	l.Printf(api.Warn, fmt, args...)
+	l.printf(api.Warn, fmt, args...)
 }
 
 func (l *defWriter) Warn(msg ...interface{}) {
-	l.Printf(api.Warn, "", msg...)
+	l.printf(api.Warn, "", msg...)
 }
 
 func (l *defWriter) Errorf(fmt string, args ...interface{}) {
-	l.Printf(api.Error, fmt, args...)
+	l.printf(api.Error, fmt, args...)
 }
 
 func (l *defWriter) Error(msg ...interface{}) {
-	l.Printf(api.Error, "", msg...)
+	l.printf(api.Error, "", msg...)
 }
 
 func (l *defWriter) Criticalf(fmt string, args ...interface{}) {
-	l.Printf(api.Critical, fmt, args...)
+	l.printf(api.Critical, fmt, args...)
 }
 
 func (l *defWriter) Critical(msg ...interface{}) {
-	l.Printf(api.Critical, "", msg...)
+	l.printf(api.Critical, "", msg...)
 }
 
 func (l *defWriter) Printf(lvl api.Level, fmt string, args ...interface{}) {
+	l.printf(lvl, fmt, args...)
+}
+
+// printf is called by all exported methods, callerSkip counts its stack frame
+func (l *defWriter) printf(lvl api.Level, fmt string, args ...interface{}) {
 	// the level of the logger decides, not those of the ancestors whose outputs it may inherit
 	if !l.logger.LevelEnabled(lvl) {
 		return
-- 
2.43.0


From b8b5d68f92126953ec8f536a6c0b722ca40acb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:42 +0000
Subject: [PATCH 07/30] fix: honour the K, M and G units of a rolling file size

---
 internal/output_rolling.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/output_rolling.go b/internal/output_rolling.go
index 2616a44..82c8145 100644
--- a/internal/output_rolling.go
+++ b/internal/output_rolling.go
@@ -74,19 +74,19 @@ func NewRollingOutput(cfg api.CfgOutput) (o api.Output, err error) {
 
 func getMaxSize(str string) int64 {
 	if strings.HasSuffix(str, "K") {
-		size, _ := strconv.Atoi(str)
+		size, _ := strconv.ParseInt(strings.TrimSuffix(str, "K"), 10, 32)
 		if size <= 0 {
 			size = 10 * 1024
 		}
 		return int64(size * 1024)
 	} else if strings.HasSuffix(str, "M") {
-		size, _ := strconv.Atoi(str)
+		size, _ := strconv.ParseInt(strings.TrimSuffix(str, "M"), 10, 32)
 		if size <= 0 {
 			size = 10
 		}
 		return int64(size * 1024 * 1024)
 	} else if strings.HasSuffix(str, "G") {
-		size, _ := strconv.Atoi(str)
+		size, _ := strconv.ParseInt(strings.TrimSuffix(str, "G"), 10, 32)
 		if size <= 0 {
 			size = 1
 		}
-- 
2.43.0


From bb15067d5eda1365b94e65413a118e02234ef10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:03 +0000
Subject: [PATCH 08/30] fix: archive the backups of a configured rolling output
 instead of only deleting them

---
 internal/output_rolling.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/output_rolling.go b/internal/output_rolling.go
index 82c8145..90d43e1 100644
--- a/internal/output_rolling.go
+++ b/internal/output_rolling.go
@@ -33,6 +33,8 @@ func NewRollingOutput(cfg api.CfgOutput) (o api.Output, err error) {
 	case "gzip":
 		rw.archiveType = rollingArchiveGzip
 	}
+	// archivePath is a directory, each backup gets an archive file of its own there
+	rw.archiveExploded = true
 
 	rw.maxRolls = getMaxRolls(cfg["backups"])
 	rw.dirPerm = getFileMode(cfg["dir_perm"], defaultDirectoryPermissions)
-- 
2.43.0


From daeafd82eea84f7458c4e87066a2d41a04d28efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:18 +0000
Subject: [PATCH 09/30] fix: do not delete a backup that could not be archived

---
 internal/output_rollingwriter.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/internal/output_rollingwriter.go b/internal/output_rollingwriter.go
index a6e8284..958bf91 100644
--- a/internal/output_rollingwriter.go
+++ b/internal/output_rollingwriter.go
@@ -423,11 +423,18 @@ func (rw *rollingFileWriter) deleteOldRolls(history []string) error {
 
 			// Archive logs
 			for i := 0; i < rollsToDelete; i++ {
-				rw.archiveExplodedLogs(history[i], compressionTypes[rw.archiveType])
+				if err := rw.archiveExplodedLogs(history[i], compressionTypes[rw.archiveType]); err != nil {
+					// keep what is not archived, the next roll tries again
+					reportInternalError(err)
+					rollsToDelete = i
+				}
 			}
 		} else {
 			os.MkdirAll(filepath.Dir(rw.archivePath), rw.dirPerm)
-			rw.archiveUnexplodedLogs(compressionTypes[rw.archiveType], rollsToDelete, history)
+			if err := rw.archiveUnexplodedLogs(compressionTypes[rw.archiveType], rollsToDelete, history); err != nil {
+				reportInternalError(err)
+				rollsToDelete = 0
+			}
 		}
 	}
 
-- 
2.43.0


From 8ee396f9ca0329900a4f4d5cf0c513bbadb5b35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:46 +0000
Subject: [PATCH 10/30] fix: a rolling output keeps logging after a failed roll

---
 internal/output_rollingwriter.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/internal/output_rollingwriter.go b/internal/output_rollingwriter.go
index 958bf91..ff58ea3 100644
--- a/internal/output_rollingwriter.go
+++ b/internal/output_rollingwriter.go
@@ -461,12 +461,14 @@ func (rw *rollingFileWriter) getFileRollName(fileName string) string {
 }
 
 func (rw *rollingFileWriter) roll() error {
-	// First, close current file.
-	err := rw.currentFile.Close()
-	if err != nil {
-		return err
+	// First, close current file, it is not open any more if an earlier roll failed.
+	if rw.currentFile != nil {
+		err := rw.currentFile.Close()
+		rw.currentFile = nil
+		if err != nil {
+			return err
+		}
 	}
-	rw.currentFile = nil
 
 	// Current history of all previous log files.
 	// For file roller it may be like this:
@@ -500,6 +502,7 @@ func (rw *rollingFileWriter) roll() error {
 	if err != nil {
 		return err
 	}
+	rw.currentFileSize = 0
 	os.Chmod(dest, rw.backPerm)
 
 	// Finally, add the newly added history file to the history archive
@@ -522,7 +525,8 @@ func (rw *rollingFileWriter) Write(bytes []byte) (n int, err error) {
 
 	if rw.self.needsToRoll() {
 		if err := rw.roll(); err != nil {
-			return 0, err
+			// go on with the current file and try again on the next write
+			reportInternalError(err)
 		}
 	}
 
-- 
2.43.0


From 1619f866368ce5db196ba7eb655f2279683ce565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:47 +0000
Subject: [PATCH 11/30] fix: rolling by time does not overwrite a backup whose
 name recurs

---
 internal/output_rollingwriter.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/output_rollingwriter.go b/internal/output_rollingwriter.go
index ff58ea3..e9ed14c 100644
--- a/internal/output_rollingwriter.go
+++ b/internal/output_rollingwriter.go
@@ -498,6 +498,10 @@ func (rw *rollingFileWriter) roll() error {
 		rw.self.getNewHistoryRollFileName(history))
 
 	dest := filepath.Join(rw.currentDirPath, newHistoryName)
+	if _, err = os.Lstat(dest); err == nil {
+		// do not overwrite a backup (its name recurs when clocks go back), go on with the current file
+		return nil
+	}
 	err = os.Rename(filepath.Join(rw.currentDirPath, rw.currentName), dest)
 	if err != nil {
 		return err
-- 
2.43.0


From 803c135f290ecb167922ff9df942761084f26145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:04 +0000
Subject: [PATCH 12/30] fix: closing an asynchronous output does not lose
 messages or panic concurrent calls

---
 internal/output_base.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/internal/output_base.go b/internal/output_base.go
index 787a12b..e8c776b 100644
--- a/internal/output_base.go
+++ b/internal/output_base.go
@@ -113,6 +113,7 @@ func NewAsyncOutput(w io.Writer, threshold api.Level, queueSize int, batchNum in
 		batchNum: batchNum,
 	}
 	o.baseOutput = &baseOutput{w: w, t: threshold}
+	o.wait.Add(1)
 	go o.loop()
 	return o
 }
@@ -124,10 +125,13 @@ type asyncOutput struct {
 	currNum  int
 	buf      bytes.Buffer
 	wait     sync.WaitGroup
+	lock     sync.RWMutex // held for reading while sending, for writing while closing
 	closed   int32
 }
 
 func (o *asyncOutput) Send(e *api.Event) {
+	o.lock.RLock()
+	defer o.lock.RUnlock()
 	if atomic.LoadInt32(&o.closed) == flagClosed {
 		return
 	}
@@ -136,13 +140,13 @@ func (o *asyncOutput) Send(e *api.Event) {
 
 func (o *asyncOutput) Close() {
 	// support duplicate call Close method
-	if atomic.LoadInt32(&o.closed) == flagClosed {
-		return
+	o.lock.Lock()
+	first := atomic.SwapInt32(&o.closed, flagClosed) != flagClosed
+	o.lock.Unlock()
+	if first {
+		o.evtChan <- nil
 	}
-	o.evtChan <- nil
 	o.wait.Wait()
-	atomic.StoreInt32(&o.closed, flagClosed)
-	close(o.evtChan)
 }
 
 func (o *asyncOutput) flush() {
@@ -153,7 +157,6 @@ func (o *asyncOutput) flush() {
 }
 
 func (o *asyncOutput) loop() {
-	o.wait.Add(1)
 	defer o.wait.Done()
 
 	tick := time.NewTicker(5 * time.Second)
-- 
2.43.0


From 54fb1cd367b2707481a82dea45c0c152d544b4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:28 +0000
Subject: [PATCH 13/30] fix: an idle asynchronous output does not roll its file

---
 internal/output_base.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/output_base.go b/internal/output_base.go
index e8c776b..b870c62 100644
--- a/internal/output_base.go
+++ b/internal/output_base.go
@@ -151,7 +151,9 @@ func (o *asyncOutput) Close() {
 
 func (o *asyncOutput) flush() {
 	bs := o.buf.Bytes()
-	o.w.Write(bs)
+	if len(bs) > 0 { // an empty write could roll a file
+		o.w.Write(bs)
+	}
 	o.buf.Truncate(0)
 	o.currNum = 0
 }
-- 
2.43.0


From 97ef4dae2b4934b26949d0b91c121637902f4e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:29 +0000
Subject: [PATCH 14/30] fix: the memory output may be used by several
 goroutines

---
 internal/output_memory.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/internal/output_memory.go b/internal/output_memory.go
index 7bcd09e..4b897b9 100644
--- a/internal/output_memory.go
+++ b/internal/output_memory.go
@@ -2,6 +2,7 @@ package internal
 
 import (
 	"bytes"
+	"sync"
 
 	"github.com/xtfly/log4g/api"
 )
@@ -12,16 +13,26 @@ const (
 
 type memoryOutput struct {
 	api.Output
-	buf bytes.Buffer
+	lock sync.Mutex
+	buf  bytes.Buffer
+}
+
+// Write appends to the buffer
+func (o *memoryOutput) Write(bs []byte) (int, error) {
+	o.lock.Lock()
+	defer o.lock.Unlock()
+	return o.buf.Write(bs)
 }
 
 func (o *memoryOutput) String() string {
+	o.lock.Lock()
+	defer o.lock.Unlock()
 	return o.buf.String()
 }
 
 // NewMemoryOutput return a output instance that it print message to buffer
 func NewMemoryOutput(_ api.CfgOutput) (api.Output, error) {
 	r := &memoryOutput{}
-	r.Output = NewBaseOutput(&r.buf, api.All)
+	r.Output = NewBaseOutput(r, api.All)
 	return r, nil
 }
-- 
2.43.0


From 9c989a12de25d414c188db94e3eb2bcb742d6119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:55 +0000
Subject: [PATCH 15/30] fix: a new config replaces formats, outputs and loggers
 of the previous one

---
 internal/logger.go         |  8 ++++++++
 internal/logger_factory.go | 16 +++++++++++++---
 internal/logger_manager.go |  8 ++++++++
 3 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/internal/logger.go b/internal/logger.go
index 5ee6cef..a6f090e 100644
--- a/internal/logger.go
+++ b/internal/logger.go
@@ -20,6 +20,7 @@ type defLogger struct {
 	outputs        []api.Output // 日志的Output列表
 	callerSkip     int          // caller skip depth
 	callerInfoFlag int          //
+	configured     bool         // 日志的级别与Output列表来自配置
 
 	*defWriter
 }
@@ -105,6 +106,13 @@ func (l *defLogger) SetOutputs(outputs []api.Output) {
 	}
 }
 
+// setDefault sets what an unconfigured root logger uses
+func (l *defLogger) setDefault() {
+	l.SetLevel(api.Debug)
+	console, _ := NewConsoleOutput(nil)
+	l.SetOutputs([]api.Output{console})
+}
+
 type defWriter struct {
 	logger *defLogger
 	ctx    context.Context
diff --git a/internal/logger_factory.go b/internal/logger_factory.go
index bb3cb39..6db30cf 100644
--- a/internal/logger_factory.go
+++ b/internal/logger_factory.go
@@ -63,6 +63,7 @@ func (f *factory) createLogger(name string, parent *defLogger) *defLogger {
 		} else {
 			l.SetLevel(lvl)
 			l.SetOutputs(ops)
+			l.configured = true
 		}
 	}
 	return l
@@ -75,12 +76,11 @@ func (f *factory) getRootLogger() *defLogger {
 
 	f.root = newLogger(rootLoggerName)
 	if ops, lvl, err := f.manager.GetLoggerOutputs(rootLoggerName); err != nil {
-		f.root.SetLevel(api.Debug)
-		console, _ := NewConsoleOutput(nil)
-		f.root.SetOutputs([]api.Output{console})
+		f.root.setDefault()
 	} else {
 		f.root.SetLevel(lvl)
 		f.root.SetOutputs(ops)
+		f.root.configured = true
 	}
 
 	f.loggers[rootLoggerName] = f.root
@@ -93,9 +93,19 @@ func (f *factory) notify() {
 	for _, k := range f.loggers {
 		if ops, lvl, err := f.manager.GetLoggerOutputs(k.name); err != nil {
 			//log.Println("WARN: ", err)
+			if k.configured {
+				// no longer configured: inherit from the parent again
+				k.SetLevel(api.Uninitialized)
+				k.SetOutputs(nil)
+				k.configured = false
+				if k == f.root {
+					k.setDefault()
+				}
+			}
 		} else {
 			k.SetLevel(lvl)
 			k.SetOutputs(ops)
+			k.configured = true
 		}
 	}
 }
diff --git a/internal/logger_manager.go b/internal/logger_manager.go
index 7e16762..2476d26 100644
--- a/internal/logger_manager.go
+++ b/internal/logger_manager.go
@@ -135,10 +135,18 @@ func (m *defManager) setConfig(cfg *api.Config) error {
 
 	m.Lock()
 	m.config = cfg
+	// formatters and outputs belong to the config they were built from
+	outputs := m.outputs
+	m.formats = make(map[string]api.Formatter)
+	m.outputs = make(map[string]api.Output)
 	m.Unlock()
 	for _, cn := range m.cfgNotifications {
 		cn.notify()
 	}
+	// no logger uses the previous outputs any more
+	for _, v := range outputs {
+		v.Close()
+	}
 	return nil
 }
 
-- 
2.43.0


From 61a7061836e2a2ac2f977cc4fcc9b03a4936d799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:07 +0000
Subject: [PATCH 16/30] fix: logger settings may change while other goroutines
 log

---
 internal/logger.go | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/internal/logger.go b/internal/logger.go
index a6f090e..2929caa 100644
--- a/internal/logger.go
+++ b/internal/logger.go
@@ -3,6 +3,7 @@ package internal
 import (
 	"context"
 	"log"
+	"sync"
 	"time"
 
 	"github.com/xtfly/log4g/api"
@@ -21,6 +22,7 @@ type defLogger struct {
 	callerSkip     int          // caller skip depth
 	callerInfoFlag int          //
 	configured     bool         // 日志的级别与Output列表来自配置
+	lock           sync.RWMutex // 保护level, outputs, callerSkip与callerInfoFlag
 
 	*defWriter
 }
@@ -79,14 +81,19 @@ func (l *defLogger) LevelEnabled(lvl api.Level) bool {
 }
 
 func (l *defLogger) SetLevel(lvl api.Level) {
+	l.lock.Lock()
 	l.level = lvl
+	l.lock.Unlock()
 }
 
 func (l *defLogger) Level() api.Level {
 	cl := l
 	for cl != nil {
-		if cl.level != api.Uninitialized {
-			return cl.level
+		cl.lock.RLock()
+		lvl := cl.level
+		cl.lock.RUnlock()
+		if lvl != api.Uninitialized {
+			return lvl
 		}
 		cl = cl.parent
 	}
@@ -94,10 +101,14 @@ func (l *defLogger) Level() api.Level {
 }
 
 func (l *defLogger) SetCallerSkip(skip int) {
+	l.lock.Lock()
 	l.callerSkip = callerSkip + skip
+	l.lock.Unlock()
 }
 
 func (l *defLogger) SetOutputs(outputs []api.Output) {
+	l.lock.Lock()
+	defer l.lock.Unlock()
 	l.outputs = outputs
 	for _, op := range outputs {
 		if l.callerInfoFlag < op.CallerInfoFlag() {
@@ -176,11 +187,17 @@ func (l *defWriter) printf(lvl api.Level, fmt string, args ...interface{}) {
 	if !l.logger.LevelEnabled(lvl) {
 		return
 	}
-	l.write(l.ctx, l.logger.name, l.logger.callerSkip, lvl, fmt, args...)
+	l.logger.lock.RLock()
+	skip := l.logger.callerSkip
+	l.logger.lock.RUnlock()
+	l.write(l.ctx, l.logger.name, skip, lvl, fmt, args...)
 }
 
 func (l *defWriter) write(ctx context.Context, name string, skip int, lvl api.Level, fmt string, args ...interface{}) {
-	if len(l.logger.outputs) == 0 {
+	l.logger.lock.RLock()
+	outputs, callerInfoFlag := l.logger.outputs, l.logger.callerInfoFlag
+	l.logger.lock.RUnlock()
+	if len(outputs) == 0 {
 		if l.logger.parent != nil {
 			l.logger.parent.write(ctx, name, skip+1, lvl, fmt, args...)
 			return
@@ -199,14 +216,14 @@ func (l *defWriter) write(ctx context.Context, name string, skip int, lvl api.Le
 		Ctx:       ctx,
 	}
 
-	if l.logger.callerInfoFlag == ciFuncFlag {
+	if callerInfoFlag == ciFuncFlag {
 		getCallerInfo(evt, true)
-	} else if l.logger.callerInfoFlag == ciFileFlag {
+	} else if callerInfoFlag == ciFileFlag {
 		getCallerInfo(evt, false)
 	}
 
 	// dispatch event to all outputs
-	for _, v := range l.logger.outputs {
+	for _, v := range outputs {
 		v.Send(evt)
 	}
 }
-- 
2.43.0


From e122f2c05075efec479b6ccb96ac22fb8efdf97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:58 +0000
Subject: [PATCH 17/30] fix: an asynchronous output formats a message when it
 is logged

The arguments may change after the logging call returned; formatting them
later gave wrong texts, and crashed the process if one was a map in use.
---
 internal/output_base.go | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/internal/output_base.go b/internal/output_base.go
index b870c62..404ea8f 100644
--- a/internal/output_base.go
+++ b/internal/output_base.go
@@ -109,7 +109,7 @@ func GetThresholdLvl(str string) api.Level {
 // NewAsyncOutput ...
 func NewAsyncOutput(w io.Writer, threshold api.Level, queueSize int, batchNum int) api.Output {
 	o := &asyncOutput{
-		evtChan:  make(chan *api.Event, queueSize),
+		msgChan:  make(chan []byte, queueSize),
 		batchNum: batchNum,
 	}
 	o.baseOutput = &baseOutput{w: w, t: threshold}
@@ -120,7 +120,7 @@ func NewAsyncOutput(w io.Writer, threshold api.Level, queueSize int, batchNum in
 
 type asyncOutput struct {
 	*baseOutput
-	evtChan  chan *api.Event
+	msgChan  chan []byte // formatted messages
 	batchNum int
 	currNum  int
 	buf      bytes.Buffer
@@ -130,12 +130,18 @@ type asyncOutput struct {
 }
 
 func (o *asyncOutput) Send(e *api.Event) {
+	if e.Level < o.t {
+		return
+	}
+	// format here, the caller may change the arguments after its logging call
+	bs := o.f.Format(e)
+
 	o.lock.RLock()
 	defer o.lock.RUnlock()
 	if atomic.LoadInt32(&o.closed) == flagClosed {
 		return
 	}
-	o.evtChan <- e
+	o.msgChan <- bs
 }
 
 func (o *asyncOutput) Close() {
@@ -144,7 +150,7 @@ func (o *asyncOutput) Close() {
 	first := atomic.SwapInt32(&o.closed, flagClosed) != flagClosed
 	o.lock.Unlock()
 	if first {
-		o.evtChan <- nil
+		close(o.msgChan)
 	}
 	o.wait.Wait()
 }
@@ -168,18 +174,16 @@ func (o *asyncOutput) loop() {
 		select {
 		case <-tick.C:
 			o.flush()
-		case evt := <-o.evtChan:
-			if evt == nil {
+		case bs, ok := <-o.msgChan:
+			if !ok {
 				o.flush()
 				return
 			}
 
-			if evt.Level >= o.t {
-				o.buf.Write(o.f.Format(evt))
-				o.currNum++
-				if o.currNum >= o.batchNum {
-					o.flush()
-				}
+			o.buf.Write(bs)
+			o.currNum++
+			if o.currNum >= o.batchNum {
+				o.flush()
 			}
 		}
 	}
-- 
2.43.0


From 70b4fa1056b205621539fba0440c962904d265bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:20 +0000
Subject: [PATCH 18/30] fix: rolling overwrites neither an archive nor a backup
 it cannot check

---
 internal/output_rollingwriter.go | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/internal/output_rollingwriter.go b/internal/output_rollingwriter.go
index e9ed14c..15e8a5f 100644
--- a/internal/output_rollingwriter.go
+++ b/internal/output_rollingwriter.go
@@ -460,6 +460,23 @@ func (rw *rollingFileWriter) getFileRollName(fileName string) string {
 	return ""
 }
 
+// isTaken returns true if there is a backup of that name, or an archive of it.
+func (rw *rollingFileWriter) isTaken(backup string) (bool, error) {
+	names := []string{filepath.Join(rw.currentDirPath, backup)}
+	if rw.archiveType != rollingArchiveNone && rw.archiveExploded {
+		ct := compressionTypes[rw.archiveType]
+		names = append(names, filepath.Join(rw.archivePath, ct.rollingArchiveTypeName(backup, true)))
+	}
+	for _, name := range names {
+		if _, err := os.Lstat(name); err == nil {
+			return true, nil
+		} else if !os.IsNotExist(err) {
+			return false, err
+		}
+	}
+	return false, nil
+}
+
 func (rw *rollingFileWriter) roll() error {
 	// First, close current file, it is not open any more if an earlier roll failed.
 	if rw.currentFile != nil {
@@ -498,9 +515,9 @@ func (rw *rollingFileWriter) roll() error {
 		rw.self.getNewHistoryRollFileName(history))
 
 	dest := filepath.Join(rw.currentDirPath, newHistoryName)
-	if _, err = os.Lstat(dest); err == nil {
+	if taken, err := rw.isTaken(newHistoryName); taken || err != nil {
 		// do not overwrite a backup (its name recurs when clocks go back), go on with the current file
-		return nil
+		return err
 	}
 	err = os.Rename(filepath.Join(rw.currentDirPath, rw.currentName), dest)
 	if err != nil {
@@ -619,7 +636,13 @@ func (rws *rollingFileWriterSize) getNewHistoryRollFileName(otherLogFiles []stri
 		latest := otherLogFiles[len(otherLogFiles)-1]
 		v, _ = strconv.Atoi(rws.getFileRollName(latest))
 	}
-	return fmt.Sprintf("%d", v+1)
+	for v++; ; v++ {
+		name := strconv.Itoa(v)
+		// an archive may have a number that no backup has
+		if taken, _ := rws.isTaken(rws.createFullFileName(rws.fileName, name)); !taken {
+			return name
+		}
+	}
 }
 
 func (rws *rollingFileWriterSize) getCurrentFileName() string {
-- 
2.43.0


From 81376b81eee411ce7704562af8ff82129f72328e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:45 +0000
Subject: [PATCH 19/30] fix: reading a damaged zip archive does not end early
 without an error

---
 internal/archive/zip/zip.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/archive/zip/zip.go b/internal/archive/zip/zip.go
index 4210b03..d9b27fd 100644
--- a/internal/archive/zip/zip.go
+++ b/internal/archive/zip/zip.go
@@ -43,6 +43,10 @@ func (r *Reader) NextFile() (name string, err error) {
 	f := r.unread[0]
 	name, r.unread = f.Name, r.unread[1:]
 	r.rc, err = f.Open()
+	if err == io.EOF {
+		// The file's header lies beyond the end of the archive
+		err = io.ErrUnexpectedEOF
+	}
 	if err != nil {
 		return "", err
 	}
-- 
2.43.0


From 24fdecf24c053fd6fab8cad5f607cbb8feabb769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:46 +0000
Subject: [PATCH 20/30] fix: copying a second gzip file into a gzip archive is
 refused

---
 internal/archive/archive.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/internal/archive/archive.go b/internal/archive/archive.go
index 2ec2fd4..6685ba9 100644
--- a/internal/archive/archive.go
+++ b/internal/archive/archive.go
@@ -65,8 +65,7 @@ func Copy(dst Writer, src Reader) error {
 	// Switch on concrete type because gzip has no special methods
 	case *gzip.Reader:
 		if dst, ok := dst.(*gzip.Writer); ok {
-			_, err := io.Copy(dst, src)
-			return err
+			return copyGzip(dst, src)
 		}
 	}
 
@@ -128,6 +127,24 @@ func copyBuffer(dst Writer, src Reader) (err error) {
 	}
 }
 
+// copyGzip streams the one file of src into dst, which accepts only one file.
+func copyGzip(dst *gzip.Writer, src *gzip.Reader) error {
+	name, err := src.NextFile()
+	switch err {
+	case io.EOF: // Done copying
+		return nil
+	default:
+		return err
+	case nil: // Proceed below
+	}
+
+	if err := dst.NextFile(name, nil); err != nil {
+		return err
+	}
+	_, err = io.Copy(dst, src)
+	return err
+}
+
 type tarReader interface {
 	Next() (*tar.Header, error)
 	io.Reader
-- 
2.43.0


From fc70cc16159d90ba693fb3a42fbc37abfe88170d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:27 +0000
Subject: [PATCH 21/30] fix: every SIGINT or SIGTERM flushes, not only the
 first

Outputs of a configuration installed after the first signal were not
flushed by a later one.
---
 internal/log4g.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/log4g.go b/internal/log4g.go
index 9760f25..b18678f 100644
--- a/internal/log4g.go
+++ b/internal/log4g.go
@@ -39,8 +39,9 @@ func init() {
 	listenSig := make(chan os.Signal, 1)
 	signal.Notify(listenSig, os.Interrupt, syscall.SIGTERM)
 	go func() {
-		<-listenSig
-		gmanager.Close()
+		for range listenSig {
+			gmanager.Close()
+		}
 	}()
 }
 
-- 
2.43.0


From ea78f832fa9bab987144c6d2ec415dea3d1917c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:52 +0000
Subject: [PATCH 22/30] fix: %{shortfunc} renders ] for a generic function

---
 internal/format_parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/format_parser.go b/internal/format_parser.go
index c259082..bcb3888 100644
--- a/internal/format_parser.go
+++ b/internal/format_parser.go
@@ -258,7 +258,8 @@ func longfuncFormatFunc(evt *api.Event, _ *part) interface{} {
 // %{shortfunc} Base function name, eg. PutUint32
 func shortfuncFormatFunc(evt *api.Event, _ *part) interface{} {
 	ci := getCallerInfo(evt, true)
-	i := strings.LastIndex(ci.fun, ".")
+	// the runtime calls a generic function name[...]
+	i := strings.LastIndex(strings.TrimSuffix(ci.fun, "[...]"), ".")
 	return ci.fun[i+1:]
 }
 
-- 
2.43.0


From 806345dc0dca44eeedaaab4aef88a9fd8e2728da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:23 +0000
Subject: [PATCH 23/30] fix: Close returns while SetConfig is still closing the
 previous outputs

---
 internal/logger_manager.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/logger_manager.go b/internal/logger_manager.go
index 2476d26..8b861ce 100644
--- a/internal/logger_manager.go
+++ b/internal/logger_manager.go
@@ -26,6 +26,7 @@ type defManager struct {
 	outputs           map[string]api.Output               // key: name
 	config            *api.Config
 	cfgNotifications  []configNotification
+	closeLock         sync.Mutex // held while a config replaces another or outputs are closed
 }
 
 func newManager() api.Manager {
@@ -133,6 +134,9 @@ func (m *defManager) setConfig(cfg *api.Config) error {
 		return err
 	}
 
+	m.closeLock.Lock()
+	defer m.closeLock.Unlock()
+
 	m.Lock()
 	m.config = cfg
 	// formatters and outputs belong to the config they were built from
@@ -199,6 +203,9 @@ func (m *defManager) SetConfig(cfg *api.Config) error {
 }
 
 func (m *defManager) Close() {
+	m.closeLock.Lock()
+	defer m.closeLock.Unlock()
+
 	m.Lock()
 	for _, v := range m.outputs {
 		v.Close()
-- 
2.43.0


From 1a314d2872ba1bf5d20e969be818aff9153b2d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:39 +0000
Subject: [PATCH 24/30] fix: SetOutputs keeps a copy of the caller's slice

A logger's outputs changed when the application reused the slice it had
passed, for the outputs of another logger for instance.
---
 internal/logger.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/logger.go b/internal/logger.go
index 2929caa..1f37b06 100644
--- a/internal/logger.go
+++ b/internal/logger.go
@@ -109,7 +109,7 @@ func (l *defLogger) SetCallerSkip(skip int) {
 func (l *defLogger) SetOutputs(outputs []api.Output) {
 	l.lock.Lock()
 	defer l.lock.Unlock()
-	l.outputs = outputs
+	l.outputs = append([]api.Output(nil), outputs...) // the caller may go on using its slice
 	for _, op := range outputs {
 		if l.callerInfoFlag < op.CallerInfoFlag() {
 			l.callerInfoFlag = op.CallerInfoFlag()
-- 
2.43.0


From 4a3191cd69ec128bd0711ae77a236e5982c09c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:09 +0000
Subject: [PATCH 25/30] fix: SetConfig keeps a copy of the config, and refuses
 nil

An application that went on changing the value it had passed changed the
configuration in force, even when SetConfig refused the changed value.
---
 internal/logger_manager.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/internal/logger_manager.go b/internal/logger_manager.go
index 8b861ce..d3917df 100644
--- a/internal/logger_manager.go
+++ b/internal/logger_manager.go
@@ -199,7 +199,33 @@ func (m *defManager) validateConfig(cfg *api.Config) (err error) {
 }
 
 func (m *defManager) SetConfig(cfg *api.Config) error {
-	return m.setConfig(cfg)
+	if cfg == nil {
+		return fmt.Errorf("no config")
+	}
+	return m.setConfig(cloneConfig(cfg))
+}
+
+// cloneConfig returns a copy, the caller may go on changing its config.
+func cloneConfig(cfg *api.Config) *api.Config {
+	cloneMap := func(m map[string]string) map[string]string {
+		r := make(map[string]string, len(m))
+		for k, v := range m {
+			r[k] = v
+		}
+		return r
+	}
+	c := &api.Config{}
+	for _, f := range cfg.Formats {
+		c.Formats = append(c.Formats, cloneMap(f))
+	}
+	for _, o := range cfg.Outputs {
+		c.Outputs = append(c.Outputs, cloneMap(o))
+	}
+	for _, l := range cfg.Loggers {
+		l.OutputNames = append([]string(nil), l.OutputNames...)
+		c.Loggers = append(c.Loggers, l)
+	}
+	return c
 }
 
 func (m *defManager) Close() {
-- 
2.43.0


From a5a847350ebbecd7e6318540eaae57b7ba4b3f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:43 +0000
Subject: [PATCH 26/30] fix: remove the temporary archive when it cannot be
 moved into place

---
 internal/output_rollingwriter.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/output_rollingwriter.go b/internal/output_rollingwriter.go
index 15e8a5f..e0f6e91 100644
--- a/internal/output_rollingwriter.go
+++ b/internal/output_rollingwriter.go
@@ -321,6 +321,9 @@ func (rw *rollingFileWriter) archiveExplodedLogs(logFilename string, compression
 		// Finalize archive by swapping the buffered archive into place
 		err = os.Rename(dst.Name(), filepath.Join(rw.archivePath,
 			compressionType.rollingArchiveTypeName(logFilename, true)))
+		if err != nil {
+			os.Remove(dst.Name())
+		}
 	}()
 
 	// archive entry
-- 
2.43.0


From 1fb1697f23c2855b6f0eb1e3b32333e6d4d0a618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:09 +0000
Subject: [PATCH 27/30] fix: closing a rolling output closes its file

---
 internal/output_rolling.go       | 10 +++++++++-
 internal/output_rollingwriter.go | 16 +++++++++-------
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/internal/output_rolling.go b/internal/output_rolling.go
index 90d43e1..5efe9ec 100644
--- a/internal/output_rolling.go
+++ b/internal/output_rolling.go
@@ -16,6 +16,13 @@ const (
 
 type rollingOutput struct {
 	api.Output
+	w io.WriteCloser
+}
+
+// Close the current file related to this output
+func (r *rollingOutput) Close() {
+	r.Output.Close()
+	r.w.Close()
 }
 
 // NewRollingOutput return a output instance that it print message to stdio
@@ -49,7 +56,7 @@ func NewRollingOutput(cfg api.CfgOutput) (o api.Output, err error) {
 		rw.nameMode = rollingNameModePostfix
 	}
 
-	var w io.Writer
+	var w io.WriteCloser
 	switch cfg.Type() {
 	case typeRollingSize:
 		maxSize := getMaxSize(cfg["size"])
@@ -65,6 +72,7 @@ func NewRollingOutput(cfg api.CfgOutput) (o api.Output, err error) {
 		panic("not support type " + cfg.Type())
 	}
 
+	r.w = w
 	if cfg["async"] == "true" {
 		r.Output = NewAsyncOutput(w, GetThresholdLvl(cfg["threshold"]),
 			GetQueueSize(cfg["queue_size"]), GetBatchNum(cfg["batch_num"]))
diff --git a/internal/output_rollingwriter.go b/internal/output_rollingwriter.go
index e0f6e91..f830e61 100644
--- a/internal/output_rollingwriter.go
+++ b/internal/output_rollingwriter.go
@@ -567,14 +567,16 @@ func (rw *rollingFileWriter) Write(bytes []byte) (n int, err error) {
 }
 
 func (rw *rollingFileWriter) Close() error {
-	if rw.currentFile != nil {
-		e := rw.currentFile.Close()
-		if e != nil {
-			return e
-		}
-		rw.currentFile = nil
+	rw.rollLock.Lock()
+	defer rw.rollLock.Unlock()
+
+	if rw.currentFile == nil {
+		return nil
 	}
-	return nil
+	// it is closed even if there is an error, the next write opens it again
+	err := rw.currentFile.Close()
+	rw.currentFile = nil
+	return err
 }
 
 func (rw *rollingFileWriter) tempArchiveFile(archiveDir string) (*os.File, error) {
-- 
2.43.0


From d066184c09a460e5463b09cc333f8eef326fbe92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:09 +0000
Subject: [PATCH 28/30] fix: a field named __caller_info made logging panic

---
 internal/logger_callerinfo.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/logger_callerinfo.go b/internal/logger_callerinfo.go
index d20ff85..4c2f69e 100644
--- a/internal/logger_callerinfo.go
+++ b/internal/logger_callerinfo.go
@@ -22,9 +22,13 @@ type callerInfo struct {
 	pc   uintptr
 }
 
+// callerInfoKey is the context key of the callerInfo, a type of its own as names
+// of fields are strings
+type callerInfoKey struct{}
+
 func getCallerInfo(evt *api.Event, needFun bool) *callerInfo {
 	var ci *callerInfo
-	v := evt.Ctx.Value("__caller_info")
+	v := evt.Ctx.Value(callerInfoKey{})
 	if v != nil {
 		ci = v.(*callerInfo)
 	}
@@ -36,7 +40,7 @@ func getCallerInfo(evt *api.Event, needFun bool) *callerInfo {
 		if !ok {
 			ci.file, ci.line = "???", 0
 		}
-		evt.Ctx = context.WithValue(evt.Ctx, "__caller_info", ci)
+		evt.Ctx = context.WithValue(evt.Ctx, callerInfoKey{}, ci)
 	}
 
 	if needFun && ci.pkg == "" {
-- 
2.43.0


From 5481b1b417914ad084ab9a47b634b97c5db020fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:36 +0000
Subject: [PATCH 29/30] fix: a time roll that finds no directory is not made up
 for on the next file

When the directory of a time-rolling file had been removed, the roll at the
next change of period failed before its label was advanced; the message after
it then rolled the new file, named by the old period.
---
 internal/output_rollingwriter.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/output_rollingwriter.go b/internal/output_rollingwriter.go
index f830e61..1d9f202 100644
--- a/internal/output_rollingwriter.go
+++ b/internal/output_rollingwriter.go
@@ -505,6 +505,10 @@ func (rw *rollingFileWriter) roll() error {
 	// Sorted log history does NOT include current file.
 	history, err := rw.getSortedLogHistory()
 	if err != nil {
+		if _, serr := os.Lstat(filepath.Join(rw.currentDirPath, rw.currentName)); os.IsNotExist(serr) {
+			// there is nothing to roll, and the next file is not to get the old name
+			rw.self.getNewHistoryRollFileName(nil)
+		}
 		return err
 	}
 	// Renames current file to create a new roll history entry
-- 
2.43.0


From 1ec731b3cce2d94ff08880a43f057f2c9d020af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:25:34 +0000
Subject: [PATCH 30/30] fix: a writer with a nil context made logging panic

---
 internal/logger.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/logger.go b/internal/logger.go
index 1f37b06..f160d0d 100644
--- a/internal/logger.go
+++ b/internal/logger.go
@@ -49,6 +49,9 @@ func (l *defLogger) WithFields(fields ...api.Field) api.Writer {
 }
 
 func (l *defLogger) WithCtx(ctx context.Context) api.Writer {
+	if ctx == nil {
+		ctx = context.Background()
+	}
 	return &defWriter{logger: l, ctx: ctx}
 }
 
-- 
2.43.0

