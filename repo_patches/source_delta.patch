From 850e46c8b9fb2a7f8880697d7730ebf414107c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:39 +0000
Subject: [PATCH 01/31] Config.h: guarded hook to size the staging/output
 buffers for verification

---
 runtime/Config.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/runtime/Config.h b/runtime/Config.h
index 3ee6d87..43e7d76 100644
--- a/runtime/Config.h
+++ b/runtime/Config.h
@@ -33,12 +33,22 @@ namespace NanoLogConfig {
     // Determines the byte size of the per-thread StagingBuffer that decouples
     // the producer logging thread from the consumer background compression
     // thread. This value should be large enough to handle bursts of activity.
+#ifdef NANOLOG_VERIF_STAGING_BUFFER_SIZE
+    // Verification hook: lets test harnesses reach full/wrapping buffers cheaply
+    static const uint32_t STAGING_BUFFER_SIZE = NANOLOG_VERIF_STAGING_BUFFER_SIZE;
+#else
     static const uint32_t STAGING_BUFFER_SIZE = 1<<20;
+#endif
 
     // Determines the size of the output buffer used to store compressed log
     // messages. It should be at least 8MB large to amortize disk seeks and
     // shall not be smaller than STAGING_BUFFER_SIZE.
+#ifdef NANOLOG_VERIF_OUTPUT_BUFFER_SIZE
+    // Verification hook: see STAGING_BUFFER_SIZE
+    static const uint32_t OUTPUT_BUFFER_SIZE = NANOLOG_VERIF_OUTPUT_BUFFER_SIZE;
+#else
     static const uint32_t OUTPUT_BUFFER_SIZE = 1<<26;
+#endif
 
     // This invariant must be true so that we can output at least one full
     // StagingBuffer per output buffer.
-- 
2.43.0


From 5e82b179178dc1b7518162bf46717aac0eb49863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:53 +0000
Subject: [PATCH 02/31] fix: sync() could return early on a spurious wake-up

---
 runtime/RuntimeLogger.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/runtime/RuntimeLogger.cc b/runtime/RuntimeLogger.cc
index 56b7c0f..be4e92d 100644
--- a/runtime/RuntimeLogger.cc
+++ b/runtime/RuntimeLogger.cc
@@ -725,7 +725,10 @@ RuntimeLogger::sync() {
     std::unique_lock<std::mutex> lock(nanoLogSingleton.condMutex);
     nanoLogSingleton.syncStatus = SYNC_REQUESTED;
     nanoLogSingleton.workAdded.notify_all();
-    nanoLogSingleton.hintSyncCompleted.wait(lock);
+
+    // Waits may end spuriously; only return once the request was completed.
+    while (nanoLogSingleton.syncStatus != SYNC_COMPLETED)
+        nanoLogSingleton.hintSyncCompleted.wait(lock);
 }
 
 /**
-- 
2.43.0


From c6ea204e120da8a1e2e27f2cf1beb33d328f86b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:07 +0000
Subject: [PATCH 03/31] fix: sync() and shutdown could skip live staging
 buffers after a deletion

---
 runtime/RuntimeLogger.cc | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/runtime/RuntimeLogger.cc b/runtime/RuntimeLogger.cc
index be4e92d..feb8926 100644
--- a/runtime/RuntimeLogger.cc
+++ b/runtime/RuntimeLogger.cc
@@ -484,12 +484,22 @@ RuntimeLogger::compressionThreadMain() {
                             break;
                         }
 
+                        // If this was the buffer the pass started from, start
+                        // over from the next one; otherwise the pass would
+                        // end without having checked every other buffer.
+                        if (i == lastStagingBufferChecked) {
+                            if (i == threadBuffers.size()) {
+                                i = 0;
+                                wrapAround = true;
+                            }
+                            lastStagingBufferChecked = i;
+                            continue;
+                        }
+
                         // Back up the indexes so that we ensure we wont skip
-                        // a buffer in our pass (and it's okay to redo one)
-                        if (lastStagingBufferChecked >= i &&
-                            lastStagingBufferChecked > 0) {
+                        // a buffer in our pass
+                        if (lastStagingBufferChecked > i)
                             --lastStagingBufferChecked;
-                        }
                         --i;
                     }
                 }
-- 
2.43.0


From 23a665aac1f855bcb7b5ed0c306b0cc174919fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:14 +0000
Subject: [PATCH 04/31] fix: ordered decompression lost or misordered messages
 around empty extents, checkpoints and truncation

---
 runtime/Log.cc | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/runtime/Log.cc b/runtime/Log.cc
index d941041..90e7481 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -1856,8 +1856,15 @@ Log::Decoder::decompressTo(FILE* outputFd)
                     good = bf->readBufferExtent(inputFd, &newStage);
                     ++numBufferFragmentsRead;
 
-                    if (good)
+                    if (good && bf->hasNext()) {
                         stages[stagesBuffered].push_back(bf);
+                    } else {
+                        // Nothing to output. An empty extent also does not end
+                        // a stage since its wrap around will be repeated in
+                        // the extent that carries the log messages.
+                        freeBufferFragment(bf);
+                        newStage = false;
+                    }
 
                     break;
                 }
@@ -1865,11 +1872,14 @@ Log::Decoder::decompressTo(FILE* outputFd)
                     // New logical start to the logs detected, at this point
                     // we should make sure we've printed all the buffered logs
                     // before continuing to parse the next logical start.
-                    if (!stages[0].empty()) {
-                        mustDepleteAllStages = true;
-                        break;
+                    for (auto &stage : stages) {
+                        if (!stage.empty())
+                            mustDepleteAllStages = true;
                     }
 
+                    if (mustDepleteAllStages)
+                        break;
+
                     // We're safe, all the stages are empty
                     good = readDictionary(inputFd, true);
 
@@ -1889,13 +1899,13 @@ Log::Decoder::decompressTo(FILE* outputFd)
                     break;
             }
 
-            if (feof(inputFd))
+            if (feof(inputFd) || !good)
                 mustDepleteAllStages = true;
 
             // If we reach a logical end to the current stage,
             // make the current stage available for consumption
-            bool needFlush = (mustDepleteAllStages || !good);
-            if (newStage || (needFlush && !stages[stagesBuffered].empty()))
+            if (newStage ||
+                (mustDepleteAllStages && !stages[stagesBuffered].empty()))
                 ++stagesBuffered;
 
             if (stagesBuffered == stagesToBuffer)
@@ -1951,12 +1961,16 @@ Log::Decoder::decompressTo(FILE* outputFd)
 
             // Step 3c: Check for exit condition
             if (stages[0].empty()) {
-                for (uint32_t i = 0; i < stagesBuffered - 1; ++i) {
-                    stages[i] = stages[i+1];
+                // Drop all the leading stages that have been depleted
+                while (stagesBuffered > 0 && stages[0].empty()) {
+                    for (uint32_t i = 0; i < stagesBuffered - 1; ++i) {
+                        stages[i] = stages[i+1];
+                    }
+                    stages[stagesBuffered - 1].clear();
+
+                    --stagesBuffered;
                 }
-                stages[stagesBuffered - 1].clear();
 
-                --stagesBuffered;
                 if (!mustDepleteAllStages)
                     break;
             }
-- 
2.43.0


From 6cde6ea3906551c7455de11a4da430d2286b39b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:33 +0000
Subject: [PATCH 05/31] fix: wide-character strings were decoded from unaligned
 memory

---
 runtime/Log.cc | 52 +++++++++++++++++---------------------------------
 runtime/Log.h  |  8 ++++++++
 2 files changed, 26 insertions(+), 34 deletions(-)

diff --git a/runtime/Log.cc b/runtime/Log.cc
index 90e7481..d643c90 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -1161,6 +1161,7 @@ Log::Decoder::BufferFragment::BufferFragment()
     , hasMoreLogs(false)
     , nextLogId(-1)
     , nextLogTimestamp(0)
+    , wideStrings()
 {
 }
 
@@ -1410,6 +1411,7 @@ Log::Decoder::BufferFragment::decompressNextLogStatement(FILE *outputFd,
         const char *logLevel = logLevelNames[metadata->logLevel];
 
         logArgs.reset(metadata, nextLogId, nextLogTimestamp);
+        wideStrings.clear();
 
         // Output the context
         if (outputFd) {
@@ -1434,8 +1436,6 @@ Log::Decoder::BufferFragment::decompressNextLogStatement(FILE *outputFd,
         // TODO(syang0) We can probably skip processing the log message at
         // if we (a) aren't printing and (b) aren't aggregating
         for (int i = 0; i < metadata->numPrintFragments; ++i) {
-            const wchar_t *wstrArg;
-
             int width = -1;
             if (pf->hasDynamicWidth)
                 width = nb.getNext<int>();
@@ -1611,43 +1611,27 @@ Log::Decoder::BufferFragment::decompressNextLogStatement(FILE *outputFd,
                     break;
 
                 case const_wchar_t_ptr_t:
-
-                    /**
-                     * I've occasionally encountered the following assertion:
-                     * __wcsrtombs: Assertion `data.__outbuf[-1] == '\0'' failed
-                     *
-                     * I don't know why this occurs, but it appears to be caused
-                     * by a wcslen() call deep inside printf returning the wrong
-                     * value when called on the dynamic buffer. I've found
-                     * that copying the data into a stack buffer first fixes
-                     * the problem (not implemented here).
-                     *
-                     * I don't know why this is the case and I'm inclined to
-                     * believe it's a problem with the library because I've...
-                     *  (1) verified byte by byte that the copied wchar_t
-                     *      strings and the surrounding bytes are exactly the
-                     *      same in the dynamic and stack allocated buffers.
-                     *  (2) copied the wcslen code from the glib sources into
-                     *      to this file and calling it on the dynamic buffer
-                     *      works, but the public wcslen() API still returns an
-                     *      incorrect value.
-                     *  (3) verified that no corruption occurs in the buffers
-                     *      before and after the wcslen() returns the wrong val
-                     *
-                     * If wide character support becomes important and this
-                     * assertion keeps erroring out, I would work around it
-                     * by copying the wide string into a stack buffer before
-                     * passing it to printf.
-                     */
-                    wstrArg = reinterpret_cast<const wchar_t *>(nextStringArg);
+                {
+                    // The string is at an arbitrary offset in the buffer, but
+                    // the C library (i.e. wcslen() and printf()) only works
+                    // with properly aligned wchar_t's, so make a copy first.
+                    std::wstring wide;
+                    wchar_t wc;
+                    do {
+                        memcpy(&wc, nextStringArg, sizeof(wchar_t));
+                        nextStringArg += sizeof(wchar_t);
+                        if (wc != L'\0')
+                            wide.push_back(wc);
+                    } while (wc != L'\0');
+
+                    wideStrings.push_back(wide);
                     printSingleArg(outputFd,
                                    logArgs,
                                    pf->formatFragment,
-                                   wstrArg,
+                                   wideStrings.back().c_str(),
                                    width, precision);
-                    // +1 for NULL
-                    nextStringArg += (wcslen(wstrArg) + 1) * sizeof(wchar_t);
                     break;
+                }
 
                 case MAX_FORMAT_TYPE:
                 default:
diff --git a/runtime/Log.h b/runtime/Log.h
index abf2873..de51695 100644
--- a/runtime/Log.h
+++ b/runtime/Log.h
@@ -14,6 +14,8 @@
  */
 
 #include <ctime>
+#include <deque>
+#include <string>
 #include <vector>
 
 #include <cassert>
@@ -908,6 +910,10 @@ namespace Log {
             uint32_t nextLogId;
             uint64_t nextLogTimestamp;
 
+            // Properly aligned copies of the wide-character string arguments
+            // of the last log message decompressed (storage is unaligned).
+            std::deque<std::wstring> wideStrings;
+
             BufferFragment();
             void reset();
             bool hasNext();
@@ -920,6 +926,8 @@ namespace Log {
                                  long aggregationFilterId=-1,
                                  void (*aggregationFn)(const char*, ...)=NULL);
             uint64_t getNextLogTimestamp() const;
+
+            DISALLOW_COPY_AND_ASSIGN(BufferFragment);
         };
 
         static bool compareBufferFragments(const BufferFragment *a,
-- 
2.43.0


From 2c0827539c69153de3ca71375aa45659855200b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:03 +0000
Subject: [PATCH 06/31] fix: negative dynamic widths and precisions were
 decoded as absent

---
 runtime/Log.cc | 60 +++++++++++++++++++++++++++-----------------------
 1 file changed, 32 insertions(+), 28 deletions(-)

diff --git a/runtime/Log.cc b/runtime/Log.cc
index d643c90..2f62eda 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -1245,24 +1245,28 @@ Log::Decoder::BufferFragment::readBufferExtent(FILE *fd, bool *wrapAround) {
  *      Type of the argument (automatically inferred)
  * \param outputFd
  *      Where to output the statement
- * \param formatString
- *      Partial format string containing exactly 1 format specifier
+ * \param pf
+ *      Fragment whose partial format string contains exactly 1 format specifier
  * \param arg
  *      Argument to pass in with the format string
  * \param width
- *      Width parameter of a printf-specifier, a value of -1 specifies none
+ *      Width parameter of a printf-specifier (which may be negative); only used
+ *      if the fragment has a dynamic width
  * \param precision
- *      precision parameter of a printf-specifier, a value of -1 specifies none
+ *      precision parameter of a printf-specifier (which may be negative); only
+ *      used if the fragment has a dynamic precision
  */
 template<typename T>
 static inline void
 printSingleArg(FILE *outputFd,
                NanoLogInternal::Log::LogMessage &logArguments,
-               const char* formatString,
+               const NanoLogInternal::Log::PrintFragment *pf,
                T arg,
                int width = -1,
                int precision = -1)
 {
+    const char *formatString = pf->formatFragment;
+
     logArguments.push(arg);
 
     if (outputFd == nullptr)
@@ -1272,11 +1276,11 @@ printSingleArg(FILE *outputFd,
 #pragma GCC diagnostic ignored "-Wformat-security"
 #pragma GCC diagnostic ignored "-Wformat-nonliteral"
 
-    if (width < 0 && precision < 0) {
+    if (!pf->hasDynamicWidth && !pf->hasDynamicPrecision) {
         fprintf(outputFd, formatString, arg);
-    } else if (width >= 0 && precision < 0)
+    } else if (pf->hasDynamicWidth && !pf->hasDynamicPrecision)
         fprintf(outputFd, formatString, width, arg);
-    else if (width >= 0 && precision >= 0)
+    else if (pf->hasDynamicWidth && pf->hasDynamicPrecision)
         fprintf(outputFd, formatString, width, precision, arg);
     else
         fprintf(outputFd, formatString, precision, arg);
@@ -1458,7 +1462,7 @@ Log::Decoder::BufferFragment::decompressNextLogStatement(FILE *outputFd,
                 case unsigned_char_t:
                     printSingleArg(outputFd,
                                    logArgs,
-                                   pf->formatFragment,
+                                   pf,
                                    nb.getNext<unsigned char>(),
                                    width, precision);
                     break;
@@ -1466,7 +1470,7 @@ Log::Decoder::BufferFragment::decompressNextLogStatement(FILE *outputFd,
                 case unsigned_short_int_t:
                     printSingleArg(outputFd,
                                    logArgs,
-                                   pf->formatFragment,
+                                   pf,
                                    nb.getNext<unsigned short int>(),
                                    width, precision);
                     break;
@@ -1474,7 +1478,7 @@ Log::Decoder::BufferFragment::decompressNextLogStatement(FILE *outputFd,
                 case unsigned_int_t:
                     printSingleArg(outputFd,
                                    logArgs,
-                                   pf->formatFragment,
+                                   pf,
                                    nb.getNext<unsigned int>(),
                                    width, precision);
                     break;
@@ -1482,7 +1486,7 @@ Log::Decoder::BufferFragment::decompressNextLogStatement(FILE *outputFd,
                 case unsigned_long_int_t:
                     printSingleArg(outputFd,
                                    logArgs,
-                                   pf->formatFragment,
+                                   pf,
                                    nb.getNext<unsigned long int>(),
                                    width, precision);
                     break;
@@ -1490,7 +1494,7 @@ Log::Decoder::BufferFragment::decompressNextLogStatement(FILE *outputFd,
                 case unsigned_long_long_int_t:
                     printSingleArg(outputFd,
                                    logArgs,
-                                   pf->formatFragment,
+                                   pf,
                                    nb.getNext<unsigned long long int>(),
                                    width, precision);
                     break;
@@ -1498,7 +1502,7 @@ Log::Decoder::BufferFragment::decompressNextLogStatement(FILE *outputFd,
                 case uintmax_t_t:
                     printSingleArg(outputFd,
                                    logArgs,
-                                   pf->formatFragment,
+                                   pf,
                                    nb.getNext<uintmax_t>(),
                                    width, precision);
                     break;
@@ -1506,7 +1510,7 @@ Log::Decoder::BufferFragment::decompressNextLogStatement(FILE *outputFd,
                 case size_t_t:
                     printSingleArg(outputFd,
                                    logArgs,
-                                   pf->formatFragment,
+                                   pf,
                                    nb.getNext<size_t>(),
                                    width, precision);
                     break;
@@ -1514,7 +1518,7 @@ Log::Decoder::BufferFragment::decompressNextLogStatement(FILE *outputFd,
                 case wint_t_t:
                     printSingleArg(outputFd,
                                    logArgs,
-                                   pf->formatFragment,
+                                   pf,
                                    nb.getNext<wint_t>(),
                                    width, precision);
                     break;
@@ -1522,7 +1526,7 @@ Log::Decoder::BufferFragment::decompressNextLogStatement(FILE *outputFd,
                 case signed_char_t:
                     printSingleArg(outputFd,
                                    logArgs,
-                                   pf->formatFragment,
+                                   pf,
                                    nb.getNext<signed char>(),
                                    width, precision);
                     break;
@@ -1530,7 +1534,7 @@ Log::Decoder::BufferFragment::decompressNextLogStatement(FILE *outputFd,
                 case short_int_t:
                     printSingleArg(outputFd,
                                    logArgs,
-                                   pf->formatFragment,
+                                   pf,
                                    nb.getNext<short int>(),
                                    width, precision);
                     break;
@@ -1538,7 +1542,7 @@ Log::Decoder::BufferFragment::decompressNextLogStatement(FILE *outputFd,
                 case int_t:
                     printSingleArg(outputFd,
                                    logArgs,
-                                   pf->formatFragment,
+                                   pf,
                                    nb.getNext<int>(),
                                    width, precision);
                     break;
@@ -1546,7 +1550,7 @@ Log::Decoder::BufferFragment::decompressNextLogStatement(FILE *outputFd,
                 case long_int_t:
                     printSingleArg(outputFd,
                                    logArgs,
-                                   pf->formatFragment,
+                                   pf,
                                    nb.getNext<long int>(),
                                    width, precision);
                     break;
@@ -1554,7 +1558,7 @@ Log::Decoder::BufferFragment::decompressNextLogStatement(FILE *outputFd,
                 case long_long_int_t:
                     printSingleArg(outputFd,
                                    logArgs,
-                                   pf->formatFragment,
+                                   pf,
                                    nb.getNext<long long int>(),
                                    width, precision);
                     break;
@@ -1562,7 +1566,7 @@ Log::Decoder::BufferFragment::decompressNextLogStatement(FILE *outputFd,
                 case intmax_t_t:
                     printSingleArg(outputFd,
                                    logArgs,
-                                   pf->formatFragment,
+                                   pf,
                                    nb.getNext<intmax_t>(),
                                    width, precision);
                     break;
@@ -1570,7 +1574,7 @@ Log::Decoder::BufferFragment::decompressNextLogStatement(FILE *outputFd,
                 case ptrdiff_t_t:
                     printSingleArg(outputFd,
                                    logArgs,
-                                   pf->formatFragment,
+                                   pf,
                                    nb.getNext<ptrdiff_t>(),
                                    width, precision);
                     break;
@@ -1578,7 +1582,7 @@ Log::Decoder::BufferFragment::decompressNextLogStatement(FILE *outputFd,
                 case double_t:
                     printSingleArg(outputFd,
                                    logArgs,
-                                   pf->formatFragment,
+                                   pf,
                                    nb.getNext<double>(),
                                    width, precision);
                     break;
@@ -1586,7 +1590,7 @@ Log::Decoder::BufferFragment::decompressNextLogStatement(FILE *outputFd,
                 case long_double_t:
                     printSingleArg(outputFd,
                                    logArgs,
-                                   pf->formatFragment,
+                                   pf,
                                    nb.getNext<long double>(),
                                    width, precision);
                     break;
@@ -1594,7 +1598,7 @@ Log::Decoder::BufferFragment::decompressNextLogStatement(FILE *outputFd,
                 case const_void_ptr_t:
                     printSingleArg(outputFd,
                                    logArgs,
-                                   pf->formatFragment,
+                                   pf,
                                    nb.getNext<const void *>(),
                                    width, precision);
                     break;
@@ -1603,7 +1607,7 @@ Log::Decoder::BufferFragment::decompressNextLogStatement(FILE *outputFd,
                 case const_char_ptr_t:
                     printSingleArg(outputFd,
                                    logArgs,
-                                   pf->formatFragment,
+                                   pf,
                                    nextStringArg,
                                    width, precision);
 
@@ -1627,7 +1631,7 @@ Log::Decoder::BufferFragment::decompressNextLogStatement(FILE *outputFd,
                     wideStrings.push_back(wide);
                     printSingleArg(outputFd,
                                    logArgs,
-                                   pf->formatFragment,
+                                   pf,
                                    wideStrings.back().c_str(),
                                    width, precision);
                     break;
-- 
2.43.0


From f70f294a2a1629ef876767f5339950c57f3043ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:03 +0000
Subject: [PATCH 07/31] fix: a backslash in a format string hid the format
 specifier behind it

---
 runtime/Log.cc | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/runtime/Log.cc b/runtime/Log.cc
index 2f62eda..8925d89 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -866,12 +866,6 @@ Log::Decoder::createMicroCode(char **microCode,
     while (i < formatStringLength) {
         char c = formatString[i];
 
-        // Skip the next character if there's an escape
-        if (c == '\\') {
-            i += 2;
-            continue;
-        }
-
         if (c != '%') {
             ++i;
             consecutivePercents = 0;
-- 
2.43.0


From 503bf2ebc0bf2611b4d2927d41a5461263081818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:29 +0000
Subject: [PATCH 08/31] fix: format specifiers with an empty precision were not
 decoded

---
 runtime/Log.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/Log.cc b/runtime/Log.cc
index 8925d89..bc0733b 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -847,7 +847,7 @@ Log::Decoder::createMicroCode(char **microCode,
     std::regex regex("^%"
                      "([-+ #0]+)?" // Flags (Position 1)
                      "([\\d]+|\\*)?" // Width (Position 2)
-                     "(\\.(\\d+|\\*))?"// Precision (Position 4; 3 includes '.')
+                     "(\\.(\\d+|\\*)?)?"// Precision (Position 4; 3 includes '.')
                      "(hh|h|l|ll|j|z|Z|t|L)?" // Length (Position 5)
                      "([diuoxXfFeEgGaAcspn])"// Specifier (Position 6)
                      );
-- 
2.43.0


From c60d5954026e51a526009e815b3e6564a05d4d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:54 +0000
Subject: [PATCH 09/31] fix: precision-limited strings were read beyond their
 precision

---
 runtime/NanoLogCpp17.h | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/runtime/NanoLogCpp17.h b/runtime/NanoLogCpp17.h
index ffb063e..598e10c 100644
--- a/runtime/NanoLogCpp17.h
+++ b/runtime/NanoLogCpp17.h
@@ -609,20 +609,21 @@ getArgSize(const ParamType fmtType,
     if (fmtType <= ParamType::NON_STRING)
         return sizeof(void*);
 
-    stringBytes = strlen(str);
-    uint32_t fmtLength = static_cast<uint32_t>(fmtType);
-
     // Strings with static length specifiers (ex %.10s), have non-negative
     // ParamTypes equal to the static length. Thus, we use that value to
-    // truncate the string as necessary.
-    if (fmtType >= ParamType::STRING && stringBytes > fmtLength)
-        stringBytes = fmtLength;
+    // truncate the string as necessary. Note that such strings do not have to
+    // be NULL terminated, so we cannot look beyond that length.
+    if (fmtType >= ParamType::STRING)
+        stringBytes = strnlen(str, static_cast<uint32_t>(fmtType));
 
     // If the string had a dynamic precision specified (i.e. %.*s), use
-    // the previous parameter as the precision and truncate as necessary.
+    // the previous parameter as the precision and truncate as necessary
+    // (negative precisions were converted to huge ones, i.e. no truncation).
     else if (fmtType == ParamType::STRING_WITH_DYNAMIC_PRECISION &&
-                stringBytes > previousPrecision)
-        stringBytes = previousPrecision;
+                previousPrecision <= INT32_MAX)
+        stringBytes = strnlen(str, previousPrecision);
+    else
+        stringBytes = strlen(str);
 
     return stringBytes + sizeof(uint32_t);
 }
@@ -639,20 +640,21 @@ getArgSize(const ParamType fmtType,
     if (fmtType <= ParamType::NON_STRING)
         return sizeof(void*);
 
-    stringBytes = wcslen(wstr);
-    uint32_t fmtLength = static_cast<uint32_t>(fmtType);
-
     // Strings with static length specifiers (ex %.10s), have non-negative
     // ParamTypes equal to the static length. Thus, we use that value to
-    // truncate the string as necessary.
-    if (fmtType >= ParamType::STRING && stringBytes > fmtLength)
-        stringBytes = fmtLength;
+    // truncate the string as necessary. Note that such strings do not have to
+    // be NULL terminated, so we cannot look beyond that length.
+    if (fmtType >= ParamType::STRING)
+        stringBytes = wcsnlen(wstr, static_cast<uint32_t>(fmtType));
 
     // If the string had a dynamic precision specified (i.e. %.*s), use
-    // the previous parameter as the precision and truncate as necessary.
+    // the previous parameter as the precision and truncate as necessary
+    // (negative precisions were converted to huge ones, i.e. no truncation).
     else if (fmtType == ParamType::STRING_WITH_DYNAMIC_PRECISION &&
-             stringBytes > previousPrecision)
-        stringBytes = previousPrecision;
+                previousPrecision <= INT32_MAX)
+        stringBytes = wcsnlen(wstr, previousPrecision);
+    else
+        stringBytes = wcslen(wstr);
 
     stringBytes *= sizeof(wchar_t);
     return stringBytes + sizeof(uint32_t);
-- 
2.43.0


From 7de2a0d0a5d55602a188f1712f3b3b6908dfefb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:42 +0000
Subject: [PATCH 10/31] fix: preprocessor mishandled empty precisions and
 precision-limited strings

The preprocessor rejected conversions with an empty precision ("%.f"),
generated calls to wcsnlen_s (absent from the C library) for wide strings with
a precision, and ignored a precision of 0 when measuring strings.
---
 preprocessor/FunctionGenerator.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/preprocessor/FunctionGenerator.py b/preprocessor/FunctionGenerator.py
index 45e8892..1947d01 100644
--- a/preprocessor/FunctionGenerator.py
+++ b/preprocessor/FunctionGenerator.py
@@ -414,17 +414,17 @@ size_t numLogIds = {count};
 
             # The +1's below are for the NULL character
             if isWideString(fmtSpecifier.type):
-                if not precision:
+                if precision is None:
                     strlenToAdd += "(1 + wcslen(arg{0}))*sizeof(wchar_t);"\
                                         .format(argNum)
                 elif precision == '*':
-                    strlenToAdd += "(1 + wcsnlen_s(arg{0}, arg{1}))*sizeof(wchar_t);"\
+                    strlenToAdd += "(1 + wcsnlen(arg{0}, arg{1}))*sizeof(wchar_t);"\
                                         .format(argNum,argNum - 1)
                 else:
-                    strlenToAdd += "(1 + wcsnlen_s(arg{0}, {1}))*sizeof(wchar_t);"\
+                    strlenToAdd += "(1 + wcsnlen(arg{0}, {1}))*sizeof(wchar_t);"\
                                         .format(argNum, precision)
             else:
-                if not precision:
+                if precision is None:
                     strlenToAdd += "1 + strlen(arg{0});".format(argNum)
                 elif precision == '*':
                     strlenToAdd += "1 + strnlen(arg{0}, arg{1});".format(argNum,
@@ -763,7 +763,7 @@ def splitAndParseTypesInFmtString(fmtString):
                 match = re.match("^%"
                                  "(?P<flags>[-+ #0]+)?"
                                  "(?P<width>[\\d]+|\\*)?"
-                                 "(\\.(?P<precision>\\d+|\\*))?"
+                                 "(\\.(?P<precision>\\d*|\\*))?"
                                  "(?P<length>hh|h|l|ll|j|z|Z|t|L)?"
                                  "(?P<specifier>[diuoxXfFeEgGaAcspn])",
                                  fmtString[charIndex:])
@@ -796,8 +796,9 @@ def splitAndParseTypesInFmtString(fmtString):
         length = fmt.group('length')
         specifier = fmt.group('specifier')
         precision = fmt.group("precision")
-        if precision and precision != '*':
-            precision = int(float(precision))
+        if precision is not None and precision != '*':
+            # A lone '.' denotes a precision of 0
+            precision = int(precision or 0)
         width = fmt.group('width')
         if width and width != '*':
             width = int(float(width))
-- 
2.43.0


From c41aa20d0db3e6334d474e6129ef32760037bb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:33 +0000
Subject: [PATCH 11/31] fix: preprocessor rejected valid literal format strings

Format strings that end in an escaped backslash, that are empty, or that are
concatenated with a system macro such as PRIu64 (which the GNU preprocessor
surrounds with line markers) were reported as not being literals.
---
 preprocessor/parser.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/preprocessor/parser.py b/preprocessor/parser.py
index ff03dba..d72de56 100644
--- a/preprocessor/parser.py
+++ b/preprocessor/parser.py
@@ -116,12 +116,16 @@ def extractCString(source):
   prevWasEscape = False
 
   for line in source.splitlines(True):
+    # The GNU preprocessor puts line markers around system macros (ex: PRIu64)
+    if not isInQuotes and line.startswith("#"):
+      continue
+
     for c in line:
       if c == "\"" and not prevWasEscape:
         isInQuotes = not isInQuotes
       elif isInQuotes:
         returnString += c
-        prevWasEscape = c == "\\"
+        prevWasEscape = c == "\\" and not prevWasEscape
       else:
         if not (c.isspace()):
           return None
@@ -454,7 +458,7 @@ def processFile(inputFile, mapOutputFilename):
                                 "#include-ing the NanoLog header!",
                                lines[lineIndex:lastLogStatementLine + 1])
 
-            if not fmtString:
+            if fmtString is None:
               raise ValueError("NANO_LOG statement expects a literal format "
                                "string for its second argument",
                                 lines[lineIndex:lastLogStatementLine + 1])
-- 
2.43.0


From cb3d44df24de6c95d95c4296ef23ad2f4967d5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:56 +0000
Subject: [PATCH 12/31] fix: preprocessor lost track of line numbers after
 markers within a log statement

A statement whose arguments use a system macro (ex: NULL) contains line
markers; these were counted as source lines and shifted the recorded and
compiled line numbers of all code that followed.
---
 preprocessor/parser.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/preprocessor/parser.py b/preprocessor/parser.py
index d72de56..659241c 100644
--- a/preprocessor/parser.py
+++ b/preprocessor/parser.py
@@ -509,8 +509,15 @@ def processFile(inputFile, mapOutputFilename):
             scLineNum, scOffset = logStatement['semiColonPos']
             scLine = lines[scLineNum]
 
-            # Extrapolate the symbolic line number
-            scPPLineNum = ppLineNum + (scLineNum - lineIndex)
+            # Extrapolate the symbolic line number, taking into account that
+            # the statement may itself contain preprocessor directives
+            scPPLineNum = ppLineNum
+            for stmtLine in lines[lineIndex + 1:scLineNum + 1]:
+              directive = directiveRegex.match(stmtLine)
+              if directive:
+                scPPLineNum = int(directive.group(1)) - 1
+              else:
+                scPPLineNum = scPPLineNum + 1
 
             # Split the line
             scHeadLine = scLine[:scOffset + 1] + "\r\n"
-- 
2.43.0


From f5f0d22b9a8f88bf9e3e8b7b22179e5f8a4945da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:12 +0000
Subject: [PATCH 13/31] fix: preprocessor misparsed code with character
 literals or similar names

Quotes, parentheses and commas in character literals ended arguments and
strings early, and an identifier such as NNANO_LOG was taken for NANO_LOG.
---
 preprocessor/parser.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/preprocessor/parser.py b/preprocessor/parser.py
index 659241c..3a680c6 100644
--- a/preprocessor/parser.py
+++ b/preprocessor/parser.py
@@ -99,6 +99,9 @@ FilePosition = namedtuple('FilePosition', ['lineNum', 'offset'])
 # and start/end FilePositions.
 Argument = namedtuple('Argument', ['source', 'startPos', 'endPos'])
 
+# Matches a C/C++ character literal such as 'a', '"' or an escaped single quote
+charLiteralRegex = re.compile(r"'(?:\\'|\\[^'\n]+|[^'\\\n])'")
+
 # Given a C/C++ style string in source code (i.e. in quotes), attempt to parse
 # it back as a regular string. The source passed in can be multi-line (due to C
 # string concatenation), but should not contain any extraneous characters
@@ -166,10 +169,21 @@ def parseArgumentStartingAt(lines, startPos):
     line = lines[lineNum]
 
     prevWasEscape = False
+    endOfCharLiteral = 0
     for i in range(offset, len(line)):
       c = line[i]
       argSrcStr = argSrcStr + c
 
+      # Skip over the contents of character literals
+      if i < endOfCharLiteral:
+        continue
+
+      if c == "'" and not inQuotes:
+        charLiteral = charLiteralRegex.match(line, i)
+        if charLiteral:
+          endOfCharLiteral = charLiteral.end()
+          continue
+
       # If it's an escape, we don't care what comes after it
       if c == "\\" or prevWasEscape:
         prevWasEscape = not prevWasEscape
@@ -406,6 +420,14 @@ def processFile(inputFile, mapOutputFilename):
             lastChar = c
             continue
 
+          # Skip over the contents of character literals
+          if c == "'" and not inQuotes:
+            charLiteral = charLiteralRegex.match(line, charOffset)
+            if charLiteral:
+              charOffset = charLiteral.end() - 1
+              lastChar = c
+              continue
+
           if c == "\"":
             inQuotes = not inQuotes
 
@@ -423,16 +445,19 @@ def processFile(inputFile, mapOutputFilename):
                 break
 
             if not found:
+              lastChar = c
               continue
 
             # Valid identifier characters are [a-zA-Z_][a-zA-Z0-9_]*
             if lastChar.isalnum() or lastChar == '_':
+              lastChar = c
               continue
 
             # Check that it's a function invocation via the existence of (
             filePosAfter = FilePosition(lineIndex, charOffset + len(LOG_FUNCTION))
             mChar, mPos = peekNextMeaningfulChar(lines, filePosAfter)
             if mChar != "(":
+              lastChar = c
               continue
 
             # Okay at this point we are pretty sure we have a genuine
-- 
2.43.0


From 06302bb2633035880fb3648c345ea1b35fac36c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:01 +0000
Subject: [PATCH 14/31] fix: preprocessor wrote a wrong length for filenames
 with special characters

The dictionary's filenameLength counted characters of the escaped source text
instead of bytes, which made the log file unreadable.
---
 preprocessor/FunctionGenerator.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/preprocessor/FunctionGenerator.py b/preprocessor/FunctionGenerator.py
index 1947d01..c381ec9 100644
--- a/preprocessor/FunctionGenerator.py
+++ b/preprocessor/FunctionGenerator.py
@@ -651,7 +651,7 @@ inline void
            numPrintFragments=len(fmtSpecifiers),
            logLevel=logLevel,
            linenum=linenum,
-           filenameLength=len(filename) + 1,
+           filenameLength=cStringLength(filename) + 1,
            filename=filename,
            fmtString=fmtString
            )
@@ -872,6 +872,13 @@ def splitAndParseTypesInFmtString(fmtString):
 
     return types
 
+# Returns the number of bytes in a C string, excluding the null terminator.
+#
+# \param source - contents of the C string, as written in C/C++ source code
+def cStringLength(source):
+    # The GNU preprocessor escapes special characters in filenames
+    return len(re.sub(r"\\([0-7]{1,3}|.)", "_", source).encode("utf-8"))
+
 # Given a C++ type (such as 'int') as identified by parseTypesInFmtString,
 # determine whether that type is a string or not.
 #
-- 
2.43.0


From dc9f3945abc3f8457246f0a1ab6ca3c725301252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:23 +0000
Subject: [PATCH 15/31] fix: preprocessor gave messages on the same line one
 log level

Identical format strings logged at different levels on one source line shared
the static information of the first, including its severity.
---
 preprocessor/FunctionGenerator.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/preprocessor/FunctionGenerator.py b/preprocessor/FunctionGenerator.py
index c381ec9..f1db66f 100644
--- a/preprocessor/FunctionGenerator.py
+++ b/preprocessor/FunctionGenerator.py
@@ -345,6 +345,11 @@ size_t numLogIds = {count};
 
         logId = generateLogIdStr(fmtString, filename, linenum)
 
+        # The same message can be logged at different levels on the same line
+        if logId in self.logId2Code and \
+                self.logId2Code[logId]["logLevel"].strip() != logLevel.strip():
+            logId += encodeAsIdentifier(logLevel.strip()) + "__"
+
         # If we've already generated code for this invocation, don't do it again
         if self.logId2Code.get(logId):
             code = self.logId2Code.get(logId)
@@ -899,8 +904,9 @@ def isWideString(typeStr):
 def generateIdVariableNameFromLogId(logId):
     return "__fmtId" + logId
 
-def generateLogIdStr(fmtString, filename, linenum):
-    def encode(string):
-        return "".join([c if c.isalnum() else str(ord(c)) for c in string])
+def encodeAsIdentifier(string):
+    return "".join([c if c.isalnum() else str(ord(c)) for c in string])
 
-    return "__%s__%s__%d__" % (encode(fmtString), encode(filename), linenum)
+def generateLogIdStr(fmtString, filename, linenum):
+    return "__%s__%s__%d__" % (encodeAsIdentifier(fmtString),
+                               encodeAsIdentifier(filename), linenum)
-- 
2.43.0


From 0ca02cae83edf7ecb8eabeca36ae8b32c6b65cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:34 +0000
Subject: [PATCH 16/31] fix: time trace printing did not hold off concurrent
 records

The reader count was and-ed instead of incremented, so it stayed zero and
events recorded while a trace was being printed overwrote or extended the
events being printed.
---
 runtime/TimeTrace.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtime/TimeTrace.cc b/runtime/TimeTrace.cc
index 4e8fa97..0414fae 100644
--- a/runtime/TimeTrace.cc
+++ b/runtime/TimeTrace.cc
@@ -215,7 +215,7 @@ TimeTrace::printInternal(std::vector<TimeTrace::Buffer*>* buffers, string* s)
 {
     bool printedAnything = false;
     for (uint32_t i = 0; i < buffers->size(); i++) {
-        buffers->at(i)->activeReaders.fetch_and(1);
+        buffers->at(i)->activeReaders.fetch_add(1);
     }
 
     // Initialize file for writing
@@ -331,7 +331,7 @@ TimeTrace::printInternal(std::vector<TimeTrace::Buffer*>* buffers, string* s)
     }
 
     for (uint32_t i = 0; i < buffers->size(); i++) {
-        buffers->at(i)->activeReaders.fetch_and(-1);
+        buffers->at(i)->activeReaders.fetch_sub(1);
     }
     if (output && output != stdout)
         fclose(output);
-- 
2.43.0


From 44a0b10ec76d91ca17808bc4126eaae2a9dfd591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:03 +0000
Subject: [PATCH 17/31] fix: drop the old dictionary before reading the one of
 an appended execution

---
 runtime/Log.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/runtime/Log.cc b/runtime/Log.cc
index bc0733b..b826e80 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -651,6 +651,14 @@ Log::Decoder::readDictionary(FILE *fd, bool flushOldDictionary) {
         return false;
     }
 
+    // The old dictionary must be dropped first, so that the new one is stored
+    // (and later interpreted) in its place.
+    if (flushOldDictionary) {
+        endOfRawMetadata = rawMetadata;
+        fmtId2metadata.clear();
+        fmtId2fmtString.clear();
+    }
+
     size_t bytesRead = fread(endOfRawMetadata, 1, checkpoint.newMetadataBytes,
                              fd);
     if (bytesRead != checkpoint.newMetadataBytes) {
@@ -658,12 +666,6 @@ Log::Decoder::readDictionary(FILE *fd, bool flushOldDictionary) {
         return false;
     }
 
-    if (flushOldDictionary) {
-        endOfRawMetadata = rawMetadata;
-        fmtId2metadata.clear();
-        fmtId2fmtString.clear();
-    }
-
     // Build an index of format id to metadata
     const char *start = endOfRawMetadata;
     const char *newEnd = endOfRawMetadata + bytesRead;
-- 
2.43.0


From 47d9942bcb24320b958635635b2bd91ade3df762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:53 +0000
Subject: [PATCH 18/31] fix: ordered decompression buffered one round too few

---
 runtime/Log.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/runtime/Log.cc b/runtime/Log.cc
index b826e80..3afd4a7 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -1804,15 +1804,16 @@ Log::Decoder::decompressTo(FILE* outputFd)
         return -1;
 
     // In ordered decompression, we must sort the entries by time which means
-    // we need to buffer in 3 rounds of NanoLog output. We need more than one
+    // we need to buffer in 4 rounds of NanoLog output. We need more than one
     // round of output because the compression is non-quiescent, which means
     // that as we're outputting the nth buffer, new entries may be added to
     // n-1 and n, and the entries in n could logically come /before/ the new
     // entries added to n-1. The reason why we need at least 3 is due to an
     // implementation detail in StagingBuffer whereby one peek() does not
     // return all the data and at least 2 peek()'s are needed to deplete a
-    // buffer.
-    static const uint32_t stagesToBuffer = 3;
+    // buffer. One more is needed since the fragment that indicates the start
+    // of a new round is buffered with the round before it.
+    static const uint32_t stagesToBuffer = 4;
     std::vector<BufferFragment*> stages[stagesToBuffer];
 
     // Running number of stages being kept in stages
-- 
2.43.0


From 7ebc9c70a1438b0cba8f4a50e02ecf3c1a376d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:53 +0000
Subject: [PATCH 19/31] fix: a full output buffer was recorded as the end of a
 pass

---
 runtime/RuntimeLogger.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/runtime/RuntimeLogger.cc b/runtime/RuntimeLogger.cc
index feb8926..123ffbf 100644
--- a/runtime/RuntimeLogger.cc
+++ b/runtime/RuntimeLogger.cc
@@ -471,6 +471,11 @@ RuntimeLogger::compressionThreadMain() {
                     }
                     cyclesCompressing += PerfUtils::Cycles::rdtsc() - start;
                     lock.lock();
+
+                    // We're not done with this buffer, so the pass has not
+                    // moved past it (and has not wrapped around) yet.
+                    if (outputBufferFull)
+                        break;
                 } else {
                     // If there's no work, check if we're supposed to delete
                     // the stagingBuffer
-- 
2.43.0


From 86262b4ad17fa88ad0fe16293defe2da3656d58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:19 +0000
Subject: [PATCH 20/31] fix: carry rounded nanoseconds into the seconds

Times within half a nanosecond before a full second were printed with ten
fractional digits ("...:19.1000000000") and in the wrong second.
---
 runtime/Log.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/runtime/Log.cc b/runtime/Log.cc
index 3afd4a7..9f5e220 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -16,6 +16,7 @@
 #include <algorithm>
 
 #include <bits/algorithmfwd.h>
+#include <cmath>
 #include <regex>
 #include <vector>
 
@@ -1362,6 +1363,13 @@ Log::Decoder::BufferFragment::decompressNextLogStatement(FILE *outputFd,
             nanos += 1.0e9;
         }
 
+        // The nanoseconds are printed rounded, which may carry into the seconds.
+        nanos = std::rint(nanos);
+        if (nanos >= 1.0e9) {
+            wholeSeconds++;
+            nanos -= 1.0e9;
+        }
+
         std::time_t absTime = wholeSeconds + checkpoint.unixTime;
         std::tm *tm = localtime(&absTime);
         strftime(timeString, sizeof(timeString), "%Y-%m-%d %H:%M:%S", tm);
-- 
2.43.0


From c505acb9cb386d742acad402f0b93ecbfa45c9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:23 +0000
Subject: [PATCH 21/31] fix: a re-opened decoder returned messages of the
 previous file

Decoder::open() kept the buffer fragment (and the stream) of the file opened
before, so iteration over the new file started with the rest of the old one.
---
 runtime/Log.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/runtime/Log.cc b/runtime/Log.cc
index 9f5e220..db74742 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -1081,6 +1081,11 @@ Log::Decoder::readDictionaryFragment(FILE *fd) {
  */
 bool
 Log::Decoder::open(const char *filename) {
+    // Drop whatever is left of a previously opened file
+    if (inputFd)
+        fclose(inputFd);
+    bufferFragment->reset();
+
     inputFd = fopen(filename, "rb");
     good = false;
 
-- 
2.43.0


From 32f64f4eb07a43b9971300a4ca98b547f4ab2f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:56 +0000
Subject: [PATCH 22/31] fix: decompressor aggregations crashed or misreported
 with few or no messages

rcdfTime left the first delta out of the mean and crashed when the log has
fewer than two messages; minMaxMean divided by zero when no message matches
and read outside the metadata for an unknown log id.
---
 runtime/LogDecompressor.cc | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/runtime/LogDecompressor.cc b/runtime/LogDecompressor.cc
index 5ac00a4..647ed19 100644
--- a/runtime/LogDecompressor.cc
+++ b/runtime/LogDecompressor.cc
@@ -84,7 +84,7 @@ void runRCDF(std::vector<uint64_t> timeDeltas, double cyclesPerSecond) {
     printf("# Done; printing rcdf\r\n");
     printf("#   Latency     Percentage of Operations\r\n");
 
-    uint64_t sum = 0;
+    uint64_t sum = timeDeltas.front();
     double boundary = 1.0e-10; // 1 decimal points into nanoseconds
     uint64_t bound = PerfUtils::Cycles::fromSeconds(boundary, cyclesPerSecond);
     double size = double(timeDeltas.size());
@@ -197,6 +197,11 @@ int main(int argc, char** argv) {
             printf("The logId must be positive: %s\r\n", argv[3]);
             exit(-1);
         }
+
+        if (static_cast<size_t>(filterId) >= GeneratedFunctions::numLogIds) {
+            printf("There is no log message with this logId: %s\r\n", argv[3]);
+            exit(-1);
+        }
     } else if (strcmp(command, "find") == 0) {
         if (argc < 4) {
             printHelp(argv[0]);
@@ -244,6 +249,12 @@ int main(int argc, char** argv) {
         stop = PerfUtils::Cycles::rdtsc();
         double decodeTime = PerfUtils::Cycles::toSeconds(stop - start);
 
+        if (interLogTimes.empty()) {
+            printf("# At least two log messages are needed to compute "
+                   "inter-log times\r\n");
+            return 0;
+        }
+
         start = PerfUtils::Cycles::rdtsc();
         runRCDF(interLogTimes, PerfUtils::Cycles::getCyclesPerSec());
         stop = PerfUtils::Cycles::rdtsc();
@@ -323,16 +334,16 @@ int main(int argc, char** argv) {
 #endif // PREPROCESSOR_NANOLOG
     printf("Logs Encountered: %lu\r\n", numLogs);
     printf("Matching Logs: %ld (%0.2lf%%)\r\n", count,
-            (100.0*(double)count)/(double)numLogs);
+            (numLogs > 0) ? (100.0*(double)count)/(double)numLogs : 0.0);
     printf("Min: %ld\r\n", min);
     printf("Max: %ld\r\n", max);
-    printf("Mean: %ld\r\n", total/count);
+    printf("Mean: %ld\r\n", (count > 0) ? total/count : 0);
     printf("Total: %ld\r\n", total);
 
     printf("\r\nThe aggregation took %0.2lf seconds over "
             "%ld elements (%0.2lf ns avg)\r\n",
             time,
-            count, (1.0e9*time)/(double)count);
+            count, (count > 0) ? (1.0e9*time)/(double)count : 0.0);
 
     return 0;
 }
-- 
2.43.0


From 6016b4406d417ac666590a396d9adf09e21bd499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:44 +0000
Subject: [PATCH 23/31] fix: preprocessor ignored or rejected log statements
 spread by long blank gaps

---
 preprocessor/parser.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/preprocessor/parser.py b/preprocessor/parser.py
index 3a680c6..383f5fb 100644
--- a/preprocessor/parser.py
+++ b/preprocessor/parser.py
@@ -99,6 +99,9 @@ FilePosition = namedtuple('FilePosition', ['lineNum', 'offset'])
 # and start/end FilePositions.
 Argument = namedtuple('Argument', ['source', 'startPos', 'endPos'])
 
+# Matches a GNU preprocessor line marker
+lineMarkerRegex = re.compile("^# \\d+ \"")
+
 # Matches a C/C++ character literal such as 'a', '"' or an escaped single quote
 charLiteralRegex = re.compile(r"'(?:\\'|\\[^'\n]+|[^'\\\n])'")
 
@@ -315,6 +318,12 @@ def peekNextMeaningfulChar(lines, filePos):
 
   while lineNum < len(lines):
     line = lines[lineNum]
+
+    # The GNU preprocessor puts line markers in place of long runs of blank
+    # lines; they are not part of the program's code
+    if offset == 0 and lineMarkerRegex.match(line):
+      offset = len(line)
+
     while offset < len(line):
       c = line[offset]
       if not c.isspace():
-- 
2.43.0


From 91a118691caffef19972ad588bc1a1eff88b65df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:44 +0000
Subject: [PATCH 24/31] fix: preprocessor misparsed code with raw string
 literals

---
 preprocessor/parser.py | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/preprocessor/parser.py b/preprocessor/parser.py
index 383f5fb..fb42048 100644
--- a/preprocessor/parser.py
+++ b/preprocessor/parser.py
@@ -105,6 +105,33 @@ lineMarkerRegex = re.compile("^# \\d+ \"")
 # Matches a C/C++ character literal such as 'a', '"' or an escaped single quote
 charLiteralRegex = re.compile(r"'(?:\\'|\\[^'\n]+|[^'\\\n])'")
 
+# Matches the literals of a C/C++ source; the groups are for raw strings only
+literalRegex = re.compile(r'"(?:\\.|[^"\\\n])*"|'
+                          + charLiteralRegex.pattern + r'|'
+                          r'\b(?P<prefix>u8|u|U|L)?R"(?P<delim>[^()\\\s]{0,16})'
+                          r'\((?P<content>(?:.|\n)*?)\)(?P=delim)"')
+
+# Rewrites all raw string literals in a C++ source as regular ones, so that
+# the contents of every string can be skipped with the regular quoting rules.
+# The position of everything else in terms of lines is unchanged.
+#
+# \param source - C++ source code
+#
+# \return - the source code without raw string literals
+#
+def replaceRawStrings(source):
+  def replace(match):
+    content = match.group("content")
+    if content is None:
+      return match.group(0)
+
+    return "%s\"%s\"%s" % (match.group("prefix") or "",
+                          re.sub(r"([\\\"?])", r"\\\1", content)
+                              .replace("\n", "\\n"),
+                          "\n" * content.count("\n"))
+
+  return literalRegex.sub(replace, source)
+
 # Given a C/C++ style string in source code (i.e. in quotes), attempt to parse
 # it back as a regular string. The source passed in can be multi-line (due to C
 # string concatenation), but should not contain any extraneous characters
@@ -353,7 +380,7 @@ def processFile(inputFile, mapOutputFilename):
 
   with open(inputFile) as f, open(inputFile + "i", 'w') as output:
     try:
-      lines = f.readlines()
+      lines = re.findall("[^\\n]*\\n|[^\\n]+", replaceRawStrings(f.read()))
       lineIndex = -1
 
       lastChar = '\0'
-- 
2.43.0


From bfed3436c772a99395d983a9d518dd625516cfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:05 +0000
Subject: [PATCH 25/31] fix: preprocessor left log statements in the arguments
 of others on the line as they were

---
 preprocessor/parser.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/preprocessor/parser.py b/preprocessor/parser.py
index fb42048..187c216 100644
--- a/preprocessor/parser.py
+++ b/preprocessor/parser.py
@@ -615,12 +615,16 @@ def processFile(inputFile, mapOutputFilename):
             headOfLine = line[:charOffset]
             tailOfLine = line[offsetAfterLogFn:].rjust(len(line))
 
-            lines[lineIndex] = \
-                          headOfLine \
-                            + "\r\n# %d \"injectedCode.fake\"\r\n" % ppLineNum \
-                            + "{ " + recordFn \
-                            + "\r\n# %d \"%s\"\r\n" % (ppLineNum, ppFileName) \
-                            + tailOfLine
+            lines[lineIndex:lineIndex + 1] = [
+                          headOfLine + "\r\n",
+                          "# %d \"injectedCode.fake\"\r\n" % ppLineNum,
+                          "{ " + recordFn + "\r\n",
+                          "# %d \"%s\"\r\n" % (ppLineNum, ppFileName),
+                          tailOfLine]
+
+            # The arguments now start on a line of their own, which is scanned
+            # next since they can contain log statements too (i.e. in lambdas)
+            break
 
           lastChar = c
     except ValueError as e:
-- 
2.43.0


From 2fbe39fb5945827aad9d45bd2cb484a45bd5138a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:03 +0000
Subject: [PATCH 26/31] fix: preprocessor gave messages whose names are encoded
 alike one identity

---
 preprocessor/FunctionGenerator.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/preprocessor/FunctionGenerator.py b/preprocessor/FunctionGenerator.py
index f1db66f..039b7d2 100644
--- a/preprocessor/FunctionGenerator.py
+++ b/preprocessor/FunctionGenerator.py
@@ -350,6 +350,13 @@ size_t numLogIds = {count};
                 self.logId2Code[logId]["logLevel"].strip() != logLevel.strip():
             logId += encodeAsIdentifier(logLevel.strip()) + "__"
 
+        # Different messages can be encoded the same (i.e. "%d" and "37d")
+        while logId in self.logId2Code and \
+                (self.logId2Code[logId]["fmtString"] != fmtString or
+                 self.logId2Code[logId]["filename"] != filename or
+                 self.logId2Code[logId]["logLevel"].strip() != logLevel.strip()):
+            logId += "_"
+
         # If we've already generated code for this invocation, don't do it again
         if self.logId2Code.get(logId):
             code = self.logId2Code.get(logId)
-- 
2.43.0


From def3dfc0831abddef0825e70826b2e48ca0d9b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:06 +0000
Subject: [PATCH 27/31] fix: formats with invalid lengths or conversions passed
 the compile-time analysis and were misdecoded

---
 runtime/NanoLogCpp17.h | 45 ++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 43 insertions(+), 2 deletions(-)

diff --git a/runtime/NanoLogCpp17.h b/runtime/NanoLogCpp17.h
index 598e10c..54616ec 100644
--- a/runtime/NanoLogCpp17.h
+++ b/runtime/NanoLogCpp17.h
@@ -64,8 +64,7 @@ isTerminal(char c)
                 || c == 'g' || c == 'G'
                 || c == 'a' || c == 'A'
                 || c == 'c' || c == 'p'
-                || c == '%' || c == 's'
-                || c == 'n';
+                || c == 's' || c == 'n';
 }
 
 /**
@@ -114,6 +113,40 @@ isDigit(char c) {
     return (c >= '0' && c <= '9');
 }
 
+/**
+ * Checks whether a length field can be used with a terminal according to the
+ * printf specification: http://www.cplusplus.com/reference/cstdio/printf/
+ *
+ * \param length
+ *      start of the length field
+ * \param n
+ *      number of characters in the length field
+ * \param terminal
+ *      terminal that follows the length field
+ * \return
+ *      true if the combination is valid
+ */
+constexpr inline bool
+isValidLength(const char *length, int n, char terminal)
+{
+    if (n == 0)
+        return true;
+
+    switch (terminal) {
+        case 'd': case 'i':
+        case 'u': case 'o': case 'x': case 'X':
+            return (n == 1 && length[0] != 'L')
+                    || (n == 2 && length[0] == length[1]
+                            && (length[0] == 'h' || length[0] == 'l'));
+        case 's': case 'c':
+            return n == 1 && length[0] == 'l';
+        case 'p':
+            return false;
+        default: // floating points
+            return n == 1 && (length[0] == 'l' || length[0] == 'L');
+    }
+}
+
 /**
  * Analyzes a static printf style format string and extracts type information
  * about the p-th parameter that would be used in a corresponding NANO_LOG()
@@ -196,6 +229,7 @@ getParamInfo(const char (&fmt)[N],
                 }
 
                 // consume length
+                int lengthPos = pos;
                 while (isLength(fmt[pos]))
                     ++pos;
 
@@ -212,6 +246,13 @@ getParamInfo(const char (&fmt)[N],
                             "%n specifiers are not support in NanoLog!");
                 }
 
+                // Fail on length fields that the decompressor can't make sense of
+                if (!NanoLogInternal::isValidLength(&fmt[lengthPos],
+                                                    pos - lengthPos, fmt[pos])) {
+                    throw std::invalid_argument(
+                            "Invalid length for the format specifier");
+                }
+
                 if (paramNum != 0) {
                     --paramNum;
                     ++pos;
-- 
2.43.0


From 7495c556ddf0f0d94d8275132891ec2a8a153313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:34 +0000
Subject: [PATCH 28/31] fix: rcdfTime converted latencies at the clock rate of
 the decompressing host

---
 runtime/Log.h              | 6 ++++++
 runtime/LogDecompressor.cc | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/runtime/Log.h b/runtime/Log.h
index de51695..34c0949 100644
--- a/runtime/Log.h
+++ b/runtime/Log.h
@@ -875,6 +875,12 @@ namespace Log {
         bool getNextLogStatement(LogMessage &logMsg,
                                  FILE *outputFd= nullptr);
 
+        /**
+         * Returns the conversion factor between the cycles of the log messages
+         * read last and 1 second, as recorded in the log.
+         */
+        double getCyclesPerSecond() const { return checkpoint.cyclesPerSecond; }
+
     PRIVATE:
         /**
          * Reads and stores a BufferExtent from the compressed log and
diff --git a/runtime/LogDecompressor.cc b/runtime/LogDecompressor.cc
index 647ed19..767e18b 100644
--- a/runtime/LogDecompressor.cc
+++ b/runtime/LogDecompressor.cc
@@ -256,7 +256,7 @@ int main(int argc, char** argv) {
         }
 
         start = PerfUtils::Cycles::rdtsc();
-        runRCDF(interLogTimes, PerfUtils::Cycles::getCyclesPerSec());
+        runRCDF(interLogTimes, decoder.getCyclesPerSecond());
         stop = PerfUtils::Cycles::rdtsc();
         double rcdfTime = PerfUtils::Cycles::toSeconds(stop - start);
 
-- 
2.43.0


From 05bcceb99bb5e3771e2889886ee4e8c48e2db2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:34 +0000
Subject: [PATCH 29/31] fix: padding for O_DIRECT overwrote the start of the
 output

---
 runtime/RuntimeLogger.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/RuntimeLogger.cc b/runtime/RuntimeLogger.cc
index 123ffbf..a0b4e91 100644
--- a/runtime/RuntimeLogger.cc
+++ b/runtime/RuntimeLogger.cc
@@ -615,7 +615,7 @@ RuntimeLogger::compressionThreadMain() {
             ssize_t bytesOver = bytesToWrite % 512;
 
             if (bytesOver != 0) {
-                memset(compressingBuffer, 0, 512 - bytesOver);
+                memset(compressingBuffer + bytesToWrite, 0, 512 - bytesOver);
                 bytesToWrite = bytesToWrite + 512 - bytesOver;
                 padBytesWritten += (512 - bytesOver);
             }
-- 
2.43.0


From 21a4d7642aca6d3bc9192143d5c40a3351555a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:34 +0000
Subject: [PATCH 30/31] fix: messages larger than RELEASE_THRESHOLD were never
 written

---
 runtime/RuntimeLogger.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/runtime/RuntimeLogger.cc b/runtime/RuntimeLogger.cc
index a0b4e91..e4c8db4 100644
--- a/runtime/RuntimeLogger.cc
+++ b/runtime/RuntimeLogger.cc
@@ -433,12 +433,16 @@ RuntimeLogger::compressionThreadMain() {
                     ++(stagingBufferPeekDist[distIndex]);
 
 
-                    // Encode the data in RELEASE_THRESHOLD chunks
+                    // Encode the data in RELEASE_THRESHOLD chunks, or one
+                    // message at a time if messages are larger than that.
                     uint32_t remaining = downCast<uint32_t>(peekBytes);
                     while (remaining > 0) {
-                        long bytesToEncode = std::min(
-                                NanoLogConfig::RELEASE_THRESHOLD,
-                                remaining);
+                        auto *next = reinterpret_cast<Log::UncompressedEntry*>(
+                                peekPosition + (peekBytes - remaining));
+                        uint32_t chunk = next->entrySize;
+                        if (chunk < NanoLogConfig::RELEASE_THRESHOLD)
+                            chunk = NanoLogConfig::RELEASE_THRESHOLD;
+                        long bytesToEncode = std::min(chunk, remaining);
 #ifdef PREPROCESSOR_NANOLOG
                         long bytesRead = encoder.encodeLogMsgs(
                                 peekPosition + (peekBytes - remaining),
-- 
2.43.0


From 51b5c42143c01ab001f1792d230d3eaea573c4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:34 +0000
Subject: [PATCH 31/31] fix: decoder rejected extents that compression made
 larger than a StagingBuffer

---
 runtime/Log.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/runtime/Log.h b/runtime/Log.h
index 34c0949..53fc17f 100644
--- a/runtime/Log.h
+++ b/runtime/Log.h
@@ -889,10 +889,10 @@ namespace Log {
          */
         struct BufferFragment {
             // Stores the bytes in a compressed log BufferExtent. The size is
-            // chosen to be a little bigger than the size of a runtime
-            // StagingBuffer to account for any other entries that may be
-            // inserted at runtime.
-            char storage[NanoLogConfig::STAGING_BUFFER_SIZE
+            // chosen to fit a whole runtime StagingBuffer in the worst case,
+            // in which none of the arguments compress and there are as many
+            // Nibbles as there are data bytes.
+            char storage[2*NanoLogConfig::STAGING_BUFFER_SIZE
                                              + BufferExtent::maxSizeOfHeader()];
 
             // Number of valid bytes in storage.
-- 
2.43.0

