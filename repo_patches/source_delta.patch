From 9b769ade9b18acb02ba6910f734ad5ebb20f4016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:36 +0000
Subject: [PATCH 01/49] fix: read buffers must not serve pages that were
 overwritten, erased or failed to read

---
 lib/Distribution/embedDB.c | 38 ++++++++++++++++++++++++++++++++++++--
 src/embedDB/embedDB.c      | 38 ++++++++++++++++++++++++++++++++++++--
 2 files changed, 72 insertions(+), 4 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index a60e217..7754a4b 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -488,6 +488,7 @@ int8_t embedDBSetupVarDataStream(embedDBState *state, void *key, embedDBVarDataS
 uint32_t cleanSpline(embedDBState *state, uint32_t minPageNumber);
 void readToWriteBuf(embedDBState *state);
 void readToWriteBufVar(embedDBState *state);
+void forgetBufferedPages(id_t *bufferedPage, id_t startPage, id_t endPage);
 
 void printBitmap(char *bm) {
     for (int8_t i = 0; i <= 7; i++) {
@@ -900,6 +901,7 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
     /* if we are on a block-boundary, we erase the next page in case the erase failed and then skip to the start of the next block */
     if (pagesToBlockBoundary == blockSize) {
         int8_t eraseSuccess = state->fileInterface->erase(count, count + blockSize, state->pageSize, state->dataFile);
+        forgetBufferedPages(&state->bufferedPageId, count, count + blockSize);
         if (!eraseSuccess) {
 #ifdef PRINT_ERRORS
             printf("Error: Unable to erase data page during recovery!\n");
@@ -963,6 +965,7 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
     for (uint32_t i = 0; i < numBlocksToErase; i++) {
         eraseEndingPage = eraseStartingPage + blockSize;
         int8_t eraseSuccess = state->fileInterface->erase(eraseStartingPage, eraseEndingPage, state->pageSize, state->dataFile);
+        forgetBufferedPages(&state->bufferedPageId, eraseStartingPage, eraseEndingPage);
         if (!eraseSuccess) {
 #ifdef PRINT_ERRORS
             printf("Error: Unable to erase pages in data file!\n");
@@ -1566,6 +1569,7 @@ int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state) {
     for (size_t i = 0; i < numBlocksToErase; i++) {
         eraseEndingPage = eraseStartingPage + state->eraseSizeInPages;
         int8_t eraseSuccess = state->fileInterface->erase(eraseStartingPage, eraseEndingPage, state->pageSize, state->dataFile);
+        forgetBufferedPages(&state->bufferedPageId, eraseStartingPage, eraseEndingPage);
         if (!eraseSuccess) {
 #ifdef PRINT_ERRORS
             printf("Error: Unable to erase pages in data file when shifting record level consistency blocks!\n");
@@ -2430,6 +2434,7 @@ id_t writePage(embedDBState *state, void *buffer) {
     if (state->numAvailDataPages <= 0) {
         /* Erase pages to make space for new data */
         int8_t eraseResult = state->fileInterface->erase(physicalPageNum, physicalPageNum + state->eraseSizeInPages, state->pageSize, state->dataFile);
+        forgetBufferedPages(&state->bufferedPageId, physicalPageNum, physicalPageNum + state->eraseSizeInPages);
         if (eraseResult != 1) {
 #ifdef PRINT_ERRORS
             printf("Failed to erase data page: %i (%i)\n", pageNum, physicalPageNum);
@@ -2449,6 +2454,7 @@ id_t writePage(embedDBState *state, void *buffer) {
 
     /* Seek to page location in file */
     int32_t val = state->fileInterface->write(buffer, physicalPageNum, state->pageSize, state->dataFile);
+    forgetBufferedPages(&state->bufferedPageId, physicalPageNum, physicalPageNum + 1);
     if (val == 0) {
 #ifdef PRINT_ERRORS
         printf("Failed to write data page: %i (%i)\n", pageNum, physicalPageNum);
@@ -2495,6 +2501,7 @@ int8_t writeTemporaryPage(embedDBState *state, void *buffer) {
         uint32_t eraseEndingPage = eraseStartingPage + blockSize;
 
         int8_t eraseSuccess = state->fileInterface->erase(eraseStartingPage, eraseEndingPage, state->pageSize, state->dataFile);
+        forgetBufferedPages(&state->bufferedPageId, eraseStartingPage, eraseEndingPage);
         if (!eraseSuccess) {
 #ifdef PRINT_ERRORS
             printf("Failed to erase block starting at physical page %i in the data file.", state->nextRLCPhysicalPageLocation);
@@ -2504,7 +2511,9 @@ int8_t writeTemporaryPage(embedDBState *state, void *buffer) {
     }
 
     /* Write temporary page to storage */
-    int8_t writeSuccess = state->fileInterface->write(buffer, state->nextRLCPhysicalPageLocation++, state->pageSize, state->dataFile);
+    id_t physicalPageNum = state->nextRLCPhysicalPageLocation++;
+    int8_t writeSuccess = state->fileInterface->write(buffer, physicalPageNum, state->pageSize, state->dataFile);
+    forgetBufferedPages(&state->bufferedPageId, physicalPageNum, physicalPageNum + 1);
     if (!writeSuccess) {
 #ifdef PRINT_ERRORS
         printf("Failed to write temporary page for record-level-consistency: Logical Page Number %i - Physical Page (%i)\n", state->nextDataPageId, state->nextRLCPhysicalPageLocation - 1);
@@ -2562,6 +2571,7 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
     if (state->numAvailIndexPages <= 0) {
         // Erase index pages to make room for new page
         int8_t eraseResult = state->fileInterface->erase(physicalPageNumber, physicalPageNumber + state->eraseSizeInPages, state->pageSize, state->indexFile);
+        forgetBufferedPages(&state->bufferedIndexPageId, physicalPageNumber, physicalPageNumber + state->eraseSizeInPages);
         if (eraseResult != 1) {
 #ifdef PRINT_ERRORS
             printf("Failed to erase data page: %i (%i)\n", pageNum, physicalPageNumber);
@@ -2574,6 +2584,7 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
 
     /* Seek to page location in file */
     int32_t val = state->fileInterface->write(buffer, physicalPageNumber, state->pageSize, state->indexFile);
+    forgetBufferedPages(&state->bufferedIndexPageId, physicalPageNumber, physicalPageNumber + 1);
     if (val == 0) {
 #ifdef PRINT_ERRORS
         printf("Failed to write index page: %i (%i)\n", pageNum, physicalPageNumber);
@@ -2604,6 +2615,7 @@ id_t writeVariablePage(embedDBState *state, void *buffer) {
     // Erase data if needed
     if (state->numAvailVarPages <= 0) {
         int8_t eraseResult = state->fileInterface->erase(physicalPageId, physicalPageId + state->eraseSizeInPages, state->pageSize, state->varFile);
+        forgetBufferedPages(&state->bufferedVarPage, physicalPageId, physicalPageId + state->eraseSizeInPages);
         if (eraseResult != 1) {
 #ifdef PRINT_ERRORS
             printf("Failed to erase data page: %i (%i)\n", state->nextVarPageId, physicalPageId);
@@ -2629,6 +2641,7 @@ id_t writeVariablePage(embedDBState *state, void *buffer) {
 
     // Write to file
     uint32_t val = state->fileInterface->write(buffer, physicalPageId, state->pageSize, state->varFile);
+    forgetBufferedPages(&state->bufferedVarPage, physicalPageId, physicalPageId + 1);
     if (val == 0) {
 #ifndef PRINT
         printf("Failed to write vardata page: %i\n", state->nextVarPageId);
@@ -2654,6 +2667,8 @@ void readToWriteBuf(embedDBState *state) {
     void *writeBuf = (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_WRITE_BUFFER;
     // copy write buffer to the read buffer.
     memcpy(readBuf, writeBuf, state->pageSize);
+    // the read buffer no longer holds a page from storage
+    state->bufferedPageId = -1;
 }
 
 /**
@@ -2667,6 +2682,20 @@ void readToWriteBufVar(embedDBState *state) {
     void *writeBuf = (int8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_WRITE_BUFFER(state->parameters);
     // copy write buffer to the read buffer.
     memcpy(readBuf, writeBuf, state->pageSize);
+    // the read buffer no longer holds a page from storage
+    state->bufferedVarPage = -1;
+}
+
+/**
+ * @brief	Forgets the page held in a read buffer if its contents on storage have changed.
+ * @param	bufferedPage	Physical page number currently in the read buffer
+ * @param	startPage		First physical page that changed
+ * @param	endPage			Physical page after the last one that changed
+ */
+void forgetBufferedPages(id_t *bufferedPage, id_t startPage, id_t endPage) {
+    if (*bufferedPage >= startPage && *bufferedPage < endPage) {
+        *bufferedPage = -1;
+    }
 }
 
 /**
@@ -2686,6 +2715,8 @@ int8_t readPage(embedDBState *state, id_t pageNum) {
 
     /* Page is not in buffer. Read from storage. */
     /* Read page into start of buffer 1 */
+    /* The buffer no longer holds the previously buffered page, even if the read fails */
+    state->bufferedPageId = -1;
     if (0 == state->fileInterface->read(buf, pageNum, state->pageSize, state->dataFile))
         return -1;
 
@@ -2711,6 +2742,8 @@ int8_t readIndexPage(embedDBState *state, id_t pageNum) {
 
     /* Page is not in buffer. Read from storage. */
     /* Read page into start of buffer */
+    /* The buffer no longer holds the previously buffered page, even if the read fails */
+    state->bufferedIndexPageId = -1;
     if (0 == state->fileInterface->read(buf, pageNum, state->pageSize, state->indexFile))
         return -1;
 
@@ -2735,7 +2768,8 @@ int8_t readVariablePage(embedDBState *state, id_t pageNum) {
     // Get buffer to read into
     void *buf = (int8_t *)state->buffer + EMBEDDB_VAR_READ_BUFFER(state->parameters) * state->pageSize;
 
-    // Read in one page worth of data
+    // Read in one page worth of data. The buffer no longer holds the previously buffered page, even if the read fails
+    state->bufferedVarPage = -1;
     if (state->fileInterface->read(buf, pageNum, state->pageSize, state->varFile) == 0) {
         return -1;
     }
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 5e6b43f..cdfb882 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -64,6 +64,7 @@ int8_t embedDBSetupVarDataStream(embedDBState *state, void *key, embedDBVarDataS
 uint32_t cleanSpline(embedDBState *state, uint32_t minPageNumber);
 void readToWriteBuf(embedDBState *state);
 void readToWriteBufVar(embedDBState *state);
+void forgetBufferedPages(id_t *bufferedPage, id_t startPage, id_t endPage);
 
 void printBitmap(char *bm) {
     for (int8_t i = 0; i <= 7; i++) {
@@ -476,6 +477,7 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
     /* if we are on a block-boundary, we erase the next page in case the erase failed and then skip to the start of the next block */
     if (pagesToBlockBoundary == blockSize) {
         int8_t eraseSuccess = state->fileInterface->erase(count, count + blockSize, state->pageSize, state->dataFile);
+        forgetBufferedPages(&state->bufferedPageId, count, count + blockSize);
         if (!eraseSuccess) {
 #ifdef PRINT_ERRORS
             printf("Error: Unable to erase data page during recovery!\n");
@@ -539,6 +541,7 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
     for (uint32_t i = 0; i < numBlocksToErase; i++) {
         eraseEndingPage = eraseStartingPage + blockSize;
         int8_t eraseSuccess = state->fileInterface->erase(eraseStartingPage, eraseEndingPage, state->pageSize, state->dataFile);
+        forgetBufferedPages(&state->bufferedPageId, eraseStartingPage, eraseEndingPage);
         if (!eraseSuccess) {
 #ifdef PRINT_ERRORS
             printf("Error: Unable to erase pages in data file!\n");
@@ -1142,6 +1145,7 @@ int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state) {
     for (size_t i = 0; i < numBlocksToErase; i++) {
         eraseEndingPage = eraseStartingPage + state->eraseSizeInPages;
         int8_t eraseSuccess = state->fileInterface->erase(eraseStartingPage, eraseEndingPage, state->pageSize, state->dataFile);
+        forgetBufferedPages(&state->bufferedPageId, eraseStartingPage, eraseEndingPage);
         if (!eraseSuccess) {
 #ifdef PRINT_ERRORS
             printf("Error: Unable to erase pages in data file when shifting record level consistency blocks!\n");
@@ -2006,6 +2010,7 @@ id_t writePage(embedDBState *state, void *buffer) {
     if (state->numAvailDataPages <= 0) {
         /* Erase pages to make space for new data */
         int8_t eraseResult = state->fileInterface->erase(physicalPageNum, physicalPageNum + state->eraseSizeInPages, state->pageSize, state->dataFile);
+        forgetBufferedPages(&state->bufferedPageId, physicalPageNum, physicalPageNum + state->eraseSizeInPages);
         if (eraseResult != 1) {
 #ifdef PRINT_ERRORS
             printf("Failed to erase data page: %i (%i)\n", pageNum, physicalPageNum);
@@ -2025,6 +2030,7 @@ id_t writePage(embedDBState *state, void *buffer) {
 
     /* Seek to page location in file */
     int32_t val = state->fileInterface->write(buffer, physicalPageNum, state->pageSize, state->dataFile);
+    forgetBufferedPages(&state->bufferedPageId, physicalPageNum, physicalPageNum + 1);
     if (val == 0) {
 #ifdef PRINT_ERRORS
         printf("Failed to write data page: %i (%i)\n", pageNum, physicalPageNum);
@@ -2071,6 +2077,7 @@ int8_t writeTemporaryPage(embedDBState *state, void *buffer) {
         uint32_t eraseEndingPage = eraseStartingPage + blockSize;
 
         int8_t eraseSuccess = state->fileInterface->erase(eraseStartingPage, eraseEndingPage, state->pageSize, state->dataFile);
+        forgetBufferedPages(&state->bufferedPageId, eraseStartingPage, eraseEndingPage);
         if (!eraseSuccess) {
 #ifdef PRINT_ERRORS
             printf("Failed to erase block starting at physical page %i in the data file.", state->nextRLCPhysicalPageLocation);
@@ -2080,7 +2087,9 @@ int8_t writeTemporaryPage(embedDBState *state, void *buffer) {
     }
 
     /* Write temporary page to storage */
-    int8_t writeSuccess = state->fileInterface->write(buffer, state->nextRLCPhysicalPageLocation++, state->pageSize, state->dataFile);
+    id_t physicalPageNum = state->nextRLCPhysicalPageLocation++;
+    int8_t writeSuccess = state->fileInterface->write(buffer, physicalPageNum, state->pageSize, state->dataFile);
+    forgetBufferedPages(&state->bufferedPageId, physicalPageNum, physicalPageNum + 1);
     if (!writeSuccess) {
 #ifdef PRINT_ERRORS
         printf("Failed to write temporary page for record-level-consistency: Logical Page Number %i - Physical Page (%i)\n", state->nextDataPageId, state->nextRLCPhysicalPageLocation - 1);
@@ -2138,6 +2147,7 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
     if (state->numAvailIndexPages <= 0) {
         // Erase index pages to make room for new page
         int8_t eraseResult = state->fileInterface->erase(physicalPageNumber, physicalPageNumber + state->eraseSizeInPages, state->pageSize, state->indexFile);
+        forgetBufferedPages(&state->bufferedIndexPageId, physicalPageNumber, physicalPageNumber + state->eraseSizeInPages);
         if (eraseResult != 1) {
 #ifdef PRINT_ERRORS
             printf("Failed to erase data page: %i (%i)\n", pageNum, physicalPageNumber);
@@ -2150,6 +2160,7 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
 
     /* Seek to page location in file */
     int32_t val = state->fileInterface->write(buffer, physicalPageNumber, state->pageSize, state->indexFile);
+    forgetBufferedPages(&state->bufferedIndexPageId, physicalPageNumber, physicalPageNumber + 1);
     if (val == 0) {
 #ifdef PRINT_ERRORS
         printf("Failed to write index page: %i (%i)\n", pageNum, physicalPageNumber);
@@ -2180,6 +2191,7 @@ id_t writeVariablePage(embedDBState *state, void *buffer) {
     // Erase data if needed
     if (state->numAvailVarPages <= 0) {
         int8_t eraseResult = state->fileInterface->erase(physicalPageId, physicalPageId + state->eraseSizeInPages, state->pageSize, state->varFile);
+        forgetBufferedPages(&state->bufferedVarPage, physicalPageId, physicalPageId + state->eraseSizeInPages);
         if (eraseResult != 1) {
 #ifdef PRINT_ERRORS
             printf("Failed to erase data page: %i (%i)\n", state->nextVarPageId, physicalPageId);
@@ -2205,6 +2217,7 @@ id_t writeVariablePage(embedDBState *state, void *buffer) {
 
     // Write to file
     uint32_t val = state->fileInterface->write(buffer, physicalPageId, state->pageSize, state->varFile);
+    forgetBufferedPages(&state->bufferedVarPage, physicalPageId, physicalPageId + 1);
     if (val == 0) {
 #ifndef PRINT
         printf("Failed to write vardata page: %i\n", state->nextVarPageId);
@@ -2230,6 +2243,8 @@ void readToWriteBuf(embedDBState *state) {
     void *writeBuf = (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_WRITE_BUFFER;
     // copy write buffer to the read buffer.
     memcpy(readBuf, writeBuf, state->pageSize);
+    // the read buffer no longer holds a page from storage
+    state->bufferedPageId = -1;
 }
 
 /**
@@ -2243,6 +2258,20 @@ void readToWriteBufVar(embedDBState *state) {
     void *writeBuf = (int8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_WRITE_BUFFER(state->parameters);
     // copy write buffer to the read buffer.
     memcpy(readBuf, writeBuf, state->pageSize);
+    // the read buffer no longer holds a page from storage
+    state->bufferedVarPage = -1;
+}
+
+/**
+ * @brief	Forgets the page held in a read buffer if its contents on storage have changed.
+ * @param	bufferedPage	Physical page number currently in the read buffer
+ * @param	startPage		First physical page that changed
+ * @param	endPage			Physical page after the last one that changed
+ */
+void forgetBufferedPages(id_t *bufferedPage, id_t startPage, id_t endPage) {
+    if (*bufferedPage >= startPage && *bufferedPage < endPage) {
+        *bufferedPage = -1;
+    }
 }
 
 /**
@@ -2262,6 +2291,8 @@ int8_t readPage(embedDBState *state, id_t pageNum) {
 
     /* Page is not in buffer. Read from storage. */
     /* Read page into start of buffer 1 */
+    /* The buffer no longer holds the previously buffered page, even if the read fails */
+    state->bufferedPageId = -1;
     if (0 == state->fileInterface->read(buf, pageNum, state->pageSize, state->dataFile))
         return -1;
 
@@ -2287,6 +2318,8 @@ int8_t readIndexPage(embedDBState *state, id_t pageNum) {
 
     /* Page is not in buffer. Read from storage. */
     /* Read page into start of buffer */
+    /* The buffer no longer holds the previously buffered page, even if the read fails */
+    state->bufferedIndexPageId = -1;
     if (0 == state->fileInterface->read(buf, pageNum, state->pageSize, state->indexFile))
         return -1;
 
@@ -2311,7 +2344,8 @@ int8_t readVariablePage(embedDBState *state, id_t pageNum) {
     // Get buffer to read into
     void *buf = (int8_t *)state->buffer + EMBEDDB_VAR_READ_BUFFER(state->parameters) * state->pageSize;
 
-    // Read in one page worth of data
+    // Read in one page worth of data. The buffer no longer holds the previously buffered page, even if the read fails
+    state->bufferedVarPage = -1;
     if (state->fileInterface->read(buf, pageNum, state->pageSize, state->varFile) == 0) {
         return -1;
     }
-- 
2.43.0


From 7bc0f6fba35dc5d84eb3c52164830a3bd6ae6449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:55 +0000
Subject: [PATCH 02/49] fix: embedDBNextVar read the variable data of a wrong
 record for records in the write buffer

---
 lib/Distribution/embedDB.c | 7 +++++--
 src/embedDB/embedDB.c      | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 7754a4b..7842e23 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2257,9 +2257,12 @@ int8_t embedDBNextVar(embedDBState *state, embedDBIterator *it, void *key, void
     }
 
     void *outputBuffer = (int8_t *)state->buffer;
-    if (it->nextDataPage == 0 && (EMBEDDB_GET_COUNT(outputBuffer) > 0)) {
+    if (it->nextDataPage == state->nextDataPageId && (EMBEDDB_GET_COUNT(outputBuffer) > 0)) {
+        // The record is in the write buffer, its variable data may not be in storage yet
+        if (embedDBFlushVar(state) != 0) {
+            return 0;
+        }
         readToWriteBuf(state);
-        embedDBFlushVar(state);
     }
 
     // Get the vardata address from the record
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index cdfb882..0d2448e 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1833,9 +1833,12 @@ int8_t embedDBNextVar(embedDBState *state, embedDBIterator *it, void *key, void
     }
 
     void *outputBuffer = (int8_t *)state->buffer;
-    if (it->nextDataPage == 0 && (EMBEDDB_GET_COUNT(outputBuffer) > 0)) {
+    if (it->nextDataPage == state->nextDataPageId && (EMBEDDB_GET_COUNT(outputBuffer) > 0)) {
+        // The record is in the write buffer, its variable data may not be in storage yet
+        if (embedDBFlushVar(state) != 0) {
+            return 0;
+        }
         readToWriteBuf(state);
-        embedDBFlushVar(state);
     }
 
     // Get the vardata address from the record
-- 
2.43.0


From d6cf8f7b07616e8e8f3a3998999de6a1b33012e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:02 +0000
Subject: [PATCH 03/49] fix: embedDBPut must compare with the last record of a
 partially filled page, and not use a page it failed to read

---
 lib/Distribution/embedDB.c | 11 ++++++++---
 src/embedDB/embedDB.c      | 11 ++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 7842e23..13e38f9 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1435,9 +1435,14 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
     if (state->nextDataPageId > 0 || count > 0) {
         void *previousKey = NULL;
         if (count == 0) {
-            readPage(state, (state->nextDataPageId - 1) % state->numDataPages);
-            previousKey = ((int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER) +
-                          (state->recordSize * (state->maxRecordsPerPage - 1)) + state->headerSize;
+            if (readPage(state, (state->nextDataPageId - 1) % state->numDataPages) != 0) {
+#ifdef PRINT_ERRORS
+                printf("Failed to read the previous data page during embedDBPut.\n");
+#endif
+                return -1;
+            }
+            /* The last page written may not be full if it was flushed */
+            previousKey = embedDBGetMaxKey(state, (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER);
         } else {
             previousKey = (int8_t *)state->buffer + (state->recordSize * (count - 1)) + state->headerSize;
         }
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 0d2448e..cb2e197 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1011,9 +1011,14 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
     if (state->nextDataPageId > 0 || count > 0) {
         void *previousKey = NULL;
         if (count == 0) {
-            readPage(state, (state->nextDataPageId - 1) % state->numDataPages);
-            previousKey = ((int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER) +
-                          (state->recordSize * (state->maxRecordsPerPage - 1)) + state->headerSize;
+            if (readPage(state, (state->nextDataPageId - 1) % state->numDataPages) != 0) {
+#ifdef PRINT_ERRORS
+                printf("Failed to read the previous data page during embedDBPut.\n");
+#endif
+                return -1;
+            }
+            /* The last page written may not be full if it was flushed */
+            previousKey = embedDBGetMaxKey(state, (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER);
         } else {
             previousKey = (int8_t *)state->buffer + (state->recordSize * (count - 1)) + state->headerSize;
         }
-- 
2.43.0


From 12d1aa1b4dbfe9de7c012142ba492ae9ae1fc731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:28 +0000
Subject: [PATCH 04/49] fix: a failed page write must not use up a page number

---
 lib/Distribution/embedDB.c | 8 ++++++--
 src/embedDB/embedDB.c      | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 13e38f9..1a136a1 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2433,7 +2433,7 @@ id_t writePage(embedDBState *state, void *buffer) {
         return -1;
 
     /* Always writes to next page number. Returned to user. */
-    id_t pageNum = state->nextDataPageId++;
+    id_t pageNum = state->nextDataPageId;
     id_t physicalPageNum = pageNum % state->numDataPages;
 
     /* Setup page number in header */
@@ -2470,6 +2470,8 @@ id_t writePage(embedDBState *state, void *buffer) {
         return -1;
     }
 
+    /* The page number is only used up once the page is written */
+    state->nextDataPageId++;
     state->numAvailDataPages--;
     state->numWrites++;
 
@@ -2570,7 +2572,7 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
         return -1;
 
     /* Always writes to next page number. Returned to user. */
-    id_t pageNum = state->nextIdxPageId++;
+    id_t pageNum = state->nextIdxPageId;
     id_t physicalPageNumber = pageNum % state->numIndexPages;
 
     /* Setup page number in header */
@@ -2600,6 +2602,8 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
         return -1;
     }
 
+    /* The page number is only used up once the page is written */
+    state->nextIdxPageId++;
     state->numAvailIndexPages--;
     state->numIdxWrites++;
 
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index cb2e197..75cb4d2 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -2009,7 +2009,7 @@ id_t writePage(embedDBState *state, void *buffer) {
         return -1;
 
     /* Always writes to next page number. Returned to user. */
-    id_t pageNum = state->nextDataPageId++;
+    id_t pageNum = state->nextDataPageId;
     id_t physicalPageNum = pageNum % state->numDataPages;
 
     /* Setup page number in header */
@@ -2046,6 +2046,8 @@ id_t writePage(embedDBState *state, void *buffer) {
         return -1;
     }
 
+    /* The page number is only used up once the page is written */
+    state->nextDataPageId++;
     state->numAvailDataPages--;
     state->numWrites++;
 
@@ -2146,7 +2148,7 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
         return -1;
 
     /* Always writes to next page number. Returned to user. */
-    id_t pageNum = state->nextIdxPageId++;
+    id_t pageNum = state->nextIdxPageId;
     id_t physicalPageNumber = pageNum % state->numIndexPages;
 
     /* Setup page number in header */
@@ -2176,6 +2178,8 @@ id_t writeIndexPage(embedDBState *state, void *buffer) {
         return -1;
     }
 
+    /* The page number is only used up once the page is written */
+    state->nextIdxPageId++;
     state->numAvailIndexPages--;
     state->numIdxWrites++;
 
-- 
2.43.0


From 520953445ca4c6a51cb2bf1838cd277b7dbbd6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:35 +0000
Subject: [PATCH 05/49] fix: embedDBPut must report a failed page write and
 keep the records buffered

---
 lib/Distribution/embedDB.c | 46 ++++++++++++++++++++++++++++----------
 src/embedDB/embedDB.c      | 46 ++++++++++++++++++++++++++++----------
 2 files changed, 68 insertions(+), 24 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 1a136a1..09d858d 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -489,6 +489,7 @@ uint32_t cleanSpline(embedDBState *state, uint32_t minPageNumber);
 void readToWriteBuf(embedDBState *state);
 void readToWriteBufVar(embedDBState *state);
 void forgetBufferedPages(id_t *bufferedPage, id_t startPage, id_t endPage);
+int8_t makeSpaceInIndexPage(embedDBState *state);
 
 void printBitmap(char *bm) {
     for (int8_t i = 0; i <= 7; i++) {
@@ -1457,8 +1458,16 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
     /* Write current page if full */
     bool wrotePage = false;
     if (count >= state->maxRecordsPerPage) {
+        /* Make sure that the index entry of the page has a place before writing the page */
+        if (state->indexFile != NULL && makeSpaceInIndexPage(state) != 0) {
+            return -1;
+        }
+
         // As the first buffer is the data write buffer, no manipulation is required
         id_t pageNum = writePage(state, state->buffer);
+        if (pageNum == (id_t)-1) {
+            return -1;
+        }
 
         indexPage(state, pageNum);
 
@@ -1466,18 +1475,6 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
         if (state->indexFile != NULL) {
             void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
             count_t idxcount = EMBEDDB_GET_COUNT(buf);
-            if (idxcount >= state->maxIdxRecordsPerPage) {
-                /* Save index page */
-                writeIndexPage(state, buf);
-
-                idxcount = 0;
-                initBufferPage(state, EMBEDDB_INDEX_WRITE_BUFFER);
-
-                /* Add page id to minimum value spot in page */
-                id_t *ptr = (id_t *)((int8_t *)buf + 8);
-                *ptr = pageNum;
-            }
-
             EMBEDDB_INC_COUNT(buf);
 
             /* Copy record onto index page */
@@ -1558,6 +1555,31 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
     return 0;
 }
 
+/**
+ * @brief	Writes the index page in the index write buffer to storage if it is full, and starts a new one.
+ * @param	state	embedDB algorithm state structure
+ * @return	Return 0 if there is space for another entry. Non-zero value if error.
+ */
+int8_t makeSpaceInIndexPage(embedDBState *state) {
+    void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
+    if (EMBEDDB_GET_COUNT(buf) < state->maxIdxRecordsPerPage) {
+        return 0;
+    }
+
+    /* Save index page */
+    if (writeIndexPage(state, buf) == (id_t)-1) {
+        return -1;
+    }
+
+    initBufferPage(state, EMBEDDB_INDEX_WRITE_BUFFER);
+
+    /* Add page id to minimum value spot in page */
+    id_t *ptr = (id_t *)((int8_t *)buf + 8);
+    *ptr = state->nextDataPageId;
+
+    return 0;
+}
+
 int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state) {
     /* erase the record-level consistency blocks */
 
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 75cb4d2..89cb779 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -65,6 +65,7 @@ uint32_t cleanSpline(embedDBState *state, uint32_t minPageNumber);
 void readToWriteBuf(embedDBState *state);
 void readToWriteBufVar(embedDBState *state);
 void forgetBufferedPages(id_t *bufferedPage, id_t startPage, id_t endPage);
+int8_t makeSpaceInIndexPage(embedDBState *state);
 
 void printBitmap(char *bm) {
     for (int8_t i = 0; i <= 7; i++) {
@@ -1033,8 +1034,16 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
     /* Write current page if full */
     bool wrotePage = false;
     if (count >= state->maxRecordsPerPage) {
+        /* Make sure that the index entry of the page has a place before writing the page */
+        if (state->indexFile != NULL && makeSpaceInIndexPage(state) != 0) {
+            return -1;
+        }
+
         // As the first buffer is the data write buffer, no manipulation is required
         id_t pageNum = writePage(state, state->buffer);
+        if (pageNum == (id_t)-1) {
+            return -1;
+        }
 
         indexPage(state, pageNum);
 
@@ -1042,18 +1051,6 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
         if (state->indexFile != NULL) {
             void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
             count_t idxcount = EMBEDDB_GET_COUNT(buf);
-            if (idxcount >= state->maxIdxRecordsPerPage) {
-                /* Save index page */
-                writeIndexPage(state, buf);
-
-                idxcount = 0;
-                initBufferPage(state, EMBEDDB_INDEX_WRITE_BUFFER);
-
-                /* Add page id to minimum value spot in page */
-                id_t *ptr = (id_t *)((int8_t *)buf + 8);
-                *ptr = pageNum;
-            }
-
             EMBEDDB_INC_COUNT(buf);
 
             /* Copy record onto index page */
@@ -1134,6 +1131,31 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
     return 0;
 }
 
+/**
+ * @brief	Writes the index page in the index write buffer to storage if it is full, and starts a new one.
+ * @param	state	embedDB algorithm state structure
+ * @return	Return 0 if there is space for another entry. Non-zero value if error.
+ */
+int8_t makeSpaceInIndexPage(embedDBState *state) {
+    void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
+    if (EMBEDDB_GET_COUNT(buf) < state->maxIdxRecordsPerPage) {
+        return 0;
+    }
+
+    /* Save index page */
+    if (writeIndexPage(state, buf) == (id_t)-1) {
+        return -1;
+    }
+
+    initBufferPage(state, EMBEDDB_INDEX_WRITE_BUFFER);
+
+    /* Add page id to minimum value spot in page */
+    id_t *ptr = (id_t *)((int8_t *)buf + 8);
+    *ptr = state->nextDataPageId;
+
+    return 0;
+}
+
 int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state) {
     /* erase the record-level consistency blocks */
 
-- 
2.43.0


From 51477c412df3670b67ebc06bc20809a8cc18c799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:08 +0000
Subject: [PATCH 06/49] fix: embedDBFlush must report a failed flush to storage
 and not write the same page again when it is retried

---
 lib/Distribution/embedDB.c | 35 +++++++++++++++++++++++++++--------
 src/embedDB/embedDB.c      | 35 +++++++++++++++++++++++++++--------
 2 files changed, 54 insertions(+), 16 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 09d858d..8ff5098 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2104,13 +2104,19 @@ int8_t embedDBFlushVar(embedDBState *state) {
         return -1;
     }
 
-    state->fileInterface->flush(state->varFile);
     // init new buffer
     initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
     // determine how many bytes are left
     int temp = state->pageSize - (state->currentVarLoc % state->pageSize);
     // create new offset
     state->currentVarLoc += temp + state->variableDataHeaderSize;
+
+    if (state->fileInterface->flush(state->varFile) != 1) {
+#ifdef PRINT_ERRORS
+        printf("Failed to flush the variable data file during embedDBFlushVar.");
+#endif
+        return -1;
+    }
     return 0;
 }
 
@@ -2133,8 +2139,6 @@ int8_t embedDBFlush(embedDBState *state) {
         return -1;
     }
 
-    state->fileInterface->flush(state->dataFile);
-
     indexPage(state, pageNum);
 
     if (EMBEDDB_USING_INDEX(state->parameters)) {
@@ -2145,7 +2149,20 @@ int8_t embedDBFlush(embedDBState *state) {
         /* Copy record onto index page */
         void *bm = EMBEDDB_GET_BITMAP(state->buffer);
         memcpy((void *)((int8_t *)buf + EMBEDDB_IDX_HEADER_SIZE + state->bitmapSize * idxcount), bm, state->bitmapSize);
+    }
+
+    /* The page is written and indexed. Reinitialize buffer */
+    initBufferPage(state, EMBEDDB_DATA_WRITE_BUFFER);
+
+    if (state->fileInterface->flush(state->dataFile) != 1) {
+#ifdef PRINT_ERRORS
+        printf("Failed to flush the data file during embedDBFlush.");
+#endif
+        return -1;
+    }
 
+    if (EMBEDDB_USING_INDEX(state->parameters)) {
+        void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
         id_t writeResult = writeIndexPage(state, buf);
         if (writeResult == -1) {
 #ifdef PRINT_ERRORS
@@ -2154,14 +2171,16 @@ int8_t embedDBFlush(embedDBState *state) {
             return -1;
         }
 
-        state->fileInterface->flush(state->indexFile);
-
         /* Reinitialize buffer */
         initBufferPage(state, EMBEDDB_INDEX_WRITE_BUFFER);
-    }
 
-    /* Reinitialize buffer */
-    initBufferPage(state, EMBEDDB_DATA_WRITE_BUFFER);
+        if (state->fileInterface->flush(state->indexFile) != 1) {
+#ifdef PRINT_ERRORS
+            printf("Failed to flush the index file during embedDBFlush.");
+#endif
+            return -1;
+        }
+    }
 
     // Flush var data page
     if (EMBEDDB_USING_VDATA(state->parameters)) {
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 89cb779..4c7f907 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1680,13 +1680,19 @@ int8_t embedDBFlushVar(embedDBState *state) {
         return -1;
     }
 
-    state->fileInterface->flush(state->varFile);
     // init new buffer
     initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
     // determine how many bytes are left
     int temp = state->pageSize - (state->currentVarLoc % state->pageSize);
     // create new offset
     state->currentVarLoc += temp + state->variableDataHeaderSize;
+
+    if (state->fileInterface->flush(state->varFile) != 1) {
+#ifdef PRINT_ERRORS
+        printf("Failed to flush the variable data file during embedDBFlushVar.");
+#endif
+        return -1;
+    }
     return 0;
 }
 
@@ -1709,8 +1715,6 @@ int8_t embedDBFlush(embedDBState *state) {
         return -1;
     }
 
-    state->fileInterface->flush(state->dataFile);
-
     indexPage(state, pageNum);
 
     if (EMBEDDB_USING_INDEX(state->parameters)) {
@@ -1721,7 +1725,20 @@ int8_t embedDBFlush(embedDBState *state) {
         /* Copy record onto index page */
         void *bm = EMBEDDB_GET_BITMAP(state->buffer);
         memcpy((void *)((int8_t *)buf + EMBEDDB_IDX_HEADER_SIZE + state->bitmapSize * idxcount), bm, state->bitmapSize);
+    }
+
+    /* The page is written and indexed. Reinitialize buffer */
+    initBufferPage(state, EMBEDDB_DATA_WRITE_BUFFER);
+
+    if (state->fileInterface->flush(state->dataFile) != 1) {
+#ifdef PRINT_ERRORS
+        printf("Failed to flush the data file during embedDBFlush.");
+#endif
+        return -1;
+    }
 
+    if (EMBEDDB_USING_INDEX(state->parameters)) {
+        void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
         id_t writeResult = writeIndexPage(state, buf);
         if (writeResult == -1) {
 #ifdef PRINT_ERRORS
@@ -1730,14 +1747,16 @@ int8_t embedDBFlush(embedDBState *state) {
             return -1;
         }
 
-        state->fileInterface->flush(state->indexFile);
-
         /* Reinitialize buffer */
         initBufferPage(state, EMBEDDB_INDEX_WRITE_BUFFER);
-    }
 
-    /* Reinitialize buffer */
-    initBufferPage(state, EMBEDDB_DATA_WRITE_BUFFER);
+        if (state->fileInterface->flush(state->indexFile) != 1) {
+#ifdef PRINT_ERRORS
+            printf("Failed to flush the index file during embedDBFlush.");
+#endif
+            return -1;
+        }
+    }
 
     // Flush var data page
     if (EMBEDDB_USING_VDATA(state->parameters)) {
-- 
2.43.0


From 11a25605833d54929de15ae42ac0e01d1f4e16b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:16 +0000
Subject: [PATCH 07/49] fix: index pages written by embedDBFlush before they
 are full made the iterator skip matching pages

---
 lib/Distribution/embedDB.c | 22 ++++++++++++++++++----
 src/embedDB/embedDB.c      | 22 ++++++++++++++++++----
 2 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 8ff5098..df2b783 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2131,6 +2131,11 @@ int8_t embedDBFlush(embedDBState *state) {
     if (EMBEDDB_GET_COUNT(buffer) < 1)
         return 0;
 
+    /* Make sure that the index entry of the page has a place before writing the page */
+    if (EMBEDDB_USING_INDEX(state->parameters) && makeSpaceInIndexPage(state) != 0) {
+        return -1;
+    }
+
     id_t pageNum = writePage(state, buffer);
     if (pageNum == -1) {
 #ifdef PRINT_ERRORS
@@ -2174,6 +2179,10 @@ int8_t embedDBFlush(embedDBState *state) {
         /* Reinitialize buffer */
         initBufferPage(state, EMBEDDB_INDEX_WRITE_BUFFER);
 
+        /* Add page id to minimum value spot in page */
+        id_t *ptr = (id_t *)((int8_t *)buf + 8);
+        *ptr = state->nextDataPageId;
+
         if (state->fileInterface->flush(state->indexFile) != 1) {
 #ifdef PRINT_ERRORS
             printf("Failed to flush the index file during embedDBFlush.");
@@ -2217,7 +2226,6 @@ int8_t embedDBNext(embedDBState *state, embedDBIterator *it, void *key, void *da
         if (it->nextDataRec == 0 && it->queryBitmap != NULL) {
             // Find what index page determines if we should read the data page
             uint32_t indexPage = it->nextDataPage / state->maxIdxRecordsPerPage;
-            uint16_t indexRec = it->nextDataPage % state->maxIdxRecordsPerPage;
 
             if (state->indexFile != NULL && indexPage >= state->minIndexPageId && indexPage < state->nextIdxPageId) {
                 // If the index page that contains this data page exists, else we must read the data page regardless cause we don't have the index saved for it
@@ -2229,11 +2237,17 @@ int8_t embedDBNext(embedDBState *state, embedDBIterator *it, void *key, void *da
                     return 0;
                 }
 
+                // Find the entry of the data page. Index pages that were flushed before they were full hold fewer entries
+                int8_t *indexBuf = (int8_t *)state->buffer + EMBEDDB_INDEX_READ_BUFFER * state->pageSize;
+                id_t firstDataPage = 0;
+                memcpy(&firstDataPage, indexBuf + 8, sizeof(id_t));
+                uint32_t indexRec = it->nextDataPage - firstDataPage;
+
                 // Get bitmap for data page in question
-                void *indexBM = (int8_t *)state->buffer + EMBEDDB_INDEX_READ_BUFFER * state->pageSize + EMBEDDB_IDX_HEADER_SIZE + indexRec * state->bitmapSize;
+                void *indexBM = indexBuf + EMBEDDB_IDX_HEADER_SIZE + indexRec * state->bitmapSize;
 
-                // Determine if we should read the data page
-                if (!bitmapOverlap(it->queryBitmap, indexBM, state->bitmapSize)) {
+                // Determine if we should read the data page. It must be read if this index page has no entry for it
+                if (it->nextDataPage >= firstDataPage && indexRec < EMBEDDB_GET_COUNT(indexBuf) && !bitmapOverlap(it->queryBitmap, indexBM, state->bitmapSize)) {
                     // Do not read this data page, try the next one
                     it->nextDataPage++;
                     continue;
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 4c7f907..70e7053 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1707,6 +1707,11 @@ int8_t embedDBFlush(embedDBState *state) {
     if (EMBEDDB_GET_COUNT(buffer) < 1)
         return 0;
 
+    /* Make sure that the index entry of the page has a place before writing the page */
+    if (EMBEDDB_USING_INDEX(state->parameters) && makeSpaceInIndexPage(state) != 0) {
+        return -1;
+    }
+
     id_t pageNum = writePage(state, buffer);
     if (pageNum == -1) {
 #ifdef PRINT_ERRORS
@@ -1750,6 +1755,10 @@ int8_t embedDBFlush(embedDBState *state) {
         /* Reinitialize buffer */
         initBufferPage(state, EMBEDDB_INDEX_WRITE_BUFFER);
 
+        /* Add page id to minimum value spot in page */
+        id_t *ptr = (id_t *)((int8_t *)buf + 8);
+        *ptr = state->nextDataPageId;
+
         if (state->fileInterface->flush(state->indexFile) != 1) {
 #ifdef PRINT_ERRORS
             printf("Failed to flush the index file during embedDBFlush.");
@@ -1793,7 +1802,6 @@ int8_t embedDBNext(embedDBState *state, embedDBIterator *it, void *key, void *da
         if (it->nextDataRec == 0 && it->queryBitmap != NULL) {
             // Find what index page determines if we should read the data page
             uint32_t indexPage = it->nextDataPage / state->maxIdxRecordsPerPage;
-            uint16_t indexRec = it->nextDataPage % state->maxIdxRecordsPerPage;
 
             if (state->indexFile != NULL && indexPage >= state->minIndexPageId && indexPage < state->nextIdxPageId) {
                 // If the index page that contains this data page exists, else we must read the data page regardless cause we don't have the index saved for it
@@ -1805,11 +1813,17 @@ int8_t embedDBNext(embedDBState *state, embedDBIterator *it, void *key, void *da
                     return 0;
                 }
 
+                // Find the entry of the data page. Index pages that were flushed before they were full hold fewer entries
+                int8_t *indexBuf = (int8_t *)state->buffer + EMBEDDB_INDEX_READ_BUFFER * state->pageSize;
+                id_t firstDataPage = 0;
+                memcpy(&firstDataPage, indexBuf + 8, sizeof(id_t));
+                uint32_t indexRec = it->nextDataPage - firstDataPage;
+
                 // Get bitmap for data page in question
-                void *indexBM = (int8_t *)state->buffer + EMBEDDB_INDEX_READ_BUFFER * state->pageSize + EMBEDDB_IDX_HEADER_SIZE + indexRec * state->bitmapSize;
+                void *indexBM = indexBuf + EMBEDDB_IDX_HEADER_SIZE + indexRec * state->bitmapSize;
 
-                // Determine if we should read the data page
-                if (!bitmapOverlap(it->queryBitmap, indexBM, state->bitmapSize)) {
+                // Determine if we should read the data page. It must be read if this index page has no entry for it
+                if (it->nextDataPage >= firstDataPage && indexRec < EMBEDDB_GET_COUNT(indexBuf) && !bitmapOverlap(it->queryBitmap, indexBM, state->bitmapSize)) {
                     // Do not read this data page, try the next one
                     it->nextDataPage++;
                     continue;
-- 
2.43.0


From 1be292049f5c7e708cb251b7dd8facd8d65bb98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:43 +0000
Subject: [PATCH 08/49] fix: variable data must reach storage before the data
 page that refers to it

---
 lib/Distribution/embedDB.c | 26 ++++++++++++++++----------
 src/embedDB/embedDB.c      | 26 ++++++++++++++++----------
 2 files changed, 32 insertions(+), 20 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index df2b783..a11f0ce 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1458,6 +1458,11 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
     /* Write current page if full */
     bool wrotePage = false;
     if (count >= state->maxRecordsPerPage) {
+        /* The variable data of the records on the page must be in storage before the page is */
+        if (EMBEDDB_USING_VDATA(state->parameters) && embedDBFlushVar(state) != 0) {
+            return -1;
+        }
+
         /* Make sure that the index entry of the page has a place before writing the page */
         if (state->indexFile != NULL && makeSpaceInIndexPage(state) != 0) {
             return -1;
@@ -2131,6 +2136,17 @@ int8_t embedDBFlush(embedDBState *state) {
     if (EMBEDDB_GET_COUNT(buffer) < 1)
         return 0;
 
+    // Flush var data page first, the records on the data page refer to it
+    if (EMBEDDB_USING_VDATA(state->parameters)) {
+        int8_t varFlushResult = embedDBFlushVar(state);
+        if (varFlushResult != 0) {
+#ifdef PRINT_ERRORS
+            printf("Failed to flush variable data page");
+#endif
+            return -1;
+        }
+    }
+
     /* Make sure that the index entry of the page has a place before writing the page */
     if (EMBEDDB_USING_INDEX(state->parameters) && makeSpaceInIndexPage(state) != 0) {
         return -1;
@@ -2191,16 +2207,6 @@ int8_t embedDBFlush(embedDBState *state) {
         }
     }
 
-    // Flush var data page
-    if (EMBEDDB_USING_VDATA(state->parameters)) {
-        int8_t varFlushResult = embedDBFlushVar(state);
-        if (varFlushResult != 0) {
-#ifdef PRINT_ERRORS
-            printf("Failed to flush variable data page");
-#endif
-            return -1;
-        }
-    }
     return 0;
 }
 
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 70e7053..2e14492 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1034,6 +1034,11 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
     /* Write current page if full */
     bool wrotePage = false;
     if (count >= state->maxRecordsPerPage) {
+        /* The variable data of the records on the page must be in storage before the page is */
+        if (EMBEDDB_USING_VDATA(state->parameters) && embedDBFlushVar(state) != 0) {
+            return -1;
+        }
+
         /* Make sure that the index entry of the page has a place before writing the page */
         if (state->indexFile != NULL && makeSpaceInIndexPage(state) != 0) {
             return -1;
@@ -1707,6 +1712,17 @@ int8_t embedDBFlush(embedDBState *state) {
     if (EMBEDDB_GET_COUNT(buffer) < 1)
         return 0;
 
+    // Flush var data page first, the records on the data page refer to it
+    if (EMBEDDB_USING_VDATA(state->parameters)) {
+        int8_t varFlushResult = embedDBFlushVar(state);
+        if (varFlushResult != 0) {
+#ifdef PRINT_ERRORS
+            printf("Failed to flush variable data page");
+#endif
+            return -1;
+        }
+    }
+
     /* Make sure that the index entry of the page has a place before writing the page */
     if (EMBEDDB_USING_INDEX(state->parameters) && makeSpaceInIndexPage(state) != 0) {
         return -1;
@@ -1767,16 +1783,6 @@ int8_t embedDBFlush(embedDBState *state) {
         }
     }
 
-    // Flush var data page
-    if (EMBEDDB_USING_VDATA(state->parameters)) {
-        int8_t varFlushResult = embedDBFlushVar(state);
-        if (varFlushResult != 0) {
-#ifdef PRINT_ERRORS
-            printf("Failed to flush variable data page");
-#endif
-            return -1;
-        }
-    }
     return 0;
 }
 
-- 
2.43.0


From d6e42d547d2ea2517c92d102ca1bf1fe4c007fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:51 +0000
Subject: [PATCH 09/49] fix: variable data operations must report failed writes
 and missing variable data support

---
 lib/Distribution/embedDB.c | 20 ++++++++++++++------
 src/embedDB/embedDB.c      | 20 ++++++++++++++------
 2 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index a11f0ce..175f2aa 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1663,7 +1663,9 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
      */
     void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
     if (state->currentVarLoc % state->pageSize > state->pageSize - 4 || (!(EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) && EMBEDDB_GET_COUNT(state->buffer) >= state->maxRecordsPerPage)) {
-        writeVariablePage(state, buf);
+        if (writeVariablePage(state, buf) == (id_t)-1) {
+            return -1;
+        }
         initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
         // Move data writing location to the beginning of the next page, leaving the room for the header
         state->currentVarLoc += state->pageSize - state->currentVarLoc % state->pageSize + state->variableDataHeaderSize;
@@ -1695,7 +1697,9 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
 
     // Check if we need to write after doing that
     if (state->currentVarLoc % state->pageSize == 0) {
-        writeVariablePage(state, buf);
+        if (writeVariablePage(state, buf) == (id_t)-1) {
+            return -1;
+        }
         initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
 
         // Update the header to include the maximum key value stored on this page
@@ -1714,7 +1718,9 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
 
         // If we need to write the buffer to file
         if (state->currentVarLoc % state->pageSize == 0) {
-            writeVariablePage(state, buf);
+            if (writeVariablePage(state, buf) == (id_t)-1) {
+                return -1;
+            }
             initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
 
             // Update the header to include the maximum key value stored on this page and account for page number
@@ -1724,7 +1730,7 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
     }
 
     if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) {
-        embedDBFlushVar(state);
+        return embedDBFlushVar(state);
     }
 
     return 0;
@@ -2002,7 +2008,7 @@ int8_t embedDBGetVar(embedDBState *state, void *key, void *data, embedDBVarDataS
 #ifdef PRINT_ERRORS
         printf("ERROR: embedDBGetVar called when not using variable data\n");
 #endif
-        return 0;
+        return -1;
     }
     void *outputBuffer = (int8_t *)state->buffer;
 
@@ -2012,7 +2018,9 @@ int8_t embedDBGetVar(embedDBState *state, void *key, void *data, embedDBVarDataS
     // if there are records found in the output buffer
     if (recordNum != NO_RECORD_FOUND) {
         // flush variable record buffer to storage to read later on
-        embedDBFlushVar(state);
+        if (embedDBFlushVar(state) != 0) {
+            return -1;
+        }
         // copy contents of write buffer to read buffer for embedDBSetupVarDataStream()
         readToWriteBuf(state);
         // else if there are records in the file system, mem cpy fixed record into data
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 2e14492..88909b7 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1239,7 +1239,9 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
      */
     void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
     if (state->currentVarLoc % state->pageSize > state->pageSize - 4 || (!(EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) && EMBEDDB_GET_COUNT(state->buffer) >= state->maxRecordsPerPage)) {
-        writeVariablePage(state, buf);
+        if (writeVariablePage(state, buf) == (id_t)-1) {
+            return -1;
+        }
         initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
         // Move data writing location to the beginning of the next page, leaving the room for the header
         state->currentVarLoc += state->pageSize - state->currentVarLoc % state->pageSize + state->variableDataHeaderSize;
@@ -1271,7 +1273,9 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
 
     // Check if we need to write after doing that
     if (state->currentVarLoc % state->pageSize == 0) {
-        writeVariablePage(state, buf);
+        if (writeVariablePage(state, buf) == (id_t)-1) {
+            return -1;
+        }
         initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
 
         // Update the header to include the maximum key value stored on this page
@@ -1290,7 +1294,9 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
 
         // If we need to write the buffer to file
         if (state->currentVarLoc % state->pageSize == 0) {
-            writeVariablePage(state, buf);
+            if (writeVariablePage(state, buf) == (id_t)-1) {
+                return -1;
+            }
             initBufferPage(state, EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
 
             // Update the header to include the maximum key value stored on this page and account for page number
@@ -1300,7 +1306,7 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
     }
 
     if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) {
-        embedDBFlushVar(state);
+        return embedDBFlushVar(state);
     }
 
     return 0;
@@ -1578,7 +1584,7 @@ int8_t embedDBGetVar(embedDBState *state, void *key, void *data, embedDBVarDataS
 #ifdef PRINT_ERRORS
         printf("ERROR: embedDBGetVar called when not using variable data\n");
 #endif
-        return 0;
+        return -1;
     }
     void *outputBuffer = (int8_t *)state->buffer;
 
@@ -1588,7 +1594,9 @@ int8_t embedDBGetVar(embedDBState *state, void *key, void *data, embedDBVarDataS
     // if there are records found in the output buffer
     if (recordNum != NO_RECORD_FOUND) {
         // flush variable record buffer to storage to read later on
-        embedDBFlushVar(state);
+        if (embedDBFlushVar(state) != 0) {
+            return -1;
+        }
         // copy contents of write buffer to read buffer for embedDBSetupVarDataStream()
         readToWriteBuf(state);
         // else if there are records in the file system, mem cpy fixed record into data
-- 
2.43.0


From 1f0e632a4ef27e5cb0f52976f2f39bc83d2d1662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:09 +0000
Subject: [PATCH 10/49] fix: record-level consistency blocks must move when
 embedDBFlush fills an erase block, and a failure to move them must be
 reported

---
 lib/Distribution/embedDB.c | 10 +++++-----
 src/embedDB/embedDB.c      | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 175f2aa..510ad55 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1456,7 +1456,6 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
     }
 
     /* Write current page if full */
-    bool wrotePage = false;
     if (count >= state->maxRecordsPerPage) {
         /* The variable data of the records on the page must be in storage before the page is */
         if (EMBEDDB_USING_VDATA(state->parameters) && embedDBFlushVar(state) != 0) {
@@ -1491,7 +1490,6 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
 
         count = 0;
         initBufferPage(state, 0);
-        wrotePage = true;
     }
 
     /* Copy record onto page */
@@ -1549,10 +1547,12 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
 
     /* If using record level consistency, we need to immediately write the updated page to storage */
     if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) {
-        /* Need to move record level consistency pointers if on a block boundary */
-        if (wrotePage && state->nextDataPageId % state->eraseSizeInPages == 0) {
+        /* Need to move record level consistency pointers if the permanent pages, including flushed ones, have reached them */
+        if (state->nextDataPageId % state->numDataPages == state->rlcPhysicalStartingPage) {
             /* move record-level consistency blocks */
-            shiftRecordLevelConsistencyBlocks(state);
+            if (shiftRecordLevelConsistencyBlocks(state) != 0) {
+                return -1;
+            }
         }
         return writeTemporaryPage(state, state->buffer);
     }
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 88909b7..6f7741d 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1032,7 +1032,6 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
     }
 
     /* Write current page if full */
-    bool wrotePage = false;
     if (count >= state->maxRecordsPerPage) {
         /* The variable data of the records on the page must be in storage before the page is */
         if (EMBEDDB_USING_VDATA(state->parameters) && embedDBFlushVar(state) != 0) {
@@ -1067,7 +1066,6 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
 
         count = 0;
         initBufferPage(state, 0);
-        wrotePage = true;
     }
 
     /* Copy record onto page */
@@ -1125,10 +1123,12 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
 
     /* If using record level consistency, we need to immediately write the updated page to storage */
     if (EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) {
-        /* Need to move record level consistency pointers if on a block boundary */
-        if (wrotePage && state->nextDataPageId % state->eraseSizeInPages == 0) {
+        /* Need to move record level consistency pointers if the permanent pages, including flushed ones, have reached them */
+        if (state->nextDataPageId % state->numDataPages == state->rlcPhysicalStartingPage) {
             /* move record-level consistency blocks */
-            shiftRecordLevelConsistencyBlocks(state);
+            if (shiftRecordLevelConsistencyBlocks(state) != 0) {
+                return -1;
+            }
         }
         return writeTemporaryPage(state, state->buffer);
     }
-- 
2.43.0


From 74e149fd1eb6bb9234b8e69b01b8558acc625799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:16 +0000
Subject: [PATCH 11/49] fix: record-level consistency must erase the block it
 moves into and report a failed erase in every build

---
 lib/Distribution/embedDB.c | 4 ++--
 src/embedDB/embedDB.c      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 510ad55..86527ae 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1595,7 +1595,7 @@ int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state) {
 
     /* if we have wraped, we need to erase an additional block as the block we are shifting into is not empty */
     bool haveWrapped = (state->minDataPageId % state->numDataPages) == ((state->rlcPhysicalStartingPage + numRecordLevelConsistencyPages) % state->numDataPages);
-    uint32_t numBlocksToErase = haveWrapped ? 2 : 3;
+    uint32_t numBlocksToErase = haveWrapped ? 3 : 2;
 
     /* Erase pages to make space for new data */
     for (size_t i = 0; i < numBlocksToErase; i++) {
@@ -2584,8 +2584,8 @@ int8_t writeTemporaryPage(embedDBState *state, void *buffer) {
         if (!eraseSuccess) {
 #ifdef PRINT_ERRORS
             printf("Failed to erase block starting at physical page %i in the data file.", state->nextRLCPhysicalPageLocation);
-            return -2;
 #endif
+            return -2;
         }
     }
 
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 6f7741d..b445116 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1171,7 +1171,7 @@ int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state) {
 
     /* if we have wraped, we need to erase an additional block as the block we are shifting into is not empty */
     bool haveWrapped = (state->minDataPageId % state->numDataPages) == ((state->rlcPhysicalStartingPage + numRecordLevelConsistencyPages) % state->numDataPages);
-    uint32_t numBlocksToErase = haveWrapped ? 2 : 3;
+    uint32_t numBlocksToErase = haveWrapped ? 3 : 2;
 
     /* Erase pages to make space for new data */
     for (size_t i = 0; i < numBlocksToErase; i++) {
@@ -2160,8 +2160,8 @@ int8_t writeTemporaryPage(embedDBState *state, void *buffer) {
         if (!eraseSuccess) {
 #ifdef PRINT_ERRORS
             printf("Failed to erase block starting at physical page %i in the data file.", state->nextRLCPhysicalPageLocation);
-            return -2;
 #endif
+            return -2;
         }
     }
 
-- 
2.43.0


From f633a78e4f601570f00c1873e48c3c0a208de8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:55 +0000
Subject: [PATCH 12/49] fix: the last key of an erased variable data block must
 be read before it is erased

---
 lib/Distribution/embedDB.c | 22 ++++++++++++----------
 src/embedDB/embedDB.c      | 22 ++++++++++++----------
 2 files changed, 24 insertions(+), 20 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 86527ae..accd073 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2695,6 +2695,17 @@ id_t writeVariablePage(embedDBState *state, void *buffer) {
 
     // Erase data if needed
     if (state->numAvailVarPages <= 0) {
+        // Last page that is deleted
+        id_t pageNum = (physicalPageId + state->eraseSizeInPages - 1) % state->numVarPages;
+
+        // Read in that page before it is erased so we can update which records we still have the data for
+        if (readVariablePage(state, pageNum) != 0) {
+            return -1;
+        }
+        uint64_t minVarRecordId = 0;
+        memcpy(&minVarRecordId, (int8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_READ_BUFFER(state->parameters) + sizeof(id_t), state->keySize);
+        minVarRecordId += 1;  // Add one because the result from the last line is a record that is erased
+
         int8_t eraseResult = state->fileInterface->erase(physicalPageId, physicalPageId + state->eraseSizeInPages, state->pageSize, state->varFile);
         forgetBufferedPages(&state->bufferedVarPage, physicalPageId, physicalPageId + state->eraseSizeInPages);
         if (eraseResult != 1) {
@@ -2704,16 +2715,7 @@ id_t writeVariablePage(embedDBState *state, void *buffer) {
             return -1;
         }
         state->numAvailVarPages += state->eraseSizeInPages;
-        // Last page that is deleted
-        id_t pageNum = (physicalPageId + state->eraseSizeInPages - 1) % state->numVarPages;
-
-        // Read in that page so we can update which records we still have the data for
-        if (readVariablePage(state, pageNum) != 0) {
-            return -1;
-        }
-        void *buf = (int8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_READ_BUFFER(state->parameters) + sizeof(id_t);
-        memcpy(&state->minVarRecordId, buf, state->keySize);
-        state->minVarRecordId += 1;  // Add one because the result from the last line is a record that is erased
+        memcpy(&state->minVarRecordId, &minVarRecordId, state->keySize);
     }
 
     // Add logical page number to data page
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index b445116..b508849 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -2271,6 +2271,17 @@ id_t writeVariablePage(embedDBState *state, void *buffer) {
 
     // Erase data if needed
     if (state->numAvailVarPages <= 0) {
+        // Last page that is deleted
+        id_t pageNum = (physicalPageId + state->eraseSizeInPages - 1) % state->numVarPages;
+
+        // Read in that page before it is erased so we can update which records we still have the data for
+        if (readVariablePage(state, pageNum) != 0) {
+            return -1;
+        }
+        uint64_t minVarRecordId = 0;
+        memcpy(&minVarRecordId, (int8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_READ_BUFFER(state->parameters) + sizeof(id_t), state->keySize);
+        minVarRecordId += 1;  // Add one because the result from the last line is a record that is erased
+
         int8_t eraseResult = state->fileInterface->erase(physicalPageId, physicalPageId + state->eraseSizeInPages, state->pageSize, state->varFile);
         forgetBufferedPages(&state->bufferedVarPage, physicalPageId, physicalPageId + state->eraseSizeInPages);
         if (eraseResult != 1) {
@@ -2280,16 +2291,7 @@ id_t writeVariablePage(embedDBState *state, void *buffer) {
             return -1;
         }
         state->numAvailVarPages += state->eraseSizeInPages;
-        // Last page that is deleted
-        id_t pageNum = (physicalPageId + state->eraseSizeInPages - 1) % state->numVarPages;
-
-        // Read in that page so we can update which records we still have the data for
-        if (readVariablePage(state, pageNum) != 0) {
-            return -1;
-        }
-        void *buf = (int8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_READ_BUFFER(state->parameters) + sizeof(id_t);
-        memcpy(&state->minVarRecordId, buf, state->keySize);
-        state->minVarRecordId += 1;  // Add one because the result from the last line is a record that is erased
+        memcpy(&state->minVarRecordId, &minVarRecordId, state->keySize);
     }
 
     // Add logical page number to data page
-- 
2.43.0


From c488a38c5b9870f638161d2ecaac0e0654902a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:02 +0000
Subject: [PATCH 13/49] fix: empty variable data pages written by embedDBPutVar
 made erased variable data look valid

---
 lib/Distribution/embedDB.c | 3 ++-
 src/embedDB/embedDB.c      | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index accd073..27cbbd2 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1662,7 +1662,8 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
      * data here and if the data page will be written in embedDBGet
      */
     void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
-    if (state->currentVarLoc % state->pageSize > state->pageSize - 4 || (!(EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) && EMBEDDB_GET_COUNT(state->buffer) >= state->maxRecordsPerPage)) {
+    bool hasVarData = state->currentVarLoc % state->pageSize != state->variableDataHeaderSize;
+    if (state->currentVarLoc % state->pageSize > state->pageSize - 4 || (hasVarData && !(EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) && EMBEDDB_GET_COUNT(state->buffer) >= state->maxRecordsPerPage)) {
         if (writeVariablePage(state, buf) == (id_t)-1) {
             return -1;
         }
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index b508849..65e3f0b 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1238,7 +1238,8 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
      * data here and if the data page will be written in embedDBGet
      */
     void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_VAR_WRITE_BUFFER(state->parameters));
-    if (state->currentVarLoc % state->pageSize > state->pageSize - 4 || (!(EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) && EMBEDDB_GET_COUNT(state->buffer) >= state->maxRecordsPerPage)) {
+    bool hasVarData = state->currentVarLoc % state->pageSize != state->variableDataHeaderSize;
+    if (state->currentVarLoc % state->pageSize > state->pageSize - 4 || (hasVarData && !(EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters)) && EMBEDDB_GET_COUNT(state->buffer) >= state->maxRecordsPerPage)) {
         if (writeVariablePage(state, buf) == (id_t)-1) {
             return -1;
         }
-- 
2.43.0


From b2b81b01e4840fc926eb332b4a0f6abd4bc22b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:25 +0000
Subject: [PATCH 14/49] fix: the spline must not be used when binary search is
 enabled

---
 lib/Distribution/embedDB.c | 6 +++---
 src/embedDB/embedDB.c      | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 27cbbd2..0a9362e 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1618,7 +1618,7 @@ int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state) {
         state->minDataPageId += state->eraseSizeInPages;
 
         /* remove any spline points related to these pages */
-        if (!EMBEDDB_DISABLED_SPLINE_CLEAN(state->parameters)) {
+        if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters) && !EMBEDDB_DISABLED_SPLINE_CLEAN(state->parameters)) {
             cleanSpline(state, state->minDataPageId);
         }
     }
@@ -2075,7 +2075,7 @@ void embedDBInitIterator(embedDBState *state, embedDBIterator *it) {
 #endif
 
     /* Determine which data page should be the first examined if there is a min key and that we have spline points */
-    if (state->spl->count != 0 && it->minKey != NULL && !(EMBEDDB_USING_BINARY_SEARCH(state->parameters))) {
+    if (!(EMBEDDB_USING_BINARY_SEARCH(state->parameters)) && state->spl->count != 0 && it->minKey != NULL) {
         /* Spline search */
         uint32_t location, lowbound, highbound = 0;
         splineFind(state->spl, it->minKey, state->compareKey, &location, &lowbound, &highbound);
@@ -2525,7 +2525,7 @@ id_t writePage(embedDBState *state, void *buffer) {
         state->minDataPageId += state->eraseSizeInPages;
 
         /* remove any spline points related to these pages */
-        if (!EMBEDDB_DISABLED_SPLINE_CLEAN(state->parameters)) {
+        if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters) && !EMBEDDB_DISABLED_SPLINE_CLEAN(state->parameters)) {
             cleanSpline(state, state->minDataPageId);
         }
     }
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 65e3f0b..328c052 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1194,7 +1194,7 @@ int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state) {
         state->minDataPageId += state->eraseSizeInPages;
 
         /* remove any spline points related to these pages */
-        if (!EMBEDDB_DISABLED_SPLINE_CLEAN(state->parameters)) {
+        if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters) && !EMBEDDB_DISABLED_SPLINE_CLEAN(state->parameters)) {
             cleanSpline(state, state->minDataPageId);
         }
     }
@@ -1651,7 +1651,7 @@ void embedDBInitIterator(embedDBState *state, embedDBIterator *it) {
 #endif
 
     /* Determine which data page should be the first examined if there is a min key and that we have spline points */
-    if (state->spl->count != 0 && it->minKey != NULL && !(EMBEDDB_USING_BINARY_SEARCH(state->parameters))) {
+    if (!(EMBEDDB_USING_BINARY_SEARCH(state->parameters)) && state->spl->count != 0 && it->minKey != NULL) {
         /* Spline search */
         uint32_t location, lowbound, highbound = 0;
         splineFind(state->spl, it->minKey, state->compareKey, &location, &lowbound, &highbound);
@@ -2101,7 +2101,7 @@ id_t writePage(embedDBState *state, void *buffer) {
         state->minDataPageId += state->eraseSizeInPages;
 
         /* remove any spline points related to these pages */
-        if (!EMBEDDB_DISABLED_SPLINE_CLEAN(state->parameters)) {
+        if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters) && !EMBEDDB_DISABLED_SPLINE_CLEAN(state->parameters)) {
             cleanSpline(state, state->minDataPageId);
         }
     }
-- 
2.43.0


From af85996a323b409b0a92005bd725a2978385d23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:33 +0000
Subject: [PATCH 15/49] fix: binary search had no result for the last block and
 searched below the first one

---
 lib/Distribution/embedDB.c | 5 +++++
 src/embedDB/embedDB.c      | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 0a9362e..5b31b07 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1856,6 +1856,8 @@ int8_t binarySearch(embedDBState *state, void *buffer, void *key) {
 
         if (state->compareKey(key, embedDBGetMinKey(state, buffer)) < 0) {
             /* Key is less than smallest record in block. */
+            if (pageId == first)
+                return -1;
             last = pageId - 1;
             pageId = (first + last) / 2;
         } else if (state->compareKey(key, embedDBGetMaxKey(state, buffer)) > 0) {
@@ -1867,6 +1869,9 @@ int8_t binarySearch(embedDBState *state, void *buffer, void *key) {
             return 0;
         }
     }
+
+    /* Only one block is left */
+    return 0;
 }
 
 int8_t splineSearch(embedDBState *state, void *buffer, void *key) {
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 328c052..f6a7e3e 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1432,6 +1432,8 @@ int8_t binarySearch(embedDBState *state, void *buffer, void *key) {
 
         if (state->compareKey(key, embedDBGetMinKey(state, buffer)) < 0) {
             /* Key is less than smallest record in block. */
+            if (pageId == first)
+                return -1;
             last = pageId - 1;
             pageId = (first + last) / 2;
         } else if (state->compareKey(key, embedDBGetMaxKey(state, buffer)) > 0) {
@@ -1443,6 +1445,9 @@ int8_t binarySearch(embedDBState *state, void *buffer, void *key) {
             return 0;
         }
     }
+
+    /* Only one block is left */
+    return 0;
 }
 
 int8_t splineSearch(embedDBState *state, void *buffer, void *key) {
-- 
2.43.0


From 73b1d95ecf4450278ea950285ee60403da021a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:41 +0000
Subject: [PATCH 16/49] fix: record counts and positions above 127 were
 truncated

---
 lib/Distribution/embedDB.c | 12 ++++++------
 src/embedDB/embedDB.c      | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 5b31b07..762fafc 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -756,7 +756,7 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
 
     /* this handles the case where the first page may have been erased, so has junk data and we actually need to start from the second page */
     uint32_t i = 0;
-    int8_t numRecords = 0;
+    count_t numRecords = 0;
     while (moreToRead && i < 2) {
         memcpy(&logicalPageId, buffer, sizeof(id_t));
         validData = logicalPageId % state->numDataPages == count;
@@ -856,7 +856,7 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
      * They may be either an erased page or pages for record-level consistency.
      */
     uint32_t i = 0;
-    int8_t numRecords = 0;
+    count_t numRecords = 0;
     while (moreToRead && i < 4) {
         memcpy(&logicalPageId, buffer, sizeof(id_t));
         validData = logicalPageId % state->numDataPages == count;
@@ -1912,7 +1912,7 @@ int8_t splineSearch(embedDBState *state, void *buffer, void *key) {
  * @param	data	Pre-allocated memory to copy data for record
  * @return	Return non-negative integer representing offset if success. Non-zero value if error.
  */
-int8_t searchBuffer(embedDBState *state, void *buffer, void *key, void *data) {
+id_t searchBuffer(embedDBState *state, void *buffer, void *key, void *data) {
     // return -1 if there is nothing in the buffer
     if (EMBEDDB_GET_COUNT(buffer) == 0) {
         return NO_RECORD_FOUND;
@@ -1941,8 +1941,8 @@ int8_t searchBuffer(embedDBState *state, void *buffer, void *key, void *data) {
 int8_t embedDBGet(embedDBState *state, void *key, void *data) {
     void *outputBuffer = state->buffer;
     if (state->nextDataPageId == 0) {
-        int8_t success = searchBuffer(state, outputBuffer, key, data);
-        if (success != NO_RECORD_FOUND) {
+        id_t recordNum = searchBuffer(state, outputBuffer, key, data);
+        if (recordNum != NO_RECORD_FOUND) {
             return 0;
         }
         return -1;
@@ -2019,7 +2019,7 @@ int8_t embedDBGetVar(embedDBState *state, void *key, void *data, embedDBVarDataS
     void *outputBuffer = (int8_t *)state->buffer;
 
     // search output buffer for record, mem copy fixed record into data
-    int8_t recordNum = searchBuffer(state, outputBuffer, key, data);
+    id_t recordNum = searchBuffer(state, outputBuffer, key, data);
 
     // if there are records found in the output buffer
     if (recordNum != NO_RECORD_FOUND) {
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index f6a7e3e..95b24a1 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -332,7 +332,7 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
 
     /* this handles the case where the first page may have been erased, so has junk data and we actually need to start from the second page */
     uint32_t i = 0;
-    int8_t numRecords = 0;
+    count_t numRecords = 0;
     while (moreToRead && i < 2) {
         memcpy(&logicalPageId, buffer, sizeof(id_t));
         validData = logicalPageId % state->numDataPages == count;
@@ -432,7 +432,7 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
      * They may be either an erased page or pages for record-level consistency.
      */
     uint32_t i = 0;
-    int8_t numRecords = 0;
+    count_t numRecords = 0;
     while (moreToRead && i < 4) {
         memcpy(&logicalPageId, buffer, sizeof(id_t));
         validData = logicalPageId % state->numDataPages == count;
@@ -1488,7 +1488,7 @@ int8_t splineSearch(embedDBState *state, void *buffer, void *key) {
  * @param	data	Pre-allocated memory to copy data for record
  * @return	Return non-negative integer representing offset if success. Non-zero value if error.
  */
-int8_t searchBuffer(embedDBState *state, void *buffer, void *key, void *data) {
+id_t searchBuffer(embedDBState *state, void *buffer, void *key, void *data) {
     // return -1 if there is nothing in the buffer
     if (EMBEDDB_GET_COUNT(buffer) == 0) {
         return NO_RECORD_FOUND;
@@ -1517,8 +1517,8 @@ int8_t searchBuffer(embedDBState *state, void *buffer, void *key, void *data) {
 int8_t embedDBGet(embedDBState *state, void *key, void *data) {
     void *outputBuffer = state->buffer;
     if (state->nextDataPageId == 0) {
-        int8_t success = searchBuffer(state, outputBuffer, key, data);
-        if (success != NO_RECORD_FOUND) {
+        id_t recordNum = searchBuffer(state, outputBuffer, key, data);
+        if (recordNum != NO_RECORD_FOUND) {
             return 0;
         }
         return -1;
@@ -1595,7 +1595,7 @@ int8_t embedDBGetVar(embedDBState *state, void *key, void *data, embedDBVarDataS
     void *outputBuffer = (int8_t *)state->buffer;
 
     // search output buffer for record, mem copy fixed record into data
-    int8_t recordNum = searchBuffer(state, outputBuffer, key, data);
+    id_t recordNum = searchBuffer(state, outputBuffer, key, data);
 
     // if there are records found in the output buffer
     if (recordNum != NO_RECORD_FOUND) {
-- 
2.43.0


From 11322ff76e3100d2ef247c9e9e69cdc2b8ab6f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:10 +0000
Subject: [PATCH 17/49] fix: embedDBInit must initialise the statistics and the
 variable data flag when using variable data, and the flag must not outlive a
 put

---
 lib/Distribution/embedDB.c | 10 +++++++---
 src/embedDB/embedDB.c      | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 762fafc..1d14270 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -687,7 +687,9 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
         } else {
             varDataInitResult = embedDBInitVarData(state);
         }
-        return varDataInitResult;
+        if (varDataInitResult != 0) {
+            return varDataInitResult;
+        }
     } else {
         state->varFile = NULL;
         state->numVarPages = 0;
@@ -1127,6 +1129,7 @@ int8_t embedDBInitVarData(embedDBState *state) {
 
     state->variableDataHeaderSize = state->keySize + sizeof(id_t);
     state->currentVarLoc = state->variableDataHeaderSize;
+    state->recordHasVarData = 0;
     state->minVarRecordId = UINT64_MAX;
     state->numAvailVarPages = state->numVarPages;
     state->nextVarPageId = 0;
@@ -1680,8 +1683,9 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
 
     // Perform the regular insert
     state->recordHasVarData = 1;
-    int8_t r;
-    if ((r = embedDBPut(state, key, data)) != 0) {
+    int8_t r = embedDBPut(state, key, data);
+    state->recordHasVarData = 0;
+    if (r != 0) {
         return r;
     }
 
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 95b24a1..9ce369b 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -263,7 +263,9 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
         } else {
             varDataInitResult = embedDBInitVarData(state);
         }
-        return varDataInitResult;
+        if (varDataInitResult != 0) {
+            return varDataInitResult;
+        }
     } else {
         state->varFile = NULL;
         state->numVarPages = 0;
@@ -703,6 +705,7 @@ int8_t embedDBInitVarData(embedDBState *state) {
 
     state->variableDataHeaderSize = state->keySize + sizeof(id_t);
     state->currentVarLoc = state->variableDataHeaderSize;
+    state->recordHasVarData = 0;
     state->minVarRecordId = UINT64_MAX;
     state->numAvailVarPages = state->numVarPages;
     state->nextVarPageId = 0;
@@ -1256,8 +1259,9 @@ int8_t embedDBPutVar(embedDBState *state, void *key, void *data, void *variableD
 
     // Perform the regular insert
     state->recordHasVarData = 1;
-    int8_t r;
-    if ((r = embedDBPut(state, key, data)) != 0) {
+    int8_t r = embedDBPut(state, key, data);
+    state->recordHasVarData = 0;
+    if (r != 0) {
         return r;
     }
 
-- 
2.43.0


From a1645a5726e5125ff975270670a1354b835146b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:44 +0000
Subject: [PATCH 18/49] fix: embedDBInit must reject configurations that do not
 fit a page or divide by zero

---
 lib/Distribution/embedDB.c | 51 +++++++++++++++++++++++++++++++++++---
 src/embedDB/embedDB.c      | 51 +++++++++++++++++++++++++++++++++++---
 2 files changed, 94 insertions(+), 8 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 1d14270..3ee8e84 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -570,6 +570,27 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
         return -1;
     }
 
+    if (state->keySize < 1 || state->dataSize < 0) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: The key size must be positive and the data size must not be negative.\n");
+#endif
+        return -1;
+    }
+
+    if (state->eraseSizeInPages == 0) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: The erase size in pages must be at least one.\n");
+#endif
+        return -1;
+    }
+
+    if ((EMBEDDB_USING_INDEX(state->parameters) || EMBEDDB_USING_BMAP(state->parameters)) && state->bitmapSize < 1) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: The bitmap size must be at least one when using an index or bitmaps.\n");
+#endif
+        return -1;
+    }
+
     /* check the number of allocated pages is a multiple of the erase size */
     if (state->numDataPages % state->eraseSizeInPages != 0) {
 #ifdef PRINT_ERRORS
@@ -585,9 +606,16 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
         return -1;
     }
 
+    if (state->keySize + state->dataSize + (EMBEDDB_USING_VDATA(state->parameters) ? 4 : 0) > INT8_MAX) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: The record size is too large.\n");
+#endif
+        return -1;
+    }
+
     state->recordSize = state->keySize + state->dataSize;
     if (EMBEDDB_USING_VDATA(state->parameters)) {
-        if (state->numVarPages % state->eraseSizeInPages != 0) {
+        if (state->numVarPages == 0 || state->numVarPages % state->eraseSizeInPages != 0) {
 #ifdef PRINT_ERRORS
             printf("ERROR: The number of allocated variable data pages must be divisible by the erase size in pages.\n");
 #endif
@@ -601,7 +629,7 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
     /* Calculate block header size */
 
     /* Header size depends on bitmap size: 6 + X bytes: 4 byte id, 2 for record count, X for bitmap. */
-    state->headerSize = 6;
+    int16_t headerSize = 6;
     if (EMBEDDB_USING_INDEX(state->parameters)) {
         if (state->numIndexPages % state->eraseSizeInPages != 0) {
 #ifdef PRINT_ERRORS
@@ -609,11 +637,19 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
 #endif
             return -1;
         }
-        state->headerSize += state->bitmapSize;
+        headerSize += state->bitmapSize;
     }
 
     if (EMBEDDB_USING_MAX_MIN(state->parameters))
-        state->headerSize += state->keySize * 2 + state->dataSize * 2;
+        headerSize += state->keySize * 2 + state->dataSize * 2;
+
+    if (headerSize > INT8_MAX || state->pageSize < headerSize + state->recordSize) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: The page header is too large or the page size is too small for a record.\n");
+#endif
+        return -1;
+    }
+    state->headerSize = headerSize;
 
     /* Flags to show that these values have not been initalized with actual data yet */
     state->bufferedPageId = -1;
@@ -1134,6 +1170,13 @@ int8_t embedDBInitVarData(embedDBState *state) {
     state->numAvailVarPages = state->numVarPages;
     state->nextVarPageId = 0;
 
+    if (state->varFile == NULL) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: No variable data file provided!\n");
+#endif
+        return -1;
+    }
+
     if (!EMBEDDB_RESETING_DATA(state->parameters) && (state->nextDataPageId > 0 || EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters))) {
         int8_t openResult = state->fileInterface->open(state->varFile, EMBEDDB_FILE_MODE_R_PLUS_B);
         if (openResult) {
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 9ce369b..7d99794 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -146,6 +146,27 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
         return -1;
     }
 
+    if (state->keySize < 1 || state->dataSize < 0) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: The key size must be positive and the data size must not be negative.\n");
+#endif
+        return -1;
+    }
+
+    if (state->eraseSizeInPages == 0) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: The erase size in pages must be at least one.\n");
+#endif
+        return -1;
+    }
+
+    if ((EMBEDDB_USING_INDEX(state->parameters) || EMBEDDB_USING_BMAP(state->parameters)) && state->bitmapSize < 1) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: The bitmap size must be at least one when using an index or bitmaps.\n");
+#endif
+        return -1;
+    }
+
     /* check the number of allocated pages is a multiple of the erase size */
     if (state->numDataPages % state->eraseSizeInPages != 0) {
 #ifdef PRINT_ERRORS
@@ -161,9 +182,16 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
         return -1;
     }
 
+    if (state->keySize + state->dataSize + (EMBEDDB_USING_VDATA(state->parameters) ? 4 : 0) > INT8_MAX) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: The record size is too large.\n");
+#endif
+        return -1;
+    }
+
     state->recordSize = state->keySize + state->dataSize;
     if (EMBEDDB_USING_VDATA(state->parameters)) {
-        if (state->numVarPages % state->eraseSizeInPages != 0) {
+        if (state->numVarPages == 0 || state->numVarPages % state->eraseSizeInPages != 0) {
 #ifdef PRINT_ERRORS
             printf("ERROR: The number of allocated variable data pages must be divisible by the erase size in pages.\n");
 #endif
@@ -177,7 +205,7 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
     /* Calculate block header size */
 
     /* Header size depends on bitmap size: 6 + X bytes: 4 byte id, 2 for record count, X for bitmap. */
-    state->headerSize = 6;
+    int16_t headerSize = 6;
     if (EMBEDDB_USING_INDEX(state->parameters)) {
         if (state->numIndexPages % state->eraseSizeInPages != 0) {
 #ifdef PRINT_ERRORS
@@ -185,11 +213,19 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
 #endif
             return -1;
         }
-        state->headerSize += state->bitmapSize;
+        headerSize += state->bitmapSize;
     }
 
     if (EMBEDDB_USING_MAX_MIN(state->parameters))
-        state->headerSize += state->keySize * 2 + state->dataSize * 2;
+        headerSize += state->keySize * 2 + state->dataSize * 2;
+
+    if (headerSize > INT8_MAX || state->pageSize < headerSize + state->recordSize) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: The page header is too large or the page size is too small for a record.\n");
+#endif
+        return -1;
+    }
+    state->headerSize = headerSize;
 
     /* Flags to show that these values have not been initalized with actual data yet */
     state->bufferedPageId = -1;
@@ -710,6 +746,13 @@ int8_t embedDBInitVarData(embedDBState *state) {
     state->numAvailVarPages = state->numVarPages;
     state->nextVarPageId = 0;
 
+    if (state->varFile == NULL) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: No variable data file provided!\n");
+#endif
+        return -1;
+    }
+
     if (!EMBEDDB_RESETING_DATA(state->parameters) && (state->nextDataPageId > 0 || EMBEDDB_USING_RECORD_LEVEL_CONSISTENCY(state->parameters))) {
         int8_t openResult = state->fileInterface->open(state->varFile, EMBEDDB_FILE_MODE_R_PLUS_B);
         if (openResult) {
-- 
2.43.0


From 85f040637dbc7ee972ef3c4514a43ce4e56dc7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:01 +0000
Subject: [PATCH 19/49] fix: bitmap and minimum and maximum values on a page
 overlapped its first record

---
 lib/Distribution/embedDB.c | 19 +++++++++++++++----
 src/embedDB/embedDB.c      | 19 +++++++++++++++----
 2 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 3ee8e84..b20bcb0 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -519,7 +519,7 @@ void initBufferPage(embedDBState *state, int pageNum) {
         ((int8_t *)buf)[i] = 0;
     }
 
-    if (pageNum != EMBEDDB_VAR_WRITE_BUFFER(state->parameters)) {
+    if (pageNum == EMBEDDB_DATA_WRITE_BUFFER && EMBEDDB_USING_MAX_MIN(state->parameters)) {
         /* Initialize header key min. Max and sum is already set to zero by the
          * for-loop above */
         void *min = EMBEDDB_GET_MIN_KEY(buf);
@@ -637,11 +637,22 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
 #endif
             return -1;
         }
-        headerSize += state->bitmapSize;
     }
 
-    if (EMBEDDB_USING_MAX_MIN(state->parameters))
-        headerSize += state->keySize * 2 + state->dataSize * 2;
+    /* The bitmap is part of every page if there is an index or if bitmaps are used without one */
+    if (EMBEDDB_USING_INDEX(state->parameters) || EMBEDDB_USING_BMAP(state->parameters))
+        headerSize += state->bitmapSize;
+
+    /* The minimum and maximum values are at a fixed offset after the bitmap */
+    if (EMBEDDB_USING_MAX_MIN(state->parameters)) {
+        if (headerSize > EMBEDDB_MIN_OFFSET) {
+#ifdef PRINT_ERRORS
+            printf("ERROR: The bitmap is too large to store minimum and maximum values on the page.\n");
+#endif
+            return -1;
+        }
+        headerSize = EMBEDDB_MIN_OFFSET + state->keySize * 2 + state->dataSize * 2;
+    }
 
     if (headerSize > INT8_MAX || state->pageSize < headerSize + state->recordSize) {
 #ifdef PRINT_ERRORS
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 7d99794..bc85f8e 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -95,7 +95,7 @@ void initBufferPage(embedDBState *state, int pageNum) {
         ((int8_t *)buf)[i] = 0;
     }
 
-    if (pageNum != EMBEDDB_VAR_WRITE_BUFFER(state->parameters)) {
+    if (pageNum == EMBEDDB_DATA_WRITE_BUFFER && EMBEDDB_USING_MAX_MIN(state->parameters)) {
         /* Initialize header key min. Max and sum is already set to zero by the
          * for-loop above */
         void *min = EMBEDDB_GET_MIN_KEY(buf);
@@ -213,11 +213,22 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
 #endif
             return -1;
         }
-        headerSize += state->bitmapSize;
     }
 
-    if (EMBEDDB_USING_MAX_MIN(state->parameters))
-        headerSize += state->keySize * 2 + state->dataSize * 2;
+    /* The bitmap is part of every page if there is an index or if bitmaps are used without one */
+    if (EMBEDDB_USING_INDEX(state->parameters) || EMBEDDB_USING_BMAP(state->parameters))
+        headerSize += state->bitmapSize;
+
+    /* The minimum and maximum values are at a fixed offset after the bitmap */
+    if (EMBEDDB_USING_MAX_MIN(state->parameters)) {
+        if (headerSize > EMBEDDB_MIN_OFFSET) {
+#ifdef PRINT_ERRORS
+            printf("ERROR: The bitmap is too large to store minimum and maximum values on the page.\n");
+#endif
+            return -1;
+        }
+        headerSize = EMBEDDB_MIN_OFFSET + state->keySize * 2 + state->dataSize * 2;
+    }
 
     if (headerSize > INT8_MAX || state->pageSize < headerSize + state->recordSize) {
 #ifdef PRINT_ERRORS
-- 
2.43.0


From 49e1d4eb41309e6d0a2818c29b1d994f90268af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:29 +0000
Subject: [PATCH 20/49] fix: recovery must report pages it cannot read instead
 of using what is left in the buffer

---
 lib/Distribution/embedDB.c | 52 ++++++++++++++++++++++++++++++--------
 src/embedDB/embedDB.c      | 52 ++++++++++++++++++++++++++++++--------
 2 files changed, 84 insertions(+), 20 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index b20bcb0..41b1f94 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -481,7 +481,7 @@ int8_t embedDBInitIndexFromFile(embedDBState *state);
 int8_t embedDBInitVarData(embedDBState *state);
 int8_t embedDBInitVarDataFromFile(embedDBState *state);
 int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state);
-void embedDBInitSplineFromFile(embedDBState *state);
+int8_t embedDBInitSplineFromFile(embedDBState *state);
 int32_t getMaxError(embedDBState *state, void *buffer);
 void updateMaxiumError(embedDBState *state, void *buffer);
 int8_t embedDBSetupVarDataStream(embedDBState *state, void *key, embedDBVarDataStream **varData, id_t recordNumber);
@@ -874,15 +874,25 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
     }
 
     state->nextDataPageId = maxLogicalPageId + 1;
-    readPage(state, physicalPageIDOfSmallestData);
+    if (readPage(state, physicalPageIDOfSmallestData) != 0) {
+#ifdef PRINT_ERRORS
+        printf("Error: Can't read page with the smallest data during recovery!\n");
+#endif
+        return -1;
+    }
     memcpy(&(state->minDataPageId), buffer, sizeof(id_t));
     state->numAvailDataPages = state->numDataPages + state->minDataPageId - maxLogicalPageId - 1;
 
     /* Put largest key back into the buffer */
-    readPage(state, (state->nextDataPageId - 1) % state->numDataPages);
+    if (readPage(state, (state->nextDataPageId - 1) % state->numDataPages) != 0) {
+#ifdef PRINT_ERRORS
+        printf("Error: Can't read page with the largest key during recovery!\n");
+#endif
+        return -1;
+    }
 
     if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters)) {
-        embedDBInitSplineFromFile(state);
+        return embedDBInitSplineFromFile(state);
     }
 
     return 0;
@@ -1048,29 +1058,46 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
     }
 
     state->nextDataPageId = maxLogicalPageId + 1;
-    readPage(state, physicalPageIDOfSmallestData);
+    if (readPage(state, physicalPageIDOfSmallestData) != 0) {
+#ifdef PRINT_ERRORS
+        printf("Error: Can't read page with the smallest data during recovery!\n");
+#endif
+        return -1;
+    }
     memcpy(&(state->minDataPageId), buffer, sizeof(id_t));
     state->numAvailDataPages = state->numDataPages + state->minDataPageId - maxLogicalPageId - 1 - (2 * blockSize);
 
     /* Put largest key back into the buffer */
-    readPage(state, (state->nextDataPageId - 1) % state->numDataPages);
+    if (readPage(state, (state->nextDataPageId - 1) % state->numDataPages) != 0) {
+#ifdef PRINT_ERRORS
+        printf("Error: Can't read page with the largest key during recovery!\n");
+#endif
+        return -1;
+    }
     if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters)) {
-        embedDBInitSplineFromFile(state);
+        return embedDBInitSplineFromFile(state);
     }
 
     return 0;
 }
 
-void embedDBInitSplineFromFile(embedDBState *state) {
+int8_t embedDBInitSplineFromFile(embedDBState *state) {
     id_t pageNumberToRead = state->minDataPageId;
     void *buffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER;
     id_t pagesRead = 0;
     id_t numberOfPagesToRead = state->nextDataPageId - state->minDataPageId;
     while (pagesRead < numberOfPagesToRead) {
-        readPage(state, pageNumberToRead % state->numDataPages);
+        if (readPage(state, pageNumberToRead % state->numDataPages) != 0) {
+#ifdef PRINT_ERRORS
+            printf("Error: Can't read data page while recovering the spline!\n");
+#endif
+            return -1;
+        }
         splineAdd(state->spl, embedDBGetMinKey(state, buffer), pageNumberToRead++);
         pagesRead++;
     }
+
+    return 0;
 }
 
 int8_t embedDBInitIndex(embedDBState *state) {
@@ -1163,7 +1190,12 @@ int8_t embedDBInitIndexFromFile(embedDBState *state) {
     if (haveWrappedInMemory) {
         physicalPageIDOfSmallestData = logicalIndexPageId % state->numIndexPages;
     }
-    readIndexPage(state, physicalPageIDOfSmallestData);
+    if (readIndexPage(state, physicalPageIDOfSmallestData) != 0) {
+#ifdef PRINT_ERRORS
+        printf("Error: Can't read index page with the smallest data during recovery!\n");
+#endif
+        return -1;
+    }
     memcpy(&(state->minIndexPageId), buffer, sizeof(id_t));
     state->numAvailIndexPages = state->numIndexPages + state->minIndexPageId - maxLogicaIndexPageId - 1;
 
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index bc85f8e..1a006dc 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -57,7 +57,7 @@ int8_t embedDBInitIndexFromFile(embedDBState *state);
 int8_t embedDBInitVarData(embedDBState *state);
 int8_t embedDBInitVarDataFromFile(embedDBState *state);
 int8_t shiftRecordLevelConsistencyBlocks(embedDBState *state);
-void embedDBInitSplineFromFile(embedDBState *state);
+int8_t embedDBInitSplineFromFile(embedDBState *state);
 int32_t getMaxError(embedDBState *state, void *buffer);
 void updateMaxiumError(embedDBState *state, void *buffer);
 int8_t embedDBSetupVarDataStream(embedDBState *state, void *key, embedDBVarDataStream **varData, id_t recordNumber);
@@ -450,15 +450,25 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
     }
 
     state->nextDataPageId = maxLogicalPageId + 1;
-    readPage(state, physicalPageIDOfSmallestData);
+    if (readPage(state, physicalPageIDOfSmallestData) != 0) {
+#ifdef PRINT_ERRORS
+        printf("Error: Can't read page with the smallest data during recovery!\n");
+#endif
+        return -1;
+    }
     memcpy(&(state->minDataPageId), buffer, sizeof(id_t));
     state->numAvailDataPages = state->numDataPages + state->minDataPageId - maxLogicalPageId - 1;
 
     /* Put largest key back into the buffer */
-    readPage(state, (state->nextDataPageId - 1) % state->numDataPages);
+    if (readPage(state, (state->nextDataPageId - 1) % state->numDataPages) != 0) {
+#ifdef PRINT_ERRORS
+        printf("Error: Can't read page with the largest key during recovery!\n");
+#endif
+        return -1;
+    }
 
     if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters)) {
-        embedDBInitSplineFromFile(state);
+        return embedDBInitSplineFromFile(state);
     }
 
     return 0;
@@ -624,29 +634,46 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
     }
 
     state->nextDataPageId = maxLogicalPageId + 1;
-    readPage(state, physicalPageIDOfSmallestData);
+    if (readPage(state, physicalPageIDOfSmallestData) != 0) {
+#ifdef PRINT_ERRORS
+        printf("Error: Can't read page with the smallest data during recovery!\n");
+#endif
+        return -1;
+    }
     memcpy(&(state->minDataPageId), buffer, sizeof(id_t));
     state->numAvailDataPages = state->numDataPages + state->minDataPageId - maxLogicalPageId - 1 - (2 * blockSize);
 
     /* Put largest key back into the buffer */
-    readPage(state, (state->nextDataPageId - 1) % state->numDataPages);
+    if (readPage(state, (state->nextDataPageId - 1) % state->numDataPages) != 0) {
+#ifdef PRINT_ERRORS
+        printf("Error: Can't read page with the largest key during recovery!\n");
+#endif
+        return -1;
+    }
     if (!EMBEDDB_USING_BINARY_SEARCH(state->parameters)) {
-        embedDBInitSplineFromFile(state);
+        return embedDBInitSplineFromFile(state);
     }
 
     return 0;
 }
 
-void embedDBInitSplineFromFile(embedDBState *state) {
+int8_t embedDBInitSplineFromFile(embedDBState *state) {
     id_t pageNumberToRead = state->minDataPageId;
     void *buffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_DATA_READ_BUFFER;
     id_t pagesRead = 0;
     id_t numberOfPagesToRead = state->nextDataPageId - state->minDataPageId;
     while (pagesRead < numberOfPagesToRead) {
-        readPage(state, pageNumberToRead % state->numDataPages);
+        if (readPage(state, pageNumberToRead % state->numDataPages) != 0) {
+#ifdef PRINT_ERRORS
+            printf("Error: Can't read data page while recovering the spline!\n");
+#endif
+            return -1;
+        }
         splineAdd(state->spl, embedDBGetMinKey(state, buffer), pageNumberToRead++);
         pagesRead++;
     }
+
+    return 0;
 }
 
 int8_t embedDBInitIndex(embedDBState *state) {
@@ -739,7 +766,12 @@ int8_t embedDBInitIndexFromFile(embedDBState *state) {
     if (haveWrappedInMemory) {
         physicalPageIDOfSmallestData = logicalIndexPageId % state->numIndexPages;
     }
-    readIndexPage(state, physicalPageIDOfSmallestData);
+    if (readIndexPage(state, physicalPageIDOfSmallestData) != 0) {
+#ifdef PRINT_ERRORS
+        printf("Error: Can't read index page with the smallest data during recovery!\n");
+#endif
+        return -1;
+    }
     memcpy(&(state->minIndexPageId), buffer, sizeof(id_t));
     state->numAvailIndexPages = state->numIndexPages + state->minIndexPageId - maxLogicaIndexPageId - 1;
 
-- 
2.43.0


From e49c2bdd7623187dc5cb89e34288642b5383a832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:12 +0000
Subject: [PATCH 21/49] fix: cleaning the spline read a point past the last one
 and underflowed with fewer than two points

---
 lib/Distribution/embedDB.c | 7 ++++---
 src/embedDB/embedDB.c      | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 41b1f94..b2183a8 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2709,7 +2709,7 @@ uint32_t cleanSpline(embedDBState *state, uint32_t minPageNumber) {
     uint32_t numPointsErased = 0;
     void *nextPoint;
     uint32_t currentPageNumber = 0;
-    for (size_t i = 0; i < state->spl->count; i++) {
+    for (size_t i = 0; i + 1 < state->spl->count; i++) {
         nextPoint = splinePointLocation(state->spl, i + 1);
         memcpy(&currentPageNumber, (int8_t *)nextPoint + state->keySize, sizeof(uint32_t));
         if (currentPageNumber < minPageNumber) {
@@ -2718,8 +2718,9 @@ uint32_t cleanSpline(embedDBState *state, uint32_t minPageNumber) {
             break;
         }
     }
-    if (state->spl->count - numPointsErased < 2)
-        numPointsErased -= 2 - (state->spl->count - numPointsErased);
+    /* At least two points must be left */
+    if (numPointsErased + 2 > state->spl->count)
+        numPointsErased = state->spl->count < 2 ? 0 : state->spl->count - 2;
     if (numPointsErased <= 0)
         return 0;
     splineErase(state->spl, numPointsErased);
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 1a006dc..7cb5d48 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -2285,7 +2285,7 @@ uint32_t cleanSpline(embedDBState *state, uint32_t minPageNumber) {
     uint32_t numPointsErased = 0;
     void *nextPoint;
     uint32_t currentPageNumber = 0;
-    for (size_t i = 0; i < state->spl->count; i++) {
+    for (size_t i = 0; i + 1 < state->spl->count; i++) {
         nextPoint = splinePointLocation(state->spl, i + 1);
         memcpy(&currentPageNumber, (int8_t *)nextPoint + state->keySize, sizeof(uint32_t));
         if (currentPageNumber < minPageNumber) {
@@ -2294,8 +2294,9 @@ uint32_t cleanSpline(embedDBState *state, uint32_t minPageNumber) {
             break;
         }
     }
-    if (state->spl->count - numPointsErased < 2)
-        numPointsErased -= 2 - (state->spl->count - numPointsErased);
+    /* At least two points must be left */
+    if (numPointsErased + 2 > state->spl->count)
+        numPointsErased = state->spl->count < 2 ? 0 : state->spl->count - 2;
     if (numPointsErased <= 0)
         return 0;
     splineErase(state->spl, numPointsErased);
-- 
2.43.0


From bf2b5b0357d36c830b79e629037f1a9d0ddb2b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:19 +0000
Subject: [PATCH 22/49] fix: the maximum error of pages with large keys was
 computed from the slope of a different page

---
 lib/Distribution/embedDB.c | 2 +-
 src/embedDB/embedDB.c      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index b2183a8..5a0de57 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1473,7 +1473,7 @@ int32_t getMaxError(embedDBState *state, void *buffer) {
         memcpy(&minKey, embedDBGetMinKey(state, buffer), state->keySize);
 
         // get slope of keys within page
-        float slope = embedDBCalculateSlope(state, state->buffer);  // this is incorrect, should be buffer. TODO: fix
+        float slope = embedDBCalculateSlope(state, buffer);
 
         for (int i = 0; i < state->maxRecordsPerPage; i++) {
             // loop all keys in page
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 7cb5d48..2557a9f 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1049,7 +1049,7 @@ int32_t getMaxError(embedDBState *state, void *buffer) {
         memcpy(&minKey, embedDBGetMinKey(state, buffer), state->keySize);
 
         // get slope of keys within page
-        float slope = embedDBCalculateSlope(state, state->buffer);  // this is incorrect, should be buffer. TODO: fix
+        float slope = embedDBCalculateSlope(state, buffer);
 
         for (int i = 0; i < state->maxRecordsPerPage; i++) {
             // loop all keys in page
-- 
2.43.0


From 8fd24b0dc5a082fb30171560062aee6728806e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:26 +0000
Subject: [PATCH 23/49] fix: failed memory allocations for the spline and the
 query bitmap were not handled

---
 lib/Distribution/embedDB.c | 22 +++++++++++++++++++---
 lib/Distribution/embedDB.h |  3 ++-
 src/embedDB/embedDB.c      | 14 ++++++++++++--
 src/spline/spline.c        |  8 +++++++-
 src/spline/spline.h        |  3 ++-
 5 files changed, 42 insertions(+), 8 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 5a0de57..0a91435 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -79,8 +79,9 @@
  * @param    size       Maximum size of spline
  * @param    maxError   Maximum error allowed in spline
  * @param    keySize    Size of key in bytes
+ * @return   Returns 0 if successful and -1 if memory could not be allocated
  */
-void splineInit(spline *spl, id_t size, size_t maxError, uint8_t keySize) {
+int8_t splineInit(spline *spl, id_t size, size_t maxError, uint8_t keySize) {
     uint8_t pointSize = sizeof(uint32_t) + keySize;
     spl->count = 0;
     spl->pointsStartIndex = 0;
@@ -95,6 +96,11 @@ void splineInit(spline *spl, id_t size, size_t maxError, uint8_t keySize) {
     spl->upper = malloc(pointSize);
     spl->firstSplinePoint = malloc(pointSize);
     spl->numAddCalls = 0;
+    if (spl->points == NULL || spl->lastKey == NULL || spl->lower == NULL || spl->upper == NULL || spl->firstSplinePoint == NULL) {
+        splineClose(spl);
+        return -1;
+    }
+    return 0;
 }
 
 /**
@@ -692,7 +698,14 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
             return -1;
         }
         state->spl = malloc(sizeof(spline));
-        splineInit(state->spl, state->numSplinePoints, indexMaxError, state->keySize);
+        if (state->spl == NULL || splineInit(state->spl, state->numSplinePoints, indexMaxError, state->keySize) != 0) {
+#ifdef PRINT_ERRORS
+            printf("ERROR: Unable to allocate memory for the spline.\n");
+#endif
+            free(state->spl);
+            state->spl = NULL;
+            return -1;
+        }
     }
 
     /* Allocate file for data*/
@@ -2157,7 +2170,10 @@ void embedDBInitIterator(embedDBState *state, embedDBIterator *it) {
         /* Verify that bitmap index is useful (must have set either min or max data value) */
         if (it->minData != NULL || it->maxData != NULL) {
             it->queryBitmap = calloc(1, state->bitmapSize);
-            state->buildBitmapFromRange(it->minData, it->maxData, it->queryBitmap);
+            /* Without memory for the bitmap, the iterator has to read every page */
+            if (it->queryBitmap != NULL) {
+                state->buildBitmapFromRange(it->minData, it->maxData, it->queryBitmap);
+            }
         }
     }
 
diff --git a/lib/Distribution/embedDB.h b/lib/Distribution/embedDB.h
index 194eb88..ecd40a0 100644
--- a/lib/Distribution/embedDB.h
+++ b/lib/Distribution/embedDB.h
@@ -112,8 +112,9 @@ struct spline_s {
  * @param    size       Maximum size of spline
  * @param    maxError   Maximum error allowed in spline
  * @param    keySize    Size of key in bytes
+ * @return   Returns 0 if successful and -1 if memory could not be allocated
  */
-void splineInit(spline *spl, id_t size, size_t maxError, uint8_t keySize);
+int8_t splineInit(spline *spl, id_t size, size_t maxError, uint8_t keySize);
 
 /**
  * @brief	Builds a spline structure given a sorted data set. GreedySplineCorridor
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 2557a9f..1ce078c 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -268,7 +268,14 @@ int8_t embedDBInit(embedDBState *state, size_t indexMaxError) {
             return -1;
         }
         state->spl = malloc(sizeof(spline));
-        splineInit(state->spl, state->numSplinePoints, indexMaxError, state->keySize);
+        if (state->spl == NULL || splineInit(state->spl, state->numSplinePoints, indexMaxError, state->keySize) != 0) {
+#ifdef PRINT_ERRORS
+            printf("ERROR: Unable to allocate memory for the spline.\n");
+#endif
+            free(state->spl);
+            state->spl = NULL;
+            return -1;
+        }
     }
 
     /* Allocate file for data*/
@@ -1733,7 +1740,10 @@ void embedDBInitIterator(embedDBState *state, embedDBIterator *it) {
         /* Verify that bitmap index is useful (must have set either min or max data value) */
         if (it->minData != NULL || it->maxData != NULL) {
             it->queryBitmap = calloc(1, state->bitmapSize);
-            state->buildBitmapFromRange(it->minData, it->maxData, it->queryBitmap);
+            /* Without memory for the bitmap, the iterator has to read every page */
+            if (it->queryBitmap != NULL) {
+                state->buildBitmapFromRange(it->minData, it->maxData, it->queryBitmap);
+            }
         }
     }
 
diff --git a/src/spline/spline.c b/src/spline/spline.c
index 131536b..3f267a1 100644
--- a/src/spline/spline.c
+++ b/src/spline/spline.c
@@ -50,8 +50,9 @@
  * @param    size       Maximum size of spline
  * @param    maxError   Maximum error allowed in spline
  * @param    keySize    Size of key in bytes
+ * @return   Returns 0 if successful and -1 if memory could not be allocated
  */
-void splineInit(spline *spl, id_t size, size_t maxError, uint8_t keySize) {
+int8_t splineInit(spline *spl, id_t size, size_t maxError, uint8_t keySize) {
     uint8_t pointSize = sizeof(uint32_t) + keySize;
     spl->count = 0;
     spl->pointsStartIndex = 0;
@@ -66,6 +67,11 @@ void splineInit(spline *spl, id_t size, size_t maxError, uint8_t keySize) {
     spl->upper = malloc(pointSize);
     spl->firstSplinePoint = malloc(pointSize);
     spl->numAddCalls = 0;
+    if (spl->points == NULL || spl->lastKey == NULL || spl->lower == NULL || spl->upper == NULL || spl->firstSplinePoint == NULL) {
+        splineClose(spl);
+        return -1;
+    }
+    return 0;
 }
 
 /**
diff --git a/src/spline/spline.h b/src/spline/spline.h
index 0d3f000..b468706 100644
--- a/src/spline/spline.h
+++ b/src/spline/spline.h
@@ -70,8 +70,9 @@ struct spline_s {
  * @param    size       Maximum size of spline
  * @param    maxError   Maximum error allowed in spline
  * @param    keySize    Size of key in bytes
+ * @return   Returns 0 if successful and -1 if memory could not be allocated
  */
-void splineInit(spline *spl, id_t size, size_t maxError, uint8_t keySize);
+int8_t splineInit(spline *spl, id_t size, size_t maxError, uint8_t keySize);
 
 /**
  * @brief	Builds a spline structure given a sorted data set. GreedySplineCorridor
-- 
2.43.0


From b9bc128ea49c25f1a7f4fd9325acaacc3a6ff9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:41 +0000
Subject: [PATCH 24/49] fix: reading variable data in pieces that end at a page
 boundary returned the header of the next page

---
 lib/Distribution/embedDB.c | 5 +++++
 src/embedDB/embedDB.c      | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 0a91435..364a113 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2549,6 +2549,11 @@ uint32_t embedDBVarDataStreamRead(embedDBState *state, embedDBVarDataStream *str
         return 0;
     }
 
+    // If the last read ended at the end of a page, skip past the header of the next page
+    if (stream->fileOffset % state->pageSize == 0) {
+        stream->fileOffset += state->variableDataHeaderSize;
+    }
+
     // Read in var page containing the data to read
     uint32_t pageNum = (stream->fileOffset / state->pageSize) % state->numVarPages;
     if (readVariablePage(state, pageNum) != 0) {
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 1ce078c..d823e94 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -2119,6 +2119,11 @@ uint32_t embedDBVarDataStreamRead(embedDBState *state, embedDBVarDataStream *str
         return 0;
     }
 
+    // If the last read ended at the end of a page, skip past the header of the next page
+    if (stream->fileOffset % state->pageSize == 0) {
+        stream->fileOffset += state->variableDataHeaderSize;
+    }
+
     // Read in var page containing the data to read
     uint32_t pageNum = (stream->fileOffset / state->pageSize) % state->numVarPages;
     if (readVariablePage(state, pageNum) != 0) {
-- 
2.43.0


From 32d4d1d22d54ef1ff93f3048ba2aafc8d74e8562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:02 +0000
Subject: [PATCH 25/49] fix: sum and average misread signed columns of five to
 seven bytes

---
 lib/Distribution/embedDB.c            | 4 ++--
 src/query-interface/advancedQueries.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 364a113..06bb46a 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -4025,7 +4025,7 @@ void sumAdd(embedDBAggregateFunc *aggFunc, embedDBSchema *inputSchema, const voi
         int64_t val = 0;
         memcpy(&val, colPos, colSize);
         // Extend two's complement sign to fill 64 bit number if val is negative
-        int64_t sign = val & (128 << ((colSize - 1) * 8));
+        int64_t sign = val & ((int64_t)128 << ((colSize - 1) * 8));
         if (sign != 0) {
             memset(((int8_t *)(&val)) + colSize, 0xff, sizeof(int64_t) - colSize);
         }
@@ -4228,7 +4228,7 @@ void avgAdd(struct embedDBAggregateFunc *aggFunc, embedDBSchema *inputSchema, co
         int64_t val = 0;
         memcpy(&val, colPos, colSize);
         // Extend two's complement sign to fill 64 bit number if val is negative
-        int64_t sign = val & (128 << ((colSize - 1) * 8));
+        int64_t sign = val & ((int64_t)128 << ((colSize - 1) * 8));
         if (sign != 0) {
             memset(((int8_t *)(&val)) + colSize, 0xff, sizeof(int64_t) - colSize);
         }
diff --git a/src/query-interface/advancedQueries.c b/src/query-interface/advancedQueries.c
index 2a513a9..cf73d65 100644
--- a/src/query-interface/advancedQueries.c
+++ b/src/query-interface/advancedQueries.c
@@ -861,7 +861,7 @@ void sumAdd(embedDBAggregateFunc* aggFunc, embedDBSchema* inputSchema, const voi
         int64_t val = 0;
         memcpy(&val, colPos, colSize);
         // Extend two's complement sign to fill 64 bit number if val is negative
-        int64_t sign = val & (128 << ((colSize - 1) * 8));
+        int64_t sign = val & ((int64_t)128 << ((colSize - 1) * 8));
         if (sign != 0) {
             memset(((int8_t*)(&val)) + colSize, 0xff, sizeof(int64_t) - colSize);
         }
@@ -1064,7 +1064,7 @@ void avgAdd(struct embedDBAggregateFunc* aggFunc, embedDBSchema* inputSchema, co
         int64_t val = 0;
         memcpy(&val, colPos, colSize);
         // Extend two's complement sign to fill 64 bit number if val is negative
-        int64_t sign = val & (128 << ((colSize - 1) * 8));
+        int64_t sign = val & ((int64_t)128 << ((colSize - 1) * 8));
         if (sign != 0) {
             memset(((int8_t*)(&val)) + colSize, 0xff, sizeof(int64_t) - colSize);
         }
-- 
2.43.0


From 79fe8c2d8cc2113e0d6679128a2d9cc792b93079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:10 +0000
Subject: [PATCH 26/49] fix: closing an aggregate operator must leave its input
 to embedDBFreeOperatorRecursive

---
 lib/Distribution/embedDB.c            | 1 -
 src/query-interface/advancedQueries.c | 1 -
 2 files changed, 2 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 06bb46a..b8d778a 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -3766,7 +3766,6 @@ int8_t nextAggregate(embedDBOperator *op) {
 
 void closeAggregate(embedDBOperator *op) {
     op->input->close(op->input);
-    op->input = NULL;
     embedDBFreeSchema(&op->schema);
     free(((struct aggregateInfo *)op->state)->lastRecordBuffer);
     free(op->state);
diff --git a/src/query-interface/advancedQueries.c b/src/query-interface/advancedQueries.c
index cf73d65..6703c7e 100644
--- a/src/query-interface/advancedQueries.c
+++ b/src/query-interface/advancedQueries.c
@@ -602,7 +602,6 @@ int8_t nextAggregate(embedDBOperator* op) {
 
 void closeAggregate(embedDBOperator* op) {
     op->input->close(op->input);
-    op->input = NULL;
     embedDBFreeSchema(&op->schema);
     free(((struct aggregateInfo*)op->state)->lastRecordBuffer);
     free(op->state);
-- 
2.43.0


From 65312af369ce017c9c2bf9c5a64b017b364e565b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:18 +0000
Subject: [PATCH 27/49] fix: initialising a key join again leaked its record
 buffer

---
 lib/Distribution/embedDB.c            | 8 +++++---
 src/query-interface/advancedQueries.c | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index b8d778a..5635a14 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -3861,12 +3861,14 @@ void initKeyJoin(embedDBOperator *op) {
     }
 
     // Allocate recordBuffer
-    op->recordBuffer = malloc(getRecordSizeFromSchema(op->schema));
     if (op->recordBuffer == NULL) {
+        op->recordBuffer = malloc(getRecordSizeFromSchema(op->schema));
+        if (op->recordBuffer == NULL) {
 #ifdef PRINT_ERRORS
-        printf("ERROR: Failed to malloc while initializing join operator\n");
+            printf("ERROR: Failed to malloc while initializing join operator\n");
 #endif
-        return;
+            return;
+        }
     }
 
     state->firstCall = 1;
diff --git a/src/query-interface/advancedQueries.c b/src/query-interface/advancedQueries.c
index 6703c7e..0aa67d2 100644
--- a/src/query-interface/advancedQueries.c
+++ b/src/query-interface/advancedQueries.c
@@ -697,12 +697,14 @@ void initKeyJoin(embedDBOperator* op) {
     }
 
     // Allocate recordBuffer
-    op->recordBuffer = malloc(getRecordSizeFromSchema(op->schema));
     if (op->recordBuffer == NULL) {
+        op->recordBuffer = malloc(getRecordSizeFromSchema(op->schema));
+        if (op->recordBuffer == NULL) {
 #ifdef PRINT_ERRORS
-        printf("ERROR: Failed to malloc while initializing join operator\n");
+            printf("ERROR: Failed to malloc while initializing join operator\n");
 #endif
-        return;
+            return;
+        }
     }
 
     state->firstCall = 1;
-- 
2.43.0


From d46503e63a942265a121c4cc9f95c11a52449a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:24 +0000
Subject: [PATCH 28/49] fix: failed memory allocations in the query interface
 were not handled

---
 lib/Distribution/embedDB.c            | 54 +++++++++++++++++++++++++++
 src/query-interface/advancedQueries.c | 38 +++++++++++++++++++
 src/query-interface/schema.c          | 16 ++++++++
 3 files changed, 108 insertions(+)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 5635a14..134a26b 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -3061,7 +3061,20 @@ void embedDBClose(embedDBState *state) {
  */
 embedDBSchema *embedDBCreateSchema(uint8_t numCols, int8_t *colSizes, int8_t *colSignedness) {
     embedDBSchema *schema = malloc(sizeof(embedDBSchema));
+    if (schema == NULL) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: malloc failed while creating schema\n");
+#endif
+        return NULL;
+    }
     schema->columnSizes = malloc(numCols * sizeof(int8_t));
+    if (schema->columnSizes == NULL) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: malloc failed while creating schema\n");
+#endif
+        free(schema);
+        return NULL;
+    }
     schema->numCols = numCols;
     uint16_t totalSize = 0;
     for (uint8_t i = 0; i < numCols; i++) {
@@ -3072,6 +3085,7 @@ embedDBSchema *embedDBCreateSchema(uint8_t numCols, int8_t *colSizes, int8_t *co
 #ifdef PRINT_ERRORS
             printf("ERROR: Column size must be greater than zero\n");
 #endif
+            embedDBFreeSchema(&schema);
             return NULL;
         }
         if (sign == embedDB_COLUMN_SIGNED) {
@@ -3082,6 +3096,7 @@ embedDBSchema *embedDBCreateSchema(uint8_t numCols, int8_t *colSizes, int8_t *co
 #ifdef PRINT_ERRORS
             printf("ERROR: Must only use embedDB_COLUMN_SIGNED or embedDB_COLUMN_UNSIGNED to describe column signedness\n");
 #endif
+            embedDBFreeSchema(&schema);
             return NULL;
         }
     }
@@ -3127,6 +3142,7 @@ embedDBSchema *copySchema(const embedDBSchema *schema) {
 #ifdef PRINT_ERRORS
         printf("ERROR: malloc failed while copying schema\n");
 #endif
+        free(copy);
         return NULL;
     }
     memcpy(copy->columnSizes, schema->columnSizes, schema->numCols * sizeof(int8_t));
@@ -3388,6 +3404,7 @@ embedDBOperator *createTableScanOperator(embedDBState *state, embedDBIterator *i
 #ifdef PRINT_ERRORS
         printf("ERROR: malloc failed while creating TableScan operator\n");
 #endif
+        free(op);
         return NULL;
     }
     memcpy(op->state, &state, sizeof(void *));
@@ -3508,6 +3525,7 @@ embedDBOperator *createProjectionOperator(embedDBOperator *input, uint8_t numCol
 #ifdef PRINT_ERRORS
         printf("ERROR: malloc failed while creating Projection operator\n");
 #endif
+        free(state);
         return NULL;
     }
 
@@ -3615,6 +3633,7 @@ embedDBOperator *createSelectionOperator(embedDBOperator *input, int8_t colNum,
 #ifdef PRINT_ERRORS
         printf("ERROR: Failed to malloc while creating Selection operator\n");
 #endif
+        free(state);
         return NULL;
     }
     op->state = state;
@@ -3800,6 +3819,7 @@ embedDBOperator *createAggregateOperator(embedDBOperator *input, int8_t (*groupf
 #ifdef PRINT_ERRORS
         printf("ERROR: Failed to malloc while creating aggregate operator\n");
 #endif
+        free(state);
         return NULL;
     }
 
@@ -3965,6 +3985,7 @@ embedDBOperator *createKeyJoinOperator(embedDBOperator *input1, embedDBOperator
 #ifdef PRINT_ERRORS
         printf("ERROR: Failed to malloc while creating join operator\n");
 #endif
+        free(op);
         return NULL;
     }
     state->input2 = input2;
@@ -3998,10 +4019,23 @@ void countCompute(embedDBAggregateFunc *aggFunc, embedDBSchema *outputSchema, vo
  */
 embedDBAggregateFunc *createCountAggregate() {
     embedDBAggregateFunc *aggFunc = malloc(sizeof(embedDBAggregateFunc));
+    if (aggFunc == NULL) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: Failed to allocate while creating count aggregate function\n");
+#endif
+        return NULL;
+    }
     aggFunc->reset = countReset;
     aggFunc->add = countAdd;
     aggFunc->compute = countCompute;
     aggFunc->state = malloc(sizeof(uint32_t));
+    if (aggFunc->state == NULL) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: Failed to allocate while creating count aggregate function\n");
+#endif
+        free(aggFunc);
+        return NULL;
+    }
     aggFunc->colSize = 4;
     return aggFunc;
 }
@@ -4049,10 +4083,23 @@ void sumCompute(embedDBAggregateFunc *aggFunc, embedDBSchema *outputSchema, void
  */
 embedDBAggregateFunc *createSumAggregate(uint8_t colNum) {
     embedDBAggregateFunc *aggFunc = malloc(sizeof(embedDBAggregateFunc));
+    if (aggFunc == NULL) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: Failed to allocate while creating sum aggregate function\n");
+#endif
+        return NULL;
+    }
     aggFunc->reset = sumReset;
     aggFunc->add = sumAdd;
     aggFunc->compute = sumCompute;
     aggFunc->state = malloc(sizeof(int8_t) + sizeof(int64_t));
+    if (aggFunc->state == NULL) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: Failed to allocate while creating sum aggregate function\n");
+#endif
+        free(aggFunc);
+        return NULL;
+    }
     *((uint8_t *)aggFunc->state + sizeof(int64_t)) = colNum;
     aggFunc->colSize = -8;
     return aggFunc;
@@ -4114,6 +4161,7 @@ embedDBAggregateFunc *createMinAggregate(uint8_t colNum, int8_t colSize) {
 #ifdef PRINT_ERRORS
         printf("ERROR: Failed to allocate while creating min aggregate function\n");
 #endif
+        free(aggFunc);
         return NULL;
     }
     state->colNum = colNum;
@@ -4122,6 +4170,8 @@ embedDBAggregateFunc *createMinAggregate(uint8_t colNum, int8_t colSize) {
 #ifdef PRINT_ERRORS
         printf("ERROR: Failed to allocate while creating min aggregate function\n");
 #endif
+        free(state);
+        free(aggFunc);
         return NULL;
     }
     aggFunc->state = state;
@@ -4179,6 +4229,7 @@ embedDBAggregateFunc *createMaxAggregate(uint8_t colNum, int8_t colSize) {
 #ifdef PRINT_ERRORS
         printf("ERROR: Failed to allocate while creating max aggregate function\n");
 #endif
+        free(aggFunc);
         return NULL;
     }
     state->colNum = colNum;
@@ -4187,6 +4238,8 @@ embedDBAggregateFunc *createMaxAggregate(uint8_t colNum, int8_t colSize) {
 #ifdef PRINT_ERRORS
         printf("ERROR: Failed to allocate while creating max aggregate function\n");
 #endif
+        free(state);
+        free(aggFunc);
         return NULL;
     }
     aggFunc->state = state;
@@ -4282,6 +4335,7 @@ embedDBAggregateFunc *createAvgAggregate(uint8_t colNum, int8_t outputFloatSize)
 #ifdef PRINT_ERRORS
         printf("ERROR: Failed to allocate while creating avg aggregate function\n");
 #endif
+        free(aggFunc);
         return NULL;
     }
     state->colNum = colNum;
diff --git a/src/query-interface/advancedQueries.c b/src/query-interface/advancedQueries.c
index 0aa67d2..706d6e7 100644
--- a/src/query-interface/advancedQueries.c
+++ b/src/query-interface/advancedQueries.c
@@ -224,6 +224,7 @@ embedDBOperator* createTableScanOperator(embedDBState* state, embedDBIterator* i
 #ifdef PRINT_ERRORS
         printf("ERROR: malloc failed while creating TableScan operator\n");
 #endif
+        free(op);
         return NULL;
     }
     memcpy(op->state, &state, sizeof(void*));
@@ -344,6 +345,7 @@ embedDBOperator* createProjectionOperator(embedDBOperator* input, uint8_t numCol
 #ifdef PRINT_ERRORS
         printf("ERROR: malloc failed while creating Projection operator\n");
 #endif
+        free(state);
         return NULL;
     }
 
@@ -451,6 +453,7 @@ embedDBOperator* createSelectionOperator(embedDBOperator* input, int8_t colNum,
 #ifdef PRINT_ERRORS
         printf("ERROR: Failed to malloc while creating Selection operator\n");
 #endif
+        free(state);
         return NULL;
     }
     op->state = state;
@@ -636,6 +639,7 @@ embedDBOperator* createAggregateOperator(embedDBOperator* input, int8_t (*groupf
 #ifdef PRINT_ERRORS
         printf("ERROR: Failed to malloc while creating aggregate operator\n");
 #endif
+        free(state);
         return NULL;
     }
 
@@ -801,6 +805,7 @@ embedDBOperator* createKeyJoinOperator(embedDBOperator* input1, embedDBOperator*
 #ifdef PRINT_ERRORS
         printf("ERROR: Failed to malloc while creating join operator\n");
 #endif
+        free(op);
         return NULL;
     }
     state->input2 = input2;
@@ -834,10 +839,23 @@ void countCompute(embedDBAggregateFunc* aggFunc, embedDBSchema* outputSchema, vo
  */
 embedDBAggregateFunc* createCountAggregate() {
     embedDBAggregateFunc* aggFunc = malloc(sizeof(embedDBAggregateFunc));
+    if (aggFunc == NULL) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: Failed to allocate while creating count aggregate function\n");
+#endif
+        return NULL;
+    }
     aggFunc->reset = countReset;
     aggFunc->add = countAdd;
     aggFunc->compute = countCompute;
     aggFunc->state = malloc(sizeof(uint32_t));
+    if (aggFunc->state == NULL) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: Failed to allocate while creating count aggregate function\n");
+#endif
+        free(aggFunc);
+        return NULL;
+    }
     aggFunc->colSize = 4;
     return aggFunc;
 }
@@ -885,10 +903,23 @@ void sumCompute(embedDBAggregateFunc* aggFunc, embedDBSchema* outputSchema, void
  */
 embedDBAggregateFunc* createSumAggregate(uint8_t colNum) {
     embedDBAggregateFunc* aggFunc = malloc(sizeof(embedDBAggregateFunc));
+    if (aggFunc == NULL) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: Failed to allocate while creating sum aggregate function\n");
+#endif
+        return NULL;
+    }
     aggFunc->reset = sumReset;
     aggFunc->add = sumAdd;
     aggFunc->compute = sumCompute;
     aggFunc->state = malloc(sizeof(int8_t) + sizeof(int64_t));
+    if (aggFunc->state == NULL) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: Failed to allocate while creating sum aggregate function\n");
+#endif
+        free(aggFunc);
+        return NULL;
+    }
     *((uint8_t*)aggFunc->state + sizeof(int64_t)) = colNum;
     aggFunc->colSize = -8;
     return aggFunc;
@@ -950,6 +981,7 @@ embedDBAggregateFunc* createMinAggregate(uint8_t colNum, int8_t colSize) {
 #ifdef PRINT_ERRORS
         printf("ERROR: Failed to allocate while creating min aggregate function\n");
 #endif
+        free(aggFunc);
         return NULL;
     }
     state->colNum = colNum;
@@ -958,6 +990,8 @@ embedDBAggregateFunc* createMinAggregate(uint8_t colNum, int8_t colSize) {
 #ifdef PRINT_ERRORS
         printf("ERROR: Failed to allocate while creating min aggregate function\n");
 #endif
+        free(state);
+        free(aggFunc);
         return NULL;
     }
     aggFunc->state = state;
@@ -1015,6 +1049,7 @@ embedDBAggregateFunc* createMaxAggregate(uint8_t colNum, int8_t colSize) {
 #ifdef PRINT_ERRORS
         printf("ERROR: Failed to allocate while creating max aggregate function\n");
 #endif
+        free(aggFunc);
         return NULL;
     }
     state->colNum = colNum;
@@ -1023,6 +1058,8 @@ embedDBAggregateFunc* createMaxAggregate(uint8_t colNum, int8_t colSize) {
 #ifdef PRINT_ERRORS
         printf("ERROR: Failed to allocate while creating max aggregate function\n");
 #endif
+        free(state);
+        free(aggFunc);
         return NULL;
     }
     aggFunc->state = state;
@@ -1118,6 +1155,7 @@ embedDBAggregateFunc* createAvgAggregate(uint8_t colNum, int8_t outputFloatSize)
 #ifdef PRINT_ERRORS
         printf("ERROR: Failed to allocate while creating avg aggregate function\n");
 #endif
+        free(aggFunc);
         return NULL;
     }
     state->colNum = colNum;
diff --git a/src/query-interface/schema.c b/src/query-interface/schema.c
index 5790949..f0f4ea6 100644
--- a/src/query-interface/schema.c
+++ b/src/query-interface/schema.c
@@ -52,7 +52,20 @@
  */
 embedDBSchema* embedDBCreateSchema(uint8_t numCols, int8_t* colSizes, int8_t* colSignedness) {
     embedDBSchema* schema = malloc(sizeof(embedDBSchema));
+    if (schema == NULL) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: malloc failed while creating schema\n");
+#endif
+        return NULL;
+    }
     schema->columnSizes = malloc(numCols * sizeof(int8_t));
+    if (schema->columnSizes == NULL) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: malloc failed while creating schema\n");
+#endif
+        free(schema);
+        return NULL;
+    }
     schema->numCols = numCols;
     uint16_t totalSize = 0;
     for (uint8_t i = 0; i < numCols; i++) {
@@ -63,6 +76,7 @@ embedDBSchema* embedDBCreateSchema(uint8_t numCols, int8_t* colSizes, int8_t* co
 #ifdef PRINT_ERRORS
             printf("ERROR: Column size must be greater than zero\n");
 #endif
+            embedDBFreeSchema(&schema);
             return NULL;
         }
         if (sign == embedDB_COLUMN_SIGNED) {
@@ -73,6 +87,7 @@ embedDBSchema* embedDBCreateSchema(uint8_t numCols, int8_t* colSizes, int8_t* co
 #ifdef PRINT_ERRORS
             printf("ERROR: Must only use embedDB_COLUMN_SIGNED or embedDB_COLUMN_UNSIGNED to describe column signedness\n");
 #endif
+            embedDBFreeSchema(&schema);
             return NULL;
         }
     }
@@ -118,6 +133,7 @@ embedDBSchema* copySchema(const embedDBSchema* schema) {
 #ifdef PRINT_ERRORS
         printf("ERROR: malloc failed while copying schema\n");
 #endif
+        free(copy);
         return NULL;
     }
     memcpy(copy->columnSizes, schema->columnSizes, schema->numCols * sizeof(int8_t));
-- 
2.43.0


From fb44f55221227ca4d7aedd4c9ed398cbc1c480f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:42 +0000
Subject: [PATCH 29/49] fix: recovery took an erased first page for the page
 with the smallest key

---
 lib/Distribution/embedDB.c | 21 +++++++++++++++------
 src/embedDB/embedDB.c      | 21 +++++++++++++++------
 2 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 134a26b..05851c6 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -807,6 +807,7 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
     id_t logicalPageId = 0;
     id_t maxLogicalPageId = 0;
     id_t physicalPageId = 0;
+    id_t firstPhysicalPageId = 0;
     uint32_t count = 0;
     count_t blockSize = state->eraseSizeInPages;
     bool validData = false;
@@ -826,6 +827,7 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
         if (validData && numRecords > 0 && numRecords < state->maxRecordsPerPage + 1) {
             hasData = true;
             maxLogicalPageId = logicalPageId;
+            firstPhysicalPageId = physicalPageId;
             physicalPageId++;
             updateMaxiumError(state, buffer);
             count++;
@@ -858,9 +860,9 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
 
     /*
      * Now we need to find where the page with the smallest key that is still valid.
-     * The default case is we have not wrapped and the page number for the physical page with the smallest key is 0.
+     * The default case is that the first page with valid data has the smallest key.
      */
-    id_t physicalPageIDOfSmallestData = 0;
+    id_t physicalPageIDOfSmallestData = firstPhysicalPageId;
 
     /* check if data exists at this location */
     if (moreToRead && count < state->numDataPages) {
@@ -915,6 +917,7 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
     id_t logicalPageId = 0;
     id_t maxLogicalPageId = 0;
     id_t physicalPageId = 0;
+    id_t firstPhysicalPageId = 0;
     uint32_t count = 0;
     count_t blockSize = state->eraseSizeInPages;
     bool validData = false;
@@ -937,6 +940,7 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
             /* Setup for next loop so it does not have to worry about setting the initial values */
             hasPermanentData = true;
             maxLogicalPageId = logicalPageId;
+            firstPhysicalPageId = physicalPageId;
             physicalPageId++;
             updateMaxiumError(state, buffer);
             count++;
@@ -1054,9 +1058,9 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
     }
 
     /* Now check if we have wrapped after the record level consistency.
-     * The default case is we start at beginning of data file.
+     * The default case is we start at the first page with valid data.
      */
-    id_t physicalPageIDOfSmallestData = 0;
+    id_t physicalPageIDOfSmallestData = firstPhysicalPageId;
 
     physicalPageId = (state->rlcPhysicalStartingPage + 2 * blockSize) % state->numDataPages;
     int8_t readSuccess = readPage(state, physicalPageId);
@@ -1255,6 +1259,7 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
     id_t logicalVariablePageId = 0;
     id_t maxLogicalVariablePageId = 0;
     id_t physicalVariablePageId = 0;
+    id_t firstPhysicalPageId = 0;
     id_t count = 0;
     count_t blockSize = state->eraseSizeInPages;
     bool validData = false;
@@ -1281,6 +1286,9 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
                 i = 2;
                 hasData = true;
                 maxLogicalVariablePageId = logicalVariablePageId;
+                /* A page with id 0 before this one is only valid if nothing has been overwritten yet */
+                if (logicalVariablePageId != count)
+                    firstPhysicalPageId = physicalVariablePageId;
             }
             physicalVariablePageId++;
             count++;
@@ -1288,6 +1296,7 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
             id_t pagesToBlockBoundary = blockSize - (count % blockSize);
             physicalVariablePageId += pagesToBlockBoundary;
             count += pagesToBlockBoundary;
+            firstPhysicalPageId = physicalVariablePageId;
             i++;
         }
         moreToRead = !(readVariablePage(state, physicalVariablePageId));
@@ -1312,9 +1321,9 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
 
     /*
      * Now we need to find where the page with the smallest key that is still valid.
-     * The default case is we have not wrapped and the page number for the physical page with the smallest key is 0.
+     * The default case is that the first page with valid data has the smallest key.
      */
-    id_t physicalPageIDOfSmallestData = 0;
+    id_t physicalPageIDOfSmallestData = firstPhysicalPageId;
 
     /* check if data exists at this location */
     if (moreToRead && count < state->numVarPages) {
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index d823e94..f50bf8c 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -377,6 +377,7 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
     id_t logicalPageId = 0;
     id_t maxLogicalPageId = 0;
     id_t physicalPageId = 0;
+    id_t firstPhysicalPageId = 0;
     uint32_t count = 0;
     count_t blockSize = state->eraseSizeInPages;
     bool validData = false;
@@ -396,6 +397,7 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
         if (validData && numRecords > 0 && numRecords < state->maxRecordsPerPage + 1) {
             hasData = true;
             maxLogicalPageId = logicalPageId;
+            firstPhysicalPageId = physicalPageId;
             physicalPageId++;
             updateMaxiumError(state, buffer);
             count++;
@@ -428,9 +430,9 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
 
     /*
      * Now we need to find where the page with the smallest key that is still valid.
-     * The default case is we have not wrapped and the page number for the physical page with the smallest key is 0.
+     * The default case is that the first page with valid data has the smallest key.
      */
-    id_t physicalPageIDOfSmallestData = 0;
+    id_t physicalPageIDOfSmallestData = firstPhysicalPageId;
 
     /* check if data exists at this location */
     if (moreToRead && count < state->numDataPages) {
@@ -485,6 +487,7 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
     id_t logicalPageId = 0;
     id_t maxLogicalPageId = 0;
     id_t physicalPageId = 0;
+    id_t firstPhysicalPageId = 0;
     uint32_t count = 0;
     count_t blockSize = state->eraseSizeInPages;
     bool validData = false;
@@ -507,6 +510,7 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
             /* Setup for next loop so it does not have to worry about setting the initial values */
             hasPermanentData = true;
             maxLogicalPageId = logicalPageId;
+            firstPhysicalPageId = physicalPageId;
             physicalPageId++;
             updateMaxiumError(state, buffer);
             count++;
@@ -624,9 +628,9 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
     }
 
     /* Now check if we have wrapped after the record level consistency.
-     * The default case is we start at beginning of data file.
+     * The default case is we start at the first page with valid data.
      */
-    id_t physicalPageIDOfSmallestData = 0;
+    id_t physicalPageIDOfSmallestData = firstPhysicalPageId;
 
     physicalPageId = (state->rlcPhysicalStartingPage + 2 * blockSize) % state->numDataPages;
     int8_t readSuccess = readPage(state, physicalPageId);
@@ -825,6 +829,7 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
     id_t logicalVariablePageId = 0;
     id_t maxLogicalVariablePageId = 0;
     id_t physicalVariablePageId = 0;
+    id_t firstPhysicalPageId = 0;
     id_t count = 0;
     count_t blockSize = state->eraseSizeInPages;
     bool validData = false;
@@ -851,6 +856,9 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
                 i = 2;
                 hasData = true;
                 maxLogicalVariablePageId = logicalVariablePageId;
+                /* A page with id 0 before this one is only valid if nothing has been overwritten yet */
+                if (logicalVariablePageId != count)
+                    firstPhysicalPageId = physicalVariablePageId;
             }
             physicalVariablePageId++;
             count++;
@@ -858,6 +866,7 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
             id_t pagesToBlockBoundary = blockSize - (count % blockSize);
             physicalVariablePageId += pagesToBlockBoundary;
             count += pagesToBlockBoundary;
+            firstPhysicalPageId = physicalVariablePageId;
             i++;
         }
         moreToRead = !(readVariablePage(state, physicalVariablePageId));
@@ -882,9 +891,9 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
 
     /*
      * Now we need to find where the page with the smallest key that is still valid.
-     * The default case is we have not wrapped and the page number for the physical page with the smallest key is 0.
+     * The default case is that the first page with valid data has the smallest key.
      */
-    id_t physicalPageIDOfSmallestData = 0;
+    id_t physicalPageIDOfSmallestData = firstPhysicalPageId;
 
     /* check if data exists at this location */
     if (moreToRead && count < state->numVarPages) {
-- 
2.43.0


From 169f0137ba57f3527acbf85681264c3b8cf8a368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:11 +0000
Subject: [PATCH 30/49] fix: recovery with record-level consistency erased
 pages behind the end of the data file

---
 lib/Distribution/embedDB.c | 5 +++--
 src/embedDB/embedDB.c      | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 05851c6..356d1a2 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -977,8 +977,9 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
     id_t pagesToBlockBoundary = blockSize - (count % blockSize);
     /* if we are on a block-boundary, we erase the next page in case the erase failed and then skip to the start of the next block */
     if (pagesToBlockBoundary == blockSize) {
-        int8_t eraseSuccess = state->fileInterface->erase(count, count + blockSize, state->pageSize, state->dataFile);
-        forgetBufferedPages(&state->bufferedPageId, count, count + blockSize);
+        id_t eraseStart = count % state->numDataPages;
+        int8_t eraseSuccess = state->fileInterface->erase(eraseStart, eraseStart + blockSize, state->pageSize, state->dataFile);
+        forgetBufferedPages(&state->bufferedPageId, eraseStart, eraseStart + blockSize);
         if (!eraseSuccess) {
 #ifdef PRINT_ERRORS
             printf("Error: Unable to erase data page during recovery!\n");
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index f50bf8c..63c0ab2 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -547,8 +547,9 @@ int8_t embedDBInitDataFromFileWithRecordLevelConsistency(embedDBState *state) {
     id_t pagesToBlockBoundary = blockSize - (count % blockSize);
     /* if we are on a block-boundary, we erase the next page in case the erase failed and then skip to the start of the next block */
     if (pagesToBlockBoundary == blockSize) {
-        int8_t eraseSuccess = state->fileInterface->erase(count, count + blockSize, state->pageSize, state->dataFile);
-        forgetBufferedPages(&state->bufferedPageId, count, count + blockSize);
+        id_t eraseStart = count % state->numDataPages;
+        int8_t eraseSuccess = state->fileInterface->erase(eraseStart, eraseStart + blockSize, state->pageSize, state->dataFile);
+        forgetBufferedPages(&state->bufferedPageId, eraseStart, eraseStart + blockSize);
         if (!eraseSuccess) {
 #ifdef PRINT_ERRORS
             printf("Error: Unable to erase data page during recovery!\n");
-- 
2.43.0


From cd76c74b10e2eb87678e8e1cd3d7b964183ca66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:24 +0000
Subject: [PATCH 31/49] fix: recovery must erase the block it gives up at a
 block boundary before pages are written to it

---
 lib/Distribution/embedDB.c | 24 ++++++++++++++++++++++++
 src/embedDB/embedDB.c      | 24 ++++++++++++++++++++++++
 2 files changed, 48 insertions(+)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 356d1a2..6ea1d45 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -869,6 +869,18 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
         /* find where the next block boundary is */
         id_t pagesToBlockBoundary = blockSize - (count % blockSize);
 
+        /* if we are on a block boundary, the next block is given up and written next, so it must be erased */
+        if (pagesToBlockBoundary == blockSize) {
+            int8_t eraseSuccess = state->fileInterface->erase(count, count + blockSize, state->pageSize, state->dataFile);
+            forgetBufferedPages(&state->bufferedPageId, count, count + blockSize);
+            if (!eraseSuccess) {
+#ifdef PRINT_ERRORS
+                printf("Error: Unable to erase data page during recovery!\n");
+#endif
+                return -1;
+            }
+        }
+
         /* go to the next block boundary */
         physicalPageId = (physicalPageId + pagesToBlockBoundary) % state->numDataPages;
         moreToRead = !(readPage(state, physicalPageId));
@@ -1331,6 +1343,18 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
         /* find where the next block boundary is */
         id_t pagesToBlockBoundary = blockSize - (count % blockSize);
 
+        /* if we are on a block boundary, the next block is given up and written next, so it must be erased */
+        if (pagesToBlockBoundary == blockSize) {
+            int8_t eraseSuccess = state->fileInterface->erase(count, count + blockSize, state->pageSize, state->varFile);
+            forgetBufferedPages(&state->bufferedVarPage, count, count + blockSize);
+            if (!eraseSuccess) {
+#ifdef PRINT_ERRORS
+                printf("Error: Unable to erase variable data page during recovery!\n");
+#endif
+                return -1;
+            }
+        }
+
         /* go to the next block boundary */
         physicalVariablePageId = (physicalVariablePageId + pagesToBlockBoundary) % state->numVarPages;
         moreToRead = !(readVariablePage(state, physicalVariablePageId));
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 63c0ab2..c49faaf 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -439,6 +439,18 @@ int8_t embedDBInitDataFromFile(embedDBState *state) {
         /* find where the next block boundary is */
         id_t pagesToBlockBoundary = blockSize - (count % blockSize);
 
+        /* if we are on a block boundary, the next block is given up and written next, so it must be erased */
+        if (pagesToBlockBoundary == blockSize) {
+            int8_t eraseSuccess = state->fileInterface->erase(count, count + blockSize, state->pageSize, state->dataFile);
+            forgetBufferedPages(&state->bufferedPageId, count, count + blockSize);
+            if (!eraseSuccess) {
+#ifdef PRINT_ERRORS
+                printf("Error: Unable to erase data page during recovery!\n");
+#endif
+                return -1;
+            }
+        }
+
         /* go to the next block boundary */
         physicalPageId = (physicalPageId + pagesToBlockBoundary) % state->numDataPages;
         moreToRead = !(readPage(state, physicalPageId));
@@ -901,6 +913,18 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
         /* find where the next block boundary is */
         id_t pagesToBlockBoundary = blockSize - (count % blockSize);
 
+        /* if we are on a block boundary, the next block is given up and written next, so it must be erased */
+        if (pagesToBlockBoundary == blockSize) {
+            int8_t eraseSuccess = state->fileInterface->erase(count, count + blockSize, state->pageSize, state->varFile);
+            forgetBufferedPages(&state->bufferedVarPage, count, count + blockSize);
+            if (!eraseSuccess) {
+#ifdef PRINT_ERRORS
+                printf("Error: Unable to erase variable data page during recovery!\n");
+#endif
+                return -1;
+            }
+        }
+
         /* go to the next block boundary */
         physicalVariablePageId = (physicalVariablePageId + pagesToBlockBoundary) % state->numVarPages;
         moreToRead = !(readVariablePage(state, physicalVariablePageId));
-- 
2.43.0


From 5da0ef20a7e1eef688d2b4fe5614fca24afa488a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:24 +0000
Subject: [PATCH 32/49] fix: index recovery did not find the smallest page on
 storage that is really erased, and accepted erased pages

---
 lib/Distribution/embedDB.c | 41 +++++++++++++++++++++++++++++++-------
 src/embedDB/embedDB.c      | 41 +++++++++++++++++++++++++++++++-------
 2 files changed, 68 insertions(+), 14 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 6ea1d45..9d4497a 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1196,29 +1196,56 @@ int8_t embedDBInitIndexFromFile(embedDBState *state) {
     int8_t moreToRead = !(readIndexPage(state, physicalIndexPageId));
 
     bool haveWrappedInMemory = false;
-    int count = 0;
+    bool hasData = false;
+    id_t count = 0;
+    id_t physicalPageIDOfSmallestData = 0;
     void *buffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_INDEX_READ_BUFFER;
 
+    /* The first block may have been erased to make room for the next page, so the first page may be in the second block */
+    for (uint32_t i = 0; moreToRead && !hasData && i < 2; i++) {
+        memcpy(&logicalIndexPageId, buffer, sizeof(id_t));
+        count_t numRecords = EMBEDDB_GET_COUNT(buffer);
+        if (logicalIndexPageId % state->numIndexPages == count && numRecords > 0 && numRecords <= state->maxIdxRecordsPerPage) {
+            hasData = true;
+            maxLogicaIndexPageId = logicalIndexPageId;
+            physicalPageIDOfSmallestData = physicalIndexPageId;
+            physicalIndexPageId++;
+            count++;
+        } else {
+            physicalIndexPageId += state->eraseSizeInPages;
+            count += state->eraseSizeInPages;
+        }
+        moreToRead = !(readIndexPage(state, physicalIndexPageId));
+    }
+
+    if (!hasData)
+        return 0;
+
     while (moreToRead && count < state->numIndexPages) {
         memcpy(&logicalIndexPageId, buffer, sizeof(id_t));
-        if (count == 0 || logicalIndexPageId == maxLogicaIndexPageId + 1) {
+        if (logicalIndexPageId == maxLogicaIndexPageId + 1) {
             maxLogicaIndexPageId = logicalIndexPageId;
             physicalIndexPageId++;
             moreToRead = !(readIndexPage(state, physicalIndexPageId));
             count++;
         } else {
-            haveWrappedInMemory = logicalIndexPageId == maxLogicaIndexPageId - state->numIndexPages + 1;
+            haveWrappedInMemory = maxLogicaIndexPageId >= state->numIndexPages && logicalIndexPageId == maxLogicaIndexPageId - state->numIndexPages + 1;
             break;
         }
     }
 
-    if (count == 0)
-        return 0;
-
     state->nextIdxPageId = maxLogicaIndexPageId + 1;
-    id_t physicalPageIDOfSmallestData = 0;
     if (haveWrappedInMemory) {
         physicalPageIDOfSmallestData = logicalIndexPageId % state->numIndexPages;
+    } else if (moreToRead && count < state->numIndexPages) {
+        /* The rest of the block has been erased. If the pages have wrapped, the smallest page is at the start of the next block. */
+        physicalIndexPageId = (count + state->eraseSizeInPages - count % state->eraseSizeInPages) % state->numIndexPages;
+        if (readIndexPage(state, physicalIndexPageId) == 0) {
+            memcpy(&logicalIndexPageId, buffer, sizeof(id_t));
+            if (logicalIndexPageId % state->numIndexPages == physicalIndexPageId && logicalIndexPageId < maxLogicaIndexPageId) {
+                physicalPageIDOfSmallestData = physicalIndexPageId;
+            }
+        }
     }
     if (readIndexPage(state, physicalPageIDOfSmallestData) != 0) {
 #ifdef PRINT_ERRORS
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index c49faaf..d57806c 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -766,29 +766,56 @@ int8_t embedDBInitIndexFromFile(embedDBState *state) {
     int8_t moreToRead = !(readIndexPage(state, physicalIndexPageId));
 
     bool haveWrappedInMemory = false;
-    int count = 0;
+    bool hasData = false;
+    id_t count = 0;
+    id_t physicalPageIDOfSmallestData = 0;
     void *buffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_INDEX_READ_BUFFER;
 
+    /* The first block may have been erased to make room for the next page, so the first page may be in the second block */
+    for (uint32_t i = 0; moreToRead && !hasData && i < 2; i++) {
+        memcpy(&logicalIndexPageId, buffer, sizeof(id_t));
+        count_t numRecords = EMBEDDB_GET_COUNT(buffer);
+        if (logicalIndexPageId % state->numIndexPages == count && numRecords > 0 && numRecords <= state->maxIdxRecordsPerPage) {
+            hasData = true;
+            maxLogicaIndexPageId = logicalIndexPageId;
+            physicalPageIDOfSmallestData = physicalIndexPageId;
+            physicalIndexPageId++;
+            count++;
+        } else {
+            physicalIndexPageId += state->eraseSizeInPages;
+            count += state->eraseSizeInPages;
+        }
+        moreToRead = !(readIndexPage(state, physicalIndexPageId));
+    }
+
+    if (!hasData)
+        return 0;
+
     while (moreToRead && count < state->numIndexPages) {
         memcpy(&logicalIndexPageId, buffer, sizeof(id_t));
-        if (count == 0 || logicalIndexPageId == maxLogicaIndexPageId + 1) {
+        if (logicalIndexPageId == maxLogicaIndexPageId + 1) {
             maxLogicaIndexPageId = logicalIndexPageId;
             physicalIndexPageId++;
             moreToRead = !(readIndexPage(state, physicalIndexPageId));
             count++;
         } else {
-            haveWrappedInMemory = logicalIndexPageId == maxLogicaIndexPageId - state->numIndexPages + 1;
+            haveWrappedInMemory = maxLogicaIndexPageId >= state->numIndexPages && logicalIndexPageId == maxLogicaIndexPageId - state->numIndexPages + 1;
             break;
         }
     }
 
-    if (count == 0)
-        return 0;
-
     state->nextIdxPageId = maxLogicaIndexPageId + 1;
-    id_t physicalPageIDOfSmallestData = 0;
     if (haveWrappedInMemory) {
         physicalPageIDOfSmallestData = logicalIndexPageId % state->numIndexPages;
+    } else if (moreToRead && count < state->numIndexPages) {
+        /* The rest of the block has been erased. If the pages have wrapped, the smallest page is at the start of the next block. */
+        physicalIndexPageId = (count + state->eraseSizeInPages - count % state->eraseSizeInPages) % state->numIndexPages;
+        if (readIndexPage(state, physicalIndexPageId) == 0) {
+            memcpy(&logicalIndexPageId, buffer, sizeof(id_t));
+            if (logicalIndexPageId % state->numIndexPages == physicalIndexPageId && logicalIndexPageId < maxLogicaIndexPageId) {
+                physicalPageIDOfSmallestData = physicalIndexPageId;
+            }
+        }
     }
     if (readIndexPage(state, physicalPageIDOfSmallestData) != 0) {
 #ifdef PRINT_ERRORS
-- 
2.43.0


From 83871a916ead27a03f3c94e31ea3224d5d898e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:18 +0000
Subject: [PATCH 33/49] fix: first valid variable data page in recovery is
 given by its page number

---
 lib/Distribution/embedDB.c | 7 ++++---
 src/embedDB/embedDB.c      | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 9d4497a..e66f8f7 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1304,6 +1304,7 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
     count_t blockSize = state->eraseSizeInPages;
     bool validData = false;
     bool hasData = false;
+    bool skippedBlock = false;
     void *buffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_READ_BUFFER(state->parameters);
 
     /* This will equal 0 if there are no pages to read */
@@ -1327,8 +1328,8 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
                 hasData = true;
                 maxLogicalVariablePageId = logicalVariablePageId;
                 /* A page with id 0 before this one is only valid if nothing has been overwritten yet */
-                if (logicalVariablePageId != count)
-                    firstPhysicalPageId = physicalVariablePageId;
+                if (skippedBlock || logicalVariablePageId != count)
+                    firstPhysicalPageId = logicalVariablePageId % state->numVarPages;
             }
             physicalVariablePageId++;
             count++;
@@ -1336,7 +1337,7 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
             id_t pagesToBlockBoundary = blockSize - (count % blockSize);
             physicalVariablePageId += pagesToBlockBoundary;
             count += pagesToBlockBoundary;
-            firstPhysicalPageId = physicalVariablePageId;
+            skippedBlock = true;
             i++;
         }
         moreToRead = !(readVariablePage(state, physicalVariablePageId));
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index d57806c..842d156 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -874,6 +874,7 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
     count_t blockSize = state->eraseSizeInPages;
     bool validData = false;
     bool hasData = false;
+    bool skippedBlock = false;
     void *buffer = (int8_t *)state->buffer + state->pageSize * EMBEDDB_VAR_READ_BUFFER(state->parameters);
 
     /* This will equal 0 if there are no pages to read */
@@ -897,8 +898,8 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
                 hasData = true;
                 maxLogicalVariablePageId = logicalVariablePageId;
                 /* A page with id 0 before this one is only valid if nothing has been overwritten yet */
-                if (logicalVariablePageId != count)
-                    firstPhysicalPageId = physicalVariablePageId;
+                if (skippedBlock || logicalVariablePageId != count)
+                    firstPhysicalPageId = logicalVariablePageId % state->numVarPages;
             }
             physicalVariablePageId++;
             count++;
@@ -906,7 +907,7 @@ int8_t embedDBInitVarDataFromFile(embedDBState *state) {
             id_t pagesToBlockBoundary = blockSize - (count % blockSize);
             physicalVariablePageId += pagesToBlockBoundary;
             count += pagesToBlockBoundary;
-            firstPhysicalPageId = physicalVariablePageId;
+            skippedBlock = true;
             i++;
         }
         moreToRead = !(readVariablePage(state, physicalVariablePageId));
-- 
2.43.0


From 52123aed8a1b06e5f7af86667aa2fcf47fec1446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:42 +0000
Subject: [PATCH 34/49] fix: an index page must hold at least one bitmap

---
 lib/Distribution/embedDB.c | 7 +++++++
 src/embedDB/embedDB.c      | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index e66f8f7..607212b 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1133,6 +1133,13 @@ int8_t embedDBInitSplineFromFile(embedDBState *state) {
 int8_t embedDBInitIndex(embedDBState *state) {
     /* Setup index file. */
 
+    if (state->pageSize < 16 + state->bitmapSize) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: The page size must fit at least one bitmap on every index page\n");
+#endif
+        return -1;
+    }
+
     /* 4 for id, 2 for count, 2 unused, 4 for minKey (pageId), 4 for maxKey (pageId) */
     state->maxIdxRecordsPerPage = (state->pageSize - 16) / state->bitmapSize;
 
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 842d156..72977e3 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -703,6 +703,13 @@ int8_t embedDBInitSplineFromFile(embedDBState *state) {
 int8_t embedDBInitIndex(embedDBState *state) {
     /* Setup index file. */
 
+    if (state->pageSize < 16 + state->bitmapSize) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: The page size must fit at least one bitmap on every index page\n");
+#endif
+        return -1;
+    }
+
     /* 4 for id, 2 for count, 2 unused, 4 for minKey (pageId), 4 for maxKey (pageId) */
     state->maxIdxRecordsPerPage = (state->pageSize - 16) / state->bitmapSize;
 
-- 
2.43.0


From eced38bd22ef27a5c46253b1a43ef3c74b0a324c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:53 +0000
Subject: [PATCH 35/49] fix: initialising a selection used the schema although
 it could not be allocated

---
 lib/Distribution/embedDB.c            | 6 ++++++
 src/query-interface/advancedQueries.c | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 607212b..2bd5dc2 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -3629,6 +3629,12 @@ void initSelection(embedDBOperator *op) {
     // Init output schema
     if (op->schema == NULL) {
         op->schema = copySchema(op->input->schema);
+        if (op->schema == NULL) {
+#ifdef PRINT_ERRORS
+            printf("ERROR: Failed to allocate space for selection schema\n");
+#endif
+            return;
+        }
     }
 
     // Init output buffer
diff --git a/src/query-interface/advancedQueries.c b/src/query-interface/advancedQueries.c
index 706d6e7..9195fbd 100644
--- a/src/query-interface/advancedQueries.c
+++ b/src/query-interface/advancedQueries.c
@@ -380,6 +380,12 @@ void initSelection(embedDBOperator* op) {
     // Init output schema
     if (op->schema == NULL) {
         op->schema = copySchema(op->input->schema);
+        if (op->schema == NULL) {
+#ifdef PRINT_ERRORS
+            printf("ERROR: Failed to allocate space for selection schema\n");
+#endif
+            return;
+        }
     }
 
     // Init output buffer
-- 
2.43.0


From bda0042f680c4abf1f9306d28e196c5bae061daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:00 +0000
Subject: [PATCH 36/49] fix: a join of tables with more than 255 columns wrote
 behind its schema

---
 lib/Distribution/embedDB.c            | 8 ++++++++
 src/query-interface/advancedQueries.c | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 2bd5dc2..5476c4a 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -3934,6 +3934,14 @@ void initKeyJoin(embedDBOperator *op) {
         return;
     }
 
+    // Check that the number of columns fits the output schema
+    if (schema1->numCols + schema2->numCols > UINT8_MAX) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: The two tables have too many columns to join.\n");
+#endif
+        return;
+    }
+
     // Setup schema
     if (op->schema == NULL) {
         op->schema = malloc(sizeof(embedDBSchema));
diff --git a/src/query-interface/advancedQueries.c b/src/query-interface/advancedQueries.c
index 9195fbd..6445a26 100644
--- a/src/query-interface/advancedQueries.c
+++ b/src/query-interface/advancedQueries.c
@@ -685,6 +685,14 @@ void initKeyJoin(embedDBOperator* op) {
         return;
     }
 
+    // Check that the number of columns fits the output schema
+    if (schema1->numCols + schema2->numCols > UINT8_MAX) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: The two tables have too many columns to join.\n");
+#endif
+        return;
+    }
+
     // Setup schema
     if (op->schema == NULL) {
         op->schema = malloc(sizeof(embedDBSchema));
-- 
2.43.0


From 6337e1cde556fecca4e840391262015e76b083a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:20 +0000
Subject: [PATCH 37/49] fix: desktop files were read and written at a wrong
 place when the seek failed or the offset exceeded 32 bits

---
 lib/Desktop-File-Interface/desktopFileInterface.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/Desktop-File-Interface/desktopFileInterface.c b/lib/Desktop-File-Interface/desktopFileInterface.c
index 47c0812..8971d16 100644
--- a/lib/Desktop-File-Interface/desktopFileInterface.c
+++ b/lib/Desktop-File-Interface/desktopFileInterface.c
@@ -24,13 +24,15 @@ void tearDownFile(void *file) {
 
 int8_t FILE_READ(void *buffer, uint32_t pageNum, uint32_t pageSize, void *file) {
     FILE_INFO *fileInfo = (FILE_INFO *)file;
-    fseek(fileInfo->file, pageSize * pageNum, SEEK_SET);
+    if (fseek(fileInfo->file, (long)pageSize * pageNum, SEEK_SET) != 0)
+        return 0;
     return fread(buffer, pageSize, 1, fileInfo->file);
 }
 
 int8_t FILE_WRITE(void *buffer, uint32_t pageNum, uint32_t pageSize, void *file) {
     FILE_INFO *fileInfo = (FILE_INFO *)file;
-    fseek(fileInfo->file, pageNum * pageSize, SEEK_SET);
+    if (fseek(fileInfo->file, (long)pageNum * pageSize, SEEK_SET) != 0)
+        return 0;
     return fwrite(buffer, pageSize, 1, fileInfo->file);
 }
 
-- 
2.43.0


From 928cbbc75ae258eddb5e29c8603020f4e4824e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:58 +0000
Subject: [PATCH 38/49] fix: the erase of the desktop mock interface reported
 success when seeking or allocating failed

---
 lib/Desktop-File-Interface/desktopFileInterface.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/Desktop-File-Interface/desktopFileInterface.c b/lib/Desktop-File-Interface/desktopFileInterface.c
index 8971d16..5787cf5 100644
--- a/lib/Desktop-File-Interface/desktopFileInterface.c
+++ b/lib/Desktop-File-Interface/desktopFileInterface.c
@@ -43,18 +43,24 @@ int8_t FILE_ERASE(uint32_t startPage, uint32_t endPage, uint32_t pageSize, void
 int8_t MOCK_FILE_ERASE(uint32_t startPage, uint32_t endPage, uint32_t pageSize, void *file) {
     /* Seek to position in file */
     FILE_INFO *fileInfo = (FILE_INFO *)file;
-    int seekResult = fseek(fileInfo->file, startPage * pageSize, SEEK_SET);
+    int seekResult = fseek(fileInfo->file, (long)startPage * pageSize, SEEK_SET);
 
     if (seekResult != 0) {
 #ifdef PRINT_ERRORS
         printf("Error seeking in file.\n");
 #endif
-        return seekResult;
+        return 0;
     }
 
     /* Setup data to insert */
-    size_t memorySize = (endPage - startPage) * pageSize;
+    size_t memorySize = (size_t)(endPage - startPage) * pageSize;
     char *buffer = malloc(memorySize);
+    if (buffer == NULL) {
+#ifdef PRINT_ERRORS
+        printf("Error allocating memory to erase.\n");
+#endif
+        return 0;
+    }
     memset(buffer, 1, memorySize);
 
     /* Erase data */
-- 
2.43.0


From 74a2432b536ff801591c9d060abf08b4a2c52b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:07 +0000
Subject: [PATCH 39/49] fix: failed memory allocations in the file interfaces
 were not handled

---
 lib/Dataflash-File-Interface/dataflashFileInterface.c |  4 ++++
 lib/Desktop-File-Interface/desktopFileInterface.c     | 10 ++++++++++
 lib/SD-File-Interface/SDFileInterface.c               |  8 ++++++++
 3 files changed, 22 insertions(+)

diff --git a/lib/Dataflash-File-Interface/dataflashFileInterface.c b/lib/Dataflash-File-Interface/dataflashFileInterface.c
index 3e8e913..445a601 100644
--- a/lib/Dataflash-File-Interface/dataflashFileInterface.c
+++ b/lib/Dataflash-File-Interface/dataflashFileInterface.c
@@ -45,6 +45,8 @@ typedef struct {
 
 void *setupDataflashFile(uint32_t startPage, uint32_t numPages) {
     DF_FILE_INFO *fileInfo = malloc(sizeof(DF_FILE_INFO));
+    if (fileInfo == NULL)
+        return NULL;
     fileInfo->startPage = startPage;
     fileInfo->numPages = numPages;
     return fileInfo;
@@ -102,6 +104,8 @@ int8_t DF_FLUSH(void *file) {
 
 embedDBFileInterface *getDataflashInterface() {
     embedDBFileInterface *fileInterface = malloc(sizeof(embedDBFileInterface));
+    if (fileInterface == NULL)
+        return NULL;
     fileInterface->close = DF_CLOSE;
     fileInterface->read = DF_READ;
     fileInterface->write = DF_WRITE;
diff --git a/lib/Desktop-File-Interface/desktopFileInterface.c b/lib/Desktop-File-Interface/desktopFileInterface.c
index 5787cf5..0530153 100644
--- a/lib/Desktop-File-Interface/desktopFileInterface.c
+++ b/lib/Desktop-File-Interface/desktopFileInterface.c
@@ -7,8 +7,14 @@ typedef struct {
 
 void *setupFile(char *filename) {
     FILE_INFO *fileInfo = malloc(sizeof(FILE_INFO));
+    if (fileInfo == NULL)
+        return NULL;
     int nameLen = strlen(filename);
     fileInfo->filename = calloc(1, nameLen + 1);
+    if (fileInfo->filename == NULL) {
+        free(fileInfo);
+        return NULL;
+    }
     memcpy(fileInfo->filename, filename, nameLen);
     fileInfo->file = NULL;
     return fileInfo;
@@ -101,6 +107,8 @@ int8_t FILE_OPEN(void *file, uint8_t mode) {
 
 embedDBFileInterface *getFileInterface() {
     embedDBFileInterface *fileInterface = malloc(sizeof(embedDBFileInterface));
+    if (fileInterface == NULL)
+        return NULL;
     fileInterface->close = FILE_CLOSE;
     fileInterface->read = FILE_READ;
     fileInterface->write = FILE_WRITE;
@@ -112,6 +120,8 @@ embedDBFileInterface *getFileInterface() {
 
 embedDBFileInterface *getMockEraseFileInterface() {
     embedDBFileInterface *fileInterface = malloc(sizeof(embedDBFileInterface));
+    if (fileInterface == NULL)
+        return NULL;
     fileInterface->close = FILE_CLOSE;
     fileInterface->read = FILE_READ;
     fileInterface->write = FILE_WRITE;
diff --git a/lib/SD-File-Interface/SDFileInterface.c b/lib/SD-File-Interface/SDFileInterface.c
index 58da460..faeb9e9 100644
--- a/lib/SD-File-Interface/SDFileInterface.c
+++ b/lib/SD-File-Interface/SDFileInterface.c
@@ -42,8 +42,14 @@ typedef struct {
 
 void *setupSDFile(char *filename) {
     SD_FILE_INFO *fileInfo = malloc(sizeof(SD_FILE_INFO));
+    if (fileInfo == NULL)
+        return NULL;
     int nameLen = strlen(filename);
     fileInfo->filename = calloc(1, nameLen + 1);
+    if (fileInfo->filename == NULL) {
+        free(fileInfo);
+        return NULL;
+    }
     memcpy(fileInfo->filename, filename, nameLen);
     fileInfo->sdFile = NULL;
     return fileInfo;
@@ -128,6 +134,8 @@ int8_t FILE_OPEN(void *file, uint8_t mode) {
 
 embedDBFileInterface *getSDInterface() {
     embedDBFileInterface *fileInterface = malloc(sizeof(embedDBFileInterface));
+    if (fileInterface == NULL)
+        return NULL;
     fileInterface->close = FILE_CLOSE;
     fileInterface->read = FILE_READ;
     fileInterface->write = FILE_WRITE;
-- 
2.43.0


From 1db1217fedb64c54e06f2174c82ba408f958acf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:16 +0000
Subject: [PATCH 40/49] fix: the SD card interface reported failed reads and
 writes as success

---
 lib/SD-File-Interface/SDFileInterface.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lib/SD-File-Interface/SDFileInterface.c b/lib/SD-File-Interface/SDFileInterface.c
index faeb9e9..dbd10ce 100644
--- a/lib/SD-File-Interface/SDFileInterface.c
+++ b/lib/SD-File-Interface/SDFileInterface.c
@@ -65,7 +65,8 @@ void tearDownSDFile(void *file) {
 
 int8_t FILE_READ(void *buffer, uint32_t pageNum, uint32_t pageSize, void *file) {
     SD_FILE_INFO *fileInfo = (SD_FILE_INFO *)file;
-    sd_fseek(fileInfo->sdFile, pageSize * pageNum, SEEK_SET);
+    if (sd_fseek(fileInfo->sdFile, pageSize * pageNum, SEEK_SET) != 0)
+        return 0;
     return sd_fread(buffer, pageSize, 1, fileInfo->sdFile);
 }
 
@@ -76,7 +77,7 @@ int8_t FILE_WRITE(void *buffer, uint32_t pageNum, uint32_t pageSize, void *file)
     if (fileSize < pageNum * pageSize) {
         int8_t seekSuccess = sd_fseek(fileInfo->sdFile, fileSize, SEEK_SET);
         if (seekSuccess == -1) {
-            return -1;
+            return 0;
         }
         size_t currentSize = fileSize;
         uint32_t max = UINT32_MAX;
@@ -84,16 +85,16 @@ int8_t FILE_WRITE(void *buffer, uint32_t pageNum, uint32_t pageSize, void *file)
         while (currentSize < requiredSize) {
             writeSuccess = sd_fwrite(&max, sizeof(uint32_t), 1, fileInfo->sdFile);
             if (writeSuccess == 0)
-                return -1;
+                return 0;
             currentSize += 4;
         }
     }
     int8_t seekSuccess = sd_fseek(fileInfo->sdFile, pageNum * pageSize, SEEK_SET);
     if (seekSuccess == -1) {
-        return -1;
+        return 0;
     }
     int8_t writeSuccess = sd_fwrite(buffer, pageSize, 1, fileInfo->sdFile) == pageSize;
-    if (seekSuccess == -1)
+    if (!writeSuccess)
         return 0;
     return 1;
 }
-- 
2.43.0


From a60f1d5e83df8e932fe754a1bca86a29650cfdf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:40 +0000
Subject: [PATCH 41/49] fix: iterating with bitmaps but without an index
 divided by an uninitialised value

---
 lib/Distribution/embedDB.c | 6 +++---
 src/embedDB/embedDB.c      | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 5476c4a..1b189bb 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2417,12 +2417,12 @@ int8_t embedDBNext(embedDBState *state, embedDBIterator *it, void *key, void *da
             searchWriteBuf = 1;
         }
 
-        // If we are just starting to read a new page and we have a query bitmap
-        if (it->nextDataRec == 0 && it->queryBitmap != NULL) {
+        // If we are just starting to read a new page and we have a query bitmap and an index
+        if (it->nextDataRec == 0 && it->queryBitmap != NULL && state->indexFile != NULL) {
             // Find what index page determines if we should read the data page
             uint32_t indexPage = it->nextDataPage / state->maxIdxRecordsPerPage;
 
-            if (state->indexFile != NULL && indexPage >= state->minIndexPageId && indexPage < state->nextIdxPageId) {
+            if (indexPage >= state->minIndexPageId && indexPage < state->nextIdxPageId) {
                 // If the index page that contains this data page exists, else we must read the data page regardless cause we don't have the index saved for it
 
                 if (readIndexPage(state, indexPage % state->numIndexPages) != 0) {
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index 72977e3..c73e542 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1987,12 +1987,12 @@ int8_t embedDBNext(embedDBState *state, embedDBIterator *it, void *key, void *da
             searchWriteBuf = 1;
         }
 
-        // If we are just starting to read a new page and we have a query bitmap
-        if (it->nextDataRec == 0 && it->queryBitmap != NULL) {
+        // If we are just starting to read a new page and we have a query bitmap and an index
+        if (it->nextDataRec == 0 && it->queryBitmap != NULL && state->indexFile != NULL) {
             // Find what index page determines if we should read the data page
             uint32_t indexPage = it->nextDataPage / state->maxIdxRecordsPerPage;
 
-            if (state->indexFile != NULL && indexPage >= state->minIndexPageId && indexPage < state->nextIdxPageId) {
+            if (indexPage >= state->minIndexPageId && indexPage < state->nextIdxPageId) {
                 // If the index page that contains this data page exists, else we must read the data page regardless cause we don't have the index saved for it
 
                 if (readIndexPage(state, indexPage % state->numIndexPages) != 0) {
-- 
2.43.0


From cffb12ec60225e3a39db1ee7ac9f2738d76fc21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:47 +0000
Subject: [PATCH 42/49] fix: flushing variable data of a database without
 variable data used uninitialised values

---
 lib/Distribution/embedDB.c | 5 +++++
 src/embedDB/embedDB.c      | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 1b189bb..6f15600 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2284,6 +2284,11 @@ void embedDBCloseIterator(embedDBIterator *it) {
  * @returns 0 if successul and a non-zero value otherwise
  */
 int8_t embedDBFlushVar(embedDBState *state) {
+    /* Without variable data there is nothing to flush */
+    if (!EMBEDDB_USING_VDATA(state->parameters)) {
+        return 0;
+    }
+
     /* Check if we actually have any variable data in the buffer */
     if (state->currentVarLoc % state->pageSize == state->variableDataHeaderSize) {
         return 0;
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index c73e542..a146bd2 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1854,6 +1854,11 @@ void embedDBCloseIterator(embedDBIterator *it) {
  * @returns 0 if successul and a non-zero value otherwise
  */
 int8_t embedDBFlushVar(embedDBState *state) {
+    /* Without variable data there is nothing to flush */
+    if (!EMBEDDB_USING_VDATA(state->parameters)) {
+        return 0;
+    }
+
     /* Check if we actually have any variable data in the buffer */
     if (state->currentVarLoc % state->pageSize == state->variableDataHeaderSize) {
         return 0;
-- 
2.43.0


From e8c7b21290ee9601f82b70df027fac8852ad5706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:10 +0000
Subject: [PATCH 43/49] fix: int32Comparator and int64Comparator overflowed
 when the values are far apart

---
 lib/Distribution/embedDB.c           | 15 +++++++++------
 lib/EmbedDB-Utility/embedDBUtility.c | 15 +++++++++------
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 6f15600..3d0d62a 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -4705,19 +4705,22 @@ int8_t int32Comparator(void *a, void *b) {
     int32_t i1, i2;
     memcpy(&i1, a, sizeof(int32_t));
     memcpy(&i2, b, sizeof(int32_t));
-    int32_t result = i1 - i2;
-    if (result < 0)
+    /* Compare instead of subtracting, the difference may not fit */
+    if (i1 < i2)
         return -1;
-    if (result > 0)
+    if (i1 > i2)
         return 1;
     return 0;
 }
 
 int8_t int64Comparator(void *a, void *b) {
-    int64_t result = *((int64_t *)a) - *((int64_t *)b);
-    if (result < 0)
+    int64_t i1, i2;
+    memcpy(&i1, a, sizeof(int64_t));
+    memcpy(&i2, b, sizeof(int64_t));
+    /* Compare instead of subtracting, the difference may not fit */
+    if (i1 < i2)
         return -1;
-    if (result > 0)
+    if (i1 > i2)
         return 1;
     return 0;
 }
diff --git a/lib/EmbedDB-Utility/embedDBUtility.c b/lib/EmbedDB-Utility/embedDBUtility.c
index e633364..e26aa24 100644
--- a/lib/EmbedDB-Utility/embedDBUtility.c
+++ b/lib/EmbedDB-Utility/embedDBUtility.c
@@ -236,19 +236,22 @@ int8_t int32Comparator(void *a, void *b) {
     int32_t i1, i2;
     memcpy(&i1, a, sizeof(int32_t));
     memcpy(&i2, b, sizeof(int32_t));
-    int32_t result = i1 - i2;
-    if (result < 0)
+    /* Compare instead of subtracting, the difference may not fit */
+    if (i1 < i2)
         return -1;
-    if (result > 0)
+    if (i1 > i2)
         return 1;
     return 0;
 }
 
 int8_t int64Comparator(void *a, void *b) {
-    int64_t result = *((int64_t *)a) - *((int64_t *)b);
-    if (result < 0)
+    int64_t i1, i2;
+    memcpy(&i1, a, sizeof(int64_t));
+    memcpy(&i2, b, sizeof(int64_t));
+    /* Compare instead of subtracting, the difference may not fit */
+    if (i1 < i2)
         return -1;
-    if (result > 0)
+    if (i1 > i2)
         return 1;
     return 0;
 }
-- 
2.43.0


From 717045d3a3bf96cf7bc59c89f0a825bcf5a5b984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:44 +0000
Subject: [PATCH 44/49] fix: the 16 and 64 bit bitmap helpers missed values

---
 lib/Distribution/embedDB.c           | 52 +++++++++++++++++-----------
 lib/EmbedDB-Utility/embedDBUtility.c | 52 +++++++++++++++++-----------
 2 files changed, 62 insertions(+), 42 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 3d0d62a..054ce45 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -4582,12 +4582,11 @@ void updateBitmapInt16(void *data, void *bm) {
     int16_t minBase = 320;
     int32_t current = minBase;
     uint16_t num = 32768;
-    while (val > current) {
+    /* Always set last bit if value bigger than largest cutoff */
+    while (val > current && num > 1) {
         current += stepSize;
         num = num / 2;
     }
-    if (num == 0)
-        num = 1; /* Always set last bit if value bigger than largest cutoff */
     *bmval = *bmval | num;
 }
 
@@ -4597,8 +4596,8 @@ int8_t inBitmapInt16(void *data, void *bm) {
     uint16_t tmpbm = 0;
     updateBitmapInt16(data, &tmpbm);
 
-    // Return a number great than 1 if there is an overlap
-    return tmpbm & *bmval;
+    // Return 1 if there is an overlap (the overlap itself does not fit the result)
+    return (tmpbm & *bmval) != 0;
 }
 
 /**
@@ -4662,8 +4661,8 @@ int8_t inBitmapInt64(void *data, void *bm) {
     uint64_t tmpbm = 0;
     updateBitmapInt64(data, &tmpbm);
 
-    // Return a number great than 1 if there is an overlap
-    return tmpbm & *bmval;
+    // Return 1 if there is an overlap (the overlap itself does not fit the result)
+    return (tmpbm & *bmval) != 0;
 }
 
 /**
@@ -4678,26 +4677,37 @@ void buildBitmapInt64FromRange(void *min, void *max, void *bm) {
         *(uint64_t *)bm = UINT64_MAX; /* Everything */
         return;
     } else {
-        uint64_t minMap = 0, maxMap = 0;
+        /* The bits are in the order of the bytes in memory, starting at the most significant bit of the first byte */
+        uint8_t minMap[sizeof(uint64_t)], maxMap[sizeof(uint64_t)];
+        memset(minMap, min != NULL ? 0 : 255, sizeof(uint64_t));
+        memset(maxMap, max != NULL ? 0 : 255, sizeof(uint64_t));
         if (min != NULL) {
-            updateBitmapInt64(min, &minMap);
-            // Turn on all bits below the bit for min value (cause the lsb are for the higher values)
-            minMap = minMap | (minMap - 1);
-            if (max == NULL) {
-                *(uint64_t *)bm = minMap;
-                return;
+            updateBitmapInt64(min, minMap);
+            // Turn on all bits after the bit for min value
+            uint8_t found = 0;
+            for (uint8_t i = 0; i < sizeof(uint64_t); i++) {
+                if (found) {
+                    minMap[i] = 255;
+                } else if (minMap[i] != 0) {
+                    minMap[i] = minMap[i] | (minMap[i] - 1);
+                    found = 1;
+                }
             }
         }
         if (max != NULL) {
-            updateBitmapInt64(max, &maxMap);
-            // Turn on all bits above the bit for max value (cause the msb are for the lower values)
-            maxMap = ~(maxMap - 1);
-            if (min == NULL) {
-                *(uint64_t *)bm = maxMap;
-                return;
+            updateBitmapInt64(max, maxMap);
+            // Turn on all bits before the bit for max value
+            for (uint8_t i = 0; i < sizeof(uint64_t); i++) {
+                if (maxMap[i] != 0) {
+                    maxMap[i] = ~(maxMap[i] - 1);
+                    break;
+                }
+                maxMap[i] = 255;
             }
         }
-        *(uint64_t *)bm = minMap & maxMap;
+        for (uint8_t i = 0; i < sizeof(uint64_t); i++) {
+            ((uint8_t *)bm)[i] = minMap[i] & maxMap[i];
+        }
     }
 }
 
diff --git a/lib/EmbedDB-Utility/embedDBUtility.c b/lib/EmbedDB-Utility/embedDBUtility.c
index e26aa24..3068036 100644
--- a/lib/EmbedDB-Utility/embedDBUtility.c
+++ b/lib/EmbedDB-Utility/embedDBUtility.c
@@ -113,12 +113,11 @@ void updateBitmapInt16(void *data, void *bm) {
     int16_t minBase = 320;
     int32_t current = minBase;
     uint16_t num = 32768;
-    while (val > current) {
+    /* Always set last bit if value bigger than largest cutoff */
+    while (val > current && num > 1) {
         current += stepSize;
         num = num / 2;
     }
-    if (num == 0)
-        num = 1; /* Always set last bit if value bigger than largest cutoff */
     *bmval = *bmval | num;
 }
 
@@ -128,8 +127,8 @@ int8_t inBitmapInt16(void *data, void *bm) {
     uint16_t tmpbm = 0;
     updateBitmapInt16(data, &tmpbm);
 
-    // Return a number great than 1 if there is an overlap
-    return tmpbm & *bmval;
+    // Return 1 if there is an overlap (the overlap itself does not fit the result)
+    return (tmpbm & *bmval) != 0;
 }
 
 /**
@@ -193,8 +192,8 @@ int8_t inBitmapInt64(void *data, void *bm) {
     uint64_t tmpbm = 0;
     updateBitmapInt64(data, &tmpbm);
 
-    // Return a number great than 1 if there is an overlap
-    return tmpbm & *bmval;
+    // Return 1 if there is an overlap (the overlap itself does not fit the result)
+    return (tmpbm & *bmval) != 0;
 }
 
 /**
@@ -209,26 +208,37 @@ void buildBitmapInt64FromRange(void *min, void *max, void *bm) {
         *(uint64_t *)bm = UINT64_MAX; /* Everything */
         return;
     } else {
-        uint64_t minMap = 0, maxMap = 0;
+        /* The bits are in the order of the bytes in memory, starting at the most significant bit of the first byte */
+        uint8_t minMap[sizeof(uint64_t)], maxMap[sizeof(uint64_t)];
+        memset(minMap, min != NULL ? 0 : 255, sizeof(uint64_t));
+        memset(maxMap, max != NULL ? 0 : 255, sizeof(uint64_t));
         if (min != NULL) {
-            updateBitmapInt64(min, &minMap);
-            // Turn on all bits below the bit for min value (cause the lsb are for the higher values)
-            minMap = minMap | (minMap - 1);
-            if (max == NULL) {
-                *(uint64_t *)bm = minMap;
-                return;
+            updateBitmapInt64(min, minMap);
+            // Turn on all bits after the bit for min value
+            uint8_t found = 0;
+            for (uint8_t i = 0; i < sizeof(uint64_t); i++) {
+                if (found) {
+                    minMap[i] = 255;
+                } else if (minMap[i] != 0) {
+                    minMap[i] = minMap[i] | (minMap[i] - 1);
+                    found = 1;
+                }
             }
         }
         if (max != NULL) {
-            updateBitmapInt64(max, &maxMap);
-            // Turn on all bits above the bit for max value (cause the msb are for the lower values)
-            maxMap = ~(maxMap - 1);
-            if (min == NULL) {
-                *(uint64_t *)bm = maxMap;
-                return;
+            updateBitmapInt64(max, maxMap);
+            // Turn on all bits before the bit for max value
+            for (uint8_t i = 0; i < sizeof(uint64_t); i++) {
+                if (maxMap[i] != 0) {
+                    maxMap[i] = ~(maxMap[i] - 1);
+                    break;
+                }
+                maxMap[i] = 255;
             }
         }
-        *(uint64_t *)bm = minMap & maxMap;
+        for (uint8_t i = 0; i < sizeof(uint64_t); i++) {
+            ((uint8_t *)bm)[i] = minMap[i] & maxMap[i];
+        }
     }
 }
 
-- 
2.43.0


From 322f9b56585c63813b7226aa3da84fd8309a59b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:34 +0000
Subject: [PATCH 45/49] fix: a schema with a negative column size was accepted

---
 lib/Distribution/embedDB.c   | 2 +-
 src/query-interface/schema.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 054ce45..c53831d 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -3153,7 +3153,7 @@ embedDBSchema *embedDBCreateSchema(uint8_t numCols, int8_t *colSizes, int8_t *co
     uint16_t totalSize = 0;
     for (uint8_t i = 0; i < numCols; i++) {
         int8_t sign = colSignedness[i];
-        uint8_t colSize = colSizes[i];
+        int8_t colSize = colSizes[i];
         totalSize += colSize;
         if (colSize <= 0) {
 #ifdef PRINT_ERRORS
diff --git a/src/query-interface/schema.c b/src/query-interface/schema.c
index f0f4ea6..783b3b3 100644
--- a/src/query-interface/schema.c
+++ b/src/query-interface/schema.c
@@ -70,7 +70,7 @@ embedDBSchema* embedDBCreateSchema(uint8_t numCols, int8_t* colSizes, int8_t* co
     uint16_t totalSize = 0;
     for (uint8_t i = 0; i < numCols; i++) {
         int8_t sign = colSignedness[i];
-        uint8_t colSize = colSizes[i];
+        int8_t colSize = colSizes[i];
         totalSize += colSize;
         if (colSize <= 0) {
 #ifdef PRINT_ERRORS
-- 
2.43.0


From 80daf97da69a0295f1ac73d4c552db7d0b76932e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:00 +0000
Subject: [PATCH 46/49] fix: aggregating with more than 255 functions did not
 end

---
 lib/Distribution/embedDB.c            | 8 ++++++++
 src/query-interface/advancedQueries.c | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index c53831d..ad17206 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -3881,6 +3881,14 @@ void closeAggregate(embedDBOperator *op) {
  * @param	functionsLength			The number of embedDBAggregateFuncs in @c functions
  */
 embedDBOperator *createAggregateOperator(embedDBOperator *input, int8_t (*groupfunc)(const void *lastRecord, const void *record), embedDBAggregateFunc *functions, uint32_t functionsLength) {
+    // There is one output column for each function
+    if (functionsLength > UINT8_MAX) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: An aggregate operator can have at most 255 functions\n");
+#endif
+        return NULL;
+    }
+
     struct aggregateInfo *state = malloc(sizeof(struct aggregateInfo));
     if (state == NULL) {
 #ifdef PRINT_ERRORS
diff --git a/src/query-interface/advancedQueries.c b/src/query-interface/advancedQueries.c
index 6445a26..5eecacd 100644
--- a/src/query-interface/advancedQueries.c
+++ b/src/query-interface/advancedQueries.c
@@ -627,6 +627,14 @@ void closeAggregate(embedDBOperator* op) {
  * @param	functionsLength			The number of embedDBAggregateFuncs in @c functions
  */
 embedDBOperator* createAggregateOperator(embedDBOperator* input, int8_t (*groupfunc)(const void* lastRecord, const void* record), embedDBAggregateFunc* functions, uint32_t functionsLength) {
+    // There is one output column for each function
+    if (functionsLength > UINT8_MAX) {
+#ifdef PRINT_ERRORS
+        printf("ERROR: An aggregate operator can have at most 255 functions\n");
+#endif
+        return NULL;
+    }
+
     struct aggregateInfo* state = malloc(sizeof(struct aggregateInfo));
     if (state == NULL) {
 #ifdef PRINT_ERRORS
-- 
2.43.0


From 7147ee777af66e38313e419b6210af3b18638fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:16 +0000
Subject: [PATCH 47/49] fix: flushing left variable data unsynced when it ended
 at the end of a page

---
 lib/Distribution/embedDB.c | 7 +++++++
 src/embedDB/embedDB.c      | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index ad17206..38628b1 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2291,6 +2291,13 @@ int8_t embedDBFlushVar(embedDBState *state) {
 
     /* Check if we actually have any variable data in the buffer */
     if (state->currentVarLoc % state->pageSize == state->variableDataHeaderSize) {
+        /* Pages that were written when they became full still have to reach the storage */
+        if (state->fileInterface->flush(state->varFile) != 1) {
+#ifdef PRINT_ERRORS
+            printf("Failed to flush the variable data file during embedDBFlushVar.");
+#endif
+            return -1;
+        }
         return 0;
     }
 
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index a146bd2..c1c08c6 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1861,6 +1861,13 @@ int8_t embedDBFlushVar(embedDBState *state) {
 
     /* Check if we actually have any variable data in the buffer */
     if (state->currentVarLoc % state->pageSize == state->variableDataHeaderSize) {
+        /* Pages that were written when they became full still have to reach the storage */
+        if (state->fileInterface->flush(state->varFile) != 1) {
+#ifdef PRINT_ERRORS
+            printf("Failed to flush the variable data file during embedDBFlushVar.");
+#endif
+            return -1;
+        }
         return 0;
     }
 
-- 
2.43.0


From 04288ddbb7444bec7d941b3c211e1b30190c0af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:07 +0000
Subject: [PATCH 48/49] fix: flushing again after a flush that failed half way
 reported success without finishing it

---
 lib/Distribution/embedDB.c | 83 ++++++++++++++++++++++----------------
 src/embedDB/embedDB.c      | 83 ++++++++++++++++++++++----------------
 2 files changed, 96 insertions(+), 70 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index 38628b1..bbe76cc 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -2326,6 +2326,49 @@ int8_t embedDBFlushVar(embedDBState *state) {
     return 0;
 }
 
+/**
+ * @brief	Syncs the data file, writes the buffered index entries and syncs the index file.
+ * @param	state	algorithm state structure
+ * @returns 0 if successul and a non-zero value otherwise
+ */
+static int8_t finishFlush(embedDBState *state) {
+    if (state->fileInterface->flush(state->dataFile) != 1) {
+#ifdef PRINT_ERRORS
+        printf("Failed to flush the data file during embedDBFlush.");
+#endif
+        return -1;
+    }
+
+    if (EMBEDDB_USING_INDEX(state->parameters)) {
+        void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
+        if (EMBEDDB_GET_COUNT(buf) > 0) {
+            id_t writeResult = writeIndexPage(state, buf);
+            if (writeResult == -1) {
+#ifdef PRINT_ERRORS
+                printf("Failed to write index page during embedDBFlush.");
+#endif
+                return -1;
+            }
+
+            /* Reinitialize buffer */
+            initBufferPage(state, EMBEDDB_INDEX_WRITE_BUFFER);
+
+            /* Add page id to minimum value spot in page */
+            id_t *ptr = (id_t *)((int8_t *)buf + 8);
+            *ptr = state->nextDataPageId;
+        }
+
+        if (state->fileInterface->flush(state->indexFile) != 1) {
+#ifdef PRINT_ERRORS
+            printf("Failed to flush the index file during embedDBFlush.");
+#endif
+            return -1;
+        }
+    }
+
+    return 0;
+}
+
 /**
  * @brief	Flushes output buffer.
  * @param	state	algorithm state structure
@@ -2334,8 +2377,10 @@ int8_t embedDBFlushVar(embedDBState *state) {
 int8_t embedDBFlush(embedDBState *state) {
     // As the first buffer is the data write buffer, no address change is required
     int8_t *buffer = (int8_t *)state->buffer + EMBEDDB_DATA_WRITE_BUFFER * state->pageSize;
-    if (EMBEDDB_GET_COUNT(buffer) < 1)
-        return 0;
+    if (EMBEDDB_GET_COUNT(buffer) < 1) {
+        /* A flush that failed half way may have left pages unsynced or index entries unwritten */
+        return finishFlush(state);
+    }
 
     // Flush var data page first, the records on the data page refer to it
     if (EMBEDDB_USING_VDATA(state->parameters)) {
@@ -2376,39 +2421,7 @@ int8_t embedDBFlush(embedDBState *state) {
     /* The page is written and indexed. Reinitialize buffer */
     initBufferPage(state, EMBEDDB_DATA_WRITE_BUFFER);
 
-    if (state->fileInterface->flush(state->dataFile) != 1) {
-#ifdef PRINT_ERRORS
-        printf("Failed to flush the data file during embedDBFlush.");
-#endif
-        return -1;
-    }
-
-    if (EMBEDDB_USING_INDEX(state->parameters)) {
-        void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
-        id_t writeResult = writeIndexPage(state, buf);
-        if (writeResult == -1) {
-#ifdef PRINT_ERRORS
-            printf("Failed to write index page during embedDBFlush.");
-#endif
-            return -1;
-        }
-
-        /* Reinitialize buffer */
-        initBufferPage(state, EMBEDDB_INDEX_WRITE_BUFFER);
-
-        /* Add page id to minimum value spot in page */
-        id_t *ptr = (id_t *)((int8_t *)buf + 8);
-        *ptr = state->nextDataPageId;
-
-        if (state->fileInterface->flush(state->indexFile) != 1) {
-#ifdef PRINT_ERRORS
-            printf("Failed to flush the index file during embedDBFlush.");
-#endif
-            return -1;
-        }
-    }
-
-    return 0;
+    return finishFlush(state);
 }
 
 /**
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index c1c08c6..dbc43f0 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1896,6 +1896,49 @@ int8_t embedDBFlushVar(embedDBState *state) {
     return 0;
 }
 
+/**
+ * @brief	Syncs the data file, writes the buffered index entries and syncs the index file.
+ * @param	state	algorithm state structure
+ * @returns 0 if successul and a non-zero value otherwise
+ */
+static int8_t finishFlush(embedDBState *state) {
+    if (state->fileInterface->flush(state->dataFile) != 1) {
+#ifdef PRINT_ERRORS
+        printf("Failed to flush the data file during embedDBFlush.");
+#endif
+        return -1;
+    }
+
+    if (EMBEDDB_USING_INDEX(state->parameters)) {
+        void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
+        if (EMBEDDB_GET_COUNT(buf) > 0) {
+            id_t writeResult = writeIndexPage(state, buf);
+            if (writeResult == -1) {
+#ifdef PRINT_ERRORS
+                printf("Failed to write index page during embedDBFlush.");
+#endif
+                return -1;
+            }
+
+            /* Reinitialize buffer */
+            initBufferPage(state, EMBEDDB_INDEX_WRITE_BUFFER);
+
+            /* Add page id to minimum value spot in page */
+            id_t *ptr = (id_t *)((int8_t *)buf + 8);
+            *ptr = state->nextDataPageId;
+        }
+
+        if (state->fileInterface->flush(state->indexFile) != 1) {
+#ifdef PRINT_ERRORS
+            printf("Failed to flush the index file during embedDBFlush.");
+#endif
+            return -1;
+        }
+    }
+
+    return 0;
+}
+
 /**
  * @brief	Flushes output buffer.
  * @param	state	algorithm state structure
@@ -1904,8 +1947,10 @@ int8_t embedDBFlushVar(embedDBState *state) {
 int8_t embedDBFlush(embedDBState *state) {
     // As the first buffer is the data write buffer, no address change is required
     int8_t *buffer = (int8_t *)state->buffer + EMBEDDB_DATA_WRITE_BUFFER * state->pageSize;
-    if (EMBEDDB_GET_COUNT(buffer) < 1)
-        return 0;
+    if (EMBEDDB_GET_COUNT(buffer) < 1) {
+        /* A flush that failed half way may have left pages unsynced or index entries unwritten */
+        return finishFlush(state);
+    }
 
     // Flush var data page first, the records on the data page refer to it
     if (EMBEDDB_USING_VDATA(state->parameters)) {
@@ -1946,39 +1991,7 @@ int8_t embedDBFlush(embedDBState *state) {
     /* The page is written and indexed. Reinitialize buffer */
     initBufferPage(state, EMBEDDB_DATA_WRITE_BUFFER);
 
-    if (state->fileInterface->flush(state->dataFile) != 1) {
-#ifdef PRINT_ERRORS
-        printf("Failed to flush the data file during embedDBFlush.");
-#endif
-        return -1;
-    }
-
-    if (EMBEDDB_USING_INDEX(state->parameters)) {
-        void *buf = (int8_t *)state->buffer + state->pageSize * (EMBEDDB_INDEX_WRITE_BUFFER);
-        id_t writeResult = writeIndexPage(state, buf);
-        if (writeResult == -1) {
-#ifdef PRINT_ERRORS
-            printf("Failed to write index page during embedDBFlush.");
-#endif
-            return -1;
-        }
-
-        /* Reinitialize buffer */
-        initBufferPage(state, EMBEDDB_INDEX_WRITE_BUFFER);
-
-        /* Add page id to minimum value spot in page */
-        id_t *ptr = (id_t *)((int8_t *)buf + 8);
-        *ptr = state->nextDataPageId;
-
-        if (state->fileInterface->flush(state->indexFile) != 1) {
-#ifdef PRINT_ERRORS
-            printf("Failed to flush the index file during embedDBFlush.");
-#endif
-            return -1;
-        }
-    }
-
-    return 0;
+    return finishFlush(state);
 }
 
 /**
-- 
2.43.0


From b13fe0f08b455a17dfa88f7991822b0af682cbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:34 +0000
Subject: [PATCH 49/49] fix: keys were rejected when the comparison returned a
 positive value other than 1

---
 lib/Distribution/embedDB.c | 2 +-
 src/embedDB/embedDB.c      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Distribution/embedDB.c b/lib/Distribution/embedDB.c
index bbe76cc..850b8cb 100644
--- a/lib/Distribution/embedDB.c
+++ b/lib/Distribution/embedDB.c
@@ -1618,7 +1618,7 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
         } else {
             previousKey = (int8_t *)state->buffer + (state->recordSize * (count - 1)) + state->headerSize;
         }
-        if (state->compareKey(key, previousKey) != 1) {
+        if (state->compareKey(key, previousKey) <= 0) {
 #ifdef PRINT_ERRORS
             printf("Keys must be strictly ascending order. Insert Failed.\n");
 #endif
diff --git a/src/embedDB/embedDB.c b/src/embedDB/embedDB.c
index dbc43f0..90d3ba1 100644
--- a/src/embedDB/embedDB.c
+++ b/src/embedDB/embedDB.c
@@ -1188,7 +1188,7 @@ int8_t embedDBPut(embedDBState *state, void *key, void *data) {
         } else {
             previousKey = (int8_t *)state->buffer + (state->recordSize * (count - 1)) + state->headerSize;
         }
-        if (state->compareKey(key, previousKey) != 1) {
+        if (state->compareKey(key, previousKey) <= 0) {
 #ifdef PRINT_ERRORS
             printf("Keys must be strictly ascending order. Insert Failed.\n");
 #endif
-- 
2.43.0

