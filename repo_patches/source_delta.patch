From 4f1a6def124a8a1d02691d0e1626465b94ad7fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:08 +0000
Subject: [PATCH 001/121] fix: SimpleLRUCache.put of a present key leaves a
 stale list entry behind

---
 include/lucene++/SimpleLRUCache.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/lucene++/SimpleLRUCache.h b/include/lucene++/SimpleLRUCache.h
index 8db6707..22cb75e 100644
--- a/include/lucene++/SimpleLRUCache.h
+++ b/include/lucene++/SimpleLRUCache.h
@@ -38,6 +38,11 @@ protected:
 
 public:
     void put(const KEY& key, const VALUE& value) {
+        map_iterator find = cacheMap.find(key);
+        if (find != cacheMap.end()) {
+            // replace the existing entry
+            cacheList.erase(find->second);
+        }
         cacheList.push_front(std::make_pair(key, value));
         cacheMap[key] = cacheList.begin();
 
-- 
2.43.0


From e2ec3f742c48599f6c9ae48b3fb8317ebdab4309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:08 +0000
Subject: [PATCH 002/121] fix: SortedVIntList iterator fails once the list
 itself is released

---
 src/core/include/_SortedVIntList.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/include/_SortedVIntList.h b/src/core/include/_SortedVIntList.h
index c5318ef..6703b45 100644
--- a/src/core/include/_SortedVIntList.h
+++ b/src/core/include/_SortedVIntList.h
@@ -19,7 +19,7 @@ public:
     LUCENE_CLASS(SortedDocIdSetIterator);
 
 public:
-    SortedVIntListWeakPtr _list;
+    SortedVIntListPtr _list;
     int32_t bytePos;
     int32_t lastInt;
     int32_t doc;
-- 
2.43.0


From bc4121fd4f9032adc745a7f66d8246f9cb470379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:08 +0000
Subject: [PATCH 003/121] fix: FieldCacheRangeFilter iterators fail once their
 DocIdSet is released

---
 src/core/include/_FieldCacheRangeFilter.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/include/_FieldCacheRangeFilter.h b/src/core/include/_FieldCacheRangeFilter.h
index 22b52fd..fb38252 100644
--- a/src/core/include/_FieldCacheRangeFilter.h
+++ b/src/core/include/_FieldCacheRangeFilter.h
@@ -229,7 +229,7 @@ public:
     LUCENE_CLASS(FieldDocIdSetIteratorTermDocs);
 
 protected:
-    FieldCacheDocIdSetWeakPtr _cacheDocIdSet;
+    FieldCacheDocIdSetPtr _cacheDocIdSet;
     TermDocsPtr termDocs;
     int32_t doc;
 
@@ -249,7 +249,7 @@ public:
     LUCENE_CLASS(FieldDocIdSetIteratorIncrement);
 
 protected:
-    FieldCacheDocIdSetWeakPtr _cacheDocIdSet;
+    FieldCacheDocIdSetPtr _cacheDocIdSet;
     int32_t doc;
 
 public:
-- 
2.43.0


From 183956c8acb8fb8ab3c318d446fb8761387d65a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:43 +0000
Subject: [PATCH 004/121] fix: BitSet.clear writes one bit past the end when
 given the size

---
 src/core/util/BitSet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/util/BitSet.cpp b/src/core/util/BitSet.cpp
index 0cbe753..e0975a2 100644
--- a/src/core/util/BitSet.cpp
+++ b/src/core/util/BitSet.cpp
@@ -31,7 +31,7 @@ void BitSet::clear() {
 }
 
 void BitSet::clear(uint32_t bitIndex) {
-    if (bitIndex <= bitSet.size()) {
+    if (bitIndex < bitSet.size()) {
         bitSet.set(bitIndex, false);
     }
 }
-- 
2.43.0


From b77c636107df01ba7d452fddb5aa4cab4b90052d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:44 +0000
Subject: [PATCH 005/121] fix: merging term vectors without raw copy inverts
 the test for stored positions

---
 src/core/index/TermVectorsWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/index/TermVectorsWriter.cpp b/src/core/index/TermVectorsWriter.cpp
index 2f553f4..93578cc 100644
--- a/src/core/index/TermVectorsWriter.cpp
+++ b/src/core/index/TermVectorsWriter.cpp
@@ -65,7 +65,7 @@ void TermVectorsWriter::addAllDocVectors(Collection<TermFreqVectorPtr> vectors)
 
             if (tpVector) {
                 // May have positions & offsets
-                storePositions = (tpVector->size() > 0 && !tpVector->getTermPositions(0));
+                storePositions = (tpVector->size() > 0 && tpVector->getTermPositions(0));
                 storeOffsets = (tpVector->size() > 0 && tpVector->getOffsets(0));
                 bits = (uint8_t)((storePositions ? TermVectorsReader::STORE_POSITIONS_WITH_TERMVECTOR : 0) +
                                  (storeOffsets ? TermVectorsReader::STORE_OFFSET_WITH_TERMVECTOR : 0));
-- 
2.43.0


From a6660ccd95b9fcefcf82f84a0c53729d82e33334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:55 +0000
Subject: [PATCH 006/121] fix: doc store of a segment being imported is
 confused with the writer's own of the same name

---
 src/core/index/IndexWriter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index 8674936..00b1e10 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -841,7 +841,7 @@ bool IndexWriter::flushDocStores() {
 
         for (int32_t i = 0; i < numSegments; ++i) {
             SegmentInfoPtr si(segmentInfos->info(i));
-            if (si->getDocStoreOffset() != -1 && si->getDocStoreSegment() == docStoreSegment) {
+            if (si->dir == directory && si->getDocStoreOffset() != -1 && si->getDocStoreSegment() == docStoreSegment) {
                 si->setDocStoreIsCompoundFile(true);
             }
         }
@@ -2734,7 +2734,7 @@ void IndexWriter::setMergeDocStoreIsCompoundFile(const OneMergePtr& merge) {
         for (int32_t i = 0; i < size; ++i) {
             SegmentInfoPtr info(segmentInfos->info(i));
             String docStoreSegment(info->getDocStoreSegment());
-            if (!docStoreSegment.empty() && docStoreSegment == mergeDocStoreSegment && info->getDocStoreIsCompoundFile()) {
+            if (info->dir == directory && !docStoreSegment.empty() && docStoreSegment == mergeDocStoreSegment && info->getDocStoreIsCompoundFile()) {
                 merge->info->setDocStoreIsCompoundFile(true);
                 break;
             }
-- 
2.43.0


From dc3dbdcb143365326040dc3038d34fae306085bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:45 +0000
Subject: [PATCH 007/121] fix: addIndexes(readers) counts existing documents
 twice, so a later update deletes its own document

---
 src/core/index/IndexWriter.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index 00b1e10..5022f0f 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -1878,8 +1878,9 @@ void IndexWriter::addIndexes(Collection<IndexReaderPtr> readers) {
                     segmentInfos->add(info);
                 }
 
-                // Notify DocumentsWriter that the flushed count just increased
-                docWriter->updateFlushedDocCount(docCount);
+                // Notify DocumentsWriter that the flushed count just increased (the existing segment has
+                // already been counted)
+                docWriter->updateFlushedDocCount(docCount - (sReader ? sReader->maxDoc() : 0));
 
                 success = true;
             } catch (LuceneException& e) {
-- 
2.43.0


From 1c23a88de4278d0de4195737897dd85686b68e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:20 +0000
Subject: [PATCH 008/121] fix: files of a segment name reused after a crash are
 never cleaned up

---
 src/core/index/IndexFileDeleter.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/core/index/IndexFileDeleter.cpp b/src/core/index/IndexFileDeleter.cpp
index cb30e2f..68de61d 100644
--- a/src/core/index/IndexFileDeleter.cpp
+++ b/src/core/index/IndexFileDeleter.cpp
@@ -115,13 +115,19 @@ IndexFileDeleter::IndexFileDeleter(const DirectoryPtr& directory, const IndexDel
     std::sort(commits.begin(), commits.end(), luceneCompare<IndexCommitPtr>());
 
     // Now delete anything with ref count at 0.  These are presumably abandoned files eg due to crash of IndexWriter.
+    // Their ref counts must go too: a segment name can be reused after a crash, and its files then have to be seen as new.
+    HashSet<String> unreferenced(HashSet<String>::newInstance());
     for (MapStringRefCount::iterator entry = refCounts.begin(); entry != refCounts.end(); ++entry) {
         if (entry->second->count == 0) {
-            if (infoStream) {
-                message(L"init: removing unreferenced file \"" + entry->first + L"\"");
-            }
-            deleteFile(entry->first);
+            unreferenced.add(entry->first);
+        }
+    }
+    for (HashSet<String>::iterator fileName = unreferenced.begin(); fileName != unreferenced.end(); ++fileName) {
+        if (infoStream) {
+            message(L"init: removing unreferenced file \"" + *fileName + L"\"");
         }
+        refCounts.remove(*fileName);
+        deleteFile(*fileName);
     }
 
     // Finally, give policy a chance to remove things on startup
-- 
2.43.0


From 584baae53fb3a8f513b9066cb938344bdd2fba61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:40 +0000
Subject: [PATCH 009/121] fix: a damaged commit record crashes the process
 instead of being rejected

---
 src/core/index/SegmentInfo.cpp | 3 +++
 src/core/store/IndexInput.cpp  | 9 +++++++++
 2 files changed, 12 insertions(+)

diff --git a/src/core/index/SegmentInfo.cpp b/src/core/index/SegmentInfo.cpp
index ed8deb3..403f6d2 100644
--- a/src/core/index/SegmentInfo.cpp
+++ b/src/core/index/SegmentInfo.cpp
@@ -101,6 +101,9 @@ SegmentInfo::SegmentInfo(const DirectoryPtr& dir, int32_t format, const IndexInp
         }
         int32_t numNormGen = input->readInt();
         if (numNormGen != NO) {
+            if (numNormGen < 0 || numNormGen > (input->length() - input->getFilePointer()) / 8) {
+                boost::throw_exception(CorruptIndexException(L"invalid norm generation count: " + StringUtils::toString(numNormGen)));
+            }
             normGen = Collection<int64_t>::newInstance(numNormGen);
             for (int32_t j = 0; j < numNormGen; ++j) {
                 normGen[j] = input->readLong();
diff --git a/src/core/store/IndexInput.cpp b/src/core/store/IndexInput.cpp
index 319f316..8a5cf02 100644
--- a/src/core/store/IndexInput.cpp
+++ b/src/core/store/IndexInput.cpp
@@ -64,11 +64,19 @@ void IndexInput::setModifiedUTF8StringsMode() {
     preUTF8Strings = true;
 }
 
+static void checkStringLength(IndexInput* input, int32_t stringLength) {
+    // a character takes at least one byte: never allocate for a length that damaged data claims
+    if (stringLength < 0 || stringLength > input->length() - input->getFilePointer()) {
+        boost::throw_exception(IOException(L"Read past EOF: string of length " + StringUtils::toString(stringLength)));
+    }
+}
+
 String IndexInput::readString() {
     if (preUTF8Strings) {
         return readModifiedUTF8String();
     }
     int32_t length = readVInt();
+    checkStringLength(this, length);
     ByteArray bytes(ByteArray::newInstance(length));
     readBytes(bytes.get(), 0, length);
     return StringUtils::toUnicode(bytes.get(), length);
@@ -76,6 +84,7 @@ String IndexInput::readString() {
 
 String IndexInput::readModifiedUTF8String() {
     int32_t length = readVInt();
+    checkStringLength(this, length);
     CharArray chars(CharArray::newInstance(length));
     return String(chars.get(), readChars(chars.get(), 0, length));
 }
-- 
2.43.0


From 0307e81ff94fc349d3188fc727e50993dcbd587c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:23 +0000
Subject: [PATCH 010/121] fix: a zero-filled commit record is taken for an
 empty index

---
 src/core/index/SegmentInfos.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/index/SegmentInfos.cpp b/src/core/index/SegmentInfos.cpp
index 2593152..dccd193 100644
--- a/src/core/index/SegmentInfos.cpp
+++ b/src/core/index/SegmentInfos.cpp
@@ -150,6 +150,12 @@ void SegmentInfos::read(const DirectoryPtr& directory, const String& segmentFile
             counter = format;
         }
 
+        // Files with a generation in their name came with FORMAT_LOCKLESS: anything older in one of them is damage
+        // (eg zeros left by a crash), and those formats have no checksum to tell.
+        if (generation > 0 && format > FORMAT_LOCKLESS) {
+            boost::throw_exception(CorruptIndexException(L"Invalid format version: " + StringUtils::toString(format)));
+        }
+
         for (int32_t i = input->readInt(); i > 0; --i) { // read segmentInfos
             segmentInfos.add(newLucene<SegmentInfo>(directory, format, input));
         }
-- 
2.43.0


From e90e3030d5927c07962daad738ad2154d7d5a7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:56 +0000
Subject: [PATCH 011/121] fix: pending delete of a file that was written again
 deletes the new file

---
 src/core/index/IndexFileDeleter.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/core/index/IndexFileDeleter.cpp b/src/core/index/IndexFileDeleter.cpp
index 68de61d..a87b7eb 100644
--- a/src/core/index/IndexFileDeleter.cpp
+++ b/src/core/index/IndexFileDeleter.cpp
@@ -130,6 +130,17 @@ IndexFileDeleter::IndexFileDeleter(const DirectoryPtr& directory, const IndexDel
         deleteFile(*fileName);
     }
 
+    // Never reuse the segment name of a file that could not be deleted: its pending delete would hit the new file.
+    if (deletable) {
+        for (HashSet<String>::iterator fileName = deletable.begin(); fileName != deletable.end(); ++fileName) {
+            if (boost::starts_with(*fileName, L"_")) {
+                String::size_type end = fileName->find_first_of(L"_.", 1);
+                int64_t number = StringUtils::toLong(fileName->substr(1, end == String::npos ? end : end - 1), StringUtils::CHARACTER_MAX_RADIX);
+                segmentInfos->counter = std::max(segmentInfos->counter, (int32_t)number + 1);
+            }
+        }
+    }
+
     // Finally, give policy a chance to remove things on startup
     policy->onInit(commits);
 
@@ -231,6 +242,9 @@ void IndexFileDeleter::deletePendingFiles() {
         HashSet<String> oldDeletable(deletable);
         deletable.reset();
         for (HashSet<String>::iterator fileName = oldDeletable.begin(); fileName != oldDeletable.end(); ++fileName) {
+            if (exists(*fileName)) {
+                continue;    // a file of that name has since been written again and is in use
+            }
             if (infoStream) {
                 message(L"delete pending file " + *fileName);
             }
@@ -244,12 +258,12 @@ void IndexFileDeleter::checkpoint(const SegmentInfosPtr& segmentInfos, bool isCo
         message(L"now checkpoint \"" + segmentInfos->getCurrentSegmentFileName() + L"\" [" + StringUtils::toString(segmentInfos->size()) + L" segments; isCommit = " + StringUtils::toString(isCommit) + L"]");
     }
 
-    // Try again now to delete any previously un-deletable files (because they were in use, on Windows)
-    deletePendingFiles();
-
     // Incref the files
     incRef(segmentInfos, isCommit);
 
+    // Try again now to delete any previously un-deletable files (because they were in use, on Windows)
+    deletePendingFiles();
+
     if (isCommit) {
         // Append to our commits list
         commits.add(newLucene<CommitPoint>(commitsToDelete, directory, segmentInfos));
-- 
2.43.0


From 6a5bca3bf4d7e84841db1a091caade70e1ddbf50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:56 +0000
Subject: [PATCH 012/121] fix: failing to sync the commit record is ignored and
 destroys the index

---
 src/core/index/SegmentInfos.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/core/index/SegmentInfos.cpp b/src/core/index/SegmentInfos.cpp
index dccd193..d574cc0 100644
--- a/src/core/index/SegmentInfos.cpp
+++ b/src/core/index/SegmentInfos.cpp
@@ -601,16 +601,20 @@ void SegmentInfos::finishCommit(const DirectoryPtr& dir) {
 
     String fileName(IndexFileNames::fileNameFromGeneration(IndexFileNames::SEGMENTS(), L"", generation));
 
-    success = false;
     try {
         dir->sync(fileName);
-        success = true;
-    } catch (...) {
+    } catch (LuceneException& e) {
+        finally = e;
     }
 
-    if (!success) {
-        dir->deleteFile(fileName);
+    if (!finally.isNull()) {
+        try {
+            dir->deleteFile(fileName);
+        } catch (...) {
+            // Suppress so we keep throwing the original exception
+        }
     }
+    finally.throwException();
 
     lastGeneration = generation;
     IndexOutputPtr genOutput;
-- 
2.43.0


From 7ffb4392ddd81b293b6528906b3cc58e4455646c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:55 +0000
Subject: [PATCH 013/121] fix: reader keeps the write lock for ever when its
 staleness check fails

---
 src/core/index/DirectoryReader.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/core/index/DirectoryReader.cpp b/src/core/index/DirectoryReader.cpp
index 8704c32..11a9dfc 100644
--- a/src/core/index/DirectoryReader.cpp
+++ b/src/core/index/DirectoryReader.cpp
@@ -620,7 +620,16 @@ void DirectoryReader::acquireWriteLock() {
 
             // we have to check whether index has changed since this reader was opened.
             // if so, this reader is no longer valid for deletion
-            if (SegmentInfos::readCurrentVersion(_directory) > maxIndexVersion) {
+            int64_t currentVersion = 0;
+            try {
+                currentVersion = SegmentInfos::readCurrentVersion(_directory);
+            } catch (LuceneException&) {
+                // could not check: do not keep the lock, else it is never released and the next call skips the check
+                this->writeLock->release();
+                this->writeLock.reset();
+                throw;
+            }
+            if (currentVersion > maxIndexVersion) {
                 stale = true;
                 this->writeLock->release();
                 this->writeLock.reset();
-- 
2.43.0


From 740c7e122b6e4c8327c0cfb4713676213368daee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:59 +0000
Subject: [PATCH 014/121] fix: a deletions file rewritten by a retried commit
 is not synced

---
 src/core/index/IndexFileDeleter.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/core/index/IndexFileDeleter.cpp b/src/core/index/IndexFileDeleter.cpp
index a87b7eb..ed3de99 100644
--- a/src/core/index/IndexFileDeleter.cpp
+++ b/src/core/index/IndexFileDeleter.cpp
@@ -336,11 +336,6 @@ void IndexFileDeleter::decRef(const String& fileName) {
         // This file is no longer referenced by any past commit points nor by the in-memory SegmentInfos
         deleteFile(fileName);
         refCounts.remove(fileName);
-
-        if (synced) {
-            SyncLock syncLock(&synced);
-            synced.remove(fileName);
-        }
     }
 }
 
@@ -382,6 +377,12 @@ void IndexFileDeleter::deleteNewFiles(HashSet<String> files) {
 }
 
 void IndexFileDeleter::deleteFile(const String& fileName) {
+    // A file written again under this name (eg when a failed commit is retried) has to be synced again
+    if (synced) {
+        SyncLock syncLock(&synced);
+        synced.remove(fileName);
+    }
+
     try {
         if (infoStream) {
             message(L"delete \"" + fileName + L"\"");
-- 
2.43.0


From aea1045e6072af4ab96a119cfa5aa6f5bb08b120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:28 +0000
Subject: [PATCH 015/121] fix: incomplete doc store files of a failed flush are
 taken for those of segments flushed earlier

---
 src/core/index/IndexWriter.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index 5022f0f..23be711 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -784,7 +784,7 @@ bool IndexWriter::flushDocStores() {
         message(L"closeDocStores segment=" + docWriter->getDocStoreSegment());
     }
 
-    String docStoreSegment;
+    String docStoreSegment(docWriter->getDocStoreSegment());
 
     bool success = false;
     LuceneException finally;
@@ -794,8 +794,15 @@ bool IndexWriter::flushDocStores() {
     } catch (LuceneException& e) {
         finally = e;
     }
-    if (!success && infoStream) {
-        message(L"hit exception closing doc store segment");
+    if (!success) {
+        if (infoStream) {
+            message(L"hit exception closing doc store segment");
+        }
+        // Files begun since the last flush (eg term vectors) may be incomplete: segments already flushed to this doc
+        // store must not find them
+        if (!docStoreSegment.empty()) {
+            deleter->refresh(docStoreSegment);
+        }
     }
     finally.throwException();
 
-- 
2.43.0


From 54a1f58f31acdd21e6c0b35ccb68db6ecebf1d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:20 +0000
Subject: [PATCH 016/121] fix: closing a writer with a prepared commit waits
 forever

---
 src/core/index/IndexWriter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index 23be711..e04b8fa 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -699,6 +699,11 @@ void IndexWriter::closeInternal(bool waitForMerges) {
 
     LuceneException finally;
     try {
+        if (pendingCommit) {
+            // The final commit below would wait for it forever
+            boost::throw_exception(IllegalStateException(L"cannot close: prepareCommit was already called with no corresponding call to commit"));
+        }
+
         if (infoStream) {
             message(L"now flush at close");
         }
-- 
2.43.0


From b5f8f5d84ee1cb2cb0e6cd3e77b737702959970e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:38 +0000
Subject: [PATCH 017/121] fix: an incomplete commit record whose deletion
 failed is left behind and blocks the next writer

---
 src/core/index/IndexWriter.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index e04b8fa..12bb1fa 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -2063,6 +2063,11 @@ void IndexWriter::finishCommit() {
             finally = e;
         }
 
+        if (pendingCommit->getLastGeneration() != pendingCommit->getGeneration()) {
+            // Retry the deletion of a segments_N file that could not be completed, if that failed too
+            deleter->deleteFile(IndexFileNames::fileNameFromGeneration(IndexFileNames::SEGMENTS(), L"", pendingCommit->getGeneration()));
+        }
+
         deleter->decRef(pendingCommit);
         pendingCommit.reset();
         notifyAll();
@@ -3266,6 +3271,7 @@ void IndexWriter::startCommit(int64_t sizeInBytes, MapStringString commitUserDat
                         }
 
                         bool success = false;
+                        int64_t previousGeneration = toSync->getGeneration();
                         try {
                             // Exception here means nothing is prepared (this method unwinds
                             // everything it did on an exception)
@@ -3292,6 +3298,10 @@ void IndexWriter::startCommit(int64_t sizeInBytes, MapStringString commitUserDat
                         if (!success && infoStream) {
                             message(L"hit exception committing segments file");
                         }
+                        if (!success && toSync->getGeneration() != previousGeneration) {
+                            // Retry the deletion of an incomplete segments_N file, if that failed too
+                            deleter->deleteFile(IndexFileNames::fileNameFromGeneration(IndexFileNames::SEGMENTS(), L"", toSync->getGeneration()));
+                        }
                         finally.throwException();
                         break;
                     } else {
-- 
2.43.0


From 8a6f519b2294761075d2d8155d864695b9a245fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:42 +0000
Subject: [PATCH 018/121] fix: importing an index deletes store files that the
 last commit still needs

---
 src/core/index/IndexWriter.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index 12bb1fa..03a66bd 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -1355,8 +1355,9 @@ void IndexWriter::startTransaction(bool haveReadLock) {
 
         localFlushedDocCount = docWriter->getFlushedDocCount();
 
-        // We must "protect" our files at this point from deletion in case we need to rollback
-        deleter->incRef(segmentInfos, false);
+        // We must "protect" our files at this point from deletion in case we need to rollback.  This must name the
+        // same files that are released later: the clone may list store files that were created after ours was cached.
+        deleter->incRef(localRollbackSegmentInfos, false);
 
         success = true;
     } catch (LuceneException& e) {
-- 
2.43.0


From 373b6507ba39eaa008b81da84abbeb8ab783bef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:24 +0000
Subject: [PATCH 019/121] fix: aborted doc store files that were open at a
 checkpoint are taken for those of flushed segments

---
 include/lucene++/IndexWriter.h            |  3 ++
 src/core/index/IndexWriter.cpp            | 40 ++++++++++-------------
 src/core/index/TermVectorsTermsWriter.cpp |  8 ++---
 3 files changed, 25 insertions(+), 26 deletions(-)

diff --git a/include/lucene++/IndexWriter.h b/include/lucene++/IndexWriter.h
index 5ace809..d97012f 100644
--- a/include/lucene++/IndexWriter.h
+++ b/include/lucene++/IndexWriter.h
@@ -979,6 +979,9 @@ protected:
     /// files).  Return value specifies whether new doc store files are compound or not.
     virtual bool flushDocStores();
 
+    /// Delete the files of documents that the document writer had to abort.
+    void deleteAbortedFiles();
+
     /// Returns true if any merges in pendingMerges or runningMerges are optimization merges.
     virtual bool optimizeMergesPending();
 
diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index 03a66bd..949f1c5 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -803,8 +803,7 @@ bool IndexWriter::flushDocStores() {
         if (infoStream) {
             message(L"hit exception closing doc store segment");
         }
-        // Files begun since the last flush (eg term vectors) may be incomplete: segments already flushed to this doc
-        // store must not find them
+        deleteAbortedFiles();
         if (!docStoreSegment.empty()) {
             deleter->refresh(docStoreSegment);
         }
@@ -910,6 +909,20 @@ bool IndexWriter::hasDeletions() {
     return false;
 }
 
+void IndexWriter::deleteAbortedFiles() {
+    SyncLock syncLock(this);
+    // If docWriter has some aborted files that were never incref'd, then we clean them up here
+    if (docWriter) {
+        HashSet<String> files(docWriter->abortedFiles());
+        if (files) {
+            // Files begun since the last flush (eg term vectors) may be incomplete: segments already flushed to the
+            // same doc store must not find them.  Release those that were open at the last checkpoint, too.
+            deleter->checkpoint(segmentInfos, false);
+            deleter->deleteNewFiles(files);
+        }
+    }
+}
+
 void IndexWriter::addDocument(const DocumentPtr& doc) {
     addDocument(doc, analyzer);
 }
@@ -930,16 +943,7 @@ void IndexWriter::addDocument(const DocumentPtr& doc, const AnalyzerPtr& analyze
             if (infoStream) {
                 message(L"hit exception adding document");
             }
-            {
-                SyncLock syncLock(this);
-                // If docWriter has some aborted files that were never incref'd, then we clean them up here
-                if (docWriter) {
-                    HashSet<String> files(docWriter->abortedFiles());
-                    if (files) {
-                        deleter->deleteNewFiles(files);
-                    }
-                }
-            }
+            deleteAbortedFiles();
         }
         finally.throwException();
         if (doFlush) {
@@ -1012,16 +1016,7 @@ void IndexWriter::updateDocument(const TermPtr& term, const DocumentPtr& doc, co
                 message(L"hit exception updating document");
             }
 
-            {
-                SyncLock syncLock(this);
-                // If docWriter has some aborted files that were never incref'd, then we clean them up here
-                if (docWriter) {
-                    HashSet<String> files(docWriter->abortedFiles());
-                    if (files) {
-                        deleter->deleteNewFiles(files);
-                    }
-                }
-            }
+            deleteAbortedFiles();
         }
         finally.throwException();
         if (doFlush) {
@@ -2213,6 +2208,7 @@ bool IndexWriter::doFlushInternal(bool flushDocStores, bool flushDeletes) {
                     message(L"hit exception flushing segment " + segment);
                 }
                 deleter->refresh(segment);
+                deleteAbortedFiles();
             }
 
             finally.throwException();
diff --git a/src/core/index/TermVectorsTermsWriter.cpp b/src/core/index/TermVectorsTermsWriter.cpp
index f7173ce..c3dbf75 100644
--- a/src/core/index/TermVectorsTermsWriter.cpp
+++ b/src/core/index/TermVectorsTermsWriter.cpp
@@ -146,6 +146,10 @@ void TermVectorsTermsWriter::initTermVectorsWriter() {
 
         // If we hit an exception while init'ing the term vector output files, we must abort this segment
         // because those files will be in an unknown state
+        docWriter->addOpenFile(docStoreSegment + L"." + IndexFileNames::VECTORS_INDEX_EXTENSION());
+        docWriter->addOpenFile(docStoreSegment + L"." + IndexFileNames::VECTORS_FIELDS_EXTENSION());
+        docWriter->addOpenFile(docStoreSegment + L"." + IndexFileNames::VECTORS_DOCUMENTS_EXTENSION());
+
         tvx = docWriter->directory->createOutput(docStoreSegment + L"." + IndexFileNames::VECTORS_INDEX_EXTENSION());
         tvd = docWriter->directory->createOutput(docStoreSegment + L"." + IndexFileNames::VECTORS_DOCUMENTS_EXTENSION());
         tvf = docWriter->directory->createOutput(docStoreSegment + L"." + IndexFileNames::VECTORS_FIELDS_EXTENSION());
@@ -154,10 +158,6 @@ void TermVectorsTermsWriter::initTermVectorsWriter() {
         tvd->writeInt(TermVectorsReader::FORMAT_CURRENT);
         tvf->writeInt(TermVectorsReader::FORMAT_CURRENT);
 
-        docWriter->addOpenFile(docStoreSegment + L"." + IndexFileNames::VECTORS_INDEX_EXTENSION());
-        docWriter->addOpenFile(docStoreSegment + L"." + IndexFileNames::VECTORS_FIELDS_EXTENSION());
-        docWriter->addOpenFile(docStoreSegment + L"." + IndexFileNames::VECTORS_DOCUMENTS_EXTENSION());
-
         lastDocID = 0;
     }
 }
-- 
2.43.0


From 46e64d86143ffc001ffcafb3f8299e13e6429b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:57 +0000
Subject: [PATCH 020/121] fix: deletions or norms of another commit are
 overwritten after going back to an older one

---
 src/core/index/SegmentInfo.cpp | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/core/index/SegmentInfo.cpp b/src/core/index/SegmentInfo.cpp
index 403f6d2..55de8a5 100644
--- a/src/core/index/SegmentInfo.cpp
+++ b/src/core/index/SegmentInfo.cpp
@@ -214,12 +214,16 @@ bool SegmentInfo::hasDeletions() {
 }
 
 void SegmentInfo::advanceDelGen() {
-    // delGen 0 is reserved for pre-LOCKLESS format
-    if (delGen == NO) {
-        delGen = YES;
-    } else {
-        delGen++;
-    }
+    // Never write a file twice: another commit may refer to the one that exists (eg after a writer was opened on an
+    // older commit, or after deletions were undone)
+    do {
+        // delGen 0 is reserved for pre-LOCKLESS format
+        if (delGen == NO) {
+            delGen = YES;
+        } else {
+            delGen++;
+        }
+    } while (dir && dir->fileExists(getDelFileName()));
     clearFiles();
 }
 
@@ -307,11 +311,14 @@ bool SegmentInfo::hasSeparateNorms() {
 }
 
 void SegmentInfo::advanceNormGen(int32_t fieldIndex) {
-    if (normGen[fieldIndex] == NO) {
-        normGen[fieldIndex] = YES;
-    } else {
-        normGen[fieldIndex]++;
-    }
+    // Never write a file twice: another commit may refer to the one that exists
+    do {
+        if (normGen[fieldIndex] == NO) {
+            normGen[fieldIndex] = YES;
+        } else {
+            normGen[fieldIndex]++;
+        }
+    } while (dir && dir->fileExists(getNormFileName(fieldIndex)));
     clearFiles();
 }
 
-- 
2.43.0


From 8dd833186c420de20170884876664d3b1204be0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:49 +0000
Subject: [PATCH 021/121] fix: combining rewritten queries must not drop a
 boolean query's minimum-should-match and boost

---
 src/core/search/Query.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/search/Query.cpp b/src/core/search/Query.cpp
index e9d2714..81988e3 100644
--- a/src/core/search/Query.cpp
+++ b/src/core/search/Query.cpp
@@ -65,7 +65,8 @@ QueryPtr Query::combine(Collection<QueryPtr> queries) {
         // check if we can split the query into clauses
         bool splittable = bq.get() != NULL;
         if (splittable) {
-            splittable = bq->isCoordDisabled();
+            // taking the clauses apart loses the query's own boost and minimum number of matching clauses
+            splittable = bq->isCoordDisabled() && bq->getBoost() == 1.0 && bq->getMinimumNumberShouldMatch() == 0;
             clauses = bq->getClauses();
             for (Collection<BooleanClausePtr>::iterator clause = clauses.begin(); splittable && clause != clauses.end(); ++clause) {
                 splittable = ((*clause)->getOccur() == BooleanClause::SHOULD);
-- 
2.43.0


From d8a6ae0f84f195466f133bf2ec8cada6071b1c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:03 +0000
Subject: [PATCH 022/121] fix: rewriting a nested single-clause query must not
 change the boost of the caller's query

---
 src/core/search/BooleanQuery.cpp        | 5 ++---
 src/core/search/DisjunctionMaxQuery.cpp | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/core/search/BooleanQuery.cpp b/src/core/search/BooleanQuery.cpp
index 1376d24..4f5b676 100644
--- a/src/core/search/BooleanQuery.cpp
+++ b/src/core/search/BooleanQuery.cpp
@@ -91,9 +91,8 @@ QueryPtr BooleanQuery::rewrite(const IndexReaderPtr& reader) {
             QueryPtr query(c->getQuery()->rewrite(reader)); // rewrite first
 
             if (getBoost() != 1.0) { // incorporate boost
-                if (query == c->getQuery()) { // if rewrite was no-op
-                    query = boost::dynamic_pointer_cast<Query>(query->clone());    // then clone before boost
-                }
+                // clone before boost: even when the clause was rewritten the result can be a part of it
+                query = boost::dynamic_pointer_cast<Query>(query->clone());
                 query->setBoost(getBoost() * query->getBoost());
             }
 
diff --git a/src/core/search/DisjunctionMaxQuery.cpp b/src/core/search/DisjunctionMaxQuery.cpp
index b35f1fe..756949d 100644
--- a/src/core/search/DisjunctionMaxQuery.cpp
+++ b/src/core/search/DisjunctionMaxQuery.cpp
@@ -57,9 +57,8 @@ QueryPtr DisjunctionMaxQuery::rewrite(const IndexReaderPtr& reader) {
         QueryPtr singleton(disjuncts[0]);
         QueryPtr result(singleton->rewrite(reader));
         if (getBoost() != 1.0) {
-            if (result == singleton) {
-                result = boost::dynamic_pointer_cast<Query>(result->clone());
-            }
+            // clone before boost: even when the disjunct was rewritten the result can be a part of it
+            result = boost::dynamic_pointer_cast<Query>(result->clone());
             result->setBoost(getBoost() * result->getBoost());
         }
         return result;
-- 
2.43.0


From 6253659ce0176ccb3a33ad48e87d0e267418687a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:47 +0000
Subject: [PATCH 023/121] fix: explaining a boolean query must not ignore a
 required clause that matches nothing

---
 src/core/search/BooleanQuery.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/search/BooleanQuery.cpp b/src/core/search/BooleanQuery.cpp
index 4f5b676..a994934 100644
--- a/src/core/search/BooleanQuery.cpp
+++ b/src/core/search/BooleanQuery.cpp
@@ -254,6 +254,10 @@ ExplanationPtr BooleanWeight::explain(const IndexReaderPtr& reader, int32_t doc)
     Collection<BooleanClausePtr>::iterator c = query->clauses.begin();
     for (Collection<WeightPtr>::iterator w = weights.begin(); w != weights.end(); ++w, ++c) {
         if (!(*w)->scorer(reader, true, true)) {
+            if ((*c)->isRequired()) {
+                sumExpl->addDetail(newLucene<Explanation>(0.0, L"no match on required clause (" + (*c)->getQuery()->toString() + L")"));
+                fail = true;
+            }
             continue;
         }
         ExplanationPtr e((*w)->explain(reader, doc));
-- 
2.43.0


From dbe0c54b1684f6e061c69d7e4ff73631243dafd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:47 +0000
Subject: [PATCH 024/121] fix: a disjunction-max clause counts for the
 coordination factor in every segment alike

---
 src/core/search/DisjunctionMaxQuery.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/core/search/DisjunctionMaxQuery.cpp b/src/core/search/DisjunctionMaxQuery.cpp
index 756949d..91c533c 100644
--- a/src/core/search/DisjunctionMaxQuery.cpp
+++ b/src/core/search/DisjunctionMaxQuery.cpp
@@ -172,15 +172,21 @@ void DisjunctionMaxWeight::normalize(double norm) {
 ScorerPtr DisjunctionMaxWeight::scorer(const IndexReaderPtr& reader, bool scoreDocsInOrder, bool topScorer) {
     Collection<ScorerPtr> scorers(Collection<ScorerPtr>::newInstance(weights.size()));
     int32_t idx = 0;
+    bool hasScorer = false;
     for (Collection<WeightPtr>::iterator wt = weights.begin(); wt != weights.end(); ++wt) {
         ScorerPtr subScorer((*wt)->scorer(reader, true, false));
-        if (subScorer && subScorer->nextDoc() != DocIdSetIterator::NO_MORE_DOCS) {
-            scorers[idx++] = subScorer;
+        if (subScorer) {
+            hasScorer = true;
+            if (subScorer->nextDoc() != DocIdSetIterator::NO_MORE_DOCS) {
+                scorers[idx++] = subScorer;
+            }
         }
     }
-    if (idx == 0) {
-        return ScorerPtr();    // all scorers did not have documents
+    if (!hasScorer) {
+        return ScorerPtr();
     }
+    // Even when no scorer has documents here: whether this query counts for its parent's coordination factor
+    // must not depend on which segment holds the matching documents
     DisjunctionMaxScorerPtr result(newLucene<DisjunctionMaxScorer>(query->tieBreakerMultiplier, similarity, scorers, idx));
     return result;
 }
-- 
2.43.0


From 4d915c2bbd02856af433f1e7d242e0e4ce31dafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:45 +0000
Subject: [PATCH 025/121] fix: a filtered clause counts for the coordination
 factor in every segment alike

---
 src/core/search/FilteredQuery.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/core/search/FilteredQuery.cpp b/src/core/search/FilteredQuery.cpp
index a6dbaf7..ac8430f 100644
--- a/src/core/search/FilteredQuery.cpp
+++ b/src/core/search/FilteredQuery.cpp
@@ -132,13 +132,12 @@ ScorerPtr FilteredQueryWeight::scorer(const IndexReaderPtr& reader, bool scoreDo
     if (!scorer) {
         return ScorerPtr();
     }
+    // A filter that accepts nothing in this segment still gives a scorer: whether this query counts for its
+    // parent's coordination factor must not depend on which segment holds the accepted documents
     DocIdSetPtr docIdSet(query->filter->getDocIdSet(reader));
-    if (!docIdSet) {
-        return ScorerPtr();
-    }
-    DocIdSetIteratorPtr docIdSetIterator(docIdSet->iterator());
+    DocIdSetIteratorPtr docIdSetIterator(docIdSet ? docIdSet->iterator() : DocIdSetIteratorPtr());
     if (!docIdSetIterator) {
-        return ScorerPtr();
+        docIdSetIterator = DocIdSet::EMPTY_DOCIDSET()->iterator();
     }
     return newLucene<FilteredQueryWeightScorer>(shared_from_this(), scorer, docIdSetIterator, similarity);
 }
-- 
2.43.0


From c469f81b36373eabcab8f849de75329f1fed701c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:08 +0000
Subject: [PATCH 026/121] fix: FieldCacheRangeFilter over signed values with
 exclusive upper bound 0 matched nothing

---
 src/core/include/_FieldCacheRangeFilter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/include/_FieldCacheRangeFilter.h b/src/core/include/_FieldCacheRangeFilter.h
index fb38252..941caeb 100644
--- a/src/core/include/_FieldCacheRangeFilter.h
+++ b/src/core/include/_FieldCacheRangeFilter.h
@@ -105,7 +105,7 @@ public:
         }
         int64_t inclusiveLowerPoint = (int64_t)(includeLower ? lowerVal : (lowerVal + 1));
 
-        if (!includeUpper && upperVal == 0) {
+        if (!includeUpper && upperVal == std::numeric_limits<TYPE>::min()) {
             return DocIdSet::EMPTY_DOCIDSET();
         }
         int64_t inclusiveUpperPoint = (int64_t)(includeUpper ? upperVal : (upperVal - 1));
-- 
2.43.0


From cc1aa751d4ad313ac17ba069636f8489c04e1e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:37 +0000
Subject: [PATCH 027/121] fix: NearSpansUnordered::isPayloadAvailable looked at
 part of its cells only

---
 src/core/search/spans/NearSpansUnordered.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/core/search/spans/NearSpansUnordered.cpp b/src/core/search/spans/NearSpansUnordered.cpp
index 0bb752c..3b5d028 100644
--- a/src/core/search/spans/NearSpansUnordered.cpp
+++ b/src/core/search/spans/NearSpansUnordered.cpp
@@ -145,12 +145,10 @@ Collection<ByteArray> NearSpansUnordered::getPayload() {
 }
 
 bool NearSpansUnordered::isPayloadAvailable() {
-    SpansCellPtr pointer(min());
-    while (pointer) {
-        if (pointer->isPayloadAvailable()) {
+    for (SpansCellPtr cell(first); cell; cell = cell->_next) {
+        if (cell->isPayloadAvailable()) {
             return true;
         }
-        pointer = pointer->_next;
     }
     return false;
 }
-- 
2.43.0


From f21d489d5e50554c2c22026a1e1a4c994c11baeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:52 +0000
Subject: [PATCH 028/121] fix: unordered near spans kept a stale maximum when
 its cell moved to a shorter span

---
 include/lucene++/NearSpansUnordered.h        |  1 +
 src/core/search/spans/NearSpansUnordered.cpp | 12 +++++++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/lucene++/NearSpansUnordered.h b/include/lucene++/NearSpansUnordered.h
index a27d43e..cd002e0 100644
--- a/include/lucene++/NearSpansUnordered.h
+++ b/include/lucene++/NearSpansUnordered.h
@@ -61,6 +61,7 @@ protected:
     void firstToLast();
     void queueToList();
     void listToQueue();
+    void findMax();
     bool atMatch();
 
     friend class SpansCell;
diff --git a/src/core/search/spans/NearSpansUnordered.cpp b/src/core/search/spans/NearSpansUnordered.cpp
index 3b5d028..2a47353 100644
--- a/src/core/search/spans/NearSpansUnordered.cpp
+++ b/src/core/search/spans/NearSpansUnordered.cpp
@@ -211,6 +211,14 @@ void NearSpansUnordered::listToQueue() {
     }
 }
 
+void NearSpansUnordered::findMax() {
+    for (Collection<SpansCellPtr>::iterator cell = ordered.begin(); cell != ordered.end(); ++cell) {
+        if ((*cell)->length != -1 && ((*cell)->doc() > max->doc() || ((*cell)->doc() == max->doc() && (*cell)->end() > max->end()))) {
+            max = *cell;
+        }
+    }
+}
+
 bool NearSpansUnordered::atMatch() {
     return ((min()->doc() == max->doc()) && ((max->end() - min()->start() - totalLength) <= slop));
 }
@@ -242,7 +250,9 @@ bool SpansCell::adjust(bool condition) {
         length = end() - start();
         unordered->totalLength += length; // add new length
 
-        if (!unordered->max || doc() > unordered->max->doc() || ((doc() == unordered->max->doc()) && (end() > unordered->max->end()))) {
+        if (unordered->max.get() == this) {
+            unordered->findMax(); // this cell may now end before another one
+        } else if (!unordered->max || doc() > unordered->max->doc() || ((doc() == unordered->max->doc()) && (end() > unordered->max->end()))) {
             unordered->max = shared_from_this();
         }
     }
-- 
2.43.0


From 8c6f3e403e67d805f1fb973390cff0c2337cf2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:52 +0000
Subject: [PATCH 029/121] fix: unordered near spans over equal sub-spans
 depended on earlier documents

---
 src/core/include/_NearSpansUnordered.h       | 1 +
 src/core/search/spans/NearSpansUnordered.cpp | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/src/core/include/_NearSpansUnordered.h b/src/core/include/_NearSpansUnordered.h
index 02ab540..6d15d5d 100644
--- a/src/core/include/_NearSpansUnordered.h
+++ b/src/core/include/_NearSpansUnordered.h
@@ -41,6 +41,7 @@ protected:
     bool adjust(bool condition);
 
     friend class NearSpansUnordered;
+    friend class CellQueue;
 };
 
 class CellQueue : public PriorityQueue<SpansCellPtr> {
diff --git a/src/core/search/spans/NearSpansUnordered.cpp b/src/core/search/spans/NearSpansUnordered.cpp
index 2a47353..4defd1a 100644
--- a/src/core/search/spans/NearSpansUnordered.cpp
+++ b/src/core/search/spans/NearSpansUnordered.cpp
@@ -293,6 +293,9 @@ CellQueue::~CellQueue() {
 
 bool CellQueue::lessThan(const SpansCellPtr& first, const SpansCellPtr& second) {
     if (first->doc() == second->doc()) {
+        if (first->start() == second->start() && first->end() == second->end()) {
+            return (first->index < second->index); // equal spans: do not depend on the history of the queue
+        }
         return NearSpansOrdered::docSpansOrdered(first, second);
     } else {
         return (first->doc() < second->doc());
-- 
2.43.0


From d52154409d8af86e53a928a5c04396abb1d1ceee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:06 +0000
Subject: [PATCH 030/121] fix: field cache returned values produced by one
 parser for another parser

---
 src/core/search/FieldCacheImpl.cpp | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/core/search/FieldCacheImpl.cpp b/src/core/search/FieldCacheImpl.cpp
index aabcbff..14117fb 100644
--- a/src/core/search/FieldCacheImpl.cpp
+++ b/src/core/search/FieldCacheImpl.cpp
@@ -108,6 +108,23 @@ InfoStreamPtr FieldCacheImpl::getInfoStream() {
     return infoStream;
 }
 
+/// The parser a cache entry was requested with, if any.
+static ParserPtr customParser(const boost::any& custom) {
+    if (VariantUtils::typeOf<ByteParserPtr>(custom)) {
+        return VariantUtils::get<ByteParserPtr>(custom);
+    }
+    if (VariantUtils::typeOf<IntParserPtr>(custom)) {
+        return VariantUtils::get<IntParserPtr>(custom);
+    }
+    if (VariantUtils::typeOf<LongParserPtr>(custom)) {
+        return VariantUtils::get<LongParserPtr>(custom);
+    }
+    if (VariantUtils::typeOf<DoubleParserPtr>(custom)) {
+        return VariantUtils::get<DoubleParserPtr>(custom);
+    }
+    return VariantUtils::get<ParserPtr>(custom);
+}
+
 Entry::Entry(const String& field, const boost::any& custom) {
     this->field = field;
     this->custom = custom;
@@ -123,8 +140,11 @@ bool Entry::equals(const LuceneObjectPtr& other) {
 
     EntryPtr otherEntry(boost::dynamic_pointer_cast<Entry>(other));
     if (otherEntry) {
-        if (otherEntry->field == field) {
-            return VariantUtils::equalsType(custom, otherEntry->custom);
+        if (otherEntry->field == field && VariantUtils::equalsType(custom, otherEntry->custom)) {
+            // values produced by one parser must not be returned for another one
+            ParserPtr parser(customParser(custom));
+            ParserPtr otherParser(customParser(otherEntry->custom));
+            return parser ? parser->equals(otherParser) : !otherParser;
         }
     }
     return false;
-- 
2.43.0


From bf8e9d740f4d9b22c8a4c9db5d151e95282a4543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:06 +0000
Subject: [PATCH 031/121] fix: multi searcher adjusted only the first of
 several DOC sort values to global document numbers

---
 src/core/search/MultiSearcher.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/core/search/MultiSearcher.cpp b/src/core/search/MultiSearcher.cpp
index d327690..9c17307 100644
--- a/src/core/search/MultiSearcher.cpp
+++ b/src/core/search/MultiSearcher.cpp
@@ -298,7 +298,6 @@ TopFieldDocsPtr MultiSearcherCallableWithSort::call() {
                 FieldDocPtr fd(boost::dynamic_pointer_cast<FieldDoc>(docs->scoreDocs[j2]));
                 fd->fields[j] = VariantUtils::get<int32_t>(fd->fields[j]) + starts[i];
             }
-            break;
         }
     }
 
-- 
2.43.0


From a89b4d5c072c4ceba018a8d51682c002cdba3234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:38 +0000
Subject: [PATCH 032/121] fix: memory-mapped inputs could not open empty files
 and read past their end unnoticed

---
 src/core/include/_MMapDirectory.h |  5 ++++
 src/core/store/MMapDirectory.cpp  | 39 ++++++++++++++++++++-----------
 2 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/src/core/include/_MMapDirectory.h b/src/core/include/_MMapDirectory.h
index 3438f66..000a2d6 100644
--- a/src/core/include/_MMapDirectory.h
+++ b/src/core/include/_MMapDirectory.h
@@ -21,6 +21,7 @@ public:
 
 protected:
     int32_t _length;
+    bool isOpen;
     bool isClone;
     boost::iostreams::mapped_file_source file;
     int32_t bufferPosition; // next byte to read
@@ -53,6 +54,10 @@ public:
 
     /// Returns a clone of this stream.
     virtual LuceneObjectPtr clone(const LuceneObjectPtr& other = LuceneObjectPtr());
+
+protected:
+    /// Fails unless the given number of bytes can be read at the current position.
+    void checkAvailable(int32_t length);
 };
 
 }
diff --git a/src/core/store/MMapDirectory.cpp b/src/core/store/MMapDirectory.cpp
index 46156e3..c62089d 100644
--- a/src/core/store/MMapDirectory.cpp
+++ b/src/core/store/MMapDirectory.cpp
@@ -35,12 +35,18 @@ MMapIndexInput::MMapIndexInput(const String& path) {
     _length = path.empty() ? 0 : (int32_t)FileUtils::fileLength(path);
     bufferPosition = 0;
     if (!path.empty()) {
-        try {
-            file.open(boost::filesystem::path(path), _length);
-        } catch (...) {
+        if (!FileUtils::fileExists(path)) {
             boost::throw_exception(FileNotFoundException(path));
         }
+        if (_length > 0) { // an empty file cannot be mapped
+            try {
+                file.open(boost::filesystem::path(path), _length);
+            } catch (...) {
+                boost::throw_exception(FileNotFoundException(path));
+            }
+        }
     }
+    isOpen = !path.empty();
     isClone = false;
 }
 
@@ -48,19 +54,20 @@ MMapIndexInput::~MMapIndexInput() {
 }
 
 uint8_t MMapIndexInput::readByte() {
-    try {
-        return file.data()[bufferPosition++];
-    } catch (...) {
-        boost::throw_exception(IOException(L"Read past EOF"));
-        return 0;
-    }
+    checkAvailable(1);
+    return file.data()[bufferPosition++];
 }
 
 void MMapIndexInput::readBytes(uint8_t* b, int32_t offset, int32_t length) {
-    try {
+    if (length > 0) {
+        checkAvailable(length);
         MiscUtils::arrayCopy(file.data(), bufferPosition, b, offset, length);
         bufferPosition += length;
-    } catch (...) {
+    }
+}
+
+void MMapIndexInput::checkAvailable(int32_t length) {
+    if (bufferPosition < 0 || length > _length - bufferPosition || !file.is_open()) {
         boost::throw_exception(IOException(L"Read past EOF"));
     }
 }
@@ -78,22 +85,26 @@ int64_t MMapIndexInput::length() {
 }
 
 void MMapIndexInput::close() {
-    if (isClone || !file.is_open()) {
+    if (isClone || !isOpen) {
         return;
     }
+    isOpen = false;
     _length = 0;
     bufferPosition = 0;
-    file.close();
+    if (file.is_open()) {
+        file.close();
+    }
 }
 
 LuceneObjectPtr MMapIndexInput::clone(const LuceneObjectPtr& other) {
-    if (!file.is_open()) {
+    if (!isOpen) {
         boost::throw_exception(AlreadyClosedException(L"MMapIndexInput already closed"));
     }
     LuceneObjectPtr clone = IndexInput::clone(other ? other : newLucene<MMapIndexInput>());
     MMapIndexInputPtr cloneIndexInput(boost::dynamic_pointer_cast<MMapIndexInput>(clone));
     cloneIndexInput->_length = _length;
     cloneIndexInput->file = file;
+    cloneIndexInput->isOpen = true;
     cloneIndexInput->bufferPosition = bufferPosition;
     cloneIndexInput->isClone = true;
     return cloneIndexInput;
-- 
2.43.0


From 3f7a76f604716d1c3c497c63132213d710c1d039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:38 +0000
Subject: [PATCH 033/121] fix: enumerating a parallel reader's terms from a
 field it does not have, or past a field's last term, ended early

---
 src/core/include/_ParallelReader.h |  3 +++
 src/core/index/ParallelReader.cpp  | 20 +++++++++++++++++---
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/core/include/_ParallelReader.h b/src/core/include/_ParallelReader.h
index 53f6f59..fb15a1b 100644
--- a/src/core/include/_ParallelReader.h
+++ b/src/core/include/_ParallelReader.h
@@ -28,6 +28,9 @@ protected:
     bool setIterator;
     TermEnumPtr termEnum;
 
+    /// Positions at the first term of the next field that has any.
+    bool nextField();
+
 public:
     /// Increments the enumeration to the next element.  True if one exists.
     virtual bool next();
diff --git a/src/core/index/ParallelReader.cpp b/src/core/index/ParallelReader.cpp
index 80368b6..3643e17 100644
--- a/src/core/index/ParallelReader.cpp
+++ b/src/core/index/ParallelReader.cpp
@@ -395,7 +395,13 @@ ParallelTermEnum::ParallelTermEnum(const ParallelReaderPtr& reader, const TermPt
     MapStringIndexReader::iterator indexReader = reader->fieldToReader.find(field);
     if (indexReader != reader->fieldToReader.end()) {
         this->termEnum = indexReader->second->terms(term);
+        TermPtr first(termEnum->term());
+        if (first && first->field() == field) {
+            return;
+        }
+        termEnum->close();
     }
+    nextField(); // position at the first term of the fields that follow
 }
 
 ParallelTermEnum::~ParallelTermEnum() {
@@ -412,13 +418,20 @@ bool ParallelTermEnum::next() {
     }
 
     termEnum->close(); // close old termEnum
+
+    return nextField();
+}
+
+bool ParallelTermEnum::nextField() {
     ParallelReaderPtr reader(_reader);
 
     // find the next field with terms, if any
     if (!setIterator) {
-        fieldIterator = reader->fieldToReader.find(field);
-        ++fieldIterator; // Skip field to get next one
-        setIterator = false;
+        fieldIterator = reader->fieldToReader.begin();
+        setIterator = true;
+    }
+    while (fieldIterator != reader->fieldToReader.end() && fieldIterator->first <= field) {
+        ++fieldIterator;
     }
 
     while (fieldIterator != reader->fieldToReader.end()) {
@@ -433,6 +446,7 @@ bool ParallelTermEnum::next() {
         }
     }
 
+    termEnum.reset();
     return false; // no more fields
 }
 
-- 
2.43.0


From 641bf35f4da51f9d6bd7c24b9cf1768388f54dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:38 +0000
Subject: [PATCH 034/121] fix: enumerating a segment's terms from the empty
 term was positioned at no term

---
 src/core/index/TermInfosReader.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/index/TermInfosReader.cpp b/src/core/index/TermInfosReader.cpp
index 39e3db1..fe9f38c 100644
--- a/src/core/index/TermInfosReader.cpp
+++ b/src/core/index/TermInfosReader.cpp
@@ -214,7 +214,11 @@ SegmentTermEnumPtr TermInfosReader::terms() {
 SegmentTermEnumPtr TermInfosReader::terms(const TermPtr& term) {
     // don't use the cache in this call because we want to reposition the enumeration
     get(term, false);
-    return boost::static_pointer_cast<SegmentTermEnum>(getThreadResources()->termEnum->clone());
+    SegmentTermEnumPtr enumerator(boost::static_pointer_cast<SegmentTermEnum>(getThreadResources()->termEnum->clone()));
+    if (enumerator->position < 0) {
+        enumerator->next(); // the empty term precedes all terms: position at the first one
+    }
+    return enumerator;
 }
 
 TermInfosReaderThreadResources::~TermInfosReaderThreadResources() {
-- 
2.43.0


From 72ce79ae1fed787203215630e30343d63de00677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:12 +0000
Subject: [PATCH 035/121] fix: a multi searcher's combined query merged clauses
 the original query holds repeatedly, changing its scores

---
 src/core/search/Query.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/core/search/Query.cpp b/src/core/search/Query.cpp
index 81988e3..6a25577 100644
--- a/src/core/search/Query.cpp
+++ b/src/core/search/Query.cpp
@@ -58,6 +58,14 @@ QueryPtr Query::rewrite(const IndexReaderPtr& reader) {
 }
 
 QueryPtr Query::combine(Collection<QueryPtr> queries) {
+    // nothing to combine if all are equal: taking the query apart could merge clauses it holds repeatedly
+    bool allEqual = !queries.empty();
+    for (Collection<QueryPtr>::iterator query = queries.begin(); allEqual && query != queries.end(); ++query) {
+        allEqual = (*query)->equals(queries[0]);
+    }
+    if (allEqual) {
+        return queries[0];
+    }
     SetQuery uniques(SetQuery::newInstance());
     for (Collection<QueryPtr>::iterator query = queries.begin(); query != queries.end(); ++query) {
         Collection<BooleanClausePtr> clauses;
-- 
2.43.0


From 75543363681e840b3a88b0f4d88cdc4123a973a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:44 +0000
Subject: [PATCH 036/121] fix: nested parallel searches deadlocked once every
 pool thread waited, and an exception in one killed the process

---
 include/lucene++/ThreadPool.h | 27 ++++++++++++++++++++++++---
 src/core/util/ThreadPool.cpp  | 21 +++++++++++++++++++++
 2 files changed, 45 insertions(+), 3 deletions(-)

diff --git a/include/lucene++/ThreadPool.h b/include/lucene++/ThreadPool.h
index 175ac8a..d428920 100644
--- a/include/lucene++/ThreadPool.h
+++ b/include/lucene++/ThreadPool.h
@@ -11,6 +11,7 @@
 #include <boost/any.hpp>
 #include <boost/thread/thread.hpp>
 #include "LuceneObject.h"
+#include <exception>
 
 namespace Lucene {
 
@@ -27,6 +28,11 @@ public:
 
 protected:
     boost::any value;
+    std::exception_ptr error;
+
+    /// Waits until the computation has completed.  Meanwhile tasks waiting for a free thread are executed, because
+    /// the thread that waits may itself be one of the pool's.
+    void await();
 
 public:
     void set(const boost::any& value) {
@@ -34,11 +40,18 @@ public:
         this->value = value;
     }
 
+    /// Completes the computation with an exception, to be thrown by {@link #get}.
+    void setError(const std::exception_ptr& error) {
+        SyncLock syncLock(this);
+        this->error = error;
+    }
+
     template <typename TYPE>
     TYPE get() {
+        await();
         SyncLock syncLock(this);
-        while (value.empty()) {
-            wait(10);
+        if (error) {
+            std::rethrow_exception(error);
         }
         return value.empty() ? TYPE() : boost::any_cast<TYPE>(value);
     }
@@ -63,6 +76,10 @@ public:
     /// Get singleton thread pool instance.
     static ThreadPoolPtr getInstance();
 
+    /// Executes a scheduled task that no thread has begun yet, if there is one.
+    /// @return whether a task was executed.
+    bool runPendingTask();
+
     template <typename FUNC>
     FuturePtr scheduleTask(FUNC func) {
         FuturePtr future(newInstance<Future>());
@@ -74,7 +91,11 @@ protected:
     // this will be executed when one of the threads is available
     template <typename FUNC>
     void execute(FUNC func, const FuturePtr& future) {
-        future->set(func());
+        try {
+            future->set(func());
+        } catch (...) {
+            future->setError(std::current_exception());
+        }
         future->notifyAll();
     }
 };
diff --git a/src/core/util/ThreadPool.cpp b/src/core/util/ThreadPool.cpp
index 38f4170..9f43e5b 100644
--- a/src/core/util/ThreadPool.cpp
+++ b/src/core/util/ThreadPool.cpp
@@ -18,6 +18,23 @@ namespace Lucene {
 Future::~Future() {
 }
 
+void Future::await() {
+    while (true) {
+        {
+            SyncLock syncLock(this);
+            if (!value.empty() || error) {
+                return;
+            }
+        }
+        if (!ThreadPool::getInstance()->runPendingTask()) {
+            SyncLock syncLock(this);
+            if (value.empty() && !error) {
+                wait(10);
+            }
+        }
+    }
+}
+
 const int32_t ThreadPool::THREADPOOL_SIZE = 5;
 
 ThreadPool::ThreadPool()
@@ -34,6 +51,10 @@ ThreadPool::~ThreadPool() {
     threadGroup.join_all(); // wait for all competition
 }
 
+bool ThreadPool::runPendingTask() {
+    return io_context.poll_one() > 0;
+}
+
 ThreadPoolPtr ThreadPool::getInstance() {
     static ThreadPoolPtr threadPool;
     LUCENE_RUN_ONCE(
-- 
2.43.0


From a15d86db9fc9ef0968207d798ea9cdc5862fa2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:04 +0000
Subject: [PATCH 037/121] revert "enumerating a segment's terms from the empty
 term was positioned at no term": an existing test relies on it

---
 src/core/index/TermInfosReader.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/core/index/TermInfosReader.cpp b/src/core/index/TermInfosReader.cpp
index fe9f38c..39e3db1 100644
--- a/src/core/index/TermInfosReader.cpp
+++ b/src/core/index/TermInfosReader.cpp
@@ -214,11 +214,7 @@ SegmentTermEnumPtr TermInfosReader::terms() {
 SegmentTermEnumPtr TermInfosReader::terms(const TermPtr& term) {
     // don't use the cache in this call because we want to reposition the enumeration
     get(term, false);
-    SegmentTermEnumPtr enumerator(boost::static_pointer_cast<SegmentTermEnum>(getThreadResources()->termEnum->clone()));
-    if (enumerator->position < 0) {
-        enumerator->next(); // the empty term precedes all terms: position at the first one
-    }
-    return enumerator;
+    return boost::static_pointer_cast<SegmentTermEnum>(getThreadResources()->termEnum->clone());
 }
 
 TermInfosReaderThreadResources::~TermInfosReaderThreadResources() {
-- 
2.43.0


From dae56c6caf00bfb42741a44698879a13ce921e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:15 +0000
Subject: [PATCH 038/121] fix: text holding U+FFFE, U+FFFF or U+1FFFF was
 encoded as empty or cut

---
 src/core/util/UTF8Stream.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/util/UTF8Stream.cpp b/src/core/util/UTF8Stream.cpp
index 3762469..f390283 100644
--- a/src/core/util/UTF8Stream.cpp
+++ b/src/core/util/UTF8Stream.cpp
@@ -25,7 +25,7 @@ const wchar_t UTF8Base::UNICODE_REPLACEMENT_CHAR = (wchar_t)0xfffd;
 const wchar_t UTF8Base::UNICODE_TERMINATOR = (wchar_t)0xffff;
 #else
 const wchar_t UTF8Base::UNICODE_REPLACEMENT_CHAR = (wchar_t)0x0001fffd;
-const wchar_t UTF8Base::UNICODE_TERMINATOR = (wchar_t)0x0001ffff;
+const wchar_t UTF8Base::UNICODE_TERMINATOR = (wchar_t)0xffffffff; // not a character: U+1FFFF is one
 #endif
 
 UTF8Base::~UTF8Base() {
@@ -56,7 +56,11 @@ inline bool UTF8Base::isTrailSurrogate(uint32_t cp) {
 }
 
 inline bool UTF8Base::isValidCodePoint(uint32_t cp) {
+#ifdef LPP_UNICODE_CHAR_SIZE_2
     return (cp <= CODE_POINT_MAX && !isSurrogate(cp) && cp != 0xfffe && cp != 0xffff);
+#else
+    return (cp <= CODE_POINT_MAX && !isSurrogate(cp));
+#endif
 }
 
 inline bool UTF8Base::isOverlongSequence(uint32_t cp, int32_t length) {
-- 
2.43.0


From 2b2dea6984e0b9dbf8d8a41fb0c216f491142a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:15 +0000
Subject: [PATCH 039/121] fix: most negative numbers encoded by NumberTools
 were one character too long and could not be decoded

---
 src/core/document/NumberTools.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/document/NumberTools.cpp b/src/core/document/NumberTools.cpp
index 35d990f..db413e3 100644
--- a/src/core/document/NumberTools.cpp
+++ b/src/core/document/NumberTools.cpp
@@ -55,8 +55,9 @@ String NumberTools::longToString(int64_t l) {
     if (l < 0) {
         buf += NEGATIVE_PREFIX;
         l = std::numeric_limits<int64_t>::max() + l + 1;
+    } else {
+        buf += POSITIVE_PREFIX;
     }
-    buf += POSITIVE_PREFIX;
 
     String num(StringUtils::toString(l, RADIX));
 
-- 
2.43.0


From eb418a872939d8d29cc48b4096cc1c6b5ca78f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:37 +0000
Subject: [PATCH 040/121] fix: digits of a large number in a small base were
 cut off

---
 src/core/util/StringUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/util/StringUtils.cpp b/src/core/util/StringUtils.cpp
index 7647410..c630785 100644
--- a/src/core/util/StringUtils.cpp
+++ b/src/core/util/StringUtils.cpp
@@ -181,7 +181,7 @@ int32_t StringUtils::hashCode(const String& value) {
 String StringUtils::toString(int64_t value, int32_t base) {
     static const wchar_t* digits = L"0123456789abcdefghijklmnopqrstuvwxyz";
 
-    int32_t bufferSize = (sizeof(int32_t) << 3) + 1;
+    int32_t bufferSize = (sizeof(value) << 3) + 1;
     CharArray baseOutput(CharArray::newInstance(bufferSize));
 
     wchar_t* ptr = baseOutput.get() + bufferSize - 1;
-- 
2.43.0


From 8f37e2fa245c8b9a202fd1ff39fc189bb013b97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:37 +0000
Subject: [PATCH 041/121] fix: DateField cut the leading digits of times that
 are too late instead of rejecting them

---
 src/core/document/DateField.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/document/DateField.cpp b/src/core/document/DateField.cpp
index 6cbc92a..70eeefa 100644
--- a/src/core/document/DateField.cpp
+++ b/src/core/document/DateField.cpp
@@ -50,8 +50,13 @@ String DateField::timeToString(int64_t time) {
         boost::throw_exception(RuntimeException(L"time '" + StringUtils::toString(time) + L"' is too early, must be >= 0"));
     }
 
+    String timeValue(StringUtils::toString(time, StringUtils::CHARACTER_MAX_RADIX));
+    if ((int32_t)timeValue.length() > DATE_LEN()) {
+        boost::throw_exception(RuntimeException(L"time '" + StringUtils::toString(time) + L"' is too late, length of string representation must be <= " + StringUtils::toString(DATE_LEN())));
+    }
+
     String timeString(DATE_LEN(), L'0');
-    timeString += StringUtils::toString(time, StringUtils::CHARACTER_MAX_RADIX);
+    timeString += timeValue;
 
     return timeString.substr(timeString.length() - DATE_LEN(), DATE_LEN());
 }
-- 
2.43.0


From ebee53cf28d422210a5f97a54a33488d48c9c4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:38 +0000
Subject: [PATCH 042/121] fix: decoding unpadded base 64 of three characters
 wrote past its buffer

---
 src/core/util/Base64.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/util/Base64.cpp b/src/core/util/Base64.cpp
index be00413..0fce7a4 100644
--- a/src/core/util/Base64.cpp
+++ b/src/core/util/Base64.cpp
@@ -70,7 +70,7 @@ ByteArray Base64::decode(const String& str) {
     int32_t i = 0;
     int32_t charIndex = 0;
 
-    ByteArray result(ByteArray::newInstance(length / 2));
+    ByteArray result(ByteArray::newInstance(length));
     int32_t resultIndex = 0;
 
     while (length-- && str[charIndex] != L'=' && isBase64(str[charIndex])) {
-- 
2.43.0


From 8ec42e7a787fbbcee3f5391c6bb6651d995ed2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:25 +0000
Subject: [PATCH 043/121] fix: decompressing an empty value crashed

---
 src/core/document/CompressionTools.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/document/CompressionTools.cpp b/src/core/document/CompressionTools.cpp
index 227fb61..5bd3529 100644
--- a/src/core/document/CompressionTools.cpp
+++ b/src/core/document/CompressionTools.cpp
@@ -131,6 +131,9 @@ ByteArray CompressionTools::decompress(ByteArray value) {
         boost::throw_exception(CompressionException(L"deflate failure: " + ZLibToMessage(err.error())));
     }
 
+    if (position == 0) {
+        return ByteArray::newInstance(0); // resizing to 0 would leave no array at all
+    }
     buffer.resize((int32_t)position);
 
     return buffer;
-- 
2.43.0


From 0ec865bdb827098f2c2fae97cc2cb2e1da91926d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:25 +0000
Subject: [PATCH 044/121] fix: decoding base 64 of nothing returned an array
 that crashes when asked for its size

---
 src/core/util/Base64.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/util/Base64.cpp b/src/core/util/Base64.cpp
index 0fce7a4..cb1e90c 100644
--- a/src/core/util/Base64.cpp
+++ b/src/core/util/Base64.cpp
@@ -113,6 +113,9 @@ ByteArray Base64::decode(const String& str) {
         }
     }
 
+    if (resultIndex == 0) {
+        return ByteArray::newInstance(0); // resizing to 0 would leave no array at all
+    }
     result.resize(resultIndex);
 
     return result;
-- 
2.43.0


From df90cd49f24f2c156e0455f4199af118fc8b116e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:47 +0000
Subject: [PATCH 045/121] fix: compressing an empty byte array failed

---
 src/core/document/CompressionTools.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/document/CompressionTools.cpp b/src/core/document/CompressionTools.cpp
index 5bd3529..b834253 100644
--- a/src/core/document/CompressionTools.cpp
+++ b/src/core/document/CompressionTools.cpp
@@ -81,7 +81,7 @@ ByteArray CompressionTools::compress(uint8_t* value, int32_t offset, int32_t len
     outStream.push(BufferArraySink(buffer, position, COMPRESS_BUFFER));
 
     // setup the source stream, and then copy it to the outStream
-    boost::iostreams::stream< boost::iostreams::array_source > source((char*)(value + offset), length);
+    boost::iostreams::stream< boost::iostreams::array_source > source(length == 0 ? "" : (char*)(value + offset), length);
 
     try {
         boost::iostreams::copy(source, outStream);
@@ -123,7 +123,7 @@ ByteArray CompressionTools::decompress(ByteArray value) {
     outStream.push(BufferArraySink(buffer, position, COMPRESS_BUFFER));
 
     //setup the source stream, and then copy it to the outStream
-    boost::iostreams::stream< boost::iostreams::array_source > source((char*)value.get(), value.size());
+    boost::iostreams::stream< boost::iostreams::array_source > source(value.size() == 0 ? "" : (char*)value.get(), value.size());
 
     try {
         boost::iostreams::copy(source, outStream);
-- 
2.43.0


From 7d007b61e637dc5a730d9998b8e5a7c320ca8bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:10 +0000
Subject: [PATCH 046/121] fix: a failing decompression wrote to released memory

---
 src/core/document/CompressionTools.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/core/document/CompressionTools.cpp b/src/core/document/CompressionTools.cpp
index b834253..9692473 100644
--- a/src/core/document/CompressionTools.cpp
+++ b/src/core/document/CompressionTools.cpp
@@ -70,14 +70,14 @@ CompressionTools::~CompressionTools() {
 }
 
 ByteArray CompressionTools::compress(uint8_t* value, int32_t offset, int32_t length, int32_t compressionLevel) {
+    // the output buffer, which the outStream still writes to when it is destroyed after a failure
+    ByteArray buffer(ByteArray::newInstance(COMPRESS_BUFFER));
+    std::streamsize position = 0;
+
     // setup the outStream
     boost::iostreams::filtering_ostreambuf outStream;
     boost::iostreams::zlib_compressor zcompressor(compressionLevel);
     outStream.push(zcompressor);
-
-    // and the output buffer
-    ByteArray buffer(ByteArray::newInstance(COMPRESS_BUFFER));
-    std::streamsize position = 0;
     outStream.push(BufferArraySink(buffer, position, COMPRESS_BUFFER));
 
     // setup the source stream, and then copy it to the outStream
@@ -113,13 +113,13 @@ ByteArray CompressionTools::compressString(const String& value, int32_t compress
 }
 
 ByteArray CompressionTools::decompress(ByteArray value) {
+    // the output buffer, which the outStream still writes to when it is destroyed after a failure
+    ByteArray buffer(ByteArray::newInstance(COMPRESS_BUFFER));
+    std::streamsize position = 0;
+
     // setup the outStream
     boost::iostreams::filtering_ostreambuf outStream;
     outStream.push(boost::iostreams::zlib_decompressor());
-
-    // and the output buffer
-    ByteArray buffer(ByteArray::newInstance(COMPRESS_BUFFER));
-    std::streamsize position = 0;
     outStream.push(BufferArraySink(buffer, position, COMPRESS_BUFFER));
 
     //setup the source stream, and then copy it to the outStream
-- 
2.43.0


From 7f8a11f9d59375ee4bd8917aad68f3f72e6eebee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:35 +0000
Subject: [PATCH 047/121] fix: NumericRangeQuery::getMax returned the lower
 bound

---
 src/core/search/NumericRangeQuery.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/search/NumericRangeQuery.cpp b/src/core/search/NumericRangeQuery.cpp
index 384abd2..e2108dc 100644
--- a/src/core/search/NumericRangeQuery.cpp
+++ b/src/core/search/NumericRangeQuery.cpp
@@ -109,7 +109,7 @@ NumericValue NumericRangeQuery::getMin() {
 }
 
 NumericValue NumericRangeQuery::getMax() {
-    return min;
+    return max;
 }
 
 LuceneObjectPtr NumericRangeQuery::clone(const LuceneObjectPtr& other) {
-- 
2.43.0


From 3ee3a42100d9fcbae7d498ddae5d11b09494546b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:15 +0000
Subject: [PATCH 048/121] fix: the stored value of a double in a NumericField
 was cut to six digits

---
 src/core/document/NumericField.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/core/document/NumericField.cpp b/src/core/document/NumericField.cpp
index da356a5..0caa413 100644
--- a/src/core/document/NumericField.cpp
+++ b/src/core/document/NumericField.cpp
@@ -10,6 +10,10 @@
 #include "NumericUtils.h"
 #include "NumericTokenStream.h"
 #include "StringUtils.h"
+#include "MiscUtils.h"
+#include "VariantUtils.h"
+#include <iomanip>
+#include <limits>
 
 namespace Lucene {
 
@@ -55,6 +59,14 @@ ReaderPtr NumericField::readerValue() {
 String NumericField::stringValue() {
     StringStream value;
     value << fieldsData;
+    if (VariantUtils::typeOf<double>(fieldsData)) {
+        // as many digits as it takes to get the same value back
+        double number = VariantUtils::get<double>(fieldsData);
+        for (int32_t digits = 7; digits <= std::numeric_limits<double>::max_digits10 && std::wcstod(value.str().c_str(), NULL) != number; ++digits) {
+            value.str(L"");
+            value << std::setprecision(digits) << number;
+        }
+    }
     return value.str();
 }
 
-- 
2.43.0


From 5175d7b5a3e7b4f8dc8eeef9522bac4ea9328bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:09 +0000
Subject: [PATCH 049/121] fix: stored fields hid read errors, closed readers
 and empty values behind missing or empty fields

---
 include/lucene++/FieldsReader.h |   2 +-
 src/core/index/FieldsReader.cpp | 394 +++++---------------------------
 2 files changed, 63 insertions(+), 333 deletions(-)

diff --git a/include/lucene++/FieldsReader.h b/include/lucene++/FieldsReader.h
index a524e0c..f072c4b 100644
--- a/include/lucene++/FieldsReader.h
+++ b/include/lucene++/FieldsReader.h
@@ -103,7 +103,7 @@ public:
     LUCENE_CLASS(LazyField);
 
 protected:
-    FieldsReaderWeakPtr _reader;
+    FieldsReaderPtr _reader;
     int32_t toRead;
     int64_t pointer;
 
diff --git a/src/core/index/FieldsReader.cpp b/src/core/index/FieldsReader.cpp
index 439b917..70845dd 100644
--- a/src/core/index/FieldsReader.cpp
+++ b/src/core/index/FieldsReader.cpp
@@ -22,6 +22,16 @@
 
 namespace Lucene {
 
+/// Read the given number of bytes of a stored value, into the given array if it is large enough.
+static ByteArray readFieldBytes(const IndexInputPtr& in, int32_t length, ByteArray result = ByteArray()) {
+    if (length < 0) {
+        boost::throw_exception(CorruptIndexException(L"Negative length of a stored field: " + StringUtils::toString(length)));
+    }
+    ByteArray bytes(result && result.size() >= length ? result : ByteArray::newInstance(length));
+    in->readBytes(bytes.get(), 0, length);
+    return bytes;
+}
+
 FieldsReader::FieldsReader(const FieldInfosPtr& fieldInfos, int32_t numTotalDocs, int32_t size, int32_t format,
                            int32_t formatSize, int32_t docStoreOffset, const IndexInputPtr& cloneableFieldsStream,
                            const IndexInputPtr& cloneableIndexStream) {
@@ -274,111 +284,27 @@ void FieldsReader::addFieldLazy(const DocumentPtr& doc, const FieldInfoPtr& fi,
 }
 
 void FieldsReader::addField(const DocumentPtr& doc, const FieldInfoPtr& fi, bool binary, bool compressed, bool tokenize) {
-    if (!doc || !fi) {
-        return;
-    }
-
     // we have a binary stored field, and it may be compressed
     if (binary) {
-        try {
-            int32_t toRead = fieldsStream->readVInt();
-            if (toRead < 0) {
-                return;
-            }
-            
-            ByteArray b;
-            try {
-                b = ByteArray::newInstance(toRead);
-                if (!b) {
-                    return;
-                }
-                
-                fieldsStream->readBytes(b.get(), 0, b.size());
-                
-                // Create field object outside the doc->add call to allow for null checking
-                FieldPtr field;
-                if (compressed) {
-                    try {
-                        ByteArray uncompressedData = uncompress(b);
-                        if (uncompressedData && uncompressedData.size() > 0) {
-                            field = newLucene<Field>(fi->name, uncompressedData, Field::STORE_YES);
-                        }
-                    } catch (...) {
-                        // Fall through to use original data
-                    }
-                    
-                    // If decompression failed or returned null, use the original binary data
-                    if (!field) {
-                        field = newLucene<Field>(fi->name, b, Field::STORE_YES);
-                    }
-                } else {
-                    field = newLucene<Field>(fi->name, b, Field::STORE_YES);
-                }
-                
-                // Add the field to document only if field creation was successful
-                if (field && doc) {
-                    doc->add(field);
-                }
-            } catch (...) {
-                // Skip field on error
-            }
-        } catch (...) {
-            // Skip field on error
-        }
+        ByteArray b(readFieldBytes(fieldsStream, fieldsStream->readVInt()));
+        doc->add(newLucene<Field>(fi->name, compressed ? uncompress(b) : b, Field::STORE_YES));
     } else {
         Field::Store store = Field::STORE_YES;
         Field::Index index = Field::toIndex(fi->isIndexed, tokenize);
         Field::TermVector termVector = Field::toTermVector(fi->storeTermVector, fi->storeOffsetWithTermVector, fi->storePositionWithTermVector);
 
-        try {
-            AbstractFieldPtr f;
-            
-            if (compressed) {
-                int32_t toRead = fieldsStream->readVInt();
-                if (toRead < 0) {
-                    return;
-                }
-                
-                ByteArray b;
-                try {
-                    b = ByteArray::newInstance(toRead);
-                    if (!b) {
-                        return;
-                    }
-                    
-                    fieldsStream->readBytes(b.get(), 0, b.size());
-                    
-                    try {
-                        String fieldValue = uncompressString(b);
-                        if (!fieldValue.empty()) {
-                            f = newLucene<Field>(fi->name, fieldValue, store, index, termVector);
-                        } else {
-                            f = newLucene<Field>(fi->name, L"", store, index, termVector);
-                        }
-                    } catch (...) {
-                        f = newLucene<Field>(fi->name, L"", store, index, termVector);
-                    }
-                } catch (...) {
-                    return;
-                }
-            } else {
-                try {
-                    String fieldValue = fieldsStream->readString();
-                    f = newLucene<Field>(fi->name, fieldValue, store, index, termVector);
-                } catch (...) {
-                    f = newLucene<Field>(fi->name, L"", store, index, termVector);
-                }
-            }
-            
-            // Set field properties and add to document only if field creation was successful
-            if (f && doc) {
-                f->setOmitTermFreqAndPositions(fi->omitTermFreqAndPositions);
-                f->setOmitNorms(fi->omitNorms);
-                doc->add(f);
-            }
-        } catch (...) {
-            // Skip field on error
+        String fieldValue;
+        if (compressed) {
+            ByteArray b(readFieldBytes(fieldsStream, fieldsStream->readVInt()));
+            fieldValue = uncompressString(b);
+        } else {
+            fieldValue = fieldsStream->readString();
         }
+
+        AbstractFieldPtr f(newLucene<Field>(fi->name, fieldValue, store, index, termVector));
+        f->setOmitTermFreqAndPositions(fi->omitTermFreqAndPositions);
+        f->setOmitNorms(fi->omitNorms);
+        doc->add(f);
     }
 }
 
@@ -395,47 +321,21 @@ int32_t FieldsReader::addFieldSize(const DocumentPtr& doc, const FieldInfoPtr& f
 }
 
 ByteArray FieldsReader::uncompress(ByteArray b) {
-    if (!b) {
-        return ByteArray::newInstance(0);
-    }
-    
     try {
-        if (b.size() == 0) {
-            return ByteArray::newInstance(0);
-        }
-        
-        ByteArray result = CompressionTools::decompress(b);
-        if (!result) {
-            return ByteArray::newInstance(0);
-        }
-        
-        return result;
-    } catch (...) {
-        // Return empty array on any exception
-        return ByteArray::newInstance(0);
+        return CompressionTools::decompress(b);
+    } catch (LuceneException& e) {
+        boost::throw_exception(CorruptIndexException(L"field data are in wrong format: " + e.getError()));
     }
+    return ByteArray();
 }
 
 String FieldsReader::uncompressString(ByteArray b) {
-    if (!b) {
-        return L"";
-    }
-    
     try {
-        if (b.size() == 0) {
-            return L"";
-        }
-        
-        String result = CompressionTools::decompressString(b);
-        if (result.empty()) {
-            return L"";
-        }
-        
-        return result;
-    } catch (...) {
-        // Return empty string on any exception
-        return L"";
+        return CompressionTools::decompressString(b);
+    } catch (LuceneException& e) {
+        boost::throw_exception(CorruptIndexException(L"field data are in wrong format: " + e.getError()));
     }
+    return L"";
 }
 
 LazyField::LazyField(const FieldsReaderPtr& reader, const String& name, Field::Store store, int32_t toRead, int64_t pointer, bool isBinary, bool isCompressed) :
@@ -489,116 +389,27 @@ TokenStreamPtr LazyField::tokenStreamValue() {
 
 String LazyField::stringValue() {
     FieldsReaderPtr reader(_reader);
-    if (!reader) {
-        return L"";
-    }
-    
-    try {
-        reader->ensureOpen();
-    } catch (...) {
-        return L"";
-    }
-    
+    reader->ensureOpen();
     if (_isBinary) {
         return L"";
-    } else {
-        if (VariantUtils::isNull(fieldsData)) {
-            IndexInputPtr localFieldsStream;
-            try {
-                localFieldsStream = getFieldStream();
-                if (!localFieldsStream) {
-                    fieldsData = String(L"");
-                    return L"";
-                }
-            } catch (...) {
-                fieldsData = String(L"");
-                return L"";
-            }
-            
-            try {
-                localFieldsStream->seek(pointer);
-                
-                // Check for invalid size
-                if (toRead <= 0) {
-                    fieldsData = String(L"");
-                    return L"";
-                }
-                
-                if (isCompressed) {
-                    try {
-                        ByteArray b(ByteArray::newInstance(toRead));
-                        if (!b) {
-                            fieldsData = String(L"");
-                            return L"";
-                        }
-                        
-                        localFieldsStream->readBytes(b.get(), 0, b.size());
-                        try {
-                            fieldsData = reader->uncompressString(b);
-                            if (VariantUtils::isNull(fieldsData)) {
-                                fieldsData = String(L"");
-                            }
-                        } catch (...) {
-                            fieldsData = String(L"");
-                        }
-                    } catch (...) {
-                        fieldsData = String(L"");
-                    }
-                } else {
-                    if (reader->format >= FieldsWriter::FORMAT_VERSION_UTF8_LENGTH_IN_BYTES) {
-                        try {
-                            ByteArray bytes(ByteArray::newInstance(toRead));
-                            if (!bytes) {
-                                fieldsData = String(L"");
-                                return L"";
-                            }
-                            
-                            localFieldsStream->readBytes(bytes.get(), 0, toRead);
-                            try {
-                                fieldsData = StringUtils::toUnicode(bytes.get(), toRead);
-                                if (VariantUtils::isNull(fieldsData)) {
-                                    fieldsData = String(L"");
-                                }
-                            } catch (...) {
-                                fieldsData = String(L"");
-                            }
-                        } catch (...) {
-                            fieldsData = String(L"");
-                        }
-                    } else {
-                        try {
-                            // read in chars because we already know the length we need to read
-                            CharArray chars(CharArray::newInstance(toRead));
-                            if (!chars) {
-                                fieldsData = String(L"");
-                                return L"";
-                            }
-                            
-                            int32_t length = localFieldsStream->readChars(chars.get(), 0, toRead);
-                            try {
-                                fieldsData = String(chars.get(), length);
-                                if (VariantUtils::isNull(fieldsData)) {
-                                    fieldsData = String(L"");
-                                }
-                            } catch (...) {
-                                fieldsData = String(L"");
-                            }
-                        } catch (...) {
-                            fieldsData = String(L"");
-                        }
-                    }
-                }
-            } catch (...) {
-                fieldsData = String(L"");
-            }
-        }
-        
-        try {
-            return VariantUtils::get<String>(fieldsData);
-        } catch (...) {
-            return L"";
+    }
+    if (VariantUtils::isNull(fieldsData)) {
+        IndexInputPtr localFieldsStream(getFieldStream());
+        localFieldsStream->seek(pointer);
+        if (isCompressed) {
+            ByteArray b(readFieldBytes(localFieldsStream, toRead));
+            fieldsData = reader->uncompressString(b);
+        } else if (reader->format >= FieldsWriter::FORMAT_VERSION_UTF8_LENGTH_IN_BYTES) {
+            ByteArray bytes(readFieldBytes(localFieldsStream, toRead));
+            fieldsData = StringUtils::toUnicode(bytes.get(), toRead);
+        } else {
+            // read in chars because we already know the length we need to read
+            CharArray chars(CharArray::newInstance(toRead));
+            int32_t length = localFieldsStream->readChars(chars.get(), 0, toRead);
+            fieldsData = String(chars.get(), length);
         }
     }
+    return VariantUtils::get<String>(fieldsData);
 }
 
 int64_t LazyField::getPointer() {
@@ -623,105 +434,24 @@ void LazyField::setToRead(int32_t toRead) {
 
 ByteArray LazyField::getBinaryValue(ByteArray result) {
     FieldsReaderPtr reader(_reader);
-    if (!reader) {
+    reader->ensureOpen();
+    if (!_isBinary) {
         return ByteArray();
     }
-
-    try {
-        reader->ensureOpen();
-    } catch (...) {
-        return ByteArray();
-    }
-
-    if (_isBinary) {
-        if (VariantUtils::isNull(fieldsData)) {
-            ByteArray b;
-
-            try {
-                // Check for invalid size
-                if (toRead <= 0) {
-                    fieldsData = ByteArray();
-                    binaryOffset = 0;
-                    binaryLength = 0;
-                    return ByteArray();
-                }
-                
-                // Allocate new buffer if result is null or too small
-                if (!result || result.size() < toRead) {
-                    b = ByteArray::newInstance(toRead);
-                    if (!b) {
-                        fieldsData = ByteArray();
-                        binaryOffset = 0;
-                        binaryLength = 0;
-                        return ByteArray();
-                    }
-                } else {
-                    b = result;
-                }
-
-                IndexInputPtr localFieldsStream;
-                try {
-                    localFieldsStream = getFieldStream();
-                    if (!localFieldsStream) {
-                        fieldsData = ByteArray();
-                        binaryOffset = 0;
-                        binaryLength = 0;
-                        return ByteArray();
-                    }
-                } catch (...) {
-                    fieldsData = ByteArray();
-                    binaryOffset = 0;
-                    binaryLength = 0;
-                    return ByteArray();
-                }
-
-                try {
-                    localFieldsStream->seek(pointer);
-                    localFieldsStream->readBytes(b.get(), 0, toRead);
-                    if (isCompressed) {
-                        try {
-                            ByteArray uncompressed = reader->uncompress(b);
-                            if (uncompressed && uncompressed.size() > 0) {
-                                fieldsData = uncompressed;
-                            } else {
-                                fieldsData = b;
-                            }
-                        } catch (...) {
-                            fieldsData = b;
-                        }
-                    } else {
-                        fieldsData = b;
-                    }
-                } catch (IOException&) {
-                    fieldsData = ByteArray();
-                    binaryOffset = 0;
-                    binaryLength = 0;
-                    return ByteArray();
-                } catch (...) {
-                    fieldsData = ByteArray();
-                    binaryOffset = 0;
-                    binaryLength = 0;
-                    return ByteArray();
-                }
-
-                binaryOffset = 0;
-                binaryLength = toRead;
-            } catch (...) {
-                fieldsData = ByteArray();
-                binaryOffset = 0;
-                binaryLength = 0;
-                return ByteArray();
-            }
-        }
-
-        try {
-            return VariantUtils::get<ByteArray>(fieldsData);
-        } catch (...) {
-            return ByteArray();
+    if (VariantUtils::isNull(fieldsData)) {
+        IndexInputPtr localFieldsStream(getFieldStream());
+        localFieldsStream->seek(pointer);
+        ByteArray b(readFieldBytes(localFieldsStream, toRead, isCompressed ? ByteArray() : result));
+        binaryOffset = 0;
+        if (isCompressed) {
+            b = reader->uncompress(b);
+            binaryLength = b.size();
+        } else {
+            binaryLength = toRead;
         }
-    } else {
-        return ByteArray();
+        fieldsData = b;
     }
+    return VariantUtils::get<ByteArray>(fieldsData);
 }
 
 }
-- 
2.43.0


From ba9f85f003bd622c74f7d715c0da211e3b3f70c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:09 +0000
Subject: [PATCH 050/121] fix: SortedTermVectorMapper took its setting for
 offsets from the one for positions

---
 src/core/index/SortedTermVectorMapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/index/SortedTermVectorMapper.cpp b/src/core/index/SortedTermVectorMapper.cpp
index a573b44..a4a47cb 100644
--- a/src/core/index/SortedTermVectorMapper.cpp
+++ b/src/core/index/SortedTermVectorMapper.cpp
@@ -21,7 +21,7 @@ SortedTermVectorMapper::SortedTermVectorMapper(TermVectorEntryComparator compara
 }
 
 SortedTermVectorMapper::SortedTermVectorMapper(bool ignoringPositions, bool ignoringOffsets, TermVectorEntryComparator comparator)
-    : TermVectorMapper(ignoringPositions, ignoringPositions) {
+    : TermVectorMapper(ignoringPositions, ignoringOffsets) {
     this->storeOffsets = false;
     this->storePositions = false;
     this->comparator = comparator;
-- 
2.43.0


From 718b7f898b91e227611544f14b31ea91cf1fe27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:09 +0000
Subject: [PATCH 051/121] fix: SortedTermVectorMapper left entries of several
 fields out of order

---
 src/core/index/SortedTermVectorMapper.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/index/SortedTermVectorMapper.cpp b/src/core/index/SortedTermVectorMapper.cpp
index a4a47cb..17e6431 100644
--- a/src/core/index/SortedTermVectorMapper.cpp
+++ b/src/core/index/SortedTermVectorMapper.cpp
@@ -43,7 +43,10 @@ void SortedTermVectorMapper::map(const String& term, int32_t frequency, Collecti
             currentSet.insert(std::upper_bound(currentSet.begin(), currentSet.end(), entry, comparator), entry);
         }
     } else {
+        // the frequency is part of the order of the entries
+        currentSet.remove(entry);
         entry->setFrequency(entry->getFrequency() + frequency);
+        currentSet.insert(std::upper_bound(currentSet.begin(), currentSet.end(), entry, comparator), entry);
         if (storeOffsets) {
             Collection<TermVectorOffsetInfoPtr> existingOffsets(entry->getOffsets());
             // A few diff. cases here:  offsets is null, existing offsets is null, both are null, same for positions
-- 
2.43.0


From bbcd35cd46db13e2ae87db850dd0c8dfa6f68816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:09 +0000
Subject: [PATCH 052/121] fix: PositionBasedTermVectorMapper kept only the last
 field of a document

---
 src/core/index/PositionBasedTermVectorMapper.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/index/PositionBasedTermVectorMapper.cpp b/src/core/index/PositionBasedTermVectorMapper.cpp
index 3bb8dde..e2f139c 100644
--- a/src/core/index/PositionBasedTermVectorMapper.cpp
+++ b/src/core/index/PositionBasedTermVectorMapper.cpp
@@ -38,7 +38,9 @@ void PositionBasedTermVectorMapper::setExpectations(const String& field, int32_t
     if (storeOffsets == true) {
         // ignoring offsets
     }
-    this->fieldToTerms = MapStringMapIntTermVectorsPositionInfo::newInstance();
+    if (!fieldToTerms) {
+        this->fieldToTerms = MapStringMapIntTermVectorsPositionInfo::newInstance();
+    }
     this->storeOffsets = storeOffsets;
     currentField = field;
     this->currentPositions = MapIntTermVectorsPositionInfo::newInstance();
-- 
2.43.0


From fbfa2e71cecc86e5ebff3f21a44775e0ea08b617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:47 +0000
Subject: [PATCH 053/121] fix: a term vector of frequencies only passed as one
 with positions or offsets

---
 include/lucene++/SegmentTermPositionVector.h | 3 ++-
 include/lucene++/SegmentTermVector.h         | 4 ++--
 include/lucene++/TermPositionVector.h        | 2 +-
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/lucene++/SegmentTermPositionVector.h b/include/lucene++/SegmentTermPositionVector.h
index fb9cc6a..8017003 100644
--- a/include/lucene++/SegmentTermPositionVector.h
+++ b/include/lucene++/SegmentTermPositionVector.h
@@ -8,10 +8,11 @@
 #define SEGMENTTERMPOSITIONVECTOR_H
 
 #include "SegmentTermVector.h"
+#include "TermPositionVector.h"
 
 namespace Lucene {
 
-class LPPAPI SegmentTermPositionVector : public SegmentTermVector {
+class LPPAPI SegmentTermPositionVector : public SegmentTermVector, public TermPositionVector {
 public:
     SegmentTermPositionVector(const String& field, Collection<String> terms, Collection<int32_t> termFreqs,
                               Collection< Collection<int32_t> > positions, Collection< Collection<TermVectorOffsetInfoPtr> > offsets);
diff --git a/include/lucene++/SegmentTermVector.h b/include/lucene++/SegmentTermVector.h
index d50a603..d703f37 100644
--- a/include/lucene++/SegmentTermVector.h
+++ b/include/lucene++/SegmentTermVector.h
@@ -7,11 +7,11 @@
 #ifndef SEGMENTTERMVECTOR_H
 #define SEGMENTTERMVECTOR_H
 
-#include "TermPositionVector.h"
+#include "TermFreqVector.h"
 
 namespace Lucene {
 
-class LPPAPI SegmentTermVector : public TermPositionVector, public LuceneObject {
+class LPPAPI SegmentTermVector : public virtual TermFreqVector, public LuceneObject {
 public:
     SegmentTermVector(const String& field, Collection<String> terms, Collection<int32_t> termFreqs);
     virtual ~SegmentTermVector();
diff --git a/include/lucene++/TermPositionVector.h b/include/lucene++/TermPositionVector.h
index e8d79ff..015c03d 100644
--- a/include/lucene++/TermPositionVector.h
+++ b/include/lucene++/TermPositionVector.h
@@ -13,7 +13,7 @@ namespace Lucene {
 
 /// Extends TermFreqVector to provide additional information about positions in which each of the terms is found. A TermPositionVector not necessarily
 /// contains both positions and offsets, but at least one of these arrays exists.
-class LPPAPI TermPositionVector : public TermFreqVector {
+class LPPAPI TermPositionVector : public virtual TermFreqVector {
 protected:
     TermPositionVector();
 
-- 
2.43.0


From c61b2635945072d3af9f486287b5a5694aebfb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:01 +0000
Subject: [PATCH 054/121] fix: parsing a date with a character beyond Latin-1
 read out of bounds

---
 src/core/document/DateTools.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/core/document/DateTools.cpp b/src/core/document/DateTools.cpp
index 87f7927..fd49737 100644
--- a/src/core/document/DateTools.cpp
+++ b/src/core/document/DateTools.cpp
@@ -190,6 +190,13 @@ boost::posix_time::ptime DateTools::parseDate(const String& dateString, std::loc
         break;
     }
 
+    // boost's parser classifies characters with isspace(), which is defined for single bytes only
+    for (String::const_iterator ch = paddedDate.begin(); ch != paddedDate.end(); ++ch) {
+        if (*ch < 0 || *ch > 255) {
+            boost::throw_exception(ParseException(L"Invalid date '" + dateString + L"'"));
+        }
+    }
+
     boost::date_time::format_date_parser<boost::gregorian::date, wchar_t> parser(L"", locale);
     boost::date_time::special_values_parser<boost::gregorian::date, wchar_t> svp;
 
-- 
2.43.0


From ffd64f65cc6e154490b6ee22f31309f6f889860a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:42 +0000
Subject: [PATCH 055/121] fix: some positive norms too small to represent were
 encoded as zero instead of the smallest value

---
 src/core/util/SmallDouble.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/util/SmallDouble.cpp b/src/core/util/SmallDouble.cpp
index 032611b..81d1dc6 100644
--- a/src/core/util/SmallDouble.cpp
+++ b/src/core/util/SmallDouble.cpp
@@ -29,7 +29,7 @@ uint8_t SmallDouble::doubleToByte(double f) {
         exponent = 31;
         mantissa = 7;
     }
-    if (exponent < 0) { // underflow: use min value
+    if (exponent < 0 || (exponent == 0 && mantissa == 0)) { // underflow: use min value
         exponent = 0;
         mantissa = 1;
     }
-- 
2.43.0


From 1eaac5d2c3f88f8d881c56170082cffff129043a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:51 +0000
Subject: [PATCH 056/121] fix: a field cache range filter printed its lower
 bound as both bounds

---
 src/core/include/_FieldCacheRangeFilter.h | 4 ++--
 src/core/search/FieldCacheRangeFilter.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/include/_FieldCacheRangeFilter.h b/src/core/include/_FieldCacheRangeFilter.h
index 941caeb..8c69947 100644
--- a/src/core/include/_FieldCacheRangeFilter.h
+++ b/src/core/include/_FieldCacheRangeFilter.h
@@ -123,8 +123,8 @@ public:
     virtual String toString() {
         StringStream buffer;
         buffer << field << L":" << (includeLower ? L"[" : L"{");
-        buffer << lowerVal << L" TO " << lowerVal;
-        buffer << (includeLower ? L"]" : L"}");
+        buffer << lowerVal << L" TO " << upperVal;
+        buffer << (includeUpper ? L"]" : L"}");
         return buffer.str();
     }
 
diff --git a/src/core/search/FieldCacheRangeFilter.cpp b/src/core/search/FieldCacheRangeFilter.cpp
index 7a3e1ae..e1f717c 100644
--- a/src/core/search/FieldCacheRangeFilter.cpp
+++ b/src/core/search/FieldCacheRangeFilter.cpp
@@ -134,8 +134,8 @@ DocIdSetPtr FieldCacheRangeFilterString::getDocIdSet(const IndexReaderPtr& reade
 String FieldCacheRangeFilterString::toString() {
     StringStream buffer;
     buffer << field << L":" << (includeLower ? L"[" : L"{");
-    buffer << lowerVal << L" TO " << lowerVal;
-    buffer << (includeLower ? L"]" : L"}");
+    buffer << lowerVal << L" TO " << upperVal;
+    buffer << (includeUpper ? L"]" : L"}");
     return buffer.str();
 }
 
-- 
2.43.0


From 7da1795d013558d8eb5bd53ea180959dd85b0571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:51 +0000
Subject: [PATCH 057/121] fix: sorts over equal fields were not equal

---
 src/core/search/Sort.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/search/Sort.cpp b/src/core/search/Sort.cpp
index fe2f25d..26043cd 100644
--- a/src/core/search/Sort.cpp
+++ b/src/core/search/Sort.cpp
@@ -76,7 +76,7 @@ bool Sort::equals(const LuceneObjectPtr& other) {
     if (!otherSort) {
         return false;
     }
-    return fields.equals(otherSort->fields);
+    return fields.equals(otherSort->fields, luceneEquals<SortFieldPtr>());
 }
 
 int32_t Sort::hashCode() {
-- 
2.43.0


From 1e8776d6d4c9b19994c71135db2fff5b925730b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:51 +0000
Subject: [PATCH 058/121] fix: a copied phrase query shared its terms with the
 original

---
 src/core/search/MultiPhraseQuery.cpp | 4 ++--
 src/core/search/PhraseQuery.cpp      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/search/MultiPhraseQuery.cpp b/src/core/search/MultiPhraseQuery.cpp
index e896824..7e477d6 100644
--- a/src/core/search/MultiPhraseQuery.cpp
+++ b/src/core/search/MultiPhraseQuery.cpp
@@ -176,8 +176,8 @@ LuceneObjectPtr MultiPhraseQuery::clone(const LuceneObjectPtr& other) {
     LuceneObjectPtr clone = other ? other : newLucene<MultiPhraseQuery>();
     MultiPhraseQueryPtr cloneQuery(boost::dynamic_pointer_cast<MultiPhraseQuery>(Query::clone(clone)));
     cloneQuery->field = field;
-    cloneQuery->termArrays = termArrays;
-    cloneQuery->positions = positions;
+    cloneQuery->termArrays = Collection< Collection<TermPtr> >::newInstance(termArrays.begin(), termArrays.end());
+    cloneQuery->positions = Collection<int32_t>::newInstance(positions.begin(), positions.end());
     cloneQuery->slop = slop;
     return cloneQuery;
 }
diff --git a/src/core/search/PhraseQuery.cpp b/src/core/search/PhraseQuery.cpp
index d31c02a..a1857af 100644
--- a/src/core/search/PhraseQuery.cpp
+++ b/src/core/search/PhraseQuery.cpp
@@ -139,8 +139,8 @@ LuceneObjectPtr PhraseQuery::clone(const LuceneObjectPtr& other) {
     LuceneObjectPtr clone = other ? other : newLucene<PhraseQuery>();
     PhraseQueryPtr cloneQuery(boost::dynamic_pointer_cast<PhraseQuery>(Query::clone(clone)));
     cloneQuery->field = field;
-    cloneQuery->terms = terms;
-    cloneQuery->positions = positions;
+    cloneQuery->terms = Collection<TermPtr>::newInstance(terms.begin(), terms.end());
+    cloneQuery->positions = Collection<int32_t>::newInstance(positions.begin(), positions.end());
     cloneQuery->maxPosition = maxPosition;
     cloneQuery->slop = slop;
     return cloneQuery;
-- 
2.43.0


From 08f77b5f770a8c8ebe778f84beb4f8fe59c2efea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:19 +0000
Subject: [PATCH 059/121] fix: multi-term queries whose boosts or similarities
 differ past float precision were equal

---
 src/core/search/FuzzyQuery.cpp     | 2 +-
 src/core/search/MultiTermQuery.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/search/FuzzyQuery.cpp b/src/core/search/FuzzyQuery.cpp
index 38e1bf2..7459448 100644
--- a/src/core/search/FuzzyQuery.cpp
+++ b/src/core/search/FuzzyQuery.cpp
@@ -165,7 +165,7 @@ bool FuzzyQuery::equals(const LuceneObjectPtr& other) {
     if (!otherFuzzyQuery) {
         return false;
     }
-    if (MiscUtils::doubleToIntBits(minimumSimilarity) != MiscUtils::doubleToIntBits(otherFuzzyQuery->minimumSimilarity)) {
+    if (MiscUtils::doubleToLongBits(minimumSimilarity) != MiscUtils::doubleToLongBits(otherFuzzyQuery->minimumSimilarity)) {
         return false;
     }
     if (prefixLength != otherFuzzyQuery->prefixLength) {
diff --git a/src/core/search/MultiTermQuery.cpp b/src/core/search/MultiTermQuery.cpp
index cb004e3..f08685b 100644
--- a/src/core/search/MultiTermQuery.cpp
+++ b/src/core/search/MultiTermQuery.cpp
@@ -119,7 +119,7 @@ bool MultiTermQuery::equals(const LuceneObjectPtr& other) {
     if (!otherMultiTermQuery) {
         return false;
     }
-    if (MiscUtils::doubleToIntBits(getBoost()) != MiscUtils::doubleToIntBits(otherMultiTermQuery->getBoost())) {
+    if (MiscUtils::doubleToLongBits(getBoost()) != MiscUtils::doubleToLongBits(otherMultiTermQuery->getBoost())) {
         return false;
     }
     if (!rewriteMethod->equals(otherMultiTermQuery->rewriteMethod)) {
-- 
2.43.0


From 189f83e9fde8fea8c54220ccbe2802d5838b8e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:45 +0000
Subject: [PATCH 060/121] fix: match-all queries scoring by different fields
 were equal

---
 src/core/search/MatchAllDocsQuery.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/search/MatchAllDocsQuery.cpp b/src/core/search/MatchAllDocsQuery.cpp
index 8b0364c..ebad4ec 100644
--- a/src/core/search/MatchAllDocsQuery.cpp
+++ b/src/core/search/MatchAllDocsQuery.cpp
@@ -37,7 +37,11 @@ String MatchAllDocsQuery::toString(const String& field) {
 }
 
 bool MatchAllDocsQuery::equals(const LuceneObjectPtr& other) {
-    return Query::equals(other);
+    if (!Query::equals(other)) {
+        return false;
+    }
+    MatchAllDocsQueryPtr otherMatchAllDocsQuery(boost::dynamic_pointer_cast<MatchAllDocsQuery>(other));
+    return (otherMatchAllDocsQuery && normsField == otherMatchAllDocsQuery->normsField);
 }
 
 int32_t MatchAllDocsQuery::hashCode() {
-- 
2.43.0


From ab09fba47fc54d77f28bd9d08ffd35d0cff5ded9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:54 +0000
Subject: [PATCH 061/121] fix: a copied payload-near query fell back to the
 default payload function

---
 src/core/search/payloads/PayloadNearQuery.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/search/payloads/PayloadNearQuery.cpp b/src/core/search/payloads/PayloadNearQuery.cpp
index 7283a02..669bce6 100644
--- a/src/core/search/payloads/PayloadNearQuery.cpp
+++ b/src/core/search/payloads/PayloadNearQuery.cpp
@@ -41,7 +41,7 @@ LuceneObjectPtr PayloadNearQuery::clone(const LuceneObjectPtr& other) {
         newClauses[i] = boost::dynamic_pointer_cast<SpanQuery>(clauses[i]->clone());
     }
 
-    PayloadNearQueryPtr payloadNearQuery(newLucene<PayloadNearQuery>(newClauses, slop, inOrder));
+    PayloadNearQueryPtr payloadNearQuery(newLucene<PayloadNearQuery>(newClauses, slop, inOrder, function));
     payloadNearQuery->setBoost(getBoost());
     return payloadNearQuery;
 }
-- 
2.43.0


From 4583e89157ba0cfabc1e32ca2d98412a787627fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:27 +0000
Subject: [PATCH 062/121] fix: a span-near query equalled a payload-near query
 of the same parts, but not the other way round

---
 src/core/search/spans/SpanNearQuery.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/search/spans/SpanNearQuery.cpp b/src/core/search/spans/SpanNearQuery.cpp
index 0c95d8d..55e85b3 100644
--- a/src/core/search/spans/SpanNearQuery.cpp
+++ b/src/core/search/spans/SpanNearQuery.cpp
@@ -118,6 +118,9 @@ bool SpanNearQuery::equals(const LuceneObjectPtr& other) {
     if (LuceneObject::equals(other)) {
         return true;
     }
+    if (!other || !MiscUtils::equalTypes(shared_from_this(), other)) {
+        return false;
+    }
 
     SpanNearQueryPtr otherQuery(boost::dynamic_pointer_cast<SpanNearQuery>(other));
     if (!otherQuery) {
-- 
2.43.0


From 0e26b5cdb87d6fefe5e0ad507dcdc7bc0bddda0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:53 +0000
Subject: [PATCH 063/121] fix: a RAM input seeked to or past its end read stale
 bytes instead of failing

---
 src/core/store/RAMInputStream.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/core/store/RAMInputStream.cpp b/src/core/store/RAMInputStream.cpp
index 0cf173e..bac3da9 100644
--- a/src/core/store/RAMInputStream.cpp
+++ b/src/core/store/RAMInputStream.cpp
@@ -75,19 +75,22 @@ void RAMInputStream::readBytes(uint8_t* b, int32_t offset, int32_t length) {
 }
 
 void RAMInputStream::switchCurrentBuffer(bool enforceEOF) {
-    if (currentBufferIndex >= file->numBuffers()) {
-        // end of file reached, no more buffers left
+    int64_t start = (int64_t)BUFFER_SIZE * (int64_t)currentBufferIndex;
+    if (currentBufferIndex >= file->numBuffers() || start >= _length) {
+        // end of file reached, no more bytes left
         if (enforceEOF) {
+            --currentBufferIndex;
             boost::throw_exception(IOException(L"Read past EOF"));
         } else {
             // force eof if a read takes place at this position
-            --currentBufferIndex;
-            bufferPosition = BUFFER_SIZE;
+            bufferPosition = 0;
+            bufferStart = start;
+            bufferLength = 0;
         }
     } else {
         currentBuffer = file->getBuffer(currentBufferIndex);
         bufferPosition = 0;
-        bufferStart = (int64_t)BUFFER_SIZE * (int64_t)currentBufferIndex;
+        bufferStart = start;
         int64_t buflen = _length - bufferStart;
         bufferLength = buflen > BUFFER_SIZE ? BUFFER_SIZE : (int32_t)buflen;
     }
@@ -98,7 +101,7 @@ int64_t RAMInputStream::getFilePointer() {
 }
 
 void RAMInputStream::seek(int64_t pos) {
-    if (!currentBuffer || (int32_t)pos < bufferStart || (int32_t)pos >= bufferStart + BUFFER_SIZE) {
+    if (!currentBuffer || pos < bufferStart || pos >= bufferStart + BUFFER_SIZE) {
         currentBufferIndex = (int32_t)(pos / BUFFER_SIZE);
         switchCurrentBuffer(false);
     }
-- 
2.43.0


From eba765b21a88deb7ac0c80f0ca9484943c775235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:53 +0000
Subject: [PATCH 064/121] fix: reading a closed file through its input never
 returned

---
 src/core/store/SimpleFSDirectory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/store/SimpleFSDirectory.cpp b/src/core/store/SimpleFSDirectory.cpp
index 88d3949..2f0491d 100644
--- a/src/core/store/SimpleFSDirectory.cpp
+++ b/src/core/store/SimpleFSDirectory.cpp
@@ -119,7 +119,7 @@ void SimpleFSIndexInput::readInternal(uint8_t* b, int32_t offset, int32_t length
         int32_t readLength = total + chunkSize > length ? length - total : chunkSize;
 
         int32_t i = file->read(b, offset + total, readLength);
-        if (i == InputFile::FILE_EOF) {
+        if (i <= 0) {
             boost::throw_exception(IOException(L"Read past EOF"));
         }
         total += i;
-- 
2.43.0


From a3f604dc8123384c661c3d719619a08e3f780e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:53 +0000
Subject: [PATCH 065/121] fix: a file that could not be created or written in
 full went unnoticed

---
 src/core/store/SimpleFSDirectory.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/core/store/SimpleFSDirectory.cpp b/src/core/store/SimpleFSDirectory.cpp
index 2f0491d..96dc663 100644
--- a/src/core/store/SimpleFSDirectory.cpp
+++ b/src/core/store/SimpleFSDirectory.cpp
@@ -156,6 +156,9 @@ LuceneObjectPtr SimpleFSIndexInput::clone(const LuceneObjectPtr& other) {
 OutputFile::OutputFile(const String& path) {
     this->path = path;
     file = newInstance<boost::filesystem::ofstream>(path, std::ios::binary | std::ios::out);
+    if (!file->is_open()) {
+        boost::throw_exception(IOException(L"Cannot create: " + path));
+    }
 }
 
 OutputFile::~OutputFile() {
@@ -211,8 +214,13 @@ SimpleFSIndexOutput::~SimpleFSIndexOutput() {
 }
 
 void SimpleFSIndexOutput::flushBuffer(const uint8_t* b, int32_t offset, int32_t length) {
-    file->write(b, offset, length);
+    if (!file->write(b, offset, length)) {
+        boost::throw_exception(IOException(L"Write failure"));
+    }
     file->flush();
+    if (!file->isValid()) {
+        boost::throw_exception(IOException(L"Write failure"));
+    }
 }
 
 void SimpleFSIndexOutput::close() {
-- 
2.43.0


From abefcebca7aacf48af5e53a23e860fbffeaa9c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:54 +0000
Subject: [PATCH 066/121] fix: copying a directory hid the failure to write out
 the end of a file

---
 src/core/store/Directory.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/store/Directory.cpp b/src/core/store/Directory.cpp
index f7a6c4b..4ca57c5 100644
--- a/src/core/store/Directory.cpp
+++ b/src/core/store/Directory.cpp
@@ -96,7 +96,10 @@ void Directory::copy(const DirectoryPtr& src, const DirectoryPtr& dest, bool clo
             if (os) {
                 os->close();
             }
-        } catch (...) {
+        } catch (LuceneException& e) {
+            if (finally.isNull()) {
+                finally = e;
+            }
         }
         try {
             if (is) {
-- 
2.43.0


From 997656accecac5c49a155e4d652eaea8ab316138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:21 +0000
Subject: [PATCH 067/121] fix: a clone of a near-real-time reader showed what
 its writer did later, and such readers told wrong whether they are current

---
 include/lucene++/DirectoryReader.h |  2 ++
 include/lucene++/IndexWriter.h     |  3 ++-
 src/core/index/DirectoryReader.cpp | 33 +++++++++++++++++++++++++-----
 src/core/index/IndexWriter.cpp     |  8 +++++++-
 4 files changed, 39 insertions(+), 7 deletions(-)

diff --git a/include/lucene++/DirectoryReader.h b/include/lucene++/DirectoryReader.h
index dfe1944..d54bbdf 100644
--- a/include/lucene++/DirectoryReader.h
+++ b/include/lucene++/DirectoryReader.h
@@ -42,6 +42,8 @@ protected:
     LockPtr writeLock;
     SegmentInfosPtr segmentInfos;
     SegmentInfosPtr segmentInfosStart;
+    SegmentInfosPtr writerInfos; // what the writer that gave out this reader works on
+    int64_t changeCountStart; // changes completed by the writer when it gave out this reader
     bool stale;
     int32_t termInfosIndexDivisor;
 
diff --git a/include/lucene++/IndexWriter.h b/include/lucene++/IndexWriter.h
index d97012f..557e20b 100644
--- a/include/lucene++/IndexWriter.h
+++ b/include/lucene++/IndexWriter.h
@@ -950,7 +950,7 @@ public:
     ///   startMergeInit
     virtual bool testPoint(const String& name);
 
-    virtual bool nrtIsCurrent(const SegmentInfosPtr& infos);
+    virtual bool nrtIsCurrent(const SegmentInfosPtr& infos, int64_t changeCount);
     virtual bool isClosed();
 
 protected:
@@ -1092,6 +1092,7 @@ protected:
     virtual LuceneException handleOOM(const std::bad_alloc& oom, const String& location);
 
     friend class ReaderPool;
+    friend class DirectoryReader;
 };
 
 /// If {@link #getReader} has been called (ie, this writer is in near real-time mode), then after
diff --git a/src/core/index/DirectoryReader.cpp b/src/core/index/DirectoryReader.cpp
index 11a9dfc..cfe3a31 100644
--- a/src/core/index/DirectoryReader.cpp
+++ b/src/core/index/DirectoryReader.cpp
@@ -37,6 +37,7 @@ DirectoryReader::DirectoryReader(const DirectoryPtr& directory, const SegmentInf
     synced = HashSet<String>::newInstance();
     stale = false;
     rollbackHasChanges = false;
+    changeCountStart = 0;
 
     this->_directory = directory;
     this->readOnly = readOnly;
@@ -89,11 +90,15 @@ DirectoryReader::DirectoryReader(const IndexWriterPtr& writer, const SegmentInfo
     synced = HashSet<String>::newInstance();
     stale = false;
     rollbackHasChanges = false;
+    changeCountStart = 0;
 
     this->_directory = writer->getDirectory();
     this->readOnly = true;
-    this->segmentInfos = infos;
-    this->segmentInfosStart = boost::dynamic_pointer_cast<SegmentInfos>(infos->clone());
+    // make sure we clone, otherwise we share mutable state with the writer
+    this->segmentInfos = boost::dynamic_pointer_cast<SegmentInfos>(infos->clone());
+    this->segmentInfosStart = this->segmentInfos;
+    this->writerInfos = infos;
+    this->changeCountStart = writer->changeCount;
     this->termInfosIndexDivisor = termInfosIndexDivisor;
 
     if (!readOnly) {
@@ -156,6 +161,7 @@ DirectoryReader::DirectoryReader(const DirectoryPtr& directory, const SegmentInf
     synced = HashSet<String>::newInstance();
     stale = false;
     rollbackHasChanges = false;
+    changeCountStart = 0;
 
     this->_directory = directory;
     this->readOnly = readOnly;
@@ -314,6 +320,9 @@ LuceneObjectPtr DirectoryReader::clone(bool openReadOnly, const LuceneObjectPtr&
     }
 
     newReader->_writer = _writer;
+    newReader->segmentInfosStart = segmentInfosStart;
+    newReader->writerInfos = writerInfos;
+    newReader->changeCountStart = changeCountStart;
 
     // If we're cloning a non-readOnly reader, move the writeLock (if there is one) to the new reader
     if (!openReadOnly && writeLock) {
@@ -722,10 +731,24 @@ bool DirectoryReader::isCurrent() {
     ensureOpen();
     IndexWriterPtr writer(_writer.lock());
     if (!writer || writer->isClosed()) {
-        // we loaded SegmentInfos from the directory
-        return (SegmentInfos::readCurrentVersion(_directory) == segmentInfos->getVersion());
+        if (!writerInfos) {
+            // we loaded SegmentInfos from the directory
+            return (SegmentInfos::readCurrentVersion(_directory) == segmentInfos->getVersion());
+        }
+        // Our writer is gone: we are current if the latest commit is its last one, and holds exactly what we show
+        SegmentInfosPtr current(newLucene<SegmentInfos>());
+        current->read(_directory);
+        if (current->getVersion() != writerInfos->getVersion() || !current->equals(segmentInfos) || subReaders.size() != current->size()) {
+            return false;
+        }
+        for (int32_t i = 0; i < subReaders.size(); ++i) {
+            if (subReaders[i]->numDeletedDocs() != current->info(i)->getDelCount()) {
+                return false;
+            }
+        }
+        return true;
     } else {
-        return writer->nrtIsCurrent(segmentInfosStart);
+        return writer->nrtIsCurrent(segmentInfosStart, changeCountStart);
     }
 }
 
diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index 949f1c5..a593670 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -1482,6 +1482,9 @@ void IndexWriter::rollbackInternal() {
         // Don't bother saving any changes in our segmentInfos
         readerPool->clear(SegmentInfosPtr());
 
+        // The last commit stays what the readers we gave out are compared with
+        segmentInfos->updateGeneration(rollbackSegmentInfos);
+
         lastCommitChangeCount = changeCount;
 
         success = true;
@@ -3357,7 +3360,7 @@ bool IndexWriter::testPoint(const String& name) {
     return true;
 }
 
-bool IndexWriter::nrtIsCurrent(const SegmentInfosPtr& infos) {
+bool IndexWriter::nrtIsCurrent(const SegmentInfosPtr& infos, int64_t changeCount) {
     SyncLock syncLock(this);
     if (!infos->equals(segmentInfos)) {
         // if any structural changes (new segments), we are stale
@@ -3365,6 +3368,9 @@ bool IndexWriter::nrtIsCurrent(const SegmentInfosPtr& infos) {
     } else if (infos->getGeneration() != segmentInfos->getGeneration()) {
         // if any commit took place since we were opened, we are stale
         return false;
+    } else if (changeCount != this->changeCount) {
+        // if any deletes were applied since we were opened, we are stale
+        return false;
     } else {
         return !docWriter->anyChanges();
     }
-- 
2.43.0


From 11d99c4c1ac6ad333bd49da8fbae7088d459101e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:52 +0000
Subject: [PATCH 068/121] fix: reopening a near-real-time reader whose writer
 is gone kept changes that were never committed

---
 src/core/index/DirectoryReader.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/index/DirectoryReader.cpp b/src/core/index/DirectoryReader.cpp
index cfe3a31..9a7014b 100644
--- a/src/core/index/DirectoryReader.cpp
+++ b/src/core/index/DirectoryReader.cpp
@@ -375,6 +375,9 @@ IndexReaderPtr DirectoryReader::doReopen(bool openReadOnly, const IndexCommitPtr
     // If we were obtained by writer.getReader(), re-ask the writer to get a new reader.
     if (writer) {
         return doReopenFromWriter(openReadOnly, commit);
+    } else if (segmentInfosStart) {
+        // Our writer is gone: our segments may hold changes that were never committed, so nothing of ours can be reused
+        return DirectoryReader::open(_directory, deletionPolicy, commit, openReadOnly, termInfosIndexDivisor);
     } else {
         return doReopenNoWriter(openReadOnly, commit);
     }
-- 
2.43.0


From 985fb2ee11cf2daa456cf7675578c3aeef28accb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:36 +0000
Subject: [PATCH 069/121] fix: a clone of an outdated reader could modify the
 index, losing the commits made since

---
 src/core/index/DirectoryReader.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/index/DirectoryReader.cpp b/src/core/index/DirectoryReader.cpp
index 9a7014b..ffbc70b 100644
--- a/src/core/index/DirectoryReader.cpp
+++ b/src/core/index/DirectoryReader.cpp
@@ -324,6 +324,12 @@ LuceneObjectPtr DirectoryReader::clone(bool openReadOnly, const LuceneObjectPtr&
     newReader->writerInfos = writerInfos;
     newReader->changeCountStart = changeCountStart;
 
+    if (!openReadOnly) {
+        // A clone is as old as this reader: it must not modify the index either once a newer commit exists
+        newReader->maxIndexVersion = readOnly ? segmentInfos->getVersion() : maxIndexVersion;
+        newReader->stale = stale;
+    }
+
     // If we're cloning a non-readOnly reader, move the writeLock (if there is one) to the new reader
     if (!openReadOnly && writeLock) {
         // In near real-time search, reader is always readonly
-- 
2.43.0


From 4b713e56b2a439cc01427ec5d7a98f51f9974374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:02 +0000
Subject: [PATCH 070/121] fix: setting a norm in a reader showed in its clones

---
 src/core/index/SegmentReader.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/core/index/SegmentReader.cpp b/src/core/index/SegmentReader.cpp
index 201da19..af18023 100644
--- a/src/core/index/SegmentReader.cpp
+++ b/src/core/index/SegmentReader.cpp
@@ -491,6 +491,15 @@ void SegmentReader::doSetNorm(int32_t doc, const String& field, uint8_t value) {
         return;
     }
 
+    if (norm->refCount > 1) {
+        // Clones of this reader still load their norms through this instance, so it must stay as it is
+        NormPtr headNorm(boost::dynamic_pointer_cast<Norm>(norm->clone()));
+        headNorm->_reader = shared_from_this();
+        _norms.put(field, headNorm);
+        norm->decRef();
+        norm = headNorm;
+    }
+
     normsDirty = true;
     ByteArray bytes(norm->copyOnWrite());
     if (doc < 0 || doc >= bytes.size()) {
-- 
2.43.0


From 148a0857a24578d9be4c5b9d5cd33137fe4ce8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:08 +0000
Subject: [PATCH 071/121] fix: committing through a reader opened on an older
 commit made later writers reuse segment names of newer commits

---
 src/core/index/DirectoryReader.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/index/DirectoryReader.cpp b/src/core/index/DirectoryReader.cpp
index ffbc70b..bd531f1 100644
--- a/src/core/index/DirectoryReader.cpp
+++ b/src/core/index/DirectoryReader.cpp
@@ -664,6 +664,8 @@ void DirectoryReader::doCommit(MapStringString commitUserData) {
         // Default deleter (for backwards compatibility) is KeepOnlyLastCommitDeleter
         IndexFileDeleterPtr deleter(newLucene<IndexFileDeleter>(_directory, deletionPolicy ? deletionPolicy : newLucene<KeepOnlyLastCommitDeletionPolicy>(), segmentInfos, InfoStreamPtr(), DocumentsWriterPtr(), synced));
         segmentInfos->updateGeneration(deleter->getLastSegmentInfos());
+        // If we were opened on an older commit, segment names given out since then must not be given out again
+        segmentInfos->counter = std::max(segmentInfos->counter, deleter->getLastSegmentInfos()->counter);
 
         // Checkpoint the state we are about to change, in case we have to roll back
         startCommit();
-- 
2.43.0


From 55a1c755e5150c83f4e0c02e320d0c8d4e33e52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:24 +0000
Subject: [PATCH 072/121] fix: a reader whose commit failed told wrong whether
 it is current

---
 src/core/index/DirectoryReader.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/index/DirectoryReader.cpp b/src/core/index/DirectoryReader.cpp
index bd531f1..d9efe4d 100644
--- a/src/core/index/DirectoryReader.cpp
+++ b/src/core/index/DirectoryReader.cpp
@@ -663,6 +663,7 @@ void DirectoryReader::doCommit(MapStringString commitUserData) {
 
         // Default deleter (for backwards compatibility) is KeepOnlyLastCommitDeleter
         IndexFileDeleterPtr deleter(newLucene<IndexFileDeleter>(_directory, deletionPolicy ? deletionPolicy : newLucene<KeepOnlyLastCommitDeletionPolicy>(), segmentInfos, InfoStreamPtr(), DocumentsWriterPtr(), synced));
+        SegmentInfosPtr infosBefore(boost::dynamic_pointer_cast<SegmentInfos>(segmentInfos->clone()));
         segmentInfos->updateGeneration(deleter->getLastSegmentInfos());
         // If we were opened on an older commit, segment names given out since then must not be given out again
         segmentInfos->counter = std::max(segmentInfos->counter, deleter->getLastSegmentInfos()->counter);
@@ -698,6 +699,7 @@ void DirectoryReader::doCommit(MapStringString commitUserData) {
             // committed.  This way this reader instance remains consistent (matched to what's
             // actually in the index)
             rollbackCommit();
+            segmentInfos->updateGeneration(infosBefore);
 
             // Recompute deletable files & remove them (so partially written .del files, etc,
             // are removed)
-- 
2.43.0


From bcae3b8f98fc24d091df85465cacb490cef641ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:15 +0000
Subject: [PATCH 073/121] fix: a reader with changes that were never committed,
 or its clone, kept showing them after it was reopened on a later commit

---
 include/lucene++/SegmentReader.h |  1 +
 src/core/index/SegmentReader.cpp | 10 ++++++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/lucene++/SegmentReader.h b/include/lucene++/SegmentReader.h
index 445262a..c1a2d34 100644
--- a/include/lucene++/SegmentReader.h
+++ b/include/lucene++/SegmentReader.h
@@ -44,6 +44,7 @@ private:
     int32_t readBufferSize;
     bool deletedDocsDirty;
     bool normsDirty;
+    bool deletesUncommitted; // deletedDocs holds changes of the reader this is a clone of
     int32_t pendingDeleteCount;
 
     bool rollbackHasChanges;
diff --git a/src/core/index/SegmentReader.cpp b/src/core/index/SegmentReader.cpp
index af18023..5afa9cf 100644
--- a/src/core/index/SegmentReader.cpp
+++ b/src/core/index/SegmentReader.cpp
@@ -37,6 +37,7 @@ SegmentReader::SegmentReader() {
     readOnly = false;
     deletedDocsDirty = false;
     normsDirty = false;
+    deletesUncommitted = false;
     rollbackHasChanges = false;
     rollbackDeletedDocsDirty = false;
     rollbackNormsDirty = false;
@@ -141,14 +142,17 @@ LuceneObjectPtr SegmentReader::clone(bool openReadOnly, const LuceneObjectPtr& o
 SegmentReaderPtr SegmentReader::reopenSegment(const SegmentInfoPtr& si, bool doClone, bool openReadOnly) {
     SyncLock syncLock(this);
 
-    bool deletionsUpToDate = (this->si->hasDeletions() == si->hasDeletions() &&
+    // Pending changes (or those we had from another reader) may never be committed: only a clone shares them
+    bool deletesPending = deletedDocsDirty || deletesUncommitted;
+    bool deletionsUpToDate = (doClone || !deletesPending) && (this->si->hasDeletions() == si->hasDeletions() &&
                               (!si->hasDeletions() || this->si->getDelFileName() == si->getDelFileName()));
     bool normsUpToDate = true;
     int32_t fieldCount = core->fieldInfos->size();
     Collection<uint8_t> fieldNormsChanged(Collection<uint8_t>::newInstance(fieldCount));
 
     for (int32_t i = 0; i < fieldCount; ++i) {
-        if (this->si->getNormFileName(i) != si->getNormFileName(i)) {
+        NormPtr norm(_norms.get(core->fieldInfos->fieldInfo(i)->name));
+        if (this->si->getNormFileName(i) != si->getNormFileName(i) || (!doClone && norm && norm->dirty)) {
             normsUpToDate = false;
             fieldNormsChanged[i] = true;
         }
@@ -190,6 +194,7 @@ SegmentReaderPtr SegmentReader::reopenSegment(const SegmentInfoPtr& si, bool doC
                 clone->deletedDocs = deletedDocs;
                 clone->deletedDocsRef = deletedDocsRef;
             }
+            clone->deletesUncommitted = deletesPending;
         } else {
             if (!deletionsUpToDate) {
                 // load deleted docs
@@ -293,6 +298,7 @@ void SegmentReader::commitChanges(MapStringString commitUserData) {
         }
     }
     deletedDocsDirty = false;
+    deletesUncommitted = false;
     normsDirty = false;
     _hasChanges = false;
 }
-- 
2.43.0


From 8d203dec3e1ee4acaf1d8a195012e4c9cb494c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:26 +0000
Subject: [PATCH 074/121] fix: a parallel reader's count of live documents
 ignored deletions made through it

---
 src/core/index/ParallelReader.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/index/ParallelReader.cpp b/src/core/index/ParallelReader.cpp
index 3643e17..b941415 100644
--- a/src/core/index/ParallelReader.cpp
+++ b/src/core/index/ParallelReader.cpp
@@ -48,8 +48,8 @@ void ParallelReader::add(const IndexReaderPtr& reader, bool ignoreStoredFields)
         boost::throw_exception(IllegalArgumentException(L"All readers must have same maxDoc: " + StringUtils::toString(_maxDoc) +
                                L" != " + StringUtils::toString(reader->maxDoc())));
     }
-    if (reader->numDocs() != _numDocs) {
-        boost::throw_exception(IllegalArgumentException(L"All readers must have same numDocs: " + StringUtils::toString(_numDocs) +
+    if (reader->numDocs() != numDocs()) {
+        boost::throw_exception(IllegalArgumentException(L"All readers must have same numDocs: " + StringUtils::toString(numDocs()) +
                                L" != " + StringUtils::toString(reader->numDocs())));
     }
 
@@ -155,7 +155,7 @@ IndexReaderPtr ParallelReader::doReopen(bool doClone) {
 
 int32_t ParallelReader::numDocs() {
     // Don't call ensureOpen() here (it could affect performance)
-    return _numDocs;
+    return readers.empty() ? _numDocs : readers[0]->numDocs();
 }
 
 int32_t ParallelReader::maxDoc() {
-- 
2.43.0


From 3014b432e60bcddd95b515aa38d15f6558a32aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:07 +0000
Subject: [PATCH 075/121] fix: setting a norm through a parallel reader was
 never locked nor committed

---
 src/core/index/ParallelReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/index/ParallelReader.cpp b/src/core/index/ParallelReader.cpp
index b941415..fa2ea7e 100644
--- a/src/core/index/ParallelReader.cpp
+++ b/src/core/index/ParallelReader.cpp
@@ -276,7 +276,7 @@ void ParallelReader::doSetNorm(int32_t doc, const String& field, uint8_t value)
     ensureOpen();
     MapStringIndexReader::iterator reader = fieldToReader.find(field);
     if (reader != fieldToReader.end()) {
-        reader->second->doSetNorm(doc, field, value);
+        reader->second->setNorm(doc, field, value);
     }
 }
 
-- 
2.43.0


From f0531ba93079f4f89d2f2b2769b09ff5f817e701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:47 +0000
Subject: [PATCH 076/121] fix: a reader reopened where norms had been changed
 could read the norms of another field

---
 src/core/index/SegmentReader.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/index/SegmentReader.cpp b/src/core/index/SegmentReader.cpp
index 5afa9cf..f04f518 100644
--- a/src/core/index/SegmentReader.cpp
+++ b/src/core/index/SegmentReader.cpp
@@ -534,6 +534,9 @@ void SegmentReader::openNorms(const DirectoryPtr& cfsDir, int32_t readBufferSize
         if (_norms.contains(fi->name)) {
             // in case this SegmentReader is being re-opened, we might be able to reuse some norm
             // instances and skip loading them here
+            if (fi->isIndexed && !fi->omitNorms) {
+                nextNormSeek += _maxDoc;
+            }
             continue;
         }
         if (fi->isIndexed && !fi->omitNorms) {
-- 
2.43.0


From bbb15523a70472522083ab18e857b575d8cf65ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:22 +0000
Subject: [PATCH 077/121] fix: the writer and its file deleter guarded the set
 of synced files by different locks

---
 src/core/index/IndexWriter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index a593670..7024dd7 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -134,6 +134,7 @@ void IndexWriter::initialize() {
     mergingSegments = SetSegmentInfo::newInstance();
     runningMerges = SetOneMerge::newInstance();
     synced = HashSet<String>::newInstance();
+    synced.getSync(); // create the lock now: the copy the deleter gets has to share it
     syncing = HashSet<String>::newInstance();
     changeCount = 0;
     lastCommitChangeCount = 0;
-- 
2.43.0


From ad5eebd81f0b416c94ec5e61befbcf66e18a0ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:26 +0000
Subject: [PATCH 078/121] fix: simple file locks were given to everybody who
 asked

---
 src/core/store/SimpleFSLockFactory.cpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/core/store/SimpleFSLockFactory.cpp b/src/core/store/SimpleFSLockFactory.cpp
index fcbbc61..112baf6 100644
--- a/src/core/store/SimpleFSLockFactory.cpp
+++ b/src/core/store/SimpleFSLockFactory.cpp
@@ -6,6 +6,13 @@
 
 #include "LuceneInc.h"
 #include <boost/filesystem/fstream.hpp>
+#include <fcntl.h>
+#if defined(_WIN32) || defined(_WIN64)
+#include <io.h>
+#include <sys/stat.h>
+#else
+#include <unistd.h>
+#endif
 #include "SimpleFSLockFactory.h"
 #include "_SimpleFSLockFactory.h"
 #include "FileUtils.h"
@@ -53,12 +60,20 @@ bool SimpleFSLock::obtain() {
     } else if (!FileUtils::isDirectory(lockDir)) {
         boost::throw_exception(RuntimeException(L"Found regular file where directory expected: " + lockDir));
     }
-    boost::filesystem::ofstream f;
-    try {
-        f.open(FileUtils::joinPath(lockDir, lockFile), std::ios::binary | std::ios::out);
-    } catch (...) {
+    // The lock is ours only if it is us who create the file
+    boost::filesystem::path path(FileUtils::joinPath(lockDir, lockFile));
+#if defined(_WIN32) || defined(_WIN64)
+    int fd = ::_wopen(path.c_str(), _O_CREAT | _O_EXCL | _O_WRONLY, _S_IREAD | _S_IWRITE);
+    if (fd != -1) {
+        ::_close(fd);
     }
-    return f.is_open();
+#else
+    int fd = ::open(path.c_str(), O_CREAT | O_EXCL | O_WRONLY, 0666);
+    if (fd != -1) {
+        ::close(fd);
+    }
+#endif
+    return fd != -1;
 }
 
 void SimpleFSLock::release() {
-- 
2.43.0


From 6ca0999e770806c0cb5d43ef227fe55078e803ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:26 +0000
Subject: [PATCH 079/121] fix: a native lock could be taken twice through
 different spellings of the directory's path

---
 src/core/include/_NativeFSLockFactory.h |  1 +
 src/core/store/NativeFSLockFactory.cpp  | 14 ++++++++++----
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/core/include/_NativeFSLockFactory.h b/src/core/include/_NativeFSLockFactory.h
index 0a2ef99..1193a7f 100644
--- a/src/core/include/_NativeFSLockFactory.h
+++ b/src/core/include/_NativeFSLockFactory.h
@@ -21,6 +21,7 @@ public:
 protected:
     String lockDir;
     String path;
+    String heldPath; // the path under which the lock is marked as held
     filelockPtr lock;
 
     static SynchronizePtr LOCK_HELD_LOCK();
diff --git a/src/core/store/NativeFSLockFactory.cpp b/src/core/store/NativeFSLockFactory.cpp
index 2ba0471..1abcb83 100644
--- a/src/core/store/NativeFSLockFactory.cpp
+++ b/src/core/store/NativeFSLockFactory.cpp
@@ -6,6 +6,7 @@
 
 #include "LuceneInc.h"
 #include <boost/filesystem/fstream.hpp>
+#include <boost/filesystem/operations.hpp>
 #include <boost/interprocess/sync/file_lock.hpp>
 #include "NativeFSLockFactory.h"
 #include "_NativeFSLockFactory.h"
@@ -90,19 +91,24 @@ bool NativeFSLock::obtain() {
         boost::throw_exception(IOException(L"Found regular file where directory expected: " + lockDir));
     }
 
+    // the same file can be reached by other spellings of its path
+    boost::system::error_code err;
+    boost::filesystem::path realDir(boost::filesystem::canonical(boost::filesystem::path(lockDir), err));
+    heldPath = err ? path : (realDir / boost::filesystem::path(path).filename()).wstring();
+
     bool markedHeld = false;
 
     // make sure nobody else in-process has this lock held already and mark it held if not
     {
         SyncLock heldLock(LOCK_HELD_LOCK());
-        if (LOCK_HELD().contains(path))
+        if (LOCK_HELD().contains(heldPath))
             // someone else already has the lock
         {
             return false;
         } else {
             // this "reserves" the fact that we are the one thread trying to obtain this lock, so we own the
             // only instance of a channel against this file
-            LOCK_HELD().add(path);
+            LOCK_HELD().add(heldPath);
             markedHeld = true;
         }
     }
@@ -134,7 +140,7 @@ bool NativeFSLock::obtain() {
 
     if (markedHeld && !lockExists()) {
         SyncLock heldLock(LOCK_HELD_LOCK());
-        LOCK_HELD().remove(path);
+        LOCK_HELD().remove(heldPath);
     }
 
     return lockExists();
@@ -152,7 +158,7 @@ void NativeFSLock::release() {
 
         {
             SyncLock heldLock(LOCK_HELD_LOCK());
-            LOCK_HELD().remove(path);
+            LOCK_HELD().remove(heldPath);
         }
 
         // we don't care anymore if the file cannot be deleted because it's held up by another process
-- 
2.43.0


From 4031eddbac13c93cf0a99cedfdbd950ded9701f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:00 +0000
Subject: [PATCH 080/121] fix: obtaining a native lock that another process
 holds never returned

---
 src/core/store/NativeFSLockFactory.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/store/NativeFSLockFactory.cpp b/src/core/store/NativeFSLockFactory.cpp
index 1abcb83..7221bcb 100644
--- a/src/core/store/NativeFSLockFactory.cpp
+++ b/src/core/store/NativeFSLockFactory.cpp
@@ -132,7 +132,9 @@ bool NativeFSLock::obtain() {
                 lockpath = boost::filesystem::path(path).string();
             }
             lock = newInstance<boost::interprocess::file_lock>(lockpath.c_str());
-            lock->lock();
+            if (!lock->try_lock()) { // another process holds it
+                lock.reset();
+            }
         }
     } catch (...) {
         lock.reset();
-- 
2.43.0


From eeeb7b104372844abd58cd9d3f17d5fc08de962f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:00 +0000
Subject: [PATCH 081/121] fix: a native lock did not keep other processes out

---
 src/core/store/NativeFSLockFactory.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/store/NativeFSLockFactory.cpp b/src/core/store/NativeFSLockFactory.cpp
index 7221bcb..3ca3bfe 100644
--- a/src/core/store/NativeFSLockFactory.cpp
+++ b/src/core/store/NativeFSLockFactory.cpp
@@ -118,6 +118,9 @@ bool NativeFSLock::obtain() {
         boost::filesystem::ofstream f(path, std::ios::binary | std::ios::out);
 
         if (f.is_open()) {
+            // closing the file after it was locked would give up the lock (POSIX)
+            f.close();
+
             std::string lockpath;
 
             // file_lock only accepts char* filenames and we cannot losslessly convert Unicode paths to
-- 
2.43.0


From 1ba08133c4f9611b394c37211e9812fee2a133ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:16 +0000
Subject: [PATCH 082/121] fix: directories whose paths differ only behind
 characters outside ASCII shared their locks

---
 src/core/store/FSDirectory.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/store/FSDirectory.cpp b/src/core/store/FSDirectory.cpp
index 2cb257a..f6d4391 100644
--- a/src/core/store/FSDirectory.cpp
+++ b/src/core/store/FSDirectory.cpp
@@ -200,7 +200,8 @@ String FSDirectory::getLockID() {
     md5_byte_t digest[16];
 
     md5_init(&state);
-    md5_append(&state, (const md5_byte_t*)StringUtils::toUTF8(directory).c_str(), directory.size());
+    SingleString utf8(StringUtils::toUTF8(directory));
+    md5_append(&state, (const md5_byte_t*)utf8.c_str(), utf8.size());
     md5_finish(&state, digest);
 
     static const wchar_t* hexDigits = L"0123456789abcdef";
-- 
2.43.0


From 3862a92a76ba2a0839b9efbd6c83f516a85caa16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:51 +0000
Subject: [PATCH 083/121] fix: a writer that creates the index took it from the
 writer that held it

---
 src/core/index/IndexWriter.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index 7024dd7..ccc7ec8 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -163,10 +163,6 @@ void IndexWriter::initialize() {
         indexingChain = DocumentsWriter::getDefaultIndexingChain();
     }
 
-    if (create) {
-        directory->clearLock(WRITE_LOCK_NAME);    // clear the write lock in case it's leftover
-    }
-
     LockPtr writeLock(directory->makeLock(WRITE_LOCK_NAME));
 
     if (!writeLock->obtain((int32_t)writeLockTimeout)) { // obtain write lock
-- 
2.43.0


From f6e94f151d732f1119cb257ffbade5dfe9f67d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:35 +0000
Subject: [PATCH 084/121] fix: destroying a native lock object that held
 nothing took the lock for a moment

---
 src/core/store/NativeFSLockFactory.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/store/NativeFSLockFactory.cpp b/src/core/store/NativeFSLockFactory.cpp
index 3ca3bfe..95a72d9 100644
--- a/src/core/store/NativeFSLockFactory.cpp
+++ b/src/core/store/NativeFSLockFactory.cpp
@@ -47,7 +47,9 @@ NativeFSLock::NativeFSLock(const String& lockDir, const String& lockFileName) {
 
 NativeFSLock::~NativeFSLock() {
     try {
-        release();
+        if (lockExists()) {
+            release();
+        }
     } catch (...) {
     }
 }
-- 
2.43.0


From fac76dcb88018bcfabd99b11a5a40a34be1497ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:35 +0000
Subject: [PATCH 085/121] fix: threads competing for a single-instance lock
 were not kept apart

---
 src/core/store/SingleInstanceLockFactory.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/store/SingleInstanceLockFactory.cpp b/src/core/store/SingleInstanceLockFactory.cpp
index f3f398b..4c4061f 100644
--- a/src/core/store/SingleInstanceLockFactory.cpp
+++ b/src/core/store/SingleInstanceLockFactory.cpp
@@ -12,6 +12,7 @@ namespace Lucene {
 
 SingleInstanceLockFactory::SingleInstanceLockFactory() {
     locks = HashSet<String>::newInstance();
+    locks.getSync(); // create the lock now: the copies our locks get have to share it
 }
 
 SingleInstanceLockFactory::~SingleInstanceLockFactory() {
-- 
2.43.0


From 39415596d0728d4f6d01319e134496cf4eb8b05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:58 +0000
Subject: [PATCH 086/121] fix: obtaining a file lock failed when another thread
 had just created the lock directory

---
 src/core/store/NativeFSLockFactory.cpp | 2 +-
 src/core/store/SimpleFSLockFactory.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/store/NativeFSLockFactory.cpp b/src/core/store/NativeFSLockFactory.cpp
index 95a72d9..6f903c9 100644
--- a/src/core/store/NativeFSLockFactory.cpp
+++ b/src/core/store/NativeFSLockFactory.cpp
@@ -86,7 +86,7 @@ bool NativeFSLock::obtain() {
 
     // ensure that lockdir exists and is a directory
     if (!FileUtils::fileExists(lockDir)) {
-        if (!FileUtils::createDirectory(lockDir)) {
+        if (!FileUtils::createDirectory(lockDir) && !FileUtils::isDirectory(lockDir)) {
             boost::throw_exception(IOException(L"Cannot create directory: " + lockDir));
         }
     } else if (!FileUtils::isDirectory(lockDir)) {
diff --git a/src/core/store/SimpleFSLockFactory.cpp b/src/core/store/SimpleFSLockFactory.cpp
index 112baf6..fb7ee63 100644
--- a/src/core/store/SimpleFSLockFactory.cpp
+++ b/src/core/store/SimpleFSLockFactory.cpp
@@ -54,7 +54,7 @@ SimpleFSLock::~SimpleFSLock() {
 bool SimpleFSLock::obtain() {
     // Ensure that lockDir exists and is a directory
     if (!FileUtils::fileExists(lockDir)) {
-        if (!FileUtils::createDirectory(lockDir)) {
+        if (!FileUtils::createDirectory(lockDir) && !FileUtils::isDirectory(lockDir)) {
             boost::throw_exception(RuntimeException(L"Cannot create directory: " + lockDir));
         }
     } else if (!FileUtils::isDirectory(lockDir)) {
-- 
2.43.0


From bcdba1ca0b46df71fbb8ac102a549a384aff5363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:05 +0000
Subject: [PATCH 087/121] fix: a memory index reported norms of infinity for
 fields it does not hold

---
 src/contrib/memory/MemoryIndex.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/contrib/memory/MemoryIndex.cpp b/src/contrib/memory/MemoryIndex.cpp
index e1e50d9..7884997 100644
--- a/src/contrib/memory/MemoryIndex.cpp
+++ b/src/contrib/memory/MemoryIndex.cpp
@@ -19,6 +19,7 @@
 #include "TermVectorOffsetInfo.h"
 #include "TermVectorMapper.h"
 #include "Similarity.h"
+#include "DefaultSimilarity.h"
 #include "FieldInvertState.h"
 #include "Document.h"
 #include "MiscUtils.h"
@@ -346,14 +347,14 @@ void MemoryIndexReader::setSearcher(const SearcherPtr& searcher) {
 }
 
 ByteArray MemoryIndexReader::norms(const String& field) {
+    MemoryIndexInfoPtr info(getInfo(field));
+    if (!info) {
+        return ByteArray(); // a field that does not exist has no norms
+    }
     ByteArray norms(cachedNorms);
     SimilarityPtr sim(getSimilarity());
     if (field != cachedFieldName || sim != cachedSimilarity) { // not cached?
-        MemoryIndexInfoPtr info(getInfo(field));
-        int32_t numTokens = info ? info->numTokens : 0;
-        int32_t numOverlapTokens = info ? info->numOverlapTokens : 0;
-        double boost = info ? info->getBoost() : 1.0;
-        FieldInvertStatePtr invertState(newLucene<FieldInvertState>(0, numTokens, numOverlapTokens, 0, boost));
+        FieldInvertStatePtr invertState(newLucene<FieldInvertState>(0, info->numTokens, info->numOverlapTokens, 0, info->getBoost()));
         double n = sim->computeNorm(field, invertState);
         uint8_t norm = Similarity::encodeNorm(n);
         norms = ByteArray::newInstance(1);
@@ -369,7 +370,11 @@ ByteArray MemoryIndexReader::norms(const String& field) {
 
 void MemoryIndexReader::norms(const String& field, ByteArray norms, int32_t offset) {
     ByteArray _norms(this->norms(field));
-    MiscUtils::arrayCopy(_norms.get(), 0, norms.get(), offset, _norms.size());
+    if (_norms) {
+        MiscUtils::arrayCopy(_norms.get(), 0, norms.get(), offset, _norms.size());
+    } else {
+        norms[offset] = DefaultSimilarity::encodeNorm(1.0);
+    }
 }
 
 void MemoryIndexReader::doSetNorm(int32_t doc, const String& field, uint8_t value) {
-- 
2.43.0


From 8bbfb0bc80d3f55b1423e451d7d363060618f289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:05 +0000
Subject: [PATCH 088/121] fix: the term enumeration of a memory index gave term
 frequencies as document frequencies

---
 src/contrib/memory/MemoryIndex.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/contrib/memory/MemoryIndex.cpp b/src/contrib/memory/MemoryIndex.cpp
index 7884997..beea1d7 100644
--- a/src/contrib/memory/MemoryIndex.cpp
+++ b/src/contrib/memory/MemoryIndex.cpp
@@ -493,7 +493,7 @@ int32_t MemoryIndexTermEnum::docFreq() {
     if (i >= info->sortedTerms.size()) {
         return 0;
     }
-    return reader->memoryIndex->numPositions(info->getPositions(i));
+    return 1; // there is only one document
 }
 
 void MemoryIndexTermEnum::close() {
-- 
2.43.0


From 8bd481e8f3a8d9d945f8d8905f94c0393bf652d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:05 +0000
Subject: [PATCH 089/121] fix: the first token of a memory index field got
 position -1 if its position increment was 0

---
 src/contrib/memory/MemoryIndex.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/contrib/memory/MemoryIndex.cpp b/src/contrib/memory/MemoryIndex.cpp
index beea1d7..cdba9f8 100644
--- a/src/contrib/memory/MemoryIndex.cpp
+++ b/src/contrib/memory/MemoryIndex.cpp
@@ -88,6 +88,9 @@ void MemoryIndex::addField(const String& fieldName, const TokenStreamPtr& stream
                 ++numOverlapTokens;
             }
             pos += posIncr;
+            if (pos < 0) {
+                pos = 0;    // as in an ordinary index the first token has position 0 even if its increment is 0
+            }
 
             Collection<int32_t> positions(terms.get(term));
             if (!positions) {
-- 
2.43.0


From dd5ca34638987a9854b4c422e7d4b9d93d1ab26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:05 +0000
Subject: [PATCH 090/121] fix: a memory index's postings skipped to documents
 it does not have

---
 src/contrib/memory/MemoryIndex.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/contrib/memory/MemoryIndex.cpp b/src/contrib/memory/MemoryIndex.cpp
index cdba9f8..e523752 100644
--- a/src/contrib/memory/MemoryIndex.cpp
+++ b/src/contrib/memory/MemoryIndex.cpp
@@ -588,6 +588,9 @@ int32_t MemoryIndexTermPositions::read(Collection<int32_t>& docs, Collection<int
 }
 
 bool MemoryIndexTermPositions::skipTo(int32_t target) {
+    if (target > 0) {
+        hasNext = false;    // there is no document after 0
+    }
     return next();
 }
 
-- 
2.43.0


From 591b009c3747792ecbc88a8bae6641c0b00772ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:54 +0000
Subject: [PATCH 091/121] fix: the term vectors of a memory index with offsets
 returned offsets among the positions

---
 src/contrib/include/MemoryIndex.h  |  3 +++
 src/contrib/memory/MemoryIndex.cpp | 16 ++++++++++++++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/contrib/include/MemoryIndex.h b/src/contrib/include/MemoryIndex.h
index 8efc528..db3ac57 100644
--- a/src/contrib/include/MemoryIndex.h
+++ b/src/contrib/include/MemoryIndex.h
@@ -148,6 +148,9 @@ public:
 protected:
     int32_t numPositions(Collection<int32_t> positions);
 
+    /// The positions alone, without the offsets stored between them
+    Collection<int32_t> positionsOnly(Collection<int32_t> positions);
+
     /// sorts into ascending order (on demand), reusing memory along the way
     void sortFields();
 
diff --git a/src/contrib/memory/MemoryIndex.cpp b/src/contrib/memory/MemoryIndex.cpp
index e523752..2062a5b 100644
--- a/src/contrib/memory/MemoryIndex.cpp
+++ b/src/contrib/memory/MemoryIndex.cpp
@@ -167,6 +167,17 @@ struct lessField {
     }
 };
 
+Collection<int32_t> MemoryIndex::positionsOnly(Collection<int32_t> positions) {
+    if (stride == 1) {
+        return positions;
+    }
+    Collection<int32_t> result(Collection<int32_t>::newInstance(positions.size() / stride));
+    for (int32_t i = 0; i < result.size(); ++i) {
+        result[i] = positions[i * stride];
+    }
+    return result;
+}
+
 void MemoryIndex::sortFields() {
     if (!sortedFields) {
         sortedFields = CollectionStringMemoryIndexInfo::newInstance(fields.begin(), fields.end());
@@ -324,7 +335,7 @@ void MemoryIndexReader::getTermFreqVector(int32_t docNumber, const String& field
             int32_t end = positions[j + 1];
             offsets[k] = newLucene<TermVectorOffsetInfo>(start, end);
         }
-        mapper->map(info->sortedTerms[i].first, memoryIndex->numPositions(info->sortedTerms[i].second), offsets, info->sortedTerms[i].second);
+        mapper->map(info->sortedTerms[i].first, memoryIndex->numPositions(positions), offsets, memoryIndex->positionsOnly(positions));
     }
 }
 
@@ -666,7 +677,8 @@ Collection<int32_t> MemoryIndexTermPositionVector::indexesOf(Collection<String>
 }
 
 Collection<int32_t> MemoryIndexTermPositionVector::getTermPositions(int32_t index) {
-    return sortedTerms[index].second;
+    MemoryIndexReaderPtr reader(_reader);
+    return reader->memoryIndex->positionsOnly(sortedTerms[index].second);
 }
 
 Collection<TermVectorOffsetInfoPtr> MemoryIndexTermPositionVector::getOffsets(int32_t index) {
-- 
2.43.0


From 2398b40b8fb4c274715edd7d74b4378117f4f924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:54 +0000
Subject: [PATCH 092/121] fix: mapping the term vectors of a memory index
 without offsets read positions as offsets, beyond their end

---
 src/contrib/memory/MemoryIndex.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/contrib/memory/MemoryIndex.cpp b/src/contrib/memory/MemoryIndex.cpp
index 2062a5b..bd86d74 100644
--- a/src/contrib/memory/MemoryIndex.cpp
+++ b/src/contrib/memory/MemoryIndex.cpp
@@ -329,11 +329,14 @@ void MemoryIndexReader::getTermFreqVector(int32_t docNumber, const String& field
     for (int32_t i = info->sortedTerms.size(); --i >=0;) {
         Collection<int32_t> positions(info->sortedTerms[i].second);
         int32_t size = positions.size();
-        Collection<TermVectorOffsetInfoPtr> offsets(Collection<TermVectorOffsetInfoPtr>::newInstance(size / memoryIndex->stride));
-        for (int32_t k = 0, j = 1; j < size; ++k, j += memoryIndex->stride) {
-            int32_t start = positions[j];
-            int32_t end = positions[j + 1];
-            offsets[k] = newLucene<TermVectorOffsetInfo>(start, end);
+        Collection<TermVectorOffsetInfoPtr> offsets;
+        if (memoryIndex->stride != 1) {
+            offsets = Collection<TermVectorOffsetInfoPtr>::newInstance(size / memoryIndex->stride);
+            for (int32_t k = 0, j = 1; j < size; ++k, j += memoryIndex->stride) {
+                int32_t start = positions[j];
+                int32_t end = positions[j + 1];
+                offsets[k] = newLucene<TermVectorOffsetInfo>(start, end);
+            }
         }
         mapper->map(info->sortedTerms[i].first, memoryIndex->numPositions(positions), offsets, memoryIndex->positionsOnly(positions));
     }
-- 
2.43.0


From df1064a6b0fa4c24c50f72eea7f0613ab40354ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:54 +0000
Subject: [PATCH 093/121] fix: enumerations and vectors of a memory index
 failed once the reader was let go

---
 src/contrib/include/MemoryIndex.h  |  6 +++---
 src/contrib/memory/MemoryIndex.cpp | 20 +++++---------------
 2 files changed, 8 insertions(+), 18 deletions(-)

diff --git a/src/contrib/include/MemoryIndex.h b/src/contrib/include/MemoryIndex.h
index db3ac57..6264ac5 100644
--- a/src/contrib/include/MemoryIndex.h
+++ b/src/contrib/include/MemoryIndex.h
@@ -274,7 +274,7 @@ public:
     LUCENE_CLASS(MemoryIndexTermEnum);
 
 protected:
-    MemoryIndexReaderWeakPtr _reader;
+    MemoryIndexReaderPtr reader;
     int32_t i;
     int32_t j;
 
@@ -314,7 +314,7 @@ public:
     LUCENE_CLASS(MemoryIndexTermPositions);
 
 protected:
-    MemoryIndexReaderWeakPtr _reader;
+    MemoryIndexReaderPtr reader;
     bool hasNext;
     int32_t cursor;
     Collection<int32_t> current;
@@ -344,7 +344,7 @@ public:
     LUCENE_CLASS(MemoryIndexTermPositionVector);
 
 protected:
-    MemoryIndexReaderWeakPtr _reader;
+    MemoryIndexReaderPtr reader;
     CollectionStringIntCollection sortedTerms;
     String fieldName;
 
diff --git a/src/contrib/memory/MemoryIndex.cpp b/src/contrib/memory/MemoryIndex.cpp
index bd86d74..18df92d 100644
--- a/src/contrib/memory/MemoryIndex.cpp
+++ b/src/contrib/memory/MemoryIndex.cpp
@@ -461,7 +461,7 @@ HashSet<String> MemoryIndexReader::getFieldNames(FieldOption fieldOption) {
 }
 
 MemoryIndexTermEnum::MemoryIndexTermEnum(const MemoryIndexReaderPtr& reader, int32_t ix, int32_t jx) {
-    _reader = reader;
+    this->reader = reader;
     i = ix;
     j = jx;
 }
@@ -470,7 +470,6 @@ MemoryIndexTermEnum::~MemoryIndexTermEnum() {
 }
 
 bool MemoryIndexTermEnum::next() {
-    MemoryIndexReaderPtr reader(_reader);
     if (j >= reader->memoryIndex->sortedFields.size()) {
         return false;
     }
@@ -490,7 +489,6 @@ bool MemoryIndexTermEnum::next() {
 }
 
 TermPtr MemoryIndexTermEnum::term() {
-    MemoryIndexReaderPtr reader(_reader);
     if (j >= reader->memoryIndex->sortedFields.size()) {
         return TermPtr();
     }
@@ -502,7 +500,6 @@ TermPtr MemoryIndexTermEnum::term() {
 }
 
 int32_t MemoryIndexTermEnum::docFreq() {
-    MemoryIndexReaderPtr reader(_reader);
     if (j >= reader->memoryIndex->sortedFields.size()) {
         return 0;
     }
@@ -519,8 +516,7 @@ void MemoryIndexTermEnum::close() {
 TermPtr MemoryIndexTermEnum::createTerm(const MemoryIndexInfoPtr& info, int32_t pos, const String& text) {
     TermPtr _template(info->_template);
     if (!_template) { // not yet cached?
-        MemoryIndexReaderPtr reader(_reader);
-        String fieldName(reader->memoryIndex->sortedFields[pos].first);
+            String fieldName(reader->memoryIndex->sortedFields[pos].first);
         _template = newLucene<Term>(fieldName);
         info->_template = _template;
     }
@@ -550,7 +546,7 @@ void MemoryIndexCollector::setNextReader(const IndexReaderPtr& reader, int32_t d
 }
 
 MemoryIndexTermPositions::MemoryIndexTermPositions(const MemoryIndexReaderPtr& reader) {
-    _reader = reader;
+    this->reader = reader;
     hasNext = false;
     cursor = 0;
 }
@@ -563,8 +559,7 @@ void MemoryIndexTermPositions::seek(const TermPtr& term) {
     if (!term) {
         hasNext = true;    // term == null means match all docs
     } else {
-        MemoryIndexReaderPtr reader(_reader);
-        MemoryIndexInfoPtr info(reader->getInfo(term->field()));
+            MemoryIndexInfoPtr info(reader->getInfo(term->field()));
         current = info ? info->getPositions(term->text()) : Collection<int32_t>();
         hasNext = current;
         cursor = 0;
@@ -580,7 +575,6 @@ int32_t MemoryIndexTermPositions::doc() {
 }
 
 int32_t MemoryIndexTermPositions::freq() {
-    MemoryIndexReaderPtr reader(_reader);
     int32_t freq = current ? reader->memoryIndex->numPositions(current) : (term ? 0 : 1);
     return freq;
 }
@@ -613,7 +607,6 @@ void MemoryIndexTermPositions::close() {
 
 int32_t MemoryIndexTermPositions::nextPosition() {
     // implements TermPositions
-    MemoryIndexReaderPtr reader(_reader);
     int32_t pos = current[cursor];
     cursor += reader->memoryIndex->stride;
     return pos;
@@ -633,7 +626,7 @@ bool MemoryIndexTermPositions::isPayloadAvailable() {
 }
 
 MemoryIndexTermPositionVector::MemoryIndexTermPositionVector(const MemoryIndexReaderPtr& reader, const MemoryIndexInfoPtr& info, const String& fieldName) {
-    this->_reader = reader;
+    this->reader = reader;
     this->sortedTerms = info->sortedTerms;
     this->fieldName = fieldName;
 }
@@ -658,7 +651,6 @@ Collection<String> MemoryIndexTermPositionVector::getTerms() {
 }
 
 Collection<int32_t> MemoryIndexTermPositionVector::getTermFrequencies() {
-    MemoryIndexReaderPtr reader(_reader);
     Collection<int32_t> freqs(Collection<int32_t>::newInstance(sortedTerms.size()));
     for (int32_t i = sortedTerms.size(); --i >= 0;) {
         freqs[i] = reader->memoryIndex->numPositions(sortedTerms[i].second);
@@ -680,12 +672,10 @@ Collection<int32_t> MemoryIndexTermPositionVector::indexesOf(Collection<String>
 }
 
 Collection<int32_t> MemoryIndexTermPositionVector::getTermPositions(int32_t index) {
-    MemoryIndexReaderPtr reader(_reader);
     return reader->memoryIndex->positionsOnly(sortedTerms[index].second);
 }
 
 Collection<TermVectorOffsetInfoPtr> MemoryIndexTermPositionVector::getOffsets(int32_t index) {
-    MemoryIndexReaderPtr reader(_reader);
     if (reader->memoryIndex->stride == 1) {
         return Collection<TermVectorOffsetInfoPtr>();    // no offsets stored
     }
-- 
2.43.0


From f5e8e0c7401331537c0932228dbde827106fe147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:22 +0000
Subject: [PATCH 094/121] fix: reading the list of all documents in bulk began
 with document -1 or repeated the current one

---
 src/core/index/AbstractAllTermDocs.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/core/index/AbstractAllTermDocs.cpp b/src/core/index/AbstractAllTermDocs.cpp
index aa6edcc..87439fb 100644
--- a/src/core/index/AbstractAllTermDocs.cpp
+++ b/src/core/index/AbstractAllTermDocs.cpp
@@ -44,13 +44,10 @@ bool AbstractAllTermDocs::next() {
 int32_t AbstractAllTermDocs::read(Collection<int32_t>& docs, Collection<int32_t>& freqs) {
     int32_t length = docs.size();
     int32_t i = 0;
-    while (i < length && _doc < maxDoc) {
-        if (!isDeleted(_doc)) {
-            docs[i] = _doc;
-            freqs[i] = 1;
-            ++i;
-        }
-        ++_doc;
+    while (i < length && next()) {
+        docs[i] = _doc;
+        freqs[i] = 1;
+        ++i;
     }
     return i;
 }
-- 
2.43.0


From 2fcc9922403f44ae8d997058b4e7911f735ef41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:22 +0000
Subject: [PATCH 095/121] fix: the list of all documents could be skipped
 backwards, and after its end to negative documents

---
 src/core/index/AbstractAllTermDocs.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/index/AbstractAllTermDocs.cpp b/src/core/index/AbstractAllTermDocs.cpp
index 87439fb..6999d82 100644
--- a/src/core/index/AbstractAllTermDocs.cpp
+++ b/src/core/index/AbstractAllTermDocs.cpp
@@ -53,13 +53,14 @@ int32_t AbstractAllTermDocs::read(Collection<int32_t>& docs, Collection<int32_t>
 }
 
 bool AbstractAllTermDocs::skipTo(int32_t target) {
-    _doc = target;
+    _doc = std::max(target, _doc + 1); // never backwards
     while (_doc < maxDoc) {
         if (!isDeleted(_doc)) {
             return true;
         }
         ++_doc;
     }
+    _doc = maxDoc;
     return false;
 }
 
-- 
2.43.0


From 8003f2cd64c19aea8da0dbd8d32bbb693698bcf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:29 +0000
Subject: [PATCH 096/121] fix: term vectors whose index file is missing were
 taken for a segment without vectors

---
 src/core/index/TermVectorsReader.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/index/TermVectorsReader.cpp b/src/core/index/TermVectorsReader.cpp
index 488de77..7ddd0fa 100644
--- a/src/core/index/TermVectorsReader.cpp
+++ b/src/core/index/TermVectorsReader.cpp
@@ -91,6 +91,9 @@ void TermVectorsReader::ConstructReader(const DirectoryPtr& d, const String& seg
                 // Verify the file is long enough to hold all of our docs
                 BOOST_ASSERT(numTotalDocs >= size + docStoreOffset);
             }
+        } else if (d->fileExists(segment + L"." + IndexFileNames::VECTORS_DOCUMENTS_EXTENSION()) ||
+                   d->fileExists(segment + L"." + IndexFileNames::VECTORS_FIELDS_EXTENSION())) {
+            boost::throw_exception(CorruptIndexException(L"term vectors index of segment " + segment + L" is missing"));
         } else {
             // If all documents flushed in a segment had hit non-aborting exceptions, it's possible that
             // FieldInfos.hasVectors returns true yet the term vector files don't exist.
-- 
2.43.0


From f6b860939c0309ff92981f8653a01cab548f2137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:36 +0000
Subject: [PATCH 097/121] fix: the index check did not notice payloads that
 cannot be read

---
 src/core/index/CheckIndex.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/index/CheckIndex.cpp b/src/core/index/CheckIndex.cpp
index 289cb27..582871a 100644
--- a/src/core/index/CheckIndex.cpp
+++ b/src/core/index/CheckIndex.cpp
@@ -379,6 +379,9 @@ TermIndexStatusPtr CheckIndex::testTermIndex(const SegmentInfoPtr& info, const S
                                                                 L" < lastPos " + StringUtils::toString(lastPos)));
                     }
                     lastPos = pos;
+                    if (termPositions->isPayloadAvailable()) {
+                        termPositions->getPayload(ByteArray(), 0);
+                    }
                 }
             }
 
-- 
2.43.0


From 08435f57fffa523c84070faca8059aa0b8d58507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:37 +0000
Subject: [PATCH 098/121] fix: stored fields and term vectors index files that
 had been cut short were accepted

---
 src/core/index/FieldsReader.cpp      |  4 +++-
 src/core/index/TermVectorsReader.cpp | 17 ++++++++---------
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/core/index/FieldsReader.cpp b/src/core/index/FieldsReader.cpp
index 70845dd..e7bb1c3 100644
--- a/src/core/index/FieldsReader.cpp
+++ b/src/core/index/FieldsReader.cpp
@@ -101,7 +101,9 @@ void FieldsReader::ConstructReader(const DirectoryPtr& d, const String& segment,
             this->_size = size;
 
             // Verify the file is long enough to hold all of our docs
-            BOOST_ASSERT(((int32_t)((double)indexSize / 8.0)) >= _size + this->docStoreOffset);
+            if ((indexSize >> 3) < (int64_t)_size + this->docStoreOffset) {
+                boost::throw_exception(CorruptIndexException(L"stored fields index of segment " + segment + L" is too short"));
+            }
         } else {
             this->docStoreOffset = 0;
             this->_size = (int32_t)(indexSize >> 3);
diff --git a/src/core/index/TermVectorsReader.cpp b/src/core/index/TermVectorsReader.cpp
index 7ddd0fa..3116171 100644
--- a/src/core/index/TermVectorsReader.cpp
+++ b/src/core/index/TermVectorsReader.cpp
@@ -73,23 +73,22 @@ void TermVectorsReader::ConstructReader(const DirectoryPtr& d, const String& seg
             BOOST_ASSERT(format == tvdFormat);
             BOOST_ASSERT(format == tvfFormat);
 
-            if (format >= FORMAT_VERSION2) {
-                BOOST_ASSERT((tvx->length() - FORMAT_SIZE) % 16 == 0);
-                numTotalDocs = (int32_t)(tvx->length() >> 4);
-            } else {
-                BOOST_ASSERT((tvx->length() - FORMAT_SIZE) % 8 == 0);
-                numTotalDocs = (int32_t)(tvx->length() >> 3);
-            }
+            int32_t entrySize = format >= FORMAT_VERSION2 ? 16 : 8;
+            numTotalDocs = (int32_t)((tvx->length() - FORMAT_SIZE) / entrySize);
+            bool valid = ((tvx->length() - FORMAT_SIZE) % entrySize == 0);
 
             if (docStoreOffset == -1) {
                 this->docStoreOffset = 0;
                 this->_size = numTotalDocs;
-                BOOST_ASSERT(size == 0 || numTotalDocs == size);
+                valid = valid && (size == 0 || numTotalDocs == size);
             } else {
                 this->docStoreOffset = docStoreOffset;
                 this->_size = size;
                 // Verify the file is long enough to hold all of our docs
-                BOOST_ASSERT(numTotalDocs >= size + docStoreOffset);
+                valid = valid && (numTotalDocs >= size + docStoreOffset);
+            }
+            if (!valid) {
+                boost::throw_exception(CorruptIndexException(L"term vectors index of segment " + segment + L" has the wrong length"));
             }
         } else if (d->fileExists(segment + L"." + IndexFileNames::VECTORS_DOCUMENTS_EXTENSION()) ||
                    d->fileExists(segment + L"." + IndexFileNames::VECTORS_FIELDS_EXTENSION())) {
-- 
2.43.0


From 8a2a157e1127ee151727f361f4dc44147a36feba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:52 +0000
Subject: [PATCH 099/121] fix: a commit record whose format number was damaged
 was read as one of an older format without checksum

---
 src/core/index/SegmentInfos.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/index/SegmentInfos.cpp b/src/core/index/SegmentInfos.cpp
index d574cc0..ac79510 100644
--- a/src/core/index/SegmentInfos.cpp
+++ b/src/core/index/SegmentInfos.cpp
@@ -191,6 +191,9 @@ void SegmentInfos::read(const DirectoryPtr& directory, const String& segmentFile
             if (checksumNow != checksumThen) {
                 boost::throw_exception(CorruptIndexException(L"Checksum mismatch in segments file"));
             }
+        } else if (format < 0 && input->getFilePointer() != input->length()) {
+            // The older formats have no checksum, but they end here: a newer file whose format is damaged does not
+            boost::throw_exception(CorruptIndexException(L"Unexpected data at the end of segments file"));
         }
 
         success = true;
-- 
2.43.0


From b13c079e0c63af7579a7238cf57eadba88cdb750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:08 +0000
Subject: [PATCH 100/121] fix: a fuzzy term with similarity 1 made the query
 parser fail with an illegal argument instead of a parse error

---
 src/core/queryparser/QueryParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/queryparser/QueryParser.cpp b/src/core/queryparser/QueryParser.cpp
index f05f7b6..7e950e0 100644
--- a/src/core/queryparser/QueryParser.cpp
+++ b/src/core/queryparser/QueryParser.cpp
@@ -941,7 +941,7 @@ QueryPtr QueryParser::ParseTerm(const String& field) {
                     fms = StringUtils::toDouble(fuzzySlop->image.substr(1));
                 } catch (...) {
                 }
-                if (fms < 0.0 || fms > 1.0) {
+                if (fms < 0.0 || fms >= 1.0) {
                     boost::throw_exception(QueryParserError(L"Minimum similarity for a FuzzyQuery has to be between 0.0 and 1.0"));
                 }
                 q = getFuzzyQuery(field, termImage, fms);
-- 
2.43.0


From 7c6be1e7bbab706a2c5abbc3f1b9bf1e8718ec0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:08 +0000
Subject: [PATCH 101/121] fix: a string reader replaced everything after a NUL
 character by NULs

---
 src/core/util/StringReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/util/StringReader.cpp b/src/core/util/StringReader.cpp
index 81f83e1..f6e8a7b 100644
--- a/src/core/util/StringReader.cpp
+++ b/src/core/util/StringReader.cpp
@@ -26,7 +26,7 @@ int32_t StringReader::read(wchar_t* buffer, int32_t offset, int32_t length) {
         return READER_EOF;
     }
     int32_t readChars = std::min(length, (int32_t)str.length() - position);
-    std::wcsncpy(buffer + offset, str.c_str() + position, readChars);
+    std::wmemcpy(buffer + offset, str.c_str() + position, readChars);
     position += readChars;
     return readChars;
 }
-- 
2.43.0


From 1a46a37206ce2a53202b6f3d47eec9c7b0670a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:08 +0000
Subject: [PATCH 102/121] fix: the query parser looked up characters above
 U+FFFF beyond the end of its tables

---
 src/core/queryparser/QueryParserTokenManager.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/queryparser/QueryParserTokenManager.cpp b/src/core/queryparser/QueryParserTokenManager.cpp
index cd43c7e..2b18178 100644
--- a/src/core/queryparser/QueryParserTokenManager.cpp
+++ b/src/core/queryparser/QueryParserTokenManager.cpp
@@ -1116,7 +1116,8 @@ bool QueryParserTokenManager::jjCanMove_1(int32_t hiByte, int32_t i1, int32_t i2
     case 0:
         return ((jjbitVec3[i2] & l2) != 0);
     default:
-        if ((jjbitVec1[i1] & l1) != 0) {
+        // the table covers 16-bit characters, any other one is an ordinary character
+        if (i1 > 3 || (jjbitVec1[i1] & l1) != 0) {
             return true;
         }
         return false;
@@ -1130,7 +1131,7 @@ bool QueryParserTokenManager::jjCanMove_2(int32_t hiByte, int32_t i1, int32_t i2
     case 48:
         return ((jjbitVec1[i2] & l2) != 0);
     default:
-        if ((jjbitVec4[i1] & l1) != 0) {
+        if (i1 > 3 || (jjbitVec4[i1] & l1) != 0) {
             return true;
         }
         return false;
-- 
2.43.0


From d175ea71c38f04017be3bfa91babb8b02208b886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:08 +0000
Subject: [PATCH 103/121] fix: releasing the tokens of a long query overflowed
 the stack

---
 src/core/queryparser/QueryParserToken.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/core/queryparser/QueryParserToken.cpp b/src/core/queryparser/QueryParserToken.cpp
index 973c331..cd75102 100644
--- a/src/core/queryparser/QueryParserToken.cpp
+++ b/src/core/queryparser/QueryParserToken.cpp
@@ -19,6 +19,14 @@ QueryParserToken::QueryParserToken(int32_t kind, const String& image) {
 }
 
 QueryParserToken::~QueryParserToken() {
+    // release a long list of tokens one by one, not recursively
+    QueryParserTokenPtr token;
+    token.swap(next);
+    while (token && token.use_count() == 1) {
+        QueryParserTokenPtr following;
+        following.swap(token->next);
+        token.swap(following);
+    }
 }
 
 String QueryParserToken::toString() {
-- 
2.43.0


From 1d6fc617b3c8e3ad4792245308ebe247928eaa9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:24 +0000
Subject: [PATCH 104/121] fix: a phrase slop beyond 32 bits became another one,
 even negative

---
 src/core/queryparser/QueryParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/queryparser/QueryParser.cpp b/src/core/queryparser/QueryParser.cpp
index 7e950e0..734d7ad 100644
--- a/src/core/queryparser/QueryParser.cpp
+++ b/src/core/queryparser/QueryParser.cpp
@@ -1071,7 +1071,7 @@ QueryPtr QueryParser::ParseTerm(const String& field) {
             int32_t s = phraseSlop;
             if (fuzzySlop) {
                 try {
-                    s = StringUtils::toInt(fuzzySlop->image.substr(1));
+                    s = (int32_t)std::min(StringUtils::toDouble(fuzzySlop->image.substr(1)), (double)0x7fffffff);
                 } catch (...) {
                 }
             }
-- 
2.43.0


From 58f62908848958fa945a0874666f5d74346657d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:41 +0000
Subject: [PATCH 105/121] fix: deeply nested parentheses in a query overflowed
 the stack

---
 include/lucene++/QueryParser.h       |  4 ++++
 src/core/queryparser/QueryParser.cpp | 11 +++++++++++
 2 files changed, 15 insertions(+)

diff --git a/include/lucene++/QueryParser.h b/include/lucene++/QueryParser.h
index 59f8d8d..94360ea 100644
--- a/include/lucene++/QueryParser.h
+++ b/include/lucene++/QueryParser.h
@@ -97,6 +97,9 @@ protected:
     static const int32_t MOD_NOT;
     static const int32_t MOD_REQ;
 
+    /// How deep parentheses may be nested
+    static const int32_t MAX_NESTING;
+
     /// The actual operator that parser uses to combine query terms
     Operator _operator;
 
@@ -130,6 +133,7 @@ protected:
     Collection<JJCallsPtr> jj_2_rtns;
     bool jj_rescan;
     int32_t jj_gc;
+    int32_t nesting;
 
     Collection< Collection<int32_t> > jj_expentries;
     Collection<int32_t> jj_expentry;
diff --git a/src/core/queryparser/QueryParser.cpp b/src/core/queryparser/QueryParser.cpp
index 734d7ad..bd59280 100644
--- a/src/core/queryparser/QueryParser.cpp
+++ b/src/core/queryparser/QueryParser.cpp
@@ -42,6 +42,8 @@ const int32_t QueryParser::MOD_NONE = 0;
 const int32_t QueryParser::MOD_NOT = 10;
 const int32_t QueryParser::MOD_REQ = 11;
 
+const int32_t QueryParser::MAX_NESTING = 1000;
+
 const int32_t QueryParser::jj_la1_0[] = {
     0x300, 0x300, 0x1c00, 0x1c00, 0x3ed3f00, 0x90000, 0x20000, 0x3ed2000, 0x2690000, 0x100000, 0x100000, 0x20000,
     0x30000000, 0x4000000, 0x30000000, 0x20000, 0x0, 0x40000000, 0x0, 0x20000, 0x100000, 0x20000, 0x3ed0000
@@ -89,6 +91,7 @@ void QueryParser::ConstructParser(const QueryParserCharStreamPtr& stream, const
     jj_gen = 0;
     jj_rescan = false;
     jj_gc = 0;
+    nesting = 0;
     jj_la1 = Collection<int32_t>::newInstance(23);
     jj_2_rtns = Collection<JJCallsPtr>::newInstance(1);
     for (int32_t i = 0; i < 23; ++i) {
@@ -758,6 +761,11 @@ QueryPtr QueryParser::TopLevelQuery(const String& field) {
 }
 
 QueryPtr QueryParser::ParseQuery(const String& field) {
+    // each level takes up stack, here and when the query is used
+    if (nesting >= MAX_NESTING) {
+        boost::throw_exception(QueryParserError(L"Parentheses are nested too deeply"));
+    }
+    ++nesting;
     Collection<BooleanClausePtr> clauses(Collection<BooleanClausePtr>::newInstance());
     QueryPtr firstQuery;
     int32_t mods = Modifiers();
@@ -793,6 +801,7 @@ QueryPtr QueryParser::ParseQuery(const String& field) {
         q = ParseClause(field);
         addClause(clauses, conj, mods, q);
     }
+    --nesting;
     if (clauses.size() == 1 && firstQuery) {
         return firstQuery;
     } else {
@@ -1152,6 +1161,7 @@ void QueryParser::ReInit(const QueryParserCharStreamPtr& stream) {
     token = newLucene<QueryParserToken>();
     _jj_ntk = -1;
     jj_gen = 0;
+    nesting = 0;
     for (int32_t i = 0; i < 23; ++i) {
         jj_la1[i] = -1;
     }
@@ -1165,6 +1175,7 @@ void QueryParser::ReInit(const QueryParserTokenManagerPtr& tokenMgr) {
     token = newLucene<QueryParserToken>();
     _jj_ntk = -1;
     jj_gen = 0;
+    nesting = 0;
     for (int32_t i = 0; i < 23; ++i) {
         jj_la1[i] = -1;
     }
-- 
2.43.0


From 017d027404ced9b82f29eea4526d121c50cddd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:41 +0000
Subject: [PATCH 106/121] fix: printed queries showed boosts and similarities
 with digits missing, so that they were parsed back to other ones

---
 include/lucene++/Query.h       |  4 ++++
 src/core/search/FuzzyQuery.cpp |  2 +-
 src/core/search/Query.cpp      | 18 +++++++++++++-----
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/include/lucene++/Query.h b/include/lucene++/Query.h
index 4337b4b..c164a83 100644
--- a/include/lucene++/Query.h
+++ b/include/lucene++/Query.h
@@ -105,6 +105,10 @@ public:
 
     /// Return given boost value as a string.
     String boostString();
+
+protected:
+    /// Return the shortest decimal number that is read back as the given value.
+    static String decimalString(double value);
 };
 
 }
diff --git a/src/core/search/FuzzyQuery.cpp b/src/core/search/FuzzyQuery.cpp
index 7459448..933001a 100644
--- a/src/core/search/FuzzyQuery.cpp
+++ b/src/core/search/FuzzyQuery.cpp
@@ -138,7 +138,7 @@ String FuzzyQuery::toString(const String& field) {
     if (term->field() != field) {
         buffer << term->field() << L":";
     }
-    buffer << term->text() << L"~" << minimumSimilarity << boostString();
+    buffer << term->text() << L"~" << decimalString(minimumSimilarity) << boostString();
     return buffer.str();
 }
 
diff --git a/src/core/search/Query.cpp b/src/core/search/Query.cpp
index 6a25577..bf236d4 100644
--- a/src/core/search/Query.cpp
+++ b/src/core/search/Query.cpp
@@ -160,11 +160,19 @@ String Query::boostString() {
     if (boost == 1.0) {
         return L"";
     }
-    StringStream boostString;
-    boostString.precision(1);
-    boostString.setf(std::ios::fixed);
-    boostString << L"^" << boost;
-    return boostString.str();
+    return L"^" + decimalString(boost);
+}
+
+String Query::decimalString(double value) {
+    for (int32_t digits = 1; ; ++digits) {
+        StringStream decimal;
+        decimal.precision(digits);
+        decimal.setf(std::ios::fixed);
+        decimal << value;
+        if (digits >= 400 || std::wcstod(decimal.str().c_str(), NULL) == value) {
+            return decimal.str();
+        }
+    }
 }
 
 }
-- 
2.43.0


From 3c11cf9ce76e1134e1946f99de29aee8188e6a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:33 +0000
Subject: [PATCH 107/121] fix: creating a DutchAnalyzer with its own stop words
 crashed

Only the first constructor created the stem dictionary that initialize()
fills.
---
 src/contrib/analyzers/common/analysis/nl/DutchAnalyzer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/contrib/analyzers/common/analysis/nl/DutchAnalyzer.cpp b/src/contrib/analyzers/common/analysis/nl/DutchAnalyzer.cpp
index a4fa595..1b1b1ca 100644
--- a/src/contrib/analyzers/common/analysis/nl/DutchAnalyzer.cpp
+++ b/src/contrib/analyzers/common/analysis/nl/DutchAnalyzer.cpp
@@ -36,12 +36,14 @@ DutchAnalyzer::DutchAnalyzer(LuceneVersion::Version matchVersion) {
 DutchAnalyzer::DutchAnalyzer(LuceneVersion::Version matchVersion, HashSet<String> stopwords) {
     this->stoptable = stopwords;
     this->excltable = HashSet<String>::newInstance();
+    this->stemdict = MapStringString::newInstance();
     this->matchVersion = matchVersion;
 }
 
 DutchAnalyzer::DutchAnalyzer(LuceneVersion::Version matchVersion, HashSet<String> stopwords, HashSet<String> exclusions) {
     this->stoptable = stopwords;
     this->excltable = exclusions;
+    this->stemdict = MapStringString::newInstance();
     this->matchVersion = matchVersion;
 }
 
-- 
2.43.0


From 4ad812052e5cc8a1266549028e49b387399b9490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:33 +0000
Subject: [PATCH 108/121] fix: DutchAnalyzer never used its stem dictionary

The dictionary exists so that words like fiets are not stemmed, but was not
handed to the stem filter.
---
 src/contrib/analyzers/common/analysis/nl/DutchAnalyzer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/contrib/analyzers/common/analysis/nl/DutchAnalyzer.cpp b/src/contrib/analyzers/common/analysis/nl/DutchAnalyzer.cpp
index 1b1b1ca..6e41978 100644
--- a/src/contrib/analyzers/common/analysis/nl/DutchAnalyzer.cpp
+++ b/src/contrib/analyzers/common/analysis/nl/DutchAnalyzer.cpp
@@ -74,7 +74,7 @@ TokenStreamPtr DutchAnalyzer::tokenStream(const String& fieldName, const ReaderP
     TokenStreamPtr result = newLucene<StandardTokenizer>(matchVersion, reader);
     result = newLucene<StandardFilter>(result);
     result = newLucene<StopFilter>(StopFilter::getEnablePositionIncrementsVersionDefault(matchVersion), result, stoptable);
-    result = newLucene<DutchStemFilter>(result, excltable);
+    result = newLucene<DutchStemFilter>(result, excltable, stemdict);
     return result;
 }
 
@@ -85,7 +85,7 @@ TokenStreamPtr DutchAnalyzer::reusableTokenStream(const String& fieldName, const
         streams->source = newLucene<StandardTokenizer>(matchVersion, reader);
         streams->result = newLucene<StandardFilter>(streams->source);
         streams->result = newLucene<StopFilter>(StopFilter::getEnablePositionIncrementsVersionDefault(matchVersion), streams->result, stoptable);
-        streams->result = newLucene<DutchStemFilter>(streams->result, excltable);
+        streams->result = newLucene<DutchStemFilter>(streams->result, excltable, stemdict);
         setPreviousTokenStream(streams);
     } else {
         streams->source->reset(reader);
-- 
2.43.0


From 4e3c98fd822f273cfc25dfcdf56975c6f3a4794f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:07 +0000
Subject: [PATCH 109/121] fix: stemming an empty term read before the start of
 the buffer

GermanStemmer and DutchStemmer index the last and first character of a
term, which an empty token (StandardTokenizer never makes one, but other
chains do) does not have.
---
 src/contrib/analyzers/common/analysis/de/GermanStemmer.cpp | 2 +-
 src/contrib/analyzers/common/analysis/nl/DutchStemmer.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/contrib/analyzers/common/analysis/de/GermanStemmer.cpp b/src/contrib/analyzers/common/analysis/de/GermanStemmer.cpp
index d6631ec..12b927e 100644
--- a/src/contrib/analyzers/common/analysis/de/GermanStemmer.cpp
+++ b/src/contrib/analyzers/common/analysis/de/GermanStemmer.cpp
@@ -23,7 +23,7 @@ GermanStemmer::~GermanStemmer() {
 String GermanStemmer::stem(const String& term) {
     // Use lowercase for medium stemming.
     buffer = StringUtils::toLower(term);
-    if (!isStemmable()) {
+    if (buffer.empty() || !isStemmable()) {
         return buffer;
     }
 
diff --git a/src/contrib/analyzers/common/analysis/nl/DutchStemmer.cpp b/src/contrib/analyzers/common/analysis/nl/DutchStemmer.cpp
index 9d6a8fb..1dd1b16 100644
--- a/src/contrib/analyzers/common/analysis/nl/DutchStemmer.cpp
+++ b/src/contrib/analyzers/common/analysis/nl/DutchStemmer.cpp
@@ -25,7 +25,7 @@ DutchStemmer::~DutchStemmer() {
 String DutchStemmer::stem(const String& term) {
     // Use lowercase for medium stemming.
     buffer = StringUtils::toLower(term);
-    if (!isStemmable()) {
+    if (buffer.empty() || !isStemmable()) {
         return buffer;
     }
 
-- 
2.43.0


From e10411c26eaf7eecf4a98515afaaf0d462619e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:20 +0000
Subject: [PATCH 110/121] fix: comparing token attributes crashed when only one
 of them has a payload

equals() (and toString()) used the missing payload.
---
 src/core/analysis/tokenattributes/PayloadAttribute.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/analysis/tokenattributes/PayloadAttribute.cpp b/src/core/analysis/tokenattributes/PayloadAttribute.cpp
index 217056d..c24ff10 100644
--- a/src/core/analysis/tokenattributes/PayloadAttribute.cpp
+++ b/src/core/analysis/tokenattributes/PayloadAttribute.cpp
@@ -22,7 +22,7 @@ PayloadAttribute::~PayloadAttribute() {
 }
 
 String PayloadAttribute::toString() {
-    return L"payload(length)=" + StringUtils::toString(payload->length());
+    return L"payload(length)=" + StringUtils::toString(payload ? payload->length() : 0);
 }
 
 PayloadPtr PayloadAttribute::getPayload() {
@@ -53,8 +53,8 @@ bool PayloadAttribute::equals(const LuceneObjectPtr& other) {
 
     PayloadAttributePtr otherAttribute(boost::dynamic_pointer_cast<PayloadAttribute>(other));
     if (otherAttribute) {
-        if (!otherAttribute->payload && !payload) {
-            return true;
+        if (!otherAttribute->payload || !payload) {
+            return (!otherAttribute->payload && !payload);
         }
         return otherAttribute->payload->equals(payload);
     }
-- 
2.43.0


From d465e4e0b2d577ffe89ce92bf2423e6898491d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:20 +0000
Subject: [PATCH 111/121] fix: payloads that start at an offset were compared
 by the bytes before them

equals() ignored the offset, and copyTo() accepted targets that are too
short by the target offset and wrote beyond their end.
---
 src/core/index/Payload.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/index/Payload.cpp b/src/core/index/Payload.cpp
index 1b01e97..35316eb 100644
--- a/src/core/index/Payload.cpp
+++ b/src/core/index/Payload.cpp
@@ -70,7 +70,7 @@ ByteArray Payload::toByteArray() {
 }
 
 void Payload::copyTo(ByteArray target, int32_t targetOffset) {
-    if (this->_length > target.size() + targetOffset) {
+    if (targetOffset < 0 || this->_length > target.size() - targetOffset) {
         boost::throw_exception(IndexOutOfBoundsException());
     }
     MiscUtils::arrayCopy(this->data.get(), this->offset, target.get(), targetOffset, this->_length);
@@ -104,7 +104,7 @@ bool Payload::equals(const LuceneObjectPtr& other) {
     PayloadPtr otherPayload(boost::dynamic_pointer_cast<Payload>(other));
     if (otherPayload) {
         if (_length == otherPayload->_length) {
-            return (std::memcmp(data.get(), otherPayload->data.get(), _length) == 0);
+            return (std::memcmp(data.get() + offset, otherPayload->data.get() + otherPayload->offset, _length) == 0);
         } else {
             return false;
         }
-- 
2.43.0


From 771479ac610e5fca069d59f0ccd541bdc1523229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:03 +0000
Subject: [PATCH 112/121] fix: EdgeNGramTokenizer never ended on a text longer
 than its buffer

Once the longest gram is out nothing follows, but the tokenizer waited for
the end of the text without reading any further.
---
 src/core/analysis/ngram/EdgeNGramTokenizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/analysis/ngram/EdgeNGramTokenizer.cpp b/src/core/analysis/ngram/EdgeNGramTokenizer.cpp
index 9324e5a..cb87b31 100644
--- a/src/core/analysis/ngram/EdgeNGramTokenizer.cpp
+++ b/src/core/analysis/ngram/EdgeNGramTokenizer.cpp
@@ -39,7 +39,7 @@ bool EdgeNGramTokenizer::incrementToken() {
         fillBuffer();
 
         if (gramSize > maxGram || bufferStart + gramSize > bufferEnd) {
-            if (exhausted) {
+            if (exhausted || gramSize > maxGram) {
                 return false;
             }
             continue;
-- 
2.43.0


From 0c31f84857697de20b17d90dddd792825f837ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:41 +0000
Subject: [PATCH 113/121] fix: terms that differ only in their last characters
 compared equal

TermAttribute::equals() compared as many bytes as the term has characters.
---
 src/core/analysis/tokenattributes/TermAttribute.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/analysis/tokenattributes/TermAttribute.cpp b/src/core/analysis/tokenattributes/TermAttribute.cpp
index e98fe62..11cfdb4 100644
--- a/src/core/analysis/tokenattributes/TermAttribute.cpp
+++ b/src/core/analysis/tokenattributes/TermAttribute.cpp
@@ -134,7 +134,7 @@ bool TermAttribute::equals(const LuceneObjectPtr& other) {
             return false;
         }
 
-        return (std::memcmp(_termBuffer.get(), otherTermAttribute->_termBuffer.get(), _termLength) == 0);
+        return (std::memcmp(_termBuffer.get(), otherTermAttribute->_termBuffer.get(), _termLength * sizeof(wchar_t)) == 0);
     }
 
     return false;
-- 
2.43.0


From 851051f4d7d03834e3422c00506d5ba052b7661c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:50 +0000
Subject: [PATCH 114/121] fix: the Porter stemmer compared and replaced only
 parts of suffixes

Suffix lengths are in characters, but memcmp() and memmove() count bytes, so
that words were stemmed by the first character of a suffix and the
replacement was not written completely.
---
 src/core/analysis/PorterStemmer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/analysis/PorterStemmer.cpp b/src/core/analysis/PorterStemmer.cpp
index 8947eef..3bfb6cd 100644
--- a/src/core/analysis/PorterStemmer.cpp
+++ b/src/core/analysis/PorterStemmer.cpp
@@ -149,7 +149,7 @@ bool PorterStemmer::ends(const wchar_t* s) {
     if (length > k + 1) {
         return false;
     }
-    if (std::memcmp(b + k - length + 1, s + 1, length) != 0) {
+    if (std::wmemcmp(b + k - length + 1, s + 1, length) != 0) {
         return false;
     }
     j = k - length;
@@ -158,7 +158,7 @@ bool PorterStemmer::ends(const wchar_t* s) {
 
 void PorterStemmer::setto(const wchar_t* s) {
     int32_t length = s[0];
-    std::memmove(b + j + 1, s + 1, length);
+    std::wmemmove(b + j + 1, s + 1, length);
     k = j + length;
     dirty = true;
 }
-- 
2.43.0


From e7d115284b4e27d914d13e7e33a8af42f0482b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:17 +0000
Subject: [PATCH 115/121] fix: the Porter stemmer read before the start of the
 word ion

---
 src/core/analysis/PorterStemmer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/analysis/PorterStemmer.cpp b/src/core/analysis/PorterStemmer.cpp
index 3bfb6cd..1d21c88 100644
--- a/src/core/analysis/PorterStemmer.cpp
+++ b/src/core/analysis/PorterStemmer.cpp
@@ -409,7 +409,7 @@ void PorterStemmer::step4() {
         }
         return;
     case L'o':
-        if (ends(L"\03" L"ion") && (b[j] == L's' || b[j] == L't')) {
+        if (ends(L"\03" L"ion") && j >= 0 && (b[j] == L's' || b[j] == L't')) {
             break;
         }
         if (ends(L"\02" L"ou")) {
-- 
2.43.0


From cc218d70a45b6e2194d8c48b1bd48c8deacef696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:13 +0000
Subject: [PATCH 116/121] fix: using a writer while another thread closed it
 crashed

close() released the document writer, which calls that had passed their
check that the writer is open (flushes, addIndexes) still used.
---
 src/core/index/IndexWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/index/IndexWriter.cpp b/src/core/index/IndexWriter.cpp
index ccc7ec8..83d9a6c 100644
--- a/src/core/index/IndexWriter.cpp
+++ b/src/core/index/IndexWriter.cpp
@@ -739,7 +739,7 @@ void IndexWriter::closeInternal(bool waitForMerges) {
         {
             SyncLock syncLock(this);
             readerPool->close();
-            docWriter.reset();
+            // docWriter stays, as other threads may still be in the middle of calls that use it
             deleter->close();
         }
 
-- 
2.43.0


From 9233b92372b7e1b785e8187818c5e247356fff04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:29 +0000
Subject: [PATCH 117/121] fix: ASCIIFoldingFilter folded two small letters g to
 a capital

---
 src/core/analysis/ASCIIFoldingFilter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/analysis/ASCIIFoldingFilter.cpp b/src/core/analysis/ASCIIFoldingFilter.cpp
index 0d0ca4f..681ee2e 100644
--- a/src/core/analysis/ASCIIFoldingFilter.cpp
+++ b/src/core/analysis/ASCIIFoldingFilter.cpp
@@ -460,9 +460,7 @@ void ASCIIFoldingFilter::foldToASCII(const wchar_t* input, int32_t length) {
             case 0x0122: // [LATIN CAPITAL LETTER G WITH CEDILLA]
             case 0x0193: // [LATIN CAPITAL LETTER G WITH HOOK]
             case 0x01E4: // [LATIN CAPITAL LETTER G WITH STROKE]
-            case 0x01E5: // [LATIN SMALL LETTER G WITH STROKE]
             case 0x01E6: // [LATIN CAPITAL LETTER G WITH CARON]
-            case 0x01E7: // [LATIN SMALL LETTER G WITH CARON]
             case 0x01F4: // [LATIN CAPITAL LETTER G WITH ACUTE]
             case 0x0262: // [LATIN LETTER SMALL CAPITAL G]
             case 0x029B: // [LATIN LETTER SMALL CAPITAL G WITH HOOK]
@@ -477,6 +475,8 @@ void ASCIIFoldingFilter::foldToASCII(const wchar_t* input, int32_t length) {
             case 0x011F: // [LATIN SMALL LETTER G WITH BREVE]
             case 0x0121: // [LATIN SMALL LETTER G WITH DOT ABOVE]
             case 0x0123: // [LATIN SMALL LETTER G WITH CEDILLA]
+            case 0x01E5: // [LATIN SMALL LETTER G WITH STROKE]
+            case 0x01E7: // [LATIN SMALL LETTER G WITH CARON]
             case 0x01F5: // [LATIN SMALL LETTER G WITH ACUTE]
             case 0x0260: // [LATIN SMALL LETTER G WITH HOOK]
             case 0x0261: // [LATIN SMALL LETTER SCRIPT G]
-- 
2.43.0


From 7093968597142bf99f14e031088c931865559d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:29 +0000
Subject: [PATCH 118/121] fix: MappingCharFilter deleted text that is only the
 beginning of a mapping

---
 include/lucene++/NormalizeCharMap.h     | 1 +
 src/core/analysis/MappingCharFilter.cpp | 2 +-
 src/core/analysis/NormalizeCharMap.cpp  | 4 +++-
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/lucene++/NormalizeCharMap.h b/include/lucene++/NormalizeCharMap.h
index 470456d..9a57bcf 100644
--- a/include/lucene++/NormalizeCharMap.h
+++ b/include/lucene++/NormalizeCharMap.h
@@ -22,6 +22,7 @@ public:
 public:
     MapCharNormalizeCharMap submap;
     String normStr;
+    bool mapped; // true if an input ends here (its replacement may be empty)
     int32_t diff;
 
 public:
diff --git a/src/core/analysis/MappingCharFilter.cpp b/src/core/analysis/MappingCharFilter.cpp
index da8761c..0d6c998 100644
--- a/src/core/analysis/MappingCharFilter.cpp
+++ b/src/core/analysis/MappingCharFilter.cpp
@@ -97,7 +97,7 @@ NormalizeCharMapPtr MappingCharFilter::match(const NormalizeCharMapPtr& map) {
             }
         }
     }
-    if (!result) {
+    if (!result && map->mapped) {
         result = map;
     }
     return result;
diff --git a/src/core/analysis/NormalizeCharMap.cpp b/src/core/analysis/NormalizeCharMap.cpp
index df1a6af..bf8d8b1 100644
--- a/src/core/analysis/NormalizeCharMap.cpp
+++ b/src/core/analysis/NormalizeCharMap.cpp
@@ -10,6 +10,7 @@
 namespace Lucene {
 
 NormalizeCharMap::NormalizeCharMap() {
+    mapped = false;
     diff = 0;
 }
 
@@ -29,9 +30,10 @@ void NormalizeCharMap::add(const String& singleMatch, const String& replacement)
         }
         currMap = map;
     }
-    if (!currMap->normStr.empty()) {
+    if (currMap->mapped) {
         boost::throw_exception(RuntimeException(L"MappingCharFilter: there is already a mapping for " + singleMatch));
     }
+    currMap->mapped = true;
     currMap->normStr = replacement;
     currMap->diff = (int32_t)(singleMatch.length() - replacement.length());
 }
-- 
2.43.0


From 4e1bf919aaf26184839cf2e48210b9132eaa7197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:21 +0000
Subject: [PATCH 119/121] fix: MappingCharFilter shifted the offsets after a
 match tried at the end of the text

---
 src/core/analysis/MappingCharFilter.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/analysis/MappingCharFilter.cpp b/src/core/analysis/MappingCharFilter.cpp
index 0d6c998..2bfc212 100644
--- a/src/core/analysis/MappingCharFilter.cpp
+++ b/src/core/analysis/MappingCharFilter.cpp
@@ -61,11 +61,11 @@ int32_t MappingCharFilter::read() {
 }
 
 int32_t MappingCharFilter::nextChar() {
-    ++nextCharCounter;
-    if (buffer && !buffer.empty()) {
-        return buffer.removeFirst();
+    int32_t c = buffer && !buffer.empty() ? (int32_t)buffer.removeFirst() : input->read();
+    if (c != -1) {
+        ++nextCharCounter;
     }
-    return input->read();
+    return c;
 }
 
 void MappingCharFilter::pushChar(int32_t c) {
-- 
2.43.0


From 01bf002c284e68af8b4c175babb99b96936f70c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:21 +0000
Subject: [PATCH 120/121] fix: BaseCharFilter chose any of several corrections
 of the same offset

---
 src/core/analysis/BaseCharFilter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/analysis/BaseCharFilter.cpp b/src/core/analysis/BaseCharFilter.cpp
index 0681139..f34761b 100644
--- a/src/core/analysis/BaseCharFilter.cpp
+++ b/src/core/analysis/BaseCharFilter.cpp
@@ -56,6 +56,10 @@ void BaseCharFilter::addOffCorrectMap(int32_t off, int32_t cumulativeDiff) {
     if (!offsets) {
         offsets = IntArray::newInstance(64);
         diffs = IntArray::newInstance(64);
+    } else if (size > 0 && offsets[size - 1] == off) {
+        // several corrections of one offset, as of successive deletions: the last one holds
+        diffs[size - 1] = cumulativeDiff;
+        return;
     } else if (size == offsets.size()) {
         offsets.resize(MiscUtils::getNextSize(offsets.size()));
         diffs.resize(MiscUtils::getNextSize(diffs.size()));
-- 
2.43.0


From 3b38e1aa9ca3be064cb5060bb60e6d1f9e011506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:09 +0000
Subject: [PATCH 121/121] fix: tokenizers ignored the offset corrections of
 their char filter: StandardTokenizer always, the others after reset

---
 src/core/analysis/Tokenizer.cpp                  | 1 +
 src/core/analysis/standard/StandardTokenizer.cpp | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/core/analysis/Tokenizer.cpp b/src/core/analysis/Tokenizer.cpp
index 67ff5af..a003f3b 100644
--- a/src/core/analysis/Tokenizer.cpp
+++ b/src/core/analysis/Tokenizer.cpp
@@ -50,6 +50,7 @@ int32_t Tokenizer::correctOffset(int32_t currentOff) {
 
 void Tokenizer::reset(const ReaderPtr& input) {
     this->input = input;
+    this->charStream = boost::dynamic_pointer_cast<CharStream>(input);
 }
 
 }
diff --git a/src/core/analysis/standard/StandardTokenizer.cpp b/src/core/analysis/standard/StandardTokenizer.cpp
index 1f0c66a..545f86c 100644
--- a/src/core/analysis/standard/StandardTokenizer.cpp
+++ b/src/core/analysis/standard/StandardTokenizer.cpp
@@ -6,6 +6,7 @@
 
 #include "LuceneInc.h"
 #include "StandardTokenizer.h"
+#include "CharStream.h"
 #include "StandardTokenizerImpl.h"
 #include "StandardAnalyzer.h"
 #include "TermAttribute.h"
@@ -67,6 +68,7 @@ void StandardTokenizer::init(const ReaderPtr& input, LuceneVersion::Version matc
     replaceInvalidAcronym = LuceneVersion::onOrAfter(matchVersion, LuceneVersion::LUCENE_24);
     maxTokenLength = StandardAnalyzer::DEFAULT_MAX_TOKEN_LENGTH;
     this->input = input;
+    this->charStream = boost::dynamic_pointer_cast<CharStream>(input);
     termAtt = addAttribute<TermAttribute>();
     offsetAtt = addAttribute<OffsetAttribute>();
     posIncrAtt = addAttribute<PositionIncrementAttribute>();
-- 
2.43.0

