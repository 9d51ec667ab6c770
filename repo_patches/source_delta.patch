From 1ee964fb3fb7ae6e1ba2a1c33f49924ba64bfc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:17 +0000
Subject: [PATCH 01/47] fix: RecordManager: purging keeps the most recent state
 & configuration records, in time order

When several configuration or state records had the same timestamp, purging kept the oldest one, not the
most recent one. Also, the records kept were moved to the front of the list regardless of their timestamps,
which left the list unsorted, breaking later purges and collections.
---
 vrs/RecordManager.cpp | 42 ++++++++++++++----------------------------
 1 file changed, 14 insertions(+), 28 deletions(-)

diff --git a/vrs/RecordManager.cpp b/vrs/RecordManager.cpp
index 9ff891c..a462be2 100644
--- a/vrs/RecordManager.cpp
+++ b/vrs/RecordManager.cpp
@@ -128,27 +128,23 @@ uint32_t RecordManager::purgeOldRecords(double oldestTimestamp, bool recycleBuff
   uint32_t count = 0;
   unique_lock<mutex> guard{mutex_};
   // we purge everything "old", but we keep the newest state & configuration records,
-  // and all TagsRecords
-  Record* lastState = nullptr;
-  Record* lastConfiguration = nullptr;
-  list<Record*> tagsRecords;
+  // and all TagsRecords. The records we keep stay in place, so that activeRecords_ stays sorted.
+  auto lastState = activeRecords_.end();
+  auto lastConfiguration = activeRecords_.end();
   auto iter = activeRecords_.begin();
   while (iter != activeRecords_.end() && (*iter)->timestamp_ < oldestTimestamp) {
-    Record* record = *iter;
-    activeRecords_.erase(iter);
-    if (record->getRecordType() == Record::Type::STATE &&
-        (lastState == nullptr || lastState->getTimestamp() < record->getTimestamp())) {
-      swap(record, lastState);
-    } else if (
-        record->getRecordType() == Record::Type::CONFIGURATION &&
-        (lastConfiguration == nullptr ||
-         lastConfiguration->getTimestamp() < record->getTimestamp())) {
-      swap(record, lastConfiguration);
-    } else if (record->getRecordType() == Record::Type::TAGS) {
-      tagsRecords.push_back(record);
-      record = nullptr;
+    auto toPurge = iter++;
+    const Record::Type recordType = (*toPurge)->getRecordType();
+    if (recordType == Record::Type::STATE) {
+      swap(toPurge, lastState); // keep this newer state record, purge the previous one, if any
+    } else if (recordType == Record::Type::CONFIGURATION) {
+      swap(toPurge, lastConfiguration);
+    } else if (recordType == Record::Type::TAGS) {
+      toPurge = activeRecords_.end();
     }
-    if (record != nullptr) {
+    if (toPurge != activeRecords_.end()) {
+      Record* record = *toPurge;
+      activeRecords_.erase(toPurge);
       if (recycleBuffers && cache_.size() < maxCacheSize_) {
         cache_.emplace_back(record);
       } else {
@@ -156,16 +152,6 @@ uint32_t RecordManager::purgeOldRecords(double oldestTimestamp, bool recycleBuff
       }
       ++count;
     }
-    iter = activeRecords_.begin();
-  }
-  if (lastState != nullptr) {
-    activeRecords_.emplace_front(lastState);
-  }
-  if (lastConfiguration != nullptr) {
-    activeRecords_.emplace_front(lastConfiguration);
-  }
-  if (!tagsRecords.empty()) {
-    activeRecords_.insert(activeRecords_.begin(), tagsRecords.begin(), tagsRecords.end());
   }
   return count;
 }
-- 
2.43.0


From 1e9e744b26d48cdda6cf3474289b0603909ce7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:17 +0000
Subject: [PATCH 02/47] fix: RecordFileWriter: don't crash in writeToFile()
 when using compression threads

writeRecordsMultiThread() dereferenced the background writer thread's data, which only exists when
writing in the background, so writeToFile() crashed once setCompressionThreadPoolSize() was used.
---
 vrs/RecordFileWriter.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/vrs/RecordFileWriter.cpp b/vrs/RecordFileWriter.cpp
index ae18dbd..070a601 100644
--- a/vrs/RecordFileWriter.cpp
+++ b/vrs/RecordFileWriter.cpp
@@ -1159,10 +1159,13 @@ int RecordFileWriter::writeRecordsMultiThread(
       }
     }
     // Grab any new record ready to write, to feed our background threads ASAP
-    autoCollectRecords(true);
-    size_t previousSize = recordsToCompress.size();
-    if (addRecordsReadyToWrite(recordsToCompress)) {
-      recordsToWriteCount += recordsToCompress.size() - previousSize;
+    // (only when writing in the background: writeToFile() collected everything upfront)
+    if (writerThreadData_ != nullptr) {
+      autoCollectRecords(true);
+      size_t previousSize = recordsToCompress.size();
+      if (addRecordsReadyToWrite(recordsToCompress)) {
+        recordsToWriteCount += recordsToCompress.size() - previousSize;
+      }
     }
   }
 
-- 
2.43.0


From 823329c5e42ef9a00ff7d1ae15a51b46df479326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:18 +0000
Subject: [PATCH 03/47] fix: RecordFileWriter: writeToFile() cleans up when the
 file can't be created

When createFile() failed part-way in writeToFile(), the file was left opened, so that isWriting() stayed
true and no other file could be created, and all the records collected were leaked.
---
 vrs/RecordFileWriter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vrs/RecordFileWriter.cpp b/vrs/RecordFileWriter.cpp
index 070a601..fbb5056 100644
--- a/vrs/RecordFileWriter.cpp
+++ b/vrs/RecordFileWriter.cpp
@@ -373,6 +373,11 @@ int RecordFileWriter::writeToFile(const string& filePath) {
   }
   int error = createFile(filePath, false);
   if (error != 0) {
+    preliminaryIndex_.reset(); // these records won't be written
+    for (const auto& r : allRecords) {
+      r.record->recycle();
+    }
+    file_->close();
     return error;
   }
   error = writeRecords(allRecords, error);
-- 
2.43.0


From 59299d80d1e69e03e0230786de95d274d9b95ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:37 +0000
Subject: [PATCH 04/47] fix: RecordFileWriter: don't reuse header offsets of a
 previously written file

fileHeader_.init() doesn't reset the index and first user record offsets. When a file was written with
a preallocated index (writeToFile(), preallocateIndex()) or a split head, then another file was created
using the same RecordFileWriter without either, the new file's header pointed to the previous file's first
record, and its records couldn't be read.
---
 vrs/RecordFileWriter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vrs/RecordFileWriter.cpp b/vrs/RecordFileWriter.cpp
index fbb5056..12bdba7 100644
--- a/vrs/RecordFileWriter.cpp
+++ b/vrs/RecordFileWriter.cpp
@@ -893,6 +893,7 @@ int RecordFileWriter::createFile(const string& filePath, bool splitHead) {
     }
     return error;
   }
+  fileHeader_ = {}; // don't keep any offset from a previous file
   fileHeader_.init();
   fileHeader_.descriptionRecordOffset = sizeof(fileHeader_);
   IF_ERROR_LOG_CLOSE_AND_RETURN(head.write(fileHeader_))
-- 
2.43.0


From 9718ea81d5688b11da6aa691d5aa7944bea69669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:58 +0000
Subject: [PATCH 05/47] fix: IndexRecord: a complete split file with no record
 has an index

After a split head, when the recording has no record at all, the second chunk is empty, and the reader
rejected the complete (empty) index, which was needlessly rebuilt, and hasIndex() was false.
---
 vrs/IndexRecord.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vrs/IndexRecord.cpp b/vrs/IndexRecord.cpp
index 7d39b43..b9fc4da 100644
--- a/vrs/IndexRecord.cpp
+++ b/vrs/IndexRecord.cpp
@@ -486,7 +486,8 @@ bool IndexRecord::Reader::determineSplitIndexLayout(
   outNoRecords = (firstUserRecordOffset == totalFileSize_);
   int64_t currentPos = file_.getPos();
   int64_t chunkStart{}, chunkSize{};
-  if (!XR_VERIFY(file_.getChunkRange(chunkStart, chunkSize) == 0) || !XR_VERIFY(chunkSize > 0) ||
+  if (!XR_VERIFY(file_.getChunkRange(chunkStart, chunkSize) == 0) ||
+      !XR_VERIFY(chunkSize > 0 || outNoRecords) ||
       !XR_VERIFY(
           (currentPos >= chunkStart && currentPos < chunkStart + chunkSize) ||
           currentPos == totalFileSize_ && outNoRecords)) {
@@ -522,7 +523,7 @@ bool IndexRecord::Reader::determineSplitIndexLayout(
   } else {
     // We're already at the next chunk! there is no data in the index!
     inOutIndexByteSize = 0;
-    indexComplete_ = false;
+    indexComplete_ = outNoRecords; // nothing's missing if the file has no record
     hasSplitHeadChunk_ = chunkStart < totalFileSize_;
     firstUserRecordOffset = currentPos;
   }
-- 
2.43.0


From b606e24daa3a5fe29bef18e40bb6dd03ba933bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:52 +0000
Subject: [PATCH 06/47] fix: RecordFileWriter: tags of a stream added to a
 previous file don't override newer tags in the next file

---
 vrs/RecordFileWriter.cpp |  8 ++++++++
 vrs/RecordManager.cpp    | 13 +++++++++++++
 vrs/RecordManager.h      |  5 +++++
 3 files changed, 26 insertions(+)

diff --git a/vrs/RecordFileWriter.cpp b/vrs/RecordFileWriter.cpp
index 12bdba7..1a17bb1 100644
--- a/vrs/RecordFileWriter.cpp
+++ b/vrs/RecordFileWriter.cpp
@@ -360,6 +360,10 @@ int RecordFileWriter::writeToFile(const string& filePath) {
   if (isWriting()) {
     return FILE_ALREADY_OPEN;
   }
+  // the file's description will have the current tags, so drop tags meant for a previous file
+  for (auto* recordable : getRecordables()) {
+    recordable->getRecordManager().purgeTagsRecords();
+  }
   // collect all the records
   RecordBatches recordBatches;
   recordBatches.emplace_back(new RecordBatch());
@@ -507,6 +511,10 @@ int RecordFileWriter::createFileAsync(const string& filePath, bool splitHead) {
   if (writerThreadData_ != nullptr) {
     return FILE_ALREADY_OPEN; // only one thread allowed!
   }
+  // the file's description will have the current tags, so drop tags meant for a previous file
+  for (auto* recordable : getRecordables()) {
+    recordable->getRecordManager().purgeTagsRecords();
+  }
   int error = createFile(filePath, splitHead);
   if (error != 0) {
     indexRecordWriter_.reset();
diff --git a/vrs/RecordManager.cpp b/vrs/RecordManager.cpp
index a462be2..a2cce30 100644
--- a/vrs/RecordManager.cpp
+++ b/vrs/RecordManager.cpp
@@ -156,6 +156,19 @@ uint32_t RecordManager::purgeOldRecords(double oldestTimestamp, bool recycleBuff
   return count;
 }
 
+void RecordManager::purgeTagsRecords() {
+  unique_lock<mutex> guard{mutex_};
+  for (auto iter = activeRecords_.begin(); iter != activeRecords_.end();) {
+    Record* record = *iter;
+    if (record->getRecordType() == Record::Type::TAGS) {
+      iter = activeRecords_.erase(iter);
+      delete record;
+    } else {
+      ++iter;
+    }
+  }
+}
+
 void RecordManager::purgeCache() {
   unique_lock<mutex> guard{mutex_};
   for (Record* record : cache_) {
diff --git a/vrs/RecordManager.h b/vrs/RecordManager.h
index eb39890..7496bbc 100644
--- a/vrs/RecordManager.h
+++ b/vrs/RecordManager.h
@@ -82,6 +82,11 @@ class VRS_API RecordManager {
   /// @return Number of records purged.
   uint32_t purgeOldRecords(double oldestTimestamp, bool recycleBuffers = true);
 
+  /// Delete the TAGS records not written yet, because a new file is about to be created, and its
+  /// description will have the current tags.
+  /// @internal
+  void purgeTagsRecords();
+
   /// Release as much memory as possible, by deleting all the records in the cache.
   void purgeCache();
 
-- 
2.43.0


From 078ad42d8a8cf2c8458017138e8462d2106de0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:52 +0000
Subject: [PATCH 07/47] fix: RecordFileWriter: createChunkedFile() while
 writing, or failing, leaves no chunk handler or limit behind

---
 vrs/RecordFileWriter.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/vrs/RecordFileWriter.cpp b/vrs/RecordFileWriter.cpp
index 1a17bb1..f15b341 100644
--- a/vrs/RecordFileWriter.cpp
+++ b/vrs/RecordFileWriter.cpp
@@ -549,9 +549,16 @@ int RecordFileWriter::createChunkedFile(
     const string& filePath,
     size_t maxChunkSizeMB,
     unique_ptr<NewChunkHandler>&& chunkHandler) {
+  if (writerThreadData_ != nullptr) {
+    return FILE_ALREADY_OPEN; // don't touch the settings of the file being written
+  }
   setMaxChunkSizeMB(maxChunkSizeMB);
   newChunkHandler_ = std::move(chunkHandler);
-  return createFileAsync(filePath, true);
+  int error = createFileAsync(filePath, true);
+  if (error != 0) {
+    newChunkHandler_.reset(); // not for another file
+  }
+  return error;
 }
 
 void RecordFileWriter::setMaxChunkSizeMB(size_t maxChunkSizeMB) {
-- 
2.43.0


From 6068382e129dc1ef1862444841f7be9734b2c477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:35 +0000
Subject: [PATCH 08/47] fix: IndexRecord: repairing an index also drops the
 last record considered suspicious

---
 vrs/IndexRecord.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vrs/IndexRecord.cpp b/vrs/IndexRecord.cpp
index b9fc4da..2455655 100644
--- a/vrs/IndexRecord.cpp
+++ b/vrs/IndexRecord.cpp
@@ -951,6 +951,9 @@ int IndexRecord::Reader::rebuildIndex(bool writeFixedIndex) {
     XR_LOGW(
         "Reindexing: record #{}. Discarding last record, because it's suspicious.", index_.size());
     index_.pop_back(); // don't trust that last record
+    if (diskIndex_) {
+      diskIndex_->pop_back();
+    }
     absolutePosition -= previousRecordSize;
   }
 
-- 
2.43.0


From 4f1ef08da921968d6822100bc314cf89834653dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:39 +0000
Subject: [PATCH 09/47] fix: looking up records of an unknown stream no longer
 breaks the next file's stream indexes

---
 vrs/RecordFileReader.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/vrs/RecordFileReader.cpp b/vrs/RecordFileReader.cpp
index 7bfa0dc..544925f 100644
--- a/vrs/RecordFileReader.cpp
+++ b/vrs/RecordFileReader.cpp
@@ -882,7 +882,13 @@ const vector<const IndexRecord::RecordInfo*>& RecordFileReader::getIndex(StreamI
       streamIndex_[recordIndex.streamId].emplace_back(&recordIndex);
     }
   }
-  return streamIndex_[streamId];
+  // Never add an entry for an unknown stream: a non-empty streamIndex_ is a complete index.
+  auto iter = streamIndex_.find(streamId);
+  if (iter != streamIndex_.end()) {
+    return iter->second;
+  }
+  static const vector<const IndexRecord::RecordInfo*> sEmptyIndex;
+  return sEmptyIndex;
 }
 
 uint32_t RecordFileReader::getRecordCount(StreamId streamId) const {
-- 
2.43.0


From 205c1ac20c764ebe96915960a62ac350b711dd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:39 +0000
Subject: [PATCH 10/47] fix: a record declined after reading some of it no
 longer disturbs the next compressed record

---
 vrs/RecordFileReader.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vrs/RecordFileReader.cpp b/vrs/RecordFileReader.cpp
index 544925f..093e825 100644
--- a/vrs/RecordFileReader.cpp
+++ b/vrs/RecordFileReader.cpp
@@ -1291,6 +1291,8 @@ int RecordFileReader::readRecord(
     reader->finish();
     return streamPlayer->recordReadComplete(*this, recordInfo);
   }
+  // the player may have read data using the record reader, before declining the record
+  reader->finish();
   return 0;
 }
 
-- 
2.43.0


From a75640ddc2762a5d47da33d820e0a5ca6b8c9e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:00 +0000
Subject: [PATCH 11/47] fix: filtered reading skipped records exactly at the
 start of the time range

lower_bound() compared full records, so records at the minimum timestamp but with a
stream id or file position ordered before the search key were left out.
---
 vrs/utils/FilteredFileReader.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/vrs/utils/FilteredFileReader.cpp b/vrs/utils/FilteredFileReader.cpp
index f448ac9..5f1027e 100644
--- a/vrs/utils/FilteredFileReader.cpp
+++ b/vrs/utils/FilteredFileReader.cpp
@@ -492,6 +492,16 @@ string FilteredFileReader::getTimeConstraintDescription() {
   return filter.getTimeConstraintDescription();
 }
 
+// Find the first record at or after a time: only the timestamps matter, streams & offsets don't!
+inline vector<IndexRecord::RecordInfo>::const_iterator firstRecordFrom(
+    const vector<IndexRecord::RecordInfo>& records,
+    double time) {
+  return lower_bound(
+      records.begin(), records.end(), time, [](const IndexRecord::RecordInfo& record, double t) {
+        return record.timestamp < t;
+      });
+}
+
 inline bool configOrStateRecord(const IndexRecord::RecordInfo& record) {
   return record.recordType == Record::Type::CONFIGURATION ||
       record.recordType == Record::Type::STATE;
@@ -514,9 +524,7 @@ void FilteredFileReader::preRollConfigAndState(const RecordReaderFunc& recordRea
   }
   vector<size_t> indexes;
   const auto& records = reader.getIndex();
-  // to compare: only the timestamps matters!
-  IndexRecord::RecordInfo firstTime(filter.minTime, 0, StreamId(), Record::Type::UNDEFINED);
-  auto lowerBound = lower_bound(records.begin(), records.end(), firstTime);
+  auto lowerBound = firstRecordFrom(records, filter.minTime);
   if (lowerBound != records.end()) {
     size_t index = static_cast<size_t>(lowerBound - records.begin()); // guaranteed positive
     // For each stream & record type, track the records we need to write
@@ -602,8 +610,7 @@ void FilteredFileReader::iterateAdvanced(
   }
 
   const auto& records = reader.getIndex();
-  IndexRecord::RecordInfo firstTime(filter.minTime, 0, StreamId(), Record::Type::UNDEFINED);
-  auto lowerBound = lower_bound(records.begin(), records.end(), firstTime);
+  auto lowerBound = firstRecordFrom(records, filter.minTime);
   if (lowerBound != records.end()) {
     size_t first = static_cast<size_t>(lowerBound - records.begin());
     for (size_t k = first; keepGoing && k < records.size(); ++k) {
-- 
2.43.0


From 3da08b6aa95adc2d5eb23e49bf6d3dab68f516bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:00 +0000
Subject: [PATCH 12/47] fix: compareVRSfiles missed differing format versions
 and extra or missing records

Records only present in one file, and records whose format version differ, were not
reported. Only consider the second file's selected streams, and look at the records
before the time range after the players were set.
---
 vrs/utils/Validation.cpp | 129 +++++++++++++++++++++++----------------
 1 file changed, 76 insertions(+), 53 deletions(-)

diff --git a/vrs/utils/Validation.cpp b/vrs/utils/Validation.cpp
index 7501f8c..2cf1029 100644
--- a/vrs/utils/Validation.cpp
+++ b/vrs/utils/Validation.cpp
@@ -654,6 +654,7 @@ namespace {
 class RecordHolder : public StreamPlayer {
  public:
   bool processRecordHeader(const CurrentRecord& record, DataReference& outDataReference) override {
+    formatVersion_ = record.formatVersion;
     buffer_.resize(record.recordSize);
     outDataReference.useVector(buffer_);
     return true;
@@ -664,12 +665,16 @@ class RecordHolder : public StreamPlayer {
   const vector<char>& getBuffer() const {
     return buffer_;
   }
+  uint32_t getFormatVersion() const {
+    return formatVersion_;
+  }
   size_t getReadCounter() const {
     return readCounter_;
   }
 
  private:
   size_t readCounter_ = 0;
+  uint32_t formatVersion_ = 0;
   vector<char> buffer_;
 };
 
@@ -678,74 +683,73 @@ class RecordMaster : public StreamPlayer {
   RecordMaster(
       atomic<int>& diffCounter,
       bool& noError,
-      StreamId matchingId,
       RecordFileReader& matchingReader,
       RecordHolder* holder)
-      : diffCounter_{diffCounter},
-        noError_{noError},
-        id_{matchingId},
-        reader_{matchingReader},
-        holder_{holder},
-        index_{reader_.getIndex(id_)} {}
+      : diffCounter_{diffCounter}, noError_{noError}, reader_{matchingReader}, holder_{holder} {}
   bool processRecordHeader(const CurrentRecord& record, DataReference& outDataReference) override {
     buffer_.resize(record.recordSize);
     outDataReference.useVector(buffer_);
     return true;
   }
   void processRecord(const CurrentRecord& record, uint32_t /*readSize*/) override {
-    readCounter_++;
-    while (lastRecord_ < index_.size() && index_[lastRecord_]->timestamp < record.timestamp) {
-      lastRecord_++;
+    // find the next record of the matching stream with the same timestamp and type
+    while (nextRecord_ < index_.size() &&
+           (index_[nextRecord_]->timestamp < record.timestamp ||
+            (index_[nextRecord_]->timestamp == record.timestamp &&
+             index_[nextRecord_]->recordType != record.recordType))) {
+      nextRecord_++;
+      unmatchedCount_++;
     }
-    if (lastRecord_ >= index_.size() || index_[lastRecord_]->timestamp > record.timestamp) {
+    if (nextRecord_ >= index_.size() || index_[nextRecord_]->timestamp > record.timestamp) {
       diffCounter_++;
       return;
     }
-    // we have the first record with the same timestamp, but is the type the right one?
-    size_t typeIndex = lastRecord_;
-    while (typeIndex < index_.size() && index_[typeIndex]->timestamp <= record.timestamp &&
-           index_[typeIndex]->recordType != record.recordType) {
-      typeIndex++;
-    }
-    if (typeIndex < index_.size() && index_[typeIndex]->timestamp <= record.timestamp &&
-        index_[typeIndex]->recordType == record.recordType) {
-      // found a match, read that record & compare the buffers
-      if (reader_.readRecord(*index_[typeIndex]) != 0) {
-        noError_ = false;
-        cerr << "Record " << record.streamId.getNumericName() << " t: " << fixed << setprecision(3)
-             << record.timestamp << " " << toString(record.recordType)
-             << " Error while reading the record.\n";
+    // found a match, read that record & compare the buffers
+    readCounter_++;
+    if (reader_.readRecord(*index_[nextRecord_++]) != 0) {
+      noError_ = false;
+      diffCounter_++;
+      cerr << "Record " << record.streamId.getNumericName() << " t: " << fixed << setprecision(3)
+           << record.timestamp << " " << toString(record.recordType)
+           << " Error while reading the record.\n";
+    } else if (holder_->getReadCounter() != readCounter_) {
+      cerr << "Record counter is different.\n";
+      diffCounter_++;
+    } else if (holder_->getFormatVersion() != record.formatVersion) {
+      cerr << "Record " << record.streamId.getNumericName() << " t: " << fixed << setprecision(3)
+           << record.timestamp << " " << toString(record.recordType)
+           << " format version mismatch.\n";
+      diffCounter_++;
+    } else if (holder_->getBuffer() != buffer_) {
+      diffCounter_++;
+      cerr << "Record " << record.streamId.getNumericName() << " t: " << fixed << setprecision(3)
+           << record.timestamp << " " << toString(record.recordType) << " payload mismatch.\n";
+      const vector<char>& otherBuffer = holder_->getBuffer();
+      if (otherBuffer.size() != buffer_.size()) {
+        cerr << "Payload sizes differ: " << buffer_.size() << " vs. " << otherBuffer.size()
+             << ".\n";
       } else {
-        if (holder_->getReadCounter() != readCounter_) {
-          cerr << "Record counter is different.\n";
-          diffCounter_++;
-        } else if (holder_->getBuffer() != buffer_) {
-          diffCounter_++;
-          cerr << "Record " << record.streamId.getNumericName() << " t: " << fixed
-               << setprecision(3) << record.timestamp << " " << toString(record.recordType)
-               << " payload mismatch.\n";
-          const vector<char>& otherBuffer = holder_->getBuffer();
-          if (otherBuffer.size() != buffer_.size()) {
-            cerr << "Payload sizes differ: " << buffer_.size() << " vs. " << otherBuffer.size()
-                 << ".\n";
-          } else {
-            const size_t kLineSize = 8; // How many bytes per line
-            const bool kPrintAscii = false;
-            printDifferences(buffer_, otherBuffer, kLineSize, kPrintAscii);
-          }
-        }
+        const size_t kLineSize = 8; // How many bytes per line
+        const bool kPrintAscii = false;
+        printDifferences(buffer_, otherBuffer, kLineSize, kPrintAscii);
       }
     }
   }
+  void addMatchingRecord(const IndexRecord::RecordInfo& record) {
+    index_.push_back(&record);
+  }
+  size_t getUnmatchedCount() const {
+    return unmatchedCount_ + index_.size() - nextRecord_;
+  }
 
  private:
   atomic<int>& diffCounter_;
   bool& noError_;
-  StreamId id_;
   RecordFileReader& reader_;
   RecordHolder* holder_;
-  const vector<const IndexRecord::RecordInfo*>& index_;
-  size_t lastRecord_{};
+  vector<const IndexRecord::RecordInfo*> index_; // selected records of the matching stream
+  size_t nextRecord_{};
+  size_t unmatchedCount_{};
   size_t readCounter_{};
   vector<char> buffer_;
 };
@@ -757,8 +761,8 @@ bool compareVRSfiles(
     FilteredFileReader& second,
     const CopyOptions& copyOptions) {
   double startTimestamp{}, endTimestamp{};
+  second.getConstrainedTimeRange(startTimestamp, endTimestamp);
   first.getConstrainedTimeRange(startTimestamp, endTimestamp);
-  first.preRollConfigAndState(); // make sure to copy most recent config & state records
 
   ThrottledWriter throttledWriter(copyOptions);
   throttledWriter.initTimeRange(startTimestamp, endTimestamp, &first.reader);
@@ -795,15 +799,23 @@ bool compareVRSfiles(
   atomic<int> diffCounter{0};
   bool noError = true;
   vector<unique_ptr<RecordHolder>> holders;
-  vector<unique_ptr<RecordMaster>> checkers;
+  map<StreamId, unique_ptr<RecordMaster>> checkers; // by stream id in the second file
   for (const auto& iter : idMap) {
     holders.emplace_back(make_unique<RecordHolder>());
     second.reader.setStreamPlayer(iter.second, holders.back().get());
-    checkers.emplace_back(
-        make_unique<RecordMaster>(
-            diffCounter, noError, iter.second, second.reader, holders.back().get()));
-    first.reader.setStreamPlayer(iter.first, checkers.back().get());
-  }
+    auto& checker = checkers[iter.second];
+    checker =
+        make_unique<RecordMaster>(diffCounter, noError, second.reader, holders.back().get());
+    first.reader.setStreamPlayer(iter.first, checker.get());
+  }
+  auto collectMatchingRecords = [&checkers](
+                                    RecordFileReader&, const IndexRecord::RecordInfo& record) {
+    checkers[record.streamId]->addMatchingRecord(record);
+    return true;
+  };
+  second.preRollConfigAndState(collectMatchingRecords);
+  second.iterateAdvanced(collectMatchingRecords);
+  first.preRollConfigAndState(); // also compare the most recent config & state records
   size_t decodedCount = 0;
   double timeSpent = 0;
   double cpuTime = 0;
@@ -814,6 +826,17 @@ bool compareVRSfiles(
     cerr << "Errors happened while reading the files\n";
   }
   throttledWriter.closeFile();
+  // filters which only apply to the first file select fewer records there
+  if (!first.decimator_ && !first.skipRecordFilter && !first.firstRecordsOnly) {
+    for (const auto& checker : checkers) {
+      size_t unmatchedCount = checker.second->getUnmatchedCount();
+      if (unmatchedCount > 0) {
+        cerr << "Stream " << checker.first.getNumericName() << ": " << unmatchedCount
+             << " records of the second file have no equivalent in the first one.\n";
+        diffCounter++;
+      }
+    }
+  }
   return noError && diffCounter == 0;
 }
 
-- 
2.43.0


From 78bbb80b78d42fe8530b1a6b98b0f8e7c1ef68a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:49 +0000
Subject: [PATCH 13/47] fix: DiskFile: truncate with data still buffered by the
 chunk's stream

After a truncation, data read ahead past the new end of the chunk could
still be returned by the next read.
---
 vrs/DiskFileChunk.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vrs/DiskFileChunk.hpp b/vrs/DiskFileChunk.hpp
index 1c79b3e..e3f2dcf 100644
--- a/vrs/DiskFileChunk.hpp
+++ b/vrs/DiskFileChunk.hpp
@@ -104,6 +104,11 @@ class DiskFileChunk {
                                       : DISKFILE_PARTIAL_WRITE_ERROR;
   }
   int truncate(int64_t newSize) {
+    // write out what is still buffered, and forget what was read ahead past the new end of the file
+    int error = flush();
+    if (error != SUCCESS) {
+      return error;
+    }
     if (os::fileSetSize(file_, newSize) == 0) {
       size_ = newSize;
       return SUCCESS;
-- 
2.43.0


From ffd17a7b4f4b092b7ff808af106aff4ea2f08d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:47 +0000
Subject: [PATCH 14/47] fix: DiskFile: reposition the chunk's stream between
 reads and writes

C streams open for updates require it: without it, a read following a
write, or a write following a read, could lose the data just written.
---
 vrs/DiskFileChunk.hpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/vrs/DiskFileChunk.hpp b/vrs/DiskFileChunk.hpp
index e3f2dcf..647d663 100644
--- a/vrs/DiskFileChunk.hpp
+++ b/vrs/DiskFileChunk.hpp
@@ -39,6 +39,7 @@ class DiskFileChunk {
     path_ = std::move(other.path_);
     offset_ = other.offset_;
     size_ = other.size_;
+    lastAccess_ = other.lastAccess_;
     other.file_ = nullptr;
     other.offset_ = 0;
     other.size_ = 0;
@@ -59,6 +60,7 @@ class DiskFileChunk {
     path_ = newPath;
     offset_ = 0;
     size_ = 0;
+    lastAccess_ = Access::None;
     uint64_t bufferSize = 0;
     if (helpers::getUInt64(options, "io_buffer_size", bufferSize)) {
       return setvbuf(file_, nullptr, bufferSize == 0 ? _IONBF : _IOFBF, bufferSize);
@@ -75,6 +77,7 @@ class DiskFileChunk {
       os::fileClose(file_);
     }
     file_ = os::fileOpen(path_, readOnly ? "rb" : "rb+");
+    lastAccess_ = Access::None;
     return file_ != nullptr ? SUCCESS : errno;
   }
   bool isOpened() const {
@@ -94,10 +97,20 @@ class DiskFileChunk {
     return os::fileSeek(file_, pos, origin) != 0 ? errno : SUCCESS;
   }
   int read(void* ptr, size_t bufferSize, size_t& outReadSize) const {
+    outReadSize = 0;
+    int error = prepareFor(Access::Read);
+    if (error != SUCCESS) {
+      return error;
+    }
     outReadSize = ::fread(ptr, 1, bufferSize, file_);
     return bufferSize == outReadSize ? SUCCESS : ::ferror(file_) ? errno : DISKFILE_NOT_ENOUGH_DATA;
   }
   int write(const void* data, size_t dataSize, size_t& outWrittenSize) const {
+    outWrittenSize = 0;
+    int error = prepareFor(Access::Write);
+    if (error != SUCCESS) {
+      return error;
+    }
     outWrittenSize = ::fwrite(data, 1, dataSize, file_);
     return dataSize == outWrittenSize ? SUCCESS
         : ::ferror(file_)             ? errno
@@ -146,10 +159,23 @@ class DiskFileChunk {
   }
 
  private:
+  enum class Access { None, Read, Write };
+
+  // A stream open for updates requires a positioning call between a read and a write
+  int prepareFor(Access access) const {
+    if (lastAccess_ != access && lastAccess_ != Access::None &&
+        os::fileSeek(file_, 0, SEEK_CUR) != 0) {
+      return errno;
+    }
+    lastAccess_ = access;
+    return SUCCESS;
+  }
+
   FILE* file_{}; // may be nullptr or not!
   string path_; // path of this chunk
   int64_t offset_{}; // offset of this chunk in the file
   int64_t size_{}; // size of the chunk
+  mutable Access lastAccess_{Access::None};
 };
 
 } // namespace vrs
-- 
2.43.0


From 5091ae0a2a616a8464bcf659628a6ed0b1a03073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:06 +0000
Subject: [PATCH 15/47] fix: async disk file: report the end of file after a
 short read

The end of file was deduced from the size recorded for the chunk, which
isn't kept up to date while the chunk is written.
---
 vrs/AsyncDiskFileChunk.cpp | 14 ++++++++------
 vrs/AsyncDiskFileChunk.h   |  2 ++
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/vrs/AsyncDiskFileChunk.cpp b/vrs/AsyncDiskFileChunk.cpp
index 4618cba..0e98fbc 100644
--- a/vrs/AsyncDiskFileChunk.cpp
+++ b/vrs/AsyncDiskFileChunk.cpp
@@ -551,6 +551,7 @@ AsyncDiskFileChunk::AsyncDiskFileChunk(AsyncDiskFileChunk&& other) noexcept {
 
   // Keeps track of the current read/write position in the file of the current buffer.
   file_position_ = other.file_position_;
+  eof_ = other.eof_;
 
   file_mode_ = other.file_mode_;
   current_flags_ = other.current_flags_;
@@ -594,6 +595,7 @@ int AsyncDiskFileChunk::create(const string& newpath, const FileSpec::Extras& op
   size_ = 0;
 
   file_position_ = 0;
+  eof_ = false;
   async_error_ = SUCCESS;
   file_mode_ = "wb+";
 
@@ -617,6 +619,7 @@ int AsyncDiskFileChunk::open(bool readOnly, const FileSpec::Extras& options) {
   close();
 
   file_position_ = 0;
+  eof_ = false;
   async_error_ = SUCCESS;
   file_mode_ = readOnly ? "rb" : "rb+";
 
@@ -650,18 +653,14 @@ int AsyncDiskFileChunk::rewind() {
   IF_ERROR_RETURN(flushWriteBuffer());
 
   file_position_ = 0;
+  eof_ = false;
   async_error_ = SUCCESS;
 
   return SUCCESS;
 }
 
 bool AsyncDiskFileChunk::eof() const {
-  int64_t pos = 0;
-  if (tell(pos) != 0) {
-    return false;
-  }
-
-  return pos == getSize();
+  return eof_;
 }
 
 bool AsyncDiskFileChunk::isOpened() {
@@ -677,6 +676,7 @@ int AsyncDiskFileChunk::write(const void* buffer, size_t count, size_t& outWritt
   }
   const auto* bbuffer = static_cast<const char*>(buffer);
   outWrittenSize = 0;
+  eof_ = false;
 
   if (!isOpened()) {
     return DISKFILE_NOT_OPEN;
@@ -811,6 +811,7 @@ int AsyncDiskFileChunk::read(void* buffer, size_t count, size_t& outReadSize) {
 
   int error = file_.read(buffer, count, file_position_, outReadSize);
   file_position_ += outReadSize;
+  eof_ = (error == DISKFILE_NOT_ENOUGH_DATA);
   return error;
 }
 
@@ -837,6 +838,7 @@ int AsyncDiskFileChunk::seek(int64_t pos, int origin) {
   // final position, as our own `size_` member may not reflect the current size of the chunk.
   IF_ERROR_RETURN(file_.seek(file_position_, SEEK_SET, file_position_));
   IF_ERROR_RETURN(file_.seek(pos, origin, file_position_));
+  eof_ = false;
 
   return SUCCESS;
 }
diff --git a/vrs/AsyncDiskFileChunk.h b/vrs/AsyncDiskFileChunk.h
index 87964e6..de6ebc3 100644
--- a/vrs/AsyncDiskFileChunk.h
+++ b/vrs/AsyncDiskFileChunk.h
@@ -267,6 +267,8 @@ class VRS_API AsyncDiskFileChunk {
 
   // Keeps track of the current read/write position in the file of the current buffer.
   int64_t file_position_ = 0;
+  // Set when a read reached the end of the chunk's file, like with stdio's feof()
+  bool eof_ = false;
 
   const char* file_mode_ = nullptr;
   // Keeps track of the flags currently in force for the opened fd_. Typically a subset of the
-- 
2.43.0


From e0e43916ba09feb95b86e07ae8509736368bcbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:50 +0000
Subject: [PATCH 16/47] fix: async disk file: don't deadlock when starting a
 write fails

The completion callback was called with the lock it takes already held,
and uncounted a write that was never counted.
---
 vrs/AsyncDiskFileChunk.cpp | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/vrs/AsyncDiskFileChunk.cpp b/vrs/AsyncDiskFileChunk.cpp
index 0e98fbc..aa1cfd1 100644
--- a/vrs/AsyncDiskFileChunk.cpp
+++ b/vrs/AsyncDiskFileChunk.cpp
@@ -457,7 +457,6 @@ int AsyncBuffer::start_write(
       io_errno = -1;
     }
   }
-  // The submission failed, call the cleanup function.
   // Note that the return value of aio_write is a subset of the aio_return (which is what a normal
   // completion calls). `aio_write` will either return -1 and set perror (same as aio_return), or
   // will return 0
@@ -466,23 +465,17 @@ int AsyncBuffer::start_write(
   on_complete_ = std::move(on_complete);
   ssize_t written = ::pwrite(file.fd_, AlignedBuffer::data(), size(), offset);
   if (written < 0) {
-    io_return = -1;
-    io_errno = errno;
-  } else {
-    io_return = written;
-    io_errno = SUCCESS;
+    return errno;
   }
   // Call completion callback synchronously
-  on_complete_(io_return, io_errno);
-  return io_return < 0 ? -1 : 0;
+  on_complete_(written, io_errno);
+  return SUCCESS;
 #endif
 
 #if POSIX_AIO_SUPPORTED() || IS_WINDOWS_PLATFORM()
-  if (io_return != 0) {
-    // If aio_write failed call the completion callback immediately to free the buffer
-    on_complete_(io_return, io_errno);
-  }
-  return static_cast<int>(io_return);
+  // If the submission failed, there will be no completion: the caller must free the buffer. The
+  // completion callback can't be used, because the caller holds the lock the callback needs.
+  return io_return != 0 ? io_errno : SUCCESS;
 #endif
 }
 
@@ -1026,17 +1019,24 @@ void AsyncDiskFileChunk::pump_buffers_locked() {
   // Move as many queued buffers as we can to the writing state
   while (buffers_writing_ < iodepth_ && !buffers_queued_.empty()) {
     int result = SUCCESS;
+    AsyncBuffer* buffer = nullptr;
     {
       // N.B. item's storage in in buffers_queued_, don't `pop_front()` until we're done using
       // it
       auto& item = buffers_queued_.front();
-      result = item.buffer_->start_write(item.file_, item.offset_, std::move(item.callback_));
+      buffer = item.buffer_;
+      result = buffer->start_write(item.file_, item.offset_, std::move(item.callback_));
     }
     buffers_queued_.pop_front();
-    // Note that `async_error_` is set by the completion routine on a start_write failure, no need
-    // to modify it here
     if (result == SUCCESS) {
       buffers_writing_ += 1;
+    } else {
+      // The completion routine won't be called: remember the error & free the buffer ourselves
+      int current_error = SUCCESS;
+      async_error_.compare_exchange_strong(current_error, result);
+      buffer->clear();
+      buffers_free_.push_back(buffer);
+      buffer_freed_cv_.notify_one();
     }
   }
 }
-- 
2.43.0


From ae0230f3e471bf5936ea849e02842eb1f4697254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:08 +0000
Subject: [PATCH 17/47] fix: DiskFile: complete the writes of a chunk when
 moving to another one

Errors of pending writes in the chunk left behind were lost when coming
back to it, because rewinding it ignored and cleared them.
---
 vrs/DiskFile.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vrs/DiskFile.cpp b/vrs/DiskFile.cpp
index 9cbc192..05c5abd 100644
--- a/vrs/DiskFile.cpp
+++ b/vrs/DiskFile.cpp
@@ -357,6 +357,14 @@ int DiskFileT<FileChunk>::checkChunks(const vector<string>& chunks) {
 
 template <class FileChunk>
 int DiskFileT<FileChunk>::openChunk(FileChunk* chunk) {
+  if (!readOnly_ && currentChunk_ != nullptr && currentChunk_ != chunk &&
+      currentChunk_->isOpened()) {
+    // complete the pending writes of the chunk we're leaving, while errors can still be reported
+    lastError_ = currentChunk_->flush();
+    if (lastError_ != 0) {
+      return lastError_;
+    }
+  }
   if (chunk->isOpened()) {
     currentChunk_ = chunk;
     chunk->rewind();
-- 
2.43.0


From c528cd6a835046b7890976f26db004a084083e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:25 +0000
Subject: [PATCH 18/47] fix: JobQueue: clean up the jobs which are cancelled,
 rather than others

---
 vrs/helpers/JobQueue.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vrs/helpers/JobQueue.h b/vrs/helpers/JobQueue.h
index 0aefca1..b56925e 100644
--- a/vrs/helpers/JobQueue.h
+++ b/vrs/helpers/JobQueue.h
@@ -141,7 +141,8 @@ class JobQueue {
       std::function<bool(const T&)> selector,
       std::function<void(const T&)> cleanup = nullptr) {
     std::unique_lock<std::mutex> locker(mutex_);
-    auto iter = std::remove_if(queue_.begin(), queue_.end(), selector);
+    auto iter = std::stable_partition(
+        queue_.begin(), queue_.end(), [&selector](const T& job) { return !selector(job); });
     if (cleanup) {
       for (auto subIter = iter; subIter != queue_.end(); ++subIter) {
         cleanup(*subIter);
-- 
2.43.0


From 31ce0f89eee6c3546b5e7626ce746f53ab106cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:25 +0000
Subject: [PATCH 19/47] fix: EventChannel: let waiting threads leave a channel
 being destroyed

---
 vrs/os/Event.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/vrs/os/Event.cpp b/vrs/os/Event.cpp
index 771d5e8..ef60958 100644
--- a/vrs/os/Event.cpp
+++ b/vrs/os/Event.cpp
@@ -43,8 +43,8 @@ EventChannel::EventChannel(string name, NotificationMode notificationMode)
 EventChannel::~EventChannel() {
   unique_lock<mutex> lock(mutex_);
   inDestruction_ = true;
-  // NOTE: waiting 3 times should be long enough
-  int maxLoopCount = 3;
+  // NOTE: waiting 1000 times should be long enough
+  int maxLoopCount = 1000;
   while ((numEntering_ + numListeners_ > 0) && XR_VERIFY(maxLoopCount-- > 0)) {
     // It's not safe to call waitForEvent on an EventChannel that can be concurrently
     // destroyed; we might be really unlucky and it doesn't enter waitForEvent
@@ -52,7 +52,10 @@ EventChannel::~EventChannel() {
     // pending waitForEvent-s it is better to wake them up than to crash.
     wakeupCondition_.notify_all();
     enterCondition_.notify_all();
+    // Let the threads leave waitForEvent, which they can't do without the lock.
+    lock.unlock();
     this_thread::sleep_for(chrono::milliseconds(1));
+    lock.lock();
   }
 }
 
@@ -83,7 +86,7 @@ EventChannel::waitForEvent(Event& event, double timeoutSec, double lookBackSec)
   // New listener should not enter critical section before all pre-existing listeners have waked up.
   if (pendingWakeupsCount_ > 0) {
     numEntering_++;
-    enterCondition_.wait(lock, [this] { return pendingWakeupsCount_ == 0; });
+    enterCondition_.wait(lock, [this] { return inDestruction_ || pendingWakeupsCount_ == 0; });
     numEntering_--;
     if (inDestruction_) {
       // This EventChannel is already being destructed, exit ASAP.
-- 
2.43.0


From 2fb79f7323ddf4b7b4b96a5fff4472232edba54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:25 +0000
Subject: [PATCH 20/47] fix: MultiRecordFileReader: a reader which failed to
 open can open other files

---
 vrs/MultiRecordFileReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrs/MultiRecordFileReader.cpp b/vrs/MultiRecordFileReader.cpp
index 5a18e67..673447a 100644
--- a/vrs/MultiRecordFileReader.cpp
+++ b/vrs/MultiRecordFileReader.cpp
@@ -100,7 +100,7 @@ void MultiRecordFileReader::setRelatedFileTags(std::vector<std::string>&& tags)
 }
 
 int MultiRecordFileReader::close() {
-  if (!isOpened_) {
+  if (!isOpened_ && readers_.empty()) {
     return NO_FILE_OPEN;
   }
   int resultFinal = SUCCESS;
-- 
2.43.0


From 0158bf3c270976a077b7c3e70e4071e3614d765f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:42 +0000
Subject: [PATCH 21/47] fix: StreamId: check the bounds and the range of the
 numbers when parsing numeric names

---
 vrs/StreamId.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/vrs/StreamId.cpp b/vrs/StreamId.cpp
index 2332535..1d739a8 100644
--- a/vrs/StreamId.cpp
+++ b/vrs/StreamId.cpp
@@ -17,6 +17,7 @@
 #include <vrs/StreamId.h>
 
 #include <string>
+#include <limits>
 #include <unordered_map>
 
 #include <fmt/format.h>
@@ -185,23 +186,29 @@ StreamId fromNumericNameWithSeparator(string_view numericName, uint8_t separator
   // Quick parsing of "NNN-DDD", two uint numbers separated by a separator.
   const auto* s = reinterpret_cast<const uint8_t*>(numericName.data());
   const auto* end = s + numericName.size();
-  if (*s < '0' || *s > '9') {
+  if (s >= end || *s < '0' || *s > '9') {
     return {}; // must start with a digit
   }
-  int recordableTypeId = 0;
-  for (; *s >= '0' && *s <= '9'; ++s) {
+  uint32_t recordableTypeId = 0;
+  for (; s < end && *s >= '0' && *s <= '9'; ++s) {
     recordableTypeId = 10 * recordableTypeId + (*s - '0');
+    if (recordableTypeId > numeric_limits<uint16_t>::max()) {
+      return {}; // out of range
+    }
   }
-  if (*s++ == separator) {
+  if (s < end && *s++ == separator) {
     if (s >= end || *s < '0' || *s > '9') {
       return {}; // instance id must start with a digit
     }
-    uint16_t index = 0;
+    uint32_t index = 0;
     while (s < end && *s >= '0' && *s <= '9') {
       index = 10 * index + (*s++ - '0');
+      if (index > numeric_limits<uint16_t>::max()) {
+        return {}; // out of range
+      }
     }
     if (s == end) {
-      return {static_cast<RecordableTypeId>(recordableTypeId), index};
+      return {static_cast<RecordableTypeId>(recordableTypeId), static_cast<uint16_t>(index)};
     }
   }
   return {};
-- 
2.43.0


From 42d63e511d887e984fff7bad5375521900de505c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:42 +0000
Subject: [PATCH 22/47] fix: RecordFileReader: don't save the details of a file
 which couldn't be opened in the cache

---
 vrs/RecordFileReader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vrs/RecordFileReader.cpp b/vrs/RecordFileReader.cpp
index 093e825..da94b8c 100644
--- a/vrs/RecordFileReader.cpp
+++ b/vrs/RecordFileReader.cpp
@@ -298,8 +298,8 @@ int RecordFileReader::doOpenFile(
           recordIndex_,
           fileHasAnIndex_) != 0) {
     error = readFileDetails(fileSpec, autoWriteFixedIndex, fileHeader);
-    // Maybe write the file's details to disk
-    if (tryToUseCache && !detailsCacheFilePath.empty()) {
+    // Maybe write the file's details to disk, but only if we have all of them
+    if (error == 0 && tryToUseCache && !detailsCacheFilePath.empty()) {
       detailsSaveThread_ = make_unique<thread>([detailsCacheFilePath, this]() {
         // It's safe to use those member variables, because we won't modify them until closeFile(),
         // which will join() the thread first.
-- 
2.43.0


From 0a930912c9f6bc85a8852497c771723a03b3b086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:42 +0000
Subject: [PATCH 23/47] fix: RecordFileReader: don't sort the index while its
 details are being saved

---
 vrs/RecordFileReader.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vrs/RecordFileReader.cpp b/vrs/RecordFileReader.cpp
index da94b8c..768470e 100644
--- a/vrs/RecordFileReader.cpp
+++ b/vrs/RecordFileReader.cpp
@@ -337,6 +337,11 @@ int RecordFileReader::doOpenFile(
     }
   }
   if (error == 0 && fileSpec.getExtraAsBool("sort_records", false)) {
+    if (detailsSaveThread_) {
+      // the details must be saved before we may modify the index
+      detailsSaveThread_->join();
+      detailsSaveThread_.reset();
+    }
     sort(recordIndex_.begin(), recordIndex_.end(), fullRecordCompare);
   }
   return error;
-- 
2.43.0


From ebf1180fe52a05e04ecd9cdab8ff576d30bb457f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:35 +0000
Subject: [PATCH 24/47] fix: empty strings read as their default, and empty
 fields as unavailable, when all of a layout's variable size fields are empty

---
 vrs/DataLayout.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vrs/DataLayout.h b/vrs/DataLayout.h
index 5dfa871..ead6555 100644
--- a/vrs/DataLayout.h
+++ b/vrs/DataLayout.h
@@ -513,7 +513,10 @@ class VRS_API DataLayout {
       const IndexEntry& indexEntry = getVarSizeIndex()[varPieceIndex];
       if (indexEntry.getOffset() + indexEntry.getLength() <= varData_.size()) {
         outCount = indexEntry.getLength() / sizeof(T);
-        return reinterpret_cast<T*>(varData_.data() + indexEntry.getOffset());
+        // When all the fields are empty, varData_ is empty, and its data pointer might be null,
+        // but a null pointer would mean that the field isn't available.
+        int8_t* data = varData_.empty() ? fixedData_.data() : varData_.data();
+        return reinterpret_cast<T*>(data + indexEntry.getOffset());
       }
     }
     outCount = 0;
-- 
2.43.0


From 8204808f0c800436ea45d99973979b4fdefcac07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:35 +0000
Subject: [PATCH 25/47] fix: DataPieceArray::getMax() returned the min value

---
 vrs/DataPieceArray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrs/DataPieceArray.h b/vrs/DataPieceArray.h
index ed11759..5a98543 100644
--- a/vrs/DataPieceArray.h
+++ b/vrs/DataPieceArray.h
@@ -292,7 +292,7 @@ class DataPieceArray : public DataPiece {
   /// @param outMax: Reference to set to the maximum valid value.
   /// @return True if there is maximum value & outMax was set.
   bool getMax(T& outMax) const {
-    return getProperty(kMinValue, outMax);
+    return getProperty(kMaxValue, outMax);
   }
 
   /// Patch values in the mapped DataLayout.
-- 
2.43.0


From 191b1529f429e9d87ac8cb698b592fd19f02d355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:06 +0000
Subject: [PATCH 26/47] fix: copyClonedDataPieceValues() overwrote additional
 fixed size fields, and copied bytes of other fields when the original layout
 is mapped

---
 vrs/DataLayout.cpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/vrs/DataLayout.cpp b/vrs/DataLayout.cpp
index 4d8f4bd..7642b31 100644
--- a/vrs/DataLayout.cpp
+++ b/vrs/DataLayout.cpp
@@ -335,16 +335,18 @@ bool DataLayout::copyClonedDataPieceValues(const DataLayout& originalLayout) {
           fixedDataSizeNeeded_ >= originalLayout.fixedDataSizeNeeded_)) {
     return false;
   }
-  const vector<int8_t>& originalFixedData = originalLayout.mappedDataLayout_ != nullptr
-      ? originalLayout.mappedDataLayout_->fixedData_
-      : originalLayout.fixedData_;
-  if (!XR_VERIFY(fixedData_.size() >= originalFixedData.size())) {
-    return false;
-  }
-  // If the layout was cloned from clonedLayout, then the first fixed size pieces are the same,
-  // in the same order, and we can use a raw memory copy to copy all these values at once.
-  if (!originalFixedData.empty()) {
-    memcpy(fixedData_.data(), originalFixedData.data(), originalFixedData.size());
+  // If the layout was cloned from originalLayout, then the first pieces are the same, in the same
+  // order. The fixed size buffers can't be copied as a whole: they end with the index of the
+  // variable size pieces, and the original's might have the organization of the layout it's mapped
+  // to.
+  for (size_t k = 0; k < originalLayout.fixedSizePieces_.size(); k++) {
+    DataPiece* original = originalLayout.fixedSizePieces_[k];
+    DataPiece* copy = fixedSizePieces_[k];
+    if (!XR_VERIFY(copy->getPieceType() == original->getPieceType()) ||
+        !XR_VERIFY(copy->getFixedSize() == original->getFixedSize())) {
+      return false;
+    }
+    copy->copyFrom(original);
   }
   for (size_t k = 0; k < originalLayout.varSizePieces_.size(); k++) {
     DataPiece* original = originalLayout.varSizePieces_[k];
-- 
2.43.0


From 03183d1dd6612b27af6b1f55ea20f47c383c5a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:06 +0000
Subject: [PATCH 27/47] fix: DataLayout::isSame() found layouts with a NaN or
 infinite default different from themselves

---
 vrs/helpers/Rapidjson.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/vrs/helpers/Rapidjson.hpp b/vrs/helpers/Rapidjson.hpp
index e3e7898..bf66234 100644
--- a/vrs/helpers/Rapidjson.hpp
+++ b/vrs/helpers/Rapidjson.hpp
@@ -349,15 +349,16 @@ inline bool isSame(const unique_ptr<T>& left, const unique_ptr<T>& right) {
 }
 
 template <>
-inline bool isSame<float>(const float& left, const float& right) {
-  double dleft = static_cast<double>(left);
-  double dright = static_cast<double>(right);
-  return fabs(dleft - dright) <= max<double>(fabs(dleft), fabs(dright)) / 10000;
+inline bool isSame<double>(const double& left, const double& right) {
+  if (!std::isfinite(left) || !std::isfinite(right)) {
+    return left == right || (std::isnan(left) && std::isnan(right));
+  }
+  return fabs(left - right) <= max<double>(fabs(left), fabs(right)) / 10000;
 }
 
 template <>
-inline bool isSame<double>(const double& left, const double& right) {
-  return fabs(left - right) <= max<double>(fabs(left), fabs(right)) / 10000;
+inline bool isSame<float>(const float& left, const float& right) {
+  return isSame<double>(static_cast<double>(left), static_cast<double>(right));
 }
 
 template <typename T, size_t N>
-- 
2.43.0


From 419aecf796ceff7f45c8767b2f896056db0f9292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:06 +0000
Subject: [PATCH 28/47] fix: default values of points and matrices of doubles
 lost precision in the text description of a layout

---
 vrs/helpers/Rapidjson.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vrs/helpers/Rapidjson.hpp b/vrs/helpers/Rapidjson.hpp
index bf66234..f745be8 100644
--- a/vrs/helpers/Rapidjson.hpp
+++ b/vrs/helpers/Rapidjson.hpp
@@ -238,8 +238,9 @@ inline bool getFromJValue(const JValue& value, PointND<T, N>& outPoint) {
     return false;
   }
   for (size_t n = 0; n < N; ++n) {
-    if (!getJValueAs<float, T>(value[static_cast<SizeType>(n)], outPoint.dim[n]) &&
-        !getJValueAs<double, T>(value[static_cast<SizeType>(n)], outPoint.dim[n]) &&
+    // double values can be read as float, but that would lose precision
+    if (!getJValueAs<double, T>(value[static_cast<SizeType>(n)], outPoint.dim[n]) &&
+        !getJValueAs<float, T>(value[static_cast<SizeType>(n)], outPoint.dim[n]) &&
         !getJValueAs<int32_t, T>(value[static_cast<SizeType>(n)], outPoint.dim[n])) {
       return false;
     }
-- 
2.43.0


From 410acd3c87d74a18f5b21bee87ae5937d96d320f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:58 +0000
Subject: [PATCH 29/47] fix: strings with null characters were truncated when
 read from the text description of a layout

---
 vrs/DataLayout.cpp        | 14 +++++++++-----
 vrs/helpers/Rapidjson.hpp |  6 +++---
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/vrs/DataLayout.cpp b/vrs/DataLayout.cpp
index 7642b31..392b71f 100644
--- a/vrs/DataLayout.cpp
+++ b/vrs/DataLayout.cpp
@@ -1167,9 +1167,9 @@ const string DataPiece::kMinIncrement = "min_increment";
 const string DataPiece::kMaxIncrement = "max_increment";
 
 struct DataPiece::MakerBundle {
-  MakerBundle(const char* l, const JValue& p) : label(l), piece(p) {}
+  MakerBundle(string l, const JValue& p) : label(std::move(l)), piece(p) {}
 
-  const char* label;
+  const string label;
   const JValue& piece;
   size_t arraySize{}; // for DataPieceArray only
 };
@@ -1758,7 +1758,8 @@ DataPieceString::DataPieceString(const DataPiece::MakerBundle& bundle)
   using namespace vrs_rapidjson;
   JValue::ConstMemberIterator defaultString = bundle.piece.FindMember("default");
   if (defaultString != bundle.piece.MemberEnd() && defaultString->value.IsString()) {
-    defaultString_ = defaultString->value.GetString();
+    defaultString_.assign(
+        defaultString->value.GetString(), defaultString->value.GetStringLength());
   }
 }
 
@@ -1881,7 +1882,8 @@ ManualDataLayout::ManualDataLayout(const string& json) : ManualDataLayout() {
         JValue::ConstMemberIterator type = piece.FindMember("type");
         if (XR_VERIFY(name != piece.MemberEnd() && name->value.IsString(), "name missing") &&
             XR_VERIFY(type != piece.MemberEnd() && type->value.IsString(), "type missing")) {
-          DataPiece::MakerBundle bundle(name->value.GetString(), piece);
+          DataPiece::MakerBundle bundle(
+              string(name->value.GetString(), name->value.GetStringLength()), piece);
           JValue::ConstMemberIterator count = piece.FindMember("size");
           if (count != piece.MemberEnd() && count->value.IsUint()) {
             bundle.arraySize = count->value.GetUint();
@@ -1897,7 +1899,9 @@ ManualDataLayout::ManualDataLayout(const string& json) : ManualDataLayout() {
                    itr != tags->value.MemberEnd();
                    ++itr) {
                 if (itr->name.IsString() && itr->value.IsString()) {
-                  pc->setTag(itr->name.GetString(), itr->value.GetString());
+                  pc->setTag(
+                      string(itr->name.GetString(), itr->name.GetStringLength()),
+                      string(itr->value.GetString(), itr->value.GetStringLength()));
                 }
               }
             }
diff --git a/vrs/helpers/Rapidjson.hpp b/vrs/helpers/Rapidjson.hpp
index f745be8..c542cd9 100644
--- a/vrs/helpers/Rapidjson.hpp
+++ b/vrs/helpers/Rapidjson.hpp
@@ -225,7 +225,7 @@ inline bool getFromJValue(const JValue& value, T& outValue) {
 template <>
 inline bool getFromJValue(const JValue& value, string& outValue) {
   if (value.IsString()) {
-    outValue = value.GetString();
+    outValue.assign(value.GetString(), value.GetStringLength());
     return true;
   }
   return false;
@@ -271,7 +271,7 @@ inline bool getJMap(map<string, T>& outMap, const JValue& piece, string_view nam
          ++itr) {
       T value;
       if (getFromJValue(itr->value, value)) {
-        outMap[itr->name.GetString()] = value;
+        outMap[string(itr->name.GetString(), itr->name.GetStringLength())] = value;
       }
     }
     return true;
@@ -300,7 +300,7 @@ inline bool getJVector(vector<T>& outVector, const JValue& piece, string_view na
 inline bool getJString(string& outString, const JValue& piece, string_view name) {
   const JValue::ConstMemberIterator member = piece.FindMember(jStringRef(name));
   if (member != piece.MemberEnd() && member->value.IsString()) {
-    outString = member->value.GetString();
+    outString.assign(member->value.GetString(), member->value.GetStringLength());
     return true;
   }
   outString.clear();
-- 
2.43.0


From 395250bd4fad4bee572f72547874f073f8047be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:48 +0000
Subject: [PATCH 30/47] fix: looking for an image or audio description in a
 record's block which wasn't read went out of bounds

---
 vrs/ContentBlockReader.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vrs/ContentBlockReader.cpp b/vrs/ContentBlockReader.cpp
index f54268d..f7980b6 100644
--- a/vrs/ContentBlockReader.cpp
+++ b/vrs/ContentBlockReader.cpp
@@ -76,6 +76,10 @@ bool mayUsePastConfigurationReader(
 /// @param desiredLayout: Layout to map to the record's layout.
 /// @return True there was a record layout to map to, False otherwise.
 bool mapToBlockLayout(RecordFormatReader* reader, size_t blockIndex, DataLayout& desiredLayout) {
+  // the block may not have been read (yet), if the last records' reading was stopped before it
+  if (blockIndex >= reader->contentReaders.size()) {
+    return false;
+  }
   DataLayoutBlockReader* layoutReader =
       dynamic_cast<DataLayoutBlockReader*>(reader->contentReaders[blockIndex].get());
   return layoutReader != nullptr && layoutReader->mapToBlockLayout(desiredLayout);
-- 
2.43.0


From 3d8caf2a3273d9a367fb5ebd23edda443637042e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:48 +0000
Subject: [PATCH 31/47] fix: audio descriptions were only looked up in the last
 DataLayout block of the configuration record

---
 vrs/ContentBlockReader.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vrs/ContentBlockReader.cpp b/vrs/ContentBlockReader.cpp
index f7980b6..da035a1 100644
--- a/vrs/ContentBlockReader.cpp
+++ b/vrs/ContentBlockReader.cpp
@@ -246,8 +246,10 @@ bool AudioBlockReader::findAudioSpec(
   size_t index = indexUpperLimit;
   while (index-- > lastIndexToCheck) {
     if (reader->recordFormat.getContentBlock(index).getContentType() == ContentType::DATA_LAYOUT) {
-      if (mapToBlockLayout(reader, index, audioSpec_)) {
-        return tryCurrentAudioSpec(record, player, readNextBlock);
+      // keep looking if this DataLayout doesn't describe the audio content
+      if (mapToBlockLayout(reader, index, audioSpec_) &&
+          tryCurrentAudioSpec(record, player, readNextBlock)) {
+        return true;
       }
     }
   }
-- 
2.43.0


From d527010a4fecefd52ee72fad70ba1a3b76afb027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:48 +0000
Subject: [PATCH 32/47] fix: long image codec names were lost when parsing a
 content block's text

---
 vrs/RecordFormat.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/vrs/RecordFormat.cpp b/vrs/RecordFormat.cpp
index 6c29897..9782417 100644
--- a/vrs/RecordFormat.cpp
+++ b/vrs/RecordFormat.cpp
@@ -203,6 +203,7 @@ string sanitizeCustomContentBlockFormatName(const string& name) {
 }
 
 constexpr string_view kCustomContentBlockFormat = "format=";
+constexpr string_view kCodecName = "codec=";
 constexpr string_view kRecordFormatTagPrefix = "RF:";
 constexpr string_view kDataLayoutTagPrefix = "DL:";
 constexpr char kFieldSeparator = ':';
@@ -412,9 +413,9 @@ void ImageContentBlockSpec::set(ContentParser& parser) {
       } else if (firstChar == 's' && stride2_ == 0 && sscanf(cstr, "stride_2=%u", &stride) == 1) {
         stride2_ = stride;
       } else if (
-          firstChar == 'c' && codecName_.empty() && parser.str.size() < text.size() &&
-          sscanf(cstr, "codec=%s", text.data()) == 1) {
-        codecName_ = unescapeString(text.data(), text.size());
+          firstChar == 'c' && codecName_.empty() && parser.str.size() > kCodecName.size() &&
+          helpers::startsWith(parser.str, kCodecName)) {
+        codecName_ = unescapeString(cstr + kCodecName.size(), parser.str.size() - kCodecName.size());
       } else if (firstChar == 'c' && sscanf(cstr, "codec_quality=%u", &quality) == 1) {
         uint8_t q = static_cast<uint8_t>(quality);
         codecQuality_ = isQualityValid(q) ? q : kQualityUndefined;
-- 
2.43.0


From 54d726238b1844e41f3cb062d6d1bdc67af8970f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:36 +0000
Subject: [PATCH 33/47] fix: only accept a video frame after one that was
 really decoded

When reading or decoding a frame failed, the next frame of the group was
given to the decoder all the same.
---
 vrs/utils/VideoFrameHandler.cpp | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/vrs/utils/VideoFrameHandler.cpp b/vrs/utils/VideoFrameHandler.cpp
index 826472d..ca303db 100644
--- a/vrs/utils/VideoFrameHandler.cpp
+++ b/vrs/utils/VideoFrameHandler.cpp
@@ -40,26 +40,29 @@ int VideoFrameHandler::tryToDecodeFrame(
       (requestedKeyFrameTimestamp_ == decodedKeyFrameTimestamp_ &&
        requestedKeyFrameIndex_ == decodedKeyFrameIndex_ + 1);
   if (videoGoodState_) {
+    // Nothing changes if the frame can't be read: the decoder hasn't seen it.
+    encodedFrame_.resize(contentBlock.getBlockSize());
+    IF_ERROR_LOG_AND_RETURN(reader->read(encodedFrame_));
     // Flush decoder when seeking backward to a keyframe within the same group.
     // This clears the DPB to avoid duplicate POC errors when re-decoding frames
     // we've already seen. Only flush for backward seeks, not forward reading.
     bool sameKeyframeGroup = requestedKeyFrameTimestamp_ == decodedKeyFrameTimestamp_;
-    bool atKeyframeWithPriorState =
-        requestedKeyFrameIndex_ == 0 && decodedKeyFrameIndex_ != kInvalidFrameIndex;
-    if (sameKeyframeGroup && atKeyframeWithPriorState && decoder_ != nullptr) {
+    if (sameKeyframeGroup && requestedKeyFrameIndex_ == 0 && decoder_ != nullptr) {
       decoder_->flush();
     }
-    decodedKeyFrameTimestamp_ = requestedKeyFrameTimestamp_;
-    decodedKeyFrameIndex_ = requestedKeyFrameIndex_;
     // XR_LOGI("Reading frame {}/{}", requestedKeyFrameTimestamp_, requestedKeyFrameIndex_);
-    encodedFrame_.resize(contentBlock.getBlockSize());
-    IF_ERROR_LOG_AND_RETURN(reader->read(encodedFrame_));
+    int status = SUCCESS;
     if (decoder_) {
-      return decoder_->decode(encodedFrame_, outDecodedFrame, contentBlock.image());
+      status = decoder_->decode(encodedFrame_, outDecodedFrame, contentBlock.image());
+    } else {
+      decoder_ = DecoderFactory::get().makeDecoder(
+          encodedFrame_, outDecodedFrame, contentBlock.image(), decoderOptions_);
+      status = decoder_ ? SUCCESS : domainError(DecodeStatus::CodecNotFound);
     }
-    decoder_ = DecoderFactory::get().makeDecoder(
-        encodedFrame_, outDecodedFrame, contentBlock.image(), decoderOptions_);
-    return decoder_ ? SUCCESS : domainError(DecodeStatus::CodecNotFound);
+    decodedKeyFrameTimestamp_ = requestedKeyFrameTimestamp_;
+    // Frames that depend on a frame which wasn't decoded can't be decoded: restart from a keyframe.
+    decodedKeyFrameIndex_ = status == SUCCESS ? requestedKeyFrameIndex_ : kInvalidFrameIndex;
+    return status;
   }
   if (requestedKeyFrameTimestamp_ == decodedKeyFrameTimestamp_) {
     XR_LOGW(
-- 
2.43.0


From 03b123de7930f660d0e8a250f262c0dee7513997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:36 +0000
Subject: [PATCH 34/47] fix: catch up with missing video frames past records of
 other types

A state or configuration record between the frames of a group ended the
search, reporting success without decoding the frame asked for.
---
 vrs/utils/VideoFrameHandler.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vrs/utils/VideoFrameHandler.cpp b/vrs/utils/VideoFrameHandler.cpp
index ca303db..719ea55 100644
--- a/vrs/utils/VideoFrameHandler.cpp
+++ b/vrs/utils/VideoFrameHandler.cpp
@@ -103,8 +103,12 @@ int VideoFrameHandler::readMissingFrames(
     uint32_t keyFrameIndex = getRequestedKeyFrameIndex();
     uint32_t frameIndex = 0;
     uint32_t framesToSkip = getFramesToSkip();
-    while (recordIndex < streamIndex.size() && frameIndex++ <= keyFrameIndex &&
-           streamIndex[recordIndex]->recordType == Record::Type::DATA) {
+    while (recordIndex < streamIndex.size() && frameIndex <= keyFrameIndex) {
+      if (streamIndex[recordIndex]->recordType != Record::Type::DATA) {
+        recordIndex++; // records of other types may be recorded between the frames of a group
+        continue;
+      }
+      frameIndex++;
       if (framesToSkip > 0) {
         framesToSkip--, recordIndex++;
       } else {
-- 
2.43.0


From 2d23143297278ce9c9509ed9b27d35251e8d8d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:02 +0000
Subject: [PATCH 35/47] fix: flush the video decoder when its frame handler is
 reset

Decoding restarts from a keyframe then, and frames the decoder had seen
already were given to it again without a flush.
---
 vrs/utils/VideoFrameHandler.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vrs/utils/VideoFrameHandler.cpp b/vrs/utils/VideoFrameHandler.cpp
index 719ea55..660cf5b 100644
--- a/vrs/utils/VideoFrameHandler.cpp
+++ b/vrs/utils/VideoFrameHandler.cpp
@@ -136,6 +136,9 @@ uint32_t VideoFrameHandler::getFramesToSkip() const {
 }
 
 void VideoFrameHandler::reset() {
+  if (decoder_) {
+    decoder_->flush(); // decoding restarts from a keyframe, maybe one that was decoded already
+  }
   decodedKeyFrameIndex_ = kInvalidFrameIndex;
   decodedKeyFrameTimestamp_ = 0;
   requestedKeyFrameIndex_ = kInvalidFrameIndex;
-- 
2.43.0


From 99288eccbffa94bb60e91d541e771a84894aa954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:09 +0000
Subject: [PATCH 36/47] fix: FileSpec: accept non-ASCII characters in URIs

---
 vrs/FileSpec.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrs/FileSpec.cpp b/vrs/FileSpec.cpp
index e800228..88c95c0 100644
--- a/vrs/FileSpec.cpp
+++ b/vrs/FileSpec.cpp
@@ -507,7 +507,7 @@ int FileSpec::urldecode(string_view in, string& out) {
       c = (xdigitToChar(in[p + 1]) << 4) | xdigitToChar(in[p + 2]);
       p += 2;
     }
-    if (c < 0x20) {
+    if (static_cast<unsigned char>(c) < 0x20) {
       XR_LOGW("Invalid character while decoding input: {} in {}", c, in);
       return INVALID_URI_VALUE;
     }
-- 
2.43.0


From f7bd02fa67fdfd906fe6efc0b840af2b0fb8411f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:09 +0000
Subject: [PATCH 37/47] fix: FileSpec: extra parameters with null characters
 were truncated when parsing json

---
 vrs/FileSpec.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/vrs/FileSpec.cpp b/vrs/FileSpec.cpp
index 88c95c0..d8dc5d2 100644
--- a/vrs/FileSpec.cpp
+++ b/vrs/FileSpec.cpp
@@ -228,11 +228,10 @@ bool FileSpec::fromJson(string_view jsonStr) {
     getJString(uri, document, kUriField);
     extras.clear();
     for (auto iter = document.MemberBegin(); iter != document.MemberEnd(); ++iter) {
-      const auto* key = iter->name.GetString();
-      if (iter->value.IsString() && strcmp(key, kChunkField) != 0 &&
-          strcmp(key, kFileHandlerField) != 0 && strcmp(key, kFileNameField) != 0 &&
-          strcmp(key, kUriField) != 0) {
-        extras.emplace(key, iter->value.GetString());
+      const string_view key{iter->name.GetString(), iter->name.GetStringLength()};
+      if (iter->value.IsString() && key != kChunkField && key != kFileHandlerField &&
+          key != kFileNameField && key != kUriField) {
+        extras.emplace(key, string_view{iter->value.GetString(), iter->value.GetStringLength()});
       }
     }
     getJVector(chunks, document, kChunkField);
-- 
2.43.0


From 1f0499a07ecf74501f6921f2dc662f0b87bed0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:09 +0000
Subject: [PATCH 38/47] fix: FileSpec::toPathJsonUri() returned paths that
 don't parse back to the same file

---
 vrs/FileSpec.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/vrs/FileSpec.cpp b/vrs/FileSpec.cpp
index d8dc5d2..920244b 100644
--- a/vrs/FileSpec.cpp
+++ b/vrs/FileSpec.cpp
@@ -208,7 +208,14 @@ int FileSpec::fromPathJsonUri(string_view pathJsonUri, string_view defaultFileHa
 string FileSpec::toPathJsonUri() const {
   if (isDiskFile()) {
     if (chunks.size() == 1 && extras.empty()) {
-      return chunks.front();
+      // The path of some files might be mistaken for a uri, json, or a path with parameters
+      FileSpec spec;
+      const string& path = chunks.front();
+      if (path.empty() ||
+          (spec.fromPathJsonUri(path) == SUCCESS && spec.isDiskFile() && spec.chunks == chunks &&
+           spec.extras.empty())) {
+        return path;
+      }
     }
     return empty() ? "" : toJson();
   }
-- 
2.43.0


From 1db62bfa312479c31a594ea04b3791b252060b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:09 +0000
Subject: [PATCH 39/47] fix: FileSpec::parseUri() lost the file handler when
 the uri has no scheme or is invalid

---
 vrs/FileSpec.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/vrs/FileSpec.cpp b/vrs/FileSpec.cpp
index 920244b..cf63453 100644
--- a/vrs/FileSpec.cpp
+++ b/vrs/FileSpec.cpp
@@ -30,6 +30,7 @@
 #include <vrs/ErrorCode.h>
 #include <vrs/FileHandlerFactory.h>
 #include <vrs/helpers/EnumStringConverter.h>
+#include <vrs/helpers/FileMacros.h>
 #include <vrs/helpers/Rapidjson.hpp>
 #include <vrs/helpers/Strings.h>
 #include <vrs/os/Utils.h>
@@ -275,11 +276,18 @@ string FileSpec::toJson() const {
 }
 
 int FileSpec::parseUri() {
+  string scheme;
+  string path;
+  Extras queryParams;
+  IF_ERROR_RETURN(parseUri(uri, scheme, path, queryParams));
   fileName.clear();
-  chunks.resize(1);
-  chunks[0].clear();
+  chunks = {std::move(path)};
   chunkSizes.clear();
-  return parseUri(uri, fileHandlerName, chunks[0], extras);
+  extras = std::move(queryParams);
+  if (!scheme.empty()) {
+    fileHandlerName = std::move(scheme);
+  }
+  return SUCCESS;
 }
 
 bool FileSpec::hasChunkSizes() const {
-- 
2.43.0


From c62ba496cc619ecdbe430ed31b9d340bf319835e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:09 +0000
Subject: [PATCH 40/47] fix: FileSpec::getSourceLocation() read past the end of
 short URIs

---
 vrs/FileSpec.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/vrs/FileSpec.cpp b/vrs/FileSpec.cpp
index cf63453..c6287a4 100644
--- a/vrs/FileSpec.cpp
+++ b/vrs/FileSpec.cpp
@@ -321,14 +321,16 @@ string FileSpec::getSourceLocation() const {
   if (!uri.empty() && !isDiskFile()) {
     auto colon = uri.find(':');
     if (colon != string::npos) {
-      auto end = colon;
-      unsigned char c = 0;
-      do {
-        c = static_cast<unsigned char>(uri[++end]);
-      } while (c == '/');
-      do {
-        c = static_cast<unsigned char>(uri[++end]);
-      } while (isalnum(c) != 0 || c == '.' || c == '-' || c == '_');
+      auto end = colon + 1;
+      while (end < uri.size() && uri[end] == '/') {
+        end++;
+      }
+      if (end < uri.size()) {
+        unsigned char c = 0;
+        do {
+          c = ++end < uri.size() ? static_cast<unsigned char>(uri[end]) : 0;
+        } while (isalnum(c) != 0 || c == '.' || c == '-' || c == '_');
+      }
       return uri.substr(0, end);
     }
     return uri;
-- 
2.43.0


From 8d9f0fa309906f5417ec37cf06e6e65b04f164c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:09 +0000
Subject: [PATCH 41/47] fix: FileSpec::fromPathJsonUri() read past the end of
 paths ending with '?'

---
 vrs/FileSpec.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vrs/FileSpec.cpp b/vrs/FileSpec.cpp
index c6287a4..1747539 100644
--- a/vrs/FileSpec.cpp
+++ b/vrs/FileSpec.cpp
@@ -184,6 +184,7 @@ int FileSpec::fromPathJsonUri(string_view pathJsonUri, string_view defaultFileHa
     // Check if there might be URI parameter in the path, and try to parse it that way.
     auto uriParams = pathJsonUri.find('?');
     bool hasParams = uriParams != string_view::npos && uriParams > 1 &&
+        uriParams + 1 < pathJsonUri.size() &&
         isalpha(static_cast<unsigned char>(pathJsonUri[uriParams + 1])) &&
         pathJsonUri.find('=', uriParams + 2) != string_view::npos;
     fileHandlerName =
-- 
2.43.0


From 36a76a8d9584dac1581d58c3351982208c6c1bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:05 +0000
Subject: [PATCH 42/47] fix: DiskFile: fail to open a file specification
 without chunks, rather than crash

---
 vrs/DiskFile.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vrs/DiskFile.cpp b/vrs/DiskFile.cpp
index 05c5abd..80abf65 100644
--- a/vrs/DiskFile.cpp
+++ b/vrs/DiskFile.cpp
@@ -343,6 +343,9 @@ bool DiskFileT<FileChunk>::isEof() const {
 template <class FileChunk>
 int DiskFileT<FileChunk>::checkChunks(const vector<string>& chunks) {
   int64_t offset = 0;
+  if (chunks.empty()) {
+    lastError_ = INVALID_FILE_SPEC;
+  }
   for (const string& path : chunks) {
     int64_t chunkSize = os::getFileSize(path);
     if (chunkSize < 0) {
-- 
2.43.0


From 55209cfbb6e87b97a00e776bd44298048641b762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:31 +0000
Subject: [PATCH 43/47] fix: a chunk is not announced to the chunk listener
 when the next one could not be added

---
 vrs/RecordFileWriter.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/vrs/RecordFileWriter.cpp b/vrs/RecordFileWriter.cpp
index f15b341..2899587 100644
--- a/vrs/RecordFileWriter.cpp
+++ b/vrs/RecordFileWriter.cpp
@@ -1052,14 +1052,15 @@ void RecordFileWriter::writeOneRecord(
       sizeof(FileFormat::RecordHeader) + (compressedSize > 0 ? compressedSize : record->getSize());
   if (rwd.currentChunkSize > 0 && rwd.currentChunkSize + recordDiskSize >= maxChunkSize_) {
     NewChunkNotifier newChunkNotifier(*file_, newChunkHandler_);
-    // AddChunk() preserves the current chunk on error.
-    XR_VERIFY(
-        file_->addChunk() == 0,
-        "Add chunk failed: {}, {}",
-        file_->getLastError(),
-        errorCodeToMessage(file_->getLastError()));
+    // AddChunk() preserves the current chunk on error: it isn't complete yet.
+    if (XR_VERIFY(
+            file_->addChunk() == 0,
+            "Add chunk failed: {}, {}",
+            file_->getLastError(),
+            errorCodeToMessage(file_->getLastError()))) {
+      newChunkNotifier.notify(1); // offset chunk index by 1
+    }
     rwd.currentChunkSize = 0; // reset, even if addChunk() failed to reduce retrying.
-    newChunkNotifier.notify(1); // offset chunk index by 1
   }
   if (queueByteSize_) {
     queueByteSize_->fetch_sub(record->getSize(), memory_order_relaxed);
-- 
2.43.0


From a04839cac050de4e82925fe2bc0c461dc0e6cb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:31 +0000
Subject: [PATCH 44/47] fix: names and tags with null characters were truncated
 when read from a file's description

---
 vrs/DescriptionRecord.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/vrs/DescriptionRecord.cpp b/vrs/DescriptionRecord.cpp
index 5424af1..c9604b9 100644
--- a/vrs/DescriptionRecord.cpp
+++ b/vrs/DescriptionRecord.cpp
@@ -106,6 +106,11 @@ string stripInstanceId(const string& oldName) {
 constexpr const char* kNameLabel = "name";
 constexpr const char* kTagsLabel = "tags";
 
+// strings may contain null characters
+string toString(const vrs_rapidjson::Value& value) {
+  return {value.GetString(), value.GetStringLength()};
+}
+
 void jsonToTags(const string& jsonTags, map<string, string>& outTags) {
   using namespace vrs_rapidjson;
   outTags.clear();
@@ -115,7 +120,7 @@ void jsonToTags(const string& jsonTags, map<string, string>& outTags) {
     for (Value::ConstMemberIterator itr = document.MemberBegin(); itr != document.MemberEnd();
          ++itr) {
       if (itr->name.IsString() && itr->value.IsString()) {
-        outTags[itr->name.GetString()] = itr->value.GetString();
+        outTags[toString(itr->name)] = toString(itr->value);
       }
     }
   }
@@ -131,14 +136,14 @@ bool jsonToNameAndTags(const string& jsonStr, string& outName, map<string, strin
   Value::ConstMemberIterator name = document.FindMember(kNameLabel);
   if (XR_VERIFY(
           name != document.MemberEnd() && name->value.IsString(), "missing name in description")) {
-    outName = name->value.GetString();
+    outName = toString(name->value);
   }
   Value::ConstMemberIterator tags = document.FindMember(kTagsLabel);
   if (tags != document.MemberEnd() && tags->value.IsObject()) {
     for (Value::ConstMemberIterator itr = tags->value.MemberBegin(); itr != tags->value.MemberEnd();
          ++itr) {
       if (itr->name.IsString() && itr->value.IsString()) {
-        outTags[itr->name.GetString()] = itr->value.GetString();
+        outTags[toString(itr->name)] = toString(itr->value);
       }
     }
   }
-- 
2.43.0


From 0a3ab5bd36a9c859c98723031a4050a670df2702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:05 +0000
Subject: [PATCH 45/47] fix: only formats of data records tell if a stream's
 data records might contain images or audio

---
 vrs/RecordFileReader.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vrs/RecordFileReader.cpp b/vrs/RecordFileReader.cpp
index 768470e..44cdaae 100644
--- a/vrs/RecordFileReader.cpp
+++ b/vrs/RecordFileReader.cpp
@@ -1072,7 +1072,8 @@ bool RecordFileReader::mightContainContentTypeInDataRecord(StreamId streamId, Co
   RecordFormatMap formats;
   if (getRecordFormats(streamId, formats) > 0) {
     for (const auto& format : formats) {
-      if (format.second.getBlocksOfTypeCount(type) > 0) {
+      if (format.first.first == Record::Type::DATA &&
+          format.second.getBlocksOfTypeCount(type) > 0) {
         // Find a data record for that stream, but don't create a stream index if none exists yet
         auto iter = streamIndex_.find(streamId);
         if (iter != streamIndex_.end()) {
-- 
2.43.0


From 496e7891b38e6360cdee380d59d11a6bca0943dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:59 +0000
Subject: [PATCH 46/47] fix: the summary of an extracted audio track was
 truncated json when there is no ratio of timestamps to report

---
 vrs/utils/AudioTrackExtractor.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/vrs/utils/AudioTrackExtractor.cpp b/vrs/utils/AudioTrackExtractor.cpp
index 65b475d..d370f21 100644
--- a/vrs/utils/AudioTrackExtractor.cpp
+++ b/vrs/utils/AudioTrackExtractor.cpp
@@ -198,9 +198,12 @@ string AudioTrackExtractor::getSummary(
     }
     json.addMember("total_audio_duration", totalDuration);
     json.addMember("audio_record_miss_count", audioRecordMissCount_);
-    double firstSampleRatio =
-        static_cast<double>(firstSampleTimestampTotal_) / pastLastSampleTimestampTotal_;
-    json.addMember("first_sample_timestamp_ratio", firstSampleRatio);
+    // the ratio isn't a number json can represent if there is nothing to compare with
+    if (pastLastSampleTimestampTotal_ > 0) {
+      double firstSampleRatio =
+          static_cast<double>(firstSampleTimestampTotal_) / pastLastSampleTimestampTotal_;
+      json.addMember("first_sample_timestamp_ratio", firstSampleRatio);
+    }
   }
   if (!firstAudioBlockSpec_.empty()) {
     json.addMember("audio_channel_count", fileAudioSpec_.getChannelCount());
-- 
2.43.0


From 17aefa56f02a3e1a32f42b2477677e23914a0694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:59 +0000
Subject: [PATCH 47/47] fix: images extracted as png were lost when images had
 been extracted before in the same process

---
 vrs/utils/ImageExtractor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vrs/utils/ImageExtractor.cpp b/vrs/utils/ImageExtractor.cpp
index bdc2477..0a66d76 100644
--- a/vrs/utils/ImageExtractor.cpp
+++ b/vrs/utils/ImageExtractor.cpp
@@ -142,6 +142,9 @@ class ImageProcessor {
 
   void startThreadPool() {
     unique_lock<mutex> locker(mutex_);
+    if (threadPool_.empty()) {
+      imageQueue_.reset(); // the queue was ended with the previous thread pool
+    }
     while (threadPool_.size() < thread::hardware_concurrency()) {
       threadPool_.emplace_back(&ImageProcessor::saveImagesThreadActivity, this);
     }
-- 
2.43.0

