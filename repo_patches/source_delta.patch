From 62bf0d01696c9798dfc9b29e7413688a1e50dd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:10 +0000
Subject: [PATCH 01/78] fix: csv reader delivers an empty last field when a
 file ends with a separator

A file that ended with a separator and without a line end made
nextLine() return the same last row forever.
---
 src/util/csv_reader.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/util/csv_reader.cc b/src/util/csv_reader.cc
index 33c9cb7..e6f88de 100644
--- a/src/util/csv_reader.cc
+++ b/src/util/csv_reader.cc
@@ -32,12 +32,11 @@ bool CsvReader::nextLine() {
   for (;; ++position) {
     // This block executes when end of file is reached
     if (position == end) {
-      if (field_start != position) {
-        if (shouldEmit) {
-          fields_.emplace_back(field_start, position);
-        }
-        position_ = position;
+      // the last field can be empty if the file ends with a separator
+      if (shouldEmit) {
+        fields_.emplace_back(field_start, position);
       }
+      position_ = position;
       break;
     }
 
-- 
2.43.0


From 799efa93ab2f2e5064846a27033479be7fcc0d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:00 +0000
Subject: [PATCH 02/78] fix: a failed member makes loading the whole object
 fail

Loader::operator& overwrote the status of the previous members, so that
data cut inside a member could load as a valid object.
---
 src/util/serialization.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/util/serialization.h b/src/util/serialization.h
index 38429e3..5fbb4ac 100644
--- a/src/util/serialization.h
+++ b/src/util/serialization.h
@@ -72,6 +72,10 @@ class Loader {
 
   template <typename T>
   void operator&(T &o) {
+    // a failure of one member is final for the whole object
+    if (!status_) {
+      return;
+    }
     status_ = SerializeImpl<T>::DoSerializeLoad(o, this, parser_);
   }
 
-- 
2.43.0


From 294a851f44f3ce231d564342611c048179223561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:35 +0000
Subject: [PATCH 03/78] fix: dictionary builder uses the csv column of the trie
 index field, not the number of the field

---
 src/core/dic/dic_build_detail.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/dic/dic_build_detail.cc b/src/core/dic/dic_build_detail.cc
index 7683a46..fa06a00 100644
--- a/src/core/dic/dic_build_detail.cc
+++ b/src/core/dic/dic_build_detail.cc
@@ -171,8 +171,9 @@ Status DictionaryBuilderStorage::initialize(const s::DictionarySpec& dicSpec) {
 Status DictionaryBuilderStorage::initDicFeatures(const FeaturesSpec& dicSpec) {
   DicFeatureContext ctx{storage, importers, stringBuffers, intBuffers};
   JPP_RETURN_IF_ERROR(entries.createFeatures(dicSpec, ctx));
-  entries.surfaceIdx_ = static_cast<u32>(indexColumn);
   auto desc = importers[indexColumn].descriptor;
+  // position is a 1-based column of the csv file
+  entries.surfaceIdx_ = static_cast<u32>(desc->position - 1);
   entries.realSurfaceStorage_ = &storage[desc->stringStorage];
   entries.featureBuf_.resize(static_cast<size_t>(dicSpec.numDicFeatures));
   return Status::Ok();
-- 
2.43.0


From d6d915a5f5724f807cd680891d19188f344d853b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:09 +0000
Subject: [PATCH 04/78] fix: string_list fields use the list separator of the
 spec

---
 src/core/dic/dic_feature_impl.cc |  3 ++-
 src/core/dic/field_import.cc     | 10 ++++++----
 src/core/dic/field_import.h      |  7 +++++--
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/core/dic/dic_feature_impl.cc b/src/core/dic/dic_feature_impl.cc
index 4b10ef2..6a92863 100644
--- a/src/core/dic/dic_feature_impl.cc
+++ b/src/core/dic/dic_feature_impl.cc
@@ -47,7 +47,8 @@ Status ColumnImportContext::initialize(
     case FieldType::StringList: {
       i32 stringIdx = descr->stringStorage;
       auto stor = &storages[stringIdx];
-      importer.reset(new impl::StringListFieldImporter{stor, colpos, emptyStr});
+      importer.reset(new impl::StringListFieldImporter{
+          stor, colpos, emptyStr, descr->listSeparator});
       break;
     }
     case FieldType::StringKVList: {
diff --git a/src/core/dic/field_import.cc b/src/core/dic/field_import.cc
index c480d93..a172ba3 100644
--- a/src/core/dic/field_import.cc
+++ b/src/core/dic/field_import.cc
@@ -27,7 +27,8 @@ i32 StringListFieldImporter::fieldPointer(const util::CsvReader& csv) {
   values_.clear();
 
   while (sp.size() > 0) {
-    auto space = std::find(sp.begin(), sp.end(), ' ');
+    auto space = std::search(sp.begin(), sp.end(), separator_.begin(),
+                             separator_.end());
     auto key = StringPiece{sp.begin(), space};
     auto v = storage_->valueOf(key);
     JPP_DCHECK_NE(v, -1);
@@ -35,7 +36,7 @@ i32 StringListFieldImporter::fieldPointer(const util::CsvReader& csv) {
     if (space == sp.end()) {
       break;
     }
-    sp = StringPiece{space + 1, sp.end()};
+    sp = StringPiece{space + separator_.size(), sp.end()};
   }
 
   i32 result = static_cast<i32>(buffer_->position());
@@ -49,13 +50,14 @@ bool StringListFieldImporter::importFieldValue(const util::CsvReader& csv) {
     return true;
   }
   while (sp.size() > 0) {
-    auto space = std::find(sp.begin(), sp.end(), ' ');
+    auto space = std::search(sp.begin(), sp.end(), separator_.begin(),
+                             separator_.end());
     auto key = StringPiece{sp.begin(), space};
     storage_->increaseFieldValueCount(key);
     if (space == sp.end()) {
       return true;
     }
-    sp = StringPiece{space + 1, sp.end()};
+    sp = StringPiece{space + separator_.size(), sp.end()};
   }
 
   return true;
diff --git a/src/core/dic/field_import.h b/src/core/dic/field_import.h
index 8c2904b..834b25f 100644
--- a/src/core/dic/field_import.h
+++ b/src/core/dic/field_import.h
@@ -152,10 +152,13 @@ class StringListFieldImporter : public StringFieldImporter {
    */
   util::CodedBuffer* buffer_;
   std::vector<i32> values_;
+  std::string separator_;
 
  public:
-  StringListFieldImporter(StringStorage* storage, i32 field, StringPiece ignore)
-      : StringFieldImporter::StringFieldImporter(storage, field, ignore) {}
+  StringListFieldImporter(StringStorage* storage, i32 field, StringPiece ignore,
+                          StringPiece separator = StringPiece{" "})
+      : StringFieldImporter::StringFieldImporter(storage, field, ignore),
+        separator_{separator.str()} {}
 
   bool importFieldValue(const util::CsvReader& csv) override;
 
-- 
2.43.0


From 346b87560b41e5196601dbf63ea1eb9aff7a8717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:38 +0000
Subject: [PATCH 05/78] fix: int fields can be imported again, extended regular
 expressions have no \d

---
 src/core/dic/field_import.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/dic/field_import.cc b/src/core/dic/field_import.cc
index a172ba3..037b052 100644
--- a/src/core/dic/field_import.cc
+++ b/src/core/dic/field_import.cc
@@ -70,7 +70,7 @@ void StringListFieldImporter::injectFieldBuffer(util::CodedBuffer* buffer) {
 }
 
 IntFieldImporter::IntFieldImporter(i32 field)
-    : fld_{field}, re_{"^\\d+$", std::regex::optimize | std::regex::extended} {}
+    : fld_{field}, re_{"^[0-9]+$", std::regex::optimize | std::regex::extended} {}
 
 i32 IntFieldImporter::fieldPointer(const util::CsvReader& csv) {
   StringPiece sp = csv.field(fld_);
-- 
2.43.0


From 92a6b76100359e027f2254038fde958c6e510686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:02 +0000
Subject: [PATCH 06/78] fix: equal rows of a dictionary without data fields are
 visible

---
 src/core/dic/dic_entries.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/dic/dic_entries.h b/src/core/dic/dic_entries.h
index 137e9a5..a7149fb 100644
--- a/src/core/dic/dic_entries.h
+++ b/src/core/dic/dic_entries.h
@@ -45,9 +45,10 @@ class DicEntryBuffer {
                           c.featureBuffer_.begin() + numFeatures_ + numData_),
                  c.featureBuffer_.end()),
         featureBuffer_.begin());
+    // the first element is used as a counter when there are no data fields
     std::copy(c.dataBuffer_.begin(),
               std::min(std::max(c.dataBuffer_.begin() + numData_,
-                                c.dataBuffer_.begin()),
+                                c.dataBuffer_.begin() + 1),
                        c.dataBuffer_.end()),
               dataBuffer_.begin());
   }
@@ -113,6 +114,8 @@ class DicEntryBuffer {
       auto readBytes = actualData.numReadBytes();
       auto dataPtr = dicPtr + readBytes;
       remainingData_ = entryData.rawWithLimit(dataPtr, dataCnt);
+      // entries without data are only counted
+      dataBuffer_[0] = numAlias;
     } else {
       auto totalCnt = numFeatures_ + numData_;
       auto actualData = entryData.rawWithLimit(dicPtr, totalCnt);
-- 
2.43.0


From c09fcdd85bb300b5c3293f82eb7cabc6439459c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:18 +0000
Subject: [PATCH 07/78] fix: a malformed row makes the import of a dictionary
 fail instead of ending it silently

---
 src/core/dic/dic_build_detail.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/dic/dic_build_detail.cc b/src/core/dic/dic_build_detail.cc
index fa06a00..37e2ffa 100644
--- a/src/core/dic/dic_build_detail.cc
+++ b/src/core/dic/dic_build_detail.cc
@@ -95,6 +95,12 @@ Status DictionaryBuilderStorage::computeStats(StringPiece name,
     }
     ++numLine;
   }
+  // the reader stops before a malformed row
+  if (csv->bytePosition() != csv->byteSize()) {
+    return Status::InvalidParameter()
+           << "when processing file: " << name << ", line "
+           << csv->lineNumber() << " is not valid csv";
+  }
   return Status::Ok();
 }
 
-- 
2.43.0


From 1f8e583b6df07011abf2bd8b8e90248a00fac8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:32 +0000
Subject: [PATCH 08/78] fix: match features on list fields read the csv column
 of the field

---
 src/core/dic/dic_feature_impl.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/dic/dic_feature_impl.cc b/src/core/dic/dic_feature_impl.cc
index 6a92863..ccec240 100644
--- a/src/core/dic/dic_feature_impl.cc
+++ b/src/core/dic/dic_feature_impl.cc
@@ -92,7 +92,7 @@ Status MatchListDicFeatureImpl::initialize(
   auto& imp = ctx.importers[desc.references.front()];
   auto& ss = ctx.storage[imp.descriptor->stringStorage];
   storage_ = &ss;
-  fieldIdx_ = desc.references.front();
+  fieldIdx_ = imp.descriptor->position - 1;
   auto type = imp.descriptor->fieldType;
   switch (type) {
     case spec::FieldType::StringKVList:
@@ -146,7 +146,8 @@ void MatchListDicFeatureImpl::apply(util::MutableArraySlice<i32> featureData,
 }
 
 bool MatchListDicFeatureImpl::contains(StringPiece data) const {
-  util::CsvReader r{dataSep_};
+  // quotes are not special inside of a list
+  util::CsvReader r{dataSep_, '\0'};
   JPP_RET_CHECK(r.initFromMemory(data));
   JPP_RET_CHECK(r.nextLine());
 
-- 
2.43.0


From 94cdfd07da25101b5016bbc1fed5d399f04e3d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:24 +0000
Subject: [PATCH 09/78] fix: buffers of the global beam follow the automatic
 beam size

---
 src/core/analysis/score_processor.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/analysis/score_processor.cc b/src/core/analysis/score_processor.cc
index 6386666..68548f0 100644
--- a/src/core/analysis/score_processor.cc
+++ b/src/core/analysis/score_processor.cc
@@ -49,6 +49,8 @@ ScoreProcessor::ScoreProcessor(AnalyzerImpl *analyzer)
 
   globalBeamSize_ = analyzer->cfg().globalBeamSize;
   if (globalBeamSize_ > 0) {
+    // the automatic beam can be larger than the configured one
+    globalBeamSize_ = static_cast<i32>(lcfg.globalBeamSize);
     t1PtrData_.reserve(globalBeamSize_);
     globalBeam_ =
         alloc->allocateBuf<BeamCandidate>(maxEnds * lcfg.beamSize, 64);
-- 
2.43.0


From 1199cfbb99a4955351b0eab96f1f96d5d04ca7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:46 +0000
Subject: [PATCH 10/78] fix: an automatic beam has at least one element

---
 src/core/analysis/analyzer_impl.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/analysis/analyzer_impl.cc b/src/core/analysis/analyzer_impl.cc
index 323a3ec..38d635e 100644
--- a/src/core/analysis/analyzer_impl.cc
+++ b/src/core/analysis/analyzer_impl.cc
@@ -354,6 +354,8 @@ i32 AnalyzerImpl::autoBeamSizes() {
   auto inputSize = input_.numCodepoints();
   auto addedBeam = inputSize / cfg_.autoBeamStep;
   i32 beamSize = std::min<i32>(cfg_.autoBeamBase + addedBeam, cfg_.autoBeamMax);
+  // a beam without elements can't hold any analysis
+  beamSize = std::max<i32>(beamSize, 1);
   latticeConfig_.beamSize = static_cast<u32>(beamSize);
   latticeConfig_.globalBeamSize = static_cast<u32>(beamSize);
   lattice_.updateConfig(latticeConfig_);
-- 
2.43.0


From 109e4a7d8ec6b72da9d64073ca04e8274069c06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:01 +0000
Subject: [PATCH 11/78] fix: an onomatopoeia of four characters is found at the
 end of a sentence

---
 src/core/analysis/onomatopoeia_creator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/analysis/onomatopoeia_creator.cc b/src/core/analysis/onomatopoeia_creator.cc
index 314544f..e45d1ef 100644
--- a/src/core/analysis/onomatopoeia_creator.cc
+++ b/src/core/analysis/onomatopoeia_creator.cc
@@ -58,7 +58,7 @@ bool OnomatopoeiaUnkMaker::spawnNodes(const AnalysisInput& input,
 
 OnomatopoeiaUnkMaker::Pattern OnomatopoeiaUnkMaker::FindOnomatopoeia(
     const CodepointStorage& codepoints, LatticePosition start) const {
-  if ((start + MinOnomatopoeiaLength) >= codepoints.size()) {
+  if ((start + MinOnomatopoeiaLength) > codepoints.size()) {
     return Pattern::None;
   }
   JPP_DCHECK_IN(start, 0, codepoints.size());
-- 
2.43.0


From 18eed209ff526975ee3ca65df3e43ca66f432fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:01 +0000
Subject: [PATCH 12/78] fix: onomatopoeia: a failed dictionary lookup is not
 continued

---
 src/core/analysis/onomatopoeia_creator.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/analysis/onomatopoeia_creator.cc b/src/core/analysis/onomatopoeia_creator.cc
index e45d1ef..f77d248 100644
--- a/src/core/analysis/onomatopoeia_creator.cc
+++ b/src/core/analysis/onomatopoeia_creator.cc
@@ -21,7 +21,7 @@ bool OnomatopoeiaUnkMaker::spawnNodes(const AnalysisInput& input,
   for (LatticePosition i = 0; i < codepoints.size(); ++i) {
     auto trav = entries_.traversal();
     LatticePosition nextstep = i;
-    TraverseStatus status;
+    TraverseStatus status = TraverseStatus::NoLeaf;
     auto pattern = FindOnomatopoeia(codepoints, i);
     if (pattern == Pattern::None) {
       continue;
@@ -29,7 +29,9 @@ bool OnomatopoeiaUnkMaker::spawnNodes(const AnalysisInput& input,
     for (LatticePosition halfLen = 2; halfLen * 2 <= MaxOnomatopoeiaLength;
          ++halfLen) {
       if ((pattern & HalfLenToPattern(halfLen)) != Pattern::None) {
-        for (; nextstep < i + halfLen * 2; ++nextstep) {
+        // a failed traversal must not be continued
+        for (; nextstep < i + halfLen * 2 && status != TraverseStatus::NoNode;
+             ++nextstep) {
           status = trav.step(codepoints[nextstep].bytes);
         }
         switch (status) {
-- 
2.43.0


From 8c9012f49a58f87d66de1306b07f39b550163695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:01 +0000
Subject: [PATCH 13/78] fix: the character after a period of a number is looked
 for inside of the sentence

---
 src/core/analysis/numeric_creator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/analysis/numeric_creator.cc b/src/core/analysis/numeric_creator.cc
index 9dd3d16..52cbd47 100644
--- a/src/core/analysis/numeric_creator.cc
+++ b/src/core/analysis/numeric_creator.cc
@@ -245,7 +245,7 @@ size_t NumericUnkMaker::checkPeriod(const CodepointStorage &codepoints,
   if (pos == 0) return 0;
   if (!codepoints[posPeriod].hasClass(PeriodClass)) return 0;
   if (!codepoints[posPeriod - 1].hasClass(charClass_)) return 0;
-  if (pos + 1 < codepoints.size() &&
+  if (posPeriod + 1 < codepoints.size() &&
       codepoints[posPeriod + 1].hasClass(charClass_))
     return 1;
   return 0;
-- 
2.43.0


From 5d940263f28c66b4b523cd25d2597fe52bbf1222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:55 +0000
Subject: [PATCH 14/78] fix: objects larger than a memory page get a page of
 their own

---
 src/util/memory.cpp | 75 +++++++++++++++++++++++----------------------
 src/util/memory.hpp |  3 +-
 2 files changed, 41 insertions(+), 37 deletions(-)

diff --git a/src/util/memory.cpp b/src/util/memory.cpp
index 440dab0..3dbd2d7 100644
--- a/src/util/memory.cpp
+++ b/src/util/memory.cpp
@@ -95,49 +95,52 @@ bool clearPage(void* begin, size_t size) {
 
 constexpr size_t TWO_MEGS = 2 * 1024 * 1024;
 
-MemoryPage Manager::newPage() {
-  if (currentPage < pages_.size()) {
-    auto& page = pages_[currentPage];
-    currentPage += 1;
-    JPP_DCHECK(clearPage(page.base, page.size));
-    return page;
-  } else {
-    void* addr;
-    if (page_size_ >= TWO_MEGS) {
-      int status = posix_memalign(&addr, TWO_MEGS, page_size_);
-      if (status != 0) {
-        LOG_ERROR() << "Error when trying to get memory: " << strerror(status);
-        throw std::bad_alloc();
-      }
+MemoryPage Manager::newPage(size_t minSize) {
+  for (size_t i = currentPage; i < pages_.size(); ++i) {
+    if (pages_[i].size >= minSize) {
+      std::swap(pages_[i], pages_[currentPage]);
+      auto& page = pages_[currentPage];
+      currentPage += 1;
+      JPP_DCHECK(clearPage(page.base, page.size));
+      return page;
+    }
+  }
+
+  // objects can be larger than the usual page
+  size_t size = page_size_;
+  if (size < minSize) {
+    size = Align(minSize, 4096);
+  }
+  void* addr;
+  if (size >= TWO_MEGS) {
+    int status = posix_memalign(&addr, TWO_MEGS, size);
+    if (status != 0) {
+      LOG_ERROR() << "Error when trying to get memory: " << strerror(status);
+      throw std::bad_alloc();
+    }
 #ifdef MADV_HUGEPAGE
-      status = madvise(addr, page_size_, MADV_HUGEPAGE);
-      if (status == -1) {
-        LOG_WARN() << "madvise failed: " << strerror(status);
-      }
+    status = madvise(addr, size, MADV_HUGEPAGE);
+    if (status == -1) {
+      LOG_WARN() << "madvise failed: " << strerror(status);
+    }
 #endif
-    } else {
-      int status = posix_memalign(&addr, 4096, page_size_);
-      if (status != 0) {
-        LOG_ERROR() << "Error when trying to get memory: " << strerror(status);
-        throw std::bad_alloc();
-      }
+  } else {
+    int status = posix_memalign(&addr, 4096, size);
+    if (status != 0) {
+      LOG_ERROR() << "Error when trying to get memory: " << strerror(status);
+      throw std::bad_alloc();
     }
-    auto page = MemoryPage{addr, page_size_};
-    JPP_DCHECK(clearPage(page.base, page.size));
-    pages_.push_back(page);
-    currentPage += 1;
-    return page;
   }
+  auto page = MemoryPage{addr, size};
+  JPP_DCHECK(clearPage(page.base, page.size));
+  pages_.push_back(page);
+  std::swap(pages_.back(), pages_[currentPage]);
+  currentPage += 1;
+  return page;
 }
 
 bool PoolAlloc::switchToNewPage(size_t size) {
-  MemoryPage page = mgr_->newPage();
-  if (page.size < size) {
-    LOG_ERROR() << "page size (" << page.size << " is lesser than object size ("
-                << size << "), please increase page size";
-    JPP_BREAK_TO_DEBUGGER_IF_ATTACHED();
-    throw new std::bad_alloc();
-  }
+  MemoryPage page = mgr_->newPage(size);
   base_ = reinterpret_cast<char*>(page.base);
   offset_ = 0;
   end_ = page.size;
diff --git a/src/util/memory.hpp b/src/util/memory.hpp
index c306f9b..4e57089 100644
--- a/src/util/memory.hpp
+++ b/src/util/memory.hpp
@@ -143,7 +143,8 @@ class Manager {
 #if JUMANPP_USE_DEFAULT_ALLOCATION
   void *allocate(size_t size, size_t align);
 #else
-  MemoryPage newPage();
+  // a page with at least the given number of bytes
+  MemoryPage newPage(size_t minSize = 0);
 #endif
 
   void reset();
-- 
2.43.0


From 2a02a353f98eea7ab3bed7fd18041c2f9525d02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:17 +0000
Subject: [PATCH 15/78] fix: positions of the longest accepted input fit into
 the lattice

---
 src/core/analysis/analysis_input.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/analysis/analysis_input.cc b/src/core/analysis/analysis_input.cc
index be376be..26a1696 100644
--- a/src/core/analysis/analysis_input.cc
+++ b/src/core/analysis/analysis_input.cc
@@ -21,7 +21,10 @@ Status AnalysisInput::reset(StringPiece data) {
   raw_input_.append(data.begin(), data.end());
   JPP_RETURN_IF_ERROR(chars::preprocessRawData(raw_input_, &codepoints_));
 
-  constexpr auto max_codepoints = std::numeric_limits<LatticePosition>::max();
+  // a lattice has two boundaries before the first character
+  // and one after the last one
+  constexpr auto max_codepoints =
+      std::numeric_limits<LatticePosition>::max() - 2;
   if (codepoints().size() > max_codepoints) {
     return Status::InvalidState()
            << "jpp_core at current settings cannot process more than "
-- 
2.43.0


From 712b66c41bcb970d53593d869fd8029b0574a3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:52 +0000
Subject: [PATCH 16/78] fix: length features of the sentence end and of text
 taken from the input

The sentence end has no node to ask for its length, the lookup was out of
bounds. A length in characters was reported in bytes for unknown words.
---
 src/core/impl/feature_impl_types.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/core/impl/feature_impl_types.h b/src/core/impl/feature_impl_types.h
index b332d6d..3bdb8b2 100644
--- a/src/core/impl/feature_impl_types.h
+++ b/src/core/impl/feature_impl_types.h
@@ -156,7 +156,15 @@ class PrimitiveFeatureContext {
   i32 lengthOf(NodeInfo nodeInfo, i32 fieldNum, i32 fieldPtr,
                LengthFieldSource field, bool useBytes) {
     if (fieldPtr < 0) {
-      return extraCtx_->lengthOf(nodeInfo.entryPtr());
+      // the content is not in the dictionary, but is the text of the node
+      auto eptr = nodeInfo.entryPtr();
+      if (eptr == EntryPtr::EOS() || eptr == EntryPtr::BOS()) {
+        return 0;
+      }
+      if (!useBytes) {
+        return nodeInfo.numCodepoints();
+      }
+      return extraCtx_->lengthOf(eptr);
     }
     auto fld = fields_.at(fieldNum);
     switch (field) {
-- 
2.43.0


From bfcaecfaf4a6e512bbd3f85ecfce0ce57ba12e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:52 +0000
Subject: [PATCH 17/78] fix: lengths of list fields are refused, they were read
 from outside of the entry

---
 src/core/spec/spec_compiler.cc | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/core/spec/spec_compiler.cc b/src/core/spec/spec_compiler.cc
index 296380b..2d52e64 100644
--- a/src/core/spec/spec_compiler.cc
+++ b/src/core/spec/spec_compiler.cc
@@ -532,6 +532,19 @@ dsl::FeatureBuilder* SpecCompiler::findFeature(StringPiece name) {
   return nullptr;
 }
 
+namespace {
+// lengths are computed from features, and lists are never features
+Status checkLengthField(const dsl::FeatureBuilder& fBldr,
+                        const FieldDescriptor& fld) {
+  if (fld.fieldType != FieldType::String) {
+    return JPPS_INVALID_PARAMETER << "feature " << fBldr.name()
+                                  << " can use only a string field, "
+                                  << fld.name << " was " << fld.fieldType;
+  }
+  return Status::Ok();
+}
+}  // namespace
+
 Status SpecCompiler::copyPrimitiveInfo(PrimitiveFeatureDescriptor* desc,
                                        const dsl::FeatureBuilder& fBldr,
                                        const AccessFeatureInfo& afi) {
@@ -553,12 +566,14 @@ Status SpecCompiler::copyPrimitiveInfo(PrimitiveFeatureDescriptor* desc,
       desc->kind = PrimitiveFeatureKind::ByteLength;
       JPP_DCHECK_EQ(fBldr.fields_.size(), 1);
       auto fld = fieldByName(fBldr.fields_[0]);
+      JPP_RETURN_IF_ERROR(checkLengthField(fBldr, *fld));
       desc->references.push_back(fld->dicIndex);
       break;
     }
     case dsl::FeatureType::CodepointSize: {
       JPP_DCHECK_EQ(fBldr.fields_.size(), 1);
       auto fld = fieldByName(fBldr.fields_[0]);
+      JPP_RETURN_IF_ERROR(checkLengthField(fBldr, *fld));
       if (fld->isTrieKey) {
         desc->kind = PrimitiveFeatureKind::SurfaceCodepointSize;
       } else {
-- 
2.43.0


From 60cce0a6f4010949681feabf79a4591eb33a4e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:14 +0000
Subject: [PATCH 18/78] fix: value matches compare empty values too

The empty marker of a field (such as * in Jumandic) is not imported as a
string, and lines of match data that contain it never matched.
---
 src/core/dic/dic_feature_impl.cc | 18 +++++++++++++++---
 src/core/dic/dic_feature_impl.h  |  4 ++++
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/core/dic/dic_feature_impl.cc b/src/core/dic/dic_feature_impl.cc
index ccec240..bb6ef08 100644
--- a/src/core/dic/dic_feature_impl.cc
+++ b/src/core/dic/dic_feature_impl.cc
@@ -93,6 +93,7 @@ Status MatchListDicFeatureImpl::initialize(
   auto& ss = ctx.storage[imp.descriptor->stringStorage];
   storage_ = &ss;
   fieldIdx_ = imp.descriptor->position - 1;
+  empty_ = imp.descriptor->emptyString;
   auto type = imp.descriptor->fieldType;
   switch (type) {
     case spec::FieldType::StringKVList:
@@ -146,6 +147,9 @@ void MatchListDicFeatureImpl::apply(util::MutableArraySlice<i32> featureData,
 }
 
 bool MatchListDicFeatureImpl::contains(StringPiece data) const {
+  if (data == empty_) {  // a list without items
+    return false;
+  }
   // quotes are not special inside of a list
   util::CsvReader r{dataSep_, '\0'};
   JPP_RET_CHECK(r.initFromMemory(data));
@@ -176,6 +180,7 @@ Status MatchFieldTupleDicFeatureImpl::initialize(
     auto& ss = ctx.storage[o.descriptor->stringStorage];
     storages_.push_back(&ss);
     fields_.push_back(o.descriptor->position - 1);
+    empty_.push_back(o.descriptor->emptyString);
   }
 
   util::CsvReader csv;
@@ -192,7 +197,7 @@ Status MatchFieldTupleDicFeatureImpl::initialize(
     DicEntryFeatures def;
     for (int i = 0; i < csv.numFields(); ++i) {
       auto v = csv.field(i);
-      auto idx = storages_[i]->valueOf(v);
+      auto idx = valueOf(i, v);
       if (idx == -1) {
         if (!ctx.errorOnAbsentValues) {
           goto nextEntry;
@@ -217,15 +222,22 @@ Status MatchFieldTupleDicFeatureImpl::initialize(
   return Status::Ok();
 }
 
+i32 MatchFieldTupleDicFeatureImpl::valueOf(int i, StringPiece v) const {
+  // empty values are not imported, all of them are the empty string
+  if (v.empty() || v == empty_[i]) {
+    return 0;
+  }
+  return storages_[i]->valueOf(v);
+}
+
 void MatchFieldTupleDicFeatureImpl::apply(
     util::MutableArraySlice<i32> featureData,
     const util::CsvReader& csv) const {
   DicEntryFeatures dft;
   for (int i = 0; i < fields_.size(); ++i) {
     auto fldIdx = fields_[i];
-    auto storage = storages_[i];
     auto v = csv.field(fldIdx);
-    auto idx = storage->valueOf(v);
+    auto idx = valueOf(i, v);
     dft.features.push_back(idx);
   }
   if (data_.contains(dft)) {
diff --git a/src/core/dic/dic_feature_impl.h b/src/core/dic/dic_feature_impl.h
index d40ac29..c36f1fd 100644
--- a/src/core/dic/dic_feature_impl.h
+++ b/src/core/dic/dic_feature_impl.h
@@ -83,6 +83,7 @@ class MatchListDicFeatureImpl : public DicFeatureBase {
   u32 shift_;
   char dataSep_;
   std::string kvSep_;
+  StringPiece empty_;
   util::FlatSet<i32> data_;
 
   bool contains(StringPiece data) const;
@@ -97,10 +98,13 @@ class MatchListDicFeatureImpl : public DicFeatureBase {
 class MatchFieldTupleDicFeatureImpl : public DicFeatureBase {
   std::vector<const impl::StringStorage*> storages_;
   std::vector<i32> fields_;
+  std::vector<StringPiece> empty_;
   u32 target_;
   u32 shift_;
   util::FlatSet<xi::DicEntryFeatures, xi::DicEntryFeaturesHash> data_;
 
+  i32 valueOf(int i, StringPiece v) const;
+
  public:
   Status initialize(const DicFeatureContext& ctx,
                     const spec::DicImportDescriptor& desc) override;
-- 
2.43.0


From 3ea983499e5f315944cf1026c943cae620869240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:34 +0000
Subject: [PATCH 19/78] fix: clearing a hash table keeps no markers of removed
 entries

---
 src/util/flatrep.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/util/flatrep.h b/src/util/flatrep.h
index e8fcc86..27c990e 100644
--- a/src/util/flatrep.h
+++ b/src/util/flatrep.h
@@ -78,16 +78,15 @@ class FlatRep {
 
   void clear_no_resize() {
     for (Bucket* b = array_; b != end_; b++) {
-      if (Bucket::trivially_destructable) {
-        std::memset(b->marker, kEmpty, sizeof(b->marker));
-      } else {
+      if (!Bucket::trivially_destructable) {
         for (uint32 i = 0; i < kWidth; i++) {
           if (b->marker[i] >= 2) {
             b->Destroy(i);
-            b->marker[i] = kEmpty;
           }
         }
       }
+      // deleted entries become empty as well
+      std::memset(b->marker, kEmpty, sizeof(b->marker));
     }
     not_empty_ = 0;
     deleted_ = 0;
-- 
2.43.0


From 8489fe4e04bde7545350de0ee3e0d935c9920f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:26 +0000
Subject: [PATCH 20/78] fix: lengths of list fields are refused when features
 are created

---
 src/core/impl/feature_impl_types.h |  5 +++++
 src/core/spec/spec_compiler.cc     | 15 ---------------
 2 files changed, 5 insertions(+), 15 deletions(-)

diff --git a/src/core/impl/feature_impl_types.h b/src/core/impl/feature_impl_types.h
index 3bdb8b2..693eba7 100644
--- a/src/core/impl/feature_impl_types.h
+++ b/src/core/impl/feature_impl_types.h
@@ -61,6 +61,11 @@ class FeatureConstructionContext {
   Status checkProvidedFeature(u32 index) const { return Status::Ok(); }
 
   Status setLengthField(i32 fieldNum, LengthFieldSource* field) {
+    if (fieldNum < 0 || fieldNum >= fields->totalFields()) {
+      // list fields are not stored with features
+      return Status::InvalidParameter()
+             << "length can be computed only for string fields";
+    }
     auto fld = fields->at(fieldNum);
     auto type = fld.columnType;
     if (type == spec::FieldType::StringList) {
diff --git a/src/core/spec/spec_compiler.cc b/src/core/spec/spec_compiler.cc
index 2d52e64..296380b 100644
--- a/src/core/spec/spec_compiler.cc
+++ b/src/core/spec/spec_compiler.cc
@@ -532,19 +532,6 @@ dsl::FeatureBuilder* SpecCompiler::findFeature(StringPiece name) {
   return nullptr;
 }
 
-namespace {
-// lengths are computed from features, and lists are never features
-Status checkLengthField(const dsl::FeatureBuilder& fBldr,
-                        const FieldDescriptor& fld) {
-  if (fld.fieldType != FieldType::String) {
-    return JPPS_INVALID_PARAMETER << "feature " << fBldr.name()
-                                  << " can use only a string field, "
-                                  << fld.name << " was " << fld.fieldType;
-  }
-  return Status::Ok();
-}
-}  // namespace
-
 Status SpecCompiler::copyPrimitiveInfo(PrimitiveFeatureDescriptor* desc,
                                        const dsl::FeatureBuilder& fBldr,
                                        const AccessFeatureInfo& afi) {
@@ -566,14 +553,12 @@ Status SpecCompiler::copyPrimitiveInfo(PrimitiveFeatureDescriptor* desc,
       desc->kind = PrimitiveFeatureKind::ByteLength;
       JPP_DCHECK_EQ(fBldr.fields_.size(), 1);
       auto fld = fieldByName(fBldr.fields_[0]);
-      JPP_RETURN_IF_ERROR(checkLengthField(fBldr, *fld));
       desc->references.push_back(fld->dicIndex);
       break;
     }
     case dsl::FeatureType::CodepointSize: {
       JPP_DCHECK_EQ(fBldr.fields_.size(), 1);
       auto fld = fieldByName(fBldr.fields_[0]);
-      JPP_RETURN_IF_ERROR(checkLengthField(fBldr, *fld));
       if (fld->isTrieKey) {
         desc->kind = PrimitiveFeatureKind::SurfaceCodepointSize;
       } else {
-- 
2.43.0


From 1576dfd693de2e9b9f9a9b9e0d791c8ebe9bcc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:50 +0000
Subject: [PATCH 21/78] fix: the destructor of the training executor stops
 every thread whatever is queued

---
 src/core/training/training_executor.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/core/training/training_executor.cc b/src/core/training/training_executor.cc
index f627f31..0d48864 100644
--- a/src/core/training/training_executor.cc
+++ b/src/core/training/training_executor.cc
@@ -77,8 +77,18 @@ TrainingExecutionResult TrainingExecutor::waitOne() {
 }
 
 TrainingExecutor::~TrainingExecutor() {
-  while (trainers_.offer(nullptr))
+  // abandon the work which has not been started yet and results nobody waits
+  // for, this leaves enough space for stop marks and results of running tasks
+  ITrainer* abandoned = nullptr;
+  while (trainers_.recieve(&abandoned))
     ;  // do nothing
+  TrainingExecutionResult ignored;
+  while (results_.recieve(&ignored))
+    ;  // do nothing
+  // each thread needs its own stop mark
+  for (size_t i = 0; i < threads_.size(); ++i) {
+    trainers_.offer(nullptr);
+  }
   trainers_.unblock_all();
   for (auto& t : threads_) {
     t->finish();
-- 
2.43.0


From a3b61adb26d0be581a91c02dcbec16e96c15d4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:50 +0000
Subject: [PATCH 22/78] fix: a failed training batch leaves no examples in the
 executor

---
 src/core/training/training_env.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/core/training/training_env.cc b/src/core/training/training_env.cc
index 539ecda..ae715ac 100644
--- a/src/core/training/training_env.cc
+++ b/src/core/training/training_env.cc
@@ -77,7 +77,14 @@ Status TrainingEnv::trainOneBatch(i32 iterNum) {
     }
 
     // step2: wait for ready trainers and process them
-    JPP_RETURN_IF_ERROR(handleProcessedTrainer(executor_.waitOne(), &curLoss));
+    Status status = handleProcessedTrainer(executor_.waitOne(), &curLoss);
+    if (!status) {
+      // other examples of the batch must not be left for the next one
+      for (int i = processedTrainers + 1; i < submittedTrainers; ++i) {
+        executor_.waitOne();
+      }
+      return status;
+    }
   }
 
   JPP_DCHECK_EQ(executor_.nowReady(), 0);
-- 
2.43.0


From 1726b5fbc9209c4d10ed3f471ac977e0a83446b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:27 +0000
Subject: [PATCH 23/78] fix: every input file is read, files which can not be
 read are reported once

---
 src/jumandic/main/jumanpp.cc | 42 +++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/src/jumandic/main/jumanpp.cc b/src/jumandic/main/jumanpp.cc
index 77d9278..893441a 100644
--- a/src/jumandic/main/jumanpp.cc
+++ b/src/jumandic/main/jumanpp.cc
@@ -24,13 +24,13 @@ struct InputOutput {
 
   Status moveToNextFile() {
     auto& fn = (*inFiles_)[currentInFile_];
+    currentInFile_ += 1;
+    currentInputFilename_ = fn;
     fileInput_.reset(new std::ifstream{fn});
-    if (fileInput_->bad()) {
-      return JPPS_INVALID_PARAMETER << "failed to open output file: " << fn;
-    }
     input_ = fileInput_.get();
-    currentInputFilename_ = fn;
-    currentInFile_ += 1;
+    if (!fileInput_->is_open()) {
+      return JPPS_INVALID_PARAMETER << "failed to open input file: " << fn;
+    }
     return Status::Ok();
   }
 
@@ -79,21 +79,27 @@ struct InputOutput {
     return Status::Ok();
   }
 
-  bool hasNext() {
-    if (input_->good()) {
-      auto ch = input_->peek();
-      if (ch == std::char_traits<char>::eof()) {
+  // Moves to the next file when there is nothing more to read in the current
+  // one. Files which could not be read are reported to the status.
+  bool hasNext(Status* status) {
+    while (true) {
+      if (input_->good() &&
+          input_->peek() != std::char_traits<char>::eof()) {
+        return true;
+      }
+      if (input_->bad()) {
+        *status = JPPS_INVALID_STATE << "failed when reading from file: "
+                                     << currentInputFilename_;
+      }
+      if (currentInFile_ >= inFiles_->size()) {
         return false;
       }
-    }
-    while (input_->eof() && currentInFile_ < inFiles_->size()) {
-      auto s = moveToNextFile();
+      Status s = moveToNextFile();
       if (!s) {
         LOG_ERROR() << s.message();
+        *status = std::move(s);
       }
     }
-    auto isOk = !input_->eof();
-    return isOk;
   }
 };
 
@@ -152,8 +158,9 @@ int main(int argc, const char** argv) {
   }
 
   int result = 0;
+  Status inputStatus = Status::Ok();
 
-  while (io.hasNext()) {
+  while (io.hasNext(&inputStatus)) {
     s = io.nextInput();
     if (!s) {
       std::cerr << "failed to read an example: " << s;
@@ -178,5 +185,10 @@ int main(int argc, const char** argv) {
     }
   }
 
+  if (!inputStatus) {
+    std::cerr << inputStatus;
+    result = 1;
+  }
+
   return result;
 }
-- 
2.43.0


From 719d3e61f43f86b5ccac62396d89475c335937eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:27 +0000
Subject: [PATCH 24/78] fix: a failed sentence yields an error block and a
 non-zero exit code

---
 src/jumandic/main/jumanpp.cc        | 6 ++++--
 src/jumandic/shared/jumandic_env.cc | 2 ++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/jumandic/main/jumanpp.cc b/src/jumandic/main/jumanpp.cc
index 893441a..b877962 100644
--- a/src/jumandic/main/jumanpp.cc
+++ b/src/jumandic/main/jumanpp.cc
@@ -164,22 +164,24 @@ int main(int argc, const char** argv) {
     s = io.nextInput();
     if (!s) {
       std::cerr << "failed to read an example: " << s;
+      *io.output_ << exec.emptyResult();
       result = 1;
       continue;
     }
 
-    result = 0;
-
     s = io.streamReader_->analyzeWith(exec.analyzerPtr());
     if (!s) {
       std::cerr << s;
       *io.output_ << exec.emptyResult();
+      result = 1;
       continue;
     }
 
     s = exec.format()->format(*exec.analyzerPtr(), io.streamReader_->comment());
     if (!s) {
       std::cerr << s;
+      *io.output_ << exec.emptyResult();
+      result = 1;
     } else {
       *io.output_ << exec.format()->result();
     }
diff --git a/src/jumandic/shared/jumandic_env.cc b/src/jumandic/shared/jumandic_env.cc
index b6fe65f..072ecac 100644
--- a/src/jumandic/shared/jumandic_env.cc
+++ b/src/jumandic/shared/jumandic_env.cc
@@ -215,6 +215,8 @@ StringPiece JumanppExec::emptyResult() const {
       return StringPiece{"# ERROR\nEOS\n"};
     case OutputType::Morph:
     case OutputType::FullMorph:
+    case OutputType::Segmentation:
+    case OutputType::DicSubset:
       return StringPiece{"# ERROR\n"};
     default:
       return EMPTY_SP;
-- 
2.43.0


From 37515ebef3117ce28fbee006c24824d0cf2f427d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:27 +0000
Subject: [PATCH 25/78] fix: a comment line may be empty

---
 src/core/input/stream_reader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/input/stream_reader.cc b/src/core/input/stream_reader.cc
index de94c0c..a4b5c13 100644
--- a/src/core/input/stream_reader.cc
+++ b/src/core/input/stream_reader.cc
@@ -14,7 +14,7 @@ Status PlainStreamReader::readExample(std::istream *stream) {
   while (true) {
     input_.clear();
     std::getline(*stream, this->input_);
-    if (input_.size() > 2 && input_[0] == '#' && input_[1] == ' ') {
+    if (input_.size() >= 2 && input_[0] == '#' && input_[1] == ' ') {
       std::swap(comment_, input_);
     } else {
       break;
-- 
2.43.0


From 68d3b1518f1c9ead4a4024c91c284bb93a26b100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:20 +0000
Subject: [PATCH 26/78] fix: lattice output keeps the comment of an empty
 sentence

---
 src/jumandic/shared/lattice_format.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jumandic/shared/lattice_format.cc b/src/jumandic/shared/lattice_format.cc
index 9937511..4978eed 100644
--- a/src/jumandic/shared/lattice_format.cc
+++ b/src/jumandic/shared/lattice_format.cc
@@ -86,6 +86,9 @@ Status LatticeFormat::format(const core::analysis::Analyzer& analyzer,
   auto lat = analyzer.impl()->lattice();
   if (lat->createdBoundaryCount() == 3) {
     printer.reset();
+    if (!comment.empty()) {
+      printer << "# " << comment << '\n';
+    }
     printer << "EOS\n";
     return Status::Ok();
   }
-- 
2.43.0


From 24e130f468f83457d7dc0a1d9bd74d0d036f9fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:17 +0000
Subject: [PATCH 27/78] fix: the last features of the difference move in the
 right direction

Features of the prediction which are greater than all gold features were
increased instead of decreased, and gold ones were decreased.
---
 src/core/training/loss.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/training/loss.cc b/src/core/training/loss.cc
index 31abd45..f13e3a8 100644
--- a/src/core/training/loss.cc
+++ b/src/core/training/loss.cc
@@ -236,11 +236,11 @@ void LossCalculator::computeFeatureDiff(u32 mask) {
   }
 
   for (; topPos < topCnt; ++topPos) {
-    mergeOne(top1Features[topPos], 1.0f);
+    mergeOne(top1Features[topPos], -1.0f);
   }
 
   for (; goldPos < goldCnt; ++goldPos) {
-    mergeOne(goldFeatures[goldPos], -1.0f);
+    mergeOne(goldFeatures[goldPos], 1.0f);
   }
 
   float numGold = 0;
-- 
2.43.0


From 459a98210cee521afe636ca37f77216c8beb0074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:17 +0000
Subject: [PATCH 28/78] fix: compare training fields by their columns in the
 lattice

Gold and predicted nodes were compared by the number of a field in the
specification, which is another column (or none) if some of fields before
it are not used for features. Fields with zero weight are not compared.
---
 src/core/training/gold_example.cc | 5 ++++-
 src/core/training/loss.cc         | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/core/training/gold_example.cc b/src/core/training/gold_example.cc
index 4ea4791..8af9c95 100644
--- a/src/core/training/gold_example.cc
+++ b/src/core/training/gold_example.cc
@@ -26,7 +26,7 @@ bool TrainingExampleAdapter::matchUnkNodeData(const analysis::ExtraNode *pNode,
     if (trainFld.weight == 0) {
       continue;
     }
-    auto latticeIdx = trainFld.fieldIdx;
+    auto latticeIdx = trainFld.dicIdx;
     auto latVal = latNodeData.at(latticeIdx);
     if (latVal < 0) {
       if (latVal != surfaceHash) {
@@ -117,6 +117,9 @@ EntryPtr TrainingExampleAdapter::makeUnkTrainingNode(const ExampleNode &node) {
   for (int i = 0; i < node.data.size(); ++i) {
     auto nodeVal = node.data[i];
     auto idx = spec->fields[i].dicIdx;
+    if (idx < 0) {  // field is not used for features, weight is 0
+      continue;
+    }
     if (nodeVal >= 0) {
       nodeData.at(idx) = nodeVal;
     } else {
diff --git a/src/core/training/loss.cc b/src/core/training/loss.cc
index f13e3a8..95662e2 100644
--- a/src/core/training/loss.cc
+++ b/src/core/training/loss.cc
@@ -39,7 +39,10 @@ bool LossCalculator::findWorstTopNode(i32 goldPos, ComparisonStep* step) {
     float mismatchWeight = 0;
 
     for (auto& sf : specFlds) {
-      if (topData[sf.fieldIdx] != goldData[sf.fieldIdx]) {
+      if (sf.weight == 0) {
+        continue;
+      }
+      if (topData[sf.dicIdx] != goldData[sf.dicIdx]) {
         numMismatches += 1;
         mismatchWeight += sf.weight;
       }
-- 
2.43.0


From 76211c0c1ff578d593ebeb7865a11efb2a644444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:17 +0000
Subject: [PATCH 29/78] fix: gold nodes of unknown words have the surface of
 the word

If another field of the word was unknown as well, its value was used
as the surface.
---
 src/core/training/full_example.cc | 1 +
 src/core/training/full_example.h  | 6 ++++++
 2 files changed, 7 insertions(+)

diff --git a/src/core/training/full_example.cc b/src/core/training/full_example.cc
index 1827166..aa075da 100644
--- a/src/core/training/full_example.cc
+++ b/src/core/training/full_example.cc
@@ -11,6 +11,7 @@ namespace training {
 Status FullExampleReader::readFullExample(FullyAnnotatedExample *result) {
   result->data_.clear();
   result->lengths_.clear();
+  result->surfaceField_ = tio_->surfaceFieldIdx();
 
   switch (mode_) {
     case DataReaderMode::SimpleCsv:
diff --git a/src/core/training/full_example.h b/src/core/training/full_example.h
index e129e45..82175ec 100644
--- a/src/core/training/full_example.h
+++ b/src/core/training/full_example.h
@@ -36,6 +36,7 @@ class FullyAnnotatedExample {
   StringPiece filename_;
   std::string comment_;
   i64 line_;
+  i32 surfaceField_ = 0;
 
   friend class FullExampleReader;
 
@@ -61,6 +62,11 @@ class FullyAnnotatedExample {
       }
     }
 
+    // surface is more important than other fields
+    if (examRow.at(surfaceField_) < 0) {
+      negIdx = examRow.at(surfaceField_);
+    }
+
     StringPiece sp{};
     if (negIdx < 0) {
       sp = strings_[~negIdx];
-- 
2.43.0


From 4da4ef19ea4a5242806d9fe42470f2e4fa15c983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:17 +0000
Subject: [PATCH 30/78] fix: decrease features of the prediction if there are
 no gold-only ones

---
 src/core/training/loss.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/training/loss.cc b/src/core/training/loss.cc
index 95662e2..57f2fbc 100644
--- a/src/core/training/loss.cc
+++ b/src/core/training/loss.cc
@@ -259,7 +259,7 @@ void LossCalculator::computeFeatureDiff(u32 mask) {
 
   float weight = 1.0f;
   bool updateTop = true;
-  if (numTop != 0) {
+  if (numTop != 0 && numGold != 0) {
     weight = numGold / numTop;
   }
   if (weight > 2 && numGold != 0) {
-- 
2.43.0


From 6bb7a2d14e6b3320d960b287e923760d04af624c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:22 +0000
Subject: [PATCH 31/78] fix: unk_gold_if: keys without a value do not match any
 field value

---
 src/core/training/gold_example.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/training/gold_example.cc b/src/core/training/gold_example.cc
index 8af9c95..9caf2ae 100644
--- a/src/core/training/gold_example.cc
+++ b/src/core/training/gold_example.cc
@@ -189,6 +189,9 @@ UnkAllowedField::UnkAllowedField(const CoreHolder &core) {
       auto fldPtr = deb.data().at(~srcF.dicIndex);
       auto kv = fld->postions.kvListAt(fldPtr);
       while (kv.moveNext()) {
+        if (!kv.hasValue()) {
+          continue;
+        }
         auto kid = kv.key();
         StringPiece sp;
         if (!fld->strings.readAt(kid, &sp)) {
-- 
2.43.0


From 148c58fa17e36baa3c77f93d03033e6b0f2d9528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:18 +0000
Subject: [PATCH 32/78] fix: short rows of a training corpus are reported
 before their fields are read

---
 src/core/training/full_example.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/core/training/full_example.cc b/src/core/training/full_example.cc
index aa075da..94f6812 100644
--- a/src/core/training/full_example.cc
+++ b/src/core/training/full_example.cc
@@ -114,11 +114,6 @@ Status FullExampleReader::readFullExampleDblCsv(FullyAnnotatedExample *result) {
 Status FullExampleReader::readSingleExampleFragment(
     const util::CsvReader &csv, FullyAnnotatedExample *result) {
   codepts_.clear();
-  auto surfFld = csv.field(tio_->surfaceFieldIdx());
-
-  JPP_RETURN_IF_ERROR(chars::preprocessRawData(surfFld, &codepts_));
-  result->lengths_.push_back(codepts_.size());
-
   auto fields = tio_->fields();
 
   if (csv.numFields() < fields.size()) {
@@ -126,6 +121,12 @@ Status FullExampleReader::readSingleExampleFragment(
            << "a word from the line #" << csv_.lineNumber() << " had "
            << csv.numFields() << " fields, expected " << fields.size();
   }
+
+  auto surfFld = csv.field(tio_->surfaceFieldIdx());
+
+  JPP_RETURN_IF_ERROR(chars::preprocessRawData(surfFld, &codepts_));
+  result->lengths_.push_back(codepts_.size());
+
   result->surface_.append(surfFld.char_begin(), surfFld.char_end());
   for (int i = 0; i < fields.size(); ++i) {
     auto &fldInfo = fields[i];
-- 
2.43.0


From a27d74ea744d75dd2b226faf765234b360c8593e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:57 +0000
Subject: [PATCH 33/78] fix: comments of csv training corpora are read in full
 and without their mark

---
 src/core/training/full_example.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/training/full_example.cc b/src/core/training/full_example.cc
index 94f6812..cc33722 100644
--- a/src/core/training/full_example.cc
+++ b/src/core/training/full_example.cc
@@ -66,7 +66,11 @@ Status FullExampleReader::readFullExampleCsv(FullyAnnotatedExample *result) {
 
     auto line = csv_.line();
     if (startsWith(line, "# ")) {
-      line.slice(0, line.size() - 1).assignTo(result->comment_);
+      auto end = line.size();
+      while (end > 2 && (line[end - 1] == '\n' || line[end - 1] == '\r')) {
+        --end;
+      }
+      line.slice(2, end).assignTo(result->comment_);
       continue;
     }
 
-- 
2.43.0


From 7f3281f15e8cb1703cfc15d94893a867c243224e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:57 +0000
Subject: [PATCH 34/78] fix: the last example of a csv training corpus needs no
 terminator

---
 src/core/training/trainer.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/training/trainer.cc b/src/core/training/trainer.cc
index 60d1f29..7a69557 100644
--- a/src/core/training/trainer.cc
+++ b/src/core/training/trainer.cc
@@ -101,6 +101,10 @@ Status TrainerBatch::readFullBatch(FullExampleReader *rdr) {
     tr->reset();
     JPP_RETURN_IF_ERROR(tr->readExample(rdr));
     if (rdr->finished()) {
+      // the last example may end with the file
+      if (tr->trainer().example().numNodes() != 0) {
+        ++trIdx;
+      }
       break;
     }
   }
-- 
2.43.0


From 6917414148258062c19ec929ac90a7d04e7562da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:57 +0000
Subject: [PATCH 35/78] fix: malformed lines of a training corpus are errors,
 not its end

---
 src/core/training/full_example.cc | 18 +++++++++++++++---
 src/core/training/full_example.h  |  1 +
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/core/training/full_example.cc b/src/core/training/full_example.cc
index cc33722..80ebb38 100644
--- a/src/core/training/full_example.cc
+++ b/src/core/training/full_example.cc
@@ -76,13 +76,25 @@ Status FullExampleReader::readFullExampleCsv(FullyAnnotatedExample *result) {
 
     JPP_RETURN_IF_ERROR(readSingleExampleFragment(csv_, result));
   }
+  JPP_RETURN_IF_ERROR(checkEndOfInput());
   finished_ = true;
   return Status::Ok();
 }
 
+Status FullExampleReader::checkEndOfInput() const {
+  // csv reader stops before a malformed line
+  if (csv_.bytePosition() != csv_.byteSize()) {
+    return JPPS_INVALID_PARAMETER << "line #" << csv_.lineNumber()
+                                  << " of the file " << filename_
+                                  << " is malformed";
+  }
+  return Status::Ok();
+}
+
 Status FullExampleReader::readFullExampleDblCsv(FullyAnnotatedExample *result) {
-  finished_ = !csv_.nextLine();
-  if (finished_) {
+  if (!csv_.nextLine()) {
+    JPP_RETURN_IF_ERROR(checkEndOfInput());
+    finished_ = true;
     return Status::Ok();
   }
 
@@ -105,7 +117,7 @@ Status FullExampleReader::readFullExampleDblCsv(FullyAnnotatedExample *result) {
     }
 
     JPP_RETURN_IF_ERROR(csv2_.initFromMemory(content));
-    if (!csv2_.nextLine()) {
+    if (!csv2_.nextLine() || csv2_.bytePosition() != csv2_.byteSize()) {
       return JPPS_INVALID_PARAMETER << "failed to read word #" << i
                                     << " from the line #" << csv_.lineNumber();
     }
diff --git a/src/core/training/full_example.h b/src/core/training/full_example.h
index 82175ec..078575f 100644
--- a/src/core/training/full_example.h
+++ b/src/core/training/full_example.h
@@ -110,6 +110,7 @@ class FullExampleReader {
   StringPiece filename_;
   util::CharBuffer<> charBuffer_;
 
+  Status checkEndOfInput() const;
   Status readSingleExampleFragment(const util::CsvReader& csv,
                                    FullyAnnotatedExample* result);
 
-- 
2.43.0


From 6f9365743d3902f2fe2b31ffc43269622af55fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:15 +0000
Subject: [PATCH 36/78] fix: an exported model has only the weights of this
 training

---
 src/core/training/scw.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/core/training/scw.cc b/src/core/training/scw.cc
index 4b94d09..8ad4fad 100644
--- a/src/core/training/scw.cc
+++ b/src/core/training/scw.cc
@@ -3,6 +3,7 @@
 //
 
 #include "scw.h"
+#include <algorithm>
 #include <cmath>
 #include <random>
 #include "core/impl/model_io.h"
@@ -148,7 +149,15 @@ void SoftConfidenceWeighted::exportModel(model::ModelInfo* model,
 
   part.data.push_back(weightsMemory);
 
-  model->parts.push_back(std::move(part));
+  // weights which the model was loaded with are not used any more
+  auto& parts = model->parts;
+  parts.erase(std::remove_if(parts.begin(), parts.end(),
+                             [](const model::ModelPart& p) {
+                               return p.kind ==
+                                      model::ModelPartKind::Perceprton;
+                             }),
+              parts.end());
+  parts.push_back(std::move(part));
 }
 
 SoftConfidenceWeighted::~SoftConfidenceWeighted() = default;
-- 
2.43.0


From ca4fe9bbcec5873e3d3e4d84c204aee7f4dd6800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:38 +0000
Subject: [PATCH 37/78] fix: training fails when its model can not be saved or
 a partial corpus can not be read

---
 src/jumandic/main/jumanpp_train.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jumandic/main/jumanpp_train.cc b/src/jumandic/main/jumanpp_train.cc
index e862032..1c8ab94 100644
--- a/src/jumandic/main/jumanpp_train.cc
+++ b/src/jumandic/main/jumanpp_train.cc
@@ -216,6 +216,7 @@ int saveModel(const core::training::TrainingArguments& args,
   s = saver.save(model);
   if (!s) {
     LOG_ERROR() << "failed to save model: " << s;
+    return 1;
   }
   LOG_INFO() << "Model saved successfully";
 
@@ -245,6 +246,7 @@ int doTrainJpp(t::TrainingArguments& args, core::JumanppEnv& env) {
     s = exec.loadPartialExamples(args.partialCorpus);
     if (!s) {
       LOG_ERROR() << "failed to load partially annotated corpus: " << s;
+      return 1;
     }
   }
 
-- 
2.43.0


From 60790a12213c06f0a5e517dbd3368ec5cd405a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:50 +0000
Subject: [PATCH 38/78] fix: model files which end before their parts do are
 refused

---
 src/core/impl/model_io.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/impl/model_io.cc b/src/core/impl/model_io.cc
index c1c3575..f707167 100644
--- a/src/core/impl/model_io.cc
+++ b/src/core/impl/model_io.cc
@@ -153,6 +153,11 @@ Status FilesystemModel::load(ModelInfo* info) {
     part.kind = p.kind;
     part.comment = p.comment;
     for (auto& raw : p.data) {
+      if (raw.offset > modelData.size() ||
+          raw.size > modelData.size() - raw.offset) {
+        return JPPS_INVALID_STATE << "model file " << file_->name
+                                  << " is truncated or corrupted";
+      }
       ptrdiff_t start = static_cast<ptrdiff_t>(raw.offset);
       ptrdiff_t end = static_cast<ptrdiff_t>(start + raw.size);
       part.data.push_back(modelData.slice(start, end));
-- 
2.43.0


From 1d2130c25f01ac51490a55338973caa26dfbc305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:40 +0000
Subject: [PATCH 39/78] fix: sizes of serialized vectors are checked before
 memory is reserved

---
 src/util/serialization.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/util/serialization.h b/src/util/serialization.h
index 5fbb4ac..819a590 100644
--- a/src/util/serialization.h
+++ b/src/util/serialization.h
@@ -255,6 +255,10 @@ struct SerializeImpl<std::vector<T, A>> {
                                      util::CodedBufferParser &p) {
     u64 sz;
     JPP_RET_CHECK(p.readVarint64(&sz));
+    // every element has at least one byte
+    if (sz > p.remaining()) {
+      return false;
+    }
     o.reserve(sz);
     for (int i = 0; i < sz; ++i) {
       o.emplace_back();
-- 
2.43.0


From 1f891afb7e8c589dff04e6f9030e23ea263a6a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:40 +0000
Subject: [PATCH 40/78] fix: model headers are read to the end of their page
 and not past it

---
 src/core/impl/model_io.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core/impl/model_io.cc b/src/core/impl/model_io.cc
index f707167..06de66c 100644
--- a/src/core/impl/model_io.cc
+++ b/src/core/impl/model_io.cc
@@ -121,7 +121,8 @@ Status FilesystemModel::open(StringPiece name) {
                               << " has corrupted header";
   }
 
-  auto rest = sp.slice(sizeof(ModelMagic), 4096 - sizeof(ModelMagic));
+  auto rest = sp.take(std::min<size_t>(4096, sp.size()))
+                  .from(std::min(sizeof(ModelMagic), sp.size()));
   util::CodedBufferParser cbp{rest};
   u64 hdrSize = 0;
   if (!cbp.readVarint64(&hdrSize)) {
@@ -129,6 +130,11 @@ Status FilesystemModel::open(StringPiece name) {
                               << file_->name;
   }
 
+  if (hdrSize > rest.size() - cbp.numReadBytes()) {
+    return JPPS_INVALID_STATE << "model file " << file_->name
+                              << " has corrupted header size";
+  }
+
   util::serialization::Loader l{
       rest.slice(cbp.numReadBytes(), cbp.numReadBytes() + hdrSize)};
   if (!l.load(&file_->rawModel)) {
-- 
2.43.0


From 547f3d6c7fe5c464135a95e65004bc6719dac0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:40 +0000
Subject: [PATCH 41/78] fix: parts of a model may have empty blocks

---
 src/core/impl/model_io.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/core/impl/model_io.cc b/src/core/impl/model_io.cc
index 06de66c..fdd6668 100644
--- a/src/core/impl/model_io.cc
+++ b/src/core/impl/model_io.cc
@@ -58,9 +58,11 @@ Status ModelSaver::save(const ModelInfo& info) {
     rawPart.comment = part.comment;
 
     for (auto& buf : part.data) {
-      util::MappedFileFragment frag;
-      JPP_RETURN_IF_ERROR(file_->mmap.map(&frag, offset, buf.size()));
-      std::memcpy(frag.address(), buf.data(), buf.size());
+      if (!buf.empty()) {
+        util::MappedFileFragment frag;
+        JPP_RETURN_IF_ERROR(file_->mmap.map(&frag, offset, buf.size()));
+        std::memcpy(frag.address(), buf.data(), buf.size());
+      }
       rawPart.data.push_back(BlockPtr{offset, buf.size()});
       offset = util::memory::Align(offset + buf.size(), 4096);
     }
@@ -159,6 +161,11 @@ Status FilesystemModel::load(ModelInfo* info) {
     part.kind = p.kind;
     part.comment = p.comment;
     for (auto& raw : p.data) {
+      if (raw.size == 0) {
+        // can be after the end of the file
+        part.data.push_back(modelData.take(0));
+        continue;
+      }
       if (raw.offset > modelData.size() ||
           raw.size > modelData.size() - raw.offset) {
         return JPPS_INVALID_STATE << "model file " << file_->name
-- 
2.43.0


From 6636574dc856b20a4306b3901c1fca791dfc4241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:06 +0000
Subject: [PATCH 42/78] fix: interrupted saving does not leave a valid header
 before broken parts

---
 src/core/impl/model_io.cc | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/core/impl/model_io.cc b/src/core/impl/model_io.cc
index fdd6668..c3be694 100644
--- a/src/core/impl/model_io.cc
+++ b/src/core/impl/model_io.cc
@@ -58,11 +58,6 @@ Status ModelSaver::save(const ModelInfo& info) {
     rawPart.comment = part.comment;
 
     for (auto& buf : part.data) {
-      if (!buf.empty()) {
-        util::MappedFileFragment frag;
-        JPP_RETURN_IF_ERROR(file_->mmap.map(&frag, offset, buf.size()));
-        std::memcpy(frag.address(), buf.data(), buf.size());
-      }
       rawPart.data.push_back(BlockPtr{offset, buf.size()});
       offset = util::memory::Align(offset + buf.size(), 4096);
     }
@@ -88,6 +83,25 @@ Status ModelSaver::save(const ModelInfo& info) {
   JPP_RETURN_IF_ERROR(file_->mmap.map(&frag, 0, 4096));
   auto slice = frag.asMutableSlice();
   char* begin = slice.begin();
+
+  // a file must not have a valid header until all its parts are in place
+  std::memset(begin, 0, slice.size());
+  JPP_RETURN_IF_ERROR(frag.flush());
+
+  for (size_t partNo = 0; partNo < info.parts.size(); ++partNo) {
+    auto& part = info.parts[partNo];
+    for (size_t bufNo = 0; bufNo < part.data.size(); ++bufNo) {
+      auto& buf = part.data[bufNo];
+      if (buf.empty()) {
+        continue;
+      }
+      util::MappedFileFragment block;
+      auto& ptr = raw.parts[partNo].data[bufNo];
+      JPP_RETURN_IF_ERROR(file_->mmap.map(&block, ptr.offset, ptr.size));
+      std::memcpy(block.address(), buf.data(), buf.size());
+    }
+  }
+
   std::memcpy(begin, ModelMagic, sizeof(ModelMagic));
   begin += sizeof(ModelMagic);
   std::memcpy(begin, cb.contents().begin(), cb.position());
-- 
2.43.0


From e1c36463ce34b64762d1e7fcd680e8a8c663dbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:18 +0000
Subject: [PATCH 43/78] fix: comments of partial examples lose their last
 character or keep CR

---
 src/core/input/partial_example_io.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/core/input/partial_example_io.cc b/src/core/input/partial_example_io.cc
index b72f2d1..928f64a 100644
--- a/src/core/input/partial_example_io.cc
+++ b/src/core/input/partial_example_io.cc
@@ -36,8 +36,14 @@ Status PartialExampleReader::readExample(PartialExample* result, bool* eof) {
     }
 
     auto wholeLine = csv_.line();
-    if (wholeLine.size() > 2 && wholeLine[0] == '#' && wholeLine[1] == ' ') {
-      wholeLine.slice(2, wholeLine.size() - 1).assignTo(result->comment_);
+    if (wholeLine.size() >= 2 && wholeLine[0] == '#' && wholeLine[1] == ' ') {
+      auto begin = wholeLine.begin() + 2;
+      auto end = wholeLine.end();
+      // the line contains its end of line characters, unless it is the last one
+      while (end != begin && (end[-1] == '\n' || end[-1] == '\r')) {
+        --end;
+      }
+      StringPiece{begin, end}.assignTo(result->comment_);
       continue;
     }
 
-- 
2.43.0


From 4061ccdb3931983ffe9241d5f068135d791020cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:18 +0000
Subject: [PATCH 44/78] fix: partial examples keep the comment of a previous
 example

---
 src/core/input/partial_example_io.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/input/partial_example_io.cc b/src/core/input/partial_example_io.cc
index 928f64a..76b02a6 100644
--- a/src/core/input/partial_example_io.cc
+++ b/src/core/input/partial_example_io.cc
@@ -29,6 +29,7 @@ Status PartialExampleReader::readExample(PartialExample* result, bool* eof) {
   result->noBreak_.clear();
   result->surface_.clear();
   result->nodes_.clear();
+  result->comment_.clear();
   while (csv_.nextLine()) {
     if (firstLine) {
       result->line_ = csv_.lineNumber();
-- 
2.43.0


From 2634b9c73d7778a691a5ec834959ae3f46a74156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:18 +0000
Subject: [PATCH 45/78] fix: partial examples accept words with empty surface

---
 src/core/input/partial_example_io.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/input/partial_example_io.cc b/src/core/input/partial_example_io.cc
index 76b02a6..98a060e 100644
--- a/src/core/input/partial_example_io.cc
+++ b/src/core/input/partial_example_io.cc
@@ -84,6 +84,11 @@ Status PartialExampleReader::readExample(PartialExample* result, bool* eof) {
     NodeConstraint nc{};
 
     auto surface = csv_.field(1);
+    if (surface.empty()) {
+      return JPPS_INVALID_PARAMETER
+             << "in file: " << filename_ << ":" << csv_.lineNumber()
+             << " a word with empty surface";
+    }
     codepts_.clear();
     JPP_RIE_MSG(chars::preprocessRawData(surface, &codepts_),
                 surface << " at " << filename_ << ":" << csv_.lineNumber());
-- 
2.43.0


From 0a40ea36448a0a4e1058a46f9eea9211826472da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:18 +0000
Subject: [PATCH 46/78] fix: a malformed line is not the end of a file of
 partial examples

---
 src/core/input/partial_example_io.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/input/partial_example_io.cc b/src/core/input/partial_example_io.cc
index 98a060e..fdbff85 100644
--- a/src/core/input/partial_example_io.cc
+++ b/src/core/input/partial_example_io.cc
@@ -137,6 +137,10 @@ Status PartialExampleReader::readExample(PartialExample* result, bool* eof) {
 
     result->nodes_.push_back(std::move(nc));
   }
+  if (csv_.bytePosition() != csv_.byteSize()) {
+    return JPPS_INVALID_PARAMETER << "in file: " << filename_ << ":"
+                                  << csv_.lineNumber() << " malformed line";
+  }
   *eof = true;
   return Status::Ok();
 }
-- 
2.43.0


From 451348400b325eb42f946848090357e5caa761d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:18 +0000
Subject: [PATCH 47/78] fix: the last partial example of a file is lost without
 an empty line after it

---
 src/core/input/partial_example_io.cc | 20 ++++++++++++++------
 src/core/input/partial_example_io.h  |  1 +
 src/core/input/pex_stream_reader.cc  |  2 +-
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/core/input/partial_example_io.cc b/src/core/input/partial_example_io.cc
index fdbff85..0b09ecb 100644
--- a/src/core/input/partial_example_io.cc
+++ b/src/core/input/partial_example_io.cc
@@ -21,6 +21,15 @@ Status PartialExampleReader::initialize(TrainFieldsIndex* tio,
   return Status::Ok();
 }
 
+namespace {
+// the end of the last line is the end of the sentence
+void removeLastBoundary(std::vector<i32>* boundaries) {
+  if (!boundaries->empty()) {
+    boundaries->pop_back();
+  }
+}
+}  // namespace
+
 Status PartialExampleReader::readExample(PartialExample* result, bool* eof) {
   result->file_ = filename_;
   bool firstLine = true;
@@ -51,10 +60,7 @@ Status PartialExampleReader::readExample(PartialExample* result, bool* eof) {
     if (csv_.numFields() == 1) {
       auto data = csv_.field(0);
       if (data.empty()) {
-        auto& bnds = result->boundaries_;
-        if (!bnds.empty()) {
-          bnds.erase(bnds.end() - 1, bnds.end());
-        }
+        removeLastBoundary(&result->boundaries_);
         *eof = false;
         return Status::Ok();
       }
@@ -137,11 +143,13 @@ Status PartialExampleReader::readExample(PartialExample* result, bool* eof) {
 
     result->nodes_.push_back(std::move(nc));
   }
-  if (csv_.bytePosition() != csv_.byteSize()) {
+  if (!atEnd()) {
     return JPPS_INVALID_PARAMETER << "in file: " << filename_ << ":"
                                   << csv_.lineNumber() << " malformed line";
   }
-  *eof = true;
+  removeLastBoundary(&result->boundaries_);
+  // an example at the very end of the input does not need an empty line
+  *eof = firstLine;
   return Status::Ok();
 }
 
diff --git a/src/core/input/partial_example_io.h b/src/core/input/partial_example_io.h
index ec94e35..529ec3a 100644
--- a/src/core/input/partial_example_io.h
+++ b/src/core/input/partial_example_io.h
@@ -24,6 +24,7 @@ class PartialExampleReader {
  public:
   Status initialize(TrainFieldsIndex* tio, char32_t noBreakToken = U'&');
   Status readExample(PartialExample* result, bool* eof);
+  bool atEnd() const { return csv_.bytePosition() == csv_.byteSize(); }
   Status openFile(StringPiece filename);
   Status setData(StringPiece data);
   char32_t noBreakToken() const { return noBreakToken_; }
diff --git a/src/core/input/pex_stream_reader.cc b/src/core/input/pex_stream_reader.cc
index 14917d2..598ab41 100644
--- a/src/core/input/pex_stream_reader.cc
+++ b/src/core/input/pex_stream_reader.cc
@@ -53,7 +53,7 @@ Status PexStreamReader::readExample(std::istream *stream) {
   JPP_RETURN_IF_ERROR(impl_->reader_.setData(buf));
   bool eof = false;
   JPP_RETURN_IF_ERROR(impl_->reader_.readExample(&impl_->example_, &eof));
-  if (!eof) {
+  if (!impl_->reader_.atEnd()) {
     return Status::InvalidState() << "Could not parse full example: [\n"
                                   << buf << "\n]";
   }
-- 
2.43.0


From 4152de603d9fba0a7cb3d73ee8f0fe081e2009b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:34 +0000
Subject: [PATCH 48/78] fix: the stream of partial examples does not see the
 empty lines of CRLF files

---
 src/core/input/pex_stream_reader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/input/pex_stream_reader.cc b/src/core/input/pex_stream_reader.cc
index 598ab41..c7b35ef 100644
--- a/src/core/input/pex_stream_reader.cc
+++ b/src/core/input/pex_stream_reader.cc
@@ -44,7 +44,7 @@ Status PexStreamReader::readExample(std::istream *stream) {
   auto &buf = impl_->buffer_;
   buf.clear();
   while (std::getline(*stream, tmp)) {
-    if (tmp.size() == 0) {
+    if (tmp.empty() || tmp == "\r") {
       break;
     }
     buf.append(tmp);
-- 
2.43.0


From a3b2b24f24bd9db58c14bc70055ae3c62c1ba420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:54 +0000
Subject: [PATCH 49/78] fix: constraints on fields which are not in the lattice
 read out of bounds

---
 src/core/input/partial_example_io.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/core/input/partial_example_io.cc b/src/core/input/partial_example_io.cc
index 0b09ecb..3dbe2bf 100644
--- a/src/core/input/partial_example_io.cc
+++ b/src/core/input/partial_example_io.cc
@@ -130,6 +130,13 @@ Status PartialExampleReader::readExample(PartialExample* result, bool* eof) {
                << "] was not present in the dictionary spec";
       }
 
+      if (mapIter->second->dicFieldIdx < 0) {
+        return JPPS_INVALID_PARAMETER
+               << "in file: " << filename_ << ":" << csv_.lineNumber()
+               << " the field of an entry [" << fldData
+               << "] is not used by features and can't be a constraint";
+      }
+
       auto idmap = mapIter->second->str2int;
       auto idValue = idmap->find(fldValue);
       if (idValue == idmap->end()) {
-- 
2.43.0


From 4c27420091588d422f0305a11d41970ecbb0b8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:04 +0000
Subject: [PATCH 50/78] fix: long values push the line number out of messages
 of the partial example reader

---
 src/core/input/partial_example_io.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/input/partial_example_io.cc b/src/core/input/partial_example_io.cc
index 3dbe2bf..a2c6a2a 100644
--- a/src/core/input/partial_example_io.cc
+++ b/src/core/input/partial_example_io.cc
@@ -97,7 +97,7 @@ Status PartialExampleReader::readExample(PartialExample* result, bool* eof) {
     }
     codepts_.clear();
     JPP_RIE_MSG(chars::preprocessRawData(surface, &codepts_),
-                surface << " at " << filename_ << ":" << csv_.lineNumber());
+                "at " << filename_ << ":" << csv_.lineNumber() << " " << surface);
     surface.assignTo(nc.surface);
     nc.length = static_cast<i32>(codepts_.size());
     for (int i = 1; i < nc.length; ++i) {
@@ -121,7 +121,7 @@ Status PartialExampleReader::readExample(PartialExample* result, bool* eof) {
       StringPiece fldValue = StringPiece{it + 1, fldData.end()};
       codepts_.clear();
       JPP_RIE_MSG(chars::preprocessRawData(fldValue, &codepts_),
-                  fldValue << " at " << filename_ << ":" << csv_.lineNumber());
+                  "at " << filename_ << ":" << csv_.lineNumber() << " " << fldValue);
       auto mapIter = fields_.find(fldName);
       if (mapIter == fields_.end()) {
         return JPPS_INVALID_PARAMETER
-- 
2.43.0


From 70ab839917d085c74b0ccc415af5eccb009a1254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:24 +0000
Subject: [PATCH 51/78] fix: scores of the plugin are ignored without the
 global beam

---
 src/core/analysis/analyzer_impl.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/analysis/analyzer_impl.cc b/src/core/analysis/analyzer_impl.cc
index 38d635e..56c1b29 100644
--- a/src/core/analysis/analyzer_impl.cc
+++ b/src/core/analysis/analyzer_impl.cc
@@ -235,8 +235,8 @@ Status AnalyzerImpl::computeScoresFull(const ScorerDef* sconf) {
       for (i32 beamIdx = 0; beamIdx < activeBeam; ++beamIdx) {
         JPP_CAPTURE(beamIdx);
         proc.applyT2(beamIdx, sconf->feature);
-        proc.copyFeatureScores(t1idx, beamIdx, scores);
         proc.applyPluginToFullBeam(boundary, t1idx, beamIdx);
+        proc.copyFeatureScores(t1idx, beamIdx, scores);
       }
     }
 
-- 
2.43.0


From 1746548a763ad49d1ad73f4fc12eed0ab80c1023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:02 +0000
Subject: [PATCH 52/78] fix: partial annotations reject unknown words with
 values that are also in the dictionary

---
 src/core/input/partial_example.cc    |  3 ++-
 src/core/input/partial_example.h     |  2 ++
 src/core/input/partial_example_io.cc | 10 +++-------
 3 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/core/input/partial_example.cc b/src/core/input/partial_example.cc
index a8fc922..9c5d003 100644
--- a/src/core/input/partial_example.cc
+++ b/src/core/input/partial_example.cc
@@ -64,7 +64,8 @@ PartialViolation PartialExample::checkViolation(
 
   auto data = lr->entryData().row(position);
   for (auto& tag : nodeCstrs.tags) {
-    if (data.at(tag.field) != tag.value) {
+    auto value = data.at(tag.field);
+    if (value != tag.value && value != tag.unkValue) {
       return {ViolationKind::Tag, tag.field};
     }
   }
diff --git a/src/core/input/partial_example.h b/src/core/input/partial_example.h
index b13af13..5b60a68 100644
--- a/src/core/input/partial_example.h
+++ b/src/core/input/partial_example.h
@@ -20,6 +20,8 @@ namespace input {
 struct TagConstraint {
   i32 field;
   i32 value;
+  // the same value in unknown words, which do not refer to the dictionary
+  i32 unkValue;
 };
 
 struct NodeConstraint {
diff --git a/src/core/input/partial_example_io.cc b/src/core/input/partial_example_io.cc
index a2c6a2a..3ccd30b 100644
--- a/src/core/input/partial_example_io.cc
+++ b/src/core/input/partial_example_io.cc
@@ -139,13 +139,9 @@ Status PartialExampleReader::readExample(PartialExample* result, bool* eof) {
 
       auto idmap = mapIter->second->str2int;
       auto idValue = idmap->find(fldValue);
-      if (idValue == idmap->end()) {
-        auto id = analysis::hashUnkString(fldValue);
-        nc.tags.push_back(TagConstraint{mapIter->second->dicFieldIdx, id});
-      } else {
-        nc.tags.push_back(
-            TagConstraint{mapIter->second->dicFieldIdx, idValue->second});
-      }
+      auto unkId = analysis::hashUnkString(fldValue);
+      auto id = idValue == idmap->end() ? unkId : idValue->second;
+      nc.tags.push_back(TagConstraint{mapIter->second->dicFieldIdx, id, unkId});
     }
 
     result->nodes_.push_back(std::move(nc));
-- 
2.43.0


From 8e06f3cb78f7b7fbe819222d57e8ed64595d727d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:40 +0000
Subject: [PATCH 53/78] fix: generated feature code computes nothing for
 boundaries without nodes

---
 src/core/codegen/pattern_feature_codegen.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/codegen/pattern_feature_codegen.cc b/src/core/codegen/pattern_feature_codegen.cc
index 2728c58..d80104d 100644
--- a/src/core/codegen/pattern_feature_codegen.cc
+++ b/src/core/codegen/pattern_feature_codegen.cc
@@ -282,6 +282,8 @@ void InNodeComputationsCodegen::generateLoopBody(i::Printer &p) {
 
 void InNodeComputationsCodegen::generateLoop(i::Printer &p) {
   p << "\nauto numItems = patternMatrix.numRows();";
+  // nodes do not have to start at every boundary
+  p << "\nif (numItems == 0) { return; }";
   p << "\nconst auto weights = scorer->weights();";
   p << "\n::jumanpp::u32 mask = weights.size() - 1;";
   p << "\nauto t1state = fbuffer->t1Buf(" << numBigrams_ << ", numItems);";
-- 
2.43.0


From cccb5b88190c1ada4ff3fa20a453dd4d8fb386eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:40 +0000
Subject: [PATCH 54/78] fix: generated ngram features accept an empty global
 beam

---
 src/core/impl/feature_impl_ngram_partial_kernels.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/impl/feature_impl_ngram_partial_kernels.h b/src/core/impl/feature_impl_ngram_partial_kernels.h
index 3f6d8a0..51ba643 100644
--- a/src/core/impl/feature_impl_ngram_partial_kernels.h
+++ b/src/core/impl/feature_impl_ngram_partial_kernels.h
@@ -25,6 +25,10 @@ inline void applyBiTriFullKernel(
     const analysis::WeightBuffer& weights,
     util::MutableArraySlice<float> scoreBuffer,
     util::MutableArraySlice<float> result) {
+  if (t2pats.numRows() == 0) {
+    return;
+  }
+
   u32 mask = static_cast<u32>(weights.size() - 1);
   auto numBiFeat = t1featuresBi.size();
 
-- 
2.43.0


From 2230bc5081002d892867730cfb15c2a69836e30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:40 +0000
Subject: [PATCH 55/78] fix: words with an unspecified subtype get the ids of
 their part of speech and conjugation

---
 src/jumandic/shared/jumandic_id_resolver.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jumandic/shared/jumandic_id_resolver.cc b/src/jumandic/shared/jumandic_id_resolver.cc
index b54d517..09b08d8 100644
--- a/src/jumandic/shared/jumandic_id_resolver.cc
+++ b/src/jumandic/shared/jumandic_id_resolver.cc
@@ -61,7 +61,9 @@ Status JumandicIdResolver::initialize(const core::dic::DictionaryHolder& dic) {
     auto& pos = posInfo[i];
     auto posId = findOr(pos2id, pos.part1, 0);
     auto subposId = findOr(subPos2id, pos.part2, 0);
-    if (posId != 0 || subposId != 0) {
+    // parts of speech which are not in the dictionary must not
+    // be mistaken for the ones without a subtype
+    if (posId != 0 && (subposId != 0 || pos.part2 == "*")) {
       CompositeId posObj{posId, subposId};
       posMap[posObj] = CompositeId{pos.id1, pos.id2};
     }
-- 
2.43.0


From 66804bf431e741da481f8fb9e1559e0750cc8d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:49 +0000
Subject: [PATCH 56/78] fix: lattice output of more paths than the end of the
 sentence keeps

---
 src/jumandic/shared/lattice_format.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jumandic/shared/lattice_format.cc b/src/jumandic/shared/lattice_format.cc
index 4978eed..0876945 100644
--- a/src/jumandic/shared/lattice_format.cc
+++ b/src/jumandic/shared/lattice_format.cc
@@ -114,7 +114,8 @@ Status LatticeFormat::format(const core::analysis::Analyzer& analyzer,
     auto eos = lat->boundary(lat->createdBoundaryCount() - 1);
     auto eosBeam = eos->starts()->beamData();
 
-    for (int i = 0; i < outputN; ++i) {
+    auto maxN = std::min<i32>(eosBeam.size(), outputN);
+    for (int i = 0; i < maxN; ++i) {
       auto& bel = eosBeam.at(i);
       if (core::analysis::EntryBeam::isFake(bel)) {
         break;
-- 
2.43.0


From f719a5fd75d88157ca27a09ed562ae05675ccd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:49 +0000
Subject: [PATCH 57/78] fix: lattice output reports the scores of the best path
 of a morpheme

---
 src/jumandic/shared/lattice_format.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jumandic/shared/lattice_format.cc b/src/jumandic/shared/lattice_format.cc
index 0876945..099f740 100644
--- a/src/jumandic/shared/lattice_format.cc
+++ b/src/jumandic/shared/lattice_format.cc
@@ -145,7 +145,7 @@ Status LatticeFormat::format(const core::analysis::Analyzer& analyzer,
             total1 += s1[i] * weights[i];
             total2 += s2[i] * weights[i];
           }
-          return total1 > total2;
+          return total1 < total2;
         });
 
     auto& cptr = *ptrit;
-- 
2.43.0


From 6c4e0ab3eba1d85d409bbe0918c6f5e321444489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:49 +0000
Subject: [PATCH 58/78] fix: lattice output escapes tabs in composed canonic
 forms

---
 src/jumandic/shared/lattice_format.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jumandic/shared/lattice_format.cc b/src/jumandic/shared/lattice_format.cc
index 099f740..853b0f3 100644
--- a/src/jumandic/shared/lattice_format.cc
+++ b/src/jumandic/shared/lattice_format.cc
@@ -173,7 +173,8 @@ Status LatticeFormat::format(const core::analysis::Analyzer& analyzer,
       if (!canFrm.empty()) {
         printer << f.canonicForm[walker];
       } else {
-        printer << f.baseform[walker] << '/' << f.reading[walker];
+        printer << escapeTab(f.baseform[walker]) << '/'
+                << escapeTab(f.reading[walker]);
       }
       printer << '\t';
       printer << escapeTab(f.reading[walker]) << '\t';
-- 
2.43.0


From e943ee20c4b563cc912d286c41fde2b9041f52f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:49 +0000
Subject: [PATCH 59/78] fix: dictionary subset contains every entry once

---
 src/jumandic/shared/mdic_format.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jumandic/shared/mdic_format.cc b/src/jumandic/shared/mdic_format.cc
index 660b3e2..8bed39b 100644
--- a/src/jumandic/shared/mdic_format.cc
+++ b/src/jumandic/shared/mdic_format.cc
@@ -26,6 +26,7 @@ Status MdicFormat::format(const core::analysis::Analyzer& analyzer,
     for (int i = 0; i < ninfo.size(); ++i) {
       auto eptr = ninfo.at(i).entryPtr();
       if (eptr.isDic() && displayed_.count(eptr.rawValue()) == 0) {
+        displayed_.insert(eptr.rawValue());
         JPP_RETURN_IF_ERROR(formatNode(eptr.rawValue(), om));
       }
     }
-- 
2.43.0


From d421b31ac63568d37aea257e777972e9e3addcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:49 +0000
Subject: [PATCH 60/78] fix: dictionary subset quotes fields with line breaks

---
 src/jumandic/shared/mdic_format.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/jumandic/shared/mdic_format.cc b/src/jumandic/shared/mdic_format.cc
index 8bed39b..3535e97 100644
--- a/src/jumandic/shared/mdic_format.cc
+++ b/src/jumandic/shared/mdic_format.cc
@@ -42,13 +42,17 @@ Status MdicFormat::initialize(const core::analysis::OutputManager& om) {
 
 namespace fmt {
 
+bool needsQuotes(char c) {
+  return c == '"' || c == ',' || c == '\n' || c == '\r';
+}
+
 util::io::FastPrinter& printMaybeQuoted(util::io::FastPrinter& printer,
                                         StringPiece data) {
   auto end = data.end();
   auto beg = data.begin();
-  auto noCommas = std::find(beg, end, ',') == end;
+  auto special = std::find_if(beg, end, &needsQuotes);
   auto it = std::find(beg, end, '"');
-  if (noCommas && it == end) {
+  if (special == end) {
     printer << data;
   } else {
     printer << '"';
@@ -72,8 +76,7 @@ util::io::FastPrinter& printMaybeQuoteStringList(
   auto itemsCopy = items;
   while (itemsCopy.next()) {
     auto sp = itemsCopy.key();
-    auto it = std::find_if(sp.begin(), sp.end(),
-                           [](char c) { return c == '"' || c == ','; });
+    auto it = std::find_if(sp.begin(), sp.end(), &needsQuotes);
     if (it != sp.end()) {
       shouldQuote = true;
       break;
@@ -82,8 +85,7 @@ util::io::FastPrinter& printMaybeQuoteStringList(
       continue;
     }
     sp = itemsCopy.value();
-    it = std::find_if(sp.begin(), sp.end(),
-                      [](char c) { return c == '"' || c == ','; });
+    it = std::find_if(sp.begin(), sp.end(), &needsQuotes);
     if (it != sp.end()) {
       shouldQuote = true;
       break;
-- 
2.43.0


From 72d7faa76c38341d812a8a179bd942690d799a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:30 +0000
Subject: [PATCH 61/78] fix: command line and configuration file errors are
 reported

---
 src/jumandic/shared/jumanpp_args.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jumandic/shared/jumanpp_args.cc b/src/jumandic/shared/jumanpp_args.cc
index a03b5c9..8a3a85c 100644
--- a/src/jumandic/shared/jumanpp_args.cc
+++ b/src/jumandic/shared/jumanpp_args.cc
@@ -175,7 +175,7 @@ struct JppArgsParser {
       std::cerr << parser;
       exit(1);
     } catch (args::ParseError& e) {
-      Status::InvalidParameter() << e.what() << "\n" << parser;
+      return Status::InvalidParameter() << e.what() << "\n" << parser;
     } catch (...) {
       return Status::InvalidParameter() << "unknown exception happened";
     }
@@ -205,7 +205,7 @@ struct JppArgsParser {
     } catch (args::Help&) {
       return Status::InvalidParameter() << parser;
     } catch (args::ParseError& e) {
-      Status::InvalidParameter() << e.what() << "\n" << parser;
+      return Status::InvalidParameter() << e.what() << "\n" << parser;
     } catch (...) {
       return Status::InvalidParameter();
     }
-- 
2.43.0


From 93ca1f150e83d811c065f2d06b172d450ef53510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:30 +0000
Subject: [PATCH 62/78] fix: empty and too large numbers are not accepted as
 option values

---
 libs/args.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libs/args.h b/libs/args.h
index ce275ab..c9d135b 100644
--- a/libs/args.h
+++ b/libs/args.h
@@ -3259,9 +3259,11 @@ struct ValueReader
   operator ()(const std::string &name, const std::string &value, T &destination)
   {
     std::istringstream ss(value);
-    ss >> destination >> std::ws;
+    ss >> destination;
+    const bool failed = ss.fail();
+    ss >> std::ws;
 
-    if (ss.rdbuf()->in_avail() > 0)
+    if (failed || ss.rdbuf()->in_avail() > 0)
     {
 #ifdef ARGS_NOEXCEPT
       (void)name;
-- 
2.43.0


From 36f89ad7bb462f09d85996204f77dadb3c0105f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:30 +0000
Subject: [PATCH 63/78] fix: malformed automatic beam sizes are reported

---
 src/jumandic/shared/jumanpp_args.cc | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/jumandic/shared/jumanpp_args.cc b/src/jumandic/shared/jumanpp_args.cc
index 8a3a85c..52f1325 100644
--- a/src/jumandic/shared/jumanpp_args.cc
+++ b/src/jumandic/shared/jumanpp_args.cc
@@ -227,7 +227,7 @@ struct JppArgsParser {
                  "for more information\n";
   }
 
-  void fillResult(JumanppConf* result) {
+  Status fillResult(JumanppConf* result) {
     if (availableFormats) {
       printAvailableFormats();
       exit(1);
@@ -271,7 +271,10 @@ struct JppArgsParser {
       std::regex autoBeamRegex(R"(^(\d+):(\d+):(\d+)$)");
       std::smatch results;
       auto& s = autoBeam.Get();
-      if (std::regex_search(s, results, autoBeamRegex)) {
+      if (!std::regex_search(s, results, autoBeamRegex)) {
+        return JPPS_INVALID_PARAMETER
+               << "automatic beam size must be BASE:STEP:MAX, was: " << s;
+      } else {
         result->beamSize = to_int10<i32>(results[1]);
         result->autoStep = to_int10<i32>(results[2]);
         result->globalBeam = to_int10<i32>(results[3]);
@@ -281,6 +284,7 @@ struct JppArgsParser {
 #ifdef JPP_ENABLE_DEV_TOOLS
     result->outputType.set(globalBeamPos, OutputType::GlobalBeamPos);
 #endif
+    return Status::Ok();
   }
 };
 
@@ -291,7 +295,7 @@ Status parseCfgFile(StringPiece filename, JumanppConf* conf,
   JppArgsParser parser;
   JumanppConf myConf;
   JPP_RETURN_IF_ERROR(parser.parseFile(filename));
-  parser.fillResult(&myConf);
+  JPP_RETURN_IF_ERROR(parser.fillResult(&myConf));
   if (recursionDepth > 0 && myConf.configFile.defined()) {
     JumanppConf internal;
     JPP_RETURN_IF_ERROR(
@@ -344,7 +348,7 @@ Status parseArgs(int argc, const char* argv[], JumanppConf* result) {
   JppArgsParser argsParser;
   JumanppConf cmdline;
   JPP_RETURN_IF_ERROR(argsParser.parseCli(argc, argv));
-  argsParser.fillResult(&cmdline);
+  JPP_RETURN_IF_ERROR(argsParser.fillResult(&cmdline));
 
   util::logging::CurrentLogLevel =
       static_cast<util::logging::Level>(cmdline.logLevel.value());
@@ -355,7 +359,7 @@ Status parseArgs(int argc, const char* argv[], JumanppConf* result) {
   if (!cmdline.configFile.value().empty()) {
     s = argsParser.parseFile(cmdline.configFile.value());
     if (s) {
-      argsParser.fillResult(result);
+      JPP_RETURN_IF_ERROR(argsParser.fillResult(result));
       loadedConfig = true;
     } else {
       return Status::InvalidParameter()
@@ -371,7 +375,7 @@ Status parseArgs(int argc, const char* argv[], JumanppConf* result) {
     globalCfgName += myName.str();
     s = argsParser.parseFile(globalCfgName);
     if (s) {
-      argsParser.fillResult(result);
+      JPP_RETURN_IF_ERROR(argsParser.fillResult(result));
       loadedConfig = true;
     }
     JPP_RETURN_IF_ERROR(fixupModelPath(result));
@@ -386,7 +390,7 @@ Status parseArgs(int argc, const char* argv[], JumanppConf* result) {
     userConfigPath += myName.str();
     s = argsParser.parseFile(userConfigPath);
     if (s) {
-      argsParser.fillResult(result);
+      JPP_RETURN_IF_ERROR(argsParser.fillResult(result));
     }
     JPP_RETURN_IF_ERROR(fixupModelPath(result));
     LOG_DEBUG() << "tried to read user config from " << userConfigPath
-- 
2.43.0


From a22df75883dbcf0cba84b3b4c9d54d537aeab0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:30 +0000
Subject: [PATCH 64/78] fix: blank space at the start of a configuration file
 is not an input file

---
 src/jumandic/shared/jumanpp_args.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jumandic/shared/jumanpp_args.cc b/src/jumandic/shared/jumanpp_args.cc
index 52f1325..68ba9c2 100644
--- a/src/jumandic/shared/jumanpp_args.cc
+++ b/src/jumandic/shared/jumanpp_args.cc
@@ -194,7 +194,10 @@ struct JppArgsParser {
     std::regex_token_iterator<const char*> end{};
     std::vector<std::string> parts;
     for (; begin != end; ++begin) {
-      parts.emplace_back(wstart, begin->first);
+      // there is no argument before leading blank space
+      if (wstart != begin->first) {
+        parts.emplace_back(wstart, begin->first);
+      }
       wstart = begin->second;
     }
     if (wstart != data.end()) {
-- 
2.43.0


From 6acdf8519eff4216e95da1394d28e0b25c06bdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:55 +0000
Subject: [PATCH 65/78] fix: automatic beam sizes which are too large are
 reported

---
 src/jumandic/shared/jumanpp_args.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jumandic/shared/jumanpp_args.cc b/src/jumandic/shared/jumanpp_args.cc
index 68ba9c2..53966b9 100644
--- a/src/jumandic/shared/jumanpp_args.cc
+++ b/src/jumandic/shared/jumanpp_args.cc
@@ -271,7 +271,7 @@ struct JppArgsParser {
     result->rightBeam.set(rightBeamSize);
 
     if (autoBeam) {
-      std::regex autoBeamRegex(R"(^(\d+):(\d+):(\d+)$)");
+      std::regex autoBeamRegex(R"(^(\d{1,9}):(\d{1,9}):(\d{1,9})$)");
       std::smatch results;
       auto& s = autoBeam.Get();
       if (!std::regex_search(s, results, autoBeamRegex)) {
-- 
2.43.0


From 506e62c6533345d396e6e2f5004484976ce99a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:55 +0000
Subject: [PATCH 66/78] fix: errors in default configuration files are reported

---
 src/jumandic/shared/jumanpp_args.cc | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/jumandic/shared/jumanpp_args.cc b/src/jumandic/shared/jumanpp_args.cc
index 53966b9..04d92f3 100644
--- a/src/jumandic/shared/jumanpp_args.cc
+++ b/src/jumandic/shared/jumanpp_args.cc
@@ -184,10 +184,14 @@ struct JppArgsParser {
 
   std::regex separator{"[ \t\n\r]+"};
 
-  Status parseFile(StringPiece filename) {
+  // found tells whether there was such a file
+  Status parseFile(StringPiece filename, bool* found = nullptr) {
     LOG_TRACE() << "Trying to parse config file: " << filename;
     util::FullyMappedFile file;
     JPP_RETURN_IF_ERROR(file.open(filename));
+    if (found != nullptr) {
+      *found = true;
+    }
     auto data = file.contents();
     auto wstart = data.begin();
     std::regex_token_iterator<const char*> begin{wstart, data.end(), separator};
@@ -376,10 +380,10 @@ Status parseArgs(int argc, const char* argv[], JumanppConf* result) {
   if (!loadedConfig) {
     std::string globalCfgName{core::JPP_DEFAULT_CONFIG_DIR};
     globalCfgName += myName.str();
-    s = argsParser.parseFile(globalCfgName);
-    if (s) {
+    s = argsParser.parseFile(globalCfgName, &loadedConfig);
+    if (loadedConfig) {
+      JPP_RETURN_IF_ERROR(std::move(s));
       JPP_RETURN_IF_ERROR(argsParser.fillResult(result));
-      loadedConfig = true;
     }
     JPP_RETURN_IF_ERROR(fixupModelPath(result));
     LOG_DEBUG() << "tried to read global config from " << globalCfgName
@@ -391,8 +395,9 @@ Status parseArgs(int argc, const char* argv[], JumanppConf* result) {
     std::string userConfigPath(homePtr);
     userConfigPath += "/.config/jumanpp";
     userConfigPath += myName.str();
-    s = argsParser.parseFile(userConfigPath);
-    if (s) {
+    s = argsParser.parseFile(userConfigPath, &loadedConfig);
+    if (loadedConfig) {
+      JPP_RETURN_IF_ERROR(std::move(s));
       JPP_RETURN_IF_ERROR(argsParser.fillResult(result));
     }
     JPP_RETURN_IF_ERROR(fixupModelPath(result));
-- 
2.43.0


From 5061edc5ed6941559543496be6aa5e07204e7051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:55 +0000
Subject: [PATCH 67/78] fix: output files which can not be written are reported

---
 src/jumandic/main/jumanpp.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jumandic/main/jumanpp.cc b/src/jumandic/main/jumanpp.cc
index b877962..a222686 100644
--- a/src/jumandic/main/jumanpp.cc
+++ b/src/jumandic/main/jumanpp.cc
@@ -63,6 +63,10 @@ struct InputOutput {
     } else {
       fileOutput_.reset(new std::ofstream{conf.outputFile});
       output_ = fileOutput_.get();
+      if (!fileOutput_->is_open()) {
+        return JPPS_INVALID_PARAMETER << "failed to open output file: "
+                                      << conf.outputFile.value();
+      }
     }
 
     auto inType = conf.inputType.value();
-- 
2.43.0


From 1c72bca61564d29a5e919ba2a358327830c932e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:12 +0000
Subject: [PATCH 68/78] fix: a beam for N paths does not replace a larger beam
 of a configuration file

---
 src/jumandic/shared/jumanpp_args.cc | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/jumandic/shared/jumanpp_args.cc b/src/jumandic/shared/jumanpp_args.cc
index 04d92f3..21c2cf0 100644
--- a/src/jumandic/shared/jumanpp_args.cc
+++ b/src/jumandic/shared/jumanpp_args.cc
@@ -266,9 +266,6 @@ struct JppArgsParser {
     result->segmentSeparator.set(segmentSeparator);
 
     result->beamSize.set(beamSize);
-    if (result->beamSize < result->beamOutput) {
-      result->beamSize = result->beamOutput.value();
-    }
 
     result->globalBeam.set(globalBeamSize);
     result->rightCheck.set(rightCheckBeam);
@@ -295,10 +292,15 @@ struct JppArgsParser {
   }
 };
 
-}  // namespace
+// Output of N paths needs N paths in the beam
+void fixupBeamSize(JumanppConf* result) {
+  if (result->autoStep.isDefault() && result->beamSize < result->beamOutput) {
+    result->beamSize.value() = result->beamOutput.value();
+  }
+}
 
-Status parseCfgFile(StringPiece filename, JumanppConf* conf,
-                    i32 recursionDepth) {
+Status readCfgFile(StringPiece filename, JumanppConf* conf,
+                   i32 recursionDepth) {
   JppArgsParser parser;
   JumanppConf myConf;
   JPP_RETURN_IF_ERROR(parser.parseFile(filename));
@@ -306,13 +308,22 @@ Status parseCfgFile(StringPiece filename, JumanppConf* conf,
   if (recursionDepth > 0 && myConf.configFile.defined()) {
     JumanppConf internal;
     JPP_RETURN_IF_ERROR(
-        parseCfgFile(myConf.configFile.value(), &internal, recursionDepth - 1));
+        readCfgFile(myConf.configFile.value(), &internal, recursionDepth - 1));
     conf->mergeWith(internal);
   }
   conf->mergeWith(myConf);
   return Status::Ok();
 }
 
+}  // namespace
+
+Status parseCfgFile(StringPiece filename, JumanppConf* conf,
+                    i32 recursionDepth) {
+  JPP_RETURN_IF_ERROR(readCfgFile(filename, conf, recursionDepth));
+  fixupBeamSize(conf);
+  return Status::Ok();
+}
+
 namespace {
 Status fixupModelPath(JumanppConf* result) {
   // don't try anything if there is no file
@@ -406,6 +417,7 @@ Status parseArgs(int argc, const char* argv[], JumanppConf* result) {
   }
 
   result->mergeWith(cmdline);
+  fixupBeamSize(result);
 
   LOG_TRACE() << "Merged Config: " << *result;
 
-- 
2.43.0


From cefb26b10568b0a53cc47a121438659082906e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:01 +0000
Subject: [PATCH 69/78] fix: models are found next to the configuration file
 that names them

---
 src/jumandic/shared/jumanpp_args.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/jumandic/shared/jumanpp_args.cc b/src/jumandic/shared/jumanpp_args.cc
index 21c2cf0..26a33f1 100644
--- a/src/jumandic/shared/jumanpp_args.cc
+++ b/src/jumandic/shared/jumanpp_args.cc
@@ -325,9 +325,9 @@ Status parseCfgFile(StringPiece filename, JumanppConf* conf,
 }
 
 namespace {
-Status fixupModelPath(JumanppConf* result) {
-  // don't try anything if there is no file
-  if (result->configFile.isDefault()) {
+Status fixupModelPath(StringPiece configFile, JumanppConf* result) {
+  // don't try anything if there is no model in the file
+  if (result->modelFile.isDefault()) {
     return Status::Ok();
   }
 
@@ -337,7 +337,7 @@ Status fixupModelPath(JumanppConf* result) {
       return Status::Ok();
     }
 
-    Pathie::Path configPath(result->configFile);
+    Pathie::Path configPath(configFile.str());
     Pathie::Path configParent = configPath.parent();
 
     if (!configParent.exists() || !configParent.is_directory()) {
@@ -385,7 +385,7 @@ Status parseArgs(int argc, const char* argv[], JumanppConf* result) {
              << "\n"
              << s;
     }
-    JPP_RETURN_IF_ERROR(fixupModelPath(result));
+    JPP_RETURN_IF_ERROR(fixupModelPath(cmdline.configFile.value(), result));
   }
 
   if (!loadedConfig) {
@@ -396,7 +396,7 @@ Status parseArgs(int argc, const char* argv[], JumanppConf* result) {
       JPP_RETURN_IF_ERROR(std::move(s));
       JPP_RETURN_IF_ERROR(argsParser.fillResult(result));
     }
-    JPP_RETURN_IF_ERROR(fixupModelPath(result));
+    JPP_RETURN_IF_ERROR(fixupModelPath(globalCfgName, result));
     LOG_DEBUG() << "tried to read global config from " << globalCfgName
                 << " error=" << s;
   }
@@ -411,7 +411,7 @@ Status parseArgs(int argc, const char* argv[], JumanppConf* result) {
       JPP_RETURN_IF_ERROR(std::move(s));
       JPP_RETURN_IF_ERROR(argsParser.fillResult(result));
     }
-    JPP_RETURN_IF_ERROR(fixupModelPath(result));
+    JPP_RETURN_IF_ERROR(fixupModelPath(userConfigPath, result));
     LOG_DEBUG() << "tried to read user config from " << userConfigPath
                 << " error=" << s;
   }
-- 
2.43.0


From e4c03b7a155602e2a11b3230b0f2864ba6471cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:27 +0000
Subject: [PATCH 70/78] fix: feature code is generated for specifications
 without bigrams or trigrams

---
 src/core/codegen/partial_ngram_feature_codegen.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/core/codegen/partial_ngram_feature_codegen.cc b/src/core/codegen/partial_ngram_feature_codegen.cc
index eee36c4..9479210 100644
--- a/src/core/codegen/partial_ngram_feature_codegen.cc
+++ b/src/core/codegen/partial_ngram_feature_codegen.cc
@@ -206,21 +206,22 @@ void PartialNgramPrinter::outputApplyBiTriLoop(util::io::Printer& p) {
 
     p << "\nauto buf1 = buffers->valBuf1(numBigrams);";
     p << "\nauto buf2 = buffers->valBuf2(numBigrams);";
+    // arrays can not be empty even if there are no such features
     p << "\nstatic constexpr jumanpp::u32"
-      << " t1BiFeatureIdxes[numBigrams] = {\n  ";
+      << " t1BiFeatureIdxes[numBigrams + 1] = {\n  ";
     for (auto& bi : bigrams_) {
       p << bi.spec().references[1] << ", ";
     }
     p << "\n};";
 
     p << "\nstatic constexpr jumanpp::u32"
-      << " t1TriFeatureIdxes[numTrigrams] = {\n  ";
+      << " t1TriFeatureIdxes[numTrigrams + 1] = {\n  ";
     for (auto& tri : trigrams_) {
       p << tri.spec().references[1] << ", ";
     }
     p << "\n};";
     p << "\nstatic constexpr jumanpp::u32"
-      << " t2TriFeatureIdxes[numTrigrams] = {\n  ";
+      << " t2TriFeatureIdxes[numTrigrams + 1] = {\n  ";
     for (auto& tri : trigrams_) {
       p << tri.spec().references[2] << ", ";
     }
@@ -234,9 +235,9 @@ void PartialNgramPrinter::outputApplyBiTriLoop(util::io::Printer& p) {
       p << "\nt1,";
       p << "\nt2,";
       p << "\nt1idxes,";
-      p << "\nt1BiFeatureIdxes,";
-      p << "\nt1TriFeatureIdxes,";
-      p << "\nt2TriFeatureIdxes,";
+      p << "\n{t1BiFeatureIdxes, numBigrams},";
+      p << "\n{t1TriFeatureIdxes, numTrigrams},";
+      p << "\n{t2TriFeatureIdxes, numTrigrams},";
       p << "\nbuf1,";
       p << "\nbuf2,";
       p << "\nweights,";
-- 
2.43.0


From 6fed44091519eb58f17c5e22b36faa955f64d19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:27 +0000
Subject: [PATCH 71/78] fix: both feature value buffers are cleared before they
 are used

---
 src/core/analysis/score_processor.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/analysis/score_processor.cc b/src/core/analysis/score_processor.cc
index 68548f0..1db2e90 100644
--- a/src/core/analysis/score_processor.cc
+++ b/src/core/analysis/score_processor.cc
@@ -46,6 +46,7 @@ ScoreProcessor::ScoreProcessor(AnalyzerImpl *analyzer)
   analyzer->core().features().ngramPartial->allocateBuffers(&featureBuffer_,
                                                             runStats_, alloc);
   util::fill(featureBuffer_.valueBuffer1, 0);
+  util::fill(featureBuffer_.valueBuffer2, 0);
 
   globalBeamSize_ = analyzer->cfg().globalBeamSize;
   if (globalBeamSize_ > 0) {
-- 
2.43.0


From 0571304d58a91343ee0578131b77bf0457d0bb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:40 +0000
Subject: [PATCH 72/78] fix: paths of empty strings are never iterated over

---
 src/core/analysis/analysis_result.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/analysis/analysis_result.cc b/src/core/analysis/analysis_result.cc
index 1948017..593f948 100644
--- a/src/core/analysis/analysis_result.cc
+++ b/src/core/analysis/analysis_result.cc
@@ -27,6 +27,8 @@ Status AnalysisPath::fillIn(const Lattice *l) {
   JPP_DCHECK_GE(bnds, 3);
   elems_.clear();
   offsets_.clear();
+  // there is nothing to iterate over in empty strings
+  currentChunk_ = -1;
   elems_.reserve(bnds * 2);
   offsets_.reserve(bnds);
   if (bnds == 3) {  // empty string
@@ -70,8 +72,6 @@ Status AnalysisPath::fillIn(const Lattice *l) {
     topPtr = topPtr->previous;
   }
 
-  currentChunk_ = -1;
-
   return Status::Ok();
 }
 }  // namespace analysis
-- 
2.43.0


From fb04c007564c5f3e067715f14691c547be9f0768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:22 +0000
Subject: [PATCH 73/78] fix: the empty string is stored once

---
 src/core/dic/field_import.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/dic/field_import.cc b/src/core/dic/field_import.cc
index 037b052..fbc427f 100644
--- a/src/core/dic/field_import.cc
+++ b/src/core/dic/field_import.cc
@@ -103,6 +103,11 @@ Status StringStorage::makeStorage(util::CodedBuffer* result) {
   buf.writeString("");
 
   for (const auto& obj : forSort) {
+    if (obj.first.size() == 0) {
+      // it is already there, see above
+      mapping_[obj.first] = 0;
+      continue;
+    }
     auto position = buf.position();
     auto alignedPosition = Align(position, alignment);
     for (auto i = position; i < alignedPosition; ++i) {
-- 
2.43.0


From 445ebe8ade6d950418179f40d50f1170d88c0836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:16:03 +0000
Subject: [PATCH 74/78] fix: loading a recurrent network from the model checks
 the sizes the right way around

---
 src/core/analysis/rnn_scorer_gbeam.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/analysis/rnn_scorer_gbeam.cc b/src/core/analysis/rnn_scorer_gbeam.cc
index 5fa9f32..a9e3e48 100644
--- a/src/core/analysis/rnn_scorer_gbeam.cc
+++ b/src/core/analysis/rnn_scorer_gbeam.cc
@@ -400,7 +400,7 @@ Status RnnScorerGbeamFactory::makeInfo(model::ModelInfo* info,
 
 Status arr2d(StringPiece data, size_t nrows, size_t ncols,
              util::ConstSliceable<float>* result) {
-  if (nrows * ncols * sizeof(float) < data.size()) {
+  if (data.size() < nrows * ncols * sizeof(float)) {
     return JPPS_INVALID_PARAMETER
            << "failed to create ConstSliceable from memory buffer of "
            << data.size() << " need at least " << nrows * ncols * sizeof(float);
@@ -413,7 +413,7 @@ Status arr2d(StringPiece data, size_t nrows, size_t ncols,
 
 Status arr1d(StringPiece data, size_t expected,
              util::ArraySlice<float>* result) {
-  if (expected * sizeof(float) < data.size()) {
+  if (data.size() < expected * sizeof(float)) {
     return JPPS_INVALID_PARAMETER
            << "failed to create ConstSliceable from memory buffer of "
            << data.size() << " need at least " << expected * sizeof(float);
@@ -449,7 +449,7 @@ Status RnnScorerGbeamFactory::load(const model::ModelInfo& model) {
   util::ArraySlice<float> maxentWeights;
 
   JPP_RIE_MSG(
-      arr1d(p->data[3], rnnhdr.layerSize * rnnhdr.vocabSize, &rnnMatrix),
+      arr1d(p->data[3], rnnhdr.layerSize * rnnhdr.layerSize, &rnnMatrix),
       "failed to read matrix");
   JPP_RIE_MSG(arr2d(p->data[4], rnnhdr.vocabSize, rnnhdr.layerSize,
                     &state_->embeddings),
-- 
2.43.0


From dc0d92af816c28e120c17846fd41273973670960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:16:03 +0000
Subject: [PATCH 75/78] fix: a network loaded from the model uses the stored
 NCE constant, not the weight of the network

---
 src/core/analysis/rnn_scorer_gbeam.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/analysis/rnn_scorer_gbeam.cc b/src/core/analysis/rnn_scorer_gbeam.cc
index a9e3e48..7d02bd4 100644
--- a/src/core/analysis/rnn_scorer_gbeam.cc
+++ b/src/core/analysis/rnn_scorer_gbeam.cc
@@ -462,8 +462,8 @@ Status RnnScorerGbeamFactory::load(const model::ModelInfo& model) {
 
   JPP_RETURN_IF_ERROR(state_->rnn.init(rnnhdr, rnnMatrix, maxentWeights));
   state_->computeBosState(0);
-  if (config().rnnWeight.defined()) {
-    state_->rnn.setNceConstant(config().rnnWeight);
+  if (config().nceBias.defined()) {
+    state_->rnn.setNceConstant(config().nceBias);
   }
 
   return Status::Ok();
-- 
2.43.0


From 6d839f3a7d67600eecfb8e9b885a99fbd51decaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:18 +0000
Subject: [PATCH 76/78] fix: the direct connections of the network see all
 previous words, not the last one repeated

---
 src/core/analysis/rnn_scorer_gbeam.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/analysis/rnn_scorer_gbeam.cc b/src/core/analysis/rnn_scorer_gbeam.cc
index 7d02bd4..9e0f049 100644
--- a/src/core/analysis/rnn_scorer_gbeam.cc
+++ b/src/core/analysis/rnn_scorer_gbeam.cc
@@ -180,6 +180,9 @@ struct GbeamRnnState {
       for (; idx < cnt; ++idx) {
         JPP_DCHECK_NE(prev, nullptr);
         row.at(idx) = prev->id;
+        if (prev->prev != nullptr) {
+          prev = prev->prev;
+        }
       }
       scoreIdx += 1;
     }
-- 
2.43.0


From 7ba4692fb31eff01c71b9eb8348aa77462789b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:18:03 +0000
Subject: [PATCH 77/78] fix: paths merged for the network are merged with the
 path of the same words, not the latest one

---
 src/core/analysis/rnn_id_resolver.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/analysis/rnn_id_resolver.cc b/src/core/analysis/rnn_id_resolver.cc
index 1648b23..928297e 100644
--- a/src/core/analysis/rnn_id_resolver.cc
+++ b/src/core/analysis/rnn_id_resolver.cc
@@ -225,7 +225,7 @@ std::pair<RnnNode*, RnnNode*> RnnIdContainer::addPrevChain(
         if (cached->hash == hash) {
           // we can collapse a path in the RNN lattice
           // but we still need to publish the score
-          nodePtr = it->second;
+          nodePtr = cached;
           addScore(nodePtr, cptr);
           return std::make_pair(nodePtr, nodePtr);
         }
-- 
2.43.0


From a0c5d00cbcc330372ece5c7b29c9bc517355118c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:18:37 +0000
Subject: [PATCH 78/78] fix: options of the network given at analysis keep the
 stored weights which were not given

---
 src/core/env.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/core/env.cc b/src/core/env.cc
index 569826d..ba1c8a4 100644
--- a/src/core/env.cc
+++ b/src/core/env.cc
@@ -75,23 +75,23 @@ void JumanppEnv::setRnnHolder(analysis::RnnScorerGbeamFactory* holder) {
 
 void JumanppEnv::setRnnConfig(
     const analysis::rnn::RnnInferenceConfig& rnnConf) {
-  if (rnnConf.rnnWeight.value() == 0) {
-    if (hasRnnModel()) {
+  if (hasRnnModel()) {
+    rnnHolder_.setConfig(rnnConf);
+    // options which were not given keep the values stored in the model
+    auto& conf = rnnHolder_.config();
+    if (conf.rnnWeight.value() == 0) {
       scorers_.others.clear();
       scorers_.scoreWeights.clear();
-      scorers_.scoreWeights.push_back(rnnConf.perceptronWeight);
+      scorers_.scoreWeights.push_back(conf.perceptronWeight);
       scoringConf_.numScorers = 1;
       return;  // disable rnn
     }
-  }
-  if (hasRnnModel()) {
-    rnnHolder_.setConfig(rnnConf);
     if (scorers_.others.empty()) {
       scorers_.others.push_back(&rnnHolder_);
     }
     scorers_.scoreWeights.resize(2, 0);
-    scorers_.scoreWeights[0] = rnnConf.perceptronWeight;
-    scorers_.scoreWeights[1] = rnnConf.rnnWeight;
+    scorers_.scoreWeights[0] = conf.perceptronWeight;
+    scorers_.scoreWeights[1] = conf.rnnWeight;
     scoringConf_.numScorers = 2;
   } else {
     scorers_.scoreWeights.resize(1, 0);
-- 
2.43.0

