From 90ba0a2f3e506feb20297aaf643ae686f4e63461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:31 +0000
Subject: [PATCH 01/26] fix: keep the load of HashTable at one half after an
 insertion

Insert() compared the size before the insertion with the load factor, so a
table could fill more slots than the probing sequence visits, and looking up
an absent key (e.g. HashTable<int,int>(5) with keys 0, 1, 2) did not end.
---
 src/hashtable.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/hashtable.h b/src/hashtable.h
index 61e5169..73df948 100644
--- a/src/hashtable.h
+++ b/src/hashtable.h
@@ -54,8 +54,11 @@ class HashTable {
 
   // Insert or update an element in the hash table
   void Insert(K key, V value) {
-    double size = size_;
-    if (size / bucket_size_ > kLoadFactor) {
+    // Keep at most half of the buckets used (including the new one). The
+    // probing sequence of Lookup() visits only about half of the buckets, so
+    // it may not find an empty one (and won't terminate) when there are more
+    double size = size_ + 1.0;
+    while (size / bucket_size_ > kLoadFactor) {
       ExtendBuckets();
     }
 
-- 
2.43.0


From a284da345c560555f6581fba4fcce4ca40ffe053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:59 +0000
Subject: [PATCH 02/26] fix: Pool::Clear destroys exactly the objects in use

It walked over all blocks but the last one completely and over the last one
up to current_pos_. When Clear() was called before, blocks after current_block_
are kept but hold no objects, so destructors ran on memory without an object
and objects in the current block were left out.
---
 src/pool.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pool.h b/src/pool.h
index 0fc9198..a48f9e9 100644
--- a/src/pool.h
+++ b/src/pool.h
@@ -75,7 +75,7 @@ class Pool {
     }
 
     if (!std::is_trivially_destructible<T>::value) {
-      for (int block_idx = 0; block_idx < blocks_.size() - 1; ++block_idx) {
+      for (int block_idx = 0; block_idx < current_block_; ++block_idx) {
         T *block = blocks_[block_idx];
         for (int idx = 0; idx < BLOCK_SIZE; ++idx) {
           if (freed.find(block + idx) == freed.end()) {
@@ -84,8 +84,8 @@ class Pool {
         }
       }
 
-      // The last block
-      T *last_block = blocks_.back();
+      // The last block in use
+      T *last_block = blocks_[current_block_];
       for (int idx = 0; idx < current_pos_; ++idx) {
         if (freed.find(last_block + idx) == freed.end()) {
           last_block[idx].~T();
-- 
2.43.0


From 95e95f93be00349377d9b123f837139198d59a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:59 +0000
Subject: [PATCH 03/26] fix: GCPool::GC covers the last allocated node

The node in the last slot of the current block was neither unmarked nor swept:
it was not freed when unreachable, and keeping its old mark it was skipped by
the traversal in a later run, so nodes reachable from it could be freed.
---
 src/pool.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pool.h b/src/pool.h
index a48f9e9..bf52ac6 100644
--- a/src/pool.h
+++ b/src/pool.h
@@ -184,7 +184,7 @@ class GCPool : public Pool<T, BLOCK_SIZE> {
     // Unmark all elements
     for (int block = 0; block <= this->current_block_; ++block) {
       int max_pos = block == this->current_block_ ?
-          this->current_pos_ - 1 :
+          this->current_pos_ :
           BLOCK_SIZE;
       for (int pos = 0; pos < max_pos; ++pos) {
         // Bypass the nodes already freed
@@ -217,7 +217,7 @@ class GCPool : public Pool<T, BLOCK_SIZE> {
     int free_count = 0;
     for (int block = 0; block <= this->current_block_; ++block) {
       int max_pos = block == this->current_block_ ?
-          this->current_pos_ - 1 :
+          this->current_pos_ :
           BLOCK_SIZE;
       for (int pos = 0; pos < max_pos; ++pos) {
         // Bypass the nodes already freed
-- 
2.43.0


From 8d4bf6f6bb5a002f83c7ae2b96b887f4acf65986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:37 +0000
Subject: [PATCH 04/26] fix: reading zero bytes from a file succeeds

---
 src/util.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util.cc b/src/util.cc
index 34eaf8f..4ee850f 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -118,7 +118,8 @@ bool ReadableFile::ReadLine(std::string *line, Status *status) {
 }
 
 Status ReadableFile::Read(void *ptr, int size) {
-  if (1 != fread(ptr, size, 1, fd_)) {
+  // fread() returns 0 when there is nothing to read
+  if (size != 0 && 1 != fread(ptr, size, 1, fd_)) {
     return Status::IOError(util::Format("failed to read: {}", filename_));
   } else {
     return Status::OK();
-- 
2.43.0


From 409d2c159a19fcb45b6e5da98673e4228f923bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:37 +0000
Subject: [PATCH 05/26] fix: Vector::Read rejects a negative dimension

---
 src/vector.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vector.cc b/src/vector.cc
index b2584a0..47eaaef 100644
--- a/src/vector.cc
+++ b/src/vector.cc
@@ -282,7 +282,7 @@ Status Vector<Real>::Read(util::ReadableFile *fd) {
   int32_t dim;
   status = fd->ReadValue<int32_t>(&dim);
   if (!status.ok()) return status;
-  if (dim * sizeof(Real) + 4 != section_size) {
+  if (dim < 0 || dim * sizeof(Real) + 4 != section_size) {
     return Status::Corruption(util::Format(
         "section_size = {} * {} + 4 expected, but {} found: {}",
         dim,
-- 
2.43.0


From 4dfc0faba15142d832552a31904eaf9d2957fbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:37 +0000
Subject: [PATCH 06/26] fix: Matrix::Read reports damaged rows and impossible
 sizes

---
 src/matrix.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/matrix.cc b/src/matrix.cc
index 6653dae..28b0a9a 100644
--- a/src/matrix.cc
+++ b/src/matrix.cc
@@ -169,13 +169,24 @@ Status Matrix<Real>::Read(util::ReadableFile *fd) {
   PK_CHECK_STATUS(fd->ReadValue<int32_t>(&num_rows));
   PK_CHECK_STATUS(fd->ReadValue<int32_t>(&num_cols));
 
+  // A matrix has either no element at all or at least one row and one column
+  if (num_rows < 0 || num_cols < 0 || (num_rows == 0) != (num_cols == 0) ||
+      static_cast<int64_t>(num_rows) * num_cols >
+          std::numeric_limits<int32_t>::max()) {
+    return Status::Corruption(util::Format(
+        "Matrix::Read: unexpected size {} x {}: {}",
+        num_rows,
+        num_cols,
+        fd->filename()));
+  }
+
   // Resize the matrix according to the new size
   Resize(num_rows, num_cols, kUndefined);
 
   Vector<Real> row_read;
   for (int row_idx = 0; row_idx < this->NumRows(); ++row_idx) {
     SubVector<Real> row = this->Row(row_idx);
-    row_read.Read(fd);
+    PK_CHECK_STATUS(row_read.Read(fd));
     if (row_read.Dim() != this->NumCols()) {
       return Status::Corruption(util::Format(
           "Matrix::Read: row_read.Dim() == {} expected, but {} found: {}",
-- 
2.43.0


From 6c3fa98c80f48fb07ae50f2de6a2ecdc5790bd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:37 +0000
Subject: [PATCH 07/26] fix: Fst::Read rejects negative counts

---
 src/fst.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fst.cc b/src/fst.cc
index 232b7dd..dd22e4e 100644
--- a/src/fst.cc
+++ b/src/fst.cc
@@ -76,13 +76,15 @@ Status Fst::Read(util::ReadableFile *fd) {
   start_state_ = start_state;
 
   // Check section size
-  int expected_section_size =
+  int64_t expected_section_size =
       sizeof(state_number) +
       sizeof(arc_number) +
       sizeof(start_state) +
       state_number * (sizeof(final_.front()) + sizeof(state_idx_.front())) +
       arc_number * sizeof(FstArc);
-  if (expected_section_size != section_size) {
+  if (state_number < 0 ||
+      arc_number < 0 ||
+      expected_section_size != section_size) {
     return Status::Corruption(util::Format(
         "section_size == {} expected, but {} found",
         expected_section_size,
-- 
2.43.0


From 8e0554ea9f488e3f5ba82492f8c2da1e65188c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:47 +0000
Subject: [PATCH 08/26] fix: the wave header check takes the number of channels
 into account

---
 src/pcm_reader.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pcm_reader.cc b/src/pcm_reader.cc
index 0c020dc..cab9186 100644
--- a/src/pcm_reader.cc
+++ b/src/pcm_reader.cc
@@ -84,19 +84,21 @@ Status ReadPcmHeader(util::ReadableFile *fd, ce_wave_format_t *wave_fmt) {
   PK_CHECK_STATUS(fd->ReadValue(&block_align));
   PK_CHECK_STATUS(fd->ReadValue(&bits_per_sample));
 
-  if (bytes_rate != sample_rate * bits_per_sample / 8) {
+  // Size of one sample of all the channels in bytes
+  int64_t sample_bytes = num_channels * bits_per_sample / 8;
+  if (bytes_rate != sample_rate * sample_bytes) {
     return Status::Corruption(util::Format(
         "bytes_rate == {} expected, but {} found: {}",
-        sample_rate * bits_per_sample / 8,
+        sample_rate * sample_bytes,
         bytes_rate,
         fd->filename()));
   }
 
-  if (block_align != bits_per_sample / 8) {
+  if (block_align != sample_bytes) {
     return Status::Corruption(util::Format(
         "block_align == {} expected, but {} found: {}",
-        bits_per_sample / 8,
-        bytes_rate,
+        sample_bytes,
+        block_align,
         fd->filename()));
   }
   wave_fmt->bits_per_sample = bits_per_sample;
-- 
2.43.0


From ae6dbc6eaa1258e64f67476ce872bdc852a3ec82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:20 +0000
Subject: [PATCH 09/26] fix: Fbank::Process with an empty wave gives an empty
 matrix

---
 src/fbank.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fbank.cc b/src/fbank.cc
index 578b20e..e601635 100644
--- a/src/fbank.cc
+++ b/src/fbank.cc
@@ -268,7 +268,7 @@ void Fbank::Process(
     Matrix<float> *fbank_feature) const {
   // Do nothing when wave is empty
   if (wave.Dim() == 0) {
-    fbank_feature->Resize(0, PK_FBANK_DIM);
+    fbank_feature->Resize(0, 0);
     return;
   }
 
-- 
2.43.0


From 7d650cbbc13ae7a3ccad40ec7bd17a550a15899a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:01 +0000
Subject: [PATCH 10/26] fix: move assignment of a Vector releases its previous
 elements

---
 src/vector.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vector.cc b/src/vector.cc
index 47eaaef..d4ebef8 100644
--- a/src/vector.cc
+++ b/src/vector.cc
@@ -19,6 +19,9 @@ Vector<Real>::Vector(Vector<Real> &&v) {
 
 template<typename Real>
 Vector<Real> &Vector<Real>::operator=(Vector<Real> &&v) {
+  if (this == &v) return *this;
+
+  Destroy();
   this->dim_ = v.dim_;
   this->data_ = v.data_;
 
-- 
2.43.0


From 99116d053ae7a87e91e56e62e02a72a5666e6af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:58 +0000
Subject: [PATCH 11/26] fix: FindMinMax finds the maximum of a matrix without
 positive elements

---
 src/matrix.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matrix.cc b/src/matrix.cc
index 28b0a9a..4604dcb 100644
--- a/src/matrix.cc
+++ b/src/matrix.cc
@@ -339,7 +339,7 @@ namespace {
 // (src.Stride() == src.NumCols())
 void FindMinMax(const MatrixBase<float> &src, float *pmin, float *pmax) {
   float min = std::numeric_limits<float>::max(),
-        max = std::numeric_limits<float>::min();
+        max = std::numeric_limits<float>::lowest();
 
   for (int i = 0; i < src.NumCols() * src.NumRows(); ++i) {
     float val = src.Data()[i];
-- 
2.43.0


From 911dd3012d8141f6616a9bf4208dc5de4649a9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:28 +0000
Subject: [PATCH 12/26] fix: Quantize a matrix whose elements are all the same

---
 src/matrix.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/matrix.cc b/src/matrix.cc
index 4604dcb..dcaad1a 100644
--- a/src/matrix.cc
+++ b/src/matrix.cc
@@ -364,6 +364,9 @@ void ComputeQuantizationParams(const MatrixBase<float> &src,
 
   double scale = (max - min) / 255.0;
 
+  // All elements are the same
+  if (scale == 0.0) scale = min != 0.0f ? fabs(min) / 255.0 : 1.0;
+
   // Find zero-point
   double f_zero_point = -min / scale;
   int32_t zero_point = static_cast<int32_t>(round(f_zero_point));
-- 
2.43.0


From 8dbfeaf8bdee3d400e64022cdcca67fdfa993421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:51 +0000
Subject: [PATCH 13/26] fix: Configuration::GetInteger reports a value that is
 no integer

---
 src/configuration.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/configuration.h b/src/configuration.h
index d4cc76a..80ed361 100644
--- a/src/configuration.h
+++ b/src/configuration.h
@@ -5,6 +5,7 @@
 
 #include <string>
 #include <unordered_map>
+#include <stdexcept>
 #include <limits.h>
 #include "util.h"
 
@@ -45,9 +46,17 @@ class Configuration {
     return Status::OK();
   }
   Status GetInteger(const std::string &key, int *val) const {
-    int int_val = GetIntegerOrElse(key, INT_MIN);
-    if (int_val == INT_MIN) return KeyNotFound(key);
-    *val = int_val;
+    std::string int_string;
+    PK_CHECK_STATUS(GetString(key, &int_string));
+    try {
+      *val = std::stoi(int_string);
+    } catch (const std::exception &) {
+      return Status::Corruption(util::Format(
+          "Integer expected for key '{}' but '{}' found in '{}'",
+          key,
+          int_string,
+          filename()));
+    }
     return Status::OK();
   }
 
-- 
2.43.0


From c52cada5a886ef106a52b8b8675e82fad57e1fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:17 +0000
Subject: [PATCH 14/26] fix: ReadLine reads lines of any length

---
 src/util.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/util.cc b/src/util.cc
index 4ee850f..eb77edb 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -108,8 +108,19 @@ bool ReadableFile::ReadLine(std::string *line, Status *status) {
     }
   }
 
-  // Trim the tailing '\r' or '\n'
   *line = s;
+
+  // Read the rest of a line longer than the chunk
+  while (strlen(s) == chunk.size() - 1 && line->back() != '\n') {
+    if (fgets(chunk.data(), chunk.size(), fd_) == NULL) {
+      if (feof(fd_)) break;
+      *status = Status::IOError(filename_);
+      return false;
+    }
+    *line += s;
+  }
+
+  // Trim the tailing '\r' or '\n'
   while (line->empty() == false &&
          (line->back() == '\r' || line->back() == '\n')) {
     line->pop_back();
-- 
2.43.0


From f99e4f81307c0478d8ef0c013bf1055f6fbc6fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:17 +0000
Subject: [PATCH 15/26] fix: SymbolTable::Read accepts a last line without line
 break

---
 src/symbol_table.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symbol_table.cc b/src/symbol_table.cc
index 7282be3..eb50f1b 100644
--- a/src/symbol_table.cc
+++ b/src/symbol_table.cc
@@ -20,7 +20,7 @@ Status SymbolTable::Read(const std::string &filename) {
   Status status = Status::OK();
   std::string line;
   words_.reserve(65536);
-  while (fd.ReadLine(&line, &status) && status.ok()) {
+  while (!fd.Eof() && fd.ReadLine(&line, &status) && status.ok()) {
     std::vector<std::string> fields = util::Split(line, " ");
     if (fields.size() != 2) {
       return Status::Corruption(util::Format(
-- 
2.43.0


From 9abc6904a7d1655f26839ff8a36b3aa8ff4097e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:41 +0000
Subject: [PATCH 16/26] fix: SymbolTable::Read rejects ids out of range

---
 src/symbol_table.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/symbol_table.cc b/src/symbol_table.cc
index eb50f1b..09e1ccd 100644
--- a/src/symbol_table.cc
+++ b/src/symbol_table.cc
@@ -4,6 +4,7 @@
 
 #include <assert.h>
 #include <stdlib.h>
+#include <limits>
 #include "util.h"
 
 namespace pocketkaldi {
@@ -32,7 +33,12 @@ Status SymbolTable::Read(const std::string &filename) {
     std::string word = fields[0];
     long word_id = 0;
     PK_CHECK_STATUS(util::StringToLong(fields[1], &word_id));
-    
+    if (word_id < 0 || word_id > std::numeric_limits<int>::max()) {
+      return Status::Corruption(util::Format(
+          "symbol_table: unexpected symbol id: {}",
+          line));
+    }
+
     word_ids_[word] = word_id;
     if (word_id >= words_.size()) words_.resize(word_id + 1);
     words_[word_id] = word;
-- 
2.43.0


From ffe484cd90ee7db1984a4536e1d7af7f2c3a4e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:57 +0000
Subject: [PATCH 17/26] fix: StringToLong rejects a string without a number

---
 src/util.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.cc b/src/util.cc
index eb77edb..22d4cc0 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -52,7 +52,7 @@ Status StringToLong(const std::string &str, long *val) {
   std::string trim_str = Trim(str);
   char *end = nullptr;
   *val = strtol(trim_str.c_str(), &end, 0);
-  if (*end != '\0') {
+  if (end == trim_str.c_str() || *end != '\0') {
     return Status::Corruption(Format("unexpected number string: {}", trim_str));
   }
   
-- 
2.43.0


From d59db482d6509bfa801c0d7de04288237188fd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:21 +0000
Subject: [PATCH 18/26] fix: Decoder releases pruned and replaced tokens

---
 src/decoder.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/decoder.cc b/src/decoder.cc
index c1c7c43..4c5296e 100644
--- a/src/decoder.cc
+++ b/src/decoder.cc
@@ -170,6 +170,7 @@ bool Decoder::InsertTok(
     // If the cost of existing token is less than the new one, just discard
     // inserting and return false
     if (toks_[tok_idx]->cost() > cost) {
+      toks_pool_.Dealloc(toks_[tok_idx]);
       toks_[tok_idx] = toks_pool_.Alloc(next_state, cost, next_olabel);
     } else {
       return false;
@@ -339,7 +340,10 @@ float Decoder::ProcessEmitting(const VectorBase<float> &frame_logp) {
 
     // weight_cutoff is computed according to beam size
     // So there are only top beam_size toks less than weight_cutoff
-    if (from_tok->cost() > weight_cutoff) continue;
+    if (from_tok->cost() > weight_cutoff) {
+      toks_pool_.Dealloc(from_tok);
+      continue;
+    }
 
     for (fst::ArcIterator<fst::Fst<fst::StdArc>> arc_iter(*fst_, state.hclg_state());
          !arc_iter.Done();
-- 
2.43.0


From df6fdd9154545ea9735a4091da7315640f3f5b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:21 +0000
Subject: [PATCH 19/26] fix: Decoder::Process fails instead of crashing after
 the beam became empty

---
 src/decoder.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/decoder.cc b/src/decoder.cc
index 4c5296e..2b74bf3 100644
--- a/src/decoder.cc
+++ b/src/decoder.cc
@@ -302,6 +302,9 @@ float Decoder::ProcessEmitting(const VectorBase<float> &frame_logp) {
   PK_DEBUG(util::Format("toks_.size() = {}", toks_.size()));
   toks_.swap(prev_toks_);
 
+  // No token to propagate: the beam became empty in an earlier frame
+  if (prev_toks_.empty()) return INFINITY;
+
   // Calculate beam_cutoff of beam
   float adaptive_beam = INFINITY;
   Token *best_tok = 0;
-- 
2.43.0


From af6ab44a8bf80e0bfb4a5fd84f5ab968e62f903e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:21 +0000
Subject: [PATCH 20/26] fix: Decoder::BestPath adds the final cost once

---
 src/decoder.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/decoder.cc b/src/decoder.cc
index 2b74bf3..dab4074 100644
--- a/src/decoder.cc
+++ b/src/decoder.cc
@@ -432,7 +432,6 @@ Decoder::Hypothesis Decoder::BestPath() {
   }
 
   weight = best_cost;
-  weight += fst_->Final(best_tok->state().hclg_state()).Value();
 
   return Hypothesis(words, weight);
 }
-- 
2.43.0


From 67fc3484e2eade86237cef5c5152f4241c394c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:21 +0000
Subject: [PATCH 21/26] fix: Decoder::Initialize starts from a clean state

---
 src/decoder.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/decoder.cc b/src/decoder.cc
index dab4074..eb75687 100644
--- a/src/decoder.cc
+++ b/src/decoder.cc
@@ -103,8 +103,12 @@ float Decoder::LogLikelihood(const VectorBase<float> &frame_logp,
 
 void Decoder::Initialize() {
   // Prepare beams
+  for (Token *tok : toks_) toks_pool_.Dealloc(tok);
+  for (Token *tok : prev_toks_) toks_pool_.Dealloc(tok);
   toks_.clear();
   prev_toks_.clear();
+  state_idx_.Clear();
+  is_end_of_stream_ = false;
 
   // Initialize decoding:
   int start_state = fst_->Start();
-- 
2.43.0


From 1d743d82372689086168843d645f88f15b6a2b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:01 +0000
Subject: [PATCH 22/26] fix: ce_stt_end_of_stream checks the utterance before
 using it

---
 src/ce_stt.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ce_stt.cc b/src/ce_stt.cc
index 0cf0ff1..513a9f0 100644
--- a/src/ce_stt.cc
+++ b/src/ce_stt.cc
@@ -341,12 +341,12 @@ pasco_process_failed:
 
 void ce_stt_end_of_stream(ce_utt_t *c_utt) {
   PK_DEBUG("pasco_end_of_stream()");
-  ce_utt_internal_t *utt = c_utt->internal;
 
   if (CE_STT_FAILED == CheckParamUtt(c_utt)) {
     return;
   }
   const ce_stt_t *recognizer = c_utt->internal->recognizer;
+  ce_utt_internal_t *utt = c_utt->internal;
 
   // Process remained frames in AM
   Matrix<float> log_prob;
-- 
2.43.0


From 429cac7d0781e5b2cf56e5b47abcb718dc448723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:01 +0000
Subject: [PATCH 23/26] fix: ce_stt_destroy releases the recognizer itself

---
 src/ce_stt.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ce_stt.cc b/src/ce_stt.cc
index 513a9f0..d16c407 100644
--- a/src/ce_stt.cc
+++ b/src/ce_stt.cc
@@ -251,6 +251,8 @@ void ce_stt_destroy(ce_stt_t *recognizer) {
 
   delete recognizer->fbank;
   recognizer->fbank = NULL;
+
+  delete recognizer;
 }
 
 ce_utt_t *ce_utt_init(ce_stt_t *recognizer, const ce_wave_format_t *format) {
-- 
2.43.0


From 22141a72ee72dc1634ca037bd873ba23f15f2d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:28 +0000
Subject: [PATCH 24/26] fix: 8-bit wave samples are unsigned

---
 src/pcm_reader.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pcm_reader.cc b/src/pcm_reader.cc
index cab9186..7507ad7 100644
--- a/src/pcm_reader.cc
+++ b/src/pcm_reader.cc
@@ -25,11 +25,12 @@ static int16_t ReadInt16(char **ptr) {
   return val;
 }
 
-// Reads an int8 value from ptr and move it forward
+// Reads an 8-bit sample from ptr and move it forward. 8-bit samples of a wave
+// file are unsigned, 128 is silence
 static int8_t ReadInt8(char **ptr) {
-  int8_t val = *((int8_t *)*ptr);
-  *ptr += sizeof(int8_t);
-  return val;
+  uint8_t val = *((uint8_t *)*ptr);
+  *ptr += sizeof(uint8_t);
+  return static_cast<int8_t>(val - 128);
 }
 
 
-- 
2.43.0


From fb5ae6fb859db1ad085c462d6caa6950bd7aa182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:25 +0000
Subject: [PATCH 25/26] fix: Nnet::Read rejects a negative number of layers

---
 src/nnet.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nnet.cc b/src/nnet.cc
index 60609fb..e52636e 100644
--- a/src/nnet.cc
+++ b/src/nnet.cc
@@ -283,6 +283,12 @@ Status Nnet::Read(util::ReadableFile *fd) {
 
   int32_t num_layers;
   PK_CHECK_STATUS(fd->ReadValue<int32_t>(&num_layers));
+  if (num_layers < 0) {
+    return Status::Corruption(util::Format(
+        "Nnet: unexpected number of layers: {} ({})",
+        num_layers,
+        fd->filename()));
+  }
 
   // Read each layers
   for (int layer_idx = 0; layer_idx < num_layers; ++layer_idx) {
-- 
2.43.0


From b146757822b30560ef9ed8806bfaddbe13b34787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:51 +0000
Subject: [PATCH 26/26] fix: StringToLong rejects numbers out of range

---
 src/util.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util.cc b/src/util.cc
index 22d4cc0..da8f0fa 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -4,6 +4,7 @@
 
 #include <assert.h>
 #include <ctype.h>
+#include <errno.h>
 #include <stdarg.h>
 #include <string.h>
 #include <stdio.h>
@@ -51,8 +52,9 @@ std::string Tolower(const std::string &str) {
 Status StringToLong(const std::string &str, long *val) {
   std::string trim_str = Trim(str);
   char *end = nullptr;
+  errno = 0;
   *val = strtol(trim_str.c_str(), &end, 0);
-  if (end == trim_str.c_str() || *end != '\0') {
+  if (end == trim_str.c_str() || *end != '\0' || errno == ERANGE) {
     return Status::Corruption(Format("unexpected number string: {}", trim_str));
   }
   
-- 
2.43.0

