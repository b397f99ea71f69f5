From 07ba6a11102a89f8ec61ce9a37584bc7b1f9b322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:58 +0000
Subject: [PATCH 01/42] fix: do not let blosc read past the end of truncated
 chunk data

---
 include/z5/compression/blosc_compressor.hxx | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/z5/compression/blosc_compressor.hxx b/include/z5/compression/blosc_compressor.hxx
index 716bf5f..0ef5ae6 100644
--- a/include/z5/compression/blosc_compressor.hxx
+++ b/include/z5/compression/blosc_compressor.hxx
@@ -47,9 +47,19 @@ namespace compression {
             dataOut.resize(sizeCompressed);
         }
 
-        void decompress(const char * dataIn, std::size_t, T * dataOut, std::size_t sizeOut) const {
+        void decompress(const char * dataIn, std::size_t nBytesIn, T * dataOut, std::size_t sizeOut) const {
 
-            // decompress the data (blosc reads the compressed length from its own header)
+            // blosc takes the compressed length from its own header, so make sure that
+            // the stored data is not shorter than what the header claims
+            std::size_t nBytes = 0, cBytes = 0, blockSize = 0;
+            if(nBytesIn >= BLOSC_MIN_HEADER_LENGTH) {
+                blosc_cbuffer_sizes(dataIn, &nBytes, &cBytes, &blockSize);
+            }
+            if(nBytesIn < BLOSC_MIN_HEADER_LENGTH || cBytes > nBytesIn) {
+                throw std::runtime_error("Blosc decompression failed: truncated data");
+            }
+
+            // decompress the data
             int sizeDecompressed = blosc_decompress_ctx(
                 dataIn, dataOut,
                 sizeOut * sizeof(T),
-- 
2.43.0


From 960b1ed9b95db233ad8e1d8204a4d31ecefb593e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:30 +0000
Subject: [PATCH 02/42] fix: do not create chunk directories through a
 read-only handle

---
 include/z5/filesystem/handle.hxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/z5/filesystem/handle.hxx b/include/z5/filesystem/handle.hxx
index 94937a2..523d237 100644
--- a/include/z5/filesystem/handle.hxx
+++ b/include/z5/filesystem/handle.hxx
@@ -274,6 +274,10 @@ namespace handle {
 
         // make the top level directories for a nested chunk
         inline void create() const {
+            if(!mode().canWrite()) {
+                const std::string err = "Cannot create chunk in mode " + mode().printMode();
+                throw std::invalid_argument(err.c_str());
+            }
             // don't need to do anything for chunks that are not nested
             if(dsHandle_.isZarr() && dsHandle_.zarrDelimiter() != "/") {
                 return;
-- 
2.43.0


From dbf2cf8d02670cf13d7f9681e595bde82b27b250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:35 +0000
Subject: [PATCH 03/42] fix: refuse requests whose offset plus shape wraps
 around

---
 include/z5/dataset.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/z5/dataset.hxx b/include/z5/dataset.hxx
index 5e241b1..26f9452 100644
--- a/include/z5/dataset.hxx
+++ b/include/z5/dataset.hxx
@@ -49,7 +49,8 @@ namespace z5 {
                 throw std::runtime_error("Request has wrong dimension");
             }
             for(int d = 0; d < shape_.size(); ++d) {
-                if(offset[d] + shape[d] > shape_[d]) {
+                // compare without adding, the sum of offset and shape may wrap around
+                if(offset[d] > shape_[d] || shape[d] > shape_[d] - offset[d]) {
                     throw std::runtime_error(
                         "Request is out of range: " + std::to_string(offset[d]) + " + " +
                         std::to_string(shape[d]) + " > " + std::to_string(shape_[d]) +
-- 
2.43.0


From e861af60d1bc9e9f1e181b6ed7dc328c318bf9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:35 +0000
Subject: [PATCH 04/42] fix: do not truncate block and request differences to
 int

---
 include/z5/util/blocking.hxx | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/include/z5/util/blocking.hxx b/include/z5/util/blocking.hxx
index 1b244b5..6f5505a 100644
--- a/include/z5/util/blocking.hxx
+++ b/include/z5/util/blocking.hxx
@@ -155,34 +155,29 @@ namespace util {
 
             bool completeOvlp = true;
             std::size_t blockEnd, roiEnd;
-            int offDiff, endDiff;
             for(unsigned d = 0; d < nDim; ++d) {
 
                 // first we calculate the block end coordinate
                 blockEnd = blockBegin[d] + blockShape[d];
                 // next the roi end
                 roiEnd = roiBegin[d] + roiShape[d];
-                // then we calculate the difference between the block begin / end
-                // and the request begin / end
-                offDiff = blockBegin[d] - roiBegin[d];
-                endDiff = roiEnd - blockEnd;
 
-                // if the offset difference is negative, we are at a starting block
+                // if the block begins before the request, we are at a starting block
                 // that is not completely overlapping
                 // -> set all values accordingly
-                if(offDiff < 0) {
+                if(blockBegin[d] < roiBegin[d]) {
                     beginInRoi[d] = 0; // start block -> no local offset
-                    beginInBlock[d] = -offDiff;
+                    beginInBlock[d] = roiBegin[d] - blockBegin[d];
                     completeOvlp = false;
                     // if this block is the beginning block as well as the end block,
                     // we need to adjust the local shape accordingly
                     shapeInRoi[d] = (blockEnd <= roiEnd) ? blockEnd - roiBegin[d] : roiEnd - roiBegin[d];
                 }
 
-                // if the end difference is negative, we are at a last block
+                // if the block ends after the request, we are at a last block
                 // that is not completely overlapping
                 // -> set all values accordingly
-                else if(endDiff < 0) {
+                else if(roiEnd < blockEnd) {
                     beginInRoi[d] = blockBegin[d] - roiBegin[d];
                     beginInBlock[d] = 0;
                     completeOvlp = false;
-- 
2.43.0


From 4e6d5a96b0353eb61a21638fa5684e8485288b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:35 +0000
Subject: [PATCH 05/42] fix: refuse chunk positions with the wrong number of
 dimensions

---
 include/z5/handle.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/z5/handle.hxx b/include/z5/handle.hxx
index 5e08656..5cc8bae 100644
--- a/include/z5/handle.hxx
+++ b/include/z5/handle.hxx
@@ -221,6 +221,9 @@ namespace handle {
         // compute the chunk shape, clipped if overhanging the boundary
         inline types::ShapeType computeBoundedShape() const {
             const int ndim = defaultShape_.size();
+            if(chunkIndices_.size() != defaultShape_.size() || datasetShape_.size() != defaultShape_.size()) {
+                throw std::runtime_error("Invalid chunk: wrong number of dimensions");
+            }
             types::ShapeType out(ndim);
             for(int d = 0; d < ndim; ++d) {
                 out[d] = ((chunkIndices_[d] + 1) * defaultShape_[d] <= datasetShape_[d]) ? defaultShape_[d] :
-- 
2.43.0


From 7c9b48f2d1ffcd631da5e010312c1aa783985e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:35 +0000
Subject: [PATCH 06/42] fix: check chunk positions and missing chunks of
 sharded datasets

---
 include/z5/generic/sharded_dataset.hxx | 44 ++++++++++++++++++--------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/include/z5/generic/sharded_dataset.hxx b/include/z5/generic/sharded_dataset.hxx
index 716a850..ad927c9 100644
--- a/include/z5/generic/sharded_dataset.hxx
+++ b/include/z5/generic/sharded_dataset.hxx
@@ -67,25 +67,19 @@ namespace generic {
 
         inline bool readChunk(const types::ShapeType & chunkIndices, void * dataOut) const {
             std::vector<char> buffer;
-            readRawChunk(chunkIndices, buffer);
+            if(!readInnerBlob(chunkIndices, buffer)) {
+                throw std::runtime_error("Trying to read a chunk that does not exist");
+            }
             util::decompress<T>(buffer, dataOut, defaultChunkSize(), Mixin::compressor_);
             return false;  // no varlen in zarr v3
         }
 
         inline void readRawChunk(const types::ShapeType & chunkIndices,
                                  std::vector<char> & buffer) const {
-            std::vector<util::ShardEntry> entries;
-            std::vector<char> shardBuf;
-            if(!readShard(chunkIndices, shardBuf, entries)) {
+            // a missing chunk yields an empty buffer
+            if(!readInnerBlob(chunkIndices, buffer)) {
                 buffer.clear();
-                return;
             }
-            const auto & e = entries[util::shardSlot(chunkIndices, chunksPerShard_)];
-            if(e.empty()) {
-                buffer.clear();
-                return;
-            }
-            buffer.assign(shardBuf.begin() + e.offset, shardBuf.begin() + e.offset + e.nbytes);
         }
 
         inline void checkRequestType(const std::type_info & type) const {
@@ -95,6 +89,9 @@ namespace generic {
         }
 
         inline bool chunkExists(const types::ShapeType & chunkId) const {
+            if(!chunking_.checkBlockCoordinate(chunkId)) {
+                return false;
+            }
             std::vector<util::ShardEntry> entries;
             std::vector<char> shardBuf;
             if(!readShard(chunkId, shardBuf, entries)) {
@@ -255,6 +252,7 @@ namespace generic {
             STORE::chunkPath(shardChunk, path);
         }
         inline void removeChunk(const types::ShapeType & chunkId) const {
+            checkCoordinate(chunkId);
             writeInnerBlob(chunkId, std::vector<char>(), false);
         }
         inline void remove() const {handle_.remove();}
@@ -280,6 +278,22 @@ namespace generic {
             return true;
         }
 
+        // read one inner chunk's blob; returns false if the chunk does not exist
+        inline bool readInnerBlob(const types::ShapeType & chunkId, std::vector<char> & blob) const {
+            checkCoordinate(chunkId);
+            std::vector<util::ShardEntry> entries;
+            std::vector<char> shardBuf;
+            if(!readShard(chunkId, shardBuf, entries)) {
+                return false;
+            }
+            const auto & e = entries[util::shardSlot(chunkId, chunksPerShard_)];
+            if(e.empty()) {
+                return false;
+            }
+            blob.assign(shardBuf.begin() + e.offset, shardBuf.begin() + e.offset + e.nbytes);
+            return true;
+        }
+
         // replace one inner chunk's blob in its shard (read-modify-write). Serialized by
         // shardMutex_ so concurrent direct writeChunk calls to the same shard are safe;
         // the read + rebuild themselves are shared with the batched shard-aware path.
@@ -297,10 +311,14 @@ namespace generic {
             writeShardBlobs(shardCoord, blobs);
         }
 
-        inline void checkChunk(const ChunkHandleType & chunk, const bool isVarlen=false) const {
-            if(!chunking_.checkBlockCoordinate(chunk.chunkIndices())) {
+        inline void checkCoordinate(const types::ShapeType & chunkId) const {
+            if(!chunking_.checkBlockCoordinate(chunkId)) {
                 throw std::runtime_error("Invalid chunk");
             }
+        }
+
+        inline void checkChunk(const ChunkHandleType & chunk, const bool isVarlen=false) const {
+            checkCoordinate(chunk.chunkIndices());
             if(isVarlen) {
                 throw std::runtime_error("Varlength chunks are not supported in zarr v3");
             }
-- 
2.43.0


From 95e9debbebcbda84bab0ae5c44a0dd40501eb7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:19 +0000
Subject: [PATCH 07/42] fix: check the chunk position before a chunk is removed
 or read raw

---
 include/z5/generic/dataset.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/z5/generic/dataset.hxx b/include/z5/generic/dataset.hxx
index e597931..aad84f6 100644
--- a/include/z5/generic/dataset.hxx
+++ b/include/z5/generic/dataset.hxx
@@ -92,6 +92,7 @@ namespace generic {
         inline void readRawChunk(const types::ShapeType & chunkIndices,
                                  std::vector<char> & buffer) const {
             ChunkHandleType chunk(handle_, chunkIndices, defaultChunkShape(), shape());
+            checkChunk(chunk);
             // a missing chunk yields an empty buffer
             if(!STORE::read(chunk, buffer)) {
                 buffer.clear();
@@ -206,6 +207,7 @@ namespace generic {
         }
         inline void removeChunk(const types::ShapeType & chunkId) const {
             ChunkHandleType chunk(handle_, chunkId, defaultChunkShape(), shape());
+            checkChunk(chunk);
             chunk.remove();
         }
         inline void remove() const {
-- 
2.43.0


From 73ee631de598ea7a4471736247b1f90db28a4676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:19 +0000
Subject: [PATCH 08/42] fix: check the element type when reading a chunk from
 python

---
 src/python/lib/dataset.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/python/lib/dataset.cxx b/src/python/lib/dataset.cxx
index e327a4b..9f9d93c 100644
--- a/src/python/lib/dataset.cxx
+++ b/src/python/lib/dataset.cxx
@@ -102,6 +102,9 @@ namespace z5 {
     template<class T>
     inline nb::object readPyChunk(const Dataset & ds, const types::ShapeType & chunkId) {
 
+        // the chunk reader writes elements of the DATASET's dtype
+        ds.checkRequestType(typeid(T));
+
         types::ShapeType shape;
         bool exists;
 
-- 
2.43.0


From a7656c5898dc420cb72cecc526761b6455f664a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:06 +0000
Subject: [PATCH 09/42] fix: check the number of dimensions of regions passed
 from python

---
 src/python/lib/dataset.cxx | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/python/lib/dataset.cxx b/src/python/lib/dataset.cxx
index 9f9d93c..e3d4f3b 100644
--- a/src/python/lib/dataset.cxx
+++ b/src/python/lib/dataset.cxx
@@ -48,12 +48,23 @@ namespace z5 {
     }
 
 
+    // the multiarray API takes the region as iterators, so the number of
+    // dimensions of a region coming from python must be checked here
+    inline void checkRoiDimension(const std::size_t roiDim, const std::size_t nDim) {
+        if(roiDim != nDim) {
+            throw std::runtime_error("Request has wrong dimension: " + std::to_string(roiDim) +
+                                     " instead of " + std::to_string(nDim));
+        }
+    }
+
+
     template<class T>
     inline void writePySubarray(const Dataset & ds,
                                 const nb::ndarray<nb::numpy, const T, nb::c_contig> in,
                                 const std::vector<std::size_t> & roiBegin,
                                 const int numberOfThreads) {
         const auto view = constViewFromArray<T>(in);
+        checkRoiDimension(roiBegin.size(), view.ndim());
         multiarray::writeSubarray<T>(ds, view, roiBegin.begin(), numberOfThreads);
     }
 
@@ -64,6 +75,7 @@ namespace z5 {
                                const std::vector<std::size_t> & roiBegin,
                                const int numberOfThreads) {
         const auto view = viewFromArray<T>(out);
+        checkRoiDimension(roiBegin.size(), view.ndim());
         multiarray::readSubarray<T>(ds, view, roiBegin.begin(), numberOfThreads);
     }
 
@@ -74,6 +86,8 @@ namespace z5 {
                               const std::vector<std::size_t> & roiShape,
                               const T val,
                               const int numberOfThreads) {
+        checkRoiDimension(roiBegin.size(), ds.dimension());
+        checkRoiDimension(roiShape.size(), ds.dimension());
         multiarray::writeScalar<T>(ds, roiBegin.begin(), roiShape.begin(), val, numberOfThreads);
     }
 
-- 
2.43.0


From 8005366d3bb8b456d40a1ad6f27ac20bedca1257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:14 +0000
Subject: [PATCH 10/42] fix: report failed writes of chunk, metadata and
 attribute files

---
 include/z5/filesystem/attributes.hxx | 9 +++++++++
 include/z5/filesystem/metadata.hxx   | 3 +++
 include/z5/filesystem/store.hxx      | 3 ++-
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/z5/filesystem/attributes.hxx b/include/z5/filesystem/attributes.hxx
index 3a31197..d3f410e 100644
--- a/include/z5/filesystem/attributes.hxx
+++ b/include/z5/filesystem/attributes.hxx
@@ -46,6 +46,7 @@ namespace attrs_detail {
             std::ofstream file(base_ / name);
             file << j;
             file.close();
+            checkWritten(file, name);
         }
 
         // pretty serialization (zarr.json and metadata files)
@@ -53,9 +54,17 @@ namespace attrs_detail {
             std::ofstream file(base_ / name);
             file << std::setw(4) << j << std::endl;
             file.close();
+            checkWritten(file, name);
         }
 
     private:
+        // opening, writing or closing (which flushes) may have failed
+        inline void checkWritten(const std::ofstream & file, const std::string & name) const {
+            if(!file.good()) {
+                throw std::runtime_error("z5: failed to write file: " + (base_ / name).string());
+            }
+        }
+
         fs::path base_;
     };
 
diff --git a/include/z5/filesystem/metadata.hxx b/include/z5/filesystem/metadata.hxx
index dcab787..8d3bc5b 100644
--- a/include/z5/filesystem/metadata.hxx
+++ b/include/z5/filesystem/metadata.hxx
@@ -13,6 +13,9 @@ namespace metadata_detail {
         std::ofstream file(path);
         file << std::setw(4) << j << std::endl;
         file.close();
+        if(!file.good()) {
+            throw std::runtime_error("z5: failed to write metadata file: " + path.string());
+        }
     }
 
     inline void readMetadata(const fs::path & path, nlohmann::json & j) {
diff --git a/include/z5/filesystem/store.hxx b/include/z5/filesystem/store.hxx
index 02de523..fcf8a39 100644
--- a/include/z5/filesystem/store.hxx
+++ b/include/z5/filesystem/store.hxx
@@ -42,10 +42,11 @@ namespace store_detail {
             throw std::runtime_error(std::string("z5: cannot open ") + what + " file for writing: " + path.string());
         }
         file.write(buffer.data(), buffer.size());
+        // buffered data is only written out when the file is closed, so check after that
+        file.close();
         if(!file.good()) {
             throw std::runtime_error(std::string("z5: failed to write ") + what + " file: " + path.string());
         }
-        file.close();
     }
 
 }  // namespace store_detail
-- 
2.43.0


From 1abaa1f0176511e7ccd499fbe9486424173fb374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:14 +0000
Subject: [PATCH 11/42] fix: raise when an N5 chunk header cannot be read

---
 include/z5/filesystem/store.hxx | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/z5/filesystem/store.hxx b/include/z5/filesystem/store.hxx
index fcf8a39..41f7318 100644
--- a/include/z5/filesystem/store.hxx
+++ b/include/z5/filesystem/store.hxx
@@ -102,6 +102,7 @@ namespace store_detail {
             // read the mode
             uint16_t mode;
             file.read((char *) &mode, 2);
+            checkHeaderRead(file, chunk);
             util::reverseEndiannessInplace(mode);
 
             if(mode == 0) {
@@ -111,6 +112,7 @@ namespace store_detail {
             // read the number of dimensions
             uint16_t ndim;
             file.read((char *) &ndim, 2);
+            checkHeaderRead(file, chunk);
             util::reverseEndiannessInplace(ndim);
 
             // advance the file by ndim * 4 to skip the shape
@@ -118,6 +120,7 @@ namespace store_detail {
 
             uint32_t varlength;
             file.read((char*) &varlength, 4);
+            checkHeaderRead(file, chunk);
             util::reverseEndiannessInplace(varlength);
             chunkSize = varlength;
 
@@ -136,6 +139,7 @@ namespace store_detail {
             // read the number of dimensions
             uint16_t ndim;
             file.read((char *) &ndim, 2);
+            checkHeaderRead(file, chunk);
             util::reverseEndiannessInplace(ndim);
 
             // read temporary shape with uint32 entries
@@ -143,6 +147,7 @@ namespace store_detail {
             for(int d = 0; d < ndim; ++d) {
                 file.read((char *) &shapeTmp[d], 4);
             }
+            checkHeaderRead(file, chunk);
             util::reverseEndiannessInplace<uint32_t>(shapeTmp.begin(), shapeTmp.end());
 
             // N5-Axis order: we need to reverse the chunk shape read from the header
@@ -154,6 +159,13 @@ namespace store_detail {
             file.close();
         }
 
+    private:
+        static inline void checkHeaderRead(const std::ifstream & file, const ChunkHandleType & chunk) {
+            if(!file.good()) {
+                throw std::runtime_error("z5: failed to read chunk header: " + chunk.path().string());
+            }
+        }
+
     };
 
     static_assert(z5::generic::ChunkStorePolicy<ChunkStore>);
-- 
2.43.0


From a2be14a21fd41ae3a416c32c8df62adcd4762d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:14 +0000
Subject: [PATCH 12/42] fix: do not take failed S3 requests for absence or
 success

---
 include/z5/s3/handle.hxx | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/z5/s3/handle.hxx b/include/z5/s3/handle.hxx
index 3576e42..be2747a 100644
--- a/include/z5/s3/handle.hxx
+++ b/include/z5/s3/handle.hxx
@@ -207,6 +207,9 @@ namespace detail {
                 body.read(chunk, sizeof(chunk));
                 out.insert(out.end(), chunk, chunk + body.gcount());
             } while(body.gcount() > 0);
+            if(body.bad()) {
+                throw std::runtime_error("z5: failed to read response body from S3: " + key);
+            }
         }
         return true;
     }
@@ -251,7 +254,11 @@ namespace detail {
         Aws::S3::Model::HeadObjectRequest request;
         request.SetBucket(Aws::String(bucket.c_str(), bucket.size()));
         request.SetKey(Aws::String(key.c_str(), key.size()));
-        return client.HeadObject(request).IsSuccess();
+        const auto outcome = client.HeadObject(request);
+        if(!outcome.IsSuccess() && !isNotFound(outcome.GetError())) {
+            throw makeS3Error("could not look up object in S3", key, outcome.GetError());
+        }
+        return outcome.IsSuccess();
     }
 
     inline void deleteObject(Aws::S3::S3Client & client,
@@ -309,6 +316,10 @@ namespace detail {
             if(!outcome.IsSuccess()) {
                 throw makeS3Error("could not delete objects from S3", prefix, outcome.GetError());
             }
+            // the request as a whole succeeds even if single objects could not be deleted
+            if(!outcome.GetResult().GetErrors().empty()) {
+                throw std::runtime_error("z5: could not delete all objects from S3: " + prefix);
+            }
         }
     }
 
@@ -379,7 +390,7 @@ namespace handle {
             do {
                 auto outcome = client->ListObjectsV2(request);
                 if(!outcome.IsSuccess()) {
-                    break;
+                    throw detail::makeS3Error("could not list objects in S3", bucketPrefix, outcome.GetError());
                 }
                 object_list = outcome.GetResult();
                 for(const auto & common_prefix : object_list.GetCommonPrefixes()) {
-- 
2.43.0


From 105b549f14302dbf8c5337d42faf715dd56c8863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:12 +0000
Subject: [PATCH 13/42] fix: do not guess the zarr format when the metadata of
 an unpickled file cannot be read

---
 src/python/module/z5py/file.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/python/module/z5py/file.py b/src/python/module/z5py/file.py
index 9192344..9808777 100644
--- a/src/python/module/z5py/file.py
+++ b/src/python/module/z5py/file.py
@@ -35,10 +35,7 @@ def _unpickle_file(path, mode_str, dimension_separator):
     obj = File.__new__(File)
     zarr_format = 2
     if handle.is_zarr():
-        try:
-            zarr_format = json.loads(handle.read_metadata()).get('zarr_format', 2)
-        except Exception:
-            pass
+        zarr_format = json.loads(handle.read_metadata()).get('zarr_format', 2)
     Group.__init__(obj, handle, _z5py.Group, parent=obj, name="",
                    dimension_separator=dimension_separator, zarr_format=zarr_format)
     return obj
-- 
2.43.0


From 72fc23ca036f585bc5962c34b5cc6bc7b09fe13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:07 +0000
Subject: [PATCH 14/42] fix: raise when required metadata fields are missing or
 shapes are not lists of extents

---
 include/z5/metadata.hxx    | 30 ++++++++++-----------
 include/z5/types/types.hxx | 53 ++++++++++++++++++++++++--------------
 2 files changed, 49 insertions(+), 34 deletions(-)

diff --git a/include/z5/metadata.hxx b/include/z5/metadata.hxx
index b572004..629b5de 100644
--- a/include/z5/metadata.hxx
+++ b/include/z5/metadata.hxx
@@ -144,14 +144,14 @@ namespace z5 {
         void fromJsonZarr(const nlohmann::json & j) {
             checkJson(j);
             try {
-                dtype = types::Datatypes::zarrToDtype().at(j["dtype"]);
+                dtype = types::Datatypes::zarrToDtype().at(j.at("dtype"));
             } catch(std::out_of_range) {
-                throw std::runtime_error("Unsupported zarr dtype: " + static_cast<std::string>(j["dtype"]));
+                throw std::runtime_error("Unsupported zarr dtype: " + static_cast<std::string>(j.at("dtype")));
             }
-            shape = types::ShapeType(j["shape"].begin(), j["shape"].end());
-            chunkShape = types::ShapeType(j["chunks"].begin(), j["chunks"].end());
+            shape = types::shapeFromJson(j.at("shape"));
+            chunkShape = types::shapeFromJson(j.at("chunks"));
 
-            const auto & fillValJson = j["fill_value"];
+            const auto & fillValJson = j.at("fill_value");
             if(fillValJson.type() == nlohmann::json::value_t::string) {
                 if (fillValJson == "NaN") {
                     fillValue = std::numeric_limits<double>::quiet_NaN();
@@ -175,9 +175,9 @@ namespace z5 {
                 zarrDelimiter = ".";
             }
 
-            const auto & compressionOpts = j["compressor"];
+            const auto & compressionOpts = j.at("compressor");
 
-            std::string zarrCompressorId = compressionOpts.is_null() ? "raw" : compressionOpts["id"];
+            std::string zarrCompressorId = compressionOpts.is_null() ? "raw" : compressionOpts.at("id");
             try {
                 compressor = types::Compressors::zarrToCompressor().at(zarrCompressorId);
             } catch(std::out_of_range) {
@@ -190,13 +190,15 @@ namespace z5 {
 
         void fromJsonN5(const nlohmann::json & j) {
 
-            dtype = types::Datatypes::n5ToDtype().at(j["dataType"]);
+            dtype = types::Datatypes::n5ToDtype().at(j.at("dataType"));
 
             // N5-Axis order: we need to reverse the shape when reading from metadata
-            shape = types::ShapeType(j["dimensions"].rbegin(), j["dimensions"].rend());
+            const auto rshape = types::shapeFromJson(j.at("dimensions"));
+            shape = types::ShapeType(rshape.rbegin(), rshape.rend());
 
             // N5-Axis order: we need to reverse the chunk shape when reading from metadata
-            chunkShape = types::ShapeType(j["blockSize"].rbegin(), j["blockSize"].rend());
+            const auto rchunks = types::shapeFromJson(j.at("blockSize"));
+            chunkShape = types::ShapeType(rchunks.rbegin(), rchunks.rend());
 
             // we need to deal with two different encodings for compression in n5:
             // in the old format, we only have the field 'compressionType', indicating which compressor should be used
@@ -321,11 +323,10 @@ namespace z5 {
             } catch(std::out_of_range) {
                 throw std::runtime_error("Unsupported zarr v3 data_type: " + j.at("data_type").get<std::string>());
             }
-            shape = types::ShapeType(j.at("shape").begin(), j.at("shape").end());
+            shape = types::shapeFromJson(j.at("shape"));
 
             // outer chunk grid (== shard shape when sharded, else inner chunk shape)
-            const auto & gridShape = j.at("chunk_grid").at("configuration").at("chunk_shape");
-            types::ShapeType outerShape(gridShape.begin(), gridShape.end());
+            const auto outerShape = types::shapeFromJson(j.at("chunk_grid").at("configuration").at("chunk_shape"));
 
             // chunk key encoding
             const auto & cke = j.at("chunk_key_encoding");
@@ -363,8 +364,7 @@ namespace z5 {
                 if(c.at("name") == "sharding_indexed") {
                     sharded = true;
                     const auto & scfg = c.at("configuration");
-                    const auto & innerShapeJson = scfg.at("chunk_shape");
-                    chunkShape = types::ShapeType(innerShapeJson.begin(), innerShapeJson.end());
+                    chunkShape = types::shapeFromJson(scfg.at("chunk_shape"));
                     shardShape = outerShape;
                     innerCodecs = &scfg.at("codecs");
                     break;
diff --git a/include/z5/types/types.hxx b/include/z5/types/types.hxx
index b22db3b..0848e11 100644
--- a/include/z5/types/types.hxx
+++ b/include/z5/types/types.hxx
@@ -21,6 +21,21 @@ namespace types {
     // type for array shapes
     typedef std::vector<std::size_t> ShapeType;
 
+    // read a shape from metadata: an array of non-negative integers
+    inline ShapeType shapeFromJson(const nlohmann::json & j) {
+        if(!j.is_array()) {
+            throw std::runtime_error("z5: invalid metadata: shape is not an array");
+        }
+        ShapeType shape;
+        for(const auto & elem : j) {
+            if(!elem.is_number_integer() || (!elem.is_number_unsigned() && elem.get<int64_t>() < 0)) {
+                throw std::runtime_error("z5: invalid metadata: shape entry is not a non-negative integer");
+            }
+            shape.push_back(elem.get<std::size_t>());
+        }
+        return shape;
+    }
+
     //
     // Datatypes
     //
@@ -238,26 +253,26 @@ namespace types {
         std::string codec;
         switch(compressor) {
             #ifdef WITH_BLOSC
-            case blosc: options["codec"] = jOpts["cname"].get<std::string>();
-                        options["level"] = jOpts["clevel"].get<int>();
-                        options["shuffle"] = jOpts["shuffle"].get<int>();
+            case blosc: options["codec"] = jOpts.at("cname").get<std::string>();
+                        options["level"] = jOpts.at("clevel").get<int>();
+                        options["shuffle"] = jOpts.at("shuffle").get<int>();
                         // load blocksize with default value 0
-                        options["blocksize"] = (jOpts.find("blocksize") == jOpts.end()) ? 0 : jOpts["blocksize"].get<int>();
+                        options["blocksize"] = (jOpts.find("blocksize") == jOpts.end()) ? 0 : jOpts.at("blocksize").get<int>();
                         break;
             #endif
             #ifdef WITH_ZLIB
-            case zlib: options["level"] = jOpts["level"].get<int>();
-                       options["useZlib"] = jOpts["id"].get<std::string>() == "zlib";
+            case zlib: options["level"] = jOpts.at("level").get<int>();
+                       options["useZlib"] = jOpts.at("id").get<std::string>() == "zlib";
                        break;
             #endif
             #ifdef WITH_BZIP2
-            case bzip2: options["level"] = jOpts["level"].get<int>(); break;
+            case bzip2: options["level"] = jOpts.at("level").get<int>(); break;
             #endif
             #ifdef WITH_LZ4
-            case lz4: options["level"] = jOpts["acceleration"].get<int>(); break;
+            case lz4: options["level"] = jOpts.at("acceleration").get<int>(); break;
             #endif
             #ifdef WITH_ZSTD
-            case zstd: options["level"] = jOpts["level"].get<int>(); break;
+            case zstd: options["level"] = jOpts.at("level").get<int>(); break;
             #endif
             // raw compression has no parameters
             default: break;
@@ -312,31 +327,31 @@ namespace types {
         std::string codec;
         switch(compressor) {
             #ifdef WITH_ZLIB
-            case zlib: options["level"] = jOpts["level"].get<int>();
+            case zlib: options["level"] = jOpts.at("level").get<int>();
                        options["useZlib"] = false;
                        break;
             #endif
             #ifdef WITH_BZIP2
-            case bzip2: options["level"] = jOpts["blockSize"].get<int>(); break;
+            case bzip2: options["level"] = jOpts.at("blockSize").get<int>(); break;
             #endif
             #ifdef WITH_XZ
-            case xz: options["level"] = jOpts["preset"].get<int>(); break;
+            case xz: options["level"] = jOpts.at("preset").get<int>(); break;
             #endif
             #ifdef WITH_LZ4
-            case lz4: options["level"] = jOpts["blockSize"].get<int>(); break;
+            case lz4: options["level"] = jOpts.at("blockSize").get<int>(); break;
             #endif
             #ifdef WITH_BLOSC
-            case blosc: options["codec"] = jOpts["cname"].get<std::string>();
-                        options["level"] = jOpts["clevel"].get<int>();
-                        options["shuffle"] = jOpts["shuffle"].get<int>();
+            case blosc: options["codec"] = jOpts.at("cname").get<std::string>();
+                        options["level"] = jOpts.at("clevel").get<int>();
+                        options["shuffle"] = jOpts.at("shuffle").get<int>();
                         // load blocksize with default value 0
-                        options["blocksize"] = (jOpts.find("blocksize") == jOpts.end()) ? 0 : jOpts["blocksize"].get<int>();
+                        options["blocksize"] = (jOpts.find("blocksize") == jOpts.end()) ? 0 : jOpts.at("blocksize").get<int>();
                         // load nthreads with default value 1
-                        options["nthreads"] = (jOpts.find("nthreads") == jOpts.end()) ? 1 : jOpts["nthreads"].get<int>();
+                        options["nthreads"] = (jOpts.find("nthreads") == jOpts.end()) ? 1 : jOpts.at("nthreads").get<int>();
                         break;
             #endif
             #ifdef WITH_ZSTD
-            case zstd: options["level"] = jOpts["level"].get<int>(); break;
+            case zstd: options["level"] = jOpts.at("level").get<int>(); break;
             #endif
             // raw compression has no parameters
             default: break;
-- 
2.43.0


From a1175008b0ac0ebca1fe5614e03e016d6a76f4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:07 +0000
Subject: [PATCH 15/42] fix: reject zero chunk extents and shards that do not
 consist of whole chunks

---
 include/z5/metadata.hxx | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/z5/metadata.hxx b/include/z5/metadata.hxx
index 629b5de..4a1e98e 100644
--- a/include/z5/metadata.hxx
+++ b/include/z5/metadata.hxx
@@ -407,6 +407,23 @@ namespace z5 {
             if(shape.size() != chunkShape.size()) {
                 throw std::runtime_error("Dimension of shape and chunks does not agree");
             }
+            for(const auto extent : chunkShape) {
+                if(extent == 0) {
+                    throw std::runtime_error("Chunk extents must be larger than zero");
+                }
+            }
+            if(shardShape.empty()) {
+                return;
+            }
+            // shards consist of whole chunks
+            if(shardShape.size() != chunkShape.size()) {
+                throw std::runtime_error("Dimension of shards and chunks does not agree");
+            }
+            for(std::size_t d = 0; d < shardShape.size(); ++d) {
+                if(shardShape[d] == 0 || shardShape[d] % chunkShape[d] != 0) {
+                    throw std::runtime_error("Shard shape must be a multiple of the chunk shape");
+                }
+            }
         }
 
 
@@ -489,7 +506,7 @@ namespace z5 {
                 throw std::runtime_error("z5::createDatasetMetadata: shard shape and chunk shape dimension mismatch");
             }
             for(std::size_t d = 0; d < shardShape.size(); ++d) {
-                if(shardShape[d] < chunkShape[d] || shardShape[d] % chunkShape[d] != 0) {
+                if(chunkShape[d] == 0 || shardShape[d] < chunkShape[d] || shardShape[d] % chunkShape[d] != 0) {
                     throw std::runtime_error("z5::createDatasetMetadata: shard shape must be a multiple of the chunk shape");
                 }
             }
-- 
2.43.0


From 266a415d49343ee3bc8a0df8cfe651dc079dc3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:15 +0000
Subject: [PATCH 16/42] fix: reject zarr v3 metadata with byte orders, grids,
 key encodings, codecs or shard indexes that are not implemented

---
 include/z5/metadata.hxx    | 28 ++++++++++++++++++++++++++++
 include/z5/types/types.hxx | 11 +++++++++++
 2 files changed, 39 insertions(+)

diff --git a/include/z5/metadata.hxx b/include/z5/metadata.hxx
index 4a1e98e..06665dc 100644
--- a/include/z5/metadata.hxx
+++ b/include/z5/metadata.hxx
@@ -325,12 +325,22 @@ namespace z5 {
             }
             shape = types::shapeFromJson(j.at("shape"));
 
+            if(j.contains("storage_transformers") && !j.at("storage_transformers").empty()) {
+                throw std::runtime_error("z5.DatasetMetadata.fromJsonV3: storage transformers are not supported");
+            }
+            if(j.at("chunk_grid").at("name") != "regular") {
+                throw std::runtime_error("z5.DatasetMetadata.fromJsonV3: only regular chunk grids are supported");
+            }
+
             // outer chunk grid (== shard shape when sharded, else inner chunk shape)
             const auto outerShape = types::shapeFromJson(j.at("chunk_grid").at("configuration").at("chunk_shape"));
 
             // chunk key encoding
             const auto & cke = j.at("chunk_key_encoding");
             chunkKeyEncoding = cke.at("name").get<std::string>();
+            if(chunkKeyEncoding != "default" && chunkKeyEncoding != "v2") {
+                throw std::runtime_error("z5.DatasetMetadata.fromJsonV3: unsupported chunk key encoding: " + chunkKeyEncoding);
+            }
             if(cke.contains("configuration") && cke.at("configuration").contains("separator")) {
                 zarrDelimiter = cke.at("configuration").at("separator").get<std::string>();
             } else {
@@ -363,7 +373,12 @@ namespace z5 {
             for(const auto & c : codecs) {
                 if(c.at("name") == "sharding_indexed") {
                     sharded = true;
+                    // shards are not passed through any other codec
+                    if(codecs.size() != 1) {
+                        throw std::runtime_error("z5.DatasetMetadata.fromJsonV3: codecs next to sharding are not supported");
+                    }
                     const auto & scfg = c.at("configuration");
+                    checkShardIndex(scfg);
                     chunkShape = types::shapeFromJson(scfg.at("chunk_shape"));
                     shardShape = outerShape;
                     innerCodecs = &scfg.at("codecs");
@@ -427,6 +442,19 @@ namespace z5 {
         }
 
 
+        // make sure that the index of zarr v3 shards is encoded in the way we read it
+        static void checkShardIndex(const nlohmann::json & config) {
+            if(config.contains("index_location") && config.at("index_location") != "end") {
+                throw std::runtime_error("z5.DatasetMetadata.fromJsonV3: only shard indexes at the end are supported");
+            }
+            const auto & codecs = config.at("index_codecs");
+            if(codecs.size() != 2 || codecs.at(0).at("name") != "bytes" || codecs.at(1).at("name") != "crc32c") {
+                throw std::runtime_error("z5.DatasetMetadata.fromJsonV3: unsupported codecs for the shard index");
+            }
+            types::checkBytesCodec(codecs.at(0));
+        }
+
+
         // make sure that fixed metadata values agree
         void checkJson(const nlohmann::json & j) {
 
diff --git a/include/z5/types/types.hxx b/include/z5/types/types.hxx
index 0848e11..12b7327 100644
--- a/include/z5/types/types.hxx
+++ b/include/z5/types/types.hxx
@@ -521,6 +521,13 @@ namespace types {
         }
     }
 
+    // values are only stored in little endian byte order
+    inline void checkBytesCodec(const nlohmann::json & codec) {
+        if(codec.contains("configuration") && codec.at("configuration").value("endian", std::string("little")) != "little") {
+            throw std::runtime_error("z5: unsupported byte order for zarr v3");
+        }
+    }
+
     // parse a zarr v3 codec list into a Compressor + CompressionOptions (ignores the ``bytes`` codec)
     inline void readV3CodecsFromJson(const nlohmann::json & jCodecs,
                                      Compressor & compressor,
@@ -529,8 +536,12 @@ namespace types {
         for(const auto & c : jCodecs) {
             const std::string name = c.at("name").get<std::string>();
             if(name == "bytes") {
+                checkBytesCodec(c);
                 continue;
             }
+            if(compressor != raw) {
+                throw std::runtime_error("z5: more than one compressor is not supported for zarr v3");
+            }
             const nlohmann::json cfg = c.contains("configuration") ? c.at("configuration") : nlohmann::json::object();
             if(name == "gzip") {
                 #ifdef WITH_ZLIB
-- 
2.43.0


From 349f051876d951caead07e8142c219871e095cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:07 +0000
Subject: [PATCH 17/42] fix: reject dimension separators that make chunk keys
 ambiguous

---
 include/z5/metadata.hxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/z5/metadata.hxx b/include/z5/metadata.hxx
index 06665dc..8998865 100644
--- a/include/z5/metadata.hxx
+++ b/include/z5/metadata.hxx
@@ -417,8 +417,11 @@ namespace z5 {
 
     private:
 
-        // make sure that shapes agree
+        // make sure that shapes agree and that chunk keys are unambiguous
         void checkShapes() {
+            if(isZarr && zarrDelimiter != "." && zarrDelimiter != "/") {
+                throw std::runtime_error("Invalid dimension separator: has to be '.' or '/'");
+            }
             if(shape.size() != chunkShape.size()) {
                 throw std::runtime_error("Dimension of shape and chunks does not agree");
             }
-- 
2.43.0


From 6fdc975d2cf3835c1f5ba5138118434d0db93552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:47 +0000
Subject: [PATCH 18/42] fix: refuse to create zarr data with a format version
 or chunk key encoding that is not implemented

---
 include/z5/metadata.hxx | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/z5/metadata.hxx b/include/z5/metadata.hxx
index 8998865..905cb86 100644
--- a/include/z5/metadata.hxx
+++ b/include/z5/metadata.hxx
@@ -24,7 +24,11 @@ namespace z5 {
                                       n5Major(2),
                                       n5Minor(0),
                                       n5Patch(0)
-        {}
+        {
+            if(isZarr && zarrFormat != 2 && zarrFormat != 3) {
+                throw std::runtime_error("Invalid Zarr format: Z5 only supports zarr format 2 and 3");
+            }
+        }
         inline std::string n5Format() const {
             return std::to_string(n5Major) + "." + std::to_string(n5Minor) + "." + std::to_string(n5Patch);
         }
@@ -338,9 +342,6 @@ namespace z5 {
             // chunk key encoding
             const auto & cke = j.at("chunk_key_encoding");
             chunkKeyEncoding = cke.at("name").get<std::string>();
-            if(chunkKeyEncoding != "default" && chunkKeyEncoding != "v2") {
-                throw std::runtime_error("z5.DatasetMetadata.fromJsonV3: unsupported chunk key encoding: " + chunkKeyEncoding);
-            }
             if(cke.contains("configuration") && cke.at("configuration").contains("separator")) {
                 zarrDelimiter = cke.at("configuration").at("separator").get<std::string>();
             } else {
@@ -425,6 +426,9 @@ namespace z5 {
             if(shape.size() != chunkShape.size()) {
                 throw std::runtime_error("Dimension of shape and chunks does not agree");
             }
+            if(isZarr && zarrFormat == 3 && chunkKeyEncoding != "default" && chunkKeyEncoding != "v2") {
+                throw std::runtime_error("Unsupported chunk key encoding: " + chunkKeyEncoding);
+            }
             for(const auto extent : chunkShape) {
                 if(extent == 0) {
                     throw std::runtime_error("Chunk extents must be larger than zero");
-- 
2.43.0


From 548c0ec028fde77187e866fd7105f372d1a2bd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:21 +0000
Subject: [PATCH 19/42] fix: write gzip data where the metadata says gzip (n5
 and zarr v3)

---
 include/z5/metadata.hxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/z5/metadata.hxx b/include/z5/metadata.hxx
index 905cb86..3b576e9 100644
--- a/include/z5/metadata.hxx
+++ b/include/z5/metadata.hxx
@@ -531,6 +531,11 @@ namespace z5 {
         auto internalCompressionOptions = compressionOptions;
         types::defaultCompressionOptions(internalCompressor, internalCompressionOptions, createAsZarr);
 
+        // n5 and zarr v3 metadata can only express the gzip encoding
+        if(!(createAsZarr && zarrFormat == 2) && internalCompressionOptions.count("useZlib") > 0) {
+            internalCompressionOptions["useZlib"] = false;
+        }
+
         // sharding is only valid for zarr v3, and the shard shape must be a
         // whole multiple of the (inner) chunk shape along every axis
         if(!shardShape.empty()) {
-- 
2.43.0


From dc46e7daae9034ee670f9618a091aec499b10506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:21 +0000
Subject: [PATCH 20/42] fix: do not drop n5 chunks that equal a fill value
 which n5 does not store

---
 include/z5/metadata.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/z5/metadata.hxx b/include/z5/metadata.hxx
index 3b576e9..241746a 100644
--- a/include/z5/metadata.hxx
+++ b/include/z5/metadata.hxx
@@ -555,7 +555,8 @@ namespace z5 {
         metadata = DatasetMetadata(internalDtype, shape,
                                    chunkShape, createAsZarr,
                                    internalCompressor, internalCompressionOptions,
-                                   fillValue, zarrDelimiter,
+                                   // n5 metadata has no fill value, missing chunks are always zero
+                                   createAsZarr ? fillValue : 0, zarrDelimiter,
                                    zarrFormat, chunkKeyEncoding, shardShape);
     }
 
-- 
2.43.0


From 7ade97d6472ed0d105ab207e61c0c18c069ec2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:21 +0000
Subject: [PATCH 21/42] fix: refuse blosc shuffle values that zarr v3 metadata
 cannot express

---
 include/z5/types/types.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/z5/types/types.hxx b/include/z5/types/types.hxx
index 12b7327..567f4b0 100644
--- a/include/z5/types/types.hxx
+++ b/include/z5/types/types.hxx
@@ -458,6 +458,9 @@ namespace types {
     }
 
     inline std::string bloscShuffleToString(int s) {
+        if(s < 0 || s > 2) {
+            throw std::runtime_error("z5: invalid blosc shuffle: " + std::to_string(s));
+        }
         return s == 0 ? "noshuffle" : (s == 2 ? "bitshuffle" : "shuffle");
     }
     inline int bloscShuffleFromJson(const nlohmann::json & s) {
-- 
2.43.0


From 1d9008b7cd9fc3baf469e23afb576aa2e01b9482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:16 +0000
Subject: [PATCH 22/42] fix: never decode more elements than the caller's chunk
 buffer holds

---
 include/z5/generic/dataset.hxx  |  3 ++-
 include/z5/util/format_data.hxx | 11 ++++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/z5/generic/dataset.hxx b/include/z5/generic/dataset.hxx
index aad84f6..c60b79c 100644
--- a/include/z5/generic/dataset.hxx
+++ b/include/z5/generic/dataset.hxx
@@ -84,7 +84,8 @@ namespace generic {
             }
 
             // format the data
-            const bool is_varlen = util::buffer_to_data<T>(chunk, buffer, dataOut, Mixin::compressor_);
+            const bool is_varlen = util::buffer_to_data<T>(chunk, buffer, dataOut, Mixin::compressor_,
+                                                                 STORE::supportsN5HeaderIO);
 
             return is_varlen;
         }
diff --git a/include/z5/util/format_data.hxx b/include/z5/util/format_data.hxx
index 6f9606c..b31834d 100644
--- a/include/z5/util/format_data.hxx
+++ b/include/z5/util/format_data.hxx
@@ -225,7 +225,8 @@ namespace util {
     inline bool buffer_to_data(const z5::handle::Chunk<CHUNK> & chunk,
                                const std::vector<char> & buffer,
                                void * dataOut,
-                               const COMPRESSOR & compressor) {
+                               const COMPRESSOR & compressor,
+                               const bool allow_varlen=true) {
 
         const bool is_zarr = chunk.isZarr();
         std::size_t chunk_size = chunk.defaultSize();
@@ -234,6 +235,14 @@ namespace util {
 
         if(!is_zarr) {
             is_varlen = read_n5_header(buffer, chunk_size, header_length);
+            // the element count in the header is only used as output size if the caller
+            // knows about it (varlen) or if it agrees with the size of this chunk
+            if(is_varlen && !allow_varlen) {
+                throw std::runtime_error("z5: varlen chunks are not supported by this store");
+            }
+            if(!is_varlen && chunk_size != chunk.size()) {
+                throw std::runtime_error("z5: invalid n5 chunk: unexpected chunk size in header");
+            }
         }
 
         // decode straight past the header (no copy / memmove of the payload)
-- 
2.43.0


From a9e962643e4aec3b67e752a4320c0adaa3431827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:16 +0000
Subject: [PATCH 23/42] fix: refuse varlen chunks before reading them into a
 fixed size buffer

---
 include/z5/multiarray/array_access.hxx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/z5/multiarray/array_access.hxx b/include/z5/multiarray/array_access.hxx
index 70f426c..99355ba 100644
--- a/include/z5/multiarray/array_access.hxx
+++ b/include/z5/multiarray/array_access.hxx
@@ -277,7 +277,11 @@ namespace multiarray {
                                            if(!ds.chunkExists(chunkId)) {
                                                return false;
                                            }
-                                           if(ds.readChunk(chunkId, &buf[0])) {
+                                           // a varlen chunk may hold more elements than the buffer,
+                                           // so it needs to be refused before it is read
+                                           std::size_t storedSize;
+                                           if(ds.checkVarlenChunk(chunkId, storedSize) ||
+                                              ds.readChunk(chunkId, &buf[0])) {
                                                throw std::runtime_error(
                                                    "Can't write to varlen chunks from multiarray");
                                            }
-- 
2.43.0


From d69359cd5d12de842a8c42f5c75fc371699732f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:16 +0000
Subject: [PATCH 24/42] fix: recognise varlen chunks the same way when sizing
 and when reading

---
 include/z5/filesystem/store.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/z5/filesystem/store.hxx b/include/z5/filesystem/store.hxx
index 41f7318..fb46dd5 100644
--- a/include/z5/filesystem/store.hxx
+++ b/include/z5/filesystem/store.hxx
@@ -105,7 +105,8 @@ namespace store_detail {
             checkHeaderRead(file, chunk);
             util::reverseEndiannessInplace(mode);
 
-            if(mode == 0) {
+            // only mode 1 is varlen, same as in util::read_n5_header
+            if(mode != 1) {
                 return false;
             }
 
-- 
2.43.0


From 3532e241b6f62920a381b9b6a6d341fed60d8ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:34 +0000
Subject: [PATCH 25/42] fix: bzip2 cut off sizes beyond 32 bit silently

---
 include/z5/compression/bzip2_compressor.hxx | 22 +++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/include/z5/compression/bzip2_compressor.hxx b/include/z5/compression/bzip2_compressor.hxx
index d80203c..2d7b702 100644
--- a/include/z5/compression/bzip2_compressor.hxx
+++ b/include/z5/compression/bzip2_compressor.hxx
@@ -4,6 +4,9 @@
 
 #include <bzlib.h>
 
+#include <limits>
+#include <stdexcept>
+
 #include "z5/compression/compressor_base.hxx"
 #include "z5/metadata.hxx"
 
@@ -28,8 +31,12 @@ namespace compression {
             // resize the out data
             dataOut.clear();
             // the output buffer must be 1% + 600 bytes larger than the input
-            std::size_t outSize = sizeof(T) * (sizeIn + static_cast<std::size_t>(0.01 * static_cast<float>(sizeIn)));
-            outSize += 600;
+            const std::size_t sizeInBytes = sizeIn * sizeof(T);
+            std::size_t outSize = sizeInBytes + sizeInBytes / 100 + 600;
+            // bzip2 counts bytes in 32 bit: a larger size would be cut off silently
+            if(outSize > std::numeric_limits<unsigned int>::max()) {
+                throw std::runtime_error("z5: chunk is too large for bzip2 compression");
+            }
             dataOut.resize(outSize);
 
             // low - level API
@@ -47,7 +54,7 @@ namespace compression {
             // to the size of the input in bytes
             bzs.next_in = (char*) dataIn;
             bzs.next_out = &dataOut[0];
-            bzs.avail_in = sizeIn * sizeof(T);
+            bzs.avail_in = sizeInBytes;
             bzs.avail_out = outSize;
 
             int ret = BZ2_bzCompress(&bzs, BZ_FINISH);
@@ -66,6 +73,13 @@ namespace compression {
 
         void decompress(const char * dataIn, std::size_t nBytesIn, T * dataOut, std::size_t sizeOut) const {
 
+            // bzip2 counts bytes in 32 bit: a larger size would be cut off silently
+            const std::size_t sizeInBytes = sizeOut * sizeof(T);
+            if(nBytesIn > std::numeric_limits<unsigned int>::max() ||
+               sizeInBytes > std::numeric_limits<unsigned int>::max()) {
+                throw std::runtime_error("z5: chunk is too large for bzip2 decompression");
+            }
+
             // create the bzip2 stream
             bz_stream bzs;
             bzs.opaque = NULL;
@@ -86,7 +100,7 @@ namespace compression {
             bzs.next_out = reinterpret_cast<char *>(dataOut);
 
             bzs.avail_in = nBytesIn;
-            bzs.avail_out = sizeOut * sizeof(T);
+            bzs.avail_out = sizeInBytes;
 
             int ret = BZ2_bzDecompress(&bzs);
             BZ2_bzDecompressEnd(&bzs);
-- 
2.43.0


From 41e93c0e302ef733d33451b4901ea8eb1e39e7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:34 +0000
Subject: [PATCH 26/42] fix: zlib cut off sizes beyond 32 bit silently

---
 include/z5/compression/zlib_compressor.hxx | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/z5/compression/zlib_compressor.hxx b/include/z5/compression/zlib_compressor.hxx
index 74579f0..026a65b 100644
--- a/include/z5/compression/zlib_compressor.hxx
+++ b/include/z5/compression/zlib_compressor.hxx
@@ -9,6 +9,7 @@
 #endif
 
 #include <cstring>
+#include <limits>
 #include <stdexcept>
 #include <string>
 
@@ -148,6 +149,11 @@ namespace compression {
             // directly into it (no 256kb scratch buffer, no per-block vector::insert).
             const std::size_t sizeInBytes = sizeIn * sizeof(T);
             const uLong bound = deflateBound(&zs, sizeInBytes);
+            // zlib counts the available bytes in 32 bit: a larger size would be cut off silently
+            if(sizeInBytes > std::numeric_limits<uInt>::max() || bound > std::numeric_limits<uInt>::max()) {
+                deflateEnd(&zs);
+                throw std::runtime_error("z5: chunk is too large for zlib compression");
+            }
             dataOut.resize(bound);
 
             zs.next_in = (Bytef*) dataIn;
@@ -172,6 +178,13 @@ namespace compression {
 
         void decompress(const char * dataIn, std::size_t nBytesIn, T * dataOut, std::size_t sizeOut) const {
 
+            // zlib counts the available bytes in 32 bit: a larger size would be cut off silently
+            const std::size_t sizeInBytes = sizeOut * sizeof(T);
+            if(nBytesIn > std::numeric_limits<uInt>::max() ||
+               sizeInBytes > std::numeric_limits<uInt>::max()) {
+                throw std::runtime_error("z5: chunk is too large for zlib decompression");
+            }
+
             // open the zlib stream
             z_stream zs;
             memset(&zs, 0, sizeof(zs));
-- 
2.43.0


From 6c6c17cd6d9b6117b5f919a6c42de1b654e6c9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:34 +0000
Subject: [PATCH 27/42] fix: lz4 cut off sizes beyond 32 bit silently

---
 include/z5/compression/lz4_compressor.hxx | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/z5/compression/lz4_compressor.hxx b/include/z5/compression/lz4_compressor.hxx
index 1cefe94..1f2a54e 100644
--- a/include/z5/compression/lz4_compressor.hxx
+++ b/include/z5/compression/lz4_compressor.hxx
@@ -5,6 +5,9 @@
 #include <lz4.h>
 #include <lz4hc.h>
 
+#include <limits>
+#include <stdexcept>
+
 #include "z5/compression/compressor_base.hxx"
 #include "z5/metadata.hxx"
 
@@ -46,8 +49,14 @@ namespace compression {
         }
 
         void decompress(const char * dataIn, std::size_t nBytesIn, T * dataOut, std::size_t sizeOut) const {
+            // LZ4_decompress_safe works on int: a larger size would be cut off silently
+            const std::size_t bytesOut = sizeOut * sizeof(T);
+            if(nBytesIn > static_cast<std::size_t>(std::numeric_limits<int>::max()) ||
+               bytesOut > static_cast<std::size_t>(std::numeric_limits<int>::max())) {
+                throw std::runtime_error("z5: chunk is too large for lz4 decompression");
+            }
             const int compressed = LZ4_decompress_safe(dataIn, (char *) dataOut,
-                                                       nBytesIn, sizeOut * sizeof(T));
+                                                       nBytesIn, bytesOut);
             if(compressed <= 0) {
                 std::string err = "Exception during lz4 decompression: (" + std::to_string(compressed)  + ")";
     		    throw std::runtime_error(err);
-- 
2.43.0


From ec7d3292371f020ee29ea76f952e7b023409b6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:34 +0000
Subject: [PATCH 28/42] fix: n5 chunk header cut off sizes beyond 32 bit
 silently

---
 include/z5/util/format_data.hxx | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/z5/util/format_data.hxx b/include/z5/util/format_data.hxx
index b31834d..724b244 100644
--- a/include/z5/util/format_data.hxx
+++ b/include/z5/util/format_data.hxx
@@ -1,5 +1,9 @@
 #pragma once
 
+#include <cstdint>
+#include <limits>
+#include <stdexcept>
+
 #include "z5/handle.hxx"
 
 namespace z5 {
@@ -20,7 +24,17 @@ namespace util {
 
 
     inline void write_n5_header(std::vector<char> & buffer, const types::ShapeType & shape,
-                                const bool isVarlen, const uint32_t varlen) {
+                                const bool isVarlen, const std::size_t varlen) {
+
+        // the header stores sizes in 32 bit: a larger size would be cut off silently
+        for(const std::size_t s : shape) {
+            if(s > std::numeric_limits<uint32_t>::max()) {
+                throw std::runtime_error("z5: chunk is too large for the n5 format");
+            }
+        }
+        if(isVarlen && varlen > std::numeric_limits<uint32_t>::max()) {
+            throw std::runtime_error("z5: chunk is too large for the n5 format");
+        }
 
         const unsigned ndim = shape.size();
         buffer.resize((ndim + 1) * 4);
-- 
2.43.0


From c96fa39ebe8c8590e41155c939c15597a2f42b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:34 +0000
Subject: [PATCH 29/42] fix: parallel_foreach computed the work per task in
 float and int

---
 include/z5/util/threadpool.hxx | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/z5/util/threadpool.hxx b/include/z5/util/threadpool.hxx
index 4aedd4f..199dc8d 100644
--- a/include/z5/util/threadpool.hxx
+++ b/include/z5/util/threadpool.hxx
@@ -350,8 +350,9 @@ inline void parallel_foreach_impl(
     std::ptrdiff_t workload = std::distance(iter, end);
 
     // NIFTY_CHECK(workload == nItems || nItems == 0, "parallel_foreach(): Mismatch between num items and begin/end.");
-    const float workPerThread = float(workload)/pool.nThreads();
-    const std::ptrdiff_t chunkedWorkPerThread = (std::max<std::ptrdiff_t>)(int(workPerThread/3.0f + 0.5f), 1);
+    // a third of the work of each thread, rounded
+    const std::ptrdiff_t nParts = 3 * static_cast<std::ptrdiff_t>(pool.nThreads());
+    const std::ptrdiff_t chunkedWorkPerThread = (std::max<std::ptrdiff_t>)((workload + nParts / 2) / nParts, 1);
 
     std::vector<std::future<void> > futures;
     while(iter<end)
@@ -393,8 +394,9 @@ inline void parallel_foreach_impl(
         nItems = std::distance(iter, end);
 
     std::ptrdiff_t workload = nItems;
-    const float workPerThread = float(workload)/pool.nThreads();
-    const std::ptrdiff_t chunkedWorkPerThread = (std::max<std::ptrdiff_t>)(int(workPerThread/3.0f+0.5f), 1);
+    // a third of the work of each thread, rounded
+    const std::ptrdiff_t nParts = 3 * static_cast<std::ptrdiff_t>(pool.nThreads());
+    const std::ptrdiff_t chunkedWorkPerThread = (std::max<std::ptrdiff_t>)((workload + nParts / 2) / nParts, 1);
 
     std::vector<std::future<void> > futures;
     for(;;)
-- 
2.43.0


From 0d817dc99af2eb7c599d60d0091787ad37d050e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:34 +0000
Subject: [PATCH 30/42] fix: parallel_foreach did not compile for forward
 iterators

---
 include/z5/util/threadpool.hxx | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/z5/util/threadpool.hxx b/include/z5/util/threadpool.hxx
index 199dc8d..7dfadb2 100644
--- a/include/z5/util/threadpool.hxx
+++ b/include/z5/util/threadpool.hxx
@@ -390,10 +390,7 @@ inline void parallel_foreach_impl(
     F && f,
     std::forward_iterator_tag
 ){
-    if (nItems == 0)
-        nItems = std::distance(iter, end);
-
-    std::ptrdiff_t workload = nItems;
+    std::ptrdiff_t workload = nItems == 0 ? std::distance(iter, end) : nItems;
     // a third of the work of each thread, rounded
     const std::ptrdiff_t nParts = 3 * static_cast<std::ptrdiff_t>(pool.nThreads());
     const std::ptrdiff_t chunkedWorkPerThread = (std::max<std::ptrdiff_t>)((workload + nParts / 2) / nParts, 1);
-- 
2.43.0


From e804df6ecbe4c1e39692c55f5b714ec59cfb6dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:08 +0000
Subject: [PATCH 31/42] fix: the index -size was not recognised as the first
 element

---
 src/python/module/z5py/shape_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/module/z5py/shape_utils.py b/src/python/module/z5py/shape_utils.py
index 99c2ea2..fe2cd1f 100644
--- a/src/python/module/z5py/shape_utils.py
+++ b/src/python/module/z5py/shape_utils.py
@@ -41,7 +41,7 @@ def slice_to_start_stop(s, size):
 def int_to_start_stop(i, size):
     """For a single dimension with a given size, turn an int into slice(start, stop)
     pair."""
-    if -size < i < 0:
+    if -size <= i < 0:
         start = i + size
     elif i >= size or i < -size:
         raise ValueError('Index ({}) out of range (0-{})'.format(i, size - 1))
-- 
2.43.0


From 3e8a3e51e14752be98c767fb5be20553ab26b31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:08 +0000
Subject: [PATCH 32/42] fix: indices that are no integers were silently rounded

---
 src/python/module/z5py/shape_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/module/z5py/shape_utils.py b/src/python/module/z5py/shape_utils.py
index fe2cd1f..ce4df35 100644
--- a/src/python/module/z5py/shape_utils.py
+++ b/src/python/module/z5py/shape_utils.py
@@ -160,7 +160,7 @@ def normalize_slices(slices, shape):
         d = len(normalized)
         if isinstance(item, slice):
             normalized.append(slice_to_start_stop(item, shape[d]))
-        elif isinstance(item, numbers.Number):
+        elif isinstance(item, numbers.Integral) and not isinstance(item, bool):
             squeeze.append(d)
             normalized.append(int_to_start_stop(int(item), shape[d]))
         elif isinstance(item, type(Ellipsis)):
-- 
2.43.0


From 877680c02fea3ec7ba638ea3589f9d97ddf5d91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:08 +0000
Subject: [PATCH 33/42] fix: read_direct and write_direct ignored parts of the
 selection

---
 src/python/module/z5py/dataset.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/python/module/z5py/dataset.py b/src/python/module/z5py/dataset.py
index 6a4c245..2d4218e 100644
--- a/src/python/module/z5py/dataset.py
+++ b/src/python/module/z5py/dataset.py
@@ -578,9 +578,7 @@ class Dataset:
             source_sel = tuple(slice(0, sh) for sh in self.shape)
         if dest_sel is None:
             dest_sel = tuple(slice(0, sh) for sh in dest.shape)
-        start = [s.start for s in source_sel]
-        stop = [s.stop for s in source_sel]
-        dest[dest_sel] = self.read_subarray(start, stop)
+        dest[dest_sel] = self[source_sel]
 
     def write_direct(self, source, source_sel=None, dest_sel=None):
         """ Write to the dataset from ``source`` (h5py-compatible wrapper around ``write_subarray``).
@@ -599,8 +597,13 @@ class Dataset:
             dest_sel = tuple(slice(0, sh) for sh in self.shape)
         if source_sel is None:
             source_sel = tuple(slice(0, sh) for sh in source.shape)
-        start = [s.start for s in dest_sel]
-        self.write_subarray(start, source[source_sel])
+        roi_begin, shape, _ = self.index_to_roi(dest_sel)
+        data = source[source_sel]
+        if tuple(data.shape) != shape:
+            raise ValueError("Shape {} of the data does not match the selected shape {}".format(data.shape, shape))
+        if 0 in shape:
+            return
+        self.write_subarray(roi_begin, data)
 
     # expose the impl write subarray functionality
     def write_subarray(self, start, data):
-- 
2.43.0


From 14153a0cdbb67b58fcfe66793f346dfdc1c89d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:55 +0000
Subject: [PATCH 34/42] fix: blosc level and the choice between zlib and gzip
 did not reach the codec

---
 src/python/module/z5py/dataset.py | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/python/module/z5py/dataset.py b/src/python/module/z5py/dataset.py
index 2d4218e..58b92a1 100644
--- a/src/python/module/z5py/dataset.py
+++ b/src/python/module/z5py/dataset.py
@@ -47,6 +47,17 @@ COMPRESSORS_N5 = ('raw', 'blosc', 'gzip', 'bzip2', 'xz', 'lz4', 'zstd')
 COMPRESSORS_ZARR_V3 = ('raw', 'gzip', 'blosc', 'zstd')
 
 
+def _rename_clevel(compression, compression_options):
+    # blosc calls its compression level 'clevel', the native layer knows only 'level'
+    if compression != 'blosc' or 'clevel' not in compression_options:
+        return compression_options
+    if 'level' in compression_options:
+        raise RuntimeError("Only one of level and clevel can be given")
+    compression_options = dict(compression_options)
+    compression_options['level'] = compression_options.pop('clevel')
+    return compression_options
+
+
 class Dataset:
     """ Dataset for access to data on disc.
 
@@ -109,11 +120,11 @@ class Dataset:
     @staticmethod
     def _to_zarr_compression_options(compression, compression_options):
         if compression == 'blosc':
-            default_opts = {'codec': 'lz4', 'clevel': 5, 'shuffle': 1, 'blocksize': 0}
+            default_opts = {'codec': 'lz4', 'level': 5, 'shuffle': 1, 'blocksize': 0}
         elif compression == 'zlib':
-            default_opts = {'id': 'zlib', 'level': 5}
+            default_opts = {'level': 5}
         elif compression == 'gzip':
-            default_opts = {'id': 'gzip', 'level': 5}
+            default_opts = {'level': 5}
         elif compression == 'bzip2':
             default_opts = {'level': 5}
         elif compression == 'lz4':
@@ -126,6 +137,7 @@ class Dataset:
             raise RuntimeError("Compression %s is not supported in zarr format" % compression)
 
         # check for invalid options
+        compression_options = _rename_clevel(compression, compression_options)
         extra_args = set(compression_options) - set(default_opts)
         if extra_args:
             raise RuntimeError("Invalid options for %s compression: %s" % (compression, ' '.join(list(extra_args))))
@@ -136,6 +148,9 @@ class Dataset:
 
         # update the default options
         default_opts.update(compression_options)
+        # zlib and gzip share one compressor in the native layer
+        if compression in ('zlib', 'gzip'):
+            default_opts['useZlib'] = compression == 'zlib'
         return default_opts
 
     @staticmethod
@@ -146,7 +161,7 @@ class Dataset:
         if compression == 'blosc':
             default_opts = {'codec': 'lz4', 'level': 5, 'shuffle': 1, 'blocksize': 0}
         elif compression == 'gzip':
-            default_opts = {'level': 5, 'useZlib': False}
+            default_opts = {'level': 5}
         elif compression == 'zstd':
             default_opts = {'level': 3}
         elif compression == 'raw':
@@ -155,6 +170,7 @@ class Dataset:
             raise RuntimeError("Compression %s is not supported in zarr v3 format" % compression)
 
         # check for invalid options
+        compression_options = _rename_clevel(compression, compression_options)
         extra_args = set(compression_options) - set(default_opts)
         if extra_args:
             raise RuntimeError("Invalid options for %s compression: %s" % (compression, ' '.join(list(extra_args))))
@@ -163,6 +179,8 @@ class Dataset:
             return {}
 
         default_opts.update(compression_options)
+        if compression == 'gzip':
+            default_opts['useZlib'] = False
         return default_opts
 
     @staticmethod
@@ -178,13 +196,14 @@ class Dataset:
         elif compression == 'lz4':
             default_opts = {'level': 6}
         elif compression == 'blosc':
-            default_opts = {'codec': 'lz4', 'clevel': 5, 'shuffle': 1, 'blocksize': 0, 'nthreads': 1}
+            default_opts = {'codec': 'lz4', 'level': 5, 'shuffle': 1, 'blocksize': 0, 'nthreads': 1}
         elif compression == 'zstd':
             default_opts = {'level': 3}
         else:
             raise RuntimeError("Compression %s is not supported in n5 format" % compression)
 
         # check for invalid options
+        compression_options = _rename_clevel(compression, compression_options)
         extra_args = set(compression_options) - set(default_opts)
         if extra_args:
             raise RuntimeError("Invalid options for %s compression: %s" % (compression, ' '.join(list(extra_args))))
-- 
2.43.0


From f26ce1bd97f0fe583d6ffa9e98431951679d9963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:55 +0000
Subject: [PATCH 35/42] fix: the level of lz4 was ignored

---
 include/z5/compression/lz4_compressor.hxx | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/z5/compression/lz4_compressor.hxx b/include/z5/compression/lz4_compressor.hxx
index 1f2a54e..50d1f46 100644
--- a/include/z5/compression/lz4_compressor.hxx
+++ b/include/z5/compression/lz4_compressor.hxx
@@ -36,10 +36,12 @@ namespace compression {
             }
             const int outSize = LZ4_compressBound(bytesIn);
             dataOut.resize(outSize);
-            const int compressed = LZ4_compress_default((const char *) dataIn,
-                                                        &dataOut[0],
-                                                        bytesIn,
-                                                        outSize);
+            // the level is the acceleration factor of lz4
+            const int compressed = LZ4_compress_fast((const char *) dataIn,
+                                                     &dataOut[0],
+                                                     bytesIn,
+                                                     outSize,
+                                                     level_);
             if(compressed <= 0) {
                 std::string err = "Exception during lz4 compression: (" + std::to_string(compressed)  + ")";
     		    throw std::runtime_error(err);
-- 
2.43.0


From 20a0b99000125f771b8aafb541f8f3fbc069971a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:05 +0000
Subject: [PATCH 36/42] fix: compression options beyond the range of int were
 replaced by other values

---
 include/z5/types/types.hxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/z5/types/types.hxx b/include/z5/types/types.hxx
index 567f4b0..a9f2be8 100644
--- a/include/z5/types/types.hxx
+++ b/include/z5/types/types.hxx
@@ -6,6 +6,7 @@
 #include <map>
 #include <variant>
 #include <complex>
+#include <limits>
 
 #include "nlohmann/json.hpp"
 
@@ -586,6 +587,11 @@ namespace types {
             if(val.type() == nlohmann::json::value_t::boolean) {
                 opts[key] = static_cast<bool>(val);
             } else if (val.type() == nlohmann::json::value_t::number_integer || val.type() == nlohmann::json::value_t::number_unsigned) {
+                // a value that does not fit would be replaced by some other value
+                const double num = val.get<double>();
+                if(num < std::numeric_limits<int>::min() || num > std::numeric_limits<int>::max()) {
+                    throw std::runtime_error("z5: value of compression option " + key + " is out of range");
+                }
                 opts[key] = static_cast<int>(val);
             } else if (val.type() == nlohmann::json::value_t::string) {
                 // msvc does not like the static cast here ....
-- 
2.43.0


From c094c70b46a418a342599c47f0b160a188676ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:57 +0000
Subject: [PATCH 37/42] fix: refuse raw chunks that are shorter than expected

---
 include/z5/util/format_data.hxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/z5/util/format_data.hxx b/include/z5/util/format_data.hxx
index 724b244..176264b 100644
--- a/include/z5/util/format_data.hxx
+++ b/include/z5/util/format_data.hxx
@@ -157,10 +157,10 @@ namespace util {
                            const std::size_t data_size, const COMPRESSOR & compressor) {
         // we don't need to decompress for raw compression
         if(compressor->type() == 0) {
-            // bound the copy by the output capacity: a corrupt chunk (or corrupt shard
-            // slot length) must not overflow the caller's buffer
-            if(nBytes > data_size * sizeof(T)) {
-                throw std::runtime_error("z5: raw chunk is larger than the expected chunk size");
+            // a corrupt chunk (or corrupt shard slot length) must neither overflow the
+            // caller's buffer nor leave a part of it as it was
+            if(nBytes != data_size * sizeof(T)) {
+                throw std::runtime_error("z5: raw chunk does not have the expected chunk size");
             }
             // mem-copy the binary data that was read to typed out data
             memcpy((T*) dataOut, buffer, nBytes);
-- 
2.43.0


From be0d35a022e0671d2819ec9d6d4b995c8b37cd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:06 +0000
Subject: [PATCH 38/42] fix: read the chunk key configuration of the dataset
 itself on opening

A dataset in a directory without group metadata was opened with the default
separator (and Zarr format 2), so that existing chunks were not found.
---
 include/z5/factory.hxx | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/z5/factory.hxx b/include/z5/factory.hxx
index 7c324f9..202494b 100644
--- a/include/z5/factory.hxx
+++ b/include/z5/factory.hxx
@@ -67,9 +67,7 @@ namespace z5 {
         // check if this is a s3 group
         #ifdef WITH_S3
         if(root.isS3()) {
-            if(root.isZarr()) {
-                s3::getZarrChunkConfig(root, key, zarrDelimiter, zarrFormat, chunkKeyEncoding);
-            }
+            s3::getZarrChunkConfig(root, key, zarrDelimiter, zarrFormat, chunkKeyEncoding);
             s3::handle::Dataset ds(root, key, zarrDelimiter, zarrFormat, chunkKeyEncoding);
             return s3::openDataset(ds);
         }
@@ -82,9 +80,8 @@ namespace z5 {
         }
         #endif
 
-        if(root.isZarr()) {
-            factory_detail::getZarrChunkConfig(root.path(), key, zarrDelimiter, zarrFormat, chunkKeyEncoding);
-        }
+        // what is stored for the dataset decides, the group may not have any metadata
+        factory_detail::getZarrChunkConfig(root.path(), key, zarrDelimiter, zarrFormat, chunkKeyEncoding);
         filesystem::handle::Dataset ds(root, key, zarrDelimiter, zarrFormat, chunkKeyEncoding);
         return filesystem::openDataset(ds);
     }
-- 
2.43.0


From 87550aca12891cc776c7991251656bda6061aa02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:21 +0000
Subject: [PATCH 39/42] fix: writing the metadata of an N5 dataset keeps its
 user attributes

---
 include/z5/generic/metadata.hxx | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/z5/generic/metadata.hxx b/include/z5/generic/metadata.hxx
index c2c1235..cd9951b 100644
--- a/include/z5/generic/metadata.hxx
+++ b/include/z5/generic/metadata.hxx
@@ -78,7 +78,20 @@ namespace generic {
         }
         nlohmann::json j;
         metadata.toJson(j);
-        io.writePretty(metadata.isZarr ? ".zarray" : "attributes.json", j);
+        if(metadata.isZarr) {
+            io.writePretty(".zarray", j);
+            return;
+        }
+        // n5 stores attributes and metadata in the same file,
+        // so we need to make sure that we don't overwrite attributes
+        // (read leaves jOut untouched if there are none)
+        nlohmann::json jOut;
+        if(io.read("attributes.json", jOut)) {
+            // "compression" supersedes the key of the old format
+            jOut.erase("compressionType");
+        }
+        jOut.update(j);
+        io.writePretty("attributes.json", jOut);
     }
 
 }
-- 
2.43.0


From 48b69da9f96751db63e584b778df8578a05b465a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:47:41 +0000
Subject: [PATCH 40/42] fix: names with a leading slash must not leave the
 container

---
 src/python/module/z5py/group.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/python/module/z5py/group.py b/src/python/module/z5py/group.py
index cb30dbf..b5ba4ea 100644
--- a/src/python/module/z5py/group.py
+++ b/src/python/module/z5py/group.py
@@ -146,7 +146,7 @@ class Group(Mapping):
         Returns:
             bool: True if ``name`` refers to a sub-group.
         """
-        return self._handle.is_sub_group(name)
+        return self._handle.is_sub_group(name.lstrip('/'))
 
     def create_group(self, name):
         """ Create a new group.
@@ -164,6 +164,7 @@ class Group(Mapping):
             raise ValueError("Cannot create group with read-only permissions.")
         if name in self:
             raise KeyError("An object with name %s already exists" % name)
+        name = name.strip('/')
         handle = _z5py.create_group(self._handle, name, self._zarr_format)
         return Group(handle, self._handle_factory, self, self._name + '/' + name,
                      self._dimension_separator, self._zarr_format)
@@ -180,6 +181,7 @@ class Group(Mapping):
         Returns:
             ``Group``: group of the requested name.
         """
+        name = name.strip('/')
         if name in self:
             if not self.is_sub_group(name):
                 raise TypeError("Incompatible object (Dataset) already exists")
@@ -237,7 +239,7 @@ class Group(Mapping):
             raise KeyError("Dataset %s is already existing." % name)
 
         # For nested paths, create intermediate groups with proper metadata
-        parts = name.lstrip('/').split('/')
+        parts = name.strip('/').split('/')
         if len(parts) > 1:
             group = self
             for part in parts[:-1]:
@@ -249,7 +251,7 @@ class Group(Mapping):
                                         chunk_key_encoding=chunk_key_encoding,
                                         **compression_options)
 
-        return Dataset._create_dataset(self, name, shape, dtype,
+        return Dataset._create_dataset(self, parts[-1], shape, dtype,
                                        data, chunks, compression,
                                        fillvalue, n_threads,
                                        compression_options,
@@ -282,7 +284,7 @@ class Group(Mapping):
         """
         # NOTE write permissions are only required if the dataset does not exist;
         # _require_dataset checks this on its creation path
-        return Dataset._require_dataset(self, name, shape, dtype, chunks,
+        return Dataset._require_dataset(self, name.strip('/'), shape, dtype, chunks,
                                         n_threads, dimension_separator=self._dimension_separator,
                                         zarr_format=self._zarr_format, **kwargs)
 
-- 
2.43.0


From 3622ae8a338e85fa8ce5627f6619942c41498ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:48:14 +0000
Subject: [PATCH 41/42] fix: create the groups above a nested group or dataset

---
 src/python/module/z5py/dataset.py | 4 ++++
 src/python/module/z5py/group.py   | 7 +++++++
 2 files changed, 11 insertions(+)

diff --git a/src/python/module/z5py/dataset.py b/src/python/module/z5py/dataset.py
index 58b92a1..bbc208b 100644
--- a/src/python/module/z5py/dataset.py
+++ b/src/python/module/z5py/dataset.py
@@ -250,6 +250,10 @@ class Dataset:
             # (matching h5py)
             if not ghandle.mode().can_write():
                 raise ValueError("Cannot create dataset with read-only permissions.")
+            # the groups above are part of the hierarchy and need metadata of their own
+            parent, _, name = name.rpartition('/')
+            if parent:
+                group = group.require_group(parent)
             # pop all kwargs that are not compression options
             data = kwargs.pop('data', None)
             compression = kwargs.pop('compression', None)
diff --git a/src/python/module/z5py/group.py b/src/python/module/z5py/group.py
index b5ba4ea..9844970 100644
--- a/src/python/module/z5py/group.py
+++ b/src/python/module/z5py/group.py
@@ -165,6 +165,10 @@ class Group(Mapping):
         if name in self:
             raise KeyError("An object with name %s already exists" % name)
         name = name.strip('/')
+        # the groups above are part of the hierarchy and need metadata of their own
+        parent, _, leaf = name.rpartition('/')
+        if parent:
+            return self.require_group(parent).create_group(leaf)
         handle = _z5py.create_group(self._handle, name, self._zarr_format)
         return Group(handle, self._handle_factory, self, self._name + '/' + name,
                      self._dimension_separator, self._zarr_format)
@@ -189,6 +193,9 @@ class Group(Mapping):
         else:
             if not self._handle.mode().can_write():
                 raise ValueError("Cannot create group with read-only permissions.")
+            parent, _, leaf = name.rpartition('/')
+            if parent:
+                return self.require_group(parent).require_group(leaf)
             handle = _z5py.create_group(self._handle, name, self._zarr_format)
         return Group(handle, self._handle_factory, self, self._name + '/' + name,
                      self._dimension_separator, self._zarr_format)
-- 
2.43.0


From 39eb0eab0d5e3faea6ac4b599de7ebec6b208d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:48:14 +0000
Subject: [PATCH 42/42] fix: require_dataset accepts the chunks the dataset was
 created with

---
 src/python/module/z5py/dataset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/python/module/z5py/dataset.py b/src/python/module/z5py/dataset.py
index bbc208b..ee08db5 100644
--- a/src/python/module/z5py/dataset.py
+++ b/src/python/module/z5py/dataset.py
@@ -236,7 +236,9 @@ class Dataset:
                 raise TypeError("Shapes do not match (existing (%s) vs new (%s))" % (', '.join(map(str, ds.shape)),
                                                                                      ', '.join(map(str, shape))))
             if chunks is not None:
-                if chunks != ds.chunks:
+                # chunks larger than the shape are limited to it at creation
+                limited = tuple(min(ch, sh) for ch, sh in zip(chunks, shape))
+                if chunks != ds.chunks and (len(chunks) != len(shape) or limited != ds.chunks):
                     raise TypeError("Chunks do not match (existing (%s) vs new (%s))" % (', '.join(map(str, ds.chunks)),
                                                                                          ', '.join(map(str, chunks))))
             if dtype is not None:
-- 
2.43.0

