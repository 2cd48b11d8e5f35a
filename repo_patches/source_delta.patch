From 72b4aa2cd5f057323d988d4f6a911d9aef8d277f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:03 +0000
Subject: [PATCH 01/30] fix: chunked calls return the first error and use
 size_t offsets

---
 src/common/trivial_chunked.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/trivial_chunked.h b/src/common/trivial_chunked.h
index e69c43a..f78592d 100644
--- a/src/common/trivial_chunked.h
+++ b/src/common/trivial_chunked.h
@@ -13,7 +13,7 @@ int chunked_compress_func(size_t numchunks, int *rets, \
 			  const uint8_t *in, size_t istride, const size_t *ilens, \
 			  uint8_t *out, size_t ostride, size_t *olens) { \
 	int ret = 0; \
-	for (unsigned int i = 0, soffset = 0, doffset = 0; \
+	for (size_t i = 0, soffset = 0, doffset = 0; \
 	     i < numchunks; \
 	     i++, soffset += istride, doffset += ostride) { \
 		if (ilens[i] == SIZE_MAX) \
@@ -25,7 +25,7 @@ int chunked_compress_func(size_t numchunks, int *rets, \
 			ret = rets[i]; \
 	} \
  \
-	return 0; \
+	return ret; \
 }
 
 #define LIB842_DEFINE_TRIVIAL_CHUNKED_DECOMPRESS LIB842_DEFINE_TRIVIAL_CHUNKED_COMPRESS
-- 
2.43.0


From 52534f6b4b441a23c65bfb1a9b2e6080384f1771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:03 +0000
Subject: [PATCH 02/30] fix: optsw842_compress sets *olen to 0 when it rejects
 the input length

---
 src/serial_optimized/842_compress.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/serial_optimized/842_compress.cpp b/src/serial_optimized/842_compress.cpp
index c790a4a..9e9e242 100644
--- a/src/serial_optimized/842_compress.cpp
+++ b/src/serial_optimized/842_compress.cpp
@@ -574,6 +574,7 @@ int optsw842_compress(const uint8_t *in, size_t ilen,
 		fprintf(stderr,
 			"Can only compress multiples of 8 bytes, but len is len %zu (%% 8 = %zu)\n",
 			ilen, ilen % 8);
+		*olen = 0;
 		return -EINVAL;
 	}
 
-- 
2.43.0


From b7b61b331ef9d856f0fd03e7c14b816f5b90a2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:03 +0000
Subject: [PATCH 03/30] fix: optsw842_compress does not read from an empty
 input buffer

---
 src/serial_optimized/842_compress.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serial_optimized/842_compress.cpp b/src/serial_optimized/842_compress.cpp
index 9e9e242..11cb650 100644
--- a/src/serial_optimized/842_compress.cpp
+++ b/src/serial_optimized/842_compress.cpp
@@ -607,7 +607,7 @@ int optsw842_compress(const uint8_t *in, size_t ilen,
 		*olen = 0;
 
 		/* make initial 'last' different so we don't match the first time */
-		last = ~read64(p->in);
+		last = ilen > 0 ? ~read64(p->in) : 0;
 
 		while (p->ilen > 7) {
 			next = read64(p->in);
-- 
2.43.0


From 6ed6a6cb9d49b35ddca15e91d9247557fea7acfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:03 +0000
Subject: [PATCH 04/30] fix: sw842_decompress rejects a repeat with less than 8
 bytes written

---
 src/serial/842_decompress.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serial/842_decompress.c b/src/serial/842_decompress.c
index 580b9ba..fc9f479 100644
--- a/src/serial/842_decompress.c
+++ b/src/serial/842_decompress.c
@@ -328,7 +328,7 @@ int sw842_decompress(const uint8_t *in, size_t ilen,
 			if (ret)
 				return ret;
 
-			if (p.out == out) /* no previous bytes */
+			if (p.out - p.ostart < 8) /* no previous 8 bytes */
 				return -EINVAL;
 
 			/* copy rep + 1 */
-- 
2.43.0


From 131336be1bd8830b00d89e7d229bc3330feac233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:02 +0000
Subject: [PATCH 05/30] fix: Block::get_chunk asserts that the source of an
 uncompressed chunk is set

---
 include/lib842/stream/block.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lib842/stream/block.h b/include/lib842/stream/block.h
index 9790384..5339b45 100644
--- a/include/lib842/stream/block.h
+++ b/include/lib842/stream/block.h
@@ -50,7 +50,7 @@ struct Block {
 		if (sizes[chunk_no] == 0) // Chunk not present ('gap')
 			return nullptr;
 		if (sizes[chunk_no] == CHUNK_SIZE) { // Uncompressible chunk - read from source
-			assert(source == nullptr);
+			assert(source != nullptr);
 			return static_cast<const uint8_t *>(source) + chunk_no * CHUNK_SIZE;
 		}
 		return chunk_buffer.get() + chunk_no * chunk_padding;
-- 
2.43.0


From 482dc290e5b789b4041dc8d9c39716f0f5bfc8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:24 +0000
Subject: [PATCH 06/30] fix: DataDecompressionStream reports chunks that do not
 decompress to a whole chunk as an error

---
 src/stream/DataDecompressionStream.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/stream/DataDecompressionStream.cpp b/src/stream/DataDecompressionStream.cpp
index 03aaf73..f347fac 100644
--- a/src/stream/DataDecompressionStream.cpp
+++ b/src/stream/DataDecompressionStream.cpp
@@ -211,6 +211,7 @@ bool DataDecompressionStream::handle_block(const Block &block,
 					   stats_per_thread_t &stats) const {
 	std::array<int, NUM_CHUNKS_PER_BLOCK> chunk_rets;
 	std::array<size_t, NUM_CHUNKS_PER_BLOCK> input_chunk_sizes, output_chunk_sizes;
+	chunk_rets.fill(0);
 	output_chunk_sizes.fill(CHUNK_SIZE);
 
 	for (size_t i = 0; i < NUM_CHUNKS_PER_BLOCK; i++) {
@@ -248,8 +249,8 @@ bool DataDecompressionStream::handle_block(const Block &block,
 #endif
 
 	for (size_t i = 0; i < NUM_CHUNKS_PER_BLOCK; i++) {
-		assert(chunk_rets[i] == 0);
-		assert(output_chunk_sizes[i] == CHUNK_SIZE);
+		if (chunk_rets[i] != 0 || output_chunk_sizes[i] != CHUNK_SIZE)
+			return false;
 	}
 
 	return true;
-- 
2.43.0


From 88a2bc4b962eef941b7d2f0d075e4bb7fb38722f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:30 +0000
Subject: [PATCH 07/30] fix: streams read the quit flag outside the mutex, make
 it atomic

---
 include/lib842/stream/comp.h   | 2 +-
 include/lib842/stream/decomp.h | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/lib842/stream/comp.h b/include/lib842/stream/comp.h
index c545dc5..0140b8c 100644
--- a/include/lib842/stream/comp.h
+++ b/include/lib842/stream/comp.h
@@ -112,7 +112,7 @@ private:
 	detail::barrier _finalize_barrier;
 
 	// If set to true, causes the compression threads to quit (for cleanup)
-	bool _quit;
+	std::atomic<bool> _quit;
 
 	unsigned _offset_sync_epoch_multiple_log2;
 };
diff --git a/include/lib842/stream/decomp.h b/include/lib842/stream/decomp.h
index 7b8d808..fb1e453 100644
--- a/include/lib842/stream/decomp.h
+++ b/include/lib842/stream/decomp.h
@@ -18,6 +18,7 @@
 #include <condition_variable>
 #include <mutex>
 #include <thread>
+#include <atomic>
 
 #include <vector>
 #include <queue>
@@ -110,7 +111,7 @@ private:
 	detail::barrier _finalize_barrier;
 
 	// If set to true, causes the decompression threads to quit (for cleanup)
-	bool _quit;
+	std::atomic<bool> _quit;
 };
 
 } // namespace stream
-- 
2.43.0


From c5b629d9cec13d12fb6aff2fcfa3493237fcc29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:35 +0000
Subject: [PATCH 08/30] fix: a stopped compression stream does not send a block
 ahead of the previous epoch

---
 src/stream/DataCompressionStream.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/stream/DataCompressionStream.cpp b/src/stream/DataCompressionStream.cpp
index 741be08..e578666 100644
--- a/src/stream/DataCompressionStream.cpp
+++ b/src/stream/DataCompressionStream.cpp
@@ -128,6 +128,7 @@ void DataCompressionStream::loop_compress_thread(size_t thread_id) {
 		auto last_valid_offset = _size & ~(BLOCK_SIZE-1);
 		while (true) {
 			size_t offset = _current_offset.fetch_add(BLOCK_SIZE);
+			bool interrupted = false;
 
 			// If (last_offset / _offset_sync_epoch_multiple) and (offset / _offset_sync_epoch_multiple)
 			// are different, stop compressing until all threads are on the same level
@@ -136,11 +137,17 @@ void DataCompressionStream::loop_compress_thread(size_t thread_id) {
 						    (last_offset >> _offset_sync_epoch_multiple_log2);
 				for (size_t i = 0; i < num_epochs; i++)
 					_finalize_barrier.arrive_and_wait();
+				// If the operation was stopped while waiting, not all blocks of the
+				// previous epochs have been sent, so do not send this block either
+				interrupted = num_epochs > 0 &&
+					      _current_offset >= BIG_OFFSET_TO_STOP_NEW_WORK;
 			}
 			last_offset = offset;
 
 			if (offset >= last_valid_offset)
 				break;
+			if (interrupted)
+				continue;
 
 #ifdef LIB842_STREAM_INDEPTH_TRACE
 			stats.handled_blocks++;
-- 
2.43.0


From f7802b661b43e418ab4b11ba2535f843f46781a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:29 +0000
Subject: [PATCH 09/30] fix: OpenCL decompression into an empty output buffer
 failed on the copy back

---
 src/ocl/cl842decompress.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ocl/cl842decompress.cpp b/src/ocl/cl842decompress.cpp
index 3a2582c..b672c50 100644
--- a/src/ocl/cl842decompress.cpp
+++ b/src/ocl/cl842decompress.cpp
@@ -432,7 +432,8 @@ void CLHostDecompressor::decompress(const uint8_t *input, size_t inputBufferSize
 					      chunkShuffleMapBuffer, returnValuesBuffer,
 					      nullptr, &decompressEvent);
 		decompressEvent.wait();
-		cl::copy(m_queue, outputBuffer, output, output + outputBufferSize);
+		if (outputBufferSize != 0)
+			cl::copy(m_queue, outputBuffer, output, output + outputBufferSize);
 	}
 
 	if (m_profile && time != nullptr) {
-- 
2.43.0


From 9b24b384abdba62cf7bd9873ca57a46729d78e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:29 +0000
Subject: [PATCH 10/30] fix: cl842_decompress treated inputs over 99999 bytes
 as several chunks

---
 src/ocl/cl842decompress.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ocl/cl842decompress.cpp b/src/ocl/cl842decompress.cpp
index b672c50..c43ca74 100644
--- a/src/ocl/cl842decompress.cpp
+++ b/src/ocl/cl842decompress.cpp
@@ -464,7 +464,7 @@ int cl842_decompress(const uint8_t *in, size_t ilen,
 {
 	try {
 		static lib842::CLHostDecompressor decompressor(
-			65536, 99999 /* Doesn't matter */,
+			65536, SIZE_MAX / 2 /* Always a single chunk */,
 			lib842::CLDecompressorInputFormat::ALWAYS_COMPRESSED_CHUNKS,
 			true, false);
 		int ret;
-- 
2.43.0


From ce16cfc5b76ab49d0ee999118ae1623b96c5a55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:29 +0000
Subject: [PATCH 11/30] fix: OpenCL lookahead could read past the input buffer
 without chunk sizes

---
 src/ocl/cl842decompress.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ocl/cl842decompress.cpp b/src/ocl/cl842decompress.cpp
index c43ca74..ace8fe5 100644
--- a/src/ocl/cl842decompress.cpp
+++ b/src/ocl/cl842decompress.cpp
@@ -420,7 +420,8 @@ void CLHostDecompressor::decompress(const uint8_t *input, size_t inputBufferSize
 			throw cl::Error(CL_INVALID_VALUE);
 		}
 
-		cl::Buffer inputBuffer(m_context, CL_MEM_READ_ONLY, inputBufferSize);
+		// Add some more bytes for potential excess lookahead
+		cl::Buffer inputBuffer(m_context, CL_MEM_READ_ONLY, inputBufferSize + 64);
 		// Avoid a CL_INVALID_BUFFER_SIZE if outputBufferSize == 0
 		cl::Buffer outputBuffer(m_context, CL_MEM_READ_WRITE,
 					outputBufferSize != 0 ? outputBufferSize : 1);
-- 
2.43.0


From f398a0a708e53d4fb04e801f017d65b7d03b0602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:29 +0000
Subject: [PATCH 12/30] fix: OpenCL kernel trusted embedded chunk sizes larger
 than the chunk

---
 src/ocl/decompress.cl | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ocl/decompress.cl b/src/ocl/decompress.cl
index 12794e7..c548f21 100644
--- a/src/ocl/decompress.cl
+++ b/src/ocl/decompress.cl
@@ -432,6 +432,13 @@ __kernel void decompress(__global const uint64_t *RESTRICT_UNLESS_INPLACE in,
 
 	// Read compressed chunk size and skip to the beginning of the chunk
 	// (the end of the chunk matches the end of the input chunk buffer)
+	if (my_in[2] > CL842_CHUNK_SIZE) {
+		if (olen)
+			olen[chunk_num] = 0;
+		if (returnValues)
+			returnValues[chunk_num] = -EINVAL;
+		return;
+	}
 	my_ilen = my_in[2]; // TODOXXX: Avoid all this marker and embeeded lengths
 			    // nonesense and just pass the lengths with ilen everywhere
 	my_in += (CL842_CHUNK_SIZE - my_in[2]) / 8;
-- 
2.43.0


From 1a8f6878beb551b9a8e646272ebc2fe0b70d1eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:29 +0000
Subject: [PATCH 13/30] fix: OpenCL kernel read past a full output buffer
 before noticing the lack of space

---
 src/ocl/decompress.cl | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/ocl/decompress.cl b/src/ocl/decompress.cl
index c548f21..9099b6f 100644
--- a/src/ocl/decompress.cl
+++ b/src/ocl/decompress.cl
@@ -210,6 +210,10 @@ static inline void do_op(struct sw842_param_decomp *p, uint8_t op)
 #ifdef ENABLE_ERROR_HANDLING
 	if (p->errorcode != 0)
 		return;
+	if ((p->out - p->ostart) * sizeof(uint64_t) + 8 > p->olen) {
+		p->errorcode = -ENOSPC;
+		return;
+	}
 #endif
 
 	for (int i = 0; i < 4; i++) {
@@ -255,12 +259,6 @@ static inline void do_op(struct sw842_param_decomp *p, uint8_t op)
 			       << (64 - (dst_size << 3) - bits);
 		bits += dst_size << 3;
 	}
-#ifdef ENABLE_ERROR_HANDLING
-	if ((p->out - p->ostart) * sizeof(uint64_t) + 8 > p->olen) {
-		p->errorcode = -ENOSPC;
-		return;
-	}
-#endif
 	*p->out++ = swap_native_to_be64(output_word);
 }
 
-- 
2.43.0


From 0eff470cf2a116321403be9e6c3b972695dfb6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:29 +0000
Subject: [PATCH 14/30] fix: cl.h declared the shuffle map and return value
 buffers in the wrong order

---
 include/lib842/cl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lib842/cl.h b/include/lib842/cl.h
index 9e63fe3..e1be12a 100644
--- a/include/lib842/cl.h
+++ b/include/lib842/cl.h
@@ -121,8 +121,8 @@ public:
 			const cl::Buffer &outputBuffer,
 			size_t outputOffset,
 			const cl::Buffer &outputChunkSizes,
-			const cl::Buffer &returnValues,
 			const cl::Buffer &chunkShuffleMap,
+			const cl::Buffer &returnValues,
 			const cl::vector<cl::Event> *events = nullptr,
 			cl::Event *event = nullptr) const;
 
-- 
2.43.0


From a0f00053d188721b9e33c956175986d36dd2145c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:41:15 +0000
Subject: [PATCH 15/30] fix: a damaged or unwritable OpenCL program cache file
 made constructing a decompressor fail

---
 src/ocl/cl842decompress.cpp | 46 +++++++++++++++++++++++++++++--------
 1 file changed, 37 insertions(+), 9 deletions(-)

diff --git a/src/ocl/cl842decompress.cpp b/src/ocl/cl842decompress.cpp
index ace8fe5..566f49d 100644
--- a/src/ocl/cl842decompress.cpp
+++ b/src/ocl/cl842decompress.cpp
@@ -102,8 +102,19 @@ struct program_cache
 	cl::vector<cl::string> deviceNames;
 
 	cl::Program::Binaries find() const {
-		std::ifstream in(CACHE_PATH, std::ifstream::in | std::ifstream::binary);
-		in.exceptions(std::ifstream::failbit | std::ifstream::badbit);
+		std::ifstream file(CACHE_PATH, std::ifstream::in | std::ifstream::binary);
+		file.exceptions(std::ifstream::failbit | std::ifstream::badbit);
+		std::ostringstream contents;
+		contents << file.rdbuf();
+
+		// Don't use (not even parse) a truncated or otherwise damaged file
+		std::istringstream in(contents.str());
+		in.exceptions(std::istringstream::failbit | std::istringstream::badbit);
+		uint32_t checksum;
+		in.read(reinterpret_cast<char *>(&checksum), sizeof(checksum));
+		if (checksum != checksumOf(contents.str().substr(sizeof(checksum)))) {
+			return {};
+		}
 
 		program_cache disk_cache;
 		disk_cache.readMetadata(in);
@@ -121,16 +132,27 @@ struct program_cache
 	void set(const cl::Program::Binaries &binaries) const {
 		assert(deviceNames.size() == binaries.size());
 
-		std::ofstream out(CACHE_PATH, std::ofstream::out | std::ofstream::binary);
-		out.exceptions(std::ofstream::failbit | std::ofstream::badbit);
+		std::ostringstream out;
 		writeMetadata(out);
 		writeBinaries(out, binaries);
+
+		std::ofstream file(CACHE_PATH, std::ofstream::out | std::ofstream::binary);
+		file.exceptions(std::ofstream::failbit | std::ofstream::badbit);
+		uint32_t checksum = checksumOf(out.str());
+		file.write(reinterpret_cast<const char *>(&checksum), sizeof(checksum));
+		file << out.str();
+		file.close();
 	}
 
 private:
 	static constexpr const char *CACHE_PATH = "/tmp/cl842_cache.bin";
 
-	void readMetadata(std::ifstream &in) {
+	static uint32_t checksumOf(const std::string &data) {
+		return crc32_be(~static_cast<uint32_t>(0),
+			reinterpret_cast<const uint8_t *>(data.data()), data.length());
+	}
+
+	void readMetadata(std::istream &in) {
 		in.read(reinterpret_cast<char *>(&chunkSize), sizeof(chunkSize));
 		in.read(reinterpret_cast<char *>(&chunkStride), sizeof(chunkStride));
 		in.read(reinterpret_cast<char *>(&inputFormat), sizeof(inputFormat));
@@ -148,7 +170,7 @@ private:
 		}
 	}
 
-	static cl::Program::Binaries readBinaries(std::ifstream &in, size_t numDevices) {
+	static cl::Program::Binaries readBinaries(std::istream &in, size_t numDevices) {
 		cl::Program::Binaries binaries;
 		for (size_t i = 0; i < numDevices; i++) {
 			size_t size;
@@ -160,7 +182,7 @@ private:
 		return binaries;
 	}
 
-	void writeMetadata(std::ofstream &out) const {
+	void writeMetadata(std::ostream &out) const {
 		out.write(reinterpret_cast<const char *>(&chunkSize), sizeof(chunkSize));
 		out.write(reinterpret_cast<const char *>(&chunkStride), sizeof(chunkStride));
 		out.write(reinterpret_cast<const char *>(&inputFormat), sizeof(inputFormat));
@@ -176,7 +198,7 @@ private:
 		}
 	}
 
-	static void writeBinaries(std::ofstream &out, const cl::Program::Binaries &binaries) {
+	static void writeBinaries(std::ostream &out, const cl::Program::Binaries &binaries) {
 		for (const auto &b : binaries) {
 			size_t size = b.size();
 			out.write(reinterpret_cast<const char *>(&size), sizeof(size));
@@ -260,7 +282,13 @@ void CLDeviceDecompressor::buildProgram(
 		throw;
 	}
 #ifdef LIB842_CLDECOMPRESS_USE_PROGRAM_CACHE
-	cache.set(m_program.getInfo<CL_PROGRAM_BINARIES>());
+	try {
+		cache.set(m_program.getInfo<CL_PROGRAM_BINARIES>());
+	} catch (const std::ofstream::failure &) {
+		m_debug_logger()
+			<< "Could not write lib842's OpenCL program cache"
+			<< std::endl;
+	}
 #endif
 }
 
-- 
2.43.0


From 9b0064d49478fa69585fddd7237ce521fbdf446a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:57:33 +0000
Subject: [PATCH 16/30] fix: report failure to create the cryptodev thread key

The error set when the thread-specific key could not be created was
overwritten with success right away, so later calls used an invalid key.
---
 src/cryptodev/842_interface.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cryptodev/842_interface.c b/src/cryptodev/842_interface.c
index ce414e8..013cdf9 100644
--- a/src/cryptodev/842_interface.c
+++ b/src/cryptodev/842_interface.c
@@ -219,8 +219,8 @@ static void create_thread_ctx_key()
 {
 	if (tss_create(&thread_ctx_key, destroy_thread_ctx) != thrd_success)
 		thread_ctx_key_err = -ENOMEM;
-
-	thread_ctx_key_err = 0;
+	else
+		thread_ctx_key_err = 0;
 }
 
 static int get_thread_cryptodev_ctx(struct cryptodev_ctx **rctx)
-- 
2.43.0


From 636cead0612289ecdd9114a10e441644d468b25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:58:07 +0000
Subject: [PATCH 17/30] fix: initialise the cryptodev alignment mask without
 CIOCGSESSINFO

When the kernel header has no CIOCGSESSINFO the mask was read
uninitialised and requests were refused at random.
---
 src/cryptodev/842_interface.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cryptodev/842_interface.c b/src/cryptodev/842_interface.c
index 013cdf9..c7fd6d7 100644
--- a/src/cryptodev/842_interface.c
+++ b/src/cryptodev/842_interface.c
@@ -81,6 +81,8 @@ static int c842_ctx_init(struct cryptodev_ctx *ctx)
 	}
 #endif
 	ctx->alignmask = siop.alignmask;
+#else
+	ctx->alignmask = 0;
 #endif
 
 	return 0;
-- 
2.43.0


From 2c4ceb2fd0d72959acd2945b9cdc959d2643da7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:21:28 +0000
Subject: [PATCH 18/30] fix: escape carriage returns when embedding kernel
 sources

A raw carriage return inside the generated string literal ends the source
line for C compilers, so files with CR or CRLF line ends did not compile.
---
 src/tools/cl2c.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tools/cl2c.cpp b/src/tools/cl2c.cpp
index 12b6b54..195e518 100644
--- a/src/tools/cl2c.cpp
+++ b/src/tools/cl2c.cpp
@@ -23,6 +23,10 @@ int main(int argc, char *argv[])
 		case '\n':
 			outputFile << "\\n\"\n\"";
 			break;
+		case '\r':
+			// A raw carriage return ends the line for C compilers
+			outputFile << "\\r";
+			break;
 		case '\\':
 			outputFile << "\\\\";
 			break;
-- 
2.43.0


From 8830520b4f21c0abdc53da59aebe51f5a2df9f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:52:27 +0000
Subject: [PATCH 19/30] fix: accept results of more than 4 GiB in the software
 codec

---
 src/serial/842_compress.c   | 5 -----
 src/serial/842_decompress.c | 3 ---
 2 files changed, 8 deletions(-)

diff --git a/src/serial/842_compress.c b/src/serial/842_compress.c
index 525e87e..146c72b 100644
--- a/src/serial/842_compress.c
+++ b/src/serial/842_compress.c
@@ -669,11 +669,6 @@ skip_comp:
 		p->olen -= pad;
 	}
 
-	if (unlikely((total - p->olen) > UINT_MAX)) {
-		ret = -ENOSPC;
-		goto cleanup;
-	}
-
 	*olen = total - p->olen;
 
 	//printf("Out: %lld bits (%f bytes)\n", outbits, (outbits / 8.0f));
diff --git a/src/serial/842_decompress.c b/src/serial/842_decompress.c
index fc9f479..bbb7455 100644
--- a/src/serial/842_decompress.c
+++ b/src/serial/842_decompress.c
@@ -402,9 +402,6 @@ int sw842_decompress(const uint8_t *in, size_t ilen,
 		return -EINVAL;
 	}
 
-	if (unlikely((total - p.olen) > UINT_MAX))
-		return -ENOSPC;
-
 	*olen = total - p.olen;
 
 	return 0;
-- 
2.43.0


From 7e701460fe4e6fdc4172d11c6e0908fb907b4d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:33:38 +0000
Subject: [PATCH 20/30] fix: compression stream buffers honour the required
 alignment of the implementation

With an implementation whose required alignment exceeds its preferred
one (AIX: 4096 and 128), the buffer was only aligned to the latter.
---
 src/stream/DataCompressionStream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stream/DataCompressionStream.cpp b/src/stream/DataCompressionStream.cpp
index e578666..2ec7804 100644
--- a/src/stream/DataCompressionStream.cpp
+++ b/src/stream/DataCompressionStream.cpp
@@ -247,7 +247,7 @@ Block DataCompressionStream::handle_block(size_t offset, stats_per_thread_t &sta
 	block.offset = offset;
 
 	uint8_t *chunk_buffer = block.allocate_buffer(
-		_impl842.preferred_alignment, CHUNK_PADDING);
+		std::max(_impl842.required_alignment, _impl842.preferred_alignment), CHUNK_PADDING);
 	std::array<int, NUM_CHUNKS_PER_BLOCK> chunk_rets;
 	std::array<size_t, NUM_CHUNKS_PER_BLOCK> input_chunk_sizes, output_chunk_sizes;
 	input_chunk_sizes.fill(CHUNK_SIZE);
-- 
2.43.0


From 676bdda11c3d23905afdf84e7cfd20563c29ca23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:37:12 +0000
Subject: [PATCH 21/30] fix: do not assign stream threads to NUMA nodes without
 CPUs

The empty CPU set made pthread_setaffinity_np fail, which also left
all following threads unassigned.
---
 src/stream/numa_spread.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/stream/numa_spread.cpp b/src/stream/numa_spread.cpp
index bf0578a..c5b7b21 100644
--- a/src/stream/numa_spread.cpp
+++ b/src/stream/numa_spread.cpp
@@ -65,6 +65,9 @@ static std::vector<cpu_set_t> get_numa_cpusets()
 
 			CPU_SET(c, &cpuset);
 		}
+		if (CPU_COUNT(&cpuset) == 0)
+			continue; // Memory-only node, no threads can run there
+
 		numa_cpusets.push_back(cpuset);
 	}
 
-- 
2.43.0


From ceaeab90e19e384e0bb5d4ebde05667e62fbfc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:37:24 +0000
Subject: [PATCH 22/30] fix: NUMA spread considers CPU numbers above the number
 of online CPUs

With offline CPUs or gaps in the numbering, the CPU set of a node missed
CPUs or was empty.
---
 src/stream/numa_spread.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/stream/numa_spread.cpp b/src/stream/numa_spread.cpp
index c5b7b21..d76dd15 100644
--- a/src/stream/numa_spread.cpp
+++ b/src/stream/numa_spread.cpp
@@ -7,7 +7,6 @@
 
 #include <pthread.h>
 #include <numa.h>
-#include <sys/sysinfo.h>
 #ifdef LIB842_STREAM_INDEPTH_TRACE
 #include <string>
 #include <sstream>
@@ -44,7 +43,7 @@ static std::vector<cpu_set_t> get_numa_cpusets()
 		return std::vector<cpu_set_t>();
 	}
 
-	int numa_max_nodes = numa_max_node(), nprocs = get_nprocs();
+	int numa_max_nodes = numa_max_node();
 	std::unique_ptr<struct bitmask, decltype(&numa_free_cpumask)>
 		bm { numa_get_mems_allowed(), numa_free_cpumask };
 	std::unique_ptr<struct bitmask, decltype(&numa_free_cpumask)>
@@ -59,7 +58,7 @@ static std::vector<cpu_set_t> get_numa_cpusets()
 
 		cpu_set_t cpuset;
 		CPU_ZERO(&cpuset);
-		for (int c = 0; c < nprocs; c++) {
+		for (int c = 0; c < CPU_SETSIZE; c++) {
 			if (!numa_bitmask_isbitset(cpumask.get(), c))
 				continue;
 
-- 
2.43.0


From e6d5e9bb71678f0ecf1866bf4ccfa860b5dee53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:51:17 +0000
Subject: [PATCH 23/30] fix: sample programs fail for an empty file

---
 sample/compdecomp_driver.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sample/compdecomp_driver.c b/sample/compdecomp_driver.c
index d29fd86..3ae3db6 100644
--- a/sample/compdecomp_driver.c
+++ b/sample/compdecomp_driver.c
@@ -169,7 +169,8 @@ int compdecomp(const char *file_name, size_t chunk_size, size_t alignment)
 	} else {
 		printf("Running simple test\n");
 
-		size_t olen = ilen * 2;
+		// (even no data at all compresses to a few bytes)
+		size_t olen = (ilen > 0 ? ilen : chunk_size) * 2;
 		uint8_t *out = aligned_alloc(alignment, olen);
 		if (out == NULL) {
 			fprintf(stderr, "FAIL: out = aligned_alloc(...) failed!\n");
-- 
2.43.0


From 12254bb9a8faf5dc0d5ad4df5cb59b70ff9c22c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:17:44 +0000
Subject: [PATCH 24/30] fix: data race on the error flag of the streams sample

---
 sample/compdecomp_streams.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/sample/compdecomp_streams.cpp b/sample/compdecomp_streams.cpp
index 9cfa970..bb50f7e 100644
--- a/sample/compdecomp_streams.cpp
+++ b/sample/compdecomp_streams.cpp
@@ -167,7 +167,6 @@ bool compress_benchmark_core(const uint8_t *in, size_t ilen,
 		});
 
 		lib842::detail::latch comp_finished(1);
-		comp_error = false;
 		cstream.finalize(false, [&comp_finished,
 					 &comp_error](bool success) {
 			comp_error |= !success;
-- 
2.43.0


From c2f00a949be96fc6cff0afb16c5742b5e0499f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:38:26 +0000
Subject: [PATCH 25/30] fix: get_hw842_implementation sets up its table once

---
 src/cryptodev/842_interface.c | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/cryptodev/842_interface.c b/src/cryptodev/842_interface.c
index c7fd6d7..5907bdc 100644
--- a/src/cryptodev/842_interface.c
+++ b/src/cryptodev/842_interface.c
@@ -322,21 +322,26 @@ int hw842_decompress_chunked(size_t numchunks, int *rets,
 				     out, ostride, olens);
 }
 
-const struct lib842_implementation *get_hw842_implementation() {
-	static struct lib842_implementation hw842_implementation = {
-		.compress = hw842_compress,
-		.decompress = hw842_decompress,
-		.compress_chunked = hw842_compress_chunked,
-		.decompress_chunked = hw842_decompress_chunked,
-		.required_alignment = 0,
-		.preferred_alignment = 0
-	};
-	if (hw842_implementation.required_alignment == 0)
-		hw842_implementation.required_alignment = hw842_get_required_alignment();
+static struct lib842_implementation hw842_implementation = {
+	.compress = hw842_compress,
+	.decompress = hw842_decompress,
+	.compress_chunked = hw842_compress_chunked,
+	.decompress_chunked = hw842_decompress_chunked,
+	.required_alignment = 0,
+	.preferred_alignment = 0
+};
+static once_flag hw842_implementation_once = ONCE_FLAG_INIT;
+
+static void init_hw842_implementation()
+{
+	hw842_implementation.required_alignment = hw842_get_required_alignment();
 	// The cryptodev implementation can work better (do zero copy)
 	// if the buffers are page-aligned
-	if (hw842_implementation.preferred_alignment == 0)
-		hw842_implementation.preferred_alignment = sysconf(_SC_PAGESIZE);
+	hw842_implementation.preferred_alignment = sysconf(_SC_PAGESIZE);
+}
+
+const struct lib842_implementation *get_hw842_implementation() {
+	call_once(&hw842_implementation_once, init_hw842_implementation);
 
 	return &hw842_implementation;
 }
-- 
2.43.0


From 58657c3aa41cdb8696cab8874607abc3d0bd330e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:39:20 +0000
Subject: [PATCH 26/30] fix: software compressors report a failed memory
 allocation

---
 src/serial/842_compress.c             | 24 ++++++++++++++++++++++--
 src/serial_optimized/842_compress.cpp |  9 +++++++++
 2 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/serial/842_compress.c b/src/serial/842_compress.c
index 146c72b..483f9f4 100644
--- a/src/serial/842_compress.c
+++ b/src/serial/842_compress.c
@@ -16,6 +16,9 @@
  * See 842.h for details of the 842 compressed format.
  */
 
+/* Running out of memory makes the compression fail, rather than exit the program */
+#define HASH_NONFATAL_OOM 1
+
 #include "842-internal.h"
 #include "uthash/src/uthash.h"
 #include "uthash/src/utlist.h"
@@ -187,13 +190,21 @@ static uint8_t comp_ops[OPS_MAX][5] = { /* params size in bits */
 		if (h == NULL) {                                               \
 			h = (struct hlist_node##b *)malloc(                    \
 				sizeof(struct hlist_node##b));                 \
+			if (h == NULL)                                         \
+				return -ENOMEM;                                \
 			h->data = _n;                                          \
 			h->head = NULL;                                        \
 			HASH_ADD(hh, p->htable##b, data, b, h);                \
+			if (h->hh.tbl == NULL) { /* see HASH_NONFATAL_OOM */   \
+				free(h);                                       \
+				return -ENOMEM;                                \
+			}                                                      \
 		}                                                              \
                                                                                \
 		struct node##b##_el *el = (struct node##b##_el *)malloc(       \
 			sizeof(struct node##b##_el));                          \
+		if (el == NULL)                                                \
+			return -ENOMEM;                                        \
 		el->index = node_index;                                        \
 		DL_APPEND(h->head, el);                                        \
 	} while (0)
@@ -481,7 +492,7 @@ static void get_next_data(struct sw842_param *p)
  * only call this after finding/adding the current template
  * the dataN fields for the current 8 byte block must be already updated
  */
-static void update_hashtables(struct sw842_param *p)
+static int update_hashtables(struct sw842_param *p)
 {
 	uint64_t pos = p->in - p->instart;
 	uint64_t n8 = (pos >> 3) % (1 << I8_BITS);
@@ -495,6 +506,8 @@ static void update_hashtables(struct sw842_param *p)
 	replace_hash(p, 2, n2, 1);
 	replace_hash(p, 2, n2, 2);
 	replace_hash(p, 2, n2, 3);
+
+	return 0;
 }
 
 /* find the next template to use, and add it
@@ -545,6 +558,11 @@ int sw842_compress(const uint8_t *in, size_t ilen,
 	uint8_t repeat_count = 0;
 	uint32_t crc;
 
+	if (p == NULL) {
+		*olen = 0;
+		return -ENOMEM;
+	}
+
 	p->htable2 = NULL;
 	p->htable4 = NULL;
 	p->htable8 = NULL;
@@ -613,7 +631,9 @@ int sw842_compress(const uint8_t *in, size_t ilen,
 
 	repeat:
 		last = next;
-		update_hashtables(p);
+		ret = update_hashtables(p);
+		if (ret)
+			goto cleanup;
 		p->in += 8;
 		p->ilen -= 8;
 	}
diff --git a/src/serial_optimized/842_compress.cpp b/src/serial_optimized/842_compress.cpp
index 11cb650..41b6274 100644
--- a/src/serial_optimized/842_compress.cpp
+++ b/src/serial_optimized/842_compress.cpp
@@ -585,6 +585,10 @@ int optsw842_compress(const uint8_t *in, size_t ilen,
 	}
 
 	auto *p = (struct sw842_param *)malloc(sizeof(struct sw842_param));
+	if (p == nullptr) {
+		*olen = 0;
+		return -ENOMEM;
+	}
 
 	std::fill(std::begin(p->hashes), std::end(p->hashes), 0);
 
@@ -600,6 +604,11 @@ int optsw842_compress(const uint8_t *in, size_t ilen,
 	p->ilen = ilen;
 
 	p->stream = stream_open(out, *olen);
+	if (p->stream == nullptr) {
+		free(p);
+		*olen = 0;
+		return -ENOMEM;
+	}
 
 	try {
 		p->olen = *olen;
-- 
2.43.0


From 3a75689951bfcd0589372b0b808586b10677fbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:39:20 +0000
Subject: [PATCH 27/30] fix: streams survive running out of memory or threads

---
 include/lib842/stream/comp.h           |  1 +
 include/lib842/stream/decomp.h         |  2 ++
 src/stream/DataCompressionStream.cpp   | 30 ++++++++++++++++++++------
 src/stream/DataDecompressionStream.cpp | 30 ++++++++++++++++++++------
 4 files changed, 49 insertions(+), 14 deletions(-)

diff --git a/include/lib842/stream/comp.h b/include/lib842/stream/comp.h
index 0140b8c..928ada1 100644
--- a/include/lib842/stream/comp.h
+++ b/include/lib842/stream/comp.h
@@ -75,6 +75,7 @@ private:
 #endif
 	};
 
+	void stop_threads();
 	void loop_compress_thread(size_t thread_id);
 	Block handle_block(size_t offset, stats_per_thread_t &stats) const;
 
diff --git a/include/lib842/stream/decomp.h b/include/lib842/stream/decomp.h
index fb1e453..86a0d62 100644
--- a/include/lib842/stream/decomp.h
+++ b/include/lib842/stream/decomp.h
@@ -72,6 +72,8 @@ private:
 #endif
 	};
 
+	void stop_threads();
+	void clear_queue();
 	void loop_decompress_thread(size_t thread_id);
 	bool handle_block(const Block &block,
 			  stats_per_thread_t &stats) const;
diff --git a/src/stream/DataCompressionStream.cpp b/src/stream/DataCompressionStream.cpp
index 2ec7804..c675fd5 100644
--- a/src/stream/DataCompressionStream.cpp
+++ b/src/stream/DataCompressionStream.cpp
@@ -35,14 +35,24 @@ DataCompressionStream::DataCompressionStream(
 		_error_logger() << "CHUNK_SIZE must be a multiple of the required 842 alignment" << std::endl;
 		throw std::runtime_error("CHUNK_SIZE must be a multiple of the required 842 alignment");
 	}
-	_threads.reserve(num_threads);
-	for (size_t i = 0; i < num_threads; i++)
-		_threads.emplace_back(&DataCompressionStream::loop_compress_thread, this, i);
-	if (thread_policy_ == thread_policy::spread_threads_among_numa_nodes)
-		spread_threads_among_numa_nodes(_threads);
+	try {
+		_threads.reserve(num_threads);
+		for (size_t i = 0; i < num_threads; i++)
+			_threads.emplace_back(&DataCompressionStream::loop_compress_thread, this, i);
+		if (thread_policy_ == thread_policy::spread_threads_among_numa_nodes)
+			spread_threads_among_numa_nodes(_threads);
+	} catch (...) {
+		// Not all threads could be started, so stop those that were
+		stop_threads();
+		throw;
+	}
 }
 
 DataCompressionStream::~DataCompressionStream() {
+	stop_threads();
+}
+
+void DataCompressionStream::stop_threads() {
 	{
 		std::lock_guard<std::mutex> lock(_mutex);
 		_quit = true;
@@ -246,8 +256,14 @@ Block DataCompressionStream::handle_block(size_t offset, stats_per_thread_t &sta
 	block.chunk_padding = CHUNK_PADDING;
 	block.offset = offset;
 
-	uint8_t *chunk_buffer = block.allocate_buffer(
-		std::max(_impl842.required_alignment, _impl842.preferred_alignment), CHUNK_PADDING);
+	uint8_t *chunk_buffer;
+	try {
+		chunk_buffer = block.allocate_buffer(
+			std::max(_impl842.required_alignment, _impl842.preferred_alignment), CHUNK_PADDING);
+	} catch (const std::bad_alloc &) {
+		block.offset = SIZE_MAX; // Indicates error to the user
+		return block;
+	}
 	std::array<int, NUM_CHUNKS_PER_BLOCK> chunk_rets;
 	std::array<size_t, NUM_CHUNKS_PER_BLOCK> input_chunk_sizes, output_chunk_sizes;
 	input_chunk_sizes.fill(CHUNK_SIZE);
diff --git a/src/stream/DataDecompressionStream.cpp b/src/stream/DataDecompressionStream.cpp
index f347fac..46f5275 100644
--- a/src/stream/DataDecompressionStream.cpp
+++ b/src/stream/DataDecompressionStream.cpp
@@ -28,14 +28,24 @@ DataDecompressionStream::DataDecompressionStream(
 		_error_logger() << "CHUNK_SIZE must be a multiple of the required 842 alignment" << std::endl;
 		throw std::runtime_error("CHUNK_SIZE must be a multiple of the required 842 alignment");
 	}
-	_threads.reserve(num_threads);
-	for (size_t i = 0; i < num_threads; i++)
-		_threads.emplace_back(&DataDecompressionStream::loop_decompress_thread, this, i);
-	if (thread_policy_ == thread_policy::spread_threads_among_numa_nodes)
-		spread_threads_among_numa_nodes(_threads);
+	try {
+		_threads.reserve(num_threads);
+		for (size_t i = 0; i < num_threads; i++)
+			_threads.emplace_back(&DataDecompressionStream::loop_decompress_thread, this, i);
+		if (thread_policy_ == thread_policy::spread_threads_among_numa_nodes)
+			spread_threads_among_numa_nodes(_threads);
+	} catch (...) {
+		// Not all threads could be started, so stop those that were
+		stop_threads();
+		throw;
+	}
 }
 
 DataDecompressionStream::~DataDecompressionStream() {
+	stop_threads();
+}
+
+void DataDecompressionStream::stop_threads() {
 	{
 		std::lock_guard<std::mutex> lock(_mutex);
 		_quit = true;
@@ -84,10 +94,16 @@ void DataDecompressionStream::finalize(bool cancel, std::function<void(bool)> fi
 	_finalizing = true;
 	_finalize_callback = std::move(finalize_callback);
 	if (cancel)
-		_queue = std::queue<Block>();
+		clear_queue();
 	_queue_available.notify_all();
 }
 
+void DataDecompressionStream::clear_queue() {
+	// NB: Assigning an empty queue would allocate memory, which can fail
+	while (!_queue.empty())
+		_queue.pop();
+}
+
 void DataDecompressionStream::loop_decompress_thread(size_t thread_id) {
 	stats_per_thread_t stats;
 #ifdef LIB842_STREAM_INDEPTH_TRACE
@@ -150,7 +166,7 @@ void DataDecompressionStream::loop_decompress_thread(size_t thread_id) {
 					std::lock_guard<std::mutex> lock(_mutex);
 					first_error = !_error;
 					_error = true;
-					_queue = std::queue<Block>();
+					clear_queue();
 				}
 
 				if (first_error) {
-- 
2.43.0


From 7f6f3fd7e6c20b0717706cdd4974b3bac929b9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:30:03 +0000
Subject: [PATCH 28/30] fix: no exception leaves cl842_decompress

---
 src/ocl/cl842decompress.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ocl/cl842decompress.cpp b/src/ocl/cl842decompress.cpp
index 566f49d..277d068 100644
--- a/src/ocl/cl842decompress.cpp
+++ b/src/ocl/cl842decompress.cpp
@@ -499,7 +499,7 @@ int cl842_decompress(const uint8_t *in, size_t ilen,
 		int ret;
 		decompressor.decompress(in, ilen, &ilen, out, *olen, olen, nullptr, &ret, nullptr);
 		return ret;
-	} catch (const cl::Error &) {
+	} catch (const std::exception &) { // cl::Error, std::bad_alloc, ...
 		// Not a great error value, but we shouldn't let C++ exceptions
 		// propagate out from the C API
 		return -ENOMEM;
-- 
2.43.0


From ee5b16f92f55a5b2d69f754feff79e8a8f319527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:30:03 +0000
Subject: [PATCH 29/30] fix: OpenCL program is not built with incomplete
 options

---
 src/ocl/cl842decompress.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ocl/cl842decompress.cpp b/src/ocl/cl842decompress.cpp
index 277d068..040bfad 100644
--- a/src/ocl/cl842decompress.cpp
+++ b/src/ocl/cl842decompress.cpp
@@ -219,6 +219,9 @@ void CLDeviceDecompressor::buildProgram(
 	src.insert(0, LIB842_CLDECOMPRESS_842DEFS_SOURCE);
 
 	std::ostringstream options;
+	// Streams swallow a failed memory allocation unless told otherwise,
+	// and the program must not be built with an incomplete set of options
+	options.exceptions(std::ostringstream::badbit);
 	options << "-D CL842_CHUNK_SIZE=" << m_chunkSize;
 	options << " -D CL842_CHUNK_STRIDE=" << m_chunkStride;
 	options << " -D EINVAL=" << EINVAL;
-- 
2.43.0


From a97ff50cb133dabcfc647b0cb0cb23b3dc821691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:31 +0000
Subject: [PATCH 30/30] fix: sum the compressed sizes in the OpenCL sample
 without overflowing

The initial value 0 made std::accumulate add up in an int, so that the
reported output size was wrong from 2 GiB on.
---
 sample/compdecomp_cl.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sample/compdecomp_cl.cpp b/sample/compdecomp_cl.cpp
index be7b124..e2d92d3 100644
--- a/sample/compdecomp_cl.cpp
+++ b/sample/compdecomp_cl.cpp
@@ -122,7 +122,8 @@ bool compress_benchmark_core(const uint8_t *in, size_t ilen,
 	}
 #endif
 
-	*olen = std::accumulate(chunk_olens.begin(), chunk_olens.end(), 0);
+	*olen = std::accumulate(chunk_olens.begin(), chunk_olens.end(),
+				static_cast<size_t>(0));
 	*time_comp = -1; // Don't benchmark since compression is not OpenCL-based
 
 	// ------------
-- 
2.43.0

