From bd7d80157acc9ab8d4675a72e3b15b5a9c526f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:31 +0000
Subject: [PATCH 01/16] fix: ThreadPool: a failing job no longer blocks the
 other threads forever

---
 include/chia/ThreadPool.h | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/include/chia/ThreadPool.h b/include/chia/ThreadPool.h
index d36dc03..e7060f6 100644
--- a/include/chia/ThreadPool.h
+++ b/include/chia/ThreadPool.h
@@ -12,6 +12,7 @@
 
 #include <vector>
 #include <memory>
+#include <exception>
 
 
 template<typename T, typename S, typename L = size_t>
@@ -107,21 +108,34 @@ private:
 			job = state->job;
 		}
 		S out;
-		execute(input, out, state->local);
+		std::exception_ptr error;
+		try {
+			execute(input, out, state->local);
+		} catch(...) {
+			error = std::current_exception();
+		}
 		{
 			std::unique_lock<std::mutex> lock(prev->mutex);
 			while(prev->job < job) {
 				prev->signal.wait(lock);
 			}
 		}
-		if(output) {
-			output->take(out);	// only one thread can be at this position
+		if(output && !error) {
+			try {
+				output->take(out);	// only one thread can be at this position
+			} catch(...) {
+				error = std::current_exception();
+			}
 		}
 		{
 			std::lock_guard<std::mutex> lock(state->mutex);
-			state->job = -1;
+			state->job = -1;	// also when failed, otherwise the next thread waits forever
 		}
 		state->signal.notify_all();
+		
+		if(error) {
+			std::rethrow_exception(error);
+		}
 	}
 	
 private:
-- 
2.43.0


From 6785a9dd10e98c32b5d4ccf78af585f9a11a695e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:27 +0000
Subject: [PATCH 02/16] fix: DiskSort: do not close a bucket stream twice when
 fclose() fails

---
 include/chia/DiskSort.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/chia/DiskSort.hpp b/include/chia/DiskSort.hpp
index 4df7c78..ceec29d 100644
--- a/include/chia/DiskSort.hpp
+++ b/include/chia/DiskSort.hpp
@@ -44,10 +44,11 @@ template<typename T, typename Key>
 void DiskSort<T, Key>::bucket_t::close()
 {
 	if(file) {
-		if(fclose(file)) {
+		const auto err = fclose(file);
+		file = nullptr;		// stream is gone in any case, must not be closed again
+		if(err) {
 			throw std::runtime_error("fclose() failed with: " + std::string(std::strerror(errno)));
 		}
-		file = nullptr;
 	}
 }
 
-- 
2.43.0


From b1a114f467b41b0e59f74507a913dab82528dae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:46 +0000
Subject: [PATCH 03/16] fix: phase1: do not match against a missing first group

When no entry falls into group 0 but some fall into group 1, the initial
group index 0 looked like a preceding group although there is no bucket for
it, and a null bucket was dereferenced.
---
 include/chia/phase1.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/chia/phase1.hpp b/include/chia/phase1.hpp
index c2d0db1..c206e9e 100644
--- a/include/chia/phase1.hpp
+++ b/include/chia/phase1.hpp
@@ -364,7 +364,7 @@ uint64_t compute_matches(	int R_index, int k, int num_threads,
 					throw std::logic_error("input not sorted");
 				}
 				if(index > L_index[0]) {
-					if(L_index[1] + 1 == L_index[0]) {
+					if(L_bucket[1] && L_index[1] + 1 == L_index[0]) {
 						match_input_t pair;
 						pair.L_offset = L_offset;
 						pair.L_bucket = L_bucket;
@@ -397,7 +397,7 @@ uint64_t compute_matches(	int R_index, int k, int num_threads,
 	read_thread.close();
 	match_pool.close();
 	
-	if(L_index[1] + 1 == L_index[0]) {
+	if(L_bucket[1] && L_index[1] + 1 == L_index[0]) {
 		FxMatcher<T> Fx;
 		std::vector<match_t<T>> matches;
 		num_found += Fx.find_matches(L_offset[1], *L_bucket[1], *L_bucket[0], matches);
-- 
2.43.0


From a709218de89f07a39da407c399955ac59ee5566a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:56 +0000
Subject: [PATCH 04/16] fix: phase3: do not stop joining before the last left
 entries were taken over

The end-of-input flag was read outside of the mutex: if the last left buffer
and the end flag arrived after a merge thread had copied an earlier buffer, the
thread gave up without looking at the last buffer and failed with 'position out
of bounds'.
---
 include/chia/phase3.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/chia/phase3.hpp b/include/chia/phase3.hpp
index 804b8b1..9409b6e 100644
--- a/include/chia/phase3.hpp
+++ b/include/chia/phase3.hpp
@@ -120,6 +120,7 @@ void compute_stage1(int L_index, int num_threads,
 				pos[1] -= L_buffer.offset;
 				
 				while(L_buffer.new_pos.size() <= pos[1]) {
+					bool is_end = false;
 					{
 						std::unique_lock<std::mutex> lock(mutex);
 						while(true) {
@@ -135,12 +136,13 @@ void compute_stage1(int L_index, int num_threads,
 							if(do_wait && !L_is_end) {
 								signal.wait(lock);		// wait for new input
 							} else {
+								is_end = do_wait;		// no new input and end of L
 								break;
 							}
 						}
 					}
 					signal_1.notify_all();	// notify copy_sync change
-					if(L_is_end) {
+					if(is_end) {
 						break;
 					}
 				}
-- 
2.43.0


From 970054286cd0c93f7e182960b50d06500852b1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:06 +0000
Subject: [PATCH 05/16] fix: refuse deltas which have no code instead of
 reading outside the compression table

---
 include/chia/encoding.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/chia/encoding.hpp b/include/chia/encoding.hpp
index df76438..ad5933b 100644
--- a/include/chia/encoding.hpp
+++ b/include/chia/encoding.hpp
@@ -197,6 +197,12 @@ public:
         }
 
         FSE_CTable *ct = tmCache.CTGet(R);
+        // CTable header: [tableLog, maxSymbolValue]
+        const unsigned maxSymbol = reinterpret_cast<const uint16_t *>(ct)[1];
+        for (const auto delta : deltas) {
+            if (delta > maxSymbol)
+                throw std::invalid_argument("delta > maxSymbolValue (" + std::to_string(delta) + ")");
+        }
         return FSE_compress_usingCTable(
             out, deltas.size() * 8, static_cast<void *>(deltas.data()), deltas.size(), ct);
     }
-- 
2.43.0


From 6ed15ae33b7b675a87ec2e869106f4211a79d7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:36 +0000
Subject: [PATCH 06/16] fix: detect too large parks before they are written
 past their buffer

---
 include/chia/phase3.hpp | 6 ++++--
 include/chia/phase4.hpp | 4 +++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/chia/phase3.hpp b/include/chia/phase3.hpp
index 9409b6e..2356844 100644
--- a/include/chia/phase3.hpp
+++ b/include/chia/phase3.hpp
@@ -302,13 +302,14 @@ void WritePark(
     // be small, so we can compress them
     const double R = kRValues[table_index - 1];
     uint8_t* deltas_start = index + 2;
-    size_t deltas_size = Encoding::ANSEncodeDeltas(park_deltas, R, deltas_start);
+    std::vector<uint8_t> deltas_buffer(park_deltas.size() * 8);
+    size_t deltas_size = Encoding::ANSEncodeDeltas(park_deltas, R, deltas_buffer.data());
 
     if (!deltas_size) {
         // Uncompressed
         deltas_size = park_deltas.size();
         Util::IntToTwoBytesLE(index, deltas_size | 0x8000);
-        memcpy(deltas_start, park_deltas.data(), deltas_size);
+        deltas_buffer = park_deltas;
     } else {
         // Compressed
         Util::IntToTwoBytesLE(index, deltas_size);
@@ -320,6 +321,7 @@ void WritePark(
             "Overflowed park buffer, writing " + std::to_string(index - park_buffer) +
             " bytes. Space: " + std::to_string(park_buffer_size));
     }
+    memcpy(deltas_start, deltas_buffer.data(), deltas_size);
     memset(index, 0x00, park_buffer_size - (index - park_buffer));
 }
 
diff --git a/include/chia/phase4.hpp b/include/chia/phase4.hpp
index 95cf52e..8d1cd17 100644
--- a/include/chia/phase4.hpp
+++ b/include/chia/phase4.hpp
@@ -122,13 +122,15 @@ uint64_t compute(	FILE* plot_file,
 			write_data_t tmp;
 			tmp.offset = park.offset;
 			tmp.buffer.resize(C3_size);
+			std::vector<uint8_t> buffer(park.deltas.size() * 8);
 			const size_t num_bytes =
-					Encoding::ANSEncodeDeltas(park.deltas, kC3R, tmp.buffer.data() + 2);
+					Encoding::ANSEncodeDeltas(park.deltas, kC3R, buffer.data());
 			
 			if(num_bytes + 2 > C3_size) {
 				throw std::logic_error("C3 overflow");
 			}
 			Util::IntToTwoBytes(tmp.buffer.data(), num_bytes);	// Write the size
+			memcpy(tmp.buffer.data() + 2, buffer.data(), num_bytes);
 			out.emplace_back(std::move(tmp));
 		}, &plot_write, std::max(num_threads / 2, 1), "phase4/C3");
 
-- 
2.43.0


From 4b1c65da481a3003d5167c7f9104f2029ecc9619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:36 +0000
Subject: [PATCH 07/16] fix: phase4: refuse y gaps which do not fit in a C3
 delta instead of truncating them

---
 include/chia/phase4.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/chia/phase4.hpp b/include/chia/phase4.hpp
index 8d1cd17..c5d8dc7 100644
--- a/include/chia/phase4.hpp
+++ b/include/chia/phase4.hpp
@@ -183,6 +183,9 @@ uint64_t compute(	FILE* plot_file,
 				num_C1_entries++;
 			}
 			else {
+				if(entry_y - prev_y >= 256) {
+					throw std::logic_error("C3 delta >= 256 (" + std::to_string(entry_y - prev_y) + ")");
+				}
 				park_deltas.deltas.push_back(entry_y - prev_y);
 			}
 			prev_y = entry_y;
-- 
2.43.0


From fe5d9846348b940cc589b73901eac2dbbbd5045f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:36 +0000
Subject: [PATCH 08/16] fix: phase4: report a plot file which could not be
 closed or renamed

---
 include/chia/phase4.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/chia/phase4.hpp b/include/chia/phase4.hpp
index c5d8dc7..2024880 100644
--- a/include/chia/phase4.hpp
+++ b/include/chia/phase4.hpp
@@ -263,12 +263,16 @@ void compute(	const phase3::output_t& input, output_t& out,
 	out.plot_size = compute(plot_file, input.params.k, input.header_size, input.sort_7.get(),
 							num_threads, input.final_pointer_7, input.num_written_7);
 	
-	fclose(plot_file);
+	if(fclose(plot_file)) {
+		throw std::runtime_error("fclose() failed with: " + std::string(std::strerror(errno)));
+	}
 	
 	out.params = input.params;
 	out.plot_file_name = plot_dir + plot_name + ".plot";
 	
-	std::rename(input.plot_file_name.c_str(), out.plot_file_name.c_str());
+	if(std::rename(input.plot_file_name.c_str(), out.plot_file_name.c_str())) {
+		throw std::runtime_error("rename() failed with: " + std::string(std::strerror(errno)));
+	}
 	
 	std::cout << "Phase 4 took " << (get_wall_time_micros() - total_begin) / 1e6 << " sec"
 			", final plot size is " << out.plot_size << " bytes" << std::endl;
-- 
2.43.0


From 2aa76ae9e806b7aa467950c3bdab08f3361f86b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:55 +0000
Subject: [PATCH 09/16] fix: final copy: report read errors and a failed final
 rename

---
 include/chia/copy.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/chia/copy.h b/include/chia/copy.h
index 8d9b40e..7b0fd61 100644
--- a/include/chia/copy.h
+++ b/include/chia/copy.h
@@ -45,6 +45,12 @@ uint64_t copy_file(const std::string& src_path, const std::string& dst_path)
 		}
 		total_bytes += num_bytes;
 		if(num_bytes < buffer.size()) {
+			if(ferror(src)) {
+				const auto err = errno;
+				fclose(src);
+				fclose(dst);
+				throw std::runtime_error("fread() failed on " + src_path + " (" + std::string(std::strerror(err)) + ")");
+			}
 			break;
 		}
 	}
@@ -69,7 +75,9 @@ uint64_t final_copy(const std::string& src_path, const std::string& dst_path)
 		total_bytes = copy_file(src_path, tmp_dst_path);
 	}
 	remove(src_path.c_str());
-	rename(tmp_dst_path.c_str(), dst_path.c_str());
+	if(rename(tmp_dst_path.c_str(), dst_path.c_str())) {
+		throw std::runtime_error("rename() failed for " + tmp_dst_path + " (" + std::string(std::strerror(errno)) + ")");
+	}
 	return total_bytes;
 }
 
-- 
2.43.0


From 83ac637cb71e1a5e647bc7a37e410dd936371a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:55 +0000
Subject: [PATCH 10/16] fix: phase3: report a plot header which could not be
 written

---
 include/chia/phase3.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/chia/phase3.hpp b/include/chia/phase3.hpp
index 2356844..18c722a 100644
--- a/include/chia/phase3.hpp
+++ b/include/chia/phase3.hpp
@@ -262,7 +262,9 @@ uint32_t WriteHeader(
 	uint8_t pointers[10 * 8] = {};
 	num_bytes += fwrite((pointers), 8, 10, file) * 8;
 
-	fflush(file);
+	if(fflush(file) || ferror(file)) {
+		throw std::runtime_error("failed to write plot header: " + std::string(std::strerror(errno)));
+	}
 	std::cout << "Wrote plot header with " << num_bytes << " bytes" << std::endl;
 	return num_bytes;
 }
-- 
2.43.0


From 6b081d1b269fe6969153c05442e1ae2e451df0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:01 +0000
Subject: [PATCH 11/16] fix: phase1: detect too many matches before they are
 written past their buffers

---
 include/chia/phase1.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/chia/phase1.hpp b/include/chia/phase1.hpp
index c206e9e..ef00956 100644
--- a/include/chia/phase1.hpp
+++ b/include/chia/phase1.hpp
@@ -213,6 +213,9 @@ public:
             for (int i = 0; i < kExtraBitsPow; i++) {
                 const uint16_t r_target = L_targets[parity][r][i];
                 for (size_t j = 0; j < rmap[r_target].count; j++) {
+					if(idx_count >= kBC) {
+						throw std::logic_error("find_matches(): count > kBC");
+					}
 					idx_L[idx_count] = pos_L;
 					idx_R[idx_count] = rmap[r_target].pos + j;
                     idx_count++;
-- 
2.43.0


From d452963843fd2baf75b925c36214666536218c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:01 +0000
Subject: [PATCH 12/16] fix: copy: keep the source until the plot has its final
 name, so that a failed copy can be repeated

---
 include/chia/copy.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/chia/copy.h b/include/chia/copy.h
index 7b0fd61..877bd69 100644
--- a/include/chia/copy.h
+++ b/include/chia/copy.h
@@ -70,13 +70,16 @@ uint64_t final_copy(const std::string& src_path, const std::string& dst_path)
 	}
 	const std::string tmp_dst_path = dst_path + ".tmp";
 	uint64_t total_bytes = 109521666048ull;
-	if(rename(src_path.c_str(), tmp_dst_path.c_str())) {
+	if(rename(src_path.c_str(), dst_path.c_str())) {
 		// try manual copy
 		total_bytes = copy_file(src_path, tmp_dst_path);
-	}
-	remove(src_path.c_str());
-	if(rename(tmp_dst_path.c_str(), dst_path.c_str())) {
-		throw std::runtime_error("rename() failed for " + tmp_dst_path + " (" + std::string(std::strerror(errno)) + ")");
+
+		if(rename(tmp_dst_path.c_str(), dst_path.c_str())) {
+			throw std::runtime_error("rename() failed for " + tmp_dst_path + " (" + std::string(std::strerror(errno)) + ")");
+		}
+		remove(src_path.c_str());
+	} else {
+		remove(tmp_dst_path.c_str());	// in case an earlier attempt failed
 	}
 	return total_bytes;
 }
-- 
2.43.0


From 96d0968187df5417c9b04944abcecd31ebbd7826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:01 +0000
Subject: [PATCH 13/16] fix: chia_plot: remove the probe files also when too
 few files can be opened

---
 src/chia_plot.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/chia_plot.cpp b/src/chia_plot.cpp
index df75a17..816bbb9 100644
--- a/src/chia_plot.cpp
+++ b/src/chia_plot.cpp
@@ -469,15 +469,18 @@ int main(int argc, char** argv)
 			if(auto file = fopen(path.c_str(), "wb")) {
 				files.emplace_back(file, path);
 			} else {
-				std::cout << "Cannot open at least " << num_files_max
-						<< " files, please raise maximum open file limit in OS." << std::endl;
-				return -2;
+				break;
 			}
 		}
 		for(const auto& entry : files) {
 			fclose(entry.first);
 			remove(entry.second.c_str());
 		}
+		if(files.size() < size_t(num_files_max)) {
+			std::cout << "Cannot open at least " << num_files_max
+					<< " files, please raise maximum open file limit in OS." << std::endl;
+			return -2;
+		}
 	}
 
 	if(num_plots > 1 || num_plots < 0) {
-- 
2.43.0


From c3eced9f0dfdb5087e1b18f955cf7f86a4225e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:25 +0000
Subject: [PATCH 14/16] fix: text that is not hexadecimal was accepted as a key
 or plot id

---
 include/chia/util.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/chia/util.hpp b/include/chia/util.hpp
index 5e563a2..ec5459e 100644
--- a/include/chia/util.hpp
+++ b/include/chia/util.hpp
@@ -16,6 +16,7 @@
 #define SRC_CPP_UTIL_HPP_
 
 #include <cassert>
+#include <cctype>
 #include <chrono>
 #include <cstring>
 #include <fstream>
@@ -384,6 +385,14 @@ inline
 std::vector<uint8_t> hex_to_bytes(const std::string& hex)
 {
 	std::vector<uint8_t> result;
+	if(hex.length() % 2) {
+		return result;
+	}
+	for(const char c : hex) {
+		if(!::isxdigit((unsigned char)c)) {
+			return result;
+		}
+	}
 	for(size_t i = 0; i < hex.length(); i += 2) {
 		const std::string byteString = hex.substr(i, 2);
 		result.push_back(::strtol(byteString.c_str(), NULL, 16));
-- 
2.43.0


From f31c8829c76d1417d4e59e3b751101d39a697578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:25 +0000
Subject: [PATCH 15/16] fix: a thread multiplier below one was accepted and
 failed only after phase 1

---
 src/chia_plot.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/chia_plot.cpp b/src/chia_plot.cpp
index 816bbb9..e13d77f 100644
--- a/src/chia_plot.cpp
+++ b/src/chia_plot.cpp
@@ -396,6 +396,10 @@ int main(int argc, char** argv)
 		std::cout << "Invalid threads parameter: " << num_threads << " (supported: [1..1024])" << std::endl;
 		return -2;
 	}
+	if(phase2::g_thread_multi < 1) {
+		std::cout << "Invalid rmulti2 parameter: " << phase2::g_thread_multi << " (needs to be at least 1)" << std::endl;
+		return -2;
+	}
 	if(log_num_buckets < 4 || log_num_buckets > 16) {
 		std::cout << "Invalid buckets parameter -u: 2^" << log_num_buckets << " (supported: 2^[4..16])" << std::endl;
 		return -2;
-- 
2.43.0


From a18631c34dd255a096b30c15c1851ab91665afd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:31 +0000
Subject: [PATCH 16/16] fix: DiskSort: k below 2 * log2(buckets) ended with an
 error in phase 3, after all the work

---
 include/chia/DiskSort.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/chia/DiskSort.hpp b/include/chia/DiskSort.hpp
index ceec29d..5a6d2c4 100644
--- a/include/chia/DiskSort.hpp
+++ b/include/chia/DiskSort.hpp
@@ -190,10 +190,8 @@ void DiskSort<T, Key>::read_bucket(	std::pair<size_t, size_t>& index,
 	auto& bucket = buckets[index.first];
 	bucket.open("rb");
 	
-	const int key_shift = bucket_key_shift - log_num_buckets;
-	if(key_shift < 0) {
-		throw std::logic_error("key_shift < 0");
-	}
+	// with few key bits left a bucket has less than 2^log_num_buckets different keys
+	const int key_shift = std::max(bucket_key_shift - log_num_buckets, 0);
 	std::unordered_map<size_t, std::vector<T>> table;
 	table.reserve(size_t(1) << log_num_buckets);
 	
-- 
2.43.0

