From 590155741be301471dbf2a1e9a9aeedadd987218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:15 +0000
Subject: [PATCH 01/24] fix: XXH64 used the aligned read path for unaligned
 input

---
 include/nudb/detail/xxhash.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nudb/detail/xxhash.hpp b/include/nudb/detail/xxhash.hpp
index 648b2cf..6c1b612 100644
--- a/include/nudb/detail/xxhash.hpp
+++ b/include/nudb/detail/xxhash.hpp
@@ -316,9 +316,9 @@ XXH64(void const* data, size_t bytes, std::uint64_t seed)
     // Use faster algorithm if aligned
     if((reinterpret_cast<std::uintptr_t>(data) & 7) == 0)
         return XXH64_endian_align(data, bytes, seed,
-            is_little_endian{}, std::false_type{});
+            is_little_endian{}, std::true_type{});
     return XXH64_endian_align(data, bytes, seed,
-        is_little_endian{}, std::true_type{});
+        is_little_endian{}, std::false_type{});
 }
 
 } // detail
-- 
2.43.0


From 90ac0d01b824c8a575f0fada3491d1a517cdd048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:17 +0000
Subject: [PATCH 02/24] fix: close after a failed commit kept the files open

---
 include/nudb/impl/basic_store.ipp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/nudb/impl/basic_store.ipp b/include/nudb/impl/basic_store.ipp
index 8d61a95..4414a2f 100644
--- a/include/nudb/impl/basic_store.ipp
+++ b/include/nudb/impl/basic_store.ipp
@@ -207,6 +207,7 @@ close(error_code& ec)
         if(ecb_)
         {
             ec = ec_;
+            s_ = boost::none;
             return;
         }
         s_->lf.close();
-- 
2.43.0


From b892a55e4c17ac7b2923857f5eb273d36c77f011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:17 +0000
Subject: [PATCH 03/24] fix: rekey with an item count of zero made a key file
 without buckets

---
 include/nudb/impl/rekey.ipp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/nudb/impl/rekey.ipp b/include/nudb/impl/rekey.ipp
index 82cebf5..2457bac 100644
--- a/include/nudb/impl/rekey.ipp
+++ b/include/nudb/impl/rekey.ipp
@@ -83,9 +83,10 @@ rekey(
     kh.block_size = blockSize;
     kh.load_factor = std::min<std::size_t>(
         static_cast<std::size_t>(65536.0f * loadFactor), 65535);
-    kh.buckets = static_cast<std::size_t>(
+    // There is always at least one bucket
+    kh.buckets = std::max<std::size_t>(1, static_cast<std::size_t>(
         std::ceil(itemCount /(
-            bucket_capacity(kh.block_size) * loadFactor)));
+            bucket_capacity(kh.block_size) * loadFactor))));
     kh.modulus = ceil_pow2(kh.buckets);
     // Create key file
     File kf{args...};
-- 
2.43.0


From 3984cf7d12e3fd7cc8dbb2ee152267728685eae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:17 +0000
Subject: [PATCH 04/24] fix: rekey erased the log before the new files were
 synced

---
 include/nudb/impl/rekey.ipp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/nudb/impl/rekey.ipp b/include/nudb/impl/rekey.ipp
index 2457bac..7db3035 100644
--- a/include/nudb/impl/rekey.ipp
+++ b/include/nudb/impl/rekey.ipp
@@ -236,6 +236,12 @@ rekey(
             return;
     }
     dw.flush(ec);
+    if(ec)
+        return;
+    df.sync(ec);
+    if(ec)
+        return;
+    kf.sync(ec);
     if(ec)
         return;
     lf.close();
-- 
2.43.0


From eff91d73c231a412465567bd8b641fb23144ae7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:17 +0000
Subject: [PATCH 05/24] fix: interrupting the recovery of a rekey could leave a
 log without key file

---
 include/nudb/impl/recover.ipp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/nudb/impl/recover.ipp b/include/nudb/impl/recover.ipp
index e449c36..c5a2671 100644
--- a/include/nudb/impl/recover.ipp
+++ b/include/nudb/impl/recover.ipp
@@ -186,10 +186,21 @@ trunc_files:
     }
     else
     {
+        // The key file goes last, emptied so that it is
+        // recognized as unusable if this is interrupted.
+        kf.trunc(0, ec);
+        if(ec)
+            return;
+        kf.sync(ec);
+        if(ec)
+            return;
         kf.close();
-        File::erase(key_path, ec);
+        lf.close();
+        File::erase(log_path, ec);
         if(ec)
             return;
+        File::erase(key_path, ec);
+        return;
     }
 clear_log:
     lf.trunc(0, ec);
-- 
2.43.0


From 9664e5d2c1a789131ac39f3431f16a83e97328d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:17 +0000
Subject: [PATCH 06/24] fix: create and recover bypassed the File template
 argument

---
 include/nudb/impl/create.ipp  | 8 ++++----
 include/nudb/impl/recover.ipp | 2 +-
 include/nudb/native_file.hpp  | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/nudb/impl/create.ipp b/include/nudb/impl/create.ipp
index ee560c6..e73ec90 100644
--- a/include/nudb/impl/create.ipp
+++ b/include/nudb/impl/create.ipp
@@ -148,11 +148,11 @@ create(
     }
 fail:
     if(edf)
-        erase_file(dat_path);
+        erase_file<File>(dat_path);
     if(ekf)
-        erase_file(key_path);
+        erase_file<File>(key_path);
     if(elf)
-        erase_file(log_path);
+        erase_file<File>(log_path);
 }
 
 template<
@@ -173,7 +173,7 @@ create(
     error_code& ec,
     Args&&... args)
 {
-    create<Hasher>(dat_path, key_path, log_path,
+    create<Hasher, File>(dat_path, key_path, log_path,
             appnum, make_uid(), salt, key_size, blockSize,
             load_factor, ec, args...);
 }
diff --git a/include/nudb/impl/recover.ipp b/include/nudb/impl/recover.ipp
index c5a2671..1c83599 100644
--- a/include/nudb/impl/recover.ipp
+++ b/include/nudb/impl/recover.ipp
@@ -66,7 +66,7 @@ recover(
     if(keyFileSize <= key_file_header::size)
     {
         kf.close();
-        erase_file(log_path, ec);
+        erase_file<File>(log_path, ec);
         if(ec)
             return;
         File::erase(key_path, ec);
diff --git a/include/nudb/native_file.hpp b/include/nudb/native_file.hpp
index 241119a..13cb885 100644
--- a/include/nudb/native_file.hpp
+++ b/include/nudb/native_file.hpp
@@ -46,7 +46,7 @@ inline
 void
 erase_file(path_type const& path, error_code& ec)
 {
-    native_file::erase(path, ec);
+    File::erase(path, ec);
     if(ec == errc::no_such_file_or_directory)
         ec = {};
 }
-- 
2.43.0


From 6eaa93ea77d413e18b5ea9563a4aa1379c35bf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:17 +0000
Subject: [PATCH 07/24] fix: create accepted key sizes and load factors that
 open rejects

---
 include/nudb/impl/create.ipp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/nudb/impl/create.ipp b/include/nudb/impl/create.ipp
index e73ec90..916cf73 100644
--- a/include/nudb/impl/create.ipp
+++ b/include/nudb/impl/create.ipp
@@ -63,7 +63,7 @@ create(
         "File requirements not met");
 
     using namespace detail;
-    if(key_size < 1)
+    if(key_size < 1 || key_size > field<std::uint16_t>::max)
     {
         ec = error::invalid_key_size;
         return;
@@ -73,7 +73,8 @@ create(
         ec = error::invalid_block_size;
         return;
     }
-    if(load_factor <= 0.f || load_factor >= 1.f)
+    // The smallest factor the key file header can hold is 1/65536
+    if(! (65536.f * load_factor >= 1.f && load_factor < 1.f))
     {
         ec = error::invalid_load_factor;
         return;
-- 
2.43.0


From a594c759ced16a485d81747c750cf8bfdc934663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:17 +0000
Subject: [PATCH 08/24] fix: a failing posix_fadvise was reported as a stale
 errno

---
 include/nudb/impl/posix_file.ipp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/nudb/impl/posix_file.ipp b/include/nudb/impl/posix_file.ipp
index cb33b82..6d5da84 100644
--- a/include/nudb/impl/posix_file.ipp
+++ b/include/nudb/impl/posix_file.ipp
@@ -64,8 +64,14 @@ create(file_mode mode, path_type const& path, error_code& ec)
     if(fd_ == -1)
         return last_err(ec);
 #ifndef __APPLE__
-    if(::posix_fadvise(fd_, 0, 0, result.second) != 0)
-        return last_err(ec);
+    // posix_fadvise returns the error and does not set errno
+    auto const ev = ::posix_fadvise(fd_, 0, 0, result.second);
+    if(ev != 0)
+    {
+        close();
+        ::unlink(path.c_str());
+        return err(ev, ec);
+    }
 #endif
 }
 
@@ -80,8 +86,13 @@ open(file_mode mode, path_type const& path, error_code& ec)
     if(fd_ == -1)
         return last_err(ec);
 #ifndef __APPLE__
-    if(::posix_fadvise(fd_, 0, 0, result.second) != 0)
-        return last_err(ec);
+    // posix_fadvise returns the error and does not set errno
+    auto const ev = ::posix_fadvise(fd_, 0, 0, result.second);
+    if(ev != 0)
+    {
+        close();
+        return err(ev, ec);
+    }
 #endif
 }
 
-- 
2.43.0


From 94fd866de1e3d4b4415dcf63ee1f99d676073baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:17 +0000
Subject: [PATCH 09/24] fix: visit called the callback for a truncated value

---
 include/nudb/impl/visit.ipp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/nudb/impl/visit.ipp b/include/nudb/impl/visit.ipp
index 4d57b95..60af810 100644
--- a/include/nudb/impl/visit.ipp
+++ b/include/nudb/impl/visit.ipp
@@ -68,6 +68,8 @@ visit(
             is = r.prepare(
                 dh.key_size +           // Key
                 size, ec);              // Data
+            if(ec)
+                return;
             std::uint8_t const* const key =
                 is.data(dh.key_size);
             callback(key, dh.key_size,
-- 
2.43.0


From f122bee1591b9e67ea2ccf422b3511e78b93d3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:52 +0000
Subject: [PATCH 10/24] fix: a log record with an impossible bucket overran the
 bucket buffer

---
 include/nudb/detail/bucket.hpp | 5 +++++
 include/nudb/impl/recover.ipp  | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/include/nudb/detail/bucket.hpp b/include/nudb/detail/bucket.hpp
index 8a8efbf..4f96fcd 100644
--- a/include/nudb/detail/bucket.hpp
+++ b/include/nudb/detail/bucket.hpp
@@ -378,6 +378,11 @@ read(bulk_reader<File>& r, error_code& ec)
         return;
     detail::read<std::uint16_t>(is, size_); // Count
     detail::read<uint48_t>(is, spill_);     // Spill
+    if(size_ > bucket_capacity(block_size_))
+    {
+        ec = error::invalid_bucket_size;
+        return;
+    }
     update();
     // Excludes empty bucket entries
     auto const w = size_ * (
diff --git a/include/nudb/impl/recover.ipp b/include/nudb/impl/recover.ipp
index 1c83599..9d655d0 100644
--- a/include/nudb/impl/recover.ipp
+++ b/include/nudb/impl/recover.ipp
@@ -153,6 +153,8 @@ recover(
                 ec = {};
                 break;
             }
+            if(ec)
+                return;
             if(b.spill() && b.spill() + bucketSize > dataFileSize)
             {
                 ec = error::invalid_log_spill;
-- 
2.43.0


From b6983ec22e14f0bf2ee79aa76f628eb609bd998c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:52 +0000
Subject: [PATCH 11/24] fix: verify rejected or miscounted valid spill records

---
 include/nudb/impl/verify.ipp | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/include/nudb/impl/verify.ipp b/include/nudb/impl/verify.ipp
index b10b3e6..bfcb51f 100644
--- a/include/nudb/impl/verify.ipp
+++ b/include/nudb/impl/verify.ipp
@@ -155,14 +155,14 @@ verify_normal(
                 if(ec)
                     return;
                 read<std::uint16_t>(is, size);  // Size
-                if(size != info.bucket_size)
+                // Spills made with the block size of an
+                // earlier key file can have another capacity
+                if(size < bucket_size(1))
                 {
                     ec = error::invalid_spill_size;
                     return;
                 }
-                if(ec)
-                    return;
-                b.read(r, ec);                  // Bucket
+                is = r.prepare(size, ec);           // Bucket
                 if(ec == error::short_read)
                 {
                     ec = error::short_spill;
@@ -170,11 +170,18 @@ verify_normal(
                 }
                 if(ec)
                     return;
+                nkey_t count;
+                read<std::uint16_t>(is, count);     // Count
+                if(bucket_size(count) != size)
+                {
+                    ec = error::invalid_spill_size;
+                    return;
+                }
                 ++info.spill_count_tot;
                 info.spill_bytes_tot +=
                     field<uint48_t>::size +     // Zero
                     field<uint16_t>::size +     // Size
-                    b.actual_size();            // Bucket
+                    size;                       // Bucket
             }
             progress(work + offset, nwork);
         }
@@ -469,13 +476,14 @@ verify_fast(
                 if(ec)
                     return;
                 read<std::uint16_t>(is, size);      // Size
-                if(bucket_size(
-                    bucket_capacity(size)) != size)
+                // Spills made with the block size of an
+                // earlier key file can have another capacity
+                if(size < bucket_size(1))
                 {
                     ec = error::invalid_spill_size;
                     return;
                 }
-                r.prepare(size, ec);                // Bucket
+                is = r.prepare(size, ec);           // Bucket
                 if(ec == error::short_read)
                 {
                     ec = error::short_spill;
@@ -483,13 +491,20 @@ verify_fast(
                 }
                 if(ec)
                     return;
+                nkey_t count;
+                read<std::uint16_t>(is, count);     // Count
+                if(bucket_size(count) != size)
+                {
+                    ec = error::invalid_spill_size;
+                    return;
+                }
                 if(b0 == 0)
                 {
                     ++info.spill_count_tot;
                     info.spill_bytes_tot +=
                         field<uint48_t>::size +     // Zero
                         field<uint16_t>::size +     // Size
-                        tmp.actual_size();          // Bucket
+                        size;                       // Bucket
                 }
             }
             progress(work + offset, nwork);
-- 
2.43.0


From 5887a6d283f15a94a07935e4dd01cc90760e2d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:52 +0000
Subject: [PATCH 12/24] fix: verify with a buffer ignored a wrong size in a
 bucket entry

---
 include/nudb/impl/verify.ipp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/nudb/impl/verify.ipp b/include/nudb/impl/verify.ipp
index bfcb51f..232ffb7 100644
--- a/include/nudb/impl/verify.ipp
+++ b/include/nudb/impl/verify.ipp
@@ -423,6 +423,7 @@ verify_fast(
                 // Check bucket and spills
                 bucket b{kh.block_size, buf.get() +
                     (n - b0) * kh.block_size};
+                std::size_t esize = 0;
                 ++fetches;
                 for(;;)
                 {
@@ -432,6 +433,7 @@ verify_fast(
                         auto const item = b[i];
                         if(item.hash != h)
                             break;
+                        esize = item.size;
                         if(item.offset == offset)
                             goto found;
                         ++fetches;
@@ -454,6 +456,11 @@ verify_fast(
                     ++fetches;
                 }
             found:
+                if(esize != size)
+                {
+                    ec = error::size_mismatch;
+                    return;
+                }
                 // Update
                 ++info.value_count;
                 info.value_bytes += size;
-- 
2.43.0


From 07eb1b4517558fdda2deda713fe699f622ffa776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:52 +0000
Subject: [PATCH 13/24] fix: verify did not report values with duplicate keys

---
 include/nudb/impl/verify.ipp | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/include/nudb/impl/verify.ipp b/include/nudb/impl/verify.ipp
index 232ffb7..8684ff7 100644
--- a/include/nudb/impl/verify.ipp
+++ b/include/nudb/impl/verify.ipp
@@ -17,6 +17,7 @@
 #include <boost/core/ignore_unused.hpp>
 #include <algorithm>
 #include <cstddef>
+#include <cstring>
 #include <limits>
 #include <string>
 
@@ -119,6 +120,23 @@ verify_normal(
                             break;
                         if(item.offset == offset)
                             goto found;
+                        // Another value with the same hash
+                        df.read(item.offset +
+                            field<uint48_t>::size,
+                                pd, kh.key_size, ec);
+                        if(ec == error::short_read)
+                        {
+                            ec = error::missing_value;
+                            return;
+                        }
+                        if(ec)
+                            return;
+                        if(std::memcmp(pd,
+                            key, kh.key_size) == 0)
+                        {
+                            ec = error::duplicate_value;
+                            return;
+                        }
                         ++fetches;
                     }
                     auto const spill = b.spill();
@@ -329,6 +347,7 @@ verify_fast(
 
     std::uint64_t fetches = 0;
     buffer buf{(chunkSize + 1) * kh.block_size};
+    buffer kbuf{kh.key_size};
     bucket tmp{kh.block_size,
         buf.get() + chunkSize * kh.block_size};
     for(nsize_t b0 = 0; b0 < kh.buckets; b0 += chunkSize)
@@ -436,6 +455,23 @@ verify_fast(
                         esize = item.size;
                         if(item.offset == offset)
                             goto found;
+                        // Another value with the same hash
+                        df.read(item.offset +
+                            field<uint48_t>::size,
+                                kbuf.get(), kh.key_size, ec);
+                        if(ec == error::short_read)
+                        {
+                            ec = error::missing_value;
+                            return;
+                        }
+                        if(ec)
+                            return;
+                        if(std::memcmp(kbuf.get(),
+                            key, kh.key_size) == 0)
+                        {
+                            ec = error::duplicate_value;
+                            return;
+                        }
                         ++fetches;
                     }
                     auto const spill = b.spill();
-- 
2.43.0


From 8771875cbd10e169bd0660618cfba4d6d094d066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:52 +0000
Subject: [PATCH 14/24] fix: recover applied the rekey log of another database

---
 include/nudb/impl/recover.ipp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/nudb/impl/recover.ipp b/include/nudb/impl/recover.ipp
index 9d655d0..6c069f9 100644
--- a/include/nudb/impl/recover.ipp
+++ b/include/nudb/impl/recover.ipp
@@ -104,7 +104,18 @@ recover(
     if(ec)
         return;
     if(lh.key_file_size == 0)
+    {
+        // There is no valid key file to check against
+        if(lh.uid != dh.uid)
+            ec = error::uid_mismatch;
+        else if(lh.appnum != dh.appnum)
+            ec = error::appnum_mismatch;
+        else if(lh.key_size != dh.key_size)
+            ec = error::key_size_mismatch;
+        if(ec)
+            return;
         goto trunc_files;
+    }
     {
         // Read key file header
         key_file_header kh;
-- 
2.43.0


From a063cfe4ed8ebe81bb2630244f9a7090e039b46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:31 +0000
Subject: [PATCH 15/24] fix: recover erased the rekey log before the emptied
 key file was synced

---
 include/nudb/impl/recover.ipp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/nudb/impl/recover.ipp b/include/nudb/impl/recover.ipp
index 6c069f9..0eda968 100644
--- a/include/nudb/impl/recover.ipp
+++ b/include/nudb/impl/recover.ipp
@@ -65,6 +65,11 @@ recover(
         return;
     if(keyFileSize <= key_file_header::size)
     {
+        // Make sure it is still recognized as
+        // unusable once the log file is gone.
+        kf.sync(ec);
+        if(ec)
+            return;
         kf.close();
         erase_file<File>(log_path, ec);
         if(ec)
-- 
2.43.0


From 6ba551430113e67b44039f34b4c3df5569def402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:31 +0000
Subject: [PATCH 16/24] fix: impossible sizes and indexes in damaged files were
 asserted on or truncated

---
 include/nudb/detail/field.hpp | 7 +++++--
 include/nudb/impl/recover.ipp | 1 -
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/nudb/detail/field.hpp b/include/nudb/detail/field.hpp
index e3101b1..9d78fcb 100644
--- a/include/nudb/detail/field.hpp
+++ b/include/nudb/detail/field.hpp
@@ -8,6 +8,7 @@
 #ifndef NUDB_FIELD_HPP
 #define NUDB_FIELD_HPP
 
+#include <algorithm>
 #include <nudb/detail/stream.hpp>
 #include <boost/assert.hpp>
 #include <cstddef>
@@ -171,8 +172,10 @@ read_size48(istream& is, std::size_t& u)
 {
     std::uint64_t v;
     read<uint48_t>(is, v);
-    BOOST_ASSERT(v <= std::numeric_limits<std::uint32_t>::max());
-    u = static_cast<std::uint32_t>(v);
+    // Sizes which are not valid must not be truncated to ones
+    // which are, the caller's bounds checks reject them.
+    u = static_cast<std::size_t>(std::min<std::uint64_t>(
+        v, std::numeric_limits<std::size_t>::max() / 2));
 }
 
 // write field to ostream
diff --git a/include/nudb/impl/recover.ipp b/include/nudb/impl/recover.ipp
index 0eda968..15c4f34 100644
--- a/include/nudb/impl/recover.ipp
+++ b/include/nudb/impl/recover.ipp
@@ -160,7 +160,6 @@ recover(
                 std::uint64_t v;
                 // VFALCO This should have been a uint32_t
                 read<std::uint64_t>(is, v); // Index
-                BOOST_ASSERT(v <= std::numeric_limits<std::uint32_t>::max());
                 n = static_cast<nsize_t>(v);
             }
             b.read(r, ec);                  // Bucket
-- 
2.43.0


From be61b5c24666253c55adb425ce5ff0ae5da1c8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:44 +0000
Subject: [PATCH 17/24] fix: verify without buffer accepted bucket entries that
 reflect no value

---
 include/nudb/impl/verify.ipp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/nudb/impl/verify.ipp b/include/nudb/impl/verify.ipp
index 8684ff7..6dfdebd 100644
--- a/include/nudb/impl/verify.ipp
+++ b/include/nudb/impl/verify.ipp
@@ -274,6 +274,13 @@ verify_normal(
             progress(work, nwork);
         }
     }
+    // Every value was found in a bucket, so any
+    // more bucket entries do not reflect a value.
+    if(info.key_count != info.value_count)
+    {
+        ec = error::missing_value;
+        return;
+    }
     float sum = 0;
     for(size_t i = 0; i < info.hist.size(); ++i)
         sum += info.hist[i] * (i + 1);
-- 
2.43.0


From 05f1bb62dc219aeea24d4336a6e6ef90350a9c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:44 +0000
Subject: [PATCH 18/24] fix: verify with a buffer read beyond it when a bucket
 count is invalid

---
 include/nudb/impl/verify.ipp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/nudb/impl/verify.ipp b/include/nudb/impl/verify.ipp
index 6dfdebd..97dc99d 100644
--- a/include/nudb/impl/verify.ipp
+++ b/include/nudb/impl/verify.ipp
@@ -377,6 +377,11 @@ verify_fast(
         {
             bucket b{kh.block_size,
                 buf.get() + i * kh.block_size};
+            if(b.size() > kh.capacity)
+            {
+                ec = error::invalid_bucket_size;
+                return;
+            }
             nkeys[i] = b.size();
             std::size_t nspill = 0;
             auto spill = b.spill();
-- 
2.43.0


From be4803d602128a007ac7149c5310c17d0cf16960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:25 +0000
Subject: [PATCH 19/24] fix: a refused open left an empty log file behind

---
 include/nudb/impl/basic_store.ipp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/nudb/impl/basic_store.ipp b/include/nudb/impl/basic_store.ipp
index 4414a2f..70d3fc7 100644
--- a/include/nudb/impl/basic_store.ipp
+++ b/include/nudb/impl/basic_store.ipp
@@ -144,11 +144,6 @@ open(
     kf.open(file_mode::write, key_path, ec);
     if(ec)
         return;
-    lf.create(file_mode::append, log_path, ec);
-    if(ec)
-        return;
-    // VFALCO TODO Erase empty log file if this
-    //             function subsequently fails.
     dat_file_header dh;
     read(df, dh, ec);
     if(ec)
@@ -164,6 +159,11 @@ open(
     if(ec)
         return;
     verify<Hasher>(dh, kh, ec);
+    if(ec)
+        return;
+    // Created last so that no log file
+    // is left when the files are refused.
+    lf.create(file_mode::append, log_path, ec);
     if(ec)
         return;
     boost::optional<state> s;
-- 
2.43.0


From 76c3b620b80fc92f7ccf78f77ed4a1bff82b70f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:25 +0000
Subject: [PATCH 20/24] fix: make_uid and make_salt could return only 2^32
 different values

---
 include/nudb/impl/create.ipp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/nudb/impl/create.ipp b/include/nudb/impl/create.ipp
index 916cf73..a2eeab9 100644
--- a/include/nudb/impl/create.ipp
+++ b/include/nudb/impl/create.ipp
@@ -24,20 +24,22 @@ template<class>
 std::uint64_t
 make_uid()
 {
+    // Seeding a generator from one 32-bit word
+    // would leave only 2^32 different values.
     std::random_device rng;
-    std::mt19937_64 gen {rng()};
-    std::uniform_int_distribution <std::size_t> dist;
-    return dist(gen);
+    std::uniform_int_distribution <std::uint64_t> dist;
+    return dist(rng);
 }
 
 template<class>
 std::uint64_t
 make_salt()
 {
+    // Seeding a generator from one 32-bit word
+    // would leave only 2^32 different values.
     std::random_device rng;
-    std::mt19937_64 gen {rng()};
-    std::uniform_int_distribution <std::size_t> dist;
-    return dist(gen);
+    std::uniform_int_distribution <std::uint64_t> dist;
+    return dist(rng);
 }
 
 template<
-- 
2.43.0


From 5785f5e39a942d8c2b6462e2f2903306702c277c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:05 +0000
Subject: [PATCH 21/24] fix: circular spill records made fetch, insert and
 verify loop forever

---
 include/nudb/detail/bucket.hpp    | 25 +++++++++++++++++++++++++
 include/nudb/impl/basic_store.ipp |  6 +++---
 include/nudb/impl/verify.ipp      |  8 ++++----
 3 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/include/nudb/detail/bucket.hpp b/include/nudb/detail/bucket.hpp
index 4f96fcd..af678e1 100644
--- a/include/nudb/detail/bucket.hpp
+++ b/include/nudb/detail/bucket.hpp
@@ -153,6 +153,13 @@ public:
     void
     read(File& f, noff_t, error_code& ec);
 
+    // Read a spilled bucket from the
+    // file at the specified offset.
+    //
+    template<class File>
+    void
+    read_spill(File& f, noff_t, error_code& ec);
+
     // Read a compact bucket
     //
     template<class File>
@@ -364,6 +371,24 @@ read(File& f, noff_t offset, error_code& ec)
     }
 }
 
+template<class _>
+template<class File>
+void
+bucket_t<_>::
+read_spill(File& f, noff_t offset, error_code& ec)
+{
+    read(f, offset, ec);
+    if(ec)
+        return;
+    // A spill record can only refer to an earlier
+    // one, anything else would never terminate.
+    if(spill_ >= offset)
+    {
+        ec = error::invalid_spill_size;
+        return;
+    }
+}
+
 template<class _>
 template<class File>
 void
diff --git a/include/nudb/impl/basic_store.ipp b/include/nudb/impl/basic_store.ipp
index 70d3fc7..86a61d6 100644
--- a/include/nudb/impl/basic_store.ipp
+++ b/include/nudb/impl/basic_store.ipp
@@ -401,7 +401,7 @@ fetch(
         buf1.reserve(s_->kh.block_size);
         b = bucket(s_->kh.block_size,
             buf1.get());
-        b.read(s_->df, spill, ec);
+        b.read_spill(s_->df, spill, ec);
         if(ec)
             return;
     }
@@ -447,7 +447,7 @@ exists(
         if(! spill)
             break;
         b = bucket(s_->kh.block_size, pb);
-        b.read(s_->df, spill, ec);
+        b.read_spill(s_->df, spill, ec);
         if(ec)
             return false;
     }
@@ -522,7 +522,7 @@ split(
                 if(ec)
                     return;
             }
-            tmp.read(s_->df, spill, ec);
+            tmp.read_spill(s_->df, spill, ec);
             if(ec)
                 return;
             for(std::size_t i = 0; i < tmp.size(); ++i)
diff --git a/include/nudb/impl/verify.ipp b/include/nudb/impl/verify.ipp
index 97dc99d..1500bd7 100644
--- a/include/nudb/impl/verify.ipp
+++ b/include/nudb/impl/verify.ipp
@@ -145,7 +145,7 @@ verify_normal(
                         ec = error::orphaned_value;
                         return;
                     }
-                    b.read(df, spill, ec);
+                    b.read_spill(df, spill, ec);
                     if(ec == error::short_read)
                     {
                         ec = error::short_spill;
@@ -257,7 +257,7 @@ verify_normal(
                 }
                 if(! b.spill())
                     break;
-                b.read(df, b.spill(), ec);
+                b.read_spill(df, b.spill(), ec);
                 if(ec)
                     return;
                 spill = true;
@@ -387,7 +387,7 @@ verify_fast(
             auto spill = b.spill();
             while(spill != 0)
             {
-                tmp.read(df, spill, ec);
+                tmp.read_spill(df, spill, ec);
                 if(ec == error::short_read)
                 {
                     ec = error::short_spill;
@@ -493,7 +493,7 @@ verify_fast(
                         return;
                     }
                     b = tmp;
-                    b.read(df, spill, ec);
+                    b.read_spill(df, spill, ec);
                     if(ec == error::short_read)
                     {
                         ec = error::short_spill;
-- 
2.43.0


From 795121712611470e38a7475ad232bb39cbb9ead1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:52 +0000
Subject: [PATCH 22/24] fix: rekey accepted block sizes and load factors that
 open rejects

---
 include/nudb/impl/rekey.ipp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/nudb/impl/rekey.ipp b/include/nudb/impl/rekey.ipp
index 7db3035..1ab284f 100644
--- a/include/nudb/impl/rekey.ipp
+++ b/include/nudb/impl/rekey.ipp
@@ -44,6 +44,18 @@ rekey(
     static_assert(is_Progress<Progress>::value,
         "Progress requirements not met");
     using namespace detail;
+    // Same requirements as create
+    if(blockSize > field<std::uint16_t>::max ||
+        bucket_capacity(blockSize) < 1)
+    {
+        ec = error::invalid_block_size;
+        return;
+    }
+    if(! (65536.f * loadFactor >= 1.f && loadFactor < 1.f))
+    {
+        ec = error::invalid_load_factor;
+        return;
+    }
     auto const readSize = 1024 * block_size(dat_path);
     auto const writeSize = 16 * block_size(key_path);
 
-- 
2.43.0


From 3e496ea256ab75018e5fb96f15bd64c8e5ca0c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:38 +0000
Subject: [PATCH 23/24] fix: flush after a failed commit wrote the stored error
 while other threads read it

---
 include/nudb/impl/basic_store.ipp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/nudb/impl/basic_store.ipp b/include/nudb/impl/basic_store.ipp
index 86a61d6..2331617 100644
--- a/include/nudb/impl/basic_store.ipp
+++ b/include/nudb/impl/basic_store.ipp
@@ -766,6 +766,10 @@ flush()
 #if NUDB_DEBUG_LOG
     beast::unit_test::dstream dout{std::cout};
 #endif
+    // Nothing is committed after an error, and other
+    // threads read ec_ without a lock once ecb_ is set.
+    if(ecb_)
+        return;
     {
         unique_lock_type m{m_};
         s_->when = clock_type::now();
-- 
2.43.0


From f6bfc21f5d1feca27c01a90e952be5efaa563875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:43 +0000
Subject: [PATCH 24/24] fix: a slow read held up other fetches and inserts
 during a commit

fetch and insert held the store's lock while they read records of a
bucket in the cache of a commit, so that the next insert waited for the
device, and with it all fetches.
---
 include/nudb/basic_store.hpp      |  2 +-
 include/nudb/impl/basic_store.ipp | 28 +++++++++++++++++++---------
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/include/nudb/basic_store.hpp b/include/nudb/basic_store.hpp
index 12617cb..ad29fe6 100644
--- a/include/nudb/basic_store.hpp
+++ b/include/nudb/basic_store.hpp
@@ -451,7 +451,7 @@ private:
 
     bool
     exists(detail::nhash_t h, void const* key,
-        detail::shared_lock_type* lock, detail::bucket b, error_code& ec);
+        detail::bucket b, error_code& ec);
 
     void
     split(detail::bucket& b1, detail::bucket& b2,
diff --git a/include/nudb/impl/basic_store.ipp b/include/nudb/impl/basic_store.ipp
index 2331617..e617c84 100644
--- a/include/nudb/impl/basic_store.ipp
+++ b/include/nudb/impl/basic_store.ipp
@@ -252,7 +252,16 @@ cont:
     auto const n = bucket_index(h, buckets_, modulus_);
     auto const iter = s_->c1.find(n);
     if(iter != s_->c1.end())
-        return fetch(h, key, iter->second, callback, ec);
+    {
+        buffer buf{s_->kh.block_size};
+        // Copy the bucket so that the lock is
+        // not held while records are read.
+        ostream os{buf.get(), buf.size()};
+        iter->second.write(os);
+        m.unlock();
+        return fetch(h, key, bucket{s_->kh.block_size,
+            buf.get()}, callback, ec);
+    }
     genlock<gentex> g{g_};
     m.unlock();
     buffer buf{s_->kh.block_size};
@@ -299,8 +308,14 @@ insert(
         auto const iter = s_->c1.find(n);
         if(iter != s_->c1.end())
         {
-            auto const found = exists(
-                h, key, &m, iter->second, ec);
+            buffer buf{s_->kh.block_size};
+            // Copy the bucket so that the lock is
+            // not held while records are read.
+            ostream os{buf.get(), buf.size()};
+            iter->second.write(os);
+            m.unlock();
+            auto const found = exists(h, key,
+                bucket{s_->kh.block_size, buf.get()}, ec);
             if(ec)
                 return;
             if(found)
@@ -308,7 +323,6 @@ insert(
                 ec = error::key_exists;
                 return;
             }
-            // m is now unlocked
         }
         else
         {
@@ -322,7 +336,7 @@ insert(
                    static_cast<noff_t>(n + 1) * s_->kh.block_size, ec);
             if(ec)
                 return;
-            auto const found = exists(h, key, nullptr, b, ec);
+            auto const found = exists(h, key, b, ec);
             if(ec)
                 return;
             if(found)
@@ -409,7 +423,6 @@ fetch(
 }
 
 // Returns `true` if the key exists
-// lock is unlocked after the first bucket processed
 //
 template<class Hasher, class File>
 bool
@@ -417,7 +430,6 @@ basic_store<Hasher, File>::
 exists(
     detail::nhash_t h,
     void const* key,
-    detail::shared_lock_type* lock,
     detail::bucket b,
     error_code& ec)
 {
@@ -442,8 +454,6 @@ exists(
                 return true;
         }
         auto spill = b.spill();
-        if(lock && lock->owns_lock())
-            lock->unlock();
         if(! spill)
             break;
         b = bucket(s_->kh.block_size, pb);
-- 
2.43.0

