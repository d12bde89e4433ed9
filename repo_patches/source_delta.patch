From 2702106819e3160e7d274cae5d5cb40d578b0745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:04 +0000
Subject: [PATCH 01/25] fix: reject writes and truncations beyond the block
 limit before changing the file

A write or truncation beyond the maximum block number was only refused (if
at all) after the file had already been extended to the requested offset,
and a sparse extension bypassed the limit altogether, so two plaintext
positions could share one block number.
---
 sources/lite_stream.cpp |  2 ++
 sources/lite_stream.h   |  2 ++
 sources/streams.cpp     | 16 +++++++++++++++-
 sources/streams.h       | 12 ++++++++++++
 4 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/sources/lite_stream.cpp b/sources/lite_stream.cpp
index 72bdc47..5a2d90c 100644
--- a/sources/lite_stream.cpp
+++ b/sources/lite_stream.cpp
@@ -253,6 +253,8 @@ length_type AESGCMCryptStream::size() const
         : calculate_real_size(underlying_size - m_padding_size, m_block_size, m_iv_size);
 }
 
+length_type AESGCMCryptStream::max_size() const noexcept { return MAX_BLOCKS * get_block_size(); }
+
 void AESGCMCryptStream::adjust_logical_size(length_type length)
 {
     auto new_blocks = length / get_block_size();
diff --git a/sources/lite_stream.h b/sources/lite_stream.h
index 79efb10..0828ae1 100644
--- a/sources/lite_stream.h
+++ b/sources/lite_stream.h
@@ -71,6 +71,8 @@ protected:
 
     void adjust_logical_size(length_type length) override;
 
+    length_type max_size() const noexcept override;
+
 public:
     explicit AESGCMCryptStream(std::shared_ptr<StreamBase> stream,
                                const key_type& master_key,
diff --git a/sources/streams.cpp b/sources/streams.cpp
index 91c1263..2bdd5b2 100644
--- a/sources/streams.cpp
+++ b/sources/streams.cpp
@@ -205,6 +205,7 @@ void BlockBasedStream::write(const void* input, offset_type offset, length_type
     {
         return;
     }
+    check_size_limit(offset, length);
     auto current_size = this->size();
     if (offset > current_size)
         unchecked_resize(current_size, offset);
@@ -265,7 +266,18 @@ void BlockBasedStream::zero_fill(offset_type offset, offset_type finish)
     unchecked_write(ZeroFillTag(), offset, finish - offset);
 }
 
-void BlockBasedStream::resize(length_type new_size) { unchecked_resize(size(), new_size); }
+void BlockBasedStream::check_size_limit(offset_type offset, length_type length) const
+{
+    auto limit = max_size();
+    if (length > limit || offset > limit - length)
+        throw StreamTooLongException(limit, offset + length);
+}
+
+void BlockBasedStream::resize(length_type new_size)
+{
+    check_size_limit(0, new_size);
+    unchecked_resize(size(), new_size);
+}
 
 void BlockBasedStream::unchecked_resize(length_type current_size, length_type new_size)
 {
@@ -468,6 +480,8 @@ namespace internal
             return data_read_len;
         }
 
+        length_type max_size() const noexcept override { return max_block_number * m_block_size; }
+
         void adjust_logical_size(length_type length) override
         {
             m_stream->resize(length);
diff --git a/sources/streams.h b/sources/streams.h
index af20b37..6eb7f74 100644
--- a/sources/streams.h
+++ b/sources/streams.h
@@ -4,6 +4,7 @@
 #include "object.h"
 
 #include <absl/container/fixed_array.h>
+#include <limits>
 #include <memory>
 #include <utility>
 #include <variant>
@@ -108,7 +109,18 @@ protected:
         = 0;
     virtual void adjust_logical_size(length_type length) = 0;
 
+    /**
+     * The largest size this stream can ever have. Requests beyond it are rejected before anything is
+     * modified.
+     */
+    virtual length_type max_size() const noexcept
+    {
+        return std::numeric_limits<length_type>::max();
+    }
+
 private:
+    void check_size_limit(offset_type offset, length_type length) const;
+
     struct ZeroFillTag
     {
     };
-- 
2.43.0


From 60afb6ee16981f02d2a713262f4cdaae76d342ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:28 +0000
Subject: [PATCH 02/25] fix: compute directory page offsets in 64 bits so pages
 beyond 4 GiB do not alias the first ones

---
 sources/btree_dir.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sources/btree_dir.cpp b/sources/btree_dir.cpp
index 5994c14..405f34f 100644
--- a/sources/btree_dir.cpp
+++ b/sources/btree_dir.cpp
@@ -135,7 +135,7 @@ public:
 void BtreeDirectory::read_free_page(uint32_t num, FreePage& fp)
 {
     byte buffer[BLOCK_SIZE];
-    dir_check(m_stream->read(buffer, num * BLOCK_SIZE, BLOCK_SIZE) == BLOCK_SIZE);
+    dir_check(m_stream->read(buffer, static_cast<offset_type>(num) * BLOCK_SIZE, BLOCK_SIZE) == BLOCK_SIZE);
     if (from_little_endian<uint32_t>(buffer) != 0)
     {
         throw CorruptedDirectoryException();
@@ -149,7 +149,7 @@ void BtreeDirectory::write_free_page(uint32_t num, const FreePage& fp)
     byte buffer[BLOCK_SIZE] = {};
     to_little_endian(fp.next, buffer + sizeof(uint32_t));
     to_little_endian(fp.prev, buffer + sizeof(uint32_t) * 2);
-    m_stream->write(buffer, BLOCK_SIZE * num, BLOCK_SIZE);
+    m_stream->write(buffer, static_cast<offset_type>(num) * BLOCK_SIZE, BLOCK_SIZE);
 }
 
 uint32_t BtreeDirectory::allocate_page()
@@ -176,7 +176,7 @@ uint32_t BtreeDirectory::allocate_page()
 
 void BtreeDirectory::deallocate_page(uint32_t num)
 {
-    if (num * BLOCK_SIZE == this->m_stream->size())
+    if (static_cast<offset_type>(num) * BLOCK_SIZE == this->m_stream->size())
     {
         this->m_stream->resize((num - 1) * BLOCK_SIZE);
         return;    // Special case where the stream can be shrinked
@@ -398,7 +398,7 @@ bool BtreeDirectory::read_node(uint32_t num, BtreeDirectory::Node& n)
     if (num == INVALID_PAGE)
         throw CorruptedDirectoryException();
     byte buffer[BLOCK_SIZE];
-    dir_check(m_stream->read(buffer, num * BLOCK_SIZE, BLOCK_SIZE) == BLOCK_SIZE);
+    dir_check(m_stream->read(buffer, static_cast<offset_type>(num) * BLOCK_SIZE, BLOCK_SIZE) == BLOCK_SIZE);
     return n.from_buffer(buffer, array_length(buffer));
 }
 
@@ -408,7 +408,7 @@ void BtreeDirectory::write_node(uint32_t num, const BtreeDirectory::Node& n)
         throw CorruptedDirectoryException();
     byte buffer[BLOCK_SIZE];
     n.to_buffer(buffer, array_length(buffer));
-    m_stream->write(buffer, num * BLOCK_SIZE, BLOCK_SIZE);
+    m_stream->write(buffer, static_cast<offset_type>(num) * BLOCK_SIZE, BLOCK_SIZE);
 }
 
 bool BtreeDirectory::add_entry_impl(std::string_view name, const id_type& id, int type)
-- 
2.43.0


From bc003fe7e1d95659f71818faae14f851a55a851a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:48 +0000
Subject: [PATCH 03/25] fix: set the change time to the current time when file
 times are set

---
 sources/files.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sources/files.cpp b/sources/files.cpp
index ff60aa2..211070a 100644
--- a/sources/files.cpp
+++ b/sources/files.cpp
@@ -337,6 +337,7 @@ void FileBase::utimens(const fuse_timespec* ts)
     if (m_store_time)
     {
         fuse_timespec current_time;
+        OSService::get_current_time(current_time);
 
         if (ts)
         {
-- 
2.43.0


From 3692d189dfc2c6297d7bb6da130ec27bdabd447d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:00 +0000
Subject: [PATCH 04/25] fix: decrypt a lite-format extended attribute with its
 stored length, not that of the caller's buffer

---
 sources/lite_format.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index 12ba4f0..e5b00cf 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -93,7 +93,11 @@ std::vector<byte> XattrCryptor::encrypt(const char* value, size_t size)
 }
 void XattrCryptor::decrypt(const byte* input, size_t size, byte* output, size_t out_size)
 {
-    if (size < infer_encrypted_size(out_size))
+    if (size < infer_encrypted_size(0))
+    {
+        throw XattrVerificationException();
+    }
+    if (out_size < infer_decrypted_size(size))
     {
         throwInvalidArgumentException("Insufficent output buffer size");
     }
@@ -1114,7 +1118,7 @@ int FuseHighLevelOps::vgetxattr(const char* path,
         return static_cast<int>(rc);
     }
     xattr_->decrypt(
-        underlying_data.data(), underlying_data.size(), reinterpret_cast<byte*>(value), size);
+        underlying_data.data(), static_cast<size_t>(rc), reinterpret_cast<byte*>(value), size);
     return static_cast<int>(xattr_->infer_decrypted_size(rc));
 }
 int FuseHighLevelOps::vsetxattr(const char* path,
-- 
2.43.0


From 0cd6fe42a2e752110bb1cefbd7e849fe2278321b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:00 +0000
Subject: [PATCH 05/25] fix: store empty extended attribute values in the lite
 format instead of ignoring them

---
 sources/lite_format.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index e5b00cf..87244c7 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -1133,7 +1133,7 @@ int FuseHighLevelOps::vsetxattr(const char* path,
     {
         return -EINVAL;
     }
-    if (!value || size == 0)
+    if (!value)
     {
         return 0;
     }
-- 
2.43.0


From 660caccaf82ccea5199a693914ae2ae5d1cbfab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:28 +0000
Subject: [PATCH 06/25] fix: refuse a stored configuration whose authentication
 tag is not 16 bytes

---
 sources/params_io.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/sources/params_io.cpp b/sources/params_io.cpp
index 8d121e3..bdf0411 100644
--- a/sources/params_io.cpp
+++ b/sources/params_io.cpp
@@ -202,6 +202,12 @@ DecryptedSecurefsParams decrypt(const LegacySecurefsJsonParams& legacy,
             auto ciphertext = parse_hex(legacy.encrypted_key().ciphertext());
             auto header = get_version_header(legacy.version());
 
+            if (mac.size() != kParamMacSize)
+            {
+                // A truncated tag would verify against a forged ciphertext.
+                throwInvalidArgumentException("The configuration file has a MAC of invalid size");
+            }
+
             CryptoPP::GCM<CryptoPP::AES>::Decryption dec;
             dec.SetKeyWithIV(wrapping_key.data(), wrapping_key.size(), iv.data(), iv.size());
             master_key.resize(ciphertext.size());
@@ -280,6 +286,11 @@ DecryptedSecurefsParams decrypt(const EncryptedSecurefsParams& encparams,
                                 absl::Span<const byte> password,
                                 /* nullable */ StreamBase* key_stream)
 {
+    if (encparams.mac().size() != kParamMacSize)
+    {
+        // A truncated tag would verify against a forged ciphertext.
+        throwInvalidArgumentException("The configuration file has a MAC of invalid size");
+    }
     auto wrapping_key = compute_password_derived_key(encparams, password, key_stream);
     CryptoPP::GCM<CryptoPP::AES>::Decryption dec;
     dec.SetKeyWithIV(wrapping_key.data(),
-- 
2.43.0


From 46f750897331ae73bfb5e36b5106a6794e8be8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:50 +0000
Subject: [PATCH 07/25] fix: report no room for names instead of wrapping
 around when the underlying name limit is tiny

---
 sources/lite_format.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index 87244c7..ea61f58 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -512,6 +512,10 @@ namespace
 
         unsigned max_virtual_path_component_size(unsigned physical_path_component_size) override
         {
+            if (physical_path_component_size <= kSIVSize * 8 / 5)
+            {
+                return 0;
+            }
             if (physical_path_component_size <= (threshold_ + kSIVSize) * 8 / 5)
             {
                 return physical_path_component_size * 5 / 8 - kSIVSize;
-- 
2.43.0


From e2e6e15f61c0c880916ebfe0bc38960c88b769b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:55 +0000
Subject: [PATCH 08/25] fix: reject encrypted names too short to hold their
 authentication tag

---
 sources/lite_format.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index ea61f58..66db4d1 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -306,6 +306,8 @@ namespace
                         base32_decode(slice, slice_size, decoded_part);
                         if (decoded_part.size() >= sizeof(string_buffer))
                             throwVFSException(ENAMETOOLONG);
+                        if (decoded_part.size() <= kSIVSize)
+                            throw InvalidFilenameException(std::string(path));
 
                         bool success = decryptor.decrypt_and_verify(&decoded_part[kSIVSize],
                                                                     decoded_part.size() - kSIVSize,
-- 
2.43.0


From c8a28067ebb234ee7bdc1dd92fd05b2f0d2fa8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:59 +0000
Subject: [PATCH 09/25] fix: check that a directory is empty before removing
 its entry

---
 sources/full_format.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/sources/full_format.cpp b/sources/full_format.cpp
index 9b06aa4..adcefa5 100644
--- a/sources/full_format.cpp
+++ b/sources/full_format.cpp
@@ -229,19 +229,19 @@ int FuseHighLevelOps::vrmdir(const char* path, const fuse_context* ctx)
     id_type id;
     int type;
 
+    FileLockGuard dir_lg(*dirholder);
+    if (!dirholder->cast_as<Directory>()->get_entry(last_component, id, type))
     {
-        FileLockGuard lg(*dirholder);
-        if (!dirholder->cast_as<Directory>()->remove_entry(last_component, id, type))
-        {
-            return -ENOENT;
-        }
+        return -ENOENT;
     }
 
     auto fp = ft_->open_as(id, type);
     FileLockGuard lg(*fp);
-    fp->cast_as<Directory>()->iterate_over_entries(
-        [](const std::string& name, const id_type& id, int type) -> bool
-        { throwVFSException(ENOTEMPTY); });
+    if (!fp->cast_as<Directory>()->empty())
+    {
+        return -ENOTEMPTY;
+    }
+    dirholder->cast_as<Directory>()->remove_entry(last_component, id, type);
     fp->unlink();
     return 0;
 };
-- 
2.43.0


From fbd64f3875d230e687501adf28ebc01e81831546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:22 +0000
Subject: [PATCH 10/25] fix: refuse to rename over a non-empty directory, and
 look at the target before removing the source

---
 sources/full_format.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/sources/full_format.cpp b/sources/full_format.cpp
index adcefa5..8c94077 100644
--- a/sources/full_format.cpp
+++ b/sources/full_format.cpp
@@ -335,6 +335,24 @@ int FuseHighLevelOps::vrename(const char* from, const char* to, const fuse_conte
     {
         DoubleFileLockGuard lg(*base_from, *base_to);
 
+        if (!base_from->cast_as<Directory>()->get_entry(last_from, from_id, from_type))
+        {
+            return -ENOENT;
+        }
+        if (base_to->cast_as<Directory>()->get_entry(last_to, to_id, to_type) && from_id != to_id
+            && to_type == Directory::class_type())
+        {
+            if (to_id == base_from->get_id())
+            {
+                return -ENOTEMPTY;    // Already locked, and it contains the item to be renamed
+            }
+            auto replaced = ft_->open_as(to_id, to_type);
+            FileLockGuard replaced_lg(*replaced);
+            if (!replaced->cast_as<Directory>()->empty())
+            {
+                return -ENOTEMPTY;
+            }
+        }
         if (!base_from->cast_as<Directory>()->remove_entry(last_from, from_id, from_type))
         {
             return -ENOENT;
-- 
2.43.0


From df3d3f7700b1f613e357f42c1911093a4f134013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:56 +0000
Subject: [PATCH 11/25] fix: do not touch a file object after giving up the
 reference to it

---
 sources/file_table_v2.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sources/file_table_v2.cpp b/sources/file_table_v2.cpp
index e71e9be..bcbacf3 100644
--- a/sources/file_table_v2.cpp
+++ b/sources/file_table_v2.cpp
@@ -335,9 +335,15 @@ namespace
 
 void FileTableCloser::operator()(FileBase* fb) const
 {
-    if (fb && table_ && fb->decref() <= 0)
+    if (!fb || !table_)
     {
-        table_->close(fb->get_id());
+        return;
+    }
+    // Once the reference is given up, another thread may close and destroy the file at any time.
+    const id_type id = fb->get_id();
+    if (fb->decref() <= 0)
+    {
+        table_->close(id);
     }
 }
 std::shared_ptr<FileTableIO> make_table_io(std::shared_ptr<OSService> os_service,
-- 
2.43.0


From 15118ebb555ebb2e5e66e5435e9c69563061054e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:58 +0000
Subject: [PATCH 12/25] fix: rmdir of a non-empty directory keeps its table of
 long names

---
 sources/lite_format.cpp | 32 ++++++++++++++++++++++++++++++--
 sources/lite_format.h   |  4 ++++
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index 66db4d1..28b1c66 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -972,8 +972,7 @@ int FuseHighLevelOps::vrmdir(const char* path, const fuse_context* ctx)
                                LongNameComponentAction::kDelete,
                                [&](std::string&& enc_path)
                                {
-                                   root_->remove_file_nothrow(
-                                       absl::StrCat(enc_path, "/", kLongNameTableFileName));
+                                   remove_table_of_empty_directory(enc_path);
                                    root_->remove_directory(enc_path);
                                });
     return 0;
@@ -1199,6 +1198,35 @@ std::string FuseHighLevelOps::long_name_table_file_name(absl::string_view enc_pa
     return root_->norm_path_narrowed(
         absl::StrCat(name_trans_->remove_last_component(enc_path), "/", kLongNameTableFileName));
 }
+void FuseHighLevelOps::remove_table_of_empty_directory(const std::string& enc_dir)
+{
+    if (name_trans_->is_no_op())
+    {
+        return;
+    }
+    bool has_table = false;
+    {
+        auto traverser = root_->create_traverser(enc_dir);
+        std::string name;
+        while (traverser->next(&name, nullptr))
+        {
+            if (name == "." || name == "..")
+            {
+                continue;
+            }
+            if (name != kLongNameTableFileName)
+            {
+                // The table is still needed.
+                throwVFSException(ENOTEMPTY);
+            }
+            has_table = true;
+        }
+    }
+    if (has_table)
+    {
+        root_->remove_file(absl::StrCat(enc_dir, "/", kLongNameTableFileName));
+    }
+}
 void FuseHighLevelOps::process_possible_long_name(
     absl::string_view path,
     LongNameComponentAction action,
diff --git a/sources/lite_format.h b/sources/lite_format.h
index c8abcae..8b9aeba 100644
--- a/sources/lite_format.h
+++ b/sources/lite_format.h
@@ -429,6 +429,10 @@ private:
                                     absl::FunctionRef<void(std::string&& enc_path)> callback);
 
     std::string long_name_table_file_name(absl::string_view enc_path);
+
+    // Removes the table of long names if it is the only thing left in the directory. Throws if
+    // anything else is.
+    void remove_table_of_empty_directory(const std::string& enc_dir);
 };
 
 void change_long_name_suffix(const std::string& data_dir,
-- 
2.43.0


From 576fd931ac61f2f7b394ebb4b8d168ea0795379d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:58 +0000
Subject: [PATCH 13/25] fix: renaming between two links to the same file keeps
 the long name of the first

---
 sources/lite_format.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index 28b1c66..991beb6 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -1038,6 +1038,14 @@ int FuseHighLevelOps::vrename(const char* from, const char* to, const fuse_conte
         return 0;
     }
 
+    fuse_stat stat_from{}, stat_to{};
+    if (!is_windows() && root_->stat(enc_from, &stat_from) && root_->stat(enc_to, &stat_to)
+        && stat_from.st_dev == stat_to.st_dev && stat_from.st_ino == stat_to.st_ino)
+    {
+        // Renaming between two links to the same file does nothing, so both names remain in use.
+        return 0;
+    }
+
     DoubleLongNameLookupTable table(long_name_table_file_name(enc_from),
                                     long_name_table_file_name(enc_to));
     LockGuard<decltype(table)> lg(table);
-- 
2.43.0


From 5b3beddfedfb4241b123fdf779ed12339a790c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:58 +0000
Subject: [PATCH 14/25] fix: a file which cannot be initialized is not left
 behind under an unrecorded long name

---
 sources/lite_format.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index 991beb6..b843286 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -1192,7 +1192,22 @@ std::unique_ptr<File> FuseHighLevelOps::open(std::string_view path, int flags, u
         path,
         (flags & O_CREAT) ? LongNameComponentAction::kCreate : LongNameComponentAction::kIgnore,
         [&](std::string&& enc_path)
-        { fp = std::make_unique<File>(root_->open_file_stream(enc_path, flags, mode), *opener_); });
+        {
+            auto stream = root_->open_file_stream(enc_path, flags, mode);
+            try
+            {
+                fp = std::make_unique<File>(std::move(stream), *opener_);
+            }
+            catch (...)
+            {
+                if ((flags & O_CREAT) && (flags & O_EXCL))
+                {
+                    // The file is new and could not be initialized.
+                    root_->remove_file_nothrow(enc_path);
+                }
+                throw;
+            }
+        });
 
     if (flags & O_TRUNC)
     {
-- 
2.43.0


From 3e9e9807ee4a1aff6e059b6c74d3d432093ae6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:17 +0000
Subject: [PATCH 15/25] fix: a directory with nothing but a left over table of
 long names can be replaced by a rename

---
 sources/lite_format.cpp | 21 +++++++++++++++++++--
 sources/lite_format.h   |  3 +++
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index b843286..3c11161 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -1034,7 +1034,7 @@ int FuseHighLevelOps::vrename(const char* from, const char* to, const fuse_conte
     if (encrypted_last_component_from.empty() && encrypted_last_component_to.empty())
     {
         // Neither are long name, so fast path.
-        root_->rename(enc_from, enc_to);
+        rename_encrypted(enc_from, enc_to);
         return 0;
     }
 
@@ -1059,7 +1059,7 @@ int FuseHighLevelOps::vrename(const char* from, const char* to, const fuse_conte
         table.update_mapping_to_to_db(name_trans_->get_last_component(enc_to),
                                       encrypted_last_component_to);
     }
-    root_->rename(enc_from, enc_to);
+    rename_encrypted(enc_from, enc_to);
     return 0;
 }
 int FuseHighLevelOps::vfsync(const char* path,
@@ -1221,6 +1221,23 @@ std::string FuseHighLevelOps::long_name_table_file_name(absl::string_view enc_pa
     return root_->norm_path_narrowed(
         absl::StrCat(name_trans_->remove_last_component(enc_path), "/", kLongNameTableFileName));
 }
+void FuseHighLevelOps::rename_encrypted(const std::string& enc_from, const std::string& enc_to)
+{
+    try
+    {
+        root_->rename(enc_from, enc_to);
+    }
+    catch (const ExceptionBase& e)
+    {
+        if (e.error_number() != ENOTEMPTY && e.error_number() != EEXIST)
+        {
+            throw;
+        }
+        // The target may be a directory which only holds a left over table.
+        remove_table_of_empty_directory(enc_to);
+        root_->rename(enc_from, enc_to);
+    }
+}
 void FuseHighLevelOps::remove_table_of_empty_directory(const std::string& enc_dir)
 {
     if (name_trans_->is_no_op())
diff --git a/sources/lite_format.h b/sources/lite_format.h
index 8b9aeba..7075ced 100644
--- a/sources/lite_format.h
+++ b/sources/lite_format.h
@@ -433,6 +433,9 @@ private:
     // Removes the table of long names if it is the only thing left in the directory. Throws if
     // anything else is.
     void remove_table_of_empty_directory(const std::string& enc_dir);
+
+    // Renames, treating a target directory with nothing but a table as empty.
+    void rename_encrypted(const std::string& enc_from, const std::string& enc_to);
 };
 
 void change_long_name_suffix(const std::string& data_dir,
-- 
2.43.0


From b5d6c5a0706ba6b662be245046d4992c81bf8436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:34 +0000
Subject: [PATCH 16/25] fix: change the long name suffix of nested directories
 whatever the order in which they are listed

---
 sources/lite_format.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index 3c11161..5c48dfc 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -25,6 +25,7 @@
 #include <uni_algo/case.h>
 #include <uni_algo/norm.h>
 
+#include <algorithm>
 #include <array>
 #include <cerrno>
 #include <cstddef>
@@ -1367,6 +1368,12 @@ void change_long_name_suffix(const std::string& data_dir,
                                 }
                             });
 
+    // Process the inner directories first, because the path of a directory changes when the names
+    // within its parent do.
+    std::stable_sort(dirs_with_long_name_table.begin(),
+                     dirs_with_long_name_table.end(),
+                     [](const std::string& a, const std::string& b) { return a.size() > b.size(); });
+
     for (const auto& dir : dirs_with_long_name_table)
     {
         auto full_dir_name = root.norm_path_narrowed(dir);
-- 
2.43.0


From 5e45188237b85e123c37db4f6e1e484a1d9e722b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:02 +0000
Subject: [PATCH 17/25] fix: do not list entries whose names are invalid

---
 sources/lite_format.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index 5c48dfc..c2a00a2 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -682,8 +682,9 @@ namespace
                     continue;
                 try
                 {
+                    bool valid = true;
                     std::visit(Overload{[&](std::string&& decoded) { decoded.swap(*name); },
-                                        [](const InvalidNameTag&) {},
+                                        [&](const InvalidNameTag&) { valid = false; },
                                         [&](const LongNameTag&) ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this)
                                         {
                                             auto&& table = lazy_get_table();
@@ -697,6 +698,10 @@ namespace
                                             std::get<std::string>(decoded).swap(*name);
                                         }},
                                name_trans_.decrypt_path_component(under_name));
+                    if (!valid)
+                    {
+                        continue;
+                    }
                 }
                 catch (const std::exception& e)
                 {
-- 
2.43.0


From 25ffb7012ca7abb85979a9633be6fe4d0eb2b643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:09 +0000
Subject: [PATCH 18/25] fix: do not use a name stored in a directory after
 unlocking it in vgetpath

---
 sources/full_format.cpp | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/sources/full_format.cpp b/sources/full_format.cpp
index 8c94077..9236e8f 100644
--- a/sources/full_format.cpp
+++ b/sources/full_format.cpp
@@ -496,11 +496,12 @@ int FuseHighLevelOps::vgetpath(
     absl::InlinedVector<std::string_view, 7> splits = absl::StrSplit(path, '/', absl::SkipEmpty());
     auto parent_id = kRootId;
     FilePtrHolder holder = ft_->open_as(kRootId, Directory::class_type());
-    for (auto& split : splits)
+    std::string result;
+    result.reserve(strlen(path) + 31);
+    for (auto split : splits)
     {
         id_type id;
         int type;
-        std::string_view normed_name;
         {
             FileLockGuard lg(*holder);
             auto get_result = holder->cast_as<Directory>()->get_entry(split, id, type);
@@ -508,19 +509,13 @@ int FuseHighLevelOps::vgetpath(
             {
                 throwVFSException(ENOENT);
             }
-            normed_name = *get_result;
+            // The view is only valid while the directory is locked.
+            result.push_back('/');
+            result.append(get_result->data(), get_result->size());
         }
         holder = ft_->open_as(id, type);
         holder->set_parent_id(parent_id);
         parent_id = holder->get_id();
-        split = normed_name;
-    }
-    std::string result;
-    result.reserve(strlen(path) + 31);
-    for (auto p : splits)
-    {
-        result.push_back('/');
-        result.append(p.data(), p.size());
     }
     return copy_and_return(result);
 };
-- 
2.43.0


From d547fe505a1cafed2187563c7f73693783c7cef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:48 +0000
Subject: [PATCH 19/25] fix: make a changed configuration durable before it
 replaces the old one

---
 sources/commands.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sources/commands.cpp b/sources/commands.cpp
index 2bf7b62..3ec2670 100644
--- a/sources/commands.cpp
+++ b/sources/commands.cpp
@@ -495,6 +495,7 @@ public:
             OSService::get_default().remove_file_nothrow(tmp_path);
         });
         stream->write(encrypted_data.data(), 0, encrypted_data.size());
+        stream->fsync();
         stream.reset();
         OSService::get_default().rename(tmp_path, original_path);
         return 0;
@@ -1188,6 +1189,7 @@ public:
             OSService::get_default().remove_file_nothrow(tmp_path);
         });
         stream->write(encrypted_data.data(), 0, encrypted_data.size());
+        stream->fsync();
         stream.reset();
         OSService::get_default().rename(tmp_path, real_config_path);
         return 0;
-- 
2.43.0


From 189d795db3a57fc0477f2ca46a4a9bf14d49d4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:48 +0000
Subject: [PATCH 20/25] fix: do not leave a partial configuration behind when a
 repository cannot be created

---
 sources/commands.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/sources/commands.cpp b/sources/commands.cpp
index 3ec2670..a014162 100644
--- a/sources/commands.cpp
+++ b/sources/commands.cpp
@@ -376,13 +376,16 @@ public:
                       {single_pass_holder_.password.data(), single_pass_holder_.password.size()},
                       maybe_open_key_stream(single_pass_holder_.keyfile.getValue()).get())
                   .SerializeAsString();
+        auto config_path = single_pass_holder_.config_path.getValue().empty()
+            ? absl::StrCat(single_pass_holder_.data_dir.getValue(), "/", kConfigFileName)
+            : single_pass_holder_.config_path.getValue();
         auto config_stream = OSService::get_default().open_file_stream(
-            single_pass_holder_.config_path.getValue().empty()
-                ? absl::StrCat(single_pass_holder_.data_dir.getValue(), "/", kConfigFileName)
-                : single_pass_holder_.config_path.getValue(),
-            O_WRONLY | O_EXCL | O_CREAT,
-            0644);
+            config_path, O_WRONLY | O_EXCL | O_CREAT, 0644);
+        DEFER(if (has_uncaught_exceptions()) {
+            OSService::get_default().remove_file_nothrow(config_path);
+        });
         config_stream->write(encrypted_data.data(), 0, encrypted_data.size());
+        config_stream->fsync();
         return 0;
     }
 
-- 
2.43.0


From f9a9957e06ea6061a76ee4a16f0c668f378c7f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:27 +0000
Subject: [PATCH 21/25] fix: always pass inode numbers on for the full format

With --use-ino auto, the format was read from a member which is never
set, so that inode numbers of a full-format file system were dropped when
its underlying file system is of a type not known to have stable ones.
---
 sources/commands.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sources/commands.cpp b/sources/commands.cpp
index a014162..d6a8166 100644
--- a/sources/commands.cpp
+++ b/sources/commands.cpp
@@ -653,7 +653,6 @@ private:
         0,
         "int64",
         cmdline()};
-    DecryptedSecurefsParams fsparams{};
 
 private:
     std::string executable_name_;
@@ -671,7 +670,7 @@ private:
     }
 #endif
 
-    bool should_use_ino()
+    bool should_use_ino(const DecryptedSecurefsParams& fsparams)
     {
         if (use_ino.getValue() == "true")
         {
@@ -848,7 +847,7 @@ private:
         // Handling `daemon` ourselves, as FUSE's version interferes with our initialization.
         fuse_args.emplace_back("-f");
 
-        if (should_use_ino())
+        if (should_use_ino(internal_mount_data.decrypted_params()))
         {
             fuse_args.emplace_back("-o");
             fuse_args.emplace_back("use_ino");
-- 
2.43.0


From 90d1f0735307db893089ef077af9441e1546998c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:50 +0000
Subject: [PATCH 22/25] fix: do not let a session's workers be cancelled before
 their first request

A signal may arrive before a worker has received its first request, when cancellation is still enabled.
The write to the self pipe at its end is a cancellation point inside a destructor, so the process was
terminated without tearing the mount down.
---
 sources/fuse2_workaround.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sources/fuse2_workaround.cpp b/sources/fuse2_workaround.cpp
index 11d7507..79a645b 100644
--- a/sources/fuse2_workaround.cpp
+++ b/sources/fuse2_workaround.cpp
@@ -64,6 +64,9 @@ namespace
 
     void worker_loop(fuse_session* session, fuse_chan* channel, std::atomic<int>* error_code)
     {
+        // Only waiting for a request may be cancelled. In particular the write to the pipe at the end,
+        // itself a cancellation point, must not be, when the session ends before the first request.
+        pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, nullptr);
         block_some_signals();
         std::vector<char> buffer(fuse_chan_bufsize(channel));
 
-- 
2.43.0


From 9d180f06d562699827513086d0c3318f7fda4469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:50 +0000
Subject: [PATCH 23/25] fix: store what is in memory when a file of the full
 format is synchronised

fsync() did not write the header and the HMAC of the metadata before synchronising, so that a file
synchronised but not closed before a crash failed verification afterwards.
---
 sources/files.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sources/files.h b/sources/files.h
index ce44fe5..4f605a8 100644
--- a/sources/files.h
+++ b/sources/files.h
@@ -336,6 +336,8 @@ public:
 
     void fsync() ABSL_EXCLUSIVE_LOCKS_REQUIRED(*this)
     {
+        // What is still in memory, such as the header and the HMAC, is needed to read the file back
+        flush();
         m_data_stream->fsync();
         m_meta_stream->fsync();
     }
-- 
2.43.0


From 4decf2807d5cbb702a1195f845f3c6eb782e03c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:50 +0000
Subject: [PATCH 24/25] fix: do not terminate when the root directory cannot be
 flushed

Failures to flush the root directory escaped from destructors, terminating the process when the storage
below failed, and without flushing the other files when unmounting.
---
 sources/file_table_v2.cpp | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/sources/file_table_v2.cpp b/sources/file_table_v2.cpp
index bcbacf3..06bdf12 100644
--- a/sources/file_table_v2.cpp
+++ b/sources/file_table_v2.cpp
@@ -121,14 +121,14 @@ std::unique_ptr<FileBase> FileTable::construct(int type,
 }
 void FileTable::close(const id_type& id)
 {
-    if (id == kRootId)
-    {
-        LockGuard<FileBase> lg(*root_);
-        root_->flush();
-        return;
-    }
     try
     {
+        if (id == kRootId)
+        {
+            LockGuard<FileBase> lg(*root_);
+            root_->flush();
+            return;
+        }
         close_internal(id);
     }
     catch (const std::exception& e)
@@ -198,19 +198,30 @@ void FileTable::close_internal(const id_type id)
 FileTable::~FileTable()
 {
     VERBOSE_LOG("Flushing all opened and cached file descriptors, please wait...");
-    root_->flush();
+    // The failure of one must not prevent the others from being flushed.
+    auto flush = [](FileBase& fb)
+    {
+        try
+        {
+            LockGuard<FileBase> lg(fb);
+            fb.flush();
+        }
+        catch (const std::exception& e)
+        {
+            ERROR_LOG("Failed to flush: %s", e.what());
+        }
+    };
+    flush(*root_);
     for (auto&& s : shards)
     {
         LockGuard<Mutex> lg(s.mu);
         for (auto&& pair : s.live_map)
         {
-            LockGuard<FileBase> inner_lg(*pair.second);
-            pair.second->flush();
+            flush(*pair.second);
         }
         for (auto&& p : s.cache)
         {
-            LockGuard<FileBase> inner_lg(*p);
-            p->flush();
+            flush(*p);
         }
     }
 }
-- 
2.43.0


From c279ca9551706c20a761f841c5288b9c8cbae947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:56 +0000
Subject: [PATCH 25/25] fix: keep the header when a lite-format file is opened
 with truncation

Opening with O_TRUNC also truncated the underlying file, so a new header with
another session key was written while other open handles kept using the old
one: their reads failed verification, and what they wrote could not be read by
anyone else.
---
 sources/lite_format.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sources/lite_format.cpp b/sources/lite_format.cpp
index c2a00a2..e8b1ef7 100644
--- a/sources/lite_format.cpp
+++ b/sources/lite_format.cpp
@@ -1199,7 +1199,9 @@ std::unique_ptr<File> FuseHighLevelOps::open(std::string_view path, int flags, u
         (flags & O_CREAT) ? LongNameComponentAction::kCreate : LongNameComponentAction::kIgnore,
         [&](std::string&& enc_path)
         {
-            auto stream = root_->open_file_stream(enc_path, flags, mode);
+            // The underlying file keeps its header, whose session key the other handles of the
+            // file go on using. The content is truncated below.
+            auto stream = root_->open_file_stream(enc_path, flags & ~O_TRUNC, mode);
             try
             {
                 fp = std::make_unique<File>(std::move(stream), *opener_);
-- 
2.43.0

