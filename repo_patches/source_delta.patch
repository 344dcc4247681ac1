From 85c739aa9bffdb15770c4108e28c17e811a52f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 01/37] fix: flat_file iterators no longer return a stale
 record after the buffer was refilled

An iterator kept a pointer into the database's shared buffer, so once another
iterator had caused a refill, dereferencing it returned a different record.
---
 include/flat_file.hpp | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/include/flat_file.hpp b/include/flat_file.hpp
index 72e12d6..df8ad10 100644
--- a/include/flat_file.hpp
+++ b/include/flat_file.hpp
@@ -170,7 +170,7 @@ struct database<ValueType>::const_iterator {
 
   // clang-format off
   reference operator*() const { return current(); }
-  pointer   operator->() const { current(); return cur_; }
+  pointer   operator->() const { return &current(); }
 
   bool operator==(const const_iterator& other) const { return ffdb_ == other.ffdb_ && pos_ == other.pos_; }
   
@@ -196,22 +196,11 @@ struct database<ValueType>::const_iterator {
 private:
   database*   ffdb_ = nullptr;
   std::size_t pos_{};
-  // cur_ and cur_valid_ are mutable so that operator* can be const
-  mutable const value_type* cur_;
-  mutable bool              cur_valid_ = false;
 
-  void set_pos(std::size_t pos) {
-    pos_       = pos;
-    cur_valid_ = false;
-  }
+  void set_pos(std::size_t pos) { pos_ = pos; }
 
-  reference current() const {
-    if (!cur_valid_) {
-      cur_       = &ffdb_->get_record(pos_);
-      cur_valid_ = true;
-    }
-    return *cur_;
-  }
+  // always ask the database: its buffer may have been refilled through another iterator
+  reference current() const { return ffdb_->get_record(pos_); }
 };
 
 template <typename ValueType, typename Comp = std::less<>, typename Proj = std::identity>
-- 
2.43.0


From 23b91ffb4d10da2b29b201a37f6c7af603c8a84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 02/37] fix: hibp-diff accepts several consecutive insertions,
 and an insertion next to an update

Looking only one record ahead, run_diff took these for a replacement and refused.
---
 src/diffutils.cpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/diffutils.cpp b/src/diffutils.cpp
index 4a6c34e..ca9ad7e 100644
--- a/src/diffutils.cpp
+++ b/src/diffutils.cpp
@@ -56,13 +56,11 @@ void run_diff(const std::filesystem::path& old_path, const std::filesystem::path
     }
     // fine to dereference both
 
-    if (std::next(diff_iter_old) != db_old.end() &&
-        deep_equals(*std::next(diff_iter_old), *diff_iter_new)) {
+    // both dbs are sorted by hash, so the hashes alone tell insertion, deletion and update apart
+    if (*diff_iter_old < *diff_iter_new) {
       throw std::runtime_error("Deletion from OLD");
     }
-    // fine to dereference std::next(new)
-    if (std::next(diff_iter_new) != db_new.end() &&
-        deep_equals(*diff_iter_old, *std::next(diff_iter_new))) {
+    if (*diff_iter_new < *diff_iter_old) {
       const hunk h{hunk_type::insert, static_cast<unsigned>(diff_iter_old - db_old.begin()),
              *diff_iter_new};
       diff << h << '\n';
@@ -70,9 +68,6 @@ void run_diff(const std::filesystem::path& old_path, const std::filesystem::path
       new_begin = diff_iter_new + 1;
       continue;
     }
-    if (*diff_iter_old != *diff_iter_new) { // comparing hash only
-      throw std::runtime_error("Replacement implies deletion");
-    }
     const hunk h{hunk_type::update, static_cast<unsigned>(diff_iter_old - db_old.begin()),
            *diff_iter_new};
     diff << h << '\n';
-- 
2.43.0


From 813ad49a0d392c0c8dc2eb53af92dd0c6eb4e45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:50 +0000
Subject: [PATCH 03/37] fix: sorting an empty db, or with less memory than one
 record, no longer divides by zero

hibp-sort died of SIGFPE on an empty file and for --max-memory=0. An empty db
now gives an empty sorted file.
---
 include/flat_file.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/flat_file.hpp b/include/flat_file.hpp
index df8ad10..f430655 100644
--- a/include/flat_file.hpp
+++ b/include/flat_file.hpp
@@ -211,6 +211,7 @@ std::vector<std::string> sort_into_chunks(typename database<ValueType>::const_it
 
   auto        records_to_sort = static_cast<std::size_t>(last - first);
   std::size_t chunk_size      = std::min(records_to_sort, max_memory_usage / sizeof(ValueType));
+  chunk_size                  = std::max<std::size_t>(chunk_size, 1); // empty db or tiny memory
   std::size_t number_of_chunks =
       (records_to_sort / chunk_size) + static_cast<std::size_t>(records_to_sort % chunk_size != 0);
 
-- 
2.43.0


From e57f373eae57b0b81aa26cf7aea42056387211bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:50 +0000
Subject: [PATCH 04/37] fix: name the sorted file and its parts after the plain
 input path

fmt before 10.2 formats a std::filesystem::path in quotes, so hibp-sort failed
for every input path with a directory in it and put quotes in the name otherwise.
---
 include/flat_file.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/flat_file.hpp b/include/flat_file.hpp
index f430655..efad851 100644
--- a/include/flat_file.hpp
+++ b/include/flat_file.hpp
@@ -223,7 +223,8 @@ std::vector<std::string> sort_into_chunks(typename database<ValueType>::const_it
   std::vector<std::string> chunk_filenames;
   chunk_filenames.reserve(number_of_chunks);
   for (std::size_t chunk = 0; chunk != number_of_chunks; ++chunk) {
-    std::string chunk_filename = fmt::format("{}.partial.{:04d}", first.filename(), chunk);
+    std::string chunk_filename = 
+        fmt::format("{}.partial.{:04d}", first.filename().string(), chunk);
     chunk_filenames.push_back(chunk_filename);
 
     std::size_t start = chunk * chunk_size;
@@ -308,7 +309,7 @@ std::string disksort_range(typename database<ValueType>::const_iterator first,
   std::vector<std::string> chunk_filenames =
       sort_into_chunks<ValueType>(first, last, comp, proj, max_memory_usage);
 
-  std::string sorted_filename = fmt::format("{}.sorted", first.filename());
+  std::string sorted_filename = fmt::format("{}.sorted", first.filename().string());
 
   if (chunk_filenames.size() == 1) {
     std::filesystem::rename(chunk_filenames[0], sorted_filename);
-- 
2.43.0


From 96550fcbdca24584c0e7eaf0935eb050b389e81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:50 +0000
Subject: [PATCH 05/37] fix: stream_writer flushes the stream itself, so that a
 failed last write is noticed

flush(true) skipped the stream when the writer's own buffer was empty, and the
destructor left the tail of the data in the ofstream's buffer, whose failure to
reach the disk is ignored: hibp-convert, -topn, -sort and -download reported
success for a truncated database on a full disk.
---
 include/flat_file.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/flat_file.hpp b/include/flat_file.hpp
index efad851..f2448d6 100644
--- a/include/flat_file.hpp
+++ b/include/flat_file.hpp
@@ -57,9 +57,9 @@ public:
       db_.write(reinterpret_cast<char*>(buf_.data()), // NOLINT reincast
                 static_cast<std::streamsize>(sizeof(ValueType) * buf_pos_));
       buf_pos_ = 0;
-      if (flush_stream) {
-        db_.flush();
-      }
+    }
+    if (flush_stream) {
+      db_.flush();
     }
   }
 
@@ -70,7 +70,8 @@ public:
   stream_writer(stream_writer&& other) noexcept            = default;
   stream_writer& operator=(stream_writer&& other) noexcept = default;
 
-  ~stream_writer() { flush(); }
+  // including the stream, whose own buffer could otherwise fail to reach the disk unnoticed
+  ~stream_writer() { flush(true); }
 
 private:
   std::ostream&          db_; // NOLINT ref
-- 
2.43.0


From 2c93598b8768269dc100b892a84c5fc5a963cf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 06/37] fix: a moved-from stream_writer no longer writes its
 records a second time

The defaulted move left the pending count behind, so the destructor of the
moved-from writer wrote that many records from an empty buffer.
---
 include/flat_file.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/flat_file.hpp b/include/flat_file.hpp
index f2448d6..80273f8 100644
--- a/include/flat_file.hpp
+++ b/include/flat_file.hpp
@@ -67,7 +67,8 @@ public:
   stream_writer(const stream_writer& other)            = delete;
   stream_writer& operator=(const stream_writer& other) = delete;
 
-  stream_writer(stream_writer&& other) noexcept            = default;
+  stream_writer(stream_writer&& other) noexcept
+      : db_(other.db_), buf_pos_(std::exchange(other.buf_pos_, 0)), buf_(std::move(other.buf_)) {}
   stream_writer& operator=(stream_writer&& other) noexcept = default;
 
   // including the stream, whose own buffer could otherwise fail to reach the disk unnoticed
-- 
2.43.0


From d3369ddeed7fa4ca467685e894f3e862835260dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 07/37] fix: hibp-download --txt-out notices failed writes

The text writer ignored them, so a download onto a full disk was reported as
a success.
---
 app/hibp_download.cpp    | 2 +-
 include/dnl/queuemgt.hpp | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/app/hibp_download.cpp b/app/hibp_download.cpp
index 8bbc98e..c471447 100644
--- a/app/hibp_download.cpp
+++ b/app/hibp_download.cpp
@@ -136,7 +136,7 @@ int main(int argc, char* argv[]) {
     if (cli.txt_out) {
       auto tw = hibp::dnl::text_writer(output_db_stream);
       hibp::dnl::run([&](const std::string& line) { tw.write(line); }, start_index, cli.testing);
-
+      output_db_stream.flush(); // throws, as set by text_writer, if the end can't be written
     } else {
       if (cli.ntlm) {
         launch<hibp::pawned_pw_ntlm>(output_db_stream, cli, start_index);
diff --git a/include/dnl/queuemgt.hpp b/include/dnl/queuemgt.hpp
index 3faae13..326f7ca 100644
--- a/include/dnl/queuemgt.hpp
+++ b/include/dnl/queuemgt.hpp
@@ -10,7 +10,9 @@ namespace hibp::dnl {
 // alternative simple text writer
 
 struct text_writer {
-  explicit text_writer(std::ostream& os) : os_(os) {}
+  explicit text_writer(std::ostream& os) : os_(os) {
+    os_.exceptions(std::ios::badbit | std::ios::failbit);
+  }
   void write(const std::string& line) {
     os_.write(line.c_str(), static_cast<std::streamsize>(line.length()));
     os_.write("\n", 1);
-- 
2.43.0


From 7d70361b0a526f24d55116d615d3208c05e820ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 08/37] fix: hibp-convert --bin-to-txt --limit 0 writes no
 records, as --txt-to-bin does

It wrote all of them.
---
 app/hibp_convert.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/hibp_convert.cpp b/app/hibp_convert.cpp
index 0ea2dfb..0540740 100644
--- a/app/hibp_convert.cpp
+++ b/app/hibp_convert.cpp
@@ -97,9 +97,9 @@ void bin_to_txt(const std::string& input_filename, std::ostream& output_stream,
 
   std::size_t count = 0;
   for (const auto& record: db) {
+    if (count == limit) break;
     output_stream << record << '\n';
     count++;
-    if (count == limit) break;
   }
 }
 
-- 
2.43.0


From ce0bf1cd2cc27767f12a1c37e86fe2bb364c0808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:29 +0000
Subject: [PATCH 09/37] fix: hibp-convert --bin-to-txt, hibp-diff and
 hibp-dupes notice failed writes

They ignored the state of their output stream and reported success for output
that was cut short, on a full disk for example.
---
 app/hibp_convert.cpp | 1 +
 app/hibp_diff.cpp    | 2 ++
 app/hibp_dupes.cpp   | 2 ++
 3 files changed, 5 insertions(+)

diff --git a/app/hibp_convert.cpp b/app/hibp_convert.cpp
index 0540740..bca69be 100644
--- a/app/hibp_convert.cpp
+++ b/app/hibp_convert.cpp
@@ -101,6 +101,7 @@ void bin_to_txt(const std::string& input_filename, std::ostream& output_stream,
     output_stream << record << '\n';
     count++;
   }
+  if (!output_stream.flush()) throw std::runtime_error("failed to write the output");
 }
 
 void check_options(const cli_config_t& cli) {
diff --git a/app/hibp_diff.cpp b/app/hibp_diff.cpp
index cdf59d9..465401b 100644
--- a/app/hibp_diff.cpp
+++ b/app/hibp_diff.cpp
@@ -4,6 +4,7 @@
 #include <cstdlib>
 #include <exception>
 #include <iostream>
+#include <stdexcept>
 #include <string>
 
 struct cli_config_t {
@@ -38,6 +39,7 @@ int main(int argc, char* argv[]) {
     } else {
       hibp::diffutils::run_diff<hibp::pawned_pw_sha1>(cli.db_file_old, cli.db_file_new, std::cout);
     }
+    if (!std::cout.flush()) throw std::runtime_error("failed to write the output");
   } catch (const std::exception& e) {
     std::cerr << "something went wrong: " << e.what() << "\n";
     return EXIT_FAILURE;
diff --git a/app/hibp_dupes.cpp b/app/hibp_dupes.cpp
index 950ba70..8b4931d 100644
--- a/app/hibp_dupes.cpp
+++ b/app/hibp_dupes.cpp
@@ -8,6 +8,7 @@
 #include <fmt/chrono.h> // IWYU pragma: keep
 #include <fmt/format.h>
 #include <iostream>
+#include <stdexcept>
 #include <string>
 // #include <unordered_set>
 
@@ -60,6 +61,7 @@ int main(int argc, char* argv[]) {
     } else {
       run_search<hibp::pawned_pw_sha1>(cli);
     }
+    if (!std::cout.flush()) throw std::runtime_error("failed to write the output");
   } catch (const std::exception& e) {
     std::cerr << "something went wrong: " << e.what() << "\n";
     return EXIT_FAILURE;
-- 
2.43.0


From 7ddcfda906f97586d8f7da001fa1e14e61630c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:29 +0000
Subject: [PATCH 10/37] fix: hibp-dupes no longer reports the first record as a
 dupe when it begins with 64 set bits

All ones was used as the "no previous record" marker.
---
 app/hibp_dupes.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/app/hibp_dupes.cpp b/app/hibp_dupes.cpp
index 8b4931d..3178aa2 100644
--- a/app/hibp_dupes.cpp
+++ b/app/hibp_dupes.cpp
@@ -8,6 +8,7 @@
 #include <fmt/chrono.h> // IWYU pragma: keep
 #include <fmt/format.h>
 #include <iostream>
+#include <optional>
 #include <stdexcept>
 #include <string>
 // #include <unordered_set>
@@ -38,7 +39,7 @@ void run_search(const cli_config_t& cli) {
   flat_file::database<PwType> db(cli.db_filename, (1U << 16U) / sizeof(PwType));
 
   std::cout << fmt::format("Looking for duplicates in the first {} bits of the hash...\n", cli.bits);
-  std::uint64_t last = -1;
+  std::optional<std::uint64_t> last;
   for (auto& pw: db) {
     auto prefix = arrcmp::impl::bytearray_cast<std::uint64_t>(pw.hash.data()) >> (64 - cli.bits);
     if (prefix == last) {
-- 
2.43.0


From 7f203d7802de88aadae33b451e6a72ec01646495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:29 +0000
Subject: [PATCH 11/37] fix: ntlm refuses a password that ends inside a utf-8
 sequence

The incomplete sequence was dropped, so that the hash was the one of a different,
shorter password. Any other invalid utf-8 has always been refused.
---
 src/ntlm.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ntlm.cpp b/src/ntlm.cpp
index c40829b..03209c6 100644
--- a/src/ntlm.cpp
+++ b/src/ntlm.cpp
@@ -3,6 +3,7 @@
 #include <codecvt>
 #include <cstddef>
 #include <locale>
+#include <stdexcept>
 #include <string>
 
 namespace hibp {
@@ -10,6 +11,9 @@ namespace hibp {
 std::string utf8_to_utf16_le(const std::string& utf8Str) {
   std::wstring_convert<std::codecvt_utf8_utf16<char16_t>, char16_t> converter;
   const std::u16string utf16_str = converter.from_bytes(utf8Str);
+  if (converter.converted() != utf8Str.size()) {
+    throw std::range_error("incomplete utf-8 sequence at end of password");
+  }
 
   // Convert UTF-16 to a byte string in little endian, on any platform
   std::string utf16_le;
-- 
2.43.0


From f58dbbeffadeb2129c0f5d450133b309495e8a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:29 +0000
Subject: [PATCH 12/37] fix: hibp-topn opens its output only once the input is
 known to be usable

When it refused to run because the input was missing, malformed or too small, it had
already created, or with --force emptied, the output file.
---
 app/hibp_topn.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/app/hibp_topn.cpp b/app/hibp_topn.cpp
index fef4656..4f72bf1 100644
--- a/app/hibp_topn.cpp
+++ b/app/hibp_topn.cpp
@@ -74,12 +74,6 @@ template <hibp::pw_type PwType>
 void build_topn(const cli_config_t& cli) {
   std::ostream* output_stream      = &std::cout;
   std::string   output_stream_name = "standard_output";
-  std::ofstream ofs;
-  if (!cli.standard_output) {
-    ofs                = get_output_stream(cli.output_filename, cli.force);
-    output_stream      = &ofs;
-    output_stream_name = cli.output_filename;
-  }
 
   flat_file::database<PwType> input_db(cli.input_filename, (1U << 16U) / sizeof(PwType));
 
@@ -88,6 +82,13 @@ void build_topn(const cli_config_t& cli) {
         fmt::format("size of input db ({}) <= topn ({}). Output would be identical. Aborting.",
                     input_db.number_records(), cli.topn));
   }
+
+  std::ofstream ofs;
+  if (!cli.standard_output) {
+    ofs                = get_output_stream(cli.output_filename, cli.force);
+    output_stream      = &ofs;
+    output_stream_name = cli.output_filename;
+  }
   std::vector<PwType> memdb(cli.topn);
 
   std::cout << fmt::format("{:50}", "Read db from disk and topN sort by count desc ...");
-- 
2.43.0


From c3a002b6afbcb60d538d6d0e5ef5c052fc1561d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:47 +0000
Subject: [PATCH 13/37] fix: hibp-convert and hibp-topn refuse to write onto
 their own input

With --force, opening the output emptied the input before it was read, and
hibp-convert then even reported success.
---
 app/hibp_convert.cpp | 4 ++++
 app/hibp_topn.cpp    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/app/hibp_convert.cpp b/app/hibp_convert.cpp
index bca69be..88901b7 100644
--- a/app/hibp_convert.cpp
+++ b/app/hibp_convert.cpp
@@ -142,6 +142,10 @@ void convert(const cli_config_t& cli) {
   std::string   output_stream_name = "standard_output";
   std::ofstream ofs;
   if (!cli.standard_output) {
+    if (!cli.standard_input && std::filesystem::exists(cli.output_filename) &&
+        std::filesystem::equivalent(cli.input_filename, cli.output_filename)) {
+      throw std::runtime_error("Input and output are the same file.");
+    }
     ofs                = get_output_stream(cli.output_filename, cli.force);
     output_stream      = &ofs;
     output_stream_name = cli.output_filename;
diff --git a/app/hibp_topn.cpp b/app/hibp_topn.cpp
index 4f72bf1..ed67e15 100644
--- a/app/hibp_topn.cpp
+++ b/app/hibp_topn.cpp
@@ -85,6 +85,10 @@ void build_topn(const cli_config_t& cli) {
 
   std::ofstream ofs;
   if (!cli.standard_output) {
+    if (std::filesystem::exists(cli.output_filename) &&
+        std::filesystem::equivalent(cli.input_filename, cli.output_filename)) {
+      throw std::runtime_error("Input and output are the same file.");
+    }
     ofs                = get_output_stream(cli.output_filename, cli.force);
     output_stream      = &ofs;
     output_stream_name = cli.output_filename;
-- 
2.43.0


From ec7cf09a863b00c585e888ea0c27e6da0477a36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:47 +0000
Subject: [PATCH 14/37] fix: hibp-topn --stdout no longer mixes its progress
 messages into the database

They went to standard output as well, between the records.
---
 app/hibp_topn.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/app/hibp_topn.cpp b/app/hibp_topn.cpp
index ed67e15..b48223c 100644
--- a/app/hibp_topn.cpp
+++ b/app/hibp_topn.cpp
@@ -95,7 +95,9 @@ void build_topn(const cli_config_t& cli) {
   }
   std::vector<PwType> memdb(cli.topn);
 
-  std::cout << fmt::format("{:50}", "Read db from disk and topN sort by count desc ...");
+  // keep stdout clean if that is where the db goes
+  std::ostream& progress = cli.standard_output ? std::cerr : std::cout;
+  progress << fmt::format("{:50}", "Read db from disk and topN sort by count desc ...");
 
   using clk   = std::chrono::high_resolution_clock;
   using fsecs = std::chrono::duration<double>;
@@ -110,9 +112,9 @@ void build_topn(const cli_config_t& cli) {
                            return a.count > b.count;
                          });
 
-  std::cout << fmt::format("{:>8.3}\n", duration_cast<fsecs>(clk::now() - start));
+  progress << fmt::format("{:>8.3}\n", duration_cast<fsecs>(clk::now() - start));
 
-  std::cout << fmt::format("{:50}", "Sort by hash ascending ...");
+  progress << fmt::format("{:50}", "Sort by hash ascending ...");
   start = clk::now();
   // default sort by hash ascending
   std::sort(
@@ -120,15 +122,15 @@ void build_topn(const cli_config_t& cli) {
       std::execution::par_unseq,
 #endif
       memdb.begin(), memdb.end());
-  std::cout << fmt::format("{:>8.3}\n", duration_cast<fsecs>(clk::now() - start));
+  progress << fmt::format("{:>8.3}\n", duration_cast<fsecs>(clk::now() - start));
 
   start = clk::now();
-  std::cout << fmt::format("{:50}", "Write TopN db to disk ...");
+  progress << fmt::format("{:50}", "Write TopN db to disk ...");
   auto output_db = flat_file::stream_writer<PwType>(*output_stream);
   for (const auto& pw: memdb) {
     output_db.write(pw);
   }
-  std::cout << fmt::format("{:>8.3}\n", duration_cast<fsecs>(clk::now() - start));
+  progress << fmt::format("{:>8.3}\n", duration_cast<fsecs>(clk::now() - start));
 }
 
 int main(int argc, char* argv[]) {
-- 
2.43.0


From ca59a2160d34310696ab001c7e709a29792c981f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:47 +0000
Subject: [PATCH 15/37] fix: hibp-download --resume --sha1t64 recognises a
 completely written last file

It compared with the end of the full sha1 hash rather than with its first 64 bits, so that
it always cut off and repeated the last file, and even a finished database with
nothing to resume was left without its last file.
---
 src/dnl/resume.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/dnl/resume.cpp b/src/dnl/resume.cpp
index d31a6be..c98ca3d 100644
--- a/src/dnl/resume.cpp
+++ b/src/dnl/resume.cpp
@@ -12,6 +12,7 @@
 #include <sstream>
 #include <stdexcept>
 #include <string>
+#include <type_traits>
 
 namespace hibp::dnl {
 
@@ -37,13 +38,18 @@ std::size_t get_last_prefix(const std::string& filename, bool testing) {
 
   const std::string filebody = curl_sync_get(url<PwType>(prefix, testing));
 
+  // the files for sha1t64 contain the full sha1 hashes
+  constexpr auto file_suffix_size = std::is_same_v<PwType, pawned_pw_sha1t64>
+                                        ? pawned_pw_sha1::suffix_str_size
+                                        : PwType::suffix_str_size;
+
   auto pos_colon = filebody.find_last_of(':');
-  if (pos_colon == std::string::npos || pos_colon < PwType::suffix_str_size) {
+  if (pos_colon == std::string::npos || pos_colon < file_suffix_size) {
     throw std::runtime_error(fmt::format("Corrupt last file download with prefix '{}'.", prefix));
   }
 
   auto last_file_hash =
-      filebody.substr(pos_colon - PwType::suffix_str_size, PwType::suffix_str_size);
+      filebody.substr(pos_colon - file_suffix_size, PwType::suffix_str_size);
 
   if (last_file_hash == suffix) {
     std::size_t last_prefix{};
-- 
2.43.0


From d0d7d24e21635b2c7cd9294343bf2a6480c02047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:12 +0000
Subject: [PATCH 16/37] fix: text which is not a password record is refused

In release builds, where the asserts are off, hibp-convert --txt-to-bin and hibp-download
turned short or non-hex lines (a blank line, an HTML error page) into bogus records, reading
past the end of the line.
---
 include/hibp.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/hibp.hpp b/include/hibp.hpp
index c9b9e31..26d00b8 100644
--- a/include/hibp.hpp
+++ b/include/hibp.hpp
@@ -9,6 +9,7 @@
 #include <cstdint>
 #include <fmt/format.h>
 #include <ostream>
+#include <stdexcept>
 #include <string>
 #include <string_view>
 
@@ -20,7 +21,9 @@ struct pawned_pw;
 namespace detail {
 
 constexpr std::byte make_nibble(char c) {
-  assert((c >= '0' && c <= '9') || (c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f'));
+  if (!((c >= '0' && c <= '9') || (c >= 'A' && c <= 'F') || (c >= 'a' && c <= 'f'))) {
+    throw std::invalid_argument("not a hex digit in password hash");
+  }
   auto nibble = c - '0';
   if (nibble > 9) nibble = (nibble & ~('a' - 'A')) - ('A' - '0') + 10; // NOLINT signed
   assert(nibble >= 0 && nibble <= 15);
@@ -52,7 +55,7 @@ struct pawned_pw {
   pawned_pw() = default;
 
   explicit pawned_pw(const std::string& text) {
-    assert(text.length() >= hash_str_size);
+    if (text.length() < hash_str_size) throw std::invalid_argument("password hash is too short");
     std::size_t i = 0;
     for (auto& b: hash) {
       b = detail::make_byte(&text[2 * i]);
-- 
2.43.0


From 0eaf20704f23fc0d70c7062025303dd9d9ec57be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:12 +0000
Subject: [PATCH 17/37] fix: hibp-download skips blank lines which end in CRLF
 too

A blank line was only skipped if it ended in a bare LF.
---
 src/dnl/queuemgt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dnl/queuemgt.cpp b/src/dnl/queuemgt.cpp
index 0a1df6a..fb1f157 100644
--- a/src/dnl/queuemgt.cpp
+++ b/src/dnl/queuemgt.cpp
@@ -107,9 +107,9 @@ std::size_t write_lines(write_fn_t& write_fn, download& dl) {
   auto recordcount = 0UL;
 
   for (std::string line, prefixed_line; std::getline(ss, line);) {
+    line.erase(line.find_last_not_of('\r') + 1);
     if (!line.empty()) {
       prefixed_line = dl.prefix + line;
-      prefixed_line.erase(prefixed_line.find_last_not_of('\r') + 1);
 
       // calls text_writer or hibp_ff_sw, the latter via implicit conversion
       write_fn(prefixed_line);
-- 
2.43.0


From 720bf5c8cb5c8cb67a3ab7f56217a792f9e88ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:12 +0000
Subject: [PATCH 18/37] fix: hibp-download --debug names its threads under the
 lock of the logger

The running threads look the names up, and insert missing ones, at the same time.
---
 src/dnl/queuemgt.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/dnl/queuemgt.cpp b/src/dnl/queuemgt.cpp
index fb1f157..3c93e2f 100644
--- a/src/dnl/queuemgt.cpp
+++ b/src/dnl/queuemgt.cpp
@@ -234,8 +234,11 @@ void run(write_fn_t write_fn, std::size_t start_index_, bool testing_) {
       }
     });
 
-    req_thr_id           = requests_thread.get_id();
-    thrnames[req_thr_id] = "requests";
+    req_thr_id = requests_thread.get_id();
+    {
+      const std::lock_guard lk(cerr_mutex); // already used by logger in the other threads
+      thrnames[req_thr_id] = "requests";
+    }
 
     std::jthread queuemgt_thread([&]() {
       try {
@@ -246,8 +249,11 @@ void run(write_fn_t write_fn, std::size_t start_index_, bool testing_) {
         req_stop_source.request_stop();
       }
     });
-    que_thr_id           = queuemgt_thread.get_id();
-    thrnames[que_thr_id] = "queuemgt";
+    que_thr_id = queuemgt_thread.get_id();
+    {
+      const std::lock_guard lk(cerr_mutex);
+      thrnames[que_thr_id] = "queuemgt";
+    }
 
   } // wait here until threads join
 
-- 
2.43.0


From 2bf3fb162f107189aa618e2323e6d2c24ea089a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:25 +0000
Subject: [PATCH 19/37] fix: hibp-download refuses --parallel-max=0

It started no request at all and reported success for an empty database.
---
 app/hibp_download.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/app/hibp_download.cpp b/app/hibp_download.cpp
index c471447..5d9ebb4 100644
--- a/app/hibp_download.cpp
+++ b/app/hibp_download.cpp
@@ -42,7 +42,8 @@ void define_options(CLI::App& app, hibp::dnl::cli_config_t& cli) {
   app.add_flag("--force", cli.force, "Overwrite any existing file! Not with --resume.");
 
   app.add_option("--parallel-max", cli.parallel_max,
-                 "The maximum number of requests that will be started concurrently (default: 300)");
+                 "The maximum number of requests that will be started concurrently (default: 300)")
+      ->check(CLI::PositiveNumber);
 
   app.add_option("--limit", cli.index_limit,
                  "The maximum number (prefix) files that will be downloaded (default: 100 000 hex "
-- 
2.43.0


From 9944d03218f85cb7b139005bd6ab05facc3ec81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:52 +0000
Subject: [PATCH 20/37] fix: a table of contents which was not completely saved
 is rebuilt, not used

---
 src/toc.cpp | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/toc.cpp b/src/toc.cpp
index d7d5b2b..33ebe4c 100644
--- a/src/toc.cpp
+++ b/src/toc.cpp
@@ -35,17 +35,21 @@ std::uint32_t pw_to_prefix(const PwType& pw, unsigned bits) {
          (sizeof(toc_entry) * 8 - bits);
 }
 
+// a full toc has one entry for each prefix. The toc of a partial db stops with its last record
+template <pw_type PwType>
+std::size_t number_toc_entries(flat_file::database<PwType>& db, unsigned bits) {
+  const std::size_t max_entries = 1UL << bits; // default = 1Mega entries (just like the files)
+  return std::min(max_entries, static_cast<std::size_t>(pw_to_prefix(db.back(), bits)) + 1);
+}
+
 template <pw_type PwType>
 void build(const std::filesystem::path& db_path, unsigned bits) {
   // big buffer for sequential read
   flat_file::database<PwType> db(db_path, (1U << 16U) / sizeof(PwType));
 
-  std::size_t toc_entries = 1UL << bits; // default = 1Mega entries (just like the files)
-
-  auto last_pw_prefix = pw_to_prefix(db.back(), bits);
-  if (last_pw_prefix + 1 < toc_entries) {
+  const std::size_t toc_entries = number_toc_entries(db, bits);
+  if (toc_entries < 1UL << bits) {
     std::cout << fmt::format("Warning: DB is partial, reduced size toc.\n");
-    toc_entries = last_pw_prefix + 1;
   }
 
   const std::size_t db_size = db.number_records();
@@ -86,6 +90,15 @@ void build(const std::filesystem::path& db_path, unsigned bits) {
   std::cout << "\n";
 }
 
+// a toc which was only partially saved (crash, full disk) must not be used
+template <pw_type PwType>
+bool is_complete(const std::filesystem::path& toc_filename, const std::filesystem::path& db_path,
+                 unsigned bits) {
+  flat_file::database<PwType> db(db_path);
+  return std::filesystem::file_size(toc_filename) ==
+         number_toc_entries(db, bits) * sizeof(toc_entry);
+}
+
 template <pw_type PwType>
 void save(const std::filesystem::path& toc_filename) {
   std::cout << fmt::format("saving table of contents: {}\n", toc_filename);
@@ -135,8 +148,10 @@ void toc_build(const std::filesystem::path& db_filename, unsigned bits) {
 
   const std::string toc_filename = fmt::format("{}.{}.toc", db_filename.string(), bits);
 
-  if (!std::filesystem::exists(toc_filename) || (std::filesystem::last_write_time(toc_filename) <=
-                                                 std::filesystem::last_write_time(db_filename))) {
+  if (!std::filesystem::exists(toc_filename) ||
+      (std::filesystem::last_write_time(toc_filename) <=
+       std::filesystem::last_write_time(db_filename)) ||
+      !details::is_complete<PwType>(toc_filename, db_filename, bits)) {
 
     details::build<PwType>(db_filename, bits);
     details::save<PwType>(toc_filename);
-- 
2.43.0


From 3a3d256685c4387174394195a0fd6716ef598ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 21/37] fix: hibp-server decodes a percent-encoded password

---
 src/srv/server.cpp | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/srv/server.cpp b/src/srv/server.cpp
index 41e932b..455029e 100644
--- a/src/srv/server.cpp
+++ b/src/srv/server.cpp
@@ -89,6 +89,30 @@ auto handle_hash_search(flat_file::database<PwType>& db, const std::string& pass
   return search_and_respond<PwType>(db, needle, req);
 }
 
+// clients percent-encode those characters of a password, which may not appear in a url path
+std::string percent_decode(const std::string& encoded) {
+  auto nibble = [](char c) {
+    if (c >= '0' && c <= '9') return c - '0';
+    if (c >= 'a' && c <= 'f') return c - 'a' + 10;
+    if (c >= 'A' && c <= 'F') return c - 'A' + 10;
+    return -1;
+  };
+  std::string decoded;
+  for (std::size_t i = 0; i < encoded.size(); ++i) {
+    if (encoded[i] == '%' && i + 2 < encoded.size()) {
+      const int high = nibble(encoded[i + 1]);
+      const int low  = nibble(encoded[i + 2]);
+      if (high != -1 && low != -1) {
+        decoded.push_back(static_cast<char>(high * 16 + low));
+        i += 2;
+        continue;
+      }
+    }
+    decoded.push_back(encoded[i]);
+  }
+  return decoded;
+}
+
 auto get_router(const std::string& sha1_db_filename, const std::string& ntlm_db_filename,
                 const std::string& sha1t64_db_filename) {
   auto router = std::make_unique<restinio::router::express_router_t<>>();
@@ -114,7 +138,7 @@ auto get_router(const std::string& sha1_db_filename, const std::string& ntlm_db_
               : std::make_unique<sha1t64_db_t>(sha1t64_db_filename,
                                                4096 / sizeof(hibp::pawned_pw_sha1t64));
 
-      const std::string password{params["password"]};
+      const std::string password = percent_decode(std::string{params["password"]});
 
       if (params["format"] == "plain") {
         if (sha1_db) {
-- 
2.43.0


From 25783f1b0562c9d27182870f50535bf9242c11d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 22/37] fix: hibp-server answers /check/plain from the db which
 it announces

---
 src/srv/server.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/srv/server.cpp b/src/srv/server.cpp
index 455029e..a5637a0 100644
--- a/src/srv/server.cpp
+++ b/src/srv/server.cpp
@@ -144,12 +144,12 @@ auto get_router(const std::string& sha1_db_filename, const std::string& ntlm_db_
         if (sha1_db) {
           return handle_plain_search(*sha1_db, password, req);
         }
-        if (ntlm_db) {
-          return handle_plain_search(*ntlm_db, password, req);
-        }
         if (sha1t64_db) {
           return handle_plain_search(*sha1t64_db, password, req);
         }
+        if (ntlm_db) {
+          return handle_plain_search(*ntlm_db, password, req);
+        }
         return fail_missing_db_for_format(req, "--sha1-db, --sha1t64-db or --ntlm-db",
                                           "/check/plain");
       }
-- 
2.43.0


From 22a20bf2979a5359037db0a147d2c31fdcb6da33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 23/37] fix: hibp-search notices when its result can't be
 written

---
 app/hibp_search.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/app/hibp_search.cpp b/app/hibp_search.cpp
index 39fcf90..b8fd255 100644
--- a/app/hibp_search.cpp
+++ b/app/hibp_search.cpp
@@ -103,6 +103,7 @@ void run_search(const cli_config_t& cli) {
     std::cout << "found  = " << *maybe_ppw << "\n";
   else
     std::cout << "not found\n";
+  if (!std::cout.flush()) throw std::runtime_error("failed to write the output");
 }
 
 int main(int argc, char* argv[]) {
-- 
2.43.0


From 22c9a89329db676f497453fb1bc1879c191eb458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:09 +0000
Subject: [PATCH 24/37] fix: a moved file_writer writes to the stream it moved
 along

---
 include/flat_file.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/flat_file.hpp b/include/flat_file.hpp
index 80273f8..a527c50 100644
--- a/include/flat_file.hpp
+++ b/include/flat_file.hpp
@@ -74,6 +74,11 @@ public:
   // including the stream, whose own buffer could otherwise fail to reach the disk unnoticed
   ~stream_writer() { flush(true); }
 
+protected:
+  // for a derived class, which owns the stream and moves it along
+  stream_writer(stream_writer&& other, std::ostream& os) noexcept
+      : db_(os), buf_pos_(std::exchange(other.buf_pos_, 0)), buf_(std::move(other.buf_)) {}
+
 private:
   std::ostream&          db_; // NOLINT ref
   std::size_t            buf_pos_ = 0;
@@ -87,6 +92,11 @@ public:
       : ofstream_holder(std::move(dbfilename)), stream_writer<ValueType>(ofstream_) {
     if (!ofstream_.is_open()) throw std::domain_error("cannot open db: " + filename_);
   }
+
+  // the records must go to the moved stream, not to the one that was left behind
+  file_writer(file_writer&& other) noexcept
+      : ofstream_holder(std::move(other)),
+        stream_writer<ValueType>(std::move(other), ofstream_) {}
 };
 
 // CAUTION: flat_file::database ALWAYS INVALIDATES its iterators during move assignment.
-- 
2.43.0


From b3a2f4ed82c4de41f9646e28ad86578d325fa45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:50 +0000
Subject: [PATCH 25/37] fix: hibp-download --resume does not take an error
 response for the last range

curl_sync_get() ignored the http status, so an error page (or a partial 206) which
happens to hold records was taken as the range file, and --resume could go on
behind a prefix that was only partially written.
---
 src/dnl/requests.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dnl/requests.cpp b/src/dnl/requests.cpp
index 76f281d..2649819 100644
--- a/src/dnl/requests.cpp
+++ b/src/dnl/requests.cpp
@@ -272,7 +272,13 @@ std::string curl_sync_get(const std::string& url) {
                                          curl_easy_strerror(res)));
   }
 
+  long response_code = 0;
+  curl_easy_getinfo(curl, CURLINFO_RESPONSE_CODE, &response_code);
   curl_easy_cleanup(curl);
+  if (response_code != 200) {
+    throw std::runtime_error(fmt::format("curl_sync_get: Couldn't retrieve '{}'. http resp code: {}",
+                                         url, response_code));
+  }
   return result_body;
 }
 
-- 
2.43.0


From 23dcac5dcff6e310415134f655e6b839c08f0f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:22 +0000
Subject: [PATCH 26/37] fix: hibp-server crashed (stack overflow) on requests
 with a very long url

---
 src/srv/server.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/srv/server.cpp b/src/srv/server.cpp
index a5637a0..8c2ddc2 100644
--- a/src/srv/server.cpp
+++ b/src/srv/server.cpp
@@ -215,6 +215,9 @@ void run_server() {
   auto settings = restinio::on_thread_pool<my_server_traits>(cli.threads)
                       .address(cli.bind_address)
                       .port(cli.port)
+                      // matching a very long url would overflow the stack, it's recursive
+                      .incoming_http_msg_limits(
+                          restinio::incoming_http_msg_limits_t{}.max_url_size(8000U))
                       .request_handler(get_router(cli.sha1_db_filename, cli.ntlm_db_filename,
                                                   cli.sha1t64_db_filename));
 
-- 
2.43.0


From 206c0e44f7af9b55d5494a1bade2cefd8a0d5ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:04 +0000
Subject: [PATCH 27/37] fix: hibp-convert reported success when its text input
 couldn't be read to the end

---
 app/hibp_convert.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/app/hibp_convert.cpp b/app/hibp_convert.cpp
index 88901b7..9e782a8 100644
--- a/app/hibp_convert.cpp
+++ b/app/hibp_convert.cpp
@@ -2,6 +2,7 @@
 #include "hibp.hpp"
 #include <CLI/CLI.hpp>
 #include <cstddef>
+#include <cstdio>
 #include <cstdlib>
 #include <exception>
 #include <filesystem>
@@ -88,6 +89,10 @@ void txt_to_bin(std::istream& input_stream, std::ostream& output_stream, std::si
   for (std::string line; std::getline(input_stream, line) && count != limit; count++) {
     writer.write(PwType{line});
   }
+  // std::cin does not distinguish a read error from the end of the input
+  if (input_stream.bad() || (&input_stream == &std::cin && std::ferror(stdin) != 0)) {
+    throw std::runtime_error("failed to read the input");
+  }
 }
 
 template <hibp::pw_type PwType>
-- 
2.43.0


From ceff3f335a509d7b2045ffbe06cf65f70546e469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:24 +0000
Subject: [PATCH 28/37] fix: a table of contents which couldn't be read gave
 wrong answers

---
 src/toc.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/toc.cpp b/src/toc.cpp
index 33ebe4c..b3eb985 100644
--- a/src/toc.cpp
+++ b/src/toc.cpp
@@ -115,6 +115,9 @@ void load(const std::filesystem::path& toc_filename) {
   toc<PwType>              = std::vector<toc_entry>(toc_file_size / sizeof(toc_entry));
   toc_stream.read(reinterpret_cast<char*>(toc<PwType>.data()), // NOLINT reincast
                   static_cast<std::streamsize>(toc_file_size));
+  if (!toc_stream) {
+    throw std::runtime_error(fmt::format("failed to read table of contents: {}", toc_filename));
+  }
 }
 
 template <pw_type PwType>
-- 
2.43.0


From 5d869bedc336a3ee987c0572f1fe39bbe8ab15ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:19 +0000
Subject: [PATCH 29/37] fix: toc_build appended to the table of an earlier
 build in the same process

---
 src/toc.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/toc.cpp b/src/toc.cpp
index b3eb985..bb0716c 100644
--- a/src/toc.cpp
+++ b/src/toc.cpp
@@ -67,6 +67,7 @@ void build(const std::filesystem::path& db_path, unsigned bits) {
                            toc_entry_size);
   std::cout << fmt::format("{:30s} {:15.0f} per query\n", "Max disk reads with ToC",
                            std::ceil(std::log2(toc_entry_size)));
+  toc<PwType>.clear(); // there may be one from an earlier build
   toc<PwType>.reserve(toc_entries);
 
   toc_entry last_pos = 0;
-- 
2.43.0


From cc86a7425582dcedc44848e5655db50bdaeaaa20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:18 +0000
Subject: [PATCH 30/37] fix: a table of contents which another process was
 saving was loaded empty

---
 src/toc.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/toc.cpp b/src/toc.cpp
index bb0716c..2e37cdd 100644
--- a/src/toc.cpp
+++ b/src/toc.cpp
@@ -109,13 +109,16 @@ void save(const std::filesystem::path& toc_filename) {
 }
 
 template <pw_type PwType>
-void load(const std::filesystem::path& toc_filename) {
+void load(const std::filesystem::path& toc_filename, const std::filesystem::path& db_path,
+          unsigned bits) {
   std::cout << fmt::format("loading table of contents: {}\n", toc_filename);
-  const auto toc_file_size = std::filesystem::file_size(toc_filename);
-  auto       toc_stream    = std::ifstream(toc_filename, std::ios_base::binary);
-  toc<PwType>              = std::vector<toc_entry>(toc_file_size / sizeof(toc_entry));
+  // not as many as there are in the file: another process may just be saving it once more
+  flat_file::database<PwType> db(db_path);
+  const std::size_t           toc_entries = number_toc_entries(db, bits);
+  auto toc_stream = std::ifstream(toc_filename, std::ios_base::binary);
+  toc<PwType>     = std::vector<toc_entry>(toc_entries);
   toc_stream.read(reinterpret_cast<char*>(toc<PwType>.data()), // NOLINT reincast
-                  static_cast<std::streamsize>(toc_file_size));
+                  static_cast<std::streamsize>(sizeof(toc_entry) * toc_entries));
   if (!toc_stream) {
     throw std::runtime_error(fmt::format("failed to read table of contents: {}", toc_filename));
   }
@@ -160,7 +163,7 @@ void toc_build(const std::filesystem::path& db_filename, unsigned bits) {
     details::build<PwType>(db_filename, bits);
     details::save<PwType>(toc_filename);
   } else {
-    details::load<PwType>(toc_filename);
+    details::load<PwType>(toc_filename, db_filename, bits);
   }
 }
 
-- 
2.43.0


From 685016c47f3abfa203e84a04657f39c353c15d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:43 +0000
Subject: [PATCH 31/37] fix: hibp-server didn't end when it couldn't open its
 address

---
 src/srv/server.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/srv/server.cpp b/src/srv/server.cpp
index 8c2ddc2..79eea6e 100644
--- a/src/srv/server.cpp
+++ b/src/srv/server.cpp
@@ -221,7 +221,11 @@ void run_server() {
                       .request_handler(get_router(cli.sha1_db_filename, cli.ntlm_db_filename,
                                                   cli.sha1t64_db_filename));
 
-  restinio::run(std::move(settings));
+  // opened before the threads run: when opening fails, restinio::run() may wait for ever
+  restinio::http_server_t<my_server_traits> server{restinio::own_io_context(), std::move(settings)};
+  server.open_sync();
+
+  restinio::run(restinio::on_thread_pool(cli.threads, restinio::break_signal_handling_t::used, server));
 }
 
 } // namespace hibp::srv
-- 
2.43.0


From 0d2f57b0c76541f76cb8a3682ddd6f19160b0f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:10 +0000
Subject: [PATCH 32/37] fix: hibp-download --resume waited for ever when the
 response to its first request stalled

---
 src/dnl/requests.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dnl/requests.cpp b/src/dnl/requests.cpp
index 2649819..8a8bb33 100644
--- a/src/dnl/requests.cpp
+++ b/src/dnl/requests.cpp
@@ -266,6 +266,9 @@ std::string curl_sync_get(const std::string& url) {
   curl_easy_setopt(curl, CURLOPT_WRITEFUNCTION, +write_cb); // convert to func ptr
   std::string result_body;
   curl_easy_setopt(curl, CURLOPT_WRITEDATA, &result_body);
+  // abort if slower than 1000 bytes/sec for 5 seconds
+  curl_easy_setopt(curl, CURLOPT_LOW_SPEED_TIME, 5L);
+  curl_easy_setopt(curl, CURLOPT_LOW_SPEED_LIMIT, 1000L);
   if (auto res = curl_easy_perform(curl); res != CURLE_OK) {
     curl_easy_cleanup(curl);
     throw std::runtime_error(fmt::format("curl_sync_get: Couldn't retrieve '{}'. Error: {}", url,
-- 
2.43.0


From d83b0480fa4b7a4b88108b00bee3130589dc338c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:33 +0000
Subject: [PATCH 33/37] fix: hibp-download kept everything in memory while one
 request was late or starved

---
 src/dnl/requests.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/dnl/requests.cpp b/src/dnl/requests.cpp
index 8a8bb33..84841f9 100644
--- a/src/dnl/requests.cpp
+++ b/src/dnl/requests.cpp
@@ -96,7 +96,14 @@ void add_download(std::size_t index) {
 }
 
 void fill_download_queue() {
-  while (download_slots.size() != cli.parallel_max && next_index != cli.index_limit) {
+  // all downloads behind a late one wait for it in memory, so don't get too far ahead of it
+  const std::size_t max_ahead = std::max<std::size_t>(1000, 10 * cli.parallel_max);
+
+  std::size_t oldest = next_index;
+  for (const auto& slot: download_slots) oldest = std::min(oldest, slot.first);
+
+  while (download_slots.size() != cli.parallel_max && next_index != cli.index_limit &&
+         next_index - oldest < max_ahead) {
     add_download(next_index++);
   }
 }
-- 
2.43.0


From ffe06468c3e3d89202c96b76df2569c5856b4815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:16:55 +0000
Subject: [PATCH 34/37] fix: hibp-download --resume lost or repeated records of
 equal 64 bit hashes

---
 src/dnl/resume.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/dnl/resume.cpp b/src/dnl/resume.cpp
index c98ca3d..3b2d3ef 100644
--- a/src/dnl/resume.cpp
+++ b/src/dnl/resume.cpp
@@ -28,7 +28,7 @@ std::size_t get_last_prefix(const std::string& filename, bool testing) {
 
   flat_file::database<PwType> db(filename);
 
-  const auto& last_db_ppw = db.back();
+  const PwType last_db_ppw = db.back();
 
   std::stringstream ss;
   ss << last_db_ppw;
@@ -51,7 +51,19 @@ std::size_t get_last_prefix(const std::string& filename, bool testing) {
   auto last_file_hash =
       filebody.substr(pos_colon - file_suffix_size, PwType::suffix_str_size);
 
-  if (last_file_hash == suffix) {
+  auto rbegin = std::make_reverse_iterator(db.end());
+  auto rend   = std::make_reverse_iterator(db.begin());
+
+  // hashes truncated to 64 bits can be equal: all of the last ones must be there
+  auto lines_with_suffix = 0L;
+  for (auto pos = filebody.find(suffix); pos != std::string::npos;
+       pos      = filebody.find(suffix, pos + 1)) {
+    if (pos == 0 || filebody[pos - 1] == '\n') ++lines_with_suffix;
+  }
+  const auto records_with_suffix =
+      std::find_if(rbegin, rend, [&](const PwType& pw) { return !(pw == last_db_ppw); }) - rbegin;
+
+  if (last_file_hash == suffix && records_with_suffix == lines_with_suffix) {
     std::size_t last_prefix{};
     std::from_chars(prefix.c_str(), prefix.c_str() + prefix.length(), last_prefix, 16);
 
@@ -66,14 +78,16 @@ std::size_t get_last_prefix(const std::string& filename, bool testing) {
 
   auto first_file_hash = prefix + filebody.substr(0, PwType::suffix_str_size);
   auto needle          = PwType(first_file_hash);
-  auto rbegin          = std::make_reverse_iterator(db.end());
-  auto rend            = std::make_reverse_iterator(db.begin());
   auto found_iter      = std::find(rbegin, rend, needle);
   if (found_iter == rend) {
     throw std::runtime_error(
         "Not found at all, sorry you will need to start afresh without `--resume`.\n");
   }
 
+  while (std::next(found_iter) != rend && *std::next(found_iter) == needle) {
+    ++found_iter; // to the first of equal ones
+  }
+
   auto trimmed_file_size = static_cast<std::size_t>(rend - found_iter - 1) * sizeof(PwType);
   std::cerr << fmt::format("found: trimming file to {}.\n", trimmed_file_size);
 
-- 
2.43.0


From 6535e213e688759daf119ff4b926df2badeea46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:16:55 +0000
Subject: [PATCH 35/37] fix: hibp-sort failed when there were more chunks than
 open files allowed

---
 include/flat_file.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/flat_file.hpp b/include/flat_file.hpp
index a527c50..434cfec 100644
--- a/include/flat_file.hpp
+++ b/include/flat_file.hpp
@@ -329,6 +329,16 @@ std::string disksort_range(typename database<ValueType>::const_iterator first,
   } else {
     std::cerr << fmt::format("\nmerging [{:12d},{:12d}) => {:s}\n", first.pos(), last.pos(),
                              sorted_filename);
+    // all the chunks of a merge are open at once: so merge very many of them step by step
+    constexpr std::size_t max_open = 500;
+    for (auto next = chunk_filenames.size(); chunk_filenames.size() > max_open; ++next) {
+      const auto                     end = chunk_filenames.begin() + max_open;
+      const std::vector<std::string> some(chunk_filenames.begin(), end);
+      chunk_filenames.erase(chunk_filenames.begin(), end);
+      chunk_filenames.push_back(
+          fmt::format("{}.partial.{:04d}", first.filename().string(), next));
+      merge_sorted_chunks<ValueType>(some, chunk_filenames.back(), comp, proj);
+    }
     merge_sorted_chunks<ValueType>(chunk_filenames, sorted_filename, comp, proj);
   }
   return sorted_filename;
-- 
2.43.0


From 9f22fba1ed67a2659344bc000a85b3c0fc70684b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:16:55 +0000
Subject: [PATCH 36/37] fix: flat_file::database (so hibp-server) gave wrong
 records after a failed read

---
 include/flat_file.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/flat_file.hpp b/include/flat_file.hpp
index 434cfec..56d49f1 100644
--- a/include/flat_file.hpp
+++ b/include/flat_file.hpp
@@ -136,6 +136,7 @@ public:
         throw std::runtime_error(
             "flat_file:get_record cannot return data, are you dereferencing db.end()?");
       }
+      buf_end_ = buf_start_; // reading overwrites the buffer even when it fails
       db_.seekg(static_cast<std::streamoff>(pos * sizeof(ValueType)));
 
       db_.read(reinterpret_cast<char*>(buf_.data()), // NOLINT reinterpret_cast
-- 
2.43.0


From 2d6adc274cc8f9913446f19721add2a1d41fc305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:16:55 +0000
Subject: [PATCH 37/37] fix: hibp-download with a --limit beyond the last
 prefix asked for prefixes that don't exist, and failed

---
 app/hibp_download.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/app/hibp_download.cpp b/app/hibp_download.cpp
index 5d9ebb4..647cd5f 100644
--- a/app/hibp_download.cpp
+++ b/app/hibp_download.cpp
@@ -102,6 +102,9 @@ int main(int argc, char* argv[]) {
 
   if (cli.debug) cli.progress = false;
 
+  const std::size_t all_prefixes = 0x100000;
+  if (cli.index_limit > all_prefixes) cli.index_limit = all_prefixes;
+
   hibp::dnl::logger.debug = cli.debug;
 
   try {
-- 
2.43.0

