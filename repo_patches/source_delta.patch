From c8a635677425c3b254ce4bf1ae5cec6326fbf68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:32 +0000
Subject: [PATCH 01/57] fix: lookups never read beyond the last complete record

Searching for a hash greater than the last one read at end of file, which
left the stream in a failed state: every later lookup reported 'not found'.
---
 pwned-lib/passwordinspector.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pwned-lib/passwordinspector.cpp b/pwned-lib/passwordinspector.cpp
index 4951469..de21e53 100755
--- a/pwned-lib/passwordinspector.cpp
+++ b/pwned-lib/passwordinspector.cpp
@@ -81,7 +81,8 @@ PasswordHashAndCount PasswordInspector::binsearch(const Hash &hash, int *readCou
 {
   int nReads = 0;
   std::streamoff lo = 0;
-  std::streamoff hi = mFileSize;
+  // start of the last complete record; nothing beyond it may be read
+  std::streamoff hi = (std::streamoff)(size() * PasswordHashAndCount::size) - (std::streamoff)PasswordHashAndCount::size;
   if (mIndexFile.is_open())
   {
     const uint64_t hashMSB = hash.quad.upper >> mShift;
-- 
2.43.0


From 2cbdc4271ca00e59ea83470a901123b1b3a982ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:11 +0000
Subject: [PATCH 02/57] fix: index lookups terminate when a hash lies outside
 the used buckets

The scans for the next used index key ran past both ends of the index
(negative offset / end of file) and never terminated if no used key was there.
---
 pwned-lib/passwordinspector.cpp | 29 +++++++++++++++++++----------
 pwned-lib/passwordinspector.hpp |  1 +
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/pwned-lib/passwordinspector.cpp b/pwned-lib/passwordinspector.cpp
index de21e53..ab45d5f 100755
--- a/pwned-lib/passwordinspector.cpp
+++ b/pwned-lib/passwordinspector.cpp
@@ -33,6 +33,8 @@ namespace fs = boost::filesystem;
 namespace pwned
 {
 
+static constexpr index_key_t UnusedIndexKey = std::numeric_limits<index_key_t>::max();
+
 template <typename T>
 inline void safe_assign(T *a, T b)
 {
@@ -65,6 +67,7 @@ bool PasswordInspector::open(const std::string &inputFilename, const std::string
   if (!indexFilename.empty())
   {
     const uint64_t nKeys = uint64_t(fs::file_size(indexFilename) / sizeof(index_key_t));
+    mIndexSize = int64_t(nKeys * sizeof(index_key_t));
     mShift = (unsigned int)(sizeof(index_key_t) * 8 - popcnt64(nKeys - 1));
     mIndexFile.open(indexFilename, std::ios::binary);
     ok = ok && mIndexFile.is_open();
@@ -87,22 +90,28 @@ PasswordHashAndCount PasswordInspector::binsearch(const Hash &hash, int *readCou
   {
     const uint64_t hashMSB = hash.quad.upper >> mShift;
     const std::streamoff idx = (std::streamoff)(hashMSB * sizeof(index_key_t));
-    std::streamoff loIdx = idx;
-    do {
+    index_key_t key = UnusedIndexKey;
+    for (std::streamoff loIdx = idx; loIdx >= 0 && key == UnusedIndexKey; loIdx -= (std::streamoff)sizeof(index_key_t))
+    {
       mIndexFile.seekg(loIdx);
-      mIndexFile.read(reinterpret_cast<char*>(&lo), sizeof(index_key_t));
+      mIndexFile.read(reinterpret_cast<char*>(&key), sizeof(index_key_t));
       ++nReads;
-      loIdx -= sizeof(index_key_t);
     }
-    while (lo == int64_t(std::numeric_limits<index_key_t>::max()));
-    std::streamoff hiIdx = idx + (std::streamoff)sizeof(index_key_t);
-    do {
+    if (key != UnusedIndexKey)
+    {
+      lo = (std::streamoff)key;
+    }
+    key = UnusedIndexKey;
+    for (std::streamoff hiIdx = idx + (std::streamoff)sizeof(index_key_t); hiIdx < mIndexSize && key == UnusedIndexKey; hiIdx += (std::streamoff)sizeof(index_key_t))
+    {
       mIndexFile.seekg(hiIdx);
-      mIndexFile.read(reinterpret_cast<char*>(&hi), sizeof(index_key_t));
+      mIndexFile.read(reinterpret_cast<char*>(&key), sizeof(index_key_t));
       ++nReads;
-      hiIdx += sizeof(index_key_t);
     }
-    while (hi == int64_t(std::numeric_limits<index_key_t>::max()));
+    if (key != UnusedIndexKey)
+    {
+      hi = (std::streamoff)key;
+    }
   }
   PasswordHashAndCount phc;
   while (lo <= hi)
diff --git a/pwned-lib/passwordinspector.hpp b/pwned-lib/passwordinspector.hpp
index 78b64ce..9cb5128 100755
--- a/pwned-lib/passwordinspector.hpp
+++ b/pwned-lib/passwordinspector.hpp
@@ -33,6 +33,7 @@ private:
   std::ifstream mInputFile;
   std::ifstream mIndexFile;
   int64_t mFileSize{0};
+  int64_t mIndexSize{0};
   unsigned int mShift{0};
   PasswordHashAndCount mPHC;
 
-- 
2.43.0


From 2594a9652463ca77d92fba5bfaaeac7636542663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:11 +0000
Subject: [PATCH 03/57] fix: re-opening a password inspector switches to the
 new files

open() on an inspector that was already open kept reading the old database
(with the size of the new one) and, without an index filename, the old index.
---
 pwned-lib/passwordinspector.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pwned-lib/passwordinspector.cpp b/pwned-lib/passwordinspector.cpp
index ab45d5f..50c1792 100755
--- a/pwned-lib/passwordinspector.cpp
+++ b/pwned-lib/passwordinspector.cpp
@@ -57,6 +57,14 @@ PasswordInspector::PasswordInspector(const std::string &inputFilename, const std
 bool PasswordInspector::open(const std::string &filename)
 {
   mFileSize = int64_t(fs::file_size(filename));
+  if (mInputFile.is_open())
+  {
+    mInputFile.close();
+  }
+  if (mIndexFile.is_open())
+  {
+    mIndexFile.close();
+  }
   mInputFile.open(filename, std::ios::binary);
   return mInputFile.is_open();
 }
-- 
2.43.0


From ddd050dce69e61df09f1d51cdb98ab9218df6fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:31 +0000
Subject: [PATCH 04/57] fix: indexer terminates on unreadable input and reports
 I/O errors

A missing or unreadable database made the indexer loop forever, a truncated
last record was indexed, a failed write was reported as success, and key
widths of 0 or more than 63 bits shifted out of range.
---
 pwned-index/index.cpp | 39 +++++++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/pwned-index/index.cpp b/pwned-index/index.cpp
index e40e8bf..1dbb76e 100644
--- a/pwned-index/index.cpp
+++ b/pwned-index/index.cpp
@@ -120,32 +120,45 @@ int main(int argc, const char *argv[])
     return EXIT_FAILURE;
   }
 
+  if (bits < 1 || bits >= sizeof(pwned::index_key_t) * 8)
+  {
+    std::cerr << "ERROR: bit count of index key must be between 1 and " << (sizeof(pwned::index_key_t) * 8 - 1) << "." << std::endl;
+    return EXIT_FAILURE;
+  }
+
   const unsigned int shift = (unsigned int)(sizeof(pwned::index_key_t) * 8 - bits);
   const pwned::index_key_t maxIdx = pwned::index_key_t(1) + (std::numeric_limits<pwned::index_key_t>::max() >> shift);
 
   std::cout << "Scanning ..." << std::endl;
   std::ifstream input(inputFilename, std::ios::binary);
+  if (!input.is_open())
+  {
+    std::cerr << "ERROR: cannot open input file '" << inputFilename << "'." << std::endl;
+    return EXIT_FAILURE;
+  }
   pwned::PasswordHashAndCount phc;
   pwned::index_key_t *indexes = new pwned::index_key_t[maxIdx];
   memset(indexes, 0xff, maxIdx * sizeof(pwned::index_key_t));
-  phc.read(input);
-  pwned::index_key_t lastIdx = pwned::index_key_t(phc.hash.quad.upper >> shift);
-  *(indexes + lastIdx) = 0;
-  pwned::index_key_t idx = 0;
+  pwned::index_key_t lastIdx = 0;
   uint64_t pos = 0;
-  while (!input.eof())
+  while (phc.read(input))
   {
-    phc.read(input);
-    idx = pwned::index_key_t(phc.hash.quad.upper >> shift);
-    if (idx > lastIdx)
+    const pwned::index_key_t idx = pwned::index_key_t(phc.hash.quad.upper >> shift);
+    if (idx > lastIdx || pos == 0)
     {
-      pos = uint64_t(input.tellg()) - pwned::PasswordHashAndCount::size;
       *(indexes + idx) = pos;
       std::cout << "\rMSB 0x" << std::hex << idx << " @ " << std::dec << pos << std::flush;
       lastIdx = idx;
     }
+    pos += pwned::PasswordHashAndCount::size;
+  }
+  if (input.bad())
+  {
+    std::cerr << std::endl
+              << "ERROR: cannot read input file '" << inputFilename << "'." << std::endl;
+    delete[] indexes;
+    return EXIT_FAILURE;
   }
-  *(indexes + idx) = pos;
   input.close();
 
   std::cout << std::endl
@@ -154,6 +167,12 @@ int main(int argc, const char *argv[])
   output.write((const char *)indexes, std::streamsize(maxIdx * sizeof(pwned::index_key_t)));
   output.close();
   delete[] indexes;
+  if (output.fail())
+  {
+    std::cerr << std::endl
+              << "ERROR: cannot write index file '" << outputFilename << "'." << std::endl;
+    return EXIT_FAILURE;
+  }
   std::cout << "Ready." << std::endl
             << std::endl;
 
-- 
2.43.0


From 12717ad33ffde11afa603e69e0c96bbbefb87767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:31 +0000
Subject: [PATCH 05/57] fix: inequality of hashes is the negation of their
 equality

---
 pwned-lib/hash.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwned-lib/hash.hpp b/pwned-lib/hash.hpp
index f391232..a22efae 100755
--- a/pwned-lib/hash.hpp
+++ b/pwned-lib/hash.hpp
@@ -96,7 +96,7 @@ inline bool operator==(const Hash &lhs, const Hash &rhs)
 
 inline bool operator!=(const Hash &lhs, const Hash &rhs)
 {
-  return lhs.quad.upper != rhs.quad.upper || lhs.quad.lower != rhs.quad.lower ||  lhs.isValid == rhs.isValid;
+  return !(lhs == rhs);
 }
 
 inline bool operator<(const Hash &lhs, const Hash &rhs)
-- 
2.43.0


From b9862f24880a2682a7f252d4306dcdcfe0101dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:04 +0000
Subject: [PATCH 06/57] fix: only hex digits make up a $HEX[] password or an
 MD5 hash

A password such as $HEX[zz] was replaced by the part of it that happened to
decode, so the literal password was lost.
---
 pwned-lib/userpasswordreader.cpp | 6 ++++--
 pwned-lib/userpasswordreader.hpp | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/pwned-lib/userpasswordreader.cpp b/pwned-lib/userpasswordreader.cpp
index 4de23fc..c42ea87 100755
--- a/pwned-lib/userpasswordreader.cpp
+++ b/pwned-lib/userpasswordreader.cpp
@@ -186,8 +186,10 @@ Hash UserPasswordReader::nextPasswordHash()
       if (std::regex_match(pwd, match, HexRegex))
       {
         std::string dehexed;
-        hexToCharSeq(match[1], dehexed);
-        hash = Hash(dehexed);
+        if (hexToCharSeq(match[1], dehexed))
+        {
+          hash = Hash(dehexed);
+        }
       }
     }
     if (!hash.isValid)
diff --git a/pwned-lib/userpasswordreader.hpp b/pwned-lib/userpasswordreader.hpp
index aed54a2..80a35f9 100755
--- a/pwned-lib/userpasswordreader.hpp
+++ b/pwned-lib/userpasswordreader.hpp
@@ -58,8 +58,8 @@ private:
   uint64_t lineNo{0};
   char guessedSeparator{'\0'};
   float approxBytesPerEntry{30};
-  const std::regex HexRegex{"\\$HEX\\[((?:[a-zA-Z0-9][a-zA-Z0-9])+?)\\]"};
-  const std::regex MD5Regex{"[a-zA-Z0-9]{32}"};
+  const std::regex HexRegex{"\\$HEX\\[((?:[a-fA-F0-9][a-fA-F0-9])+?)\\]"};
+  const std::regex MD5Regex{"[a-fA-F0-9]{32}"};
   bool forceEvaluateHexEncodedPasswords{false};
   bool forceEvaluateMD5Hashes{false};
   bool autoEvaluateHexEncodedPasswords{false};
-- 
2.43.0


From 07eea1aaf0bdbbadecbfbe4e0f703da0b6919675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:04 +0000
Subject: [PATCH 07/57] fix: line ending does not count for the length limit of
 a line

A line of exactly 200 characters was accepted with LF but dropped with CRLF.
---
 pwned-lib/userpasswordreader.cpp | 3 ++-
 pwned-lib/userpasswordreader.hpp | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/pwned-lib/userpasswordreader.cpp b/pwned-lib/userpasswordreader.cpp
index c42ea87..a69da82 100755
--- a/pwned-lib/userpasswordreader.cpp
+++ b/pwned-lib/userpasswordreader.cpp
@@ -158,8 +158,9 @@ std::string UserPasswordReader::nextPassword()
   if (input.eof() || input.bad())
     return std::string();
   std::getline(input, currentLine);
+  currentLine.erase(std::remove(currentLine.begin(), currentLine.end(), '\r'), currentLine.end());
   ++lineNo;
-  if (currentLine.size() > 200 || currentLine.size() < 1) // assume no user:pass line is longer than 200 characters
+  if (currentLine.size() > maxLineLength || currentLine.size() < 1)
     return std::string();
   return extractPassword(currentLine);
 }
diff --git a/pwned-lib/userpasswordreader.hpp b/pwned-lib/userpasswordreader.hpp
index 80a35f9..5dc7081 100755
--- a/pwned-lib/userpasswordreader.hpp
+++ b/pwned-lib/userpasswordreader.hpp
@@ -54,6 +54,7 @@ protected:
 
 private:
   static const int nTries{500};
+  static constexpr std::size_t maxLineLength{200}; // assume no user:pass line is longer than this
   uint64_t validEntries{0};
   uint64_t lineNo{0};
   char guessedSeparator{'\0'};
-- 
2.43.0


From 9095a524f71ae542dc98d3051e8ae4442b43ef17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:34 +0000
Subject: [PATCH 08/57] fix: auto detection of MD5/HEX passwords copes with any
 line

Files without a separator (one password per line) were never checked, and a
very long line could exhaust the stack in std::regex_search although such
lines are never read as passwords.
---
 pwned-lib/userpasswordreader.cpp | 10 ++++++++--
 pwned-lib/userpasswordreader.hpp |  1 +
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/pwned-lib/userpasswordreader.cpp b/pwned-lib/userpasswordreader.cpp
index a69da82..d63621f 100755
--- a/pwned-lib/userpasswordreader.cpp
+++ b/pwned-lib/userpasswordreader.cpp
@@ -83,6 +83,11 @@ char UserPasswordReader::guessSeparator()
   return guessedSeparator;
 }
 
+bool UserPasswordReader::mayContainPassword(const std::string &line) const
+{
+  return line.size() <= maxLineLength && (guessedSeparator == '\0' || line.find(guessedSeparator) != std::string::npos);
+}
+
 bool UserPasswordReader::checkForMD5Hashes()
 {
   if (!forceEvaluateMD5Hashes && autoEvaluateMD5Hashes)
@@ -92,7 +97,7 @@ bool UserPasswordReader::checkForMD5Hashes()
     {
       std::getline(input, line);
       line.erase(std::remove(line.begin(), line.end(), '\r'), line.end());
-      if (line.find(guessedSeparator) != std::string::npos)
+      if (mayContainPassword(line))
       {
         if (std::regex_search(line, MD5Regex))
         {
@@ -117,7 +122,8 @@ bool UserPasswordReader::checkForHexEncodedPasswords()
     for (int i = 0; i < nTries && !eof(); ++i)
     {
       std::getline(input, line);
-      if (line.find(guessedSeparator) != std::string::npos)
+      line.erase(std::remove(line.begin(), line.end(), '\r'), line.end());
+      if (mayContainPassword(line))
       {
         if (std::regex_search(line, HexRegex))
         {
diff --git a/pwned-lib/userpasswordreader.hpp b/pwned-lib/userpasswordreader.hpp
index 5dc7081..50d572e 100755
--- a/pwned-lib/userpasswordreader.hpp
+++ b/pwned-lib/userpasswordreader.hpp
@@ -49,6 +49,7 @@ public:
 protected:
   void evaluateContents();
   char guessSeparator();
+  bool mayContainPassword(const std::string &line) const;
   bool checkForMD5Hashes();
   bool checkForHexEncodedPasswords();
 
-- 
2.43.0


From 368553455592d20bb190d44a92900e9ea3b448d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:02 +0000
Subject: [PATCH 09/57] fix: converter terminates on unreadable input and does
 not ignore I/O errors

All input files were opened up front, so that with many of them the later
ones could not be opened; an input that could not be opened or read, or a
memory limit below one entry, made the converter loop forever, and output
that could not be written was dropped without notice.
---
 pwned-converter-cli/convertoperation.cpp | 37 ++++++++++++++++++------
 pwned-lib/userpasswordreader.cpp         |  4 +--
 2 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/pwned-converter-cli/convertoperation.cpp b/pwned-converter-cli/convertoperation.cpp
index 7213788..2a1dc51 100755
--- a/pwned-converter-cli/convertoperation.cpp
+++ b/pwned-converter-cli/convertoperation.cpp
@@ -28,6 +28,12 @@
 
 namespace fs = boost::filesystem;
 
+enum ConvertError
+{
+  cannotReadFromFile = 1,
+  cannotWriteToFile
+};
+
 class ConvertOperationPrivate
 {
 public:
@@ -39,10 +45,9 @@ public:
       : srcFilePath(srcFilename)
       , dstPath(dstDirectory)
       , outputExt(outputExt)
-      , maxMem(maxMem)
+      , maxMem(std::max<uint64_t>(maxMem, 1)) // at least one entry per output file
       , options(options)
   {
-    inputFile.open(srcFilename, std::ios::binary);
   }
   const fs::path srcFilePath;
   const fs::path dstPath;
@@ -79,11 +84,16 @@ void ConvertOperation::execute() noexcept(false)
            << std::endl;
     std::cout << output.str();
   }
+  d->inputFile.open(d->srcFilePath.string(), std::ios::binary);
+  if (!d->inputFile.is_open())
+  {
+    throw pwned::OperationException("Cannot open file for reading: " + d->srcFilePath.string(), ConvertError::cannotReadFromFile);
+  }
   pwned::UserPasswordReader reader(d->inputFile, d->options);
   static const uint64_t estimatedMemoryOverheadPerEntry = sizeof(uintptr_t);
   static const uint64_t memUsagePerEntry = sizeof(pwned::Hash) + sizeof(uint32_t) + sizeof(pwned::PasswordHashAndCount) + estimatedMemoryOverheadPerEntry;
   int splitFileNum = 0;
-  while (!reader.eof())
+  while (!reader.eof() && !reader.bad())
   {
     uint64_t memUsage = 0;
     ++splitFileNum;
@@ -160,13 +170,18 @@ void ConvertOperation::execute() noexcept(false)
       std::cout << output.str();
     }
     std::ofstream f(dstFilePath.string(), std::ios::binary);
-    if (f.is_open())
+    if (!f.is_open())
     {
-      for (const auto &phc : passwordList)
-      {
-        phc.dump(f);
-      }
-      f.close();
+      throw pwned::OperationException("Cannot open file for writing: " + dstFilePath.string(), ConvertError::cannotWriteToFile);
+    }
+    for (const auto &phc : passwordList)
+    {
+      phc.dump(f);
+    }
+    f.close();
+    if (f.fail())
+    {
+      throw pwned::OperationException("Cannot write to file: " + dstFilePath.string(), ConvertError::cannotWriteToFile);
     }
     if (isPaused)
     {
@@ -174,4 +189,8 @@ void ConvertOperation::execute() noexcept(false)
       isPaused = false;
     }
   }
+  if (reader.bad())
+  {
+    throw pwned::OperationException("Cannot read from file: " + d->srcFilePath.string(), ConvertError::cannotReadFromFile);
+  }
 }
diff --git a/pwned-lib/userpasswordreader.cpp b/pwned-lib/userpasswordreader.cpp
index d63621f..7acd9a4 100755
--- a/pwned-lib/userpasswordreader.cpp
+++ b/pwned-lib/userpasswordreader.cpp
@@ -45,7 +45,7 @@ bool UserPasswordReader::eof() const
 
 bool UserPasswordReader::bad() const
 {
-  return input.bad();
+  return input.bad() || (input.fail() && !input.eof());
 }
 
 char UserPasswordReader::guessSeparator()
@@ -161,7 +161,7 @@ std::string UserPasswordReader::extractPassword(const std::string &_line)
 
 std::string UserPasswordReader::nextPassword()
 {
-  if (input.eof() || input.bad())
+  if (eof() || bad())
     return std::string();
   std::getline(input, currentLine);
   currentLine.erase(std::remove(currentLine.begin(), currentLine.end(), '\r'), currentLine.end());
-- 
2.43.0


From 42a07534cbf9612feffd37eb3f4ec1808d4ad34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:02 +0000
Subject: [PATCH 10/57] fix: converter operations never share or overwrite an
 output file

Between the check for an existing file and its creation another operation
could choose the same name, and after 10000 attempts an existing file was
overwritten.
---
 pwned-converter-cli/convertoperation.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/pwned-converter-cli/convertoperation.cpp b/pwned-converter-cli/convertoperation.cpp
index 2a1dc51..6b23d6b 100755
--- a/pwned-converter-cli/convertoperation.cpp
+++ b/pwned-converter-cli/convertoperation.cpp
@@ -17,6 +17,7 @@
 
 #include <iostream>
 #include <map>
+#include <mutex>
 
 #include <boost/filesystem.hpp>
 
@@ -34,6 +35,8 @@ enum ConvertError
   cannotWriteToFile
 };
 
+static std::mutex outputFileMtx;
+
 class ConvertOperationPrivate
 {
 public:
@@ -158,18 +161,23 @@ void ConvertOperation::execute() noexcept(false)
     };
 
     fs::path dstFilePath = generatedOutputFilename() + d->outputExt.string();
-    int n = splitFileNum;
-    while (fs::exists(dstFilePath) && n < 10000)
+    std::ofstream f;
     {
-      dstFilePath = generatedOutputFilename() + pwned::string_format("-%04x", n) + d->outputExt.string();
-      ++n;
+      // choosing a name and creating the file must not interleave with other operations
+      std::lock_guard<std::mutex> lock(outputFileMtx);
+      int n = splitFileNum;
+      while (fs::exists(dstFilePath))
+      {
+        dstFilePath = generatedOutputFilename() + pwned::string_format("-%04x", n) + d->outputExt.string();
+        ++n;
+      }
+      f.open(dstFilePath.string(), std::ios::binary);
     }
     {
       std::ostringstream output;
       output << uuid << " Writing to " << dstFilePath.string() << " ..." << std::endl;
       std::cout << output.str();
     }
-    std::ofstream f(dstFilePath.string(), std::ios::binary);
     if (!f.is_open())
     {
       throw pwned::OperationException("Cannot open file for writing: " + dstFilePath.string(), ConvertError::cannotWriteToFile);
-- 
2.43.0


From 8f0f363e25dda141b6eae8defaf7be34f1a3e4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:10 +0000
Subject: [PATCH 11/57] fix: converter honours its --input option

---
 pwned-converter-cli/pwned-converter-cli.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwned-converter-cli/pwned-converter-cli.cpp b/pwned-converter-cli/pwned-converter-cli.cpp
index e41064e..fcd84c1 100755
--- a/pwned-converter-cli/pwned-converter-cli.cpp
+++ b/pwned-converter-cli/pwned-converter-cli.cpp
@@ -88,7 +88,7 @@ int main(int argc, const char *argv[])
   bool autoHex;
   unsigned int numThreads;
   desc.add_options()("help", "produce help message")
-  ("input,I", po::value<std::vector<std::string>>(), "set user:pass input file(s)")
+  ("input,I", po::value<std::vector<std::string>>(&filenames), "set user:pass input file(s)")
   ("src,S", po::value<std::string>(&srcDirectory), "set user:pass input directory")
   ("dst,D", po::value<std::string>(&dstDirectory), "set user:pass output directory")
   ("ext", po::value<std::string>(&outputExt)->default_value(DefaultOutputExt), "set extension for output files")
-- 
2.43.0


From 7be223df278806436e8d4ac69911d3394269e1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:22 +0000
Subject: [PATCH 12/57] fix: operation queue neither loses nor outlives
 operations

- pause/resume: operations waited without a predicate and without a way to
  notice that the queue had been resumed (or cancelled) before they waited, so
  a wakeup could get lost; operations scheduled while paused ran regardless.
- cancel: waited for operations that had finished or had never been started,
  while holding the lock finishing operations need; the scheduling thread
  could take an operation from a queue emptied by cancel.
- waitForFinished: did not wait for operations still to be scheduled and
  cleared the cancelled state, so callers took a cancelled run for a finished one.
- plain flags and the list of running operations were accessed without
  synchronisation.
---
 pwned-converter-cli/convertoperation.cpp | 10 +--
 pwned-lib/operation.cpp                  | 23 ++++--
 pwned-lib/operationqueue.hpp             | 97 +++++++++++++++---------
 pwned-merger-cli/mergeoperation.cpp      |  2 +-
 4 files changed, 83 insertions(+), 49 deletions(-)

diff --git a/pwned-converter-cli/convertoperation.cpp b/pwned-converter-cli/convertoperation.cpp
index 6b23d6b..d9f172d 100755
--- a/pwned-converter-cli/convertoperation.cpp
+++ b/pwned-converter-cli/convertoperation.cpp
@@ -111,16 +111,16 @@ void ConvertOperation::execute() noexcept(false)
       memUsage += memUsagePerEntry;
       if (isPaused)
       {
-        queue->operationWait();
         isPaused = false;
+        queue->operationWait();
       }
     }
     if (isCancelled)
       return;
     if (isPaused)
     {
-      queue->operationWait();
       isPaused = false;
+      queue->operationWait();
     }
     if (passwordCountSet.empty())
     {
@@ -142,16 +142,16 @@ void ConvertOperation::execute() noexcept(false)
       return;
     if (isPaused)
     {
-      queue->operationWait();
       isPaused = false;
+      queue->operationWait();
     }
     std::sort(passwordList.begin(), passwordList.end(), pwned::PasswordHashAndCountLess());
     if (isCancelled)
       return;
     if (isPaused)
     {
-      queue->operationWait();
       isPaused = false;
+      queue->operationWait();
     }
 
     const fs::path srcFilename = d->srcFilePath.stem();
@@ -193,8 +193,8 @@ void ConvertOperation::execute() noexcept(false)
     }
     if (isPaused)
     {
-      queue->operationWait();
       isPaused = false;
+      queue->operationWait();
     }
   }
   if (reader.bad())
diff --git a/pwned-lib/operation.cpp b/pwned-lib/operation.cpp
index 8b2af05..b5d1105 100755
--- a/pwned-lib/operation.cpp
+++ b/pwned-lib/operation.cpp
@@ -60,10 +60,15 @@ void Operation::wait() noexcept(false)
 
 void Operation::start() noexcept
 {
-  if (isCancelled)
-    return;
-  isRunning = true;
-  isPaused = false;
+  {
+    std::lock_guard<std::mutex> lock(mtx);
+    if (isCancelled)
+    {
+      isFinished = true;
+      return;
+    }
+    isRunning = true;
+  }
   try
   {
     execute();
@@ -72,21 +77,25 @@ void Operation::start() noexcept
   {
     std::cerr << "Exception in Operation::execute(): " << e.what() << std::endl;
   }
+  std::lock_guard<std::mutex> lock(mtx);
   isRunning = false;
   isFinished = true;
-  finishedCondition.notify_one();
+  finishedCondition.notify_all();
 }
 
 void Operation::waitForFinished()
 {
   std::unique_lock<std::mutex> lock(mtx);
-  finishedCondition.wait(lock);
+  finishedCondition.wait(lock, [this] { return !isRunning; });
 }
 
 void Operation::cancel()
 {
   std::cout << "Operation::cancel()" << std::endl;
-  isCancelled = true;
+  {
+    std::lock_guard<std::mutex> lock(mtx);
+    isCancelled = true;
+  }
   waitForFinished();
 }
 
diff --git a/pwned-lib/operationqueue.hpp b/pwned-lib/operationqueue.hpp
index d85d409..03b0619 100755
--- a/pwned-lib/operationqueue.hpp
+++ b/pwned-lib/operationqueue.hpp
@@ -18,6 +18,7 @@
 #ifndef __operationqueue_hpp__
 #define __operationqueue_hpp__
 
+#include <atomic>
 #include <thread>
 #include <pthread.h>
 #include <mutex>
@@ -57,8 +58,9 @@ class OperationQueue
   std::mutex pauseMtx;
   Semaphore guard{std::thread::hardware_concurrency()};
   int threadPriority;
-  bool _isRunning{false};
-  bool _isCancelled{false};
+  std::atomic<bool> _isRunning{false};
+  std::atomic<bool> _isPaused{false};
+  std::atomic<bool> _isCancelled{false};
   std::condition_variable pauseCondition;
 
 public:
@@ -76,8 +78,7 @@ public:
   void reset()
   {
     cancel();
-    opThreads.clear();
-    _isRunning = false;
+    waitForFinished();
     _isCancelled = false;
   }
 
@@ -91,56 +92,52 @@ public:
     return _isCancelled;
   }
 
+  /**
+   * Blocks the calling operation as long as the queue is paused.
+   */
   void operationWait()
   {
-    //std::cout << "operationWait()" << std::endl;
     std::unique_lock<std::mutex> lock(pauseMtx);
-    pauseCondition.wait(lock);
-    //std::cout << "operationWait() resuming ... " << std::endl;
+    pauseCondition.wait(lock, [this] { return !_isPaused || _isCancelled; });
   }
 
   void pause()
   {
-    if (_isCancelled)
+    std::lock_guard<std::mutex> lock(mtx);
+    if (_isCancelled || !_isRunning)
       return;
-    if (_isRunning)
+    setPaused(true);
+    for (Operation *op : runningOps)
     {
-      for (Operation *op : runningOps)
-      {
-        op->pause();
-      }
-      std::lock_guard<std::mutex> lock(mtx);
-      _isRunning = false;
+      op->pause();
     }
   }
 
   void resume()
   {
-    if (_isCancelled)
+    std::lock_guard<std::mutex> lock(mtx);
+    if (_isCancelled || !_isPaused)
       return;
-    if (!_isRunning)
-    {
-      // std::cout << "OperationQueue::resume() notifying all ..." << std::endl;
-      pauseCondition.notify_all();
-      _isRunning = true;
-    }
+    setPaused(false);
   }
 
   void cancel()
   {
     std::lock_guard<std::mutex> lock(mtx);
-    _isCancelled = true;
-    for (Operation *op : runningOps)
     {
-      op->cancel();
+      std::lock_guard<std::mutex> pauseLock(pauseMtx);
+      _isCancelled = true;
     }
+    pauseCondition.notify_all();
     while (!unscheduledOps.empty())
     {
-      Operation *op = unscheduledOps.top();
-      op->cancel();
-      delete op;
+      delete unscheduledOps.top();
       unscheduledOps.pop();
     }
+    for (Operation *op : runningOps)
+    {
+      op->cancel();
+    }
   }
 
   void add(T *const op)
@@ -163,27 +160,31 @@ public:
     int policy;
     int rc = pthread_getschedparam(pthread_self(), &policy, &param);
     int parentPriority = (rc == 0) ? param.sched_priority : 0;
+    waitForScheduled();
+    _isRunning = true;
     exeThread = runAsync([this] {
-      while (!unscheduledOps.empty())
+      while (hasUnscheduled())
       {
-        if (_isCancelled)
-          break;
         guard.wait();
-        mtx.lock();
+        std::lock_guard<std::mutex> lock(mtx);
+        if (_isCancelled || unscheduledOps.empty())
+        {
+          guard.notify();
+          break;
+        }
         T *const op = unscheduledOps.top();
         unscheduledOps.pop();
         runningOps.push_back(op);
         opThreads.push_back(runAsync([op, this]() {
+          operationWait();
           op->start();
           finished(op);
           guard.notify();
         },
                                      threadPriority));
-        mtx.unlock();
       }
     },
                          parentPriority);
-    _isRunning = true;
     if (_waitForScheduled)
     {
       waitForScheduled();
@@ -192,16 +193,40 @@ public:
 
   void waitForScheduled()
   {
-    exeThread.join();
+    if (exeThread.joinable())
+    {
+      exeThread.join();
+    }
   }
 
   void waitForFinished()
   {
+    waitForScheduled();
     for (auto &thread : opThreads)
     {
       thread.join();
     }
-    reset();
+    opThreads.clear();
+    std::lock_guard<std::mutex> lock(mtx);
+    setPaused(false);
+    _isRunning = false;
+  }
+
+private:
+  bool hasUnscheduled() const
+  {
+    std::lock_guard<std::mutex> lock(mtx);
+    return !_isCancelled && !unscheduledOps.empty();
+  }
+
+  void setPaused(bool paused)
+  {
+    {
+      std::lock_guard<std::mutex> lock(pauseMtx);
+      _isPaused = paused;
+      _isRunning = !paused;
+    }
+    pauseCondition.notify_all();
   }
 };
 } // namespace pwned
diff --git a/pwned-merger-cli/mergeoperation.cpp b/pwned-merger-cli/mergeoperation.cpp
index eb1887c..45df484 100755
--- a/pwned-merger-cli/mergeoperation.cpp
+++ b/pwned-merger-cli/mergeoperation.cpp
@@ -157,8 +157,8 @@ void MergeOperation::execute() noexcept(false)
     }
     if (isPaused)
     {
-      queue->operationWait();
       isPaused = false;
+      queue->operationWait();
     }
   }
   d->dstFile.close();
-- 
2.43.0


From 5f8c29196f963b0e6b5e2018e089fef378b4210c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:30 +0000
Subject: [PATCH 13/57] fix: failed conversions and merges are reported by the
 exit status

An exception in an operation was only printed: the tools went on (a merge even
without the failed intermediate result) and exited successfully.
---
 pwned-converter-cli/pwned-converter-cli.cpp |  2 +-
 pwned-lib/operation.cpp                     |  3 ++-
 pwned-lib/operation.hpp                     | 10 ++++++++++
 pwned-lib/operationqueue.hpp                | 14 ++++++++++++++
 pwned-merger-cli/pwned-merger-cli.cpp       |  8 ++++----
 5 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/pwned-converter-cli/pwned-converter-cli.cpp b/pwned-converter-cli/pwned-converter-cli.cpp
index fcd84c1..3a1d484 100755
--- a/pwned-converter-cli/pwned-converter-cli.cpp
+++ b/pwned-converter-cli/pwned-converter-cli.cpp
@@ -219,5 +219,5 @@ int main(int argc, const char *argv[])
     std::cout << "Total time: " << pwned::readableTime(time_span.count()) << std::endl
               << std::endl;
   }
-  return EXIT_SUCCESS;
+  return opQueue.hasFailed() ? EXIT_FAILURE : EXIT_SUCCESS;
 }
diff --git a/pwned-lib/operation.cpp b/pwned-lib/operation.cpp
index b5d1105..f4f4dfa 100755
--- a/pwned-lib/operation.cpp
+++ b/pwned-lib/operation.cpp
@@ -73,8 +73,9 @@ void Operation::start() noexcept
   {
     execute();
   }
-  catch (OperationException &e)
+  catch (const std::exception &e)
   {
+    isFailed = true;
     std::cerr << "Exception in Operation::execute(): " << e.what() << std::endl;
   }
   std::lock_guard<std::mutex> lock(mtx);
diff --git a/pwned-lib/operation.hpp b/pwned-lib/operation.hpp
index e318343..e4b9e5b 100755
--- a/pwned-lib/operation.hpp
+++ b/pwned-lib/operation.hpp
@@ -40,6 +40,7 @@ protected:
   std::atomic<bool> isFinished{false};
   std::atomic<bool> isCancelled{false};
   std::atomic<bool> isPaused{false};
+  std::atomic<bool> isFailed{false};
   std::mutex mtx;
   std::condition_variable finishedCondition;
   OperationQueue<Operation> *queue{nullptr};
@@ -53,6 +54,15 @@ public:
   Operation() = default;
   virtual ~Operation();
 
+  /**
+         * Description: Returns `true` if the operation has been ended by an exception.
+         * Parameters: none
+         */
+  bool hasFailed() const noexcept
+  {
+    return isFailed;
+  }
+
   void setQueue(OperationQueue<Operation> *queue) noexcept;
 
   /**
diff --git a/pwned-lib/operationqueue.hpp b/pwned-lib/operationqueue.hpp
index 03b0619..392180d 100755
--- a/pwned-lib/operationqueue.hpp
+++ b/pwned-lib/operationqueue.hpp
@@ -61,6 +61,7 @@ class OperationQueue
   std::atomic<bool> _isRunning{false};
   std::atomic<bool> _isPaused{false};
   std::atomic<bool> _isCancelled{false};
+  std::atomic<bool> _hasFailed{false};
   std::condition_variable pauseCondition;
 
 public:
@@ -80,6 +81,7 @@ public:
     cancel();
     waitForFinished();
     _isCancelled = false;
+    _hasFailed = false;
   }
 
   inline bool isRunning() const
@@ -92,6 +94,14 @@ public:
     return _isCancelled;
   }
 
+  /**
+   * Tells if at least one operation has been ended by an exception.
+   */
+  inline bool hasFailed() const
+  {
+    return _hasFailed;
+  }
+
   /**
    * Blocks the calling operation as long as the queue is paused.
    */
@@ -151,6 +161,10 @@ public:
   {
     std::lock_guard<std::mutex> lock(mtx);
     runningOps.remove(op);
+    if (op->hasFailed())
+    {
+      _hasFailed = true;
+    }
     delete op;
   }
 
diff --git a/pwned-merger-cli/pwned-merger-cli.cpp b/pwned-merger-cli/pwned-merger-cli.cpp
index 9d221cd..180332b 100755
--- a/pwned-merger-cli/pwned-merger-cli.cpp
+++ b/pwned-merger-cli/pwned-merger-cli.cpp
@@ -206,7 +206,7 @@ int main(int argc, const char *argv[])
   },
                                           0);
   keyThread.detach();
-  while (inputFiles.size() > 0 && !opQueue.isCancelled())
+  while (inputFiles.size() > 0 && !opQueue.isCancelled() && !opQueue.hasFailed())
   {
     const auto b = std::min(inputFiles.end(), inputFiles.begin() + maxFilesAtOnce);
     const std::vector<merger::InputFile> inputFileSlice(inputFiles.begin(), b);
@@ -229,7 +229,7 @@ int main(int argc, const char *argv[])
     opQueue.add(op);
     opQueue.execute(true);
     opQueue.waitForFinished();
-    if (!opQueue.isCancelled())
+    if (!opQueue.isCancelled() && !opQueue.hasFailed())
     {
       inputFiles = std::vector<merger::InputFile>(b, inputFiles.end());
       if (!isLastChunk)
@@ -241,7 +241,7 @@ int main(int argc, const char *argv[])
   }
   auto t1 = std::chrono::high_resolution_clock::now();
   auto time_span = std::chrono::duration_cast<std::chrono::duration<float>>(t1 - t0);
-  if (!opQueue.isCancelled())
+  if (!opQueue.isCancelled() && !opQueue.hasFailed())
   {
     std::cout << "Total time: " << pwned::readableTime(time_span.count()) << std::endl;
   }
@@ -249,5 +249,5 @@ int main(int argc, const char *argv[])
   {
     fs::remove(intermediateFile);
   }
-  return EXIT_SUCCESS;
+  return opQueue.hasFailed() ? EXIT_FAILURE : EXIT_SUCCESS;
 }
-- 
2.43.0


From 92037390aa0f52d899a77d34967553f97b0395fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:40 +0000
Subject: [PATCH 14/57] fix: merging adds up every record of every input
 exactly once

The first record and the last record of an exhausted input were counted twice,
an empty or unreadable input contributed a made-up all-zero record, and read
and write errors ended in a truncated result reported as success. Inputs with
no complete record at all made the progress bar divide by zero.
---
 pwned-merger-cli/mergeoperation.cpp | 76 +++++++++++++++++------------
 pwned-merger-cli/progressbar.hpp    |  5 +-
 2 files changed, 47 insertions(+), 34 deletions(-)

diff --git a/pwned-merger-cli/mergeoperation.cpp b/pwned-merger-cli/mergeoperation.cpp
index 45df484..111531c 100755
--- a/pwned-merger-cli/mergeoperation.cpp
+++ b/pwned-merger-cli/mergeoperation.cpp
@@ -48,6 +48,7 @@ struct SmallestHashFirst
 enum MergerError
 {
   noData,
+  cannotReadFromFile,
   cannotWriteToFile,
   cancelled
 };
@@ -58,6 +59,7 @@ public:
   std::priority_queue<MergerInput *, std::vector<MergerInput *>, SmallestHashFirst> pq;
   const fs::path dstFilePath;
   std::ofstream dstFile;
+  fs::path unreadableFile;
   uint64_t entriesProcessed;
   bool removeInputFilesAfterMerge;
   ProgressCallback *progressed;
@@ -77,8 +79,19 @@ public:
     {
       MergerInput *mi = new MergerInput(file);
       mi->open();
-      pq.push(mi);
       sum += mi->inputSize.value();
+      if (mi->isValid)
+      {
+        pq.push(mi);
+      }
+      else
+      {
+        if (!mi->f.is_open() || mi->f.bad())
+        {
+          unreadableFile = mi->path;
+        }
+        delete mi;
+      }
     }
     totalEntries = sum / pwned::PasswordHashAndCount::size;
   }
@@ -110,9 +123,9 @@ void MergeOperation::execute() noexcept(false)
   if (isCancelled)
     return;
   auto t0 = std::chrono::high_resolution_clock::now();
-  if (d->pq.empty())
+  if (!d->unreadableFile.empty())
   {
-    return;
+    throw pwned::OperationException("Cannot read from file: " + d->unreadableFile.string(), MergerError::cannotReadFromFile);
   }
   {
     std::ostringstream output;
@@ -128,32 +141,25 @@ void MergeOperation::execute() noexcept(false)
     throw pwned::OperationException(std::string("Cannot write to file: ") + std::strerror(errno), MergerError::cannotWriteToFile);
     return;
   }
-  pwned::PasswordHashAndCount current = d->pq.top()->phc;
-  uint64_t updateAfterEntries = std::max<uint64_t>(d->totalEntries / 1000, 1);
-  while (!isCancelled)
+  const uint64_t updateAfterEntries = std::max<uint64_t>(d->totalEntries / 1000, 1);
+  const bool hasData = !d->pq.empty();
+  pwned::PasswordHashAndCount current = next();
+  while (!isCancelled && !d->pq.empty())
   {
     const pwned::PasswordHashAndCount &p = next();
-    if (!d->pq.empty())
+    if (d->progressed != nullptr && d->entriesProcessed % updateAfterEntries == 0)
     {
-      if (d->progressed != nullptr && d->entriesProcessed % updateAfterEntries == 0)
-      {
-        (*d->progressed)(d->entriesProcessed);
-      }
-      ++d->entriesProcessed;
-      if (current.hash == p.hash)
-      {
-        current.count += p.count;
-      }
-      else
-      {
-        current.dump(d->dstFile);
-        current = p;
-      }
+      (*d->progressed)(d->entriesProcessed);
+    }
+    ++d->entriesProcessed;
+    if (current.hash == p.hash)
+    {
+      current.count += p.count;
     }
     else
     {
       current.dump(d->dstFile);
-      break;
+      current = p;
     }
     if (isPaused)
     {
@@ -161,7 +167,15 @@ void MergeOperation::execute() noexcept(false)
       queue->operationWait();
     }
   }
+  if (hasData)
+  {
+    current.dump(d->dstFile);
+  }
   d->dstFile.close();
+  if (d->dstFile.fail())
+  {
+    throw pwned::OperationException("Cannot write to file: " + d->dstFilePath.string(), MergerError::cannotWriteToFile);
+  }
   if (d->progressed != nullptr)
   {
     (*d->progressed)(d->entriesProcessed);
@@ -177,27 +191,25 @@ pwned::PasswordHashAndCount MergeOperation::next()
   if (!d->pq.empty())
   {
     MergerInput *mergerInput = d->pq.top();
+    d->pq.pop();
     result = mergerInput->phc;
+    mergerInput->read();
     if (mergerInput->isValid)
     {
-      mergerInput->read();
-      if (mergerInput->isValid)
-      {
-        d->pq.pop();
-        d->pq.push(mergerInput);
-      }
+      d->pq.push(mergerInput);
     }
     else
     {
-      d->pq.pop();
-      if (d->removeInputFilesAfterMerge)
+      const bool readError = mergerInput->f.bad();
+      const std::string filename = mergerInput->path.string();
+      if (d->removeInputFilesAfterMerge && !readError)
       {
         mergerInput->deleteFile();
       }
       delete mergerInput;
-      if (d->pq.empty())
+      if (readError)
       {
-        return pwned::PasswordHashAndCount();
+        throw pwned::OperationException("Cannot read from file: " + filename, MergerError::cannotReadFromFile);
       }
     }
   }
diff --git a/pwned-merger-cli/progressbar.hpp b/pwned-merger-cli/progressbar.hpp
index f1804af..e6ec801 100755
--- a/pwned-merger-cli/progressbar.hpp
+++ b/pwned-merger-cli/progressbar.hpp
@@ -20,6 +20,7 @@
 
 #include <iostream>
 #include <iomanip>
+#include <algorithm>
 #include <cstdint>
 
 #include <pwned-lib/util.hpp>
@@ -45,7 +46,7 @@ public:
   char end;
 
   ProgressBar(int width, uint64_t hi = 0)
-      : hi(hi)
+      : hi(std::max<uint64_t>(hi, 1))
       , width(width)
       , begin(Default::Begin)
       , fill(Default::Fill)
@@ -56,7 +57,7 @@ public:
 
   void setHi(uint64_t hi)
   {
-    this->hi = hi;
+    this->hi = std::max<uint64_t>(hi, 1);
   }
 
   void update(uint64_t value) override
-- 
2.43.0


From 68930f8b04565530a55685f0f1264ed05883aa85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:44 +0000
Subject: [PATCH 15/57] fix: merge removes its inputs only after the result has
 been written

Inputs were removed as soon as they had been read, so a failed write or a
cancelled merge lost their contents.
---
 pwned-merger-cli/mergeoperation.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pwned-merger-cli/mergeoperation.cpp b/pwned-merger-cli/mergeoperation.cpp
index 111531c..7d34435 100755
--- a/pwned-merger-cli/mergeoperation.cpp
+++ b/pwned-merger-cli/mergeoperation.cpp
@@ -59,6 +59,7 @@ public:
   std::priority_queue<MergerInput *, std::vector<MergerInput *>, SmallestHashFirst> pq;
   const fs::path dstFilePath;
   std::ofstream dstFile;
+  std::vector<fs::path> srcFilePaths;
   fs::path unreadableFile;
   uint64_t entriesProcessed;
   bool removeInputFilesAfterMerge;
@@ -79,6 +80,7 @@ public:
     {
       MergerInput *mi = new MergerInput(file);
       mi->open();
+      srcFilePaths.push_back(mi->path);
       sum += mi->inputSize.value();
       if (mi->isValid)
       {
@@ -176,6 +178,13 @@ void MergeOperation::execute() noexcept(false)
   {
     throw pwned::OperationException("Cannot write to file: " + d->dstFilePath.string(), MergerError::cannotWriteToFile);
   }
+  if (d->removeInputFilesAfterMerge && !isCancelled)
+  {
+    for (const auto &path : d->srcFilePaths)
+    {
+      fs::remove(path);
+    }
+  }
   if (d->progressed != nullptr)
   {
     (*d->progressed)(d->entriesProcessed);
@@ -202,10 +211,6 @@ pwned::PasswordHashAndCount MergeOperation::next()
     {
       const bool readError = mergerInput->f.bad();
       const std::string filename = mergerInput->path.string();
-      if (d->removeInputFilesAfterMerge && !readError)
-      {
-        mergerInput->deleteFile();
-      }
       delete mergerInput;
       if (readError)
       {
-- 
2.43.0


From 74dbf066c1cc4d46a31ea2c7e33230a8a53317d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:44 +0000
Subject: [PATCH 16/57] fix: merger terminates for any --max-files-at-once

Merging one file at a time (or none) never reduced the number of files. The
answer to the overwrite question was undefined if there was none.
---
 pwned-merger-cli/pwned-merger-cli.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pwned-merger-cli/pwned-merger-cli.cpp b/pwned-merger-cli/pwned-merger-cli.cpp
index 180332b..d24672b 100755
--- a/pwned-merger-cli/pwned-merger-cli.cpp
+++ b/pwned-merger-cli/pwned-merger-cli.cpp
@@ -144,11 +144,16 @@ int main(int argc, const char *argv[])
     usage();
     return EXIT_FAILURE;
   }
+  if (maxFilesAtOnce < 2)
+  {
+    std::cerr << "ERROR: at least 2 files must be processed at once." << std::endl;
+    return EXIT_FAILURE;
+  }
   if (fs::exists(dstFile))
   {
     std::cout << "Destination file '" << dstFile << "' already exists." << std::endl
               << "Do you want to overwrite it? (y/n)" << std::endl;
-    char ch;
+    char ch = '\0';
     std::cin >> ch;
     if (ch != 'y')
     {
-- 
2.43.0


From d07f27a30ccfda0d8387a550c46f3d94d4a5b3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 17/57] fix: merger does not overwrite one of its own inputs

If the destination was among the input files it was truncated before it had
been read.
---
 pwned-merger-cli/pwned-merger-cli.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pwned-merger-cli/pwned-merger-cli.cpp b/pwned-merger-cli/pwned-merger-cli.cpp
index d24672b..5d59520 100755
--- a/pwned-merger-cli/pwned-merger-cli.cpp
+++ b/pwned-merger-cli/pwned-merger-cli.cpp
@@ -151,6 +151,14 @@ int main(int argc, const char *argv[])
   }
   if (fs::exists(dstFile))
   {
+    for (const auto &filename : filenames)
+    {
+      if (fs::exists(filename) && fs::equivalent(filename, dstFile))
+      {
+        std::cerr << "ERROR: destination file '" << dstFile << "' is one of the input files." << std::endl;
+        return EXIT_FAILURE;
+      }
+    }
     std::cout << "Destination file '" << dstFile << "' already exists." << std::endl
               << "Do you want to overwrite it? (y/n)" << std::endl;
     char ch = '\0';
-- 
2.43.0


From ac90a5a9c3f1455b8bf0a37628e51496c96efa22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:05 +0000
Subject: [PATCH 18/57] fix: server builds with current Boost releases

boost::string_view::to_string() is not available where Beast uses
boost::core::string_view.
---
 pwned-server/httpworker.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pwned-server/httpworker.cpp b/pwned-server/httpworker.cpp
index c11c864..9569fcf 100644
--- a/pwned-server/httpworker.cpp
+++ b/pwned-server/httpworker.cpp
@@ -142,13 +142,13 @@ void makeResponse(boost::optional<http::response<http::string_body>> &response,
 void HttpWorker::sendResponse(http::request<http::string_body> const &req)
 {
   URI uri;
-  uri.parseTarget(req.target().to_string());
+  uri.parseTarget(std::string(req.target()));
   if (mLogCallback != nullptr)
   {
     std::ostringstream ss;
     ss << std::chrono::system_clock::now() << ' '
        << mSocket.remote_endpoint().address().to_string() << ' '
-       << req.target().to_string();
+       << std::string(req.target());
     (*mLogCallback)(ss.str());
   }
   if (uri.path() == (mBasePath + "/lookup") && uri.query().find("hash") != uri.query().end())
-- 
2.43.0


From 8fa0f269660c8de0eddd6701f83dbb066095dd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:05 +0000
Subject: [PATCH 19/57] fix: server survives clients that reset the connection
 early

Logging asked for the address of the client and threw if the connection was
already gone, which ended the whole server.
---
 pwned-server/httpworker.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pwned-server/httpworker.cpp b/pwned-server/httpworker.cpp
index 9569fcf..6ce15a1 100644
--- a/pwned-server/httpworker.cpp
+++ b/pwned-server/httpworker.cpp
@@ -145,9 +145,10 @@ void HttpWorker::sendResponse(http::request<http::string_body> const &req)
   uri.parseTarget(std::string(req.target()));
   if (mLogCallback != nullptr)
   {
+    beast::error_code ec; // the client may already be gone
     std::ostringstream ss;
     ss << std::chrono::system_clock::now() << ' '
-       << mSocket.remote_endpoint().address().to_string() << ' '
+       << mSocket.remote_endpoint(ec).address().to_string() << ' '
        << std::string(req.target());
     (*mLogCallback)(ss.str());
   }
-- 
2.43.0


From b081c2f909ed178f9684b92515f523720eb0bc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:05 +0000
Subject: [PATCH 20/57] fix: server rejects malformed hashes

Whatever part of a malformed hash happened to decode was looked up, and the
result reported as if the request had been valid.
---
 pwned-server/httpworker.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pwned-server/httpworker.cpp b/pwned-server/httpworker.cpp
index 6ce15a1..8521a5c 100644
--- a/pwned-server/httpworker.cpp
+++ b/pwned-server/httpworker.cpp
@@ -155,6 +155,11 @@ void HttpWorker::sendResponse(http::request<http::string_body> const &req)
   if (uri.path() == (mBasePath + "/lookup") && uri.query().find("hash") != uri.query().end())
   {
     const pwned::Hash &hash = pwned::Hash::fromHex(uri.query().at("hash"));
+    if (!hash.isValid)
+    {
+      sendBadResponse(http::status::bad_request, "Invalid hash\r\n");
+      return;
+    }
     const auto &t0 = std::chrono::high_resolution_clock::now();
     const pwned::PasswordHashAndCount &phc = mInspector.binsearch(hash);
     const auto &t1 = std::chrono::high_resolution_clock::now();
-- 
2.43.0


From 06d4b7b84e0e516e56dfc255db5e35b954be142b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:39 +0000
Subject: [PATCH 21/57] fix: validity of a URI tells if it could be parsed

URIs without credentials or without a query were reported as invalid, those
that do not match at all as valid; ports beyond 65535 were truncated or threw,
and parsing another URI kept components of the one before.
---
 pwned-server/pwned-server.cpp |  5 +++++
 pwned-server/uri.cpp          | 33 ++++++++++++++++++++++++++++-----
 2 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/pwned-server/pwned-server.cpp b/pwned-server/pwned-server.cpp
index 60e6413..20a060c 100644
--- a/pwned-server/pwned-server.cpp
+++ b/pwned-server/pwned-server.cpp
@@ -24,6 +24,7 @@
 #include <sstream>
 #include <list>
 #include <thread>
+#include <stdexcept>
 #include <mutex>
 
 #include <boost/program_options.hpp>
@@ -145,6 +146,10 @@ int main(int argc, const char *argv[])
   try
   {
     URI uri(address);
+    if (!uri.isValid())
+    {
+      throw std::invalid_argument("invalid server address '" + address + "'");
+    }
     boost::asio::io_context ioc{numWorkers};
     tcp::acceptor acceptor{ioc, {boost::asio::ip::make_address(uri.host()), uri.port()}};
     std::list<webservice::HttpWorker> workers;
diff --git a/pwned-server/uri.cpp b/pwned-server/uri.cpp
index 6157b35..18d6e1c 100644
--- a/pwned-server/uri.cpp
+++ b/pwned-server/uri.cpp
@@ -17,6 +17,8 @@
 
 #include <iostream>
 #include <vector>
+#include <algorithm>
+#include <limits>
 #include <regex>
 #include <boost/algorithm/string.hpp>
 
@@ -36,14 +38,22 @@ URI::URI(const std::string &uri)
 void URI::parse(const std::string &uri)
 {
   std::smatch m;
-  mIsValid = true;
-  if (std::regex_search(uri, m, RE))
+  mScheme.clear();
+  mUsername.clear();
+  mPassword.clear();
+  mHost.clear();
+  mPort = 0;
+  mPath.clear();
+  mQuery.clear();
+  mFragment.clear();
+  mIsValid = std::regex_search(uri, m, RE);
+  if (mIsValid)
   {
     if (m.size() > 1)
     {
       mScheme = m[1].str();
     }
-    if (m.size() > 2)
+    if (m.size() > 2 && m[2].matched)
     {
       std::vector<std::string> kv;
       const std::string &credentials = m[2].str();
@@ -64,7 +74,20 @@ void URI::parse(const std::string &uri)
     }
     if (m.size() > 4 && m[4].str().size() > 0)
     {
-      mPort = uint16_t(std::stoi(m[4].str()));
+      constexpr unsigned long MaxPort = std::numeric_limits<port_type>::max();
+      unsigned long port = 0;
+      for (const char digit : m[4].str())
+      {
+        port = std::min(port * 10 + (unsigned long)(digit - '0'), MaxPort + 1);
+      }
+      if (port <= MaxPort)
+      {
+        mPort = port_type(port);
+      }
+      else
+      {
+        mIsValid = false;
+      }
     }
     else if (SchemeToPort.find(mScheme) != SchemeToPort.end())
     {
@@ -74,7 +97,7 @@ void URI::parse(const std::string &uri)
     {
       mPath = m[5].str();
     }
-    if (m.size() > 7)
+    if (m.size() > 7 && m[7].length() > 0)
     {
       std::vector<std::string> kv;
       const std::string &p = m[7].str();
-- 
2.43.0


From 11873c1ec862b08db73442b2bd81f8fc40d83bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:38 +0000
Subject: [PATCH 22/57] fix: probability of an unseen successor is zero

Asking for the probability of a password with a pair of symbols that does not
occur in the training set threw std::out_of_range.
---
 pwned-lib/markovnode.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pwned-lib/markovnode.hpp b/pwned-lib/markovnode.hpp
index f8b5d80..b883339 100644
--- a/pwned-lib/markovnode.hpp
+++ b/pwned-lib/markovnode.hpp
@@ -73,7 +73,8 @@ public:
   }
   inline prob_value_type probability(symbol_type c) const
   {
-    return mProbs.at(c);
+    const auto prob = mProbs.find(c);
+    return prob != mProbs.end() ? prob->second : prob_value_type(0);
   }
   inline count_type count(symbol_type c) const
   {
-- 
2.43.0


From 7c253c32da089ea5afde8ea3c150f7d279f482fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:38 +0000
Subject: [PATCH 23/57] fix: random symbols follow the trained probabilities

The comparison with the accumulated probability was inverted: mostly the least
probable symbol was returned, and none at all for small random numbers.
---
 pwned-lib/markovchain.hpp | 4 ++--
 pwned-lib/markovnode.hpp  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pwned-lib/markovchain.hpp b/pwned-lib/markovchain.hpp
index 4299bf5..415c19c 100644
--- a/pwned-lib/markovchain.hpp
+++ b/pwned-lib/markovchain.hpp
@@ -317,10 +317,10 @@ public:
     for (const auto &symbol : mFirstSymbolSortedProbs)
     {
       pAccumulated += symbol.second;
-      if (p > pAccumulated)
+      if (p < pAccumulated)
         return symbol.first;
     }
-    return 0;
+    return mFirstSymbolSortedProbs.empty() ? symbol_type(0) : mFirstSymbolSortedProbs.back().first;
   }
 
 private:
diff --git a/pwned-lib/markovnode.hpp b/pwned-lib/markovnode.hpp
index b883339..1746255 100644
--- a/pwned-lib/markovnode.hpp
+++ b/pwned-lib/markovnode.hpp
@@ -107,10 +107,10 @@ public:
     for (const auto &successor : mSortedProbs)
     {
       pAccumulated += successor.second;
-      if (p > pAccumulated)
+      if (p < pAccumulated)
         return successor.first;
     }
-    return 0;
+    return mSortedProbs.empty() ? symbol_type(0) : mSortedProbs.back().first;
   }
   void postprocess()
   {
-- 
2.43.0


From 007dab1f75d4920235175333b994d8988f471a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:38 +0000
Subject: [PATCH 24/57] fix: save Markov chains without any pair of symbols

A chain trained with single-character passwords only was not written at all.
---
 pwned-lib/markovchain.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pwned-lib/markovchain.hpp b/pwned-lib/markovchain.hpp
index 415c19c..99719ea 100644
--- a/pwned-lib/markovchain.hpp
+++ b/pwned-lib/markovchain.hpp
@@ -166,8 +166,6 @@ public:
   }
   void saveBinary(std::ostream &os)
   {
-    if (mNodes.empty())
-      return;
     os.write(FileHeader, FileHeaderSize);
     write(os, FileVersion);
     write(os, (uint32_t)mFirstSymbolSortedProbs.size());
-- 
2.43.0


From 957995c80702c758ee66250a67efa6e366905488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:12 +0000
Subject: [PATCH 25/57] fix: loading a damaged Markov file always ends in an
 error code

An unreadable stream was reported as OK or kept the loader busy, an implausible
symbol count threw, probabilities that are no numbers broke sorting, and there
was no message for the last error code.
---
 pwned-lib/markovchain.hpp | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/pwned-lib/markovchain.hpp b/pwned-lib/markovchain.hpp
index 99719ea..1adfec2 100644
--- a/pwned-lib/markovchain.hpp
+++ b/pwned-lib/markovchain.hpp
@@ -214,40 +214,42 @@ public:
       mFirstSymbolProbs.clear();
       mFirstSymbolSortedProbs.clear();
     }
-    if (is.good() && !is.eof())
+    if (!is.good())
+      return BAD_HEADER_PREMATURE_EOF;
     {
       char hdr[FileHeaderSize] = {0, 0, 0, 0};
       is.read(reinterpret_cast<char*>(hdr), FileHeaderSize);
-      if (is.eof())
+      if (!is)
         return BAD_HEADER_PREMATURE_EOF;
       if (memcmp(hdr, FileHeader, FileHeaderSize) != 0)
         return BAD_HEADER;
       uint8_t version = read<uint8_t>(is);
-      if (is.eof())
+      if (!is)
         return BAD_VERSION_PREMATURE_EOF;
       if (version != FileVersion)
         return BAD_VERSION;
       const uint32_t firstSymbolCount = read<uint32_t>(is);
-      if (is.eof())
+      if (!is)
         return BAD_SYMBOL_COUNT_PREMATURE_EOF;
-      mFirstSymbolSortedProbs.reserve(firstSymbolCount);
       for (uint32_t i = 0; i < firstSymbolCount; ++i)
       {
         const symbol_type c = read<symbol_type>(is);
-        if (is.eof())
+        if (!is)
           return BAD_SYMBOL_PREMATURE_EOF;
         const prob_value_type p = read<prob_value_type>(is);
-        if (is.eof())
+        if (!is)
           return BAD_PROBABILITY_PREMATURE_EOF;
+        if (!(p >= 0 && p <= 1))
+          return BAD_PROBABILITY;
         mFirstSymbolSortedProbs.emplace_back(c, p);
       }
       const uint32_t symbolCount = read<uint32_t>(is);
-      if (is.eof())
+      if (!is)
         return BAD_SYMBOL_COUNT_PREMATURE_EOF;
       for (uint32_t i = 0; i < symbolCount; ++i)
       {
         symbol_type c = read<symbol_type>(is);
-        if (is.eof())
+        if (!is)
           return BAD_SYMBOL_PREMATURE_EOF;
         if (mNodes.find(c) == mNodes.end())
         {
@@ -258,17 +260,19 @@ public:
           return BAD_SYMBOL;
         }
         const uint32_t nodeCount = read<uint32_t>(is);
-        if (is.eof())
+        if (!is)
           return BAD_NODE_COUNT_PREMATURE_EOF;
         node_type &currentNode = mNodes[c];
         for (uint32_t j = 0; j < nodeCount; ++j)
         {
           const symbol_type symbol = read<symbol_type>(is);
-          if (is.eof())
+          if (!is)
             return BAD_SYMBOL_PREMATURE_EOF;
           const prob_value_type probability = read<prob_value_type>(is);
-          if (is.eof())
+          if (!is)
             return BAD_PROBABILITY_PREMATURE_EOF;
+          if (!(probability >= 0 && probability <= 1))
+            return BAD_PROBABILITY;
           currentNode.addSuccessor(symbol, probability);
         }
       }
@@ -341,7 +345,7 @@ private:
     "BAD_SYMBOL_PREMATURE_EOF",
     "BAD_PROBABILITY",
     "BAD_PROBABILITY_PREMATURE_EOF",
-    "BAD_NODE_COUNT"
+    "BAD_NODE_COUNT",
     "BAD_NODE_COUNT_PREMATURE_EOF"
   };
 };
-- 
2.43.0


From 76b4abc094eee3803d8024292082decdd3369c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:28 +0000
Subject: [PATCH 26/57] fix: Markov tools report files they cannot read or
 write

The generator looped forever on an unreadable password file and reported
success if nothing could be written; the lookup tool went on with an empty
chain if the file could not be loaded.
---
 .../pwned-markov-generator.cpp                     | 14 +++++++++++++-
 extras/pwned-markov-lookup/pwned-markov-lookup.cpp |  7 ++++++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/extras/pwned-markov-generator/pwned-markov-generator.cpp b/extras/pwned-markov-generator/pwned-markov-generator.cpp
index 51594f1..e3a2ac2 100644
--- a/extras/pwned-markov-generator/pwned-markov-generator.cpp
+++ b/extras/pwned-markov-generator/pwned-markov-generator.cpp
@@ -135,11 +135,13 @@ int main(int argc, char* argv[])
   if (!inputFile.is_open())
   {
     std::cerr << "Cannot read from '" << inputFilename << "'." << std::endl;
+    return EXIT_FAILURE;
   }
   std::ofstream outputFile(outputFilename, std::ios::trunc | std::ios::binary);
   if (!outputFile.is_open())
   {
     std::cerr << "Cannot write to '" << outputFilename << "'." << std::endl;
+    return EXIT_FAILURE;
   }
   std::vector<pwned::UserPasswordReaderOptions> readerOptions{pwned::UserPasswordReaderOptions::autoEvaluateHexEncodedPasswords};
   pwned::UserPasswordReader reader(inputFile, readerOptions);
@@ -152,7 +154,7 @@ int main(int argc, char* argv[])
   {
     std::cout << "Reading from '" << inputFilename << "' (" << fileSize << " bytes) ..." << std::endl;
   }
-  while (!reader.eof())
+  while (!reader.eof() && !reader.bad())
   {
     const std::string &pwd = reader.nextPassword();
     bool ok = chain.train(pwd);
@@ -168,6 +170,11 @@ int main(int argc, char* argv[])
       ++n;
     }
   }
+  if (reader.bad())
+  {
+    std::cerr << "Cannot read from '" << inputFilename << "'." << std::endl;
+    return EXIT_FAILURE;
+  }
   chain.update();
   if (verbosity.level > 0)
   {
@@ -176,5 +183,10 @@ int main(int argc, char* argv[])
   chain.saveBinary(outputFile);
   chain.writeJson(std::cout);
   outputFile.close();
+  if (outputFile.fail())
+  {
+    std::cerr << "Cannot write to '" << outputFilename << "'." << std::endl;
+    return EXIT_FAILURE;
+  }
   return EXIT_SUCCESS;
 }
diff --git a/extras/pwned-markov-lookup/pwned-markov-lookup.cpp b/extras/pwned-markov-lookup/pwned-markov-lookup.cpp
index 3382206..ea1d859 100644
--- a/extras/pwned-markov-lookup/pwned-markov-lookup.cpp
+++ b/extras/pwned-markov-lookup/pwned-markov-lookup.cpp
@@ -41,7 +41,12 @@ int main(int argc, char *argv[])
   const std::string &inputFilename = argv[1];
   std::ifstream inputFile(inputFilename, std::ios::binary);
   chain_type chain;
-  chain.loadBinary(inputFile);
+  const chain_type::ErrCode rc = chain.loadBinary(inputFile);
+  if (rc != chain_type::OK)
+  {
+    std::cerr << "Cannot load '" << inputFilename << "': " << chain.errString(rc) << std::endl;
+    return EXIT_FAILURE;
+  }
   while (true)
   {
     std::cout << "Type password: " << std::flush;
-- 
2.43.0


From ed7399df84ad54476ddd8aaffe2b6fcfdc1f5ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:50 +0000
Subject: [PATCH 27/57] fix: be2le converts every record exactly once and
 reports I/O errors

The last record was written twice (with its hash swapped back), an unreadable
input made it loop forever, and failures were reported as success.
---
 deprecated/be2le/be2le.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/deprecated/be2le/be2le.cpp b/deprecated/be2le/be2le.cpp
index 74b3e15..f2d1c60 100755
--- a/deprecated/be2le/be2le.cpp
+++ b/deprecated/be2le/be2le.cpp
@@ -35,15 +35,26 @@ int main(int argc, const char *argv[])
   std::cout << "Input file:  " << inputFilename << std::endl
             << "Output file: " << outputFilename << std::endl
             << "Converting to Little Endian ... " << std::flush;
-  if (in.is_open() && out.is_open())
+  if (!in.is_open() || !out.is_open())
+  {
+    std::cerr << std::endl
+              << "Cannot open file." << std::endl;
+    return EXIT_FAILURE;
+  }
   {
     pwned::PasswordHashAndCount phc;
-    while (!in.eof())
+    while (phc.read(in))
     {
-      phc.read(in);
       phc.hash.toHostByteOrder();
       phc.dump(out);
     }
+    out.close();
+    if (in.bad() || out.fail())
+    {
+      std::cerr << std::endl
+                << "Cannot read from input or write to output file." << std::endl;
+      return EXIT_FAILURE;
+    }
   }
   std::cout << std::endl
             << "Ready." << std::endl;
-- 
2.43.0


From d595d91546b14617a568b1583282ca0864dd936f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:58 +0000
Subject: [PATCH 28/57] fix: test set contains each selected hash once

Asking for more data sets than there are records extracted the same records
over and over again, asking for none divided by zero, and failed writes went
unnoticed.
---
 .../test-set-extractor.cpp                       | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/extras/pwned-test-set-extractor/test-set-extractor.cpp b/extras/pwned-test-set-extractor/test-set-extractor.cpp
index ef34f0c..ef489da 100755
--- a/extras/pwned-test-set-extractor/test-set-extractor.cpp
+++ b/extras/pwned-test-set-extractor/test-set-extractor.cpp
@@ -119,8 +119,14 @@ int main(int argc, const char *argv[])
     return EXIT_SUCCESS;
   }
 
-  const std::streamoff size = (std::streamoff)boost::filesystem::file_size(inputFilename);
-  const std::streamoff offset = size / N;
+  if (N < 1)
+  {
+    std::cerr << "ERROR: number of data sets must be positive." << std::endl;
+    return EXIT_FAILURE;
+  }
+  const std::streamoff fileSize = (std::streamoff)boost::filesystem::file_size(inputFilename);
+  const std::streamoff size = fileSize - fileSize % std::streamoff(pwned::PHC::size);
+  const std::streamoff offset = std::max<std::streamoff>(size / N, std::streamoff(pwned::PHC::size));
   std::ifstream in(inputFilename, std::ios::binary);
   if (!in.is_open())
   {
@@ -186,6 +192,12 @@ int main(int argc, const char *argv[])
     }
   }
 
+  out.close();
+  if (out.fail())
+  {
+    std::cerr << "Cannot write to '" << outputFilename << "'." << std::endl;
+    return EXIT_FAILURE;
+  }
   std::cout << std::endl
             << "Ready." << std::endl;
   return EXIT_SUCCESS;
-- 
2.43.0


From a666e4ce8c520b322ae2502d4616a253cfe8ad86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:21 +0000
Subject: [PATCH 29/57] fix: password extractor does not write empty passwords

A blank line was written for each line without a password.
---
 extras/pwned-password-extractor/pwned-password-extractor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extras/pwned-password-extractor/pwned-password-extractor.cpp b/extras/pwned-password-extractor/pwned-password-extractor.cpp
index 1969d9f..29ea8c1 100644
--- a/extras/pwned-password-extractor/pwned-password-extractor.cpp
+++ b/extras/pwned-password-extractor/pwned-password-extractor.cpp
@@ -212,9 +212,10 @@ int main(int argc, const char *argv[])
     pwned::UserPasswordReader reader(inFile, readerOptions);
     while (!reader.eof())
     {
-      const std::string &pwd = reader.nextPassword().append("\n");
+      std::string pwd = reader.nextPassword();
       if (!pwd.empty())
       {
+        pwd.append("\n");
 #ifndef WITHOUT_BZ2
         if (compress)
         {
-- 
2.43.0


From 3c676f9a9699a0e233b3054fb80b9c9bf5050ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:27 +0000
Subject: [PATCH 30/57] fix: password extractor marks files as ready only once
 their passwords are written

Files were added to .ready while their passwords were still buffered, so that a
crash or a full disk lost them for good; write errors were ignored, and a read
error made the extractor loop forever.
---
 .../pwned-password-extractor.cpp              | 48 +++++++++++++++++--
 1 file changed, 43 insertions(+), 5 deletions(-)

diff --git a/extras/pwned-password-extractor/pwned-password-extractor.cpp b/extras/pwned-password-extractor/pwned-password-extractor.cpp
index 29ea8c1..130cf0f 100644
--- a/extras/pwned-password-extractor/pwned-password-extractor.cpp
+++ b/extras/pwned-password-extractor/pwned-password-extractor.cpp
@@ -129,7 +129,7 @@ int main(int argc, const char *argv[])
   {
     std::cout << outputFilename << " already exists. Do you want to overwrite it?" << std::endl
               << "(y/n) " << std::flush;
-    char c;
+    char c = '\0';
     std::cin >> c;
     if (c != 'y')
     {
@@ -194,6 +194,10 @@ int main(int argc, const char *argv[])
   std::ios::openmode readyFileOpenMode = ignoreReady ? std::ios::trunc : std::ios::app;
   std::ofstream readyFile(".ready", readyFileOpenMode);
   std::cout << "Extracting passwords from ... " << std::endl;
+  bool ok = true;
+#ifndef WITHOUT_BZ2
+  std::vector<std::string> compressedFilenames;
+#endif
   const std::vector<pwned::UserPasswordReaderOptions> readerOptions{pwned::UserPasswordReaderOptions::autoEvaluateHexEncodedPasswords};
   for (const auto &inputFilename : inputFilenames)
   {
@@ -206,11 +210,12 @@ int main(int argc, const char *argv[])
     if (!inFile.is_open())
     {
       std::cerr << "WARNING! Cannot open '" << inputFilename << "' for reading. Skipping ..." << std::endl;
+      ok = false;
       continue;
     }
     std::cout << inputFilename << std::flush;
     pwned::UserPasswordReader reader(inFile, readerOptions);
-    while (!reader.eof())
+    while (!reader.eof() && !reader.bad())
     {
       std::string pwd = reader.nextPassword();
       if (!pwd.empty())
@@ -237,9 +242,29 @@ int main(int argc, const char *argv[])
 #endif
       }
     }
-    readyFile << inputFilename << std::endl << std::flush;
+    if (reader.bad())
+    {
+      std::cerr << std::endl << "ERROR while reading from '" << inputFilename << "'." << std::endl;
+      ok = false;
+      continue;
+    }
     inFile.close();
     std::cout << std::endl;
+    // a file must not be marked as ready before its passwords have been written
+#ifndef WITHOUT_BZ2
+    if (compress)
+    {
+      compressedFilenames.push_back(inputFilename);
+      continue;
+    }
+#endif
+    if (fflush(outFile) != 0 || ferror(outFile))
+    {
+      std::cerr << "ERROR while writing to '" << outputFilename << "'." << std::endl;
+      fclose(outFile);
+      return EXIT_FAILURE;
+    }
+    readyFile << inputFilename << std::endl << std::flush;
   }
 
 #ifndef WITHOUT_BZ2
@@ -249,14 +274,27 @@ int main(int argc, const char *argv[])
     if (bzError != BZ_OK)
     {
       std::cerr << "ERROR while closing BZ2 file." << std::endl;
-      BZ2_bzWriteClose(&bzError, bzFile, 0, nullptr, nullptr);
       fclose(outFile);
       return EXIT_FAILURE;
     }
   }
 #endif
 
-  fclose(outFile);
+  if (fclose(outFile) != 0)
+  {
+    std::cerr << "ERROR while writing to '" << outputFilename << "'." << std::endl;
+    return EXIT_FAILURE;
+  }
+#ifndef WITHOUT_BZ2
+  for (const auto &compressedFilename : compressedFilenames)
+  {
+    readyFile << compressedFilename << std::endl << std::flush;
+  }
+#endif
+  if (!ok)
+  {
+    return EXIT_FAILURE;
+  }
 
   std::cout << std::endl
             << "Ready." << std::endl;
-- 
2.43.0


From 1ca1b7d6e9c4cabd63ac998fac021af50779c813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:55 +0000
Subject: [PATCH 31/57] fix: lookup reads whole lines and stops at the end of
 the input

Passwords with spaces were looked up word by word, and at the end of the input
the empty password was looked up forever.
---
 pwned-lookup-cli/pwned-lookup-cli.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pwned-lookup-cli/pwned-lookup-cli.cpp b/pwned-lookup-cli/pwned-lookup-cli.cpp
index 5727bed..cb381af 100755
--- a/pwned-lookup-cli/pwned-lookup-cli.cpp
+++ b/pwned-lookup-cli/pwned-lookup-cli.cpp
@@ -94,8 +94,12 @@ int main(int argc, const char *argv[])
     std::cout << "Password? ";
     std::string pwd;
     pwned::setStdinEcho(false);
-    std::cin >> pwd;
+    const bool ok = bool(std::getline(std::cin, pwd));
     pwned::setStdinEcho(true);
+    if (!ok)
+    {
+      break;
+    }
     const pwned::Hash soughtHash(pwd);
     std::cout << "MD5 hash " << soughtHash << std::endl;
     const auto &t0 = std::chrono::high_resolution_clock::now();
-- 
2.43.0


From 5373ce5e0ef2f649c96695055d1121b48288b022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:26 +0000
Subject: [PATCH 32/57] fix: a lookup that cannot read the database does not
 report 'not found'

A read error made the current and all later lookups of the same inspector
report hashes as not contained.
---
 pwned-lib/passwordinspector.cpp | 21 ++++++++++++++++++++-
 pwned-server/httpworker.cpp     | 12 +++++++++++-
 2 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/pwned-lib/passwordinspector.cpp b/pwned-lib/passwordinspector.cpp
index 50c1792..2add4ee 100755
--- a/pwned-lib/passwordinspector.cpp
+++ b/pwned-lib/passwordinspector.cpp
@@ -104,6 +104,13 @@ PasswordHashAndCount PasswordInspector::binsearch(const Hash &hash, int *readCou
       mIndexFile.seekg(loIdx);
       mIndexFile.read(reinterpret_cast<char*>(&key), sizeof(index_key_t));
       ++nReads;
+      if (!mIndexFile)
+      {
+        // go on without index
+        mIndexFile.clear();
+        key = UnusedIndexKey;
+        break;
+      }
     }
     if (key != UnusedIndexKey)
     {
@@ -115,6 +122,13 @@ PasswordHashAndCount PasswordInspector::binsearch(const Hash &hash, int *readCou
       mIndexFile.seekg(hiIdx);
       mIndexFile.read(reinterpret_cast<char*>(&key), sizeof(index_key_t));
       ++nReads;
+      if (!mIndexFile)
+      {
+        // go on without index
+        mIndexFile.clear();
+        key = UnusedIndexKey;
+        break;
+      }
     }
     if (key != UnusedIndexKey)
     {
@@ -122,13 +136,18 @@ PasswordHashAndCount PasswordInspector::binsearch(const Hash &hash, int *readCou
     }
   }
   PasswordHashAndCount phc;
+  mInputFile.clear();
   while (lo <= hi)
   {
     std::streamoff pos = std::streamoff((uint64_t(lo) + uint64_t(hi)) / 2);
     pos -= pos % std::streamoff(PasswordHashAndCount::size);
     pos = std::max<int64_t>(0, pos);
-    phc.read(mInputFile, pos);
+    const bool ok = phc.read(mInputFile, pos);
     ++nReads;
+    if (!ok)
+    {
+      throw std::ios_base::failure("cannot read from password database");
+    }
     if (hash > phc.hash)
     {
       lo = pos + std::streamoff(PasswordHashAndCount::size);
diff --git a/pwned-server/httpworker.cpp b/pwned-server/httpworker.cpp
index 8521a5c..6a66554 100644
--- a/pwned-server/httpworker.cpp
+++ b/pwned-server/httpworker.cpp
@@ -161,7 +161,17 @@ void HttpWorker::sendResponse(http::request<http::string_body> const &req)
       return;
     }
     const auto &t0 = std::chrono::high_resolution_clock::now();
-    const pwned::PasswordHashAndCount &phc = mInspector.binsearch(hash);
+    pwned::PasswordHashAndCount phc;
+    try
+    {
+      phc = mInspector.binsearch(hash);
+    }
+    catch (const std::ios_base::failure &e)
+    {
+      std::cerr << "Error: " << e.what() << std::endl;
+      sendBadResponse(http::status::internal_server_error, "Lookup failed\r\n");
+      return;
+    }
     const auto &t1 = std::chrono::high_resolution_clock::now();
     const double duration = 1e3 * std::chrono::duration_cast<std::chrono::duration<double>>(t1 - t0).count();
     pt::ptree response;
-- 
2.43.0


From 79a0a7000985ecca0227da9001b248b538835b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:14 +0000
Subject: [PATCH 33/57] fix: durations are rounded before they are split into
 units

Exactly one minute, hour or day was printed without its largest unit, and
seconds were rounded up to 60.
---
 pwned-lib/util.cpp | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/pwned-lib/util.cpp b/pwned-lib/util.cpp
index 1b3f0b5..b37c0ed 100755
--- a/pwned-lib/util.cpp
+++ b/pwned-lib/util.cpp
@@ -200,28 +200,24 @@ std::string readableSize(uint64_t size)
 
 std::string readableTime(double t)
 {
-  double x = t;
-  const int days = int(x / 60 / 60 / 24);
-  x -= double(days * 60 * 60 * 24);
-  const int hours = int(x / 60 / 60);
-  x -= double(hours * 60 * 60);
-  const int mins = int(x / 60);
-  x -= double(mins * 60);
-  const double secs = x;
-  const int isecs = int(round(secs));
-  if (t > 60 * 60 * 24)
+  if (t < 60)
   {
-    return string_format("%dd %dh %dm %ds", days, hours, mins, isecs);
+    return string_format("%.4fs", t);
   }
-  if (t > 60 * 60)
+  const long long total = std::llround(t);
+  const int days = int(total / (60 * 60 * 24));
+  const int hours = int(total / (60 * 60) % 24);
+  const int mins = int(total / 60 % 60);
+  const int isecs = int(total % 60);
+  if (days > 0)
   {
-    return string_format("%dh %dm %ds", hours, mins, isecs);
+    return string_format("%dd %dh %dm %ds", days, hours, mins, isecs);
   }
-  if (t > 60)
+  if (hours > 0)
   {
-    return string_format("%dm %ds", mins, isecs);
+    return string_format("%dh %dm %ds", hours, mins, isecs);
   }
-  return string_format("%.4fs", secs);
+  return string_format("%dm %ds", mins, isecs);
 }
 
 int decodeHex(const char c)
-- 
2.43.0


From bfa48aac537063c9aafff83d9cdb353e4f99bf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:14 +0000
Subject: [PATCH 34/57] fix: formatting an empty string does not write beyond
 its buffer

---
 pwned-lib/util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwned-lib/util.cpp b/pwned-lib/util.cpp
index b37c0ed..140f991 100755
--- a/pwned-lib/util.cpp
+++ b/pwned-lib/util.cpp
@@ -154,7 +154,7 @@ int getMemoryStat(MemoryStat &memoryStat)
 // see https://stackoverflow.com/a/8098080
 std::string string_format(const std::string fmt_str, ...)
 {
-  int n = (int)(2 * fmt_str.size());
+  int n = (int)(2 * fmt_str.size() + 1);
   std::unique_ptr<char[]> formatted;
   va_list ap;
   while (true)
-- 
2.43.0


From 6a9b1da959efc2d3bc7d6f43e5946cae7403b0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:14 +0000
Subject: [PATCH 35/57] fix: enabling the terminal echo sets ECHO and nothing
 else

---
 pwned-lib/util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pwned-lib/util.cpp b/pwned-lib/util.cpp
index 140f991..672f483 100755
--- a/pwned-lib/util.cpp
+++ b/pwned-lib/util.cpp
@@ -301,7 +301,7 @@ void TermIO::enableEcho()
   struct termios t;
   tcgetattr(STDIN_FILENO, &t);
   t.c_lflag |= tcflag_t(ICANON);
-  t.c_lflag |= tcflag_t(~ECHO);
+  t.c_lflag |= tcflag_t(ECHO);
   tcsetattr(STDIN_FILENO, TCSANOW, &t);
 }
 
-- 
2.43.0


From 7866ee05044e1d315119c04e891dfc3ca9eafe61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:14 +0000
Subject: [PATCH 36/57] fix: converter changes the terminal only while it runs

The detached key thread switched off the echo, which could happen after the
terminal had already been restored.
---
 pwned-converter-cli/pwned-converter-cli.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pwned-converter-cli/pwned-converter-cli.cpp b/pwned-converter-cli/pwned-converter-cli.cpp
index 3a1d484..08957c7 100755
--- a/pwned-converter-cli/pwned-converter-cli.cpp
+++ b/pwned-converter-cli/pwned-converter-cli.cpp
@@ -176,8 +176,8 @@ int main(int argc, const char *argv[])
     opQueue.add(op);
   }
   pwned::TermIO termIO;
-  std::thread keyThread = pwned::runAsync([&opQueue, &termIO] {
-    termIO.disableEcho();
+  termIO.disableEcho();
+  std::thread keyThread = pwned::runAsync([&opQueue] {
     char ch;
     do
     {
-- 
2.43.0


From e72176ac764156b710bcfe0c6b8cde3927a58b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:42 +0000
Subject: [PATCH 37/57] fix: key threads stop at the end of the standard input

They kept a CPU busy reading EOF over and over again.
---
 pwned-converter-cli/pwned-converter-cli.cpp | 6 +++---
 pwned-merger-cli/pwned-merger-cli.cpp       | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pwned-converter-cli/pwned-converter-cli.cpp b/pwned-converter-cli/pwned-converter-cli.cpp
index 08957c7..d982ed9 100755
--- a/pwned-converter-cli/pwned-converter-cli.cpp
+++ b/pwned-converter-cli/pwned-converter-cli.cpp
@@ -178,10 +178,10 @@ int main(int argc, const char *argv[])
   pwned::TermIO termIO;
   termIO.disableEcho();
   std::thread keyThread = pwned::runAsync([&opQueue] {
-    char ch;
+    int ch;
     do
     {
-      ch = char(getchar());
+      ch = getchar();
       switch (ch)
       {
       case ' ':
@@ -204,7 +204,7 @@ int main(int argc, const char *argv[])
       default:
         break;
       }
-    } while (ch != 'q');
+    } while (ch != 'q' && ch != EOF);
   },
                                           0);
   keyThread.detach();
diff --git a/pwned-merger-cli/pwned-merger-cli.cpp b/pwned-merger-cli/pwned-merger-cli.cpp
index 5d59520..2d6022d 100755
--- a/pwned-merger-cli/pwned-merger-cli.cpp
+++ b/pwned-merger-cli/pwned-merger-cli.cpp
@@ -192,10 +192,10 @@ int main(int argc, const char *argv[])
   ProgressBar progressBar(32);
   pwned::OperationQueue<merger::MergeOperation> opQueue;
   std::thread keyThread = pwned::runAsync([&opQueue] {
-    char ch;
+    int ch;
     do
     {
-      ch = char(getchar());
+      ch = getchar();
       switch (ch)
       {
       case 'p':
@@ -215,7 +215,7 @@ int main(int argc, const char *argv[])
       default:
         break;
       }
-    } while (ch != 'q');
+    } while (ch != 'q' && ch != EOF);
   },
                                           0);
   keyThread.detach();
-- 
2.43.0


From e2e6fb0d370ad9ffe5c0c823db9f2912416777b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:13 +0000
Subject: [PATCH 38/57] fix: an odd number of hex digits is not a valid byte
 sequence

---
 pwned-lib/util.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pwned-lib/util.cpp b/pwned-lib/util.cpp
index 672f483..c79664a 100755
--- a/pwned-lib/util.cpp
+++ b/pwned-lib/util.cpp
@@ -256,8 +256,9 @@ bool hexToCharSeq(const std::string &seq, std::string &result)
         return false;
       }
     }
+    return true;
   }
-  return true;
+  return false;
 }
 
 unsigned int popcnt64(uint64_t x)
-- 
2.43.0


From 775f8ac36a2b9542067e137c9913ee268239483b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:22 +0000
Subject: [PATCH 39/57] fix: a request target is split at its first '?' and
 '#', whatever was parsed before

---
 pwned-server/uri.cpp | 39 ++++++++++++++++++---------------------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/pwned-server/uri.cpp b/pwned-server/uri.cpp
index 18d6e1c..a209423 100644
--- a/pwned-server/uri.cpp
+++ b/pwned-server/uri.cpp
@@ -125,34 +125,31 @@ void URI::parse(const std::string &uri)
 
 void URI::parseTarget(const std::string &target)
 {
-  std::vector<std::string> pathAndQuery;
-  boost::split(pathAndQuery, target, boost::is_any_of("?"));
-  if (pathAndQuery.size() > 0)
+  mPath.clear();
+  mQuery.clear();
+  mFragment.clear();
+  const std::string::size_type fragmentPos = target.find('#');
+  const std::string &pathAndQuery = target.substr(0, fragmentPos);
+  if (fragmentPos != std::string::npos)
   {
-    mPath = pathAndQuery.at(0);
+    mFragment = target.substr(fragmentPos + 1);
   }
-  if (pathAndQuery.size() > 1)
+  const std::string::size_type queryPos = pathAndQuery.find('?');
+  mPath = pathAndQuery.substr(0, queryPos);
+  if (queryPos != std::string::npos)
   {
-    std::vector<std::string> queryAndFragment;
-    boost::split(queryAndFragment, pathAndQuery.at(1), boost::is_any_of("#"));
-    if (queryAndFragment.size() > 0)
+    const std::string &query = pathAndQuery.substr(queryPos + 1);
+    std::vector<std::string> kv;
+    boost::split(kv, query, boost::is_any_of("&"));
+    for (const auto &param : kv)
     {
-      std::vector<std::string> kv;
-      boost::split(kv, queryAndFragment.at(0), boost::is_any_of("&"));
-      for (const auto &param : kv)
+      std::vector<std::string> pair;
+      boost::split(pair, param, boost::is_any_of("="));
+      if (pair.size() == 2)
       {
-        std::vector<std::string> pair;
-        boost::split(pair, param, boost::is_any_of("="));
-        if (pair.size() == 2)
-        {
-          mQuery[pair.at(0)] = pair.at(1);
-        }
+        mQuery[pair.at(0)] = pair.at(1);
       }
     }
-    if (queryAndFragment.size() > 1)
-    {
-      mFragment = queryAndFragment.at(1);
-    }
   }
 }
 
-- 
2.43.0


From 8d207441e3ed516c82fcfbec6dda4af7da6fe112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:22 +0000
Subject: [PATCH 40/57] fix: the path of a URI without authority is not lost

---
 pwned-server/uri.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pwned-server/uri.cpp b/pwned-server/uri.cpp
index a209423..ba36c77 100644
--- a/pwned-server/uri.cpp
+++ b/pwned-server/uri.cpp
@@ -93,9 +93,9 @@ void URI::parse(const std::string &uri)
     {
       mPort = SchemeToPort.at(mScheme);
     }
-    if (m.size() > 5)
+    if (m.size() > 6)
     {
-      mPath = m[5].str();
+      mPath = m[5].matched ? m[5].str() : m[6].str();
     }
     if (m.size() > 7 && m[7].length() > 0)
     {
-- 
2.43.0


From a963f68b47413e47065fad26d3d179a930dfba15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:22 +0000
Subject: [PATCH 41/57] fix: URIs may contain upper case letters

---
 pwned-server/uri.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pwned-server/uri.cpp b/pwned-server/uri.cpp
index ba36c77..4d58e86 100644
--- a/pwned-server/uri.cpp
+++ b/pwned-server/uri.cpp
@@ -24,7 +24,7 @@
 
 #include "uri.hpp"
 
-static const std::regex RE("^([a-z0-9+.-]+):(?:\\/\\/(?:((?:[a-z0-9-._~!$&'()*+,;=:]|%[0-9A-F]{2})*)@)?((?:[a-z0-9-._~!$&'()*+,;=]|%[0-9A-F]{2})*)(?::(\\d*))?(\\/(?:[a-z0-9-._~!$&'()*+,;=:@\\/]|%[0-9A-F]{2})*)?|(\\/?(?:[a-z0-9-._~!$&'()*+,;=:@]|%[0-9A-F]{2})+(?:[a-z0-9-._~!$&'()*+,;=:@\\/]|%[0-9A-F]{2})*)?)(?:\\?((?:[a-z0-9-._~!$&'()*+,;=:\\/?@]|%[0-9A-F]{2})*))?(?:#((?:[a-z0-9-._~!$&'()*+,;=:\\/?@]|%[0-9A-F]{2})*))?$");
+static const std::regex RE("^([a-z0-9+.-]+):(?:\\/\\/(?:((?:[a-z0-9-._~!$&'()*+,;=:]|%[0-9A-F]{2})*)@)?((?:[a-z0-9-._~!$&'()*+,;=]|%[0-9A-F]{2})*)(?::(\\d*))?(\\/(?:[a-z0-9-._~!$&'()*+,;=:@\\/]|%[0-9A-F]{2})*)?|(\\/?(?:[a-z0-9-._~!$&'()*+,;=:@]|%[0-9A-F]{2})+(?:[a-z0-9-._~!$&'()*+,;=:@\\/]|%[0-9A-F]{2})*)?)(?:\\?((?:[a-z0-9-._~!$&'()*+,;=:\\/?@]|%[0-9A-F]{2})*))?(?:#((?:[a-z0-9-._~!$&'()*+,;=:\\/?@]|%[0-9A-F]{2})*))?$", std::regex::icase);
 static const std::map<std::string, URI::port_type> SchemeToPort = {
   { "http", 80 },
   { "https", 443 }
@@ -89,9 +89,9 @@ void URI::parse(const std::string &uri)
         mIsValid = false;
       }
     }
-    else if (SchemeToPort.find(mScheme) != SchemeToPort.end())
+    else if (SchemeToPort.find(boost::algorithm::to_lower_copy(mScheme)) != SchemeToPort.end())
     {
-      mPort = SchemeToPort.at(mScheme);
+      mPort = SchemeToPort.at(boost::algorithm::to_lower_copy(mScheme));
     }
     if (m.size() > 6)
     {
-- 
2.43.0


From b5a3db06dd566f63f1072c9647abc5b6766506a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:22 +0000
Subject: [PATCH 42/57] fix: Markov probabilities stay right beyond 4 billion
 symbols

---
 pwned-lib/markovchain.hpp | 2 +-
 pwned-lib/markovnode.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pwned-lib/markovchain.hpp b/pwned-lib/markovchain.hpp
index 1adfec2..32ecba9 100644
--- a/pwned-lib/markovchain.hpp
+++ b/pwned-lib/markovchain.hpp
@@ -70,7 +70,7 @@ public:
   void update()
   {
     using elem_type = typename decltype(mFirstSymbolCounts)::value_type;
-    const count_type sum = std::accumulate(std::cbegin(mFirstSymbolCounts), std::cend(mFirstSymbolCounts), 0U,
+    const count_type sum = std::accumulate(std::cbegin(mFirstSymbolCounts), std::cend(mFirstSymbolCounts), count_type(0),
                                            [](count_type a, const elem_type &b) -> count_type {
                                              return b.second + a;
                                            });
diff --git a/pwned-lib/markovnode.hpp b/pwned-lib/markovnode.hpp
index 1746255..7d24b62 100644
--- a/pwned-lib/markovnode.hpp
+++ b/pwned-lib/markovnode.hpp
@@ -56,7 +56,7 @@ public:
   void update()
   {
     using elem_type = typename decltype(mCounts)::value_type;
-    const count_type sum = std::accumulate(std::cbegin(mCounts), std::cend(mCounts), 0U,
+    const count_type sum = std::accumulate(std::cbegin(mCounts), std::cend(mCounts), count_type(0),
                                            [](count_type a, const elem_type &b) -> count_type {
                                              return b.second + a;
                                            });
-- 
2.43.0


From e1d17c026d3e2a3ed8cc5aa41fd8c474d86f2403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:07 +0000
Subject: [PATCH 43/57] fix: the password extractor reports errors of its
 .ready file instead of looping

---
 .../pwned-password-extractor.cpp                  | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/extras/pwned-password-extractor/pwned-password-extractor.cpp b/extras/pwned-password-extractor/pwned-password-extractor.cpp
index 130cf0f..f5b9661 100644
--- a/extras/pwned-password-extractor/pwned-password-extractor.cpp
+++ b/extras/pwned-password-extractor/pwned-password-extractor.cpp
@@ -183,12 +183,16 @@ int main(int argc, const char *argv[])
     std::ifstream readyFileIn(".ready");
     if (readyFileIn.is_open())
     {
-      while (!readyFileIn.eof())
+      std::string filename;
+      while (std::getline(readyFileIn, filename))
       {
-        std::string filename;
-        std::getline(readyFileIn, filename);
         alreadyProcessed[filename] = true;
       }
+      if (readyFileIn.bad())
+      {
+        std::cerr << "Cannot read from '.ready'." << std::endl;
+        return EXIT_FAILURE;
+      }
     }
   }
   std::ios::openmode readyFileOpenMode = ignoreReady ? std::ios::trunc : std::ios::app;
@@ -291,6 +295,11 @@ int main(int argc, const char *argv[])
     readyFile << compressedFilename << std::endl << std::flush;
   }
 #endif
+  if (!readyFile)
+  {
+    std::cerr << "Cannot write to '.ready'." << std::endl;
+    ok = false;
+  }
   if (!ok)
   {
     return EXIT_FAILURE;
-- 
2.43.0


From 6aa1ed8f95365b7bc437ff45d845d203b7d48add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:03 +0000
Subject: [PATCH 44/57] fix: a merge without any input file is reported as
 failed

---
 pwned-merger-cli/pwned-merger-cli.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pwned-merger-cli/pwned-merger-cli.cpp b/pwned-merger-cli/pwned-merger-cli.cpp
index 2d6022d..f196e7c 100755
--- a/pwned-merger-cli/pwned-merger-cli.cpp
+++ b/pwned-merger-cli/pwned-merger-cli.cpp
@@ -144,6 +144,11 @@ int main(int argc, const char *argv[])
     usage();
     return EXIT_FAILURE;
   }
+  if (filenames.empty())
+  {
+    std::cerr << "ERROR: no input files found." << std::endl;
+    return EXIT_FAILURE;
+  }
   if (maxFilesAtOnce < 2)
   {
     std::cerr << "ERROR: at least 2 files must be processed at once." << std::endl;
-- 
2.43.0


From 63650d8d7c5639b2525c4ae270c059690c698b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:24 +0000
Subject: [PATCH 45/57] fix: a password reader does not forget a read error
 while it examines the file

---
 pwned-lib/userpasswordreader.cpp | 18 ++++++++++++------
 pwned-lib/userpasswordreader.hpp |  1 +
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/pwned-lib/userpasswordreader.cpp b/pwned-lib/userpasswordreader.cpp
index 7acd9a4..e3f0278 100755
--- a/pwned-lib/userpasswordreader.cpp
+++ b/pwned-lib/userpasswordreader.cpp
@@ -48,6 +48,15 @@ bool UserPasswordReader::bad() const
   return input.bad() || (input.fail() && !input.eof());
 }
 
+void UserPasswordReader::rewind()
+{
+  // an I/O error must not be forgotten
+  if (input.bad())
+    return;
+  input.clear();
+  input.seekg(0, std::ios::beg);
+}
+
 char UserPasswordReader::guessSeparator()
 {
   std::map<char, int> successfulSplits;
@@ -78,8 +87,7 @@ char UserPasswordReader::guessSeparator()
       guessedSeparator = maxSep->first;
     }
   }
-  input.clear();
-  input.seekg(0, std::ios::beg);
+  rewind();
   return guessedSeparator;
 }
 
@@ -107,8 +115,7 @@ bool UserPasswordReader::checkForMD5Hashes()
       }
     }
   }
-  input.clear();
-  input.seekg(0, std::ios::beg);
+  rewind();
   return forceEvaluateMD5Hashes;
 }
 
@@ -133,8 +140,7 @@ bool UserPasswordReader::checkForHexEncodedPasswords()
       }
     }
   }
-  input.clear();
-  input.seekg(0, std::ios::beg);
+  rewind();
   return forceEvaluateHexEncodedPasswords;
 }
 
diff --git a/pwned-lib/userpasswordreader.hpp b/pwned-lib/userpasswordreader.hpp
index 50d572e..f8b53ec 100755
--- a/pwned-lib/userpasswordreader.hpp
+++ b/pwned-lib/userpasswordreader.hpp
@@ -47,6 +47,7 @@ public:
   bool bad() const;
 
 protected:
+  void rewind();
   void evaluateContents();
   char guessSeparator();
   bool mayContainPassword(const std::string &line) const;
-- 
2.43.0


From 18a1138b69be462b3d4c8feae13a75cd0238db35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:20 +0000
Subject: [PATCH 46/57] fix: the test set extractor reports read errors

---
 extras/pwned-test-set-extractor/test-set-extractor.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/extras/pwned-test-set-extractor/test-set-extractor.cpp b/extras/pwned-test-set-extractor/test-set-extractor.cpp
index ef489da..d2a79ff 100755
--- a/extras/pwned-test-set-extractor/test-set-extractor.cpp
+++ b/extras/pwned-test-set-extractor/test-set-extractor.cpp
@@ -190,6 +190,11 @@ int main(int argc, const char *argv[])
         ++i;
       }
     }
+    if (in.bad())
+    {
+      std::cerr << "Cannot read from '" << inputFilename << "'." << std::endl;
+      return EXIT_FAILURE;
+    }
   }
 
   out.close();
-- 
2.43.0


From 19756296b6fb9ea071f069128027f939b1086579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:26 +0000
Subject: [PATCH 47/57] fix: the converter and the merger end without waiting
 for another key

---
 pwned-converter-cli/pwned-converter-cli.cpp | 2 +-
 pwned-merger-cli/pwned-merger-cli.cpp       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pwned-converter-cli/pwned-converter-cli.cpp b/pwned-converter-cli/pwned-converter-cli.cpp
index d982ed9..8c2dc8f 100755
--- a/pwned-converter-cli/pwned-converter-cli.cpp
+++ b/pwned-converter-cli/pwned-converter-cli.cpp
@@ -181,7 +181,7 @@ int main(int argc, const char *argv[])
     int ch;
     do
     {
-      ch = getchar();
+      ch = getchar_unlocked(); // holding the lock of stdin would block the exit of the program
       switch (ch)
       {
       case ' ':
diff --git a/pwned-merger-cli/pwned-merger-cli.cpp b/pwned-merger-cli/pwned-merger-cli.cpp
index f196e7c..d000ce1 100755
--- a/pwned-merger-cli/pwned-merger-cli.cpp
+++ b/pwned-merger-cli/pwned-merger-cli.cpp
@@ -200,7 +200,7 @@ int main(int argc, const char *argv[])
     int ch;
     do
     {
-      ch = getchar();
+      ch = getchar_unlocked(); // holding the lock of stdin would block the exit of the program
       switch (ch)
       {
       case 'p':
-- 
2.43.0


From 94a618f8bb3230efcc179cf5c94f8bac8f788011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:58 +0000
Subject: [PATCH 48/57] fix: the web page must not show the answer for an older
 password

---
 pwned-lookup-web/index.html | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pwned-lookup-web/index.html b/pwned-lookup-web/index.html
index 5a44814..0d3ae68 100644
--- a/pwned-lookup-web/index.html
+++ b/pwned-lookup-web/index.html
@@ -104,6 +104,7 @@
       const LookupURL = 'https://ersatzworld.net/v1/pwned/api/lookup?hash='
       const InfoURL = 'https://ersatzworld.net/v1/pwned/api/info'
       let el
+      let latestLookup = 0
       const displayError = err => {
         el.resultContainer.classList.add('invisible')
         el.errorContainer.classList.remove('invisible')
@@ -117,9 +118,13 @@
         el.found.innerText = ''
         el.found.classList.remove('found', 'notfound')
         el.lookupTimeMs.innerText = ''
+        const thisLookup = ++latestLookup
         fetch(`${LookupURL}${hash}`)
         .then(response => response.json())
         .then(data => {
+          if (thisLookup !== latestLookup) {
+            return // answers may arrive in any order
+          }
           if (data['found'] > 0) {
             el.found.classList.add('found')
             el.found.innerText = `${formatNumber(data['found'])} times`
@@ -132,7 +137,11 @@
           el.resultContainer.classList.remove('invisible')
           el.errorContainer.classList.add('invisible')
         })
-        .catch(err => displayError(err))
+        .catch(err => {
+          if (thisLookup === latestLookup) {
+            displayError(err)
+          }
+        })
       }
       const main = () => {
         el = {
-- 
2.43.0


From 02a61d7f7089e4eaa13fce89d1c3cf9562d521ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:42 +0000
Subject: [PATCH 49/57] fix: the handlers of a server worker must not run in
 two threads at once

---
 pwned-server/httpworker.cpp | 7 ++++---
 pwned-server/httpworker.hpp | 6 ++++--
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/pwned-server/httpworker.cpp b/pwned-server/httpworker.cpp
index 6a66554..ef2b1a9 100644
--- a/pwned-server/httpworker.cpp
+++ b/pwned-server/httpworker.cpp
@@ -63,18 +63,19 @@ void HttpWorker::accept()
   mSocket.close(ec);
   mBuffer.consume(mBuffer.size());
   mAcceptor.async_accept(
-      mSocket,
-      [this](beast::error_code ec) {
+      mSocket.get_executor(),
+      net::bind_executor(mSocket.get_executor(), [this](beast::error_code ec, tcp::socket socket) {
         if (ec)
         {
           accept();
         }
         else
         {
+          mSocket = std::move(socket);
           mReqTimeout.expires_after(Timeout);
           readRequest();
         }
-      });
+      }));
 }
 
 void HttpWorker::readRequest()
diff --git a/pwned-server/httpworker.hpp b/pwned-server/httpworker.hpp
index 49d78c0..e1f6505 100644
--- a/pwned-server/httpworker.hpp
+++ b/pwned-server/httpworker.hpp
@@ -25,6 +25,7 @@
 #include <boost/beast/core.hpp>
 #include <boost/beast/http.hpp>
 #include <boost/asio/ip/tcp.hpp>
+#include <boost/asio/strand.hpp>
 #include <boost/optional/optional.hpp>
 #include <boost/function.hpp>
 
@@ -55,11 +56,12 @@ public:
 
 private:
   tcp::acceptor &mAcceptor;
-  tcp::socket mSocket{mAcceptor.get_executor()};
+  // several threads may run the event loop, hence a strand for each worker
+  tcp::socket mSocket{boost::asio::make_strand(mAcceptor.get_executor())};
   beast::flat_buffer mBuffer;
   boost::optional<http::request_parser<http::string_body>> mParser;
   boost::asio::basic_waitable_timer<std::chrono::steady_clock> mReqTimeout{
-    mAcceptor.get_executor(),
+    mSocket.get_executor(),
     (std::chrono::steady_clock::time_point::max)()};
   boost::optional<http::response<http::string_body>> mResponse;
   boost::optional<http::response_serializer<http::string_body>> mSerializer;
-- 
2.43.0


From 887a128089eb79bb764b64a3b4e4e7746b35b6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:04 +0000
Subject: [PATCH 50/57] fix: a command line with an error must not be executed

---
 extras/pwned-password-extractor/pwned-password-extractor.cpp | 1 +
 extras/pwned-test-set-extractor/test-set-extractor.cpp       | 1 +
 pwned-converter-cli/pwned-converter-cli.cpp                  | 1 +
 pwned-index/index.cpp                                        | 1 +
 4 files changed, 4 insertions(+)

diff --git a/extras/pwned-password-extractor/pwned-password-extractor.cpp b/extras/pwned-password-extractor/pwned-password-extractor.cpp
index f5b9661..671a05d 100644
--- a/extras/pwned-password-extractor/pwned-password-extractor.cpp
+++ b/extras/pwned-password-extractor/pwned-password-extractor.cpp
@@ -102,6 +102,7 @@ int main(int argc, const char *argv[])
     std::cerr << "ERROR: " << e.what() << std::endl
               << std::endl;
     usage();
+    return EXIT_FAILURE;
   }
   po::notify(vm);
   if (vm.count("help"))
diff --git a/extras/pwned-test-set-extractor/test-set-extractor.cpp b/extras/pwned-test-set-extractor/test-set-extractor.cpp
index d2a79ff..c2dd986 100755
--- a/extras/pwned-test-set-extractor/test-set-extractor.cpp
+++ b/extras/pwned-test-set-extractor/test-set-extractor.cpp
@@ -96,6 +96,7 @@ int main(int argc, const char *argv[])
     std::cerr << "ERROR: " << e.what() << std::endl
               << std::endl;
     usage();
+    return EXIT_FAILURE;
   }
   po::notify(vm);
   if (vm.count("help"))
diff --git a/pwned-converter-cli/pwned-converter-cli.cpp b/pwned-converter-cli/pwned-converter-cli.cpp
index 8c2dc8f..afba22d 100755
--- a/pwned-converter-cli/pwned-converter-cli.cpp
+++ b/pwned-converter-cli/pwned-converter-cli.cpp
@@ -108,6 +108,7 @@ int main(int argc, const char *argv[])
     std::cerr << "ERROR: " << e.what() << std::endl
               << std::endl;
     usage();
+    return EXIT_FAILURE;
   }
   po::notify(vm);
   if (vm.count("help") > 0)
diff --git a/pwned-index/index.cpp b/pwned-index/index.cpp
index 1dbb76e..8cfe491 100644
--- a/pwned-index/index.cpp
+++ b/pwned-index/index.cpp
@@ -89,6 +89,7 @@ int main(int argc, const char *argv[])
     std::cerr << "ERROR: " << e.what() << std::endl
               << std::endl;
     usage();
+    return EXIT_FAILURE;
   }
   po::notify(vm);
   if (vm.count("help"))
-- 
2.43.0


From 9540d139f3e29f4186258fdf57fca7c72632f4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:04 +0000
Subject: [PATCH 51/57] fix: a missing mandatory option is a failure

---
 extras/pwned-password-extractor/pwned-password-extractor.cpp | 2 +-
 extras/pwned-test-set-extractor/test-set-extractor.cpp       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/extras/pwned-password-extractor/pwned-password-extractor.cpp b/extras/pwned-password-extractor/pwned-password-extractor.cpp
index 671a05d..9a2d049 100644
--- a/extras/pwned-password-extractor/pwned-password-extractor.cpp
+++ b/extras/pwned-password-extractor/pwned-password-extractor.cpp
@@ -123,7 +123,7 @@ int main(int argc, const char *argv[])
   if (srcDirectory.empty() || outputFilename.empty())
   {
     usage();
-    return EXIT_SUCCESS;
+    return EXIT_FAILURE;
   }
 
   if (fs::exists(outputFilename))
diff --git a/extras/pwned-test-set-extractor/test-set-extractor.cpp b/extras/pwned-test-set-extractor/test-set-extractor.cpp
index c2dd986..9e8b264 100755
--- a/extras/pwned-test-set-extractor/test-set-extractor.cpp
+++ b/extras/pwned-test-set-extractor/test-set-extractor.cpp
@@ -117,7 +117,7 @@ int main(int argc, const char *argv[])
   if (inputFilename.empty() || outputFilename.empty())
   {
     usage();
-    return EXIT_SUCCESS;
+    return EXIT_FAILURE;
   }
 
   if (N < 1)
-- 
2.43.0


From 44a95a3389291ec9536a1f5b5450cfedc43d1ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:04 +0000
Subject: [PATCH 52/57] fix: the lookup tool must understand its option --help

---
 pwned-lookup-cli/pwned-lookup-cli.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pwned-lookup-cli/pwned-lookup-cli.cpp b/pwned-lookup-cli/pwned-lookup-cli.cpp
index cb381af..5e24048 100755
--- a/pwned-lookup-cli/pwned-lookup-cli.cpp
+++ b/pwned-lookup-cli/pwned-lookup-cli.cpp
@@ -82,6 +82,11 @@ int main(int argc, const char *argv[])
     return EXIT_FAILURE;
   }
   po::notify(vm);
+  if (vm.count("help") > 0)
+  {
+    usage();
+    return EXIT_SUCCESS;
+  }
   if (inputFilename.empty())
   {
     std::cerr << "ERROR: input file not given." << std::endl;
-- 
2.43.0


From 7194704ecb2c4ef7c142eb00946b347e4a035f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:04 +0000
Subject: [PATCH 53/57] fix: an argument that belongs to no option must not be
 ignored silently

---
 extras/pwned-markov-generator/pwned-markov-generator.cpp     | 2 +-
 extras/pwned-password-extractor/pwned-password-extractor.cpp | 2 +-
 extras/pwned-test-set-extractor/test-set-extractor.cpp       | 2 +-
 pwned-converter-cli/pwned-converter-cli.cpp                  | 2 +-
 pwned-index/index.cpp                                        | 2 +-
 pwned-lookup-cli/pwned-lookup-cli.cpp                        | 2 +-
 pwned-merger-cli/pwned-merger-cli.cpp                        | 2 +-
 pwned-server/pwned-server.cpp                                | 2 +-
 8 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/extras/pwned-markov-generator/pwned-markov-generator.cpp b/extras/pwned-markov-generator/pwned-markov-generator.cpp
index e3a2ac2..5900841 100644
--- a/extras/pwned-markov-generator/pwned-markov-generator.cpp
+++ b/extras/pwned-markov-generator/pwned-markov-generator.cpp
@@ -100,7 +100,7 @@ int main(int argc, char* argv[])
   po::variables_map vm;
   try
   {
-    po::store(po::parse_command_line(argc, argv, desc), vm);
+    po::store(po::command_line_parser(argc, argv).options(desc).positional(po::positional_options_description()).run(), vm);
   }
   catch (const po::error &e)
   {
diff --git a/extras/pwned-password-extractor/pwned-password-extractor.cpp b/extras/pwned-password-extractor/pwned-password-extractor.cpp
index 9a2d049..5dee908 100644
--- a/extras/pwned-password-extractor/pwned-password-extractor.cpp
+++ b/extras/pwned-password-extractor/pwned-password-extractor.cpp
@@ -95,7 +95,7 @@ int main(int argc, const char *argv[])
   po::variables_map vm;
   try
   {
-    po::store(po::parse_command_line(argc, argv, desc), vm);
+    po::store(po::command_line_parser(argc, argv).options(desc).positional(po::positional_options_description()).run(), vm);
   }
   catch (const po::error &e)
   {
diff --git a/extras/pwned-test-set-extractor/test-set-extractor.cpp b/extras/pwned-test-set-extractor/test-set-extractor.cpp
index 9e8b264..bdf7537 100755
--- a/extras/pwned-test-set-extractor/test-set-extractor.cpp
+++ b/extras/pwned-test-set-extractor/test-set-extractor.cpp
@@ -89,7 +89,7 @@ int main(int argc, const char *argv[])
   po::variables_map vm;
   try
   {
-    po::store(po::parse_command_line(argc, argv, desc), vm);
+    po::store(po::command_line_parser(argc, argv).options(desc).positional(po::positional_options_description()).run(), vm);
   }
   catch (const po::error &e)
   {
diff --git a/pwned-converter-cli/pwned-converter-cli.cpp b/pwned-converter-cli/pwned-converter-cli.cpp
index afba22d..fe5d707 100755
--- a/pwned-converter-cli/pwned-converter-cli.cpp
+++ b/pwned-converter-cli/pwned-converter-cli.cpp
@@ -101,7 +101,7 @@ int main(int argc, const char *argv[])
   po::variables_map vm;
   try
   {
-    po::store(po::parse_command_line(argc, argv, desc), vm);
+    po::store(po::command_line_parser(argc, argv).options(desc).positional(po::positional_options_description()).run(), vm);
   }
   catch (const po::error &e)
   {
diff --git a/pwned-index/index.cpp b/pwned-index/index.cpp
index 8cfe491..a2e1e60 100644
--- a/pwned-index/index.cpp
+++ b/pwned-index/index.cpp
@@ -82,7 +82,7 @@ int main(int argc, const char *argv[])
   po::variables_map vm;
   try
   {
-    po::store(po::parse_command_line(argc, argv, desc), vm);
+    po::store(po::command_line_parser(argc, argv).options(desc).positional(po::positional_options_description()).run(), vm);
   }
   catch (const po::error &e)
   {
diff --git a/pwned-lookup-cli/pwned-lookup-cli.cpp b/pwned-lookup-cli/pwned-lookup-cli.cpp
index 5e24048..f4fc0d6 100755
--- a/pwned-lookup-cli/pwned-lookup-cli.cpp
+++ b/pwned-lookup-cli/pwned-lookup-cli.cpp
@@ -73,7 +73,7 @@ int main(int argc, const char *argv[])
   po::variables_map vm;
   try
   {
-    po::store(po::parse_command_line(argc, argv, desc), vm);
+    po::store(po::command_line_parser(argc, argv).options(desc).positional(po::positional_options_description()).run(), vm);
   }
   catch (po::error &e)
   {
diff --git a/pwned-merger-cli/pwned-merger-cli.cpp b/pwned-merger-cli/pwned-merger-cli.cpp
index d000ce1..94fa212 100755
--- a/pwned-merger-cli/pwned-merger-cli.cpp
+++ b/pwned-merger-cli/pwned-merger-cli.cpp
@@ -98,7 +98,7 @@ int main(int argc, const char *argv[])
   po::variables_map vm;
   try
   {
-    po::store(po::parse_command_line(argc, argv, desc), vm);
+    po::store(po::command_line_parser(argc, argv).options(desc).positional(po::positional_options_description()).run(), vm);
   }
   catch (po::error &e)
   {
diff --git a/pwned-server/pwned-server.cpp b/pwned-server/pwned-server.cpp
index 20a060c..ccc49d9 100644
--- a/pwned-server/pwned-server.cpp
+++ b/pwned-server/pwned-server.cpp
@@ -107,7 +107,7 @@ int main(int argc, const char *argv[])
   po::variables_map vm;
   try
   {
-    po::store(po::parse_command_line(argc, argv, desc), vm);
+    po::store(po::command_line_parser(argc, argv).options(desc).positional(po::positional_options_description()).run(), vm);
   }
   catch (const po::error &e)
   {
-- 
2.43.0


From 23cbfed57c7fd3c9e35c8cbe4e8fa445efb0354f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:04 +0000
Subject: [PATCH 54/57] fix: a tool must not overwrite its own input file

---
 deprecated/be2le/be2le.cpp                               | 7 +++++++
 extras/pwned-markov-generator/pwned-markov-generator.cpp | 6 ++++++
 extras/pwned-test-set-extractor/test-set-extractor.cpp   | 6 ++++++
 pwned-index/index.cpp                                    | 7 +++++++
 4 files changed, 26 insertions(+)

diff --git a/deprecated/be2le/be2le.cpp b/deprecated/be2le/be2le.cpp
index f2d1c60..501dea1 100755
--- a/deprecated/be2le/be2le.cpp
+++ b/deprecated/be2le/be2le.cpp
@@ -16,6 +16,7 @@
  */
 
 #include <iostream>
+#include <filesystem>
 #include <fstream>
 #include <string>
 
@@ -30,6 +31,12 @@ int main(int argc, const char *argv[])
   }
   const std::string &inputFilename = argv[1];
   const std::string &outputFilename = argv[2];
+  std::error_code sameFileError;
+  if (std::filesystem::equivalent(inputFilename, outputFilename, sameFileError))
+  {
+    std::cerr << "ERROR: output file '" << outputFilename << "' is the input file." << std::endl;
+    return EXIT_FAILURE;
+  }
   std::ifstream in(inputFilename, std::ios::binary);
   std::ofstream out(outputFilename, std::ios::binary | std::ios::trunc);
   std::cout << "Input file:  " << inputFilename << std::endl
diff --git a/extras/pwned-markov-generator/pwned-markov-generator.cpp b/extras/pwned-markov-generator/pwned-markov-generator.cpp
index 5900841..9b55aef 100644
--- a/extras/pwned-markov-generator/pwned-markov-generator.cpp
+++ b/extras/pwned-markov-generator/pwned-markov-generator.cpp
@@ -131,6 +131,12 @@ int main(int argc, char* argv[])
     return EXIT_FAILURE;
   }
 
+  boost::system::error_code sameFileError;
+  if (boost::filesystem::equivalent(inputFilename, outputFilename, sameFileError))
+  {
+    std::cerr << "ERROR: output file '" << outputFilename << "' is the input file." << std::endl;
+    return EXIT_FAILURE;
+  }
   std::ifstream inputFile(inputFilename);
   if (!inputFile.is_open())
   {
diff --git a/extras/pwned-test-set-extractor/test-set-extractor.cpp b/extras/pwned-test-set-extractor/test-set-extractor.cpp
index bdf7537..d5fbb50 100755
--- a/extras/pwned-test-set-extractor/test-set-extractor.cpp
+++ b/extras/pwned-test-set-extractor/test-set-extractor.cpp
@@ -125,6 +125,12 @@ int main(int argc, const char *argv[])
     std::cerr << "ERROR: number of data sets must be positive." << std::endl;
     return EXIT_FAILURE;
   }
+  boost::system::error_code sameFileError;
+  if (boost::filesystem::equivalent(inputFilename, outputFilename, sameFileError))
+  {
+    std::cerr << "ERROR: output file '" << outputFilename << "' is the input file." << std::endl;
+    return EXIT_FAILURE;
+  }
   const std::streamoff fileSize = (std::streamoff)boost::filesystem::file_size(inputFilename);
   const std::streamoff size = fileSize - fileSize % std::streamoff(pwned::PHC::size);
   const std::streamoff offset = std::max<std::streamoff>(size / N, std::streamoff(pwned::PHC::size));
diff --git a/pwned-index/index.cpp b/pwned-index/index.cpp
index a2e1e60..2c186c3 100644
--- a/pwned-index/index.cpp
+++ b/pwned-index/index.cpp
@@ -127,6 +127,13 @@ int main(int argc, const char *argv[])
     return EXIT_FAILURE;
   }
 
+  boost::system::error_code sameFileError;
+  if (boost::filesystem::equivalent(inputFilename, outputFilename, sameFileError))
+  {
+    std::cerr << "ERROR: output file '" << outputFilename << "' is the input file." << std::endl;
+    return EXIT_FAILURE;
+  }
+
   const unsigned int shift = (unsigned int)(sizeof(pwned::index_key_t) * 8 - bits);
   const pwned::index_key_t maxIdx = pwned::index_key_t(1) + (std::numeric_limits<pwned::index_key_t>::max() >> shift);
 
-- 
2.43.0


From 006a03883d9f407bb049deeae12bb9e47809706d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:04 +0000
Subject: [PATCH 55/57] fix: the password extractor must not read what it
 writes

---
 extras/pwned-password-extractor/pwned-password-extractor.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/extras/pwned-password-extractor/pwned-password-extractor.cpp b/extras/pwned-password-extractor/pwned-password-extractor.cpp
index 5dee908..73138c3 100644
--- a/extras/pwned-password-extractor/pwned-password-extractor.cpp
+++ b/extras/pwned-password-extractor/pwned-password-extractor.cpp
@@ -146,6 +146,11 @@ int main(int argc, const char *argv[])
     const std::string &filePath = f.path().string();
     if (fs::is_regular_file(f) && ba::ends_with(filePath, ".txt"))
     {
+      if (fs::exists(outputFilename) && fs::equivalent(filePath, outputFilename))
+      {
+        std::cerr << std::endl << "ERROR: output file '" << outputFilename << "' is one of the input files." << std::endl;
+        return EXIT_FAILURE;
+      }
       inputFilenames.push_back(filePath);
     }
   }
-- 
2.43.0


From f0f1b2d0d32fb80a1d09d07074e3ab052e54b170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:41 +0000
Subject: [PATCH 56/57] fix: an operation may fail by an exception of any type

---
 pwned-lib/operation.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pwned-lib/operation.cpp b/pwned-lib/operation.cpp
index f4f4dfa..d54def2 100755
--- a/pwned-lib/operation.cpp
+++ b/pwned-lib/operation.cpp
@@ -78,6 +78,11 @@ void Operation::start() noexcept
     isFailed = true;
     std::cerr << "Exception in Operation::execute(): " << e.what() << std::endl;
   }
+  catch (...)
+  {
+    isFailed = true;
+    std::cerr << "Unknown exception in Operation::execute()" << std::endl;
+  }
   std::lock_guard<std::mutex> lock(mtx);
   isRunning = false;
   isFinished = true;
-- 
2.43.0


From 1d7792d245a9c4a7d971dee1178d788b3247b908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:41 +0000
Subject: [PATCH 57/57] fix: the Markov generator must not divide by an output
 interval of 0

---
 extras/pwned-markov-generator/pwned-markov-generator.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/extras/pwned-markov-generator/pwned-markov-generator.cpp b/extras/pwned-markov-generator/pwned-markov-generator.cpp
index 9b55aef..9e77e22 100644
--- a/extras/pwned-markov-generator/pwned-markov-generator.cpp
+++ b/extras/pwned-markov-generator/pwned-markov-generator.cpp
@@ -131,6 +131,12 @@ int main(int argc, char* argv[])
     return EXIT_FAILURE;
   }
 
+  if (outputEvery < 1)
+  {
+    std::cerr << "ERROR: number of passwords between two outputs must be positive." << std::endl;
+    return EXIT_FAILURE;
+  }
+
   boost::system::error_code sameFileError;
   if (boost::filesystem::equivalent(inputFilename, outputFilename, sameFileError))
   {
-- 
2.43.0

