From a6304d6639e00c771ed6902b53aa3dfff19391d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:25 +0000
Subject: [PATCH 01/81] fix: destroying an unused lane_write_buffer
 dereferenced a null lane

---
 common/buffered_lane.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/common/buffered_lane.h b/common/buffered_lane.h
index ea2cd4b..e3ae9d0 100644
--- a/common/buffered_lane.h
+++ b/common/buffered_lane.h
@@ -61,7 +61,9 @@ class lane_write_buffer {
   }
 
   void flush() {
-    _lane->move_write(&_buffer[0], _buffer.size());
+    // An empty buffer may have no lane yet (default construction).
+    if (_buffer.empty()) return;
+    _lane->move_write(_buffer.data(), _buffer.size());
     _buffer.clear();
   }
 
-- 
2.43.0


From 4afc4d9b73d16d6cecb61a1c5590a81958b85f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:39 +0000
Subject: [PATCH 02/81] fix: parameter set lookups read the map after releasing
 the lock

---
 common/ParameterSet.h      |  8 ++---
 common/ParameterSetImpl.cc | 14 ++++----
 common/ParameterSetImpl.h  | 67 ++++++++++++++++++++------------------
 3 files changed, 47 insertions(+), 42 deletions(-)

diff --git a/common/ParameterSet.h b/common/ParameterSet.h
index 3e276ce..ba886c2 100644
--- a/common/ParameterSet.h
+++ b/common/ParameterSet.h
@@ -80,8 +80,8 @@ class ParameterSet {
 
   /// Get the ParameterValue.
   /// @{
-  const ParameterValue& get(const std::string& aKey) const;
-  const ParameterValue& operator[](const std::string& aKey) const;
+  ParameterValue get(const std::string& aKey) const;
+  ParameterValue operator[](const std::string& aKey) const;
   /// @}
 
   /// Key comparison mode.
@@ -363,10 +363,10 @@ inline ParameterSet::const_iterator ParameterSet::end() const {
   return itsSet->end();
 }
 
-inline const ParameterValue& ParameterSet::get(const std::string& aKey) const {
+inline ParameterValue ParameterSet::get(const std::string& aKey) const {
   return itsSet->get(aKey);
 }
-inline const ParameterValue& ParameterSet::operator[](
+inline ParameterValue ParameterSet::operator[](
     const std::string& aKey) const {
   return itsSet->get(aKey);
 }
diff --git a/common/ParameterSetImpl.cc b/common/ParameterSetImpl.cc
index 44ddfd9..90d943a 100644
--- a/common/ParameterSetImpl.cc
+++ b/common/ParameterSetImpl.cc
@@ -315,7 +315,7 @@ void ParameterSetImpl::addMerge(const std::string& key,
 //
 // findKV(key) [private]
 //
-ParameterSetImpl::const_iterator ParameterSetImpl::findKV(
+std::optional<ParameterSetImpl::value_type> ParameterSetImpl::findKV(
     const std::string& aKey, bool doThrow) const {
   // Thread-safety.
   std::lock_guard<std::mutex> locker(itsMutex);
@@ -326,11 +326,11 @@ ParameterSetImpl::const_iterator ParameterSetImpl::findKV(
     if (doThrow) {
       throw APSException("Key " + aKey + " unknown");
     }
-  } else {
-    itsAskedParms.insert(aKey);
+    return std::nullopt;
   }
 
-  return (iter);
+  itsAskedParms.insert(aKey);
+  return *iter;
 }
 
 //
@@ -409,8 +409,8 @@ void ParameterSetImpl::remove(const std::string& aKey) {
   std::vector<TPL> ParameterSetImpl::get##TPC##Vector(                         \
       const std::string& aKey, const std::vector<TPL>& aValue,                 \
       bool expandable) const {                                                 \
-    const_iterator it = findKV(aKey, false);                                   \
-    if (it == end()) return aValue;                                            \
+    const auto it = findKV(aKey, false);                                       \
+    if (!it) return aValue;                                                    \
     ParameterValue value(it->second);                                          \
     if (expandable) value = value.expand();                                    \
     return value.get##TPC##Vector();                                           \
@@ -601,6 +601,7 @@ int32_t indexValue(const std::string& label, const char indexMarker[2]) {
 // Searches for a key ending in the given 'shortkey' and returns it full name.
 // e.g: a.b.c.d.param=xxxx --> locateModule(d)-->a.b.c.
 std::string ParameterSetImpl::locateModule(const std::string& shortKey) const {
+  std::lock_guard<std::mutex> locker(itsMutex);
   const_iterator iter = begin();
   const_iterator eom = end();
   while ((iter != eom)) {
@@ -625,6 +626,7 @@ std::string ParameterSetImpl::locateModule(const std::string& shortKey) const {
 // e.g: a.b.c.d.param=xxxx --> fullModuleName(d.param)-->
 std::string ParameterSetImpl::fullModuleName(
     const std::string& shortKey) const {
+  std::lock_guard<std::mutex> locker(itsMutex);
   const_iterator iter = begin();
   const_iterator eom = end();
   while ((iter != eom)) {
diff --git a/common/ParameterSetImpl.h b/common/ParameterSetImpl.h
index 741b35d..e814001 100644
--- a/common/ParameterSetImpl.h
+++ b/common/ParameterSetImpl.h
@@ -13,6 +13,7 @@
 #include <map>
 #include <memory>
 #include <mutex>
+#include <optional>
 #include <set>
 
 namespace dp3 {
@@ -73,7 +74,7 @@ class ParameterSetImpl : public KVMap {
 
   /// Get the ParameterValue.
   /// @{
-  const ParameterValue& get(const std::string& aKey) const;
+  ParameterValue get(const std::string& aKey) const;
 
   /// Return the key comparison mode.
   KeyCompare::Mode keyCompareMode() const { return itsMode; }
@@ -165,6 +166,7 @@ class ParameterSetImpl : public KVMap {
 
   /// Checks if the given Key is defined in the ParameterSetImpl.
   bool isDefined(const std::string& searchKey) const {
+    std::lock_guard<std::mutex> locker(itsMutex);
     return (find(searchKey) != end());
   };
 
@@ -314,9 +316,11 @@ class ParameterSetImpl : public KVMap {
   /// @}
 
   /// Find the key \p aKey. If \p doThrow \c == \c true (the default) an
-  /// exception is thrown when \p aKey is not found. Otherwise, end() is
-  /// returned.
-  const_iterator findKV(const std::string& aKey, bool doThrow = true) const;
+  /// exception is thrown when \p aKey is not found. Otherwise, an empty
+  /// optional is returned. The key/value pair is copied while holding the
+  /// lock, since another thread may replace or remove it at any time.
+  std::optional<value_type> findKV(const std::string& aKey,
+                                   bool doThrow = true) const;
 
   /// Merge in a key/value. A warning is logged if already existing
   /// and merge=false.
@@ -390,8 +394,7 @@ int32_t indexValue(const std::string& label, const char indexMarker[2]);
 
 /// @} addgroup
 
-inline const ParameterValue& ParameterSetImpl::get(
-    const std::string& aKey) const {
+inline ParameterValue ParameterSetImpl::get(const std::string& aKey) const {
   return findKV(aKey)->second;
 }
 
@@ -401,8 +404,8 @@ inline bool ParameterSetImpl::getBool(const std::string& aKey) const {
 
 inline bool ParameterSetImpl::getBool(const std::string& aKey,
                                       bool aValue) const {
-  const_iterator it = findKV(aKey, false);
-  if (it == end()) return aValue;
+  const auto it = findKV(aKey, false);
+  if (!it) return aValue;
   return it->second.getBool();
 }
 
@@ -411,8 +414,8 @@ inline int ParameterSetImpl::getInt(const std::string& aKey) const {
 }
 
 inline int ParameterSetImpl::getInt(const std::string& aKey, int aValue) const {
-  const_iterator it = findKV(aKey, false);
-  if (it == end()) return aValue;
+  const auto it = findKV(aKey, false);
+  if (!it) return aValue;
   return it->second.getInt();
 }
 
@@ -422,8 +425,8 @@ inline unsigned int ParameterSetImpl::getUint(const std::string& aKey) const {
 
 inline unsigned int ParameterSetImpl::getUint(const std::string& aKey,
                                               unsigned int aValue) const {
-  const_iterator it = findKV(aKey, false);
-  if (it == end()) return aValue;
+  const auto it = findKV(aKey, false);
+  if (!it) return aValue;
   return it->second.getUint();
 }
 
@@ -433,8 +436,8 @@ inline int16_t ParameterSetImpl::getInt16(const std::string& aKey) const {
 
 inline int16_t ParameterSetImpl::getInt16(const std::string& aKey,
                                           int16_t aValue) const {
-  const_iterator it = findKV(aKey, false);
-  if (it == end()) return aValue;
+  const auto it = findKV(aKey, false);
+  if (!it) return aValue;
   return it->second.getInt16();
 }
 
@@ -444,8 +447,8 @@ inline uint16_t ParameterSetImpl::getUint16(const std::string& aKey) const {
 
 inline uint16_t ParameterSetImpl::getUint16(const std::string& aKey,
                                             uint16_t aValue) const {
-  const_iterator it = findKV(aKey, false);
-  if (it == end()) return aValue;
+  const auto it = findKV(aKey, false);
+  if (!it) return aValue;
   return it->second.getUint16();
 }
 
@@ -455,8 +458,8 @@ inline int32_t ParameterSetImpl::getInt32(const std::string& aKey) const {
 
 inline int32_t ParameterSetImpl::getInt32(const std::string& aKey,
                                           int32_t aValue) const {
-  const_iterator it = findKV(aKey, false);
-  if (it == end()) return aValue;
+  const auto it = findKV(aKey, false);
+  if (!it) return aValue;
   return it->second.getInt32();
 }
 
@@ -466,8 +469,8 @@ inline uint32_t ParameterSetImpl::getUint32(const std::string& aKey) const {
 
 inline uint32_t ParameterSetImpl::getUint32(const std::string& aKey,
                                             uint32_t aValue) const {
-  const_iterator it = findKV(aKey, false);
-  if (it == end()) return aValue;
+  const auto it = findKV(aKey, false);
+  if (!it) return aValue;
   return it->second.getUint32();
 }
 
@@ -477,8 +480,8 @@ inline int64_t ParameterSetImpl::getInt64(const std::string& aKey) const {
 
 inline int64_t ParameterSetImpl::getInt64(const std::string& aKey,
                                           int64_t aValue) const {
-  const_iterator it = findKV(aKey, false);
-  if (it == end()) return aValue;
+  const auto it = findKV(aKey, false);
+  if (!it) return aValue;
   return it->second.getInt64();
 }
 
@@ -488,8 +491,8 @@ inline uint64_t ParameterSetImpl::getUint64(const std::string& aKey) const {
 
 inline uint64_t ParameterSetImpl::getUint64(const std::string& aKey,
                                             uint64_t aValue) const {
-  const_iterator it = findKV(aKey, false);
-  if (it == end()) return aValue;
+  const auto it = findKV(aKey, false);
+  if (!it) return aValue;
   return it->second.getUint64();
 }
 
@@ -499,8 +502,8 @@ inline float ParameterSetImpl::getFloat(const std::string& aKey) const {
 
 inline float ParameterSetImpl::getFloat(const std::string& aKey,
                                         float aValue) const {
-  const_iterator it = findKV(aKey, false);
-  if (it == end()) return aValue;
+  const auto it = findKV(aKey, false);
+  if (!it) return aValue;
   return it->second.getFloat();
 }
 
@@ -510,8 +513,8 @@ inline double ParameterSetImpl::getDouble(const std::string& aKey) const {
 
 inline double ParameterSetImpl::getDouble(const std::string& aKey,
                                           double aValue) const {
-  const_iterator it = findKV(aKey, false);
-  if (it == end()) return aValue;
+  const auto it = findKV(aKey, false);
+  if (!it) return aValue;
   return it->second.getDouble();
 }
 
@@ -521,8 +524,8 @@ inline std::string ParameterSetImpl::getString(const std::string& aKey) const {
 
 inline std::string ParameterSetImpl::getString(
     const std::string& aKey, const std::string& aValue) const {
-  const_iterator it = findKV(aKey, false);
-  if (it == end()) return aValue;
+  const auto it = findKV(aKey, false);
+  if (!it) return aValue;
   return it->second.getString();
 }
 
@@ -532,8 +535,8 @@ inline time_t ParameterSetImpl::getTime(const std::string& aKey) const {
 
 inline time_t ParameterSetImpl::getTime(const std::string& aKey,
                                         const time_t& aValue) const {
-  const_iterator it = findKV(aKey, false);
-  if (it == end()) return aValue;
+  const auto it = findKV(aKey, false);
+  if (!it) return aValue;
   return it->second.getTime();
 }
 
-- 
2.43.0


From 0b2129ba4b08f77a821d4203de923cf18d31ec45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:08 +0000
Subject: [PATCH 03/81] fix: adopting a parameter set read it without taking
 its lock

---
 common/ParameterSetImpl.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/common/ParameterSetImpl.cc b/common/ParameterSetImpl.cc
index 90d943a..b57729e 100644
--- a/common/ParameterSetImpl.cc
+++ b/common/ParameterSetImpl.cc
@@ -158,13 +158,19 @@ void ParameterSetImpl::adoptBuffer(const std::string& theBuffer,
 //
 void ParameterSetImpl::adoptCollection(const ParameterSetImpl& theCollection,
                                        const std::string& thePrefix) {
+  // Take a copy of the other collection under its own lock, before locking
+  // this collection: holding both locks could deadlock.
+  KVMap other(itsMode);
+  if (&theCollection != this) {
+    std::lock_guard<std::mutex> locker(theCollection.itsMutex);
+    other = theCollection;
+  }
   // Thread-safety.
   std::lock_guard<std::mutex> locker(itsMutex);
   // Cannot adopt itself.
   if (&theCollection != this) {
-    for (const_iterator iter = theCollection.begin();
-         iter != theCollection.end(); ++iter) {
-      replaceUnlocked(thePrefix + iter->first, iter->second);
+    for (const value_type& pair : other) {
+      replaceUnlocked(thePrefix + pair.first, pair.second);
     }
   } else if (!thePrefix.empty()) {
     // However, adopt itself if a prefix is given.
-- 
2.43.0


From 737a2cd95e94c1af4707ba363f09c46ef702b020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:08 +0000
Subject: [PATCH 04/81] fix: a read error in a parset file silently truncated
 the parset

---
 common/ParameterSetImpl.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/common/ParameterSetImpl.cc b/common/ParameterSetImpl.cc
index b57729e..c7247ed 100644
--- a/common/ParameterSetImpl.cc
+++ b/common/ParameterSetImpl.cc
@@ -218,6 +218,11 @@ void ParameterSetImpl::readFile(const std::string& theFilename,
 
   readStream(paramFile, prefix, merge);
 
+  // Do not take a file that could only be read partly for a shorter file.
+  if (paramFile.bad()) {
+    throw APSException("Error while reading file " + theFilename);
+  }
+
   paramFile.close();
 }
 
-- 
2.43.0


From 464d165f502a7af7f1f5a5509f7f7272b28d8d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:08 +0000
Subject: [PATCH 05/81] fix: a failed write of a parset file was reported as
 success

---
 common/ParameterSetImpl.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/ParameterSetImpl.cc b/common/ParameterSetImpl.cc
index c7247ed..20f90e7 100644
--- a/common/ParameterSetImpl.cc
+++ b/common/ParameterSetImpl.cc
@@ -465,6 +465,9 @@ void ParameterSetImpl::writeFile(const std::string& theFilename,
 
   // Close the file
   paramFile.close();
+  if (!paramFile) {
+    throw APSException("Error while writing file " + theFilename);
+  }
 }
 
 //
-- 
2.43.0


From cdcb7cd2301fe9e3f821f4b6fa3d2b8e6d3da0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:14 +0000
Subject: [PATCH 06/81] fix: the magic number of an AARTFAAC file was compared
 with itself

---
 aartfaac/PacketHeader.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aartfaac/PacketHeader.h b/aartfaac/PacketHeader.h
index 5c198d3..d594414 100644
--- a/aartfaac/PacketHeader.h
+++ b/aartfaac/PacketHeader.h
@@ -115,7 +115,7 @@ struct PacketHeader {
   }
 
   void Check() {
-    if (magic != Magic()) {
+    if (magic != kHeaderMagicTag) {
       ThrowMagicError();
     }
     if (correlation_mode != 15) {
-- 
2.43.0


From 2d1b84f7cedde59667eed6b5da6ad4dd564e6cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:14 +0000
Subject: [PATCH 07/81] fix: the number of AARTFAAC time steps ignored the size
 of the headers

---
 aartfaac/File.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/aartfaac/File.h b/aartfaac/File.h
index fff6aa6..3342797 100644
--- a/aartfaac/File.h
+++ b/aartfaac/File.h
@@ -95,9 +95,12 @@ class File {
     return Timestep{TimeToCasa(h.StartTime()), TimeToCasa(h.EndTime())};
   }
 
-  bool HasMore() const { return blockPosition_ < (filesize_ / blockSize_); }
+  bool HasMore() const { return blockPosition_ < NTimesteps(); }
 
-  size_t NTimesteps() const { return filesize_ / blockSize_; }
+  /// Number of complete time steps in the file; each has its own header.
+  size_t NTimesteps() const {
+    return filesize_ / (sizeof(PacketHeader) + blockSize_);
+  }
 
   size_t VisPerTimestep() const { return header_.VisPerTimestep(); }
 
-- 
2.43.0


From 833359f33aaea3f30eb55b02e088c40364d0445d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:14 +0000
Subject: [PATCH 08/81] fix: an unreadable AARTFAAC header was used as if it
 had been read

---
 aartfaac/File.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/aartfaac/File.h b/aartfaac/File.h
index 3342797..a893e94 100644
--- a/aartfaac/File.h
+++ b/aartfaac/File.h
@@ -9,6 +9,7 @@
 #include <fstream>
 #include <iostream>
 #include <stdexcept>
+#include <string>
 
 #include "base/RcuMode.h"
 
@@ -40,6 +41,9 @@ class File {
     // Read first header
     file_.seekg(0, std::ios::beg);
     file_.read(reinterpret_cast<char *>(&header_), sizeof(PacketHeader));
+    if (!file_) {
+      throw std::runtime_error("Error reading the header of file " + filename_);
+    }
 
     header_.Check();
 
@@ -58,6 +62,9 @@ class File {
     // Read first header
     file_.seekg(0, std::ios::beg);
     file_.read(reinterpret_cast<char *>(&header_), sizeof(PacketHeader));
+    if (!file_) {
+      throw std::runtime_error("Error reading the header of file " + filename_);
+    }
 
     header_.Check();
 
-- 
2.43.0


From e546a4facba7d6b08de441da88a769dd15124f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:14 +0000
Subject: [PATCH 09/81] fix: the AARTFAAC file constructor without a mode did
 not open the file

---
 aartfaac/File.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aartfaac/File.h b/aartfaac/File.h
index a893e94..3120a74 100644
--- a/aartfaac/File.h
+++ b/aartfaac/File.h
@@ -56,6 +56,8 @@ class File {
 
   explicit File(const char *filename)
       : filename_(filename), mode_(base::RcuMode::Unused) {
+    file_.open(filename);
+
     file_.seekg(0, std::ios::end);
     filesize_ = file_.tellg();
 
@@ -69,6 +71,8 @@ class File {
     header_.Check();
 
     blockSize_ = sizeof(std::complex<float>) * header_.VisPerTimestep();
+    bandwidth_ = header_.ChannelBandwidth();
+    frequency_ = header_.FirstChannelFrequency();
 
     SeekToTimestep(0);
   }
-- 
2.43.0


From 45c1ab9bd9621c489e9ad7f3b904d3f20816694f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:41 +0000
Subject: [PATCH 10/81] fix: BdaExpander maps all output channels when averaged
 widths are not a multiple of the output width

---
 steps/BdaExpander.cc | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/steps/BdaExpander.cc b/steps/BdaExpander.cc
index 278eb29..347ffd9 100644
--- a/steps/BdaExpander.cc
+++ b/steps/BdaExpander.cc
@@ -7,6 +7,7 @@
 
 #include "BdaExpander.h"
 
+#include <algorithm>
 #include <cassert>
 #include <cmath>
 #include <iostream>
@@ -60,25 +61,21 @@ void BdaExpander::updateInfo(const DPInfo& info_in) {
   next_time_slot_to_process_ = 0;
   channels_mapping_.resize(info_in.nbaselines());
   for (unsigned int k = 0; k < info_in.nbaselines(); k++) {
-    int next_chan = 0;
     // Store the mapping between averaged and non averaged channels in the
     // variable channels_mapping_
-    for (size_t i = 0; i < info_in.chanWidths(k).size(); i++) {
-      const int n_averaged_channels =
-          std::round(info_in.chanWidths(k)[i] / single_channel_bw);
-      if (n_averaged_channels == 1) {
-        // non-bda-averaged channel
-        channels_mapping_[k].push_back(next_chan);
-
-      } else {
-        // bda-averaged channels
-        for (int p = 0; p < n_averaged_channels; p++) {
-          // The same bda-averaged channel will be copied over multiple channels
-          // in the regular output
-          channels_mapping_[k].push_back(next_chan);
-        }
-      }
-      next_chan++;
+    const std::vector<double>& bda_widths = info_in.chanWidths(k);
+    double bandwidth = 0.0;
+    for (size_t i = 0; i < bda_widths.size(); i++) {
+      bandwidth += bda_widths[i];
+      // The same bda-averaged channel will be copied over multiple channels
+      // in the regular output. When the averaged widths are not a multiple of
+      // the output width, still map each averaged channel to at least one
+      // output channel and map all output channels.
+      const size_t n_mapped = std::clamp<size_t>(
+          std::round(bandwidth / single_channel_bw),
+          channels_mapping_[k].size() + 1,
+          info_in.nchan() - (bda_widths.size() - 1 - i));
+      channels_mapping_[k].resize(n_mapped, i);
     }
   }
 
-- 
2.43.0


From 4eef2994c2a73c264d1710fd3a7ffebbbf63ea29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:41 +0000
Subject: [PATCH 11/81] fix: BdaAverager averages the UVW of rows without
 unflagged data

---
 steps/BDAAverager.cc | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/steps/BDAAverager.cc b/steps/BDAAverager.cc
index 0427218..7a777f0 100644
--- a/steps/BDAAverager.cc
+++ b/steps/BDAAverager.cc
@@ -337,7 +337,6 @@ void BdaAverager::AddBaseline(std::size_t baseline_nr) {
   const std::size_t n_channels = getInfoOut().chanFreqs(baseline_nr).size();
 
   // Divide data values by their total weight.
-  float total_weight = 0.0f;
   for (std::size_t index = 0; index < bb.weights.size(); ++index) {
     const float weight = bb.weights[index];
     if (weight > 0) {
@@ -345,15 +344,12 @@ void BdaAverager::AddBaseline(std::size_t baseline_nr) {
         data_name_vector.second[index] /= weight;
       }
     }
-    total_weight += weight;
   }
 
-  if (total_weight > 0) {
-    const double factor = 1.0 / bb.times_added;
-    bb.uvw[0] *= factor;
-    bb.uvw[1] *= factor;
-    bb.uvw[2] *= factor;
-  }
+  const double factor = 1.0 / bb.times_added;
+  bb.uvw[0] *= factor;
+  bb.uvw[1] *= factor;
+  bb.uvw[2] *= factor;
 
   if (bda_buffer_->GetRemainingCapacity() < n_channels * getInfoOut().ncorr()) {
     getNextStep()->process(std::move(bda_buffer_));
-- 
2.43.0


From a5437124db8b0701382bc50bbff08ea77c63a2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:37 +0000
Subject: [PATCH 12/81] fix: MadFlagger medians only use the data points in the
 window

---
 steps/MadFlagger.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/steps/MadFlagger.cc b/steps/MadFlagger.cc
index 5504ed3..ebdd369 100644
--- a/steps/MadFlagger.cc
+++ b/steps/MadFlagger.cc
@@ -404,6 +404,7 @@ void MadFlagger::computeFactors(const std::vector<unsigned int>& timeEntries,
   // Collect all non-flagged data points for given baseline, channel,
   // and correlation in the window around the channel.
   unsigned int np = 0;
+  tempBuffer.resize(itsFreqWindow * timeEntries.size());
   // At the beginning or end of the window the values are wrapped.
   // So we might need to move in two parts.
   // This little piece of code is tested in tMirror.cc.
@@ -450,6 +451,9 @@ void MadFlagger::computeFactors(const std::vector<unsigned int>& timeEntries,
   } else {
     medianTimer.start();
     // Get median of data and get median of absolute difference.
+    // Only use the collected points: The rest of the buffer contains values of
+    // other points, possibly of other baselines.
+    tempBuffer.resize(np);
     Z1 = dp3::common::Median(tempBuffer);
     for (unsigned int i = 0; i < np; ++i) {
       tempBuffer[i] = std::abs(tempBuffer[i] - Z1);
-- 
2.43.0


From eaa2fb15aa1cdffb238b1eb942f9f56fc5f685f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:37 +0000
Subject: [PATCH 13/81] fix: MadFlagger used the correlation numbers as indices
 in the list of correlations

---
 steps/MadFlagger.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/steps/MadFlagger.cc b/steps/MadFlagger.cc
index ebdd369..92864aa 100644
--- a/steps/MadFlagger.cc
+++ b/steps/MadFlagger.cc
@@ -137,8 +137,8 @@ void MadFlagger::updateInfo(const DPInfo& infoIn) {
   } else {
     for (const unsigned int ip : itsFlagCorr) {
       // Only take valid corrrelations.
-      if (itsFlagCorr[ip] < ncorr) {
-        flagCorr.push_back(itsFlagCorr[ip]);
+      if (ip < ncorr) {
+        flagCorr.push_back(ip);
       }
     }
     // If no valid left, use first one.
-- 
2.43.0


From ffb59f1d889234e28d77c9249a51430af9e49306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:42 +0000
Subject: [PATCH 14/81] fix: MadFlagger handled fewer time slots than the time
 window wrongly

---
 steps/MadFlagger.cc | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/steps/MadFlagger.cc b/steps/MadFlagger.cc
index 92864aa..933e52b 100644
--- a/steps/MadFlagger.cc
+++ b/steps/MadFlagger.cc
@@ -200,8 +200,14 @@ void MadFlagger::finish() {
   itsTimer.start();
   // Adjust window size if there are fewer time entries.
   if (itsNTimes < itsTimeWindow) {
-    itsTimeWindow = 1 + ((itsNTimes - 1) / 2) * 2;  // make sure it is odd
+    // Make sure it is odd.
+    itsTimeWindow = 1 + ((std::max(itsNTimes, 1u) - 1) / 2) * 2;
+    for (unsigned int& timeWindow : itsTimeWindowArr) {
+      timeWindow = std::min(timeWindow, itsTimeWindow);
+    }
   }
+  // The window can be smaller than the number of (wrapped) buffers.
+  const unsigned int nBuffers = itsBuffers.size();
   unsigned int halfWindow = itsTimeWindow / 2;
   std::vector<unsigned int> timeEntries(itsTimeWindow);
   // Process possible leading entries.
@@ -209,31 +215,29 @@ void MadFlagger::finish() {
   while (itsNTimesDone < itsNTimes - halfWindow) {
     // Process in the same way as in process.
     unsigned int inx = 0;
-    timeEntries[inx++] = itsNTimesDone % itsTimeWindow;  // center
+    timeEntries[inx++] = itsNTimesDone % nBuffers;  // center
     for (unsigned int i = 1; i <= halfWindow; ++i) {
-      timeEntries[inx++] =
-          std::abs(int(itsNTimesDone) - int(i)) % itsTimeWindow;
-      timeEntries[inx++] = (itsNTimesDone + i) % itsTimeWindow;
+      timeEntries[inx++] = std::abs(int(itsNTimesDone) - int(i)) % nBuffers;
+      timeEntries[inx++] = (itsNTimesDone + i) % nBuffers;
     }
-    flag(itsNTimesDone, timeEntries);
+    flag(itsNTimesDone % nBuffers, timeEntries);
     itsNTimesDone++;
   }
   assert(itsNTimes - itsNTimesDone == halfWindow);
   // Process the remaining time entries.
   while (itsNTimesDone < itsNTimes) {
     unsigned int inx = 0;
-    timeEntries[inx++] = itsNTimesDone % itsTimeWindow;  // center
+    timeEntries[inx++] = itsNTimesDone % nBuffers;  // center
     for (unsigned int i = 1; i <= halfWindow; ++i) {
-      timeEntries[inx++] =
-          std::abs(int(itsNTimesDone) - int(i)) % itsTimeWindow;
+      timeEntries[inx++] = std::abs(int(itsNTimesDone) - int(i)) % nBuffers;
       // Time entries might need to be mirrored at the end.
       unsigned int ri = itsNTimesDone + i;
       if (ri >= itsNTimes) {
         ri = 2 * (itsNTimes - 1) - ri;
       }
-      timeEntries[inx++] = ri % itsTimeWindow;
+      timeEntries[inx++] = ri % nBuffers;
     }
-    flag(itsNTimesDone % itsTimeWindow, timeEntries);
+    flag(itsNTimesDone % nBuffers, timeEntries);
     itsNTimesDone++;
   }
   itsTimer.stop();
-- 
2.43.0


From 11dcf8cb2009f4c7c3db1d2e1698ba45fb84b64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:42 +0000
Subject: [PATCH 15/81] fix: Median of an even number of values could use a too
 large value

---
 common/Median.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/common/Median.h b/common/Median.h
index 56ad3e6..3be38bd 100644
--- a/common/Median.h
+++ b/common/Median.h
@@ -24,7 +24,9 @@ T Median(std::vector<T>& v) {
     return *target;
   } else {
     auto before = target - 1;
-    std::nth_element(v.begin(), before, v.end());
+    // Only search before target: A search in the entire vector may move the
+    // element at target.
+    std::nth_element(v.begin(), before, target);
     return (*target + *before) / static_cast<T>(2);
   }
 }
-- 
2.43.0


From bad118ff14b396b10c61950e1f46368ff29f019f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:37 +0000
Subject: [PATCH 16/81] fix: Upsample crashed when it finished without input

---
 steps/Upsample.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/steps/Upsample.cc b/steps/Upsample.cc
index 80e236c..b5de808 100644
--- a/steps/Upsample.cc
+++ b/steps/Upsample.cc
@@ -159,8 +159,8 @@ bool Upsample::process(std::unique_ptr<base::DPBuffer> buffer) {
 }
 
 void Upsample::finish() {
-  // Flush prev_buffers_
-  for (unsigned int i = first_to_flush_; i < time_step_; ++i) {
+  // Flush prev_buffers_, which is empty if there was no input
+  for (unsigned int i = first_to_flush_; i < prev_buffers_.size(); ++i) {
     getNextStep()->process(std::move(prev_buffers_[i]));
   }
 
-- 
2.43.0


From a615fd8e5eeeb9cbeeb900b381cbbcc01981786e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:37 +0000
Subject: [PATCH 17/81] fix: a VDS description lost the accuracy of the time
 step

---
 common/VdsPartDesc.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/common/VdsPartDesc.cc b/common/VdsPartDesc.cc
index 2cd0424..b0e3786 100644
--- a/common/VdsPartDesc.cc
+++ b/common/VdsPartDesc.cc
@@ -67,7 +67,12 @@ void VdsPartDesc::write(std::ostream& os, const std::string& prefix) const {
      << MVTime(itsStartTime / 86400) << endl;
   os << prefix << "EndTime    = " << MVTime::Format(MVTime::YMD, 9)
      << MVTime(itsEndTime / 86400) << endl;
-  os << prefix << "StepTime   = " << itsStepTime << endl;
+  {
+    // The times are relative to multiples of the step, so it must be accurate.
+    const streamsize oldPrec = os.precision(15);
+    os << prefix << "StepTime   = " << itsStepTime << endl;
+    os.precision(oldPrec);
+  }
   if (!itsStartTimes.empty()) {
     os << prefix << "StartTimesDiff=[";
     streamsize oldPrec = os.precision(5);
-- 
2.43.0


From 920f023ba928d34a1b28ee6d359b37f184d55be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:56 +0000
Subject: [PATCH 18/81] fix: a failed write of a VDS description was reported
 as success

---
 common/VdsMaker.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/common/VdsMaker.cc b/common/VdsMaker.cc
index 4bc0e0a..592a3ca 100644
--- a/common/VdsMaker.cc
+++ b/common/VdsMaker.cc
@@ -300,6 +300,9 @@ void VdsMaker::create(const std::string& msName, const std::string& outName,
   if (!ostr)
     throw std::runtime_error("File " + outName + " could not be created");
   msd.write(ostr, "");
+  ostr.close();
+  if (!ostr)
+    throw std::runtime_error("File " + outName + " could not be written");
 }
 
 void VdsMaker::combine(const std::string& gdsName,
@@ -391,6 +394,9 @@ void VdsMaker::combine(const std::string& gdsName,
   if (!ostr)
     throw std::runtime_error("File " + gdsName + " could not be created");
   gdesc.write(ostr);
+  ostr.close();
+  if (!ostr)
+    throw std::runtime_error("File " + gdsName + " could not be written");
 }
 
 }  // namespace common
-- 
2.43.0


From b51a7922e46c2c44a4c9837ce8dfc2848a7344b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:36 +0000
Subject: [PATCH 19/81] fix: mount points that merely start with /auto lost
 their first part

---
 common/NodeDesc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/NodeDesc.cc b/common/NodeDesc.cc
index ade7eee..cc35810 100644
--- a/common/NodeDesc.cc
+++ b/common/NodeDesc.cc
@@ -49,7 +49,7 @@ void NodeDesc::addFileSys(const std::string& fsName,
                           const std::string& mountPoint) {
   assert(fsName.size() > 0);
   string mp(mountPoint);
-  if (mp.size() > 5 && mp.substr(0, 5) == "/auto") {
+  if (mp.size() > 5 && mp.substr(0, 6) == "/auto/") {
     mp = mp.substr(5);
   }
   assert(mp.size() > 0 && mp[0] == '/');
-- 
2.43.0


From 7366b5089b103ab96e2c152b879960cdd8e8583e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:36 +0000
Subject: [PATCH 20/81] fix: a combined VDS description lost the accuracy of
 time differences

---
 common/VdsPartDesc.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/VdsPartDesc.cc b/common/VdsPartDesc.cc
index b0e3786..e7ba766 100644
--- a/common/VdsPartDesc.cc
+++ b/common/VdsPartDesc.cc
@@ -75,7 +75,7 @@ void VdsPartDesc::write(std::ostream& os, const std::string& prefix) const {
   }
   if (!itsStartTimes.empty()) {
     os << prefix << "StartTimesDiff=[";
-    streamsize oldPrec = os.precision(5);
+    streamsize oldPrec = os.precision(12);
     double diff = itsStartTime;
     for (unsigned int i = 0; i < itsStartTimes.size(); ++i) {
       if (i != 0) os << ',';
@@ -87,7 +87,7 @@ void VdsPartDesc::write(std::ostream& os, const std::string& prefix) const {
   }
   if (!itsEndTimes.empty()) {
     os << prefix << "EndTimesDiff=[";
-    streamsize oldPrec = os.precision(5);
+    streamsize oldPrec = os.precision(12);
     double diff = itsStartTime;
     for (unsigned int i = 0; i < itsEndTimes.size(); ++i) {
       if (i != 0) os << ',';
-- 
2.43.0


From 5c263a405790690fc9d0878f0e16b7c4780b0c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:51 +0000
Subject: [PATCH 21/81] fix: combining only empty data sets was not refused

---
 common/VdsMaker.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/VdsMaker.cc b/common/VdsMaker.cc
index 592a3ca..9aa9faf 100644
--- a/common/VdsMaker.cc
+++ b/common/VdsMaker.cc
@@ -356,7 +356,7 @@ void VdsMaker::combine(const std::string& gdsName,
   }
   // Exit if no valid VDS files.
   if (vpds.empty()) throw std::runtime_error("No VDS files are given");
-  if (startTime == 0)
+  if (endTime == 0)
     throw std::runtime_error("All datasets seems to be empty");
 
   // Set the times in the global desc (using the first part).
-- 
2.43.0


From e7d58ee914a9a0da5c07d7c1dabd236e23b6d1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:22 +0000
Subject: [PATCH 22/81] fix: an error in the write thread of MSWriter
 terminated the program

---
 steps/MSWriter.cc | 11 ++++++++++-
 steps/MSWriter.h  |  7 +++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/steps/MSWriter.cc b/steps/MSWriter.cc
index d9ed47b..080cfe6 100644
--- a/steps/MSWriter.cc
+++ b/steps/MSWriter.cc
@@ -236,6 +236,7 @@ void MSWriter::FinishMs() {
   common::NSTimer::StartStop sstime(timer_);
 
   StopWriteThread();
+  if (write_failed_) std::rethrow_exception(write_exception_);
   ms_.flush();
 
   // Create the VDS file.
@@ -824,13 +825,21 @@ void MSWriter::StopWriteThread() {
 void MSWriter::WriteQueueProcess() {
   std::unique_ptr<base::DPBuffer> buffer;
   while (write_queue_.read(buffer)) {
-    ProcessBuffer(*buffer);
+    // After an error, only empty the queue: CreateTask() must not block.
+    if (write_failed_) continue;
+    try {
+      ProcessBuffer(*buffer);
+    } catch (...) {
+      write_exception_ = std::current_exception();
+      write_failed_ = true;
+    }
   }
 }
 
 void MSWriter::CreateTask(std::unique_ptr<base::DPBuffer> buffer) {
   const common::NSTimer::StartStop timer(create_task_timer_);
 
+  if (write_failed_) std::rethrow_exception(write_exception_);
   write_queue_.write(std::move(buffer));
 }
 
diff --git a/steps/MSWriter.h b/steps/MSWriter.h
index bee7047..575563f 100644
--- a/steps/MSWriter.h
+++ b/steps/MSWriter.h
@@ -7,6 +7,8 @@
 
 #include "OutputStep.h"
 
+#include <atomic>
+#include <exception>
 #include <memory>
 #include <thread>
 
@@ -259,6 +261,11 @@ class MSWriter : public OutputStep {
   ///   violation.
   bool is_write_thread_active_{false};
 
+  /// Did writing fail in the write thread? If so, \ref write_exception_ holds
+  /// the error, which is rethrown in the main thread.
+  std::atomic<bool> write_failed_{false};
+  std::exception_ptr write_exception_;
+
   /// Stops the write thread when it is active.
   void StopWriteThread();
 };
-- 
2.43.0


From 1a3fd68a2855617e1543b20c4e5421dd45df5fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:49 +0000
Subject: [PATCH 23/81] fix: MSWriter terminated the program when its write
 thread could not be started

---
 steps/MSWriter.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/steps/MSWriter.cc b/steps/MSWriter.cc
index 080cfe6..4b5d1f1 100644
--- a/steps/MSWriter.cc
+++ b/steps/MSWriter.cc
@@ -227,8 +227,8 @@ void MSWriter::StartNewMs() {
 
   use_write_thread_ = dynamic_cast<NullStep*>(getNextStep().get()) != nullptr;
   if (use_write_thread_) {
-    is_write_thread_active_ = true;
     write_queue_thread_ = std::thread(&MSWriter::WriteQueueProcess, this);
+    is_write_thread_active_ = true;
   }
 }
 
-- 
2.43.0


From 49f479808a89172ff5f785653d7ade99bdf3b745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:35 +0000
Subject: [PATCH 24/81] fix: MsReader dropped the last time slot if its time
 was slightly early

---
 steps/MsReader.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/steps/MsReader.cc b/steps/MsReader.cc
index a006e4e..623affd 100644
--- a/steps/MsReader.cc
+++ b/steps/MsReader.cc
@@ -228,7 +228,8 @@ bool MsReader::process(std::unique_ptr<DPBuffer> buffer) {
     // Stop if at the end, i.e. the above loop completed without hitting an end
     // condition at all, or if there is no data at all.
     if ((next_time_ > getInfoOut().lastTime() &&
-         !casacore::near(next_time_, getInfoOut().lastTime())) ||
+         !casacore::nearAbs(next_time_, getInfoOut().lastTime(),
+                            time_tolerance_)) ||
         next_time_ == 0.0) {
       return false;
     }
-- 
2.43.0


From 3e799fb49b5310da96832b02158b001e2e03bbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:14 +0000
Subject: [PATCH 25/81] fix: rounding errors could exclude the time slot given
 by msin.endtime

---
 steps/MsReader.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/steps/MsReader.cc b/steps/MsReader.cc
index 623affd..9ee2023 100644
--- a/steps/MsReader.cc
+++ b/steps/MsReader.cc
@@ -525,8 +525,14 @@ void MsReader::ParseTimeSelection(const common::ParameterSet& parset,
           " is before the first timestep in the measurement set");
     }
     // Round specified last time to a multiple of 'interval'.
+    const double end_time = last_time;
     last_time =
-        first_time + std::floor((last_time - first_time) / interval) * interval;
+        first_time + std::floor((end_time - first_time) / interval) * interval;
+    // Handle rounding errors: If the specified time is close to the next time
+    // slot, use that time slot.
+    if (casacore::near(end_time, last_time + interval)) {
+      last_time += interval;
+    }
   } else if (nTimes > 0) {
     last_time = first_time + (nTimes - 1) * interval;
   }
-- 
2.43.0


From be6a56af65aa1abe5c4468489a511e142e9cc91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:29 +0000
Subject: [PATCH 26/81] fix: MsReader could use a time slot again after two
 slots that are out of order

---
 steps/MsReader.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/steps/MsReader.cc b/steps/MsReader.cc
index 9ee2023..6b37604 100644
--- a/steps/MsReader.cc
+++ b/steps/MsReader.cc
@@ -6,6 +6,7 @@
 
 #include "MsReader.h"
 
+#include <algorithm>
 #include <iostream>
 #include <tuple>
 
@@ -221,7 +222,7 @@ bool MsReader::process(std::unique_ptr<DPBuffer> buffer) {
         }
       }
       // Skip this time slot.
-      previous_time_ = mstime;
+      previous_time_ = std::max(previous_time_, mstime);
       ms_iterator_.next();
     }
 
@@ -896,7 +897,7 @@ void MsReader::SkipFirstTimes(double& first_time, const double interval) {
     }
 
     // Skip this time slot.
-    previous_time_ = ms_time;
+    previous_time_ = std::max(previous_time_, ms_time);
     ms_iterator_.next();
   }
 }
-- 
2.43.0


From 80e755b636c3fcd128d99092ae8c9e724f1f9860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:24 +0000
Subject: [PATCH 27/81] fix: MSUpdater overwrote data it had not read when
 msin.weightcolumn is WEIGHT

---
 steps/MSUpdater.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/steps/MSUpdater.cc b/steps/MSUpdater.cc
index 25a4ab2..1f91975 100644
--- a/steps/MSUpdater.cc
+++ b/steps/MSUpdater.cc
@@ -281,8 +281,10 @@ Specify a name in the parset for "msout".)");
 
   if (itsWeightColName.empty()) {
     if (infoIn.weightColumnName() == "WEIGHT") {
+      // Weights, if they are written, cannot be stored in the WEIGHT column.
+      // The fields to write cannot be extended here, since the reader already
+      // knows which fields it should read.
       itsWeightColName = "WEIGHT_SPECTRUM";
-      SetFieldsToWrite(GetFieldsToWrite() | kWeightsField);
     } else {
       itsWeightColName = infoIn.weightColumnName();
     }
-- 
2.43.0


From 3b29677cb53d6d4d8f1dc2a1bb6e0c821308dfba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:26 +0000
Subject: [PATCH 28/81] fix: the columnreader step failed on time slots that
 are missing in the MS

---
 steps/MsColumnReader.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/steps/MsColumnReader.cc b/steps/MsColumnReader.cc
index d7a902f..69c98ca 100644
--- a/steps/MsColumnReader.cc
+++ b/steps/MsColumnReader.cc
@@ -32,9 +32,14 @@ bool MsColumnReader::process(std::unique_ptr<DPBuffer> buffer) {
   casacore::Cube<casacore::Complex> data(shape, buffer->GetData().data(),
                                          casacore::SHARE);
 
-  assert(buffer->GetRowNumbers().size() == buffer->GetData().shape(0));
+  if (buffer->GetRowNumbers().empty()) {
+    // The reader inserted this time slot, since it is missing in the MS.
+    buffer->GetData().fill(std::complex<float>());
+  } else {
+    assert(buffer->GetRowNumbers().size() == buffer->GetData().shape(0));
 
-  model_column_.getColumnCells(buffer->GetRowNumbers(), data);
+    model_column_.getColumnCells(buffer->GetRowNumbers(), data);
+  }
 
   getNextStep()->process(std::move(buffer));
 
-- 
2.43.0


From 08430be64bd64093324594301f97992c803d57d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:33 +0000
Subject: [PATCH 29/81] fix: SetBeam did not finish the steps after it

---
 steps/SetBeam.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/steps/SetBeam.h b/steps/SetBeam.h
index 0171aa5..8c6e829 100644
--- a/steps/SetBeam.h
+++ b/steps/SetBeam.h
@@ -33,7 +33,7 @@ class SetBeam final : public Step {
 
   bool process(std::unique_ptr<base::DPBuffer> buffer) override;
 
-  void finish() override{};
+  void finish() override { getNextStep()->finish(); }
 
   void updateInfo(const base::DPInfo& info) override;
 
-- 
2.43.0


From 3a2e26164a8a3ac70a2b079fff6aeadf343f7881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:33 +0000
Subject: [PATCH 30/81] fix: MadFlagger discarded existing flags if no other
 step used them

---
 steps/MadFlagger.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/steps/MadFlagger.h b/steps/MadFlagger.h
index adb0aed..a47b219 100644
--- a/steps/MadFlagger.h
+++ b/steps/MadFlagger.h
@@ -65,7 +65,9 @@ class MadFlagger : public Step {
 
   ~MadFlagger() override;
 
-  common::Fields getRequiredFields() const override { return kDataField; }
+  common::Fields getRequiredFields() const override {
+    return kDataField | kFlagsField;
+  }
 
   common::Fields getProvidedFields() const override { return kFlagsField; }
 
-- 
2.43.0


From 980aace404cb73270d4b6d5f266062e0e1a8f515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:16 +0000
Subject: [PATCH 31/81] fix: BdaAverager read outside extra data buffers that
 have another shape

---
 steps/BDAAverager.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/steps/BDAAverager.cc b/steps/BDAAverager.cc
index 7a777f0..c384f48 100644
--- a/steps/BDAAverager.cc
+++ b/steps/BDAAverager.cc
@@ -244,6 +244,12 @@ bool BdaAverager::process(std::unique_ptr<base::DPBuffer> buffer) {
         buffer->GetWeights().shape() != expected_input_shape_))) {
     throw std::runtime_error("BdaAverager: Invalid buffer shape");
   }
+  for (const std::string& name : data_names_) {
+    if (buffer->GetData(name).shape() != expected_input_shape_) {
+      throw std::runtime_error("BdaAverager: Invalid shape of data buffer '" +
+                               name + "'");
+    }
+  }
 
   for (std::size_t b = 0; b < baseline_buffers_.size(); ++b) {
     BaselineBuffer& bb = baseline_buffers_[b];
-- 
2.43.0


From ecb578c143bcc7bcce97518385c8aaeed8dcacee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:47 +0000
Subject: [PATCH 32/81] fix: extra data columns were only read if a step used
 the main data

---
 steps/MsReader.cc      | 45 +++++++++++++++++++++---------------------
 steps/MultiMsReader.cc | 25 ++++++++++++-----------
 2 files changed, 35 insertions(+), 35 deletions(-)

diff --git a/steps/MsReader.cc b/steps/MsReader.cc
index 6b37604..eee2ce5 100644
--- a/steps/MsReader.cc
+++ b/steps/MsReader.cc
@@ -174,15 +174,16 @@ bool MsReader::process(std::unique_ptr<DPBuffer> buffer) {
   // Determine what to read. Depends on what later steps in the chain need.
   if (getFieldsToRead().Data()) {
     buffer->GetData().resize(shape);
-    for (std::string columnName : extra_data_column_names_) {
-      // The extra data buffer could already exist, for instance because
-      // MultiMsReader reuses existing buffers.
-      if (!buffer->HasData(columnName)) {
-        buffer->AddData(columnName);
-      } else {
-        buffer->GetData(columnName).resize(shape);
-      }
+  }
+  // Extra data is always read: A step that uses it does not need to use the
+  // main data, or the main data may be provided by another step.
+  for (std::string columnName : extra_data_column_names_) {
+    // The extra data buffer could already exist, for instance because
+    // MultiMsReader reuses existing buffers.
+    if (!buffer->HasData(columnName)) {
+      buffer->AddData(columnName);
     }
+    buffer->GetData(columnName).resize(shape);
   }
   if (getFieldsToRead().Flags()) {
     buffer->GetFlags().resize(shape);
@@ -244,9 +245,9 @@ bool MsReader::process(std::unique_ptr<DPBuffer> buffer) {
       buffer->GetFlags().fill(true);
       if (getFieldsToRead().Data()) {
         buffer->GetData().fill(std::complex<float>());
-        for (std::string columnName : extra_data_column_names_) {
-          buffer->GetData(columnName).fill(std::complex<float>());
-        }
+      }
+      for (std::string columnName : extra_data_column_names_) {
+        buffer->GetData(columnName).fill(std::complex<float>());
       }
       n_inserted_++;
     } else {
@@ -332,18 +333,16 @@ bool MsReader::process(std::unique_ptr<DPBuffer> buffer) {
       }
 
       // Get extra data (e.g. model data) from the MS.
-      if (getFieldsToRead().Data()) {
-        const casacore::IPosition casa_shape(3, shape[2], shape[1], shape[0]);
-        for (std::string columnName : extra_data_column_names_) {
-          ArrayColumn<casacore::Complex> extraDataCol(ms_iterator_.table(),
-                                                      columnName);
-          casacore::Cube<casacore::Complex> casa_data(
-              casa_shape, buffer->GetData(columnName).data(), casacore::SHARE);
-          if (use_all_channels_) {
-            extraDataCol.getColumn(casa_data);
-          } else {
-            extraDataCol.getColumn(column_slicer_, casa_data);
-          }
+      const casacore::IPosition casa_shape(3, shape[2], shape[1], shape[0]);
+      for (std::string columnName : extra_data_column_names_) {
+        ArrayColumn<casacore::Complex> extraDataCol(ms_iterator_.table(),
+                                                    columnName);
+        casacore::Cube<casacore::Complex> casa_data(
+            casa_shape, buffer->GetData(columnName).data(), casacore::SHARE);
+        if (use_all_channels_) {
+          extraDataCol.getColumn(casa_data);
+        } else {
+          extraDataCol.getColumn(column_slicer_, casa_data);
         }
       }
 
diff --git a/steps/MultiMsReader.cc b/steps/MultiMsReader.cc
index 923fb0a..ef87c07 100644
--- a/steps/MultiMsReader.cc
+++ b/steps/MultiMsReader.cc
@@ -280,9 +280,10 @@ bool MultiMsReader::process(std::unique_ptr<DPBuffer> buffer) {
                                     getInfoOut().nchan(), getInfoOut().ncorr()};
   if (getFieldsToRead().Data()) {
     buffer->GetData().resize(shape);
-    for (const std::string& column_name : extra_data_column_names) {
-      buffer->AddData(column_name);
-    }
+  }
+  for (const std::string& column_name : extra_data_column_names) {
+    buffer->AddData(column_name);
+    buffer->GetData(column_name).resize(shape);
   }
   if (getFieldsToRead().Flags()) {
     buffer->GetFlags().resize(shape);
@@ -313,10 +314,10 @@ bool MultiMsReader::process(std::unique_ptr<DPBuffer> buffer) {
       if (getFieldsToRead().Data()) {
         xt::view(buffer->GetData(), xt::all(), channel_range, xt::all()) =
             msBuf.GetData();
-        for (const std::string& column_name : extra_data_column_names) {
-          xt::view(buffer->GetData(column_name), xt::all(), channel_range,
-                   xt::all()) = msBuf.GetData(column_name);
-        }
+      }
+      for (const std::string& column_name : extra_data_column_names) {
+        xt::view(buffer->GetData(column_name), xt::all(), channel_range,
+                 xt::all()) = msBuf.GetData(column_name);
       }
       if (getFieldsToRead().Flags()) {
         xt::view(buffer->GetFlags(), xt::all(), channel_range, xt::all()) =
@@ -329,11 +330,11 @@ bool MultiMsReader::process(std::unique_ptr<DPBuffer> buffer) {
       if (getFieldsToRead().Data()) {
         xt::view(buffer->GetData(), xt::all(), channel_range, xt::all())
             .fill(std::complex<float>());
-        for (const std::string& column_name : extra_data_column_names) {
-          xt::view(buffer->GetData(column_name), xt::all(), channel_range,
-                   xt::all())
-              .fill(std::complex<float>());
-        }
+      }
+      for (const std::string& column_name : extra_data_column_names) {
+        xt::view(buffer->GetData(column_name), xt::all(), channel_range,
+                 xt::all())
+            .fill(std::complex<float>());
       }
       if (getFieldsToRead().Flags()) {
         xt::view(buffer->GetFlags(), xt::all(), channel_range, xt::all())
-- 
2.43.0


From 13e1fe5278dd27743b20a4089a28b20623ded1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:47 +0000
Subject: [PATCH 33/81] fix: Filter read outside the row numbers if baselines
 were added before it

---
 steps/Filter.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/steps/Filter.cc b/steps/Filter.cc
index 304e14a..1919b5b 100644
--- a/steps/Filter.cc
+++ b/steps/Filter.cc
@@ -166,8 +166,11 @@ bool Filter::process(std::unique_ptr<DPBuffer> buffer) {
     // Filtering on baseline and/or channel; copy all data for selected
     // baselines and channels to make them contiguous. UVW needs to be filtered
     // as well as it is dependent on baselines.
+    // If an earlier step added baselines, these do not have row numbers.
+    const bool has_row_numbers =
+        buffer->GetRowNumbers().size() == getInfoIn().nbaselines();
     casacore::Vector<common::rownr_t> rowNrs;
-    if (!buffer->GetRowNumbers().empty()) {
+    if (has_row_numbers) {
       rowNrs.resize(getInfoOut().nbaselines());
     }
     // Copy the data of the selected baselines and channels.
@@ -184,7 +187,7 @@ bool Filter::process(std::unique_ptr<DPBuffer> buffer) {
     int ndto =
         filter_buffer->GetData().shape(2) * filter_buffer->GetData().shape(1);
     for (std::size_t i = 0; i < itsSelBL.size(); ++i) {
-      if (!buffer->GetRowNumbers().empty()) {
+      if (has_row_numbers) {
         rowNrs[i] = buffer->GetRowNumbers()[itsSelBL[i]];
       }
       std::copy_n(frData + itsSelBL[i] * ndfr, ndto, toData);
-- 
2.43.0


From 27f992e15464ebbbba35fdadcd34cecd34a022f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:42 +0000
Subject: [PATCH 34/81] fix: updating some channels of a flagged row unflagged
 its other channels

---
 steps/MSUpdater.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/steps/MSUpdater.cc b/steps/MSUpdater.cc
index 1f91975..157afc8 100644
--- a/steps/MSUpdater.cc
+++ b/steps/MSUpdater.cc
@@ -374,12 +374,17 @@ void MSUpdater::putFlags(const RefRows& rowNrs, const Cube<bool>& flags) {
     casacore::Vector<common::rownr_t> rows = rowNrs.convert();
     casacore::ReadOnlyArrayIterator<bool> flagIter(flags, 2);
     for (common::rownr_t i = 0; i < rows.size(); ++i) {
-      flagCol.putSlice(rows[i], colSlicer, flagIter.array());
       // If a new flag in a row is clear, the ROW_FLAG should not be set.
       // If all new flags are set, we leave it because we might have a
       // subset of the channels, so other flags might still be clear.
-      if (anyEQ(flagIter.array(), false)) {
+      if (anyEQ(flagIter.array(), false) && flagRowCol(rows[i])) {
+        // The other channels in the row, if any, should remain flagged.
+        casacore::Array<bool> row_flags(flagCol.shape(rows[i]), true);
+        row_flags(colSlicer) = flagIter.array();
+        flagCol.put(rows[i], row_flags);
         flagRowCol.put(rows[i], false);
+      } else {
+        flagCol.putSlice(rows[i], colSlicer, flagIter.array());
       }
       flagIter.next();
     }
-- 
2.43.0


From 3fe841f5c71cee68cdbe072cf731e63c0d315ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:52 +0000
Subject: [PATCH 35/81] fix: adding stations kept the baseline lengths of the
 old baselines

---
 base/DPInfo.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/DPInfo.cc b/base/DPInfo.cc
index 0163300..3ba9e22 100644
--- a/base/DPInfo.cc
+++ b/base/DPInfo.cc
@@ -266,6 +266,9 @@ void DPInfo::setAntennas(const std::vector<std::string>& antNames,
   antenna_positions_ = antPos;
   antenna1_ = ant1;
   antenna2_ = ant2;
+  // Clear; they'll be recalculated if needed.
+  baseline_lengths_.clear();
+  auto_correlation_indices_.clear();
   // Set which antennae are used.
   setAntUsed();
 }
-- 
2.43.0


From fe9ddb518f8c9f300de757b7ccab214f75dd38b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:56 +0000
Subject: [PATCH 36/81] fix: replace unknown solutions by the mean amplitude of
 their own polarization

MakeSolutionsFinite2Pol and 4Pol used the amplitude of the first
polarization for all elements. An unknown full-Jones solution so became a
singular matrix with four equal elements.
---
 ddecal/gain_solvers/SolverBase.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ddecal/gain_solvers/SolverBase.cc b/ddecal/gain_solvers/SolverBase.cc
index 093754c..9166e67 100644
--- a/ddecal/gain_solvers/SolverBase.cc
+++ b/ddecal/gain_solvers/SolverBase.cc
@@ -351,7 +351,7 @@ void SolverBase::MakeSolutionsFinite2Pol(
     for (std::vector<DComplex>::iterator iter = solution_vector.begin();
          iter != solution_vector.end(); iter += 2) {
       if (IsFinite(*iter) && IsFinite(*(iter + 1))) {
-        for (size_t p = 0; p != 2; ++p) average[p] += std::abs(iter[0]);
+        for (size_t p = 0; p != 2; ++p) average[p] += std::abs(iter[p]);
         ++count;
       }
     }
@@ -382,7 +382,7 @@ void SolverBase::MakeSolutionsFinite4Pol(
     for (std::vector<DComplex>::iterator iter = solution_vector.begin();
          iter != solution_vector.end(); iter += 4) {
       if (aocommon::Matrix2x2::IsFinite(&*iter)) {
-        for (size_t p = 0; p != 4; ++p) average[p] += std::abs(iter[0]);
+        for (size_t p = 0; p != 4; ++p) average[p] += std::abs(iter[p]);
         ++count;
       }
     }
-- 
2.43.0


From 9a2b26ded7dfc2b4f61f09a594508c20fd4448b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:56 +0000
Subject: [PATCH 37/81] fix: reset the stall statistics at the start of each
 solve

They were only reset when the constraints were satisfied in the first
iteration. Otherwise the statistics of an earlier solve, or uninitialized
values, decided whether a solve had stalled.
---
 ddecal/gain_solvers/SolverBase.cc | 17 +++++------------
 ddecal/gain_solvers/SolverBase.h  | 10 ++++++++++
 2 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/ddecal/gain_solvers/SolverBase.cc b/ddecal/gain_solvers/SolverBase.cc
index 9166e67..af04662 100644
--- a/ddecal/gain_solvers/SolverBase.cc
+++ b/ddecal/gain_solvers/SolverBase.cc
@@ -62,18 +62,11 @@ void SolverBase::Initialize(
 
 bool SolverBase::DetectStall(size_t iteration,
                              const std::vector<double>& step_magnitudes) {
-  if (iteration == 1) {
-    /* starting a new solve cycle, so reset */
-    n_var_count_ = 1;
-    step_mean_ = step_magnitudes[iteration - 1];
-    step_var_ = 0.0;
-  } else {
-    n_var_count_ += 1;
-    double delta_1 = step_magnitudes[iteration - 1] - step_mean_;
-    step_mean_ += delta_1 / (double)n_var_count_;
-    double delta_2 = step_magnitudes[iteration - 1] - step_mean_;
-    step_var_ += delta_1 * delta_2;
-  }
+  n_var_count_ += 1;
+  double delta_1 = step_magnitudes[iteration - 1] - step_mean_;
+  step_mean_ += delta_1 / (double)n_var_count_;
+  double delta_2 = step_magnitudes[iteration - 1] - step_mean_;
+  step_var_ += delta_1 * delta_2;
 
   if (iteration < 30) {
     return false;
diff --git a/ddecal/gain_solvers/SolverBase.h b/ddecal/gain_solvers/SolverBase.h
index a099fed..03eea77 100644
--- a/ddecal/gain_solvers/SolverBase.h
+++ b/ddecal/gain_solvers/SolverBase.h
@@ -236,6 +236,12 @@ class SolverBase {
   bool DetectStall(size_t iteration,
                    const std::vector<double>& step_magnitudes);
 
+  void ResetStallStatistics() {
+    n_var_count_ = 0;
+    step_mean_ = 0.0;
+    step_var_ = 0.0;
+  }
+
   static void MakeSolutionsFinite1Pol(
       std::vector<std::vector<DComplex>>& solutions);
 
@@ -274,6 +280,10 @@ class SolverBase {
   bool ReachedStoppingCriterion(size_t iteration, bool has_converged,
                                 bool constraints_satisfied,
                                 const std::vector<double>& step_magnitudes) {
+    // Start the step statistics of a new solve here, because DetectStall() is
+    // not called in iterations in which the constraints aren't satisfied.
+    if (iteration == 1) ResetStallStatistics();
+
     bool has_stalled = false;
     if (detect_stalling_ && constraints_satisfied)
       has_stalled = DetectStall(iteration, step_magnitudes);
-- 
2.43.0


From b43b36c2bad17572f1c917bcd10fe841d9a34f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:22 +0000
Subject: [PATCH 38/81] fix: subtract the iterations of one stage from the
 hybrid solver's budget

The total of all stages so far was subtracted each time, which could make
the unsigned number of available iterations wrap around, so that later
stages exceeded the maximum.
---
 ddecal/gain_solvers/HybridSolver.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ddecal/gain_solvers/HybridSolver.cc b/ddecal/gain_solvers/HybridSolver.cc
index d9ecd54..bcd39d9 100644
--- a/ddecal/gain_solvers/HybridSolver.cc
+++ b/ddecal/gain_solvers/HybridSolver.cc
@@ -53,7 +53,7 @@ bool HybridSolver::RunSolver(SolverBase& solver, size_t& available_iterations,
   result.results = std::move(nextResult.results);
   const bool is_converged = nextResult.iterations <= solver.GetMaxIterations();
   if (is_converged)
-    available_iterations -= result.iterations;
+    available_iterations -= nextResult.iterations;
   else  // If not converged, the solver has taken the maximum nr of
         // iterations.
     available_iterations -= solver.GetMaxIterations();
-- 
2.43.0


From ceec5dbe36c294ae2072e31501ee77ebc5876753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:56 +0000
Subject: [PATCH 39/81] fix: DDECal: use the mean time of each solution
 interval

The times were accumulated as t = t + t + time, the initial solutions were
read for the sum instead of the mean, and a shorter last interval and several
buffered intervals were not taken into account.
---
 steps/DDECal.cc | 22 ++++++++++++----------
 steps/DDECal.h  |  6 ++----
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/steps/DDECal.cc b/steps/DDECal.cc
index 3a19ce6..1a64b02 100644
--- a/steps/DDECal.cc
+++ b/steps/DDECal.cc
@@ -60,7 +60,6 @@ namespace steps {
 
 DDECal::DDECal(const common::ParameterSet& parset, const std::string& prefix)
     : settings_(parset, prefix),
-      average_time_(0),
       solutions_(),
       initial_solutions_(parset, prefix),
       requested_solution_interval_(settings_.solution_interval),
@@ -480,7 +479,7 @@ void DDECal::showTimings(std::ostream& os, double duration) const {
   os << "]" << '\n';
 }
 
-void DDECal::InitializeSolutions(size_t buffer_index) {
+void DDECal::InitializeSolutions(size_t buffer_index, double average_time) {
   const size_t solution_index = first_solution_index_ + buffer_index;
   assert(solution_index < solutions_.size());
 
@@ -501,7 +500,7 @@ void DDECal::InitializeSolutions(size_t buffer_index) {
     initial_solutions_.Read(settings_, solutions_[solution_index],
                             getInfoOut().GetUsedAntennaNames(),
                             channel_block_frequencies_, source_directions_,
-                            average_time_);
+                            average_time);
   } else {
     const size_t n_solutions = settings_.GetNSolutions();
     const size_t n_solution_values = n_solutions *
@@ -646,7 +645,13 @@ void DDECal::doSolve() {
       ddecal::AssignAndWeight(input_buffers_[i], direction_names_,
                               weighted_buffers, keep_model_data, linear_mode);
 
-      InitializeSolutions(i);
+      double average_time = 0.0;
+      for (size_t timestep = 0; timestep < original_size; ++timestep) {
+        average_time += input_buffers_[i][timestep]->GetTime();
+      }
+      average_time /= original_size;
+
+      InitializeSolutions(i, average_time);
 
       solve_timer_.start();
 
@@ -664,7 +669,7 @@ void DDECal::doSolve() {
 
           solveResult =
               solver_->Solve(solve_data, solutions_[solution_index],
-                             average_time_ / requested_solution_interval_);
+                             average_time);
         } break;
         case ddecal::SolverDataUse::kDual: {
           const ddecal::DuoSolveData solve_data(
@@ -680,7 +685,7 @@ void DDECal::doSolve() {
 
           solveResult =
               solver_->Solve(solve_data, solutions_[solution_index],
-                             average_time_ / requested_solution_interval_);
+                             average_time);
         } break;
         case ddecal::SolverDataUse::kFull: {
           const ddecal::FullSolveData solve_data(
@@ -696,7 +701,7 @@ void DDECal::doSolve() {
 
           solveResult =
               solver_->Solve(solve_data, solutions_[solution_index],
-                             average_time_ / requested_solution_interval_);
+                             average_time);
         } break;
       }
 
@@ -820,7 +825,6 @@ bool DDECal::process(std::unique_ptr<DPBuffer> bufin) {
 
     // Clean up, prepare for next iteration
     first_solution_index_ += input_buffers_.size();
-    average_time_ = 0;
     visibilities_in_interval_.assign(visibilities_in_interval_.size(),
                                      std::pair<size_t, size_t>(0, 0));
     weights_per_antenna_.assign(weights_per_antenna_.size(), 0.0);
@@ -963,8 +967,6 @@ void DDECal::doPrepare() {
   }
 
   predict_timer_.stop();
-
-  average_time_ += average_time_ + input_buffer->GetTime();
 }
 
 void DDECal::WriteSolutions() {
diff --git a/steps/DDECal.h b/steps/DDECal.h
index a6edd14..d98eff4 100644
--- a/steps/DDECal.h
+++ b/steps/DDECal.h
@@ -87,7 +87,8 @@ class DDECal : public Step {
   /// Based on progation settings, either copies the previous solution or
   /// writes default values to the new solution.
   /// @param buffer_index Index within the current solution interval set.
-  void InitializeSolutions(size_t buffer_index);
+  /// @param average_time Mean time of the time steps in the solution interval.
+  void InitializeSolutions(size_t buffer_index, double average_time);
 
   /// Write all solutions to an H5Parm file using itsSolutionWriter.
   void WriteSolutions();
@@ -131,9 +132,6 @@ class DDECal : public Step {
   /// channel x correlation )
   xt::xtensor<bool, 5> original_flags_;
 
-  /// The time of the current buffer (in case of solint, average time)
-  double average_time_;
-
   /// For each time, for each channel block, a vector of size nAntennas *
   /// SolverBase::NSolutions() * nPolarizations, with nPolarizations changing
   /// fastest.
-- 
2.43.0


From bcae6fa621d064135645a79e08151961bb349e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:49 +0000
Subject: [PATCH 40/81] fix: DDECal: count weights and visibilities per
 solution interval

The accumulated weights were scaled again at every time step, so that earlier
time steps of an interval hardly counted, and all buffered intervals shared the
same weights and visibility counts.
---
 steps/DDECal.cc | 84 ++++++++++++++++++++++++++-----------------------
 steps/DDECal.h  |  4 +++
 2 files changed, 49 insertions(+), 39 deletions(-)

diff --git a/steps/DDECal.cc b/steps/DDECal.cc
index 1a64b02..e12e4bb 100644
--- a/steps/DDECal.cc
+++ b/steps/DDECal.cc
@@ -549,6 +549,50 @@ void DDECal::flagChannelBlock(size_t cbIndex, size_t bufferIndex) {
   }
 }
 
+void DDECal::CountWeights(size_t bufferIndex) {
+  const size_t nBl = getInfoOut().nbaselines();
+  const size_t nCh = getInfoOut().nchan();
+  const size_t nCr = 4;
+
+  size_t nchanblocks = channel_block_frequencies_.size();
+
+  weights_per_antenna_.assign(weights_per_antenna_.size(), 0.0);
+  visibilities_in_interval_.assign(visibilities_in_interval_.size(),
+                                   std::pair<size_t, size_t>(0, 0));
+
+  for (const std::unique_ptr<DPBuffer>& input_buffer :
+       input_buffers_[bufferIndex]) {
+    for (size_t bl = 0; bl < nBl; ++bl) {
+      size_t chanblock = 0;
+      size_t ant1 = getInfoOut().antennaMap()[getInfoOut().getAnt1()[bl]];
+      size_t ant2 = getInfoOut().antennaMap()[getInfoOut().getAnt2()[bl]];
+      for (size_t ch = 0; ch < nCh; ++ch) {
+        if (ch == channel_block_start_[chanblock + 1]) {
+          chanblock++;
+        }
+        for (size_t cr = 0; cr < nCr; ++cr) {
+          // Add this weight to both involved antennas
+          const double weight = input_buffer->GetWeights()(bl, ch, cr) *
+                                !input_buffer->GetFlags()(bl, ch, cr);
+          weights_per_antenna_[ant1 * nchanblocks + chanblock] += weight;
+          weights_per_antenna_[ant2 * nchanblocks + chanblock] += weight;
+
+          visibilities_in_interval_[chanblock].first +=
+              (weight > 0);                               // unflagged nr of vis
+          visibilities_in_interval_[chanblock].second++;  // total nr of vis
+        }
+      }
+    }
+  }
+
+  const double weightFactor =
+      1. / (nCh * (getInfoOut().antennaUsed().size() - 1) * nCr *
+            requested_solution_interval_);
+  for (double& weight : weights_per_antenna_) {
+    weight *= weightFactor;
+  }
+}
+
 void DDECal::checkMinimumVisibilities(size_t bufferIndex) {
   for (size_t cb = 0; cb != channel_block_frequencies_.size(); ++cb) {
     double fraction = double(visibilities_in_interval_[cb].first) /
@@ -608,6 +652,7 @@ void DDECal::doSolve() {
 
     ddecal::SolverBase::SolveResult solveResult;
     if (!settings_.only_predict) {
+      CountWeights(i);
       if (settings_.min_vis_ratio > 0.0) {
         checkMinimumVisibilities(i);
       }
@@ -825,9 +870,6 @@ bool DDECal::process(std::unique_ptr<DPBuffer> bufin) {
 
     // Clean up, prepare for next iteration
     first_solution_index_ += input_buffers_.size();
-    visibilities_in_interval_.assign(visibilities_in_interval_.size(),
-                                     std::pair<size_t, size_t>(0, 0));
-    weights_per_antenna_.assign(weights_per_antenna_.size(), 0.0);
 
     for (std::shared_ptr<MultiResultStep>& result_step : result_steps_) {
       if (result_step) result_step->clear();
@@ -930,42 +972,6 @@ void DDECal::doPrepare() {
     }
   }
 
-  // Handle weights and flags
-  const size_t nBl = getInfoOut().nbaselines();
-  const size_t nCh = getInfoOut().nchan();
-  const size_t nCr = 4;
-
-  size_t nchanblocks = channel_block_frequencies_.size();
-
-  for (size_t bl = 0; bl < nBl; ++bl) {
-    size_t chanblock = 0;
-    size_t ant1 = getInfoOut().antennaMap()[getInfoOut().getAnt1()[bl]];
-    size_t ant2 = getInfoOut().antennaMap()[getInfoOut().getAnt2()[bl]];
-    for (size_t ch = 0; ch < nCh; ++ch) {
-      if (ch == channel_block_start_[chanblock + 1]) {
-        chanblock++;
-      }
-      for (size_t cr = 0; cr < nCr; ++cr) {
-        // Add this weight to both involved antennas
-        const double weight = input_buffer->GetWeights()(bl, ch, cr) *
-                              !input_buffer->GetFlags()(bl, ch, cr);
-        weights_per_antenna_[ant1 * nchanblocks + chanblock] += weight;
-        weights_per_antenna_[ant2 * nchanblocks + chanblock] += weight;
-
-        visibilities_in_interval_[chanblock].first +=
-            (weight > 0);                               // unflagged nr of vis
-        visibilities_in_interval_[chanblock].second++;  // total nr of vis
-      }
-    }
-  }
-
-  const double weightFactor =
-      1. / (nCh * (getInfoOut().antennaUsed().size() - 1) * nCr *
-            requested_solution_interval_);
-  for (double& weight : weights_per_antenna_) {
-    weight *= weightFactor;
-  }
-
   predict_timer_.stop();
 }
 
diff --git a/steps/DDECal.h b/steps/DDECal.h
index d98eff4..12f79a8 100644
--- a/steps/DDECal.h
+++ b/steps/DDECal.h
@@ -52,6 +52,10 @@ class DDECal : public Step {
 
   bool process(std::unique_ptr<base::DPBuffer> buffer) override;
 
+  /// Determines the weights per antenna and the number of visibilities of one
+  /// buffered solution interval.
+  void CountWeights(size_t bufferIndex);
+
   void checkMinimumVisibilities(size_t bufferIndex);
 
   void flagChannelBlock(size_t cbIndex, size_t bufferIndex);
-- 
2.43.0


From 376c22d60c80a4aa21eba71e942e3fc6efb16d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:23 +0000
Subject: [PATCH 41/81] fix: DDECal: use the solutions of the right antennas
 when some are unused

---
 steps/DDECal.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/steps/DDECal.cc b/steps/DDECal.cc
index e12e4bb..b856a13 100644
--- a/steps/DDECal.cc
+++ b/steps/DDECal.cc
@@ -1039,8 +1039,9 @@ aocommon::MC2x2 ApplyScalarSolution(
 void DDECal::ApplySolutionAndSubtract(
     DPBuffer& buffer, size_t baseline, size_t channel,
     const std::vector<std::complex<double>>& solutions) const {
-  const size_t antenna1 = getInfoOut().getAnt1()[baseline];
-  const size_t antenna2 = getInfoOut().getAnt2()[baseline];
+  // The solutions only contain the used antennas.
+  const size_t antenna1 = antennas1_[baseline];
+  const size_t antenna2 = antennas2_[baseline];
   const size_t n_directions = direction_names_.size();
 
   aocommon::MC2x2 sum_over_directions = aocommon::MC2x2::Zero();
-- 
2.43.0


From 8a88fc99eed26a813724ed6b64ad58867e4cfe5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:06 +0000
Subject: [PATCH 42/81] fix: SolutionResampler: keep the results of all
 constraints

The number of results of the first constraint, which can be zero, was used for
every constraint.
---
 ddecal/SolutionResampler.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ddecal/SolutionResampler.cc b/ddecal/SolutionResampler.cc
index 48970d7..15818d5 100644
--- a/ddecal/SolutionResampler.cc
+++ b/ddecal/SolutionResampler.cc
@@ -88,8 +88,6 @@ SolutionResampler::Upsample(
     const {
   const size_t n_intervals = solutions.size();
   const size_t n_constraints = n_intervals == 0 ? 0 : solutions.front().size();
-  const size_t n_constraint_sub_types =
-      n_constraints == 0 ? 0 : solutions.front().front().size();
   std::vector<std::vector<std::vector<ConstraintResult>>> upsampled;
   upsampled.resize(n_intervals * n_substeps_);
 
@@ -102,6 +100,9 @@ SolutionResampler::Upsample(
       upsampled[new_interval_index].resize(n_constraints);
       for (size_t constraint_index = 0; constraint_index != n_constraints;
            ++constraint_index) {
+        // Each constraint may have a different number of results.
+        const size_t n_constraint_sub_types =
+            solutions[interval_index][constraint_index].size();
         upsampled[new_interval_index][constraint_index].resize(
             n_constraint_sub_types);
         for (size_t sub_type_index = 0;
@@ -130,6 +131,8 @@ SolutionResampler::Upsample(
   // Do the upsampling
   for (size_t constraint_index = 0; constraint_index != n_constraints;
        ++constraint_index) {
+    const size_t n_constraint_sub_types =
+        solutions.front()[constraint_index].size();
     for (size_t sub_type_index = 0; sub_type_index != n_constraint_sub_types;
          ++sub_type_index) {
       for (size_t interval_index = 0; interval_index != n_intervals;
-- 
2.43.0


From 1028a29166c1f6eaa45ff89bc2e044670b07ff9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:43 +0000
Subject: [PATCH 43/81] fix: SolutionWriter: trim constraint results to the
 written times

---
 ddecal/SolutionWriter.cc | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/ddecal/SolutionWriter.cc b/ddecal/SolutionWriter.cc
index 75419dc..255830b 100644
--- a/ddecal/SolutionWriter.cc
+++ b/ddecal/SolutionWriter.cc
@@ -291,8 +291,8 @@ void SolutionWriter::WriteConstraintResults(
           constraint_solutions[0][constraint_index][name_index];
 
       std::vector<hsize_t> dims(first_result.dims.size() +
-                                1);           // Add time dimension at beginning
-      dims[0] = constraint_solutions.size();  // Number of times
+                                1);  // Add time dimension at beginning
+      dims[0] = n_times;
       size_t n_solutions = dims[0];
       for (size_t i = 1; i < dims.size(); ++i) {
         dims[i] = first_result.dims[i - 1];
@@ -303,8 +303,7 @@ void SolutionWriter::WriteConstraintResults(
           common::stringtools::tokenize(first_result.axes, ",");
 
       std::vector<schaapcommon::h5parm::AxisInfo> axes;
-      axes.push_back(
-          {"time", static_cast<unsigned>(constraint_solutions.size())});
+      axes.push_back({"time", static_cast<unsigned>(n_times)});
       for (size_t axis_index = 0; axis_index < first_axes_names.size();
            ++axis_index) {
         axes.push_back({first_axes_names[axis_index],
@@ -335,8 +334,7 @@ void SolutionWriter::WriteConstraintResults(
       if (!constraint_solutions.front()[constraint_index][name_index]
                .weights.empty()) {
         weights.reserve(n_solutions);
-        for (unsigned int time = 0; time < constraint_solutions.size();
-             ++time) {
+        for (size_t time = 0; time < n_times; ++time) {
           const std::vector<double>& cs_weights =
               constraint_solutions[time][constraint_index][name_index].weights;
           weights.insert(weights.end(), cs_weights.begin(), cs_weights.end());
-- 
2.43.0


From 754960c4461108068a96230e7e944e076dadf15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:15 +0000
Subject: [PATCH 44/81] fix: DDECal: do not write solutions without a solution
 file

---
 steps/DDECal.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/steps/DDECal.cc b/steps/DDECal.cc
index b856a13..45a3a50 100644
--- a/steps/DDECal.cc
+++ b/steps/DDECal.cc
@@ -1000,7 +1000,7 @@ void DDECal::finish() {
     doSolve();
   }
 
-  if (!settings_.only_predict) WriteSolutions();
+  if (!settings_.only_predict && solution_writer_) WriteSolutions();
 
   input_buffers_.clear();
   timer_.stop();
-- 
2.43.0


From cea85e0a33d6f55250ce95ac6a27fa072b5388db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:55 +0000
Subject: [PATCH 45/81] fix: DDECal, BdaDdeCal: make the solver for the used
 antennas

The solutions only contain the used antennas, so antenna indices and the number
of antenna averaging factors must refer to those.
---
 steps/BdaDdeCal.cc | 2 +-
 steps/DDECal.cc    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/steps/BdaDdeCal.cc b/steps/BdaDdeCal.cc
index 037a615..79c8749 100644
--- a/steps/BdaDdeCal.cc
+++ b/steps/BdaDdeCal.cc
@@ -195,7 +195,7 @@ void BdaDdeCal::updateInfo(const DPInfo& _info) {
   SetSourceDirections();
 
   if (!settings_.only_predict) {
-    solver_ = ddecal::CreateSolver(settings_, _info.antennaNames());
+    solver_ = ddecal::CreateSolver(settings_, _info.GetUsedAntennaNames());
     solution_writer_ =
         std::make_unique<ddecal::SolutionWriter>(settings_.h5parm_name);
   }
diff --git a/steps/DDECal.cc b/steps/DDECal.cc
index 45a3a50..21af6ee 100644
--- a/steps/DDECal.cc
+++ b/steps/DDECal.cc
@@ -189,7 +189,7 @@ void DDECal::setModelNextSteps(Step& step, const std::string& direction,
 void DDECal::updateInfo(const DPInfo& infoIn) {
   Step::updateInfo(infoIn);
 
-  solver_ = ddecal::CreateSolver(settings_, infoIn.antennaNames());
+  solver_ = ddecal::CreateSolver(settings_, infoIn.GetUsedAntennaNames());
 
   initializeModelReuse();
 
-- 
2.43.0


From b81dd80bac96736cbf262a3f4f2e500436a660bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:46 +0000
Subject: [PATCH 46/81] fix: DDECal, BdaDdeCal: write the solutions of the last
 time step

SolutionWriter expects the end time of the data. With the central time of the
last time step, rounding decided whether the last solution was written when the
solution interval is one time step.
---
 steps/BdaDdeCal.cc | 3 ++-
 steps/DDECal.cc    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/steps/BdaDdeCal.cc b/steps/BdaDdeCal.cc
index 79c8749..13bb0f1 100644
--- a/steps/BdaDdeCal.cc
+++ b/steps/BdaDdeCal.cc
@@ -844,7 +844,8 @@ void BdaDdeCal::WriteSolutions() {
 
   solution_writer_->Write(
       solutions_, constraint_solutions_, getInfoOut().startTime(),
-      getInfoOut().lastTime(), getInfoOut().timeInterval(),
+      getInfoOut().lastTime() + 0.5 * getInfoOut().timeInterval(),
+      getInfoOut().timeInterval(),
       settings_.solution_interval, settings_.sub_solutions_per_direction,
       settings_.mode, used_antenna_names, source_directions_,
       patches_per_direction_, getInfoOut().chanFreqs(),
diff --git a/steps/DDECal.cc b/steps/DDECal.cc
index 21af6ee..c3d5efa 100644
--- a/steps/DDECal.cc
+++ b/steps/DDECal.cc
@@ -984,7 +984,8 @@ void DDECal::WriteSolutions() {
 
   solution_writer_->Write(
       solutions_, constraint_solutions_, getInfoOut().startTime(),
-      getInfoOut().lastTime(), getInfoOut().timeInterval(),
+      getInfoOut().lastTime() + 0.5 * getInfoOut().timeInterval(),
+      getInfoOut().timeInterval(),
       requested_solution_interval_, settings_.sub_solutions_per_direction,
       settings_.mode, getInfoOut().GetUsedAntennaNames(), source_directions_,
       patches_per_direction_, getInfoOut().chanFreqs(),
-- 
2.43.0


From 2891bbc7acf9e2c90f7f47386e8c5e8c66114780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:26 +0000
Subject: [PATCH 47/81] fix: DDECal: do not store solutions in the buffer when
 only predicting

---
 steps/DDECal.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/steps/DDECal.cc b/steps/DDECal.cc
index c3d5efa..af30586 100644
--- a/steps/DDECal.cc
+++ b/steps/DDECal.cc
@@ -813,7 +813,7 @@ void DDECal::doSolve() {
     }
 
     // Store calibration solution for later calibration application steps.
-    if (store_solution_in_buffer_) {
+    if (store_solution_in_buffer_ && !settings_.only_predict) {
       const size_t n_antennas = getInfoOut().antennaUsed().size();
       const size_t n_polarizations = solver_->NSolutionPolarizations();
       input_buffers_[i].front()->SetSolution(solutions_[solution_index],
-- 
2.43.0


From 384d643472c737efcf81e7478643e4143b5a82a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:17 +0000
Subject: [PATCH 48/81] fix: FaradayConstraint: allow several solutions per
 direction

---
 ddecal/constraints/FaradayConstraint.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ddecal/constraints/FaradayConstraint.cc b/ddecal/constraints/FaradayConstraint.cc
index e5510dd..598afe6 100644
--- a/ddecal/constraints/FaradayConstraint.cc
+++ b/ddecal/constraints/FaradayConstraint.cc
@@ -106,7 +106,7 @@ void FaradayConstraint::SetSubSolutionWeights(
 void FaradayConstraint::Apply(SolutionSpan& solutions, double time) {
   assert(solutions.shape(0) == NChannelBlocks());
   assert(solutions.shape(1) == NAntennas());
-  assert(solutions.shape(2) == NDirections());
+  assert(solutions.shape(2) == NSubSolutions());
   assert(solutions.shape(3) == 4);  // 2x2 full jones solutions
   assert(sub_solution_weights_.size() == NSubSolutions());
   const size_t n_fits = NAntennas() * NSubSolutions();
-- 
2.43.0


From 025556bedeed27408a0ee43887cdc7ec800726f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:25 +0000
Subject: [PATCH 49/81] fix: RotationAndDiagonalConstraint: no results of
 earlier intervals for antennas without data

An antenna without valid solutions kept the rotation and diagonal of an earlier
solution interval as its result.
---
 ddecal/constraints/RotationAndDiagonalConstraint.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ddecal/constraints/RotationAndDiagonalConstraint.cc b/ddecal/constraints/RotationAndDiagonalConstraint.cc
index ccf4b21..586723b 100644
--- a/ddecal/constraints/RotationAndDiagonalConstraint.cc
+++ b/ddecal/constraints/RotationAndDiagonalConstraint.cc
@@ -288,10 +288,13 @@ void RotationAndDiagonalConstraint::Apply(SolutionSpan& solutions,
 
         // Skip and flag this antenna if it has no valid data.
         if (!dataIsValid(data, 4)) {
+          const double kNan = std::numeric_limits<double>::quiet_NaN();
+          results_[0].vals[index] = kNan;
           results_[0].weights[index] = -1.0;
           for (size_t i = 1; i != results_.size(); ++i) {
             size_t n_pol = GetNPolarizations(diagonal_solution_type_);
             for (size_t pol = 0; pol != n_pol; ++pol) {
+              results_[i].vals[index * n_pol + pol] = kNan;
               results_[i].weights[index * n_pol + pol] = -1.0;
             }
           }
-- 
2.43.0


From f43572d46c870225ea06c4cfeeed0060f0738ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:16 +0000
Subject: [PATCH 50/81] fix: FaradayConstraint: reassemble the solution as
 diagonal times rotation

---
 ddecal/constraints/FaradayConstraint.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ddecal/constraints/FaradayConstraint.cc b/ddecal/constraints/FaradayConstraint.cc
index 598afe6..86ad006 100644
--- a/ddecal/constraints/FaradayConstraint.cc
+++ b/ddecal/constraints/FaradayConstraint.cc
@@ -178,8 +178,8 @@ void FaradayConstraint::PerformFit(SolutionSpan& solutions, size_t sub_solution,
                     NChannelBlocks(), NSubSolutions(), diagonal_solution_type_);
     RotationConstraint::SetRotation(data, angle);
     data[0] *= diagonal[0];
-    data[1] *= diagonal[1];
-    data[2] *= diagonal[0];
+    data[1] *= diagonal[0];
+    data[2] *= diagonal[1];
     data[3] *= diagonal[1];
   }
 }
-- 
2.43.0


From cab6e9cdbdf2589914672c65f51d55c9a571f7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:27 +0000
Subject: [PATCH 51/81] fix: RotationConstraint: order the result weights as
 the result values

---
 ddecal/constraints/RotationConstraint.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ddecal/constraints/RotationConstraint.cc b/ddecal/constraints/RotationConstraint.cc
index 0d3e50e..d8e0ef5 100644
--- a/ddecal/constraints/RotationConstraint.cc
+++ b/ddecal/constraints/RotationConstraint.cc
@@ -26,8 +26,14 @@ void RotationConstraint::Initialize(
 void RotationConstraint::SetWeights(const std::vector<double>& weights) {
   ConstraintResult& result = results_.front();
   result.weights.clear();
-  for (size_t i = 0; i != NSubSolutions(); ++i) {
-    result.weights.insert(result.weights.end(), weights.begin(), weights.end());
+  // The weights have dimensions antenna x channel, the result has dimensions
+  // antenna x sub solution x channel.
+  for (size_t antenna = 0; antenna != NAntennas(); ++antenna) {
+    const double* antenna_weights = &weights[antenna * NChannelBlocks()];
+    for (size_t i = 0; i != NSubSolutions(); ++i) {
+      result.weights.insert(result.weights.end(), antenna_weights,
+                            antenna_weights + NChannelBlocks());
+    }
   }
 }
 
-- 
2.43.0


From 37bb7fdd91042c17c63da6736df8ea89c69c1cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:27 +0000
Subject: [PATCH 52/81] fix: RotationAndDiagonalConstraint: order the rotation
 weights as the rotation values

---
 ddecal/constraints/RotationAndDiagonalConstraint.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ddecal/constraints/RotationAndDiagonalConstraint.cc b/ddecal/constraints/RotationAndDiagonalConstraint.cc
index 586723b..95e6dfa 100644
--- a/ddecal/constraints/RotationAndDiagonalConstraint.cc
+++ b/ddecal/constraints/RotationAndDiagonalConstraint.cc
@@ -180,9 +180,12 @@ void RotationAndDiagonalConstraint::SetWeights(
   assert(weights.size() == NAntennas() * NChannelBlocks());
   // weights is n_antennas * n_channel_blocks, so it needs to be broadcasted
   // over n_sub_solutions.
-  for (size_t i = 0; i != NSubSolutions(); ++i) {
-    std::copy_n(weights.data(), weights.size(),
-                &results_[0].weights[NAntennas() * NChannelBlocks() * i]);
+  for (size_t antenna = 0; antenna != NAntennas(); ++antenna) {
+    for (size_t i = 0; i != NSubSolutions(); ++i) {
+      std::copy_n(&weights[antenna * NChannelBlocks()], NChannelBlocks(),
+                  &results_[0].weights[(antenna * NSubSolutions() + i) *
+                                       NChannelBlocks()]);
+    }
   }
 
   // Duplicate weights for one or two polarizations and broadcast these over the
-- 
2.43.0


From 73daaaef5df0f19fd0fbf99abf195319229ec75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:27 +0000
Subject: [PATCH 53/81] fix: RotationAndDiagonalConstraint: flag the direction
 that diverged

---
 ddecal/constraints/RotationAndDiagonalConstraint.cc | 13 ++++++++-----
 ddecal/constraints/RotationAndDiagonalConstraint.h  |  4 ++--
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/ddecal/constraints/RotationAndDiagonalConstraint.cc b/ddecal/constraints/RotationAndDiagonalConstraint.cc
index 95e6dfa..26e7f89 100644
--- a/ddecal/constraints/RotationAndDiagonalConstraint.cc
+++ b/ddecal/constraints/RotationAndDiagonalConstraint.cc
@@ -236,10 +236,13 @@ void RotationAndDiagonalConstraint::FitRotationAndDiagonal(
 
 template <size_t PolCount>
 void RotationAndDiagonalConstraint::SetChannelWeights(
-    std::vector<double>& values, size_t channel, double new_value) const {
+    std::vector<double>& values, size_t sub_solution, size_t channel,
+    double new_value) const {
   for (size_t antenna = 0; antenna != NAntennas(); ++antenna) {
+    const size_t index =
+        (antenna * NSubSolutions() + sub_solution) * NChannelBlocks() + channel;
     for (size_t p = 0; p != PolCount; ++p) {
-      values[(antenna * NChannelBlocks() + channel) * PolCount + p] = new_value;
+      values[index * PolCount + p] = new_value;
     }
   }
 }
@@ -347,12 +350,12 @@ void RotationAndDiagonalConstraint::Apply(SolutionSpan& solutions,
       // weights of all antennas to a negative value for flagging later if
       // desired
       if (diverged) {
-        SetChannelWeights<1>(results_[0].weights, ch, -1.0);
+        SetChannelWeights<1>(results_[0].weights, sub_solution, ch, -1.0);
         for (size_t i = 1; i != results_.size(); ++i) {
           if (GetNPolarizations(diagonal_solution_type_) == 1)
-            SetChannelWeights<1>(results_[i].weights, ch, -1.0);
+            SetChannelWeights<1>(results_[i].weights, sub_solution, ch, -1.0);
           else
-            SetChannelWeights<2>(results_[i].weights, ch, -1.0);
+            SetChannelWeights<2>(results_[i].weights, sub_solution, ch, -1.0);
         }
       }
     }
diff --git a/ddecal/constraints/RotationAndDiagonalConstraint.h b/ddecal/constraints/RotationAndDiagonalConstraint.h
index d42b49c..8a29824 100644
--- a/ddecal/constraints/RotationAndDiagonalConstraint.h
+++ b/ddecal/constraints/RotationAndDiagonalConstraint.h
@@ -37,8 +37,8 @@ class RotationAndDiagonalConstraint final : public Constraint {
       std::array<std::complex<double>, 2>& diagonal) const;
 
   template <size_t PolCount>
-  void SetChannelWeights(std::vector<double>& values, size_t channel,
-                         double new_value) const;
+  void SetChannelWeights(std::vector<double>& values, size_t sub_solution,
+                         size_t channel, double new_value) const;
 
   std::vector<ConstraintResult> results_;
   bool do_rotation_reference_;
-- 
2.43.0


From 90abfc0207e090e3dbe1aab4876d584bf0ca5467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:27 +0000
Subject: [PATCH 54/81] fix: RotationAndDiagonalConstraint: compare each
 polarization with its own mean

---
 ddecal/constraints/RotationAndDiagonalConstraint.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ddecal/constraints/RotationAndDiagonalConstraint.cc b/ddecal/constraints/RotationAndDiagonalConstraint.cc
index 26e7f89..3a43f38 100644
--- a/ddecal/constraints/RotationAndDiagonalConstraint.cc
+++ b/ddecal/constraints/RotationAndDiagonalConstraint.cc
@@ -316,7 +316,7 @@ void RotationAndDiagonalConstraint::Apply(SolutionSpan& solutions,
         if (a_mean > 0.0 && Limit(diagonal[0], a_mean, maxratio)) {
           diverged = true;
         }
-        if (b_mean > 0.0 && Limit(diagonal[1], a_mean, maxratio)) {
+        if (b_mean > 0.0 && Limit(diagonal[1], b_mean, maxratio)) {
           diverged = true;
         }
 
-- 
2.43.0


From e29580c486f90cdd95b8bd771f2c310855dda710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:27 +0000
Subject: [PATCH 55/81] fix: RotationAndDiagonalConstraint: limit the
 amplitudes that diverge

---
 .../constraints/RotationAndDiagonalConstraint.cc  | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/ddecal/constraints/RotationAndDiagonalConstraint.cc b/ddecal/constraints/RotationAndDiagonalConstraint.cc
index 3a43f38..921e928 100644
--- a/ddecal/constraints/RotationAndDiagonalConstraint.cc
+++ b/ddecal/constraints/RotationAndDiagonalConstraint.cc
@@ -24,16 +24,15 @@ bool dataIsValid(const std::complex<double>* const data,
 /// false otherwise.
 bool Limit(std::complex<double>& value, double mean_abs, double max_ratio) {
   if (mean_abs > 0.0) {
-    if (std::abs(value) / mean_abs < 1.0 / max_ratio ||
-        std::abs(value) / mean_abs > max_ratio) {
+    const double ratio = std::abs(value) / mean_abs;
+    if (ratio < 1.0 / max_ratio || ratio > max_ratio) {
+      // Zero and infinite values can't be scaled to the allowed range.
+      if (ratio > 0.0 && std::isfinite(ratio)) {
+        while (std::abs(value) / mean_abs < 1.0 / max_ratio) value *= 1.2;
+        while (std::abs(value) / mean_abs > max_ratio) value /= 1.2;
+      }
       return true;
     }
-    do {
-      value *= 1.2;
-    } while (std::abs(value) / mean_abs < 1.0 / max_ratio);
-    do {
-      value /= 1.2;
-    } while (std::abs(value) / mean_abs > max_ratio);
   }
   return false;
 }
-- 
2.43.0


From 6ef241cb3bd7674aa6529e8f54b4031dff79f40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:27 +0000
Subject: [PATCH 56/81] fix: RotationAndDiagonalConstraint: leave flagged
 antennas out of the mean amplitude

---
 ddecal/constraints/RotationAndDiagonalConstraint.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ddecal/constraints/RotationAndDiagonalConstraint.cc b/ddecal/constraints/RotationAndDiagonalConstraint.cc
index 921e928..4e52bc7 100644
--- a/ddecal/constraints/RotationAndDiagonalConstraint.cc
+++ b/ddecal/constraints/RotationAndDiagonalConstraint.cc
@@ -258,6 +258,7 @@ void RotationAndDiagonalConstraint::Apply(SolutionSpan& solutions,
       // maxratio constraint below
       double a_mean = 0.0;
       double b_mean = 0.0;
+      size_t n_valid_antennas = 0;
       for (size_t ant = 0; ant < NAntennas(); ++ant) {
         std::complex<double>* data = &(solutions(ch, ant, sub_solution, 0));
 
@@ -266,6 +267,8 @@ void RotationAndDiagonalConstraint::Apply(SolutionSpan& solutions,
           continue;
         }
 
+        ++n_valid_antennas;
+
         double angle;
         std::array<std::complex<double>, 2> diagonal;
         FitRotationAndDiagonal(data, angle, diagonal);
@@ -279,8 +282,10 @@ void RotationAndDiagonalConstraint::Apply(SolutionSpan& solutions,
           b_mean += abs_b;
         }
       }
-      a_mean /= NAntennas();
-      b_mean /= NAntennas();
+      if (n_valid_antennas != 0) {
+        a_mean /= n_valid_antennas;
+        b_mean /= n_valid_antennas;
+      }
 
       double angle0 = std::numeric_limits<double>::quiet_NaN();
 
-- 
2.43.0


From 71ab6ab2a5844c81b618e89fec442ce34bfbc9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:27 +0000
Subject: [PATCH 57/81] fix: FaradayConstraint: give both polarizations a
 weight with direction-dependent weights

---
 ddecal/constraints/FaradayConstraint.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ddecal/constraints/FaradayConstraint.cc b/ddecal/constraints/FaradayConstraint.cc
index 86ad006..241eef4 100644
--- a/ddecal/constraints/FaradayConstraint.cc
+++ b/ddecal/constraints/FaradayConstraint.cc
@@ -88,6 +88,7 @@ void FaradayConstraint::SetSubSolutionWeights(
   sub_solution_weights_ = sub_solution_weights;
   for (ConstraintResult& result : results_) result.weights.clear();
   ConstraintResult& rm_result = results_.front();
+  const size_t n_polarizations = GetNPolarizations(diagonal_solution_type_);
   for (size_t antenna = 0; antenna != NAntennas(); ++antenna) {
     for (const std::vector<double>& weights : sub_solution_weights) {
       const double* antenna_weights = &weights[antenna * NChannelBlocks()];
@@ -95,8 +96,12 @@ void FaradayConstraint::SetSubSolutionWeights(
       for (size_t channel = 0; channel != NChannelBlocks(); ++channel) {
         weight_sum += antenna_weights[channel];
         for (size_t result_index = 1; result_index < results_.size();
-             ++result_index)
-          results_[result_index].weights.emplace_back(antenna_weights[channel]);
+             ++result_index) {
+          for (size_t p = 0; p != n_polarizations; ++p) {
+            results_[result_index].weights.emplace_back(
+                antenna_weights[channel]);
+          }
+        }
       }
       rm_result.weights.emplace_back(weight_sum);
     }
-- 
2.43.0


From dba1574f489b642afafcb5308b53d7438db06cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:12 +0000
Subject: [PATCH 58/81] fix: FaradayConstraint: search up to the given rotation
 measure

---
 ddecal/constraints/FaradayConstraint.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ddecal/constraints/FaradayConstraint.cc b/ddecal/constraints/FaradayConstraint.cc
index 241eef4..1bbcb30 100644
--- a/ddecal/constraints/FaradayConstraint.cc
+++ b/ddecal/constraints/FaradayConstraint.cc
@@ -31,10 +31,12 @@ void FaradayConstraint::Initialize(
   fit_range_ = common::phase_fitting::GetRange(grid);
   if (max_rotation_value_) {
     assert(*max_rotation_value_ > 0.0);
-    if (fit_range_.wrap_step * fit_range_.max_wraps > *max_rotation_value_ &&
+    // The fitter is used with doubled angles (see PerformFit()), and therefore
+    // its slopes are twice the rotation measure.
+    const double max_slope = 2.0 * *max_rotation_value_;
+    if (fit_range_.wrap_step * fit_range_.max_wraps > max_slope &&
         fit_range_.wrap_step != 0.0) {
-      fit_range_.max_wraps =
-          std::ceil(*max_rotation_value_ / fit_range_.wrap_step);
+      fit_range_.max_wraps = std::ceil(max_slope / fit_range_.wrap_step);
     }
   }
 
-- 
2.43.0


From 8851c3b62e2956555461cbb96a40fc077736da75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:39 +0000
Subject: [PATCH 59/81] fix: PieceWisePhaseFitter: do not round the weights
 when unwrapping

---
 ddecal/constraints/PieceWisePhaseFitter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ddecal/constraints/PieceWisePhaseFitter.h b/ddecal/constraints/PieceWisePhaseFitter.h
index 3a5a451..4992b00 100644
--- a/ddecal/constraints/PieceWisePhaseFitter.h
+++ b/ddecal/constraints/PieceWisePhaseFitter.h
@@ -299,7 +299,7 @@ class PieceWisePhaseFitter {
    */
   void fitSlope(const double* data, const double* frequencies,
                 const double* weights, size_t n, double& a, double& b) {
-    size_t qCounts[4] = {0, 0, 0, 0};
+    double qCounts[4] = {0.0, 0.0, 0.0, 0.0};
     for (size_t i = 0; i != n; ++i) {
       if (data[i] > M_PI * 1.5)
         qCounts[3] += weights[i];
-- 
2.43.0


From ff3c372b1334ee86ed098b12024271cd2c6aebec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:58 +0000
Subject: [PATCH 60/81] fix: OneApplyCal counts flags per thread instead of in
 one shared counter

---
 steps/OneApplyCal.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/steps/OneApplyCal.cc b/steps/OneApplyCal.cc
index b9cfbf8..0fa3b11 100644
--- a/steps/OneApplyCal.cc
+++ b/steps/OneApplyCal.cc
@@ -27,6 +27,7 @@
 #include <limits>
 #include <algorithm>
 #include <iomanip>
+#include <mutex>
 
 #include <boost/algorithm/string/case_conv.hpp>
 
@@ -535,7 +536,12 @@ void OneApplyCal::CorrectionLoop(DPBuffer& buffer,
   const size_t n_solution_corr = gains.shape()[0];
 
   schaapcommon::StaticFor<size_t> loop;
+  std::mutex flag_counter_mutex;
   loop.Run(0, n_bl, [&](size_t start_baseline, size_t end_baseline) {
+    // Different threads may flag the same channel, so each range has its own
+    // counter.
+    base::FlagCounter flag_counter;
+    flag_counter.init(getInfoOut());
     for (size_t bl = start_baseline; bl < end_baseline; ++bl) {
       const unsigned int ant_a = getInfoOut().getAnt1()[bl];
       const unsigned int ant_b = getInfoOut().getAnt2()[bl];
@@ -548,14 +554,16 @@ void OneApplyCal::CorrectionLoop(DPBuffer& buffer,
         if (n_solution_corr > 2) {
           ApplyCal::ApplyFull(aocommon::MC2x2F(gain_a),
                               aocommon::MC2x2F(gain_b), buffer, bl, chan,
-                              itsUpdateWeights, itsFlagCounter, direction_name);
+                              itsUpdateWeights, flag_counter, direction_name);
         } else {
           ApplyCal::ApplyDiag(aocommon::MC2x2FDiag(gain_a),
                               aocommon::MC2x2FDiag(gain_b), buffer, bl, chan,
-                              itsUpdateWeights, itsFlagCounter, direction_name);
+                              itsUpdateWeights, flag_counter, direction_name);
         }
       }
     }
+    const std::lock_guard<std::mutex> lock(flag_counter_mutex);
+    itsFlagCounter.add(flag_counter);
   });
 }
 
-- 
2.43.0


From 37660d6bff9394566cd7fd6ecdc2f58db925e3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:31 +0000
Subject: [PATCH 61/81] fix: ApplyWeights no longer yields NaN when a zero
 weight meets a zero gain

---
 steps/ApplyCal.cc | 36 +++++++++++++-----------------------
 1 file changed, 13 insertions(+), 23 deletions(-)

diff --git a/steps/ApplyCal.cc b/steps/ApplyCal.cc
index 6279334..37e4455 100644
--- a/steps/ApplyCal.cc
+++ b/steps/ApplyCal.cc
@@ -237,29 +237,19 @@ void ApplyCal::ApplyWeights(const aocommon::MC2x2F& gain_a,
     normGainB[i] = std::norm(gain_b.Get(i));
   }
 
-  weight[0] = cov[0] * (normGainA[0] * normGainB[0]) +
-              cov[1] * (normGainA[0] * normGainB[1]) +
-              cov[2] * (normGainA[1] * normGainB[0]) +
-              cov[3] * (normGainA[1] * normGainB[1]);
-  weight[0] = 1. / weight[0];
-
-  weight[1] = cov[0] * (normGainA[0] * normGainB[2]) +
-              cov[1] * (normGainA[0] * normGainB[3]) +
-              cov[2] * (normGainA[1] * normGainB[2]) +
-              cov[3] * (normGainA[1] * normGainB[3]);
-  weight[1] = 1. / weight[1];
-
-  weight[2] = cov[0] * (normGainA[2] * normGainB[0]) +
-              cov[1] * (normGainA[2] * normGainB[1]) +
-              cov[2] * (normGainA[3] * normGainB[0]) +
-              cov[3] * (normGainA[3] * normGainB[1]);
-  weight[2] = 1. / weight[2];
-
-  weight[3] = cov[0] * (normGainA[2] * normGainB[2]) +
-              cov[1] * (normGainA[2] * normGainB[3]) +
-              cov[2] * (normGainA[3] * normGainB[2]) +
-              cov[3] * (normGainA[3] * normGainB[3]);
-  weight[3] = 1. / weight[3];
+  for (unsigned int row = 0; row < 2; ++row) {
+    for (unsigned int column = 0; column < 2; ++column) {
+      float variance = 0.0;
+      for (unsigned int i = 0; i < 4; ++i) {
+        const float factor =
+            normGainA[row * 2 + i / 2] * normGainB[column * 2 + i % 2];
+        // A correlation that does not contribute may have an infinite
+        // variance. Multiplying that with zero would yield NaN.
+        if (factor != 0.0f) variance += cov[i] * factor;
+      }
+      weight[row * 2 + column] = 1. / variance;
+    }
+  }
 }
 
 }  // namespace steps
-- 
2.43.0


From 9dc55db5e936e88b1609cc62df846bf1bd093261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:11 +0000
Subject: [PATCH 62/81] fix: ApplyCal substeps inherit interpolation, soltab
 and usemodeldata

---
 steps/OneApplyCal.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/steps/OneApplyCal.cc b/steps/OneApplyCal.cc
index 0fa3b11..06e71f4 100644
--- a/steps/OneApplyCal.cc
+++ b/steps/OneApplyCal.cc
@@ -62,7 +62,10 @@ OneApplyCal::OneApplyCal(const common::ParameterSet& parset,
           parset.isDefined(prefix + "updateweights")
               ? parset.getBool(prefix + "updateweights")
               : parset.getBool(defaultPrefix + "updateweights", false)),
-      itsUseModelData(parset.getBool(prefix + "usemodeldata", false)),
+      itsUseModelData(
+          parset.isDefined(prefix + "usemodeldata")
+              ? parset.getBool(prefix + "usemodeldata")
+              : parset.getBool(defaultPrefix + "usemodeldata", false)),
       itsCount(0),
       itsTimeStep(0),
       itsNCorr(0),
@@ -105,7 +108,7 @@ OneApplyCal::OneApplyCal(const common::ParameterSet& parset,
     const std::string interpolationStr =
         (parset.isDefined(prefix + "interpolation")
              ? parset.getString(prefix + "interpolation")
-             : parset.getString(prefix + "interpolation", "nearest"));
+             : parset.getString(defaultPrefix + "interpolation", "nearest"));
     if (interpolationStr == "nearest") {
       itsInterpolationType = JonesParameters::InterpolationType::NEAREST;
     } else if (interpolationStr == "linear") {
@@ -135,7 +138,10 @@ OneApplyCal::OneApplyCal(const common::ParameterSet& parset,
               ? std::vector<std::string>{"amplitude000", "phase000"}
               : std::vector<std::string>{"amplitude000"};
       solution_table_names_ =
-          parset.getStringVector(prefix + "soltab", default_tables);
+          parset.isDefined(prefix + "soltab")
+              ? parset.getStringVector(prefix + "soltab")
+              : parset.getStringVector(defaultPrefix + "soltab",
+                                       default_tables);
 
       schaapcommon::h5parm::H5Parm h5parm(itsParmDBName, false, false,
                                           itsSolSetName);
-- 
2.43.0


From cdee5168fe2fe93cb83d95e3cf055a7bf96b5602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:14 +0000
Subject: [PATCH 63/81] fix: do not update the weight of a GainCal frequency
 cell from several threads

---
 steps/GainCal.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/steps/GainCal.cc b/steps/GainCal.cc
index 5c4cc0a..dbebef3 100644
--- a/steps/GainCal.cc
+++ b/steps/GainCal.cc
@@ -555,6 +555,10 @@ void GainCal::fillMatrices(const DPBuffer::DataType& model,
   const size_t n_correlations = getInfoOut().ncorr();
   assert(n_correlations == 4 || n_correlations == 2 || n_correlations == 1);
 
+  // Channels of one frequency cell share the weight of that cell, so sum the
+  // weights per channel in the parallel loop and combine them afterwards.
+  std::vector<float> channel_weights(n_channels, 0.0f);
+
   schaapcommon::DynamicFor<size_t> loop;
   loop.Run(0, n_channels, [&](size_t ch) {
     constexpr size_t kNumDimensions = 6;
@@ -583,7 +587,7 @@ void GainCal::fillMatrices(const DPBuffer::DataType& model,
       }
 
       if (itsMode == CalType::kTec || itsMode == CalType::kTecAndPhase) {
-        algorithms_[ch / itsNChan].incrementWeight(weights(bl, ch, 0));
+        channel_weights[ch] += weights(bl, ch, 0);
       }
 
       for (size_t cr = 0; cr < n_correlations; ++cr) {
@@ -608,6 +612,10 @@ void GainCal::fillMatrices(const DPBuffer::DataType& model,
       }
     }
   });
+
+  for (size_t ch = 0; ch < n_channels; ++ch) {
+    algorithms_[ch / itsNChan].incrementWeight(channel_weights[ch]);
+  }
 }
 
 bool GainCal::scalarMode(CalType caltype) {
-- 
2.43.0


From d3d453426bbf735aee7d47e9477447ca0873025d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:14 +0000
Subject: [PATCH 64/81] fix: do not share station flags between threads in the
 unpolarized GainCal step

---
 base/GainCalAlgorithm.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/base/GainCalAlgorithm.cc b/base/GainCalAlgorithm.cc
index cd9b256..94e9725 100644
--- a/base/GainCalAlgorithm.cc
+++ b/base/GainCalAlgorithm.cc
@@ -350,6 +350,10 @@ void GainCalAlgorithm::doStep_unpolarized(
     _h(ant, 0) = conj(_g(ant, 0));
   }
 
+  // Several unknowns can belong to one station, so collect the flags per unknown
+  // in the parallel loop and combine them afterwards.
+  std::vector<unsigned char> unknown_flagged(_nUn, 0);
+
   recursive_for.Run(0, _nUn, [&](size_t st1, size_t) {
     if (_stationFlagged[st1 % _nSt]) {
       return;
@@ -373,7 +377,7 @@ void GainCalAlgorithm::doStep_unpolarized(
 
     // Flag a station if all baselines are flagged or all data is zero
     if (ww == 0 || std::abs(tt) == 0) {
-      _stationFlagged[st1 % _nSt] = true;
+      unknown_flagged[st1] = 1;
       _g(st1, 0) = 0;
       return;
     }
@@ -393,6 +397,10 @@ void GainCalAlgorithm::doStep_unpolarized(
       _g(st1, 0) = std::abs(_g(st1, 0));
     }
   });
+
+  for (size_t st1 = 0; st1 != _nUn; ++st1) {
+    if (unknown_flagged[st1]) _stationFlagged[st1 % _nSt] = true;
+  }
 }
 
 void GainCalAlgorithm::incrementWeight(float weight) { _totalWeight += weight; }
-- 
2.43.0


From 496c8eb3504e145b08f198237722550c260e3c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:14 +0000
Subject: [PATCH 65/81] fix: do not share the convergence flag of GainCal
 between threads

---
 steps/GainCal.cc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/steps/GainCal.cc b/steps/GainCal.cc
index dbebef3..f65b09e 100644
--- a/steps/GainCal.cc
+++ b/steps/GainCal.cc
@@ -646,19 +646,18 @@ void GainCal::calibrate() {
       itsNFreqCells, GainCalAlgorithm::NOTCONVERGED);
 
   for (; iter < itsMaxIter; ++iter) {
-    bool allConverged = true;
     schaapcommon::RecursiveFor recursive_for;
     recursive_for.Run(0, itsNFreqCells, [&](size_t freqCell) {
       // Do another step when stalled and not all converged
       if (converged[freqCell] != GainCalAlgorithm::CONVERGED) {
         converged[freqCell] = algorithms_[freqCell].doStep(iter, recursive_for);
-        // Only continue if there are steps worth continuing
-        // (so not converged, failed or stalled)
-        if (converged[freqCell] == GainCalAlgorithm::NOTCONVERGED) {
-          allConverged = false;
-        }
       }
     });
+    // Only continue if there are steps worth continuing
+    // (so not converged, failed or stalled)
+    const bool allConverged =
+        std::find(converged.begin(), converged.end(),
+                  GainCalAlgorithm::NOTCONVERGED) == converged.end();
 
     if (itsDebugLevel > 0) {
       for (unsigned int freqCell = 0; freqCell < itsNFreqCells; ++freqCell) {
-- 
2.43.0


From 394813a69989fa7cd04ef0fd014e0efa1c9b4601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:13 +0000
Subject: [PATCH 66/81] fix: write the phase and not the TEC into phase000 for
 caltype tecandphase

---
 steps/GainCal.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/steps/GainCal.cc b/steps/GainCal.cc
index f65b09e..5979a9c 100644
--- a/steps/GainCal.cc
+++ b/steps/GainCal.cc
@@ -1038,7 +1038,7 @@ void GainCal::writeSolutionsH5Parm(double) {
               weights[i] = 0.;
             }
             if (itsMode == CalType::kTecAndPhase) {
-              phasesols[i] = -itsTECSols[time](ant, 0);
+              phasesols[i] = -itsTECSols[time](ant, 1);
             }
             ++i;
           }
-- 
2.43.0


From 606b4e2e59e0640c86f046a2754bb5d36545d90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:13 +0000
Subject: [PATCH 67/81] fix: write amplitudes and not phases into amplitude000
 for caltype scalaramplitude

---
 steps/GainCal.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/steps/GainCal.cc b/steps/GainCal.cc
index 5979a9c..5cfb074 100644
--- a/steps/GainCal.cc
+++ b/steps/GainCal.cc
@@ -1071,7 +1071,8 @@ void GainCal::writeSolutionsH5Parm(double) {
       }
     }
 
-    if (itsMode != CalType::kDiagonalAmplitude) {
+    if (itsMode != CalType::kDiagonalAmplitude &&
+        itsMode != CalType::kScalarAmplitude) {
       soltabs[0].SetComplexValues(sols, weights, false, historyString);
     } else {
       soltabs[0].SetComplexValues(sols, weights, true, historyString);
-- 
2.43.0


From 2bca0312bd35e2818df1c1ab7812ca5fbad9ad3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:13 +0000
Subject: [PATCH 68/81] fix: allocate the GainCal buffers after solint=0 has
 been resolved

---
 steps/GainCal.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/steps/GainCal.cc b/steps/GainCal.cc
index 5cfb074..67a636f 100644
--- a/steps/GainCal.cc
+++ b/steps/GainCal.cc
@@ -162,10 +162,6 @@ GainCal::GainCal(const common::ParameterSet& parset, const std::string& prefix)
 
   itsNIter.resize(4, 0);
 
-  if (itsApplySolution) {
-    itsBuffers.resize(itsSolInt);
-  }
-
   std::string modestr = parset.getString(prefix + "caltype");
   itsMode = base::StringToCalType(modestr);
   unsigned int defaultNChan = 0;
@@ -201,6 +197,9 @@ void GainCal::updateInfo(const DPInfo& infoIn) {
   if (itsSolInt == 0) {
     itsSolInt = getInfoOut().ntime();
   }
+  if (itsApplySolution) {
+    itsBuffers.resize(itsSolInt);
+  }
   if (itsTimeSlotsPerParmUpdate == 0) {
     itsTimeSlotsPerParmUpdate = getInfoOut().ntime();
   }
-- 
2.43.0


From 609d60594dc5354e71535c1ba9f1c52b1486c4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:24 +0000
Subject: [PATCH 69/81] fix: remove the existing phases too when tecandphase
 solutions are replaced in a ParmDB

---
 steps/GainCal.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/steps/GainCal.cc b/steps/GainCal.cc
index 67a636f..1008512 100644
--- a/steps/GainCal.cc
+++ b/steps/GainCal.cc
@@ -845,9 +845,13 @@ void GainCal::initParmDB() {
   resolution[1] = getInfoOut().timeInterval() * itsSolInt;
   itsParmDB->setDefaultSteps(resolution);
 
-  string parmname = parmName() + "*";
+  std::vector<std::string> parmnames{parmName() + "*"};
+  if (itsMode == CalType::kTecAndPhase) {
+    parmnames.push_back("CommonScalarPhase:*");
+  }
 
-  if (!itsParmDB->getNames(parmname).empty()) {
+  for (const std::string& parmname : parmnames) {
+    if (itsParmDB->getNames(parmname).empty()) continue;
     aocommon::Logger::Warn << "Solutions for " << parmname << " already in "
                            << itsParmDBName << ", these are removed\n";
     // Specify entire domain of this MS; only to specify that the existing
-- 
2.43.0


From e72c039c8e833e1d496c182d1a997ed75650a32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:35 +0000
Subject: [PATCH 70/81] fix: do not stretch the frequency cells of GainCal
 solutions in a ParmDB when the last cell is smaller

---
 steps/GainCal.cc | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/steps/GainCal.cc b/steps/GainCal.cc
index 1008512..97308c9 100644
--- a/steps/GainCal.cc
+++ b/steps/GainCal.cc
@@ -1184,9 +1184,18 @@ void GainCal::writeSolutionsParmDB(double startTime) {
   }
   parmdb::Axis::ShPtr timeAxis = parmdb::Axis::makeAxis(lowtimes, hightimes);
 
-  parmdb::Axis::ShPtr freqAxis(
-      new parmdb::RegularAxis(getInfoOut().chanFreqs()[0] - freqWidth * 0.5,
-                              freqWidth * nchan, nfreqs));
+  // Make frequency axis (the last cell can be smaller, it may not extend beyond
+  // the domain since the ParmDB stores the values by domain)
+  const double startFreq = getInfoOut().chanFreqs()[0] - freqWidth * 0.5;
+  const size_t nTotalChan = getInfoOut().chanFreqs().size();
+  std::vector<double> lowfreqs(nfreqs), highfreqs(nfreqs);
+  for (unsigned int freqCell = 0; freqCell < nfreqs; ++freqCell) {
+    lowfreqs[freqCell] = startFreq + freqWidth * nchan * freqCell;
+    highfreqs[freqCell] =
+        startFreq + freqWidth * std::min<size_t>(nchan * (freqCell + 1),
+                                                 nTotalChan);
+  }
+  parmdb::Axis::ShPtr freqAxis = parmdb::Axis::makeAxis(lowfreqs, highfreqs);
   parmdb::Grid solGrid(freqAxis, timeAxis);
 
   // Construct domain grid for the current chunk
-- 
2.43.0


From f3890f9c91d49efc83bb5d36e5abe61cc9f05d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:18 +0000
Subject: [PATCH 71/81] fix: ParmFacadeLocal::addValue compares the shape of
 coefficients with those in use

---
 parmdb/ParmFacadeLocal.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/parmdb/ParmFacadeLocal.cc b/parmdb/ParmFacadeLocal.cc
index 97c3b2d..3ae3f91 100644
--- a/parmdb/ParmFacadeLocal.cc
+++ b/parmdb/ParmFacadeLocal.cc
@@ -261,6 +261,17 @@ void ParmFacadeLocal::addValue(const std::string& parmName, const Record& rec) {
       mask.reference(rec.toArrayBool("mask"));
     }
   } else {
+    // The shape must be the one in use, which is that of the values stored for
+    // other domains. Without such values any shape can be used.
+    const Box range = itsPDB.getRange(std::vector<std::string>(1, parmName));
+    ParmCache usedCache(
+        parmset, Box(range.lower(),
+                     Point(range.lowerX() + 0.001 * range.widthX(),
+                           range.lowerY() + 0.5 * range.widthY())));
+    const ParmValueSet& usedSet = usedCache.getValueSet(parmid);
+    shape.resize(0);
+    shape = usedSet.empty() ? nshape
+                            : usedSet.getFirstParmValue().getValues().shape();
     if (rec.isDefined("type")) {
       int newType = getType(rec.asString("type"));
       if (newType != type)
-- 
2.43.0


From a34c1d177a973f2319fb0460f4089221831962a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:45 +0000
Subject: [PATCH 72/81] fix: Axis::makeAxis keeps holes between intervals of
 equal width

---
 parmdb/Axis.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parmdb/Axis.cc b/parmdb/Axis.cc
index 24c81ae..73c32a3 100644
--- a/parmdb/Axis.cc
+++ b/parmdb/Axis.cc
@@ -318,10 +318,12 @@ Axis::ShPtr Axis::add(const Axis& that) const {
 Axis::ShPtr Axis::makeAxis(const std::vector<double>& low,
                            const std::vector<double>& upp) {
   assert(low.size() == upp.size() && low.size() > 0);
-  // Check if the width is constant, thus if the result is a regular axis.
+  // Check if the width is constant and if there are no holes between the
+  // intervals, thus if the result is a regular axis.
   double width = upp[0] - low[0];
   for (unsigned int i = 1; i < low.size(); ++i) {
-    if (!casacore::near(width, upp[i] - low[i])) {
+    if (!casacore::near(width, upp[i] - low[i]) ||
+        !casacore::near(upp[i - 1], low[i])) {
       return std::make_shared<OrderedAxis>(low, upp, true);
     }
   }
-- 
2.43.0


From 461654d254836033c81e5b24e821a0e654f5bc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:45 +0000
Subject: [PATCH 73/81] fix: Grid::toDomains sizes the y limits by the y axis

---
 parmdb/Grid.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parmdb/Grid.cc b/parmdb/Grid.cc
index b79a7ed..2b7e43d 100644
--- a/parmdb/Grid.cc
+++ b/parmdb/Grid.cc
@@ -240,7 +240,7 @@ void Grid::toDomains(std::vector<Box>& domains) const {
   unsigned int nry = ny();
   // Prefetch the lower and upper values for both axes.
   std::vector<double> sx(nrx), ex(nrx);
-  std::vector<double> sy(nrx), ey(nrx);
+  std::vector<double> sy(nry), ey(nry);
   for (unsigned int i = 0; i < nrx; ++i) {
     sx[i] = xaxis.lower(i);
     ex[i] = xaxis.upper(i);
-- 
2.43.0


From 87339719656fa0b128ffdd7d771cc571d272c3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:16 +0000
Subject: [PATCH 74/81] fix: ParmDBCasa::clearTables resets the name ids and
 cached default values

---
 parmdb/ParmDBCasa.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parmdb/ParmDBCasa.cc b/parmdb/ParmDBCasa.cc
index dde08fc..26e7c6b 100644
--- a/parmdb/ParmDBCasa.cc
+++ b/parmdb/ParmDBCasa.cc
@@ -148,10 +148,16 @@ void ParmDBCasa::createTables(const std::string& tableName) {
 
 void ParmDBCasa::clearTables() {
   for (int i = 0; i < 3; ++i) {
+    itsTables[i].reopenRW();
     TableLocker locker(itsTables[i], FileLocker::Write);
     casacore::Vector<common::rownr_t> rows = itsTables[i].rowNumbers();
     itsTables[i].removeRow(rows);
+    if (i == 1) {
+      // The ids of new names are their row numbers.
+      itsTables[i].rwKeywordSet().define("UNIQUE_ID", 0u);
+    }
   }
+  clearDefFilled();
 }
 
 void ParmDBCasa::setDefaultSteps(const std::vector<double>& steps) {
-- 
2.43.0


From 92c9faf6fe2d1b889cb949fe2e69a8e1ae9e891d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:18 +0000
Subject: [PATCH 75/81] fix: ParmDBCasa::getValues sorts values stored in
 another order

---
 parmdb/ParmDBCasa.cc | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/parmdb/ParmDBCasa.cc b/parmdb/ParmDBCasa.cc
index 26e7c6b..79e312c 100644
--- a/parmdb/ParmDBCasa.cc
+++ b/parmdb/ParmDBCasa.cc
@@ -24,6 +24,8 @@
 #include <casacore/casa/Arrays/ArrayLogical.h>
 #include <casacore/casa/Utilities/Regex.h>
 
+#include <algorithm>
+
 using casacore::Array;
 using casacore::ArrayColumn;
 using casacore::ArrayColumnDesc;
@@ -331,10 +333,8 @@ void ParmDBCasa::getValues(std::vector<ParmValueSet>& psets,
     common::rownr_t nrow = rownrs.nelements();
     if (nrow > 0) {
       // Retrieve the rows.
-      std::vector<ParmValue::ShPtr> values;
-      std::vector<Box> domains;
-      values.reserve(nrow);
-      domains.reserve(nrow);
+      std::vector<std::pair<Box, ParmValue::ShPtr>> cells;
+      cells.reserve(nrow);
       for (common::rownr_t i = 0; i < nrow; ++i) {
         common::rownr_t row = rownrs[i];
         double sx = sxCol(row);
@@ -356,8 +356,19 @@ void ParmDBCasa::getValues(std::vector<ParmValueSet>& psets,
           pval->setErrors(errCol(row));
         }
         pval->setRowId(origRownrs[row]);
-        values.push_back(pval);
-        domains.push_back(Box(Point(sx, sy), Point(ex, ey)));
+        cells.emplace_back(Box(Point(sx, sy), Point(ex, ey)), pval);
+      }
+      // The rows can be stored in any order, but the grid needs them sorted.
+      std::stable_sort(
+          cells.begin(), cells.end(),
+          [](const auto& a, const auto& b) { return a.first < b.first; });
+      std::vector<ParmValue::ShPtr> values;
+      std::vector<Box> domains;
+      values.reserve(nrow);
+      domains.reserve(nrow);
+      for (const auto& cell : cells) {
+        domains.push_back(cell.first);
+        values.push_back(cell.second);
       }
       pvset = ParmValueSet(domains, values, ParmValue(), type, pertCol(id),
                            prelCol(id));
-- 
2.43.0


From f356fbedabf552e3b50073fef65e00e83d06d822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:15 +0000
Subject: [PATCH 76/81] fix: GridRep::setup accepts grids of which the axes
 differ by rounding

---
 parmdb/Grid.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/parmdb/Grid.cc b/parmdb/Grid.cc
index 2b7e43d..416ea47 100644
--- a/parmdb/Grid.cc
+++ b/parmdb/Grid.cc
@@ -146,16 +146,17 @@ void GridRep::setup(const std::vector<Grid>& grids) {
   itsAxes[1] = combineAxes(grids, 1, ny, nx);
   // Check if the grids themselves are equal for all x and y.
   // Check if the x axis is the same for all y-s.
-  Axis::ShPtr xaxis = grids[0].getAxis(0);
   for (unsigned int j = 1; j < ny; ++j) {
     for (unsigned int i = 0; i < nx; ++i) {
-      assert(*grids[i].getAxis(0) == *grids[j * nx + i].getAxis(0));
+      assert(
+          grids[i].getAxis(0)->checkIntervals(*grids[j * nx + i].getAxis(0)));
     }
   }
   // Check if the y axis is the same for all x-s.
   for (unsigned int j = 0; j < ny; ++j) {
     for (unsigned int i = 1; i < nx; ++i) {
-      assert(*grids[j * nx].getAxis(1) == *grids[j * nx + i].getAxis(1));
+      assert(grids[j * nx].getAxis(1)->checkIntervals(
+          *grids[j * nx + i].getAxis(1)));
     }
   }
 }
-- 
2.43.0


From b7884bb99f2bcd6d4590c247fb99036d62f4a8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:07 +0000
Subject: [PATCH 77/81] fix: ParmDBCasa::putDefValue does not keep the domain
 of the replaced value

---
 parmdb/ParmDBCasa.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parmdb/ParmDBCasa.cc b/parmdb/ParmDBCasa.cc
index 79e312c..ffc60a3 100644
--- a/parmdb/ParmDBCasa.cc
+++ b/parmdb/ParmDBCasa.cc
@@ -645,6 +645,12 @@ void ParmDBCasa::putDefDomain(const Box& domain, Table& tab,
     vec[2] = domain.upperX();
     vec[3] = domain.upperY();
     scaldCol.put(rownr, vec);
+  } else if (tab.tableDesc().isColumn("SCALE_DOMAIN")) {
+    // Do not keep the domain of a value that is replaced.
+    ArrayColumn<double> scaldCol(tab, "SCALE_DOMAIN");
+    if (scaldCol.isDefined(rownr)) {
+      scaldCol.put(rownr, casacore::Vector<double>(4, 0.0));
+    }
   }
 }
 
-- 
2.43.0


From 5838261ff4960b5d085435b900b471122826e04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:03 +0000
Subject: [PATCH 78/81] fix: ParmFacadeLocal::addValue stores the mask

---
 parmdb/ParmFacadeLocal.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parmdb/ParmFacadeLocal.cc b/parmdb/ParmFacadeLocal.cc
index 3ae3f91..3fe524c 100644
--- a/parmdb/ParmFacadeLocal.cc
+++ b/parmdb/ParmFacadeLocal.cc
@@ -333,6 +333,7 @@ void ParmFacadeLocal::addValue(const std::string& parmName, const Record& rec) {
   vector<Box> domains(1, domain);
   pvset = ParmValueSet(Grid(domains), pvalvec, defval,
                        ParmValue::FunkletType(type), pert, pertrel);
+  pvset.setSolvableMask(mask);
   pvset.setDirty();
   cache.flush();
 }
-- 
2.43.0


From 5bca4076a44158d2594d2f67c1da6cac8041cb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:05 +0000
Subject: [PATCH 79/81] fix: a grid of grids can have start times that differ
 by rounding

---
 parmdb/Grid.cc            | 2 +-
 parmdb/ParmFacadeLocal.cc | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/parmdb/Grid.cc b/parmdb/Grid.cc
index 416ea47..c43e5b7 100644
--- a/parmdb/Grid.cc
+++ b/parmdb/Grid.cc
@@ -63,7 +63,7 @@ void GridRep::setup(const std::vector<Box>& domains) {
   unsigned int nx = 1;
   bool xregular = true;
   while (nx < domains.size()) {
-    if (sy != domains[nx].lowerY()) {
+    if (!casacore::near(sy, domains[nx].lowerY())) {
       break;
     }
     if (!(casacore::near(ex, domains[nx].lowerX()) &&
diff --git a/parmdb/ParmFacadeLocal.cc b/parmdb/ParmFacadeLocal.cc
index 3fe524c..68343bf 100644
--- a/parmdb/ParmFacadeLocal.cc
+++ b/parmdb/ParmFacadeLocal.cc
@@ -443,7 +443,9 @@ Grid ParmFacadeLocal::getGrid(const ParmValueSet& valueSet, const Box& domain) {
     for (unsigned int i = 0; i < valueSet.size(); ++i) {
       grids.push_back(valueSet.getParmValue(i).getGrid());
     }
-    grid = Grid(grids, true);
+    // They are in the order of their domains. Their own limits, which can
+    // differ by rounding, do not give a reliable order.
+    grid = Grid(grids);
   }
   return grid.subset(domain);
 }
-- 
2.43.0


From a63d0245d644d98fc3b83bbc90ffe87a5103b434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:12 +0000
Subject: [PATCH 80/81] fix: ParmValueSet::addValues extends the errors

When the array of scalar values of a parameter was extended to a larger
solve grid, its errors kept their old shape, so Parm::setCoeff wrote the
errors of the new values outside of the array.
---
 parmdb/ParmValue.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/parmdb/ParmValue.cc b/parmdb/ParmValue.cc
index dc16b40..d7ea1e6 100644
--- a/parmdb/ParmValue.cc
+++ b/parmdb/ParmValue.cc
@@ -338,6 +338,14 @@ void ParmValueSet::addValues(const Grid& solveGrid) {
       }
     }
     value.setScalars(newGrid, newValues);
+    if (value.hasErrors()) {
+      // Extend the errors as well; new values have no errors yet.
+      Array<double> newErrors(newValues.shape());
+      newErrors = 0;
+      newErrors(IPosition(2, sx1, sy1), IPosition(2, ex1 - 1, ey1 - 1)) =
+          value.getErrors();
+      value.setErrors(newErrors);
+    }
     itsDomainGrid = Grid(vector<Box>(1, newGrid.getBoundingBox()));
   }
 }
-- 
2.43.0


From a40505a00d78e5545975140d2d17d2d96cf16dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:18 +0000
Subject: [PATCH 81/81] fix: ParmDBCasa::getValues keeps the scale domain of
 default values

The coefficients of a default polynomial were not rescaled to the domain
that is solved if the parameter had values in other domains.
---
 parmdb/ParmDBCasa.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parmdb/ParmDBCasa.cc b/parmdb/ParmDBCasa.cc
index ffc60a3..d947d03 100644
--- a/parmdb/ParmDBCasa.cc
+++ b/parmdb/ParmDBCasa.cc
@@ -377,7 +377,7 @@ void ParmDBCasa::getValues(std::vector<ParmValueSet>& psets,
       // Use perturbation, etc. from NAMES table.
       ParmValueSet pvdef = getDefValue(nameCol(id), ParmValue());
       pvset = ParmValueSet(pvdef.getFirstParmValue(), type, pertCol(id),
-                           prelCol(id));
+                           prelCol(id), pvdef.getScaleDomain());
     }
     if (maskCol.ndim(id) > 0) {
       pvset.setSolvableMask(maskCol(id));
-- 
2.43.0

