From 8f21c39de66681034b51ea93e28de6df8acf834a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:18 +0000
Subject: [PATCH 01/58] fix: do not prepend text before the first key to its
 value in a parset

---
 common/ParameterSetImpl.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/ParameterSetImpl.cc b/common/ParameterSetImpl.cc
index 44ddfd9..361a098 100644
--- a/common/ParameterSetImpl.cc
+++ b/common/ParameterSetImpl.cc
@@ -257,8 +257,9 @@ void ParameterSetImpl::readStream(std::istream& inputStream,
               if (!key.empty()) {
                 // Add previous key/value to map.
                 addMerge(key, value, merge);
-                value.erase();
               }
+              // A value never includes text from before its key.
+              value.erase();
               // Use ParameterValue to get the key without possible quotes.
               ParameterValue pvkey(line.substr(stval, nonbl - stval + 1),
                                    false);
-- 
2.43.0


From 3c5e89a9fef8e6533419cd90e398a41b5df37763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:20 +0000
Subject: [PATCH 02/58] fix: keep = signs inside a parset value instead of
 starting a new key

---
 common/ParameterSetImpl.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/common/ParameterSetImpl.cc b/common/ParameterSetImpl.cc
index 361a098..6ef4fa2 100644
--- a/common/ParameterSetImpl.cc
+++ b/common/ParameterSetImpl.cc
@@ -246,6 +246,7 @@ void ParameterSetImpl::readStream(std::istream& inputStream,
       if (st < end) {             // skip empty line
         unsigned int nonbl = st;  // Position of last non-blank character
         unsigned int stval = st;  // Start of value
+        bool has_key = false;     // Has the key on this line been handled?
         while (st < end) {
           if (line[st] == '"' || line[st] == '\'') {
             st = skipQuoted(line, st);
@@ -253,7 +254,9 @@ void ParameterSetImpl::readStream(std::istream& inputStream,
           } else if (line[st] == '#') {
             end = rskipws(line, stval, st);  // A comment ends the line
           } else {
-            if (line[st] == '=') {
+            // Only the first = is a separator; a value can contain others.
+            if (line[st] == '=' && !has_key) {
+              has_key = true;
               if (!key.empty()) {
                 // Add previous key/value to map.
                 addMerge(key, value, merge);
-- 
2.43.0


From cba464b9e300c739ec0181e72c2019e68f13cb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:47 +0000
Subject: [PATCH 03/58] fix: count a key asked for in different case as used in
 a case-insensitive parset

---
 common/ParameterSetImpl.cc | 4 ++--
 common/ParameterSetImpl.h  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/common/ParameterSetImpl.cc b/common/ParameterSetImpl.cc
index 6ef4fa2..7a28b5d 100644
--- a/common/ParameterSetImpl.cc
+++ b/common/ParameterSetImpl.cc
@@ -33,14 +33,14 @@ namespace common {
 // Default constructor
 //
 ParameterSetImpl::ParameterSetImpl(KeyCompare::Mode mode)
-    : KVMap(mode), itsMode(mode) {}
+    : KVMap(mode), itsMode(mode), itsAskedParms(mode) {}
 
 //
 // Construction by reading a parameter file.
 //
 ParameterSetImpl::ParameterSetImpl(const std::string& theFilename,
                                    KeyCompare::Mode mode)
-    : KVMap(mode), itsMode(mode) {
+    : KVMap(mode), itsMode(mode), itsAskedParms(mode) {
   readFile(theFilename, "", false);
 }
 
diff --git a/common/ParameterSetImpl.h b/common/ParameterSetImpl.h
index 741b35d..e7634dc 100644
--- a/common/ParameterSetImpl.h
+++ b/common/ParameterSetImpl.h
@@ -331,7 +331,7 @@ class ParameterSetImpl : public KVMap {
   /// Key comparison mode.
   const KeyCompare::Mode itsMode;
   /// The set of keys that have been asked.
-  mutable std::set<std::string> itsAskedParms;
+  mutable std::set<std::string, KeyCompare> itsAskedParms;
   /// Mutex to make access to parset thread-safe.
   mutable std::mutex itsMutex;
 };
-- 
2.43.0


From adbf56e5ae0b0a42806bc1b9b632d82da24b7ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:47 +0000
Subject: [PATCH 04/58] fix: reject a parset line without key instead of
 defining a key named =

---
 common/ParameterSetImpl.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/common/ParameterSetImpl.cc b/common/ParameterSetImpl.cc
index 7a28b5d..b768081 100644
--- a/common/ParameterSetImpl.cc
+++ b/common/ParameterSetImpl.cc
@@ -264,8 +264,9 @@ void ParameterSetImpl::readStream(std::istream& inputStream,
               // A value never includes text from before its key.
               value.erase();
               // Use ParameterValue to get the key without possible quotes.
-              ParameterValue pvkey(line.substr(stval, nonbl - stval + 1),
-                                   false);
+              ParameterValue pvkey(
+                  line.substr(stval, st > stval ? nonbl - stval + 1 : 0),
+                  false);
               key = pvkey.getString();
               if (key.empty())
                 throw APSException("Empty key given in line " + line);
-- 
2.43.0


From a3f5ed9b0a4b3080150591b53eba466dbe164659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:45 +0000
Subject: [PATCH 05/58] fix: print the faraday rotation mode under the name
 that selects it

---
 base/CalType.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/CalType.cc b/base/CalType.cc
index 46694f9..0cc5a24 100644
--- a/base/CalType.cc
+++ b/base/CalType.cc
@@ -78,7 +78,7 @@ std::string ToString(CalType caltype) {
     case CalType::kRotationAndDiagonal:
       return "rotation+diagonal";
     case CalType::kFaradayRotation:
-      return "faraday";
+      return "faradayrotation";
     case CalType::kLeakage:
       return "leakage";
     case CalType::kLeakageAmplitude:
-- 
2.43.0


From 392f46930378cd45314848adaceaebd6543e549b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:45 +0000
Subject: [PATCH 06/58] fix: do not keep spectral terms of a previously
 inspected component

---
 base/ComponentInfo.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/ComponentInfo.cc b/base/ComponentInfo.cc
index 138fbcb..2e21f00 100644
--- a/base/ComponentInfo.cc
+++ b/base/ComponentInfo.cc
@@ -38,6 +38,7 @@ void ComponentInfo::update(const PointSource& component) {
         "Cannot handle spectra with more than three components");
   }
   const size_t spec_size = (spec.size() > 3 ? 3 : spec.size());
+  spectrum_.assign(3, 0.0);
   for (size_t index = 0; index < spec_size; index++) {
     spectrum_[index] = spec[index];
   }
-- 
2.43.0


From 6bdbfec682387b119d8929fef5ca48348f95ed83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:45 +0000
Subject: [PATCH 07/58] fix: initialize the position angle convention of a
 Gaussian source without flux

---
 base/GaussianSource.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/GaussianSource.cc b/base/GaussianSource.cc
index ec76e49..7a0b736 100644
--- a/base/GaussianSource.cc
+++ b/base/GaussianSource.cc
@@ -14,6 +14,7 @@ namespace base {
 GaussianSource::GaussianSource(const Direction &direction)
     : PointSource(direction),
       itsPositionAngle(0.0),
+      itsPositionAngleIsAbsolute(true),
       itsMajorAxis(0.0),
       itsMinorAxis(0.0) {}
 
-- 
2.43.0


From 6f03d2d489bcc68047a2be616d8992914c0a50ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:45 +0000
Subject: [PATCH 08/58] fix: compute the declination of a patch from the
 normalized mean vector

---
 sky_model/Patch.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sky_model/Patch.cc b/sky_model/Patch.cc
index ee0fa42..b8229e4 100644
--- a/sky_model/Patch.cc
+++ b/sky_model/Patch.cc
@@ -26,7 +26,8 @@ void Patch::ComputeDirection() {
     y /= components_.size();
     z /= components_.size();
 
-    direction_ = base::Direction(std::atan2(y, x), std::asin(z));
+    direction_ = base::Direction(std::atan2(y, x),
+                                 std::atan2(z, std::hypot(x, y)));
   }
 }
 
-- 
2.43.0


From 82a26774aa45d6d1b17289532a353decc92a7b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:45 +0000
Subject: [PATCH 09/58] fix: do not read the bit buffer when no bits are
 converted

---
 common/DataConvert.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/DataConvert.cc b/common/DataConvert.cc
index 461873c..515443c 100644
--- a/common/DataConvert.cc
+++ b/common/DataConvert.cc
@@ -109,6 +109,9 @@ unsigned int boolToBit(void* to, const void* from, unsigned int nvalues,
 
 unsigned int bitToBool(void* to, const void* from, unsigned int nvalues,
                        unsigned int startbit) {
+  if (nvalues == 0) {
+    return 0;
+  }
   bool* data = (bool*)to;
   const unsigned char* bits = (const unsigned char*)from + startbit / 8;
   startbit %= 8;
-- 
2.43.0


From e80ae589edf2f69008ac43e0750aa3046a1aa237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:02 +0000
Subject: [PATCH 10/58] fix: keep the upper middle element in place when taking
 the median of an even number of values

---
 common/Median.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/Median.h b/common/Median.h
index 56ad3e6..d7dff53 100644
--- a/common/Median.h
+++ b/common/Median.h
@@ -24,7 +24,7 @@ T Median(std::vector<T>& v) {
     return *target;
   } else {
     auto before = target - 1;
-    std::nth_element(v.begin(), before, v.end());
+    std::nth_element(v.begin(), before, target);
     return (*target + *before) / static_cast<T>(2);
   }
 }
-- 
2.43.0


From 9be4ff3377aa2b57a91137b526a80a66aa2d517e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:55 +0000
Subject: [PATCH 11/58] fix: make looking up, testing for and adopting parset
 keys thread-safe

The class promises to be fully thread-safe, but the getters read the found
value after releasing the mutex, and isDefined, locateModule, fullModuleName
and the source of adoptCollection were accessed without any lock.
---
 common/ParameterSetImpl.cc | 45 +++++++++++++++----------
 common/ParameterSetImpl.h  | 68 +++++++++++++++++++++-----------------
 2 files changed, 65 insertions(+), 48 deletions(-)

diff --git a/common/ParameterSetImpl.cc b/common/ParameterSetImpl.cc
index b768081..1a5af80 100644
--- a/common/ParameterSetImpl.cc
+++ b/common/ParameterSetImpl.cc
@@ -158,21 +158,20 @@ void ParameterSetImpl::adoptBuffer(const std::string& theBuffer,
 //
 void ParameterSetImpl::adoptCollection(const ParameterSetImpl& theCollection,
                                        const std::string& thePrefix) {
-  // Thread-safety.
-  std::lock_guard<std::mutex> locker(itsMutex);
-  // Cannot adopt itself.
-  if (&theCollection != this) {
-    for (const_iterator iter = theCollection.begin();
-         iter != theCollection.end(); ++iter) {
-      replaceUnlocked(thePrefix + iter->first, iter->second);
-    }
-  } else if (!thePrefix.empty()) {
-    // However, adopt itself if a prefix is given.
-    // Iterate on a copy, otherwise an endless loop occurs.
-    KVMap tmp(theCollection);
-    for (const_iterator iter = tmp.begin(); iter != tmp.end(); ++iter) {
-      replaceUnlocked(thePrefix + iter->first, iter->second);
-    }
+  // Cannot adopt itself, unless a prefix is given.
+  if (&theCollection == this && thePrefix.empty()) return;
+  // Thread-safety: lock both sets, in a way that cannot deadlock.
+  std::unique_lock<std::mutex> locker(itsMutex, std::defer_lock);
+  std::unique_lock<std::mutex> other(theCollection.itsMutex, std::defer_lock);
+  if (&theCollection == this) {
+    locker.lock();
+  } else {
+    std::lock(locker, other);
+  }
+  // Iterate on a copy, otherwise adopting itself is an endless loop.
+  const KVMap tmp(theCollection);
+  for (const_iterator iter = tmp.begin(); iter != tmp.end(); ++iter) {
+    replaceUnlocked(thePrefix + iter->first, iter->second);
   }
 }
 
@@ -320,11 +319,17 @@ void ParameterSetImpl::addMerge(const std::string& key,
 //
 // findKV(key) [private]
 //
-ParameterSetImpl::const_iterator ParameterSetImpl::findKV(
+std::optional<ParameterSetImpl::value_type> ParameterSetImpl::findKV(
     const std::string& aKey, bool doThrow) const {
   // Thread-safety.
   std::lock_guard<std::mutex> locker(itsMutex);
+  const const_iterator iter = findUnlocked(aKey, doThrow);
+  if (iter == end()) return std::nullopt;
+  return *iter;
+}
 
+ParameterSetImpl::const_iterator ParameterSetImpl::findUnlocked(
+    const std::string& aKey, bool doThrow) const {
   const_iterator iter = find(aKey);
 
   if (iter == end()) {
@@ -414,8 +419,8 @@ void ParameterSetImpl::remove(const std::string& aKey) {
   std::vector<TPL> ParameterSetImpl::get##TPC##Vector(                         \
       const std::string& aKey, const std::vector<TPL>& aValue,                 \
       bool expandable) const {                                                 \
-    const_iterator it = findKV(aKey, false);                                   \
-    if (it == end()) return aValue;                                            \
+    const auto it = findKV(aKey, false);                                       \
+    if (!it) return aValue;                                                    \
     ParameterValue value(it->second);                                          \
     if (expandable) value = value.expand();                                    \
     return value.get##TPC##Vector();                                           \
@@ -606,6 +611,8 @@ int32_t indexValue(const std::string& label, const char indexMarker[2]) {
 // Searches for a key ending in the given 'shortkey' and returns it full name.
 // e.g: a.b.c.d.param=xxxx --> locateModule(d)-->a.b.c.
 std::string ParameterSetImpl::locateModule(const std::string& shortKey) const {
+  // Thread-safety.
+  std::lock_guard<std::mutex> locker(itsMutex);
   const_iterator iter = begin();
   const_iterator eom = end();
   while ((iter != eom)) {
@@ -630,6 +637,8 @@ std::string ParameterSetImpl::locateModule(const std::string& shortKey) const {
 // e.g: a.b.c.d.param=xxxx --> fullModuleName(d.param)-->
 std::string ParameterSetImpl::fullModuleName(
     const std::string& shortKey) const {
+  // Thread-safety.
+  std::lock_guard<std::mutex> locker(itsMutex);
   const_iterator iter = begin();
   const_iterator eom = end();
   while ((iter != eom)) {
diff --git a/common/ParameterSetImpl.h b/common/ParameterSetImpl.h
index e7634dc..d1bb008 100644
--- a/common/ParameterSetImpl.h
+++ b/common/ParameterSetImpl.h
@@ -13,6 +13,7 @@
 #include <map>
 #include <memory>
 #include <mutex>
+#include <optional>
 #include <set>
 
 namespace dp3 {
@@ -165,6 +166,7 @@ class ParameterSetImpl : public KVMap {
 
   /// Checks if the given Key is defined in the ParameterSetImpl.
   bool isDefined(const std::string& searchKey) const {
+    std::lock_guard<std::mutex> locker(itsMutex);
     return (find(searchKey) != end());
   };
 
@@ -314,9 +316,14 @@ class ParameterSetImpl : public KVMap {
   /// @}
 
   /// Find the key \p aKey. If \p doThrow \c == \c true (the default) an
-  /// exception is thrown when \p aKey is not found. Otherwise, end() is
-  /// returned.
-  const_iterator findKV(const std::string& aKey, bool doThrow = true) const;
+  /// exception is thrown when \p aKey is not found. Otherwise, an empty
+  /// optional is returned. The result is a copy, since another thread can
+  /// change the stored value as soon as the mutex is released.
+  std::optional<value_type> findKV(const std::string& aKey,
+                                   bool doThrow = true) const;
+
+  /// For internal use, find a key without locking.
+  const_iterator findUnlocked(const std::string& aKey, bool doThrow) const;
 
   /// Merge in a key/value. A warning is logged if already existing
   /// and merge=false.
@@ -392,7 +399,8 @@ int32_t indexValue(const std::string& label, const char indexMarker[2]);
 
 inline const ParameterValue& ParameterSetImpl::get(
     const std::string& aKey) const {
-  return findKV(aKey)->second;
+  std::lock_guard<std::mutex> locker(itsMutex);
+  return findUnlocked(aKey, true)->second;
 }
 
 inline bool ParameterSetImpl::getBool(const std::string& aKey) const {
@@ -401,8 +409,8 @@ inline bool ParameterSetImpl::getBool(const std::string& aKey) const {
 
 inline bool ParameterSetImpl::getBool(const std::string& aKey,
                                       bool aValue) const {
-  const_iterator it = findKV(aKey, false);
-  if (it == end()) return aValue;
+  const auto it = findKV(aKey, false);
+  if (!it) return aValue;
   return it->second.getBool();
 }
 
@@ -411,8 +419,8 @@ inline int ParameterSetImpl::getInt(const std::string& aKey) const {
 }
 
 inline int ParameterSetImpl::getInt(const std::string& aKey, int aValue) const {
-  const_iterator it = findKV(aKey, false);
-  if (it == end()) return aValue;
+  const auto it = findKV(aKey, false);
+  if (!it) return aValue;
   return it->second.getInt();
 }
 
@@ -422,8 +430,8 @@ inline unsigned int ParameterSetImpl::getUint(const std::string& aKey) const {
 
 inline unsigned int ParameterSetImpl::getUint(const std::string& aKey,
                                               unsigned int aValue) const {
-  const_iterator it = findKV(aKey, false);
-  if (it == end()) return aValue;
+  const auto it = findKV(aKey, false);
+  if (!it) return aValue;
   return it->second.getUint();
 }
 
@@ -433,8 +441,8 @@ inline int16_t ParameterSetImpl::getInt16(const std::string& aKey) const {
 
 inline int16_t ParameterSetImpl::getInt16(const std::string& aKey,
                                           int16_t aValue) const {
-  const_iterator it = findKV(aKey, false);
-  if (it == end()) return aValue;
+  const auto it = findKV(aKey, false);
+  if (!it) return aValue;
   return it->second.getInt16();
 }
 
@@ -444,8 +452,8 @@ inline uint16_t ParameterSetImpl::getUint16(const std::string& aKey) const {
 
 inline uint16_t ParameterSetImpl::getUint16(const std::string& aKey,
                                             uint16_t aValue) const {
-  const_iterator it = findKV(aKey, false);
-  if (it == end()) return aValue;
+  const auto it = findKV(aKey, false);
+  if (!it) return aValue;
   return it->second.getUint16();
 }
 
@@ -455,8 +463,8 @@ inline int32_t ParameterSetImpl::getInt32(const std::string& aKey) const {
 
 inline int32_t ParameterSetImpl::getInt32(const std::string& aKey,
                                           int32_t aValue) const {
-  const_iterator it = findKV(aKey, false);
-  if (it == end()) return aValue;
+  const auto it = findKV(aKey, false);
+  if (!it) return aValue;
   return it->second.getInt32();
 }
 
@@ -466,8 +474,8 @@ inline uint32_t ParameterSetImpl::getUint32(const std::string& aKey) const {
 
 inline uint32_t ParameterSetImpl::getUint32(const std::string& aKey,
                                             uint32_t aValue) const {
-  const_iterator it = findKV(aKey, false);
-  if (it == end()) return aValue;
+  const auto it = findKV(aKey, false);
+  if (!it) return aValue;
   return it->second.getUint32();
 }
 
@@ -477,8 +485,8 @@ inline int64_t ParameterSetImpl::getInt64(const std::string& aKey) const {
 
 inline int64_t ParameterSetImpl::getInt64(const std::string& aKey,
                                           int64_t aValue) const {
-  const_iterator it = findKV(aKey, false);
-  if (it == end()) return aValue;
+  const auto it = findKV(aKey, false);
+  if (!it) return aValue;
   return it->second.getInt64();
 }
 
@@ -488,8 +496,8 @@ inline uint64_t ParameterSetImpl::getUint64(const std::string& aKey) const {
 
 inline uint64_t ParameterSetImpl::getUint64(const std::string& aKey,
                                             uint64_t aValue) const {
-  const_iterator it = findKV(aKey, false);
-  if (it == end()) return aValue;
+  const auto it = findKV(aKey, false);
+  if (!it) return aValue;
   return it->second.getUint64();
 }
 
@@ -499,8 +507,8 @@ inline float ParameterSetImpl::getFloat(const std::string& aKey) const {
 
 inline float ParameterSetImpl::getFloat(const std::string& aKey,
                                         float aValue) const {
-  const_iterator it = findKV(aKey, false);
-  if (it == end()) return aValue;
+  const auto it = findKV(aKey, false);
+  if (!it) return aValue;
   return it->second.getFloat();
 }
 
@@ -510,8 +518,8 @@ inline double ParameterSetImpl::getDouble(const std::string& aKey) const {
 
 inline double ParameterSetImpl::getDouble(const std::string& aKey,
                                           double aValue) const {
-  const_iterator it = findKV(aKey, false);
-  if (it == end()) return aValue;
+  const auto it = findKV(aKey, false);
+  if (!it) return aValue;
   return it->second.getDouble();
 }
 
@@ -521,8 +529,8 @@ inline std::string ParameterSetImpl::getString(const std::string& aKey) const {
 
 inline std::string ParameterSetImpl::getString(
     const std::string& aKey, const std::string& aValue) const {
-  const_iterator it = findKV(aKey, false);
-  if (it == end()) return aValue;
+  const auto it = findKV(aKey, false);
+  if (!it) return aValue;
   return it->second.getString();
 }
 
@@ -532,8 +540,8 @@ inline time_t ParameterSetImpl::getTime(const std::string& aKey) const {
 
 inline time_t ParameterSetImpl::getTime(const std::string& aKey,
                                         const time_t& aValue) const {
-  const_iterator it = findKV(aKey, false);
-  if (it == end()) return aValue;
+  const auto it = findKV(aKey, false);
+  if (!it) return aValue;
   return it->second.getTime();
 }
 
-- 
2.43.0


From 69a1ca9bea18dc4ac33d00950a017ecb1ce307a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:34 +0000
Subject: [PATCH 12/58] fix: BdaAverager: keep minchannels within the input
 channels

---
 steps/BDAAverager.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/steps/BDAAverager.cc b/steps/BDAAverager.cc
index 0427218..35879fd 100644
--- a/steps/BDAAverager.cc
+++ b/steps/BDAAverager.cc
@@ -155,11 +155,10 @@ void BdaAverager::updateInfo(const DPInfo& _info) {
       nchan = _info.nchan();
       if (bl_threshold_channel_ > 0.0) {
         nchan = std::ceil(lengths[i] / bl_threshold_channel_ * double(nchan));
-        if (nchan > _info.nchan()) {
-          nchan = _info.nchan();
-        } else if (nchan < min_channels_) {
-          nchan = min_channels_;
-        }
+        // There is always at least one channel, and never more than there are
+        // input channels, even if min_channels_ is larger.
+        nchan = std::max({nchan, min_channels_, std::size_t{1}});
+        nchan = std::min<std::size_t>(nchan, _info.nchan());
       }
     } else {
       factor_time = baseline_factors_[i];
-- 
2.43.0


From 2924116c15d067d6f06e597632378af2d1689ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:35 +0000
Subject: [PATCH 13/58] fix: DPInfo: allow rounding when comparing bandwidths
 of baselines

---
 base/DPInfo.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/base/DPInfo.cc b/base/DPInfo.cc
index 0163300..9ce5e55 100644
--- a/base/DPInfo.cc
+++ b/base/DPInfo.cc
@@ -174,8 +174,12 @@ void DPInfo::setChannels(std::vector<std::vector<double>>&& chan_freqs,
 
   const double total_bw = std::accumulate(effective_bw.front().begin(),
                                           effective_bw.front().end(), 0.0);
+  // Summing different channel layouts may give different rounding errors.
+  const double kBandwidthTolerance = 1.0e-9 * std::abs(total_bw);
   for (std::vector<double>& eff_bw_bl : effective_bw) {
-    if (std::accumulate(eff_bw_bl.begin(), eff_bw_bl.end(), 0.0) != total_bw) {
+    const double baseline_bw =
+        std::accumulate(eff_bw_bl.begin(), eff_bw_bl.end(), 0.0);
+    if (std::abs(baseline_bw - total_bw) > kBandwidthTolerance) {
       throw std::runtime_error("Total BW is not equal for all baselines");
     }
   }
-- 
2.43.0


From a0c65bc99ab8b55a5fe496e659d965fec7d9efd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:07 +0000
Subject: [PATCH 14/58] fix: BdaAverager: average the UVWs of fully flagged
 baselines, too

---
 steps/BDAAverager.cc | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/steps/BDAAverager.cc b/steps/BDAAverager.cc
index 35879fd..da355d0 100644
--- a/steps/BDAAverager.cc
+++ b/steps/BDAAverager.cc
@@ -336,7 +336,6 @@ void BdaAverager::AddBaseline(std::size_t baseline_nr) {
   const std::size_t n_channels = getInfoOut().chanFreqs(baseline_nr).size();
 
   // Divide data values by their total weight.
-  float total_weight = 0.0f;
   for (std::size_t index = 0; index < bb.weights.size(); ++index) {
     const float weight = bb.weights[index];
     if (weight > 0) {
@@ -344,15 +343,13 @@ void BdaAverager::AddBaseline(std::size_t baseline_nr) {
         data_name_vector.second[index] /= weight;
       }
     }
-    total_weight += weight;
   }
 
-  if (total_weight > 0) {
-    const double factor = 1.0 / bb.times_added;
-    bb.uvw[0] *= factor;
-    bb.uvw[1] *= factor;
-    bb.uvw[2] *= factor;
-  }
+  // The UVW sum does not depend on the weights: Average it over the times.
+  const double factor = 1.0 / bb.times_added;
+  bb.uvw[0] *= factor;
+  bb.uvw[1] *= factor;
+  bb.uvw[2] *= factor;
 
   if (bda_buffer_->GetRemainingCapacity() < n_channels * getInfoOut().ncorr()) {
     getNextStep()->process(std::move(bda_buffer_));
-- 
2.43.0


From 2f588d2918f708d5fc21be36854b5181e9a1ff77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:58 +0000
Subject: [PATCH 15/58] fix: BdaExpander: map channels by position, also when
 no baseline has full resolution

---
 steps/BdaExpander.cc | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/steps/BdaExpander.cc b/steps/BdaExpander.cc
index 278eb29..97d9314 100644
--- a/steps/BdaExpander.cc
+++ b/steps/BdaExpander.cc
@@ -60,25 +60,21 @@ void BdaExpander::updateInfo(const DPInfo& info_in) {
   next_time_slot_to_process_ = 0;
   channels_mapping_.resize(info_in.nbaselines());
   for (unsigned int k = 0; k < info_in.nbaselines(); k++) {
-    int next_chan = 0;
     // Store the mapping between averaged and non averaged channels in the
-    // variable channels_mapping_
-    for (size_t i = 0; i < info_in.chanWidths(k).size(); i++) {
-      const int n_averaged_channels =
-          std::round(info_in.chanWidths(k)[i] / single_channel_bw);
-      if (n_averaged_channels == 1) {
-        // non-bda-averaged channel
-        channels_mapping_[k].push_back(next_chan);
-
-      } else {
-        // bda-averaged channels
-        for (int p = 0; p < n_averaged_channels; p++) {
-          // The same bda-averaged channel will be copied over multiple channels
-          // in the regular output
-          channels_mapping_[k].push_back(next_chan);
-        }
+    // variable channels_mapping_: Each output channel gets the data of the
+    // (possibly bda-averaged) input channel that covers its center. The same
+    // input channel will be copied over multiple output channels if needed.
+    const std::vector<double>& widths_in = info_in.chanWidths(k);
+    size_t next_chan = 0;
+    double next_chan_end = widths_in.front();
+    channels_mapping_[k].clear();
+    for (unsigned int chan = 0; chan < info_in.nchan(); ++chan) {
+      const double center = (chan + 0.5) * single_channel_bw;
+      while (next_chan_end < center && next_chan + 1 < widths_in.size()) {
+        ++next_chan;
+        next_chan_end += widths_in[next_chan];
       }
-      next_chan++;
+      channels_mapping_[k].push_back(next_chan);
     }
   }
 
-- 
2.43.0


From 3a9fc1df79a4f0af729995b148fe8824e1f94de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:25 +0000
Subject: [PATCH 16/58] fix: BdaBuffer: row offsets did not count when the
 buffer had no fields yet

---
 base/BdaBuffer.cc | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/base/BdaBuffer.cc b/base/BdaBuffer.cc
index 26c2ecf..3017942 100644
--- a/base/BdaBuffer.cc
+++ b/base/BdaBuffer.cc
@@ -114,10 +114,12 @@ bool BdaBuffer::AddRow(double time, double interval, double exposure,
   if (remaining_capacity_ < n_elements) {
     return false;
   }
+  // The offset does not depend on which fields the buffer currently has, since
+  // fields may be added later.
+  const std::size_t offset = GetNumberOfElements();
   remaining_capacity_ -= n_elements;
-  std::size_t offset = 0;
   for (auto data_it = data_.begin(); data_it != data_.end(); ++data_it) {
-    offset = data_it->second.size();
+    assert(offset == data_it->second.size());
     aocommon::UVector<std::complex<float>>& data_vector = data_it->second;
     if (data_it->first == "" && data) {
       data_vector.insert(data_vector.end(), data, data + n_elements);
@@ -126,11 +128,7 @@ bool BdaBuffer::AddRow(double time, double interval, double exposure,
     }
   }
   if (flags_.capacity() > 0) {
-    if (offset == 0) {
-      offset = flags_.size();
-    } else {
-      assert(offset == flags_.size());
-    }
+    assert(offset == flags_.size());
     if (flags) {
       flags_.insert(flags_.end(), flags, flags + n_elements);
     } else {
@@ -138,11 +136,7 @@ bool BdaBuffer::AddRow(double time, double interval, double exposure,
     }
   }
   if (weights_.capacity() > 0) {
-    if (offset == 0) {
-      offset = weights_.size();
-    } else {
-      assert(offset == weights_.size());
-    }
+    assert(offset == weights_.size());
     if (weights) {
       weights_.insert(weights_.end(), weights, weights + n_elements);
     } else {
-- 
2.43.0


From ca6bcf9f3c28e518722a89d230d9dae136de2d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:53 +0000
Subject: [PATCH 17/58] fix: DPInfo: adjust the total bandwidth when selecting
 channels

---
 base/DPInfo.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/base/DPInfo.cc b/base/DPInfo.cc
index 9ce5e55..dc392e0 100644
--- a/base/DPInfo.cc
+++ b/base/DPInfo.cc
@@ -400,6 +400,8 @@ void DPInfo::SelectChannels(unsigned int start_channel,
       std::vector<double>(resol_begin, resol_begin + n_channels);
   effective_bandwidth_.front() =
       std::vector<double>(effbw_begin, effbw_begin + n_channels);
+  total_bandwidth_ = std::accumulate(effective_bandwidth_.front().begin(),
+                                     effective_bandwidth_.front().end(), 0.0);
 
   // Add the new start channel to an existing start_channel, so MSUpdater can
   // still update the correct channel(s) in the original input MS.
-- 
2.43.0


From 2827098ad38ff866a747482afd39146110a60c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:38 +0000
Subject: [PATCH 18/58] fix: DPInfo: forget cached baseline lengths and
 autocorrelations when the antennas change

---
 base/DPInfo.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/DPInfo.cc b/base/DPInfo.cc
index dc392e0..ae6605b 100644
--- a/base/DPInfo.cc
+++ b/base/DPInfo.cc
@@ -270,6 +270,9 @@ void DPInfo::setAntennas(const std::vector<std::string>& antNames,
   antenna_positions_ = antPos;
   antenna1_ = ant1;
   antenna2_ = ant2;
+  // Clear; they'll be recalculated if needed.
+  baseline_lengths_.clear();
+  auto_correlation_indices_.clear();
   // Set which antennae are used.
   setAntUsed();
 }
-- 
2.43.0


From 763f3578a3aae7856cd9adeec25a82f96872bcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:00 +0000
Subject: [PATCH 19/58] fix: KernelSmoother: evaluate the Epanechnikov kernel
 as documented

---
 ddecal/constraints/KernelSmoother.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ddecal/constraints/KernelSmoother.h b/ddecal/constraints/KernelSmoother.h
index a76376e..3df4852 100644
--- a/ddecal/constraints/KernelSmoother.h
+++ b/ddecal/constraints/KernelSmoother.h
@@ -93,12 +93,11 @@ class KernelSmoother {
         else
           return std::exp(-x * x * NumType(9.0));
       case EpanechnikovKernel:
-        /// 3/4 * (1-x)^2;
-        if (_truncate && (x < NumType(-1.0) || x > NumType(1.0))) {
+        /// 3/4 * (1-x^2); always zero outside [-1, 1].
+        if (x < NumType(-1.0) || x > NumType(1.0)) {
           return 0.0;
         } else {
-          x = NumType(1.0) - x;
-          return (NumType(3.0) / NumType(4.0)) * x * x;
+          return (NumType(3.0) / NumType(4.0)) * (NumType(1.0) - x * x);
         }
     }
   }
-- 
2.43.0


From 7e686c057b43f092bd12616ecd196871c7a6a142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:01 +0000
Subject: [PATCH 20/58] fix: order the weights of rotation solutions by
 antenna, direction and channel

---
 ddecal/constraints/RotationAndDiagonalConstraint.cc | 9 ++++++---
 ddecal/constraints/RotationConstraint.cc            | 8 ++++++--
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/ddecal/constraints/RotationAndDiagonalConstraint.cc b/ddecal/constraints/RotationAndDiagonalConstraint.cc
index ccf4b21..d3887fb 100644
--- a/ddecal/constraints/RotationAndDiagonalConstraint.cc
+++ b/ddecal/constraints/RotationAndDiagonalConstraint.cc
@@ -180,9 +180,12 @@ void RotationAndDiagonalConstraint::SetWeights(
   assert(weights.size() == NAntennas() * NChannelBlocks());
   // weights is n_antennas * n_channel_blocks, so it needs to be broadcasted
   // over n_sub_solutions.
-  for (size_t i = 0; i != NSubSolutions(); ++i) {
-    std::copy_n(weights.data(), weights.size(),
-                &results_[0].weights[NAntennas() * NChannelBlocks() * i]);
+  for (size_t antenna = 0; antenna != NAntennas(); ++antenna) {
+    for (size_t i = 0; i != NSubSolutions(); ++i) {
+      std::copy_n(&weights[antenna * NChannelBlocks()], NChannelBlocks(),
+                  &results_[0].weights[(antenna * NSubSolutions() + i) *
+                                       NChannelBlocks()]);
+    }
   }
 
   // Duplicate weights for one or two polarizations and broadcast these over the
diff --git a/ddecal/constraints/RotationConstraint.cc b/ddecal/constraints/RotationConstraint.cc
index 0d3e50e..13c9dce 100644
--- a/ddecal/constraints/RotationConstraint.cc
+++ b/ddecal/constraints/RotationConstraint.cc
@@ -26,8 +26,12 @@ void RotationConstraint::Initialize(
 void RotationConstraint::SetWeights(const std::vector<double>& weights) {
   ConstraintResult& result = results_.front();
   result.weights.clear();
-  for (size_t i = 0; i != NSubSolutions(); ++i) {
-    result.weights.insert(result.weights.end(), weights.begin(), weights.end());
+  for (size_t antenna = 0; antenna != NAntennas(); ++antenna) {
+    const auto antenna_weights = weights.begin() + antenna * NChannelBlocks();
+    for (size_t i = 0; i != NSubSolutions(); ++i) {
+      result.weights.insert(result.weights.end(), antenna_weights,
+                            antenna_weights + NChannelBlocks());
+    }
   }
 }
 
-- 
2.43.0


From 2894957590890f3e194d2e2ae4be96fcdadbd2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:32 +0000
Subject: [PATCH 21/58] fix: limit the second diagonal element by its own mean
 amplitude

---
 ddecal/constraints/RotationAndDiagonalConstraint.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ddecal/constraints/RotationAndDiagonalConstraint.cc b/ddecal/constraints/RotationAndDiagonalConstraint.cc
index d3887fb..f52d23d 100644
--- a/ddecal/constraints/RotationAndDiagonalConstraint.cc
+++ b/ddecal/constraints/RotationAndDiagonalConstraint.cc
@@ -310,7 +310,7 @@ void RotationAndDiagonalConstraint::Apply(SolutionSpan& solutions,
         if (a_mean > 0.0 && Limit(diagonal[0], a_mean, maxratio)) {
           diverged = true;
         }
-        if (b_mean > 0.0 && Limit(diagonal[1], a_mean, maxratio)) {
+        if (b_mean > 0.0 && Limit(diagonal[1], b_mean, maxratio)) {
           diverged = true;
         }
 
-- 
2.43.0


From 8c8036fcd2ee4245995605411c14918c15070c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:09 +0000
Subject: [PATCH 22/58] fix: flag diverged rotation solutions of the right
 direction

---
 ddecal/constraints/RotationAndDiagonalConstraint.cc | 13 ++++++++-----
 ddecal/constraints/RotationAndDiagonalConstraint.h  |  4 ++--
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/ddecal/constraints/RotationAndDiagonalConstraint.cc b/ddecal/constraints/RotationAndDiagonalConstraint.cc
index f52d23d..088d122 100644
--- a/ddecal/constraints/RotationAndDiagonalConstraint.cc
+++ b/ddecal/constraints/RotationAndDiagonalConstraint.cc
@@ -236,10 +236,13 @@ void RotationAndDiagonalConstraint::FitRotationAndDiagonal(
 
 template <size_t PolCount>
 void RotationAndDiagonalConstraint::SetChannelWeights(
-    std::vector<double>& values, size_t channel, double new_value) const {
+    std::vector<double>& values, size_t sub_solution, size_t channel,
+    double new_value) const {
   for (size_t antenna = 0; antenna != NAntennas(); ++antenna) {
+    const size_t index =
+        (antenna * NSubSolutions() + sub_solution) * NChannelBlocks() + channel;
     for (size_t p = 0; p != PolCount; ++p) {
-      values[(antenna * NChannelBlocks() + channel) * PolCount + p] = new_value;
+      values[index * PolCount + p] = new_value;
     }
   }
 }
@@ -344,12 +347,12 @@ void RotationAndDiagonalConstraint::Apply(SolutionSpan& solutions,
       // weights of all antennas to a negative value for flagging later if
       // desired
       if (diverged) {
-        SetChannelWeights<1>(results_[0].weights, ch, -1.0);
+        SetChannelWeights<1>(results_[0].weights, sub_solution, ch, -1.0);
         for (size_t i = 1; i != results_.size(); ++i) {
           if (GetNPolarizations(diagonal_solution_type_) == 1)
-            SetChannelWeights<1>(results_[i].weights, ch, -1.0);
+            SetChannelWeights<1>(results_[i].weights, sub_solution, ch, -1.0);
           else
-            SetChannelWeights<2>(results_[i].weights, ch, -1.0);
+            SetChannelWeights<2>(results_[i].weights, sub_solution, ch, -1.0);
         }
       }
     }
diff --git a/ddecal/constraints/RotationAndDiagonalConstraint.h b/ddecal/constraints/RotationAndDiagonalConstraint.h
index d42b49c..8a29824 100644
--- a/ddecal/constraints/RotationAndDiagonalConstraint.h
+++ b/ddecal/constraints/RotationAndDiagonalConstraint.h
@@ -37,8 +37,8 @@ class RotationAndDiagonalConstraint final : public Constraint {
       std::array<std::complex<double>, 2>& diagonal) const;
 
   template <size_t PolCount>
-  void SetChannelWeights(std::vector<double>& values, size_t channel,
-                         double new_value) const;
+  void SetChannelWeights(std::vector<double>& values, size_t sub_solution,
+                         size_t channel, double new_value) const;
 
   std::vector<ConstraintResult> results_;
   bool do_rotation_reference_;
-- 
2.43.0


From 8e2fe56546a98d52d5b4d37e8508f95a31977a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:51 +0000
Subject: [PATCH 23/58] fix: average amplitudes over the valid antennas only

---
 ddecal/constraints/RotationAndDiagonalConstraint.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ddecal/constraints/RotationAndDiagonalConstraint.cc b/ddecal/constraints/RotationAndDiagonalConstraint.cc
index 088d122..b790181 100644
--- a/ddecal/constraints/RotationAndDiagonalConstraint.cc
+++ b/ddecal/constraints/RotationAndDiagonalConstraint.cc
@@ -259,6 +259,8 @@ void RotationAndDiagonalConstraint::Apply(SolutionSpan& solutions,
       // maxratio constraint below
       double a_mean = 0.0;
       double b_mean = 0.0;
+      size_t a_count = 0;
+      size_t b_count = 0;
       for (size_t ant = 0; ant < NAntennas(); ++ant) {
         std::complex<double>* data = &(solutions(ch, ant, sub_solution, 0));
 
@@ -274,14 +276,16 @@ void RotationAndDiagonalConstraint::Apply(SolutionSpan& solutions,
         const double abs_a = std::abs(diagonal[0]);
         if (std::isfinite(abs_a)) {
           a_mean += abs_a;
+          ++a_count;
         }
         const double abs_b = std::abs(diagonal[1]);
         if (std::isfinite(abs_b)) {
           b_mean += abs_b;
+          ++b_count;
         }
       }
-      a_mean /= NAntennas();
-      b_mean /= NAntennas();
+      if (a_count != 0) a_mean /= a_count;
+      if (b_count != 0) b_mean /= b_count;
 
       double angle0 = std::numeric_limits<double>::quiet_NaN();
 
-- 
2.43.0


From ecb33127b4d1bda874dc8d3a6ac83f2df6b2fd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:33 +0000
Subject: [PATCH 24/58] fix: piecewise phase fits: a window with a single
 weighted value gave NaN

---
 ddecal/constraints/PieceWisePhaseFitter.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ddecal/constraints/PieceWisePhaseFitter.h b/ddecal/constraints/PieceWisePhaseFitter.h
index 3a5a451..14cd999 100644
--- a/ddecal/constraints/PieceWisePhaseFitter.h
+++ b/ddecal/constraints/PieceWisePhaseFitter.h
@@ -330,6 +330,7 @@ class PieceWisePhaseFitter {
 
     double sum_x = 0.0, sum_xSq = 0.0, mean_y = 0.0, ss_xy = 0.0,
            sum_weight = 0.0;
+    size_t n_weighted = 0;
 
     for (size_t i = 0; i != n; ++i) {
       double x = data[i];
@@ -342,10 +343,15 @@ class PieceWisePhaseFitter {
       mean_y += x * weights[i];
       ss_xy += frequencies[i] * x * weights[i];
       sum_weight += weights[i];
+      if (weights[i] != 0.0) ++n_weighted;
     }
     if (sum_weight == 0.0) {
       a = 0.0;
       b = 0.0;
+    } else if (n_weighted == 1) {
+      // A single value does not determine a slope
+      a = mean_y / sum_weight;
+      b = 0.0;
     } else {
       mean_y /= sum_weight;
       double mean_x = sum_x / sum_weight;
-- 
2.43.0


From da3c10e6204210405646c3bfc2f045032302a292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:33 +0000
Subject: [PATCH 25/58] fix: fitting TEC and offset used the value of the
 offset on input

---
 base/PhaseFitter.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/PhaseFitter.cc b/base/PhaseFitter.cc
index 6b1b9ef..453b14c 100644
--- a/base/PhaseFitter.cc
+++ b/base/PhaseFitter.cc
@@ -109,6 +109,7 @@ void PhaseFitter::fillDataWithTEC1Model(double alpha) {
 
 void PhaseFitter::FitTEC2ModelParameters(double& alpha, double& beta) const {
   double lowerAlpha = -40000.0e6, upperAlpha = 40000.0e6;
+  beta = 0.0;
   bruteForceSearchTEC2Model(lowerAlpha, upperAlpha, beta);
   alpha = (lowerAlpha + upperAlpha) * 0.5;
   // beta = fitBeta(alpha, beta);
-- 
2.43.0


From 5882331722b16aa444a3c51ada04704e502bb67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:05 +0000
Subject: [PATCH 26/58] fix: Grid::toDomains wrote beyond its arrays for grids
 with more y than x cells

---
 parmdb/Grid.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parmdb/Grid.cc b/parmdb/Grid.cc
index b79a7ed..2b7e43d 100644
--- a/parmdb/Grid.cc
+++ b/parmdb/Grid.cc
@@ -240,7 +240,7 @@ void Grid::toDomains(std::vector<Box>& domains) const {
   unsigned int nry = ny();
   // Prefetch the lower and upper values for both axes.
   std::vector<double> sx(nrx), ex(nrx);
-  std::vector<double> sy(nrx), ey(nrx);
+  std::vector<double> sy(nry), ey(nry);
   for (unsigned int i = 0; i < nrx; ++i) {
     sx[i] = xaxis.lower(i);
     ex[i] = xaxis.upper(i);
-- 
2.43.0


From 6554e9454d45ee0c39fcba8b304f8813147f7e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:24 +0000
Subject: [PATCH 27/58] fix: Axis::combine read beyond the axes when partially
 overlapping intervals differ

---
 parmdb/Axis.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parmdb/Axis.cc b/parmdb/Axis.cc
index 24c81ae..e09256f 100644
--- a/parmdb/Axis.cc
+++ b/parmdb/Axis.cc
@@ -226,6 +226,8 @@ Axis::ShPtr Axis::combine(const Axis& that, int& s1, int& e1, int& s2,
   }
   ++nr;
   // Check if the overlapping parts match.
+  if (nr <= 0 || s2 + nr > nr1 || s1 + nr > nr2)
+    throw std::runtime_error("Axis::combine: intervals mismatch");
   for (int i = 0; i < nr; ++i) {
     double low1 = lower(s2 + i);
     double upp1 = upper(s2 + i);
-- 
2.43.0


From 4200566f66d8dc09ef403c065ee2144dae084177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:30 +0000
Subject: [PATCH 28/58] fix: combining axes with gaps gave a regular axis
 without the gaps

---
 parmdb/Axis.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parmdb/Axis.cc b/parmdb/Axis.cc
index e09256f..d2c0d87 100644
--- a/parmdb/Axis.cc
+++ b/parmdb/Axis.cc
@@ -320,10 +320,12 @@ Axis::ShPtr Axis::add(const Axis& that) const {
 Axis::ShPtr Axis::makeAxis(const std::vector<double>& low,
                            const std::vector<double>& upp) {
   assert(low.size() == upp.size() && low.size() > 0);
-  // Check if the width is constant, thus if the result is a regular axis.
+  // Check if the width is constant and the intervals are consecutive, thus if
+  // the result is a regular axis.
   double width = upp[0] - low[0];
   for (unsigned int i = 1; i < low.size(); ++i) {
-    if (!casacore::near(width, upp[i] - low[i])) {
+    if (!casacore::near(width, upp[i] - low[i]) ||
+        !casacore::near(upp[i - 1], low[i])) {
       return std::make_shared<OrderedAxis>(low, upp, true);
     }
   }
-- 
2.43.0


From c3e8d140de418ac2b65d238903d1207250e757f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:02 +0000
Subject: [PATCH 29/58] fix: a subset of an axis ending in a gap included the
 cell after the gap

---
 parmdb/Axis.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/parmdb/Axis.cc b/parmdb/Axis.cc
index d2c0d87..b08c5e5 100644
--- a/parmdb/Axis.cc
+++ b/parmdb/Axis.cc
@@ -342,10 +342,15 @@ Axis::ShPtr Axis::subset(double start, double end, size_t& index) const {
   if (end < rng.second) {
     std::pair<size_t, bool> res = find(end, false);
     einx = res.first;
-    if (einx == 0 && !res.second) {
-      // Entire interval before the range, so make sinx>einx to return
-      // a default axis.
-      sinx = 1;
+    if (!res.second) {
+      if (einx == 0) {
+        // Entire interval before the range, so make sinx>einx to return
+        // a default axis.
+        sinx = 1;
+      } else {
+        // The end is in a gap, so the cell found is past it.
+        --einx;
+      }
     }
   }
 
-- 
2.43.0


From 812a708e41dbc02e85515a0d1bac8404ccd46bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:12 +0000
Subject: [PATCH 30/58] fix: start the fit of beta from the circular mean

---
 base/PhaseFitter.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/base/PhaseFitter.cc b/base/PhaseFitter.cc
index 453b14c..86b534d 100644
--- a/base/PhaseFitter.cc
+++ b/base/PhaseFitter.cc
@@ -25,6 +25,17 @@ double PhaseFitter::TEC2ModelCost(double alpha, double beta) const {
 }
 
 double PhaseFitter::fitTEC2ModelBeta(double alpha, double betaEstimate) const {
+  // Start from the circular mean: from an estimate that is about half a turn
+  // off, the differences wrap to both sides and would cancel.
+  double sumSin = 0.0, sumCos = 0.0;
+  for (size_t i = 0; i != Size(); ++i) {
+    if (_weights[i] == 0.0) continue;
+    const double d = _phases[i] - TEC2ModelFunc(_frequencies[i], alpha, 0.0);
+    sumSin += std::sin(d) * _weights[i];
+    sumCos += std::cos(d) * _weights[i];
+  }
+  if (sumSin != 0.0 || sumCos != 0.0) betaEstimate = std::atan2(sumSin, sumCos);
+
   double weightSum = 0.0;
   for (size_t iter = 0; iter != 3; ++iter) {
     double sum = 0.0;
-- 
2.43.0


From 277da259bffa5e2bce83fedd63e968d11daba665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:33 +0000
Subject: [PATCH 31/58] fix: the declination of a patch was not that of its
 mean direction

---
 sky_model/PatchInfo.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sky_model/PatchInfo.h b/sky_model/PatchInfo.h
index 1ca6d8e..98d71d3 100644
--- a/sky_model/PatchInfo.h
+++ b/sky_model/PatchInfo.h
@@ -84,7 +84,11 @@ class PatchSumInfo {
   double getRa() const {
     return std::atan2(itsSumY / itsSumFlux, itsSumX / itsSumFlux);
   }
-  double getDec() const { return std::asin(itsSumZ / itsSumFlux); }
+  double getDec() const {
+    // The sum of the weighted unit vectors is generally not a unit vector.
+    return std::atan2(itsSumZ / itsSumFlux,
+                      std::hypot(itsSumX, itsSumY) / std::abs(itsSumFlux));
+  }
 
   /// Get the patchId.
   unsigned int getPatchId() const { return itsPatchId; }
-- 
2.43.0


From 31b16ad5cd554e5b3ea888a45f3469bb643bee1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:33 +0000
Subject: [PATCH 32/58] fix: an empty sky model format threw instead of using
 the default

---
 sky_model/ReadSkyModel.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sky_model/ReadSkyModel.cc b/sky_model/ReadSkyModel.cc
index c8cab68..2c124b0 100644
--- a/sky_model/ReadSkyModel.cc
+++ b/sky_model/ReadSkyModel.cc
@@ -231,9 +231,9 @@ SdbFormat getFormat(const std::string& format) {
     sdbf.fieldNrs[i] = -1;
   }
   // Use default if the string is empty.
-  if (st >= end - 1) {
+  if (st + 1 >= end) {
     char sep = ',';
-    if (st == end - 1) sep = format[st];
+    if (st + 1 == end) sep = format[st];
     for (unsigned int i = 0; i < NrKnownFields; ++i) {
       sdbf.fieldNrs[i] = i;
       sdbf.sep.push_back(sep);
-- 
2.43.0


From 4aac614445285676dc9301d581c353643a8f4471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:33 +0000
Subject: [PATCH 33/58] fix: minutes and seconds were added to -0 degrees in
 sky models

---
 sky_model/ReadSkyModel.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sky_model/ReadSkyModel.cc b/sky_model/ReadSkyModel.cc
index 2c124b0..5ee6596 100644
--- a/sky_model/ReadSkyModel.cc
+++ b/sky_model/ReadSkyModel.cc
@@ -504,7 +504,7 @@ double string2pos(const std::vector<std::string>& values, int pnr, int hnr,
         fnd = true;
       }
     }
-    if (deg < 0) {
+    if (std::signbit(deg)) {  // also true for -0
       deg -= ms / 60;
     } else {
       deg += ms / 60;
-- 
2.43.0


From d1d16ee0351bf3e1472d51dbc4adf2d88e9b7a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:33 +0000
Subject: [PATCH 34/58] fix: the direction of a source cluster across right
 ascension zero

---
 sky_model/SkyModelFunctions.cc | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/sky_model/SkyModelFunctions.cc b/sky_model/SkyModelFunctions.cc
index a679830..0c127eb 100644
--- a/sky_model/SkyModelFunctions.cc
+++ b/sky_model/SkyModelFunctions.cc
@@ -195,15 +195,11 @@ std::vector<std::shared_ptr<Patch>> clusterProximateSources(
   std::vector<std::shared_ptr<Patch>> clusteredPatchList;
   for (const auto& groups : clusters) {
     std::vector<std::shared_ptr<ModelComponent>> componentsInPatch;
-    double alpha = 0.0;
-    double delta = 0.0;
     for (const auto& component : groups) {
       auto lookupIndices = lookup_table[component];
       const auto& patch = patch_list[lookupIndices.first];
       const std::shared_ptr<ModelComponent>& comp =
           *(patch->begin() + lookupIndices.second);
-      alpha += comp->direction().ra;
-      delta += comp->direction().dec;
       componentsInPatch.emplace_back(comp);
     }
     const std::shared_ptr<Patch>& firstPatch =
@@ -211,8 +207,6 @@ std::vector<std::shared_ptr<Patch>> clusterProximateSources(
     std::shared_ptr<Patch> ppatch = std::make_shared<Patch>(
         firstPatch->Name() + "_" + std::to_string(clusteredPatchList.size()),
         componentsInPatch.begin(), componentsInPatch.end());
-    ppatch->SetDirection(
-        Direction(alpha / groups.size(), delta / groups.size()));
     clusteredPatchList.push_back(std::move(ppatch));
   }
 
-- 
2.43.0


From aeee9c4216349b96f5d9f53ebdb65172d4c75390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:18 +0000
Subject: [PATCH 35/58] fix: PreFlagger flagged all channels if its channel
 selection matched none

---
 steps/PreFlagger.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/steps/PreFlagger.cc b/steps/PreFlagger.cc
index bf7b759..2a2be0b 100644
--- a/steps/PreFlagger.cc
+++ b/steps/PreFlagger.cc
@@ -318,9 +318,7 @@ void PreFlagger::PSet::updateInfo(const DPInfo& info) {
   // Determine the channels to be flagged.
   if (!(itsStrChan.empty() && itsStrFreq.empty())) {
     fillChannels(info);
-    if (!itsChannels.empty()) {
-      itsFlagOnTimeOnly = false;
-    }
+    itsFlagOnTimeOnly = false;
   }
   // Do the same for the child steps.
   for (unsigned int i = 0; i < itsPSets.size(); ++i) {
@@ -509,7 +507,8 @@ xt::xtensor<uint8_t, 2>* PreFlagger::PSet::process(
     flagPtr += n_channels;
   }
   // Flag on channel if necessary.
-  if (!itsChannels.empty()) {
+  // Note that the selection may match none of the channels.
+  if (!(itsStrChan.empty() && itsStrFreq.empty())) {
     flagChannels();
   }
   // Flag on amplitude, phase or real/imaginary if necessary.
-- 
2.43.0


From cbc34861f48e4b8991f52c4cb9c818c460fc57db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:30 +0000
Subject: [PATCH 36/58] fix: UVWFlagger uvmrange with a negative lower bound
 missed short baselines

---
 steps/UVWFlagger.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/steps/UVWFlagger.cc b/steps/UVWFlagger.cc
index 8c9702f..9e58954 100644
--- a/steps/UVWFlagger.cc
+++ b/steps/UVWFlagger.cc
@@ -21,6 +21,7 @@
 
 #include <algorithm>
 #include <array>
+#include <cmath>
 #include <iostream>
 
 using dp3::base::BdaBuffer;
@@ -70,6 +71,8 @@ void UVWFlagger::show(std::ostream& os) const {
   for (unsigned int i = 0; i < uvm.size(); ++i) {
     if (uvm[i] > 0) {
       uvm[i] = sqrt(uvm[i]);
+    } else if (uvm[i] != -1e15) {
+      uvm[i] = -sqrt(-uvm[i]);
     }
   }
   os << "  uvm:            " << uvm << '\n';
@@ -364,7 +367,8 @@ std::vector<double> UVWFlagger::fillUVW(const common::ParameterSet& parset,
     for (std::vector<double>::iterator iter = vals.begin(); iter != vals.end();
          ++iter) {
       if (*iter != -1e15) {
-        *iter = *iter * *iter;
+        // Keep the sign: a distance always exceeds a negative bound.
+        *iter = *iter * std::abs(*iter);
       }
     }
   }
-- 
2.43.0


From 9059fc595155b2d96969cbae933ff0066d86cbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:30 +0000
Subject: [PATCH 37/58] fix: UVWFlagger ignored the frame given in phasecenter

---
 steps/UVWFlagger.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/steps/UVWFlagger.cc b/steps/UVWFlagger.cc
index 9e58954..be9d89e 100644
--- a/steps/UVWFlagger.cc
+++ b/steps/UVWFlagger.cc
@@ -409,6 +409,7 @@ void UVWFlagger::handleCenter() {
         throw std::runtime_error(str +
                                  " is an invalid direction type in UVWFlagger"
                                  " in UVWFlagger phasecenter");
+      type = tp;
     }
     phaseCenter = casacore::MDirection(q0, q1, type);
   }
-- 
2.43.0


From 19e2c52cd14295a8e3632ab7c8d254bd8c20ee39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:30 +0000
Subject: [PATCH 38/58] fix: FlagCounter divided by zero if no data were
 processed

---
 base/FlagCounter.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/base/FlagCounter.cc b/base/FlagCounter.cc
index fff44de..f780e83 100644
--- a/base/FlagCounter.cc
+++ b/base/FlagCounter.cc
@@ -122,7 +122,7 @@ void FlagCounter::showStation(std::ostream& os, int64_t ntimes) const {
 
   // Calculate the flag ratios per antenna.
   for (size_t ant = 0; ant != nrAnt; ++ant) {
-    if (nUsedAnt[ant] > 0) {
+    if (nUsedAnt[ant] > 0 && nPoints > 0) {
       flagRatiosPerAntenna[ant] =
           double(countAnt[ant]) / double(nUsedAnt[ant] * nPoints);
     }
@@ -150,6 +150,10 @@ void FlagCounter::showBaseline(std::ostream& os, int64_t ntimes) const {
   os << std::endl
      << "Percentage of visibilities flagged per baseline"
         " (antenna pair):";
+  if (nPoints == 0) {
+    os << std::endl;
+    return;
+  }
   std::vector<int>::const_iterator ant1_max =
       std::max_element(ant1.begin(), ant1.end());
   std::vector<int>::const_iterator ant2_max =
-- 
2.43.0


From 1f9573d65b66f6442ac04a2a174e46291a2e9bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:56 +0000
Subject: [PATCH 39/58] fix: FlagCounter read frequencies beyond the first
 baseline's channels for BDA data

---
 base/FlagCounter.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/base/FlagCounter.cc b/base/FlagCounter.cc
index f780e83..81bcf5b 100644
--- a/base/FlagCounter.cc
+++ b/base/FlagCounter.cc
@@ -20,6 +20,7 @@
 #include "common/ParameterSet.h"
 #include "common/StreamUtil.h"
 
+#include <algorithm>
 #include <cassert>
 #include <vector>
 #include <map>
@@ -404,8 +405,14 @@ void FlagCounter::saveChannel(int64_t nPoints,
   Table tab(newtab);
   ScalarColumn<double> freqCol(tab, "Frequency");
   ScalarColumn<float> percCol(tab, "Percentage");
-  // Get the channel frequencies.
-  const std::vector<double>& chanFreqs = info_->chanFreqs();
+  // Get the channel frequencies. With BDA data, the number of channels differs
+  // per baseline and the counters cover the highest number of channels.
+  const std::vector<std::vector<double>>& all_freqs = info_->BdaChanFreqs();
+  const std::vector<double>& chanFreqs = *std::max_element(
+      all_freqs.begin(), all_freqs.end(),
+      [](const std::vector<double>& a, const std::vector<double>& b) {
+        return a.size() < b.size();
+      });
   for (unsigned int i = 0; i < count.size(); ++i) {
     int rownr = tab.nrow();
     tab.addRow();
-- 
2.43.0


From 90921ba4da523d292632b7bfd0870ce01adcb3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:29 +0000
Subject: [PATCH 40/58] fix: SolveData read a third dimension of the
 two-dimensional weights for BDA data

---
 ddecal/gain_solvers/SolveData.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ddecal/gain_solvers/SolveData.cc b/ddecal/gain_solvers/SolveData.cc
index 57e0c61..8ac2435 100644
--- a/ddecal/gain_solvers/SolveData.cc
+++ b/ddecal/gain_solvers/SolveData.cc
@@ -252,7 +252,7 @@ SolveData<MatrixType>::SolveData(
         }
         if (with_weights) {
           for (size_t i = 0; i != channel_block_size; ++i) {
-            for (size_t p = 0; p != cb_data.weights_.shape()[2]; ++p) {
+            for (size_t p = 0; p != cb_data.weights_.shape()[1]; ++p) {
               cb_data.weights_(vis_index + i, p) =
                   1.0;  // TODO use real vis weights
             }
-- 
2.43.0


From 9ce0e0c23319a542ebb92dc5927b7ffe1dd754da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:41 +0000
Subject: [PATCH 41/58] fix: non-finite start values were replaced by the first
 polarization's average amplitude in all polarizations

---
 ddecal/gain_solvers/SolverBase.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ddecal/gain_solvers/SolverBase.cc b/ddecal/gain_solvers/SolverBase.cc
index 093754c..9166e67 100644
--- a/ddecal/gain_solvers/SolverBase.cc
+++ b/ddecal/gain_solvers/SolverBase.cc
@@ -351,7 +351,7 @@ void SolverBase::MakeSolutionsFinite2Pol(
     for (std::vector<DComplex>::iterator iter = solution_vector.begin();
          iter != solution_vector.end(); iter += 2) {
       if (IsFinite(*iter) && IsFinite(*(iter + 1))) {
-        for (size_t p = 0; p != 2; ++p) average[p] += std::abs(iter[0]);
+        for (size_t p = 0; p != 2; ++p) average[p] += std::abs(iter[p]);
         ++count;
       }
     }
@@ -382,7 +382,7 @@ void SolverBase::MakeSolutionsFinite4Pol(
     for (std::vector<DComplex>::iterator iter = solution_vector.begin();
          iter != solution_vector.end(); iter += 4) {
       if (aocommon::Matrix2x2::IsFinite(&*iter)) {
-        for (size_t p = 0; p != 4; ++p) average[p] += std::abs(iter[0]);
+        for (size_t p = 0; p != 4; ++p) average[p] += std::abs(iter[p]);
         ++count;
       }
     }
-- 
2.43.0


From da3cbf34e3381f6dcda50323b0a1777cb4db98f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:41 +0000
Subject: [PATCH 42/58] fix: solvers took the first visibility's solution for
 the first solution of a direction, which writes out of bounds with BDA data

---
 ddecal/gain_solvers/DiagonalAntennaSolver.cc    |  3 ++-
 ddecal/gain_solvers/DiagonalLowRankSolver.cc    |  2 +-
 ddecal/gain_solvers/IterativeDiagonalSolver.cc  |  2 +-
 ddecal/gain_solvers/IterativeFullJonesSolver.cc |  2 +-
 ddecal/gain_solvers/IterativeScalarSolver.cc    |  2 +-
 ddecal/gain_solvers/SolveData.h                 | 14 +++++++++++---
 6 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/ddecal/gain_solvers/DiagonalAntennaSolver.cc b/ddecal/gain_solvers/DiagonalAntennaSolver.cc
index 82b083e..fe82ff4 100644
--- a/ddecal/gain_solvers/DiagonalAntennaSolver.cc
+++ b/ddecal/gain_solvers/DiagonalAntennaSolver.cc
@@ -297,7 +297,8 @@ void DiagonalAntennaSolver::PerformIteration(
                                          direction, NSubSolutions(), solutions,
                                          NSubThreads());
 
-    const uint32_t solution_index0 = ch_block_data.SolutionIndex(direction, 0);
+    const uint32_t solution_index0 =
+        ch_block_data.FirstSolutionIndex(direction);
     for (uint32_t direction_solution = 0;
          direction_solution != n_direction_solutions; ++direction_solution) {
       SolveDirectionSolution(ch_block, ch_block_data, residual_data, direction,
diff --git a/ddecal/gain_solvers/DiagonalLowRankSolver.cc b/ddecal/gain_solvers/DiagonalLowRankSolver.cc
index 41a8421..9fcde96 100644
--- a/ddecal/gain_solvers/DiagonalLowRankSolver.cc
+++ b/ddecal/gain_solvers/DiagonalLowRankSolver.cc
@@ -229,7 +229,7 @@ void DiagonalLowRankSolver::PerformIteration(
                                          NSubSolutions(), solutions,
                                          NSubThreads());
 
-    const uint32_t solution_index0 = cb_data.SolutionIndex(direction, 0);
+    const uint32_t solution_index0 = cb_data.FirstSolutionIndex(direction);
     for (uint32_t direction_solution = 0;
          direction_solution != n_direction_solutions; ++direction_solution) {
       SolveDirectionSolution(ch_block, cb_data, v_residual, direction,
diff --git a/ddecal/gain_solvers/IterativeDiagonalSolver.cc b/ddecal/gain_solvers/IterativeDiagonalSolver.cc
index 89d5d82..9397af8 100644
--- a/ddecal/gain_solvers/IterativeDiagonalSolver.cc
+++ b/ddecal/gain_solvers/IterativeDiagonalSolver.cc
@@ -144,7 +144,7 @@ void IterativeDiagonalSolver<VisMatrix>::SolveDirection(
 
   // Iterate over all data
   const size_t n_visibilities = cb_data.NVisibilities();
-  const uint32_t solution_index0 = cb_data.SolutionIndex(direction, 0);
+  const uint32_t solution_index0 = cb_data.FirstSolutionIndex(direction);
 
   std::mutex mutex;
   schaapcommon::RunConstrainedStaticFor<size_t>(
diff --git a/ddecal/gain_solvers/IterativeFullJonesSolver.cc b/ddecal/gain_solvers/IterativeFullJonesSolver.cc
index bab9eeb..e5db3fa 100644
--- a/ddecal/gain_solvers/IterativeFullJonesSolver.cc
+++ b/ddecal/gain_solvers/IterativeFullJonesSolver.cc
@@ -118,7 +118,7 @@ void IterativeFullJonesSolver::SolveDirection(
 
   // Iterate over all data
   const size_t n_visibilities = cb_data.NVisibilities();
-  const uint32_t solution_index0 = cb_data.SolutionIndex(direction, 0);
+  const uint32_t solution_index0 = cb_data.FirstSolutionIndex(direction);
 
   std::mutex mutex;
   schaapcommon::RunConstrainedStaticFor<size_t>(
diff --git a/ddecal/gain_solvers/IterativeScalarSolver.cc b/ddecal/gain_solvers/IterativeScalarSolver.cc
index 8fe5d25..fef3884 100644
--- a/ddecal/gain_solvers/IterativeScalarSolver.cc
+++ b/ddecal/gain_solvers/IterativeScalarSolver.cc
@@ -132,7 +132,7 @@ void IterativeScalarSolver<VisMatrix>::SolveDirection(
 
   // Iterate over all data
   const size_t n_visibilities = cb_data.NVisibilities();
-  const uint32_t solution_index0 = cb_data.SolutionIndex(direction, 0);
+  const uint32_t solution_index0 = cb_data.FirstSolutionIndex(direction);
 
   std::mutex mutex;
   schaapcommon::RunConstrainedStaticFor<size_t>(
diff --git a/ddecal/gain_solvers/SolveData.h b/ddecal/gain_solvers/SolveData.h
index 9f89731..38cda06 100644
--- a/ddecal/gain_solvers/SolveData.h
+++ b/ddecal/gain_solvers/SolveData.h
@@ -74,9 +74,8 @@ class SolveData {
      * When using direction-dependent intervals, a single direction might
      * have multiple solutions. The solution index is absolute, meaning that
      * direction zero starts counting at zero and indices of subsequent
-     * directions start after the previous direction. For every direction, the
-     * first solution index is also the lowest value, i.e. SolutionIndex(D, 0)
-     * <= SolutionIndex(D, i) for any i,D.
+     * directions start after the previous direction. With BDA data, the first
+     * visibility does not necessarily have the first solution of a direction.
      */
     uint32_t SolutionIndex(size_t direction_index,
                            size_t visibility_index) const {
@@ -101,6 +100,15 @@ class SolveData {
       return n_solutions_[direction_index];
     }
 
+    /**
+     * @return The absolute index of the first solution of the given direction.
+     */
+    uint32_t FirstSolutionIndex(size_t direction_index) const {
+      return std::accumulate(n_solutions_.begin(),
+                             n_solutions_.begin() + direction_index,
+                             uint32_t(0));
+    }
+
     /**
      * @return Total number of solutions. This is the sum of the solutions
      * over all directions.
-- 
2.43.0


From 2f3fea1ab922230dc33bbb6c775d492f88123a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:41 +0000
Subject: [PATCH 43/58] fix: the low rank solver never noticed convergence

---
 ddecal/gain_solvers/DiagonalLowRankSolver.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ddecal/gain_solvers/DiagonalLowRankSolver.cc b/ddecal/gain_solvers/DiagonalLowRankSolver.cc
index 9fcde96..5c1a3e6 100644
--- a/ddecal/gain_solvers/DiagonalLowRankSolver.cc
+++ b/ddecal/gain_solvers/DiagonalLowRankSolver.cc
@@ -119,11 +119,11 @@ DiagonalLowRankSolver::SolveResult DiagonalLowRankSolver::Solve(
 
     Step(solutions, next_solutions);
 
-    bool constraints_satisfied = ApplyConstraints(
+    constraints_satisfied = ApplyConstraints(
         iteration, time, has_previously_converged, next_solutions);
 
     double avg_squared_diff;
-    bool has_converged =
+    has_converged =
         AssignSolutions(solutions, next_solutions, !constraints_satisfied,
                         avg_squared_diff, step_magnitudes);
     iteration++;
-- 
2.43.0


From 1e7756004476cc23510fefe6e037ed34b6d07b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:41 +0000
Subject: [PATCH 44/58] fix: the low rank solver kept using the direction
 ordering of its first solve

---
 ddecal/gain_solvers/DiagonalLowRankSolver.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ddecal/gain_solvers/DiagonalLowRankSolver.cc b/ddecal/gain_solvers/DiagonalLowRankSolver.cc
index 5c1a3e6..fe922ed 100644
--- a/ddecal/gain_solvers/DiagonalLowRankSolver.cc
+++ b/ddecal/gain_solvers/DiagonalLowRankSolver.cc
@@ -78,6 +78,7 @@ DiagonalLowRankSolver::SolveResult DiagonalLowRankSolver::Solve(
   PrepareConstraints();
 
   const bool subtract_immediately = GetStepSize() > 0.99;
+  direction_ordering_.clear();
   if (subtract_immediately) {
     CalculateNormPerDirection(data);
   } else {
-- 
2.43.0


From dd8f89a50c1082a81108e211e6a44ce003223169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:04 +0000
Subject: [PATCH 45/58] fix: one flagged visibility made the low rank solutions
 of all antennas invalid

---
 ddecal/gain_solvers/DiagonalLowRankSolver.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ddecal/gain_solvers/DiagonalLowRankSolver.cc b/ddecal/gain_solvers/DiagonalLowRankSolver.cc
index fe922ed..d653595 100644
--- a/ddecal/gain_solvers/DiagonalLowRankSolver.cc
+++ b/ddecal/gain_solvers/DiagonalLowRankSolver.cc
@@ -19,11 +19,12 @@ void AddToCorrelation(std::complex<float>& correlation_element,
                       const std::complex<float>& data, float weight,
                       const std::complex<float>& model) {
   if (std::isfinite(data.real()) && std::isfinite(data.imag())) {
-    const std::complex<float> division = data / model;
-    // VAR(division) = VAR(data / model) = VAR(data) / model^2
+    // The correlation element averages data / model values, with
+    // VAR(data / model) = VAR(data) / model^2
     const float inv_divisor_variance = std::norm(model);
-    // Perform inverse-variance weighting, hence multiply with 1/model^2
-    correlation_element += weight * inv_divisor_variance * division;
+    // Perform inverse-variance weighting, hence multiply with model^2. Because
+    // data / model * model^2 = data * conj(model), zero models are supported.
+    correlation_element += weight * data * std::conj(model);
     // VAR(weight * division / model^2) = VAR(data) * weight^2 / norm(model)^2 *
     // norm(model)^2
     variance_element +=
-- 
2.43.0


From 2a070d479c771a45a400879bfede637a85979acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:04 +0000
Subject: [PATCH 46/58] fix: the low rank solver subtracted directions with the
 first channel block's solutions from all channel blocks

---
 ddecal/gain_solvers/DiagonalLowRankSolver.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ddecal/gain_solvers/DiagonalLowRankSolver.cc b/ddecal/gain_solvers/DiagonalLowRankSolver.cc
index d653595..e3744a0 100644
--- a/ddecal/gain_solvers/DiagonalLowRankSolver.cc
+++ b/ddecal/gain_solvers/DiagonalLowRankSolver.cc
@@ -239,8 +239,9 @@ void DiagonalLowRankSolver::PerformIteration(
                              next_solutions);
     }
     if (subtract_immediately) {
-      std::vector<DComplex> new_solutions(next_solutions.begin(),
-                                          next_solutions.end());
+      const DComplex* const begin = &next_solutions(ch_block, 0, 0, 0);
+      const std::vector<DComplex> new_solutions(begin,
+                                                begin + solutions.size());
       DiagonalAddOrSubtractDirection<false>(cb_data, v_residual, direction,
                                             NSubSolutions(), new_solutions,
                                             NSubThreads());
-- 
2.43.0


From aadc049a2dd0db87059097db3bf93cec1aa1b6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:04 +0000
Subject: [PATCH 47/58] fix: the hybrid solver subtracted iterations of earlier
 stages again from the available ones

---
 ddecal/gain_solvers/HybridSolver.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ddecal/gain_solvers/HybridSolver.cc b/ddecal/gain_solvers/HybridSolver.cc
index d9ecd54..bcd39d9 100644
--- a/ddecal/gain_solvers/HybridSolver.cc
+++ b/ddecal/gain_solvers/HybridSolver.cc
@@ -53,7 +53,7 @@ bool HybridSolver::RunSolver(SolverBase& solver, size_t& available_iterations,
   result.results = std::move(nextResult.results);
   const bool is_converged = nextResult.iterations <= solver.GetMaxIterations();
   if (is_converged)
-    available_iterations -= result.iterations;
+    available_iterations -= nextResult.iterations;
   else  // If not converged, the solver has taken the maximum nr of
         // iterations.
     available_iterations -= solver.GetMaxIterations();
-- 
2.43.0


From 74a4b11ff10abbb90ea91ca27b6b0af50c19a6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:04 +0000
Subject: [PATCH 48/58] fix: SolveData used the first of zero buffers

---
 ddecal/gain_solvers/SolveData.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ddecal/gain_solvers/SolveData.cc b/ddecal/gain_solvers/SolveData.cc
index 8ac2435..d6b26a4 100644
--- a/ddecal/gain_solvers/SolveData.cc
+++ b/ddecal/gain_solvers/SolveData.cc
@@ -89,7 +89,8 @@ SolveData<MatrixType>::SolveData(
       buffers.empty() ? 0 : buffers.front().GetData().shape(1);
   const size_t n_directions = direction_names.size();
   assert(n_solutions_per_direction.size() == n_directions);
-  const bool has_weights = buffers.front().GetWeights().size() != 0;
+  const bool has_weights =
+      !buffers.empty() && buffers.front().GetWeights().size() != 0;
 
   // Count nr of baselines with cross-correlated antennas.
   size_t n_baselines = 0;
-- 
2.43.0


From 9facc60db1dc17f3fd696990a9c6f33a8627ac71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:25 +0000
Subject: [PATCH 49/58] fix: fullModuleName missed a module when its name also
 ends a later name part

---
 common/ParameterSetImpl.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/common/ParameterSetImpl.cc b/common/ParameterSetImpl.cc
index 1a5af80..091a0aa 100644
--- a/common/ParameterSetImpl.cc
+++ b/common/ParameterSetImpl.cc
@@ -642,8 +642,10 @@ std::string ParameterSetImpl::fullModuleName(
   const_iterator iter = begin();
   const_iterator eom = end();
   while ((iter != eom)) {
-    std::string::size_type start = moduleName(iter->first).rfind(shortKey);
-    if (start != std::string::npos) {
+    const std::string module = moduleName(iter->first);
+    std::string::size_type start = module.rfind(shortKey);
+    // The last occurrence can be a part of a name, so try the earlier ones too.
+    while (start != std::string::npos) {
       std::string::size_type keyLen = shortKey.length();
       std::string::size_type last = start + keyLen;
       std::string::size_type iterLen = (iter->first).length();
@@ -652,6 +654,8 @@ std::string ParameterSetImpl::fullModuleName(
         std::string prefix = iter->first.substr(0, start);
         return (prefix + shortKey);
       }
+      if (start == 0) break;
+      start = module.rfind(shortKey, start - 1);
     }
     iter++;
   }
-- 
2.43.0


From 45430ecf98c5542333277750e768089aef215f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:55 +0000
Subject: [PATCH 50/58] fix: time smearing was not applied to point sources
 when predicting all polarizations without frequency smearing

---
 base/Simulator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/Simulator.cc b/base/Simulator.cc
index 52f2ae6..0342e4d 100644
--- a/base/Simulator.cc
+++ b/base/Simulator.cc
@@ -255,7 +255,7 @@ void Simulator::visit(const PointSource& component) {
           ++y_q;
         }  // Channels.
 
-        if (itsCorrectFreqSmearing) {
+        if (itsCorrectTimeSmearing || itsCorrectFreqSmearing) {
 #pragma GCC ivdep
           for (size_t ch = 0; ch < itsNChannel; ++ch) {
             *buffer++ += dcomplex(smear_terms[ch] * temp_prod_real_I[ch],
-- 
2.43.0


From eae18977e30999afc6191a72598cf2a29adbb59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:15 +0000
Subject: [PATCH 51/58] fix: Filter kept all baselines if its baseline
 selection matched none

---
 steps/Filter.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/steps/Filter.cc b/steps/Filter.cc
index 304e14a..1f24193 100644
--- a/steps/Filter.cc
+++ b/steps/Filter.cc
@@ -93,6 +93,10 @@ void Filter::updateInfo(const base::DPInfo& infoIn) {
         itsSelBL.push_back(i);
       }
     }
+    if (itsSelBL.empty()) {
+      throw std::runtime_error("Filter " + itsName +
+                               ": the baseline selection matches no baselines");
+    }
     if (itsSelBL.size() < ant1.size()) {
       itsDoSelect = true;
     }
-- 
2.43.0


From a68511ebae780291893f7ea917950eb12b57ca0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:15 +0000
Subject: [PATCH 52/58] fix: Upsample kept the first and last time of the input
 intervals

---
 steps/Upsample.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/steps/Upsample.cc b/steps/Upsample.cc
index 80e236c..2e9312d 100644
--- a/steps/Upsample.cc
+++ b/steps/Upsample.cc
@@ -51,9 +51,13 @@ Upsample::~Upsample() {}
 
 void Upsample::updateInfo(const DPInfo& info_in) {
   Step::updateInfo(info_in);
+  // The first and last time are those of the first and last upsampled interval.
+  const double shift = 0.5 * info_in.timeInterval() * (1.0 - 1.0 / time_step_);
+  GetWritableInfoOut().setTimes(info_in.firstTime() - shift,
+                                info_in.lastTime() + shift,
+                                info_in.timeInterval() / time_step_);
   GetWritableInfoOut().setTimeIntervalAndSteps(
-      getInfoOut().timeInterval() / time_step_,
-      getInfoOut().ntime() * time_step_);
+      info_in.timeInterval() / time_step_, info_in.ntime() * time_step_);
   GetWritableInfoOut().setMetaChanged();
 
   if (update_uvw_) {
-- 
2.43.0


From 248b011e0048566aabca93702bcfe9731d2ad817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:15 +0000
Subject: [PATCH 53/58] fix: Upsample flushed buffers it never had when there
 was no input

---
 steps/Upsample.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/steps/Upsample.cc b/steps/Upsample.cc
index 2e9312d..f664f35 100644
--- a/steps/Upsample.cc
+++ b/steps/Upsample.cc
@@ -164,7 +164,7 @@ bool Upsample::process(std::unique_ptr<base::DPBuffer> buffer) {
 
 void Upsample::finish() {
   // Flush prev_buffers_
-  for (unsigned int i = first_to_flush_; i < time_step_; ++i) {
+  for (std::size_t i = first_to_flush_; i < prev_buffers_.size(); ++i) {
     getNextStep()->process(std::move(prev_buffers_[i]));
   }
 
-- 
2.43.0


From 06c39b02f2f84e298b045db1ba4b7417080fd108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:15 +0000
Subject: [PATCH 54/58] fix: NullStokes took any data for four correlations

---
 steps/NullStokes.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/steps/NullStokes.cc b/steps/NullStokes.cc
index 26f02d6..9f2657e 100644
--- a/steps/NullStokes.cc
+++ b/steps/NullStokes.cc
@@ -98,6 +98,10 @@ bool NullStokes::process(std::unique_ptr<DPBuffer> buffer) {
 
 void NullStokes::updateInfo(const base::DPInfo& info_in) {
   Step::updateInfo(info_in);
+  if (info_in.ncorr() != 4) {
+    throw std::runtime_error("NullStokes requires 4 correlations, not " +
+                             std::to_string(info_in.ncorr()));
+  }
 }
 
 void NullStokes::finish() {
-- 
2.43.0


From 43aeffe060b0f9f7b5888885ab895ef9a110603f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:43 +0000
Subject: [PATCH 55/58] fix: ScaleData scaled all baselines of BDA data with
 the first baseline's channels, beyond their ends

---
 steps/ScaleData.cc | 68 ++++++++++++++++++++++++++++++++--------------
 steps/ScaleData.h  |  2 ++
 2 files changed, 50 insertions(+), 20 deletions(-)

diff --git a/steps/ScaleData.cc b/steps/ScaleData.cc
index 7d0a0b2..78c6b87 100644
--- a/steps/ScaleData.cc
+++ b/steps/ScaleData.cc
@@ -23,11 +23,10 @@
 #include <casacore/casa/BasicMath/Functors.h>
 #include <casacore/casa/Utilities/Regex.h>
 
-#include <xtensor/containers/xadapt.hpp>
-
-#include <xtensor/views/xview.hpp>
-
+#include <algorithm>
 #include <cassert>
+#include <cmath>
+#include <functional>
 #include <iostream>
 
 using dp3::base::BdaBuffer;
@@ -38,6 +37,19 @@ using dp3::common::operator<<;
 using casacore::IPosition;
 using casacore::Regex;
 
+namespace {
+/// Evaluate a polynomial for a frequency in Hz; its variable is in MHz.
+double EvaluatePolynomial(const std::vector<double>& coefficients,
+                          double frequency) {
+  double result = coefficients.back();
+  for (std::size_t k = coefficients.size() - 1; k > 0; --k) {
+    result *= frequency / 1e6;
+    result += coefficients[k - 1];
+  }
+  return result;
+}
+}  // namespace
+
 namespace dp3 {
 namespace steps {
 
@@ -89,6 +101,7 @@ void ScaleData::updateInfo(const DPInfo& infoIn) {
   const std::vector<double>& freqs = infoIn.chanFreqs();
   // Convert the coefficients to scale factors per freq per station regex.
   std::vector<std::vector<float>> scaleVec(itsStationExp.size());
+  std::vector<std::vector<double>> coeffVec(itsStationExp.size());
   std::vector<Regex> stationRegex(itsStationExp.size());
   for (unsigned int i = 0; i < scaleVec.size(); ++i) {
     // Convert the station string to a proper Regex object.
@@ -102,13 +115,9 @@ void ScaleData::updateInfo(const DPInfo& infoIn) {
     scales.reserve(freqs.size());
     // Evaluate the polynomial for each frequency giving the scale factors.
     for (unsigned int j = 0; j < freqs.size(); ++j) {
-      double fact = coeff[coeff.size() - 1];
-      for (unsigned int k = coeff.size() - 1; k > 0; --k) {
-        fact *= freqs[j] / 1e6;  // use freq in MHz
-        fact += coeff[k - 1];
-      }
-      scales.push_back(fact);
+      scales.push_back(EvaluatePolynomial(coeff, freqs[j]));
     }
+    coeffVec[i] = std::move(coeff);
   }
   // If needed, find the nr of tiles/dipoles used for each station and
   // fill the size scale factors.
@@ -125,10 +134,13 @@ void ScaleData::updateInfo(const DPInfo& infoIn) {
   // The first matching regex is used.
   // The nr of tiles in use gives an extra scale factor.
   itsStationFactors.reserve(nant);
+  std::vector<std::size_t> coeffIndex(nant);
+  std::vector<float> sizeFactors(nant, 1.0);
   for (unsigned int i = 0; i < nant; ++i) {
     for (unsigned int j = 0; j < stationRegex.size(); ++j) {
       if (casacore::String(infoIn.antennaNames()[i]).matches(stationRegex[j])) {
         itsStationFactors.push_back(scaleVec[j]);
+        coeffIndex[i] = j;
         // If needed, scale with the nr of dipoles/tiles actually used.
         // Do that if explicitly told so or if default coeffs are used.
         if (itsScaleSize ||
@@ -136,6 +148,7 @@ void ScaleData::updateInfo(const DPInfo& infoIn) {
           for (unsigned int k = 0; k < itsStationFactors[i].size(); ++k) {
             itsStationFactors[i][k] *= extraFactors[i];
           }
+          sizeFactors[i] = extraFactors[i];
         }
         break;
       }
@@ -145,6 +158,25 @@ void ScaleData::updateInfo(const DPInfo& infoIn) {
   unsigned int nb = infoIn.nbaselines();
   unsigned int nf = freqs.size();
   unsigned int nc = infoIn.ncorr();
+  if (itsInputType == MsType::kBda) {
+    // Baselines can have different channels.
+    itsBdaFactors.clear();
+    itsBdaFactors.reserve(nb);
+    for (unsigned int i = 0; i < nb; ++i) {
+      const int ant1 = infoIn.getAnt1()[i];
+      const int ant2 = infoIn.getAnt2()[i];
+      std::vector<float>& factors = itsBdaFactors.emplace_back();
+      factors.reserve(infoIn.chanFreqs(i).size() * nc);
+      for (double freq : infoIn.chanFreqs(i)) {
+        const float f1 = EvaluatePolynomial(coeffVec[coeffIndex[ant1]], freq);
+        const float f2 = EvaluatePolynomial(coeffVec[coeffIndex[ant2]], freq);
+        factors.insert(
+            factors.end(), nc,
+            std::sqrt(f1 * sizeFactors[ant1] * f2 * sizeFactors[ant2]));
+      }
+    }
+    return;
+  }
   itsFactors.resize({nb, nf, nc});
   float* factPtr = itsFactors.data();
   for (unsigned int i = 0; i < nb; ++i) {
@@ -195,17 +227,13 @@ bool ScaleData::process(std::unique_ptr<base::DPBuffer> buf) {
 
 bool ScaleData::process(std::unique_ptr<BdaBuffer> bda_buffer) {
   itsTimer.start();
-  std::vector<BdaBuffer::Row> rows = bda_buffer->GetRows();
+  const std::vector<BdaBuffer::Row>& rows = bda_buffer->GetRows();
   for (std::size_t row_nr = 0; row_nr < rows.size(); ++row_nr) {
-    auto factors =
-        xt::view(itsFactors, rows[row_nr].baseline_nr, xt::all(), xt::all());
-    [[maybe_unused]] const std::size_t n_elements =
-        rows[row_nr].n_correlations * rows[row_nr].n_channels;
-    assert(factors.size() == n_elements);
-
-    auto data = xt::adapt(bda_buffer->GetData(row_nr),
-                          std::array{factors.shape()[0], factors.shape()[1]});
-    data *= factors;
+    const std::vector<float>& factors = itsBdaFactors[rows[row_nr].baseline_nr];
+    assert(factors.size() == rows[row_nr].GetDataSize());
+    std::complex<float>* data = bda_buffer->GetData(row_nr);
+    std::transform(data, data + factors.size(), factors.begin(), data,
+                   std::multiplies<std::complex<float>>());
   }
 
   itsTimer.stop();
diff --git a/steps/ScaleData.h b/steps/ScaleData.h
index 652ddb5..a3f2658 100644
--- a/steps/ScaleData.h
+++ b/steps/ScaleData.h
@@ -93,6 +93,8 @@ class ScaleData : public Step {
   std::vector<std::vector<float>>
       itsStationFactors;             ///< scale factor per station,freq
   xt::xtensor<float, 3> itsFactors;  ///< scale factor per baseline,freq,pol
+  std::vector<std::vector<float>>
+      itsBdaFactors;  ///< for BDA data, scale factors of each baseline's rows
   common::NSTimer itsTimer;
 };
 
-- 
2.43.0


From fc93fc2f14271e8be7b84ce2772209512886cb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:48 +0000
Subject: [PATCH 56/58] fix: MadFlagger used the given correlations as
 positions in the list of them

---
 steps/MadFlagger.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/steps/MadFlagger.cc b/steps/MadFlagger.cc
index 5504ed3..3ff6ba0 100644
--- a/steps/MadFlagger.cc
+++ b/steps/MadFlagger.cc
@@ -137,8 +137,8 @@ void MadFlagger::updateInfo(const DPInfo& infoIn) {
   } else {
     for (const unsigned int ip : itsFlagCorr) {
       // Only take valid corrrelations.
-      if (itsFlagCorr[ip] < ncorr) {
-        flagCorr.push_back(itsFlagCorr[ip]);
+      if (ip < ncorr) {
+        flagCorr.push_back(ip);
       }
     }
     // If no valid left, use first one.
-- 
2.43.0


From f8bddd52323f33647672e9a52526bd98b5facb09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:48 +0000
Subject: [PATCH 57/58] fix: MadFlagger took medians of left-over values too if
 samples were flagged

---
 steps/MadFlagger.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/steps/MadFlagger.cc b/steps/MadFlagger.cc
index 3ff6ba0..b4598a3 100644
--- a/steps/MadFlagger.cc
+++ b/steps/MadFlagger.cc
@@ -401,6 +401,7 @@ void MadFlagger::computeFactors(const std::vector<unsigned int>& timeEntries,
                                 common::NSTimer& moveTimer,
                                 common::NSTimer& medianTimer) {
   moveTimer.start();
+  tempBuffer.resize(itsFreqWindow * timeEntries.size());
   // Collect all non-flagged data points for given baseline, channel,
   // and correlation in the window around the channel.
   unsigned int np = 0;
@@ -442,6 +443,7 @@ void MadFlagger::computeFactors(const std::vector<unsigned int>& timeEntries,
       }
     }
   }
+  tempBuffer.resize(np);
   moveTimer.stop();
   // If only flagged data, don't do anything.
   if (np == 0) {
-- 
2.43.0


From e3f92665378084d0c802e0b54d3df9e303fef504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:48 +0000
Subject: [PATCH 58/58] fix: MadFlagger lost and mixed up time slots if there
 were fewer than in its window, and failed if there were none

---
 steps/MadFlagger.cc | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/steps/MadFlagger.cc b/steps/MadFlagger.cc
index b4598a3..0eb4fd6 100644
--- a/steps/MadFlagger.cc
+++ b/steps/MadFlagger.cc
@@ -197,10 +197,19 @@ bool MadFlagger::process(std::unique_ptr<base::DPBuffer> buffer) {
 }
 
 void MadFlagger::finish() {
+  if (itsNTimes == 0) {
+    getNextStep()->finish();
+    return;
+  }
   itsTimer.start();
   // Adjust window size if there are fewer time entries.
+  // The positions of the entries in itsBuffers do not change.
+  const unsigned int nBuffers = itsBuffers.size();
   if (itsNTimes < itsTimeWindow) {
     itsTimeWindow = 1 + ((itsNTimes - 1) / 2) * 2;  // make sure it is odd
+    for (unsigned int& timeWindow : itsTimeWindowArr) {
+      timeWindow = std::min(timeWindow, itsTimeWindow);
+    }
   }
   unsigned int halfWindow = itsTimeWindow / 2;
   std::vector<unsigned int> timeEntries(itsTimeWindow);
@@ -209,11 +218,11 @@ void MadFlagger::finish() {
   while (itsNTimesDone < itsNTimes - halfWindow) {
     // Process in the same way as in process.
     unsigned int inx = 0;
-    timeEntries[inx++] = itsNTimesDone % itsTimeWindow;  // center
+    timeEntries[inx++] = itsNTimesDone % nBuffers;  // center
     for (unsigned int i = 1; i <= halfWindow; ++i) {
       timeEntries[inx++] =
-          std::abs(int(itsNTimesDone) - int(i)) % itsTimeWindow;
-      timeEntries[inx++] = (itsNTimesDone + i) % itsTimeWindow;
+          std::abs(int(itsNTimesDone) - int(i)) % nBuffers;
+      timeEntries[inx++] = (itsNTimesDone + i) % nBuffers;
     }
     flag(itsNTimesDone, timeEntries);
     itsNTimesDone++;
@@ -222,18 +231,18 @@ void MadFlagger::finish() {
   // Process the remaining time entries.
   while (itsNTimesDone < itsNTimes) {
     unsigned int inx = 0;
-    timeEntries[inx++] = itsNTimesDone % itsTimeWindow;  // center
+    timeEntries[inx++] = itsNTimesDone % nBuffers;  // center
     for (unsigned int i = 1; i <= halfWindow; ++i) {
       timeEntries[inx++] =
-          std::abs(int(itsNTimesDone) - int(i)) % itsTimeWindow;
+          std::abs(int(itsNTimesDone) - int(i)) % nBuffers;
       // Time entries might need to be mirrored at the end.
       unsigned int ri = itsNTimesDone + i;
       if (ri >= itsNTimes) {
         ri = 2 * (itsNTimes - 1) - ri;
       }
-      timeEntries[inx++] = ri % itsTimeWindow;
+      timeEntries[inx++] = ri % nBuffers;
     }
-    flag(itsNTimesDone % itsTimeWindow, timeEntries);
+    flag(itsNTimesDone % nBuffers, timeEntries);
     itsNTimesDone++;
   }
   itsTimer.stop();
-- 
2.43.0

