From ad7cdbd3d838ce1ceb064e0d35bd00a229173871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 01/45] fix: write the nested effects of a library effect
 instead of recursing on itself

---
 source/IOHaptics/src/IOBinary.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/IOHaptics/src/IOBinary.cpp b/source/IOHaptics/src/IOBinary.cpp
index 628c2f7..f54181d 100644
--- a/source/IOHaptics/src/IOBinary.cpp
+++ b/source/IOHaptics/src/IOBinary.cpp
@@ -365,7 +365,7 @@ auto IOBinary::writeLibraryEffect(types::Effect &libraryEffect, std::vector<bool
   types::Effect timelineEffect;
   for (unsigned short i = 0; i < timelineEffectCount; i++) {
     timelineEffect = libraryEffect.getTimelineEffectAt(i);
-    writeLibraryEffect(libraryEffect, output);
+    writeLibraryEffect(timelineEffect, output);
   }
   return true;
 }
-- 
2.43.0


From 6371520430b3804cdd0079aecd423a4eba931c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 02/45] fix: write each timeline effect's own type and payload
 instead of its parent's

---
 source/IOHaptics/src/IOBinaryBands.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/source/IOHaptics/src/IOBinaryBands.cpp b/source/IOHaptics/src/IOBinaryBands.cpp
index 92e2821..4166c98 100644
--- a/source/IOHaptics/src/IOBinaryBands.cpp
+++ b/source/IOHaptics/src/IOBinaryBands.cpp
@@ -463,23 +463,23 @@ auto IOBinaryBands::writeTimelineEffect(types::Effect &effect, types::Band &band
     auto position = static_cast<uint32_t>(timelineEffect.getPosition());
     IOBinaryPrimitives::writeNBits<uint32_t, EFFECT_POSITION>(position, output);
 
-    if (effect.getEffectType() == types::EffectType::Reference) {
-      writeReferenceEffect(effect, output);
-    } else if (effect.getEffectType() == types::EffectType::Composite) {
-      writeTimelineEffect(effect, band, output);
+    if (timelineEffect.getEffectType() == types::EffectType::Reference) {
+      writeReferenceEffect(timelineEffect, output);
+    } else if (timelineEffect.getEffectType() == types::EffectType::Composite) {
+      writeTimelineEffect(timelineEffect, band, output);
     } else {
       switch (band.getBandType()) {
       case types::BandType::Transient:
-        IOBinaryBands::writeTransientEffect(effect, output);
+        IOBinaryBands::writeTransientEffect(timelineEffect, output);
         break;
       case types::BandType::Curve:
-        IOBinaryBands::writeCurveEffect(effect, output);
+        IOBinaryBands::writeCurveEffect(timelineEffect, output);
         break;
       case types::BandType::VectorialWave:
-        IOBinaryBands::writeVectorialEffect(effect, output);
+        IOBinaryBands::writeVectorialEffect(timelineEffect, output);
         break;
       case types::BandType::WaveletWave:
-        IOBinaryBands::writeWaveletEffect(effect, output);
+        IOBinaryBands::writeWaveletEffect(timelineEffect, output);
         break;
       default:
         return false;
-- 
2.43.0


From 7e12402329167e48b976aa52f854936ddfc7ee47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:40 +0000
Subject: [PATCH 03/45] fix: write no more characters of a string than its
 length byte announces

---
 source/IOHaptics/src/IOBinaryPrimitives.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/IOHaptics/src/IOBinaryPrimitives.cpp b/source/IOHaptics/src/IOBinaryPrimitives.cpp
index 2d6c14b..e8499ac 100644
--- a/source/IOHaptics/src/IOBinaryPrimitives.cpp
+++ b/source/IOHaptics/src/IOBinaryPrimitives.cpp
@@ -54,7 +54,7 @@ auto IOBinaryPrimitives::writeVector(const haptics::types::Vector &vector,
 auto IOBinaryPrimitives::writeString(const std::string &text, std::vector<bool> &output) -> void {
   auto stringSize = static_cast<uint8_t>(text.size() > UINT8_MAX ? UINT8_MAX : text.size());
   writeNBits<uint8_t, BYTE_SIZE>(stringSize, output);
-  for (auto byte : text) {
+  for (auto byte : text.substr(0, stringSize)) {
     for (uint8_t j = 0; j < BYTE_SIZE; j++) {
       output.push_back(((byte >> (BYTE_SIZE - j - 1)) & 1U) == 1);
     }
-- 
2.43.0


From 465d53c911b6593777d97b77c0a5263cbfd9510c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:04 +0000
Subject: [PATCH 04/45] fix: report a binary body that cannot be read instead
 of returning success

---
 source/IOHaptics/src/IOBinary.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/IOHaptics/src/IOBinary.cpp b/source/IOHaptics/src/IOBinary.cpp
index f54181d..26e7c2e 100644
--- a/source/IOHaptics/src/IOBinary.cpp
+++ b/source/IOHaptics/src/IOBinary.cpp
@@ -46,7 +46,7 @@ auto IOBinary::loadMemory(IOMemoryBuffer &in, types::Haptics &out) -> bool {
   std::vector<bool> unusedBits;
   bool res = readFileHeader(out, istr, unusedBits);
   if (res) {
-    readFileBody(out, istr, unusedBits);
+    res = readFileBody(out, istr, unusedBits);
   }
   return res;
 }
@@ -70,7 +70,7 @@ auto IOBinary::loadFile(const std::string &filePath, types::Haptics &out) -> boo
   std::vector<bool> unusedBits;
   bool res = IOBinary::readFileHeader(out, file, unusedBits);
   if (res) {
-    IOBinary::readFileBody(out, file, unusedBits);
+    res = IOBinary::readFileBody(out, file, unusedBits);
   }
 
   file.close();
-- 
2.43.0


From 68cda274b24c45d9accbe1ba7e9f5166b46805f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:12 +0000
Subject: [PATCH 05/45] fix: replacing perception metadata takes the new avatar
 id, not the perception id

---
 source/Types/src/Haptics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Types/src/Haptics.cpp b/source/Types/src/Haptics.cpp
index c291d0f..bb79cdb 100644
--- a/source/Types/src/Haptics.cpp
+++ b/source/Types/src/Haptics.cpp
@@ -75,7 +75,7 @@ auto Haptics::replacePerceptionMetadataAt(int index, Perception &newPerception)
     return false;
   }
   perceptions[index].setId(newPerception.getId());
-  perceptions[index].setAvatarId(newPerception.getId());
+  perceptions[index].setAvatarId(newPerception.getAvatarId());
   auto desc = newPerception.getDescription();
   perceptions[index].setDescription(desc);
   perceptions[index].setPerceptionModality(newPerception.getPerceptionModality());
-- 
2.43.0


From 34c1ac87ebfbeffc7d237536aa848493174aeca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:10 +0000
Subject: [PATCH 06/45] fix: evaluating a transient skips keyframes without
 amplitude instead of looping for ever

---
 source/Types/src/Effect.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/Types/src/Effect.cpp b/source/Types/src/Effect.cpp
index 20277af..3662e01 100644
--- a/source/Types/src/Effect.cpp
+++ b/source/Types/src/Effect.cpp
@@ -323,6 +323,7 @@ auto Effect::EvaluateTransient(double position, double transientDuration) -> dou
   double res = 0;
   while (it != keyframes.rend() && checkingFunction(*it)) {
     if (!it->getAmplitudeModulation().has_value()) {
+      it++;
       continue;
     }
 
-- 
2.43.0


From 9dd336f6780258ddbfb3b45178d5c1f08b27d34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:10 +0000
Subject: [PATCH 07/45] fix: the length of an effect whose keyframes carry no
 position is zero

---
 source/Types/src/Effect.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/Types/src/Effect.cpp b/source/Types/src/Effect.cpp
index 3662e01..2c2de1b 100644
--- a/source/Types/src/Effect.cpp
+++ b/source/Types/src/Effect.cpp
@@ -409,6 +409,9 @@ auto Effect::getEffectTimeLength(types::BandType bandType, double transientDurat
   auto lastKeyframe =
       std::find_if(keyframes.rbegin(), keyframes.rend(),
                    [](haptics::types::Keyframe k) { return k.getRelativePosition().has_value(); });
+  if (lastKeyframe == keyframes.rend()) {
+    return 0;
+  }
   switch (bandType) {
   case types::BandType::Transient:
     return lastKeyframe->getRelativePosition().has_value()
-- 
2.43.0


From 57187a6ef1bc5491444650fd4693bfbd2400f0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:27 +0000
Subject: [PATCH 08/45] fix: render curve effects of two keyframes like the
 others instead of dropping them

---
 source/Types/src/Band.cpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/source/Types/src/Band.cpp b/source/Types/src/Band.cpp
index bf5df0f..dcbea41 100644
--- a/source/Types/src/Band.cpp
+++ b/source/Types/src/Band.cpp
@@ -211,20 +211,20 @@ auto Band::EvaluationBand(uint32_t sampleCount, int fs, int pad, unsigned int ti
           effectAmp = haptics::tools::cubicInterpolation2(keyframes);
           break;
         }
+      }
 
-        int count = 0;
-        int position =
-            static_cast<int>((e.getPosition() + pad) * fs *
-                             timescale); // position converted from ticks to samples rel. to fs
-        if (position < 0) {
-          count = -position;
-          position = 0;
-        }
-        for (int i = position;
-             (i < static_cast<int>(sampleCount)) && (count <= keyframes.back().first); i++) {
-          bandAmp[i] += effectAmp[count];
-          count++;
-        }
+      int count = 0;
+      int position =
+          static_cast<int>((e.getPosition() + pad) * fs *
+                           timescale); // position converted from ticks to samples rel. to fs
+      if (position < 0) {
+        count = -position;
+        position = 0;
+      }
+      for (int i = position;
+           (i < static_cast<int>(sampleCount)) && (count <= keyframes.back().first); i++) {
+        bandAmp[i] += effectAmp[count];
+        count++;
       }
     }
     break;
-- 
2.43.0


From 90a4a70d92af1430c0c5fe3a8f5a19eab615dc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:27 +0000
Subject: [PATCH 09/45] fix: place rendered curve effects at position * fs /
 timescale samples

---
 source/Types/src/Band.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/Types/src/Band.cpp b/source/Types/src/Band.cpp
index dcbea41..1bf3f92 100644
--- a/source/Types/src/Band.cpp
+++ b/source/Types/src/Band.cpp
@@ -215,8 +215,8 @@ auto Band::EvaluationBand(uint32_t sampleCount, int fs, int pad, unsigned int ti
 
       int count = 0;
       int position =
-          static_cast<int>((e.getPosition() + pad) * fs *
-                           timescale); // position converted from ticks to samples rel. to fs
+          static_cast<int>((e.getPosition() + pad) * fs /
+                           static_cast<int>(timescale)); // position converted from ticks to samples rel. to fs
       if (position < 0) {
         count = -position;
         position = 0;
-- 
2.43.0


From 5e76fcb47eda5ca5b91828464e041c8e50841bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:49 +0000
Subject: [PATCH 10/45] fix: refactorEffects picks an id that no library effect
 uses

---
 source/Types/src/Perception.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/Types/src/Perception.cpp b/source/Types/src/Perception.cpp
index 1da1137..bd85dfd 100644
--- a/source/Types/src/Perception.cpp
+++ b/source/Types/src/Perception.cpp
@@ -342,6 +342,9 @@ auto Perception::refactorEffects() -> void {
         if (sameEffects.size() > 1) {
           Effect basisEffect(refEffect);
           auto newId = static_cast<int>(getEffectLibrarySize());
+          while (getEffectById(newId).has_value()) {
+            newId++;
+          }
           basisEffect.setId(newId);
           basisEffect.setPosition(0);
           for (const auto &t : sameEffects) {
-- 
2.43.0


From 5042cfbe911449fbfc7cc845b67ea3210d5ea3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:11 +0000
Subject: [PATCH 11/45] fix: EvaluateWavelet is zero before the start of the
 effect

---
 source/Types/src/Effect.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Types/src/Effect.cpp b/source/Types/src/Effect.cpp
index 2c2de1b..ab231b5 100644
--- a/source/Types/src/Effect.cpp
+++ b/source/Types/src/Effect.cpp
@@ -304,7 +304,7 @@ auto Effect::EvaluateWavelet(double position, int fs, unsigned int timescale) ->
   int index = std::floor(relativePosition);
 
   auto samples = this->getWaveletSamples();
-  if (index >= (int)samples.size()) {
+  if (index < 0 || index >= (int)samples.size()) {
     return 0;
   }
   return samples[index];
-- 
2.43.0


From b35a3587f8bfa0a3dc4cd97079797bce618645b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:17 +0000
Subject: [PATCH 12/45] fix: EvaluationBand skips curve effects without
 keyframes

---
 source/Types/src/Band.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/Types/src/Band.cpp b/source/Types/src/Band.cpp
index 1bf3f92..a4ccfb3 100644
--- a/source/Types/src/Band.cpp
+++ b/source/Types/src/Band.cpp
@@ -174,6 +174,9 @@ auto Band::EvaluationBand(uint32_t sampleCount, int fs, int pad, unsigned int ti
   switch (this->bandType) {
   case BandType::Curve:
     for (auto e : effects) {
+      if (e.getKeyframesSize() == 0) {
+        continue;
+      }
       std::vector<std::pair<int, double>> keyframes(
           e.getKeyframesSize()); // keyframes converted to position relative to fs
       for (int i = 0; i < static_cast<int>(e.getKeyframesSize()); i++) {
-- 
2.43.0


From 95a0ed9111e54ae0b73a645471d9796ae9f79a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:27 +0000
Subject: [PATCH 13/45] fix: EvaluationBand does not read beyond the
 interpolated samples

---
 source/Types/src/Band.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/Types/src/Band.cpp b/source/Types/src/Band.cpp
index a4ccfb3..0c41db5 100644
--- a/source/Types/src/Band.cpp
+++ b/source/Types/src/Band.cpp
@@ -225,7 +225,9 @@ auto Band::EvaluationBand(uint32_t sampleCount, int fs, int pad, unsigned int ti
         position = 0;
       }
       for (int i = position;
-           (i < static_cast<int>(sampleCount)) && (count <= keyframes.back().first); i++) {
+           (i < static_cast<int>(sampleCount)) && (count <= keyframes.back().first) &&
+           (count < static_cast<int>(effectAmp.size()));
+           i++) {
         bandAmp[i] += effectAmp[count];
         count++;
       }
-- 
2.43.0


From bedf81130dccafe9aaf0167f8cca3e7039a173f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:01 +0000
Subject: [PATCH 14/45] fix: wavelet band decoding applies the block scale and
 the timescale

---
 source/WaveletDecoder/src/WaveletDecoder.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/source/WaveletDecoder/src/WaveletDecoder.cpp b/source/WaveletDecoder/src/WaveletDecoder.cpp
index e1d7fbc..02bb68d 100644
--- a/source/WaveletDecoder/src/WaveletDecoder.cpp
+++ b/source/WaveletDecoder/src/WaveletDecoder.cpp
@@ -51,9 +51,12 @@ auto WaveletDecoder::decodeBand(Band &band, int timescale) -> std::vector<double
     double scalar = 0;
     int bits = 0;
     spihtDec.decodeEffect(bitstream, block_dwt, bl, scalar, bits);
+    scalar /= pow(2, (double)bits);
     std::vector<double> block_time(bl);
     decodeBlock(block_dwt, block_time, scalar, dwtlevel);
-    std::copy(block_time.begin(), block_time.end(), sig_rec.begin() + effect.getPosition());
+    std::copy(block_time.begin(), block_time.end(),
+              sig_rec.begin() +
+                  (long)effect.getPosition() * band.getUpperFrequencyLimit() / timescale);
   }
   return sig_rec;
 }
@@ -64,8 +67,8 @@ void WaveletDecoder::transformBand(Band &band, unsigned int timescale) {
     return;
   }
   size_t numBlocks = band.getEffectsSize();
-  auto bl = (int)(band.getBlockLengthOrDefault() * MS_2_S_WAVELET *
-                  (double)band.getUpperFrequencyLimit());
+  auto bl = (int)(band.getBlockLengthOrDefault() * (double)band.getUpperFrequencyLimit() /
+                  (double)timescale);
   int dwtlevel = (int)log2((double)bl / 4);
 
   for (uint32_t b = 0; b < numBlocks; b++) {
-- 
2.43.0


From 08e795c6fdb4ed41d09439a7fafc6fd56957c2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:15 +0000
Subject: [PATCH 15/45] fix: trimming trailing zero bits checks its index
 before the element

An all-zero wavelet stream made bytes2bits and base642bits read element -1,
so writing or reading such an hjif file ended with std::out_of_range.
---
 source/IOHaptics/src/IOJson.cpp | 4 ++--
 source/Spiht/src/ArithEnc.cpp   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/IOHaptics/src/IOJson.cpp b/source/IOHaptics/src/IOJson.cpp
index d0b2604..f0be1c1 100644
--- a/source/IOHaptics/src/IOJson.cpp
+++ b/source/IOHaptics/src/IOJson.cpp
@@ -1693,7 +1693,7 @@ auto IOJson::bytes2bits(std::vector<unsigned char> &in, std::vector<unsigned cha
   }
   if (!out.empty()) {
     int index_end = (int)out.size() - 1;
-    while ((int)out.at(index_end) == 0 && index_end >= 0) {
+    while (index_end >= 0 && (int)out.at(index_end) == 0) {
       index_end--;
     }
     out.resize(index_end + 1);
@@ -1749,7 +1749,7 @@ auto IOJson::base642bits(std::vector<unsigned char> &in, std::vector<unsigned ch
   }
   if (!out.empty()) {
     int index_end = (int)out.size() - 1;
-    while ((int)out.at(index_end) == 0 && index_end >= 0) {
+    while (index_end >= 0 && (int)out.at(index_end) == 0) {
       index_end--;
     }
     out.resize(index_end + 1);
diff --git a/source/Spiht/src/ArithEnc.cpp b/source/Spiht/src/ArithEnc.cpp
index 9eae9eb..0ef911e 100644
--- a/source/Spiht/src/ArithEnc.cpp
+++ b/source/Spiht/src/ArithEnc.cpp
@@ -121,7 +121,7 @@ void ArithEnc::encode(std::vector<unsigned char> &instream, std::vector<int> &co
 
   // cut off unnecessary zeros at end
   int index_end = (int)outstream.size() - 1;
-  while (outstream.at(index_end) == 0 && index_end >= 0) {
+  while (index_end >= 0 && outstream.at(index_end) == 0) {
     index_end--;
   }
   outstream.resize(index_end + 1);
-- 
2.43.0


From 94b32455f1021088b194aa4c684b3ad9462e494d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:32 +0000
Subject: [PATCH 16/45] fix: the hjif loader checks presence and type of every
 member it reads

A file without id or position in a library effect, with a fractional
body_part_mask or with a non-string version aborted the reader.
---
 source/IOHaptics/src/IOJson.cpp | 51 ++++++++++++++-------------------
 1 file changed, 21 insertions(+), 30 deletions(-)

diff --git a/source/IOHaptics/src/IOJson.cpp b/source/IOHaptics/src/IOJson.cpp
index f0be1c1..07b1a7b 100644
--- a/source/IOHaptics/src/IOJson.cpp
+++ b/source/IOHaptics/src/IOJson.cpp
@@ -636,9 +636,11 @@ auto IOJson::loadFile(const std::string &filePath, types::Haptics &haptic) -> bo
   if (!schemaConformanceCheck(jsonTree, filePath)) {
     return false;
   }
-  if (!(jsonTree.HasMember("version") && jsonTree.HasMember("profile") &&
-        jsonTree.HasMember("level") && jsonTree.HasMember("date") &&
-        jsonTree.HasMember("description") && jsonTree.HasMember("timescale") &&
+  if (!(jsonTree.HasMember("version") && jsonTree["version"].IsString() &&
+        jsonTree.HasMember("profile") && jsonTree["profile"].IsString() &&
+        jsonTree.HasMember("level") && jsonTree["level"].IsUint() && jsonTree.HasMember("date") &&
+        jsonTree["date"].IsString() && jsonTree.HasMember("description") &&
+        jsonTree["description"].IsString() && jsonTree.HasMember("timescale") &&
         jsonTree.HasMember("perceptions") && jsonTree["perceptions"].IsArray() &&
         jsonTree.HasMember("avatars") && jsonTree["avatars"].IsArray() &&
         jsonTree.HasMember("syncs") && jsonTree["syncs"].IsArray())) {
@@ -788,20 +790,13 @@ auto IOJson::loadLibrary(const rapidjson::Value &jsonLibrary, types::Perception
     }
 
     auto effectType = types::stringToEffectType.at(jsonEffect["effect_type"].GetString());
-    if (effectType == types::EffectType::Reference) {
-      if (!jsonEffect.HasMember("id") || !jsonEffect["id"].IsInt()) {
-        std::cerr << "Missing or invalid effect id" << std::endl;
-        continue;
-      }
-      if (!jsonEffect.HasMember("position") || !jsonEffect["position"].IsInt()) {
-        std::cerr << "Missing or invalid effect position" << std::endl;
-        continue;
-      }
-    } else if (effectType == types::EffectType::Basis) {
-      if (!jsonEffect.HasMember("position") || !jsonEffect["position"].IsInt()) {
-        std::cerr << "Missing or invalid effect position" << std::endl;
-        continue;
-      }
+    if (!jsonEffect.HasMember("id") || !jsonEffect["id"].IsInt()) {
+      std::cerr << "Missing or invalid effect id" << std::endl;
+      continue;
+    }
+    if (!jsonEffect.HasMember("position") || !jsonEffect["position"].IsInt()) {
+      std::cerr << "Missing or invalid effect position" << std::endl;
+      continue;
     }
 
     auto effectId = jsonEffect["id"].GetInt();
@@ -821,7 +816,7 @@ auto IOJson::loadLibrary(const rapidjson::Value &jsonLibrary, types::Perception
       auto semantic = std::string(jsonEffect["semantic_keywords"].GetString());
       effect.setSemantic(semantic);
     }
-    if (jsonEffect.HasMember("keyframes")) {
+    if (jsonEffect.HasMember("keyframes") && jsonEffect["keyframes"].IsArray()) {
       loadingSuccess = loadingSuccess && loadKeyframes(jsonEffect["keyframes"], effect);
     }
 
@@ -856,7 +851,7 @@ auto IOJson::loadChannels(const rapidjson::Value &jsonChannels, types::Perceptio
       std::cerr << "Missing or invalid channel mixing coefficient" << std::endl;
       continue;
     }
-    if (!IOJsonPrimitives::hasNumber(jsonChannel, "body_part_mask")) {
+    if (!IOJsonPrimitives::hasUint(jsonChannel, "body_part_mask")) {
       std::cerr << "Missing or invalid channel body part mask" << std::endl;
       continue;
     }
@@ -1003,23 +998,19 @@ auto IOJson::loadEffects(const rapidjson::Value &jsonEffects, types::Band &band)
     }
 
     auto effectType = types::stringToEffectType.at(jsonEffect["effect_type"].GetString());
+    if (!jsonEffect.HasMember("position") || !jsonEffect["position"].IsInt()) {
+      std::cerr << "Missing or invalid effect position" << std::endl;
+      continue;
+    }
     if (effectType == types::EffectType::Reference) {
       if (!jsonEffect.HasMember("id") || !jsonEffect["id"].IsInt()) {
         std::cerr << "Missing or invalid effect id" << std::endl;
         continue;
       }
-      if (!jsonEffect.HasMember("position") || !jsonEffect["position"].IsInt()) {
-        std::cerr << "Missing or invalid effect position" << std::endl;
-        continue;
-      }
     } else if (effectType == types::EffectType::Basis) {
-      if (!jsonEffect.HasMember("position") || !jsonEffect["position"].IsInt()) {
-        std::cerr << "Missing or invalid effect position" << std::endl;
-        continue;
-      }
       if (band.getBandType() == types::BandType::WaveletWave) {
-        if (!jsonEffect.HasMember("wavelet_stream")) {
-          std::cerr << "Missing wavelet_stream" << std::endl;
+        if (!jsonEffect.HasMember("wavelet_stream") || !jsonEffect["wavelet_stream"].IsString()) {
+          std::cerr << "Missing or invalid wavelet_stream" << std::endl;
           continue;
         }
       }
@@ -1045,7 +1036,7 @@ auto IOJson::loadEffects(const rapidjson::Value &jsonEffects, types::Band &band)
     if (jsonEffect.HasMember("keyframes") && jsonEffect["keyframes"].IsArray()) {
       loadingSuccess = loadingSuccess && loadKeyframes(jsonEffect["keyframes"], effect);
     }
-    if (jsonEffect.HasMember("wavelet_stream")) {
+    if (jsonEffect.HasMember("wavelet_stream") && jsonEffect["wavelet_stream"].IsString()) {
       loadingSuccess = loadingSuccess && loadBitstream(jsonEffect["wavelet_stream"], effect);
     }
 
-- 
2.43.0


From 766a9d93d67d95b6eed75a790b238174a4789039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:08 +0000
Subject: [PATCH 17/45] fix: the hjif loader skips unknown enumeration names
 instead of throwing

An unknown band_type, effect_type, modality and so on left the reader with
an uncaught std::out_of_range.
---
 source/IOHaptics/src/IOJson.cpp | 36 ++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/source/IOHaptics/src/IOJson.cpp b/source/IOHaptics/src/IOJson.cpp
index 07b1a7b..7826e61 100644
--- a/source/IOHaptics/src/IOJson.cpp
+++ b/source/IOHaptics/src/IOJson.cpp
@@ -695,7 +695,9 @@ auto IOJson::loadPerceptions(const rapidjson::Value &jsonPerceptions, types::Hap
       continue;
     }
     if (!jsonPerception.HasMember("perception_modality") ||
-        !jsonPerception["perception_modality"].IsString()) {
+        !jsonPerception["perception_modality"].IsString() ||
+        types::stringToPerceptionModality.count(
+            jsonPerception["perception_modality"].GetString()) == 0) {
       std::cerr << "Missing or invalid perception modality" << std::endl;
       continue;
     }
@@ -784,7 +786,8 @@ auto IOJson::loadLibrary(const rapidjson::Value &jsonLibrary, types::Perception
     }
     auto jsonEffect = jev.GetObject();
 
-    if (!jsonEffect.HasMember("effect_type") || !jsonEffect["effect_type"].IsString()) {
+    if (!jsonEffect.HasMember("effect_type") || !jsonEffect["effect_type"].IsString() ||
+        types::stringToEffectType.count(jsonEffect["effect_type"].GetString()) == 0) {
       std::cerr << "Missing or invalid effect type" << std::endl;
       continue;
     }
@@ -807,7 +810,8 @@ auto IOJson::loadLibrary(const rapidjson::Value &jsonLibrary, types::Perception
       auto phase = jsonEffect["phase"].GetFloat();
       effect.setPhase(phase);
     }
-    if (jsonEffect.HasMember("base_signal") && jsonEffect["base_signal"].IsString()) {
+    if (jsonEffect.HasMember("base_signal") && jsonEffect["base_signal"].IsString() &&
+        types::stringToBaseSignal.count(jsonEffect["base_signal"].GetString()) != 0) {
       auto baseSignal = types::stringToBaseSignal.at(jsonEffect["base_signal"].GetString());
       effect.setBaseSignal(baseSignal);
     }
@@ -887,9 +891,11 @@ auto IOJson::loadChannels(const rapidjson::Value &jsonChannels, types::Perceptio
     std::vector<std::string> bodyPartTargetString;
     if (IOJsonPrimitives::getStringArray(jsonChannel, "body_part_target", bodyPartTargetString)) {
       std::vector<types::BodyPartTarget> bodyPartTarget;
-      std::transform(bodyPartTargetString.begin(), bodyPartTargetString.end(),
-                     std::back_inserter(bodyPartTarget),
-                     [](const std::string &str) { return types::stringToBodyPartTarget.at(str); });
+      for (const auto &str : bodyPartTargetString) {
+        if (types::stringToBodyPartTarget.count(str) != 0) {
+          bodyPartTarget.push_back(types::stringToBodyPartTarget.at(str));
+        }
+      }
       channel.setBodyPartTarget(bodyPartTarget);
     }
 
@@ -934,7 +940,8 @@ auto IOJson::loadBands(const rapidjson::Value &jsonBands, types::Channel &channe
     }
     auto jsonBand = jbv.GetObject();
 
-    if (!jsonBand.HasMember("band_type") || !jsonBand["band_type"].IsString()) {
+    if (!jsonBand.HasMember("band_type") || !jsonBand["band_type"].IsString() ||
+        types::stringToBandType.count(jsonBand["band_type"].GetString()) == 0) {
       std::cerr << "Missing or invalid band type" << std::endl;
       continue;
     }
@@ -964,7 +971,8 @@ auto IOJson::loadBands(const rapidjson::Value &jsonBands, types::Channel &channe
 
     types::Band band(bandType, lowerLimit, upperLimit);
 
-    if (jsonBand.HasMember("curve_type") && jsonBand["curve_type"].IsString()) {
+    if (jsonBand.HasMember("curve_type") && jsonBand["curve_type"].IsString() &&
+        types::stringToCurveType.count(jsonBand["curve_type"].GetString()) != 0) {
       types::CurveType curveType = types::stringToCurveType.at(jsonBand["curve_type"].GetString());
       band.setCurveType(curveType);
     }
@@ -992,7 +1000,8 @@ auto IOJson::loadEffects(const rapidjson::Value &jsonEffects, types::Band &band)
     }
     auto jsonEffect = jev.GetObject();
 
-    if (!jsonEffect.HasMember("effect_type") || !jsonEffect["effect_type"].IsString()) {
+    if (!jsonEffect.HasMember("effect_type") || !jsonEffect["effect_type"].IsString() ||
+        types::stringToEffectType.count(jsonEffect["effect_type"].GetString()) == 0) {
       std::cerr << "Missing or invalid effect type" << std::endl;
       continue;
     }
@@ -1022,7 +1031,8 @@ auto IOJson::loadEffects(const rapidjson::Value &jsonEffects, types::Band &band)
       auto phase = jsonEffect["phase"].GetFloat();
       effect.setPhase(phase);
     }
-    if (jsonEffect.HasMember("base_signal") && jsonEffect["base_signal"].IsString()) {
+    if (jsonEffect.HasMember("base_signal") && jsonEffect["base_signal"].IsString() &&
+        types::stringToBaseSignal.count(jsonEffect["base_signal"].GetString()) != 0) {
       auto baseSignal = types::stringToBaseSignal.at(jsonEffect["base_signal"].GetString());
       effect.setBaseSignal(baseSignal);
     }
@@ -1061,7 +1071,8 @@ auto IOJson::loadAvatars(const rapidjson::Value &jsonAvatars, types::Haptics &ha
       std::cerr << "Missing or invalid avatar lod" << std::endl;
       continue;
     }
-    if (!jsonAvatar.HasMember("type") || !jsonAvatar["type"].IsString()) {
+    if (!jsonAvatar.HasMember("type") || !jsonAvatar["type"].IsString() ||
+        types::stringToAvatarType.count(jsonAvatar["type"].GetString()) == 0) {
       std::cerr << "Missing or invalid avatar type" << std::endl;
       continue;
     }
@@ -1146,7 +1157,8 @@ auto IOJson::loadReferenceDevices(const rapidjson::Value &jsonReferenceDevices,
     if (jsonReferenceDevice.HasMember("custom") && jsonReferenceDevice["custom"].IsNumber()) {
       referenceDevice.setCustom(jsonReferenceDevice["custom"].GetFloat());
     }
-    if (jsonReferenceDevice.HasMember("type") && jsonReferenceDevice["type"].IsString()) {
+    if (jsonReferenceDevice.HasMember("type") && jsonReferenceDevice["type"].IsString() &&
+        types::stringToActuatorType.count(jsonReferenceDevice["type"].GetString()) != 0) {
       referenceDevice.setType(
           types::stringToActuatorType.at(jsonReferenceDevice["type"].GetString()));
     }
-- 
2.43.0


From 45d48e23b5870961cce3c67b574bb5d11ffe2ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:21 +0000
Subject: [PATCH 18/45] fix: MIHS units read up to their end, failures reported
 as failures

The packets in the last 72 bits of a unit were skipped because the unit
header was counted as part of the unit's length, and a packet that could
not be read made readMIHSUnit return EXIT_FAILURE, that is true.
---
 source/IOHaptics/src/IOStream.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 333c926..f67cf90 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -254,10 +254,11 @@ auto IOStream::readMIHSUnit(std::vector<bool> &mihsunit, StreamReader &sreader,
   int unitLength = IOBinaryPrimitives::readUInt(mihsunit, index, UNIT_LENGTH) * BYTE_SIZE;
   index += UNIT_RESERVED;
 
+  const int unitEnd = index + unitLength; // the length does not count the unit header
   std::vector<bool> packets = std::vector<bool>(mihsunit.begin() + index, mihsunit.end());
-  while (index < unitLength) {
+  while (index < unitEnd) {
     if (!readMIHSPacket(packets, sreader, crc)) {
-      return EXIT_FAILURE;
+      return false;
     }
     index += static_cast<int>(sreader.packetLength) + H_NBITS;
     packets = std::vector<bool>(mihsunit.begin() + index, mihsunit.end());
@@ -2203,7 +2204,7 @@ auto IOStream::readData(StreamReader &sreader, std::vector<bool> &bitstream) ->
   sreader.auType = static_cast<AUType>(IOBinaryPrimitives::readUInt(bitstream, idx, DB_AU_TYPE));
 
   if (sreader.waitSync && sreader.auType == AUType::DAU) {
-    return false;
+    return true; // skipped until the next synchronisation point
   }
   if (sreader.waitSync) {
     sreader.waitSync = false;
-- 
2.43.0


From 31db9f909e6a658f68d407a63f342c0e3e963d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:21 +0000
Subject: [PATCH 19/45] fix: IOStream::readFile reports a stream that cannot be
 opened or read

It ignored the result of loadFile and returned EXIT_FAILURE, that is
true, for a unit that cannot be read.
---
 source/IOHaptics/src/IOStream.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index f67cf90..07e9f49 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -62,13 +62,15 @@ auto IOStream::writeFile(types::Haptics &haptic, const std::string &filePath, in
 
 auto IOStream::readFile(const std::string &filePath, types::Haptics &haptic) -> bool {
   std::vector<std::vector<bool>> bitstream = std::vector<std::vector<bool>>();
-  loadFile(filePath, bitstream);
+  if (!loadFile(filePath, bitstream)) {
+    return false;
+  }
   StreamReader sreader = initializeStream();
   CRC crc;
   int index = 0;
   for (auto &packet : bitstream) {
     if (!readMIHSUnit(packet, sreader, crc)) {
-      return EXIT_FAILURE;
+      return false;
     }
     if (crc.nbPackets != 0) {
       if (!checkCRC(bitstream, crc)) {
-- 
2.43.0


From 64c89939d908e11133307e89f0e013bc931f81a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:19 +0000
Subject: [PATCH 20/45] fix: checkHapticComponent examines every element

It went forward over lists it was removing elements from, so that the
element after a removed one was never examined and empty effects, bands,
channels or perceptions stayed in the stream.
---
 source/IOHaptics/src/IOStream.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 07e9f49..8a12afe 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -626,14 +626,14 @@ auto IOStream::writeAllBands(StreamWriter &swriter, MIHSPacketType mihsPacketTyp
 }
 
 auto IOStream::checkHapticComponent(types::Haptics &haptic) -> void {
-  for (auto i = 0; i < static_cast<int>(haptic.getPerceptionsSize()); i++) {
+  for (auto i = static_cast<int>(haptic.getPerceptionsSize()) - 1; i >= 0; i--) {
     types::Perception &perception = haptic.getPerceptionAt(i);
-    for (auto j = 0; j < static_cast<int>(perception.getChannelsSize()); j++) {
+    for (auto j = static_cast<int>(perception.getChannelsSize()) - 1; j >= 0; j--) {
       types::Channel &channel = perception.getChannelAt(j);
       std::vector<types::Band> bands = std::vector<types::Band>();
-      for (auto k = 0; k < static_cast<int>(channel.getBandsSize()); k++) {
+      for (auto k = static_cast<int>(channel.getBandsSize()) - 1; k >= 0; k--) {
         types::Band &band = channel.getBandAt(k);
-        for (auto l = 0; l < static_cast<int>(band.getEffectsSize()); l++) {
+        for (auto l = static_cast<int>(band.getEffectsSize()) - 1; l >= 0; l--) {
           types::Effect &effect = band.getEffectAt(l);
           if (band.getBandType() != types::BandType::WaveletWave &&
               effect.getEffectType() == types::EffectType::Basis &&
-- 
2.43.0


From 33ea8c6a09084139b30f1149124c61c0dbb5d17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:19 +0000
Subject: [PATCH 21/45] fix: stream channels are looked up in their own
 perception

searchChannelInHaptic searched all perceptions and returned an index that
was then used with another perception, so a channel id used in two
perceptions addressed the wrong channel or one out of range.
---
 source/IOHaptics/include/IOStream.h |  2 +-
 source/IOHaptics/src/IOStream.cpp   | 20 +++++++++-----------
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/source/IOHaptics/include/IOStream.h b/source/IOHaptics/include/IOStream.h
index b545703..61ece50 100644
--- a/source/IOHaptics/include/IOStream.h
+++ b/source/IOHaptics/include/IOStream.h
@@ -260,7 +260,7 @@ private:
   template <class T> static auto searchInList(std::vector<T> &list, T &item, int id) -> bool;
   static auto searchInList(std::vector<BandStream> &list, BandStream &item, int id) -> bool;
   static auto searchPerceptionInHaptic(types::Haptics &haptic, int id) -> int;
-  static auto searchChannelInHaptic(types::Haptics &haptic, int id) -> int;
+  static auto searchChannelInHaptic(types::Haptics &haptic, int perceptionIndex, int id) -> int;
   static auto searchBandInHaptic(StreamReader &sreader, int id) -> int;
 
   static auto readListObject(std::vector<bool> &bitstream, int fxCount, types::Band &band,
diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 8a12afe..87bd186 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -708,7 +708,7 @@ auto IOStream::readMIHSPacket(std::vector<bool> packet, StreamReader &sreader, C
       return false;
     }
     int perceIndex = searchPerceptionInHaptic(sreader.haptic, sreader.perception.getId());
-    int channelIndex = searchChannelInHaptic(sreader.haptic, sreader.channel.getId());
+    int channelIndex = searchChannelInHaptic(sreader.haptic, perceIndex, sreader.channel.getId());
     if (channelIndex == -1) {
       sreader.haptic.getPerceptionAt(perceIndex).addChannel(sreader.channel);
     } else {
@@ -722,7 +722,7 @@ auto IOStream::readMIHSPacket(std::vector<bool> packet, StreamReader &sreader, C
       return false;
     }
     int perceIndex = searchPerceptionInHaptic(sreader.haptic, sreader.perception.getId());
-    int channelIndex = searchChannelInHaptic(sreader.haptic, sreader.channel.getId());
+    int channelIndex = searchChannelInHaptic(sreader.haptic, perceIndex, sreader.channel.getId());
     int bandIndex = searchBandInHaptic(sreader, sreader.bandStream.id);
     if (bandIndex == -1 ||
         sreader.haptic.getPerceptionAt(perceIndex).getChannelAt(channelIndex).getBandsSize() == 0 ||
@@ -1810,7 +1810,7 @@ auto IOStream::readMetadataBand(StreamReader &sreader, std::vector<bool> &bitstr
   sreader.perception = sreader.haptic.getPerceptionAt(perceIndex);
 
   int channelId = IOBinaryPrimitives::readUInt(bitstream, idx, MDCHANNEL_ID);
-  int channelIndex = searchChannelInHaptic(sreader.haptic, channelId);
+  int channelIndex = searchChannelInHaptic(sreader.haptic, perceIndex, channelId);
   if (channelIndex == -1) {
     return false;
   }
@@ -2221,7 +2221,7 @@ auto IOStream::readData(StreamReader &sreader, std::vector<bool> &bitstream) ->
   sreader.perception = sreader.haptic.getPerceptionAt(perceptionIndex);
 
   int channelId = IOBinaryPrimitives::readUInt(bitstream, idx, MDCHANNEL_ID);
-  auto channelIndex = searchChannelInHaptic(sreader.haptic, channelId);
+  auto channelIndex = searchChannelInHaptic(sreader.haptic, perceptionIndex, channelId);
   if (channelIndex == -1) {
     return false;
   }
@@ -2632,13 +2632,11 @@ auto IOStream::searchPerceptionInHaptic(types::Haptics &haptic, int id) -> int {
   }
   return -1;
 }
-auto IOStream::searchChannelInHaptic(types::Haptics &haptic, int id) -> int {
-  for (auto i = 0; i < static_cast<int>(haptic.getPerceptionsSize()); i++) {
-    types::Perception perception = haptic.getPerceptionAt(i);
-    for (auto j = 0; j < static_cast<int>(perception.getChannelsSize()); j++) {
-      if (id == perception.getChannelAt(j).getId()) {
-        return j;
-      }
+auto IOStream::searchChannelInHaptic(types::Haptics &haptic, int perceptionIndex, int id) -> int {
+  types::Perception &perception = haptic.getPerceptionAt(perceptionIndex);
+  for (auto j = 0; j < static_cast<int>(perception.getChannelsSize()); j++) {
+    if (id == perception.getChannelAt(j).getId()) {
+      return j;
     }
   }
   return -1;
-- 
2.43.0


From 65a09c02ecf9cb2d264fc7f0caa00a5b33600129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:19 +0000
Subject: [PATCH 22/45] fix: every wavelet effect is written to the stream

createWaveletPayload wrote one effect and skipped the others of the same
packet duration, and did not end when a block is longer than a packet.
---
 source/IOHaptics/src/IOStream.cpp | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 87bd186..2028fa3 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -1959,18 +1959,11 @@ auto IOStream::createWaveletPayload(StreamWriter &swriter,
       !swriter.bandStream.band.getBlockLength().has_value()) {
     return false;
   }
-  int nbWaveBlock = static_cast<int>(swriter.packetDuration) /
-                    static_cast<int>(swriter.bandStream.band.getBlockLength().value());
-  for (auto i = 0; i < static_cast<int>(swriter.bandStream.band.getEffectsSize());
-       i += nbWaveBlock) {
+  for (auto i = 0; i < static_cast<int>(swriter.bandStream.band.getEffectsSize()); i++) {
     std::vector<bool> bufbitstream = std::vector<bool>();
     types::Effect bufEffect = swriter.bandStream.band.getEffectAt(i);
     IOBinaryBands::writeWaveletEffect(bufEffect, bufbitstream);
     bitstream.push_back(bufbitstream);
-    int overflow = static_cast<int>(swriter.bandStream.band.getEffectsSize()) - (i + nbWaveBlock);
-    if (overflow < 0) {
-      nbWaveBlock = static_cast<int>(swriter.bandStream.band.getEffectsSize()) - i;
-    }
   }
   return true;
 }
-- 
2.43.0


From 6973b6d5afad4d57c3b38d862b934043b59fcbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:19 +0000
Subject: [PATCH 23/45] fix: a reference effect exactly at the end of a packet
 is not lost

createPayloadPacket neither wrote it nor asked for a further packet, so
it was dropped when it is the last effect of its band.
---
 source/IOHaptics/src/IOStream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 2028fa3..1d2bd1a 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -2011,7 +2011,7 @@ auto IOStream::createPayloadPacket(StreamWriter &swriter, std::vector<std::vecto
         swriter.effects.push_back(effect);
         swriter.auType = AUType::RAU;
         swriter.keyframesCount.push_back(0);
-      } else if (effect.getPosition() > swriter.time + static_cast<int>(swriter.packetDuration)) {
+      } else if (effect.getPosition() >= swriter.time + static_cast<int>(swriter.packetDuration)) {
         return false;
       }
       if (i == static_cast<int>(swriter.bandStream.band.getEffectsSize()) - 1) {
-- 
2.43.0


From e016b822afd108bad7521d272d9fd08a1acd5ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:19 +0000
Subject: [PATCH 24/45] fix: the data of a spatial band is written once

writeData did not clear the packets of a spatial band, so they were
written again with every later band.
---
 source/IOHaptics/src/IOStream.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 1d2bd1a..c847a8d 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -2181,6 +2181,7 @@ auto IOStream::writeData(StreamWriter &swriter, std::vector<std::vector<bool>> &
         if (spatial) {
           writeSpatialData(swriter, bandBitstream);
           expBitstream.push_back(bandBitstream);
+          bandBitstream.clear();
         } else {
           linearizeTimeline(swriter.bandStream.band);
           packetizeBand(swriter, bandBitstream);
-- 
2.43.0


From 2e81d3cb9ebba742349d8d995302a1842f6ad2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:01 +0000
Subject: [PATCH 25/45] fix: writeCRC writes the CRC of a single packet

It refused a single packet and read element 0 of an empty list.
---
 source/IOHaptics/src/IOStream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index c847a8d..000ea6c 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -2270,7 +2270,7 @@ auto IOStream::writeCRC(std::vector<std::vector<bool>> &bitstream, std::vector<b
 
   std::vector<bool> quotient = std::vector<bool>();
   int nbPackets = 0;
-  if (bitstream.empty()) {
+  if (bitstream.size() == 1) {
     quotient = bitstream[0];
     nbPackets++;
   } else if (bitstream.size() > 1) {
-- 
2.43.0


From f42bdebdd1c46b9b36e357ef6fbb4873d4af6ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:01 +0000
Subject: [PATCH 26/45] fix: checkCRC takes the packets in order and is done
 afterwards

It put the protected packets in reverse order, unlike writeCRC, and left
the unsigned packet counter at its maximum, so that every later unit was
checked again, failed and made the reader wait for a synchronisation.
---
 source/IOHaptics/src/IOStream.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index 000ea6c..cf2d5a7 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -2329,8 +2329,9 @@ auto IOStream::checkCRC(std::vector<std::vector<bool>> &bitstream, CRC &crc) ->
     return false;
   }
   int index = 0;
-  while (crc.nbPackets-- > 0) {
-    protectedPackets.insert(protectedPackets.begin(), bitstream[index].begin(),
+  while (crc.nbPackets > 0) {
+    crc.nbPackets--;
+    protectedPackets.insert(protectedPackets.end(), bitstream[index].begin(),
                             bitstream[index].end());
     index++;
   }
-- 
2.43.0


From 5174510caec1ec9daec99f8e49f7eb68bb265e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:55 +0000
Subject: [PATCH 27/45] fix: OHM body part mask bytes are combined without sign
 extension

---
 source/Tools/src/OHMData.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/source/Tools/src/OHMData.cpp b/source/Tools/src/OHMData.cpp
index 9398652..d527c8a 100644
--- a/source/Tools/src/OHMData.cpp
+++ b/source/Tools/src/OHMData.cpp
@@ -120,9 +120,13 @@ auto OHMData::loadFile(const std::string &filePath) -> bool {
 
       std::array<char, 4> bodyPartMaskBytes{};
       file.read(bodyPartMaskBytes.data(), 4);
-      channel.bodyPartMask = static_cast<Body>(
-          (bodyPartMaskBytes[0] << threeBytesShift) | (bodyPartMaskBytes[1] << twoBytesShift) |
-          (bodyPartMaskBytes[2] << oneByteShift) | bodyPartMaskBytes[3]);
+      const auto toUnsigned = [](char byte) {
+        return static_cast<uint32_t>(static_cast<unsigned char>(byte));
+      };
+      channel.bodyPartMask = static_cast<Body>((toUnsigned(bodyPartMaskBytes[0]) << threeBytesShift) |
+                                               (toUnsigned(bodyPartMaskBytes[1]) << twoBytesShift) |
+                                               (toUnsigned(bodyPartMaskBytes[2]) << oneByteShift) |
+                                               toUnsigned(bodyPartMaskBytes[3]));
 
       element.channelsMetadata.push_back(channel);
     }
-- 
2.43.0


From f4a11702ce45937c6af182863d13911ee307d573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:55 +0000
Subject: [PATCH 28/45] fix: loading an OHM file replaces the elements loaded
 before

---
 source/Tools/src/OHMData.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/Tools/src/OHMData.cpp b/source/Tools/src/OHMData.cpp
index d527c8a..7730a9d 100644
--- a/source/Tools/src/OHMData.cpp
+++ b/source/Tools/src/OHMData.cpp
@@ -89,6 +89,7 @@ auto OHMData::loadFile(const std::string &filePath) -> bool {
   description = std::string(descriptionBytes.data(), descriptionByteSize);
   description.erase(description.find_last_not_of('\x00') + 1);
 
+  elementsMetadata.clear();
   for (int i = 0; i < numElements; i++) {
     HapticElementMetadata element;
     std::array<char, fileNameByteSize> hapticObjectFileNameBytes{};
-- 
2.43.0


From bc7079e7a4bcfcb90c16fc407f2f6e4939762ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:55 +0000
Subject: [PATCH 29/45] fix: loading a truncated OHM file fails

---
 source/Tools/src/OHMData.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/source/Tools/src/OHMData.cpp b/source/Tools/src/OHMData.cpp
index 7730a9d..7f210e8 100644
--- a/source/Tools/src/OHMData.cpp
+++ b/source/Tools/src/OHMData.cpp
@@ -89,6 +89,11 @@ auto OHMData::loadFile(const std::string &filePath) -> bool {
   description = std::string(descriptionBytes.data(), descriptionByteSize);
   description.erase(description.find_last_not_of('\x00') + 1);
 
+  if (!file) {
+    std::cerr << filePath << ": Truncated file!" << std::endl;
+    return false;
+  }
+
   elementsMetadata.clear();
   for (int i = 0; i < numElements; i++) {
     HapticElementMetadata element;
@@ -129,8 +134,16 @@ auto OHMData::loadFile(const std::string &filePath) -> bool {
                                                (toUnsigned(bodyPartMaskBytes[2]) << oneByteShift) |
                                                toUnsigned(bodyPartMaskBytes[3]));
 
+      if (!file) {
+        std::cerr << filePath << ": Truncated file!" << std::endl;
+        return false;
+      }
       element.channelsMetadata.push_back(channel);
     }
+    if (!file) {
+      std::cerr << filePath << ": Truncated file!" << std::endl;
+      return false;
+    }
     elementsMetadata.push_back(element);
   }
   file.close();
-- 
2.43.0


From 3f490baf4a64550378484ddc42fdf3fd9fd20e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:55 +0000
Subject: [PATCH 30/45] fix: the channel count of an OHM element is the number
 of channels written

---
 source/Tools/src/OHMData.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/Tools/src/OHMData.cpp b/source/Tools/src/OHMData.cpp
index 7f210e8..20e88d2 100644
--- a/source/Tools/src/OHMData.cpp
+++ b/source/Tools/src/OHMData.cpp
@@ -192,7 +192,8 @@ auto OHMData::writeFile(const std::string &filePath) -> bool {
 
     // Writing the number of channels
     std::array<char, 2> numHapticChannelsBytes{};
-    memcpy(&numHapticChannelsBytes, &element.numHapticChannels, sizeof(element.numHapticChannels));
+    auto numHapticChannels = static_cast<short>(element.channelsMetadata.size());
+    memcpy(&numHapticChannelsBytes, &numHapticChannels, sizeof(numHapticChannels));
     std::reverse(numHapticChannelsBytes.begin(), numHapticChannelsBytes.end());
     file.write(numHapticChannelsBytes.data(), 2);
 
-- 
2.43.0


From a63c43340858a9a218886bc788d17f1a6d6ac436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:55 +0000
Subject: [PATCH 31/45] fix: an OHM header shorter than four characters is
 padded, not read past its end

---
 source/Tools/src/OHMData.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Tools/src/OHMData.cpp b/source/Tools/src/OHMData.cpp
index 20e88d2..45bbdf1 100644
--- a/source/Tools/src/OHMData.cpp
+++ b/source/Tools/src/OHMData.cpp
@@ -164,7 +164,7 @@ auto OHMData::writeFile(const std::string &filePath) -> bool {
     return false;
   }
   // Writing the header
-  file.write(header.c_str(), 4);
+  file.write(fillString(header, 4).c_str(), 4);
 
   // Writing the version
   std::array<char, 2> versionBytes{};
-- 
2.43.0


From 922a8be9023ab29de9a2973476e75097d2fbd342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:08 +0000
Subject: [PATCH 32/45] fix: OHMData::writeFile reports a failed write

---
 source/Tools/src/OHMData.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/Tools/src/OHMData.cpp b/source/Tools/src/OHMData.cpp
index 45bbdf1..8e0c014 100644
--- a/source/Tools/src/OHMData.cpp
+++ b/source/Tools/src/OHMData.cpp
@@ -216,7 +216,7 @@ auto OHMData::writeFile(const std::string &filePath) -> bool {
     }
   }
   file.close();
-  return true;
+  return file.good();
 }
 
 [[nodiscard]] auto OHMData::getVersion() const -> short { return version; }
-- 
2.43.0


From 551e3f706f1d2b36cf394eacd298a6f859b84182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:08 +0000
Subject: [PATCH 33/45] fix: IOBinary::writeFile reports a failed write

---
 source/IOHaptics/src/IOBinary.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/IOHaptics/src/IOBinary.cpp b/source/IOHaptics/src/IOBinary.cpp
index 26e7c2e..9adb59f 100644
--- a/source/IOHaptics/src/IOBinary.cpp
+++ b/source/IOHaptics/src/IOBinary.cpp
@@ -92,7 +92,7 @@ auto IOBinary::writeFile(types::Haptics &haptic, const std::string &filePath) ->
   IOBinaryPrimitives::writeBitset(output, file);
 
   file.close();
-  return res;
+  return res && file.good();
 }
 
 auto IOBinary::readFileHeader(types::Haptics &haptic, std::istream &file,
-- 
2.43.0


From 05cbe126e3b5629e8c008f72c6a4af683ba0dfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:08 +0000
Subject: [PATCH 34/45] fix: IOStream::writeFile reports a failed write

---
 source/IOHaptics/src/IOStream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index cf2d5a7..a09f8b1 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -57,7 +57,7 @@ auto IOStream::writeFile(types::Haptics &haptic, const std::string &filePath, in
   }
 
   file.close();
-  return success;
+  return success && file.good();
 }
 
 auto IOStream::readFile(const std::string &filePath, types::Haptics &haptic) -> bool {
-- 
2.43.0


From d0b6dd09c51d500ad443599ab786acd2e00ba9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:08 +0000
Subject: [PATCH 35/45] fix: loading a stream file that ends inside a unit
 fails

---
 source/IOHaptics/include/IOBinaryPrimitives.h |  2 +-
 source/IOHaptics/src/IOStream.cpp             | 11 +++++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/source/IOHaptics/include/IOBinaryPrimitives.h b/source/IOHaptics/include/IOBinaryPrimitives.h
index 6f94023..33727f0 100644
--- a/source/IOHaptics/include/IOBinaryPrimitives.h
+++ b/source/IOHaptics/include/IOBinaryPrimitives.h
@@ -216,7 +216,7 @@ public:
         bitstream.push_back(((byte >> (BYTE_SIZE - i - 1)) & 1U) == 1);
       }
     }
-    return true;
+    return file.good();
   }
 };
 
diff --git a/source/IOHaptics/src/IOStream.cpp b/source/IOHaptics/src/IOStream.cpp
index a09f8b1..d56ab6a 100644
--- a/source/IOHaptics/src/IOStream.cpp
+++ b/source/IOHaptics/src/IOStream.cpp
@@ -109,7 +109,11 @@ auto IOStream::loadFile(const std::string &filePath, std::vector<std::vector<boo
     // read packet header
     int unitNBits =
         UNIT_TYPE + UNIT_SYNC + UNIT_LAYER + UNIT_DURATION + UNIT_LENGTH + UNIT_RESERVED;
-    IOBinaryPrimitives::readNBytes(file, static_cast<int>(unitNBits / BYTE_SIZE), bufPacket);
+    if (!IOBinaryPrimitives::readNBytes(file, static_cast<int>(unitNBits / BYTE_SIZE),
+                                        bufPacket)) {
+      std::cerr << filePath << ": Truncated unit!" << std::endl;
+      return false;
+    }
     byteCount += static_cast<int>(unitNBits / BYTE_SIZE);
     // read packet payload length
     int lengthIdx = unitNBits - (UNIT_LENGTH + UNIT_RESERVED);
@@ -117,7 +121,10 @@ auto IOStream::loadFile(const std::string &filePath, std::vector<std::vector<boo
 
     // int bytesToRead = readPacketLength(bufPacket);
     //  read paylaod
-    IOBinaryPrimitives::readNBytes(file, bytesToRead, bufPacket);
+    if (!IOBinaryPrimitives::readNBytes(file, bytesToRead, bufPacket)) {
+      std::cerr << filePath << ": Truncated unit!" << std::endl;
+      return false;
+    }
     byteCount += bytesToRead;
     bitset.push_back(bufPacket);
   }
-- 
2.43.0


From 5690bab7e187796213286767b8f0c84c343d4468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:49 +0000
Subject: [PATCH 36/45] fix: a binary haptic file that ends early is reported
 when loaded

---
 source/IOHaptics/src/IOBinary.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/IOHaptics/src/IOBinary.cpp b/source/IOHaptics/src/IOBinary.cpp
index 9adb59f..b8acef2 100644
--- a/source/IOHaptics/src/IOBinary.cpp
+++ b/source/IOHaptics/src/IOBinary.cpp
@@ -48,7 +48,7 @@ auto IOBinary::loadMemory(IOMemoryBuffer &in, types::Haptics &out) -> bool {
   if (res) {
     res = readFileBody(out, istr, unusedBits);
   }
-  return res;
+  return res && !istr.fail();
 }
 
 auto IOBinary::loadFile(const std::string &filePath, types::Haptics &out) -> bool {
@@ -72,6 +72,7 @@ auto IOBinary::loadFile(const std::string &filePath, types::Haptics &out) -> boo
   if (res) {
     res = IOBinary::readFileBody(out, file, unusedBits);
   }
+  res = res && !file.fail();
 
   file.close();
   return res;
-- 
2.43.0


From ffe4586320e78a4aa79eac112e675fdf45a30668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:20 +0000
Subject: [PATCH 37/45] fix: AHAP continuous events outside every control point
 no longer read outside the curve

---
 source/Encoder/src/AhapEncoder.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/source/Encoder/src/AhapEncoder.cpp b/source/Encoder/src/AhapEncoder.cpp
index b437ccd..bc192ca 100644
--- a/source/Encoder/src/AhapEncoder.cpp
+++ b/source/Encoder/src/AhapEncoder.cpp
@@ -359,6 +359,10 @@ auto AhapEncoder::modulateContinuousOnAmplitude(
       std::find_if(amplitudes->begin(), amplitudes->end(), [continuous](std::pair<int, double> a) {
         return a.first >= continuous.getPosition();
       });
+  // ALL THE CONTROL POINTS ARE BEFORE THE EFFECT: NO MODULATION
+  if (first_kf_a == amplitudes->end()) {
+    return;
+  }
 
   // IF FIRST KEYFRAME ON START OF EVENT, UPDATE EVENT
   if (first_kf_a->first == continuous.getPosition() && first_kf_a != amplitudes->end() - 1) {
@@ -376,6 +380,10 @@ auto AhapEncoder::modulateContinuousOnAmplitude(
   for (auto it = first_kf_a; it < amplitudes->end(); it++) {
     // IF AFTER OR ON THE END OF THE EFFECT, UPDATE END
     if (it->first >= (continuous.getPosition() + lastKeyframe.getRelativePosition().value())) {
+      // IF NO KEYFRAME BEFORE, NO MODULATION
+      if (it == amplitudes->begin()) {
+        break;
+      }
       float amp = static_cast<float>(haptics::tools::linearInterpolation(
           *(it - 1), *it, continuous.getPosition() + lastKeyframe.getRelativePosition().value()));
       lastKeyframe.setAmplitudeModulation(amp * lastKeyframe.getAmplitudeModulation().value());
@@ -409,6 +417,10 @@ auto AhapEncoder::modulateContinuousOnFrequency(
   auto first_kf_f = std::find_if(
       frequencies->begin(), frequencies->end(),
       [continuous](std::pair<int, double> a) { return a.first >= continuous.getPosition(); });
+  // ALL THE CONTROL POINTS ARE BEFORE THE EFFECT: NO MODULATION
+  if (first_kf_f == frequencies->end()) {
+    return;
+  }
 
   // IF FIRST KEYFRAME ON START OF EVENT, UPDATE EVENT
   if (first_kf_f->first == continuous.getPosition() && first_kf_f != frequencies->end() - 1) {
@@ -432,6 +444,10 @@ auto AhapEncoder::modulateContinuousOnFrequency(
   for (auto it = first_kf_f; it < frequencies->end(); it++) {
     // IF AFTER OR ON THE END OF THE EFFECT, UPDATE END
     if (it->first >= (continuous.getPosition() + lastKeyframe.getRelativePosition().value())) {
+      // IF NO KEYFRAME BEFORE, NO MODULATION
+      if (it == frequencies->begin()) {
+        break;
+      }
       double freq = haptics::tools::chirpInterpolation(
           (it - 1)->first, it->first, (it - 1)->second + base_freq, it->second + base_freq,
           continuous.getPosition() + lastKeyframe.getRelativePosition().value());
-- 
2.43.0


From 7ecb8dacd8b9810f08e73be7ddcd98e7ef59c61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:43 +0000
Subject: [PATCH 38/45] fix: AHAP entries that are not well formed are skipped
 instead of dereferenced

---
 source/Encoder/src/AhapEncoder.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/source/Encoder/src/AhapEncoder.cpp b/source/Encoder/src/AhapEncoder.cpp
index bc192ca..84c981b 100644
--- a/source/Encoder/src/AhapEncoder.cpp
+++ b/source/Encoder/src/AhapEncoder.cpp
@@ -96,7 +96,8 @@ namespace haptics::encoder {
 
   // FOR LOOP ON KEYFRAMES
   for (auto &e : pattern) {
-    if (e.HasMember("ParameterCurve")) {
+    if (e.IsObject() && e.HasMember("ParameterCurve") && e["ParameterCurve"].IsObject() &&
+        e["ParameterCurve"].HasMember("ParameterID")) {
       if (e["ParameterCurve"]["ParameterID"] == "HapticIntensityControl") {
         ret = extractKeyframes(e["ParameterCurve"].GetObject(), &amplitudes, timescale);
         if (ret != 0) {
@@ -117,7 +118,8 @@ namespace haptics::encoder {
 
   for (auto &e : pattern) {
 
-    if (e.HasMember("Event")) {
+    if (e.IsObject() && e.HasMember("Event") && e["Event"].IsObject() &&
+        e["Event"].HasMember("EventType")) {
       if (e["Event"]["EventType"] == "HapticTransient") {
         ret = extractTransients(e["Event"].GetObject(), &transients, &amplitudes, &frequencies,
                                 timescale);
@@ -189,7 +191,7 @@ namespace haptics::encoder {
   }
 
   for (auto &kahap : parameterCurve["ParameterCurveControlPoints"].GetArray()) {
-    if (!kahap.HasMember("Time") || !kahap["Time"].IsNumber() ||
+    if (!kahap.IsObject() || !kahap.HasMember("Time") || !kahap["Time"].IsNumber() ||
         !kahap.HasMember("ParameterValue") || !kahap["ParameterValue"].IsNumber()) {
       continue;
     }
@@ -230,6 +232,11 @@ namespace haptics::encoder {
 
   // SET VALUES AS DEFINED
   for (auto &param : event["EventParameters"].GetArray()) {
+    if (!param.IsObject() || !param.HasMember("ParameterID") ||
+        !param.HasMember("ParameterValue") || !param["ParameterValue"].IsNumber()) {
+      continue;
+    }
+
     if (param["ParameterID"] == "HapticIntensity") {
       double amp =
           tools::genericNormalization(BASE_AMPLITUDE_MIN, BASE_AMPLITUDE_MAX, ACTUAL_AMPLITUDE_MIN,
@@ -316,6 +323,11 @@ namespace haptics::encoder {
 
   // SET VALUES AS DEFINED
   for (auto &param : event["EventParameters"].GetArray()) {
+    if (!param.IsObject() || !param.HasMember("ParameterID") ||
+        !param.HasMember("ParameterValue") || !param["ParameterValue"].IsNumber()) {
+      continue;
+    }
+
     if (param["ParameterID"] == "HapticIntensity") {
       double amp =
           tools::genericNormalization(BASE_AMPLITUDE_MIN, BASE_AMPLITUDE_MAX, ACTUAL_AMPLITUDE_MIN,
-- 
2.43.0


From 1aa4b0540c767f642693c43e73c5c197d35405b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:13 +0000
Subject: [PATCH 39/45] fix: IVS nested repeats no longer replace the root of
 the repeat tree and lose events

---
 source/Encoder/include/IvsEncoder.h |  8 ++++++++
 source/Encoder/src/IvsEncoder.cpp   | 16 +---------------
 2 files changed, 9 insertions(+), 15 deletions(-)

diff --git a/source/Encoder/include/IvsEncoder.h b/source/Encoder/include/IvsEncoder.h
index 9cd34f6..257a84f 100644
--- a/source/Encoder/include/IvsEncoder.h
+++ b/source/Encoder/include/IvsEncoder.h
@@ -102,6 +102,14 @@ private:
     std::vector<types::Effect> myEffects;
     std::vector<RepeatNode> children;
 
+    auto pushRepeat(const RepeatNode &node) -> void {
+      if (!children.empty() && IvsEncoder::isRepeatNested(children.back().value, node.value)) {
+        children.back().pushRepeat(node);
+      } else {
+        children.push_back(node);
+      }
+    }
+
     auto pushEffect(types::Effect &myEffect) -> bool {
       if (value != nullptr) {
         int start = IvsEncoder::getTime(value);
diff --git a/source/Encoder/src/IvsEncoder.cpp b/source/Encoder/src/IvsEncoder.cpp
index 7e91457..9220934 100644
--- a/source/Encoder/src/IvsEncoder.cpp
+++ b/source/Encoder/src/IvsEncoder.cpp
@@ -78,21 +78,7 @@ auto IvsEncoder::encode(const std::string &filename, types::Perception &out, uns
 
     auto repeatTree = RepeatNode{nullptr, {}, {}};
     for (pugi::xml_node &repeatEvent : sortedRepeatEvents) {
-      auto currentNode = RepeatNode{&repeatEvent, {}, {}};
-      RepeatNode &researchNode = repeatTree;
-      bool continue_search = false;
-      do {
-        if (researchNode.children.empty()) {
-          break;
-        }
-
-        auto lastChild = researchNode.children.back();
-        continue_search = isRepeatNested(lastChild.value, currentNode.value);
-        if (continue_search) {
-          researchNode = lastChild;
-        }
-      } while (continue_search);
-      researchNode.children.push_back(currentNode);
+      repeatTree.pushRepeat(RepeatNode{&repeatEvent, {}, {}});
     }
 
     pugi::xml_node basisEffect = {};
-- 
2.43.0


From 8b931ed9f62049a6dbe583022639e61e8a5a3b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:02 +0000
Subject: [PATCH 40/45] fix: IVS timelines become channels with distinct ids

---
 source/Encoder/src/IvsEncoder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/Encoder/src/IvsEncoder.cpp b/source/Encoder/src/IvsEncoder.cpp
index 9220934..5a1894a 100644
--- a/source/Encoder/src/IvsEncoder.cpp
+++ b/source/Encoder/src/IvsEncoder.cpp
@@ -57,7 +57,8 @@ auto IvsEncoder::encode(const std::string &filename, types::Perception &out, uns
     haptics::types::Channel myChannel;
     if (out.getChannelsSize() <= static_cast<size_t>(channelId)) {
       std::string timelineName = IvsEncoder::getName(&timeline);
-      myChannel = haptics::types::Channel(0, timelineName.append(" - ").append(date), 1, 1, 0);
+      myChannel =
+          haptics::types::Channel(channelId, timelineName.append(" - ").append(date), 1, 1, 0);
       out.addChannel(myChannel);
     };
     myChannel = out.getChannelAt(channelId);
-- 
2.43.0


From 84d5db4b696188e1183157be09e7bfefc295cb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:03 +0000
Subject: [PATCH 41/45] fix: spectrum correction follows the block length of
 its own model

The factor was kept in a static variable initialised by the first block any
model processed, so a second model with another block length used the wrong one.
---
 source/PsychohapticModel/src/PsychohapticModel.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/PsychohapticModel/src/PsychohapticModel.cpp b/source/PsychohapticModel/src/PsychohapticModel.cpp
index 9c5f552..0cae900 100644
--- a/source/PsychohapticModel/src/PsychohapticModel.cpp
+++ b/source/PsychohapticModel/src/PsychohapticModel.cpp
@@ -81,9 +81,9 @@ auto PsychohapticModel::getSMR(std::vector<double> &block) -> modelResult {
     i = i * sqrt(2 * (double)bl);
   }
 
-  static double correction = 1 / sqrt((double)bl);
+  double correction = 1 / sqrt((double)bl);
   std::transform(spect_complex.begin(), spect_complex.end() - (long long)bl, spect_mag.begin(),
-                 [](std::complex<double> a) {
+                 [correction](std::complex<double> a) {
                    return LOGFACTOR_SPECT *
                           log10(correction * sqrt(a.real() * a.real() + a.imag() * a.imag()));
                  });
-- 
2.43.0


From e52846129f0569e33cc64036fde52834f9f81255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:53 +0000
Subject: [PATCH 42/45] fix: encoding a WAV file that cannot be read reports a
 failure

---
 source/Encoder/src/PcmEncoder.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/Encoder/src/PcmEncoder.cpp b/source/Encoder/src/PcmEncoder.cpp
index e3d4f4c..2b941cd 100644
--- a/source/Encoder/src/PcmEncoder.cpp
+++ b/source/Encoder/src/PcmEncoder.cpp
@@ -53,7 +53,9 @@ namespace haptics::encoder {
 auto PcmEncoder::encode(std::string &filename, EncodingConfig &config, const unsigned int timescale,
                         Perception &out) -> int {
   WavParser wavParser;
-  wavParser.loadFile(filename);
+  if (!wavParser.loadFile(filename)) {
+    return EXIT_FAILURE;
+  }
   size_t numChannels = wavParser.getNumChannels();
   Channel myChannel;
   auto channelsSize = out.getChannelsSize();
-- 
2.43.0


From 0c022e5ae00faee796008ca9b1edbb52dc1dd888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:53 +0000
Subject: [PATCH 43/45] fix: saving a WAV file reports a file that cannot be
 opened or written completely

---
 source/Tools/src/WavParser.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/source/Tools/src/WavParser.cpp b/source/Tools/src/WavParser.cpp
index 7d29bf1..d7599f9 100644
--- a/source/Tools/src/WavParser.cpp
+++ b/source/Tools/src/WavParser.cpp
@@ -80,7 +80,9 @@ auto WavParser::saveFile(const std::string &filename, const std::vector<double>
   format.channels = 1;
   format.sampleRate = sampleRate;
   format.bitsPerSample = BITS_PER_SAMPLE;
-  drwav_init_file_write(&wav, filename.c_str(), &format, nullptr);
+  if (!(bool)drwav_init_file_write(&wav, filename.c_str(), &format, nullptr)) {
+    return false;
+  }
   std::vector<uint16_t> b_int;
   b_int.resize(buff.size());
   std::transform(buff.begin(), buff.end(), b_int.begin(), [](double v) -> uint16_t {
@@ -93,9 +95,9 @@ auto WavParser::saveFile(const std::string &filename, const std::vector<double>
     }
     return (uint16_t)v_scaled;
   });
-  drwav_write_pcm_frames(&wav, b_int.size(), b_int.data());
+  const auto written = drwav_write_pcm_frames(&wav, b_int.size(), b_int.data());
   drwav_uninit(&wav);
-  return true;
+  return written == b_int.size();
 }
 
 auto WavParser::saveFile(const std::string &filename, const std::vector<std::vector<double>> &buff,
@@ -114,7 +116,9 @@ auto WavParser::saveFile(const std::string &filename, const std::vector<std::vec
   format.channels = buff.size();
   format.sampleRate = sampleRate;
   format.bitsPerSample = BITS_PER_SAMPLE;
-  drwav_init_file_write(&wav, filename.c_str(), &format, nullptr);
+  if (!(bool)drwav_init_file_write(&wav, filename.c_str(), &format, nullptr)) {
+    return false;
+  }
 
   std::vector<uint16_t> b_int;
   b_int.resize(buff.size() * buff.at(0).size());
@@ -132,9 +136,10 @@ auto WavParser::saveFile(const std::string &filename, const std::vector<std::vec
     }
     c++;
   }
-  drwav_write_pcm_frames(&wav, b_int.size() / buff.size(), b_int.data());
+  const auto written =
+      drwav_write_pcm_frames(&wav, b_int.size() / buff.size(), b_int.data());
   drwav_uninit(&wav);
-  return true;
+  return written == buff.at(0).size();
 }
 
 auto WavParser::getSamplerate() const -> uint32_t { return sampleRate; }
-- 
2.43.0


From 67b3347b1534249df7deafbf3d05da2638d3d72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:53 +0000
Subject: [PATCH 44/45] fix: negative samples are converted to 16 bits through
 a signed type

---
 source/Tools/src/WavParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/Tools/src/WavParser.cpp b/source/Tools/src/WavParser.cpp
index d7599f9..1141c05 100644
--- a/source/Tools/src/WavParser.cpp
+++ b/source/Tools/src/WavParser.cpp
@@ -93,7 +93,7 @@ auto WavParser::saveFile(const std::string &filename, const std::vector<double>
     if (v_scaled < -SCALING) {
       return NEG_MAX;
     }
-    return (uint16_t)v_scaled;
+    return (uint16_t)(int16_t)v_scaled;
   });
   const auto written = drwav_write_pcm_frames(&wav, b_int.size(), b_int.data());
   drwav_uninit(&wav);
@@ -131,7 +131,7 @@ auto WavParser::saveFile(const std::string &filename, const std::vector<std::vec
       } else if (v < -SCALING) {
         b_int.at((i * buff.size()) + c) = NEG_MAX;
       } else {
-        b_int.at((i * buff.size()) + c) = (uint16_t)v;
+        b_int.at((i * buff.size()) + c) = (uint16_t)(int16_t)v;
       }
     }
     c++;
-- 
2.43.0


From 2ea2afc9129b4486c92c9695d59c9c198fbd9d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:10 +0000
Subject: [PATCH 45/45] fix: a plateau of the spectrum is a peak exactly when
 the sample after it is lower

---
 source/PsychohapticModel/src/PsychohapticModel.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/PsychohapticModel/src/PsychohapticModel.cpp b/source/PsychohapticModel/src/PsychohapticModel.cpp
index 0cae900..678c36c 100644
--- a/source/PsychohapticModel/src/PsychohapticModel.cpp
+++ b/source/PsychohapticModel/src/PsychohapticModel.cpp
@@ -170,7 +170,7 @@ auto PsychohapticModel::findAllPeakLocations(std::vector<double> &x) -> peaks {
             }
             ++i_plateau;
           }
-          if (i_plateau >= (x.size() - 1)) {
+          if (i_plateau >= x.size()) {
             p.heights.push_back(x[i]);
             size_t i_peak = (i + i_plateau) / 2;
             if (i_peak >= x.size()) {
@@ -179,7 +179,7 @@ auto PsychohapticModel::findAllPeakLocations(std::vector<double> &x) -> peaks {
             p.locations.push_back(i_peak);
             ++num_peaks;
             i = i_plateau;
-          } else if (x[i_plateau + 1] < x[i]) {
+          } else if (x[i_plateau] < x[i]) {
             p.heights.push_back(x[i]);
             size_t i_peak = (i + i_plateau) / 2;
             if (i_peak >= x.size()) {
-- 
2.43.0

