From 06c94a0cb22e846141ce8d654bebd92f7bdca6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:20 +0000
Subject: [PATCH 01/28] fix: do not report transparent data from blocks that
 were not received

---
 src/groups.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/groups.cc b/src/groups.cc
index f4f93be..24e6a32 100644
--- a/src/groups.cc
+++ b/src/groups.cc
@@ -807,6 +807,9 @@ void Station::decodeType5(const Group& group) {
   const auto address                   = getBits<5>(group.get(BLOCK2), 0);
   json_["transparent_data"]["address"] = address;
 
+  if (!group.has(BLOCK4) || (group.getType().version == GroupType::Version::A && !group.has(BLOCK3)))
+    return;
+
   if (group.getType().version == GroupType::Version::A) {
     const std::array<std::uint8_t, 4> data{
         getUint8(group.get(BLOCK3), 8), getUint8(group.get(BLOCK3), 0),
-- 
2.43.0


From 2871bc5d7e78b10d261c10790940d8adf46e3491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:20 +0000
Subject: [PATCH 02/28] fix: do not report a DAB ensemble from blocks that were
 not received

---
 src/groups.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/groups.cc b/src/groups.cc
index 24e6a32..21ef31a 100644
--- a/src/groups.cc
+++ b/src/groups.cc
@@ -1275,6 +1275,9 @@ void Station::parseDAB(const Group& group) {
   } else {
     // Ensemble table
 
+    if (!(group.has(BLOCK3) && group.has(BLOCK4)))
+      return;
+
     const auto mode = getBits<2>(group.get(BLOCK2), 2);
     const std::array<std::string, 4> modes{"unspecified", "I", "II or III", "IV"};
     json_["dab"]["mode"] = modes[mode];
-- 
2.43.0


From 2bc7236b6ce166184d12653f1be3b69fa61492fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:20 +0000
Subject: [PATCH 03/28] fix: do not update enhanced RadioText from a block that
 was not received

---
 src/groups.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/groups.cc b/src/groups.cc
index 21ef31a..abec1b1 100644
--- a/src/groups.cc
+++ b/src/groups.cc
@@ -1253,7 +1253,9 @@ void parseRadioTextPlus(const Group& group, RadioText& rt, nlohmann::ordered_jso
 void Station::parseEnhancedRT(const Group& group) {
   const std::size_t position = getBits<5>(group.get(BLOCK2), 0) * 4U;
 
-  ert_.update(position, getUint8(group.get(BLOCK3), 8), getUint8(group.get(BLOCK3), 0));
+  if (group.has(BLOCK3)) {
+    ert_.update(position, getUint8(group.get(BLOCK3), 8), getUint8(group.get(BLOCK3), 0));
+  }
 
   if (group.has(BLOCK4)) {
     ert_.update(position + 2U, getUint8(group.get(BLOCK4), 8), getUint8(group.get(BLOCK4), 0));
-- 
2.43.0


From 1667e084657ade1f02857d6f75648b51a19914a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:20 +0000
Subject: [PATCH 04/28] fix: treat a truncated block at the end of a hex line
 as not received

---
 src/io/input.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/io/input.cc b/src/io/input.cc
index dd2717e..9e1fb3f 100644
--- a/src/io/input.cc
+++ b/src/io/input.cc
@@ -215,7 +215,8 @@ Group readHexGroup(const Options& options) {
       int which_nibble = 0;
       while (which_nibble < 4) {
         if (line.length() < 1) {
-          group_complete = true;
+          group_complete    = true;
+          block_still_valid = false;
           break;
         }
 
-- 
2.43.0


From 8e837726911741ae5c018f263f12660177871cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:20 +0000
Subject: [PATCH 05/28] fix: look at the error bits of each TEF block
 separately

---
 src/io/input.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/io/input.cc b/src/io/input.cc
index 9e1fb3f..63deb10 100644
--- a/src/io/input.cc
+++ b/src/io/input.cc
@@ -286,9 +286,9 @@ Group readTEFGroup(const Options& options) {
         blocks[2].data = std::stol(line.substr(9, 4), nullptr, 16);
 
         const auto rds_err = static_cast<std::uint32_t>(std::stol(line.substr(13, 2), nullptr, 16));
-        blocks[0].is_received = (static_cast<std::uint32_t>(rds_err >> 4U) & 0xFFU) == 0;
-        blocks[1].is_received = (static_cast<std::uint32_t>(rds_err >> 2U) & 0xFFU) == 0;
-        blocks[2].is_received = (static_cast<std::uint32_t>(rds_err >> 0U) & 0xFFU) == 0;
+        blocks[0].is_received = (static_cast<std::uint32_t>(rds_err >> 4U) & 0x3U) == 0;
+        blocks[1].is_received = (static_cast<std::uint32_t>(rds_err >> 2U) & 0x3U) == 0;
+        blocks[2].is_received = (static_cast<std::uint32_t>(rds_err >> 0U) & 0x3U) == 0;
 
         group.setBlock(BLOCK2, blocks[0]);
         group.setBlock(BLOCK3, blocks[1]);
-- 
2.43.0


From 5ee4cc9652194de04dcf979e58e1e6322e6661a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:20 +0000
Subject: [PATCH 06/28] fix: do not take the group type from a TEF block
 received with errors

---
 src/io/input.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/io/input.cc b/src/io/input.cc
index 63deb10..e97f987 100644
--- a/src/io/input.cc
+++ b/src/io/input.cc
@@ -290,9 +290,12 @@ Group readTEFGroup(const Options& options) {
         blocks[1].is_received = (static_cast<std::uint32_t>(rds_err >> 2U) & 0x3U) == 0;
         blocks[2].is_received = (static_cast<std::uint32_t>(rds_err >> 0U) & 0x3U) == 0;
 
-        group.setBlock(BLOCK2, blocks[0]);
-        group.setBlock(BLOCK3, blocks[1]);
-        group.setBlock(BLOCK4, blocks[2]);
+        if (blocks[0].is_received)
+          group.setBlock(BLOCK2, blocks[0]);
+        if (blocks[1].is_received)
+          group.setBlock(BLOCK3, blocks[1]);
+        if (blocks[2].is_received)
+          group.setBlock(BLOCK4, blocks[2]);
       } catch (const std::exception&) {
         break;
       }
-- 
2.43.0


From 1f79898de6039e16ef9d4aeef56b1c9ce27ab5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:54 +0000
Subject: [PATCH 07/28] fix: keep the time zone of the computer out of the
 received clock-time

---
 src/groups.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/groups.cc b/src/groups.cc
index abec1b1..4225e4e 100644
--- a/src/groups.cc
+++ b/src/groups.cc
@@ -774,8 +774,13 @@ void Station::decodeType4A(const Group& group) {
   utc_plus_offset_tm.tm_min   = static_cast<int>(minute_utc);
   utc_plus_offset_tm.tm_sec   = static_cast<int>(local_offset * 3600.0);
 
-  const std::time_t local_t     = std::mktime(&utc_plus_offset_tm);
-  const std::tm* const local_tm = std::localtime(&local_t);
+  // Not std::mktime/localtime: the time zone rules of this computer must not have an effect
+#ifdef _WIN32
+  const std::time_t local_t = _mkgmtime(&utc_plus_offset_tm);
+#else
+  const std::time_t local_t = timegm(&utc_plus_offset_tm);
+#endif
+  const std::tm* const local_tm = std::gmtime(&local_t);
 
   const bool is_date_valid =
       hour_utc <= 23 && minute_utc <= 59 && std::fabs(std::trunc(local_offset)) <= 14.0;
-- 
2.43.0


From a690572993f7772a493a74eb15ca409a4a0a48c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:41 +0000
Subject: [PATCH 08/28] fix: count whole UTF-8 characters when locating RT+
 tags

---
 src/text/rdsstring.hh | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/text/rdsstring.hh b/src/text/rdsstring.hh
index f10227d..c876e5f 100644
--- a/src/text/rdsstring.hh
+++ b/src/text/rdsstring.hh
@@ -27,19 +27,17 @@ namespace redsea {
 // Length of a UTF-8 character starting at byte_start.
 // 0 on error.
 inline std::size_t charlen(const std::string& str, std::size_t byte_start) {
-  std::size_t nbyte{byte_start};
-
-  if (nbyte >= str.length())
+  if (byte_start >= str.length())
     return 0;
 
-  while ((static_cast<std::uint8_t>(str[nbyte]) & 0b1100'0000U) == 0b1000'0000U) {
+  // The first byte and any continuation bytes following it
+  std::size_t nbyte{1};
+  while (byte_start + nbyte < str.length() &&
+         (static_cast<std::uint8_t>(str[byte_start + nbyte]) & 0b1100'0000U) == 0b1000'0000U) {
     nbyte++;
-
-    if (nbyte >= str.length())
-      return 0;
   }
 
-  return nbyte - byte_start + 1;
+  return nbyte;
 }
 
 // An RDSString can be RadioText, Program Service name, or Enhanced RadioText.
-- 
2.43.0


From bcacebefd1701a8fb61937a26ab5823033a42798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:42 +0000
Subject: [PATCH 09/28] fix: show RT+ tags that reach the last character of a
 full-length text

---
 src/text/rdsstring.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/text/rdsstring.cc b/src/text/rdsstring.cc
index 2901767..4317cb1 100644
--- a/src/text/rdsstring.cc
+++ b/src/text/rdsstring.cc
@@ -194,7 +194,7 @@ std::string RDSString::getLastCompleteString(std::size_t start, std::size_t len)
     byte_end += clen;
   }
 
-  return byte_end < last_complete_string_.length()
+  return byte_end <= last_complete_string_.length()
              ? last_complete_string_.substr(byte_start, byte_end - byte_start)
              : "";
 }
-- 
2.43.0


From 6b6183911e7a9bf30516856bcf047afbf0c45f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:30 +0000
Subject: [PATCH 10/28] fix: receive enhanced RadioText up to its full 128
 bytes

---
 src/groups.hh         | 2 +-
 src/text/radiotext.hh | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/groups.hh b/src/groups.hh
index bd8dd64..a33a2b1 100644
--- a/src/groups.hh
+++ b/src/groups.hh
@@ -155,7 +155,7 @@ class Station {
   ProgramServiceName ps_;
   LongPS long_ps_;
   RadioText radiotext_;
-  RadioText ert_;
+  RadioText ert_{32U * 4U};
   PTYName ptyname_;
   RDSString full_tdc_{32U * 4U};
   std::uint16_t pin_{};
diff --git a/src/text/radiotext.hh b/src/text/radiotext.hh
index c4e563a..c096622 100644
--- a/src/text/radiotext.hh
+++ b/src/text/radiotext.hh
@@ -11,7 +11,7 @@ namespace redsea {
 
 class RadioText {
  public:
-  RadioText() = default;
+  explicit RadioText(std::size_t len = 64) : text(len) {}
   bool isABChanged(int new_ab) {
     const bool is = (ab != new_ab);
     ab            = new_ab;
@@ -36,7 +36,7 @@ class RadioText {
     };
   };
 
-  RDSString text{64};
+  RDSString text;
   Plus plus;
   std::string previous_potentially_complete_message;
   int ab{};
-- 
2.43.0


From 51d5e549a9e0de815360fde3588824a8e08eec51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:08 +0000
Subject: [PATCH 11/28] fix: country code F of ECC D1 is Nigeria

---
 src/tables.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tables.cc b/src/tables.cc
index d3bd285..9621061 100644
--- a/src/tables.cc
+++ b/src/tables.cc
@@ -81,7 +81,7 @@ std::string getCountryString(std::uint16_t cc, std::uint16_t ecc) {
       {0xD0,
        {"cm", "cf", "dj", "mg", "ml", "ao", "gq", "ga", "gn", "za", "bf", "cg", "tg", "bj", "mw"}},
       {0xD1,
-       {"na", "lr", "gh", "mr", "st", "cv", "sn", "gm", "bi", "--", "bw", "km", "tz", "et", "bg"}},
+       {"na", "lr", "gh", "mr", "st", "cv", "sn", "gm", "bi", "--", "bw", "km", "tz", "et", "ng"}},
       {0xD2,
        {"sl", "zw", "mz", "ug", "sz", "ke", "so", "ne", "td", "gw", "zr", "ci", "tz", "zm", "--"}},
       {0xD3,
-- 
2.43.0


From fffaef6465a8732dafac25f1f8197d500beafc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:08 +0000
Subject: [PATCH 12/28] fix: reject programme item numbers with an hour of 24

---
 src/groups.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/groups.cc b/src/groups.cc
index 4225e4e..cba4388 100644
--- a/src/groups.cc
+++ b/src/groups.cc
@@ -50,7 +50,7 @@ bool decodePIN(std::uint16_t pin, nlohmann::ordered_json* json) {
   const std::uint16_t day    = getBits<5>(pin, 11);
   const std::uint16_t hour   = getBits<5>(pin, 6);
   const std::uint16_t minute = getBits<6>(pin, 0);
-  if (day >= 1 && hour <= 24 && minute <= 59) {
+  if (day >= 1 && hour <= 23 && minute <= 59) {
     (*json)["prog_item_number"]          = pin;
     (*json)["prog_item_started"]["day"]  = day;
     (*json)["prog_item_started"]["time"] = getHoursMinutesString(hour, minute);
-- 
2.43.0


From 69d34cf31bb9fef540648b0276a9835583472e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:49 +0000
Subject: [PATCH 13/28] fix: do not decode the end of ASCII bit input as
 another bit

---
 src/redsea.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/redsea.cc b/src/redsea.cc
index 5d92ba2..67f98ea 100644
--- a/src/redsea.cc
+++ b/src/redsea.cc
@@ -170,7 +170,9 @@ int processASCIIBitsInput(const Options& options) {
   AsciiBitReader ascii_reader(options);
 
   while (!ascii_reader.eof()) {
-    channel.processBit(ascii_reader.readBit(), 0);
+    const bool bit = ascii_reader.readBit();
+    if (!ascii_reader.eof())
+      channel.processBit(bit, 0);
   }
 
   channel.flush();
-- 
2.43.0


From 60efae29cbbd2f21f76828080218f88c4f03a130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:49 +0000
Subject: [PATCH 14/28] fix: do not echo an extra byte at the end of ASCII bit
 input

---
 src/io/input.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/input.cc b/src/io/input.cc
index e97f987..0f20613 100644
--- a/src/io/input.cc
+++ b/src/io/input.cc
@@ -166,7 +166,7 @@ bool AsciiBitReader::readBit() {
   int chr = 0;
   while (chr != '0' && chr != '1' && chr != EOF) {
     chr = std::getchar();
-    if (feed_thru_)
+    if (feed_thru_ && chr != EOF)
       std::putchar(chr);
   }
 
-- 
2.43.0


From 79e6d34ea4896d0d7fe74fab09c98aafbd3ae632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:49 +0000
Subject: [PATCH 15/28] fix: separate the channels of the last chunk of a
 multichannel signal

---
 src/io/input.cc | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/io/input.cc b/src/io/input.cc
index 0f20613..f959441 100644
--- a/src/io/input.cc
+++ b/src/io/input.cc
@@ -133,9 +133,6 @@ MPXBuffer& MPXReader::readChunk(std::uint32_t channel) {
                            std::to_string(num_channels_) + "-channel signal");
   }
 
-  if (is_eof_)
-    return buffer_;
-
   if (num_channels_ == 1) {
     return buffer_;
   } else {
-- 
2.43.0


From d4d5bba0629b795f5394c43f994840db55adbcea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:15 +0000
Subject: [PATCH 16/28] fix: give the groups of multichannel signals their time
 of reception

---
 src/io/input.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/io/input.cc b/src/io/input.cc
index f959441..37e799b 100644
--- a/src/io/input.cc
+++ b/src/io/input.cc
@@ -136,7 +136,8 @@ MPXBuffer& MPXReader::readChunk(std::uint32_t channel) {
   if (num_channels_ == 1) {
     return buffer_;
   } else {
-    buffer_singlechan_.used_size = buffer_.used_size / num_channels_;
+    buffer_singlechan_.time_received = buffer_.time_received;
+    buffer_singlechan_.used_size     = buffer_.used_size / num_channels_;
     for (size_t i = 0; i < buffer_singlechan_.used_size; i++)
       buffer_singlechan_.data[i] = buffer_.data[i * num_channels_ + channel];
 
-- 
2.43.0


From fa850db95aeda9dc10b8eb899aa30d0205ff25df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:47 +0000
Subject: [PATCH 17/28] fix: keep timestamps monotonic when the clock is set
 back more than once

---
 src/channel.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/channel.cc b/src/channel.cc
index 13f75b3..dc5513d 100644
--- a/src/channel.cc
+++ b/src/channel.cc
@@ -101,13 +101,13 @@ void Channel::processBits(const BitBuffer& buffer, std::size_t which_stream) {
 void Channel::processGroup(Group group, std::size_t which_stream) {
   if (options_.timestamp && !group.hasTime()) {
     auto now = std::chrono::system_clock::now();
-    group.setTime(now);
 
     // When the source is faster than real-time, backwards timestamp calculation
     // produces meaningless results. We want to make sure that the time stays monotonic.
     if (now < last_group_rx_time_) {
-      group.setTime(last_group_rx_time_);
+      now = last_group_rx_time_;
     }
+    group.setTime(now);
     last_group_rx_time_ = now;
   }
 
-- 
2.43.0


From f7b717f87c2d53c8f52f377daa2ce0b983208274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:05 +0000
Subject: [PATCH 18/28] fix: check the number of channels before narrowing it

---
 src/options.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/options.cc b/src/options.cc
index ca9a730..bf67b3c 100644
--- a/src/options.cc
+++ b/src/options.cc
@@ -74,12 +74,13 @@ Options getOptions(int argc, char** argv) {
         options.input_type = InputType::ASCIIbits;
         break;
       case 'c': {
-        options.num_channels = static_cast<std::uint32_t>(std::strtoul(optarg, nullptr, 10));
+        const unsigned long num_channels = std::strtoul(optarg, nullptr, 10);
         // Channels take up memory, and we don't want to fill it up by accident.
-        constexpr int kMaxNumChannels{32};
-        if (errno == ERANGE || options.num_channels < 1 || options.num_channels > kMaxNumChannels) {
+        constexpr unsigned long kMaxNumChannels{32};
+        if (errno == ERANGE || num_channels < 1 || num_channels > kMaxNumChannels) {
           throw std::runtime_error("check the number of channels");
         }
+        options.num_channels = static_cast<std::uint32_t>(num_channels);
         options.is_num_channels_defined = true;
         break;
       }
-- 
2.43.0


From c9b02a53d87044468453f3d80ecd6cf58fc68ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:05 +0000
Subject: [PATCH 19/28] fix: reject a sample rate that is not a number

---
 src/options.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/options.cc b/src/options.cc
index bf67b3c..0307e13 100644
--- a/src/options.cc
+++ b/src/options.cc
@@ -136,8 +136,9 @@ Options getOptions(int argc, char** argv) {
         if (errno == ERANGE) {
           throw std::runtime_error("check the sample rate");
         }
-        if (options.samplerate < kMinimumSampleRate_Hz ||
-            options.samplerate > kMaximumSampleRate_Hz) {
+        // Written so that NaN is rejected as well
+        if (!(options.samplerate >= kMinimumSampleRate_Hz &&
+              options.samplerate <= kMaximumSampleRate_Hz)) {
           throw std::runtime_error("sample rate was set to " + std::to_string(options.samplerate) +
                                    ", but it must be between " +
                                    std::to_string(kMinimumSampleRate_Hz) + " and " +
-- 
2.43.0


From a71dbf14eea542b5dae0a0135c087e61c3fb8ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:05 +0000
Subject: [PATCH 20/28] fix: support all accepted sample rates up to 40 MHz

---
 src/dsp/liquid_wrappers.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dsp/liquid_wrappers.cc b/src/dsp/liquid_wrappers.cc
index 9e958dd..af350c7 100644
--- a/src/dsp/liquid_wrappers.cc
+++ b/src/dsp/liquid_wrappers.cc
@@ -23,6 +23,8 @@
 #include <cstdint>
 #include <stdexcept>
 
+#include "src/constants.hh"
+
 #pragma clang diagnostic push
 #pragma clang diagnostic ignored "-Wdeprecated-declarations"
 // https://github.com/jgaeddert/liquid-dsp/issues/229
@@ -220,7 +222,7 @@ Resampler::Resampler(std::uint32_t length)
 
 void Resampler::setRatio(float ratio) {
   // Liquid can't take < 0.004, and we only reserved kOutputArraySize in the output buffer.
-  if (ratio < 0.005f || ratio > static_cast<float>(kOutputArraySize)) {
+  if (ratio < redsea::kLiquidMinimumResamplerRatio || ratio > static_cast<float>(kOutputArraySize)) {
     throw std::runtime_error("error: Can't support this sample rate");
   }
   resamp_rrrf_set_rate(object_, ratio);
-- 
2.43.0


From 6a6817e0067c780b6912790e0a31b31ad227ffbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:59 +0000
Subject: [PATCH 21/28] fix: TMC messages of three or four groups lost the
 contents of their later groups

The loop that joins the free-form data of a multi-group message stopped at the
first position not received, including the positions that shorter messages do
not use at all.
---
 src/tmc/tmc.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tmc/tmc.cc b/src/tmc/tmc.cc
index f9ac1b7..181ce57 100644
--- a/src/tmc/tmc.cc
+++ b/src/tmc/tmc.cc
@@ -83,10 +83,10 @@ std::vector<FreeformField> getFreeformFields(const std::array<MessagePart, 5>& p
   // GSI of second group)
   std::deque<bool> freeform_data_bits;
   for (std::size_t i = 1; i < parts.size(); i++) {
-    if (!parts[i].is_received)
-      break;
-
     if (i == 1 || i >= parts.size() - second_gsi) {
+      if (!parts[i].is_received)
+        break;
+
       for (int b = 0; b < 12; b++)
         freeform_data_bits.push_back(static_cast<std::uint16_t>(parts[i].data[0] >> (11U - b)) &
                                      1U);
-- 
2.43.0


From ff4e687ec91225eef7c14f39c63538ab4ad93585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:00 +0000
Subject: [PATCH 22/28] fix: TMC tuning information did not show frequencies of
 other networks

The frequencies were inserted into an AF list without expected length, where
every frequency is taken for an error. There are two in each group.
---
 src/tmc/tmc.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tmc/tmc.cc b/src/tmc/tmc.cc
index 181ce57..a6e776a 100644
--- a/src/tmc/tmc.cc
+++ b/src/tmc/tmc.cc
@@ -545,6 +545,8 @@ void TMCService::receiveUserGroup(std::uint16_t x, std::uint16_t y, std::uint16_
         if (other_network_freqs_.find(on_pi) == other_network_freqs_.end())
           other_network_freqs_.insert({on_pi, AltFreqList()});
 
+        // The number of frequencies is not transmitted, but there's room for two
+        other_network_freqs_.at(on_pi).insert(224 + 2);
         other_network_freqs_.at(on_pi).insert(getUint8(y, 8));
         other_network_freqs_.at(on_pi).insert(getUint8(y, 0));
 
-- 
2.43.0


From bd0b60e1a133bd4cd71d21b0b9ced86d423ba2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:34 +0000
Subject: [PATCH 23/28] fix: reception times of hex input could run backwards

---
 src/io/input.cc | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/io/input.cc b/src/io/input.cc
index 37e799b..3ab5550 100644
--- a/src/io/input.cc
+++ b/src/io/input.cc
@@ -242,9 +242,6 @@ Group readHexGroup(const Options& options) {
     }
   }
 
-  if (options.timestamp)
-    group.setTime(std::chrono::system_clock::now());
-
   return group;
 }
 
-- 
2.43.0


From a528cae9de8f5e91095db83d82cc58b902b490b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:56 +0000
Subject: [PATCH 24/28] fix: parts of an unfinished TMC message could be mixed
 into the next one

A message starting with the same continuity index as an unfinished one took over its remaining
groups, and its encryption state.
---
 src/tmc/tmc.cc | 9 ++++++++-
 src/tmc/tmc.hh | 1 +
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/tmc/tmc.cc b/src/tmc/tmc.cc
index a6e776a..8869844 100644
--- a/src/tmc/tmc.cc
+++ b/src/tmc/tmc.cc
@@ -615,7 +615,7 @@ void TMCService::receiveUserGroup(std::uint16_t x, std::uint16_t y, std::uint16_
     } else {
       const auto continuity_index = getBits<3>(x, 0);
 
-      if (continuity_index != message_.getContinuityIndex())
+      if (continuity_index != message_.getContinuityIndex() || message_.isNewFirstGroup(y, z))
         message_ = Message(is_encrypted_);
 
       message_.pushMulti(x, y, z);
@@ -641,6 +641,13 @@ std::uint16_t Message::getContinuityIndex() const {
   return continuity_index_;
 }
 
+// \return True if this is the first group of another message, even with the same continuity index.
+//         (The first group of the current message may be repeated.)
+bool Message::isNewFirstGroup(std::uint16_t y, std::uint16_t z) const {
+  const std::array<std::uint16_t, 2> data{y, z};
+  return getBool(y, 15) && !(parts_[0].is_received && parts_[0].data == data);
+}
+
 void Message::pushSingle(std::uint16_t x, std::uint16_t y, std::uint16_t z) {
   duration_          = getBits<3>(x, 0);
   diversion_advised_ = getBool(y, 15);
diff --git a/src/tmc/tmc.hh b/src/tmc/tmc.hh
index c0ba0a3..44ab264 100644
--- a/src/tmc/tmc.hh
+++ b/src/tmc/tmc.hh
@@ -135,6 +135,7 @@ class Message {
   bool isComplete() const;
   void clear();
   std::uint16_t getContinuityIndex() const;
+  bool isNewFirstGroup(std::uint16_t y, std::uint16_t z) const;
 
  private:
   void decodeMulti();
-- 
2.43.0


From 74168dbbf87dd1f58882ded2ff840923f6fda755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:43 +0000
Subject: [PATCH 25/28] fix: location table points were dropped when the road
 of their segment is not listed

The road name looked up there was overwritten by the next line, which also
added an empty name to the table.
---
 src/tmc/locationdb.cc | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/tmc/locationdb.cc b/src/tmc/locationdb.cc
index cf36a44..094aa27 100644
--- a/src/tmc/locationdb.cc
+++ b/src/tmc/locationdb.cc
@@ -144,8 +144,6 @@ LocationDatabase loadLocationDatabase(const std::string& directory) {
 
       if (point.roa_lcd == 0 && locdb.segments.find(point.seg_lcd) != locdb.segments.end()) {
         point.roa_lcd   = locdb.segments.at(point.seg_lcd).roa_lcd;
-        point.road_name = locdb.roads.at(point.roa_lcd).name;
-        point.road_name = locdb.names[rnid];
       }
 
       locdb.points[point.lcd] = point;
-- 
2.43.0


From 942bd1fc02a6055ff51fc620d5ecd2f1e017568f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:15 +0000
Subject: [PATCH 26/28] fix: a location table with an unknown encoding ended
 the program

---
 src/tmc/locationdb.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/tmc/locationdb.cc b/src/tmc/locationdb.cc
index 094aa27..8826de4 100644
--- a/src/tmc/locationdb.cc
+++ b/src/tmc/locationdb.cc
@@ -19,6 +19,7 @@
 #include <climits>
 #include <cstdint>
 #include <exception>
+#include <iostream>
 #include <ostream>
 #include <regex>
 #include <string>
@@ -75,6 +76,14 @@ LocationDatabase loadLocationDatabase(const std::string& directory) {
   if (std::regex_match(encoding, std::regex("ISO.8859-15\\b.*")))
     encoding = "ISO-8859-15";
 
+  // An unknown encoding should not end the program
+  try {
+    const iconvpp::converter test("UTF-8", encoding);
+  } catch (const std::exception&) {
+    std::cerr << "warning: location table has an unknown encoding '" << encoding << "'" << std::endl;
+    encoding = "UTF-8";
+  }
+
   const iconvpp::converter converter("UTF-8", encoding);
 
   CSVTable table = readCSVWithTitles(directory + "/NAMES.DAT", ';');
-- 
2.43.0


From 9181ecf44d2a8f8b298801a9e091d6eb80d927d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:12 +0000
Subject: [PATCH 27/28] fix: only the first %f of a time format was replaced,
 and the f of %%f was taken for one

---
 src/util.cc | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/util.cc b/src/util.cc
index d33e335..31ae538 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -46,15 +46,17 @@ std::string getTimePointString(const std::chrono::time_point<std::chrono::system
       std::chrono::system_clock::time_point(seconds_since_epoch));
 
   std::string format_with_fractional(format);
-  const std::size_t found = format_with_fractional.find("%f");
-  if (found != std::string::npos) {
-    const auto ms = std::chrono::duration_cast<std::chrono::milliseconds>(
-                        timepoint.time_since_epoch() - seconds_since_epoch)
-                        .count();
-    const auto hundredths = (ms / 10) % 10;
-    const auto tenths     = (ms / 100) % 10;
-
-    format_with_fractional.replace(found, 2, std::to_string(tenths) + std::to_string(hundredths));
+  const auto ms = std::chrono::duration_cast<std::chrono::milliseconds>(
+                      timepoint.time_since_epoch() - seconds_since_epoch)
+                      .count();
+  const auto hundredths = (ms / 10) % 10;
+  const auto tenths     = (ms / 100) % 10;
+
+  // Every %f is replaced, but not the f in "%%f"
+  for (std::size_t pos = format_with_fractional.find('%'); pos != std::string::npos;
+       pos = format_with_fractional.find('%', pos + 2)) {
+    if (format_with_fractional.compare(pos, 2, "%f") == 0)
+      format_with_fractional.replace(pos, 2, std::to_string(tenths) + std::to_string(hundredths));
   }
 
   std::array<char, 64> buffer{};
-- 
2.43.0


From 714977ddd3da6f2307d27e0fa310f307773cf0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:07 +0000
Subject: [PATCH 28/28] fix: mapped AM frequencies of other networks were shown
 as FM frequencies

---
 src/groups.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/groups.cc b/src/groups.cc
index cba4388..7853809 100644
--- a/src/groups.cc
+++ b/src/groups.cc
@@ -952,7 +952,10 @@ void Station::decodeType14(const Group& group) {
     case 7:
     case 8:
     case 9: {
-      const CarrierFrequency freq_other(getUint8(group.get(BLOCK3), 0));
+      // Variant 9 maps to an AM frequency
+      const CarrierFrequency freq_other(getUint8(group.get(BLOCK3), 0),
+                                        eon_variant == 9 ? CarrierFrequency::Band::LF_MF
+                                                         : CarrierFrequency::Band::FM);
 
       if (freq_other.isValid())
         json_["other_network"]["kilohertz"] = freq_other.kHz();
-- 
2.43.0

