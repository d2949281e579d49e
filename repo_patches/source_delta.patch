From cca0396c2a51cc11a01b6ae942648a05a975af22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:34 +0000
Subject: [PATCH 01/87] fix: decode an escape sequence at the very end of
 byte-stuffed data

---
 src/bin_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin_utils.cpp b/src/bin_utils.cpp
index b82cc30..b156a57 100644
--- a/src/bin_utils.cpp
+++ b/src/bin_utils.cpp
@@ -20,7 +20,7 @@ void BinUtils::DecodeByteStuffing(std::vector<uint8_t>& data,
             if (rule.second.empty()) {
                 throw std::invalid_argument("invalid byte stuffing rule");
             }
-            if ((static_cast<size_t>(data.end() - readIt) > rule.second.size()) &&
+            if ((static_cast<size_t>(data.end() - readIt) >= rule.second.size()) &&
                 std::equal(rule.second.begin(), rule.second.end(), readIt))
             {
                 *writeIt = rule.first;
-- 
2.43.0


From 969e7686f8daa0d15d4231ca6195b6ce96329f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:59 +0000
Subject: [PATCH 02/87] fix: compare firmware versions with big numbers and
 long release candidate numbers

---
 src/common_utils.cpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/common_utils.cpp b/src/common_utils.cpp
index bffc97d..29a62cb 100644
--- a/src/common_utils.cpp
+++ b/src/common_utils.cpp
@@ -2,6 +2,7 @@
 #include <algorithm>
 #include <regex>
 #include <sstream>
+#include <stdexcept>
 #include <unordered_map>
 
 namespace
@@ -9,6 +10,18 @@ namespace
     const std::unordered_map<char, std::string> ConvertToMqttStringMap =
         {{'\'', "|"}, {'"', "|"}, {'/', "|"}, {'+', "_plus_"}, {'$', "_"}, {'#', "_"}};
 
+    // Greater numbers are saturated
+    const int MAX_VERSION_NUMBER = 999999999;
+
+    int ParseVersionNumber(const std::string& number)
+    {
+        try {
+            return std::min(std::stoi(number), MAX_VERSION_NUMBER);
+        } catch (const std::out_of_range&) {
+            return MAX_VERSION_NUMBER;
+        }
+    }
+
     static std::vector<int> ParseVersionString(const std::string& version)
     {
         std::string buffer;
@@ -16,18 +29,18 @@ namespace
         std::vector<int> list;
         while (getline(stream, buffer, '.')) {
             if (std::regex_match(buffer, std::regex("^[0-9]+$"))) {
-                list.push_back(std::stoi(buffer));
+                list.push_back(ParseVersionNumber(buffer));
                 continue;
             }
             if (std::regex_match(buffer, std::regex("^[0-9]+(-rc|\\+wb)[0-9]+$"))) {
                 int index = buffer.find("-rc");
-                int offset = -128;
+                int offset = -(MAX_VERSION_NUMBER + 1);
                 if (index < 0) {
                     index = buffer.find("+wb");
-                    offset = 128;
+                    offset = MAX_VERSION_NUMBER + 1;
                 }
-                list.push_back(std::stoi(buffer.substr(0, index)));
-                list.push_back(std::stoi(buffer.substr(index + 3)) + offset);
+                list.push_back(ParseVersionNumber(buffer.substr(0, index)));
+                list.push_back(ParseVersionNumber(buffer.substr(index + 3)) + offset);
                 continue;
             }
             list.push_back(0);
-- 
2.43.0


From 20d8e0da882620bb959d729c4ad9d0b7cd5ee63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:52 +0000
Subject: [PATCH 03/87] fix: report a Modbus exception response with code 0 as
 an error

It was taken for a successful response with no data.
---
 src/modbus_base.cpp | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/src/modbus_base.cpp b/src/modbus_base.cpp
index 591460f..76acd7c 100644
--- a/src/modbus_base.cpp
+++ b/src/modbus_base.cpp
@@ -38,15 +38,6 @@ namespace
         return "invalid modbus error code (" + std::to_string(code + 1) + ")";
     }
 
-    // throws C++ exception on modbus error code
-    void ThrowIfModbusException(uint8_t code)
-    {
-        if (code == 0) {
-            return;
-        }
-        throw Modbus::TModbusExceptionError(code);
-    }
-
     bool IsWriteFunction(Modbus::EFunction function)
     {
         return function == Modbus::EFunction::FN_WRITE_MULTIPLE_COILS ||
@@ -421,7 +412,7 @@ std::vector<uint8_t> Modbus::ExtractResponseData(EFunction requestFunction, cons
     }
 
     if (IsException(pdu[0])) {
-        ThrowIfModbusException(pdu[1]);
+        throw Modbus::TModbusExceptionError(pdu[1]);
     }
 
     auto function = GetFunction(functionCode);
-- 
2.43.0


From 699c4ec44101983a6df41e35b5e4291b4766b99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:52 +0000
Subject: [PATCH 04/87] fix: Modbus RTU: report slave id of the device that
 sent the response

---
 src/modbus_base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modbus_base.cpp b/src/modbus_base.cpp
index 76acd7c..2b245a4 100644
--- a/src/modbus_base.cpp
+++ b/src/modbus_base.cpp
@@ -218,7 +218,7 @@ Modbus::TReadResult Modbus::TModbusRTUTraits::Transaction(TPort& port,
 
     TReadResult res;
     res.ResponseTime = readRes.ResponseTime;
-    res.SlaveId = slaveId;
+    res.SlaveId = response[0];
     res.Pdu.assign(response.begin() + 1, response.begin() + (readRes.Count - CRC_SIZE));
     return res;
 }
-- 
2.43.0


From f604fb05c512e50757496e49a83774ab0d7520b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:52 +0000
Subject: [PATCH 05/87] fix: refuse Modbus write requests whose byte count does
 not fit its field

---
 src/modbus_base.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/modbus_base.cpp b/src/modbus_base.cpp
index 2b245a4..be7b08e 100644
--- a/src/modbus_base.cpp
+++ b/src/modbus_base.cpp
@@ -11,6 +11,9 @@ namespace
 {
     const size_t CRC_SIZE = 2;
 
+    // byte count field of a request is one byte
+    const size_t MAX_REQUEST_BYTE_COUNT = 255;
+
     std::string GetModbusExceptionMessage(uint8_t code)
     {
         if (code == 0) {
@@ -99,7 +102,8 @@ namespace
                                                      uint16_t count,
                                                      const std::vector<uint8_t>& data)
     {
-        if ((function == Modbus::EFunction::FN_WRITE_MULTIPLE_COILS && data.size() != GetCoilsByteSize(count)) ||
+        if (data.size() > MAX_REQUEST_BYTE_COUNT ||
+            (function == Modbus::EFunction::FN_WRITE_MULTIPLE_COILS && data.size() != GetCoilsByteSize(count)) ||
             (function == Modbus::EFunction::FN_WRITE_MULTIPLE_REGISTERS && data.size() != count * 2))
         {
             throw Modbus::TMalformedRequestError("data size " + std::to_string(data.size()) +
@@ -472,7 +476,7 @@ std::vector<uint8_t> Modbus::MakePDU(Modbus::EFunction function,
                                      const std::vector<uint8_t>& data)
 {
     if (IsReadWriteFunction(function)) {
-        if (data.size() != writeCount * 2) {
+        if (data.size() > MAX_REQUEST_BYTE_COUNT || data.size() != writeCount * 2) {
             throw Modbus::TMalformedRequestError("data size " + std::to_string(data.size()) +
                                                  " doesn't match function code 23");
         }
-- 
2.43.0


From 76401d5601e22e96e61eed5dc06c24f4cc83c054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:15 +0000
Subject: [PATCH 06/87] fix: do not select low priority items over the read
 rate limit

TItemSelectionPolicy::OnlyHighPriority had no effect when there were no
ready high priority items, so the rate limit was exceeded.
---
 src/poll_plan.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/poll_plan.h b/src/poll_plan.h
index d4ece20..444e653 100644
--- a/src/poll_plan.h
+++ b/src/poll_plan.h
@@ -268,7 +268,7 @@ public:
                 firstItem = false;
             }
         } else {
-            if (LowPriorityQueue.HasReadyItems(currentTime)) {
+            if (policy == TItemSelectionPolicy::All && LowPriorityQueue.HasReadyItems(currentTime)) {
                 const auto pollLimit = GetLowPriorityPollLimit(currentTime);
                 bool firstItem = true;
                 // Set maximum allowed poll limit to first low priority item,
-- 
2.43.0


From f3bfbd665fab2ae67c712b10b0f2c47024530227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:11 +0000
Subject: [PATCH 07/87] fix: writing nan, inf, too big or negative scaled
 numbers to integer registers

llround of nan, inf or a number beyond 64 bits gives an unspecified value, which was
written to the device. std::stoull wraps negative numbers around, so "-10" could not
be written to an unsigned register with a negative offset (or wrote garbage).
---
 src/register.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/register.cpp b/src/register.cpp
index 7e31f26..9812205 100644
--- a/src/register.cpp
+++ b/src/register.cpp
@@ -499,6 +499,16 @@ template<typename T> T RoundValue(T val, double round_to)
     return round_to > 0 ? std::round(val / round_to) * round_to : val;
 }
 
+// llround gives an unspecified result for nan, inf and numbers that do not fit 64 bits
+static int64_t RoundToInteger(double val, const std::string& str)
+{
+    const double limit = 9223372036854775808.0; // 2^63
+    if (!(val >= -limit && val < limit)) {
+        throw std::out_of_range("\"" + str + "\" after applying scale and offset is out of the range of integers");
+    }
+    return llround(val);
+}
+
 template<class T> struct TConvertTraits
 {};
 
@@ -512,7 +522,7 @@ template<> struct TConvertTraits<int64_t>
             if (reg.Scale == 1 && reg.Offset == 0) {
                 return value;
             }
-            return llround((value - reg.Offset) / reg.Scale);
+            return RoundToInteger((value - reg.Offset) / reg.Scale, str);
         }
         throw std::invalid_argument("\"" + str + "\" can't be converted to integer");
     }
@@ -528,7 +538,9 @@ template<> struct TConvertTraits<uint64_t>
             if (reg.Scale == 1 && reg.Offset == 0) {
                 return value;
             }
-            auto res = llround((value - reg.Offset) / reg.Scale);
+            // std::stoull wraps negative numbers around
+            auto number = (str.find('-') == std::string::npos) ? double(value) : -double(0 - value);
+            auto res = RoundToInteger((number - reg.Offset) / reg.Scale, str);
             if (res < 0) {
                 throw std::out_of_range("\"" + str + "\" after applying scale and offset is not an unsigned integer: " +
                                         std::to_string(res));
@@ -550,7 +562,7 @@ template<typename T> T FromScaledTextValue(const TRegisterConfig& reg, const std
     try {
         return TConvertTraits<T>::FromScaledTextValue(reg, str, 10);
     } catch (const std::invalid_argument&) {
-        auto res = llround(FromScaledTextValue<double>(reg, str));
+        auto res = RoundToInteger(FromScaledTextValue<double>(reg, str), str);
         if (std::is_unsigned<T>::value && (res < 0)) {
             throw std::out_of_range(
                 "\"" + str + "\" after applying scale and offset is not an unsigned integer: " + std::to_string(res));
-- 
2.43.0


From 8123c28a314a4f2488efcb0a5808b3779cf34967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:51 +0000
Subject: [PATCH 08/87] fix: count only failed cycles towards
 connection_max_fail_cycles

---
 src/port/port.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/port/port.cpp b/src/port/port.cpp
index 1af3987..6fd5825 100644
--- a/src/port/port.cpp
+++ b/src/port/port.cpp
@@ -85,9 +85,7 @@ void TPortOpenCloseLogic::CloseIfNeeded(PPort port, bool allPreviousDataExchange
     if (!allPreviousDataExchangeWasFailed) {
         LastSuccessfulCycle = currentTime;
         RemainingFailCycles = Settings.ConnectionMaxFailCycles;
-    }
-
-    if (RemainingFailCycles > 0) {
+    } else if (RemainingFailCycles > 0) {
         --RemainingFailCycles;
     }
 
-- 
2.43.0


From 0cc818cdeed747e9995035546f1520d71c9bf33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:51 +0000
Subject: [PATCH 09/87] fix: a device with disabled reconnection becomes
 connected after a successful exchange

---
 src/serial_device.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/serial_device.cpp b/src/serial_device.cpp
index 4d7adb3..76874b0 100644
--- a/src/serial_device.cpp
+++ b/src/serial_device.cpp
@@ -205,17 +205,17 @@ void TSerialDevice::ReadRegisterRange(TPort& port, PRegisterRange range, bool br
 
 void TSerialDevice::SetTransferResult(bool ok)
 {
-    // disable reconnect functionality option
-    if (_DeviceConfig->DeviceTimeout.count() < 0 || _DeviceConfig->DeviceMaxFailCycles < 0) {
-        return;
-    }
-
     if (ok) {
         LastSuccessfulCycle = std::chrono::steady_clock::now();
         SetConnectionState(TDeviceConnectionState::CONNECTED);
         RemainingFailCycles = _DeviceConfig->DeviceMaxFailCycles;
     } else {
 
+        // disable reconnect functionality option
+        if (_DeviceConfig->DeviceTimeout.count() < 0 || _DeviceConfig->DeviceMaxFailCycles < 0) {
+            return;
+        }
+
         if (RemainingFailCycles > 0) {
             --RemainingFailCycles;
         }
-- 
2.43.0


From c0a082c982280278cea66b6fc81673c9e7b860b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:51 +0000
Subject: [PATCH 10/87] fix: stop retrying a write exactly after
 max_write_fail_time_s, with 0 after one attempt

---
 src/register_handler.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/register_handler.cpp b/src/register_handler.cpp
index c8b0c98..223430b 100644
--- a/src/register_handler.cpp
+++ b/src/register_handler.cpp
@@ -34,9 +34,7 @@ void TRegisterHandler::HandleWriteErrorRetryWrite(const TRegisterValue& tempValu
             WriteFirstTryTime = steady_clock::now();
         }
         WriteFail = true;
-        if (duration_cast<seconds>(steady_clock::now() - WriteFirstTryTime) >
-            Reg->Device()->DeviceConfig()->MaxWriteFailTime)
-        {
+        if (steady_clock::now() - WriteFirstTryTime >= Reg->Device()->DeviceConfig()->MaxWriteFailTime) {
             Dirty = (tempValue != ValueToSet);
             WriteFail = false;
         }
@@ -81,9 +79,7 @@ bool TRegisterHandler::NeedRetryAfterWriteFail()
         WriteFirstTryTime = steady_clock::now();
         WriteFail = true;
     }
-    if (duration_cast<seconds>(steady_clock::now() - WriteFirstTryTime) >
-        Reg->Device()->DeviceConfig()->MaxWriteFailTime)
-    {
+    if (steady_clock::now() - WriteFirstTryTime >= Reg->Device()->DeviceConfig()->MaxWriteFailTime) {
         Dirty = false;
         WriteFail = false;
         return false;
-- 
2.43.0


From a870da8cea3f67559dc4fef048fedeaf72694a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:51 +0000
Subject: [PATCH 11/87] fix: an invalid value does not mark a register as
 waiting for write

---
 src/register_handler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/register_handler.cpp b/src/register_handler.cpp
index 223430b..ad3b788 100644
--- a/src/register_handler.cpp
+++ b/src/register_handler.cpp
@@ -89,9 +89,10 @@ bool TRegisterHandler::NeedRetryAfterWriteFail()
 
 void TRegisterHandler::SetTextValue(const std::string& v)
 {
+    auto value = ConvertToRawValue(*Reg->GetConfig(), v);
     std::lock_guard<std::mutex> lock(SetValueMutex);
     Dirty = true;
-    ValueToSet = ConvertToRawValue(*Reg->GetConfig(), v);
+    ValueToSet = value;
 }
 
 PRegister TRegisterHandler::Register() const
-- 
2.43.0


From de19cbc19e5aef92dc0c993421f6b5a3117c9703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:27 +0000
Subject: [PATCH 12/87] fix: reject modbus read responses with less data than
 requested

A response with a consistent byte count which is smaller than the requested
one was accepted, and register values were taken from behind the end of the
received data.
---
 src/modbus_common.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/modbus_common.cpp b/src/modbus_common.cpp
index 716feb2..9f898d7 100644
--- a/src/modbus_common.cpp
+++ b/src/modbus_common.cpp
@@ -634,6 +634,15 @@ namespace Modbus // modbus protocol common utilities
                               : TRegisterValue{GetNumberRegisterValue(words, reg)};
     }
 
+    // Checks that the response has data for all requested registers
+    void CheckReadResponseDataSize(const std::vector<uint8_t>& data, int type, size_t registerCount)
+    {
+        if (data.size() + 2 < InferReadResponsePDUSize(type, registerCount)) {
+            throw Modbus::TMalformedResponseError("not enough data in response: " + std::to_string(data.size()) +
+                                                  " bytes for " + std::to_string(registerCount) + " registers");
+        }
+    }
+
     // Parses modbus response and stores result.
     void ParseReadResponse(const std::vector<uint8_t>& pdu,
                            Modbus::EFunction function,
@@ -641,6 +650,7 @@ namespace Modbus // modbus protocol common utilities
                            Modbus::TRegisterCache& cache)
     {
         auto data = Modbus::ExtractResponseData(function, pdu);
+        CheckReadResponseDataSize(data, range.Type(), range.GetCount());
         range.Device()->SetTransferResult(true);
         if (IsSingleBitType(range.Type())) {
             ParseSingleBitReadResponse(data, range);
@@ -1073,6 +1083,7 @@ namespace Modbus // modbus protocol common utilities
                                       frameTimeout);
 
         auto data = Modbus::ExtractResponseData(function, res.Pdu);
+        CheckReadResponseDataSize(data, reg.Type, modbusRegisterCount);
         if (IsSingleBitType(reg.Type)) {
             return TRegisterValue{data[0]};
         }
-- 
2.43.0


From 81f7fee791ca1aca3b952ca2ab9de8df69f77061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:27 +0000
Subject: [PATCH 13/87] fix: do not sign-extend characters when writing strings
 to modbus registers

A character with the high bit set (any non-ASCII UTF-8 text) overwrote the
other character of its word with 0xFF.
---
 src/modbus_common.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/modbus_common.cpp b/src/modbus_common.cpp
index 9f898d7..3e7f632 100644
--- a/src/modbus_common.cpp
+++ b/src/modbus_common.cpp
@@ -426,7 +426,11 @@ namespace Modbus // modbus protocol common utilities
         auto width = std::min(GetModbusDataWidthIn16BitWords(reg), static_cast<uint32_t>(size));
         words.resize(width);
         for (uint32_t i = 0; i < width; ++i) {
-            words[i] = reg.Format == RegisterFormat::String8 ? str[i * 2] << 8 | str[i * 2 + 1] : str[i];
+            if (reg.Format == RegisterFormat::String8) {
+                words[i] = static_cast<uint8_t>(str[i * 2]) << 8 | static_cast<uint8_t>(str[i * 2 + 1]);
+            } else {
+                words[i] = static_cast<uint8_t>(str[i]);
+            }
         }
     }
 
-- 
2.43.0


From b4e3df1893dc9a02dc19da7f4e778d87c0243e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:27 +0000
Subject: [PATCH 14/87] fix: do not let a value wider than its bit field change
 neighbour bits

Values of multi-word holding registers with a bit width were or-ed into the
words without being cut to the width.
---
 src/modbus_common.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modbus_common.cpp b/src/modbus_common.cpp
index 3e7f632..9afc899 100644
--- a/src/modbus_common.cpp
+++ b/src/modbus_common.cpp
@@ -470,6 +470,7 @@ namespace Modbus // modbus protocol common utilities
         }
 
         // Place data
+        value &= GetLSBMask(reg.GetDataWidth());
         value <<= reg.GetDataOffset();
         valueToWrite |= value;
 
-- 
2.43.0


From e75c79f559a0e1bc7429893f6f27dc0a1f390c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:06 +0000
Subject: [PATCH 15/87] fix: write single-word modbus requests from the same
 words as multi-word ones

The data for function 6 requests was composed separately. It put bits of fields
that span words to wrong places, ignored the word order used for reading, did
not remember written whole words in the cache (so the next write to a bit field
of the same word restored old values of other bits), and refused write-only
registers narrower than a word.
---
 src/modbus_common.cpp | 59 ++++++-------------------------------------
 1 file changed, 8 insertions(+), 51 deletions(-)

diff --git a/src/modbus_common.cpp b/src/modbus_common.cpp
index 9afc899..a8bd247 100644
--- a/src/modbus_common.cpp
+++ b/src/modbus_common.cpp
@@ -398,12 +398,6 @@ namespace Modbus // modbus protocol common utilities
         }
     }
 
-    // returns number of requests needed to write register
-    size_t InferWriteRequestsCount(const TRegisterConfig& reg)
-    {
-        return IsPacking(reg) ? 1 : GetModbusDataWidthIn16BitWords(reg);
-    }
-
     // returns number of bytes needed to hold response
     size_t InferReadResponsePDUSize(int type, size_t registerCount)
     {
@@ -511,43 +505,6 @@ namespace Modbus // modbus protocol common utilities
         return width;
     }
 
-    // Composes writing data buffer containtig single word filled with "partial" register data.
-    // Uses holding register data cache to fill data that is not affected by the new register value.
-    // Byte order corresponds to register settings.
-    void ComposeRawSingleWriteRequestData(std::vector<uint8_t>& data,
-                                          const TRegisterConfig& reg,
-                                          uint16_t value,
-                                          uint8_t wordIndex,
-                                          const Modbus::TRegisterCache& cache,
-                                          Modbus::TRegisterCache& tmpCache)
-    {
-        uint16_t cachedValue = 0;
-        auto address = 0;
-        auto bitWidth = reg.GetDataWidth();
-        auto updateCache = false;
-
-        // use cache only for "partial" registers
-        if (bitWidth < 16) {
-            address = GetUint32RegisterAddress(reg.GetAddress()) + wordIndex;
-            if (cache.count(address)) {
-                cachedValue = cache.at(address);
-            }
-            updateCache = true;
-        }
-
-        auto bitOffset = std::max(static_cast<int32_t>(reg.GetDataOffset()) - wordIndex * 16, 0);
-        auto bitCount = std::min(static_cast<uint32_t>(16 - bitOffset), bitWidth);
-        auto mask = GetLSBMask(bitCount) << bitOffset;
-        auto valueToWrite = (~mask & cachedValue) | (mask & (value << bitOffset));
-
-        data.resize(2);
-        WriteAs2Bytes(data.data(), valueToWrite, reg.ByteOrder);
-
-        if (updateCache) {
-            tmpCache[address] = valueToWrite;
-        }
-    }
-
     void ParseSingleBitReadResponse(const std::vector<uint8_t>& data, TModbusRegisterRange& range)
     {
         auto start = data.begin();
@@ -753,23 +710,23 @@ namespace Modbus // modbus protocol common utilities
                              responseTimeout,
                              frameTimeout);
         } else {
-            // Note: word order feature currently is not supported by HOLDING_SINGLE registers.
-            auto requestsCount = InferWriteRequestsCount(reg);
-            auto val = value.Get<uint64_t>();
+            // Write words one by one starting from the last one
+            ComposeRawMultipleWriteRequestData(data, reg, value, cache, tmpCache);
             auto responsePduSize = Modbus::CalcResponsePDUSize(fn, 1);
-            for (size_t i = 0; i < requestsCount; ++i) {
-                auto wordIndex = requestsCount - i - 1;
-                ComposeRawSingleWriteRequestData(data, reg, static_cast<uint16_t>(val), wordIndex, cache, tmpCache);
+            for (size_t i = data.size() / 2; i > 0; --i) {
+                auto wordIndex = i - 1;
                 WriteTransaction(traits,
                                  port,
                                  slaveId,
                                  fn,
                                  responsePduSize,
-                                 Modbus::MakePDU(fn, addr + wordIndex, 1, data),
+                                 Modbus::MakePDU(fn,
+                                                 addr + wordIndex,
+                                                 1,
+                                                 {data.begin() + wordIndex * 2, data.begin() + wordIndex * 2 + 2}),
                                  requestDelay,
                                  responseTimeout,
                                  frameTimeout);
-                val >>= 16;
             }
         }
         for (const auto& item: tmpCache) {
-- 
2.43.0


From edd9a33478c3de052e5029e7f0b5e88ecf62b484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:06 +0000
Subject: [PATCH 16/87] fix: apply register shift when reading words of partial
 setup registers

The shift was passed as breakOnError, so modbus_io devices merged bits of other
registers into the written words.
---
 src/modbus_common.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modbus_common.cpp b/src/modbus_common.cpp
index a8bd247..9521e07 100644
--- a/src/modbus_common.cpp
+++ b/src/modbus_common.cpp
@@ -817,7 +817,7 @@ namespace Modbus // modbus protocol common utilities
                 }
                 ++it;
             }
-            ReadRegisterRange(traits, port, slaveId, range, cache, shift);
+            ReadRegisterRange(traits, port, slaveId, range, cache, false, shift);
             for (auto reg: range.RegisterList()) {
                 if (reg->GetErrorState().count()) {
                     return false;
-- 
2.43.0


From 011c804b05ba53b59ced450eeaf208d1f792c474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:06 +0000
Subject: [PATCH 17/87] fix: write setup registers collected before a partial
 one

Values of whole holding registers followed by an adjacent in the list partial
register were composed but never sent to the device.
---
 src/modbus_common.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modbus_common.cpp b/src/modbus_common.cpp
index 9521e07..9608458 100644
--- a/src/modbus_common.cpp
+++ b/src/modbus_common.cpp
@@ -849,7 +849,7 @@ namespace Modbus // modbus protocol common utilities
         while (startIt != endIt) {
             auto item = *startIt;
             if (item->RegisterConfig->IsPartial()) {
-                return startIt;
+                break;
             }
 
             auto address = GetUint32RegisterAddress(item->RegisterConfig->GetWriteAddress());
-- 
2.43.0


From e68d92fb9868a6b82384f18a5d3761192412b2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:13 +0000
Subject: [PATCH 18/87] fix: remember a hole in a modbus read range only if the
 register behind it has joined

A register that was refused because of limits left the mark on a range without
holes, so an illegal address exception switched off reading with holes for the
whole device instead of excluding the unavailable register.
---
 src/modbus_common.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/modbus_common.cpp b/src/modbus_common.cpp
index 9608458..94351ee 100644
--- a/src/modbus_common.cpp
+++ b/src/modbus_common.cpp
@@ -135,6 +135,7 @@ namespace Modbus // modbus protocol common utilities
         }
 
         size_t extend;
+        bool hasHoles = false;
         if (RegisterList().empty()) {
             extend = widthInWords;
         } else {
@@ -156,10 +157,8 @@ namespace Modbus // modbus protocol common utilities
                 return false;
             }
 
-            auto hasHoles = Start + Count < addr;
-            if (continuousReadEnabled) {
-                HasHolesFlg = HasHolesFlg || hasHoles;
-            } else {
+            hasHoles = Start + Count < addr;
+            if (!continuousReadEnabled) {
                 if (RegisterList().back()->GetAvailable() == TRegisterAvailability::UNKNOWN) {
                     // Read UNKNOWN 2 byte registers one by one to find availability
                     if (!isSingleBit) {
@@ -183,7 +182,6 @@ namespace Modbus // modbus protocol common utilities
                     if (reg->GetAvailable() == TRegisterAvailability::UNKNOWN) {
                         return false;
                     }
-                    HasHolesFlg = HasHolesFlg || hasHoles;
                 }
             }
 
@@ -216,6 +214,7 @@ namespace Modbus // modbus protocol common utilities
 
             RegisterList().push_back(reg);
             Count += extend;
+            HasHolesFlg = HasHolesFlg || hasHoles;
             return true;
         }
         if (newPollTime > pollLimit) {
-- 
2.43.0


From 311f909c6cfd6249057cb232622ef566c11fc5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:45 +0000
Subject: [PATCH 19/87] fix: signed overflow of poll time estimation when
 reading partial setup registers

The estimation added sending time to std::chrono::microseconds::max().
---
 src/modbus_common.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modbus_common.cpp b/src/modbus_common.cpp
index 94351ee..75ea5d7 100644
--- a/src/modbus_common.cpp
+++ b/src/modbus_common.cpp
@@ -789,7 +789,7 @@ namespace Modbus // modbus protocol common utilities
     {
         auto it = setupItems.begin();
         while (it != setupItems.end()) {
-            TModbusRegisterRange range(std::chrono::microseconds::max());
+            TModbusRegisterRange range(std::chrono::microseconds::zero());
             while (it != setupItems.end()) {
                 auto item = *it;
                 if (!item->RegisterConfig->IsPartial()) {
-- 
2.43.0


From 11ae5adcd00d1bc07728129aec324b52bca0fa9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:52 +0000
Subject: [PATCH 20/87] fix: always leave space for at least one event in Fast
 Modbus events requests

For some baud rates and time limits the requested maximum was 4 or 5 bytes,
which is less than an event with data.
---
 src/modbus_ext_common.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modbus_ext_common.cpp b/src/modbus_ext_common.cpp
index 0c19402..73fd4ee 100644
--- a/src/modbus_ext_common.cpp
+++ b/src/modbus_ext_common.cpp
@@ -121,7 +121,7 @@ namespace ModbusExt // modbus extension protocol declarations
         if (maxBytes > RTU_MAX_PACKET_SIZE) {
             maxBytes = RTU_MAX_PACKET_SIZE;
         }
-        if (maxBytes <= PDU_EVENTS_RESPONSE_HEADER_SIZE + PDU_EVENT_MAX_SIZE) {
+        if (maxBytes <= PDU_EVENTS_RESPONSE_HEADER_SIZE + CRC_SIZE + RTU_HEADER_SIZE + PDU_EVENT_MAX_SIZE) {
             return PDU_EVENT_MAX_SIZE;
         }
         maxBytes -= PDU_EVENTS_RESPONSE_HEADER_SIZE + CRC_SIZE + RTU_HEADER_SIZE;
-- 
2.43.0


From 50026d80dfce8ad6954fee06feef73435337181d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:52 +0000
Subject: [PATCH 21/87] fix: check size of Fast Modbus enable events response

The size field of the response was used without comparing it to the size of
received data.
---
 src/modbus_ext_common.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/modbus_ext_common.cpp b/src/modbus_ext_common.cpp
index 73fd4ee..2f5b55d 100644
--- a/src/modbus_ext_common.cpp
+++ b/src/modbus_ext_common.cpp
@@ -393,6 +393,10 @@ namespace ModbusExt // modbus extension protocol declarations
             throw Modbus::TMalformedResponseError("invalid sub command");
         }
 
+        if (res.Pdu.size() < PDU_ENABLE_EVENTS_RESPONSE_DATA_POS + res.Pdu[PDU_ENABLE_EVENTS_RESPONSE_DATA_SIZE_POS]) {
+            throw Modbus::TMalformedResponseError("invalid packet size: " + std::to_string(res.Pdu.size()));
+        }
+
         TBitIterator dataIt(res.Pdu.data() + PDU_ENABLE_EVENTS_RESPONSE_DATA_POS - 1,
                             res.Pdu[PDU_ENABLE_EVENTS_RESPONSE_DATA_SIZE_POS]);
 
-- 
2.43.0


From ebe3e1bcdca09b191d019da21ca990fbe0179ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:16 +0000
Subject: [PATCH 22/87] fix: electricity meters: don't reopen session endlessly

---
 src/devices/em_device.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/devices/em_device.cpp b/src/devices/em_device.cpp
index 493ed81..5053868 100644
--- a/src/devices/em_device.cpp
+++ b/src/devices/em_device.cpp
@@ -85,9 +85,12 @@ void TEMDevice::Talk(TPort& port,
     EnsureSlaveConnected(port);
     WriteCommand(port, cmd, payload, payload_len);
     try {
-        while (!ReadResponse(port, expected_byte1, resp_payload, resp_payload_len, frame_complete)) {
+        if (!ReadResponse(port, expected_byte1, resp_payload, resp_payload_len, frame_complete)) {
             EnsureSlaveConnected(port, true);
             WriteCommand(port, cmd, payload, payload_len);
+            if (!ReadResponse(port, expected_byte1, resp_payload, resp_payload_len, frame_complete)) {
+                throw TSerialDeviceTransientErrorException("the meter closes session");
+            }
         }
     } catch (const TSerialDeviceTransientErrorException& e) {
         port.SkipNoise();
-- 
2.43.0


From 39943aec4e8027e6e536bb9ebeb04a86fea9c330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:16 +0000
Subject: [PATCH 23/87] fix: mercury230: reject parameters wider than 3 bytes

---
 src/devices/mercury230_device.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/devices/mercury230_device.cpp b/src/devices/mercury230_device.cpp
index 49d3226..3fcf1b7 100644
--- a/src/devices/mercury230_device.cpp
+++ b/src/devices/mercury230_device.cpp
@@ -128,8 +128,10 @@ uint32_t TMercury230Device::ReadParam(TPort& port, uint32_t address, unsigned re
     cmdBuf[0] = (address >> 8) & 0xff; // param
     cmdBuf[1] = address & 0xff;        // subparam (BWRI)
 
-    assert(resp_payload_len <= 3);
     uint8_t buf[3] = {};
+    if (resp_payload_len > sizeof(buf)) {
+        throw TSerialDeviceException("mercury230: invalid register format, parameters are at most 3 bytes wide");
+    }
     Talk(port, 0x08, cmdBuf, 2, -1, buf, resp_payload_len);
 
     if (resp_payload_len == 3) {
-- 
2.43.0


From 6ce0bc4ffd2af7bf2533a5e15f8f5d4696682c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:16 +0000
Subject: [PATCH 24/87] fix: mercury230: array12 has 3 values and its own
 cached answer

---
 src/devices/mercury230_device.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/devices/mercury230_device.cpp b/src/devices/mercury230_device.cpp
index 3fcf1b7..71341c0 100644
--- a/src/devices/mercury230_device.cpp
+++ b/src/devices/mercury230_device.cpp
@@ -104,7 +104,7 @@ TEMDevice::ErrorType TMercury230Device::CheckForException(uint8_t* frame, int le
 
 const TMercury230Device::TValueArray& TMercury230Device::ReadValueArray(TPort& port, uint32_t address, int resp_len)
 {
-    int key = address;
+    int key = ((address & 0x0fff) << 4) | resp_len; // answers of different size can't share cached values
     auto it = CachedValues.find(key);
     if (it != CachedValues.end())
         return it->second;
@@ -113,7 +113,7 @@ const TMercury230Device::TValueArray& TMercury230Device::ReadValueArray(TPort& p
     cmdBuf[0] = (uint8_t)(address & 0xff);        // high nibble = array number, lower nibble = month
     cmdBuf[1] = (uint8_t)((address >> 8) & 0x0f); // tariff
     uint8_t buf[MAX_LEN], *p = buf;
-    TValueArray a;
+    TValueArray a{};
     Talk(port, 0x05, cmdBuf, 2, -1, buf, resp_len * 4);
     for (int i = 0; i < resp_len; i++, p += 4) {
         a.values[i] = ((uint32_t)p[1] << 24) + ((uint32_t)p[0] << 16) + ((uint32_t)p[3] << 8) + (uint32_t)p[2];
@@ -171,6 +171,9 @@ TRegisterValue TMercury230Device::ReadRegisterImpl(TPort& port, const TRegisterC
         case REG_VALUE_ARRAY:
             return TRegisterValue{ReadValueArray(port, addr, 4).values[reg.GetDataOffset() & 0x03]};
         case REG_VALUE_ARRAY12:
+            if ((reg.GetDataOffset() & 0x03) > 2) {
+                throw TSerialDeviceException("mercury230: array12 has only 3 values");
+            }
             return TRegisterValue{ReadValueArray(port, addr, 3).values[reg.GetDataOffset() & 0x03]};
         case REG_PARAM:
         case REG_PARAM_SIGN_ACT:
-- 
2.43.0


From e2a0f2646491809d4bb31d8ec3445c31b1165285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:16 +0000
Subject: [PATCH 25/87] fix: milur: recognize exception responses with 4 byte
 addresses

---
 src/devices/milur_device.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/devices/milur_device.cpp b/src/devices/milur_device.cpp
index fda9f3b..e304af6 100644
--- a/src/devices/milur_device.cpp
+++ b/src/devices/milur_device.cpp
@@ -70,12 +70,12 @@ bool TMilurDevice::ConnectionSetup(TPort& port)
 
 TEMDevice::ErrorType TMilurDevice::CheckForException(uint8_t* frame, int len, const char** message)
 {
-    if (len != 6 || !(frame[1] & 0x80)) {
+    if (len != 5 + SlaveIdWidth || !(frame[SlaveIdWidth] & 0x80)) {
         *message = 0;
         return TEMDevice::NO_ERROR;
     }
 
-    switch (frame[2]) {
+    switch (frame[SlaveIdWidth + 1]) {
         case 0x01:
             *message = "Illegal function";
             break;
-- 
2.43.0


From 44947d19a9915285c8a269b690a3ce68b1aae32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:16 +0000
Subject: [PATCH 26/87] fix: mercury200: check size and CRC of response
 properly

---
 src/devices/mercury200_device.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/devices/mercury200_device.cpp b/src/devices/mercury200_device.cpp
index 67667e3..9048f8f 100644
--- a/src/devices/mercury200_device.cpp
+++ b/src/devices/mercury200_device.cpp
@@ -11,6 +11,7 @@ namespace
     const size_t RESPONSE_BUF_LEN = 100;
     const size_t REQUEST_LEN = 7;
     const ptrdiff_t HEADER_SZ = 5;
+    const ptrdiff_t CRC_SZ = 2;
 
     const TRegisterTypes RegisterTypes{{0, "param8", "value", U8, true},
                                        {0, "param16", "value", BCD16, true},
@@ -56,18 +57,18 @@ std::vector<uint8_t> TMercury200Device::ExecCommand(TPort& port, uint8_t cmd)
 
     uint8_t buf[100] = {0x00};
     auto readn = RequestResponse(port, SlaveId, cmd, buf);
-    if (readn < 4) { // fixme 4
+    if (readn < HEADER_SZ + CRC_SZ) {
         throw TSerialDeviceTransientErrorException("mercury200: read frame too short for command response");
     }
     if (IsBadHeader(SlaveId, cmd, buf)) {
         throw TSerialDeviceTransientErrorException("mercury200: bad response header for command");
     }
-    if (IsCrcValid(buf, readn)) {
+    if (!IsCrcValid(buf, readn - CRC_SZ)) {
         throw TSerialDeviceTransientErrorException("mercury200: bad CRC for command");
     }
     uint8_t* payload = buf + HEADER_SZ;
     std::vector<uint8_t> result = {0};
-    result.assign(payload, payload + readn - HEADER_SZ);
+    result.assign(payload, payload + readn - HEADER_SZ - CRC_SZ);
     return CmdResultCache.insert({cmd, result}).first->second;
 }
 
@@ -93,7 +94,7 @@ bool TMercury200Device::IsCrcValid(uint8_t* buf, int sz) const
 {
     auto actual_crc = CRC16::CalculateCRC16(buf, static_cast<uint16_t>(sz));
     uint16_t sent_crc = ((uint16_t)buf[sz] << 8) | ((uint16_t)buf[sz + 1]);
-    return actual_crc != sent_crc;
+    return actual_crc == sent_crc;
 }
 
 int TMercury200Device::RequestResponse(TPort& port, uint32_t slave, uint8_t cmd, uint8_t* response) const
-- 
2.43.0


From 26f8ed4247f33746e0204a5a9aa4934788554069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:16 +0000
Subject: [PATCH 27/87] fix: pulsar: reject register addresses that don't fit
 to mask

---
 src/devices/pulsar_device.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/devices/pulsar_device.cpp b/src/devices/pulsar_device.cpp
index 0004cc2..0456230 100644
--- a/src/devices/pulsar_device.cpp
+++ b/src/devices/pulsar_device.cpp
@@ -192,8 +192,12 @@ TRegisterValue TPulsarDevice::ReadDataRegister(TPort& port, const TRegisterConfi
     // raw payload data
     uint8_t payload[sizeof(uint64_t)];
 
+    if (addr >= 32) {
+        throw TSerialDeviceException("Pulsar protocol: wrong register address");
+    }
+
     // form register mask from address
-    uint32_t mask = 1 << addr;
+    uint32_t mask = 1u << addr;
 
     // send data request and receive response
     WriteDataRequest(port, SlaveId, mask, RequestID);
-- 
2.43.0


From dc4dadf1d539527b874fa261d51283e4500e49d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:16 +0000
Subject: [PATCH 28/87] fix: pulsar: don't reuse request ID after failed
 request

---
 src/devices/pulsar_device.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/devices/pulsar_device.cpp b/src/devices/pulsar_device.cpp
index 0456230..959fa83 100644
--- a/src/devices/pulsar_device.cpp
+++ b/src/devices/pulsar_device.cpp
@@ -199,11 +199,12 @@ TRegisterValue TPulsarDevice::ReadDataRegister(TPort& port, const TRegisterConfi
     // form register mask from address
     uint32_t mask = 1u << addr;
 
-    // send data request and receive response
-    WriteDataRequest(port, SlaveId, mask, RequestID);
-    ReadResponse(port, SlaveId, payload, reg.GetByteWidth(), RequestID);
+    // every request has its own ID, so a late response to a failed request can't be accepted
+    auto id = RequestID++;
 
-    ++RequestID;
+    // send data request and receive response
+    WriteDataRequest(port, SlaveId, mask, id);
+    ReadResponse(port, SlaveId, payload, reg.GetByteWidth(), id);
 
     // decode little-endian double64_t value
     return TRegisterValue{ReadHex(payload, reg.GetByteWidth(), false)};
@@ -214,11 +215,11 @@ TRegisterValue TPulsarDevice::ReadSysTimeRegister(TPort& port, const TRegisterCo
     // raw payload data
     uint8_t payload[6];
 
-    // send system time request and receive response
-    WriteSysTimeRequest(port, SlaveId, RequestID);
-    ReadResponse(port, SlaveId, payload, sizeof(payload), RequestID);
+    auto id = RequestID++;
 
-    ++RequestID;
+    // send system time request and receive response
+    WriteSysTimeRequest(port, SlaveId, id);
+    ReadResponse(port, SlaveId, payload, sizeof(payload), id);
 
     // decode little-endian double64_t value
     return TRegisterValue{ReadHex(payload, sizeof(payload), false)};
-- 
2.43.0


From 0a219ec69b41971a2f1202fbe21418da905994dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:16 +0000
Subject: [PATCH 29/87] fix: lls: check size of response

---
 src/devices/lls_device.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/devices/lls_device.cpp b/src/devices/lls_device.cpp
index 0ede103..06253c5 100644
--- a/src/devices/lls_device.cpp
+++ b/src/devices/lls_device.cpp
@@ -62,6 +62,7 @@ namespace
     const size_t RESPONSE_BUF_LEN = 100;
     const size_t REQUEST_LEN = 4;
     const ptrdiff_t HEADER_SZ = 3;
+    const ptrdiff_t CRC_SZ = 1;
     const uint8_t REQUEST_PREFIX = 0x31;
     const uint8_t RESPONSE_PREFIX = 0x3E;
 }
@@ -85,6 +86,9 @@ std::vector<uint8_t> TLLSDevice::ExecCommand(TPort& port, uint8_t cmd)
     port.SleepSinceLastInteraction(GetFrameTimeout(port));
 
     int len = port.ReadFrame(buf, RESPONSE_BUF_LEN, GetResponseTimeout(port), GetFrameTimeout(port)).Count;
+    if (len < HEADER_SZ + CRC_SZ) {
+        throw TSerialDeviceTransientErrorException("response is too short");
+    }
     if (buf[0] != RESPONSE_PREFIX) {
         throw TSerialDeviceTransientErrorException("invalid response prefix");
     }
@@ -100,7 +104,7 @@ std::vector<uint8_t> TLLSDevice::ExecCommand(TPort& port, uint8_t cmd)
 
     uint8_t* payload = buf + HEADER_SZ;
     std::vector<uint8_t> result = {0};
-    result.assign(payload, payload + len - HEADER_SZ);
+    result.assign(payload, payload + len - HEADER_SZ - CRC_SZ);
     return CmdResultCache.insert({cmd, result}).first->second;
 }
 
@@ -109,6 +113,10 @@ TRegisterValue TLLSDevice::ReadRegisterImpl(TPort& port, const TRegisterConfig&
     uint8_t cmd = GetUint32RegisterAddress(reg.GetAddress());
     auto result = ExecCommand(port, cmd);
 
+    if (result.size() < reg.GetDataOffset() + reg.GetByteWidth()) {
+        throw TSerialDeviceTransientErrorException("response payload is too short");
+    }
+
     int result_buf[8] = {};
 
     for (uint32_t i = 0; i < reg.GetByteWidth(); ++i) {
-- 
2.43.0


From 12281e8db62afde68965d84339a538304ec1e03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:16 +0000
Subject: [PATCH 30/87] fix: ivtm: accept only hexadecimal digits in response

---
 src/devices/ivtm_device.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/devices/ivtm_device.cpp b/src/devices/ivtm_device.cpp
index eea57fd..7fc444c 100644
--- a/src/devices/ivtm_device.cpp
+++ b/src/devices/ivtm_device.cpp
@@ -66,8 +66,20 @@ bool TIVTMDevice::DecodeASCIIBytes(uint8_t* buf, uint8_t* result, uint8_t len_by
 
 uint8_t TIVTMDevice::DecodeASCIIByte(uint8_t* buf)
 {
-    std::string s(buf, buf + 2);
-    return stoul(s, nullptr, 16);
+    uint8_t res = 0;
+    for (size_t i = 0; i < 2; ++i) {
+        res <<= 4;
+        if (buf[i] >= '0' && buf[i] <= '9') {
+            res |= buf[i] - '0';
+        } else if (buf[i] >= 'A' && buf[i] <= 'F') {
+            res |= buf[i] - 'A' + 10;
+        } else if (buf[i] >= 'a' && buf[i] <= 'f') {
+            res |= buf[i] - 'a' + 10;
+        } else {
+            throw TSerialDeviceTransientErrorException("invalid hexadecimal digit in response");
+        }
+    }
+    return res;
 }
 
 uint16_t TIVTMDevice::DecodeASCIIWord(uint8_t* buf)
-- 
2.43.0


From d1c2ca5940918f662ae6fa4232a4ebe71cd3c270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:16 +0000
Subject: [PATCH 31/87] fix: ivtm: don't overflow or use uninitialized response
 buffer

---
 src/devices/ivtm_device.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/devices/ivtm_device.cpp b/src/devices/ivtm_device.cpp
index 7fc444c..8c3030b 100644
--- a/src/devices/ivtm_device.cpp
+++ b/src/devices/ivtm_device.cpp
@@ -137,11 +137,15 @@ void TIVTMDevice::ReadResponse(TPort& port, uint16_t addr, uint8_t* payload, uin
 
 TRegisterValue TIVTMDevice::ReadRegisterImpl(TPort& port, const TRegisterConfig& reg)
 {
+    uint8_t response[4] = {};
+    if (reg.GetByteWidth() > sizeof(response)) {
+        throw TSerialDeviceException("ivtm: invalid register format, values are at most 4 bytes wide");
+    }
+
     port.SkipNoise();
 
     auto addr = GetUint32RegisterAddress(reg.GetAddress());
     WriteCommand(port, SlaveId, addr, reg.GetByteWidth());
-    uint8_t response[4];
     ReadResponse(port, SlaveId, response, reg.GetByteWidth());
 
     uint8_t* p = response; //&response[(address % 2) * 4];
-- 
2.43.0


From c3d622cfd879edd220b6a1c8e5e3b49ff9e890c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:16 +0000
Subject: [PATCH 32/87] fix: s2k: check relay number in confirmation

---
 src/devices/s2k_device.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/devices/s2k_device.cpp b/src/devices/s2k_device.cpp
index 3a4bc9a..ebd899f 100644
--- a/src/devices/s2k_device.cpp
+++ b/src/devices/s2k_device.cpp
@@ -99,7 +99,10 @@ void TS2KDevice::WriteRegisterImpl(TPort& port, const TRegisterConfig& reg, cons
     if (response[5] != CrcS2K(response, 5)) {
         throw TSerialDeviceTransientErrorException("bad CRC for 0x15 command");
     }
-    RelayState[response[3]] = response[4];
+    if (response[3] != addr) {
+        throw TSerialDeviceTransientErrorException("response for 0x15 command is about another relay");
+    }
+    RelayState[addr] = response[4];
 }
 
 TRegisterValue TS2KDevice::ReadRegisterImpl(TPort& port, const TRegisterConfig& reg)
-- 
2.43.0


From a8153ce4e4e323583f6bdc568cf893ff9b37e0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:16 +0000
Subject: [PATCH 33/87] fix: s2k: check relay address on reading

---
 src/devices/s2k_device.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/devices/s2k_device.cpp b/src/devices/s2k_device.cpp
index ebd899f..3901f53 100644
--- a/src/devices/s2k_device.cpp
+++ b/src/devices/s2k_device.cpp
@@ -108,6 +108,9 @@ void TS2KDevice::WriteRegisterImpl(TPort& port, const TRegisterConfig& reg, cons
 TRegisterValue TS2KDevice::ReadRegisterImpl(TPort& port, const TRegisterConfig& reg)
 {
     auto addr = GetUint32RegisterAddress(reg.GetAddress());
+    if (addr < 1 || addr > 4) {
+        throw TSerialDeviceException("S2K protocol: invalid register address");
+    }
     /* We have no way to get current relay state from device. Thats why we save last
        successful write to relay register and return it when regiter is read */
     switch (reg.Type) {
-- 
2.43.0


From 684dc6d14467cb788b67a046b116da262d49d606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:16 +0000
Subject: [PATCH 34/87] fix: s2k: check config number in response

---
 src/devices/s2k_device.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/devices/s2k_device.cpp b/src/devices/s2k_device.cpp
index 3901f53..40a3842 100644
--- a/src/devices/s2k_device.cpp
+++ b/src/devices/s2k_device.cpp
@@ -140,6 +140,9 @@ TRegisterValue TS2KDevice::ReadRegisterImpl(TPort& port, const TRegisterConfig&
             if (response[5] != CrcS2K(response, 5)) {
                 throw TSerialDeviceTransientErrorException("bad CRC for 0x5 command");
             }
+            if (response[3] != command[4]) {
+                throw TSerialDeviceTransientErrorException("response for 0x5 command is about another config");
+            }
             return TRegisterValue{response[4]};
         }
         default:
-- 
2.43.0


From ee4e9d6f37ddc2bc738889abec4b36a7bf9735f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:02 +0000
Subject: [PATCH 35/87] fix: IEC 61107: restore port settings if a session was
 not opened

---
 src/iec_common.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/iec_common.cpp b/src/iec_common.cpp
index 70d4da9..be37f0f 100644
--- a/src/iec_common.cpp
+++ b/src/iec_common.cpp
@@ -208,6 +208,8 @@ void TIEC61107ModeCDevice::PrepareImpl(TPort& port)
         if (sessionIsOpen) {
             SendEndSession(port);
         }
+        // EndSession is not called for a session that was not opened
+        port.ResetSerialPortSettings();
         throw;
     }
 }
-- 
2.43.0


From a4942ee92bfe5087a3170d0138bf36edd2572f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:02 +0000
Subject: [PATCH 36/87] fix: IEC 61107: don't read before the text of an empty
 error reply

---
 src/iec_common.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/iec_common.cpp b/src/iec_common.cpp
index be37f0f..b67d3d0 100644
--- a/src/iec_common.cpp
+++ b/src/iec_common.cpp
@@ -318,8 +318,9 @@ std::string TIEC61107ModeCDevice::GetCachedResponse(TPort& port, const std::stri
     }
     // It is probably a error response. It lacks parameter name part
     presp += 1;
-    if (presp[strlen(presp) - 1] == ')') {
-        presp[strlen(presp) - 1] = '\000';
+    size_t errorLen = strlen(presp);
+    if (errorLen != 0 && presp[errorLen - 1] == ')') {
+        presp[errorLen - 1] = '\000';
     }
     throw TSerialDeviceTransientErrorException(presp);
 }
-- 
2.43.0


From c9737d9f7dd0579e938b97b619fd3e7f87861603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:02 +0000
Subject: [PATCH 37/87] fix: Neva: a blank value is a malformed response, not
 length_error

---
 src/devices/neva_device.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/devices/neva_device.cpp b/src/devices/neva_device.cpp
index 0ac0c44..2e8c48f 100644
--- a/src/devices/neva_device.cpp
+++ b/src/devices/neva_device.cpp
@@ -81,7 +81,7 @@ TRegisterValue TNevaDevice::GetRegisterValue(const TRegisterConfig& reg, const s
     std::string value(v.substr(1, v.size() - 2));
     std::vector<double> result(5);
     int ret = sscanf(value.c_str(), "%lf,%lf,%lf,%lf,%lf", &result[0], &result[1], &result[2], &result[3], &result[4]);
-    result.resize(ret);
+    result.resize(std::max(ret, 0));
 
     size_t val_index = RegisterTypeValueIndices[reg.TypeName];
 
-- 
2.43.0


From 06d129697bc7b613c85500c7c431ef5bda9776e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:02 +0000
Subject: [PATCH 38/87] fix: Energomera: refuse value numbers outside 1..16

---
 src/devices/energomera_iec_device.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/devices/energomera_iec_device.cpp b/src/devices/energomera_iec_device.cpp
index f1db199..20a77cf 100644
--- a/src/devices/energomera_iec_device.cpp
+++ b/src/devices/energomera_iec_device.cpp
@@ -25,6 +25,9 @@ namespace
     const int CodeUnsupportedParameter = 12;
     const int CodeUnsupportedParameterValue = 17;
 
+    // Requested values are listed in 16-bit mask
+    const uint8_t MaxValueNum = 16;
+
     const size_t RESPONSE_BUF_LEN = 1000;
 
     uint16_t GetParamId(const TRegisterConfig& reg)
@@ -51,6 +54,14 @@ namespace
                 if (HasOtherDeviceAndType(reg)) {
                     return false;
                 }
+                auto valueNum = GetValueNum(*reg->GetConfig());
+                if (valueNum == 0 || valueNum > MaxValueNum) {
+                    reg->SetError(TRegister::TError::ReadError);
+                    reg->SetAvailable(TRegisterAvailability::UNAVAILABLE);
+                    LOG(Warn) << " [slave_id is " << reg->Device()->ToString() + "] Register " << reg->ToString()
+                              << " has wrong value number";
+                    return true;
+                }
                 RegisterList().push_back(reg);
             }
             return true;
-- 
2.43.0


From a2b6b77a0fd846d210d7ce6bfc9392bf9f8a3ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:03 +0000
Subject: [PATCH 39/87] fix: Energomera: enough room for group read request
 with long slave id

---
 src/devices/energomera_iec_device.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/devices/energomera_iec_device.cpp b/src/devices/energomera_iec_device.cpp
index 20a77cf..d177f6a 100644
--- a/src/devices/energomera_iec_device.cpp
+++ b/src/devices/energomera_iec_device.cpp
@@ -133,7 +133,8 @@ namespace
         // request looks like this:
         //  Write [Energomera]:/?00000211!<SOH>R1<STX>GROUP(1001(1)1004(1)1008(1)4001(7))<ETX>
 
-        char buf[128] = {};
+        // Enough for the longest slave id (32 characters) and the biggest range (11 registers)
+        char buf[192] = {};
         // 4(header) + 1(crc)
         char cmd_part[sizeof(buf) - 5] = {};
         // 11 bytes of header
-- 
2.43.0


From 2db86dde0cd4e0e8d5ab45f7dc76de9b3d7c7a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:03 +0000
Subject: [PATCH 40/87] fix: Energomera: send zero checksum of a group read
 request

---
 src/devices/energomera_iec_device.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/devices/energomera_iec_device.cpp b/src/devices/energomera_iec_device.cpp
index d177f6a..18bb79a 100644
--- a/src/devices/energomera_iec_device.cpp
+++ b/src/devices/energomera_iec_device.cpp
@@ -150,8 +150,9 @@ namespace
         snprintf(cmd_part, sizeof(cmd_part), "R1\x02GROUP(%s)\x03", query_part);
         snprintf(buf, sizeof(buf), "/?%s!\x01%s", slaveId.data(), cmd_part);
         // place checksum in place of trailing null byte
-        buf[strlen(buf)] = IEC::Calc7BitCrc((uint8_t*)(&cmd_part[0]), strlen(cmd_part));
-        IEC::WriteBytes(port, (uint8_t*)buf, strlen(buf), LOG_PREFIX);
+        size_t len = strlen(buf);
+        buf[len] = IEC::Calc7BitCrc((uint8_t*)(&cmd_part[0]), strlen(cmd_part));
+        IEC::WriteBytes(port, (uint8_t*)buf, len + 1, LOG_PREFIX);
     }
 
     /* @returns: null-terminated char* string which is a part of the input buffer.
-- 
2.43.0


From b0e5e16428d37c4a9df53b79337659aad0e01dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:03 +0000
Subject: [PATCH 41/87] fix: Energomera: a value without closing bracket is
 malformed

---
 src/devices/energomera_iec_device.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/devices/energomera_iec_device.cpp b/src/devices/energomera_iec_device.cpp
index 18bb79a..08e9496 100644
--- a/src/devices/energomera_iec_device.cpp
+++ b/src/devices/energomera_iec_device.cpp
@@ -197,15 +197,16 @@ namespace
             // consume reg values
             for (const auto& reg: regs) {
                 double resp_val;
+                nread = 0; // stays zero if there is no closing bracket
                 ret = sscanf(presp, "(%lf)%n", &resp_val, &nread);
-                if (ret >= 1) {
+                if (ret >= 1 && nread != 0) {
                     presp += nread;
                     reg->SetValue(TRegisterValue{CopyDoubleToUint64(resp_val)});
                 } else {
                     // consume error message instead
                     int err_num;
                     ret = sscanf(presp, "(E%d)%n", &err_num, &nread);
-                    if (ret >= 1) {
+                    if (ret >= 1 && nread != 0) {
                         reg->SetError(TRegister::TError::ReadError);
                         presp += nread;
 
-- 
2.43.0


From 52ad6bd2642c7399a95386314560e956814288a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:03 +0000
Subject: [PATCH 42/87] fix: Somfy: check size of a reply before looking into
 it

---
 src/devices/curtains/somfy_sdn_device.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/devices/curtains/somfy_sdn_device.cpp b/src/devices/curtains/somfy_sdn_device.cpp
index a445772..90153f6 100644
--- a/src/devices/curtains/somfy_sdn_device.cpp
+++ b/src/devices/curtains/somfy_sdn_device.cpp
@@ -51,8 +51,7 @@ namespace
 
     void Check(uint32_t address, uint8_t header, const std::vector<uint8_t>& bytes)
     {
-        size_t len = GetLen(bytes[1]);
-        if (bytes.size() < 2 || bytes.size() != len) {
+        if (bytes.size() < DATA_POS + CRC_SIZE || bytes.size() != GetLen(bytes[1])) {
             throw TSerialDeviceTransientErrorException("Bad response size");
         }
 
@@ -63,7 +62,7 @@ namespace
             throw TSerialDeviceTransientErrorException("Bad CRC");
         }
         if (bytes[0] != header) {
-            if (bytes[0] == Somfy::NACK) {
+            if (bytes[0] == Somfy::NACK && bytes.size() > DATA_POS + CRC_SIZE) {
                 throw TSerialDeviceInternalErrorException("NACK: " + std::to_string(static_cast<int>(bytes[DATA_POS])));
             }
             throw TSerialDeviceTransientErrorException("Bad header");
-- 
2.43.0


From 9d0b1db08c1184146e9141afb7efa0e83f5507b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:03 +0000
Subject: [PATCH 43/87] fix: Somfy: refuse command data that doesn't fit a
 packet

---
 src/devices/curtains/somfy_sdn_device.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/devices/curtains/somfy_sdn_device.cpp b/src/devices/curtains/somfy_sdn_device.cpp
index 90153f6..ec67e18 100644
--- a/src/devices/curtains/somfy_sdn_device.cpp
+++ b/src/devices/curtains/somfy_sdn_device.cpp
@@ -34,6 +34,7 @@ namespace
 
     const size_t MAX_RESPONSE_SIZE = 32;
     const size_t LEN_MASK = 0x1F; // 5 bits are reserved for packet length
+    const size_t MAX_DATA_SIZE = LEN_MASK - DATA_POS - CRC_SIZE;
 
     size_t GetLen(uint8_t data)
     {
@@ -261,6 +262,9 @@ void Somfy::TDevice::WriteRegisterImpl(TPort& port, const TRegisterConfig& reg,
         case COMMAND: {
             std::vector<uint8_t> data;
             size_t l = (value & 0xFF);
+            if (l > MAX_DATA_SIZE) {
+                throw TSerialDeviceInternalErrorException("Command data is too long");
+            }
             for (; l != 0; --l) {
                 value >>= 8;
                 data.push_back(value & 0xFF);
-- 
2.43.0


From ce340e0193288647c3469fd9b8917ae27f821c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:03 +0000
Subject: [PATCH 44/87] fix: Somfy: look for cached parameter by its read
 address

---
 src/devices/curtains/somfy_sdn_device.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/devices/curtains/somfy_sdn_device.cpp b/src/devices/curtains/somfy_sdn_device.cpp
index ec67e18..47b9570 100644
--- a/src/devices/curtains/somfy_sdn_device.cpp
+++ b/src/devices/curtains/somfy_sdn_device.cpp
@@ -274,7 +274,7 @@ void Somfy::TDevice::WriteRegisterImpl(TPort& port, const TRegisterConfig& reg,
             return;
         }
         case PARAM: {
-            auto requestHeader = GetUint32RegisterAddress(reg.GetWriteAddress());
+            auto requestHeader = GetUint32RegisterAddress(reg.GetAddress());
             auto it = WriteCache.find(requestHeader);
             if (it == WriteCache.end()) {
                 throw TSerialDeviceTransientErrorException("Register " + reg.ToString() +
-- 
2.43.0


From 1e9d45cfa1c98c0d310d01015b774daafd4e85ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:03 +0000
Subject: [PATCH 45/87] fix: Somfy: don't write behind the end of parameter's
 data

---
 src/devices/curtains/somfy_sdn_device.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/devices/curtains/somfy_sdn_device.cpp b/src/devices/curtains/somfy_sdn_device.cpp
index 47b9570..3843fa3 100644
--- a/src/devices/curtains/somfy_sdn_device.cpp
+++ b/src/devices/curtains/somfy_sdn_device.cpp
@@ -283,8 +283,14 @@ void Somfy::TDevice::WriteRegisterImpl(TPort& port, const TRegisterConfig& reg,
             auto writeHeader = GetUint32RegisterAddress(reg.GetWriteAddress());
             auto data = MakeDataForSetupCommand(writeHeader, it->second);
             size_t width = (reg.GetDataWidth() == 0) ? RegisterFormatByteWidth(reg.Format) * 8 : reg.GetDataWidth();
-            CopyBytes(std::next(data.begin(), reg.GetDataOffset() / 8),
-                      std::next(data.begin(), (reg.GetDataOffset() + width) / 8),
+            size_t begin = reg.GetDataOffset() / 8;
+            size_t end = std::min<size_t>((reg.GetDataOffset() + width) / 8, data.size());
+            if (begin >= end) {
+                throw TSerialDeviceTransientErrorException("Register " + reg.ToString() +
+                                                           " is outside of parameter's data");
+            }
+            CopyBytes(std::next(data.begin(), begin),
+                      std::next(data.begin(), end),
                       ToArray(value));
             Check(SlaveId, ACK, ExecCommand(port, MakeRequest(writeHeader, SlaveId, NodeType, data)));
             WriteCache[requestHeader] = data;
-- 
2.43.0


From 1f701cf121240a9724281b4a1f1cefe2b4107ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:03 +0000
Subject: [PATCH 46/87] fix: Somfy: don't shift more than 8 bytes into a value

---
 src/devices/curtains/somfy_sdn_device.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/devices/curtains/somfy_sdn_device.cpp b/src/devices/curtains/somfy_sdn_device.cpp
index 3843fa3..02b67cd 100644
--- a/src/devices/curtains/somfy_sdn_device.cpp
+++ b/src/devices/curtains/somfy_sdn_device.cpp
@@ -322,7 +322,7 @@ TRegisterValue Somfy::TDevice::GetCachedResponse(TPort& port,
     } else {
         auto req = MakeRequest(requestHeader, SlaveId, NodeType);
         auto data = ParseStatusReport(SlaveId, responseHeader, ExecCommand(port, req));
-        val.Set(Get<uint64_t>(data.begin(), data.end()));
+        val.Set(Get<uint64_t>(data.begin(), data.begin() + std::min(data.size(), sizeof(uint64_t))));
         DataCache[requestHeader] = val;
         WriteCache[requestHeader] = data;
     }
-- 
2.43.0


From 654360b06327cc18858811da8c06b8531bbc4618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:03 +0000
Subject: [PATCH 47/87] fix: Somfy: a reply without the requested field is an
 error

---
 src/devices/curtains/somfy_sdn_device.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/devices/curtains/somfy_sdn_device.cpp b/src/devices/curtains/somfy_sdn_device.cpp
index 02b67cd..191b239 100644
--- a/src/devices/curtains/somfy_sdn_device.cpp
+++ b/src/devices/curtains/somfy_sdn_device.cpp
@@ -327,6 +327,9 @@ TRegisterValue Somfy::TDevice::GetCachedResponse(TPort& port,
         WriteCache[requestHeader] = data;
     }
     if (bitOffset || bitWidth) {
+        if (bitOffset >= WriteCache[requestHeader].size() * 8) {
+            throw TSerialDeviceTransientErrorException("Response is too short");
+        }
         return TRegisterValue{(val.Get<uint64_t>() >> bitOffset) & GetLSBMask(bitWidth)};
     }
     return val;
-- 
2.43.0


From 88bc85f2dfd4a703a25437599697eadeb70cfb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:03 +0000
Subject: [PATCH 48/87] fix: A-OK: check status replies

---
 src/devices/curtains/a_ok_device.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/devices/curtains/a_ok_device.cpp b/src/devices/curtains/a_ok_device.cpp
index 71123b3..7bb499b 100644
--- a/src/devices/curtains/a_ok_device.cpp
+++ b/src/devices/curtains/a_ok_device.cpp
@@ -122,6 +122,11 @@ TRegisterValue Aok::TDevice::GetCachedResponse(TPort& port,
         req.Data = MakeRequest(MotorId, LowChannelId, HighChannelId, command, data);
         req.ResponseSize = MOTOR_STATUS_RESPONSE_SIZE;
         auto resp = ExecCommand(port, req);
+        if (resp.size() != MOTOR_STATUS_RESPONSE_SIZE || resp[0] != RESPONSE ||
+            resp.back() != CalcCrc({resp.begin() + 1, resp.end() - CRC_SIZE}))
+        {
+            throw TSerialDeviceTransientErrorException("Malformed response");
+        }
         // some tabular motors can answer any request,
         // so check that motor id in the response matches the requested one
         if (resp[MOTOR_ID_POS] != MotorId || resp[LOW_CHANNEL_ID_POS] != LowChannelId ||
-- 
2.43.0


From d371bafa97f2834aebd4f5df6300909ab6d16e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:17 +0000
Subject: [PATCH 49/87] fix: A-OK: read the status anew for every zone bit
 write

---
 src/devices/curtains/a_ok_device.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/devices/curtains/a_ok_device.cpp b/src/devices/curtains/a_ok_device.cpp
index 7bb499b..bacfb28 100644
--- a/src/devices/curtains/a_ok_device.cpp
+++ b/src/devices/curtains/a_ok_device.cpp
@@ -209,8 +209,11 @@ void Aok::TDevice::WriteRegisterImpl(TPort& port, const TRegisterConfig& reg, co
         }
         case ZONEBIT: {
             auto addr = GetUint32RegisterAddress(reg.GetWriteAddress());
+            InvalidateReadCache();
             TRegisterValue val =
                 GetCachedResponse(port, CURTAIN_MOTOR_STATUS, CURTAIN_MOTOR_STATUS, MOTOR_STATUS_ZONEBIT_OFFSET * 8, 8);
+            // The write changes the status, so it must be read again after it
+            InvalidateReadCache();
             TRequest req;
             req.Data = MakeRequest(MotorId,
                                    LowChannelId,
-- 
2.43.0


From a5d3c76a6dc81701a5b0bb08e5870c44e6e036c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:18 +0000
Subject: [PATCH 50/87] fix: A-OK: a zone bit write changes only its bit

---
 src/devices/curtains/a_ok_device.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/devices/curtains/a_ok_device.cpp b/src/devices/curtains/a_ok_device.cpp
index bacfb28..07c3d73 100644
--- a/src/devices/curtains/a_ok_device.cpp
+++ b/src/devices/curtains/a_ok_device.cpp
@@ -209,6 +209,9 @@ void Aok::TDevice::WriteRegisterImpl(TPort& port, const TRegisterConfig& reg, co
         }
         case ZONEBIT: {
             auto addr = GetUint32RegisterAddress(reg.GetWriteAddress());
+            if (addr > 7) {
+                throw TSerialDevicePermanentRegisterException("Zone bit number is out of range");
+            }
             InvalidateReadCache();
             TRegisterValue val =
                 GetCachedResponse(port, CURTAIN_MOTOR_STATUS, CURTAIN_MOTOR_STATUS, MOTOR_STATUS_ZONEBIT_OFFSET * 8, 8);
@@ -219,7 +222,7 @@ void Aok::TDevice::WriteRegisterImpl(TPort& port, const TRegisterConfig& reg, co
                                    LowChannelId,
                                    HighChannelId,
                                    SET_CURTAIN_MOTOR_SETTING,
-                                   (val.Get<uint8_t>() & ~(1 << addr)) | (value << addr));
+                                   (val.Get<uint8_t>() & ~(1 << addr)) | ((value ? 1 : 0) << addr));
             ExecCommand(port, req);
             return;
         }
-- 
2.43.0


From b1a5c1cd51c87314785eecbc14218c15079ee707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:11 +0000
Subject: [PATCH 51/87] fix: treat zero read rate limit as no limit

---
 src/pollable_device.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pollable_device.cpp b/src/pollable_device.cpp
index 057d43b..cf3637e 100644
--- a/src/pollable_device.cpp
+++ b/src/pollable_device.cpp
@@ -154,7 +154,7 @@ void TPollableDevice::ScheduleNextPoll(PRegister reg, std::chrono::steady_clock:
         Registers.AddEntry(reg, currentTime + *(reg->GetConfig()->ReadPeriod));
         return;
     }
-    if (reg->GetConfig()->ReadRateLimit) {
+    if (reg->GetConfig()->ReadRateLimit && reg->GetConfig()->ReadRateLimit->count() > 0) {
         Registers.AddEntry(reg, currentTime + *(reg->GetConfig()->ReadRateLimit));
         return;
     }
-- 
2.43.0


From 5c350cdba3cc98f9069d1b54640e7f1f5a479286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:12 +0000
Subject: [PATCH 52/87] fix: do not poll a disconnected device before its
 registers are ready

---
 src/serial_client_register_poller.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serial_client_register_poller.cpp b/src/serial_client_register_poller.cpp
index 76ba24d..2218af3 100644
--- a/src/serial_client_register_poller.cpp
+++ b/src/serial_client_register_poller.cpp
@@ -143,7 +143,7 @@ void TSerialClientRegisterPoller::ScheduleNextPoll(PPollableDevice device, stead
         if (device->GetDevice()->GetConnectionState() == TDeviceConnectionState::DISCONNECTED) {
             delay = device->GetDisconnectedPollDelay();
             if (delay.count()) {
-                deadline = currentTime + delay;
+                deadline = std::max(deadline, currentTime + delay);
                 LOG(Debug) << "Device " << device->GetDevice()->ToString() << " poll delayed for " << delay.count()
                            << " ms";
             }
-- 
2.43.0


From 333aeab0ef9a956264cb87efa7c2942d35ce9fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:27 +0000
Subject: [PATCH 53/87] fix: drop unavailable registers from polling without
 blocking other devices

---
 src/pollable_device.cpp               |  5 +++++
 src/pollable_device.h                 |  1 +
 src/serial_client_register_poller.cpp | 12 ++++++++++++
 3 files changed, 18 insertions(+)

diff --git a/src/pollable_device.cpp b/src/pollable_device.cpp
index cf3637e..61de40c 100644
--- a/src/pollable_device.cpp
+++ b/src/pollable_device.cpp
@@ -123,6 +123,11 @@ bool TPollableDevice::HasRegisters() const
     return !Registers.IsEmpty();
 }
 
+bool TPollableDevice::HasReadyRegisters(std::chrono::steady_clock::time_point currentTime) const
+{
+    return Registers.HasReadyItems(currentTime);
+}
+
 void TPollableDevice::RescheduleAllRegisters()
 {
     for (const auto& reg: Device->GetRegisters()) {
diff --git a/src/pollable_device.h b/src/pollable_device.h
index 5ef6b1f..a3bbad5 100644
--- a/src/pollable_device.h
+++ b/src/pollable_device.h
@@ -41,6 +41,7 @@ public:
     PSerialDevice GetDevice() const;
 
     bool HasRegisters() const;
+    bool HasReadyRegisters(std::chrono::steady_clock::time_point currentTime) const;
 
     void RescheduleAllRegisters();
 };
diff --git a/src/serial_client_register_poller.cpp b/src/serial_client_register_poller.cpp
index 2218af3..bbbd91b 100644
--- a/src/serial_client_register_poller.cpp
+++ b/src/serial_client_register_poller.cpp
@@ -237,6 +237,18 @@ TPollResult TSerialClientRegisterPoller::OpenPortCycle(TFeaturePort& port,
         return res;
     }
 
+    if (range->RegisterList().empty() && !reader.GetDevice()->HasReadyRegisters(spentTime.GetStartTime())) {
+        // All waiting registers are unavailable and they are dropped from polling
+        Scheduler.Remove(reader.GetDevice());
+        if (reader.GetDevice()->HasRegisters()) {
+            Scheduler.AddEntry(reader.GetDevice(),
+                               reader.GetDevice()->GetDeadline(),
+                               reader.GetDevice()->GetPriority());
+        }
+        res.Deadline = GetDeadline(lowPriorityRateLimitIsExceeded, spentTime);
+        return res;
+    }
+
     // There are registers waiting read, but they don't fit in allowed poll limit
     if (range->RegisterList().empty()) {
         res.NotEnoughTime = true;
-- 
2.43.0


From a98cf2f5a944ef3274c04057a505ae3b051effb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:27 +0000
Subject: [PATCH 54/87] fix: do not queue polling of devices without registers

---
 src/serial_client_register_poller.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/serial_client_register_poller.cpp b/src/serial_client_register_poller.cpp
index bbbd91b..6134a53 100644
--- a/src/serial_client_register_poller.cpp
+++ b/src/serial_client_register_poller.cpp
@@ -312,7 +312,9 @@ void TSerialClientRegisterPoller::ResumePoll(PSerialDevice device)
     auto range = Devices.equal_range(device);
     for (auto it = range.first; it != range.second; ++it) {
         it->second->RescheduleAllRegisters();
-        Scheduler.AddEntry(it->second, it->second->GetDeadline(), it->second->GetPriority());
+        if (it->second->HasRegisters()) {
+            Scheduler.AddEntry(it->second, it->second->GetDeadline(), it->second->GetPriority());
+        }
     }
 
     DevicesWithSpendedPoll.erase(device);
@@ -356,7 +358,9 @@ void TSerialClientRegisterPoller::RescheduleDisconnectedDevices()
         for (auto it = range.first; it != range.second; ++it) {
             Scheduler.Remove(it->second);
             it->second->RescheduleAllRegisters();
-            Scheduler.AddEntry(it->second, it->second->GetDeadline(), it->second->GetPriority());
+            if (it->second->HasRegisters()) {
+                Scheduler.AddEntry(it->second, it->second->GetDeadline(), it->second->GetPriority());
+            }
         }
     }
     DisconnectedDevicesWaitingForReschedule.clear();
-- 
2.43.0


From b9d476009cd6eb671ccf4d56bbea7927dfc30099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:27 +0000
Subject: [PATCH 55/87] fix: do not resume suspended polling of a device on its
 disconnection

---
 src/serial_client_register_poller.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/serial_client_register_poller.cpp b/src/serial_client_register_poller.cpp
index 6134a53..1a18bb2 100644
--- a/src/serial_client_register_poller.cpp
+++ b/src/serial_client_register_poller.cpp
@@ -354,6 +354,9 @@ void TSerialClientRegisterPoller::RescheduleDisconnectedDevices()
 {
     std::unique_lock lock(Mutex);
     for (auto& device: DisconnectedDevicesWaitingForReschedule) {
+        if (DevicesWithSpendedPoll.find(device) != DevicesWithSpendedPoll.end()) {
+            continue;
+        }
         auto range = Devices.equal_range(device);
         for (auto it = range.first; it != range.second; ++it) {
             Scheduler.Remove(it->second);
-- 
2.43.0


From 37f6630ea1d1b91552c47dd61a322675b11595d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:42 +0000
Subject: [PATCH 56/87] fix: do not reopen a noisy port recursively

---
 src/port/file_descriptor_port.cpp | 15 +++++++++++++--
 src/port/file_descriptor_port.h   |  2 ++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/port/file_descriptor_port.cpp b/src/port/file_descriptor_port.cpp
index d8a3ed7..451371d 100644
--- a/src/port/file_descriptor_port.cpp
+++ b/src/port/file_descriptor_port.cpp
@@ -22,7 +22,7 @@ namespace
     const int ContinuousNoiseReopenNumber = 3;
 }
 
-TFileDescriptorPort::TFileDescriptorPort(): Fd(-1)
+TFileDescriptorPort::TFileDescriptorPort(): Fd(-1), ReopeningOnNoise(false)
 {}
 
 TFileDescriptorPort::~TFileDescriptorPort()
@@ -228,9 +228,20 @@ void TFileDescriptorPort::SkipNoise()
             LastInteraction = std::chrono::steady_clock::now();
 
             if (diff > ContinuousNoiseTimeout) {
+                // Open() also skips noise, do not reopen the port again from there
+                if (ReopeningOnNoise) {
+                    return;
+                }
                 if (ntries < ContinuousNoiseReopenNumber) {
                     LOG(Debug) << "continuous unsolicited data flow detected, reopen the port";
-                    Reopen();
+                    ReopeningOnNoise = true;
+                    try {
+                        Reopen();
+                    } catch (...) {
+                        ReopeningOnNoise = false;
+                        throw;
+                    }
+                    ReopeningOnNoise = false;
                     ntries += 1;
                     start = std::chrono::steady_clock::now();
                 } else {
diff --git a/src/port/file_descriptor_port.h b/src/port/file_descriptor_port.h
index 78ac5cd..3f2ffed 100644
--- a/src/port/file_descriptor_port.h
+++ b/src/port/file_descriptor_port.h
@@ -33,6 +33,8 @@ protected:
     std::chrono::time_point<std::chrono::steady_clock> LastInteraction;
 
 private:
+    bool ReopeningOnNoise;
+
     /**
      * @brief Reads data from port. Throws TSerialDeviceException on errors
      *
-- 
2.43.0


From 03df64bc4374563141603d808652c07228d1788e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:10 +0000
Subject: [PATCH 57/87] fix: publish the first value of a control even if it is
 an empty text

---
 src/serial_port_driver.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/serial_port_driver.h b/src/serial_port_driver.h
index a2cb19c..3d4c8f6 100644
--- a/src/serial_port_driver.h
+++ b/src/serial_port_driver.h
@@ -7,6 +7,7 @@
 
 #include <chrono>
 #include <memory>
+#include <optional>
 #include <unordered_map>
 
 struct TDeviceChannel: public TDeviceChannelConfig
@@ -42,7 +43,7 @@ private:
        it is very expensive to call it on every channel update.
        So we implement publish control logic in wb-mqtt-serial until libwbmqtt1 is fixed.
     */
-    std::string CachedCurrentValue;
+    std::optional<std::string> CachedCurrentValue;
     std::string CachedErrorText;
     std::chrono::steady_clock::time_point LastControlUpdate;
     bool PublishNextZeroPressCounter;
-- 
2.43.0


From 9f4292ee8a9f882c2bd80d40415c9db259280ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:31 +0000
Subject: [PATCH 58/87] fix: do not send a pending value several times per
 cycle

---
 src/register_handler.cpp                 | 11 ++++++++++-
 src/register_handler.h                   | 13 ++++++++++++-
 src/serial_client.cpp                    |  5 ++++-
 src/write_channel_serial_client_task.cpp |  1 +
 4 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/register_handler.cpp b/src/register_handler.cpp
index ad3b788..939bdb6 100644
--- a/src/register_handler.cpp
+++ b/src/register_handler.cpp
@@ -87,12 +87,21 @@ bool TRegisterHandler::NeedRetryAfterWriteFail()
     return true;
 }
 
-void TRegisterHandler::SetTextValue(const std::string& v)
+void TRegisterHandler::CancelWrite()
+{
+    std::lock_guard<std::mutex> lock(SetValueMutex);
+    Dirty = false;
+    WriteFail = false;
+}
+
+bool TRegisterHandler::SetTextValue(const std::string& v)
 {
     auto value = ConvertToRawValue(*Reg->GetConfig(), v);
     std::lock_guard<std::mutex> lock(SetValueMutex);
+    bool wasDirty = Dirty;
     Dirty = true;
     ValueToSet = value;
+    return !wasDirty;
 }
 
 PRegister TRegisterHandler::Register() const
diff --git a/src/register_handler.h b/src/register_handler.h
index 2f370c8..b24f983 100644
--- a/src/register_handler.h
+++ b/src/register_handler.h
@@ -29,7 +29,18 @@ public:
      */
     bool NeedRetryAfterWriteFail();
 
-    void SetTextValue(const std::string& v);
+    /**
+     * @brief Drop pending register value.
+     */
+    void CancelWrite();
+
+    /**
+     * @brief Set register value to write.
+     *
+     * @return true if there was no pending value, so the write must be scheduled,
+     *         false if the new value replaces the pending one
+     */
+    bool SetTextValue(const std::string& v);
 
 private:
     TRegisterValue ValueToSet{0};
diff --git a/src/serial_client.cpp b/src/serial_client.cpp
index f0449df..9fc83ab 100644
--- a/src/serial_client.cpp
+++ b/src/serial_client.cpp
@@ -155,7 +155,10 @@ void TSerialClient::ClosedPortCycle()
 void TSerialClient::SetTextValue(PRegister reg, const std::string& value)
 {
     auto handler = GetHandler(reg);
-    handler->SetTextValue(value);
+    if (!handler->SetTextValue(value)) {
+        // The task of the value that is still pending writes the new one
+        return;
+    }
     auto serialClientTask =
         std::make_shared<TWriteChannelSerialClientTask>(handler, RegisterReadCallback, RegisterErrorCallback);
     AddTask(serialClientTask);
diff --git a/src/write_channel_serial_client_task.cpp b/src/write_channel_serial_client_task.cpp
index 3f1d4d7..abbed5b 100644
--- a/src/write_channel_serial_client_task.cpp
+++ b/src/write_channel_serial_client_task.cpp
@@ -32,6 +32,7 @@ ISerialClientTask::TRunResult TWriteChannelSerialClientTask::Run(PFeaturePort po
             error = "port is not open";
         } else if (!Handler->Register()->IsSupported()) {
             retry = false;
+            Handler->CancelWrite();
             error = "register is not supported by device firmware";
         } else {
             error = "device is disconnected";
-- 
2.43.0


From f61e72413b0d6dfe1bc25f87f86e512643fdbd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:31 +0000
Subject: [PATCH 59/87] fix: give up writes to devices whose session can't be
 opened

---
 src/write_channel_serial_client_task.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/write_channel_serial_client_task.cpp b/src/write_channel_serial_client_task.cpp
index abbed5b..e5e7793 100644
--- a/src/write_channel_serial_client_task.cpp
+++ b/src/write_channel_serial_client_task.cpp
@@ -49,6 +49,7 @@ ISerialClientTask::TRunResult TWriteChannelSerialClientTask::Run(PFeaturePort po
         Handler->Flush(*port);
     } else {
         Handler->Register()->SetError(TRegister::TError::WriteError);
+        Handler->NeedRetryAfterWriteFail();
     }
     if (Handler->Register()->GetErrorState().test(TRegister::TError::WriteError)) {
         if (ErrorCallback) {
-- 
2.43.0


From a90a68aaeea0792c14ea715cf9302fc6a959f059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:01 +0000
Subject: [PATCH 60/87] fix: use only the bits of the register in the value of
 an event

---
 src/serial_client_events_reader.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/serial_client_events_reader.cpp b/src/serial_client_events_reader.cpp
index ba3e4a7..ef9383d 100644
--- a/src/serial_client_events_reader.cpp
+++ b/src/serial_client_events_reader.cpp
@@ -1,4 +1,5 @@
 #include "serial_client_events_reader.h"
+#include "bin_utils.h"
 #include "common_utils.h"
 #include "log.h"
 #include "serial_device.h"
@@ -79,6 +80,15 @@ namespace
         return nullptr;
     }
 
+    // Several registers can represent different parts of the value of an event
+    uint64_t GetRegisterBits(const TRegisterConfig& config, uint64_t value)
+    {
+        if (config.IsString()) {
+            return value;
+        }
+        return (value >> config.GetDataOffset()) & BinUtils::GetLSBMask(config.GetDataWidth());
+    }
+
     void DisableEventsFromRegs(TFeaturePort& port, const std::list<TEventsReaderRegisterDesc>& regs)
     {
         if (regs.empty()) {
@@ -149,7 +159,7 @@ class TModbusExtEventsVisitor: public ModbusExt::IEventsVisitor
             uint64_t value = 0;
             memcpy(&value, data, std::min(dataSize, sizeof(value)));
             for (auto reg: regArray->second) {
-                reg->SetValue(TRegisterValue(value));
+                reg->SetValue(TRegisterValue(GetRegisterBits(*reg->GetConfig(), value)));
                 RegisterChangedCallback(reg);
             }
         } else {
-- 
2.43.0


From 1994931d49ee6a676bc100eaab5ec68794961c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:13 +0000
Subject: [PATCH 61/87] fix: clear errors of event registers when events are
 read again

---
 src/serial_client_events_reader.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/serial_client_events_reader.cpp b/src/serial_client_events_reader.cpp
index ef9383d..b12ecd9 100644
--- a/src/serial_client_events_reader.cpp
+++ b/src/serial_client_events_reader.cpp
@@ -234,7 +234,6 @@ void TSerialClientEventsReader::ReadEventsFailed(const std::string& errorMessage
     if (ReadErrors > MaxReadErrors) {
         SetReadErrors(registerCallback);
         ReadErrors = 0;
-        ClearErrorsOnSuccessfulRead = true;
     }
 }
 
@@ -390,6 +389,7 @@ void TSerialClientEventsReader::OnDeviceConnectionStateChanged(PSerialDevice dev
 
 void TSerialClientEventsReader::SetReadErrors(TRegisterCallback callback)
 {
+    ClearErrorsOnSuccessfulRead = true;
     for (const auto& regArray: Regs) {
         for (const auto& reg: regArray.second) {
             if (reg->IsExcludedFromPolling() || reg->Device()->IsSporadicOnly()) {
@@ -411,6 +411,12 @@ void TSerialClientEventsReader::ClearReadErrors(TRegisterCallback callback)
     ClearErrorsOnSuccessfulRead = false;
     for (const auto& regArray: Regs) {
         for (const auto& reg: regArray.second) {
+            const auto& errorValue = reg->GetConfig()->ErrorValue;
+            if (reg->Device()->GetConnectionState() == TDeviceConnectionState::DISCONNECTED ||
+                (errorValue && *errorValue == reg->GetValue()))
+            {
+                continue;
+            }
             if (reg->IsExcludedFromPolling() || reg->Device()->IsSporadicOnly()) {
                 reg->ClearError(TRegister::TError::ReadError);
                 if (callback) {
-- 
2.43.0


From 94f33f49827ad61468fc11eabcc4ee8cefd344e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:50 +0000
Subject: [PATCH 62/87] fix: accept 64 bit numbers as error and unsupported
 values

---
 src/serial_config.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serial_config.cpp b/src/serial_config.cpp
index 2e56862..d9860b3 100644
--- a/src/serial_config.cpp
+++ b/src/serial_config.cpp
@@ -87,7 +87,7 @@ namespace
 
     uint64_t ToUint64(const Json::Value& v, const string& title)
     {
-        if (v.isUInt()) {
+        if (v.isUInt64()) {
             return v.asUInt64();
         }
 
-- 
2.43.0


From 075d9b1b93a50932e57705af33b8b6ddd96d3a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:58 +0000
Subject: [PATCH 63/87] fix: reject register addresses that don't fit 32 bits
 or have unparsed characters

---
 src/serial_config.cpp | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/serial_config.cpp b/src/serial_config.cpp
index d9860b3..0eafd7b 100644
--- a/src/serial_config.cpp
+++ b/src/serial_config.cpp
@@ -6,6 +6,7 @@
 #include <cstdlib>
 #include <dirent.h>
 #include <fstream>
+#include <limits>
 #include <memory>
 #include <set>
 #include <stdexcept>
@@ -103,7 +104,11 @@ namespace
             if (val.find("-") == std::string::npos) {
                 // don't try to parse strings containing munus sign
                 try {
-                    return stoull(val, /*pos= */ 0, /*base= */ 0);
+                    size_t pos = 0;
+                    auto res = stoull(val, &pos, /*base= */ 0);
+                    if (pos == val.size()) {
+                        return res;
+                    }
                 } catch (const logic_error& e) {
                 }
             }
@@ -113,14 +118,18 @@ namespace
             title + ": 64-bit plain unsigned integer or '0x..' hex string expected instead of '" + v.asString() + "'");
     }
 
-    double GetDouble(const Json::Value& obj, const std::string& key)
+    uint32_t ToUint32(const Json::Value& v, const string& title)
     {
-        return ToDouble(obj[key], key);
+        auto val = ToUint64(v, title);
+        if (val > std::numeric_limits<uint32_t>::max()) {
+            throw TConfigParserException(title + ": value is too big: '" + v.asString() + "'");
+        }
+        return static_cast<uint32_t>(val);
     }
 
-    uint64_t GetUint64(const Json::Value& obj, const std::string& key)
+    double GetDouble(const Json::Value& obj, const std::string& key)
     {
-        return ToUint64(obj[key], key);
+        return ToDouble(obj[key], key);
     }
 
     std::string GetIntegerString(const Json::Value& obj, const std::string& key)
@@ -438,7 +447,7 @@ namespace
     {
         uint32_t shift = 0;
         if (channel_data.isMember("shift")) {
-            shift = static_cast<uint32_t>(GetUint64(channel_data, "shift"));
+            shift = ToUint32(channel_data["shift"], "shift");
         }
         std::unique_ptr<IRegisterAddress> baseAddress(context.device_base_address.CalcNewAddress(shift, 0, 0, 0));
 
@@ -1218,10 +1227,8 @@ TRegisterBitsAddress LoadRegisterBitsAddress(const Json::Value& register_data, c
     if (addressValue.isString()) {
         const auto& addressStr = addressValue.asString();
         auto pos1 = addressStr.find(':');
-        if (pos1 == string::npos) {
-            res.Address = static_cast<uint32_t>(GetUint64(register_data, jsonPropertyName));
-        } else {
-            res.Address = GetIntFromString(addressStr.substr(0, pos1), jsonPropertyName);
+        res.Address = ToUint32(addressStr.substr(0, pos1), jsonPropertyName);
+        if (pos1 != string::npos) {
             auto pos2 = addressStr.find(':', pos1 + 1);
             auto bitOffset = stoul(addressStr.substr(pos1 + 1, pos2));
             if (bitOffset > 255) {
@@ -1235,7 +1242,7 @@ TRegisterBitsAddress LoadRegisterBitsAddress(const Json::Value& register_data, c
             }
         }
     } else {
-        res.Address = static_cast<uint32_t>(GetUint64(register_data, jsonPropertyName));
+        res.Address = ToUint32(addressValue, jsonPropertyName);
     }
 
     if (register_data.isMember("string_data_size")) {
-- 
2.43.0


From 2ad9c28f477f1e062f40883fab8a383a72c40ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:23 +0000
Subject: [PATCH 64/87] fix: detect subdevices that contain each other

---
 src/templates_map.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/templates_map.cpp b/src/templates_map.cpp
index 18784d2..4fd8a38 100644
--- a/src/templates_map.cpp
+++ b/src/templates_map.cpp
@@ -38,13 +38,13 @@ namespace
         }
     }
 
-    void CheckNesting(const Json::Value& root, size_t nestingLevel, TSubDevicesTemplateMap& templates)
+    void CheckNesting(const Json::Value& device, size_t nestingLevel, TSubDevicesTemplateMap& templates)
     {
         if (nestingLevel > 5) {
             throw TConfigParserException(
                 "Too deep subdevices nesting. This could be caused by cyclic subdevice dependencies");
         }
-        for (const auto& ch: root["device"]["channels"]) {
+        for (const auto& ch: device["channels"]) {
             if (ch.isMember("device_type")) {
                 CheckNesting(templates.GetTemplate(ch["device_type"].asString()).Schema, nestingLevel + 1, templates);
             }
@@ -245,7 +245,7 @@ namespace
         // Check that channels refer to valid subdevices and they are not nested too deep
         if (root["device"].isMember("subdevices")) {
             TSubDevicesTemplateMap subdevices(root["device_type"].asString(), root["device"]);
-            CheckNesting(root, 0, subdevices);
+            CheckNesting(root["device"], 0, subdevices);
         }
     }
 
-- 
2.43.0


From 32c57cb24db8f9c8d2db9bdad126eb29ea5a175e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:51 +0000
Subject: [PATCH 65/87] fix: a refused firmware description is an error

---
 src/rpc/rpc_fw_update_task.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rpc/rpc_fw_update_task.cpp b/src/rpc/rpc_fw_update_task.cpp
index 9de1344..bf27d30 100644
--- a/src/rpc/rpc_fw_update_task.cpp
+++ b/src/rpc/rpc_fw_update_task.cpp
@@ -97,7 +97,8 @@ namespace
                                    infoData);
         auto responsePduSize =
             Modbus::CalcResponsePDUSize(Modbus::FN_WRITE_MULTIPLE_REGISTERS, FwRegisters::FW_INFO_BLOCK_COUNT);
-        traits.Transaction(port, slaveId, pdu, responsePduSize, infoBlockTimeout, frameTimeout);
+        auto res = traits.Transaction(port, slaveId, pdu, responsePduSize, infoBlockTimeout, frameTimeout);
+        Modbus::ExtractResponseData(Modbus::FN_WRITE_MULTIPLE_REGISTERS, res.Pdu);
     }
 
     // Cf. firmware_update.py:349 write_fw_data_block()
-- 
2.43.0


From 77622c130a470a90b2a1fad9f4165eefa44bb114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:51 +0000
Subject: [PATCH 66/87] fix: answer firmware requests that can not be started

---
 src/rpc/rpc_fw_update_handler.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/rpc/rpc_fw_update_handler.cpp b/src/rpc/rpc_fw_update_handler.cpp
index 76faee3..a4b2942 100644
--- a/src/rpc/rpc_fw_update_handler.cpp
+++ b/src/rpc/rpc_fw_update_handler.cpp
@@ -254,8 +254,8 @@ void TRPCFwUpdateHandler::GetFirmwareInfo(const Json::Value& request,
                                                              ReleaseSuite,
                                                              params.PortSettings,
                                                              Downloader,
-                                                             std::move(onResult),
-                                                             std::move(onError));
+                                                             onResult,
+                                                             onError);
         SerialClientTaskRunner.RunTask(MakePortRequestJson(params), task);
     } catch (const std::exception& e) {
         onError(WBMQTT::E_RPC_SERVER_ERROR, e.what());
@@ -289,8 +289,8 @@ void TRPCFwUpdateHandler::Update(const Json::Value& request,
                                                                 Downloader,
                                                                 State,
                                                                 UpdateLock,
-                                                                std::move(onResult),
-                                                                std::move(onError));
+                                                                onResult,
+                                                                onError);
         SerialClientTaskRunner.RunTask(MakePortRequestJson(params), task);
     } catch (const std::exception& e) {
         {
@@ -335,8 +335,8 @@ void TRPCFwUpdateHandler::Restore(const Json::Value& request,
                                                      Downloader,
                                                      State,
                                                      UpdateLock,
-                                                     std::move(onResult),
-                                                     std::move(onError));
+                                                     onResult,
+                                                     onError);
         SerialClientTaskRunner.RunTask(MakePortRequestJson(params), task);
     } catch (const std::exception& e) {
         {
-- 
2.43.0


From 9bf3429d59c5271addcfd6df0976b08a299520aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:02 +0000
Subject: [PATCH 67/87] fix: look up the firmware to restore before the
 bootloader is updated

---
 src/rpc/rpc_fw_update_serial_client_task.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rpc/rpc_fw_update_serial_client_task.cpp b/src/rpc/rpc_fw_update_serial_client_task.cpp
index 1b79664..97ed22a 100644
--- a/src/rpc/rpc_fw_update_serial_client_task.cpp
+++ b/src/rpc/rpc_fw_update_serial_client_task.cpp
@@ -123,6 +123,8 @@ void TFwUpdateSerialClientTask::DoBootloaderUpdate(TPort& port,
             "bootloader",
             info.BootloaderVersion,
             bootloader.Version,
+    // Without a firmware to restore the device would be left in the bootloader
+    auto released = Downloader->GetReleasedFirmware(info.FwSignature, ReleaseSuite);
             bootloader.Endpoint,
             true,
             info.CanPreservePortSettings);
@@ -133,7 +135,6 @@ void TFwUpdateSerialClientTask::DoBootloaderUpdate(TPort& port,
     LOG(Info) << "Auto-restoring firmware after bootloader update for slave " << static_cast<int>(SlaveId);
     std::this_thread::sleep_for(std::chrono::seconds(2));
 
-    auto released = Downloader->GetReleasedFirmware(info.FwSignature, ReleaseSuite);
     DoFlash(port,
             traits,
             "firmware",
-- 
2.43.0


From 444f8932b8d0d2498a4a68ef9f8204780d90e34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:02 +0000
Subject: [PATCH 68/87] fix: every failed flash ends with an error in the state

---
 src/rpc/rpc_fw_update_serial_client_task.cpp | 46 ++++++++++++--------
 src/rpc/rpc_fw_update_serial_client_task.h   |  1 +
 2 files changed, 29 insertions(+), 18 deletions(-)

diff --git a/src/rpc/rpc_fw_update_serial_client_task.cpp b/src/rpc/rpc_fw_update_serial_client_task.cpp
index 97ed22a..b36cafd 100644
--- a/src/rpc/rpc_fw_update_serial_client_task.cpp
+++ b/src/rpc/rpc_fw_update_serial_client_task.cpp
@@ -65,11 +65,7 @@ ISerialClientTask::TRunResult TFwUpdateSerialClientTask::Run(PFeaturePort port,
             }
         } catch (const std::exception& e) {
             LOG(Error) << "Firmware update error: " << e.what();
-            std::string errorId = "com.wb.serial_driver.generic_error";
-            std::string errorMsg = "Internal error. Check logs for more info";
-            Json::Value metadata;
-            metadata["exception"] = e.what();
-            State->SetError(SlaveId, PortPath, SoftwareType, errorId, errorMsg, metadata);
+            SetError(SoftwareType, e);
         }
         {
             std::lock_guard<std::mutex> lock(UpdateLock->Mutex);
@@ -95,6 +91,15 @@ ISerialClientTask::TRunResult TFwUpdateSerialClientTask::Run(PFeaturePort port,
     return ISerialClientTask::TRunResult::OK;
 }
 
+void TFwUpdateSerialClientTask::SetError(const std::string& type, const std::exception& e)
+{
+    std::string errorId = "com.wb.serial_driver.generic_error";
+    std::string errorMsg = "Internal error. Check logs for more info";
+    Json::Value metadata;
+    metadata["exception"] = e.what();
+    State->SetError(SlaveId, PortPath, type, errorId, errorMsg, metadata);
+}
+
 // Cf. firmware_update.py:785 FirmwareUpdater.update_software() — firmware branch
 void TFwUpdateSerialClientTask::DoFirmwareUpdate(TPort& port, Modbus::IModbusTraits& traits, const TFwDeviceInfo& info)
 {
@@ -118,13 +123,13 @@ void TFwUpdateSerialClientTask::DoBootloaderUpdate(TPort& port,
                                                    const TFwDeviceInfo& info)
 {
     auto bootloader = Downloader->GetReleasedBootloader(info.FwSignature, ReleaseSuite);
+    // Without a firmware to restore the device would be left in the bootloader
+    auto released = Downloader->GetReleasedFirmware(info.FwSignature, ReleaseSuite);
     DoFlash(port,
             traits,
             "bootloader",
             info.BootloaderVersion,
             bootloader.Version,
-    // Without a firmware to restore the device would be left in the bootloader
-    auto released = Downloader->GetReleasedFirmware(info.FwSignature, ReleaseSuite);
             bootloader.Endpoint,
             true,
             info.CanPreservePortSettings);
@@ -195,17 +200,22 @@ void TFwUpdateSerialClientTask::DoFlash(TPort& port,
     updateInfo.ComponentModel = componentModel;
     State->Update(updateInfo);
 
-    // Download and parse firmware file
-    auto firmware = Downloader->DownloadAndParseWBFW(fwUrl);
-
-    // Flash with throttled progress updates
-    TUpdateNotifier notifier(30);
-    FlashFirmware(traits, port, SlaveId, firmware, reboot, canPreserve, [&](int percent) {
-        if (notifier.ShouldNotify(percent)) {
-            updateInfo.Progress = percent;
-            State->Update(updateInfo);
-        }
-    });
+    try {
+        // Download and parse firmware file
+        auto firmware = Downloader->DownloadAndParseWBFW(fwUrl);
+
+        // Flash with throttled progress updates
+        TUpdateNotifier notifier(30);
+        FlashFirmware(traits, port, SlaveId, firmware, reboot, canPreserve, [&](int percent) {
+            if (notifier.ShouldNotify(percent)) {
+                updateInfo.Progress = percent;
+                State->Update(updateInfo);
+            }
+        });
+    } catch (const std::exception& e) {
+        SetError(type, e);
+        throw;
+    }
 
     // Success — remove from state
     State->Remove(SlaveId, PortPath, type);
diff --git a/src/rpc/rpc_fw_update_serial_client_task.h b/src/rpc/rpc_fw_update_serial_client_task.h
index 27d8b61..e7887b8 100644
--- a/src/rpc/rpc_fw_update_serial_client_task.h
+++ b/src/rpc/rpc_fw_update_serial_client_task.h
@@ -40,6 +40,7 @@ private:
                  bool canPreserve,
                  int componentNumber = -1,
                  const std::string& componentModel = "");
+    void SetError(const std::string& type, const std::exception& e);
 
     uint8_t SlaveId;
     std::string Protocol;
-- 
2.43.0


From 2fab68cebf595047dd83cbf678a8e8e9e91e803e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:26 +0000
Subject: [PATCH 69/87] fix: RPC slave id, address and function code are
 checked against their range instead of truncated

---
 src/rpc/rpc_device_probe_task.cpp                   | 2 +-
 src/rpc/rpc_port_load_modbus_serial_client_task.cpp | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rpc/rpc_device_probe_task.cpp b/src/rpc/rpc_device_probe_task.cpp
index c496dde..f660f7d 100644
--- a/src/rpc/rpc_device_probe_task.cpp
+++ b/src/rpc/rpc_device_probe_task.cpp
@@ -8,7 +8,7 @@
 
 template<> bool inline WBMQTT::JSON::Is<uint8_t>(const Json::Value& value)
 {
-    return value.isUInt();
+    return value.isUInt() && value.asUInt() <= 0xFF;
 }
 
 template<> inline uint8_t WBMQTT::JSON::As<uint8_t>(const Json::Value& value)
diff --git a/src/rpc/rpc_port_load_modbus_serial_client_task.cpp b/src/rpc/rpc_port_load_modbus_serial_client_task.cpp
index 97b4ecc..443ae9f 100644
--- a/src/rpc/rpc_port_load_modbus_serial_client_task.cpp
+++ b/src/rpc/rpc_port_load_modbus_serial_client_task.cpp
@@ -7,7 +7,7 @@
 
 template<> bool inline WBMQTT::JSON::Is<uint8_t>(const Json::Value& value)
 {
-    return value.isUInt();
+    return value.isUInt() && value.asUInt() <= 0xFF;
 }
 
 template<> inline uint8_t WBMQTT::JSON::As<uint8_t>(const Json::Value& value)
@@ -17,7 +17,7 @@ template<> inline uint8_t WBMQTT::JSON::As<uint8_t>(const Json::Value& value)
 
 template<> bool inline WBMQTT::JSON::Is<uint16_t>(const Json::Value& value)
 {
-    return value.isUInt();
+    return value.isUInt() && value.asUInt() <= 0xFFFF;
 }
 
 template<> inline uint16_t WBMQTT::JSON::As<uint16_t>(const Json::Value& value)
@@ -31,7 +31,7 @@ template<> bool inline WBMQTT::JSON::Is<Modbus::EFunction>(const Json::Value& va
         return false;
     }
     auto fun = value.asUInt();
-    return Modbus::IsSupportedFunction(fun & 0xFF);
+    return fun <= 0xFF && Modbus::IsSupportedFunction(fun);
 }
 
 template<> inline Modbus::EFunction WBMQTT::JSON::As<Modbus::EFunction>(const Json::Value& value)
-- 
2.43.0


From 7d1abd0371b500b1d8ca31cc60f3239ac410ddf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:26 +0000
Subject: [PATCH 70/87] fix: port/Load in Modbus mode drops cached parameters
 before the write and reports one answer

---
 ...pc_port_load_modbus_serial_client_task.cpp | 25 +++++++++++--------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/rpc/rpc_port_load_modbus_serial_client_task.cpp b/src/rpc/rpc_port_load_modbus_serial_client_task.cpp
index 443ae9f..79a6979 100644
--- a/src/rpc/rpc_port_load_modbus_serial_client_task.cpp
+++ b/src/rpc/rpc_port_load_modbus_serial_client_task.cpp
@@ -83,6 +83,17 @@ void ExecRPCPortLoadModbusRequest(TPort& port, PRPCPortLoadModbusRequest rpcRequ
                                    rpcRequest->WriteCount,
                                    rpcRequest->Message);
 
+        if (rpcRequest->Function == Modbus::EFunction::FN_WRITE_SINGLE_COIL ||
+            rpcRequest->Function == Modbus::EFunction::FN_WRITE_SINGLE_REGISTER ||
+            rpcRequest->Function == Modbus::EFunction::FN_WRITE_MULTIPLE_COILS ||
+            rpcRequest->Function == Modbus::EFunction::FN_WRITE_MULTIPLE_REGISTERS ||
+            rpcRequest->Function == Modbus::EFunction::FN_READ_WRITE_MULTIPLE_REGISTERS)
+        {
+            // the device can execute the write even if its answer is lost
+            std::string id = rpcRequest->ParametersCache.GetId(port, std::to_string(rpcRequest->SlaveId));
+            rpcRequest->ParametersCache.Remove(id);
+        }
+
         auto responsePduSize = Modbus::CalcResponsePDUSize(rpcRequest->Function, rpcRequest->Count);
         auto res = traits->Transaction(port,
                                        rpcRequest->SlaveId,
@@ -97,21 +108,13 @@ void ExecRPCPortLoadModbusRequest(TPort& port, PRPCPortLoadModbusRequest rpcRequ
             replyJSON["response"] = FormatResponse(response, rpcRequest->Format);
             rpcRequest->OnResult(replyJSON);
         }
-
-        if (rpcRequest->Function == Modbus::EFunction::FN_WRITE_SINGLE_COIL ||
-            rpcRequest->Function == Modbus::EFunction::FN_WRITE_SINGLE_REGISTER ||
-            rpcRequest->Function == Modbus::EFunction::FN_WRITE_MULTIPLE_COILS ||
-            rpcRequest->Function == Modbus::EFunction::FN_WRITE_MULTIPLE_REGISTERS ||
-            rpcRequest->Function == Modbus::EFunction::FN_READ_WRITE_MULTIPLE_REGISTERS)
-        {
-            std::string id = rpcRequest->ParametersCache.GetId(port, std::to_string(rpcRequest->SlaveId));
-            rpcRequest->ParametersCache.Remove(id);
-        }
     } catch (const Modbus::TModbusExceptionError& error) {
         Json::Value replyJSON;
         replyJSON["exception"]["code"] = error.GetExceptionCode();
         replyJSON["exception"]["msg"] = error.what();
-        rpcRequest->OnResult(replyJSON);
+        if (rpcRequest->OnResult) {
+            rpcRequest->OnResult(replyJSON);
+        }
     } catch (const TResponseTimeoutException& error) {
         if (rpcRequest->OnError) {
             rpcRequest->OnError(WBMQTT::E_RPC_REQUEST_TIMEOUT, error.what());
-- 
2.43.0


From 0a616e2155cf9e3793ea4484f3b36e7fda5482dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:26 +0000
Subject: [PATCH 71/87] fix: port/Load refuses a hex message with characters
 that are not hex digits

---
 src/rpc/rpc_port_load_request.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/rpc/rpc_port_load_request.cpp b/src/rpc/rpc_port_load_request.cpp
index 04e432d..dc4eb1c 100644
--- a/src/rpc/rpc_port_load_request.cpp
+++ b/src/rpc/rpc_port_load_request.cpp
@@ -1,6 +1,9 @@
 #include "rpc_port_load_request.h"
 #include "rpc_helpers.h"
 
+#include <algorithm>
+#include <cctype>
+
 namespace
 {
     std::string ByteVectorToHexString(const std::vector<uint8_t>& byteVector)
@@ -23,6 +26,10 @@ std::vector<uint8_t> HexStringToByteVector(const std::string& hexString)
         throw std::runtime_error("Hex message has odd char count");
     }
 
+    if (!std::all_of(hexString.begin(), hexString.end(), [](unsigned char c) { return std::isxdigit(c); })) {
+        throw std::runtime_error("Hex message has non-hexadecimal characters");
+    }
+
     for (size_t i = 0; i < hexString.size(); i += 2) {
         auto byte = strtol(hexString.substr(i, 2).c_str(), NULL, 16);
         byteVector.push_back(byte);
-- 
2.43.0


From 6f78919876fed8a16a2345ce9be791a277f7e8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:26 +0000
Subject: [PATCH 72/87] fix: RPC to a configured device with a hexadecimal
 slave id used address 0 (broadcast)

---
 src/rpc/rpc_device_handler.cpp | 13 ++++++++++++-
 src/rpc/rpc_helpers.cpp        |  4 ++--
 src/rpc/rpc_port_handler.cpp   |  2 +-
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/rpc/rpc_device_handler.cpp b/src/rpc/rpc_device_handler.cpp
index 1a80ee0..34291aa 100644
--- a/src/rpc/rpc_device_handler.cpp
+++ b/src/rpc/rpc_device_handler.cpp
@@ -23,7 +23,18 @@ void TRPCDeviceParametersCache::RegisterCallbacks(PHandlerConfig handlerConfig)
 
 std::string TRPCDeviceParametersCache::GetId(const TPort& port, const std::string& slaveId) const
 {
-    return port.GetDescription(false) + ":" + slaveId;
+    std::string id = slaveId;
+    try {
+        // the same address can be written in decimal and in hexadecimal
+        size_t pos = 0;
+        auto number = std::stoul(slaveId, &pos, 0);
+        if (pos == slaveId.size()) {
+            id = std::to_string(number);
+        }
+    } catch (const std::logic_error& e) {
+        // not a number
+    }
+    return port.GetDescription(false) + ":" + id;
 }
 
 void TRPCDeviceParametersCache::Add(const std::string& id, const Json::Value& value)
diff --git a/src/rpc/rpc_helpers.cpp b/src/rpc/rpc_helpers.cpp
index df0f4da..304cf48 100644
--- a/src/rpc/rpc_helpers.cpp
+++ b/src/rpc/rpc_helpers.cpp
@@ -48,7 +48,7 @@ Json::Value LoadRPCRequestSchema(const std::string& schemaFilePath, const std::s
 
 void ReadModbusRegister(TPort& port, TRPCDeviceRequest& request, PRegisterConfig registerConfig, TRegisterValue& value)
 {
-    auto slaveId = static_cast<uint8_t>(std::stoi(request.Device->DeviceConfig()->SlaveId));
+    auto slaveId = static_cast<uint8_t>(TUInt32SlaveId(request.Device->DeviceConfig()->SlaveId).SlaveId);
     auto traits = MakeModbusTraits(request.ProtocolParams.protocol->GetName());
     for (int i = 0; i <= MAX_RPC_RETRIES; ++i) {
         try {
@@ -87,7 +87,7 @@ void WriteModbusRegister(TPort& port,
                          PRegisterConfig registerConfig,
                          const TRegisterValue& value)
 {
-    auto slaveId = static_cast<uint8_t>(std::stoi(request.Device->DeviceConfig()->SlaveId));
+    auto slaveId = static_cast<uint8_t>(TUInt32SlaveId(request.Device->DeviceConfig()->SlaveId).SlaveId);
     auto traits = MakeModbusTraits(request.ProtocolParams.protocol->GetName());
     Modbus::TRegisterCache cache;
     for (int i = 0; i <= MAX_RPC_RETRIES; ++i) {
diff --git a/src/rpc/rpc_port_handler.cpp b/src/rpc/rpc_port_handler.cpp
index 8ff6f28..651072b 100644
--- a/src/rpc/rpc_port_handler.cpp
+++ b/src/rpc/rpc_port_handler.cpp
@@ -61,7 +61,7 @@ void TRPCPortHandler::PortLoad(const Json::Value& request,
             rpcRequest->OnResult = onResult;
             rpcRequest->OnError = onError;
             if (clientParams.Device) {
-                rpcRequest->SlaveId = std::stoul(clientParams.Device->DeviceConfig()->SlaveId);
+                rpcRequest->SlaveId = TUInt32SlaveId(clientParams.Device->DeviceConfig()->SlaveId).SlaveId;
                 rpcRequest->Protocol = protocol;
             }
             SerialClientTaskRunner.RunTask(request, std::make_shared<TRPCPortLoadModbusSerialClientTask>(rpcRequest));
-- 
2.43.0


From 9ba0bf6330d95a84b820525de615791a68938d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:27 +0000
Subject: [PATCH 73/87] fix: port/Setup refuses a slave id outside 0..255
 instead of truncating it

---
 src/rpc/rpc_port_setup_serial_client_task.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rpc/rpc_port_setup_serial_client_task.cpp b/src/rpc/rpc_port_setup_serial_client_task.cpp
index 35d5eba..a5fb147 100644
--- a/src/rpc/rpc_port_setup_serial_client_task.cpp
+++ b/src/rpc/rpc_port_setup_serial_client_task.cpp
@@ -11,7 +11,11 @@ namespace
     {
         TRPCPortSetupRequestItem res;
 
-        res.SlaveId = request["slave_id"].asUInt();
+        const auto& slaveId = request["slave_id"];
+        if (!slaveId.isNull() && (!slaveId.isUInt() || slaveId.asUInt() > 0xFF)) {
+            throw std::runtime_error("slave_id must be in range 0..255");
+        }
+        res.SlaveId = slaveId.asUInt();
 
         if (request.isMember("sn")) {
             res.Sn = request["sn"].asUInt();
-- 
2.43.0


From e0a4877ac76200ac19397b9c0706c49e1e621397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:54 +0000
Subject: [PATCH 74/87] fix: one definition of the uint8_t JSON check in all
 RPC requests

---
 src/rpc/rpc_device_load_config_task.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rpc/rpc_device_load_config_task.h b/src/rpc/rpc_device_load_config_task.h
index 3a59419..19ff3f7 100644
--- a/src/rpc/rpc_device_load_config_task.h
+++ b/src/rpc/rpc_device_load_config_task.h
@@ -3,7 +3,7 @@
 
 template<> bool inline WBMQTT::JSON::Is<uint8_t>(const Json::Value& value)
 {
-    return value.isUInt();
+    return value.isUInt() && value.asUInt() <= 0xFF;
 }
 
 template<> inline uint8_t WBMQTT::JSON::As<uint8_t>(const Json::Value& value)
-- 
2.43.0


From ef91377de1ae103fdb3a50f8e276132c4cb89d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:54 +0000
Subject: [PATCH 75/87] fix: device/Set without channels and parameters is
 answered once

---
 src/rpc/rpc_device_set_task.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rpc/rpc_device_set_task.cpp b/src/rpc/rpc_device_set_task.cpp
index 611b3a4..9716fcc 100644
--- a/src/rpc/rpc_device_set_task.cpp
+++ b/src/rpc/rpc_device_set_task.cpp
@@ -17,6 +17,7 @@ namespace
         rpcRequest->GetParametersSetupItems(setupItems);
         if (setupItems.empty()) {
             rpcRequest->OnResult(Json::Value(Json::objectValue));
+            return;
         }
 
         std::string error;
-- 
2.43.0


From 7a02303be67cb573e5d48f295e9721a221b9b869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:12 +0000
Subject: [PATCH 76/87] fix: device/Set writes all items of a device with
 preserve_setup_order

---
 src/rpc/rpc_device_set_task.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/rpc/rpc_device_set_task.cpp b/src/rpc/rpc_device_set_task.cpp
index 9716fcc..090992b 100644
--- a/src/rpc/rpc_device_set_task.cpp
+++ b/src/rpc/rpc_device_set_task.cpp
@@ -6,6 +6,13 @@
 
 namespace
 {
+    void AddSetupItem(TDeviceSetupItems& setupItems, PDeviceSetupItem item)
+    {
+        // items of a device that preserves their order are the same if they have the same order
+        item->Order = setupItems.size();
+        setupItems.insert(item);
+    }
+
     void ExecRPCRequest(PPort port, PRPCDeviceSetRequest rpcRequest)
     {
         if (!rpcRequest->OnResult) {
@@ -74,7 +81,7 @@ void TRPCDeviceSetRequest::GetChannelsSetupItems(TDeviceSetupItems& setupItems)
         }
         auto id = item["name"].asString();
         if (Channels.count(id)) {
-            setupItems.insert(CreateSetupItem(id, item, Channels[id]));
+            AddSetupItem(setupItems, CreateSetupItem(id, item, Channels[id]));
             Channels.erase(id);
         }
     }
@@ -95,7 +102,7 @@ void TRPCDeviceSetRequest::GetParametersSetupItems(TDeviceSetupItems& setupItems
         }
         auto id = params.isObject() ? it.key().asString() : item["id"].asString();
         if (Parameters.count(id)) {
-            setupItems.insert(CreateSetupItem(id, item, Parameters[id]));
+            AddSetupItem(setupItems, CreateSetupItem(id, item, Parameters[id]));
             Parameters.erase(id);
         }
     }
-- 
2.43.0


From b71fe3d6c80add0db89c7b44671e853ba1d316ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:13 +0000
Subject: [PATCH 77/87] fix: device/Set drops cached parameters of the device

---
 src/rpc/rpc_device_handler.cpp  | 1 +
 src/rpc/rpc_device_set_task.cpp | 5 +++++
 src/rpc/rpc_device_set_task.h   | 1 +
 3 files changed, 7 insertions(+)

diff --git a/src/rpc/rpc_device_handler.cpp b/src/rpc/rpc_device_handler.cpp
index 34291aa..9e555c7 100644
--- a/src/rpc/rpc_device_handler.cpp
+++ b/src/rpc/rpc_device_handler.cpp
@@ -238,6 +238,7 @@ void TRPCDeviceHandler::Set(const Json::Value& request,
                                                    helper.DeviceFromConfig,
                                                    onResult,
                                                    onError);
+        rpcRequest->ParametersCache = &ParametersCache;
         SerialClientTaskRunner.RunTask(request, std::make_shared<TRPCDeviceSetSerialClientTask>(rpcRequest));
     } catch (const TRPCException& e) {
         ProcessException(e, onError);
diff --git a/src/rpc/rpc_device_set_task.cpp b/src/rpc/rpc_device_set_task.cpp
index 090992b..2e2428f 100644
--- a/src/rpc/rpc_device_set_task.cpp
+++ b/src/rpc/rpc_device_set_task.cpp
@@ -36,6 +36,11 @@ namespace
             throw TRPCException(error, TRPCResultCode::RPC_WRONG_PARAM_VALUE);
         }
 
+        if (rpcRequest->ParametersCache) {
+            rpcRequest->ParametersCache->Remove(
+                rpcRequest->ParametersCache->GetId(*port, rpcRequest->Device->DeviceConfig()->SlaveId));
+        }
+
         try {
             rpcRequest->Device->WriteSetupRegisters(*port, setupItems, true);
         } catch (const TSerialDeviceException& e) {
diff --git a/src/rpc/rpc_device_set_task.h b/src/rpc/rpc_device_set_task.h
index ec10747..c14f764 100644
--- a/src/rpc/rpc_device_set_task.h
+++ b/src/rpc/rpc_device_set_task.h
@@ -11,6 +11,7 @@ public:
 
     std::unordered_map<std::string, std::string> Channels;
     std::unordered_map<std::string, std::string> Parameters;
+    TRPCDeviceParametersCache* ParametersCache = nullptr;
 
     void ParseRequestItems(const Json::Value& items, std::unordered_map<std::string, std::string>& map);
 
-- 
2.43.0


From 0597e283865ab4eb4dd6b0ce5ed4011207fd5c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:13 +0000
Subject: [PATCH 78/87] fix: one unsupported register does not make its whole
 range unsupported in RPC requests

---
 src/rpc/rpc_device_handler.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/rpc/rpc_device_handler.cpp b/src/rpc/rpc_device_handler.cpp
index 9e555c7..50f1c66 100644
--- a/src/rpc/rpc_device_handler.cpp
+++ b/src/rpc/rpc_device_handler.cpp
@@ -368,11 +368,15 @@ void ReadRegisterList(TPort& port, PSerialDevice device, TRPCRegisterList& regis
     });
 
     size_t index = 0;
+    size_t oneByOneEnd = 0;
     std::string error;
     while (index < registerList.size() && error.empty()) {
+        auto firstIndex = index;
         auto first = registerList[index].Register;
+        // an attempt to read a range could mark its registers as unavailable
+        first->SetAvailable(TRegisterAvailability::AVAILABLE);
         auto range = device->CreateRegisterRange();
-        while (index < registerList.size() &&
+        while (index < registerList.size() && (index == firstIndex || firstIndex >= oneByOneEnd) &&
                range->Add(port, registerList[index].Register, std::chrono::milliseconds::max()))
         {
             ++index;
@@ -385,6 +389,12 @@ void ReadRegisterList(TPort& port, PSerialDevice device, TRPCRegisterList& regis
                 LOG(Warn) << port.GetDescription() << " " << device->ToString() << ": "
                           << "Failed to read " << std::to_string(range->RegisterList().size())
                           << " registers starting from <" << first->GetConfig()->ToString() + ">: " + e.what();
+                if (range->RegisterList().size() > 1) {
+                    // find out which of the registers are not supported
+                    oneByOneEnd = index;
+                    index = firstIndex;
+                    break;
+                }
                 auto modbusDevice = dynamic_cast<TModbusDevice*>(device.get());
                 if (modbusDevice != nullptr && !modbusDevice->GetContinuousReadEnabled()) {
                     for (const auto& reg: range->RegisterList()) {
-- 
2.43.0


From e7d62a62b465f576c24cba6cc6f5a9442418c899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:13 +0000
Subject: [PATCH 79/87] fix: answers of RPC requests keep texts as texts and
 exponents of numbers

---
 src/rpc/rpc_device_handler.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/rpc/rpc_device_handler.cpp b/src/rpc/rpc_device_handler.cpp
index 50f1c66..55dc5c0 100644
--- a/src/rpc/rpc_device_handler.cpp
+++ b/src/rpc/rpc_device_handler.cpp
@@ -426,8 +426,12 @@ void ReadRegisterList(TPort& port, PSerialDevice device, TRPCRegisterList& regis
 Json::Value RawValueToJSON(const TRegisterConfig& reg, TRegisterValue val)
 {
     auto str = ConvertFromRawValue(reg, val);
+    // texts and special floating point values (nan, inf) are not numbers
+    if (reg.IsString() || reg.Format == Char8 || str.find_first_not_of("+-.0123456789eE") != std::string::npos) {
+        return str;
+    }
     try {
-        if (str.find('.') == std::string::npos) {
+        if (str.find_first_of(".eE") == std::string::npos) {
             if (str.at(0) == '-') {
                 return static_cast<Json::Int64>(std::stoll(str.c_str(), 0));
             }
@@ -439,7 +443,7 @@ Json::Value RawValueToJSON(const TRegisterConfig& reg, TRegisterValue val)
             return static_cast<Json::UInt64>(value);
         }
         return std::stod(str.c_str(), 0);
-    } catch (const std::invalid_argument&) {
+    } catch (const std::logic_error&) {
         return str;
     }
 }
-- 
2.43.0


From be7772431710b0c8cdaec91507eb477ad7bee1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:13 +0000
Subject: [PATCH 80/87] fix: device/Load answers parameters read for conditions
 and applies conditions if none could be read

---
 src/rpc/rpc_device_load_task.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/rpc/rpc_device_load_task.cpp b/src/rpc/rpc_device_load_task.cpp
index adeabcb..60466ab 100644
--- a/src/rpc/rpc_device_load_task.cpp
+++ b/src/rpc/rpc_device_load_task.cpp
@@ -34,15 +34,10 @@ namespace
 
         // Step 1: Read parameters that are referenced by channel conditions
         Json::Value conditionParamValues(Json::objectValue);
+        Json::Value readonlyConditionParams(Json::arrayValue);
         auto condParamRegList = rpcRequest->GetConditionParametersRegisterList();
         if (!condParamRegList.empty()) {
-            ReadRegisterList(*port, rpcRequest->Device, condParamRegList);
-            for (const auto& item: condParamRegList) {
-                if (item.Register->IsSupported()) {
-                    conditionParamValues[item.Id] =
-                        RawValueToJSON(*item.Register->GetConfig(), item.Register->GetValue());
-                }
-            }
+            ReadRegisters(port, rpcRequest, condParamRegList, conditionParamValues, readonlyConditionParams);
         }
 
         // Step 2: Read channels, filtering by condition using actual parameter values
@@ -63,9 +58,16 @@ namespace
                 paramData[id] = conditionParamValues[id];
             }
         }
+        for (const auto& id: readonlyConditionParams) {
+            if (paramData.isMember(id.asString())) {
+                readonlyList.append(id);
+            }
+        }
         auto paramRegList = rpcRequest->GetParametersRegisterList(conditionParamValues);
         if (!paramRegList.empty()) {
             ReadRegisters(port, rpcRequest, paramRegList, paramData, readonlyList);
+        }
+        if (!paramData.empty()) {
             result["parameters"] = paramData;
         }
 
@@ -168,7 +170,7 @@ TRPCRegisterList TRPCDeviceLoadRequest::GetChannelsRegisterList(const Json::Valu
     }
 
     // Filter channels by condition using actual device parameter values
-    if (!conditionParams.empty()) {
+    if (!conditionParams.isNull()) {
         TJsonParams jsonParams(conditionParams);
         Expressions::TExpressionsCache cache;
         Json::Value filtered(Json::arrayValue);
-- 
2.43.0


From 03106cd087076ef4c31dcf806f9f85772daa023d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:13 +0000
Subject: [PATCH 81/87] fix: fall back to the short model register on any error
 of the extended one

---
 src/rpc/rpc_device_load_config_task.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rpc/rpc_device_load_config_task.cpp b/src/rpc/rpc_device_load_config_task.cpp
index 3d4ba52..a5a4613 100644
--- a/src/rpc/rpc_device_load_config_task.cpp
+++ b/src/rpc/rpc_device_load_config_task.cpp
@@ -30,7 +30,7 @@ namespace
     {
         try {
             return ReadWbRegister(port, rpcRequest, WbRegisters::DEVICE_MODEL_EX_REGISTER_NAME);
-        } catch (const Modbus::TErrorBase& err) {
+        } catch (const TRPCException& err) {
             return ReadWbRegister(port, rpcRequest, WbRegisters::DEVICE_MODEL_REGISTER_NAME);
         }
     }
-- 
2.43.0


From bb3edb96f353d7729163c7392c3f55f9f1dddb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:13 +0000
Subject: [PATCH 82/87] fix: device/LoadConfig takes settings only from the
 same port of the configuration

---
 src/rpc/rpc_device_load_config_task.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/rpc/rpc_device_load_config_task.cpp b/src/rpc/rpc_device_load_config_task.cpp
index a5a4613..011325b 100644
--- a/src/rpc/rpc_device_load_config_task.cpp
+++ b/src/rpc/rpc_device_load_config_task.cpp
@@ -38,8 +38,14 @@ namespace
     void LoadConfigParameters(PPort port, PRPCDeviceLoadConfigRequest rpcRequest, Json::Value& parameters)
     {
         Json::Value config(WBMQTT::JSON::Parse(rpcRequest->ConfigFileName));
-        for (const auto& port: config["ports"]) {
-            for (auto cfg: port["devices"]) {
+        for (const auto& portConfig: config["ports"]) {
+            auto description = portConfig.isMember("path")
+                                   ? portConfig["path"].asString()
+                                   : portConfig["address"].asString() + ":" + portConfig["port"].asString();
+            if (description != port->GetDescription(false)) {
+                continue;
+            }
+            for (auto cfg: portConfig["devices"]) {
                 const auto& dev = rpcRequest->Device->DeviceConfig();
                 if (cfg["device_type"].asString() == dev->DeviceType && cfg["slave_id"].asString() == dev->SlaveId) {
                     cfg.removeMember("channels");
-- 
2.43.0


From 8b243f9b218bd54c846be8742212719d22236203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:13 +0000
Subject: [PATCH 83/87] fix: device/LoadConfig reads the firmware version if it
 is not known yet

---
 src/rpc/rpc_device_load_config_task.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rpc/rpc_device_load_config_task.cpp b/src/rpc/rpc_device_load_config_task.cpp
index 011325b..2f29b75 100644
--- a/src/rpc/rpc_device_load_config_task.cpp
+++ b/src/rpc/rpc_device_load_config_task.cpp
@@ -60,6 +60,11 @@ namespace
 
     void CheckTemplate(PPort port, PRPCDeviceLoadConfigRequest rpcRequest, std::string& model)
     {
+        if (rpcRequest->Device->GetWbFwVersion().empty()) {
+            // it was not possible to read the version when the connection was established
+            rpcRequest->Device->SetWbFwVersion(
+                ReadWbRegister(*port, rpcRequest, WbRegisters::FW_VERSION_REGISTER_NAME));
+        }
         const auto& version = rpcRequest->Device->GetWbFwVersion();
         if (model.empty()) {
             model = ReadDeviceModel(*port, rpcRequest);
-- 
2.43.0


From 108b897e283e5e088f95a5066e53135b7862dfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:13 +0000
Subject: [PATCH 84/87] fix: writes of RPC requests are retried after
 communication errors

---
 src/rpc/rpc_helpers.cpp | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/src/rpc/rpc_helpers.cpp b/src/rpc/rpc_helpers.cpp
index 304cf48..fd5e6d2 100644
--- a/src/rpc/rpc_helpers.cpp
+++ b/src/rpc/rpc_helpers.cpp
@@ -102,21 +102,9 @@ void WriteModbusRegister(TPort& port,
                                   request.ResponseTimeout,
                                   request.FrameTimeout);
             return;
-        } catch (const Modbus::TModbusExceptionError& err) {
-            if (err.GetExceptionCode() == Modbus::ILLEGAL_FUNCTION ||
-                err.GetExceptionCode() == Modbus::ILLEGAL_DATA_ADDRESS ||
-                err.GetExceptionCode() == Modbus::ILLEGAL_DATA_VALUE)
-            {
-                throw;
-            }
-            if (i == MAX_RPC_RETRIES) {
-                throw;
-            }
-        } catch (const Modbus::TErrorBase& err) {
-            if (i == MAX_RPC_RETRIES) {
-                throw;
-            }
-        } catch (const TResponseTimeoutException& e) {
+        } catch (const TSerialDevicePermanentRegisterException& err) {
+            throw;
+        } catch (const TSerialDeviceException& err) {
             if (i == MAX_RPC_RETRIES) {
                 throw;
             }
-- 
2.43.0


From bfb5670bc781ef5a9f53be0215a3797aa4747cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:13 +0000
Subject: [PATCH 85/87] fix: refused continuous read does not fail a request
 and is restored after a failed check

---
 src/rpc/rpc_helpers.cpp | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/rpc/rpc_helpers.cpp b/src/rpc/rpc_helpers.cpp
index fd5e6d2..45ef5d2 100644
--- a/src/rpc/rpc_helpers.cpp
+++ b/src/rpc/rpc_helpers.cpp
@@ -114,18 +114,13 @@ void WriteModbusRegister(TPort& port,
 
 void SetContinuousRead(TPort& port, TRPCDeviceRequest& request, bool enabled)
 {
-    std::string error;
     try {
         auto config = WbRegisters::GetRegisterConfig(WbRegisters::CONTINUOUS_READ_REGISTER_NAME);
         WriteModbusRegister(port, request, config, TRegisterValue(enabled));
-    } catch (const Modbus::TErrorBase& err) {
-        error = err.what();
-    } catch (const TResponseTimeoutException& e) {
-        error = e.what();
-    }
-    if (!error.empty()) {
+    } catch (const TSerialDevicePermanentRegisterException& err) {
+        // the device does not have continuous read
         LOG(Warn) << port.GetDescription() << " modbus:" << request.Device->DeviceConfig()->SlaveId
-                  << " unable to write \"" << WbRegisters::CONTINUOUS_READ_REGISTER_NAME << "\" register: " << error;
+                  << " unable to write \"" << WbRegisters::CONTINUOUS_READ_REGISTER_NAME << "\" register: " << err.what();
     }
 }
 
@@ -167,13 +162,14 @@ void MarkUnsupportedRegisterItems(TPort& port,
                                   Json::Value& data)
 {
     auto continuousRead = true;
+    std::exception_ptr error;
     for (const auto& item: registerList) {
         try {
             if (item.CheckUnsupported && CheckUnsupportedValue(*item.Register->GetConfig(), item.Register->GetValue()))
             {
                 if (continuousRead) {
-                    SetContinuousRead(port, request, false);
                     continuousRead = false;
+                    SetContinuousRead(port, request, false);
                 }
                 try {
                     TRegisterValue value;
@@ -183,9 +179,21 @@ void MarkUnsupportedRegisterItems(TPort& port,
                 }
             }
         } catch (const TRegisterValueException& e) {
+        } catch (const std::exception& e) {
+            error = std::current_exception();
+            break;
         }
     }
+    // continuous read must be restored even if the check has failed
     if (!continuousRead) {
-        SetContinuousRead(port, request, true);
+        try {
+            SetContinuousRead(port, request, true);
+        } catch (const TSerialDeviceException& e) {
+            LOG(Warn) << port.GetDescription() << " modbus:" << request.Device->DeviceConfig()->SlaveId
+                      << " unable to restore continuous read: " << e.what();
+        }
+    }
+    if (error) {
+        std::rethrow_exception(error);
     }
 }
-- 
2.43.0


From f88c0dec36b31243a5786010cc8e4103e364df92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:10 +0000
Subject: [PATCH 86/87] fix: a template that can not be loaded after an upload
 does not replace the old one

---
 src/rpc/rpc_templates_handler.cpp | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/rpc/rpc_templates_handler.cpp b/src/rpc/rpc_templates_handler.cpp
index 442e380..1443a96 100644
--- a/src/rpc/rpc_templates_handler.cpp
+++ b/src/rpc/rpc_templates_handler.cpp
@@ -4,6 +4,8 @@
 
 #include <filesystem>
 #include <fstream>
+#include <optional>
+#include <sstream>
 
 #include <wblib/utils.h>
 
@@ -77,6 +79,17 @@ namespace
         return count;
     }
 
+    std::optional<std::string> ReadFile(const std::string& path)
+    {
+        std::ifstream file(path);
+        if (!file.is_open()) {
+            return std::nullopt;
+        }
+        std::stringstream content;
+        content << file.rdbuf();
+        return content.str();
+    }
+
     void WriteFileAtomically(const std::filesystem::path& path, const std::string& content)
     {
         auto tmpPath = path.string() + ".tmp";
@@ -187,6 +200,10 @@ Json::Value TRPCTemplatesHandler::UploadTemplate(const Json::Value& request)
 
     std::error_code ec;
     std::filesystem::create_directories(UserTemplatesDir, ec);
+    std::optional<std::string> oldContent;
+    if (finalPath.string() == oldPath) {
+        oldContent = ReadFile(oldPath);
+    }
     WriteFileAtomically(finalPath, content);
 
     try {
@@ -194,10 +211,15 @@ Json::Value TRPCTemplatesHandler::UploadTemplate(const Json::Value& request)
             DeviceConfedSchemas.InvalidateCache(type);
         }
     } catch (const std::exception& e) {
-        std::error_code removeEc;
-        std::filesystem::remove(finalPath, removeEc);
-        LOG(Warn) << "[templates] failed to load uploaded template, file " << finalPath.string()
-                  << " is removed: " << e.what();
+        LOG(Warn) << "[templates] failed to load uploaded template, file " << finalPath.string() << " is "
+                  << (oldContent ? "restored: " : "removed: ") << e.what();
+        if (oldContent) {
+            WriteFileAtomically(finalPath, *oldContent);
+            Templates->UpdateTemplate(finalPath.string());
+        } else {
+            std::error_code removeEc;
+            std::filesystem::remove(finalPath, removeEc);
+        }
         throw TRPCException(e.what(), TRPCResultCode::RPC_WRONG_PARAM_VALUE);
     }
 
-- 
2.43.0


From a490ddb3506d2180dc4646baa1ea1c27e4034740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:46 +0000
Subject: [PATCH 87/87] fix: Mercury 230: use the configured response timeout

---
 src/devices/mercury230_device.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/devices/mercury230_device.cpp b/src/devices/mercury230_device.cpp
index 71341c0..ad2aa38 100644
--- a/src/devices/mercury230_device.cpp
+++ b/src/devices/mercury230_device.cpp
@@ -224,5 +224,5 @@ std::chrono::milliseconds TMercury230Device::GetResponseTimeout(TPort& port) con
     auto timeout = std::max(minTimeout,
                             std::chrono::milliseconds(115) +
                                 std::chrono::ceil<std::chrono::milliseconds>(port.GetSendTimeBytes(35)));
-    return std::max(DeviceConfig()->FrameTimeout, timeout);
+    return std::max(DeviceConfig()->ResponseTimeout, timeout);
 }
-- 
2.43.0

