From d95c7e827cf978f832a4987c0c9b2bad43fe5829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:46 +0000
Subject: [PATCH 01/15] fix: report every Modbus exception PDU as an error,
 code 0 included

---
 src/modbus_base.cpp | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/src/modbus_base.cpp b/src/modbus_base.cpp
index 591460f..76acd7c 100644
--- a/src/modbus_base.cpp
+++ b/src/modbus_base.cpp
@@ -38,15 +38,6 @@ namespace
         return "invalid modbus error code (" + std::to_string(code + 1) + ")";
     }
 
-    // throws C++ exception on modbus error code
-    void ThrowIfModbusException(uint8_t code)
-    {
-        if (code == 0) {
-            return;
-        }
-        throw Modbus::TModbusExceptionError(code);
-    }
-
     bool IsWriteFunction(Modbus::EFunction function)
     {
         return function == Modbus::EFunction::FN_WRITE_MULTIPLE_COILS ||
@@ -421,7 +412,7 @@ std::vector<uint8_t> Modbus::ExtractResponseData(EFunction requestFunction, cons
     }
 
     if (IsException(pdu[0])) {
-        ThrowIfModbusException(pdu[1]);
+        throw Modbus::TModbusExceptionError(pdu[1]);
     }
 
     auto function = GetFunction(functionCode);
-- 
2.43.0


From 75745cd4a8ebdf363e35364eaf6026dfbde78963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:46 +0000
Subject: [PATCH 02/15] fix: refuse Modbus write requests whose data doesn't
 fit the byte count field

---
 src/modbus_base.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/modbus_base.cpp b/src/modbus_base.cpp
index 76acd7c..3c0a627 100644
--- a/src/modbus_base.cpp
+++ b/src/modbus_base.cpp
@@ -11,6 +11,9 @@ namespace
 {
     const size_t CRC_SIZE = 2;
 
+    // Byte count field of a write request is one byte long
+    const size_t MAX_REQUEST_DATA_SIZE = 255;
+
     std::string GetModbusExceptionMessage(uint8_t code)
     {
         if (code == 0) {
@@ -100,7 +103,8 @@ namespace
                                                      const std::vector<uint8_t>& data)
     {
         if ((function == Modbus::EFunction::FN_WRITE_MULTIPLE_COILS && data.size() != GetCoilsByteSize(count)) ||
-            (function == Modbus::EFunction::FN_WRITE_MULTIPLE_REGISTERS && data.size() != count * 2))
+            (function == Modbus::EFunction::FN_WRITE_MULTIPLE_REGISTERS && data.size() != count * 2) ||
+            data.size() > MAX_REQUEST_DATA_SIZE)
         {
             throw Modbus::TMalformedRequestError("data size " + std::to_string(data.size()) +
                                                  " doesn't match function code " + std::to_string(function));
@@ -472,7 +476,7 @@ std::vector<uint8_t> Modbus::MakePDU(Modbus::EFunction function,
                                      const std::vector<uint8_t>& data)
 {
     if (IsReadWriteFunction(function)) {
-        if (data.size() != writeCount * 2) {
+        if (data.size() != writeCount * 2 || data.size() > MAX_REQUEST_DATA_SIZE) {
             throw Modbus::TMalformedRequestError("data size " + std::to_string(data.size()) +
                                                  " doesn't match function code 23");
         }
-- 
2.43.0


From f662a838c70d5f2db087bc786648075294b34685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:14 +0000
Subject: [PATCH 03/15] fix: decode a byte stuffing sequence at the very end of
 the data

---
 src/bin_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin_utils.cpp b/src/bin_utils.cpp
index b82cc30..b156a57 100644
--- a/src/bin_utils.cpp
+++ b/src/bin_utils.cpp
@@ -20,7 +20,7 @@ void BinUtils::DecodeByteStuffing(std::vector<uint8_t>& data,
             if (rule.second.empty()) {
                 throw std::invalid_argument("invalid byte stuffing rule");
             }
-            if ((static_cast<size_t>(data.end() - readIt) > rule.second.size()) &&
+            if ((static_cast<size_t>(data.end() - readIt) >= rule.second.size()) &&
                 std::equal(rule.second.begin(), rule.second.end(), readIt))
             {
                 *writeIt = rule.first;
-- 
2.43.0


From a195975e807c2c84a36d19e4efa50fcf883f6810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:13 +0000
Subject: [PATCH 04/15] fix: report the slave id of the RTU answer, not of the
 request

---
 src/modbus_base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modbus_base.cpp b/src/modbus_base.cpp
index 3c0a627..f310dd0 100644
--- a/src/modbus_base.cpp
+++ b/src/modbus_base.cpp
@@ -222,7 +222,7 @@ Modbus::TReadResult Modbus::TModbusRTUTraits::Transaction(TPort& port,
 
     TReadResult res;
     res.ResponseTime = readRes.ResponseTime;
-    res.SlaveId = slaveId;
+    res.SlaveId = response[0];
     res.Pdu.assign(response.begin() + 1, response.begin() + (readRes.Count - CRC_SIZE));
     return res;
 }
-- 
2.43.0


From 5f7bd66d1b54c8995b8d657d406179b5554b9e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:50 +0000
Subject: [PATCH 05/15] fix: the limit of a Fast Modbus event answer always
 leaves room for one event

---
 src/modbus_ext_common.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modbus_ext_common.cpp b/src/modbus_ext_common.cpp
index 0c19402..73fd4ee 100644
--- a/src/modbus_ext_common.cpp
+++ b/src/modbus_ext_common.cpp
@@ -121,7 +121,7 @@ namespace ModbusExt // modbus extension protocol declarations
         if (maxBytes > RTU_MAX_PACKET_SIZE) {
             maxBytes = RTU_MAX_PACKET_SIZE;
         }
-        if (maxBytes <= PDU_EVENTS_RESPONSE_HEADER_SIZE + PDU_EVENT_MAX_SIZE) {
+        if (maxBytes <= PDU_EVENTS_RESPONSE_HEADER_SIZE + CRC_SIZE + RTU_HEADER_SIZE + PDU_EVENT_MAX_SIZE) {
             return PDU_EVENT_MAX_SIZE;
         }
         maxBytes -= PDU_EVENTS_RESPONSE_HEADER_SIZE + CRC_SIZE + RTU_HEADER_SIZE;
-- 
2.43.0


From e90d323d895b55cb0f0b3ca63dcb6f0e79cb1fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:34 +0000
Subject: [PATCH 06/15] fix: don't read beyond an answer that lacks bytes of
 enabled events

---
 src/modbus_ext_common.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/modbus_ext_common.cpp b/src/modbus_ext_common.cpp
index 73fd4ee..de2621c 100644
--- a/src/modbus_ext_common.cpp
+++ b/src/modbus_ext_common.cpp
@@ -393,6 +393,11 @@ namespace ModbusExt // modbus extension protocol declarations
             throw Modbus::TMalformedResponseError("invalid sub command");
         }
 
+        if (res.Pdu.size() <
+            PDU_ENABLE_EVENTS_RESPONSE_DATA_POS + res.Pdu[PDU_ENABLE_EVENTS_RESPONSE_DATA_SIZE_POS]) {
+            throw Modbus::TMalformedResponseError("invalid packet size: " + std::to_string(res.Pdu.size()));
+        }
+
         TBitIterator dataIt(res.Pdu.data() + PDU_ENABLE_EVENTS_RESPONSE_DATA_POS - 1,
                             res.Pdu[PDU_ENABLE_EVENTS_RESPONSE_DATA_SIZE_POS]);
 
-- 
2.43.0


From 306e2ce911f9bee9fbd21218319df12b24129649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:01 +0000
Subject: [PATCH 07/15] fix: write non-ASCII characters of Modbus strings
 without sign extension

---
 src/modbus_common.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/modbus_common.cpp b/src/modbus_common.cpp
index 716feb2..2ea2407 100644
--- a/src/modbus_common.cpp
+++ b/src/modbus_common.cpp
@@ -426,7 +426,9 @@ namespace Modbus // modbus protocol common utilities
         auto width = std::min(GetModbusDataWidthIn16BitWords(reg), static_cast<uint32_t>(size));
         words.resize(width);
         for (uint32_t i = 0; i < width; ++i) {
-            words[i] = reg.Format == RegisterFormat::String8 ? str[i * 2] << 8 | str[i * 2 + 1] : str[i];
+            words[i] = reg.Format == RegisterFormat::String8
+                           ? static_cast<uint8_t>(str[i * 2]) << 8 | static_cast<uint8_t>(str[i * 2 + 1])
+                           : static_cast<uint8_t>(str[i]);
         }
     }
 
-- 
2.43.0


From e7f7456f60901aed2d487905bc3cfa86fe44f23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:01 +0000
Subject: [PATCH 08/15] fix: write terminator instead of a Modbus request
 without data for an empty string

---
 src/modbus_common.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/modbus_common.cpp b/src/modbus_common.cpp
index 2ea2407..fe1e784 100644
--- a/src/modbus_common.cpp
+++ b/src/modbus_common.cpp
@@ -422,6 +422,11 @@ namespace Modbus // modbus protocol common utilities
                                         const TRegisterConfig& reg,
                                         const std::string& str)
     {
+        if (str.empty()) {
+            // a request without data is not valid, write the terminator
+            words.assign(1, 0);
+            return;
+        }
         auto size = reg.Format == RegisterFormat::String8 ? str.size() / 2 + str.size() % 2 : str.size();
         auto width = std::min(GetModbusDataWidthIn16BitWords(reg), static_cast<uint32_t>(size));
         words.resize(width);
-- 
2.43.0


From 2c7f694ff4422d567cfc2427d849bba46a96fee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:01 +0000
Subject: [PATCH 09/15] fix: do not write bits outside of a Modbus register bit
 field

---
 src/modbus_common.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modbus_common.cpp b/src/modbus_common.cpp
index fe1e784..a9322e7 100644
--- a/src/modbus_common.cpp
+++ b/src/modbus_common.cpp
@@ -473,6 +473,7 @@ namespace Modbus // modbus protocol common utilities
         }
 
         // Place data
+        value &= GetLSBMask(reg.GetDataWidth());
         value <<= reg.GetDataOffset();
         valueToWrite |= value;
 
-- 
2.43.0


From da1ebdfbc43dc38dfe6642cbfecaa9c4c4294cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:01 +0000
Subject: [PATCH 10/15] fix: keep Modbus cache in sync on single register
 writes, allow narrow write-only registers

---
 src/modbus_common.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modbus_common.cpp b/src/modbus_common.cpp
index a9322e7..9191ada 100644
--- a/src/modbus_common.cpp
+++ b/src/modbus_common.cpp
@@ -529,8 +529,8 @@ namespace Modbus // modbus protocol common utilities
         auto bitWidth = reg.GetDataWidth();
         auto updateCache = false;
 
-        // use cache only for "partial" registers
-        if (bitWidth < 16) {
+        // write-only registers can't be cached
+        if (reg.AccessType != TRegisterConfig::EAccessType::WRITE_ONLY) {
             address = GetUint32RegisterAddress(reg.GetAddress()) + wordIndex;
             if (cache.count(address)) {
                 cachedValue = cache.at(address);
-- 
2.43.0


From d22b47e66130dbceea9caabdc7535f3f00021054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:01 +0000
Subject: [PATCH 11/15] fix: reject Modbus read responses without data of all
 requested registers

---
 src/modbus_common.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/modbus_common.cpp b/src/modbus_common.cpp
index 9191ada..a8c8c7d 100644
--- a/src/modbus_common.cpp
+++ b/src/modbus_common.cpp
@@ -642,6 +642,16 @@ namespace Modbus // modbus protocol common utilities
                               : TRegisterValue{GetNumberRegisterValue(words, reg)};
     }
 
+    // Checks that a read response has data of all requested registers.
+    void CheckResponseDataSize(const std::vector<uint8_t>& data, int type, size_t registerCount)
+    {
+        auto expectedSize = IsSingleBitType(type) ? (registerCount + 7) / 8 : registerCount * 2;
+        if (data.size() < expectedSize) {
+            throw TMalformedResponseError("invalid read response data size: " + std::to_string(data.size()) +
+                                          ", expected " + std::to_string(expectedSize));
+        }
+    }
+
     // Parses modbus response and stores result.
     void ParseReadResponse(const std::vector<uint8_t>& pdu,
                            Modbus::EFunction function,
@@ -649,6 +659,7 @@ namespace Modbus // modbus protocol common utilities
                            Modbus::TRegisterCache& cache)
     {
         auto data = Modbus::ExtractResponseData(function, pdu);
+        CheckResponseDataSize(data, range.Type(), range.GetCount());
         range.Device()->SetTransferResult(true);
         if (IsSingleBitType(range.Type())) {
             ParseSingleBitReadResponse(data, range);
@@ -1081,6 +1092,7 @@ namespace Modbus // modbus protocol common utilities
                                       frameTimeout);
 
         auto data = Modbus::ExtractResponseData(function, res.Pdu);
+        CheckResponseDataSize(data, reg.Type, modbusRegisterCount);
         if (IsSingleBitType(reg.Type)) {
             return TRegisterValue{data[0]};
         }
-- 
2.43.0


From 120b2024aa88905fc95ad575f84d96c2ee0b1212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:01 +0000
Subject: [PATCH 12/15] fix: apply address shift to reading of partial setup
 registers

---
 src/modbus_common.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modbus_common.cpp b/src/modbus_common.cpp
index a8c8c7d..133b44f 100644
--- a/src/modbus_common.cpp
+++ b/src/modbus_common.cpp
@@ -864,7 +864,7 @@ namespace Modbus // modbus protocol common utilities
                 }
                 ++it;
             }
-            ReadRegisterRange(traits, port, slaveId, range, cache, shift);
+            ReadRegisterRange(traits, port, slaveId, range, cache, false, shift);
             for (auto reg: range.RegisterList()) {
                 if (reg->GetErrorState().count()) {
                     return false;
-- 
2.43.0


From f87ad3c60491f9f27087e555fa0c5cbacadc2c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:01 +0000
Subject: [PATCH 13/15] fix: write collected setup registers before a partial
 one

---
 src/modbus_common.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modbus_common.cpp b/src/modbus_common.cpp
index 133b44f..e5fdc8b 100644
--- a/src/modbus_common.cpp
+++ b/src/modbus_common.cpp
@@ -896,7 +896,7 @@ namespace Modbus // modbus protocol common utilities
         while (startIt != endIt) {
             auto item = *startIt;
             if (item->RegisterConfig->IsPartial()) {
-                return startIt;
+                break;
             }
 
             auto address = GetUint32RegisterAddress(item->RegisterConfig->GetWriteAddress());
-- 
2.43.0


From 090ce2b1b47714ef18868ffa78c85c8aa3edb545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:01 +0000
Subject: [PATCH 14/15] fix: write setup registers after a short string
 separately

---
 src/modbus_common.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/modbus_common.cpp b/src/modbus_common.cpp
index e5fdc8b..d34f471 100644
--- a/src/modbus_common.cpp
+++ b/src/modbus_common.cpp
@@ -913,12 +913,17 @@ namespace Modbus // modbus protocol common utilities
                 break;
             }
 
-            ComposeRawMultipleWriteRequestData(data, *item->RegisterConfig, item->RawValue, cache, tmpCache);
+            auto written =
+                ComposeRawMultipleWriteRequestData(data, *item->RegisterConfig, item->RawValue, cache, tmpCache);
             LOG(Info) << item->ToString();
 
-            count += width;
+            count += written;
             last = item;
             ++startIt;
+            if (written < width) {
+                // a string shorter than the register, the next item is not adjacent to the written data
+                break;
+            }
         }
         try {
             auto function = count > 1 ? FN_WRITE_MULTIPLE_REGISTERS : FN_WRITE_SINGLE_REGISTER;
-- 
2.43.0


From 2686ad6fc5f83942a7fe7af94821a12473b19929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:30 +0000
Subject: [PATCH 15/15] fix: write bit fields of several words to the words
 they are read from

---
 src/modbus_common.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/modbus_common.cpp b/src/modbus_common.cpp
index d34f471..b10681a 100644
--- a/src/modbus_common.cpp
+++ b/src/modbus_common.cpp
@@ -526,7 +526,6 @@ namespace Modbus // modbus protocol common utilities
     {
         uint16_t cachedValue = 0;
         auto address = 0;
-        auto bitWidth = reg.GetDataWidth();
         auto updateCache = false;
 
         // write-only registers can't be cached
@@ -538,10 +537,10 @@ namespace Modbus // modbus protocol common utilities
             updateCache = true;
         }
 
-        auto bitOffset = std::max(static_cast<int32_t>(reg.GetDataOffset()) - wordIndex * 16, 0);
-        auto bitCount = std::min(static_cast<uint32_t>(16 - bitOffset), bitWidth);
-        auto mask = GetLSBMask(bitCount) << bitOffset;
-        auto valueToWrite = (~mask & cachedValue) | (mask & (value << bitOffset));
+        // data bits in the word, the first word is the most significant one
+        auto wordOffset = (GetModbusDataWidthIn16BitWords(reg) - wordIndex - 1) * 16;
+        auto mask = (GetLSBMask(reg.GetDataWidth()) << reg.GetDataOffset()) >> wordOffset;
+        auto valueToWrite = (~mask & cachedValue) | (mask & value);
 
         data.resize(2);
         WriteAs2Bytes(data.data(), valueToWrite, reg.ByteOrder);
@@ -759,7 +758,7 @@ namespace Modbus // modbus protocol common utilities
         } else {
             // Note: word order feature currently is not supported by HOLDING_SINGLE registers.
             auto requestsCount = InferWriteRequestsCount(reg);
-            auto val = value.Get<uint64_t>();
+            auto val = value.Get<uint64_t>() << reg.GetDataOffset();
             auto responsePduSize = Modbus::CalcResponsePDUSize(fn, 1);
             for (size_t i = 0; i < requestsCount; ++i) {
                 auto wordIndex = requestsCount - i - 1;
-- 
2.43.0

