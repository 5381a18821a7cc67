From aa9bd1d6186b19dc883dedbc10f810678da6314d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:11 +0000
Subject: [PATCH 01/81] fix: decode an escape sequence at the very end of data

DecodeByteStuffing left the last sequence escaped when nothing followed it.
---
 src/bin_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin_utils.cpp b/src/bin_utils.cpp
index b82cc30..b156a57 100644
--- a/src/bin_utils.cpp
+++ b/src/bin_utils.cpp
@@ -20,7 +20,7 @@ void BinUtils::DecodeByteStuffing(std::vector<uint8_t>& data,
             if (rule.second.empty()) {
                 throw std::invalid_argument("invalid byte stuffing rule");
             }
-            if ((static_cast<size_t>(data.end() - readIt) > rule.second.size()) &&
+            if ((static_cast<size_t>(data.end() - readIt) >= rule.second.size()) &&
                 std::equal(rule.second.begin(), rule.second.end(), readIt))
             {
                 *writeIt = rule.first;
-- 
2.43.0


From c074b3ffc79b8709bfe97f80a8ab3ebb445d602e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:11 +0000
Subject: [PATCH 02/81] fix: compare versions with any numbers and of any
 length

std::stoi threw on numbers that do not fit int, adding the suffix offset overflowed, release candidates with
numbers of 128 and more sorted above the release, and std::regex overflowed the stack on very long strings.
---
 src/common_utils.cpp | 59 ++++++++++++++++++++++++++++++--------------
 1 file changed, 41 insertions(+), 18 deletions(-)

diff --git a/src/common_utils.cpp b/src/common_utils.cpp
index bffc97d..25a8d73 100644
--- a/src/common_utils.cpp
+++ b/src/common_utils.cpp
@@ -1,6 +1,7 @@
 #include "common_utils.h"
 #include <algorithm>
-#include <regex>
+#include <cstdint>
+#include <limits>
 #include <sstream>
 #include <unordered_map>
 
@@ -9,25 +10,47 @@ namespace
     const std::unordered_map<char, std::string> ConvertToMqttStringMap =
         {{'\'', "|"}, {'"', "|"}, {'/', "|"}, {'+', "_plus_"}, {'$', "_"}, {'#', "_"}};
 
-    static std::vector<int> ParseVersionString(const std::string& version)
+    // Biggest number of a version component, bigger ones are treated as equal to it
+    const int64_t MAX_VERSION_NUMBER = std::numeric_limits<int32_t>::max();
+
+    // Parses digits starting from pos and moves pos after them, returns false if there are no digits
+    bool ParseVersionNumber(const std::string& str, size_t& pos, int64_t& number)
+    {
+        auto start = pos;
+        number = 0;
+        for (; pos < str.size() && str[pos] >= '0' && str[pos] <= '9'; ++pos) {
+            number = std::min(number * 10 + (str[pos] - '0'), MAX_VERSION_NUMBER);
+        }
+        return pos != start;
+    }
+
+    // Every component gives its number.
+    // A suffix gives one more number: negative for -rc, so it is lower than an absent one, and positive for +wb.
+    std::vector<int64_t> ParseVersionString(const std::string& version)
     {
         std::string buffer;
         std::istringstream stream(version);
-        std::vector<int> list;
+        std::vector<int64_t> list;
         while (getline(stream, buffer, '.')) {
-            if (std::regex_match(buffer, std::regex("^[0-9]+$"))) {
-                list.push_back(std::stoi(buffer));
+            size_t pos = 0;
+            int64_t number;
+            if (!ParseVersionNumber(buffer, pos, number)) {
+                list.push_back(0);
+                continue;
+            }
+            if (pos == buffer.size()) {
+                list.push_back(number);
                 continue;
             }
-            if (std::regex_match(buffer, std::regex("^[0-9]+(-rc|\\+wb)[0-9]+$"))) {
-                int index = buffer.find("-rc");
-                int offset = -128;
-                if (index < 0) {
-                    index = buffer.find("+wb");
-                    offset = 128;
-                }
-                list.push_back(std::stoi(buffer.substr(0, index)));
-                list.push_back(std::stoi(buffer.substr(index + 3)) + offset);
+            auto suffix = buffer.substr(pos, 3);
+            pos += suffix.size();
+            int64_t suffixNumber;
+            if ((suffix == "-rc" || suffix == "+wb") && ParseVersionNumber(buffer, pos, suffixNumber) &&
+                pos == buffer.size())
+            {
+                list.push_back(number);
+                list.push_back(suffix == "-rc" ? suffixNumber - MAX_VERSION_NUMBER - 1
+                                               : suffixNumber + MAX_VERSION_NUMBER + 1);
                 continue;
             }
             list.push_back(0);
@@ -68,11 +91,11 @@ int util::CompareVersionStrings(const std::string& v1, const std::string& v2)
     if (v2.empty()) {
         return 1;
     }
-    std::vector<int> l1 = ParseVersionString(v1);
-    std::vector<int> l2 = ParseVersionString(v2);
+    std::vector<int64_t> l1 = ParseVersionString(v1);
+    std::vector<int64_t> l2 = ParseVersionString(v2);
     for (size_t i = 0; i < std::max(l1.size(), l2.size()); ++i) {
-        int n1 = i < l1.size() ? l1[i] : 0;
-        int n2 = i < l2.size() ? l2[i] : 0;
+        int64_t n1 = i < l1.size() ? l1[i] : 0;
+        int64_t n2 = i < l2.size() ? l2[i] : 0;
         if (n1 > n2) {
             return 1;
         }
-- 
2.43.0


From 989e19a3fb847147886ec9371d3bc0a17d192ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:33 +0000
Subject: [PATCH 03/81] fix: refuse a number of a condition that does not fit
 32 bits

atoi made another number of it silently.
---
 src/expression_evaluator.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/expression_evaluator.cpp b/src/expression_evaluator.cpp
index 9eaf585..2306a55 100644
--- a/src/expression_evaluator.cpp
+++ b/src/expression_evaluator.cpp
@@ -1,5 +1,8 @@
 #include "expression_evaluator.h"
 
+#include <cerrno>
+#include <cstdlib>
+#include <limits>
 #include <set>
 #include <stdexcept>
 #include <unordered_map>
@@ -329,6 +332,13 @@ std::optional<TToken> TLexer::GetNumber()
         for (; SomethingToParse() && isdigit(*Pos); ++Pos) {
             value += *Pos;
         }
+        errno = 0;
+        auto number = std::strtoll(value.c_str(), nullptr, 10);
+        if (errno == ERANGE || number < std::numeric_limits<int32_t>::min() ||
+            number > std::numeric_limits<int32_t>::max())
+        {
+            ThrowParserError("number is out of range at position ", tokenStart);
+        }
         return TToken(TTokenType::Number, tokenStart, value);
     }
     if (!value.empty()) {
-- 
2.43.0


From f61c199bf56a4732bebaa2db1224ac9539be88fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:33 +0000
Subject: [PATCH 04/81] fix: refuse a condition that is too long

Parsing and evaluation are recursive: a template with many nested brackets overflowed the stack.
---
 src/expression_evaluator.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/expression_evaluator.cpp b/src/expression_evaluator.cpp
index 2306a55..f798bf0 100644
--- a/src/expression_evaluator.cpp
+++ b/src/expression_evaluator.cpp
@@ -13,6 +13,9 @@ using namespace Expressions;
 
 namespace
 {
+    // Parsing, evaluation and destruction of an expression are recursive, so its size is limited
+    const size_t MAX_TOKENS = 2000;
+
     bool IsOperator(TTokenType type)
     {
         return (type == TTokenType::Equal) || (type == TTokenType::NotEqual) || (type == TTokenType::Greater) ||
@@ -481,6 +484,9 @@ std::unique_ptr<TAstNode> TParser::Parse(const std::string& str)
 {
     TLexer lexer;
     auto tokens = lexer.GetTokens(str);
+    if (tokens.size() > MAX_TOKENS) {
+        throw std::runtime_error("expression is too long");
+    }
     Token = tokens.cbegin();
     auto root = ParseExpression();
     if (Token->Type != TTokenType::EOL) {
-- 
2.43.0


From 8922852f4efee7ea414aacdee6262dd79b4fae23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:55 +0000
Subject: [PATCH 05/81] fix: treat a Modbus exception response with zero code
 as an error

It was taken for a successful response with no data
---
 src/modbus_base.cpp | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/src/modbus_base.cpp b/src/modbus_base.cpp
index 591460f..76acd7c 100644
--- a/src/modbus_base.cpp
+++ b/src/modbus_base.cpp
@@ -38,15 +38,6 @@ namespace
         return "invalid modbus error code (" + std::to_string(code + 1) + ")";
     }
 
-    // throws C++ exception on modbus error code
-    void ThrowIfModbusException(uint8_t code)
-    {
-        if (code == 0) {
-            return;
-        }
-        throw Modbus::TModbusExceptionError(code);
-    }
-
     bool IsWriteFunction(Modbus::EFunction function)
     {
         return function == Modbus::EFunction::FN_WRITE_MULTIPLE_COILS ||
@@ -421,7 +412,7 @@ std::vector<uint8_t> Modbus::ExtractResponseData(EFunction requestFunction, cons
     }
 
     if (IsException(pdu[0])) {
-        ThrowIfModbusException(pdu[1]);
+        throw Modbus::TModbusExceptionError(pdu[1]);
     }
 
     auto function = GetFunction(functionCode);
-- 
2.43.0


From c43f3c1f813c9f2962317ca2d5bf0a89971962fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:33 +0000
Subject: [PATCH 06/81] fix: check the size of data in Modbus read responses

A short response with a valid CRC or MBAP header made the program read outside the received data.
A single bit is one bit of the received byte
---
 src/modbus_common.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/modbus_common.cpp b/src/modbus_common.cpp
index 716feb2..094744d 100644
--- a/src/modbus_common.cpp
+++ b/src/modbus_common.cpp
@@ -634,13 +634,26 @@ namespace Modbus // modbus protocol common utilities
                               : TRegisterValue{GetNumberRegisterValue(words, reg)};
     }
 
+    // Extracts data from read response and checks that its size corresponds to the requested count of registers.
+    std::vector<uint8_t> ExtractReadResponseData(const std::vector<uint8_t>& pdu,
+                                                 Modbus::EFunction function,
+                                                 size_t registerCount)
+    {
+        auto data = Modbus::ExtractResponseData(function, pdu);
+        if (pdu.size() != Modbus::CalcResponsePDUSize(function, registerCount)) {
+            throw Modbus::TMalformedResponseError("unexpected data size in read response: " +
+                                                  std::to_string(data.size()));
+        }
+        return data;
+    }
+
     // Parses modbus response and stores result.
     void ParseReadResponse(const std::vector<uint8_t>& pdu,
                            Modbus::EFunction function,
                            TModbusRegisterRange& range,
                            Modbus::TRegisterCache& cache)
     {
-        auto data = Modbus::ExtractResponseData(function, pdu);
+        auto data = ExtractReadResponseData(pdu, function, range.GetCount());
         range.Device()->SetTransferResult(true);
         if (IsSingleBitType(range.Type())) {
             ParseSingleBitReadResponse(data, range);
@@ -1072,9 +1085,9 @@ namespace Modbus // modbus protocol common utilities
                                       responseTimeout,
                                       frameTimeout);
 
-        auto data = Modbus::ExtractResponseData(function, res.Pdu);
+        auto data = ExtractReadResponseData(res.Pdu, function, modbusRegisterCount);
         if (IsSingleBitType(reg.Type)) {
-            return TRegisterValue{data[0]};
+            return TRegisterValue{data[0] & 1u};
         }
 
         Modbus::TRegisterCache cache;
-- 
2.43.0


From 3166444d731c5941b02655fd0d847f6ab89da54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:39 +0000
Subject: [PATCH 07/81] fix: write empty and non-ASCII strings to Modbus
 registers

Sign extension of a char spoiled its neighbour, an empty string made a request to write zero registers
---
 src/modbus_common.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/modbus_common.cpp b/src/modbus_common.cpp
index 094744d..c19ea71 100644
--- a/src/modbus_common.cpp
+++ b/src/modbus_common.cpp
@@ -422,11 +422,17 @@ namespace Modbus // modbus protocol common utilities
                                         const TRegisterConfig& reg,
                                         const std::string& str)
     {
-        auto size = reg.Format == RegisterFormat::String8 ? str.size() / 2 + str.size() % 2 : str.size();
+        // Chars must not be sign extended, chars after the end of the string are zeros
+        auto charAt = [&str](size_t index) -> uint16_t {
+            return index < str.size() ? static_cast<uint8_t>(str[index]) : 0;
+        };
+        // An empty string is written as a single zero word, a request to write zero words is not valid
+        auto size = std::max<size_t>(
+            reg.Format == RegisterFormat::String8 ? str.size() / 2 + str.size() % 2 : str.size(), 1);
         auto width = std::min(GetModbusDataWidthIn16BitWords(reg), static_cast<uint32_t>(size));
         words.resize(width);
         for (uint32_t i = 0; i < width; ++i) {
-            words[i] = reg.Format == RegisterFormat::String8 ? str[i * 2] << 8 | str[i * 2 + 1] : str[i];
+            words[i] = reg.Format == RegisterFormat::String8 ? charAt(i * 2) << 8 | charAt(i * 2 + 1) : charAt(i);
         }
     }
 
-- 
2.43.0


From 45ab756796f4c5d1b37ecdb396d5bd9b678d10b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:39 +0000
Subject: [PATCH 08/81] fix: write negative values to unsigned registers with
 offset or negative scale

The value was taken for a huge positive number, refused or written as garbage
---
 src/register.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/register.cpp b/src/register.cpp
index 7e31f26..3686d23 100644
--- a/src/register.cpp
+++ b/src/register.cpp
@@ -528,7 +528,10 @@ template<> struct TConvertTraits<uint64_t>
             if (reg.Scale == 1 && reg.Offset == 0) {
                 return value;
             }
-            auto res = llround((value - reg.Offset) / reg.Scale);
+            // stoull wraps negative numbers around
+            double signedValue =
+                (str.find('-') == std::string::npos) ? static_cast<double>(value) : static_cast<int64_t>(value);
+            auto res = llround((signedValue - reg.Offset) / reg.Scale);
             if (res < 0) {
                 throw std::out_of_range("\"" + str + "\" after applying scale and offset is not an unsigned integer: " +
                                         std::to_string(res));
-- 
2.43.0


From 2a529ef083ab63ee0e2a7d31481dffec1533ad14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:22 +0000
Subject: [PATCH 09/81] fix: write string registers that occupy one register or
 are written one by one

---
 src/modbus_common.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/modbus_common.cpp b/src/modbus_common.cpp
index c19ea71..873b418 100644
--- a/src/modbus_common.cpp
+++ b/src/modbus_common.cpp
@@ -756,6 +756,20 @@ namespace Modbus // modbus protocol common utilities
                              requestDelay,
                              responseTimeout,
                              frameTimeout);
+        } else if (reg.IsString()) {
+            // Every word of a string is written by a separate request
+            auto regCount = ComposeRawMultipleWriteRequestData(data, reg, value, cache, tmpCache);
+            for (size_t i = 0; i < regCount; ++i) {
+                WriteTransaction(traits,
+                                 port,
+                                 slaveId,
+                                 fn,
+                                 Modbus::CalcResponsePDUSize(fn, 1),
+                                 Modbus::MakePDU(fn, addr + i, 1, {data[i * 2], data[i * 2 + 1]}),
+                                 requestDelay,
+                                 responseTimeout,
+                                 frameTimeout);
+            }
         } else {
             // Note: word order feature currently is not supported by HOLDING_SINGLE registers.
             auto requestsCount = InferWriteRequestsCount(reg);
-- 
2.43.0


From a1faa99f4051f33febce1f6dc5bb887ce84d877a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:04 +0000
Subject: [PATCH 10/81] fix: do not poll a register the device does not have
 for ever

---
 src/pollable_device.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pollable_device.cpp b/src/pollable_device.cpp
index 057d43b..ff72958 100644
--- a/src/pollable_device.cpp
+++ b/src/pollable_device.cpp
@@ -144,8 +144,10 @@ void TPollableDevice::ScheduleNextPoll(PRegister reg, std::chrono::steady_clock:
 {
     if (reg->IsExcludedFromPolling()) {
         // If register is sporadic it must be read once to get actual value
-        // Keep polling it until successful read
-        if (reg->GetValue().GetType() == TRegisterValue::ValueType::Undefined) {
+        // Keep polling it until successful read or until the device reports that it has no such register
+        if (reg->GetAvailable() != TRegisterAvailability::UNAVAILABLE &&
+            reg->GetValue().GetType() == TRegisterValue::ValueType::Undefined)
+        {
             Registers.AddEntry(reg, currentTime + std::chrono::microseconds(1));
         }
         return;
-- 
2.43.0


From 99ef2ce9e3705c0a32cf3932c4d4603d333de90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:40 +0000
Subject: [PATCH 11/81] fix: accept a response with only the needed registers
 to a request extended to min_read_registers

---
 src/modbus_common.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/modbus_common.cpp b/src/modbus_common.cpp
index 873b418..72393d5 100644
--- a/src/modbus_common.cpp
+++ b/src/modbus_common.cpp
@@ -17,6 +17,7 @@ namespace Modbus // modbus protocol declarations
     //! Parses modbus response and stores result
     void ParseReadResponse(const std::vector<uint8_t>& data,
                            Modbus::EFunction function,
+                           size_t neededCount,
                            TModbusRegisterRange& range,
                            TRegisterCache& cache);
 }
@@ -288,7 +289,8 @@ namespace Modbus // modbus protocol common utilities
     {
         try {
             const auto& deviceConfig = *(Device()->DeviceConfig());
-            if (GetCount() < deviceConfig.MinReadRegisters) {
+            const auto neededCount = GetCount();
+            if (neededCount < deviceConfig.MinReadRegisters) {
                 Count = deviceConfig.MinReadRegisters;
             }
             auto function = GetFunctionImpl(Type(), OperationType::OP_READ, TypeName(), IsPacking(*this));
@@ -301,7 +303,7 @@ namespace Modbus // modbus protocol common utilities
                                           Device()->GetResponseTimeout(port),
                                           Device()->GetFrameTimeout(port));
             ResponseTime = res.ResponseTime;
-            ParseReadResponse(res.Pdu, function, *this, cache);
+            ParseReadResponse(res.Pdu, function, neededCount, *this, cache);
         } catch (const Modbus::TModbusExceptionError& err) {
             RethrowSerialDeviceException(err);
         } catch (const Modbus::TMalformedResponseError& err) {
@@ -641,12 +643,16 @@ namespace Modbus // modbus protocol common utilities
     }
 
     // Extracts data from read response and checks that its size corresponds to the requested count of registers.
+    // If the request is extended to min_read_registers, the response can contain only the registers that are needed.
     std::vector<uint8_t> ExtractReadResponseData(const std::vector<uint8_t>& pdu,
                                                  Modbus::EFunction function,
-                                                 size_t registerCount)
+                                                 size_t requestedCount,
+                                                 size_t neededCount)
     {
         auto data = Modbus::ExtractResponseData(function, pdu);
-        if (pdu.size() != Modbus::CalcResponsePDUSize(function, registerCount)) {
+        if (pdu.size() != Modbus::CalcResponsePDUSize(function, requestedCount) &&
+            pdu.size() != Modbus::CalcResponsePDUSize(function, neededCount))
+        {
             throw Modbus::TMalformedResponseError("unexpected data size in read response: " +
                                                   std::to_string(data.size()));
         }
@@ -656,10 +662,11 @@ namespace Modbus // modbus protocol common utilities
     // Parses modbus response and stores result.
     void ParseReadResponse(const std::vector<uint8_t>& pdu,
                            Modbus::EFunction function,
+                           size_t neededCount,
                            TModbusRegisterRange& range,
                            Modbus::TRegisterCache& cache)
     {
-        auto data = ExtractReadResponseData(pdu, function, range.GetCount());
+        auto data = ExtractReadResponseData(pdu, function, range.GetCount(), neededCount);
         range.Device()->SetTransferResult(true);
         if (IsSingleBitType(range.Type())) {
             ParseSingleBitReadResponse(data, range);
@@ -1105,7 +1112,7 @@ namespace Modbus // modbus protocol common utilities
                                       responseTimeout,
                                       frameTimeout);
 
-        auto data = ExtractReadResponseData(res.Pdu, function, modbusRegisterCount);
+        auto data = ExtractReadResponseData(res.Pdu, function, modbusRegisterCount, modbusRegisterCount);
         if (IsSingleBitType(reg.Type)) {
             return TRegisterValue{data[0] & 1u};
         }
-- 
2.43.0


From 6df730e6b5e33d44af9ea3045cd341bd0088fe79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:55 +0000
Subject: [PATCH 12/81] fix: keep neighbour bits if a written value does not
 fit a bit field

---
 src/modbus_common.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/modbus_common.cpp b/src/modbus_common.cpp
index 72393d5..76e514f 100644
--- a/src/modbus_common.cpp
+++ b/src/modbus_common.cpp
@@ -474,8 +474,7 @@ namespace Modbus // modbus protocol common utilities
         }
 
         // Place data
-        value <<= reg.GetDataOffset();
-        valueToWrite |= value;
+        valueToWrite |= (value & GetLSBMask(reg.GetDataWidth())) << reg.GetDataOffset();
 
         words.resize(width);
         for (uint32_t i = 0; i < width; ++i) {
-- 
2.43.0


From a2a3bbb1dfa59a2e7575f649228588ed6e21d2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:33 +0000
Subject: [PATCH 13/81] fix: write bit fields and little endian numbers of
 holding_single registers of several words correctly

---
 src/modbus_common.cpp | 71 +++----------------------------------------
 1 file changed, 5 insertions(+), 66 deletions(-)

diff --git a/src/modbus_common.cpp b/src/modbus_common.cpp
index 76e514f..a43124f 100644
--- a/src/modbus_common.cpp
+++ b/src/modbus_common.cpp
@@ -400,12 +400,6 @@ namespace Modbus // modbus protocol common utilities
         }
     }
 
-    // returns number of requests needed to write register
-    size_t InferWriteRequestsCount(const TRegisterConfig& reg)
-    {
-        return IsPacking(reg) ? 1 : GetModbusDataWidthIn16BitWords(reg);
-    }
-
     // returns number of bytes needed to hold response
     size_t InferReadResponsePDUSize(int type, size_t registerCount)
     {
@@ -513,43 +507,6 @@ namespace Modbus // modbus protocol common utilities
         return width;
     }
 
-    // Composes writing data buffer containtig single word filled with "partial" register data.
-    // Uses holding register data cache to fill data that is not affected by the new register value.
-    // Byte order corresponds to register settings.
-    void ComposeRawSingleWriteRequestData(std::vector<uint8_t>& data,
-                                          const TRegisterConfig& reg,
-                                          uint16_t value,
-                                          uint8_t wordIndex,
-                                          const Modbus::TRegisterCache& cache,
-                                          Modbus::TRegisterCache& tmpCache)
-    {
-        uint16_t cachedValue = 0;
-        auto address = 0;
-        auto bitWidth = reg.GetDataWidth();
-        auto updateCache = false;
-
-        // use cache only for "partial" registers
-        if (bitWidth < 16) {
-            address = GetUint32RegisterAddress(reg.GetAddress()) + wordIndex;
-            if (cache.count(address)) {
-                cachedValue = cache.at(address);
-            }
-            updateCache = true;
-        }
-
-        auto bitOffset = std::max(static_cast<int32_t>(reg.GetDataOffset()) - wordIndex * 16, 0);
-        auto bitCount = std::min(static_cast<uint32_t>(16 - bitOffset), bitWidth);
-        auto mask = GetLSBMask(bitCount) << bitOffset;
-        auto valueToWrite = (~mask & cachedValue) | (mask & (value << bitOffset));
-
-        data.resize(2);
-        WriteAs2Bytes(data.data(), valueToWrite, reg.ByteOrder);
-
-        if (updateCache) {
-            tmpCache[address] = valueToWrite;
-        }
-    }
-
     void ParseSingleBitReadResponse(const std::vector<uint8_t>& data, TModbusRegisterRange& range)
     {
         auto start = data.begin();
@@ -762,38 +719,20 @@ namespace Modbus // modbus protocol common utilities
                              requestDelay,
                              responseTimeout,
                              frameTimeout);
-        } else if (reg.IsString()) {
-            // Every word of a string is written by a separate request
+        } else {
+            // Every word is written by a separate request, starting from the last one
             auto regCount = ComposeRawMultipleWriteRequestData(data, reg, value, cache, tmpCache);
-            for (size_t i = 0; i < regCount; ++i) {
+            for (size_t i = regCount; i > 0; --i) {
+                auto word = data.begin() + (i - 1) * 2;
                 WriteTransaction(traits,
                                  port,
                                  slaveId,
                                  fn,
                                  Modbus::CalcResponsePDUSize(fn, 1),
-                                 Modbus::MakePDU(fn, addr + i, 1, {data[i * 2], data[i * 2 + 1]}),
-                                 requestDelay,
-                                 responseTimeout,
-                                 frameTimeout);
-            }
-        } else {
-            // Note: word order feature currently is not supported by HOLDING_SINGLE registers.
-            auto requestsCount = InferWriteRequestsCount(reg);
-            auto val = value.Get<uint64_t>();
-            auto responsePduSize = Modbus::CalcResponsePDUSize(fn, 1);
-            for (size_t i = 0; i < requestsCount; ++i) {
-                auto wordIndex = requestsCount - i - 1;
-                ComposeRawSingleWriteRequestData(data, reg, static_cast<uint16_t>(val), wordIndex, cache, tmpCache);
-                WriteTransaction(traits,
-                                 port,
-                                 slaveId,
-                                 fn,
-                                 responsePduSize,
-                                 Modbus::MakePDU(fn, addr + wordIndex, 1, data),
+                                 Modbus::MakePDU(fn, addr + i - 1, 1, {word, word + 2}),
                                  requestDelay,
                                  responseTimeout,
                                  frameTimeout);
-                val >>= 16;
             }
         }
         for (const auto& item: tmpCache) {
-- 
2.43.0


From 67f1eb80a20b6e227a721d34d67c2c7dbd263832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:00 +0000
Subject: [PATCH 14/81] fix: read a register before the first write of its bit
 field

---
 src/modbus_common.cpp | 90 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 71 insertions(+), 19 deletions(-)

diff --git a/src/modbus_common.cpp b/src/modbus_common.cpp
index a43124f..36d5948 100644
--- a/src/modbus_common.cpp
+++ b/src/modbus_common.cpp
@@ -671,6 +671,74 @@ namespace Modbus // modbus protocol common utilities
         }
     }
 
+    TRegisterValue ReadRegister(IModbusTraits& traits,
+                                TPort& port,
+                                uint8_t slaveId,
+                                const TRegisterConfig& reg,
+                                Modbus::TRegisterCache& cache,
+                                std::chrono::microseconds requestDelay,
+                                std::chrono::milliseconds responseTimeout,
+                                std::chrono::milliseconds frameTimeout,
+                                int shift)
+    {
+        size_t modbusRegisterCount = GetModbusDataWidthIn16BitWords(reg);
+        auto addr = GetUint32RegisterAddress(reg.GetAddress()) + shift;
+        auto function = GetFunctionImpl(reg.Type, OperationType::OP_READ, reg.TypeName, false);
+        auto requestPdu = Modbus::MakePDU(function, addr, modbusRegisterCount, {});
+
+        port.SleepSinceLastInteraction(requestDelay);
+        auto res = traits.Transaction(port,
+                                      slaveId,
+                                      requestPdu,
+                                      Modbus::CalcResponsePDUSize(function, modbusRegisterCount),
+                                      responseTimeout,
+                                      frameTimeout);
+
+        auto data = ExtractReadResponseData(res.Pdu, function, modbusRegisterCount, modbusRegisterCount);
+        if (IsSingleBitType(reg.Type)) {
+            return TRegisterValue{data[0] & 1u};
+        }
+
+        return GetRegisterValue(data, reg, cache);
+    }
+
+    // Other bits of words containing a partial register must be known to keep them on write.
+    // Reads the words from a device if they are not read yet.
+    void FillPartialRegisterCache(IModbusTraits& traits,
+                                  TPort& port,
+                                  uint8_t slaveId,
+                                  const TRegisterConfig& reg,
+                                  Modbus::TRegisterCache& cache,
+                                  std::chrono::microseconds requestDelay,
+                                  std::chrono::milliseconds responseTimeout,
+                                  std::chrono::milliseconds frameTimeout,
+                                  int shift)
+    {
+        if (!reg.IsPartial() || reg.IsString() || !IsHoldingType(reg.Type) ||
+            reg.AccessType != TRegisterConfig::EAccessType::READ_WRITE)
+        {
+            return;
+        }
+        auto addr = GetUint32RegisterAddress(reg.GetAddress());
+        if (addr != GetUint32RegisterAddress(reg.GetWriteAddress())) {
+            return;
+        }
+        auto cached = true;
+        for (uint32_t i = 0; i < GetModbusDataWidthIn16BitWords(reg); ++i) {
+            cached = cached && cache.count(addr + i);
+        }
+        if (cached) {
+            return;
+        }
+        try {
+            ReadRegister(traits, port, slaveId, reg, cache, requestDelay, responseTimeout, frameTimeout, shift);
+        } catch (const Modbus::TModbusExceptionError& err) {
+            RethrowSerialDeviceException(err);
+        } catch (const Modbus::TErrorBase& err) {
+            throw TSerialDeviceTransientErrorException(err.what());
+        }
+    }
+
     void WriteRegister(IModbusTraits& traits,
                        TPort& port,
                        uint8_t slaveId,
@@ -684,6 +752,8 @@ namespace Modbus // modbus protocol common utilities
     {
         Modbus::TRegisterCache tmpCache;
 
+        FillPartialRegisterCache(traits, port, slaveId, reg, cache, requestDelay, responseTimeout, frameTimeout, shift);
+
         LOG(Debug) << port.GetDescription() << " modbus:" << std::to_string(slaveId) << " write "
                    << GetModbusDataWidthIn16BitWords(reg) << " " << reg.TypeName << "(s) @ " << reg.GetWriteAddress();
 
@@ -1037,26 +1107,8 @@ namespace Modbus // modbus protocol common utilities
                                 std::chrono::milliseconds responseTimeout,
                                 std::chrono::milliseconds frameTimeout)
     {
-        size_t modbusRegisterCount = GetModbusDataWidthIn16BitWords(reg);
-        auto addr = GetUint32RegisterAddress(reg.GetAddress());
-        auto function = GetFunctionImpl(reg.Type, OperationType::OP_READ, reg.TypeName, false);
-        auto requestPdu = Modbus::MakePDU(function, addr, modbusRegisterCount, {});
-
-        port.SleepSinceLastInteraction(requestDelay);
-        auto res = traits.Transaction(port,
-                                      slaveId,
-                                      requestPdu,
-                                      Modbus::CalcResponsePDUSize(function, modbusRegisterCount),
-                                      responseTimeout,
-                                      frameTimeout);
-
-        auto data = ExtractReadResponseData(res.Pdu, function, modbusRegisterCount, modbusRegisterCount);
-        if (IsSingleBitType(reg.Type)) {
-            return TRegisterValue{data[0] & 1u};
-        }
-
         Modbus::TRegisterCache cache;
-        return GetRegisterValue(data, reg, cache);
+        return ReadRegister(traits, port, slaveId, reg, cache, requestDelay, responseTimeout, frameTimeout, 0);
     }
 
 } // modbus protocol utilities
-- 
2.43.0


From b61c74ec2b45d09b7f563d2a2472432ebfa5b51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:36 +0000
Subject: [PATCH 15/81] fix: read a register before the first write of a value
 that takes a part of it

---
 src/modbus_common.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/modbus_common.cpp b/src/modbus_common.cpp
index 36d5948..40f670f 100644
--- a/src/modbus_common.cpp
+++ b/src/modbus_common.cpp
@@ -702,7 +702,7 @@ namespace Modbus // modbus protocol common utilities
         return GetRegisterValue(data, reg, cache);
     }
 
-    // Other bits of words containing a partial register must be known to keep them on write.
+    // Other bits of words containing a register narrower than the words must be known to keep them on write.
     // Reads the words from a device if they are not read yet.
     void FillPartialRegisterCache(IModbusTraits& traits,
                                   TPort& port,
@@ -714,8 +714,8 @@ namespace Modbus // modbus protocol common utilities
                                   std::chrono::milliseconds frameTimeout,
                                   int shift)
     {
-        if (!reg.IsPartial() || reg.IsString() || !IsHoldingType(reg.Type) ||
-            reg.AccessType != TRegisterConfig::EAccessType::READ_WRITE)
+        if (reg.GetDataWidth() >= GetModbusDataWidthIn16BitWords(reg) * 16 || reg.IsString() ||
+            !IsHoldingType(reg.Type) || reg.AccessType != TRegisterConfig::EAccessType::READ_WRITE)
         {
             return;
         }
-- 
2.43.0


From 88cbdadd8a94250875c5a59efa504a7933e70d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:26 +0000
Subject: [PATCH 16/81] fix: drop the whole rest of a damaged answer at low
 baud rates

---
 src/port/file_descriptor_port.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/port/file_descriptor_port.cpp b/src/port/file_descriptor_port.cpp
index d8a3ed7..0e7b3d0 100644
--- a/src/port/file_descriptor_port.cpp
+++ b/src/port/file_descriptor_port.cpp
@@ -2,6 +2,7 @@
 #include "common_utils.h"
 #include "serial_exc.h"
 
+#include <algorithm>
 #include <iomanip>
 #include <iostream>
 #include <sys/ioctl.h>
@@ -18,6 +19,7 @@ using namespace std;
 namespace
 {
     const chrono::milliseconds NoiseTimeout(1);
+    const double NoiseTimeoutBytes = 5;
     const chrono::milliseconds ContinuousNoiseTimeout(100);
     const int ContinuousNoiseReopenNumber = 3;
 }
@@ -215,7 +217,10 @@ void TFileDescriptorPort::SkipNoise()
     auto start = std::chrono::steady_clock::now();
     int ntries = 0;
 
-    while (Select(NoiseTimeout)) {
+    // At low baud rates bytes of one frame are more than NoiseTimeout apart.
+    // A rest of the frame left in the buffer would be taken as a start of the next response
+    const auto timeout = std::max<chrono::microseconds>(NoiseTimeout, GetSendTimeBytes(NoiseTimeoutBytes));
+    while (Select(timeout)) {
         size_t nread = ReadAvailableData(buf, sizeof(buf) / sizeof(buf[0]));
         auto diff = std::chrono::steady_clock::now() - start;
 
-- 
2.43.0


From 67ef4411d0ed27ac815f8924f72b00c94a8d33a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:24 +0000
Subject: [PATCH 17/81] fix: no overflow of time in collecting setup registers
 to read

---
 src/modbus_common.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modbus_common.cpp b/src/modbus_common.cpp
index 40f670f..0de5055 100644
--- a/src/modbus_common.cpp
+++ b/src/modbus_common.cpp
@@ -866,7 +866,7 @@ namespace Modbus // modbus protocol common utilities
     {
         auto it = setupItems.begin();
         while (it != setupItems.end()) {
-            TModbusRegisterRange range(std::chrono::microseconds::max());
+            TModbusRegisterRange range(std::chrono::microseconds::zero());
             while (it != setupItems.end()) {
                 auto item = *it;
                 if (!item->RegisterConfig->IsPartial()) {
-- 
2.43.0


From 2dd49783b36d6d0790a71e1d760b1be5a28b0c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:24 +0000
Subject: [PATCH 18/81] fix: write grouped setup items that precede an item of
 a part of a register

---
 src/modbus_common.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modbus_common.cpp b/src/modbus_common.cpp
index 0de5055..2797bf6 100644
--- a/src/modbus_common.cpp
+++ b/src/modbus_common.cpp
@@ -925,7 +925,8 @@ namespace Modbus // modbus protocol common utilities
         while (startIt != endIt) {
             auto item = *startIt;
             if (item->RegisterConfig->IsPartial()) {
-                return startIt;
+                // It is written separately after the already collected items
+                break;
             }
 
             auto address = GetUint32RegisterAddress(item->RegisterConfig->GetWriteAddress());
-- 
2.43.0


From 96d602415e2148fbde45772c36724d81631ef3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:58 +0000
Subject: [PATCH 19/81] fix: repeat writing of setup items if it fails after
 the device has answered a read request

---
 src/serial_device.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/serial_device.cpp b/src/serial_device.cpp
index 4d7adb3..44c1a30 100644
--- a/src/serial_device.cpp
+++ b/src/serial_device.cpp
@@ -116,7 +116,12 @@ void TSerialDevice::Prepare(TPort& port, TDevicePrepareMode prepareMode)
             WriteSetupRegisters(port, GetSetupItems());
         }
     } catch (const TSerialDeviceException& ex) {
-        SetTransferResult(false);
+        if (deviceWasDisconnected && ConnectionState == TDeviceConnectionState::CONNECTED) {
+            // The device answers, but it is not completely set up. The preparation must be repeated
+            SetDisconnected();
+        } else {
+            SetTransferResult(false);
+        }
         throw;
     }
 }
-- 
2.43.0


From 1d21378ff71e75eb3555531f4d8e1ea118dda50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:29 +0000
Subject: [PATCH 20/81] fix: forget contents of registers of a device on
 reconnection

---
 src/devices/modbus_device.cpp    | 2 ++
 src/devices/modbus_io_device.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/devices/modbus_device.cpp b/src/devices/modbus_device.cpp
index b4d3a4f..aba9463 100644
--- a/src/devices/modbus_device.cpp
+++ b/src/devices/modbus_device.cpp
@@ -73,6 +73,8 @@ void TModbusDevice::PrepareImpl(TPort& port)
 {
     TSerialDevice::PrepareImpl(port);
     if (GetConnectionState() != TDeviceConnectionState::CONNECTED) {
+        // It could be restarted, remembered values of registers could change
+        ModbusCache.clear();
         if (EnableWbContinuousRead) {
             ContinuousReadEnabled =
                 Modbus::EnableWbContinuousRead(shared_from_this(), *ModbusTraits, port, SlaveId, ModbusCache);
diff --git a/src/devices/modbus_io_device.cpp b/src/devices/modbus_io_device.cpp
index 866990f..80793be 100644
--- a/src/devices/modbus_io_device.cpp
+++ b/src/devices/modbus_io_device.cpp
@@ -71,6 +71,8 @@ void TModbusIODevice::PrepareImpl(TPort& port)
 {
     TSerialDevice::PrepareImpl(port);
     if (GetConnectionState() != TDeviceConnectionState::CONNECTED) {
+        // It could be restarted, remembered values of registers could change
+        ModbusCache.clear();
         Modbus::EnableWbContinuousRead(shared_from_this(), *ModbusTraits, port, SlaveId, ModbusCache);
     }
 }
-- 
2.43.0


From a2f4b8f0c00ffa0cff018a4f935f92286a1e50be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:44 +0000
Subject: [PATCH 21/81] fix: write setup items of a group separately if the
 device rejects the group

---
 src/modbus_common.cpp | 78 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 58 insertions(+), 20 deletions(-)

diff --git a/src/modbus_common.cpp b/src/modbus_common.cpp
index 2797bf6..01ac174 100644
--- a/src/modbus_common.cpp
+++ b/src/modbus_common.cpp
@@ -903,6 +903,38 @@ namespace Modbus // modbus protocol common utilities
         return true;
     }
 
+    void WriteSetupRegister(Modbus::IModbusTraits& traits,
+                            TPort& port,
+                            uint8_t slaveId,
+                            TDeviceSetupItem& item,
+                            Modbus::TRegisterCache& cache,
+                            std::chrono::microseconds requestDelay,
+                            std::chrono::milliseconds responseTimeout,
+                            std::chrono::milliseconds frameTimeout,
+                            bool breakOnError,
+                            int shift)
+    {
+        try {
+            WriteRegister(traits,
+                          port,
+                          slaveId,
+                          *item.RegisterConfig,
+                          item.RawValue,
+                          cache,
+                          requestDelay,
+                          responseTimeout,
+                          frameTimeout,
+                          shift);
+            LOG(Info) << item.ToString();
+        } catch (const TSerialDevicePermanentRegisterException& e) {
+            std::string error = "Failed to write register <" + item.RegisterConfig->ToString() + ">: " + e.what();
+            LOG(Warn) << error;
+            if (breakOnError) {
+                throw TSerialDeviceException(error);
+            }
+        }
+    }
+
     TDeviceSetupItems::iterator WriteMultipleSetupRegisters(Modbus::IModbusTraits& traits,
                                                             TPort& port,
                                                             uint8_t slaveId,
@@ -918,6 +950,7 @@ namespace Modbus // modbus protocol common utilities
     {
         Modbus::TRegisterCache tmpCache;
         std::vector<uint8_t> data;
+        auto firstIt = startIt;
         PDeviceSetupItem first = *startIt;
         PDeviceSetupItem last = nullptr;
         auto start = GetUint32RegisterAddress(first->RegisterConfig->GetWriteAddress());
@@ -971,6 +1004,21 @@ namespace Modbus // modbus protocol common utilities
             if (breakOnError) {
                 throw TSerialDeviceException(error);
             }
+            // The device rejects the whole group because of one item, others must be written
+            if (last != first) {
+                for (auto it = firstIt; it != startIt; ++it) {
+                    WriteSetupRegister(traits,
+                                       port,
+                                       slaveId,
+                                       **it,
+                                       cache,
+                                       requestDelay,
+                                       responseTimeout,
+                                       frameTimeout,
+                                       breakOnError,
+                                       shift);
+                }
+            }
         }
         return startIt;
     }
@@ -1018,26 +1066,16 @@ namespace Modbus // modbus protocol common utilities
                                                  breakOnError,
                                                  shift);
             } else {
-                try {
-                    WriteRegister(traits,
-                                  port,
-                                  slaveId,
-                                  *item->RegisterConfig,
-                                  item->RawValue,
-                                  cache,
-                                  requestDelay,
-                                  responseTimeout,
-                                  frameTimeout,
-                                  shift);
-                    LOG(Info) << item->ToString();
-                } catch (const TSerialDevicePermanentRegisterException& e) {
-                    std::string error =
-                        "Failed to write register <" + item->RegisterConfig->ToString() + ">: " + e.what();
-                    LOG(Warn) << error;
-                    if (breakOnError) {
-                        throw TSerialDeviceException(error);
-                    }
-                }
+                WriteSetupRegister(traits,
+                                   port,
+                                   slaveId,
+                                   *item,
+                                   cache,
+                                   requestDelay,
+                                   responseTimeout,
+                                   frameTimeout,
+                                   breakOnError,
+                                   shift);
                 ++it;
             }
         }
-- 
2.43.0


From a21485a76b7b2f6af3a136ee7918867e16d7527e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:44 +0000
Subject: [PATCH 22/81] fix: read setup registers of MODBUS IO modules by their
 own addresses

---
 src/modbus_common.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modbus_common.cpp b/src/modbus_common.cpp
index 01ac174..b95e15d 100644
--- a/src/modbus_common.cpp
+++ b/src/modbus_common.cpp
@@ -893,7 +893,7 @@ namespace Modbus // modbus protocol common utilities
                 }
                 ++it;
             }
-            ReadRegisterRange(traits, port, slaveId, range, cache, shift);
+            ReadRegisterRange(traits, port, slaveId, range, cache, false, shift);
             for (auto reg: range.RegisterList()) {
                 if (reg->GetErrorState().count()) {
                     return false;
-- 
2.43.0


From 1fd3cb6c9a21dabd60a48aa6fa982668416fad60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:41 +0000
Subject: [PATCH 23/81] fix: do not mark a register for writing if the new
 value is not valid

TRegisterHandler::SetTextValue set the dirty flag before converting the text. If the conversion
failed, the previous value could be written once more by a task that was already queued.
---
 src/register_handler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/register_handler.cpp b/src/register_handler.cpp
index c8b0c98..6d0fe0b 100644
--- a/src/register_handler.cpp
+++ b/src/register_handler.cpp
@@ -93,9 +93,10 @@ bool TRegisterHandler::NeedRetryAfterWriteFail()
 
 void TRegisterHandler::SetTextValue(const std::string& v)
 {
+    auto value = ConvertToRawValue(*Reg->GetConfig(), v);
     std::lock_guard<std::mutex> lock(SetValueMutex);
     Dirty = true;
-    ValueToSet = ConvertToRawValue(*Reg->GetConfig(), v);
+    ValueToSet = value;
 }
 
 PRegister TRegisterHandler::Register() const
-- 
2.43.0


From 188af71c46e7173306f61e31a64958b6528929f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:41 +0000
Subject: [PATCH 24/81] fix: reject the whole value of a control if one of its
 items is not valid

A value of a control made of several registers was applied register by register until the first invalid
item, so a rejected value was partly written to the device.
---
 src/serial_port_driver.cpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/serial_port_driver.cpp b/src/serial_port_driver.cpp
index 89a519f..4f32694 100644
--- a/src/serial_port_driver.cpp
+++ b/src/serial_port_driver.cpp
@@ -116,23 +116,23 @@ void TSerialPortDriver::SetValueToChannel(const PDeviceChannel& channel, const s
         return;
     }
 
-    for (size_t i = 0; i < registers.size(); ++i) {
-        PRegister reg = registers[i];
-        LOG(Debug) << "setting device register: " << reg->ToString() << " <- " << valueItems[i];
-
-        try {
-            auto valueToSet = valueItems[i];
+    try {
+        for (size_t i = 0; i < registers.size(); ++i) {
             if (!channel->OnValue.empty() && valueItems[i] == "1") {
-                valueToSet = channel->OnValue;
+                valueItems[i] = channel->OnValue;
             } else if (!channel->OffValue.empty() && valueItems[i] == "0") {
-                valueToSet = channel->OffValue;
+                valueItems[i] = channel->OffValue;
             }
-            SerialClient->SetTextValue(reg, valueToSet);
-
-        } catch (std::exception& err) {
-            LOG(Warn) << "invalid value for " << channel->Describe() << ": '" << value << "' : " << err.what();
-            return;
+            // Check all items before setting any of registers
+            ConvertToRawValue(*registers[i]->GetConfig(), valueItems[i]);
+        }
+        for (size_t i = 0; i < registers.size(); ++i) {
+            PRegister reg = registers[i];
+            LOG(Debug) << "setting device register: " << reg->ToString() << " <- " << valueItems[i];
+            SerialClient->SetTextValue(reg, valueItems[i]);
         }
+    } catch (std::exception& err) {
+        LOG(Warn) << "invalid value for " << channel->Describe() << ": '" << value << "' : " << err.what();
     }
 }
 
-- 
2.43.0


From 2d1c91bafd7d4042d2219a73878d92084469cbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:41 +0000
Subject: [PATCH 25/81] fix: refuse nan, infinity and too large numbers for
 integer registers

The result of llround is unspecified for them, so garbage was written to the device.
---
 src/register.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/register.cpp b/src/register.cpp
index 3686d23..db416ea 100644
--- a/src/register.cpp
+++ b/src/register.cpp
@@ -499,6 +499,19 @@ template<typename T> T RoundValue(T val, double round_to)
     return round_to > 0 ? std::round(val / round_to) * round_to : val;
 }
 
+namespace
+{
+    // llround result is unspecified for infinities, NaN and values that do not fit into 64 bits
+    int64_t RoundToInteger(double value, const std::string& str)
+    {
+        const double limit = 9223372036854775808.0; // 2^63
+        if (!(value >= -limit && value < limit)) {
+            throw std::out_of_range("\"" + str + "\" can't be represented as 64-bit integer");
+        }
+        return llround(value);
+    }
+}
+
 template<class T> struct TConvertTraits
 {};
 
@@ -512,7 +525,7 @@ template<> struct TConvertTraits<int64_t>
             if (reg.Scale == 1 && reg.Offset == 0) {
                 return value;
             }
-            return llround((value - reg.Offset) / reg.Scale);
+            return RoundToInteger((value - reg.Offset) / reg.Scale, str);
         }
         throw std::invalid_argument("\"" + str + "\" can't be converted to integer");
     }
@@ -531,7 +544,7 @@ template<> struct TConvertTraits<uint64_t>
             // stoull wraps negative numbers around
             double signedValue =
                 (str.find('-') == std::string::npos) ? static_cast<double>(value) : static_cast<int64_t>(value);
-            auto res = llround((signedValue - reg.Offset) / reg.Scale);
+            auto res = RoundToInteger((signedValue - reg.Offset) / reg.Scale, str);
             if (res < 0) {
                 throw std::out_of_range("\"" + str + "\" after applying scale and offset is not an unsigned integer: " +
                                         std::to_string(res));
@@ -553,7 +566,7 @@ template<typename T> T FromScaledTextValue(const TRegisterConfig& reg, const std
     try {
         return TConvertTraits<T>::FromScaledTextValue(reg, str, 10);
     } catch (const std::invalid_argument&) {
-        auto res = llround(FromScaledTextValue<double>(reg, str));
+        auto res = RoundToInteger(FromScaledTextValue<double>(reg, str), str);
         if (std::is_unsigned<T>::value && (res < 0)) {
             throw std::out_of_range(
                 "\"" + str + "\" after applying scale and offset is not an unsigned integer: " + std::to_string(res));
-- 
2.43.0


From 974429dafcf1c81562c3e9dd50c353c704bb21bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:58 +0000
Subject: [PATCH 26/81] fix: keep polling when tasks are queued faster than
 they are executed

The loop that executes queued tasks ended only when the queue was empty, so a continuous flow of
writes stopped polling of the port.
---
 src/serial_client.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/serial_client.cpp b/src/serial_client.cpp
index f0449df..6fa162d 100644
--- a/src/serial_client.cpp
+++ b/src/serial_client.cpp
@@ -105,6 +105,10 @@ void TSerialClient::WaitForPollAndFlush(steady_clock::time_point currentTime, st
                 }
             }
             lock.lock();
+            // Do not let tasks that are queued faster than executed to stop polling
+            if (NowFn() > waitUntil) {
+                break;
+            }
         }
     }
     for (auto& task: retryTasks) {
-- 
2.43.0


From fc2cafd6e81c122a9e040abcc0d875d6079619f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:03 +0000
Subject: [PATCH 27/81] fix: do not undo an unconfirmed write by a write of
 another part of the same register

---
 src/modbus_common.cpp | 64 +++++++++++++++++++++++++++++++++----------
 1 file changed, 50 insertions(+), 14 deletions(-)

diff --git a/src/modbus_common.cpp b/src/modbus_common.cpp
index b95e15d..fd6f407 100644
--- a/src/modbus_common.cpp
+++ b/src/modbus_common.cpp
@@ -739,19 +739,19 @@ namespace Modbus // modbus protocol common utilities
         }
     }
 
-    void WriteRegister(IModbusTraits& traits,
-                       TPort& port,
-                       uint8_t slaveId,
-                       const TRegisterConfig& reg,
-                       const TRegisterValue& value,
-                       Modbus::TRegisterCache& cache,
-                       std::chrono::microseconds requestDelay,
-                       std::chrono::milliseconds responseTimeout,
-                       std::chrono::milliseconds frameTimeout,
-                       int shift)
+    // New words of a partially written register are stored to tmpCache
+    void WriteRegisterWords(IModbusTraits& traits,
+                            TPort& port,
+                            uint8_t slaveId,
+                            const TRegisterConfig& reg,
+                            const TRegisterValue& value,
+                            Modbus::TRegisterCache& cache,
+                            Modbus::TRegisterCache& tmpCache,
+                            std::chrono::microseconds requestDelay,
+                            std::chrono::milliseconds responseTimeout,
+                            std::chrono::milliseconds frameTimeout,
+                            int shift)
     {
-        Modbus::TRegisterCache tmpCache;
-
         FillPartialRegisterCache(traits, port, slaveId, reg, cache, requestDelay, responseTimeout, frameTimeout, shift);
 
         LOG(Debug) << port.GetDescription() << " modbus:" << std::to_string(slaveId) << " write "
@@ -805,9 +805,45 @@ namespace Modbus // modbus protocol common utilities
                                  frameTimeout);
             }
         }
-        for (const auto& item: tmpCache) {
-            cache.insert_or_assign(item.first, item.second);
+    }
+
+    void WriteRegister(IModbusTraits& traits,
+                       TPort& port,
+                       uint8_t slaveId,
+                       const TRegisterConfig& reg,
+                       const TRegisterValue& value,
+                       Modbus::TRegisterCache& cache,
+                       std::chrono::microseconds requestDelay,
+                       std::chrono::milliseconds responseTimeout,
+                       std::chrono::milliseconds frameTimeout,
+                       int shift)
+    {
+        Modbus::TRegisterCache tmpCache;
+        auto updateCache = [&]() {
+            for (const auto& item: tmpCache) {
+                cache.insert_or_assign(item.first, item.second);
+            }
+        };
+        try {
+            WriteRegisterWords(traits,
+                               port,
+                               slaveId,
+                               reg,
+                               value,
+                               cache,
+                               tmpCache,
+                               requestDelay,
+                               responseTimeout,
+                               frameTimeout,
+                               shift);
+        } catch (const TSerialDevicePermanentRegisterException&) {
+            throw;
+        } catch (const TSerialDeviceException&) {
+            // The device could execute the request, a write of another part of the same words must not undo it
+            updateCache();
+            throw;
         }
+        updateCache();
     }
 
     void ProcessRangeException(TModbusRegisterRange& range, const char* msg)
-- 
2.43.0


From 6a45d2e755e08677a80148af2fbeff10da1391c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:28 +0000
Subject: [PATCH 28/81] fix: do not poll a disconnected device whose polling is
 suspended

---
 src/serial_client_register_poller.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/serial_client_register_poller.cpp b/src/serial_client_register_poller.cpp
index 76ba24d..6fb99e3 100644
--- a/src/serial_client_register_poller.cpp
+++ b/src/serial_client_register_poller.cpp
@@ -340,6 +340,10 @@ void TSerialClientRegisterPoller::RescheduleDisconnectedDevices()
 {
     std::unique_lock lock(Mutex);
     for (auto& device: DisconnectedDevicesWaitingForReschedule) {
+        // Polling of the device could be suspended after disconnection
+        if (DevicesWithSpendedPoll.find(device) != DevicesWithSpendedPoll.end()) {
+            continue;
+        }
         auto range = Devices.equal_range(device);
         for (auto it = range.first; it != range.second; ++it) {
             Scheduler.Remove(it->second);
-- 
2.43.0


From 9f6b365b226802d9597292b76bb539c8961cbc96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:32 +0000
Subject: [PATCH 29/81] fix: accept hexadecimal and octal slave ids in RPC
 requests to configured devices

---
 src/rpc/rpc_helpers.cpp      | 4 ++--
 src/rpc/rpc_port_handler.cpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rpc/rpc_helpers.cpp b/src/rpc/rpc_helpers.cpp
index df0f4da..02a1d2b 100644
--- a/src/rpc/rpc_helpers.cpp
+++ b/src/rpc/rpc_helpers.cpp
@@ -48,7 +48,7 @@ Json::Value LoadRPCRequestSchema(const std::string& schemaFilePath, const std::s
 
 void ReadModbusRegister(TPort& port, TRPCDeviceRequest& request, PRegisterConfig registerConfig, TRegisterValue& value)
 {
-    auto slaveId = static_cast<uint8_t>(std::stoi(request.Device->DeviceConfig()->SlaveId));
+    auto slaveId = static_cast<uint8_t>(std::stoi(request.Device->DeviceConfig()->SlaveId, 0, 0));
     auto traits = MakeModbusTraits(request.ProtocolParams.protocol->GetName());
     for (int i = 0; i <= MAX_RPC_RETRIES; ++i) {
         try {
@@ -87,7 +87,7 @@ void WriteModbusRegister(TPort& port,
                          PRegisterConfig registerConfig,
                          const TRegisterValue& value)
 {
-    auto slaveId = static_cast<uint8_t>(std::stoi(request.Device->DeviceConfig()->SlaveId));
+    auto slaveId = static_cast<uint8_t>(std::stoi(request.Device->DeviceConfig()->SlaveId, 0, 0));
     auto traits = MakeModbusTraits(request.ProtocolParams.protocol->GetName());
     Modbus::TRegisterCache cache;
     for (int i = 0; i <= MAX_RPC_RETRIES; ++i) {
diff --git a/src/rpc/rpc_port_handler.cpp b/src/rpc/rpc_port_handler.cpp
index 8ff6f28..9ca07e3 100644
--- a/src/rpc/rpc_port_handler.cpp
+++ b/src/rpc/rpc_port_handler.cpp
@@ -61,7 +61,7 @@ void TRPCPortHandler::PortLoad(const Json::Value& request,
             rpcRequest->OnResult = onResult;
             rpcRequest->OnError = onError;
             if (clientParams.Device) {
-                rpcRequest->SlaveId = std::stoul(clientParams.Device->DeviceConfig()->SlaveId);
+                rpcRequest->SlaveId = std::stoul(clientParams.Device->DeviceConfig()->SlaveId, 0, 0);
                 rpcRequest->Protocol = protocol;
             }
             SerialClientTaskRunner.RunTask(request, std::make_shared<TRPCPortLoadModbusSerialClientTask>(rpcRequest));
-- 
2.43.0


From 8df4a886ececede2670636bbf588428e602a38db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:50 +0000
Subject: [PATCH 30/81] fix: refuse RPC requests with Modbus addresses, counts
 and slave ids out of range

---
 src/rpc/rpc_device_load_config_task.h               | 2 +-
 src/rpc/rpc_device_probe_task.cpp                   | 2 +-
 src/rpc/rpc_port_load_modbus_serial_client_task.cpp | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rpc/rpc_device_load_config_task.h b/src/rpc/rpc_device_load_config_task.h
index 3a59419..19ff3f7 100644
--- a/src/rpc/rpc_device_load_config_task.h
+++ b/src/rpc/rpc_device_load_config_task.h
@@ -3,7 +3,7 @@
 
 template<> bool inline WBMQTT::JSON::Is<uint8_t>(const Json::Value& value)
 {
-    return value.isUInt();
+    return value.isUInt() && value.asUInt() <= 0xFF;
 }
 
 template<> inline uint8_t WBMQTT::JSON::As<uint8_t>(const Json::Value& value)
diff --git a/src/rpc/rpc_device_probe_task.cpp b/src/rpc/rpc_device_probe_task.cpp
index c496dde..f660f7d 100644
--- a/src/rpc/rpc_device_probe_task.cpp
+++ b/src/rpc/rpc_device_probe_task.cpp
@@ -8,7 +8,7 @@
 
 template<> bool inline WBMQTT::JSON::Is<uint8_t>(const Json::Value& value)
 {
-    return value.isUInt();
+    return value.isUInt() && value.asUInt() <= 0xFF;
 }
 
 template<> inline uint8_t WBMQTT::JSON::As<uint8_t>(const Json::Value& value)
diff --git a/src/rpc/rpc_port_load_modbus_serial_client_task.cpp b/src/rpc/rpc_port_load_modbus_serial_client_task.cpp
index 97b4ecc..7c349a6 100644
--- a/src/rpc/rpc_port_load_modbus_serial_client_task.cpp
+++ b/src/rpc/rpc_port_load_modbus_serial_client_task.cpp
@@ -7,7 +7,7 @@
 
 template<> bool inline WBMQTT::JSON::Is<uint8_t>(const Json::Value& value)
 {
-    return value.isUInt();
+    return value.isUInt() && value.asUInt() <= 0xFF;
 }
 
 template<> inline uint8_t WBMQTT::JSON::As<uint8_t>(const Json::Value& value)
@@ -17,7 +17,7 @@ template<> inline uint8_t WBMQTT::JSON::As<uint8_t>(const Json::Value& value)
 
 template<> bool inline WBMQTT::JSON::Is<uint16_t>(const Json::Value& value)
 {
-    return value.isUInt();
+    return value.isUInt() && value.asUInt() <= 0xFFFF;
 }
 
 template<> inline uint16_t WBMQTT::JSON::As<uint16_t>(const Json::Value& value)
-- 
2.43.0


From 1d1346665ac90d972e90988c7a398c74fe377b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:50 +0000
Subject: [PATCH 31/81] fix: refuse RPC messages with non-hexadecimal
 characters

---
 src/rpc/rpc_port_load_request.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rpc/rpc_port_load_request.cpp b/src/rpc/rpc_port_load_request.cpp
index 04e432d..86a8725 100644
--- a/src/rpc/rpc_port_load_request.cpp
+++ b/src/rpc/rpc_port_load_request.cpp
@@ -23,6 +23,10 @@ std::vector<uint8_t> HexStringToByteVector(const std::string& hexString)
         throw std::runtime_error("Hex message has odd char count");
     }
 
+    if (hexString.find_first_not_of("0123456789abcdefABCDEF") != std::string::npos) {
+        throw std::runtime_error("Hex message has invalid characters");
+    }
+
     for (size_t i = 0; i < hexString.size(); i += 2) {
         auto byte = strtol(hexString.substr(i, 2).c_str(), NULL, 16);
         byteVector.push_back(byte);
-- 
2.43.0


From 03e2f1ef741a229dbc294803889945a827c9f767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:50 +0000
Subject: [PATCH 32/81] fix: do not terminate the service if serial port
 settings can't be restored after an RPC request

---
 src/port/port.cpp        | 11 ++++++++++-
 src/port/serial_port.cpp |  2 +-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/port/port.cpp b/src/port/port.cpp
index 1af3987..fc72fbe 100644
--- a/src/port/port.cpp
+++ b/src/port/port.cpp
@@ -107,5 +107,14 @@ TSerialPortSettingsGuard::TSerialPortSettingsGuard(PPort port, const TSerialPort
 
 TSerialPortSettingsGuard::~TSerialPortSettingsGuard()
 {
-    Port->ResetSerialPortSettings();
+    // The destructor must not throw: the port may be lost or closed while the settings are changed.
+    // A closed port gets its own settings on next opening
+    try {
+        if (Port->IsOpen()) {
+            Port->ResetSerialPortSettings();
+        }
+    } catch (const std::exception& e) {
+        Warn.Log() << Port->GetDescription() << ": can't restore port settings: " << e.what();
+        Port->Close();
+    }
 }
diff --git a/src/port/serial_port.cpp b/src/port/serial_port.cpp
index 67179ee..665553b 100644
--- a/src/port/serial_port.cpp
+++ b/src/port/serial_port.cpp
@@ -169,7 +169,7 @@ void TSerialPort::Open()
             throw std::runtime_error("can't get termios attributes " + FormatErrno(errno));
         }
 
-        ApplySerialPortSettings(Settings);
+        ApplySerialPortSettings(InitialSettings);
 
     } catch (const std::runtime_error& e) {
         if (Fd >= 0) {
-- 
2.43.0


From d1ba8686277c36ca754d606ad1ce0ee8e42f4471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:13 +0000
Subject: [PATCH 33/81] fix: send a single reply to device/Set request without
 items to write

---
 src/rpc/rpc_device_set_task.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rpc/rpc_device_set_task.cpp b/src/rpc/rpc_device_set_task.cpp
index 611b3a4..9716fcc 100644
--- a/src/rpc/rpc_device_set_task.cpp
+++ b/src/rpc/rpc_device_set_task.cpp
@@ -17,6 +17,7 @@ namespace
         rpcRequest->GetParametersSetupItems(setupItems);
         if (setupItems.empty()) {
             rpcRequest->OnResult(Json::Value(Json::objectValue));
+            return;
         }
 
         std::string error;
-- 
2.43.0


From c17eaec0c1e9342912b6696a320c3d4146485f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:13 +0000
Subject: [PATCH 34/81] fix: return requested parameters that are used in
 channel conditions by device/Load

---
 src/rpc/rpc_device_load_task.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rpc/rpc_device_load_task.cpp b/src/rpc/rpc_device_load_task.cpp
index adeabcb..f511a08 100644
--- a/src/rpc/rpc_device_load_task.cpp
+++ b/src/rpc/rpc_device_load_task.cpp
@@ -66,6 +66,8 @@ namespace
         auto paramRegList = rpcRequest->GetParametersRegisterList(conditionParamValues);
         if (!paramRegList.empty()) {
             ReadRegisters(port, rpcRequest, paramRegList, paramData, readonlyList);
+        }
+        if (!paramData.empty()) {
             result["parameters"] = paramData;
         }
 
-- 
2.43.0


From 6ee420fdb8d0c5dcdfb98267c737122d5086a937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:33 +0000
Subject: [PATCH 35/81] fix: do not convert string registers and exponents of
 numbers to integers in RPC replies

---
 src/rpc/rpc_device_handler.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rpc/rpc_device_handler.cpp b/src/rpc/rpc_device_handler.cpp
index 1a80ee0..4b8b1cf 100644
--- a/src/rpc/rpc_device_handler.cpp
+++ b/src/rpc/rpc_device_handler.cpp
@@ -404,8 +404,11 @@ void ReadRegisterList(TPort& port, PSerialDevice device, TRPCRegisterList& regis
 Json::Value RawValueToJSON(const TRegisterConfig& reg, TRegisterValue val)
 {
     auto str = ConvertFromRawValue(reg, val);
+    if (val.GetType() == TRegisterValue::ValueType::String) {
+        return str;
+    }
     try {
-        if (str.find('.') == std::string::npos) {
+        if (str.find_first_of(".e") == std::string::npos) {
             if (str.at(0) == '-') {
                 return static_cast<Json::Int64>(std::stoll(str.c_str(), 0));
             }
-- 
2.43.0


From fb2d646bee972abfc060fdfe69b26e7a1481577e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:33 +0000
Subject: [PATCH 36/81] fix: read device model by device/LoadConfig from
 devices without extended model register

---
 src/rpc/rpc_device_load_config_task.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rpc/rpc_device_load_config_task.cpp b/src/rpc/rpc_device_load_config_task.cpp
index 3d4ba52..a5a4613 100644
--- a/src/rpc/rpc_device_load_config_task.cpp
+++ b/src/rpc/rpc_device_load_config_task.cpp
@@ -30,7 +30,7 @@ namespace
     {
         try {
             return ReadWbRegister(port, rpcRequest, WbRegisters::DEVICE_MODEL_EX_REGISTER_NAME);
-        } catch (const Modbus::TErrorBase& err) {
+        } catch (const TRPCException& err) {
             return ReadWbRegister(port, rpcRequest, WbRegisters::DEVICE_MODEL_REGISTER_NAME);
         }
     }
-- 
2.43.0


From 14399489edc4b248cafabf37696a3219f5093ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:33 +0000
Subject: [PATCH 37/81] fix: take device parameters of the requested port in
 device/LoadConfig

---
 src/rpc/rpc_device_load_config_task.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/rpc/rpc_device_load_config_task.cpp b/src/rpc/rpc_device_load_config_task.cpp
index a5a4613..d873d48 100644
--- a/src/rpc/rpc_device_load_config_task.cpp
+++ b/src/rpc/rpc_device_load_config_task.cpp
@@ -38,8 +38,15 @@ namespace
     void LoadConfigParameters(PPort port, PRPCDeviceLoadConfigRequest rpcRequest, Json::Value& parameters)
     {
         Json::Value config(WBMQTT::JSON::Parse(rpcRequest->ConfigFileName));
-        for (const auto& port: config["ports"]) {
-            for (auto cfg: port["devices"]) {
+        const auto description = port->GetDescription(false);
+        for (const auto& portConfig: config["ports"]) {
+            // devices on different ports can have the same type and address
+            if (portConfig["path"].asString() != description &&
+                portConfig["address"].asString() + ":" + portConfig["port"].asString() != description)
+            {
+                continue;
+            }
+            for (auto cfg: portConfig["devices"]) {
                 const auto& dev = rpcRequest->Device->DeviceConfig();
                 if (cfg["device_type"].asString() == dev->DeviceType && cfg["slave_id"].asString() == dev->SlaveId) {
                     cfg.removeMember("channels");
-- 
2.43.0


From f545bf0b0ecd51b52e5c33b7a735569237d19702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:46 +0000
Subject: [PATCH 38/81] fix: use Modbus TCP frames for port/Setup items without
 serial number on Modbus TCP ports

---
 src/rpc/rpc_port_setup_serial_client_task.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/rpc/rpc_port_setup_serial_client_task.cpp b/src/rpc/rpc_port_setup_serial_client_task.cpp
index 35d5eba..1dbbaf4 100644
--- a/src/rpc/rpc_port_setup_serial_client_task.cpp
+++ b/src/rpc/rpc_port_setup_serial_client_task.cpp
@@ -94,7 +94,7 @@ ISerialClientTask::TRunResult TRPCPortSetupSerialClientTask::Run(PFeaturePort po
             baseTraits = std::make_unique<Modbus::TModbusRTUTraits>();
         }
         ModbusExt::TModbusTraits fastModbusTraits(std::move(baseTraits));
-        Modbus::TModbusRTUTraits rtuTraits(false);
+        auto traits = MakeModbusTraits(port->IsModbusTcp() ? "modbus-tcp" : "modbus");
         auto frameTimeout =
             std::chrono::ceil<std::chrono::milliseconds>(port->GetSendTimeBytes(Modbus::STANDARD_FRAME_TIMEOUT_BYTES));
         for (auto item: Request->Items) {
@@ -106,8 +106,7 @@ ISerialClientTask::TRunResult TRPCPortSetupSerialClientTask::Run(PFeaturePort po
                 fastModbusTraits.SetSn(item.Sn.value());
             }
             Modbus::TRegisterCache cache;
-            Modbus::WriteSetupRegisters(item.Sn ? static_cast<Modbus::IModbusTraits&>(fastModbusTraits)
-                                                : static_cast<Modbus::IModbusTraits&>(rtuTraits),
+            Modbus::WriteSetupRegisters(item.Sn ? fastModbusTraits : *traits,
                                         *port,
                                         item.SlaveId,
                                         item.Regs,
-- 
2.43.0


From cb71a03decd667a6dbc1e255eef1094dd4e9c166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:46 +0000
Subject: [PATCH 39/81] fix: do not crash on RPC requests with device_id if
 there is no serial driver

---
 src/rpc/rpc_port_driver_list.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rpc/rpc_port_driver_list.cpp b/src/rpc/rpc_port_driver_list.cpp
index 1025931..ad552c2 100644
--- a/src/rpc/rpc_port_driver_list.cpp
+++ b/src/rpc/rpc_port_driver_list.cpp
@@ -126,7 +126,7 @@ TSerialClientParams TSerialClientTaskRunner::GetSerialClientParams(const Json::V
     TSerialClientParams params;
 
     auto deviceId = request["device_id"];
-    if (deviceId.isString()) {
+    if (SerialDriver && deviceId.isString()) {
         auto id = deviceId.asString();
         for (auto driver: SerialDriver->GetPortDrivers()) {
             for (auto device: driver->GetSerialClient()->GetDevices()) {
-- 
2.43.0


From 57d063825bbb30095f4fd0733c2a58727f5bb503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:46 +0000
Subject: [PATCH 40/81] fix: do not destroy RPC task executors with queued
 tasks

---
 src/rpc/rpc_port_driver_list.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rpc/rpc_port_driver_list.cpp b/src/rpc/rpc_port_driver_list.cpp
index ad552c2..fd8956c 100644
--- a/src/rpc/rpc_port_driver_list.cpp
+++ b/src/rpc/rpc_port_driver_list.cpp
@@ -86,7 +86,10 @@ TSerialClientTaskExecutor::TSerialClientTaskExecutor(PFeaturePort port): Port(po
 
 TSerialClientTaskExecutor::~TSerialClientTaskExecutor()
 {
-    Running = false;
+    {
+        std::unique_lock<std::mutex> lock(Mutex);
+        Running = false;
+    }
     TasksCv.notify_all();
     Thread.join();
 }
@@ -111,7 +114,7 @@ PFeaturePort TSerialClientTaskExecutor::GetPort() const
 bool TSerialClientTaskExecutor::IsIdle() const
 {
     std::unique_lock<std::mutex> lock(Mutex);
-    return Idle;
+    return Idle && Tasks.empty();
 }
 
 //==========================================================
-- 
2.43.0


From 8268c1cfb59e751245f871d5e6f60d98324b95b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:46 +0000
Subject: [PATCH 41/81] fix: return copies of cached device parameters, as they
 can be removed by another thread

---
 src/rpc/rpc_device_handler.cpp | 2 +-
 src/rpc/rpc_device_handler.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rpc/rpc_device_handler.cpp b/src/rpc/rpc_device_handler.cpp
index 4b8b1cf..d7a402f 100644
--- a/src/rpc/rpc_device_handler.cpp
+++ b/src/rpc/rpc_device_handler.cpp
@@ -44,7 +44,7 @@ bool TRPCDeviceParametersCache::Contains(const std::string& id) const
     return DeviceParameters.find(id) != DeviceParameters.end();
 }
 
-const Json::Value& TRPCDeviceParametersCache::Get(const std::string& id, const Json::Value& defaultValue) const
+Json::Value TRPCDeviceParametersCache::Get(const std::string& id, const Json::Value& defaultValue) const
 {
     std::unique_lock lock(Mutex);
     auto it = DeviceParameters.find(id);
diff --git a/src/rpc/rpc_device_handler.h b/src/rpc/rpc_device_handler.h
index 2e72c30..3b8362e 100644
--- a/src/rpc/rpc_device_handler.h
+++ b/src/rpc/rpc_device_handler.h
@@ -42,7 +42,7 @@ public:
      * Returns device paramerers data if cache contains it or defaultData overwise.
      * This method is thread safe.
      */
-    const Json::Value& Get(const std::string& id, const Json::Value& defaultValue = Json::Value()) const;
+    Json::Value Get(const std::string& id, const Json::Value& defaultValue = Json::Value()) const;
 
 private:
     mutable std::mutex Mutex;
-- 
2.43.0


From d37df2feb76b3e3032e530f8b406d396ae715d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:36 +0000
Subject: [PATCH 42/81] fix: remove device parameters changed by device/Set
 from cache

---
 src/rpc/rpc_device_handler.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/rpc/rpc_device_handler.cpp b/src/rpc/rpc_device_handler.cpp
index d7a402f..f25c313 100644
--- a/src/rpc/rpc_device_handler.cpp
+++ b/src/rpc/rpc_device_handler.cpp
@@ -227,6 +227,19 @@ void TRPCDeviceHandler::Set(const Json::Value& request,
                                                    helper.DeviceFromConfig,
                                                    onResult,
                                                    onError);
+        if (helper.DeviceFromConfig) {
+            // cached parameters are outdated even if only a part of the items is written
+            auto port = SerialClientTaskRunner.GetSerialClientParams(request).SerialClient->GetPort();
+            auto id = ParametersCache.GetId(*port, helper.Device->DeviceConfig()->SlaveId);
+            rpcRequest->OnResult = [this, id, onResult](const Json::Value& result) {
+                ParametersCache.Remove(id);
+                onResult(result);
+            };
+            rpcRequest->OnError = [this, id, onError](const WBMQTT::TMqttRpcErrorCode& code, const std::string& error) {
+                ParametersCache.Remove(id);
+                onError(code, error);
+            };
+        }
         SerialClientTaskRunner.RunTask(request, std::make_shared<TRPCDeviceSetSerialClientTask>(rpcRequest));
     } catch (const TRPCException& e) {
         ProcessException(e, onError);
-- 
2.43.0


From 60ac85f9546433e565b90ca2d9c7550059b59ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:16 +0000
Subject: [PATCH 43/81] fix: load device parameters with subnormal floating
 point values

---
 src/rpc/rpc_device_handler.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rpc/rpc_device_handler.cpp b/src/rpc/rpc_device_handler.cpp
index f25c313..917a0ef 100644
--- a/src/rpc/rpc_device_handler.cpp
+++ b/src/rpc/rpc_device_handler.cpp
@@ -435,5 +435,8 @@ Json::Value RawValueToJSON(const TRegisterConfig& reg, TRegisterValue val)
         return std::stod(str.c_str(), 0);
     } catch (const std::invalid_argument&) {
         return str;
+    } catch (const std::out_of_range&) {
+        // the value is too small to be represented as a normal floating point number
+        return std::strtod(str.c_str(), nullptr);
     }
 }
-- 
2.43.0


From d6e5075acd91ce7f60ec4d5e3bf2a9919c20ca02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:45 +0000
Subject: [PATCH 44/81] fix: check conditions of loaded parameters after
 loading of the parameters they depend on

---
 src/rpc/rpc_device_load_config_task.cpp | 47 +++++++++++++++++--------
 1 file changed, 33 insertions(+), 14 deletions(-)

diff --git a/src/rpc/rpc_device_load_config_task.cpp b/src/rpc/rpc_device_load_config_task.cpp
index d873d48..9c285c0 100644
--- a/src/rpc/rpc_device_load_config_task.cpp
+++ b/src/rpc/rpc_device_load_config_task.cpp
@@ -213,20 +213,39 @@ void GetRegisterListParameters(const TRPCRegisterList& registerList, Json::Value
 {
     TJsonParams jsonParams(parameters);
     Expressions::TExpressionsCache expressionsCache;
-    bool check = true;
-    while (check) {
-        check = false;
-        for (const auto& item: registerList) {
-            if (item.Register->GetValue().GetType() == TRegisterValue::ValueType::Undefined) {
-                continue;
-            }
-            if (!parameters.isMember(item.Id) && CheckCondition(item.Condition, jsonParams, &expressionsCache)) {
-                parameters[item.Id] =
-                    (item.Register->IsSupported() && !item.Register->GetErrorState().test(TRegister::TError::ReadError))
-                        ? RawValueToJSON(*item.Register->GetConfig(), item.Register->GetValue())
-                        : UNSUPPORTED_VALUE;
-                check = true;
-            }
+    std::list<const TRPCRegister*> pendingItems;
+    for (const auto& item: registerList) {
+        if (item.Register->GetValue().GetType() != TRegisterValue::ValueType::Undefined) {
+            pendingItems.push_back(&item);
         }
     }
+    // A condition must not be checked until all parameters it depends on are known
+    auto isReady = [&](const TRPCRegister& item) {
+        CheckCondition(item.Condition, jsonParams, &expressionsCache);
+        auto expr = expressionsCache.find(item.Condition);
+        if (expr == expressionsCache.end()) {
+            return true;
+        }
+        auto dependencies = Expressions::GetDependencies(expr->second.get());
+        return std::none_of(pendingItems.begin(), pendingItems.end(), [&](const TRPCRegister* pending) {
+            return std::find(dependencies.begin(), dependencies.end(), pending->Id) != dependencies.end() &&
+                   !parameters.isMember(pending->Id);
+        });
+    };
+    while (!pendingItems.empty()) {
+        auto it = std::find_if(pendingItems.begin(), pendingItems.end(), [&](const TRPCRegister* item) {
+            return isReady(*item);
+        });
+        if (it == pendingItems.end()) { // conditions depend on each other
+            it = pendingItems.begin();
+        }
+        const auto& item = **it;
+        if (!parameters.isMember(item.Id) && CheckCondition(item.Condition, jsonParams, &expressionsCache)) {
+            parameters[item.Id] =
+                (item.Register->IsSupported() && !item.Register->GetErrorState().test(TRegister::TError::ReadError))
+                    ? RawValueToJSON(*item.Register->GetConfig(), item.Register->GetValue())
+                    : UNSUPPORTED_VALUE;
+        }
+        pendingItems.erase(it);
+    }
 }
-- 
2.43.0


From 17d72c7436cbc040dd3d49748d8436645e6c38a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:45 +0000
Subject: [PATCH 45/81] fix: detect unsupported parameters which do not occupy
 whole 16-bit registers

---
 src/rpc/rpc_helpers.cpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/rpc/rpc_helpers.cpp b/src/rpc/rpc_helpers.cpp
index 02a1d2b..1865feb 100644
--- a/src/rpc/rpc_helpers.cpp
+++ b/src/rpc/rpc_helpers.cpp
@@ -158,14 +158,11 @@ bool CheckUnsupportedValue(const TRegisterConfig& config, const TRegisterValue&
             break;
         }
         case TRegisterValue::ValueType::Integer: {
-            auto v = value.Get<uint64_t>();
-            for (uint8_t i = 0; i < config.Get16BitWidth(); ++i) {
-                if ((v & 0xFFFF) != 0xFFFE) {
-                    return false;
-                }
-                v >>= 16;
-            }
-            break;
+            // the value can occupy only a part of the words
+            auto width = config.GetDataWidth();
+            auto mask = width < 64 ? (1ULL << width) - 1 : ~0ULL;
+            auto unsupported = 0xFFFEFFFEFFFEFFFEULL >> config.GetDataOffset();
+            return (value.Get<uint64_t>() & mask) == (unsupported & mask);
         }
         default:
             break;
-- 
2.43.0


From 240392b534db26e10308974fa02d7a99585c778a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:45 +0000
Subject: [PATCH 46/81] fix: do not turn on continuous read while loading of
 parameters of devices which do not use it

---
 src/rpc/rpc_helpers.cpp | 18 ++++++++++++++++++
 src/rpc/rpc_helpers.h   |  5 +++++
 2 files changed, 23 insertions(+)

diff --git a/src/rpc/rpc_helpers.cpp b/src/rpc/rpc_helpers.cpp
index 1865feb..489a772 100644
--- a/src/rpc/rpc_helpers.cpp
+++ b/src/rpc/rpc_helpers.cpp
@@ -141,6 +141,20 @@ void SetContinuousRead(TPort& port, TRPCDeviceRequest& request, bool enabled)
     }
 }
 
+bool GetContinuousRead(TPort& port, TRPCDeviceRequest& request)
+{
+    try {
+        TRegisterValue value;
+        ReadModbusRegister(port,
+                           request,
+                           WbRegisters::GetRegisterConfig(WbRegisters::CONTINUOUS_READ_REGISTER_NAME),
+                           value);
+        return value.Get<uint64_t>() != 0;
+    } catch (const Modbus::TModbusExceptionError&) {
+        return false;
+    }
+}
+
 bool CheckUnsupportedValue(const TRegisterConfig& config, const TRegisterValue& value)
 {
     switch (value.GetType()) {
@@ -181,6 +195,10 @@ void MarkUnsupportedRegisterItems(TPort& port,
             if (item.CheckUnsupported && CheckUnsupportedValue(*item.Register->GetConfig(), item.Register->GetValue()))
             {
                 if (continuousRead) {
+                    if (!GetContinuousRead(port, request)) {
+                        // the device answers with an exception to reading of unsupported registers
+                        return;
+                    }
                     SetContinuousRead(port, request, false);
                     continuousRead = false;
                 }
diff --git a/src/rpc/rpc_helpers.h b/src/rpc/rpc_helpers.h
index ece2df6..ceef819 100644
--- a/src/rpc/rpc_helpers.h
+++ b/src/rpc/rpc_helpers.h
@@ -31,6 +31,11 @@ void WriteModbusRegister(TPort& port,
  */
 void SetContinuousRead(TPort& port, TRPCDeviceRequest& request, bool enabled);
 
+/**
+ * @brief Returns true if continuous read is on (Wiren Board specific).
+ */
+bool GetContinuousRead(TPort& port, TRPCDeviceRequest& request);
+
 /**
  * @brief Checks if all 16-bit words in register value are 0xFFFE (unsupported marker).
  *        Number of words to check is determined by register config type.
-- 
2.43.0


From ba20990d56eb55ab4526747329753e6af84ccdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:40 +0000
Subject: [PATCH 47/81] fix: do not return unsupported parameters whose
 conditions are not met

---
 src/rpc/rpc_helpers.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rpc/rpc_helpers.cpp b/src/rpc/rpc_helpers.cpp
index 489a772..f14311d 100644
--- a/src/rpc/rpc_helpers.cpp
+++ b/src/rpc/rpc_helpers.cpp
@@ -191,6 +191,9 @@ void MarkUnsupportedRegisterItems(TPort& port,
 {
     auto continuousRead = true;
     for (const auto& item: registerList) {
+        if (!data.isMember(item.Id)) { // its condition is not met
+            continue;
+        }
         try {
             if (item.CheckUnsupported && CheckUnsupportedValue(*item.Register->GetConfig(), item.Register->GetValue()))
             {
-- 
2.43.0


From de7480dfb801f0a45eed295dfdaec0df77fcdda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:59 +0000
Subject: [PATCH 48/81] fix: do not report supported parameters as unsupported
 because of their neighbours

---
 src/rpc/rpc_device_handler.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/rpc/rpc_device_handler.cpp b/src/rpc/rpc_device_handler.cpp
index 917a0ef..2f5a01a 100644
--- a/src/rpc/rpc_device_handler.cpp
+++ b/src/rpc/rpc_device_handler.cpp
@@ -369,11 +369,13 @@ void ReadRegisterList(TPort& port, PSerialDevice device, TRPCRegisterList& regis
     });
 
     size_t index = 0;
+    size_t separateEnd = 0; // registers before this one are read separately
     std::string error;
     while (index < registerList.size() && error.empty()) {
+        auto firstIndex = index;
         auto first = registerList[index].Register;
         auto range = device->CreateRegisterRange();
-        while (index < registerList.size() &&
+        while (index < registerList.size() && (index == firstIndex || index >= separateEnd) &&
                range->Add(port, registerList[index].Register, std::chrono::milliseconds::max()))
         {
             ++index;
@@ -388,8 +390,17 @@ void ReadRegisterList(TPort& port, PSerialDevice device, TRPCRegisterList& regis
                           << " registers starting from <" << first->GetConfig()->ToString() + ">: " + e.what();
                 auto modbusDevice = dynamic_cast<TModbusDevice*>(device.get());
                 if (modbusDevice != nullptr && !modbusDevice->GetContinuousReadEnabled()) {
-                    for (const auto& reg: range->RegisterList()) {
-                        reg->SetSupported(false);
+                    if (range->RegisterList().size() > 1) {
+                        // a part of the registers can be supported
+                        for (const auto& reg: range->RegisterList()) {
+                            reg->SetAvailable(TRegisterAvailability::AVAILABLE);
+                        }
+                        separateEnd = index;
+                        index = firstIndex;
+                    } else {
+                        for (const auto& reg: range->RegisterList()) {
+                            reg->SetSupported(false);
+                        }
                     }
                 }
                 break;
-- 
2.43.0


From 49644c8a32f0fb782928390f7389b0d868327bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:41 +0000
Subject: [PATCH 49/81] fix: end bus scan if a device is found again

---
 src/modbus_ext_common.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/modbus_ext_common.cpp b/src/modbus_ext_common.cpp
index 0c19402..b3e7d49 100644
--- a/src/modbus_ext_common.cpp
+++ b/src/modbus_ext_common.cpp
@@ -676,6 +676,10 @@ namespace ModbusExt // modbus extension protocol declarations
             if (!res) {
                 return;
             }
+            auto isFound = [&res](const auto& device) { return device.Sn == res->Sn; };
+            if (std::any_of(scannedDevices.begin(), scannedDevices.end(), isFound)) {
+                throw Modbus::TMalformedResponseError("device with SN " + std::to_string(res->Sn) + " is found again");
+            }
             scannedDevices.push_back(*res);
         }
     }
-- 
2.43.0


From a5f788ad905e5f5ac7a3db685a838b2f76edc6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:08 +0000
Subject: [PATCH 50/81] fix: report firmware update error if device refuses
 information block

---
 src/rpc/rpc_fw_update_task.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rpc/rpc_fw_update_task.cpp b/src/rpc/rpc_fw_update_task.cpp
index 9de1344..bf27d30 100644
--- a/src/rpc/rpc_fw_update_task.cpp
+++ b/src/rpc/rpc_fw_update_task.cpp
@@ -97,7 +97,8 @@ namespace
                                    infoData);
         auto responsePduSize =
             Modbus::CalcResponsePDUSize(Modbus::FN_WRITE_MULTIPLE_REGISTERS, FwRegisters::FW_INFO_BLOCK_COUNT);
-        traits.Transaction(port, slaveId, pdu, responsePduSize, infoBlockTimeout, frameTimeout);
+        auto res = traits.Transaction(port, slaveId, pdu, responsePduSize, infoBlockTimeout, frameTimeout);
+        Modbus::ExtractResponseData(Modbus::FN_WRITE_MULTIPLE_REGISTERS, res.Pdu);
     }
 
     // Cf. firmware_update.py:349 write_fw_data_block()
-- 
2.43.0


From 70b3a490e3545e1ad370fadb3f1ae768a81d313a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:59 +0000
Subject: [PATCH 51/81] fix: refuse firmware update requests if there is
 nothing to flash

---
 src/rpc/rpc_fw_update_serial_client_task.cpp | 32 ++++++++++++++------
 src/rpc/rpc_fw_update_serial_client_task.h   | 11 +++++--
 2 files changed, 31 insertions(+), 12 deletions(-)

diff --git a/src/rpc/rpc_fw_update_serial_client_task.cpp b/src/rpc/rpc_fw_update_serial_client_task.cpp
index 1b79664..126eb14 100644
--- a/src/rpc/rpc_fw_update_serial_client_task.cpp
+++ b/src/rpc/rpc_fw_update_serial_client_task.cpp
@@ -46,6 +46,18 @@ ISerialClientTask::TRunResult TFwUpdateSerialClientTask::Run(PFeaturePort port,
         auto traits = MakeModbusTraits(Protocol);
         auto info = ReadFwDeviceInfo(*traits, *port, SlaveId);
 
+        // Find released binaries before the response, so the request is refused if there is nothing to flash
+        TReleasedBinary releasedFirmware;
+        TReleasedBinary releasedBootloader;
+        if (SoftwareType == "firmware") {
+            releasedFirmware = Downloader->GetReleasedFirmware(info.FwSignature, ReleaseSuite);
+        } else if (SoftwareType == "bootloader") {
+            releasedBootloader = Downloader->GetReleasedBootloader(info.FwSignature, ReleaseSuite);
+            releasedFirmware = Downloader->GetReleasedFirmware(info.FwSignature, ReleaseSuite);
+        } else if (SoftwareType != "component") {
+            throw std::runtime_error("Unknown software type: " + SoftwareType);
+        }
+
         // Send RPC response early — flash proceeds asynchronously from client's perspective
         if (OnResult) {
             Json::Value result;
@@ -55,13 +67,11 @@ ISerialClientTask::TRunResult TFwUpdateSerialClientTask::Run(PFeaturePort port,
 
         try {
             if (SoftwareType == "firmware") {
-                DoFirmwareUpdate(*port, *traits, info);
+                DoFirmwareUpdate(*port, *traits, info, releasedFirmware);
             } else if (SoftwareType == "bootloader") {
-                DoBootloaderUpdate(*port, *traits, info);
-            } else if (SoftwareType == "component") {
-                DoComponentsUpdate(*port, *traits, info);
+                DoBootloaderUpdate(*port, *traits, info, releasedBootloader, releasedFirmware);
             } else {
-                throw std::runtime_error("Unknown software type: " + SoftwareType);
+                DoComponentsUpdate(*port, *traits, info);
             }
         } catch (const std::exception& e) {
             LOG(Error) << "Firmware update error: " << e.what();
@@ -96,9 +106,11 @@ ISerialClientTask::TRunResult TFwUpdateSerialClientTask::Run(PFeaturePort port,
 }
 
 // Cf. firmware_update.py:785 FirmwareUpdater.update_software() — firmware branch
-void TFwUpdateSerialClientTask::DoFirmwareUpdate(TPort& port, Modbus::IModbusTraits& traits, const TFwDeviceInfo& info)
+void TFwUpdateSerialClientTask::DoFirmwareUpdate(TPort& port,
+                                                 Modbus::IModbusTraits& traits,
+                                                 const TFwDeviceInfo& info,
+                                                 const TReleasedBinary& released)
 {
-    auto released = Downloader->GetReleasedFirmware(info.FwSignature, ReleaseSuite);
     DoFlash(port,
             traits,
             "firmware",
@@ -115,9 +127,10 @@ void TFwUpdateSerialClientTask::DoFirmwareUpdate(TPort& port, Modbus::IModbusTra
 // Cf. firmware_update.py:939 _update_bootloader()
 void TFwUpdateSerialClientTask::DoBootloaderUpdate(TPort& port,
                                                    Modbus::IModbusTraits& traits,
-                                                   const TFwDeviceInfo& info)
+                                                   const TFwDeviceInfo& info,
+                                                   const TReleasedBinary& bootloader,
+                                                   const TReleasedBinary& released)
 {
-    auto bootloader = Downloader->GetReleasedBootloader(info.FwSignature, ReleaseSuite);
     DoFlash(port,
             traits,
             "bootloader",
@@ -133,7 +146,6 @@ void TFwUpdateSerialClientTask::DoBootloaderUpdate(TPort& port,
     LOG(Info) << "Auto-restoring firmware after bootloader update for slave " << static_cast<int>(SlaveId);
     std::this_thread::sleep_for(std::chrono::seconds(2));
 
-    auto released = Downloader->GetReleasedFirmware(info.FwSignature, ReleaseSuite);
     DoFlash(port,
             traits,
             "firmware",
diff --git a/src/rpc/rpc_fw_update_serial_client_task.h b/src/rpc/rpc_fw_update_serial_client_task.h
index 27d8b61..a7bfd35 100644
--- a/src/rpc/rpc_fw_update_serial_client_task.h
+++ b/src/rpc/rpc_fw_update_serial_client_task.h
@@ -27,8 +27,15 @@ public:
                                       const std::list<PSerialDevice>& polledDevices) override;
 
 private:
-    void DoFirmwareUpdate(TPort& port, Modbus::IModbusTraits& traits, const TFwDeviceInfo& info);
-    void DoBootloaderUpdate(TPort& port, Modbus::IModbusTraits& traits, const TFwDeviceInfo& info);
+    void DoFirmwareUpdate(TPort& port,
+                          Modbus::IModbusTraits& traits,
+                          const TFwDeviceInfo& info,
+                          const TReleasedBinary& released);
+    void DoBootloaderUpdate(TPort& port,
+                            Modbus::IModbusTraits& traits,
+                            const TFwDeviceInfo& info,
+                            const TReleasedBinary& bootloader,
+                            const TReleasedBinary& released);
     void DoComponentsUpdate(TPort& port, Modbus::IModbusTraits& traits, const TFwDeviceInfo& info);
     void DoFlash(TPort& port,
                  Modbus::IModbusTraits& traits,
-- 
2.43.0


From fd90454ba2de49b2772978c3c3a31c672bf0ad9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:04 +0000
Subject: [PATCH 52/81] fix: publish errors of all stages of firmware update
 and of every component

---
 src/rpc/rpc_fw_update_serial_client_task.cpp | 38 +++++++++++---------
 src/rpc/rpc_fw_update_state.cpp              | 19 ++++++----
 src/rpc/rpc_fw_update_state.h                |  5 +--
 3 files changed, 36 insertions(+), 26 deletions(-)

diff --git a/src/rpc/rpc_fw_update_serial_client_task.cpp b/src/rpc/rpc_fw_update_serial_client_task.cpp
index 126eb14..f8c3b5b 100644
--- a/src/rpc/rpc_fw_update_serial_client_task.cpp
+++ b/src/rpc/rpc_fw_update_serial_client_task.cpp
@@ -75,11 +75,6 @@ ISerialClientTask::TRunResult TFwUpdateSerialClientTask::Run(PFeaturePort port,
             }
         } catch (const std::exception& e) {
             LOG(Error) << "Firmware update error: " << e.what();
-            std::string errorId = "com.wb.serial_driver.generic_error";
-            std::string errorMsg = "Internal error. Check logs for more info";
-            Json::Value metadata;
-            metadata["exception"] = e.what();
-            State->SetError(SlaveId, PortPath, SoftwareType, errorId, errorMsg, metadata);
         }
         {
             std::lock_guard<std::mutex> lock(UpdateLock->Mutex);
@@ -206,18 +201,27 @@ void TFwUpdateSerialClientTask::DoFlash(TPort& port,
     updateInfo.ComponentModel = componentModel;
     State->Update(updateInfo);
 
-    // Download and parse firmware file
-    auto firmware = Downloader->DownloadAndParseWBFW(fwUrl);
-
-    // Flash with throttled progress updates
-    TUpdateNotifier notifier(30);
-    FlashFirmware(traits, port, SlaveId, firmware, reboot, canPreserve, [&](int percent) {
-        if (notifier.ShouldNotify(percent)) {
-            updateInfo.Progress = percent;
-            State->Update(updateInfo);
-        }
-    });
+    try {
+        // Download and parse firmware file
+        auto firmware = Downloader->DownloadAndParseWBFW(fwUrl);
+
+        // Flash with throttled progress updates
+        TUpdateNotifier notifier(30);
+        FlashFirmware(traits, port, SlaveId, firmware, reboot, canPreserve, [&](int percent) {
+            if (notifier.ShouldNotify(percent)) {
+                updateInfo.Progress = percent;
+                State->Update(updateInfo);
+            }
+        });
+    } catch (const std::exception& e) {
+        std::string errorId = "com.wb.serial_driver.generic_error";
+        std::string errorMsg = "Internal error. Check logs for more info";
+        Json::Value metadata;
+        metadata["exception"] = e.what();
+        State->SetError(SlaveId, PortPath, type, errorId, errorMsg, metadata, componentNumber);
+        throw;
+    }
 
     // Success — remove from state
-    State->Remove(SlaveId, PortPath, type);
+    State->Remove(SlaveId, PortPath, type, componentNumber);
 }
diff --git a/src/rpc/rpc_fw_update_state.cpp b/src/rpc/rpc_fw_update_state.cpp
index 558d3a7..3ab9bf3 100644
--- a/src/rpc/rpc_fw_update_state.cpp
+++ b/src/rpc/rpc_fw_update_state.cpp
@@ -11,7 +11,8 @@
 // Cf. firmware_update.py:73 DeviceUpdateInfo.__eq__()
 bool TDeviceUpdateInfo::Matches(const TDeviceUpdateInfo& other) const
 {
-    return SlaveId == other.SlaveId && PortPath == other.PortPath && Type == other.Type && Protocol == other.Protocol;
+    return SlaveId == other.SlaveId && PortPath == other.PortPath && Type == other.Type && Protocol == other.Protocol &&
+           ComponentNumber == other.ComponentNumber;
 }
 
 // ============================================================
@@ -66,7 +67,7 @@ void TFwUpdateState::Update(const TDeviceUpdateInfo& info)
     Publish(json);
 }
 
-void TFwUpdateState::Remove(int slaveId, const std::string& portPath, const std::string& type)
+void TFwUpdateState::Remove(int slaveId, const std::string& portPath, const std::string& type, int componentNumber)
 {
     std::string json;
     {
@@ -74,7 +75,8 @@ void TFwUpdateState::Remove(int slaveId, const std::string& portPath, const std:
         Devices.erase(std::remove_if(Devices.begin(),
                                      Devices.end(),
                                      [&](const TDeviceUpdateInfo& d) {
-                                         return d.SlaveId == slaveId && d.PortPath == portPath && d.Type == type;
+                                         return d.SlaveId == slaveId && d.PortPath == portPath && d.Type == type &&
+                                                d.ComponentNumber == componentNumber;
                                      }),
                       Devices.end());
         json = ToJson();
@@ -87,13 +89,15 @@ void TFwUpdateState::SetError(int slaveId,
                               const std::string& type,
                               const std::string& errorId,
                               const std::string& errorMessage,
-                              const Json::Value& metadata)
+                              const Json::Value& metadata,
+                              int componentNumber)
 {
     std::string json;
     {
         std::lock_guard<std::mutex> lock(Mutex);
         for (auto& d: Devices) {
-            if (d.SlaveId == slaveId && d.PortPath == portPath && d.Type == type) {
+            if (d.SlaveId == slaveId && d.PortPath == portPath && d.Type == type &&
+                d.ComponentNumber == componentNumber) {
                 d.Error = std::make_unique<TStateError>(TStateError{errorId, errorMessage, metadata});
                 json = ToJson();
                 break;
@@ -118,11 +122,12 @@ void TFwUpdateState::ClearError(int slaveId, const std::string& portPath, const
     std::string json;
     {
         std::lock_guard<std::mutex> lock(Mutex);
-        auto it = std::find_if(Devices.begin(), Devices.end(), [&](const TDeviceUpdateInfo& d) {
+        // There can be errors of several components
+        auto it = std::remove_if(Devices.begin(), Devices.end(), [&](const TDeviceUpdateInfo& d) {
             return d.SlaveId == slaveId && d.PortPath == portPath && d.Type == type && d.Error;
         });
         if (it != Devices.end()) {
-            Devices.erase(it);
+            Devices.erase(it, Devices.end());
             json = ToJson();
         }
     }
diff --git a/src/rpc/rpc_fw_update_state.h b/src/rpc/rpc_fw_update_state.h
index aa82f47..e1fb699 100644
--- a/src/rpc/rpc_fw_update_state.h
+++ b/src/rpc/rpc_fw_update_state.h
@@ -39,13 +39,14 @@ public:
     TFwUpdateState(TStatePublishFn publishFn, const std::string& topic);
 
     void Update(const TDeviceUpdateInfo& info);
-    void Remove(int slaveId, const std::string& portPath, const std::string& type);
+    void Remove(int slaveId, const std::string& portPath, const std::string& type, int componentNumber = -1);
     void SetError(int slaveId,
                   const std::string& portPath,
                   const std::string& type,
                   const std::string& errorId,
                   const std::string& errorMessage,
-                  const Json::Value& metadata = Json::Value());
+                  const Json::Value& metadata = Json::Value(),
+                  int componentNumber = -1);
     bool HasActiveUpdate(int slaveId, const std::string& portPath) const;
     void ClearError(int slaveId, const std::string& portPath, const std::string& type);
     void Reset();
-- 
2.43.0


From 9ec483b427078601a88f3ec54ea390a7efc563dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:06 +0000
Subject: [PATCH 53/81] fix: do not take directory name of firmware URL as a
 part of firmware version

---
 src/rpc/rpc_fw_downloader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rpc/rpc_fw_downloader.cpp b/src/rpc/rpc_fw_downloader.cpp
index 7016d45..ad9d60f 100644
--- a/src/rpc/rpc_fw_downloader.cpp
+++ b/src/rpc/rpc_fw_downloader.cpp
@@ -122,7 +122,7 @@ TParsedWBFW ParseWBFW(const std::vector<uint8_t>& data)
 std::string ParseFwVersionFromUrl(const std::string& url)
 {
     // Match .../version.wbfw or .../version.compfw
-    std::regex re(R"(.+/(.+)\.(wbfw|compfw))");
+    std::regex re(R"(.+/([^/]+)\.(wbfw|compfw))");
     std::smatch match;
     if (std::regex_match(url, match, re)) {
         return match[1].str();
-- 
2.43.0


From c5136871759520e0e90c3777ae99d2453943ef2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:06 +0000
Subject: [PATCH 54/81] fix: allow to suspend and resume poll before the first
 cycle of the port

---
 src/serial_client.cpp | 4 ++++
 src/serial_client.h   | 1 +
 2 files changed, 5 insertions(+)

diff --git a/src/serial_client.cpp b/src/serial_client.cpp
index 6fa162d..fa0818a 100644
--- a/src/serial_client.cpp
+++ b/src/serial_client.cpp
@@ -71,6 +71,8 @@ void TSerialClient::AddDevice(PSerialDevice device)
 
 void TSerialClient::Activate()
 {
+    // Can be called from port's thread and from RPC thread
+    std::unique_lock<std::mutex> lock(ActivateMutex);
     if (!RegReader) {
         RegReader = std::make_unique<TSerialClientRegisterAndEventsReader>(Devices,
                                                                            GetReadEventsPeriod(*Port),
@@ -220,11 +222,13 @@ void TSerialClient::AddTask(PSerialClientTask task)
 
 void TSerialClient::SuspendPoll(PSerialDevice device, std::chrono::steady_clock::time_point currentTime)
 {
+    Activate();
     RegReader->SuspendPoll(device, currentTime);
 }
 
 void TSerialClient::ResumePoll(PSerialDevice device)
 {
+    Activate();
     RegReader->ResumePoll(device);
 }
 
diff --git a/src/serial_client.h b/src/serial_client.h
index cb792bd..b609bb4 100644
--- a/src/serial_client.h
+++ b/src/serial_client.h
@@ -131,6 +131,7 @@ private:
 
     size_t LowPriorityRateLimit;
 
+    std::mutex ActivateMutex;
     std::mutex TasksMutex;
     std::condition_variable TasksCv;
     std::vector<PSerialClientTask> Tasks;
-- 
2.43.0


From 8860a4496df98e55076554dee1c8d3d788a2eeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:22 +0000
Subject: [PATCH 55/81] fix: data race on stop of port loops

---
 src/serial_driver.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/serial_driver.h b/src/serial_driver.h
index 6828a4d..1c03489 100644
--- a/src/serial_driver.h
+++ b/src/serial_driver.h
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <atomic>
+
 #include "serial_port_driver.h"
 
 class TMQTTSerialDriver
@@ -18,7 +20,7 @@ private:
     std::vector<PSerialPortDriver> PortDrivers;
     std::vector<std::thread> PortLoops;
     std::mutex ActiveMutex;
-    bool Active;
+    std::atomic<bool> Active;
 };
 
 typedef std::shared_ptr<TMQTTSerialDriver> PMQTTSerialDriver;
-- 
2.43.0


From b7399cd5120b005d763220edb5aacf971411e78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:29 +0000
Subject: [PATCH 56/81] fix: change state of device with suspended poll in
 port's thread only

---
 src/serial_client.cpp                 |  3 +++
 src/serial_client_register_poller.cpp | 23 +++++++++++++++++------
 src/serial_client_register_poller.h   |  5 +++++
 3 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/serial_client.cpp b/src/serial_client.cpp
index fa0818a..da608b7 100644
--- a/src/serial_client.cpp
+++ b/src/serial_client.cpp
@@ -253,6 +253,7 @@ TSerialClientRegisterAndEventsReader::TSerialClientRegisterAndEventsReader(const
 void TSerialClientRegisterAndEventsReader::ClosedPortCycle(std::chrono::steady_clock::time_point currentTime,
                                                            TRegisterCallback regCallback)
 {
+    RegisterPoller.DisconnectSuspendedDevices();
     EventsReader->SetReadErrors(regCallback);
     RegisterPoller.ClosedPortCycle(currentTime, regCallback);
 }
@@ -279,6 +280,8 @@ PSerialDevice TSerialClientRegisterAndEventsReader::OpenPortCycle(TFeaturePort&
                                                                   TRegisterCallback regCallback,
                                                                   TSerialClientDeviceAccessHandler& lastAccessedDevice)
 {
+    RegisterPoller.DisconnectSuspendedDevices();
+
     // Count idle time as high priority task time to faster reach time balancing threshold
     if (LastCycleWasTooSmallToPoll) {
         TimeBalancer.UpdateSelectionTime(ceil<milliseconds>(SpentTime.GetSpentTime()), TPriority::High);
diff --git a/src/serial_client_register_poller.cpp b/src/serial_client_register_poller.cpp
index 6fb99e3..e22a0f0 100644
--- a/src/serial_client_register_poller.cpp
+++ b/src/serial_client_register_poller.cpp
@@ -284,9 +284,8 @@ void TSerialClientRegisterPoller::SuspendPoll(PSerialDevice device, std::chrono:
     DevicesWithSpendedPoll[device] = currentTime + SUSPEND_POLL_TIMEOUT;
     LOG(Info) << "Device " << device->ToString() << " poll suspended";
 
-    if (device->GetConnectionState() != TDeviceConnectionState::DISCONNECTED) {
-        device->SetDisconnected();
-    }
+    // The method can be called from any thread, but device state must be changed by port's thread only
+    DevicesWaitingForDisconnect.push_back(device);
 }
 
 void TSerialClientRegisterPoller::ResumePoll(PSerialDevice device)
@@ -309,9 +308,7 @@ void TSerialClientRegisterPoller::ResumePoll(PSerialDevice device)
 
 void TSerialClientRegisterPoller::OnDeviceConnectionStateChanged(PSerialDevice device)
 {
-    if (device->GetConnectionState() == TDeviceConnectionState::DISCONNECTED &&
-        DevicesWithSpendedPoll.find(device) == DevicesWithSpendedPoll.end())
-    {
+    if (device->GetConnectionState() == TDeviceConnectionState::DISCONNECTED) {
         DisconnectedDevicesWaitingForReschedule.push_back(device);
     }
 }
@@ -336,6 +333,20 @@ std::string TThrottlingStateLogger::GetMessage()
     return std::string();
 }
 
+void TSerialClientRegisterPoller::DisconnectSuspendedDevices()
+{
+    std::vector<PSerialDevice> devices;
+    {
+        std::unique_lock lock(Mutex);
+        devices.swap(DevicesWaitingForDisconnect);
+    }
+    for (auto& device: devices) {
+        if (device->GetConnectionState() != TDeviceConnectionState::DISCONNECTED) {
+            device->SetDisconnected();
+        }
+    }
+}
+
 void TSerialClientRegisterPoller::RescheduleDisconnectedDevices()
 {
     std::unique_lock lock(Mutex);
diff --git a/src/serial_client_register_poller.h b/src/serial_client_register_poller.h
index 8493395..8631041 100644
--- a/src/serial_client_register_poller.h
+++ b/src/serial_client_register_poller.h
@@ -51,6 +51,9 @@ public:
     void SuspendPoll(PSerialDevice device, std::chrono::steady_clock::time_point currentTime);
     void ResumePoll(PSerialDevice device);
 
+    //! Mark devices passed to SuspendPoll as disconnected. Must be called from port's thread
+    void DisconnectSuspendedDevices();
+
 private:
     void ScheduleNextPoll(PPollableDevice device, std::chrono::steady_clock::time_point currentTime);
     std::chrono::steady_clock::time_point GetDeadline(bool lowPriorityRateLimitIsExceeded,
@@ -69,6 +72,8 @@ private:
 
     TRateLimiter LowPriorityRateLimiter;
 
+    std::vector<PSerialDevice> DevicesWaitingForDisconnect;
+
     std::vector<PSerialDevice> DisconnectedDevicesWaitingForReschedule;
 
     std::unordered_map<PSerialDevice, std::chrono::steady_clock::time_point> DevicesWithSpendedPoll;
-- 
2.43.0


From fa4154c796db09a639e1d91761d33af256dcc1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:29 +0000
Subject: [PATCH 57/81] fix: race between resuming of poll by request and by
 timeout

---
 src/serial_client_register_poller.cpp | 17 ++++++++++-------
 src/serial_client_register_poller.h   |  1 +
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/serial_client_register_poller.cpp b/src/serial_client_register_poller.cpp
index e22a0f0..19a41eb 100644
--- a/src/serial_client_register_poller.cpp
+++ b/src/serial_client_register_poller.cpp
@@ -296,6 +296,11 @@ void TSerialClientRegisterPoller::ResumePoll(PSerialDevice device)
         throw std::runtime_error("Device " + device->ToString() + " poll is not suspended");
     }
 
+    ResumeSuspendedPoll(device);
+}
+
+void TSerialClientRegisterPoller::ResumeSuspendedPoll(PSerialDevice device)
+{
     auto range = Devices.equal_range(device);
     for (auto it = range.first; it != range.second; ++it) {
         it->second->RescheduleAllRegisters();
@@ -367,16 +372,14 @@ void TSerialClientRegisterPoller::RescheduleDisconnectedDevices()
 
 void TSerialClientRegisterPoller::RescheduleDevicesWithSpendedPoll(std::chrono::steady_clock::time_point currentTime)
 {
+    std::unique_lock lock(Mutex);
     std::list<PSerialDevice> list;
-    {
-        std::unique_lock lock(Mutex);
-        for (auto it = DevicesWithSpendedPoll.begin(); it != DevicesWithSpendedPoll.end(); ++it) {
-            if (it->second <= currentTime) {
-                list.push_back(it->first);
-            }
+    for (auto it = DevicesWithSpendedPoll.begin(); it != DevicesWithSpendedPoll.end(); ++it) {
+        if (it->second <= currentTime) {
+            list.push_back(it->first);
         }
     }
     for (auto device: list) {
-        ResumePoll(device);
+        ResumeSuspendedPoll(device);
     }
 }
diff --git a/src/serial_client_register_poller.h b/src/serial_client_register_poller.h
index 8631041..7f37ded 100644
--- a/src/serial_client_register_poller.h
+++ b/src/serial_client_register_poller.h
@@ -59,6 +59,7 @@ private:
     std::chrono::steady_clock::time_point GetDeadline(bool lowPriorityRateLimitIsExceeded,
                                                       const util::TSpentTimeMeter& spentTime) const;
     void OnDeviceConnectionStateChanged(PSerialDevice device);
+    void ResumeSuspendedPoll(PSerialDevice device);
     void RescheduleDisconnectedDevices();
     void RescheduleDevicesWithSpendedPoll(std::chrono::steady_clock::time_point currentTime);
 
-- 
2.43.0


From 7124f43987b35218e811d152cf5d95a927333287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:47 +0000
Subject: [PATCH 58/81] fix: check size of the response to events enabling
 request

---
 src/modbus_ext_common.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/modbus_ext_common.cpp b/src/modbus_ext_common.cpp
index b3e7d49..d64c9d8 100644
--- a/src/modbus_ext_common.cpp
+++ b/src/modbus_ext_common.cpp
@@ -393,6 +393,10 @@ namespace ModbusExt // modbus extension protocol declarations
             throw Modbus::TMalformedResponseError("invalid sub command");
         }
 
+        if (res.Pdu.size() < PDU_ENABLE_EVENTS_RESPONSE_DATA_POS + res.Pdu[PDU_ENABLE_EVENTS_RESPONSE_DATA_SIZE_POS]) {
+            throw Modbus::TMalformedResponseError("invalid packet size: " + std::to_string(res.Pdu.size()));
+        }
+
         TBitIterator dataIt(res.Pdu.data() + PDU_ENABLE_EVENTS_RESPONSE_DATA_POS - 1,
                             res.Pdu[PDU_ENABLE_EVENTS_RESPONSE_DATA_SIZE_POS]);
 
-- 
2.43.0


From 3d24baf762d9e6456f43f60378dca4e75381207b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:47 +0000
Subject: [PATCH 59/81] fix: do not spin when low priority registers are forced
 to be read before waiting high priority ones

---
 src/serial_client_register_poller.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/serial_client_register_poller.cpp b/src/serial_client_register_poller.cpp
index 19a41eb..9021c02 100644
--- a/src/serial_client_register_poller.cpp
+++ b/src/serial_client_register_poller.cpp
@@ -245,7 +245,13 @@ TPollResult TSerialClientRegisterPoller::OpenPortCycle(TFeaturePort& port,
             res.Deadline = spentTime.GetStartTime() + maxPollingTime;
         } else {
             // Low priority registers are limited by high priority and maxPollingTime
-            res.Deadline = std::min(Scheduler.GetHighPriorityDeadline(), spentTime.GetStartTime() + maxPollingTime);
+            res.Deadline = spentTime.GetStartTime() + maxPollingTime;
+            auto highPriorityDeadline = Scheduler.GetHighPriorityDeadline();
+            // If high priority registers are already waiting but low priority ones are forced to be read first,
+            // there is nothing to do till the end of the allowed time
+            if (highPriorityDeadline > spentTime.GetStartTime()) {
+                res.Deadline = std::min(highPriorityDeadline, res.Deadline);
+            }
         }
         return res;
     }
-- 
2.43.0


From 221e665cb37167fc8994cb93dea290058756662c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:47 +0000
Subject: [PATCH 60/81] fix: handle events of bit fields and strings

---
 src/serial_client_events_reader.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/serial_client_events_reader.cpp b/src/serial_client_events_reader.cpp
index ba3e4a7..41ea765 100644
--- a/src/serial_client_events_reader.cpp
+++ b/src/serial_client_events_reader.cpp
@@ -1,4 +1,5 @@
 #include "serial_client_events_reader.h"
+#include "bin_utils.h"
 #include "common_utils.h"
 #include "log.h"
 #include "serial_device.h"
@@ -149,7 +150,16 @@ class TModbusExtEventsVisitor: public ModbusExt::IEventsVisitor
             uint64_t value = 0;
             memcpy(&value, data, std::min(dataSize, sizeof(value)));
             for (auto reg: regArray->second) {
-                reg->SetValue(TRegisterValue(value));
+                auto config = reg->GetConfig();
+                if (config->IsString()) {
+                    LOG(Warn) << "Ignore event from string register " << reg->ToString();
+                    continue;
+                }
+                auto regValue = value;
+                if (config->GetDataWidth()) {
+                    regValue = (value >> config->GetDataOffset()) & BinUtils::GetLSBMask(config->GetDataWidth());
+                }
+                reg->SetValue(TRegisterValue(regValue));
                 RegisterChangedCallback(reg);
             }
         } else {
-- 
2.43.0


From 3bb326ec332c9da69cf8f7b118c7789d4a6d9692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:56 +0000
Subject: [PATCH 61/81] fix: read registers with events again after
 reconnection of a device

---
 src/pollable_device.cpp             | 8 +++++---
 src/serial_client_events_reader.cpp | 9 +++++++++
 src/serial_port_driver.cpp          | 4 +++-
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/pollable_device.cpp b/src/pollable_device.cpp
index ff72958..708a485 100644
--- a/src/pollable_device.cpp
+++ b/src/pollable_device.cpp
@@ -130,9 +130,11 @@ void TPollableDevice::RescheduleAllRegisters()
             (Priority == TPriority::Low && !reg->GetConfig()->IsHighPriority()))
         {
             if (reg->GetConfig()->AccessType != TRegisterConfig::EAccessType::WRITE_ONLY) {
-                if (reg->IsExcludedFromPolling() && !Registers.Contains(reg)) {
-                    reg->SetAvailable(TRegisterAvailability::UNKNOWN);
-                    reg->IncludeInPolling();
+                if (!Registers.Contains(reg)) {
+                    if (reg->IsExcludedFromPolling()) {
+                        reg->SetAvailable(TRegisterAvailability::UNKNOWN);
+                        reg->IncludeInPolling();
+                    }
                     Registers.AddEntry(reg, std::chrono::steady_clock::time_point());
                 }
             }
diff --git a/src/serial_client_events_reader.cpp b/src/serial_client_events_reader.cpp
index 41ea765..0efc050 100644
--- a/src/serial_client_events_reader.cpp
+++ b/src/serial_client_events_reader.cpp
@@ -316,6 +316,13 @@ void TSerialClientEventsReader::EnableEvents(PSerialDevice device, TFeaturePort&
                                static_cast<ModbusExt::TEventType>(regArray.first.Type),
                                regArray.second.front()->GetConfig()->IsHighPriority() ? ModbusExt::TEventPriority::HIGH
                                                                                       : ModbusExt::TEventPriority::LOW);
+                // Events enabled by previous attempts are not read any more,
+                // so the registers must be polled until a new confirmation from the device
+                for (const auto& reg: regArray.second) {
+                    if (reg->GetAvailable() != TRegisterAvailability::UNAVAILABLE) {
+                        reg->IncludeInPolling();
+                    }
+                }
             }
         }
         if (ev.HasEventsToSetup()) {
@@ -341,6 +348,8 @@ void TSerialClientEventsReader::OnEnabledEvent(uint8_t slaveId, uint8_t type, ui
             if (res) {
                 if (reg->GetConfig()->SporadicMode == TRegisterConfig::TSporadicMode::ONLY_EVENTS) {
                     reg->ExcludeFromPolling();
+                    // The value is left from previous connection, the register must be read to get actual one
+                    reg->SetValue(TRegisterValue(), false);
                 }
                 reg->SetAvailable(TRegisterAvailability::AVAILABLE);
                 DevicesWithEnabledEvents.emplace(slaveId);
diff --git a/src/serial_port_driver.cpp b/src/serial_port_driver.cpp
index 4f32694..fb32b2d 100644
--- a/src/serial_port_driver.cpp
+++ b/src/serial_port_driver.cpp
@@ -441,7 +441,9 @@ std::string TDeviceChannel::GetTextValue() const
 bool TDeviceChannel::HasValuesOfAllRegisters() const
 {
     for (const auto& r: Registers) {
-        if (r->GetAvailable() == TRegisterAvailability::UNKNOWN) {
+        if (r->GetAvailable() == TRegisterAvailability::UNKNOWN ||
+            r->GetValue().GetType() == TRegisterValue::ValueType::Undefined)
+        {
             return false;
         }
     }
-- 
2.43.0


From 91b99640c5cb75dd5f76357a6198c7cba99a013f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:44 +0000
Subject: [PATCH 62/81] fix: report an error instead of selecting a closed
 descriptor when skipping noise

---
 src/port/file_descriptor_port.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/port/file_descriptor_port.cpp b/src/port/file_descriptor_port.cpp
index 0e7b3d0..a4b5843 100644
--- a/src/port/file_descriptor_port.cpp
+++ b/src/port/file_descriptor_port.cpp
@@ -213,6 +213,9 @@ TReadFrameResult TFileDescriptorPort::ReadFrame(uint8_t* buf,
 
 void TFileDescriptorPort::SkipNoise()
 {
+    // The port may be closed by a previous operation, for example, if the remote side has closed the connection
+    CheckPortOpen();
+
     uint8_t buf[255] = {};
     auto start = std::chrono::steady_clock::now();
     int ntries = 0;
-- 
2.43.0


From 0e66ec982540066ffec5d81400358d7446d83223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:41 +0000
Subject: [PATCH 63/81] fix: do not reopen the port endlessly on continuous
 noise

Opening of a serial port skips noise, and skipping of continuous noise reopens the port,
so under continuous noise the calls never returned
---
 src/port/file_descriptor_port.cpp | 13 ++++++++++++-
 src/port/file_descriptor_port.h   |  3 +++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/port/file_descriptor_port.cpp b/src/port/file_descriptor_port.cpp
index a4b5843..c7bbba0 100644
--- a/src/port/file_descriptor_port.cpp
+++ b/src/port/file_descriptor_port.cpp
@@ -236,9 +236,20 @@ void TFileDescriptorPort::SkipNoise()
             LastInteraction = std::chrono::steady_clock::now();
 
             if (diff > ContinuousNoiseTimeout) {
+                // Opening of a port can also skip noise. The data flow is counted by the call that reopens the port
+                if (Reopening) {
+                    return;
+                }
                 if (ntries < ContinuousNoiseReopenNumber) {
                     LOG(Debug) << "continuous unsolicited data flow detected, reopen the port";
-                    Reopen();
+                    Reopening = true;
+                    try {
+                        Reopen();
+                    } catch (...) {
+                        Reopening = false;
+                        throw;
+                    }
+                    Reopening = false;
                     ntries += 1;
                     start = std::chrono::steady_clock::now();
                 } else {
diff --git a/src/port/file_descriptor_port.h b/src/port/file_descriptor_port.h
index 78ac5cd..89ed384 100644
--- a/src/port/file_descriptor_port.h
+++ b/src/port/file_descriptor_port.h
@@ -33,6 +33,9 @@ protected:
     std::chrono::time_point<std::chrono::steady_clock> LastInteraction;
 
 private:
+    //! The port is being reopened because of continuous noise
+    bool Reopening = false;
+
     /**
      * @brief Reads data from port. Throws TSerialDeviceException on errors
      *
-- 
2.43.0


From 478b6497721b2ba851c382af095aca7453d9a700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:10 +0000
Subject: [PATCH 64/81] fix: allow register types param8, param_sign_ignore and
 systime in configurations

---
 wb-mqtt-serial-confed-common.schema.json | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wb-mqtt-serial-confed-common.schema.json b/wb-mqtt-serial-confed-common.schema.json
index 58ff892..38614ac 100644
--- a/wb-mqtt-serial-confed-common.schema.json
+++ b/wb-mqtt-serial-confed-common.schema.json
@@ -784,10 +784,10 @@
       "title": "Register type",
       "enum": ["coil", "discrete", "holding", "holding_single", "holding_multi", "input", "direct", "relay", 
                "brightness", "param", "relay_mode", "relay_default", "relay_delay", "energy", "array",
-               "param_be", "param_sign_active", "param_sign_reactive", "array12", "default", "param16", 
+               "param_be", "param_sign_active", "param_sign_reactive", "param_sign_ignore", "array12", "default", "param8", "param16", 
                "param24", "param32", "power", "freq", "power_factor", "group_single", 
                "temperature", "item_1", "item_2", "item_3", "item_4", "item_5", 
-               "alarm", "position", "command", "date", "time", "angle", "type", "status", "zonebit",
+               "alarm", "position", "command", "date", "time", "systime", "angle", "type", "status", "zonebit",
                "press_counter",
                // obis_* are deprecated, use item_*, temperature and power_factor
                "obis_cdef", "obis_cdef_pf", "obis_cdef_temp", "obis_cdef_1", "obis_cdef_2", "obis_cdef_3", "obis_cdef_4", "obis_cdef_5"]
-- 
2.43.0


From 0e183e890c76e152b9f02deea0f1fcf801aca970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:10 +0000
Subject: [PATCH 65/81] fix: recognize error responses of Milur meters with
 4-byte addresses

---
 src/devices/milur_device.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/devices/milur_device.cpp b/src/devices/milur_device.cpp
index fda9f3b..e304af6 100644
--- a/src/devices/milur_device.cpp
+++ b/src/devices/milur_device.cpp
@@ -70,12 +70,12 @@ bool TMilurDevice::ConnectionSetup(TPort& port)
 
 TEMDevice::ErrorType TMilurDevice::CheckForException(uint8_t* frame, int len, const char** message)
 {
-    if (len != 6 || !(frame[1] & 0x80)) {
+    if (len != 5 + SlaveIdWidth || !(frame[SlaveIdWidth] & 0x80)) {
         *message = 0;
         return TEMDevice::NO_ERROR;
     }
 
-    switch (frame[2]) {
+    switch (frame[SlaveIdWidth + 1]) {
         case 0x01:
             *message = "Illegal function";
             break;
-- 
2.43.0


From 99b50ff4135de42a8a072b6ebaf56c6d772abfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:33 +0000
Subject: [PATCH 66/81] fix: read 8-byte registers and unsigned 32-bit values
 of IVTM, reject malformed responses

---
 src/devices/ivtm_device.cpp | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/devices/ivtm_device.cpp b/src/devices/ivtm_device.cpp
index eea57fd..ed9881b 100644
--- a/src/devices/ivtm_device.cpp
+++ b/src/devices/ivtm_device.cpp
@@ -1,3 +1,4 @@
+#include <cctype>
 #include <cstdio>
 #include <cstring>
 #include <errno.h>
@@ -66,6 +67,9 @@ bool TIVTMDevice::DecodeASCIIBytes(uint8_t* buf, uint8_t* result, uint8_t len_by
 
 uint8_t TIVTMDevice::DecodeASCIIByte(uint8_t* buf)
 {
+    if (!isxdigit(buf[0]) || !isxdigit(buf[1])) {
+        throw TSerialDeviceTransientErrorException("invalid symbol in response");
+    }
     std::string s(buf, buf + 2);
     return stoul(s, nullptr, 16);
 }
@@ -125,18 +129,24 @@ void TIVTMDevice::ReadResponse(TPort& port, uint16_t addr, uint8_t* payload, uin
 
 TRegisterValue TIVTMDevice::ReadRegisterImpl(TPort& port, const TRegisterConfig& reg)
 {
+    uint8_t response[sizeof(uint64_t)];
+    const auto width = reg.GetByteWidth();
+    if (width > sizeof(response)) {
+        throw TSerialDeviceException("IVTM protocol: unsupported register format");
+    }
+
     port.SkipNoise();
 
     auto addr = GetUint32RegisterAddress(reg.GetAddress());
-    WriteCommand(port, SlaveId, addr, reg.GetByteWidth());
-    uint8_t response[4];
-    ReadResponse(port, SlaveId, response, reg.GetByteWidth());
+    WriteCommand(port, SlaveId, addr, width);
+    ReadResponse(port, SlaveId, response, width);
 
-    uint8_t* p = response; //&response[(address % 2) * 4];
-
-    // the response is little-endian. We inverse the byte order here to make it big-endian.
-
-    return TRegisterValue{static_cast<uint64_t>((p[3] << 24) | (p[2] << 16) | (p[1] << 8) | p[0])};
+    // the response is little-endian
+    uint64_t value = 0;
+    for (size_t i = width; i > 0; --i) {
+        value = (value << 8) | response[i - 1];
+    }
+    return TRegisterValue{value};
 }
 
 #if 0
-- 
2.43.0


From ca21327d60ed1b51bd07bdc23e61bea878512bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:33 +0000
Subject: [PATCH 67/81] fix: reject short responses of LLS sensors, do not
 sign-extend unsigned values

---
 src/devices/lls_device.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/devices/lls_device.cpp b/src/devices/lls_device.cpp
index 0ede103..5257c6b 100644
--- a/src/devices/lls_device.cpp
+++ b/src/devices/lls_device.cpp
@@ -85,6 +85,9 @@ std::vector<uint8_t> TLLSDevice::ExecCommand(TPort& port, uint8_t cmd)
     port.SleepSinceLastInteraction(GetFrameTimeout(port));
 
     int len = port.ReadFrame(buf, RESPONSE_BUF_LEN, GetResponseTimeout(port), GetFrameTimeout(port)).Count;
+    if (len <= HEADER_SZ) {
+        throw TSerialDeviceTransientErrorException("response too short");
+    }
     if (buf[0] != RESPONSE_PREFIX) {
         throw TSerialDeviceTransientErrorException("invalid response prefix");
     }
@@ -109,14 +112,19 @@ TRegisterValue TLLSDevice::ReadRegisterImpl(TPort& port, const TRegisterConfig&
     uint8_t cmd = GetUint32RegisterAddress(reg.GetAddress());
     auto result = ExecCommand(port, cmd);
 
-    int result_buf[8] = {};
-
-    for (uint32_t i = 0; i < reg.GetByteWidth(); ++i) {
-        result_buf[i] = result[reg.GetDataOffset() + i];
+    const auto width = reg.GetByteWidth();
+    if (width > sizeof(uint64_t)) {
+        throw TSerialDeviceException("LLS protocol: unsupported register format");
+    }
+    if (result.size() < reg.GetDataOffset() + width) {
+        throw TSerialDeviceTransientErrorException("response has no data of the register");
     }
 
-    return TRegisterValue{
-        static_cast<uint64_t>((result_buf[3] << 24) | (result_buf[2] << 16) | (result_buf[1] << 8) | result_buf[0])};
+    uint64_t value = 0;
+    for (uint32_t i = width; i > 0; --i) {
+        value = (value << 8) | result[reg.GetDataOffset() + i - 1];
+    }
+    return TRegisterValue{value};
 }
 
 std::chrono::milliseconds TLLSDevice::GetFrameTimeout(TPort& port) const
-- 
2.43.0


From 033de230890e9344aba75da62d2f67ec995b8386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:33 +0000
Subject: [PATCH 68/81] fix: send the zero checksum and long group requests to
 Energomera meters

---
 src/devices/energomera_iec_device.cpp | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/src/devices/energomera_iec_device.cpp b/src/devices/energomera_iec_device.cpp
index f1db199..89e7b00 100644
--- a/src/devices/energomera_iec_device.cpp
+++ b/src/devices/energomera_iec_device.cpp
@@ -122,24 +122,18 @@ namespace
         // request looks like this:
         //  Write [Energomera]:/?00000211!<SOH>R1<STX>GROUP(1001(1)1004(1)1008(1)4001(7))<ETX>
 
-        char buf[128] = {};
-        // 4(header) + 1(crc)
-        char cmd_part[sizeof(buf) - 5] = {};
-        // 11 bytes of header
-        char query_part[sizeof(cmd_part) - 11] = {};
+        std::string query;
         for (const auto& kv: range.ParamMasks) {
-            snprintf(query_part + strlen(query_part),
-                     sizeof(query_part) - strlen(query_part),
-                     "%04hX(%hX)",
-                     kv.first,
-                     kv.second);
+            char param[16] = {};
+            snprintf(param, sizeof(param), "%04hX(%hX)", kv.first, kv.second);
+            query += param;
         }
 
-        snprintf(cmd_part, sizeof(cmd_part), "R1\x02GROUP(%s)\x03", query_part);
-        snprintf(buf, sizeof(buf), "/?%s!\x01%s", slaveId.data(), cmd_part);
-        // place checksum in place of trailing null byte
-        buf[strlen(buf)] = IEC::Calc7BitCrc((uint8_t*)(&cmd_part[0]), strlen(cmd_part));
-        IEC::WriteBytes(port, (uint8_t*)buf, strlen(buf), LOG_PREFIX);
+        // the checksum can be zero, so the request is not a null-terminated string
+        const std::string cmd = "R1\x02GROUP(" + query + ")\x03";
+        std::string request = "/?" + slaveId + "!\x01" + cmd;
+        request += static_cast<char>(IEC::Calc7BitCrc(reinterpret_cast<const uint8_t*>(cmd.data()), cmd.size()));
+        IEC::WriteBytes(port, reinterpret_cast<const uint8_t*>(request.data()), request.size(), LOG_PREFIX);
     }
 
     /* @returns: null-terminated char* string which is a part of the input buffer.
-- 
2.43.0


From d9e5df3d6976845e0e128b44161737b08829ea59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:21 +0000
Subject: [PATCH 69/81] fix: check size and checksum of A-OK responses, do not
 reuse a response obsolete after a write

---
 src/devices/curtains/a_ok_device.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/devices/curtains/a_ok_device.cpp b/src/devices/curtains/a_ok_device.cpp
index 71123b3..720b18b 100644
--- a/src/devices/curtains/a_ok_device.cpp
+++ b/src/devices/curtains/a_ok_device.cpp
@@ -122,6 +122,11 @@ TRegisterValue Aok::TDevice::GetCachedResponse(TPort& port,
         req.Data = MakeRequest(MotorId, LowChannelId, HighChannelId, command, data);
         req.ResponseSize = MOTOR_STATUS_RESPONSE_SIZE;
         auto resp = ExecCommand(port, req);
+        if (resp.size() != MOTOR_STATUS_RESPONSE_SIZE || resp[0] != RESPONSE ||
+            resp.back() != CalcCrc({resp.begin() + 1, resp.end() - CRC_SIZE}))
+        {
+            throw TSerialDeviceTransientErrorException("Malformed response");
+        }
         // some tabular motors can answer any request,
         // so check that motor id in the response matches the requested one
         if (resp[MOTOR_ID_POS] != MotorId || resp[LOW_CHANNEL_ID_POS] != LowChannelId ||
@@ -204,8 +209,11 @@ void Aok::TDevice::WriteRegisterImpl(TPort& port, const TRegisterConfig& reg, co
         }
         case ZONEBIT: {
             auto addr = GetUint32RegisterAddress(reg.GetWriteAddress());
+            InvalidateReadCache();
             TRegisterValue val =
                 GetCachedResponse(port, CURTAIN_MOTOR_STATUS, CURTAIN_MOTOR_STATUS, MOTOR_STATUS_ZONEBIT_OFFSET * 8, 8);
+            // the response is obsolete after the write
+            InvalidateReadCache();
             TRequest req;
             req.Data = MakeRequest(MotorId,
                                    LowChannelId,
-- 
2.43.0


From a715890207672aab03ad2409eb9dff78d075906e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:21 +0000
Subject: [PATCH 70/81] fix: check size of Somfy frames, apply written parts to
 values read last

---
 src/devices/curtains/somfy_sdn_device.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/devices/curtains/somfy_sdn_device.cpp b/src/devices/curtains/somfy_sdn_device.cpp
index a445772..316a6e3 100644
--- a/src/devices/curtains/somfy_sdn_device.cpp
+++ b/src/devices/curtains/somfy_sdn_device.cpp
@@ -51,8 +51,7 @@ namespace
 
     void Check(uint32_t address, uint8_t header, const std::vector<uint8_t>& bytes)
     {
-        size_t len = GetLen(bytes[1]);
-        if (bytes.size() < 2 || bytes.size() != len) {
+        if (bytes.size() < DATA_POS + CRC_SIZE || bytes.size() != GetLen(bytes[1])) {
             throw TSerialDeviceTransientErrorException("Bad response size");
         }
 
@@ -271,7 +270,7 @@ void Somfy::TDevice::WriteRegisterImpl(TPort& port, const TRegisterConfig& reg,
             return;
         }
         case PARAM: {
-            auto requestHeader = GetUint32RegisterAddress(reg.GetWriteAddress());
+            auto requestHeader = GetUint32RegisterAddress(reg.GetAddress());
             auto it = WriteCache.find(requestHeader);
             if (it == WriteCache.end()) {
                 throw TSerialDeviceTransientErrorException("Register " + reg.ToString() +
@@ -280,9 +279,9 @@ void Somfy::TDevice::WriteRegisterImpl(TPort& port, const TRegisterConfig& reg,
             auto writeHeader = GetUint32RegisterAddress(reg.GetWriteAddress());
             auto data = MakeDataForSetupCommand(writeHeader, it->second);
             size_t width = (reg.GetDataWidth() == 0) ? RegisterFormatByteWidth(reg.Format) * 8 : reg.GetDataWidth();
-            CopyBytes(std::next(data.begin(), reg.GetDataOffset() / 8),
-                      std::next(data.begin(), (reg.GetDataOffset() + width) / 8),
-                      ToArray(value));
+            const size_t dataStart = std::min<size_t>(reg.GetDataOffset() / 8, data.size());
+            const size_t dataEnd = std::min<size_t>((reg.GetDataOffset() + width) / 8, data.size());
+            CopyBytes(std::next(data.begin(), dataStart), std::next(data.begin(), dataEnd), ToArray(value));
             Check(SlaveId, ACK, ExecCommand(port, MakeRequest(writeHeader, SlaveId, NodeType, data)));
             WriteCache[requestHeader] = data;
             return;
@@ -313,7 +312,7 @@ TRegisterValue Somfy::TDevice::GetCachedResponse(TPort& port,
     } else {
         auto req = MakeRequest(requestHeader, SlaveId, NodeType);
         auto data = ParseStatusReport(SlaveId, responseHeader, ExecCommand(port, req));
-        val.Set(Get<uint64_t>(data.begin(), data.end()));
+        val.Set(Get<uint64_t>(data.begin(), data.begin() + std::min(data.size(), sizeof(uint64_t))));
         DataCache[requestHeader] = val;
         WriteCache[requestHeader] = data;
     }
-- 
2.43.0


From f5dc9292c65b6af9bb2dc1a23451c1adc531f67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:21 +0000
Subject: [PATCH 71/81] fix: check relay numbers in requests and responses of
 S2K

---
 src/devices/s2k_device.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/devices/s2k_device.cpp b/src/devices/s2k_device.cpp
index 3a4bc9a..12199b7 100644
--- a/src/devices/s2k_device.cpp
+++ b/src/devices/s2k_device.cpp
@@ -99,12 +99,18 @@ void TS2KDevice::WriteRegisterImpl(TPort& port, const TRegisterConfig& reg, cons
     if (response[5] != CrcS2K(response, 5)) {
         throw TSerialDeviceTransientErrorException("bad CRC for 0x15 command");
     }
-    RelayState[response[3]] = response[4];
+    if (response[3] != addr) {
+        throw TSerialDeviceTransientErrorException("incorrect relay number in response for 0x15 command");
+    }
+    RelayState[addr] = response[4];
 }
 
 TRegisterValue TS2KDevice::ReadRegisterImpl(TPort& port, const TRegisterConfig& reg)
 {
     auto addr = GetUint32RegisterAddress(reg.GetAddress());
+    if (addr < 1 || addr > 4) {
+        throw TSerialDeviceException("S2K protocol: invalid register address");
+    }
     /* We have no way to get current relay state from device. Thats why we save last
        successful write to relay register and return it when regiter is read */
     switch (reg.Type) {
-- 
2.43.0


From 156d2317fb17b259199831cfc7caf8945dc4ea8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:21 +0000
Subject: [PATCH 72/81] fix: do not take the checksum of short Mercury 200
 responses for data

---
 src/devices/mercury200_device.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/devices/mercury200_device.cpp b/src/devices/mercury200_device.cpp
index 67667e3..99a3e3e 100644
--- a/src/devices/mercury200_device.cpp
+++ b/src/devices/mercury200_device.cpp
@@ -11,6 +11,7 @@ namespace
     const size_t RESPONSE_BUF_LEN = 100;
     const size_t REQUEST_LEN = 7;
     const ptrdiff_t HEADER_SZ = 5;
+    const ptrdiff_t CRC_SZ = 2;
 
     const TRegisterTypes RegisterTypes{{0, "param8", "value", U8, true},
                                        {0, "param16", "value", BCD16, true},
@@ -56,12 +57,13 @@ std::vector<uint8_t> TMercury200Device::ExecCommand(TPort& port, uint8_t cmd)
 
     uint8_t buf[100] = {0x00};
     auto readn = RequestResponse(port, SlaveId, cmd, buf);
-    if (readn < 4) { // fixme 4
+    if (readn < HEADER_SZ + CRC_SZ) {
         throw TSerialDeviceTransientErrorException("mercury200: read frame too short for command response");
     }
     if (IsBadHeader(SlaveId, cmd, buf)) {
         throw TSerialDeviceTransientErrorException("mercury200: bad response header for command");
     }
+    readn -= CRC_SZ;
     if (IsCrcValid(buf, readn)) {
         throw TSerialDeviceTransientErrorException("mercury200: bad CRC for command");
     }
-- 
2.43.0


From 31d929956bb3559461f7f8a2156dbe42336bbd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:21 +0000
Subject: [PATCH 73/81] fix: do not reconnect to Milur and Mercury 230 meters
 endlessly

---
 src/devices/em_device.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/devices/em_device.cpp b/src/devices/em_device.cpp
index 493ed81..34a858d 100644
--- a/src/devices/em_device.cpp
+++ b/src/devices/em_device.cpp
@@ -85,9 +85,12 @@ void TEMDevice::Talk(TPort& port,
     EnsureSlaveConnected(port);
     WriteCommand(port, cmd, payload, payload_len);
     try {
-        while (!ReadResponse(port, expected_byte1, resp_payload, resp_payload_len, frame_complete)) {
+        if (!ReadResponse(port, expected_byte1, resp_payload, resp_payload_len, frame_complete)) {
             EnsureSlaveConnected(port, true);
             WriteCommand(port, cmd, payload, payload_len);
+            if (!ReadResponse(port, expected_byte1, resp_payload, resp_payload_len, frame_complete)) {
+                throw TSerialDeviceTransientErrorException("no open session");
+            }
         }
     } catch (const TSerialDeviceTransientErrorException& e) {
         port.SkipNoise();
-- 
2.43.0


From 2955d0ee2ccd01a29d6c0f1bff98856da6805d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:21 +0000
Subject: [PATCH 74/81] fix: do not read outside of short and empty IEC 61107
 responses

---
 src/iec_common.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/iec_common.cpp b/src/iec_common.cpp
index 70d4da9..1ad19a0 100644
--- a/src/iec_common.cpp
+++ b/src/iec_common.cpp
@@ -294,7 +294,7 @@ std::string TIEC61107ModeCDevice::GetCachedResponse(TPort& port, const std::stri
     uint8_t resp[IEC::RESPONSE_BUF_LEN] = {};
     auto len = ReadFrameProgMode(port, resp, sizeof(resp), IEC::STX);
     // Proper response (inc. error) must start with STX, and end with ETX
-    if ((resp[0] != IEC::STX) || (resp[len - 2] != IEC::ETX)) {
+    if ((len < 3) || (resp[0] != IEC::STX) || (resp[len - 2] != IEC::ETX)) {
         throw TSerialDeviceTransientErrorException("malformed response");
     }
 
@@ -316,10 +316,11 @@ std::string TIEC61107ModeCDevice::GetCachedResponse(TPort& port, const std::stri
     }
     // It is probably a error response. It lacks parameter name part
     presp += 1;
-    if (presp[strlen(presp) - 1] == ')') {
-        presp[strlen(presp) - 1] = '\000';
+    std::string error(presp);
+    if (!error.empty() && error.back() == ')') {
+        error.pop_back();
     }
-    throw TSerialDeviceTransientErrorException(presp);
+    throw TSerialDeviceTransientErrorException(error);
 }
 
 void TIEC61107ModeCDevice::SwitchToProgMode(TPort& port)
-- 
2.43.0


From 5133d84dfabba0a9c2bd5111498db192c82c848d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:21 +0000
Subject: [PATCH 75/81] fix: do not fail on Neva responses without numbers

---
 src/devices/neva_device.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/devices/neva_device.cpp b/src/devices/neva_device.cpp
index 0ac0c44..4428250 100644
--- a/src/devices/neva_device.cpp
+++ b/src/devices/neva_device.cpp
@@ -81,7 +81,7 @@ TRegisterValue TNevaDevice::GetRegisterValue(const TRegisterConfig& reg, const s
     std::string value(v.substr(1, v.size() - 2));
     std::vector<double> result(5);
     int ret = sscanf(value.c_str(), "%lf,%lf,%lf,%lf,%lf", &result[0], &result[1], &result[2], &result[3], &result[4]);
-    result.resize(ret);
+    result.resize(ret > 0 ? ret : 0);
 
     size_t val_index = RegisterTypeValueIndices[reg.TypeName];
 
-- 
2.43.0


From bf052de74d5eb4f8bb5b5a80bdc6fbff814ae1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:10 +0000
Subject: [PATCH 76/81] fix: find cyclic subdevices when validating templates

Channels of nested subdevices were looked up at a wrong place
---
 src/templates_map.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/templates_map.cpp b/src/templates_map.cpp
index 18784d2..4fd8a38 100644
--- a/src/templates_map.cpp
+++ b/src/templates_map.cpp
@@ -38,13 +38,13 @@ namespace
         }
     }
 
-    void CheckNesting(const Json::Value& root, size_t nestingLevel, TSubDevicesTemplateMap& templates)
+    void CheckNesting(const Json::Value& device, size_t nestingLevel, TSubDevicesTemplateMap& templates)
     {
         if (nestingLevel > 5) {
             throw TConfigParserException(
                 "Too deep subdevices nesting. This could be caused by cyclic subdevice dependencies");
         }
-        for (const auto& ch: root["device"]["channels"]) {
+        for (const auto& ch: device["channels"]) {
             if (ch.isMember("device_type")) {
                 CheckNesting(templates.GetTemplate(ch["device_type"].asString()).Schema, nestingLevel + 1, templates);
             }
@@ -245,7 +245,7 @@ namespace
         // Check that channels refer to valid subdevices and they are not nested too deep
         if (root["device"].isMember("subdevices")) {
             TSubDevicesTemplateMap subdevices(root["device_type"].asString(), root["device"]);
-            CheckNesting(root, 0, subdevices);
+            CheckNesting(root["device"], 0, subdevices);
         }
     }
 
-- 
2.43.0


From b5ad1560cb13810a6f91f4c8f36a65ce47028428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:50 +0000
Subject: [PATCH 77/81] fix: accept user settings of template channels having
 same names

---
 src/config_schema_generator.cpp                   | 7 ++++++-
 src/subdevices_config/config_schema_generator.cpp | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/config_schema_generator.cpp b/src/config_schema_generator.cpp
index 47e11f3..5ebe33b 100644
--- a/src/config_schema_generator.cpp
+++ b/src/config_schema_generator.cpp
@@ -1,5 +1,7 @@
 #include "config_schema_generator.h"
 
+#include <algorithm>
+
 #include "config_merge_template.h"
 #include "expression_evaluator.h"
 #include "json_common.h"
@@ -124,7 +126,10 @@ namespace
         auto& items = MakeArray("oneOf", r["items"]);
         for (const auto& channel: channels) {
             auto channelSchema = MakeTabChannelSchema(channel);
-            items.append(channelSchema);
+            // Channels with the same name but different conditions must not match oneOf several times
+            if (std::find(items.begin(), items.end(), channelSchema) == items.end()) {
+                items.append(channelSchema);
+            }
             names.push_back(channel["name"].asString());
         }
         if (!names.empty() && !customChannelsSchemaRef.empty()) {
diff --git a/src/subdevices_config/config_schema_generator.cpp b/src/subdevices_config/config_schema_generator.cpp
index 9e40647..56f120d 100644
--- a/src/subdevices_config/config_schema_generator.cpp
+++ b/src/subdevices_config/config_schema_generator.cpp
@@ -1,5 +1,7 @@
 #include "subdevices_config/config_schema_generator.h"
 
+#include <algorithm>
+
 #include "json_common.h"
 
 namespace
@@ -200,7 +202,10 @@ namespace
         auto& items = MakeArray("oneOf", r["items"]);
         for (const auto& channel: channels) {
             auto channelSchema = MakeTabChannelSchema(channel);
-            items.append(channelSchema);
+            // Channels with the same name but different conditions must not match oneOf several times
+            if (std::find(items.begin(), items.end(), channelSchema) == items.end()) {
+                items.append(channelSchema);
+            }
             names.push_back(channel["name"].asString());
         }
         if (!names.empty() && !customChannelsSchemaRef.empty()) {
-- 
2.43.0


From 64b5094e21bf1e08c96bbaaf6c6ef0c9d924bcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:05 +0000
Subject: [PATCH 78/81] fix: use signed formats for template parameters having
 negative values

---
 templates/config-danfoss-ekc-204a1-deprecated.json        | 2 +-
 templates/config-danfoss-ekc-204a1-wb-ref-deprecated.json | 2 +-
 templates/config-danfoss-ekc-204a1-wb-ref.json            | 2 +-
 templates/config-danfoss-ekc-204a1.json                   | 2 +-
 templates/config-eliwell-id-985-lx-wb-ref.json            | 8 ++++----
 5 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/templates/config-danfoss-ekc-204a1-deprecated.json b/templates/config-danfoss-ekc-204a1-deprecated.json
index 4fc6cb5..aaaa201 100644
--- a/templates/config-danfoss-ekc-204a1-deprecated.json
+++ b/templates/config-danfoss-ekc-204a1-deprecated.json
@@ -172,7 +172,7 @@
                 "description": "units: °C; heating function is started a number of degrees below the\nthermostats cutout temperature",
                 "address": 148,
                 "reg_type": "holding",
-                "format": "u16",
+                "format": "s16",
                 "scale": 0.1,
                 "min": -15,
                 "max": -3,
diff --git a/templates/config-danfoss-ekc-204a1-wb-ref-deprecated.json b/templates/config-danfoss-ekc-204a1-wb-ref-deprecated.json
index 842d882..8acf3af 100644
--- a/templates/config-danfoss-ekc-204a1-wb-ref-deprecated.json
+++ b/templates/config-danfoss-ekc-204a1-wb-ref-deprecated.json
@@ -178,7 +178,7 @@
                 "description": "units: °C; heating function is started a number of degrees below the\nthermostats cutout temperature",
                 "address": 10149,
                 "reg_type": "holding",
-                "format": "u16",
+                "format": "s16",
                 "scale": 0.1,
                 "min": -15,
                 "max": -3,
diff --git a/templates/config-danfoss-ekc-204a1-wb-ref.json b/templates/config-danfoss-ekc-204a1-wb-ref.json
index 18e743d..844d3b2 100644
--- a/templates/config-danfoss-ekc-204a1-wb-ref.json
+++ b/templates/config-danfoss-ekc-204a1-wb-ref.json
@@ -177,7 +177,7 @@
                 "description": "units: °C; heating function is started a number of degrees below the\nthermostats cutout temperature",
                 "address": 10149,
                 "reg_type": "holding",
-                "format": "u16",
+                "format": "s16",
                 "scale": 0.1,
                 "min": -15,
                 "max": -3,
diff --git a/templates/config-danfoss-ekc-204a1.json b/templates/config-danfoss-ekc-204a1.json
index e7f330f..120eb37 100644
--- a/templates/config-danfoss-ekc-204a1.json
+++ b/templates/config-danfoss-ekc-204a1.json
@@ -171,7 +171,7 @@
                 "description": "units: °C; heating function is started a number of degrees below the\nthermostats cutout temperature",
                 "address": 148,
                 "reg_type": "holding",
-                "format": "u16",
+                "format": "s16",
                 "scale": 0.1,
                 "min": -15,
                 "max": -3,
diff --git a/templates/config-eliwell-id-985-lx-wb-ref.json b/templates/config-eliwell-id-985-lx-wb-ref.json
index 9d90cc9..4b6ccb2 100644
--- a/templates/config-eliwell-id-985-lx-wb-ref.json
+++ b/templates/config-eliwell-id-985-lx-wb-ref.json
@@ -732,7 +732,7 @@
                 "description": "units: degrees",
                 "address": 24150,
                 "reg_type": "holding",
-                "format": "u16",
+                "format": "s16",
                 "scale": 0.1,
                 "min": -30,
                 "max": 30,
@@ -777,7 +777,7 @@
                 "description": "units: degrees",
                 "address": 24136,
                 "reg_type": "holding",
-                "format": "u16",
+                "format": "s16",
                 "scale": 0.1,
                 "min": -50,
                 "max": 150,
@@ -791,7 +791,7 @@
                 "description": "units: degrees",
                 "address": 24138,
                 "reg_type": "holding",
-                "format": "u16",
+                "format": "s16",
                 "scale": 0.1,
                 "min": -50,
                 "max": 150,
@@ -871,7 +871,7 @@
                 "description": "units: degrees",
                 "address": 24148,
                 "reg_type": "holding",
-                "format": "u16",
+                "format": "s16",
                 "scale": 0.1,
                 "min": -50,
                 "max": 150,
-- 
2.43.0


From d7f76107d62c00ac94b34bd85ec027e2380605b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:19 +0000
Subject: [PATCH 79/81] fix: refuse configurations with port's devices not in
 array

---
 src/config_schema_generator.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/config_schema_generator.cpp b/src/config_schema_generator.cpp
index 5ebe33b..ebc447c 100644
--- a/src/config_schema_generator.cpp
+++ b/src/config_schema_generator.cpp
@@ -308,8 +308,13 @@ void ValidateConfig(const Json::Value& config,
     TDeviceTypeValidator deviceTypeValidator(commonDeviceSchema, templates, deviceFactory);
     size_t portIndex = 0;
     for (const auto& port: config["ports"]) {
+        const auto& devices = port["devices"];
+        if (!devices.isNull() && !devices.isArray()) {
+            throw std::runtime_error("Validation failed.\nError 1\n  context: <root>[ports][" + std::to_string(portIndex) +
+                                     "][devices]\n  desc: Value type not permitted by 'type' constraint");
+        }
         size_t deviceIndex = 0;
-        for (const auto& device: port["devices"]) {
+        for (const auto& device: devices) {
             try {
                 if (device.isMember("device_type")) {
                     deviceTypeValidator.Validate(device);
-- 
2.43.0


From 8ef46ea12ad87a12c005442b93b5a52128fac0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:20 +0000
Subject: [PATCH 80/81] fix: do not overflow on huge read periods

---
 src/serial_config.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/serial_config.cpp b/src/serial_config.cpp
index 2e56862..900f45d 100644
--- a/src/serial_config.cpp
+++ b/src/serial_config.cpp
@@ -181,6 +181,9 @@ namespace
         return typeMap.GetDefaultType();
     }
 
+    // Longer periods overflow calculations with time points
+    const std::chrono::milliseconds MAX_READ_PERIOD = std::chrono::hours(24 * 365 * 10);
+
     std::optional<std::chrono::milliseconds> GetReadRateLimit(const Json::Value& data)
     {
         std::chrono::milliseconds res(-1);
@@ -188,7 +191,7 @@ namespace
         if (res < 0ms) {
             return std::nullopt;
         }
-        return std::make_optional(res);
+        return std::make_optional(std::min(res, MAX_READ_PERIOD));
     }
 
     std::optional<std::chrono::milliseconds> GetReadPeriod(const Json::Value& data)
@@ -198,7 +201,7 @@ namespace
         if (res < 0ms) {
             return std::nullopt;
         }
-        return std::make_optional(res);
+        return std::make_optional(std::min(res, MAX_READ_PERIOD));
     }
 
     struct TLoadingContext
-- 
2.43.0


From 5453b5763d62a3b122600468f9cea88a2660907f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:19 +0000
Subject: [PATCH 81/81] fix: refuse slave ids that do not fit 32 bits

---
 src/serial_device.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/serial_device.cpp b/src/serial_device.cpp
index 44c1a30..866c5fb 100644
--- a/src/serial_device.cpp
+++ b/src/serial_device.cpp
@@ -415,7 +415,11 @@ TUInt32SlaveId::TUInt32SlaveId(const std::string& slaveId, bool allowBroadcast):
         }
     }
     try {
-        SlaveId = std::stoul(slaveId, /* pos = */ 0, /* base = */ 0);
+        auto value = std::stoul(slaveId, /* pos = */ 0, /* base = */ 0);
+        if (value > std::numeric_limits<uint32_t>::max()) {
+            throw std::out_of_range("stoul");
+        }
+        SlaveId = value;
     } catch (const std::logic_error& e) {
         throw TSerialDeviceException("slave ID \"" + slaveId + "\" is not convertible to integer");
     }
-- 
2.43.0

