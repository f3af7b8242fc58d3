From a780254876e8f362758c12a8988f3feb9d487f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:36 +0000
Subject: [PATCH 01/72] fix: do not consume the length of a skipped CBOR item
 twice

CborReader::skip() advanced over the bytes of a length of 24 and more by
reading them and then once more, so that everything after an unknown string,
array or map of that size was decoded from the wrong position.
---
 lib/include/dots/serialization/formats/CborReader.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/lib/include/dots/serialization/formats/CborReader.h b/lib/include/dots/serialization/formats/CborReader.h
index d45a63e..561e6ad 100644
--- a/lib/include/dots/serialization/formats/CborReader.h
+++ b/lib/include/dots/serialization/formats/CborReader.h
@@ -226,8 +226,6 @@ namespace dots::serialization
                     }
                 }
 
-                consume(numBytes);
-
                 return value;
             };
 
-- 
2.43.0


From f1d67284dce261779dc48bca10c4fe9ceb462ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:36 +0000
Subject: [PATCH 02/72] fix: check that the length of a skipped CBOR item is
 within the input

---
 lib/include/dots/serialization/formats/CborReader.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/include/dots/serialization/formats/CborReader.h b/lib/include/dots/serialization/formats/CborReader.h
index 561e6ad..cca996d 100644
--- a/lib/include/dots/serialization/formats/CborReader.h
+++ b/lib/include/dots/serialization/formats/CborReader.h
@@ -219,6 +219,7 @@ namespace dots::serialization
                 else
                 {
                     value = 0;
+                    assertInputAvailable(numBytes);
 
                     for (int16_t i = numBytes - 1; i >= 0; --i)
                     {
-- 
2.43.0


From 0567c0a854ced67418d9e681d231ce82f4420d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:20 +0000
Subject: [PATCH 03/72] fix: skip nested CBOR items without recursion

The nesting depth of a skipped item is chosen by the sender: a message of a few
hundred kilobytes could exhaust the stack of the receiver.
---
 .../dots/serialization/formats/CborReader.h   | 34 +++++++++----------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/lib/include/dots/serialization/formats/CborReader.h b/lib/include/dots/serialization/formats/CborReader.h
index cca996d..7f26d62 100644
--- a/lib/include/dots/serialization/formats/CborReader.h
+++ b/lib/include/dots/serialization/formats/CborReader.h
@@ -172,6 +172,17 @@ namespace dots::serialization
         }
 
         void skip()
+        {
+            // skip nested items iteratively because their depth is controlled by the sender
+            for (size_t numItems = 1; numItems > 0; --numItems)
+            {
+                numItems += skipItem();
+            }
+        }
+
+    private:
+
+        size_t skipItem()
         {
             assertInputAvailable(1);
             uint8_t initialByte = readByte();
@@ -243,31 +254,20 @@ namespace dots::serialization
             else if (any_of(cbor_t::MajorType::Array))
             {
                 size_t size = read_size();
+                assertInputAvailable(size);
 
-                if (size > 0)
-                {
-                    while (size--)
-                    {
-                        skip();
-                    }
-                }
+                return size;
             }
             else if (any_of(cbor_t::MajorType::Map))
             {
                 size_t size = read_size();
+                assertInputAvailable(size);
 
-                if (size > 0)
-                {
-                    while (size--)
-                    {
-                        skip();
-                        skip();
-                    }
-                }
+                return 2 * size;
             }
-        }
 
-    private:
+            return 0;
+        }
 
         void throwInvalidSize(const std::string& msg, std::size_t expected, std::size_t size) const;
         void throwUnexpectedHeadException(uint8_t expectedHead, uint8_t head) const;
-- 
2.43.0


From 76471e9acb1d2ee4bf58d215c6540f22e2e2e123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:20 +0000
Subject: [PATCH 04/72] fix: check for available input before reading a signed
 CBOR integer

---
 lib/include/dots/serialization/formats/CborReader.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/include/dots/serialization/formats/CborReader.h b/lib/include/dots/serialization/formats/CborReader.h
index 7f26d62..ac1c24a 100644
--- a/lib/include/dots/serialization/formats/CborReader.h
+++ b/lib/include/dots/serialization/formats/CborReader.h
@@ -66,6 +66,7 @@ namespace dots::serialization
         void read(T& value)
         {
             using unsigned_t = std::make_unsigned_t<T>;
+            assertInputAvailable(1);
 
             if (uint8_t majorType = *inputData() & cbor_t::MajorType::Mask; majorType == cbor_t::MajorType::SignedInt)
             {
-- 
2.43.0


From 78cdec1f86217aff649ce02e4c37d0dec89f38fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:20 +0000
Subject: [PATCH 05/72] fix: do not read a half precision float through a
 misaligned reference

---
 lib/include/dots/serialization/formats/CborReader.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/include/dots/serialization/formats/CborReader.h b/lib/include/dots/serialization/formats/CborReader.h
index ac1c24a..a2dd99b 100644
--- a/lib/include/dots/serialization/formats/CborReader.h
+++ b/lib/include/dots/serialization/formats/CborReader.h
@@ -136,7 +136,7 @@ namespace dots::serialization
             {
                 if (numBytes == sizeof(uint16_t))
                 {
-                    if (reinterpret_cast<const uint16_t&>(*inputData()) == 0)
+                    if (inputData()[0] == 0 && inputData()[1] == 0)
                     {
                         value = T{ 0 };
                         inputData() += sizeof(uint16_t);
-- 
2.43.0


From a8359bccc5477b8b2d03c55befb349691b78a80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:20 +0000
Subject: [PATCH 06/72] fix: refuse CBOR simple values where a float is
 expected

A simple value has less than four bytes, but four were read, possibly from
beyond the end of the input.
---
 lib/include/dots/serialization/formats/CborReader.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/include/dots/serialization/formats/CborReader.h b/lib/include/dots/serialization/formats/CborReader.h
index a2dd99b..33db2f8 100644
--- a/lib/include/dots/serialization/formats/CborReader.h
+++ b/lib/include/dots/serialization/formats/CborReader.h
@@ -165,10 +165,14 @@ namespace dots::serialization
                         value = static_cast<T>(static_cast<bool>(sign) ? -float64 : float64);
                     }
                 }
-                else/* if (numBytes == sizeof(float))*/
+                else if (numBytes == sizeof(float))
                 {
                     value = static_cast<T>(readPunnedContingentBytes<float>());
                 }
+                else
+                {
+                    throwException("encountered unexpected simple value when deserializing float", additionalInformation);
+                }
             }
         }
 
-- 
2.43.0


From eff2369ab277b625853e21cf0a2428067b17497d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:20 +0000
Subject: [PATCH 07/72] fix: do not report the byte after the input in CBOR
 errors

---
 lib/src/serialization/formats/CborReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/serialization/formats/CborReader.cpp b/lib/src/serialization/formats/CborReader.cpp
index f12c6f8..5591265 100644
--- a/lib/src/serialization/formats/CborReader.cpp
+++ b/lib/src/serialization/formats/CborReader.cpp
@@ -35,7 +35,7 @@ namespace dots::serialization
         throw SerializerException{msg,
                                   details,
                                   offset,
-                                  std::span(inputDataBegin(), inputDataEnd() + 1)};
+                                  std::span(inputDataBegin(), inputDataEnd())};
     }
 
 }
\ No newline at end of file
-- 
2.43.0


From 0ef7cb75ce9248d779f94cae0a149748429be82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:20 +0000
Subject: [PATCH 08/72] fix: refuse CBOR arrays that are larger than the
 remaining input

The receiver allocates the elements before it reads them, so that a message of
a few bytes could make it allocate any amount of memory.
---
 lib/include/dots/serialization/formats/CborReader.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/include/dots/serialization/formats/CborReader.h b/lib/include/dots/serialization/formats/CborReader.h
index 33db2f8..6aa8c05 100644
--- a/lib/include/dots/serialization/formats/CborReader.h
+++ b/lib/include/dots/serialization/formats/CborReader.h
@@ -19,7 +19,10 @@ namespace dots::serialization
 
         size_t readArraySize()
         {
-            return readHead<size_t>(cbor_t::MajorType::Array);
+            auto size = readHead<size_t>(cbor_t::MajorType::Array);
+            assertInputAvailable(size);
+
+            return size;
         }
 
         void readArrayBegin()
-- 
2.43.0


From 4d1396678017a45f34ffbd2f2b3e081c350fb8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:45 +0000
Subject: [PATCH 09/72] fix: destruct the previous instance when an AnyStruct
 is move-assigned

The defaulted move assignment released the storage of the previous instance
without destructing its properties, which leaked their memory, and as an object
of type Struct, which it is not.
---
 lib/include/dots/type/AnyStruct.h | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/lib/include/dots/type/AnyStruct.h b/lib/include/dots/type/AnyStruct.h
index cd5ce80..aa3d33b 100644
--- a/lib/include/dots/type/AnyStruct.h
+++ b/lib/include/dots/type/AnyStruct.h
@@ -24,13 +24,7 @@ namespace dots::type
 
         AnyStruct(AnyStruct&& other) = default;
 
-        ~AnyStruct()
-        {
-            if (_instance != nullptr)
-            {
-                _instance->_descriptor().destruct(Typeless::From(*_instance));
-            }
-        }
+        ~AnyStruct() = default;
 
         AnyStruct& operator = (const AnyStruct& rhs)
         {
@@ -127,7 +121,17 @@ namespace dots::type
 
     private:
 
-        std::unique_ptr<Struct> _instance;
+        // the instance is constructed in place and has to be destructed and deallocated accordingly
+        struct InstanceDeleter
+        {
+            void operator () (Struct* instance) const
+            {
+                instance->_descriptor().destruct(Typeless::From(*instance));
+                ::operator delete(static_cast<void*>(instance));
+            }
+        };
+
+        std::unique_ptr<Struct, InstanceDeleter> _instance;
     };
 
     inline property_iterator begin(AnyStruct& instance)
-- 
2.43.0


From ee9e0db29bb27f88e272a0cd8b4b57ab3c0d2429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:45 +0000
Subject: [PATCH 10/72] fix: release the storage of a DynamicStruct the way it
 was allocated

---
 lib/include/dots/type/DynamicStruct.h | 11 ++++++++++-
 lib/src/type/DynamicStruct.cpp        |  2 +-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/include/dots/type/DynamicStruct.h b/lib/include/dots/type/DynamicStruct.h
index 4ca9080..4ff5df1 100644
--- a/lib/include/dots/type/DynamicStruct.h
+++ b/lib/include/dots/type/DynamicStruct.h
@@ -178,7 +178,16 @@ namespace dots::type
 
         using Struct::_propertyArea;
 
-        std::unique_ptr<PropertyArea> m_propertyAreaStorage;
+        // the storage is larger than a property area and was allocated as raw memory
+        struct StorageDeleter
+        {
+            void operator () (PropertyArea* storage) const
+            {
+                ::operator delete(static_cast<void*>(storage));
+            }
+        };
+
+        std::unique_ptr<PropertyArea, StorageDeleter> m_propertyAreaStorage;
         PropertyArea* m_propertyArea;
     };
 
diff --git a/lib/src/type/DynamicStruct.cpp b/lib/src/type/DynamicStruct.cpp
index d6ef356..8118605 100644
--- a/lib/src/type/DynamicStruct.cpp
+++ b/lib/src/type/DynamicStruct.cpp
@@ -8,7 +8,7 @@ namespace dots::type
 {
     DynamicStruct::DynamicStruct(const Descriptor<DynamicStruct>& descriptor) :
         Struct(descriptor),
-        m_propertyAreaStorage{ std::unique_ptr<PropertyArea>{ static_cast<PropertyArea*>(::operator new(descriptor.size() - sizeof(DynamicStruct))) } },
+        m_propertyAreaStorage{ std::unique_ptr<PropertyArea, StorageDeleter>{ static_cast<PropertyArea*>(::operator new(descriptor.size() - sizeof(DynamicStruct))) } },
         m_propertyArea(m_propertyAreaStorage.get())
     {
         ::new(static_cast<void*>(m_propertyArea)) PropertyArea{};
-- 
2.43.0


From 421f58cbb2c264fbe77f023b3d596832f2ab758e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:45 +0000
Subject: [PATCH 11/72] fix: keep the sign of negative zeroes in the
 experimental CBOR format

---
 lib/include/dots/serialization/formats/CborWriter.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/include/dots/serialization/formats/CborWriter.h b/lib/include/dots/serialization/formats/CborWriter.h
index 7443049..8d62aea 100644
--- a/lib/include/dots/serialization/formats/CborWriter.h
+++ b/lib/include/dots/serialization/formats/CborWriter.h
@@ -5,6 +5,7 @@
 #include <stdexcept>
 #include <limits>
 #include <cstring>
+#include <cmath>
 #include <dots/serialization/formats/Writer.h>
 #include <dots/serialization/formats/CborFormat.h>
 
@@ -100,7 +101,7 @@ namespace dots::serialization
 
             if constexpr (Format == FloatFormat::UseFloat16Zeroes)
             {
-                if (value == static_cast<T>(0))
+                if (value == static_cast<T>(0) && !std::signbit(value))
                 {
                     writeByte(cbor_t::MajorType::SimpleOrFloat | cbor_t::AdditionalInformation::FollowingBytes2);
                     writeContingentBytes(uint16_t{ 0 });
-- 
2.43.0


From 3fda9bbc3b23cc0b99c985eda84e163531bd5cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:05 +0000
Subject: [PATCH 12/72] fix: look up non-ASCII characters within the symbol
 table of text identifiers

---
 lib/include/dots/serialization/formats/TextReader.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/include/dots/serialization/formats/TextReader.h b/lib/include/dots/serialization/formats/TextReader.h
index 12a7d80..88b0d24 100644
--- a/lib/include/dots/serialization/formats/TextReader.h
+++ b/lib/include/dots/serialization/formats/TextReader.h
@@ -248,7 +248,7 @@ namespace dots::serialization
                 return identifierSymbols;
             }();
 
-            auto it = std::find_if_not(input().begin(), input().end(), [](char c){ return IdentifierSymbols[static_cast<size_t>(c)]; });
+            auto it = std::find_if_not(input().begin(), input().end(), [](char c){ return IdentifierSymbols[static_cast<unsigned char>(c)]; });
             size_t identifierSize = it == input().end() ? input().size() : std::distance(input().begin(), it);
             std::string_view identifier = input().substr(0, identifierSize);
             inputAdvance(identifierSize);
-- 
2.43.0


From e13156e3643835a21ebe5701f8f802589d1d70a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:05 +0000
Subject: [PATCH 13/72] fix: do not read past the end of the input when parsing
 floating-point text

---
 .../dots/serialization/formats/TextReader.h      | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/lib/include/dots/serialization/formats/TextReader.h b/lib/include/dots/serialization/formats/TextReader.h
index 88b0d24..f29be81 100644
--- a/lib/include/dots/serialization/formats/TextReader.h
+++ b/lib/include/dots/serialization/formats/TextReader.h
@@ -460,23 +460,31 @@ namespace dots::serialization
             }
             else
             {
+                consumeWhitespace();
+
+                // the input is not necessarily null-terminated, so the number is extracted before it is converted
+                auto tokenEnd = std::find_if_not(input().begin(), input().end(), [](char c)
+                {
+                    return (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || c == '+' || c == '-' || c == '.';
+                });
+                std::string token{ input().begin(), tokenEnd };
                 char* end;
 
                 if constexpr (std::is_same_v<T, float>)
                 {
-                    value = std::strtof(input().data(), &end);
+                    value = std::strtof(token.c_str(), &end);
                 }
                 else/* if constexpr (std::is_same_v<T, double>)*/
                 {
-                    value = std::strtod(input().data(), &end);
+                    value = std::strtod(token.c_str(), &end);
                 }
 
-                if (end == input().data())
+                if (end == token.c_str())
                 {
                     throw makeTokenError("<floating point value>");
                 }
 
-                inputAdvance(static_cast<size_t>(end - input().data()));
+                inputAdvance(static_cast<size_t>(end - token.c_str()));
             }
 
             if constexpr (format_t::FloatFormat == TextFormat::FloatFormat::WithSizeSuffix && std::is_same_v<T, float>)
-- 
2.43.0


From 9454f5e11496bef341038015660ea96c38b54f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:05 +0000
Subject: [PATCH 14/72] fix: skip unknown values in text without recursion and
 stop at the end of the input

---
 .../dots/serialization/formats/TextReader.h   | 75 +++++++++++++------
 1 file changed, 51 insertions(+), 24 deletions(-)

diff --git a/lib/include/dots/serialization/formats/TextReader.h b/lib/include/dots/serialization/formats/TextReader.h
index f29be81..c56d584 100644
--- a/lib/include/dots/serialization/formats/TextReader.h
+++ b/lib/include/dots/serialization/formats/TextReader.h
@@ -282,56 +282,66 @@ namespace dots::serialization
         void skip()
         {
             consumeWhitespace();
+            std::vector<std::string_view> expectedEnds;
 
             while (inputAvailable())
             {
                 if (tools::starts_with(input(), format_t::StringDelimiter))
                 {
-                    readEscapedString();
-                    break;
-                }
-                else if (tools::starts_with(input(), format_t::ArrayBegin))
-                {
-                    readArrayBegin();
+                    skipString();
 
-                    while (!tryReadArrayEnd())
+                    if (expectedEnds.empty())
                     {
-                        skip();
+                        finalizeRead();
+                        return;
                     }
-
-                    break;
+                }
+                else if (tools::starts_with(input(), format_t::ArrayBegin))
+                {
+                    consumeToken(format_t::ArrayBegin);
+                    expectedEnds.emplace_back(format_t::ArrayEnd);
                 }
                 else if (tools::starts_with(input(), format_t::ObjectBegin))
                 {
-                    readObjectBegin();
-
-                    while (!tryReadObjectEnd())
+                    consumeToken(format_t::ObjectBegin);
+                    expectedEnds.emplace_back(format_t::ObjectEnd);
+                }
+                else if (tools::starts_with(input(), format_t::ArrayEnd) || tools::starts_with(input(), format_t::ObjectEnd))
+                {
+                    if (expectedEnds.empty())
                     {
-                        readObjectMemberName();
-                        skip();
+                        return;
                     }
 
-                    break;
+                    consumeToken(expectedEnds.back());
+                    expectedEnds.pop_back();
+
+                    if (expectedEnds.empty())
+                    {
+                        finalizeRead();
+                        return;
+                    }
                 }
-                else if (tools::starts_with(input(), format_t::ArrayElementSeparator))
+                else if (expectedEnds.empty() && tools::starts_with(input(), format_t::ArrayElementSeparator))
                 {
                     consumeToken(format_t::ArrayElementSeparator);
-                    break;
+                    return;
                 }
-                else if (tools::starts_with(input(), format_t::ObjectMemberValueEnd))
+                else if (expectedEnds.empty() && tools::starts_with(input(), format_t::ObjectMemberValueEnd))
                 {
                     consumeToken(format_t::ObjectMemberValueEnd);
-                    break;
-                }
-                else if (tools::starts_with(input(), format_t::ArrayEnd) || tools::starts_with(input(), format_t::ObjectEnd))
-                {
-                    break;
+                    return;
                 }
                 else
                 {
                     inputAdvance(1);
                 }
             }
+
+            if (!expectedEnds.empty())
+            {
+                throw makeTokenError(expectedEnds.back());
+            }
         }
 
     private:
@@ -500,6 +510,23 @@ namespace dots::serialization
             }
         }
 
+        void skipString()
+        {
+            consumeToken(format_t::StringDelimiter);
+
+            while (!tryConsumeToken(format_t::StringDelimiter))
+            {
+                tryConsumeToken(format_t::StringEscape);
+
+                if (inputAvailable() == 0)
+                {
+                    throw makeTokenError(format_t::StringDelimiter);
+                }
+
+                inputAdvance(1);
+            }
+        }
+
         void finalizeRead()
         {
             if (!m_nesting.empty())
-- 
2.43.0


From dd23edd886a4b593f6df791fe4313409e486ae9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:05 +0000
Subject: [PATCH 15/72] fix: resize vectors of dynamic structs to the requested
 size

---
 lib/include/dots/type/VectorDescriptor.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/include/dots/type/VectorDescriptor.h b/lib/include/dots/type/VectorDescriptor.h
index b6f5968..231c964 100644
--- a/lib/include/dots/type/VectorDescriptor.h
+++ b/lib/include/dots/type/VectorDescriptor.h
@@ -167,7 +167,12 @@ namespace dots::type
                 std::aligned_storage_t<sizeof(T), alignof(T)> rawStorage;
                 T& storage = reinterpret_cast<T&>(rawStorage);
 
-                for (size_t i = 0; i < size; ++i)
+                while (vector.size() > size)
+                {
+                    vector.pop_back();
+                }
+
+                while (vector.size() < size)
                 {
                     valueDescriptor.construct(storage);
                     vector.emplace_back(std::move(storage));
-- 
2.43.0


From 30cafcee722fb072ed754eaf06f4d4f62590c5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:05 +0000
Subject: [PATCH 16/72] fix: replace the elements of existing vectors when
 decoding text

---
 lib/include/dots/serialization/RapidJsonSerializer.h | 1 +
 lib/include/dots/serialization/TextSerializer.h      | 1 +
 2 files changed, 2 insertions(+)

diff --git a/lib/include/dots/serialization/RapidJsonSerializer.h b/lib/include/dots/serialization/RapidJsonSerializer.h
index 63a14d5..1b832f2 100644
--- a/lib/include/dots/serialization/RapidJsonSerializer.h
+++ b/lib/include/dots/serialization/RapidJsonSerializer.h
@@ -458,6 +458,7 @@ namespace dots::serialization
         bool visitVectorBeginDerived(vector_t<T>& vector, const type::Descriptor<vector_t<T>>& descriptor)
         {
             m_reader.readArrayBegin();
+            descriptor.resize(vector, 0);
 
             while (!m_reader.tryReadArrayEnd())
             {
diff --git a/lib/include/dots/serialization/TextSerializer.h b/lib/include/dots/serialization/TextSerializer.h
index b829dbd..5e07930 100644
--- a/lib/include/dots/serialization/TextSerializer.h
+++ b/lib/include/dots/serialization/TextSerializer.h
@@ -251,6 +251,7 @@ namespace dots::serialization
         bool visitVectorBeginDerived(vector_t<T>& vector, const type::Descriptor<vector_t<T>>& descriptor)
         {
             reader().readArrayBegin();
+            descriptor.resize(vector, 0);
 
             while (!reader().tryReadArrayEnd())
             {
-- 
2.43.0


From f834c8879230c2c49f73560ed54b8c5dd68b8bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:05 +0000
Subject: [PATCH 17/72] fix: escape control characters in text and read unicode
 escapes

---
 .../dots/serialization/formats/TextReader.h   | 68 +++++++++++++++++++
 .../dots/serialization/formats/TextWriter.h   |  8 +++
 2 files changed, 76 insertions(+)

diff --git a/lib/include/dots/serialization/formats/TextReader.h b/lib/include/dots/serialization/formats/TextReader.h
index c56d584..15e2355 100644
--- a/lib/include/dots/serialization/formats/TextReader.h
+++ b/lib/include/dots/serialization/formats/TextReader.h
@@ -180,6 +180,12 @@ namespace dots::serialization
 
                         if (it == format_t::StringEscapeMapping.end())
                         {
+                            if (tryConsumeToken("\\u"))
+                            {
+                                appendCodePoint(token, readCodePoint());
+                                continue;
+                            }
+
                             throw makeTokenError("<valid-escape-sequence>");
                         }
 
@@ -527,6 +533,68 @@ namespace dots::serialization
             }
         }
 
+        uint32_t readCodeUnit()
+        {
+            uint16_t codeUnit = 0;
+            const char* first = input().data();
+            std::from_chars_result result = std::from_chars(first, first + std::min<size_t>(inputAvailable(), 4), codeUnit, 16);
+
+            if (result.ec != std::errc{} || result.ptr != first + 4)
+            {
+                throw makeTokenError("<four-hex-digits>");
+            }
+
+            inputAdvance(4);
+
+            return codeUnit;
+        }
+
+        uint32_t readCodePoint()
+        {
+            uint32_t codePoint = readCodeUnit();
+
+            if (codePoint >= 0xD800 && codePoint <= 0xDFFF)
+            {
+                consumeToken("\\u");
+                uint32_t low = readCodeUnit();
+
+                if (codePoint > 0xDBFF || low < 0xDC00 || low > 0xDFFF)
+                {
+                    throw makeTokenError("<valid-surrogate-pair>");
+                }
+
+                codePoint = 0x10000 + ((codePoint - 0xD800) << 10) + (low - 0xDC00);
+            }
+
+            return codePoint;
+        }
+
+        static void appendCodePoint(std::string& str, uint32_t codePoint)
+        {
+            if (codePoint < 0x80)
+            {
+                str += static_cast<char>(codePoint);
+            }
+            else if (codePoint < 0x800)
+            {
+                str += static_cast<char>(0xC0 | codePoint >> 6);
+                str += static_cast<char>(0x80 | (codePoint & 0x3F));
+            }
+            else if (codePoint < 0x10000)
+            {
+                str += static_cast<char>(0xE0 | codePoint >> 12);
+                str += static_cast<char>(0x80 | (codePoint >> 6 & 0x3F));
+                str += static_cast<char>(0x80 | (codePoint & 0x3F));
+            }
+            else
+            {
+                str += static_cast<char>(0xF0 | codePoint >> 18);
+                str += static_cast<char>(0x80 | (codePoint >> 12 & 0x3F));
+                str += static_cast<char>(0x80 | (codePoint >> 6 & 0x3F));
+                str += static_cast<char>(0x80 | (codePoint & 0x3F));
+            }
+        }
+
         void finalizeRead()
         {
             if (!m_nesting.empty())
diff --git a/lib/include/dots/serialization/formats/TextWriter.h b/lib/include/dots/serialization/formats/TextWriter.h
index 72781a6..337a362 100644
--- a/lib/include/dots/serialization/formats/TextWriter.h
+++ b/lib/include/dots/serialization/formats/TextWriter.h
@@ -276,6 +276,14 @@ namespace dots::serialization
 
                         if (it == format_t::StringEscapeMapping.end())
                         {
+                            if (auto c = static_cast<unsigned char>(strRemaining.front()); c < 0x20)
+                            {
+                                constexpr std::string_view HexDigits = "0123456789ABCDEF";
+                                append("\\u00", HexDigits.substr(c >> 4, 1), HexDigits.substr(c & 0x0F, 1));
+                                strRemaining.remove_prefix(1);
+                                continue;
+                            }
+
                             append(strRemaining.substr(0, 1));
                             strRemaining.remove_prefix(1);
                         }
-- 
2.43.0


From 3434e9837aa522929cf2c715dae195deda64705e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:05 +0000
Subject: [PATCH 18/72] fix: parse JSON without recursion and with full
 floating-point precision

---
 lib/include/dots/serialization/formats/RapidJsonReader.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/include/dots/serialization/formats/RapidJsonReader.h b/lib/include/dots/serialization/formats/RapidJsonReader.h
index c9af5fe..5f86358 100644
--- a/lib/include/dots/serialization/formats/RapidJsonReader.h
+++ b/lib/include/dots/serialization/formats/RapidJsonReader.h
@@ -61,7 +61,7 @@ namespace dots::serialization
         void setInput(std::string_view input)
         {
             document_t document;
-            document.Parse(input.data(), input.size());
+            document.Parse<rapidjson::kParseIterativeFlag | rapidjson::kParseFullPrecisionFlag>(input.data(), input.size());
             setInput(std::move(document));
         }
 
-- 
2.43.0


From 89bdc587940b36deab2b9f5c8f5f6a45621efe42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:05 +0000
Subject: [PATCH 19/72] fix: keep JSON strings that contain null characters

---
 lib/include/dots/serialization/formats/RapidJsonReader.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/include/dots/serialization/formats/RapidJsonReader.h b/lib/include/dots/serialization/formats/RapidJsonReader.h
index 5f86358..810cfe9 100644
--- a/lib/include/dots/serialization/formats/RapidJsonReader.h
+++ b/lib/include/dots/serialization/formats/RapidJsonReader.h
@@ -294,13 +294,13 @@ namespace dots::serialization
         void read(std::string& value)
         {
             assertType(rapidjson::kStringType);
-            value = m_input->GetString();
+            value = { m_input->GetString(), m_input->GetStringLength() };
         }
 
         void read(std::string_view& value)
         {
             assertType(rapidjson::kStringType);
-            value = m_input->GetString();
+            value = { m_input->GetString(), m_input->GetStringLength() };
         }
 
         void finalizeRead()
-- 
2.43.0


From 422eba1ab30a37298b034c34203b8060c382127a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:05 +0000
Subject: [PATCH 20/72] fix: refuse JSON numbers that are not integers in the
 range of the value

---
 .../serialization/formats/RapidJsonReader.h   | 21 ++++++++-----------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/lib/include/dots/serialization/formats/RapidJsonReader.h b/lib/include/dots/serialization/formats/RapidJsonReader.h
index 810cfe9..50481ac 100644
--- a/lib/include/dots/serialization/formats/RapidJsonReader.h
+++ b/lib/include/dots/serialization/formats/RapidJsonReader.h
@@ -1,6 +1,7 @@
 // SPDX-License-Identifier: LGPL-3.0-only
 // Copyright 2015-2022 Thomas Schaetzlein <thomas@pnxs.de>, Christopher Gerlach <gerlachch@gmx.com>
 #pragma once
+#include <limits>
 #include <stack>
 #include <rapidjson/document.h>
 
@@ -254,25 +255,21 @@ namespace dots::serialization
 
             if constexpr (std::is_signed_v<T>)
             {
-                if constexpr (sizeof(T) <= sizeof(int))
+                if (!m_input->IsInt64() || m_input->GetInt64() < std::numeric_limits<T>::min() || m_input->GetInt64() > std::numeric_limits<T>::max())
                 {
-                    value = static_cast<T>(m_input->GetInt());
-                }
-                else/* if (sizeof(T) == sizeof(int64_t))*/
-                {
-                    value = static_cast<T>(m_input->GetInt64());
+                    throw std::runtime_error{ "JSON number is not an integer in the range of the value" };
                 }
+
+                value = static_cast<T>(m_input->GetInt64());
             }
             else/* if constexpr (std::is_unsigned_v<T>)*/
             {
-                if constexpr (sizeof(T) <= sizeof(unsigned))
+                if (!m_input->IsUint64() || m_input->GetUint64() > std::numeric_limits<T>::max())
                 {
-                    value = static_cast<T>(m_input->GetUint());
-                }
-                else/* if (sizeof(T) == sizeof(uint64_t))*/
-                {
-                    value = static_cast<T>(m_input->GetUint64());
+                    throw std::runtime_error{ "JSON number is not an unsigned integer in the range of the value" };
                 }
+
+                value = static_cast<T>(m_input->GetUint64());
             }
         }
 
-- 
2.43.0


From 35324444744423df6ac30744e36ffd45d6d8a5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:05 +0000
Subject: [PATCH 21/72] fix: do not read past the end of time texts

---
 lib/src/type/Chrono.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/src/type/Chrono.cpp b/lib/src/type/Chrono.cpp
index fdc8b30..aca9248 100644
--- a/lib/src/type/Chrono.cpp
+++ b/lib/src/type/Chrono.cpp
@@ -86,7 +86,7 @@ namespace dots::type
         // it is pretty slow and should be overhauled at a later point
         std::regex regex{ R"(P([0-9\.]+Y)?([0-9\.]+M)?([0-9\.]+W)?([0-9\.]+D)?(T)([0-9\.]+H)?([0-9\.]+M)?([0-9\.]+S)?)", std::regex_constants::ECMAScript };
         std::smatch match;
-        std::string input = value.data();
+        std::string input{ value };
 
         if (!std::regex_match(input, match, regex) || match.size() <= 1)
         {
@@ -221,7 +221,7 @@ namespace dots::type
     {
         if (fmt.empty())
         {
-            std::istringstream iss{ value.data() };
+            std::istringstream iss{ std::string{ value } };
             iss.exceptions(std::istringstream::failbit | std::istringstream::badbit);
             duration_t::rep count;
             iss >> count;
@@ -236,13 +236,13 @@ namespace dots::type
             }
             else
             {
-                std::istringstream iss{ value.data() };
+                std::istringstream iss{ std::string{ value } };
                 iss.exceptions(std::istringstream::failbit | std::istringstream::badbit);
                 sys_time_t sysTimePoint;
 
                 if (fmt == ISO8601DateTime)
                 {
-                    if (value.back() == 'Z')
+                    if (!value.empty() && value.back() == 'Z')
                     {
                         fmt = "%FT%TZ";
                     }
-- 
2.43.0


From eb2bb78ce91a40244b3b0372cadd7f479e77c19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:05 +0000
Subject: [PATCH 22/72] fix: round time points to milliseconds so that their
 text is stable

---
 lib/src/type/Chrono.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/type/Chrono.cpp b/lib/src/type/Chrono.cpp
index aca9248..76ef36f 100644
--- a/lib/src/type/Chrono.cpp
+++ b/lib/src/type/Chrono.cpp
@@ -173,7 +173,7 @@ namespace dots::type
                 std::ostringstream oss;
                 oss.exceptions(std::istringstream::failbit | std::istringstream::badbit);
                 const char* fmtData = fmt == ISO8601DateTime ? "%FT%T%Ez" : fmt.data();
-                sys_time_t sysTimePoint{ std::chrono::duration_cast<sys_duration_t>(duration()) };
+                sys_time_t sysTimePoint{ date::round<sys_duration_t>(duration()) };
 
                 if (utc)
                 {
-- 
2.43.0


From 83870eaee43ebd68f409730bfd6e059de692fdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:33 +0000
Subject: [PATCH 23/72] fix: write the type name and the begin of text objects
 in arrays as one element

---
 .../dots/serialization/formats/TextWriter.h      | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/lib/include/dots/serialization/formats/TextWriter.h b/lib/include/dots/serialization/formats/TextWriter.h
index 337a362..6ad770b 100644
--- a/lib/include/dots/serialization/formats/TextWriter.h
+++ b/lib/include/dots/serialization/formats/TextWriter.h
@@ -47,16 +47,14 @@ namespace dots::serialization
         {
             if constexpr (format_t::ObjectFormat == TextFormat::ObjectFormat::WithTypeName)
             {
-                if (m_options.style == TextOptions::SingleLine)
-                {
-                    if (m_nesting.empty())
-                    {
-                        writeString(objectTypeName);
-                    }
-                }
-                else if (m_options.style >= TextOptions::MultiLine)
+                bool writeTypeName = m_options.style >= TextOptions::MultiLine || (m_options.style == TextOptions::SingleLine && m_nesting.empty());
+
+                if (writeTypeName)
                 {
-                    writeString(objectTypeName);
+                    // note that the name and the begin token are a single element when the object is part of an array
+                    writeString(objectTypeName, format_t::ObjectBegin);
+                    m_nesting.emplace(State::Object, true);
+                    return;
                 }
             }
             else
-- 
2.43.0


From 950f917b8948776738e8742a6c2a377f61d64b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:19 +0000
Subject: [PATCH 24/72] fix: do not read past the end of unknown names in error
 messages

---
 lib/src/type/DescriptorMap.cpp  | 4 ++--
 lib/src/type/EnumDescriptor.cpp | 2 +-
 lib/src/type/Registry.cpp       | 6 +++---
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/src/type/DescriptorMap.cpp b/lib/src/type/DescriptorMap.cpp
index b0c44d5..f8076f0 100644
--- a/lib/src/type/DescriptorMap.cpp
+++ b/lib/src/type/DescriptorMap.cpp
@@ -36,7 +36,7 @@ namespace dots::type
         {
             if (assertNotNull)
             {
-                throw std::logic_error{ std::string{ "no type with name: " } + name.data() };
+                throw std::logic_error{ std::string{ "no type with name: " } + std::string{ name } };
             }
             else
             {
@@ -103,7 +103,7 @@ namespace dots::type
         {
             if (assertContainedType)
             {
-                throw std::logic_error{ std::string{ "no type with name: " } + name.data() };
+                throw std::logic_error{ std::string{ "no type with name: " } + std::string{ name } };
             }
         }
         else
diff --git a/lib/src/type/EnumDescriptor.cpp b/lib/src/type/EnumDescriptor.cpp
index 18f5086..81df0de 100644
--- a/lib/src/type/EnumDescriptor.cpp
+++ b/lib/src/type/EnumDescriptor.cpp
@@ -134,7 +134,7 @@ namespace dots::type
 
         if (it == m_enumerators.end())
         {
-            throw std::logic_error{ "Enum '" + Descriptor<>::name() + "' does not have enumerator with given name: " + name.data() };
+            throw std::logic_error{ "Enum '" + Descriptor<>::name() + "' does not have enumerator with given name: " + std::string{ name } };
         }
 
         return *it;
diff --git a/lib/src/type/Registry.cpp b/lib/src/type/Registry.cpp
index 0a39494..56745f4 100644
--- a/lib/src/type/Registry.cpp
+++ b/lib/src/type/Registry.cpp
@@ -103,7 +103,7 @@ namespace dots::type
         {
             if (assertNotNull)
             {
-                throw std::logic_error{std::string{"no type registered with name1: "} + name.data()};
+                throw std::logic_error{std::string{"no type registered with name1: "} + std::string{ name }};
             }
             else
             {
@@ -127,7 +127,7 @@ namespace dots::type
 
         if (assertNotNull && descriptor == nullptr)
         {
-            throw std::logic_error{ std::string{ "registered type with name '" } + name.data() + "' is not an enum type" };
+            throw std::logic_error{ std::string{ "registered type with name '" } + std::string{ name } + "' is not an enum type" };
         }
 
         return descriptor;
@@ -144,7 +144,7 @@ namespace dots::type
 
         if (assertNotNull && descriptor == nullptr)
         {
-            throw std::logic_error{ std::string{ "registered type with name '" } + name.data() + "' is not a struct type" };
+            throw std::logic_error{ std::string{ "registered type with name '" } + std::string{ name } + "' is not a struct type" };
         }
 
         return descriptor;
-- 
2.43.0


From 4a58a568d7c52c65acee15afafdda7b98e655797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:00 +0000
Subject: [PATCH 25/72] fix: make move-assigning selected properties of static
 structs compile

---
 lib/include/dots/type/StaticStruct.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/include/dots/type/StaticStruct.h b/lib/include/dots/type/StaticStruct.h
index db15854..8fab9e9 100644
--- a/lib/include/dots/type/StaticStruct.h
+++ b/lib/include/dots/type/StaticStruct.h
@@ -120,7 +120,7 @@ namespace dots::type
                     }
                     else
                     {
-                        propertyThis.destroy();
+                        propertyThis = dots::invalid;
                     }
                 };
                 (void)assign;
-- 
2.43.0


From 2f8ca4eddb4502faa41654cdcc5e3104f068bb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:25 +0000
Subject: [PATCH 26/72] fix: move-construct the properties of static structs,
 not just their base

---
 lib/src/type/StructDescriptor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/type/StructDescriptor.cpp b/lib/src/type/StructDescriptor.cpp
index 4db3bfe..1085e6e 100644
--- a/lib/src/type/StructDescriptor.cpp
+++ b/lib/src/type/StructDescriptor.cpp
@@ -68,7 +68,7 @@ namespace dots::type
 
     Typeless& StructDescriptor::construct(Typeless& value, Typeless&& other) const
     {
-        return Typeless::From(construct(value.to<Struct>(), other.to<Struct>()));
+        return Typeless::From(construct(value.to<Struct>(), std::move(other).to<Struct>()));
     }
 
     Struct& StructDescriptor::construct(Struct& instance, Struct&& other) const
-- 
2.43.0


From 28637f58f35621c1889bed0ddbca45e1a565cf97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:38 +0000
Subject: [PATCH 27/72] fix: order property set values totally

The set inclusion order is no strict weak order, so that containers mistook objects whose property set keys differ for each other.
---
 lib/include/dots/type/Descriptor.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/include/dots/type/Descriptor.h b/lib/include/dots/type/Descriptor.h
index f4b35f3..af6a22e 100644
--- a/lib/include/dots/type/Descriptor.h
+++ b/lib/include/dots/type/Descriptor.h
@@ -7,6 +7,7 @@
 #include <stdexcept>
 #include <dots/tools/shared_ptr_only.h>
 #include <dots/type/Typeless.h>
+#include <dots/type/PropertySet.h>
 #include <utility>
 
 namespace dots::type
@@ -155,7 +156,16 @@ namespace dots::type
         template <typename T, typename U, std::enable_if_t<!std::is_same_v<T, Typeless>, int> = 0>
         static constexpr bool less(const T& lhs, const U& rhs)
         {
-            return std::less<T>{}(lhs, rhs);
+            if constexpr (std::is_same_v<T, PropertySet> && std::is_same_v<U, PropertySet>)
+            {
+                // the relational operators of property sets only define the partial order of set inclusion, which
+                // does not tell all unequal sets apart when it is used for ordering (e.g. of container keys)
+                return lhs.toValue() < rhs.toValue();
+            }
+            else
+            {
+                return std::less<T>{}(lhs, rhs);
+            }
         }
 
         template <typename T, typename U, std::enable_if_t<!std::is_same_v<T, Typeless>, int> = 0>
-- 
2.43.0


From a5494e621d723a64fc0d56c7600cca517adbc1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:38 +0000
Subject: [PATCH 28/72] fix: do not store properties that are not part of a
 publication when an instance is created

---
 lib/src/Container.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/src/Container.cpp b/lib/src/Container.cpp
index d6031bf..66962e9 100644
--- a/lib/src/Container.cpp
+++ b/lib/src/Container.cpp
@@ -142,7 +142,10 @@ namespace dots
 
         if (unknownInstance)
         {
-            auto itCreated = m_instances.emplace_hint(itUpper, instance, DotsCloneInformation{
+            type::AnyStruct created{ instance._descriptor() };
+            created->_assign(instance, header.attributes.valueOrDefault(instance._validProperties()) + instance._keyProperties());
+
+            auto itCreated = m_instances.emplace_hint(itUpper, std::move(created), DotsCloneInformation{
                 .lastOperation = DotsMt::create,
                 .lastUpdateFrom = header.sender,
                 .created = header.sentTime,
-- 
2.43.0


From 96107333077862999b1b0c17b09f1f48682be980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:38 +0000
Subject: [PATCH 29/72] fix: forget the name of a container that is removed
 from the pool

---
 lib/src/ContainerPool.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/src/ContainerPool.cpp b/lib/src/ContainerPool.cpp
index 0cfa3c0..802b8e3 100644
--- a/lib/src/ContainerPool.cpp
+++ b/lib/src/ContainerPool.cpp
@@ -127,6 +127,11 @@ namespace dots
             throw std::runtime_error{ "container pool does not contain an element for the given type: " + descriptor.name() };
         }
 
+        if (auto it = m_nameCache.find(descriptor.name()); it != m_nameCache.end() && it->second == &node.mapped())
+        {
+            m_nameCache.erase(it);
+        }
+
         return node;
     }
 
-- 
2.43.0


From de97799eeb9376df1099e72920846d42e1cde4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:38 +0000
Subject: [PATCH 30/72] fix: let a throwing event handler neither end its
 replay nor lose its subscription

---
 lib/src/Dispatcher.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/src/Dispatcher.cpp b/lib/src/Dispatcher.cpp
index e3d5070..7a15ff0 100644
--- a/lib/src/Dispatcher.cpp
+++ b/lib/src/Dispatcher.cpp
@@ -75,7 +75,15 @@ namespace dots
             {
                 header.attributes = instance->_validProperties();
                 --*header.fromCache;
-                handler_(Event<>{ header, instance, instance, cloneInfo, DotsMt::create });
+
+                try
+                {
+                    handler_(Event<>{ header, instance, instance, cloneInfo, DotsMt::create });
+                }
+                catch (...)
+                {
+                    m_errorHandler(descriptor, std::current_exception());
+                }
             }
         }
 
-- 
2.43.0


From 8e8774354d65247c7792b89ad57c8a10281f0000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:38 +0000
Subject: [PATCH 31/72] fix: refuse the removal of uncached instances before
 any handler sees it

---
 lib/src/Dispatcher.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/src/Dispatcher.cpp b/lib/src/Dispatcher.cpp
index 7a15ff0..fcfc1dc 100644
--- a/lib/src/Dispatcher.cpp
+++ b/lib/src/Dispatcher.cpp
@@ -104,6 +104,11 @@ namespace dots
 
     void Dispatcher::dispatch(const io::Transmission& transmission)
     {
+        if (const type::StructDescriptor& descriptor = transmission.instance()->_descriptor(); transmission.header().removeObj == true && !descriptor.cached())
+        {
+            throw std::logic_error{ "cannot remove uncached instance for type: " + descriptor.name() };
+        }
+
         dispatchTransmission(transmission);
         dispatchEvent(transmission.header(), transmission.instance());
     }
@@ -173,11 +178,6 @@ namespace dots
         }
         else
         {
-            if (header.removeObj == true)
-            {
-                throw std::logic_error{ "cannot remove uncached instance for type: " + descriptor.name() };
-            }
-
             DotsCloneInformation cloneInfo{
                 .lastOperation = DotsMt::create,
                 .created = header.sentTime,
-- 
2.43.0


From 3b7bf57629517260ea9fc7d78ec40ab6d0bc7fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:33 +0000
Subject: [PATCH 32/72] fix: process publications of handlers after the current
 one

A publication within a subscription handler of the host was dispatched and transmitted before the outer one was, so that guests and handlers saw both in the opposite order of the host's container (and events of removed instances dangled).
---
 lib/include/dots/HostTransceiver.h |   6 ++
 lib/include/dots/Transceiver.h     |  35 +++++++-
 lib/src/HostTransceiver.cpp        | 123 ++++++++++++++++-------------
 lib/src/Transceiver.cpp            |  58 +++++++++++++-
 4 files changed, 167 insertions(+), 55 deletions(-)

diff --git a/lib/include/dots/HostTransceiver.h b/lib/include/dots/HostTransceiver.h
index 44deddd..4065223 100644
--- a/lib/include/dots/HostTransceiver.h
+++ b/lib/include/dots/HostTransceiver.h
@@ -3,6 +3,7 @@
 #pragma once
 #include <unordered_map>
 #include <unordered_set>
+#include <functional>
 #include <dots/tools/Handler.h>
 #include <dots/Connection.h>
 #include <dots/Transceiver.h>
@@ -183,12 +184,17 @@ namespace dots
         void joinGroup(std::string_view name) override;
         void leaveGroup(std::string_view name) override;
 
+        static io::Transmission makeTransmission(const type::Struct& instance, property_set_t includedProperties, bool remove);
+
+        void distribute(const io::Transmission& transmission);
+        void distributeRemovals(const std::function<bool(const Container<>&, const Container<>::value_t&)>& predicate);
         void transmit(const io::Transmission& transmission);
 
         bool handleListenAccept(io::Listener& listener, io::channel_ptr_t channel);
         void handleListenError(io::Listener& listener, std::exception_ptr ePtr);
 
         bool handleTransmission(Connection& connection, io::Transmission transmission);
+        void processTransmission(Connection& connection, const io::Transmission& transmission);
         void handleTransitionImpl(Connection& connection, std::exception_ptr ePtr) noexcept override;
 
         void handleMemberMessage(Connection& connection, const DotsMember& member);
diff --git a/lib/include/dots/Transceiver.h b/lib/include/dots/Transceiver.h
index 2151e9e..a7d010f 100644
--- a/lib/include/dots/Transceiver.h
+++ b/lib/include/dots/Transceiver.h
@@ -4,6 +4,7 @@
 #include <string_view>
 #include <optional>
 #include <functional>
+#include <deque>
 #include <dots/asio_forward.h>
 #include <dots/Connection.h>
 #include <dots/Dispatcher.h>
@@ -234,7 +235,8 @@ namespace dots
             if constexpr (NotSubStructOnly)
             {
                 joinGroup(T::_Descriptor().name());
-                Dispatcher::id_t id = m_dispatcher.addEventHandler(std::move(handler));
+                Dispatcher::id_t id{};
+                processNow([&]{ id = m_dispatcher.addEventHandler(std::move(handler)); });
 
                 return makeSubscription([&, id]{ m_dispatcher.removeEventHandler(T::_Descriptor(), id); });
             }
@@ -555,6 +557,35 @@ namespace dots
         Dispatcher& dispatcher();
         void handleTransition(Connection& connection, std::exception_ptr ePtr) noexcept;
 
+        using operation_t = std::function<void()>;
+
+        /*!
+         * @brief Process an operation that might change containers and invoke
+         * handlers.
+         *
+         * The operation is processed immediately, unless it is requested while
+         * another operation is still being processed (e.g. because a handler
+         * publishes an instance). In this case, it will be processed as soon
+         * as the current operation and all previously requested ones are
+         * complete.
+         *
+         * This ensures that all handlers and guests observe the operations
+         * completely and in the same order.
+         *
+         * @param operation The operation to process.
+         */
+        void process(operation_t operation);
+
+        /*!
+         * @brief Process an operation immediately.
+         *
+         * Operations that are requested while the given operation is being
+         * processed will be deferred as described in Transceiver::process().
+         *
+         * @param operation The operation to process.
+         */
+        void processNow(const operation_t& operation);
+
     private:
 
         using id_t = uint64_t;
@@ -580,6 +611,8 @@ namespace dots
         std::reference_wrapper<asio::io_context> m_ioContext;
         std::optional<transition_handler_t> m_transitionHandler;
         new_type_handlers_t m_newTypeHandlers;
+        bool m_processing = false;
+        std::deque<operation_t> m_pendingOperations;
     };
 
     template <typename UnsubscribeHandler>
diff --git a/lib/src/HostTransceiver.cpp b/lib/src/HostTransceiver.cpp
index 3b556ec..eabaf06 100644
--- a/lib/src/HostTransceiver.cpp
+++ b/lib/src/HostTransceiver.cpp
@@ -59,29 +59,67 @@ namespace dots
             *includedProperties ^= instance._properties();
         }
 
+        if (remove && !instance._descriptor().cached())
+        {
+            throw std::logic_error{ "attempt to remove instance of uncached type '" + instance._descriptor().name() + "'" };
+        }
+
+        process([this, transmission{ std::make_shared<io::Transmission>(makeTransmission(instance, *includedProperties, remove)) }]
+        {
+            distribute(*transmission);
+        });
+    }
+
+    void HostTransceiver::joinGroup(std::string_view/* name*/)
+    {
+        /* do nothing */
+    }
+
+    void HostTransceiver::leaveGroup(std::string_view/* name*/)
+    {
+        /* do nothing */
+    }
+
+    io::Transmission HostTransceiver::makeTransmission(const type::Struct& instance, property_set_t includedProperties, bool remove)
+    {
         DotsHeader header{
             .typeName = instance._descriptor().name(),
             .sentTime = timepoint_t::Now(),
             .serverSentTime = timepoint_t::Now(),
-            .attributes = *includedProperties,
+            .attributes = includedProperties,
             .sender = Connection::HostId,
             .removeObj = remove,
             .isFromMyself = true
         };
 
-        io::Transmission transmission{ std::move(header), instance };
-        dispatcher().dispatch(transmission);
-        transmit(transmission);
+        return io::Transmission{ std::move(header), instance };
     }
 
-    void HostTransceiver::joinGroup(std::string_view/* name*/)
+    void HostTransceiver::distribute(const io::Transmission& transmission)
     {
-        /* do nothing */
+        dispatcher().dispatch(transmission);
+        transmit(transmission);
     }
 
-    void HostTransceiver::leaveGroup(std::string_view/* name*/)
+    void HostTransceiver::distributeRemovals(const std::function<bool(const Container<>&, const Container<>::value_t&)>& predicate)
     {
-        /* do nothing */
+        std::vector<const type::Struct*> removeInstances;
+
+        for (const auto& [descriptor, container] : pool())
+        {
+            for (const auto& clone : container)
+            {
+                if (predicate(container, clone))
+                {
+                    removeInstances.emplace_back(&clone.first.get());
+                }
+            }
+        }
+
+        for (const type::Struct* instance : removeInstances)
+        {
+            distribute(makeTransmission(*instance, instance->_keyProperties(), true));
+        }
     }
 
     void HostTransceiver::transmit(const io::Transmission& transmission)
@@ -145,21 +183,30 @@ namespace dots
         // because it might get removed during processing of the transmission
         // if it gets dirty
         connection_ptr_t connectionPtr = m_guestConnections.find(&connection)->second;
-        (void)connectionPtr;
 
-        const auto& [header, instance] = transmission;
+        process([this, connectionPtr, transmission{ std::make_shared<io::Transmission>(std::move(transmission)) }]
+        {
+            processTransmission(*connectionPtr, *transmission);
+        });
+
+        return !connection.closed();
+    }
+
+    void HostTransceiver::processTransmission(Connection& connection, const io::Transmission& transmission)
+    {
+        const auto& instance = transmission.instance();
 
         if (instance->_descriptor().internal())
         {
             if (auto* member = instance.as<DotsMember>())
             {
                 handleMemberMessage(connection, *member);
-                return !connection.closed();
+                return;
             }
             else if (auto* descriptorRequest = instance.as<DotsDescriptorRequest>())
             {
                 handleDescriptorRequest(connection, *descriptorRequest);
-                return !connection.closed();
+                return;
             }
             else if (auto* clearCache = instance.as<DotsClearCache>())
             {
@@ -168,14 +215,11 @@ namespace dots
             else if (auto* echoRequest = instance.as<DotsEcho>())
             {
                 handleEchoRequest(connection, *echoRequest);
-                return !connection.closed();
+                return;
             }
         }
 
-        dispatcher().dispatch(transmission);
-        transmit(transmission);
-
-        return !connection.closed();
+        distribute(transmission);
     }
 
     void HostTransceiver::handleTransitionImpl(Connection& connection, std::exception_ptr/* e*/) noexcept
@@ -189,26 +233,13 @@ namespace dots
                     group.erase(&connection);
                 }
 
-                std::vector<const type::Struct*> cleanupInstances;
-
-                for (const auto& [descriptor, container] : pool())
+                process([this, peerId{ connection.peerId() }]
                 {
-                    if (descriptor->cleanup())
+                    distributeRemovals([peerId](const Container<>& container, const Container<>::value_t& clone)
                     {
-                        for (const auto& [instance, cloneInfo] : container)
-                        {
-                            if (connection.peerId() == cloneInfo.lastUpdateFrom)
-                            {
-                                cleanupInstances.emplace_back(&*instance);
-                            }
-                        }
-                    }
-                }
-
-                for (const type::Struct* instance : cleanupInstances)
-                {
-                    remove(*instance);
-                }
+                        return container.descriptor().cleanup() && clone.second.lastUpdateFrom == peerId;
+                    });
+                });
 
                 m_guestConnections.erase(&connection);
             }
@@ -235,7 +266,7 @@ namespace dots
                 LOG_WARN_S(connection.peerDescription() << " is not a member of group '" << groupName << "'");
             }
         }
-        else if (member.event == DotsMemberEvent::join)
+        else if (member.event == DotsMemberEvent::join && !connection.closed())
         {
             if (auto [it, emplaced] = m_groups[groupName].emplace(&connection); emplaced)
             {
@@ -297,24 +328,10 @@ namespace dots
         clearCache._assertHasProperties(DotsClearCache::typeNames_p);
         const vector_t<string_t>& typeNames = *clearCache.typeNames;
 
-        for (auto& [descriptor, container] : pool())
+        distributeRemovals([&typeNames](const Container<>& container, const Container<>::value_t&/* clone*/)
         {
-            if (std::find(typeNames.begin(), typeNames.end(), container.descriptor().name()) != typeNames.end())
-            {
-                std::vector<const type::Struct*> removeInstances;
-
-                for (const auto& [instance, cloneInformation] : container)
-                {
-                    (void)cloneInformation;
-                    removeInstances.emplace_back(&instance.get());
-                }
-
-                for (const type::Struct* instance : removeInstances)
-                {
-                    remove(*instance);
-                }
-            }
-        }
+            return std::find(typeNames.begin(), typeNames.end(), container.descriptor().name()) != typeNames.end();
+        });
     }
 
     void HostTransceiver::handleEchoRequest(Connection& connection, const DotsEcho& echoRequest)
diff --git a/lib/src/Transceiver.cpp b/lib/src/Transceiver.cpp
index 10f2ca6..e0683d6 100644
--- a/lib/src/Transceiver.cpp
+++ b/lib/src/Transceiver.cpp
@@ -133,7 +133,8 @@ namespace dots
         }
 
         joinGroup(descriptor.name());
-        Dispatcher::id_t id = m_dispatcher.addEventHandler(descriptor, std::move(handler));
+        Dispatcher::id_t id{};
+        processNow([&]{ id = m_dispatcher.addEventHandler(descriptor, std::move(handler)); });
 
         return makeSubscription([&, id]{ m_dispatcher.removeEventHandler(descriptor, id); });
     }
@@ -171,6 +172,61 @@ namespace dots
         publish(instance, instance._keyProperties(), true);
     }
 
+    void Transceiver::process(operation_t operation)
+    {
+        if (m_processing)
+        {
+            m_pendingOperations.emplace_back(std::move(operation));
+            return;
+        }
+
+        std::exception_ptr ePtr;
+        m_processing = true;
+
+        try
+        {
+            operation();
+        }
+        catch (...)
+        {
+            ePtr = std::current_exception();
+        }
+
+        while (!m_pendingOperations.empty())
+        {
+            operation_t pendingOperation = std::move(m_pendingOperations.front());
+            m_pendingOperations.pop_front();
+
+            try
+            {
+                pendingOperation();
+            }
+            catch (const std::exception& e)
+            {
+                LOG_ERROR_S("error while processing deferred operation -> " << e.what());
+            }
+        }
+
+        m_processing = false;
+
+        if (ePtr != nullptr)
+        {
+            std::rethrow_exception(ePtr);
+        }
+    }
+
+    void Transceiver::processNow(const operation_t& operation)
+    {
+        if (m_processing)
+        {
+            operation();
+        }
+        else
+        {
+            process(operation);
+        }
+    }
+
     void Transceiver::handleNewType(const type::Descriptor<>& descriptor) noexcept
     {
         for (const auto& [id, handler] : m_newTypeHandlers)
-- 
2.43.0


From 08d5b41c8f675f0b28142ba713cb8fecd6501da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:37 +0000
Subject: [PATCH 33/72] fix: keep listening when an incoming connection fails

A peer that disconnected before it was accepted caused the listener to be
removed, so no other peer could connect anymore. The listener was also
still accessed after it had been removed.
---
 lib/include/dots/io/Listener.h            | 23 +++++++++++++
 lib/src/io/Listener.cpp                   | 25 +++++++++++++-
 lib/src/io/channels/TcpListener.cpp       | 25 ++++++--------
 lib/src/io/channels/UdsListener.cpp       | 25 ++++++--------
 lib/src/io/channels/WebSocketListener.cpp | 41 ++++++++++-------------
 5 files changed, 87 insertions(+), 52 deletions(-)

diff --git a/lib/include/dots/io/Listener.h b/lib/include/dots/io/Listener.h
index 32fddc6..a2c5a24 100644
--- a/lib/include/dots/io/Listener.h
+++ b/lib/include/dots/io/Listener.h
@@ -25,14 +25,37 @@ namespace dots::io
 
     protected:
 
+        /*!
+         * @brief Get a token that expires with the listener.
+         *
+         * This can be used by asynchronous operations to determine whether the
+         * listener still exists when they complete.
+         *
+         * @return std::weak_ptr<void> A weak pointer that expires when the
+         * listener is destroyed.
+         */
+        std::weak_ptr<void> lifetime() const;
+
         virtual void asyncAcceptImpl() = 0;
         void processAccept(channel_ptr_t channel);
+
+        /*!
+         * @brief Process the failure of a single incoming connection.
+         *
+         * Contrary to Listener::processError(), this only concerns a peer
+         * (e.g. because it was disconnected before it could be accepted). The
+         * listener itself continues to listen.
+         *
+         * @param what The description of the failure.
+         */
+        void processAcceptFailure(const std::string& what);
         void processError(std::exception_ptr ePtr);
         void processError(const std::string& what);
         void verifyErrorCode(std::error_code errorCode);
 
     private:
 
+        std::shared_ptr<void> m_lifetime = std::make_shared<char>();
         bool m_asyncAcceptActive = false;
         std::optional<accept_handler_t> m_acceptHandler;
         std::optional<error_handler_t> m_errorHandler;
diff --git a/lib/src/io/Listener.cpp b/lib/src/io/Listener.cpp
index 11cc860..b3d4742 100644
--- a/lib/src/io/Listener.cpp
+++ b/lib/src/io/Listener.cpp
@@ -1,6 +1,7 @@
 // SPDX-License-Identifier: LGPL-3.0-only
 // Copyright 2015-2022 Thomas Schaetzlein <thomas@pnxs.de>, Christopher Gerlach <gerlachch@gmx.com>
 #include <dots/io/Listener.h>
+#include <dots/tools/logging.h>
 
 namespace dots::io
 {
@@ -17,9 +18,31 @@ namespace dots::io
         asyncAcceptImpl();
     }
 
+    std::weak_ptr<void> Listener::lifetime() const
+    {
+        return m_lifetime;
+    }
+
+    void Listener::processAcceptFailure(const std::string& what)
+    {
+        LOG_WARN_S("failed to accept incoming connection -> " << what);
+        asyncAcceptImpl();
+    }
+
     void Listener::processAccept(channel_ptr_t channel)
     {
-        if ((*m_acceptHandler)(*this, std::move(channel)))
+        bool continueAccept = true;
+
+        try
+        {
+            continueAccept = (*m_acceptHandler)(*this, std::move(channel));
+        }
+        catch (const std::exception& e)
+        {
+            LOG_ERROR_S("error while handling accepted channel -> " << e.what());
+        }
+
+        if (continueAccept)
         {
             asyncAcceptImpl();
         }
diff --git a/lib/src/io/channels/TcpListener.cpp b/lib/src/io/channels/TcpListener.cpp
index b3850d3..490f043 100644
--- a/lib/src/io/channels/TcpListener.cpp
+++ b/lib/src/io/channels/TcpListener.cpp
@@ -46,9 +46,9 @@ namespace dots::io::details
     template <typename TChannel>
     void GenericTcpListener<TChannel>::asyncAcceptImpl()
     {
-        m_acceptor.async_accept(m_socket, [this](const boost::system::error_code& error)
+        m_acceptor.async_accept(m_socket, [this, lifetime{ lifetime() }](const boost::system::error_code& error)
         {
-            if (error == asio::error::operation_aborted || !m_acceptor.is_open())
+            if (lifetime.expired() || error == asio::error::operation_aborted || !m_acceptor.is_open())
             {
                 return;
             }
@@ -59,6 +59,8 @@ namespace dots::io::details
                 return;
             }
 
+            channel_ptr_t channel;
+
             try
             {
                 m_socket.non_blocking(true);
@@ -75,22 +77,17 @@ namespace dots::io::details
                 }
 
                 // note: this move is explicitly allowed according to the Boost ASIO v1.72 documentation of the socket
-                processAccept(make_channel<TChannel>(std::move(m_socket), &m_payloadCache));
+                channel = make_channel<TChannel>(std::move(m_socket), &m_payloadCache);
             }
             catch (const std::exception& e)
             {
-                try
-                {
-                    processError(std::string{ "failed to configure TCP socket -> " } + e.what());
-
-                    m_socket.shutdown(asio::ip::tcp::socket::shutdown_both);
-                    m_socket.close();
-                }
-                catch (const std::exception& e)
-                {
-                    processError(std::string{ "failed to shutdown and close TCP socket -> " } + e.what());
-                }
+                boost::system::error_code ec;
+                m_socket.close(ec);
+                processAcceptFailure(std::string{ "failed to configure TCP socket -> " } + e.what());
+                return;
             }
+
+            processAccept(std::move(channel));
         });
     }
 
diff --git a/lib/src/io/channels/UdsListener.cpp b/lib/src/io/channels/UdsListener.cpp
index a052332..f5a159a 100644
--- a/lib/src/io/channels/UdsListener.cpp
+++ b/lib/src/io/channels/UdsListener.cpp
@@ -50,9 +50,9 @@ namespace dots::io::posix::details
     template <typename TChannel>
     void GenericUdsListener<TChannel>::asyncAcceptImpl()
     {
-        m_acceptor.async_accept(m_socket, [this](const boost::system::error_code& error)
+        m_acceptor.async_accept(m_socket, [this, lifetime{ lifetime() }](const boost::system::error_code& error)
         {
-            if (error == asio::error::operation_aborted || !m_acceptor.is_open())
+            if (lifetime.expired() || error == asio::error::operation_aborted || !m_acceptor.is_open())
             {
                 return;
             }
@@ -63,6 +63,8 @@ namespace dots::io::posix::details
                 return;
             }
 
+            channel_ptr_t channel;
+
             try
             {
                 m_socket.non_blocking(true);
@@ -77,22 +79,17 @@ namespace dots::io::posix::details
                 }
 
                 // note: this move is explicitly allowed according to the ASIO v1.72 documentation of the socket
-                processAccept(make_channel<TChannel>(std::move(m_socket), &m_payloadCache));
+                channel = make_channel<TChannel>(std::move(m_socket), &m_payloadCache);
             }
             catch (const std::exception& e)
             {
-                try
-                {
-                    processError(std::string{ "failed to configure UDS socket -> " } + e.what());
-
-                    m_socket.shutdown(asio::local::stream_protocol::socket::shutdown_both);
-                    m_socket.close();
-                }
-                catch (const std::exception& e)
-                {
-                    processError(std::string{ "failed to shutdown and close UDS socket -> " } + e.what());
-                }
+                boost::system::error_code ec;
+                m_socket.close(ec);
+                processAcceptFailure(std::string{ "failed to configure UDS socket -> " } + e.what());
+                return;
             }
+
+            processAccept(std::move(channel));
         });
     }
 
diff --git a/lib/src/io/channels/WebSocketListener.cpp b/lib/src/io/channels/WebSocketListener.cpp
index 8f54ba3..bb693d2 100644
--- a/lib/src/io/channels/WebSocketListener.cpp
+++ b/lib/src/io/channels/WebSocketListener.cpp
@@ -44,21 +44,23 @@ namespace dots::io
 
     void WebSocketListener::asyncAcceptImpl()
     {
-        m_acceptor.async_accept(m_socket, [this](const boost::system::error_code& error)
+        m_acceptor.async_accept(m_socket, [this, lifetime{ lifetime() }](const boost::system::error_code& error)
         {
-            try
+            if (lifetime.expired() || error == asio::error::operation_aborted || !m_acceptor.is_open())
             {
-                if (error == asio::error::operation_aborted || !m_acceptor.is_open())
-                {
-                    return;
-                }
+                return;
+            }
 
-                if (error)
-                {
-                    processError(std::make_exception_ptr(std::runtime_error{ "failed listening on WebSocket endpoint at address '" + m_address + ":" + m_port + "' -> " + error.message() }));
-                    return;
-                }
+            if (error)
+            {
+                processError(std::make_exception_ptr(std::runtime_error{ "failed listening on WebSocket endpoint at address '" + m_address + ":" + m_port + "' -> " + error.message() }));
+                return;
+            }
+
+            channel_ptr_t channel;
 
+            try
+            {
                 // note: this move is explicitly allowed according to the Boost ASIO v1.72 documentation of the socket
                 WebSocketChannel::ws_stream_t stream{ std::move(m_socket) };
 
@@ -71,22 +73,15 @@ namespace dots::io
 
                 stream.accept();
 
-                processAccept(make_channel<WebSocketChannel>(std::move(stream)));
+                channel = make_channel<WebSocketChannel>(std::move(stream));
             }
             catch (const std::exception& e)
             {
-                try
-                {
-                    processError(std::string{ "failed to configure WebSocket stream -> " } + e.what());
-
-                    m_socket.shutdown(asio::ip::tcp::socket::shutdown_both);
-                    m_socket.close();
-                }
-                catch (const std::exception& e)
-                {
-                    processError(std::string{ "failed to shutdown and close WebSocket stream -> " } + e.what());
-                }
+                processAcceptFailure(std::string{ "failed to configure WebSocket stream -> " } + e.what());
+                return;
             }
+
+            processAccept(std::move(channel));
         });
     }
 }
-- 
2.43.0


From 4d4594f07a8c701c3b54b8efd85116bd33337288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:37 +0000
Subject: [PATCH 34/72] fix: perform the WebSocket handshake without blocking
 the host

A peer that connected to a WebSocket listener without completing the
handshake blocked the event loop of the host and thus every other
connection.
---
 lib/include/dots/io/Listener.h                |  9 +++
 .../dots/io/channels/WebSocketListener.h      |  3 +
 lib/src/io/Listener.cpp                       |  5 ++
 lib/src/io/channels/WebSocketListener.cpp     | 68 +++++++++++++++----
 4 files changed, 73 insertions(+), 12 deletions(-)

diff --git a/lib/include/dots/io/Listener.h b/lib/include/dots/io/Listener.h
index a2c5a24..a3e4f6d 100644
--- a/lib/include/dots/io/Listener.h
+++ b/lib/include/dots/io/Listener.h
@@ -36,6 +36,15 @@ namespace dots::io
          */
         std::weak_ptr<void> lifetime() const;
 
+        /*!
+         * @brief Indicates whether accepted channels can currently be
+         * processed (see Listener::asyncAccept()).
+         *
+         * @return true If an async accept is active.
+         * @return false Else.
+         */
+        bool asyncAcceptActive() const;
+
         virtual void asyncAcceptImpl() = 0;
         void processAccept(channel_ptr_t channel);
 
diff --git a/lib/include/dots/io/channels/WebSocketListener.h b/lib/include/dots/io/channels/WebSocketListener.h
index 2baa38c..796fb97 100644
--- a/lib/include/dots/io/channels/WebSocketListener.h
+++ b/lib/include/dots/io/channels/WebSocketListener.h
@@ -24,9 +24,12 @@ namespace dots::io
 
     private:
 
+        void asyncHandshake();
+
         std::string m_address;
         std::string m_port;
         asio::ip::tcp::acceptor m_acceptor;
         asio::ip::tcp::socket m_socket;
+        bool m_accepting = false;
     };
 }
diff --git a/lib/src/io/Listener.cpp b/lib/src/io/Listener.cpp
index b3d4742..9412d87 100644
--- a/lib/src/io/Listener.cpp
+++ b/lib/src/io/Listener.cpp
@@ -23,6 +23,11 @@ namespace dots::io
         return m_lifetime;
     }
 
+    bool Listener::asyncAcceptActive() const
+    {
+        return m_asyncAcceptActive;
+    }
+
     void Listener::processAcceptFailure(const std::string& what)
     {
         LOG_WARN_S("failed to accept incoming connection -> " << what);
diff --git a/lib/src/io/channels/WebSocketListener.cpp b/lib/src/io/channels/WebSocketListener.cpp
index bb693d2..206ae85 100644
--- a/lib/src/io/channels/WebSocketListener.cpp
+++ b/lib/src/io/channels/WebSocketListener.cpp
@@ -44,9 +44,22 @@ namespace dots::io
 
     void WebSocketListener::asyncAcceptImpl()
     {
+        if (m_accepting)
+        {
+            return;
+        }
+
+        m_accepting = true;
         m_acceptor.async_accept(m_socket, [this, lifetime{ lifetime() }](const boost::system::error_code& error)
         {
-            if (lifetime.expired() || error == asio::error::operation_aborted || !m_acceptor.is_open())
+            if (lifetime.expired())
+            {
+                return;
+            }
+
+            m_accepting = false;
+
+            if (error == asio::error::operation_aborted || !m_acceptor.is_open())
             {
                 return;
             }
@@ -57,23 +70,49 @@ namespace dots::io
                 return;
             }
 
+            try
+            {
+                asyncHandshake();
+                asyncAcceptImpl();
+            }
+            catch (const std::exception& e)
+            {
+                processAcceptFailure(std::string{ "failed to configure WebSocket stream -> " } + e.what());
+            }
+        });
+    }
+
+    void WebSocketListener::asyncHandshake()
+    {
+        // note: this move is explicitly allowed according to the Boost ASIO v1.72 documentation of the socket
+        auto stream = std::make_shared<WebSocketChannel::ws_stream_t>(std::move(m_socket));
+
+        stream->set_option(boost::beast::websocket::stream_base::timeout::suggested(boost::beast::role_type::server));
+        stream->set_option(boost::beast::websocket::stream_base::decorator([](boost::beast::websocket::response_type& res)
+        {
+            res.set(boost::beast::http::field::server, std::string(BOOST_BEAST_VERSION_STRING) + " DOTS WebSocket server");
+            res.set(boost::beast::http::field::sec_websocket_protocol, WebSocketChannel::Subprotocol);
+        }));
+
+        // note: this must not block, because a peer can take arbitrarily long
+        // to complete the handshake
+        stream->async_accept([this, lifetime{ lifetime() }, stream](const boost::system::error_code& error)
+        {
+            if (lifetime.expired() || !asyncAcceptActive())
+            {
+                return;
+            }
+
             channel_ptr_t channel;
 
             try
             {
-                // note: this move is explicitly allowed according to the Boost ASIO v1.72 documentation of the socket
-                WebSocketChannel::ws_stream_t stream{ std::move(m_socket) };
-
-                stream.set_option(boost::beast::websocket::stream_base::timeout::suggested(boost::beast::role_type::server));
-                stream.set_option(boost::beast::websocket::stream_base::decorator([](boost::beast::websocket::response_type& res)
+                if (error)
                 {
-                    res.set(boost::beast::http::field::server, std::string(BOOST_BEAST_VERSION_STRING) + " DOTS WebSocket server");
-                    res.set(boost::beast::http::field::sec_websocket_protocol, WebSocketChannel::Subprotocol);
-                }));
+                    throw std::runtime_error{ error.message() };
+                }
 
-                stream.accept();
-
-                channel = make_channel<WebSocketChannel>(std::move(stream));
+                channel = make_channel<WebSocketChannel>(std::move(*stream));
             }
             catch (const std::exception& e)
             {
@@ -82,6 +121,11 @@ namespace dots::io
             }
 
             processAccept(std::move(channel));
+
+            if (!asyncAcceptActive())
+            {
+                m_acceptor.cancel();
+            }
         });
     }
 }
-- 
2.43.0


From 46f0c9dfa480947522292e8cce32875232aedf1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:37 +0000
Subject: [PATCH 35/72] fix: share the payload cache of a listener with its
 channels

The channels of a listener that was removed due to an error continued to
use the payload cache of the destroyed listener.
---
 lib/include/dots/io/channels/AsyncStreamChannel.h | 9 +++++----
 lib/include/dots/io/channels/TcpChannel.h         | 2 +-
 lib/include/dots/io/channels/TcpListener.h        | 2 +-
 lib/include/dots/io/channels/UdsChannel.h         | 2 +-
 lib/include/dots/io/channels/UdsListener.h        | 2 +-
 lib/src/io/channels/TcpChannel.cpp                | 4 ++--
 lib/src/io/channels/TcpListener.cpp               | 4 ++--
 lib/src/io/channels/UdsChannel.cpp                | 4 ++--
 lib/src/io/channels/UdsListener.cpp               | 4 ++--
 9 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/lib/include/dots/io/channels/AsyncStreamChannel.h b/lib/include/dots/io/channels/AsyncStreamChannel.h
index 087397a..e38ea3c 100644
--- a/lib/include/dots/io/channels/AsyncStreamChannel.h
+++ b/lib/include/dots/io/channels/AsyncStreamChannel.h
@@ -122,12 +122,12 @@ namespace dots::io
          * AsyncStreamChannel::serializeTransmission(Transmission::id_t, const
          * DotsHeader&, const type::Struct&)).
          */
-        AsyncStreamChannel(key_t key, stream_t&& stream, payload_cache_t* payloadCache) :
+        AsyncStreamChannel(key_t key, stream_t&& stream, std::shared_ptr<payload_cache_t> payloadCache) :
             Channel(key),
             m_asyncWriting(false),
             m_readDispatching(false),
             m_stream{ std::move(stream) },
-            m_payloadCache(payloadCache)
+            m_payloadCache{ std::move(payloadCache) }
         {
             /* do nothing */
         }
@@ -634,7 +634,8 @@ namespace dots::io
          * @brief Serialize a transmission into the current write buffer.
          *
          * If a payload cache was provided in
-         * AsyncStreamChannel(key_t, stream_t&&, payload_cache_t*),
+         * AsyncStreamChannel(key_t, stream_t&&,
+         * std::shared_ptr<payload_cache_t>),
          * the function will attempt to retrieve the payload from the cache
          * based on the id of the given transmission.
          *
@@ -676,6 +677,6 @@ namespace dots::io
         bool m_asyncWriting;
         bool m_readDispatching;
         stream_t m_stream;
-        payload_cache_t* m_payloadCache;
+        std::shared_ptr<payload_cache_t> m_payloadCache;
     };
 }
diff --git a/lib/include/dots/io/channels/TcpChannel.h b/lib/include/dots/io/channels/TcpChannel.h
index 3b544c0..65f39ab 100644
--- a/lib/include/dots/io/channels/TcpChannel.h
+++ b/lib/include/dots/io/channels/TcpChannel.h
@@ -47,7 +47,7 @@ namespace dots::io::details
          * @param key
          * @param socket
          */
-        GenericTcpChannel(key_t key, asio::ip::tcp::socket&& socket, payload_cache_t* payloadCache);
+        GenericTcpChannel(key_t key, asio::ip::tcp::socket&& socket, std::shared_ptr<payload_cache_t> payloadCache);
         GenericTcpChannel(const GenericTcpChannel& other) = delete;
         GenericTcpChannel(GenericTcpChannel&& other) = delete;
         ~GenericTcpChannel() override = default;
diff --git a/lib/include/dots/io/channels/TcpListener.h b/lib/include/dots/io/channels/TcpListener.h
index 44449eb..74d6b14 100644
--- a/lib/include/dots/io/channels/TcpListener.h
+++ b/lib/include/dots/io/channels/TcpListener.h
@@ -35,7 +35,7 @@ namespace dots::io::details
         std::string m_port;
         asio::ip::tcp::acceptor m_acceptor;
         asio::ip::tcp::socket m_socket;
-        payload_cache_t m_payloadCache;
+        std::shared_ptr<payload_cache_t> m_payloadCache;
     };
 
     extern template struct GenericTcpListener<v1::TcpChannel>;
diff --git a/lib/include/dots/io/channels/UdsChannel.h b/lib/include/dots/io/channels/UdsChannel.h
index aae7614..5191932 100644
--- a/lib/include/dots/io/channels/UdsChannel.h
+++ b/lib/include/dots/io/channels/UdsChannel.h
@@ -16,7 +16,7 @@ namespace dots::io::posix::details
 
         GenericUdsChannel(key_t key, asio::io_context& ioContext, const Endpoint& endpoint);
         GenericUdsChannel(key_t key, asio::io_context& ioContext, std::string_view path);
-        GenericUdsChannel(key_t key, asio::local::stream_protocol::socket&& socket, payload_cache_t* payloadCache);
+        GenericUdsChannel(key_t key, asio::local::stream_protocol::socket&& socket, std::shared_ptr<payload_cache_t> payloadCache);
         GenericUdsChannel(const GenericUdsChannel& other) = delete;
         GenericUdsChannel(GenericUdsChannel&& other) = delete;
         virtual ~GenericUdsChannel() noexcept = default;
diff --git a/lib/include/dots/io/channels/UdsListener.h b/lib/include/dots/io/channels/UdsListener.h
index abe8f6c..d307ac9 100644
--- a/lib/include/dots/io/channels/UdsListener.h
+++ b/lib/include/dots/io/channels/UdsListener.h
@@ -34,7 +34,7 @@ namespace dots::io::posix::details
         asio::local::stream_protocol::endpoint m_endpoint;
         asio::local::stream_protocol::acceptor m_acceptor;
         asio::local::stream_protocol::socket m_socket;
-        payload_cache_t m_payloadCache;
+        std::shared_ptr<payload_cache_t> m_payloadCache;
     };
 
     extern template struct GenericUdsListener<v1::UdsChannel>;
diff --git a/lib/src/io/channels/TcpChannel.cpp b/lib/src/io/channels/TcpChannel.cpp
index 2079e98..21de884 100644
--- a/lib/src/io/channels/TcpChannel.cpp
+++ b/lib/src/io/channels/TcpChannel.cpp
@@ -63,8 +63,8 @@ namespace dots::io::details
     }
 
     template <typename Serializer, TransmissionFormat TransmissionFormat>
-    GenericTcpChannel<Serializer, TransmissionFormat>::GenericTcpChannel(key_t key, asio::ip::tcp::socket&& socket_, payload_cache_t* payloadCache) :
-        base_t(key, std::move(socket_), payloadCache),
+    GenericTcpChannel<Serializer, TransmissionFormat>::GenericTcpChannel(key_t key, asio::ip::tcp::socket&& socket_, std::shared_ptr<payload_cache_t> payloadCache) :
+        base_t(key, std::move(socket_), std::move(payloadCache)),
         m_resolver( stream().get_executor())
     {
         if (stream().is_open())
diff --git a/lib/src/io/channels/TcpListener.cpp b/lib/src/io/channels/TcpListener.cpp
index 490f043..79cdf45 100644
--- a/lib/src/io/channels/TcpListener.cpp
+++ b/lib/src/io/channels/TcpListener.cpp
@@ -17,7 +17,7 @@ namespace dots::io::details
         m_port{ std::move(port) },
         m_acceptor{ ioContext },
         m_socket{ ioContext },
-        m_payloadCache{ 0, buffer_t{} }
+        m_payloadCache{ std::make_shared<payload_cache_t>(0, buffer_t{}) }
     {
         try
         {
@@ -77,7 +77,7 @@ namespace dots::io::details
                 }
 
                 // note: this move is explicitly allowed according to the Boost ASIO v1.72 documentation of the socket
-                channel = make_channel<TChannel>(std::move(m_socket), &m_payloadCache);
+                channel = make_channel<TChannel>(std::move(m_socket), m_payloadCache);
             }
             catch (const std::exception& e)
             {
diff --git a/lib/src/io/channels/UdsChannel.cpp b/lib/src/io/channels/UdsChannel.cpp
index f5eebeb..26c0c23 100644
--- a/lib/src/io/channels/UdsChannel.cpp
+++ b/lib/src/io/channels/UdsChannel.cpp
@@ -32,8 +32,8 @@ namespace dots::io::posix::details
     }
 
     template <typename Serializer, TransmissionFormat TransmissionFormat>
-    GenericUdsChannel<Serializer, TransmissionFormat>::GenericUdsChannel(key_t key, asio::local::stream_protocol::socket&& socket_, payload_cache_t* payloadCache) :
-        base_t(key, std::move(socket_), payloadCache)
+    GenericUdsChannel<Serializer, TransmissionFormat>::GenericUdsChannel(key_t key, asio::local::stream_protocol::socket&& socket_, std::shared_ptr<payload_cache_t> payloadCache) :
+        base_t(key, std::move(socket_), std::move(payloadCache))
     {
         IgnorePipeSignals();
 
diff --git a/lib/src/io/channels/UdsListener.cpp b/lib/src/io/channels/UdsListener.cpp
index f5a159a..4eefd9b 100644
--- a/lib/src/io/channels/UdsListener.cpp
+++ b/lib/src/io/channels/UdsListener.cpp
@@ -18,7 +18,7 @@ namespace dots::io::posix::details
         m_endpoint{ path.data() },
         m_acceptor{ ioContext },
         m_socket{ ioContext },
-        m_payloadCache{ 0, UdsChannel::buffer_t{} }
+        m_payloadCache{ std::make_shared<payload_cache_t>(0, buffer_t{}) }
     {
         try
         {
@@ -79,7 +79,7 @@ namespace dots::io::posix::details
                 }
 
                 // note: this move is explicitly allowed according to the ASIO v1.72 documentation of the socket
-                channel = make_channel<TChannel>(std::move(m_socket), &m_payloadCache);
+                channel = make_channel<TChannel>(std::move(m_socket), m_payloadCache);
             }
             catch (const std::exception& e)
             {
-- 
2.43.0


From d5a360f1958180197379777ab45db7788d7485cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:35 +0000
Subject: [PATCH 36/72] fix: do not use connections and channels after their
 destruction

A channel accessed itself and the handlers of its connection after
processing a transmission or an error had closed the connection, and it
could report errors of pending operations to a destroyed connection.
---
 lib/include/dots/io/Channel.h                 | 11 ++++++
 .../dots/io/channels/AsyncStreamChannel.h     | 36 +++++++++++--------
 lib/src/Connection.cpp                        | 11 +++++-
 lib/src/io/Channel.cpp                        | 31 +++++++++++++---
 lib/src/io/channels/WebSocketChannel.cpp      | 13 ++++---
 5 files changed, 78 insertions(+), 24 deletions(-)

diff --git a/lib/include/dots/io/Channel.h b/lib/include/dots/io/Channel.h
index c733967..1e2c6c8 100644
--- a/lib/include/dots/io/Channel.h
+++ b/lib/include/dots/io/Channel.h
@@ -38,6 +38,15 @@ namespace dots::io
         void init(type::Registry& registry);
 
         void asyncReceive(receive_handler_t receiveHandler, error_handler_t errorHandler);
+
+        /*!
+         * @brief Cancel the active async receive.
+         *
+         * After this, neither the receive handler nor the error handler given
+         * to Channel::asyncReceive() will be invoked again, even when there
+         * are still operations in progress on the channel.
+         */
+        void cancelReceive() noexcept;
         void transmit(const type::Struct& instance);
         void transmit(const DotsHeader& header, const type::Struct& instance);
         void transmit(const Transmission& transmission);
@@ -54,6 +63,8 @@ namespace dots::io
         virtual void transmitImpl(const DotsHeader& header, const type::Struct& instance) = 0;
         virtual void transmitImpl(const Transmission& transmission);
 
+        bool asyncReceiving() const noexcept;
+
         void processReceive(Transmission transmission) noexcept;
         void processError(std::exception_ptr ePtr);
         void processError(const std::string& what);
diff --git a/lib/include/dots/io/channels/AsyncStreamChannel.h b/lib/include/dots/io/channels/AsyncStreamChannel.h
index e38ea3c..53bc695 100644
--- a/lib/include/dots/io/channels/AsyncStreamChannel.h
+++ b/lib/include/dots/io/channels/AsyncStreamChannel.h
@@ -74,6 +74,9 @@ namespace dots::io
         using stream_t = Stream;
         using serializer_t = Serializer;
 
+        using Channel::shared_from_this;
+        using Channel::weak_from_this;
+
         using buffer_t = typename serializer_t::data_t;
         using payload_cache_t = std::pair<Transmission::id_t, buffer_t>;
 
@@ -190,6 +193,8 @@ namespace dots::io
                 return;
             }
 
+            auto this_ = shared_from_this();
+
             if constexpr (TransmissionFormat == TransmissionFormat::v1)
             {
                 auto process_transmission = [this]
@@ -343,13 +348,16 @@ namespace dots::io
 
                 asio::dispatch(m_stream.get_executor(), [this, this_{ weak_from_this() }, handler{ std::forward<Handler>(handler) }]
                 {
-                    try
+                    // ensure that the channel is alive until the handler returns
+                    auto channel = this_.lock();
+
+                    if (channel == nullptr || !asyncReceiving())
                     {
-                        if (this_.expired() || (this_.use_count() == 1 && m_asyncWriting))
-                        {
-                            return;
-                        }
+                        return;
+                    }
 
+                    try
+                    {
                         handler();
                     }
                     catch (...)
@@ -380,13 +388,16 @@ namespace dots::io
 
                 m_stream.async_read_some(asio::buffer(readBufferBegin, readBufferEnd - readBufferBegin), [this, this_{ weak_from_this() }, requiredBytes, handler{ std::forward<Handler>(handler)}](boost::system::error_code ec, size_t bytesRead)
                 {
-                    try
+                    // ensure that the channel is alive until the handler returns
+                    auto channel = this_.lock();
+
+                    if (channel == nullptr || !asyncReceiving())
                     {
-                        if (this_.expired() || (this_.use_count() == 1 && m_asyncWriting))
-                        {
-                            return;
-                        }
+                        return;
+                    }
 
+                    try
+                    {
                         verifyErrorCode(ec);
 
                         m_serializer.setInput(m_serializer.inputData(), m_serializer.inputAvailable() + bytesRead);
@@ -440,10 +451,7 @@ namespace dots::io
                     }
                     catch (...)
                     {
-                        if (this_.use_count() > 1)
-                        {
-                            processError(std::current_exception());
-                        }
+                        processError(std::current_exception());
                     }
                 });
 
diff --git a/lib/src/Connection.cpp b/lib/src/Connection.cpp
index 7674f23..f06ec3d 100644
--- a/lib/src/Connection.cpp
+++ b/lib/src/Connection.cpp
@@ -202,6 +202,11 @@ namespace dots
 
     void Connection::handleError(std::exception_ptr ePtr)
     {
+        if (m_connectionState == DotsConnectionState::closed)
+        {
+            return;
+        }
+
         if (m_connectionState == DotsConnectionState::connected)
         {
             try
@@ -306,6 +311,7 @@ namespace dots
 
     void Connection::handleClose(std::exception_ptr ePtr)
     {
+        m_channel->cancelReceive();
         m_receiveHandler = std::nullopt;
         expectSystemType<DotsMsgError>(property_set_t::None, nullptr);
         setConnectionState(DotsConnectionState::closed, ePtr);
@@ -470,7 +476,10 @@ namespace dots
 
         try
         {
-            (*m_transitionHandler)(*this, e);
+            if (m_transitionHandler != std::nullopt)
+            {
+                (*m_transitionHandler)(*this, e);
+            }
         }
         catch (const std::exception& e)
         {
diff --git a/lib/src/io/Channel.cpp b/lib/src/io/Channel.cpp
index b582bef..6c5bc8a 100644
--- a/lib/src/io/Channel.cpp
+++ b/lib/src/io/Channel.cpp
@@ -63,6 +63,11 @@ namespace dots::io
         asyncReceiveImpl();
     }
 
+    void Channel::cancelReceive() noexcept
+    {
+        m_asyncReceiving = false;
+    }
+
     void Channel::transmit(const type::Struct& instance)
     {
       transmit(DotsHeader{
@@ -118,16 +123,27 @@ namespace dots::io
         transmitImpl(transmission.header(), transmission.instance());
     }
 
+    bool Channel::asyncReceiving() const noexcept
+    {
+        return m_asyncReceiving;
+    }
+
     void Channel::processReceive(Transmission transmission) noexcept
     {
+        // ensure that the channel is alive until the receive was processed,
+        // because it might get released by the handler
+        std::shared_ptr<Channel> this_ = weak_from_this().lock();
+
         try
         {
+            if (!m_asyncReceiving)
+            {
+                return;
+            }
+
             importDependencies(transmission.instance());
 
-            // note: if the receive handler yields 'false', the channel must no
-            // longer be accessed afterwards, because it might have already been
-            // deleted by the callee prior to returning
-            if ((*m_receiveHandler)(std::move(transmission)))
+            if ((*m_receiveHandler)(std::move(transmission)) && m_asyncReceiving)
             {
                 asyncReceiveImpl();
             }
@@ -140,6 +156,13 @@ namespace dots::io
 
     void Channel::processError(std::exception_ptr ePtr)
     {
+        std::shared_ptr<Channel> this_ = weak_from_this().lock();
+
+        if (!m_asyncReceiving)
+        {
+            return;
+        }
+
         try
         {
             m_asyncReceiving = false;
diff --git a/lib/src/io/channels/WebSocketChannel.cpp b/lib/src/io/channels/WebSocketChannel.cpp
index 733056b..a828025 100644
--- a/lib/src/io/channels/WebSocketChannel.cpp
+++ b/lib/src/io/channels/WebSocketChannel.cpp
@@ -64,13 +64,16 @@ namespace dots::io
         m_buffer.consume(m_buffer.size());
         m_stream.async_read(m_buffer, [&, this_{ weak_from_this() }](std::error_code ec, size_t/* bytes*/)
         {
-            try
+            // ensure that the channel is alive until the handler returns
+            auto channel = this_.lock();
+
+            if (channel == nullptr || !asyncReceiving())
             {
-                if (this_.expired())
-                {
-                    return;
-                }
+                return;
+            }
 
+            try
+            {
                 verifyErrorCode(ec);
 
                 m_serializer.setInput(static_cast<const char*>(m_buffer.cdata().data()), m_buffer.size());
-- 
2.43.0


From 09ddda4eaaf4451b52c930917eba2c93107e9575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:08 +0000
Subject: [PATCH 37/72] fix: release closed connections after their handlers
 have returned

The connection of a guest was destroyed while it was still being used, for
example when publishing in a handler failed.
---
 lib/include/dots/GuestTransceiver.h |  3 ++-
 lib/src/GuestTransceiver.cpp        | 29 ++++++++++++++++++++---------
 lib/src/HostTransceiver.cpp         |  9 ++++++++-
 3 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/lib/include/dots/GuestTransceiver.h b/lib/include/dots/GuestTransceiver.h
index 8324d57..4a22175 100644
--- a/lib/include/dots/GuestTransceiver.h
+++ b/lib/include/dots/GuestTransceiver.h
@@ -262,8 +262,9 @@ namespace dots
 
         bool handleTransmission(Connection& connection, io::Transmission transmission);
         void handleTransitionImpl(Connection& connection, std::exception_ptr ePtr) noexcept override;
+        void releaseConnection();
 
-        std::unique_ptr<Connection> m_hostConnection;
+        connection_ptr_t m_hostConnection;
         type::DescriptorMap m_preloadPublishTypes;
         type::DescriptorMap m_preloadSubscribeTypes;
         std::set<std::string> m_joinedGroups;
diff --git a/lib/src/GuestTransceiver.cpp b/lib/src/GuestTransceiver.cpp
index 60c3690..106905b 100644
--- a/lib/src/GuestTransceiver.cpp
+++ b/lib/src/GuestTransceiver.cpp
@@ -1,6 +1,7 @@
 // SPDX-License-Identifier: LGPL-3.0-only
 // Copyright 2015-2022 Thomas Schaetzlein <thomas@pnxs.de>, Christopher Gerlach <gerlachch@gmx.com>
 #include <dots/GuestTransceiver.h>
+#include <dots/asio.h>
 #include <dots/tools/logging.h>
 #include <dots/serialization/AsciiSerialization.h>
 #include <DotsMember.dots.h>
@@ -45,7 +46,7 @@ namespace dots
         m_preloadPublishTypes = std::move(preloadPublishTypes);
         m_preloadSubscribeTypes = std::move(preloadSubscribeTypes);
 
-        m_hostConnection = std::make_unique<Connection>(std::move(channel), false, std::move(authSecret));
+        m_hostConnection = std::make_shared<Connection>(std::move(channel), false, std::move(authSecret));
         m_hostConnection->asyncReceive(registry(), nullptr, selfName(),
             { &GuestTransceiver::handleTransmission, this },
             { &GuestTransceiver::handleTransition, this }
@@ -86,13 +87,15 @@ namespace dots
             throw std::runtime_error{ "attempt to publish on closed connection" };
         }
 
+        connection_ptr_t hostConnection = m_hostConnection;
+
         try
         {
-            m_hostConnection->transmit(instance, includedProperties, remove);
+            hostConnection->transmit(instance, includedProperties, remove);
         }
         catch (...)
         {
-            m_hostConnection->handleError(std::current_exception());
+            hostConnection->handleError(std::current_exception());
         }
     }
 
@@ -120,10 +123,10 @@ namespace dots
         }
     }
 
-    bool GuestTransceiver::handleTransmission(Connection&/* connection*/, io::Transmission transmission)
+    bool GuestTransceiver::handleTransmission(Connection& connection, io::Transmission transmission)
     {
         dispatcher().dispatch(transmission);
-        return true;
+        return !connection.closed();
     }
 
     void GuestTransceiver::handleTransitionImpl(Connection& connection, std::exception_ptr/* e*/) noexcept
@@ -149,15 +152,23 @@ namespace dots
             }
             else if (connection.state() == DotsConnectionState::closed)
             {
-                if (m_hostConnection != nullptr)
-                {
-                    m_hostConnection = nullptr;
-                }
+                releaseConnection();
             }
         }
         catch (const std::exception& e)
         {
             LOG_ERROR_S("error while handling transition for connection " << connection.peerDescription() << " -> " << e.what());
+            releaseConnection();
+        }
+    }
+
+    void GuestTransceiver::releaseConnection()
+    {
+        // note: the connection must not be destroyed immediately, because it
+        // might currently be in use by a caller of this function
+        if (m_hostConnection != nullptr)
+        {
+            asio::post(ioContext(), [connection{ std::move(m_hostConnection) }]{});
             m_hostConnection = nullptr;
         }
     }
diff --git a/lib/src/HostTransceiver.cpp b/lib/src/HostTransceiver.cpp
index eabaf06..43d0c44 100644
--- a/lib/src/HostTransceiver.cpp
+++ b/lib/src/HostTransceiver.cpp
@@ -2,6 +2,7 @@
 // Copyright 2015-2022 Thomas Schaetzlein <thomas@pnxs.de>, Christopher Gerlach <gerlachch@gmx.com>
 #include <dots/HostTransceiver.h>
 #include <vector>
+#include <dots/asio.h>
 #include <dots/tools/logging.h>
 #include <DotsCacheInfo.dots.h>
 #include <DotsClient.dots.h>
@@ -241,7 +242,13 @@ namespace dots
                     });
                 });
 
-                m_guestConnections.erase(&connection);
+                // note: the connection must not be destroyed immediately, because
+                // it might currently be in use by a caller of this function
+                if (auto it = m_guestConnections.find(&connection); it != m_guestConnections.end())
+                {
+                    asio::post(ioContext(), [connectionPtr{ std::move(it->second) }]{});
+                    m_guestConnections.erase(it);
+                }
             }
         }
         catch (const std::exception& e)
-- 
2.43.0


From f6d8a6acea543ee2cdf7c77996c88183938caf94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:42 +0000
Subject: [PATCH 38/72] fix: process buffered transmissions without recursion

A burst of small transmissions that fit into a large read buffer was
processed recursively, which could exhaust the stack.
---
 .../dots/io/channels/AsyncStreamChannel.h     | 157 ++++++++++--------
 1 file changed, 86 insertions(+), 71 deletions(-)

diff --git a/lib/include/dots/io/channels/AsyncStreamChannel.h b/lib/include/dots/io/channels/AsyncStreamChannel.h
index 53bc695..4c07813 100644
--- a/lib/include/dots/io/channels/AsyncStreamChannel.h
+++ b/lib/include/dots/io/channels/AsyncStreamChannel.h
@@ -4,7 +4,9 @@
 #define DOTS_ACKNOWLEDGE_DEPRECATION_OF_DotsTransportHeader_destinationGroup
 #define DOTS_ACKNOWLEDGE_DEPRECATION_OF_DotsTransportHeader_nameSpace
 #define DOTS_ACKNOWLEDGE_DEPRECATION_OF_DotsTransportHeader_destinationClientId
+#include <algorithm>
 #include <optional>
+#include <utility>
 #include <dots/asio.h>
 #include <dots/type/Registry.h>
 #include <dots/io/Channel.h>
@@ -195,66 +197,12 @@ namespace dots::io
 
             auto this_ = shared_from_this();
 
-            if constexpr (TransmissionFormat == TransmissionFormat::v1)
+            // note: transmissions that are already available are processed in a
+            // loop instead of recursively, because their number is arbitrary
+            while (asyncReceiveNext())
             {
-                auto process_transmission = [this]
-                {
-                    Transmission transmission = deserializeTransmission();
-                    processReceive(std::move(transmission));
-                };
-
-                auto process_header = [this, process_transmission]
-                {
-                    if (size_t transmissionSize = deserializeTransmissionSize(); transmissionSize <= m_serializer.inputAvailable())
-                    {
-                        process_transmission();
-                    }
-                    else
-                    {
-                        asyncRead(transmissionSize, process_transmission);
-                    }
-                };
-
-                auto process_header_size = [this, process_header]
-                {
-                    if (size_t headerSize = deserializeHeaderSize(); headerSize <= m_serializer.inputAvailable())
-                    {
-                        process_header();
-                    }
-                    else
-                    {
-                        asyncRead(headerSize, [process_header]
-                        {
-                            process_header();
-                        });
-                    }
-                };
-
-                asyncRead(TransmissionSizeSize, process_header_size);
-            }
-            else
-            {
-                auto process_transmission = [this]
-                {
-                    Transmission transmission = deserializeTransmission();
-                    processReceive(std::move(transmission));
-                };
-
-                auto process_transmission_size = [this, process_transmission]
-                {
-                    if (size_t transmissionSize = deserializeTransmissionSize(); transmissionSize <= m_serializer.inputAvailable())
-                    {
-                        process_transmission();
-                    }
-                    else
-                    {
-                        asyncRead(transmissionSize, process_transmission);
-                    }
-                };
-
-                asyncRead(TransmissionSizeSize, process_transmission_size);
+                /* do nothing */
             }
-
         }
 
         /*!
@@ -315,6 +263,76 @@ namespace dots::io
 
         using iterator_t = typename buffer_t::iterator;
 
+        /*!
+         * @brief Asynchronously receive the next transmission.
+         *
+         * @return true If a transmission was processed before the function
+         * returned and the next one has to be received.
+         * @return false Else.
+         */
+        bool asyncReceiveNext()
+        {
+            if constexpr (TransmissionFormat == TransmissionFormat::v1)
+            {
+                auto process_transmission = [this]
+                {
+                    Transmission transmission = deserializeTransmission();
+                    processReceive(std::move(transmission));
+                };
+
+                auto process_header = [this, process_transmission]
+                {
+                    if (size_t transmissionSize = deserializeTransmissionSize(); transmissionSize <= m_serializer.inputAvailable())
+                    {
+                        process_transmission();
+                    }
+                    else
+                    {
+                        asyncRead(transmissionSize, process_transmission);
+                    }
+                };
+
+                auto process_header_size = [this, process_header]
+                {
+                    if (size_t headerSize = deserializeHeaderSize(); headerSize <= m_serializer.inputAvailable())
+                    {
+                        process_header();
+                    }
+                    else
+                    {
+                        asyncRead(headerSize, [process_header]
+                        {
+                            process_header();
+                        });
+                    }
+                };
+
+                return asyncRead(TransmissionSizeSize, process_header_size);
+            }
+            else
+            {
+                auto process_transmission = [this]
+                {
+                    Transmission transmission = deserializeTransmission();
+                    processReceive(std::move(transmission));
+                };
+
+                auto process_transmission_size = [this, process_transmission]
+                {
+                    if (size_t transmissionSize = deserializeTransmissionSize(); transmissionSize <= m_serializer.inputAvailable())
+                    {
+                        process_transmission();
+                    }
+                    else
+                    {
+                        asyncRead(transmissionSize, process_transmission);
+                    }
+                };
+
+                return asyncRead(TransmissionSizeSize, process_transmission_size);
+            }
+        }
+
         /*!
          * @brief Asynchronously read at least a specific amount of bytes.
          *
@@ -327,10 +345,6 @@ namespace dots::io
          * continuation of the call via asio::dispatch(), which may
          * invoke the @p handler synchronously before this function returns.
          *
-         * This process will be repeated until the read buffer has too little
-         * data available, in which case an asynchronous read will again be
-         * initiated on the underlying stream object.
-         *
          * @tparam Handler The type of the handler to invoke once the read has
          * been completed.
          *
@@ -338,9 +352,13 @@ namespace dots::io
          *
          * @param handler The handler to invoke once the read has been
          * completed.
+         *
+         * @return true If the handler was invoked before the function returned
+         * and requested to receive the next transmission.
+         * @return false Else.
          */
         template <typename Handler>
-        void asyncRead(size_t requiredBytes, Handler&& handler)
+        bool asyncRead(size_t requiredBytes, Handler&& handler)
         {
             if (requiredBytes <= m_serializer.inputAvailable())
             {
@@ -366,14 +384,9 @@ namespace dots::io
                     }
                 });
 
-                if (m_readDispatching)
-                {
-                    m_readDispatching = false;
-                }
-                else
-                {
-                    asyncReceiveImpl();
-                }
+                // note: the flag was already reset if the handler was invoked and
+                // the next transmission was requested
+                return !std::exchange(m_readDispatching, false) && asyncReceiving();
             }
             else
             {
@@ -416,6 +429,8 @@ namespace dots::io
                         processError(std::current_exception());
                     }
                 });
+
+                return false;
             }
         }
 
-- 
2.43.0


From f8b2c216f87a246cf86dd1044a3894c10f387334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:42 +0000
Subject: [PATCH 39/72] fix: grow the read buffer with the data that was
 received

The size that is announced by a peer was allocated up front, so a few
bytes could cause an allocation of up to 4 GB.
---
 lib/include/dots/io/channels/AsyncStreamChannel.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/include/dots/io/channels/AsyncStreamChannel.h b/lib/include/dots/io/channels/AsyncStreamChannel.h
index 4c07813..5a791ce 100644
--- a/lib/include/dots/io/channels/AsyncStreamChannel.h
+++ b/lib/include/dots/io/channels/AsyncStreamChannel.h
@@ -256,6 +256,7 @@ namespace dots::io
     private:
 
         static constexpr size_t ReadBufferMinSize = 16 * 128;
+        static constexpr size_t ReadBufferMaxGrowth = 1024 * 1024;
         static constexpr size_t WriteBufferMaxSize = 10 * 1024 * 1024;
 
         using transmission_size_t = std::conditional_t<TransmissionFormat == TransmissionFormat::v1, dots::uint16_t, dots::uint32_t>;
@@ -393,7 +394,7 @@ namespace dots::io
                 size_t availableBytes = m_serializer.inputAvailable();
 
                 std::copy(m_serializer.inputData(), m_serializer.inputDataEnd(), m_readBuffer.begin());
-                m_readBuffer.resize(std::max(ReadBufferMinSize, requiredBytes));
+                m_readBuffer.resize(std::max(ReadBufferMinSize, std::min(requiredBytes, availableBytes + ReadBufferMaxGrowth)));
                 m_serializer.setInput(m_readBuffer.data(), availableBytes);
 
                 uint8_t* readBufferBegin = m_readBuffer.data() + availableBytes;
-- 
2.43.0


From 612e12d160fd8b1ddd45969668f0b09259b9b963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:42 +0000
Subject: [PATCH 40/72] fix: do not read the header size from an unaligned
 address

---
 lib/include/dots/io/channels/AsyncStreamChannel.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/include/dots/io/channels/AsyncStreamChannel.h b/lib/include/dots/io/channels/AsyncStreamChannel.h
index 5a791ce..3e8c682 100644
--- a/lib/include/dots/io/channels/AsyncStreamChannel.h
+++ b/lib/include/dots/io/channels/AsyncStreamChannel.h
@@ -5,6 +5,7 @@
 #define DOTS_ACKNOWLEDGE_DEPRECATION_OF_DotsTransportHeader_nameSpace
 #define DOTS_ACKNOWLEDGE_DEPRECATION_OF_DotsTransportHeader_destinationClientId
 #include <algorithm>
+#include <cstring>
 #include <optional>
 #include <utility>
 #include <dots/asio.h>
@@ -490,7 +491,8 @@ namespace dots::io
         template <io::TransmissionFormat TransmissionFormat_ = TransmissionFormat, std::enable_if_t<TransmissionFormat_ == TransmissionFormat::v1, int> = 0>
         size_t deserializeHeaderSize()
         {
-            auto transmissionSize = reinterpret_cast<const transmission_size_t&>(* m_serializer.inputData());
+            transmission_size_t transmissionSize;
+            std::memcpy(&transmissionSize, m_serializer.inputData(), sizeof(transmissionSize));
             m_serializer.setInput(m_serializer.inputData() + TransmissionSizeSize, m_serializer.inputAvailable() - TransmissionSizeSize);
 
             return transmissionSize;
-- 
2.43.0


From 7fb9c06b2c8cc6f2fae510d5167b2aa10536294e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:42 +0000
Subject: [PATCH 41/72] fix: write to WebSockets without blocking

A peer that did not read its WebSocket blocked the event loop of the host
and thus every other connection.
---
 .../dots/io/channels/WebSocketChannel.h       |  9 ++++
 lib/src/io/channels/WebSocketChannel.cpp      | 50 ++++++++++++++++---
 2 files changed, 53 insertions(+), 6 deletions(-)

diff --git a/lib/include/dots/io/channels/WebSocketChannel.h b/lib/include/dots/io/channels/WebSocketChannel.h
index 1bb00bc..6ada457 100644
--- a/lib/include/dots/io/channels/WebSocketChannel.h
+++ b/lib/include/dots/io/channels/WebSocketChannel.h
@@ -1,6 +1,8 @@
 // SPDX-License-Identifier: LGPL-3.0-only
 // Copyright 2015-2022 Thomas Schaetzlein <thomas@pnxs.de>, Christopher Gerlach <gerlachch@gmx.com>
 #pragma once
+#include <deque>
+#include <string>
 #include <string_view>
 #include <dots/asio.h>
 #include <boost/beast.hpp>
@@ -31,8 +33,15 @@ namespace dots::io
 
     private:
 
+        static constexpr size_t WriteQueueMaxSize = 10 * 1024 * 1024;
+
+        void asyncWrite();
+
         ws_stream_t m_stream;
         boost::beast::flat_buffer m_buffer;
         serialization::JsonSerializer m_serializer;
+        std::deque<std::string> m_writeQueue;
+        size_t m_writeQueueSize = 0;
+        bool m_asyncWriting = false;
     };
 }
diff --git a/lib/src/io/channels/WebSocketChannel.cpp b/lib/src/io/channels/WebSocketChannel.cpp
index a828025..26b33f8 100644
--- a/lib/src/io/channels/WebSocketChannel.cpp
+++ b/lib/src/io/channels/WebSocketChannel.cpp
@@ -95,12 +95,50 @@ namespace dots::io
 
     void WebSocketChannel::transmitImpl(const DotsHeader& header, const type::Struct& instance)
     {
-        m_serializer.writer().writeArrayBegin();
-        m_serializer.serialize(header);
-        m_serializer.serialize(instance);
-        m_serializer.writer().writeArrayEnd();
+        if (m_writeQueueSize > WriteQueueMaxSize)
+        {
+            throw std::runtime_error{ "async write queue exceeded maximum size" };
+        }
+
+        serialization::JsonSerializer serializer{ { serialization::TextOptions::Minified } };
+        serializer.writer().writeArrayBegin();
+        serializer.serialize(header);
+        serializer.serialize(instance);
+        serializer.writer().writeArrayEnd();
+
+        m_writeQueueSize += serializer.output().size();
+        m_writeQueue.emplace_back(std::move(serializer.output()));
+
+        if (!m_asyncWriting)
+        {
+            asyncWrite();
+        }
+    }
+
+    void WebSocketChannel::asyncWrite()
+    {
+        m_asyncWriting = true;
+
+        m_stream.async_write(asio::buffer(m_writeQueue.front()), [this, this_{ shared_from_this() }](std::error_code ec, size_t/* bytes*/)
+        {
+            m_asyncWriting = false;
 
-        m_stream.write(asio::buffer(m_serializer.output()));
-        m_serializer.output().clear();
+            try
+            {
+                verifyErrorCode(ec);
+
+                m_writeQueueSize -= m_writeQueue.front().size();
+                m_writeQueue.pop_front();
+
+                if (!m_writeQueue.empty())
+                {
+                    asyncWrite();
+                }
+            }
+            catch (...)
+            {
+                processError(std::current_exception());
+            }
+        });
     }
 }
-- 
2.43.0


From 73d7bca140ffa796050dcf45cd77dfff6e42a583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:42 +0000
Subject: [PATCH 42/72] fix: only transmit the included properties via
 WebSocket

---
 lib/src/io/channels/WebSocketChannel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/io/channels/WebSocketChannel.cpp b/lib/src/io/channels/WebSocketChannel.cpp
index 26b33f8..9e57e28 100644
--- a/lib/src/io/channels/WebSocketChannel.cpp
+++ b/lib/src/io/channels/WebSocketChannel.cpp
@@ -103,7 +103,7 @@ namespace dots::io
         serialization::JsonSerializer serializer{ { serialization::TextOptions::Minified } };
         serializer.writer().writeArrayBegin();
         serializer.serialize(header);
-        serializer.serialize(instance);
+        serializer.serialize(instance, *header.attributes);
         serializer.writer().writeArrayEnd();
 
         m_writeQueueSize += serializer.output().size();
-- 
2.43.0


From 71424124c8b1abfccd21a4761d583425eb6e1939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:42 +0000
Subject: [PATCH 43/72] fix: construct the host of the WebSocket handshake

The view of the host name was treated as a null-terminated string.
---
 lib/src/io/channels/WebSocketChannel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/io/channels/WebSocketChannel.cpp b/lib/src/io/channels/WebSocketChannel.cpp
index 9e57e28..e4dafcb 100644
--- a/lib/src/io/channels/WebSocketChannel.cpp
+++ b/lib/src/io/channels/WebSocketChannel.cpp
@@ -33,7 +33,7 @@ namespace dots::io
             }));
 
             boost::beast::websocket::response_type res;
-            m_stream.handshake(res, host.data(), "/");
+            m_stream.handshake(res, std::string{ host } + ":" + std::string{ port }, "/");
 
             if (auto it = res.find(boost::beast::http::field::sec_websocket_protocol); it == res.end())
             {
-- 
2.43.0


From 59db6ae928bbb71eba01d0c115c88258d3ae0aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:58 +0000
Subject: [PATCH 44/72] fix: sanitize the headers that are received from guests

Missing or incomplete attributes caused errors on the connections of other
guests and a given number of remaining cache objects was relayed to
them.
---
 lib/src/Connection.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/src/Connection.cpp b/lib/src/Connection.cpp
index f06ec3d..b124818 100644
--- a/lib/src/Connection.cpp
+++ b/lib/src/Connection.cpp
@@ -279,6 +279,17 @@ namespace dots
                         header.sentTime = header.serverSentTime;
                     }
 
+                    // note: the remaining attributes are relayed to other guests and
+                    // must therefore be independent of the header's validity
+                    if (!header.attributes.isValid())
+                    {
+                        header.attributes = instance._validProperties();
+                    }
+
+                    *header.attributes += instance._keyProperties();
+                    *header.attributes ^= instance._properties();
+                    header.fromCache.reset();
+
                     header.isFromMyself = header.sender == m_selfId;
                     return (*m_receiveHandler)(*this, std::move(transmission));
                 }
-- 
2.43.0


From 9c73e93755bac29329646833d3b34079bdb136ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:58 +0000
Subject: [PATCH 45/72] fix: respect the rejection of a connection by the host

A guest whose connect request was rejected considered itself to be
connected.
---
 lib/src/Connection.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/src/Connection.cpp b/lib/src/Connection.cpp
index b124818..78c7091 100644
--- a/lib/src/Connection.cpp
+++ b/lib/src/Connection.cpp
@@ -355,6 +355,11 @@ namespace dots
 
     void Connection::handleAuthorizationRequest(const DotsMsgConnectResponse& connectResponse)
     {
+        if (connectResponse.accepted == false)
+        {
+            throw std::runtime_error{ "connection was rejected by host" };
+        }
+
         m_selfId = *connectResponse.clientId;
 
         if (connectResponse.preload == true)
-- 
2.43.0


From c0c10e7371938eabeffd6281d7df495a465bf199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:58 +0000
Subject: [PATCH 46/72] fix: forget the joined groups of a closed connection

After opening a new connection, types that had been subscribed during the
previous one were not subscribed anymore.
---
 lib/src/GuestTransceiver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/GuestTransceiver.cpp b/lib/src/GuestTransceiver.cpp
index 106905b..e812a2b 100644
--- a/lib/src/GuestTransceiver.cpp
+++ b/lib/src/GuestTransceiver.cpp
@@ -170,6 +170,7 @@ namespace dots
         {
             asio::post(ioContext(), [connection{ std::move(m_hostConnection) }]{});
             m_hostConnection = nullptr;
+            m_joinedGroups.clear();
         }
     }
 }
-- 
2.43.0


From 0b44569af29b409328088ae6c852722b00110f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:02 +0000
Subject: [PATCH 47/72] fix: describe the types of forwarded transmissions

The channel only exported the types that are described by a forwarded
descriptor, but not the type of a forwarded object, so that a peer that
had joined a type without describing it received objects it could not
decode.
---
 lib/src/io/Channel.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/io/Channel.cpp b/lib/src/io/Channel.cpp
index 6c5bc8a..ad22472 100644
--- a/lib/src/io/Channel.cpp
+++ b/lib/src/io/Channel.cpp
@@ -87,6 +87,7 @@ namespace dots::io
     {
         assert(m_initialized);
         exportDependencies(transmission.instance());
+        exportDependencies(transmission.instance()->_descriptor());
         transmitImpl(transmission);
     }
 
-- 
2.43.0


From 316f4323acf07af211b1ed57dee1b3fcdcb548f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:41 +0000
Subject: [PATCH 48/72] fix: describe-able types with lists of compiled types,
 invalid tags or no properties corrupted memory

---
 lib/src/io/DescriptorConverter.cpp | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/lib/src/io/DescriptorConverter.cpp b/lib/src/io/DescriptorConverter.cpp
index 1687fd0..840df81 100644
--- a/lib/src/io/DescriptorConverter.cpp
+++ b/lib/src/io/DescriptorConverter.cpp
@@ -52,6 +52,7 @@ namespace dots::io
         }
 
         const type::PropertyDescriptor* last = nullptr;
+        uint32_t tags = 0;
 
         for (const StructPropertyData& propertyData : *structData.properties)
         {
@@ -60,7 +61,7 @@ namespace dots::io
             if (descriptor == nullptr)
             {
                 const std::string& typeName = *propertyData.type;
-                if (typeName.find("vector<") == std::string::npos)
+                if (typeName.size() < 8 || typeName.compare(0, 7, "vector<") != 0 || typeName.back() != '>')
                 {
                     throw std::logic_error{ "missing type dependency: " + typeName };
                 }
@@ -75,15 +76,23 @@ namespace dots::io
 
                 if (valueTypeDescriptor->type() == type::Type::Enum)
                 {
-                    auto& enumDescriptor = static_cast<type::Descriptor<type::DynamicEnum>&>(*valueTypeDescriptor);
-                    descriptor = &m_registry.get().registerType<type::Descriptor<vector_t<type::DynamicEnum>>>(enumDescriptor);
+                    if (auto* dynEnumDescriptor = valueTypeDescriptor->as<type::Descriptor<type::DynamicEnum>>(); dynEnumDescriptor == nullptr)
+                    {
+                        const auto& staticEnumDescriptor = valueTypeDescriptor->to<type::EnumDescriptor>();
+                        auto dynEnumDescriptor_ = type::make_descriptor<type::Descriptor<type::DynamicEnum>>(staticEnumDescriptor.name(), staticEnumDescriptor.enumeratorsTypeless());
+                        descriptor = &m_registry.get().registerType<type::Descriptor<vector_t<type::DynamicEnum>>>(*dynEnumDescriptor_);
+                    }
+                    else
+                    {
+                        descriptor = &m_registry.get().registerType<type::Descriptor<vector_t<type::DynamicEnum>>>(*dynEnumDescriptor);
+                    }
                 }
                 else if (valueTypeDescriptor->type() == type::Type::Struct)
                 {
                     if (auto* dynStructDescriptor = valueTypeDescriptor->as<type::Descriptor<type::DynamicStruct>>(); dynStructDescriptor == nullptr)
                     {
                         const auto& staticStructDescriptor = valueTypeDescriptor->to<type::StructDescriptor>();
-                        auto dynStructDescriptor_ = type::make_descriptor<type::Descriptor<type::DynamicStruct>>(staticStructDescriptor.name(), staticStructDescriptor.flags(), staticStructDescriptor.propertyDescriptors(), staticStructDescriptor.size());
+                        auto dynStructDescriptor_ = type::make_descriptor<type::Descriptor<type::DynamicStruct>>(staticStructDescriptor.name(), staticStructDescriptor.flags(), staticStructDescriptor.propertyDescriptors(), sizeof(type::DynamicStruct) + staticStructDescriptor.size() - staticStructDescriptor.areaOffset());
                         descriptor = &m_registry.get().registerType<type::Descriptor<vector_t<type::DynamicStruct>>>(*dynStructDescriptor_, false);
                     }
                     else
@@ -97,6 +106,15 @@ namespace dots::io
                 }
             }
 
+            if (const uint32_t tag = *propertyData.tag; tag >= 8 * sizeof(tags) || (tags & (uint32_t{ 1 } << tag)) != 0)
+            {
+                throw std::logic_error{ "invalid or duplicate tag " + std::to_string(tag) + " of property: " + *structData.name + "." + *propertyData.name };
+            }
+            else
+            {
+                tags |= uint32_t{ 1 } << tag;
+            }
+
             if (last == nullptr)
             {
                 last = &propertyDescriptors.emplace_back(*descriptor, *propertyData.name, *propertyData.tag, *propertyData.isKey, type::PropertyOffset::First(descriptor->alignment(), sizeof(type::PropertyArea)));
@@ -109,7 +127,7 @@ namespace dots::io
             alignment = std::max(last->valueDescriptor().alignment(), alignment);
         }
 
-        size_t size = type::PropertyOffset::Next(alignment, last->offset(), last->valueDescriptor().size());
+        size_t size = last == nullptr ? sizeof(type::PropertyArea) : static_cast<size_t>(type::PropertyOffset::Next(alignment, last->offset(), last->valueDescriptor().size()));
 
         return m_registry.get().registerType<type::Descriptor<type::DynamicStruct>>(*structData.name, flags, propertyDescriptors, sizeof(type::DynamicStruct) + size);
     }
-- 
2.43.0


From 5232c21bd194aca8ccc2a0c4ebfc47385854b5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:41 +0000
Subject: [PATCH 49/72] fix: strings that are not UTF-8 closed the WebSocket
 connections of their receivers

---
 lib/src/io/channels/WebSocketChannel.cpp | 75 +++++++++++++++++++++++-
 1 file changed, 73 insertions(+), 2 deletions(-)

diff --git a/lib/src/io/channels/WebSocketChannel.cpp b/lib/src/io/channels/WebSocketChannel.cpp
index e4dafcb..b7e69fe 100644
--- a/lib/src/io/channels/WebSocketChannel.cpp
+++ b/lib/src/io/channels/WebSocketChannel.cpp
@@ -4,6 +4,78 @@
 #include <dots/io/Io.h>
 #include <dots/type/Registry.h>
 
+namespace
+{
+    // note: the payload of a WebSocket text message must be valid UTF-8, but the
+    // strings of instances can contain arbitrary bytes
+    std::string replace_invalid_utf8(std::string text)
+    {
+        auto sequence_length = [&text](size_t pos) -> size_t
+        {
+            auto byte = [&text](size_t i) { return i < text.size() ? static_cast<unsigned char>(text[i]) : 0u; };
+            auto is_continuation = [&byte](size_t i) { return (byte(i) & 0xC0u) == 0x80u; };
+
+            unsigned first = byte(pos);
+            unsigned second = byte(pos + 1);
+
+            if (first < 0x80u)
+            {
+                return 1;
+            }
+            else if (first >= 0xC2u && first <= 0xDFu)
+            {
+                return is_continuation(pos + 1) ? 2 : 0;
+            }
+            else if (first >= 0xE0u && first <= 0xEFu)
+            {
+                bool isOverlong = first == 0xE0u && second < 0xA0u;
+                bool isSurrogate = first == 0xEDu && second > 0x9Fu;
+                return is_continuation(pos + 1) && is_continuation(pos + 2) && !isOverlong && !isSurrogate ? 3 : 0;
+            }
+            else if (first >= 0xF0u && first <= 0xF4u)
+            {
+                bool isOverlong = first == 0xF0u && second < 0x90u;
+                bool isTooLarge = first == 0xF4u && second > 0x8Fu;
+                return is_continuation(pos + 1) && is_continuation(pos + 2) && is_continuation(pos + 3) && !isOverlong && !isTooLarge ? 4 : 0;
+            }
+            else
+            {
+                return 0;
+            }
+        };
+
+        size_t pos = 0;
+
+        for (size_t length; pos < text.size() && (length = sequence_length(pos)) > 0; pos += length)
+        {
+            /* do nothing */
+        }
+
+        if (pos == text.size())
+        {
+            return text;
+        }
+
+        std::string result = text.substr(0, pos);
+
+        while (pos < text.size())
+        {
+            if (size_t length = sequence_length(pos); length > 0)
+            {
+                result.append(text, pos, length);
+                pos += length;
+            }
+            else
+            {
+                result += "\xEF\xBF\xBD";
+                ++pos;
+            }
+        }
+
+        return result;
+    }
+}
+
 namespace dots::io
 {
     WebSocketChannel::WebSocketChannel(key_t key, asio::io_context& ioContext, const Endpoint& endpoint) :
@@ -106,8 +178,7 @@ namespace dots::io
         serializer.serialize(instance, *header.attributes);
         serializer.writer().writeArrayEnd();
 
-        m_writeQueueSize += serializer.output().size();
-        m_writeQueue.emplace_back(std::move(serializer.output()));
+        m_writeQueueSize += m_writeQueue.emplace_back(replace_invalid_utf8(std::move(serializer.output()))).size();
 
         if (!m_asyncWriting)
         {
-- 
2.43.0


From 4215125121ef0a5b70787000670ee4a84f5d2fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:41 +0000
Subject: [PATCH 50/72] fix: a temporary lack of file descriptors removed a
 listener for good

---
 lib/include/dots/io/Listener.h            | 17 +++++++++++++
 lib/src/io/Listener.cpp                   | 29 +++++++++++++++++++++++
 lib/src/io/channels/TcpListener.cpp       |  5 ++++
 lib/src/io/channels/UdsListener.cpp       |  5 ++++
 lib/src/io/channels/WebSocketListener.cpp |  5 ++++
 5 files changed, 61 insertions(+)

diff --git a/lib/include/dots/io/Listener.h b/lib/include/dots/io/Listener.h
index a3e4f6d..effab42 100644
--- a/lib/include/dots/io/Listener.h
+++ b/lib/include/dots/io/Listener.h
@@ -3,6 +3,7 @@
 #pragma once
 #include <memory>
 #include <optional>
+#include <dots/asio_forward.h>
 #include <dots/tools/Handler.h>
 #include <dots/io/Channel.h>
 
@@ -58,6 +59,22 @@ namespace dots::io
          * @param what The description of the failure.
          */
         void processAcceptFailure(const std::string& what);
+
+        /*!
+         * @brief Continue accepting later after a temporary error.
+         *
+         * Errors that are caused by a lack of system resources (e.g. file
+         * descriptors) do not affect the listener itself. In such a case, the
+         * next accept will be started after a short amount of time.
+         *
+         * @param context The execution context of the acceptor.
+         *
+         * @param error The error to evaluate.
+         *
+         * @return true If the error is temporary.
+         * @return false If the listener can no longer be used.
+         */
+        bool retryAccept(asio::execution_context& context, std::error_code error);
         void processError(std::exception_ptr ePtr);
         void processError(const std::string& what);
         void verifyErrorCode(std::error_code errorCode);
diff --git a/lib/src/io/Listener.cpp b/lib/src/io/Listener.cpp
index 9412d87..0871053 100644
--- a/lib/src/io/Listener.cpp
+++ b/lib/src/io/Listener.cpp
@@ -1,6 +1,8 @@
 // SPDX-License-Identifier: LGPL-3.0-only
 // Copyright 2015-2022 Thomas Schaetzlein <thomas@pnxs.de>, Christopher Gerlach <gerlachch@gmx.com>
 #include <dots/io/Listener.h>
+#include <chrono>
+#include <dots/asio.h>
 #include <dots/tools/logging.h>
 
 namespace dots::io
@@ -34,6 +36,33 @@ namespace dots::io
         asyncAcceptImpl();
     }
 
+    bool Listener::retryAccept(asio::execution_context& context, std::error_code error)
+    {
+        bool isTemporary =
+            error == std::errc::too_many_files_open ||
+            error == std::errc::too_many_files_open_in_system ||
+            error == std::errc::no_buffer_space ||
+            error == std::errc::not_enough_memory;
+
+        if (!isTemporary)
+        {
+            return false;
+        }
+
+        LOG_WARN_S("failed to accept incoming connection -> " << error.message());
+
+        auto timer = std::make_shared<asio::steady_timer>(static_cast<asio::io_context&>(context), std::chrono::milliseconds{ 100 });
+        timer->async_wait([this, lifetime{ lifetime() }, timer](const boost::system::error_code& timerError)
+        {
+            if (!timerError && !lifetime.expired() && m_asyncAcceptActive)
+            {
+                asyncAcceptImpl();
+            }
+        });
+
+        return true;
+    }
+
     void Listener::processAccept(channel_ptr_t channel)
     {
         bool continueAccept = true;
diff --git a/lib/src/io/channels/TcpListener.cpp b/lib/src/io/channels/TcpListener.cpp
index 79cdf45..23bdab7 100644
--- a/lib/src/io/channels/TcpListener.cpp
+++ b/lib/src/io/channels/TcpListener.cpp
@@ -53,6 +53,11 @@ namespace dots::io::details
                 return;
             }
 
+            if (error && retryAccept(m_acceptor.get_executor().context(), error))
+            {
+                return;
+            }
+
             if (error)
             {
                 processError(std::make_exception_ptr(std::runtime_error{ "failed listening on TCP endpoint at address '" + m_address + ":" + m_port + "' -> " + error.message() }));
diff --git a/lib/src/io/channels/UdsListener.cpp b/lib/src/io/channels/UdsListener.cpp
index 4eefd9b..98ddfe2 100644
--- a/lib/src/io/channels/UdsListener.cpp
+++ b/lib/src/io/channels/UdsListener.cpp
@@ -57,6 +57,11 @@ namespace dots::io::posix::details
                 return;
             }
 
+            if (error && retryAccept(m_acceptor.get_executor().context(), error))
+            {
+                return;
+            }
+
             if (error)
             {
                 processError(std::make_exception_ptr(std::runtime_error{ "failed listening on UDS endpoint at path '" + m_endpoint.path() + "' -> " + error.message() }));
diff --git a/lib/src/io/channels/WebSocketListener.cpp b/lib/src/io/channels/WebSocketListener.cpp
index 206ae85..81b2345 100644
--- a/lib/src/io/channels/WebSocketListener.cpp
+++ b/lib/src/io/channels/WebSocketListener.cpp
@@ -64,6 +64,11 @@ namespace dots::io
                 return;
             }
 
+            if (error && retryAccept(m_acceptor.get_executor().context(), error))
+            {
+                return;
+            }
+
             if (error)
             {
                 processError(std::make_exception_ptr(std::runtime_error{ "failed listening on WebSocket endpoint at address '" + m_address + ":" + m_port + "' -> " + error.message() }));
-- 
2.43.0


From 4e997105cc1f35e3a36fe7afd15ee010976d9cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:58 +0000
Subject: [PATCH 51/72] fix: a host accepted objects of substruct-only types
 from its guests

---
 lib/src/Connection.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/src/Connection.cpp b/lib/src/Connection.cpp
index 78c7091..c5cea86 100644
--- a/lib/src/Connection.cpp
+++ b/lib/src/Connection.cpp
@@ -270,6 +270,11 @@ namespace dots
 
                 if (m_selfId == HostId)
                 {
+                    if (instance._descriptor().substructOnly())
+                    {
+                        throw std::logic_error{ "received instance of substruct-only type '" + instance._descriptor().name() + "'" };
+                    }
+
                     header.sender = m_peerId;
 
                     header.serverSentTime = timepoint_t::Now();
-- 
2.43.0


From 78ad8e4e627d9ab5143071e52abb775e1e87aa28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:04 +0000
Subject: [PATCH 52/72] fix: limit the write buffer of channels for cached
 payloads

The maximum size was only verified when a transmission was serialized,
but not when its payload was taken from the payload cache. A host could
therefore buffer an unlimited amount of data for a guest that does not
read, as long as another guest received the same transmissions first.
---
 .../dots/io/channels/AsyncStreamChannel.h     | 21 +++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/lib/include/dots/io/channels/AsyncStreamChannel.h b/lib/include/dots/io/channels/AsyncStreamChannel.h
index 3e8c682..6ff229d 100644
--- a/lib/include/dots/io/channels/AsyncStreamChannel.h
+++ b/lib/include/dots/io/channels/AsyncStreamChannel.h
@@ -556,6 +556,21 @@ namespace dots::io
             }
         }
 
+        /*!
+         * @brief Verify that the write buffer does not exceed its maximum
+         * size.
+         *
+         * @exception std::runtime_error Thrown if the buffer contains more
+         * outstanding data than allowed.
+         */
+        void verifyWriteBufferSize()
+        {
+            if (m_serializer.output().size() > WriteBufferMaxSize)
+            {
+                throw std::runtime_error{ "async write buffer exceeded maximum size" };
+            }
+        }
+
         /*!
          * @brief Serialize a transmission into the current write buffer.
          *
@@ -573,10 +588,7 @@ namespace dots::io
          */
         iterator_t serializeTransmission(const DotsHeader& header, const type::Struct& instance)
         {
-            if (m_serializer.output().size() > WriteBufferMaxSize)
-            {
-                throw std::runtime_error{ "async write buffer exceeded maximum size" };
-            }
+            verifyWriteBufferSize();
 
             if constexpr (TransmissionFormat == TransmissionFormat::v1)
             {
@@ -684,6 +696,7 @@ namespace dots::io
 
                 if (transmission.id() == cacheId)
                 {
+                    verifyWriteBufferSize();
                     writeBuffer.insert(writeBuffer.end(), cacheBuffer.begin(), cacheBuffer.end());
                 }
                 else
-- 
2.43.0


From 2d59104806b67897d2dfae2edcf86a11df6091fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:32 +0000
Subject: [PATCH 53/72] fix: moved transceivers were left with handlers of the
 moved-from object

---
 lib/include/dots/GuestTransceiver.h    |  3 +-
 lib/include/dots/HostTransceiver.h     |  3 +-
 lib/include/dots/Transceiver.h         | 23 +++++++---
 lib/include/dots/io/auth/AuthManager.h |  4 +-
 lib/src/GuestTransceiver.cpp           | 41 ++++++++++++++++--
 lib/src/HostTransceiver.cpp            | 60 +++++++++++++++++++++++---
 lib/src/Transceiver.cpp                | 60 +++++++++++++++++++-------
 lib/src/io/auth/AuthManager.cpp        |  7 +--
 8 files changed, 163 insertions(+), 38 deletions(-)

diff --git a/lib/include/dots/GuestTransceiver.h b/lib/include/dots/GuestTransceiver.h
index 4a22175..bed66c1 100644
--- a/lib/include/dots/GuestTransceiver.h
+++ b/lib/include/dots/GuestTransceiver.h
@@ -67,7 +67,7 @@ namespace dots
         ~GuestTransceiver() override;
 
         GuestTransceiver& operator = (const GuestTransceiver& rhs) = delete;
-        GuestTransceiver& operator = (GuestTransceiver&& rhs) = default;
+        GuestTransceiver& operator = (GuestTransceiver&& rhs) noexcept;
 
         /*!
          * @brief Indicates whether the host connection is in the 'connected'
@@ -260,6 +260,7 @@ namespace dots
         void joinGroup(std::string_view name) override;
         void leaveGroup(std::string_view name) override;
 
+        void closeConnection() noexcept;
         bool handleTransmission(Connection& connection, io::Transmission transmission);
         void handleTransitionImpl(Connection& connection, std::exception_ptr ePtr) noexcept override;
         void releaseConnection();
diff --git a/lib/include/dots/HostTransceiver.h b/lib/include/dots/HostTransceiver.h
index 4065223..9b0f3b8 100644
--- a/lib/include/dots/HostTransceiver.h
+++ b/lib/include/dots/HostTransceiver.h
@@ -72,7 +72,7 @@ namespace dots
         ~HostTransceiver() override;
 
         HostTransceiver& operator = (const HostTransceiver& rhs) = delete;
-        HostTransceiver& operator = (HostTransceiver&& rhs) = default;
+        HostTransceiver& operator = (HostTransceiver&& rhs) noexcept;
 
         /*!
          * @brief Asynchronously accept incoming connections on a specific
@@ -190,6 +190,7 @@ namespace dots
         void distributeRemovals(const std::function<bool(const Container<>&, const Container<>::value_t&)>& predicate);
         void transmit(const io::Transmission& transmission);
 
+        void closeConnections() noexcept;
         bool handleListenAccept(io::Listener& listener, io::channel_ptr_t channel);
         void handleListenError(io::Listener& listener, std::exception_ptr ePtr);
 
diff --git a/lib/include/dots/Transceiver.h b/lib/include/dots/Transceiver.h
index a7d010f..8fe4eea 100644
--- a/lib/include/dots/Transceiver.h
+++ b/lib/include/dots/Transceiver.h
@@ -4,6 +4,7 @@
 #include <string_view>
 #include <optional>
 #include <functional>
+#include <memory>
 #include <deque>
 #include <dots/asio_forward.h>
 #include <dots/Connection.h>
@@ -59,7 +60,7 @@ namespace dots
         );
         Transceiver(const Transceiver& other) = delete;
         Transceiver(Transceiver&& other) noexcept;
-        virtual ~Transceiver() = default;
+        virtual ~Transceiver();
 
         Transceiver& operator = (const Transceiver& rhs) = delete;
         Transceiver& operator = (Transceiver&& rhs) noexcept;
@@ -238,7 +239,7 @@ namespace dots
                 Dispatcher::id_t id{};
                 processNow([&]{ id = m_dispatcher.addEventHandler(std::move(handler)); });
 
-                return makeSubscription([&, id]{ m_dispatcher.removeEventHandler(T::_Descriptor(), id); });
+                return makeSubscription([id](Transceiver& self){ self.m_dispatcher.removeEventHandler(T::_Descriptor(), id); });
             }
             else
             {
@@ -555,6 +556,14 @@ namespace dots
     protected:
 
         Dispatcher& dispatcher();
+
+        /*!
+         * @brief Get a weak reference to the transceiver that stays valid when
+         * the transceiver is moved and expires when it is destroyed.
+         *
+         * @return std::weak_ptr<Transceiver*> The weak reference.
+         */
+        std::weak_ptr<Transceiver*> self() const;
         void handleTransition(Connection& connection, std::exception_ptr ePtr) noexcept;
 
         using operation_t = std::function<void()>;
@@ -588,6 +597,8 @@ namespace dots
 
     private:
 
+        friend struct io::AuthManager;
+
         using id_t = uint64_t;
         using new_type_handlers_t = std::map<id_t, new_type_handler_t<>, std::greater<>>;
 
@@ -605,7 +616,7 @@ namespace dots
         std::optional<id_t> m_currentlyDispatchingId;
         std::vector<id_t> m_removeIds;
         std::shared_ptr<Transceiver*> m_this;
-        type::Registry m_registry;
+        std::unique_ptr<type::Registry> m_registry;
         Dispatcher m_dispatcher;
         std::string m_selfName;
         std::reference_wrapper<asio::io_context> m_ioContext;
@@ -618,11 +629,11 @@ namespace dots
     template <typename UnsubscribeHandler>
     Subscription Transceiver::makeSubscription(UnsubscribeHandler&& unsubscribeHandler)
     {
-        return Subscription{ [this_ = std::weak_ptr<Transceiver*>{ m_this }, unsubscribeHandler{ std::forward<UnsubscribeHandler>(unsubscribeHandler) }]
+        return Subscription{ [this_{ self() }, unsubscribeHandler{ std::forward<UnsubscribeHandler>(unsubscribeHandler) }]
         {
-            if (this_.lock())
+            if (auto self = this_.lock(); self != nullptr)
             {
-                unsubscribeHandler();
+                unsubscribeHandler(**self);
             }
         } };
     }
diff --git a/lib/include/dots/io/auth/AuthManager.h b/lib/include/dots/io/auth/AuthManager.h
index a115292..86f60cb 100644
--- a/lib/include/dots/io/auth/AuthManager.h
+++ b/lib/include/dots/io/auth/AuthManager.h
@@ -1,6 +1,7 @@
 // SPDX-License-Identifier: LGPL-3.0-only
 // Copyright 2015-2022 Thomas Schaetzlein <thomas@pnxs.de>, Christopher Gerlach <gerlachch@gmx.com>
 #pragma once
+#include <memory>
 #include <string_view>
 #include <optional>
 #include <dots/io/Endpoint.h>
@@ -8,6 +9,7 @@
 
 namespace dots
 {
+    struct Transceiver;
     struct HostTransceiver;
 }
 
@@ -34,6 +36,6 @@ namespace dots::io
 
     private:
 
-        HostTransceiver* m_transceiver;
+        std::weak_ptr<Transceiver*> m_transceiver;
     };
 }
diff --git a/lib/src/GuestTransceiver.cpp b/lib/src/GuestTransceiver.cpp
index e812a2b..8fba9ce 100644
--- a/lib/src/GuestTransceiver.cpp
+++ b/lib/src/GuestTransceiver.cpp
@@ -20,10 +20,25 @@ namespace dots
 
     GuestTransceiver::~GuestTransceiver()
     {
-        if (m_hostConnection != nullptr)
+        closeConnection();
+    }
+
+    GuestTransceiver& GuestTransceiver::operator = (GuestTransceiver&& rhs) noexcept
+    {
+        if (this == &rhs)
         {
-            auto hostConnection = std::move(m_hostConnection);
+            return *this;
         }
+
+        closeConnection();
+
+        Transceiver::operator=(std::move(rhs));
+        m_hostConnection = std::move(rhs.m_hostConnection);
+        m_preloadPublishTypes = std::move(rhs.m_preloadPublishTypes);
+        m_preloadSubscribeTypes = std::move(rhs.m_preloadSubscribeTypes);
+        m_joinedGroups = std::move(rhs.m_joinedGroups);
+
+        return *this;
     }
 
     bool GuestTransceiver::connected() const
@@ -48,8 +63,18 @@ namespace dots
 
         m_hostConnection = std::make_shared<Connection>(std::move(channel), false, std::move(authSecret));
         m_hostConnection->asyncReceive(registry(), nullptr, selfName(),
-            { &GuestTransceiver::handleTransmission, this },
-            { &GuestTransceiver::handleTransition, this }
+            [this_{ self() }](Connection& connection, io::Transmission transmission)
+            {
+                auto self = this_.lock();
+                return self != nullptr && static_cast<GuestTransceiver&>(**self).handleTransmission(connection, std::move(transmission));
+            },
+            [this_{ self() }](Connection& connection, std::exception_ptr ePtr)
+            {
+                if (auto self = this_.lock(); self != nullptr)
+                {
+                    static_cast<GuestTransceiver&>(**self).handleTransition(connection, ePtr);
+                }
+            }
         );
 
         return *m_hostConnection;
@@ -123,6 +148,14 @@ namespace dots
         }
     }
 
+    void GuestTransceiver::closeConnection() noexcept
+    {
+        if (m_hostConnection != nullptr)
+        {
+            auto hostConnection = std::move(m_hostConnection);
+        }
+    }
+
     bool GuestTransceiver::handleTransmission(Connection& connection, io::Transmission transmission)
     {
         dispatcher().dispatch(transmission);
diff --git a/lib/src/HostTransceiver.cpp b/lib/src/HostTransceiver.cpp
index 43d0c44..0544807 100644
--- a/lib/src/HostTransceiver.cpp
+++ b/lib/src/HostTransceiver.cpp
@@ -20,9 +20,27 @@ namespace dots
 
     HostTransceiver::~HostTransceiver()
     {
-        m_groups.clear();
-        connection_map_t guestConnections = std::move(m_guestConnections);
-        guestConnections.clear();
+        closeConnections();
+    }
+
+    HostTransceiver& HostTransceiver::operator = (HostTransceiver&& rhs) noexcept
+    {
+        if (this == &rhs)
+        {
+            return *this;
+        }
+
+        m_listeners.clear();
+        closeConnections();
+        m_authManager.reset();
+
+        Transceiver::operator=(std::move(rhs));
+        m_listeners = std::move(rhs.m_listeners);
+        m_guestConnections = std::move(rhs.m_guestConnections);
+        m_groups = std::move(rhs.m_groups);
+        m_authManager = std::move(rhs.m_authManager);
+
+        return *this;
     }
 
     io::Listener& HostTransceiver::listen(io::listener_ptr_t&& listener)
@@ -31,8 +49,18 @@ namespace dots
         m_listeners.emplace(listenerPtr, std::move(listener));
 
         listenerPtr->asyncAccept(
-            { &HostTransceiver::handleListenAccept, this },
-            { &HostTransceiver::handleListenError, this }
+            [this_{ self() }](io::Listener& listener, io::channel_ptr_t channel)
+            {
+                auto self = this_.lock();
+                return self != nullptr && static_cast<HostTransceiver&>(**self).handleListenAccept(listener, std::move(channel));
+            },
+            [this_{ self() }](io::Listener& listener, std::exception_ptr ePtr)
+            {
+                if (auto self = this_.lock(); self != nullptr)
+                {
+                    static_cast<HostTransceiver&>(**self).handleListenError(listener, ePtr);
+                }
+            }
         );
 
         return *listenerPtr;
@@ -152,12 +180,30 @@ namespace dots
         }
     }
 
+    void HostTransceiver::closeConnections() noexcept
+    {
+        m_groups.clear();
+        connection_map_t guestConnections = std::move(m_guestConnections);
+        m_guestConnections.clear();
+        guestConnections.clear();
+    }
+
     bool HostTransceiver::handleListenAccept(io::Listener&/* listener*/, io::channel_ptr_t channel)
     {
         auto connection = std::make_shared<Connection>(std::move(channel), true);
         connection->asyncReceive(registry(), m_authManager.get(), selfName(),
-            { &HostTransceiver::handleTransmission, this },
-            { &HostTransceiver::handleTransition, this }
+            [this_{ self() }](Connection& connection, io::Transmission transmission)
+            {
+                auto self = this_.lock();
+                return self != nullptr && static_cast<HostTransceiver&>(**self).handleTransmission(connection, std::move(transmission));
+            },
+            [this_{ self() }](Connection& connection, std::exception_ptr ePtr)
+            {
+                if (auto self = this_.lock(); self != nullptr)
+                {
+                    static_cast<HostTransceiver&>(**self).handleTransition(connection, ePtr);
+                }
+            }
         );
         m_guestConnections.emplace(connection.get(), connection);
 
diff --git a/lib/src/Transceiver.cpp b/lib/src/Transceiver.cpp
index e0683d6..fa85c38 100644
--- a/lib/src/Transceiver.cpp
+++ b/lib/src/Transceiver.cpp
@@ -13,8 +13,20 @@ namespace dots
                              std::optional<transition_handler_t> transitionHandler/* = std::nullopt*/) :
         m_nextId(0),
         m_this(std::make_shared<Transceiver*>(this)),
-        m_registry{ [this_{ m_this }](const type::Descriptor<>& descriptor){ (*this_)->handleNewType(descriptor); }, staticTypePolicy },
-        m_dispatcher{ [this_{ m_this }](const type::StructDescriptor& descriptor, std::exception_ptr ePtr){ (*this_)->handleDispatchError(descriptor, ePtr); } },
+        m_registry{ std::make_unique<type::Registry>([this_{ self() }](const type::Descriptor<>& descriptor)
+        {
+            if (auto self = this_.lock(); self != nullptr)
+            {
+                (*self)->handleNewType(descriptor);
+            }
+        }, staticTypePolicy) },
+        m_dispatcher{ [this_{ self() }](const type::StructDescriptor& descriptor, std::exception_ptr ePtr)
+        {
+            if (auto self = this_.lock(); self != nullptr)
+            {
+                (*self)->handleDispatchError(descriptor, ePtr);
+            }
+        } },
         m_selfName{ std::move(selfName) },
         m_ioContext(std::ref(ioContext)),
         m_transitionHandler{ std::move(transitionHandler) }
@@ -37,18 +49,31 @@ namespace dots
         *m_this = this;
     }
 
+    Transceiver::~Transceiver()
+    {
+        // note: handlers might own subscriptions and must not remove
+        // themselves or others while being destroyed
+        m_this.reset();
+    }
+
     Transceiver& Transceiver::operator = (Transceiver&& rhs) noexcept
     {
+        if (this == &rhs)
+        {
+            return *this;
+        }
+
+        m_this.reset();
         m_nextId = rhs.m_nextId;
         m_currentlyDispatchingId = rhs.m_currentlyDispatchingId;
         m_removeIds = std::move(rhs.m_removeIds);
         m_this = std::move(rhs.m_this);
-        m_registry = std::move(rhs.m_registry);
+        m_newTypeHandlers = std::move(rhs.m_newTypeHandlers);
         m_dispatcher = std::move(rhs.m_dispatcher);
+        m_registry = std::move(rhs.m_registry);
         m_selfName = std::move(rhs.m_selfName);
         m_ioContext = rhs.m_ioContext;
         m_transitionHandler = std::move(rhs.m_transitionHandler);
-        m_newTypeHandlers = std::move(rhs.m_newTypeHandlers);
 
         *m_this = this;
 
@@ -72,12 +97,17 @@ namespace dots
 
     const type::Registry& Transceiver::registry() const
     {
-        return m_registry;
+        return *m_registry;
     }
 
     type::Registry& Transceiver::registry()
     {
-        return m_registry;
+        return *m_registry;
+    }
+
+    std::weak_ptr<Transceiver*> Transceiver::self() const
+    {
+        return m_this;
     }
 
     Dispatcher& Transceiver::dispatcher()
@@ -122,7 +152,7 @@ namespace dots
         joinGroup(descriptor.name());
         Dispatcher::id_t id = m_dispatcher.addTransmissionHandler(descriptor, std::move(handler));
 
-        return makeSubscription([&, id]{ m_dispatcher.removeTransmissionHandler(descriptor, id); });
+        return makeSubscription([&descriptor, id](Transceiver& self){ self.m_dispatcher.removeTransmissionHandler(descriptor, id); });
     }
 
     Subscription Transceiver::subscribe(const type::StructDescriptor& descriptor, event_handler_t<> handler)
@@ -136,33 +166,33 @@ namespace dots
         Dispatcher::id_t id{};
         processNow([&]{ id = m_dispatcher.addEventHandler(descriptor, std::move(handler)); });
 
-        return makeSubscription([&, id]{ m_dispatcher.removeEventHandler(descriptor, id); });
+        return makeSubscription([&descriptor, id](Transceiver& self){ self.m_dispatcher.removeEventHandler(descriptor, id); });
     }
 
     Subscription Transceiver::subscribe(std::string_view name, transmission_handler_t handler)
     {
-        return subscribe(m_registry.getStructType(name), std::move(handler));
+        return subscribe(m_registry->getStructType(name), std::move(handler));
     }
 
     Subscription Transceiver::subscribe(std::string_view name, event_handler_t<> handler)
     {
-        return subscribe(m_registry.getStructType(name), std::move(handler));
+        return subscribe(m_registry->getStructType(name), std::move(handler));
     }
 
     Subscription Transceiver::subscribe(new_type_handler_t<> handler)
     {
         const auto& [id, handler_] = *m_newTypeHandlers.try_emplace(m_nextId++, std::move(handler)).first;
-        m_registry.forEach(handler_);
+        m_registry->forEach(handler_);
 
-        return makeSubscription([&, id(id)]
+        return makeSubscription([id(id)](Transceiver& self)
         {
-            if (id == m_currentlyDispatchingId)
+            if (id == self.m_currentlyDispatchingId)
             {
-                m_removeIds.emplace_back(id);
+                self.m_removeIds.emplace_back(id);
             }
             else
             {
-                m_newTypeHandlers.extract(id);
+                self.m_newTypeHandlers.extract(id);
             }
         });
     }
diff --git a/lib/src/io/auth/AuthManager.cpp b/lib/src/io/auth/AuthManager.cpp
index 5b1b9bf..0bf2e7b 100644
--- a/lib/src/io/auth/AuthManager.cpp
+++ b/lib/src/io/auth/AuthManager.cpp
@@ -1,22 +1,23 @@
 // SPDX-License-Identifier: LGPL-3.0-only
 // Copyright 2015-2022 Thomas Schaetzlein <thomas@pnxs.de>, Christopher Gerlach <gerlachch@gmx.com>
 #include <dots/io/auth/AuthManager.h>
+#include <dots/HostTransceiver.h>
 
 namespace dots::io
 {
     AuthManager::AuthManager(HostTransceiver& transceiver) :
-        m_transceiver(&transceiver)
+        m_transceiver(transceiver.self())
     {
         /* do nothing */
     }
 
     const HostTransceiver& AuthManager::transceiver() const
     {
-        return *m_transceiver;
+        return static_cast<const HostTransceiver&>(**m_transceiver.lock());
     }
 
     HostTransceiver& AuthManager::transceiver()
     {
-        return *m_transceiver;
+        return static_cast<HostTransceiver&>(**m_transceiver.lock());
     }
 }
-- 
2.43.0


From 94ff9a815d90a8880362b991ae353c362835e569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:59 +0000
Subject: [PATCH 54/72] fix: new-type handlers were destroyed while types were
 still being announced

---
 lib/include/dots/Transceiver.h |  6 ++--
 lib/src/Transceiver.cpp        | 58 +++++++++++++++++++++++++---------
 2 files changed, 47 insertions(+), 17 deletions(-)

diff --git a/lib/include/dots/Transceiver.h b/lib/include/dots/Transceiver.h
index 8fe4eea..12147d0 100644
--- a/lib/include/dots/Transceiver.h
+++ b/lib/include/dots/Transceiver.h
@@ -6,6 +6,7 @@
 #include <functional>
 #include <memory>
 #include <deque>
+#include <set>
 #include <dots/asio_forward.h>
 #include <dots/Connection.h>
 #include <dots/Dispatcher.h>
@@ -610,11 +611,12 @@ namespace dots
         Subscription makeSubscription(UnsubscribeHandler&& unsubscribeHandler);
 
         void handleNewType(const type::Descriptor<>& descriptor) noexcept;
+        void removeNewTypeHandler(id_t id);
         void handleDispatchError(const type::StructDescriptor& descriptor, std::exception_ptr ePtr) noexcept;
 
         id_t m_nextId;
-        std::optional<id_t> m_currentlyDispatchingId;
-        std::vector<id_t> m_removeIds;
+        size_t m_dispatchDepth = 0;
+        std::set<id_t> m_removeIds;
         std::shared_ptr<Transceiver*> m_this;
         std::unique_ptr<type::Registry> m_registry;
         Dispatcher m_dispatcher;
diff --git a/lib/src/Transceiver.cpp b/lib/src/Transceiver.cpp
index fa85c38..837cb9a 100644
--- a/lib/src/Transceiver.cpp
+++ b/lib/src/Transceiver.cpp
@@ -36,7 +36,6 @@ namespace dots
 
     Transceiver::Transceiver(Transceiver&& other) noexcept :
         m_nextId(other.m_nextId),
-        m_currentlyDispatchingId{ other.m_currentlyDispatchingId },
         m_removeIds{ std::move(other.m_removeIds) },
         m_this{ std::move(other.m_this) },
         m_registry{ std::move(other.m_registry) },
@@ -65,7 +64,6 @@ namespace dots
 
         m_this.reset();
         m_nextId = rhs.m_nextId;
-        m_currentlyDispatchingId = rhs.m_currentlyDispatchingId;
         m_removeIds = std::move(rhs.m_removeIds);
         m_this = std::move(rhs.m_this);
         m_newTypeHandlers = std::move(rhs.m_newTypeHandlers);
@@ -182,18 +180,28 @@ namespace dots
     Subscription Transceiver::subscribe(new_type_handler_t<> handler)
     {
         const auto& [id, handler_] = *m_newTypeHandlers.try_emplace(m_nextId++, std::move(handler)).first;
-        m_registry->forEach(handler_);
 
-        return makeSubscription([id(id)](Transceiver& self)
+        try
         {
-            if (id == self.m_currentlyDispatchingId)
-            {
-                self.m_removeIds.emplace_back(id);
-            }
-            else
+            // note: types that get registered by the handler itself are
+            // announced separately
+            std::vector<std::shared_ptr<const type::Descriptor<>>> descriptors;
+            m_registry->forEach([&descriptors](const type::Descriptor<>& descriptor){ descriptors.emplace_back(descriptor.shared_from_this()); });
+
+            for (const auto& descriptor : descriptors)
             {
-                self.m_newTypeHandlers.extract(id);
+                handler_(*descriptor);
             }
+        }
+        catch (...)
+        {
+            removeNewTypeHandler(id);
+            throw;
+        }
+
+        return makeSubscription([id(id)](Transceiver& self)
+        {
+            self.removeNewTypeHandler(id);
         });
     }
 
@@ -259,27 +267,47 @@ namespace dots
 
     void Transceiver::handleNewType(const type::Descriptor<>& descriptor) noexcept
     {
+        ++m_dispatchDepth;
+
         for (const auto& [id, handler] : m_newTypeHandlers)
         {
+            if (m_removeIds.count(id) != 0)
+            {
+                continue;
+            }
+
             try
             {
-                m_currentlyDispatchingId = id;
                 handler(descriptor);
             }
             catch (const std::exception& e)
             {
                 LOG_ERROR_S("error in new type handler for type '" << descriptor.name() << "' -> " << e.what());
             }
+        }
 
-            m_currentlyDispatchingId = std::nullopt;
+        if (--m_dispatchDepth == 0)
+        {
+            for (id_t id : std::exchange(m_removeIds, {}))
+            {
+                m_newTypeHandlers.extract(id);
+            }
         }
+    }
 
-        for (id_t id : m_removeIds)
+    void Transceiver::removeNewTypeHandler(id_t id)
+    {
+        // note: a handler must not be destroyed while it is being executed,
+        // which might also be the case for types that get registered by
+        // another handler
+        if (m_dispatchDepth != 0)
+        {
+            m_removeIds.emplace(id);
+        }
+        else
         {
             m_newTypeHandlers.extract(id);
         }
-
-        m_removeIds.clear();
     }
 
     void Transceiver::handleDispatchError(const type::StructDescriptor& descriptor, std::exception_ptr ePtr) noexcept
-- 
2.43.0


From 063cf3fc0091140bc5632d5604f3b227c0c65ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:59 +0000
Subject: [PATCH 55/72] fix: releasing a subscription was not safe if its
 handler owned the subscription

---
 lib/src/Subscription.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lib/src/Subscription.cpp b/lib/src/Subscription.cpp
index 92c0d9d..b12141f 100644
--- a/lib/src/Subscription.cpp
+++ b/lib/src/Subscription.cpp
@@ -1,6 +1,7 @@
 // SPDX-License-Identifier: LGPL-3.0-only
 // Copyright 2015-2022 Thomas Schaetzlein <thomas@pnxs.de>, Christopher Gerlach <gerlachch@gmx.com>
 #include <dots/Subscription.h>
+#include <utility>
 
 namespace dots
 {
@@ -23,20 +24,20 @@ namespace dots
 
     Subscription& Subscription::operator = (Subscription&& rhs) noexcept
     {
+        auto handler = std::exchange(rhs.m_handler, std::nullopt);
         unsubscribe();
-
-        m_handler = std::move(rhs.m_handler);
-        rhs.m_handler = std::nullopt;
+        m_handler = std::move(handler);
 
         return *this;
     }
 
     void Subscription::unsubscribe()
     {
-        if (m_handler != std::nullopt)
+        // note: the subscription itself might be destroyed or unsubscribed
+        // again while the subscribed handler is released
+        if (auto handler = std::exchange(m_handler, std::nullopt); handler != std::nullopt)
         {
-            (*m_handler)();
-            m_handler = std::nullopt;
+            (*handler)();
         }
     }
 
-- 
2.43.0


From d8adea6a8e199a4b3e0ac11f3da98cec3620618d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:59 +0000
Subject: [PATCH 56/72] fix: replacing the authentication manager left
 connections with a dangling one

---
 lib/include/dots/HostTransceiver.h | 4 ++--
 lib/src/HostTransceiver.cpp        | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/include/dots/HostTransceiver.h b/lib/include/dots/HostTransceiver.h
index 9b0f3b8..3bdab18 100644
--- a/lib/include/dots/HostTransceiver.h
+++ b/lib/include/dots/HostTransceiver.h
@@ -171,7 +171,7 @@ namespace dots
         void setAuthManager(Args&&... args)
         {
             static_assert(std::is_base_of_v<io::AuthManager, T>, "T must be derived from AuthManager");
-            m_authManager = std::make_unique<T>(*this, std::forward<Args>(args)...);
+            m_authManager = std::make_shared<T>(*this, std::forward<Args>(args)...);
         }
 
     private:
@@ -208,6 +208,6 @@ namespace dots
         listener_map_t m_listeners;
         connection_map_t m_guestConnections;
         group_map_t m_groups;
-        std::unique_ptr<io::AuthManager> m_authManager;
+        std::shared_ptr<io::AuthManager> m_authManager;
     };
 }
diff --git a/lib/src/HostTransceiver.cpp b/lib/src/HostTransceiver.cpp
index 0544807..5df3b82 100644
--- a/lib/src/HostTransceiver.cpp
+++ b/lib/src/HostTransceiver.cpp
@@ -192,7 +192,9 @@ namespace dots
     {
         auto connection = std::make_shared<Connection>(std::move(channel), true);
         connection->asyncReceive(registry(), m_authManager.get(), selfName(),
-            [this_{ self() }](Connection& connection, io::Transmission transmission)
+            // note: the authentication manager is needed by the connection even
+            // if it gets replaced in the meantime
+            [this_{ self() }, authManager{ m_authManager }](Connection& connection, io::Transmission transmission)
             {
                 auto self = this_.lock();
                 return self != nullptr && static_cast<HostTransceiver&>(**self).handleTransmission(connection, std::move(transmission));
-- 
2.43.0


From e09836306786924fe2c128782d04a75847a484ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:17 +0000
Subject: [PATCH 57/72] fix: asynchronously connecting TCP channels were used
 after errors or their destruction

---
 lib/include/dots/io/channels/TcpChannel.h |  1 +
 lib/src/io/channels/TcpChannel.cpp        | 30 +++++++++++++++++------
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/lib/include/dots/io/channels/TcpChannel.h b/lib/include/dots/io/channels/TcpChannel.h
index 65f39ab..b8f8198 100644
--- a/lib/include/dots/io/channels/TcpChannel.h
+++ b/lib/include/dots/io/channels/TcpChannel.h
@@ -73,6 +73,7 @@ namespace dots::io::details
         std::optional<error_handler_t> m_ecb;
 
         asio::ip::tcp::resolver m_resolver;
+        std::shared_ptr<void> m_lifetime = std::make_shared<char>();
     };
 
     extern template struct GenericTcpChannel<serialization::CborSerializer, TransmissionFormat::v1>;
diff --git a/lib/src/io/channels/TcpChannel.cpp b/lib/src/io/channels/TcpChannel.cpp
index 21de884..c57ebb5 100644
--- a/lib/src/io/channels/TcpChannel.cpp
+++ b/lib/src/io/channels/TcpChannel.cpp
@@ -40,22 +40,36 @@ namespace dots::io::details
     GenericTcpChannel<Serializer, TransmissionFormat>::GenericTcpChannel(key_t key, asio::io_context& ioContext, std::string_view host, std::string_view port, std::function<void(const boost::system::error_code& error)> onConnect) :
         GenericTcpChannel(key, asio::ip::tcp::socket{ ioContext }, nullptr)
     {
-        asyncResolveEndpoint(host, port, [this, onConnect{ std::move(onConnect) }](auto& error, auto endpoint) {
-            if (error)
+        // note: the channel might be destroyed before the connection has been
+        // established
+        std::weak_ptr<void> lifetime = m_lifetime;
+
+        asyncResolveEndpoint(host, port, [this, lifetime, onConnect{ std::move(onConnect) }](auto& error, auto endpoint) {
+            if (error || lifetime.expired())
             {
-                onConnect(error);
+                onConnect(error ? error : asio::error::make_error_code(asio::error::operation_aborted));
+                return;
             }
 
-            stream().async_connect(*endpoint, [this, endpoint, onConnect{ std::move(onConnect) }](const boost::system::error_code& error) {
-                if (error)
+            stream().async_connect(*endpoint, [this, lifetime, endpoint, onConnect{ std::move(onConnect) }](const boost::system::error_code& error) {
+                if (error || lifetime.expired())
                 {
-                    onConnect(error);
+                    onConnect(error ? error : asio::error::make_error_code(asio::error::operation_aborted));
                     //throw std::runtime_error{ "could not open TCP connection: " + std::string{ host } + ":" + std::string{ port } };
                 }
                 else
                 {
-                    setDefaultSocketOptions();
-                    initEndpoints(Endpoint{ stream().local_endpoint() }, Endpoint{ stream().remote_endpoint() });
+                    try
+                    {
+                        setDefaultSocketOptions();
+                        initEndpoints(Endpoint{ stream().local_endpoint() }, Endpoint{ stream().remote_endpoint() });
+                    }
+                    catch (const boost::system::system_error& e)
+                    {
+                        onConnect(e.code());
+                        return;
+                    }
+
                     onConnect(error);
                 }
             });
-- 
2.43.0


From c905411dad7c6002c09fb99c31b9d75831041083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:17 +0000
Subject: [PATCH 58/72] fix: local channels and listeners were accessed after
 their destruction while accepting

---
 lib/include/dots/io/channels/LocalChannel.h | 5 +++++
 lib/src/io/channels/LocalChannel.cpp        | 7 ++++++-
 lib/src/io/channels/LocalListener.cpp       | 9 ++++++++-
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/lib/include/dots/io/channels/LocalChannel.h b/lib/include/dots/io/channels/LocalChannel.h
index e672e9b..774eec5 100644
--- a/lib/include/dots/io/channels/LocalChannel.h
+++ b/lib/include/dots/io/channels/LocalChannel.h
@@ -28,7 +28,12 @@ namespace dots::io
 
     private:
 
+        friend struct LocalListener;
+
+        std::weak_ptr<void> lifetime() const;
+
         std::reference_wrapper<asio::io_context> m_ioContext;
         std::weak_ptr<LocalChannel> m_peer;
+        std::shared_ptr<void> m_lifetime = std::make_shared<char>();
     };
 }
diff --git a/lib/src/io/channels/LocalChannel.cpp b/lib/src/io/channels/LocalChannel.cpp
index abbc420..52b665a 100644
--- a/lib/src/io/channels/LocalChannel.cpp
+++ b/lib/src/io/channels/LocalChannel.cpp
@@ -31,6 +31,11 @@ namespace dots::io
         m_peer = std::static_pointer_cast<LocalChannel>(other.shared_from_this());
     }
 
+    std::weak_ptr<void> LocalChannel::lifetime() const
+    {
+        return m_lifetime;
+    }
+
     void LocalChannel::asyncReceiveImpl()
     {
         /* do nothing */
@@ -58,7 +63,7 @@ namespace dots::io
 
             try
             {
-                if (other == nullptr)
+                if (other == nullptr || !other->asyncReceiving())
                 {
                     return;
                 }
diff --git a/lib/src/io/channels/LocalListener.cpp b/lib/src/io/channels/LocalListener.cpp
index 0558e73..bf95f94 100644
--- a/lib/src/io/channels/LocalListener.cpp
+++ b/lib/src/io/channels/LocalListener.cpp
@@ -12,8 +12,15 @@ namespace dots::io
 
     void LocalListener::accept(LocalChannel& peer)
     {
-        asio::post(m_ioContext.get(), [&]
+        // note: both the listener and the peer might be destroyed before the
+        // channel gets accepted
+        asio::post(m_ioContext.get(), [this, lifetime{ lifetime() }, &peer, peerLifetime{ peer.lifetime() }]
         {
+            if (lifetime.expired() || peerLifetime.expired() || !asyncAcceptActive())
+            {
+                return;
+            }
+
             auto channel = make_channel<LocalChannel>(static_cast<asio::io_context&>(m_ioContext));
             peer.link(*channel);
             channel->link(peer);
-- 
2.43.0


From 416dacded4959b9e72811e9d917fd632f7e543b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:34 +0000
Subject: [PATCH 59/72] fix: a listener that was destroyed while accepting left
 its socket in use

---
 lib/include/dots/io/channels/TcpListener.h      |  1 -
 lib/include/dots/io/channels/UdsListener.h      |  1 -
 .../dots/io/channels/WebSocketListener.h        |  3 +--
 lib/src/io/channels/TcpListener.cpp             | 17 ++++++++---------
 lib/src/io/channels/UdsListener.cpp             | 13 ++++++-------
 lib/src/io/channels/WebSocketListener.cpp       | 11 +++++------
 6 files changed, 20 insertions(+), 26 deletions(-)

diff --git a/lib/include/dots/io/channels/TcpListener.h b/lib/include/dots/io/channels/TcpListener.h
index 74d6b14..118c232 100644
--- a/lib/include/dots/io/channels/TcpListener.h
+++ b/lib/include/dots/io/channels/TcpListener.h
@@ -34,7 +34,6 @@ namespace dots::io::details
         std::string m_address;
         std::string m_port;
         asio::ip::tcp::acceptor m_acceptor;
-        asio::ip::tcp::socket m_socket;
         std::shared_ptr<payload_cache_t> m_payloadCache;
     };
 
diff --git a/lib/include/dots/io/channels/UdsListener.h b/lib/include/dots/io/channels/UdsListener.h
index d307ac9..ac6825d 100644
--- a/lib/include/dots/io/channels/UdsListener.h
+++ b/lib/include/dots/io/channels/UdsListener.h
@@ -33,7 +33,6 @@ namespace dots::io::posix::details
 
         asio::local::stream_protocol::endpoint m_endpoint;
         asio::local::stream_protocol::acceptor m_acceptor;
-        asio::local::stream_protocol::socket m_socket;
         std::shared_ptr<payload_cache_t> m_payloadCache;
     };
 
diff --git a/lib/include/dots/io/channels/WebSocketListener.h b/lib/include/dots/io/channels/WebSocketListener.h
index 796fb97..8bce05d 100644
--- a/lib/include/dots/io/channels/WebSocketListener.h
+++ b/lib/include/dots/io/channels/WebSocketListener.h
@@ -24,12 +24,11 @@ namespace dots::io
 
     private:
 
-        void asyncHandshake();
+        void asyncHandshake(asio::ip::tcp::socket socket);
 
         std::string m_address;
         std::string m_port;
         asio::ip::tcp::acceptor m_acceptor;
-        asio::ip::tcp::socket m_socket;
         bool m_accepting = false;
     };
 }
diff --git a/lib/src/io/channels/TcpListener.cpp b/lib/src/io/channels/TcpListener.cpp
index 23bdab7..b58c6e0 100644
--- a/lib/src/io/channels/TcpListener.cpp
+++ b/lib/src/io/channels/TcpListener.cpp
@@ -16,7 +16,6 @@ namespace dots::io::details
         m_address{ std::move(address) },
         m_port{ std::move(port) },
         m_acceptor{ ioContext },
-        m_socket{ ioContext },
         m_payloadCache{ std::make_shared<payload_cache_t>(0, buffer_t{}) }
     {
         try
@@ -46,7 +45,7 @@ namespace dots::io::details
     template <typename TChannel>
     void GenericTcpListener<TChannel>::asyncAcceptImpl()
     {
-        m_acceptor.async_accept(m_socket, [this, lifetime{ lifetime() }](const boost::system::error_code& error)
+        m_acceptor.async_accept([this, lifetime{ lifetime() }](const boost::system::error_code& error, asio::ip::tcp::socket socket)
         {
             if (lifetime.expired() || error == asio::error::operation_aborted || !m_acceptor.is_open())
             {
@@ -68,26 +67,26 @@ namespace dots::io::details
 
             try
             {
-                m_socket.non_blocking(true);
-                m_socket.set_option(asio::ip::tcp::no_delay(true));
-                m_socket.set_option(asio::ip::tcp::socket::keep_alive(true));
+                socket.non_blocking(true);
+                socket.set_option(asio::ip::tcp::no_delay(true));
+                socket.set_option(asio::ip::tcp::socket::keep_alive(true));
 
                 constexpr int MinimumSendBufferSize = 1024 * 1024;
                 asio::socket_base::send_buffer_size sendBufferSize;
-                m_socket.get_option(sendBufferSize);
+                socket.get_option(sendBufferSize);
 
                 if (sendBufferSize.value() < MinimumSendBufferSize)
                 {
-                    m_socket.set_option(asio::socket_base::send_buffer_size(MinimumSendBufferSize));
+                    socket.set_option(asio::socket_base::send_buffer_size(MinimumSendBufferSize));
                 }
 
                 // note: this move is explicitly allowed according to the Boost ASIO v1.72 documentation of the socket
-                channel = make_channel<TChannel>(std::move(m_socket), m_payloadCache);
+                channel = make_channel<TChannel>(std::move(socket), m_payloadCache);
             }
             catch (const std::exception& e)
             {
                 boost::system::error_code ec;
-                m_socket.close(ec);
+                socket.close(ec);
                 processAcceptFailure(std::string{ "failed to configure TCP socket -> " } + e.what());
                 return;
             }
diff --git a/lib/src/io/channels/UdsListener.cpp b/lib/src/io/channels/UdsListener.cpp
index 98ddfe2..2d961cc 100644
--- a/lib/src/io/channels/UdsListener.cpp
+++ b/lib/src/io/channels/UdsListener.cpp
@@ -17,7 +17,6 @@ namespace dots::io::posix::details
     GenericUdsListener<TChannel>::GenericUdsListener(asio::io_context& ioContext, std::string_view path, std::optional<int> backlog/* = std::nullopt*/) :
         m_endpoint{ path.data() },
         m_acceptor{ ioContext },
-        m_socket{ ioContext },
         m_payloadCache{ std::make_shared<payload_cache_t>(0, buffer_t{}) }
     {
         try
@@ -50,7 +49,7 @@ namespace dots::io::posix::details
     template <typename TChannel>
     void GenericUdsListener<TChannel>::asyncAcceptImpl()
     {
-        m_acceptor.async_accept(m_socket, [this, lifetime{ lifetime() }](const boost::system::error_code& error)
+        m_acceptor.async_accept([this, lifetime{ lifetime() }](const boost::system::error_code& error, asio::local::stream_protocol::socket socket)
         {
             if (lifetime.expired() || error == asio::error::operation_aborted || !m_acceptor.is_open())
             {
@@ -72,24 +71,24 @@ namespace dots::io::posix::details
 
             try
             {
-                m_socket.non_blocking(true);
+                socket.non_blocking(true);
 
                 constexpr int MinimumSendBufferSize = 1024 * 1024;
                 asio::socket_base::send_buffer_size sendBufferSize;
-                m_socket.get_option(sendBufferSize);
+                socket.get_option(sendBufferSize);
 
                 if (sendBufferSize.value() < MinimumSendBufferSize)
                 {
-                    m_socket.set_option(asio::socket_base::send_buffer_size(MinimumSendBufferSize));
+                    socket.set_option(asio::socket_base::send_buffer_size(MinimumSendBufferSize));
                 }
 
                 // note: this move is explicitly allowed according to the ASIO v1.72 documentation of the socket
-                channel = make_channel<TChannel>(std::move(m_socket), m_payloadCache);
+                channel = make_channel<TChannel>(std::move(socket), m_payloadCache);
             }
             catch (const std::exception& e)
             {
                 boost::system::error_code ec;
-                m_socket.close(ec);
+                socket.close(ec);
                 processAcceptFailure(std::string{ "failed to configure UDS socket -> " } + e.what());
                 return;
             }
diff --git a/lib/src/io/channels/WebSocketListener.cpp b/lib/src/io/channels/WebSocketListener.cpp
index 81b2345..eabf500 100644
--- a/lib/src/io/channels/WebSocketListener.cpp
+++ b/lib/src/io/channels/WebSocketListener.cpp
@@ -15,8 +15,7 @@ namespace dots::io
     WebSocketListener::WebSocketListener(asio::io_context& ioContext, std::string address, std::string port, std::optional<int> backlog/* = std::nullopt*/) :
         m_address{ std::move(address) },
         m_port{ std::move(port) },
-        m_acceptor{ ioContext },
-        m_socket{ ioContext }
+        m_acceptor{ ioContext }
     {
         try
         {
@@ -50,7 +49,7 @@ namespace dots::io
         }
 
         m_accepting = true;
-        m_acceptor.async_accept(m_socket, [this, lifetime{ lifetime() }](const boost::system::error_code& error)
+        m_acceptor.async_accept([this, lifetime{ lifetime() }](const boost::system::error_code& error, asio::ip::tcp::socket socket)
         {
             if (lifetime.expired())
             {
@@ -77,7 +76,7 @@ namespace dots::io
 
             try
             {
-                asyncHandshake();
+                asyncHandshake(std::move(socket));
                 asyncAcceptImpl();
             }
             catch (const std::exception& e)
@@ -87,10 +86,10 @@ namespace dots::io
         });
     }
 
-    void WebSocketListener::asyncHandshake()
+    void WebSocketListener::asyncHandshake(asio::ip::tcp::socket socket)
     {
         // note: this move is explicitly allowed according to the Boost ASIO v1.72 documentation of the socket
-        auto stream = std::make_shared<WebSocketChannel::ws_stream_t>(std::move(m_socket));
+        auto stream = std::make_shared<WebSocketChannel::ws_stream_t>(std::move(socket));
 
         stream->set_option(boost::beast::websocket::stream_base::timeout::suggested(boost::beast::role_type::server));
         stream->set_option(boost::beast::websocket::stream_base::decorator([](boost::beast::websocket::response_type& res)
-- 
2.43.0


From 570ab807cb63e1b40d65da728d2f9d6d96a45d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:14 +0000
Subject: [PATCH 60/72] fix: a guest did not rejoin groups whose join failed
 with its connection

A guest that subscribed while its connection was already broken remembered
the group as joined after the connection had been released, so it never
received objects of the type after it had been opened again.
---
 lib/src/GuestTransceiver.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/lib/src/GuestTransceiver.cpp b/lib/src/GuestTransceiver.cpp
index 8fba9ce..bdcb6ec 100644
--- a/lib/src/GuestTransceiver.cpp
+++ b/lib/src/GuestTransceiver.cpp
@@ -126,13 +126,22 @@ namespace dots
 
     void GuestTransceiver::joinGroup(std::string_view name)
     {
-        if (m_joinedGroups.count(std::string(name)) == 0)
+        // note: the group has to be registered first, because the connection is
+        // released with all of its groups when the transmission fails
+        if (m_joinedGroups.insert(std::string(name)).second)
         {
-            publish(DotsMember{
-                .groupName = name,
-                .event = DotsMemberEvent::join
-            });
-            m_joinedGroups.insert(std::string(name));
+            try
+            {
+                publish(DotsMember{
+                    .groupName = name,
+                    .event = DotsMemberEvent::join
+                });
+            }
+            catch (...)
+            {
+                m_joinedGroups.erase(std::string(name));
+                throw;
+            }
         }
     }
 
-- 
2.43.0


From e43619c88fcffe14314e94c02d9519cc3618731b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:40 +0000
Subject: [PATCH 61/72] fix: a long challenge response overflowed the digest

The response of a connecting peer was decoded into the digest without
checking its length, so that any unauthenticated peer could write past the
end of the array.
---
 lib/src/io/auth/Digest.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/src/io/auth/Digest.cpp b/lib/src/io/auth/Digest.cpp
index dbb2f68..02ccbd3 100644
--- a/lib/src/io/auth/Digest.cpp
+++ b/lib/src/io/auth/Digest.cpp
@@ -2,6 +2,7 @@
 // Copyright 2015-2022 Thomas Schaetzlein <thomas@pnxs.de>, Christopher Gerlach <gerlachch@gmx.com>
 #include <dots/io/auth/Digest.h>
 #include <PicoSHA2/picosha2.h>
+#include <stdexcept>
 #include <boost/algorithm/hex.hpp>
 
 namespace dots::io
@@ -18,6 +19,12 @@ namespace dots::io
         Digest([&]
         {
             value_t value = {};
+
+            if (stringValue.size() > value.size() * 2)
+            {
+                throw std::invalid_argument{ "digest string is too long" };
+            }
+
             boost::algorithm::unhex(stringValue, value.begin());
 
             return value;
-- 
2.43.0


From 875dd91938295fe29193b3265ff7f52d205441c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:40 +0000
Subject: [PATCH 62/72] fix: clients with a wrong secret were accepted by the
 default policy

When the response of a client did not match any of the rules that require a
secret, the decision was left to the default policy, which accepts clients
unless configured otherwise.
---
 lib/src/io/auth/LegacyAuthManager.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/src/io/auth/LegacyAuthManager.cpp b/lib/src/io/auth/LegacyAuthManager.cpp
index a985e01..4fb290f 100644
--- a/lib/src/io/auth/LegacyAuthManager.cpp
+++ b/lib/src/io/auth/LegacyAuthManager.cpp
@@ -110,6 +110,12 @@ namespace dots::io
                             break;
                         }
                     }
+                    else if (rule.accept == true)
+                    {
+                        // note: the response might still match one of the
+                        // following rules, but must not be accepted by default
+                        accept = false;
+                    }
                 }
                 else
                 {
-- 
2.43.0


From 2057c8b7fe819b8b959e998cc4cf3be25121effa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:40 +0000
Subject: [PATCH 63/72] fix: the verbosity of the log decided whether a rule is
 applied

When debug messages are enabled, an authentication rule without a verdict
raised an exception while it was logged and was ignored.
---
 lib/src/io/auth/LegacyAuthManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/io/auth/LegacyAuthManager.cpp b/lib/src/io/auth/LegacyAuthManager.cpp
index 4fb290f..8ba2e41 100644
--- a/lib/src/io/auth/LegacyAuthManager.cpp
+++ b/lib/src/io/auth/LegacyAuthManager.cpp
@@ -163,7 +163,7 @@ namespace dots::io
 
                 if ((rule.clientName->empty() || *rule.clientName == clientName) && network.isSubnetOf(tools::IpNetwork{ *rule.network->network, *rule.network->prefix }))
                 {
-                    LOG_DEBUG_S("Match: " << *rule.network->network << "/" << +*rule.network->prefix << " (" << (rule.secret.isValid() ? "with secret" : "without secret") << ", accept=" << *rule.accept << ")");
+                    LOG_DEBUG_S("Match: " << *rule.network->network << "/" << +*rule.network->prefix << " (" << (rule.secret.isValid() ? "with secret" : "without secret") << ", accept=" << rule.accept.valueOrDefault(false) << ")");
                     matchtingRules.emplace_back(rule);
                 }
             }
-- 
2.43.0


From 53e4343b630309af74362bf8d097599640857610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:40 +0000
Subject: [PATCH 64/72] fix: nonces read past the end of the given text

---
 lib/src/io/auth/Nonce.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/src/io/auth/Nonce.cpp b/lib/src/io/auth/Nonce.cpp
index 99f93c4..2c90981 100644
--- a/lib/src/io/auth/Nonce.cpp
+++ b/lib/src/io/auth/Nonce.cpp
@@ -4,6 +4,7 @@
 #include <random>
 #include <iomanip>
 #include <sstream>
+#include <string>
 
 namespace dots::io
 {
@@ -22,8 +23,8 @@ namespace dots::io
     Nonce::Nonce(std::string_view stringValue) :
         Nonce([&]
         {
-            value_t value;
-            std::istringstream iss{ stringValue.data() };
+            value_t value = 0;
+            std::istringstream iss{ std::string{ stringValue } };
             iss >> std::setw(16) >> std::hex >> value;
 
             return value;
-- 
2.43.0


From e97a26d2050dcb7f75e82125efa8e2c7eb5581d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:01 +0000
Subject: [PATCH 65/72] fix: endpoints of IPv6 connections had no host

The endpoint of a connection was composed without delimiting the IPv6
address, so its host was empty, its port was wrong and an authentication
manager closed all such connections.
---
 lib/src/tools/Uri.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/src/tools/Uri.cpp b/lib/src/tools/Uri.cpp
index 0ce875c..05a661a 100644
--- a/lib/src/tools/Uri.cpp
+++ b/lib/src/tools/Uri.cpp
@@ -4,6 +4,15 @@
 #include <dots/tools/string_tools.h>
 #include <tuple>
 
+namespace
+{
+    std::string delimited_host(const std::string& host)
+    {
+        bool isIpv6 = host.find(':') != std::string::npos && host.front() != '[';
+        return isIpv6 ? '[' + host + ']' : host;
+    }
+}
+
 namespace dots::tools
 {
     Uri::Uri(std::string uriStr) :
@@ -13,7 +22,7 @@ namespace dots::tools
     }
 
     Uri::Uri(const std::string& scheme, const std::string& host, const std::string& port) :
-        Uri(scheme + "://" + host + ":" + port)
+        Uri(scheme + "://" + delimited_host(host) + ":" + port)
     {
         /* do nothing */
     }
-- 
2.43.0


From 4fbe8ba5cdcbdd1b666b89d9ce90499ac89506f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:03 +0000
Subject: [PATCH 66/72] fix: existing rules were received before the
 authentication manager was constructed

---
 lib/include/dots/io/auth/LegacyAuthManager.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/include/dots/io/auth/LegacyAuthManager.h b/lib/include/dots/io/auth/LegacyAuthManager.h
index e722a7e..aa3150b 100644
--- a/lib/include/dots/io/auth/LegacyAuthManager.h
+++ b/lib/include/dots/io/auth/LegacyAuthManager.h
@@ -41,9 +41,11 @@ namespace dots::io
         void handleDotsAuthentication(const Event<DotsAuthentication>& e);
         void handleDotsAuthenticationPolicy(const Event<DotsAuthenticationPolicy>& e);
 
-        Subscription m_dotsAuthenticationSubscription;
-        Subscription m_dotsAuthenticationPolicySubscription;
+        // note: the subscriptions have to be declared last because existing
+        // rules and policies are already received during construction
         rules_t m_rules;
         std::optional<bool> m_defaultAcceptPolicy;
+        Subscription m_dotsAuthenticationSubscription;
+        Subscription m_dotsAuthenticationPolicySubscription;
     };
 }
-- 
2.43.0


From eb121771b0bf30e9e9497827e840aedf0ccd0764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:15 +0000
Subject: [PATCH 67/72] fix: the end of a local channel was not noticed by its
 peer

---
 lib/include/dots/io/channels/LocalChannel.h |  2 +-
 lib/src/io/channels/LocalChannel.cpp        | 21 +++++++++++++++++++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/lib/include/dots/io/channels/LocalChannel.h b/lib/include/dots/io/channels/LocalChannel.h
index 774eec5..0e7d7f3 100644
--- a/lib/include/dots/io/channels/LocalChannel.h
+++ b/lib/include/dots/io/channels/LocalChannel.h
@@ -14,7 +14,7 @@ namespace dots::io
         LocalChannel(key_t key, asio::io_context& ioContext, LocalListener& peer);
         LocalChannel(const LocalChannel& other) = delete;
         LocalChannel(LocalChannel&& other) = delete;
-        ~LocalChannel() override = default;
+        ~LocalChannel() override;
 
         LocalChannel& operator = (const LocalChannel& rhs) = delete;
         LocalChannel& operator = (LocalChannel&& rhs) = delete;
diff --git a/lib/src/io/channels/LocalChannel.cpp b/lib/src/io/channels/LocalChannel.cpp
index 52b665a..7f6e18f 100644
--- a/lib/src/io/channels/LocalChannel.cpp
+++ b/lib/src/io/channels/LocalChannel.cpp
@@ -21,6 +21,27 @@ namespace dots::io
         peer.accept(*this);
     }
 
+    LocalChannel::~LocalChannel()
+    {
+        try
+        {
+            if (auto other = m_peer.lock(); other != nullptr)
+            {
+                asio::post(other->m_ioContext.get(), [peer = m_peer]
+                {
+                    if (auto other = peer.lock(); other != nullptr)
+                    {
+                        other->processError("local channel was closed by peer");
+                    }
+                });
+            }
+        }
+        catch (...)
+        {
+            /* do nothing */
+        }
+    }
+
     void LocalChannel::link(LocalChannel& other)
     {
         if (!m_peer.expired())
-- 
2.43.0


From 7f285aa9105a838ae3b8c9d21739d0b5f098e664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:36 +0000
Subject: [PATCH 68/72] fix: setting a component of a URI could change or
 corrupt the others

---
 lib/include/dots/tools/Uri.h |   3 +-
 lib/src/tools/Uri.cpp        | 176 +++++++++++++++--------------------
 2 files changed, 78 insertions(+), 101 deletions(-)

diff --git a/lib/include/dots/tools/Uri.h b/lib/include/dots/tools/Uri.h
index 41a9579..ca54a2b 100644
--- a/lib/include/dots/tools/Uri.h
+++ b/lib/include/dots/tools/Uri.h
@@ -48,7 +48,8 @@ namespace dots::tools
 
     private:
 
-        void replace(std::string_view part, std::string_view replacement);
+        void setAuthority(std::string_view userName, std::string_view userPassword, std::string_view hostDelimited, std::string_view port);
+        void assign(std::string uriStr);
         void parse();
 
         std::string m_uriStr;
diff --git a/lib/src/tools/Uri.cpp b/lib/src/tools/Uri.cpp
index 05a661a..e65e001 100644
--- a/lib/src/tools/Uri.cpp
+++ b/lib/src/tools/Uri.cpp
@@ -11,6 +11,16 @@ namespace
         bool isIpv6 = host.find(':') != std::string::npos && host.front() != '[';
         return isIpv6 ? '[' + host + ']' : host;
     }
+
+    std::string joined_path(std::string_view scheme, std::string_view path)
+    {
+        // note: a path that begins with "//" would be taken for an authority
+        std::string uriStr{ scheme };
+        uriStr += dots::tools::starts_with(path, "//") ? "://" : ":";
+        uriStr += path;
+
+        return uriStr;
+    }
 }
 
 namespace dots::tools
@@ -34,7 +44,7 @@ namespace dots::tools
     }
 
     Uri::Uri(const std::string& scheme, const std::string& path) :
-        Uri(scheme + ":" + path)
+        Uri(joined_path(scheme, path))
     {
         /* do nothing */
     }
@@ -84,7 +94,7 @@ namespace dots::tools
             throw std::runtime_error{ "URI scheme cannot be empty" };
         }
 
-        replace(m_scheme, scheme);
+        assign(scheme + (m_scheme.empty() && !starts_with(m_uriStr, ":") ? ":" : "") + m_uriStr.substr(m_scheme.size()));
     }
 
     std::string_view Uri::authority() const
@@ -94,19 +104,51 @@ namespace dots::tools
 
     void Uri::setAuthority(const std::string& authority)
     {
-        if (m_authority.empty())
+        if (!authority.empty() && !m_path.empty() && m_path.front() != '/')
+        {
+            throw std::runtime_error{ "cannot set authority on URI with a path that does not begin with '/': " + m_uriStr };
+        }
+
+        std::string uriStr{ m_scheme };
+
+        if (authority.empty())
         {
-            std::string schemeAndAuthority;
-            schemeAndAuthority += m_scheme;
-            schemeAndAuthority += "://";
-            schemeAndAuthority += authority;
-            schemeAndAuthority += m_path;
-            replace(m_scheme, schemeAndAuthority);
+            uriStr = joined_path(m_scheme, m_path);
         }
         else
         {
-            replace(m_authority, authority);
+            uriStr += "://";
+            uriStr += authority;
+            uriStr += m_path;
+        }
+
+        assign(std::move(uriStr));
+    }
+
+    void Uri::setAuthority(std::string_view userName, std::string_view userPassword, std::string_view hostDelimited, std::string_view port)
+    {
+        std::string authority{ userName };
+
+        if (!userPassword.empty())
+        {
+            authority += ':';
+            authority += userPassword;
+        }
+
+        if (!authority.empty())
+        {
+            authority += '@';
         }
+
+        authority += hostDelimited;
+
+        if (!port.empty())
+        {
+            authority += ':';
+            authority += port;
+        }
+
+        setAuthority(authority);
     }
 
     std::string_view Uri::userName() const
@@ -116,23 +158,12 @@ namespace dots::tools
 
     void Uri::setUserName(const std::string& userName)
     {
-        if (m_userName.empty())
+        if (m_userName.empty() && m_host.empty())
         {
-            if (m_host.empty())
-            {
-                throw std::runtime_error{ "cannot set user name on URI without a host" };
-            }
-
-            std::string userAtHost;
-            userAtHost += userName;
-            userAtHost += '@';
-            userAtHost += m_host;
-            replace(m_host, userAtHost);
-        }
-        else
-        {
-            replace(m_userName, userName);
+            throw std::runtime_error{ "cannot set user name on URI without a host" };
         }
+
+        setAuthority(userName, m_userPassword, m_hostDelimited, m_port);
     }
 
     std::string_view Uri::userPassword() const
@@ -142,31 +173,12 @@ namespace dots::tools
 
     void Uri::setUserPassword(const std::string& userPassword)
     {
-        if (m_userPassword.empty())
+        if (m_userPassword.empty() && m_userName.empty())
         {
-            if (m_userName.empty())
-            {
-                throw std::runtime_error{ "cannot set user password on URI without a user name" };
-            }
-
-            std::string userNameAndPassword;
-            userNameAndPassword += m_userName;
-            userNameAndPassword += ':';
-            userNameAndPassword += userPassword;
-            replace(m_userName, userNameAndPassword);
-        }
-        else
-        {
-            if (userPassword.empty())
-            {
-                std::string_view userPasswordAndSeparator{ m_userPassword.data() - 1, m_userPassword.size() + 1 };
-                replace(userPasswordAndSeparator, userPassword);
-            }
-            else
-            {
-                replace(m_userPassword, userPassword);
-            }
+            throw std::runtime_error{ "cannot set user password on URI without a user name" };
         }
+
+        setAuthority(m_userName, userPassword, m_hostDelimited, m_port);
     }
 
     std::string_view Uri::host() const
@@ -176,25 +188,7 @@ namespace dots::tools
 
     void Uri::setHost(const std::string& host)
     {
-        std::string_view hostView = host;
-        std::string hostDelimited;
-
-        if (bool isIpv6 = host.find_first_of(':') != std::string_view::npos; isIpv6)
-        {
-            hostDelimited += '[';
-            hostDelimited += host;
-            hostDelimited += ']';
-            hostView = hostDelimited;
-        }
-
-        if (m_authority.empty())
-        {
-            setAuthority(hostView.data());
-        }
-        else
-        {
-            replace(m_hostDelimited, hostView);
-        }
+        setAuthority(m_userName, m_userPassword, delimited_host(host), m_port);
     }
 
     std::string_view Uri::port() const
@@ -204,31 +198,12 @@ namespace dots::tools
 
     void Uri::setPort(const std::string& port)
     {
-        if (m_port.empty())
-        {
-            if (m_host.empty())
-            {
-                throw std::runtime_error{ "cannot set port on URI without a host" };
-            }
-
-            std::string hostAndPort;
-            hostAndPort += m_host;
-            hostAndPort += ':';
-            hostAndPort += port;
-            replace(m_host, hostAndPort);
-        }
-        else
+        if (m_port.empty() && m_host.empty())
         {
-            if (port.empty())
-            {
-                std::string_view portAndSeparator{ m_port.data() - 1, m_port.size() + 1 };
-                replace(portAndSeparator, port);
-            }
-            else
-            {
-                replace(m_port, port);
-            }
+            throw std::runtime_error{ "cannot set port on URI without a host" };
         }
+
+        setAuthority(m_userName, m_userPassword, m_hostDelimited, port);
     }
 
     std::string_view Uri::path() const
@@ -243,14 +218,13 @@ namespace dots::tools
             throw std::runtime_error{ "URI path to set does not begin with '/': " + std::string{ path } };
         }
 
-        if (m_path.empty())
+        if (m_authority.empty())
         {
-            m_uriStr += path;
-            parse();
+            assign(joined_path(m_scheme, path));
         }
         else
         {
-            replace(m_path, path);
+            assign(m_uriStr.substr(0, m_uriStr.size() - m_path.size()) + path);
         }
     }
 
@@ -276,16 +250,17 @@ namespace dots::tools
         return uris;
     }
 
-    void Uri::replace(std::string_view part, std::string_view replacement)
+    void Uri::assign(std::string uriStr)
     {
-        m_uriStr.replace(static_cast<size_t>(part.data() - m_uriStr.data()), part.size(), replacement);
-        parse();
+        // note: this ensures that the URI remains unchanged if it is invalid
+        *this = Uri{ std::move(uriStr) };
     }
 
     void Uri::parse()
     {
         try
         {
+            m_authority = {};
             m_userName = {};
             m_userPassword = {};
             m_hostDelimited = {};
@@ -293,14 +268,15 @@ namespace dots::tools
             m_port = {};
 
             std::string_view remainder = m_uriStr;
-            std::tie(m_scheme, remainder) = split_right_at_first_of(remainder, "://", false);
+            std::tie(m_scheme, remainder) = split_right_at_first_of(remainder, ":", false);
 
-            if (m_scheme.empty())
+            if (m_scheme.empty() || !starts_with(remainder, "//"))
             {
-                std::tie(m_scheme, m_path) = split_right_at_first_of(remainder, ":", false);
+                m_path = remainder;
             }
             else
             {
+                remainder.remove_prefix(2);
                 std::tie(m_authority, m_path) = split_before_first_of(remainder, "/", false);
 
                 if (!m_authority.empty())
-- 
2.43.0


From 96ce8aaa0ba146e305186a58c9e25f4465a0132b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:37 +0000
Subject: [PATCH 69/72] fix: networks with different host bits were not
 recognised as the same network

---
 lib/src/tools/IpNetwork.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/src/tools/IpNetwork.cpp b/lib/src/tools/IpNetwork.cpp
index 23c6f3b..822988e 100644
--- a/lib/src/tools/IpNetwork.cpp
+++ b/lib/src/tools/IpNetwork.cpp
@@ -109,7 +109,17 @@ namespace dots::tools
         }
         else
         {
-            return isStrictSubnetOf(network) || m_network == network.m_network;
+            return isStrictSubnetOf(network) || std::visit([](const auto& lhs, const auto& rhs) -> bool
+            {
+                if constexpr (std::is_same_v<decltype(lhs), decltype(rhs)>)
+                {
+                    return lhs.canonical() == rhs.canonical();
+                }
+                else
+                {
+                    return false;
+                }
+            }, m_network, network.m_network);
         }
     }
 
-- 
2.43.0


From 17b7df500651682d2afbeb7a9940dca5ecc6d13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:37 +0000
Subject: [PATCH 70/72] fix: durations did not survive their conversion to
 text, and malformed durations and time points were accepted

---
 lib/src/type/Chrono.cpp | 168 ++++++++++++++++++++++++----------------
 1 file changed, 101 insertions(+), 67 deletions(-)

diff --git a/lib/src/type/Chrono.cpp b/lib/src/type/Chrono.cpp
index 76ef36f..46046f1 100644
--- a/lib/src/type/Chrono.cpp
+++ b/lib/src/type/Chrono.cpp
@@ -1,9 +1,13 @@
 // SPDX-License-Identifier: LGPL-3.0-only
 // Copyright 2015-2022 Thomas Schaetzlein <thomas@pnxs.de>, Christopher Gerlach <gerlachch@gmx.com>
-#include <sstream>
-#include <regex>
-#include <charconv>
+#include <algorithm>
+#include <array>
+#include <iomanip>
+#include <limits>
+#include <locale>
 #include <optional>
+#include <sstream>
+#include <stdexcept>
 #include <dots/type/Chrono.h>
 #include <date/date.h>
 #include <date/tz.h>
@@ -30,9 +34,32 @@ namespace dots::type
 {
     std::string Duration::toString() const
     {
-        if (*this == zero())
+        constexpr DurationBase MaxDuration = std::chrono::duration<double, std::ratio<86400>>{ std::numeric_limits<int>::max() };
+
+        if (*this < zero())
         {
-            return "PT0S";
+            std::string str = Duration{ -*this }.toString();
+            return str == "PT0S" ? str : '-' + str;
+        }
+
+        auto seconds_to_string = [](const base_t& seconds)
+        {
+            std::ostringstream oss;
+            oss << std::fixed << std::setprecision(6) << seconds.count();
+            std::string str = oss.str();
+
+            if (str.find('.') != std::string::npos)
+            {
+                str.erase(str.find_last_not_of('0') + 1);
+                str.erase(str.find_last_not_of('.') + 1);
+            }
+
+            return str;
+        };
+
+        if (!(*this < MaxDuration))
+        {
+            return "PT" + seconds_to_string(*this) + 'S';
         }
 
         std::ostringstream oss;
@@ -60,13 +87,21 @@ namespace dots::type
             floor_to_string(std::chrono::hours::zero(), 'H');
             floor_to_string(std::chrono::minutes::zero(), 'M');
 
-            if (duration > zero())
+            if (std::string seconds = seconds_to_string(duration); seconds != "0")
             {
-                oss << duration.count() << "S";
+                oss << seconds << "S";
             }
         }
 
-        return oss.str();
+        // note: this is the case if there is less than can be represented
+        std::string str = oss.str();
+
+        if (str.back() == 'T')
+        {
+            str.pop_back();
+        }
+
+        return str == "P" ? "PT0S" : str;
     }
 
     bool Duration::fromString(std::string_view value)
@@ -77,79 +112,67 @@ namespace dots::type
 
     Duration Duration::FromString(std::string_view value)
     {
-        if (value == "PT0S")
+        struct Unit
         {
-            return Duration{ zero() };
-        }
+            char symbol;
+            bool isTime;
+            base_t length;
+        };
 
-        // note that this implementation is currently not able to parse durations without a time designator. additionally
-        // it is pretty slow and should be overhauled at a later point
-        std::regex regex{ R"(P([0-9\.]+Y)?([0-9\.]+M)?([0-9\.]+W)?([0-9\.]+D)?(T)([0-9\.]+H)?([0-9\.]+M)?([0-9\.]+S)?)", std::regex_constants::ECMAScript };
-        std::smatch match;
-        std::string input{ value };
+        static const std::array<Unit, 7> Units{
+            Unit{ 'Y', false, date::years{ 1 } },
+            Unit{ 'M', false, date::months{ 1 } },
+            Unit{ 'W', false, date::weeks{ 1 } },
+            Unit{ 'D', false, date::days{ 1 } },
+            Unit{ 'H', true, std::chrono::hours{ 1 } },
+            Unit{ 'M', true, std::chrono::minutes{ 1 } },
+            Unit{ 'S', true, std::chrono::seconds{ 1 } }
+        };
 
-        if (!std::regex_match(input, match, regex) || match.size() <= 1)
+        auto verify = [value](bool condition)
         {
-            throw std::runtime_error{ "could not parse duration from string: " + std::string{ value } };
-        }
+            if (!condition)
+            {
+                throw std::runtime_error{ "could not parse duration from string: " + std::string{ value } };
+            }
+        };
 
-        bool preTimeDesignator = true;
-        Duration duration = zero();
+        std::string_view remainder = value;
+        bool isNegative = !remainder.empty() && remainder.front() == '-';
+        remainder.remove_prefix(isNegative ? 1 : 0);
 
-        for (size_t i = 1; i < match.size(); ++i)
-        {
-            std::ssub_match subMatch = match[i];
-            std::string part = subMatch.str();
+        verify(remainder.size() > 1 && remainder.front() == 'P');
+        remainder.remove_prefix(1);
+
+        base_t duration = zero();
+        bool isTime = false;
 
-            if (part.empty())
+        for (auto unit = Units.begin(); !remainder.empty();)
+        {
+            if (remainder.front() == 'T')
             {
+                verify(!isTime);
+                isTime = true;
+                remainder.remove_prefix(1);
                 continue;
             }
 
-            // note that the first parameter is used only to determine the duration type.
-            // this can be simplified with C++20 by using a template parameter.
-            auto parse_duration = [](auto duration, const std::string& part)
-            {
-                using duration_t = decltype(duration);
-                using rep_t = typename duration_t::rep;
-                (void)duration;
-
-                rep_t count;
+            size_t length = remainder.find_first_not_of("0123456789.");
+            verify(length != std::string_view::npos && length > 0);
 
-                if (std::from_chars_result result = std::from_chars(part.data(), part.data() + part.size(), count); result.ec != std::errc{})
-                {
-                    throw std::runtime_error{ "could not parse duration from string part: " + part  + " -> " + std::make_error_code(result.ec).message() };
-                }
+            double count = 0;
+            std::istringstream iss{ std::string{ remainder.substr(0, length) } };
+            iss.imbue(std::locale::classic());
+            verify(static_cast<bool>(iss >> count) && iss.rdbuf()->in_avail() == 0);
 
-                return duration_t{ count };
-            };
+            unit = std::find_if(unit, Units.end(), [&](const Unit& unit){ return unit.symbol == remainder[length] && unit.isTime == isTime; });
+            verify(unit != Units.end());
 
-            switch (part.back())
-            {
-                case 'Y': duration += parse_duration(date::years::zero(), part); break;
-                case 'W': duration += parse_duration(date::weeks::zero(), part); break;
-                case 'D': duration += parse_duration(date::days::zero(), part); break;
-                case 'T': preTimeDesignator = false; break;
-                case 'H': duration += parse_duration(std::chrono::hours::zero(), part); break;
-                case 'S': duration += std::chrono::duration_cast<std::chrono::nanoseconds>(base_t{ std::stod(part) }); break;
-                case 'M':
-                {
-                    if (preTimeDesignator)
-                    {
-                        duration += parse_duration(date::months::zero(), part);
-                    }
-                    else
-                    {
-                        duration += parse_duration(std::chrono::minutes::zero(), part);
-                    }
-
-                    break;
-                }
-                default: throw std::runtime_error{ "encountered invalid symbol while parsing duration: '" + std::string{ part.back() } + "'" };
-            }
+            duration += unit++->length * count;
+            remainder.remove_prefix(length + 1);
         }
 
-        return Duration{ duration };
+        return Duration{ isNegative ? -duration : duration };
     }
 
     using sys_time_t = date::sys_time<std::chrono::milliseconds>;
@@ -172,7 +195,8 @@ namespace dots::type
             {
                 std::ostringstream oss;
                 oss.exceptions(std::istringstream::failbit | std::istringstream::badbit);
-                const char* fmtData = fmt == ISO8601DateTime ? "%FT%T%Ez" : fmt.data();
+                const std::string fmtStr{ fmt == ISO8601DateTime ? "%FT%T%Ez" : fmt };
+                const char* fmtData = fmtStr.data();
                 sys_time_t sysTimePoint{ date::round<sys_duration_t>(duration()) };
 
                 if (utc)
@@ -219,12 +243,21 @@ namespace dots::type
     template <typename Base>
     TimePointImpl<Base> TimePointImpl<Base>::FromString(std::string_view value, std::string_view fmt/* = DefaultFormat*/)
     {
+        auto verifyEnd = [value](const std::istringstream& iss)
+        {
+            if (iss.rdbuf()->in_avail() > 0)
+            {
+                throw std::runtime_error{ "could not parse time point from string: " + std::string{ value } };
+            }
+        };
+
         if (fmt.empty())
         {
             std::istringstream iss{ std::string{ value } };
             iss.exceptions(std::istringstream::failbit | std::istringstream::badbit);
             duration_t::rep count;
             iss >> count;
+            verifyEnd(iss);
 
             return TimePointImpl{ Duration{ count } };
         }
@@ -252,7 +285,8 @@ namespace dots::type
                     }
                 }
 
-                iss >> date::parse(fmt.data(), sysTimePoint);
+                iss >> date::parse(std::string{ fmt }, sysTimePoint);
+                verifyEnd(iss);
                 return TimePointImpl{ sysTimePoint.time_since_epoch() };
             }
         }
-- 
2.43.0


From 7dd1fed7712183d2e98cbbf966474a172ccb0821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:28 +0000
Subject: [PATCH 71/72] fix: replaced timers and observers were not cancelled

---
 lib/include/dots/Timer.h         | 2 +-
 lib/include/dots/io/FdObserver.h | 2 +-
 lib/src/Timer.cpp                | 9 +++++++++
 lib/src/io/FdObserver.cpp        | 9 +++++++++
 4 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/lib/include/dots/Timer.h b/lib/include/dots/Timer.h
index e867d51..4a9f49b 100644
--- a/lib/include/dots/Timer.h
+++ b/lib/include/dots/Timer.h
@@ -60,7 +60,7 @@ namespace dots
         ~Timer();
 
         Timer& operator = (const Timer& rhs) = delete;
-        Timer& operator = (Timer&& rhs) = default;
+        Timer& operator = (Timer&& rhs) noexcept;
 
         /*!
          * @brief Release management of the timer.
diff --git a/lib/include/dots/io/FdObserver.h b/lib/include/dots/io/FdObserver.h
index 29bdc53..26fcd6b 100644
--- a/lib/include/dots/io/FdObserver.h
+++ b/lib/include/dots/io/FdObserver.h
@@ -71,7 +71,7 @@ namespace dots::io::posix
         ~FdObserver();
 
         FdObserver& operator = (const FdObserver& rhs) = delete;
-        FdObserver& operator = (FdObserver&& rhs) = default;
+        FdObserver& operator = (FdObserver&& rhs) noexcept;
 
         /*!
          * @brief Release management of the FdObserver.
diff --git a/lib/src/Timer.cpp b/lib/src/Timer.cpp
index 6ae248a..c27c741 100644
--- a/lib/src/Timer.cpp
+++ b/lib/src/Timer.cpp
@@ -53,6 +53,15 @@ namespace dots
         }
     }
 
+    Timer& Timer::operator = (Timer&& rhs) noexcept
+    {
+        // note: the previous timer has to be cancelled
+        Timer timer{ std::move(rhs) };
+        std::swap(m_timerData, timer.m_timerData);
+
+        return *this;
+    }
+
     void Timer::discard()
     {
         if (m_timerData != nullptr)
diff --git a/lib/src/io/FdObserver.cpp b/lib/src/io/FdObserver.cpp
index e415d22..79ae15c 100644
--- a/lib/src/io/FdObserver.cpp
+++ b/lib/src/io/FdObserver.cpp
@@ -57,6 +57,15 @@ namespace dots::io::posix
         }
     }
 
+    FdObserver& FdObserver::operator = (FdObserver&& rhs) noexcept
+    {
+        // note: the previous observation has to be cancelled
+        FdObserver observer{ std::move(rhs) };
+        std::swap(m_observerData, observer.m_observerData);
+
+        return *this;
+    }
+
     void FdObserver::discard()
     {
         if (m_observerData != nullptr)
-- 
2.43.0


From 98c7347e075e0d2864441e4bd99c444e010cc576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:28 +0000
Subject: [PATCH 72/72] fix: timers with very long intervals fired immediately

---
 lib/src/Timer.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/src/Timer.cpp b/lib/src/Timer.cpp
index c27c741..54411aa 100644
--- a/lib/src/Timer.cpp
+++ b/lib/src/Timer.cpp
@@ -1,5 +1,6 @@
 // SPDX-License-Identifier: LGPL-3.0-only
 // Copyright 2015-2022 Thomas Schaetzlein <thomas@pnxs.de>, Christopher Gerlach <gerlachch@gmx.com>
+#include <algorithm>
 #include <dots/Timer.h>
 #include <dots/asio.h>
 
@@ -8,6 +9,13 @@ namespace dots
     using timer_t = asio::steady_timer;
     using duration_t = timer_t::clock_type::duration;
 
+    // note: durations that exceed the range of the clock are limited
+    static duration_t clamp_duration(const type::DurationBase& duration)
+    {
+        constexpr type::DurationBase Max = std::chrono::hours{ 24 * 365 * 100 };
+        return std::chrono::duration_cast<duration_t>(std::min(std::max<type::DurationBase>(duration, -Max), Max));
+    }
+
     struct Timer::timer_data
     {
         timer_t timer;
@@ -74,14 +82,14 @@ namespace dots
     void Timer::StartRelative(const std::shared_ptr<timer_data>& timerData)
     {
         type::Duration duration = timerData->interval;
-        timerData->timer.expires_after(std::chrono::duration_cast<duration_t>(duration));
+        timerData->timer.expires_after(clamp_duration(duration));
         AsyncWait(timerData);
     }
 
     void Timer::StartAbsolute(const std::shared_ptr<timer_data>& timerData)
     {
         type::SteadyTimePoint timepoint = timerData->next += timerData->interval;
-        timerData->timer.expires_at(std::chrono::time_point_cast<duration_t>(timepoint));
+        timerData->timer.expires_at(timer_t::time_point{ clamp_duration(timepoint.duration()) });
         AsyncWait(timerData);
     }
 
-- 
2.43.0

