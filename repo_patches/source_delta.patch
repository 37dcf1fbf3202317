From 96b4f872a4195769fa677fda0f9f5f810b8ec55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:48 +0000
Subject: [PATCH 001/153] fix: Never reuse the number of an object freed at
 maximum generation

---
 src/pdfmm/base/PdfIndirectObjectList.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfIndirectObjectList.cpp b/src/pdfmm/base/PdfIndirectObjectList.cpp
index 823f1e6..30a13d8 100644
--- a/src/pdfmm/base/PdfIndirectObjectList.cpp
+++ b/src/pdfmm/base/PdfIndirectObjectList.cpp
@@ -274,7 +274,7 @@ int32_t PdfIndirectObjectList::tryAddFreeObject(uint32_t objnum, uint32_t gennum
     // NOTE: gennum is uint32 to accomodate overflows from callers
     if (gennum >= MaxXRefGenerationNum)
     {
-        m_unavailableObjects.insert(gennum);
+        m_unavailableObjects.insert(objnum);
         return -1;
     }
 
-- 
2.43.0


From a06b8065866db121537981ba031de70033c6b9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:48 +0000
Subject: [PATCH 002/153] fix: Don't truncate new object numbers to 16 bits

---
 src/pdfmm/base/PdfIndirectObjectList.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfIndirectObjectList.cpp b/src/pdfmm/base/PdfIndirectObjectList.cpp
index 30a13d8..c8042ab 100644
--- a/src/pdfmm/base/PdfIndirectObjectList.cpp
+++ b/src/pdfmm/base/PdfIndirectObjectList.cpp
@@ -192,7 +192,7 @@ PdfReference PdfIndirectObjectList::getNextFreeObject()
     }
 
     // If no free objects are available, create a new object with generation 0
-    uint16_t nextObjectNum = static_cast<uint16_t>(m_ObjectCount);
+    uint32_t nextObjectNum = m_ObjectCount;
     while (true)
     {
         if ((size_t)(nextObjectNum + 1) == MaxReserveSize)
-- 
2.43.0


From b655c78961d736159038deabb7a2d061bb84bee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:48 +0000
Subject: [PATCH 003/153] fix: Clear also free objects and object streams when
 clearing the object list

---
 src/pdfmm/base/PdfIndirectObjectList.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pdfmm/base/PdfIndirectObjectList.cpp b/src/pdfmm/base/PdfIndirectObjectList.cpp
index c8042ab..a99d036 100644
--- a/src/pdfmm/base/PdfIndirectObjectList.cpp
+++ b/src/pdfmm/base/PdfIndirectObjectList.cpp
@@ -110,6 +110,9 @@ void PdfIndirectObjectList::Clear()
         delete obj;
 
     m_Objects.clear();
+    m_FreeObjects.clear();
+    m_unavailableObjects.clear();
+    m_objectStreams.clear();
     m_ObjectCount = 1;
     m_StreamFactory = nullptr;
 }
-- 
2.43.0


From 5ee45bfbba9a0aca3a83a6be9dbeae17c3fa736b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:59 +0000
Subject: [PATCH 004/153] fix: Replace only the object with the given
 reference, owned by the document

---
 src/pdfmm/base/PdfIndirectObjectList.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfIndirectObjectList.cpp b/src/pdfmm/base/PdfIndirectObjectList.cpp
index a99d036..dfa0cda 100644
--- a/src/pdfmm/base/PdfIndirectObjectList.cpp
+++ b/src/pdfmm/base/PdfIndirectObjectList.cpp
@@ -160,13 +160,15 @@ unique_ptr<PdfObject> PdfIndirectObjectList::ReplaceObject(const PdfReference& r
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidHandle, "Object must be non null");
 
     auto it = std::lower_bound(m_Objects.begin(), m_Objects.end(), ref, CompareReference);
-    if (it == m_Objects.end())
+    if (it == m_Objects.end() || (*it)->GetIndirectReference() != ref)
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidHandle, "Unable to find object with reference {}", ref.ToString());
 
     auto node = m_Objects.extract(it);
     unique_ptr<PdfObject> ret(node.value());
     node.value() = obj;
+    obj->SetDocument(m_Document);
     obj->SetIndirectReference(ref);
+    obj->SetDirty();
     pushObject(node, obj);
     return ret;
 }
-- 
2.43.0


From c0b1e86885b4f9f8f6f1cc2587e8839f0679e841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:34 +0000
Subject: [PATCH 005/153] fix: Keep the compressed data when compressing
 unfiltered streams on write

---
 src/pdfmm/base/PdfObject.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfObject.cpp b/src/pdfmm/base/PdfObject.cpp
index b9c16f3..52c37d9 100644
--- a/src/pdfmm/base/PdfObject.cpp
+++ b/src/pdfmm/base/PdfObject.cpp
@@ -251,7 +251,7 @@ void PdfObject::Write(OutputStreamDevice& device, PdfWriteFlags writeMode,
                 input.CopyTo(output);
             }
 
-            stream.MoveFrom(*m_Stream);
+            m_Stream->MoveFrom(stream);
         }
 
         // Set length if it's not handled by the underlying provider
-- 
2.43.0


From f2488ec0b91f0f2eec1273ea24327ba12fb55978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:34 +0000
Subject: [PATCH 006/153] fix: Clear the source and not the destination when
 moving object streams

---
 src/pdfmm/base/PdfObjectStream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfObjectStream.cpp b/src/pdfmm/base/PdfObjectStream.cpp
index f29f152..0c65c2d 100644
--- a/src/pdfmm/base/PdfObjectStream.cpp
+++ b/src/pdfmm/base/PdfObjectStream.cpp
@@ -205,7 +205,7 @@ void PdfObjectStream::MoveFrom(PdfObjectStream& rhs)
     {
         auto stream = rhs.GetInputStream(true);
         this->SetData(stream, true);
-        m_Provider->Clear();
+        rhs.m_Provider->Clear();
     }
 
     // Fix the /Filter and /DecodeParms keys for
-- 
2.43.0


From d86f849af2be0dc2d13162fdc583c252601773c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:34 +0000
Subject: [PATCH 007/153] fix: Move the underlying streams when moving object
 input/output streams

---
 src/pdfmm/base/PdfObjectStream.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfObjectStream.cpp b/src/pdfmm/base/PdfObjectStream.cpp
index 0c65c2d..955f63a 100644
--- a/src/pdfmm/base/PdfObjectStream.cpp
+++ b/src/pdfmm/base/PdfObjectStream.cpp
@@ -387,10 +387,12 @@ PdfObjectInputStream::~PdfObjectInputStream()
         m_stream->m_locked = false;
 }
 
-PdfObjectInputStream::PdfObjectInputStream(PdfObjectInputStream&& rhs) noexcept
+PdfObjectInputStream::PdfObjectInputStream(PdfObjectInputStream&& rhs) noexcept :
+    m_input(std::move(rhs.m_input)),
+    m_MediaFilters(std::move(rhs.m_MediaFilters)),
+    m_MediaDecodeParms(std::move(rhs.m_MediaDecodeParms))
 {
     utls::move(rhs.m_stream, m_stream);
-    utls::move(rhs.m_MediaDecodeParms, m_MediaDecodeParms);
 }
 
 PdfObjectInputStream::PdfObjectInputStream(PdfObjectStream& stream, bool raw)
@@ -412,7 +414,16 @@ bool PdfObjectInputStream::readChar(char& ch)
 
 PdfObjectInputStream& PdfObjectInputStream::operator=(PdfObjectInputStream&& rhs) noexcept
 {
+    if (this == &rhs)
+        return *this;
+
+    if (m_stream != nullptr)
+        m_stream->m_locked = false;
+
     utls::move(rhs.m_stream, m_stream);
+    m_input = std::move(rhs.m_input);
+    m_MediaFilters = std::move(rhs.m_MediaFilters);
+    m_MediaDecodeParms = std::move(rhs.m_MediaDecodeParms);
     return *this;
 }
 
@@ -460,7 +471,7 @@ PdfObjectOutputStream::~PdfObjectOutputStream()
 }
 
 PdfObjectOutputStream::PdfObjectOutputStream(PdfObjectOutputStream&& rhs) noexcept
-    : m_filters(std::move(rhs.m_filters))
+    : m_filters(std::move(rhs.m_filters)), m_output(std::move(rhs.m_output))
 {
     utls::move(rhs.m_stream, m_stream);
 }
-- 
2.43.0


From d17f5547154464a50a228ace05bdaeb22045b2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:53 +0000
Subject: [PATCH 008/153] fix: Ignore decode parameters exceeding the filters
 of a stream

---
 src/pdfmm/base/PdfObjectStream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfObjectStream.cpp b/src/pdfmm/base/PdfObjectStream.cpp
index 955f63a..68b0cf5 100644
--- a/src/pdfmm/base/PdfObjectStream.cpp
+++ b/src/pdfmm/base/PdfObjectStream.cpp
@@ -317,7 +317,7 @@ unique_ptr<InputStream> PdfObjectStream::getInputStream(bool raw, PdfFilterList&
             }
             else if (decodeParmsObj->TryGetArray(decodeParmsArr))
             {
-                for (unsigned i = 0; i < decodeParmsArr->GetSize(); i++)
+                for (unsigned i = 0; i < decodeParmsArr->GetSize() && i < decodeParms.size(); i++)
                 {
                     auto decodeParmsEntry = decodeParmsArr->FindAt(i);
                     if (decodeParmsEntry == nullptr || !decodeParmsEntry->TryGetDictionary(decodeParmsDict))
-- 
2.43.0


From c1bd1c931b774e49922669dcd09aa6ce0ece871f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:53 +0000
Subject: [PATCH 009/153] fix: Assign moved streams to their new parent object

---
 src/pdfmm/base/PdfObject.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pdfmm/base/PdfObject.cpp b/src/pdfmm/base/PdfObject.cpp
index 52c37d9..42c6d9c 100644
--- a/src/pdfmm/base/PdfObject.cpp
+++ b/src/pdfmm/base/PdfObject.cpp
@@ -393,6 +393,8 @@ void PdfObject::moveStreamFrom(PdfObject& obj)
 {
     obj.DelayedLoadStream();
     m_Stream = std::move(obj.m_Stream);
+    if (m_Stream != nullptr)
+        m_Stream->m_Parent = this;
 }
 
 void PdfObject::EnableDelayedLoading()
-- 
2.43.0


From e7eb79061bb1a23ee6b969e07742014ffb23ea3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:53 +0000
Subject: [PATCH 010/153] fix: Drop the stream of objects assigned from a value
 without stream

---
 src/pdfmm/base/PdfObject.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pdfmm/base/PdfObject.cpp b/src/pdfmm/base/PdfObject.cpp
index 42c6d9c..065e6c9 100644
--- a/src/pdfmm/base/PdfObject.cpp
+++ b/src/pdfmm/base/PdfObject.cpp
@@ -387,6 +387,10 @@ void PdfObject::copyStreamFrom(const PdfObject& obj)
         auto& stream = getOrCreateStream();
         stream = *obj.m_Stream;
     }
+    else
+    {
+        m_Stream = nullptr;
+    }
 }
 
 void PdfObject::moveStreamFrom(PdfObject& obj)
-- 
2.43.0


From c6b66e96973059bac9d112b2cfb5deb96d8f2966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:40 +0000
Subject: [PATCH 011/153] fix: Keep the parent of array elements moved by
 insertions and resizes

---
 src/pdfmm/base/PdfArray.cpp | 26 +++++++++++++++++++-------
 src/pdfmm/base/PdfArray.h   |  6 +-----
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/pdfmm/base/PdfArray.cpp b/src/pdfmm/base/PdfArray.cpp
index e76d091..3d264b1 100644
--- a/src/pdfmm/base/PdfArray.cpp
+++ b/src/pdfmm/base/PdfArray.cpp
@@ -237,8 +237,19 @@ PdfObject& PdfArray::add(PdfObject&& obj)
 
 PdfArray::iterator PdfArray::insertAt(const iterator& pos, PdfObject&& obj)
 {
+    auto capacity = m_Objects.capacity();
     auto ret = m_Objects.emplace(pos, std::move(obj));
-    ret->SetParent(*this);
+    if (m_Objects.capacity() != capacity || std::next(ret) != m_Objects.end())
+    {
+        // Existing elements have been moved and they
+        // lost their parent
+        setChildrenParent();
+    }
+    else
+    {
+        ret->SetParent(*this);
+    }
+
     return ret;
 }
 
@@ -299,12 +310,7 @@ void PdfArray::Resize(unsigned count, const PdfObject& val)
 {
     size_t currentSize = m_Objects.size();
     m_Objects.resize(count, val);
-    for (size_t i = currentSize; i < count; i++)
-    {
-        auto& obj = m_Objects[i];
-        obj.SetParent(*this);
-    }
-
+    setChildrenParent();
     if (currentSize != count)
         SetDirty();
 }
@@ -312,6 +318,7 @@ void PdfArray::Resize(unsigned count, const PdfObject& val)
 void PdfArray::Reserve(unsigned n)
 {
     m_Objects.reserve(n);
+    setChildrenParent();
 }
 
 PdfObject& PdfArray::operator[](size_type idx)
@@ -370,7 +377,11 @@ void PdfArray::resize(size_t size)
     if (size > numeric_limits<unsigned>::max())
         throw length_error("Too big size");
 #endif
+    size_t currentSize = m_Objects.size();
     m_Objects.resize(size);
+    setChildrenParent();
+    if (currentSize != size)
+        SetDirty();
 }
 
 void PdfArray::reserve(size_t size)
@@ -380,6 +391,7 @@ void PdfArray::reserve(size_t size)
         throw length_error("Too big size");
 #endif
     m_Objects.reserve(size);
+    setChildrenParent();
 }
 
 PdfObject& PdfArray::front()
diff --git a/src/pdfmm/base/PdfArray.h b/src/pdfmm/base/PdfArray.h
index 0b65b56..a6fff49 100644
--- a/src/pdfmm/base/PdfArray.h
+++ b/src/pdfmm/base/PdfArray.h
@@ -379,14 +379,10 @@ void PdfArray::insert(const PdfArray::iterator& pos,
     const InputIterator& first,
     const InputIterator& last)
 {
-    auto document = GetObjectDocument();
     InputIterator it1 = first;
     iterator it2 = pos;
     for (; it1 != last; it1++, it2++)
-    {
-        it2 = m_Objects.insert(it2, *it1);
-        it2->SetDocument(document);
-    }
+        it2 = insertAt(it2, PdfObject(*it1));
 
     SetDirty();
 }
-- 
2.43.0


From 01cfd5aba8f71e226b7ba9f932dca0a0d46798c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:40 +0000
Subject: [PATCH 012/153] fix: Assigning arrays and dictionaries must set the
 owner dirty

---
 src/pdfmm/base/PdfArray.cpp      | 2 ++
 src/pdfmm/base/PdfDictionary.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/pdfmm/base/PdfArray.cpp b/src/pdfmm/base/PdfArray.cpp
index 3d264b1..a3ab8c5 100644
--- a/src/pdfmm/base/PdfArray.cpp
+++ b/src/pdfmm/base/PdfArray.cpp
@@ -67,6 +67,7 @@ PdfArray& PdfArray::operator=(const PdfArray& rhs)
 {
     m_Objects = rhs.m_Objects;
     setChildrenParent();
+    SetDirty();
     return *this;
 }
 
@@ -74,6 +75,7 @@ PdfArray& PdfArray::operator=(PdfArray&& rhs) noexcept
 {
     m_Objects = std::move(rhs.m_Objects);
     setChildrenParent();
+    SetDirty();
     return *this;
 }
 
diff --git a/src/pdfmm/base/PdfDictionary.cpp b/src/pdfmm/base/PdfDictionary.cpp
index 582fd24..c513f6e 100644
--- a/src/pdfmm/base/PdfDictionary.cpp
+++ b/src/pdfmm/base/PdfDictionary.cpp
@@ -30,6 +30,7 @@ PdfDictionary& PdfDictionary::operator=(const PdfDictionary& rhs)
 {
     m_Map = rhs.m_Map;
     setChildrenParent();
+    SetDirty();
     return *this;
 }
 
@@ -37,6 +38,7 @@ PdfDictionary& PdfDictionary::operator=(PdfDictionary&& rhs) noexcept
 {
     m_Map = std::move(rhs.m_Map);
     setChildrenParent();
+    SetDirty();
     return *this;
 }
 
-- 
2.43.0


From e9cc4a4c9eae4cda62af5c6b026ecbccbf75a7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:40 +0000
Subject: [PATCH 013/153] fix: Equality and inequality of objects must agree,
 null is equal only to null

---
 src/pdfmm/base/PdfDictionary.cpp | 4 ++--
 src/pdfmm/base/PdfObject.cpp     | 4 ++--
 src/pdfmm/base/PdfVariant.cpp    | 8 ++++----
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/pdfmm/base/PdfDictionary.cpp b/src/pdfmm/base/PdfDictionary.cpp
index c513f6e..39fd840 100644
--- a/src/pdfmm/base/PdfDictionary.cpp
+++ b/src/pdfmm/base/PdfDictionary.cpp
@@ -53,8 +53,8 @@ bool PdfDictionary::operator==(const PdfDictionary& rhs) const
 
 bool PdfDictionary::operator!=(const PdfDictionary& rhs) const
 {
-    if (this != &rhs)
-        return true;
+    if (this == &rhs)
+        return false;
 
     // We don't check owner
     return m_Map != rhs.m_Map;
diff --git a/src/pdfmm/base/PdfObject.cpp b/src/pdfmm/base/PdfObject.cpp
index 065e6c9..1cdf736 100644
--- a/src/pdfmm/base/PdfObject.cpp
+++ b/src/pdfmm/base/PdfObject.cpp
@@ -843,8 +843,8 @@ bool PdfObject::operator==(const PdfObject& rhs) const
 
 bool PdfObject::operator!=(const PdfObject& rhs) const
 {
-    if (this != &rhs)
-        return true;
+    if (this == &rhs)
+        return false;
 
     if (m_IndirectReference.IsIndirect())
     {
diff --git a/src/pdfmm/base/PdfVariant.cpp b/src/pdfmm/base/PdfVariant.cpp
index 170c458..6d5aa25 100644
--- a/src/pdfmm/base/PdfVariant.cpp
+++ b/src/pdfmm/base/PdfVariant.cpp
@@ -405,7 +405,7 @@ bool PdfVariant::operator==(const PdfVariant& rhs) const
         case PdfDataType::RawData:
             PDFMM_RAISE_ERROR_INFO(PdfErrorCode::NotImplemented, "Equality not yet implemented for RawData");
         case PdfDataType::Null:
-            return m_DataType == PdfDataType::Null;
+            return rhs.m_DataType == PdfDataType::Null;
         case PdfDataType::Unknown:
             return false;
         default:
@@ -415,8 +415,8 @@ bool PdfVariant::operator==(const PdfVariant& rhs) const
 
 bool PdfVariant::operator!=(const PdfVariant& rhs) const
 {
-    if (this != &rhs)
-        return true;
+    if (this == &rhs)
+        return false;
 
     switch (m_DataType)
     {
@@ -488,7 +488,7 @@ bool PdfVariant::operator!=(const PdfVariant& rhs) const
         case PdfDataType::RawData:
             PDFMM_RAISE_ERROR_INFO(PdfErrorCode::NotImplemented, "Disequality not yet implemented for RawData");
         case PdfDataType::Null:
-            return m_DataType != PdfDataType::Null;
+            return rhs.m_DataType != PdfDataType::Null;
         case PdfDataType::Unknown:
             return true;
         default:
-- 
2.43.0


From e90ef87cd7eb7b95ec021fb99dcfa83f4af828e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:40 +0000
Subject: [PATCH 014/153] fix: Allow assigning objects and variants from
 themselves or from their content

---
 src/pdfmm/base/PdfObject.cpp  | 10 ++++++++++
 src/pdfmm/base/PdfVariant.cpp | 14 ++++++--------
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/pdfmm/base/PdfObject.cpp b/src/pdfmm/base/PdfObject.cpp
index 1cdf736..a29033c 100644
--- a/src/pdfmm/base/PdfObject.cpp
+++ b/src/pdfmm/base/PdfObject.cpp
@@ -437,7 +437,12 @@ void PdfObject::SetParent(PdfDataContainer& parent)
 // Objects being assigned always keep current ownership
 void PdfObject::assign(const PdfObject& rhs)
 {
+    if (this == &rhs)
+        return;
+
     rhs.DelayedLoad();
+    // Keep the previous value alive, rhs may be part of it
+    PdfVariant previous(std::move(m_Variant));
     m_Variant = rhs.m_Variant;
     m_IsDelayedLoadDone = true;
     SetVariantOwner();
@@ -449,7 +454,12 @@ void PdfObject::assign(const PdfObject& rhs)
 // Objects being assigned always keep current ownership
 void PdfObject::moveFrom(PdfObject& rhs)
 {
+    if (this == &rhs)
+        return;
+
     rhs.DelayedLoad();
+    // Keep the previous value alive, rhs may be part of it
+    PdfVariant previous(std::move(m_Variant));
     m_Variant = std::move(rhs.m_Variant);
     m_IsDelayedLoadDone = true;
     SetVariantOwner();
diff --git a/src/pdfmm/base/PdfVariant.cpp b/src/pdfmm/base/PdfVariant.cpp
index 6d5aa25..f4abf35 100644
--- a/src/pdfmm/base/PdfVariant.cpp
+++ b/src/pdfmm/base/PdfVariant.cpp
@@ -239,18 +239,16 @@ void PdfVariant::ToString(string& str) const
 
 PdfVariant& PdfVariant::operator=(const PdfVariant& rhs)
 {
-    clear();
-    assign(rhs);
-    return *this;
+    // Copy first: rhs may be this instance or part of its current value
+    return *this = PdfVariant(rhs);
 }
 
 PdfVariant& PdfVariant::operator=(PdfVariant&& rhs) noexcept
 {
-    clear();
-    m_DataType = rhs.m_DataType;
-    m_Data = rhs.m_Data;
-    rhs.m_DataType = PdfDataType::Null;
-    rhs.m_Data = { };
+    // Take the value first: rhs may be part of the current value
+    PdfVariant value(std::move(rhs));
+    std::swap(m_DataType, value.m_DataType);
+    std::swap(m_Data, value.m_Data);
     return *this;
 }
 
-- 
2.43.0


From 9e9cb91c39f8470daaa46043b38e6eba5b252f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:22 +0000
Subject: [PATCH 015/153] fix: appended objects could collide with existing
 object numbers

The displacement was the number of objects, which is lower than the
highest object number when the numbering has gaps.
---
 src/pdfmm/base/PdfDocument.cpp | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/pdfmm/base/PdfDocument.cpp b/src/pdfmm/base/PdfDocument.cpp
index 2b9d3c1..b03892f 100644
--- a/src/pdfmm/base/PdfDocument.cpp
+++ b/src/pdfmm/base/PdfDocument.cpp
@@ -116,12 +116,10 @@ void PdfDocument::AppendDocumentPages(const PdfDocument& doc)
 
 void PdfDocument::append(const PdfDocument& doc, bool appendAll)
 {
-    unsigned difference = static_cast<unsigned>(m_Objects.GetSize() + m_Objects.GetFreeObjects().size());
+    unsigned difference = m_Objects.GetObjectCount() - 1;
 
-    // Because GetNextObject uses m_ObjectCount instead 
-    // of m_Objects.GetSize() + m_Objects.GetFreeObjects().size() + 1
-    // make sure the free objects are already present before appending to
-    // prevent overlapping obj-numbers
+    // NOTE: The numbering of the objects is not necessarily contiguous,
+    // so displace the appended objects by the highest number in use
 
     // create all free objects again, to have a clean free object list
     for (auto& ref : doc.GetObjects().GetFreeObjects())
@@ -201,13 +199,11 @@ void PdfDocument::append(const PdfDocument& doc, bool appendAll)
 void PdfDocument::InsertDocumentPageAt(unsigned atIndex, const PdfDocument& doc, unsigned pageIndex)
 {
     // copy of PdfDocument::Append, only restricts which page to add
-    unsigned difference = static_cast<unsigned>(m_Objects.GetSize() + m_Objects.GetFreeObjects().size());
+    unsigned difference = m_Objects.GetObjectCount() - 1;
 
 
-    // Because GetNextObject uses m_ObjectCount instead 
-    // of m_Objects.GetSize() + m_Objects.GetFreeObjects().size() + 1
-    // make sure the free objects are already present before appending to
-    // prevent overlapping obj-numbers
+    // NOTE: The numbering of the objects is not necessarily contiguous,
+    // so displace the appended objects by the highest number in use
 
     // create all free objects again, to have a clean free object list
     for (auto& freeObj : GetObjects().GetFreeObjects())
@@ -350,7 +346,7 @@ PdfRect PdfDocument::FillXObjectFromPage(PdfXObjectForm& xobj, const PdfPage& pa
     auto& sourceDoc = page.GetDocument();
     if (this != &sourceDoc)
     {
-        difference = static_cast<unsigned>(m_Objects.GetSize() + m_Objects.GetFreeObjects().size());
+        difference = m_Objects.GetObjectCount() - 1;
         append(sourceDoc, false);
     }
 
-- 
2.43.0


From 5620cd1d0864e5367c2c360ba54cab78a8b7fe0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:22 +0000
Subject: [PATCH 016/153] fix: InsertDocumentPageAt copied the objects of the
 wrong document

It never terminated, as it iterated the objects it was adding to.
---
 src/pdfmm/base/PdfDocument.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/pdfmm/base/PdfDocument.cpp b/src/pdfmm/base/PdfDocument.cpp
index b03892f..d103ebd 100644
--- a/src/pdfmm/base/PdfDocument.cpp
+++ b/src/pdfmm/base/PdfDocument.cpp
@@ -122,11 +122,14 @@ void PdfDocument::append(const PdfDocument& doc, bool appendAll)
     // so displace the appended objects by the highest number in use
 
     // create all free objects again, to have a clean free object list
-    for (auto& ref : doc.GetObjects().GetFreeObjects())
+    // NOTE: The document may be this one, hence iterate on copies of the lists
+    vector<PdfReference> freeObjs(doc.GetObjects().GetFreeObjects().begin(), doc.GetObjects().GetFreeObjects().end());
+    for (auto& ref : freeObjs)
         m_Objects.AddFreeObject(PdfReference(ref.ObjectNumber() + difference, ref.GenerationNumber()));
 
     // append all objects first and fix their references
-    for (auto& obj : doc.GetObjects())
+    vector<PdfObject*> sourceObjs(doc.GetObjects().begin(), doc.GetObjects().end());
+    for (auto& obj : sourceObjs)
     {
         PdfReference ref(static_cast<uint32_t>(obj->GetIndirectReference().ObjectNumber() + difference), obj->GetIndirectReference().GenerationNumber());
         auto newObj = new PdfObject(PdfDictionary());
@@ -151,7 +154,8 @@ void PdfDocument::append(const PdfDocument& doc, bool appendAll)
         };
 
         // append all pages now to our page tree
-        for (unsigned i = 0; i < doc.GetPages().GetCount(); i++)
+        unsigned sourcePageCount = doc.GetPages().GetCount();
+        for (unsigned i = 0; i < sourcePageCount; i++)
         {
             auto& page = doc.GetPages().GetPageAt(i);
             auto& obj = m_Objects.MustGetObject(PdfReference(page.GetObject().GetIndirectReference().ObjectNumber()
@@ -205,14 +209,17 @@ void PdfDocument::InsertDocumentPageAt(unsigned atIndex, const PdfDocument& doc,
     // NOTE: The numbering of the objects is not necessarily contiguous,
     // so displace the appended objects by the highest number in use
 
+    // NOTE: The document may be this one, hence iterate on copies of the lists
     // create all free objects again, to have a clean free object list
-    for (auto& freeObj : GetObjects().GetFreeObjects())
+    vector<PdfReference> freeObjs(doc.GetObjects().GetFreeObjects().begin(), doc.GetObjects().GetFreeObjects().end());
+    for (auto& freeObj : freeObjs)
     {
         m_Objects.AddFreeObject(PdfReference(freeObj.ObjectNumber() + difference, freeObj.GenerationNumber()));
     }
 
     // append all objects first and fix their references
-    for (auto& obj : GetObjects())
+    vector<PdfObject*> sourceObjs(doc.GetObjects().begin(), doc.GetObjects().end());
+    for (auto& obj : sourceObjs)
     {
         PdfReference ref(static_cast<uint32_t>(obj->GetIndirectReference().ObjectNumber() + difference), obj->GetIndirectReference().GenerationNumber());
         auto newObj = new PdfObject(PdfDictionary());
@@ -235,7 +242,8 @@ void PdfDocument::InsertDocumentPageAt(unsigned atIndex, const PdfDocument& doc,
     };
 
     // append all pages now to our page tree
-    for (unsigned i = 0; i < doc.GetPages().GetCount(); i++)
+    unsigned sourcePageCount = doc.GetPages().GetCount();
+    for (unsigned i = 0; i < sourcePageCount; i++)
     {
         if (i != pageIndex)
             continue;
-- 
2.43.0


From 518b630f5ae7765842f38b05b20d94adee40e21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:54 +0000
Subject: [PATCH 017/153] fix: imported pages inherited attributes from the
 target page tree

---
 src/pdfmm/base/PdfDocument.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/pdfmm/base/PdfDocument.cpp b/src/pdfmm/base/PdfDocument.cpp
index d103ebd..f969e1e 100644
--- a/src/pdfmm/base/PdfDocument.cpp
+++ b/src/pdfmm/base/PdfDocument.cpp
@@ -109,6 +109,21 @@ void PdfDocument::Init()
         m_AcroForm.reset(new PdfAcroForm(*acroformObj));
 }
 
+// Attributes that are not defined for the source page must
+// not be inherited from the ancestors in the target page tree
+static void preventInheritance(PdfDictionary& pageDict, const PdfDictionary& sourceDict)
+{
+    if (sourceDict.FindKeyParent("Resources") == nullptr && pageDict.FindKeyParent("Resources") != nullptr)
+        pageDict.AddKey("Resources", PdfDictionary());
+
+    if (sourceDict.FindKeyParent("Rotate") == nullptr && pageDict.FindKeyParent("Rotate") != nullptr)
+        pageDict.AddKey("Rotate", static_cast<int64_t>(0));
+
+    auto mediaBox = pageDict.FindKey("MediaBox");
+    if (mediaBox != nullptr && sourceDict.FindKeyParent("CropBox") == nullptr && pageDict.FindKeyParent("CropBox") != nullptr)
+        pageDict.AddKey("CropBox", *mediaBox);
+}
+
 void PdfDocument::AppendDocumentPages(const PdfDocument& doc)
 {
     append(doc, true);
@@ -179,6 +194,7 @@ void PdfDocument::append(const PdfDocument& doc, bool appendAll)
             }
 
             m_Pages->InsertPageAt(m_Pages->GetCount(), obj);
+            preventInheritance(obj.GetDictionary(), page.GetDictionary());
         }
 
         // append all outlines
@@ -270,6 +286,7 @@ void PdfDocument::InsertDocumentPageAt(unsigned atIndex, const PdfDocument& doc,
         }
 
         m_Pages->InsertPageAt(atIndex, obj);
+        preventInheritance(obj.GetDictionary(), page.GetDictionary());
     }
 
     // append all outlines
-- 
2.43.0


From dad29da5b6b9be04190279d365f418df6d133774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:33 +0000
Subject: [PATCH 018/153] fix: appending outlines: missing outlines in the
 target, links of the appended items

Appending to a document without outlines dereferenced a null pointer, while the
appended items kept the /Parent of the source document and all but the first one
were not reachable from /Last. Also determine the last child of loaded items,
otherwise children created in loaded outlines were not linked to the existing ones.
---
 src/pdfmm/base/PdfDocument.cpp | 12 ++----------
 src/pdfmm/base/PdfOutlines.cpp | 29 +++++++++++++++++++++++++++++
 src/pdfmm/base/PdfOutlines.h   |  8 ++++++++
 3 files changed, 39 insertions(+), 10 deletions(-)

diff --git a/src/pdfmm/base/PdfDocument.cpp b/src/pdfmm/base/PdfDocument.cpp
index f969e1e..7cb67f7 100644
--- a/src/pdfmm/base/PdfDocument.cpp
+++ b/src/pdfmm/base/PdfDocument.cpp
@@ -198,17 +198,13 @@ void PdfDocument::append(const PdfDocument& doc, bool appendAll)
         }
 
         // append all outlines
-        PdfOutlineItem* root = this->GetOutlines();
         PdfOutlines* appendRoot = const_cast<PdfDocument&>(doc).GetOutlines();
         if (appendRoot && appendRoot->First())
         {
             // only append outlines if appended document has outlines
-            while (root && root->Next())
-                root = root->Next();
-
             PdfReference ref(appendRoot->First()->GetObject().GetIndirectReference().ObjectNumber()
                 + difference, appendRoot->First()->GetObject().GetIndirectReference().GenerationNumber());
-            root->InsertChild(new PdfOutlines(m_Objects.MustGetObject(ref)));
+            GetOrCreateOutlines().appendItems(m_Objects.MustGetObject(ref));
         }
     }
 
@@ -290,17 +286,13 @@ void PdfDocument::InsertDocumentPageAt(unsigned atIndex, const PdfDocument& doc,
     }
 
     // append all outlines
-    PdfOutlineItem* root = this->GetOutlines();
     PdfOutlines* appendRoot = const_cast<PdfDocument&>(doc).GetOutlines();
     if (appendRoot != nullptr && appendRoot->First())
     {
         // only append outlines if appended document has outlines
-        while (root != nullptr && root->Next())
-            root = root->Next();
-
         PdfReference ref(appendRoot->First()->GetObject().GetIndirectReference().ObjectNumber()
             + difference, appendRoot->First()->GetObject().GetIndirectReference().GenerationNumber());
-        root->InsertChild(new PdfOutlines(m_Objects.MustGetObject(ref)));
+        GetOrCreateOutlines().appendItems(m_Objects.MustGetObject(ref));
     }
 
     // TODO: merge name trees
diff --git a/src/pdfmm/base/PdfOutlines.cpp b/src/pdfmm/base/PdfOutlines.cpp
index 6df8ed7..a050d37 100644
--- a/src/pdfmm/base/PdfOutlines.cpp
+++ b/src/pdfmm/base/PdfOutlines.cpp
@@ -53,6 +53,9 @@ PdfOutlineItem::PdfOutlineItem(PdfObject& obj, PdfOutlineItem* parentOutline, Pd
     {
         first = this->GetObject().GetDictionary().GetKey("First")->GetReference();
         m_First = new PdfOutlineItem(obj.GetDocument()->GetObjects().MustGetObject(first), this, nullptr);
+        m_Last = m_First;
+        while (m_Last->m_Next != nullptr)
+            m_Last = m_Last->m_Next;
     }
 
     if (this->GetObject().GetDictionary().HasKey("Next"))
@@ -139,6 +142,32 @@ void PdfOutlineItem::InsertChildInternal(PdfOutlineItem* item, bool checkParent)
     this->GetObject().GetDictionary().AddKey("Last", m_Last->GetObject().GetIndirectReference());
 }
 
+void PdfOutlineItem::appendItems(PdfObject& obj)
+{
+    // NOTE: The following siblings are loaded as well
+    auto item = new PdfOutlineItem(obj, this, nullptr);
+    if (m_Last == nullptr)
+    {
+        this->SetFirst(item);
+    }
+    else
+    {
+        item->SetPrevious(m_Last);
+        m_Last->SetNext(item);
+    }
+
+    while (true)
+    {
+        item->GetObject().GetDictionary().AddKey("Parent", this->GetObject().GetIndirectReference());
+        if (item->m_Next == nullptr)
+            break;
+
+        item = item->m_Next;
+    }
+
+    this->SetLast(item);
+}
+
 PdfOutlineItem* PdfOutlineItem::CreateNext(const PdfString& title, const shared_ptr<PdfDestination>& dest)
 {
     PdfOutlineItem* item = new PdfOutlineItem(*this->GetObject().GetDocument(), title, dest, m_ParentOutline);
diff --git a/src/pdfmm/base/PdfOutlines.h b/src/pdfmm/base/PdfOutlines.h
index 1db0e43..1b1f885 100644
--- a/src/pdfmm/base/PdfOutlines.h
+++ b/src/pdfmm/base/PdfOutlines.h
@@ -42,6 +42,8 @@ enum class PdfOutlineFormat
  */
 class PDFMM_API PdfOutlineItem : public PdfDictionaryElement
 {
+    friend class PdfDocument;
+
 public:
     virtual ~PdfOutlineItem();
 
@@ -195,6 +197,12 @@ private:
 
     void InsertChildInternal(PdfOutlineItem* item, bool checkParent);
 
+    /** Append an existing item, together with its following
+     *  siblings, to the children of this item
+     *  \param obj the object of the first item to append
+     */
+    void appendItems(PdfObject& obj);
+
 protected:
     /** Create a new PdfOutlineItem dictionary
      *  \param parent parent vector of objects
-- 
2.43.0


From 042ea99be4d165f1b04a8cde0eb4f8b7239c43b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:33 +0000
Subject: [PATCH 019/153] fix: PdfOutlineItem::InsertChild did not set the
 parent nor refuse items of the same tree

---
 src/pdfmm/base/PdfOutlines.cpp | 42 +++++++++++-----------------------
 1 file changed, 13 insertions(+), 29 deletions(-)

diff --git a/src/pdfmm/base/PdfOutlines.cpp b/src/pdfmm/base/PdfOutlines.cpp
index a050d37..82644de 100644
--- a/src/pdfmm/base/PdfOutlines.cpp
+++ b/src/pdfmm/base/PdfOutlines.cpp
@@ -91,39 +91,20 @@ void PdfOutlineItem::InsertChild(PdfOutlineItem* item)
 
 void PdfOutlineItem::InsertChildInternal(PdfOutlineItem* item, bool checkParent)
 {
-    PdfOutlineItem* itemToCheckParent = item;
-    PdfOutlineItem* root = nullptr;
-    PdfOutlineItem* rootOfThis = nullptr;
-
-    if (itemToCheckParent == nullptr)
+    if (item == nullptr)
         return;
 
     if (checkParent)
     {
-        while (itemToCheckParent != nullptr)
-        {
-            while (itemToCheckParent->GetParentOutline())
-                itemToCheckParent = itemToCheckParent->GetParentOutline();
-
-            if (itemToCheckParent == item) // item can't have a parent
-            {
-                root = item; // needed later, "root" can mean "standalone" here
-                break;         // for performance in standalone or doc-merge case
-            }
-
-            if (root == nullptr)
-            {
-                rootOfThis = itemToCheckParent;
-                itemToCheckParent = nullptr;
-            }
-            else
-            {
-                root = itemToCheckParent;
-                itemToCheckParent = this;
-            }
-        }
-
-        if (root == rootOfThis) // later nullptr if check skipped for performance
+        PdfOutlineItem* rootOfItem = item;
+        while (rootOfItem->GetParentOutline() != nullptr)
+            rootOfItem = rootOfItem->GetParentOutline();
+
+        PdfOutlineItem* rootOfThis = this;
+        while (rootOfThis->GetParentOutline() != nullptr)
+            rootOfThis = rootOfThis->GetParentOutline();
+
+        if (rootOfItem == rootOfThis)
             PDFMM_RAISE_ERROR(PdfErrorCode::OutlineItemAlreadyPresent);
     }
 
@@ -133,6 +114,9 @@ void PdfOutlineItem::InsertChildInternal(PdfOutlineItem* item, bool checkParent)
         item->SetPrevious(m_Last);
     }
 
+    item->m_ParentOutline = this;
+    item->GetObject().GetDictionary().AddKey("Parent", this->GetObject().GetIndirectReference());
+
     m_Last = item;
 
     if (m_First == nullptr)
-- 
2.43.0


From 2d54fe9bffb4b7f4e38ac7aac69f8fada1f03c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:33 +0000
Subject: [PATCH 020/153] fix: PdfOutlineItem::Erase did not remove the object
 as documented

---
 src/pdfmm/base/PdfOutlines.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pdfmm/base/PdfOutlines.cpp b/src/pdfmm/base/PdfOutlines.cpp
index 82644de..fd977c2 100644
--- a/src/pdfmm/base/PdfOutlines.cpp
+++ b/src/pdfmm/base/PdfOutlines.cpp
@@ -257,7 +257,10 @@ void PdfOutlineItem::Erase()
         m_ParentOutline->SetLast(m_Prev);
 
     m_Next = nullptr;
+    auto& objects = this->GetDocument().GetObjects();
+    auto ref = this->GetObject().GetIndirectReference();
     delete this;
+    (void)objects.RemoveObject(ref);
 }
 
 void PdfOutlineItem::SetDestination(const shared_ptr<PdfDestination>& dest)
-- 
2.43.0


From 4167daf04c7469e9dd55e750058908608593dcd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:33 +0000
Subject: [PATCH 021/153] fix: stale page index after inserting or removing
 other pages

---
 src/pdfmm/base/PdfPage.h            |  1 +
 src/pdfmm/base/PdfPageTreeCache.cpp | 12 ++++++++++++
 src/pdfmm/base/PdfPageTreeCache.h   |  5 +++++
 3 files changed, 18 insertions(+)

diff --git a/src/pdfmm/base/PdfPage.h b/src/pdfmm/base/PdfPage.h
index e8950bd..7d128b1 100644
--- a/src/pdfmm/base/PdfPage.h
+++ b/src/pdfmm/base/PdfPage.h
@@ -46,6 +46,7 @@ struct PdfTextExtractParams
 class PDFMM_API PdfPage final : public PdfDictionaryElement, public PdfCanvas
 {
     PDFMM_UNIT_TEST(PdfPageTest);
+    friend class PdfPageTreeCache;
     friend class PdfPageCollection;
 
 private:
diff --git a/src/pdfmm/base/PdfPageTreeCache.cpp b/src/pdfmm/base/PdfPageTreeCache.cpp
index 46f6bad..31b2a95 100644
--- a/src/pdfmm/base/PdfPageTreeCache.cpp
+++ b/src/pdfmm/base/PdfPageTreeCache.cpp
@@ -67,6 +67,8 @@ void PdfPageTreeCache::InsertPlaceHolders(unsigned atIndex, unsigned count)
 
     for (unsigned i = 0; i < count; i++)
         m_PageObjs.insert(m_PageObjs.begin() + atIndex + i, static_cast<PdfPage*>(nullptr));
+
+    updateIndices(atIndex + count);
 }
 
 void PdfPageTreeCache::DeletePage(unsigned atIndex)
@@ -76,6 +78,16 @@ void PdfPageTreeCache::DeletePage(unsigned atIndex)
 
     delete m_PageObjs[atIndex];
     m_PageObjs.erase(m_PageObjs.begin() + atIndex);
+    updateIndices(atIndex);
+}
+
+void PdfPageTreeCache::updateIndices(unsigned fromIndex)
+{
+    for (unsigned i = fromIndex; i < m_PageObjs.size(); i++)
+    {
+        if (m_PageObjs[i] != nullptr)
+            m_PageObjs[i]->m_Index = i;
+    }
 }
 
 void PdfPageTreeCache::ClearCache()
diff --git a/src/pdfmm/base/PdfPageTreeCache.h b/src/pdfmm/base/PdfPageTreeCache.h
index cd01bf1..dfb4691 100644
--- a/src/pdfmm/base/PdfPageTreeCache.h
+++ b/src/pdfmm/base/PdfPageTreeCache.h
@@ -73,6 +73,11 @@ public:
      */
     void ClearCache();
 
+private:
+    /** Update the index of the cached pages, starting from the given index
+     */
+    void updateIndices(unsigned fromIndex);
+
 private:
     List m_PageObjs;
 };
-- 
2.43.0


From 7f972f7582c51ab352e963eb4b28cae962ff3c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:33 +0000
Subject: [PATCH 022/153] fix: inherited page resources were looked up only in
 one ancestor

---
 src/pdfmm/base/PdfPage.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfPage.cpp b/src/pdfmm/base/PdfPage.cpp
index 04bc157..1bb7270 100644
--- a/src/pdfmm/base/PdfPage.cpp
+++ b/src/pdfmm/base/PdfPage.cpp
@@ -516,8 +516,9 @@ PdfResources* getResources(PdfObject& obj, const deque<PdfObject*>& listOfParent
     if (resources == nullptr)
     {
         // Resources might be inherited
-        for (auto& parent : listOfParents)
-            resources = parent->GetDictionary().FindKey("Resources");
+        // NOTE: The parents are listed starting from the root
+        for (auto it = listOfParents.rbegin(); it != listOfParents.rend() && resources == nullptr; it++)
+            resources = (*it)->GetDictionary().FindKey("Resources");
     }
 
     if (resources == nullptr)
-- 
2.43.0


From 90b7471de7c0f597a3ce263311e9e90f991ca214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:33 +0000
Subject: [PATCH 023/153] fix: exception when the page rotation is not an
 integer number

---
 src/pdfmm/base/PdfPage.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfPage.cpp b/src/pdfmm/base/PdfPage.cpp
index 1bb7270..819de52 100644
--- a/src/pdfmm/base/PdfPage.cpp
+++ b/src/pdfmm/base/PdfPage.cpp
@@ -196,8 +196,8 @@ int PdfPage::GetRotationRaw() const
     int rot = 0;
 
     auto obj = GetDictionary().FindKeyParent("Rotate");
-    if (obj != nullptr && (obj->IsNumber() || obj->GetReal()))
-        rot = static_cast<int>(obj->GetNumber());
+    if (obj != nullptr && obj->IsNumberOrReal())
+        rot = static_cast<int>(obj->GetReal());
 
     return rot;
 }
-- 
2.43.0


From 1525b9a8d03044ee49135d3498a55eaca9d35f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:33 +0000
Subject: [PATCH 024/153] fix: AppendDocumentPages did not check the range of
 pages

---
 src/pdfmm/base/PdfDocument.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfDocument.cpp b/src/pdfmm/base/PdfDocument.cpp
index 7cb67f7..8ccd5d2 100644
--- a/src/pdfmm/base/PdfDocument.cpp
+++ b/src/pdfmm/base/PdfDocument.cpp
@@ -320,10 +320,14 @@ void PdfDocument::AppendDocumentPages(const PdfDocument& doc, unsigned pageIndex
     // then offset them based on where the pages were inserted
     // NOTE: some of this will change if/when we support insertion at locations
     //       OTHER than the end of the document!
+    unsigned sourcePageCount = doc.GetPages().GetCount();
+    if (pageIndex > sourcePageCount || pageCount > sourcePageCount - pageIndex)
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::ValueOutOfRange, "The page range exceeds the pages of the document");
+
     unsigned leftStartPage = 0;
     unsigned leftCount = pageIndex;
     unsigned rightStartPage = pageIndex + pageCount;
-    unsigned rightCount = doc.GetPages().GetCount() - rightStartPage;
+    unsigned rightCount = sourcePageCount - rightStartPage;
     unsigned pageOffset = this->GetPages().GetCount();
 
     leftStartPage += pageOffset;
-- 
2.43.0


From e4124d21c306548738493875421679ebc22c4765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:06 +0000
Subject: [PATCH 025/153] fix: PdfPage::MoveAt never terminated

Move the page node in the tree, instead of copying the whole document.
---
 src/pdfmm/base/PdfPage.cpp           | 17 +++--------
 src/pdfmm/base/PdfPageCollection.cpp | 44 ++++++++++++++++++++++++++++
 src/pdfmm/base/PdfPageCollection.h   |  4 +++
 src/pdfmm/base/PdfPageTreeCache.cpp  | 12 ++++++--
 src/pdfmm/base/PdfPageTreeCache.h    |  7 +++++
 5 files changed, 69 insertions(+), 15 deletions(-)

diff --git a/src/pdfmm/base/PdfPage.cpp b/src/pdfmm/base/PdfPage.cpp
index 819de52..7ee0a74 100644
--- a/src/pdfmm/base/PdfPage.cpp
+++ b/src/pdfmm/base/PdfPage.cpp
@@ -212,20 +212,11 @@ void PdfPage::SetRotationRaw(int rotation)
 
 void PdfPage::MoveAt(unsigned index)
 {
-    // TODO: CHECK-ME FOR CORRECT WORKING
-    auto& doc = GetDocument();
-    auto& pages = doc.GetPages();
-    unsigned fromIndex = m_Index;
-    pages.InsertDocumentPageAt(index, doc, m_Index);
-    if (index < fromIndex)
-    {
-        // If we inserted the page before the old 
-        // position we have to increment the from position
-        fromIndex++;
-    }
+    GetDocument().GetPages().movePage(m_Index, index);
 
-    pages.RemovePageAt(fromIndex);
-    m_Index = fromIndex;
+    // The resources, if inherited, may now be in the page itself
+    auto resources = GetDictionary().FindKeyParent("Resources");
+    m_Resources.reset(resources == nullptr ? nullptr : new PdfResources(*resources));
 }
 
 PdfField& PdfPage::CreateField(const string_view& name, PdfFieldType fieldType, const PdfRect& rect)
diff --git a/src/pdfmm/base/PdfPageCollection.cpp b/src/pdfmm/base/PdfPageCollection.cpp
index 8ac90ad..be001c1 100644
--- a/src/pdfmm/base/PdfPageCollection.cpp
+++ b/src/pdfmm/base/PdfPageCollection.cpp
@@ -230,6 +230,50 @@ void PdfPageCollection::RemovePageAt(unsigned atIndex)
     GetDocument().GetCatalog().GetDictionary().RemoveKey("OpenAction");
 }
 
+void PdfPageCollection::movePage(unsigned fromIndex, unsigned toIndex)
+{
+    unsigned pageCount = this->GetCount();
+    if (fromIndex >= pageCount)
+        PDFMM_RAISE_ERROR(PdfErrorCode::PageNotFound);
+
+    if (toIndex >= pageCount)
+        toIndex = pageCount - 1;
+
+    if (fromIndex == toIndex)
+        return;
+
+    PdfObjectList parents;
+    auto pageNode = this->getPageNode(fromIndex, this->GetRoot(), parents);
+    if (pageNode == nullptr || parents.size() == 0)
+        PDFMM_RAISE_ERROR(PdfErrorCode::PageNotFound);
+
+    // The page may get other ancestors, so make the inherited attributes explicit
+    auto& pageDict = pageNode->GetDictionary();
+    for (auto name : { "Resources", "MediaBox", "CropBox", "Rotate" })
+    {
+        auto attribute = pageDict.FindKeyParent(name);
+        if (attribute != nullptr && !pageDict.HasKey(name))
+            pageDict.AddKeyIndirectSafe(name, *attribute);
+    }
+
+    PdfDictionary oldAttributes = pageDict;
+    auto page = m_cache.TakePage(fromIndex);
+    auto parent = parents.back();
+    deletePageFromNode(*parent, parents, (unsigned)this->getPosInKids(*pageNode, parent), *pageNode);
+    this->InsertPageAt(toIndex, *pageNode);
+    if (page != nullptr)
+        m_cache.SetPage(toIndex, page);
+
+    // Don't inherit attributes that were not defined previously
+    if (!oldAttributes.HasKey("Resources") && pageDict.FindKeyParent("Resources") != nullptr)
+        pageDict.AddKey("Resources", PdfDictionary());
+    if (!oldAttributes.HasKey("Rotate") && pageDict.FindKeyParent("Rotate") != nullptr)
+        pageDict.AddKey("Rotate", static_cast<int64_t>(0));
+    auto mediaBox = pageDict.FindKey("MediaBox");
+    if (mediaBox != nullptr && !oldAttributes.HasKey("CropBox") && pageDict.FindKeyParent("CropBox") != nullptr)
+        pageDict.AddKey("CropBox", *mediaBox);
+}
+
 PdfObject* PdfPageCollection::getPageNode(unsigned index, PdfObject& parent,
     PdfObjectList& parents)
 {
diff --git a/src/pdfmm/base/PdfPageCollection.h b/src/pdfmm/base/PdfPageCollection.h
index 2d19fc5..7d2a409 100644
--- a/src/pdfmm/base/PdfPageCollection.h
+++ b/src/pdfmm/base/PdfPageCollection.h
@@ -140,6 +140,10 @@ private:
 
     PdfObject* getPageNode(unsigned index, PdfObject& parent, PdfObjectList& parents);
 
+    /** Move a page, preserving the attributes it inherits
+     */
+    void movePage(unsigned fromIndex, unsigned toIndex);
+
     unsigned getChildCount(const PdfObject& nodeObj) const;
 
     /**
diff --git a/src/pdfmm/base/PdfPageTreeCache.cpp b/src/pdfmm/base/PdfPageTreeCache.cpp
index 31b2a95..1d7fc5f 100644
--- a/src/pdfmm/base/PdfPageTreeCache.cpp
+++ b/src/pdfmm/base/PdfPageTreeCache.cpp
@@ -37,6 +37,8 @@ void PdfPageTreeCache::SetPage(unsigned atIndex, PdfPage* page)
         m_PageObjs.resize((size_t)atIndex + 1);
 
     m_PageObjs[atIndex] = page;
+    if (page != nullptr)
+        page->m_Index = atIndex;
 }
 
 void PdfPageTreeCache::SetPages(unsigned atIndex, const vector<PdfPage*>& pages)
@@ -72,13 +74,19 @@ void PdfPageTreeCache::InsertPlaceHolders(unsigned atIndex, unsigned count)
 }
 
 void PdfPageTreeCache::DeletePage(unsigned atIndex)
+{
+    delete TakePage(atIndex);
+}
+
+PdfPage* PdfPageTreeCache::TakePage(unsigned atIndex)
 {
     if (atIndex >= m_PageObjs.size())
-        return;
+        return nullptr;
 
-    delete m_PageObjs[atIndex];
+    auto page = m_PageObjs[atIndex];
     m_PageObjs.erase(m_PageObjs.begin() + atIndex);
     updateIndices(atIndex);
+    return page;
 }
 
 void PdfPageTreeCache::updateIndices(unsigned fromIndex)
diff --git a/src/pdfmm/base/PdfPageTreeCache.h b/src/pdfmm/base/PdfPageTreeCache.h
index dfb4691..85cc5b0 100644
--- a/src/pdfmm/base/PdfPageTreeCache.h
+++ b/src/pdfmm/base/PdfPageTreeCache.h
@@ -67,6 +67,13 @@ public:
      */
     void DeletePage(unsigned atIndex);
 
+    /**
+     * Remove a PdfPage from the cache without deleting it
+     * \param atIndex index of the page
+     * \returns the page, or nullptr if it's not cached
+     */
+    PdfPage* TakePage(unsigned atIndex);
+
     /**
      * Clear cache, i.e. remove all elements from the
      * cache.
-- 
2.43.0


From 90de1127b14dfd37f2ac71c8a457441f3e0094e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:16 +0000
Subject: [PATCH 026/153] fix: page boxes that are not inheritable were
 inherited

---
 src/pdfmm/base/PdfPage.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfPage.cpp b/src/pdfmm/base/PdfPage.cpp
index 7ee0a74..a5add79 100644
--- a/src/pdfmm/base/PdfPage.cpp
+++ b/src/pdfmm/base/PdfPage.cpp
@@ -166,7 +166,9 @@ PdfRect PdfPage::getPageBox(const string_view& inBox) const
     PdfRect	pageBox;
 
     // Take advantage of inherited values - walking up the tree if necessary
-    auto obj = GetDictionary().FindKeyParent(inBox);
+    // NOTE: Only /MediaBox and /CropBox are inheritable
+    auto obj = inBox == "MediaBox" || inBox == "CropBox"
+        ? GetDictionary().FindKeyParent(inBox) : GetDictionary().FindKey(inBox);
 
     // assign the value of the box from the array
     if (obj != nullptr && obj->IsArray())
-- 
2.43.0


From c4a0a697a559b4bd02ea9dc231153ef82d894967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:16 +0000
Subject: [PATCH 027/153] fix: changing the size of a page modified the
 inherited boxes of other pages

---
 src/pdfmm/base/PdfPage.cpp | 39 +++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/src/pdfmm/base/PdfPage.cpp b/src/pdfmm/base/PdfPage.cpp
index a5add79..5e84ffc 100644
--- a/src/pdfmm/base/PdfPage.cpp
+++ b/src/pdfmm/base/PdfPage.cpp
@@ -236,26 +236,26 @@ PdfField& PdfPage::createField(const string_view& name, const type_info& typeInf
 bool PdfPage::SetPageWidth(int newWidth)
 {
     // Take advantage of inherited values - walking up the tree if necessary
+    // NOTE: Inherited boxes are overridden and not modified, as other pages share them
     auto mediaBoxObj = GetDictionary().FindKeyParent("MediaBox");
 
     // assign the value of the box from the array
     if (mediaBoxObj != nullptr && mediaBoxObj->IsArray())
     {
-        auto& mediaBoxArr = mediaBoxObj->GetArray();
-
-        // in PdfRect::FromArray(), the Left value is subtracted from Width
-        double dLeftMediaBox = mediaBoxArr[0].GetReal();
-        mediaBoxArr[2] = PdfObject(newWidth + dLeftMediaBox);
+        PdfRect mediaBox(mediaBoxObj->GetArray());
+        mediaBox.SetWidth(newWidth);
+        SetMediaBox(mediaBox);
 
         // Take advantage of inherited values - walking up the tree if necessary
         auto cropBoxObj = GetDictionary().FindKeyParent("CropBox");
 
         if (cropBoxObj != nullptr && cropBoxObj->IsArray())
         {
-            auto& cropBoxArr = cropBoxObj->GetArray();
-            // in PdfRect::FromArray(), the Left value is subtracted from Width
-            double dLeftCropBox = cropBoxArr[0].GetReal();
-            cropBoxArr[2] = PdfObject(newWidth + dLeftCropBox);
+            PdfRect cropBox(cropBoxObj->GetArray());
+            cropBox.SetWidth(newWidth);
+            PdfArray cropBoxArr;
+            cropBox.ToArray(cropBoxArr);
+            GetDictionary().AddKey("CropBox", cropBoxArr);
             return true;
         }
         else
@@ -272,25 +272,26 @@ bool PdfPage::SetPageWidth(int newWidth)
 bool PdfPage::SetPageHeight(int newHeight)
 {
     // Take advantage of inherited values - walking up the tree if necessary
-    auto obj = GetDictionary().FindKeyParent("MediaBox");
+    // NOTE: Inherited boxes are overridden and not modified, as other pages share them
+    auto mediaBoxObj = GetDictionary().FindKeyParent("MediaBox");
 
     // assign the value of the box from the array
-    if (obj != nullptr && obj->IsArray())
+    if (mediaBoxObj != nullptr && mediaBoxObj->IsArray())
     {
-        auto& mediaBoxArr = obj->GetArray();
-        // in PdfRect::FromArray(), the Bottom value is subtracted from Height
-        double bottom = mediaBoxArr[1].GetReal();
-        mediaBoxArr[3] = PdfObject(newHeight + bottom);
+        PdfRect mediaBox(mediaBoxObj->GetArray());
+        mediaBox.SetHeight(newHeight);
+        SetMediaBox(mediaBox);
 
         // Take advantage of inherited values - walking up the tree if necessary
         auto cropBoxObj = GetDictionary().FindKeyParent("CropBox");
 
         if (cropBoxObj != nullptr && cropBoxObj->IsArray())
         {
-            auto& cropBoxArr = cropBoxObj->GetArray();
-            // in PdfRect::FromArray(), the Bottom value is subtracted from Height
-            double dBottomCropBox = cropBoxArr[1].GetReal();
-            cropBoxArr[3] = PdfObject(newHeight + dBottomCropBox);
+            PdfRect cropBox(cropBoxObj->GetArray());
+            cropBox.SetHeight(newHeight);
+            PdfArray cropBoxArr;
+            cropBox.ToArray(cropBoxArr);
+            GetDictionary().AddKey("CropBox", cropBoxArr);
             return true;
         }
         else
-- 
2.43.0


From 3be1fa40a5d99faa52247f4b77f56dc8f29390a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:37 +0000
Subject: [PATCH 028/153] fix: keep the encryption key of loaded documents when
 saving them

---
 src/pdfmm/base/PdfEncrypt.cpp |  8 ++++++--
 src/pdfmm/base/PdfEncrypt.h   |  7 +++++++
 src/pdfmm/base/PdfWriter.cpp  | 12 +++++++++---
 3 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/pdfmm/base/PdfEncrypt.cpp b/src/pdfmm/base/PdfEncrypt.cpp
index 507a095..ae63e55 100644
--- a/src/pdfmm/base/PdfEncrypt.cpp
+++ b/src/pdfmm/base/PdfEncrypt.cpp
@@ -401,11 +401,13 @@ PdfEncrypt::~PdfEncrypt() { }
 void PdfEncrypt::GenerateEncryptionKey(const PdfString& documentId)
 {
     GenerateEncryptionKey(documentId.GetRawData());
+    m_Authenticated = false;
 }
 
 bool PdfEncrypt::Authenticate(const string_view& password, const PdfString& documentId)
 {
-    return Authenticate(password, documentId.GetRawData());
+    m_Authenticated = Authenticate(password, documentId.GetRawData());
+    return m_Authenticated;
 }
 
 PdfEncryptAlgorithm PdfEncrypt::GetEnabledEncryptionAlgorithms()
@@ -582,7 +584,8 @@ PdfEncrypt::PdfEncrypt() :
     m_keyLength(0),
     m_rValue(0),
     m_pValue(PdfPermissions::None),
-    m_EncryptMetadata(true)
+    m_EncryptMetadata(true),
+    m_Authenticated(false)
 {
     memset(m_uValue, 0, 48);
     memset(m_oValue, 0, 48);
@@ -603,6 +606,7 @@ PdfEncrypt::PdfEncrypt(const PdfEncrypt& rhs)
     m_userPass = rhs.m_userPass;
     m_ownerPass = rhs.m_ownerPass;
     m_EncryptMetadata = rhs.m_EncryptMetadata;
+    m_Authenticated = rhs.m_Authenticated;
 }
 
 bool PdfEncrypt::CheckKey(unsigned char key1[32], unsigned char key2[32])
diff --git a/src/pdfmm/base/PdfEncrypt.h b/src/pdfmm/base/PdfEncrypt.h
index d4cb626..165eb89 100644
--- a/src/pdfmm/base/PdfEncrypt.h
+++ b/src/pdfmm/base/PdfEncrypt.h
@@ -234,6 +234,11 @@ public:
      */
     bool Authenticate(const std::string_view& password, const PdfString& documentId);
 
+    /** Check if the encryption key was obtained by a successful
+     * authentication, instead of being generated
+     */
+    inline bool IsAuthenticated() const { return m_Authenticated; }
+
     /** Get the encryption algorithm of this object.
      * \returns the PdfEncryptAlgorithm of this object
      */
@@ -400,6 +405,8 @@ protected:
     bool m_EncryptMetadata;            // Is metadata encrypted
 
 private:
+    bool m_Authenticated;              // The encryption key was obtained by authentication
+
     static PdfEncryptAlgorithm s_EnabledEncryptionAlgorithms; // Or'ed int containing the enabled encryption algorithms
 };
 
diff --git a/src/pdfmm/base/PdfWriter.cpp b/src/pdfmm/base/PdfWriter.cpp
index f6ba8d3..edaadca 100644
--- a/src/pdfmm/base/PdfWriter.cpp
+++ b/src/pdfmm/base/PdfWriter.cpp
@@ -76,7 +76,11 @@ void PdfWriter::Write(OutputStreamDevice& device)
     // setup encrypt dictionary
     if (m_Encrypt != nullptr)
     {
-        m_Encrypt->GenerateEncryptionKey(m_identifier);
+        // NOTE: Keep the key of documents that were loaded encrypted: the
+        // passwords are not all known, and incremental updates preserve
+        // objects that were encrypted with it
+        if (!m_Encrypt->IsAuthenticated())
+            m_Encrypt->GenerateEncryptionKey(m_identifier);
 
         // Add our own Encryption dictionary
         m_EncryptObj = &m_Objects->CreateDictionaryObject();
@@ -199,8 +203,10 @@ void PdfWriter::FillTrailerObject(PdfObject& trailer, size_t size, bool onlySize
             trailer.GetDictionary().AddKey(PdfName("Encrypt"), m_EncryptObj->GetIndirectReference());
 
         PdfArray array;
-        // The ID is the same unless the PDF was incrementally updated
-        if (m_IncrementalUpdate && !m_originalIdentifier.IsEmpty())
+        // The ID is the same unless the PDF was incrementally updated, or
+        // the key was derived from the identifier of the loaded document
+        if ((m_IncrementalUpdate || (m_Encrypt != nullptr && m_Encrypt->IsAuthenticated()))
+            && !m_originalIdentifier.IsEmpty())
             array.Add(m_originalIdentifier);
         else
             array.Add(m_identifier);
-- 
2.43.0


From b5f20772855ff88a0a3c4ab934f7a66dab975e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:37 +0000
Subject: [PATCH 029/153] fix: AES-256 strings of loaded documents kept the
 padding

---
 src/pdfmm/base/PdfEncrypt.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pdfmm/base/PdfEncrypt.cpp b/src/pdfmm/base/PdfEncrypt.cpp
index ae63e55..3593dc0 100644
--- a/src/pdfmm/base/PdfEncrypt.cpp
+++ b/src/pdfmm/base/PdfEncrypt.cpp
@@ -1761,6 +1761,7 @@ bool PdfEncryptAESV3::Authenticate(const string_view& password, const string_vie
             EVP_CIPHER_CTX_set_padding(aes, 0); // no padding
             int lOutLen;
             EVP_DecryptUpdate(aes, m_encryptionKey, &lOutLen, m_oeValue, 32);
+            EVP_CIPHER_CTX_reset(aes); // the engine is reused to decrypt padded data
         }
     }
     else
@@ -1778,6 +1779,7 @@ bool PdfEncryptAESV3::Authenticate(const string_view& password, const string_vie
         EVP_CIPHER_CTX_set_padding(aes, 0); // no padding
         int lOutLen;
         EVP_DecryptUpdate(aes, m_encryptionKey, &lOutLen, m_ueValue, 32);
+        EVP_CIPHER_CTX_reset(aes); // the engine is reused to decrypt padded data
     }
 
     // TODO Validate permissions (or not...)
-- 
2.43.0


From a4a34696d1d66771a6d14300b99721d27b35734c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:38 +0000
Subject: [PATCH 030/153] fix: RC4 encryption with key lengths not supported by
 the algorithm

---
 src/pdfmm/base/PdfEncrypt.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pdfmm/base/PdfEncrypt.cpp b/src/pdfmm/base/PdfEncrypt.cpp
index 3593dc0..5b52cf3 100644
--- a/src/pdfmm/base/PdfEncrypt.cpp
+++ b/src/pdfmm/base/PdfEncrypt.cpp
@@ -1121,6 +1121,7 @@ PdfEncryptRC4::PdfEncryptRC4(const string_view& userPassword, const string_view&
             intKeyLength = (intKeyLength >= 40) ? ((intKeyLength <= 128) ? intKeyLength : 128) : 40;
             m_rValue = 3;
             m_keyLength = intKeyLength / 8;
+            m_eKeyLength = static_cast<PdfKeyLength>(intKeyLength);
             break;
         }
         case PdfEncryptAlgorithm::RC4V1:
@@ -1128,6 +1129,7 @@ PdfEncryptRC4::PdfEncryptRC4(const string_view& userPassword, const string_view&
         {
             m_rValue = 2;
             m_keyLength = 40 / 8;
+            m_eKeyLength = PdfKeyLength::L40;
             break;
         }
         case PdfEncryptAlgorithm::AESV2:
-- 
2.43.0


From 9693ede615e5b4482b44d6cfa6810f04f5b21405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:38 +0000
Subject: [PATCH 031/153] fix: documents with a user password only could be
 opened with an empty password

---
 src/pdfmm/base/PdfEncrypt.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfEncrypt.cpp b/src/pdfmm/base/PdfEncrypt.cpp
index 5b52cf3..f9df75b 100644
--- a/src/pdfmm/base/PdfEncrypt.cpp
+++ b/src/pdfmm/base/PdfEncrypt.cpp
@@ -1008,7 +1008,8 @@ void PdfEncryptRC4::GenerateEncryptionKey(const string_view& documentId)
 
     // Pad passwords
     PadPassword(m_userPass, userpswd);
-    PadPassword(m_ownerPass, ownerpswd);
+    // ISO 32000: "If there is no owner password, use the user password instead"
+    PadPassword(m_ownerPass.empty() ? m_userPass : m_ownerPass, ownerpswd);
 
     // Compute O value
     ComputeOwnerKey(userpswd, ownerpswd, m_keyLength, m_rValue, false, m_oValue);
@@ -1245,7 +1246,8 @@ void PdfEncryptAESV2::GenerateEncryptionKey(const string_view& documentId)
 
     // Pad passwords
     PadPassword(m_userPass, userpswd);
-    PadPassword(m_ownerPass, ownerpswd);
+    // ISO 32000: "If there is no owner password, use the user password instead"
+    PadPassword(m_ownerPass.empty() ? m_userPass : m_ownerPass, ownerpswd);
 
     // Compute O value
     ComputeOwnerKey(userpswd, ownerpswd, m_keyLength, m_rValue, false, m_oValue);
@@ -1669,7 +1671,9 @@ void PdfEncryptAESV3::GenerateEncryptionKey(const string_view& documentId)
     size_t userpswdLen;
     size_t ownerpswdLen;
     PreprocessPassword(m_userPass, userpswd, userpswdLen);
-    PreprocessPassword(m_ownerPass, ownerpswd, ownerpswdLen);
+    // If there is no owner password, use the user password instead,
+    // or the document could be opened with an empty password
+    PreprocessPassword(m_ownerPass.empty() ? m_userPass : m_ownerPass, ownerpswd, ownerpswdLen);
 
     // Compute encryption key
     ComputeEncryptionKey();
-- 
2.43.0


From a4368bd4b7e6aafd5b3227685e7d3ed228495404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:58 +0000
Subject: [PATCH 032/153] fix: cross-reference streams of a loaded document
 were encrypted when saving

---
 src/pdfmm/base/PdfWriter.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfWriter.cpp b/src/pdfmm/base/PdfWriter.cpp
index edaadca..43297a4 100644
--- a/src/pdfmm/base/PdfWriter.cpp
+++ b/src/pdfmm/base/PdfWriter.cpp
@@ -26,7 +26,18 @@
 using namespace std;
 using namespace mm;
 
-static PdfWriteFlags ToWriteFlags(PdfSaveOptions opts);
+static bool isXRefStream(const PdfObject& obj)
+{
+    if (!obj.IsDictionary())
+        return false;
+
+    auto typeObj = obj.GetDictionary().GetKey(PdfName::KeyType);
+    return typeObj != nullptr && typeObj->IsName() && typeObj->GetName() == "XRef";
+}
+
+PdfWriteFlags ToWriteFlags(PdfSaveOptions opts);
+
+static bool isXRefStream(const PdfObject& obj);
 
 PdfWriter::PdfWriter(PdfIndirectObjectList* objects, const PdfObject& trailer, PdfVersion version) :
     m_Objects(objects),
@@ -175,8 +186,10 @@ void PdfWriter::WritePdfObjects(OutputStreamDevice& device, const PdfIndirectObj
         else
         {
             xref.AddInUseObject(obj->GetIndirectReference(), device.GetPosition());
-            // Also make sure that we do not encrypt the encryption dictionary!
-            obj->Write(device, m_WriteFlags, obj == m_EncryptObj ? nullptr : m_Encrypt.get(), m_buffer);
+            // Also make sure that we do not encrypt the encryption dictionary,
+            // nor the cross-reference streams of a loaded document: they are never decrypted
+            bool encrypt = obj != m_EncryptObj && (m_Encrypt == nullptr || !isXRefStream(*obj));
+            obj->Write(device, m_WriteFlags, encrypt ? m_Encrypt.get() : nullptr, m_buffer);
         }
     }
 
-- 
2.43.0


From 1e66216d32b4b71191e40fc6ba13c090d0144c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:31 +0000
Subject: [PATCH 033/153] fix: loaded objects used the encryption replaced by
 SetEncrypted after it was freed

---
 src/pdfmm/base/PdfMemDocument.cpp | 6 +++++-
 src/pdfmm/base/PdfMemDocument.h   | 2 ++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfMemDocument.cpp b/src/pdfmm/base/PdfMemDocument.cpp
index 9aa21f3..7af99fc 100644
--- a/src/pdfmm/base/PdfMemDocument.cpp
+++ b/src/pdfmm/base/PdfMemDocument.cpp
@@ -79,6 +79,7 @@ void PdfMemDocument::clear()
     m_HasXRefStream = false;
     m_PrevXRefOffset = -1;
     m_Encrypt = nullptr;
+    m_ReplacedEncrypts.clear();
     m_device = nullptr;
 }
 
@@ -317,11 +318,14 @@ void PdfMemDocument::SetEncrypted(const string_view& userPassword, const string_
     PdfPermissions protection, PdfEncryptAlgorithm algorithm,
     PdfKeyLength keyLength)
 {
-    m_Encrypt = PdfEncrypt::Create(userPassword, ownerPassword, protection, algorithm, keyLength);
+    SetEncrypt(PdfEncrypt::Create(userPassword, ownerPassword, protection, algorithm, keyLength));
 }
 
 void PdfMemDocument::SetEncrypt(unique_ptr<PdfEncrypt>&& encrypt)
 {
+    if (m_Encrypt != nullptr)
+        m_ReplacedEncrypts.push_back(std::move(m_Encrypt));
+
     m_Encrypt = std::move(encrypt);
 }
 
diff --git a/src/pdfmm/base/PdfMemDocument.h b/src/pdfmm/base/PdfMemDocument.h
index b500748..e764dea 100644
--- a/src/pdfmm/base/PdfMemDocument.h
+++ b/src/pdfmm/base/PdfMemDocument.h
@@ -252,6 +252,8 @@ private:
     bool m_HasXRefStream;
     int64_t m_PrevXRefOffset;
     std::unique_ptr<PdfEncrypt> m_Encrypt;
+    // Replaced encryptions, that are still needed to load objects on demand
+    std::vector<std::unique_ptr<PdfEncrypt>> m_ReplacedEncrypts;
     std::shared_ptr<InputStreamDevice> m_device;
 };
 
-- 
2.43.0


From 40bcb284c1bac82096065e525ddf21f65a12ad12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:33 +0000
Subject: [PATCH 034/153] fix: the encryption dictionary of a loaded document
 stayed in the trailer, its number was reused with a wrong generation

---
 src/pdfmm/base/PdfMemDocument.cpp | 9 ++++++---
 src/pdfmm/base/PdfParser.cpp      | 5 +++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/pdfmm/base/PdfMemDocument.cpp b/src/pdfmm/base/PdfMemDocument.cpp
index 7af99fc..575808d 100644
--- a/src/pdfmm/base/PdfMemDocument.cpp
+++ b/src/pdfmm/base/PdfMemDocument.cpp
@@ -62,9 +62,8 @@ PdfMemDocument::PdfMemDocument(const PdfMemDocument& rhs) :
     m_HasXRefStream(rhs.m_HasXRefStream),
     m_PrevXRefOffset(rhs.m_PrevXRefOffset)
 {
-    auto encryptObj = GetTrailer().GetDictionary().FindKey("Encrypt");
-    if (encryptObj != nullptr)
-        m_Encrypt = PdfEncrypt::CreateFromObject(*encryptObj);
+    if (rhs.m_Encrypt != nullptr)
+        m_Encrypt = PdfEncrypt::CreateFromEncrypt(*rhs.m_Encrypt);
 }
 
 void PdfMemDocument::Clear()
@@ -106,6 +105,10 @@ void PdfMemDocument::initFromParser(PdfParser& parser)
         // All PdfParser instances have a pointer to a PdfEncrypt object.
         // So we have to take ownership of it (command the parser to give it).
         m_Encrypt = parser.TakeEncrypt();
+
+        // The dictionary is created anew when writing, drop the
+        // reference since the number can be taken by other objects
+        GetTrailer().GetDictionary().RemoveKey("Encrypt");
     }
 
     Init();
diff --git a/src/pdfmm/base/PdfParser.cpp b/src/pdfmm/base/PdfParser.cpp
index a74b5e9..ed388dc 100644
--- a/src/pdfmm/base/PdfParser.cpp
+++ b/src/pdfmm/base/PdfParser.cpp
@@ -631,8 +631,9 @@ void PdfParser::ReadObjects(InputStreamDevice& device)
             {
                 obj->Parse();
                 // NOTE: Never add the encryption dictionary to m_Objects
-                // we create a new one, if we need it for writing
-                m_entries[i].Parsed = false;
+                // we create a new one, if we need it for writing. Free
+                // its number so it is reused with the next generation only
+                m_entries[i].Type = XRefEntryType::Free;
                 m_Encrypt = PdfEncrypt::CreateFromObject(*obj);
             }
             catch (PdfError& e)
-- 
2.43.0


From 22a662e28960cc9043508c3bc74ee995150a45a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:31 +0000
Subject: [PATCH 035/153] fix: numbers with a plus sign could not be read

---
 src/pdfmm/base/PdfTokenizer.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfTokenizer.cpp b/src/pdfmm/base/PdfTokenizer.cpp
index 0a7618b..1591709 100644
--- a/src/pdfmm/base/PdfTokenizer.cpp
+++ b/src/pdfmm/base/PdfTokenizer.cpp
@@ -24,6 +24,7 @@ using namespace mm;
 static char getEscapedCharacter(char ch);
 static void readHexString(InputStreamDevice& device, charbuff& buffer);
 static bool isOctalChar(char ch);
+static const char* skipPlusSign(const string_view& token);
 
 PdfTokenizer::PdfTokenizer(bool readReferences)
     : PdfTokenizer(std::make_shared<charbuff>(BufferSize), readReferences)
@@ -197,7 +198,7 @@ int64_t PdfTokenizer::ReadNextNumber(InputStreamDevice& device)
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::UnexpectedEOF, "Expected number");
 
     int64_t num;
-    if (std::from_chars(token.data(), token.data() + token.size(), num).ec != std::errc())
+    if (std::from_chars(skipPlusSign(token), token.data() + token.size(), num).ec != std::errc())
     {
         // Don't consume the token
         this->EnqueueToken(token, tokenType);
@@ -282,7 +283,7 @@ PdfTokenizer::PdfLiteralDataType PdfTokenizer::DetermineDataType(InputStreamDevi
             if (dataType == PdfLiteralDataType::Real)
             {
                 double val;
-                if (std::from_chars(token.data(), token.data() + token.length(), val, chars_format::fixed).ec != std::errc())
+                if (std::from_chars(skipPlusSign(token), token.data() + token.length(), val, chars_format::fixed).ec != std::errc())
                 {
                     // Don't consume the token
                     this->EnqueueToken(token, tokenType);
@@ -295,7 +296,7 @@ PdfTokenizer::PdfLiteralDataType PdfTokenizer::DetermineDataType(InputStreamDevi
             else if (dataType == PdfLiteralDataType::Number)
             {
                 int64_t num;
-                if (std::from_chars(token.data(), token.data() + token.size(), num).ec != std::errc())
+                if (std::from_chars(skipPlusSign(token), token.data() + token.size(), num).ec != std::errc())
                 {
                     // Don't consume the token
                     this->EnqueueToken(token, tokenType);
@@ -791,6 +792,15 @@ void readHexString(InputStreamDevice& device, charbuff& buffer)
         buffer.push_back('0');
 }
 
+// Numbers can have a leading plus sign, std::from_chars doesn't accept it
+const char* skipPlusSign(const string_view& token)
+{
+    if (token.size() > 1 && token[0] == '+' && token[1] != '-')
+        return token.data() + 1;
+
+    return token.data();
+}
+
 bool isOctalChar(char ch)
 {
     switch (ch)
-- 
2.43.0


From 99f65aa8410d1fafde4ecde1784e3edf3deabf1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:31 +0000
Subject: [PATCH 036/153] fix: the last of two numbers at the end of the data
 was lost

---
 src/pdfmm/base/PdfTokenizer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pdfmm/base/PdfTokenizer.cpp b/src/pdfmm/base/PdfTokenizer.cpp
index 1591709..c97e84b 100644
--- a/src/pdfmm/base/PdfTokenizer.cpp
+++ b/src/pdfmm/base/PdfTokenizer.cpp
@@ -338,6 +338,7 @@ PdfTokenizer::PdfLiteralDataType PdfTokenizer::DetermineDataType(InputStreamDevi
                 if (!gotToken)
                 {
                     // No third token, so it can't be a reference
+                    this->EnqueueToken(tmp, secondTokenType);
                     return PdfLiteralDataType::Number;
                 }
                 if (thirdTokenType == PdfTokenType::Literal &&
-- 
2.43.0


From 1e5db4bf9ffe7ea25cb43d9f7ed9c1abe08f7392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:31 +0000
Subject: [PATCH 037/153] fix: end of lines, unknown escapes and parentheses
 after octal codes in literal strings

---
 src/pdfmm/base/PdfTokenizer.cpp | 46 +++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/src/pdfmm/base/PdfTokenizer.cpp b/src/pdfmm/base/PdfTokenizer.cpp
index c97e84b..7289d69 100644
--- a/src/pdfmm/base/PdfTokenizer.cpp
+++ b/src/pdfmm/base/PdfTokenizer.cpp
@@ -511,28 +511,19 @@ void PdfTokenizer::ReadString(InputStreamDevice& device, PdfVariant& variant, co
 
                 if (!isOctalChar(ch))
                 {
-                    if (ch == ')')
-                    {
-                        // Handle end of string while reading octal code
-                        // NOTE: The octal value is added outside of the loop
-                        break;
-                    }
-
                     // No octal character anymore,
                     // so the octal sequence must be ended
                     // and the character has to be treated as normal character!
                     m_charBuffer.push_back(octValue);
 
-                    if (ch != '\\')
-                    {
-                        m_charBuffer.push_back(ch);
-                        escape = false;
-                    }
-
                     octEscape = false;
                     octCharCount = 0;
                     octValue = 0;
-                    continue;
+                    if (ch == '\\')
+                        continue;
+
+                    escape = false;
+                    goto ReadRaw;
                 }
 
                 octValue <<= 3;
@@ -557,13 +548,18 @@ void PdfTokenizer::ReadString(InputStreamDevice& device, PdfVariant& variant, co
             }
             else
             {
-                // Ignore end of line characters when reading escaped sequences
-                if (ch != '\n' && ch != '\r')
+                if (ch == '\r')
+                {
+                    // An escaped end of line, including CRLF, is ignored
+                    if (device.Peek(ch) && ch == '\n')
+                        (void)device.ReadChar();
+                }
+                else if (ch != '\n')
                 {
-                    // Handle plain escape sequences
+                    // Handle plain escape sequences. If the character
+                    // is not special, just ignore the backslash
                     char escapedCh = getEscapedCharacter(ch);
-                    if (escapedCh != '\0')
-                        m_charBuffer.push_back(escapedCh);
+                    m_charBuffer.push_back(escapedCh == '\0' ? ch : escapedCh);
                 }
 
                 escape = false;
@@ -571,10 +567,22 @@ void PdfTokenizer::ReadString(InputStreamDevice& device, PdfVariant& variant, co
         }
         else
         {
+        ReadRaw:
             // Handle raw characters
             if (balanceCount == 0 && ch == ')')
                 break;
 
+            if (ch == '\r')
+            {
+                // From PDF 32000:2008 7.3.4.2: "An end-of-line marker appearing
+                // within a literal string without a preceding REVERSE SOLIDUS
+                // shall be treated as a byte value of (0Ah)"
+                if (device.Peek(ch) && ch == '\n')
+                    (void)device.ReadChar();
+
+                ch = '\n';
+            }
+
             if (ch == '(')
                 balanceCount++;
             else if (ch == ')')
-- 
2.43.0


From d85fa0c8b636b15635b04d64a8526914979634fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:31 +0000
Subject: [PATCH 038/153] fix: a comment after an empty name was skipped and
 the next token read as the name

---
 src/pdfmm/base/PdfTokenizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfTokenizer.cpp b/src/pdfmm/base/PdfTokenizer.cpp
index 7289d69..933ac12 100644
--- a/src/pdfmm/base/PdfTokenizer.cpp
+++ b/src/pdfmm/base/PdfTokenizer.cpp
@@ -633,7 +633,7 @@ void PdfTokenizer::ReadName(InputStreamDevice& device, PdfVariant& variant)
     // 10 0 obj / endobj
     // which stupid but legal PDF
     char ch;
-    if (!device.Peek(ch) || IsWhitespace(ch))
+    if (!device.Peek(ch) || IsWhitespace(ch) || ch == '%')
     {
         // We have an empty PdfName
         // NOTE: Delimeters are handled correctly by tryReadNextToken
-- 
2.43.0


From 0e090c88a87d9f57babac8ec530c44b414d5a318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:23 +0000
Subject: [PATCH 039/153] fix: a number, a real and a R operator were read as a
 reference

---
 src/pdfmm/base/PdfTokenizer.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfTokenizer.cpp b/src/pdfmm/base/PdfTokenizer.cpp
index 933ac12..231a56a 100644
--- a/src/pdfmm/base/PdfTokenizer.cpp
+++ b/src/pdfmm/base/PdfTokenizer.cpp
@@ -325,7 +325,12 @@ PdfTokenizer::PdfLiteralDataType PdfTokenizer::DetermineDataType(InputStreamDevi
                     return PdfLiteralDataType::Number;
                 }
 
-                if (std::from_chars(nextToken.data(), nextToken.data() + nextToken.length(), num).ec != std::errc())
+                // Object and generation numbers are unsigned integers
+                auto nextTokenEnd = nextToken.data() + nextToken.length();
+                std::from_chars_result result = { };
+                if (!isdigit(token[0]) || !isdigit(nextToken[0])
+                    || (result = std::from_chars(nextToken.data(), nextTokenEnd, num)).ec != std::errc()
+                    || result.ptr != nextTokenEnd)
                 {
                     // Don't consume the token
                     this->EnqueueToken(nextToken, secondTokenType);
-- 
2.43.0


From bb8d0517db361fbbe16c20cdc81e1a4d3e5a8d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:40 +0000
Subject: [PATCH 040/153] fix: the end of data marker was decoded as data by
 the ASCIIHexDecode filter

---
 src/pdfmm/private/PdfFiltersPrivate.cpp | 15 ++++++++++++---
 src/pdfmm/private/PdfFiltersPrivate.h   |  1 +
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/private/PdfFiltersPrivate.cpp b/src/pdfmm/private/PdfFiltersPrivate.cpp
index bf89236..13afaa6 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.cpp
+++ b/src/pdfmm/private/PdfFiltersPrivate.cpp
@@ -223,7 +223,7 @@ private:
 #pragma region PdfHexFilter
 
 PdfHexFilter::PdfHexFilter()
-    : m_DecodedByte(0), m_Low(true)
+    : m_DecodedByte(0), m_Low(true), m_EndOfData(false)
 {
 }
 
@@ -242,12 +242,13 @@ void PdfHexFilter::BeginDecodeImpl(const PdfDictionary*)
 {
     m_DecodedByte = 0;
     m_Low = true;
+    m_EndOfData = false;
 }
 
 void PdfHexFilter::DecodeBlockImpl(const char* buffer, size_t len)
 {
     unsigned char val;
-    while (len-- != 0)
+    while (!m_EndOfData && len-- != 0)
     {
         if (PdfTokenizer::IsWhitespace(*buffer))
         {
@@ -255,7 +256,15 @@ void PdfHexFilter::DecodeBlockImpl(const char* buffer, size_t len)
             continue;
         }
 
-        (void)utls::TryGetHexValue(*buffer, val);
+        if (*buffer == '>')
+        {
+            m_EndOfData = true;
+            break;
+        }
+
+        if (!utls::TryGetHexValue(*buffer, val))
+            PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
+
         if (m_Low)
         {
             m_DecodedByte = (char)(val & 0x0F);
diff --git a/src/pdfmm/private/PdfFiltersPrivate.h b/src/pdfmm/private/PdfFiltersPrivate.h
index b41d766..0c9f421 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.h
+++ b/src/pdfmm/private/PdfFiltersPrivate.h
@@ -49,6 +49,7 @@ public:
 private:
     char m_DecodedByte;
     bool m_Low;
+    bool m_EndOfData;
 };
 
 /** The Ascii85 filter.
-- 
2.43.0


From dabc52a3385fd6af25642b2df3f8b0462193f6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:40 +0000
Subject: [PATCH 041/153] fix: data after the end marker in a later block was
 decoded by the ASCII85Decode filter

---
 src/pdfmm/private/PdfFiltersPrivate.cpp | 15 +++++++--------
 src/pdfmm/private/PdfFiltersPrivate.h   |  1 +
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/pdfmm/private/PdfFiltersPrivate.cpp b/src/pdfmm/private/PdfFiltersPrivate.cpp
index 13afaa6..9100f03 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.cpp
+++ b/src/pdfmm/private/PdfFiltersPrivate.cpp
@@ -302,7 +302,7 @@ void PdfHexFilter::EndDecodeImpl()
 // Paul Haahr - http://www.webcom.com/~haahr/
 
 PdfAscii85Filter::PdfAscii85Filter()
-    : m_count(0), m_tuple(0)
+    : m_count(0), m_tuple(0), m_EndOfData(false)
 {
 }
 
@@ -378,13 +378,12 @@ void PdfAscii85Filter::BeginDecodeImpl(const PdfDictionary*)
 {
     m_count = 0;
     m_tuple = 0;
+    m_EndOfData = false;
 }
 
 void PdfAscii85Filter::DecodeBlockImpl(const char* buffer, size_t len)
 {
-    bool foundEndMarker = false;
-
-    while (len != 0 && !foundEndMarker)
+    while (len != 0 && !m_EndOfData)
     {
         switch (*buffer)
         {
@@ -411,12 +410,12 @@ void PdfAscii85Filter::DecodeBlockImpl(const char* buffer, size_t len)
                 this->WidePut(0, 4);
                 break;
             case '~':
-                buffer++;
-                len--;
-                if (len != 0 && *buffer != '>')
+                if (len > 1 && buffer[1] != '>')
                     PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
 
-                foundEndMarker = true;
+                // Whatever follows the end marker is not data,
+                // also when it comes with another block
+                m_EndOfData = true;
                 break;
             case '\n': case '\r': case '\t': case ' ':
             case '\0': case '\f': case '\b': case 0177:
diff --git a/src/pdfmm/private/PdfFiltersPrivate.h b/src/pdfmm/private/PdfFiltersPrivate.h
index 0c9f421..e35a486 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.h
+++ b/src/pdfmm/private/PdfFiltersPrivate.h
@@ -84,6 +84,7 @@ private:
 private:
     int m_count;
     unsigned m_tuple;
+    bool m_EndOfData;
 };
 
 /** The Flate filter.
-- 
2.43.0


From 36c4e83b0bfe46f48f332bcbee0658a4a71e506b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:40 +0000
Subject: [PATCH 042/153] fix: the RunLengthDecode filter copied and repeated
 the wrong number of bytes

---
 src/pdfmm/private/PdfFiltersPrivate.cpp | 40 ++++++++++++++-----------
 src/pdfmm/private/PdfFiltersPrivate.h   |  4 ++-
 2 files changed, 26 insertions(+), 18 deletions(-)

diff --git a/src/pdfmm/private/PdfFiltersPrivate.cpp b/src/pdfmm/private/PdfFiltersPrivate.cpp
index 9100f03..e56cd69 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.cpp
+++ b/src/pdfmm/private/PdfFiltersPrivate.cpp
@@ -604,7 +604,7 @@ void PdfFlateFilter::EndDecodeImpl()
 #pragma region PdfRLEFilter
 
 PdfRLEFilter::PdfRLEFilter()
-    : m_CodeLen(0)
+    : m_Remaining(0), m_RepeatCount(0), m_EndOfData(false)
 {
 }
 
@@ -625,32 +625,38 @@ void PdfRLEFilter::EndEncodeImpl()
 
 void PdfRLEFilter::BeginDecodeImpl(const PdfDictionary*)
 {
-    m_CodeLen = 0;
+    m_Remaining = 0;
+    m_RepeatCount = 0;
+    m_EndOfData = false;
 }
 
 void PdfRLEFilter::DecodeBlockImpl(const char* buffer, size_t len)
 {
-    while (len-- != 0)
+    while (!m_EndOfData && len-- != 0)
     {
-        if (m_CodeLen == 0)
-        {
-            m_CodeLen = static_cast<int>(*buffer);
-        }
-        else if (m_CodeLen == 128)
-        {
-            break;
-        }
-        else if (m_CodeLen <= 127)
+        if (m_Remaining != 0)
         {
             GetStream()->Write(buffer, 1);
-            m_CodeLen--;
+            m_Remaining--;
         }
-        else if (m_CodeLen >= 129)
+        else if (m_RepeatCount != 0)
         {
-            m_CodeLen = 257 - m_CodeLen;
-
-            while (m_CodeLen--)
+            while (m_RepeatCount-- != 0)
                 GetStream()->Write(buffer, 1);
+
+            m_RepeatCount = 0;
+        }
+        else
+        {
+            // ISO 32000 7.4.5: lengths 0-127 are followed by length + 1 bytes
+            // to copy, lengths 129-255 by a byte to repeat 257 - length times
+            int length = static_cast<unsigned char>(*buffer);
+            if (length < 128)
+                m_Remaining = length + 1;
+            else if (length > 128)
+                m_RepeatCount = 257 - length;
+            else
+                m_EndOfData = true;
         }
 
         buffer++;
diff --git a/src/pdfmm/private/PdfFiltersPrivate.h b/src/pdfmm/private/PdfFiltersPrivate.h
index e35a486..8a6b2f1 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.h
+++ b/src/pdfmm/private/PdfFiltersPrivate.h
@@ -148,7 +148,9 @@ public:
     inline PdfFilterType GetType() const override { return PdfFilterType::RunLengthDecode; }
 
 private:
-    int m_CodeLen;
+    int m_Remaining;     // Bytes to copy from the input
+    int m_RepeatCount;   // How many times the next byte is repeated
+    bool m_EndOfData;
 };
 
 /** The LZW filter.
-- 
2.43.0


From 7d92540f6a337a354ac894c27eebd90dadf4efb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:40 +0000
Subject: [PATCH 043/153] fix: the LZWDecode filter lost its state between
 blocks of data

---
 src/pdfmm/private/PdfFiltersPrivate.cpp | 48 ++++++++++++-------------
 src/pdfmm/private/PdfFiltersPrivate.h   |  6 +++-
 2 files changed, 27 insertions(+), 27 deletions(-)

diff --git a/src/pdfmm/private/PdfFiltersPrivate.cpp b/src/pdfmm/private/PdfFiltersPrivate.cpp
index e56cd69..e298e22 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.cpp
+++ b/src/pdfmm/private/PdfFiltersPrivate.cpp
@@ -675,7 +675,10 @@ PdfLZWFilter::PdfLZWFilter() :
     m_mask(0),
     m_code_len(0),
     m_character(0),
-    m_First(false)
+    m_old(0),
+    m_codeBuff(0),
+    m_buffer_size(0),
+    m_EndOfData(false)
 {
 }
 
@@ -699,8 +702,10 @@ void PdfLZWFilter::BeginDecodeImpl(const PdfDictionary* decodeParms)
     m_mask = 0;
     m_code_len = 9;
     m_character = 0;
-
-    m_First = true;
+    m_old = 0;
+    m_codeBuff = 0;
+    m_buffer_size = 0;
+    m_EndOfData = false;
 
     if (decodeParms != nullptr)
         m_Predictor.reset(new PdfPredictorDecoder(*decodeParms));
@@ -710,40 +715,31 @@ void PdfLZWFilter::BeginDecodeImpl(const PdfDictionary* decodeParms)
 
 void PdfLZWFilter::DecodeBlockImpl(const char* buffer, size_t len)
 {
-    unsigned buffer_size = 0;
     const unsigned buffer_max = 24;
 
-    uint32_t old = 0;
     uint32_t code = 0;
-    uint32_t codeBuff = 0;
 
     TLzwItem item;
 
     vector<unsigned char> data;
-    if (m_First)
-    {
-        m_character = *buffer;
-        m_First = false;
-    }
-
-    while (len != 0)
+    while (!m_EndOfData && len != 0)
     {
         // Fill the buffer
-        while (buffer_size <= (buffer_max - 8) && len)
+        while (m_buffer_size <= (buffer_max - 8) && len)
         {
-            codeBuff <<= 8;
-            codeBuff |= static_cast<uint32_t>(static_cast<unsigned char>(*buffer));
-            buffer_size += 8;
+            m_codeBuff <<= 8;
+            m_codeBuff |= static_cast<uint32_t>(static_cast<unsigned char>(*buffer));
+            m_buffer_size += 8;
 
             buffer++;
             len--;
         }
 
         // read from the buffer
-        while (buffer_size >= m_code_len)
+        while (m_buffer_size >= m_code_len)
         {
-            code = (codeBuff >> (buffer_size - m_code_len)) & PdfLZWFilter::s_masks[m_mask];
-            buffer_size -= m_code_len;
+            code = (m_codeBuff >> (m_buffer_size - m_code_len)) & PdfLZWFilter::s_masks[m_mask];
+            m_buffer_size -= m_code_len;
 
             if (code == PdfLZWFilter::s_clear)
             {
@@ -754,18 +750,18 @@ void PdfLZWFilter::DecodeBlockImpl(const char* buffer, size_t len)
             }
             else if (code == PdfLZWFilter::s_eod)
             {
-                len = 0;
+                m_EndOfData = true;
                 break;
             }
             else
             {
                 if (code >= m_table.size())
                 {
-                    if (old >= m_table.size())
+                    if (m_old >= m_table.size())
                     {
                         PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
                     }
-                    data = m_table[old].value;
+                    data = m_table[m_old].value;
                     data.push_back(m_character);
                 }
                 else
@@ -778,14 +774,14 @@ void PdfLZWFilter::DecodeBlockImpl(const char* buffer, size_t len)
                     GetStream()->Write(reinterpret_cast<char*>(data.data()), data.size());
 
                 m_character = data[0];
-                if (old < m_table.size()) // fix the first loop
-                    data = m_table[old].value;
+                if (m_old < m_table.size()) // fix the first loop
+                    data = m_table[m_old].value;
                 data.push_back(m_character);
 
                 item.value = data;
                 m_table.push_back(item);
 
-                old = code;
+                m_old = code;
 
                 switch (m_table.size())
                 {
diff --git a/src/pdfmm/private/PdfFiltersPrivate.h b/src/pdfmm/private/PdfFiltersPrivate.h
index 8a6b2f1..b53959a 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.h
+++ b/src/pdfmm/private/PdfFiltersPrivate.h
@@ -201,7 +201,11 @@ private:
     unsigned m_code_len;
     unsigned char m_character;
 
-    bool m_First;
+    // The state kept between blocks
+    uint32_t m_old;
+    uint32_t m_codeBuff;
+    unsigned m_buffer_size;
+    bool m_EndOfData;
 
     std::shared_ptr<PdfPredictorDecoder> m_Predictor;
 };
-- 
2.43.0


From 36c6ea2382661051b67cf6f5b480182d5b013009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:18 +0000
Subject: [PATCH 044/153] fix: the last of an odd number of digits was the low
 half of its byte in the ASCIIHexDecode filter

---
 src/pdfmm/private/PdfFiltersPrivate.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/private/PdfFiltersPrivate.cpp b/src/pdfmm/private/PdfFiltersPrivate.cpp
index e298e22..9009030 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.cpp
+++ b/src/pdfmm/private/PdfFiltersPrivate.cpp
@@ -286,9 +286,9 @@ void PdfHexFilter::EndDecodeImpl()
 {
     if (!m_Low)
     {
-        // an odd number of bytes was read,
-        // so the last byte is 0
-        GetStream()->Write(m_DecodedByte);
+        // An odd number of digits was read,
+        // so the last digit is followed by a 0
+        GetStream()->Write(static_cast<char>(m_DecodedByte << 4));
     }
 }
 
-- 
2.43.0


From cd7fdc74c97216f2b64d7fc73c8123336856f5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:18 +0000
Subject: [PATCH 045/153] fix: end of lines in literal strings are kept as they
 are

---
 src/pdfmm/base/PdfTokenizer.cpp | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/src/pdfmm/base/PdfTokenizer.cpp b/src/pdfmm/base/PdfTokenizer.cpp
index 231a56a..eac24db 100644
--- a/src/pdfmm/base/PdfTokenizer.cpp
+++ b/src/pdfmm/base/PdfTokenizer.cpp
@@ -577,17 +577,6 @@ void PdfTokenizer::ReadString(InputStreamDevice& device, PdfVariant& variant, co
             if (balanceCount == 0 && ch == ')')
                 break;
 
-            if (ch == '\r')
-            {
-                // From PDF 32000:2008 7.3.4.2: "An end-of-line marker appearing
-                // within a literal string without a preceding REVERSE SOLIDUS
-                // shall be treated as a byte value of (0Ah)"
-                if (device.Peek(ch) && ch == '\n')
-                    (void)device.ReadChar();
-
-                ch = '\n';
-            }
-
             if (ch == '(')
                 balanceCount++;
             else if (ch == ')')
-- 
2.43.0


From 602b5c2f63ebd9976598904e78a2bb7f452cfcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:38 +0000
Subject: [PATCH 046/153] fix: the EarlyChange parameter was ignored by the
 LZWDecode filter

---
 src/pdfmm/private/PdfFiltersPrivate.cpp | 18 +++++++++++-------
 src/pdfmm/private/PdfFiltersPrivate.h   |  2 ++
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/pdfmm/private/PdfFiltersPrivate.cpp b/src/pdfmm/private/PdfFiltersPrivate.cpp
index 9009030..1847642 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.cpp
+++ b/src/pdfmm/private/PdfFiltersPrivate.cpp
@@ -35,7 +35,6 @@ public:
         m_Colors = static_cast<int>(decodeParms.FindKeyAs<int64_t>("Colors", 1));
         m_BitsPerComponent = static_cast<int>(decodeParms.FindKeyAs<int64_t>("BitsPerComponent", 8));
         m_ColumnCount = static_cast<int>(decodeParms.FindKeyAs<int64_t>("Columns", 1));
-        m_EarlyChange = static_cast<int>(decodeParms.FindKeyAs<int64_t>("EarlyChange", 1));
 
         // check that input values are in range (CVE-2018-20797)
         // ISO 32000-2008 specifies these values as all 1 or greater
@@ -201,7 +200,6 @@ private:
     int m_Colors;
     int m_BitsPerComponent;
     int m_ColumnCount;
-    int m_EarlyChange;
     int m_BytesPerPixel;     // Bytes per pixel
 
     int m_CurrPredictor;
@@ -678,7 +676,8 @@ PdfLZWFilter::PdfLZWFilter() :
     m_old(0),
     m_codeBuff(0),
     m_buffer_size(0),
-    m_EndOfData(false)
+    m_EndOfData(false),
+    m_earlyChange(1)
 {
 }
 
@@ -706,9 +705,14 @@ void PdfLZWFilter::BeginDecodeImpl(const PdfDictionary* decodeParms)
     m_codeBuff = 0;
     m_buffer_size = 0;
     m_EndOfData = false;
+    m_earlyChange = 1;
 
     if (decodeParms != nullptr)
+    {
         m_Predictor.reset(new PdfPredictorDecoder(*decodeParms));
+        if (decodeParms->FindKeyAs<int64_t>("EarlyChange", 1) == 0)
+            m_earlyChange = 0;
+    }
 
     InitTable();
 }
@@ -783,11 +787,11 @@ void PdfLZWFilter::DecodeBlockImpl(const char* buffer, size_t len)
 
                 m_old = code;
 
-                switch (m_table.size())
+                switch (m_table.size() + m_earlyChange)
                 {
-                    case 511:
-                    case 1023:
-                    case 2047:
+                    case 512:
+                    case 1024:
+                    case 2048:
                         m_code_len++;
                         m_mask++;
                         break;
diff --git a/src/pdfmm/private/PdfFiltersPrivate.h b/src/pdfmm/private/PdfFiltersPrivate.h
index b53959a..d2571ee 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.h
+++ b/src/pdfmm/private/PdfFiltersPrivate.h
@@ -207,6 +207,8 @@ private:
     unsigned m_buffer_size;
     bool m_EndOfData;
 
+    unsigned m_earlyChange;
+
     std::shared_ptr<PdfPredictorDecoder> m_Predictor;
 };
 
-- 
2.43.0


From 8f6ce16c178fca0d62bf6628e47242e19d186524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:38 +0000
Subject: [PATCH 047/153] fix: predictors of rows or pixels that don't fill
 bytes

---
 src/pdfmm/private/PdfFiltersPrivate.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/private/PdfFiltersPrivate.cpp b/src/pdfmm/private/PdfFiltersPrivate.cpp
index 1847642..515f907 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.cpp
+++ b/src/pdfmm/private/PdfFiltersPrivate.cpp
@@ -54,8 +54,6 @@ public:
         }
 
         m_CurrRowIndex = 0;
-        m_BytesPerPixel = (m_BitsPerComponent * m_Colors) >> 3;
-        m_Rows = (m_ColumnCount * m_Colors * m_BitsPerComponent) >> 3;
 
         // check for multiplication overflow on buffer sizes (e.g. if m_nBPC=2 and m_nColors=SIZE_MAX/2+1)
         if (utls::DoesMultiplicationOverflow(m_BitsPerComponent, m_Colors)
@@ -64,6 +62,11 @@ public:
             PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
         }
 
+        // NOTE: Rows are padded to full bytes and
+        // pixels smaller than a byte count as one
+        m_BytesPerPixel = std::max((m_BitsPerComponent * m_Colors) >> 3, 1);
+        m_Rows = (m_ColumnCount * m_Colors * m_BitsPerComponent + 7) >> 3;
+
         // check that computed allocation sizes are > 0 (CVE-2018-20797)
         if (m_Rows < 1 || m_BitsPerComponent < 1)
             PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
-- 
2.43.0


From bdebaeeac33b1685e2863b415e89675030241970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:38 +0000
Subject: [PATCH 048/153] fix: the PNG average predictor used signed bytes

---
 src/pdfmm/private/PdfFiltersPrivate.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/private/PdfFiltersPrivate.cpp b/src/pdfmm/private/PdfFiltersPrivate.cpp
index 515f907..e5928a7 100644
--- a/src/pdfmm/private/PdfFiltersPrivate.cpp
+++ b/src/pdfmm/private/PdfFiltersPrivate.cpp
@@ -131,8 +131,9 @@ public:
                     case 13: // png average
                     {
                         int prev = (m_CurrRowIndex - m_BytesPerPixel < 0
-                            ? 0 : m_Prev[m_CurrRowIndex - m_BytesPerPixel]);
-                        m_Prev[m_CurrRowIndex] = ((prev + m_Prev[m_CurrRowIndex]) >> 1) + *buffer;
+                            ? 0 : static_cast<unsigned char>(m_Prev[m_CurrRowIndex - m_BytesPerPixel]));
+                        int up = static_cast<unsigned char>(m_Prev[m_CurrRowIndex]);
+                        m_Prev[m_CurrRowIndex] = ((prev + up) >> 1) + *buffer;
                         break;
                     }
                     case 14: // png paeth
-- 
2.43.0


From c4342a75b82d9a99d2439604098c75257606cb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:28 +0000
Subject: [PATCH 049/153] fix: data encoded with filters set in the dictionary
 (images) was compressed when saving and lost its filters

---
 src/pdfmm/base/PdfObject.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pdfmm/base/PdfObject.cpp b/src/pdfmm/base/PdfObject.cpp
index a29033c..35469f4 100644
--- a/src/pdfmm/base/PdfObject.cpp
+++ b/src/pdfmm/base/PdfObject.cpp
@@ -239,6 +239,7 @@ void PdfObject::Write(OutputStreamDevice& device, PdfWriteFlags writeMode,
         const PdfObject* metadataObj;
         if ((writeMode & PdfWriteFlags::NoFlateCompress) == PdfWriteFlags::None
             && m_Stream->GetFilters().size() == 0
+            && !m_Variant.GetDictionary().HasKey(PdfName::KeyFilter)
             && (m_Document == nullptr 
                 || (metadataObj = m_Document->GetCatalog().GetMetadataObject()) == nullptr
                 || m_IndirectReference != metadataObj->GetIndirectReference()))
-- 
2.43.0


From 3ed6df88fc639cee42ffd43a8c32d06582bf5ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:50 +0000
Subject: [PATCH 050/153] fix: a stream that can't be decoded was locked
 forever by the first attempt to read it

---
 src/pdfmm/base/PdfObjectStream.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfObjectStream.cpp b/src/pdfmm/base/PdfObjectStream.cpp
index 68b0cf5..b7f3e02 100644
--- a/src/pdfmm/base/PdfObjectStream.cpp
+++ b/src/pdfmm/base/PdfObjectStream.cpp
@@ -396,10 +396,12 @@ PdfObjectInputStream::PdfObjectInputStream(PdfObjectInputStream&& rhs) noexcept
 }
 
 PdfObjectInputStream::PdfObjectInputStream(PdfObjectStream& stream, bool raw)
-    : m_stream(&stream)
+    : m_stream(nullptr)
 {
-    m_stream->m_locked = true;
+    // Lock the stream only when the input is successfully obtained
     m_input = stream.getInputStream(raw, m_MediaFilters, m_MediaDecodeParms);
+    m_stream = &stream;
+    m_stream->m_locked = true;
 }
 
 size_t PdfObjectInputStream::readBuffer(char* buffer, size_t size, bool& eof)
-- 
2.43.0


From 45f32a5acb4647f541dc6f860926b09d9c28994f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:50 +0000
Subject: [PATCH 051/153] fix: setting stream data with a filter that can't
 encode destroyed the previous data

---
 src/pdfmm/base/PdfObjectStream.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/pdfmm/base/PdfObjectStream.cpp b/src/pdfmm/base/PdfObjectStream.cpp
index b7f3e02..8c463af 100644
--- a/src/pdfmm/base/PdfObjectStream.cpp
+++ b/src/pdfmm/base/PdfObjectStream.cpp
@@ -497,6 +497,17 @@ PdfObjectOutputStream::PdfObjectOutputStream(PdfObjectStream& stream,
     if (document != nullptr)
         document->GetObjects().BeginAppendStream(stream);
 
+    if (m_filters.has_value())
+    {
+        // Check the filters before the current data is dropped
+        for (auto filterType : *m_filters)
+        {
+            auto filter = PdfFilterFactory::Create(filterType);
+            if (filter == nullptr || !filter->CanEncode())
+                PDFMM_RAISE_ERROR(PdfErrorCode::UnsupportedFilter);
+        }
+    }
+
     charbuff buffer;
     if (append)
         stream.CopyTo(buffer);
-- 
2.43.0


From 804607254cbdadd1ea80bb7f90712fadffbb6920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:50 +0000
Subject: [PATCH 052/153] fix: stream data written through an output stream or
 assigned was missing in incremental updates

---
 src/pdfmm/base/PdfObject.cpp       |  2 +-
 src/pdfmm/base/PdfObjectStream.cpp | 13 +++++++++++++
 src/pdfmm/base/PdfObjectStream.h   |  2 ++
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfObject.cpp b/src/pdfmm/base/PdfObject.cpp
index 35469f4..1f06cfd 100644
--- a/src/pdfmm/base/PdfObject.cpp
+++ b/src/pdfmm/base/PdfObject.cpp
@@ -386,7 +386,7 @@ void PdfObject::copyStreamFrom(const PdfObject& obj)
     if (obj.m_Stream != nullptr)
     {
         auto& stream = getOrCreateStream();
-        stream = *obj.m_Stream;
+        stream.CopyFrom(*obj.m_Stream);
     }
     else
     {
diff --git a/src/pdfmm/base/PdfObjectStream.cpp b/src/pdfmm/base/PdfObjectStream.cpp
index 8c463af..f8b8d39 100644
--- a/src/pdfmm/base/PdfObjectStream.cpp
+++ b/src/pdfmm/base/PdfObjectStream.cpp
@@ -174,17 +174,21 @@ void PdfObjectStream::Unwrap()
     }
 
     MoveFrom(objectStream);
+    m_Parent->SetDirty();
 }
 
 PdfObjectStream& PdfObjectStream::operator=(const PdfObjectStream& rhs)
 {
     CopyFrom(rhs);
+    m_Parent->SetDirty();
     return (*this);
 }
 
 PdfObjectStream& PdfObjectStream::operator=(PdfObjectStream&& rhs) noexcept
 {
     MoveFrom(rhs);
+    m_Parent->SetDirty();
+    rhs.m_Parent->SetDirty();
     return (*this);
 }
 
@@ -373,6 +377,11 @@ void PdfObjectStream::InitData(InputStream& stream, size_t size, PdfFilterList&&
     m_Filters = std::move(filterList);
 }
 
+void PdfObjectStream::setParentDirty()
+{
+    m_Parent->SetDirty();
+}
+
 void PdfObjectStream::ensureClosed() const
 {
     PDFMM_RAISE_LOGIC_IF(m_locked, "The stream should have no read/write operations in progress");
@@ -512,6 +521,10 @@ PdfObjectOutputStream::PdfObjectOutputStream(PdfObjectStream& stream,
     if (append)
         stream.CopyTo(buffer);
 
+    // Data initialized while loading doesn't modify the object
+    if (m_filters.has_value())
+        stream.setParentDirty();
+
     if (m_filters.has_value())
     {
         auto& filters = *m_filters;
diff --git a/src/pdfmm/base/PdfObjectStream.h b/src/pdfmm/base/PdfObjectStream.h
index 07f8c0e..97c155f 100644
--- a/src/pdfmm/base/PdfObjectStream.h
+++ b/src/pdfmm/base/PdfObjectStream.h
@@ -216,6 +216,8 @@ private:
 private:
     void ensureClosed() const;
 
+    void setParentDirty();
+
     std::unique_ptr<InputStream> getInputStream(bool raw, PdfFilterList& mediaFilters,
         std::vector<const PdfDictionary*>& decodeParms);
 
-- 
2.43.0


From 021d062991cc3bea376d892136237e66278db9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:50 +0000
Subject: [PATCH 053/153] fix: new stream data was decoded with the
 /DecodeParms of the previous data

---
 src/pdfmm/base/PdfObjectStream.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pdfmm/base/PdfObjectStream.cpp b/src/pdfmm/base/PdfObjectStream.cpp
index f8b8d39..c185dc7 100644
--- a/src/pdfmm/base/PdfObjectStream.cpp
+++ b/src/pdfmm/base/PdfObjectStream.cpp
@@ -469,6 +469,9 @@ PdfObjectOutputStream::~PdfObjectOutputStream()
                 m_stream->GetParent().GetDictionary().AddKey(PdfName::KeyFilter, arrFilters);
             }
 
+            // The encoders don't use parameters
+            m_stream->GetParent().GetDictionary().RemoveKey(DecodeParmsKey);
+
             m_stream->m_Filters = std::move(filters);
         }
 
-- 
2.43.0


From fff1576b5730402790451b920c23ed602d339034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:50 +0000
Subject: [PATCH 054/153] fix: unwrapping a stream forgot the filters of media
 it keeps

---
 src/pdfmm/base/PdfObjectStream.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pdfmm/base/PdfObjectStream.cpp b/src/pdfmm/base/PdfObjectStream.cpp
index c185dc7..671aec7 100644
--- a/src/pdfmm/base/PdfObjectStream.cpp
+++ b/src/pdfmm/base/PdfObjectStream.cpp
@@ -112,6 +112,7 @@ void PdfObjectStream::Unwrap()
         return;
 
     PdfObject obj;
+    PdfFilterList mediaFiltersLeft;
     auto& objectStream = obj.GetOrCreateStream();
     {
         auto inputStream = GetInputStream();
@@ -127,6 +128,7 @@ void PdfObjectStream::Unwrap()
         inputStream.CopyTo(outputStream);
 
         // Handle left over media filters/decode parameters
+        mediaFiltersLeft = mediaFilters;
         auto& dict = obj.GetDictionary();
         auto& mediaDecodeParms = inputStream.GetMediaDecodeParms();
         if (mediaFilters.size() == 1)
@@ -174,6 +176,7 @@ void PdfObjectStream::Unwrap()
     }
 
     MoveFrom(objectStream);
+    m_Filters = std::move(mediaFiltersLeft);
     m_Parent->SetDirty();
 }
 
-- 
2.43.0


From f15c9420b2c6ba3503c36be332b40c676e4f5f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:50 +0000
Subject: [PATCH 055/153] fix: moving a stream to itself lost its filters,
 moving a stream in use terminated the process

---
 src/pdfmm/base/PdfObjectStream.cpp | 9 ++++++++-
 src/pdfmm/base/PdfObjectStream.h   | 2 +-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfObjectStream.cpp b/src/pdfmm/base/PdfObjectStream.cpp
index 671aec7..c130561 100644
--- a/src/pdfmm/base/PdfObjectStream.cpp
+++ b/src/pdfmm/base/PdfObjectStream.cpp
@@ -187,7 +187,7 @@ PdfObjectStream& PdfObjectStream::operator=(const PdfObjectStream& rhs)
     return (*this);
 }
 
-PdfObjectStream& PdfObjectStream::operator=(PdfObjectStream&& rhs) noexcept
+PdfObjectStream& PdfObjectStream::operator=(PdfObjectStream&& rhs)
 {
     MoveFrom(rhs);
     m_Parent->SetDirty();
@@ -207,6 +207,9 @@ size_t PdfObjectStream::GetLength() const
 
 void PdfObjectStream::MoveFrom(PdfObjectStream& rhs)
 {
+    if (this == &rhs)
+        return;
+
     ensureClosed();
     if (!m_Provider->TryMoveFrom(std::move(*rhs.m_Provider)))
     {
@@ -242,10 +245,14 @@ void PdfObjectStream::MoveFrom(PdfObjectStream& rhs)
     }
 
     m_Filters = std::move(rhs.m_Filters);
+    rhs.m_Filters.clear();
 }
 
 void PdfObjectStream::CopyFrom(const PdfObjectStream& rhs)
 {
+    if (this == &rhs)
+        return;
+
     ensureClosed();
     if (!m_Provider->TryCopyFrom(*rhs.m_Provider))
     {
diff --git a/src/pdfmm/base/PdfObjectStream.h b/src/pdfmm/base/PdfObjectStream.h
index 97c155f..6a078fb 100644
--- a/src/pdfmm/base/PdfObjectStream.h
+++ b/src/pdfmm/base/PdfObjectStream.h
@@ -188,7 +188,7 @@ public:
      */
     PdfObjectStream& operator=(const PdfObjectStream& rhs);
 
-    PdfObjectStream& operator=(PdfObjectStream&& rhs) noexcept;
+    PdfObjectStream& operator=(PdfObjectStream&& rhs);
 
     const PdfObjectStreamProvider& GetProvider() const { return *m_Provider; }
 
-- 
2.43.0


From bce9aaceec6d320628c098ca0c071857e6bca3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:50 +0000
Subject: [PATCH 056/153] fix: assigning an output stream left the stream of
 the previous one locked and without filters

---
 src/pdfmm/base/PdfObjectStream.cpp | 12 ++++++++++++
 src/pdfmm/base/PdfObjectStream.h   |  2 ++
 2 files changed, 14 insertions(+)

diff --git a/src/pdfmm/base/PdfObjectStream.cpp b/src/pdfmm/base/PdfObjectStream.cpp
index c130561..663c806 100644
--- a/src/pdfmm/base/PdfObjectStream.cpp
+++ b/src/pdfmm/base/PdfObjectStream.cpp
@@ -453,6 +453,14 @@ PdfObjectOutputStream::PdfObjectOutputStream()
 
 PdfObjectOutputStream::~PdfObjectOutputStream()
 {
+    close();
+}
+
+// Finish writing and unlock the stream
+void PdfObjectOutputStream::close()
+{
+    // Complete the encoding
+    m_output = nullptr;
     if (m_stream != nullptr)
     {
         // Set filters on the stream and on the parent object
@@ -574,6 +582,10 @@ void PdfObjectOutputStream::flush()
 
 PdfObjectOutputStream& PdfObjectOutputStream::operator=(PdfObjectOutputStream&& rhs) noexcept
 {
+    if (this == &rhs)
+        return *this;
+
+    close();
     utls::move(rhs.m_stream, m_stream);
     m_output = std::move(rhs.m_output);
     m_filters = std::move(rhs.m_filters);
diff --git a/src/pdfmm/base/PdfObjectStream.h b/src/pdfmm/base/PdfObjectStream.h
index 6a078fb..dd5f24b 100644
--- a/src/pdfmm/base/PdfObjectStream.h
+++ b/src/pdfmm/base/PdfObjectStream.h
@@ -63,6 +63,8 @@ protected:
     void flush() override;
 public:
     PdfObjectOutputStream& operator=(PdfObjectOutputStream&& rhs) noexcept;
+private:
+    void close();
 private:
     PdfObjectStream* m_stream;
     nullable<PdfFilterList> m_filters;
-- 
2.43.0


From 4fb51bfdbaf9909765b73f117809468456bba47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:42 +0000
Subject: [PATCH 057/153] fix: a stream added to a loaded object was missing in
 incremental updates

---
 src/pdfmm/base/PdfObject.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfObject.cpp b/src/pdfmm/base/PdfObject.cpp
index 1f06cfd..16373b3 100644
--- a/src/pdfmm/base/PdfObject.cpp
+++ b/src/pdfmm/base/PdfObject.cpp
@@ -143,7 +143,11 @@ PdfObject::PdfObject(PdfVariant&& var, const PdfReference& indirectReference, bo
 void PdfObject::ForceCreateStream()
 {
     DelayedLoadStream();
+    if (m_Stream != nullptr)
+        return;
+
     forceCreateStream();
+    SetDirty();
 }
 
 void PdfObject::SetDocument(PdfDocument* document)
@@ -283,8 +287,8 @@ void PdfObject::Write(OutputStreamDevice& device, PdfWriteFlags writeMode,
 
 PdfObjectStream& PdfObject::GetOrCreateStream()
 {
-    DelayedLoadStream();
-    return getOrCreateStream();
+    ForceCreateStream();
+    return *m_Stream;
 }
 
 const PdfObjectStream& PdfObject::MustGetStream() const
-- 
2.43.0


From 6f4401ddc6214d18efb0c8f42a0f14288877bb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:36 +0000
Subject: [PATCH 058/153] fix: unwrapping a stream dropped the /Filter of media
 it keeps

---
 src/pdfmm/base/PdfObjectStream.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfObjectStream.cpp b/src/pdfmm/base/PdfObjectStream.cpp
index 663c806..29dfe9d 100644
--- a/src/pdfmm/base/PdfObjectStream.cpp
+++ b/src/pdfmm/base/PdfObjectStream.cpp
@@ -124,8 +124,12 @@ void PdfObjectStream::Unwrap()
             return;
         }
 
-        auto outputStream = objectStream.GetOutputStreamRaw();
-        inputStream.CopyTo(outputStream);
+        // NOTE: Closing the output stream resets the filters
+        // in the dictionary, do it before adding them
+        {
+            auto outputStream = objectStream.GetOutputStreamRaw();
+            inputStream.CopyTo(outputStream);
+        }
 
         // Handle left over media filters/decode parameters
         mediaFiltersLeft = mediaFilters;
-- 
2.43.0


From 342fb906f7a3d6fa8d8b517be68401d38ce87c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:26 +0000
Subject: [PATCH 059/153] fix: moving an object whose stream wasn't loaded
 terminated the process

---
 src/pdfmm/base/PdfObject.cpp | 8 +++++---
 src/pdfmm/base/PdfObject.h   | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pdfmm/base/PdfObject.cpp b/src/pdfmm/base/PdfObject.cpp
index 16373b3..c1932cb 100644
--- a/src/pdfmm/base/PdfObject.cpp
+++ b/src/pdfmm/base/PdfObject.cpp
@@ -111,7 +111,8 @@ PdfObject::PdfObject(const PdfObject& rhs)
 // always detached. Ownership will be set automatically elsewhere.
 // Also don't move reference
 PdfObject::PdfObject(PdfObject&& rhs) noexcept :
-    m_Variant(std::move(rhs.m_Variant)),
+    // The stream must be loaded before the dictionary is moved
+    m_Variant((rhs.DelayedLoadStream(), std::move(rhs.m_Variant))),
     m_IsDirty(false)
 {
     initObject();
@@ -375,7 +376,7 @@ PdfObject& PdfObject::operator=(const PdfObject& rhs)
     return *this;
 }
 
-PdfObject& PdfObject::operator=(PdfObject&& rhs) noexcept
+PdfObject& PdfObject::operator=(PdfObject&& rhs)
 {
     moveFrom(rhs);
     SetDirty();
@@ -462,7 +463,8 @@ void PdfObject::moveFrom(PdfObject& rhs)
     if (this == &rhs)
         return;
 
-    rhs.DelayedLoad();
+    // The stream must be loaded before the dictionary is moved
+    rhs.DelayedLoadStream();
     // Keep the previous value alive, rhs may be part of it
     PdfVariant previous(std::move(m_Variant));
     m_Variant = std::move(rhs.m_Variant);
diff --git a/src/pdfmm/base/PdfObject.h b/src/pdfmm/base/PdfObject.h
index 5b7e4db..2004c54 100644
--- a/src/pdfmm/base/PdfObject.h
+++ b/src/pdfmm/base/PdfObject.h
@@ -367,7 +367,7 @@ public:
      *  \returns a reference to this object
      */
     PdfObject& operator=(const PdfObject& rhs);
-    PdfObject& operator=(PdfObject&& rhs) noexcept;
+    PdfObject& operator=(PdfObject&& rhs);
 
     operator const PdfVariant& () const;
 
-- 
2.43.0


From f580b7996c731ba7a5c6d0d18e0233f835e2342e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:36 +0000
Subject: [PATCH 060/153] fix: ThrowOnWarnings made the contents reader throw
 also without warnings

---
 src/pdfmm/base/PdfContentsReader.cpp | 7 ++++---
 src/pdfmm/base/PdfContentsReader.h   | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pdfmm/base/PdfContentsReader.cpp b/src/pdfmm/base/PdfContentsReader.cpp
index 7e7b2c0..77ca11d 100644
--- a/src/pdfmm/base/PdfContentsReader.cpp
+++ b/src/pdfmm/base/PdfContentsReader.cpp
@@ -87,7 +87,7 @@ bool PdfContentsReader::TryReadNext(PdfContent& content)
 
     HandleContent:
         afterReadClear(content);
-        handleWarnings();
+        handleWarnings(content);
         return true;
 
     PopDevice:
@@ -423,9 +423,10 @@ bool PdfContentsReader::tryReadInlineImgData(charbuff& data)
     return false;
 }
 
-void PdfContentsReader::handleWarnings()
+void PdfContentsReader::handleWarnings(const PdfContent& content)
 {
-    if ((m_args.Flags & PdfContentReaderFlags::ThrowOnWarnings) != PdfContentReaderFlags::None)
+    if (content.Warnings != PdfContentWarnings::None
+        && (m_args.Flags & PdfContentReaderFlags::ThrowOnWarnings) != PdfContentReaderFlags::None)
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidContentStream, "Unsupported PostScript content");
 }
 
diff --git a/src/pdfmm/base/PdfContentsReader.h b/src/pdfmm/base/PdfContentsReader.h
index e549c37..fdd55ad 100644
--- a/src/pdfmm/base/PdfContentsReader.h
+++ b/src/pdfmm/base/PdfContentsReader.h
@@ -105,7 +105,7 @@ private:
 
     void tryFollowXObject(PdfContent& content);
 
-    void handleWarnings();
+    void handleWarnings(const PdfContent& content);
 
     bool isCalledRecursively(const PdfObject* xobj);
 
-- 
2.43.0


From b8a707a525e7d84c4a3d657b4c66b171ef8bf278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:36 +0000
Subject: [PATCH 061/153] fix: inline image data followed by EEI, or by EI at
 the end of the contents was lost

---
 src/pdfmm/base/PdfContentsReader.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfContentsReader.cpp b/src/pdfmm/base/PdfContentsReader.cpp
index 77ca11d..20af46c 100644
--- a/src/pdfmm/base/PdfContentsReader.cpp
+++ b/src/pdfmm/base/PdfContentsReader.cpp
@@ -391,7 +391,7 @@ bool PdfContentsReader::tryReadInlineImgData(charbuff& data)
             {
                 if (ch == 'I')
                     status = ReadEIStatus::ReadWhiteSpace;
-                else
+                else if (ch != 'E')
                     status = ReadEIStatus::ReadE;
 
                 break;
@@ -404,7 +404,7 @@ bool PdfContentsReader::tryReadInlineImgData(charbuff& data)
                     return true;
                 }
                 else
-                    status = ReadEIStatus::ReadE;
+                    status = ch == 'E' ? ReadEIStatus::ReadI : ReadEIStatus::ReadE;
 
                 break;
             }
@@ -420,6 +420,13 @@ bool PdfContentsReader::tryReadInlineImgData(charbuff& data)
         readCount++;
     }
 
+    if (status == ReadEIStatus::ReadWhiteSpace)
+    {
+        // The EI operator is the last token of the contents
+        data = bufferview(m_buffer->data(), readCount - 2);
+        return true;
+    }
+
     return false;
 }
 
-- 
2.43.0


From 1ea967f5bda7b3e4abc441d6ed3d01922eb23570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:36 +0000
Subject: [PATCH 062/153] fix: after an unterminated inline image in a form the
 contents of its caller were read as image data

---
 src/pdfmm/base/PdfContentsReader.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfContentsReader.cpp b/src/pdfmm/base/PdfContentsReader.cpp
index 20af46c..e39c0f2 100644
--- a/src/pdfmm/base/PdfContentsReader.cpp
+++ b/src/pdfmm/base/PdfContentsReader.cpp
@@ -52,11 +52,14 @@ bool PdfContentsReader::TryReadNext(PdfContent& content)
         {
             if (m_args.InlineImageHandler == nullptr)
             {
+                m_readingInlineImgData = false;
                 if (!tryReadInlineImgData(content.InlineImageData))
+                {
+                    content.Warnings |= PdfContentWarnings::MissingEndImage;
                     goto PopDevice;
+                }
 
                 content.Type = PdfContentType::ImageData;
-                m_readingInlineImgData = false;
                 afterReadClear(content);
                 return true;
             }
-- 
2.43.0


From c0a244a08129221f50d574fa52156cffb039bbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:36 +0000
Subject: [PATCH 063/153] fix: reading blocks of page contents lost the rest of
 a stream

---
 src/pdfmm/base/PdfCanvasInputDevice.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/pdfmm/base/PdfCanvasInputDevice.cpp b/src/pdfmm/base/PdfCanvasInputDevice.cpp
index 1c0cb19..fdfac8f 100644
--- a/src/pdfmm/base/PdfCanvasInputDevice.cpp
+++ b/src/pdfmm/base/PdfCanvasInputDevice.cpp
@@ -102,9 +102,6 @@ size_t PdfCanvasInputDevice::readBuffer(char* buffer, size_t size, bool& eof)
             return count;
         }
 
-        if (size == 0)
-            return count;
-
         if (m_deviceSwitchOccurred)
         {
             // Handle device switch by inserting
@@ -121,9 +118,15 @@ size_t PdfCanvasInputDevice::readBuffer(char* buffer, size_t size, bool& eof)
         // Span reads into multple input devices
         // NOTE: we ignore if the device reached EOF, and
         // we try pop another device at the next iteration
-        read = device->Read(buffer + count, size, eof);
+        bool deviceEof;
+        read = device->Read(buffer + count, size, deviceEof);
         size -= read;
         count += read;
+        if (size == 0)
+        {
+            eof = false;
+            return count;
+        }
     }
 }
 
-- 
2.43.0


From 49d3c23c0fbb7741b93f23b1f863e8965e1413de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:47 +0000
Subject: [PATCH 064/153] fix: XObjects without the optional /Type were not
 found

---
 src/pdfmm/base/PdfXObject.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfXObject.cpp b/src/pdfmm/base/PdfXObject.cpp
index 120fa1d..75925c2 100644
--- a/src/pdfmm/base/PdfXObject.cpp
+++ b/src/pdfmm/base/PdfXObject.cpp
@@ -67,10 +67,10 @@ bool PdfXObject::tryCreateFromObject(const PdfObject& obj, PdfXObjectType xobjTy
     const PdfDictionary* dict;
     const PdfObject* typeObj;
     const PdfName* name;
+    // NOTE: The /Type of XObjects is optional
     if (!obj.TryGetDictionary(dict)
-        || (typeObj = dict->GetKey(PdfName::KeyType)) == nullptr
-        || !typeObj->TryGetName(name)
-        || name->GetString() != "XObject")
+        || ((typeObj = dict->FindKey(PdfName::KeyType)) != nullptr
+            && (!typeObj->TryGetName(name) || name->GetString() != "XObject")))
     {
         xobj = nullptr;
         return false;
-- 
2.43.0


From 5fa729c798a9400288b122948f7ef40f9fa34de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:51 +0000
Subject: [PATCH 065/153] fix: the dictionary of an inline image kept the keys
 of the previous one

---
 src/pdfmm/base/PdfContentsReader.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pdfmm/base/PdfContentsReader.cpp b/src/pdfmm/base/PdfContentsReader.cpp
index e39c0f2..c107ff0 100644
--- a/src/pdfmm/base/PdfContentsReader.cpp
+++ b/src/pdfmm/base/PdfContentsReader.cpp
@@ -280,6 +280,7 @@ bool PdfContentsReader::tryHandleOperator(PdfContent& content)
 // Returns false in case of EOF
 bool PdfContentsReader::tryReadInlineImgDict(PdfContent& content)
 {
+    content.InlineImageDictionary.Clear();
     while (true)
     {
         if (!m_tokenizer.TryReadNext(*m_inputs.back().Device, m_temp.PsType, m_temp.Keyword, m_temp.Variant))
-- 
2.43.0


From 7b7a1ddf4113426c50e2d39624c1d7b9fbac4bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:36 +0000
Subject: [PATCH 066/153] fix: the code 0x16 of PdfDocEncoding was read as
 U+0017 and written back as 0x17

---
 src/pdfmm/private/PdfEncodingPrivate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/private/PdfEncodingPrivate.cpp b/src/pdfmm/private/PdfEncodingPrivate.cpp
index 7bb4cce..6908955 100644
--- a/src/pdfmm/private/PdfEncodingPrivate.cpp
+++ b/src/pdfmm/private/PdfEncodingPrivate.cpp
@@ -37,7 +37,7 @@ static const char32_t s_cEncoding[] = {
     0x0013,
     0x0014,
     0x0015,
-    0x0017,
+    0x0016,
     0x0017,
     0x02D8,
     0x02C7, // dec 25
-- 
2.43.0


From db431a0954eddcd4521c44685c798adc21dc5fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:36 +0000
Subject: [PATCH 067/153] fix: text beginning with the characters of a byte
 order mark was read back as UTF-16 or UTF-8

---
 src/pdfmm/base/PdfString.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfString.cpp b/src/pdfmm/base/PdfString.cpp
index 31be2a3..7dc808f 100644
--- a/src/pdfmm/base/PdfString.cpp
+++ b/src/pdfmm/base/PdfString.cpp
@@ -312,8 +312,13 @@ void PdfString::initFromUtf8String(const string_view& view)
         return;
     }
 
+    // NOTE: The PdfDocEncoding representation can't be used
+    // if it would be read as the mark of another encoding
     bool isAsciiEqual;
-    if (mm::CheckValidUTF8ToPdfDocEcondingChars(view, isAsciiEqual))
+    string pdfDocEncoded;
+    if (mm::CheckValidUTF8ToPdfDocEcondingChars(view, isAsciiEqual)
+            && (isAsciiEqual || (mm::TryConvertUTF8ToPdfDocEncoding(view, pdfDocEncoded)
+                && getEncoding(pdfDocEncoded) == StringEncoding::PdfDocEncoding)))
         m_data.reset(new StringData{ isAsciiEqual ? PdfStringState::Ascii : PdfStringState::PdfDocEncoding, charbuff(view) });
     else
         m_data.reset(new StringData{ PdfStringState::Unicode, charbuff(view) });
-- 
2.43.0


From 58e2e8867016f9fe059319071017828c1f127dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:08 +0000
Subject: [PATCH 068/153] fix: reading a string marked as UTF-8 with invalid
 contents made the document impossible to save

---
 src/pdfmm/base/PdfString.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfString.cpp b/src/pdfmm/base/PdfString.cpp
index 7dc808f..3cd8597 100644
--- a/src/pdfmm/base/PdfString.cpp
+++ b/src/pdfmm/base/PdfString.cpp
@@ -360,7 +360,11 @@ void PdfString::evaluateString() const
                 case StringEncoding::utf8:
                 {
                     // Remove BOM
-                    m_data->Chars.substr(3).swap(m_data->Chars);
+                    auto view = string_view(m_data->Chars).substr(3);
+                    if (!utf8::is_valid(view.begin(), view.end()))
+                        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidDataType, "Invalid UTF-8 string");
+
+                    string(view).swap(m_data->Chars);
                     m_data->State = PdfStringState::Unicode;
                     break;
                 }
-- 
2.43.0


From a9520c384c4594e2259bacbdc3eb3628ac0ae739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:49 +0000
Subject: [PATCH 069/153] fix: the contents reader was not exported by the
 shared library

---
 src/pdfmm/base/PdfContentsReader.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfContentsReader.h b/src/pdfmm/base/PdfContentsReader.h
index fdd55ad..45c892f 100644
--- a/src/pdfmm/base/PdfContentsReader.h
+++ b/src/pdfmm/base/PdfContentsReader.h
@@ -76,7 +76,7 @@ struct PdfContentReaderArgs
 
 /** Reader class to read content streams
  */
-class PdfContentsReader final
+class PDFMM_API PdfContentsReader final
 {
 public:
     PdfContentsReader(const PdfCanvas& canvas, nullable<const PdfContentReaderArgs&> args = { });
-- 
2.43.0


From 7d068e6356fc91e73959f977c0e8121493b10a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:18 +0000
Subject: [PATCH 070/153] fix: no entry for object 0 was written when object 1
 did not exist

---
 src/pdfmm/base/PdfWriter.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfWriter.cpp b/src/pdfmm/base/PdfWriter.cpp
index 43297a4..6cb5977 100644
--- a/src/pdfmm/base/PdfWriter.cpp
+++ b/src/pdfmm/base/PdfWriter.cpp
@@ -111,8 +111,9 @@ void PdfWriter::Write(OutputStreamDevice& device)
 
         WritePdfObjects(device, *m_Objects, *xRef);
 
-        if (m_IncrementalUpdate)
-            xRef->SetFirstEmptyBlock();
+        // Object 0 always has an entry, whatever
+        // the number of the first object is
+        xRef->SetFirstEmptyBlock();
 
         xRef->Write(device, m_buffer);
     }
-- 
2.43.0


From 2456a9392c97ac6932b40d712495609804efb7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:57 +0000
Subject: [PATCH 071/153] fix: streams with indirect filters were read from a
 wrong place of the file

---
 src/pdfmm/base/PdfParserObject.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfParserObject.cpp b/src/pdfmm/base/PdfParserObject.cpp
index 14ba48d..4f14c23 100644
--- a/src/pdfmm/base/PdfParserObject.cpp
+++ b/src/pdfmm/base/PdfParserObject.cpp
@@ -215,7 +215,6 @@ void PdfParserObject::parseStream()
     }
 
 ReadStream:
-    m_device->Seek(streamOffset);	// reset it before reading!
     if (m_Encrypt != nullptr && !m_Encrypt->IsMetadataEncrypted())
     {
         // If metadata is not encrypted the Filter is set to "Crypt"
@@ -232,15 +231,20 @@ ReadStream:
         }
     }
 
+    // NOTE: The filters may be indirect objects which have to be
+    // loaded from the same device: determine them before seeking
+    auto filters = PdfFilterFactory::CreateFilterList(*this);
+    m_device->Seek(streamOffset);	// reset it before reading!
+
     // Set stream raw data without marking the object dirty
     if (m_Encrypt != nullptr)
     {
         auto input = m_Encrypt->CreateEncryptionInputStream(*m_device, static_cast<size_t>(size), GetIndirectReference());
-        getOrCreateStream().InitData(*input, static_cast<ssize_t>(size), PdfFilterFactory::CreateFilterList(*this));
+        getOrCreateStream().InitData(*input, static_cast<ssize_t>(size), std::move(filters));
     }
     else
     {
-        getOrCreateStream().InitData(*m_device, static_cast<ssize_t>(size), PdfFilterFactory::CreateFilterList(*this));
+        getOrCreateStream().InitData(*m_device, static_cast<ssize_t>(size), std::move(filters));
     }
 }
 
-- 
2.43.0


From cf8e952ffae70584d25267eb29f215f149382ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:57 +0000
Subject: [PATCH 072/153] fix: encryption dictionaries without key length were
 rejected

---
 src/pdfmm/base/PdfEncrypt.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfEncrypt.cpp b/src/pdfmm/base/PdfEncrypt.cpp
index f9df75b..58b8776 100644
--- a/src/pdfmm/base/PdfEncrypt.cpp
+++ b/src/pdfmm/base/PdfEncrypt.cpp
@@ -486,8 +486,10 @@ unique_ptr<PdfEncrypt> PdfEncrypt::CreateFromObject(const PdfObject& encryptObj)
 
         if (encryptObj.GetDictionary().HasKey("Length"))
             length = encryptObj.GetDictionary().GetKey("Length")->GetNumber();
+        else if (lV == 4)
+            length = (int)PdfKeyLength::L128; // the crypt filters of version 4 have 128 bits keys
         else
-            length = 0;
+            length = (int)PdfKeyLength::L40;
 
         const PdfObject* encryptMetadataObj = encryptObj.GetDictionary().GetKey("EncryptMetadata");
         if (encryptMetadataObj != nullptr && encryptMetadataObj->IsBool())
-- 
2.43.0


From 48543fb5a3fa6d94160c2976f7719a08f9bef3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:12 +0000
Subject: [PATCH 073/153] fix: objects needed to read object streams were
 collected as garbage

---
 src/pdfmm/base/PdfIndirectObjectList.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pdfmm/base/PdfIndirectObjectList.cpp b/src/pdfmm/base/PdfIndirectObjectList.cpp
index dfa0cda..4e019f4 100644
--- a/src/pdfmm/base/PdfIndirectObjectList.cpp
+++ b/src/pdfmm/base/PdfIndirectObjectList.cpp
@@ -352,6 +352,15 @@ void PdfIndirectObjectList::CollectGarbage()
 
     unordered_set<PdfReference> referencedOjects;
     visitObject(m_Document->GetTrailer().GetObject(), referencedOjects);
+
+    // Object streams are always kept, so keep also the
+    // objects they need to be read, as their /Length
+    for (PdfObject* obj : m_Objects)
+    {
+        if (m_objectStreams.find(obj->GetIndirectReference().ObjectNumber()) != m_objectStreams.end())
+            visitObject(*obj, referencedOjects);
+    }
+
     vector<PdfObject*> objectsToDelete;
     ObjectList newlist(CompareObject);
     for (PdfObject* obj : m_Objects)
-- 
2.43.0


From 592f87cefd0622ef1af251f22eb99fd0039041c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:58 +0000
Subject: [PATCH 074/153] fix: objects with maximum generation number were not
 written as free

---
 src/pdfmm/base/PdfIndirectObjectList.h | 5 +++++
 src/pdfmm/base/PdfWriter.cpp           | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/src/pdfmm/base/PdfIndirectObjectList.h b/src/pdfmm/base/PdfIndirectObjectList.h
index 5ccba27..5469e8d 100644
--- a/src/pdfmm/base/PdfIndirectObjectList.h
+++ b/src/pdfmm/base/PdfIndirectObjectList.h
@@ -363,6 +363,11 @@ public:
      */
     inline const ReferenceList& GetFreeObjects() const { return m_FreeObjects; }
 
+    /** \returns the numbers of the deleted objects that can't be used again,
+     *  because they reached the maximum generation number
+     */
+    inline const std::set<uint32_t>& GetUnavailableObjects() const { return m_unavailableObjects; }
+
 private:
     PdfDocument* m_Document;
     bool m_CanReuseObjectNumbers;
diff --git a/src/pdfmm/base/PdfWriter.cpp b/src/pdfmm/base/PdfWriter.cpp
index 6cb5977..dd3000c 100644
--- a/src/pdfmm/base/PdfWriter.cpp
+++ b/src/pdfmm/base/PdfWriter.cpp
@@ -198,6 +198,10 @@ void PdfWriter::WritePdfObjects(OutputStreamDevice& device, const PdfIndirectObj
     {
         xref.AddFreeObject(freeObjectRef);
     }
+
+    // Objects with maximum generation number are free as well
+    for (uint32_t objectNum : objects.GetUnavailableObjects())
+        xref.AddFreeObject(PdfReference(objectNum, 65535));
 }
 
 void PdfWriter::FillTrailerObject(PdfObject& trailer, size_t size, bool onlySizeKey) const
-- 
2.43.0


From 84323d07338f94d2b82d995a6d71658ec9825ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:57 +0000
Subject: [PATCH 075/153] fix: dates without month or day were read as a day in
 another year

---
 src/pdfmm/base/PdfDate.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pdfmm/base/PdfDate.cpp b/src/pdfmm/base/PdfDate.cpp
index 9683b4c..826aa00 100644
--- a/src/pdfmm/base/PdfDate.cpp
+++ b/src/pdfmm/base/PdfDate.cpp
@@ -200,8 +200,9 @@ bool PdfDate::operator!=(const PdfDate& rhs) const
 bool tryParse(const string_view& dateStr, chrono::seconds& secondsFromEpoch, nullable<chrono::minutes>& minutesFromUtc)
 {
     int y = 0;
-    int m = 0;
-    int d = 0;
+    // Month and day default to 1
+    int m = 1;
+    int d = 1;
     int h = 0;
     int M = 0;
     int s = 0;
@@ -292,8 +293,9 @@ End:
 bool tryParseW3C(const string_view& dateStr, chrono::seconds& secondsFromEpoch, nullable<chrono::minutes>& minutesFromUtc)
 {
     int y = 0;
-    int m = 0;
-    int d = 0;
+    // Month and day default to 1
+    int m = 1;
+    int d = 1;
     int h = 0;
     int M = 0;
     int s = 0;
-- 
2.43.0


From cbb042b2f2eb5df33f71afb87aab519d6e967aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:57 +0000
Subject: [PATCH 076/153] fix: dates were read beyond the end of the text

---
 src/pdfmm/base/PdfDate.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/pdfmm/base/PdfDate.cpp b/src/pdfmm/base/PdfDate.cpp
index 826aa00..b7853cf 100644
--- a/src/pdfmm/base/PdfDate.cpp
+++ b/src/pdfmm/base/PdfDate.cpp
@@ -212,10 +212,13 @@ bool tryParse(const string_view& dateStr, chrono::seconds& secondsFromEpoch, nul
     int zoneHour = 0;
     int zoneMin = 0;
 
-    const char* cursor = dateStr.data();
-    if (cursor == nullptr)
+    if (dateStr.data() == nullptr || dateStr.find('\0') != string_view::npos)
         return false;
 
+    // The view may be not null terminated
+    string terminated(dateStr);
+    const char* cursor = terminated.c_str();
+
     if (*cursor == 'D')
     {
         cursor++;
@@ -305,10 +308,13 @@ bool tryParseW3C(const string_view& dateStr, chrono::seconds& secondsFromEpoch,
     int zoneHour = 0;
     int zoneMin = 0;
 
-    const char* cursor = dateStr.data();
-    if (cursor == nullptr || *cursor == '\0')
+    if (dateStr.empty() || dateStr.find('\0') != string_view::npos)
         return false;
 
+    // The view may be not null terminated
+    string terminated(dateStr);
+    const char* cursor = terminated.c_str();
+
     if (!parseFixLenNumber(cursor, 4, 0, 9999, y))
         return false;
 
-- 
2.43.0


From 6feb0da44548720760c770c225f27736a35f4e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:57 +0000
Subject: [PATCH 077/153] fix: the zone of dates with fractions of a second was
 ignored, and trailing characters accepted

---
 src/pdfmm/base/PdfDate.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfDate.cpp b/src/pdfmm/base/PdfDate.cpp
index b7853cf..c0acfbe 100644
--- a/src/pdfmm/base/PdfDate.cpp
+++ b/src/pdfmm/base/PdfDate.cpp
@@ -257,13 +257,14 @@ bool tryParse(const string_view& dateStr, chrono::seconds& secondsFromEpoch, nul
         return false;
 
     PEEK_DATE_CHAR(cursor, zoneShift);
+    return false;
 
 ParseShift:
     hasZoneShift = true;
     if (*cursor != '\0')
     {
         if (!parseFixLenNumber(cursor, 2, 0, 59, zoneHour))
-            goto End;
+            return false;
 
         if (*cursor == '\'')
         {
@@ -346,15 +347,31 @@ bool tryParseW3C(const string_view& dateStr, chrono::seconds& secondsFromEpoch,
     if (!parseFixLenNumber(cursor, 2, 0, 59, s))
         return false;
 
+    if (*cursor == '.')
+    {
+        // Ignore the fraction of the second
+        cursor++;
+        if (!isdigit(*cursor))
+            return false;
+
+        while (isdigit(*cursor))
+            cursor++;
+    }
+
     if (!tryReadShiftChar(cursor, zoneShift))
+    {
+        if (*cursor != '\0')
+            return false;
+
         goto End;
+    }
 
 ParseShift:
     hasZoneShift = true;
     if (*cursor != '\0')
     {
         if (!parseFixLenNumber(cursor, 2, 0, 59, zoneHour))
-            goto End;
+            return false;
 
         if (*cursor == ':')
         {
-- 
2.43.0


From 9060f17ce3f99c9334d9f4700fe19843b1edf2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:19 +0000
Subject: [PATCH 078/153] fix: some metadata operations ignored the metadata of
 a loaded document

---
 src/pdfmm/base/PdfMetadata.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pdfmm/base/PdfMetadata.cpp b/src/pdfmm/base/PdfMetadata.cpp
index 3b41bd0..a24256b 100644
--- a/src/pdfmm/base/PdfMetadata.cpp
+++ b/src/pdfmm/base/PdfMetadata.cpp
@@ -44,6 +44,7 @@ const nullable<PdfString>& PdfMetadata::GetTitle() const
 
 void PdfMetadata::SetAuthor(nullable<const PdfString&> author, bool syncXMP)
 {
+    ensureInitialized();
     if (m_metadata.Author == author)
         return;
 
@@ -288,6 +289,7 @@ void PdfMetadata::SyncXMPMetadata(bool forceCreationXMP)
 
 unique_ptr<PdfXMPPacket> PdfMetadata::TakeXMPPacket()
 {
+    ensureInitialized();
     if (m_packet == nullptr)
         return nullptr;
 
@@ -303,6 +305,7 @@ unique_ptr<PdfXMPPacket> PdfMetadata::TakeXMPPacket()
 
 void PdfMetadata::EnsureXMPMetadata()
 {
+    ensureInitialized();
     if (m_packet == nullptr)
         mm::UpdateOrCreateXMPMetadata(m_packet, m_metadata);
 
-- 
2.43.0


From 0897de79c71a4a5b7cea5e9859a22a8aa3eec969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:19 +0000
Subject: [PATCH 079/153] fix: XMP metadata different from the information
 dictionary was taken as synchronized

---
 src/pdfmm/base/PdfMetadata.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfMetadata.cpp b/src/pdfmm/base/PdfMetadata.cpp
index a24256b..3287e7b 100644
--- a/src/pdfmm/base/PdfMetadata.cpp
+++ b/src/pdfmm/base/PdfMetadata.cpp
@@ -14,6 +14,8 @@
 using namespace std;
 using namespace mm;
 
+static bool isSameMetadata(const PdfXMPMetadata& lhs, const PdfXMPMetadata& rhs);
+
 PdfMetadata::PdfMetadata(PdfDocument& doc)
     : m_doc(&doc), m_initialized(false), m_xmpSynced(false)
 {
@@ -384,7 +386,9 @@ void PdfMetadata::ensureInitialized()
         if (m_metadata.ModDate == nullptr)
             m_metadata.ModDate = xmpMetadata.ModDate;
         m_metadata.PdfaLevel = xmpMetadata.PdfaLevel;
-        m_xmpSynced = true;
+
+        // The XMP may differ from the /Info dictionary
+        m_xmpSynced = isSameMetadata(m_metadata, xmpMetadata);
     }
 
     m_initialized = true;
@@ -399,3 +403,16 @@ void PdfMetadata::syncXMPMetadata(bool forceCreationXMP)
     m_doc->GetCatalog().SetMetadataStreamValue(m_packet->ToString());
     m_xmpSynced = true;
 }
+
+bool isSameMetadata(const PdfXMPMetadata& lhs, const PdfXMPMetadata& rhs)
+{
+    return lhs.Title == rhs.Title
+        && lhs.Author == rhs.Author
+        && lhs.Subject == rhs.Subject
+        && lhs.Keywords == rhs.Keywords
+        && lhs.Creator == rhs.Creator
+        && lhs.Producer == rhs.Producer
+        && lhs.CreationDate == rhs.CreationDate
+        && lhs.ModDate == rhs.ModDate
+        && lhs.PdfaLevel == rhs.PdfaLevel;
+}
-- 
2.43.0


From f4da5d4a470ade23b15e6e38d1dbb7676892b3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:19 +0000
Subject: [PATCH 080/153] fix: metadata changed in the second of the
 modification date was not written to the XMP

---
 src/pdfmm/base/PdfMemDocument.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pdfmm/base/PdfMemDocument.cpp b/src/pdfmm/base/PdfMemDocument.cpp
index 575808d..1f72cb6 100644
--- a/src/pdfmm/base/PdfMemDocument.cpp
+++ b/src/pdfmm/base/PdfMemDocument.cpp
@@ -306,6 +306,9 @@ void PdfMemDocument::beforeWrite(PdfSaveOptions opts)
         PdfSaveOptions::None)
     {
         GetMetadata().SetModifyDate(PdfDate::LocalNow(), true);
+
+        // The date may be unchanged while other metadata is not synchronized
+        GetMetadata().SyncXMPMetadata(false);
     }
 
     if ((opts & PdfSaveOptions::NoCollectGarbage) ==
-- 
2.43.0


From 973df4b697460dbfb56b26383f88ef7bab2b6e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:19 +0000
Subject: [PATCH 081/153] fix: keywords were read with their separators

---
 src/pdfmm/private/PdfDeclarationsPrivate.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/private/PdfDeclarationsPrivate.cpp b/src/pdfmm/private/PdfDeclarationsPrivate.cpp
index e90393b..6ea5068 100644
--- a/src/pdfmm/private/PdfDeclarationsPrivate.cpp
+++ b/src/pdfmm/private/PdfDeclarationsPrivate.cpp
@@ -462,13 +462,14 @@ vector<string> mm::ToPdfKeywordsList(const string_view& str)
     string token;
     while (it != end)
     {
+        auto tokenEnd = it;
         auto ch = (char32_t)utf8::next(it, end);
         switch (ch)
         {
             case U'\r':
             case U'\n':
             {
-                token = string(tokenStart, it);
+                token = string(tokenStart, tokenEnd);
                 if (token.length() != 0)
                     ret.push_back(std::move(token));
                 tokenStart = it;
-- 
2.43.0


From e7f5071f5758f7b017d6266abd3c22b4d8eae57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:19 +0000
Subject: [PATCH 082/153] fix: characters with a meaning in XML were not
 escaped in XMP metadata

---
 src/pdfmm/base/PdfXMPPacket.cpp | 2 +-
 src/pdfmm/private/XMPUtils.cpp  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfXMPPacket.cpp b/src/pdfmm/base/PdfXMPPacket.cpp
index 492e3bd..6dbf7c7 100644
--- a/src/pdfmm/base/PdfXMPPacket.cpp
+++ b/src/pdfmm/base/PdfXMPPacket.cpp
@@ -235,7 +235,7 @@ void normalizeElement(xmlDocPtr doc, xmlNodePtr elem)
             continue;
 
         auto value = utls::GetAttributeValue(attr);
-        if (xmlNewChild(elem, attr->ns, attr->name, XMLCHAR value.data()) == nullptr)
+        if (xmlNewTextChild(elem, attr->ns, attr->name, XMLCHAR value.data()) == nullptr)
             THROW_LIBXML_EXCEPTION("Can't create value replacement node");
 
         attribsToRemove.push_back(attr);
diff --git a/src/pdfmm/private/XMPUtils.cpp b/src/pdfmm/private/XMPUtils.cpp
index f653d4d..0e93943 100644
--- a/src/pdfmm/private/XMPUtils.cpp
+++ b/src/pdfmm/private/XMPUtils.cpp
@@ -283,7 +283,7 @@ void addXMPProperty(xmlDocPtr doc, xmlNodePtr description,
         }
         default:
         {
-            xmlNodeSetContent(element, XMLCHAR values[0].data());
+            xmlNodeAddContent(element, XMLCHAR values[0].data());
             break;
         }
     }
@@ -330,7 +330,7 @@ void utls::SetListNodeContent(xmlDocPtr doc, xmlNodePtr node, XMPListType seqTyp
                 THROW_LIBXML_EXCEPTION(utls::Format("Can't set xml:lang attribute on rdf:li node"));
         }
 
-        xmlNodeSetContent(liElem, XMLCHAR view.data());
+        xmlNodeAddContent(liElem, XMLCHAR view.data());
     }
 
     newNode = innerElem->children;
-- 
2.43.0


From 178e9dd645375a67d1458c4a5dc16341ad8137c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:19 +0000
Subject: [PATCH 083/153] fix: the creator was not read from the XMP metadata

---
 src/pdfmm/private/XMPUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/private/XMPUtils.cpp b/src/pdfmm/private/XMPUtils.cpp
index 0e93943..dcd1166 100644
--- a/src/pdfmm/private/XMPUtils.cpp
+++ b/src/pdfmm/private/XMPUtils.cpp
@@ -97,7 +97,7 @@ PdfXMPMetadata mm::GetXMPMetadata(const string_view& xmpview, unique_ptr<PdfXMPP
 
     childElement = utls::FindChildElement(description, "xmp", "CreatorTool");
     if (childElement != nullptr)
-        metadata.Creator = getListElementText(childElement);
+        metadata.Creator = getElementText(childElement);
 
     childElement = utls::FindChildElement(description, "pdf", "Producer");
     if (childElement != nullptr)
-- 
2.43.0


From ab9c00018dfdfffa8827368eb9a9d2a99ea93f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:19 +0000
Subject: [PATCH 084/153] fix: documents with invalid dates in their metadata
 could not be saved

---
 src/pdfmm/base/PdfInfo.cpp     | 10 ++++++----
 src/pdfmm/private/XMPUtils.cpp | 15 +++++++++++----
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/pdfmm/base/PdfInfo.cpp b/src/pdfmm/base/PdfInfo.cpp
index 672721c..40d908b 100644
--- a/src/pdfmm/base/PdfInfo.cpp
+++ b/src/pdfmm/base/PdfInfo.cpp
@@ -147,20 +147,22 @@ nullable<const PdfString&> PdfInfo::GetProducer() const
 
 nullable<PdfDate> PdfInfo::GetCreationDate() const
 {
+    PdfDate date;
     auto datestr = this->getStringFromInfoDict("CreationDate");
-    if (datestr == nullptr)
+    if (datestr == nullptr || !PdfDate::TryParse(*datestr, date))
         return nullptr;
     else
-        return PdfDate::Parse(*datestr);
+        return date;
 }
 
 nullable<PdfDate> PdfInfo::GetModDate() const
 {
+    PdfDate date;
     auto datestr = this->getStringFromInfoDict("ModDate");
-    if (datestr == nullptr)
+    if (datestr == nullptr || !PdfDate::TryParse(*datestr, date))
         return nullptr;
     else
-        return PdfDate::Parse(*datestr);
+        return date;
 }
 
 nullable<const PdfName&> PdfInfo::GetTrapped() const
diff --git a/src/pdfmm/private/XMPUtils.cpp b/src/pdfmm/private/XMPUtils.cpp
index dcd1166..82bf29e 100644
--- a/src/pdfmm/private/XMPUtils.cpp
+++ b/src/pdfmm/private/XMPUtils.cpp
@@ -63,6 +63,7 @@ PdfXMPMetadata mm::GetXMPMetadata(const string_view& xmpview, unique_ptr<PdfXMPP
 
     xmlNodePtr childElement = nullptr;
     nullable<PdfString> text;
+    PdfDate date;
 
     {
         nullable<string> pdfaid_part;
@@ -104,12 +105,18 @@ PdfXMPMetadata mm::GetXMPMetadata(const string_view& xmpview, unique_ptr<PdfXMPP
         metadata.Producer = getElementText(childElement);
 
     childElement = utls::FindChildElement(description, "xmp", "CreateDate");
-    if (childElement != nullptr && (text = getElementText(childElement)) != nullptr)
-        metadata.CreationDate = PdfDate::ParseW3C(*text);
+    if (childElement != nullptr && (text = getElementText(childElement)) != nullptr
+        && PdfDate::TryParseW3C(*text, date))
+    {
+        metadata.CreationDate = date;
+    }
 
     childElement = utls::FindChildElement(description, "xmp", "ModifyDate");
-    if (childElement != nullptr && (text = getElementText(childElement)) != nullptr)
-        metadata.ModDate = PdfDate::ParseW3C(*text);
+    if (childElement != nullptr && (text = getElementText(childElement)) != nullptr
+        && PdfDate::TryParseW3C(*text, date))
+    {
+        metadata.ModDate = date;
+    }
 
     return metadata;
 }
-- 
2.43.0


From 2384ce1a70019175439d0ced8d64bbff115c901a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:19 +0000
Subject: [PATCH 085/153] fix: a document loaded over another one showed the
 metadata of the other one

---
 src/pdfmm/base/PdfDocument.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pdfmm/base/PdfDocument.cpp b/src/pdfmm/base/PdfDocument.cpp
index 8ccd5d2..7955feb 100644
--- a/src/pdfmm/base/PdfDocument.cpp
+++ b/src/pdfmm/base/PdfDocument.cpp
@@ -78,6 +78,7 @@ void PdfDocument::Clear()
     m_AcroForm = nullptr;
     m_Outlines = nullptr;
     m_NameTree = nullptr;
+    m_Metadata.Invalidate();
     m_Objects.Clear();
     m_Objects.SetCanReuseObjectNumbers(true);
 }
-- 
2.43.0


From b42abbb789c765215dc9fa1fc6445663e4de23d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:18 +0000
Subject: [PATCH 086/153] fix: the comparison of nullable values with nullable
 references was inverted, and metadata not set

---
 src/pdfmm/common/nullable.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/common/nullable.h b/src/pdfmm/common/nullable.h
index 1fbb79e..99b2fa1 100644
--- a/src/pdfmm/common/nullable.h
+++ b/src/pdfmm/common/nullable.h
@@ -241,12 +241,12 @@ namespace COMMON_NAMESPACE
     bool operator==(const nullable<std::decay_t<T2>>& lhs, const nullable<T2&>& rhs)
     {
         if (lhs.m_hasValue != rhs.m_hasValue)
-            return true;
+            return false;
 
         if (lhs.m_hasValue)
-            return lhs.m_value != *rhs.m_value;
+            return lhs.m_value == *rhs.m_value;
         else
-            return false;
+            return true;
     }
 
     template <typename T2>
-- 
2.43.0


From 8e60fb25878ada18b2fa0044da6a9c6289ad787f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:25 +0000
Subject: [PATCH 087/153] fix: assigning to an object one of the objects it is
 part of lost the part

---
 src/pdfmm/base/PdfObject.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfObject.cpp b/src/pdfmm/base/PdfObject.cpp
index c1932cb..338720a 100644
--- a/src/pdfmm/base/PdfObject.cpp
+++ b/src/pdfmm/base/PdfObject.cpp
@@ -447,9 +447,11 @@ void PdfObject::assign(const PdfObject& rhs)
         return;
 
     rhs.DelayedLoad();
-    // Keep the previous value alive, rhs may be part of it
+    // Copy before replacing the value and keep the previous one
+    // alive: rhs may be part of it, or this may be part of rhs
+    PdfVariant value(rhs.m_Variant);
     PdfVariant previous(std::move(m_Variant));
-    m_Variant = rhs.m_Variant;
+    m_Variant = std::move(value);
     m_IsDelayedLoadDone = true;
     SetVariantOwner();
     copyStreamFrom(rhs);
-- 
2.43.0


From 5021963046715ecb056e35f9a803213725d8552d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:25 +0000
Subject: [PATCH 088/153] fix: assigning to an array an array that is part of
 it, or the other way round, used freed elements

---
 src/pdfmm/base/PdfArray.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfArray.cpp b/src/pdfmm/base/PdfArray.cpp
index a3ab8c5..cf5162d 100644
--- a/src/pdfmm/base/PdfArray.cpp
+++ b/src/pdfmm/base/PdfArray.cpp
@@ -65,7 +65,9 @@ PdfObject& PdfArray::MustFindAt(unsigned idx)
 
 PdfArray& PdfArray::operator=(const PdfArray& rhs)
 {
-    m_Objects = rhs.m_Objects;
+    // Copy first, rhs may be part of the current elements
+    PdfArrayList elements(rhs.m_Objects);
+    m_Objects.swap(elements);
     setChildrenParent();
     SetDirty();
     return *this;
@@ -73,7 +75,9 @@ PdfArray& PdfArray::operator=(const PdfArray& rhs)
 
 PdfArray& PdfArray::operator=(PdfArray&& rhs) noexcept
 {
-    m_Objects = std::move(rhs.m_Objects);
+    // Take the elements first, rhs may be part of the current ones
+    PdfArrayList elements(std::move(rhs.m_Objects));
+    m_Objects.swap(elements);
     setChildrenParent();
     SetDirty();
     return *this;
-- 
2.43.0


From f9605f66a47b4274a5ca11c06f18c91c744ca4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:25 +0000
Subject: [PATCH 089/153] fix: assigning to a dictionary a dictionary that is
 part of it, or the other way round, used freed elements

---
 src/pdfmm/base/PdfDictionary.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfDictionary.cpp b/src/pdfmm/base/PdfDictionary.cpp
index 39fd840..2e98ba2 100644
--- a/src/pdfmm/base/PdfDictionary.cpp
+++ b/src/pdfmm/base/PdfDictionary.cpp
@@ -28,7 +28,9 @@ PdfDictionary::PdfDictionary(PdfDictionary&& rhs) noexcept
 
 PdfDictionary& PdfDictionary::operator=(const PdfDictionary& rhs)
 {
-    m_Map = rhs.m_Map;
+    // Copy first, rhs may be part of the current elements
+    PdfDictionaryMap elements(rhs.m_Map);
+    m_Map.swap(elements);
     setChildrenParent();
     SetDirty();
     return *this;
@@ -36,7 +38,9 @@ PdfDictionary& PdfDictionary::operator=(const PdfDictionary& rhs)
 
 PdfDictionary& PdfDictionary::operator=(PdfDictionary&& rhs) noexcept
 {
-    m_Map = std::move(rhs.m_Map);
+    // Take the elements first, rhs may be part of the current ones
+    PdfDictionaryMap elements(std::move(rhs.m_Map));
+    m_Map.swap(elements);
     setChildrenParent();
     SetDirty();
     return *this;
-- 
2.43.0


From 55c735cceab8dfcebe34185a8d3ade595dcd9eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:25 +0000
Subject: [PATCH 090/153] fix: FindKeyParent did not end when the parents are
 in a loop

---
 src/pdfmm/base/PdfDictionary.cpp | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/src/pdfmm/base/PdfDictionary.cpp b/src/pdfmm/base/PdfDictionary.cpp
index 2e98ba2..6c291a9 100644
--- a/src/pdfmm/base/PdfDictionary.cpp
+++ b/src/pdfmm/base/PdfDictionary.cpp
@@ -153,26 +153,23 @@ PdfObject* PdfDictionary::findKey(const string_view& key) const
 
 PdfObject* PdfDictionary::findKeyParent(const string_view& key) const
 {
-    PdfObject* obj = findKey(key);
-    if (obj == nullptr)
+    // Dictionaries already visited: the parents may be in a loop
+    set<const PdfDictionary*> visited;
+    const PdfDictionary* dict = this;
+    while (visited.insert(dict).second)
     {
-        PdfObject* parent = findKey("Parent");
-        if (parent == nullptr)
-        {
+        PdfObject* obj = dict->findKey(key);
+        if (obj != nullptr)
+            return obj;
+
+        PdfObject* parent = dict->findKey("Parent");
+        if (parent == nullptr || !parent->IsDictionary())
             return nullptr;
-        }
-        else
-        {
-            if (parent->IsDictionary())
-                return parent->GetDictionary().findKeyParent(key);
-            else
-                return nullptr;
-        }
-    }
-    else
-    {
-        return obj;
+
+        dict = &parent->GetDictionary();
     }
+
+    return nullptr;
 }
 
 bool PdfDictionary::HasKey(const string_view& key) const
-- 
2.43.0


From 9454e7eb0bf46a8a262646145c13b3f16bc188ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:32 +0000
Subject: [PATCH 091/153] fix: the maximum length of text fields was not read,
 and not enforced

---
 src/pdfmm/base/PdfTextBox.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfTextBox.cpp b/src/pdfmm/base/PdfTextBox.cpp
index 6f3ceb2..842b3ea 100644
--- a/src/pdfmm/base/PdfTextBox.cpp
+++ b/src/pdfmm/base/PdfTextBox.cpp
@@ -42,9 +42,12 @@ void PdfTextBox::SetText(nullable<const PdfString&> text)
     if (text.has_value())
     {
 
-        // if text is longer than maxlen, truncate it
+        // MaxLen is the maximum number of characters: don't count
+        // the continuation bytes of the UTF-8 string
         int64_t maxLength = this->GetMaxLen();
-        if (maxLength != -1 && text->GetString().length() > (unsigned)maxLength)
+        auto& str = text->GetString();
+        int64_t length = std::count_if(str.begin(), str.end(), [](char ch) { return (ch & 0xC0) != 0x80; });
+        if (maxLength != -1 && length > maxLength)
             PDFMM_RAISE_ERROR_INFO(PdfErrorCode::ValueOutOfRange, "Unable to set text larger MaxLen");
 
         GetDictionary().AddKey(key, *text);
@@ -76,7 +79,7 @@ int64_t PdfTextBox::GetMaxLen() const
 {
     int64_t ret;
     auto found = GetDictionary().FindKeyParent("MaxLen");
-    if (found == nullptr || found->TryGetNumber(ret))
+    if (found == nullptr || !found->TryGetNumber(ret))
         return -1;
 
     return ret;
-- 
2.43.0


From bd5fd7731386bbca96cdc99673b51d4cd6a1289a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:32 +0000
Subject: [PATCH 092/153] fix: the getters of spell checking and scroll bars of
 fields returned the opposite

---
 src/pdfmm/base/PdfChoiceField.cpp | 2 +-
 src/pdfmm/base/PdfTextBox.cpp     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfChoiceField.cpp b/src/pdfmm/base/PdfChoiceField.cpp
index 12188c0..ee20d12 100644
--- a/src/pdfmm/base/PdfChoiceField.cpp
+++ b/src/pdfmm/base/PdfChoiceField.cpp
@@ -184,7 +184,7 @@ void PdChoiceField::SetSpellcheckingEnabled(bool spellCheck)
 
 bool PdChoiceField::IsSpellcheckingEnabled() const
 {
-    return this->GetFieldFlag(static_cast<int>(ePdfListField_NoSpellcheck), true);
+    return !this->GetFieldFlag(static_cast<int>(ePdfListField_NoSpellcheck), false);
 }
 
 void PdChoiceField::SetSorted(bool sorted)
diff --git a/src/pdfmm/base/PdfTextBox.cpp b/src/pdfmm/base/PdfTextBox.cpp
index 842b3ea..f9e7334 100644
--- a/src/pdfmm/base/PdfTextBox.cpp
+++ b/src/pdfmm/base/PdfTextBox.cpp
@@ -122,7 +122,7 @@ void PdfTextBox::SetSpellcheckingEnabled(bool spellcheck)
 
 bool PdfTextBox::IsSpellcheckingEnabled() const
 {
-    return this->GetFieldFlag(static_cast<int>(PdfTextBox_NoSpellcheck), true);
+    return !this->GetFieldFlag(static_cast<int>(PdfTextBox_NoSpellcheck), false);
 }
 
 void PdfTextBox::SetScrollBarsEnabled(bool scroll)
@@ -132,7 +132,7 @@ void PdfTextBox::SetScrollBarsEnabled(bool scroll)
 
 bool PdfTextBox::IsScrollBarsEnabled() const
 {
-    return this->GetFieldFlag(static_cast<int>(PdfTextBox_NoScroll), true);
+    return !this->GetFieldFlag(static_cast<int>(PdfTextBox_NoScroll), false);
 }
 
 void PdfTextBox::SetCombs(bool combs)
-- 
2.43.0


From 4fdc8aa539e7c2df8e065247e7305eea4a8f0fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:33 +0000
Subject: [PATCH 093/153] fix: the action for losing the focus had the wrong
 key

---
 src/pdfmm/base/PdfField.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfField.cpp b/src/pdfmm/base/PdfField.cpp
index 428a2d1..10c3dd5 100644
--- a/src/pdfmm/base/PdfField.cpp
+++ b/src/pdfmm/base/PdfField.cpp
@@ -769,7 +769,7 @@ void PdfField::SetFocusEnterAction(const PdfAction& action)
 
 void PdfField::SetFocusLeaveAction(const PdfAction& action)
 {
-    this->addAlternativeAction("BI", action);
+    this->addAlternativeAction("Bl", action);
 }
 
 void PdfField::SetPageOpenAction(const PdfAction& action)
-- 
2.43.0


From 9feeb4f21e9be6d8f6b433e71566b3d150d294b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:33 +0000
Subject: [PATCH 094/153] fix: the selection of choice fields was not found
 when it is inherited

---
 src/pdfmm/base/PdfChoiceField.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfChoiceField.cpp b/src/pdfmm/base/PdfChoiceField.cpp
index ee20d12..518e19b 100644
--- a/src/pdfmm/base/PdfChoiceField.cpp
+++ b/src/pdfmm/base/PdfChoiceField.cpp
@@ -139,7 +139,7 @@ void PdChoiceField::SetSelectedIndex(int index)
 int PdChoiceField::GetSelectedIndex() const
 {
     AssertTerminalField();
-    auto* valueObj = GetObject().GetDictionary().FindKey("V");
+    auto* valueObj = GetObject().GetDictionary().FindKeyParent("V");
     if (valueObj == nullptr || !valueObj->IsString())
         return -1;
 
-- 
2.43.0


From 9048ec50b934eb7979e0ca1f48c9fa03a89f2aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:33 +0000
Subject: [PATCH 095/153] fix: the captions of buttons without a widget
 dereferenced a null pointer

---
 src/pdfmm/base/PdfButton.cpp     |  6 +++---
 src/pdfmm/base/PdfPushButton.cpp | 12 ++++++------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/pdfmm/base/PdfButton.cpp b/src/pdfmm/base/PdfButton.cpp
index 37cf698..f128442 100644
--- a/src/pdfmm/base/PdfButton.cpp
+++ b/src/pdfmm/base/PdfButton.cpp
@@ -48,11 +48,11 @@ void PdfButton::SetCaption(nullable<const PdfString&> text)
 {
     if (text.has_value())
     {
-        GetWidget()->GetOrCreateAppearanceCharacteristics().SetCaption(*text);
+        MustGetWidget().GetOrCreateAppearanceCharacteristics().SetCaption(*text);
     }
     else
     {
-        auto apChars = GetWidget()->GetAppearanceCharacteristics();
+        auto apChars = MustGetWidget().GetAppearanceCharacteristics();
         if (apChars != nullptr)
             apChars->SetCaption(nullptr);
     }
@@ -60,7 +60,7 @@ void PdfButton::SetCaption(nullable<const PdfString&> text)
 
 nullable<const PdfString&> PdfButton::GetCaption() const
 {
-    auto apChars = GetWidget()->GetAppearanceCharacteristics();
+    auto apChars = MustGetWidget().GetAppearanceCharacteristics();
     if (apChars == nullptr)
         return { };
 
diff --git a/src/pdfmm/base/PdfPushButton.cpp b/src/pdfmm/base/PdfPushButton.cpp
index 987c1de..9b749e8 100644
--- a/src/pdfmm/base/PdfPushButton.cpp
+++ b/src/pdfmm/base/PdfPushButton.cpp
@@ -39,11 +39,11 @@ void PdfPushButton::SetRolloverCaption(nullable<const PdfString&> text)
 {
     if (text.has_value())
     {
-        GetWidget()->GetOrCreateAppearanceCharacteristics().SetRolloverCaption(*text);
+        MustGetWidget().GetOrCreateAppearanceCharacteristics().SetRolloverCaption(*text);
     }
     else
     {
-        auto apChars = GetWidget()->GetAppearanceCharacteristics();
+        auto apChars = MustGetWidget().GetAppearanceCharacteristics();
         if (apChars != nullptr)
             apChars->SetRolloverCaption(nullptr);
     }
@@ -51,7 +51,7 @@ void PdfPushButton::SetRolloverCaption(nullable<const PdfString&> text)
 
 nullable<const PdfString&>  PdfPushButton::GetRolloverCaption() const
 {
-    auto apChars = GetWidget()->GetAppearanceCharacteristics();
+    auto apChars = MustGetWidget().GetAppearanceCharacteristics();
     if (apChars == nullptr)
         return { };
 
@@ -62,11 +62,11 @@ void PdfPushButton::SetAlternateCaption(nullable<const PdfString&> text)
 {
     if (text.has_value())
     {
-        GetWidget()->GetOrCreateAppearanceCharacteristics().SetAlternateCaption(*text);
+        MustGetWidget().GetOrCreateAppearanceCharacteristics().SetAlternateCaption(*text);
     }
     else
     {
-        auto apChars = GetWidget()->GetAppearanceCharacteristics();
+        auto apChars = MustGetWidget().GetAppearanceCharacteristics();
         if (apChars != nullptr)
             apChars->SetAlternateCaption(nullptr);
     }
@@ -75,7 +75,7 @@ void PdfPushButton::SetAlternateCaption(nullable<const PdfString&> text)
 
 nullable<const PdfString&> PdfPushButton::GetAlternateCaption() const
 {
-    auto apChars = GetWidget()->GetAppearanceCharacteristics();
+    auto apChars = MustGetWidget().GetAppearanceCharacteristics();
     if (apChars == nullptr)
         return { };
 
-- 
2.43.0


From c48551a24b14be269bb2098a00495eacaeb0aa15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:33 +0000
Subject: [PATCH 096/153] fix: iterating fields, their children or annotations
 found none when nothing else was asked before

---
 src/pdfmm/base/PdfAcroForm.cpp                | 4 ++++
 src/pdfmm/base/PdfAnnotationCollection.cpp    | 4 ++++
 src/pdfmm/base/PdfAnnotationCollection.h      | 4 ++--
 src/pdfmm/base/PdfFieldChildrenCollection.cpp | 4 ++++
 src/pdfmm/base/PdfFieldChildrenCollection.h   | 4 ++--
 5 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/pdfmm/base/PdfAcroForm.cpp b/src/pdfmm/base/PdfAcroForm.cpp
index ddf5fd1..46d884b 100644
--- a/src/pdfmm/base/PdfAcroForm.cpp
+++ b/src/pdfmm/base/PdfAcroForm.cpp
@@ -150,21 +150,25 @@ unsigned PdfAcroForm::GetFieldCount() const
 
 PdfAcroForm::iterator PdfAcroForm::begin()
 {
+    initFields();
     return iterator(m_Fields.begin());
 }
 
 PdfAcroForm::iterator PdfAcroForm::end()
 {
+    initFields();
     return iterator(m_Fields.end());
 }
 
 PdfAcroForm::const_iterator PdfAcroForm::begin() const
 {
+    const_cast<PdfAcroForm&>(*this).initFields();
     return const_iterator(m_Fields.begin());
 }
 
 PdfAcroForm::const_iterator PdfAcroForm::end() const
 {
+    const_cast<PdfAcroForm&>(*this).initFields();
     return const_iterator(m_Fields.end());
 }
 
diff --git a/src/pdfmm/base/PdfAnnotationCollection.cpp b/src/pdfmm/base/PdfAnnotationCollection.cpp
index af15e10..26145dd 100644
--- a/src/pdfmm/base/PdfAnnotationCollection.cpp
+++ b/src/pdfmm/base/PdfAnnotationCollection.cpp
@@ -86,21 +86,25 @@ unsigned PdfAnnotationCollection::GetCount() const
 
 PdfAnnotationCollection::iterator PdfAnnotationCollection::begin()
 {
+    initAnnotations();
     return m_Annots.begin();
 }
 
 PdfAnnotationCollection::iterator PdfAnnotationCollection::end()
 {
+    initAnnotations();
     return m_Annots.end();
 }
 
 PdfAnnotationCollection::const_iterator PdfAnnotationCollection::begin() const
 {
+    const_cast<PdfAnnotationCollection&>(*this).initAnnotations();
     return m_Annots.begin();
 }
 
 PdfAnnotationCollection::const_iterator PdfAnnotationCollection::end() const
 {
+    const_cast<PdfAnnotationCollection&>(*this).initAnnotations();
     return m_Annots.end();
 }
 
diff --git a/src/pdfmm/base/PdfAnnotationCollection.h b/src/pdfmm/base/PdfAnnotationCollection.h
index 11d32f5..c07e035 100644
--- a/src/pdfmm/base/PdfAnnotationCollection.h
+++ b/src/pdfmm/base/PdfAnnotationCollection.h
@@ -77,11 +77,11 @@ namespace mm
             }
             value_type operator*()
             {
-                return m_iterator.get();
+                return (*m_iterator).get();
             }
             value_type operator->()
             {
-                return m_iterator.get();
+                return (*m_iterator).get();
             }
         private:
             TListIterator m_iterator;
diff --git a/src/pdfmm/base/PdfFieldChildrenCollection.cpp b/src/pdfmm/base/PdfFieldChildrenCollection.cpp
index 76e05e8..bf760e2 100644
--- a/src/pdfmm/base/PdfFieldChildrenCollection.cpp
+++ b/src/pdfmm/base/PdfFieldChildrenCollection.cpp
@@ -99,21 +99,25 @@ bool PdfFieldChildrenCollectionBase::HasKidsArray() const
 
 PdfFieldChildrenCollectionBase::iterator PdfFieldChildrenCollectionBase::begin()
 {
+    initFields();
     return m_Fields.begin();
 }
 
 PdfFieldChildrenCollectionBase::iterator PdfFieldChildrenCollectionBase::end()
 {
+    initFields();
     return m_Fields.end();
 }
 
 PdfFieldChildrenCollectionBase::const_iterator PdfFieldChildrenCollectionBase::begin() const
 {
+    const_cast<PdfFieldChildrenCollectionBase&>(*this).initFields();
     return m_Fields.begin();
 }
 
 PdfFieldChildrenCollectionBase::const_iterator PdfFieldChildrenCollectionBase::end() const
 {
+    const_cast<PdfFieldChildrenCollectionBase&>(*this).initFields();
     return m_Fields.end();
 }
 
diff --git a/src/pdfmm/base/PdfFieldChildrenCollection.h b/src/pdfmm/base/PdfFieldChildrenCollection.h
index 4057501..8e14f60 100644
--- a/src/pdfmm/base/PdfFieldChildrenCollection.h
+++ b/src/pdfmm/base/PdfFieldChildrenCollection.h
@@ -77,11 +77,11 @@ namespace mm
             }
             value_type operator*()
             {
-                return m_iterator.get();
+                return (*m_iterator).get();
             }
             value_type operator->()
             {
-                return m_iterator.get();
+                return (*m_iterator).get();
             }
         private:
             TListIterator m_iterator;
-- 
2.43.0


From b2148b4388378856558484ffbc6f45fdf0cb9971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:23 +0000
Subject: [PATCH 097/153] fix: children of fields got the first field as their
 parent, or none after loading

---
 src/pdfmm/base/PdfAcroForm.cpp                | 3 +++
 src/pdfmm/base/PdfField.cpp                   | 8 ++------
 src/pdfmm/base/PdfField.h                     | 4 +++-
 src/pdfmm/base/PdfFieldChildrenCollection.cpp | 1 +
 4 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/pdfmm/base/PdfAcroForm.cpp b/src/pdfmm/base/PdfAcroForm.cpp
index 46d884b..06d6abf 100644
--- a/src/pdfmm/base/PdfAcroForm.cpp
+++ b/src/pdfmm/base/PdfAcroForm.cpp
@@ -232,7 +232,10 @@ void PdfAcroForm::initFields()
         (*m_fieldMap)[obj->GetIndirectReference()] = i;
         // The field may be invalid. In that case we push a placeholder
         if (PdfField::TryCreateFromObject(*obj, field))
+        {
+            field->m_AcroForm = this;
             m_Fields.push_back(std::move(field));
+        }
         else
             m_Fields.push_back(nullptr);
 
diff --git a/src/pdfmm/base/PdfField.cpp b/src/pdfmm/base/PdfField.cpp
index 10c3dd5..0f9134a 100644
--- a/src/pdfmm/base/PdfField.cpp
+++ b/src/pdfmm/base/PdfField.cpp
@@ -349,12 +349,8 @@ PdfFieldType PdfField::getFieldType(const type_info& typeInfo)
 
 shared_ptr<PdfField> PdfField::GetPtr()
 {
-    if (m_AcroForm != nullptr)
-        return m_AcroForm->GetFieldPtr(GetObject().GetIndirectReference());
-    else if (m_Widget != nullptr)
-        return m_Widget->GetFieldPtr();
-    else
-        return nullptr;
+    // NOTE: Returns null if the field is not owned by a collection or a widget
+    return weak_from_this().lock();
 }
 
 PdfField* PdfField::getParentTyped(PdfFieldType type) const
diff --git a/src/pdfmm/base/PdfField.h b/src/pdfmm/base/PdfField.h
index 8ef8781..e94d903 100644
--- a/src/pdfmm/base/PdfField.h
+++ b/src/pdfmm/base/PdfField.h
@@ -9,6 +9,8 @@
 
 #include "PdfDeclarations.h"
 
+#include <memory>
+
 #include "PdfName.h"
 #include "PdfString.h"
 #include "PdfAnnotationWidget.h"
@@ -22,7 +24,7 @@ class PdfPage;
 class PdfAcroForm;
 class PdfAnnotationWidget;
 
-class PDFMM_API PdfField : public PdfDictionaryElement
+class PDFMM_API PdfField : public PdfDictionaryElement, public std::enable_shared_from_this<PdfField>
 {
     friend class PdfSignature;
     friend class PdfButton;
diff --git a/src/pdfmm/base/PdfFieldChildrenCollection.cpp b/src/pdfmm/base/PdfFieldChildrenCollection.cpp
index bf760e2..78b86ed 100644
--- a/src/pdfmm/base/PdfFieldChildrenCollection.cpp
+++ b/src/pdfmm/base/PdfFieldChildrenCollection.cpp
@@ -179,6 +179,7 @@ void PdfFieldChildrenCollectionBase::initFields()
         if (PdfField::TryCreateFromObject(*obj, field))
         {
             field->SetParent(m_field->GetPtr());
+            field->m_AcroForm = m_field->m_AcroForm;
             m_Fields.push_back(std::move(field));
         }
         else
-- 
2.43.0


From c86fcebc60e8fc10fd9fc90dd7b70ef16625e187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:23 +0000
Subject: [PATCH 098/153] fix: one invalid element of the fields of a form made
 all of its fields unavailable

---
 src/pdfmm/base/PdfAcroForm.cpp                |  7 +++++--
 src/pdfmm/base/PdfField.cpp                   | 16 +++++++++++++++-
 src/pdfmm/base/PdfFieldChildrenCollection.cpp |  7 +++++--
 3 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/pdfmm/base/PdfAcroForm.cpp b/src/pdfmm/base/PdfAcroForm.cpp
index 06d6abf..5426907 100644
--- a/src/pdfmm/base/PdfAcroForm.cpp
+++ b/src/pdfmm/base/PdfAcroForm.cpp
@@ -96,13 +96,16 @@ PdfField& PdfAcroForm::getField(unsigned index) const
     if (index >= m_Fields.size())
         PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
 
+    if (m_Fields[index] == nullptr)
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidHandle, "Invalid field");
+
     return *m_Fields[index];
 }
 
 PdfField& PdfAcroForm::getField(const PdfReference& ref) const
 {
     const_cast<PdfAcroForm&>(*this).initFields();
-    return *m_Fields[(*m_fieldMap).at(ref)];
+    return getField((*m_fieldMap).at(ref));
 }
 
 void PdfAcroForm::RemoveFieldAt(unsigned index)
@@ -114,7 +117,7 @@ void PdfAcroForm::RemoveFieldAt(unsigned index)
     if (m_Fields[index] != nullptr)
     {
         // It may be null if the field is invalid
-        m_fieldMap->erase(m_fieldMap->find(m_Fields[index]->GetObject().GetIndirectReference()));
+        m_fieldMap->erase(m_Fields[index]->GetObject().GetIndirectReference());
     }
 
     m_fieldArray->RemoveAt(index);
diff --git a/src/pdfmm/base/PdfField.cpp b/src/pdfmm/base/PdfField.cpp
index 0f9134a..37f8023 100644
--- a/src/pdfmm/base/PdfField.cpp
+++ b/src/pdfmm/base/PdfField.cpp
@@ -79,6 +79,12 @@ PdfField::PdfField(PdfObject& obj, PdfAcroForm* acroform, PdfFieldType fieldType
 
 bool PdfField::TryCreateFromObject(PdfObject& obj, unique_ptr<PdfField>& field)
 {
+    if (!obj.IsDictionary())
+    {
+        field.reset();
+        return false;
+    }
+
     return tryCreateField(obj, getFieldType(obj), field);
 }
 
@@ -170,6 +176,10 @@ PdfField& PdfField::Create(const string_view& name,
         for (auto field : *acroForm)
         {
             // Find a candidate parent with same name and type
+            // NOTE: It's null if the field is invalid
+            if (field == nullptr)
+                continue;
+
             auto fieldName = field->GetNameRaw();
             if (fieldName.has_value() && *fieldName == name)
             {
@@ -413,7 +423,11 @@ PdfFieldType PdfField::getFieldType(const PdfObject& obj)
     if (ftObj == nullptr)
         return PdfFieldType::Unknown;
 
-    auto& fieldType = ftObj->GetName();
+    const PdfName* name;
+    if (!ftObj->TryGetName(name))
+        return PdfFieldType::Unknown;
+
+    auto& fieldType = *name;
     if (fieldType == "Btn")
     {
         int64_t flags;
diff --git a/src/pdfmm/base/PdfFieldChildrenCollection.cpp b/src/pdfmm/base/PdfFieldChildrenCollection.cpp
index 78b86ed..5c5adeb 100644
--- a/src/pdfmm/base/PdfFieldChildrenCollection.cpp
+++ b/src/pdfmm/base/PdfFieldChildrenCollection.cpp
@@ -57,7 +57,7 @@ void PdfFieldChildrenCollectionBase::RemoveFieldAt(unsigned index)
     if (m_Fields[index] != nullptr)
     {
         // It may be null if the annotation is invalid
-        m_fieldMap->erase(m_fieldMap->find(m_Fields[index]->GetObject().GetIndirectReference()));
+        m_fieldMap->erase(m_Fields[index]->GetObject().GetIndirectReference());
     }
 
     m_kidsArray->RemoveAt(index);
@@ -150,13 +150,16 @@ PdfField& PdfFieldChildrenCollectionBase::getFieldAt(unsigned index) const
     if (index >= m_Fields.size())
         PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
 
+    if (m_Fields[index] == nullptr)
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidHandle, "Invalid field");
+
     return *m_Fields[index];
 }
 
 PdfField& PdfFieldChildrenCollectionBase::getField(const PdfReference& ref) const
 {
     const_cast<PdfFieldChildrenCollectionBase&>(*this).initFields();
-    return *m_Fields[(*m_fieldMap).at(ref)];
+    return getFieldAt((*m_fieldMap).at(ref));
 }
 
 void PdfFieldChildrenCollectionBase::initFields()
-- 
2.43.0


From 3ed6d24010a17b422eed1067bc58ce0b23cb9b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:52 +0000
Subject: [PATCH 099/153] fix: one annotation of an unknown type made all
 annotations of the page unavailable

---
 src/pdfmm/base/PdfAnnotation.cpp             | 5 +++--
 src/pdfmm/base/PdfAnnotationCollection.cpp   | 7 +++++--
 src/pdfmm/private/PdfDeclarationsPrivate.cpp | 2 +-
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/pdfmm/base/PdfAnnotation.cpp b/src/pdfmm/base/PdfAnnotation.cpp
index 6ca8597..81b7cc2 100644
--- a/src/pdfmm/base/PdfAnnotation.cpp
+++ b/src/pdfmm/base/PdfAnnotation.cpp
@@ -409,8 +409,9 @@ bool PdfAnnotation::tryCreateFromObject(const PdfObject& obj, const type_info& t
 
 bool PdfAnnotation::tryCreateFromObject(const PdfObject& obj, PdfAnnotationType targetType, PdfAnnotation*& xobj)
 {
-    auto type = getAnnotationType(obj);
-    if (targetType != PdfAnnotationType::Unknown && type != targetType)
+    auto type = obj.IsDictionary() ? getAnnotationType(obj) : PdfAnnotationType::Unknown;
+    if (type == PdfAnnotationType::Unknown
+        || (targetType != PdfAnnotationType::Unknown && type != targetType))
     {
         xobj = nullptr;
         return false;
diff --git a/src/pdfmm/base/PdfAnnotationCollection.cpp b/src/pdfmm/base/PdfAnnotationCollection.cpp
index 26145dd..86849ad 100644
--- a/src/pdfmm/base/PdfAnnotationCollection.cpp
+++ b/src/pdfmm/base/PdfAnnotationCollection.cpp
@@ -50,7 +50,7 @@ void PdfAnnotationCollection::RemoveAnnotAt(unsigned index)
     if (m_Annots[index] != nullptr)
     {
         // It may be null if the annotation is invalid
-        m_annotMap->erase(m_annotMap->find(m_Annots[index]->GetObject().GetIndirectReference()));
+        m_annotMap->erase(m_Annots[index]->GetObject().GetIndirectReference());
     }
 
     m_annotArray->RemoveAt(index);
@@ -141,13 +141,16 @@ PdfAnnotation& PdfAnnotationCollection::getAnnotAt(unsigned index) const
     if (index >= m_Annots.size())
         PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
 
+    if (m_Annots[index] == nullptr)
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidHandle, "Invalid annotation");
+
     return *m_Annots[index];
 }
 
 PdfAnnotation& PdfAnnotationCollection::getAnnot(const PdfReference& ref) const
 {
     const_cast<PdfAnnotationCollection&>(*this).initAnnotations();
-    return *m_Annots[(*m_annotMap).at(ref)];
+    return getAnnotAt((*m_annotMap).at(ref));
 }
 
 void PdfAnnotationCollection::initAnnotations()
diff --git a/src/pdfmm/private/PdfDeclarationsPrivate.cpp b/src/pdfmm/private/PdfDeclarationsPrivate.cpp
index 6ea5068..aabe539 100644
--- a/src/pdfmm/private/PdfDeclarationsPrivate.cpp
+++ b/src/pdfmm/private/PdfDeclarationsPrivate.cpp
@@ -291,7 +291,7 @@ PdfAnnotationType mm::NameToAnnotationType(const string_view& str)
     else if (str == "Projection"sv)
         return PdfAnnotationType::Projection;
     else
-        PDFMM_RAISE_ERROR(PdfErrorCode::InternalLogic);
+        return PdfAnnotationType::Unknown;
 }
 
 PdfColorSpace mm::NameToColorSpaceRaw(const string_view& name)
-- 
2.43.0


From fa65f859e43acd77e919171f17f51c4754a6c630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:52 +0000
Subject: [PATCH 100/153] fix: a field that could not be created left its
 widget in the page

---
 src/pdfmm/base/PdfPage.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfPage.cpp b/src/pdfmm/base/PdfPage.cpp
index 5e84ffc..782c8d7 100644
--- a/src/pdfmm/base/PdfPage.cpp
+++ b/src/pdfmm/base/PdfPage.cpp
@@ -224,13 +224,31 @@ void PdfPage::MoveAt(unsigned index)
 PdfField& PdfPage::CreateField(const string_view& name, PdfFieldType fieldType, const PdfRect& rect)
 {
     auto& annotation = static_cast<PdfAnnotationWidget&>(GetAnnotations().CreateAnnot(PdfAnnotationType::Widget, rect));
-    return PdfField::Create(name, annotation, fieldType);
+    try
+    {
+        return PdfField::Create(name, annotation, fieldType);
+    }
+    catch (...)
+    {
+        // Don't leave a widget without a field
+        GetAnnotations().RemoveAnnotAt(GetAnnotations().GetCount() - 1);
+        throw;
+    }
 }
 
 PdfField& PdfPage::createField(const string_view& name, const type_info& typeInfo, const PdfRect& rect)
 {
     auto& annotation = static_cast<PdfAnnotationWidget&>(GetAnnotations().CreateAnnot(PdfAnnotationType::Widget, rect));
-    return PdfField::Create(name, annotation, typeInfo);
+    try
+    {
+        return PdfField::Create(name, annotation, typeInfo);
+    }
+    catch (...)
+    {
+        // Don't leave a widget without a field
+        GetAnnotations().RemoveAnnotAt(GetAnnotations().GetCount() - 1);
+        throw;
+    }
 }
 
 bool PdfPage::SetPageWidth(int newWidth)
-- 
2.43.0


From ec4bcb2ee37230e9a63eb0dcf6798e4dd815cc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:52 +0000
Subject: [PATCH 101/153] fix: the full name of a field did not end when its
 parents are in a loop

---
 src/pdfmm/base/PdfField.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/pdfmm/base/PdfField.cpp b/src/pdfmm/base/PdfField.cpp
index 37f8023..22fd58f 100644
--- a/src/pdfmm/base/PdfField.cpp
+++ b/src/pdfmm/base/PdfField.cpp
@@ -25,7 +25,7 @@
 using namespace std;
 using namespace mm;
 
-void getFullName(const PdfObject& obj, bool escapePartialNames, string& fullname);
+void getFullName(const PdfObject& obj, bool escapePartialNames, set<const PdfObject*>& visited, string& fullname);
 
 PdfField::PdfField(PdfAnnotationWidget& widget,
         PdfFieldType fieldType, const shared_ptr<PdfField>& parent) :
@@ -673,7 +673,8 @@ nullable<const PdfString&> PdfField::GetNameRaw() const
 string PdfField::GetFullName(bool escapePartialNames) const
 {
     string fullName;
-    getFullName(GetObject(), escapePartialNames, fullName);
+    set<const PdfObject*> visited{ &GetObject() };
+    getFullName(GetObject(), escapePartialNames, visited, fullName);
     return fullName;
 }
 
@@ -849,12 +850,12 @@ void PdfField::linkFieldObjectToParent(const shared_ptr<PdfField>& field, PdfFie
     }
 }
 
-void getFullName(const PdfObject& obj, bool escapePartialNames, string& fullname)
+void getFullName(const PdfObject& obj, bool escapePartialNames, set<const PdfObject*>& visited, string& fullname)
 {
     auto& dict = obj.GetDictionary();
     auto parent = dict.FindKey("Parent");
-    if (parent != nullptr)
-        getFullName(*parent, escapePartialNames, fullname);
+    if (parent != nullptr && parent->IsDictionary() && visited.insert(parent).second)
+        getFullName(*parent, escapePartialNames, visited, fullname);
 
     const PdfObject* nameObj = dict.GetKey("T");
     if (nameObj != nullptr)
-- 
2.43.0


From 68a3dab0464dd699d24a6da010ae855c86873d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:30 +0000
Subject: [PATCH 102/153] fix: the parent of a field was not found when it was
 set through its widget or its form

---
 src/pdfmm/base/PdfField.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfField.cpp b/src/pdfmm/base/PdfField.cpp
index 22fd58f..23e76f5 100644
--- a/src/pdfmm/base/PdfField.cpp
+++ b/src/pdfmm/base/PdfField.cpp
@@ -112,7 +112,8 @@ const PdfField* PdfField::GetParentSafe() const
 
 void PdfField::initParent()
 {
-    if (m_Parent.has_value())
+    // NOTE: The field may have got a parent through another instance
+    if (m_Parent.has_value() && *m_Parent != nullptr)
         return;
 
     auto parent = GetDictionary().FindKey("Parent");
-- 
2.43.0


From f3037a7c0fd01ff4415a7dbd45389a346c083431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:21 +0000
Subject: [PATCH 103/153] fix: strings read from files were not equal to the
 same texts until they were evaluated

---
 src/pdfmm/base/PdfString.cpp | 58 +++++++++++++++++++-----------------
 src/pdfmm/base/PdfString.h   |  2 +-
 2 files changed, 31 insertions(+), 29 deletions(-)

diff --git a/src/pdfmm/base/PdfString.cpp b/src/pdfmm/base/PdfString.cpp
index 3cd8597..74aa170 100644
--- a/src/pdfmm/base/PdfString.cpp
+++ b/src/pdfmm/base/PdfString.cpp
@@ -236,13 +236,16 @@ bool PdfString::operator==(const PdfString& rhs) const
     if (this == &rhs)
         return true;
 
-    if (!canPerformComparison(*this, rhs))
-        return false;
-
     if (this->m_data == rhs.m_data)
         return true;
 
-    return this->m_data->Chars == rhs.m_data->Chars;
+    if (this->m_data->State == rhs.m_data->State
+        && this->m_data->Chars == rhs.m_data->Chars)
+        return true;
+
+    string lhsText;
+    string rhsText;
+    return this->tryGetText(lhsText) && rhs.tryGetText(rhsText) && lhsText == rhsText;
 }
 
 bool PdfString::operator==(const char* str) const
@@ -257,24 +260,13 @@ bool PdfString::operator==(const string& str) const
 
 bool PdfString::operator==(const string_view& view) const
 {
-    if (!isValidText())
-        return false;
-
-    return m_data->Chars == view;
+    string text;
+    return tryGetText(text) && text == view;
 }
 
 bool PdfString::operator!=(const PdfString& rhs) const
 {
-    if (this == &rhs)
-        return false;
-
-    if (!canPerformComparison(*this, rhs))
-        return true;
-
-    if (this->m_data == rhs.m_data)
-        return false;
-
-    return this->m_data->Chars != rhs.m_data->Chars;
+    return !operator==(rhs);
 }
 
 bool PdfString::operator!=(const char* str) const
@@ -289,10 +281,7 @@ bool PdfString::operator!=(const string& str) const
 
 bool PdfString::operator!=(const string_view& view) const
 {
-    if (!isValidText())
-        return true;
-
-    return m_data->Chars != view;
+    return !operator==(view);
 }
 
 PdfString::operator string_view() const
@@ -387,16 +376,29 @@ void PdfString::evaluateString() const
     }
 }
 
-// Returns true only if same state or it's valid text string
-bool PdfString::canPerformComparison(const PdfString& lhs, const PdfString& rhs)
+// Get the text without evaluating this string, so its raw data is still available
+bool PdfString::tryGetText(string& text) const
 {
-    if (lhs.m_data->State == rhs.m_data->State)
+    if (isValidText())
+    {
+        text = m_data->Chars;
         return true;
+    }
 
-    if (lhs.isValidText() || rhs.isValidText())
-        return true;
+    PdfString evaluated;
+    evaluated.m_data.reset(new StringData(*m_data));
+    try
+    {
+        evaluated.evaluateString();
+    }
+    catch (...)
+    {
+        // The buffer is not a text
+        return false;
+    }
 
-    return false;
+    text = std::move(evaluated.m_data->Chars);
+    return true;
 }
 
 const string& PdfString::GetRawData() const
diff --git a/src/pdfmm/base/PdfString.h b/src/pdfmm/base/PdfString.h
index 69103ff..6478dd4 100644
--- a/src/pdfmm/base/PdfString.h
+++ b/src/pdfmm/base/PdfString.h
@@ -142,7 +142,7 @@ private:
     void initFromUtf8String(const std::string_view& view);
     void evaluateString() const;
     bool isValidText() const;
-    static bool canPerformComparison(const PdfString& lhs, const PdfString& rhs);
+    bool tryGetText(std::string& text) const;
 
 private:
     struct StringData
-- 
2.43.0


From 45031959e8aea6d4b97a2cfe2a4167f4126f650b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:29 +0000
Subject: [PATCH 104/153] fix: the items of choice fields could not be read
 when they are indirect objects

---
 src/pdfmm/base/PdfChoiceField.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfChoiceField.cpp b/src/pdfmm/base/PdfChoiceField.cpp
index 518e19b..505647c 100644
--- a/src/pdfmm/base/PdfChoiceField.cpp
+++ b/src/pdfmm/base/PdfChoiceField.cpp
@@ -78,7 +78,7 @@ PdfString PdChoiceField::GetItem(unsigned index) const
     if (index >= optArray.GetSize())
         PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
 
-    auto& item = optArray[index];
+    auto& item = optArray.MustFindAt(index);
     if (item.IsArray())
     {
         auto& itemArray = item.GetArray();
@@ -105,7 +105,7 @@ nullable<const PdfString&> PdChoiceField::GetItemDisplayText(int index) const
         PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
     }
 
-    auto& item = optArray[index];
+    auto& item = optArray.MustFindAt(index);
     if (item.IsArray())
     {
         auto& itemArray = item.GetArray();
-- 
2.43.0


From 4e6d8113ca374dddf1cc669a758e36dc0af217f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:49 +0000
Subject: [PATCH 105/153] fix: copying from a device that can not be read was
 not refused

---
 src/pdfmm/base/PdfInputStream.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pdfmm/base/PdfInputStream.cpp b/src/pdfmm/base/PdfInputStream.cpp
index 25a1009..2d765b5 100644
--- a/src/pdfmm/base/PdfInputStream.cpp
+++ b/src/pdfmm/base/PdfInputStream.cpp
@@ -73,6 +73,7 @@ size_t InputStream::Read(char* buffer, size_t size, bool& eof)
 
 void InputStream::CopyTo(OutputStream& stream)
 {
+    checkRead();
     size_t read = 0;
     char buffer[BUFFER_SIZE];
 
@@ -88,6 +89,7 @@ void InputStream::CopyTo(OutputStream& stream)
 
 void InputStream::CopyTo(OutputStream& stream, size_t size)
 {
+    checkRead();
     size_t read = 0;
     char buffer[BUFFER_SIZE];
 
-- 
2.43.0


From 241fa62e44caed0ece8a4f821fe672abf9d8bb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:49 +0000
Subject: [PATCH 106/153] fix: what was written to a stream after reading to
 its end was lost

---
 src/pdfmm/base/PdfStreamDevice.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pdfmm/base/PdfStreamDevice.cpp b/src/pdfmm/base/PdfStreamDevice.cpp
index 6f3fc06..0b0e177 100644
--- a/src/pdfmm/base/PdfStreamDevice.cpp
+++ b/src/pdfmm/base/PdfStreamDevice.cpp
@@ -253,6 +253,9 @@ bool StandardStreamDevice::Eof() const
 void StandardStreamDevice::writeBuffer(const char* buffer, size_t size)
 {
     PDFMM_INVARIANT(m_ostream != nullptr);
+    // NOTE: Reading up to the end sets eofbit, and with it set
+    // nothing would be written
+    m_Stream->clear(m_Stream->rdstate() & ~ios_base::eofbit);
     m_ostream->write(buffer, size);
     if (m_ostream->fail())
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidDeviceOperation, "Failed to write the given buffer");
-- 
2.43.0


From cc667723f53e7c430cf53e027ecf7ffa3025c2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:49 +0000
Subject: [PATCH 107/153] fix: a stream could not be used anymore after an
 invalid seek

---
 src/pdfmm/base/PdfStreamDevice.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pdfmm/base/PdfStreamDevice.cpp b/src/pdfmm/base/PdfStreamDevice.cpp
index 0b0e177..99d0807 100644
--- a/src/pdfmm/base/PdfStreamDevice.cpp
+++ b/src/pdfmm/base/PdfStreamDevice.cpp
@@ -335,7 +335,11 @@ void StandardStreamDevice::seek(ssize_t offset, SeekDirection direction)
     }
 
     if (m_Stream->fail())
+    {
+        // The position is unchanged, the stream can still be used
+        m_Stream->clear(m_Stream->rdstate() & ~ios_base::failbit);
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidDeviceOperation, "Failed to seek to given position in the stream");
+    }
 }
 
 FileStreamDevice::FileStreamDevice(const string_view& filepath)
-- 
2.43.0


From 44ee1316a8c63a6a0fdfec2214747795f912c9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:49 +0000
Subject: [PATCH 108/153] fix: streams with separate positions for reading and
 writing were read and written at different places

---
 src/pdfmm/base/PdfStreamDevice.cpp | 33 +++++++++++++++++++++++++++---
 src/pdfmm/base/PdfStreamDevice.h   |  7 +++++++
 2 files changed, 37 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfStreamDevice.cpp b/src/pdfmm/base/PdfStreamDevice.cpp
index 99d0807..792101e 100644
--- a/src/pdfmm/base/PdfStreamDevice.cpp
+++ b/src/pdfmm/base/PdfStreamDevice.cpp
@@ -173,7 +173,8 @@ StandardStreamDevice::StandardStreamDevice(DeviceAccess access, ios* stream, ist
     m_Stream(stream),
     m_istream(istream),
     m_ostream(ostream),
-    m_StreamOwned(streamOwned)
+    m_StreamOwned(streamOwned),
+    m_SyncPositions(access == DeviceAccess::ReadWrite && dynamic_cast<fstream*>(stream) == nullptr)
 {
     // TODO1: check stream is either istream/ostream/iostream
 }
@@ -259,6 +260,8 @@ void StandardStreamDevice::writeBuffer(const char* buffer, size_t size)
     m_ostream->write(buffer, size);
     if (m_ostream->fail())
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidDeviceOperation, "Failed to write the given buffer");
+
+    syncReadPosition();
 }
 
 void StandardStreamDevice::flush()
@@ -278,7 +281,9 @@ size_t StandardStreamDevice::readBuffer(char* buffer, size_t size, bool& eof)
         return 0;
     }
 
-    return utls::ReadBuffer(*m_istream, buffer, size, eof);
+    size_t ret = utls::ReadBuffer(*m_istream, buffer, size, eof);
+    syncWritePosition();
+    return ret;
 }
 
 bool StandardStreamDevice::readChar(char& ch)
@@ -290,7 +295,9 @@ bool StandardStreamDevice::readChar(char& ch)
         return false;
     }
 
-    return utls::ReadChar(*m_istream, ch);
+    bool ret = utls::ReadChar(*m_istream, ch);
+    syncWritePosition();
+    return ret;
 }
 
 bool StandardStreamDevice::peek(char& ch) const
@@ -342,6 +349,26 @@ void StandardStreamDevice::seek(ssize_t offset, SeekDirection direction)
     }
 }
 
+void StandardStreamDevice::syncWritePosition()
+{
+    if (!m_SyncPositions)
+        return;
+
+    // NOTE: tellg() fails when eofbit is set
+    auto state = m_Stream->rdstate();
+    m_Stream->clear(state & ~ios_base::eofbit);
+    m_ostream->seekp(m_istream->tellg());
+    m_Stream->setstate(state);
+}
+
+void StandardStreamDevice::syncReadPosition()
+{
+    if (!m_SyncPositions)
+        return;
+
+    m_istream->seekg(m_ostream->tellp());
+}
+
 FileStreamDevice::FileStreamDevice(const string_view& filepath)
     : FileStreamDevice(filepath, FileMode::Open, DeviceAccess::Read)
 {
diff --git a/src/pdfmm/base/PdfStreamDevice.h b/src/pdfmm/base/PdfStreamDevice.h
index 79a026e..a1ef465 100644
--- a/src/pdfmm/base/PdfStreamDevice.h
+++ b/src/pdfmm/base/PdfStreamDevice.h
@@ -73,11 +73,18 @@ protected:
 private:
     StandardStreamDevice(DeviceAccess access, std::ios* stream, std::istream* istream, std::ostream* ostream, bool streamOwned);
 
+private:
+    // Streams other than files may have separate positions
+    // for reading and writing
+    void syncWritePosition();
+    void syncReadPosition();
+
 private:
     std::ios* m_Stream;
     std::istream* m_istream;
     std::ostream* m_ostream;
     bool m_StreamOwned;
+    bool m_SyncPositions;
 };
 
 // These are the .NET System.IO file opening modes
-- 
2.43.0


From 38ce39181bc9dd6bd807b6fef2f7f8484e886c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:03 +0000
Subject: [PATCH 109/153] fix: seeking from the current position of a file
 opened for reading and writing moved twice as far

---
 src/pdfmm/base/PdfStreamDevice.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfStreamDevice.cpp b/src/pdfmm/base/PdfStreamDevice.cpp
index 792101e..ecc0d77 100644
--- a/src/pdfmm/base/PdfStreamDevice.cpp
+++ b/src/pdfmm/base/PdfStreamDevice.cpp
@@ -333,9 +333,13 @@ void StandardStreamDevice::seek(ssize_t offset, SeekDirection direction)
     {
         PDFMM_INVARIANT(m_istream != nullptr);
         ::seek(*m_istream, offset, direction);
-    }
 
-    if ((GetAccess() & DeviceAccess::Write) != DeviceAccess{ })
+        // The position for writing is the same. NOTE: Some streams have just
+        // one position, don't seek twice relatively to it
+        if (!m_Stream->fail() && (GetAccess() & DeviceAccess::Write) != DeviceAccess{ })
+            ::seek(*m_ostream, (ssize_t)(streamoff)m_istream->tellg(), SeekDirection::Begin);
+    }
+    else
     {
         PDFMM_INVARIANT(m_ostream != nullptr);
         ::seek(*m_ostream, offset, direction);
-- 
2.43.0


From d4fd518b06ddd4a2baecd9d750eb1d0df690d1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:03 +0000
Subject: [PATCH 110/153] fix: flushing a stream that can only be read
 dereferenced a null pointer

---
 src/pdfmm/base/PdfStreamDevice.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfStreamDevice.cpp b/src/pdfmm/base/PdfStreamDevice.cpp
index ecc0d77..30e304f 100644
--- a/src/pdfmm/base/PdfStreamDevice.cpp
+++ b/src/pdfmm/base/PdfStreamDevice.cpp
@@ -266,7 +266,12 @@ void StandardStreamDevice::writeBuffer(const char* buffer, size_t size)
 
 void StandardStreamDevice::flush()
 {
-    PDFMM_INVARIANT(m_ostream != nullptr);
+    if (m_ostream == nullptr)
+    {
+        // Nothing to flush in streams that can only be read
+        return;
+    }
+
     m_ostream->flush();
     if (m_ostream->fail())
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidDeviceOperation, "Failed to flush the stream");
-- 
2.43.0


From 27d97f8bb3952ffc21d6423e8ccc45ef08c07ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:57 +0000
Subject: [PATCH 111/153] fix: opening a file for writing truncated it, or
 failed to create it

---
 src/pdfmm/base/PdfStreamDevice.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pdfmm/base/PdfStreamDevice.cpp b/src/pdfmm/base/PdfStreamDevice.cpp
index 30e304f..0c99135 100644
--- a/src/pdfmm/base/PdfStreamDevice.cpp
+++ b/src/pdfmm/base/PdfStreamDevice.cpp
@@ -454,8 +454,15 @@ fstream* FileStreamDevice::getFileStream(const string_view& filename, FileMode m
         case FileMode::Open:
             if ((access & DeviceAccess::Write) != DeviceAccess{ } && !fs::exists(filename))
                 PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidDeviceOperation, "The file must exist");
+            // NOTE: Opening the file with ios_base::out only would truncate it
+            openmode |= ios_base::in;
             break;
         case FileMode::OpenOrCreate:
+            // NOTE: Opening the file with ios_base::out only would truncate it,
+            // with ios_base::in as well it would not create it
+            openmode |= ios_base::in;
+            if (!fs::exists(filename))
+                openmode |= ios_base::trunc;
             break;
         case FileMode::Truncate:
             if (!fs::exists(filename))
-- 
2.43.0


From c921c78d7d9387f4a18a19cbeb5b017fe47637d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:10 +0000
Subject: [PATCH 112/153] fix: the contents of pages with several streams were
 joined without a separator

---
 src/pdfmm/base/PdfContents.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pdfmm/base/PdfContents.cpp b/src/pdfmm/base/PdfContents.cpp
index e8565a0..d5da8f9 100644
--- a/src/pdfmm/base/PdfContents.cpp
+++ b/src/pdfmm/base/PdfContents.cpp
@@ -132,12 +132,20 @@ PdfObjectStream & PdfContents::GetStreamForAppending(PdfStreamAppendFlags flags)
 
 void PdfContents::copyTo(OutputStream& stream, const PdfArray& arr) const
 {
+    bool first = true;
     for (unsigned i = 0; i < arr.GetSize(); i++)
     {
         const PdfObjectStream* objStream;
         auto streamObj = arr.FindAt(i);
         if (streamObj != nullptr && (objStream = streamObj->GetStream()) != nullptr)
+        {
+            // The streams are separated by a white space, ISO 32000-1:2008 "7.8.2 Content Streams"
+            if (!first)
+                stream.Write('\n');
+
             objStream->CopyTo(stream);
+            first = false;
+        }
     }
 }
 
-- 
2.43.0


From 9711262d9901388496c6ec120300eb636db7c8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:11 +0000
Subject: [PATCH 113/153] fix: painting again on a form doubled or dropped what
 it held already

---
 src/pdfmm/base/PdfPainter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfPainter.cpp b/src/pdfmm/base/PdfPainter.cpp
index 7c6df66..21691a6 100644
--- a/src/pdfmm/base/PdfPainter.cpp
+++ b/src/pdfmm/base/PdfPainter.cpp
@@ -129,7 +129,7 @@ void PdfPainter::finishDrawing()
             }
             else
             {
-                output = m_stream->GetOutputStream();
+                output = m_stream->GetOutputStream(true);
                 // there is already content here - so let's assume we are appending
                 // as such, we MUST put in a "space" to separate whatever we do.
                 output.Write("\n");
@@ -147,10 +147,10 @@ void PdfPainter::finishDrawing()
             }
             else
             {
-                output = m_stream->GetOutputStream(true);
+                output = m_stream->GetOutputStream();
                 output.Write("q\n");
                 output.Write(buffer);
-                output.Write("Q\n");
+                output.Write("\nQ\n");
             }
         }
 
-- 
2.43.0


From 8ec4bda26ae6cfa9689fd45b8fd37a1cef3990bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:11 +0000
Subject: [PATCH 114/153] fix: setting the line width to 0 or square line caps
 had no effect on new contents

---
 src/pdfmm/base/PdfGraphicsState.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfGraphicsState.cpp b/src/pdfmm/base/PdfGraphicsState.cpp
index 4bbb717..8c3d85b 100644
--- a/src/pdfmm/base/PdfGraphicsState.cpp
+++ b/src/pdfmm/base/PdfGraphicsState.cpp
@@ -10,9 +10,9 @@ using namespace std;
 using namespace mm;
 
 PdfGraphicsState::PdfGraphicsState() :
-    LineWidth(0),
+    LineWidth(1),
     MiterLimit(10),
-    LineCapStyle(PdfLineCapStyle::Square),
+    LineCapStyle(PdfLineCapStyle::Butt),
     LineJoinStyle(PdfLineJoinStyle::Miter)
 {
 }
-- 
2.43.0


From a4c6eb5c1455882c5ddfc8d178a99dbb75ef3ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:11 +0000
Subject: [PATCH 115/153] fix: setting what Restore or a new canvas had undone
 was ignored by the painter

---
 src/pdfmm/base/PdfPainter.cpp | 18 ++++++++++++++++++
 src/pdfmm/base/PdfPainter.h   | 11 +++++++++++
 2 files changed, 29 insertions(+)

diff --git a/src/pdfmm/base/PdfPainter.cpp b/src/pdfmm/base/PdfPainter.cpp
index 21691a6..5e0dc78 100644
--- a/src/pdfmm/base/PdfPainter.cpp
+++ b/src/pdfmm/base/PdfPainter.cpp
@@ -95,6 +95,7 @@ void PdfPainter::SetCanvas(PdfCanvas& canvas)
 
     m_canvas = &canvas;
     m_stream = nullptr;
+    resetState();
 }
 
 void PdfPainter::FinishDrawing()
@@ -108,11 +109,21 @@ void PdfPainter::FinishDrawing()
         // clean up, even in case of error
         m_stream = nullptr;
         m_canvas = nullptr;
+        resetState();
         throw e;
     }
 
     m_stream = nullptr;
     m_canvas = nullptr;
+    resetState();
+}
+
+// The graphics state belongs to the contents, while the
+// text state is written with every text
+void PdfPainter::resetState()
+{
+    m_GraphicsState = PdfGraphicsState();
+    m_savedStates.clear();
 }
 
 void PdfPainter::finishDrawing()
@@ -1167,12 +1178,19 @@ void PdfPainter::Save()
 {
     checkStream();
     m_tmpStream << "q" << endl;
+    m_savedStates.push_back({ m_GraphicsState, m_TextState });
 }
 
 void PdfPainter::Restore()
 {
     checkStream();
     m_tmpStream << "Q" << endl;
+    if (m_savedStates.size() != 0)
+    {
+        m_GraphicsState = m_savedStates.back().Graphics;
+        m_TextState = m_savedStates.back().Text;
+        m_savedStates.pop_back();
+    }
 }
 
 
diff --git a/src/pdfmm/base/PdfPainter.h b/src/pdfmm/base/PdfPainter.h
index 12a969c..368e4d8 100644
--- a/src/pdfmm/base/PdfPainter.h
+++ b/src/pdfmm/base/PdfPainter.h
@@ -741,6 +741,7 @@ private:
     void checkTextModeOpened();
     void checkTextModeClosed();
     void finishDrawing();
+    void resetState();
 
 private:
     PdfPainterFlags m_flags;
@@ -761,6 +762,16 @@ private:
     PdfGraphicsStateWrapper m_PainterGraphicsState;
     PdfTextStateWrapper m_PainterTextState;
 
+    struct SavedState
+    {
+        PdfGraphicsState Graphics;
+        PdfTextState Text;
+    };
+
+    /** The states Save() was called with
+     */
+    std::vector<SavedState> m_savedStates;
+
     /** Every tab '\\t' is replaced with m_TabWidth
      *  spaces before drawing text. Default is a value of 4
      */
-- 
2.43.0


From a84f3ae175aeea8d757391766445e7929a5ae013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:11 +0000
Subject: [PATCH 116/153] fix: setting the text state back to its defaults had
 no effect on the texts drawn next

---
 src/pdfmm/base/PdfPainter.cpp | 16 +++++++++++-----
 src/pdfmm/base/PdfPainter.h   |  5 +++++
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/pdfmm/base/PdfPainter.cpp b/src/pdfmm/base/PdfPainter.cpp
index 5e0dc78..d2a261a 100644
--- a/src/pdfmm/base/PdfPainter.cpp
+++ b/src/pdfmm/base/PdfPainter.cpp
@@ -123,6 +123,7 @@ void PdfPainter::FinishDrawing()
 void PdfPainter::resetState()
 {
     m_GraphicsState = PdfGraphicsState();
+    m_writtenTextState = PdfTextState();
     m_savedStates.clear();
 }
 
@@ -1178,7 +1179,7 @@ void PdfPainter::Save()
 {
     checkStream();
     m_tmpStream << "q" << endl;
-    m_savedStates.push_back({ m_GraphicsState, m_TextState });
+    m_savedStates.push_back({ m_GraphicsState, m_TextState, m_writtenTextState });
 }
 
 void PdfPainter::Restore()
@@ -1189,6 +1190,7 @@ void PdfPainter::Restore()
     {
         m_GraphicsState = m_savedStates.back().Graphics;
         m_TextState = m_savedStates.back().Text;
+        m_writtenTextState = m_savedStates.back().WrittenText;
         m_savedStates.pop_back();
     }
 }
@@ -1435,16 +1437,16 @@ void PdfPainter::writeTextState()
     if (m_TextState.Font != nullptr)
         setFont(m_TextState.Font, m_TextState.FontSize);
 
-    if (m_TextState.FontScale != 1)
+    if (m_TextState.FontScale != m_writtenTextState.FontScale)
         setFontScale(m_TextState.FontScale);
 
-    if (m_TextState.CharSpacing != 0)
+    if (m_TextState.CharSpacing != m_writtenTextState.CharSpacing)
         setCharSpacing(m_TextState.CharSpacing);
 
-    if (m_TextState.WordSpacing != 0)
+    if (m_TextState.WordSpacing != m_writtenTextState.WordSpacing)
         setWordSpacing(m_TextState.WordSpacing);
 
-    if (m_TextState.RenderingMode != PdfTextRenderingMode::Fill)
+    if (m_TextState.RenderingMode != m_writtenTextState.RenderingMode)
         setTextRenderingMode(m_TextState.RenderingMode);
 }
 
@@ -1476,6 +1478,7 @@ void PdfPainter::setFontScale(double value)
 {
     checkStream();
     m_tmpStream << value * 100 << " Tz" << endl;
+    m_writtenTextState.FontScale = value;
 }
 
 void PdfPainter::SetCharSpacing(double value)
@@ -1488,6 +1491,7 @@ void PdfPainter::setCharSpacing(double value)
 {
     checkStream();
     m_tmpStream << value << " Tc" << endl;
+    m_writtenTextState.CharSpacing = value;
 }
 
 void PdfPainter::SetWordSpacing(double value)
@@ -1500,6 +1504,7 @@ void PdfPainter::setWordSpacing(double value)
 {
     checkStream();
     m_tmpStream << value << " Tw" << endl;
+    m_writtenTextState.WordSpacing = value;
 }
 
 void PdfPainter::SetTextRenderingMode(PdfTextRenderingMode value)
@@ -1512,6 +1517,7 @@ void PdfPainter::setTextRenderingMode(PdfTextRenderingMode value)
 {
     checkStream();
     m_tmpStream << (int)value << " Tr" << endl;
+    m_writtenTextState.RenderingMode = value;
 }
 
 string PdfPainter::expandTabs(const string_view& str) const
diff --git a/src/pdfmm/base/PdfPainter.h b/src/pdfmm/base/PdfPainter.h
index 368e4d8..083ea94 100644
--- a/src/pdfmm/base/PdfPainter.h
+++ b/src/pdfmm/base/PdfPainter.h
@@ -766,8 +766,13 @@ private:
     {
         PdfGraphicsState Graphics;
         PdfTextState Text;
+        PdfTextState WrittenText;
     };
 
+    /** The text state the contents have so far
+     */
+    PdfTextState m_writtenTextState;
+
     /** The states Save() was called with
      */
     std::vector<SavedState> m_savedStates;
-- 
2.43.0


From 30d2564d3e8cfee438c9a9862ae502dbf427ba4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:11 +0000
Subject: [PATCH 117/153] fix: the text state set before BeginText was not used
 by the text

---
 src/pdfmm/base/PdfPainter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pdfmm/base/PdfPainter.cpp b/src/pdfmm/base/PdfPainter.cpp
index d2a261a..0ab87d3 100644
--- a/src/pdfmm/base/PdfPainter.cpp
+++ b/src/pdfmm/base/PdfPainter.cpp
@@ -505,6 +505,7 @@ void PdfPainter::BeginText(double x, double y)
     checkTextModeClosed();
 
     m_tmpStream << "BT" << endl;
+    writeTextState();
     m_tmpStream << x << " " << y << " Td" << endl;
     m_isTextOpen = true;
 }
-- 
2.43.0


From 8dd6f7c16db043da9bedc917d9773e14bb2079dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:11 +0000
Subject: [PATCH 118/153] fix: the font was missing in the resources of the
 canvases it was not set for anew

---
 src/pdfmm/base/PdfPainter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfPainter.cpp b/src/pdfmm/base/PdfPainter.cpp
index 0ab87d3..7032114 100644
--- a/src/pdfmm/base/PdfPainter.cpp
+++ b/src/pdfmm/base/PdfPainter.cpp
@@ -1456,7 +1456,6 @@ void PdfPainter::SetFont(const PdfFont* font, double fontSize)
     if (font == nullptr)
         return;
 
-    this->addToPageResources("Font", font->GetIdentifier(), font->GetObject());
     if (m_isTextOpen)
         setFont(font, fontSize);
 }
@@ -1464,6 +1463,7 @@ void PdfPainter::SetFont(const PdfFont* font, double fontSize)
 void PdfPainter::setFont(const PdfFont* font, double fontSize)
 {
     checkStream();
+    this->addToPageResources("Font", font->GetIdentifier(), font->GetObject());
     m_tmpStream << "/" << font->GetIdentifier().GetString()
         << " " << fontSize
         << " Tf" << endl;
-- 
2.43.0


From b6c0d8a84fdc665db7a7d0f84b0cda665b835d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:11 +0000
Subject: [PATCH 119/153] fix: relative lines and smooth curves did not start
 at the current point of the path

---
 src/pdfmm/base/PdfPainter.cpp | 113 +++++++++++++++++-----------------
 src/pdfmm/base/PdfPainter.h   |   9 +++
 2 files changed, 65 insertions(+), 57 deletions(-)

diff --git a/src/pdfmm/base/PdfPainter.cpp b/src/pdfmm/base/PdfPainter.cpp
index 7032114..9e50373 100644
--- a/src/pdfmm/base/PdfPainter.cpp
+++ b/src/pdfmm/base/PdfPainter.cpp
@@ -66,7 +66,10 @@ PdfPainter::PdfPainter(PdfPainterFlags flags) :
     m_lcx(0),
     m_lcy(0),
     m_lrx(0),
-    m_lry(0)
+    m_lry(0),
+    m_startx(0),
+    m_starty(0),
+    m_lastCurve(0)
 {
 }
 
@@ -400,6 +403,9 @@ void PdfPainter::Rectangle(double x, double y, double width, double height,
             << width << " "
             << height
             << " re" << endl;
+        m_startx = x;
+        m_starty = y;
+        setCurrentPoint(x, y);
     }
 }
 
@@ -412,19 +418,13 @@ void PdfPainter::Ellipse(double x, double y, double width, double height)
 
     convertRectToBezier(x, y, width, height, dPointX, dPointY);
 
-    m_tmpStream << dPointX[0] << " "
-        << dPointY[0]
-        << " m" << endl;
+    MoveTo(dPointX[0], dPointY[0]);
 
     for (unsigned i = 1; i < BEZIER_POINTS; i += 3)
     {
-        m_tmpStream << dPointX[i] << " "
-            << dPointY[i] << " "
-            << dPointX[i + 1] << " "
-            << dPointY[i + 1] << " "
-            << dPointX[i + 2] << " "
-            << dPointY[i + 2]
-            << " c" << endl;
+        CubicBezierTo(dPointX[i], dPointY[i],
+            dPointX[i + 1], dPointY[i + 1],
+            dPointX[i + 2], dPointY[i + 2]);
     }
 }
 
@@ -831,6 +831,7 @@ void PdfPainter::ClosePath()
 {
     checkStream();
     m_tmpStream << "h" << endl;
+    setCurrentPoint(m_startx, m_starty);
 }
 
 void PdfPainter::LineTo(double x, double y)
@@ -839,6 +840,7 @@ void PdfPainter::LineTo(double x, double y)
     m_tmpStream << x << " "
         << y
         << " l" << endl;
+    setCurrentPoint(x, y);
 }
 
 void PdfPainter::MoveTo(double x, double y)
@@ -847,6 +849,20 @@ void PdfPainter::MoveTo(double x, double y)
     m_tmpStream << x << " "
         << y
         << " m" << endl;
+    m_startx = x;
+    m_starty = y;
+    setCurrentPoint(x, y);
+}
+
+void PdfPainter::setCurrentPoint(double x, double y)
+{
+    m_lpx = m_lpx2 = m_lpx3 = x;
+    m_lpy = m_lpy2 = m_lpy3 = y;
+    m_lcx = x;
+    m_lcy = y;
+    m_lrx = x;
+    m_lry = y;
+    m_lastCurve = 0;
 }
 
 void PdfPainter::CubicBezierTo(double x1, double y1, double x2, double y2, double x3, double y3)
@@ -859,6 +875,18 @@ void PdfPainter::CubicBezierTo(double x1, double y1, double x2, double y2, doubl
         << x3 << " "
         << y3
         << " c" << endl;
+
+    m_lpx = x1;
+    m_lpy = y1;
+    m_lpx2 = x2;
+    m_lpy2 = y2;
+    m_lpx3 = x3;
+    m_lpy3 = y3;
+    m_lcx = x3;
+    m_lcy = y3;
+    m_lrx = x2;
+    m_lry = y2;
+    m_lastCurve = 3;
 }
 
 void PdfPainter::HorizontalLineTo(double x)
@@ -879,19 +907,8 @@ void PdfPainter::SmoothCurveTo(double x2, double y2, double x3, double y3)
     double py3 = y3;
 
     // compute the reflective points (thanks Raph!)
-    px = 2 * m_lcx - m_lrx;
-    py = 2 * m_lcy - m_lry;
-
-    m_lpx = px;
-    m_lpy = py;
-    m_lpx2 = px2;
-    m_lpy2 = py2;
-    m_lpx3 = px3;
-    m_lpy3 = py3;
-    m_lcx = px3;
-    m_lcy = py3;
-    m_lrx = px2;
-    m_lry = py2;
+    px = m_lastCurve == 3 ? 2 * m_lcx - m_lrx : m_lcx;
+    py = m_lastCurve == 3 ? 2 * m_lcy - m_lry : m_lcy;
 
     CubicBezierTo(px, py, px2, py2, px3, py3);
 }
@@ -906,21 +923,14 @@ void PdfPainter::QuadCurveTo(double x1, double y1, double x3, double y3)
     // http://www.icce.rug.nl/erikjan/bluefuzz/beziers/beziers/beziers.html
     px = (m_lcx + 2 * px) * (1.0 / 3.0);
     py = (m_lcy + 2 * py) * (1.0 / 3.0);
-    px2 = (px3 + 2 * px) * (1.0 / 3.0);
-    py2 = (py3 + 2 * py) * (1.0 / 3.0);
-
-    m_lpx = px;
-    m_lpy = py;
-    m_lpx2 = px2;
-    m_lpy2 = py2;
-    m_lpx3 = px3;
-    m_lpy3 = py3;
-    m_lcx = px3;
-    m_lcy = py3;
-    m_lrx = px2;
-    m_lry = py2;
+    px2 = (px3 + 2 * x1) * (1.0 / 3.0);
+    py2 = (py3 + 2 * y1) * (1.0 / 3.0);
 
     CubicBezierTo(px, py, px2, py2, px3, py3);
+
+    m_lrx = x1;
+    m_lry = y1;
+    m_lastCurve = 2;
 }
 
 void PdfPainter::SmoothQuadCurveTo(double x3, double y3)
@@ -929,8 +939,8 @@ void PdfPainter::SmoothQuadCurveTo(double x3, double y3)
         px3 = x3, py3 = y3;
 
     double xc, yc; // quadratic control point
-    xc = 2 * m_lcx - m_lrx;
-    yc = 2 * m_lcy - m_lry;
+    xc = m_lastCurve == 2 ? 2 * m_lcx - m_lrx : m_lcx;
+    yc = m_lastCurve == 2 ? 2 * m_lcy - m_lry : m_lcy;
 
     // generate a quadratic bezier with control point = xc, yc
     px = (m_lcx + 2 * xc) * (1.0 / 3.0);
@@ -938,10 +948,11 @@ void PdfPainter::SmoothQuadCurveTo(double x3, double y3)
     px2 = (px3 + 2 * xc) * (1.0 / 3.0);
     py2 = (py3 + 2 * yc) * (1.0 / 3.0);
 
-    m_lpx = px; m_lpy = py; m_lpx2 = px2; m_lpy2 = py2; m_lpx3 = px3; m_lpy3 = py3;
-    m_lcx = px3;    m_lcy = py3;    m_lrx = xc;    m_lry = yc;    // thanks Raph!
-
     CubicBezierTo(px, py, px2, py2, px3, py3);
+
+    m_lrx = xc;
+    m_lry = yc;    // thanks Raph!
+    m_lastCurve = 2;
 }
 
 void PdfPainter::ArcTo(double x, double y, double radiusX, double radiusY,
@@ -1037,12 +1048,7 @@ void PdfPainter::ArcTo(double x, double y, double radiusX, double radiusY,
         CubicBezierTo(nx1, ny1, nx2, ny2, nx3, ny3);
     }
 
-    m_lpx = m_lpx2 = m_lpx3 = px;
-    m_lpy = m_lpy2 = m_lpy3 = py;
-    m_lcx = px;
-    m_lcy = py;
-    m_lrx = px;
-    m_lry = py;
+    setCurrentPoint(px, py);
 }
 
 bool PdfPainter::Arc(double x, double y, double radius, double angle1, double angle2)
@@ -1120,21 +1126,14 @@ void PdfPainter::internalArc(double x, double y, double ray, double ang1,
 
     //attr->cur_pos.x = (HPDF_REAL)x3;
     //attr->cur_pos.y = (HPDF_REAL)y3;
-    m_lcx = x3;
-    m_lcy = y3;
-
-    m_lpx = m_lpx2 = m_lpx3 = x3;
-    m_lpy = m_lpy2 = m_lpy3 = y3;
-    m_lcx = x3;
-    m_lcy = y3;
-    m_lrx = x3;
-    m_lry = y3;
+    setCurrentPoint(x3, y3);
 }
 
 void PdfPainter::Close()
 {
     checkStream();
     m_tmpStream << "h" << endl;
+    setCurrentPoint(m_startx, m_starty);
 }
 
 void PdfPainter::Stroke()
diff --git a/src/pdfmm/base/PdfPainter.h b/src/pdfmm/base/PdfPainter.h
index 083ea94..fd6b61c 100644
--- a/src/pdfmm/base/PdfPainter.h
+++ b/src/pdfmm/base/PdfPainter.h
@@ -722,6 +722,8 @@ private:
     void drawMultiLineText(const std::string_view& str, double x, double y, double width, double height,
         PdfHorizontalAlignment hAlignment, PdfVerticalAlignment vAlignment, bool clip, bool skipSpaces);
 
+    void setCurrentPoint(double x, double y);
+
     void internalArc(double x, double y, double ray, double ang1, double ang2, bool contFlg);
 
     void setLineWidth(double width);
@@ -807,6 +809,13 @@ private:
     double m_lcy;
     double m_lrx;
     double m_lry;
+
+    // start of the current subpath
+    double m_startx;
+    double m_starty;
+
+    // degree of the last curve, 0 if the last operation was not a curve
+    unsigned m_lastCurve;
 };
 
 }
-- 
2.43.0


From bf7de3b8879679b33a1eed979ebc86491a64ba9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:11 +0000
Subject: [PATCH 120/153] fix: drawing text in several lines wrote operators
 that are not allowed in text objects

---
 src/pdfmm/base/PdfPainter.cpp | 15 ++++++++-------
 src/pdfmm/base/PdfPainter.h   |  2 +-
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/pdfmm/base/PdfPainter.cpp b/src/pdfmm/base/PdfPainter.cpp
index 9e50373..691b0db 100644
--- a/src/pdfmm/base/PdfPainter.cpp
+++ b/src/pdfmm/base/PdfPainter.cpp
@@ -557,10 +557,16 @@ void PdfPainter::DrawMultiLineText(const string_view& str, double x, double y, d
     if (width <= 0.0 || height <= 0.0) // nonsense arguments
         return;
 
+    // Clipping and saving the state is not allowed in text objects
+    this->Save();
+    if (clip)
+        this->SetClipRect(x, y, width, height);
+
     m_tmpStream << "BT" << endl;
     writeTextState();
-    drawMultiLineText(str, x, y, width, height, hAlignment, vAlignment, clip, skipSpaces);
+    drawMultiLineText(str, x, y, width, height, hAlignment, vAlignment, skipSpaces);
     m_tmpStream << "ET" << endl;
+    this->Restore();
 }
 
 void PdfPainter::DrawTextAligned(const string_view& str, double x, double y, double width, PdfHorizontalAlignment hAlignment)
@@ -578,14 +584,10 @@ void PdfPainter::DrawTextAligned(const string_view& str, double x, double y, dou
     m_tmpStream << "ET" << endl;
 }
 
-void PdfPainter::drawMultiLineText(const std::string_view& str, double x, double y, double width, double height, PdfHorizontalAlignment hAlignment, PdfVerticalAlignment vAlignment, bool clip, bool skipSpaces)
+void PdfPainter::drawMultiLineText(const std::string_view& str, double x, double y, double width, double height, PdfHorizontalAlignment hAlignment, PdfVerticalAlignment vAlignment, bool skipSpaces)
 {
     auto& font = *m_TextState.Font;
 
-    this->Save();
-    if (clip)
-        this->SetClipRect(x, y, width, height);
-
     auto expanded = this->expandTabs(str);
 
     vector<string> lines = getMultiLineTextAsLines(expanded, width, skipSpaces);
@@ -615,7 +617,6 @@ void PdfPainter::drawMultiLineText(const std::string_view& str, double x, double
         y -= font.GetLineSpacing(m_TextState);
         it++;
     }
-    this->Restore();
 }
 
 // FIX-ME/CLEAN-ME: The following was found
diff --git a/src/pdfmm/base/PdfPainter.h b/src/pdfmm/base/PdfPainter.h
index fd6b61c..0b9c648 100644
--- a/src/pdfmm/base/PdfPainter.h
+++ b/src/pdfmm/base/PdfPainter.h
@@ -720,7 +720,7 @@ private:
     void drawText(const std::string_view& str, double x, double y, bool isUnderline, bool isStrikeOut);
 
     void drawMultiLineText(const std::string_view& str, double x, double y, double width, double height,
-        PdfHorizontalAlignment hAlignment, PdfVerticalAlignment vAlignment, bool clip, bool skipSpaces);
+        PdfHorizontalAlignment hAlignment, PdfVerticalAlignment vAlignment, bool skipSpaces);
 
     void setCurrentPoint(double x, double y);
 
-- 
2.43.0


From bd286606615b5ed32b14ef859cdc4e1b51a88367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:11 +0000
Subject: [PATCH 121/153] fix: tabs were kept in drawn texts besides the spaces
 they are replaced with

---
 src/pdfmm/base/PdfPainter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfPainter.cpp b/src/pdfmm/base/PdfPainter.cpp
index 691b0db..3aa7b1b 100644
--- a/src/pdfmm/base/PdfPainter.cpp
+++ b/src/pdfmm/base/PdfPainter.cpp
@@ -1573,14 +1573,14 @@ string expandTabs(const string_view& str, unsigned tabWidth, unsigned tabCount)
     auto end = str.end();
 
     string ret;
-    ret.reserve(str.length() + tabCount * (tabWidth - 1));
+    ret.reserve(str.length() + (size_t)tabCount * tabWidth);
     while (it != end)
     {
         char32_t ch = (char32_t)utf8::next(it, end);
         if (ch == U'\t')
             ret.append(tabWidth, ' ');
-
-        utf8::append(ch, ret);
+        else
+            utf8::append(ch, ret);
     }
 
     return ret;
-- 
2.43.0


From 9d8835eb83c26add8697fcee87bd50bf2d493b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:32 +0000
Subject: [PATCH 122/153] fix: names with special characters were written to
 contents without escaping them

---
 src/pdfmm/base/PdfPainter.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/pdfmm/base/PdfPainter.cpp b/src/pdfmm/base/PdfPainter.cpp
index 3aa7b1b..e8d4b82 100644
--- a/src/pdfmm/base/PdfPainter.cpp
+++ b/src/pdfmm/base/PdfPainter.cpp
@@ -189,40 +189,40 @@ void PdfPainter::SetStrokingShadingPattern(const PdfShadingPattern& pattern)
 {
     checkStream();
     this->addToPageResources("Pattern", pattern.GetIdentifier(), pattern.GetObject());
-    m_tmpStream << "/Pattern CS /" << pattern.GetIdentifier().GetString() << " SCN" << endl;
+    m_tmpStream << "/Pattern CS /" << pattern.GetIdentifier().GetEscapedName() << " SCN" << endl;
 }
 
 void PdfPainter::SetShadingPattern(const PdfShadingPattern& pattern)
 {
     checkStream();
     this->addToPageResources("Pattern", pattern.GetIdentifier(), pattern.GetObject());
-    m_tmpStream << "/Pattern cs /" << pattern.GetIdentifier().GetString() << " scn" << endl;
+    m_tmpStream << "/Pattern cs /" << pattern.GetIdentifier().GetEscapedName() << " scn" << endl;
 }
 
 void PdfPainter::SetStrokingTilingPattern(const PdfTilingPattern& pattern)
 {
     checkStream();
     this->addToPageResources("Pattern", pattern.GetIdentifier(), pattern.GetObject());
-    m_tmpStream << "/Pattern CS /" << pattern.GetIdentifier().GetString() << " SCN" << endl;
+    m_tmpStream << "/Pattern CS /" << pattern.GetIdentifier().GetEscapedName() << " SCN" << endl;
 }
 
 void PdfPainter::SetStrokingTilingPattern(const string_view& patternName)
 {
     checkStream();
-    m_tmpStream << "/Pattern CS /" << patternName << " SCN" << endl;
+    m_tmpStream << "/Pattern CS /" << PdfName(patternName).GetEscapedName() << " SCN" << endl;
 }
 
 void PdfPainter::SetTilingPattern(const PdfTilingPattern& pattern)
 {
     checkStream();
     this->addToPageResources("Pattern", pattern.GetIdentifier(), pattern.GetObject());
-    m_tmpStream << "/Pattern cs /" << pattern.GetIdentifier().GetString() << " scn" << endl;
+    m_tmpStream << "/Pattern cs /" << pattern.GetIdentifier().GetEscapedName() << " scn" << endl;
 }
 
 void PdfPainter::SetTilingPattern(const string_view& patternName)
 {
     checkStream();
-    m_tmpStream << "/Pattern cs /" << patternName << " scn" << endl;
+    m_tmpStream << "/Pattern cs /" << PdfName(patternName).GetEscapedName() << " scn" << endl;
 }
 
 void PdfPainter::SetStrokeStyle(PdfStrokeStyle strokeStyle, const string_view& custom, bool inverted, double scale, bool subtractJoinCap)
@@ -825,7 +825,7 @@ void PdfPainter::DrawXObject(const PdfXObject& obj, double x, double y, double s
         << scaleY << " "
         << x << " "
         << y << " cm" << endl
-        << "/" << obj.GetIdentifier().GetString() << " Do" << endl << "Q" << endl;
+        << "/" << obj.GetIdentifier().GetEscapedName() << " Do" << endl << "Q" << endl;
 }
 
 void PdfPainter::ClosePath()
@@ -1211,7 +1211,7 @@ void PdfPainter::SetExtGState(const PdfExtGState& inGState)
 {
     checkStream();
     this->addToPageResources("ExtGState", inGState.GetIdentifier(), inGState.GetObject());
-    m_tmpStream << "/" << inGState.GetIdentifier().GetString()
+    m_tmpStream << "/" << inGState.GetIdentifier().GetEscapedName()
         << " gs" << endl;
 }
 
@@ -1224,7 +1224,7 @@ void PdfPainter::Rectangle(const PdfRect& rect, double roundX, double roundY)
 
 void PdfPainter::BeginMarkedContext(const string_view& tag)
 {
-    m_tmpStream << '/' << tag << " BMC" << endl;
+    m_tmpStream << '/' << PdfName(tag).GetEscapedName() << " BMC" << endl;
 }
 
 void PdfPainter::EndMarkedContext()
@@ -1326,7 +1326,7 @@ void PdfPainter::SetLineJoinStyle(PdfLineJoinStyle style)
 void PdfPainter::SetRenderingIntent(const string_view& intent)
 {
     checkStream();
-    m_tmpStream << "/" << intent << " ri" << endl;
+    m_tmpStream << "/" << PdfName(intent).GetEscapedName() << " ri" << endl;
 }
 
 void PdfPainter::SetFillColor(const PdfColor& color)
@@ -1464,7 +1464,7 @@ void PdfPainter::setFont(const PdfFont* font, double fontSize)
 {
     checkStream();
     this->addToPageResources("Font", font->GetIdentifier(), font->GetObject());
-    m_tmpStream << "/" << font->GetIdentifier().GetString()
+    m_tmpStream << "/" << font->GetIdentifier().GetEscapedName()
         << " " << fontSize
         << " Tf" << endl;
 }
-- 
2.43.0


From 966ad348bd5f5a948038f70a68f4dc46cd96f80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:32 +0000
Subject: [PATCH 123/153] fix: marked contents without a canvas were not
 refused

---
 src/pdfmm/base/PdfPainter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pdfmm/base/PdfPainter.cpp b/src/pdfmm/base/PdfPainter.cpp
index e8d4b82..762b9e0 100644
--- a/src/pdfmm/base/PdfPainter.cpp
+++ b/src/pdfmm/base/PdfPainter.cpp
@@ -1224,11 +1224,13 @@ void PdfPainter::Rectangle(const PdfRect& rect, double roundX, double roundY)
 
 void PdfPainter::BeginMarkedContext(const string_view& tag)
 {
+    checkStream();
     m_tmpStream << '/' << PdfName(tag).GetEscapedName() << " BMC" << endl;
 }
 
 void PdfPainter::EndMarkedContext()
 {
+    checkStream();
     m_tmpStream << "EMC" << endl;
 }
 
-- 
2.43.0


From 036626b6495643a2adfee857369a2a50f6507427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:32 +0000
Subject: [PATCH 124/153] fix: setting the color in effect before a pattern was
 ignored by the painter

---
 src/pdfmm/base/PdfPainter.cpp | 21 ++++++++++++++++++---
 src/pdfmm/base/PdfPainter.h   |  7 +++++++
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfPainter.cpp b/src/pdfmm/base/PdfPainter.cpp
index 762b9e0..dec8794 100644
--- a/src/pdfmm/base/PdfPainter.cpp
+++ b/src/pdfmm/base/PdfPainter.cpp
@@ -55,6 +55,8 @@ PdfPainter::PdfPainter(PdfPainterFlags flags) :
     m_canvas(nullptr),
     m_PainterGraphicsState(*this, m_GraphicsState),
     m_PainterTextState(*this, m_TextState),
+    m_isFillPattern(false),
+    m_isStrokePattern(false),
     m_TabWidth(4),
     m_isTextOpen(false),
     m_lpx(0),
@@ -126,6 +128,8 @@ void PdfPainter::FinishDrawing()
 void PdfPainter::resetState()
 {
     m_GraphicsState = PdfGraphicsState();
+    m_isFillPattern = false;
+    m_isStrokePattern = false;
     m_writtenTextState = PdfTextState();
     m_savedStates.clear();
 }
@@ -190,6 +194,7 @@ void PdfPainter::SetStrokingShadingPattern(const PdfShadingPattern& pattern)
     checkStream();
     this->addToPageResources("Pattern", pattern.GetIdentifier(), pattern.GetObject());
     m_tmpStream << "/Pattern CS /" << pattern.GetIdentifier().GetEscapedName() << " SCN" << endl;
+    m_isStrokePattern = true;
 }
 
 void PdfPainter::SetShadingPattern(const PdfShadingPattern& pattern)
@@ -197,6 +202,7 @@ void PdfPainter::SetShadingPattern(const PdfShadingPattern& pattern)
     checkStream();
     this->addToPageResources("Pattern", pattern.GetIdentifier(), pattern.GetObject());
     m_tmpStream << "/Pattern cs /" << pattern.GetIdentifier().GetEscapedName() << " scn" << endl;
+    m_isFillPattern = true;
 }
 
 void PdfPainter::SetStrokingTilingPattern(const PdfTilingPattern& pattern)
@@ -204,12 +210,14 @@ void PdfPainter::SetStrokingTilingPattern(const PdfTilingPattern& pattern)
     checkStream();
     this->addToPageResources("Pattern", pattern.GetIdentifier(), pattern.GetObject());
     m_tmpStream << "/Pattern CS /" << pattern.GetIdentifier().GetEscapedName() << " SCN" << endl;
+    m_isStrokePattern = true;
 }
 
 void PdfPainter::SetStrokingTilingPattern(const string_view& patternName)
 {
     checkStream();
     m_tmpStream << "/Pattern CS /" << PdfName(patternName).GetEscapedName() << " SCN" << endl;
+    m_isStrokePattern = true;
 }
 
 void PdfPainter::SetTilingPattern(const PdfTilingPattern& pattern)
@@ -217,12 +225,14 @@ void PdfPainter::SetTilingPattern(const PdfTilingPattern& pattern)
     checkStream();
     this->addToPageResources("Pattern", pattern.GetIdentifier(), pattern.GetObject());
     m_tmpStream << "/Pattern cs /" << pattern.GetIdentifier().GetEscapedName() << " scn" << endl;
+    m_isFillPattern = true;
 }
 
 void PdfPainter::SetTilingPattern(const string_view& patternName)
 {
     checkStream();
     m_tmpStream << "/Pattern cs /" << PdfName(patternName).GetEscapedName() << " scn" << endl;
+    m_isFillPattern = true;
 }
 
 void PdfPainter::SetStrokeStyle(PdfStrokeStyle strokeStyle, const string_view& custom, bool inverted, double scale, bool subtractJoinCap)
@@ -1180,7 +1190,8 @@ void PdfPainter::Save()
 {
     checkStream();
     m_tmpStream << "q" << endl;
-    m_savedStates.push_back({ m_GraphicsState, m_TextState, m_writtenTextState });
+    m_savedStates.push_back({ m_GraphicsState, m_TextState, m_writtenTextState,
+        m_isFillPattern, m_isStrokePattern });
 }
 
 void PdfPainter::Restore()
@@ -1191,6 +1202,8 @@ void PdfPainter::Restore()
     {
         m_GraphicsState = m_savedStates.back().Graphics;
         m_TextState = m_savedStates.back().Text;
+        m_isFillPattern = m_savedStates.back().IsFillPattern;
+        m_isStrokePattern = m_savedStates.back().IsStrokePattern;
         m_writtenTextState = m_savedStates.back().WrittenText;
         m_savedStates.pop_back();
     }
@@ -1334,6 +1347,7 @@ void PdfPainter::SetRenderingIntent(const string_view& intent)
 void PdfPainter::SetFillColor(const PdfColor& color)
 {
     checkStream();
+    m_isFillPattern = false;
     switch (color.GetColorSpace())
     {
         default:
@@ -1386,6 +1400,7 @@ void PdfPainter::SetFillColor(const PdfColor& color)
 void PdfPainter::SetStrokeColor(const PdfColor& color)
 {
     checkStream();
+    m_isStrokePattern = false;
     switch (color.GetColorSpace())
     {
         default:
@@ -1647,7 +1662,7 @@ void PdfGraphicsStateWrapper::SetRenderingIntent(const string_view& intent)
 
 void PdfGraphicsStateWrapper::SetFillColor(const PdfColor& color)
 {
-    if (m_state->FillColor == color)
+    if (m_state->FillColor == color && !m_painter->m_isFillPattern)
         return;
 
     m_state->FillColor = color;
@@ -1656,7 +1671,7 @@ void PdfGraphicsStateWrapper::SetFillColor(const PdfColor& color)
 
 void PdfGraphicsStateWrapper::SetStrokeColor(const PdfColor& color)
 {
-    if (m_state->StrokeColor == color)
+    if (m_state->StrokeColor == color && !m_painter->m_isStrokePattern)
         return;
 
     m_state->StrokeColor = color;
diff --git a/src/pdfmm/base/PdfPainter.h b/src/pdfmm/base/PdfPainter.h
index 0b9c648..c7b4380 100644
--- a/src/pdfmm/base/PdfPainter.h
+++ b/src/pdfmm/base/PdfPainter.h
@@ -769,6 +769,8 @@ private:
         PdfGraphicsState Graphics;
         PdfTextState Text;
         PdfTextState WrittenText;
+        bool IsFillPattern;
+        bool IsStrokePattern;
     };
 
     /** The text state the contents have so far
@@ -779,6 +781,11 @@ private:
      */
     std::vector<SavedState> m_savedStates;
 
+    /** If the color in effect is a pattern
+     */
+    bool m_isFillPattern;
+    bool m_isStrokePattern;
+
     /** Every tab '\\t' is replaced with m_TabWidth
      *  spaces before drawing text. Default is a value of 4
      */
-- 
2.43.0


From 03d3dcb228208b785a8f650579212451d69c8402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:15 +0000
Subject: [PATCH 125/153] fix: text rendering modes were written as the modes
 that follow them

---
 src/pdfmm/base/PdfPainter.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfPainter.cpp b/src/pdfmm/base/PdfPainter.cpp
index dec8794..9ddd7ad 100644
--- a/src/pdfmm/base/PdfPainter.cpp
+++ b/src/pdfmm/base/PdfPainter.cpp
@@ -1534,7 +1534,11 @@ void PdfPainter::SetTextRenderingMode(PdfTextRenderingMode value)
 void PdfPainter::setTextRenderingMode(PdfTextRenderingMode value)
 {
     checkStream();
-    m_tmpStream << (int)value << " Tr" << endl;
+    if (value == PdfTextRenderingMode::Unknown)
+        PDFMM_RAISE_ERROR_INFO(PdfErrorCode::ValueOutOfRange, "Invalid text rendering mode");
+
+    // Fill is 0, ISO 32000-1:2008 "Table 106 - Text rendering modes"
+    m_tmpStream << (int)value - (int)PdfTextRenderingMode::Fill << " Tr" << endl;
     m_writtenTextState.RenderingMode = value;
 }
 
-- 
2.43.0


From 5e202e359cf89e89619a2a96a5cfbb14ed241caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:08 +0000
Subject: [PATCH 126/153] fix: the length of strings was 0 for created fonts

---
 src/pdfmm/base/PdfFont.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/pdfmm/base/PdfFont.cpp b/src/pdfmm/base/PdfFont.cpp
index cbbb538..3071cfc 100644
--- a/src/pdfmm/base/PdfFont.cpp
+++ b/src/pdfmm/base/PdfFont.cpp
@@ -739,7 +739,6 @@ bool PdfFont::tryConvertToGIDs(const std::string_view& utf8Str, PdfGlyphAccess a
     {
         auto it = utf8Str.begin();
         auto end = utf8Str.end();
-        vector<unsigned> gids;
         while (it != end)
         {
             char32_t cp = utf8::next(it, end);
-- 
2.43.0


From 0949f3a7e264503fb6b861a15bd23a956772e9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:08 +0000
Subject: [PATCH 127/153] fix: aligned texts with tabs were drawn at wrong
 places

---
 src/pdfmm/base/PdfPainter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfPainter.cpp b/src/pdfmm/base/PdfPainter.cpp
index 9ddd7ad..7b8dc9e 100644
--- a/src/pdfmm/base/PdfPainter.cpp
+++ b/src/pdfmm/base/PdfPainter.cpp
@@ -805,10 +805,10 @@ void PdfPainter::drawTextAligned(const std::string_view& str, double x, double y
         case PdfHorizontalAlignment::Left:
             break;
         case PdfHorizontalAlignment::Center:
-            x += (width - m_TextState.Font->GetStringLength(str, m_TextState)) / 2.0;
+            x += (width - m_TextState.Font->GetStringLength(expandTabs(str), m_TextState)) / 2.0;
             break;
         case PdfHorizontalAlignment::Right:
-            x += (width - m_TextState.Font->GetStringLength(str, m_TextState));
+            x += (width - m_TextState.Font->GetStringLength(expandTabs(str), m_TextState));
             break;
     }
 
-- 
2.43.0


From 030a86509f1a34eb5d7e9c77e887341ebef15e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:36 +0000
Subject: [PATCH 128/153] fix: transparent colors could not be converted to and
 from arrays

---
 src/pdfmm/base/PdfColor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pdfmm/base/PdfColor.cpp b/src/pdfmm/base/PdfColor.cpp
index b4563d6..9f6f19d 100644
--- a/src/pdfmm/base/PdfColor.cpp
+++ b/src/pdfmm/base/PdfColor.cpp
@@ -627,6 +627,8 @@ PdfColor PdfColor::ConvertToCMYK() const
 PdfArray PdfColor::ToArray() const
 {
     PdfArray array;
+    if (m_IsTransparent)
+        return array;
 
     switch (m_ColorSpace)
     {
@@ -812,6 +814,7 @@ bool PdfColor::TryCreateFromArray(const PdfArray& arr, PdfColor& color)
     if (arr.GetSize() == 0) // Transparent
     {
         color = CreateTransparent();
+        return true;
     }
     else if (arr.GetSize() == 1) // grayscale
     {
-- 
2.43.0


From fa7d738c9b7e31cf6df3775e2aa5a01ee5394fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:36 +0000
Subject: [PATCH 129/153] fix: an appearance for a state was put into the
 stream of the appearance without states

---
 src/pdfmm/base/PdfAnnotation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfAnnotation.cpp b/src/pdfmm/base/PdfAnnotation.cpp
index 81b7cc2..48647e7 100644
--- a/src/pdfmm/base/PdfAnnotation.cpp
+++ b/src/pdfmm/base/PdfAnnotation.cpp
@@ -86,7 +86,7 @@ void mm::SetAppearanceStreamForObject(PdfObject& obj, PdfXObjectForm& xobj,
     {
         // when the state is defined, then the appearance is expected to be a dictionary
         auto apInnerObj = apObj->GetDictionary().FindKey(name);
-        if (apInnerObj == nullptr || !apInnerObj->IsDictionary())
+        if (apInnerObj == nullptr || !apInnerObj->IsDictionary() || apInnerObj->HasStream())
             apInnerObj = &apObj->GetDictionary().AddKey(name, PdfDictionary());
 
         apInnerObj->GetDictionary().AddKeyIndirectSafe(state, xobj.GetObject());
-- 
2.43.0


From 4eefd354e99ff1de2e7183ddb6f84a8d962bff34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:36 +0000
Subject: [PATCH 130/153] fix: asking for an annotation that is not on the page
 didn't raise a PdfError

---
 src/pdfmm/base/PdfAnnotationCollection.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfAnnotationCollection.cpp b/src/pdfmm/base/PdfAnnotationCollection.cpp
index 86849ad..8700fe0 100644
--- a/src/pdfmm/base/PdfAnnotationCollection.cpp
+++ b/src/pdfmm/base/PdfAnnotationCollection.cpp
@@ -150,7 +150,11 @@ PdfAnnotation& PdfAnnotationCollection::getAnnotAt(unsigned index) const
 PdfAnnotation& PdfAnnotationCollection::getAnnot(const PdfReference& ref) const
 {
     const_cast<PdfAnnotationCollection&>(*this).initAnnotations();
-    return getAnnotAt((*m_annotMap).at(ref));
+    auto found = m_annotMap->find(ref);
+    if (found == m_annotMap->end())
+        PDFMM_RAISE_ERROR(PdfErrorCode::NoObject);
+
+    return getAnnotAt(found->second);
 }
 
 void PdfAnnotationCollection::initAnnotations()
-- 
2.43.0


From bbb88daddf88376d045aa8c3e5c5c5ef26997115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:36 +0000
Subject: [PATCH 131/153] fix: the rectangle of a destination had its corner as
 size

---
 src/pdfmm/base/PdfDestination.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfDestination.cpp b/src/pdfmm/base/PdfDestination.cpp
index 77862f5..30b7325 100644
--- a/src/pdfmm/base/PdfDestination.cpp
+++ b/src/pdfmm/base/PdfDestination.cpp
@@ -226,7 +226,7 @@ PdfRect PdfDestination::GetRect() const
         PDFMM_RAISE_ERROR(PdfErrorCode::WrongDestinationType);
 
     auto& arr = GetArray();
-    return PdfRect(arr[2].GetReal(), arr[3].GetReal(),
+    return PdfRect::FromCorners(arr[2].GetReal(), arr[3].GetReal(),
         arr[4].GetReal(), arr[5].GetReal());
 }
 
-- 
2.43.0


From 09e25e0d335aadca73c8cf2765229de7fa63e52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:36 +0000
Subject: [PATCH 132/153] fix: RichMediaExecute actions could not be created

---
 src/pdfmm/base/PdfAction.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pdfmm/base/PdfAction.cpp b/src/pdfmm/base/PdfAction.cpp
index e429d95..1697582 100644
--- a/src/pdfmm/base/PdfAction.cpp
+++ b/src/pdfmm/base/PdfAction.cpp
@@ -31,6 +31,7 @@ static const char* s_names[] = {
     "Rendition",
     "Trans",
     "GoTo3DView",
+    "RichMediaExecute",
 };
 
 PdfAction::PdfAction(PdfDocument& doc, PdfActionType action)
-- 
2.43.0


From 53eece1607811fba490dead961e6e993e338db06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:15 +0000
Subject: [PATCH 133/153] fix: removing an invalid annotation by index left a
 stale entry that removed another one later

---
 src/pdfmm/base/PdfAnnotationCollection.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfAnnotationCollection.cpp b/src/pdfmm/base/PdfAnnotationCollection.cpp
index 8700fe0..67ec729 100644
--- a/src/pdfmm/base/PdfAnnotationCollection.cpp
+++ b/src/pdfmm/base/PdfAnnotationCollection.cpp
@@ -47,10 +47,15 @@ void PdfAnnotationCollection::RemoveAnnotAt(unsigned index)
     if (index >= m_Annots.size())
         PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
 
-    if (m_Annots[index] != nullptr)
+    // NOTE: The annotation may be null if it's invalid, but
+    // it has an entry in the map if the array has a reference
+    for (auto it = m_annotMap->begin(); it != m_annotMap->end(); it++)
     {
-        // It may be null if the annotation is invalid
-        m_annotMap->erase(m_Annots[index]->GetObject().GetIndirectReference());
+        if (it->second == index)
+        {
+            m_annotMap->erase(it);
+            break;
+        }
     }
 
     m_annotArray->RemoveAt(index);
-- 
2.43.0


From e17c57822a35c7baa6741beadb3456ce90d2e71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:58 +0000
Subject: [PATCH 134/153] fix: RemovePdfExtension removed the extension named
 "ns", not the given one

---
 src/pdfmm/base/PdfMemDocument.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfMemDocument.cpp b/src/pdfmm/base/PdfMemDocument.cpp
index 1f72cb6..c58e273 100644
--- a/src/pdfmm/base/PdfMemDocument.cpp
+++ b/src/pdfmm/base/PdfMemDocument.cpp
@@ -229,7 +229,7 @@ vector<PdfExtension> PdfMemDocument::GetPdfExtensions() const
 void PdfMemDocument::RemovePdfExtension(const PdfName& ns, int64_t level)
 {
     if (this->HasPdfExtension(ns, level))
-        this->GetCatalog().GetDictionary().FindKey("Extensions")->GetDictionary().RemoveKey("ns");
+        this->GetCatalog().GetDictionary().FindKey("Extensions")->GetDictionary().RemoveKey(ns);
 }
 
 void PdfMemDocument::Save(const string_view& filename, PdfSaveOptions options)
-- 
2.43.0


From 03c111b78daa6551f5c441f02f35a9305476f170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:58 +0000
Subject: [PATCH 135/153] fix: the extensions could not be read if their
 dictionary has a type

---
 src/pdfmm/base/PdfMemDocument.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pdfmm/base/PdfMemDocument.cpp b/src/pdfmm/base/PdfMemDocument.cpp
index c58e273..715ecc7 100644
--- a/src/pdfmm/base/PdfMemDocument.cpp
+++ b/src/pdfmm/base/PdfMemDocument.cpp
@@ -208,6 +208,10 @@ vector<PdfExtension> PdfMemDocument::GetPdfExtensions() const
     // Loop through all declared extensions
     for (auto& pair : extensions->GetDictionary())
     {
+        // The dictionary may have a /Type
+        if (!pair.second.IsDictionary())
+            continue;
+
         auto bv = pair.second.GetDictionary().FindKey("BaseVersion");
         auto el = pair.second.GetDictionary().FindKey("ExtensionLevel");
 
-- 
2.43.0


From 39add197951ea19dc8c5181d3ce09305dd3984a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:58 +0000
Subject: [PATCH 136/153] fix: SetUseFullScreen raised without a page mode, and
 lost the former mode when called twice

---
 src/pdfmm/base/PdfCatalog.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfCatalog.cpp b/src/pdfmm/base/PdfCatalog.cpp
index 3252f23..db0495d 100644
--- a/src/pdfmm/base/PdfCatalog.cpp
+++ b/src/pdfmm/base/PdfCatalog.cpp
@@ -167,9 +167,18 @@ void PdfCatalog::SetUseFullScreen()
     // first, we get the current mode
     PdfPageMode	curMode = GetPageMode();
 
+    // There's nothing to do if the full screen is already in use
+    if (curMode == PdfPageMode::FullScreen)
+        return;
+
     // if current mode is anything but "don't care", we need to move that to non-full-screen
+    // NOTE: The default value of a missing page mode is UseNone
     if (curMode != PdfPageMode::DontCare)
-        setViewerPreference("NonFullScreenPageMode", PdfObject(GetDictionary().MustFindKey("PageMode")));
+    {
+        auto pageModeObj = GetDictionary().FindKey("PageMode");
+        setViewerPreference("NonFullScreenPageMode", pageModeObj == nullptr
+            ? PdfObject(PdfName("UseNone")) : PdfObject(*pageModeObj));
+    }
 
     SetPageMode(PdfPageMode::FullScreen);
 }
-- 
2.43.0


From 7387013bc236a93b8c3bb300dde983ebe2d964a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:58 +0000
Subject: [PATCH 137/153] fix: looking up a name in an empty name tree raised
 an error

---
 src/pdfmm/base/PdfNameTree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfNameTree.cpp b/src/pdfmm/base/PdfNameTree.cpp
index ae19b9e..4be5155 100644
--- a/src/pdfmm/base/PdfNameTree.cpp
+++ b/src/pdfmm/base/PdfNameTree.cpp
@@ -368,7 +368,7 @@ PdfObject* PdfNameTree::GetKeyValue(PdfObject& obj, const PdfString& key) const
             }
         }
     }
-    else
+    else if (obj.GetDictionary().HasKey("Names"))
     {
         auto& names = obj.GetDictionary().MustFindKey("Names").GetArray();
         PdfArray::iterator it = names.begin();
-- 
2.43.0


From 0f85c2d60d05f7621945c365a222fc7097ccb8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:58 +0000
Subject: [PATCH 138/153] fix: names of name trees were ordered by text and not
 by their bytes

---
 src/pdfmm/base/PdfNameTree.cpp | 46 +++++++++++++++++++++++++++++++---
 1 file changed, 43 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfNameTree.cpp b/src/pdfmm/base/PdfNameTree.cpp
index 4be5155..af37638 100644
--- a/src/pdfmm/base/PdfNameTree.cpp
+++ b/src/pdfmm/base/PdfNameTree.cpp
@@ -6,13 +6,20 @@
 #include <pdfmm/private/PdfDeclarationsPrivate.h>
 #include "PdfNameTree.h"
 
+#include <utfcpp/utf8.h>
+
+#include <pdfmm/private/PdfEncodingPrivate.h>
+
 #include "PdfDocument.h"
 #include "PdfArray.h"
 #include "PdfDictionary.h"
 #include "PdfOutputDevice.h"
 
+using namespace std;
 using namespace mm;
 
+static string getBytes(const PdfString& str);
+
 #define BALANCE_TREE_MAX 65
 
 /*
@@ -113,7 +120,7 @@ bool PdfNameTreeNode::AddValue(const PdfString& key, const PdfObject& value)
                     *it = value;
                     break;
                 }
-                else if (it->GetString().GetString() > key.GetString())
+                else if (getBytes(it->GetString()) > getBytes(key))
                 {
                     it = array.insert(it, value); // array.insert invalidates the iterator
                     it = array.insert(it, key);
@@ -418,10 +425,11 @@ PdfNameLimits PdfNameTree::CheckLimits(const PdfObject& obj, const PdfString& ke
     {
         auto& limits = obj.GetDictionary().MustFindKey("Limits").GetArray();
 
-        if (limits[0].GetString().GetString() > key.GetString())
+        auto keyBytes = getBytes(key);
+        if (getBytes(limits[0].GetString()) > keyBytes)
             return PdfNameLimits::Before;
 
-        if (limits[1].GetString().GetString() < key.GetString())
+        if (getBytes(limits[1].GetString()) < keyBytes)
             return PdfNameLimits::After;
     }
     else
@@ -499,3 +507,35 @@ PdfObject* PdfNameTree::GetDestsNode(bool create) const
 {
     return this->GetRootNode("Dests", create);
 }
+
+// Get the bytes of the string as they are written in files: names
+// are ordered by them, and not by the text they represent
+string getBytes(const PdfString& str)
+{
+    switch (str.GetState())
+    {
+        case PdfStringState::RawBuffer:
+            return str.GetRawData();
+        case PdfStringState::PdfDocEncoding:
+        {
+            string ret;
+            (void)mm::TryConvertUTF8ToPdfDocEncoding(str.GetString(), ret);
+            return ret;
+        }
+        case PdfStringState::Unicode:
+        {
+            auto& text = str.GetString();
+            u16string string16;
+            utf8::utf8to16(text.begin(), text.end(), std::back_inserter(string16));
+            string ret = "\xFE\xFF";
+            for (auto ch : string16)
+            {
+                ret.push_back((char)(ch >> 8));
+                ret.push_back((char)(ch & 0xFF));
+            }
+            return ret;
+        }
+        default:
+            return str.GetString();
+    }
+}
-- 
2.43.0


From 7d5e48770023c21de58d2824dc3ccd0a3cd91e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:28 +0000
Subject: [PATCH 139/153] fix: updates which raise the version to 2.0 were
 refused

---
 src/pdfmm/base/PdfMemDocument.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfMemDocument.cpp b/src/pdfmm/base/PdfMemDocument.cpp
index 715ecc7..9b22efd 100644
--- a/src/pdfmm/base/PdfMemDocument.cpp
+++ b/src/pdfmm/base/PdfMemDocument.cpp
@@ -286,7 +286,7 @@ void PdfMemDocument::SaveUpdate(OutputStreamDevice& device, PdfSaveOptions opts)
 
     if (m_InitialVersion < this->GetPdfVersion())
     {
-        if (this->GetPdfVersion() < PdfVersion::V1_0 || this->GetPdfVersion() > PdfVersion::V1_7)
+        if (this->GetPdfVersion() < PdfVersion::V1_0 || this->GetPdfVersion() > PdfVersion::V2_0)
             PDFMM_RAISE_ERROR(PdfErrorCode::ValueOutOfRange);
 
         GetCatalog().GetDictionary().AddKey("Version", PdfName(mm::GetPdfVersionName(GetPdfVersion())));
-- 
2.43.0


From e41c48b829847095c8cfd419c43184d66211120f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:28 +0000
Subject: [PATCH 140/153] fix: the version could not be lowered if the catalog
 has one

---
 src/pdfmm/base/PdfMemDocument.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pdfmm/base/PdfMemDocument.cpp b/src/pdfmm/base/PdfMemDocument.cpp
index 9b22efd..be612bc 100644
--- a/src/pdfmm/base/PdfMemDocument.cpp
+++ b/src/pdfmm/base/PdfMemDocument.cpp
@@ -246,6 +246,10 @@ void PdfMemDocument::Save(OutputStreamDevice& device, PdfSaveOptions opts)
 {
     beforeWrite(opts);
 
+    // The version is written in the header: one in the
+    // catalog may be of a previous version
+    GetCatalog().GetDictionary().RemoveKey("Version");
+
     PdfWriter writer(this->GetObjects(), this->GetTrailer().GetObject());
     writer.SetPdfVersion(this->GetPdfVersion());
     writer.SetSaveOptions(opts);
-- 
2.43.0


From 02ec43427e06648233e753c0b4f276e4fe3b725f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:37 +0000
Subject: [PATCH 141/153] fix: codes of the same value but different sizes were
 the same in code maps

---
 src/pdfmm/base/PdfEncodingCommon.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pdfmm/base/PdfEncodingCommon.cpp b/src/pdfmm/base/PdfEncodingCommon.cpp
index c19a8d4..a6682f5 100644
--- a/src/pdfmm/base/PdfEncodingCommon.cpp
+++ b/src/pdfmm/base/PdfEncodingCommon.cpp
@@ -27,6 +27,9 @@ PdfCharCode::PdfCharCode(unsigned code, unsigned char codeSpaceSize)
 
 bool PdfCharCode::operator<(const PdfCharCode& rhs) const
 {
+    if (CodeSpaceSize != rhs.CodeSpaceSize)
+        return CodeSpaceSize < rhs.CodeSpaceSize;
+
     return Code < rhs.Code;
 }
 
-- 
2.43.0


From a6e340d082b277a0baa24e48b03ca0fe8efdc094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:37 +0000
Subject: [PATCH 142/153] fix: code points which only begin ligatures had an
 invalid code

---
 src/pdfmm/base/PdfCharCodeMap.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfCharCodeMap.cpp b/src/pdfmm/base/PdfCharCodeMap.cpp
index cd65fd5..64edfbb 100644
--- a/src/pdfmm/base/PdfCharCodeMap.cpp
+++ b/src/pdfmm/base/PdfCharCodeMap.cpp
@@ -128,8 +128,9 @@ bool PdfCharCodeMap::TryGetCharCode(codepoint codePoint, PdfCharCode& code) cons
 {
     const_cast<PdfCharCodeMap&>(*this).reviseCPMap();
     auto node = findNode(m_codePointMapHead, codePoint);
-    if (node == nullptr)
+    if (node == nullptr || node->CodeUnit.CodeSpaceSize == 0)
     {
+        // Missing, or just the beginning of a ligature
         code = { };
         return false;
     }
-- 
2.43.0


From b5c7abf7972911bec83c5d4c6a9e03101c53209f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:37 +0000
Subject: [PATCH 143/153] fix: ranges of ligatures in CMaps repeated the last
 code point

---
 src/pdfmm/base/PdfCMapEncoding.cpp | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/pdfmm/base/PdfCMapEncoding.cpp b/src/pdfmm/base/PdfCMapEncoding.cpp
index 11d39be..a518c43 100644
--- a/src/pdfmm/base/PdfCMapEncoding.cpp
+++ b/src/pdfmm/base/PdfCMapEncoding.cpp
@@ -300,16 +300,8 @@ void handleRangeMapping(PdfCharCodeMap& map,
     auto end = dstCodeLo.end();
     PDFMM_INVARIANT(it != end);
     char32_t back = dstCodeLo.back();
-    vector<char32_t> newdstbase;
     // Compute a destination string that has all code points except the last one
-    if (dstCodeLo.size() != 1)
-    {
-        do
-        {
-            newdstbase.push_back(*it);
-            it++;
-        } while (it != end);
-    }
+    vector<char32_t> newdstbase(it, end - 1);
 
     // Compute new destination string with last chracter/code point incremented by one
     vector<char32_t> newdst;
-- 
2.43.0


From ce707f1b1aa61204cd664b4d00f36cd7e30d0400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:37 +0000
Subject: [PATCH 144/153] fix: CIDs were counted in the code sizes of CMaps

---
 src/pdfmm/base/PdfCMapEncoding.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/pdfmm/base/PdfCMapEncoding.cpp b/src/pdfmm/base/PdfCMapEncoding.cpp
index a518c43..24e6470 100644
--- a/src/pdfmm/base/PdfCMapEncoding.cpp
+++ b/src/pdfmm/base/PdfCMapEncoding.cpp
@@ -28,6 +28,7 @@ struct CodeLimits
 static void readNextVariantSequence(PdfPostScriptTokenizer& tokenizer, InputStreamDevice& device,
     PdfVariant& variant, const string_view& endSequenceKeyword, bool& endOfSequence);
 static uint32_t getCodeFromVariant(const PdfVariant& var, CodeLimits& limits);
+static char32_t getDestinationFromVariant(const PdfVariant& var);
 static uint32_t getCodeFromVariant(const PdfVariant& var, CodeLimits& limits, unsigned char& codeSize);
 static vector<char32_t> handleNameMapping(const PdfName& name);
 static vector<char32_t> handleStringMapping(const PdfString& str);
@@ -196,7 +197,7 @@ PdfCharCodeMap parseCMapObject(const PdfObjectStream& stream, CodeLimits& limits
                         tokenizer.ReadNextVariant(device, *var);
                         if (var->IsNumber())
                         {
-                            char32_t dstCode = (char32_t)getCodeFromVariant(*var, limits);
+                            char32_t dstCode = getDestinationFromVariant(*var);
                             mappedCodes.clear();
                             mappedCodes.push_back(dstCode);
                         }
@@ -229,7 +230,7 @@ PdfCharCodeMap parseCMapObject(const PdfObjectStream& stream, CodeLimits& limits
                         tokenizer.ReadNextVariant(device, *var);
                         uint32_t srcCodeHi = getCodeFromVariant(*var, limits);
                         tokenizer.ReadNextVariant(device, *var);
-                        char32_t dstCIDLo = (char32_t)getCodeFromVariant(*var, limits);
+                        char32_t dstCIDLo = getDestinationFromVariant(*var);
 
                         unsigned rangeSize = srcCodeHi - srcCodeLo + 1;
                         vector<char32_t> mappedCodes;
@@ -255,7 +256,7 @@ PdfCharCodeMap parseCMapObject(const PdfObjectStream& stream, CodeLimits& limits
                         unsigned char codeSize;
                         uint32_t srcCode = getCodeFromVariant(*var, limits, codeSize);
                         tokenizer.ReadNextVariant(device, *var);
-                        char32_t dstCode = (char32_t)getCodeFromVariant(*var, limits);
+                        char32_t dstCode = getDestinationFromVariant(*var);
                         mappedCodes.clear();
                         mappedCodes.push_back(dstCode);
                         pushMapping(ret, { srcCode, codeSize }, mappedCodes);
@@ -378,6 +379,13 @@ uint32_t getCodeFromVariant(const PdfVariant& var, CodeLimits& limits)
     return getCodeFromVariant(var, limits, codeSize);
 }
 
+// The destination is not a code: it doesn't have a code size
+char32_t getDestinationFromVariant(const PdfVariant& var)
+{
+    unsigned char codeSize;
+    return (char32_t)getCodeFromVariant(var, codeSize);
+}
+
 vector<char32_t> handleNameMapping(const PdfName& name)
 {
     return handleUtf8String(name.GetString());
-- 
2.43.0


From 26c9a2a9059e9d9b1720f508e5102ed93fa3b277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:46 +0000
Subject: [PATCH 145/153] fix: last code of identity encodings was one too much

---
 src/pdfmm/base/PdfIdentityEncoding.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfIdentityEncoding.cpp b/src/pdfmm/base/PdfIdentityEncoding.cpp
index 491d3ff..8d3bf7b 100644
--- a/src/pdfmm/base/PdfIdentityEncoding.cpp
+++ b/src/pdfmm/base/PdfIdentityEncoding.cpp
@@ -112,5 +112,5 @@ PdfEncodingLimits getLimits(unsigned char codeSpaceSize)
         PDFMM_RAISE_ERROR_INFO(PdfErrorCode::ValueOutOfRange, "Code space size can't be zero or bigger than 4");
 
     return { codeSpaceSize, codeSpaceSize, PdfCharCode(0, codeSpaceSize),
-        PdfCharCode((unsigned)std::pow(2, codeSpaceSize * CHAR_BIT), codeSpaceSize) };
+        PdfCharCode(utls::GetCharCodeMaxValue(codeSpaceSize), codeSpaceSize) };
 }
-- 
2.43.0


From af40b73280c6cbe6adcf5ac988a05cf4cb76a6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:46 +0000
Subject: [PATCH 146/153] fix: identity encodings converted codes out of their
 range

---
 src/pdfmm/base/PdfIdentityEncoding.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfIdentityEncoding.cpp b/src/pdfmm/base/PdfIdentityEncoding.cpp
index 8d3bf7b..bd94f17 100644
--- a/src/pdfmm/base/PdfIdentityEncoding.cpp
+++ b/src/pdfmm/base/PdfIdentityEncoding.cpp
@@ -39,7 +39,7 @@ PdfIdentityEncoding::PdfIdentityEncoding(PdfIdentityOrientation orientation)
 bool PdfIdentityEncoding::tryGetCharCode(char32_t codePoint, PdfCharCode& codeUnit) const
 {
     PDFMM_INVARIANT(m_Limits.MinCodeSize == m_Limits.MaxCodeSize);
-    if (utls::GetCharCodeSize(codePoint) > m_Limits.MaxCodeSize)
+    if ((unsigned)codePoint < m_Limits.FirstChar.Code || (unsigned)codePoint > m_Limits.LastChar.Code)
     {
         codeUnit = { };
         return false;
@@ -51,6 +51,9 @@ bool PdfIdentityEncoding::tryGetCharCode(char32_t codePoint, PdfCharCode& codeUn
 
 bool PdfIdentityEncoding::tryGetCodePoints(const PdfCharCode& codeUnit, vector<char32_t>& codePoints) const
 {
+    if (codeUnit.Code < m_Limits.FirstChar.Code || codeUnit.Code > m_Limits.LastChar.Code)
+        return false;
+
     codePoints.push_back((char32_t)codeUnit.Code);
     return true;
 }
-- 
2.43.0


From ef70f05838f2e4672f9738658faa161ed54bb8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:41 +0000
Subject: [PATCH 147/153] fix: last code of one byte encodings was missing in
 exported CMaps

---
 src/pdfmm/base/PdfEncodingMap.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfEncodingMap.cpp b/src/pdfmm/base/PdfEncodingMap.cpp
index f707770..c502d75 100644
--- a/src/pdfmm/base/PdfEncodingMap.cpp
+++ b/src/pdfmm/base/PdfEncodingMap.cpp
@@ -419,7 +419,7 @@ void PdfEncodingMapOneByte::AppendToUnicodeEntries(OutputStream& stream, charbuf
     stream.Write(temp);
     stream.Write(" [\n");
     u16string u16tmp;
-    for (; code < lastCode; code++)
+    for (; code <= lastCode; code++)
     {
         if (!TryGetCodePoints(PdfCharCode(code), codePoints))
             PDFMM_RAISE_ERROR_INFO(PdfErrorCode::InvalidFontFile, "Unable to find character code");
@@ -446,7 +446,7 @@ void PdfEncodingMapOneByte::AppendCIDMappingEntries(OutputStream& stream, const
     };
 
     vector<Mapping> mappings;
-    for (; code < lastCode; code++)
+    for (; code <= lastCode; code++)
     {
         PdfCharCode charCode(code);
         if (!TryGetCodePoints(charCode, codePoints))
-- 
2.43.0


From 86ffae562469531814dadb57691c3e35cb2d30e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:41 +0000
Subject: [PATCH 148/153] fix: fonts with differences of unknown names
 beginning with "uni" could not be read

---
 src/pdfmm/base/PdfDifferenceEncoding.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdfmm/base/PdfDifferenceEncoding.cpp b/src/pdfmm/base/PdfDifferenceEncoding.cpp
index 6533d83..bc8611c 100644
--- a/src/pdfmm/base/PdfDifferenceEncoding.cpp
+++ b/src/pdfmm/base/PdfDifferenceEncoding.cpp
@@ -2663,7 +2663,7 @@ char32_t PdfDifferenceEncoding::NameToCodePoint(const string_view& name)
         // force base16 IF it's 4 characters line
         unsigned val;
         if (std::from_chars(code.data(), name.data() + name.length(), val, code.length() == 4 ? 16 : 10).ec != std::errc())
-            PDFMM_RAISE_ERROR_INFO(PdfErrorCode::NoNumber, "Could not read number");
+            return U'\0'; // Just a name which begins with "uni"
 
         return (char32_t)val;
     }
-- 
2.43.0


From 6b4f7b70d9191c6de3f2099cded6cf2b2bc999c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:27:10 +0000
Subject: [PATCH 149/153] fix: text with more than 255 characters of a font
 could not be read back

---
 src/pdfmm/base/PdfFont.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pdfmm/base/PdfFont.cpp b/src/pdfmm/base/PdfFont.cpp
index 3071cfc..c7d449d 100644
--- a/src/pdfmm/base/PdfFont.cpp
+++ b/src/pdfmm/base/PdfFont.cpp
@@ -683,7 +683,9 @@ PdfCharCode PdfFont::AddCharCodeSafe(unsigned gid, const unicodeview& codePoints
     if (m_DynamicToUnicodeMap->TryGetCharCode(codePoints, code))
         return code;
 
-    code = PdfCharCode(m_DynamicToUnicodeMap->GetSize());
+    // NOTE: All the codes have the same size, so no one
+    // can be read as the beginning of another one
+    code = PdfCharCode(m_DynamicToUnicodeMap->GetSize(), 2);
     // NOTE: We assume in this context cid == gid identity
     m_DynamicCIDMap->PushMapping(code, gid);
     m_DynamicToUnicodeMap->PushMapping(code, codePoints);
@@ -770,7 +772,10 @@ bool PdfFont::tryAddSubsetGID(unsigned gid, const unicodeview& codePoints, PdfCI
     {
         // We start numberings CIDs from 1 since CID 0
         // is reserved for fallbacks
-        auto inserted = m_SubsetGIDs.try_emplace(gid, PdfCID((unsigned)m_SubsetGIDs.size() + 1));
+        // NOTE: All the codes have the same size, so no one
+        // can be read as the beginning of another one
+        unsigned cidId = (unsigned)m_SubsetGIDs.size() + 1;
+        auto inserted = m_SubsetGIDs.try_emplace(gid, PdfCID(cidId, PdfCharCode(cidId, 2)));
         cid = inserted.first->second;
         if (!inserted.second)
             return false;
-- 
2.43.0


From 99b8b610921ad782c806699b3eba312b05f3a4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:27:10 +0000
Subject: [PATCH 150/153] fix: code space ranges of exported CMaps missed codes

---
 src/pdfmm/base/PdfEncoding.cpp       |  6 +-----
 src/pdfmm/base/PdfEncodingCommon.cpp | 14 ++++++++++++++
 src/pdfmm/base/PdfEncodingCommon.h   |  5 +++++
 src/pdfmm/base/PdfEncodingMap.cpp    |  6 +-----
 4 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/pdfmm/base/PdfEncoding.cpp b/src/pdfmm/base/PdfEncoding.cpp
index dab5a23..b74d71f 100644
--- a/src/pdfmm/base/PdfEncoding.cpp
+++ b/src/pdfmm/base/PdfEncoding.cpp
@@ -591,11 +591,7 @@ void PdfEncoding::writeCIDMapping(PdfObject& cmapObj, const PdfFont& font, const
             else
             {
                 auto& limit = found->second;
-                if (codeUnit.Code < limit.FirstCode.Code)
-                    limit.FirstCode = codeUnit;
-
-                if (codeUnit.Code > limit.LastCode.Code)
-                    limit.LastCode = codeUnit;
+                codeUnit.ExtendRange(limit.FirstCode, limit.LastCode);
             }
         }
 
diff --git a/src/pdfmm/base/PdfEncodingCommon.cpp b/src/pdfmm/base/PdfEncodingCommon.cpp
index a6682f5..be6474a 100644
--- a/src/pdfmm/base/PdfEncodingCommon.cpp
+++ b/src/pdfmm/base/PdfEncodingCommon.cpp
@@ -92,6 +92,20 @@ void PdfCharCode::WriteHexTo(string& str, bool wrap) const
     utls::FormatTo(str, pattern, Code);
 }
 
+void PdfCharCode::ExtendRange(PdfCharCode& first, PdfCharCode& last) const
+{
+    unsigned firstCode = 0;
+    unsigned lastCode = 0;
+    for (unsigned i = 0; i < CodeSpaceSize; i++)
+    {
+        unsigned mask = 0xFFU << i * CHAR_BIT;
+        firstCode |= std::min(first.Code & mask, Code & mask);
+        lastCode |= std::max(last.Code & mask, Code & mask);
+    }
+    first.Code = firstCode;
+    last.Code = lastCode;
+}
+
 PdfCID::PdfCID()
     : Id(0)
 {
diff --git a/src/pdfmm/base/PdfEncodingCommon.h b/src/pdfmm/base/PdfEncodingCommon.h
index 207ac1e..e45c2bc 100644
--- a/src/pdfmm/base/PdfEncodingCommon.h
+++ b/src/pdfmm/base/PdfEncodingCommon.h
@@ -38,6 +38,11 @@ namespace mm
     public:
         void AppendTo(std::string& str) const;
         void WriteHexTo(std::string& str, bool wrap = true) const;
+
+        /** Extend a code space range so it includes this code
+         * \remarks Code space ranges are ranges of every single byte
+         */
+        void ExtendRange(PdfCharCode& first, PdfCharCode& last) const;
     };
 
     /** Represent a CID (Character ID) with full code unit information
diff --git a/src/pdfmm/base/PdfEncodingMap.cpp b/src/pdfmm/base/PdfEncodingMap.cpp
index c502d75..38b70c1 100644
--- a/src/pdfmm/base/PdfEncodingMap.cpp
+++ b/src/pdfmm/base/PdfEncodingMap.cpp
@@ -325,11 +325,7 @@ void PdfEncodingMapBase::AppendCodeSpaceRange(OutputStream& stream, charbuff& te
         else
         {
             auto& limit = found->second;
-            if (codeUnit.Code < limit.FirstCode.Code)
-                limit.FirstCode = codeUnit;
-
-            if (codeUnit.Code > limit.LastCode.Code)
-                limit.LastCode = codeUnit;
+            codeUnit.ExtendRange(limit.FirstCode, limit.LastCode);
         }
     }
 
-- 
2.43.0


From 16db1f77f17420ff1382e510d190e1cd261d6d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:42 +0000
Subject: [PATCH 151/153] fix: TryConvertToEncoded raised for characters
 missing in the encoding of a subset font

---
 src/pdfmm/base/PdfEncoding.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pdfmm/base/PdfEncoding.cpp b/src/pdfmm/base/PdfEncoding.cpp
index b74d71f..a932452 100644
--- a/src/pdfmm/base/PdfEncoding.cpp
+++ b/src/pdfmm/base/PdfEncoding.cpp
@@ -161,6 +161,10 @@ bool PdfEncoding::tryGetCharCode(PdfFont& font, unsigned gid, const unicodeview&
 {
     if (font.IsSubsettingEnabled())
     {
+        // The characters may be missing in a predefined encoding
+        if (!IsDynamicEncoding() && !GetToUnicodeMapSafe().TryGetCharCode(codePoints, codeUnit))
+            return false;
+
         codeUnit = font.AddSubsetGIDSafe(gid, codePoints).Unit;
         return true;
     }
-- 
2.43.0


From de8edd79c27c6b262d89817bd1c70d66bdb4a208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:34:22 +0000
Subject: [PATCH 152/153] fix: AES input stream left the end-of-file flag unset
 while data remained, long encrypted streams could be cut

---
 src/pdfmm/base/PdfEncrypt.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pdfmm/base/PdfEncrypt.cpp b/src/pdfmm/base/PdfEncrypt.cpp
index 58b8776..73c1137 100644
--- a/src/pdfmm/base/PdfEncrypt.cpp
+++ b/src/pdfmm/base/PdfEncrypt.cpp
@@ -301,6 +301,7 @@ protected:
         int outlen = 0;
         size_t drainLen;
         size_t read;
+        eof = false;
         if (m_inputEof)
             goto DrainBuffer;
 
-- 
2.43.0


From 227fbdd55c539409c7d5fa34b6c4c461f15baec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:34:22 +0000
Subject: [PATCH 153/153] fix: canvas input device left the end-of-file flag
 unset when the separator of two streams fills the buffer

---
 src/pdfmm/base/PdfCanvasInputDevice.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pdfmm/base/PdfCanvasInputDevice.cpp b/src/pdfmm/base/PdfCanvasInputDevice.cpp
index fdfac8f..f155c69 100644
--- a/src/pdfmm/base/PdfCanvasInputDevice.cpp
+++ b/src/pdfmm/base/PdfCanvasInputDevice.cpp
@@ -112,7 +112,10 @@ size_t PdfCanvasInputDevice::readBuffer(char* buffer, size_t size, bool& eof)
             count += 1;
             m_deviceSwitchOccurred = false;
             if (size == 0)
+            {
+                eof = false;
                 return count;
+            }
         }
 
         // Span reads into multple input devices
-- 
2.43.0

