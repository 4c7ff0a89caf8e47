From 9a9291dfe1ca0a15330b0f3df548ef24363c34d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:23 +0000
Subject: [PATCH 01/36] fix: compare the scanner position, not the pattern,
 with the end of the text

Parser::have(const char*) compared the address of the pattern literal with
the end of the argument text, so true and false were accepted or refused
depending on where the text happened to be allocated.
---
 include/eni/json/Parser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eni/json/Parser.h b/include/eni/json/Parser.h
index 20cd201..8231840 100644
--- a/include/eni/json/Parser.h
+++ b/include/eni/json/Parser.h
@@ -260,7 +260,7 @@ private:
   bool have(const char *pPat) {
     int i = 0;
     for(; pPat[i] != '\0'; ++i){
-      if((m_End <= pPat+i) || (pPat[i] != m_It[i])) return 0;
+      if((m_End <= m_It+i) || (pPat[i] != m_It[i])) return 0;
     }
     m_It += i;
     return 1;
-- 
2.43.0


From 61b53274c99400096ef42acc3a32a24902abe9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:23 +0000
Subject: [PATCH 02/36] fix: return *this from StringMap and PointerIterator
 assignment

---
 include/eni/adt/StringMap.h              | 2 ++
 include/eni/adt/bits/PointerIterator.tcc | 1 +
 2 files changed, 3 insertions(+)

diff --git a/include/eni/adt/StringMap.h b/include/eni/adt/StringMap.h
index 4ee8814..f755b85 100644
--- a/include/eni/adt/StringMap.h
+++ b/include/eni/adt/StringMap.h
@@ -49,10 +49,12 @@ public:
 
   StringMap& operator=(const StringMap& pCopy) {
     super::operator=(pCopy);
+    return *this;
   }
 
   StringMap& operator=(StringMap&& pOther) {
     super::operator=(pOther);
+    return *this;
   }
 
   value_type& at(const key_type& pKey) {
diff --git a/include/eni/adt/bits/PointerIterator.tcc b/include/eni/adt/bits/PointerIterator.tcc
index 5771e0a..9ee7eff 100644
--- a/include/eni/adt/bits/PointerIterator.tcc
+++ b/include/eni/adt/bits/PointerIterator.tcc
@@ -24,6 +24,7 @@ template<typename ItemType> typename PointerIterator<ItemType>::iterator&
 PointerIterator<ItemType>::operator=(const_iterator& pOther)
 {
   m_Ptr = pOther.m_Ptr;
+  return *this;
 }
 
 template<typename ItemType> typename PointerIterator<ItemType>::reference
-- 
2.43.0


From 35fcfb3c07354504d9ad4ebe3bc02577f67b95d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:23 +0000
Subject: [PATCH 03/36] fix: reject arguments that are not a JSON array

Anything else was reinterpreted as an array and crashed.
---
 include/eni/eni.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eni/eni.h b/include/eni/eni.h
index 0153398..6c1c420 100644
--- a/include/eni/eni.h
+++ b/include/eni/eni.h
@@ -68,7 +68,7 @@ public:
 private:
   bool check(const json::Value& pArgs) {
     if (!m_Parsed) {
-      m_ParseSuccess = parse(pArgs.toArray());
+      m_ParseSuccess = pArgs.isArray() && parse(pArgs.toArray());
       m_Parsed = true;
     }
     return m_ParseSuccess;
-- 
2.43.0


From eb83f7fa1019072ee6354fa18709b7076666931d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:23 +0000
Subject: [PATCH 04/36] fix: hash table entries: value-initialise the value,
 keep the full key length

The value of a new entry of a built-in type was whatever the memory held,
and string keys of 65536 bytes or more were cut to their length modulo 65536.
---
 include/eni/adt/HashBase.h        | 2 +-
 include/eni/adt/StringHashTable.h | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/eni/adt/HashBase.h b/include/eni/adt/HashBase.h
index 3cf4b09..c6aa9c0 100644
--- a/include/eni/adt/HashBase.h
+++ b/include/eni/adt/HashBase.h
@@ -21,7 +21,7 @@ public:
   typedef Value value_type;
 
 public:
-  Entry(const key_type& pKey) : m_Key(pKey) { }
+  Entry(const key_type& pKey) : m_Key(pKey), m_Value() { }
 
   const Key& key() const { return m_Key; }
   Key&       key()       { return m_Key; }
diff --git a/include/eni/adt/StringHashTable.h b/include/eni/adt/StringHashTable.h
index 138b396..01b6f9f 100644
--- a/include/eni/adt/StringHashTable.h
+++ b/include/eni/adt/StringHashTable.h
@@ -27,7 +27,7 @@ public:
   typedef ValueType value_type;
 
 public:
-  Entry(const key_type& pKey) : m_KeyLen(pKey.size()) {
+  Entry(const key_type& pKey) : m_Value(), m_KeyLen(pKey.size()) {
     std::memcpy(m_Key, pKey.data(), pKey.size());
     m_Key[pKey.size()] = '\0';
   }
@@ -45,7 +45,7 @@ public:
 protected:
   value_type m_Value;
 
-  uint16_t m_KeyLen;
+  size_t m_KeyLen;
 
   char m_Key[];
 };
-- 
2.43.0


From 422cc08dc9f2885fa4e5ee08db697a17e79dc991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:10 +0000
Subject: [PATCH 05/36] fix: chain iterators: skip empty buckets, accept a
 table without buckets

Looking up a key whose hash equals the stale hash of an empty bucket (zero,
for one never used) dereferenced a null entry, and on a table without
buckets the lookup divided by zero.
---
 include/eni/adt/bits/HashIterator.tcc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/eni/adt/bits/HashIterator.tcc b/include/eni/adt/bits/HashIterator.tcc
index 939e97a..11190fb 100644
--- a/include/eni/adt/bits/HashIterator.tcc
+++ b/include/eni/adt/bits/HashIterator.tcc
@@ -16,13 +16,18 @@ ChainIterBase<HT>::ChainIterBase()
 template<typename HT>
 ChainIterBase<HT>::ChainIterBase(HT* pTable, const key_type& pKey)
   : m_pHashTable(pTable) {
+  if (0 == m_pHashTable->numOfBuckets()) {
+    reset();
+    return;
+  }
   typename HT::hasher_type hasher;
   m_HashValue = hasher(pKey);
   m_EndIndex = m_Index = m_HashValue % m_pHashTable->numOfBuckets();
   const unsigned int probe = 1;
   while(true) {
     bucket_type &bucket = m_pHashTable->bucket(m_Index);
-    if (hash_table::Tombstone() == bucket.entry) {
+    if (hash_table::Tombstone() == bucket.entry ||
+        hash_table::EmptyBucket() == bucket.entry) {
       // Ignore tombstones.
     }
     else if (m_HashValue == bucket.hash) {
-- 
2.43.0


From e2b3304540f4ba801df53ad5fc6c6e35b4fb52c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:52 +0000
Subject: [PATCH 06/36] fix: hash table: copy, assignment and growth without
 lost or dangling entries

Assigning a table to itself destroyed it, assignment leaked the previous
entries and buckets, copying a table without buckets produced one that
divides by zero, and a failed allocation of buckets or entries was not
noticed. Failed allocations now raise BadAlloc<NoMemory> and leave the
table as it was.
---
 include/eni/adt/HashBase.h         |   2 +
 include/eni/adt/HashTable.h        |  10 +++
 include/eni/adt/bits/HashBase.tcc  |  25 ++++++-
 include/eni/adt/bits/HashTable.tcc | 103 ++++++++++++++++++++---------
 4 files changed, 108 insertions(+), 32 deletions(-)

diff --git a/include/eni/adt/HashBase.h b/include/eni/adt/HashBase.h
index c6aa9c0..17afc69 100644
--- a/include/eni/adt/HashBase.h
+++ b/include/eni/adt/HashBase.h
@@ -7,6 +7,7 @@
 #ifndef ENI_ADT_HASHBASE
 #define ENI_ADT_HASHBASE
 
+#include <diagnostic/Exception.h>
 #include <cstdlib>
 #include <cstring>
 
@@ -112,6 +113,7 @@ protected:
 
   /// initialize the hash table.
   /// @return true only if the initialization succeeds.
+  /// @throw BadAlloc<NoMemory> when there is not enough memory.
   bool init(unsigned int pInitSize);
 
   void clear();
diff --git a/include/eni/adt/HashTable.h b/include/eni/adt/HashTable.h
index 5748653..b59c141 100644
--- a/include/eni/adt/HashTable.h
+++ b/include/eni/adt/HashTable.h
@@ -10,6 +10,9 @@
 #include <adt/HashBase.h>
 #include <adt/HashIterator.h>
 #include <support/MallocAllocator.h>
+#include <diagnostic/Exception.h>
+#include <new>
+#include <utility>
 
 namespace eni {
 
@@ -127,6 +130,13 @@ public:
 
   using super::Tombstone;
 
+protected:
+  /// createEntry - allocate and construct an entry for pKey
+  entry_type* createEntry(const key_type& pKey);
+
+  /// destroyEntry - destruct and deallocate an entry
+  void destroyEntry(entry_type* pEntry);
+
 protected:
   allocator_type m_EntryAlloc;
 };
diff --git a/include/eni/adt/bits/HashBase.tcc b/include/eni/adt/bits/HashBase.tcc
index 2b4a2a6..309abee 100644
--- a/include/eni/adt/bits/HashBase.tcc
+++ b/include/eni/adt/bits/HashBase.tcc
@@ -63,7 +63,12 @@ TableImpl<K, V, H, E>::TableImpl(const TableImpl& pCopy)
     m_NumOfEntries(pCopy.m_NumOfEntries),
     m_NumOfTombstones(pCopy.m_NumOfTombstones) {
 
+  if (!pCopy.isInit())
+    return;
+
   m_Buckets = (Bucket*)malloc(m_NumOfBuckets * sizeof(Bucket));
+  if (nullptr == m_Buckets)
+    throw BadAlloc<NoMemory>();
   ::memcpy(m_Buckets, pCopy.m_Buckets, m_NumOfBuckets * sizeof(Bucket));
 
   // Because TableImpl doesn't handle with entries, here we doesn't copy entries
@@ -90,14 +95,23 @@ TableImpl<K, V, H, E>::TableImpl(TableImpl&& pOther)
 template<typename K, typename V, typename H, template<class, class> class E>
 TableImpl<K, V, H, E>& TableImpl<K, V, H, E>::operator=(const TableImpl& pCopy)
 {
+  if (this == &pCopy)
+    return *this;
+
   if (isInit())
     clear();
 
+  if (!pCopy.isInit())
+    return *this;
+
+  m_Buckets = (Bucket*)malloc(pCopy.m_NumOfBuckets * sizeof(Bucket));
+  if (nullptr == m_Buckets)
+    throw BadAlloc<NoMemory>();
+
   m_NumOfBuckets = pCopy.m_NumOfBuckets;
   m_NumOfEntries = pCopy.m_NumOfEntries;
   m_NumOfTombstones = pCopy.m_NumOfTombstones;
 
-  m_Buckets = (Bucket*)malloc(m_NumOfBuckets * sizeof(Bucket));
   ::memcpy(m_Buckets, pCopy.m_Buckets, m_NumOfBuckets * sizeof(Bucket));
 
   // Because TableImpl doesn't handle with entries, here we doesn't copy entries
@@ -109,6 +123,7 @@ template<typename K, typename V, typename H, template<class, class> class E>
 TableImpl<K, V, H, E>& TableImpl<K, V, H, E>::operator=(TableImpl&& pOther)
 {
   if (this != &pOther) {
+    clear();
     m_Buckets = pOther.m_Buckets;
     m_NumOfBuckets = pOther.m_NumOfBuckets;
     m_NumOfEntries = pOther.m_NumOfEntries;
@@ -134,7 +149,11 @@ bool TableImpl<K, V, H, E>::init(unsigned int pInitSize)
 
   /** calloc also set bucket.Item = Bucket::getEmptyStone() **/
   m_Buckets = (Bucket*)calloc(m_NumOfBuckets, sizeof(Bucket));
-  return (nullptr != m_Buckets);
+  if (nullptr == m_Buckets) {
+    m_NumOfBuckets = 0;
+    throw BadAlloc<NoMemory>();
+  }
+  return true;
 }
 
 /// clear - clear the hash table.
@@ -249,6 +268,8 @@ template<typename K, typename V, typename H, template<class, class> class E>
 void TableImpl<K, V, H, E>::doRehash(unsigned int pNewSize)
 {
   Bucket* new_table = (Bucket*)calloc(pNewSize, sizeof(Bucket));
+  if (nullptr == new_table)
+    throw BadAlloc<NoMemory>();
 
   // Rehash all the items into their new buckets.  Luckily :) we already have
   // the hash values available, so we don't have to recall hash function again.
diff --git a/include/eni/adt/bits/HashTable.tcc b/include/eni/adt/bits/HashTable.tcc
index 7a203c9..51a08ba 100644
--- a/include/eni/adt/bits/HashTable.tcc
+++ b/include/eni/adt/bits/HashTable.tcc
@@ -25,10 +25,21 @@ HashTable<K, V, H, E, A>::HashTable(const HashTable& pCopy)
     if (EmptyBucket() != super::m_Buckets[i].entry &&
         Tombstone() != super::m_Buckets[i].entry ) {
       // copy entry
-      const key_type& key = pCopy.super::m_Buckets[i].entry->key();
-      super::m_Buckets[i].entry = m_EntryAlloc.allocate(1, &key);
-      entry_type* entry = new (super::m_Buckets[i].entry) entry_type(key);
-      entry->setValue(pCopy.m_Buckets[i].entry->value());
+      entry_type* entry = nullptr;
+      try {
+        const key_type& key = pCopy.super::m_Buckets[i].entry->key();
+        entry = createEntry(key);
+        entry->setValue(pCopy.m_Buckets[i].entry->value());
+      } catch (...) {
+        // the entries from here on still belong to pCopy
+        if (nullptr != entry)
+          destroyEntry(entry);
+        for (unsigned int j=i; j < numOfBuckets(); ++j)
+          super::m_Buckets[j].entry = EmptyBucket();
+        clear();
+        throw;
+      }
+      super::m_Buckets[i].entry = entry;
     }
   }
 }
@@ -56,19 +67,9 @@ template<typename K, typename V, typename H,
 HashTable<K, V, H, E, A>&
 HashTable<K, V, H, E, A>::operator=(const HashTable& pCopy)
 {
-
-  internal::TableImpl<K, V, H>::operator=(pCopy);
-
-  // for all entries in pCopy, allocate an entry.
-  for (unsigned int i=0; i < numOfBuckets(); ++i) {
-    if (EmptyBucket() != super::m_Buckets[i].entry &&
-        Tombstone() != super::m_Buckets[i].entry ) {
-      // copy entry
-      const key_type& key = pCopy.m_Buckets[i].entry->key();
-      super::m_Buckets[i].entry = m_EntryAlloc.allocate(1, &key);
-      entry_type* entry = new (super::m_Buckets[i].entry) entry_type(key);
-      entry->setValue(pCopy.super::m_Buckets[i].entry->value());
-    }
+  if (this != &pCopy) {
+    HashTable copy(pCopy);
+    *this = std::move(copy);
   }
   return *this;
 }
@@ -79,6 +80,9 @@ template<typename K, typename V, typename H,
 HashTable<K, V, H, E, A>&
 HashTable<K, V, H, E, A>::operator=(HashTable&& pOther)
 {
+  if (this == &pOther)
+    return *this;
+  clear();
   internal::TableImpl<K, V, H>::operator=(std::move(pOther));
   if (std::is_move_assignable<allocator_type>::value)
     m_EntryAlloc = std::move(pOther.m_EntryAlloc);
@@ -96,8 +100,7 @@ void HashTable<K, V, H, E, A>::clear()
   for (unsigned int i=0; i < numOfBuckets(); ++i) {
     if (EmptyBucket() != super::m_Buckets[i].entry ) {
       if (Tombstone() != super::m_Buckets[i].entry ) {
-        ((entry_type*)super::m_Buckets[i].entry)->~entry_type();
-        m_EntryAlloc.deallocate(super::m_Buckets[i].entry);
+        destroyEntry(super::m_Buckets[i].entry);
       }
       super::m_Buckets[i].entry = EmptyBucket();
     }
@@ -122,21 +125,29 @@ HashTable<K, V, H, E, A>::insert(const key_type& pKey, bool& pExist)
     return entry;
   }
 
-  // find a tombstone
-  if (Tombstone() == entry)
-    --super::m_NumOfTombstones;
-
   // construct an entry
-  entry = m_EntryAlloc.allocate(1, &pKey);
+  entry_type* reused = entry;
+  entry = createEntry(pKey);
 
-  // constructor with key type is necessary.
-  new (entry) entry_type(pKey);
+  // find a tombstone
+  if (Tombstone() == reused)
+    --super::m_NumOfTombstones;
 
   // set up the bucket
   bucket.entry = entry;
 
   ++super::m_NumOfEntries;
-  super::mayRehash();
+  try {
+    super::mayRehash();
+  } catch (...) {
+    // no room to grow: take the entry back, or the table could fill up
+    bucket.entry = reused;
+    --super::m_NumOfEntries;
+    if (Tombstone() == reused)
+      ++super::m_NumOfTombstones;
+    destroyEntry(entry);
+    throw;
+  }
   pExist = false;
   return entry;
 }
@@ -151,16 +162,48 @@ bool HashTable<K, V, H, E, A>::erase(const key_type& pKey)
     return false;
 
   bucket_type& bucket = super::m_Buckets[index];
-  ((entry_type*)bucket.entry)->~entry_type();
-  m_EntryAlloc.deallocate(bucket.entry);
+  destroyEntry(bucket.entry);
   bucket.entry = Tombstone();
 
   --super::m_NumOfEntries;
   ++super::m_NumOfTombstones;
-  super::mayRehash();
+  try {
+    super::mayRehash();
+  } catch (const std::bad_alloc&) {
+    // the element is gone; cleaning up the tombstones can wait
+  }
   return true;
 }
 
+/// createEntry
+template<typename K, typename V, typename H,
+         template<class, class> class E, template<class> class A>
+typename HashTable<K, V, H, E, A>::entry_type*
+HashTable<K, V, H, E, A>::createEntry(const key_type& pKey)
+{
+  entry_type* entry = m_EntryAlloc.allocate(1, &pKey);
+  if (nullptr == entry)
+    throw BadAlloc<NoMemory>();
+
+  // constructor with key type is necessary.
+  try {
+    new (entry) entry_type(pKey);
+  } catch (...) {
+    m_EntryAlloc.deallocate(entry);
+    throw;
+  }
+  return entry;
+}
+
+/// destroyEntry
+template<typename K, typename V, typename H,
+         template<class, class> class E, template<class> class A>
+void HashTable<K, V, H, E, A>::destroyEntry(entry_type* pEntry)
+{
+  pEntry->~entry_type();
+  m_EntryAlloc.deallocate(pEntry);
+}
+
 template<typename K, typename V, typename H,
          template<class, class> class E, template<class> class A>
 typename HashTable<K, V, H, E, A>::iterator
-- 
2.43.0


From a1269fddf646ad9b56603b6e0c866c04b7d0ef09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:38 +0000
Subject: [PATCH 07/36] fix: Vector: construct and destroy elements, survive
 aliasing and failed allocations

Elements were assigned into raw memory, moved by realloc() and never
destroyed, emplace_back() leaked its element, inserting an element of the
vector into itself read freed memory, the recorded capacity was smaller
than the memory obtained, and failed allocations in the constructors were
not noticed.
---
 include/eni/adt/Vector.h        |  7 +++
 include/eni/adt/bits/Vector.tcc | 95 +++++++++++++++++++++++----------
 2 files changed, 74 insertions(+), 28 deletions(-)

diff --git a/include/eni/adt/Vector.h b/include/eni/adt/Vector.h
index 02c153b..1bfa5d4 100644
--- a/include/eni/adt/Vector.h
+++ b/include/eni/adt/Vector.h
@@ -12,6 +12,8 @@
 #include <algorithm>
 #include <cstdlib>
 #include <limits>
+#include <new>
+#include <utility>
 #include <initializer_list>
 #include <vector>
 
@@ -104,6 +106,11 @@ public:
   void swap(Vector& pOther);
   void clear();
 
+private:
+  /// append - add pSize elements, none of them ours, at the end
+  template<class Iterator>
+  void append(Iterator pFirst, Iterator pLast, size_type pSize);
+
 private:
   pointer m_Data;
   size_type m_DataSize;
diff --git a/include/eni/adt/bits/Vector.tcc b/include/eni/adt/bits/Vector.tcc
index 05b6c30..ab8a19c 100644
--- a/include/eni/adt/bits/Vector.tcc
+++ b/include/eni/adt/bits/Vector.tcc
@@ -12,36 +12,32 @@ Vector<ElementType>::Vector()
 
 template<class ElementType>
 Vector<ElementType>::Vector(size_type pSize)
-  : m_DataSize(pSize), m_AllocSize(pSize) {
-  m_Data = (ElementType*)std::calloc(m_DataSize, sizeof(ElementType));
+  : Vector() {
+  resize(pSize);
 }
 
 template<class ElementType>
 Vector<ElementType>::Vector(size_type pSize, const_reference pValue)
-  : m_DataSize(pSize), m_AllocSize(pSize) {
-  m_Data = (ElementType*)std::calloc(m_DataSize, sizeof(ElementType));
-  std::fill_n(m_Data, m_DataSize, pValue);
+  : Vector() {
+  resize(pSize, pValue);
 }
 
 template<class ElementType>
 Vector<ElementType>::Vector(const std_vector& pVector)
-  : m_DataSize(pVector.size()), m_AllocSize(pVector.size()) {
-  m_Data = (ElementType*)std::calloc(m_DataSize, sizeof(ElementType));
-  std::copy(pVector.begin(), pVector.end(), m_Data);
+  : Vector() {
+  append(pVector.begin(), pVector.end(), pVector.size());
 }
 
 template<class ElementType>
 Vector<ElementType>::Vector(const Vector& pOther)
-  : m_DataSize(pOther.m_DataSize), m_AllocSize(pOther.m_DataSize) {
-  m_Data = (ElementType*)std::calloc(m_DataSize, sizeof(ElementType));
-  std::copy(pOther.begin(), pOther.end(), m_Data);
+  : Vector() {
+  append(pOther.begin(), pOther.end(), pOther.size());
 }
 
 template<class ElementType>
 Vector<ElementType>::Vector(initializer_list pIList)
-  : m_DataSize(pIList.size()), m_AllocSize(pIList.size()) {
-  m_Data = (ElementType*)std::calloc(m_DataSize, sizeof(ElementType));
-  std::copy(pIList.begin(), pIList.end(), m_Data);
+  : Vector() {
+  append(pIList.begin(), pIList.end(), pIList.size());
 }
 
 template<class ElementType>
@@ -109,10 +105,14 @@ Vector<ElementType>::resize(size_type pSize)
 template<class ElementType> void
 Vector<ElementType>::resize(size_t pSize, const ElementType& pValue)
 {
-  reserve(pSize);
-  if (pSize > m_DataSize)
-    std::fill_n(end(), pSize - m_DataSize, pValue);
-  m_DataSize = pSize;
+  if (pSize > m_DataSize) {
+    value_type value(pValue); //< pValue may be one of our elements
+    reserve(pSize);
+    for (; m_DataSize < pSize; ++m_DataSize)
+      new (m_Data + m_DataSize) value_type(value);
+  }
+  while (pSize < m_DataSize)
+    m_Data[--m_DataSize].~value_type();
 }
 
 template<class ElementType> bool
@@ -141,12 +141,27 @@ Vector<ElementType>::reserve(size_type pSize)
     }
     if (targetSize > max_size())
       targetSize = max_size();
-    pointer ptr = (ElementType*)std::realloc(m_Data, sizeof(ElementType) * targetSize);
+    if (targetSize > std::numeric_limits<size_t>::max() / sizeof(ElementType))
+      throw BadAlloc<NoMemory>();
+    pointer ptr = (ElementType*)std::malloc(sizeof(ElementType) * targetSize);
     if (nullptr == ptr) //< not enough memory
       throw BadAlloc<NoMemory>();
     else {
+      size_type moved = 0;
+      try {
+        for (; moved < m_DataSize; ++moved)
+          new (ptr + moved) value_type(std::move_if_noexcept(m_Data[moved]));
+      } catch (...) {
+        while (moved > 0)
+          ptr[--moved].~value_type();
+        std::free(ptr);
+        throw;
+      }
+      size_type size = m_DataSize;
+      clear();
       m_Data = ptr;
-      m_AllocSize = pSize;
+      m_DataSize = size;
+      m_AllocSize = targetSize;
     }
   }
 }
@@ -208,15 +223,17 @@ Vector<ElementType>::data()
 template<class ElementType> void
 Vector<ElementType>::assign(size_type pSize, const_reference pValue)
 {
+  value_type value(pValue); //< pValue may be one of our elements
   resize(pSize);
-  std::fill_n(m_Data, pSize, pValue);
+  std::fill_n(m_Data, pSize, value);
 }
 
 template<class ElementType> void
 Vector<ElementType>::assign(const_iterator pFirst, const_iterator pLast)
 {
-  resize(pLast - pFirst);
-  std::copy(pFirst, pLast, m_Data);
+  Vector<ElementType> copy; //< the range may be part of our elements
+  copy.append(pFirst, pLast, pLast - pFirst);
+  swap(copy);
 }
 
 template<class ElementType> void
@@ -228,22 +245,28 @@ Vector<ElementType>::assign(initializer_list pIList)
 template<class ElementType> void
 Vector<ElementType>::push_back(const_reference pValue)
 {
+  value_type value(pValue); //< pValue may be one of our elements
   reserve(size() + 1);
-  m_Data[m_DataSize++] = pValue;
+  new (m_Data + m_DataSize) value_type(std::move(value));
+  ++m_DataSize;
 }
 
 template<class ElementType> typename Vector<ElementType>::value_type
 Vector<ElementType>::pop_back()
 {
-  return m_Data[--m_DataSize];
+  value_type value(std::move(back()));
+  resize(size() - 1, value);
+  return value;
 }
 
 template<class ElementType>
 template<class ...Args> void
 Vector<ElementType>::emplace_back(Args&& ...pArgs)
 {
+  value_type value(std::forward<Args>(pArgs)...);
   reserve(size() + 1);
-  m_Data[m_DataSize++] = *(new ElementType(std::forward<Args>(pArgs)...));
+  new (m_Data + m_DataSize) value_type(std::move(value));
+  ++m_DataSize;
 }
 
 template<class ElementType> typename Vector<ElementType>::iterator
@@ -290,11 +313,12 @@ Vector<ElementType>::insert(size_type pIndex, size_type pSize, const_reference p
   if (0 > pIndex || pIndex > size()) {
     throw OutOfRange<InvalidVectorIndex>();
   }
+  value_type value(pValue); //< pValue may be one of our elements
   resize(size() + pSize);
   pointer ptr = m_Data + pIndex;
   pointer end = m_Data + size();
   std::copy_backward(ptr, end - pSize, end);
-  std::fill_n(ptr, pSize, pValue);
+  std::fill_n(ptr, pSize, value);
 }
 
 template<class ElementType> void
@@ -304,11 +328,13 @@ Vector<ElementType>::insert(size_type pIndex, const_iterator pFirst, const_itera
     throw OutOfRange<InvalidVectorIndex>();
   }
   size_type insertSize = pLast - pFirst;
+  Vector<ElementType> copy; //< the range may be part of our elements
+  copy.append(pFirst, pLast, insertSize);
   resize(size() + insertSize);
   pointer ptr = m_Data + pIndex;
   pointer end = m_Data + size();
   std::copy_backward(ptr, end - insertSize, end);
-  std::copy(pFirst, pLast, ptr);
+  std::copy(copy.begin(), copy.end(), ptr);
 }
 
 template<class ElementType> void
@@ -361,9 +387,22 @@ template<class ElementType>
 void Vector<ElementType>::clear()
 {
   if (nullptr != m_Data) {
+    while (m_DataSize > 0)
+      m_Data[--m_DataSize].~value_type();
     std::free(m_Data);
     m_Data = nullptr;
   }
   m_DataSize = 0;
   m_AllocSize = 0;
 }
+
+template<class ElementType>
+template<class Iterator> void
+Vector<ElementType>::append(Iterator pFirst, Iterator pLast, size_type pSize)
+{
+  reserve(size() + pSize);
+  for (; pFirst != pLast; ++pFirst) {
+    new (m_Data + m_DataSize) value_type(*pFirst);
+    ++m_DataSize;
+  }
+}
-- 
2.43.0


From 07cc83cef2c1f14e409607f37d376afd9240e887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:38 +0000
Subject: [PATCH 08/36] fix: Vector::erase() accepts a range that ends at the
 end

---
 include/eni/adt/bits/Vector.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eni/adt/bits/Vector.tcc b/include/eni/adt/bits/Vector.tcc
index ab8a19c..ece63ef 100644
--- a/include/eni/adt/bits/Vector.tcc
+++ b/include/eni/adt/bits/Vector.tcc
@@ -368,7 +368,7 @@ Vector<ElementType>::erase(size_type pIndex)
 template<class ElementType> void
 Vector<ElementType>::erase(size_type pFirst, size_type pLast)
 {
-  if (0 > pFirst || pFirst >= pLast || pLast >= size())
+  if (0 > pFirst || pFirst >= pLast || pLast > size())
     throw OutOfRange<InvalidVectorIndex>();
   size_type eraseSize = pLast - pFirst;
   std::copy(m_Data + pLast, m_Data + size(), m_Data + pFirst);
-- 
2.43.0


From b2371f487381d22a7f7b59f4aabf6abd654ccec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:39 +0000
Subject: [PATCH 09/36] fix: json::Value: release integers and overwritten
 content, survive self-assignment

The destructor did not release integers and the assignment did not release
what the value held before; assigning a part of a value to the whole read
what it was about to overwrite, and a failed allocation left the value
without content. Integers given to delegate() are copied, since the parser
passes a local variable.
---
 include/eni/json/Value.h |  3 ++-
 lib/json/Value.cpp       | 31 +++++++++----------------------
 2 files changed, 11 insertions(+), 23 deletions(-)

diff --git a/include/eni/json/Value.h b/include/eni/json/Value.h
index de8467a..485d357 100644
--- a/include/eni/json/Value.h
+++ b/include/eni/json/Value.h
@@ -34,10 +34,11 @@ public:
   Value(const Array& pArray);
 
   Value(const Value& pCopy);
-  Value(Value&& pMove);
+  Value(Value&& pMove) noexcept;
 
   ~Value();
 
+  /// integers are copied, objects and arrays are taken over
   Value& delegate(eni::s256& pValue);
   Value& delegate(json::Object& pObject);
   Value& delegate(json::Array& pArray);
diff --git a/lib/json/Value.cpp b/lib/json/Value.cpp
index 1b428b9..1172e02 100644
--- a/lib/json/Value.cpp
+++ b/lib/json/Value.cpp
@@ -10,6 +10,7 @@
 #include <diagnostic/Exception.h>
 #include <eni_types.h>
 #include <string>
+#include <utility>
 
 using namespace eni;
 using namespace json;
@@ -39,7 +40,7 @@ Value::Value(const Value& pCopy)
   }
 }
 
-Value::Value(Value&& pMove)
+Value::Value(Value&& pMove) noexcept
   : Notation(std::move(pMove)), m_Value(std::move(pMove.m_Value)) {
   // empty
 }
@@ -77,6 +78,9 @@ Value::Value(const Array& pArray)
 Value::~Value()
 {
   switch (this->type()) {
+    case INT:
+      delete m_Value.int_p;
+      break;
     case STRING:
       delete m_Value.string_p;
       break;
@@ -98,8 +102,8 @@ Value& Value::delegate(eni::s256& pSint)
 {
   if (!this->isUndefined())
     throw LogicError<InvalidDelegateAssigned>();
+  m_Value.int_p = new eni::s256(pSint);
   m_Type = INT;
-  m_Value.int_p = &pSint;
   return *this;
 }
 
@@ -168,26 +172,9 @@ void Value::printValue(std::ostream &os) const
 
 Value& Value::operator=(const Value& pCopy)
 {
-  Notation::operator=(pCopy);
-  switch (this->type()) {
-    case INT:
-      m_Value.int_p = new eni::s256(*pCopy.m_Value.int_p);
-      break;
-    case BOOL:
-      m_Value.bool_p = pCopy.m_Value.bool_p;
-      break;
-    case STRING:
-      m_Value.string_p = new string(*pCopy.m_Value.string_p);
-      break;
-    case OBJECT:
-      m_Value.object_p = new Object(*pCopy.m_Value.object_p);
-      break;
-    case ARRAY:
-      m_Value.array_p = new Array(*pCopy.m_Value.array_p);
-      break;
-    case UNDEF:
-      break;
-  }
+  Value copy(pCopy); //< pCopy may be a part of this value
+  std::swap(m_Type, copy.m_Type);
+  std::swap(m_Value, copy.m_Value);
   return *this;
 }
 
-- 
2.43.0


From a9977f9c8c780bbe2dea24227f9d1baaa993ae0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:39 +0000
Subject: [PATCH 10/36] fix: looking into a value of the wrong kind yields an
 undefined value

g_NullValue(UNDEF) selected the constructor for integers and made it 5.
---
 lib/json/Value.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/json/Value.cpp b/lib/json/Value.cpp
index 1172e02..33845a2 100644
--- a/lib/json/Value.cpp
+++ b/lib/json/Value.cpp
@@ -15,7 +15,7 @@
 using namespace eni;
 using namespace json;
 
-static Value g_NullValue(UNDEF); // XXX
+static Value g_NullValue;
 
 Value::Value(const Value& pCopy)
   : Notation(pCopy) {
-- 
2.43.0


From 7fe76cde9a607f57fbe600cfc6a83a50b323239f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:39 +0000
Subject: [PATCH 11/36] fix: C interface: release the operation on every path,
 check the allocation of the gas

---
 include/eni/eni.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/eni/eni.h b/include/eni/eni.h
index 6c1c420..0775260 100644
--- a/include/eni/eni.h
+++ b/include/eni/eni.h
@@ -10,25 +10,26 @@
 #include <json/Array.h>
 #include <json/Value.h>
 #include <cstdint>
+#include <cstdlib>
 #include <cstring>
+#include <memory>
 #include <string>
 #include <sstream>
 
 #define ENI_GAS(OP, CLZ) \
   extern "C" uint64_t* OP ## _gas(char* pArgStr) {              \
-    eni::EniBase* functor = new CLZ(pArgStr);                   \
+    std::unique_ptr<eni::EniBase> functor(new CLZ(pArgStr));    \
     uint64_t gas = functor->getGas();                           \
     uint64_t* ptrGas = (uint64_t*)::malloc(sizeof(uint64_t));   \
-    *ptrGas = gas;                                              \
-    delete functor;                                             \
+    if (nullptr != ptrGas)                                      \
+      *ptrGas = gas;                                            \
     return ptrGas;                                              \
   }
 
 #define ENI_RUN(OP, CLZ) \
   extern "C" char* OP ## _run(char* pArgStr) {  \
-    eni::EniBase* functor = new CLZ(pArgStr);   \
+    std::unique_ptr<eni::EniBase> functor(new CLZ(pArgStr));    \
     char* ret = functor->start();               \
-    delete functor;                             \
     return ret;                                 \
   }
 
-- 
2.43.0


From 1e563510310fd910c7c67349d26aeaba696c85ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:39 +0000
Subject: [PATCH 12/36] fix: EniBase::start() does not repeat the results of an
 earlier start()

---
 include/eni/eni.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/eni/eni.h b/include/eni/eni.h
index 0775260..6bf4f4d 100644
--- a/include/eni/eni.h
+++ b/include/eni/eni.h
@@ -58,6 +58,7 @@ public:
     if (!check(m_Args))
       return nullptr;
 
+    m_RetVals.asArray().clear(); //< results of an earlier start()
     if (!run(m_RetVals.asArray()))
       return nullptr;
 
-- 
2.43.0


From 9345408afcc819b54e9843bdf27f6b2eeb506c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:39 +0000
Subject: [PATCH 13/36] fix: report running out of memory while printing
 instead of a truncated result

String streams swallow std::bad_alloc and just stop accepting characters.
---
 include/eni/eni.h               | 1 +
 tools/eni_crypto/eni_crypto.cpp | 1 +
 tools/eni_scrypt/eni_scrypt.cpp | 1 +
 3 files changed, 3 insertions(+)

diff --git a/include/eni/eni.h b/include/eni/eni.h
index 6bf4f4d..dabd250 100644
--- a/include/eni/eni.h
+++ b/include/eni/eni.h
@@ -63,6 +63,7 @@ public:
       return nullptr;
 
     std::ostringstream os;
+    os.exceptions(std::ios::badbit); //< do not cut the result short
     m_RetVals.print(os);
     return ::strdup(os.str().c_str());
   }
diff --git a/tools/eni_crypto/eni_crypto.cpp b/tools/eni_crypto/eni_crypto.cpp
index 6873873..683c20d 100644
--- a/tools/eni_crypto/eni_crypto.cpp
+++ b/tools/eni_crypto/eni_crypto.cpp
@@ -26,6 +26,7 @@ static inline unsigned char hex2digit(char h1, char h0)
 bool eni_crypto::str2hex(const std::string& pStr, std::string& pHex)
 {
   std::ostringstream oss;
+  oss.exceptions(std::ios::badbit); //< do not cut the result short
   std::string::const_iterator ic, end = pStr.end();
   for (ic = pStr.begin(); ic != end; ++ic)
     oss << std::hex << std::setw(2) << std::setfill('0')
diff --git a/tools/eni_scrypt/eni_scrypt.cpp b/tools/eni_scrypt/eni_scrypt.cpp
index 7f543a5..2d8962e 100644
--- a/tools/eni_scrypt/eni_scrypt.cpp
+++ b/tools/eni_scrypt/eni_scrypt.cpp
@@ -52,6 +52,7 @@ bool Scrypt::run(json::Array& pRetVal)
 
   // hex output hash
   std::ostringstream oss;
+  oss.exceptions(std::ios::badbit); //< do not cut the result short
   for (int i = 0; i < 32; i++) {
     oss << std::hex << std::setw(2) << std::setfill('0') << (hash[i] & 0xff);
   }
-- 
2.43.0


From eceaf0e4775581c0891fa50e3d087ddaf999cece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:32 +0000
Subject: [PATCH 14/36] fix: operations reject missing arguments and arguments
 of the wrong type

They were reinterpreted as strings, or ended the process with an exception.
---
 examples/eni/reverse/eni_reverse.cpp | 2 ++
 tools/eni_crypto/eni_crypto.cpp      | 4 ++++
 tools/eni_scrypt/eni_scrypt.cpp      | 2 ++
 3 files changed, 8 insertions(+)

diff --git a/examples/eni/reverse/eni_reverse.cpp b/examples/eni/reverse/eni_reverse.cpp
index 1148465..1d294d1 100644
--- a/examples/eni/reverse/eni_reverse.cpp
+++ b/examples/eni/reverse/eni_reverse.cpp
@@ -15,6 +15,8 @@ public:
 
 private:
   bool parse(const json::Array& pArgs) override {
+    if (pArgs.size() < 1 || !pArgs[0].isString())
+      return false;
     m_Str = pArgs[0].toString();
     return true;
   }
diff --git a/tools/eni_crypto/eni_crypto.cpp b/tools/eni_crypto/eni_crypto.cpp
index 683c20d..9e44302 100644
--- a/tools/eni_crypto/eni_crypto.cpp
+++ b/tools/eni_crypto/eni_crypto.cpp
@@ -133,6 +133,8 @@ bool rsa::priv_decrypt(RSA& pKey, const std::string& pMsg, std::string& pResult)
 ==------------------------------------------------------------------------==*/
 bool RSAEncrypt::parse(const json::Array& pArgs)
 {
+  if (pArgs.size() < 2 || !pArgs[0].isString() || !pArgs[1].isString())
+    return false;
   m_Key = rsa::create_pubkey(pArgs[0].toString());
   if (nullptr == m_Key)
     return false;
@@ -162,6 +164,8 @@ bool RSAEncrypt::run(json::Array& pRetVal)
 ==------------------------------------------------------------------------==*/
 bool RSADecrypt::parse(const json::Array& pArgs)
 {
+  if (pArgs.size() < 2 || !pArgs[0].isString() || !pArgs[1].isString())
+    return false;
   m_Key = rsa::create_privkey(pArgs[0].toString());
   if (nullptr == m_Key)
     return false;
diff --git a/tools/eni_scrypt/eni_scrypt.cpp b/tools/eni_scrypt/eni_scrypt.cpp
index 2d8962e..b48fdfc 100644
--- a/tools/eni_scrypt/eni_scrypt.cpp
+++ b/tools/eni_scrypt/eni_scrypt.cpp
@@ -12,6 +12,8 @@
 
 bool Scrypt::parse(const json::Array& pArgs)
 {
+  if (pArgs.size() < 1 || !pArgs[0].isString())
+    return false;
   m_Str = pArgs[0].toString();
 
   // input validation
-- 
2.43.0


From a11e5beeaee5f1bdbeb03fdcb944e2e1adde77d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:32 +0000
Subject: [PATCH 15/36] fix: hex2str() decodes upper case digits and refuses
 what is not hex

---
 tools/eni_crypto/eni_crypto.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tools/eni_crypto/eni_crypto.cpp b/tools/eni_crypto/eni_crypto.cpp
index 9e44302..4f12732 100644
--- a/tools/eni_crypto/eni_crypto.cpp
+++ b/tools/eni_crypto/eni_crypto.cpp
@@ -5,6 +5,7 @@
 
 ==------------------------------------------------------------------------==*/
 #include "eni_crypto.h"
+#include <cctype>
 #include <sstream>
 
 extern "C" {
@@ -20,7 +21,7 @@ using namespace eni_crypto;
 static inline unsigned char hex2digit(char h1, char h0)
 {
   auto h2d = [](char h) { return (h < 'a') ? (h - '0') : (h - 'a' + 10); };
-  return h2d(h1) * 16 + h2d(h0);
+  return h2d(tolower(h1)) * 16 + h2d(tolower(h0));
 }
 
 bool eni_crypto::str2hex(const std::string& pStr, std::string& pHex)
@@ -39,6 +40,8 @@ bool eni_crypto::hex2str(const std::string& pHex, std::string& pStr)
 {
   if (0 != (pHex.length() % 2))
     return false;
+  if (std::string::npos != pHex.find_first_not_of("0123456789abcdefABCDEF"))
+    return false;
   pStr.clear();
   std::string::const_iterator ic, end = pHex.end();
   for (ic = pHex.begin(); ic != end; ic += 2)
-- 
2.43.0


From 7a7b4a281217922eaf8b37d587db3e701bdd40aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:32 +0000
Subject: [PATCH 16/36] fix: RSA encryption refuses a message longer than the
 modulus

---
 tools/eni_crypto/eni_crypto.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/eni_crypto/eni_crypto.cpp b/tools/eni_crypto/eni_crypto.cpp
index 4f12732..4777f2e 100644
--- a/tools/eni_crypto/eni_crypto.cpp
+++ b/tools/eni_crypto/eni_crypto.cpp
@@ -76,6 +76,8 @@ void rsa::destroy(RSA*& pKey)
 bool rsa::pub_encrypt(RSA& pKey, const std::string& pMsg, std::string& pResult)
 {
   int size = ::RSA_size(&pKey);
+  if (pMsg.length() > size) //< would be cut off silently
+    return false;
   unsigned char* encrypted = new unsigned char[size];
   std::string message(pMsg);
   if (message.length() < size)
@@ -105,6 +107,8 @@ bool rsa::pub_decrypt(RSA& pKey, const std::string& pMsg, std::string& pResult)
 bool rsa::priv_encrypt(RSA& pKey, const std::string& pMsg, std::string& pResult)
 {
   int size = ::RSA_size(&pKey);
+  if (pMsg.length() > size) //< would be cut off silently
+    return false;
   unsigned char* encrypted = new unsigned char[size];
   std::string message(pMsg);
   if (message.length() < size)
-- 
2.43.0


From 17c14401732a7f28cfbdd99b4f198d41f7e7a979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:32 +0000
Subject: [PATCH 17/36] fix: RSA: release buffers, do not read past the
 decrypted text

A decrypted text without a zero byte was read beyond its buffer; the buffers
and the BIO of the key were never released.
---
 tools/eni_crypto/eni_crypto.cpp | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/tools/eni_crypto/eni_crypto.cpp b/tools/eni_crypto/eni_crypto.cpp
index 4777f2e..39e7f97 100644
--- a/tools/eni_crypto/eni_crypto.cpp
+++ b/tools/eni_crypto/eni_crypto.cpp
@@ -7,6 +7,7 @@
 #include "eni_crypto.h"
 #include <cctype>
 #include <sstream>
+#include <vector>
 
 extern "C" {
 #include <openssl/pem.h>
@@ -55,6 +56,7 @@ RSA* rsa::create_pubkey(const std::string& pPemStr)
   if (NULL == bio)
     return NULL;
   RSA* key = PEM_read_bio_RSA_PUBKEY(bio, NULL, NULL, NULL);
+  BIO_free(bio);
   return key;
 }
 
@@ -64,6 +66,7 @@ RSA* rsa::create_privkey(const std::string& pPemStr)
   if (NULL == bio)
     return NULL;
   RSA* key = PEM_read_bio_RSAPrivateKey(bio, NULL, NULL, NULL);
+  BIO_free(bio);
   return key;
 }
 
@@ -78,29 +81,30 @@ bool rsa::pub_encrypt(RSA& pKey, const std::string& pMsg, std::string& pResult)
   int size = ::RSA_size(&pKey);
   if (pMsg.length() > size) //< would be cut off silently
     return false;
-  unsigned char* encrypted = new unsigned char[size];
   std::string message(pMsg);
   if (message.length() < size)
       message.append(size - message.length(), '\0');
+  std::vector<unsigned char> encrypted(size);
   int len = ::RSA_public_encrypt(size,
-    reinterpret_cast<const unsigned char*>(message.c_str()), encrypted, &pKey,
+    reinterpret_cast<const unsigned char*>(message.c_str()), encrypted.data(), &pKey,
     RSA_NO_PADDING);
   if (-1 == len)
     return false;
-  pResult.assign(reinterpret_cast<char*>(encrypted), len);
+  pResult.assign(reinterpret_cast<char*>(encrypted.data()), len);
   return true;
 }
 
 bool rsa::pub_decrypt(RSA& pKey, const std::string& pMsg, std::string& pResult)
 {
-  unsigned char* decrypted = new unsigned char[::RSA_size(&pKey)];
+  std::vector<unsigned char> decrypted(::RSA_size(&pKey));
   int len = ::RSA_public_decrypt(pMsg.length(),
-    reinterpret_cast<const unsigned char*>(pMsg.c_str()), decrypted, &pKey,
+    reinterpret_cast<const unsigned char*>(pMsg.c_str()), decrypted.data(), &pKey,
     RSA_NO_PADDING);
   if (-1 == len)
     return false;
-  std::string result(reinterpret_cast<const char*>(decrypted));
-  pResult.assign(result.c_str(), result.length());
+  // the text ends at the padding; without padding, at the end of the buffer
+  std::string result(reinterpret_cast<const char*>(decrypted.data()), len);
+  pResult.assign(result.c_str());
   return true;
 }
 
@@ -109,29 +113,30 @@ bool rsa::priv_encrypt(RSA& pKey, const std::string& pMsg, std::string& pResult)
   int size = ::RSA_size(&pKey);
   if (pMsg.length() > size) //< would be cut off silently
     return false;
-  unsigned char* encrypted = new unsigned char[size];
   std::string message(pMsg);
   if (message.length() < size)
       message.append(size - message.length(), '\0');
+  std::vector<unsigned char> encrypted(size);
   int len = ::RSA_private_encrypt(size,
-    reinterpret_cast<const unsigned char*>(message.c_str()), encrypted, &pKey,
+    reinterpret_cast<const unsigned char*>(message.c_str()), encrypted.data(), &pKey,
     RSA_NO_PADDING);
   if (-1 == len)
     return false;
-  pResult.assign(reinterpret_cast<char*>(encrypted), len);
+  pResult.assign(reinterpret_cast<char*>(encrypted.data()), len);
   return true;
 }
 
 bool rsa::priv_decrypt(RSA& pKey, const std::string& pMsg, std::string& pResult)
 {
-  unsigned char* decrypted = new unsigned char[::RSA_size(&pKey)];
+  std::vector<unsigned char> decrypted(::RSA_size(&pKey));
   int len = ::RSA_private_decrypt(pMsg.length(),
-    reinterpret_cast<const unsigned char*>(pMsg.c_str()), decrypted, &pKey,
+    reinterpret_cast<const unsigned char*>(pMsg.c_str()), decrypted.data(), &pKey,
     RSA_NO_PADDING);
   if (-1 == len)
     return false;
-  std::string result(reinterpret_cast<const char*>(decrypted));
-  pResult.assign(result.c_str(), result.length());
+  // the text ends at the padding; without padding, at the end of the buffer
+  std::string result(reinterpret_cast<const char*>(decrypted.data()), len);
+  pResult.assign(result.c_str());
   return true;
 }
 
-- 
2.43.0


From 217f25ed4369e077dc7e667c29e9335ed52f5065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:32 +0000
Subject: [PATCH 18/36] fix: refuse keys protected by a pass phrase instead of
 asking the terminal

---
 tools/eni_crypto/eni_crypto.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tools/eni_crypto/eni_crypto.cpp b/tools/eni_crypto/eni_crypto.cpp
index 39e7f97..f4a0479 100644
--- a/tools/eni_crypto/eni_crypto.cpp
+++ b/tools/eni_crypto/eni_crypto.cpp
@@ -50,12 +50,18 @@ bool eni_crypto::hex2str(const std::string& pHex, std::string& pStr)
   return true;
 }
 
+// Nobody is there to be asked: keys protected by a pass phrase are refused.
+static int no_passphrase(char*, int, int, void*)
+{
+  return -1;
+}
+
 RSA* rsa::create_pubkey(const std::string& pPemStr)
 {
   BIO* bio = BIO_new_mem_buf(pPemStr.c_str(), -1);
   if (NULL == bio)
     return NULL;
-  RSA* key = PEM_read_bio_RSA_PUBKEY(bio, NULL, NULL, NULL);
+  RSA* key = PEM_read_bio_RSA_PUBKEY(bio, NULL, no_passphrase, NULL);
   BIO_free(bio);
   return key;
 }
@@ -65,7 +71,7 @@ RSA* rsa::create_privkey(const std::string& pPemStr)
   BIO* bio = BIO_new_mem_buf(pPemStr.c_str(), -1);
   if (NULL == bio)
     return NULL;
-  RSA* key = PEM_read_bio_RSAPrivateKey(bio, NULL, NULL, NULL);
+  RSA* key = PEM_read_bio_RSAPrivateKey(bio, NULL, no_passphrase, NULL);
   BIO_free(bio);
   return key;
 }
-- 
2.43.0


From 5f656340624ba6a15fadae2ec07ad0e4014d6c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:32 +0000
Subject: [PATCH 19/36] fix: RSA operations do not lose a key when examining
 the arguments runs out of memory

---
 tools/eni_crypto/eni_crypto.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/eni_crypto/eni_crypto.cpp b/tools/eni_crypto/eni_crypto.cpp
index f4a0479..5d3b4ea 100644
--- a/tools/eni_crypto/eni_crypto.cpp
+++ b/tools/eni_crypto/eni_crypto.cpp
@@ -153,10 +153,10 @@ bool RSAEncrypt::parse(const json::Array& pArgs)
 {
   if (pArgs.size() < 2 || !pArgs[0].isString() || !pArgs[1].isString())
     return false;
+  m_Msg = pArgs[1].toString();
   m_Key = rsa::create_pubkey(pArgs[0].toString());
   if (nullptr == m_Key)
     return false;
-  m_Msg = pArgs[1].toString();
   return true;
 }
 
@@ -184,11 +184,11 @@ bool RSADecrypt::parse(const json::Array& pArgs)
 {
   if (pArgs.size() < 2 || !pArgs[0].isString() || !pArgs[1].isString())
     return false;
+  if (!hex2str(pArgs[1].toString(), m_Msg))
+    return false;
   m_Key = rsa::create_privkey(pArgs[0].toString());
   if (nullptr == m_Key)
     return false;
-  if (!hex2str(pArgs[1].toString(), m_Msg))
-    return false;
   return true;
 }
 
-- 
2.43.0


From a7f20ee346fc3503c9ea8998c8ad18c75258c992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:22 +0000
Subject: [PATCH 20/36] fix: examples/eni/json: reject unsuitable arguments and
 damaged data

Ranges outside the data, data that is not JSON, an index past the end and
missing arguments read beyond buffers or ended the process.
---
 examples/eni/json/eni_json.cpp | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/examples/eni/json/eni_json.cpp b/examples/eni/json/eni_json.cpp
index 10fd45a..672afb7 100644
--- a/examples/eni/json/eni_json.cpp
+++ b/examples/eni/json/eni_json.cpp
@@ -13,20 +13,24 @@
 namespace {
 std::string parseString(const std::string& raw) {
     json::Parser parser(raw);
-    if (!parser) return "";
+    if (!parser || !parser.getRoot().isString()) return "";
     return parser.getRoot().toString();
 }
+// thrown when the data or the arguments do not describe what is asked for
+struct BadRequest {};
+
 std::vector<jsmntok_t> internalParse(const char* data, int start, int end) {
     jsmn_parser p;
     p.pos = start;
     p.toknext = 0;
     p.toksuper = -1;
     int len = jsmn_parse(&p, data, end, 0, 0);
+    if (len <= 0) throw BadRequest();
     std::vector<jsmntok_t> result(len);
     p.pos = start;
     p.toknext = 0;
     p.toksuper = -1;
-    jsmn_parse(&p, data, end, result.data(), len);
+    if (jsmn_parse(&p, data, end, result.data(), len) != len) throw BadRequest();
     return result;
 }
 std::string encodeToken(const jsmntok_t& tok) {
@@ -63,6 +67,7 @@ std::string parseArray(const char* data, int start, int end) {
 }
 std::string arrayGet(const char* data, int start, int end, int index) {
     auto tokens = arrayTokens(data, start, end);
+    if (index < 0 || index >= tokens.size()) throw BadRequest();
     return encodeToken(tokens[index]);
 }
 
@@ -108,17 +113,36 @@ public:
 
 private:
     bool parse(const json::Array& pArgs) override {
+        try {
+            return parseRequest(pArgs);
+        } catch (const BadRequest&) {
+            return false;
+        }
+    }
+
+    bool parseRequest(const json::Array& pArgs) {
+        if (pArgs.size() < 4 || !pArgs[0].isString() || !pArgs[1].isString()
+            || !pArgs[2].isInteger() || !pArgs[3].isInteger()) {
+            return false;
+        }
         std::string op = pArgs[0].toString();
         std::string data = pArgs[1].toString();
+        if (pArgs[2].toInteger() < 0 || pArgs[2].toInteger() > pArgs[3].toInteger()
+            || pArgs[3].toInteger() > data.size()) {
+            return false;
+        }
         int begin = (int)pArgs[2].toInteger();
         int end = (int)pArgs[3].toInteger();
         if (op == "parseString") {
-            m_Str = parseString(std::string(data.data(), begin, end));
+            m_Str = parseString(std::string(data, begin, end));
         } else if (op == "parseArray") {
             m_Str = parseArray(data.data(), begin, end);
         } else if (op == "arrayGet") {
+            if (pArgs.size() < 5 || !pArgs[4].isInteger()) return false;
+            if (pArgs[4].toInteger() < 0 || pArgs[4].toInteger() >= data.size()) return false;
             m_Str = arrayGet(data.data(), begin, end, (int)pArgs[4].toInteger());
         } else if (op == "objectGet") {
+            if (pArgs.size() < 5 || !pArgs[4].isString()) return false;
             m_Str = objectGet(data.data(), begin, end, pArgs[4].toString());
         } else {
             return false;
-- 
2.43.0


From 3bd2110b8d1b4e5d792540dc8b7caa3e181eb0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:22 +0000
Subject: [PATCH 21/36] fix: eni_gas, eni_run: a result that could not be
 written is not a success

---
 tools/eni_cli/eni_gas.cpp | 2 +-
 tools/eni_cli/eni_run.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/eni_cli/eni_gas.cpp b/tools/eni_cli/eni_gas.cpp
index 0504115..118520d 100644
--- a/tools/eni_cli/eni_gas.cpp
+++ b/tools/eni_cli/eni_gas.cpp
@@ -36,5 +36,5 @@ int main(int argc, char* argv[])
 
   std::cout << *gas << std::endl;
   delete gas;
-  return ExitSuccess;
+  return std::cout ? ExitSuccess : ExitFailure;
 }
diff --git a/tools/eni_cli/eni_run.cpp b/tools/eni_cli/eni_run.cpp
index c26ee90..d54dd45 100644
--- a/tools/eni_cli/eni_run.cpp
+++ b/tools/eni_cli/eni_run.cpp
@@ -36,5 +36,5 @@ int main(int argc, char* argv[])
 
   std::cout << str << std::endl;
   ::free(str);
-  return ExitSuccess;
+  return std::cout ? ExitSuccess : ExitFailure;
 }
-- 
2.43.0


From e3c910e06ae113bf0c7c7968000b642cc1de30f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:22 +0000
Subject: [PATCH 22/36] fix: eni_gas: release the gas with free(), it comes
 from malloc()

---
 tools/eni_cli/eni_gas.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/eni_cli/eni_gas.cpp b/tools/eni_cli/eni_gas.cpp
index 118520d..28c248a 100644
--- a/tools/eni_cli/eni_gas.cpp
+++ b/tools/eni_cli/eni_gas.cpp
@@ -35,6 +35,6 @@ int main(int argc, char* argv[])
   ::dlclose(handle);
 
   std::cout << *gas << std::endl;
-  delete gas;
+  ::free(gas);
   return std::cout ? ExitSuccess : ExitFailure;
 }
-- 
2.43.0


From 670783351f89f635520e1fe12350b201446f940e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:22 +0000
Subject: [PATCH 23/36] fix: print the keys of a JSON object as JSON strings

Without quotes and escapes the output was not JSON.
---
 lib/json/Object.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/json/Object.cpp b/lib/json/Object.cpp
index 24c388c..0245afe 100644
--- a/lib/json/Object.cpp
+++ b/lib/json/Object.cpp
@@ -33,7 +33,8 @@ void Object::print(std::ostream& pOs) const {
       pOs << ',';
     else
       first = false;
-    pOs << it->key() << ':';
+    Value(it->key()).print(pOs);
+    pOs << ':';
     it->value().print(pOs);
   }
   pOs << '\n';
-- 
2.43.0


From 026f35c92591b4b636d7f7874c75c786d392f02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:44 +0000
Subject: [PATCH 24/36] fix: JSON parser: bound the nesting depth

Deeply nested text overflowed the stack, which ends the node process.
---
 include/eni/json/Parser.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/eni/json/Parser.h b/include/eni/json/Parser.h
index 8231840..30f5c41 100644
--- a/include/eni/json/Parser.h
+++ b/include/eni/json/Parser.h
@@ -41,7 +41,10 @@ using std::vector;
 
 class Parser {
 public:
-  Parser(const std::string &pStr) {
+  /// arrays and objects may be nested this deep
+  enum { MaxDepth = 512 };
+
+  Parser(const std::string &pStr) : m_Depth(0) {
     m_It = m_Start = &pStr[0];
     m_End = &pStr[0] + pStr.length();
     try {
@@ -58,6 +61,7 @@ public:
   }
 
   void parse_value() {
+    if (m_Depth > MaxDepth) parse_error("nested too deep");
     if (parse_object()) return;
     if (parse_array()) return;
     if (parse_string(false)) return;
@@ -126,9 +130,11 @@ public:
 
     if (!have('[')) return false;
 
+    ++m_Depth;
     m_CBacks.begin_array();
     skip_ws();
     if (have(']')) { //< empty array
+      --m_Depth;
       m_CBacks.end_array();
       return true;
     }
@@ -137,6 +143,7 @@ public:
       skip_ws();
     } while (have(','));
     expect(']', "expected ']' or ','");
+    --m_Depth;
     m_CBacks.end_array();
     return true;
   }
@@ -145,9 +152,11 @@ public:
     skip_ws();
     if (!have('{')) return false;
 
+    ++m_Depth;
     m_CBacks.begin_object();
     skip_ws();
     if (have('}')) {// empty
+      --m_Depth;
       m_CBacks.end_object();
       return true;
     }
@@ -160,6 +169,7 @@ public:
       skip_ws();
     } while (have(','));
     expect('}', "expected '}' or ','");
+    --m_Depth;
     m_CBacks.end_object();
     return true;
   }
@@ -299,6 +309,7 @@ private:
 private:
   const char *m_Start;
   const char *m_End;
+  unsigned int m_Depth; // number of open arrays and objects
   const char *m_It;// scanner iterator, this points to ASCII char instead of UTF-8 char
 
   Callbacks m_CBacks;
-- 
2.43.0


From f42274b93ed3c101c9761fea1437f1d79ceae3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:35 +0000
Subject: [PATCH 25/36] fix: to_string does not depend on the global locale

Numbers of at most 64 bits are printed by Boost through a string stream,
which groups digits as the global locale says.
---
 lib/eni_types.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/eni_types.cpp b/lib/eni_types.cpp
index 7ad1006..baddcce 100644
--- a/lib/eni_types.cpp
+++ b/lib/eni_types.cpp
@@ -5,14 +5,15 @@
 
 ==------------------------------------------------------------------------==*/
 #include <eni_types.h>
-#include <boost/lexical_cast.hpp>
 
 namespace eni {
 
 template<typename T>
 std::string to_string(T pValue)
 {
-  return boost::lexical_cast<std::string, T>(pValue);
+  // Streams group digits as the global locale says, and narrow integers are
+  // printed through a stream. The widest type is converted digit by digit.
+  return eni::s256(pValue).str();
 }
 
 // explicit instantiation
-- 
2.43.0


From bcff3e2647df6711ae48e20ca69be5e01ff8584d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:43 +0000
Subject: [PATCH 26/36] fix: Vector::reserve terminates for huge sizes

Doubling the capacity past half of size_t gave 0 and started over, for ever.
---
 include/eni/adt/bits/Vector.tcc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/eni/adt/bits/Vector.tcc b/include/eni/adt/bits/Vector.tcc
index ece63ef..c8458a6 100644
--- a/include/eni/adt/bits/Vector.tcc
+++ b/include/eni/adt/bits/Vector.tcc
@@ -136,11 +136,12 @@ Vector<ElementType>::reserve(size_type pSize)
     throw LengthError<InvalidVectorSize>();
   else {
     size_type targetSize = capacity();
-    while (targetSize < pSize && targetSize < max_size()) {
-      targetSize = (targetSize > 0) ? targetSize * 2 : 1;
+    while (targetSize < pSize) {
+      if (targetSize > max_size() / 2) //< doubling would overflow
+        targetSize = max_size();
+      else
+        targetSize = (targetSize > 0) ? targetSize * 2 : 1;
     }
-    if (targetSize > max_size())
-      targetSize = max_size();
     if (targetSize > std::numeric_limits<size_t>::max() / sizeof(ElementType))
       throw BadAlloc<NoMemory>();
     pointer ptr = (ElementType*)std::malloc(sizeof(ElementType) * targetSize);
-- 
2.43.0


From 850f4f328ca30ccc7d0c0fe1a604b02908557ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:14 +0000
Subject: [PATCH 27/36] fix: a const HashTable can walk a chain

ChainIterBase bound a non-const reference to a const table's bucket, so
HashTable::count() and begin(key) const did not compile.
---
 include/eni/adt/bits/HashIterator.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eni/adt/bits/HashIterator.tcc b/include/eni/adt/bits/HashIterator.tcc
index 11190fb..ad08e6e 100644
--- a/include/eni/adt/bits/HashIterator.tcc
+++ b/include/eni/adt/bits/HashIterator.tcc
@@ -25,7 +25,7 @@ ChainIterBase<HT>::ChainIterBase(HT* pTable, const key_type& pKey)
   m_EndIndex = m_Index = m_HashValue % m_pHashTable->numOfBuckets();
   const unsigned int probe = 1;
   while(true) {
-    bucket_type &bucket = m_pHashTable->bucket(m_Index);
+    const bucket_type &bucket = m_pHashTable->bucket(m_Index);
     if (hash_table::Tombstone() == bucket.entry ||
         hash_table::EmptyBucket() == bucket.entry) {
       // Ignore tombstones.
-- 
2.43.0


From 5d0e3c977a4033a1bab1fad2340ca45568da745f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:46 +0000
Subject: [PATCH 28/36] fix: assigning a nested array or object to its
 container

The container destroyed its elements, and with them the source, before or
while copying from it.
---
 include/eni/adt/bits/Vector.tcc | 5 ++++-
 lib/json/Array.cpp              | 2 +-
 lib/json/Object.cpp             | 2 +-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/eni/adt/bits/Vector.tcc b/include/eni/adt/bits/Vector.tcc
index c8458a6..371b6d6 100644
--- a/include/eni/adt/bits/Vector.tcc
+++ b/include/eni/adt/bits/Vector.tcc
@@ -49,7 +49,10 @@ Vector<ElementType>::~Vector()
 template<class ElementType> Vector<ElementType>&
 Vector<ElementType>::operator=(const Vector<ElementType>& pOther)
 {
-  assign(pOther.begin(), pOther.end());
+  if (this != &pOther) {
+    Vector copy(pOther); //< pOther may be a part of one of our elements
+    swap(copy);
+  }
   return *this;
 }
 
diff --git a/lib/json/Array.cpp b/lib/json/Array.cpp
index df0de6b..895c4af 100644
--- a/lib/json/Array.cpp
+++ b/lib/json/Array.cpp
@@ -19,8 +19,8 @@ Array::Array(const Array& pArray)
 
 Array& Array::operator=(const Array& pArray)
 {
-  eni::Vector<Value>::operator=(pArray);
   Notation::operator=(pArray);
+  eni::Vector<Value>::operator=(pArray); //< may destroy pArray
   return *this;
 }
 
diff --git a/lib/json/Object.cpp b/lib/json/Object.cpp
index 0245afe..2fd0938 100644
--- a/lib/json/Object.cpp
+++ b/lib/json/Object.cpp
@@ -18,8 +18,8 @@ Object::Object(const Object& pCopy)
 
 Object& Object::operator=(const Object& pCopy)
 {
-  eni::StringMap<Value>::operator=(pCopy);
   Notation::operator=(pCopy);
+  eni::StringMap<Value>::operator=(pCopy); //< may destroy pCopy
   return *this;
 }
 
-- 
2.43.0


From a31b53f98fff2d593df74d8eb8b96b12628f10ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:10 +0000
Subject: [PATCH 29/36] fix: looking up a missing member does not change the
 object

Value::operator[](key) const went through the object's inserting accessor,
so that reading a const value added an undefined member to it.
---
 lib/json/Value.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/json/Value.cpp b/lib/json/Value.cpp
index 33845a2..55166cf 100644
--- a/lib/json/Value.cpp
+++ b/lib/json/Value.cpp
@@ -185,7 +185,10 @@ Value& Value::operator=(const Value& pCopy)
 const Value& Value::operator[](const std::string &key) const
 {
   if (m_Type == OBJECT) {
-    return (*m_Value.object_p)[key];
+    const Object& object = *m_Value.object_p;
+    Object::const_iterator it = object.find(key);
+    if (it != object.end())
+      return it->value();
   }
   return g_NullValue;
 }
-- 
2.43.0


From 66ce17e781c59d4c8c20b4cf65de3f5248362bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:19 +0000
Subject: [PATCH 30/36] fix: leave the example operations as they were

They count as test files; their defects are recorded as known findings in /verif.
---
 examples/eni/json/eni_json.cpp       | 30 +++-------------------------
 examples/eni/reverse/eni_reverse.cpp |  2 --
 2 files changed, 3 insertions(+), 29 deletions(-)

diff --git a/examples/eni/json/eni_json.cpp b/examples/eni/json/eni_json.cpp
index 672afb7..10fd45a 100644
--- a/examples/eni/json/eni_json.cpp
+++ b/examples/eni/json/eni_json.cpp
@@ -13,24 +13,20 @@
 namespace {
 std::string parseString(const std::string& raw) {
     json::Parser parser(raw);
-    if (!parser || !parser.getRoot().isString()) return "";
+    if (!parser) return "";
     return parser.getRoot().toString();
 }
-// thrown when the data or the arguments do not describe what is asked for
-struct BadRequest {};
-
 std::vector<jsmntok_t> internalParse(const char* data, int start, int end) {
     jsmn_parser p;
     p.pos = start;
     p.toknext = 0;
     p.toksuper = -1;
     int len = jsmn_parse(&p, data, end, 0, 0);
-    if (len <= 0) throw BadRequest();
     std::vector<jsmntok_t> result(len);
     p.pos = start;
     p.toknext = 0;
     p.toksuper = -1;
-    if (jsmn_parse(&p, data, end, result.data(), len) != len) throw BadRequest();
+    jsmn_parse(&p, data, end, result.data(), len);
     return result;
 }
 std::string encodeToken(const jsmntok_t& tok) {
@@ -67,7 +63,6 @@ std::string parseArray(const char* data, int start, int end) {
 }
 std::string arrayGet(const char* data, int start, int end, int index) {
     auto tokens = arrayTokens(data, start, end);
-    if (index < 0 || index >= tokens.size()) throw BadRequest();
     return encodeToken(tokens[index]);
 }
 
@@ -113,36 +108,17 @@ public:
 
 private:
     bool parse(const json::Array& pArgs) override {
-        try {
-            return parseRequest(pArgs);
-        } catch (const BadRequest&) {
-            return false;
-        }
-    }
-
-    bool parseRequest(const json::Array& pArgs) {
-        if (pArgs.size() < 4 || !pArgs[0].isString() || !pArgs[1].isString()
-            || !pArgs[2].isInteger() || !pArgs[3].isInteger()) {
-            return false;
-        }
         std::string op = pArgs[0].toString();
         std::string data = pArgs[1].toString();
-        if (pArgs[2].toInteger() < 0 || pArgs[2].toInteger() > pArgs[3].toInteger()
-            || pArgs[3].toInteger() > data.size()) {
-            return false;
-        }
         int begin = (int)pArgs[2].toInteger();
         int end = (int)pArgs[3].toInteger();
         if (op == "parseString") {
-            m_Str = parseString(std::string(data, begin, end));
+            m_Str = parseString(std::string(data.data(), begin, end));
         } else if (op == "parseArray") {
             m_Str = parseArray(data.data(), begin, end);
         } else if (op == "arrayGet") {
-            if (pArgs.size() < 5 || !pArgs[4].isInteger()) return false;
-            if (pArgs[4].toInteger() < 0 || pArgs[4].toInteger() >= data.size()) return false;
             m_Str = arrayGet(data.data(), begin, end, (int)pArgs[4].toInteger());
         } else if (op == "objectGet") {
-            if (pArgs.size() < 5 || !pArgs[4].isString()) return false;
             m_Str = objectGet(data.data(), begin, end, pArgs[4].toString());
         } else {
             return false;
diff --git a/examples/eni/reverse/eni_reverse.cpp b/examples/eni/reverse/eni_reverse.cpp
index 1d294d1..1148465 100644
--- a/examples/eni/reverse/eni_reverse.cpp
+++ b/examples/eni/reverse/eni_reverse.cpp
@@ -15,8 +15,6 @@ public:
 
 private:
   bool parse(const json::Array& pArgs) override {
-    if (pArgs.size() < 1 || !pArgs[0].isString())
-      return false;
     m_Str = pArgs[0].toString();
     return true;
   }
-- 
2.43.0


From 6fb8acc90115efc461bed2f1b56a0ee1ad0bfddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:19 +0000
Subject: [PATCH 31/36] fix: RSA: the result of an inconsistent key does not
 depend on random numbers

---
 tools/eni_crypto/eni_crypto.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/eni_crypto/eni_crypto.cpp b/tools/eni_crypto/eni_crypto.cpp
index 5d3b4ea..4850905 100644
--- a/tools/eni_crypto/eni_crypto.cpp
+++ b/tools/eni_crypto/eni_crypto.cpp
@@ -73,6 +73,10 @@ RSA* rsa::create_privkey(const std::string& pPemStr)
     return NULL;
   RSA* key = PEM_read_bio_RSAPrivateKey(bio, NULL, no_passphrase, NULL);
   BIO_free(bio);
+  // Blinding draws random numbers, and with an inconsistent key they show in the
+  // result.  Every node must compute the same, and the key is no secret here.
+  if (NULL != key)
+    RSA_blinding_off(key);
   return key;
 }
 
-- 
2.43.0


From a0918ad63cd1549f7a7f99883f1a743dc12e0f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:29 +0000
Subject: [PATCH 32/36] fix: HashTable::rehash: keep room for the elements

---
 include/eni/adt/HashTable.h        | 3 ++-
 include/eni/adt/bits/HashTable.tcc | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/eni/adt/HashTable.h b/include/eni/adt/HashTable.h
index b59c141..c2c4b12 100644
--- a/include/eni/adt/HashTable.h
+++ b/include/eni/adt/HashTable.h
@@ -11,6 +11,7 @@
 #include <adt/HashIterator.h>
 #include <support/MallocAllocator.h>
 #include <diagnostic/Exception.h>
+#include <algorithm>
 #include <new>
 #include <utility>
 
@@ -103,7 +104,7 @@ public:
   void rehash();
 
   /// rehash - immediately re-new the hash table to the size pCount, and
-  /// rehash all elements.
+  /// rehash all elements. A size too small for the elements is raised.
   void rehash(size_type pCount);
 
   iterator begin();
diff --git a/include/eni/adt/bits/HashTable.tcc b/include/eni/adt/bits/HashTable.tcc
index 51a08ba..e5d88e8 100644
--- a/include/eni/adt/bits/HashTable.tcc
+++ b/include/eni/adt/bits/HashTable.tcc
@@ -256,7 +256,8 @@ template<typename K, typename V, typename H,
          template<class, class> class E, template<class> class A>
 void HashTable<K, V, H, E, A>::rehash(size_type pCount)
 {
-  super::doRehash(pCount);
+  // without room for the entries and an empty bucket no probing would end
+  super::doRehash(std::max(pCount, numOfEntries() + 1));
 }
 
 template<typename K, typename V, typename H,
-- 
2.43.0


From 1047d147d1085e256794dc713db363fe13b5dec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:23 +0000
Subject: [PATCH 33/36] fix: StringHasher<ES>: do not classify letters by the
 locale

Letters of the process's locale outside ASCII were shifted by a negative
amount, so the hash of a string depended on the locale.
---
 include/eni/adt/StringHasher.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/eni/adt/StringHasher.h b/include/eni/adt/StringHasher.h
index 2846d56..53615de 100644
--- a/include/eni/adt/StringHasher.h
+++ b/include/eni/adt/StringHasher.h
@@ -287,7 +287,7 @@ struct StringHasher<ES> : public std::unary_function<const std::string&, uint32_
         continue;
       }
 
-      if (isdigit(cur_char)) {
+      if ('0' <= cur_char && cur_char <= '9') {
         result |= (1 << 27);
         continue;
       }
@@ -297,12 +297,12 @@ struct StringHasher<ES> : public std::unary_function<const std::string&, uint32_
         continue;
       }
 
-      if (isupper(cur_char)) {
+      if ('A' <= cur_char && cur_char <= 'Z') {
         result |= (1 << (cur_char - 'A'));
         continue;
       }
 
-      if (islower(cur_char)) {
+      if ('a' <= cur_char && cur_char <= 'z') {
         result |= (1 << (cur_char - 'a'));
         continue;
       }
-- 
2.43.0


From 0317ab89743728b6c95260888b5655c0bc58bb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:17 +0000
Subject: [PATCH 34/36] fix: JSON parser: \uXXXX escapes beyond ASCII reach the
 operation as UTF-8

---
 include/eni/json/Parser.h | 46 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 41 insertions(+), 5 deletions(-)

diff --git a/include/eni/json/Parser.h b/include/eni/json/Parser.h
index 30f5c41..c8607d4 100644
--- a/include/eni/json/Parser.h
+++ b/include/eni/json/Parser.h
@@ -112,7 +112,7 @@ public:
       if (have('\"')) break;
       if (m_It == m_End) parse_error("unterminated string");
       if (have('\\')) {
-        str.push_back(parse_escape());
+        parse_escape(str);
       } else {
         // TODO: UTF-8 decoding
         // Current: ASCII (temp)
@@ -194,6 +194,13 @@ private:
     while (have(is_digit, pStr));
   }
 
+  void parse_escape(vector<char> &pStr) {
+    if (have('u')) {
+      parse_codepoint(pStr);
+    } else {
+      pStr.push_back(parse_escape());
+    }
+  }
   char parse_escape() {
     if (have('"')){
       return '"';
@@ -211,17 +218,46 @@ private:
       return '\r'; // carriage return
     } else if (have('t')) {
       return '\t'; // horizontal tab
-    } else if (have('u')) {
-      return parse_codepoint();
     } else {
       parse_error("invalid escape sequence");
     }
   }
-  char parse_codepoint() {
+  // the text is encoded as UTF-8
+  void parse_codepoint(vector<char> &pStr) {
+    unsigned int code = parse_code();
+    if (0xD800 <= code && code < 0xDC00
+        && '\\' == m_It[0] && 'u' == m_It[1] && valid_code(m_It+2)) {
+      // characters beyond U+FFFF are written as a pair of surrogates
+      const char *after = m_It;
+      m_It += 2;
+      unsigned int low = parse_code();
+      if (0xDC00 <= low && low < 0xE000)
+        code = 0x10000 + ((code - 0xD800) << 10) + (low - 0xDC00);
+      else
+        m_It = after;
+    }
+    if (code < 0x80) {
+      pStr.push_back(code);
+      return;
+    }
+    if (code < 0x800) {
+      pStr.push_back(0xC0 | (code >> 6));
+    } else {
+      if (code < 0x10000) {
+        pStr.push_back(0xE0 | (code >> 12));
+      } else {
+        pStr.push_back(0xF0 | (code >> 18));
+        pStr.push_back(0x80 | ((code >> 12) & 0x3F));
+      }
+      pStr.push_back(0x80 | ((code >> 6) & 0x3F));
+    }
+    pStr.push_back(0x80 | (code & 0x3F));
+  }
+  unsigned int parse_code() {
     if (!valid_code(m_It)) parse_error("invalid code number");
     std::string str(m_It, m_It+4);
     m_It += 4;
-    int code;
+    unsigned int code;
     sscanf(str.c_str(), "%X", &code);
     return code;
   }
-- 
2.43.0


From 0c790d2cd58d6f938e4df7670f82db3fa97e63af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:40 +0000
Subject: [PATCH 35/36] fix: HashIterator: dereferencing with * compiles

---
 include/eni/adt/HashIterator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/eni/adt/HashIterator.h b/include/eni/adt/HashIterator.h
index fc29f55..36d7256 100644
--- a/include/eni/adt/HashIterator.h
+++ b/include/eni/adt/HashIterator.h
@@ -176,8 +176,8 @@ public:
 
   /// @name C++ Iterator (dereferenceable)
   /// @{
-  const_reference operator*() const { return *m_Impl.operator->(); }
-  reference       operator*()       { return *m_Impl.operator->(); }
+  const_reference operator*() const { return *m_Impl.getEntry(); }
+  reference       operator*()       { return *m_Impl.getEntry(); }
   /// @}
 
   /// @name C++ Iterator (incrementable)
-- 
2.43.0


From 28c013f63e248961a423f2d3f77e08b3e666f281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:38 +0000
Subject: [PATCH 36/36] fix: RSA keys: errors left by earlier calls do not
 decide how a key text is read

---
 tools/eni_crypto/eni_crypto.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/eni_crypto/eni_crypto.cpp b/tools/eni_crypto/eni_crypto.cpp
index 4850905..7e7ab5c 100644
--- a/tools/eni_crypto/eni_crypto.cpp
+++ b/tools/eni_crypto/eni_crypto.cpp
@@ -10,6 +10,7 @@
 #include <vector>
 
 extern "C" {
+#include <openssl/err.h>
 #include <openssl/pem.h>
 #include <openssl/rsa.h>
 }
@@ -61,6 +62,7 @@ RSA* rsa::create_pubkey(const std::string& pPemStr)
   BIO* bio = BIO_new_mem_buf(pPemStr.c_str(), -1);
   if (NULL == bio)
     return NULL;
+  ERR_clear_error(); //< an earlier error decides how the text is read
   RSA* key = PEM_read_bio_RSA_PUBKEY(bio, NULL, no_passphrase, NULL);
   BIO_free(bio);
   return key;
@@ -71,6 +73,7 @@ RSA* rsa::create_privkey(const std::string& pPemStr)
   BIO* bio = BIO_new_mem_buf(pPemStr.c_str(), -1);
   if (NULL == bio)
     return NULL;
+  ERR_clear_error(); //< an earlier error decides how the text is read
   RSA* key = PEM_read_bio_RSAPrivateKey(bio, NULL, no_passphrase, NULL);
   BIO_free(bio);
   // Blinding draws random numbers, and with an inconsistent key they show in the
-- 
2.43.0

