From 118a88b0a2599f433f7b8a7bf31ce2e8c47b235a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:25 +0000
Subject: [PATCH 01/24] fix: make the range insert of KDTree usable

insert(begin, end) passed Entry's where the tree wants extended entries and
called a range insert that no tree has, so it could not be instantiated.
---
 src/mathic/KDTree.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/mathic/KDTree.h b/src/mathic/KDTree.h
index 8290bb2..7874130 100755
--- a/src/mathic/KDTree.h
+++ b/src/mathic/KDTree.h
@@ -156,14 +156,18 @@ namespace mathic {
         return;
       const size_t inserted = std::distance(begin, end); 
       if (!empty()) {
-        for (; begin != end; ++begin)
-          _tree.insert(*begin);
+        for (; begin != end; ++begin) {
+          ExtEntry extEntry(*begin, _divMaskCalculator, getConfiguration());
+          _tree.insert(extEntry);
+        }
+        reportChanges(inserted, 0);
       } else {
-        _tree.insert(begin, end);
         // insert into empty container is equivalent to rebuild
+        _divMaskCalculator.rebuild(begin, end, getConfiguration());
+        _tree.reset(begin, end, _divMaskCalculator);
+        _size = inserted;
         resetNumberOfChangesTillRebuild();
       }
-      reportChanges(inserted, 0);
     }
 
     /** Removes an element whose exponents are equal to monomial's. Returns
-- 
2.43.0


From 2f7c51fcd0fd96c77e4a6efd310400c22abdcaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:25 +0000
Subject: [PATCH 02/24] fix: make KDTree::clear usable and have it reset the
 size

clear() called a calc() member that the trees do not have, so it could not be
instantiated, and it left the number of entries as it was.
---
 src/mathic/KDTree.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mathic/KDTree.h b/src/mathic/KDTree.h
index 7874130..4620a63 100755
--- a/src/mathic/KDTree.h
+++ b/src/mathic/KDTree.h
@@ -240,8 +240,9 @@ namespace mathic {
     /** Removes all entries. Does not reset the configuration object. */
     void clear() {
       _tree.clear();
+      _size = 0;
       resetNumberOfChangesTillRebuild();
-      _tree.calc().rebuildDefault(getConfiguration());
+      _divMaskCalculator.rebuildDefault(getConfiguration());
     }
 
     /** Rebuilds the data structure. */
-- 
2.43.0


From 12dcc89c5fd9454a319328215d81fa0d58174f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:25 +0000
Subject: [PATCH 03/24] fix: account for the entry that KDTree::removeElement
 removes

The size, the number of changes until a rebuild and the divisor cache were
not updated, so findDivisor could return the entry just removed.
---
 src/mathic/KDTree.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mathic/KDTree.h b/src/mathic/KDTree.h
index 4620a63..b294a8a 100755
--- a/src/mathic/KDTree.h
+++ b/src/mathic/KDTree.h
@@ -176,7 +176,10 @@ namespace mathic {
       MATHIC_ASSERT(C::AllowRemovals);
       if (!C::AllowRemovals)
         throw std::logic_error("Removal request while removals disabled.");
-      return _tree.removeElement(monomial);
+      const bool removed = _tree.removeElement(monomial);
+      if (removed)
+        reportChanges(0, 1);
+      return removed;
     }
 
     /** Returns a pointer to an entry that divides monomial. Returns null if no
-- 
2.43.0


From aefdb1ac1ce7dbe1348066df4675213d28fb78e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:39 +0000
Subject: [PATCH 04/24] fix: make BinaryKDTree::removeElement usable

It could not be instantiated: it assigned a node reference to a pointer,
asked for a child with a monomial where an extended entry was required
and called removeElement on the leaf, which has no such member.
---
 src/mathic/BinaryKDTree.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/mathic/BinaryKDTree.h b/src/mathic/BinaryKDTree.h
index 3366ec4..56225ba 100755
--- a/src/mathic/BinaryKDTree.h
+++ b/src/mathic/BinaryKDTree.h
@@ -129,6 +129,13 @@ namespace mathic {
           return getEqualOrLess();
       }
 
+      Node& getChildFor(const Monomial& monomial, const C& conf) {
+        if (getExponent() < conf.getExponent(monomial, getVar()))
+          return getStrictlyGreater();
+        else
+          return getEqualOrLess();
+      }
+
       using DivMask::HasDivMask<C::UseTreeDivMask>::updateToLowerBound;
       void updateToLowerBound(Node& node) {
         if (!C::UseTreeDivMask)
@@ -292,8 +299,8 @@ namespace mathic {
     Node* node = _root;
 
     while (node->isInterior())
-      node = node->asInterior().getChildFor(monomial, _conf);
-    const bool value = node->asLeaf().removeElement(monomial);
+      node = &node->asInterior().getChildFor(monomial, _conf);
+    const bool value = node->asLeaf().entries().removeElement(monomial, _conf);
     MATHIC_ASSERT(debugIsValid());
     return value;
   }
-- 
2.43.0


From 6395601cf96f3f87f7cacc1fcbde83d4833db8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:04 +0000
Subject: [PATCH 05/24] fix: align the entry memory of KDEntryArray

The raw memory was only aligned as char, so with tree div masks the entries,
which hold pointers or 8 byte members, were constructed at misaligned addresses.
---
 src/mathic/KDEntryArray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mathic/KDEntryArray.h b/src/mathic/KDEntryArray.h
index c54eee3..261ee50 100755
--- a/src/mathic/KDEntryArray.h
+++ b/src/mathic/KDEntryArray.h
@@ -117,7 +117,7 @@ namespace mathic {
 
     /** This is the memory for the entries. It is kept as a raw char*
      to avoid constructing all the entries right away. */
-    char _beginMemory[C::LeafSize * sizeof(ExtEntry)];
+    alignas(ExtEntry) char _beginMemory[C::LeafSize * sizeof(ExtEntry)];
     iterator _end; // points into _beginMemory
 #ifdef MATHIC_DEBUG
     const bool _sortOnInsertDebug;
-- 
2.43.0


From dbb9cf8144d462a123e9f92b7cc51c9e2bc8fb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:04 +0000
Subject: [PATCH 06/24] fix: count the entry that DivList::removeElement
 removes as a change

Automatic rebuilds are documented to happen after a number of insertions and
removals, but removals done this way were not counted.
---
 src/mathic/DivList.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mathic/DivList.h b/src/mathic/DivList.h
index 03cf87d..e384e6a 100755
--- a/src/mathic/DivList.h
+++ b/src/mathic/DivList.h
@@ -457,6 +457,7 @@ namespace mathic {
         }
       }
       _list.erase(it);
+      reportChanges(1);
       return true;
     skip:;
     }
-- 
2.43.0


From fb4c4d586f6ecba5b0686197f8bbb7072f958c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:04 +0000
Subject: [PATCH 07/24] fix: make DivList::getMemoryUse usable for linked lists

std::list has no capacity(), so it could not be instantiated.
---
 src/mathic/DivList.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/mathic/DivList.h b/src/mathic/DivList.h
index e384e6a..ba7da08 100755
--- a/src/mathic/DivList.h
+++ b/src/mathic/DivList.h
@@ -387,6 +387,17 @@ namespace mathic {
             break;
       }
     }
+
+    template<class E>
+      size_t getMemoryUse(const std::vector<E>& list) {
+      return list.capacity() * sizeof(E);
+    }
+
+    template<class E>
+      size_t getMemoryUse(const std::list<E>& list) {
+      // each list node has an entry and links to the next and previous node
+      return list.size() * (sizeof(E) + 2 * sizeof(void*));
+    }
   }
 
   template<class C>
@@ -610,7 +621,7 @@ namespace mathic {
 
   template<class C>
   size_t DivList<C>::getMemoryUse() const {
-	return _list.capacity() * sizeof(_list.front());
+	return DivListHelper::getMemoryUse(_list);
   }
 }
 
-- 
2.43.0


From 9a600a284e0b39da34ab8fdd77ebd2790544762e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:08 +0000
Subject: [PATCH 08/24] fix: leave the moved-from ComTree empty instead of the
 new one

The move constructor reset the size and capacity of the new tree, which lost
all entries, and left the old tree claiming entries in memory it gave away.
---
 src/mathic/ComTree.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mathic/ComTree.h b/src/mathic/ComTree.h
index 8ca8549..2eea009 100755
--- a/src/mathic/ComTree.h
+++ b/src/mathic/ComTree.h
@@ -178,8 +178,8 @@ namespace mathic {
   {
     tree._array = static_cast<E*>(0) - 1;
     tree._arrayKeepAlive = 0;
-    _lastLeaf = Node(0);
-    _capacityEnd = Node(0);
+    tree._lastLeaf = Node(0);
+    tree._capacityEnd = Node(0);
   }
 
   template<class E, bool FI>
-- 
2.43.0


From 09d6a518405b0cdaee57f7277cdccc59fe2e094c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:08 +0000
Subject: [PATCH 09/24] fix: move the entries of the other heap in the Heap
 move constructor

It constructed its tree from its own not yet constructed tree.
---
 src/mathic/Heap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mathic/Heap.h b/src/mathic/Heap.h
index 6dde74f..9018b60 100755
--- a/src/mathic/Heap.h
+++ b/src/mathic/Heap.h
@@ -36,7 +36,7 @@ namespace mathic {
     Heap(const Configuration& configuration): _conf(configuration) {}
     Heap(const Configuration&& configuration):
       _conf(std::move(configuration)) {}
-    Heap(Heap&& heap): _tree(std::move(_tree)), _conf(std::move(heap._conf)) {}
+    Heap(Heap&& heap): _tree(std::move(heap._tree)), _conf(std::move(heap._conf)) {}
 
     Configuration& getConfiguration() {return _conf;}
     const Configuration& getConfiguration() const {return _conf;}
-- 
2.43.0


From c29fc6634bab69dd6534da6e02e68f8e5fe8f70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:08 +0000
Subject: [PATCH 10/24] fix: reset the front positions of the buckets when
 clearing a GeoFront

Empty buckets kept their old position, so a later swapKeys could write the
wrong bucket into the front.
---
 src/mathic/GeoFront.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mathic/GeoFront.h b/src/mathic/GeoFront.h
index 62f895f..8857a61 100755
--- a/src/mathic/GeoFront.h
+++ b/src/mathic/GeoFront.h
@@ -184,6 +184,8 @@ namespace mathic {
 
   template<class C, class B>
   void GeoFront<C, B, true>::clear() {
+    for (B** bucket = _bucketBegin; bucket != _bucketEnd; ++bucket)
+      (*bucket)->setFrontToken(0);
     _bucketEnd = _bucketBegin;
   }
 
-- 
2.43.0


From 49a7d84bb8451313822bac9bec8117637155aed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:08 +0000
Subject: [PATCH 11/24] fix: do nothing when pushing an empty range onto a
 Geobucket

An empty bucket was inserted into the front.
---
 src/mathic/Geobucket.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mathic/Geobucket.h b/src/mathic/Geobucket.h
index 0784608..0fcf206 100755
--- a/src/mathic/Geobucket.h
+++ b/src/mathic/Geobucket.h
@@ -415,6 +415,8 @@ namespace mathic {
 	  }
 	}
 #endif
+	if (begin == end)
+	  return; // an empty bucket must not be inserted into the front
 	const size_t entryCount = end - begin;
 	const size_t adjCount = entryCount * C::insertFactor;
 	_entryCount += entryCount;
-- 
2.43.0


From 51e160a6455be201bf98236b3fd3ec9240a05e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:40 +0000
Subject: [PATCH 12/24] fix: make HashTable::remove usable

It could not be instantiated: it default constructed a Handle, which has no
such constructor, called hashvalue() instead of the hash() that
configurations have, and used the key member function as a data member. It
also decreased the number of nonempty bins, which insert never increased.
---
 src/mathic/HashTable.h | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/mathic/HashTable.h b/src/mathic/HashTable.h
index b0cde83..f3e98b5 100755
--- a/src/mathic/HashTable.h
+++ b/src/mathic/HashTable.h
@@ -184,6 +184,7 @@ namespace mathic {
       {
 	result = makeNode(k,v);
 	mHashTable[hashval] = result;
+	mBinCount++;
       }
     else
       {
@@ -238,17 +239,14 @@ namespace mathic {
   void HashTable<C>::remove(Handle *& p) 
   {
     mNodeCount--;
-    size_t const hashval = mConf.hashvalue(p->key) & mHashMask;
-    Handle head;
-    Handle* tmpNode = mHashTable[hashval];
-    head.next = tmpNode;
-    for (Handle* q = &head; q->next != 0; q = q->next) 
+    size_t const hashval = mConf.hash(p->key()) & mHashMask;
+    for (Handle** q = &mHashTable[hashval]; *q != 0; q = &(*q)->next) 
       {
-	if (q->next == p) 
+	if (*q == p) 
 	  {
-	    q->next = p->next;
-	    mHashTable[hashval] = head.next;
-	    if (head.next == 0) mBinCount--;
+	    *q = p->next;
+	    p->next = 0;
+	    if (mHashTable[hashval] == 0) mBinCount--;
 	    //TODO: call destructor for pair, then call 'free' with the mNodePool
 	    return;
 	  }
-- 
2.43.0


From 6e8c013bcb0ded56670b1d30655da9240a4afda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:41 +0000
Subject: [PATCH 13/24] fix: define HashTable::hardReset

It was declared but not defined, so calling it did not link.
---
 src/mathic/HashTable.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/mathic/HashTable.h b/src/mathic/HashTable.h
index f3e98b5..7f07f4f 100755
--- a/src/mathic/HashTable.h
+++ b/src/mathic/HashTable.h
@@ -18,6 +18,7 @@
 
 #include <memtailor.h>
 #include <cmath>
+#include <algorithm>
 #include <utility>
 #include <string>
 
@@ -163,6 +164,14 @@ namespace mathic {
     mNodePool.freeAllBuffers();
   }
 
+  template<class C>
+  void HashTable<C>::hardReset() {
+    std::fill(mHashTable.begin(), mHashTable.end(), static_cast<Handle*>(0));
+    mNodeCount = 0;
+    mBinCount = 0;
+    reset();
+  }
+
   template<class C>
   typename HashTable<C>::Handle *HashTable<C>::makeNode(const Key &k, const Value &v)
   {
-- 
2.43.0


From bc3f35f66a8b8ccb043deb68a506bb22b3418cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:07 +0000
Subject: [PATCH 14/24] fix: do not read past the unit tables in ColumnPrinter

withSIPrefix and bytesInUnit used an index one past the last unit for
numbers of about 1000 (1024) or more of the largest unit.
---
 src/mathic/ColumnPrinter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mathic/ColumnPrinter.cpp b/src/mathic/ColumnPrinter.cpp
index a20e3ef..053d4ac 100755
--- a/src/mathic/ColumnPrinter.cpp
+++ b/src/mathic/ColumnPrinter.cpp
@@ -242,7 +242,7 @@ namespace mathic {
 	  size_t i = 0;
       // the stop condition is at 999.5 because that value will get
       // rounded to 1000.0.
-	  for (i = 0; i < unitCount && amount >= 999.95; ++i)
+	  for (i = 0; i + 1 < unitCount && amount >= 999.95; ++i)
         amount /= 1000.0;
 	  out << oneDecimal(amount) << units[i];
     }
@@ -260,7 +260,7 @@ namespace mathic {
 	  size_t i = 0;
       // the stop condition is 1023.95 because that value will get
       // rounded to 1024.0.
-	  for (i = 0; i < unitCount && amount >= 1023.95; ++i)
+	  for (i = 0; i + 1 < unitCount && amount >= 1023.95; ++i)
         amount /= 1024.0;
 	  out << oneDecimal(amount) << units[i];
     }
-- 
2.43.0


From 2c21b4d2781eddba0ecaf24bbf24545639fc0eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:07 +0000
Subject: [PATCH 15/24] fix: keep the value of an IntegerParameter when
 rejecting an argument

The rejected argument had already been read into the value.
---
 src/mathic/IntegerParameter.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mathic/IntegerParameter.cpp b/src/mathic/IntegerParameter.cpp
index f17cf32..3a52079 100755
--- a/src/mathic/IntegerParameter.cpp
+++ b/src/mathic/IntegerParameter.cpp
@@ -24,13 +24,15 @@ namespace mathic {
 
   void IntegerParameter::processArgument(const std::string& argument) {
     std::istringstream in(argument);
-    in >> _value;
+    unsigned int newValue = 0;
+    in >> newValue;
     std::ostringstream out;
-    out << _value;
+    out << newValue;
     if (out.str() != argument) {
       reportError("The value given to option -" + name() + " was not "
         "as expected. It must be a non-negative integer in the range "
         "[0, 2^31-1].");
     }
+    _value = newValue;
   }
 }
-- 
2.43.0


From b6147d33e84c6734a1cb81af73be8a11fb96b641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:07 +0000
Subject: [PATCH 16/24] fix: do not pass negative char values to isspace in
 display

isspace is only defined for EOF and values of unsigned char, so text with
non-ASCII characters was undefined behaviour.
---
 src/mathic/display.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mathic/display.cpp b/src/mathic/display.cpp
index a149a40..03fff2f 100755
--- a/src/mathic/display.cpp
+++ b/src/mathic/display.cpp
@@ -37,19 +37,19 @@ namespace mathic {
               ++_pos;
               break;
             }
-            if (isspace(_msg[_pos])) {
+            if (isspace(static_cast<unsigned char>(_msg[_pos]))) {
 			  wordSpacePrefix += _msg[_pos];
 			  ++_pos;
               continue;
             }
-            MATHIC_ASSERT(!isspace(_msg[_pos]));
+            MATHIC_ASSERT(!isspace(static_cast<unsigned char>(_msg[_pos])));
             MATHIC_ASSERT(_msg[_pos] != '\n');
             MATHIC_ASSERT(_pos < _msg.size());
 
             std::string word;
             while (_pos < _msg.size() &&
 				   _msg[_pos] != '\n' &&
-				   !isspace(_msg[_pos])) {
+				   !isspace(static_cast<unsigned char>(_msg[_pos]))) {
               word += _msg[_pos];
               ++_pos;
             }
@@ -71,7 +71,7 @@ namespace mathic {
       void readIndentation() {
         // Read whitespace at beginning of line.
         _indentation.clear();
-        while (_pos < _msg.size() && _msg[_pos] != '\n' && isspace(_msg[_pos])) {
+        while (_pos < _msg.size() && _msg[_pos] != '\n' && isspace(static_cast<unsigned char>(_msg[_pos]))) {
           _indentation += _msg[_pos];
           ++_pos;
         }
-- 
2.43.0


From 21b0bf7b6246fc94b00ca24d19a8c5663efb3569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:07 +0000
Subject: [PATCH 17/24] fix: define CliParser::registerHelpAction

It was declared but not defined, so calling it did not link.
---
 src/mathic/CliParser.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/mathic/CliParser.cpp b/src/mathic/CliParser.cpp
index e45b457..c63e132 100644
--- a/src/mathic/CliParser.cpp
+++ b/src/mathic/CliParser.cpp
@@ -2,6 +2,7 @@
 
 #include "error.h"
 #include "CliParameter.h"
+#include "HelpAction.h"
 
 namespace mathic {
   namespace {
@@ -28,6 +29,15 @@ namespace mathic {
 
   CliParser::CliParser(): _actions("action") {}
 
+  void CliParser::registerHelpAction(
+    const std::string& preMessage,
+    const std::string& postMessage
+  ) {
+    registerAction<HelpAction>();
+    _helpPreMessage = preMessage;
+    _helpPostMessage = postMessage;
+  }
+
   std::unique_ptr<Action> CliParser::createActionWithPrefix(
     const std::string& prefix
   ) {
-- 
2.43.0


From 18930f0079b40daa40f3e198dbf5d66a3256cb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:04 +0000
Subject: [PATCH 18/24] fix: destruct the PairData if computePairData throws

Nobody else destructs it in that case, so resources it held were leaked.
---
 src/mathic/PairQueue.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mathic/PairQueue.h b/src/mathic/PairQueue.h
index 0340153..8a479a6 100755
--- a/src/mathic/PairQueue.h
+++ b/src/mathic/PairQueue.h
@@ -80,7 +80,12 @@ namespace mathic {
 		MATHIC_ASSERT(memory != 0);
 		MATHIC_ASSERT(col > row);
 		PairData* pd = new (memory) PairData();
-		conf.computePairData(col, row, *pd);
+		try {
+		  conf.computePairData(col, row, *pd);
+		} catch (...) {
+		  pd->~PairData();
+		  throw;
+		}
 	  }
 	};
 	template<class Configuration>
-- 
2.43.0


From 7326ec1dffc8cfdd200dfd05f7c5ecdbf846ef66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:04 +0000
Subject: [PATCH 19/24] fix: destruct the pair data in the debug check of
 PairQueue for its own row

It was constructed for row *it but destructed for row *prevIt.
---
 src/mathic/PairQueue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mathic/PairQueue.h b/src/mathic/PairQueue.h
index 8a479a6..e10d7d6 100755
--- a/src/mathic/PairQueue.h
+++ b/src/mathic/PairQueue.h
@@ -418,7 +418,7 @@ namespace mathic {
 		  (!conf.cmpLessThan(conf.compare(col, *prevIt, *prevPd,
 										  col, *it, *currentPd)));
 		PairQueueNamespace::
-		  destructPairData(currentPd.get(), col, *prevIt, conf);
+		  destructPairData(currentPd.get(), col, *it, conf);
 		PairQueueNamespace::destructPairData(prevPd.get(), col, *prevIt, conf);
 	  }
 	}
-- 
2.43.0


From d08f7bb10a8925757eb840bdf87e914e0ce02f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:04 +0000
Subject: [PATCH 20/24] fix: count all memory in PairQueue::getMemoryUse

The scratch arena and the record of retired indexes were left out.
---
 src/mathic/PairQueue.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mathic/PairQueue.h b/src/mathic/PairQueue.h
index e10d7d6..b68699e 100755
--- a/src/mathic/PairQueue.h
+++ b/src/mathic/PairQueue.h
@@ -173,6 +173,8 @@ namespace mathic {
 		return reinterpret_cast<const bool&>(mRetired[index]);
 	  }
 
+	  size_t getMemoryUse() const {return mRetired.capacity();}
+
 	private:
       // using char in place of bool to avoid the slow specialization
       // for std::vector<bool>
@@ -192,6 +194,8 @@ namespace mathic {
 	  bool retired(size_t index) const {
 		return false;
 	  }
+
+	  size_t getMemoryUse() const {return 0;}
 	};
   }
 
@@ -616,7 +620,8 @@ namespace mathic {
 
   template<class C>
   size_t PairQueue<C>::getMemoryUse() const {
-	return mArena.getMemoryUse() + mColumnQueue.getMemoryUse();
+	return mArena.getMemoryUse() + mScratchArena.getMemoryUse() +
+	  mColumnQueue.getMemoryUse() + Retirer::getMemoryUse();
   }
 
   template<class C>
-- 
2.43.0


From d0a193f2c14475c71b9bf87f5bad8cbf6238530d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:04 +0000
Subject: [PATCH 21/24] fix: let a copied TourTree point to its own players

The implicit copy constructor left the new tree pointing into the entries of
the original.
---
 src/mathic/TourTree.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/mathic/TourTree.h b/src/mathic/TourTree.h
index 2eeedaa..f117dc4 100755
--- a/src/mathic/TourTree.h
+++ b/src/mathic/TourTree.h
@@ -19,6 +19,7 @@ namespace mathic {
 	typedef typename Configuration::Entry Entry;
 
 	TourTree(const Configuration& configuration);
+	TourTree(const TourTree& tree);
 	Configuration& getConfiguration() {return _conf;}
 	const Configuration& getConfiguration() const {return _conf;}
 
@@ -97,6 +98,18 @@ namespace mathic {
 	reallocate();
   }
 
+  template<class C>
+  TourTree<C>::TourTree(const TourTree& tree):
+	_tree(tree._tree, tree._tree.capacity()), _conf(tree._conf) {
+	// _tree must point into this object's _players.
+	_players.reserve(tree._players.capacity());
+	_players.insert
+	  (_players.end(), tree._players.begin(), tree._players.end());
+	for (Node pos; pos <= _tree.lastLeaf(); ++pos)
+	  _tree[pos] = &_players[_tree[pos] - &tree._players.front()];
+	MATHIC_SLOW_ASSERT(isValid());
+  }
+
   template<class C>
 	std::string TourTree<C>::getName() const {
 	return std::string("t-tree (") +
-- 
2.43.0


From 3d4670196cb428b1e75dcd623be761e0a9ee4503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:04 +0000
Subject: [PATCH 22/24] fix: let a copied StlSet compare using its own
 configuration

The implicit copy operations left the comparator pointing to the
configuration of the original.
---
 src/mathic/StlSet.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/mathic/StlSet.h b/src/mathic/StlSet.h
index 9f1609f..eb6bb91 100755
--- a/src/mathic/StlSet.h
+++ b/src/mathic/StlSet.h
@@ -15,6 +15,17 @@ namespace mathic {
 
   StlSet(const Configuration& configuration):
     _conf(configuration), _set(Cmp(&_conf)) {}
+  StlSet(const StlSet& set):
+    _conf(set._conf), _set(set._set.begin(), set._set.end(), Cmp(&_conf)) {}
+	StlSet& operator=(const StlSet& set) {
+	  if (this != &set) {
+		_conf = set._conf;
+		std::multiset<Entry, Cmp> newSet
+		  (set._set.begin(), set._set.end(), Cmp(&_conf));
+		_set.swap(newSet);
+	  }
+	  return *this;
+	}
 	Configuration& getConfiguration() {return _conf;}
 	const Configuration& getConfiguration() const {return _conf;}
 
-- 
2.43.0


From 504e136a4ef845c338107a69fcb6da880ce49cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:10 +0000
Subject: [PATCH 23/24] fix: PairQueue destroyed the data of an exhausted
 column as that of a retired row

---
 src/mathic/PairQueue.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mathic/PairQueue.h b/src/mathic/PairQueue.h
index b68699e..da3671a 100755
--- a/src/mathic/PairQueue.h
+++ b/src/mathic/PairQueue.h
@@ -476,12 +476,13 @@ namespace mathic {
   template<class C>
   void PairQueue<C>::Column::incrementRowIndex(PairQueue<C>& pq) {
 	MATHIC_ASSERT(!empty());
+	Index const oldRow = rowIndex(); // mPairData is for this row
 	if (big()) {
 	  do {
 		++bigBegin;
 		if (bigBegin == bigEnd) {
 		  MATHIC_ASSERT(empty());
-		  destruct(*(bigBegin - 1), pq.configuration());
+		  destruct(oldRow, pq.configuration());
 		  return;
 		}
 	  } while (PairQueue::SupportRetirement && pq.retired(*bigBegin));
@@ -490,7 +491,7 @@ namespace mathic {
 		++smallBegin;
 		if (smallBegin == smallEnd) {
 		  MATHIC_ASSERT(empty());
-		  destruct(*(smallBegin - 1), pq.configuration());
+		  destruct(oldRow, pq.configuration());
 		  return;
 		}
 	  } while (PairQueue::SupportRetirement && pq.retired(*smallBegin));
-- 
2.43.0


From 381ca183e69dbb18711ec9cbcf63737503f89d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:52 +0000
Subject: [PATCH 24/24] fix: keep HashTable usable when growing fails to
 allocate

---
 src/mathic/HashTable.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mathic/HashTable.h b/src/mathic/HashTable.h
index 7f07f4f..3c97b2d 100755
--- a/src/mathic/HashTable.h
+++ b/src/mathic/HashTable.h
@@ -272,10 +272,11 @@ namespace mathic {
   {
     MATHIC_ASSERT(computeNodeCount() == mNodeCount);
     size_t const old_table_size = mTableSize;
+    // allocate before changing anything, as this can throw.
+    std::vector<Handle *> old_table(static_cast<size_t>(1) << new_nbits);
     mTableSize = static_cast<size_t>(1) << new_nbits;
     mLogTableSize = new_nbits;
     mHashMask = mTableSize-1;
-    std::vector<Handle *> old_table(mTableSize);
     std::swap(old_table, mHashTable);
 
     mBinCount = 0;
-- 
2.43.0

