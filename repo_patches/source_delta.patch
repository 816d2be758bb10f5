From 96368cfbd03cbf4baada7f0de821586c029e7630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:52 +0000
Subject: [PATCH 01/30] fix: Geobucket::clear leaves stale front positions in
 the buckets

With trackFront the buckets kept pointers into the cleared front. A later
premerge or merge wrote through them, so that the wrong maximum was found
or memory outside of the front was overwritten.
---
 src/mathic/GeoFront.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mathic/GeoFront.h b/src/mathic/GeoFront.h
index 62f895f..fc56798 100755
--- a/src/mathic/GeoFront.h
+++ b/src/mathic/GeoFront.h
@@ -184,6 +184,9 @@ namespace mathic {
 
   template<class C, class B>
   void GeoFront<C, B, true>::clear() {
+    // no bucket may keep a token for a position in the front that is gone.
+    for (B** bucket = begin(); bucket != end(); ++bucket)
+      (*bucket)->_frontPos = 0;
     _bucketEnd = _bucketBegin;
   }
 
-- 
2.43.0


From 3bf8fe1199612c54ce451464dbf815d4e3697823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:52 +0000
Subject: [PATCH 02/30] fix: Geobucket::push of an empty range corrupts the
 queue

An empty bucket was inserted into the front, or the empty range was merged
which reads its end.
---
 src/mathic/Geobucket.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mathic/Geobucket.h b/src/mathic/Geobucket.h
index 0784608..c443fd0 100755
--- a/src/mathic/Geobucket.h
+++ b/src/mathic/Geobucket.h
@@ -415,6 +415,8 @@ namespace mathic {
 	  }
 	}
 #endif
+	if (begin == end)
+	  return; // buckets in the front and the ranges being merged are non-empty
 	const size_t entryCount = end - begin;
 	const size_t adjCount = entryCount * C::insertFactor;
 	_entryCount += entryCount;
-- 
2.43.0


From e305c83759420ae0ab4df1fd341df20dcbe339fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:59 +0000
Subject: [PATCH 03/30] fix: moving a Heap loses its entries and corrupts
 memory

The heap moved its own uninitialized tree instead of the one of the source,
and moving a ComTree emptied the new tree, leaving the source with the size
and capacity of the array it no longer has.
---
 src/mathic/ComTree.h | 4 ++--
 src/mathic/Heap.h    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mathic/ComTree.h b/src/mathic/ComTree.h
index 8ca8549..2eea009 100755
--- a/src/mathic/ComTree.h
+++ b/src/mathic/ComTree.h
@@ -178,8 +178,8 @@ namespace mathic {
   {
     tree._array = static_cast<E*>(0) - 1;
     tree._arrayKeepAlive = 0;
-    _lastLeaf = Node(0);
-    _capacityEnd = Node(0);
+    tree._lastLeaf = Node(0);
+    tree._capacityEnd = Node(0);
   }
 
   template<class E, bool FI>
diff --git a/src/mathic/Heap.h b/src/mathic/Heap.h
index 6dde74f..9018b60 100755
--- a/src/mathic/Heap.h
+++ b/src/mathic/Heap.h
@@ -36,7 +36,7 @@ namespace mathic {
     Heap(const Configuration& configuration): _conf(configuration) {}
     Heap(const Configuration&& configuration):
       _conf(std::move(configuration)) {}
-    Heap(Heap&& heap): _tree(std::move(_tree)), _conf(std::move(heap._conf)) {}
+    Heap(Heap&& heap): _tree(std::move(heap._tree)), _conf(std::move(heap._conf)) {}
 
     Configuration& getConfiguration() {return _conf;}
     const Configuration& getConfiguration() const {return _conf;}
-- 
2.43.0


From 1430b68b926a8360e782ffc5f8152af30d8b068c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:29 +0000
Subject: [PATCH 04/30] fix: PairQueue destructs pair data as if it were that
 of another pair

When the remaining rows of a column were all retired, destructPairData was
called with the last of those rows rather than the row that the pair data
was computed for.
---
 src/mathic/PairQueue.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mathic/PairQueue.h b/src/mathic/PairQueue.h
index 0340153..b688a1b 100755
--- a/src/mathic/PairQueue.h
+++ b/src/mathic/PairQueue.h
@@ -467,12 +467,14 @@ namespace mathic {
   template<class C>
   void PairQueue<C>::Column::incrementRowIndex(PairQueue<C>& pq) {
 	MATHIC_ASSERT(!empty());
+	// mPairData is for this row, which rows that get skipped are not.
+	Index const oldRow = rowIndex();
 	if (big()) {
 	  do {
 		++bigBegin;
 		if (bigBegin == bigEnd) {
 		  MATHIC_ASSERT(empty());
-		  destruct(*(bigBegin - 1), pq.configuration());
+		  destruct(oldRow, pq.configuration());
 		  return;
 		}
 	  } while (PairQueue::SupportRetirement && pq.retired(*bigBegin));
@@ -481,7 +483,7 @@ namespace mathic {
 		++smallBegin;
 		if (smallBegin == smallEnd) {
 		  MATHIC_ASSERT(empty());
-		  destruct(*(smallBegin - 1), pq.configuration());
+		  destruct(oldRow, pq.configuration());
 		  return;
 		}
 	  } while (PairQueue::SupportRetirement && pq.retired(*smallBegin));
-- 
2.43.0


From 57bba9089e306e48be3053838c003cf38ffd0461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:42 +0000
Subject: [PATCH 05/30] fix: PairQueue leaks pair data when computePairData
 throws

The default construction function had already constructed the object.
---
 src/mathic/PairQueue.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mathic/PairQueue.h b/src/mathic/PairQueue.h
index b688a1b..8eb6efa 100755
--- a/src/mathic/PairQueue.h
+++ b/src/mathic/PairQueue.h
@@ -80,7 +80,12 @@ namespace mathic {
 		MATHIC_ASSERT(memory != 0);
 		MATHIC_ASSERT(col > row);
 		PairData* pd = new (memory) PairData();
-		conf.computePairData(col, row, *pd);
+		try {
+		  conf.computePairData(col, row, *pd);
+		} catch (...) {
+		  pd->~PairData();
+		  throw;
+		}
 	  }
 	};
 	template<class Configuration>
-- 
2.43.0


From 1563def353b6e75661449dbbff72ac40ac2290be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:23 +0000
Subject: [PATCH 06/30] fix: TourTree::push is left broken when a comparison
 throws

The new entry was already in the tree, so a PairQueue whose comparison threw
while a column was added kept a pointer to the column it then discarded.
---
 src/mathic/TourTree.h | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/mathic/TourTree.h b/src/mathic/TourTree.h
index 2eeedaa..da0cfdd 100755
--- a/src/mathic/TourTree.h
+++ b/src/mathic/TourTree.h
@@ -115,9 +115,21 @@ namespace mathic {
 	  MATHIC_SLOW_ASSERT(isValid());
 	  return;
 	}
+	// Find the highest node that entry wins. Nothing has been changed yet
+	// if a comparison throws an exception.
+	const Node leafParent = _tree.lastLeaf().next().parent();
+	Node highest = leafParent.right(); // the leaf that entry will have
+	for (Node pos = leafParent; ; pos = pos.parent()) {
+	  typename C::CompareResult cmp = _conf.compare(_tree[pos]->entry, entry);
+	  if (!_conf.cmpLessThan(cmp))
+		break;
+	  highest = pos;
+	  if (pos.isRoot())
+		break;
+	}
+
 	// move leaf down as left child
-	Node posParent = _tree.lastLeaf().next().parent();
-	Player* moveDown = _tree[posParent];
+	Player* moveDown = _tree[leafParent];
 	_tree.pushBackWithCapacity(moveDown);
 	moveDown->leaf = _tree.lastLeaf();
 	MATHIC_ASSERT(_tree.lastLeaf().isLeft());
@@ -127,18 +139,10 @@ namespace mathic {
 	_tree.pushBackWithCapacity(&_players.back());
 	MATHIC_ASSERT(_tree.lastLeaf().isRight());
 
-	Node pos = _tree.lastLeaf();
-	do {
-	  MATHIC_ASSERT(!pos.isRoot());
-	  MATHIC_ASSERT(posParent == pos.parent());
-	  typename C::CompareResult cmp = _conf.compare
-		(_tree[posParent]->entry, _tree[pos]->entry);
-	  if (!_conf.cmpLessThan(cmp))
-		break;
-	  _tree[posParent] = _tree[pos];
-	  pos = posParent;
-	  posParent = pos.parent();
-	} while (!pos.isRoot());
+	for (Node pos = _tree.lastLeaf(); pos != highest;) {
+	  pos = pos.parent();
+	  _tree[pos] = &_players.back();
+	}
 	MATHIC_SLOW_ASSERT(isValid());
   }
 
-- 
2.43.0


From c919541eba8576e9b1ffcbf92f13e98d0a0be6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:06 +0000
Subject: [PATCH 07/30] fix: TourTree is corrupted after an allocation failure
 while growing

The capacity of the tree had already been increased, so later pushes let
the vector of players reallocate without adjusting the pointers to it.
---
 src/mathic/TourTree.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/mathic/TourTree.h b/src/mathic/TourTree.h
index da0cfdd..241f28e 100755
--- a/src/mathic/TourTree.h
+++ b/src/mathic/TourTree.h
@@ -225,17 +225,21 @@ namespace mathic {
   template<class C>
 	void TourTree<C>::reallocate() {
 	MATHIC_ASSERT(isValid());
-	_tree.increaseCapacity();
-	const size_t newCapacity = _tree.capacity();
+	// Change _tree only when no more allocations can fail, as push relies on
+	// _players having enough capacity whenever _tree does.
+	Tree tree(_tree, _tree.capacity());
+	tree.increaseCapacity();
+	const size_t newCapacity = tree.capacity();
 	if (_players.empty())
 	  _players.reserve(newCapacity / 2 + 2);
 	else {
 	  Player* oldBegin = &_players.front();
 	  _players.reserve(newCapacity / 2 + 2);
 	  Player* newBegin = &_players.front();
-	  for (Node pos; pos <= _tree.lastLeaf(); ++pos)
-		_tree[pos] = newBegin + (_tree[pos] - oldBegin);
+	  for (Node pos; pos <= tree.lastLeaf(); ++pos)
+		tree[pos] = newBegin + (tree[pos] - oldBegin);
 	}
+	_tree.swap(tree);
 	MATHIC_ASSERT(isValid());
   }
 
-- 
2.43.0


From 669c8b12e8be35a30d9e3b2e34b457e98c8f82c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:26 +0000
Subject: [PATCH 08/30] fix: KDTree::clear does not compile and keeps the old
 size

clear() referred to a member of the tree that no longer exists, so it could
not be instantiated, and it did not reset the number of entries.
---
 src/mathic/KDTree.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mathic/KDTree.h b/src/mathic/KDTree.h
index 8290bb2..bdde0bb 100755
--- a/src/mathic/KDTree.h
+++ b/src/mathic/KDTree.h
@@ -236,8 +236,9 @@ namespace mathic {
     /** Removes all entries. Does not reset the configuration object. */
     void clear() {
       _tree.clear();
+      _size = 0;
       resetNumberOfChangesTillRebuild();
-      _tree.calc().rebuildDefault(getConfiguration());
+      _divMaskCalculator.rebuildDefault(getConfiguration());
     }
 
     /** Rebuilds the data structure. */
-- 
2.43.0


From af22c49160947f91aa39c0296cc873ccd4889f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:26 +0000
Subject: [PATCH 09/30] fix: KDTree::insert of a range does not compile

The method used functions of the tree that no longer exist. Also, the
entries were to be counted as changes just after having rebuilt.
---
 src/mathic/KDTree.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/mathic/KDTree.h b/src/mathic/KDTree.h
index bdde0bb..2768562 100755
--- a/src/mathic/KDTree.h
+++ b/src/mathic/KDTree.h
@@ -154,16 +154,17 @@ namespace mathic {
     void insert(Iter begin, Iter end) {
       if (begin == end)
         return;
-      const size_t inserted = std::distance(begin, end); 
       if (!empty()) {
         for (; begin != end; ++begin)
-          _tree.insert(*begin);
+          insert(*begin);
       } else {
-        _tree.insert(begin, end);
+        const size_t inserted = std::distance(begin, end);
+        _divMaskCalculator.rebuild(begin, end, getConfiguration());
+        _tree.reset(begin, end, _divMaskCalculator);
+        _size = inserted;
         // insert into empty container is equivalent to rebuild
         resetNumberOfChangesTillRebuild();
       }
-      reportChanges(inserted, 0);
     }
 
     /** Removes an element whose exponents are equal to monomial's. Returns
-- 
2.43.0


From 9cc8010d262f180f582b8b130dec16bc9937bc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:26 +0000
Subject: [PATCH 10/30] fix: BinaryKDTree::removeElement does not compile

---
 src/mathic/BinaryKDTree.h | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/mathic/BinaryKDTree.h b/src/mathic/BinaryKDTree.h
index 3366ec4..f980403 100755
--- a/src/mathic/BinaryKDTree.h
+++ b/src/mathic/BinaryKDTree.h
@@ -123,7 +123,11 @@ namespace mathic {
       }
 
       Node& getChildFor(const ExtEntry& entry, const C& conf) {
-        if (getExponent() < conf.getExponent(entry.get(), getVar()))
+        return getChildForExponent(conf.getExponent(entry.get(), getVar()));
+      }
+
+      Node& getChildForExponent(const Exponent& exponent) {
+        if (getExponent() < exponent)
           return getStrictlyGreater();
         else
           return getEqualOrLess();
@@ -288,12 +292,15 @@ namespace mathic {
   bool BinaryKDTree<C>::removeElement(const Monomial& monomial) {
     MATHIC_ASSERT(_tmp.empty());
     if (_root == 0)
-      return 0;
+      return false;
     Node* node = _root;
 
-    while (node->isInterior())
-      node = node->asInterior().getChildFor(monomial, _conf);
-    const bool value = node->asLeaf().removeElement(monomial);
+    while (node->isInterior()) {
+      Interior& interior = node->asInterior();
+      node = &interior.getChildForExponent
+        (_conf.getExponent(monomial, interior.getVar()));
+    }
+    const bool value = node->asLeaf().entries().removeElement(monomial, _conf);
     MATHIC_ASSERT(debugIsValid());
     return value;
   }
-- 
2.43.0


From 9a591afd993b0adbe169a32f37919f01444a7dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:26 +0000
Subject: [PATCH 11/30] fix: KDTree::removeElement leaves a stale size and
 divisor cache

The number of entries was not updated, and findDivisor could return the
cached entry after it had been removed.
---
 src/mathic/KDTree.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mathic/KDTree.h b/src/mathic/KDTree.h
index 2768562..b00dac9 100755
--- a/src/mathic/KDTree.h
+++ b/src/mathic/KDTree.h
@@ -173,7 +173,10 @@ namespace mathic {
       MATHIC_ASSERT(C::AllowRemovals);
       if (!C::AllowRemovals)
         throw std::logic_error("Removal request while removals disabled.");
-      return _tree.removeElement(monomial);
+      if (!_tree.removeElement(monomial))
+        return false;
+      reportChanges(0, 1);
+      return true;
     }
 
     /** Returns a pointer to an entry that divides monomial. Returns null if no
-- 
2.43.0


From 1c0591801390a1fdd7b57116545b4abd6ebe05d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:10 +0000
Subject: [PATCH 12/30] fix: HashTable::remove does not compile

It used names that do not exist and a default constructor that Handle does
not have. Also count the bins that insert starts to use, as remove counts
the ones that become empty.
---
 src/mathic/HashTable.h | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/mathic/HashTable.h b/src/mathic/HashTable.h
index b0cde83..576af8a 100755
--- a/src/mathic/HashTable.h
+++ b/src/mathic/HashTable.h
@@ -184,6 +184,7 @@ namespace mathic {
       {
 	result = makeNode(k,v);
 	mHashTable[hashval] = result;
+	mBinCount++;
       }
     else
       {
@@ -238,17 +239,13 @@ namespace mathic {
   void HashTable<C>::remove(Handle *& p) 
   {
     mNodeCount--;
-    size_t const hashval = mConf.hashvalue(p->key) & mHashMask;
-    Handle head;
-    Handle* tmpNode = mHashTable[hashval];
-    head.next = tmpNode;
-    for (Handle* q = &head; q->next != 0; q = q->next) 
+    size_t const hashval = mConf.hash(p->key()) & mHashMask;
+    for (Handle** q = &mHashTable[hashval]; *q != 0; q = &(*q)->next)
       {
-	if (q->next == p) 
+	if (*q == p)
 	  {
-	    q->next = p->next;
-	    mHashTable[hashval] = head.next;
-	    if (head.next == 0) mBinCount--;
+	    *q = p->next;
+	    if (mHashTable[hashval] == 0) mBinCount--;
 	    //TODO: call destructor for pair, then call 'free' with the mNodePool
 	    return;
 	  }
-- 
2.43.0


From e3ce1a5693aee6f891133361767232af3b4a84d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:10 +0000
Subject: [PATCH 13/30] fix: HashTable::hardReset is declared but not defined

---
 src/mathic/HashTable.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mathic/HashTable.h b/src/mathic/HashTable.h
index 576af8a..2dc8141 100755
--- a/src/mathic/HashTable.h
+++ b/src/mathic/HashTable.h
@@ -163,6 +163,14 @@ namespace mathic {
     mNodePool.freeAllBuffers();
   }
 
+  template<class C>
+  void HashTable<C>::hardReset() {
+    mHashTable.assign(mTableSize, 0);
+    mNodeCount = 0;
+    mBinCount = 0;
+    reset();
+  }
+
   template<class C>
   typename HashTable<C>::Handle *HashTable<C>::makeNode(const Key &k, const Value &v)
   {
-- 
2.43.0


From 46d6deaf1af1751566017c517e834c6f2dc09712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:34 +0000
Subject: [PATCH 14/30] fix: DivList::getMemoryUse does not compile for linked
 lists

---
 src/mathic/DivList.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/mathic/DivList.h b/src/mathic/DivList.h
index 03cf87d..645b1b7 100755
--- a/src/mathic/DivList.h
+++ b/src/mathic/DivList.h
@@ -274,6 +274,17 @@ namespace mathic {
       return removedCount;
     }
 
+    template<class E>
+      size_t getMemoryUse(const std::vector<E>& list) {
+      return list.capacity() * sizeof(E);
+    }
+
+    template<class E>
+      size_t getMemoryUse(const std::list<E>& list) {
+      // each node has a pointer to the next and to the previous node
+      return list.size() * (sizeof(E) + 2 * sizeof(void*));
+    }
+
     template<class E, class It>
       void moveToFront(std::vector<E>& list, It pos) {
       E valueToMove = *pos;
@@ -609,7 +620,7 @@ namespace mathic {
 
   template<class C>
   size_t DivList<C>::getMemoryUse() const {
-	return _list.capacity() * sizeof(_list.front());
+	return DivListHelper::getMemoryUse(_list);
   }
 }
 
-- 
2.43.0


From a2f59ffc696f2cedebdbcb381ce4431e247261fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:34 +0000
Subject: [PATCH 15/30] fix: ColumnPrinter reads past its table of units for
 large numbers

withSIPrefix and bytesInUnit used the unit after the last one in the table
from 999.95T and 1023.95TB on. With these units every 64 bit number has one.
---
 src/mathic/ColumnPrinter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mathic/ColumnPrinter.cpp b/src/mathic/ColumnPrinter.cpp
index a20e3ef..d19705c 100755
--- a/src/mathic/ColumnPrinter.cpp
+++ b/src/mathic/ColumnPrinter.cpp
@@ -236,7 +236,7 @@ namespace mathic {
 	if (l < 1000)
       out << l;
     else {
-	  const char* const units[] = {"k", "M", "G", "T"};
+	  const char* const units[] = {"k", "M", "G", "T", "P", "E"};
 	  const size_t unitCount = sizeof(units) / sizeof(*units);
 	  double amount = static_cast<double>(l) / 1000.0;
 	  size_t i = 0;
@@ -254,7 +254,7 @@ namespace mathic {
 	if (bytes < 1024)
 	  out << bytes << 'B';
     else {
-	  const char* const units[] = {"kB", "MB", "GB", "TB"};
+	  const char* const units[] = {"kB", "MB", "GB", "TB", "PB", "EB"};
 	  const size_t unitCount = sizeof(units) / sizeof(*units);
 	  double amount = static_cast<double>(bytes) / 1024.0;
 	  size_t i = 0;
-- 
2.43.0


From cdbddc0420486a2e9f8ac0a7f3498c4b7c6f697d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:34 +0000
Subject: [PATCH 16/30] fix: ColumnPrinter::percentInteger overflows for large
 numerators

---
 src/mathic/ColumnPrinter.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mathic/ColumnPrinter.cpp b/src/mathic/ColumnPrinter.cpp
index d19705c..9f843e8 100755
--- a/src/mathic/ColumnPrinter.cpp
+++ b/src/mathic/ColumnPrinter.cpp
@@ -174,7 +174,10 @@ namespace mathic {
     const unsigned long long numerator,
     const unsigned long long denominator
   ) {
-    return ratioInteger(numerator * 100, denominator) + '%';
+    if (denominator == 0)
+      return ratioInteger(numerator, denominator) + '%';
+    // the multiplication could overflow if done on integers
+    return oneDecimal(static_cast<double>(numerator) * 100 / denominator) + '%';
   }
 
   std::string ColumnPrinter::percentDouble(
-- 
2.43.0


From 5911b33fd63d7d8cf2f8c161a7713ccd1c75bb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:34 +0000
Subject: [PATCH 17/30] fix: IntegerParameter takes on the value of an argument
 it rejects

---
 src/mathic/IntegerParameter.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mathic/IntegerParameter.cpp b/src/mathic/IntegerParameter.cpp
index f17cf32..22f4de2 100755
--- a/src/mathic/IntegerParameter.cpp
+++ b/src/mathic/IntegerParameter.cpp
@@ -24,13 +24,15 @@ namespace mathic {
 
   void IntegerParameter::processArgument(const std::string& argument) {
     std::istringstream in(argument);
-    in >> _value;
+    unsigned int newValue = _value;
+    in >> newValue;
     std::ostringstream out;
-    out << _value;
+    out << newValue;
     if (out.str() != argument) {
       reportError("The value given to option -" + name() + " was not "
         "as expected. It must be a non-negative integer in the range "
         "[0, 2^31-1].");
     }
+    _value = newValue;
   }
 }
-- 
2.43.0


From dc4b0737a76844c9c6bdc809fd4a22cd971dd352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:34 +0000
Subject: [PATCH 18/30] fix: CliParser::registerHelpAction is declared but not
 defined

---
 src/mathic/CliParser.cpp | 204 ++++++++++++++++++++-------------------
 1 file changed, 107 insertions(+), 97 deletions(-)

diff --git a/src/mathic/CliParser.cpp b/src/mathic/CliParser.cpp
index e45b457..074ecfe 100644
--- a/src/mathic/CliParser.cpp
+++ b/src/mathic/CliParser.cpp
@@ -1,97 +1,107 @@
-#include "CliParser.h"
-
-#include "error.h"
-#include "CliParameter.h"
-
-namespace mathic {
-  namespace {
-    // We are using a NameFactory just for its prefix-finding functionality, so
-    // we set the thing being created to be just void pointers that are null.
-    typedef void* Dummy;
-    typedef NameFactory<Dummy> ParamNames;
-    ParamNames makeParamNames(std::vector<CliParameter*> params) {
-      ParamNames names("option");
-      for (size_t i = 0; i < params.size(); ++i) {
-        const auto makeNull = [](){return std::unique_ptr<Dummy>();};
-        names.registerProduct(params[i]->name(), makeNull);
-      }
-      return names;
-    }
-  }
-
-  void CliParser::pushBackRegisteredActionNames(
-    std::vector<std::string>& names
-  ) const {
-    _actions.namesWithPrefix("", names);
-  }
-
-
-  CliParser::CliParser(): _actions("action") {}
-
-  std::unique_ptr<Action> CliParser::createActionWithPrefix(
-    const std::string& prefix
-  ) {
-    return createWithPrefix(_actions, prefix);
-  }
-
-  std::unique_ptr<Action> CliParser::parse(int argc, char** argv) {
-    std::vector<std::string> commandLine(argv, argv + argc);
-    return parse(commandLine);
-  }
-
-  std::unique_ptr<Action> CliParser::parse
-    (const std::vector<std::string>& commandLine) {
-    if (commandLine.empty())
-      throwError<UnknownNameException>("No action specified.");
-    std::unique_ptr<Action> action = createActionWithPrefix(commandLine[0]);
-
-    std::vector<CliParameter*> params;
-    action->pushBackParameters(params);
-    ParamNames paramNames = makeParamNames(params);
-
-    std::vector<std::string> options;
-    std::vector<std::string> directOptions;
-    bool sawDash = false;
-    for (size_t i = 1; i < commandLine.size(); ++i) {
-      if (commandLine[i].empty())
-        continue;
-      if (commandLine[i][0] == '-')
-        sawDash = true;
-      if (sawDash)
-        options.push_back(commandLine[i]);
-      else
-        directOptions.push_back(commandLine[i]);
-    }
-
-    action->directOptions(directOptions, *this);
-
-    size_t i = 1;
-    for (size_t i = 0; i < options.size(); ++i) {
-      std::string const& token = options[i];
-      if (token[0] != '-')
-        reportError("Expected an option when reading \"" +
-                    token + "\", but options start with a dash (-).\n");
-      std::string noDash(token.begin() + 1, token.end());
-      std::string name = uniqueNameWithPrefix(paramNames, noDash);
-
-      std::string optionArgument;
-      if (i + 1 < options.size() && options[i + 1][0] != '-') {
-        optionArgument = options[i + 1];
-        ++i;
-      }
-
-      for (std::vector<CliParameter*>::iterator it = params.begin();; ++it) {
-        if (it == params.end()) {
-          // shouldn't get here as name was recognized above
-          reportInternalError("Processing non-existent option \""
-            + name + "\".");
-        }
-        if ((*it)->name() == name) {
-          (*it)->processArgument(optionArgument);
-          break;
-        }
-      }
-    }
-    return action;
-  }
-}
+#include "CliParser.h"
+
+#include "error.h"
+#include "CliParameter.h"
+#include "HelpAction.h"
+
+namespace mathic {
+  namespace {
+    // We are using a NameFactory just for its prefix-finding functionality, so
+    // we set the thing being created to be just void pointers that are null.
+    typedef void* Dummy;
+    typedef NameFactory<Dummy> ParamNames;
+    ParamNames makeParamNames(std::vector<CliParameter*> params) {
+      ParamNames names("option");
+      for (size_t i = 0; i < params.size(); ++i) {
+        const auto makeNull = [](){return std::unique_ptr<Dummy>();};
+        names.registerProduct(params[i]->name(), makeNull);
+      }
+      return names;
+    }
+  }
+
+  void CliParser::pushBackRegisteredActionNames(
+    std::vector<std::string>& names
+  ) const {
+    _actions.namesWithPrefix("", names);
+  }
+
+
+  CliParser::CliParser(): _actions("action") {}
+
+  void CliParser::registerHelpAction(
+    const std::string& preMessage,
+    const std::string& postMessage
+  ) {
+    _helpPreMessage = preMessage;
+    _helpPostMessage = postMessage;
+    registerAction<HelpAction>();
+  }
+
+  std::unique_ptr<Action> CliParser::createActionWithPrefix(
+    const std::string& prefix
+  ) {
+    return createWithPrefix(_actions, prefix);
+  }
+
+  std::unique_ptr<Action> CliParser::parse(int argc, char** argv) {
+    std::vector<std::string> commandLine(argv, argv + argc);
+    return parse(commandLine);
+  }
+
+  std::unique_ptr<Action> CliParser::parse
+    (const std::vector<std::string>& commandLine) {
+    if (commandLine.empty())
+      throwError<UnknownNameException>("No action specified.");
+    std::unique_ptr<Action> action = createActionWithPrefix(commandLine[0]);
+
+    std::vector<CliParameter*> params;
+    action->pushBackParameters(params);
+    ParamNames paramNames = makeParamNames(params);
+
+    std::vector<std::string> options;
+    std::vector<std::string> directOptions;
+    bool sawDash = false;
+    for (size_t i = 1; i < commandLine.size(); ++i) {
+      if (commandLine[i].empty())
+        continue;
+      if (commandLine[i][0] == '-')
+        sawDash = true;
+      if (sawDash)
+        options.push_back(commandLine[i]);
+      else
+        directOptions.push_back(commandLine[i]);
+    }
+
+    action->directOptions(directOptions, *this);
+
+    size_t i = 1;
+    for (size_t i = 0; i < options.size(); ++i) {
+      std::string const& token = options[i];
+      if (token[0] != '-')
+        reportError("Expected an option when reading \"" +
+                    token + "\", but options start with a dash (-).\n");
+      std::string noDash(token.begin() + 1, token.end());
+      std::string name = uniqueNameWithPrefix(paramNames, noDash);
+
+      std::string optionArgument;
+      if (i + 1 < options.size() && options[i + 1][0] != '-') {
+        optionArgument = options[i + 1];
+        ++i;
+      }
+
+      for (std::vector<CliParameter*>::iterator it = params.begin();; ++it) {
+        if (it == params.end()) {
+          // shouldn't get here as name was recognized above
+          reportInternalError("Processing non-existent option \""
+            + name + "\".");
+        }
+        if ((*it)->name() == name) {
+          (*it)->processArgument(optionArgument);
+          break;
+        }
+      }
+    }
+    return action;
+  }
+}
-- 
2.43.0


From 99d44239acf0d3c31d8406f3f40941dbe66957cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:56 +0000
Subject: [PATCH 19/30] fix: display puts an empty line before a word too long
 for its line

The prefix and the indentation counted as something printed on the line
already, so a line that begins with a word wider than the console was
preceded by a line of only prefix and indentation.
---
 src/mathic/display.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mathic/display.cpp b/src/mathic/display.cpp
index a149a40..dbd8983 100755
--- a/src/mathic/display.cpp
+++ b/src/mathic/display.cpp
@@ -84,7 +84,8 @@ namespace mathic {
         // the first thing we are printing on this line. That is because
         // there then is no way to fit the word on one line.
 	    size_t wordAndPrefixSize = word.size() + wordSpacePrefix.size();
-	    if (_lineSize != 0 && _lineSize + wordAndPrefixSize  > ConsoleWidth) {
+	    if (_lineSize > _prefix.size() + _indentation.size() &&
+            _lineSize + wordAndPrefixSize  > ConsoleWidth) {
 		  // we skip space before word if inserting newline
 		  newLine();
 		  printRaw(_prefix);
-- 
2.43.0


From 518970cf6f9856a08f62cc2d5e3bc0b96f112cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:03 +0000
Subject: [PATCH 20/30] fix: destruct pair data with its own row in the debug
 check of PairQueue

In a build with MATHIC_DEBUG, adding a column constructs the data of each
pair to check the order of the range. The data of (col, *it) was destructed
as if it were that of (col, *prevIt).
---
 src/mathic/PairQueue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mathic/PairQueue.h b/src/mathic/PairQueue.h
index 8eb6efa..a253faa 100755
--- a/src/mathic/PairQueue.h
+++ b/src/mathic/PairQueue.h
@@ -418,7 +418,7 @@ namespace mathic {
 		  (!conf.cmpLessThan(conf.compare(col, *prevIt, *prevPd,
 										  col, *it, *currentPd)));
 		PairQueueNamespace::
-		  destructPairData(currentPd.get(), col, *prevIt, conf);
+		  destructPairData(currentPd.get(), col, *it, conf);
 		PairQueueNamespace::destructPairData(prevPd.get(), col, *prevIt, conf);
 	  }
 	}
-- 
2.43.0


From 866111c7592968dbf7ea2edc3742d9a762825538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:14 +0000
Subject: [PATCH 21/30] fix: keep KDTree searches correct when user code throws
 or searches within one

The nodes left to visit are collected in a member that must be empty between
searches. An exception of proceed, divides or getExponent left nodes in it,
so the next search visited them and gave out entries twice. A search from
within proceed of another one had the other's nodes taken away or visited.
The member now only lends its memory to a local vector.
---
 src/mathic/BinaryKDTree.h | 79 +++++++++++++++++++++++++--------------
 src/mathic/PackedKDTree.h | 79 +++++++++++++++++++++++++--------------
 2 files changed, 100 insertions(+), 58 deletions(-)

diff --git a/src/mathic/BinaryKDTree.h b/src/mathic/BinaryKDTree.h
index f980403..d3e6253 100755
--- a/src/mathic/BinaryKDTree.h
+++ b/src/mathic/BinaryKDTree.h
@@ -266,6 +266,9 @@ namespace mathic {
     MATHIC_ASSERT(_tmp.empty());
     if (_root == 0)
       return 0;
+    // not _tmp itself, as the code of the user can throw or search this tree
+    std::vector<Node*> todo;
+    todo.swap(_tmp);
     size_t removedCount = 0;
     Node* node = _root;
     while (true) {
@@ -273,17 +276,18 @@ namespace mathic {
         Interior& interior = node->asInterior();
         if (!(interior.getExponent() <
               _conf.getExponent(extMonomial.get(), interior.getVar())))
-          _tmp.push_back(&interior.getEqualOrLess());
+          todo.push_back(&interior.getEqualOrLess());
         node = &interior.getStrictlyGreater();
       }
       MATHIC_ASSERT(node->isLeaf());
       removedCount += node->asLeaf().entries().removeMultiples(extMonomial, out, _conf);
-      if (_tmp.empty())
+      if (todo.empty())
         break;
-      node = _tmp.back();
-      _tmp.pop_back();
+      node = todo.back();
+      todo.pop_back();
     }
-    MATHIC_ASSERT(_tmp.empty());
+    MATHIC_ASSERT(todo.empty());
+    todo.swap(_tmp);
     MATHIC_ASSERT(debugIsValid());
     return removedCount;
   }
@@ -435,6 +439,9 @@ namespace mathic {
     MATHIC_ASSERT(_tmp.empty());
     if (_root == 0)
       return 0;
+    // not _tmp itself, as the code of the user can throw or search this tree
+    std::vector<Node*> todo;
+    todo.swap(_tmp);
     Node* node = _root;
     while (true) {
       while (node->isInterior()) {
@@ -445,7 +452,7 @@ namespace mathic {
 
         if (interior.getExponent() <
             _conf.getExponent(extMonomial.get(), interior.getVar()))
-          _tmp.push_back(&interior.getStrictlyGreater());
+          todo.push_back(&interior.getStrictlyGreater());
         node = &interior.getEqualOrLess();
       }
 
@@ -455,17 +462,19 @@ namespace mathic {
         LeafIt leafIt = leaf.entries().findDivisor(extMonomial, _conf);
         if (leafIt != leaf.entries().end()) {
           MATHIC_ASSERT(_conf.divides(leafIt->get(), extMonomial.get()));
-          _tmp.clear();
+          todo.clear();
+          todo.swap(_tmp);
           return &leafIt->get();
         }
       }
     next:
-      if (_tmp.empty())
+      if (todo.empty())
         break;
-      node = _tmp.back();
-      _tmp.pop_back();
+      node = todo.back();
+      todo.pop_back();
     }
-    MATHIC_ASSERT(_tmp.empty());
+    MATHIC_ASSERT(todo.empty());
+    todo.swap(_tmp);
     return 0;
   }
 
@@ -475,6 +484,9 @@ namespace mathic {
     MATHIC_ASSERT(_tmp.empty());
     if (_root == 0)
       return;
+    // not _tmp itself, as the code of the user can throw or search this tree
+    std::vector<Node*> todo;
+    todo.swap(_tmp);
     Node* node = _root;
     while (true) {
       while (node->isInterior()) {
@@ -484,24 +496,25 @@ namespace mathic {
           goto next;
         if (interior.getExponent() <
             _conf.getExponent(extMonomial.get(), interior.getVar()))
-          _tmp.push_back(&interior.getStrictlyGreater());
+          todo.push_back(&interior.getStrictlyGreater());
         node = &interior.getEqualOrLess();
       }
       MATHIC_ASSERT(node->isLeaf());
       {
         Leaf& leaf = node->asLeaf();
         if (!leaf.entries().findAllDivisors(extMonomial, output, _conf)) {
-          _tmp.clear();
+          todo.clear();
           break;
         }
       }
 next:
-      if (_tmp.empty())
+      if (todo.empty())
         break;
-      node = _tmp.back();
-      _tmp.pop_back();
+      node = todo.back();
+      todo.pop_back();
     }
-    MATHIC_ASSERT(_tmp.empty());
+    MATHIC_ASSERT(todo.empty());
+    todo.swap(_tmp);
   }
 
   template<class C>
@@ -510,30 +523,34 @@ next:
     MATHIC_ASSERT(_tmp.empty());
     if (_root == 0)
       return;
+    // not _tmp itself, as the code of the user can throw or search this tree
+    std::vector<Node*> todo;
+    todo.swap(_tmp);
     Node* node = _root;
     while (true) {
       while (node->isInterior()) {
         Interior& interior = node->asInterior();
         if (!(interior.getExponent() <
             _conf.getExponent(extMonomial.get(), interior.getVar())))
-          _tmp.push_back(&interior.getEqualOrLess());
+          todo.push_back(&interior.getEqualOrLess());
         node = &interior.getStrictlyGreater();
       }
       MATHIC_ASSERT(node->isLeaf());
       {
         Leaf& leaf = node->asLeaf();
         if (!leaf.entries().findAllMultiples(extMonomial, output, _conf)) {
-          _tmp.clear();
+          todo.clear();
           break;
         }
       }
 next:
-      if (_tmp.empty())
+      if (todo.empty())
         break;
-      node = _tmp.back();
-      _tmp.pop_back();
+      node = todo.back();
+      todo.pop_back();
     }
-    MATHIC_ASSERT(_tmp.empty());
+    MATHIC_ASSERT(todo.empty());
+    todo.swap(_tmp);
   }
 
   template<class C>
@@ -542,25 +559,29 @@ next:
     MATHIC_ASSERT(_tmp.empty());
     if (_root == 0)
       return;
+    // not _tmp itself, as the code of the user can throw or search this tree
+    std::vector<Node*> todo;
+    todo.swap(_tmp);
     Node* node = _root;
     while (true) {
       while (node->isInterior()) {
         Interior& interior = node->asInterior();
-        _tmp.push_back(&interior.getStrictlyGreater());
+        todo.push_back(&interior.getStrictlyGreater());
         node = &interior.getEqualOrLess();
       }
       MATHIC_ASSERT(node->isLeaf());
       Leaf& leaf = node->asLeaf();
       if (!leaf.entries().forAll(output)) {
-        _tmp.clear();
+        todo.clear();
         break;
       }
-      if (_tmp.empty())
+      if (todo.empty())
         break;
-      node = _tmp.back();
-      _tmp.pop_back();
+      node = todo.back();
+      todo.pop_back();
     }
-    MATHIC_ASSERT(_tmp.empty());
+    MATHIC_ASSERT(todo.empty());
+    todo.swap(_tmp);
   }
 
   template<class C>
diff --git a/src/mathic/PackedKDTree.h b/src/mathic/PackedKDTree.h
index 19dd091..be13ae0 100755
--- a/src/mathic/PackedKDTree.h
+++ b/src/mathic/PackedKDTree.h
@@ -221,23 +221,27 @@ namespace mathic {
     MATHIC_ASSERT(_tmp.empty());
     if (_root == 0)
       return 0;
+    // not _tmp itself, as the code of the user can throw or search this tree
+    std::vector<Node*> todo;
+    todo.swap(_tmp);
     size_t removedCount = 0;
     Node* node = _root;
     while (true) {
       for (typename Node::const_iterator it = node->childBegin();
         it != node->childEnd(); ++it) {
-        _tmp.push_back(it->node);
+        todo.push_back(it->node);
         if (node->inChild(it, extMonomial.get(), _conf))
           goto stopped;
       }
       removedCount += node->entries().removeMultiples(extMonomial, out, _conf);
 stopped:;
-      if (_tmp.empty())
+      if (todo.empty())
         break;
-      node = _tmp.back();
-      _tmp.pop_back();
+      node = todo.back();
+      todo.pop_back();
     }
-    MATHIC_ASSERT(_tmp.empty());
+    MATHIC_ASSERT(todo.empty());
+    todo.swap(_tmp);
     MATHIC_ASSERT(debugIsValid());
     return removedCount;
   }
@@ -399,6 +403,9 @@ stopped:;
     MATHIC_ASSERT(_tmp.empty());
     if (_root == 0)
       return 0;
+    // not _tmp itself, as the code of the user can throw or search this tree
+    std::vector<Node*> todo;
+    todo.swap(_tmp);
     Node* node = _root;
     while (true) {
       // record relevant children for later processing
@@ -408,7 +415,7 @@ stopped:;
           !it->getDivMask().canDivide(extMonomial.getDivMask()))
           goto next;
         if (node->inChild(it, extMonomial.get(), _conf))
-          _tmp.push_back(it->node);
+          todo.push_back(it->node);
       }
 
       // look for divisor in entries of node
@@ -417,19 +424,21 @@ stopped:;
           node->entries().findDivisor(extMonomial, _conf);
         if (it != node->entries().end()) {
           MATHIC_ASSERT(_conf.divides(it->get(), extMonomial.get()));
-          _tmp.clear();
+          todo.clear();
+          todo.swap(_tmp);
           return &it->get();
         }
       }
 
 next:
       // grab next node to process
-      if (_tmp.empty())
+      if (todo.empty())
         break;
-      node = _tmp.back();
-      _tmp.pop_back();
+      node = todo.back();
+      todo.pop_back();
     }
-    MATHIC_ASSERT(_tmp.empty());
+    MATHIC_ASSERT(todo.empty());
+    todo.swap(_tmp);
     return 0;
   }
 
@@ -442,6 +451,9 @@ next:
     MATHIC_ASSERT(_tmp.empty());
     if (_root == 0)
       return;
+    // not _tmp itself, as the code of the user can throw or search this tree
+    std::vector<Node*> todo;
+    todo.swap(_tmp);
     Node* node = _root;
     while (true) {
       for (typename Node::const_iterator it = node->childBegin();
@@ -450,19 +462,20 @@ next:
           !it->getDivMask().canDivide(extMonomial.getDivMask()))
           goto next; // div mask rules this sub tree out
         if (node->inChild(it, extMonomial.get(), _conf))
-          _tmp.push_back(it->node);
+          todo.push_back(it->node);
       }
       if (!node->entries().findAllDivisors(extMonomial, output, _conf)) {
-        _tmp.clear();
+        todo.clear();
         break;
       }
 next:
-      if (_tmp.empty())
+      if (todo.empty())
         break;
-      node = _tmp.back();
-      _tmp.pop_back();
+      node = todo.back();
+      todo.pop_back();
     }
-    MATHIC_ASSERT(_tmp.empty());
+    MATHIC_ASSERT(todo.empty());
+    todo.swap(_tmp);
   }
 
   template<class C>
@@ -474,25 +487,29 @@ next:
     MATHIC_ASSERT(_tmp.empty());
     if (_root == 0)
       return;
+    // not _tmp itself, as the code of the user can throw or search this tree
+    std::vector<Node*> todo;
+    todo.swap(_tmp);
     Node* node = _root;
     while (true) {
       for (typename Node::const_iterator it = node->childBegin();
         it != node->childEnd(); ++it) {
-          _tmp.push_back(it->node);
+          todo.push_back(it->node);
           if (node->inChild(it, extMonomial.get(), _conf))
             goto next;
       }
       if (!node->entries().findAllMultiples(extMonomial, output, _conf)) {
-        _tmp.clear();
+        todo.clear();
         break;
       }
 next:
-      if (_tmp.empty())
+      if (todo.empty())
         break;
-      node = _tmp.back();
-      _tmp.pop_back();
+      node = todo.back();
+      todo.pop_back();
     }
-    MATHIC_ASSERT(_tmp.empty());
+    MATHIC_ASSERT(todo.empty());
+    todo.swap(_tmp);
   }
 
   template<class C>
@@ -501,21 +518,25 @@ next:
     MATHIC_ASSERT(_tmp.empty());
     if (_root == 0)
       return;
+    // not _tmp itself, as the code of the user can throw or search this tree
+    std::vector<Node*> todo;
+    todo.swap(_tmp);
     Node* node = _root;
     while (true) {
       if (!node->entries().forAll(output)) {
-        _tmp.clear();
+        todo.clear();
         break;
       }
       for (typename Node::iterator it = node->childBegin();
         it != node->childEnd(); ++it)
-        _tmp.push_back(it->node);
-      if (_tmp.empty())
+        todo.push_back(it->node);
+      if (todo.empty())
         break;
-      node = _tmp.back();
-      _tmp.pop_back();
+      node = todo.back();
+      todo.pop_back();
     }
-    MATHIC_ASSERT(_tmp.empty());
+    MATHIC_ASSERT(todo.empty());
+    todo.swap(_tmp);
   }
 
   template<class C>
-- 
2.43.0


From db38d86ecdbf536f090c2f713bb3fd83dd6ef4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:24 +0000
Subject: [PATCH 22/30] fix: dupSpans divides by zero for spans of average size
 1

The deviation is then 0 and rand() % (2 * 0) is undefined. Also, the size
was up to the deviation below the average, but never as far above it.
---
 src/pqsim/Simulator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pqsim/Simulator.cpp b/src/pqsim/Simulator.cpp
index 8ff8c10..5497312 100755
--- a/src/pqsim/Simulator.cpp
+++ b/src/pqsim/Simulator.cpp
@@ -159,7 +159,7 @@ void Simulator::dupSpans
 
     if (doPush) {
       const size_t size =
-        avgSpan - spanDeviation + rand() % (2 * spanDeviation);
+        avgSpan - spanDeviation + rand() % (2 * spanDeviation + 1);
       sim.beginPush();
       for (size_t i = 0; i < size; ++i) {
         if (!sim.noLive() &&
-- 
2.43.0


From 2da88cb04eca549c71ca4d6dfa7e2be9e9fb8231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:24 +0000
Subject: [PATCH 23/30] fix: dupSpans goes on pushing after its goal is reached

Pushing stopped only if the goal was met exactly, but the spans have random
sizes, so the number of pushed entries can step over the goal.
---
 src/pqsim/Simulator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pqsim/Simulator.cpp b/src/pqsim/Simulator.cpp
index 5497312..4916e8b 100755
--- a/src/pqsim/Simulator.cpp
+++ b/src/pqsim/Simulator.cpp
@@ -152,7 +152,7 @@ void Simulator::dupSpans
 
   while (sim.getPushSum() < pushSumGoal || !sim.noLive()) {
     bool doPush = (sim.getAvgLiveCount() < avgLiveGoal);
-    if (sim.getPushSum() == pushSumGoal)
+    if (sim.getPushSum() >= pushSumGoal)
       doPush = false;
     else if (sim.noLive())
       doPush = true;
-- 
2.43.0


From 3baf5bb4c984e44addf59f2ae367d92427e34cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:24 +0000
Subject: [PATCH 24/30] fix: dupSpans makes duplicates also for a percentage of
 0

A percentage of p had a probability of p + 1 in 100.
---
 src/pqsim/Simulator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pqsim/Simulator.cpp b/src/pqsim/Simulator.cpp
index 4916e8b..7768031 100755
--- a/src/pqsim/Simulator.cpp
+++ b/src/pqsim/Simulator.cpp
@@ -163,7 +163,7 @@ void Simulator::dupSpans
       sim.beginPush();
       for (size_t i = 0; i < size; ++i) {
         if (!sim.noLive() &&
-          static_cast<size_t>(rand() % 100) <= dupPercentage) {
+          static_cast<size_t>(rand() % 100) < dupPercentage) {
           Value v;
           size_t tries = 0;
           // if there are only fewer elements to duplicate than there
-- 
2.43.0


From 8d30baccbcf80783308ef4785dcc80c85772b926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:09 +0000
Subject: [PATCH 25/30] fix: makeStandard makes one insertion too many

The event after the insertions was an insertion as well, so there was one
query less than asked for.
---
 src/divsim/Simulation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/divsim/Simulation.cpp b/src/divsim/Simulation.cpp
index 49ca2f9..0373a19 100755
--- a/src/divsim/Simulation.cpp
+++ b/src/divsim/Simulation.cpp
@@ -27,7 +27,7 @@ void Simulation::makeStandard
     Event event;
     event._monomial.resize(varCount);
     makeRandom(event._monomial);
-    event._type = (i <= inserts ? InsertUnknown : QueryUnknown);
+    event._type = (i < inserts ? InsertUnknown : QueryUnknown);
     _events.push_back(event);
   }
 }
-- 
2.43.0


From f20fb5ae848b9a435a7345fd74968488f4d8a9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:58 +0000
Subject: [PATCH 26/30] fix: copying a TourTree makes a tree that points into
 the original

The implicitly declared copy constructor copied the pointers to the players, so the copy
used, and changed, the players of the original, also after the original was destroyed.
---
 src/mathic/TourTree.h | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/mathic/TourTree.h b/src/mathic/TourTree.h
index 241f28e..dc340b4 100755
--- a/src/mathic/TourTree.h
+++ b/src/mathic/TourTree.h
@@ -19,6 +19,8 @@ namespace mathic {
 	typedef typename Configuration::Entry Entry;
 
 	TourTree(const Configuration& configuration);
+	TourTree(const TourTree& tree);
+	TourTree(TourTree&& tree);
 	Configuration& getConfiguration() {return _conf;}
 	const Configuration& getConfiguration() const {return _conf;}
 
@@ -97,6 +99,25 @@ namespace mathic {
 	reallocate();
   }
 
+  template<class C>
+  TourTree<C>::TourTree(const TourTree& tree):
+	_tree(tree._tree, tree._tree.capacity()), _conf(tree._conf) {
+	// The nodes of the tree have to point to the players of this object.
+	_players.reserve(tree._players.capacity());
+	_players.insert(_players.end(), tree._players.begin(), tree._players.end());
+	for (Node pos; pos <= _tree.lastLeaf(); ++pos)
+	  _tree[pos] = &_players.front() + (_tree[pos] - &tree._players.front());
+	MATHIC_ASSERT(isValid());
+  }
+
+  template<class C>
+  TourTree<C>::TourTree(TourTree&& tree):
+	_tree(std::move(tree._tree)),
+	_players(std::move(tree._players)),
+	_conf(tree._conf) {
+	MATHIC_ASSERT(isValid());
+  }
+
   template<class C>
 	std::string TourTree<C>::getName() const {
 	return std::string("t-tree (") +
-- 
2.43.0


From 1f61136169a860e381ffdf77e35f2ecf59259d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:10 +0000
Subject: [PATCH 27/30] fix: BitTriangle keeps a column of the wrong length
 when memory runs out in addColumn

---
 src/mathic/BitTriangle.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/mathic/BitTriangle.h b/src/mathic/BitTriangle.h
index c29a4dc..33bdc1b 100755
--- a/src/mathic/BitTriangle.h
+++ b/src/mathic/BitTriangle.h
@@ -32,8 +32,7 @@ namespace mathic {
 	// columnCount(). The new bits are all set to false initially.
 	void addColumn() {
 	  size_t const oldSize = mColumns.size();
-	  mColumns.resize(oldSize + 1);
-	  mColumns[oldSize].resize(oldSize);
+	  mColumns.push_back(std::vector<bool>(oldSize));
 	}
 
 	// Returns the bit in the given column and row. As this is a triangle it
-- 
2.43.0


From 49c87b8f0e867460324aac70072f829821356a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:10 +0000
Subject: [PATCH 28/30] fix: HashTable uses a table it could not allocate when
 memory runs out while growing

---
 src/mathic/HashTable.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mathic/HashTable.h b/src/mathic/HashTable.h
index 2dc8141..4ec1a56 100755
--- a/src/mathic/HashTable.h
+++ b/src/mathic/HashTable.h
@@ -270,10 +270,11 @@ namespace mathic {
   {
     MATHIC_ASSERT(computeNodeCount() == mNodeCount);
     size_t const old_table_size = mTableSize;
+    // allocate first, so that nothing has changed if that fails
+    std::vector<Handle *> old_table(static_cast<size_t>(1) << new_nbits);
     mTableSize = static_cast<size_t>(1) << new_nbits;
     mLogTableSize = new_nbits;
     mHashMask = mTableSize-1;
-    std::vector<Handle *> old_table(mTableSize);
     std::swap(old_table, mHashTable);
 
     mBinCount = 0;
-- 
2.43.0


From 5b5fe0f38206e538e66391c9d421cbe6c4420417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:10 +0000
Subject: [PATCH 29/30] fix: DivMask::Calculator loses the meaning of its bits
 when memory runs out in rebuild

---
 src/mathic/DivMask.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/mathic/DivMask.h b/src/mathic/DivMask.h
index 96f4bb9..d88aedc 100644
--- a/src/mathic/DivMask.h
+++ b/src/mathic/DivMask.h
@@ -211,7 +211,7 @@ namespace mathic {
       return;
     }
 
-    _bits.clear();
+    BitContainer bits; // replaces _bits once nothing can fail anymore
     const size_t varCount = conf.getVarCount();
     const size_t TotalBits = sizeof(MaskType) * BitsPerByte;
 
@@ -251,7 +251,7 @@ namespace mathic {
         ++bitsForVars[var];
     }
 
-    // calculate the meaning of each bit and put it in _bits
+    // calculate the meaning of each bit and put it in bits
     for (size_t var = 0; var < varCount; ++var) {
       const size_t bitsForVar = bitsForVars[var];
       if (bitsForVar == 0)
@@ -278,7 +278,7 @@ namespace mathic {
             if (j == size)
               break;
           }
-          _bits.push_back(
+          bits.push_back(
             std::make_pair(var, conf.getExponent(begin[j], var)));
           lastJ = j;
           lastExp = conf.getExponent(begin[j], var);
@@ -303,16 +303,17 @@ namespace mathic {
         if (increment == 0)
           increment = 1;
         for (size_t i = 0; i < bitsForVar; ++i)
-          _bits.push_back(std::make_pair(var, min + increment * static_cast<Exponent>(i)));
+          bits.push_back(std::make_pair(var, min + increment * static_cast<Exponent>(i)));
            // todo: can avoid cast?
       }
     }
+    _bits.swap(bits);
   }
 
   template<class C>
     void DivMask::Calculator<C, true>::
     rebuildDefault(const C& conf) {
-    _bits.clear();
+    BitContainer bits; // replaces _bits once nothing can fail anymore
     const size_t varCount = conf.getVarCount();
     const size_t TotalBits = sizeof(MaskType) * BitsPerByte;
     for (size_t var = 0; var < varCount; ++var) {
@@ -320,10 +321,11 @@ namespace mathic {
         TotalBits / varCount + (var < TotalBits % varCount);
       Exponent exp = 0;
       for (size_t i = 0; i < bitsForVar; ++i) {
-        _bits.push_back(std::make_pair(var, exp));
+        bits.push_back(std::make_pair(var, exp));
         exp = (i == 0 ? 1 : exp * 2);
       }
     }
+    _bits.swap(bits);
   }
 
   template<class C>
-- 
2.43.0


From 2a80108ab66db534d328867a4ff9025860797771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:10 +0000
Subject: [PATCH 30/30] fix: Geobucket counts or points to what it could not
 allocate when memory runs out in push

---
 src/mathic/Geobucket.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/mathic/Geobucket.h b/src/mathic/Geobucket.h
index c443fd0..304d4fd 100755
--- a/src/mathic/Geobucket.h
+++ b/src/mathic/Geobucket.h
@@ -342,13 +342,14 @@ namespace mathic {
 
   template<class C>
 	void Geobucket<C>::push(Entry entry) {
-	++_entryCount;
 	Bucket& bucket = *_bucketBegin;
 	if (bucket.size() == bucket.capacity()) {
 	  const Entry* p = &entry;
 	  insert(_bucketBegin, p, p + 1, 1, Premerge<C::premerge>());
+	  ++_entryCount; // only now, as insert may fail to allocate memory
 	  return;
 	}
+	++_entryCount;
 	if (bucket.empty()) {
 	  bucket.push_back(entry);
 	  _front.insert(&bucket);
@@ -419,7 +420,6 @@ namespace mathic {
 	  return; // buckets in the front and the ranges being merged are non-empty
 	const size_t entryCount = end - begin;
 	const size_t adjCount = entryCount * C::insertFactor;
-	_entryCount += entryCount;
 	while (adjCount > (_bucketEnd - 1)->capacity())
 	  addBucket();
 	for (Bucket* bucket = _bucketBegin; ; ++bucket) {
@@ -431,6 +431,7 @@ namespace mathic {
 		break;
 	  }
 	}
+	_entryCount += entryCount;
 	MATHIC_SLOW_ASSERT(isValid());
   }
 
@@ -527,6 +528,11 @@ namespace mathic {
 	std::vector<Entry> newMem(required);
 	std::copy(_mem.begin(), _mem.end(), newMem.begin());
 
+	std::vector<Bucket> newBuckets;
+	newBuckets.reserve(_buckets.size() + 1);
+	_front.reserveCapacity(_buckets.size() + 1);
+	// nothing below this point can fail to allocate memory
+
 	// move to new memory buffer
 	size_t offset = 0;
 	for (Bucket* it = _bucketBegin; it != _bucketEnd; ++it) {
@@ -547,11 +553,12 @@ namespace mathic {
 	}
 	// redirect pointers in _front to point to new memory for _buckets
 	Bucket* oldBucketBegin = _bucketBegin;
-	_buckets.push_back(Bucket(newBucketSize, buffer, otherBuffer));
+	newBuckets.assign(_buckets.begin(), _buckets.end());
+	newBuckets.push_back(Bucket(newBucketSize, buffer, otherBuffer));
+	_buckets.swap(newBuckets);
 	_bucketBegin = &_buckets.front();
 	_bucketEnd = _bucketBegin + _buckets.size();
 	_front.bucketsInvalidated(oldBucketBegin, _bucketBegin);
-	_front.reserveCapacity(_bucketEnd - _bucketBegin);
 
 	_tmp = &(newMem[offset]);
 	offset += newBucketSize;
-- 
2.43.0

