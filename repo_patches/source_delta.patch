From 76cbb6f86a804c22d70abe95ed074f55947f37cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:19 +0000
Subject: [PATCH 01/19] fix: Range.Set() treats a range whose ends are
 complements as one prefix

A range such as [0.0.0.1,0.0.0.2] was stored as 0.0.0.1/30, which covers
four addresses. The xor of the ends being a run of ones is not enough: first
must also have zeroes (and so last ones) in all of those bits.
---
 ipv4/setnode.go | 5 +++--
 ipv6/setnode.go | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/ipv4/setnode.go b/ipv4/setnode.go
index 6e3c2a3..79e2c33 100644
--- a/ipv4/setnode.go
+++ b/ipv4/setnode.go
@@ -27,8 +27,9 @@ func setNodeFromRange(r Range) *setNode {
 	// The number of leading zeroes in the xor is the number of bits the two addresses have in common
 	numCommonBits := bits.LeadingZeros32(xor)
 
-	if numCommonBits == bits.OnesCount32(^xor) {
-		// This range is exactly one prefix, return a node with it.
+	if numCommonBits == bits.OnesCount32(^xor) && r.first.ui&xor == 0 {
+		// All of the bits not in common are 0 in first and 1 in last. This
+		// range is exactly one prefix, return a node with it.
 		prefix := Prefix{r.first, uint32(numCommonBits)}
 		return setNodeFromPrefix(prefix)
 	}
diff --git a/ipv6/setnode.go b/ipv6/setnode.go
index 15d788a..96f7836 100644
--- a/ipv6/setnode.go
+++ b/ipv6/setnode.go
@@ -26,8 +26,9 @@ func setNodeFromRange(r Range) *setNode {
 	// The number of leading zeroes in the xor is the number of bits the two addresses have in common
 	numCommonBits := xor.leadingZeros()
 
-	if numCommonBits == xor.complement().onesCount() {
-		// This range is exactly one prefix, return a node with it.
+	if numCommonBits == xor.complement().onesCount() && r.first.ui.and(xor) == (uint128{}) {
+		// All of the bits not in common are 0 in first and 1 in last. This
+		// range is exactly one prefix, return a node with it.
 		prefix := Prefix{r.first, uint32(numCommonBits)}
 		return setNodeFromPrefix(prefix)
 	}
-- 
2.43.0


From 35d6682546ded2b732fb3bc4ae710c1bfaf4a1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:31 +0000
Subject: [PATCH 02/19] fix: Prefix.Set() keeps the prefix's host bits

The set of 10.0.0.1/24 compared unequal to the set of 10.0.0.0/24 and walked
and printed as 10.0.0.1/24 though both contain the same addresses.
---
 ipv4/setnode.go | 11 ++++++++---
 ipv6/setnode.go | 11 ++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/ipv4/setnode.go b/ipv4/setnode.go
index 79e2c33..ff759b8 100644
--- a/ipv4/setnode.go
+++ b/ipv4/setnode.go
@@ -15,9 +15,14 @@ type setNode trieNode
 func setNodeFromPrefix(p Prefix) *setNode {
 	return &setNode{
 		isActive: true,
-		Prefix:   p,
-		size:     1,
-		h:        1,
+		Prefix: Prefix{
+			addr: Address{
+				ui: p.addr.ui & ^(uint32(0xffffffff) >> p.length), // zero out host bits
+			},
+			length: p.length,
+		},
+		size: 1,
+		h:    1,
 	}
 }
 
diff --git a/ipv6/setnode.go b/ipv6/setnode.go
index 96f7836..060059c 100644
--- a/ipv6/setnode.go
+++ b/ipv6/setnode.go
@@ -14,9 +14,14 @@ type setNode trieNode
 func setNodeFromPrefix(p Prefix) *setNode {
 	return &setNode{
 		isActive: true,
-		Prefix:   p,
-		size:     1,
-		h:        1,
+		Prefix: Prefix{
+			addr: Address{
+				ui: p.addr.ui.and(uint128{0xffffffffffffffff, 0xffffffffffffffff}.rightShift(int(p.length)).complement()), // zero out host bits
+			},
+			length: p.length,
+		},
+		size: 1,
+		h:    1,
 	}
 }
 
-- 
2.43.0


From 67962f0eacc9d1b11e0e936e1ca74073720b7def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:35 +0000
Subject: [PATCH 03/19] fix: WalkAddresses never ends on a set containing
 255.255.255.255

The loop's a <= broadcast condition is always true when the broadcast address
is the last one: the counter wraps around to 0.0.0.0.
---
 ipv4/prefix.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ipv4/prefix.go b/ipv4/prefix.go
index fef78d1..4aab429 100644
--- a/ipv4/prefix.go
+++ b/ipv4/prefix.go
@@ -211,12 +211,15 @@ func (me Prefix) Uint32() (address, mask uint32) {
 // It returns false if iteration was stopped due to a callback return false or
 // true if it iterated all items.
 func (me Prefix) walkAddresses(callback func(Address) bool) bool {
-	for a := me.Network().addr.Uint32(); a <= me.Broadcast().addr.Uint32(); a++ {
+	last := me.Broadcast().addr.Uint32()
+	for a := me.Network().addr.Uint32(); ; a++ {
 		if !callback(Address{a}) {
 			return false
 		}
+		if a == last {
+			return true
+		}
 	}
-	return true
 }
 
 // Range returns the range that includes the same addresses as the prefix
-- 
2.43.0


From 1760c2df412645a78a89212453f35cdc209384e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:39 +0000
Subject: [PATCH 04/19] fix: Range.Plus() does not merge with a range ending at
 the last address

The address following the range overflows to zero, which is less than the
start of the other range, so overlapping ranges were returned separately.
---
 ipv4/range.go | 3 ++-
 ipv6/range.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ipv4/range.go b/ipv4/range.go
index 358d71f..5a21a6d 100644
--- a/ipv4/range.go
+++ b/ipv4/range.go
@@ -84,7 +84,8 @@ func (me Range) Minus(other Range) []Range {
 // lexigraphically by their first address.
 func (me Range) Plus(other Range) []Range {
 	plus := func(a, b Range) []Range {
-		if a.next().lessThan(b.first) {
+		// a.next() overflows if a goes to the end of the IP space
+		if a.last.lessThan(b.first) && a.next().lessThan(b.first) {
 			return []Range{a, b}
 		}
 		return []Range{
diff --git a/ipv6/range.go b/ipv6/range.go
index b21c533..ca3e1ca 100644
--- a/ipv6/range.go
+++ b/ipv6/range.go
@@ -78,7 +78,8 @@ func (me Range) Minus(other Range) []Range {
 // lexigraphically by their first address.
 func (me Range) Plus(other Range) []Range {
 	plus := func(a, b Range) []Range {
-		if a.next().lessThan(b.first) {
+		// a.next() overflows if a goes to the end of the IP space
+		if a.last.lessThan(b.first) && a.next().lessThan(b.first) {
 			return []Range{a, b}
 		}
 		return []Range{
-- 
2.43.0


From 54614bc44a4f39c9f10b87631093a0c8b79926df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:43 +0000
Subject: [PATCH 05/19] fix: Table_.Remove() returns true for a prefix that has
 no entry

If the prefix happens to be where two entries' prefixes diverge, there is an
inactive node with that prefix in the trie and it was treated as an entry.
---
 ipv4/node.go | 3 +++
 ipv6/node.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/ipv4/node.go b/ipv4/node.go
index 4266026..6a30236 100644
--- a/ipv4/node.go
+++ b/ipv4/node.go
@@ -496,6 +496,9 @@ func (me *trieNode) del(key Prefix, opts deleteOpts) (newHead *trieNode, err err
 		if opts.flatten {
 			return nil, nil
 		}
+		if !me.isActive {
+			return me, fmt.Errorf("key not found")
+		}
 		// Delete this node
 		if me.children[0] == nil {
 			// At this point, it doesn't matter if it is nil or not
diff --git a/ipv6/node.go b/ipv6/node.go
index fe642b1..560d2a4 100644
--- a/ipv6/node.go
+++ b/ipv6/node.go
@@ -492,6 +492,9 @@ func (me *trieNode) del(key Prefix, opts deleteOpts) (newHead *trieNode, err err
 		if opts.flatten {
 			return nil, nil
 		}
+		if !me.isActive {
+			return me, fmt.Errorf("key not found")
+		}
 		// Delete this node
 		if me.children[0] == nil {
 			// At this point, it doesn't matter if it is nil or not
-- 
2.43.0


From 14d2003ba81ce0e1104cf58698efbfb65b64879a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:46 +0000
Subject: [PATCH 06/19] fix: Table.Aggregate() returns a table with no
 comparator

Aggregate, Diff and Map on an aggregated table dereferenced a nil comparator
and Table_() on it replaced a custom comparator with the default one.
---
 ipv4/table.go | 1 +
 ipv6/table.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/ipv4/table.go b/ipv4/table.go
index 95773e2..240de1d 100644
--- a/ipv4/table.go
+++ b/ipv4/table.go
@@ -221,6 +221,7 @@ func (me Table[T]) Aggregate() Table[T] {
 	return Table[T]{
 		tableX{
 			trie: me.t.trie.Aggregate(me.t.eq),
+			eq:   me.t.eq,
 		},
 	}
 }
diff --git a/ipv6/table.go b/ipv6/table.go
index 81889d2..5b232d8 100644
--- a/ipv6/table.go
+++ b/ipv6/table.go
@@ -221,6 +221,7 @@ func (me Table[T]) Aggregate() Table[T] {
 	return Table[T]{
 		tableX{
 			trie: me.t.trie.Aggregate(me.t.eq),
+			eq:   me.t.eq,
 		},
 	}
 }
-- 
2.43.0


From 202973a1f9890019f7f1027193c594fe7356d744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:32 +0000
Subject: [PATCH 07/19] fix: Aggregate() calls a custom comparator with nil
 data

Aggregating a table where two prefixes diverge at an inactive node compared
the data of that node, which is nil, and a custom comparator's type assertion
panicked.
---
 ipv4/node.go | 3 ++-
 ipv6/node.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ipv4/node.go b/ipv4/node.go
index 6a30236..72f81ea 100644
--- a/ipv4/node.go
+++ b/ipv4/node.go
@@ -760,7 +760,8 @@ func (me *trieNode) aggregate(parentUmbrella *umbrella, eq comparator) (result *
 	data := me.Data
 	children := me.children
 	createReturnValue := func() *trieNode {
-		if isActive == me.isActive && children == me.children && eq(data, me.Data) {
+		// inactive nodes have no data to compare
+		if isActive == me.isActive && children == me.children && (!isActive || eq(data, me.Data)) {
 			return me
 		}
 		return me.copyMutate(func(n *trieNode) {
diff --git a/ipv6/node.go b/ipv6/node.go
index 560d2a4..5d53c33 100644
--- a/ipv6/node.go
+++ b/ipv6/node.go
@@ -756,7 +756,8 @@ func (me *trieNode) aggregate(parentUmbrella *umbrella, eq comparator) (result *
 	data := me.Data
 	children := me.children
 	createReturnValue := func() *trieNode {
-		if isActive == me.isActive && children == me.children && eq(data, me.Data) {
+		// inactive nodes have no data to compare
+		if isActive == me.isActive && children == me.children && (!isActive || eq(data, me.Data)) {
 			return me
 		}
 		return me.copyMutate(func(n *trieNode) {
-- 
2.43.0


From c3673bac486408c51fc2b2c0ee39f697889dd873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:36 +0000
Subject: [PATCH 08/19] fix: a custom comparator table of an interface type
 panics on nil values

The comparator wrapper asserted the type of a nil interface.
---
 ipv4/table.go | 6 +++++-
 ipv6/table.go | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/ipv4/table.go b/ipv4/table.go
index 240de1d..56c7239 100644
--- a/ipv4/table.go
+++ b/ipv4/table.go
@@ -28,7 +28,11 @@ func NewTableCustomCompare_[T any](comparator func(a, b T) bool) Table_[T] {
 	return Table_[T]{
 		newTableXCustomCompare_(
 			func(a, b interface{}) bool {
-				return comparator(a.(T), b.(T))
+				// If T is an interface type then its nil value has no dynamic
+				// type and a plain type assertion would panic.
+				at, _ := a.(T)
+				bt, _ := b.(T)
+				return comparator(at, bt)
 			},
 		),
 	}
diff --git a/ipv6/table.go b/ipv6/table.go
index 5b232d8..341c761 100644
--- a/ipv6/table.go
+++ b/ipv6/table.go
@@ -28,7 +28,11 @@ func NewTableCustomCompare_[T any](comparator func(a, b T) bool) Table_[T] {
 	return Table_[T]{
 		newTableXCustomCompare_(
 			func(a, b interface{}) bool {
-				return comparator(a.(T), b.(T))
+				// If T is an interface type then its nil value has no dynamic
+				// type and a plain type assertion would panic.
+				at, _ := a.(T)
+				bt, _ := b.(T)
+				return comparator(at, bt)
 			},
 		),
 	}
-- 
2.43.0


From 4fa3db6a860320ab2a18d19bd46c498f8860d6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:40 +0000
Subject: [PATCH 09/19] fix: Aggregate() drops entries nested in two prefixes
 it combines

Combining 10.0.0.0/25 and 10.0.0.128/25 into 10.0.0.0/24 also threw away, for
example, a different value at 10.0.0.3/32.
---
 ipv4/node.go | 6 +++++-
 ipv6/node.go | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/ipv4/node.go b/ipv4/node.go
index 72f81ea..1390fc0 100644
--- a/ipv4/node.go
+++ b/ipv4/node.go
@@ -807,7 +807,11 @@ func (me *trieNode) aggregate(parentUmbrella *umbrella, eq comparator) (result *
 	if childrenAggregate {
 		isActive = true
 		data = children[0].Data
-		children = [2]*trieNode{}
+		// Take the two entries out of the children but keep any more specific
+		// entries below them.
+		for i, child := range children {
+			children[i], _ = child.Delete(child.Prefix)
+		}
 	}
 
 	if isActive {
diff --git a/ipv6/node.go b/ipv6/node.go
index 5d53c33..64b18ea 100644
--- a/ipv6/node.go
+++ b/ipv6/node.go
@@ -803,7 +803,11 @@ func (me *trieNode) aggregate(parentUmbrella *umbrella, eq comparator) (result *
 	if childrenAggregate {
 		isActive = true
 		data = children[0].Data
-		children = [2]*trieNode{}
+		// Take the two entries out of the children but keep any more specific
+		// entries below them.
+		for i, child := range children {
+			children[i], _ = child.Delete(child.Prefix)
+		}
 	}
 
 	if isActive {
-- 
2.43.0


From 2ee9e260fc5de7dab02f6a6b21eda787909d4514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:43 +0000
Subject: [PATCH 10/19] fix: Aggregate() keeps a combined prefix that its
 umbrella makes redundant

When the value of two combined halves equals that of the entry containing
them, the combined entry is contained in an entry with the same value.
---
 ipv4/node.go | 4 ++++
 ipv6/node.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/ipv4/node.go b/ipv4/node.go
index 1390fc0..2f156f8 100644
--- a/ipv4/node.go
+++ b/ipv4/node.go
@@ -812,6 +812,10 @@ func (me *trieNode) aggregate(parentUmbrella *umbrella, eq comparator) (result *
 		for i, child := range children {
 			children[i], _ = child.Delete(child.Prefix)
 		}
+		if parentUmbrella != nil && eq(parentUmbrella.Data, data) {
+			isActive = false
+			data = nil
+		}
 	}
 
 	if isActive {
diff --git a/ipv6/node.go b/ipv6/node.go
index 64b18ea..6641ff2 100644
--- a/ipv6/node.go
+++ b/ipv6/node.go
@@ -808,6 +808,10 @@ func (me *trieNode) aggregate(parentUmbrella *umbrella, eq comparator) (result *
 		for i, child := range children {
 			children[i], _ = child.Delete(child.Prefix)
 		}
+		if parentUmbrella != nil && eq(parentUmbrella.Data, data) {
+			isActive = false
+			data = nil
+		}
 	}
 
 	if isActive {
-- 
2.43.0


From 9eacee490e57671429871288a979266f2715cc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:47 +0000
Subject: [PATCH 11/19] fix: Map() calls the mapper for prefixes that have no
 entry

It was called with a zero value for each inactive node, and with a custom
comparator the comparison of the result with nil panicked.
---
 ipv4/node.go | 8 +++++---
 ipv6/node.go | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/ipv4/node.go b/ipv4/node.go
index 2f156f8..d7d6a3e 100644
--- a/ipv4/node.go
+++ b/ipv4/node.go
@@ -842,9 +842,11 @@ func (me *trieNode) Aggregate(eq comparator) *trieNode {
 // structure is not modified, an entirely new structure is created.
 func (me *trieNode) Map(mapper func(Prefix, interface{}) interface{}, eq comparator) *trieNode {
 	return me.copyMutate(func(n *trieNode) {
-		n.Data = mapper(me.Prefix, me.Data)
-		if eq(me.Data, n.Data) {
-			n.Data = me.Data
+		if me.isActive {
+			n.Data = mapper(me.Prefix, me.Data)
+			if eq(me.Data, n.Data) {
+				n.Data = me.Data
+			}
 		}
 		n.children = [2]*trieNode{
 			me.children[0].Map(mapper, eq),
diff --git a/ipv6/node.go b/ipv6/node.go
index 6641ff2..1f2f0a6 100644
--- a/ipv6/node.go
+++ b/ipv6/node.go
@@ -838,9 +838,11 @@ func (me *trieNode) Aggregate(eq comparator) *trieNode {
 // structure is not modified, an entirely new structure is created.
 func (me *trieNode) Map(mapper func(Prefix, interface{}) interface{}, eq comparator) *trieNode {
 	return me.copyMutate(func(n *trieNode) {
-		n.Data = mapper(me.Prefix, me.Data)
-		if eq(me.Data, n.Data) {
-			n.Data = me.Data
+		if me.isActive {
+			n.Data = mapper(me.Prefix, me.Data)
+			if eq(me.Data, n.Data) {
+				n.Data = me.Data
+			}
 		}
 		n.children = [2]*trieNode{
 			me.children[0].Map(mapper, eq),
-- 
2.43.0


From b37377f03cb290d8efe875f4bdbeca13243203f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:26 +0000
Subject: [PATCH 12/19] fix: tables of values that are not comparable with ==
 panic

Copying a node compared the whole node, and so its data, with == although
tables with a custom comparator are meant for such values.
---
 ipv4/node.go | 38 +++++++++++++++++++++++++-------------
 ipv6/node.go | 38 +++++++++++++++++++++++++-------------
 2 files changed, 50 insertions(+), 26 deletions(-)

diff --git a/ipv4/node.go b/ipv4/node.go
index d7d6a3e..95cc57c 100644
--- a/ipv4/node.go
+++ b/ipv4/node.go
@@ -116,6 +116,9 @@ func (me *trieNode) mutate(mutator func(*trieNode)) *trieNode {
 	return me
 }
 
+// copyMutate returns a mutated copy of the node or the node itself if neither
+// its children nor whether it is active are changed. It doesn't compare data as
+// it isn't necessarily comparable with ==.
 func (me *trieNode) copyMutate(mutator func(*trieNode)) *trieNode {
 	if me == nil {
 		return nil
@@ -123,7 +126,7 @@ func (me *trieNode) copyMutate(mutator func(*trieNode)) *trieNode {
 	doppelganger := &trieNode{}
 	*doppelganger = *me
 	mutated := doppelganger.mutate(mutator)
-	if *mutated == *me {
+	if mutated.isActive == me.isActive && mutated.children == me.children {
 		return me
 	}
 	return mutated
@@ -841,16 +844,25 @@ func (me *trieNode) Aggregate(eq comparator) *trieNode {
 // returns the *trieNode pointing to the result. As always, the original
 // structure is not modified, an entirely new structure is created.
 func (me *trieNode) Map(mapper func(Prefix, interface{}) interface{}, eq comparator) *trieNode {
-	return me.copyMutate(func(n *trieNode) {
-		if me.isActive {
-			n.Data = mapper(me.Prefix, me.Data)
-			if eq(me.Data, n.Data) {
-				n.Data = me.Data
-			}
-		}
-		n.children = [2]*trieNode{
-			me.children[0].Map(mapper, eq),
-			me.children[1].Map(mapper, eq),
-		}
-	})
+	if me == nil {
+		return nil
+	}
+
+	mapped := *me
+	if me.isActive {
+		mapped.Data = mapper(me.Prefix, me.Data)
+	}
+	mapped.children = [2]*trieNode{
+		me.children[0].Map(mapper, eq),
+		me.children[1].Map(mapper, eq),
+	}
+
+	if me.isActive && !eq(me.Data, mapped.Data) {
+		return &mapped
+	}
+	mapped.Data = me.Data
+	if mapped.children == me.children {
+		return me
+	}
+	return &mapped
 }
diff --git a/ipv6/node.go b/ipv6/node.go
index 1f2f0a6..c6bdc40 100644
--- a/ipv6/node.go
+++ b/ipv6/node.go
@@ -115,6 +115,9 @@ func (me *trieNode) mutate(mutator func(*trieNode)) *trieNode {
 	return me
 }
 
+// copyMutate returns a mutated copy of the node or the node itself if neither
+// its children nor whether it is active are changed. It doesn't compare data as
+// it isn't necessarily comparable with ==.
 func (me *trieNode) copyMutate(mutator func(*trieNode)) *trieNode {
 	if me == nil {
 		return nil
@@ -122,7 +125,7 @@ func (me *trieNode) copyMutate(mutator func(*trieNode)) *trieNode {
 	doppelganger := &trieNode{}
 	*doppelganger = *me
 	mutated := doppelganger.mutate(mutator)
-	if *mutated == *me {
+	if mutated.isActive == me.isActive && mutated.children == me.children {
 		return me
 	}
 	return mutated
@@ -837,16 +840,25 @@ func (me *trieNode) Aggregate(eq comparator) *trieNode {
 // returns the *trieNode pointing to the result. As always, the original
 // structure is not modified, an entirely new structure is created.
 func (me *trieNode) Map(mapper func(Prefix, interface{}) interface{}, eq comparator) *trieNode {
-	return me.copyMutate(func(n *trieNode) {
-		if me.isActive {
-			n.Data = mapper(me.Prefix, me.Data)
-			if eq(me.Data, n.Data) {
-				n.Data = me.Data
-			}
-		}
-		n.children = [2]*trieNode{
-			me.children[0].Map(mapper, eq),
-			me.children[1].Map(mapper, eq),
-		}
-	})
+	if me == nil {
+		return nil
+	}
+
+	mapped := *me
+	if me.isActive {
+		mapped.Data = mapper(me.Prefix, me.Data)
+	}
+	mapped.children = [2]*trieNode{
+		me.children[0].Map(mapper, eq),
+		me.children[1].Map(mapper, eq),
+	}
+
+	if me.isActive && !eq(me.Data, mapped.Data) {
+		return &mapped
+	}
+	mapped.Data = me.Data
+	if mapped.children == me.children {
+		return me
+	}
+	return &mapped
 }
-- 
2.43.0


From 6855816efc0cf62bdfc413d39175479d6348d3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:31 +0000
Subject: [PATCH 13/19] fix: FindAvailablePrefix() panics when reserved is nil

A nil SetI is documented to be treated as an empty set.
---
 ipv4/set.go | 3 +++
 ipv6/set.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/ipv4/set.go b/ipv4/set.go
index 3cd3c42..eb145f7 100644
--- a/ipv4/set.go
+++ b/ipv4/set.go
@@ -346,6 +346,9 @@ func (me Set) isValid() bool {
 // set. The returned Prefix is optimally placed to avoid any further IP space
 // fragmentation. An error is returned if there is not enough space to allocate
 func (me Set) FindAvailablePrefix(reserved SetI, length uint32) (Prefix, error) {
+	if reserved == nil {
+		reserved = Set{}
+	}
 	prefix, err := me.trie.FindSmallestContainingPrefix(reserved.Set().trie, length)
 	if err != nil {
 		return Prefix{}, fmt.Errorf("no room for prefix of given length")
diff --git a/ipv6/set.go b/ipv6/set.go
index ae95cb3..81b7c71 100644
--- a/ipv6/set.go
+++ b/ipv6/set.go
@@ -334,6 +334,9 @@ func (me Set) isValid() bool {
 // set. The returned Prefix is optimally placed to avoid any further IP space
 // fragmentation. An error is returned if there is not enough space to allocate
 func (me Set) FindAvailablePrefix(reserved SetI, length uint32) (Prefix, error) {
+	if reserved == nil {
+		reserved = Set{}
+	}
 	prefix, err := me.trie.FindSmallestContainingPrefix(reserved.Set().trie, length)
 	if err != nil {
 		return Prefix{}, fmt.Errorf("no room for prefix of given length")
-- 
2.43.0


From 4bb18b6f42a6873629f744542e81b299242ddd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:34 +0000
Subject: [PATCH 14/19] fix: FindAvailablePrefix() returns prefixes longer than
 an address

For a length greater than the number of bits in an address, it returned an
invalid prefix with that length instead of an error.
---
 ipv4/set.go | 3 +++
 ipv6/set.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/ipv4/set.go b/ipv4/set.go
index eb145f7..7d67601 100644
--- a/ipv4/set.go
+++ b/ipv4/set.go
@@ -346,6 +346,9 @@ func (me Set) isValid() bool {
 // set. The returned Prefix is optimally placed to avoid any further IP space
 // fragmentation. An error is returned if there is not enough space to allocate
 func (me Set) FindAvailablePrefix(reserved SetI, length uint32) (Prefix, error) {
+	if uint32(addressSize) < length {
+		return Prefix{}, fmt.Errorf("length is greater than %d", addressSize)
+	}
 	if reserved == nil {
 		reserved = Set{}
 	}
diff --git a/ipv6/set.go b/ipv6/set.go
index 81b7c71..69e1150 100644
--- a/ipv6/set.go
+++ b/ipv6/set.go
@@ -334,6 +334,9 @@ func (me Set) isValid() bool {
 // set. The returned Prefix is optimally placed to avoid any further IP space
 // fragmentation. An error is returned if there is not enough space to allocate
 func (me Set) FindAvailablePrefix(reserved SetI, length uint32) (Prefix, error) {
+	if uint32(addressSize) < length {
+		return Prefix{}, fmt.Errorf("length is greater than %d", addressSize)
+	}
 	if reserved == nil {
 		reserved = Set{}
 	}
-- 
2.43.0


From 0169ad0effad8f22cb0d96bd2a8866a28846d3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 15/19] fix: Diff() is out of order if a left prefix is longer
 than a disjoint right one

The comparison tells where the longer of the two prefixes goes but it was
always taken to be the right one.
---
 ipv4/node.go | 7 ++++---
 ipv6/node.go | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/ipv4/node.go b/ipv4/node.go
index 95cc57c..e7c522a 100644
--- a/ipv4/node.go
+++ b/ipv4/node.go
@@ -612,9 +612,10 @@ func (left *trieNode) diff(right *trieNode, handler trieDiffHandler) bool {
 	// In that case, `child` doesn't matter so we leave it initialized at zero.
 	// If both are nil, there is nothing to do.
 	var result, child int
+	var reversed bool
 	switch {
 	case left != nil && right != nil:
-		result, _, _, child = compare(left.Prefix, right.Prefix)
+		result, reversed, _, child = compare(left.Prefix, right.Prefix)
 
 	case left != nil:
 		result = compareContains
@@ -673,8 +674,8 @@ func (left *trieNode) diff(right *trieNode, handler trieDiffHandler) bool {
 
 	case compareDisjoint:
 		// Divide and conquer. Compare each with an empty set. Order based on
-		// the comparison.
-		if child == 0 {
+		// the comparison, which is of the longer one to the shorter one.
+		if (child == 0) != reversed { // (child == 0) XOR reversed
 			newLeft[1] = left
 			newRight[0] = right
 		} else {
diff --git a/ipv6/node.go b/ipv6/node.go
index c6bdc40..ee6dc86 100644
--- a/ipv6/node.go
+++ b/ipv6/node.go
@@ -608,9 +608,10 @@ func (left *trieNode) diff(right *trieNode, handler trieDiffHandler) bool {
 	// In that case, `child` doesn't matter so we leave it initialized at zero.
 	// If both are nil, there is nothing to do.
 	var result, child int
+	var reversed bool
 	switch {
 	case left != nil && right != nil:
-		result, _, _, child = compare(left.Prefix, right.Prefix)
+		result, reversed, _, child = compare(left.Prefix, right.Prefix)
 
 	case left != nil:
 		result = compareContains
@@ -669,8 +670,8 @@ func (left *trieNode) diff(right *trieNode, handler trieDiffHandler) bool {
 
 	case compareDisjoint:
 		// Divide and conquer. Compare each with an empty set. Order based on
-		// the comparison.
-		if child == 0 {
+		// the comparison, which is of the longer one to the shorter one.
+		if (child == 0) != reversed { // (child == 0) XOR reversed
 			newLeft[1] = left
 			newRight[0] = right
 		} else {
-- 
2.43.0


From c6bb85723d17c614d3be5a3da9db760246f7a4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:06 +0000
Subject: [PATCH 16/19] fix: IPv4-mapped IPv6 addresses print as IPv4 and
 cannot be parsed

::ffff:1.2.3.4 printed as 1.2.3.4, which does not parse as an IPv6 address, and
AddressFromString rejected ::ffff:1.2.3.4 though PrefixFromString accepts it.
---
 ipv6/address.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ipv6/address.go b/ipv6/address.go
index 4f3b609..381f5df 100644
--- a/ipv6/address.go
+++ b/ipv6/address.go
@@ -3,6 +3,7 @@ package ipv6
 import (
 	"fmt"
 	"net"
+	"strings"
 )
 
 const (
@@ -53,8 +54,8 @@ func AddressFromString(address string) (Address, error) {
 		return Address{}, fmt.Errorf("failed to parse address: %s", address)
 	}
 
-	netIPv4 := netIP.To4()
-	if netIPv4 != nil {
+	// IPv4-mapped IPv6 addresses also have a 4-byte form
+	if netIP.To4() != nil && !strings.Contains(address, ":") {
 		return Address{}, fmt.Errorf("address is not IPv6: %s", address)
 	}
 
@@ -100,7 +101,12 @@ func (me Address) Set() Set {
 
 // String returns a string representing the address in IPv6 notation
 func (me Address) String() string {
-	return me.ToNetIP().String()
+	netIP := me.ToNetIP()
+	if netIP.To4() != nil {
+		// net.IP formats an IPv4-mapped address as the IPv4 address it maps
+		return "::ffff:" + netIP.String()
+	}
+	return netIP.String()
 }
 
 // NumBits returns the size of an address (always 128)
-- 
2.43.0


From 1bd0052bb49863a7732b725c031bf8333fede300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:09 +0000
Subject: [PATCH 17/19] fix: NumPrefixes() on an IPv4 Set or Range hides an
 invalid length

For a length greater than 32, Prefix.NumPrefixes() returns an error as do the
IPv6 Set and Range. The IPv4 ones ignored it and returned a count of 0.
---
 ipv4/set.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ipv4/set.go b/ipv4/set.go
index 7d67601..589f888 100644
--- a/ipv4/set.go
+++ b/ipv4/set.go
@@ -251,7 +251,11 @@ func (me Set) NumPrefixes(length uint32) (count uint64, err error) {
 	// NOTE This could be done more efficiently with its own recursive
 	// implementation that stops descending when the prefixes are too small.
 	me.WalkPrefixes(func(p Prefix) bool {
-		c, _ := p.NumPrefixes(length)
+		c, e := p.NumPrefixes(length)
+		if e != nil {
+			err = e
+			return false
+		}
 		count += c
 		return true
 	})
-- 
2.43.0


From cb3e45ca9d5a7d5b3194d33418691552464cfd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:40 +0000
Subject: [PATCH 18/19] fix: concurrent modification of a Table_ or Set_ can go
 undetected

mutate() read the trie once and the mutators read it a second time. If
another writer changed the trie in between and it changed back before the
swap, a modification was silently lost or undone. Derive the new trie from
the same read that the swap compares with.
---
 ipv4/set.go    | 22 ++++++++++++++++------
 ipv4/tablex.go | 34 ++++++++++++++++++++++------------
 ipv6/set.go    | 22 ++++++++++++++++------
 ipv6/tablex.go | 34 ++++++++++++++++++++++------------
 4 files changed, 76 insertions(+), 36 deletions(-)

diff --git a/ipv4/set.go b/ipv4/set.go
index 589f888..c27502d 100644
--- a/ipv4/set.go
+++ b/ipv4/set.go
@@ -33,10 +33,20 @@ func (me Set_) Set() Set {
 	}
 }
 
-// mutate should be called by any method that modifies the set in any way
+// mutate replaces the set's contents with the result of the given mutator
 func (me Set_) mutate(mutator func() (ok bool, newNode *setNode)) {
+	me.mutateFrom(func(*setNode) (bool, *setNode) {
+		return mutator()
+	})
+}
+
+// mutateFrom should be called by any method that modifies the set in any way.
+// The mutator must derive the new contents from the node it is passed and not
+// read it from the set again or else the swap cannot detect all concurrent
+// modifications.
+func (me Set_) mutateFrom(mutator func(oldNode *setNode) (ok bool, newNode *setNode)) {
 	oldNode := me.s.trie
-	ok, newNode := mutator()
+	ok, newNode := mutator(oldNode)
 	if ok && oldNode != newNode {
 		if !swapSetNodePtr(&me.s.trie, oldNode, newNode) {
 			panic("concurrent modification of Set_ detected")
@@ -53,8 +63,8 @@ func (me Set_) Insert(other SetI) {
 	if other == nil {
 		other = Set{}
 	}
-	me.mutate(func() (bool, *setNode) {
-		return true, me.s.trie.Union(other.Set().trie)
+	me.mutateFrom(func(oldNode *setNode) (bool, *setNode) {
+		return true, oldNode.Union(other.Set().trie)
 	})
 }
 
@@ -68,8 +78,8 @@ func (me Set_) Remove(other SetI) {
 	if other == nil {
 		other = Set{}
 	}
-	me.mutate(func() (bool, *setNode) {
-		return true, me.s.trie.Difference(other.Set().trie)
+	me.mutateFrom(func(oldNode *setNode) (bool, *setNode) {
+		return true, oldNode.Difference(other.Set().trie)
 	})
 }
 
diff --git a/ipv4/tablex.go b/ipv4/tablex.go
index 8e30234..11635b3 100644
--- a/ipv4/tablex.go
+++ b/ipv4/tablex.go
@@ -63,10 +63,20 @@ func (me tableX_) NumEntries() int64 {
 	return me.m.NumEntries()
 }
 
-// mutate should be called by any method that modifies the table in any way
+// mutate replaces the table's contents with the result of the given mutator
 func (me tableX_) mutate(mutator func() (ok bool, node *trieNode)) {
+	me.mutateFrom(func(*trieNode) (bool, *trieNode) {
+		return mutator()
+	})
+}
+
+// mutateFrom should be called by any method that modifies the table in any
+// way. The mutator must derive the new contents from the node it is passed and
+// not read it from the table again or else the swap cannot detect all
+// concurrent modifications.
+func (me tableX_) mutateFrom(mutator func(oldNode *trieNode) (ok bool, node *trieNode)) {
 	oldNode := me.m.trie
-	ok, newNode := mutator()
+	ok, newNode := mutator(oldNode)
 	if ok && oldNode != newNode {
 		if !swapTrieNodePtr(&me.m.trie, oldNode, newNode) {
 			panic("concurrent modification of Table_ detected")
@@ -85,9 +95,9 @@ func (me tableX_) Insert(prefix PrefixI, value interface{}) (succeeded bool) {
 		prefix = Prefix{}
 	}
 	var err error
-	me.mutate(func() (bool, *trieNode) {
+	me.mutateFrom(func(oldNode *trieNode) (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, err = me.m.trie.Insert(prefix.Prefix(), value)
+		newHead, err = oldNode.Insert(prefix.Prefix(), value)
 		if err != nil {
 			return false, nil
 		}
@@ -107,9 +117,9 @@ func (me tableX_) Update(prefix PrefixI, value interface{}) (succeeded bool) {
 		prefix = Prefix{}
 	}
 	var err error
-	me.mutate(func() (bool, *trieNode) {
+	me.mutateFrom(func(oldNode *trieNode) (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, err = me.m.trie.Update(prefix.Prefix(), value, me.m.eq)
+		newHead, err = oldNode.Update(prefix.Prefix(), value, me.m.eq)
 		if err != nil {
 			return false, nil
 		}
@@ -127,8 +137,8 @@ func (me tableX_) InsertOrUpdate(prefix PrefixI, value interface{}) {
 	if prefix == nil {
 		prefix = Prefix{}
 	}
-	me.mutate(func() (bool, *trieNode) {
-		return true, me.m.trie.InsertOrUpdate(prefix.Prefix(), value, me.m.eq)
+	me.mutateFrom(func(oldNode *trieNode) (bool, *trieNode) {
+		return true, oldNode.InsertOrUpdate(prefix.Prefix(), value, me.m.eq)
 	})
 }
 
@@ -154,9 +164,9 @@ func (me tableX_) GetOrInsert(prefix PrefixI, value interface{}) interface{} {
 		prefix = Prefix{}
 	}
 	var node *trieNode
-	me.mutate(func() (bool, *trieNode) {
+	me.mutateFrom(func(oldNode *trieNode) (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, node = me.m.trie.GetOrInsert(prefix.Prefix(), value)
+		newHead, node = oldNode.GetOrInsert(prefix.Prefix(), value)
 		return true, newHead
 	})
 	return node.Data
@@ -185,9 +195,9 @@ func (me tableX_) Remove(prefix PrefixI) (succeeded bool) {
 		prefix = Prefix{}
 	}
 	var err error
-	me.mutate(func() (bool, *trieNode) {
+	me.mutateFrom(func(oldNode *trieNode) (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, err = me.m.trie.Delete(prefix.Prefix())
+		newHead, err = oldNode.Delete(prefix.Prefix())
 		return true, newHead
 	})
 	return err == nil
diff --git a/ipv6/set.go b/ipv6/set.go
index 69e1150..acb99ab 100644
--- a/ipv6/set.go
+++ b/ipv6/set.go
@@ -49,10 +49,20 @@ func (me Set) Build(builder func(Set_) bool) Set {
 	return me
 }
 
-// mutate should be called by any method that modifies the set in any way
+// mutate replaces the set's contents with the result of the given mutator
 func (me Set_) mutate(mutator func() (ok bool, newNode *setNode)) {
+	me.mutateFrom(func(*setNode) (bool, *setNode) {
+		return mutator()
+	})
+}
+
+// mutateFrom should be called by any method that modifies the set in any way.
+// The mutator must derive the new contents from the node it is passed and not
+// read it from the set again or else the swap cannot detect all concurrent
+// modifications.
+func (me Set_) mutateFrom(mutator func(oldNode *setNode) (ok bool, newNode *setNode)) {
 	oldNode := me.s.trie
-	ok, newNode := mutator()
+	ok, newNode := mutator(oldNode)
 	if ok && oldNode != newNode {
 		if !swapSetNodePtr(&me.s.trie, oldNode, newNode) {
 			panic("concurrent modification of Set_ detected")
@@ -69,8 +79,8 @@ func (me Set_) Insert(other SetI) {
 	if other == nil {
 		other = Set{}
 	}
-	me.mutate(func() (bool, *setNode) {
-		return true, me.s.trie.Union(other.Set().trie)
+	me.mutateFrom(func(oldNode *setNode) (bool, *setNode) {
+		return true, oldNode.Union(other.Set().trie)
 	})
 }
 
@@ -84,8 +94,8 @@ func (me Set_) Remove(other SetI) {
 	if other == nil {
 		other = Set{}
 	}
-	me.mutate(func() (bool, *setNode) {
-		return true, me.s.trie.Difference(other.Set().trie)
+	me.mutateFrom(func(oldNode *setNode) (bool, *setNode) {
+		return true, oldNode.Difference(other.Set().trie)
 	})
 }
 
diff --git a/ipv6/tablex.go b/ipv6/tablex.go
index 9327206..47f05d7 100644
--- a/ipv6/tablex.go
+++ b/ipv6/tablex.go
@@ -63,10 +63,20 @@ func (me tableX_) NumEntries() int64 {
 	return me.m.NumEntries()
 }
 
-// mutate should be called by any method that modifies the table in any way
+// mutate replaces the table's contents with the result of the given mutator
 func (me tableX_) mutate(mutator func() (ok bool, node *trieNode)) {
+	me.mutateFrom(func(*trieNode) (bool, *trieNode) {
+		return mutator()
+	})
+}
+
+// mutateFrom should be called by any method that modifies the table in any
+// way. The mutator must derive the new contents from the node it is passed and
+// not read it from the table again or else the swap cannot detect all
+// concurrent modifications.
+func (me tableX_) mutateFrom(mutator func(oldNode *trieNode) (ok bool, node *trieNode)) {
 	oldNode := me.m.trie
-	ok, newNode := mutator()
+	ok, newNode := mutator(oldNode)
 	if ok && oldNode != newNode {
 		if !swapTrieNodePtr(&me.m.trie, oldNode, newNode) {
 			panic("concurrent modification of Table_ detected")
@@ -85,9 +95,9 @@ func (me tableX_) Insert(prefix PrefixI, value interface{}) (succeeded bool) {
 		prefix = Prefix{}
 	}
 	var err error
-	me.mutate(func() (bool, *trieNode) {
+	me.mutateFrom(func(oldNode *trieNode) (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, err = me.m.trie.Insert(prefix.Prefix(), value)
+		newHead, err = oldNode.Insert(prefix.Prefix(), value)
 		if err != nil {
 			return false, nil
 		}
@@ -107,9 +117,9 @@ func (me tableX_) Update(prefix PrefixI, value interface{}) (succeeded bool) {
 		prefix = Prefix{}
 	}
 	var err error
-	me.mutate(func() (bool, *trieNode) {
+	me.mutateFrom(func(oldNode *trieNode) (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, err = me.m.trie.Update(prefix.Prefix(), value, me.m.eq)
+		newHead, err = oldNode.Update(prefix.Prefix(), value, me.m.eq)
 		if err != nil {
 			return false, nil
 		}
@@ -127,8 +137,8 @@ func (me tableX_) InsertOrUpdate(prefix PrefixI, value interface{}) {
 	if prefix == nil {
 		prefix = Prefix{}
 	}
-	me.mutate(func() (bool, *trieNode) {
-		return true, me.m.trie.InsertOrUpdate(prefix.Prefix(), value, me.m.eq)
+	me.mutateFrom(func(oldNode *trieNode) (bool, *trieNode) {
+		return true, oldNode.InsertOrUpdate(prefix.Prefix(), value, me.m.eq)
 	})
 }
 
@@ -154,9 +164,9 @@ func (me tableX_) GetOrInsert(prefix PrefixI, value interface{}) interface{} {
 		prefix = Prefix{}
 	}
 	var node *trieNode
-	me.mutate(func() (bool, *trieNode) {
+	me.mutateFrom(func(oldNode *trieNode) (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, node = me.m.trie.GetOrInsert(prefix.Prefix(), value)
+		newHead, node = oldNode.GetOrInsert(prefix.Prefix(), value)
 		return true, newHead
 	})
 	return node.Data
@@ -185,9 +195,9 @@ func (me tableX_) Remove(prefix PrefixI) (succeeded bool) {
 		prefix = Prefix{}
 	}
 	var err error
-	me.mutate(func() (bool, *trieNode) {
+	me.mutateFrom(func(oldNode *trieNode) (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, err = me.m.trie.Delete(prefix.Prefix())
+		newHead, err = oldNode.Delete(prefix.Prefix())
 		return true, newHead
 	})
 	return err == nil
-- 
2.43.0


From b9151308584d104ed010efadb38f260c108f1886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:54 +0000
Subject: [PATCH 19/19] fix: reading a Table_ or Set_ races with modifying it

The README says that it is safe to read and write concurrently, but reads
loaded the trie pointer plainly while writes swap it atomically.
---
 ipv4/set.go           | 16 ++++++++--------
 ipv4/tablex.go        | 13 ++++++++-----
 ipv4/unsafe_atomic.go | 16 ++++++++++++++++
 ipv6/set.go           | 16 ++++++++--------
 ipv6/tablex.go        | 13 ++++++++-----
 ipv6/unsafe_atomic.go | 16 ++++++++++++++++
 6 files changed, 64 insertions(+), 26 deletions(-)

diff --git a/ipv4/set.go b/ipv4/set.go
index c27502d..2e4ee25 100644
--- a/ipv4/set.go
+++ b/ipv4/set.go
@@ -29,7 +29,7 @@ func (me Set_) Set() Set {
 		return Set{}
 	}
 	return Set{
-		trie: me.s.trie,
+		trie: loadSetNodePtr(&me.s.trie),
 	}
 }
 
@@ -45,7 +45,7 @@ func (me Set_) mutate(mutator func() (ok bool, newNode *setNode)) {
 // read it from the set again or else the swap cannot detect all concurrent
 // modifications.
 func (me Set_) mutateFrom(mutator func(oldNode *setNode) (ok bool, newNode *setNode)) {
-	oldNode := me.s.trie
+	oldNode := loadSetNodePtr(&me.s.trie)
 	ok, newNode := mutator(oldNode)
 	if ok && oldNode != newNode {
 		if !swapSetNodePtr(&me.s.trie, oldNode, newNode) {
@@ -93,7 +93,7 @@ func (me Set_) NumAddresses() int64 {
 	if me.s == nil {
 		return 0
 	}
-	return me.s.NumAddresses()
+	return me.Set().NumAddresses()
 }
 
 // Contains tests if the given prefix is entirely contained in the set
@@ -101,7 +101,7 @@ func (me Set_) Contains(other SetI) bool {
 	if me.s == nil {
 		return other == nil || other.Set().NumAddresses() == 0
 	}
-	return me.s.Contains(other)
+	return me.Set().Contains(other)
 }
 
 // Equal returns true if this set is equal to other
@@ -109,7 +109,7 @@ func (me Set_) Equal(other Set_) bool {
 	if me.s == nil {
 		return other.NumAddresses() == 0
 	}
-	return me.s.Equal(other.Set())
+	return me.Set().Equal(other.Set())
 }
 
 func (me Set_) isValid() bool {
@@ -124,7 +124,7 @@ func (me Set_) Union(other SetI) Set {
 	if me.s == nil {
 		return other.Set()
 	}
-	return me.s.Union(other)
+	return me.Set().Union(other)
 }
 
 // Intersection returns a new fixed set with all addresses that appear in both sets
@@ -135,7 +135,7 @@ func (me Set_) Intersection(other SetI) Set {
 	if me.s == nil {
 		return Set{}
 	}
-	return me.s.Intersection(other)
+	return me.Set().Intersection(other)
 }
 
 // Difference returns a new fixed set with all addresses that appear in this set
@@ -147,7 +147,7 @@ func (me Set_) Difference(other SetI) Set {
 	if me.s == nil {
 		return Set{}
 	}
-	return me.s.Difference(other)
+	return me.Set().Difference(other)
 }
 
 // Set is a structure that efficiently stores sets of addresses and supports
diff --git a/ipv4/tablex.go b/ipv4/tablex.go
index 11635b3..80c53f2 100644
--- a/ipv4/tablex.go
+++ b/ipv4/tablex.go
@@ -60,7 +60,7 @@ func (me tableX_) NumEntries() int64 {
 	if me.m == nil {
 		return 0
 	}
-	return me.m.NumEntries()
+	return me.Table().NumEntries()
 }
 
 // mutate replaces the table's contents with the result of the given mutator
@@ -75,7 +75,7 @@ func (me tableX_) mutate(mutator func() (ok bool, node *trieNode)) {
 // not read it from the table again or else the swap cannot detect all
 // concurrent modifications.
 func (me tableX_) mutateFrom(mutator func(oldNode *trieNode) (ok bool, node *trieNode)) {
-	oldNode := me.m.trie
+	oldNode := loadTrieNodePtr(&me.m.trie)
 	ok, newNode := mutator(oldNode)
 	if ok && oldNode != newNode {
 		if !swapTrieNodePtr(&me.m.trie, oldNode, newNode) {
@@ -150,7 +150,7 @@ func (me tableX_) Get(prefix PrefixI) (interface{}, bool) {
 	if me.m == nil {
 		return nil, false
 	}
-	return me.m.Get(prefix)
+	return me.Table().Get(prefix)
 }
 
 // GetOrInsert returns the value associated with the given prefix if it already
@@ -180,7 +180,7 @@ func (me tableX_) LongestMatch(prefix PrefixI) (value interface{}, found bool, m
 	if me.m == nil {
 		return nil, false, Prefix{}
 	}
-	return me.m.LongestMatch(prefix)
+	return me.Table().LongestMatch(prefix)
 }
 
 // Remove removes the given prefix from the table with its associated value and
@@ -210,7 +210,10 @@ func (me tableX_) Table() tableX {
 	if me.m == nil {
 		return tableX{}
 	}
-	return *me.m
+	return tableX{
+		loadTrieNodePtr(&me.m.trie),
+		me.m.eq,
+	}
 }
 
 // tableX is a structure that maps IP prefixes to values. For example, the
diff --git a/ipv4/unsafe_atomic.go b/ipv4/unsafe_atomic.go
index 1b84ca7..2d6eb99 100644
--- a/ipv4/unsafe_atomic.go
+++ b/ipv4/unsafe_atomic.go
@@ -24,3 +24,19 @@ func swapSetNodePtr(ptr **setNode, old, new *setNode) bool {
 		unsafe.Pointer(new),
 	)
 }
+
+func loadTrieNodePtr(ptr **trieNode) *trieNode {
+	return (*trieNode)(atomic.LoadPointer(
+		(*unsafe.Pointer)(
+			unsafe.Pointer(ptr),
+		),
+	))
+}
+
+func loadSetNodePtr(ptr **setNode) *setNode {
+	return (*setNode)(atomic.LoadPointer(
+		(*unsafe.Pointer)(
+			unsafe.Pointer(ptr),
+		),
+	))
+}
diff --git a/ipv6/set.go b/ipv6/set.go
index acb99ab..e7dfa73 100644
--- a/ipv6/set.go
+++ b/ipv6/set.go
@@ -30,7 +30,7 @@ func (me Set_) Set() Set {
 		return Set{}
 	}
 	return Set{
-		trie: me.s.trie,
+		trie: loadSetNodePtr(&me.s.trie),
 	}
 }
 
@@ -61,7 +61,7 @@ func (me Set_) mutate(mutator func() (ok bool, newNode *setNode)) {
 // read it from the set again or else the swap cannot detect all concurrent
 // modifications.
 func (me Set_) mutateFrom(mutator func(oldNode *setNode) (ok bool, newNode *setNode)) {
-	oldNode := me.s.trie
+	oldNode := loadSetNodePtr(&me.s.trie)
 	ok, newNode := mutator(oldNode)
 	if ok && oldNode != newNode {
 		if !swapSetNodePtr(&me.s.trie, oldNode, newNode) {
@@ -104,7 +104,7 @@ func (me Set_) IsEmpty() bool {
 	if me.s == nil {
 		return true
 	}
-	return me.s.IsEmpty()
+	return me.Set().IsEmpty()
 }
 
 // Contains tests if the given prefix is entirely contained in the set
@@ -112,7 +112,7 @@ func (me Set_) Contains(other SetI) bool {
 	if me.s == nil {
 		return other == nil || other.Set().IsEmpty()
 	}
-	return me.s.Contains(other)
+	return me.Set().Contains(other)
 }
 
 // Equal returns true if this set is equal to other
@@ -120,7 +120,7 @@ func (me Set_) Equal(other Set_) bool {
 	if me.s == nil {
 		return other.IsEmpty()
 	}
-	return me.s.Equal(other.Set())
+	return me.Set().Equal(other.Set())
 }
 
 func (me Set_) isValid() bool {
@@ -135,7 +135,7 @@ func (me Set_) Union(other SetI) Set {
 	if me.s == nil {
 		return other.Set()
 	}
-	return me.s.Union(other)
+	return me.Set().Union(other)
 }
 
 // Intersection returns a new fixed set with all addresses that appear in both sets
@@ -146,7 +146,7 @@ func (me Set_) Intersection(other SetI) Set {
 	if me.s == nil {
 		return Set{}
 	}
-	return me.s.Intersection(other)
+	return me.Set().Intersection(other)
 }
 
 // Difference returns a new fixed set with all addresses that appear in this set
@@ -158,7 +158,7 @@ func (me Set_) Difference(other SetI) Set {
 	if me.s == nil {
 		return Set{}
 	}
-	return me.s.Difference(other)
+	return me.Set().Difference(other)
 }
 
 // Set is a structure that efficiently stores sets of addresses and supports
diff --git a/ipv6/tablex.go b/ipv6/tablex.go
index 47f05d7..e43c423 100644
--- a/ipv6/tablex.go
+++ b/ipv6/tablex.go
@@ -60,7 +60,7 @@ func (me tableX_) NumEntries() int64 {
 	if me.m == nil {
 		return 0
 	}
-	return me.m.NumEntries()
+	return me.Table().NumEntries()
 }
 
 // mutate replaces the table's contents with the result of the given mutator
@@ -75,7 +75,7 @@ func (me tableX_) mutate(mutator func() (ok bool, node *trieNode)) {
 // not read it from the table again or else the swap cannot detect all
 // concurrent modifications.
 func (me tableX_) mutateFrom(mutator func(oldNode *trieNode) (ok bool, node *trieNode)) {
-	oldNode := me.m.trie
+	oldNode := loadTrieNodePtr(&me.m.trie)
 	ok, newNode := mutator(oldNode)
 	if ok && oldNode != newNode {
 		if !swapTrieNodePtr(&me.m.trie, oldNode, newNode) {
@@ -150,7 +150,7 @@ func (me tableX_) Get(prefix PrefixI) (interface{}, bool) {
 	if me.m == nil {
 		return nil, false
 	}
-	return me.m.Get(prefix)
+	return me.Table().Get(prefix)
 }
 
 // GetOrInsert returns the value associated with the given prefix if it already
@@ -180,7 +180,7 @@ func (me tableX_) LongestMatch(prefix PrefixI) (value interface{}, found bool, m
 	if me.m == nil {
 		return nil, false, Prefix{}
 	}
-	return me.m.LongestMatch(prefix)
+	return me.Table().LongestMatch(prefix)
 }
 
 // Remove removes the given prefix from the table with its associated value and
@@ -210,7 +210,10 @@ func (me tableX_) Table() tableX {
 	if me.m == nil {
 		return tableX{}
 	}
-	return *me.m
+	return tableX{
+		loadTrieNodePtr(&me.m.trie),
+		me.m.eq,
+	}
 }
 
 // tableX is a structure that maps IP prefixes to values. For example, the
diff --git a/ipv6/unsafe_atomic.go b/ipv6/unsafe_atomic.go
index f72d6bb..27f8c8d 100644
--- a/ipv6/unsafe_atomic.go
+++ b/ipv6/unsafe_atomic.go
@@ -24,3 +24,19 @@ func swapSetNodePtr(ptr **setNode, old, new *setNode) bool {
 		unsafe.Pointer(new),
 	)
 }
+
+func loadTrieNodePtr(ptr **trieNode) *trieNode {
+	return (*trieNode)(atomic.LoadPointer(
+		(*unsafe.Pointer)(
+			unsafe.Pointer(ptr),
+		),
+	))
+}
+
+func loadSetNodePtr(ptr **setNode) *setNode {
+	return (*setNode)(atomic.LoadPointer(
+		(*unsafe.Pointer)(
+			unsafe.Pointer(ptr),
+		),
+	))
+}
-- 
2.43.0

