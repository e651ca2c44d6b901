From 6f24ac4ab531f39ea27dfcb843e58c697947aea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:57 +0000
Subject: [PATCH 01/10] fix: make domain tree Get see the value stored at the
 root domain

Insert, Enumerate and Delete all handle a value stored for the root ("" or
".") but Get started looking below it, so the root's value was never returned,
neither for the root itself nor for domains which have no closer match.
---
 domaintree/domaintree.go                      | 4 ++--
 uintX/domaintree16/domaintree.go              | 4 ++--
 uintX/domaintree32/domaintree.go              | 4 ++--
 uintX/domaintree64/domaintree.go              | 4 ++--
 uintX/domaintree8/domaintree.go               | 4 ++--
 uintX/domaintree{{.bits}}/domaintree.{{.ext}} | 4 ++--
 6 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/domaintree/domaintree.go b/domaintree/domaintree.go
index 87fabef..ce83026 100644
--- a/domaintree/domaintree.go
+++ b/domaintree/domaintree.go
@@ -93,8 +93,8 @@ func (n *Node) Get(d domain.Name) (interface{}, bool) {
 		return nil, false
 	}
 
-	var value interface{}
-	hasValue := false
+	value := n.value
+	hasValue := n.hasValue
 
 	d.GetLabels(func(label string) error {
 		item, ok := n.branches.RawGet(label)
diff --git a/uintX/domaintree16/domaintree.go b/uintX/domaintree16/domaintree.go
index 4306e21..21768ac 100644
--- a/uintX/domaintree16/domaintree.go
+++ b/uintX/domaintree16/domaintree.go
@@ -91,8 +91,8 @@ func (n *Node) Get(d domain.Name) (uint16, bool) {
 		return 0, false
 	}
 
-	var value uint16
-	hasValue := false
+	value := n.value
+	hasValue := n.hasValue
 
 	d.GetLabels(func(label string) error {
 		next, ok := n.branches.rawGet(label)
diff --git a/uintX/domaintree32/domaintree.go b/uintX/domaintree32/domaintree.go
index 063fc45..818cf3e 100644
--- a/uintX/domaintree32/domaintree.go
+++ b/uintX/domaintree32/domaintree.go
@@ -91,8 +91,8 @@ func (n *Node) Get(d domain.Name) (uint32, bool) {
 		return 0, false
 	}
 
-	var value uint32
-	hasValue := false
+	value := n.value
+	hasValue := n.hasValue
 
 	d.GetLabels(func(label string) error {
 		next, ok := n.branches.rawGet(label)
diff --git a/uintX/domaintree64/domaintree.go b/uintX/domaintree64/domaintree.go
index 09c2574..69a88d3 100644
--- a/uintX/domaintree64/domaintree.go
+++ b/uintX/domaintree64/domaintree.go
@@ -91,8 +91,8 @@ func (n *Node) Get(d domain.Name) (uint64, bool) {
 		return 0, false
 	}
 
-	var value uint64
-	hasValue := false
+	value := n.value
+	hasValue := n.hasValue
 
 	d.GetLabels(func(label string) error {
 		next, ok := n.branches.rawGet(label)
diff --git a/uintX/domaintree8/domaintree.go b/uintX/domaintree8/domaintree.go
index 34719c3..8a56105 100644
--- a/uintX/domaintree8/domaintree.go
+++ b/uintX/domaintree8/domaintree.go
@@ -91,8 +91,8 @@ func (n *Node) Get(d domain.Name) (uint8, bool) {
 		return 0, false
 	}
 
-	var value uint8
-	hasValue := false
+	value := n.value
+	hasValue := n.hasValue
 
 	d.GetLabels(func(label string) error {
 		next, ok := n.branches.rawGet(label)
diff --git a/uintX/domaintree{{.bits}}/domaintree.{{.ext}} b/uintX/domaintree{{.bits}}/domaintree.{{.ext}}
index fd04450..252f251 100644
--- a/uintX/domaintree{{.bits}}/domaintree.{{.ext}}
+++ b/uintX/domaintree{{.bits}}/domaintree.{{.ext}}
@@ -91,8 +91,8 @@ func (n *Node) Get(d domain.Name) (uint{{.bits}}, bool) {
 		return 0, false
 	}
 
-	var value uint{{.bits}}
-	hasValue := false
+	value := n.value
+	hasValue := n.hasValue
 
 	d.GetLabels(func(label string) error {
 		next, ok := n.branches.rawGet(label)
-- 
2.43.0


From 4297daa2c527e8739c89871ff283290f34acc1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:58 +0000
Subject: [PATCH 02/10] fix: don't panic on deletion of domain with maximum
 number of labels

Path for a domain of MaxLabels labels has MaxLabels+1 nodes (one for each label
and the root) so both deletion methods went out of array bounds.
---
 domaintree/domaintree.go                      | 8 ++++----
 uintX/domaintree16/domaintree.go              | 8 ++++----
 uintX/domaintree32/domaintree.go              | 8 ++++----
 uintX/domaintree64/domaintree.go              | 8 ++++----
 uintX/domaintree8/domaintree.go               | 8 ++++----
 uintX/domaintree{{.bits}}/domaintree.{{.ext}} | 8 ++++----
 6 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/domaintree/domaintree.go b/domaintree/domaintree.go
index ce83026..b99c337 100644
--- a/domaintree/domaintree.go
+++ b/domaintree/domaintree.go
@@ -120,8 +120,8 @@ func (n *Node) DeleteSubdomains(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [domain.MaxLabels + 1]string
+		nodes  [domain.MaxLabels + 1]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
@@ -148,8 +148,8 @@ func (n *Node) Delete(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [domain.MaxLabels + 1]string
+		nodes  [domain.MaxLabels + 1]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
diff --git a/uintX/domaintree16/domaintree.go b/uintX/domaintree16/domaintree.go
index 21768ac..00d5447 100644
--- a/uintX/domaintree16/domaintree.go
+++ b/uintX/domaintree16/domaintree.go
@@ -118,8 +118,8 @@ func (n *Node) DeleteSubdomains(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [domain.MaxLabels + 1]string
+		nodes  [domain.MaxLabels + 1]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
@@ -146,8 +146,8 @@ func (n *Node) Delete(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [domain.MaxLabels + 1]string
+		nodes  [domain.MaxLabels + 1]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
diff --git a/uintX/domaintree32/domaintree.go b/uintX/domaintree32/domaintree.go
index 818cf3e..c540335 100644
--- a/uintX/domaintree32/domaintree.go
+++ b/uintX/domaintree32/domaintree.go
@@ -118,8 +118,8 @@ func (n *Node) DeleteSubdomains(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [domain.MaxLabels + 1]string
+		nodes  [domain.MaxLabels + 1]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
@@ -146,8 +146,8 @@ func (n *Node) Delete(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [domain.MaxLabels + 1]string
+		nodes  [domain.MaxLabels + 1]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
diff --git a/uintX/domaintree64/domaintree.go b/uintX/domaintree64/domaintree.go
index 69a88d3..9d2efd2 100644
--- a/uintX/domaintree64/domaintree.go
+++ b/uintX/domaintree64/domaintree.go
@@ -118,8 +118,8 @@ func (n *Node) DeleteSubdomains(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [domain.MaxLabels + 1]string
+		nodes  [domain.MaxLabels + 1]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
@@ -146,8 +146,8 @@ func (n *Node) Delete(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [domain.MaxLabels + 1]string
+		nodes  [domain.MaxLabels + 1]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
diff --git a/uintX/domaintree8/domaintree.go b/uintX/domaintree8/domaintree.go
index 8a56105..0dd2dc4 100644
--- a/uintX/domaintree8/domaintree.go
+++ b/uintX/domaintree8/domaintree.go
@@ -118,8 +118,8 @@ func (n *Node) DeleteSubdomains(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [domain.MaxLabels + 1]string
+		nodes  [domain.MaxLabels + 1]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
@@ -146,8 +146,8 @@ func (n *Node) Delete(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [domain.MaxLabels + 1]string
+		nodes  [domain.MaxLabels + 1]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
diff --git a/uintX/domaintree{{.bits}}/domaintree.{{.ext}} b/uintX/domaintree{{.bits}}/domaintree.{{.ext}}
index 252f251..f9a647a 100644
--- a/uintX/domaintree{{.bits}}/domaintree.{{.ext}}
+++ b/uintX/domaintree{{.bits}}/domaintree.{{.ext}}
@@ -118,8 +118,8 @@ func (n *Node) DeleteSubdomains(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [domain.MaxLabels + 1]string
+		nodes  [domain.MaxLabels + 1]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
@@ -146,8 +146,8 @@ func (n *Node) Delete(d domain.Name) (*Node, bool) {
 	}
 
 	var (
-		labels [domain.MaxLabels]string
-		nodes  [domain.MaxLabels]*Node
+		labels [domain.MaxLabels + 1]string
+		nodes  [domain.MaxLabels + 1]*Node
 	)
 
 	i := n.getBranch(d, labels[:], nodes[:])
-- 
2.43.0


From c530aac12e372126ba7bf313573c97abdd5e0369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:58 +0000
Subject: [PATCH 03/10] fix: let InplaceInsert go below nodes made by Insert

Insert doesn't allocate branches for a node until it has children so following
InplaceInsert of a subdomain panicked on nil label tree.
---
 domaintree/domaintree.go                      | 4 ++++
 uintX/domaintree16/domaintree.go              | 4 ++++
 uintX/domaintree32/domaintree.go              | 4 ++++
 uintX/domaintree64/domaintree.go              | 4 ++++
 uintX/domaintree8/domaintree.go               | 4 ++++
 uintX/domaintree{{.bits}}/domaintree.{{.ext}} | 4 ++++
 6 files changed, 24 insertions(+)

diff --git a/domaintree/domaintree.go b/domaintree/domaintree.go
index b99c337..2996d41 100644
--- a/domaintree/domaintree.go
+++ b/domaintree/domaintree.go
@@ -63,6 +63,10 @@ func (n *Node) InplaceInsert(d domain.Name, v interface{}) {
 		if ok {
 			n = item.(*Node)
 		} else {
+			if n.branches == nil {
+				n.branches = dltree.NewTree()
+			}
+
 			next := &Node{branches: dltree.NewTree()}
 			n.branches.RawInplaceInsert(label, next)
 			n = next
diff --git a/uintX/domaintree16/domaintree.go b/uintX/domaintree16/domaintree.go
index 00d5447..352646d 100644
--- a/uintX/domaintree16/domaintree.go
+++ b/uintX/domaintree16/domaintree.go
@@ -61,6 +61,10 @@ func (n *Node) InplaceInsert(d domain.Name, v uint16) {
 		if ok {
 			n = next
 		} else {
+			if n.branches == nil {
+				n.branches = newLabelTree()
+			}
+
 			next := &Node{branches: newLabelTree()}
 			n.branches.rawInplaceInsert(label, next)
 			n = next
diff --git a/uintX/domaintree32/domaintree.go b/uintX/domaintree32/domaintree.go
index c540335..bd41286 100644
--- a/uintX/domaintree32/domaintree.go
+++ b/uintX/domaintree32/domaintree.go
@@ -61,6 +61,10 @@ func (n *Node) InplaceInsert(d domain.Name, v uint32) {
 		if ok {
 			n = next
 		} else {
+			if n.branches == nil {
+				n.branches = newLabelTree()
+			}
+
 			next := &Node{branches: newLabelTree()}
 			n.branches.rawInplaceInsert(label, next)
 			n = next
diff --git a/uintX/domaintree64/domaintree.go b/uintX/domaintree64/domaintree.go
index 9d2efd2..aeeca6f 100644
--- a/uintX/domaintree64/domaintree.go
+++ b/uintX/domaintree64/domaintree.go
@@ -61,6 +61,10 @@ func (n *Node) InplaceInsert(d domain.Name, v uint64) {
 		if ok {
 			n = next
 		} else {
+			if n.branches == nil {
+				n.branches = newLabelTree()
+			}
+
 			next := &Node{branches: newLabelTree()}
 			n.branches.rawInplaceInsert(label, next)
 			n = next
diff --git a/uintX/domaintree8/domaintree.go b/uintX/domaintree8/domaintree.go
index 0dd2dc4..71b3f24 100644
--- a/uintX/domaintree8/domaintree.go
+++ b/uintX/domaintree8/domaintree.go
@@ -61,6 +61,10 @@ func (n *Node) InplaceInsert(d domain.Name, v uint8) {
 		if ok {
 			n = next
 		} else {
+			if n.branches == nil {
+				n.branches = newLabelTree()
+			}
+
 			next := &Node{branches: newLabelTree()}
 			n.branches.rawInplaceInsert(label, next)
 			n = next
diff --git a/uintX/domaintree{{.bits}}/domaintree.{{.ext}} b/uintX/domaintree{{.bits}}/domaintree.{{.ext}}
index f9a647a..8be9fab 100644
--- a/uintX/domaintree{{.bits}}/domaintree.{{.ext}}
+++ b/uintX/domaintree{{.bits}}/domaintree.{{.ext}}
@@ -61,6 +61,10 @@ func (n *Node) InplaceInsert(d domain.Name, v uint{{.bits}}) {
 		if ok {
 			n = next
 		} else {
+			if n.branches == nil {
+				n.branches = newLabelTree()
+			}
+
 			next := &Node{branches: newLabelTree()}
 			n.branches.rawInplaceInsert(label, next)
 			n = next
-- 
2.43.0


From ecf4a5d675d2a952aaaead44fe51ec0a3ddf905c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:59 +0000
Subject: [PATCH 04/10] fix: limit length of human-readable label for uppercase
 letters as well

All other branches of MakeHumanReadableLabel truncate the result when the buffer
is full but the one for uppercase letters panicked.
---
 domain/label.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/domain/label.go b/domain/label.go
index ef43c7d..441ef59 100644
--- a/domain/label.go
+++ b/domain/label.go
@@ -59,6 +59,10 @@ func MakeHumanReadableLabel(s string) string {
 
 			j += 4
 		} else if c >= 'A' && c <= 'Z' {
+			if j >= len(label) {
+				return string(label[:j])
+			}
+
 			label[j] = c | 0x20
 			j++
 		} else {
-- 
2.43.0


From 1484833213f81277d6422a393103edcbdb2fc85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:59 +0000
Subject: [PATCH 05/10] fix: return nil value from Match on empty tree

Match returned its nil receiver as the value, so on a miss caller got non-nil
interface holding nil node pointer (also through iptree's GetByNet and GetByIP).
---
 numtree/node32.go | 2 +-
 numtree/node64.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/numtree/node32.go b/numtree/node32.go
index cc1c2c1..8c30e6c 100644
--- a/numtree/node32.go
+++ b/numtree/node32.go
@@ -108,7 +108,7 @@ func (n *Node32) Match(key uint32, bits int) (interface{}, bool) {
 	// If tree is empty -
 	if n == nil {
 		// report nothing.
-		return n, false
+		return nil, false
 	}
 
 	// Adjust bits.
diff --git a/numtree/node64.go b/numtree/node64.go
index 304f5d6..a0b3553 100644
--- a/numtree/node64.go
+++ b/numtree/node64.go
@@ -112,7 +112,7 @@ func (n *Node64) Enumerate() chan *Node64 {
 // Match locates node which key is equal to or "contains" the key passed as argument.
 func (n *Node64) Match(key uint64, bits int) (interface{}, bool) {
 	if n == nil {
-		return n, false
+		return nil, false
 	}
 
 	if bits < 0 {
-- 
2.43.0


From 5d00d39b20bfa2b6af615cdec25e9336dd8b5429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:59 +0000
Subject: [PATCH 06/10] fix: delete IPv6 networks contained by absent network
 in uintX IP trees

DeleteByNet removed contained IPv6 networks only if the given network itself had
a value, otherwise it deleted nothing. Do the same as for IPv4 and as iptree does.
---
 uintX/iptree16/iptree.go              | 7 ++++++-
 uintX/iptree32/iptree.go              | 7 ++++++-
 uintX/iptree64/iptree.go              | 7 ++++++-
 uintX/iptree8/iptree.go               | 7 ++++++-
 uintX/iptree{{.bits}}/iptree.{{.ext}} | 7 ++++++-
 5 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/uintX/iptree16/iptree.go b/uintX/iptree16/iptree.go
index 9a4f7ec..90bd2d5 100644
--- a/uintX/iptree16/iptree.go
+++ b/uintX/iptree16/iptree.go
@@ -169,7 +169,12 @@ func (t *Tree) DeleteByNet(n *net.IPNet) (*Tree, bool) {
 			return &Tree{root32: r, root64: t.root64}, true
 		}
 	} else if MSKey, MSBits, LSKey, LSBits := iPv6NetToUint64Pair(n); MSBits >= 0 {
-		if v, ok := t.root64.ExactMatch(MSKey, MSBits); ok {
+		if MSBits < key64BitSize {
+			r64, ok := t.root64.Delete(MSKey, MSBits)
+			if ok {
+				return &Tree{root32: t.root32, root64: r64}, true
+			}
+		} else if v, ok := t.root64.ExactMatch(MSKey, MSBits); ok {
 			r, ok := v.Delete(LSKey, LSBits)
 			if ok {
 				r64 := t.root64
diff --git a/uintX/iptree32/iptree.go b/uintX/iptree32/iptree.go
index 6a505d6..2f342f6 100644
--- a/uintX/iptree32/iptree.go
+++ b/uintX/iptree32/iptree.go
@@ -169,7 +169,12 @@ func (t *Tree) DeleteByNet(n *net.IPNet) (*Tree, bool) {
 			return &Tree{root32: r, root64: t.root64}, true
 		}
 	} else if MSKey, MSBits, LSKey, LSBits := iPv6NetToUint64Pair(n); MSBits >= 0 {
-		if v, ok := t.root64.ExactMatch(MSKey, MSBits); ok {
+		if MSBits < key64BitSize {
+			r64, ok := t.root64.Delete(MSKey, MSBits)
+			if ok {
+				return &Tree{root32: t.root32, root64: r64}, true
+			}
+		} else if v, ok := t.root64.ExactMatch(MSKey, MSBits); ok {
 			r, ok := v.Delete(LSKey, LSBits)
 			if ok {
 				r64 := t.root64
diff --git a/uintX/iptree64/iptree.go b/uintX/iptree64/iptree.go
index 6ffa3ae..d757585 100644
--- a/uintX/iptree64/iptree.go
+++ b/uintX/iptree64/iptree.go
@@ -169,7 +169,12 @@ func (t *Tree) DeleteByNet(n *net.IPNet) (*Tree, bool) {
 			return &Tree{root32: r, root64: t.root64}, true
 		}
 	} else if MSKey, MSBits, LSKey, LSBits := iPv6NetToUint64Pair(n); MSBits >= 0 {
-		if v, ok := t.root64.ExactMatch(MSKey, MSBits); ok {
+		if MSBits < key64BitSize {
+			r64, ok := t.root64.Delete(MSKey, MSBits)
+			if ok {
+				return &Tree{root32: t.root32, root64: r64}, true
+			}
+		} else if v, ok := t.root64.ExactMatch(MSKey, MSBits); ok {
 			r, ok := v.Delete(LSKey, LSBits)
 			if ok {
 				r64 := t.root64
diff --git a/uintX/iptree8/iptree.go b/uintX/iptree8/iptree.go
index 9a98de8..a5a00df 100644
--- a/uintX/iptree8/iptree.go
+++ b/uintX/iptree8/iptree.go
@@ -169,7 +169,12 @@ func (t *Tree) DeleteByNet(n *net.IPNet) (*Tree, bool) {
 			return &Tree{root32: r, root64: t.root64}, true
 		}
 	} else if MSKey, MSBits, LSKey, LSBits := iPv6NetToUint64Pair(n); MSBits >= 0 {
-		if v, ok := t.root64.ExactMatch(MSKey, MSBits); ok {
+		if MSBits < key64BitSize {
+			r64, ok := t.root64.Delete(MSKey, MSBits)
+			if ok {
+				return &Tree{root32: t.root32, root64: r64}, true
+			}
+		} else if v, ok := t.root64.ExactMatch(MSKey, MSBits); ok {
 			r, ok := v.Delete(LSKey, LSBits)
 			if ok {
 				r64 := t.root64
diff --git a/uintX/iptree{{.bits}}/iptree.{{.ext}} b/uintX/iptree{{.bits}}/iptree.{{.ext}}
index d3790c3..20ff2a5 100644
--- a/uintX/iptree{{.bits}}/iptree.{{.ext}}
+++ b/uintX/iptree{{.bits}}/iptree.{{.ext}}
@@ -169,7 +169,12 @@ func (t *Tree) DeleteByNet(n *net.IPNet) (*Tree, bool) {
 			return &Tree{root32: r, root64: t.root64}, true
 		}
 	} else if MSKey, MSBits, LSKey, LSBits := iPv6NetToUint64Pair(n); MSBits >= 0 {
-		if v, ok := t.root64.ExactMatch(MSKey, MSBits); ok {
+		if MSBits < key64BitSize {
+			r64, ok := t.root64.Delete(MSKey, MSBits)
+			if ok {
+				return &Tree{root32: t.root32, root64: r64}, true
+			}
+		} else if v, ok := t.root64.ExactMatch(MSKey, MSBits); ok {
 			r, ok := v.Delete(LSKey, LSBits)
 			if ok {
 				r64 := t.root64
-- 
2.43.0


From ddaa56f31c0c5bb5ef4ea0d9830c556e4fbae4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:00 +0000
Subject: [PATCH 07/10] fix: don't panic in UpdateDescendants on nil tree or
 network

All other methods accept nil network and all which don't need to store anything in
the receiver accept nil tree.
---
 iptree/iptree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/iptree/iptree.go b/iptree/iptree.go
index 2912ee2..79e5b05 100644
--- a/iptree/iptree.go
+++ b/iptree/iptree.go
@@ -117,6 +117,10 @@ func updateNode64(MSIP net.IP, n *numtree.Node64, callback UpdateDescendantsCall
 
 // UpdateDescendants accepts a target network (node) and a callback, and updates all the descendants of the target node if the callback returns true as its second return value
 func (t *Tree) UpdateDescendants(n *net.IPNet, callback UpdateDescendantsCallback) {
+	if t == nil || n == nil {
+		return
+	}
+
 	if key, bits := iPv4NetToUint32(n); bits >= 0 {
 		target := t.root32.FindNode(key, bits)
 		if target == nil {
-- 
2.43.0


From a536f79a33a72f85a9a1bb938c35eff3f79219a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:00 +0000
Subject: [PATCH 08/10] fix: don't panic in Children on empty numeric tree

Empty tree is a nil node and all other methods accept it.
---
 numtree/node32.go | 4 ++++
 numtree/node64.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/numtree/node32.go b/numtree/node32.go
index 8c30e6c..cb2df8e 100644
--- a/numtree/node32.go
+++ b/numtree/node32.go
@@ -127,6 +127,10 @@ func (n *Node32) Match(key uint32, bits int) (interface{}, bool) {
 }
 
 func (n *Node32) Children() (*Node32, *Node32) {
+	if n == nil {
+		return nil, nil
+	}
+
 	return n.chld[0], n.chld[1]
 }
 
diff --git a/numtree/node64.go b/numtree/node64.go
index a0b3553..702d762 100644
--- a/numtree/node64.go
+++ b/numtree/node64.go
@@ -66,6 +66,10 @@ func (n *Node64) Dot() string {
 }
 
 func (n *Node64) Children() (*Node64, *Node64) {
+	if n == nil {
+		return nil, nil
+	}
+
 	return n.chld[0], n.chld[1]
 }
 
-- 
2.43.0


From 07eba4c623f33306d557a3e28923b8d8d8ae3d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:40 +0000
Subject: [PATCH 09/10] fix: refuse to execute template over itself whatever
 the spelling of its path

---
 etc/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/etc/main.go b/etc/main.go
index 4a353c1..958f957 100644
--- a/etc/main.go
+++ b/etc/main.go
@@ -29,7 +29,7 @@ func execute(name string, data interface{}, prefix []string) {
 	}
 
 	newName := executeString(absName, data)
-	if newName == absName {
+	if filepath.Clean(newName) == absName {
 		log.Fatalf("instance name is the same as template name %q", newName)
 	}
 
-- 
2.43.0


From 09379b840d415aaeab04f6aa5422f2a255042305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:32 +0000
Subject: [PATCH 10/10] fix: refuse to execute template over itself through a
 link

---
 etc/main.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/etc/main.go b/etc/main.go
index 958f957..fe7b472 100644
--- a/etc/main.go
+++ b/etc/main.go
@@ -33,6 +33,11 @@ func execute(name string, data interface{}, prefix []string) {
 		log.Fatalf("instance name is the same as template name %q", newName)
 	}
 
+	// The name can lead to the template through a link as well.
+	if newFi, err := os.Stat(newName); err == nil && os.SameFile(fi, newFi) {
+		log.Fatalf("instance %q is the template itself", newName)
+	}
+
 	if fi.IsDir() {
 		log.Printf("creating directory %q -> %q", relName, getRelName(newName, prefix))
 		executeDir(newName)
-- 
2.43.0

