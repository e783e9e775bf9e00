From b4c6844298e2fa9093ce6ad454f678edee9d74a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:06 +0000
Subject: [PATCH 01/33] fix: generated sample of a glob must match it (write
 prefix/suffix, one symbol per range)

---
 glob/glob.go             |  2 ++
 pkg/items/runesranges.go | 17 ++++++++++++-----
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/glob/glob.go b/glob/glob.go
index 417d2c9..39a80b3 100644
--- a/glob/glob.go
+++ b/glob/glob.go
@@ -25,9 +25,11 @@ func (g *Glob) WriteRandom(buf *strings.Builder) {
 	if len(g.Items) == 0 {
 		buf.WriteString(g.Node)
 	} else {
+		buf.WriteString(g.Prefix)
 		for i := 0; i < len(g.Items); i++ {
 			g.Items[i].WriteRandom(buf)
 		}
+		buf.WriteString(g.Suffix)
 	}
 
 }
diff --git a/pkg/items/runesranges.go b/pkg/items/runesranges.go
index 6ebefdf..de46460 100644
--- a/pkg/items/runesranges.go
+++ b/pkg/items/runesranges.go
@@ -28,15 +28,22 @@ func (item *RunesRanges) Equal(a Item) bool {
 }
 
 func (item *RunesRanges) WriteRandom(buf *strings.Builder) {
-	if !item.ASCII.IsEmpty() {
-		var i byte
-		for i = 1; i < 128; i++ {
-			if item.ASCII.Contains(i) {
+	n, _ := item.ASCII.Count()
+	pos := rand.Intn(n + len(item.UnicodeRanges))
+	if pos >= n {
+		buf.WriteRune(item.UnicodeRanges[pos-n].First)
+		return
+	}
+	var i byte
+	for i = 1; i < 128; i++ {
+		if item.ASCII.Contains(i) {
+			if pos == 0 {
 				buf.WriteByte(i)
+				return
 			}
+			pos--
 		}
 	}
-	buf.WriteRune(item.UnicodeRanges[rand.Intn(len(item.UnicodeRanges))].First)
 }
 
 func (item *RunesRanges) WriteString(buf *strings.Builder) string {
-- 
2.43.0


From 38b8d7b619f1d79e909777fbcb2ae372437047aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:19 +0000
Subject: [PATCH 02/33] fix: [*] is a literal wildcard symbol, not a wildcard

---
 pkg/items/wildcard.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/items/wildcard.go b/pkg/items/wildcard.go
index ced7e7f..e6a2e1e 100644
--- a/pkg/items/wildcard.go
+++ b/pkg/items/wildcard.go
@@ -30,7 +30,8 @@ func NextWildcardItem(s string) (item Item, next string, err error) {
 			return nil, next, nil
 		}
 		if len(runes.UnicodeRanges) == 0 {
-			if n == 1 {
+			// wildcard symbol can't be unescaped ([*] isn't *)
+			if n == 1 && !HasWildcard(string(rune(c))) {
 				return Byte(c), next, nil
 			}
 		}
-- 
2.43.0


From 8cda098e1cd7ef2cd6b8a832b31065431523ca77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:37 +0000
Subject: [PATCH 03/33] fix: list with single wildcard value {a*} is a
 wildcard, not a literal

---
 pkg/items/stringlist.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/items/stringlist.go b/pkg/items/stringlist.go
index 374140c..c111fd8 100644
--- a/pkg/items/stringlist.go
+++ b/pkg/items/stringlist.go
@@ -226,6 +226,9 @@ func NewItemList(vals []string) (item Item, err error) {
 		if vals[0] == "" {
 			return nil, nil
 		}
+		if HasWildcard(vals[0]) {
+			return NewGroup(vals)
+		}
 		// one item optimization
 		c, n := utf8.DecodeRuneInString(vals[0])
 		if n == len(vals[0]) {
-- 
2.43.0


From f41ab4e9334f37e67c947954bd3074f2db5ca54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:39 +0000
Subject: [PATCH 04/33] fix: malformed list value after * must be rejected

---
 pkg/items/group.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/items/group.go b/pkg/items/group.go
index 17c7bda..497227d 100644
--- a/pkg/items/group.go
+++ b/pkg/items/group.go
@@ -83,13 +83,15 @@ func (item *Group) IsOptional() bool {
 }
 
 func NewGroup(vals []string) (item Item, err error) {
+	var hasStar bool
 	items := make([]Item, 0, len(vals))
 	for i := 0; i < len(vals); i++ {
 		if HasWildcard(vals[i]) {
 			v := vals[i]
 
 			if v == "*" {
-				return Star(0), nil
+				// match all, but need to check the other values
+				hasStar = true
 			} else if v == "?" {
 				items = append(items, Any(1))
 			} else {
@@ -114,6 +116,9 @@ func NewGroup(vals []string) (item Item, err error) {
 			items = append(items, NewString(vals[i]))
 		}
 	}
+	if hasStar {
+		return Star(0), nil
+	}
 	if len(items) == 0 {
 		return nil, nil
 	}
-- 
2.43.0


From 0609bad6455d519c013efa0eed89ab3148f1294c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:40 +0000
Subject: [PATCH 05/33] fix: chain with star is unlimited (max len was
 overwritten by the next items)

---
 pkg/items/chain.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/pkg/items/chain.go b/pkg/items/chain.go
index b727ea7..76badf3 100644
--- a/pkg/items/chain.go
+++ b/pkg/items/chain.go
@@ -22,11 +22,7 @@ func (item *Chain) Equal(a Item) bool {
 
 func (c *Chain) Append(item Item) {
 	c.MinSize += item.MinLen()
-	if l := item.MaxLen(); l == -1 {
-		c.MaxSize = -1
-	} else {
-		c.MaxSize += l
-	}
+	c.MaxSize = AddMaxLen(c.MaxSize, item.MaxLen())
 	c.Items = AppendItem(c.Items, item)
 }
 
-- 
2.43.0


From b04efd33ea825303fc08996f8f4c0daed6e4c6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:51 +0000
Subject: [PATCH 06/33] fix: items after star: empty tail, optional group, list
 offsets, glued wildcards

---
 pkg/items/items.go | 31 ++++++++-----------------------
 pkg/items/star.go  |  4 +++-
 2 files changed, 11 insertions(+), 24 deletions(-)

diff --git a/pkg/items/items.go b/pkg/items/items.go
index c4894fa..1e3b50a 100644
--- a/pkg/items/items.go
+++ b/pkg/items/items.go
@@ -312,8 +312,8 @@ func matchStarItems(s string, items []Item, nextItems *nextItemsTree) (matched,
 	)
 	if len(items) == 0 {
 		if nextItems == nil || nextItems.IsEmpty() {
-			matched = s == ""
-			abortGready = true
+			// nothing after star
+			matched = true
 			return
 		} else {
 			items, nextItems = nextItems.Next()
@@ -385,7 +385,7 @@ func matchStarItems(s string, items []Item, nextItems *nextItemsTree) (matched,
 						// TODO: skip on next scan ?
 						continue
 					}
-					if offset == -1 || offset < offsetN {
+					if offset == -1 || offset > offsetN {
 						offset = offsetN
 					}
 					s := s[offsetN+length:]
@@ -424,10 +424,8 @@ func matchStarItems(s string, items []Item, nextItems *nextItemsTree) (matched,
 				s := s
 				if len(items) == 1 {
 					if nextItems == nil || nextItems.IsEmpty() {
-						if s == "" {
-							matched = true
-							return
-						}
+						matched = true
+						return
 					} else {
 						items, nextItems := nextItems.Next()
 						if matched, _ = matchStarItems(s, items, nextItems); matched {
@@ -458,22 +456,9 @@ func matchStarItems(s string, items []Item, nextItems *nextItemsTree) (matched,
 			return
 		case FindNotSupported:
 			panic("not supported in match")
-		case FindForwarded:
-			panic("forwarded match")
-		case FindStar:
-			if len(items) == 1 {
-				if nextItems == nil || nextItems.IsEmpty() {
-					matched = true
-					return
-				} else {
-					items, nextItems := nextItems.Next()
-					if matched, _ = matchStarItems(s, items, nextItems); matched {
-						return
-					}
-				}
-			}
-			items = items[1:]
-			// continue
+		case FindForwarded, FindStar:
+			// merge with previous star, like *? or **
+			return matchStarItems(s[length:], items[1:], nextItems)
 		default:
 			panic(fmt.Errorf("unsupported find flag: %d", flag))
 		}
diff --git a/pkg/items/star.go b/pkg/items/star.go
index 3a798da..ac7c9a6 100644
--- a/pkg/items/star.go
+++ b/pkg/items/star.go
@@ -47,7 +47,9 @@ func (item Star) MaxLen() int {
 
 func (item Star) Find(s string) (index, length int, support FindFlag) {
 	support = FindStar
-	length = utils.StringSkipRunes(s, int(item))
+	if length = utils.StringSkipRunes(s, int(item)); length == -1 {
+		index = -1
+	}
 	return
 }
 
-- 
2.43.0


From 8b57435b0f5ba4c8a02067d33c05e0521a36652a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:35 +0000
Subject: [PATCH 07/33] fix: glob without wildcards never matched by the tree

---
 glob/tree.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/glob/tree.go b/glob/tree.go
index a1c347b..51e6273 100644
--- a/glob/tree.go
+++ b/glob/tree.go
@@ -41,6 +41,17 @@ func addGlob(rootTree *items.TreeItem, gg *Glob, index int) *items.TreeItem {
 		treeItem = newItem
 	}
 
+	if len(gg.Items) == 0 {
+		// glob without wildcards
+		node := items.NewString(gg.Node)
+		newItem := items.LocateChildTreeItem(treeItem.Childs, node, false)
+		if newItem == nil {
+			newItem = &items.TreeItem{Item: node}
+			treeItem.Childs = append(treeItem.Childs, newItem)
+		}
+		treeItem = newItem
+	}
+
 	for i := 0; i < len(gg.Items); i++ {
 		newItem := items.LocateChildTreeItem(treeItem.Childs, gg.Items[i], false)
 		if newItem == nil {
-- 
2.43.0


From 5757f572ebe07b51e8daa4cb478571836de4b39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:36 +0000
Subject: [PATCH 08/33] fix: tree scan after star: lost terminated nodes, list
 offsets, glued wildcards, endless loop

---
 pkg/items/tree.go | 106 ++++++++++------------------------------------
 1 file changed, 23 insertions(+), 83 deletions(-)

diff --git a/pkg/items/tree.go b/pkg/items/tree.go
index 63a17be..a9774d4 100644
--- a/pkg/items/tree.go
+++ b/pkg/items/tree.go
@@ -155,19 +155,7 @@ func (item *TreeItem) match(s string, store Store) (matched int, abort bool) {
 	case FindForwarded:
 		panic("forwarded match")
 	case FindStar:
-		if len(item.Childs) == 0 {
-			if item.Terminate {
-				store.Store(item.Query, item.Index)
-				matched++
-			}
-			return
-		} else {
-			for i := 0; i < len(item.Childs); i++ {
-				if n, _ := item.Childs[i].matchStar(s, store); n > 0 {
-					matched += n
-				}
-			}
-		}
+		matched += item.matchStarNextTreeItem(s, store)
 	default:
 		panic(fmt.Errorf("unsupported find flag: %d", flag))
 	}
@@ -187,7 +175,6 @@ func (item *TreeItem) matchStar(s string, store Store) (matched int, abortGready
 		flag           FindFlag
 	)
 
-	optional := true // flag for avoid repeated scan of optional list (empty value)
 	for {
 		if len(s) < item.Item.MinLen() {
 			abortGready = true
@@ -204,21 +191,11 @@ func (item *TreeItem) matchStar(s string, store Store) (matched int, abortGready
 		case FindDone:
 			s := s[length:]
 
-			if s == "" && len(item.Childs) == 0 && item.Terminate {
-				store.Store(item.Query, item.Index)
-				matched++
-			} else {
-				for i := 0; i < len(item.Childs); i++ {
-					if n, _ := item.Childs[i].match(s, store); n > 0 {
-						matched += n
-					}
-				}
-			}
+			matched += item.matchNextTreeItem(s, store)
 		case FindList:
 			list := item.Item.(ItemList)
 
-			if list.IsOptional() && optional {
-				optional = false
+			if list.IsOptional() {
 				if item.Terminate {
 					store.Store(item.Query, item.Index)
 					matched++
@@ -231,53 +208,27 @@ func (item *TreeItem) matchStar(s string, store Store) (matched int, abortGready
 				}
 			}
 
-			for {
-				var offsetN int
-				offset := -1
-				for i := 0; i < list.Len(); i++ {
-					if offsetN, length = list.FindN(s, i); offsetN == -1 {
-						continue
-					}
-					if offset == -1 || offset < offsetN {
-						offset = offsetN
-					}
-					s := s[offsetN+length:]
-
-					if s == "" {
-						if item.Terminate {
-							store.Store(item.Query, item.Index)
-							matched++
-						}
+			// check all occurrences of each value
+			for i := 0; i < list.Len(); i++ {
+				s := s
+				for {
+					if offset, length = list.FindN(s, i); offset == -1 {
+						break
 					}
-					for i := 0; i < len(item.Childs); i++ {
-						if n, _ := item.Childs[i].match(s, store); n > 0 {
-							matched += n
-						}
+					s = s[offset:]
+					matched += item.matchNextTreeItem(s[length:], store)
+					// shift to one rune
+					if _, length = utf8.DecodeRuneInString(s); length < 1 {
+						break
 					}
+					s = s[length:]
 				}
-				if offset == -1 {
-					break
-				}
-				s = s[offset:]
-				if _, length = utf8.DecodeRuneInString(s); length < 1 {
-					break
-				}
-				s = s[length:]
-			}
-			if offset == -1 {
-				break
 			}
-			s = s[offset:]
-			if _, length = utf8.DecodeRuneInString(s); length < 1 {
-				break
-			}
-			s = s[length:]
-
+			return
 		case FindGroup:
 			group := item.Item.(*Group)
 
 			if group.IsOptional() {
-				optional = false
 				if item.Terminate {
 					store.Store(item.Query, item.Index)
 					matched++
@@ -305,20 +256,9 @@ func (item *TreeItem) matchStar(s string, store Store) (matched int, abortGready
 
 		case FindNotSupported:
 			panic("not supported in match")
-		case FindForwarded:
-			panic("forwarded match")
-		case FindStar:
-			if len(item.Childs) == 0 && item.Terminate {
-				store.Store(item.Query, item.Index)
-				matched++
-				return
-			}
-			for i := 0; i < len(item.Childs); i++ {
-				if n, _ := item.Childs[i].matchStar(s, store); n > 0 {
-					matched += n
-				}
-			}
-
+		case FindForwarded, FindStar:
+			// merge with previous star, like *? or **
+			matched += item.matchStarNextTreeItem(s[length:], store)
 			return
 		default:
 			panic(fmt.Errorf("unsupported find flag: %d", flag))
@@ -444,10 +384,10 @@ func (item *TreeItem) matchItemsInTree(s string, items []Item, store Store) (mat
 				if n := item.matchStarNextTreeItem(s, store); n > 0 {
 					matched += n
 				}
-				return
 			} else if n, _ := item.matchStarItemsInTree(s, items[pos:], store); n > 0 {
 				matched += n
 			}
+			return
 		default:
 			panic(fmt.Errorf("unsupported find flag: %d", flag))
 		}
@@ -580,9 +520,9 @@ func (item *TreeItem) matchStarItemsInTree(s string, items []Item, store Store)
 
 		case FindNotSupported:
 			panic("not supported in match")
-		case FindForwarded:
-			panic("forwarded match")
-		case FindStar:
+		case FindForwarded, FindStar:
+			// merge with previous star, like *? or **
+			s = s[length:]
 			if len(items) == 1 {
 				if n := item.matchStarNextTreeItem(s, store); n > 0 {
 					matched += n
-- 
2.43.0


From e464a86bea6fcb21328736cfa0a891bdbb702b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:51 +0000
Subject: [PATCH 09/33] fix: max length of dotted glob must include the dots

---
 gglob/gglob.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gglob/gglob.go b/gglob/gglob.go
index 6e5b4cc..89693c6 100644
--- a/gglob/gglob.go
+++ b/gglob/gglob.go
@@ -104,6 +104,11 @@ func Parse(s string) (gg *GGlob, err error) {
 		gg.MaxLen = items.AddMaxLen(gg.MaxLen, g.MaxLen)
 	}
 
+	if len(gg.Parts) > 1 {
+		// dots between parts
+		gg.MaxLen = items.AddMaxLen(gg.MaxLen, len(gg.Parts)-1)
+	}
+
 	var buf strings.Builder
 	buf.Grow(len(s))
 	for i, g := range gg.Parts {
-- 
2.43.0


From 79b9b14e43d93637e1afcae5ccd04bb95a85536f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:52 +0000
Subject: [PATCH 10/33] fix: dotted glob with empty last part must be rejected

---
 gglob/gglob.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gglob/gglob.go b/gglob/gglob.go
index 89693c6..e30ed70 100644
--- a/gglob/gglob.go
+++ b/gglob/gglob.go
@@ -104,6 +104,12 @@ func Parse(s string) (gg *GGlob, err error) {
 		gg.MaxLen = items.AddMaxLen(gg.MaxLen, g.MaxLen)
 	}
 
+	if len(gg.Parts) != level {
+		// empty last part, like a..
+		err = items.ErrNodeEmpty{s}
+		return
+	}
+
 	if len(gg.Parts) > 1 {
 		// dots between parts
 		gg.MaxLen = items.AddMaxLen(gg.MaxLen, len(gg.Parts)-1)
-- 
2.43.0


From df7318357cf3dd946e07ac270cbce1399652f31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:53 +0000
Subject: [PATCH 11/33] fix: AddGlob must register raw glob

---
 gglob/gtree.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gglob/gtree.go b/gglob/gtree.go
index 4db72ae..fed1ab4 100644
--- a/gglob/gtree.go
+++ b/gglob/gtree.go
@@ -229,8 +229,8 @@ func (gtree *GGlobTree) AddGlob(g *GGlob, index int) (normalized string, n int,
 
 	addGGlob(gtree.Root, g, index)
 
-	gtree.Globs[g.Node] = index
-	if normalized != g.Node {
+	gtree.Globs[g.Glob] = index
+	if normalized != g.Glob {
 		gtree.Globs[normalized] = index
 	}
 	gtree.GlobsIndex[index] = normalized
-- 
2.43.0


From 784228d8f3c423ec04de2955d7f509a394b00324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:19 +0000
Subject: [PATCH 12/33] fix: MatchByTags lost tags after a not existing tag of
 != term

---
 gtags/tagged_term.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gtags/tagged_term.go b/gtags/tagged_term.go
index bd5bd34..b6af2ef 100644
--- a/gtags/tagged_term.go
+++ b/gtags/tagged_term.go
@@ -151,18 +151,20 @@ LOOP:
 		}
 		if term.Key != tags[i].Key {
 			// scan for tag
-			for ; i < len(tags); i++ {
-				if tags[i].Key == term.Key {
+			pos := i
+			for ; pos < len(tags); pos++ {
+				if tags[pos].Key == term.Key {
 					break
 				}
 			}
-			if len(tags) == i {
+			if len(tags) == pos {
 				if term.Op == TaggedTermNe || term.Op == TaggedTermNotMatch {
 					// != and ~=! can be skiped and key can not exist
 					continue LOOP
 				}
 				return false
 			}
+			i = pos
 		}
 		if !term.Match(tags[i].Value) {
 			return false
-- 
2.43.0


From fc4a53bbf9889d2339236133286aaf40200b7ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:20 +0000
Subject: [PATCH 13/33] fix: tagged term with blank key must be rejected

---
 gtags/tagged_term.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gtags/tagged_term.go b/gtags/tagged_term.go
index b6af2ef..69a9ec1 100644
--- a/gtags/tagged_term.go
+++ b/gtags/tagged_term.go
@@ -259,6 +259,9 @@ func ParseTaggedConditions(conditions []string) (terms TaggedTermList, err error
 			return nil, ErrExprInvalid{s}
 		}
 		terms[i].Key = strings.TrimSpace(s[:pos])
+		if terms[i].Key == "" {
+			return nil, ErrExprInvalid{s}
+		}
 		s = s[pos:]
 		if strings.HasPrefix(s, "=") {
 			if strings.HasPrefix(s, "=~") {
-- 
2.43.0


From 4ffcce7c648b9f88fdd9bbc8be92307860501cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:21 +0000
Subject: [PATCH 14/33] fix: seriesByTag() must be reported and counted by the
 tree

---
 gtags/tree.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/gtags/tree.go b/gtags/tree.go
index fbc765f..a8d14c3 100644
--- a/gtags/tree.go
+++ b/gtags/tree.go
@@ -117,12 +117,19 @@ func (gtree *GTagsTree) AddTerms(terms TaggedTermList, index int) (normalized st
 }
 
 func (gtree *GTagsTree) MatchByTagsMap(tags map[string]string, store items.Store) (matched int) {
-	return gtree.Root.MatchByTagsMap(tags, store)
+	if gtree.Terminate {
+		store.Store(gtree.Terminated.Query, gtree.Terminated.Index)
+		matched++
+	}
+	matched += gtree.Root.MatchByTagsMap(tags, store)
+	return
 }
 
 func (gtree *GTagsTree) MatchByTags(tags []Tag, store items.Store) (matched int) {
 	if gtree.Terminate {
 		store.Store(gtree.Terminated.Query, gtree.Terminated.Index)
+		matched++
 	}
-	return gtree.Root.MatchByTags(tags, store)
+	matched += gtree.Root.MatchByTags(tags, store)
+	return
 }
-- 
2.43.0


From aa1bba254f522475729f17b5bfa9e3491630bc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:22 +0000
Subject: [PATCH 15/33] fix: terms added with AddTerms must be matched

---
 gtags/tree.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gtags/tree.go b/gtags/tree.go
index a8d14c3..615fcb0 100644
--- a/gtags/tree.go
+++ b/gtags/tree.go
@@ -105,7 +105,10 @@ func (gtree *GTagsTree) AddTerms(terms TaggedTermList, index int) (normalized st
 			Terminate: true, Index: index, Query: normalized,
 		}
 	} else {
-		gtree.Root.Parse(terms, normalized, index)
+		lastItem := gtree.Root.Parse(terms, normalized, index)
+		lastItem.Terminate = true
+		lastItem.Query = normalized
+		lastItem.Index = index
 	}
 
 	gtree.Queries[normalized] = index
-- 
2.43.0


From 1e29f188ac8f1c685ae8432c3a6b5f633717da2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:23 +0000
Subject: [PATCH 16/33] fix: normalized seriesByTag must be parsed back
 (quotes, leading ~)

---
 gtags/tagged_term.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/gtags/tagged_term.go b/gtags/tagged_term.go
index 69a9ec1..3604e51 100644
--- a/gtags/tagged_term.go
+++ b/gtags/tagged_term.go
@@ -42,6 +42,10 @@ type TaggedTerm struct {
 func (t TaggedTerm) WriteString(buf *strings.Builder) {
 	buf.WriteString(t.Key)
 	buf.WriteString(t.Op.String())
+	if strings.HasPrefix(t.Value, "~") && (t.Op == TaggedTermEq || t.Op == TaggedTermNe) {
+		// = and value with leading ~ is not a =~
+		buf.WriteByte(' ')
+	}
 	buf.WriteString(t.Value)
 }
 
@@ -108,9 +112,13 @@ func (t TaggedTermList) WriteString(buf *strings.Builder) {
 		if i > 0 {
 			buf.WriteByte(',')
 		}
-		buf.WriteByte('\'')
+		quote := byte('\'')
+		if strings.IndexByte(t[i].Key, quote) != -1 || strings.IndexByte(t[i].Value, quote) != -1 {
+			quote = '"'
+		}
+		buf.WriteByte(quote)
 		t[i].WriteString(buf)
-		buf.WriteByte('\'')
+		buf.WriteByte(quote)
 	}
 	buf.WriteString(")")
 }
-- 
2.43.0


From fc1fe88ddb8f04316d17cd28706d54f77fbb8882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:34 +0000
Subject: [PATCH 17/33] fix: escape must not lose the last symbol after escaped

---
 pkg/escape/url.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/escape/url.go b/pkg/escape/url.go
index bedba35..bb53e93 100644
--- a/pkg/escape/url.go
+++ b/pkg/escape/url.go
@@ -182,7 +182,7 @@ func escapeTo(s string, mode encoding, sb *bytes.Buffer) {
 	if pos == 0 {
 		sb.WriteString(s)
 		return
-	} else if pos < len(s)-1 {
+	} else if pos < len(s) {
 		sb.WriteString(s[pos:])
 	}
 }
-- 
2.43.0


From f9d6fb37f6eadfc7382b131809cdffdf75408877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:35 +0000
Subject: [PATCH 18/33] fix: not expandable class must be kept as is (lost
 brackets)

---
 expand/expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expand/expression.go b/expand/expression.go
index aceba7d..6203db9 100644
--- a/expand/expression.go
+++ b/expand/expression.go
@@ -143,7 +143,7 @@ func getExpression(in string) Expression {
 			// return rune{in}
 			rs, ok := runesRangeExpand(in)
 			if !ok {
-				return Expression{typ: expWildcard, body: in}
+				return Expression{typ: expWildcard, body: orig}
 			}
 			if len(rs) == 0 {
 				return Expression{body: ""}
-- 
2.43.0


From 67924a71df1f212e6a5c1cfbc448747b51384b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:36 +0000
Subject: [PATCH 19/33] fix: panic on expand of empty list {} or class []

---
 expand/expand.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expand/expand.go b/expand/expand.go
index 755c61f..0e232a9 100644
--- a/expand/expand.go
+++ b/expand/expand.go
@@ -241,7 +241,7 @@ func ParseExpr(in string) (e *Expressions) {
 	}
 
 	last := len(e.exps) - 1
-	if e.exps[last].typ == expWildcard {
+	if last >= 0 && e.exps[last].typ == expWildcard {
 		s := e.exps[last].body
 		pos := asciiSet.LastIndex(s) + 1
 		if pos < len(s) {
-- 
2.43.0


From 11a58c959023b2d80692da6bfba8b6a62277bfc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:37 +0000
Subject: [PATCH 20/33] fix: expressions must be reusable after expand with try

---
 expand/expand.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/expand/expand.go b/expand/expand.go
index 0e232a9..2958b58 100644
--- a/expand/expand.go
+++ b/expand/expand.go
@@ -158,6 +158,7 @@ func expand(exps []Expression, result []string, count, max, depth int, try bool,
 			}
 
 			if try {
+				exps[0].reset()
 				break
 			}
 		}
-- 
2.43.0


From 22f41130f97226e1565b570ef96c1c78a4c5c4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:37 +0000
Subject: [PATCH 21/33] fix: expand with max must not panic on preallocation of
 all possible results

---
 expand/expand.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/expand/expand.go b/expand/expand.go
index 2958b58..217eb5f 100644
--- a/expand/expand.go
+++ b/expand/expand.go
@@ -8,6 +8,9 @@ import (
 	"github.com/msaf1980/go-matcher/pkg/utils"
 )
 
+// maxPrealloc is a limit for preallocated results
+const maxPrealloc = 1024
+
 var (
 	ErrNotClosed = errors.New("expression not closed")
 
@@ -88,6 +91,11 @@ func (e *Expressions) Expand(max, depth int, try bool) ([]string, error) {
 	count := 1
 	for i := 0; i < len(e.exps); i++ {
 		count *= e.exps[i].count()
+		if count > maxPrealloc {
+			// prealloc is only a hint, also avoid overflow (results can be restricted with max)
+			count = maxPrealloc
+			break
+		}
 		if e.exps[i].typ == expWildcard {
 			break
 		}
-- 
2.43.0


From 7d2d9f444ebfa317d43b100a778baac8ce66bbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:19 +0000
Subject: [PATCH 22/33] fix: RunesRanges.EndsWith must return a start offset of
 the last ASCII symbol

---
 pkg/utils/runesranges.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/utils/runesranges.go b/pkg/utils/runesranges.go
index aa9a15a..0731381 100644
--- a/pkg/utils/runesranges.go
+++ b/pkg/utils/runesranges.go
@@ -356,7 +356,7 @@ func (rs *RunesRanges) EndsWith(s string) (c rune, n int) {
 	// detect ASCII
 	if c < utf8.RuneSelf {
 		if rs.ASCII.Contains(byte(c)) {
-			return c, 1
+			return c, len(s) - 1
 		} else {
 			return utf8.RuneError, -1
 		}
-- 
2.43.0


From e3af30932597f2aa7caaa956d501fd4b51f06c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:20 +0000
Subject: [PATCH 23/33] fix: endless loop in RunesRanges.IndexByte

---
 pkg/utils/runesranges.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/utils/runesranges.go b/pkg/utils/runesranges.go
index 0731381..f68c6b0 100644
--- a/pkg/utils/runesranges.go
+++ b/pkg/utils/runesranges.go
@@ -270,6 +270,7 @@ func (rs *RunesRanges) IndexByte(b []byte) (pos int, c rune, n int) {
 			if rs.ASCII.Contains(b[i]) {
 				return i, rune(b[i]), 1
 			}
+			i++
 		} else {
 			c, n = utf8.DecodeRune(b[i:])
 			if c == utf8.RuneError {
-- 
2.43.0


From 388027638a54935cab7700f38fe7a4e1c5572d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:22 +0000
Subject: [PATCH 24/33] fix: adjacent ranges with different UTF-8 length can't
 be merged (not parsed back)

---
 pkg/utils/runesranges.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/utils/runesranges.go b/pkg/utils/runesranges.go
index f68c6b0..fd6e391 100644
--- a/pkg/utils/runesranges.go
+++ b/pkg/utils/runesranges.go
@@ -28,7 +28,8 @@ func RunesRangeMerge(ranges []RuneRange) []RuneRange {
 		pos := i
 		if pos < n-1 {
 			for next := i + 1; next < n; next++ {
-				if ranges[pos].First == ranges[next].First || ranges[pos].Last+1 >= ranges[next].First {
+				if ranges[pos].Last >= ranges[next].First ||
+					(ranges[pos].Last+1 == ranges[next].First && utf8.RuneLen(ranges[pos].Last) == utf8.RuneLen(ranges[next].First)) {
 					if ranges[pos].Last < ranges[next].Last {
 						// merge two ranges, like [1-3 1-4] [1-3 2-5] [1-3 4-5 5-7]
 						ranges[pos].Last = ranges[next].Last
-- 
2.43.0


From 31d635fba9c168a482cbb068f3e037c91979b037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:24 +0000
Subject: [PATCH 25/33] fix: ASCIISet string must contain the last symbol
 (0x7F)

---
 pkg/utils/asciiset.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/utils/asciiset.go b/pkg/utils/asciiset.go
index 6e9ef9b..bb33148 100644
--- a/pkg/utils/asciiset.go
+++ b/pkg/utils/asciiset.go
@@ -34,6 +34,10 @@ func (ac *ASCIISet) WriteString(buf *strings.Builder) {
 		}
 		if start != 0 {
 			buf.WriteByte(start)
+			if start < 127 {
+				buf.WriteByte('-')
+				buf.WriteByte(127)
+			}
 		}
 	}
 }
@@ -78,7 +82,7 @@ func (ac *ASCIISet) String() string {
 
 func (ac *ASCIISet) WriteStringAll(buf *strings.Builder) {
 	var i byte
-	for i = 1; i < 127; i++ {
+	for i = 1; i <= 127; i++ {
 		if ac.Contains(i) {
 			buf.WriteByte(i)
 		}
-- 
2.43.0


From 1fbffef598e100cf221045660cae14fd626fd529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:25 +0000
Subject: [PATCH 26/33] fix: Byte.MatchLast must return an offset of the last
 symbol

---
 pkg/items/byte.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/items/byte.go b/pkg/items/byte.go
index 2367cd6..7d7605a 100644
--- a/pkg/items/byte.go
+++ b/pkg/items/byte.go
@@ -72,8 +72,7 @@ func (item Byte) Match(s string) (offset int, support FindFlag) {
 }
 
 func (item Byte) MatchLast(s string) (offset int, support FindFlag) {
-	n := len(s) - 1
-	if c := s[n]; c != byte(item) {
+	if offset = len(s) - 1; offset >= 0 && s[offset] != byte(item) {
 		offset = -1
 	}
 	return
-- 
2.43.0


From 6bba024a4a925cf5043da82daa381d7a08755285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:27 +0000
Subject: [PATCH 27/33] fix: new AllStore has no min index

---
 pkg/items/store.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/items/store.go b/pkg/items/store.go
index d807e3d..20a732d 100644
--- a/pkg/items/store.go
+++ b/pkg/items/store.go
@@ -81,7 +81,7 @@ type AllStore struct {
 }
 
 func NewAllStore() *AllStore {
-	return &AllStore{}
+	return &AllStore{Min: MinStore{-1}}
 }
 
 func (s *AllStore) Init() {
-- 
2.43.0


From 47fe3785b61b02750c3e380b739e1a71ad4bed8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:29 +0000
Subject: [PATCH 28/33] fix: IntersectGlobs compared the first glob with itself

---
 pkg/items/utils.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/items/utils.go b/pkg/items/utils.go
index f390c17..1d54e4e 100644
--- a/pkg/items/utils.go
+++ b/pkg/items/utils.go
@@ -38,7 +38,7 @@ func IntersectGlobs(globs []string) string {
 	if len(globs) == 0 {
 		return ""
 	}
-	if len(globs) == 0 {
+	if len(globs) == 1 {
 		if pos := IndexWildcard(globs[0]); pos == -1 {
 			return globs[0]
 		} else {
@@ -57,7 +57,7 @@ func IntersectGlobs(globs []string) string {
 				// glob shortest item
 				return globs[0][:pos]
 			}
-			c, _ := utf8.DecodeRuneInString(globs[0][pos:])
+			c, _ := utf8.DecodeRuneInString(globs[i][pos:])
 			if c0 != c {
 				return globs[0][:pos]
 			}
-- 
2.43.0


From 09f26d34a0391a4d00211f5f1da70e59427069a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:56 +0000
Subject: [PATCH 29/33] fix: PathSplitB must report an empty last part (a..)

---
 gglob/utils.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gglob/utils.go b/gglob/utils.go
index 8578b96..c922ca5 100644
--- a/gglob/utils.go
+++ b/gglob/utils.go
@@ -41,8 +41,8 @@ func PathSplitB(path string, parts *[]string) (ok bool) {
 	}
 
 	var part string
-	for path != "" {
-		part, path, _ = strings.Cut(path, ".")
+	for next := true; next; {
+		part, path, next = strings.Cut(path, ".")
 		if part == "" {
 			return
 		}
-- 
2.43.0


From 55a497662e4af557109b3089f21178fd9cfa17a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:56 +0000
Subject: [PATCH 30/33] fix: dotted glob with a part like [] must be rejected
 (its normalized text is not a valid glob)

---
 gglob/gglob.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gglob/gglob.go b/gglob/gglob.go
index e30ed70..bbd9209 100644
--- a/gglob/gglob.go
+++ b/gglob/gglob.go
@@ -98,6 +98,11 @@ func Parse(s string) (gg *GGlob, err error) {
 		if g, err = glob.Parse(part); err != nil {
 			return
 		}
+		if g.MaxLen == 0 {
+			// matches only an empty part, like []
+			err = items.ErrNodeEmpty{s}
+			return
+		}
 
 		gg.Parts = append(gg.Parts, g)
 		gg.MinLen += g.MinLen
-- 
2.43.0


From f167f16bae5cd0375c7f4042f20ef9d16caa94f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:34 +0000
Subject: [PATCH 31/33] fix: tag without = must be reported and not be joined
 with the next one (a&b=c)

---
 gtags/tagged_term.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/gtags/tagged_term.go b/gtags/tagged_term.go
index 3604e51..7bcf110 100644
--- a/gtags/tagged_term.go
+++ b/gtags/tagged_term.go
@@ -393,18 +393,14 @@ func GraphitePathTags(path string) (tags []Tag, err error) {
 }
 
 func NextTag(tags string) (tag, value, next string, found bool) {
-	tag, next, found = strings.Cut(tags, "=")
-	if found {
-		value, next, _ = strings.Cut(next, "&")
-	}
+	tag, next, _ = strings.Cut(tags, "&")
+	tag, value, found = strings.Cut(tag, "=")
 	return
 }
 
 func GraphiteNextTag(tags string) (tag, value, next string, found bool) {
-	tag, next, found = strings.Cut(tags, "=")
-	if found {
-		value, next, _ = strings.Cut(next, ";")
-	}
+	tag, next, _ = strings.Cut(tags, ";")
+	tag, value, found = strings.Cut(tag, "=")
 	return
 }
 
-- 
2.43.0


From 9f08c4176242d30b6ba617b1dac31edae058f288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:18 +0000
Subject: [PATCH 32/33] fix: AddGlob/AddTerms must return and register the
 normalized text

---
 gglob/gtree.go | 3 ++-
 glob/tree.go   | 3 ++-
 gtags/tree.go  | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/gglob/gtree.go b/gglob/gtree.go
index fed1ab4..87cdde3 100644
--- a/gglob/gtree.go
+++ b/gglob/gtree.go
@@ -222,8 +222,9 @@ func (gtree *GGlobTree) AddGlob(g *GGlob, index int) (normalized string, n int,
 		return
 	}
 
-	if normalized, ok = gtree.GlobsIndex[index]; ok {
+	if prev, ok := gtree.GlobsIndex[index]; ok {
 		err = glob.ErrIndexDup
+		normalized = prev
 		return
 	}
 
diff --git a/glob/tree.go b/glob/tree.go
index 51e6273..788ad49 100644
--- a/glob/tree.go
+++ b/glob/tree.go
@@ -155,8 +155,9 @@ func (gtree *GlobTree) AddGlob(g *Glob, index int) (normalized string, n int, er
 		return
 	}
 
-	if normalized, ok = gtree.GlobsIndex[index]; ok {
+	if prev, ok := gtree.GlobsIndex[index]; ok {
 		err = ErrIndexDup
+		normalized = prev
 		return
 	}
 
diff --git a/gtags/tree.go b/gtags/tree.go
index 615fcb0..e2a6480 100644
--- a/gtags/tree.go
+++ b/gtags/tree.go
@@ -95,8 +95,9 @@ func (gtree *GTagsTree) AddTerms(terms TaggedTermList, index int) (normalized st
 		err = glob.ErrGlobExist
 		return
 	}
-	if normalized, ok = gtree.QueryIndex[index]; ok {
+	if prev, ok := gtree.QueryIndex[index]; ok {
 		err = glob.ErrIndexDup
+		normalized = prev
 		return
 	}
 
-- 
2.43.0


From 9443552f0da299ab1891e1bb38bcf7c22d3d53b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:42 +0000
Subject: [PATCH 33/33] fix: blanks at the ends of a value (v[ ]) must survive
 in normalized seriesByTag

---
 gtags/tagged_term.go | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/gtags/tagged_term.go b/gtags/tagged_term.go
index 7bcf110..54d91af 100644
--- a/gtags/tagged_term.go
+++ b/gtags/tagged_term.go
@@ -5,6 +5,8 @@ import (
 	"regexp"
 	"sort"
 	"strings"
+	"unicode"
+	"unicode/utf8"
 
 	"github.com/msaf1980/go-matcher/glob"
 	"github.com/msaf1980/go-matcher/pkg/escape"
@@ -42,13 +44,38 @@ type TaggedTerm struct {
 func (t TaggedTerm) WriteString(buf *strings.Builder) {
 	buf.WriteString(t.Key)
 	buf.WriteString(t.Op.String())
-	if strings.HasPrefix(t.Value, "~") && (t.Op == TaggedTermEq || t.Op == TaggedTermNe) {
-		// = and value with leading ~ is not a =~
-		buf.WriteByte(' ')
+	if t.Op == TaggedTermEq || t.Op == TaggedTermNe {
+		if strings.HasPrefix(t.Value, "~") {
+			// = and value with leading ~ is not a =~
+			buf.WriteByte(' ')
+		}
+		if strings.TrimSpace(t.Value) != t.Value {
+			// a blank at the start or at the end (from v[ ]) is trimmed on parsing, if not in brackets
+			writeBlanks(buf, t.Value)
+			return
+		}
 	}
 	buf.WriteString(t.Value)
 }
 
+// writeBlanks writes a value, blanks at the start and at the end are written in brackets
+func writeBlanks(buf *strings.Builder, s string) {
+	if c, n := utf8.DecodeRuneInString(s); unicode.IsSpace(c) {
+		buf.WriteByte('[')
+		buf.WriteString(s[:n])
+		buf.WriteByte(']')
+		s = s[n:]
+	}
+	if c, n := utf8.DecodeLastRuneInString(s); unicode.IsSpace(c) {
+		buf.WriteString(s[:len(s)-n])
+		buf.WriteByte('[')
+		buf.WriteString(s[len(s)-n:])
+		buf.WriteByte(']')
+	} else {
+		buf.WriteString(s)
+	}
+}
+
 func (t TaggedTerm) String() string {
 	var buf strings.Builder
 	buf.Grow(24)
-- 
2.43.0

