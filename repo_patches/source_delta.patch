From faaec5e5761b6b4cea0763b99f191935083c2e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:47 +0000
Subject: [PATCH 01/25] fix: keep parent links in step when moving and deleting
 tree nodes

---
 pkg/world/tree.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/pkg/world/tree.go b/pkg/world/tree.go
index 6baa839..92cf2cf 100644
--- a/pkg/world/tree.go
+++ b/pkg/world/tree.go
@@ -152,9 +152,12 @@ func (t *tree) AddOrMove(item *Item) error {
 	}
 	if node, ok := t.Root().Find(item.Id); ok {
 		// Already in a different Tree.
-		// Just move the node to this Tree.
+		// Just move the node to this Tree - unless this Tree is part of the node, which would detach both from the Root.
+		if node.Has(t.Item().Id, false) {
+			return errors.New("cannot move Item into its own Components").UseCode(errors.TopolithErrorConflict).WithData(errors.KvPair{Key: "id", Value: item.Id})
+		}
 		node.Parent().Components().Remove(node)
-		t.components.Add(node)
+		t.adopt(node)
 		return nil
 	}
 	// Not in any Tree. Make it and add.
@@ -203,10 +206,15 @@ func (t *tree) Delete(id string) {
 		// The item doesn't exist here.
 		return
 	}
+	parent, ok := found.Parent().(*tree)
+	if !ok || parent == emptyTree {
+		// There is no parent to remove it from.
+		return
+	}
 	foundComponents := found.Components().ToSlice()
-	found.Parent().Components().Remove(found)
+	parent.Components().Remove(found)
 	for _, c := range foundComponents {
-		found.Parent().Components().Add(c)
+		parent.adopt(c)
 	}
 }
 
@@ -257,6 +265,14 @@ func (t *tree) Empty() bool {
 
 // --- INTERNAL HELPERS ---
 
+// adopt adds an existing node to the Components of this Tree and makes this Tree its parent.
+func (t *tree) adopt(node Tree) {
+	if n, ok := node.(*tree); ok {
+		n.parent = t
+	}
+	t.components.Add(node)
+}
+
 func newTree(item *Item, parent *tree) *tree {
 	return &tree{
 		item:       item,
-- 
2.43.0


From 75be3abac371c4d4f662dc73073f9939e2d40187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:41 +0000
Subject: [PATCH 02/25] fix: keep item attributes in the tree and in what
 create returns

---
 pkg/world/world.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/pkg/world/world.go b/pkg/world/world.go
index 7df1d58..c3ff41b 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -325,11 +325,11 @@ func (w *world) ItemCreate(id string, params ItemParams) WorldWithItem {
 		}
 		return w
 	}
-	item := Item{
+	w.Items[id] = Item{
 		Id: id,
 	}
-	w.Items[id] = item
 	w.ItemSet(id, params) // After we set in the tracking map on World.
+	item := w.Items[id]
 	w.latestItem = &item
 	if err := w.Tree.AddOrMove(&item); err != nil {
 		// This shouldn't happen if we're properly syncing the Items map with Tree...
@@ -386,6 +386,7 @@ func (w *world) ItemSet(id string, params ItemParams) WorldWithItem {
 	}
 	w.Items[id] = item
 	w.latestItem = &item
+	w.syncItem(item)
 	return w
 }
 
@@ -467,12 +468,12 @@ func (w *world) RelCreate(fromId, toId string, params RelParams) WorldWithRel {
 		}
 		return w
 	}
-	rel := Rel{
+	w.Rels[relIdFromIds(fromId, toId)] = Rel{
 		From: fromItem,
 		To:   toItem,
 	}
-	w.Rels[rel.id()] = rel
 	w.RelSet(fromId, toId, params) // After we set in the tracking map on World.
+	rel := w.Rels[relIdFromIds(fromId, toId)]
 	w.latestRel = &rel
 	return w
 }
@@ -725,6 +726,18 @@ func (w *world) resetLatestTrackers() {
 	w.latestErr = nil
 }
 
+// syncItem carries the current attributes of an Item over to its entry in the Tree.
+func (w *world) syncItem(item Item) {
+	if w.Tree == nil {
+		return
+	}
+	if found, ok := w.Tree.Find(item.Id); ok {
+		if node, ok := found.(*tree); ok {
+			node.item = &item
+		}
+	}
+}
+
 func strPtr(s string) *string {
 	return &s
 }
-- 
2.43.0


From af07a052439f762844600045b15a0e4ebaa5e4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:43 +0000
Subject: [PATCH 03/25] fix: accept item types by name as the grammar writes
 them

---
 pkg/world/world.go | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/pkg/world/world.go b/pkg/world/world.go
index c3ff41b..906b35a 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -402,8 +402,8 @@ func itemSet(item Item, params ItemParams) (Item, error) {
 		item.External = *params.External
 	}
 	if params.Type != nil {
-		if iotaType, err := strconv.Atoi(*params.Type); err == nil {
-			item.Type = ItemType(iotaType)
+		if itemType, err := itemTypeFromParam(*params.Type); err == nil {
+			item.Type = itemType
 		} else {
 			errs = append(errs, err)
 		}
@@ -682,7 +682,7 @@ func equalItemParams(existing Item, params ItemParams) error {
 	if (params.Name != nil && *params.Name != existing.Name) ||
 		(params.Expanded != nil && *params.Expanded != existing.Expanded) ||
 		(params.External != nil && *params.External != existing.External) ||
-		(params.Type != nil && strconv.Itoa(int(existing.Type)) != *params.Type) ||
+		(params.Type != nil && !isItemType(*params.Type, existing.Type)) ||
 		(params.Mechanism != nil && *params.Mechanism != existing.Mechanism) {
 		existingJson, _ := json.Marshal(existing)
 		paramsJson, _ := json.Marshal(params)
@@ -698,6 +698,26 @@ func equalItemParams(existing Item, params ItemParams) error {
 	return nil
 }
 
+// itemTypeFromParam returns the ItemType for its name or number. Both an empty string and 0 mean no type.
+func itemTypeFromParam(s string) (ItemType, error) {
+	if s == "" {
+		return 0, nil
+	}
+	if t := ItemTypeFromString(s); t != 0 {
+		return t, nil
+	}
+	n, err := strconv.Atoi(s)
+	if err != nil || n < 0 || n > int(Code) {
+		return 0, errors.New("unknown Item type").UseCode(errors.TopolithErrorInvalid).WithData(errors.KvPair{Key: "type", Value: s})
+	}
+	return ItemType(n), nil
+}
+
+func isItemType(s string, t ItemType) bool {
+	parsed, err := itemTypeFromParam(s)
+	return err == nil && parsed == t
+}
+
 func equalRelParams(existing Rel, params RelParams) error {
 	if (params.Verb != nil && *params.Verb != existing.Verb) ||
 		(params.Mechanism != nil && *params.Mechanism != existing.Mechanism) ||
-- 
2.43.0


From b59fd06e8e8c4bc41de6ad7ddd0895cea3d4403d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:45 +0000
Subject: [PATCH 04/25] fix: refresh relationship endpoints when an item
 changes

---
 pkg/world/world.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkg/world/world.go b/pkg/world/world.go
index 906b35a..e3f506e 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -746,8 +746,17 @@ func (w *world) resetLatestTrackers() {
 	w.latestErr = nil
 }
 
-// syncItem carries the current attributes of an Item over to its entry in the Tree.
+// syncItem carries the current attributes of an Item over to its entry in the Tree and to its relationships.
 func (w *world) syncItem(item Item) {
+	for k, rel := range w.Rels {
+		if rel.From.Id == item.Id {
+			rel.From = item
+		}
+		if rel.To.Id == item.Id {
+			rel.To = item
+		}
+		w.Rels[k] = rel
+	}
 	if w.Tree == nil {
 		return
 	}
-- 
2.43.0


From 920c1b9d6591a8bc0f64e2649c42f2e2ce15f860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:47 +0000
Subject: [PATCH 05/25] fix: keep relationship keys of different id pairs apart

---
 pkg/world/rel.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/world/rel.go b/pkg/world/rel.go
index 4c810a6..370750f 100644
--- a/pkg/world/rel.go
+++ b/pkg/world/rel.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"github.com/williamflynt/topolith/pkg/errors"
 	"github.com/williamflynt/topolith/pkg/grammar"
+	"strconv"
 	"strings"
 )
 
@@ -86,8 +87,10 @@ func (r Rel) id() string {
 	return relIdFromIds(r.From.Id, r.To.Id)
 }
 
+// relIdFromIds returns a key that is unique to the ordered pair of IDs.
+// The length keeps pairs apart when an ID contains the separator itself.
 func relIdFromIds(fromId, toId string) string {
-	return fromId + RelIdSeparator + toId
+	return strconv.Itoa(len(fromId)) + RelIdSeparator + fromId + RelIdSeparator + toId
 }
 
 // RelParams is a struct that represents the parameters that can be set on a Rel.
-- 
2.43.0


From 3475b07b6266759971e60fd9853d05f7452739eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:49 +0000
Subject: [PATCH 06/25] fix: match relationships by their own ends and honour
 strict

---
 pkg/world/world.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/world/world.go b/pkg/world/world.go
index e3f506e..eee25e8 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -507,7 +507,7 @@ func (w *world) RelFetch(fromId, toId string, strict bool) []Rel {
 func (w *world) RelTo(toId string, strict bool) []Rel {
 	rels := make([]Rel, 0)
 	rightIds := []string{toId}
-	if strict {
+	if !strict {
 		rightIds = append(w.Tree.GetDescendantIds(toId), toId)
 	}
 	for _, rel := range w.Rels {
@@ -521,11 +521,11 @@ func (w *world) RelTo(toId string, strict bool) []Rel {
 func (w *world) RelFrom(fromId string, strict bool) []Rel {
 	rels := make([]Rel, 0)
 	leftIds := []string{fromId}
-	if strict {
+	if !strict {
 		leftIds = append(w.Tree.GetDescendantIds(fromId), fromId)
 	}
-	for k, rel := range w.Rels {
-		if slices.Contains(leftIds, k) {
+	for _, rel := range w.Rels {
+		if slices.Contains(leftIds, rel.From.Id) {
 			rels = append(rels, rel)
 		}
 	}
-- 
2.43.0


From 3f790af9dc3f496b85aa40e37dc2cb079a51fcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:51 +0000
Subject: [PATCH 07/25] fix: compare worlds and trees independent of iteration
 order

---
 pkg/world/tree.go  |  2 +-
 pkg/world/world.go | 12 ++++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/pkg/world/tree.go b/pkg/world/tree.go
index 92cf2cf..9db2113 100644
--- a/pkg/world/tree.go
+++ b/pkg/world/tree.go
@@ -73,7 +73,7 @@ func TreeEqual(t1, t2 Tree) bool {
 		return components1Slice[i].Item().Id < components1Slice[j].Item().Id
 	})
 	sort.Slice(components2Slice, func(i, j int) bool {
-		return components1Slice[i].Item().Id < components1Slice[j].Item().Id
+		return components2Slice[i].Item().Id < components2Slice[j].Item().Id
 	})
 	// Compare recursively.
 	for i, c1 := range components1Slice {
diff --git a/pkg/world/world.go b/pkg/world/world.go
index eee25e8..2721409 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -214,10 +214,10 @@ func WorldEqual(w1, w2 World) bool {
 		return false
 	}
 	sort.Slice(rels1, func(i, j int) bool {
-		return rels1[i].From.Id < rels1[j].From.Id
+		return relLess(rels1[i], rels1[j])
 	})
 	sort.Slice(rels2, func(i, j int) bool {
-		return rels2[i].From.Id < rels2[j].From.Id
+		return relLess(rels2[i], rels2[j])
 	})
 	for i, rel1 := range rels1 {
 		if !RelEqual(rel1, rels2[i]) {
@@ -227,6 +227,14 @@ func WorldEqual(w1, w2 World) bool {
 	return true
 }
 
+// relLess orders Rel by the IDs of both ends.
+func relLess(r1, r2 Rel) bool {
+	if r1.From.Id != r2.From.Id {
+		return r1.From.Id < r2.From.Id
+	}
+	return r1.To.Id < r2.To.Id
+}
+
 // world is the internal implementation of the WorldWithBoth interface.
 // It necessarily implements World.
 type world struct {
-- 
2.43.0


From 540e4ce5d62e9ed85d940b844b11f94f323e468f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:53 +0000
Subject: [PATCH 08/25] fix: read world text back without loss and reject
 anything else

---
 pkg/grammar/main.go | 11 +++++++++++
 pkg/world/world.go  | 44 +++++++++++++++++++++++++++++++-------------
 2 files changed, 42 insertions(+), 13 deletions(-)

diff --git a/pkg/grammar/main.go b/pkg/grammar/main.go
index 381db04..71b0b85 100644
--- a/pkg/grammar/main.go
+++ b/pkg/grammar/main.go
@@ -68,6 +68,17 @@ func Parse(s string) (*Parser, error) {
 	return p, nil
 }
 
+// Complete returns whether the parsed statement makes up the entire input.
+func (p *Parser) Complete() bool {
+	tokens := p.Tokens()
+	return len(tokens) > 0 && int(tokens[len(tokens)-1].end) == len([]rune(p.Buffer))
+}
+
+// TreeHasNilRoot returns whether the root of the parsed Tree is empty, and not an Item.
+func (p *Parser) TreeHasNilRoot() bool {
+	return strings.HasPrefix(p.TreeString, "tree{nil::")
+}
+
 // --- INTERNAL ---
 
 func cleanString(s string) string {
diff --git a/pkg/world/world.go b/pkg/world/world.go
index 2721409..94ff9fd 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -97,30 +97,32 @@ func FromString(s string) (World, error) {
 		return nil, errors.New("error parsing World").UseCode(errors.TopolithErrorInvalid).WithError(err).WithDescription("error parsing World").WithData(errors.KvPair{Key: "input", Value: s})
 	}
 
-	w := CreateWorld(p.WorldParams["name"])
+	if p.StmtType != "WorldObject" || !p.Complete() {
+		return nil, errors.New("not a complete World").UseCode(errors.TopolithErrorInvalid).WithDescription("error parsing World").WithData(errors.KvPair{Key: "input", Value: s})
+	}
+
+	w := CreateWorld(unquote(p.WorldParams["name"]))
 
 	if version, err := strconv.Atoi(p.WorldParams["version"]); err == nil && version != 0 {
 		w.SetVersion(version)
 	}
-	if p.WorldParams["id"] != "" {
-		w.SetId(p.WorldParams["id"])
-	}
-	if p.WorldParams["expanded"] != "" {
-		w.SetExpanded(p.WorldParams["expanded"])
-	}
+	w.SetId(unquote(p.WorldParams["id"]))
+	w.SetExpanded(unquote(p.WorldParams["expanded"]))
 
 	for _, itemStr := range p.ItemStrings {
 		item, err := ItemFromString(itemStr)
 		if err != nil {
 			return nil, err
 		}
-		w.ItemCreate(item.Id, ItemParams{
+		if err := w.ItemCreate(item.Id, ItemParams{
 			Name:      strPtr(item.Name),
 			Expanded:  strPtr(item.Expanded),
 			External:  boolPtr(item.External),
 			Type:      strPtr(strconv.Itoa(int(item.Type))),
 			Mechanism: strPtr(item.Mechanism),
-		})
+		}).Err(); err != nil {
+			return nil, err
+		}
 	}
 
 	// We added our items, but they all sit at Tree root. We need to nest them properly.
@@ -130,6 +132,13 @@ func FromString(s string) (World, error) {
 		parentId string
 	}
 	stack := []queueItem{{p.Tree, ""}}
+	if p.TreeHasNilRoot() {
+		// The root of the Tree is not an Item, so there's nothing to nest its children in.
+		stack = stack[:0]
+		for _, child := range p.Tree.Children {
+			stack = append(stack, queueItem{child, ""})
+		}
+	}
 	for len(stack) > 0 {
 		current := stack[len(stack)-1]
 		stack = stack[:len(stack)-1]
@@ -137,7 +146,9 @@ func FromString(s string) (World, error) {
 			stack = append(stack, queueItem{child, current.node.Id})
 		}
 		if current.parentId != "" {
-			w.Nest(current.node.Id, current.parentId)
+			if err := w.Nest(current.node.Id, current.parentId).Err(); err != nil {
+				return nil, err
+			}
 		}
 	}
 
@@ -146,12 +157,14 @@ func FromString(s string) (World, error) {
 		if err != nil {
 			return nil, err
 		}
-		w.RelCreate(rel.From.Id, rel.To.Id, RelParams{
+		if err := w.RelCreate(rel.From.Id, rel.To.Id, RelParams{
 			Verb:      strPtr(rel.Verb),
 			Mechanism: strPtr(rel.Mechanism),
 			Async:     boolPtr(rel.Async),
 			Expanded:  strPtr(rel.Expanded),
-		})
+		}).Err(); err != nil {
+			return nil, err
+		}
 	}
 
 	return w, nil
@@ -273,7 +286,7 @@ func (w *world) String() string {
 	for _, rel := range w.Rels {
 		allRels = append(allRels, rel.String())
 	}
-	return fmt.Sprintf("$$world\nversion=%d\nid=%s\nname=%s\nexpanded=%s\n%s\n%s\nendworld$$",
+	return fmt.Sprintf("$$world\nversion=%d\nid=\"%s\"\nname=\"%s\"\nexpanded=\"%s\"\n%s\n%s\nendworld$$",
 		w.Version_,
 		w.Id_,
 		w.Name_,
@@ -775,6 +788,11 @@ func (w *world) syncItem(item Item) {
 	}
 }
 
+// unquote removes the quotes around a text as it appears in the grammar.
+func unquote(s string) string {
+	return strings.Trim(s, `"`)
+}
+
 func strPtr(s string) *string {
 	return &s
 }
-- 
2.43.0


From 70ee5b20a40b4718fa5f92e81caecb0475d5830f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:21 +0000
Subject: [PATCH 09/25] fix: keep the root item and report the items of a
 parsed tree

---
 pkg/world/tree.go | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/pkg/world/tree.go b/pkg/world/tree.go
index 9db2113..f25504f 100644
--- a/pkg/world/tree.go
+++ b/pkg/world/tree.go
@@ -5,6 +5,7 @@ import (
 	mapset "github.com/deckarep/golang-set/v2"
 	"github.com/williamflynt/topolith/pkg/errors"
 	"github.com/williamflynt/topolith/pkg/grammar"
+	"maps"
 	"sort"
 	"strings"
 )
@@ -53,8 +54,24 @@ func TreeFromString(s string) (Tree, map[string]Item, error) {
 		itemMap[item.Id] = item
 	}
 
-	t, err := convertNodeToTree(p.Tree, itemMap, nil)
-	return t, itemMap, err
+	unused := maps.Clone(itemMap) // Each Item goes into the Tree once.
+	root := p.Tree
+	if p.TreeHasNilRoot() {
+		t := newTree(nil, nil)
+		for _, childNode := range root.Children {
+			childTree, err := convertNodeToTree(childNode, unused, t)
+			if err != nil {
+				return t, itemMap, err
+			}
+			t.components.Add(childTree)
+		}
+		return t, itemMap, nil
+	}
+	t, err := convertNodeToTree(root, unused, nil)
+	if err != nil {
+		return nil, itemMap, err
+	}
+	return t, itemMap, nil
 }
 
 func TreeEqual(t1, t2 Tree) bool {
@@ -90,17 +107,13 @@ func TreeEqual(t1, t2 Tree) bool {
 
 // convertNodeToTree recursively converts a grammar.Node to a Tree.
 func convertNodeToTree(node grammar.Node, itemMap map[string]Item, parent *tree) (*tree, error) {
-	var itemPtr *Item
-	if parent != nil {
-		item, ok := itemMap[node.Id]
-		if !ok {
-			return parent, errors.New("Item not found in map").UseCode(errors.TopolithErrorNotFound).WithDescription("Item not found in map").WithData(errors.KvPair{Key: "id", Value: node.Id})
-		}
-		itemPtr = &item
+	item, ok := itemMap[node.Id]
+	if !ok {
+		return parent, errors.New("Item not found in map").UseCode(errors.TopolithErrorNotFound).WithDescription("Item not found in map").WithData(errors.KvPair{Key: "id", Value: node.Id})
 	}
 	delete(itemMap, node.Id) // Prevent cycles.
 	t := &tree{
-		item:       itemPtr,
+		item:       &item,
 		components: mapset.NewSet[Tree](),
 		parent:     parent,
 	}
-- 
2.43.0


From cd6b71553bb7f618d19df9a0e6bfea4b7be99139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:23 +0000
Subject: [PATCH 10/25] fix: reject text that is not a relationship instead of
 crashing

---
 pkg/world/rel.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/world/rel.go b/pkg/world/rel.go
index 370750f..f8fcc68 100644
--- a/pkg/world/rel.go
+++ b/pkg/world/rel.go
@@ -49,6 +49,9 @@ func RelFromString(w World, s string) (Rel, error) {
 	if err != nil {
 		return Rel{}, fmt.Errorf("error parsing Rel: %w", err)
 	}
+	if p.StmtType != "Command" || p.InputAttributes.ResourceType != "rel" || len(p.InputAttributes.SecondaryIds) == 0 {
+		return Rel{}, errors.New("not a Rel").UseCode(errors.TopolithErrorInvalid).WithDescription("error parsing Rel").WithData(errors.KvPair{Key: "input", Value: s})
+	}
 	fromItem, ok := w.ItemFetch(p.InputAttributes.ResourceId)
 	if !ok {
 		return Rel{}, errors.New("from Item not found").UseCode(errors.TopolithErrorNotFound).WithDescription("FromItem not found").WithData(errors.KvPair{Key: "input", Value: s}, errors.KvPair{Key: "fromId", Value: p.InputAttributes.ResourceId})
-- 
2.43.0


From 61c0a75664a63f28df915d2e66a4bf9fdecb6317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:12 +0000
Subject: [PATCH 11/25] fix: keep quoted identifiers with blanks whole in lists

---
 pkg/grammar/grammar.peg    |  2 +-
 pkg/grammar/grammar.peg.go |  4 ++--
 pkg/grammar/main.go        | 17 +++++++++++++++++
 3 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/pkg/grammar/grammar.peg b/pkg/grammar/grammar.peg
index de250c3..cfa4dc9 100644
--- a/pkg/grammar/grammar.peg
+++ b/pkg/grammar/grammar.peg
@@ -148,7 +148,7 @@ IdentifierList
   <- <Identifier Identifier*>
   {
     p.InputAttributes.ResourceId = ""
-    ids := strings.Fields(text)
+    ids := splitIdentifiers(text)
     for _, id := range ids {
       p.InputAttributes.ResourceIds = append(p.InputAttributes.ResourceIds, cleanString(id))
     }
diff --git a/pkg/grammar/grammar.peg.go b/pkg/grammar/grammar.peg.go
index b15330a..7c68637 100644
--- a/pkg/grammar/grammar.peg.go
+++ b/pkg/grammar/grammar.peg.go
@@ -699,7 +699,7 @@ func (p *Parser) Execute() {
 		case ruleAction18:
 
 			p.InputAttributes.ResourceId = ""
-			ids := strings.Fields(text)
+			ids := splitIdentifiers(text)
 			for _, id := range ids {
 				p.InputAttributes.ResourceIds = append(p.InputAttributes.ResourceIds, cleanString(id))
 			}
@@ -5380,7 +5380,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 		nil,
 		/* 141 Action18 <- <{
 		   p.InputAttributes.ResourceId = ""
-		   ids := strings.Fields(text)
+		   ids := splitIdentifiers(text)
 		   for _, id := range ids {
 		     p.InputAttributes.ResourceIds = append(p.InputAttributes.ResourceIds, cleanString(id))
 		   }
diff --git a/pkg/grammar/main.go b/pkg/grammar/main.go
index 71b0b85..00e2808 100644
--- a/pkg/grammar/main.go
+++ b/pkg/grammar/main.go
@@ -84,3 +84,20 @@ func (p *Parser) TreeHasNilRoot() bool {
 func cleanString(s string) string {
 	return strings.Trim(strings.TrimSpace(s), "\"")
 }
+
+// splitIdentifiers splits the text of a list of identifiers, keeping quoted identifiers with whitespace together.
+func splitIdentifiers(s string) []string {
+	ids := make([]string, 0)
+	for s = strings.TrimSpace(s); s != ""; s = strings.TrimSpace(s) {
+		end := strings.IndexAny(s, " \t\r\n\"")
+		if s[0] == '"' {
+			end = strings.IndexByte(s[1:], '"') + 2
+		}
+		if end < 0 {
+			end = len(s)
+		}
+		ids = append(ids, s[:end])
+		s = s[end:]
+	}
+	return ids
+}
-- 
2.43.0


From 524e3edd376caea57c47956976521d22b5ad7c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:15 +0000
Subject: [PATCH 12/25] fix: build errors without sharing data or keeping nil
 errors

---
 pkg/errors/main.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pkg/errors/main.go b/pkg/errors/main.go
index 42aeddd..630cfb8 100644
--- a/pkg/errors/main.go
+++ b/pkg/errors/main.go
@@ -1,6 +1,9 @@
 package errors
 
-import "fmt"
+import (
+	"fmt"
+	"slices"
+)
 
 // TopolithErrorCode is an iota that represents the error code of a TopolithError.
 type TopolithErrorCode int
@@ -37,7 +40,7 @@ func (e TopolithError) WithDescription(description string) TopolithError {
 }
 
 func (e TopolithError) WithData(data ...KvPair) TopolithError {
-	e.Data = append(e.Data, data...)
+	e.Data = append(slices.Clip(e.Data), data...) // Never write to the array of another error.
 	return e
 }
 
@@ -47,7 +50,11 @@ func (e TopolithError) ClearData() TopolithError {
 }
 
 func (e TopolithError) WithError(errs ...error) TopolithError {
+	e.errs = slices.Clip(e.errs) // Never write to the array of another error.
 	for _, err := range errs {
+		if err == nil {
+			continue
+		}
 		e.errs = append(e.errs, err)
 	}
 	return e
-- 
2.43.0


From bf741d2a3190c2a9af455f766a8a6ac6dc02e622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:15 +0000
Subject: [PATCH 13/25] fix: keep saved worlds inside the configured directory

---
 pkg/persistence/main.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/persistence/main.go b/pkg/persistence/main.go
index b7b9761..5a9764a 100644
--- a/pkg/persistence/main.go
+++ b/pkg/persistence/main.go
@@ -1,6 +1,7 @@
 package persistence
 
 import (
+	"github.com/williamflynt/topolith/pkg/errors"
 	"github.com/williamflynt/topolith/pkg/world"
 	"os"
 	"path/filepath"
@@ -44,7 +45,11 @@ func (fp *filePersistence) Save(world world.World) error {
 		return err
 	}
 
-	filePath := filepath.Join(fp.directory, world.Name()+".world")
+	fileName := world.Name() + ".world"
+	if filepath.Base(fileName) != fileName {
+		return errors.New("World name cannot be used as a file name").UseCode(errors.TopolithErrorInvalid).WithData(errors.KvPair{Key: "name", Value: world.Name()})
+	}
+	filePath := filepath.Join(fp.directory, fileName)
 	data := world.String()
 	return os.WriteFile(filePath, []byte(data), 0644)
 }
-- 
2.43.0


From 881af0d518f20c1c91eb76f127f2c9acc9864883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:55 +0000
Subject: [PATCH 14/25] fix: load worlds whose name ends like a world file

---
 pkg/persistence/main.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pkg/persistence/main.go b/pkg/persistence/main.go
index 5a9764a..e3217de 100644
--- a/pkg/persistence/main.go
+++ b/pkg/persistence/main.go
@@ -56,15 +56,14 @@ func (fp *filePersistence) Save(world world.World) error {
 
 // Load loads a world from a file.
 func (fp *filePersistence) Load(name string) (world.World, error) {
-	filePath := name
-	if filepath.Ext(name) != ".world" {
-		filePath = filepath.Join(fp.directory, name+".world")
+	data, err := os.ReadFile(filepath.Join(fp.directory, name+".world"))
+	if os.IsNotExist(err) && filepath.Ext(name) == ".world" {
+		// There is no such world, so it's the path of a world file.
+		data, err = os.ReadFile(name)
 	}
-	data, err := os.ReadFile(filePath)
 	if err != nil {
 		return nil, err
 	}
-	println(string(data))
 	return world.FromString(string(data))
 }
 
-- 
2.43.0


From 23adb99b8f7b384534b43fcd5abdbc222bf1b8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:56 +0000
Subject: [PATCH 15/25] fix: keep the earlier version of a world until the new
 one is complete

---
 pkg/persistence/main.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/persistence/main.go b/pkg/persistence/main.go
index e3217de..44f15da 100644
--- a/pkg/persistence/main.go
+++ b/pkg/persistence/main.go
@@ -51,7 +51,17 @@ func (fp *filePersistence) Save(world world.World) error {
 	}
 	filePath := filepath.Join(fp.directory, fileName)
 	data := world.String()
-	return os.WriteFile(filePath, []byte(data), 0644)
+	// Replace the earlier version only once the new one is complete.
+	tmpPath := filePath + ".tmp"
+	if err := os.WriteFile(tmpPath, []byte(data), 0644); err != nil {
+		_ = os.Remove(tmpPath)
+		return err
+	}
+	if err := os.Rename(tmpPath, filePath); err != nil {
+		_ = os.Remove(tmpPath)
+		return err
+	}
+	return nil
 }
 
 // Load loads a world from a file.
-- 
2.43.0


From 9fed1054606c03e3a654277945d0a804c27e1cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:57 +0000
Subject: [PATCH 16/25] fix: do not list directories as worlds

---
 pkg/persistence/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/persistence/main.go b/pkg/persistence/main.go
index 44f15da..d97c68f 100644
--- a/pkg/persistence/main.go
+++ b/pkg/persistence/main.go
@@ -86,7 +86,7 @@ func (fp *filePersistence) ListWorlds() ([]string, error) {
 
 	var worlds []string
 	for _, file := range files {
-		if filepath.Ext(file.Name()) == ".world" {
+		if !file.IsDir() && filepath.Ext(file.Name()) == ".world" {
 			worlds = append(worlds, file.Name()[:len(file.Name())-len(filepath.Ext(file.Name()))])
 		}
 	}
-- 
2.43.0


From 85786d00cad9abbeb9ce0fde5082ea3045d16751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:59 +0000
Subject: [PATCH 17/25] fix: list and query in the same order every time

---
 pkg/world/world.go | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/pkg/world/world.go b/pkg/world/world.go
index 94ff9fd..d25a6ec 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -226,12 +226,8 @@ func WorldEqual(w1, w2 World) bool {
 	if len(rels1) != len(rels2) {
 		return false
 	}
-	sort.Slice(rels1, func(i, j int) bool {
-		return relLess(rels1[i], rels1[j])
-	})
-	sort.Slice(rels2, func(i, j int) bool {
-		return relLess(rels2[i], rels2[j])
-	})
+	sortRels(rels1)
+	sortRels(rels2)
 	for i, rel1 := range rels1 {
 		if !RelEqual(rel1, rels2[i]) {
 			return false
@@ -248,6 +244,13 @@ func relLess(r1, r2 Rel) bool {
 	return r1.To.Id < r2.To.Id
 }
 
+// sortRels makes the result of a query independent of iteration order.
+func sortRels(rels []Rel) {
+	sort.Slice(rels, func(i, j int) bool {
+		return relLess(rels[i], rels[j])
+	})
+}
+
 // world is the internal implementation of the WorldWithBoth interface.
 // It necessarily implements World.
 type world struct {
@@ -383,11 +386,14 @@ func (w *world) ItemFetch(id string) (Item, bool) {
 func (w *world) ItemList(limit int) []Item {
 	items := make([]Item, 0)
 	for _, item := range w.Items {
-		if limit > 0 && len(items) >= limit {
-			break
-		}
 		items = append(items, item)
 	}
+	sort.Slice(items, func(i, j int) bool {
+		return items[i].Id < items[j].Id
+	})
+	if limit > 0 && len(items) > limit {
+		items = items[:limit]
+	}
 	return items
 }
 
@@ -522,6 +528,7 @@ func (w *world) RelFetch(fromId, toId string, strict bool) []Rel {
 			rels = append(rels, rel)
 		}
 	}
+	sortRels(rels)
 	return rels
 }
 
@@ -536,6 +543,7 @@ func (w *world) RelTo(toId string, strict bool) []Rel {
 			rels = append(rels, rel)
 		}
 	}
+	sortRels(rels)
 	return rels
 }
 
@@ -550,17 +558,19 @@ func (w *world) RelFrom(fromId string, strict bool) []Rel {
 			rels = append(rels, rel)
 		}
 	}
+	sortRels(rels)
 	return rels
 }
 
 func (w *world) RelList(limit int) []Rel {
 	rels := make([]Rel, 0)
 	for _, rel := range w.Rels {
-		if limit > 0 && len(rels) >= limit {
-			break
-		}
 		rels = append(rels, rel)
 	}
+	sortRels(rels)
+	if limit > 0 && len(rels) > limit {
+		rels = rels[:limit]
+	}
 	return rels
 }
 
-- 
2.43.0


From ab668f8e833fc2a60bc1ee4b1f21b3920ed4a42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:24 +0000
Subject: [PATCH 18/25] fix: redo the command that was undone and drop undone
 ones on a new command

---
 pkg/app/main.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/pkg/app/main.go b/pkg/app/main.go
index 2dfdcb4..23caa01 100644
--- a/pkg/app/main.go
+++ b/pkg/app/main.go
@@ -87,7 +87,7 @@ func (h *app) Persistence() persistence.Persistence {
 // --- INTERNAL ---
 
 func (h *app) exec(c Command) (fmt.Stringer, error) {
-	h.commands = append(h.commands, c)
+	h.commands = append(h.commands[:h.commandsIdx+1:h.commandsIdx+1], c) // Discard what was undone.
 	h.commandsIdx++
 	return c.Execute(h.world)
 }
@@ -111,16 +111,10 @@ func (h *app) redo() (error, int) {
 	if h.commandsIdx >= len(h.commands)-1 {
 		return nil, 0
 	}
-	_, err := h.commands[h.commandsIdx].Execute(h.world)
-	if err != nil {
-		// We aren't going to validate state of the World. But a problem happened.
-		// Clear app, reset commandsIdx, and return the error.
-		h.commands = make([]Command, 0)
-		h.commandsIdx = -1
-		return err, 0
-	}
+	// As in exec, the Command is part of the History even when it results in an error.
 	h.commandsIdx++
-	return nil, len(h.commands) - h.commandsIdx - 1
+	_, err := h.commands[h.commandsIdx].Execute(h.world)
+	return err, len(h.commands) - h.commandsIdx - 1
 }
 
 func errOrEmpty(err error) string {
-- 
2.43.0


From de6c151a9e232ae867def238f43702015e013194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:25 +0000
Subject: [PATCH 19/25] fix: delete and restore the relationship that was named

---
 pkg/app/command.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/app/command.go b/pkg/app/command.go
index d3de1f4..610d70d 100644
--- a/pkg/app/command.go
+++ b/pkg/app/command.go
@@ -663,7 +663,7 @@ type RelDeleteCommand struct {
 }
 
 func (c *RelDeleteCommand) Execute(w world.World) (fmt.Stringer, error) {
-	rels := w.RelFetch(c.Id, c.Id, true)
+	rels := w.RelFetch(c.Id, c.ToId, true)
 	if len(rels) == 0 {
 		c.noDelete = true
 		return world.Rel{}, nil
@@ -680,7 +680,7 @@ func (c *RelDeleteCommand) Undo(w world.World) error {
 	if c.noDelete {
 		return nil
 	}
-	return w.RelCreate(c.Id, c.Id, c.oldParams).Err()
+	return w.RelCreate(c.Id, c.ToId, c.oldParams).Err()
 }
 
 // --- EXPORTED FUNCTIONS ---
-- 
2.43.0


From 1e457f0c3f8c33835a1add9aae9d6d49717051f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:26 +0000
Subject: [PATCH 20/25] fix: return the existing relationship from create

---
 pkg/app/command.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/app/command.go b/pkg/app/command.go
index 610d70d..b355b44 100644
--- a/pkg/app/command.go
+++ b/pkg/app/command.go
@@ -450,7 +450,7 @@ type RelCreateCommand struct {
 func (c *RelCreateCommand) Execute(w world.World) (fmt.Stringer, error) {
 	if rels := w.RelFetch(c.Id, c.ToId, true); len(rels) > 0 {
 		c.noCreate = true
-		return world.Rel{}, nil
+		return rels[0], nil
 	}
 	return w.RelCreate(c.Id, c.ToId, c.Params).Rel()
 }
-- 
2.43.0


From 6d3c0f82d8962bc209542a1100d2cb48ba1093b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:28 +0000
Subject: [PATCH 21/25] fix: list the components when asked for the items in an
 item

---
 pkg/app/command.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/app/command.go b/pkg/app/command.go
index b355b44..9dca89b 100644
--- a/pkg/app/command.go
+++ b/pkg/app/command.go
@@ -726,6 +726,9 @@ func itemCommand(base CommandBase, input grammar.InputAttributes) (Command, erro
 	case Fetch:
 		return &ItemFetchCommand{CommandBase: base}, nil
 	case List:
+		if base.Id != "" {
+			return &ItemComponentsListCommand{CommandBase: base}, nil
+		}
 		return &ItemListCommand{CommandBase: base, Limit: limitFromInput(input)}, nil
 	case Set:
 		return &ItemSetCommand{CommandBase: base, Params: world.ItemParamsFromInput(input)}, nil
-- 
2.43.0


From f9551aa62e489e70d9398b6a0ca6aeb08ecd2a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:37 +0000
Subject: [PATCH 22/25] fix: report failed moves and undo nest and free

---
 pkg/app/command.go | 73 +++++++++++++++++++++++++---------------------
 1 file changed, 40 insertions(+), 33 deletions(-)

diff --git a/pkg/app/command.go b/pkg/app/command.go
index 9dca89b..71a5e4f 100644
--- a/pkg/app/command.go
+++ b/pkg/app/command.go
@@ -262,29 +262,25 @@ func (c *ItemDeleteCommand) Undo(w world.World) error {
 // ItemNestCommand represents a nest command for Item.
 type ItemNestCommand struct {
 	CommandBase
-	Ids          []string
-	ParentId     string
-	oldParentIds map[string]string
-	noNest       map[string]bool
+	Ids       []string
+	ParentId  string
+	oldPlaces []itemPlace
 }
 
 func (c *ItemNestCommand) Execute(w world.World) (fmt.Stringer, error) {
-	oldParentIds := make(map[string]string)
-	noNest := make(map[string]bool)
+	c.oldPlaces = make([]itemPlace, 0)
 	errs := make([]error, 0)
 	for _, id := range c.Ids {
 		oldParentId, found := w.Parent(id)
 		if !found {
-			noNest[id] = true
 			errs = append(errs, errors.New("could not find Item").UseCode(errors.TopolithErrorNotFound).WithData(errors.KvPair{Key: "id", Value: id}))
 			continue
 		}
-		oldParentIds[id] = oldParentId // Empty string if root.
-		if oldParentId == c.ParentId {
-			noNest[id] = true
+		if err := w.Nest(id, c.ParentId).Err(); err != nil {
+			errs = append(errs, err)
 			continue
 		}
-		w.Nest(id, c.ParentId)
+		c.oldPlaces = append(c.oldPlaces, itemPlace{id: id, parentId: oldParentId})
 	}
 	if len(errs) > 0 {
 		return BoolStringer(false), errors.Join(errs...)
@@ -293,25 +289,18 @@ func (c *ItemNestCommand) Execute(w world.World) (fmt.Stringer, error) {
 }
 
 func (c *ItemNestCommand) Undo(w world.World) error {
-	for id, oldParentId := range c.oldParentIds {
-		if oldParentId == "" {
-			w.Free(id)
-			continue
-		}
-		w.Nest(id, oldParentId)
-	}
-	return nil
+	return restorePlaces(w, c.oldPlaces)
 }
 
 // ItemFreeCommand represents a free command for Item.
 type ItemFreeCommand struct {
 	CommandBase
-	Ids          []string
-	oldParentIds map[string]string
+	Ids       []string
+	oldPlaces []itemPlace
 }
 
 func (c *ItemFreeCommand) Execute(w world.World) (fmt.Stringer, error) {
-	oldParentIds := make(map[string]string)
+	c.oldPlaces = make([]itemPlace, 0)
 	errs := make([]error, 0)
 
 	for _, id := range c.Ids {
@@ -320,8 +309,11 @@ func (c *ItemFreeCommand) Execute(w world.World) (fmt.Stringer, error) {
 			errs = append(errs, errors.New("could not find Item").UseCode(errors.TopolithErrorNotFound).WithData(errors.KvPair{Key: "id", Value: id}))
 			continue
 		}
-		oldParentIds[id] = oldParentId // Empty string if root.
-		w.Free(id)
+		if err := w.Free(id).Err(); err != nil {
+			errs = append(errs, err)
+			continue
+		}
+		c.oldPlaces = append(c.oldPlaces, itemPlace{id: id, parentId: oldParentId})
 	}
 
 	if len(errs) > 0 {
@@ -331,13 +323,7 @@ func (c *ItemFreeCommand) Execute(w world.World) (fmt.Stringer, error) {
 }
 
 func (c *ItemFreeCommand) Undo(w world.World) error {
-	for id, oldParentId := range c.oldParentIds {
-		if oldParentId == "" {
-			continue
-		}
-		w.Nest(id, oldParentId)
-	}
-	return nil
+	return restorePlaces(w, c.oldPlaces)
 }
 
 // ItemExistsCommand represents an exists command for Item.
@@ -719,6 +705,27 @@ func boolPtr(b bool) *bool {
 	return &b
 }
 
+// itemPlace is where an Item was before a Command moved it.
+type itemPlace struct {
+	id       string
+	parentId string // parentId is an empty string if the Item was at the root.
+}
+
+// restorePlaces moves every Item back to where it was, last move first.
+func restorePlaces(w world.World, places []itemPlace) error {
+	for i := len(places) - 1; i >= 0; i-- {
+		if places[i].parentId == "" {
+			w.Free(places[i].id)
+		} else {
+			w.Nest(places[i].id, places[i].parentId)
+		}
+		if err := w.Err(); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 func itemCommand(base CommandBase, input grammar.InputAttributes) (Command, error) {
 	switch CommandVerb(input.Verb) {
 	case Create:
@@ -737,9 +744,9 @@ func itemCommand(base CommandBase, input grammar.InputAttributes) (Command, erro
 	case Delete:
 		return &ItemDeleteCommand{CommandBase: base}, nil
 	case Nest:
-		return &ItemNestCommand{CommandBase: base, Ids: input.ResourceIds, ParentId: input.SecondaryIds[0], oldParentIds: make(map[string]string), noNest: make(map[string]bool)}, nil
+		return &ItemNestCommand{CommandBase: base, Ids: input.ResourceIds, ParentId: input.SecondaryIds[0]}, nil
 	case Free:
-		return &ItemFreeCommand{CommandBase: base, Ids: input.ResourceIds, oldParentIds: make(map[string]string)}, nil
+		return &ItemFreeCommand{CommandBase: base, Ids: input.ResourceIds}, nil
 	case Exists:
 		return &ItemExistsCommand{CommandBase: base}, nil
 	case InQuery:
-- 
2.43.0


From 316ea5b0d8457095d09c3cb0ecea8a83d9678f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:38 +0000
Subject: [PATCH 23/25] fix: restore place, components and relationships when
 undoing a delete

---
 pkg/app/command.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/pkg/app/command.go b/pkg/app/command.go
index 71a5e4f..41bfd1b 100644
--- a/pkg/app/command.go
+++ b/pkg/app/command.go
@@ -235,6 +235,8 @@ func (c *ItemClearCommand) Undo(w world.World) error {
 type ItemDeleteCommand struct {
 	CommandBase
 	oldParams world.ItemParams
+	oldPlaces []itemPlace // oldPlaces is where the Item and its components were.
+	oldRels   []world.Rel // oldRels is every Rel from or to the Item.
 	noDelete  bool
 }
 
@@ -249,6 +251,14 @@ func (c *ItemDeleteCommand) Execute(w world.World) (fmt.Stringer, error) {
 	c.oldParams.Type = strPtr(world.StringFromItemType(item.Type))
 	c.oldParams.Mechanism = strPtr(item.Mechanism)
 	c.oldParams.Expanded = strPtr(item.Expanded)
+	parentId, _ := w.Parent(c.Id)
+	componentIds, _ := w.Components(c.Id)
+	c.oldPlaces = make([]itemPlace, 0)
+	for _, componentId := range componentIds {
+		c.oldPlaces = append(c.oldPlaces, itemPlace{id: componentId, parentId: c.Id})
+	}
+	c.oldPlaces = append(c.oldPlaces, itemPlace{id: c.Id, parentId: parentId})
+	c.oldRels = append(w.RelFrom(c.Id, true), w.RelTo(c.Id, true)...)
 	return world.Item{}, w.ItemDelete(c.Id).Err()
 }
 
@@ -256,7 +266,19 @@ func (c *ItemDeleteCommand) Undo(w world.World) error {
 	if c.noDelete {
 		return nil
 	}
-	return w.ItemCreate(c.Id, c.oldParams).Err()
+	if err := w.ItemCreate(c.Id, c.oldParams).Err(); err != nil {
+		return err
+	}
+	if err := restorePlaces(w, c.oldPlaces); err != nil {
+		return err
+	}
+	for _, rel := range c.oldRels {
+		params := world.RelParams{Verb: strPtr(rel.Verb), Mechanism: strPtr(rel.Mechanism), Async: boolPtr(rel.Async), Expanded: strPtr(rel.Expanded)}
+		if err := w.RelCreate(rel.From.Id, rel.To.Id, params).Err(); err != nil {
+			return err
+		}
+	}
+	return nil
 }
 
 // ItemNestCommand represents a nest command for Item.
-- 
2.43.0


From 21e8ac5e91c719e9c7c5cb32299c368294b9100f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:03 +0000
Subject: [PATCH 24/25] fix: undo a command only as far as it took effect

---
 pkg/app/command.go | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/pkg/app/command.go b/pkg/app/command.go
index 41bfd1b..87739ab 100644
--- a/pkg/app/command.go
+++ b/pkg/app/command.go
@@ -131,7 +131,10 @@ func (c *ItemCreateCommand) Execute(w world.World) (fmt.Stringer, error) {
 		c.noCreate = true
 		return item, nil
 	}
-	return w.ItemCreate(c.Id, c.Params).Item()
+	item, err := w.ItemCreate(c.Id, c.Params).Item()
+	_, created := w.ItemFetch(c.Id)
+	c.noCreate = !created
+	return item, err
 }
 
 func (c *ItemCreateCommand) Undo(w world.World) error {
@@ -182,6 +185,7 @@ type ItemSetCommand struct {
 }
 
 func (c *ItemSetCommand) Execute(w world.World) (fmt.Stringer, error) {
+	c.noSet = false
 	item, ok := w.ItemFetch(c.Id)
 	if !ok {
 		c.noSet = true
@@ -211,6 +215,7 @@ type ItemClearCommand struct {
 }
 
 func (c *ItemClearCommand) Execute(w world.World) (fmt.Stringer, error) {
+	c.noSet = false
 	item, ok := w.ItemFetch(c.Id)
 	if !ok {
 		c.noSet = true
@@ -241,6 +246,7 @@ type ItemDeleteCommand struct {
 }
 
 func (c *ItemDeleteCommand) Execute(w world.World) (fmt.Stringer, error) {
+	c.noDelete = false
 	item, ok := w.ItemFetch(c.Id)
 	if !ok {
 		c.noDelete = true
@@ -374,7 +380,9 @@ func (c *ItemCreateOrFetchCommand) Execute(w world.World) (fmt.Stringer, error)
 		c.noCreate = true
 		return item, nil
 	}
-	return w.ItemCreate(c.Id, world.ItemParams{}).Item()
+	item, err := w.ItemCreate(c.Id, world.ItemParams{}).Item()
+	c.noCreate = err != nil
+	return item, err
 }
 
 func (c *ItemCreateOrFetchCommand) Undo(w world.World) error {
@@ -390,6 +398,7 @@ type ItemCreateOrSetCommand struct {
 	Params    world.ItemParams
 	oldParams world.ItemParams
 	noCreate  bool
+	created   bool
 }
 
 func (c *ItemCreateOrSetCommand) Execute(w world.World) (fmt.Stringer, error) {
@@ -402,13 +411,19 @@ func (c *ItemCreateOrSetCommand) Execute(w world.World) (fmt.Stringer, error) {
 		c.oldParams.Expanded = strPtr(item.Expanded)
 		return w.ItemSet(c.Id, c.Params).Item()
 	}
-	return w.ItemCreate(c.Id, c.Params).Item()
+	c.noCreate = false
+	item, err := w.ItemCreate(c.Id, c.Params).Item()
+	_, c.created = w.ItemFetch(c.Id)
+	return item, err
 }
 
 func (c *ItemCreateOrSetCommand) Undo(w world.World) error {
 	if c.noCreate {
 		return w.ItemSet(c.Id, c.oldParams).Err()
 	}
+	if !c.created {
+		return nil
+	}
 	return w.ItemDelete(c.Id).Err()
 }
 
@@ -456,6 +471,7 @@ type RelCreateCommand struct {
 }
 
 func (c *RelCreateCommand) Execute(w world.World) (fmt.Stringer, error) {
+	c.noCreate = false
 	if rels := w.RelFetch(c.Id, c.ToId, true); len(rels) > 0 {
 		c.noCreate = true
 		return rels[0], nil
@@ -514,6 +530,7 @@ type RelClearCommand struct {
 }
 
 func (c *RelClearCommand) Execute(w world.World) (fmt.Stringer, error) {
+	c.noSet = false
 	rels := w.RelFetch(c.Id, c.ToId, true)
 	if len(rels) == 0 {
 		c.noSet = true
@@ -587,6 +604,7 @@ type RelCreateOrFetchCommand struct {
 }
 
 func (c *RelCreateOrFetchCommand) Execute(w world.World) (fmt.Stringer, error) {
+	c.noCreate = false
 	rels := w.RelFetch(c.Id, c.ToId, true)
 	if len(rels) > 0 {
 		c.noCreate = true
@@ -612,6 +630,7 @@ type RelCreateOrSetCommand struct {
 }
 
 func (c *RelCreateOrSetCommand) Execute(w world.World) (fmt.Stringer, error) {
+	c.noCreate = false
 	rels := w.RelFetch(c.Id, c.ToId, true)
 	if len(rels) > 0 {
 		c.noCreate = true
@@ -642,6 +661,7 @@ type RelSetCommand struct {
 }
 
 func (c *RelSetCommand) Execute(w world.World) (fmt.Stringer, error) {
+	c.noSet = false
 	rels := w.RelFetch(c.Id, c.ToId, true)
 	if len(rels) == 0 {
 		c.noSet = true
@@ -671,6 +691,7 @@ type RelDeleteCommand struct {
 }
 
 func (c *RelDeleteCommand) Execute(w world.World) (fmt.Stringer, error) {
+	c.noDelete = false
 	rels := w.RelFetch(c.Id, c.ToId, true)
 	if len(rels) == 0 {
 		c.noDelete = true
-- 
2.43.0


From d276738d813473f5971856cccb0203a9f361130d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:56 +0000
Subject: [PATCH 25/25] fix: give every empty tree read from text its own
 components

---
 pkg/world/tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/world/tree.go b/pkg/world/tree.go
index f25504f..5833731 100644
--- a/pkg/world/tree.go
+++ b/pkg/world/tree.go
@@ -37,7 +37,7 @@ type Tree interface {
 // `tree{nil::[tree{item "2"::[tree{item "1"::[]}]} tree{item "3"::[]}]}`
 func TreeFromString(s string) (Tree, map[string]Item, error) {
 	if s == "" {
-		return emptyTree, map[string]Item{}, nil
+		return newTree(nil, nil), map[string]Item{}, nil
 	}
 
 	p, err := grammar.Parse(s)
-- 
2.43.0

