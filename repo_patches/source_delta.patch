From d982586ef3034c90aecca955ce69fd85d51d8127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:24 +0000
Subject: [PATCH 01/40] fix: keep parent links current when moving or deleting
 tree nodes

---
 pkg/world/tree.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/pkg/world/tree.go b/pkg/world/tree.go
index 6baa839..419cd9a 100644
--- a/pkg/world/tree.go
+++ b/pkg/world/tree.go
@@ -154,7 +154,7 @@ func (t *tree) AddOrMove(item *Item) error {
 		// Already in a different Tree.
 		// Just move the node to this Tree.
 		node.Parent().Components().Remove(node)
-		t.components.Add(node)
+		t.adopt(node)
 		return nil
 	}
 	// Not in any Tree. Make it and add.
@@ -204,9 +204,14 @@ func (t *tree) Delete(id string) {
 		return
 	}
 	foundComponents := found.Components().ToSlice()
-	found.Parent().Components().Remove(found)
+	parent := found.Parent()
+	parent.Components().Remove(found)
 	for _, c := range foundComponents {
-		found.Parent().Components().Add(c)
+		if p, ok := parent.(*tree); ok {
+			p.adopt(c)
+			continue
+		}
+		parent.Components().Add(c)
 	}
 }
 
@@ -257,6 +262,14 @@ func (t *tree) Empty() bool {
 
 // --- INTERNAL HELPERS ---
 
+// adopt adds the given Tree to the components of this tree, and makes this tree its parent.
+func (t *tree) adopt(component Tree) {
+	if c, ok := component.(*tree); ok {
+		c.parent = t
+	}
+	t.components.Add(component)
+}
+
 func newTree(item *Item, parent *tree) *tree {
 	return &tree{
 		item:       item,
-- 
2.43.0


From 6facc30742c7d4b4f4f95a2c5ed3c0dc9b51cf4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:24 +0000
Subject: [PATCH 02/40] fix: refuse to nest an item under its own descendant

---
 pkg/world/tree.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/pkg/world/tree.go b/pkg/world/tree.go
index 419cd9a..fb75705 100644
--- a/pkg/world/tree.go
+++ b/pkg/world/tree.go
@@ -152,6 +152,13 @@ func (t *tree) AddOrMove(item *Item) error {
 	}
 	if node, ok := t.Root().Find(item.Id); ok {
 		// Already in a different Tree.
+		if t.isWithin(node) {
+			// Moving an Item under its own descendant would detach both from the Tree.
+			return errors.
+				New("cannot move Item under its own descendant").
+				UseCode(errors.TopolithErrorConflict).
+				WithData(errors.KvPair{Key: "id", Value: item.Id})
+		}
 		// Just move the node to this Tree.
 		node.Parent().Components().Remove(node)
 		t.adopt(node)
@@ -270,6 +277,16 @@ func (t *tree) adopt(component Tree) {
 	t.components.Add(component)
 }
 
+// isWithin returns whether this tree is the given Tree or one of its descendants.
+func (t *tree) isWithin(ancestor Tree) bool {
+	for current := t; current != nil; current = current.parent {
+		if Tree(current) == ancestor {
+			return true
+		}
+	}
+	return false
+}
+
 func newTree(item *Item, parent *tree) *tree {
 	return &tree{
 		item:       item,
-- 
2.43.0


From a5ae318f4667bc509587acf6e1d22a816d80f6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:48 +0000
Subject: [PATCH 03/40] fix: accept item type names, and clearing the type,
 when setting item params

---
 pkg/world/world.go | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/pkg/world/world.go b/pkg/world/world.go
index 7df1d58..b7b9d16 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -401,8 +401,8 @@ func itemSet(item Item, params ItemParams) (Item, error) {
 		item.External = *params.External
 	}
 	if params.Type != nil {
-		if iotaType, err := strconv.Atoi(*params.Type); err == nil {
-			item.Type = ItemType(iotaType)
+		if itemType, err := itemTypeFromParam(*params.Type); err == nil {
+			item.Type = itemType
 		} else {
 			errs = append(errs, err)
 		}
@@ -677,11 +677,36 @@ func (w *world) Rel() (Rel, error) {
 
 // --- INTERNAL HELPERS ---
 
+// itemTypeFromParam returns the ItemType for the value of ItemParams.Type.
+// That is a type name from our grammar, the number of an ItemType, or the empty string for no type.
+func itemTypeFromParam(s string) (ItemType, error) {
+	if s == "" {
+		return 0, nil
+	}
+	if t := ItemTypeFromString(s); t != 0 {
+		return t, nil
+	}
+	n, err := strconv.Atoi(s)
+	if err != nil {
+		return 0, err
+	}
+	if n != 0 && StringFromItemType(ItemType(n)) == "" {
+		return 0, errors.New("unknown Item type").UseCode(errors.TopolithErrorInvalid).WithData(errors.KvPair{Key: "type", Value: s})
+	}
+	return ItemType(n), nil
+}
+
+// isItemType returns whether the value of ItemParams.Type denotes the given ItemType.
+func isItemType(t ItemType, s string) bool {
+	paramType, err := itemTypeFromParam(s)
+	return err == nil && paramType == t
+}
+
 func equalItemParams(existing Item, params ItemParams) error {
 	if (params.Name != nil && *params.Name != existing.Name) ||
 		(params.Expanded != nil && *params.Expanded != existing.Expanded) ||
 		(params.External != nil && *params.External != existing.External) ||
-		(params.Type != nil && strconv.Itoa(int(existing.Type)) != *params.Type) ||
+		(params.Type != nil && !isItemType(existing.Type, *params.Type)) ||
 		(params.Mechanism != nil && *params.Mechanism != existing.Mechanism) {
 		existingJson, _ := json.Marshal(existing)
 		paramsJson, _ := json.Marshal(params)
-- 
2.43.0


From b17bc62e4612d736b8804df4bc8b38eed0a6e789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:07 +0000
Subject: [PATCH 04/40] fix: create or set an item with all its params or not
 at all

---
 pkg/world/world.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pkg/world/world.go b/pkg/world/world.go
index b7b9d16..3b7c763 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -325,11 +325,12 @@ func (w *world) ItemCreate(id string, params ItemParams) WorldWithItem {
 		}
 		return w
 	}
-	item := Item{
-		Id: id,
+	item, err := itemSet(Item{Id: id}, params)
+	if err != nil {
+		w.latestErr = err
+		return w
 	}
 	w.Items[id] = item
-	w.ItemSet(id, params) // After we set in the tracking map on World.
 	w.latestItem = &item
 	if err := w.Tree.AddOrMove(&item); err != nil {
 		// This shouldn't happen if we're properly syncing the Items map with Tree...
@@ -383,6 +384,7 @@ func (w *world) ItemSet(id string, params ItemParams) WorldWithItem {
 	item, err := itemSet(item, params)
 	if err != nil {
 		w.latestErr = err
+		return w
 	}
 	w.Items[id] = item
 	w.latestItem = &item
-- 
2.43.0


From 995ee8b3a694acd16c4d4d5e6c89b7ed99bdec63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:08 +0000
Subject: [PATCH 05/40] fix: keep the tree's copy of an item current when it is
 set

---
 pkg/world/world.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/world/world.go b/pkg/world/world.go
index 3b7c763..8a7d8e0 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -387,6 +387,12 @@ func (w *world) ItemSet(id string, params ItemParams) WorldWithItem {
 		return w
 	}
 	w.Items[id] = item
+	if node, ok := w.Tree.Find(id); ok {
+		// The Tree holds its own copy of the Item, which we print and return as a component.
+		if t, ok := node.(*tree); ok {
+			t.item = &item
+		}
+	}
 	w.latestItem = &item
 	return w
 }
-- 
2.43.0


From 6b34ebcdb44cf6c00688756f28c19f040abb323d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:09 +0000
Subject: [PATCH 06/40] fix: keep the end items of relationships current when
 an item is set

---
 pkg/world/world.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/world/world.go b/pkg/world/world.go
index 8a7d8e0..1d05ec0 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -393,6 +393,16 @@ func (w *world) ItemSet(id string, params ItemParams) WorldWithItem {
 			t.item = &item
 		}
 	}
+	for k, rel := range w.Rels {
+		// So does each Rel.
+		if rel.From.Id == id {
+			rel.From = item
+		}
+		if rel.To.Id == id {
+			rel.To = item
+		}
+		w.Rels[k] = rel
+	}
 	w.latestItem = &item
 	return w
 }
-- 
2.43.0


From ad0aa33ac056c8a9808ed069b75379476172263a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:10 +0000
Subject: [PATCH 07/40] fix: report a new relationship with its params

---
 pkg/world/world.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pkg/world/world.go b/pkg/world/world.go
index 1d05ec0..96641c0 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -490,9 +490,7 @@ func (w *world) RelCreate(fromId, toId string, params RelParams) WorldWithRel {
 		To:   toItem,
 	}
 	w.Rels[rel.id()] = rel
-	w.RelSet(fromId, toId, params) // After we set in the tracking map on World.
-	w.latestRel = &rel
-	return w
+	return w.RelSet(fromId, toId, params) // After we set in the tracking map on World.
 }
 
 func (w *world) RelDelete(fromId, toId string) World {
-- 
2.43.0


From 05f6deeaa72489b4810251593b79b964367a546f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:11 +0000
Subject: [PATCH 08/40] fix: match relationships by their end items in from and
 to queries, descendants only when not strict

---
 pkg/world/world.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/world/world.go b/pkg/world/world.go
index 96641c0..6f981db 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -522,7 +522,7 @@ func (w *world) RelFetch(fromId, toId string, strict bool) []Rel {
 func (w *world) RelTo(toId string, strict bool) []Rel {
 	rels := make([]Rel, 0)
 	rightIds := []string{toId}
-	if strict {
+	if !strict {
 		rightIds = append(w.Tree.GetDescendantIds(toId), toId)
 	}
 	for _, rel := range w.Rels {
@@ -536,11 +536,11 @@ func (w *world) RelTo(toId string, strict bool) []Rel {
 func (w *world) RelFrom(fromId string, strict bool) []Rel {
 	rels := make([]Rel, 0)
 	leftIds := []string{fromId}
-	if strict {
+	if !strict {
 		leftIds = append(w.Tree.GetDescendantIds(fromId), fromId)
 	}
-	for k, rel := range w.Rels {
-		if slices.Contains(leftIds, k) {
+	for _, rel := range w.Rels {
+		if slices.Contains(leftIds, rel.From.Id) {
 			rels = append(rels, rel)
 		}
 	}
-- 
2.43.0


From c649ad8589f333723d4d2bf06c1ec563b5a69aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:27 +0000
Subject: [PATCH 09/40] fix: tell apart relationships between items whose ids
 contain the separator

---
 pkg/world/rel.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/world/rel.go b/pkg/world/rel.go
index 4c810a6..e934b11 100644
--- a/pkg/world/rel.go
+++ b/pkg/world/rel.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"github.com/williamflynt/topolith/pkg/errors"
 	"github.com/williamflynt/topolith/pkg/grammar"
+	"strconv"
 	"strings"
 )
 
@@ -86,8 +87,9 @@ func (r Rel) id() string {
 	return relIdFromIds(r.From.Id, r.To.Id)
 }
 
+// relIdFromIds returns the ID of the Rel between two Item. The Item IDs are quoted, because they may contain the RelIdSeparator.
 func relIdFromIds(fromId, toId string) string {
-	return fromId + RelIdSeparator + toId
+	return strconv.Quote(fromId) + RelIdSeparator + strconv.Quote(toId)
 }
 
 // RelParams is a struct that represents the parameters that can be set on a Rel.
-- 
2.43.0


From b0011ff9114e9b6a288dcefbad80830a3d10e8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:28 +0000
Subject: [PATCH 10/40] fix: delete and restore the relationship that was
 named, not one from the item to itself

---
 pkg/app/command.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/app/command.go b/pkg/app/command.go
index d3de1f4..610d70d 100644
--- a/pkg/app/command.go
+++ b/pkg/app/command.go
@@ -663,7 +663,7 @@ type RelDeleteCommand struct {
 }
 
 func (c *RelDeleteCommand) Execute(w world.World) (fmt.Stringer, error) {
-	rels := w.RelFetch(c.Id, c.Id, true)
+	rels := w.RelFetch(c.Id, c.ToId, true)
 	if len(rels) == 0 {
 		c.noDelete = true
 		return world.Rel{}, nil
@@ -680,7 +680,7 @@ func (c *RelDeleteCommand) Undo(w world.World) error {
 	if c.noDelete {
 		return nil
 	}
-	return w.RelCreate(c.Id, c.Id, c.oldParams).Err()
+	return w.RelCreate(c.Id, c.ToId, c.oldParams).Err()
 }
 
 // --- EXPORTED FUNCTIONS ---
-- 
2.43.0


From 947c46f2c223decaa24c0a15c4c5315bf4ba9bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:28 +0000
Subject: [PATCH 11/40] fix: return the existing relationship from rel create

---
 pkg/app/command.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/app/command.go b/pkg/app/command.go
index 610d70d..b355b44 100644
--- a/pkg/app/command.go
+++ b/pkg/app/command.go
@@ -450,7 +450,7 @@ type RelCreateCommand struct {
 func (c *RelCreateCommand) Execute(w world.World) (fmt.Stringer, error) {
 	if rels := w.RelFetch(c.Id, c.ToId, true); len(rels) > 0 {
 		c.noCreate = true
-		return world.Rel{}, nil
+		return rels[0], nil
 	}
 	return w.RelCreate(c.Id, c.ToId, c.Params).Rel()
 }
-- 
2.43.0


From 66edf0511524bff5430df56969ad1d7d81f8ac51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:21 +0000
Subject: [PATCH 12/40] fix: nest and free all named items or none, and
 remember their parents for undo

---
 pkg/app/command.go | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/pkg/app/command.go b/pkg/app/command.go
index b355b44..075098f 100644
--- a/pkg/app/command.go
+++ b/pkg/app/command.go
@@ -269,24 +269,31 @@ type ItemNestCommand struct {
 }
 
 func (c *ItemNestCommand) Execute(w world.World) (fmt.Stringer, error) {
-	oldParentIds := make(map[string]string)
-	noNest := make(map[string]bool)
+	c.oldParentIds = make(map[string]string)
+	c.noNest = make(map[string]bool)
 	errs := make([]error, 0)
 	for _, id := range c.Ids {
 		oldParentId, found := w.Parent(id)
 		if !found {
-			noNest[id] = true
+			c.noNest[id] = true
 			errs = append(errs, errors.New("could not find Item").UseCode(errors.TopolithErrorNotFound).WithData(errors.KvPair{Key: "id", Value: id}))
 			continue
 		}
-		oldParentIds[id] = oldParentId // Empty string if root.
-		if oldParentId == c.ParentId {
-			noNest[id] = true
+		if oldParentId != "" && oldParentId == c.ParentId {
+			c.noNest[id] = true
 			continue
 		}
-		w.Nest(id, c.ParentId)
+		if err := w.Nest(id, c.ParentId).Err(); err != nil {
+			c.noNest[id] = true
+			errs = append(errs, err)
+			continue
+		}
+		c.oldParentIds[id] = oldParentId // Empty string if root.
 	}
 	if len(errs) > 0 {
+		// Nest all the Items or none.
+		errs = append(errs, c.Undo(w))
+		c.oldParentIds = make(map[string]string)
 		return BoolStringer(false), errors.Join(errs...)
 	}
 	return BoolStringer(true), nil
@@ -311,7 +318,7 @@ type ItemFreeCommand struct {
 }
 
 func (c *ItemFreeCommand) Execute(w world.World) (fmt.Stringer, error) {
-	oldParentIds := make(map[string]string)
+	c.oldParentIds = make(map[string]string)
 	errs := make([]error, 0)
 
 	for _, id := range c.Ids {
@@ -320,11 +327,17 @@ func (c *ItemFreeCommand) Execute(w world.World) (fmt.Stringer, error) {
 			errs = append(errs, errors.New("could not find Item").UseCode(errors.TopolithErrorNotFound).WithData(errors.KvPair{Key: "id", Value: id}))
 			continue
 		}
-		oldParentIds[id] = oldParentId // Empty string if root.
+		if _, ok := c.oldParentIds[id]; ok {
+			continue // Listed twice, and freed already.
+		}
+		c.oldParentIds[id] = oldParentId // Empty string if root.
 		w.Free(id)
 	}
 
 	if len(errs) > 0 {
+		// Free all the Items or none.
+		errs = append(errs, c.Undo(w))
+		c.oldParentIds = make(map[string]string)
 		return BoolStringer(false), errors.Join(errs...)
 	}
 	return BoolStringer(true), nil
-- 
2.43.0


From f19702ce974423a080e19cd3465ef979dbdf840c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:22 +0000
Subject: [PATCH 13/40] fix: restore nesting and relationships when undoing an
 item delete

---
 pkg/app/command.go | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/pkg/app/command.go b/pkg/app/command.go
index 075098f..e7a23b2 100644
--- a/pkg/app/command.go
+++ b/pkg/app/command.go
@@ -234,8 +234,11 @@ func (c *ItemClearCommand) Undo(w world.World) error {
 // ItemDeleteCommand represents a delete command for Item.
 type ItemDeleteCommand struct {
 	CommandBase
-	oldParams world.ItemParams
-	noDelete  bool
+	oldParams       world.ItemParams
+	oldParentId     string
+	oldComponentIds []string
+	oldRels         []world.Rel
+	noDelete        bool
 }
 
 func (c *ItemDeleteCommand) Execute(w world.World) (fmt.Stringer, error) {
@@ -249,6 +252,9 @@ func (c *ItemDeleteCommand) Execute(w world.World) (fmt.Stringer, error) {
 	c.oldParams.Type = strPtr(world.StringFromItemType(item.Type))
 	c.oldParams.Mechanism = strPtr(item.Mechanism)
 	c.oldParams.Expanded = strPtr(item.Expanded)
+	c.oldParentId, _ = w.Parent(c.Id)
+	c.oldComponentIds, _ = w.Components(c.Id)
+	c.oldRels = append(w.RelFrom(c.Id, true), w.RelTo(c.Id, true)...) // A Rel from the Item to itself is in both.
 	return world.Item{}, w.ItemDelete(c.Id).Err()
 }
 
@@ -256,7 +262,31 @@ func (c *ItemDeleteCommand) Undo(w world.World) error {
 	if c.noDelete {
 		return nil
 	}
-	return w.ItemCreate(c.Id, c.oldParams).Err()
+	if err := w.ItemCreate(c.Id, c.oldParams).Err(); err != nil {
+		return err
+	}
+	if c.oldParentId != "" {
+		if err := w.Nest(c.Id, c.oldParentId).Err(); err != nil {
+			return err
+		}
+	}
+	for _, id := range c.oldComponentIds {
+		if err := w.Nest(id, c.Id).Err(); err != nil {
+			return err
+		}
+	}
+	for _, rel := range c.oldRels {
+		params := world.RelParams{
+			Verb:      strPtr(rel.Verb),
+			Mechanism: strPtr(rel.Mechanism),
+			Async:     boolPtr(rel.Async),
+			Expanded:  strPtr(rel.Expanded),
+		}
+		if err := w.RelCreate(rel.From.Id, rel.To.Id, params).Err(); err != nil {
+			return err
+		}
+	}
+	return nil
 }
 
 // ItemNestCommand represents a nest command for Item.
-- 
2.43.0


From 9e7ad556e4a71a2d3e20bfff3035566a8e73fd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:40 +0000
Subject: [PATCH 14/40] fix: record only commands that succeeded, after the
 last one not undone

---
 pkg/app/main.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/app/main.go b/pkg/app/main.go
index 2dfdcb4..904fbbd 100644
--- a/pkg/app/main.go
+++ b/pkg/app/main.go
@@ -87,9 +87,13 @@ func (h *app) Persistence() persistence.Persistence {
 // --- INTERNAL ---
 
 func (h *app) exec(c Command) (fmt.Stringer, error) {
-	h.commands = append(h.commands, c)
+	o, err := c.Execute(h.world)
+	if err != nil {
+		return o, err // It has not changed the World, so it isn't part of the app History.
+	}
+	h.commands = append(h.commands[:h.commandsIdx+1], c) // Discard undone commands - they don't apply to the new state.
 	h.commandsIdx++
-	return c.Execute(h.world)
+	return o, nil
 }
 
 func (h *app) undo() (error, int) {
-- 
2.43.0


From 267f602060d5432e421e2cc21d9bd82f3d64a81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:41 +0000
Subject: [PATCH 15/40] fix: redo the command that was undone, not the one
 before it

---
 pkg/app/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/app/main.go b/pkg/app/main.go
index 904fbbd..a877d6b 100644
--- a/pkg/app/main.go
+++ b/pkg/app/main.go
@@ -115,7 +115,7 @@ func (h *app) redo() (error, int) {
 	if h.commandsIdx >= len(h.commands)-1 {
 		return nil, 0
 	}
-	_, err := h.commands[h.commandsIdx].Execute(h.world)
+	_, err := h.commands[h.commandsIdx+1].Execute(h.world)
 	if err != nil {
 		// We aren't going to validate state of the World. But a problem happened.
 		// Clear app, reset commandsIdx, and return the error.
-- 
2.43.0


From 8e0a1f9b3ef5aa21e6bbbb8e9b15c505c2946678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:42 +0000
Subject: [PATCH 16/40] fix: return a copy of the app history

---
 pkg/app/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/app/main.go b/pkg/app/main.go
index a877d6b..53c6ae4 100644
--- a/pkg/app/main.go
+++ b/pkg/app/main.go
@@ -6,6 +6,7 @@ import (
 	"github.com/williamflynt/topolith/pkg/grammar"
 	"github.com/williamflynt/topolith/pkg/persistence"
 	"github.com/williamflynt/topolith/pkg/world"
+	"slices"
 )
 
 type App interface {
@@ -69,7 +70,7 @@ func (h *app) Exec(s string) string {
 }
 
 func (h *app) History() []Command {
-	return h.commands[:h.commandsIdx+1]
+	return slices.Clone(h.commands[:h.commandsIdx+1]) // The caller must not see, or make, changes to our list.
 }
 
 func (h *app) CanUndo() bool {
-- 
2.43.0


From d106e112449eed7b6cdd4d538754400474ecd1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:59 +0000
Subject: [PATCH 17/40] fix: quote world id, name and expanded text, and
 unquote them when reading

---
 pkg/world/world.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pkg/world/world.go b/pkg/world/world.go
index 6f981db..a025b3f 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -97,17 +97,13 @@ func FromString(s string) (World, error) {
 		return nil, errors.New("error parsing World").UseCode(errors.TopolithErrorInvalid).WithError(err).WithDescription("error parsing World").WithData(errors.KvPair{Key: "input", Value: s})
 	}
 
-	w := CreateWorld(p.WorldParams["name"])
+	w := CreateWorld(unquote(p.WorldParams["name"]))
 
 	if version, err := strconv.Atoi(p.WorldParams["version"]); err == nil && version != 0 {
 		w.SetVersion(version)
 	}
-	if p.WorldParams["id"] != "" {
-		w.SetId(p.WorldParams["id"])
-	}
-	if p.WorldParams["expanded"] != "" {
-		w.SetExpanded(p.WorldParams["expanded"])
-	}
+	w.SetId(p.WorldParams["id"])
+	w.SetExpanded(unquote(p.WorldParams["expanded"]))
 
 	for _, itemStr := range p.ItemStrings {
 		item, err := ItemFromString(itemStr)
@@ -265,7 +261,7 @@ func (w *world) String() string {
 	for _, rel := range w.Rels {
 		allRels = append(allRels, rel.String())
 	}
-	return fmt.Sprintf("$$world\nversion=%d\nid=%s\nname=%s\nexpanded=%s\n%s\n%s\nendworld$$",
+	return fmt.Sprintf("$$world\nversion=%d\nid=\"%s\"\nname=\"%s\"\nexpanded=\"%s\"\n%s\n%s\nendworld$$",
 		w.Version_,
 		w.Id_,
 		w.Name_,
@@ -766,6 +762,11 @@ func (w *world) resetLatestTrackers() {
 	w.latestErr = nil
 }
 
+// unquote removes the quotes from QuotedText, as it appears in our grammar.
+func unquote(s string) string {
+	return strings.Trim(s, "\"")
+}
+
 func strPtr(s string) *string {
 	return &s
 }
-- 
2.43.0


From e193103c3187103dfe7e5ad7c46040db9af732a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:58 +0000
Subject: [PATCH 18/40] fix: take keywords as whole words, not as the beginning
 of longer ones

---
 pkg/grammar/grammar.peg    |  38 +++---
 pkg/grammar/grammar.peg.go | 248 ++++++++++++++++++++++++++-----------
 2 files changed, 194 insertions(+), 92 deletions(-)

diff --git a/pkg/grammar/grammar.peg b/pkg/grammar/grammar.peg
index de250c3..954d5ab 100644
--- a/pkg/grammar/grammar.peg
+++ b/pkg/grammar/grammar.peg
@@ -226,27 +226,27 @@ ItemType
 Keyword
   <- WORLD / ENDWORLD / ERROR / OK / ITEM / ITEM_EXISTS / REL / REL_EXISTS / FROM_QUERY / TO_QUERY / IN / IN_QUERY / CREATE / DELETE / SET / CLEAR / FETCH / LIST / EXISTS / FREE / NEST / FLAG / DELIMITER
 
-WORLD       <- 'world' _
-ENDWORLD    <- 'endworld' _
-ERROR       <- 'error' _
-OK          <- 'ok' _
-ITEM        <- 'item' 's'? _
+WORLD       <- 'world' WordEnd _
+ENDWORLD    <- 'endworld' WordEnd _
+ERROR       <- 'error' WordEnd _
+OK          <- 'ok' WordEnd _
+ITEM        <- 'item' 's'? WordEnd _
 ITEM_EXISTS <- 'item?' _
-REL         <- 'rel' 's'? _
+REL         <- 'rel' 's'? WordEnd _
 REL_EXISTS  <- 'rel?' _
 FROM_QUERY  <- 'from?' _    # Rels from this Item to anywhere.
 TO_QUERY    <- 'to?' _      # Rels from anywhere to this Item.
-IN          <- 'in' _
+IN          <- 'in' WordEnd _
 IN_QUERY    <- 'in?' _      # Items under this one in the Tree, recursively unless STRICT set.
-CREATE      <- 'create' _
-DELETE      <- 'delete' _
-SET         <- 'set' _
-CLEAR       <- 'clear' _
-FETCH       <- 'fetch' _
-LIST        <- 'list' _
-EXISTS      <- 'exists' _
-FREE        <- 'free' _
-NEST        <- 'nest' _
+CREATE      <- 'create' WordEnd _
+DELETE      <- 'delete' WordEnd _
+SET         <- 'set' WordEnd _
+CLEAR       <- 'clear' WordEnd _
+FETCH       <- 'fetch' WordEnd _
+LIST        <- 'list' WordEnd _
+EXISTS      <- 'exists' WordEnd _
+FREE        <- 'free' WordEnd _
+NEST        <- 'nest' WordEnd _
 TRUE        <- 'true' _
 FALSE       <- 'false' _
 
@@ -289,4 +289,8 @@ EOL
   <- '\r\n' / '\n' / '\r'
 
 END
-  <- !.
\ No newline at end of file
+  <- !.
+
+# A keyword is a whole word - longer words that begin with it are just Text.
+WordEnd
+  <- ![a-zA-Z0-9-_]
\ No newline at end of file
diff --git a/pkg/grammar/grammar.peg.go b/pkg/grammar/grammar.peg.go
index b15330a..63b0cc6 100644
--- a/pkg/grammar/grammar.peg.go
+++ b/pkg/grammar/grammar.peg.go
@@ -140,6 +140,7 @@ const (
 	ruleWhitespace
 	ruleEOL
 	ruleEND
+	ruleWordEnd
 	ruleAction0
 	ruleAction1
 	rulePegText
@@ -324,6 +325,7 @@ var rul3s = [...]string{
 	"Whitespace",
 	"EOL",
 	"END",
+	"WordEnd",
 	"Action0",
 	"Action1",
 	"PegText",
@@ -517,7 +519,7 @@ type Parser struct {
 
 	Buffer string
 	buffer []rune
-	rules  [181]func() bool
+	rules  [182]func() bool
 	parse  func(rule ...int) error
 	reset  func()
 	Pretty bool
@@ -4152,7 +4154,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 			position, tokenIndex = position408, tokenIndex408
 			return false
 		},
-		/* 69 WORLD <- <('w' 'o' 'r' 'l' 'd' _)> */
+		/* 69 WORLD <- <('w' 'o' 'r' 'l' 'd' WordEnd _)> */
 		func() bool {
 			position421, tokenIndex421 := position, tokenIndex
 			{
@@ -4177,6 +4179,9 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 					goto l421
 				}
 				position++
+				if !_rules[ruleWordEnd]() {
+					goto l421
+				}
 				if !_rules[rule_]() {
 					goto l421
 				}
@@ -4187,7 +4192,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 			position, tokenIndex = position421, tokenIndex421
 			return false
 		},
-		/* 70 ENDWORLD <- <('e' 'n' 'd' 'w' 'o' 'r' 'l' 'd' _)> */
+		/* 70 ENDWORLD <- <('e' 'n' 'd' 'w' 'o' 'r' 'l' 'd' WordEnd _)> */
 		func() bool {
 			position423, tokenIndex423 := position, tokenIndex
 			{
@@ -4224,6 +4229,9 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 					goto l423
 				}
 				position++
+				if !_rules[ruleWordEnd]() {
+					goto l423
+				}
 				if !_rules[rule_]() {
 					goto l423
 				}
@@ -4234,7 +4242,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 			position, tokenIndex = position423, tokenIndex423
 			return false
 		},
-		/* 71 ERROR <- <('e' 'r' 'r' 'o' 'r' _)> */
+		/* 71 ERROR <- <('e' 'r' 'r' 'o' 'r' WordEnd _)> */
 		func() bool {
 			position425, tokenIndex425 := position, tokenIndex
 			{
@@ -4259,6 +4267,9 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 					goto l425
 				}
 				position++
+				if !_rules[ruleWordEnd]() {
+					goto l425
+				}
 				if !_rules[rule_]() {
 					goto l425
 				}
@@ -4269,7 +4280,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 			position, tokenIndex = position425, tokenIndex425
 			return false
 		},
-		/* 72 OK <- <('o' 'k' _)> */
+		/* 72 OK <- <('o' 'k' WordEnd _)> */
 		func() bool {
 			position427, tokenIndex427 := position, tokenIndex
 			{
@@ -4282,6 +4293,9 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 					goto l427
 				}
 				position++
+				if !_rules[ruleWordEnd]() {
+					goto l427
+				}
 				if !_rules[rule_]() {
 					goto l427
 				}
@@ -4292,7 +4306,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 			position, tokenIndex = position427, tokenIndex427
 			return false
 		},
-		/* 73 ITEM <- <('i' 't' 'e' 'm' 's'? _)> */
+		/* 73 ITEM <- <('i' 't' 'e' 'm' 's'? WordEnd _)> */
 		func() bool {
 			position429, tokenIndex429 := position, tokenIndex
 			{
@@ -4324,6 +4338,9 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 					position, tokenIndex = position431, tokenIndex431
 				}
 			l432:
+				if !_rules[ruleWordEnd]() {
+					goto l429
+				}
 				if !_rules[rule_]() {
 					goto l429
 				}
@@ -4369,7 +4386,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 			position, tokenIndex = position433, tokenIndex433
 			return false
 		},
-		/* 75 REL <- <('r' 'e' 'l' 's'? _)> */
+		/* 75 REL <- <('r' 'e' 'l' 's'? WordEnd _)> */
 		func() bool {
 			position435, tokenIndex435 := position, tokenIndex
 			{
@@ -4397,6 +4414,9 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 					position, tokenIndex = position437, tokenIndex437
 				}
 			l438:
+				if !_rules[ruleWordEnd]() {
+					goto l435
+				}
 				if !_rules[rule_]() {
 					goto l435
 				}
@@ -4500,7 +4520,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 			position, tokenIndex = position443, tokenIndex443
 			return false
 		},
-		/* 79 IN <- <('i' 'n' _)> */
+		/* 79 IN <- <('i' 'n' WordEnd _)> */
 		func() bool {
 			position445, tokenIndex445 := position, tokenIndex
 			{
@@ -4513,6 +4533,9 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 					goto l445
 				}
 				position++
+				if !_rules[ruleWordEnd]() {
+					goto l445
+				}
 				if !_rules[rule_]() {
 					goto l445
 				}
@@ -4550,7 +4573,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 			position, tokenIndex = position447, tokenIndex447
 			return false
 		},
-		/* 81 CREATE <- <('c' 'r' 'e' 'a' 't' 'e' _)> */
+		/* 81 CREATE <- <('c' 'r' 'e' 'a' 't' 'e' WordEnd _)> */
 		func() bool {
 			position449, tokenIndex449 := position, tokenIndex
 			{
@@ -4579,6 +4602,9 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 					goto l449
 				}
 				position++
+				if !_rules[ruleWordEnd]() {
+					goto l449
+				}
 				if !_rules[rule_]() {
 					goto l449
 				}
@@ -4589,7 +4615,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 			position, tokenIndex = position449, tokenIndex449
 			return false
 		},
-		/* 82 DELETE <- <('d' 'e' 'l' 'e' 't' 'e' _)> */
+		/* 82 DELETE <- <('d' 'e' 'l' 'e' 't' 'e' WordEnd _)> */
 		func() bool {
 			position451, tokenIndex451 := position, tokenIndex
 			{
@@ -4618,6 +4644,9 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 					goto l451
 				}
 				position++
+				if !_rules[ruleWordEnd]() {
+					goto l451
+				}
 				if !_rules[rule_]() {
 					goto l451
 				}
@@ -4628,7 +4657,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 			position, tokenIndex = position451, tokenIndex451
 			return false
 		},
-		/* 83 SET <- <('s' 'e' 't' _)> */
+		/* 83 SET <- <('s' 'e' 't' WordEnd _)> */
 		func() bool {
 			position453, tokenIndex453 := position, tokenIndex
 			{
@@ -4645,6 +4674,9 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 					goto l453
 				}
 				position++
+				if !_rules[ruleWordEnd]() {
+					goto l453
+				}
 				if !_rules[rule_]() {
 					goto l453
 				}
@@ -4655,7 +4687,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 			position, tokenIndex = position453, tokenIndex453
 			return false
 		},
-		/* 84 CLEAR <- <('c' 'l' 'e' 'a' 'r' _)> */
+		/* 84 CLEAR <- <('c' 'l' 'e' 'a' 'r' WordEnd _)> */
 		func() bool {
 			position455, tokenIndex455 := position, tokenIndex
 			{
@@ -4680,6 +4712,9 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 					goto l455
 				}
 				position++
+				if !_rules[ruleWordEnd]() {
+					goto l455
+				}
 				if !_rules[rule_]() {
 					goto l455
 				}
@@ -4690,7 +4725,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 			position, tokenIndex = position455, tokenIndex455
 			return false
 		},
-		/* 85 FETCH <- <('f' 'e' 't' 'c' 'h' _)> */
+		/* 85 FETCH <- <('f' 'e' 't' 'c' 'h' WordEnd _)> */
 		func() bool {
 			position457, tokenIndex457 := position, tokenIndex
 			{
@@ -4715,6 +4750,9 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 					goto l457
 				}
 				position++
+				if !_rules[ruleWordEnd]() {
+					goto l457
+				}
 				if !_rules[rule_]() {
 					goto l457
 				}
@@ -4725,7 +4763,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 			position, tokenIndex = position457, tokenIndex457
 			return false
 		},
-		/* 86 LIST <- <('l' 'i' 's' 't' _)> */
+		/* 86 LIST <- <('l' 'i' 's' 't' WordEnd _)> */
 		func() bool {
 			position459, tokenIndex459 := position, tokenIndex
 			{
@@ -4746,6 +4784,9 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 					goto l459
 				}
 				position++
+				if !_rules[ruleWordEnd]() {
+					goto l459
+				}
 				if !_rules[rule_]() {
 					goto l459
 				}
@@ -4756,7 +4797,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 			position, tokenIndex = position459, tokenIndex459
 			return false
 		},
-		/* 87 EXISTS <- <('e' 'x' 'i' 's' 't' 's' _)> */
+		/* 87 EXISTS <- <('e' 'x' 'i' 's' 't' 's' WordEnd _)> */
 		func() bool {
 			position461, tokenIndex461 := position, tokenIndex
 			{
@@ -4785,6 +4826,9 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 					goto l461
 				}
 				position++
+				if !_rules[ruleWordEnd]() {
+					goto l461
+				}
 				if !_rules[rule_]() {
 					goto l461
 				}
@@ -4795,7 +4839,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 			position, tokenIndex = position461, tokenIndex461
 			return false
 		},
-		/* 88 FREE <- <('f' 'r' 'e' 'e' _)> */
+		/* 88 FREE <- <('f' 'r' 'e' 'e' WordEnd _)> */
 		func() bool {
 			position463, tokenIndex463 := position, tokenIndex
 			{
@@ -4816,6 +4860,9 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 					goto l463
 				}
 				position++
+				if !_rules[ruleWordEnd]() {
+					goto l463
+				}
 				if !_rules[rule_]() {
 					goto l463
 				}
@@ -4826,7 +4873,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 			position, tokenIndex = position463, tokenIndex463
 			return false
 		},
-		/* 89 NEST <- <('n' 'e' 's' 't' _)> */
+		/* 89 NEST <- <('n' 'e' 's' 't' WordEnd _)> */
 		func() bool {
 			position465, tokenIndex465 := position, tokenIndex
 			{
@@ -4847,6 +4894,9 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 					goto l465
 				}
 				position++
+				if !_rules[ruleWordEnd]() {
+					goto l465
+				}
 				if !_rules[rule_]() {
 					goto l465
 				}
@@ -5310,42 +5360,90 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 			position, tokenIndex = position519, tokenIndex519
 			return false
 		},
-		/* 122 Action0 <- <{
+		/* 121 WordEnd <- <!((&('_') '_') | (&('-') '-') | (&('0' | '1' | '2' | '3' | '4' | '5' | '6' | '7' | '8' | '9') [0-9]) | (&('A' | 'B' | 'C' | 'D' | 'E' | 'F' | 'G' | 'H' | 'I' | 'J' | 'K' | 'L' | 'M' | 'N' | 'O' | 'P' | 'Q' | 'R' | 'S' | 'T' | 'U' | 'V' | 'W' | 'X' | 'Y' | 'Z') [A-Z]) | (&('a' | 'b' | 'c' | 'd' | 'e' | 'f' | 'g' | 'h' | 'i' | 'j' | 'k' | 'l' | 'm' | 'n' | 'o' | 'p' | 'q' | 'r' | 's' | 't' | 'u' | 'v' | 'w' | 'x' | 'y' | 'z') [a-z]))> */
+		func() bool {
+			position522, tokenIndex522 := position, tokenIndex
+			{
+				position523 := position
+				{
+					position524, tokenIndex524 := position, tokenIndex
+					{
+						switch buffer[position] {
+						case '_':
+							if buffer[position] != rune('_') {
+								goto l524
+							}
+							position++
+						case '-':
+							if buffer[position] != rune('-') {
+								goto l524
+							}
+							position++
+						case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9':
+							if c := buffer[position]; c < rune('0') || c > rune('9') {
+								goto l524
+							}
+							position++
+						case 'A', 'B', 'C', 'D', 'E', 'F', 'G', 'H', 'I', 'J', 'K', 'L', 'M', 'N', 'O', 'P', 'Q', 'R', 'S', 'T', 'U', 'V', 'W', 'X', 'Y', 'Z':
+							if c := buffer[position]; c < rune('A') || c > rune('Z') {
+								goto l524
+							}
+							position++
+						default:
+							if c := buffer[position]; c < rune('a') || c > rune('z') {
+								goto l524
+							}
+							position++
+						}
+					}
+
+					goto l522
+				l524:
+					position, tokenIndex = position524, tokenIndex524
+				}
+				add(ruleWordEnd, position523)
+			}
+			return true
+		l522:
+			position, tokenIndex = position522, tokenIndex522
+			return false
+		},
+		/* 123 Action0 <- <{
 		   p.StmtType = "Response"
 		 }> */
 		nil,
-		/* 123 Action1 <- <{
+		/* 124 Action1 <- <{
 		   p.StmtType = "Command"
 		   p.InputAttributes.Raw = p.Buffer
 		 }> */
 		nil,
 		nil,
-		/* 125 Action2 <- <{ p.InputAttributes.SecondaryIds = append(p.InputAttributes.SecondaryIds, cleanString(text)) }> */
+		/* 126 Action2 <- <{ p.InputAttributes.SecondaryIds = append(p.InputAttributes.SecondaryIds, cleanString(text)) }> */
 		nil,
-		/* 126 Action3 <- <{ p.InputAttributes.Verb = "fetch" }> */
+		/* 127 Action3 <- <{ p.InputAttributes.Verb = "fetch" }> */
 		nil,
-		/* 127 Action4 <- <{ p.InputAttributes.Verb = "list" }> */
+		/* 128 Action4 <- <{ p.InputAttributes.Verb = "list" }> */
 		nil,
-		/* 128 Action5 <- <{ p.InputAttributes.Verb = "create-or-fetch" }> */
+		/* 129 Action5 <- <{ p.InputAttributes.Verb = "create-or-fetch" }> */
 		nil,
-		/* 129 Action6 <- <{ p.InputAttributes.Verb = "create-or-set" }> */
+		/* 130 Action6 <- <{ p.InputAttributes.Verb = "create-or-set" }> */
 		nil,
-		/* 130 Action7 <- <{
+		/* 131 Action7 <- <{
 		   p.StmtType = "WorldObject"; p.Response.Object.Type = "world"
 		   p.Response.Object.Repr = strings.Join(append([]string{p.WorldParams["paramString"], p.TreeString}, p.RelStrings...), "\n")
 		 }> */
 		nil,
-		/* 131 Action8 <- <{
+		/* 132 Action8 <- <{
 		   p.Response.Object.Type = "item"; p.Response.Object.Repr = strings.TrimSpace(text); p.ItemStrings = append(p.ItemStrings, strings.TrimSpace(text))
 		   p.currentId = p.InputAttributes.ResourceId
 		   p.nodeStack = append(p.nodeStack, Node{Id: p.currentId, Children: []Node{}})
 		 }> */
 		nil,
-		/* 132 Action9 <- <{ p.Response.Object.Type = "rel"; p.Response.Object.Repr = strings.TrimSpace(text); p.RelStrings = append(p.RelStrings, strings.TrimSpace(text)) }> */
+		/* 133 Action9 <- <{ p.Response.Object.Type = "rel"; p.Response.Object.Repr = strings.TrimSpace(text); p.RelStrings = append(p.RelStrings, strings.TrimSpace(text)) }> */
 		nil,
-		/* 133 Action10 <- <{ p.Response.Object.Type = "ids"; b, _ := json.Marshal(p.InputAttributes.ResourceIds); p.Response.Object.Repr = string(b) }> */
+		/* 134 Action10 <- <{ p.Response.Object.Type = "ids"; b, _ := json.Marshal(p.InputAttributes.ResourceIds); p.Response.Object.Repr = string(b) }> */
 		nil,
-		/* 134 Action11 <- <{
+		/* 135 Action11 <- <{
 		   p.StmtType = "Tree"; p.Response.Object.Type = "tree"; p.Response.Object.Repr = text; p.TreeString = text
 		   if len(p.nodeStack) > 0 {
 		     node := p.nodeStack[len(p.nodeStack)-1]
@@ -5358,27 +5456,27 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 		   }
 		 }> */
 		nil,
-		/* 135 Action12 <- <{
+		/* 136 Action12 <- <{
 		   p.currentId = "nil"
 		   p.nodeStack = append(p.nodeStack, Node{Id: p.currentId, Children: []Node{}})
 		 }> */
 		nil,
-		/* 136 Action13 <- <{
+		/* 137 Action13 <- <{
 		   p.StmtType = "Status"
 		   p.Response.Status.Message = cleanString(text)
 		 }> */
 		nil,
-		/* 137 Action14 <- <{ p.Response.Status.Code = p.number }> */
+		/* 138 Action14 <- <{ p.Response.Status.Code = p.number }> */
 		nil,
-		/* 138 Action15 <- <{ p.InputAttributes.Params["limit"] = cleanString(text) }> */
+		/* 139 Action15 <- <{ p.InputAttributes.Params["limit"] = cleanString(text) }> */
 		nil,
-		/* 139 Action16 <- <{ p.InputAttributes.ResourceId = cleanString(text) }> */
+		/* 140 Action16 <- <{ p.InputAttributes.ResourceId = cleanString(text) }> */
 		nil,
-		/* 140 Action17 <- <{
+		/* 141 Action17 <- <{
 		   p.InputAttributes.SecondaryIds = append(p.InputAttributes.SecondaryIds, cleanString(text))
 		 }> */
 		nil,
-		/* 141 Action18 <- <{
+		/* 142 Action18 <- <{
 		   p.InputAttributes.ResourceId = ""
 		   ids := strings.Fields(text)
 		   for _, id := range ids {
@@ -5386,85 +5484,85 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 		   }
 		 }> */
 		nil,
-		/* 142 Action19 <- <{
+		/* 143 Action19 <- <{
 		   p.WorldParams["paramString"] = fmt.Sprintf("version=%s\nid=%s\nname=%s\nexpanded=%s", p.WorldParams["version"], p.WorldParams["id"], p.WorldParams["name"], p.WorldParams["expanded"])
 		 }> */
 		nil,
-		/* 143 Action20 <- <{ p.WorldParams["version"] = cleanString(text) }> */
+		/* 144 Action20 <- <{ p.WorldParams["version"] = cleanString(text) }> */
 		nil,
-		/* 144 Action21 <- <{ p.WorldParams["id"] = cleanString(text) }> */
+		/* 145 Action21 <- <{ p.WorldParams["id"] = cleanString(text) }> */
 		nil,
-		/* 145 Action22 <- <{ p.WorldParams["name"] = strings.TrimSpace(text) }> */
+		/* 146 Action22 <- <{ p.WorldParams["name"] = strings.TrimSpace(text) }> */
 		nil,
-		/* 146 Action23 <- <{ p.WorldParams["expanded"] = strings.TrimSpace(text) }> */
+		/* 147 Action23 <- <{ p.WorldParams["expanded"] = strings.TrimSpace(text) }> */
 		nil,
-		/* 147 Action24 <- <{ p.Params["external"] = cleanString(text) }> */
+		/* 148 Action24 <- <{ p.Params["external"] = cleanString(text) }> */
 		nil,
-		/* 148 Action25 <- <{ p.Params["type"] = cleanString(text) }> */
+		/* 149 Action25 <- <{ p.Params["type"] = cleanString(text) }> */
 		nil,
-		/* 149 Action26 <- <{ p.Params["name"] = cleanString(text) }> */
+		/* 150 Action26 <- <{ p.Params["name"] = cleanString(text) }> */
 		nil,
-		/* 150 Action27 <- <{ p.Params["mechanism"] = cleanString(text) }> */
+		/* 151 Action27 <- <{ p.Params["mechanism"] = cleanString(text) }> */
 		nil,
-		/* 151 Action28 <- <{ p.Params["expanded"] = cleanString(text) }> */
+		/* 152 Action28 <- <{ p.Params["expanded"] = cleanString(text) }> */
 		nil,
-		/* 152 Action29 <- <{ p.Params["verb"] = cleanString(text) }> */
+		/* 153 Action29 <- <{ p.Params["verb"] = cleanString(text) }> */
 		nil,
-		/* 153 Action30 <- <{ p.Params["mechanism"] = cleanString(text) }> */
+		/* 154 Action30 <- <{ p.Params["mechanism"] = cleanString(text) }> */
 		nil,
-		/* 154 Action31 <- <{ p.Params["async"] = cleanString(text) }> */
+		/* 155 Action31 <- <{ p.Params["async"] = cleanString(text) }> */
 		nil,
-		/* 155 Action32 <- <{ p.Params["expanded"] = cleanString(text) }> */
+		/* 156 Action32 <- <{ p.Params["expanded"] = cleanString(text) }> */
 		nil,
-		/* 156 Action33 <- <{ p.InputAttributes.Params[cleanString(text)] = "" }> */
+		/* 157 Action33 <- <{ p.InputAttributes.Params[cleanString(text)] = "" }> */
 		nil,
-		/* 157 Action34 <- <{ p.InputAttributes.Params[cleanString(text)] = "" }> */
+		/* 158 Action34 <- <{ p.InputAttributes.Params[cleanString(text)] = "" }> */
 		nil,
-		/* 158 Action35 <- <{ p.text = cleanString(text) }> */
+		/* 159 Action35 <- <{ p.text = cleanString(text) }> */
 		nil,
-		/* 159 Action36 <- <{ n, _ := strconv.Atoi(text); p.number = n }> */
+		/* 160 Action36 <- <{ n, _ := strconv.Atoi(text); p.number = n }> */
 		nil,
-		/* 160 Action37 <- <{ p.bool = text == "true" }> */
+		/* 161 Action37 <- <{ p.bool = text == "true" }> */
 		nil,
-		/* 161 Action38 <- <{ p.InputAttributes.ResourceType = "item"; p.InputAttributes.Verb = "exists" }> */
+		/* 162 Action38 <- <{ p.InputAttributes.ResourceType = "item"; p.InputAttributes.Verb = "exists" }> */
 		nil,
-		/* 162 Action39 <- <{ p.InputAttributes.ResourceType = "rel"; p.InputAttributes.Verb = "exists" }> */
+		/* 163 Action39 <- <{ p.InputAttributes.ResourceType = "rel"; p.InputAttributes.Verb = "exists" }> */
 		nil,
-		/* 163 Action40 <- <{ p.InputAttributes.ResourceType = "world" }> */
+		/* 164 Action40 <- <{ p.InputAttributes.ResourceType = "world" }> */
 		nil,
-		/* 164 Action41 <- <{ p.InputAttributes.ResourceType = "item" }> */
+		/* 165 Action41 <- <{ p.InputAttributes.ResourceType = "item" }> */
 		nil,
-		/* 165 Action42 <- <{ p.InputAttributes.ResourceType = "rel" }> */
+		/* 166 Action42 <- <{ p.InputAttributes.ResourceType = "rel" }> */
 		nil,
-		/* 166 Action43 <- <{ p.InputAttributes.Verb = "create" }> */
+		/* 167 Action43 <- <{ p.InputAttributes.Verb = "create" }> */
 		nil,
-		/* 167 Action44 <- <{ p.InputAttributes.Verb = "fetch" }> */
+		/* 168 Action44 <- <{ p.InputAttributes.Verb = "fetch" }> */
 		nil,
-		/* 168 Action45 <- <{ p.InputAttributes.Verb = "set" }> */
+		/* 169 Action45 <- <{ p.InputAttributes.Verb = "set" }> */
 		nil,
-		/* 169 Action46 <- <{ p.InputAttributes.Verb = "clear" }> */
+		/* 170 Action46 <- <{ p.InputAttributes.Verb = "clear" }> */
 		nil,
-		/* 170 Action47 <- <{ p.InputAttributes.Verb = "delete" }> */
+		/* 171 Action47 <- <{ p.InputAttributes.Verb = "delete" }> */
 		nil,
-		/* 171 Action48 <- <{ p.InputAttributes.Verb = "list" }> */
+		/* 172 Action48 <- <{ p.InputAttributes.Verb = "list" }> */
 		nil,
-		/* 172 Action49 <- <{ p.InputAttributes.Verb = "nest"; p.InputAttributes.ResourceType = "item" }> */
+		/* 173 Action49 <- <{ p.InputAttributes.Verb = "nest"; p.InputAttributes.ResourceType = "item" }> */
 		nil,
-		/* 173 Action50 <- <{ p.InputAttributes.Verb = "free"; p.InputAttributes.ResourceType = "item" }> */
+		/* 174 Action50 <- <{ p.InputAttributes.Verb = "free"; p.InputAttributes.ResourceType = "item" }> */
 		nil,
-		/* 174 Action51 <- <{ p.InputAttributes.Verb = "exists" }> */
+		/* 175 Action51 <- <{ p.InputAttributes.Verb = "exists" }> */
 		nil,
-		/* 175 Action52 <- <{ p.InputAttributes.Verb = "in?"; p.InputAttributes.ResourceType = "item" }> */
+		/* 176 Action52 <- <{ p.InputAttributes.Verb = "in?"; p.InputAttributes.ResourceType = "item" }> */
 		nil,
-		/* 176 Action53 <- <{ p.InputAttributes.Verb = "from?"; p.InputAttributes.ResourceType = "rel" }> */
+		/* 177 Action53 <- <{ p.InputAttributes.Verb = "from?"; p.InputAttributes.ResourceType = "rel" }> */
 		nil,
-		/* 177 Action54 <- <{ p.InputAttributes.Verb = "to?"; p.InputAttributes.ResourceType = "rel" }> */
+		/* 178 Action54 <- <{ p.InputAttributes.Verb = "to?"; p.InputAttributes.ResourceType = "rel" }> */
 		nil,
-		/* 178 Action55 <- <{ p.InputAttributes.Flags = append(p.InputAttributes.Flags, "strict") }> */
+		/* 179 Action55 <- <{ p.InputAttributes.Flags = append(p.InputAttributes.Flags, "strict") }> */
 		nil,
-		/* 179 Action56 <- <{ p.InputAttributes.Flags = append(p.InputAttributes.Flags, "verbose") }> */
+		/* 180 Action56 <- <{ p.InputAttributes.Flags = append(p.InputAttributes.Flags, "verbose") }> */
 		nil,
-		/* 180 Action57 <- <{ p.InputAttributes.Flags = append(p.InputAttributes.Flags, "ids") }> */
+		/* 181 Action57 <- <{ p.InputAttributes.Flags = append(p.InputAttributes.Flags, "ids") }> */
 		nil,
 	}
 	p.rules = _rules
-- 
2.43.0


From 0223160d8ce11121bb3aff28b7eeb5d5857d3825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:19 +0000
Subject: [PATCH 19/40] fix: keep quoted identifiers with spaces whole in
 identifier lists

---
 pkg/grammar/grammar.peg    |  5 +----
 pkg/grammar/grammar.peg.go | 10 ++--------
 pkg/grammar/main.go        | 19 +++++++++++++++++++
 3 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/pkg/grammar/grammar.peg b/pkg/grammar/grammar.peg
index 954d5ab..ad3a4b3 100644
--- a/pkg/grammar/grammar.peg
+++ b/pkg/grammar/grammar.peg
@@ -148,10 +148,7 @@ IdentifierList
   <- <Identifier Identifier*>
   {
     p.InputAttributes.ResourceId = ""
-    ids := strings.Fields(text)
-    for _, id := range ids {
-      p.InputAttributes.ResourceIds = append(p.InputAttributes.ResourceIds, cleanString(id))
-    }
+    p.InputAttributes.ResourceIds = append(p.InputAttributes.ResourceIds, splitIdentifiers(text)...)
   }
 
 WorldParams <- _ WorldParamVersion _ WorldParamId _ WorldParamName _ WorldParamExpanded _
diff --git a/pkg/grammar/grammar.peg.go b/pkg/grammar/grammar.peg.go
index 63b0cc6..2c38d84 100644
--- a/pkg/grammar/grammar.peg.go
+++ b/pkg/grammar/grammar.peg.go
@@ -701,10 +701,7 @@ func (p *Parser) Execute() {
 		case ruleAction18:
 
 			p.InputAttributes.ResourceId = ""
-			ids := strings.Fields(text)
-			for _, id := range ids {
-				p.InputAttributes.ResourceIds = append(p.InputAttributes.ResourceIds, cleanString(id))
-			}
+			p.InputAttributes.ResourceIds = append(p.InputAttributes.ResourceIds, splitIdentifiers(text)...)
 
 		case ruleAction19:
 
@@ -5478,10 +5475,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 		nil,
 		/* 142 Action18 <- <{
 		   p.InputAttributes.ResourceId = ""
-		   ids := strings.Fields(text)
-		   for _, id := range ids {
-		     p.InputAttributes.ResourceIds = append(p.InputAttributes.ResourceIds, cleanString(id))
-		   }
+		   p.InputAttributes.ResourceIds = append(p.InputAttributes.ResourceIds, splitIdentifiers(text)...)
 		 }> */
 		nil,
 		/* 143 Action19 <- <{
diff --git a/pkg/grammar/main.go b/pkg/grammar/main.go
index 381db04..139df4e 100644
--- a/pkg/grammar/main.go
+++ b/pkg/grammar/main.go
@@ -73,3 +73,22 @@ func Parse(s string) (*Parser, error) {
 func cleanString(s string) string {
 	return strings.Trim(strings.TrimSpace(s), "\"")
 }
+
+// splitIdentifiers returns the identifiers in the text of an IdentifierList. Quoted identifiers may contain spaces.
+func splitIdentifiers(s string) []string {
+	ids := make([]string, 0)
+	for s = strings.TrimSpace(s); s != ""; s = strings.TrimSpace(s) {
+		if id, rest, ok := strings.Cut(s[1:], "\""); ok && s[0] == '"' {
+			ids = append(ids, id)
+			s = rest
+			continue
+		}
+		end := strings.IndexAny(s, "\" \t\r\n")
+		if end <= 0 {
+			end = len(s)
+		}
+		ids = append(ids, cleanString(s[:end]))
+		s = s[end:]
+	}
+	return ids
+}
-- 
2.43.0


From e08ef9fbfda48f7ade1cba21d9a8f04245382c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:06 +0000
Subject: [PATCH 20/40] fix: refuse to read a world from text that has no world
 in it

---
 pkg/world/world.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/world/world.go b/pkg/world/world.go
index a025b3f..633dee4 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -97,6 +97,10 @@ func FromString(s string) (World, error) {
 		return nil, errors.New("error parsing World").UseCode(errors.TopolithErrorInvalid).WithError(err).WithDescription("error parsing World").WithData(errors.KvPair{Key: "input", Value: s})
 	}
 
+	if p.Response.Object.Type != "world" {
+		return nil, errors.New("input is not a World").UseCode(errors.TopolithErrorInvalid).WithDescription("error parsing World").WithData(errors.KvPair{Key: "input", Value: s})
+	}
+
 	w := CreateWorld(unquote(p.WorldParams["name"]))
 
 	if version, err := strconv.Atoi(p.WorldParams["version"]); err == nil && version != 0 {
-- 
2.43.0


From 6f8e0a0a33820efbb28e99543d6db1044b0e1077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:07 +0000
Subject: [PATCH 21/40] fix: leave top-level items there when a world with an
 item "nil" is read

---
 pkg/world/tree.go  | 5 +++++
 pkg/world/world.go | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/pkg/world/tree.go b/pkg/world/tree.go
index fb75705..62aab4d 100644
--- a/pkg/world/tree.go
+++ b/pkg/world/tree.go
@@ -114,6 +114,11 @@ func convertNodeToTree(node grammar.Node, itemMap map[string]Item, parent *tree)
 	return t, nil
 }
 
+// hasNilRoot returns whether the parsed Tree has no Item at its root. The ID of that Node doesn't tell, because an Item may have the ID "nil".
+func hasNilRoot(p *grammar.Parser) bool {
+	return strings.HasPrefix(p.TreeString, "tree{nil")
+}
+
 // tree implements Tree.
 type tree struct {
 	item       *Item
diff --git a/pkg/world/world.go b/pkg/world/world.go
index 633dee4..8ef99b7 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -129,6 +129,9 @@ func FromString(s string) (World, error) {
 		node     grammar.Node
 		parentId string
 	}
+	if hasNilRoot(p) {
+		p.Tree.Id = "" // No Item at the root - and "nil" might be the ID of one that isn't.
+	}
 	stack := []queueItem{{p.Tree, ""}}
 	for len(stack) > 0 {
 		current := stack[len(stack)-1]
-- 
2.43.0


From ebe41e8861590bd0fb3009bc24078cdf07e0d33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:22 +0000
Subject: [PATCH 22/40] fix: never share or change the empty tree

---
 pkg/world/tree.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/world/tree.go b/pkg/world/tree.go
index 62aab4d..3a052fb 100644
--- a/pkg/world/tree.go
+++ b/pkg/world/tree.go
@@ -36,7 +36,7 @@ type Tree interface {
 // `tree{nil::[tree{item "2"::[tree{item "1"::[]}]} tree{item "3"::[]}]}`
 func TreeFromString(s string) (Tree, map[string]Item, error) {
 	if s == "" {
-		return emptyTree, map[string]Item{}, nil
+		return newTree(nil, nil), map[string]Item{}, nil // The caller may add to it.
 	}
 
 	p, err := grammar.Parse(s)
@@ -215,6 +215,11 @@ func (t *tree) Delete(id string) {
 		// The item doesn't exist here.
 		return
 	}
+	if node, ok := found.(*tree); ok && node.parent == nil {
+		// The root has no parent to take its Components.
+		node.item = nil
+		return
+	}
 	foundComponents := found.Components().ToSlice()
 	parent := found.Parent()
 	parent.Components().Remove(found)
-- 
2.43.0


From 68e71a6703f9a7a546d476ee541e3bc77ec4e1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:39 +0000
Subject: [PATCH 23/40] fix: keep the item at the root of a parsed tree, and
 return all items of it

---
 pkg/world/tree.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/world/tree.go b/pkg/world/tree.go
index 3a052fb..b675317 100644
--- a/pkg/world/tree.go
+++ b/pkg/world/tree.go
@@ -5,6 +5,7 @@ import (
 	mapset "github.com/deckarep/golang-set/v2"
 	"github.com/williamflynt/topolith/pkg/errors"
 	"github.com/williamflynt/topolith/pkg/grammar"
+	"maps"
 	"sort"
 	"strings"
 )
@@ -53,7 +54,11 @@ func TreeFromString(s string) (Tree, map[string]Item, error) {
 		itemMap[item.Id] = item
 	}
 
-	t, err := convertNodeToTree(p.Tree, itemMap, nil)
+	unplaced := maps.Clone(itemMap)
+	if hasNilRoot(p) {
+		p.Tree.Id = ""
+	}
+	t, err := convertNodeToTree(p.Tree, unplaced, nil)
 	return t, itemMap, err
 }
 
@@ -91,7 +96,7 @@ func TreeEqual(t1, t2 Tree) bool {
 // convertNodeToTree recursively converts a grammar.Node to a Tree.
 func convertNodeToTree(node grammar.Node, itemMap map[string]Item, parent *tree) (*tree, error) {
 	var itemPtr *Item
-	if parent != nil {
+	if parent != nil || node.Id != "" {
 		item, ok := itemMap[node.Id]
 		if !ok {
 			return parent, errors.New("Item not found in map").UseCode(errors.TopolithErrorNotFound).WithDescription("Item not found in map").WithData(errors.KvPair{Key: "id", Value: node.Id})
-- 
2.43.0


From f7a0c5296def14226622cebb17e82f37bf4b1817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:40 +0000
Subject: [PATCH 24/40] fix: compare relationships and components pairwise by
 id, not in map order

---
 pkg/world/tree.go  |  2 +-
 pkg/world/world.go | 12 ++++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/pkg/world/tree.go b/pkg/world/tree.go
index b675317..cbd1fb5 100644
--- a/pkg/world/tree.go
+++ b/pkg/world/tree.go
@@ -78,7 +78,7 @@ func TreeEqual(t1, t2 Tree) bool {
 		return components1Slice[i].Item().Id < components1Slice[j].Item().Id
 	})
 	sort.Slice(components2Slice, func(i, j int) bool {
-		return components1Slice[i].Item().Id < components1Slice[j].Item().Id
+		return components2Slice[i].Item().Id < components2Slice[j].Item().Id
 	})
 	// Compare recursively.
 	for i, c1 := range components1Slice {
diff --git a/pkg/world/world.go b/pkg/world/world.go
index 8ef99b7..5da4070 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -217,10 +217,10 @@ func WorldEqual(w1, w2 World) bool {
 		return false
 	}
 	sort.Slice(rels1, func(i, j int) bool {
-		return rels1[i].From.Id < rels1[j].From.Id
+		return relLess(rels1[i], rels1[j])
 	})
 	sort.Slice(rels2, func(i, j int) bool {
-		return rels2[i].From.Id < rels2[j].From.Id
+		return relLess(rels2[i], rels2[j])
 	})
 	for i, rel1 := range rels1 {
 		if !RelEqual(rel1, rels2[i]) {
@@ -760,6 +760,14 @@ func equalRelParams(existing Rel, params RelParams) error {
 	return nil
 }
 
+// relLess orders Rels by the IDs of both Items, which are unique for a Rel in a World.
+func relLess(r1, r2 Rel) bool {
+	if r1.From.Id != r2.From.Id {
+		return r1.From.Id < r2.From.Id
+	}
+	return r1.To.Id < r2.To.Id
+}
+
 // resetLatestTrackers resets the latestItem, latestRel, and latestErr fields.
 // We do this before every operation to ensure that we don't accidentally return stale values
 // from our Item() and Rel() methods.
-- 
2.43.0


From d6de7ad832a8c432b33aa6ce072859f8f3423605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:41 +0000
Subject: [PATCH 25/40] fix: list only the components of the item in "item in"

---
 pkg/app/command.go         | 3 +++
 pkg/grammar/grammar.peg    | 2 +-
 pkg/grammar/grammar.peg.go | 3 ++-
 pkg/grammar/main.go        | 1 +
 4 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/app/command.go b/pkg/app/command.go
index e7a23b2..a41a5d8 100644
--- a/pkg/app/command.go
+++ b/pkg/app/command.go
@@ -769,6 +769,9 @@ func itemCommand(base CommandBase, input grammar.InputAttributes) (Command, erro
 	case Fetch:
 		return &ItemFetchCommand{CommandBase: base}, nil
 	case List:
+		if input.ListIn {
+			return &ItemComponentsListCommand{CommandBase: base}, nil
+		}
 		return &ItemListCommand{CommandBase: base, Limit: limitFromInput(input)}, nil
 	case Set:
 		return &ItemSetCommand{CommandBase: base, Params: world.ItemParamsFromInput(input)}, nil
diff --git a/pkg/grammar/grammar.peg b/pkg/grammar/grammar.peg
index ad3a4b3..bbca97f 100644
--- a/pkg/grammar/grammar.peg
+++ b/pkg/grammar/grammar.peg
@@ -65,7 +65,7 @@ FetchQuery
 ListQuery
   <- (Item / Rel ) List Limit?
   # Get all Items under this one in the Tree.
-  / Item IN Identifier  { p.InputAttributes.Verb = "list" }
+  / Item IN Identifier  { p.InputAttributes.Verb = "list"; p.InputAttributes.ListIn = true }
   / ToQuery Identifier
   / FromQuery Identifier
 
diff --git a/pkg/grammar/grammar.peg.go b/pkg/grammar/grammar.peg.go
index 2c38d84..836999a 100644
--- a/pkg/grammar/grammar.peg.go
+++ b/pkg/grammar/grammar.peg.go
@@ -636,6 +636,7 @@ func (p *Parser) Execute() {
 			p.InputAttributes.Verb = "fetch"
 		case ruleAction4:
 			p.InputAttributes.Verb = "list"
+			p.InputAttributes.ListIn = true
 		case ruleAction5:
 			p.InputAttributes.Verb = "create-or-fetch"
 		case ruleAction6:
@@ -5419,7 +5420,7 @@ func (p *Parser) Init(options ...func(*Parser) error) error {
 		nil,
 		/* 127 Action3 <- <{ p.InputAttributes.Verb = "fetch" }> */
 		nil,
-		/* 128 Action4 <- <{ p.InputAttributes.Verb = "list" }> */
+		/* 128 Action4 <- <{ p.InputAttributes.Verb = "list"; p.InputAttributes.ListIn = true }> */
 		nil,
 		/* 129 Action5 <- <{ p.InputAttributes.Verb = "create-or-fetch" }> */
 		nil,
diff --git a/pkg/grammar/main.go b/pkg/grammar/main.go
index 139df4e..5be22da 100644
--- a/pkg/grammar/main.go
+++ b/pkg/grammar/main.go
@@ -23,6 +23,7 @@ type InputAttributes struct {
 	Verb         string            `json:"verb"`
 	Params       map[string]string `json:"params"`
 	Flags        []string          `json:"flags"`
+	ListIn       bool              `json:"listIn"` // ListIn is whether the list is of what is in ResourceId, which may be empty text.
 
 	Raw string `json:"raw"`
 }
-- 
2.43.0


From 09d3b2e934bf86aaa1a9f521695a27e2c55b7bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:17 +0000
Subject: [PATCH 26/40] fix: never change an error when deriving another from
 it

---
 pkg/errors/main.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pkg/errors/main.go b/pkg/errors/main.go
index 42aeddd..3f7d294 100644
--- a/pkg/errors/main.go
+++ b/pkg/errors/main.go
@@ -1,6 +1,9 @@
 package errors
 
-import "fmt"
+import (
+	"fmt"
+	"slices"
+)
 
 // TopolithErrorCode is an iota that represents the error code of a TopolithError.
 type TopolithErrorCode int
@@ -37,7 +40,7 @@ func (e TopolithError) WithDescription(description string) TopolithError {
 }
 
 func (e TopolithError) WithData(data ...KvPair) TopolithError {
-	e.Data = append(e.Data, data...)
+	e.Data = append(slices.Clone(e.Data), data...) // Don't write to an array that another TopolithError has too.
 	return e
 }
 
@@ -47,9 +50,7 @@ func (e TopolithError) ClearData() TopolithError {
 }
 
 func (e TopolithError) WithError(errs ...error) TopolithError {
-	for _, err := range errs {
-		e.errs = append(e.errs, err)
-	}
+	e.errs = append(slices.Clone(e.errs), errs...)
 	return e
 }
 
-- 
2.43.0


From 30603a86075cfca3a2a99f69995bcc7dfa70dfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:18 +0000
Subject: [PATCH 27/40] fix: keep wrapped errors apart from the message in the
 text of an error

---
 pkg/errors/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/errors/main.go b/pkg/errors/main.go
index 3f7d294..014adf3 100644
--- a/pkg/errors/main.go
+++ b/pkg/errors/main.go
@@ -78,7 +78,7 @@ func (e TopolithError) String() string {
 			}
 			errStrings = append(errStrings, err.Error())
 		}
-		return fmt.Sprintf(`%d error "%s: %s" errors=[%s]`, e.Code, e.Description, e.Message, fmt.Sprintf(`"%s"`, errStrings))
+		return fmt.Sprintf(`%d error "%s: %s", errors=[%s]`, e.Code, e.Description, e.Message, fmt.Sprintf(`"%s"`, errStrings))
 	}
 	return fmt.Sprintf(`%d error "%s: %s"`, e.Code, e.Description, e.Message)
 }
-- 
2.43.0


From 8229c20cc7224ab43a625289b0d25b444f17b25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:05 +0000
Subject: [PATCH 28/40] fix: replace a saved world only when the new one is
 complete

---
 pkg/persistence/main.go | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/pkg/persistence/main.go b/pkg/persistence/main.go
index b7b9761..44c2a8e 100644
--- a/pkg/persistence/main.go
+++ b/pkg/persistence/main.go
@@ -46,7 +46,7 @@ func (fp *filePersistence) Save(world world.World) error {
 
 	filePath := filepath.Join(fp.directory, world.Name()+".world")
 	data := world.String()
-	return os.WriteFile(filePath, []byte(data), 0644)
+	return writeFile(filePath, []byte(data))
 }
 
 // Load loads a world from a file.
@@ -83,3 +83,32 @@ func (fp *filePersistence) ListWorlds() ([]string, error) {
 func (fp *filePersistence) SetSourcePath(dir string) {
 	fp.directory = dir
 }
+
+// --- INTERNAL HELPERS ---
+
+// writeFile writes the data to a new file and only then puts it in place, so an existing file there remains complete until it is replaced.
+func writeFile(filePath string, data []byte) (err error) {
+	f, err := os.CreateTemp(filepath.Dir(filePath), ".save-*.tmp")
+	if err != nil {
+		return err
+	}
+	defer func() {
+		if err != nil {
+			_ = f.Close()
+			_ = os.Remove(f.Name())
+		}
+	}()
+	if _, err = f.Write(data); err != nil {
+		return err
+	}
+	if err = f.Chmod(0644); err != nil {
+		return err
+	}
+	if err = f.Sync(); err != nil {
+		return err
+	}
+	if err = f.Close(); err != nil {
+		return err
+	}
+	return os.Rename(f.Name(), filePath)
+}
-- 
2.43.0


From bee4b2144114f7e612b399ac9b1acc63cdd7a9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:05 +0000
Subject: [PATCH 29/40] fix: refuse world names that are not file names, and
 load worlds whose name ends in ".world"

---
 pkg/persistence/main.go | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/pkg/persistence/main.go b/pkg/persistence/main.go
index 44c2a8e..36cff7e 100644
--- a/pkg/persistence/main.go
+++ b/pkg/persistence/main.go
@@ -1,6 +1,7 @@
 package persistence
 
 import (
+	"github.com/williamflynt/topolith/pkg/errors"
 	"github.com/williamflynt/topolith/pkg/world"
 	"os"
 	"path/filepath"
@@ -40,20 +41,29 @@ func getDefaultDirectory() string {
 
 // Save saves a world to a file.
 func (fp *filePersistence) Save(world world.World) error {
+	fileName, err := fileNameFor(world.Name())
+	if err != nil {
+		return err
+	}
 	if err := os.MkdirAll(fp.directory, 0755); err != nil {
 		return err
 	}
 
-	filePath := filepath.Join(fp.directory, world.Name()+".world")
+	filePath := filepath.Join(fp.directory, fileName)
 	data := world.String()
 	return writeFile(filePath, []byte(data))
 }
 
 // Load loads a world from a file.
 func (fp *filePersistence) Load(name string) (world.World, error) {
-	filePath := name
-	if filepath.Ext(name) != ".world" {
-		filePath = filepath.Join(fp.directory, name+".world")
+	fileName, err := fileNameFor(name)
+	filePath := filepath.Join(fp.directory, fileName)
+	if filepath.Ext(name) == ".world" && (err != nil || !exists(filePath)) {
+		// Not the name of a saved world, but the path of a file.
+		filePath, err = name, nil
+	}
+	if err != nil {
+		return nil, err
 	}
 	data, err := os.ReadFile(filePath)
 	if err != nil {
@@ -86,6 +96,20 @@ func (fp *filePersistence) SetSourcePath(dir string) {
 
 // --- INTERNAL HELPERS ---
 
+// fileNameFor returns the name of the file for the world with the given name, or an error if that isn't a file name.
+func fileNameFor(worldName string) (string, error) {
+	fileName := worldName + ".world"
+	if filepath.Base(fileName) != fileName {
+		return "", errors.New("cannot use the name of the world as a file name").UseCode(errors.TopolithErrorInvalid).WithData(errors.KvPair{Key: "name", Value: worldName})
+	}
+	return fileName, nil
+}
+
+func exists(filePath string) bool {
+	_, err := os.Stat(filePath)
+	return err == nil
+}
+
 // writeFile writes the data to a new file and only then puts it in place, so an existing file there remains complete until it is replaced.
 func writeFile(filePath string, data []byte) (err error) {
 	f, err := os.CreateTemp(filepath.Dir(filePath), ".save-*.tmp")
-- 
2.43.0


From f8c5ef3501cd9881a3cb7a7601ee770f1951930d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:21 +0000
Subject: [PATCH 30/40] fix: keep version 0 when reading a world

---
 pkg/world/world.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/world/world.go b/pkg/world/world.go
index 5da4070..6e4e56e 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -103,7 +103,7 @@ func FromString(s string) (World, error) {
 
 	w := CreateWorld(unquote(p.WorldParams["name"]))
 
-	if version, err := strconv.Atoi(p.WorldParams["version"]); err == nil && version != 0 {
+	if version, err := strconv.Atoi(p.WorldParams["version"]); err == nil {
 		w.SetVersion(version)
 	}
 	w.SetId(p.WorldParams["id"])
-- 
2.43.0


From 4e73c42234d5b22b4feffd71395792592834d0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:23 +0000
Subject: [PATCH 31/40] verif: export undo and redo with the verif build tag

---
 pkg/app/verif_hooks.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)
 create mode 100644 pkg/app/verif_hooks.go

diff --git a/pkg/app/verif_hooks.go b/pkg/app/verif_hooks.go
new file mode 100644
index 0000000..ddfdcce
--- /dev/null
+++ b/pkg/app/verif_hooks.go
@@ -0,0 +1,13 @@
+//go:build verif
+
+package app
+
+// VerifUndo undoes the latest Command of the App. It exists only with the verif build tag.
+func VerifUndo(a App) (error, int) {
+	return a.(*app).undo()
+}
+
+// VerifRedo redoes the Command undone last. It exists only with the verif build tag.
+func VerifRedo(a App) (error, int) {
+	return a.(*app).redo()
+}
-- 
2.43.0


From e3ae0916e3e552b1020d8bacafb68654c0986cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:24 +0000
Subject: [PATCH 32/40] fix: don't print the syntax tree of invalid input,
 which takes minutes for tens of kilobytes

---
 pkg/app/main.go | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/pkg/app/main.go b/pkg/app/main.go
index 53c6ae4..d7e85fe 100644
--- a/pkg/app/main.go
+++ b/pkg/app/main.go
@@ -45,9 +45,6 @@ func (h *app) World() world.World {
 func (h *app) Exec(s string) string {
 	p, err := grammar.Parse(s)
 	if err != nil || p.StmtType != "Command" {
-		if p != nil {
-			p.PrintSyntaxTree()
-		}
 		return errors.New("invalid input").UseCode(errors.TopolithErrorInvalid).WithError(err).WithDescription("invalid input").WithData(errors.KvPair{Key: "input", Value: s}).String()
 
 	}
@@ -61,9 +58,6 @@ func (h *app) Exec(s string) string {
 	}
 	response := okString(stringerObj, err)
 	if p, err := grammar.Parse(response); err != nil || p.StmtType != "Response" {
-		if p != nil {
-			p.PrintSyntaxTree()
-		}
 		return errors.New("error generating response").UseCode(errors.TopolithErrorInternal).WithError(err).WithDescription("unexpected error generating response").WithData(errors.KvPair{Key: "input", Value: s}).String()
 	}
 	return response
-- 
2.43.0


From 586ba7ec08de3eca7fbb3a8b75addd294eccd3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:51 +0000
Subject: [PATCH 33/40] fix: join errors in linear time

---
 pkg/errors/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/errors/main.go b/pkg/errors/main.go
index 014adf3..ef3cbd7 100644
--- a/pkg/errors/main.go
+++ b/pkg/errors/main.go
@@ -100,7 +100,7 @@ func Join(errs ...error) TopolithError {
 	joined := New("multiple errors").UseCode(TopolithErrorMultiple)
 	for _, err := range errs {
 		if err != nil {
-			joined = joined.WithError(err)
+			joined.errs = append(joined.errs, err) // No other TopolithError has this array yet.
 		}
 	}
 	return joined
-- 
2.43.0


From 73c82fffe2d73b8457d634061f7427ef2e57740c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:52 +0000
Subject: [PATCH 34/40] fix: don't report an earlier operation's outcome after
 setting world info

---
 pkg/world/world.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/world/world.go b/pkg/world/world.go
index 6e4e56e..ce0b2d1 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -295,21 +295,25 @@ func (w *world) Expanded() string {
 }
 
 func (w *world) SetVersion(version int) World {
+	w.resetLatestTrackers()
 	w.Version_ = version
 	return w
 }
 
 func (w *world) SetId(id string) World {
+	w.resetLatestTrackers()
 	w.Id_ = id
 	return w
 }
 
 func (w *world) SetName(name string) World {
+	w.resetLatestTrackers()
 	w.Name_ = name
 	return w
 }
 
 func (w *world) SetExpanded(expanded string) World {
+	w.resetLatestTrackers()
 	w.Expanded_ = expanded
 	return w
 }
-- 
2.43.0


From a59084471d8e47159dbbf0b788fe843fd1c6d0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:08 +0000
Subject: [PATCH 35/40] fix: refuse to save a world whose text would not be
 read back as that world

---
 pkg/persistence/main.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pkg/persistence/main.go b/pkg/persistence/main.go
index 36cff7e..de33ba2 100644
--- a/pkg/persistence/main.go
+++ b/pkg/persistence/main.go
@@ -51,6 +51,9 @@ func (fp *filePersistence) Save(world world.World) error {
 
 	filePath := filepath.Join(fp.directory, fileName)
 	data := world.String()
+	if err := canReadBack(world, data); err != nil {
+		return err
+	}
 	return writeFile(filePath, []byte(data))
 }
 
@@ -105,6 +108,19 @@ func fileNameFor(worldName string) (string, error) {
 	return fileName, nil
 }
 
+// canReadBack returns an error if reading the text of a world doesn't yield that world, like when a name has characters that are not in the grammar.
+func canReadBack(w world.World, data string) error {
+	read, err := world.FromString(data)
+	if err == nil && world.WorldEqual(w, read) {
+		return nil
+	}
+	e := errors.New("cannot save a world that could not be loaded again").UseCode(errors.TopolithErrorInvalid).WithData(errors.KvPair{Key: "name", Value: w.Name()})
+	if err != nil {
+		e = e.WithError(err)
+	}
+	return e
+}
+
 func exists(filePath string) bool {
 	_, err := os.Stat(filePath)
 	return err == nil
-- 
2.43.0


From ae19016053f3a711b165edd85fe7511604b98678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:13 +0000
Subject: [PATCH 36/40] fix: a command value executed again undoes what it did
 last

---
 pkg/app/command.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pkg/app/command.go b/pkg/app/command.go
index a41a5d8..d696e9e 100644
--- a/pkg/app/command.go
+++ b/pkg/app/command.go
@@ -127,6 +127,7 @@ type ItemCreateCommand struct {
 }
 
 func (c *ItemCreateCommand) Execute(w world.World) (fmt.Stringer, error) {
+	c.noCreate = false // It may have been executed before, on another state of the World.
 	if item, ok := w.ItemFetch(c.Id); ok {
 		c.noCreate = true
 		return item, nil
@@ -182,6 +183,7 @@ type ItemSetCommand struct {
 }
 
 func (c *ItemSetCommand) Execute(w world.World) (fmt.Stringer, error) {
+	c.noSet = false // It may have been executed before, on another state of the World.
 	item, ok := w.ItemFetch(c.Id)
 	if !ok {
 		c.noSet = true
@@ -211,6 +213,7 @@ type ItemClearCommand struct {
 }
 
 func (c *ItemClearCommand) Execute(w world.World) (fmt.Stringer, error) {
+	c.noSet = false // It may have been executed before, on another state of the World.
 	item, ok := w.ItemFetch(c.Id)
 	if !ok {
 		c.noSet = true
@@ -242,6 +245,7 @@ type ItemDeleteCommand struct {
 }
 
 func (c *ItemDeleteCommand) Execute(w world.World) (fmt.Stringer, error) {
+	c.noDelete = false // It may have been executed before, on another state of the World.
 	item, ok := w.ItemFetch(c.Id)
 	if !ok {
 		c.noDelete = true
@@ -404,6 +408,7 @@ type ItemCreateOrFetchCommand struct {
 }
 
 func (c *ItemCreateOrFetchCommand) Execute(w world.World) (fmt.Stringer, error) {
+	c.noCreate = false // It may have been executed before, on another state of the World.
 	item, ok := w.ItemFetch(c.Id)
 	if ok {
 		c.noCreate = true
@@ -428,6 +433,7 @@ type ItemCreateOrSetCommand struct {
 }
 
 func (c *ItemCreateOrSetCommand) Execute(w world.World) (fmt.Stringer, error) {
+	c.noCreate = false // It may have been executed before, on another state of the World.
 	if item, ok := w.ItemFetch(c.Id); ok {
 		c.noCreate = true
 		c.oldParams.External = boolPtr(item.External)
@@ -491,6 +497,7 @@ type RelCreateCommand struct {
 }
 
 func (c *RelCreateCommand) Execute(w world.World) (fmt.Stringer, error) {
+	c.noCreate = false // It may have been executed before, on another state of the World.
 	if rels := w.RelFetch(c.Id, c.ToId, true); len(rels) > 0 {
 		c.noCreate = true
 		return rels[0], nil
@@ -549,6 +556,7 @@ type RelClearCommand struct {
 }
 
 func (c *RelClearCommand) Execute(w world.World) (fmt.Stringer, error) {
+	c.noSet = false // It may have been executed before, on another state of the World.
 	rels := w.RelFetch(c.Id, c.ToId, true)
 	if len(rels) == 0 {
 		c.noSet = true
@@ -622,6 +630,7 @@ type RelCreateOrFetchCommand struct {
 }
 
 func (c *RelCreateOrFetchCommand) Execute(w world.World) (fmt.Stringer, error) {
+	c.noCreate = false // It may have been executed before, on another state of the World.
 	rels := w.RelFetch(c.Id, c.ToId, true)
 	if len(rels) > 0 {
 		c.noCreate = true
@@ -647,6 +656,7 @@ type RelCreateOrSetCommand struct {
 }
 
 func (c *RelCreateOrSetCommand) Execute(w world.World) (fmt.Stringer, error) {
+	c.noCreate = false // It may have been executed before, on another state of the World.
 	rels := w.RelFetch(c.Id, c.ToId, true)
 	if len(rels) > 0 {
 		c.noCreate = true
@@ -677,6 +687,7 @@ type RelSetCommand struct {
 }
 
 func (c *RelSetCommand) Execute(w world.World) (fmt.Stringer, error) {
+	c.noSet = false // It may have been executed before, on another state of the World.
 	rels := w.RelFetch(c.Id, c.ToId, true)
 	if len(rels) == 0 {
 		c.noSet = true
@@ -706,6 +717,7 @@ type RelDeleteCommand struct {
 }
 
 func (c *RelDeleteCommand) Execute(w world.World) (fmt.Stringer, error) {
+	c.noDelete = false // It may have been executed before, on another state of the World.
 	rels := w.RelFetch(c.Id, c.ToId, true)
 	if len(rels) == 0 {
 		c.noDelete = true
-- 
2.43.0


From dee4435e43e12859e4c54e886bea900a2d1c51fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:27 +0000
Subject: [PATCH 37/40] fix: an Item could be added to the Tree that all
 parentless Trees share as parent

---
 pkg/world/tree.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/world/tree.go b/pkg/world/tree.go
index cbd1fb5..a9f61b4 100644
--- a/pkg/world/tree.go
+++ b/pkg/world/tree.go
@@ -10,6 +10,7 @@ import (
 	"strings"
 )
 
+// emptyTree is the parent of every Tree that has none. They all share it, so it stays empty.
 var emptyTree = newTree(nil, nil)
 
 // Tree is an interface that represents a tree structure for Item.
@@ -156,6 +157,9 @@ func (t *tree) AddOrMove(item *Item) error {
 	if item == nil {
 		return errors.New("cannot add nil Item to Tree").UseCode(errors.TopolithErrorInvalid)
 	}
+	if t == emptyTree {
+		return errors.New("cannot add Item to the parent of a Tree that has none").UseCode(errors.TopolithErrorInvalid)
+	}
 	if t.Has(item.Id, true) {
 		// Already in this specific Tree - noop.
 		return nil
@@ -261,6 +265,9 @@ func (t *tree) Item() Item {
 }
 
 func (t *tree) Components() mapset.Set[Tree] {
+	if t == emptyTree {
+		return mapset.NewSet[Tree]()
+	}
 	return t.components
 }
 
-- 
2.43.0


From 97e3465d36a59c1129572984b0ac29f277951e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:23 +0000
Subject: [PATCH 38/40] fix: refuse to read an Item, Rel or Tree from text that
 holds none

---
 pkg/world/item.go | 12 ++++++++++++
 pkg/world/rel.go  |  3 +++
 pkg/world/tree.go |  4 ++++
 3 files changed, 19 insertions(+)

diff --git a/pkg/world/item.go b/pkg/world/item.go
index 325a1e3..790d4cc 100644
--- a/pkg/world/item.go
+++ b/pkg/world/item.go
@@ -113,9 +113,21 @@ func ItemFromString(s string) (Item, error) {
 	if err != nil {
 		return Item{}, errors.New("error parsing Item").UseCode(errors.TopolithErrorInvalid).WithError(err).WithDescription("error parsing Item").WithData(errors.KvPair{Key: "input", Value: s})
 	}
+	if !describesOne(p, "item", p.ItemStrings) {
+		return Item{}, errors.New("input is not an Item").UseCode(errors.TopolithErrorInvalid).WithDescription("error parsing Item").WithData(errors.KvPair{Key: "input", Value: s})
+	}
 	return itemSet(Item{Id: p.InputAttributes.ResourceId}, ItemParamsFromInput(p.InputAttributes))
 }
 
+// describesOne returns whether the parsed input is the text of one object of the type, and not a command about others, another type's text or a list.
+func describesOne(p *grammar.Parser, resourceType string, objects []string) bool {
+	switch p.InputAttributes.Verb {
+	case "", "create", "create-or-fetch", "create-or-set":
+		return p.InputAttributes.ResourceType == resourceType && len(objects) <= 1
+	}
+	return false
+}
+
 func ItemEqual(i1, i2 Item) bool {
 	if i1.Id != i2.Id {
 		return false
diff --git a/pkg/world/rel.go b/pkg/world/rel.go
index e934b11..2997004 100644
--- a/pkg/world/rel.go
+++ b/pkg/world/rel.go
@@ -49,6 +49,9 @@ func RelFromString(w World, s string) (Rel, error) {
 	if err != nil {
 		return Rel{}, fmt.Errorf("error parsing Rel: %w", err)
 	}
+	if !describesOne(p, "rel", p.RelStrings) {
+		return Rel{}, errors.New("input is not a Rel").UseCode(errors.TopolithErrorInvalid).WithDescription("error parsing Rel").WithData(errors.KvPair{Key: "input", Value: s})
+	}
 	fromItem, ok := w.ItemFetch(p.InputAttributes.ResourceId)
 	if !ok {
 		return Rel{}, errors.New("from Item not found").UseCode(errors.TopolithErrorNotFound).WithDescription("FromItem not found").WithData(errors.KvPair{Key: "input", Value: s}, errors.KvPair{Key: "fromId", Value: p.InputAttributes.ResourceId})
diff --git a/pkg/world/tree.go b/pkg/world/tree.go
index a9f61b4..1e11dab 100644
--- a/pkg/world/tree.go
+++ b/pkg/world/tree.go
@@ -46,6 +46,10 @@ func TreeFromString(s string) (Tree, map[string]Item, error) {
 		return nil, map[string]Item{}, errors.New("error parsing Tree").UseCode(errors.TopolithErrorInvalid).WithError(err).WithDescription("error parsing Tree").WithData(errors.KvPair{Key: "input", Value: s})
 	}
 
+	if p.TreeString == "" {
+		return nil, map[string]Item{}, errors.New("input is not a Tree").UseCode(errors.TopolithErrorInvalid).WithDescription("error parsing Tree").WithData(errors.KvPair{Key: "input", Value: s})
+	}
+
 	itemMap := make(map[string]Item)
 	for _, itemStr := range p.ItemStrings {
 		item, err := ItemFromString(itemStr)
-- 
2.43.0


From 8a0fe1b057d9f7ffa0f676aa9e036d34cef782da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:59 +0000
Subject: [PATCH 39/40] fix: name the toId, not the fromId, when the to Item of
 a new Rel is not found

---
 pkg/world/world.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/world/world.go b/pkg/world/world.go
index ce0b2d1..b0464f1 100644
--- a/pkg/world/world.go
+++ b/pkg/world/world.go
@@ -478,9 +478,9 @@ func (w *world) RelCreate(fromId, toId string, params RelParams) WorldWithRel {
 	toItem, ok := w.ItemFetch(toId)
 	if !ok {
 		w.latestErr = errors.
-			New("fromId for Rel not found").
+			New("toId for Rel not found").
 			UseCode(errors.TopolithErrorNotFound).
-			WithData(errors.KvPair{Key: "fromId", Value: fromId})
+			WithData(errors.KvPair{Key: "toId", Value: toId})
 		return w
 	}
 	existing, ok := w.Rels[relIdFromIds(fromId, toId)]
-- 
2.43.0


From 7d1ef6839bcfe0e84cc61e8d5e8f10e416705b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:44 +0000
Subject: [PATCH 40/40] fix: the web terminal sends each line of pasted text

---
 web/src/TopolithTerminal.tsx | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/web/src/TopolithTerminal.tsx b/web/src/TopolithTerminal.tsx
index 2a28845..653cfae 100644
--- a/web/src/TopolithTerminal.tsx
+++ b/web/src/TopolithTerminal.tsx
@@ -13,11 +13,11 @@ export const TopolithTerminal: React.FC = () => {
             if (terminalRef.current) {
                 term.current = new Terminal();
                 term.current.open(terminalRef.current);
-                term.current.onData((char) => {
+                const handleChar = async (char: string) => {
                     if (char === '\r') {
                         // Enter key pressed.
                         term.current?.write('\r\n');
-                        handleCommand(inputBuffer.current)
+                        await handleCommand(inputBuffer.current)
                             .finally(() => {
                                 inputBuffer.current = '';
                                 writePrompt();
@@ -33,6 +33,16 @@ export const TopolithTerminal: React.FC = () => {
                         inputBuffer.current += char;
                         term.current?.write(char);
                     }
+                };
+
+                // Data is one key or pasted text. It is handled in order, and only after the response to an earlier line.
+                let handled = Promise.resolve();
+                term.current.onData((data) => {
+                    handled = handled.then(async () => {
+                        for (const char of data) {
+                            await handleChar(char);
+                        }
+                    });
                 });
 
                 term.current.write('Topolith CLI\r\n');
-- 
2.43.0

