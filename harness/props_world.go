package main

import (
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strconv"
	"strings"

	"github.com/williamflynt/topolith/pkg/persistence"
	"github.com/williamflynt/topolith/pkg/world"
)

// addInfo gives the case's world an id, a name, ... of its own.
func addInfo(r *Rng, c *Case) {
	if c.Aux == nil {
		c.Aux = map[string]string{}
	}
	c.Aux["name"] = r.value()
	if r.chance(0.6) {
		c.Aux["set-id"] = r.value()
	}
	if r.chance(0.5) {
		c.Aux["set-name"] = r.value()
	}
	if r.chance(0.7) {
		c.Aux["set-expanded"] = r.value()
	}
	if r.chance(0.5) {
		c.Aux["set-version"] = strconv.Itoa([]int{0, 1, 2, 7, 10, 100, 2024, 1 << 30, 1 << 40, 1<<63 - 1}[r.IntN(10)])
	}
}

func setInfo(w world.World, c *Case) {
	for k := 0; k < 4; k++ {
		infoStep(w, c, k)
	}
}

// infoStep sets one of what the case gives of a world's own attributes.
func infoStep(w world.World, c *Case, k int) {
	v, ok := c.Aux[[]string{"set-id", "set-name", "set-expanded", "set-version"}[k]]
	if !ok {
		return
	}
	switch k {
	case 0:
		w.SetId(v)
	case 1:
		w.SetName(v)
	case 2:
		w.SetExpanded(v)
	default:
		n, _ := strconv.Atoi(v)
		w.SetVersion(n)
	}
}

// treeCanon is a canonical text of what the tree's own methods say.
func treeCanon(t world.Tree, depth int) string {
	if depth > 3000 {
		return "too deep"
	}
	it := "nil"
	if t.Item() != (world.Item{}) {
		it = fmt.Sprintf("%+v", mitem(t.Item()))
	}
	var kids []string
	for _, k := range t.Components().ToSlice() {
		kids = append(kids, treeCanon(k, depth+1))
	}
	sort.Strings(kids)
	return "(" + it + " " + strings.Join(kids, " ") + ")"
}

// treeLinks checks that parents and roots fit the components.
func treeLinks(t world.Tree, root world.Tree) string {
	if t.Root() != root {
		return fmt.Sprintf("the root of %q is another tree", t.Item().Id)
	}
	for _, k := range t.Components().ToSlice() {
		if k.Parent() != t {
			return fmt.Sprintf("the parent of %q is not the tree it is a component of, %q", k.Item().Id, t.Item().Id)
		}
		if v := treeLinks(k, root); v != "" {
			return v
		}
	}
	return ""
}

func (m *MTree) items(out map[string]MItem) {
	if m.Item != nil {
		out[m.Item.Id] = *m.Item
	}
	for _, k := range m.Kids {
		k.items(out)
	}
}

func toItem(m MItem) world.Item {
	return world.Item{Id: m.Id, Type: world.ItemTypeFromString(m.Type), Name: m.Name, Mechanism: m.Mech, Expanded: m.Exp, External: m.Ext}
}

func toRel(s *Snap, m MRel) world.Rel {
	return world.Rel{From: toItem(s.Items[m.P.From]), To: toItem(s.Items[m.P.To]), Verb: m.Verb, Mechanism: m.Mech, Expanded: m.Exp, Async: m.Async}
}

func ptr[T any](v T) *T { return &v }

func itemParams(m MItem) world.ItemParams {
	return world.ItemParams{External: ptr(m.Ext), Type: ptr(m.Type), Name: ptr(m.Name), Mechanism: ptr(m.Mech), Expanded: ptr(m.Exp)}
}

func relParams(m MRel) world.RelParams {
	return world.RelParams{Verb: ptr(m.Verb), Mechanism: ptr(m.Mech), Async: ptr(m.Async), Expanded: ptr(m.Exp)}
}

// construct makes a world with the given content, in some order, with detours.
func construct(r *Rng, s *Snap) world.World {
	w := world.CreateWorld(s.Name)
	info := func() { w.SetVersion(s.Version); w.SetId(s.Id); w.SetName(s.Name); w.SetExpanded(s.Expanded) }
	if r.chance(0.5) {
		info()
	}
	ids := s.SortedIds()
	r.shuffle(ids)
	made := map[string]bool{}
	noise := 0
	detour := func() {
		if !r.chance(0.15) {
			return
		}
		noise++
		n := fmt.Sprintf("noise %d", noise)
		w.ItemCreate(n, world.ItemParams{})
		for id := range s.Items {
			if made[id] {
				w.RelCreate(n, id, world.RelParams{})
				w.RelCreate(id, n, world.RelParams{})
				break
			}
		}
		w.ItemDelete(n)
	}
	for _, id := range ids {
		if r.chance(0.5) {
			w.ItemCreate(id, itemParams(s.Items[id]))
		} else {
			w.ItemCreate(id, world.ItemParams{})
			if r.chance(0.3) {
				w.ItemSet(id, world.ItemParams{Name: ptr("other"), Type: ptr("queue"), External: ptr(true)})
			}
			w.ItemSet(id, itemParams(s.Items[id]))
		}
		made[id] = true
		detour()
	}
	r.shuffle(ids)
	for _, id := range ids {
		if p := s.Parent[id]; p != "" {
			w.Nest(id, p)
		}
		detour()
	}
	ps := s.SortedPairs()
	r.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
	for _, p := range ps {
		if r.chance(0.5) {
			w.RelCreate(p.From, p.To, relParams(s.Rels[p]))
		} else {
			w.RelCreate(p.From, p.To, world.RelParams{})
			w.RelSet(p.From, p.To, relParams(s.Rels[p]))
		}
		detour()
	}
	if r.chance(0.3) {
		for _, id := range ids {
			w.ItemSet(id, itemParams(s.Items[id]))
		}
	}
	info()
	return w
}

// perturb changes one thing of the content; what says which, or is empty if it could not.
func perturb(r *Rng, s *Snap) (t *Snap, what string) {
	t = s.Clone()
	ids, ps := s.SortedIds(), s.SortedPairs()
	other := func(v string) string {
		if r.chance(0.3) {
			return r.oneOff(v)
		}
		return []string{v + "x", v + " ", "x" + v, "", strings.ToUpper(v), "completely different"}[r.IntN(6)]
	}
	switch x := r.IntN(26); {
	case x == 20 && len(ids) > 1: // two items change their attributes
		a, b := r.pick(ids), r.pick(ids)
		ia, ib := t.Items[a], t.Items[b]
		ia.Id, ib.Id = ib.Id, ia.Id
		t.Items[a], t.Items[b] = ib, ia
		return t, "attributes-of-two-items-swapped"
	case x == 21 && len(ids) > 0: // one attribute's value goes to another
		a := r.pick(ids)
		it := t.Items[a]
		switch r.IntN(3) {
		case 0:
			it.Name, it.Mech = it.Mech, it.Name
		case 1:
			it.Name, it.Exp = it.Exp, it.Name
		default:
			it.Mech, it.Exp = it.Exp, it.Mech
		}
		t.Items[a] = it
		return t, "two-attributes-swapped"
	case x == 22 && len(ids) > 1: // an item and what it is in change places
		for try := 0; try < 5; try++ {
			a := r.pick(ids)
			b := t.Parent[a]
			if b == "" {
				continue
			}
			t.Parent[a], t.Parent[b] = t.Parent[b], a
			return t, "parent-and-component-swapped"
		}
	case x == 23 && len(ids) > 1: // two items change places, without their components
		a, b := r.pick(ids), r.pick(ids)
		if !t.Under(a, b) && !t.Under(b, a) {
			t.Parent[a], t.Parent[b] = t.Parent[b], t.Parent[a]
			return t, "two-places-swapped"
		}
	case x == 24 && len(ps) > 1: // two relationships change their attributes, or one its own
		p, q := ps[r.IntN(len(ps))], ps[r.IntN(len(ps))]
		a, b := t.Rels[p], t.Rels[q]
		if p == q {
			a.Verb, a.Mech = a.Mech, a.Verb
			t.Rels[p] = a
		} else {
			a.P, b.P = q, p
			t.Rels[p], t.Rels[q] = b, a
		}
		return t, "attributes-of-rels-swapped"
	case x == 25:
		if len(ps) > 1 && r.chance(0.5) { // two relationships change their ends
			p, q := ps[r.IntN(len(ps))], ps[r.IntN(len(ps))]
			p2, q2 := Pair{p.From, q.To}, Pair{q.From, p.To}
			_, x1 := t.Rels[p2]
			_, x2 := t.Rels[q2]
			if p2 != q2 && !x1 && !x2 {
				a, b := t.Rels[p], t.Rels[q]
				delete(t.Rels, p)
				delete(t.Rels, q)
				a.P, b.P = p2, q2
				t.Rels[p2], t.Rels[q2] = a, b
				return t, "ends-of-rels-swapped"
			}
		}
		t.Id, t.Name, t.Expanded = t.Name, t.Expanded, t.Id
		return t, "info-swapped"
	case x == 0:
		t.Version += r.pickInt(1, 1, 1, 2, 9, 10, 100, 256, 1<<15, 1<<16, 1<<31, 1<<32, 1<<40)
		return t, "version"
	case x == 1:
		t.Id = other(t.Id)
		return t, "id"
	case x == 2:
		t.Name = other(t.Name)
		return t, "name"
	case x == 3:
		t.Expanded = other(t.Expanded)
		return t, "expanded"
	case x < 9 && len(ids) > 0:
		id := r.pick(ids)
		it := t.Items[id]
		k := r.IntN(5)
		switch k {
		case 0:
			it.Name = other(it.Name)
		case 1:
			it.Mech = other(it.Mech)
		case 2:
			it.Exp = other(it.Exp)
		case 3:
			it.Ext = !it.Ext
		default:
			it.Type = r.pick(append([]string{""}, itemTypes...))
		}
		t.Items[id] = it
		return t, "item-attribute"
	case x == 9:
		id := "new item"
		if len(ids) > 0 && r.chance(0.5) {
			id = r.pick(ids) + "x"
		}
		if !t.has(id) {
			t.Items[id] = MItem{Id: id}
			t.Parent[id] = ""
			return t, "item-added"
		}
	case x == 10 && len(ids) > 0:
		t.deleteItem(r.pick(ids))
		return t, "item-deleted"
	case x < 14 && len(ids) > 1:
		for try := 0; try < 5; try++ {
			a, b := r.pick(ids), r.pick(append([]string{""}, ids...))
			if a != b && t.Parent[a] != b && !t.Under(b, a) {
				t.Parent[a] = b
				return t, "item-moved"
			}
		}
	case x < 17 && len(ps) > 0:
		p := ps[r.IntN(len(ps))]
		m := t.Rels[p]
		switch r.IntN(4) {
		case 0:
			m.Verb = other(m.Verb)
		case 1:
			m.Mech = other(m.Mech)
		case 2:
			m.Exp = other(m.Exp)
		default:
			m.Async = !m.Async
		}
		t.Rels[p] = m
		return t, "rel-attribute"
	case x == 17 && len(ids) > 0:
		p := Pair{r.pick(ids), r.pick(ids)}
		if _, ok := t.Rels[p]; !ok {
			t.Rels[p] = MRel{P: p}
			return t, "rel-added"
		}
	case x == 18 && len(ps) > 0:
		delete(t.Rels, ps[r.IntN(len(ps))])
		return t, "rel-deleted"
	case x == 19 && len(ps) > 0:
		p := ps[r.IntN(len(ps))]
		rev := Pair{p.To, p.From}
		if _, ok := t.Rels[rev]; !ok && p != rev {
			m := t.Rels[p]
			delete(t.Rels, p)
			m.P = rev
			t.Rels[rev] = m
			return t, "rel-reversed"
		}
	}
	return t, ""
}

func modelOf(ops []Op) *Snap {
	m := newSnap()
	for _, op := range ops {
		m.Apply(op, false)
	}
	return m
}

func init() {
	// C01: worlds and their text.
	c01 := func(c *Case, rec *Rec) {
		w := world.CreateWorld(c.Aux["name"])
		s := sessOn(w, rec, c.Ops)
		half := len(c.Ops) * 2 / 3
		for i, op := range c.Ops[:half] {
			if i%7 == 5 && len(c.Ops) < 200 {
				_ = w.String() // which has no effect
			}
			s.exec(op)
		}
		if c.N%2 == 0 {
			_ = w.String()
		}
		for k := 0; k < 4; k++ {
			infoStep(w, c, k)
			if c.N%4 == 0 {
				t, err := readWorldText(w.String())
				if err != nil {
					rec.Fail("the world's text cannot be read: %v", err)
					return
				}
				if t.Id != w.Id() || t.Name != w.Name() || t.Expanded != w.Expanded() || t.Version != w.Version() {
					rec.Fail("the world is %q, %q, %q, version %d, its text says %q, %q, %q, version %d", w.Id(), w.Name(), w.Expanded(), w.Version(), t.Id, t.Name, t.Expanded, t.Version)
					return
				}
				rec.Ev("text-between-changes")
			}
		}
		want, pr := snapFull(w, s.ids)
		if pr.Text != "" {
			rec.Fail("%s", pr.Text)
			return
		}
		text := w.String()
		for round := 1; round <= 2; round++ {
			w2, err := world.FromString(text)
			if err != nil {
				rec.Fail("the world's text, round %d, cannot be read: %v", round, clip(err.Error()))
				return
			}
			got, pr := snapFull(w2, s.ids)
			if v := Diff(want, got); v != "" {
				rec.Fail("the re-read world, round %d: %s", round, v)
				return
			}
			if v := pr.Any(); v != "" {
				rec.Fail("the re-read world, round %d: %s", round, v)
				return
			}
			text = w2.String()
			t, err := readWorldText(text)
			if err != nil {
				rec.Fail("the re-read world's text, round %d, cannot be read: %v", round, err)
				return
			}
			if v := Diff(want, t); v != "" {
				rec.Fail("the re-read world's text, round %d: %s", round, v)
				return
			}
			rec.Ev("round-trip")
			if round == 1 {
				// It goes on like the original.
				a, b := sessOn(w, nil, nil), sessOn(w2, nil, nil)
				for i, op := range c.Ops[half:] {
					ra, rb := a.exec(op), b.exec(op)
					if v := sameAnswer(op, ra, rb); v != "" && !(op.K == KRelFetch && !op.Strict) {
						rec.Fail("%s, in the original and in the re-read world: %s", op.Text, v)
						return
					}
					if i%4 == 3 || i == len(c.Ops)-half-1 {
						ga, _ := snapFull(w, s.ids)
						gb, pr := snapFull(w2, s.ids)
						if v := Diff(ga, gb); v != "" || pr.Any() != "" {
							rec.Fail("the re-read world after %d more commands, at %s: %s %s", i+1, op.Text, v, pr.Any())
							return
						}
					}
				}
				want, _ = snapFull(w2, s.ids)
				text = w2.String()
			}
		}
		rec.State(want.Canon())
		nested := 0
		for _, p := range want.Parent {
			if p != "" {
				nested++
			}
		}
		if len(want.Items) > 2 && nested > 0 && len(want.Rels) > 0 {
			rec.Nontrivial = true
			rec.Ev("world-with-everything")
		}
	}
	c01w := mutWeights.with(Weights{KItemDelete: 2, KItemCS: 6, KItemSet: 6})
	register(&Prop{ID: "C01", Quick: 2400, Thorough: 80000,
		Rule: "cases are seeded worlds built by commands, with info set through the world API; each is written, read back, compared view by view with the original, written again and read by an independent reader, then both worlds execute further commands and are compared, twice; non-trivial: several items, nesting and relationships",
		Need: []string{"world-with-everything", "round-trip"},
		Families: []Family{
			{Name: "mixed", Weight: 120, Gen: func(r *Rng, c *Case, th bool) { mixed(c01w, 5, 40)(r, c, th); addInfo(r, c) }, Run: c01},
			hugeFamily(520, 1100, hugeC01),
			{Name: "big", Weight: 3, Gen: func(r *Rng, c *Case, th bool) { bigWorld(c01w, 200, 40)(r, c, th); addInfo(r, c) }, Run: c01},
		}})

	// C14: items, relationships, trees and their text.
	c14 := func(c *Case, rec *Rec) {
		r := newRng(c.Seed, "C14run", c.N)
		m := modelOf(c.Ops)
		w := construct(newRng(c.Seed, "C14c", c.N), m)
		for _, id := range m.SortedIds() {
			it := toItem(m.Items[id])
			text := it.String()
			if x, err := readItems(text); err != nil || len(x) != 1 || x[0] != m.Items[id] {
				rec.Fail("item %+v is printed as %q", m.Items[id], text)
				return
			}
			back, err := world.ItemFromString(text)
			if err != nil || back != it || !world.ItemEqual(back, it) {
				rec.Fail("item %+v, printed as %q, is read as %+v (%v)", it, text, back, err)
				return
			}
			if back.String() != text {
				rec.Fail("item text %q is printed as %q the next time", text, back.String())
				return
			}
			rec.Ev("item-round-trip")
		}
		for _, p := range m.SortedPairs() {
			rl := toRel(m, m.Rels[p])
			text := rl.String()
			if x, err := readRels(text); err != nil || len(x) != 1 || x[0] != m.Rels[p] {
				rec.Fail("rel %+v is printed as %q", m.Rels[p], text)
				return
			}
			back, err := world.RelFromString(w, text)
			if err != nil || back != rl || !world.RelEqual(back, rl) {
				rec.Fail("rel %+v, printed as %q, is read as %+v (%v)", rl, text, back, err)
				return
			}
			if back.String() != text {
				rec.Fail("rel text %q is printed as %q the next time", text, back.String())
				return
			}
			rec.Ev("rel-round-trip")
		}
		// A tree with the content, and all its subtrees.
		root, _, err := world.TreeFromString("")
		if err != nil {
			rec.Fail("the empty tree: %v", err)
			return
		}
		ids := m.SortedIds()
		r.shuffle(ids)
		for _, id := range ids {
			if err := root.AddOrMove(ptr(toItem(m.Items[id]))); err != nil {
				rec.Fail("AddOrMove(%q): %v", id, err)
				return
			}
		}
		r.shuffle(ids)
		for _, id := range ids {
			if p := m.Parent[id]; p != "" {
				t, ok := root.Find(p)
				if !ok {
					rec.Fail("item %q was added but is not found", p)
					return
				}
				if err := t.AddOrMove(ptr(toItem(m.Items[id]))); err != nil {
					rec.Fail("moving %q to %q: %v", id, p, err)
					return
				}
			}
		}
		trees := []world.Tree{root}
		for _, id := range ids {
			if t, ok := root.Find(id); ok {
				trees = append(trees, t)
			}
		}
		if len(trees) > 12 {
			trees = trees[:12]
		}
		for _, t := range trees {
			text := t.String()
			sc := &scanner{s: text}
			mt, err := sc.tree(0)
			if err != nil || !sc.eof() {
				rec.Fail("the tree is printed as %q: %v", clip(text), err)
				return
			}
			if mt.Canon() != treeCanon(t, 0) {
				rec.Fail("the tree %s is printed as %q", clip(treeCanon(t, 0)), clip(text))
				return
			}
			back, its, err := world.TreeFromString(text)
			if err != nil || back == nil {
				rec.Fail("the tree text %q cannot be read: %v", clip(text), err)
				return
			}
			if treeCanon(back, 0) != mt.Canon() {
				rec.Fail("the tree text %q is read as %s", clip(text), clip(treeCanon(back, 0)))
				return
			}
			if v := treeLinks(back, back); v != "" {
				rec.Fail("the tree read from %q: %s", clip(text), v)
				return
			}
			if !world.TreeEqual(t, back) || !world.TreeEqual(back, t) {
				rec.Fail("the tree read from %q is not equal to the one printed", clip(text))
				return
			}
			sc2 := &scanner{s: back.String()}
			if mt2, err := sc2.tree(0); err != nil || mt2.Canon() != mt.Canon() {
				rec.Fail("the tree read from %q is printed as %q", clip(text), clip(back.String()))
				return
			}
			want := map[string]MItem{}
			mt.items(want)
			if len(its) != len(want) {
				rec.Fail("%d items found in %q", len(its), clip(text))
				return
			}
			for id, it := range want {
				if g, ok := its[id]; !ok || mitem(g) != it {
					rec.Fail("item %q of %q is found as %+v (%v)", id, clip(text), mitem(g), ok)
					return
				}
			}
			rec.Ev("tree-round-trip")
			if mt.Item != nil && len(mt.Kids) > 0 {
				rec.Ev("subtree-with-item-at-its-root")
				rec.Nontrivial = true
			}
			rec.State(mt.Canon())
		}
	}
	c14gen := func(r *Rng, c *Case, th bool) {
		g := newGen(r, r.idPool())
		if r.chance(0.1) {
			g.Pool = r.bigPool(r.between(10, 60))
		}
		c.Ops = g.seedOps(r.between(1, len(g.Pool)), r.between(0, 6), 0.7)
		for _, id := range g.M.SortedIds() {
			op := Op{K: KItemCS, A: id, P: r.itemParams(1, 5)}
			g.M.Apply(op, false)
			c.Ops = append(c.Ops, op)
		}
	}
	register(&Prop{ID: "C14", Quick: 60000, Thorough: 300000,
		Rule:     "cases are seeded items, relationships and trees (built through the tree interface, and every subtree of them); each is printed, read by an independent reader and by the repository's, compared both ways, printed again, and the links between the nodes and the items found are checked; non-trivial: a subtree with an item at its root and components",
		Need:     []string{"item-round-trip", "rel-round-trip", "tree-round-trip", "subtree-with-item-at-its-root"},
		Families: []Family{{Name: "values", Weight: 3000, Gen: c14gen, Run: c14}, hugeFamily(520, 1300, hugeC14)}})

	// C17: texts that are no world.
	noWorld := func(rec *Rec, what, text string) bool {
		w, err := world.FromString(text)
		if err == nil {
			n := -1
			if w != nil {
				n = len(w.ItemList(0))
			}
			rec.Fail("%s is read as a world with %d items: %q", what, n, clip(text))
			return false
		}
		rec.Ev("refused:" + what)
		return true
	}
	c17 := func(c *Case, rec *Rec) {
		r := newRng(c.Seed, "C17run", c.N)
		w := world.CreateWorld(c.Aux["name"])
		s := sessOn(w, nil, nil)
		for _, op := range c.Ops {
			s.exec(op)
		}
		setInfo(w, c)
		text := w.String()
		if _, err := world.FromString(text); err != nil {
			return // C01's concern
		}
		m := snapQuick(w)
		// Strict prefixes: every one of a short text, otherwise a sample and all near the end.
		body := strings.TrimRight(text, " \t\r\n")
		step := 1 + len(body)/250
		for i := r.IntN(step); i < len(body); i += step {
			if !noWorld(rec, "a prefix", body[:i]) {
				return
			}
			rec.Nontrivial = rec.Nontrivial || len(m.Items) > 1
		}
		for i := max(0, len(body)-40); i < len(body); i++ {
			if !noWorld(rec, "a prefix", body[:i]) {
				return
			}
		}
		// Without one of its parts.
		treeAt := treeStart(body)
		relsAt, endAt := treeEnd(body, treeAt), strings.LastIndex(body, "endworld$$")
		if treeAt > 0 && relsAt > treeAt && endAt >= relsAt {
			for _, t := range []struct{ what, text string }{
				{"a world without its tree", body[:treeAt] + body[relsAt:]},
				{"a world without its head", body[treeAt:]},
				{"a world without its end", body[:endAt]},
				{"a world whose tree is open", body[:relsAt-1] + "\n" + body[relsAt:]},
				{"a tree", body[treeAt:relsAt]},
				{"the relationships of a world", body[relsAt:endAt]},
				{"the end of a world", body[endAt:]},
				{"a world that misses its first character", body[1:]},
			} {
				if !noWorld(rec, t.what, t.text) {
					return
				}
			}
			// Relationships that name items which are not there.
			for k := 0; k < 6; k++ {
				missing := r.pick([]string{"no such item", "nope", "nil", "A::B", "w", c.Aux["name"]})
				if m.has(missing) || strings.TrimSpace(missing) == "" {
					continue
				}
				there := missing
				if len(m.Items) > 0 {
					there = r.pick(m.SortedIds())
				}
				a, b := missing, there
				if k%2 == 1 {
					a, b = there, missing
				}
				extra := fmt.Sprintf("\nrel \"%s\" \"%s\"%s\n", a, b, r.pick([]string{"", " verb=x", " async=true"}))
				at := relsAt
				if k%3 == 0 {
					at = endAt
				}
				if !noWorld(rec, "a world with a relationship of a missing item", body[:at]+extra+body[at:]) {
					return
				}
			}
			// An item taken out of the tree that relationships name.
			for _, p := range m.SortedPairs() {
				lone := fmt.Sprintf("$$world version=1 id=x name=x expanded=\"\" tree{nil::[tree{item \"%s\"::[]}]} rel \"%s\" \"%s\" endworld$$", p.From, p.From, p.To)
				if p.From != p.To {
					if !noWorld(rec, "a world with a relationship of a missing item", lone) {
						return
					}
				}
				break
			}
		}
		// Other things in the grammar.
		g := newGen(r, r.idPool())
		g.M = m
		for k := 0; k < 12; k++ {
			op := g.op(g.kind(mutWeights.with(Weights{KWorld: 5, KItemList: 3, KRelList: 3, KFrom: 2})))
			if !noWorld(rec, "a command", op.Text) {
				return
			}
		}
		for _, t := range []string{"", " ", "\n", "200 ok", "200 ok fine", `450 error "not found: x"`, "\n$$$$\n200 ok", "true\n$$$$\n200 ok", "tree{nil::[]}", "tree{item a::[tree{item b::[]}]}",
			"item a name=b\n$$$$\n200 ok", "rel a b\n$$$$\n200 ok", "a b c\n$$$$\n200 ok", "tree{nil::[]}\n$$$$\n200 ok", "{}", "null", "\x00", "\xff\xfe", "$$world", "$$world endworld$$", "endworld$$", "$$", "$$$$"} {
			if !noWorld(rec, "something else", t) {
				return
			}
		}
		for _, t := range []string{"<<<<<<< HEAD\n", "\ufeff", "\x00", "x", "item a\n", "item list\n", "world\n", "tree{nil::[]}\n", "# a world\n", "$$", "200 ok\n", "\"", "$$world version=1 ", r.text(quotedAlpha, 1, 20) + "\n"} {
			if strings.TrimSpace(t) == "" {
				continue
			}
			if !noWorld(rec, "a world with something before it", t+body) {
				return
			}
		}
		for k := 0; k < 10; k++ {
			if !noWorld(rec, "binary data", "\x01"+g.text2(0, 200)) {
				return
			}
		}
		if c.N%20 == 0 { // from a file
			d := filepath.Join(scratchDir, fmt.Sprintf("c17-%d", c.N))
			os.MkdirAll(d, 0755)
			defer os.RemoveAll(d)
			fp := persistence.NewFilePersistence()
			fp.SetSourcePath(d)
			for k := 0; k < 5; k++ {
				n := r.IntN(len(body))
				os.WriteFile(filepath.Join(d, "w.world"), []byte(body[:n]), 0644)
				if _, err := fp.Load("w"); err == nil {
					rec.Fail("a file with the first %d of %d bytes of a world is loaded", n, len(body))
					return
				}
				rec.Ev("refused:a truncated file")
			}
		}
		rec.State(text)
	}
	register(&Prop{ID: "C17", Quick: 8000, Thorough: 40000,
		Rule: "cases are seeded world texts; reading every (or every n-th) strict prefix of them, texts without one of their parts, texts with relationships of missing items, commands, responses, statuses, trees and binary data must be an error; non-trivial: prefixes of a world with several items",
		Need: []string{"refused:a prefix", "refused:a world with a relationship of a missing item", "refused:a command", "refused:binary data", "refused:a truncated file", "refused:a world without its tree"},
		Families: []Family{hugeFamily(520, 1100, hugeC17), {Name: "texts", Weight: 400, Gen: func(r *Rng, c *Case, th bool) {
			mixed(c01w, 0, 12)(r, c, th)
			addInfo(r, c)
		}, Run: c17}}})

	// C19: equality.
	c19 := func(c *Case, rec *Rec) {
		r := newRng(c.Seed, "C19run", c.N)
		m := modelOf(c.Ops)
		m.Version, m.Id, m.Name, m.Expanded = r.IntN(3), r.value(), r.value(), r.value()
		if r.chance(0.15) { // long texts
			long := func() string { return r.text(quotedAlpha, 200, 4000) }
			if r.chance(0.5) {
				m.Expanded = long()
			}
			for _, id := range m.SortedIds() {
				it := m.Items[id]
				for _, v := range []*string{&it.Name, &it.Mech, &it.Exp} {
					if r.chance(0.4) {
						*v = long()
					}
				}
				m.Items[id] = it
			}
			for _, p := range m.SortedPairs() {
				x := m.Rels[p]
				for _, v := range []*string{&x.Verb, &x.Mech, &x.Exp} {
					if r.chance(0.4) {
						*v = long()
					}
				}
				m.Rels[p] = x
			}
			rec.Ev("long-texts")
		}
		eq := func(what string, a, b world.World, want bool) bool {
			s1, _ := snapFull(a, nil)
			s2, _ := snapFull(b, nil)
			t1, t2 := Diff(s1, s2) == "", want
			if t1 != t2 {
				return true // the world could not be built as meant: another property's concern
			}
			for k := 0; k < 2; k++ {
				if world.WorldEqual(a, b) != want || world.WorldEqual(b, a) != want {
					rec.Fail("%s: equal is %v one way and %v the other, expected %v; difference: %s", what, world.WorldEqual(a, b), world.WorldEqual(b, a), want, Diff(s1, s2))
					return false
				}
			}
			n1, _ := snapFull(a, nil)
			n2, _ := snapFull(b, nil)
			if v := Diff(s1, n1) + Diff(s2, n2); v != "" {
				rec.Fail("%s: comparing changed a side: %s", what, v)
				return false
			}
			rec.Ev(fmt.Sprintf("worlds-compared:%v", want))
			return true
		}
		a, b := construct(r, m), construct(r, m)
		if !eq("one world", a, a, true) || !eq("two worlds built alike in different orders", a, b, true) {
			return
		}
		if len(m.Items) > 2 {
			rec.Nontrivial = true
		}
		for k := 0; k < 6; k++ {
			p, what := perturb(r, m)
			if what == "" || Diff(m, p) == "" {
				continue
			}
			if !eq("worlds that differ in: "+what, a, construct(r, p), false) {
				return
			}
			rec.Ev("perturbed:" + what)
		}
		rec.State(m.Canon())
		// Trees.
		tree := func(s *Snap) world.Tree {
			t, _, _ := world.TreeFromString("")
			ids := s.SortedIds()
			r.shuffle(ids)
			for _, id := range ids {
				t.AddOrMove(ptr(toItem(s.Items[id])))
			}
			r.shuffle(ids)
			for _, id := range ids {
				if n, ok := t.Find(s.Parent[id]); ok {
					n.AddOrMove(ptr(toItem(s.Items[id])))
				}
			}
			return t
		}
		teq := func(what string, x, y world.Tree) bool {
			cx, cy := treeCanon(x, 0), treeCanon(y, 0)
			want := cx == cy
			if g1, g2 := world.TreeEqual(x, y), world.TreeEqual(y, x); g1 != want || g2 != want {
				rec.Fail("%s: equal is %v one way and %v the other, expected %v: %s and %s", what, g1, g2, want, clip(cx), clip(cy))
				return false
			}
			if treeCanon(x, 0) != cx || treeCanon(y, 0) != cy {
				rec.Fail("%s: comparing changed a side", what)
				return false
			}
			rec.Ev(fmt.Sprintf("trees-compared:%v", want))
			return true
		}
		t1 := tree(m)
		if !teq("one tree", t1, t1) || !teq("trees built in different orders", t1, tree(m)) {
			return
		}
		for k := 0; k < 6; k++ {
			p, what := perturb(r, m)
			if what == "" {
				continue
			}
			t2 := tree(p)
			if !teq("trees that differ in: "+what, t1, t2) {
				return
			}
			// Subtrees against each other.
			for _, id := range m.SortedIds() {
				x, ok1 := t1.Find(id)
				y, ok2 := t2.Find(id)
				if ok1 && ok2 && !teq("subtrees that differ in: "+what, x, y) {
					return
				}
			}
		}
		// Items and relationships.
		for _, id := range m.SortedIds() {
			x := toItem(m.Items[id])
			p, _ := perturb(r, m)
			for _, y := range []world.Item{x, toItem(p.Items[id]), {}, toItem(m.Items[r.pick(m.SortedIds())]), {Id: id}, flipItem(r, x)} {
				want := x == y
				if world.ItemEqual(x, y) != want || world.ItemEqual(y, x) != want || !world.ItemEqual(y, y) {
					rec.Fail("items %+v and %+v: equal is %v, expected %v", x, y, world.ItemEqual(x, y), want)
					return
				}
				rec.Ev(fmt.Sprintf("items-compared:%v", want))
			}
		}
		for _, pr := range m.SortedPairs() {
			x := toRel(m, m.Rels[pr])
			rev := x
			rev.From, rev.To = x.To, x.From
			z := x
			if r.chance(0.5) {
				z.From = flipItem(r, z.From)
			} else {
				z.To = flipItem(r, z.To)
			}
			for _, y := range []world.Rel{x, rev, z, {}, flipRel(r, x), {From: x.From, To: x.To}} {
				want := x == y
				if world.RelEqual(x, y) != want || world.RelEqual(y, x) != want || !world.RelEqual(y, y) {
					rec.Fail("rels %+v and %+v: equal is %v, expected %v", x, y, world.RelEqual(x, y), want)
					return
				}
				rec.Ev(fmt.Sprintf("rels-compared:%v", want))
			}
		}
	}
	register(&Prop{ID: "C19", Quick: 9000, Thorough: 120000,
		Rule: "cases are seeded contents; worlds and trees with one content are built in different orders with detours and compared both ways, then with contents that differ in exactly one thing (version, id, name, expanded, one attribute, one item, one place, one relationship, one direction); items and relationships likewise; snapshots decide what is equal, and that nothing was changed; non-trivial: a content of several items",
		Need: []string{"worlds-compared:true", "worlds-compared:false", "trees-compared:true", "trees-compared:false", "rels-compared:false", "items-compared:false",
			"perturbed:version", "perturbed:item-moved", "perturbed:rel-reversed", "perturbed:rel-attribute", "perturbed:item-attribute", "perturbed:expanded"},
		Families: []Family{hugeFamily(300, 600, hugeC19), {Name: "contents", Weight: 400, Gen: func(r *Rng, c *Case, th bool) {
			g := newGen(r, r.idPool())
			if r.chance(0.15) {
				g.Pool = r.bigPool(r.between(10, 40))
			}
			c.Ops = g.seedOps(r.between(0, len(g.Pool)), r.between(0, 9), 0.6)
		}, Run: c19}}})

	// C21: outcomes of world operations.
	register(&Prop{ID: "C21", Quick: 9000, Thorough: 100000,
		Rule: "cases are seeded sequences of modifying world operations called directly, many of which fail, some with invalid parameters, in between info changes; after each, the reported error, item and relationship are compared with a model, and a failed one must have changed nothing; non-trivial: an operation failed after a successful one, or the reverse",
		Need: []string{"ItemCreate:ok", "ItemCreate:err", "ItemSet:ok", "ItemSet:err", "RelCreate:ok", "RelCreate:err", "RelSet:ok", "RelSet:err", "Nest:ok", "Nest:err", "Free:ok", "Free:err", "ItemDelete:ok", "RelDelete:ok", "info-after-error", "item-given-again", "rel-given-again", "given-nothing"},
		Families: []Family{{Name: "api", Weight: 1, Gen: func(r *Rng, c *Case, th bool) {
			mixed(mutWeights.with(Weights{KNest: 8, KFree: 5, KItemCF: 0, KRelCF: 0}), 10, 50)(r, c, th)
			for i := range c.Ops {
				c.Ops[i].Text = ""
				if r.chance(0.06) {
					c.Ops[i].N = 1 + r.IntN(4) // what to spoil
				}
			}
		}, Run: runC21}}})
}

// oneOff changes one character of a text, often of the last ones, so that the length stays.
func (r *Rng) oneOff(v string) string {
	if v == "" {
		return "x"
	}
	b, i := []byte(v), r.IntN(len(v))
	if r.chance(0.5) {
		i = len(v) - 1 - r.IntN(min(3, len(v)))
	}
	if b[i] == 'x' {
		b[i] = 'y'
	} else {
		b[i] = 'x'
	}
	return string(b)
}

func flipItem(r *Rng, x world.Item) world.Item {
	switch r.IntN(9) {
	case 6:
		x.Name = r.oneOff(x.Name)
	case 7:
		x.Mechanism = r.oneOff(x.Mechanism)
	case 8:
		x.Expanded = r.oneOff(x.Expanded)
	case 0:
		x.Id += "x"
	case 1:
		x.External = !x.External
	case 2:
		x.Type = (x.Type + 1) % 10
	case 3:
		x.Name += " "
	case 4:
		x.Mechanism += "m"
	default:
		x.Expanded += "e"
	}
	return x
}

func flipRel(r *Rng, x world.Rel) world.Rel {
	switch r.IntN(7) {
	case 4:
		x.Verb = r.oneOff(x.Verb)
	case 5:
		x.Mechanism = r.oneOff(x.Mechanism)
	case 6:
		x.Expanded = r.oneOff(x.Expanded)
	case 0:
		x.Verb += "v"
	case 1:
		x.Mechanism += " "
	case 2:
		x.Async = !x.Async
	default:
		x.Expanded += "e"
	}
	return x
}

// treeStart finds the tree in a world's text, outside quotes.
func treeStart(s string) int {
	q := false
	for i := 0; i < len(s); i++ {
		if s[i] == '"' {
			q = !q
		}
		if !q && strings.HasPrefix(s[i:], "tree{") {
			return i
		}
	}
	return -1
}

// treeEnd is where the tree that begins at start ends.
func treeEnd(s string, start int) int {
	if start < 0 {
		return -1
	}
	q, depth := false, 0
	for i := start; i < len(s); i++ {
		switch {
		case s[i] == '"':
			q = !q
		case q:
		case s[i] == '{':
			depth++
		case s[i] == '}':
			depth--
			if depth == 0 {
				return i + 1
			}
		}
	}
	return -1
}

var typesInOrder = []string{"", "person", "database", "queue", "blobstore", "browser", "mobile", "server", "device", "code"}

func apiItemParams(p [][2]string) world.ItemParams {
	var out world.ItemParams
	for _, kv := range p {
		switch kv[0] {
		case "type":
			out.Type = ptr(kv[1])
		case "name":
			out.Name = ptr(kv[1])
		case "mechanism":
			out.Mechanism = ptr(kv[1])
		case "expanded":
			out.Expanded = ptr(kv[1])
		case "external":
			out.External = ptr(kv[1] == "true")
		}
	}
	return out
}

func apiRelParams(p [][2]string) world.RelParams {
	var out world.RelParams
	for _, kv := range p {
		switch kv[0] {
		case "verb":
			out.Verb = ptr(kv[1])
		case "mechanism":
			out.Mechanism = ptr(kv[1])
		case "expanded":
			out.Expanded = ptr(kv[1])
		case "async":
			out.Async = ptr(kv[1] == "true")
		}
	}
	return out
}

func itemAttrs(i MItem) [][2]string {
	return [][2]string{{"type", i.Type}, {"name", i.Name}, {"mechanism", i.Mech}, {"expanded", i.Exp}, {"external", fmt.Sprint(i.Ext)}}
}

func relAttrs(r MRel) [][2]string {
	return [][2]string{{"verb", r.Verb}, {"mechanism", r.Mech}, {"expanded", r.Exp}, {"async", fmt.Sprint(r.Async)}}
}

// sub2 takes some of the attributes, and now and then changes one.
func (r *Rng) sub2(p [][2]string) [][2]string {
	var out [][2]string
	for _, kv := range p {
		if r.chance(0.6) {
			out = append(out, kv)
		}
	}
	if len(out) > 0 && r.chance(0.4) {
		kv := &out[r.IntN(len(out))]
		switch {
		case kv[1] == "true":
			kv[1] = "false"
		case kv[1] == "false":
			kv[1] = "true"
		case kv[0] == "type":
			kv[1] = map[bool]string{true: "person", false: "code"}[kv[1] != "person"]
		case r.chance(0.5) && kv[1] != "":
			kv[1] = ""
		default:
			kv[1] += "x"
		}
	}
	return out
}

func runC21(c *Case, rec *Rec) {
	w := world.CreateWorld("w")
	failedBefore := false
	for i, op := range c.Ops {
		pre, _ := snapFull(w, nil)
		if i == len(c.Ops)/2 && c.N%3 == 0 { // go on with the same world, read from its text
			if w2, err := world.FromString(w.String()); err == nil && Diff(pre, snapQuick(w2)) == "" {
				w = w2
				rec.Ev("went-on-with-a-read-world")
			}
		}
		want := pre.Clone()
		wantErr, either := false, false
		var affItem *MItem // the item it concerns, afterwards
		var affRel *MRel
		var ret world.World
		name := ""
		params := op.P
		if op.K == KItemClear || op.K == KRelClear {
			params = keysToParams(op.Keys)
		}
		if x := newRng(c.Seed, "C21again", c.N*1000+i); x.chance(0.5) { // give what exists again as it is, or nearly
			if old, had := pre.Items[op.A]; had && (op.K == KItemCreate || op.K == KItemCS || op.K == KItemCF) {
				params = x.sub2(itemAttrs(old))
				rec.Ev("item-given-again")
			}
			if old, had := pre.Rels[Pair{op.A, op.B}]; had && (op.K == KRelCreate || op.K == KRelCS || op.K == KRelCF) {
				params = x.sub2(relAttrs(old))
				rec.Ev("rel-given-again")
			}
		}
		if x := newRng(c.Seed, "C21none", c.N*1000+i); x.chance(0.06) { // nothing is given at all
			params = nil
			rec.Ev("given-nothing")
		}
		badType := false
		ip := apiItemParams(params)
		if op.N == 1 && (op.K == KItemCreate || op.K == KItemCS || op.K == KItemSet) {
			ip.Type = ptr([]string{"wizard", "persons", " person", "1x", "-1", "10", "99"}[i%7])
			badType = true
		}
		if x := newRng(c.Seed, "C21number", c.N*1000+i); ip.Type != nil && !badType && x.chance(0.3) { // as the reader of worlds gives it
			ip.Type = ptr(fmt.Sprint(slices.Index(typesInOrder, *ip.Type)))
			rec.Ev("type-as-number")
		}
		// Something else is reported just before, that the operation must not repeat.
		if x := newRng(c.Seed, "C21stale", c.N*1000+i); x.chance(0.4) {
			rec.Ev("operation-before")
			switch x.IntN(6) {
			case 0:
				w.ItemSet("no such item", world.ItemParams{})
			case 1:
				w.RelSet("no such item", "nor this", world.RelParams{})
			case 2:
				w.Nest("no such item", "nor this")
			case 3:
				if ids := pre.SortedIds(); len(ids) > 0 {
					w.ItemSet(x.pick(ids), world.ItemParams{})
				}
			case 4:
				if ps := pre.sortedPairs(); len(ps) > 0 {
					p := ps[x.IntN(len(ps))]
					w.RelSet(p.From, p.To, world.RelParams{})
				}
			default:
				w.Free("no such item")
			}
		}
		switch op.K {
		case KItemCreate, KItemCS, KItemCF:
			name = "ItemCreate"
			ret = w.ItemCreate(op.A, ip)
			old, had := pre.Items[op.A]
			switch {
			case op.A == "" || badType:
				wantErr = true
				if had && op.A != "" {
					affItem = &old
				}
			case had:
				wantErr = applyItemAttrs(old, params) != old
				affItem = &old
			default:
				it := applyItemAttrs(MItem{Id: op.A}, params)
				want.Items[op.A], want.Parent[op.A] = it, ""
				affItem = &it
			}
		case KItemSet, KItemClear:
			name = "ItemSet"
			ret = w.ItemSet(op.A, ip)
			old, had := pre.Items[op.A]
			switch {
			case !had:
				wantErr = true
			case badType:
				wantErr, affItem = true, &old
			default:
				it := applyItemAttrs(old, params)
				want.Items[op.A] = it
				affItem = &it
			}
		case KItemDelete:
			name = "ItemDelete"
			ret = w.ItemDelete(op.A)
			if pre.has(op.A) {
				want.deleteItem(op.A)
			} else {
				either = true
			}
		case KRelCreate, KRelCS, KRelCF:
			name = "RelCreate"
			ret = w.RelCreate(op.A, op.B, apiRelParams(params))
			p := Pair{op.A, op.B}
			old, had := pre.Rels[p]
			switch {
			case had:
				wantErr = applyRelAttrs(old, params) != old
				affRel = &old
			case !pre.has(op.A) || !pre.has(op.B):
				wantErr = true
			default:
				r := applyRelAttrs(MRel{P: p}, params)
				want.Rels[p] = r
				affRel = &r
			}
		case KRelSet, KRelClear:
			name = "RelSet"
			ret = w.RelSet(op.A, op.B, apiRelParams(params))
			p := Pair{op.A, op.B}
			if old, had := pre.Rels[p]; had {
				r := applyRelAttrs(old, params)
				want.Rels[p] = r
				affRel = &r
			} else {
				wantErr = true
			}
		case KRelDelete:
			name = "RelDelete"
			ret = w.RelDelete(op.A, op.B)
			if _, had := pre.Rels[Pair{op.A, op.B}]; had {
				delete(want.Rels, Pair{op.A, op.B})
			} else {
				either = true
			}
		case KNest:
			name = "Nest"
			if len(op.Ids) == 0 {
				continue
			}
			id := op.Ids[0]
			ret = w.Nest(id, op.B)
			old, had := pre.Items[id]
			if had {
				affItem = &old
			}
			switch {
			case !had || !pre.has(op.B) || pre.Under(op.B, id):
				wantErr = true
			case id == op.B:
				either = true
			default:
				want.Parent[id] = op.B
			}
		case KFree:
			name = "Free"
			if len(op.Ids) == 0 {
				continue
			}
			id := op.Ids[0]
			ret = w.Free(id)
			if old, had := pre.Items[id]; had {
				affItem = &old
				want.Parent[id] = ""
			} else {
				wantErr = true
			}
		default:
			continue
		}
		fail := func(f string, a ...any) {
			rec.Fail("step %d, %s %q %q %q %v: %s", i, name, op.A, op.B, op.Ids, params, fmt.Sprintf(f, a...))
		}
		// Read what it reports before anything else is asked.
		err := w.Err()
		if ret == nil || fmt.Sprint(ret.Err()) != fmt.Sprint(err) {
			fail("the returned world reports error %v, the world %v", ret.Err(), err)
			return
		}
		var it *world.Item
		var rl *world.Rel
		if x, ok := w.(world.WorldWithItem); ok {
			g, e := x.Item()
			it = &g
			if (e == nil) != (err == nil) {
				fail("Item() reports error %v, Err() %v", e, err)
				return
			}
		}
		if x, ok := w.(world.WorldWithRel); ok {
			g, e := x.Rel()
			rl = &g
			if (e == nil) != (err == nil) {
				fail("Rel() reports error %v, Err() %v", e, err)
				return
			}
		}
		if !either && (err != nil) != wantErr {
			fail("reported error %v, expected one: %v", err, wantErr)
			return
		}
		post, pr := snapFull(w, nil)
		if err != nil {
			if v := Diff(pre, post); v != "" {
				fail("reported error %q, but %s", clip(err.Error()), v)
				return
			}
			rec.Ev(name + ":err")
		} else {
			rec.Ev(name + ":ok")
			if v := Diff(want, post); v != "" && !either {
				fail("reported no error, but %s", v)
				return
			}
		}
		if v := pr.Any(); v != "" {
			fail("%s", v)
			return
		}
		if it != nil {
			g := mitem(*it)
			empty := g == MItem{}
			switch {
			case affItem == nil && !empty:
				fail("reported item %+v, though it concerns no existing one", g)
				return
			case affItem != nil && err == nil && g != *affItem:
				fail("reported item %+v, expected %+v", g, *affItem)
				return
			case affItem != nil && err != nil && !empty && g != *affItem:
				fail("reported item %+v with an error, the item is %+v", g, *affItem)
				return
			}
		}
		if rl != nil {
			g := mrel(*rl)
			empty := g == MRel{}
			switch {
			case affRel == nil && !empty:
				fail("reported rel %+v, though it concerns no existing one", g)
				return
			case affRel != nil && err == nil && g != *affRel:
				fail("reported rel %+v, expected %+v", g, *affRel)
				return
			case affRel != nil && err != nil && !empty && g != *affRel:
				fail("reported rel %+v with an error, the rel is %+v", g, *affRel)
				return
			}
			if affRel != nil && !empty && (mitem(rl.From) != post.Items[affRel.P.From] || mitem(rl.To) != post.Items[affRel.P.To]) {
				fail("the reported rel's end items are not as they are now")
				return
			}
		}
		rec.State(fmt.Sprint(name, err != nil, post.Canon()))
		if failedBefore != (err != nil) {
			rec.Nontrivial = true
		}
		failedBefore = err != nil
		if i%6 == 5 {
			// Provoke an error, then set info: that succeeds, and nothing earlier is reported.
			w.ItemSet("no such item", world.ItemParams{})
			before := snapQuick(w)
			w.ItemSet("no such item", world.ItemParams{})
			var ret world.World
			v := fmt.Sprintf("info %d", i)
			same := c.N%2 == 1 // set to what it is already
			old := func(s string) string {
				if same {
					rec.Ev("info-as-it-was")
					return s
				}
				return v
			}
			switch (i/6 + c.N/2) % 4 {
			case 0:
				before.Name = old(before.Name)
				ret = w.SetName(before.Name)
			case 1:
				before.Id = old(before.Id)
				ret = w.SetId(before.Id)
			case 2:
				before.Expanded = old(before.Expanded)
				ret = w.SetExpanded(before.Expanded)
			default:
				if old("") != "" {
					before.Version = i
				}
				ret = w.SetVersion(before.Version)
			}
			if ret.Err() != nil || w.Err() != nil {
				fail("afterwards, an operation failed, then info was set, which reports error %v", w.Err())
				return
			}
			if x, ok := w.(world.WorldWithBoth); ok {
				gi, _ := x.Item()
				gr, _ := x.Rel()
				if gi != (world.Item{}) || gr != (world.Rel{}) {
					fail("afterwards, info was set, which reports item %+v and rel %+v", gi, gr)
					return
				}
			}
			if v := Diff(before, snapQuick(w)); v != "" {
				fail("afterwards, info was set, but %s", v)
				return
			}
			rec.Ev("info-after-error")
		}
	}
}
