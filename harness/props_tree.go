package main

import (
	"fmt"
	"slices"
	"strings"

	"github.com/williamflynt/topolith/pkg/world"
)

// forest is what a tree should contain: the parent of each item in it. Top is the root, whose item, if any, is in no parent.
type forest struct {
	rootId string // of the item at the root, or empty
	parent map[string]string
	items  map[string]MItem
}

const top = "\x00top"

func (f *forest) has(id string) bool { _, ok := f.parent[id]; return ok || id != "" && id == f.rootId }

func (f *forest) node(id string) string { // how the model calls the part with the item
	if id == f.rootId {
		return top
	}
	return id
}

func (f *forest) kids(n string) []string {
	var out []string
	for c, p := range f.parent {
		if p == n {
			out = append(out, c)
		}
	}
	slices.Sort(out)
	return out
}

func (f *forest) ids() []string {
	var out []string
	for id := range f.parent {
		out = append(out, id)
	}
	slices.Sort(out)
	return out
}

// under lists the ids of the items below the part.
func (f *forest) under(n string) []string {
	var out []string
	for _, k := range f.kids(n) {
		out = append(append(out, k), f.under(k)...)
	}
	slices.Sort(out)
	return out
}

func (f *forest) within(n, ancestor string) bool {
	for ; n != ""; n = f.parent[n] {
		if n == ancestor {
			return true
		}
	}
	return false
}

func (f *forest) canon() string {
	var out []string
	for c, p := range f.parent {
		out = append(out, fmt.Sprintf("%q<%q %v", c, p, f.items[c]))
	}
	slices.Sort(out)
	return fmt.Sprint(f.rootId, out)
}

// partSays asks a part of the tree everything.
func (f *forest) partSays(t world.Tree, n string, root world.Tree, ids []string) string {
	id := n
	if n == top {
		id = f.rootId
	}
	if id == "" {
		if t.Item() != (world.Item{}) {
			return fmt.Sprintf("it has item %+v, expected none", mitem(t.Item()))
		}
	} else if mitem(t.Item()) != f.items[id] {
		return fmt.Sprintf("it has item %+v, expected %+v", mitem(t.Item()), f.items[id])
	}
	under := f.under(n)
	var kids []string
	for _, k := range t.Components().ToSlice() {
		kids = append(kids, k.Item().Id)
		if k.Parent() != t {
			return fmt.Sprintf("the parent of its component %q is another", k.Item().Id)
		}
	}
	if want := f.kids(n); !slices.Equal(sortedCopy(kids), want) {
		return fmt.Sprintf("its components are %q, expected %q", kids, want)
	}
	if t.Root() != root {
		return "its root is another"
	}
	p := t.Parent()
	switch {
	case p == nil:
		return "it has a nil parent"
	case n == top:
		if !p.Empty() || p.Item() != (world.Item{}) || p.Components().Cardinality() != 0 {
			return fmt.Sprintf("it has no parent, but that is not empty: %s", clip(treeCanon(p, 0)))
		}
	case f.parent[n] == top && p != root:
		return "its parent is not the root"
	case f.parent[n] != top && p.Item().Id != f.parent[n]:
		return fmt.Sprintf("its parent is %q, expected %q", p.Item().Id, f.parent[n])
	}
	if e := id == "" && len(under) == 0; t.Empty() != e {
		return fmt.Sprintf("empty: %v, expected %v", t.Empty(), e)
	}
	for _, x := range ids {
		in := x != "" && (x == id || slices.Contains(under, x))
		if g := t.Has(x, false); g != in {
			return fmt.Sprintf("has %q: %v, expected %v", x, g, in)
		}
		if g := t.Has(x, true); g != (x != "" && x == id) {
			return fmt.Sprintf("strictly has %q: %v, expected %v", x, g, x != "" && x == id)
		}
		found, ok := t.Find(x)
		if ok != in || in && (found == nil || found.Item().Id != x) {
			return fmt.Sprintf("finds %q: %v, expected %v", x, ok, in)
		}
		var want []string
		if in {
			want = f.under(f.node(x))
		}
		if g := sortedCopy(t.GetDescendantIds(x)); !slices.Equal(g, want) {
			return fmt.Sprintf("the descendants of %q are %q, expected %q", x, g, want)
		}
	}
	return ""
}

func (f *forest) says(root world.Tree, ids []string, some func() bool) string {
	if v := f.partSays(root, top, root, ids); v != "" {
		return "the root: " + v
	}
	for _, id := range f.ids() {
		if !some() {
			continue
		}
		t, ok := root.Find(id)
		if !ok {
			return fmt.Sprintf("%q is not found", id)
		}
		if v := f.partSays(t, id, root, ids); v != "" {
			return fmt.Sprintf("the part of %q: %s", id, v)
		}
	}
	return ""
}

const (
	TAdd    = "add-or-move"
	TDelete = "delete"
	TReread = "reread"
	TParent = "add-to-the-parent-of-the-root"
)

func init() {
	c25 := func(c *Case, rec *Rec) {
		f := &forest{parent: map[string]string{}, items: map[string]MItem{}}
		ids := append(opIds(c.Ops), "no such item", "")
		var root world.Tree
		var err error
		switch c.Ints["root"] {
		case 0:
			root, _, err = world.TreeFromString("")
		case 1:
			root, _, err = world.TreeFromString("tree{nil::[]}")
		default:
			it := MItem{Id: c.Aux["root"], Name: "root"}
			root, _, err = world.TreeFromString(fmt.Sprintf("tree{%s::[]}", toItem(it).String()))
			f.rootId, f.items[it.Id] = it.Id, it
			ids = uniq(append(ids, it.Id))
		}
		if err != nil {
			rec.Fail("the first tree cannot be made: %v", err)
			return
		}
		some := newRng(c.Seed, "C25some", c.N)
		held := map[string]world.Tree{} // parts found earlier, whose items have been in the tree since
		for i, op := range c.Ops {
			what := fmt.Sprintf("step %d, %s %q in %q", i, op.K, op.A, op.B)
			at, n := root, top // the part that the operation is done at
			if op.B != "" && f.has(op.B) {
				var ok bool
				if at, ok = root.Find(op.B); !ok {
					rec.Fail("%s: %q is not found", what, op.B)
					return
				}
				n = f.node(op.B)
				if h, ok := held[op.B]; !ok {
					held[op.B] = at
				} else if c.N%2 == 0 {
					at = h
					rec.Ev("at-a-part-found-earlier")
				}
			}
			switch op.K {
			case TAdd:
				it, had := f.items[op.A]
				if !had || !f.has(op.A) {
					it = applyItemAttrs(MItem{Id: op.A}, op.P)
				}
				err := at.AddOrMove(ptr(toItem(it)))
				x := f.node(op.A)
				cycle := f.has(op.A) && x != n && f.within(n, x)
				if (err != nil) != cycle {
					rec.Fail("%s: error %v, expected one: %v", what, err, cycle)
					return
				}
				switch {
				case cycle:
					rec.Ev("cycle-refused")
				case x == n:
					rec.Ev("added-to-itself")
				default:
					if f.has(op.A) {
						rec.Ev("moved")
						if len(f.kids(op.A)) > 0 && f.parent[op.A] != n {
							rec.Ev("moved-with-components")
							rec.Nontrivial = true
						}
					} else {
						rec.Ev("added")
					}
					f.parent[op.A], f.items[op.A] = n, it
				}
			case TDelete:
				at.Delete(op.A)
				x := f.node(op.A)
				switch {
				case !f.has(op.A) || !f.within(x, n):
					rec.Ev("deleted-nothing")
				case x == top:
					f.rootId = ""
					delete(held, op.A)
					rec.Ev("deleted-at-the-root")
				default:
					for _, k := range f.kids(x) {
						f.parent[k] = f.parent[x]
						rec.Ev("component-handed-to-parent")
					}
					delete(f.parent, x)
					delete(held, x)
					rec.Ev("deleted")
				}
			case TReread:
				t, its, err := world.TreeFromString(root.String())
				if err != nil || t == nil {
					rec.Fail("%s: its text cannot be read: %v", what, err)
					return
				}
				n := len(f.parent)
				if f.rootId != "" {
					n++
				}
				if len(its) != n || !world.TreeEqual(root, t) {
					rec.Fail("%s: %d items are read, expected %d, and the trees are equal: %v", what, len(its), n, world.TreeEqual(root, t))
					return
				}
				root = t
				clear(held)
				rec.Ev("went-on-with-a-read-tree")
				if ids := f.ids(); len(ids) > 0 { // with an item of its twice
					id := some.pick(ids)
					x, _ := root.Find(id)
					text := fmt.Sprintf("tree{nil::[%s %s]}", root.String(), x.String())
					if some.chance(0.5) {
						text = fmt.Sprintf("tree{%s::[%s]}", x.Item().String(), root.String())
					}
					if f.rootId == "" {
						text = strings.Replace(root.String(), "tree{nil::[", "tree{nil::["+x.String()+" ", 1)
					}
					if t, _, err := world.TreeFromString(text); err == nil {
						rec.Fail("%s: %q, where %q is twice, is read as %s", what, clip(text), id, clip(treeCanon(t, 0)))
						return
					}
					rec.Ev("refused-with-an-item-twice")
				}
			case TParent:
				// Whatever that does, it cannot concern trees.
				root.Parent().AddOrMove(ptr(toItem(MItem{Id: "astray"})))
				root.Parent().Delete("astray")
				root.Parent().AddOrMove(ptr(toItem(MItem{Id: "astray"})))
				rec.Ev("added-to-the-parent-of-the-root")
			}
			if v := f.says(root, ids, func() bool { return len(f.parent) < 12 || some.chance(12/float64(len(f.parent))) }); v != "" {
				rec.Fail("%s: afterwards, %s", what, v)
				return
			}
			var heldIds []string
			for id := range held {
				heldIds = append(heldIds, id)
			}
			slices.Sort(heldIds)
			for _, id := range heldIds {
				if len(held) > 4 && !some.chance(4/float64(len(held))) {
					continue
				}
				if v := f.partSays(held[id], f.node(id), root, ids); v != "" {
					rec.Fail("%s: afterwards, the part of %q that was found earlier: %s", what, id, v)
					return
				}
				rec.Ev("part-found-earlier-asked")
			}
			rec.State(f.canon())
			rec.EvN("part-asked", 1+min(12, len(f.parent)))
		}
		if err := root.AddOrMove(nil); err == nil {
			rec.Fail("adding nothing is no error")
			return
		}
		if v := f.says(root, ids, func() bool { return true }); v != "" {
			rec.Fail("at the end: %s", v)
		}
	}
	gen := func(lo, hi, pool int) func(r *Rng, c *Case, th bool) {
		return func(r *Rng, c *Case, th bool) {
			ids := r.idPool()
			if pool > 0 {
				ids = r.bigPool(pool)
			}
			c.Ints = map[string]int{"root": r.pickInt(0, 1, 2, 2)}
			c.Aux = map[string]string{"root": r.pick(ids)}
			del := []float64{0.05, 0.2, 0.35}[r.IntN(3)]
			for n := r.between(lo, hi); n > 0; n-- {
				op := Op{K: TAdd, A: r.pick(ids)}
				switch x := r.Float64(); {
				case x < del:
					op.K = TDelete
				case x < del+0.03:
					op = Op{K: TReread}
				case x < del+0.035:
					op = Op{K: TParent}
				default:
					op.P = r.itemParams(0, 3)
				}
				if op.K == TAdd && r.chance(0.85) || op.K == TDelete && r.chance(0.3) {
					op.B = r.pick(ids)
				}
				c.Ops = append(c.Ops, op)
			}
		}
	}
	register(&Prop{ID: "C25", Quick: 8000, Thorough: 150000,
		Rule: "cases are seeded sequences of adding, moving and deleting items at random parts of a tree that was made empty or read from text, with re-reading in between; after every step the root and the parts are asked for item, components, parent, root, emptiness, and for each id whether and where it is and what is below it, and all of it compared with a forest; non-trivial: a part with components was moved",
		Need: []string{"added", "moved", "moved-with-components", "cycle-refused", "deleted", "deleted-nothing", "deleted-at-the-root", "component-handed-to-parent", "went-on-with-a-read-tree", "refused-with-an-item-twice", "added-to-the-parent-of-the-root", "at-a-part-found-earlier", "part-found-earlier-asked"},
		Families: []Family{
			{Name: "mixed", Weight: 300, Gen: gen(8, 50, 0), Run: c25},
			{Name: "big", Weight: 3, Gen: gen(250, 450, 130), Run: c25},
		}})
}
