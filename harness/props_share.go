package main

import (
	"fmt"
	"slices"
	"strings"

	"github.com/williamflynt/topolith/pkg/app"
	"github.com/williamflynt/topolith/pkg/world"
)

// Steps of C28 that are done with operations of the world have this as N; the others, the number of the application.
const byHand = -1

// entry is what one application did, and could undo.
type entry struct {
	op        Op
	text      string // as the history has it
	pre, post *Snap  // the world around its last execution
}

type sharer struct {
	a    app.App
	hist []entry
	pos  int // how many are not undone
}

// part is what a command is about: what it may change, and what taking it back may change.
type part struct {
	items   map[string]bool // existence and attributes
	parents map[string]bool
	rels    func(p Pair) bool
}

func nothing() part {
	return part{map[string]bool{}, map[string]bool{}, func(Pair) bool { return false }}
}

// concerns tells which part of the worlds the command is about, when it was executed on pre. It is about all that
// touches an item if it makes or deletes it, and that may have become more since; hence now.
func concerns(op Op, pre, now *Snap) part {
	pt := nothing()
	whole := func() {
		pt.items[op.A], pt.parents[op.A] = true, true
		for _, c := range append(pre.Children(op.A), now.Children(op.A)...) {
			pt.parents[c] = true
		}
		pt.rels = func(p Pair) bool { return p.From == op.A || p.To == op.A }
	}
	switch op.K {
	case KItemCreate, KItemCF:
		if !pre.has(op.A) {
			whole()
		}
	case KItemCS:
		if !pre.has(op.A) {
			whole()
		} else {
			pt.items[op.A] = true
		}
	case KItemSet, KItemClear:
		pt.items[op.A] = true
	case KItemDelete:
		if pre.has(op.A) {
			whole()
		}
	case KNest, KFree:
		for _, id := range op.Ids {
			pt.parents[id] = true
		}
	case KRelCreate, KRelCF:
		if _, ok := pre.Rels[Pair{op.A, op.B}]; !ok {
			pt.rels = func(p Pair) bool { return p == Pair{op.A, op.B} }
		}
	case KRelSet, KRelClear, KRelCS, KRelDelete:
		pt.rels = func(p Pair) bool { return p == Pair{op.A, op.B} }
	}
	return pt
}

// put writes the part of src into dst, or removes it from dst where src is nil.
func (pt part) put(dst, src *Snap) *Snap {
	out := dst.Clone()
	if src == nil {
		src = newSnap()
	}
	for id := range pt.items {
		delete(out.Items, id)
		if it, ok := src.Items[id]; ok {
			out.Items[id] = it
		}
	}
	for id := range pt.parents {
		delete(out.Parent, id)
		if p, ok := src.Parent[id]; ok {
			out.Parent[id] = p
		}
	}
	for p := range out.Rels {
		if pt.rels(p) {
			delete(out.Rels, p)
		}
	}
	for p, r := range src.Rels {
		if pt.rels(p) {
			out.Rels[p] = r
		}
	}
	return out
}

// leftOver tells what an undo has not taken back, though it is as the command left it and can be as it was before.
func (pt part) leftOver(e entry, pre, now *Snap) string {
	for id := range pt.items {
		was, ok := e.pre.Items[id]
		left, ok2 := e.post.Items[id]
		is, ok3 := pre.Items[id]
		if ok && ok2 == ok3 && left == is && now.Items[id] != was {
			return fmt.Sprintf("item %q is %+v and not %+v as before", id, now.Items[id], was)
		}
		if !ok && ok3 && left == is && now.has(id) {
			return fmt.Sprintf("item %q is still there", id)
		}
	}
	for p, was := range e.pre.Rels {
		if _, ok := pre.Rels[p]; pt.rels(p) && !ok && now.has(p.From) && now.has(p.To) && now.Rels[p] != was {
			if _, ok := e.post.Rels[p]; !ok {
				return fmt.Sprintf("relationship %v is %+v and not %+v as before", p, now.Rels[p], was)
			}
		}
	}
	for id := range pt.parents { // If others have moved any, what can be taken back depends on the order.
		if pre.has(id) && pre.Parent[id] != e.post.Parent[id] {
			return ""
		}
	}
	for id := range pt.parents {
		if !pre.has(id) || !e.pre.has(id) || !now.has(id) {
			continue
		}
		if p := e.pre.Parent[id]; now.Parent[id] != p && (p == "" || now.has(p) && p != id && !now.Under(p, id)) {
			return fmt.Sprintf("item %q is in %q and not in %q as before", id, now.Parent[id], p)
		}
	}
	return ""
}

// isWorld tells whether the content could be one of a world.
func (s *Snap) isWorld() bool {
	for id, p := range s.Parent {
		if !s.has(id) || p != "" && !s.has(p) || s.Under(id, id) {
			return false
		}
	}
	for id := range s.Items {
		if _, ok := s.Parent[id]; !ok {
			return false
		}
	}
	for p := range s.Rels {
		if !s.has(p.From) || !s.has(p.To) {
			return false
		}
	}
	return true
}

// byOps makes a change with operations of the world.
func byOps(w world.World, op Op) {
	switch op.K {
	case KItemCreate, KItemCF, KItemCS:
		if _, ok := w.ItemFetch(op.A); ok {
			w.ItemSet(op.A, apiItemParams(op.P))
		} else {
			w.ItemCreate(op.A, apiItemParams(op.P))
		}
	case KItemSet:
		w.ItemSet(op.A, apiItemParams(op.P))
	case KItemClear:
		w.ItemSet(op.A, apiItemParams(keysToParams(op.Keys)))
	case KItemDelete:
		w.ItemDelete(op.A)
	case KNest:
		for _, id := range op.Ids {
			w.Nest(id, op.B)
		}
	case KFree:
		for _, id := range op.Ids {
			w.Free(id)
		}
	case KRelCreate, KRelCF, KRelCS:
		w.RelCreate(op.A, op.B, apiRelParams(op.P))
	case KRelSet:
		w.RelSet(op.A, op.B, apiRelParams(op.P))
	case KRelClear:
		w.RelSet(op.A, op.B, apiRelParams(keysToParams(op.Keys)))
	case KRelDelete:
		w.RelDelete(op.A, op.B)
	case KWorld:
		w.SetName(w.Name() + "x").SetVersion(w.Version() + 1)
	}
}

func runC28(c *Case, rec *Rec) {
	s0, _, ops := start(c, rec)
	w, ids := s0.w, s0.ids
	apps := []*sharer{{a: s0.a}}
	for len(apps) < c.Ints["apps"] {
		a, err := app.NewApp(w)
		if err != nil {
			rec.Fail("a second application on the world: %v", err)
			return
		}
		apps = append(apps, &sharer{a: a})
	}
	now, pr := snapFull(w, ids)
	last := -1
	for i, op := range ops {
		fail := func(f string, a ...any) {
			rec.Step = i
			rec.Fail("step %d, %s %q by %d of %d: %s", i, op.K, strings.TrimSpace(op.Text), op.N, len(apps), fmt.Sprintf(f, a...))
		}
		pre := now
		if op.N == byHand {
			byOps(w, op)
			now, pr = snapFull(w, ids)
			if v := pr.Any(); v != "" {
				fail("%s", v)
				return
			}
			rec.Ev("changed-by-hand")
			last = byHand
			continue
		}
		me := op.N % len(apps)
		x := apps[me]
		switch op.K {
		case KUndo:
			if !hooksAvailable {
				continue
			}
			err, _ := appUndo(x.a)
			now, pr = snapFull(w, ids)
			if x.pos == 0 {
				if v := Diff(pre, now); v != "" || err != nil {
					fail("there was nothing to undo, but: %v %s", err, v)
					return
				}
				break
			}
			e := x.hist[x.pos-1]
			pt := concerns(e.op, e.pre, pre)
			if v := Diff(pt.put(pre, nil), pt.put(now, nil)); v != "" {
				fail("undoing %q changed what it was not about: %s", e.text, v)
				return
			}
			// If what it was about is still as it left it, and can be as it was before, it is.
			want := pt.put(pre, e.pre)
			same := Diff(pt.put(pre, e.post), pre) == "" && Diff(pre, pt.put(pre, e.post)) == ""
			if same && want.isWorld() {
				if err != nil {
					fail("undoing %q failed, though what it was about is as it was then: %v", e.text, err)
					return
				}
				if v := Diff(want, now); v != "" {
					fail("undid %q: %s", e.text, v)
					return
				}
				rec.Ev("undone")
				if len(apps) > 1 && Diff(e.post, pre) != "" {
					rec.Ev("undone-after-others")
					rec.Nontrivial = true
				}
			} else {
				rec.Ev(fmt.Sprintf("undo-on-other-ground:%v", err == nil))
				if err == nil { // what it can take back, it has
					if v := pt.leftOver(e, pre, now); v != "" {
						fail("undoing %q succeeded, but %s", e.text, v)
						return
					}
				}
			}
			x.pos--
			if err != nil {
				x.hist, x.pos = nil, 0
			}
			rec.Ev("undo:" + e.op.K)
		case KRedo:
			if !hooksAvailable {
				continue
			}
			err, _ := appRedo(x.a)
			now, pr = snapFull(w, ids)
			if x.pos == len(x.hist) {
				if v := Diff(pre, now); v != "" || err != nil {
					fail("there was nothing to redo, but: %v %s", err, v)
					return
				}
				break
			}
			e := &x.hist[x.pos]
			want := pre.Clone()
			exp := want.Apply(e.op, err == nil)
			if !exp.Either && exp.OK != (err == nil) {
				fail("redoing %q: could be done: %v, error: %v", e.text, exp.OK, err)
				return
			}
			if v := Diff(want, now); v != "" {
				fail("redid %q (error: %v): %s", e.text, err, v)
				return
			}
			e.pre, e.post = pre, now
			x.pos++
			if err != nil {
				x.hist, x.pos = nil, 0
				rec.Ev("redo-impossible")
			} else {
				rec.Ev("redone")
			}
		default:
			r := readResp(x.a.Exec(op.Text))
			want := pre.Clone()
			e := want.Apply(op, r.OK)
			now, pr = snapFull(w, ids)
			if v := matchResp(r, e, now); v != "" {
				fail("%s: %s", v, clip(r.Raw))
				return
			}
			if v := Diff(want, now); v != "" {
				fail("%s", v)
				return
			}
			rec.Ev("executed")
			if last != me && last != -1 {
				rec.Ev("executed-after-another")
			}
			if r.OK {
				x.hist = append(x.hist[:x.pos:x.pos], entry{op: op, pre: pre, post: now})
				x.pos++
				if h := x.a.History(); len(h) > 0 {
					x.hist[x.pos-1].text = h[len(h)-1].String()
				}
				if !strings.Contains(op.Text, x.hist[x.pos-1].text) && !strings.Contains(x.hist[x.pos-1].text, strings.TrimSpace(op.Text)) {
					fail("the last of the history is %q", x.hist[x.pos-1].text)
					return
				}
			} else if x.pos < len(x.hist) && !x.a.CanRedo() {
				x.hist = x.hist[:x.pos] // Whether a failed command discards what was undone is left open.
			}
		}
		last = me
		rec.State(now.Canon())
		if v := pr.Any(); v != "" {
			fail("%s", v)
			return
		}
		for k, y := range apps {
			var texts []string
			for _, e := range y.hist[:y.pos] {
				texts = append(texts, e.text)
			}
			if h := histTexts(y.a); !slices.Equal(h, texts) {
				fail("the history of application %d is %q, expected %q", k, h, texts)
				return
			}
			if u := y.pos > 0; y.a.CanUndo() != u {
				fail("application %d can undo: %v, with %d to undo", k, !u, y.pos)
				return
			}
			if u := y.pos < len(y.hist); y.a.CanRedo() != u {
				fail("application %d can redo: %v, with %d to redo", k, !u, len(y.hist)-y.pos)
				return
			}
			if y.a.World() != w {
				fail("application %d is on another world", k)
				return
			}
		}
	}
}

func init() {
	share := mutWeights.with(Weights{KItemDelete: 5, KItemCreate: 8, KNest: 10, KFree: 4, KItemFetch: 1, KItemList: 1, KItemIn: 1, KRelFetch: 1, KTo: 1, KFrom: 1, KGarbage: 1})
	need := []string{"executed-after-another", "changed-by-hand"}
	if hooksAvailable {
		need = append(need, "undone", "undone-after-others", "undo-on-other-ground:true", "undo-on-other-ground:false", "redone", "redo-impossible",
			"undo:item-create", "undo:item-delete", "undo:item-set", "undo:item-clear", "undo:nest", "undo:free", "undo:rel-create", "undo:rel-set", "undo:rel-delete", "undo:item-create-or-set", "undo:rel-create-or-set")
	}
	register(&Prop{ID: "C28", Quick: 5200, Thorough: 60000,
		Rule: "cases are seeded schedules in which one to three applications on one world execute, undo and redo in turns while the world is changed with its own operations in between; each command and redo is predicted from the world as it is at that moment; each undo must leave alone what its command was not about, and take the command back exactly if what it was about is as the command left it; views of the world, histories and what can be undone and redone are checked for all applications after every step; non-trivial: an undo took a command back though others had changed the world since",
		Need: need,
		Families: []Family{{Name: "shared", Weight: 1, Gen: func(r *Rng, c *Case, th bool) {
			g := newGen(r, r.idPool())
			if r.chance(0.7) {
				c.Ops = g.seedOps(r.between(2, len(g.Pool)), r.between(0, 5), 0.6)
			}
			n := r.between(15, 60)
			if th && r.chance(0.2) {
				n *= 4
			}
			apps := r.between(1, 3)
			hand := r.Float64() * 0.4
			undo := 0.15 + r.Float64()*0.5
			at := 0
			by := func(n int, op Op) {
				op.N = n
				if n == byHand {
					op.Text = ""
				}
				c.Ops = append(c.Ops, op)
			}
			others := func(w Weights) {
				for m := r.between(1, 3); m > 0; m-- {
					who := byHand
					if x := r.IntN(apps); x != at && r.chance(0.6) {
						who = x
					}
					by(who, g.ops(1, w)[0])
				}
			}
			for i := 0; i < n; i++ {
				if r.chance(0.4) {
					at = r.IntN(apps)
				}
				if r.chance(0.06) { // something others get in between of and its undo
					by(at, g.ops(1, mutWeights.with(Weights{KItemDelete: 20, KNest: 15}))[0])
					others(Weights{KItemCreate: 3, KItemCF: 2, KItemSet: 3, KNest: 12, KFree: 2, KRelCreate: 6, KRelSet: 2})
					for _, k := range [][]string{{KUndo}, {KUndo, KRedo}, {KUndo, KRedo, KUndo}}[r.IntN(3)] {
						by(at, Op{K: k})
						if r.chance(0.2) {
							others(Weights{KItemSet: 3, KNest: 4, KFree: 2, KRelCreate: 2})
						}
					}
					continue
				}
				if r.chance(0.06) { // a question that is asked again
					q := g.ops(1, Weights{KItemFetch: 6, KItemList: 1, KItemIn: 3, KItemExists: 3, KIn: 3, KRelFetch: 4, KRelExists: 3, KRelList: 1, KTo: 3, KFrom: 3, KWorld: 1})[0]
					by(at, q)
					was := g.Pool
					if ids := uniq(opIds([]Op{q})); len(ids) > 0 && r.chance(0.7) {
						g.Pool = ids
						g.Miss = 1
					}
					others(mutWeights)
					g.Pool, g.Miss = was, 0.15
					by(at, q)
					continue
				}
				if r.chance(undo) {
					k := r.pick([]string{KUndo, KUndo, KRedo})
					for m := r.between(1, 4); m > 0; m-- {
						c.Ops = append(c.Ops, Op{K: k, N: at})
					}
					continue
				}
				if r.chance(hand) {
					op := g.ops(1, share)[0]
					op.N, op.Text = byHand, ""
					if r.chance(0.05) {
						op = Op{K: KWorld, N: byHand}
					}
					c.Ops = append(c.Ops, op)
					continue
				}
				op := g.ops(1, share)[0]
				op.N = at
				c.Ops = append(c.Ops, op)
			}
			c.Ints = map[string]int{"apps": apps}
		}, Run: runC28}}})
}
