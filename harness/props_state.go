package main

import (
	"fmt"
	"slices"

	"github.com/williamflynt/topolith/pkg/app"
	"github.com/williamflynt/topolith/pkg/grammar"
	"github.com/williamflynt/topolith/pkg/world"
)

// mixed makes the usual workload: a small world that most commands make sense in.
func mixed(w Weights, lo, hi int) func(r *Rng, c *Case, thorough bool) {
	return func(r *Rng, c *Case, thorough bool) {
		g := newGen(r, r.idPool())
		if r.chance(0.7) {
			c.Ops = g.seedOps(r.between(2, len(g.Pool)), r.between(0, 6), 0.6)
		}
		n := r.between(lo, hi)
		if thorough && r.chance(0.2) {
			n *= 4
		}
		c.Ops = append(c.Ops, g.ops(n, w)...)
	}
}

// bigWorld makes worlds of many items: deep, wide or mixed.
func bigWorld(w Weights, items, cmds int) func(r *Rng, c *Case, thorough bool) {
	return func(r *Rng, c *Case, thorough bool) {
		n := r.between(items/2, items)
		if thorough && r.chance(0.3) {
			n *= 2
		}
		g := newGen(r, r.bigPool(n))
		add := func(op Op) {
			g.render(&op)
			g.M.Apply(op, false)
			c.Ops = append(c.Ops, op)
		}
		for _, id := range g.Pool {
			add(Op{K: KItemCF, A: id})
		}
		shape := r.IntN(3)
		for i, id := range g.Pool {
			if i == 0 {
				continue
			}
			switch {
			case shape == 0 && i < 120: // a chain
				add(Op{K: KNest, Ids: []string{id}, B: g.Pool[i-1]})
			case shape == 1 && r.chance(0.8): // a star
				add(Op{K: KNest, Ids: []string{id}, B: g.Pool[0]})
			case shape == 2 && r.chance(0.8):
				add(Op{K: KNest, Ids: []string{id}, B: g.Pool[r.IntN(i)]})
			}
		}
		for i := 0; i < n/3; i++ {
			add(Op{K: KRelCF, A: r.pick(g.Pool), B: r.pick(g.Pool)})
		}
		g.Miss = 0.05
		c.Ops = append(c.Ops, g.ops(cmds, w)...)
		c.Ints = map[string]int{"big": 1}
	}
}

func isBig(c *Case) bool { return c.Ints["big"] == 1 }

func stateRun(check func(rec *Rec) stepCheck) func(c *Case, rec *Rec) {
	return func(c *Case, rec *Rec) {
		s, _, ops := start(c, rec)
		s.blind = c.Ints["blind"]
		s.drive(ops, isBig(c), check(rec))
	}
}

func init() {
	// C02: containment.
	nestHeavy := mutWeights.with(Weights{KNest: 22, KFree: 7, KItemDelete: 5, KItemIn: 3, KIn: 2, KItemSet: 2, KRelCreate: 3})
	c02 := func(rec *Rec) stepCheck {
		return func(op Op, r Resp, e Exp, pre, post, want *Snap, pr Problems) string {
			if pr.Forest != "" {
				return pr.Forest
			}
			switch op.K {
			case KNest, KFree:
				if v := matchResp(r, e, post); v != "" {
					return v
				}
				moved := false
				for _, id := range op.Ids {
					moved = moved || r.OK && pre.Parent[id] != post.Parent[id] && len(pre.Children(id)) > 0
				}
				if moved {
					rec.Ev("moved-with-components")
					rec.Nontrivial = true
				}
				if !r.OK {
					for _, id := range op.Ids {
						if pre.has(op.B) && pre.Under(op.B, id) {
							rec.Ev("cycle-refused")
						}
					}
				}
			case KItemIn, KIn:
				// The attributes in the listing are not this property's concern.
				if e.Kind == "items" && r.OK {
					its, err := readItems(r.Body)
					if err != nil {
						return ""
					}
					var a, b []string
					for _, i := range its {
						a = append(a, i.Id)
					}
					for _, i := range e.Items {
						b = append(b, i.Id)
					}
					if !slices.Equal(sortedCopy(a), sortedCopy(b)) {
						return fmt.Sprintf("listed components %q, expected %q", a, b)
					}
				} else if v := matchResp(r, e, post); v != "" {
					return v
				}
			}
			if v := DiffForest(want, post); v != "" {
				return v
			}
			if op.K != KItemDelete && op.K != KItemCreate && op.K != KItemCF && op.K != KItemCS {
				if !slices.Equal(pre.SortedIds(), post.SortedIds()) {
					return "the set of items changed"
				}
			}
			return ""
		}
	}
	register(&Prop{ID: "C02", Quick: 5200, Thorough: 60000,
		Rule: "cases are seeded sequences of containment and other commands over small pools of (often confusable) ids, plus big deep/wide worlds; after every command all containment views (parent, parent item, components, component items, in?, item in, world text) are cross-checked and compared with a model forest; non-trivial: an item that has components was moved",
		Need: []string{"moved-with-components", "cycle-refused", "cmd:free:ok"},
		Families: []Family{
			{Name: "mixed", Weight: 200, Gen: mixed(nestHeavy, 10, 60), Run: stateRun(c02)},
			hugeFamily(1030, 1300, hugeSteps(5, DiffForest, hugeForest)),
			{Name: "big", Weight: 5, Gen: bigWorld(nestHeavy, 130, 60), Run: stateRun(c02)},
		}})

	// C03: item commands.
	itemHeavy := mutWeights.with(Weights{KItemCreate: 8, KItemSet: 10, KItemClear: 7, KItemCF: 5, KItemCS: 8, KItemFetch: 4, KItemExists: 2, KItemList: 2, KItemIn: 3, KWorld: 2, KNest: 5})
	c03 := func(rec *Rec) stepCheck {
		return func(op Op, r Resp, e Exp, pre, post, want *Snap, pr Problems) string {
			if pr.Items != "" {
				return pr.Items
			}
			if pr.RelEnds != "" && itemKinds[op.K] {
				return pr.RelEnds
			}
			switch op.K {
			case KItemCreate, KItemSet, KItemClear, KItemCF, KItemCS, KItemFetch, KItemExists:
				if v := matchResp(r, e, post); v != "" {
					return v
				}
				if v := Diff(want, post); v != "" {
					return v
				}
				if r.OK && pre.has(op.A) && pre.Items[op.A] != post.Items[op.A] {
					rec.Ev("item-attributes-changed")
					rec.Nontrivial = true
				}
			case KItemList, KItemIn:
				if r.OK && e.OK && op.Limit == nil {
					its, err := readItems(r.Body)
					if err != nil {
						return err.Error()
					}
					for _, it := range its {
						if w, ok := post.Items[it.Id]; ok && w != it {
							return fmt.Sprintf("listed %+v, but it is %+v", it, w)
						}
					}
				}
			case KNest, KFree, KRelCreate, KRelSet, KRelClear, KRelDelete, KRelCF, KRelCS:
				if v := DiffItems(pre, post); v != "" {
					return "item attributes changed: " + v
				}
			}
			return ""
		}
	}
	register(&Prop{ID: "C03", Quick: 5200, Thorough: 60000,
		Rule: "cases are seeded sequences of item commands among others; after every command the answer and every view of every item (fetch, listing, component listing, as a parent, as a relationship end, world text) are compared with a model; non-trivial: an existing item's attributes were changed",
		Need: []string{"item-attributes-changed", "cmd:item-clear:ok", "cmd:item-create-or-set:ok", "cmd:item-set:err"},
		Families: []Family{
			{Name: "mixed", Weight: 30, Gen: mixed(itemHeavy, 10, 60), Run: stateRun(c03)},
			{Name: "big", Weight: 1, Gen: bigWorld(itemHeavy, 130, 60), Run: stateRun(c03)},
		}})

	// C04: relationship commands.
	relHeavy := mutWeights.with(Weights{KRelCreate: 12, KRelSet: 9, KRelClear: 6, KRelDelete: 6, KRelCF: 6, KRelCS: 8, KRelFetch: 4, KRelExists: 3, KRelList: 2, KItemSet: 5, KItemCS: 3, KNest: 4, KItemDelete: 2})
	c04 := func(rec *Rec) stepCheck {
		return func(op Op, r Resp, e Exp, pre, post, want *Snap, pr Problems) string {
			if pr.Rels != "" {
				return pr.Rels
			}
			if pr.RelEnds != "" {
				return pr.RelEnds
			}
			if relKinds[op.K] && !(op.K == KRelFetch && !op.Strict) {
				if v := matchResp(r, e, post); v != "" {
					return v
				}
				if v := Diff(want, post); v != "" {
					return v
				}
				p, rev := Pair{op.A, op.B}, Pair{op.B, op.A}
				_, had := pre.Rels[p]
				_, hadRev := pre.Rels[rev]
				if had && pre.Rels[p] != post.Rels[p] {
					rec.Ev("existing-rel-changed-or-deleted")
					if hadRev && p != rev {
						rec.Ev("changed-next-to-its-reverse")
						rec.Nontrivial = true
					}
				}
			}
			switch op.K {
			case KItemCreate, KItemSet, KItemClear, KItemCF, KItemCS, KNest, KFree:
				if v := DiffRels(pre, post); v != "" {
					return "relationships changed: " + v
				}
			}
			return ""
		}
	}
	// c04pairs uses the world API with ids that need not be in the grammar, most of them concatenations of the same few pieces.
	c04pairs := func(c *Case, rec *Rec) {
		r := newRng(c.Seed, "C04pairs", c.N)
		ids := c.Ops[0].Ids
		w := world.CreateWorld("w")
		m := map[Pair]MRel{}
		for _, id := range ids {
			w.ItemCreate(id, world.ItemParams{})
		}
		both := 0
		for i := 0; i < c.Ints["n"]; i++ {
			p := Pair{r.pick(ids), r.pick(ids)}
			old, had := m[p]
			v := fmt.Sprintf("verb %d", i)
			var got world.Rel
			var err error
			var want MRel
			what := ""
			switch {
			case !had:
				what = "create"
				got, err = w.RelCreate(p.From, p.To, world.RelParams{Verb: &v}).Rel()
				want = MRel{P: p, Verb: v}
				m[p] = want
			case r.chance(0.5):
				what = "set"
				got, err = w.RelSet(p.From, p.To, world.RelParams{Mechanism: &v}).Rel()
				want = old
				want.Mech = v
				m[p] = want
			default:
				what = "delete"
				err = w.RelDelete(p.From, p.To).Err()
				delete(m, p)
			}
			if err != nil || what != "delete" && mrel(got) != want {
				rec.Fail("step %d, world API, %s %q: reported %+v %v, expected %+v", i, what, p, mrel(got), err, want)
				return
			}
			if _, ok := m[Pair{p.To, p.From}]; ok {
				both++
			}
			var all []MRel
			for _, x := range m {
				all = append(all, x)
			}
			if v := relsEqualAsSets(all, mrels(w.RelList(0))); v != "" {
				rec.Fail("step %d, world API, %s %q: %s", i, what, p, v)
				return
			}
			if i%10 != 9 {
				continue
			}
			for _, a := range ids {
				for _, b := range ids {
					var want []MRel
					if x, ok := m[Pair{a, b}]; ok {
						want = append(want, x)
					}
					if v := relsEqualAsSets(want, mrels(w.RelFetch(a, b, true))); v != "" {
						rec.Fail("step %d, world API, after %s %q: fetching %q %q: %s", i, what, p, a, b, v)
						return
					}
				}
			}
			rec.Ev("all-pairs-fetched")
			rec.State(fmt.Sprint(m))
		}
		rec.Nontrivial = both > 3
	}
	register(&Prop{ID: "C04", Quick: 5200, Thorough: 60000,
		Rule: "cases are seeded sequences of relationship commands among others over pools of confusable ids (ids with '::', prefixes, spaces, quotes needed); after every command the answer, all relationships with their end items, strict fetches of every pair and its reverse and the world text are compared with a model; non-trivial: a relationship was changed or deleted while its reverse existed",
		Need: []string{"existing-rel-changed-or-deleted", "changed-next-to-its-reverse", "cmd:rel-create:err", "all-pairs-fetched"},
		Families: []Family{
			{Name: "mixed", Weight: 150, Gen: mixed(relHeavy, 10, 60), Run: stateRun(c04)},
			hugeFamily(1030, 1500, hugeC04),
			{Name: "big", Weight: 5, Gen: bigWorld(relHeavy, 130, 60), Run: stateRun(c04)},
			{Name: "pairs", Weight: 10, Gen: func(r *Rng, c *Case, th bool) {
				pieces := r.sub([]string{"a", "b", ":", "::", "\"", "\\", "|", "->", ",", "/", "\x00", " ", "\n", "%s", "é", "e\u0301", "A", "\"::\"", "\\\"", "."}, 4)
				for len(c.Ops) == 0 || len(c.Ops[0].Ids) < 4 {
					var ids []string
					for n := r.between(6, 12); n > 0; n-- {
						id := ""
						for k := r.between(1, 4); k > 0; k-- {
							id += r.pick(pieces)
						}
						ids = append(ids, id)
					}
					c.Ops = []Op{{K: "pairs", Ids: uniq(ids)}}
				}
				c.Ints = map[string]int{"n": r.between(60, 200)}
			}, Run: c04pairs},
		}})

	// C05: relationship queries.
	c05 := func(c *Case, rec *Rec) {
		s, made, ops := start(c, rec)
		every := max(1, len(ops)/4)
		look := s
		if c.Ints["blind"] > 1 { // this world is only asked what the commands ask; another one tells what there is
			look = newSess("w", nil, c.Ops)
			for _, op := range made {
				look.exec(op)
			}
			every = len(ops)
		}
		for i, op := range ops {
			pre := (*Snap)(nil)
			q := op.K == KTo || op.K == KFrom || op.K == KRelFetch || op.K == KRelExists
			if q {
				pre = snapQuick(look.w)
			}
			r := s.exec(op)
			if look != s && !q {
				look.exec(op)
			}
			if q {
				e := pre.Clone().Apply(op, r.OK)
				if v := matchResp(r, e, pre); v != "" {
					rec.Fail("step %d, %s: %s", i, op.Text, v)
					return
				}
				if !op.Strict && len(e.Rels) > 1 {
					rec.Ev("query-matching-several")
				}
			}
			if i%every != every-1 && i != len(ops)-1 {
				continue
			}
			// Ask every query the world API has.
			cur := snapQuick(s.w)
			rec.State(cur.Canon())
			ids := cur.SortedIds()
			ids = append(ids, "no-such-item", "")
			if len(ids) > 20 {
				ids = ids[:20]
			}
			for _, a := range ids {
				for _, strict := range []bool{true, false} {
					if v := relsEqualAsSets(cur.FromQuery(a, strict), mrels(s.w.RelFrom(a, strict))); v != "" {
						rec.Fail("RelFrom(%q, %v) after step %d: %s", a, strict, i, v)
						return
					}
					if v := relsEqualAsSets(cur.ToQuery(a, strict), mrels(s.w.RelTo(a, strict))); v != "" {
						rec.Fail("RelTo(%q, %v) after step %d: %s", a, strict, i, v)
						return
					}
					rec.EvN("world-rel-query", 2)
					if n := len(cur.FromQuery(a, strict)); !strict && n > len(cur.FromQuery(a, true)) {
						rec.Ev("descendants-matched")
						rec.Nontrivial = true
					}
					for _, b := range ids {
						if v := relsEqualAsSets(cur.FetchQuery(a, b, strict), mrels(s.w.RelFetch(a, b, strict))); v != "" {
							rec.Fail("RelFetch(%q, %q, %v) after step %d: %s", a, b, strict, i, v)
							return
						}
						rec.Ev("world-rel-query")
					}
				}
			}
		}
	}
	queryHeavy := Weights{KItemCF: 3, KNest: 10, KFree: 2, KItemDelete: 2, KRelCreate: 10, KRelDelete: 3, KItemSet: 1, KRelFetch: 10, KTo: 8, KFrom: 8, KRelExists: 3}
	register(&Prop{ID: "C05", Quick: 5200, Thorough: 60000,
		Rule: "cases are seeded sequences that build nested worlds with relationships and ask from/to/fetch/exists queries through commands, strict and not; at several points every item (pair) is asked through the world API as well; answers are compared with the closure computed by the model; non-trivial: a non-strict query matched relationships of items nested below",
		Need: []string{"descendants-matched", "query-matching-several", "cmd:rel-fetch:err", "cmd:to?:ok"},
		Families: []Family{
			{Name: "mixed", Weight: 150, Gen: mixed(queryHeavy, 10, 50), Run: c05},
			hugeFamily(1030, 1500, hugeC05),
			{Name: "big", Weight: 5, Gen: bigWorld(queryHeavy, 150, 60), Run: c05},
		}})

	// C06: deletion.
	delHeavy := mutWeights.with(Weights{KItemDelete: 14, KItemCreate: 8, KItemCF: 5, KNest: 12, KRelCreate: 9})
	c06 := func(rec *Rec) stepCheck {
		deleted := map[string]bool{}
		return func(op Op, r Resp, e Exp, pre, post, want *Snap, pr Problems) string {
			if pr.Dangle != "" {
				return pr.Dangle
			}
			switch op.K {
			case KItemDelete:
				if v := matchResp(r, e, post); v != "" {
					return v
				}
				if v := Diff(want, post); v != "" {
					return v
				}
				if pr.Forest != "" {
					return pr.Forest
				}
				if pre.has(op.A) {
					deleted[op.A] = true
					if n := len(pre.Rels) - len(post.Rels); n > 0 {
						rec.EvN("rels-deleted-with-item", n)
					}
					if len(pre.Children(op.A)) > 0 {
						rec.Ev("components-moved-up")
						if pre.Parent[op.A] != "" {
							rec.Ev("components-moved-to-parent")
							rec.Nontrivial = true
						}
					}
				}
			case KItemCreate, KItemCF, KItemCS:
				if deleted[op.A] && !pre.has(op.A) {
					rec.Ev("created-again")
					if v := Diff(want, post); v != "" {
						return "created again after deletion: " + v
					}
				}
			default:
				if !queryKinds[op.K] && slices.Equal(pre.SortedIds(), post.SortedIds()) == false {
					return "items appeared or disappeared: " + DiffItems(pre, post)
				}
			}
			return ""
		}
	}
	register(&Prop{ID: "C06", Quick: 5200, Thorough: 60000,
		Rule: "cases are seeded sequences with many deletions of items that have components, parents and relationships, and re-creation of deleted ids; after every command the whole world is compared with a model and every view is searched for mentions of ids that do not exist; non-trivial: a nested item with components was deleted",
		Need: []string{"components-moved-to-parent", "created-again", "rels-deleted-with-item"},
		Families: []Family{
			{Name: "mixed", Weight: 150, Gen: mixed(delHeavy, 10, 60), Run: stateRun(c06)},
			{Name: "deep", Weight: 60, Gen: deepDeletes(delHeavy), Run: stateRun(c06)},
			hugeFamily(1030, 1300, hugeSteps(5, diffAll, nil)),
			{Name: "big", Weight: 5, Gen: bigWorld(delHeavy, 130, 60), Run: stateRun(c06)},
		}})

	// C10: failed commands.
	failHeavy := mutWeights.with(Weights{KNest: 14, KFree: 7, KGarbage: 6, KItemFetch: 2, KItemIn: 2, KRelFetch: 2, KItemSet: 5, KRelSet: 5})
	c10 := func(c *Case, rec *Rec) {
		s, _, ops := start(c, rec)
		var hist []string
		s.blind = c.Ints["blind"]
		s.drive(ops, isBig(c), func(op Op, r Resp, e Exp, pre, post, want *Snap, pr Problems) string {
			defer func() { hist = histTexts(s.a) }()
			if r.OK || r.Bad != "" {
				return ""
			}
			if v := Diff(pre, post); v != "" {
				return "answered with an error, but the world changed: " + v
			}
			if h := histTexts(s.a); !slices.Equal(h, hist) {
				return fmt.Sprintf("answered with an error, but the history changed from %d to %d commands", len(hist), len(h))
			}
			rec.Ev("failed-and-unchanged")
			if op.K == KNest || op.K == KFree {
				good, bad := 0, 0
				for _, id := range op.Ids {
					if pre.has(id) && !(op.K == KNest && pre.has(op.B) && pre.Under(op.B, id)) {
						good++
					} else {
						bad++
					}
				}
				if good > 0 && bad > 0 {
					rec.Ev("partly-valid-list-refused")
					rec.Nontrivial = true
				}
			}
			return ""
		})
	}
	register(&Prop{ID: "C10", Quick: 3600, Thorough: 60000,
		Rule: "cases are seeded sequences rich in commands that fail: unknown ids, cycles, lists of which only some ids are valid, invalid text; around every command that is answered with an error the world and the history must be the same; non-trivial: a list of which only a part was valid was refused",
		Need: []string{"failed-and-unchanged", "partly-valid-list-refused", "cmd:garbage:err"},
		Families: []Family{
			hugeFamily(1030, 1300, hugeC10),
			{Name: "mixed", Weight: 150, Gen: func(r *Rng, c *Case, th bool) {
				g := newGen(r, r.idPool())
				c.Ops = g.seedOps(r.between(2, len(g.Pool)), r.between(0, 6), 0.6)
				g.Pool = append(g.Pool, "no-such-item", "nothing here")
				g.Miss = 0.35
				c.Ops = append(c.Ops, g.ops(r.between(10, 60), failHeavy)...)
			}, Run: c10},
			{Name: "big", Weight: 6, Gen: bigWorld(failHeavy, 130, 60), Run: c10},
		}})

	// C11: queries.
	c11w := mutWeights.with(Weights{KItemFetch: 5, KItemList: 5, KItemIn: 5, KItemExists: 3, KIn: 4, KRelFetch: 6, KRelList: 4, KRelExists: 3, KTo: 6, KFrom: 6, KWorld: 4})
	c11 := func(c *Case, rec *Rec) {
		s := newSess("w", rec, c.Ops)
		twin := newSess("w", nil, c.Ops) // never asked anything
		ask := newRng(c.Seed, "C11ask", c.N)
		// unasked compares the answer with one of an application that was never asked anything else.
		unasked := func(i int, op Op) string {
			if c.Fam != "again" && (isBig(c) && !ask.chance(0.05) || !ask.chance(0.25)) {
				return ""
			}
			s2 := newSess("w", nil, nil)
			for _, o := range c.Ops[:i] {
				if !queryKinds[o.K] {
					s2.exec(o)
				}
			}
			r1, r2 := s.exec(op), s2.exec(op)
			if op.K == KRelFetch && !op.Strict && r1.OK && r2.OK {
				return ""
			}
			rec.Ev("compared-with-first-query")
			if v := sameAnswer(op, r2, r1); v != "" {
				return "asked in a world where no query was asked before, " + v
			}
			return ""
		}
		for i, op := range c.Ops {
			fail := func(format string, a ...any) {
				rec.Fail("step %d, %s: %s", i, op.Text, fmt.Sprintf(format, a...))
			}
			if !queryKinds[op.K] {
				r1, r2 := s.exec(op), twin.exec(op)
				if r1.OK != r2.OK || r1.Body != r2.Body || r1.Code != r2.Code || r1.Message != r2.Message {
					fail("answered %q, but %q where no query was asked before", clip(r1.Raw), clip(r2.Raw))
					return
				}
				continue
			}
			if v := unasked(i, op); v != "" {
				fail("%s", v)
				return
			}
			if c.Ints["blind"] > 1 { // nothing but the commands; the twin shows whether anything changed
				r1 := s.exec(op)
				if v := sameAnswer(op, r1, s.exec(op)); v != "" {
					fail("asked again, %s", v)
					return
				}
				if r1.OK {
					rec.Ev("query-unobserved")
				}
				continue
			}
			pre, _ := snapFull(s.w, nil)
			r1 := s.exec(op)
			mid, _ := snapFull(s.w, nil)
			if v := Diff(pre, mid); v != "" {
				fail("the query changed the world: %s", v)
				return
			}
			r2 := s.exec(op)
			if v := sameAnswer(op, r1, r2); v != "" {
				fail("asked again, %s", v)
				return
			}
			// The World's own queries.
			askEverything(s.w, s.ids)
			post, _ := snapFull(s.w, nil)
			if v := Diff(pre, post); v != "" {
				fail("asking the world changed it: %s", v)
				return
			}
			rec.State(post.Canon())
			if r1.OK && len(pre.Items) > 1 {
				rec.Nontrivial = true
			}
		}
		if v := Diff(snapQuick(twin.w), snapQuick(s.w)); v != "" {
			rec.Fail("the world differs from one where no query was asked: %s", v)
		}
	}
	register(&Prop{ID: "C11", Quick: 4000, Thorough: 40000,
		Rule: "cases are seeded sequences mixing queries with changes; every query is asked twice with full snapshots around it, and a twin application executes the same changes without any query and must answer them alike and end in the same world; non-trivial: a query was answered in a world of several items",
		Need: []string{"compared-with-first-query", "query-unobserved", "cmd:from?:ok", "cmd:item-in:ok", "cmd:world:ok", "cmd:rel-fetch:ok", "cmd:in?:ok"},
		Families: []Family{
			{Name: "mixed", Weight: 40, Gen: mixed(c11w, 10, 50), Run: c11},
			{Name: "big", Weight: 1, Gen: bigWorld(c11w, 60, 30), Run: c11},
			// The same questions over and over, with few changes of few kinds in between.
			{Name: "again", Weight: 8, Gen: func(r *Rng, c *Case, th bool) {
				g := newGen(r, r.idPool())
				c.Ops = g.seedOps(r.between(3, len(g.Pool)), r.between(1, 6), 0.7)
				var asked []Op
				for len(asked) < 5 {
					op := g.op(g.kind(c11w))
					if queryKinds[op.K] {
						asked = append(asked, op)
					}
				}
				w := Weights{}
				for _, k := range r.sub([]string{KItemCreate, KItemSet, KItemClear, KItemDelete, KItemCS, KNest, KFree, KRelCreate, KRelSet, KRelClear, KRelDelete, KRelCS}, r.between(2, 5)) {
					w[k] = r.between(1, 5)
				}
				for i := r.between(3, 6); i > 0; i-- {
					c.Ops = append(c.Ops, asked...)
					for k := r.between(1, 4); k > 0; k-- {
						if g.chance(0.3) {
							c.Ops = append(c.Ops, g.again(w.with(Weights{KItemDelete: 1, KItemCreate: 1, KRelCreate: 1}))...)
							continue
						}
						op := g.op(g.kind(w))
						g.M.Apply(op, false)
						c.Ops = append(c.Ops, op)
					}
				}
				c.Ops = append(c.Ops, asked...)
			}, Run: c11},
		}})

	// C22: listings.
	listHeavy := Weights{KItemCreate: 6, KItemCF: 3, KItemDelete: 4, KNest: 6, KFree: 2, KRelCreate: 8, KRelDelete: 3, KItemSet: 2, KRelSet: 2, KItemList: 10, KRelList: 10, KItemIn: 10}
	c22 := func(c *Case, rec *Rec) {
		s, made, ops := start(c, rec)
		look := s
		if c.Ints["blind"] > 1 {
			look = newSess("w", nil, c.Ops)
			for _, op := range made {
				look.exec(op)
			}
		}
		for i, op := range ops {
			if op.K != KItemList && op.K != KRelList && op.K != KItemIn {
				s.exec(op)
				if look != s {
					look.exec(op)
				}
				continue
			}
			pre, _ := contentByQueries(look.w, s.ids)
			r := s.exec(op)
			e := pre.Clone().Apply(op, r.OK)
			if v := matchResp(r, e, pre); v != "" {
				rec.Fail("step %d, %s: %s", i, op.Text, v)
				return
			}
			rec.State(pre.Canon())
			all := len(pre.Items)
			if op.K == KRelList {
				all = len(pre.Rels)
			}
			if op.Limit != nil && *op.Limit > 0 && *op.Limit < all {
				rec.Ev("limit-cuts")
				rec.Nontrivial = true
			}
			if look != s {
				rec.Ev("listing-unobserved-before")
				continue
			}
			if op.K == KItemIn && pre.has(op.A) {
				want := pre.Children(op.A)
				got, ok := s.w.Components(op.A)
				its, ok2 := s.w.ItemComponents(op.A)
				var in []string
				for _, it := range its {
					in = append(in, it.Id)
				}
				if !ok || !ok2 || !slices.Equal(sortedCopy(got), want) || !slices.Equal(sortedCopy(in), want) {
					rec.Fail("after step %d, item %q has the components %q and the component items %q, but those in it are %q", i, op.A, got, in, want)
					return
				}
				rec.Ev("components-listed")
			}
			for _, l := range []int{0, 1, 2, all - 1, all, all + 1, hugeLimits[i%len(hugeLimits)]} {
				if l < 0 {
					continue
				}
				if v := limitedItems(pre.allItems(), mitems(s.w.ItemList(l)), l); v != "" {
					rec.Fail("ItemList(%d) after step %d: %s", l, i, v)
					return
				}
				if v := limitedRels(pre.relsWhere(func(Pair) bool { return true }), mrels(s.w.RelList(l)), l); v != "" {
					rec.Fail("RelList(%d) after step %d: %s", l, i, v)
					return
				}
				rec.EvN("world-listing", 2)
			}
		}
	}
	register(&Prop{ID: "C22", Quick: 2700, Thorough: 60000,
		Rule: "cases are seeded sequences that create, delete and nest and list items, relationships and components with limits 0, 1, n-1, n, n+1 and huge, through commands and the world API; what exists is established by fetching every id and pair the case mentions, not by listing; non-trivial: a limit cut a listing short",
		Need: []string{"limit-cuts", "components-listed", "cmd:item-in:ok", "cmd:item-in:err", "cmd:rel-list:ok"},
		Families: []Family{
			{Name: "mixed", Weight: 150, Gen: mixed(listHeavy, 10, 50), Run: c22},
			hugeFamily(1030, 2600, hugeC22),
			{Name: "big", Weight: 5, Gen: bigWorld(Weights{KItemList: 5, KRelList: 5, KItemIn: 10, KItemDelete: 2, KRelDelete: 1}, 300, 25), Run: c22},
		}})
}

// deepDeletes makes chains and bushes and then deletes inside them, with little else.
func deepDeletes(w Weights) func(r *Rng, c *Case, thorough bool) {
	return func(r *Rng, c *Case, thorough bool) {
		g := newGen(r, r.idPool())
		add := func(op Op) {
			g.render(&op)
			g.M.Apply(op, false)
			c.Ops = append(c.Ops, op)
		}
		for round := r.between(1, 3); round > 0; round-- {
			for i, id := range g.Pool {
				if r.chance(0.3) {
					add(Op{K: KItemCF, A: id})
				} else {
					add(Op{K: g.pick([]string{KItemCreate, KItemCS}), A: id, P: r.itemParams(1, 2)})
				}
				if i > 0 && r.chance(0.85) {
					add(Op{K: KNest, Ids: []string{id}, B: g.Pool[r.between(max(0, i-2), i-1)]})
				}
			}
			for i := r.between(0, 8); i > 0; i-- {
				add(Op{K: g.pick([]string{KRelCreate, KRelCS}), A: r.pick(g.Pool), B: r.pick(g.Pool), P: r.relParams(1, 2)})
			}
			for i := r.between(2, 6); i > 0; i-- {
				if r.chance(0.7) {
					add(Op{K: KItemDelete, A: r.pick(g.Pool)})
				} else {
					op := g.op(g.kind(w))
					g.M.Apply(op, false)
					c.Ops = append(c.Ops, op)
				}
			}
		}
	}
}

// contentByQueries takes the content by asking for each id and pair, without any listing.
func contentByQueries(w world.World, ids []string) (*Snap, error) {
	s := newSnap()
	s.Version, s.Id, s.Name, s.Expanded = w.Version(), w.Id(), w.Name(), w.Expanded()
	for _, id := range ids {
		if i, ok := w.ItemFetch(id); ok {
			s.Items[id] = mitem(i)
			s.Parent[id], _ = w.Parent(id)
		}
	}
	for a := range s.Items {
		for b := range s.Items {
			for _, r := range w.RelFetch(a, b, true) {
				s.Rels[Pair{a, b}] = mrel(r)
			}
		}
	}
	return s, nil
}

func histTexts(a app.App) []string {
	var out []string
	for _, c := range a.History() {
		out = append(out, c.String())
	}
	return out
}

// sameAnswer compares two answers to one question; listings may differ in order, and in what a limit or a
// non-strict fetch picks.
func sameAnswer(op Op, a, b Resp) string {
	if a.OK != b.OK || a.Code != b.Code {
		return fmt.Sprintf("answered %q, then %q", clip(a.Raw), clip(b.Raw))
	}
	if !a.OK {
		if a.Message != b.Message {
			return fmt.Sprintf("answered %q, then %q", clip(a.Raw), clip(b.Raw))
		}
		return ""
	}
	switch op.K {
	case KItemList, KItemIn:
		x, err1 := readItems(a.Body)
		y, err2 := readItems(b.Body)
		if err1 != nil || err2 != nil || len(x) != len(y) {
			return fmt.Sprintf("answered %q, then %q", clip(a.Raw), clip(b.Raw))
		}
		if op.Limit == nil || *op.Limit == 0 {
			return itemsEqualAsSets(x, y)
		}
	case KRelList, KTo, KFrom:
		x, err1 := readRels(a.Body)
		y, err2 := readRels(b.Body)
		if err1 != nil || err2 != nil || len(x) != len(y) {
			return fmt.Sprintf("answered %q, then %q", clip(a.Raw), clip(b.Raw))
		}
		if op.Limit == nil || *op.Limit == 0 {
			return relsEqualAsSets(x, y)
		}
	case KWorld:
		x, err1 := readWorldText(a.Body)
		y, err2 := readWorldText(b.Body)
		if err1 != nil || err2 != nil {
			return fmt.Sprintf("answered %q, then %q", clip(a.Raw), clip(b.Raw))
		}
		return Diff(x, y)
	case KRelFetch:
		if op.Strict && a.Body != b.Body {
			return fmt.Sprintf("answered %q, then %q", clip(a.Raw), clip(b.Raw))
		}
	default:
		if a.Body != b.Body {
			return fmt.Sprintf("answered %q, then %q", clip(a.Raw), clip(b.Raw))
		}
	}
	return ""
}

// askEverything asks the world every query it has.
func askEverything(w world.World, ids []string) {
	if len(ids) > 8 {
		ids = ids[:8]
	}
	for _, a := range append(append([]string{}, ids...), "", "no-such-item") {
		w.ItemFetch(a)
		w.ItemParent(a)
		w.ItemComponents(a)
		w.Parent(a)
		w.Components(a)
		for _, st := range []bool{true, false} {
			w.RelFrom(a, st)
			w.RelTo(a, st)
			for _, b := range ids {
				w.In(a, b, st)
				w.RelFetch(a, b, st)
			}
		}
	}
	w.ItemList(0)
	w.ItemList(1)
	w.RelList(0)
	w.RelList(1)
	_ = w.String()
	w.Err()
	world.WorldEqual(w, w)
	_, _ = grammar.Parse("world")
}
