package main

import (
	"fmt"
	"slices"
	"strings"

	"github.com/williamflynt/topolith/pkg/app"
	"github.com/williamflynt/topolith/pkg/grammar"
	"github.com/williamflynt/topolith/pkg/world"
)

// huge is a world of more than a thousand items, made through the world API next to its model.
type huge struct {
	r   *Rng
	w   world.World
	a   app.App
	m   *Snap
	ids []string
	hub string
	mid string // an item in hub with components of its own
}

func newHuge(r *Rng, n int) *huge {
	h := &huge{r: r, w: world.CreateWorld("w"), ids: r.bigPool(n)}
	h.m = snapQuick(h.w)
	h.hub, h.mid = h.ids[0], h.ids[1]
	for i, id := range h.ids {
		it := MItem{Id: id}
		if i%37 == 0 {
			it = applyItemAttrs(it, r.itemParams(0, 3))
		}
		h.w.ItemCreate(id, itemParams(it))
		h.m.Items[id], h.m.Parent[id] = it, ""
	}
	shape := r.IntN(4)
	place := func(id, p string) {
		h.w.Nest(id, p)
		h.m.Parent[id] = p
	}
	place(h.mid, h.hub)
	for i, id := range h.ids[2:] {
		switch {
		case shape == 0:
			place(id, h.hub)
		case shape == 1 && i < 200: // a chain, then a star
			place(id, h.ids[i+1])
		case shape == 2:
			place(id, r.pick([]string{h.hub, h.mid}))
		case shape == 3 && r.chance(0.9):
			place(id, h.ids[r.IntN(min(i+2, 60))])
		case shape == 1:
			place(id, h.mid)
		}
	}
	rel := func(a, b string) {
		p := Pair{a, b}
		if _, ok := h.m.Rels[p]; ok {
			return
		}
		v := MRel{P: p}
		if r.chance(0.05) {
			v = applyRelAttrs(v, r.relParams(0, 3))
		}
		h.w.RelCreate(a, b, relParams(v))
		h.m.Rels[p] = v
	}
	dir := r.IntN(3)
	for i, id := range h.ids {
		switch {
		case dir == 0:
			rel(h.hub, id)
		case dir == 1:
			rel(id, h.hub)
		case i%2 == 0:
			rel(id, r.pick(h.ids))
		default:
			rel(h.mid, id)
		}
		if i%10 == 0 {
			rel(id, r.pick(h.ids))
		}
	}
	h.a, _ = app.NewApp(h.w)
	return h
}

func (h *huge) exec(op Op) Resp {
	h.r.render(&op)
	return readResp(h.a.Exec(op.Text))
}

// closures are the items below each id, for many questions at once.
func (h *huge) relsOf(id string, from, strict bool) []MRel {
	in := map[string]bool{id: true}
	if !strict {
		in = h.m.closure(id)
	}
	return h.m.relsWhere(func(p Pair) bool { return from && in[p.From] || !from && in[p.To] })
}

// heavy is a command that concerns very many items.
func (h *huge) heavy(bad bool) Op {
	r := h.r
	some := func() []string {
		ids := r.sub(h.ids, r.pickInt(1, 100, 1000, len(h.ids)))
		var out []string
		for _, id := range ids {
			if h.m.has(id) {
				out = append(out, id)
			}
		}
		return out
	}
	var op Op
	switch r.IntN(4) {
	case 0:
		op = Op{K: KFree, Ids: some()}
	case 1:
		op = Op{K: KItemDelete, A: r.pick([]string{h.hub, h.mid, r.pick(h.ids)})}
	default:
		b := r.pick([]string{h.hub, h.mid, r.pick(h.ids)})
		op = Op{K: KNest, B: b}
		for _, id := range some() {
			if id != b && !h.m.Under(b, id) {
				op.Ids = append(op.Ids, id)
			}
		}
		if bad && h.m.Parent[b] != "" { // an ancestor, which would make a cycle
			op.Ids = append(op.Ids, h.m.Parent[b])
			return op
		}
	}
	if bad {
		if op.K == KItemDelete {
			op = Op{K: KFree, Ids: some()}
		}
		at := r.IntN(len(op.Ids) + 1)
		op.Ids = slices.Insert(op.Ids, at, "no-such-item")
	}
	if op.K != KItemDelete && len(op.Ids) == 0 {
		op = Op{K: KItemDelete, A: h.mid}
	}
	return op
}

// hugeFamily is a family of few but huge cases.
func hugeFamily(lo, hi int, run func(h *huge, rec *Rec) string) Family {
	return Family{Name: "huge", Weight: 1,
		Gen: func(r *Rng, c *Case, th bool) {
			n := r.between(lo, hi)
			if th && r.chance(0.3) {
				n *= 2
			}
			c.Ints = map[string]int{"items": n}
		},
		Run: func(c *Case, rec *Rec) {
			h := newHuge(newRng(c.Seed, c.Prop+"/huge-run", c.N), c.Ints["items"])
			rec.State(fmt.Sprint(c.N, c.Ints["items"], len(h.m.Rels)))
			rec.Ev("huge-world")
			if v := run(h, rec); v != "" {
				rec.Fail("a world of %d items and %d relationships, made through the world API: %s", len(h.m.Items), len(h.m.Rels), v)
			}
		}}
}

func short(op Op) string {
	if len(op.Ids) > 3 {
		return fmt.Sprintf("%s of %d items (%q, ...) and %q", op.K, len(op.Ids), op.Ids[:3], op.B)
	}
	return describe(op)
}

// diffPart compares with what the property is about.
type diffPart func(want, got *Snap) string

// hugeSteps executes heavy commands and compares the world after each.
func hugeSteps(n int, diff diffPart, more func(h *huge) string) func(h *huge, rec *Rec) string {
	return func(h *huge, rec *Rec) string {
		if v := Diff(h.m, snapQuick(h.w)); v != "" {
			if d := diff(h.m, snapQuick(h.w)); d != "" {
				return d
			}
			return "" // another property's concern
		}
		for i := 0; i < n; i++ {
			op := h.heavy(false)
			r := h.exec(op)
			want := h.m.Clone()
			e := want.Apply(op, r.OK)
			got := snapQuick(h.w)
			rec.Ev("huge-command")
			if e.OK != r.OK {
				return fmt.Sprintf("%s is answered %q", short(op), clip(r.Raw))
			}
			if v := diff(want, got); v != "" {
				return fmt.Sprintf("after %s: %s", short(op), v)
			}
			h.m = got
			if more != nil {
				if v := more(h); v != "" {
					return fmt.Sprintf("after %s: %s", short(op), v)
				}
			}
		}
		return ""
	}
}

func hugeForest(h *huge) string {
	byParent := map[string][]string{}
	for id, p := range h.m.Parent {
		byParent[p] = append(byParent[p], id)
	}
	ask := []string{h.hub, h.mid}
	for i := 0; i < 30; i++ {
		ask = append(ask, h.r.pick(h.ids))
	}
	for _, id := range ask {
		if !h.m.has(id) {
			continue
		}
		want := sortedCopy(byParent[id])
		got, _ := h.w.Components(id)
		if !slices.Equal(sortedCopy(got), want) {
			return fmt.Sprintf("item %q has %d components, but it is the parent of %d items", id, len(got), len(want))
		}
		its, _ := h.w.ItemComponents(id)
		if len(its) != len(want) {
			return fmt.Sprintf("item %q has %d component items, but it is the parent of %d items", id, len(its), len(want))
		}
		r := h.exec(Op{K: KItemIn, A: id})
		if l, err := readItems(r.Body); err != nil || len(l) != len(want) {
			return fmt.Sprintf("%d items are listed in %q, but it is the parent of %d items", len(l), id, len(want))
		}
		o := h.r.pick(h.ids)
		if h.m.has(o) && o != id && h.w.In(o, id, false) != h.m.Under(o, id) {
			return fmt.Sprintf("%q in %q is answered %v", o, id, h.w.In(o, id, false))
		}
	}
	t, err := readWorldText(h.w.String())
	if err != nil {
		return "the world's text cannot be read: " + err.Error()
	}
	if v := DiffForest(h.m, t); v != "" {
		return "world text: " + v
	}
	return DiffItems(h.m, t)
}

func diffAll(want, got *Snap) string { return Diff(want, got) }

func hugeC01(h *huge, rec *Rec) string {
	w := h.w
	for round := 1; round <= 2; round++ {
		w2, err := world.FromString(w.String())
		if err != nil {
			return fmt.Sprintf("its text, round %d, cannot be read: %s", round, clip(err.Error()))
		}
		if v := Diff(h.m, snapQuick(w2)); v != "" {
			return fmt.Sprintf("re-read, round %d: %s", round, v)
		}
		rec.Ev("huge-round-trip")
		w = w2
	}
	t, err := readWorldText(w.String())
	if err != nil {
		return "the re-read world's text cannot be read: " + err.Error()
	}
	return Diff(h.m, t)
}

func hugeC04(h *huge, rec *Rec) string {
	for i := 0; i < 60; i++ {
		ps := h.m.SortedPairs()
		p := ps[h.r.IntN(len(ps))]
		if h.r.chance(0.3) {
			p = Pair{p.To, p.From}
		}
		op := Op{K: h.r.pick([]string{KRelDelete, KRelSet, KRelCreate, KRelCS, KRelClear, KRelFetch, KRelExists}), A: p.From, B: p.To, Strict: true}
		switch op.K {
		case KRelSet, KRelCS, KRelCreate:
			op.P = h.r.relParams(1, 4)
			op.Strict = false
		case KRelClear:
			op.Keys = h.r.sub([]string{"verb", "mechanism", "expanded", "async"}, 2)
			op.Strict = false
		case KRelFetch:
		default:
			op.Strict = false
		}
		r := h.exec(op)
		e := h.m.Apply(op, r.OK)
		if v := matchResp(r, e, h.m); v != "" {
			return describe(op) + ": " + v
		}
		rec.Ev("huge-command")
	}
	return Diff(h.m, snapQuick(h.w))
}

func hugeC05(h *huge, rec *Rec) string {
	ask := []string{h.hub, h.mid, h.r.pick(h.ids), h.r.pick(h.ids), h.ids[len(h.ids)-1]}
	for _, id := range ask {
		for _, strict := range []bool{true, false} {
			from, to := h.relsOf(id, true, strict), h.relsOf(id, false, strict)
			if v := relsEqualAsSets(from, mrels(h.w.RelFrom(id, strict))); v != "" {
				return fmt.Sprintf("RelFrom(%q, %v): %s", id, strict, v)
			}
			if v := relsEqualAsSets(to, mrels(h.w.RelTo(id, strict))); v != "" {
				return fmt.Sprintf("RelTo(%q, %v): %s", id, strict, v)
			}
			for _, q := range []struct {
				k    string
				want []MRel
			}{{KFrom, from}, {KTo, to}} {
				r := h.exec(Op{K: q.k, A: id, Strict: strict})
				got, err := readRels(r.Body)
				if err != nil || !r.OK {
					return fmt.Sprintf("%s %q: %v %s", q.k, id, err, clip(r.Raw))
				}
				if v := relsEqualAsSets(q.want, got); v != "" {
					return fmt.Sprintf("%s %q strict=%v: %s", q.k, id, strict, v)
				}
			}
			rec.EvN("huge-query", 4)
			for k := 0; k < 2; k++ {
				o := h.r.pick([]string{h.hub, h.mid, h.r.pick(h.ids)})
				if v := relsEqualAsSets(h.m.FetchQuery(id, o, strict), mrels(h.w.RelFetch(id, o, strict))); v != "" {
					return fmt.Sprintf("RelFetch(%q, %q, %v): %s", id, o, strict, v)
				}
				rec.Ev("huge-query")
			}
		}
	}
	return ""
}

func hugeC07(h *huge, rec *Rec) string {
	for i := 0; i < 4; i++ {
		op := h.heavy(false)
		h.r.render(&op)
		cmd, err := toCommand(op.Text)
		if err != nil {
			return ""
		}
		pre := snapQuick(h.w)
		if _, err := cmd.Execute(h.w); err != nil {
			return ""
		}
		if err := cmd.Undo(h.w); err != nil {
			return fmt.Sprintf("undo of %s failed: %v", short(op), err)
		}
		if v := Diff(pre, snapQuick(h.w)); v != "" {
			return fmt.Sprintf("after %s and undo: %s", short(op), v)
		}
		rec.Ev("huge-command-undone")
		cmd, _ = toCommand(op.Text)
		cmd.Execute(h.w)
		h.m = snapQuick(h.w)
	}
	return ""
}

func hugeC10(h *huge, rec *Rec) string {
	for i := 0; i < 4; i++ {
		op := h.heavy(true)
		pre, n := snapQuick(h.w), len(h.a.History())
		r := h.exec(op)
		if r.OK || r.Bad != "" {
			return "" // another property's concern
		}
		if v := Diff(pre, snapQuick(h.w)); v != "" {
			return fmt.Sprintf("%s is answered with an error, but: %s", short(op), v)
		}
		if len(h.a.History()) != n {
			return fmt.Sprintf("%s is answered with an error, but the history changed", short(op))
		}
		rec.Ev("huge-command-refused")
	}
	return ""
}

func hugeC12(h *huge, rec *Rec) string {
	for _, op := range []Op{{K: KItemList}, {K: KRelList}, {K: KItemIn, A: h.hub}, {K: KFrom, A: h.hub}, {K: KTo, A: h.hub}, {K: KWorld}, h.heavy(true), h.heavy(false), {K: KItemList}} {
		h.r.render(&op)
		raw := h.a.Exec(op.Text)
		r := readResp(raw)
		if r.Bad != "" {
			return fmt.Sprintf("the response to %s, %q, is %s", short(op), clip(raw), r.Bad)
		}
		p, err := grammar.Parse(raw)
		if err != nil {
			return fmt.Sprintf("the response to %s, %q, is not valid grammar: %s", short(op), clip(raw), clip(err.Error()))
		}
		if p.Response.Status.Code != r.Code {
			return fmt.Sprintf("the response to %s is parsed with code %d, not %d", short(op), p.Response.Status.Code, r.Code)
		}
		if !r.OK && (r.Code < 400 || r.Code > 499 || strings.Trim(r.Message, " :") == "") {
			return fmt.Sprintf("the response to %s is %q", short(op), clip(raw))
		}
		rec.Ev("huge-response")
	}
	return ""
}

func hugeC13(h *huge, rec *Rec) string {
	for i := 0; i < 6; i++ {
		op := h.heavy(h.r.chance(0.3))
		h.r.render(&op)
		got, err := parsedAttrs(op.Text)
		if err != nil {
			return fmt.Sprintf("%s is not understood: %s", short(op), clip(err.Error()))
		}
		if v := diffAttrs(writtenAttrs(op), got); v != "" {
			return fmt.Sprintf("%s: %s", short(op), clip(v))
		}
		rec.Ev("huge-command-parsed")
	}
	return ""
}

func hugeC14(h *huge, rec *Rec) string {
	root, _, err := world.TreeFromString("")
	if err != nil {
		return err.Error()
	}
	// Parents first.
	var add func(t world.Tree, under string) string
	kids := map[string][]string{}
	for _, id := range h.m.SortedIds() {
		kids[h.m.Parent[id]] = append(kids[h.m.Parent[id]], id)
	}
	add = func(t world.Tree, under string) string {
		for _, id := range kids[under] {
			if err := t.AddOrMove(ptr(toItem(h.m.Items[id]))); err != nil {
				return err.Error()
			}
			if len(kids[id]) == 0 {
				continue
			}
			n, ok := root.Find(id)
			if !ok {
				return fmt.Sprintf("item %q was added but is not found", id)
			}
			if v := add(n, id); v != "" {
				return v
			}
		}
		return ""
	}
	if v := add(root, ""); v != "" {
		return v
	}
	trees := []world.Tree{root}
	for _, id := range []string{h.hub, h.mid} {
		if t, ok := root.Find(id); ok {
			trees = append(trees, t)
		}
	}
	for _, t := range trees {
		text := t.String()
		sc := &scanner{s: text}
		mt, err := sc.tree(0)
		if err != nil || !sc.eof() {
			return fmt.Sprintf("the tree is printed as %q: %v", clip(text), err)
		}
		back, its, err := world.TreeFromString(text)
		if err != nil || back == nil {
			return fmt.Sprintf("the tree text %q cannot be read: %v", clip(text), err)
		}
		if mt.Canon() != treeCanon(t, 0) || treeCanon(back, 0) != mt.Canon() {
			return "a tree, its text and the tree read from it differ"
		}
		want := map[string]MItem{}
		mt.items(want)
		if len(its) != len(want) {
			return fmt.Sprintf("%d items found in the text of a tree of %d", len(its), len(want))
		}
		rec.Ev("huge-tree-round-trip")
	}
	return ""
}

func hugeC17(h *huge, rec *Rec) string {
	body := strings.TrimRight(h.w.String(), " \t\r\n")
	cuts := []int{len(body) - 1, len(body) - 5, len(body) - 11, len(body) - 12, len(body) / 2, strings.LastIndex(body, "\n")}
	for i := 0; i < 6; i++ {
		cuts = append(cuts, h.r.IntN(len(body)))
	}
	for _, n := range cuts {
		if n < 0 {
			continue
		}
		if w, err := world.FromString(body[:n]); err == nil {
			return fmt.Sprintf("the first %d of %d characters of its text are read as a world with %d items", n, len(body), len(w.ItemList(0)))
		}
		rec.Ev("refused:a prefix of a huge world")
	}
	return ""
}

func hugeC19(h *huge, rec *Rec) string {
	other := construct(h.r, h.m)
	if v := Diff(h.m, snapQuick(other)); v != "" || Diff(h.m, snapQuick(h.w)) != "" {
		return ""
	}
	if !world.WorldEqual(h.w, other) {
		return "not equal to one with the same content built in another order"
	}
	rec.Ev("worlds-compared:true")
	ids := h.m.SortedIds()
	base, bw := h.m, h.w
	for k := 0; k < 10; k++ {
		if k == 6 { // Without relationships, which have items at their ends too.
			base = h.m.Clone()
			clear(base.Rels)
			bw = construct(h.r, base)
		}
		p, what := perturb(h.r, base)
		if k >= 4 { // one attribute of one item, from the first to the last
			p, what = base.Clone(), "one-item"
			i := h.r.IntN(len(ids))
			if k == 4 || k == 6 {
				i = len(ids) - 1
			}
			it := p.Items[ids[i]]
			switch h.r.IntN(4) {
			case 0:
				it.Name += "x"
			case 1:
				it.Mech += "x"
			case 2:
				it.Exp += "x"
			default:
				it.Ext = !it.Ext
			}
			p.Items[ids[i]] = it
		}
		if what == "" || Diff(base, p) == "" {
			continue
		}
		w := construct(h.r, p)
		if Diff(p, snapQuick(w)) != "" {
			continue
		}
		if world.WorldEqual(bw, w) || world.WorldEqual(w, bw) {
			return "equal to one that differs: " + Diff(base, p)
		}
		rec.Ev("worlds-compared:false")
	}
	return ""
}

func hugeC22(h *huge, rec *Rec) string {
	items, rels := h.m.allItems(), h.m.relsWhere(func(Pair) bool { return true })
	ls := []int{0, 1, 99, 100, 101, 255, 256, 257, 500, 512, 999, 1000, 1001, 1024, 1025, len(items) - 1, len(items), len(items) + 1, len(rels) - 1, len(rels), len(rels) + 1, h.r.IntN(len(items)), 1 << 30}
	for _, l := range ls {
		if v := limitedItems(items, mitems(h.w.ItemList(l)), l); v != "" {
			return fmt.Sprintf("ItemList(%d): %s", l, v)
		}
		if v := limitedRels(rels, mrels(h.w.RelList(l)), l); v != "" {
			return fmt.Sprintf("RelList(%d): %s", l, v)
		}
		rec.EvN("world-listing", 2)
	}
	for _, l := range append(ls[:2:2], h.r.pickInt(ls...), h.r.pickInt(ls...)) {
		for _, k := range []string{KItemList, KRelList} {
			op := Op{K: k, Limit: &l}
			if l == 0 && h.r.chance(0.5) {
				op.Limit = nil
			}
			r := h.exec(op)
			if v := matchResp(r, h.m.Clone().Apply(op, true), h.m); v != "" {
				return fmt.Sprintf("%s with limit %d: %s", k, l, v)
			}
			rec.Ev("huge-listing")
		}
	}
	for _, id := range []string{h.hub, h.mid} {
		op := Op{K: KItemIn, A: id}
		if v := matchResp(h.exec(op), h.m.Clone().Apply(op, true), h.m); v != "" {
			return fmt.Sprintf("item in %q: %s", id, v)
		}
		want := h.m.Children(id)
		got, _ := h.w.Components(id)
		its, _ := h.w.ItemComponents(id)
		if h.m.has(id) && (len(its) != len(want) || !slices.Equal(sortedCopy(got), want)) {
			return fmt.Sprintf("item %q has %d components and %d component items, but %d are in it", id, len(got), len(its), len(want))
		}
	}
	return ""
}
