package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/williamflynt/topolith/pkg/world"
)

func mitem(i world.Item) MItem {
	return MItem{Id: i.Id, Type: world.StringFromItemType(i.Type), Name: i.Name, Mech: i.Mechanism, Exp: i.Expanded, Ext: i.External}
}

func mrel(r world.Rel) MRel {
	return MRel{P: Pair{r.From.Id, r.To.Id}, Verb: r.Verb, Mech: r.Mechanism, Exp: r.Expanded, Async: r.Async}
}

func mitems(is []world.Item) []MItem {
	out := make([]MItem, 0, len(is))
	for _, i := range is {
		out = append(out, mitem(i))
	}
	return out
}

func mrels(rs []world.Rel) []MRel {
	out := make([]MRel, 0, len(rs))
	for _, r := range rs {
		out = append(out, mrel(r))
	}
	return out
}

// Problems are disagreements between the views of one world.
type Problems struct {
	Items   string // views of an item's attributes disagree
	Forest  string // views of containment disagree, or it is no forest
	Rels    string // views of relationships disagree
	Dangle  string // something mentions an item that doesn't exist
	Text    string // the world's text cannot be read
	RelEnds string // a relationship's copy of an end item is stale
}

func (p Problems) Any() string {
	for _, x := range []string{p.Items, p.Forest, p.Rels, p.RelEnds, p.Dangle, p.Text} {
		if x != "" {
			return x
		}
	}
	return ""
}

func set(dst *string, format string, args ...any) {
	if *dst == "" {
		*dst = fmt.Sprintf(format, args...)
	}
}

func sortedCopy(a []string) []string {
	b := append([]string{}, a...)
	sort.Strings(b)
	return b
}

// snapQuick takes the content of the world from its listings only.
func snapQuick(w world.World) *Snap {
	s := newSnap()
	s.Version, s.Id, s.Name, s.Expanded = w.Version(), w.Id(), w.Name(), w.Expanded()
	for _, i := range w.ItemList(0) {
		s.Items[i.Id] = mitem(i)
		p, _ := w.Parent(i.Id)
		s.Parent[i.Id] = p
	}
	for _, r := range w.RelList(0) {
		s.Rels[Pair{r.From.Id, r.To.Id}] = mrel(r)
	}
	return s
}

// snapFull takes the content of the world and cross-checks every view the world gives of it.
// extra are ids to ask about although they may not exist.
func snapFull(w world.World, extra []string) (*Snap, Problems) {
	var pr Problems
	s := newSnap()
	s.Version, s.Id, s.Name, s.Expanded = w.Version(), w.Id(), w.Name(), w.Expanded()

	list := w.ItemList(0)
	raw := map[string]world.Item{}
	for _, i := range list {
		if _, dup := s.Items[i.Id]; dup {
			set(&pr.Items, "item %q is listed twice", i.Id)
		}
		s.Items[i.Id] = mitem(i)
		raw[i.Id] = i
	}
	ids := s.SortedIds()
	for _, id := range ids {
		p, ok := w.Parent(id)
		if !ok {
			set(&pr.Forest, "item %q exists but has no place in the containment", id)
		}
		s.Parent[id] = p
		if p != "" && !s.has(p) {
			set(&pr.Dangle, "item %q is in %q, which does not exist", id, p)
			set(&pr.Forest, "item %q is in %q, which does not exist", id, p)
		}
	}
	// No cycles.
	for _, id := range ids {
		x := id
		for n := 0; x != ""; n++ {
			if n > len(ids) {
				set(&pr.Forest, "item %q is in a containment cycle", id)
				break
			}
			x = s.Parent[x]
		}
	}
	for _, id := range ids {
		f, ok := w.ItemFetch(id)
		if !ok || mitem(f) != s.Items[id] {
			set(&pr.Items, "fetched item is %+v (%v), listed as %+v", mitem(f), ok, s.Items[id])
		}
		want := sortedCopy(s.Children(id))
		got, ok := w.Components(id)
		if !ok || strings.Join(sortedCopy(got), "\x00") != strings.Join(want, "\x00") {
			set(&pr.Forest, "components of %q are %q (%v), but the items whose parent it is are %q", id, sortedCopy(got), ok, want)
		}
		comps, ok := w.ItemComponents(id)
		cids := make([]string, 0)
		for _, c := range comps {
			cids = append(cids, c.Id)
			if it, ok := s.Items[c.Id]; ok && it != mitem(c) {
				set(&pr.Items, "as a component, item is %+v, listed as %+v", mitem(c), it)
			}
		}
		if !ok || strings.Join(sortedCopy(cids), "\x00") != strings.Join(want, "\x00") {
			set(&pr.Forest, "component items of %q are %q (%v), but the items whose parent it is are %q", id, sortedCopy(cids), ok, want)
		}
		for _, c := range append(append([]string{}, got...), cids...) {
			if !s.has(c) {
				set(&pr.Dangle, "item %q is a component of %q but does not exist", c, id)
			}
		}
		pi, ok := w.ItemParent(id)
		if !ok || pi.Id != s.Parent[id] {
			set(&pr.Forest, "parent item of %q is %q (%v), parent id is %q", id, pi.Id, ok, s.Parent[id])
		} else if pi.Id != "" && mitem(pi) != s.Items[pi.Id] {
			set(&pr.Items, "as a parent, item is %+v, listed as %+v", mitem(pi), s.Items[pi.Id])
		}
	}
	// Containment queries: all pairs in small worlds, a band of pairs otherwise.
	for i, a := range ids {
		for j, b := range ids {
			if a == b || (len(ids) > 14 && (i*7+j*13)%len(ids) > 6) {
				continue
			}
			if got, want := w.In(a, b, false), s.Under(a, b); got != want {
				set(&pr.Forest, "%q in %q is answered %v, but the parents say %v", a, b, got, want)
			}
		}
	}
	for _, x := range extra {
		if x == "" || s.has(x) {
			continue
		}
		if i, ok := w.ItemFetch(x); ok {
			set(&pr.Dangle, "item %q can be fetched (%+v) but is not listed", x, mitem(i))
		}
		if p, ok := w.Parent(x); ok {
			set(&pr.Dangle, "item %q does not exist but has a place, in %q", x, p)
			set(&pr.Forest, "item %q does not exist but has a place, in %q", x, p)
		}
		if c, ok := w.Components(x); ok || len(c) > 0 {
			set(&pr.Dangle, "item %q does not exist but has components %q", x, c)
		}
		for _, id := range ids {
			if w.In(x, id, false) || w.In(id, x, false) {
				set(&pr.Dangle, "item %q does not exist but is in, or contains, %q", x, id)
				set(&pr.Forest, "item %q does not exist but is in, or contains, %q", x, id)
			}
		}
		if r := w.RelFrom(x, true); len(r) > 0 {
			set(&pr.Dangle, "item %q does not exist but %d rels are from it", x, len(r))
		}
		if r := w.RelTo(x, true); len(r) > 0 {
			set(&pr.Dangle, "item %q does not exist but %d rels are to it", x, len(r))
		}
	}

	for _, r := range w.RelList(0) {
		p := Pair{r.From.Id, r.To.Id}
		if _, dup := s.Rels[p]; dup {
			set(&pr.Rels, "rel %q is listed twice", p)
		}
		s.Rels[p] = mrel(r)
		for _, e := range []world.Item{r.From, r.To} {
			if !s.has(e.Id) {
				set(&pr.Dangle, "rel %q has end %q, which does not exist", p, e.Id)
			} else if mitem(e) != s.Items[e.Id] {
				set(&pr.RelEnds, "as an end of rel %q, item is %+v, listed as %+v", p, mitem(e), s.Items[e.Id])
			}
		}
	}
	for _, p := range s.SortedPairs() {
		f := w.RelFetch(p.From, p.To, true)
		if len(f) != 1 || mrel(f[0]) != s.Rels[p] {
			set(&pr.Rels, "rel %q is fetched as %+v, listed as %+v", p, mrels(f), s.Rels[p])
		} else {
			for _, e := range []world.Item{f[0].From, f[0].To} {
				if s.has(e.Id) && mitem(e) != s.Items[e.Id] {
					set(&pr.RelEnds, "as an end of fetched rel %q, item is %+v, listed as %+v", p, mitem(e), s.Items[e.Id])
				}
			}
		}
		rev := Pair{p.To, p.From}
		if _, ok := s.Rels[rev]; !ok {
			if f := w.RelFetch(rev.From, rev.To, true); len(f) != 0 {
				set(&pr.Rels, "rel %q does not exist but is fetched as %+v", rev, mrels(f))
			}
		}
	}

	text := w.String()
	t, err := readWorldText(text)
	if err != nil {
		set(&pr.Text, "the world's text cannot be read: %v", err)
	} else {
		if x := strings.Join(DiffInfo(s, t), "; "); x != "" {
			set(&pr.Text, "world text: %s", x)
		}
		if x := DiffItems(s, t); x != "" {
			set(&pr.Items, "world text: %s", x)
		}
		if x := DiffForest(s, t); x != "" {
			set(&pr.Forest, "world text: %s", x)
		}
		if x := DiffRels(s, t); x != "" {
			set(&pr.Rels, "world text: %s", x)
		}
		for _, id := range t.SortedIds() {
			if !s.has(id) {
				set(&pr.Dangle, "the world's text mentions item %q, which does not exist", id)
				set(&pr.Forest, "the world's text has item %q, which does not exist", id)
			}
		}
	}
	return s, pr
}
