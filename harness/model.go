package main

import (
	"fmt"
	"sort"
	"strings"
)

// The reference model: a forest of items with attributes, and at most one relationship per ordered pair.

// MItem is what an item is, as far as a user can see.
type MItem struct {
	Id, Type, Name, Mech, Exp string
	Ext                       bool
}

// Pair is an ordered pair of item ids.
type Pair struct{ From, To string }

// MRel is a relationship without its end items' attributes.
type MRel struct {
	P               Pair
	Verb, Mech, Exp string
	Async           bool
}

// Snap is the whole observable content of a world.
type Snap struct {
	Version            int
	Id, Name, Expanded string
	Items              map[string]MItem
	Parent             map[string]string // "" is the top level
	Rels               map[Pair]MRel
}

func newSnap() *Snap {
	return &Snap{Items: map[string]MItem{}, Parent: map[string]string{}, Rels: map[Pair]MRel{}}
}

func (s *Snap) Clone() *Snap {
	c := newSnap()
	c.Version, c.Id, c.Name, c.Expanded = s.Version, s.Id, s.Name, s.Expanded
	for k, v := range s.Items {
		c.Items[k] = v
	}
	for k, v := range s.Parent {
		c.Parent[k] = v
	}
	for k, v := range s.Rels {
		c.Rels[k] = v
	}
	return c
}

func (s *Snap) sortedPairs() []Pair {
	var ps []Pair
	for p := range s.Rels {
		ps = append(ps, p)
	}
	sort.Slice(ps, func(i, j int) bool {
		return ps[i].From < ps[j].From || ps[i].From == ps[j].From && ps[i].To < ps[j].To
	})
	return ps
}

func (s *Snap) SortedIds() []string {
	ids := make([]string, 0, len(s.Items))
	for id := range s.Items {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}

func (s *Snap) SortedPairs() []Pair {
	ps := make([]Pair, 0, len(s.Rels))
	for p := range s.Rels {
		ps = append(ps, p)
	}
	sort.Slice(ps, func(i, j int) bool {
		if ps[i].From != ps[j].From {
			return ps[i].From < ps[j].From
		}
		return ps[i].To < ps[j].To
	})
	return ps
}

// Canon is a canonical text of the content; parts can be left out.
func (s *Snap) Canon() string {
	var b strings.Builder
	fmt.Fprintf(&b, "v=%d id=%q name=%q exp=%q\n", s.Version, s.Id, s.Name, s.Expanded)
	for _, id := range s.SortedIds() {
		fmt.Fprintf(&b, "item %q in %q %+q\n", id, s.Parent[id], fmt.Sprintf("%#v", s.Items[id]))
	}
	for _, p := range s.SortedPairs() {
		fmt.Fprintf(&b, "rel %q %q %+q\n", p.From, p.To, fmt.Sprintf("%#v", s.Rels[p]))
	}
	return b.String()
}

// Diff describes how got differs from want, or is empty.
func Diff(want, got *Snap) string {
	d := DiffInfo(want, got)
	if x := DiffItems(want, got); x != "" {
		d = append(d, x)
	}
	if x := DiffForest(want, got); x != "" {
		d = append(d, x)
	}
	if x := DiffRels(want, got); x != "" {
		d = append(d, x)
	}
	return strings.Join(d, "; ")
}

func DiffInfo(want, got *Snap) []string {
	var d []string
	if want.Version != got.Version {
		d = append(d, fmt.Sprintf("version %d, expected %d", got.Version, want.Version))
	}
	if want.Id != got.Id {
		d = append(d, fmt.Sprintf("id %q, expected %q", got.Id, want.Id))
	}
	if want.Name != got.Name {
		d = append(d, fmt.Sprintf("name %q, expected %q", got.Name, want.Name))
	}
	if want.Expanded != got.Expanded {
		d = append(d, fmt.Sprintf("expanded %q, expected %q", got.Expanded, want.Expanded))
	}
	return d
}

func DiffItems(want, got *Snap) string {
	for _, id := range want.SortedIds() {
		g, ok := got.Items[id]
		if !ok {
			return fmt.Sprintf("item %q is missing", id)
		}
		if g != want.Items[id] {
			return fmt.Sprintf("item is %+v, expected %+v", g, want.Items[id])
		}
	}
	for _, id := range got.SortedIds() {
		if _, ok := want.Items[id]; !ok {
			return fmt.Sprintf("item %q should not exist", id)
		}
	}
	return ""
}

func DiffForest(want, got *Snap) string {
	for _, id := range want.SortedIds() {
		if _, ok := got.Items[id]; !ok {
			continue
		}
		if got.Parent[id] != want.Parent[id] {
			return fmt.Sprintf("item %q is in %q, expected in %q", id, got.Parent[id], want.Parent[id])
		}
	}
	return ""
}

func DiffRels(want, got *Snap) string {
	for _, p := range want.SortedPairs() {
		g, ok := got.Rels[p]
		if !ok {
			return fmt.Sprintf("rel %q is missing", p)
		}
		if g != want.Rels[p] {
			return fmt.Sprintf("rel is %+v, expected %+v", g, want.Rels[p])
		}
	}
	for _, p := range got.SortedPairs() {
		if _, ok := want.Rels[p]; !ok {
			return fmt.Sprintf("rel %q should not exist", p)
		}
	}
	return ""
}

func (s *Snap) Children(id string) []string {
	var out []string
	for _, c := range s.SortedIds() {
		if s.Parent[c] == id {
			out = append(out, c)
		}
	}
	return out
}

// Under tells whether id is strictly below anc.
func (s *Snap) Under(id, anc string) bool {
	for i := 0; i <= len(s.Items); i++ {
		p, ok := s.Parent[id]
		if !ok || p == "" {
			return false
		}
		if p == anc {
			return true
		}
		id = p
	}
	return false
}

// Op is one command, abstractly and as the text that is executed.
type Op struct {
	K      string      `json:"k"` // see the constants
	A      string      `json:"a,omitempty"`
	B      string      `json:"b,omitempty"`
	Ids    []string    `json:"ids,omitempty"`
	P      [][2]string `json:"p,omitempty"`    // attributes in order
	Keys   []string    `json:"keys,omitempty"` // for clear
	Limit  *int        `json:"limit,omitempty"`
	Strict bool        `json:"strict,omitempty"`
	Flags  []string    `json:"flags,omitempty"` // all of them in order, strict too, if there is another than strict
	Text   string      `json:"text"`
	N      int         `json:"n,omitempty"` // for UNDO/REDO steps etc.
}

const (
	KItemCreate  = "item-create"
	KItemSet     = "item-set"
	KItemClear   = "item-clear"
	KItemDelete  = "item-delete"
	KItemFetch   = "item-fetch"
	KItemList    = "item-list"
	KItemIn      = "item-in"
	KItemExists  = "item-exists"
	KItemCF      = "item-create-or-fetch"
	KItemCS      = "item-create-or-set"
	KNest        = "nest"
	KFree        = "free"
	KIn          = "in?"
	KRelCreate   = "rel-create"
	KRelSet      = "rel-set"
	KRelClear    = "rel-clear"
	KRelDelete   = "rel-delete"
	KRelFetch    = "rel-fetch"
	KRelList     = "rel-list"
	KRelExists   = "rel-exists"
	KRelCF       = "rel-create-or-fetch"
	KRelCS       = "rel-create-or-set"
	KTo          = "to?"
	KFrom        = "from?"
	KWorld       = "world"
	KGarbage     = "garbage" // text that is certainly no valid command
	KUndo        = "UNDO"
	KRedo        = "REDO"
	KUndoRedoAll = "UNDO-REDO-ALL"
)

var queryKinds = map[string]bool{KItemFetch: true, KItemList: true, KItemIn: true, KItemExists: true, KIn: true,
	KRelFetch: true, KRelList: true, KRelExists: true, KTo: true, KFrom: true, KWorld: true}
var itemKinds = map[string]bool{KItemCreate: true, KItemSet: true, KItemClear: true, KItemCF: true, KItemCS: true, KItemFetch: true, KItemExists: true}
var relKinds = map[string]bool{KRelCreate: true, KRelSet: true, KRelClear: true, KRelCF: true, KRelCS: true, KRelDelete: true, KRelFetch: true, KRelExists: true}

// Exp is what a command should answer.
type Exp struct {
	OK     bool
	Either bool   // success and error are both fine; neither changes anything
	Kind   string // item, rel, bool, items, rels, world, emptyitem, emptyrel, anyrel
	Item   MItem
	Rel    MRel
	Bool   bool
	Items  []MItem // the exact set for items; all candidates with Limit
	Rels   []MRel
	Limit  int // 0: no limit
}

func applyItemAttrs(it MItem, p [][2]string) MItem {
	for _, kv := range p {
		switch kv[0] {
		case "type":
			it.Type = kv[1]
		case "name":
			it.Name = kv[1]
		case "mechanism":
			it.Mech = kv[1]
		case "expanded":
			it.Exp = kv[1]
		case "external":
			it.Ext = kv[1] == "true"
		}
	}
	return it
}

func applyRelAttrs(r MRel, p [][2]string) MRel {
	for _, kv := range p {
		switch kv[0] {
		case "verb":
			r.Verb = kv[1]
		case "mechanism":
			r.Mech = kv[1]
		case "expanded":
			r.Exp = kv[1]
		case "async":
			r.Async = kv[1] == "true"
		}
	}
	return r
}

func keysToParams(keys []string) [][2]string {
	var p [][2]string
	for _, k := range keys {
		p = append(p, [2]string{k, ""})
	}
	return p
}

func (s *Snap) deleteItem(id string) {
	parent := s.Parent[id]
	for _, c := range s.Children(id) {
		s.Parent[c] = parent
	}
	delete(s.Items, id)
	delete(s.Parent, id)
	for p := range s.Rels {
		if p.From == id || p.To == id {
			delete(s.Rels, p)
		}
	}
}

func (s *Snap) has(id string) bool { _, ok := s.Items[id]; return ok }

func (s *Snap) closure(id string) map[string]bool {
	out := map[string]bool{id: true}
	for x := range s.Items {
		if s.Under(x, id) {
			out[x] = true
		}
	}
	return out
}

func (s *Snap) relsWhere(f func(p Pair) bool) []MRel {
	var out []MRel
	for _, p := range s.SortedPairs() {
		if f(p) {
			out = append(out, s.Rels[p])
		}
	}
	return out
}

func (s *Snap) FromQuery(id string, strict bool) []MRel {
	ids := map[string]bool{id: true}
	if !strict {
		ids = s.closure(id)
	}
	return s.relsWhere(func(p Pair) bool { return ids[p.From] })
}

func (s *Snap) ToQuery(id string, strict bool) []MRel {
	ids := map[string]bool{id: true}
	if !strict {
		ids = s.closure(id)
	}
	return s.relsWhere(func(p Pair) bool { return ids[p.To] })
}

func (s *Snap) FetchQuery(a, b string, strict bool) []MRel {
	l, r := map[string]bool{a: true}, map[string]bool{b: true}
	if !strict {
		l, r = s.closure(a), s.closure(b)
	}
	return s.relsWhere(func(p Pair) bool { return l[p.From] && r[p.To] })
}

func (s *Snap) allItems() []MItem {
	var out []MItem
	for _, id := range s.SortedIds() {
		out = append(out, s.Items[id])
	}
	return out
}

// Apply changes the model as the command should change the world, and returns the expected answer.
// actualOK settles commands for which success and refusal are both fine.
func (s *Snap) Apply(op Op, actualOK bool) Exp {
	switch op.K {
	case KItemCreate, KItemCF, KItemCS:
		if it, ok := s.Items[op.A]; ok {
			if op.K == KItemCS {
				it = applyItemAttrs(it, op.P)
				s.Items[op.A] = it
			}
			return Exp{OK: true, Kind: "item", Item: it}
		}
		if op.A == "" {
			return Exp{}
		}
		it := applyItemAttrs(MItem{Id: op.A}, op.P)
		s.Items[op.A] = it
		s.Parent[op.A] = ""
		return Exp{OK: true, Kind: "item", Item: it}
	case KItemSet, KItemClear:
		it, ok := s.Items[op.A]
		if !ok {
			return Exp{}
		}
		p := op.P
		if op.K == KItemClear {
			p = keysToParams(op.Keys)
		}
		it = applyItemAttrs(it, p)
		s.Items[op.A] = it
		return Exp{OK: true, Kind: "item", Item: it}
	case KItemDelete:
		if s.has(op.A) {
			s.deleteItem(op.A)
		}
		return Exp{OK: true, Kind: "emptyitem"}
	case KItemFetch:
		it, ok := s.Items[op.A]
		return Exp{OK: ok, Kind: "item", Item: it}
	case KItemExists:
		return Exp{OK: true, Kind: "bool", Bool: s.has(op.A)}
	case KItemList:
		l := 0
		if op.Limit != nil {
			l = *op.Limit
		}
		return Exp{OK: true, Kind: "items", Items: s.allItems(), Limit: l}
	case KItemIn:
		if !s.has(op.A) {
			return Exp{}
		}
		e := Exp{OK: true, Kind: "items"}
		for _, c := range s.Children(op.A) {
			e.Items = append(e.Items, s.Items[c])
		}
		return e
	case KIn:
		if op.Strict { // What is strict about it is left open.
			return Exp{OK: true, Kind: "anybool"}
		}
		return Exp{OK: true, Kind: "bool", Bool: s.has(op.A) && s.has(op.B) && s.Under(op.A, op.B)}
	case KNest:
		self := false
		for _, id := range op.Ids {
			if !s.has(id) || !s.has(op.B) || s.Under(op.B, id) {
				return Exp{}
			}
			self = self || id == op.B
		}
		if self && !actualOK {
			return Exp{Either: true, Kind: "bool", Bool: true}
		}
		for _, id := range op.Ids {
			if id != op.B {
				s.Parent[id] = op.B
			}
		}
		return Exp{OK: true, Either: self, Kind: "bool", Bool: true}
	case KFree:
		for _, id := range op.Ids {
			if !s.has(id) {
				return Exp{}
			}
		}
		for _, id := range op.Ids {
			s.Parent[id] = ""
		}
		return Exp{OK: true, Kind: "bool", Bool: true}
	case KRelCreate, KRelCF, KRelCS:
		p := Pair{op.A, op.B}
		if r, ok := s.Rels[p]; ok {
			if op.K == KRelCS {
				r = applyRelAttrs(r, op.P)
				s.Rels[p] = r
			}
			return Exp{OK: true, Kind: "rel", Rel: r}
		}
		if !s.has(op.A) || !s.has(op.B) {
			return Exp{}
		}
		r := applyRelAttrs(MRel{P: p}, op.P)
		s.Rels[p] = r
		return Exp{OK: true, Kind: "rel", Rel: r}
	case KRelSet, KRelClear:
		p := Pair{op.A, op.B}
		r, ok := s.Rels[p]
		if !ok {
			return Exp{}
		}
		ps := op.P
		if op.K == KRelClear {
			ps = keysToParams(op.Keys)
		}
		r = applyRelAttrs(r, ps)
		s.Rels[p] = r
		return Exp{OK: true, Kind: "rel", Rel: r}
	case KRelDelete:
		delete(s.Rels, Pair{op.A, op.B})
		return Exp{OK: true, Kind: "emptyrel"}
	case KRelFetch:
		rs := s.FetchQuery(op.A, op.B, op.Strict)
		return Exp{OK: len(rs) > 0, Kind: "anyrel", Rels: rs}
	case KRelExists:
		_, ok := s.Rels[Pair{op.A, op.B}]
		return Exp{OK: true, Kind: "bool", Bool: ok}
	case KRelList:
		l := 0
		if op.Limit != nil {
			l = *op.Limit
		}
		return Exp{OK: true, Kind: "rels", Rels: s.relsWhere(func(Pair) bool { return true }), Limit: l}
	case KTo:
		return Exp{OK: true, Kind: "rels", Rels: s.ToQuery(op.A, op.Strict)}
	case KFrom:
		return Exp{OK: true, Kind: "rels", Rels: s.FromQuery(op.A, op.Strict)}
	case KWorld:
		return Exp{OK: true, Kind: "world"}
	}
	return Exp{}
}
