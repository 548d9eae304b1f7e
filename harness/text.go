package main

import (
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// An independent reader of the text forms of items, relationships, trees, worlds and responses.

type scanner struct {
	s string
	i int
}

func (sc *scanner) ws() {
	for sc.i < len(sc.s) && strings.IndexByte(" \t\r\n", sc.s[sc.i]) >= 0 {
		sc.i++
	}
}

func (sc *scanner) eof() bool { sc.ws(); return sc.i >= len(sc.s) }

func isWordByte(c byte) bool {
	return c == '-' || c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

func (sc *scanner) lit(l string) bool {
	sc.ws()
	if strings.HasPrefix(sc.s[sc.i:], l) {
		sc.i += len(l)
		return true
	}
	return false
}

// word reads an unquoted word.
func (sc *scanner) word() (string, bool) {
	sc.ws()
	j := sc.i
	for j < len(sc.s) && isWordByte(sc.s[j]) {
		j++
	}
	if j == sc.i {
		return "", false
	}
	w := sc.s[sc.i:j]
	sc.i = j
	return w, true
}

func (sc *scanner) kw(k string) bool {
	save := sc.i
	if w, ok := sc.word(); ok && w == k {
		return true
	}
	sc.i = save
	return false
}

// value reads a word or quoted text.
func (sc *scanner) value() (string, bool) {
	sc.ws()
	if sc.i < len(sc.s) && sc.s[sc.i] == '"' {
		j := strings.IndexByte(sc.s[sc.i+1:], '"')
		if j < 0 {
			return "", false
		}
		v := sc.s[sc.i+1 : sc.i+1+j]
		sc.i += j + 2
		return v, true
	}
	return sc.word()
}

func (sc *scanner) params(allowed ...string) (map[string]string, error) {
	out := map[string]string{}
	for {
		save := sc.i
		k, ok := sc.word()
		if !ok {
			sc.i = save
			return out, nil
		}
		good := false
		for _, a := range allowed {
			good = good || a == k
		}
		if !good || !sc.lit("=") {
			sc.i = save
			return out, nil
		}
		v, ok := sc.value()
		if !ok {
			return nil, fmt.Errorf("no value for %s at %d", k, sc.i)
		}
		if _, dup := out[k]; dup {
			return nil, fmt.Errorf("%s appears twice", k)
		}
		out[k] = v
	}
}

var itemTypes = []string{"person", "database", "queue", "blobstore", "browser", "mobile", "server", "device", "code"}

func boolText(v string, ok bool) (bool, error) {
	if !ok || v == "false" {
		return false, nil
	}
	if v == "true" {
		return true, nil
	}
	return false, fmt.Errorf("not a boolean: %q", v)
}

func (sc *scanner) item() (MItem, error) {
	if !sc.kw("item") {
		return MItem{}, fmt.Errorf("no item at %d", sc.i)
	}
	id, ok := sc.value()
	if !ok {
		return MItem{}, fmt.Errorf("no item id at %d", sc.i)
	}
	p, err := sc.params("external", "type", "name", "mechanism", "expanded")
	if err != nil {
		return MItem{}, err
	}
	it := MItem{Id: id, Type: p["type"], Name: p["name"], Mech: p["mechanism"], Exp: p["expanded"]}
	if it.Type != "" {
		good := false
		for _, t := range itemTypes {
			good = good || t == it.Type
		}
		if !good {
			return it, fmt.Errorf("unknown type %q", it.Type)
		}
	}
	v, has := p["external"]
	it.Ext, err = boolText(v, has)
	return it, err
}

func (sc *scanner) rel() (MRel, error) {
	if !sc.kw("rel") {
		return MRel{}, fmt.Errorf("no rel at %d", sc.i)
	}
	a, ok1 := sc.value()
	b, ok2 := sc.value()
	if !ok1 || !ok2 {
		return MRel{}, fmt.Errorf("no rel ids at %d", sc.i)
	}
	p, err := sc.params("verb", "mechanism", "async", "expanded")
	if err != nil {
		return MRel{}, err
	}
	r := MRel{P: Pair{a, b}, Verb: p["verb"], Mech: p["mechanism"], Exp: p["expanded"]}
	v, has := p["async"]
	r.Async, err = boolText(v, has)
	return r, err
}

// MTree is a tree as read from text.
type MTree struct {
	Item *MItem
	Kids []*MTree
}

func (sc *scanner) tree(depth int) (*MTree, error) {
	if depth > 5000 {
		return nil, fmt.Errorf("too deep")
	}
	if !sc.lit("tree{") {
		return nil, fmt.Errorf("no tree at %d", sc.i)
	}
	t := &MTree{}
	if !sc.kw("nil") {
		it, err := sc.item()
		if err != nil {
			return nil, err
		}
		t.Item = &it
	}
	if !sc.lit("::[") {
		return nil, fmt.Errorf("no components at %d", sc.i)
	}
	for !sc.lit("]}") {
		k, err := sc.tree(depth + 1)
		if err != nil {
			return nil, err
		}
		t.Kids = append(t.Kids, k)
	}
	return t, nil
}

// Canon is a canonical text of the tree.
func (t *MTree) Canon() string {
	kids := make([]string, 0, len(t.Kids))
	for _, k := range t.Kids {
		kids = append(kids, k.Canon())
	}
	sort.Strings(kids)
	it := "nil"
	if t.Item != nil {
		it = fmt.Sprintf("%+v", *t.Item)
	}
	return "(" + it + " " + strings.Join(kids, " ") + ")"
}

func (t *MTree) Walk(parent string, f func(it MItem, parent string)) {
	id := parent
	if t.Item != nil {
		f(*t.Item, parent)
		id = t.Item.Id
	}
	for _, k := range t.Kids {
		k.Walk(id, f)
	}
}

// readWorldText reads a world's text into a snapshot; anything odd is an error.
func readWorldText(s string) (*Snap, error) {
	sc := &scanner{s: s}
	if !sc.lit("$$") || !sc.kw("world") {
		return nil, fmt.Errorf("no $$world")
	}
	p, err := sc.params("version", "id", "name", "expanded")
	if err != nil {
		return nil, err
	}
	w := newSnap()
	if w.Version, err = strconv.Atoi(p["version"]); err != nil {
		return nil, err
	}
	w.Id, w.Name, w.Expanded = p["id"], p["name"], p["expanded"]
	t, err := sc.tree(0)
	if err != nil {
		return nil, err
	}
	if t.Item != nil {
		return nil, fmt.Errorf("the world's tree has an item at its root")
	}
	t.Walk("", func(it MItem, parent string) {
		if _, dup := w.Items[it.Id]; dup {
			err = fmt.Errorf("item %q appears twice in the tree", it.Id)
		}
		w.Items[it.Id] = it
		w.Parent[it.Id] = parent
	})
	if err != nil {
		return nil, err
	}
	for !sc.lit("endworld$$") {
		r, err := sc.rel()
		if err != nil {
			return nil, err
		}
		if _, dup := w.Rels[r.P]; dup {
			return nil, fmt.Errorf("rel %q appears twice", r.P)
		}
		w.Rels[r.P] = r
	}
	if !sc.eof() {
		return nil, fmt.Errorf("text after the world")
	}
	return w, nil
}

func readItems(s string) ([]MItem, error) {
	sc := &scanner{s: s}
	var out []MItem
	for !sc.eof() {
		it, err := sc.item()
		if err != nil {
			return nil, err
		}
		out = append(out, it)
	}
	return out, nil
}

func readRels(s string) ([]MRel, error) {
	sc := &scanner{s: s}
	var out []MRel
	for !sc.eof() {
		r, err := sc.rel()
		if err != nil {
			return nil, err
		}
		out = append(out, r)
	}
	return out, nil
}

// Resp is a response as read from its text.
type Resp struct {
	Raw     string
	OK      bool
	Code    int
	Body    string
	Message string
	Bad     string // why it is no well-formed response
}

var okRe = regexp.MustCompile(`(?s)^(.*?)[ \t\r\n]*\$\$\$\$[ \t\r\n]*([0-9]+)[ \t\r\n]*ok\b[ \t\r\n]*("?[^"]*"?)[ \t\r\n]*$`)
var errRe = regexp.MustCompile(`(?s)^[ \t\r\n]*(?:\$\$\$\$)?[ \t\r\n]*([0-9]+)[ \t\r\n]*error\b[ \t\r\n]*"([^"]*)"(.*)$`)

func readResp(raw string) Resp {
	r := Resp{Raw: raw}
	if m := errRe.FindStringSubmatch(raw); m != nil {
		r.Code, _ = strconv.Atoi(m[1])
		r.Message = m[2]
		return r
	}
	// The delimiter between object and status is the last one outside quotes.
	if i := strings.LastIndex(raw, "$$$$"); i >= 0 {
		if m := okRe.FindStringSubmatch(raw[i:]); m != nil {
			r.Code, _ = strconv.Atoi(m[2])
			r.OK = r.Code == 200
			r.Body = strings.Trim(raw[:i], " \t\r\n")
			r.Message = m[3]
			if !r.OK {
				r.Bad = "ok status with another code than 200"
			}
			return r
		}
	}
	r.Bad = "neither an ok response nor an error"
	return r
}

func itemsEqualAsSets(want, got []MItem) string {
	m := map[string]MItem{}
	for _, it := range want {
		m[it.Id] = it
	}
	seen := map[string]bool{}
	for _, it := range got {
		if seen[it.Id] {
			return fmt.Sprintf("item %q is listed twice", it.Id)
		}
		seen[it.Id] = true
		w, ok := m[it.Id]
		if !ok {
			return fmt.Sprintf("item %q should not be listed", it.Id)
		}
		if w != it {
			return fmt.Sprintf("listed item is %+v, expected %+v", it, w)
		}
	}
	for _, it := range want {
		if !seen[it.Id] {
			return fmt.Sprintf("item %q is not listed", it.Id)
		}
	}
	return ""
}

func relsEqualAsSets(want, got []MRel) string {
	m := map[Pair]MRel{}
	for _, r := range want {
		m[r.P] = r
	}
	seen := map[Pair]bool{}
	for _, r := range got {
		if seen[r.P] {
			return fmt.Sprintf("rel %q is listed twice", r.P)
		}
		seen[r.P] = true
		w, ok := m[r.P]
		if !ok {
			return fmt.Sprintf("rel %q should not be listed", r.P)
		}
		if w != r {
			return fmt.Sprintf("listed rel is %+v, expected %+v", r, w)
		}
	}
	for _, r := range want {
		if !seen[r.P] {
			return fmt.Sprintf("rel %q is not listed", r.P)
		}
	}
	return ""
}

// limited checks that got is exactly min(limit, len(want)) distinct members of want.
func limitedItems(want, got []MItem, limit int) string {
	if limit <= 0 || limit >= len(want) {
		return itemsEqualAsSets(want, got)
	}
	if len(got) != limit {
		return fmt.Sprintf("%d items listed with limit %d of %d", len(got), limit, len(want))
	}
	ids := map[string]bool{}
	for _, it := range got {
		ids[it.Id] = true
	}
	var sub []MItem
	for _, it := range want {
		if ids[it.Id] {
			sub = append(sub, it)
		}
	}
	return itemsEqualAsSets(sub, got)
}

func limitedRels(want, got []MRel, limit int) string {
	if limit <= 0 || limit >= len(want) {
		return relsEqualAsSets(want, got)
	}
	if len(got) != limit {
		return fmt.Sprintf("%d rels listed with limit %d of %d", len(got), limit, len(want))
	}
	ids := map[Pair]bool{}
	for _, r := range got {
		ids[r.P] = true
	}
	var sub []MRel
	for _, r := range want {
		if ids[r.P] {
			sub = append(sub, r)
		}
	}
	return relsEqualAsSets(sub, got)
}

// matchResp compares a response with the expected answer; after is the world as it should now be.
func matchResp(r Resp, e Exp, after *Snap) string {
	if r.Bad != "" {
		return r.Bad
	}
	if e.Either && !r.OK {
		return ""
	}
	if r.OK != e.OK {
		if e.OK {
			return "refused with an error"
		}
		return "answered ok where an error was due"
	}
	if !e.OK {
		return ""
	}
	switch e.Kind {
	case "item", "emptyitem":
		its, err := readItems(r.Body)
		if err != nil || len(its) != 1 {
			return fmt.Sprintf("answer is not one item: %q", clip(r.Body))
		}
		if e.Kind == "emptyitem" {
			e.Item = MItem{}
		}
		if its[0] != e.Item {
			return fmt.Sprintf("answered %+v, expected %+v", its[0], e.Item)
		}
	case "rel", "emptyrel":
		rs, err := readRels(r.Body)
		if err != nil || len(rs) != 1 {
			return fmt.Sprintf("answer is not one rel: %q", clip(r.Body))
		}
		if e.Kind == "emptyrel" {
			e.Rel = MRel{}
		}
		if rs[0] != e.Rel {
			return fmt.Sprintf("answered %+v, expected %+v", rs[0], e.Rel)
		}
	case "anyrel":
		rs, err := readRels(r.Body)
		if err != nil || len(rs) != 1 {
			return fmt.Sprintf("answer is not one rel: %q", clip(r.Body))
		}
		for _, w := range e.Rels {
			if w == rs[0] {
				return ""
			}
		}
		return fmt.Sprintf("answered %+v, which is not among the %d matching", rs[0], len(e.Rels))
	case "bool":
		if r.Body != strconv.FormatBool(e.Bool) {
			return fmt.Sprintf("answered %q, expected %v", clip(r.Body), e.Bool)
		}
	case "anybool":
		if r.Body != "true" && r.Body != "false" {
			return fmt.Sprintf("answered %q, which is neither true nor false", clip(r.Body))
		}
	case "items":
		its, err := readItems(r.Body)
		if err != nil {
			return fmt.Sprintf("answer is no list of items: %v", err)
		}
		return limitedItems(e.Items, its, e.Limit)
	case "rels":
		rs, err := readRels(r.Body)
		if err != nil {
			return fmt.Sprintf("answer is no list of rels: %v", err)
		}
		return limitedRels(e.Rels, rs, e.Limit)
	case "world":
		w, err := readWorldText(r.Body)
		if err != nil {
			return fmt.Sprintf("answer is no world: %v", err)
		}
		return Diff(after, w)
	}
	return ""
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}
