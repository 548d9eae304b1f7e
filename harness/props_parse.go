package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"slices"
	"strconv"
	"strings"
	"sync"

	"github.com/williamflynt/topolith/pkg/grammar"
)

// Said is a text, and what it says.
type Said struct {
	Text  string
	Stmt  string // kind of text
	Thing string // kind of object in it
	Code  int
	Msg   string
	Items []string // texts of the items in it, as written
	Rels  []string
	Ids   []string
	Tree  *MTree // with items that only have an id
	TText string
	World map[string]string
	What  string
}

// itemText writes an item in one of the ways that the grammar takes.
func (r *Rng) itemText(id string) string {
	return r.pick([]string{"item", "item", "item", "items"}) + r.space() + r.idText(id, false) + r.paramText(r.itemParams(0, 5))
}

func (r *Rng) relText(a, b string) string {
	return r.pick([]string{"rel", "rel", "rel", "rels"}) + r.space() + r.idText(a, false) + r.space() + r.idText(b, false) + r.paramText(r.relParams(0, 4))
}

func (r *Rng) gap() string {
	if r.chance(0.4) {
		return ""
	}
	return r.space()
}

func (r *Rng) saidTree(ids []string, s *Said, depth int) (string, *MTree) {
	t := &MTree{}
	text := "tree{"
	if depth == 0 && r.chance(0.6) {
		text += "nil"
	} else {
		id := r.pick(ids)
		t.Item = &MItem{Id: id}
		it := r.itemText(id)
		s.Items = append(s.Items, it)
		text += it + r.gap()
	}
	text += "::["
	n := r.IntN(4)
	if depth > 0 {
		n = r.IntN(3)
	}
	if depth > 12 {
		n = 0
	}
	for i := 0; i < n; i++ {
		x, k := r.saidTree(ids, s, depth+1)
		t.Kids = append(t.Kids, k)
		text += x
		if i < n-1 {
			text += r.gap()
		}
	}
	return text + "]}", t
}

// said makes a text with the object and status, and what it says.
func (r *Rng) said(ids []string) Said {
	s := Said{Stmt: "Response", Code: 200}
	body := ""
	bare := r.chance(0.2) // without a status
	kinds := []string{"none", "item", "items", "rel", "rels", "ids", "tree", "world"}
	if bare {
		kinds = []string{"tree", "world", "status"}
	}
	kind := r.pick(kinds)
	s.What = kind
	switch kind {
	case "item", "items":
		s.Thing = "item"
		n := 1
		if kind == "items" {
			n = r.between(2, 9)
			if r.chance(0.1) {
				n = r.between(20, 300)
			}
		}
		for i := 0; i < n; i++ {
			it := r.itemText(r.pick(ids))
			s.Items = append(s.Items, it)
			body += it
			if i < n-1 {
				body += r.pick([]string{"\n", "\n", " ", "\r\n", "\n\n"})
			}
		}
	case "rel", "rels":
		s.Thing = "rel"
		n := 1
		if kind == "rels" {
			n = r.between(2, 9)
			if r.chance(0.1) {
				n = r.between(20, 300)
			}
		}
		for i := 0; i < n; i++ {
			x := r.relText(r.pick(ids), r.pick(ids))
			s.Rels = append(s.Rels, x)
			body += x
			if i < n-1 {
				body += r.pick([]string{"\n", "\n", " ", "\r\n", "\n\n"})
			}
		}
	case "ids":
		s.Thing = "ids"
		n := r.between(1, 9)
		if r.chance(0.1) {
			n = r.between(20, 300)
		}
		for ; n > 0; n-- {
			id := r.pick(ids)
			s.Ids = append(s.Ids, id)
			body += r.idText(id, false)
			if n > 1 {
				body += r.space()
			}
		}
	case "tree":
		s.Thing = "tree"
		body, s.Tree = r.saidTree(ids, &s, 0)
		s.TText = body
	case "world":
		s.Thing = "world"
		s.World = map[string]string{"version": strconv.Itoa(r.pickInt(0, 1, 2, 7, 10, 99)), "id": r.pick(ids), "name": r.value(), "expanded": r.value()}
		opt := func(v string) string {
			if v == "" && r.chance(0.3) {
				return ""
			}
			return r.valText(v)
		}
		body = r.gap() + "$$world" + r.space() + "version=" + s.World["version"] + r.space() + "id=" + r.valText(s.World["id"]) + r.space() +
			"name=" + opt(s.World["name"]) + r.space() + "expanded=" + opt(s.World["expanded"]) + r.space()
		var x string
		x, s.Tree = r.saidTree(ids, &s, 0)
		s.TText = x
		body += x + r.gap()
		n := r.IntN(6)
		if r.chance(0.1) {
			n = r.between(20, 300)
		}
		for ; n > 0; n-- {
			rel := r.relText(r.pick(ids), r.pick(ids))
			s.Rels = append(s.Rels, rel)
			body += rel + r.pick([]string{"\n", " ", "\r\n"})
		}
		body += "endworld$$"
	}
	status := ""
	if r.chance(0.3) && kind != "world" && kind != "tree" {
		s.Code = r.pickInt(400, 404, 409, 418, 450, 499, 500, 503, 0, 1, 77, r.IntN(1000), r.IntN(100000))
		status = strconv.Itoa(s.Code) + r.space() + "error"
	} else {
		s.Code = r.pickInt(200, 200, 200, 200, 201, 204)
		status = strconv.Itoa(s.Code) + r.space() + "ok"
	}
	switch x := r.Float64(); {
	case x < 0.4:
		status += r.pick([]string{"", "", " ", "\n", "\r\n \t"})
	case x < 0.55:
		s.Msg = r.text("abcdefxyzABZ0189_-", 1, 12)
		status += r.space() + s.Msg
	default:
		s.Msg = r.value()
		status += r.space() + `"` + s.Msg + `"`
	}
	if r.chance(0.15) {
		status += r.space()
	}
	if !bare {
		s.Text = body + r.gap() + "$$$$" + r.gap() + status
		return s
	}
	switch kind {
	case "tree":
		s.Stmt, s.Text, s.Code, s.Msg = "Tree", body, 0, ""
	case "world":
		s.Stmt, s.Text, s.Code, s.Msg = "WorldObject", body, 0, ""
	case "status":
		s.Stmt, s.Text = "Status", status
	}
	s.What = "bare " + kind
	if r.chance(0.3) && kind != "status" {
		s.Text += r.space()
	}
	return s
}

func nodeIs(n grammar.Node, t *MTree, root bool) string {
	if t.Item != nil && n.Id != t.Item.Id {
		return fmt.Sprintf("there is %q in the tree where %q is written", n.Id, t.Item.Id)
	}
	if len(n.Children) != len(t.Kids) {
		return fmt.Sprintf("%q has %d trees in it, %d are written", n.Id, len(n.Children), len(t.Kids))
	}
	for i := range t.Kids {
		if bad := nodeIs(n.Children[i], t.Kids[i], false); bad != "" {
			return bad
		}
	}
	return ""
}

// trimmed are the texts without the whitespace around them.
func trimmed(a []string) []string {
	out := []string{}
	for _, s := range a {
		out = append(out, strings.TrimSpace(s))
	}
	return out
}

// misread tells how what was found in a text differs from what it says.
func misread(p *grammar.Parser, s Said) string {
	if p.StmtType != s.Stmt {
		return fmt.Sprintf("it is taken for a %q", p.StmtType)
	}
	if got := p.Response.Status; got.Code != s.Code || got.Message != s.Msg {
		return fmt.Sprintf("the status found is %d %q, it says %d %q", got.Code, got.Message, s.Code, s.Msg)
	}
	if got := trimmed(p.ItemStrings); !slices.Equal(got, trimmed(s.Items)) {
		return fmt.Sprintf("the items found are %q, it has %q", got, s.Items)
	}
	if got := trimmed(p.RelStrings); !slices.Equal(got, trimmed(s.Rels)) {
		return fmt.Sprintf("the relationships found are %q, it has %q", got, s.Rels)
	}
	if got := p.InputAttributes.ResourceIds; !slices.Equal(got, s.Ids) && len(got)+len(s.Ids) > 0 {
		return fmt.Sprintf("the ids found are %q, it has %q", got, s.Ids)
	}
	obj := p.Response.Object
	if obj.Type != s.Thing {
		return fmt.Sprintf("the object found is a %q, it has a %q", obj.Type, s.Thing)
	}
	switch {
	case s.Thing == "":
		if obj.Repr != "" {
			return fmt.Sprintf("the text %q of an object is found, it has none", obj.Repr)
		}
	case s.Thing == "item" && len(s.Items) == 1, s.Thing == "rel" && len(s.Rels) == 1:
		if want := append(slices.Clone(s.Items), s.Rels...)[0]; strings.TrimSpace(obj.Repr) != strings.TrimSpace(want) {
			return fmt.Sprintf("the text found for the object is %q, it is %q", obj.Repr, want)
		}
	case s.Thing == "ids":
		var ids []string
		if err := json.Unmarshal([]byte(obj.Repr), &ids); err != nil || !slices.Equal(ids, s.Ids) {
			return fmt.Sprintf("the text found for the ids is %q, they are %q", obj.Repr, s.Ids)
		}
	case s.Thing == "tree":
		if strings.TrimSpace(obj.Repr) != s.TText {
			return fmt.Sprintf("the text found for the tree is %q, it is %q", obj.Repr, s.TText)
		}
	case s.Thing == "world":
		for _, k := range []string{"version", "id", "name", "expanded"} {
			got := p.WorldParams[k]
			if q := strings.TrimSpace(got); strings.HasPrefix(q, `"`) { // it may be kept with its quotes
				got = strings.Trim(q, `"`)
			}
			if got != s.World[k] {
				return fmt.Sprintf("the world's %s found is %q, it is %q", k, got, s.World[k])
			}
		}
		// The text of the world is that of its parts.
		if !strings.Contains(obj.Repr, s.TText) {
			return fmt.Sprintf("the text found for the world is %q, without its tree %q", obj.Repr, s.TText)
		}
		rest := obj.Repr[strings.Index(obj.Repr, s.TText)+len(s.TText):]
		for _, x := range trimmed(s.Rels) {
			i := strings.Index(rest, x)
			if i < 0 {
				return fmt.Sprintf("the text found for the world is %q, without its relationship %q", obj.Repr, x)
			}
			rest = rest[i+len(x):]
		}
		if isWord(s.World["id"]) && s.World["name"] != "" && s.World["expanded"] != "" {
			sc := &scanner{s: obj.Repr}
			if got, err := sc.params("version", "id", "name", "expanded"); err != nil || !reflect.DeepEqual(got, s.World) {
				return fmt.Sprintf("the text found for the world begins with %q (%v), it has %q", got, err, s.World)
			}
		}
	}
	if (s.Tree == nil) != (p.TreeString == "") || s.Tree != nil && strings.TrimSpace(p.TreeString) != s.TText {
		return fmt.Sprintf("the text found for a tree is %q, it has %q", p.TreeString, s.TText)
	}
	if s.Tree == nil {
		if p.Tree.Id != "" || len(p.Tree.Children) > 0 {
			return fmt.Sprintf("the tree %v is found, it has none", p.Tree)
		}
		return ""
	}
	return nodeIs(p.Tree, s.Tree, true)
}

// foundIn is everything that is found in a text, for comparing.
func foundIn(text string) string {
	p, err := grammar.Parse(text)
	if err != nil {
		return "refused"
	}
	return fmt.Sprintf("%q %+v %q %q %q %+v %q", p.StmtType, p.Response, p.ItemStrings, p.RelStrings, p.TreeString, p.Tree, p.InputAttributes.ResourceIds) +
		fmt.Sprintf("%q %q %q %q %q %v", p.InputAttributes.ResourceType, p.InputAttributes.Verb, p.InputAttributes.Params, p.InputAttributes.Flags, p.WorldParams, p.InputAttributes.SecondaryIds)
}

// spoiltAnswer damages the text of a response so that it certainly isn't one.
func (r *Rng) spoiltAnswer(s Said) (string, string) {
	i := strings.LastIndex(s.Text, "$$$$")
	for j := i; j > 0 && strings.Count(s.Text[:j], `"`)%2 == 1; { // in a message
		j = strings.LastIndex(s.Text[:j], "$$$$")
		i = j
	}
	if i < 0 {
		return "", ""
	}
	body, status := s.Text[:i], s.Text[i+4:]
	switch r.IntN(11) {
	case 0:
		return "without a status", body + "$$$$"
	case 1:
		return "half a delimiter", body + "$$" + status
	case 2:
		return "another status word", body + "$$$$ 200 okay"
	case 3:
		return "no code", body + "$$$$ ok"
	case 4:
		return "a code in letters", body + "$$$$ abc ok"
	case 5:
		return "an open quote", body + `$$$$ 200 ok "all`
	case 6:
		return "something behind", s.Text + r.pick([]string{" {}", "{", " }", "\x00", " ?", " |", " \u00e9", " <", " '"})
	case 7:
		return "something before", r.pick([]string{"{ ", "? ", "| ", "\u00e9 ", "'", "<"}) + s.Text
	case 8:
		return "two statuses", body + "$$$$ 200 ok\n$$$$ 200 ok"
	case 9:
		if s.Thing == "tree" {
			return "a tree left open", strings.TrimSuffix(body[:strings.LastIndex(body, "]}")], " ") + " $$$$ 200 ok"
		}
		if s.Thing == "world" {
			return "a world left open", body[:strings.LastIndex(body, "endworld$$")] + " $$$$ 200 ok"
		}
		return "a code with a sign", body + "$$$$ -200 ok"
	default:
		if s.Thing == "item" || s.Thing == "rel" {
			return "an open quote in the object", s.Thing + ` "a $$$$ 200 ok`
		}
		return "an error without its word", body + `$$$$ 404 "not found"`
	}
}

func runC29(c *Case, rec *Rec) {
	r := newRng(c.Seed, "C29/texts", c.N)
	ids := r.idPool()
	if r.chance(0.1) {
		ids = append(ids, "")
	}
	var all []Said
	var first []string
	for n := 8; n > 0; n-- {
		s := r.said(ids)
		all = append(all, s)
		p, err := grammar.Parse(s.Text)
		if err != nil {
			rec.Fail("a %s is refused: %q: %v", s.What, clip(s.Text), err)
			return
		}
		rec.Ev(s.What)
		if len(s.Msg) > 0 {
			rec.Ev("message")
		}
		rec.State(s.Text)
		if bad := misread(p, s); bad != "" {
			rec.Fail("%s in the text %q", bad, s.Text)
			return
		}
		first = append(first, foundIn(s.Text))
		if s.Tree != nil && len(s.Items) > 3 {
			rec.Nontrivial = true
		}
		if s.Stmt == "Response" && r.chance(0.5) {
			what, text := r.spoiltAnswer(s)
			if what == "" {
				continue
			}
			rec.Ev(what)
			if p, err := grammar.Parse(text); err == nil && p.StmtType == "Response" {
				rec.Fail("a text that is no response (%s) is taken for one: %q", what, text)
				return
			}
		}
	}
	// The same is found again, in any order and while others are read.
	var wg sync.WaitGroup
	again := make([]string, len(all))
	for i := range all {
		wg.Add(1)
		go func() {
			defer wg.Done()
			again[i] = foundIn(all[i].Text)
		}()
	}
	wg.Wait()
	for i := range all {
		if again[i] != first[i] {
			rec.Fail("%s is found in the text %q, and earlier %s", clip(again[i]), all[i].Text, clip(first[i]))
			return
		}
		rec.Ev("read again")
	}
}

func init() {
	register(&Prop{ID: "C29", Quick: 12000, Thorough: 300000,
		Rule:     "cases are seeded responses (without an object, with one or several items or relationships, ids, a tree or a world; ok or error; with or without a message), trees, worlds and statuses, written with any quoting and spacing the grammar takes; what the parser finds in them is compared with what was written, spoilt ones must be refused, and reading them all again, at the same time, must find the same; non-trivial: a tree of more than three items",
		Need:     []string{"none", "item", "items", "rel", "rels", "ids", "tree", "world", "bare tree", "bare world", "bare status", "message", "read again", "without a status", "half a delimiter", "two statuses", "a tree left open", "a world left open", "something behind", "something before"},
		Families: []Family{{Name: "texts", Weight: 1, Gen: func(r *Rng, c *Case, th bool) { c.Ints = map[string]int{"texts": c.N} }, Run: runC29}}})
}
