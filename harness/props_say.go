package main

import (
	stderrors "errors"
	"fmt"
	"regexp"
	"slices"
	"strconv"
	"strings"

	"github.com/williamflynt/topolith/pkg/errors"
	"github.com/williamflynt/topolith/pkg/world"
)

// why tells what stands in the way of a command: what it needs and is not there, and whether it would nest something under
// its own descendant.
func why(pre *Snap, op Op) (missing []string, cycle bool) {
	need := func(ids ...string) {
		for _, id := range ids {
			if !pre.has(id) {
				missing = append(missing, id)
			}
		}
	}
	switch op.K {
	case KItemSet, KItemClear, KItemFetch, KItemIn:
		need(op.A)
	case KNest:
		need(append(slices.Clone(op.Ids), op.B)...)
		for _, id := range op.Ids {
			cycle = cycle || pre.has(id) && pre.has(op.B) && id != op.B && pre.Under(op.B, id)
		}
		// Items that the earlier ones are nested with can make a cycle only if they contained it before.
	case KFree:
		need(op.Ids...)
	case KRelCreate, KRelCF, KRelCS:
		need(op.A, op.B)
	case KRelSet, KRelClear, KRelFetch:
		missing = append(missing, op.A+" to "+op.B)
	}
	return missing, cycle
}

var codeRe = regexp.MustCompile(`(\d{3}) error "`)

// causes are the codes in the text of an error, after its own, without those that only say that there are several.
func causes(raw string) []int {
	var out []int
	for i, m := range codeRe.FindAllStringSubmatch(raw, -1) {
		if n, _ := strconv.Atoi(m[1]); i > 0 && n != int(errors.TopolithErrorMultiple) {
			out = append(out, n)
		}
	}
	return out
}

func sayOutcome(rec *Rec, op Op, r Resp, e Exp, pre *Snap) string {
	if r.Bad != "" {
		return r.Bad
	}
	if op.K == KGarbage {
		if r.OK {
			return "understood, though it is no command"
		}
		if r.Code != int(errors.TopolithErrorInvalid) {
			return fmt.Sprintf("is no command, but the status is %d: %s", r.Code, clip(r.Raw))
		}
		rec.Ev("not-understood")
		return ""
	}
	if e.Either {
		return ""
	}
	if r.OK != e.OK {
		if e.OK {
			return "can be done, but failed: " + clip(r.Raw)
		}
		return "cannot be done, but succeeded: " + clip(r.Raw)
	}
	if r.OK {
		if r.Code != 200 {
			return fmt.Sprintf("succeeded with status %d", r.Code)
		}
		rec.Ev("succeeded:" + op.K)
		return ""
	}
	if r.Code == int(errors.TopolithErrorInvalid) {
		return "is a command that cannot be done, but is answered as if it were none: " + clip(r.Raw)
	}
	if r.Code != int(errors.TopolithErrorCommandErr) {
		return fmt.Sprintf("failed with status %d", r.Code)
	}
	missing, cycle := why(pre, op)
	var can []int
	if len(missing) > 0 {
		can = append(can, int(errors.TopolithErrorNotFound))
	}
	if cycle {
		can = append(can, int(errors.TopolithErrorConflict))
	}
	rec.Ev("failed:" + op.K)
	if len(can) == 0 {
		return "" // An empty id is the cause.
	}
	got := causes(r.Raw)
	if len(got) == 0 {
		return "failed without a cause: " + clip(r.Raw)
	}
	for _, c := range got {
		if !slices.Contains(can, c) {
			return fmt.Sprintf("failed because of %v, the answer says %d: %s", can, c, clip(r.Raw))
		}
	}
	rec.Ev(fmt.Sprint("cause:", can))
	if cycle {
		rec.Nontrivial = true
	}
	return ""
}

// sayApi lets operations of the world fail, and looks at what their errors tell.
func sayApi(r *Rng, rec *Rec, w world.World, pre *Snap) string {
	ids := pre.SortedIds()
	if len(ids) == 0 {
		return ""
	}
	no, no2, a, b := "no such item", "nor this", r.pick(ids), r.pick(ids)
	type call struct {
		what    string
		do      func() error
		code    errors.TopolithErrorCode
		missing []string // one of these is named
	}
	nf := errors.TopolithErrorCode(errors.TopolithErrorNotFound)
	rc := func(x, y string) func() error {
		return func() error { return w.RelCreate(x, y, world.RelParams{}).Err() }
	}
	calls := []call{
		{"ItemSet", func() error { return w.ItemSet(no, world.ItemParams{Name: ptr("x")}).Err() }, nf, []string{no}},
		{"Free", func() error { return w.Free(no).Err() }, nf, []string{no}},
		{"Nest of nothing", func() error { return w.Nest(no, a).Err() }, nf, []string{no}},
		{"Nest in nothing", func() error { return w.Nest(a, no).Err() }, nf, []string{no}},
		{"Nest of nothing in nothing", func() error { return w.Nest(no, no2).Err() }, nf, []string{no, no2}},
		{"RelCreate from nothing", rc(no, a), nf, []string{no}},
		{"RelCreate to nothing", rc(a, no), nf, []string{no}},
		{"RelCreate from nothing to nothing", rc(no, no2), nf, []string{no, no2}},
		{"RelSet", func() error { return w.RelSet(a, no, world.RelParams{Verb: ptr("x")}).Err() }, nf, []string{no}},
	}
	if a != b && pre.Under(b, a) {
		calls = append(calls, call{"Nest in a cycle", func() error { return w.Nest(a, b).Err() }, errors.TopolithErrorConflict, nil})
	}
	it := pre.Items[a]
	calls = append(calls, call{"ItemCreate otherwise", func() error { return w.ItemCreate(a, world.ItemParams{Name: ptr(it.Name + "x")}).Err() }, errors.TopolithErrorConflict, nil})
	if ps := pre.sortedPairs(); len(ps) > 0 {
		p := ps[r.IntN(len(ps))]
		rl := pre.Rels[p]
		calls = append(calls, call{"RelCreate otherwise", func() error {
			return w.RelCreate(p.From, p.To, world.RelParams{Verb: ptr(rl.Verb + "x")}).Err()
		}, errors.TopolithErrorConflict, nil})
	}
	c := calls[r.IntN(len(calls))]
	err := c.do()
	if err == nil {
		return c.what + " is no error"
	}
	var te errors.TopolithError
	if !stderrors.As(err, &te) {
		return fmt.Sprintf("the error of %s is a %T", c.what, err)
	}
	if te.Code != c.code {
		return fmt.Sprintf("the error of %s has code %d, expected %d: %v", c.what, te.Code, c.code, err)
	}
	if len(c.missing) > 0 {
		named := false
		for _, kv := range te.Data {
			named = named || slices.Contains(c.missing, kv.Value)
		}
		if !named {
			return fmt.Sprintf("the error of %s does not name what is missing: %+v", c.what, te.Data)
		}
	}
	rec.Ev("api:" + c.what)
	return ""
}

// A text for the readers of single things.
type scrap struct {
	what string
	text string
	item *MItem // what it should be read as, if it is one
	rel  *MRel
	no   string // which readers must refuse it: i(tem), r(elationship), t(ree), w(orld)
	a    string // if it is about an item without being the text of one
}

func scraps(r *Rng, s *Sess, m *Snap, ops []Op) []scrap {
	var out []scrap
	add := func(x scrap) { out = append(out, x) }
	g := &Gen{Rng: r, Pool: []string{"a"}, M: m, Miss: 0.15}
	ids, ps := m.SortedIds(), m.sortedPairs()
	r.shuffle(ids)
	r.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
	texts := map[string][]string{}
	for i, id := range ids[:min(len(ids), 3)] {
		it := m.Items[id]
		t := toItem(it).String()
		texts["item"] = append(texts["item"], t)
		if i == 0 {
			add(scrap{what: "an item", text: t, item: &it, no: "rtw"})
			// As someone would write it.
			p := itemAttrs(it)
			p = slices.DeleteFunc(p, func(kv [2]string) bool { return kv[1] == "" || kv[0] == "external" && !it.Ext })
			r.Shuffle(len(p), func(i, j int) { p[i], p[j] = p[j], p[i] })
			add(scrap{what: "a written item", text: "item" + r.space() + r.idText(id, len(p) == 0 && !plainId(id)) + r.paramText(p), item: &it, no: "rtw"})
			add(scrap{what: "an answered item", text: s.a.Exec("item fetch " + strconv.Quote(id)), item: &it, no: "rtw"})
			add(scrap{what: "a tree of one item", text: "tree{" + t + "::[]}", no: "rw", item: &it})
			if len(it.Name) > 0 {
				add(scrap{what: "an open item", text: t[:len(t)-1], no: "irtw"})
			}
		}
	}
	for i, p := range ps[:min(len(ps), 3)] {
		rl := m.Rels[p]
		t := toRel(m, rl).String()
		texts["rel"] = append(texts["rel"], t)
		if i == 0 {
			add(scrap{what: "a relationship", text: t, rel: &rl, no: "itw"})
			pr := relAttrs(rl)
			pr = slices.DeleteFunc(pr, func(kv [2]string) bool { return kv[1] == "" || kv[0] == "async" && !rl.Async })
			r.Shuffle(len(pr), func(i, j int) { pr[i], pr[j] = pr[j], pr[i] })
			add(scrap{what: "a written relationship", text: "rel" + r.space() + strconv.Quote(p.From) + r.space() + strconv.Quote(p.To) + r.paramText(pr), rel: &rl, no: "itw"})
			if got := m.FetchQuery(p.From, p.To, true); len(got) == 1 && got[0] == rl {
				add(scrap{what: "an answered relationship", text: s.a.Exec("rel fetch " + strconv.Quote(p.From) + " " + strconv.Quote(p.To) + " -strict"), rel: &rl, no: "itw"})
			}
			add(scrap{what: "a relationship with another end", text: "rel " + strconv.Quote(p.From) + " \"no such item\"", no: "irtw"})
			for k := 0; k < 3; k++ {
				if x := r.similar(p.To); x != "" && !m.has(x) {
					add(scrap{what: "a relationship with a similar end", text: "rel " + strconv.Quote(p.From) + " " + strconv.Quote(x), no: "irtw"})
				}
				if x := r.similar(p.From); x != "" && !m.has(x) {
					add(scrap{what: "a relationship with a similar beginning", text: "rel " + strconv.Quote(x) + " " + strconv.Quote(p.To) + " verb=x", no: "irtw"})
				}
			}
			add(scrap{what: "a relationship from elsewhere", text: "rel \"no such item\" " + strconv.Quote(p.To), no: "irtw"})
		}
	}
	for k, no := range map[string]string{"item": "irtw", "rel": "irtw"} {
		if ts := texts[k]; len(ts) > 1 {
			add(scrap{what: "several of kind " + k, text: strings.Join(ts, "\n") + "\n$$$$\n200 ok ", no: no})
		}
	}
	for _, k := range []string{KNest, KFree, KIn, KItemList, KItemIn, KItemExists, KItemDelete, KItemFetch, KRelFetch, KRelDelete, KRelList, KRelExists, KTo, KFrom, KWorld, KItemClear, KRelClear, KItemSet, KRelSet, KGarbage} {
		if !r.chance(0.3) {
			continue
		}
		op := g.op(k)
		if op.Text == "" && k != KGarbage {
			g.render(&op)
		}
		x := scrap{what: "command " + k, text: op.Text, no: "irtw", a: op.A}
		switch {
		case k == KGarbage && op.Text == "": // the empty tree
			x.no = "irw"
		}
		add(x)
		if k != KGarbage && queryKinds[k] && k != KWorld && k != KItemFetch && k != KRelFetch {
			ans := readResp(s.a.Exec(op.Text))
			if ans.OK && (ans.Body == "" || ans.Body == "true" || ans.Body == "false") {
				add(scrap{what: "an answer without a thing", text: ans.Raw, no: "irtw"})
			}
			if !ans.OK {
				add(scrap{what: "an error", text: ans.Raw, no: "irtw"})
			}
		}
	}
	add(scrap{what: "a status", text: "200 ok", no: "irtw"})
	add(scrap{what: "nothing", text: " ", no: "irtw"})
	add(scrap{what: "an unknown type", text: "item a type=wizard", no: "irtw"})
	if len(ids) > 0 {
		add(scrap{what: "a tree", text: s.w.String()[treeStart(s.w.String()):treeEnd(s.w.String(), treeStart(s.w.String()))], no: "rw"})
	}
	// Spoilt ones: whatever they are now, nothing may crash.
	for n := len(out); n > 0; n-- {
		x := out[r.IntN(len(out))].text
		if len(x) == 0 {
			continue
		}
		i := r.IntN(len(x))
		switch r.IntN(4) {
		case 0:
			x = x[:i]
		case 1:
			x = x[:i] + x[min(len(x), i+1+r.IntN(4)):]
		case 2:
			x = x[:i] + r.pick([]string{" ", "\"", "::[", "]}", "item ", "rel ", "a", "$$$$", "tree{nil", "=", "-strict", "nil", "\x00", "é"}) + x[i:]
		default:
			x = x[i:]
		}
		add(scrap{what: "a spoilt text", text: x})
	}
	return out
}

func runC27(c *Case, rec *Rec) {
	s := newSess("w", nil, c.Ops)
	for _, op := range c.Ops {
		s.exec(op)
	}
	m := snapQuick(s.w)
	r := newRng(c.Seed, "C27run", c.N)
	for _, x := range scraps(r, s, m, c.Ops) {
		fail := func(format string, args ...any) {
			rec.Fail("%s, %q: %s", x.what, clip(x.text), fmt.Sprintf(format, args...))
		}
		var it world.Item
		var rl world.Rel
		var t world.Tree
		var w world.World
		var errs [4]error
		reader := ""
		crash := func() (p any) {
			defer func() { p = recover() }()
			reader = "item"
			it, errs[0] = world.ItemFromString(x.text)
			reader = "relationship"
			rl, errs[1] = world.RelFromString(s.w, x.text)
			reader = "tree"
			t, _, errs[2] = world.TreeFromString(x.text)
			reader = "world"
			w, errs[3] = world.FromString(x.text)
			return nil
		}()
		if crash != nil {
			fail("reading it as a %s crashes: %v", reader, crash)
			return
		}
		for i, k := range []byte("irtw") {
			if errs[i] == nil && strings.IndexByte(x.no, k) >= 0 {
				fail("is read as %s", []any{fmt.Sprintf("the item %+v", it), fmt.Sprintf("the relationship %+v", rl), fmt.Sprintf("a tree: %v", t), fmt.Sprintf("a world: %v", w)}[i])
				return
			}
		}
		if x.item != nil && (errs[0] != nil || mitem(it) != *x.item) && !strings.HasPrefix(x.what, "a tree") {
			fail("is read as %+v (%v), expected %+v", it, errs[0], *x.item)
			return
		}
		if x.rel != nil && (errs[1] != nil || mrel(rl) != *x.rel || mitem(rl.From) != m.Items[rl.From.Id] || mitem(rl.To) != m.Items[rl.To.Id]) {
			fail("is read as %+v (%v), expected %+v", rl, errs[1], *x.rel)
			return
		}
		if x.a != "" && strings.HasPrefix(x.what, "command item") && errs[0] == nil && it.Id != x.a {
			fail("is read as the item %q", it.Id)
			return
		}
		if errs[2] == nil && t == nil {
			fail("there is neither a tree nor an error")
			return
		}
		if x.what == "a spoilt text" {
			// What an independent reader takes for one thing is that thing.
			if is, err := readItems(x.text); err == nil && len(is) == 1 && errs[0] == nil && mitem(it) != is[0] {
				fail("is read as %+v, expected %+v", it, is[0])
				return
			}
			if rs, err := readRels(x.text); err == nil && len(rs) == 1 && errs[1] == nil && mrel(rl) != rs[0] {
				fail("is read as %+v, expected %+v", rl, rs[0])
				return
			}
			if errs[1] == nil && (!m.has(rl.From.Id) || !m.has(rl.To.Id)) {
				fail("is read as a relationship between %q and %q, which are not both there", rl.From.Id, rl.To.Id)
				return
			}
			if errs[0] == nil || errs[1] == nil || errs[2] == nil || errs[3] == nil {
				rec.Ev("spoilt-accepted")
				rec.Nontrivial = true
			} else {
				rec.Ev("spoilt-refused")
			}
			continue
		}
		rec.Ev(x.what)
	}
	if d := Diff(m, snapQuick(s.w)); d != "" {
		rec.Fail("reading texts changed the world: %s", d)
	}
	rec.State(m.Canon())
}

func init() {
	// C26: what can be done, is; what cannot, fails and says why.
	all := Weights{KItemCreate: 6, KItemSet: 5, KItemClear: 4, KItemDelete: 4, KItemCF: 3, KItemCS: 4, KNest: 14, KFree: 5,
		KRelCreate: 6, KRelSet: 5, KRelClear: 4, KRelDelete: 3, KRelCF: 4, KRelCS: 4, KItemFetch: 4, KItemIn: 3, KItemExists: 2,
		KItemList: 1, KIn: 2, KRelFetch: 4, KRelExists: 2, KRelList: 1, KTo: 2, KFrom: 2, KWorld: 1, KGarbage: 5}
	c26 := func(c *Case, rec *Rec) {
		s, _, ops := start(c, rec)
		r := newRng(c.Seed, "C26api", c.N)
		s.blind = c.Ints["blind"]
		s.drive(ops, isBig(c), func(op Op, r2 Resp, e Exp, pre, post, want *Snap, pr Problems) string {
			if v := sayOutcome(rec, op, r2, e, pre); v != "" {
				return v
			}
			if s.blind <= 1 && r.chance(0.3) {
				if v := sayApi(r, rec, s.w, post); v != "" {
					return "afterwards, " + v
				}
			}
			return ""
		})
	}
	register(&Prop{ID: "C26", Quick: 5200, Thorough: 60000,
		Rule: "cases are seeded sequences of commands of every kind, a good share of which name things that are not there, would make cycles or are no commands, on worlds of every origin; for each, whether it succeeded is compared with whether a model of the world before could do it, and the status and the causes in the answer with what stood in the way; in between, operations of the world that must fail are called, and the code and data of their error are compared with what is missing; non-trivial: a nesting was refused because of a cycle",
		Need: []string{"not-understood", "cause:[404]", "cause:[409]", "cause:[404 409]", "failed:nest", "failed:free", "failed:item-set", "failed:item-fetch", "failed:item-in", "failed:item-clear", "failed:rel-set", "failed:rel-create", "failed:rel-fetch", "failed:rel-clear",
			"succeeded:item-delete", "succeeded:rel-delete", "succeeded:nest", "succeeded:rel-create-or-fetch", "api:RelCreate to nothing", "api:Nest in a cycle", "api:ItemCreate otherwise"},
		Families: []Family{
			{Name: "mixed", Weight: 150, Gen: func(r *Rng, c *Case, th bool) {
				g := newGen(r, r.idPool())
				g.Miss = []float64{0.05, 0.15, 0.35}[r.IntN(3)]
				if r.chance(0.8) {
					c.Ops = g.seedOps(r.between(2, len(g.Pool)), r.between(0, 6), 0.6)
				}
				n := r.between(10, 50)
				if th && r.chance(0.2) {
					n *= 4
				}
				c.Ops = append(c.Ops, g.ops(n, all)...)
			}, Run: c26},
			{Name: "big", Weight: 3, Gen: bigWorld(all, 130, 60), Run: c26},
		}})

	// C27: what is no text of a thing is never read as one.
	register(&Prop{ID: "C27", Quick: 20000, Thorough: 200000,
		Rule: "cases are seeded worlds; the texts of their items and relationships, as printed, as someone would write them and as commands answer them, lists of several, trees, the commands of every kind, answers without a thing, errors, and spoilt variants of all those are given to the four readers, which must not crash, must refuse what is no text of their kind, and read the rest as the model and an independent reader say; non-trivial: a spoilt text was still accepted",
		Need: []string{"an item", "a written item", "an answered item", "an open item", "a relationship", "a written relationship", "an answered relationship", "a relationship with another end", "a relationship from elsewhere", "a relationship with a similar end", "several of kind item", "several of kind rel",
			"command nest", "command free", "command in?", "command to?", "command item-list", "command rel-list", "command world", "command item-delete", "command rel-delete", "an answer without a thing", "an error", "a status", "an unknown type", "a tree", "spoilt-accepted", "spoilt-refused"},
		Families: []Family{{Name: "scraps", Weight: 1, Gen: func(r *Rng, c *Case, th bool) {
			g := newGen(r, r.idPool())
			c.Ops = g.seedOps(r.between(0, len(g.Pool)), r.between(0, 6), 0.6)
			c.Ops = append(c.Ops, g.ops(r.between(3, 12), mutWeights)...)
		}, Run: runC27}}})
}
