package main

import (
	"fmt"
	"reflect"
	"slices"
	"strconv"
	"strings"
	"time"

	"github.com/williamflynt/topolith/pkg/app"
	"github.com/williamflynt/topolith/pkg/grammar"
	"github.com/williamflynt/topolith/pkg/world"
)

func toCommand(text string) (app.Command, error) {
	p, err := grammar.Parse(text)
	if err != nil {
		return nil, err
	}
	if p.StmtType != "Command" {
		return nil, fmt.Errorf("not a command")
	}
	return app.InputToCommand(p.InputAttributes)
}

// Attrs is what a command line says.
type Attrs struct {
	Type, Verb, Id string
	Ids, Second    []string
	Params         map[string]string
	Flags          []string
}

func parsedAttrs(text string) (Attrs, error) {
	p, err := grammar.Parse(text)
	if err != nil {
		return Attrs{}, err
	}
	if p.StmtType != "Command" {
		return Attrs{}, fmt.Errorf("understood as %q, not as a command", p.StmtType)
	}
	a := p.InputAttributes
	return Attrs{a.ResourceType, a.Verb, a.ResourceId, a.ResourceIds, a.SecondaryIds, a.Params, a.Flags}, nil
}

func writtenAttrs(op Op) Attrs {
	a := Attrs{Type: "item", Id: op.A, Params: map[string]string{}}
	for _, kv := range op.P {
		a.Params[kv[0]] = kv[1]
	}
	for _, k := range op.Keys {
		a.Params[k] = ""
	}
	if op.Limit != nil {
		a.Params["limit"] = strconv.Itoa(*op.Limit)
	}
	if op.Strict {
		a.Flags = []string{"strict"}
	}
	if len(op.Flags) > 0 {
		a.Flags = op.Flags
	}
	switch op.K {
	case KRelCreate, KRelSet, KRelClear, KRelDelete, KRelFetch, KRelExists, KRelCF, KRelCS:
		a.Type, a.Second = "rel", []string{op.B}
	case KRelList, KTo, KFrom:
		a.Type = "rel"
	case KIn:
		a.Second = []string{op.B}
	case KWorld:
		a.Type = "world"
	case KNest:
		a.Ids, a.Second = op.Ids, []string{op.B}
	case KFree:
		a.Ids = op.Ids
	}
	a.Verb = map[string]string{KItemCreate: "create", KRelCreate: "create", KItemSet: "set", KRelSet: "set", KItemClear: "clear", KRelClear: "clear",
		KItemDelete: "delete", KRelDelete: "delete", KItemFetch: "fetch", KRelFetch: "fetch", KWorld: "fetch", KItemList: "list", KRelList: "list", KItemIn: "list",
		KItemExists: "exists", KRelExists: "exists", KItemCF: "create-or-fetch", KRelCF: "create-or-fetch", KItemCS: "create-or-set", KRelCS: "create-or-set",
		KNest: "nest", KFree: "free", KIn: "in?", KTo: "to?", KFrom: "from?"}[op.K]
	return a
}

// writtenArrived tells whether what a successful create or set command gives attributes to has them then.
func writtenArrived(op Op, ok bool, pre, post *Snap) string {
	if !ok || len(op.P) == 0 {
		return ""
	}
	var have [][2]string
	switch op.K {
	case KItemCreate, KItemSet, KItemCS:
		if op.K == KItemCreate && pre.has(op.A) {
			return ""
		}
		have = itemAttrs(post.Items[op.A])
	case KRelCreate, KRelSet, KRelCS:
		if _, had := pre.Rels[Pair{op.A, op.B}]; had && op.K == KRelCreate {
			return ""
		}
		have = relAttrs(post.Rels[Pair{op.A, op.B}])
	}
	want := map[string]string{}
	for _, kv := range op.P { // the last one counts
		want[kv[0]] = kv[1]
	}
	for _, kv := range have {
		if v, ok := want[kv[0]]; ok && v != kv[1] {
			return fmt.Sprintf("%s is %q afterwards, written %q", kv[0], kv[1], v)
		}
	}
	return ""
}

// commandFlags are the flags of a command value, if it has a set of them.
func commandFlags(c app.Command) (out []string, ok bool) {
	v := reflect.ValueOf(c)
	if v.Kind() != reflect.Pointer || v.Elem().Kind() != reflect.Struct {
		return nil, false
	}
	f := v.Elem().FieldByName("Flags")
	if !f.IsValid() || f.Kind() != reflect.Interface || f.IsNil() {
		return nil, false
	}
	m := f.MethodByName("ToSlice")
	if !m.IsValid() || m.Type().NumIn() != 0 || m.Type().NumOut() != 1 {
		return nil, false
	}
	l := m.Call(nil)[0]
	if l.Kind() != reflect.Slice || l.Type().Elem().Kind() != reflect.String {
		return nil, false
	}
	for i := 0; i < l.Len(); i++ {
		out = append(out, l.Index(i).String())
	}
	slices.Sort(out)
	return out, true
}

func diffAttrs(want, got Attrs) string {
	if want.Type != got.Type {
		return fmt.Sprintf("resource type %q, written %q", got.Type, want.Type)
	}
	if want.Verb != got.Verb {
		return fmt.Sprintf("verb %q, written %q", got.Verb, want.Verb)
	}
	if want.Id != got.Id {
		return fmt.Sprintf("id %q, written %q", got.Id, want.Id)
	}
	if !slices.Equal(want.Ids, got.Ids) {
		return fmt.Sprintf("ids %q, written %q", got.Ids, want.Ids)
	}
	if !slices.Equal(want.Second, got.Second) {
		return fmt.Sprintf("second id %q, written %q", got.Second, want.Second)
	}
	if !slices.Equal(want.Flags, got.Flags) {
		return fmt.Sprintf("flags %q, written %q", got.Flags, want.Flags)
	}
	for k, v := range want.Params {
		g, ok := got.Params[k]
		if k == "limit" {
			if n, err := strconv.Atoi(g); err == nil {
				g = strconv.Itoa(n)
			}
		}
		if !ok || g != v {
			return fmt.Sprintf("%s is %q (%v), written %q", k, g, ok, v)
		}
	}
	for k, v := range got.Params {
		if _, ok := want.Params[k]; !ok {
			return fmt.Sprintf("%s is %q, but was not written", k, v)
		}
	}
	return ""
}

// sameWorld compares everything observable of a world with an earlier snapshot.
func sameWorld(want *Snap, w world.World, ids []string) string {
	got, pr := snapFull(w, ids)
	if v := Diff(want, got); v != "" {
		return v
	}
	return pr.Any()
}

func init() {
	allW := mutWeights.with(Weights{KItemFetch: 1, KItemList: 1, KItemIn: 1, KItemExists: 1, KIn: 1, KRelFetch: 1, KRelList: 1, KRelExists: 1, KTo: 1, KFrom: 1, KWorld: 1})

	// C07: undo.
	undoW := allW.with(Weights{KItemDelete: 9, KNest: 11, KFree: 5, KRelDelete: 6, KRelCreate: 8, KItemClear: 4, KRelClear: 3, KItemCreate: 7})
	direct := func(c *Case, rec *Rec) {
		s, _, ops := start(c, rec)
		w, ids := s.w, s.ids
		pre, _ := snapFull(w, ids)
		for i, op := range ops {
			cmd, err := toCommand(op.Text)
			if err != nil {
				continue
			}
			fail := func(f string, a ...any) { rec.Fail("step %d, %s: %s", i, op.Text, fmt.Sprintf(f, a...)) }
			if _, err := cmd.Execute(w); err != nil {
				pre, _ = snapFull(w, ids)
				continue
			}
			post, _ := snapFull(w, ids)
			if err := cmd.Undo(w); err != nil {
				fail("undo failed: %v", err)
				return
			}
			if v := sameWorld(pre, w, ids); v != "" {
				fail("after undo: %s", v)
				return
			}
			rec.Ev("undone:" + op.K)
			if Diff(pre, post) != "" {
				rec.Ev("undone-with-effect:" + op.K)
				rec.Nontrivial = true
				rec.State(pre.Canon())
			}
			// Go on, with a command of its own.
			cmd2, _ := toCommand(op.Text)
			if _, err := cmd2.Execute(w); err != nil {
				fail("it succeeded, was undone, and now fails: %v", err)
				return
			}
			if v := sameWorld(post, w, ids); v != "" {
				fail("executed, undone and executed again: %s", v)
				return
			}
			pre = post
		}
	}
	// One command value, executed in many states: it must undo what it did last.
	reused := func(c *Case, rec *Rec) {
		s, _, ops := start(c, rec)
		w, ids := s.w, s.ids
		cmds := map[string]app.Command{}
		pre, _ := snapFull(w, ids)
		for i, op := range ops {
			cmd, again := cmds[op.Text]
			if !again {
				var err error
				if cmd, err = toCommand(op.Text); err != nil {
					continue
				}
				cmds[op.Text] = cmd
			}
			fail := func(f string, a ...any) {
				rec.Fail("step %d, %s (the same command value at every step with this text): %s", i, op.Text, fmt.Sprintf(f, a...))
			}
			if _, err := cmd.Execute(w); err != nil {
				if v := sameWorld(pre, w, ids); v != "" {
					fail("failed, and %s", v)
					return
				}
				continue
			}
			post, _ := snapFull(w, ids)
			if again {
				rec.Ev("executed-again:" + op.K)
			}
			if (i+c.N)%3 == 0 {
				pre = post // This time it stays.
				continue
			}
			if err := cmd.Undo(w); err != nil {
				fail("undo failed: %v", err)
				return
			}
			if v := sameWorld(pre, w, ids); v != "" {
				fail("after undo: %s", v)
				return
			}
			if again && Diff(pre, post) != "" {
				rec.Ev("undone-again-with-effect:" + op.K)
				rec.Nontrivial = true
				rec.State(pre.Canon())
			}
			if (i+c.N)%3 == 1 {
				if _, err := cmd.Execute(w); err != nil {
					fail("it succeeded, was undone, and now fails: %v", err)
					return
				}
				if v := sameWorld(post, w, ids); v != "" {
					fail("executed, undone and executed again: %s", v)
					return
				}
				pre = post
			}
		}
	}
	chain := func(c *Case, rec *Rec) {
		blind := c.Ints["blind"]
		s, _, ops := start(c, rec)
		type level struct {
			text string
			snap *Snap
		}
		var stack []level
		undo := func(i int) bool {
			h := s.a.History()
			if len(h) == 0 {
				rec.Fail("step %d: %d commands succeeded and were not undone, but the history is empty", i, len(stack))
				return false
			}
			top := stack[len(stack)-1]
			var err error
			if c.Ints["hook"] == 1 && hooksAvailable {
				err, _ = appUndo(s.a)
			} else {
				// Without the application's own undo: from the latest command on. Only done when nothing is executed afterwards.
				err = h[len(stack)-1].Undo(s.w)
			}
			if err != nil {
				rec.Fail("step %d: undo of %q failed: %v", i, top.text, err)
				return false
			}
			stack = stack[:len(stack)-1]
			rec.Ev("undone-in-chain")
			if blind > 1 && len(stack)%blind != 0 {
				return true
			}
			if v := sameWorld(top.snap, s.w, s.ids); v != "" {
				rec.Fail("step %d: after undo of %q (%d commands before it): %s", i, top.text, len(stack), v)
				return false
			}
			rec.Ev("undone-and-compared")
			return true
		}
		var model *Snap // what the world is, as long as every outcome is the predicted one
		for i, op := range ops {
			if op.K == KUndo {
				if !hooksAvailable || c.Ints["hook"] != 1 {
					continue
				}
				for n := 0; n < op.N && len(stack) > 0; n++ {
					model = stack[len(stack)-1].snap
					if !undo(i) {
						return
					}
				}
				continue
			}
			pre := model
			if pre == nil || blind < 2 {
				pre, _ = snapFull(s.w, s.ids)
			}
			r := s.exec(op)
			if r.OK {
				stack = append(stack, level{op.Text, pre})
			}
			model = pre.Clone()
			if e := model.Apply(op, r.OK); e.Either || e.OK != r.OK {
				model = nil
			}
		}
		if len(stack) > 5 {
			rec.Nontrivial = true
		}
		for len(stack) > 0 {
			if !undo(len(c.Ops)) {
				return
			}
		}
	}
	withUndo := func(w Weights, lo, hi int) func(r *Rng, c *Case, th bool) {
		m := mixed(w, lo, hi)
		return func(r *Rng, c *Case, th bool) {
			m(r, c, th)
			c.Ints = map[string]int{"hook": r.IntN(3)} // 1: with the application's own undo
			for i := range c.Ops {
				if c.Ops[i].K == KUndo {
					c.Ops[i].N = 1 + r.IntN(6)
				}
			}
		}
	}
	register(&Prop{ID: "C07", Quick: 5200, Thorough: 60000,
		Rule: "cases are seeded command sequences; in the direct family every command that succeeds is undone at once and everything observable is compared with the world before it, then executed again; in the reused family the same command values are executed in many states; in the chain family whole histories (with undos and new commands in between) are undone in reverse and every intermediate world compared; non-trivial: a command that changed something was undone",
		Need: []string{"undone-with-effect:item-delete", "undone-with-effect:nest", "undone-with-effect:rel-delete", "undone-in-chain", "undone-again-with-effect:item-create", "undone-with-effect:item-create-or-set", "undone-with-effect:rel-clear"},
		Families: []Family{
			{Name: "direct", Weight: 120, Gen: mixed(undoW, 8, 40), Run: direct},
			{Name: "reused", Weight: 60, Gen: func(r *Rng, c *Case, th bool) {
				mixed(undoW, 8, 30)(r, c, th)
				var ops []Op
				for i, op := range c.Ops {
					ops = append(ops, op)
					for i > 2 && r.chance(0.5) {
						ops = append(ops, c.Ops[r.IntN(i+1)])
					}
				}
				c.Ops = ops
			}, Run: reused},
			hugeFamily(1030, 1200, hugeC07),
			{Name: "chain", Weight: 120, Gen: withUndo(undoW.with(Weights{KUndo: 4}), 8, 50), Run: chain},
		}})

	// C08: history.
	c08 := func(c *Case, rec *Rec) {
		s, _, ops := start(c, rec)
		type entry struct {
			text string
			snap *Snap // the world after it
		}
		first, _ := snapFull(s.w, nil)
		var hist []entry
		n := 0 // commands not undone
		at := func() *Snap {
			if n == 0 {
				return first
			}
			return hist[n-1].snap
		}
		blind := c.Ints["blind"]
		checks := 0
		check := func(last bool) string {
			h := s.a.History()
			if len(h) != n {
				return fmt.Sprintf("the history has %d commands, expected %d", len(h), n)
			}
			checks++
			look := last || blind < 2 || checks%blind == 0
			for i := range h {
				if !look && i < n-2 {
					continue
				}
				if hist[i].text == h[i].String() {
					continue
				}
				want, err1 := parsedAttrs(hist[i].text)
				got, err2 := parsedAttrs(h[i].String())
				if err1 != nil || err2 != nil || diffAttrs(want, got) != "" {
					return fmt.Sprintf("command %d of the history is %q, executed was %q", i, h[i].String(), hist[i].text)
				}
			}
			if s.a.CanUndo() != (n > 0) {
				return fmt.Sprintf("can undo: %v, with %d commands to undo", s.a.CanUndo(), n)
			}
			if s.a.CanRedo() != (n < len(hist)) {
				return fmt.Sprintf("can redo: %v, with %d commands to redo", s.a.CanRedo(), len(hist)-n)
			}
			if !look {
				rec.Ev("position-checked")
				return ""
			}
			if v := sameWorld(at(), s.w, nil); v != "" {
				return fmt.Sprintf("the world is not the one after %d of %d commands: %s", n, len(hist), v)
			}
			rec.Ev("position-checked")
			rec.Ev("world-compared")
			if n > 256 {
				rec.Ev("long-history")
			}
			return ""
		}
		for i, op := range ops {
			fail := func(f string, a ...any) { rec.Fail("step %d, %s %s: %s", i, op.K, op.Text, fmt.Sprintf(f, a...)) }
			switch op.K {
			case KUndo:
				if !hooksAvailable {
					continue
				}
				for k := 0; k < op.N; k++ {
					err, more := appUndo(s.a)
					if n > 0 {
						if err != nil {
							fail("undo of %q failed: %v", hist[n-1].text, err)
							return
						}
						n--
						if more != len(hist)-n {
							fail("undo says that %d commands can be redone, expected %d", more, len(hist)-n)
							return
						}
						rec.Ev("undo")
					} else {
						rec.Ev("undo-at-the-start")
					}
					if v := check(false); v != "" {
						fail("after undo: %s", v)
						return
					}
				}
			case KRedo:
				if !hooksAvailable {
					continue
				}
				for k := 0; k < op.N; k++ {
					err, more := appRedo(s.a)
					if n < len(hist) {
						if err != nil {
							fail("redo of %q failed: %v", hist[n].text, err)
							return
						}
						n++
						if more != len(hist)-n {
							fail("redo says that %d commands can be redone, expected %d", more, len(hist)-n)
							return
						}
						rec.Ev("redo")
						rec.Nontrivial = true
					} else {
						rec.Ev("redo-at-the-end")
					}
					if v := check(false); v != "" {
						fail("after redo: %s", v)
						return
					}
				}
			default:
				r := s.exec(op)
				if r.OK {
					if n < len(hist) {
						rec.EvN("undone-commands-discarded", len(hist)-n)
					}
					post := at().Clone()
					if e := post.Apply(op, true); blind < 2 || e.Either || !e.OK {
						post, _ = snapFull(s.w, nil)
					}
					hist = append(hist[:n:n], entry{op.Text, post})
					n++
				} else if !s.a.CanRedo() {
					hist = slices.Clone(hist[:n]) // whether a failed command discards undone ones is not said
				}
				if v := check(false); v != "" {
					fail("%s", v)
					return
				}
			}
			if len(c.Ops) < 100 || i%10 == 0 {
				rec.State(fmt.Sprint(n, len(hist), at().Canon()))
			}
		}
		if v := check(true); v != "" {
			rec.Fail("at the end: %s", v)
		}
	}
	c08gen := func(r *Rng, c *Case, th bool) {
		g := newGen(r, r.idPool())
		if r.chance(0.5) {
			c.Ops = g.seedOps(r.between(2, 6), r.between(0, 4), 0.5)
		}
		w := g.swarm(allW.with(Weights{KUndo: 10, KRedo: 9, KGarbage: 1, KItemDelete: 6})).with(Weights{KUndo: 10, KRedo: 9})
		for i, n := 0, r.between(10, 45); i < n; i++ {
			op := g.op(g.kind(w))
			switch op.K {
			case KUndo, KRedo:
				op.N = 1 + r.IntN(4)
				if r.chance(0.1) {
					op.N = 60
				}
			default:
				g.M.Apply(op, false)
			}
			c.Ops = append(c.Ops, op)
		}
	}
	c08long := func(r *Rng, c *Case, th bool) {
		g := newGen(r, r.idPool())
		w := allW.with(Weights{KItemDelete: 2, KItemCS: 6, KItemSet: 8, KRelCS: 4})
		for i, n := 0, r.pickInt(r.between(270, 700), r.between(1030, 1300)); i < n; i++ {
			op := g.op(g.kind(w))
			switch {
			case i > 260 && r.chance(0.03):
				op = Op{K: KUndo, N: r.between(1, 40)}
			case i > 260 && r.chance(0.03):
				op = Op{K: KRedo, N: r.between(1, 40)}
			default:
				g.M.Apply(op, false)
			}
			c.Ops = append(c.Ops, op)
		}
		c.Ops = append(c.Ops, Op{K: KUndo, N: 2000}, Op{K: KRedo, N: 2000}, Op{K: KUndo, N: r.between(1, 1300)})
		c.Ints = map[string]int{"long": 1}
	}
	need08 := []string{"position-checked", "long-history"}
	if hooksAvailable {
		need08 = []string{"position-checked", "world-compared", "long-history", "undo", "redo", "undone-commands-discarded", "undo-at-the-start", "redo-at-the-end"}
	}
	register(&Prop{ID: "C08", Quick: 8000, Thorough: 50000,
		Rule:     "cases are seeded interleavings of commands (some failing), undo and redo steps, single or many; after every step history, can-undo, can-redo and the whole world are compared with a model that is a list and a position; non-trivial: something was redone",
		Need:     need08,
		Families: []Family{{Name: "mixed", Weight: 60, Gen: c08gen, Run: c08}, {Name: "long", Weight: 1, Gen: c08long, Run: c08}}})

	// C09: replay.
	c09 := func(c *Case, rec *Rec) {
		name := c.Aux["name"]
		s := newSess(name, rec, c.Ops)
		var snaps []*Snap
		undone := false
		run := func(s *Sess, other *Sess, collect bool) []Resp {
			var out []Resp
			for i, op := range c.Ops {
				if other != nil { // something else goes on in the same process
					other.exec(c.Ops[(i*7+3)%len(c.Ops)])
				}
				switch op.K {
				case KUndo:
					if hooksAvailable {
						for k := 0; k < op.N; k++ {
							appUndo(s.a)
						}
						undone = true
					}
					out = append(out, Resp{})
				case KRedo:
					if hooksAvailable {
						for k := 0; k < op.N; k++ {
							appRedo(s.a)
						}
					}
					out = append(out, Resp{})
				default:
					r := s.exec(op)
					if r.OK && collect && c.Ints["blind"] < 2 {
						snaps = append(snaps, snapQuick(s.w))
					}
					out = append(out, r)
				}
			}
			return out
		}
		first := run(s, nil, true)
		final, _ := snapFull(s.w, s.ids)
		texts := histTexts(s.a)
		// The same sequence again, next to another application.
		s2 := newSess(name, nil, c.Ops)
		second := run(s2, newSess(name, nil, c.Ops), false)
		for i, op := range c.Ops {
			if op.K == KUndo || op.K == KRedo {
				continue
			}
			if op.K == KRelFetch && !op.Strict && first[i].OK && second[i].OK {
				continue
			}
			if v := sameAnswer(op, first[i], second[i]); v != "" {
				rec.Fail("step %d, %s: executed in a second application, %s", i, op.Text, v)
				return
			}
		}
		if v := Diff(final, snapQuick(s2.w)); v != "" {
			rec.Fail("the same commands gave another world: %s", v)
			return
		}
		// Replays of the history.
		for k := 0; k < 2; k++ {
			s3 := newSess(name, nil, c.Ops)
			for i, t := range texts {
				r := readResp(s3.a.Exec(t))
				if !r.OK {
					rec.Fail("replay: command %d of %d, %q, fails: %s", i, len(texts), t, clip(r.Raw))
					return
				}
				rec.Ev("replayed")
				if !undone && i < len(snaps) {
					if v := Diff(snaps[i], snapQuick(s3.w)); v != "" {
						rec.Fail("replay: after command %d of %d, %q: %s", i, len(texts), t, v)
						return
					}
				}
			}
			if v := sameWorld(final, s3.w, s.ids); v != "" {
				rec.Fail("replay of %d commands: %s", len(texts), v)
				return
			}
		}
		if undone {
			rec.Ev("replayed-after-undo")
		}
		rec.State(final.Canon())
		rec.Nontrivial = len(final.Items) > 1 && len(texts) > 5
	}
	c09gen := func(r *Rng, c *Case, th bool) {
		w := allW
		if r.chance(0.4) {
			w = allW.with(Weights{KUndo: 4, KRedo: 2})
		}
		mixed(w, 8, 50)(r, c, th)
		for i := range c.Ops {
			if k := c.Ops[i].K; k == KUndo || k == KRedo {
				c.Ops[i].N = 1 + r.IntN(5)
			}
		}
		c.Aux = map[string]string{"name": r.pick([]string{"w", "my world", "world", "a::b"})}
	}
	register(&Prop{ID: "C09", Quick: 4000, Thorough: 60000,
		Rule: "cases are seeded command sequences, some with undo and redo; each is executed twice in one process, next to an unrelated application, and answers and worlds compared; then the history's texts are replayed twice on fresh worlds, comparing the world after each command; non-trivial: a history of more than 5 commands that leaves several items",
		Need: []string{"replayed"},
		Families: []Family{
			{Name: "mixed", Weight: 30, Gen: c09gen, Run: c09},
			{Name: "big", Weight: 1, Gen: func(r *Rng, c *Case, th bool) {
				bigWorld(allW, 80, 40)(r, c, th)
				c.Aux = map[string]string{"name": "w"}
			}, Run: c09},
			{Name: "long", Weight: 1, Gen: func(r *Rng, c *Case, th bool) {
				g := newGen(r, r.idPool())
				c.Ops = g.ops(r.pickInt(r.between(270, 600), r.between(270, 600), r.between(1030, 1200)), allW.with(Weights{KItemDelete: 1, KItemSet: 6, KRelCS: 5}))
				c.Aux = map[string]string{"name": "w"}
				c.Ints = map[string]int{"long": 1}
			}, Run: c09},
		}})

	// C12: responses.
	c12 := func(c *Case, rec *Rec) {
		s, _, ops := start(c, rec)
		for i, op := range ops {
			fail := func(f string, a ...any) {
				rec.Fail("step %d, %q: %s", i, clip(op.Text), fmt.Sprintf(f, a...))
			}
			pre := snapQuick(s.w)
			t0 := time.Now()
			raw := s.a.Exec(op.Text)
			if d := time.Since(t0); d > 25*time.Second { // the most that was ever seen is half a second
				fail("%d bytes took %v", len(op.Text), d)
				return
			}
			r := readResp(raw)
			if r.Bad != "" {
				fail("the response %q is %s", clip(raw), r.Bad)
				return
			}
			p, err := grammar.Parse(raw)
			if err != nil {
				fail("the response %q is not valid grammar: %v", clip(raw), clip(err.Error()))
				return
			}
			if want := map[bool]string{true: "Response", false: "Status"}[r.OK]; p.StmtType != want && p.StmtType != "Response" {
				fail("the response %q is parsed as %q", clip(raw), p.StmtType)
				return
			}
			if p.Response.Status.Code != r.Code {
				fail("the response %q is parsed with code %d", clip(raw), p.Response.Status.Code)
				return
			}
			if r.OK {
				if r.Body == "" && op.K != KItemList && op.K != KRelList && op.K != KItemIn && op.K != KTo && op.K != KFrom && op.K != "text" {
					fail("the response %q has no object", clip(raw))
					return
				}
			} else {
				if r.Code < 400 || r.Code > 499 {
					fail("error code %d", r.Code)
					return
				}
				if strings.Trim(r.Message, " :") == "" {
					fail("the error %q has no message", clip(raw))
					return
				}
				if m := p.Response.Status.Message; strings.Trim(m, `" :`) == "" || !strings.Contains(r.Message, strings.Trim(m, `"`)) {
					fail("the error %q is parsed with message %q", clip(raw), clip(m))
					return
				}
				if v := Diff(pre, snapQuick(s.w)); v != "" {
					fail("answered %q, but %s", clip(raw), v)
					return
				}
			}
			q, err := grammar.Parse(op.Text)
			if valid := err == nil && q.StmtType == "Command"; !valid && r.OK {
				fail("it is not valid grammar, but answered %q", clip(raw))
				return
			}
			switch op.K {
			case "text":
				if r.OK {
					rec.Ev("hostile-text-ok")
				} else {
					rec.Ev("hostile-text-refused")
				}
				if r.OK && (strings.Count(op.Text, `"`)%2 == 1 || strings.TrimSpace(op.Text) == "" || strings.ContainsAny(op.Text, "\x00{}<>|\\'\x7f") || hasNonASCII(op.Text)) {
					fail("it cannot be a command, but answered %q", clip(raw))
					return
				}
				if len(op.Text) > 10000 {
					rec.Ev("large-text")
				}
				rec.Nontrivial = true
			case KGarbage:
				if r.OK {
					fail("it is no command, but answered %q", clip(raw))
					return
				}
				rec.Ev("garbage-refused")
			default:
				e := pre.Clone().Apply(op, r.OK)
				if !e.Either && e.OK != r.OK {
					fail("expected success: %v, answered %q", e.OK, clip(raw))
					return
				}
				rec.Ev("command")
			}
			rec.State(raw)
		}
		if r := s.exec(Op{K: KWorld, Text: "world"}); !r.OK {
			rec.Fail("afterwards, the world command is answered %q", clip(r.Raw))
		}
	}
	hostile := func(r *Rng, c *Case, th bool) {
		g := newGen(r, r.idPool())
		c.Ops = g.seedOps(r.between(1, 6), r.between(0, 4), 0.5)
		for i, n := 0, r.between(20, 50); i < n; i++ {
			if r.chance(0.2) {
				op := g.op(g.kind(allW.with(Weights{KGarbage: 5})))
				g.M.Apply(op, false)
				c.Ops = append(c.Ops, op)
				continue
			}
			c.Ops = append(c.Ops, Op{K: "text", Text: g.hostileText(allW)})
		}
	}
	large := func(r *Rng, c *Case, th bool) {
		g := newGen(r, r.idPool())
		c.Ops = g.seedOps(r.between(1, 4), r.between(0, 2), 0.5)
		for i := 0; i < 2; i++ {
			c.Ops = append(c.Ops, Op{K: "text", Text: g.largeText()})
		}
	}
	register(&Prop{ID: "C12", Quick: 10000, Thorough: 40000,
		Rule: "cases are seeded sequences of hostile texts (mutated, truncated and spliced commands, token soup, responses, worlds and trees, binary, repeated and deeply nested text up to 64 KiB) among commands; every response is read by an independent reader and by the repository's parser, and judged against what the text certainly is; non-trivial: a case with hostile text",
		Need: []string{"hostile-text-ok", "hostile-text-refused", "large-text", "garbage-refused", "command"},
		Families: []Family{
			{Name: "hostile", Weight: 360, Gen: hostile, Run: c12},
			hugeFamily(1030, 1500, hugeC12),
			{Name: "large", Weight: 30, Gen: large, Run: c12},
		}})

	// C13: parsing.
	c13 := func(c *Case, rec *Rec) {
		// c.Ops: some commands that make a world, then groups of spellings of one command.
		n := min(c.Ints["setup"], len(c.Ops))
		setup, rest := c.Ops[:n], c.Ops[n:]
		var groupWorld *Snap
		var groupResp Resp
		group := -1
		for i, op := range rest {
			got, err := parsedAttrs(op.Text)
			if err != nil {
				rec.Fail("%q is not understood: %v", clip(op.Text), clip(err.Error()))
				return
			}
			if v := diffAttrs(writtenAttrs(op), got); v != "" {
				rec.Fail("%q: %s", clip(op.Text), v)
				return
			}
			rec.Ev("parsed:" + op.K)
			if cmd, err := toCommand(op.Text); err == nil {
				if fl, ok := commandFlags(cmd); ok {
					want := uniq(sortedCopy(got.Flags))
					if !slices.Equal(want, fl) {
						rec.Fail("%q: the command has the flags %q, written %q", clip(op.Text), fl, want)
						return
					}
					rec.Ev("command-flags")
				}
			}
			if len(op.Flags) > 1 {
				rec.Ev("several-flags")
			}
			rec.State(op.Text)
			for _, id := range append([]string{op.A, op.B}, op.Ids...) {
				if isKeyword(id) || strings.Contains(id, " ") {
					rec.Nontrivial = true
					rec.Ev("keyword-or-spaced-id")
				} else if plainId(id) && keywordPrefixed(id) && strings.Contains(op.Text, id) && !strings.Contains(op.Text, `"`+id+`"`) {
					rec.Nontrivial = true
					rec.Ev("unquoted-keyword-prefixed-id")
				}
			}
			if i%3 != 0 && op.N != group {
				continue
			}
			// All spellings of one command do the same.
			s := newSess("w", nil, nil)
			for _, o := range setup {
				s.exec(o)
			}
			pre := snapQuick(s.w)
			r := s.exec(op)
			post := snapQuick(s.w)
			if v := writtenArrived(op, r.OK, pre, post); v != "" {
				rec.Fail("%q: %s", clip(op.Text), v)
				return
			}
			if len(op.P) > 0 && r.OK {
				rec.Ev("values-arrived")
			}
			if op.N != group {
				group, groupWorld, groupResp = op.N, post, r
				continue
			}
			if v := Diff(groupWorld, post); v != "" {
				rec.Fail("%q does something else than another spelling of the same command: %s", clip(op.Text), v)
				return
			}
			if op.K == KRelFetch && !op.Strict && r.OK && groupResp.OK {
				continue
			}
			if v := sameAnswer(op, groupResp, r); v != "" {
				rec.Fail("%q does something else than another spelling of the same command: %s", clip(op.Text), v)
				return
			}
			rec.Ev("spellings-compared")
		}
	}
	c13gen := func(r *Rng, c *Case, th bool) {
		g := newGen(r, r.idPool())
		if r.chance(0.5) {
			g.Pool = uniq(append(g.Pool, hostileGroups[5+r.IntN(2)]...))
		}
		c.Ops = g.seedOps(r.between(2, 6), r.between(0, 4), 0.5)
		c.Ints = map[string]int{"setup": len(c.Ops)}
		for i, n := 0, r.between(6, 14); i < n; i++ {
			op := g.op(g.kind(allW.with(Weights{KItemCreate: 3, KNest: 3, KItemFetch: 2, KRelFetch: 2, KIn: 2, KTo: 2, KFrom: 2, KItemIn: 2, KItemExists: 2, KRelExists: 2, KFree: 3, KItemCF: 3})))
			op.N = i
			if op.Flags == nil && r.chance(0.25) {
				op.Strict = op.Strict || op.K != KRelFetch && op.K != KTo && op.K != KFrom && r.chance(0.3)
				g.flags(&op, []string{"verbose", "ids"})
			}
			for k, m := 0, r.between(2, 4); k < m; k++ {
				o := op
				g.render(&o)
				c.Ops = append(c.Ops, o)
			}
		}
	}
	register(&Prop{ID: "C13", Quick: 9000, Thorough: 150000,
		Rule:     "cases are seeded commands of every kind, each written in several ways (quotes or none, any whitespace, -flag or --flag, item or items, item? or item exists) with confusable, spaced and keyword-like ids; the parse result is compared with what was written, and different spellings are executed in equal worlds and compared; non-trivial: an id that is a keyword, begins with one unquoted, or contains a space",
		Need:     []string{"unquoted-keyword-prefixed-id", "keyword-or-spaced-id", "spellings-compared", "values-arrived", "several-flags", "parsed:nest", "parsed:item-in", "parsed:rel-clear"},
		Families: []Family{{Name: "spellings", Weight: 300, Gen: c13gen, Run: c13}, hugeFamily(1030, 1500, hugeC13)}})
}

func keywordPrefixed(id string) bool {
	for _, k := range append([]string{"to", "from"}, keywords...) {
		if strings.HasPrefix(id, k) {
			return true
		}
	}
	return false
}

func hasNonASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return true
		}
	}
	return false
}

var soup = []string{"item", "items", "rel", "rels", "world", "create", "delete", "set", "clear", "fetch", "list", "exists", "free", "nest", "in", "in?", "to?", "from?",
	"item?", "rel?", "-strict", "--strict", "--ids", "-verbose", "name=", "type=", "external=", "verb=", "async=", "mechanism=", "expanded=", "true", "false", "person",
	"a", "b", "c", `"a b"`, `""`, `"`, "=", "$$", "$$$$", "200", "ok", "error", "450", "tree{", "nil", "::[", "]}", "}", "$$world", "endworld$$", "version=1", "id=w", "-", "--",
	"0", "99999999999999999999", "\n", "\t", "\r\n", "\x00", "\xff", "é", ",", ";", "/", "'"}

// asIf is a command written as if the console were a shell or some other language.
func (r *Rng) asIf(s string) string {
	a, b := strings.TrimSpace(s), r.pick([]string{"item create zz", "world", "item zz"})
	switch r.IntN(16) {
	case 0:
		return a + ";"
	case 1:
		return a + r.pick([]string{"; ", " ; ", ";", " && ", " & ", " || ", " | ", ", ", " then ", " \\n "}) + b
	case 2:
		return a + r.pick([]string{" # why", " // why", " -- why", "# why", " ! why", " /* why */"})
	case 3:
		return r.pick([]string{"# ", "// ", "-- ", "#", "$ ", "% ", "! ", "/", "\\", ":", ".", "> ", "sudo ", "topolith ", "please ", "repeat 2 ", "2 ", "- ", "@"}) + a
	case 4:
		return a + r.pick([]string{"\\", " \\", "\\n", ".", "!", "?", ",", " .", "...", "$$", " $$", "}", " -", " --"})
	case 5:
		return strings.ToUpper(a)
	case 6:
		return strings.ToUpper(a[:min(1, len(a))]) + a[min(1, len(a)):]
	case 7:
		return strings.ReplaceAll(a, "\"", "'")
	case 8:
		return strings.ReplaceAll(a, "\"", "\u201d")
	case 9:
		return "`" + a + "`"
	case 10:
		return "'" + a + "'"
	case 11:
		return "\"" + a + "\""
	case 12:
		return "(" + a + ")"
	case 13:
		return strings.ReplaceAll(a, "=", " = ")
	case 14:
		return strings.ReplaceAll(a, "=", ": ")
	default:
		return a + " " + a
	}
}

// hostileText is anything at all.
func (g *Gen) hostileText(w Weights) string {
	valid := func() string {
		for {
			if op := g.op(g.kind(w)); op.Text != "" {
				return op.Text
			}
		}
	}
	switch g.IntN(15) {
	case 14: // short
		t := g.pick(append([]string{""}, soup...))
		for k := g.between(1, 5); k > 0; k-- {
			i := g.IntN(len(t) + 1)
			t = t[:i] + g.pick([]string{"\"", "{", "}", "\\", "<", "'", "|", "`", "?", "/", "\"\"", " ", "\t", "\x00", "$", ":", "=", "é", "\xff", "200 ok", "error"}) + t[i:]
		}
		return t
	case 13:
		return g.asIf(valid())
	case 0: // truncated
		t := valid()
		return t[:g.IntN(len(t)+1)]
	case 1, 2: // bytes changed
		b := []byte(valid())
		for k := 0; k <= g.IntN(4) && len(b) > 0; k++ {
			i := g.IntN(len(b))
			switch g.IntN(4) {
			case 0:
				b[i] = byte(g.IntN(256))
			case 1:
				b = append(b[:i:i], b[i+1:]...)
			case 2:
				b = append(b[:i:i], append([]byte{" \"=-$?\n\x00"[g.IntN(8)]}, b[i:]...)...)
			default:
				b[i] = " \"=-$?\n\x00%}{[]"[g.IntN(13)]
			}
		}
		return string(b)
	case 3: // spliced
		a, b := valid(), valid()
		return a[:g.IntN(len(a)+1)] + b[g.IntN(len(b)+1):]
	case 4: // two commands
		return valid() + g.pick([]string{" ", "\n", ";", "", " && ", "$$$$"}) + valid()
	case 5, 6:
		var p []string
		for k := 0; k < g.between(1, 12); k++ {
			p = append(p, g.pick(soup))
		}
		return strings.Join(p, g.pick([]string{" ", "", "  ", "\t"}))
	case 7: // a response
		return g.pick([]string{"item a\n$$$$\n200 ok ", "200 ok", `450 error "x"`, "$$$$ 200 ok", "\n$$$$\n200 ok \n", "true\n$$$$\n200 ok", `item a name="b"` + "\n$$$$\n200 ok fine"})
	case 8: // a world or a tree
		return g.pick([]string{"$$world version=1 id=w name=w expanded=\"\" tree{nil::[]} endworld$$", "tree{nil::[]}", "tree{item a::[tree{item b::[]}]}",
			"$$world version=1 id=w name=w expanded=\"\" tree{nil::[tree{item a::[]}]} rel a a endworld$$", "$$world", "endworld$$"})
	case 9: // binary
		return g.text2(0, 60)
	case 10: // keywords where ids go
		return g.pick([]string{"item create item", "item create in", "rel create rel item", "nest in in in", "free free", "item fetch world", "item item", "rel rel rel", "nest a in in", "item -strict", "item create -x"})
	case 11: // flags and limits
		return valid() + g.pick([]string{" -strict", " --ids", " -verbose --strict", " -", " --", " --nope", " 5", " -5", " 99999999999999999999", " 1.5", " limit=3"})
	default:
		return "item create x " + g.pick([]string{"name=", "expanded=", "mechanism="}) + `"` + g.text(quotedAlpha+"{}<>|\\'\x00\n\t", 0, 30) + `"`
	}
}

func (g *Gen) text2(lo, hi int) string {
	b := make([]byte, g.between(lo, hi))
	for i := range b {
		b[i] = byte(g.IntN(256))
	}
	return string(b)
}

// largeText is up to 64 KiB.
func (g *Gen) largeText() string { return g.largeN(1<<g.between(10, 16), g.IntN(16)) }

func (g *Gen) largeN(n, kind int) string {
	rep := func(s string) string { return strings.Repeat(s, n/len(s)) }
	switch kind {
	case 0:
		return "item create " + rep("a")
	case 1:
		return `item create x name="` + rep("z ") + `"`
	case 2:
		return "free " + rep("a ")
	case 3:
		return "nest " + rep("a ") + "in b"
	case 4:
		return rep(" ")
	case 5:
		return rep(`"`)
	case 6:
		k := n / 24
		return strings.Repeat("tree{nil::[", k) + strings.Repeat("]}", k)
	case 7:
		k := n / 12
		return strings.Repeat("tree{nil::[", k)
	case 8:
		k := n / 24
		return "$$world version=1 id=w name=w expanded=\"\" " + strings.Repeat("tree{item a::[", k) + strings.Repeat("]}", k) + " endworld$$"
	case 9:
		return rep("rel a b ")
	case 10:
		return rep("item a ") + "\n$$$$\n200 ok"
	case 11:
		return g.text2(n, n)
	case 12:
		return "item create x " + rep("name=y ")
	case 13:
		return "item fetch a " + rep("-strict ")
	case 14:
		return "item list " + rep("9")
	default:
		return g.text(wordAlpha+" \"=$:{}[]?\n", n, n)
	}
}
