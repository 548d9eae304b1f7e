package main

import (
	stderrors "errors"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"slices"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/williamflynt/topolith/pkg/app"
	"github.com/williamflynt/topolith/pkg/errors"
	"github.com/williamflynt/topolith/pkg/grammar"
	"github.com/williamflynt/topolith/pkg/persistence"
	"github.com/williamflynt/topolith/pkg/world"
)

// normalAnswer is a response without what may differ between two runs of the same commands.
func normalAnswer(op Op, r Resp) string {
	body := r.Body
	switch op.K {
	case KRelFetch:
		if !op.Strict {
			body = "any"
		}
	case KItemList, KRelList, KItemIn, KTo, KFrom:
		lines := strings.Split(body, "\n")
		sort.Strings(lines)
		body = strings.Join(lines, "\n")
		if op.Limit != nil && *op.Limit > 0 {
			body = fmt.Sprint(len(lines))
		}
	case KWorld:
		if s, err := readWorldText(body); err == nil {
			body = s.Canon()
		}
	}
	return fmt.Sprint(r.OK, r.Code, r.Message, body)
}

// job is what one user does with one application: commands, and reading and writing worlds and trees.
type job struct {
	seed uint64
	n    int
	ops  []Op
	pace func() // lets others run
	// Texts that all jobs of a case read.
	shared sharedTexts
}

type sharedTexts struct {
	worlds, trees, cmds []string
}

func makeShared(seed uint64, n int) (t sharedTexts) {
	g := newGen(newRng(seed, "shared", n), nil)
	for i := 0; i < 2; i++ {
		g.Pool = g.idPool()
		ops := g.seedOps(g.between(2, 7), g.between(0, 5), 0.6)
		s := newSess("shared", nil, ops)
		for _, op := range ops {
			s.exec(op)
			t.cmds = append(t.cmds, op.Text)
		}
		t.worlds = append(t.worlds, s.w.String())
		if a := treeStart(s.w.String()); a >= 0 {
			if b := treeEnd(s.w.String(), a); b > a {
				t.trees = append(t.trees, s.w.String()[a:b])
			}
		}
	}
	t.trees = append(t.trees, "tree{item a::[tree{item b::[tree{item c::[]}]}]}", "")
	return t
}

func makeJob(seed uint64, n int, size int) *job {
	j := &job{seed: seed, n: n}
	g := newGen(newRng(seed, "job", n), nil)
	g.Pool = g.idPool()
	j.ops = g.seedOps(g.between(2, 6), g.between(0, 4), 0.5)
	w := mutWeights.with(Weights{KItemFetch: 2, KItemList: 2, KItemIn: 2, KIn: 1, KRelFetch: 2, KRelList: 2, KTo: 1, KFrom: 1, KWorld: 2, KGarbage: 3})
	j.ops = append(j.ops, g.ops(size, w)...)
	return j
}

func (j *job) run(dir string) (out []string, panicked string) {
	defer func() {
		if e := recover(); e != nil {
			panicked = fmt.Sprint("panic: ", e)
		}
	}()
	say := func(format string, a ...any) { out = append(out, fmt.Sprintf(format, a...)) }
	s := newSess(fmt.Sprintf("world %d", j.n%3), nil, j.ops)
	r := newRng(j.seed, "jobrun", j.n)
	// What an undo does after the world was changed by hand can depend on the order of a map. So a job does one or the other.
	byHand := newRng(j.seed, "jobhand", j.n).chance(0.4)
	for i, op := range j.ops {
		if j.pace != nil {
			j.pace()
		}
		say("%d %s", i, normalAnswer(op, s.exec(op)))
		switch r.IntN(26) {
		case 17, 18: // undo some, redo some
			if hooksAvailable && !byHand {
				for k := r.between(1, 5); k > 0; k-- {
					err, left := appUndo(s.a)
					say("undo %v %d", err, left)
				}
				for k := r.between(0, 4); k > 0; k-- {
					err, left := appRedo(s.a)
					say("redo %v %d", err, left)
				}
				say("%q %v %v %s", histTexts(s.a), s.a.CanUndo(), s.a.CanRedo(), snapQuick(s.w).Canon())
			}
		case 19: // undo by the command's own
			if c, err := toCommand(op.Text); err == nil {
				o, err := c.Execute(s.w)
				say("executed %v", err)
				if err == nil {
					if op.K == KItemCreate || op.K == KNest {
						say("%v", o)
					}
					say("undone %v %s", c.Undo(s.w), snapQuick(s.w).Canon())
				}
			}
		case 20, 21:
			w := s.w
			if !byHand {
				w2, err := world.FromString(s.w.String())
				if err != nil {
					w2 = world.CreateWorld("other")
				}
				w = w2
			}
			j.worldOps(w, r, say)
		case 22:
			j.treeOps(r, say)
		case 23:
			j.values(s.w, r, say)
		case 24:
			if dir != "" {
				fp := persistence.NewFilePersistence()
				fp.SetSourcePath(dir)
				_, err := fp.ListWorlds()
				say("listing %v", err == nil)
				_, err = fp.Load(fmt.Sprintf("never saved %d", j.n))
				say("never saved %v", err == nil)
				say("cannot be saved %v", fp.Save(world.CreateWorld("a/b")) == nil)
			}
		case 0:
			w2, err := world.FromString(s.w.String())
			say("reread %v", err == nil)
			if err == nil {
				say("%v %s", world.WorldEqual(s.w, w2), snapQuick(w2).Canon())
			}
		case 1:
			t, m, err := world.TreeFromString("")
			say("empty tree %v %d %v %s", t.Empty(), len(m), err, treeCanon(t, 0))
			t.AddOrMove(&world.Item{Id: fmt.Sprintf("t%d-%d", j.n, i)})
			m["x"] = world.Item{Id: "x"}
			say("tree %s", treeCanon(t, 0))
			say("its parent %s", treeCanon(t.Parent(), 0))
		case 2:
			t, m, err := world.TreeFromString(fmt.Sprintf("tree{item a%d::[tree{item b::[tree{item c::[]}]}]}", j.n))
			if err == nil {
				t.Delete("b")
				say("tree %s %d", treeCanon(t, 0), len(m))
				t.Delete(fmt.Sprintf("a%d", j.n))
				say("tree %s", treeCanon(t, 0))
				say("its parent %s", treeCanon(t.Parent(), 0))
			}
		case 3:
			e := errors.New(op.Text).UseCode(errors.TopolithErrorInvalid).WithData(errors.KvPair{Key: "job", Value: fmt.Sprint(j.n)})
			say("error %s %v", e.WithError(fmt.Errorf("e%d", j.n)).Error(), e.Data)
		case 4:
			say("history %q %v %v", histTexts(s.a), s.a.CanUndo(), s.a.CanRedo())
		case 5:
			its := s.w.ItemList(0)
			for k := range its {
				its[k] = world.Item{Id: "overwritten"}
			}
			say("%s", snapQuick(s.w).Canon())
		case 6:
			if dir != "" && r.chance(0.3) {
				fp := persistence.NewFilePersistence()
				fp.SetSourcePath(dir)
				w := world.CreateWorld(fmt.Sprintf("saved %d", j.n))
				w.ItemCreate(fmt.Sprintf("i%d", i), world.ItemParams{})
				say("saved %v", fp.Save(w))
				w2, err := fp.Load(w.Name())
				say("loaded %v", err)
				if err == nil {
					say("%v", world.WorldEqual(w, w2))
				}
			}
		case 7:
			p, err := grammar.Parse(op.Text)
			say("parse %v %v", err == nil, p.InputAttributes)
			// The result is the caller's.
			for k := range p.InputAttributes.ResourceIds {
				p.InputAttributes.ResourceIds[k] = "overwritten"
			}
			p.InputAttributes.SecondaryIds = append(p.InputAttributes.SecondaryIds, "added")
			for k := range p.InputAttributes.Params {
				p.InputAttributes.Params[k] = "overwritten"
			}
			p, err = grammar.Parse(op.Text)
			say("again %v %v", err == nil, p.InputAttributes)
		case 8:
			if len(j.shared.worlds) > 0 {
				w2, err := world.FromString(r.pick(j.shared.worlds))
				say("shared world %v", err)
				if err == nil {
					say("%s", snapQuick(w2).Canon())
					its := mitems(w2.ItemList(0))
					sort.Slice(its, func(a, b int) bool { return its[a].Id < its[b].Id })
					for k, it := range its {
						switch k % 3 {
						case 0:
							w2.ItemDelete(it.Id)
						case 1:
							w2.Free(it.Id).ItemSet(it.Id, world.ItemParams{Name: ptr(fmt.Sprint(j.n))})
						}
					}
					say("%s", snapQuick(w2).Canon())
				}
			}
		case 9:
			if len(j.shared.trees) > 0 {
				t, m, err := world.TreeFromString(r.pick(j.shared.trees))
				say("shared tree %v %s %d", err, treeCanon(t, 0), len(m))
				if err == nil {
					for id := range m {
						m[id] = world.Item{Id: "overwritten"}
					}
					t.AddOrMove(&world.Item{Id: fmt.Sprintf("new-%d", j.n)})
					t.Delete("b")
					say("%s", treeCanon(t, 0))
				}
			}
		case 10:
			if len(j.shared.cmds) > 0 {
				p, err := grammar.Parse(r.pick(j.shared.cmds))
				say("shared command %v %v", err, p.InputAttributes)
				for k := range p.InputAttributes.ResourceIds {
					p.InputAttributes.ResourceIds[k] = "overwritten"
				}
				for k := range p.InputAttributes.Params {
					p.InputAttributes.Params[k] = "overwritten"
				}
			}
		}
	}
	say("%s", snapQuick(s.w).Canon())
	return out, ""
}

// worldOps calls the operations of a world directly, some of them in vain.
func (j *job) worldOps(w world.World, r *Rng, say func(string, ...any)) {
	ids := append(uniq(opIds(j.ops)), "unknown")
	for k := r.between(2, 8); k > 0; k-- {
		a, b := r.pick(ids), r.pick(ids)
		name := fmt.Sprintf("n%d", r.IntN(3))
		typ := r.pick([]string{"person", "queue", "", "no-type", "3", "99"})
		code := func(err error) string {
			var te errors.TopolithError
			if stderrors.As(err, &te) {
				return fmt.Sprintf("%d %s %s %v", te.Code, te.Description, te.Message, te.Data)
			}
			return fmt.Sprint(err)
		}
		switch r.IntN(12) {
		case 0, 1:
			i, err := w.ItemCreate(a, world.ItemParams{Name: &name, Type: &typ}).Item()
			say("create %+v %s", i, code(err))
		case 2:
			i, err := w.ItemSet(a, world.ItemParams{Expanded: &name, Type: &typ}).Item()
			say("set %+v %s", i, code(err))
		case 3, 4:
			x, err := w.RelCreate(a, b, world.RelParams{Verb: &name}).Rel()
			say("rel %+v %s", x, code(err))
		case 5:
			x, err := w.RelSet(a, b, world.RelParams{Mechanism: &name, Async: ptr(true)}).Rel()
			say("rel set %+v %s", x, code(err))
		case 6:
			i, err := w.Nest(a, b).Item()
			say("nest %+v %s", i, code(err))
		case 7:
			i, err := w.Free(a).Item()
			say("free %+v %s", i, code(err))
		case 8:
			say("delete %s", code(w.RelDelete(a, b).Err()))
		case 9:
			say("delete %s", code(w.ItemDelete(a).Err()))
		case 10:
			w.SetVersion(r.IntN(9)).SetExpanded(name).SetId(name).SetName(w.Name())
			say("info %d %s %s %s", w.Version(), w.Id(), w.Name(), w.Expanded())
		case 11:
			p, ok := w.ItemParent(a)
			say("parent %+v %v %v", p, ok, w.In(a, b, false))
			say("%d %d %d %d", len(w.RelFrom(a, false)), len(w.RelTo(a, false)), len(w.RelFetch(a, b, false)), len(w.RelFetch(a, b, true)))
		}
	}
	say("%s", snapQuick(w).Canon())
}

// treeOps makes a tree of its own and changes it.
func (j *job) treeOps(r *Rng, say func(string, ...any)) {
	t, _, err := world.TreeFromString("tree{nil::[]}")
	if err != nil {
		say("%v", err)
		return
	}
	t2, _, _ := world.TreeFromString("")
	for k := 0; k < 12; k++ {
		id := fmt.Sprintf("%c%d", 'a'+r.IntN(6), j.n%2)
		for _, x := range []world.Tree{t, t2} {
			if k%4 == 3 {
				x.Delete(id)
				continue
			}
			under := x
			if f, ok := x.Find(fmt.Sprintf("%c%d", 'a'+k%6, j.n%2)); ok {
				under = f
			}
			say("%v", under.AddOrMove(&world.Item{Id: id, Name: "x"}) == nil)
		}
		say("%v %v %v %s", t.Has(id, false), t.Has(id, true), world.TreeEqual(t, t2), treeCanon(t, 0))
		d := t.GetDescendantIds(id)
		sort.Strings(d)
		say("%q %v", d, t.AddOrMove(nil) == nil)
	}
	x, m, err := world.TreeFromString(t.String())
	say("%v %d", err, len(m))
	if err == nil {
		say("%v %v %v", world.TreeEqual(t, x), world.TreeEqual(x, t), x.Empty())
	}
	_, _, err = world.TreeFromString(t.String() + "]")
	say("not a tree %v", err == nil)
}

// values prints, reads and compares items, relationships and errors.
func (j *job) values(w world.World, r *Rng, say func(string, ...any)) {
	its, rels := w.ItemList(0), w.RelList(0)
	sort.Slice(its, func(a, b int) bool { return its[a].Id < its[b].Id })
	sort.Slice(rels, func(a, b int) bool {
		return rels[a].From.Id < rels[b].From.Id || rels[a].From.Id == rels[b].From.Id && rels[a].To.Id < rels[b].To.Id
	})
	for k, it := range its {
		x, err := world.ItemFromString(it.String())
		say("%+v %v %v", x, err, world.ItemEqual(it, x))
		x.Expanded += "x"
		say("%v %v", world.ItemEqual(it, x), world.ItemEqual(it, its[(k+1)%len(its)]))
	}
	for k, x := range rels {
		y, err := world.RelFromString(w, x.String())
		say("%+v %v %v %v", y, err, world.RelEqual(x, y), world.RelEqual(x, rels[(k+1)%len(rels)]))
	}
	_, err := world.ItemFromString("item a name=\"")
	say("no item %v", err == nil)
	_, err = world.RelFromString(w, "rel \"unknown 1\" \"unknown 2\"")
	say("no rel %v", err == nil)
	_, err = world.FromString("item a")
	say("no world %v", err)
	e := errors.Join(err, fmt.Errorf("e%d", j.n), nil, errors.New("x").WithDescription("d").ClearData())
	say("%v %v %v %s", e, e.Unwrap(), errors.New("a").WithError(e).UseCode(errors.TopolithErrorNotFound), e.Error())
	say("%d %q", world.ItemTypeFromString("server"), world.StringFromItemType(world.ItemType(1+r.IntN(9))))
}

func diffOutput(solo, got []string) string {
	for i := range solo {
		if i >= len(got) {
			return fmt.Sprintf("only %d of %d outcomes", len(got), len(solo))
		}
		if solo[i] != got[i] {
			return fmt.Sprintf("outcome %d is %q, alone it is %q", i, clip(got[i]), clip(solo[i]))
		}
	}
	if len(got) != len(solo) {
		return "more outcomes than alone"
	}
	return ""
}

func init() {
	// C18: independence.
	concurrent := func(c *Case, rec *Rec) {
		n := c.Ints["goroutines"]
		r := newRng(c.Seed, "C18", c.N)
		dir := filepath.Join(scratchDir, fmt.Sprintf("c18-%d", c.N))
		os.MkdirAll(dir, 0755)
		defer os.RemoveAll(dir)
		jobs := make([]*job, n)
		outs := make([][]string, n)
		panics := make([]string, n)
		var steps atomic.Int64
		var order sync.Mutex
		switches, last := 0, -1
		shared := makeShared(c.Seed, c.N)
		id := func(i int) int { // in some cases several do exactly the same
			if c.N%4 == 0 {
				return c.N*16 + i%2
			}
			return c.N*16 + i
		}
		for i := range jobs {
			jobs[i] = makeJob(c.Seed, id(i), c.Ints["size"])
			jobs[i].shared = shared
			yield := newRng(c.Seed, "C18y", c.N*16+i)
			i := i
			jobs[i].pace = func() {
				steps.Add(1)
				if yield.chance(0.3) {
					runtime.Gosched()
				}
			}
			_ = r
		}
		dirOf := func(i int) string {
			if c.N%4 != 0 {
				return dir
			}
			d := filepath.Join(dir, fmt.Sprint(i))
			os.MkdirAll(d, 0755)
			return d
		}
		start := make(chan struct{})
		var wg sync.WaitGroup
		for i := range jobs {
			dirOf(i)
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-start
				outs[i], panics[i] = jobs[i].run(dirOf(i))
				order.Lock()
				if last != i {
					switches++
					last = i
				}
				order.Unlock()
			}(i)
		}
		close(start)
		wg.Wait()
		rec.EvN("concurrent-steps", int(steps.Load()))
		for i := range jobs {
			alone := makeJob(c.Seed, id(i), c.Ints["size"])
			alone.shared = makeShared(c.Seed, c.N)
			solo, p := alone.run(dirOf(i))
			if p != panics[i] {
				rec.Fail("run next to %d others: %q, alone: %q", n-1, panics[i], p)
				return
			}
			if v := diffOutput(solo, outs[i]); v != "" {
				rec.Fail("run next to %d others: %s", n-1, v)
				return
			}
			rec.Ev("compared-with-solo-run")
			rec.EvN("outcomes-compared", len(solo))
			rec.State(strings.Join(solo, "\n"))
		}
		rec.Nontrivial = true
	}
	interleaved := func(c *Case, rec *Rec) {
		n := 2 + c.N%3
		r := newRng(c.Seed, "C18i", c.N)
		// Several applications in one goroutine, taking turns; they have worlds of the same name and the same ids.
		var seqs [][]Op
		for i := 0; i < n; i++ {
			var ops []Op
			for k, op := range c.Ops {
				if (k*2654435761+i)%7 != 0 {
					ops = append(ops, op)
				}
			}
			seqs = append(seqs, ops)
		}
		run := func(sess []*Sess, schedule []int) [][]string {
			outs := make([][]string, n)
			at := make([]int, n)
			for _, i := range schedule {
				if at[i] < len(seqs[i]) {
					op := seqs[i][at[i]]
					at[i]++
					if op.K == KUndo || op.K == KRedo {
						if hooksAvailable {
							step := appUndo
							if op.K == KRedo {
								step = appRedo
							}
							for k := 0; k < op.N; k++ {
								err, left := step(sess[i].a)
								outs[i] = append(outs[i], fmt.Sprint(op.K, err, left))
							}
							outs[i] = append(outs[i], snapQuick(sess[i].w).Canon())
							rec.Ev("interleaved-undo-redo")
						}
						continue
					}
					outs[i] = append(outs[i], normalAnswer(op, sess[i].exec(op)))
				}
			}
			for i := range outs {
				outs[i] = append(outs[i], snapQuick(sess[i].w).Canon(), fmt.Sprintf("%q", histTexts(sess[i].a)))
			}
			return outs
		}
		fresh := func() (s []*Sess) {
			for i := 0; i < n; i++ {
				s = append(s, newSess("w", nil, nil))
			}
			return s
		}
		var mixed, solo []int
		for i := 0; i < n; i++ {
			for range seqs[i] {
				solo = append(solo, i)
				mixed = append(mixed, i)
			}
		}
		r.Shuffle(len(mixed), func(i, j int) { mixed[i], mixed[j] = mixed[j], mixed[i] })
		a, b := run(fresh(), solo), run(fresh(), mixed)
		for i := range a {
			if v := diffOutput(a[i], b[i]); v != "" {
				rec.Fail("taking turns with %d others: %s", n-1, v)
				return
			}
			rec.Ev("interleaved-compared")
		}
		rec.Nontrivial = true
	}
	handedOut := func(c *Case, rec *Rec) {
		s := newSess("w", rec, c.Ops)
		type held struct {
			what string
			now  func() string
			was  string
		}
		var hs []held
		hold := func(what string, now func() string) { hs = append(hs, held{what, now, now()}) }
		for i, op := range c.Ops {
			s.exec(op)
			if i%3 != 2 {
				continue
			}
			// Modify everything that is handed out.
			pre, _ := snapFull(s.w, nil)
			hist := histTexts(s.a)
			bad := world.Item{Id: "modified", Name: "modified", External: true}
			for _, f := range []func(){
				func() {
					l := s.w.ItemList(0)
					for k := range l {
						l[k] = bad
					}
				},
				func() {
					l := s.w.RelList(0)
					for k := range l {
						l[k] = world.Rel{From: bad, To: bad, Verb: "modified"}
					}
				},
				func() {
					for _, id := range pre.SortedIds() {
						if l, ok := s.w.Components(id); ok {
							for k := range l {
								l[k] = "modified"
							}
							_ = append(l, "modified")
						}
						if l, ok := s.w.ItemComponents(id); ok {
							for k := range l {
								l[k] = bad
							}
						}
						it, _ := s.w.ItemFetch(id)
						it.Name = "modified"
						it, _ = s.w.ItemParent(id)
						it.Name = "modified"
						for _, st := range []bool{true, false} {
							l := s.w.RelFrom(id, st)
							for k := range l {
								l[k].Verb = "modified"
							}
							l = s.w.RelTo(id, st)
							for k := range l {
								l[k].From = bad
							}
							l = s.w.RelFetch(id, op.A, st)
							for k := range l {
								l[k].Async = !l[k].Async
							}
						}
					}
				},
				func() {
					h := s.a.History()
					for k := range h {
						h[k] = nil
					}
					slices.Reverse(h)
				},
				func() {
					h := s.a.History()
					if len(h) > 1 {
						h[0] = h[len(h)-1]
						_ = append(h[:1], h[0])
					}
				},
				func() { // parameters stay the caller's
					id := "handed over"
					name, typ, ext := "given", "person", true
					s.w.ItemCreate(id, world.ItemParams{Name: &name, Type: &typ, External: &ext})
					x, _ := s.w.ItemFetch(id)
					name, typ, ext = "modified", "queue", false
					y, _ := s.w.ItemFetch(id)
					if x != y {
						rec.Fail("step %d: modifying a parameter after the item was made changed the item to %+v", i, y)
					}
					exp := "given"
					s.w.ItemSet(id, world.ItemParams{Expanded: &exp})
					verb := "given"
					s.w.RelCreate(id, id, world.RelParams{Verb: &verb})
					exp, verb = "modified", "modified"
					y, _ = s.w.ItemFetch(id)
					if l := s.w.RelFetch(id, id, true); len(l) != 1 || l[0].Verb != "given" || y.Expanded != "given" {
						rec.Fail("step %d: modifying a parameter afterwards changed the item or relationship: %+v %+v", i, y, l)
					}
					if w, ok := s.w.ItemSet(id, world.ItemParams{}).(world.WorldWithItem); ok {
						it, _ := w.Item()
						it.Name = "modified"
					}
					s.w.ItemDelete(id)
				},
			} {
				f()
				if rec.Failed() {
					return
				}
				rec.Ev("modified-what-was-handed-out")
			}
			post, pr := snapFull(s.w, nil)
			if v := Diff(pre, post); v != "" || pr.Any() != "" {
				rec.Fail("step %d: modifying what was handed out changed the world: %s %s", i, v, pr.Any())
				return
			}
			if h := histTexts(s.a); !slices.Equal(h, hist) {
				rec.Fail("step %d: modifying a history that was handed out changed it from %q to %q", i, hist, h)
				return
			}
			// Keep some, to see whether later commands change them.
			if i%2 == 0 {
				l, rl, h := s.w.ItemList(0), s.w.RelList(0), s.a.History()
				hold("listing of items", func() string { return fmt.Sprintf("%+v", l) })
				hold("listing of relationships", func() string { return fmt.Sprintf("%+v", rl) })
				hold("history", func() string { return fmt.Sprintf("%q", h) })
				if ids := pre.SortedIds(); len(ids) > 0 {
					id := ids[i%len(ids)]
					cs, _ := s.w.Components(id)
					ci, _ := s.w.ItemComponents(id)
					rf := s.w.RelFrom(id, false)
					hold("components", func() string { return fmt.Sprintf("%q", cs) })
					hold("component items", func() string { return fmt.Sprintf("%+v", ci) })
					hold("relationships from an item", func() string { return fmt.Sprintf("%+v", rf) })
				}
			}
			if len(pre.Items) > 1 {
				rec.Nontrivial = true
			}
			rec.State(pre.Canon())
		}
		for _, h := range hs {
			if now := h.now(); now != h.was {
				rec.Fail("a %s that was handed out was changed by later commands from %q to %q", h.what, clip(h.was), clip(now))
				return
			}
			rec.Ev("kept-value-unchanged")
		}
	}
	size := func(r *Rng, c *Case, th bool) {
		c.Ints = map[string]int{"goroutines": r.between(3, 8), "size": r.between(15, 40), "n": c.N}
	}
	// stores has several applications, each with a directory of its own, store worlds of the same names.
	stores := func(c *Case, rec *Rec) {
		base, err := os.MkdirTemp(scratchDir, "c18-")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(base)
		n := c.Ints["goroutines"]
		bad := make([]string, n)
		apps := make([]app.App, n)
		for g := range apps {
			apps[g], _ = app.NewApp(storedWorld(c, g, "the world", c.Ints["size"]))
			if c.N%2 == 0 {
				apps[g].Persistence().SetSourcePath(filepath.Join(base, fmt.Sprint(g)))
			}
		}
		use := func(g int) string {
			a := apps[g]
			if c.N%2 == 1 {
				a.Persistence().SetSourcePath(filepath.Join(base, fmt.Sprint(g)))
			}
			stored := map[string]*Snap{}
			for k := 0; k < 4; k++ {
				name := "the world"
				if k == 2 {
					name = fmt.Sprintf("only of %d", g)
				}
				a.World().SetName(name)
				if err := a.Persistence().Save(a.World()); err != nil {
					return fmt.Sprintf("cannot save %q: %v", name, err)
				}
				stored[name] = snapQuick(a.World())
				names, err := a.Persistence().ListWorlds()
				if slices.Sort(names); err != nil || len(names) != len(stored) {
					return fmt.Sprintf("lists %q (%v) and not the %d that it saved", names, err, len(stored))
				}
				for _, name := range names {
					w, err := a.Persistence().Load(name)
					if err != nil {
						return fmt.Sprintf("cannot load %q: %v", name, err)
					}
					if stored[name] == nil || Diff(stored[name], snapQuick(w)) != "" {
						return fmt.Sprintf("loads another world as %q than it saved", name)
					}
				}
				a.Exec(fmt.Sprintf("item create-%d-%d", g, k))
			}
			return ""
		}
		var wg sync.WaitGroup
		for g := range apps {
			if c.N%4 < 2 { // one after the other
				if bad[g] = use(g); bad[g] != "" {
					break
				}
				continue
			}
			wg.Add(1)
			go func(g int) { defer wg.Done(); bad[g] = use(g) }(g)
		}
		wg.Wait()
		for g, v := range bad {
			if v != "" {
				rec.Fail("application %d of %d, each with a directory of its own: %s", g, n, v)
				return
			}
		}
		rec.Nontrivial = true
		rec.EvN("stored-in-a-directory-of-its-own", n)
	}
	register(&Prop{ID: "C18", Quick: 1400, Thorough: 20000,
		Rule: "cases are (1) 3 to 8 goroutines, each using an application of its own, worlds' and trees' texts, errors and files, under the race detector with random yields, whose outcomes are compared with the same jobs run alone, (2) several applications with the same names and ids taking turns, compared with one after the other, and (3) modifying everything a world hands out, and keeping it across later commands; non-trivial: all of (1) and (2), and worlds of several items in (3)",
		Need: []string{"compared-with-solo-run", "interleaved-compared", "modified-what-was-handed-out", "kept-value-unchanged", "stored-in-a-directory-of-its-own"},
		Families: []Family{
			{Name: "concurrent", Weight: 4, Gen: size, Run: concurrent},
			{Name: "interleaved", Weight: 2, Gen: func(r *Rng, c *Case, th bool) {
				mixed(mutWeights.with(Weights{KItemList: 2, KWorld: 1, KFrom: 1, KGarbage: 1, KUndo: 3, KRedo: 2}), 10, 40)(r, c, th)
				for i := range c.Ops {
					c.Ops[i].N = 1 + r.IntN(4)
				}
			}, Run: interleaved},
			{Name: "stores", Weight: 1, Gen: func(r *Rng, c *Case, th bool) {
				c.Ints = map[string]int{"goroutines": r.between(2, 4), "size": r.between(1, 8), "n": c.N}
			}, Run: stores},
			{Name: "handed-out", Weight: 2, Gen: mixed(mutWeights, 10, 40), Run: handedOut},
		}})

	// C20: errors.
	type node struct {
		e    errors.TopolithError
		code errors.TopolithErrorCode
		desc string
		msg  string
		data []errors.KvPair
		errs []error
		how  string
	}
	checkNode := func(rec *Rec, i int, n *node) bool {
		if n.e.Code != n.code || n.e.Description != n.desc || n.e.Message != n.msg {
			rec.Fail("error %d (%s) has code %d, description %q, message %q; it was given %d, %q, %q", i, n.how, n.e.Code, n.e.Description, n.e.Message, n.code, n.desc, n.msg)
			return false
		}
		if !slices.Equal(n.e.Data, n.data) {
			rec.Fail("error %d (%s) has data %q, it was given %q", i, n.how, n.e.Data, n.data)
			return false
		}
		u := n.e.Unwrap()
		if len(n.errs) == 0 {
			if u != nil {
				rec.Fail("error %d (%s) unwraps to %v, but wraps nothing", i, n.how, u)
				return false
			}
		} else if fmt.Sprint(u) != fmt.Sprint(n.errs[0]) {
			rec.Fail("error %d (%s) unwraps to %v, the first wrapped error is %v", i, n.how, u, n.errs[0])
			return false
		}
		text := n.e.Error()
		rest := text
		for k, w := range n.errs {
			if w == nil {
				continue
			}
			at := strings.Index(rest, w.Error())
			if at < 0 {
				rec.Fail("error %d (%s): its text %q lacks wrapped error %d, %q, or has it in another place", i, n.how, clip(text), k, w.Error())
				return false
			}
			rest = rest[at+len(w.Error()):]
		}
		p, err := grammar.Parse(text)
		if err != nil {
			rec.Fail("error %d (%s): its text %q is not valid grammar: %v", i, n.how, clip(text), clip(err.Error()))
			return false
		}
		if p.Response.Status.Code != int(n.code) || p.Response.Status.Message != n.desc+": "+n.msg {
			rec.Fail("error %d (%s): its text %q is parsed as %d %q", i, n.how, clip(text), p.Response.Status.Code, p.Response.Status.Message)
			return false
		}
		if n.e.String() != text {
			rec.Fail("error %d (%s) is printed as %q and as %q", i, n.how, clip(text), clip(n.e.String()))
			return false
		}
		return true
	}
	codes := []errors.TopolithErrorCode{errors.TopolithErrorInvalid, errors.TopolithErrorNotFound, errors.TopolithErrorConflict, errors.TopolithErrorCommandErr,
		errors.TopolithErrorInternal, errors.TopolithErrorBadSyncState, errors.TopolithErrorMultiple, 499, 1, 0}
	ownDescription := map[errors.TopolithErrorCode]string{} // as the process begins
	for _, c := range codes {
		if d := errors.New("x").WithDescription("one of its own").UseCode(c).Description; d != "one of its own" {
			ownDescription[c] = d
		}
	}
	msg := func(r *Rng) string {
		for {
			// Text that survives where the grammar trims quotes and blanks.
			if v := r.value(); strings.TrimSpace(v) == v && v != "" {
				return v
			}
		}
	}
	graph := func(c *Case, rec *Rec) {
		r := newRng(c.Seed, "C20", c.N)
		var ns []*node
		sentinels := []error{stderrors.New("plain"), fmt.Errorf("formatted %d", 7), stderrors.New("third one")}
		fresh := func() *node {
			m := msg(r)
			e := errors.New(m)
			return &node{e: e, code: errors.TopolithErrorInternal, desc: e.Description, msg: m, how: "new"}
		}
		ns = append(ns, fresh())
		kv := func() errors.KvPair { return errors.KvPair{Key: r.value(), Value: r.value()} }
		wrapped := func() error {
			if r.chance(0.5) {
				return sentinels[r.IntN(3)]
			}
			return ns[r.IntN(len(ns))].e
		}
		small := func(e error) bool { return len(e.Error()) < 400 }
		for step := 0; step < c.Ints["steps"]; step++ {
			base := ns[r.IntN(len(ns))]
			if r.chance(0.4) {
				base = ns[len(ns)-1] // chains, so that slices grow
			}
			n := *base
			n.data, n.errs = slices.Clone(base.data), slices.Clone(base.errs)
			switch r.IntN(9) {
			case 0:
				n = *fresh()
			case 1:
				n.code = codes[r.IntN(len(codes))]
				if r.chance(0.1) {
					n.code = errors.TopolithErrorCode(1000 + r.IntN(100000))
				}
				n.e = base.e.UseCode(n.code)
				if d, ok := ownDescription[n.code]; ok { // otherwise it keeps the one that it had
					n.desc = d
				} else {
					rec.Ev("code-without-description")
				}
				n.how = "UseCode"
			case 2:
				n.desc = msg(r)
				if r.chance(0.15) {
					n.desc = ""
					rec.Ev("empty-description")
				}
				n.e, n.how = base.e.WithDescription(n.desc), "WithDescription"
			case 3, 4:
				var d []errors.KvPair
				k := r.IntN(4)
				if r.chance(0.05) {
					k = r.between(5, 70)
				}
				for ; k >= 0; k-- {
					d = append(d, kv())
				}
				d = d[: len(d) : len(d)+0]
				n.data = append(n.data, d...)
				n.e, n.how = base.e.WithData(d...), "WithData"
				for k := range d {
					d[k] = errors.KvPair{Key: "modified"} // the caller's slice stays the caller's
				}
				if len(n.data) > 40 {
					n.e, n.data, n.how = n.e.ClearData(), nil, "ClearData"
				}
			case 5:
				n.data = nil
				n.e, n.how = base.e.ClearData(), "ClearData"
			case 6, 7:
				var es []error
				k := r.IntN(3)
				if r.chance(0.05) {
					k = r.between(5, 70)
				}
				for ; k >= 0; k-- {
					if w := wrapped(); small(w) {
						es = append(es, w)
					}
				}
				if len(es) == 0 || len(n.errs) > 20 {
					continue
				}
				n.errs = append(n.errs, es...)
				n.e, n.how = base.e.WithError(es...), "WithError"
				for k := range es {
					es[k] = stderrors.New("modified")
				}
			default:
				var es []error
				k := r.IntN(4)
				if r.chance(0.05) {
					k = r.between(5, 70)
					rec.Ev("joined-many")
				}
				for ; k >= 0; k-- {
					if r.chance(0.2) {
						es = append(es, nil)
					} else if w := wrapped(); small(w) {
						es = append(es, w)
					}
				}
				e := errors.Join(es...)
				n = node{e: e, code: errors.TopolithErrorMultiple, desc: e.Description, msg: e.Message, how: "Join"}
				for k, w := range es {
					if w != nil {
						n.errs = append(n.errs, w)
					}
					es[k] = stderrors.New("modified") // the caller's own
				}
			}
			ns = append(ns, &n)
			rec.Ev("derived:" + n.how)
			for i, m := range ns {
				if !checkNode(rec, i, m) {
					rec.Violation = fmt.Sprintf("after step %d (%s): %s", step, n.how, rec.Violation)
					return
				}
				rec.Ev("error-reread")
			}
			if len(ns) > 24 {
				ns = ns[12:]
			}
		}
		// errors.Is and errors.As go through the first wrapped error.
		for _, s := range sentinels {
			e := errors.New("outer").WithError(s, stderrors.New("other"))
			if !stderrors.Is(e, s) {
				rec.Fail("errors.Is does not reach the first wrapped error")
				return
			}
			var t errors.TopolithError
			if !stderrors.As(fmt.Errorf("around: %w", e), &t) || t.Message != "outer" {
				rec.Fail("errors.As does not find the error")
				return
			}
		}
		rec.Nontrivial = true
		rec.State(fmt.Sprint(c.N))
	}
	shared := func(c *Case, rec *Rec) {
		// Many goroutines derive from the same errors.
		r := newRng(c.Seed, "C20s", c.N)
		base := errors.New("shared")
		var data []errors.KvPair
		var errs []error
		for k := r.between(1, 9); k > 0; k-- {
			d := errors.KvPair{Key: fmt.Sprint("k", k), Value: "v"}
			data = append(data, d)
			base = base.WithData(d)
			e := fmt.Errorf("first %d", k)
			errs = append(errs, e)
			base = base.WithError(e)
		}
		const n = 8
		res := make([]*node, n*4)
		var wg sync.WaitGroup
		start := make(chan struct{})
		for g := 0; g < n; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				<-start
				for k := 0; k < 4; k++ {
					d := errors.KvPair{Key: fmt.Sprint("g", g), Value: fmt.Sprint(k)}
					e := fmt.Errorf("own %d %d", g, k)
					m := &node{code: base.Code, desc: base.Description, msg: "shared", how: "concurrent",
						data: append(slices.Clone(data), d), errs: append(slices.Clone(errs), e)}
					if k%2 == 0 {
						m.e = base.WithData(d).WithError(e)
					} else {
						m.e = base.WithError(e).WithData(d)
					}
					if k > 1 {
						m.code = []errors.TopolithErrorCode{errors.TopolithErrorConflict, errors.TopolithErrorCode(1000 + c.N%1000*100 + g)}[k-2]
						m.e = m.e.UseCode(m.code).WithDescription("own")
						m.desc = "own"
					}
					_ = base.ClearData()
					_ = base.Error()
					_ = errors.Join(base, e, base)
					res[g*4+k] = m
					runtime.Gosched()
				}
			}(g)
		}
		close(start)
		wg.Wait()
		b := &node{e: base, code: base.Code, desc: base.Description, msg: "shared", data: data, errs: errs, how: "the shared one"}
		for i, m := range append(res, b) {
			if !checkNode(rec, i, m) {
				return
			}
			rec.Ev("concurrently-derived")
		}
		rec.Nontrivial = true
	}
	register(&Prop{ID: "C20", Quick: 8000, Thorough: 60000,
		Rule: "cases are (1) seeded graphs of errors derived from one another by every constructor, after each of which all of them are re-read (fields, data, wrapped errors, text form and its parse) and compared with what they were given, and (2) goroutines deriving from shared errors under the race detector; non-trivial: every case",
		Need: []string{"derived:WithData", "derived:WithError", "derived:Join", "derived:UseCode", "derived:ClearData", "error-reread", "code-without-description", "concurrently-derived"},
		Families: []Family{
			{Name: "graph", Weight: 3, Gen: func(r *Rng, c *Case, th bool) { c.Ints = map[string]int{"steps": r.between(10, 40), "n": c.N} }, Run: graph},
			{Name: "shared", Weight: 1, Gen: func(r *Rng, c *Case, th bool) { c.Ints = map[string]int{"n": c.N} }, Run: shared},
		}})
}
