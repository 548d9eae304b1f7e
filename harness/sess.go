package main

import (
	"fmt"
	"strings"

	"github.com/williamflynt/topolith/pkg/app"
	"github.com/williamflynt/topolith/pkg/world"
)

// Sess drives one application and watches it.
type Sess struct {
	a   app.App
	w   world.World
	rec *Rec
	ids []string // all ids the workload mentions
	// With blind > 1 the world is only looked at after every blind-th command; in between the model
	// stands for it, as long as the outcome was the predicted one.
	blind int
}

func opIds(ops []Op) []string {
	var ids []string
	for _, op := range ops {
		ids = append(ids, op.A, op.B)
		ids = append(ids, op.Ids...)
	}
	var out []string
	for _, x := range uniq(ids) {
		if x != "" {
			out = append(out, x)
		}
	}
	return out
}

func newSess(name string, rec *Rec, ops []Op) *Sess {
	w := world.CreateWorld(name)
	return sessOn(w, rec, ops)
}

func sessOn(w world.World, rec *Rec, ops []Op) *Sess {
	a, err := app.NewApp(w)
	if err != nil {
		panic(err)
	}
	return &Sess{a: a, w: w, rec: rec, ids: opIds(ops)}
}

// start begins a case: with a new application on an empty world or, in half of the cases, on one with other info, on one
// that was read from text, or on the world that the first commands of the case made in another application, either as
// it is or read from its text. It returns the commands that made the world, and those to go on with.
func start(c *Case, rec *Rec) (s *Sess, made, ops []Op) {
	name, origin := "w", c.N%10
	w := world.CreateWorld(name)
	reread := func(w world.World) world.World {
		w2, err := world.FromString(w.String())
		if err != nil || Diff(snapQuick(w), snapQuick(w2)) != "" {
			return w // That is for other properties to judge.
		}
		rec.Ev("started-on-a-read-world")
		return w2
	}
	ops = c.Ops
	if origin == 5 || origin == 6 {
		w.SetName("my  world").SetVersion(c.N).SetId("w 1").SetExpanded("item x")
	}
	if origin == 7 || origin == 8 {
		n := len(ops) / 3
		made, ops = ops[:n], ops[n:]
		s := sessOn(w, nil, nil)
		for _, op := range made {
			if op.K != KUndo && op.K != KRedo {
				s.exec(op)
			}
		}
		rec.Ev("started-on-a-made-world")
	}
	if origin == 6 || origin == 8 || origin == 9 {
		w = reread(w)
	}
	return sessOn(w, rec, c.Ops), made, ops
}

func (s *Sess) exec(op Op) Resp {
	r := readResp(s.a.Exec(op.Text))
	st := "err"
	if r.OK {
		st = "ok"
	}
	if s.rec != nil {
		s.rec.Ev("cmd:" + op.K + ":" + st)
	}
	return r
}

// check looks at one executed command. pre and post are what the world contained before and after,
// want is what the model expects it to contain now.
type stepCheck func(op Op, r Resp, e Exp, pre, post, want *Snap, pr Problems) string

// drive executes the commands one by one. Each is predicted from the world as it was just before, so
// that a check concerns only the commands it is about.
func (s *Sess) drive(ops []Op, big bool, check stepCheck) {
	var pre *Snap
	if big {
		pre = snapQuick(s.w)
	} else {
		pre, _ = snapFull(s.w, s.ids)
	}
	for i, op := range ops {
		r := s.exec(op)
		want := pre.Clone()
		e := want.Apply(op, r.OK)
		var post *Snap
		var pr Problems
		if s.blind > 1 && i%s.blind != s.blind-1 && i != len(ops)-1 && r.OK == e.OK && !e.Either {
			post = want.Clone()
			if s.rec != nil {
				s.rec.Ev("step-unobserved")
			}
		} else if big && i%50 != 49 && i != len(ops)-1 {
			post = snapQuick(s.w)
		} else {
			post, pr = snapFull(s.w, s.ids)
		}
		s.rec.State(post.Canon())
		if v := check(op, r, e, pre, post, want, pr); v != "" {
			s.rec.Step = i
			s.rec.Fail("step %d, %s: %s", i, strings.TrimSpace(op.Text), v)
			return
		}
		pre = post
	}
}

func describe(op Op) string { return fmt.Sprintf("%s %q %q %q", op.K, op.A, op.B, op.Ids) }
