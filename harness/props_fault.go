package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"runtime"
	"slices"
	"strings"
	"syscall"

	"github.com/williamflynt/topolith/pkg/persistence"
	"github.com/williamflynt/topolith/pkg/world"
)

// helperSpec is what a saving process is told.
type helperSpec struct {
	Case   *Case
	Dir    string
	Name   string
	Size   int
	Fsize  int64 // limit on file sizes, or -1
	Ignore bool  // a write beyond it fails, instead of ending the process
}

// saveHelper is the process that saves.
func saveHelper(file string) {
	runtime.LockOSThread()
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println("cannot start:", err)
		os.Exit(7)
	}
	var h helperSpec
	if err := json.Unmarshal(b, &h); err != nil {
		fmt.Println("cannot start:", err)
		os.Exit(7)
	}
	w := storedWorld(h.Case, 1, h.Name, h.Size)
	fp := persistence.NewFilePersistence()
	fp.SetSourcePath(h.Dir)
	if h.Ignore {
		signal.Ignore(syscall.SIGXFSZ)
	}
	if h.Fsize >= 0 {
		l := syscall.Rlimit{Cur: uint64(h.Fsize), Max: uint64(h.Fsize)}
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l); err != nil {
			fmt.Println("cannot start:", err)
			os.Exit(7)
		}
	}
	mark(markBegin)
	err = fp.Save(w)
	mark(markEnd)
	// The exit status tells, as the limit concerns output files too.
	if err != nil {
		os.Exit(11)
	}
	os.Exit(10)
}

func init() {
	c16 := func(c *Case, rec *Rec) {
		name := []string{"the world", "v1.2", "%s", "[a-z]*", "a.world", ".hidden", "x"}[c.Ints["name"]]
		base, err := os.MkdirTemp(scratchDir, "c16-")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(base)
		base, _ = filepath.EvalSymlinks(base)
		dir := filepath.Join(base, oddDirs[c.Ints["odd"]])
		existed, other := c.Ints["existed"] == 1, c.Ints["other"] == 1
		fp := persistence.NewFilePersistence()
		fp.SetSourcePath(dir)
		oldW := storedWorld(c, 0, name, c.Ints["old"])
		newW := storedWorld(c, 1, name, c.Ints["new"])
		otherW := storedWorld(c, 2, "another world", 3)
		oldS, newS, otherS := snapQuick(oldW), snapQuick(newW), snapQuick(otherW)
		if existed {
			if err := fp.Save(oldW); err != nil {
				rec.Fail("saving without any fault fails: %v", err)
				return
			}
		}
		if other {
			if err := fp.Save(otherW); err != nil {
				rec.Fail("saving without any fault fails: %v", err)
				return
			}
		}
		template := files(base)
		delete(template, base)
		reset := func() {
			os.Chmod(dir, 0755)
			os.RemoveAll(dir)
			var ps []string
			for p := range template {
				ps = append(ps, p)
			}
			slices.Sort(ps)
			for _, p := range ps {
				if b, ok := strings.CutPrefix(template[p], "file "); ok {
					os.WriteFile(p, []byte(b), 0644)
				} else {
					os.MkdirAll(p, 0755)
				}
			}
		}
		spec := helperSpec{Case: c, Dir: dir, Name: name, Size: c.Ints["new"], Fsize: -1, Ignore: true}
		specFile := filepath.Join(base, "spec.json")
		run := func(faults []Fault) traceResult {
			b, _ := json.Marshal(spec)
			os.WriteFile(specFile, b, 0644)
			return traced([]string{os.Args[0], "-save-helper", specFile, "-scratch", scratchDir}, filepath.Join(base, "out"), base, faults)
		}
		judged := 0
		// judge decides one save that was killed, failed or succeeded.
		judge := func(tr traceResult, what string) string {
			if tr.Err != nil {
				return "" // not judged
			}
			saved := tr.Exit == 10
			switch {
			case tr.Killed:
				rec.Ev("killed")
			case saved:
				rec.Ev("reported-success")
			case tr.Exit == 11:
				rec.Ev("reported-error")
			case tr.Exit == -1:
				rec.Ev("ended-by-signal")
			case tr.Exit == 7:
				return ""
			default:
				return fmt.Sprintf("%s: the saving process ended with status %d: %s", what, tr.Exit, clip(tr.Out))
			}
			os.Chmod(dir, 0755)
			w, err := fp.Load(name)
			if err != nil || w == nil {
				switch {
				case saved:
					return fmt.Sprintf("%s: the save reported success, but the world cannot be loaded: %v", what, err)
				case existed:
					return fmt.Sprintf("%s: neither the world saved before nor the new one can be loaded: %v", what, err)
				}
				rec.Ev("none-as-before")
			} else {
				got, pr := snapFull(w, nil)
				if pr.Any() != "" {
					return fmt.Sprintf("%s: a broken world is loaded: %s", what, pr.Any())
				}
				isOld, isNew := existed && Diff(oldS, got) == "", Diff(newS, got) == ""
				switch {
				case isNew:
					rec.Ev("new-loaded")
				case saved:
					return fmt.Sprintf("%s: the save reported success, but the world loaded is not the new one: %s", what, Diff(newS, got))
				case isOld:
					rec.Ev("old-loaded")
				default:
					return fmt.Sprintf("%s: the world loaded is neither the old one (%s) nor the new one (%s)", what, clip(Diff(oldS, got)), clip(Diff(newS, got)))
				}
			}
			if other {
				if v := loadsAs(fp, otherW.Name(), otherS); v != "" {
					return fmt.Sprintf("%s: another world: %s", what, v)
				}
			}
			names, err := fp.ListWorlds()
			if err != nil && (existed || other) {
				return fmt.Sprintf("%s: then, listing fails: %v", what, err)
			}
			for _, n := range names {
				if n != name && n != otherW.Name() {
					return fmt.Sprintf("%s: then, a world %q is listed that was never saved", what, n)
				}
				if _, err := fp.Load(n); err != nil {
					return fmt.Sprintf("%s: then, %q is listed but cannot be loaded: %v", what, n, err)
				}
			}
			if err == nil && existed && !slices.Contains(names, name) {
				return fmt.Sprintf("%s: then, the world is not listed any more", what)
			}
			// And saving works again, for a world that is smaller than what may be left from before, too.
			if judged++; judged%2 == 1 {
				tiny := world.CreateWorld(name)
				if err := fp.Save(tiny); err != nil {
					return fmt.Sprintf("%s: afterwards, saving a small world fails: %v", what, err)
				}
				if v := loadsAs(fp, name, snapQuick(tiny)); v != "" {
					return fmt.Sprintf("%s: afterwards, after saving a small world: %s", what, v)
				}
				rec.Ev("saved-smaller")
			}
			if err := fp.Save(newW); err != nil {
				return fmt.Sprintf("%s: afterwards, saving fails: %v", what, err)
			}
			if v := loadsAs(fp, name, newS); v != "" {
				return fmt.Sprintf("%s: afterwards, after another save: %s", what, v)
			}
			rec.Ev("saved-again")
			return ""
		}
		try := func(faults []Fault, label string) bool {
			reset()
			tr := run(faults)
			if tr.Err != nil || tr.TimedOut {
				rec.Ev("not-judged")
				return true
			}
			var d []string
			for _, f := range faults {
				d = append(d, f.String())
			}
			if tr.Hit > 0 || len(faults) == 0 {
				rec.Ev(label)
			} else {
				rec.Ev("not-reached")
			}
			if v := judge(tr, "after "+strings.Join(append(d, label), ", ")); v != "" {
				rec.Fail("%s (system calls: %v)", v, tr.Events)
				return false
			}
			if len(d) > 0 {
				rec.State(fmt.Sprint(c.Ints["old"] > 0, c.Ints["new"] > c.Ints["old"], existed, d))
			}
			return true
		}
		text := int64(len(newW.String()))
		if c.Fam == "limits" {
			r := newRng(c.Seed, "limits", c.N)
			for _, l := range []int64{0, 1, 5, text / 3, text / 2, text - 2, text - 1, text, text + 1, 4096, int64(r.IntN(int(text) + 1)), int64(r.IntN(int(text) + 1))} {
				for _, ign := range []bool{true, false} {
					spec.Fsize, spec.Ignore = l, ign
					if !try(nil, fmt.Sprintf("file-size-limit")) {
						return
					}
				}
			}
			spec.Fsize, spec.Ignore = -1, true
			// A directory that nothing can be created in.
			reset()
			os.MkdirAll(dir, 0755)
			os.Chmod(dir, 0555)
			tr := run(nil)
			if tr.Err == nil && !tr.TimedOut {
				if v := judge(tr, "in a read-only directory"); v != "" {
					rec.Fail("%s", v)
					return
				}
				rec.Ev("read-only-directory")
			}
			os.Chmod(dir, 0755)
			// A file where the directory should be.
			os.RemoveAll(dir)
			os.WriteFile(dir, []byte("x"), 0644)
			tr = run(nil)
			if tr.Err == nil && !tr.TimedOut && tr.Exit == 10 {
				rec.Fail("the save reported success, with a file in place of the directory")
				return
			}
			rec.Ev("file-for-directory")
			os.Remove(dir)
			rec.Nontrivial = true
			return
		}
		reset()
		dry := run(nil)
		if dry.Err != nil || dry.TimedOut {
			rec.Ev("not-judged")
			return
		}
		if v := judge(dry, "without any fault"); v != "" {
			rec.Fail("%s", v)
			return
		}
		if dry.Exit != 10 {
			rec.Fail("saving without any fault fails")
			return
		}
		rec.EvN("system-calls-of-saves", len(dry.Events))
		r := newRng(c.Seed, "faults", c.N)
		for k, ev := range dry.Events {
			if !try([]Fault{{At: k, Kind: "kill", Name: ev.Name}}, "kill") {
				return
			}
			if ev.Len > 0 {
				for _, l := range uniqInts([]int{1, ev.Len / 2, ev.Len - 1, r.IntN(ev.Len), r.IntN(ev.Len)}) {
					if l < 1 || l >= ev.Len {
						continue
					}
					if !try([]Fault{{At: k, Kind: "short-kill", Len: l, Name: ev.Name}}, "kill-in-write") {
						return
					}
					if !try([]Fault{{At: k, Kind: "short", Len: l, Name: ev.Name}}, "short-write") {
						return
					}
					if !try([]Fault{{At: k, Kind: "short", Len: l, Name: ev.Name}, {At: k + 1, Kind: "error", Errno: syscall.ENOSPC, On: true, Name: ev.Name}}, "disk-full") {
						return
					}
					if !try([]Fault{{At: k, Kind: "short", Len: l, Name: ev.Name}, {At: k + 1, Kind: "kill", Name: ev.Name}}, "kill-in-write") {
						return
					}
				}
			}
			errs := sysKinds[ev.Nr].errs
			for i, e := range errs {
				if !try([]Fault{{At: k, Kind: "error", Errno: e, Name: ev.Name}}, "error") {
					return
				}
				if i == c.N%len(errs) {
					if !try([]Fault{{At: k, Kind: "error", Errno: e, On: true, Name: ev.Name}}, "error-and-on") {
						return
					}
					// What the save does after it failed may be interrupted, or fail, too.
					reset()
					tr := run([]Fault{{At: k, Kind: "error", Errno: e, Name: ev.Name}})
					if tr.Err != nil {
						continue
					}
					for j := k + 1; j < len(tr.Events); j++ {
						x := tr.Events[j]
						if !try([]Fault{{At: k, Kind: "error", Errno: e, Name: ev.Name}, {At: j, Kind: "kill", Name: x.Name}}, "error-then-kill") {
							return
						}
						es := sysKinds[x.Nr].errs
						if !try([]Fault{{At: k, Kind: "error", Errno: e, Name: ev.Name}, {At: j, Kind: "error", Errno: es[r.IntN(len(es))], Name: x.Name}}, "error-then-error") {
							return
						}
					}
				}
			}
		}
		rec.Nontrivial = true
	}
	gen := func(r *Rng, c *Case, th bool) {
		sizes := []int{0, 1, 2, 5, 8, 30, 100}
		if th {
			sizes = append(sizes, 250)
		}
		c.Ints = map[string]int{"n": c.N, "old": sizes[r.IntN(len(sizes))], "new": sizes[r.IntN(len(sizes))], "existed": 1, "other": r.IntN(2)}
		if r.chance(0.2) {
			c.Ints["existed"] = 0
		}
		if r.chance(0.5) {
			c.Ints["name"], c.Ints["odd"] = r.IntN(7), r.IntN(len(oddDirs))
		}
	}
	// again: one and the same Persistence goes on after saves that failed.
	again := func(c *Case, rec *Rec) {
		base, err := os.MkdirTemp(scratchDir, "c16-")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(base)
		base, _ = filepath.EvalSymlinks(base)
		r := newRng(c.Seed, "again", c.N)
		dir, away := filepath.Join(base, oddDirs[r.IntN(len(oddDirs))]), filepath.Join(base, "away")
		fp := persistence.NewFilePersistence()
		fp.SetSourcePath(dir)
		stored := map[string]*Snap{}
		asStored := func(what string) bool {
			names, err := fp.ListWorlds()
			if err != nil && len(stored) > 0 {
				rec.Fail("%s: listing fails: %v", what, err)
				return false
			}
			for _, n := range names {
				if stored[n] == nil {
					rec.Fail("%s: a world %q is listed that was never saved", what, n)
					return false
				}
			}
			for n, s := range stored {
				if !slices.Contains(names, n) {
					rec.Fail("%s: %q is not listed", what, n)
					return false
				}
				if v := loadsAs(fp, n, s); v != "" {
					rec.Fail("%s: %s", what, v)
					return false
				}
			}
			return true
		}
		for step := 0; step < 12; step++ {
			name := r.pick([]string{"a", "the world", "v1.2"})
			w := storedWorld(c, step, name, r.pickInt(0, 1, 3, 8, 20))
			file := filepath.Join(dir, name+".world")
			undo, obstacle := func() {}, "nothing"
			switch r.IntN(7) {
			case 0:
				obstacle = "a file in place of the directory"
				os.Rename(dir, away)
				os.WriteFile(dir, []byte("x"), 0644)
				undo = func() { os.Remove(dir); os.Rename(away, dir) }
			case 1:
				obstacle = "a dangling link in place of the directory"
				os.Rename(dir, away)
				os.Symlink(filepath.Join(base, "nowhere"), dir)
				undo = func() { os.Remove(dir); os.RemoveAll(filepath.Join(base, "nowhere")); os.Rename(away, dir) }
			case 2:
				obstacle = "a directory in place of the file"
				os.MkdirAll(dir, 0755)
				os.Rename(file, away)
				os.MkdirAll(filepath.Join(file, "x"), 0755)
				undo = func() { os.RemoveAll(file); os.Rename(away, file) }
			case 3:
				obstacle = "a name that is too long"
				w.SetName(strings.Repeat("x", 300))
			case 4:
				obstacle = "a text that is not in the grammar"
				w.SetExpanded("a \" b")
			case 5:
				obstacle = "a name that is no file name"
				w.SetName("a/b")
			}
			if x := r.Float64(); x < 0.3 && obstacle != "a text that is not in the grammar" { // as long as what may be written at once, or a bit longer
				size := r.pickInt(512, 4096, 8192, 1<<15, 1<<16, 1<<16, 1<<17)*r.pickInt(1, 1, 1, 2) + r.pickInt(0, 1, 2, 8, 12, 13, 20, 100, 511, -1)
				w.SetExpanded("")
				if n := size - len(w.String()); n > 0 {
					w.SetExpanded(strings.Repeat("long ", n/5) + "12345"[:n%5])
					rec.Ev("of-a-certain-size")
				}
			}
			s := snapQuick(w)
			err := fp.Save(w)
			if err == nil && obstacle != "nothing" {
				if v := loadsAs(fp, w.Name(), s); v != "" {
					rec.Fail("step %d: with %s, the save reported success, but then: %s", step, obstacle, v)
				}
				return // it found a way, but what is where now is not known
			}
			undo()
			if err == nil {
				stored[name] = s
				rec.Ev("saved-by-the-same-one")
			} else if obstacle == "nothing" {
				rec.Fail("step %d: saving fails with nothing in the way: %v", step, err)
				return
			} else {
				rec.Ev("failed: " + obstacle)
			}
			if !asStored(fmt.Sprintf("step %d, saved with %s in the way", step, obstacle)) {
				return
			}
		}
		rec.Nontrivial = true
		rec.State(fmt.Sprint(len(stored)))
	}
	register(&Prop{ID: "C16", Quick: 60, Thorough: 600, Level: "fault_enumeration",
		Rule: "in each case a process saves a world in a scratch directory under ptrace: once undisturbed, and once for each fault at each file system call it makes: killed before it, killed in the middle of a write, a short write, a full disk from there on, each of several errors, errors from there on, and an error followed by a kill or another error; and with file-size limits of many lengths, a read-only directory and a file in place of the directory; in others, one Persistence goes on after saves that obstacles made fail; after each, what can be loaded and listed is judged, and saving again is tried; non-trivial: all",
		Need: []string{"kill", "kill-in-write", "short-write", "disk-full", "error", "error-then-kill", "file-size-limit", "old-loaded", "new-loaded", "none-as-before", "reported-error", "reported-success", "saved-by-the-same-one", "failed: a file in place of the directory", "failed: a directory in place of the file"},
		Families: []Family{
			{Name: "faults", Weight: 3, Gen: gen, Run: c16},
			{Name: "limits", Weight: 1, Gen: gen, Run: c16},
			{Name: "again", Weight: 2, Gen: func(r *Rng, c *Case, th bool) { c.Ints = map[string]int{"n": c.N} }, Run: again},
		}})
}

func uniqInts(a []int) []int {
	slices.Sort(a)
	return slices.Compact(a)
}
