package main

import (
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/williamflynt/topolith/pkg/persistence"
	"github.com/williamflynt/topolith/pkg/world"
)

// storedWorld makes the n-th world of a case, with the given name.
func storedWorld(c *Case, n int, name string, items int) world.World {
	r := newRng(c.Seed, fmt.Sprintf("stored/%s/%d", c.Fam, n), c.Ints["n"])
	g := newGen(r, r.idPool())
	if items > 8 {
		g.Pool = r.bigPool(items)
	}
	g.seedOps(min(items, len(g.Pool)), items, 0.6)
	s := g.M
	s.Name = name
	if r.chance(0.6) {
		s.Id = r.value()
	}
	if r.chance(0.6) {
		s.Expanded = r.value()
	}
	s.Version = []int{0, 1, 2, 9, 77, 1 << 20}[r.IntN(6)]
	w := construct(r, s)
	if c.Prop == "C15" && r.chance(0.1) { // something that cannot be written in the grammar
		odd := r.pick([]string{"\"", "é", "a\nb", "x\" y=\"z", "?", "'", "\x00", "</a>", "a|b", "{", "}", "\\", "x\"::[] }"})
		switch r.IntN(6) {
		case 0:
			w.ItemCreate(odd, world.ItemParams{})
		case 1:
			w.ItemCreate("odd", world.ItemParams{Name: ptr(odd)})
		case 2:
			w.SetName(name + odd)
		case 3:
			w.SetId(odd)
		case 4:
			w.SetExpanded(odd)
		case 5:
			w.ItemCreate("odd", world.ItemParams{Mechanism: ptr(odd)})
		}
	}
	return w
}

func allExpressible(s *Snap) bool {
	for id, it := range s.Items {
		if !expressible(id) || !expressible(it.Name) || !expressible(it.Mech) || !expressible(it.Exp) {
			return false
		}
	}
	for _, r := range s.Rels {
		if !expressible(r.Verb) || !expressible(r.Mech) || !expressible(r.Exp) {
			return false
		}
	}
	return expressible(s.Id) && expressible(s.Name) && expressible(s.Expanded)
}

// files is the content of everything under a directory.
func files(root string) map[string]string {
	m := map[string]string{}
	filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		switch {
		case d.IsDir():
			m[p] = "directory"
		case d.Type().IsRegular():
			b, _ := os.ReadFile(p)
			m[p] = "file " + string(b)
		default:
			m[p] = "other"
		}
		return nil
	})
	return m
}

func filesChanged(before, after map[string]string) []string {
	var out []string
	for p, b := range before {
		if a, ok := after[p]; !ok {
			out = append(out, p+" is gone")
		} else if a != b {
			out = append(out, p+" changed")
		}
	}
	for p := range after {
		if _, ok := before[p]; !ok {
			out = append(out, p+" is new")
		}
	}
	sort.Strings(out)
	return out
}

// loadsAs tells how the world loaded by the name differs from the one expected.
func loadsAs(fp persistence.Persistence, name string, want *Snap) string {
	w, err := fp.Load(name)
	if err != nil {
		return fmt.Sprintf("loading %q fails: %v", name, err)
	}
	if w == nil {
		return fmt.Sprintf("loading %q returns no world and no error", name)
	}
	got, pr := snapFull(w, nil)
	if d := Diff(want, got); d != "" {
		return fmt.Sprintf("%q is loaded as another world than the last one saved: %s", name, d)
	}
	if p := pr.Any(); p != "" {
		return fmt.Sprintf("%q is loaded as a broken world: %s", name, p)
	}
	return ""
}

// expressible tells whether the grammar can quote the text.
func expressible(s string) bool {
	return strings.Trim(s, quotedAlpha) == ""
}

// mustStore tells whether a world with this name can be stored as a file in any sane way.
func mustStore(name string) bool {
	return name != "" && name != "." && name != ".." && len(name) < 200 && expressible(name)
}

const (
	PSave   = "save"
	PResave = "resave"
	PLoad   = "load"
	PList   = "list"
	PSwitch = "switch"
	PMutate = "mutate"
	PNew    = "new-persistence"
)

var nameGroups = [][]string{
	{"a", "b", "ab", "A", "a.world", "a.world.world", ".world", "world"},
	{"my world", "my  world", " my world", "my world ", "myworld", "my", "world"},
	{"v1.2", "v1", "v1.2.3", "v1.", ".v1", "v1.2.world", "v1.world"},
	{"..", ".", "...", ".hidden", "..world", "a..b", "a/..", "./a", "a"},
	{"../up", "sub/in", "x/../y", "y", "/abs", "in", "up", "../../up2", "sub", "store1/a", "../store1/a", "a"},
	{"notes", "notes.txt", "notes.bak", "notes~", "notes.world~", "notes.world.bak", "notes.tmp", ".save-1.tmp", "notes.worl", "notes.worlds"},
	{"[a-z]", "*", "?", "a*", "[a]", "%s", "$HOME", "~", "a;b", "a&b", "(x)", "#1", "!"},
	{"default-world", "default-world.json", "default", "nil", "true", "0", "-", "-f", "--"},
	{"a:b", "a::b", "a=b", "a,b", "a@b", "100%", "C++", "x^y"},
}

// dirsOf are the places worlds are stored in, in one case. The last one does not exist at first. Q is one of oddDirs.
var dirsOf = []string{"p/Q/store0", "p/Q/store1", "p/Q/deep/er/store 2.world"}

var oddDirs = []string{"q", "worlds [old]", "[a-z]", "*", "a?b", "{a,b}", "%s%d", "$HOME", "~", "two  words ", "ünï", "x.world", "-f", `back\slash`, ".hidden", "..x", "a:b;c", "#?&=", strings.Repeat("long", 50)}

func init() {
	c15 := func(c *Case, rec *Rec) {
		base, err := os.MkdirTemp(scratchDir, "c15-")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(base)
		old := os.Getenv("HOME")
		q := filepath.Join(base, "p", oddDirs[c.Ints["odd"]])
		os.Setenv("HOME", filepath.Join(q, "home"))
		defer os.Setenv("HOME", old)
		os.MkdirAll(filepath.Join(q, "home"), 0755)
		dirs := []string{}
		for _, d := range dirsOf {
			dirs = append(dirs, filepath.Join(base, strings.Replace(d, "p/Q", "p/"+filepath.Base(q), 1)))
		}
		// dirPath is how the program is told the directory: with a path that is absolute, relative, through a link or roundabout.
		dirPath := func(d string) string {
			rel, _ := filepath.Rel(base, d)
			switch c.Ints["how"] {
			case 1:
				return rel
			case 2:
				return "./" + rel
			case 3:
				return filepath.Join(base, "link", strings.TrimPrefix(rel, "p/"))
			case 4:
				return base + "//p/./../" + rel
			}
			return d
		}
		switch c.Ints["how"] {
		case 1, 2:
			if wd, err := os.Getwd(); err == nil {
				defer os.Chdir(wd)
			}
			os.Chdir(base)
		case 3:
			os.Symlink(filepath.Join(base, "p"), filepath.Join(base, "link"))
		}
		if c.Ints["odd"] > 0 {
			rec.Ev("oddly-named-directory")
		}
		if c.Ints["how"] > 0 {
			rec.Ev("other-path-to-directory")
		}
		os.MkdirAll(dirs[0], 0755)
		os.MkdirAll(dirs[1], 0755)
		os.WriteFile(filepath.Join(q, "beside.world"), []byte("not a world"), 0644)
		if c.Ints["foreign"] == 1 {
			for _, n := range []string{"notes.txt", "notes.bak", "readme", "x.world~", "x.world.bak", "x.worlds", "worldly"} {
				os.WriteFile(filepath.Join(dirs[0], n), []byte("foreign "+n), 0644)
			}
			if c.N%2 == 0 {
				for _, n := range []string{".empty", "00", "zz empty", "empty.txt"} {
					os.WriteFile(filepath.Join(dirs[0], n), nil, 0644)
				}
			}
		}
		if how := c.Ints["how"]; c.N%3 > 0 { // The directory the program runs in has files of the same names.
			for _, op := range c.Ops {
				n := op.A
				if filepath.Base(n) == n && mustStore(n) {
					os.WriteFile(filepath.Join(base, n+".world"), []byte("not this one"), 0644)
				}
			}
			if how != 1 && how != 2 {
				if wd, err := os.Getwd(); err == nil {
					defer os.Chdir(wd)
				}
				os.Chdir(base)
			}
			rec.Ev("run-among-other-files")
		}
		// Index len(dirs) is the default directory, which no SetSourcePath is called for.
		model := make([]map[string]*Snap, len(dirs)+1)
		for i := range model {
			model[i] = map[string]*Snap{}
		}
		worlds := map[int]world.World{}
		fp := persistence.NewFilePersistence()
		cur := len(dirs)
		foreign := files(base)
		isForeign := func(p string) bool {
			b, ok := foreign[p]
			return ok && strings.HasPrefix(b, "file ")
		}
		check := func(step int, op Op) string {
			// Listing.
			var want []string
			for n := range model[cur] {
				want = append(want, n)
			}
			sort.Strings(want)
			got, err := fp.ListWorlds()
			if err != nil && len(want) > 0 {
				return fmt.Sprintf("listing fails: %v", err)
			}
			got = sortedCopy(got)
			if strings.Join(got, "\x00") != strings.Join(want, "\x00") {
				return fmt.Sprintf("listed are %q, saved were %q", got, want)
			}
			rec.Ev("listing-checked")
			return ""
		}
		for i, op := range c.Ops {
			before := files(base)
			var saved world.World
			switch op.K {
			case PSwitch:
				if op.N < len(dirs) {
					cur = op.N
					d := dirPath(dirs[cur])
					if op.Strict {
						d += "/"
					}
					fp.SetSourcePath(d)
				}
			case PNew:
				fp = persistence.NewFilePersistence()
				if cur < len(dirs) {
					fp.SetSourcePath(dirPath(dirs[cur]))
				}
			case PMutate:
				if w := worlds[op.N]; w != nil {
					w.ItemCreate(fmt.Sprintf("later %d", i), world.ItemParams{})
					for id := range snapQuick(w).Items {
						w.ItemDelete(id)
						break
					}
				}
			case PSave:
				saved = storedWorld(c, op.N, op.A, len(op.Ids))
				worlds[op.N] = saved
			case PResave:
				saved = worlds[op.N]
			case PLoad:
				want, ok := model[cur][op.A]
				switch {
				case ok:
					if v := loadsAs(fp, op.A, want); v != "" {
						rec.Fail("step %d: %s", i, v)
						return
					}
					rec.Ev("loaded-and-equal")
				case strings.HasSuffix(op.A, ".world") && !mustStore(op.A):
					// The path of a file, perhaps.
				default:
					if _, err := fp.Load(op.A); err == nil {
						rec.Fail("step %d: a world never saved, %q, was loaded", i, op.A)
						return
					}
					rec.Ev("never-saved-refused")
				}
			}
			if saved != nil {
				s, _ := snapFull(saved, nil)
				err := fp.Save(saved)
				if now, _ := snapFull(saved, nil); Diff(s, now) != "" {
					rec.Fail("step %d: saving changed the world: %s", i, Diff(s, now))
					return
				}
				if err != nil {
					if mustStore(s.Name) && allExpressible(s) {
						rec.Fail("step %d: saving the world %q fails: %v", i, s.Name, err)
						return
					}
					rec.Ev("save-refused")
					if !allExpressible(s) {
						rec.Ev("inexpressible-refused")
					}
					if ch := filesChanged(before, files(base)); len(ch) > 0 && len(ch) > len(newDirs(before, files(base))) {
						rec.Fail("step %d: a save of %q that was refused left: %s", i, s.Name, strings.Join(ch, ", "))
						return
					}
				} else {
					if _, ok := model[cur][s.Name]; ok {
						rec.Ev("overwritten")
					}
					model[cur][s.Name] = s
					rec.Ev("saved")
					if v := loadsAs(fp, s.Name, s); v != "" {
						rec.Fail("step %d: right after it was saved: %s", i, v)
						return
					}
				}
			}
			after := files(base)
			inside := filepath.Join(q, "home")
			if cur < len(dirs) {
				inside = dirs[cur]
			}
			for _, ch := range filesChanged(before, after) {
				p, _, _ := strings.Cut(ch, " is ")
				p, _, _ = strings.Cut(p, " changed")
				p = strings.TrimSpace(p)
				if saved == nil {
					rec.Fail("step %d: %s changed files: %s", i, op.K, ch)
					return
				}
				if !strings.HasPrefix(p, inside+"/") && p != inside && !(after[p] == "directory" && strings.HasPrefix(inside+"/", p+"/")) {
					rec.Fail("step %d: saving %q in %s touched something outside: %s", i, saved.Name(), inside, ch)
					return
				}
				if isForeign(p) {
					rec.Fail("step %d: saving %q touched a file that is none of its business: %s", i, saved.Name(), ch)
					return
				}
			}
			if v := check(i, op); v != "" {
				rec.Fail("step %d, %s %q: %s", i, op.K, op.A, v)
				return
			}
			rec.State(stateOf(model))
		}
		// Everything saved anywhere is still there.
		n := 0
		for i := range model {
			fp := persistence.NewFilePersistence()
			if i < len(dirs) {
				fp.SetSourcePath(dirs[i])
			}
			for name, want := range model[i] {
				n++
				if v := loadsAs(fp, name, want); v != "" {
					rec.Fail("at the end: %s", v)
					return
				}
				rec.Ev("loaded-and-equal")
			}
		}
		rec.Nontrivial = n > 1
	}
	// many stores very many worlds, among them a huge one.
	many := func(c *Case, rec *Rec) {
		base, err := os.MkdirTemp(scratchDir, "c15m-")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(base)
		r := newRng(c.Seed, "C15many", c.N)
		fp := persistence.NewFilePersistence()
		fp.SetSourcePath(base)
		saved := map[string]*Snap{}
		for i := 0; i < c.Ints["worlds"]; i++ {
			name := fmt.Sprintf(r.pick([]string{"w%d", "world %d", "%d", "svc-%d"}), i)
			if len(saved) > 0 && r.chance(0.05) {
				name = r.pick(namesOf(saved))
			}
			w := storedWorld(c, i, name, r.IntN(3))
			if i == 7 {
				w = newHuge(r, c.Ints["items"]).w
				name = w.Name()
			}
			if !allExpressible(snapQuick(w)) {
				continue
			}
			if err := fp.Save(w); err != nil {
				rec.Fail("saving the world %q, the %d-th: %v", name, i, err)
				return
			}
			saved[name] = snapQuick(w)
			rec.Ev("saved")
		}
		got, err := fp.ListWorlds()
		if want := namesOf(saved); err != nil || strings.Join(sortedCopy(got), "\x00") != strings.Join(want, "\x00") {
			rec.Fail("%d worlds are listed (%v), saved were %d", len(got), err, len(want))
			return
		}
		rec.Ev("long-listing-checked")
		for _, n := range namesOf(saved) {
			if v := loadsAs(fp, n, saved[n]); v != "" {
				rec.Fail("of %d worlds: %s", len(saved), v)
				return
			}
			rec.Ev("loaded-and-equal")
		}
		rec.State(strings.Join(namesOf(saved), " "))
		rec.Nontrivial = true
	}
	// session has applications store and load the worlds they work on, each through the persistence that it has.
	session := func(c *Case, rec *Rec) {
		base, err := os.MkdirTemp(scratchDir, "c15s-")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(base)
		old := os.Getenv("HOME")
		os.Setenv("HOME", filepath.Join(base, "home"))
		defer os.Setenv("HOME", old)
		r := newRng(c.Seed, "C15session", c.N)
		dirs := []string{"", filepath.Join(base, "one"), filepath.Join(base, "two")} // the default, and others
		model := map[string]map[string]*Snap{}
		for _, d := range dirs {
			model[d] = map[string]*Snap{}
		}
		type session struct {
			*Sess
			dir string
		}
		open := func(w world.World, dir string) *session {
			s := &session{sessOn(w, nil, c.Ops), dir}
			if dir != "" {
				s.a.Persistence().SetSourcePath(dir)
			}
			return s
		}
		var ss []*session
		for range 3 {
			ss = append(ss, open(world.CreateWorld(r.pick([]string{"a", "b", "my world"})), r.pick(dirs)))
		}
		for i, op := range c.Ops {
			s := ss[r.IntN(len(ss))]
			fail := func(f string, a ...any) { rec.Fail("step %d, in directory %q: %s", i, s.dir, fmt.Sprintf(f, a...)) }
			switch {
			case op.K != KUndo:
				s.exec(op)
			case op.N%3 == 0:
				snap := snapQuick(s.w)
				if err := s.a.Persistence().Save(s.a.World()); err != nil {
					if mustStore(snap.Name) && allExpressible(snap) {
						fail("saving the world %q that the application works on fails: %v", snap.Name, err)
						return
					}
					continue
				}
				model[s.dir][snap.Name] = snap
				rec.Ev("saved")
				rec.Ev("saved-by-an-application")
			default:
				got, err := s.a.Persistence().ListWorlds()
				want := namesOf(model[s.dir])
				if err != nil && len(want) > 0 || strings.Join(sortedCopy(got), "\x00") != strings.Join(want, "\x00") {
					fail("listed are %q (%v), saved were %q", got, err, want)
					return
				}
				for _, n := range want {
					if v := loadsAs(s.a.Persistence(), n, model[s.dir][n]); v != "" {
						fail("%s", v)
						return
					}
					rec.Ev("loaded-and-equal")
				}
				if len(want) == 0 {
					continue
				}
				// Work goes on with one of them.
				w, err := s.a.Persistence().Load(r.pick(want))
				if err != nil {
					fail("loading again: %v", err)
					return
				}
				if r.chance(0.5) { // It gets another name, and is stored besides.
					w.SetName(r.pick([]string{"a", "b", "my world", "a copy", "c"}))
					snap := snapQuick(w)
					if err := s.a.Persistence().Save(w); err != nil {
						if mustStore(snap.Name) && allExpressible(snap) {
							fail("saving the loaded world as %q fails: %v", snap.Name, err)
							return
						}
					} else {
						model[s.dir][snap.Name] = snap
						rec.Ev("loaded-renamed-and-saved")
					}
				}
				ss[r.IntN(len(ss))] = open(w, r.pick(dirs))
				rec.Ev("went-on-with-a-loaded-world")
				rec.Nontrivial = true
			}
			if i%8 == 0 {
				rec.State(stateOf([]map[string]*Snap{model[dirs[0]], model[dirs[1]], model[dirs[2]]}))
			}
		}
	}
	register(&Prop{ID: "C15", Quick: 3000, Thorough: 60000,
		Rule: "cases are sequences of saves, overwrites, loads, listings, directory switches and later changes to saved worlds, in scratch directories with confusing world names; after every step the listing, the loaded worlds and every file under the case's scratch directory are compared with a model of the store; non-trivial: several worlds stored",
		Need: []string{"saved", "overwritten", "save-refused", "loaded-and-equal", "never-saved-refused", "listing-checked", "long-listing-checked", "saved-by-an-application", "run-among-other-files", "loaded-renamed-and-saved", "went-on-with-a-loaded-world"},
		Families: []Family{{Name: "many", Weight: 1, Run: many, Gen: func(r *Rng, c *Case, th bool) {
			c.Ints = map[string]int{"worlds": r.pickInt(r.between(60, 300), r.between(1030, 1200)), "items": r.between(300, 1100)}
		}}, {Name: "session", Weight: 100, Run: session, Gen: func(r *Rng, c *Case, th bool) {
			mixed(mutWeights.with(Weights{KUndo: 30}), 20, 80)(r, c, th)
			for i := range c.Ops {
				c.Ops[i].N = r.IntN(6)
			}
		}}, {Name: "store", Weight: 399, Run: c15, Gen: func(r *Rng, c *Case, th bool) {
			c.Ints = map[string]int{"foreign": r.IntN(2), "n": c.N}
			if r.chance(0.4) {
				c.Ints["odd"] = r.IntN(len(oddDirs))
			}
			if r.chance(0.4) {
				c.Ints["how"] = r.between(1, 4)
			}
			var names []string
			for len(names) < 3 {
				names = r.sub(nameGroups[r.IntN(len(nameGroups))], r.between(3, 6))
			}
			if r.chance(0.3) {
				names = append(names, r.text(quotedAlpha, 1, 30))
			}
			if r.chance(0.05) {
				names = append(names, strings.Repeat("long", 80), strings.Repeat("x", 150))
			}
			n := r.between(6, 25)
			if r.chance(0.7) {
				c.Ops = append(c.Ops, Op{K: PSwitch, N: r.IntN(len(dirsOf))})
			}
			nw := 0
			for i := 0; i < n; i++ {
				op := Op{A: r.pick(names)}
				switch x := r.Float64(); {
				case x < 0.45:
					op.K, op.N = PSave, nw
					k := r.IntN(8)
					if r.chance(0.03) {
						k = r.between(20, 120)
					}
					op.Ids = make([]string, k)
					nw++
				case x < 0.53:
					op.K, op.N, op.A = PResave, r.IntN(nw+1), ""
				case x < 0.80:
					op.K = PLoad
				case x < 0.85:
					op.K, op.A = PList, ""
				case x < 0.91:
					op.K, op.N, op.A, op.Strict = PSwitch, r.IntN(len(dirsOf)), "", r.chance(0.2)
				case x < 0.95:
					op.K, op.N, op.A = PMutate, r.IntN(nw+1), ""
				default:
					op.K, op.A = PNew, ""
				}
				op.Text = strings.TrimSpace(fmt.Sprintf("%s %q %d", op.K, op.A, op.N))
				c.Ops = append(c.Ops, op)
			}
		}}}})
}

func namesOf(m map[string]*Snap) []string {
	var out []string
	for n := range m {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

func newDirs(before, after map[string]string) []string {
	var out []string
	for p, a := range after {
		if _, ok := before[p]; !ok && a == "directory" {
			out = append(out, p)
		}
	}
	return out
}

func stateOf(model []map[string]*Snap) string {
	var out []string
	for i, m := range model {
		for n, s := range m {
			out = append(out, fmt.Sprintf("%d %q %s", i, n, s.Canon()))
		}
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}
