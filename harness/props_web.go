package main

import (
	"bufio"
	"embed"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"
)

//go:embed web/page.js
var webFS embed.FS

// page is Node running the web page's code on a stand-in terminal.
type page struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	used int
}

type pageSend struct {
	Args  []string `json:"args"`
	How   string   `json:"how"` // how it was made to fail
	Reply *string  `json:"reply"`
}

type pageLook struct {
	Ok        bool       `json:"ok"`
	Terminals int        `json:"terminals"`
	Open      bool       `json:"open"`
	Core      bool       `json:"core"`
	Gos       int        `json:"gos"`
	Exited    string     `json:"exited"`
	Sends     []pageSend `json:"sends"`
	Rows      []string   `json:"rows"`
	Col       int        `json:"col"`
	Unhandled []string   `json:"unhandled"`
}

var thePage *page

func dropPage() {
	if thePage != nil {
		thePage.in.Close()
		thePage.cmd.Process.Kill()
		thePage.cmd.Wait()
		thePage = nil
	}
}

func needPage() error {
	if os.Getenv("VERIF_WEB") == "" || os.Getenv("VERIF_WASM") == "" || os.Getenv("VERIF_WASM_EXEC") == "" {
		fmt.Fprintln(os.Stderr, "error: VERIF_WEB, VERIF_WASM and VERIF_WASM_EXEC are not set; use check.sh")
		os.Exit(5)
	}
	if thePage != nil && thePage.used >= 12 {
		dropPage()
	}
	if thePage != nil {
		thePage.used++
		return nil
	}
	js := filepath.Join(scratchDir, "page.js")
	text, _ := webFS.ReadFile("web/page.js")
	if err := os.WriteFile(js, text, 0644); err != nil {
		return err
	}
	cmd := exec.Command("node", "--stack-size=900", js, os.Getenv("VERIF_WEB"), os.Getenv("VERIF_WASM"), filepath.Join(os.Getenv("VERIF_WASM_EXEC"), "wasm_exec.js"))
	cmd.Stderr = os.Stderr
	in, err := cmd.StdinPipe()
	if err != nil {
		return err
	}
	r, w, err := os.Pipe()
	if err != nil {
		return err
	}
	cmd.ExtraFiles = []*os.File{w}
	if err := cmd.Start(); err != nil {
		return err
	}
	w.Close()
	thePage = &page{cmd: cmd, in: in, out: bufio.NewReaderSize(r, 1<<20), used: 1}
	return nil
}

func (p *page) ask(q any) (l pageLook, err error) {
	j, _ := json.Marshal(q)
	if _, err = p.in.Write(append(j, '\n')); err != nil {
		return
	}
	b, err := p.out.ReadBytes('\n')
	if err != nil {
		return l, fmt.Errorf("the page's process ended: %v", err)
	}
	err = json.Unmarshal(b, &l)
	return
}

// typed is what a line that is being typed has become, and the lines entered, after some keys.
func typed(line string, keys []string) (string, []string) {
	var lines []string
	b := []rune(line)
	for _, k := range keys {
		for _, c := range k {
			switch {
			case c == '\r':
				lines = append(lines, string(b))
				b = b[:0]
			case c == '\x7f':
				b = b[:max(0, len(b)-1)]
			default:
				b = append(b, c)
			}
		}
	}
	return string(b), lines
}

func sameJSON(a, b string) bool {
	var x, y any
	return json.Unmarshal([]byte(a), &x) == nil && json.Unmarshal([]byte(b), &y) == nil && reflect.DeepEqual(x, y)
}

func runC30(c *Case, rec *Rec) {
	if err := needPage(); err != nil {
		rec.Fail("the page does not start: %v", err)
		return
	}
	late := c.Ints["late"] == 1
	l, err := thePage.ask(map[string]any{"op": "open", "late": late, "broken": c.Ints["broken"] == 1})
	if err != nil || !l.Ok || l.Terminals != 1 || !l.Open || len(l.Rows) == 0 {
		dropPage()
		rec.Fail("the page has no terminal: %v %+v", err, l)
		return
	}
	prompt := l.Rows[len(l.Rows)-1]
	if strings.TrimSpace(prompt) == "" {
		rec.Fail("there is no prompt: %q", l.Rows)
		return
	}
	if !late && !l.Core {
		dropPage()
		rec.Fail("the page has no core a while after it was opened")
		return
	}
	there := !late
	core := newSess("default-world", nil, nil)
	line := ""
	is := func(row, want string) bool {
		if strings.Contains(want, "\t") { // may be shown as several columns
			return strings.Join(strings.Fields(row), " ") == strings.Join(strings.Fields(want), " ")
		}
		return strings.TrimRight(row, " ") == strings.TrimRight(want, " ")
	}
	for i, op := range c.Ops {
		if op.K == "release" {
			l, err := thePage.ask(map[string]any{"op": "release"})
			if err == nil && c.Ints["broken"] == 1 { // it can't be loaded
				rec.Ev("never loaded")
				continue
			}
			if err != nil || !l.Core {
				dropPage()
				rec.Fail("step %d: the page has no core although it was loaded: %v", i, err)
				return
			}
			if len(l.Sends) > 0 {
				rec.Fail("step %d: %q was sent when the core was loaded", i, l.Sends[0].Args)
				return
			}
			there = true
			rec.Ev("loaded late")
			continue
		}
		if len(op.Ids) == 0 {
			continue
		}
		before := line
		var lines []string
		line, lines = typed(line, op.Ids)
		expected := 0
		for _, t := range lines {
			if there && strings.TrimSpace(t) != "" {
				expected++
			}
		}
		if expected > 15 {
			rec.Ev("many lines at once")
		}
		l, err := thePage.ask(map[string]any{"op": "type", "keys": op.Ids, "fail": op.Flags, "prompt": prompt, "sends": expected})
		if err != nil || l.Exited != "" || l.Terminals != 1 {
			dropPage()
			rec.Fail("step %d: the page did not survive %q: %v %s", i, op.Ids, err, l.Exited)
			return
		}
		if l.Gos > 1 {
			rec.Fail("step %d: the page has started %d cores", i, l.Gos)
			return
		}
		// Each line was sent once, and shown, with its reply below it.
		rows := l.Rows
		sends := l.Sends
		for k, want := range lines {
			if len(rows) == 0 || !is(rows[0], prompt+want) {
				rec.Fail("step %d: after typing %q onto %q the screen has %q where line %d, %q, should be", i, op.Ids, before, rows, k, want)
				return
			}
			rows = rows[1:]
			text := strings.Join(rows, "\n")
			sent := len(sends) > 0 && len(sends[0].Args) == 1 && sends[0].Args[0] == want
			shown := ""
			switch {
			case !there || strings.TrimSpace(want) == "" && !sent:
				if there {
					rec.Ev("empty line not sent")
				} else {
					rec.Ev("line without a core")
				}
			case !sent:
				var got []string
				for _, s := range sends {
					got = append(got, s.Args...)
				}
				rec.Fail("step %d: line %d, %q, was entered with the keys %q, and what was then sent is %q", i, k, want, op.Ids, got)
				return
			case sends[0].How != "":
				rec.Ev("core failed: " + sends[0].How)
				sends = sends[1:]
			default:
				s := sends[0]
				sends = sends[1:]
				if s.Reply == nil {
					rec.Fail("step %d: there is no reply to %q", i, want)
					return
				}
				dec := json.NewDecoder(strings.NewReader(text))
				var got any
				if err := dec.Decode(&got); err != nil {
					rec.Fail("step %d: what is shown below %q is no JSON (%v): %q; the reply is %q", i, want, err, clip(text), clip(*s.Reply))
					return
				}
				at := int(dec.InputOffset())
				if !sameJSON(text[:at], *s.Reply) {
					rec.Fail("step %d: what is shown below %q is %q; the reply is %q", i, want, clip(text[:at]), clip(*s.Reply))
					return
				}
				shown = text[:at]
				text = text[at:]
				if j := strings.IndexByte(text, '\n'); j < 0 || strings.TrimSpace(text[:j]) != "" {
					rec.Fail("step %d: behind the reply to %q there is %q", i, want, clip(text))
					return
				}
				rows = strings.Split(text, "\n")[1:]
				rec.Ev("reply shown")
				if len(op.Flags) == 0 && k > 0 {
					rec.Ev("several lines at once")
				}
				// It is the reply of one core.
				var reply struct{ Raw string }
				json.Unmarshal([]byte(*s.Reply), &reply)
				if v := sameLoosely(readResp(reply.Raw), core.exec(Op{K: "text", Text: s.Args[0]})); v != "" {
					rec.Fail("step %d: the reply to %q is not what one core answers that was sent the same lines: %s", i, want, v)
					return
				}
			}
			// Below the reply, perhaps after empty rows, there is one prompt. Something is shown in place of a missing reply.
			for replied := shown != ""; len(rows) > 0 && !strings.HasPrefix(rows[0], strings.TrimRight(prompt, " ")); rows = rows[1:] {
				if strings.TrimSpace(rows[0]) == "" {
					continue
				}
				if replied {
					rec.Fail("step %d: between the reply to %q and the prompt there is %q", i, want, rows[0])
					return
				}
				shown += rows[0]
			}
			if shown == "" && strings.TrimSpace(want) != "" {
				rec.Fail("step %d: nothing is shown for the line %q, which got no reply", i, want)
				return
			}
		}
		if len(sends) > 0 {
			rec.Fail("step %d: %q was sent too, after the keys %q with the line %q begun", i, sends[0].Args, op.Ids, before)
			return
		}
		for len(rows) > 1 && strings.TrimSpace(rows[len(rows)-1]) == "" && is(rows[0], prompt+line) {
			rows = rows[:len(rows)-1]
		}
		if len(rows) != 1 || !is(rows[0], prompt+line) {
			rec.Fail("step %d: after typing %q onto %q the screen ends with %q, and should with %q", i, op.Ids, before, rows, prompt+line)
			return
		}
		if len(lines) == 0 {
			rec.Ev("line begun")
		}
		if len(lines) > 0 && i%4 == 0 {
			rec.State(snapQuick(core.w).Canon())
		}
	}
	if s := snapQuick(core.w); len(s.Items) > 1 {
		rec.Nontrivial = true
	}
}

// typable is the text as someone could type it on one line.
func typable(s string) string {
	return strings.Map(func(c rune) rune {
		switch {
		case c == '\t' || c == '\n' || c == '\r':
			return ' '
		case c < ' ' || c >= 0x7f && c < 0xa0 || c > 0xd7ff:
			return -1
		}
		return c
	}, strings.ToValidUTF8(s, ""))
}

// keys are the pieces in which someone types or pastes the text, with mistakes.
func (r *Rng) keys(text string) []string {
	var out []string
	paste := r.chance(0.3)
	if r.chance(0.1) { // to take back what is not there
		for n := r.between(1, 3); n > 0; n-- {
			text = "\x7f" + text
		}
	}
	slip := []float64{0, 0.01, 0.1}[r.IntN(3)]
	var b []rune
	for _, c := range text {
		if c != '\r' && c != '\x7f' && r.chance(slip) {
			n := r.between(1, 4)
			for k := 0; k < n; k++ {
				b = append(b, []rune("abcxyz 1\"=$é")[r.IntN(12)])
			}
			for k := 0; k < n; k++ {
				b = append(b, '\x7f')
			}
		}
		b = append(b, c)
	}
	for i := 0; i < len(b); {
		n := 1
		if paste {
			n = min(len(b)-i, r.pickInt(1, 3, 20, 100000))
		}
		out = append(out, string(b[i:i+n]))
		i += n
	}
	return out
}

func init() {
	all := mutWeights.with(Weights{KItemFetch: 2, KItemList: 2, KItemIn: 2, KItemExists: 1, KIn: 1, KRelFetch: 2, KRelExists: 1, KRelList: 2, KTo: 1, KFrom: 1, KWorld: 2, KGarbage: 2})
	register(&Prop{ID: "C30", Quick: 700, Thorough: 9000,
		Rule: "cases are seeded sequences of commands, failing and foreign texts typed into the page's terminal under Node, key by key, in pieces and several lines at once, with mistakes taken back, in some cases before the core has loaded or with a core that fails now and then; what is handed to the core, its replies and what is on the screen after every step are compared with what was typed and with a native core; non-trivial: there are several items in the world",
		Need: []string{"reply shown", "line begun", "several lines at once", "line without a core", "loaded late", "never loaded", "core failed: throw", "core failed: text", "core failed: half", "core failed: nothing"},
		Families: []Family{{Name: "typing", Weight: 1, Run: runC30, Gen: func(r *Rng, c *Case, th bool) {
			g := newGen(r, r.idPool())
			w := g.swarm(all)
			if r.chance(0.15) {
				c.Ints = map[string]int{"late": 1}
				for n := r.between(1, 3); n > 0; n-- {
					c.Ops = append(c.Ops, Op{K: "type", Ids: r.keys("item early\r")})
				}
				if r.chance(0.3) {
					c.Ops = append(c.Ops, Op{K: "type", Ids: r.keys("item begun")})
				}
				c.Ops = append(c.Ops, Op{K: "release"})
				if r.chance(0.2) {
					c.Ints["broken"] = 1
				}
			}
			fails := r.chance(0.2)
			for n := r.between(4, 25); n > 0; n-- {
				text := ""
				lines := 1
				if r.chance(0.2) {
					lines = r.between(2, 5)
				}
				for ; lines > 0; lines-- {
					t := ""
					switch x := r.Float64(); {
					case x < 0.03:
					case x < 0.06:
						t = r.pick([]string{"é", "item create é", "naïve", "日本語", "item list 日", "</script>", "<b>&amp;</b>", "\\u0041", "\\", `"\"`, "'", `{"a":1}`, "${x}", "`x`", "null", "true", "%s", "  ", " item list "})
					default:
						op := g.op(g.kind(w))
						if len(op.Text) > 3000 {
							continue
						}
						g.M.Apply(op, false)
						t = typable(op.Text)
						if r.chance(0.08) {
							t = strings.Replace(t, " ", "\t", r.pickInt(1, 1, 2, 9))
						}
					}
					if r.chance(0.1) {
						t = strings.Repeat(" ", r.IntN(5)) + t + strings.Repeat(" ", r.IntN(5))
					}
					text += t + "\r"
				}
				if r.chance(0.1) {
					text = strings.TrimSuffix(text, "\r")
				}
				op := Op{K: "type", Ids: r.keys(text)}
				if r.chance(0.006) { // very many lines in one piece, and much to show
					text, k := "", r.between(20, 90)
					for ; k > 0; k-- {
						text += fmt.Sprintf("item i%d expanded=\"%s\"\r", k, strings.Repeat(r.text(wordAlpha+" ", 20, 20), r.IntN(30)))
					}
					op.Ids = []string{text + "item list\rworld\r"}
				}
				if fails && r.chance(0.4) {
					op.Flags = []string{r.pick([]string{"throw", "text", "nothing", "half"})}
				}
				c.Ops = append(c.Ops, op)
			}
		}}}})
}
