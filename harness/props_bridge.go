package main

import (
	"bufio"
	_ "embed"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

//go:embed bridge.js
var bridgeJS string

// bridge is Node running the compiled cmd/wasm.
type bridge struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	used int
}

type bridgeReply struct {
	Ok     bool    `json:"ok"`
	Type   string  `json:"type"`
	Reply  *string `json:"reply"`
	Thrown string  `json:"thrown"`
	Exited bool    `json:"exited"`
}

var theBridge *bridge

func newBridge() (*bridge, error) {
	js := filepath.Join(scratchDir, "bridge.js")
	if err := os.WriteFile(js, []byte(bridgeJS), 0644); err != nil {
		return nil, err
	}
	cmd := exec.Command("node", "--stack-size=900", js, os.Getenv("VERIF_WASM"), filepath.Join(os.Getenv("VERIF_WASM_EXEC"), "wasm_exec.js"))
	cmd.Stderr = os.Stderr
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	r, w, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	cmd.ExtraFiles = []*os.File{w}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	w.Close()
	return &bridge{cmd: cmd, in: in, out: bufio.NewReaderSize(r, 1<<20)}, nil
}

func (b *bridge) ask(q any) (r bridgeReply, err error) {
	j, _ := json.Marshal(q)
	if _, err = b.in.Write(append(j, '\n')); err != nil {
		return
	}
	l, err := b.out.ReadBytes('\n')
	if err != nil {
		return r, fmt.Errorf("the bridge's process ended: %v", err)
	}
	err = json.Unmarshal(l, &r)
	return
}

func (b *bridge) close() {
	b.in.Close()
	b.cmd.Process.Kill()
	b.cmd.Wait()
}

func dropBridge() {
	if theBridge != nil {
		theBridge.close()
		theBridge = nil
	}
}

// freshBridge is a bridge with a new world.
func freshBridge() (*bridge, error) {
	if os.Getenv("VERIF_WASM") == "" || os.Getenv("VERIF_WASM_EXEC") == "" {
		fmt.Fprintln(os.Stderr, "error: VERIF_WASM and VERIF_WASM_EXEC are not set; use check.sh")
		os.Exit(5)
	}
	if theBridge != nil && theBridge.used >= 12 {
		theBridge.close()
		theBridge = nil
	}
	if theBridge == nil {
		b, err := newBridge()
		if err != nil {
			return nil, err
		}
		theBridge = b
	}
	theBridge.used++
	r, err := theBridge.ask(map[string]any{"op": "new"})
	if err == nil && !r.Ok {
		err = fmt.Errorf("the bridge does not export its function")
	}
	if err != nil {
		theBridge.close()
		theBridge = nil
	}
	return theBridge, err
}

// sameLoosely compares answers of the core to the same text in the same state, when it isn't known what
// kind of command the text is. Listings may differ in order and in what a limit picks.
func sameLoosely(a, b Resp) string {
	if a.Raw == b.Raw {
		return ""
	}
	differ := fmt.Sprintf("%q, and the core says %q", clip(a.Raw), clip(b.Raw))
	if a.OK != b.OK || a.Code != b.Code || a.Message != b.Message && !a.OK || (a.Bad == "") != (b.Bad == "") {
		return differ
	}
	if !a.OK {
		return ""
	}
	if x, err := readWorldText(a.Body); err == nil {
		y, err := readWorldText(b.Body)
		if err != nil || Diff(x, y) != "" {
			return differ
		}
		return ""
	}
	x, y := strings.Split(a.Body, "\n"), strings.Split(b.Body, "\n")
	if len(x) != len(y) {
		return differ
	}
	sort.Strings(x)
	sort.Strings(y)
	for i := range x {
		// A limit may have picked others, but of the same kind.
		fx, _, _ := strings.Cut(x[i], " ")
		fy, _, _ := strings.Cut(y[i], " ")
		if fx != fy {
			return differ
		}
	}
	if len(x) == 1 && x[0] != y[0] && !strings.HasPrefix(x[0], "rel ") && !strings.HasPrefix(x[0], "item ") {
		return differ
	}
	return ""
}

func init() {
	c23 := func(c *Case, rec *Rec) {
		b, err := freshBridge()
		if err != nil {
			rec.Fail("the bridge does not start: %v", err)
			return
		}
		core := newSess("default-world", nil, c.Ops)
		var last *Snap
		for i, op := range c.Ops {
			if op.K == "special" {
				r, err := b.ask(map[string]any{"op": "special", "args": append([]string{}, op.Ids...)})
				if err != nil || r.Exited || r.Thrown != "" {
					dropBridge()
					rec.Fail("step %d: the bridge did not survive a call with %q: %v %s", i, op.Ids, err, r.Thrown)
					return
				}
				// What it says is its own business, but one argument that is no text may have been a command.
				if len(op.Ids) == 1 && r.Reply != nil {
					rec.Ev("no-text")
				} else {
					rec.Ev("wrong-number-of-arguments")
				}
				continue
			}
			r, err := b.ask(map[string]any{"op": "send", "args": []string{op.Text}})
			if err != nil || r.Exited || r.Thrown != "" {
				dropBridge()
				rec.Fail("step %d: the bridge did not survive %q: %v %s", i, clip(op.Text), err, r.Thrown)
				return
			}
			if r.Reply == nil {
				rec.Fail("step %d: the reply to %q is no text but a %s", i, clip(op.Text), r.Type)
				return
			}
			want := core.exec(op)
			var reply struct {
				Status *int               `json:"status"`
				Error  *map[string]string `json:"error"`
				Raw    *string            `json:"raw"`
				Data   *struct {
					Object struct{ Type, Repr string }
					Status struct {
						Code    int
						Message string
					}
				} `json:"data"`
			}
			dec := json.NewDecoder(strings.NewReader(*r.Reply))
			if err := dec.Decode(&reply); err != nil {
				rec.Fail("step %d: the reply to %q is no JSON of the expected shape: %v: %q", i, clip(op.Text), err, clip(*r.Reply))
				return
			}
			if _, err := dec.Token(); err != io.EOF {
				rec.Fail("step %d: the reply to %q is more than one JSON document: %q", i, clip(op.Text), clip(*r.Reply))
				return
			}
			if reply.Status == nil || reply.Error == nil || reply.Raw == nil {
				rec.Fail("step %d: the reply to %q lacks its status, error or raw part: %q", i, clip(op.Text), clip(*r.Reply))
				return
			}
			got := readResp(*reply.Raw)
			wantValid := want
			if !utf8.ValidString(want.Raw) {
				wantValid = readResp(strings.ToValidUTF8(want.Raw, "\uFFFD"))
			}
			var v string
			if op.K == "text" || op.K == KGarbage {
				v = sameLoosely(got, wantValid)
			} else {
				v = sameAnswer(op, got, wantValid)
			}
			if v != "" {
				rec.Fail("step %d, %q: the bridge's raw text is not what the core answers: %s", i, clip(op.Text), v)
				return
			}
			edge := func(s string) (string, string) {
				t := strings.TrimSpace(s)
				return s[:strings.Index(s, t)], s[strings.LastIndex(s, t)+len(t):]
			}
			l1, t1 := edge(*reply.Raw)
			if l2, t2 := edge(wantValid.Raw); l1 != l2 || t1 != t2 {
				rec.Fail("step %d, %q: the bridge's raw text is %q, the core answers %q", i, clip(op.Text), clip(*reply.Raw), clip(wantValid.Raw))
				return
			}
			rec.Ev("raw-compared")
			if *reply.Status != got.Code {
				rec.Fail("step %d, %q: the status is %d, the code in the raw text %d", i, clip(op.Text), *reply.Status, got.Code)
				return
			}
			if *reply.Status == 200 {
				if len(*reply.Error) != 0 {
					rec.Fail("step %d, %q: the status is 200 but the error part is %v", i, clip(op.Text), *reply.Error)
					return
				}
				rec.Ev("status-200")
			} else {
				e := *reply.Error
				if e["code"] != strconv.Itoa(got.Code) {
					rec.Fail("step %d, %q: the error part has code %q, the raw text %d", i, clip(op.Text), e["code"], got.Code)
					return
				}
				if strings.Trim(e["message"], `"`) != strings.Trim(got.Message, `"`) {
					rec.Fail("step %d, %q: the error part has message %q, the raw text %q", i, clip(op.Text), e["message"], clip(got.Message))
					return
				}
				rec.Ev(fmt.Sprintf("status-%d", got.Code))
			}
			if reply.Data == nil {
				rec.Fail("step %d: the reply to %q lacks its data part: %q", i, clip(op.Text), clip(*r.Reply))
				return
			}
			if d := reply.Data.Status; d.Code != got.Code || !got.OK && strings.Trim(d.Message, `"`) != strings.Trim(got.Message, `"`) {
				rec.Fail("step %d, %q: the data part has code %d and message %q, the raw text %d and %q", i, clip(op.Text), d.Code, d.Message, got.Code, clip(got.Message))
				return
			}
			if one := strings.TrimSpace(got.Body); got.OK && !strings.Contains(one, "\n") && (strings.HasPrefix(one, "item ") || strings.HasPrefix(one, "rel ")) {
				if d := reply.Data.Object; strings.TrimSpace(d.Repr) != one || !strings.HasPrefix(one, d.Type+" ") {
					rec.Fail("step %d, %q: the data part has the %s %q, the raw text %q", i, clip(op.Text), d.Type, clip(d.Repr), clip(one))
					return
				}
				rec.Ev("one-object-in-data")
			}
			if op.K == KWorld {
				rec.Ev("world-compared")
			}
			if i%5 == 4 && len(c.Ops) < 200 || i == len(c.Ops)-1 {
				last = snapQuick(core.w)
				rec.State(last.Canon())
			}
		}
		// One world throughout.
		r, err := b.ask(map[string]any{"op": "send", "args": []string{"world"}})
		if err != nil || r.Reply == nil {
			rec.Fail("the bridge did not survive: %v", err)
			return
		}
		var reply struct{ Raw string }
		json.Unmarshal([]byte(*r.Reply), &reply)
		s, err := readWorldText(readResp(reply.Raw).Body)
		if err != nil {
			rec.Fail("the bridge's world cannot be read: %v: %q", err, clip(reply.Raw))
			return
		}
		if d := Diff(snapQuick(core.w), s); d != "" {
			rec.Fail("the bridge's world is not the core's after the same commands: %s", d)
			return
		}
		if len(c.Ops) > 200 {
			rec.Ev("long-session")
		}
		rec.Ev("final-world-compared")
		rec.Nontrivial = last != nil && len(last.Items) > 0
	}
	allW := mutWeights.with(Weights{KItemFetch: 2, KItemList: 2, KItemIn: 2, KItemExists: 1, KIn: 1, KRelFetch: 2, KRelExists: 1, KRelList: 2, KTo: 1, KFrom: 1, KWorld: 3, KGarbage: 3})
	uni := []string{"é", "item create é", "item create \"naïve\"", "日本語", "item list 日", "\u0000", "\ufeffitem list", "item\u00a0list", "🙂", "item create a name=\"🙂\"", "\u2028", "</script>", "<b>&amp;</b>", "\\u0041", "\\", "\"\\\"", "item create a name=\"\\\"", "'", "{\"a\":1}", "\ufffd"}
	register(&Prop{ID: "C23", Quick: 600, Thorough: 8000,
		Rule: "cases are sequences of commands, hostile texts, non-ASCII texts and misuse sent to the compiled WebAssembly module's topolithSend under Node and, in parallel, to the core; every reply is parsed and compared with the core's answer, and the worlds at the end; non-trivial: there are items in the world",
		Need: []string{"raw-compared", "status-200", "status-400", "world-compared", "final-world-compared", "wrong-number-of-arguments", "long-session", "one-object-in-data"},
		Families: []Family{{Name: "long", Weight: 1, Run: c23, Gen: func(r *Rng, c *Case, th bool) {
			g := newGen(r, r.idPool())
			w := g.swarm(allW)
			for i, n := 0, r.pickInt(r.between(300, 600), r.between(1030, 1200)); i < n; i++ {
				switch x := r.Float64(); {
				case x < 0.03:
					c.Ops = append(c.Ops, Op{K: "text", Text: r.pick(uni)})
				case x < 0.06:
					c.Ops = append(c.Ops, Op{K: "special", Ids: r.sub([]string{"undefined", "null", "number", "object"}, r.between(0, 3))})
				default:
					op := g.op(g.kind(w))
					g.M.Apply(op, false)
					c.Ops = append(c.Ops, op)
				}
			}
		}}, {Name: "calls", Weight: 79, Run: c23, Gen: func(r *Rng, c *Case, th bool) {
			g := newGen(r, r.idPool())
			c.Ops = g.seedOps(g.between(0, 5), g.between(0, 4), 0.5)
			if r.chance(0.06) { // replies of up to some hundred kilobytes
				for k := r.between(1, 3); k > 0; k-- {
					v := strings.Repeat(r.text(quotedAlpha, 100, 100), r.between(10, 900))
					op := Op{K: KItemCS, A: r.pick(g.Pool), P: [][2]string{{r.pick([]string{"name", "expanded"}), v}}}
					g.render(&op)
					g.M.Apply(op, false)
					c.Ops = append(c.Ops, op)
				}
			}
			w := g.swarm(allW)
			for i := 0; i < g.between(10, 40); i++ {
				switch x := r.Float64(); {
				case x < 0.72:
					op := g.op(g.kind(w))
					g.M.Apply(op, false)
					c.Ops = append(c.Ops, op)
				case x < 0.85:
					c.Ops = append(c.Ops, Op{K: "text", Text: strings.ToValidUTF8(g.hostileText(allW), "\ufffd")})
				case x < 0.95:
					c.Ops = append(c.Ops, Op{K: "text", Text: r.pick(uni)})
				case x < 0.97:
					c.Ops = append(c.Ops, Op{K: "special", Ids: r.sub([]string{"undefined", "null", "number", "object", "array", "true", "function", "nan"}, r.between(1, 3))})
				case x < 0.98:
					c.Ops = append(c.Ops, Op{K: "special"})
				case x < 0.986: // a character that means something elsewhere
					s := g.op(g.kind(w)).Text
					k := r.pick([]string{"\x00", "\x00", "\x04", "\x1a", "\x7f", "\ufeff", "\u2028", "\v", "\f", ";", "\n", "\\"})
					switch r.IntN(4) {
					case 0:
						s = k + s
					case 1:
						s += k + " x"
					case 2:
						if i := strings.IndexByte(s, ' '); i > 0 {
							s = s[:i] + k + s[i:]
						}
					default:
						s += k
					}
					c.Ops = append(c.Ops, Op{K: "text", Text: strings.ToValidUTF8(s, "\ufffd")})
				case x < 0.99:
					c.Ops = append(c.Ops, Op{K: "text", Text: strings.ToValidUTF8(g.largeN(1<<g.between(8, 12), g.IntN(16)), "\ufffd")})
				default:
					c.Ops = append(c.Ops, Op{K: "text", Text: ""})
				}
			}
		}}}})
}
