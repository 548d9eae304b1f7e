package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"regexp"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"github.com/williamflynt/topolith/pkg/grammar"
)

// console is cmd/cli in a pseudo-terminal.
type console struct {
	cmd    *exec.Cmd
	master *os.File
	slave  *os.File // kept open, so that the output remains when the console ends
	mu     sync.Mutex
	out    []byte
	ended  chan struct{}
	pos    int
}

func ioctl(fd, req uintptr, arg unsafe.Pointer) error {
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, fd, req, uintptr(arg)); e != 0 {
		return e
	}
	return nil
}

func startConsole(bin string) (*console, error) {
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return nil, err
	}
	var n, zero int32
	if err := ioctl(m.Fd(), syscall.TIOCSPTLCK, unsafe.Pointer(&zero)); err != nil {
		return nil, err
	}
	if err := ioctl(m.Fd(), syscall.TIOCGPTN, unsafe.Pointer(&n)); err != nil {
		return nil, err
	}
	s, err := os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return nil, err
	}
	ws := [4]uint16{50, 2000, 0, 0}
	if err := ioctl(s.Fd(), syscall.TIOCSWINSZ, unsafe.Pointer(&ws)); err != nil {
		return nil, err
	}
	cmd := exec.Command(bin)
	cmd.Stdin, cmd.Stdout, cmd.Stderr = s, s, s
	cmd.Dir = scratchDir
	cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Setctty: true, Ctty: 0}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	c := &console{cmd: cmd, master: m, slave: s, ended: make(chan struct{})}
	go func() {
		buf := make([]byte, 65536)
		for {
			n, err := m.Read(buf)
			c.mu.Lock()
			c.out = append(c.out, buf[:n]...)
			c.mu.Unlock()
			if err != nil {
				return
			}
		}
	}()
	go func() { cmd.Wait(); close(c.ended) }()
	return c, nil
}

func (c *console) close() {
	c.cmd.Process.Kill()
	<-c.ended
	c.slave.Close()
	c.master.Close()
}

func (c *console) alive() bool {
	select {
	case <-c.ended:
		return false
	default:
		return true
	}
}

// wait reads on until the text appears, and returns what was before it.
func (c *console) wait(text string, d time.Duration) (string, error) {
	deadline := time.Now().Add(d)
	for {
		c.mu.Lock()
		i := bytes.Index(c.out[c.pos:], []byte(text))
		var got string
		if i >= 0 {
			got = string(c.out[c.pos : c.pos+i])
			c.pos += i + len(text)
		}
		rest := clip(string(c.out[c.pos:]))
		c.mu.Unlock()
		if i >= 0 {
			return got, nil
		}
		if !c.alive() {
			time.Sleep(50 * time.Millisecond)
			return "", fmt.Errorf("the session ended (%v); last output %q", c.cmd.ProcessState, rest)
		}
		if time.Now().After(deadline) {
			return "", fmt.Errorf("no %q within %v; last output %q", text, d, rest)
		}
		time.Sleep(2 * time.Millisecond)
	}
}

// dollarLines counts the lines that end an object; a response has one at most. Values cannot contain such lines.
func dollarLines(s string) (n int) {
	for _, l := range strings.Split(s, "\n") {
		if strings.TrimSpace(l) == "$$$$" {
			n++
		}
	}
	return n
}

var ansi = regexp.MustCompile("\x1b\\[[0-9;?]*[A-Za-z]|\x1b\\][^\x07]*\x07|\x1b[A-Z]")

const consolePatience = 40 * time.Second

// line types a line, in pieces, and returns what the console printed for it.
func (c *console) line(pieces []string) (string, error) {
	for _, p := range pieces {
		if p == "" {
			continue
		}
		if _, err := c.master.WriteString(p); err != nil {
			return "", err
		}
		// Each read of the console's is followed by one rendering. Wait for it, so that reads are not merged.
		if _, err := c.wait(">>> ", consolePatience); err != nil {
			return "", err
		}
	}
	if _, err := c.master.WriteString("\r"); err != nil {
		return "", err
	}
	if _, err := c.wait(">>> ", consolePatience); err != nil {
		return "", err
	}
	if _, err := c.wait("\n", consolePatience); err != nil { // the end of the line as typed
		return "", err
	}
	out, err := c.wait(">>> ", consolePatience)
	if err != nil {
		return "", err
	}
	out = ansi.ReplaceAllString(out, "")
	return strings.ReplaceAll(out, "\r", ""), nil
}

func init() {
	c24 := func(c *Case, rec *Rec) {
		bin := os.Getenv("VERIF_CLI")
		if bin == "" {
			fmt.Fprintln(os.Stderr, "error: VERIF_CLI is not set; use check.sh")
			os.Exit(5)
		}
		con, err := startConsole(bin)
		if err != nil {
			rec.Ev("no-pseudo-terminal")
			return
		}
		defer con.close()
		if _, err := con.wait(">>> ", consolePatience); err != nil {
			rec.Fail("the console does not start: %v", err)
			return
		}
		core := newSess("default-world", nil, c.Ops)
		r := newRng(c.Seed, "typing", c.N)
		type1 := func(text string) (string, error) {
			pieces := []string{text}
			if len(text) > 900 {
				pieces = nil
				for len(text) > 0 {
					k := min(len(text), 600)
					pieces = append(pieces, text[:k])
					text = text[k:]
				}
				rec.Ev("long-line")
				return con.line(pieces)
			}
			if len(text) > 1 && text == strings.ToValidUTF8(text, "") && r.chance(0.15) {
				k := []int{}
				for i := range text {
					if i > 0 {
						k = append(k, i)
					}
				}
				if len(k) > 0 {
					i := k[r.IntN(len(k))]
					pieces = []string{text[:i], text[i:]}
				}
			}
			return con.line(pieces)
		}
		one := func(i int, op Op) bool {
			out, err := type1(op.Text)
			if err != nil {
				rec.Fail("line %d, %q: %v", i, clip(op.Text), err)
				return false
			}
			text := strings.TrimSpace(op.Text)
			if text == "" {
				if strings.TrimSpace(out) != "" {
					rec.Fail("line %d, an empty one, prints %q", i, clip(out))
					return false
				}
				rec.Ev("empty-line")
				return true
			}
			if _, err := grammar.Parse(text); err != nil {
				if !strings.Contains(strings.ToLower(out), "invalid") {
					rec.Fail("line %d, %q, is not valid, but what is printed is %q", i, clip(text), clip(out))
					return false
				}
				rec.Ev("invalid-line")
				return true
			}
			op2 := op
			op2.Text = text
			want := core.exec(op2)
			got := readResp(strings.TrimSuffix(out, "\n"))
			want = readResp(strings.ReplaceAll(want.Raw, "\r", ""))
			var v string
			if op.K == "text" || op.K == KGarbage {
				v = sameLoosely(got, want)
			} else {
				v = sameAnswer(op, got, want)
			}
			if v == "" && got.Bad == "" && dollarLines(out) != dollarLines(want.Raw) {
				v = fmt.Sprintf("%q, and the core says %q", clip(out), clip(want.Raw))
			}
			if v != "" {
				rec.Fail("line %d, %q: what is printed is not what the core answers: %s", i, clip(text), v)
				return false
			}
			rec.Ev("response-compared")
			if got.OK {
				rec.Ev("ok-response")
			} else {
				rec.Ev("error-response")
			}
			return true
		}
		for i, op := range c.Ops {
			if !one(i, op) {
				return
			}
		}
		if !one(len(c.Ops), Op{K: KWorld, Text: "world"}) {
			return
		}
		rec.Ev("final-world-compared")
		if len(c.Ops) > 100 {
			rec.Ev("long-session")
		}
		if !con.alive() {
			rec.Fail("the session ended")
			return
		}
		s := snapQuick(core.w)
		rec.State(s.Canon())
		rec.Nontrivial = len(s.Items) > 0
	}
	allW := mutWeights.with(Weights{KItemFetch: 2, KItemList: 2, KItemIn: 2, KItemExists: 1, KIn: 1, KRelFetch: 2, KRelExists: 1, KRelList: 2, KTo: 1, KFrom: 1, KWorld: 3, KGarbage: 3})
	oneLine := func(s string) string {
		s = strings.ToValidUTF8(s, "?")
		s = strings.Map(func(r rune) rune {
			if r < 32 || r == 127 || (r >= 0x80 && r < 0xa0) {
				return ' '
			}
			if r == '>' {
				return '<'
			}
			return r
		}, s)
		if len(s) > 900 {
			s = strings.ToValidUTF8(s[:900], "")
		}
		return s
	}
	odd := []string{"", " ", "   ", "undo", "redo", ".save", ".load x", ".exit", ".quit", "history", "clear", "exit", "quit", "help", "?", "q", ":q", "item", "world x", "nil", "é", "item create é", "日本語", "200 ok", `450 error "x"`, "tree{nil::[]}", "item create", "#", "%s%d%!", "$$$$", "\\", "\"", "logout", "bye", "EOF", "Ctrl-D", "/help", "a b c", "item list -5", "rel", "<<< ",
		"!!", "!1", "!-1", "^a^b", ".", "..", "*", "&", "@", "y", "n", "yes", "save", "load", "ls", "cat /etc/passwd", "reset", "cls", "version", "-v", "--help", "man", "verbose", "quiet", "x", "exit()", "quit;", "item?", "worlds", "World", "HELP", "EXIT"}
	register(&Prop{ID: "C24", Quick: 300, Thorough: 5000, Workers: 24,
		Rule: "cases are sessions of the compiled console in a pseudo-terminal: lines with commands, invalid, empty and non-ASCII lines, some typed in pieces; what is printed for each is compared with what the core answers, and the world at the end; non-trivial: there are items in the world",
		Need: []string{"response-compared", "ok-response", "error-response", "invalid-line", "empty-line", "final-world-compared", "long-session"},
		Families: []Family{{Name: "long", Weight: 1, Run: c24, Gen: func(r *Rng, c *Case, th bool) {
			g := newGen(r, r.idPool())
			w := g.swarm(allW)
			for i, n := 0, r.between(110, 280); i < n; i++ {
				if r.chance(0.06) {
					c.Ops = append(c.Ops, Op{K: "text", Text: r.pick(odd)})
					continue
				}
				op := g.op(g.kind(w))
				if r.chance(0.01) { // a line longer than the console reads at once
					op = Op{K: KItemCS, A: r.pick(g.Pool), P: [][2]string{{"name", strings.Repeat(r.text(wordAlpha, 50, 50), r.between(20, 60))}}}
					op.Text = `item "` + op.A + `" name="` + op.P[0][1] + `"`
				}
				if t := oneLine(op.Text); len(t) >= 899 && op.K != KItemCS || strings.ContainsAny(op.Text, "<>") {
					continue
				} else if len(t) < 899 {
					op.Text = t
				} else if strings.ContainsAny(op.Text, "\n\t\r") || len(op.Text) > 5000 {
					continue
				}
				g.M.Apply(op, false)
				c.Ops = append(c.Ops, op)
			}
		}}, {Name: "session", Weight: 59, Run: c24, Gen: func(r *Rng, c *Case, th bool) {
			g := newGen(r, r.idPool())
			c.Ops = g.seedOps(g.between(0, 4), g.between(0, 3), 0.5)
			w := g.swarm(allW)
			for i := 0; i < g.between(8, 25); i++ {
				if len(c.Ops) > 0 && r.chance(0.12) { // a line that was typed before
					op := c.Ops[r.IntN(len(c.Ops))]
					if op.K != "text" {
						g.M.Apply(op, false)
					}
					c.Ops = append(c.Ops, op)
				}
				switch x := r.Float64(); {
				case x < 0.75:
					op := g.op(g.kind(w))
					g.M.Apply(op, false)
					c.Ops = append(c.Ops, op)
				case x < 0.82:
					c.Ops = append(c.Ops, Op{K: "text", Text: g.hostileText(allW)})
				case x < 0.9:
					c.Ops = append(c.Ops, Op{K: "text", Text: g.asIf(g.op(g.kind(w)).Text)})
				default:
					c.Ops = append(c.Ops, Op{K: "text", Text: r.pick(odd)})
				}
			}
			for i := range c.Ops {
				c.Ops[i].Text = oneLine(c.Ops[i].Text)
				if len(c.Ops[i].Text) >= 899 { // it was cut
					c.Ops[i].K = "text"
				}
				if r.chance(0.1) {
					c.Ops[i].Text = "  " + c.Ops[i].Text + " "
				}
			}
		}}}})
}
