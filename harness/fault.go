package main

import (
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// A process under ptrace: every file system call it makes between two marks can be made to fail, be cut
// short, or be its last.

const (
	markBegin = 0x7eee0001
	markEnd   = 0x7eee0002
)

func mark(n uintptr) { syscall.RawSyscall(syscall.SYS_GETPGID, n, 0, 0) }

type sysKind struct {
	name string
	fd   bool // the first argument is a file descriptor
	errs []syscall.Errno
}

var sysKinds = map[uint64]sysKind{
	syscall.SYS_OPEN:       {"open", false, []syscall.Errno{syscall.ENOSPC, syscall.EMFILE, syscall.EACCES, syscall.EIO, syscall.EROFS}},
	syscall.SYS_OPENAT:     {"openat", false, []syscall.Errno{syscall.ENOSPC, syscall.EMFILE, syscall.EACCES, syscall.EIO, syscall.EROFS}},
	437:                    {"openat2", false, []syscall.Errno{syscall.ENOSPC, syscall.EIO}},
	syscall.SYS_CREAT:      {"creat", false, []syscall.Errno{syscall.ENOSPC, syscall.EACCES, syscall.EIO}},
	syscall.SYS_WRITE:      {"write", true, []syscall.Errno{syscall.ENOSPC, syscall.EIO, syscall.EDQUOT, syscall.EFBIG}},
	syscall.SYS_PWRITE64:   {"pwrite64", true, []syscall.Errno{syscall.ENOSPC, syscall.EIO}},
	syscall.SYS_WRITEV:     {"writev", true, []syscall.Errno{syscall.ENOSPC, syscall.EIO}},
	syscall.SYS_FSYNC:      {"fsync", true, []syscall.Errno{syscall.EIO, syscall.ENOSPC}},
	syscall.SYS_FDATASYNC:  {"fdatasync", true, []syscall.Errno{syscall.EIO, syscall.ENOSPC}},
	syscall.SYS_CLOSE:      {"close", true, []syscall.Errno{syscall.EIO, syscall.ENOSPC}},
	syscall.SYS_FTRUNCATE:  {"ftruncate", true, []syscall.Errno{syscall.EIO}},
	syscall.SYS_TRUNCATE:   {"truncate", false, []syscall.Errno{syscall.EIO}},
	syscall.SYS_FCHMOD:     {"fchmod", true, []syscall.Errno{syscall.EPERM, syscall.EIO}},
	syscall.SYS_CHMOD:      {"chmod", false, []syscall.Errno{syscall.EPERM, syscall.EIO}},
	syscall.SYS_FCHMODAT:   {"fchmodat", false, []syscall.Errno{syscall.EPERM, syscall.EIO}},
	syscall.SYS_RENAME:     {"rename", false, []syscall.Errno{syscall.ENOSPC, syscall.EIO, syscall.EACCES, syscall.EXDEV}},
	syscall.SYS_RENAMEAT:   {"renameat", false, []syscall.Errno{syscall.ENOSPC, syscall.EIO, syscall.EACCES, syscall.EXDEV}},
	316:                    {"renameat2", false, []syscall.Errno{syscall.ENOSPC, syscall.EIO, syscall.EACCES, syscall.EXDEV}},
	syscall.SYS_UNLINK:     {"unlink", false, []syscall.Errno{syscall.EIO, syscall.EACCES}},
	syscall.SYS_UNLINKAT:   {"unlinkat", false, []syscall.Errno{syscall.EIO, syscall.EACCES}},
	syscall.SYS_LINK:       {"link", false, []syscall.Errno{syscall.EIO, syscall.EMLINK}},
	syscall.SYS_LINKAT:     {"linkat", false, []syscall.Errno{syscall.EIO, syscall.EMLINK}},
	syscall.SYS_SYMLINKAT:  {"symlinkat", false, []syscall.Errno{syscall.EIO}},
	syscall.SYS_MKDIR:      {"mkdir", false, []syscall.Errno{syscall.ENOSPC, syscall.EACCES}},
	syscall.SYS_MKDIRAT:    {"mkdirat", false, []syscall.Errno{syscall.ENOSPC, syscall.EACCES}},
	syscall.SYS_STAT:       {"stat", false, []syscall.Errno{syscall.EIO, syscall.EACCES}},
	syscall.SYS_LSTAT:      {"lstat", false, []syscall.Errno{syscall.EIO, syscall.EACCES}},
	syscall.SYS_NEWFSTATAT: {"newfstatat", false, []syscall.Errno{syscall.EIO, syscall.EACCES}},
	syscall.SYS_FSTAT:      {"fstat", true, []syscall.Errno{syscall.EIO}},
	syscall.SYS_SENDFILE:   {"sendfile", true, []syscall.Errno{syscall.EIO, syscall.ENOSPC}},
	326:                    {"copy_file_range", false, []syscall.Errno{syscall.EIO, syscall.ENOSPC}},
	syscall.SYS_FALLOCATE:  {"fallocate", true, []syscall.Errno{syscall.EIO, syscall.ENOSPC}},
}

type sysEvent struct {
	Name string
	Nr   uint64
	Len  int // of a write
}

// Fault is what happens at the At-th system call, or at each from there on.
type Fault struct {
	At    int
	Kind  string // kill: it is not made, the process dies. short: a write of only Len bytes. short-kill: and the process dies. error.
	Errno syscall.Errno
	Len   int
	On    bool // at each from there on that is of the same kind of call
	Name  string
}

func (f Fault) String() string {
	s := fmt.Sprintf("%s at system call %d (%s)", f.Kind, f.At, f.Name)
	if f.Kind == "error" {
		s += fmt.Sprintf(" %v", f.Errno)
	}
	if strings.HasPrefix(f.Kind, "short") {
		s += fmt.Sprintf(" after %d bytes", f.Len)
	}
	if f.On {
		s += " and on"
	}
	return s
}

type traceResult struct {
	Events   []sysEvent
	Out      string
	Killed   bool // by a fault
	Exit     int  // exit status, or -1
	Marked   bool // the second mark was reached
	Err      error
	Hit      int // faults that took place
	TimedOut bool
}

const (
	ptraceOExitKill = 0x100000
	wall            = 0x40000000
)

// traced runs the command with faults.
func traced(argv []string, outFile, root string, faults []Fault) (tr traceResult) {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	out, err := os.Create(outFile)
	if err != nil {
		tr.Err = err
		return
	}
	defer out.Close()
	cmd := exec.Command(argv[0], argv[1:]...)
	cmd.Stdout, cmd.Stderr = out, out
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single")
	cmd.SysProcAttr = &syscall.SysProcAttr{Ptrace: true, Setpgid: true}
	if err := cmd.Start(); err != nil {
		tr.Err = err
		return
	}
	pid := cmd.Process.Pid
	var ws syscall.WaitStatus
	if _, err := syscall.Wait4(pid, &ws, 0, nil); err != nil || !ws.Stopped() {
		tr.Err = fmt.Errorf("the traced process did not stop: %v", err)
		cmd.Process.Kill()
		return
	}
	if err := syscall.PtraceSetOptions(pid, syscall.PTRACE_O_TRACESYSGOOD|syscall.PTRACE_O_TRACECLONE|ptraceOExitKill); err != nil {
		tr.Err = err
		cmd.Process.Kill()
		return
	}
	watchdog := time.AfterFunc(40*time.Second, func() { tr.TimedOut = true; syscall.Kill(pid, syscall.SIGKILL) })
	defer watchdog.Stop()
	type thread struct {
		inside bool
		fix    func(r *syscall.PtraceRegs)
	}
	threads := map[int]*thread{pid: {}}
	active := false
	persist := map[uint64]Fault{}
	resume := func(tid, sig int) {
		if err := syscall.PtraceSyscall(tid, sig); err != nil && err != syscall.ESRCH && tr.Err == nil {
			tr.Err = err
		}
	}
	resume(pid, 0)
	for {
		tid, err := syscall.Wait4(-pid, &ws, wall, nil)
		if err == syscall.EINTR {
			continue
		}
		if err != nil {
			tr.Err = fmt.Errorf("wait: %v", err)
			syscall.Kill(pid, syscall.SIGKILL)
			return
		}
		if ws.Exited() || ws.Signaled() {
			delete(threads, tid)
			if tid == pid {
				tr.Exit = -1
				if ws.Exited() {
					tr.Exit = ws.ExitStatus()
				}
				break
			}
			continue
		}
		if !ws.Stopped() {
			continue
		}
		th := threads[tid]
		if th == nil {
			th = &thread{}
			threads[tid] = th
			if ws.StopSignal() == syscall.SIGSTOP {
				resume(tid, 0)
				continue
			}
		}
		sig := ws.StopSignal()
		switch {
		case sig == syscall.SIGTRAP|0x80:
			th.inside = !th.inside
			var r syscall.PtraceRegs
			if err := syscall.PtraceGetRegs(tid, &r); err != nil {
				resume(tid, 0)
				continue
			}
			if !th.inside {
				if th.fix != nil {
					th.fix(&r)
					th.fix = nil
					syscall.PtraceSetRegs(tid, &r)
				}
				resume(tid, 0)
				continue
			}
			if r.Orig_rax == syscall.SYS_GETPGID {
				switch r.Rdi {
				case markBegin:
					active = true
				case markEnd:
					active, tr.Marked = false, true
				}
			}
			k, ok := sysKinds[r.Orig_rax]
			if active && ok && k.fd {
				l, err := os.Readlink("/proc/" + strconv.Itoa(pid) + "/fd/" + strconv.Itoa(int(int32(r.Rdi))))
				ok = err == nil && strings.HasPrefix(l, root)
			}
			if !active || !ok {
				resume(tid, 0)
				continue
			}
			ev := sysEvent{Name: k.name, Nr: r.Orig_rax}
			if k.name == "write" || k.name == "pwrite64" {
				ev.Len = int(r.Rdx)
			}
			n := len(tr.Events)
			tr.Events = append(tr.Events, ev)
			var f Fault
			if p, ok := persist[ev.Nr]; ok {
				f = p
			}
			for _, x := range faults {
				if x.At == n && x.Name == ev.Name {
					f = x
					if f.On {
						persist[ev.Nr] = f
					}
				}
			}
			fail := func(e syscall.Errno) {
				nr := r.Orig_rax
				r.Orig_rax = ^uint64(0)
				syscall.PtraceSetRegs(tid, &r)
				th.fix = func(r *syscall.PtraceRegs) { r.Orig_rax = nr; r.Rax = uint64(-int64(e)) }
			}
			switch f.Kind {
			case "kill":
				tr.Hit++
				r.Orig_rax = ^uint64(0)
				syscall.PtraceSetRegs(tid, &r)
				tr.Killed = true
				syscall.Kill(pid, syscall.SIGKILL)
			case "error":
				tr.Hit++
				fail(f.Errno)
			case "short", "short-kill":
				tr.Hit++
				if f.Len >= ev.Len || ev.Len == 0 {
					break
				}
				full := r.Rdx
				r.Rdx = uint64(f.Len)
				syscall.PtraceSetRegs(tid, &r)
				kill := f.Kind == "short-kill"
				th.fix = func(r *syscall.PtraceRegs) {
					r.Rdx = full
					if kill {
						tr.Killed = true
						syscall.Kill(pid, syscall.SIGKILL)
					}
				}
			}
			resume(tid, 0)
		case sig == syscall.SIGTRAP: // a clone event, or the end of an exec
			resume(tid, 0)
		default:
			resume(tid, int(sig))
		}
	}
	cmd.Process.Release()
	b, _ := os.ReadFile(outFile)
	tr.Out = string(b)
	return
}
