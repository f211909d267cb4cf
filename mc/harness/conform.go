package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"syscall"
	"time"

	"gevmc/vkern"
)

// Conformance of the kernel model: every operation sequence up to a depth over
// one connection, one epoll instance and one eventfd is run on the real kernel
// (loopback TCP) and on the model, and the results are compared.

type ConfStats struct {
	Traces, Steps, Mismatches int
	Depth                     int
	Complete                  bool
	Samples                   []string
	Detail                    []string
}

// ---------- model ----------

type confModel struct {
	l, s, ep, ev int
	c            *vkern.Conn
	et           bool
}

func newConfModel() *confModel {
	vkern.Reset()
	m := &confModel{}
	m.l, _ = vkern.Listen("tcp", ":1", false)
	m.c = vkern.Connect(":1", "x")
	m.s, _, _ = vkern.Accept(m.l, true)
	m.ep, _ = vkern.EpollCreate()
	m.ev, _ = vkern.Eventfd(0, false, false)
	vkern.EpollCtl(m.ep, syscall.EPOLL_CTL_ADD, m.ev, &vkern.Event{Events: vkern.EPOLLIN, Data: [2]int32{int32(m.ev)}})
	return m
}

func rs(n int, e syscall.Errno) string {
	if e != 0 {
		return errName(e)
	}
	return fmt.Sprint(n)
}

func errName(e syscall.Errno) string {
	switch e {
	case syscall.EAGAIN:
		return "EAGAIN"
	case syscall.EPIPE:
		return "EPIPE"
	case syscall.ECONNRESET:
		return "ECONNRESET"
	case syscall.EBADF:
		return "EBADF"
	case syscall.ENOENT:
		return "ENOENT"
	case syscall.EEXIST:
		return "EEXIST"
	case syscall.ENOTCONN:
		return "ENOTCONN"
	}
	return e.Error()
}

const rdEv = vkern.EPOLLIN | vkern.EPOLLPRI

func (m *confModel) do(op string) string {
	ctl := func(o int, ev uint32) string {
		return rs(0, vkern.EpollCtl(m.ep, o, m.s, &vkern.Event{Events: ev, Data: [2]int32{int32(m.s)}}))
	}
	switch op {
	case "cSend":
		m.c.Send([]byte("abc"))
		return ""
	case "cShutWr":
		m.c.CloseWrite()
	case "cClose":
		m.c.Close()
	case "cReset":
		m.c.Reset()
	case "cRecv":
		n := len(m.c.Got)
		if m.c.GotRST && m.c.TxPending() == 0 {
			return "EOF" // the error is reported once
		}
		m.c.GotEOF = false
		b := m.c.TryRecv(0)
		if len(b) > 0 {
			return string(m.c.Got[n:])
		}
		if m.c.GotRST {
			return "RST"
		}
		if m.c.GotEOF {
			return "EOF"
		}
		return "EAGAIN"
	case "sRead2":
		b, e := vkern.Read(m.s, 2)
		if e != 0 {
			return errName(e)
		}
		return string(b)
	case "sWrite":
		return rs(vkern.Write(m.s, []byte("xyz")))
	case "sShutWr":
		return rs(0, vkern.Shutdown(m.s, syscall.SHUT_WR))
	case "sClose":
		return rs(0, vkern.Close(m.s))
	case "addIn":
		return ctl(syscall.EPOLL_CTL_ADD, rdEv)
	case "addInOut":
		return ctl(syscall.EPOLL_CTL_ADD, rdEv|vkern.EPOLLOUT)
	case "addET":
		return ctl(syscall.EPOLL_CTL_ADD, rdEv|vkern.EPOLLOUT|1<<31)
	case "modIn":
		return ctl(syscall.EPOLL_CTL_MOD, rdEv)
	case "modInOut":
		return ctl(syscall.EPOLL_CTL_MOD, rdEv|vkern.EPOLLOUT)
	case "modOut":
		return ctl(syscall.EPOLL_CTL_MOD, vkern.EPOLLOUT)
	case "del":
		return ctl(syscall.EPOLL_CTL_DEL, 0)
	case "wake":
		return rs(vkern.Write(m.ev, []byte{1, 0, 0, 0, 0, 0, 0, 0}))
	case "evRead":
		b, e := vkern.Read(m.ev, 8)
		if e != 0 {
			return errName(e)
		}
		return fmt.Sprint(b)
	case "wait":
		evs, e := vkern.EpollWait(m.ep, 8, 0)
		if e != 0 {
			return errName(e)
		}
		var out []string
		for _, v := range evs {
			out = append(out, m.name(int(v.Data[0]))+vkern.MaskString(v.Events))
		}
		return strings.Join(out, " ")
	}
	return ""
}

func (m *confModel) name(fd int) string {
	if fd == m.ev {
		return "ev:"
	}
	return "s:"
}
func (m *confModel) finish() {}

// ---------- real kernel ----------

type confReal struct {
	l, s, c, ep, ev int
	sOpen, cOpen    bool
}

var confL int
var confAddr syscall.Sockaddr

func confSetup() error {
	l, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM, 0)
	if err != nil {
		return err
	}
	if err = syscall.Bind(l, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}); err != nil {
		return err
	}
	if err = syscall.Listen(l, 64); err != nil {
		return err
	}
	confL = l
	confAddr, err = syscall.Getsockname(l)
	return err
}

func newConfReal() (*confReal, error) {
	r := &confReal{l: confL, sOpen: true, cOpen: true}
	var err error
	if r.c, err = syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM, 0); err != nil {
		return nil, err
	}
	if err = syscall.Connect(r.c, confAddr); err != nil {
		syscall.Close(r.c)
		return nil, err
	}
	if r.s, _, err = syscall.Accept(confL); err != nil {
		syscall.Close(r.c)
		return nil, err
	}
	_ = syscall.SetsockoptInt(r.s, syscall.IPPROTO_TCP, syscall.TCP_NODELAY, 1)
	_ = syscall.SetsockoptInt(r.c, syscall.IPPROTO_TCP, syscall.TCP_NODELAY, 1)
	_ = syscall.SetNonblock(r.s, true)
	_ = syscall.SetNonblock(r.c, true)
	if r.ep, err = syscall.EpollCreate1(0); err != nil {
		return nil, err
	}
	e, _, en := syscall.Syscall(syscall.SYS_EVENTFD2, 0, 0, 0)
	if en != 0 {
		return nil, en
	}
	r.ev = int(e)
	_ = syscall.SetNonblock(r.ev, true)
	return r, syscall.EpollCtl(r.ep, syscall.EPOLL_CTL_ADD, r.ev, &syscall.EpollEvent{Events: syscall.EPOLLIN, Fd: int32(r.ev)})
}

func re(n int, err error) string {
	if err != nil {
		return errName(err.(syscall.Errno))
	}
	return fmt.Sprint(n)
}

func (r *confReal) do(op string) string {
	ctl := func(o int, ev uint32) string {
		return re(0, syscall.EpollCtl(r.ep, o, r.s, &syscall.EpollEvent{Events: ev, Fd: int32(r.s)}))
	}
	switch op {
	case "cSend":
		_, _ = syscall.Write(r.c, []byte("abc"))
		return ""
	case "cShutWr":
		_ = syscall.Shutdown(r.c, syscall.SHUT_WR)
	case "cClose":
		syscall.Close(r.c)
		r.cOpen = false
	case "cReset":
		_ = syscall.SetsockoptLinger(r.c, syscall.SOL_SOCKET, syscall.SO_LINGER, &syscall.Linger{Onoff: 1})
		syscall.Close(r.c)
		r.cOpen = false
	case "cRecv":
		b := make([]byte, 64)
		n, err := syscall.Read(r.c, b)
		switch {
		case err == syscall.EAGAIN:
			return "EAGAIN"
		case err != nil:
			return "RST"
		case n == 0:
			return "EOF"
		}
		return string(b[:n])
	case "sRead2":
		b := make([]byte, 2)
		n, err := syscall.Read(r.s, b)
		if err != nil {
			return re(0, err)
		}
		return string(b[:n])
	case "sWrite":
		return re(syscall.Write(r.s, []byte("xyz")))
	case "sShutWr":
		return re(0, syscall.Shutdown(r.s, syscall.SHUT_WR))
	case "sClose":
		r.sOpen = false
		return re(0, syscall.Close(r.s))
	case "addIn":
		return ctl(syscall.EPOLL_CTL_ADD, rdEv)
	case "addInOut":
		return ctl(syscall.EPOLL_CTL_ADD, rdEv|vkern.EPOLLOUT)
	case "addET":
		return ctl(syscall.EPOLL_CTL_ADD, rdEv|vkern.EPOLLOUT|1<<31)
	case "modIn":
		return ctl(syscall.EPOLL_CTL_MOD, rdEv)
	case "modInOut":
		return ctl(syscall.EPOLL_CTL_MOD, rdEv|vkern.EPOLLOUT)
	case "modOut":
		return ctl(syscall.EPOLL_CTL_MOD, vkern.EPOLLOUT)
	case "del":
		return ctl(syscall.EPOLL_CTL_DEL, 0)
	case "wake":
		return re(syscall.Write(r.ev, []byte{1, 0, 0, 0, 0, 0, 0, 0}))
	case "evRead":
		b := make([]byte, 8)
		n, err := syscall.Read(r.ev, b)
		if err != nil {
			return re(0, err)
		}
		return fmt.Sprint(b[:n])
	case "wait":
		evs := make([]syscall.EpollEvent, 8)
		n, err := syscall.EpollWait(r.ep, evs, 0)
		if err != nil {
			return re(0, err)
		}
		var out []string
		for _, v := range evs[:n] {
			nm := "s:"
			if int(v.Fd) == r.ev {
				nm = "ev:"
			}
			out = append(out, nm+vkern.MaskString(v.Events))
		}
		return strings.Join(out, " ")
	}
	return ""
}

func (r *confReal) finish() {
	if r.sOpen {
		syscall.Close(r.s)
	}
	if r.cOpen {
		// no TIME_WAIT
		_ = syscall.SetsockoptLinger(r.c, syscall.SOL_SOCKET, syscall.SO_LINGER, &syscall.Linger{Onoff: 1})
		syscall.Close(r.c)
	}
	syscall.Close(r.ep)
	syscall.Close(r.ev)
}

var confAlphabet = []string{"cSend", "cShutWr", "cClose", "cReset", "cRecv", "sRead2", "sWrite", "sShutWr", "sClose", "modInOut", "modOut", "del", "wait", "wake", "evRead"}
var confStarts = []string{"addIn", "addInOut", "addET"}

// legal reports whether op makes sense after seq (each end uses its descriptor
// only while it is open).
func confLegal(seq []string, op string) bool {
	for _, o := range seq {
		if (o == "cClose" || o == "cReset") && op[0] == 'c' {
			return false
		}
		if o == "sClose" && (op[0] == 's' || op == "modInOut" || op == "modOut" || op == "del") {
			return false
		}
		if o == "cShutWr" && (op == "cShutWr" || op == "cSend") {
			return false
		}
	}
	// a read of an idle eventfd blocks in the model
	if op == "evRead" {
		n := 0
		for _, o := range seq {
			if o == "wake" {
				n = 1
			} else if o == "evRead" {
				n = 0
			}
		}
		return n > 0
	}
	return true
}

func confRun(seq []string, slow bool) (model, real []string, err error) {
	m := newConfModel()
	r, err := newConfReal()
	if err != nil {
		return nil, nil, err
	}
	defer r.finish()
	for _, op := range seq {
		model = append(model, m.do(op))
		real = append(real, r.do(op))
		if slow {
			time.Sleep(2 * time.Millisecond)
		}
	}
	// and what both ends see at last
	for _, op := range []string{"wait", "cRecv", "sRead2", "wait"} {
		if confLegal(seq, op) {
			model = append(model, m.do(op))
			real = append(real, r.do(op))
		}
	}
	return
}

func conformMain(depth int, budget time.Duration) {
	st := &ConfStats{Depth: depth, Complete: true}
	done := func() {
		b, _ := json.Marshal(st)
		fmt.Println(string(b))
	}
	defer done()
	if err := confSetup(); err != nil {
		st.Complete = false
		st.Detail = append(st.Detail, "no loopback: "+err.Error())
		return
	}
	deadline := time.Now().Add(budget)
	var rec func(seq []string)
	rec = func(seq []string) {
		if len(seq) == depth {
			if time.Now().After(deadline) {
				st.Complete = false
			}
			if !st.Complete {
				return
			}
			same := false
			var m, r []string
			for try := 0; try < 3 && !same; try++ {
				var err error
				m, r, err = confRun(seq, try > 0)
				if err != nil {
					st.Complete = false
					st.Detail = append(st.Detail, err.Error())
					return
				}
				same = strings.Join(m, "|") == strings.Join(r, "|")
			}
			st.Traces++
			st.Steps += len(m)
			if len(st.Samples) < 2 && st.Traces%977 == 1 {
				st.Samples = append(st.Samples, strings.Join(seq, " ")+" => "+strings.Join(r, "|"))
			}
			if !same {
				st.Mismatches++
				if len(st.Detail) < 10 {
					st.Detail = append(st.Detail, fmt.Sprintf("%s: model %q kernel %q", strings.Join(seq, " "), m, r))
				}
			}
			return
		}
		ops := confAlphabet
		if len(seq) == 0 {
			ops = confStarts
		}
		for _, op := range ops {
			if confLegal(seq, op) {
				rec(append(seq[:len(seq):len(seq)], op))
			}
		}
	}
	rec(nil)
}

// conformChild runs the comparison in a process of its own.
func conformChild() *ConfStats {
	d, b := "4", "15"
	if curTier == "thorough" {
		d, b = "6", "300"
	}
	c := exec.Command(os.Args[0], "-conform", "-confdepth", d, "-budget", b)
	o, err := c.Output()
	st := new(ConfStats)
	if err != nil || json.Unmarshal(o, st) != nil {
		st.Detail = append(st.Detail, fmt.Sprint("conformance run failed: ", err))
	}
	return st
}
