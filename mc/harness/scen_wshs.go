package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net/http"
	"sort"
	"strconv"
	"strings"

	"github.com/Allenxuxu/gev"
	"github.com/Allenxuxu/gev/plugins/websocket/ws"
	"github.com/Allenxuxu/ringbuffer"
	"github.com/gobwas/httphead"

	"gevmc/vkern"
	"gevmc/vs"
)

// hsLine is one line of a request with what is wrong about it: 0 nothing, else
// the status that answers it.
type hsLine struct {
	text string
	bad  int
}

// hsRequest is a request line and header lines by name.
type hsVariant struct {
	name  string // header name
	lines []hsLine
	miss  int // the status when it is missing
}

var hsReqLines = []hsLine{
	{"GET / HTTP/1.1", 0},
	{"GET /a?b=c HTTP/1.1", 0},
	{"GET / HTTP/1.2", 0},
	{"GET / HTTP/1.10", 0},
	{"GET / HTTP/1.0", 505},
	{"GET / HTTP/2.0", 505},
	{"GET / HTTP/0.9", 505},
	{"GET / HTTP/11.1", 505},
	{"POST / HTTP/1.1", 405},
	{"HEAD / HTTP/1.1", 405},
	{"get / HTTP/1.1", 405},
	{"GETT / HTTP/1.1", 405},
	{"GET / HTTP/1.", 400},
	{"GET / HTTP/.1", 400},
	{"GET / HTTP/1.x", 400},
	{"GET / HTTP/1.:", 400},
	{"GET / HTTP/;.1", 400},
	{"GET / HTTP/1", 400},
	{"GET / HTTP/11", 400},
	{"GET / HTTQ/1.1", 400},
	{"GET / http/1.1", 400},
	{"GET / HTTP/18446744073709551617.1", 400},
	{"GET / a HTTP/1.1", 400},
	{"GET /", 400},
	{"GET", 400},
	{"", 400},
}

var hsHeaders = []hsVariant{
	{"Host", []hsLine{{"h", 0}, {"example.com:80", 0}}, 400},
	{"Upgrade", []hsLine{{"websocket", 0}, {"WebSocket", 0}, {"websockets", 400}, {"websocke", 400}, {"h2c", 400}, {"", 400}}, 400},
	{"Connection", []hsLine{{"Upgrade", 0}, {"upgrade", 0}, {"UPGRADE", 0}, {"keep-alive, Upgrade", 0}, {"Upgrade,keep-alive", 0}, {"a,b , upgrade", 0},
		{longTok(31) + ", Upgrade", 0}, {longTok(32) + ", Upgrade", 0}, {longTok(300) + ",upgrade", 0}, {"upgrade, " + longTok(300), 0}, {strings.Repeat("t, ", 100) + "Upgrade", 0}, {strings.Repeat("t, ", 100) + "Upgraded", 400},
		{"keep-alive", 400}, {"Upgraded", 400}, {"Upgrad", 400}, {"no-upgrade, x", 400}, {"", 400}}, 400},
	{"Sec-WebSocket-Version", []hsLine{{"13", 0}, {" 13\t", 0}, {"12", 426}, {"8", 426}, {"130", 426}, {"3", 426}, {"", 426}}, 400},
	{"Sec-WebSocket-Key", []hsLine{{wsKey, 0}, {"AAAAAAAAAAAAAAAAAAAAAA==", 0}, {wsKey[1:], 400}, {wsKey + "=", 400}, {"", 400}}, 400},
}

func longTok(n int) string { return strings.Repeat("x", n) }

var acceptOf = map[string]string{
	wsKey:                      wsAccept,
	"AAAAAAAAAAAAAAAAAAAAAA==": "ICX+Yqv66kxgM0FcWaLWlFLwTAI=",
}

func nameCase(k int, s string) string {
	switch k {
	case 1:
		return strings.ToLower(s)
	case 2:
		return strings.ToUpper(s)
	case 3:
		b := []byte(s)
		for i := range b {
			if i&1 == 0 {
				b[i] = strings.ToLower(string(b[i]))[0]
			} else {
				b[i] = strings.ToUpper(string(b[i]))[0]
			}
		}
		return string(b)
	}
	return s
}

// hsResp is a parsed response.
type hsResp struct {
	status int
	head   map[string][]string // lower-case names
	body   string
	rest   string
	bad    string
}

func parseResp(b string) (r hsResp) {
	i := strings.Index(b, "\r\n\r\n")
	if i < 0 {
		r.bad = "no end of the header"
		return
	}
	lines := strings.Split(b[:i], "\r\n")
	r.rest = b[i+4:]
	f := strings.SplitN(lines[0], " ", 3)
	if len(f) < 3 || f[0] != "HTTP/1.1" || len(f[1]) != 3 {
		r.bad = "bad status line"
		return
	}
	r.status, _ = strconv.Atoi(f[1])
	r.head = map[string][]string{}
	for _, l := range lines[1:] {
		k := strings.IndexByte(l, ':')
		if k <= 0 || strings.ContainsAny(l[:k], " \t") {
			r.bad = "bad header line " + l
			return
		}
		n := strings.ToLower(l[:k])
		r.head[n] = append(r.head[n], strings.TrimSpace(l[k+1:]))
	}
	if v := r.head["content-length"]; v != nil {
		n, err := strconv.Atoi(v[0])
		if err != nil || n < 0 || n > len(r.rest) || len(v) > 1 {
			r.bad = "bad content length"
			return
		}
		r.body, r.rest = r.rest[:n], r.rest[n:]
	}
	return
}

func one(v []string, s string) bool { return len(v) == 1 && v[0] == s }

// judgeUpgrade says what is wrong about the response to a request whose faults
// are answered by the given statuses.
func judgeUpgrade(resp string, faults []int, key string) string {
	r := parseResp(resp)
	if r.bad != "" {
		return r.bad
	}
	if r.rest != "" {
		return "something follows the response"
	}
	if len(faults) == 0 {
		if r.status != 101 {
			return "expected 101"
		}
		if !one(r.head["upgrade"], "websocket") || !one(r.head["connection"], "Upgrade") {
			return "Upgrade or Connection header missing"
		}
		if !one(r.head["sec-websocket-accept"], acceptOf[key]) {
			return "wrong accept token"
		}
		return ""
	}
	for _, f := range faults {
		if f == r.status {
			if f == 426 && !one(r.head["sec-websocket-version"], "13") {
				return "426 without Sec-WebSocket-Version"
			}
			if r.head["sec-websocket-accept"] != nil {
				return "an accept token in a rejection"
			}
			if r.head["content-length"] == nil {
				return "a rejection without Content-Length"
			}
			return ""
		}
	}
	return fmt.Sprintf("expected one of %v", faults)
}

// upgradeAt runs the Upgrader on data lying at an offset of a ring buffer of
// the given size.
func upgradeAt(u *ws.Upgrader, size, off int, data string) (out []byte, hs ws.Handshake, err error, left []byte) {
	rb := ringbuffer.New(size)
	if off > 0 {
		_, _ = rb.Write(make([]byte, off+1))
		rb.Retrieve(off)
		_, _ = rb.Write([]byte(data))
		rb.Retrieve(1)
	} else {
		_, _ = rb.Write([]byte(data))
	}
	out, hs, err = u.Upgrade(nil, rb)
	return out, hs, err, rb.Bytes()
}

func buildReq(line string, hs []string) string {
	return strings.Join(append([]string{line}, hs...), "\r\n") + "\r\n\r\n"
}

var goodHead = []string{"Host: h", "Upgrade: websocket", "Connection: Upgrade", "Sec-WebSocket-Version: 13", "Sec-WebSocket-Key: " + wsKey}

func permutations(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var out [][]int
	for _, p := range permutations(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append(append(append([]int{}, p[:i]...), n-1), p[i:]...)
			out = append(out, q)
		}
	}
	return out
}

type hsErr struct {
	name   string
	err    error
	status int
	head   string
	body   string
}

func init() {
	check := func(e *Enum, u *ws.Upgrader, req string, faults []int, key string) {
		out, _, err, left := upgradeAt(u, 8, 0, req)
		if (err == nil) != (len(faults) == 0) {
			e.Bad("the request %q: Upgrade returns error %v", req, err)
			return
		}
		if m := judgeUpgrade(string(out), faults, key); m != "" {
			e.Bad("the request %q is answered by %q: %s", req, out, m)
			return
		}
		if len(left) != 0 {
			e.Bad("the request %q is not consumed, %q stays", req, left)
		}
		e.State(hashStr(req))
	}
	// every combination of line variants
	add(&Scen{Props: "C20", Name: "hs-combinations", Enum: func(e *Enum) {
		u := &ws.Upgrader{}
		idx := make([]int, 5)
		for _, rl := range hsReqLines {
			var rec func(i int) bool
			rec = func(i int) bool {
				if i == 5 {
					if !e.Begin("%q %v", rl.text, idx) {
						return false
					}
					var faults []int
					if rl.bad != 0 {
						faults = append(faults, rl.bad)
					}
					var hs []string
					key := ""
					for j, h := range hsHeaders {
						if idx[j] == len(h.lines) {
							faults = append(faults, h.miss)
							continue
						}
						l := h.lines[idx[j]]
						hs = append(hs, h.name+": "+l.text)
						if l.bad != 0 {
							faults = append(faults, l.bad)
						}
						if j == 4 {
							key = l.text
						}
					}
					check(e, u, buildReq(rl.text, hs), faults, key)
					return e.Fail == ""
				}
				for idx[i] = 0; idx[i] <= len(hsHeaders[i].lines); idx[i]++ {
					if !rec(i + 1) {
						return false
					}
				}
				return true
			}
			if !rec(0) {
				return
			}
		}
	}})
	// every order and spelling, without or with one fault
	add(&Scen{Props: "C20", Name: "hs-orders", Enum: func(e *Enum) {
		u := &ws.Upgrader{}
		for _, perm := range permutations(5) {
			for cs := 0; cs < 4; cs++ {
				for fault := -1; fault < 5; fault++ {
					nv := 1
					if fault >= 0 {
						nv = len(hsHeaders[fault].lines) + 1
					}
					for v := 0; v < nv; v++ {
						for sp := 0; sp < 3; sp++ {
							if !e.Begin("order %v case %d fault %d/%d space %d", perm, cs, fault, v, sp) {
								return
							}
							var hs []string
							var faults []int
							key := wsKey
							for _, j := range perm {
								h := hsHeaders[j]
								l := h.lines[0]
								if j == fault {
									if v == len(h.lines) {
										faults = append(faults, h.miss)
										continue
									}
									l = h.lines[v]
									if l.bad != 0 {
										faults = append(faults, l.bad)
									}
									if j == 4 {
										key = l.text
									}
								}
								hs = append(hs, nameCase(cs, h.name)+[]string{": ", ":", ":  \t"}[sp]+l.text+[]string{"", "", " "}[sp])
								if cs == 1 {
									hs = append(hs, "X-Extra-"+strconv.Itoa(j)+": y: z")
								}
							}
							check(e, u, buildReq("GET / HTTP/1.1", hs), faults, key)
						}
					}
				}
			}
		}
	}})
	// a line without a colon anywhere
	add(&Scen{Props: "C20", Name: "hs-malformed", Enum: func(e *Enum) {
		u := &ws.Upgrader{}
		for i := 0; i <= 5; i++ {
			for _, l := range []string{"x", "Host", "GET / HTTP/1.1"} {
				if !e.Begin("line %q at %d", l, i) {
					return
				}
				hs := append(append(append([]string{}, goodHead[:i]...), l), goodHead[i:]...)
				check(e, u, buildReq("GET / HTTP/1.1", hs), []int{400}, wsKey)
			}
		}
	}})
	// every incomplete request is left alone, wherever it lies in the buffer
	add(&Scen{Props: "C20", Name: "hs-prefix-and-position", Enum: func(e *Enum) {
		var calls int
		u := &ws.Upgrader{
			OnRequest: func(*gev.Connection, []byte) error { calls++; return nil },
			OnHost:    func(*gev.Connection, []byte) error { calls++; return nil },
			OnHeader:  func(*gev.Connection, []byte, []byte) error { calls++; return nil },
		}
		reqs := []string{wsReq, "GET / HTTP/1.0\r\nHost: h\r\n\r\n", "\r\n\r\n", "POST / HTTP/1.1\r\n\r\n"}
		faults := [][]int{nil, {505, 400}, {400}, {405, 400}}
		for ri, req := range reqs {
			for _, size := range []int{256, 255, 7} {
				for off := 0; off < size; off++ {
					for n := 0; n < len(req); n++ {
						if n%5 != off%5 && off%16 != 0 {
							continue
						}
						if !e.Begin("request %d cut at %d, buffer %d, offset %d", ri, n, size, off) {
							return
						}
						calls = 0
						out, _, err, left := upgradeAt(u, size, off, req[:n])
						if len(out) > 0 || err == nil || string(left) != req[:n] || calls > 0 {
							e.Bad("the incomplete request %q is answered by %q, %v, callbacks %d, left %q", req[:n], out, err, calls, left)
							return
						}
					}
					for _, tail := range []string{"", "\x81", "\x81\x05hello\x88\x00", "GET / HTTP/1.1\r\n\r\n"} {
						if !e.Begin("request %d buffer %d, offset %d, followed by %q", ri, size, off, tail) {
							return
						}
						out, _, _, left := upgradeAt(u, size, off, req+tail)
						if m := judgeUpgrade(string(out), faults[ri], wsKey); m != "" {
							e.Bad("the request %q is answered by %q: %s", req, out, m)
							return
						}
						if string(left) != tail {
							e.Bad("after the request %q %q stays, %q followed it", req, left, tail)
							return
						}
						e.State(hashStr(fmt.Sprint(ri, size, off, tail)))
					}
				}
			}
		}
	}})
	// what the callbacks say
	add(&Scen{Props: "C20", Name: "hs-callbacks", Enum: func(e *Enum) {
		rej := func(opts ...ws.RejectOption) error { return ws.RejectConnectionError(opts...) }
		outs := []hsErr{
			{name: "none"},
			{name: "ok"},
			{name: "error", err: errors.New("plain"), status: 500, body: "plain"},
			{name: "403", err: rej(ws.RejectionStatus(403), ws.RejectionReason("no entry"), ws.RejectionHeader(ws.HandshakeHeaderString("X-Why: because\r\n"))), status: 403, head: "because", body: "no entry"},
			{name: "no status", err: rej(ws.RejectionReason("hm")), status: 500, body: "hm"},
			{name: "no reason", err: rej(ws.RejectionStatus(418)), status: 418},
			{name: "400", err: rej(ws.RejectionStatus(400), ws.RejectionReason("bad")), status: 400, body: "bad"},
		}
		reqs := []struct {
			hs     []string
			faults []int
			extra  string
		}{
			{goodHead, nil, ""},
			{append([]string{"X-A: 1", "Cookie: b=c"}, goodHead...), nil, "X-A=1;Cookie=b=c;"},
			{append(append([]string{}, goodHead...), "X-Z: last"), nil, "X-Z=last;"},
			{goodHead[1:], []int{400}, ""},
			{append(append([]string{}, goodHead[:3]...), "Sec-WebSocket-Version: 7", goodHead[4]), []int{426}, ""},
		}
		n := len(outs)
		for ri, rq := range reqs {
			for k := 0; k < n*n*n*n*2; k++ {
				if !e.Begin("request %d callbacks %d", ri, k) {
					return
				}
				a, b, c, d, withHead := outs[k%n], outs[k/n%n], outs[k/n/n%n], outs[k/n/n/n%n], k >= n*n*n*n
				u := &ws.Upgrader{}
				if withHead {
					u.Header = ws.HandshakeHeaderString("X-Server: gev\r\n")
				}
				uri, host, heads := "", "", ""
				before := 0
				if a.name != "none" {
					u.OnRequest = func(_ *gev.Connection, b []byte) error { uri += string(b); return a.err }
				}
				if b.name != "none" {
					u.OnHost = func(_ *gev.Connection, h []byte) error { host += string(h); return b.err }
				}
				if c.name != "none" {
					u.OnHeader = func(_ *gev.Connection, k, v []byte) error {
						heads += string(k) + "=" + string(v) + ";"
						return c.err
					}
				}
				if d.name != "none" {
					u.OnBeforeUpgrade = func(_ *gev.Connection) (ws.HandshakeHeader, error) {
						before++
						if d.err != nil {
							return nil, d.err
						}
						return ws.HandshakeHeaderString("X-Before: yes\r\n"), nil
					}
				}
				out, _, err, _ := upgradeAt(u, 512, k%512, buildReq("GET /u?v HTTP/1.1", rq.hs))
				var errs []hsErr
				for i, x := range []hsErr{a, b, c} {
					if x.err != nil && (i != 1 || ri != 3) && (i != 2 || rq.extra != "") {
						errs = append(errs, x)
					}
				}
				if len(errs) == 0 && rq.faults == nil && d.err != nil {
					errs = append(errs, d)
				}
				faults := append([]int{}, rq.faults...)
				for _, x := range errs {
					faults = append(faults, x.status)
				}
				r := parseResp(string(out))
				m := ""
				if len(faults) > 0 && r.status == 418 && r.bad == "" { // no reason: an empty body
					for _, f := range faults {
						if f == 418 {
							goto judged
						}
					}
				}
				m = judgeUpgrade(string(out), faults, wsKey)
			judged:
				if m == "" && (err == nil) != (len(faults) == 0) {
					m = fmt.Sprintf("Upgrade returned error %v", err)
				}
				if m == "" && withHead != one(r.head["x-server"], "gev") {
					m = "the header of the upgrader is missing or added"
				}
				if m == "" && len(rq.faults) == 0 && len(errs) == 1 {
					x := errs[0]
					if r.body != x.body {
						m = fmt.Sprintf("the reason is %q, the callback gave %q", r.body, x.body)
					}
					if x.head != "" && !one(r.head["x-why"], x.head) {
						m = "the header chosen by the callback is missing"
					}
				}
				if m == "" && len(faults) == 0 {
					if a.name == "ok" && uri != "/u?v" {
						m = fmt.Sprintf("OnRequest was called with %q", uri)
					}
					if b.name == "ok" && host != "h" {
						m = fmt.Sprintf("OnHost was called with %q", host)
					}
					if c.name == "ok" && heads != rq.extra {
						m = fmt.Sprintf("OnHeader was called with %q, the extra headers are %q", heads, rq.extra)
					}
					if d.name == "ok" && (before != 1 || !one(r.head["x-before"], "yes")) {
						m = "OnBeforeUpgrade was not called once or its header is missing"
					}
				}
				if len(rq.faults) > 0 && before > 0 {
					m = "OnBeforeUpgrade was called for a bad request"
				}
				if m != "" {
					e.Bad("request %q, OnRequest %s, OnHost %s, OnHeader %s, OnBeforeUpgrade %s: response %q: %s", rq.hs, a.name, b.name, c.name, d.name, out, m)
					return
				}
				e.State(uint64(ri)<<32 | uint64(k))
			}
		}
	}})
	// the own headers, in every form they can be given, at every place
	add(&Scen{Props: "C20", Name: "hs-header-forms", Enum: func(e *Enum) {
		long := strings.Repeat("0123456789abcdefg", 300)
		lists := [][][2]string{
			nil,
			{{"X-One", "1"}},
			{{"X-One", "1"}, {"X-Two", "a b"}},
			{{"X-One", ""}, {"X-One", "2"}, {"X-Zero", "z"}},
			{{"X-Long", long}},
			{{"X-Fit", long[:4096-9]}, {"X-Two", "2"}},
		}
		form := func(f int, l [][2]string) ws.HandshakeHeader {
			s, h := "", http.Header{}
			for _, x := range l {
				s += x[0] + ": " + x[1] + "\r\n"
				h[x[0]] = append(h[x[0]], x[1])
			}
			switch f {
			case 0:
				return ws.HandshakeHeaderString(s)
			case 1:
				return ws.HandshakeHeaderBytes(s)
			case 2:
				return ws.HandshakeHeaderFunc(func(w io.Writer) (int64, error) {
					n, err := io.WriteString(w, s)
					return int64(n), err
				})
			default:
				return ws.HandshakeHeaderHTTP(h)
			}
		}
		lines := func(l [][2]string) (n int64) {
			for _, x := range l {
				n += int64(len(x[0]) + len(x[1]) + 4)
			}
			return
		}
		for k := 0; k < 4*4*6*6*2; k++ {
			f1, f2, l1, l2, rejected := k%4, k/4%4, lists[k/16%6], lists[k/96%6], k >= 576
			if !e.Begin("header forms %d", k) {
				return
			}
			var b bytes.Buffer
			if n, err := form(f1, l1).WriteTo(&b); err != nil || n != lines(l1) || int64(b.Len()) != n {
				e.Bad("WriteTo of header form %d with %d lines says %d, %v; %d bytes were written, %d are due", f1, len(l1), n, err, b.Len(), lines(l1))
				return
			}
			u := &ws.Upgrader{Header: form(f1, l1), OnBeforeUpgrade: func(*gev.Connection) (ws.HandshakeHeader, error) {
				if rejected {
					return nil, ws.RejectConnectionError(ws.RejectionStatus(403), ws.RejectionReason("no"), ws.RejectionHeader(form(f2, l2)))
				}
				return form(f2, l2), nil
			}}
			var faults []int
			if rejected {
				faults = []int{403}
			}
			for round := 0; round < 2; round++ {
				out, _, err, _ := upgradeAt(u, 512, k%512, buildReq("GET /u HTTP/1.1", goodHead))
				m := judgeUpgrade(string(out), faults, wsKey)
				if m == "" && (err != nil) != rejected {
					m = fmt.Sprintf("Upgrade returned error %v", err)
				}
				want := map[string][]string{}
				for _, x := range append(append([][2]string{}, l1...), l2...) {
					want[strings.ToLower(x[0])] = append(want[strings.ToLower(x[0])], x[1])
				}
				r := parseResp(string(out))
				for n := range r.head {
					if strings.HasPrefix(n, "x-") && want[n] == nil {
						m = "header " + n + " was not asked for"
					}
				}
				for n, v := range want {
					if m == "" && fmt.Sprint(r.head[n]) != fmt.Sprint(v) {
						m = fmt.Sprintf("header %s is %.40q, should be %.40q", n, r.head[n], v)
					}
				}
				if m != "" {
					e.Bad("own headers of forms %d and %d with %d and %d lines, rejected %v: response %.400q: %s", f1, f2, len(l1), len(l2), rejected, out, m)
					return
				}
			}
			e.State(uint64(k))
		}
	}})
	// sub-protocols
	add(&Scen{Props: "C20", Name: "hs-subprotocols", Enum: func(e *Enum) {
		names := []string{"chat", "Chat", "soap", "x"}
		// every list of up to three names over one or two header lines, every
		// set of names the server knows
		var lists [][]string
		var rec func(l []string, n int)
		rec = func(l []string, n int) {
			if len(l) > 0 {
				lists = append(lists, append([]string{}, l...))
			}
			if n == 0 {
				return
			}
			for _, s := range names {
				rec(append(l, s), n-1)
			}
		}
		rec(nil, 3)
		for _, l := range lists {
			for split := 0; split < len(l); split++ {
				for _, sep := range []string{",", ", ", " , "} {
					for set := 0; set < 16; set++ {
						for mode := 0; mode < 3; mode++ {
							if !e.Begin("subprotocols %q split %d sep %q known %d mode %d", l, split, sep, set, mode) {
								return
							}
							knows := func(s string) bool {
								for i, n := range names {
									if n == s {
										return set>>uint(i)&1 == 1
									}
								}
								return false
							}
							u := &ws.Upgrader{}
							want := ""
							switch mode {
							case 1:
								u.Protocol = func(b []byte) bool { return knows(string(b)) }
							case 2:
								u.ProtocolCustom = func(_ *gev.Connection, v []byte) (string, bool) {
									for _, s := range strings.Split(string(v), ",") {
										if knows(strings.TrimSpace(s)) {
											return strings.TrimSpace(s), true
										}
									}
									return "", true
								}
								u.Protocol = func(b []byte) bool { return true }
							}
							if mode > 0 {
								for _, s := range l {
									if knows(s) {
										want = s
										break
									}
								}
							}
							var hs []string
							if split > 0 {
								hs = append(hs, "Sec-WebSocket-Protocol: "+strings.Join(l[:split], sep))
							}
							hs = append(hs, goodHead...)
							hs = append(hs, "sec-websocket-protocol: "+strings.Join(l[split:], sep))
							out, h, err, _ := upgradeAt(u, 8, 0, buildReq("GET / HTTP/1.1", hs))
							m := judgeUpgrade(string(out), nil, wsKey)
							r := parseResp(string(out))
							got := r.head["sec-websocket-protocol"]
							if m == "" && (err != nil || h.Protocol != want || want == "" && got != nil || want != "" && !one(got, want)) {
								m = fmt.Sprintf("expected the sub-protocol %q", want)
							}
							if m != "" {
								e.Bad("offered %q over %d lines, known %d, mode %d: response %q: %s", l, 1+min0(split, 1), set, mode, out, m)
								return
							}
							e.State(hashStr(fmt.Sprint(l, split, set, mode)))
						}
					}
				}
			}
		}
		// a custom function refusing, and malformed lists
		for _, v := range []string{"a b", "\"x", "a;b=\"", "(x)", "a,,b;"} {
			if !e.Begin("malformed list %q", v) {
				return
			}
			u := &ws.Upgrader{ProtocolCustom: func(*gev.Connection, []byte) (string, bool) { return "", false }}
			out, _, _, _ := upgradeAt(u, 8, 0, buildReq("GET / HTTP/1.1", append([]string{"Sec-WebSocket-Protocol: " + v}, goodHead...)))
			if m := judgeUpgrade(string(out), []int{400}, wsKey); m != "" {
				e.Bad("a refused sub-protocol header is answered by %q: %s", out, m)
			}
			u = &ws.Upgrader{ExtensionCustom: func(_ *gev.Connection, _ []byte, o []httphead.Option) ([]httphead.Option, bool) { return o, false }}
			out, _, _, _ = upgradeAt(u, 8, 0, buildReq("GET / HTTP/1.1", append([]string{"Sec-WebSocket-Extensions: " + v}, goodHead...)))
			if m := judgeUpgrade(string(out), []int{400}, wsKey); m != "" {
				e.Bad("a refused extensions header is answered by %q: %s", out, m)
			}
		}
		for _, v := range []string{"\"x", "a;b=\"", "(x)"} {
			if !e.Begin("malformed extensions %q", v) {
				return
			}
			u := &ws.Upgrader{Extension: func(httphead.Option) bool { return true }}
			out, _, _, _ := upgradeAt(u, 8, 0, buildReq("GET / HTTP/1.1", append([]string{"Sec-WebSocket-Extensions: " + v}, goodHead...)))
			if m := judgeUpgrade(string(out), []int{400}, wsKey); m != "" {
				e.Bad("a malformed extensions header is answered by %q: %s", out, m)
			}
		}
	}})
	// extensions
	add(&Scen{Props: "C20", Name: "hs-extensions", Enum: func(e *Enum) {
		exts := []string{"deflate", "mux; max=4", "foo; bar; x=1"}
		norm := func(s string) string {
			s = strings.ReplaceAll(s, " ", "")
			p := strings.Split(s, ";")
			sort.Strings(p[1:])
			return strings.Join(p, ";")
		}
		for _, perm := range permutations(3) {
			for n := 1; n <= 3; n++ {
				for split := 0; split < n; split++ {
					for set := 0; set < 8; set++ {
						for mode := 0; mode < 3; mode++ {
							if !e.Begin("extensions %v n=%d split=%d accepted=%d mode=%d", perm, n, split, set, mode) {
								return
							}
							acc := func(name string) bool {
								for i, x := range exts {
									if strings.SplitN(x, ";", 2)[0] == name {
										return set>>uint(i)&1 == 1
									}
								}
								return false
							}
							u := &ws.Upgrader{}
							switch mode {
							case 1:
								u.Extension = func(o httphead.Option) bool { return acc(string(o.Name)) }
							case 2:
								u.ExtensionCustom = func(_ *gev.Connection, b []byte, o []httphead.Option) ([]httphead.Option, bool) {
									all, ok := httphead.ParseOptions(b, nil)
									for _, x := range all {
										if acc(string(x.Name)) {
											o = append(o, x)
										}
									}
									return o, ok
								}
							}
							var offered, want []string
							for _, p := range perm[:n] {
								offered = append(offered, exts[p])
								if mode > 0 && set>>uint(p)&1 == 1 {
									want = append(want, norm(exts[p]))
								}
							}
							var hs []string
							if split > 0 {
								hs = append(hs, "Sec-WebSocket-Extensions: "+strings.Join(offered[:split], ", "))
							}
							hs = append(hs, goodHead...)
							hs = append(hs, "Sec-Websocket-Extensions: "+strings.Join(offered[split:], ","))
							out, _, err, _ := upgradeAt(u, 8, 0, buildReq("GET / HTTP/1.1", hs))
							m := judgeUpgrade(string(out), nil, wsKey)
							r := parseResp(string(out))
							var got []string
							for _, v := range r.head["sec-websocket-extensions"] {
								for _, x := range strings.Split(v, ",") {
									got = append(got, norm(x))
								}
							}
							if m == "" && (err != nil || fmt.Sprint(got) != fmt.Sprint(want)) {
								m = fmt.Sprintf("negotiated %v, expected %v", got, want)
							}
							if m != "" {
								e.Bad("offered %q: response %q: %s", offered, out, m)
								return
							}
							e.State(hashStr(fmt.Sprint(perm, n, split, set, mode)))
						}
					}
				}
			}
		}
	}})
	// one Upgrader serves one request after the other: no request answers differently
	// for what was asked before it
	add(&Scen{Props: "C20", Name: "hs-histories", Enum: func(e *Enum) {
		with := func(extra ...string) string {
			return buildReq("GET / HTTP/1.1", append(append([]string{}, goodHead...), extra...))
		}
		reqs := []string{
			with(),
			with("Sec-WebSocket-Protocol: chat"),
			with("Sec-WebSocket-Protocol: soap, chat"),
			with("Sec-WebSocket-Protocol: other"),
			with("Sec-WebSocket-Extensions: deflate"),
			with("Sec-WebSocket-Extensions: mux; max=4, deflate"),
			with("X-A: 1", "X-Deny: yes"),
			buildReq("GET /long/uri/with/many/parts?and=a&query=too HTTP/1.1", append([]string{"Host: another.example.com:8080"}, goodHead[1:]...)),
			buildReq("GET / HTTP/1.0", goodHead),
			buildReq("POST / HTTP/1.1", goodHead),
			buildReq("GET / HTTP/1.1", goodHead[1:]),
			buildReq("GET / HTTP/1.1", goodHead[:4]),
			buildReq("GET / HTTP/1.1", append([]string{"Host: h", "Upgrade: websocket", "Connection: Upgrade", "Sec-WebSocket-Version: 13"}, "Sec-WebSocket-Key: AAAAAAAAAAAAAAAAAAAAAA==")),
			"nonsense\r\n\r\n",
		}
		knows := func(s string) bool { return s == "chat" || s == "soap" }
		modes := []func() *ws.Upgrader{
			func() *ws.Upgrader { return &ws.Upgrader{} },
			func() *ws.Upgrader {
				return &ws.Upgrader{
					Protocol:  func(b []byte) bool { return knows(string(b)) },
					Extension: func(o httphead.Option) bool { return true },
				}
			},
			func() *ws.Upgrader {
				return &ws.Upgrader{
					ProtocolCustom: func(_ *gev.Connection, v []byte) (string, bool) {
						s := strings.TrimSpace(strings.Split(string(v), ",")[0])
						if knows(s) {
							return s, true
						}
						return "", true
					},
					ExtensionCustom: func(_ *gev.Connection, b []byte, o []httphead.Option) ([]httphead.Option, bool) {
						return httphead.ParseOptions(b, o)
					},
					Header: ws.HandshakeHeaderString("X-Server: gev\r\n"),
				}
			},
			func() *ws.Upgrader {
				return &ws.Upgrader{
					Protocol: func(b []byte) bool { return true },
					OnHeader: func(_ *gev.Connection, k, v []byte) error {
						if string(k) == "X-Deny" {
							return ws.RejectConnectionError(ws.RejectionStatus(403), ws.RejectionReason("no"), ws.RejectionHeader(ws.HandshakeHeaderString("X-Why: x\r\n")))
						}
						return nil
					},
					OnBeforeUpgrade: func(*gev.Connection) (ws.HandshakeHeader, error) {
						return ws.HandshakeHeaderString("X-Before: yes\r\n"), nil
					},
				}
			},
		}
		answer := func(u *ws.Upgrader, req string) string {
			out, h, err, left := upgradeAt(u, 8, 0, req)
			return fmt.Sprintf("%q protocol %q extensions %v error %v left %q", out, h.Protocol, h.Extensions, err, left)
		}
		for m, mk := range modes {
			want := make([]string, len(reqs))
			for i, r := range reqs {
				want[i] = answer(mk(), r)
			}
			n := len(reqs)
			for depth, tot := 1, n; depth <= 4; depth, tot = depth+1, tot*n {
				if depth == 4 && m == 0 {
					break
				}
				for x := 0; x < tot; x++ {
					if !e.Begin("upgrader %d history %d of length %d", m, x, depth) {
						return
					}
					u := mk()
					for i, y := 0, x; i < depth; i, y = i+1, y/n {
						if got := answer(u, reqs[y%n]); got != want[y%n] {
							e.Bad("the request %q is answered with %s after %d others on the same Upgrader, and with %s as the first", reqs[y%n], got, i, want[y%n])
							return
						}
					}
					e.State(hashStr(fmt.Sprint(m, depth, x)))
				}
			}
		}
	}})
	// served: cut anywhere, nothing before the end, nothing delivered after a rejection
	type served struct {
		name   string
		req    string
		faults []int
	}
	sv := []served{
		{"good", wsReq, nil},
		{"good-mixed", "GET /x HTTP/1.1\r\nsec-websocket-key:" + wsKey + "\r\nX: y\r\nconnection: keep-alive, upgrade\r\nSEC-WEBSOCKET-VERSION:13\r\nupgrade: WebSocket\r\nhost: h\r\n\r\n", nil},
		{"version", strings.Replace(wsReq, "Version: 13", "Version: 9", 1), []int{426}},
		{"key", strings.Replace(wsReq, wsKey, wsKey[2:], 1), []int{400}},
		{"method", strings.Replace(wsReq, "GET", "PUT", 1), []int{405}},
		{"http10", strings.Replace(wsReq, "HTTP/1.1", "HTTP/1.0", 1), []int{505}},
		{"line", strings.Replace(wsReq, "GET / HTTP/1.1", "hello", 1), []int{400}},
		{"callback", strings.Replace(wsReq, "Host: h", "Host: forbidden", 1), []int{403}},
		{"nothing", "\r\n\r\n", []int{400}},
	}
	for _, v := range sv {
		v := v
		add(&Scen{Props: "C20 C25", Name: "hs-served-" + v.name, Steps: 4000000, Body: func() {
			vkern.Reset()
			sizes([]int{8, 61, 512}[vs.ChooseFree(3, "packet size")])
			h := &wsH{echo: altEcho}
			u := &ws.Upgrader{OnHost: func(_ *gev.Connection, host []byte) error {
				if string(host) == "forbidden" {
					return ws.RejectConnectionError(ws.RejectionStatus(403), ws.RejectionReason("no"))
				}
				return nil
			}}
			g := newWS(h, u)
			g.start()
			vs.Serial(true)
			d := []int{0, 1, 2, 4, 40}[vs.ChooseFree(5, "distance")]
			for k := 1; k <= len(v.req); k++ {
				h.recs = nil
				c := vkern.Connect(addr, "w")
				last := 0
				ends := []int{k, k + d, len(v.req)}
				if d == 0 && k > 1 { // byte by byte
					if k > 2 {
						break
					}
					ends = ends[:0]
					for i := 1; i <= len(v.req); i++ {
						ends = append(ends, i)
					}
				}
				for _, p := range ends {
					if p <= last || p > len(v.req) {
						continue
					}
					c.Send([]byte(v.req[last:p]))
					last = p
					vs.WaitQuiescent()
					if p < len(v.req) {
						c.Drain()
						chk("C20", len(c.Got) == 0 && !c.GotEOF, "the incomplete request %q was answered with %q", v.req[:p], c.Got)
					}
				}
				c.Drain()
				m := judgeUpgrade(string(c.Got), v.faults, wsKey)
				chk("C20", m == "", "the request %q was answered with %q: %s", v.req, c.Got, m)
				c.Got = nil
				c.Send(mtext("after"))
				vs.WaitQuiescent()
				c.Drain()
				n := 0
				if v.faults == nil {
					n = 1
				}
				chk("C20", len(h.of(c).msgs) == n, "a message after the response %v: the application got %q", v.faults, h.of(c).msgs)
				chk("C20", (len(c.Got) > 0) == (n == 1), "a message after the response %v was answered with %q", v.faults, c.Got)
				c.Close()
				vs.WaitQuiescent()
			}
			g.finish()
		}})
	}
	// two clients shaking hands at once, all schedules
	add(&Scen{Props: "C20", Name: "hs-sched", Pre: 1, Steps: 20000, Body: func() {
		vkern.Reset()
		sizes(100)
		vkern.K.TxCap = 100
		h := &wsH{echo: altEcho}
		g := newWS(h, &ws.Upgrader{}, gev.NumLoops(2))
		g.start()
		vs.Serial(true)
		a, b := vkern.Connect(addr, "a"), vkern.Connect(addr, "b")
		quiesce()
		vs.Serial(false)
		bad := strings.Replace(wsReq, wsKey, "x", 1)
		k := []int{len(wsReq) - 1, 101, 30}[vs.ChooseFree(3, "cut")]
		vs.Go("a", func() {
			a.Send([]byte(wsReq[:k]))
			a.Send([]byte(wsReq[k:]))
			a.RecvN(130)
		})
		vs.Go("b", func() {
			b.Send([]byte(bad))
			b.RecvN(90)
		})
		quiesce()
		a.Drain()
		b.Drain()
		quiesce()
		a.Drain()
		b.Drain()
		m := judgeUpgrade(string(a.Got), nil, wsKey)
		chk("C20", m == "", "a good request was answered with %q: %s", a.Got, m)
		m = judgeUpgrade(string(b.Got), []int{400}, wsKey)
		chk("C20", m == "", "a bad request was answered with %q: %s", b.Got, m)
		g.finish()
	}})
}
