package main

import (
	"bytes"
	"fmt"
	stdlog "log"
	"os"
	"reflect"
	"strings"

	"github.com/Allenxuxu/gev"
	"github.com/Allenxuxu/gev/log"

	"gevmc/shim/vos"
	"gevmc/vkern"
	"gevmc/vs"
)

var defaultLogger = log.GetLogger()

// handed is one call of a logger.
type handed struct {
	by   int
	f    bool
	form string
	v    []interface{}
}

type recLog struct {
	id  int
	got *[]handed
}

func (l recLog) Log(v ...interface{}) {
	*l.got = append(*l.got, handed{l.id, false, "", append([]interface{}{}, v...)})
}
func (l recLog) Logf(f string, v ...interface{}) {
	*l.got = append(*l.got, handed{l.id, true, f, append([]interface{}{}, v...)})
}

// logState is what the specification knows.
type logState struct {
	level  int
	logger int
	prefix string
}

type logOp struct {
	name  string
	set   func(st *logState) // a setter
	level int                // the level of a message; 0: unfiltered (Log, Logf)
	f     bool
	fatal bool
	call  func(format string, v []interface{})
}

var logFormats = []string{"a %v", "%d%% of %s", "", "no verbs"}

func logOps(l0, l1 log.Logger) []logOp {
	var ops []logOp
	for l := 0; l <= 5; l++ {
		l := l
		ops = append(ops, logOp{name: fmt.Sprintf("SetLevel(%d)", l), set: func(st *logState) { log.SetLevel(log.Level(l)); st.level = l }})
	}
	ops = append(ops,
		logOp{name: "SetLogger(A)", set: func(st *logState) { log.SetLogger(l0); st.logger = 0 }},
		logOp{name: "SetLogger(B)", set: func(st *logState) { log.SetLogger(l1); st.logger = 1 }},
		logOp{name: "SetPrefix()", set: func(st *logState) { log.SetPrefix(""); st.prefix = "" }},
		logOp{name: "SetPrefix(px)", set: func(st *logState) { log.SetPrefix("px"); st.prefix = "px" }},
		logOp{name: "SetPrefix( )", set: func(st *logState) { log.SetPrefix("- -"); st.prefix = "- -" }},
		logOp{name: "Name(svc)", set: func(st *logState) { log.Name("svc"); st.prefix = "[svc]" }},
	)
	msg := func(name string, level int, p func(v ...interface{})) {
		ops = append(ops, logOp{name: name, level: level, fatal: name == "Fatal", call: func(_ string, v []interface{}) { p(v...) }})
	}
	msgf := func(name string, level int, p func(f string, v ...interface{})) {
		ops = append(ops, logOp{name: name, level: level, f: true, fatal: name == "Fatalf", call: func(f string, v []interface{}) { p(f, v...) }})
	}
	msg("Log", 0, log.Log)
	msg("Fatal", int(log.LevelFatal), log.Fatal)
	msg("Info", int(log.LevelInfo), log.Info)
	msg("Error", int(log.LevelError), log.Error)
	msg("Debug", int(log.LevelDebug), log.Debug)
	msgf("Logf", 0, log.Logf)
	msgf("Fatalf", int(log.LevelFatal), log.Fatalf)
	msgf("Infof", int(log.LevelInfo), log.Infof)
	msgf("Errorf", int(log.LevelError), log.Errorf)
	msgf("Debugf", int(log.LevelDebug), log.Debugf)
	for l := 1; l <= 4; l++ {
		l := l
		msg(fmt.Sprintf("WithLevel(%d)", l), l, func(v ...interface{}) { log.WithLevel(log.Level(l), v...) })
		msgf(fmt.Sprintf("WithLevelf(%d)", l), l, func(f string, v ...interface{}) { log.WithLevelf(log.Level(l), f, v...) })
	}
	return ops
}

// spare makes an argument slice with room behind it.
func spare(n int) (v, full []interface{}) {
	full = []interface{}{"one", 2, nil, struct{ x int }{4}, "z", "zz"}
	return full[:n], full
}

// logStep applies one operation; it returns what is wrong.
func logStep(op *logOp, st *logState, got *[]handed, nargs, form int) (bad string) {
	if op.set != nil {
		op.set(st)
		if int(log.GetLevel()) != st.level {
			return fmt.Sprintf("GetLevel() = %d after SetLevel(%d)", log.GetLevel(), st.level)
		}
		return ""
	}
	*got = (*got)[:0]
	v, full := spare(nargs)
	format := logFormats[form%len(logFormats)]
	exited := false
	func() {
		defer func() {
			if r := recover(); r != nil {
				if c, ok := r.(vos.ExitCode); !ok {
					bad = fmt.Sprintf("panic: %v", r)
				} else if c != 1 {
					bad = fmt.Sprintf("the process ended with code %d, not 1", c)
				}
				exited = true
			}
		}()
		op.call(format, v)
	}()
	if bad != "" {
		return bad
	}
	if exited != op.fatal {
		return fmt.Sprintf("the process exited: %v", exited)
	}
	if _, w := spare(nargs); !reflect.DeepEqual(full, w) {
		return "the caller's arguments were changed"
	}
	want := 0
	if op.level <= st.level || op.level == 0 {
		want = 1
	}
	if len(*got) != want {
		return fmt.Sprintf("handed to the logger %d times, expected %d at level %d", len(*got), want, st.level)
	}
	if want == 0 {
		return ""
	}
	h := (*got)[0]
	if h.by != st.logger {
		return "handed to a logger that is not the current one"
	}
	if h.f != op.f {
		return "handed on by the wrong method (Log for Logf or the reverse)"
	}
	if len(h.v) < nargs || !reflect.DeepEqual(append([]interface{}{}, h.v[len(h.v)-nargs:]...), append([]interface{}{}, v...)) {
		return fmt.Sprintf("arguments %v became %v", v, h.v)
	}
	var head string
	if op.f {
		if len(h.v) != nargs {
			return fmt.Sprintf("arguments %v became %v", v, h.v)
		}
		if !strings.HasSuffix(h.form, format) {
			return fmt.Sprintf("format %q became %q", format, h.form)
		}
		head = h.form[:len(h.form)-len(format)]
	} else {
		for _, x := range h.v[:len(h.v)-nargs] {
			s, ok := x.(string)
			if !ok {
				return fmt.Sprintf("arguments %v became %v", v, h.v)
			}
			head += s
		}
	}
	if strings.TrimSpace(head) != st.prefix || (st.prefix == "" && head != "") {
		return fmt.Sprintf("prefix %q expected, %q came", st.prefix, head)
	}
	return ""
}

func init() {
	// every sequence of operations up to a depth, from the initial state
	for _, mode := range []string{"mixed", "setters"} {
		mode := mode
		add(&Scen{Props: "C28", Name: "log-sequences-" + mode, Enum: func(e *Enum) {
			var got []handed
			l0, l1 := recLog{0, &got}, recLog{1, &got}
			ops := logOps(l0, l1)
			var setters []int
			for i := range ops {
				if ops[i].set != nil {
					setters = append(setters, i)
				}
			}
			defer func() {
				log.SetPrefix("[Gev]")
				setup()
			}()
			depth := 3
			if curTier == "thorough" {
				depth = 4
			}
			var rec func(seq []int)
			play := func(seq []int) string {
				st := logState{level: 2, logger: 0, prefix: "[Gev]"}
				log.SetLevel(2)
				log.SetLogger(l0)
				log.SetPrefix("[Gev]")
				name := ""
				for k, i := range seq {
					name += ops[i].name + "; "
					if bad := logStep(&ops[i], &st, &got, (i+k)%5, i+2*k); bad != "" {
						return name + bad
					}
				}
				e.State(hashStr(fmt.Sprint(st, seq[len(seq)-1])))
				return ""
			}
			rec = func(seq []int) {
				if len(seq) > 0 && (mode == "mixed" || ops[seq[len(seq)-1]].set == nil) {
					if e.Begin("seq %v", seq) {
						if bad := play(seq); bad != "" {
							e.Bad("%s", bad)
							return
						}
					}
				}
				if e.Fail != "" || e.Incomplete {
					return
				}
				if mode == "mixed" {
					if len(seq) == depth {
						return
					}
					for i := range ops {
						rec(append(seq, i))
					}
					return
				}
				// setters, then one message
				if len(seq) > 0 && ops[seq[len(seq)-1]].set == nil {
					return
				}
				for i := range ops {
					if ops[i].set == nil || len(seq) < depth+1 {
						rec(append(seq[:len(seq):len(seq)], i))
					}
				}
			}
			rec(nil)
		}})
	}
	// all levels, also those between and outside, and all argument counts
	add(&Scen{Props: "C28", Name: "log-levels", Enum: func(e *Enum) {
		var got []handed
		l0, l1 := recLog{0, &got}, recLog{1, &got}
		ops := logOps(l0, l1)
		defer func() {
			log.SetPrefix("[Gev]")
			setup()
		}()
		for cur := -2; cur <= 9; cur++ {
			for _, px := range []string{"", "[Gev]", "p", "two words"} {
				for i := range ops {
					if ops[i].set != nil {
						continue
					}
					for nargs := 0; nargs <= 4; nargs++ {
						for form := range logFormats {
							if !e.Begin("level %d prefix %q %s args %d form %d", cur, px, ops[i].name, nargs, form) {
								continue
							}
							log.SetLevel(log.Level(cur))
							log.SetLogger(l0)
							log.SetPrefix(px)
							st := logState{level: cur, prefix: px}
							for k := 0; k < 2; k++ {
								if bad := logStep(&ops[i], &st, &got, nargs, form); bad != "" {
									e.Bad("level %d prefix %q %s: %s", cur, px, ops[i].name, bad)
									return
								}
							}
							e.State(hashStr(fmt.Sprint(cur, px, i)))
						}
					}
				}
			}
		}
		// WithLevel with any level against any current level
		for cur := -2; cur <= 9; cur++ {
			for l := -2; l <= 9; l++ {
				for f := 0; f < 2; f++ {
					if !e.Begin("WithLevel %d at %d f=%d", l, cur, f) {
						continue
					}
					log.SetLevel(log.Level(cur))
					log.SetLogger(l0)
					got = got[:0]
					if f == 0 {
						log.WithLevel(log.Level(l), "x")
					} else {
						log.WithLevelf(log.Level(l), "x")
					}
					if (len(got) == 1) != (l <= cur) || len(got) > 1 {
						e.Bad("a message of level %d was handed on %d times at level %d", l, len(got), cur)
						return
					}
				}
			}
		}
	}})
	// the logger that is there by default prints the message
	add(&Scen{Props: "C28", Name: "log-default-logger", Enum: func(e *Enum) {
		var buf bytes.Buffer
		stdlog.SetOutput(&buf)
		fl := stdlog.Flags()
		stdlog.SetFlags(0)
		log.SetLogger(defaultLogger)
		defer func() {
			stdlog.SetOutput(os.Stderr)
			stdlog.SetFlags(fl)
			log.SetPrefix("[Gev]")
			setup()
		}()
		ops := logOps(nil, nil)
		for cur := 1; cur <= 4; cur++ {
			for _, px := range []string{"", "[Gev]", "p"} {
				for i := range ops {
					for tw := 0; tw < 4; tw++ {
						if ops[i].set != nil || !e.Begin("default logger level %d prefix %q %s message %d", cur, px, ops[i].name, tw) {
							continue
						}
						log.SetLevel(log.Level(cur))
						log.SetPrefix(px)
						buf.Reset()
						v := []interface{}{"m", "essage"}
						form, text := "%s%s", "message"
						switch tw {
						case 1: // no arguments
							v, form, text = nil, "100%%", "100%"
							if !ops[i].f {
								text = ""
							}
						case 2: // one argument, with a verb in it
							v, form, text = []interface{}{"50%d"}, "%s", "50%d"
						case 3: // not strings
							v, form, text = []interface{}{1, 2, nil}, "%d %02d %v", "1 02 <nil>"
							if !ops[i].f {
								text = "1 2 <nil>"
							}
						}
						func() {
							defer func() { recover() }()
							ops[i].call(form, v)
						}()
						out := strings.TrimSpace(buf.String())
						want := text
						if px != "" {
							want = strings.TrimSpace(px + " " + text)
						}
						if ops[i].level > cur {
							want = ""
						}
						if out != want {
							e.Bad("level %d prefix %q: %s printed %q, expected %q", cur, px, ops[i].name, out, want)
							return
						}
					}
				}
			}
		}
	}})
	// what the server logs: the same execution at every level
	add(&Scen{Props: "C28", Name: "log-server", Dev: 2, Body: func() {
		vs.Serial(true)
		level := log.Level(1 + vs.ChooseFree(4, "level"))
		vkern.Reset()
		var got []handed
		g := newRig(&H{onMsg: reply}, gev.NumLoops(2))
		log.SetLogger(recLog{0, &got})
		log.SetLevel(level)
		defer setup()
		vkern.K.F = vkern.Faults{AcceptErr: true, SetNonblock: true, EpollAdd: true, EpollMod: true, EpollEINTR: true}
		g.goStart()
		quiesce()
		var cs []*vkern.Conn
		for i := 0; i < 3; i++ {
			c := vkern.Connect(addr, fmt.Sprint("c", i))
			cs = append(cs, c)
			c.Send([]byte("x"))
			quiesce()
		}
		vkern.K.F = vkern.Faults{}
		for _, c := range cs {
			c.Close()
		}
		quiesce()
		vs.Go("Stop", func() { g.s.Stop() })
		quiesce()
		vs.Outcome(fmt.Sprint(level, len(got)))
		for _, h := range got {
			chk("C28", level >= log.LevelError, "at level %d the server logged %v %v", level, h.form, h.v)
			chk("C28", len(h.v) > 0 && fmt.Sprint(h.v[0]) == "[Gev]" || strings.HasPrefix(h.form, "[Gev]"), "the server logged %v %v without the prefix", h.form, h.v)
		}
	}})
}
